// Written by tools/gen_zoo.py; do not edit.
#![allow(dead_code, unused_imports, unused_braces, clippy::all)]
use nommy_sim::model::*;
use nommy_sim::users::*;
use nommy_sim::val::{ToVal, Val};
use nommy_sim::zoo::*;
use nommy::{bytes, text, Parse, Vec1};

#[derive(Parse)]
pub struct Hdr {
    pub magic: bytes::Tag<b"\x7fELF">,
    #[nommy(parser = bytes::OneOf<b"\x01\x02">)]
    pub class: u8,
    #[nommy(parser = bytes::AnyOf1<b"\x00\x01">)]
    pub data: Vec<u8>,
}
impl ToVal for Hdr {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.magic.to_val(), self.class.to_val(), self.data.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8)]
#[nommy(ignore = bytes::Tag<b" ">)]
#[nommy(prefix = bytes::Tag<b"\xff">)]
#[nommy(suffix = bytes::Tag<b"\xfe">)]
pub struct Frame {
    #[nommy(parser = bytes::OneOf<b"abX">)]
    pub kind: NoX,
    pub body: LenPre,
    #[nommy(inner_parser = bytes::OneOf<b"ab">)]
    #[nommy(seperated_by = bytes::Tag<b"\x00">)]
    #[nommy(trailing = "maybe")]
    pub tail: Vec<u8>,
}
impl ToVal for Frame {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.kind.to_val(), self.body.to_val(), self.tail.to_val()])
    }
}

#[derive(Parse)]
pub struct Frames(
    pub Vec<Frame>,
    pub Option<bytes::Tag<b"\xff\xff">>,
);
impl ToVal for Frames {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8)]
pub enum Op {
    #[nommy(prefix = bytes::Tag<b"\x90">)]
    Nop,
    #[nommy(prefix = bytes::Tag<b"h">)]
    Push(
    [bytes::OneOf<b"\x00\x01\x02\x03">; 4],
),
    #[nommy(prefix = bytes::Tag<b"h">)]
    Push8 {
    #[nommy(parser = bytes::OneOf<b"\x00\x01h">)]
    imm: u8,
},
    #[nommy(prefix = bytes::Tag<b"\xf3">)]
    Rep(
    Box<Op>,
),
}
impl ToVal for Op {
    fn to_val(self) -> Val {
        match self {
            Op::Nop => Val::Var(0, vec![]),
            Op::Push(elem0) => Val::Var(1, vec![elem0.to_val()]),
            Op::Push8 { imm } => Val::Var(2, vec![imm.to_val()]),
            Op::Rep(elem0) => Val::Var(3, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8)]
#[nommy(ignore = bytes::Tag<b"\xcc">)]
pub struct Code(
    pub Vec<Op>,
    pub bytes::Tag<b"\xc3">,
);
impl ToVal for Code {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

#[derive(Parse)]
pub struct Packet {
    #[nommy(prefix = bytes::Tag<b"\x02">)]
    pub len: LenPre,
    pub crc: [bytes::OneOf<b"abX">; 2],
    #[nommy(parser = bytes::OneOf<b"aX">)]
    pub k: NoX,
    pub name: Box<Quoted>,
}
impl ToVal for Packet {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.len.to_val(), self.crc.to_val(), self.k.to_val(), self.name.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8)]
#[nommy(suffix = bytes::Tag<b"\x04">)]
pub struct Packets(
    pub Vec1<Box<Packet>>,
    #[nommy(prefix = bytes::Tag<b"\x03">)]
    pub [Num; 2],
);
impl ToVal for Packets {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

pub fn defs() -> Vec<Def> {
    vec![
        Def { name: "Hdr", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "magic", prefix: None, suffix: None, body: Body::Plain(btag(b"\x7fELF"), Cv::No) }, Field { name: "class", prefix: None, suffix: None, body: Body::Plain(bone(b"\x01\x02"), Cv::No) }, Field { name: "data", prefix: None, suffix: None, body: Body::Plain(bany1(b"\x00\x01"), Cv::No) }]) },
        Def { name: "Frame", attrs: Attrs { ignore: vec![btag(b" ")], prefix: Some(btag(b"\xff")), suffix: Some(btag(b"\xfe")) }, kind: Kind::Struct(vec![Field { name: "kind", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::NotX) }, Field { name: "body", prefix: None, suffix: None, body: Body::Plain(G::LenPre, Cv::No) }, Field { name: "tail", prefix: None, suffix: None, body: Body::List { g: bone(b"ab"), cv: Cv::No, sep: Some(btag(b"\x00")), trailing: Tr::Maybe } }]) },
        Def { name: "Frames", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(1)), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(btag(b"\xff\xff")), Cv::No) }]) },
        Def { name: "Op", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Nop", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"\x90")), suffix: None }, fields: vec![] }, Variant { name: "Push", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"h")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(arr(bone(b"\x00\x01\x02\x03"), 4), Cv::No) }] }, Variant { name: "Push8", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"h")), suffix: None }, fields: vec![Field { name: "imm", prefix: None, suffix: None, body: Body::Plain(bone(b"\x00\x01h"), Cv::No) }] }, Variant { name: "Rep", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"\xf3")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(3)), Cv::No) }] }]) },
        Def { name: "Code", attrs: Attrs { ignore: vec![btag(b"\xcc")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(3)), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(btag(b"\xc3"), Cv::No) }]) },
        Def { name: "Packet", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "len", prefix: Some(btag(b"\x02")), suffix: None, body: Body::Plain(G::LenPre, Cv::No) }, Field { name: "crc", prefix: None, suffix: None, body: Body::Plain(arr(bone(b"abX"), 2), Cv::No) }, Field { name: "k", prefix: None, suffix: None, body: Body::Plain(bone(b"aX"), Cv::NotX) }, Field { name: "name", prefix: None, suffix: None, body: Body::Plain(bx(G::Quoted), Cv::No) }]) },
        Def { name: "Packets", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(btag(b"\x04")) }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(bx(G::Ty(5))), Cv::No) }, Field { name: "elem1", prefix: Some(btag(b"\x03")), suffix: None, body: Body::Plain(arr(G::Number, 2), Cv::No) }]) },
    ]
}

pub fn entries() -> Vec<Entry<u8>> {
    vec![
        entry::<bytes::Tag<b"a">, _>("bytes::Tag<b\"a\">", btag(b"a"), PRIM),
        entry::<bytes::Tag<b"ab">, _>("bytes::Tag<b\"ab\">", btag(b"ab"), PRIM),
        entry::<bytes::Tag<b"\x00\xff">, _>("bytes::Tag<b\"\\x00\\xff\">", btag(b"\x00\xff"), PRIM),
        entry::<bytes::Tag<b"\x7f\x80\x81">, _>("bytes::Tag<b\"\\x7f\\x80\\x81\">", btag(b"\x7f\x80\x81"), PRIM),
        entry::<bytes::Tag<b"aaab">, _>("bytes::Tag<b\"aaab\">", btag(b"aaab"), PRIM),
        entry::<bytes::Tag<b"">, _>("bytes::Tag<b\"\">", btag(b""), PRIM),
        entry::<bytes::OneOf<b"a">, _>("bytes::OneOf<b\"a\">", bone(b"a"), PRIM),
        entry::<bytes::AnyOf1<b"a">, _>("bytes::AnyOf1<b\"a\">", bany1(b"a"), PRIM),
        entry::<bytes::OneOf<b"ab">, _>("bytes::OneOf<b\"ab\">", bone(b"ab"), PRIM),
        entry::<bytes::AnyOf1<b"ab">, _>("bytes::AnyOf1<b\"ab\">", bany1(b"ab"), PRIM),
        entry::<bytes::OneOf<b"\x00\x80\xff">, _>("bytes::OneOf<b\"\\x00\\x80\\xff\">", bone(b"\x00\x80\xff"), PRIM),
        entry::<bytes::AnyOf1<b"\x00\x80\xff">, _>("bytes::AnyOf1<b\"\\x00\\x80\\xff\">", bany1(b"\x00\x80\xff"), PRIM),
        entry::<bytes::OneOf<b"01234567">, _>("bytes::OneOf<b\"01234567\">", bone(b"01234567"), PRIM),
        entry::<bytes::AnyOf1<b"01234567">, _>("bytes::AnyOf1<b\"01234567\">", bany1(b"01234567"), PRIM),
        entry::<bytes::OneOf<b"xyzABaeiou019">, _>("bytes::OneOf<b\"xyzABaeiou019\">", bone(b"xyzABaeiou019"), PRIM),
        entry::<bytes::AnyOf1<b"xyzABaeiou019">, _>("bytes::AnyOf1<b\"xyzABaeiou019\">", bany1(b"xyzABaeiou019"), PRIM),
        entry::<bytes::OneOf<b"\xff\xfe\xfd\xfc\xfb\xfa\xf9\xf8\xf7\xf6\xf5\xf4\xf3\xf2\xf1\xf0\xef\xee\xed\xec\xeb\xea\xe9\xe8\xe7\xe6\xe5\xe4\xe3\xe2">, _>("bytes::OneOf<b\"\\xff\\xfe\\xfd\\xfc\\xfb\\xfa\\xf9\\xf8\\xf7\\xf6\\xf5\\xf4\\xf3\\xf2\\xf1\\xf0\\xef\\xee\\xed\\xec\\xeb\\xea\\xe9\\xe8\\xe7\\xe6\\xe5\\xe4\\xe3\\xe2\">", bone(b"\xff\xfe\xfd\xfc\xfb\xfa\xf9\xf8\xf7\xf6\xf5\xf4\xf3\xf2\xf1\xf0\xef\xee\xed\xec\xeb\xea\xe9\xe8\xe7\xe6\xe5\xe4\xe3\xe2"), PRIM),
        entry::<bytes::AnyOf1<b"\xff\xfe\xfd\xfc\xfb\xfa\xf9\xf8\xf7\xf6\xf5\xf4\xf3\xf2\xf1\xf0\xef\xee\xed\xec\xeb\xea\xe9\xe8\xe7\xe6\xe5\xe4\xe3\xe2">, _>("bytes::AnyOf1<b\"\\xff\\xfe\\xfd\\xfc\\xfb\\xfa\\xf9\\xf8\\xf7\\xf6\\xf5\\xf4\\xf3\\xf2\\xf1\\xf0\\xef\\xee\\xed\\xec\\xeb\\xea\\xe9\\xe8\\xe7\\xe6\\xe5\\xe4\\xe3\\xe2\">", bany1(b"\xff\xfe\xfd\xfc\xfb\xfa\xf9\xf8\xf7\xf6\xf5\xf4\xf3\xf2\xf1\xf0\xef\xee\xed\xec\xeb\xea\xe9\xe8\xe7\xe6\xe5\xe4\xe3\xe2"), PRIM),
        entry::<bytes::OneOf<b"\x7f\x80\x00\x01 ~">, _>("bytes::OneOf<b\"\\x7f\\x80\\x00\\x01 ~\">", bone(b"\x7f\x80\x00\x01 ~"), PRIM),
        entry::<bytes::AnyOf1<b"\x7f\x80\x00\x01 ~">, _>("bytes::AnyOf1<b\"\\x7f\\x80\\x00\\x01 ~\">", bany1(b"\x7f\x80\x00\x01 ~"), PRIM),
        entry::<bytes::Tag<b"abc">, _>("bytes::Tag<b\"abc\">", btag(b"abc"), PRIM),
        entry::<Option<bytes::Tag<b"abc">>, _>("Option<bytes::Tag<b\"abc\">>", opt(btag(b"abc")), CONT),
        entry::<bytes::Tag<b"abcd">, _>("bytes::Tag<b\"abcd\">", btag(b"abcd"), PRIM),
        entry::<Option<bytes::Tag<b"abcd">>, _>("Option<bytes::Tag<b\"abcd\">>", opt(btag(b"abcd")), CONT),
        entry::<bytes::Tag<b"abcdefgh">, _>("bytes::Tag<b\"abcdefgh\">", btag(b"abcdefgh"), PRIM),
        entry::<Option<bytes::Tag<b"abcdefgh">>, _>("Option<bytes::Tag<b\"abcdefgh\">>", opt(btag(b"abcdefgh")), CONT),
        entry::<bytes::Tag<b"abcdefghi">, _>("bytes::Tag<b\"abcdefghi\">", btag(b"abcdefghi"), PRIM),
        entry::<Option<bytes::Tag<b"abcdefghi">>, _>("Option<bytes::Tag<b\"abcdefghi\">>", opt(btag(b"abcdefghi")), CONT),
        entry::<bytes::Tag<b"aAaAaB">, _>("bytes::Tag<b\"aAaAaB\">", btag(b"aAaAaB"), PRIM),
        entry::<Option<bytes::Tag<b"aAaAaB">>, _>("Option<bytes::Tag<b\"aAaAaB\">>", opt(btag(b"aAaAaB")), CONT),
        entry::<bytes::Tag<b"GIF89a\x00\x00\x00\x01">, _>("bytes::Tag<b\"GIF89a\\x00\\x00\\x00\\x01\">", btag(b"GIF89a\x00\x00\x00\x01"), PRIM),
        entry::<Option<bytes::Tag<b"GIF89a\x00\x00\x00\x01">>, _>("Option<bytes::Tag<b\"GIF89a\\x00\\x00\\x00\\x01\">>", opt(btag(b"GIF89a\x00\x00\x00\x01")), CONT),
        entry::<Lst<bytes::OneOf<b"aX">, NoX, Never, bytes::Tag<b"-">, {4}, 0>, _>("Lst<bytes::OneOf<b\"aX\">, NoX, Never, bytes::Tag<b\"-\">, {4}, 0>", lst(bone(b"aX"), Cv::NotX, None, Tr::No, vec![btag(b"-")], 4), LIST),
        entry::<Lst<bytes::OneOf<b"ab">, u8, bytes::Tag<b",">, bytes::Tag<b" ">, {4}, 1>, _>("Lst<bytes::OneOf<b\"ab\">, u8, bytes::Tag<b\",\">, bytes::Tag<b\" \">, {4}, 1>", lst(bone(b"ab"), Cv::No, Some(btag(b",")), Tr::No, vec![btag(b" ")], 4), LIST),
        entry::<Lst<bytes::OneOf<b"aX">, NoX, Never, bytes::Tag<b"-">, {8}, 0>, _>("Lst<bytes::OneOf<b\"aX\">, NoX, Never, bytes::Tag<b\"-\">, {8}, 0>", lst(bone(b"aX"), Cv::NotX, None, Tr::No, vec![btag(b"-")], 8), LIST),
        entry::<Lst<bytes::OneOf<b"ab">, u8, bytes::Tag<b",">, bytes::Tag<b" ">, {8}, 1>, _>("Lst<bytes::OneOf<b\"ab\">, u8, bytes::Tag<b\",\">, bytes::Tag<b\" \">, {8}, 1>", lst(bone(b"ab"), Cv::No, Some(btag(b",")), Tr::No, vec![btag(b" ")], 8), LIST),
        entry::<Option<bytes::Tag<b"ab">>, _>("Option<bytes::Tag<b\"ab\">>", opt(btag(b"ab")), CONT),
        entry::<Vec<bytes::Tag<b"ab">>, _>("Vec<bytes::Tag<b\"ab\">>", vec_(btag(b"ab")), CONT),
        entry::<Vec1<bytes::OneOf<b"ab">>, _>("Vec1<bytes::OneOf<b\"ab\">>", vec1(bone(b"ab")), CONT),
        entry::<[bytes::OneOf<b"ab">; 3], _>("[bytes::OneOf<b\"ab\">; 3]", arr(bone(b"ab"), 3), CONT),
        entry::<Vec<[bytes::OneOf<b"\x00\xff">; 2]>, _>("Vec<[bytes::OneOf<b\"\\x00\\xff\">; 2]>", vec_(arr(bone(b"\x00\xff"), 2)), CONT),
        entry::<Box<bytes::AnyOf1<b"ab">>, _>("Box<bytes::AnyOf1<b\"ab\">>", bx(bany1(b"ab")), CONT),
        entry::<Option<bytes::Tag<b"\x00\x00\x01">>, _>("Option<bytes::Tag<b\"\\x00\\x00\\x01\">>", opt(btag(b"\x00\x00\x01")), CONT),
        entry::<[Option<bytes::Tag<b"\x80\x80">>; 2], _>("[Option<bytes::Tag<b\"\\x80\\x80\">>; 2]", arr(opt(btag(b"\x80\x80")), 2), CONT),
        entry::<Vec<LenPre>, _>("Vec<LenPre>", vec_(G::LenPre), CONT),
        entry::<Num, _>("Num", G::Number, CONT),
        entry::<Quoted, _>("Quoted", G::Quoted, CONT),
        entry::<Vec1<bytes::Tag<b"\xff\xfe">>, _>("Vec1<bytes::Tag<b\"\\xff\\xfe\">>", vec1(btag(b"\xff\xfe")), CONT),
        entry::<Lst<bytes::AnyOf1<b"ab">, Vec<u8>, bytes::Tag<b"\x00">, bytes::Tag<b" ">, {usize::MAX}, 1>, _>("Lst<bytes::AnyOf1<b\"ab\">, Vec<u8>, bytes::Tag<b\"\\x00\">, bytes::Tag<b\" \">, {usize::MAX}, 1>", lst(bany1(b"ab"), Cv::No, Some(btag(b"\x00")), Tr::No, vec![btag(b" ")], usize::MAX), LIST),
        entry::<Lst<bytes::OneOf<b"aX">, NoX, bytes::Tag<b"\x00\x00">, bytes::Tag<b"\x00">, {3}, 1>, _>("Lst<bytes::OneOf<b\"aX\">, NoX, bytes::Tag<b\"\\x00\\x00\">, bytes::Tag<b\"\\x00\">, {3}, 1>", lst(bone(b"aX"), Cv::NotX, Some(btag(b"\x00\x00")), Tr::No, vec![btag(b"\x00")], 3), LIST),
        entry::<Lst<bytes::AnyOf1<b"ab">, Vec<u8>, bytes::Tag<b"\x00">, bytes::Tag<b" ">, {usize::MAX}, 2>, _>("Lst<bytes::AnyOf1<b\"ab\">, Vec<u8>, bytes::Tag<b\"\\x00\">, bytes::Tag<b\" \">, {usize::MAX}, 2>", lst(bany1(b"ab"), Cv::No, Some(btag(b"\x00")), Tr::Yes, vec![btag(b" ")], usize::MAX), LIST),
        entry::<Lst<bytes::OneOf<b"aX">, NoX, bytes::Tag<b"\x00\x00">, bytes::Tag<b"\x00">, {3}, 2>, _>("Lst<bytes::OneOf<b\"aX\">, NoX, bytes::Tag<b\"\\x00\\x00\">, bytes::Tag<b\"\\x00\">, {3}, 2>", lst(bone(b"aX"), Cv::NotX, Some(btag(b"\x00\x00")), Tr::Yes, vec![btag(b"\x00")], 3), LIST),
        entry::<Lst<bytes::AnyOf1<b"ab">, Vec<u8>, bytes::Tag<b"\x00">, bytes::Tag<b" ">, {usize::MAX}, 3>, _>("Lst<bytes::AnyOf1<b\"ab\">, Vec<u8>, bytes::Tag<b\"\\x00\">, bytes::Tag<b\" \">, {usize::MAX}, 3>", lst(bany1(b"ab"), Cv::No, Some(btag(b"\x00")), Tr::Maybe, vec![btag(b" ")], usize::MAX), LIST),
        entry::<Lst<bytes::OneOf<b"aX">, NoX, bytes::Tag<b"\x00\x00">, bytes::Tag<b"\x00">, {3}, 3>, _>("Lst<bytes::OneOf<b\"aX\">, NoX, bytes::Tag<b\"\\x00\\x00\">, bytes::Tag<b\"\\x00\">, {3}, 3>", lst(bone(b"aX"), Cv::NotX, Some(btag(b"\x00\x00")), Tr::Maybe, vec![btag(b"\x00")], 3), LIST),
        entry::<Lst<bytes::OneOf<b"ab">, u8, Never, bytes::Tag<b"\x00">, {usize::MAX}, 0>, _>("Lst<bytes::OneOf<b\"ab\">, u8, Never, bytes::Tag<b\"\\x00\">, {usize::MAX}, 0>", lst(bone(b"ab"), Cv::No, None, Tr::No, vec![btag(b"\x00")], usize::MAX), LIST),
        entry::<Lst<bytes::OneOf<b"ab">, u8, Never, Never, {2}, 0>, _>("Lst<bytes::OneOf<b\"ab\">, u8, Never, Never, {2}, 0>", lst(bone(b"ab"), Cv::No, None, Tr::No, vec![], 2), LIST),
        entry::<Hdr, _>("Hdr", G::Ty(0), STRUCT),
        entry::<Frame, _>("Frame", G::Ty(1), STRUCT | LIST),
        entry::<Frames, _>("Frames", G::Ty(2), STRUCT),
        entry::<Op, _>("Op", G::Ty(3), ENUM),
        entry::<Code, _>("Code", G::Ty(4), STRUCT),
        entry::<Vec<Op>, _>("Vec<Op>", vec_(G::Ty(3)), CONT),
        entry::<Packet, _>("Packet", G::Ty(5), STRUCT),
        entry::<Packets, _>("Packets", G::Ty(6), STRUCT),
        entry::<[Quoted; 2], _>("[Quoted; 2]", arr(G::Quoted, 2), CONT),
        entry::<Vec1<LenPre>, _>("Vec1<LenPre>", vec1(G::LenPre), CONT),
        entry::<Box<Box<Quoted>>, _>("Box<Box<Quoted>>", bx(bx(G::Quoted)), CONT),
        entry::<[Packet; 2], _>("[Packet; 2]", arr(G::Ty(5), 2), CONT),
    ]
}
