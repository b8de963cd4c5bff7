// Written by tools/gen_zoo.py; do not edit.
#![allow(dead_code, unused_imports, unused_braces, clippy::all)]
use nommy_sim::model::*;
use nommy_sim::users::*;
use nommy_sim::val::{ToVal, Val};
use nommy_sim::zoo::*;
use nommy::{bytes, text, Parse, Vec1};

#[derive(Parse)]
#[nommy(parse_type = u8)]
pub struct R0(
    pub bytes::Tag<b")">,
);
impl ToVal for R0 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val()])
    }
}

#[derive(Parse)]
#[nommy(suffix = bytes::Tag<b"\xff\x00">)]
pub struct R1<A, B> {
    #[nommy(suffix = bytes::Tag<b"b">)]
    pub x: Vec1<[bytes::Tag<b"b">; 1]>,
    pub y: B,
    pub z: Lst<bytes::Tag<b"aa">, bytes::Tag<b"aa">, bytes::AnyOf1<b"ab">, A, {usize::MAX}, 3>,
    pub w: B,
    #[nommy(parser = bytes::OneOf<b"abX">)]
    pub r: u8,
    #[nommy(prefix = bytes::Tag<b",">)]
    pub s: B,
    #[nommy(parser = bytes::OneOf<b"abX">)]
    pub t: NoX,
    #[nommy(prefix = bytes::Tag<b"c">)]
    pub u: R0,
    #[nommy(prefix = bytes::Tag<b"c">, inner_parser = B, seperated_by = bytes::OneOf<b"zbyaxc,() ">, trailing = "maybe")]
    pub v: Vec<B>,
    #[nommy(inner_parser = Vec1<A>)]
    #[nommy(seperated_by = bytes::OneOf<b"zbyaxc,() ">)]
    #[nommy(trailing = "yes")]
    pub m: Vec<Vec1<A>>,
    pub n: bytes::OneOf<b"0123456789">,
    #[nommy(prefix = bytes::OneOf<b"zbyaxc,() ">)]
    pub o: Vec<A>,
}
impl<A: ToVal, B: ToVal> ToVal for R1<A, B> {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val(), self.z.to_val(), self.w.to_val(), self.r.to_val(), self.s.to_val(), self.t.to_val(), self.u.to_val(), self.v.to_val(), self.m.to_val(), self.n.to_val(), self.o.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8)]
#[nommy(ignore = bytes::Tag<b"ab">)]
#[nommy(prefix = bytes::Tag<b"aa">)]
pub struct R2 {
    #[nommy(prefix = bytes::Tag<b"c">)]
    #[nommy(inner_parser = bytes::OneOf<b"abX">)]
    #[nommy(seperated_by = bytes::OneOf<b"\x00\xff">)]
    #[nommy(trailing = "maybe")]
    pub x: Vec<NoX>,
    #[nommy(parser = bytes::AnyOf1<b"bc">)]
    pub y: Vec<u8>,
}
impl ToVal for R2 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8)]
#[nommy(suffix = bytes::Tag<b")">)]
pub enum R3 {
    #[nommy(ignore = bytes::OneOf<b"\x00\xff">)]
    #[nommy(ignore = bytes::OneOf<b"0123456789">)]
    V0(
    bytes::OneOf<b"abX">,
    bytes::Tag<b"abca">,
),
    #[nommy(prefix = Vec1<bytes::OneOf<b"abX">>)]
    #[nommy(suffix = bytes::Tag<b"abca">)]
    V1,
    #[nommy(prefix = bytes::Tag<b"(">)]
    V2,
}
impl ToVal for R3 {
    fn to_val(self) -> Val {
        match self {
            R3::V0(elem0, elem1) => Val::Var(0, vec![elem0.to_val(), elem1.to_val()]),
            R3::V1 => Val::Var(1, vec![]),
            R3::V2 => Val::Var(2, vec![]),
        }
    }
}

#[derive(Parse)]
pub struct R4(
    pub bytes::OneOf<b"bc">,
    #[nommy(suffix = bytes::Tag<b"a">)]
    pub Lst<Vec<bytes::Tag<b"ba">>, Vec<bytes::Tag<b"ba">>, bytes::Tag<b"(">, Never, {6}, 1>,
);
impl ToVal for R4 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = R4)]
#[nommy(ignore = bytes::Tag<b",">)]
pub struct R5(
    #[nommy(suffix = bytes::Tag<b"a">)]
    #[nommy(parser = bytes::OneOf<b"abX">)]
    pub NoX,
    #[nommy(prefix = bytes::Tag<b" ">, parser = bytes::OneOf<b"ab">)]
    pub u8,
);
impl ToVal for R5 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8)]
pub enum R6 {
    #[nommy(prefix = bytes::Tag<b"ab">)]
    #[nommy(suffix = bytes::Tag<b"c">)]
    V0(
    Option<Box<R6>>,
),
    V1(
    #[nommy(suffix = bytes::Tag<b"ab">)]
    R0,
    Box<bytes::OneOf<b"ab">>,
    #[nommy(prefix = bytes::Tag<b"\x00">)]
    Option<bytes::Tag<b"\xff\x00">>,
    #[nommy(suffix = bytes::Tag<b"abca">)]
    #[nommy(parser = bytes::AnyOf1<b"ab">)]
    Vec<u8>,
),
    #[nommy(prefix = bytes::Tag<b"ab">)]
    V2 {
    #[nommy(prefix = bytes::Tag<b"aab">)]
    #[nommy(parser = bytes::OneOf<b"abX">)]
    x: NoX,
    #[nommy(parser = bytes::OneOf<b"abX">)]
    y: NoX,
    z: bytes::OneOf<b"abX">,
    w: bytes::Tag<b"b">,
},
}
impl ToVal for R6 {
    fn to_val(self) -> Val {
        match self {
            R6::V0(elem0) => Val::Var(0, vec![elem0.to_val()]),
            R6::V1(elem0, elem1, elem2, elem3) => Val::Var(1, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val()]),
            R6::V2 { x, y, z, w } => Val::Var(2, vec![x.to_val(), y.to_val(), z.to_val(), w.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = bytes::AnyOf1<b"abX">)]
#[nommy(ignore = bytes::AnyOf1<b"0123456789">)]
pub enum R7 {
    #[nommy(prefix = bytes::Tag<b"aab">)]
    V0,
    V1 {
    #[nommy(prefix = [bytes::AnyOf1<b"ab">; 3])]
    x: R1<bytes::AnyOf1<b"ab">, bytes::OneOf<b"zbyaxc,() ">>,
    #[nommy(parser = bytes::OneOf<b"bc">)]
    y: u8,
    #[nommy(suffix = bytes::Tag<b"aab">)]
    z: bytes::OneOf<b"0123456789">,
    #[nommy(suffix = R4)]
    #[nommy(parser = bytes::AnyOf1<b"zbyaxc,() ">)]
    w: Vec<u8>,
    r: bytes::OneOf<b"0123456789">,
},
}
impl ToVal for R7 {
    fn to_val(self) -> Val {
        match self {
            R7::V0 => Val::Var(0, vec![]),
            R7::V1 { x, y, z, w, r } => Val::Var(1, vec![x.to_val(), y.to_val(), z.to_val(), w.to_val(), r.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = bytes::OneOf<b"bc">)]
#[nommy(prefix = bytes::Tag<b"abca">)]
pub struct R8<A>(
    #[nommy(prefix = R6)]
    pub bytes::OneOf<b"\x00\xff">,
    pub Option<Vec1<A>>,
    pub Vec<A>,
    #[nommy(suffix = bytes::Tag<b"abca">)]
    pub R3,
);
impl<A: ToVal> ToVal for R8<A> {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8)]
pub enum R9 {
    #[nommy(prefix = bytes::Tag<b"c">)]
    V0(
    Box<R9>,
),
    #[nommy(prefix = bytes::Tag<b"ab">)]
    V1 {
    #[nommy(inner_parser = bytes::OneOf<b"ab">)]
    #[nommy(seperated_by = bytes::OneOf<b"abX">)]
    x: Vec<u8>,
    y: bytes::Tag<b"b">,
    z: Vec1<bytes::AnyOf1<b"0123456789">>,
    #[nommy(prefix = Vec1<bytes::OneOf<b"zbyaxc,() ">>)]
    #[nommy(parser = bytes::AnyOf1<b"a">)]
    w: Vec<u8>,
    #[nommy(inner_parser = bytes::OneOf<b"abX">)]
    #[nommy(seperated_by = bytes::OneOf<b"ab">)]
    #[nommy(trailing = "maybe")]
    r: Vec<NoX>,
    #[nommy(parser = bytes::OneOf<b"abX">)]
    s: NoX,
    #[nommy(suffix = bytes::Tag<b")">)]
    #[nommy(inner_parser = bytes::OneOf<b"abX">)]
    #[nommy(seperated_by = bytes::OneOf<b"a">)]
    #[nommy(trailing = "no")]
    t: Vec<u8>,
    #[nommy(inner_parser = R0)]
    #[nommy(seperated_by = bytes::Tag<b"b">)]
    #[nommy(trailing = "yes")]
    u: Vec<R0>,
},
}
impl ToVal for R9 {
    fn to_val(self) -> Val {
        match self {
            R9::V0(elem0) => Val::Var(0, vec![elem0.to_val()]),
            R9::V1 { x, y, z, w, r, s, t, u } => Val::Var(1, vec![x.to_val(), y.to_val(), z.to_val(), w.to_val(), r.to_val(), s.to_val(), t.to_val(), u.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8, suffix = bytes::Tag<b"aa">)]
pub struct R10 {
    #[nommy(suffix = bytes::Tag<b"c">)]
    pub x: bytes::Tag<b"\x01\x02\x03">,
    pub y: Option<bytes::OneOf<b"ab">>,
}
impl ToVal for R10 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val()])
    }
}

#[derive(Parse)]
#[nommy(prefix = bytes::Tag<b"b">, suffix = [bytes::OneOf<b"a">; 3])]
pub enum R11 {
    #[nommy(prefix = bytes::Tag<b"b">)]
    V0,
    #[nommy(suffix = bytes::Tag<b"b">)]
    V1(
    Vec1<bytes::OneOf<b"ab">>,
),
}
impl ToVal for R11 {
    fn to_val(self) -> Val {
        match self {
            R11::V0 => Val::Var(0, vec![]),
            R11::V1(elem0) => Val::Var(1, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8)]
#[nommy(ignore = bytes::OneOf<b"ab">)]
pub struct R12 {
    #[nommy(inner_parser = R8<bytes::OneOf<b"zbyaxc,() ">>)]
    pub x: Vec<R8<bytes::OneOf<b"zbyaxc,() ">>>,
    #[nommy(suffix = bytes::Tag<b",">, parser = bytes::OneOf<b"abX">)]
    pub y: NoX,
    pub z: Box<R8<bytes::AnyOf1<b"a">>>,
    #[nommy(parser = bytes::OneOf<b"abX">)]
    pub w: NoX,
}
impl ToVal for R12 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val(), self.z.to_val(), self.w.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8, ignore = bytes::AnyOf1<b"\x00\xff">, ignore = bytes::AnyOf1<b"a">, suffix = bytes::Tag<b"c">)]
pub enum R13 {
    #[nommy(prefix = bytes::Tag<b"\x00">)]
    #[nommy(suffix = bytes::Tag<b"c">)]
    V0(
    Box<R13>,
),
    V1(
    #[nommy(prefix = bytes::Tag<b"\x00">)]
    bytes::Tag<b"\x00">,
    #[nommy(prefix = bytes::Tag<b"\xff\x00">)]
    [bytes::AnyOf1<b"0123456789">; 2],
    #[nommy(inner_parser = bytes::OneOf<b"\x00\xff">, seperated_by = bytes::OneOf<b"abX">, trailing = "no")]
    Vec<u8>,
    #[nommy(prefix = bytes::Tag<b"(">)]
    bytes::Tag<b"ba">,
),
}
impl ToVal for R13 {
    fn to_val(self) -> Val {
        match self {
            R13::V0(elem0) => Val::Var(0, vec![elem0.to_val()]),
            R13::V1(elem0, elem1, elem2, elem3) => Val::Var(1, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8)]
pub enum R14 {
    #[nommy(prefix = bytes::Tag<b"(">, suffix = bytes::Tag<b"(">)]
    V0(
    Vec<R14>,
),
    #[nommy(prefix = bytes::AnyOf1<b"bc">)]
    V1(
    #[nommy(parser = bytes::OneOf<b"zbyaxc,() ">)]
    u8,
),
    V2 {
    #[nommy(suffix = bytes::Tag<b"aa">)]
    x: R7,
},
}
impl ToVal for R14 {
    fn to_val(self) -> Val {
        match self {
            R14::V0(elem0) => Val::Var(0, vec![elem0.to_val()]),
            R14::V1(elem0) => Val::Var(1, vec![elem0.to_val()]),
            R14::V2 { x } => Val::Var(2, vec![x.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = Vec1<bytes::Tag<b")">>)]
pub struct R15(
    pub Lst<Vec<bytes::Tag<b"\xff\x00">>, Vec<bytes::Tag<b"\xff\x00">>, bytes::Tag<b"\xff\x00">, bytes::Tag<b"(">, {3}, 1>,
    #[nommy(suffix = bytes::Tag<b"aa">)]
    #[nommy(inner_parser = bytes::OneOf<b"abX">)]
    #[nommy(seperated_by = bytes::OneOf<b"0123456789">)]
    #[nommy(trailing = "yes")]
    pub Vec<NoX>,
);
impl ToVal for R15 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

pub type AlRbyte0 = R1<bytes::OneOf<b"0123456789">, bytes::OneOf<b"ab">>;
#[derive(Parse)]
#[nommy(parse_type = u8)]
pub enum R16 {
    V0(
    #[nommy(prefix = AlRbyte0)]
    Box<R12>,
    #[nommy(inner_parser = R13, seperated_by = bytes::OneOf<b"zbyaxc,() ">, trailing = "no")]
    Vec<R13>,
    #[nommy(inner_parser = bytes::AnyOf1<b"\x00\xff">)]
    #[nommy(seperated_by = bytes::OneOf<b"zbyaxc,() ">)]
    #[nommy(trailing = "yes")]
    Vec<Vec<u8>>,
    #[nommy(prefix = bytes::Tag<b" ">)]
    #[nommy(suffix = bytes::Tag<b" ">)]
    [bytes::AnyOf1<b"ab">; 3],
    #[nommy(parser = bytes::OneOf<b"abX">)]
    NoX,
),
}
impl ToVal for R16 {
    fn to_val(self) -> Val {
        match self {
            R16::V0(elem0, elem1, elem2, elem3, elem4) => Val::Var(0, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val(), elem4.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = bytes::Tag<b"ab">)]
#[nommy(ignore = bytes::OneOf<b"ab">)]
#[nommy(suffix = bytes::Tag<b"\x01\x02\x03">)]
pub struct R17 {
    #[nommy(inner_parser = bytes::OneOf<b"ab">)]
    #[nommy(seperated_by = bytes::Tag<b" ">)]
    pub x: Vec<bytes::OneOf<b"ab">>,
    #[nommy(suffix = bytes::Tag<b"ab">, parser = bytes::OneOf<b"bc">)]
    pub y: u8,
}
impl ToVal for R17 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = u8)]
#[nommy(ignore = bytes::OneOf<b"bc">)]
pub struct R18 {
    #[nommy(parser = bytes::AnyOf1<b"ab">)]
    pub x: Vec<u8>,
    #[nommy(inner_parser = [bytes::AnyOf1<b"bc">; 2], seperated_by = bytes::OneOf<b"zbyaxc,() ">, trailing = "maybe")]
    pub y: Vec<[bytes::AnyOf1<b"bc">; 2]>,
    pub z: bytes::Tag<b" ">,
    pub w: bytes::AnyOf1<b"\x00\xff">,
}
impl ToVal for R18 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val(), self.z.to_val(), self.w.to_val()])
    }
}

#[derive(Parse)]
pub struct R19 {
    #[nommy(parser = bytes::AnyOf1<b"a">)]
    pub x: Vec<u8>,
    #[nommy(parser = bytes::OneOf<b"bc">)]
    pub y: u8,
    #[nommy(prefix = bytes::Tag<b"aa">)]
    pub z: bytes::OneOf<b"\x00\xff">,
}
impl ToVal for R19 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val(), self.z.to_val()])
    }
}

pub fn defs() -> Vec<Def> {
    vec![
        Def { name: "R0", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(btag(b")"), Cv::No) }]) },
        Def { name: "R2", attrs: Attrs { ignore: vec![btag(b"ab")], prefix: Some(btag(b"aa")), suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: Some(btag(b"c")), suffix: None, body: Body::List { g: bone(b"abX"), cv: Cv::NotX, sep: Some(bone(b"\x00\xff")), trailing: Tr::Maybe } }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(bany1(b"bc"), Cv::No) }]) },
        Def { name: "R3", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(btag(b")")) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![bone(b"\x00\xff"), bone(b"0123456789")], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(btag(b"abca"), Cv::No) }] }, Variant { name: "V1", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(vec1(bone(b"abX"))), suffix: Some(btag(b"abca")) }, fields: vec![] }, Variant { name: "V2", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"(")), suffix: None }, fields: vec![] }]) },
        Def { name: "R4", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bone(b"bc"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: Some(btag(b"a")), body: Body::Plain(lst(vec_(btag(b"ba")), Cv::No, Some(btag(b"(")), Tr::No, vec![], 6), Cv::No) }]) },
        Def { name: "R5", attrs: Attrs { ignore: vec![G::Ty(3), btag(b",")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: Some(btag(b"a")), body: Body::Plain(bone(b"abX"), Cv::NotX) }, Field { name: "elem1", prefix: Some(btag(b" ")), suffix: None, body: Body::Plain(bone(b"ab"), Cv::No) }]) },
        Def { name: "R6", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"ab")), suffix: Some(btag(b"c")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(opt(bx(G::Ty(5))), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(btag(b"ab")), body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(bx(bone(b"ab")), Cv::No) }, Field { name: "elem2", prefix: Some(btag(b"\x00")), suffix: None, body: Body::Plain(opt(btag(b"\xff\x00")), Cv::No) }, Field { name: "elem3", prefix: None, suffix: Some(btag(b"abca")), body: Body::Plain(bany1(b"ab"), Cv::No) }] }, Variant { name: "V2", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"ab")), suffix: None }, fields: vec![Field { name: "x", prefix: Some(btag(b"aab")), suffix: None, body: Body::Plain(bone(b"abX"), Cv::NotX) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::NotX) }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::No) }, Field { name: "w", prefix: None, suffix: None, body: Body::Plain(btag(b"b"), Cv::No) }] }]) },
        Def { name: "R7", attrs: Attrs { ignore: vec![bany1(b"abX"), bany1(b"0123456789")], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"aab")), suffix: None }, fields: vec![] }, Variant { name: "V1", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: Some(arr(bany1(b"ab"), 3)), suffix: None, body: Body::Plain(G::Ty(7), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(bone(b"bc"), Cv::No) }, Field { name: "z", prefix: None, suffix: Some(btag(b"aab")), body: Body::Plain(bone(b"0123456789"), Cv::No) }, Field { name: "w", prefix: None, suffix: Some(G::Ty(3)), body: Body::Plain(bany1(b"zbyaxc,() "), Cv::No) }, Field { name: "r", prefix: None, suffix: None, body: Body::Plain(bone(b"0123456789"), Cv::No) }] }]) },
        Def { name: "R1", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(btag(b"\xff\x00")) }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: Some(btag(b"b")), body: Body::Plain(vec1(arr(btag(b"b"), 1)), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(bone(b"zbyaxc,() "), Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(lst(btag(b"aa"), Cv::No, Some(bany1(b"ab")), Tr::Maybe, vec![bany1(b"ab")], usize::MAX), Cv::No) }, Field { name: "w", prefix: None, suffix: None, body: Body::Plain(bone(b"zbyaxc,() "), Cv::No) }, Field { name: "r", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::No) }, Field { name: "s", prefix: Some(btag(b",")), suffix: None, body: Body::Plain(bone(b"zbyaxc,() "), Cv::No) }, Field { name: "t", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::NotX) }, Field { name: "u", prefix: Some(btag(b"c")), suffix: None, body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "v", prefix: Some(btag(b"c")), suffix: None, body: Body::List { g: bone(b"zbyaxc,() "), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::Maybe } }, Field { name: "m", prefix: None, suffix: None, body: Body::List { g: vec1(bany1(b"ab")), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::Yes } }, Field { name: "n", prefix: None, suffix: None, body: Body::Plain(bone(b"0123456789"), Cv::No) }, Field { name: "o", prefix: Some(bone(b"zbyaxc,() ")), suffix: None, body: Body::Plain(vec_(bany1(b"ab")), Cv::No) }]) },
        Def { name: "R9", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"c")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(8)), Cv::No) }] }, Variant { name: "V1", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"ab")), suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::List { g: bone(b"ab"), cv: Cv::No, sep: Some(bone(b"abX")), trailing: Tr::No } }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(btag(b"b"), Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(vec1(bany1(b"0123456789")), Cv::No) }, Field { name: "w", prefix: Some(vec1(bone(b"zbyaxc,() "))), suffix: None, body: Body::Plain(bany1(b"a"), Cv::No) }, Field { name: "r", prefix: None, suffix: None, body: Body::List { g: bone(b"abX"), cv: Cv::NotX, sep: Some(bone(b"ab")), trailing: Tr::Maybe } }, Field { name: "s", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::NotX) }, Field { name: "t", prefix: None, suffix: Some(btag(b")")), body: Body::List { g: bone(b"abX"), cv: Cv::No, sep: Some(bone(b"a")), trailing: Tr::No } }, Field { name: "u", prefix: None, suffix: None, body: Body::List { g: G::Ty(0), cv: Cv::No, sep: Some(btag(b"b")), trailing: Tr::Yes } }] }]) },
        Def { name: "R10", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(btag(b"aa")) }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: Some(btag(b"c")), body: Body::Plain(btag(b"\x01\x02\x03"), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(opt(bone(b"ab")), Cv::No) }]) },
        Def { name: "R11", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"b")), suffix: Some(arr(bone(b"a"), 3)) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"b")), suffix: None }, fields: vec![] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(btag(b"b")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(bone(b"ab")), Cv::No) }] }]) },
        Def { name: "R8", attrs: Attrs { ignore: vec![bone(b"bc")], prefix: Some(btag(b"abca")), suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(G::Ty(5)), suffix: None, body: Body::Plain(bone(b"\x00\xff"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(vec1(bone(b"zbyaxc,() "))), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(vec_(bone(b"zbyaxc,() ")), Cv::No) }, Field { name: "elem3", prefix: None, suffix: Some(btag(b"abca")), body: Body::Plain(G::Ty(2), Cv::No) }]) },
        Def { name: "R12", attrs: Attrs { ignore: vec![bone(b"ab")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: None, body: Body::List { g: G::Ty(11), cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "y", prefix: None, suffix: Some(btag(b",")), body: Body::Plain(bone(b"abX"), Cv::NotX) }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(13)), Cv::No) }, Field { name: "w", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::NotX) }]) },
        Def { name: "R8", attrs: Attrs { ignore: vec![bone(b"bc")], prefix: Some(btag(b"abca")), suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(G::Ty(5)), suffix: None, body: Body::Plain(bone(b"\x00\xff"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(vec1(bany1(b"a"))), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(vec_(bany1(b"a")), Cv::No) }, Field { name: "elem3", prefix: None, suffix: Some(btag(b"abca")), body: Body::Plain(G::Ty(2), Cv::No) }]) },
        Def { name: "R13", attrs: Attrs { ignore: vec![bany1(b"\x00\xff"), bany1(b"a")], prefix: None, suffix: Some(btag(b"c")) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"\x00")), suffix: Some(btag(b"c")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(14)), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(btag(b"\x00")), suffix: None, body: Body::Plain(btag(b"\x00"), Cv::No) }, Field { name: "elem1", prefix: Some(btag(b"\xff\x00")), suffix: None, body: Body::Plain(arr(bany1(b"0123456789"), 2), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::List { g: bone(b"\x00\xff"), cv: Cv::No, sep: Some(bone(b"abX")), trailing: Tr::No } }, Field { name: "elem3", prefix: Some(btag(b"(")), suffix: None, body: Body::Plain(btag(b"ba"), Cv::No) }] }]) },
        Def { name: "R14", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(btag(b"(")), suffix: Some(btag(b"(")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(15)), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(bany1(b"bc")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bone(b"zbyaxc,() "), Cv::No) }] }, Variant { name: "V2", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: Some(btag(b"aa")), body: Body::Plain(G::Ty(6), Cv::No) }] }]) },
        Def { name: "R15", attrs: Attrs { ignore: vec![vec1(btag(b")"))], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(lst(vec_(btag(b"\xff\x00")), Cv::No, Some(btag(b"\xff\x00")), Tr::No, vec![btag(b"(")], 3), Cv::No) }, Field { name: "elem1", prefix: None, suffix: Some(btag(b"aa")), body: Body::List { g: bone(b"abX"), cv: Cv::NotX, sep: Some(bone(b"0123456789")), trailing: Tr::Yes } }]) },
        Def { name: "R1", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(btag(b"\xff\x00")) }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: Some(btag(b"b")), body: Body::Plain(vec1(arr(btag(b"b"), 1)), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(bone(b"ab"), Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(lst(btag(b"aa"), Cv::No, Some(bany1(b"ab")), Tr::Maybe, vec![bone(b"0123456789")], usize::MAX), Cv::No) }, Field { name: "w", prefix: None, suffix: None, body: Body::Plain(bone(b"ab"), Cv::No) }, Field { name: "r", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::No) }, Field { name: "s", prefix: Some(btag(b",")), suffix: None, body: Body::Plain(bone(b"ab"), Cv::No) }, Field { name: "t", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::NotX) }, Field { name: "u", prefix: Some(btag(b"c")), suffix: None, body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "v", prefix: Some(btag(b"c")), suffix: None, body: Body::List { g: bone(b"ab"), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::Maybe } }, Field { name: "m", prefix: None, suffix: None, body: Body::List { g: vec1(bone(b"0123456789")), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::Yes } }, Field { name: "n", prefix: None, suffix: None, body: Body::Plain(bone(b"0123456789"), Cv::No) }, Field { name: "o", prefix: Some(bone(b"zbyaxc,() ")), suffix: None, body: Body::Plain(vec_(bone(b"0123456789")), Cv::No) }]) },
        Def { name: "R16", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(G::Ty(17)), suffix: None, body: Body::Plain(bx(G::Ty(12)), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::List { g: G::Ty(14), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::No } }, Field { name: "elem2", prefix: None, suffix: None, body: Body::List { g: bany1(b"\x00\xff"), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::Yes } }, Field { name: "elem3", prefix: Some(btag(b" ")), suffix: Some(btag(b" ")), body: Body::Plain(arr(bany1(b"ab"), 3), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::NotX) }] }]) },
        Def { name: "R17", attrs: Attrs { ignore: vec![btag(b"ab"), bone(b"ab")], prefix: None, suffix: Some(btag(b"\x01\x02\x03")) }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: None, body: Body::List { g: bone(b"ab"), cv: Cv::No, sep: Some(btag(b" ")), trailing: Tr::No } }, Field { name: "y", prefix: None, suffix: Some(btag(b"ab")), body: Body::Plain(bone(b"bc"), Cv::No) }]) },
        Def { name: "R18", attrs: Attrs { ignore: vec![bone(b"bc")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(bany1(b"ab"), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::List { g: arr(bany1(b"bc"), 2), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::Maybe } }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(btag(b" "), Cv::No) }, Field { name: "w", prefix: None, suffix: None, body: Body::Plain(bany1(b"\x00\xff"), Cv::No) }]) },
        Def { name: "R19", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(bany1(b"a"), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(bone(b"bc"), Cv::No) }, Field { name: "z", prefix: Some(btag(b"aa")), suffix: None, body: Body::Plain(bone(b"\x00\xff"), Cv::No) }]) },
        Def { name: "R1", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(btag(b"\xff\x00")) }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: Some(btag(b"b")), body: Body::Plain(vec1(arr(btag(b"b"), 1)), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(bone(b"a"), Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(lst(btag(b"aa"), Cv::No, Some(bany1(b"ab")), Tr::Maybe, vec![bx(G::Ty(0))], usize::MAX), Cv::No) }, Field { name: "w", prefix: None, suffix: None, body: Body::Plain(bone(b"a"), Cv::No) }, Field { name: "r", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::No) }, Field { name: "s", prefix: Some(btag(b",")), suffix: None, body: Body::Plain(bone(b"a"), Cv::No) }, Field { name: "t", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::NotX) }, Field { name: "u", prefix: Some(btag(b"c")), suffix: None, body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "v", prefix: Some(btag(b"c")), suffix: None, body: Body::List { g: bone(b"a"), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::Maybe } }, Field { name: "m", prefix: None, suffix: None, body: Body::List { g: vec1(bx(G::Ty(0))), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::Yes } }, Field { name: "n", prefix: None, suffix: None, body: Body::Plain(bone(b"0123456789"), Cv::No) }, Field { name: "o", prefix: Some(bone(b"zbyaxc,() ")), suffix: None, body: Body::Plain(vec_(bx(G::Ty(0))), Cv::No) }]) },
        Def { name: "R1", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(btag(b"\xff\x00")) }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: Some(btag(b"b")), body: Body::Plain(vec1(arr(btag(b"b"), 1)), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(0)), Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(lst(btag(b"aa"), Cv::No, Some(bany1(b"ab")), Tr::Maybe, vec![bone(b"abX")], usize::MAX), Cv::No) }, Field { name: "w", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(0)), Cv::No) }, Field { name: "r", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::No) }, Field { name: "s", prefix: Some(btag(b",")), suffix: None, body: Body::Plain(bx(G::Ty(0)), Cv::No) }, Field { name: "t", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::NotX) }, Field { name: "u", prefix: Some(btag(b"c")), suffix: None, body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "v", prefix: Some(btag(b"c")), suffix: None, body: Body::List { g: bx(G::Ty(0)), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::Maybe } }, Field { name: "m", prefix: None, suffix: None, body: Body::List { g: vec1(bone(b"abX")), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::Yes } }, Field { name: "n", prefix: None, suffix: None, body: Body::Plain(bone(b"0123456789"), Cv::No) }, Field { name: "o", prefix: Some(bone(b"zbyaxc,() ")), suffix: None, body: Body::Plain(vec_(bone(b"abX")), Cv::No) }]) },
        Def { name: "R1", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(btag(b"\xff\x00")) }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: Some(btag(b"b")), body: Body::Plain(vec1(arr(btag(b"b"), 1)), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(bone(b"bc"), Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(lst(btag(b"aa"), Cv::No, Some(bany1(b"ab")), Tr::Maybe, vec![G::Ty(0)], usize::MAX), Cv::No) }, Field { name: "w", prefix: None, suffix: None, body: Body::Plain(bone(b"bc"), Cv::No) }, Field { name: "r", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::No) }, Field { name: "s", prefix: Some(btag(b",")), suffix: None, body: Body::Plain(bone(b"bc"), Cv::No) }, Field { name: "t", prefix: None, suffix: None, body: Body::Plain(bone(b"abX"), Cv::NotX) }, Field { name: "u", prefix: Some(btag(b"c")), suffix: None, body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "v", prefix: Some(btag(b"c")), suffix: None, body: Body::List { g: bone(b"bc"), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::Maybe } }, Field { name: "m", prefix: None, suffix: None, body: Body::List { g: vec1(G::Ty(0)), cv: Cv::No, sep: Some(bone(b"zbyaxc,() ")), trailing: Tr::Yes } }, Field { name: "n", prefix: None, suffix: None, body: Body::Plain(bone(b"0123456789"), Cv::No) }, Field { name: "o", prefix: Some(bone(b"zbyaxc,() ")), suffix: None, body: Body::Plain(vec_(G::Ty(0)), Cv::No) }]) },
        Def { name: "R8", attrs: Attrs { ignore: vec![bone(b"bc")], prefix: Some(btag(b"abca")), suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(G::Ty(5)), suffix: None, body: Body::Plain(bone(b"\x00\xff"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(vec1(G::Ty(6))), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(6)), Cv::No) }, Field { name: "elem3", prefix: None, suffix: Some(btag(b"abca")), body: Body::Plain(G::Ty(2), Cv::No) }]) },
        Def { name: "R8", attrs: Attrs { ignore: vec![bone(b"bc")], prefix: Some(btag(b"abca")), suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(G::Ty(5)), suffix: None, body: Body::Plain(bone(b"\x00\xff"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(vec1(G::Ty(2))), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(2)), Cv::No) }, Field { name: "elem3", prefix: None, suffix: Some(btag(b"abca")), body: Body::Plain(G::Ty(2), Cv::No) }]) },
        Def { name: "R8", attrs: Attrs { ignore: vec![bone(b"bc")], prefix: Some(btag(b"abca")), suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(G::Ty(5)), suffix: None, body: Body::Plain(bone(b"\x00\xff"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(vec1(G::Ty(1))), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(1)), Cv::No) }, Field { name: "elem3", prefix: None, suffix: Some(btag(b"abca")), body: Body::Plain(G::Ty(2), Cv::No) }]) },
    ]
}

pub fn entries() -> Vec<Entry<u8>> {
    vec![
        entry::<R0, _>("R0", G::Ty(0), STRUCT | RANDOM),
        entry::<R1<Box<R0>, bytes::OneOf<b"a">>, _>("R1<Box<R0>, bytes::OneOf<b\"a\">>", G::Ty(22), STRUCT | LIST | RANDOM),
        entry::<R1<bytes::OneOf<b"abX">, Box<R0>>, _>("R1<bytes::OneOf<b\"abX\">, Box<R0>>", G::Ty(23), STRUCT | LIST | RANDOM),
        entry::<R1<R0, bytes::OneOf<b"bc">>, _>("R1<R0, bytes::OneOf<b\"bc\">>", G::Ty(24), STRUCT | LIST | RANDOM),
        entry::<R2, _>("R2", G::Ty(1), STRUCT | LIST | RANDOM),
        entry::<R3, _>("R3", G::Ty(2), ENUM | RANDOM),
        entry::<R4, _>("R4", G::Ty(3), STRUCT | RANDOM),
        entry::<R5, _>("R5", G::Ty(4), STRUCT | RANDOM),
        entry::<R6, _>("R6", G::Ty(5), ENUM | RANDOM),
        entry::<R7, _>("R7", G::Ty(6), ENUM | RANDOM),
        entry::<R8<R7>, _>("R8<R7>", G::Ty(25), STRUCT | RANDOM),
        entry::<R8<R3>, _>("R8<R3>", G::Ty(26), STRUCT | RANDOM),
        entry::<R8<R2>, _>("R8<R2>", G::Ty(27), STRUCT | RANDOM),
        entry::<R9, _>("R9", G::Ty(8), ENUM | LIST | RANDOM),
        entry::<R10, _>("R10", G::Ty(9), STRUCT | RANDOM),
        entry::<R11, _>("R11", G::Ty(10), ENUM | RANDOM),
        entry::<R12, _>("R12", G::Ty(12), STRUCT | LIST | RANDOM),
        entry::<R13, _>("R13", G::Ty(14), ENUM | LIST | RANDOM),
        entry::<R14, _>("R14", G::Ty(15), ENUM | RANDOM),
        entry::<R15, _>("R15", G::Ty(16), STRUCT | LIST | RANDOM),
        entry::<R16, _>("R16", G::Ty(18), ENUM | LIST | RANDOM),
        entry::<R17, _>("R17", G::Ty(19), STRUCT | LIST | RANDOM),
        entry::<R18, _>("R18", G::Ty(20), STRUCT | LIST | RANDOM),
        entry::<R19, _>("R19", G::Ty(21), STRUCT | RANDOM),
    ]
}
