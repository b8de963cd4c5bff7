// Written by tools/gen_zoo.py; do not edit.
#![allow(dead_code, unused_imports, unused_braces, clippy::all)]
use nommy_sim::model::*;
use nommy_sim::users::*;
use nommy_sim::val::{ToVal, Val};
use nommy_sim::zoo::*;
use nommy::{bytes, text, Parse, Vec1};

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = Nothing)]
pub struct Zs0 {
    pub a: text::OneOf<"ab">,
    pub b: Option<text::Tag<"ab">>,
}
impl ToVal for Zs0 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::WhiteSpace)]
pub enum Ze0 {
    #[nommy(ignore = Nothing)]
    #[nommy(prefix = text::Tag<"aa">)]
    One,
    Two(
    Vec<text::OneOf<"ab">>,
    text::Tag<"c">,
),
}
impl ToVal for Ze0 {
    fn to_val(self) -> Val {
        match self {
            Ze0::One => Val::Var(0, vec![]),
            Ze0::Two(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = LookOnly)]
pub struct Zs1 {
    pub a: text::OneOf<"ab">,
    pub b: Option<text::Tag<"ab">>,
}
impl ToVal for Zs1 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, ignore = text::WhiteSpace)]
pub enum Ze1 {
    #[nommy(ignore = LookOnly)]
    #[nommy(prefix = text::Tag<"aa">)]
    One,
    Two(
    Vec<text::OneOf<"ab">>,
    text::Tag<"c">,
),
}
impl ToVal for Ze1 {
    fn to_val(self) -> Val {
        match self {
            Ze1::One => Val::Var(0, vec![]),
            Ze1::Two(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = Option<text::Tag<"-">>)]
pub struct Zs2 {
    pub a: text::OneOf<"ab">,
    pub b: Option<text::Tag<"ab">>,
}
impl ToVal for Zs2 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::WhiteSpace)]
pub enum Ze2 {
    #[nommy(ignore = Option<text::Tag<"-">>, prefix = text::Tag<"aa">)]
    One,
    Two(
    Vec<text::OneOf<"ab">>,
    text::Tag<"c">,
),
}
impl ToVal for Ze2 {
    fn to_val(self) -> Val {
        match self {
            Ze2::One => Val::Var(0, vec![]),
            Ze2::Two(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = text::AnyOf<"-">)]
pub struct Zs3 {
    pub a: text::OneOf<"ab">,
    pub b: Option<text::Tag<"ab">>,
}
impl ToVal for Zs3 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::WhiteSpace)]
pub enum Ze3 {
    #[nommy(ignore = text::AnyOf<"-">)]
    #[nommy(prefix = text::Tag<"aa">)]
    One,
    Two(
    Vec<text::OneOf<"ab">>,
    text::Tag<"c">,
),
}
impl ToVal for Ze3 {
    fn to_val(self) -> Val {
        match self {
            Ze3::One => Val::Var(0, vec![]),
            Ze3::Two(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, ignore = Vec<text::WhiteSpace>)]
pub struct Zs4 {
    pub a: text::OneOf<"ab">,
    pub b: Option<text::Tag<"ab">>,
}
impl ToVal for Zs4 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::WhiteSpace)]
pub enum Ze4 {
    #[nommy(ignore = Vec<text::WhiteSpace>)]
    #[nommy(prefix = text::Tag<"aa">)]
    One,
    Two(
    Vec<text::OneOf<"ab">>,
    text::Tag<"c">,
),
}
impl ToVal for Ze4 {
    fn to_val(self) -> Val {
        match self {
            Ze4::One => Val::Var(0, vec![]),
            Ze4::Two(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = [text::Space; 0])]
pub struct Zs5 {
    pub a: text::OneOf<"ab">,
    pub b: Option<text::Tag<"ab">>,
}
impl ToVal for Zs5 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::WhiteSpace)]
pub enum Ze5 {
    #[nommy(ignore = [text::Space; 0], prefix = text::Tag<"aa">)]
    One,
    Two(
    Vec<text::OneOf<"ab">>,
    text::Tag<"c">,
),
}
impl ToVal for Ze5 {
    fn to_val(self) -> Val {
        match self {
            Ze5::One => Val::Var(0, vec![]),
            Ze5::Two(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Space)]
#[nommy(ignore = Option<text::Tag<"!">>)]
pub struct Zl {
    #[nommy(inner_parser = text::OneOf<"ab">)]
    #[nommy(seperated_by = text::Tag<",">)]
    pub xs: Vec<char>,
    pub end: text::Tag<";">,
}
impl ToVal for Zl {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.xs.to_val(), self.end.to_val()])
    }
}

#[derive(Parse)]
pub struct Zempty {
    pub a: Option<text::Tag<"a">>,
    pub b: text::AnyOf<"b">,
}
impl ToVal for Zempty {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val()])
    }
}

pub fn defs() -> Vec<Def> {
    vec![
        Def { name: "Zs0", attrs: Attrs { ignore: vec![G::Nothing(false)], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "b", prefix: None, suffix: None, body: Body::Plain(opt(tag("ab")), Cv::No) }]) },
        Def { name: "Ze0", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "One", what: "unit variant", attrs: Attrs { ignore: vec![G::Nothing(false)], prefix: Some(tag("aa")), suffix: None }, fields: vec![] }, Variant { name: "Two", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(one("ab")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("c"), Cv::No) }] }]) },
        Def { name: "Zs1", attrs: Attrs { ignore: vec![G::Nothing(true)], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "b", prefix: None, suffix: None, body: Body::Plain(opt(tag("ab")), Cv::No) }]) },
        Def { name: "Ze1", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "One", what: "unit variant", attrs: Attrs { ignore: vec![G::Nothing(true)], prefix: Some(tag("aa")), suffix: None }, fields: vec![] }, Variant { name: "Two", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(one("ab")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("c"), Cv::No) }] }]) },
        Def { name: "Zs2", attrs: Attrs { ignore: vec![opt(tag("-"))], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "b", prefix: None, suffix: None, body: Body::Plain(opt(tag("ab")), Cv::No) }]) },
        Def { name: "Ze2", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "One", what: "unit variant", attrs: Attrs { ignore: vec![opt(tag("-"))], prefix: Some(tag("aa")), suffix: None }, fields: vec![] }, Variant { name: "Two", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(one("ab")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("c"), Cv::No) }] }]) },
        Def { name: "Zs3", attrs: Attrs { ignore: vec![any("-")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "b", prefix: None, suffix: None, body: Body::Plain(opt(tag("ab")), Cv::No) }]) },
        Def { name: "Ze3", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "One", what: "unit variant", attrs: Attrs { ignore: vec![any("-")], prefix: Some(tag("aa")), suffix: None }, fields: vec![] }, Variant { name: "Two", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(one("ab")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("c"), Cv::No) }] }]) },
        Def { name: "Zs4", attrs: Attrs { ignore: vec![vec_(G::WhiteSpace)], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "b", prefix: None, suffix: None, body: Body::Plain(opt(tag("ab")), Cv::No) }]) },
        Def { name: "Ze4", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "One", what: "unit variant", attrs: Attrs { ignore: vec![vec_(G::WhiteSpace)], prefix: Some(tag("aa")), suffix: None }, fields: vec![] }, Variant { name: "Two", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(one("ab")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("c"), Cv::No) }] }]) },
        Def { name: "Zs5", attrs: Attrs { ignore: vec![arr(G::Space, 0)], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "b", prefix: None, suffix: None, body: Body::Plain(opt(tag("ab")), Cv::No) }]) },
        Def { name: "Ze5", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "One", what: "unit variant", attrs: Attrs { ignore: vec![arr(G::Space, 0)], prefix: Some(tag("aa")), suffix: None }, fields: vec![] }, Variant { name: "Two", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(one("ab")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("c"), Cv::No) }] }]) },
        Def { name: "Zl", attrs: Attrs { ignore: vec![G::Space, opt(tag("!"))], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "xs", prefix: None, suffix: None, body: Body::List { g: one("ab"), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::No } }, Field { name: "end", prefix: None, suffix: None, body: Body::Plain(tag(";"), Cv::No) }]) },
        Def { name: "Zempty", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: None, suffix: None, body: Body::Plain(opt(tag("a")), Cv::No) }, Field { name: "b", prefix: None, suffix: None, body: Body::Plain(any("b"), Cv::No) }]) },
    ]
}

pub fn entries() -> Vec<Entry<char>> {
    vec![
        entry::<Vec<Nothing>, _>("Vec<Nothing>", vec_(G::Nothing(false)), CONT | ZERO),
        entry::<Vec1<Nothing>, _>("Vec1<Nothing>", vec1(G::Nothing(false)), CONT | ZERO),
        entry::<Vec<LookOnly>, _>("Vec<LookOnly>", vec_(G::Nothing(true)), CONT | ZERO),
        entry::<Vec1<LookOnly>, _>("Vec1<LookOnly>", vec1(G::Nothing(true)), CONT | ZERO),
        entry::<Vec<Option<text::Tag<"ab">>>, _>("Vec<Option<text::Tag<\"ab\">>>", vec_(opt(tag("ab"))), CONT | ZERO),
        entry::<Vec1<Option<text::Tag<"a">>>, _>("Vec1<Option<text::Tag<\"a\">>>", vec1(opt(tag("a"))), CONT | ZERO),
        entry::<Vec<text::AnyOf<"a">>, _>("Vec<text::AnyOf<\"a\">>", vec_(any("a")), CONT | ZERO),
        entry::<Vec1<text::AnyOf<"ab">>, _>("Vec1<text::AnyOf<\"ab\">>", vec1(any("ab")), CONT | ZERO),
        entry::<Vec<Vec<text::Tag<"ab">>>, _>("Vec<Vec<text::Tag<\"ab\">>>", vec_(vec_(tag("ab"))), CONT | ZERO),
        entry::<Vec1<Vec<text::OneOf<"ab">>>, _>("Vec1<Vec<text::OneOf<\"ab\">>>", vec1(vec_(one("ab"))), CONT | ZERO),
        entry::<Vec<[Option<text::Tag<"ab">>; 2]>, _>("Vec<[Option<text::Tag<\"ab\">>; 2]>", vec_(arr(opt(tag("ab")), 2)), CONT | ZERO),
        entry::<Vec<[text::OneOf<"ab">; 0]>, _>("Vec<[text::OneOf<\"ab\">; 0]>", vec_(arr(one("ab"), 0)), CONT | ZERO),
        entry::<Vec1<Box<text::AnyOf<"a">>>, _>("Vec1<Box<text::AnyOf<\"a\">>>", vec1(bx(any("a"))), CONT | ZERO),
        entry::<Vec<text::Tag<"">>, _>("Vec<text::Tag<\"\">>", vec_(tag("")), CONT | ZERO),
        entry::<[Vec<Option<text::Tag<"a">>>; 2], _>("[Vec<Option<text::Tag<\"a\">>>; 2]", arr(vec_(opt(tag("a"))), 2), CONT | ZERO),
        entry::<Box<Vec<Nothing>>, _>("Box<Vec<Nothing>>", bx(vec_(G::Nothing(false))), CONT | ZERO),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, Never, Option<text::Tag<" ">>, {usize::MAX}, 0>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, Never, Option<text::Tag<\" \">>, {usize::MAX}, 0>", lst(one("ab"), Cv::No, None, Tr::No, vec![opt(tag(" "))], usize::MAX), LIST | ZERO),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, LookOnly, {usize::MAX}, 1>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, LookOnly, {usize::MAX}, 1>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::No, vec![G::Nothing(true)], usize::MAX), LIST | ZERO),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, text::AnyOf<" ">, {usize::MAX}, 2>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, text::AnyOf<\" \">, {usize::MAX}, 2>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::Yes, vec![any(" ")], usize::MAX), LIST | ZERO),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, Vec<text::WhiteSpace>, {usize::MAX}, 3>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, Vec<text::WhiteSpace>, {usize::MAX}, 3>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::Maybe, vec![vec_(G::WhiteSpace)], usize::MAX), LIST | ZERO),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, Nothing, {3}, 3>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, Nothing, {3}, 3>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::Maybe, vec![G::Nothing(false)], 3), LIST | ZERO),
        entry::<Zs0, _>("Zs0", G::Ty(0), STRUCT | ZERO),
        entry::<Ze0, _>("Ze0", G::Ty(1), ENUM | ZERO),
        entry::<Zs1, _>("Zs1", G::Ty(2), STRUCT | ZERO),
        entry::<Ze1, _>("Ze1", G::Ty(3), ENUM | ZERO),
        entry::<Zs2, _>("Zs2", G::Ty(4), STRUCT | ZERO),
        entry::<Ze2, _>("Ze2", G::Ty(5), ENUM | ZERO),
        entry::<Zs3, _>("Zs3", G::Ty(6), STRUCT | ZERO),
        entry::<Ze3, _>("Ze3", G::Ty(7), ENUM | ZERO),
        entry::<Zs4, _>("Zs4", G::Ty(8), STRUCT | ZERO),
        entry::<Ze4, _>("Ze4", G::Ty(9), ENUM | ZERO),
        entry::<Zs5, _>("Zs5", G::Ty(10), STRUCT | ZERO),
        entry::<Ze5, _>("Ze5", G::Ty(11), ENUM | ZERO),
        entry::<Zl, _>("Zl", G::Ty(12), STRUCT | LIST | ZERO),
        entry::<Zempty, _>("Zempty", G::Ty(13), STRUCT | ZERO),
        entry::<Vec<Zempty>, _>("Vec<Zempty>", vec_(G::Ty(13)), CONT | ZERO),
        entry::<Vec1<Zempty>, _>("Vec1<Zempty>", vec1(G::Ty(13)), CONT | ZERO),
    ]
}
