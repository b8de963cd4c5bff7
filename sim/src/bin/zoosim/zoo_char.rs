// Written by tools/gen_zoo.py; do not edit.
#![allow(dead_code, unused_imports, unused_braces, clippy::all)]
use nommy_sim::model::*;
use nommy_sim::users::*;
use nommy_sim::val::{ToVal, Val};
use nommy_sim::zoo::*;
use nommy::{bytes, text, Parse, Vec1};

#[derive(Parse)]
pub struct Letters {
    pub first: text::OneOf<"ab">,
    pub second: text::OneOf<"cd">,
}
impl ToVal for Letters {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.first.to_val(), self.second.to_val()])
    }
}

#[derive(Parse)]
#[nommy(prefix = text::Tag<"<">)]
#[nommy(suffix = text::Tag<">">)]
pub struct Wrapped(
    pub text::OneOf<"ab">,
    pub text::Tag<"cd">,
    pub Vec<text::OneOf<"e">>,
);
impl ToVal for Wrapped {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()])
    }
}

#[derive(Parse)]
#[nommy(prefix = text::Tag<"mark">)]
#[nommy(suffix = text::Tag<"!">)]
pub struct Marker;
impl ToVal for Marker {
    fn to_val(self) -> Val {
        Val::Rec(vec![])
    }
}

#[derive(Parse)]
pub struct Bare;
impl ToVal for Bare {
    fn to_val(self) -> Val {
        Val::Rec(vec![])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::WhiteSpace)]
#[nommy(prefix = text::Tag<"be">)]
#[nommy(suffix = text::Tag<"go">)]
pub struct Spaced;
impl ToVal for Spaced {
    fn to_val(self) -> Val {
        Val::Rec(vec![])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::WhiteSpace)]
pub struct Ident {
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    pub name: String,
}
impl ToVal for Ident {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.name.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::WhiteSpace)]
#[nommy(suffix = text::Tag<",">)]
pub struct NamedField {
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    pub name: String,
    #[nommy(prefix = text::Tag<":">, parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    pub ty: String,
}
impl ToVal for NamedField {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.name.to_val(), self.ty.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::WhiteSpace)]
#[nommy(prefix = text::Tag<"struct">)]
pub struct StructNamed {
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    pub name: String,
    #[nommy(prefix = text::Tag<"{">, suffix = text::Tag<"}">)]
    pub fields: Vec<NamedField>,
}
impl ToVal for StructNamed {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.name.to_val(), self.fields.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::WhiteSpace)]
pub struct Call {
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    pub name: String,
    #[nommy(prefix = text::Tag<"(">, suffix = text::Tag<")">, inner_parser = text::AnyOf1<"0123456789">, seperated_by = text::Tag<",">)]
    pub args: Vec<usize>,
}
impl ToVal for Call {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.name.to_val(), self.args.to_val()])
    }
}

#[derive(Parse)]
pub struct CallNo {
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    pub name: String,
    #[nommy(prefix = text::Tag<"(">, suffix = text::Tag<")">, inner_parser = text::AnyOf1<"0123456789">, seperated_by = text::Tag<",">, trailing = "no")]
    pub args: Vec<Small>,
}
impl ToVal for CallNo {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.name.to_val(), self.args.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::WhiteSpace)]
pub struct CallYes {
    #[nommy(inner_parser = text::AnyOf1<"0123456789">)]
    #[nommy(seperated_by = text::Tag<",">)]
    #[nommy(trailing = "yes")]
    pub args: Vec<Small>,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub rest: usize,
}
impl ToVal for CallYes {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.args.to_val(), self.rest.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Space)]
#[nommy(ignore = text::Tag<"#">)]
pub struct CallMaybe {
    #[nommy(suffix = text::Tag<";">)]
    #[nommy(inner_parser = text::OneOf<"aX">)]
    #[nommy(seperated_by = text::Tag<",">)]
    #[nommy(trailing = "maybe")]
    pub args: Vec<NoX>,
    pub rest: Vec<text::OneOf<"aX">>,
}
impl ToVal for CallMaybe {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.args.to_val(), self.rest.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Tag<"-">)]
pub struct Plainlist(
    #[nommy(inner_parser = text::OneOf<"ab">)]
    pub Vec<char>,
    pub text::Tag<"c">,
);
impl ToVal for Plainlist {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

#[derive(Parse)]
pub struct Two {
    #[nommy(inner_parser = text::OneOf<"ab">)]
    #[nommy(seperated_by = text::Tag<"-">)]
    pub xs: Vec<char>,
    #[nommy(inner_parser = text::OneOf<"cd">, seperated_by = text::Tag<"-">, trailing = "maybe")]
    pub ys: Vec<char>,
}
impl ToVal for Two {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.xs.to_val(), self.ys.to_val()])
    }
}

#[derive(Parse)]
pub struct Frac {
    #[nommy(prefix = text::Tag<".">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub digits: String,
}
impl ToVal for Frac {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.digits.to_val()])
    }
}

#[derive(Parse)]
pub struct Exp {
    #[nommy(prefix = text::OneOf<"eE">)]
    pub sign: Option<text::OneOf<"+-">>,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub digits: Small,
}
impl ToVal for Exp {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.sign.to_val(), self.digits.to_val()])
    }
}

#[derive(Parse)]
pub struct Signed {
    #[nommy(parser = text::AnyOf1<"0123456789+-">)]
    pub n: usize,
    pub unit: Option<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">>,
}
impl ToVal for Signed {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.n.to_val(), self.unit.to_val()])
    }
}

#[derive(Parse)]
pub struct Hexish(
    #[nommy(prefix = Option<text::Tag<"#">>)]
    #[nommy(parser = text::AnyOf1<"0123456789abcdef">)]
    pub usize,
);
impl ToVal for Hexish {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val()])
    }
}

#[derive(Parse)]
pub struct Foreign {
    #[nommy(suffix = text::Tag<";">, parser = text::AnyOf1<"0123456789٣५９">)]
    pub n: usize,
    #[nommy(parser = text::AnyOf1<"٣0123456789 ">)]
    pub m: usize,
}
impl ToVal for Foreign {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.n.to_val(), self.m.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Space)]
pub struct Range {
    #[nommy(suffix = text::Tag<"-">, parser = text::AnyOf1<"0123456789">)]
    pub from: usize,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub to: usize,
}
impl ToVal for Range {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.from.to_val(), self.to.to_val()])
    }
}

#[derive(Parse)]
pub struct Ranges {
    pub all: Vec1<Range>,
    #[nommy(prefix = text::Tag<";">)]
    #[nommy(inner_parser = text::AnyOf1<"0123456789">)]
    #[nommy(seperated_by = text::Tag<",">)]
    #[nommy(trailing = "maybe")]
    pub more: Vec<usize>,
}
impl ToVal for Ranges {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.all.to_val(), self.more.to_val()])
    }
}

#[derive(Parse)]
pub enum Version {
    Three(
    #[nommy(suffix = text::Tag<".">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    usize,
    #[nommy(suffix = text::Tag<".">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    usize,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    usize,
),
    Two {
    #[nommy(suffix = text::Tag<".">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    major: usize,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    minor: usize,
},
    One(
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    usize,
),
    Text(
    #[nommy(parser = text::AnyOf1<"0123456789.">)]
    String,
),
}
impl ToVal for Version {
    fn to_val(self) -> Val {
        match self {
            Version::Three(elem0, elem1, elem2) => Val::Var(0, vec![elem0.to_val(), elem1.to_val(), elem2.to_val()]),
            Version::Two { major, minor } => Val::Var(1, vec![major.to_val(), minor.to_val()]),
            Version::One(elem0) => Val::Var(2, vec![elem0.to_val()]),
            Version::Text(elem0) => Val::Var(3, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
pub struct Decimal {
    pub sign: Option<text::OneOf<"+-">>,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub whole: usize,
    pub frac: Option<Frac>,
    pub exp: Option<Exp>,
}
impl ToVal for Decimal {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.sign.to_val(), self.whole.to_val(), self.frac.to_val(), self.exp.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::WhiteSpace)]
#[nommy(prefix = text::Tag<"{">)]
#[nommy(suffix = text::Tag<"}">)]
pub struct Fixes {
    #[nommy(prefix = text::Tag<"(">)]
    #[nommy(suffix = text::Tag<")">)]
    #[nommy(parser = text::OneOf<"a">)]
    pub a: char,
    #[nommy(prefix = text::Tag<"[[">, suffix = text::Tag<"]]">, parser = text::OneOf<"b">)]
    pub b: char,
    #[nommy(prefix = Option<text::Tag<"?">>)]
    #[nommy(suffix = Vec<text::Tag<"!">>)]
    pub c: text::Tag<"c">,
}
impl ToVal for Fixes {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Tag<"_">)]
#[nommy(ignore = text::Tag<"a_">)]
pub struct FixesTuple(
    #[nommy(prefix = text::Tag<"(">, suffix = text::Tag<")">, parser = text::OneOf<"a">)]
    pub char,
    #[nommy(prefix = text::Tag<"((">)]
    #[nommy(parser = text::OneOf<"aX">)]
    pub NoX,
    #[nommy(suffix = text::Tag<"))">)]
    pub [text::OneOf<"ab">; 2],
);
impl ToVal for FixesTuple {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, prefix = Fixes, suffix = Call)]
pub struct Recog;
impl ToVal for Recog {
    fn to_val(self) -> Val {
        Val::Rec(vec![])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Tag<".">)]
pub struct Sparse(
    pub Vec<text::Tag<"ab">>,
    pub Option<text::Tag<"aba">>,
    pub text::AnyOf<"a">,
);
impl ToVal for Sparse {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()])
    }
}

#[derive(Parse)]
pub struct Arrays {
    pub xs: [Letters; 3],
    pub ys: [Option<text::Tag<"yy">>; 2],
    pub zs: Box<[text::Tag<"zé">; 2]>,
}
impl ToVal for Arrays {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.xs.to_val(), self.ys.to_val(), self.zs.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, ignore = text::Tag<"ß">)]
pub struct Uni {
    pub head: text::Tag<"né√">,
    #[nommy(prefix = text::Tag<"→">)]
    #[nommy(parser = text::AnyOf1<"é√">)]
    pub runs: String,
    #[nommy(suffix = text::Tag<"𝄞">, parser = text::WhileNot1<"𝄞;">)]
    pub not: String,
}
impl ToVal for Uni {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.head.to_val(), self.runs.to_val(), self.not.to_val()])
    }
}

#[derive(Parse)]
pub struct Line {
    #[nommy(parser = text::WhileNot1<"\r\n">)]
    pub text: String,
    pub end: text::LineEnding,
}
impl ToVal for Line {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.text.to_val(), self.end.to_val()])
    }
}

#[derive(Parse)]
pub struct Lines {
    pub lines: Vec<Line>,
    pub last: Option<text::WhileNot1<"\r\n">>,
}
impl ToVal for Lines {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.lines.to_val(), self.last.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Space)]
pub struct Csvrow {
    #[nommy(suffix = text::LineEnding)]
    #[nommy(inner_parser = text::AnyOf<"abcdefghijklmnopqrstuvwxyz">)]
    #[nommy(seperated_by = text::Tag<",">)]
    pub cells: Vec<text::AnyOf<"abcdefghijklmnopqrstuvwxyz">>,
}
impl ToVal for Csvrow {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.cells.to_val()])
    }
}

#[derive(Parse)]
pub struct Csv(
    pub Vec1<Csvrow>,
);
impl ToVal for Csv {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::WhiteSpace)]
pub struct Lenny {
    pub a: LenPre,
    #[nommy(prefix = text::Tag<":">)]
    pub b: Vec<LenPre>,
    pub c: Option<Quoted>,
}
impl ToVal for Lenny {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()])
    }
}

#[derive(Parse)]
pub struct Comment {
    #[nommy(prefix = text::Tag<"//">)]
    #[nommy(suffix = text::Tag<"\n">)]
    #[nommy(parser = text::WhileNot1<"\n">)]
    pub text: String,
}
impl ToVal for Comment {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.text.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::WhiteSpace)]
#[nommy(ignore = Comment)]
#[nommy(suffix = text::Tag<";">)]
pub struct Commented {
    #[nommy(suffix = text::Tag<"=">, parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    pub a: String,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub b: usize,
}
impl ToVal for Commented {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = Comment)]
#[nommy(ignore = text::LineEnding)]
#[nommy(ignore = text::Space)]
pub struct Program(
    pub Vec<Commented>,
    pub text::Tag<"end">,
);
impl ToVal for Program {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

#[derive(Parse)]
pub struct Nested {
    #[nommy(prefix = text::Tag<"<">, suffix = text::Tag<">">)]
    pub inner: Fixes,
    pub list: Vec1<Letters>,
    pub tail: Plainlist,
}
impl ToVal for Nested {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.inner.to_val(), self.list.to_val(), self.tail.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Space)]
pub struct Strict {
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub n: Small,
    #[nommy(parser = text::OneOf<"abX">)]
    pub x: NoX,
    pub more: Vec<Exp>,
}
impl ToVal for Strict {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.n.to_val(), self.x.to_val(), self.more.to_val()])
    }
}

#[derive(Parse)]
pub struct Retry {
    #[nommy(suffix = text::Tag<"1">)]
    pub many: Vec<Strict>,
    pub rest: text::AnyOf<"0123456789">,
}
impl ToVal for Retry {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.many.to_val(), self.rest.to_val()])
    }
}

#[derive(Parse)]
pub struct NoIgnore {
    pub a: text::Tag<"a">,
    pub b: text::Tag<" b">,
    pub c: Ident,
}
impl ToVal for NoIgnore {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()])
    }
}

#[derive(Parse)]
pub struct Opts {
    pub a: Option<Letters>,
    pub b: Option<NoIgnore>,
    pub c: Option<text::Tag<"ac">>,
    pub d: text::AnyOf<"acb ">,
}
impl ToVal for Opts {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Space)]
#[nommy(prefix = text::Tag<"(">)]
#[nommy(suffix = text::Tag<")">)]
pub struct Pair<A, B> {
    pub left: A,
    pub right: B,
}
impl<A: ToVal, B: ToVal> ToVal for Pair<A, B> {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.left.to_val(), self.right.to_val()])
    }
}

#[derive(Parse)]
pub enum Either<A, B> {
    Left(
    A,
),
    #[nommy(prefix = text::Tag<"|">)]
    Right {
    value: B,
},
}
impl<A: ToVal, B: ToVal> ToVal for Either<A, B> {
    fn to_val(self) -> Val {
        match self {
            Either::Left(elem0) => Val::Var(0, vec![elem0.to_val()]),
            Either::Right { value } => Val::Var(1, vec![value.to_val()]),
        }
    }
}

#[derive(Parse)]
pub struct Sep<A, B>(
    pub A,
    #[nommy(prefix = text::Tag<"/">)]
    pub Vec<A>,
    pub Option<B>,
);
impl<A: ToVal, B: ToVal> ToVal for Sep<A, B> {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Space)]
pub struct Many<A, B> {
    #[nommy(suffix = text::Tag<";">)]
    #[nommy(inner_parser = A)]
    #[nommy(seperated_by = B)]
    #[nommy(trailing = "maybe")]
    pub xs: Vec<A>,
    #[nommy(inner_parser = B)]
    pub ys: Vec<B>,
}
impl<A: ToVal, B: ToVal> ToVal for Many<A, B> {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.xs.to_val(), self.ys.to_val()])
    }
}

#[derive(Parse)]
#[nommy(prefix = Option<text::Tag<"~">>)]
pub struct Around<A, B>(
    #[nommy(prefix = B)]
    #[nommy(suffix = B)]
    pub Vec1<A>,
    pub [A; 2],
    pub Option<B>,
);
impl<A: ToVal, B: ToVal> ToVal for Around<A, B> {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::WhiteSpace)]
#[nommy(prefix = text::Tag<"=">)]
pub enum Pick<A, B> {
    Both(
    Box<A>,
    Box<B>,
),
    #[nommy(prefix = text::Tag<"[">)]
    Some {
    #[nommy(inner_parser = A)]
    #[nommy(seperated_by = text::Tag<",">)]
    #[nommy(trailing = "yes")]
    v: Vec<A>,
},
    None,
}
impl<A: ToVal, B: ToVal> ToVal for Pick<A, B> {
    fn to_val(self) -> Val {
        match self {
            Pick::Both(elem0, elem1) => Val::Var(0, vec![elem0.to_val(), elem1.to_val()]),
            Pick::Some { v } => Val::Var(1, vec![v.to_val()]),
            Pick::None => Val::Var(2, vec![]),
        }
    }
}

#[derive(Parse)]
pub enum Abc {
    #[nommy(prefix = text::Tag<"a">)]
    First,
    #[nommy(prefix = text::Tag<"ab">)]
    Second,
    #[nommy(prefix = text::Tag<"b">, suffix = text::Tag<"c">)]
    Third,
}
impl ToVal for Abc {
    fn to_val(self) -> Val {
        match self {
            Abc::First => Val::Var(0, vec![]),
            Abc::Second => Val::Var(1, vec![]),
            Abc::Third => Val::Var(2, vec![]),
        }
    }
}

#[derive(Parse)]
pub enum Longest {
    #[nommy(prefix = text::Tag<"aaa">)]
    Three,
    #[nommy(prefix = text::Tag<"aa">)]
    Two,
    #[nommy(prefix = text::Tag<"a">)]
    One,
    Other(
    #[nommy(parser = text::AnyOf1<"b">)]
    String,
),
}
impl ToVal for Longest {
    fn to_val(self) -> Val {
        match self {
            Longest::Three => Val::Var(0, vec![]),
            Longest::Two => Val::Var(1, vec![]),
            Longest::One => Val::Var(2, vec![]),
            Longest::Other(elem0) => Val::Var(3, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::WhiteSpace)]
pub enum Shared {
    Assign {
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    name: String,
    #[nommy(prefix = text::Tag<"=">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    value: usize,
},
    Invoke {
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    name: String,
    #[nommy(prefix = text::Tag<"(">)]
    #[nommy(suffix = text::Tag<")">)]
    #[nommy(inner_parser = text::AnyOf1<"0123456789">)]
    #[nommy(seperated_by = text::Tag<",">)]
    args: Vec<usize>,
},
    Index(
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    String,
    #[nommy(prefix = text::Tag<"[">)]
    #[nommy(suffix = text::Tag<"]">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    usize,
),
    Name(
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    String,
),
}
impl ToVal for Shared {
    fn to_val(self) -> Val {
        match self {
            Shared::Assign { name, value } => Val::Var(0, vec![name.to_val(), value.to_val()]),
            Shared::Invoke { name, args } => Val::Var(1, vec![name.to_val(), args.to_val()]),
            Shared::Index(elem0, elem1) => Val::Var(2, vec![elem0.to_val(), elem1.to_val()]),
            Shared::Name(elem0) => Val::Var(3, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(prefix = text::Tag<"-">)]
#[nommy(suffix = text::Tag<"-">)]
pub enum Dash {
    #[nommy(prefix = text::Tag<"-">)]
    Long(
    text::OneOf<"ab">,
),
    Short(
    text::OneOf<"ab">,
),
    #[nommy(prefix = text::Tag<"-">, suffix = text::Tag<"-">)]
    Wide,
}
impl ToVal for Dash {
    fn to_val(self) -> Val {
        match self {
            Dash::Long(elem0) => Val::Var(0, vec![elem0.to_val()]),
            Dash::Short(elem0) => Val::Var(1, vec![elem0.to_val()]),
            Dash::Wide => Val::Var(2, vec![]),
        }
    }
}

#[derive(Parse)]
#[nommy(prefix = text::Tag<"|">)]
#[nommy(suffix = text::Tag<"|">)]
pub struct Bars {
    #[nommy(prefix = text::Tag<"|">)]
    #[nommy(suffix = text::Tag<"|">)]
    pub x: text::Tag<"|">,
    pub y: text::Tag<"|">,
    pub z: Option<text::Tag<"|">>,
}
impl ToVal for Bars {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val(), self.z.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Space)]
#[nommy(suffix = text::Space)]
pub struct Blanks {
    #[nommy(prefix = text::Tag<"a">, parser = text::AnyOf1<"ab">)]
    pub x: String,
    #[nommy(prefix = text::Tag<"a">)]
    #[nommy(inner_parser = text::Tag<"a">)]
    #[nommy(seperated_by = text::Space)]
    #[nommy(trailing = "maybe")]
    pub list: Vec<text::Tag<"a">>,
    pub y: Vec<text::Tag<"a">>,
}
impl ToVal for Blanks {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.list.to_val(), self.y.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, prefix = text::Tag<"a">, ignore = text::Space)]
pub enum Twice {
    #[nommy(ignore = text::Space)]
    #[nommy(prefix = text::Tag<"a">)]
    One {
    #[nommy(prefix = text::Tag<"a">)]
    x: text::Tag<"a">,
},
    #[nommy(prefix = text::Tag<"a">)]
    Two,
    #[nommy(suffix = text::Tag<"b">)]
    Three(
    text::Tag<"b">,
    text::Tag<"b">,
),
}
impl ToVal for Twice {
    fn to_val(self) -> Val {
        match self {
            Twice::One { x } => Val::Var(0, vec![x.to_val()]),
            Twice::Two => Val::Var(1, vec![]),
            Twice::Three(elem0, elem1) => Val::Var(2, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::WhiteSpace)]
pub struct Stmt(
    pub Shared,
    pub text::Tag<";">,
);
impl ToVal for Stmt {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::WhiteSpace)]
#[nommy(prefix = text::Tag<"{">)]
#[nommy(suffix = text::Tag<"}">)]
pub struct Block {
    pub body: Vec<Stmt>,
}
impl ToVal for Block {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.body.to_val()])
    }
}

#[derive(Parse)]
#[nommy(prefix = text::Tag<"<">, suffix = text::Tag<">">, ignore = text::Space)]
pub enum Outer {
    Plain,
    #[nommy(ignore = text::Tag<"-">)]
    #[nommy(prefix = text::Tag<"(">)]
    #[nommy(suffix = text::Tag<")">)]
    Own {
    #[nommy(parser = text::OneOf<"ab">)]
    x: char,
    #[nommy(parser = text::OneOf<"ab">)]
    y: char,
},
    #[nommy(prefix = text::Tag<"(a">)]
    #[nommy(suffix = text::Tag<"b)">)]
    Tup(
    Vec1<text::Tag<"ab">>,
),
}
impl ToVal for Outer {
    fn to_val(self) -> Val {
        match self {
            Outer::Plain => Val::Var(0, vec![]),
            Outer::Own { x, y } => Val::Var(1, vec![x.to_val(), y.to_val()]),
            Outer::Tup(elem0) => Val::Var(2, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Space)]
#[nommy(prefix = text::Tag<"<">)]
#[nommy(suffix = text::Tag<">">)]
pub enum OuterLast {
    #[nommy(ignore = text::Tag<"-">)]
    #[nommy(prefix = text::Tag<"(">)]
    #[nommy(suffix = text::Tag<")">)]
    Own {
    #[nommy(parser = text::OneOf<"ab">)]
    x: char,
    #[nommy(parser = text::OneOf<"ab">)]
    y: char,
},
    #[nommy(prefix = text::Tag<"(a">)]
    #[nommy(suffix = text::Tag<"b)">)]
    Tup(
    Vec1<text::Tag<"ab">>,
),
    Plain,
}
impl ToVal for OuterLast {
    fn to_val(self) -> Val {
        match self {
            OuterLast::Own { x, y } => Val::Var(0, vec![x.to_val(), y.to_val()]),
            OuterLast::Tup(elem0) => Val::Var(1, vec![elem0.to_val()]),
            OuterLast::Plain => Val::Var(2, vec![]),
        }
    }
}

#[derive(Parse)]
pub enum Digit {
    Sm(
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    Small,
),
    Big(
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    usize,
),
    Huge(
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    String,
),
}
impl ToVal for Digit {
    fn to_val(self) -> Val {
        match self {
            Digit::Sm(elem0) => Val::Var(0, vec![elem0.to_val()]),
            Digit::Big(elem0) => Val::Var(1, vec![elem0.to_val()]),
            Digit::Huge(elem0) => Val::Var(2, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, ignore = text::WhiteSpace)]
pub struct Digits {
    #[nommy(inner_parser = Digit)]
    #[nommy(seperated_by = text::Tag<",">)]
    #[nommy(trailing = "maybe")]
    pub all: Vec<Digit>,
}
impl ToVal for Digits {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.all.to_val()])
    }
}

#[derive(Parse)]
pub enum Cut {
    Long(
    [text::OneOf<"ab">; 6],
),
    Mid(
    [text::OneOf<"ab">; 4],
    text::Tag<"c">,
),
    Short(
    [text::OneOf<"ab">; 2],
),
    Len(
    LenPre,
),
}
impl ToVal for Cut {
    fn to_val(self) -> Val {
        match self {
            Cut::Long(elem0) => Val::Var(0, vec![elem0.to_val()]),
            Cut::Mid(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
            Cut::Short(elem0) => Val::Var(2, vec![elem0.to_val()]),
            Cut::Len(elem0) => Val::Var(3, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
pub struct Cuts {
    pub a: Vec<Cut>,
    pub b: text::AnyOf<"abc">,
}
impl ToVal for Cuts {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Space)]
pub enum Listy {
    #[nommy(prefix = text::Tag<"[">)]
    Semi {
    #[nommy(inner_parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    #[nommy(seperated_by = text::Tag<";">)]
    #[nommy(trailing = "yes")]
    xs: Vec<String>,
},
    #[nommy(prefix = text::Tag<"[">, suffix = text::Tag<"]">)]
    Comma {
    #[nommy(inner_parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    #[nommy(seperated_by = text::Tag<",">)]
    #[nommy(trailing = "maybe")]
    xs: Vec<String>,
},
    #[nommy(prefix = text::Tag<"[">)]
    #[nommy(suffix = text::Tag<"!">)]
    Spacey(
    #[nommy(inner_parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    Vec<String>,
),
}
impl ToVal for Listy {
    fn to_val(self) -> Val {
        match self {
            Listy::Semi { xs } => Val::Var(0, vec![xs.to_val()]),
            Listy::Comma { xs } => Val::Var(1, vec![xs.to_val()]),
            Listy::Spacey(elem0) => Val::Var(2, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
pub enum Only {
    One(
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    String,
    Option<text::OneOf<"!?">>,
),
}
impl ToVal for Only {
    fn to_val(self) -> Val {
        match self {
            Only::One(elem0, elem1) => Val::Var(0, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = text::WhiteSpace)]
pub enum OnlyUnit {
    #[nommy(prefix = text::Tag<"here">, suffix = text::Tag<";">)]
    Here,
}
impl ToVal for OnlyUnit {
    fn to_val(self) -> Val {
        match self {
            OnlyUnit::Here => Val::Var(0, vec![]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Space)]
#[nommy(prefix = text::Tag<"<">)]
pub enum OnlyIn {
    #[nommy(prefix = text::Tag<"(">)]
    #[nommy(suffix = text::Tag<")">)]
    It {
    a: Only,
    #[nommy(inner_parser = Only)]
    #[nommy(seperated_by = text::Tag<",">)]
    #[nommy(trailing = "maybe")]
    b: Vec<Only>,
},
}
impl ToVal for OnlyIn {
    fn to_val(self) -> Val {
        match self {
            OnlyIn::It { a, b } => Val::Var(0, vec![a.to_val(), b.to_val()]),
        }
    }
}

#[derive(Parse)]
pub enum OnlyBoxed {
    Deep(
    Box<OnlyIn>,
    Box<Box<OnlyUnit>>,
),
}
impl ToVal for OnlyBoxed {
    fn to_val(self) -> Val {
        match self {
            OnlyBoxed::Deep(elem0, elem1) => Val::Var(0, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
pub struct BoxIn {
    pub x: text::OneOf<"x">,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub n: Small,
}
impl ToVal for BoxIn {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.n.to_val()])
    }
}

#[derive(Parse)]
pub struct BoxMid {
    pub l: Box<BoxIn>,
    #[nommy(prefix = text::Tag<":">)]
    pub r: [Box<BoxIn>; 2],
}
impl ToVal for BoxMid {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.l.to_val(), self.r.to_val()])
    }
}

#[derive(Parse)]
pub struct BoxOut {
    pub mid: Box<BoxMid>,
    #[nommy(suffix = text::Tag<";">)]
    pub alt: Box<Only>,
}
impl ToVal for BoxOut {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.mid.to_val(), self.alt.to_val()])
    }
}

#[derive(Parse)]
pub enum BoxAlt {
    M(
    Box<BoxMid>,
),
    #[nommy(suffix = text::Tag<".">)]
    N(
    Vec1<Box<BoxIn>>,
),
}
impl ToVal for BoxAlt {
    fn to_val(self) -> Val {
        match self {
            BoxAlt::M(elem0) => Val::Var(0, vec![elem0.to_val()]),
            BoxAlt::N(elem0) => Val::Var(1, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Space)]
pub struct Own1 {
    #[nommy(prefix = text::Tag<"a">)]
    pub a: Quoted,
    pub n: Num,
    #[nommy(prefix = text::Tag<"s">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub s: Small,
}
impl ToVal for Own1 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.n.to_val(), self.s.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct Own2(
    pub Box<Own1>,
    #[nommy(prefix = text::Tag<";">)]
    pub [LenPre; 2],
    #[nommy(inner_parser = text::OneOf<"aX">, seperated_by = text::Tag<",">)]
    pub Vec<NoX>,
);
impl ToVal for Own2 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()])
    }
}

#[derive(Parse)]
pub struct Own3 {
    #[nommy(prefix = text::Tag<"?">)]
    pub opt: Option<Own1>,
    pub own: Box<Box<Own2>>,
    #[nommy(prefix = text::Tag<"!">)]
    pub ones: Vec1<Own1>,
}
impl ToVal for Own3 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.opt.to_val(), self.own.to_val(), self.ones.to_val()])
    }
}

#[derive(Parse)]
#[nommy(suffix = text::Tag<";">)]
pub enum OwnAlt {
    A(
    Own1,
),
    #[nommy(prefix = text::Tag<"b">)]
    B {
    q: Vec1<Num>,
    any: AnyEl,
},
}
impl ToVal for OwnAlt {
    fn to_val(self) -> Val {
        match self {
            OwnAlt::A(elem0) => Val::Var(0, vec![elem0.to_val()]),
            OwnAlt::B { q, any } => Val::Var(1, vec![q.to_val(), any.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct OwnAll {
    pub alts: Vec<OwnAlt>,
    pub o: Own3,
    pub last: [[Quoted; 2]; 2],
}
impl ToVal for OwnAll {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.alts.to_val(), self.o.to_val(), self.last.to_val()])
    }
}

#[derive(Parse)]
pub enum UniEnum {
    #[nommy(prefix = text::Tag<"é√">)]
    Acc,
    Clef(
    #[nommy(parser = text::AnyOf1<"𝄞é">)]
    String,
),
    #[nommy(suffix = text::Tag<";">)]
    Rest {
    #[nommy(parser = text::WhileNot1<";">)]
    s: String,
},
}
impl ToVal for UniEnum {
    fn to_val(self) -> Val {
        match self {
            UniEnum::Acc => Val::Var(0, vec![]),
            UniEnum::Clef(elem0) => Val::Var(1, vec![elem0.to_val()]),
            UniEnum::Rest { s } => Val::Var(2, vec![s.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, ignore = text::WhiteSpace)]
pub enum Expr0 {
    Num(
    Num,
),
    Str(
    Quoted,
),
    #[nommy(prefix = text::Tag<"-">)]
    Neg(
    Box<Expr0>,
),
    #[nommy(prefix = text::Tag<"(">)]
    #[nommy(suffix = text::Tag<")">)]
    Paren {
    first: Box<Expr0>,
    rest: Vec<Expr0>,
},
}
impl ToVal for Expr0 {
    fn to_val(self) -> Val {
        match self {
            Expr0::Num(elem0) => Val::Var(0, vec![elem0.to_val()]),
            Expr0::Str(elem0) => Val::Var(1, vec![elem0.to_val()]),
            Expr0::Neg(elem0) => Val::Var(2, vec![elem0.to_val()]),
            Expr0::Paren { first, rest } => Val::Var(3, vec![first.to_val(), rest.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::WhiteSpace)]
pub enum Lisp {
    Atom(
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz+-*">)]
    String,
),
    #[nommy(prefix = text::Tag<"(">)]
    #[nommy(suffix = text::Tag<")">)]
    List(
    Vec<Lisp>,
),
    Str(
    Quoted,
),
}
impl ToVal for Lisp {
    fn to_val(self) -> Val {
        match self {
            Lisp::Atom(elem0) => Val::Var(0, vec![elem0.to_val()]),
            Lisp::List(elem0) => Val::Var(1, vec![elem0.to_val()]),
            Lisp::Str(elem0) => Val::Var(2, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::WhiteSpace)]
pub enum Json {
    #[nommy(prefix = text::Tag<"null">)]
    Null,
    #[nommy(prefix = text::Tag<"{">)]
    #[nommy(suffix = text::Tag<"}">)]
    Object(
    #[nommy(inner_parser = Record)]
    #[nommy(seperated_by = text::Tag<",">)]
    Vec<Record>,
),
    #[nommy(prefix = text::Tag<"[">, suffix = text::Tag<"]">)]
    List(
    #[nommy(inner_parser = Json)]
    #[nommy(seperated_by = text::Tag<",">)]
    Vec<Json>,
),
    Str(
    Quoted,
),
    Num(
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    usize,
),
}
impl ToVal for Json {
    fn to_val(self) -> Val {
        match self {
            Json::Null => Val::Var(0, vec![]),
            Json::Object(elem0) => Val::Var(1, vec![elem0.to_val()]),
            Json::List(elem0) => Val::Var(2, vec![elem0.to_val()]),
            Json::Str(elem0) => Val::Var(3, vec![elem0.to_val()]),
            Json::Num(elem0) => Val::Var(4, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, ignore = text::WhiteSpace)]
pub struct Record {
    #[nommy(suffix = text::Tag<":">)]
    pub name: Quoted,
    pub value: Json,
}
impl ToVal for Record {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.name.to_val(), self.value.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, ignore = text::WhiteSpace)]
pub struct Attribute {
    #[nommy(suffix = text::Tag<"=">)]
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz-_">)]
    pub name: String,
    #[nommy(prefix = text::Tag<"\"">)]
    #[nommy(suffix = text::Tag<"\"">)]
    #[nommy(parser = text::WhileNot1<"\"">)]
    pub value: String,
}
impl ToVal for Attribute {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.name.to_val(), self.value.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, prefix = text::Tag<"<">, suffix = text::Tag<">">, ignore = text::WhiteSpace)]
pub struct Xml {
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz-_">)]
    pub name: String,
    pub attributes: Vec<Attribute>,
    #[nommy(prefix = text::Tag<">">, suffix = text::Tag<"</">)]
    pub children: Vec<Xml>,
}
impl ToVal for Xml {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.name.to_val(), self.attributes.to_val(), self.children.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct Chain {
    pub head: text::OneOf<"ab">,
    #[nommy(prefix = text::Tag<".">)]
    pub next: Option<Box<Chain>>,
}
impl ToVal for Chain {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.head.to_val(), self.next.to_val()])
    }
}

#[derive(Parse)]
pub enum Ini {
    #[nommy(prefix = text::Tag<"[">)]
    #[nommy(suffix = text::Tag<"]\n">)]
    Section {
    #[nommy(parser = text::WhileNot1<"]\n">)]
    name: String,
},
    Entry {
    #[nommy(suffix = text::Tag<"=">)]
    #[nommy(parser = text::WhileNot1<"=\n">)]
    key: String,
    #[nommy(suffix = text::Tag<"\n">, parser = text::WhileNot1<"\n">)]
    value: String,
},
    Junk(
    #[nommy(suffix = text::Tag<"\n">)]
    #[nommy(parser = text::WhileNot1<"\n">)]
    String,
),
}
impl ToVal for Ini {
    fn to_val(self) -> Val {
        match self {
            Ini::Section { name } => Val::Var(0, vec![name.to_val()]),
            Ini::Entry { key, value } => Val::Var(1, vec![key.to_val(), value.to_val()]),
            Ini::Junk(elem0) => Val::Var(2, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
pub struct IniFile(
    pub Vec<Ini>,
);
impl ToVal for IniFile {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val()])
    }
}

#[derive(Parse)]
pub struct Wide(
    pub text::OneOf<"ab">,
    pub text::OneOf<"bc">,
    pub text::OneOf<"cd">,
    pub text::OneOf<"de">,
    pub text::OneOf<"ef">,
    pub text::OneOf<"fg">,
    pub text::OneOf<"gh">,
    pub text::OneOf<"hi">,
    pub text::OneOf<"ij">,
    pub text::OneOf<"jk">,
    pub text::OneOf<"kl">,
    pub text::OneOf<"lm">,
    pub text::OneOf<"mn">,
);
impl ToVal for Wide {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val(), self.4.to_val(), self.5.to_val(), self.6.to_val(), self.7.to_val(), self.8.to_val(), self.9.to_val(), self.10.to_val(), self.11.to_val(), self.12.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Space)]
#[nommy(prefix = text::Tag<"<">)]
pub struct WideIgn(
    pub Option<text::OneOf<"ab">>,
    pub Option<text::OneOf<"bc">>,
    pub Option<text::OneOf<"cd">>,
    #[nommy(suffix = text::Tag<",">)]
    pub Option<text::OneOf<"de">>,
    pub Option<text::OneOf<"ef">>,
    pub Option<text::OneOf<"fg">>,
    pub Option<text::OneOf<"gh">>,
    pub Option<text::OneOf<"hi">>,
    pub Option<text::OneOf<"ij">>,
    pub Option<text::OneOf<"jk">>,
    #[nommy(suffix = text::Tag<",">)]
    pub Option<text::OneOf<"kl">>,
    pub Option<text::OneOf<"lm">>,
);
impl ToVal for WideIgn {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val(), self.4.to_val(), self.5.to_val(), self.6.to_val(), self.7.to_val(), self.8.to_val(), self.9.to_val(), self.10.to_val(), self.11.to_val()])
    }
}

#[derive(Parse)]
pub struct WideNamed {
    #[nommy(parser = text::OneOf<"ab">)]
    pub zz: char,
    pub a: text::OneOf<"bc">,
    pub b10: text::OneOf<"cd">,
    #[nommy(parser = text::OneOf<"de">)]
    pub b2: char,
    pub m: text::OneOf<"ef">,
    pub Y: text::OneOf<"fg">,
    #[nommy(parser = text::OneOf<"gh">)]
    pub q: char,
    pub c: text::OneOf<"hi">,
    pub p: text::OneOf<"ij">,
    #[nommy(parser = text::OneOf<"jk">)]
    pub _n: char,
    pub d: text::OneOf<"kl">,
    #[nommy(prefix = text::Tag<"-">)]
    pub u: text::OneOf<"lm">,
    #[nommy(parser = text::OneOf<"mn">)]
    pub h: char,
    pub g: text::OneOf<"no">,
    pub f: text::OneOf<"op">,
    #[nommy(parser = text::OneOf<"pq">)]
    pub e: char,
}
impl ToVal for WideNamed {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.zz.to_val(), self.a.to_val(), self.b10.to_val(), self.b2.to_val(), self.m.to_val(), self.Y.to_val(), self.q.to_val(), self.c.to_val(), self.p.to_val(), self._n.to_val(), self.d.to_val(), self.u.to_val(), self.h.to_val(), self.g.to_val(), self.f.to_val(), self.e.to_val()])
    }
}

#[derive(Parse)]
pub enum WideEnum {
    Tup(
    text::Tag<"a">,
    text::OneOf<"bc">,
    text::Tag<"c">,
    text::OneOf<"de">,
    text::Tag<"e">,
    text::OneOf<"fg">,
    text::Tag<"g">,
    text::OneOf<"hi">,
    text::Tag<"i">,
    text::OneOf<"jk">,
    text::Tag<"k">,
),
    Named {
    zz: text::OneOf<"ab">,
    a: text::OneOf<"bc">,
    b10: text::OneOf<"cd">,
    b2: text::OneOf<"de">,
    m: text::OneOf<"ef">,
    Y: text::OneOf<"fg">,
    q: text::OneOf<"gh">,
    c: text::OneOf<"hi">,
    p: text::OneOf<"ij">,
    _n: text::OneOf<"jk">,
    d: text::OneOf<"kl">,
    u: text::OneOf<"lm">,
},
    Less(
    [text::OneOf<"ab">; 2],
    text::AnyOf<"abcdefghijklmnopqrstuvwxyz">,
),
}
impl ToVal for WideEnum {
    fn to_val(self) -> Val {
        match self {
            WideEnum::Tup(elem0, elem1, elem2, elem3, elem4, elem5, elem6, elem7, elem8, elem9, elem10) => Val::Var(0, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val(), elem4.to_val(), elem5.to_val(), elem6.to_val(), elem7.to_val(), elem8.to_val(), elem9.to_val(), elem10.to_val()]),
            WideEnum::Named { zz, a, b10, b2, m, Y, q, c, p, _n, d, u } => Val::Var(1, vec![zz.to_val(), a.to_val(), b10.to_val(), b2.to_val(), m.to_val(), Y.to_val(), q.to_val(), c.to_val(), p.to_val(), _n.to_val(), d.to_val(), u.to_val()]),
            WideEnum::Less(elem0, elem1) => Val::Var(2, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
pub enum Many20 {
    #[nommy(prefix = text::Tag<"mon">)]
    A0,
    #[nommy(prefix = text::Tag<"tue">)]
    X1,
    #[nommy(prefix = text::Tag<"wed">)]
    A2,
    #[nommy(prefix = text::Tag<"thu">)]
    X3,
    #[nommy(prefix = text::Tag<"fri">)]
    A4,
    #[nommy(prefix = text::Tag<"sat">)]
    X5,
    #[nommy(prefix = text::Tag<"sun">)]
    A6,
    #[nommy(prefix = text::Tag<"jan">)]
    X7,
    #[nommy(prefix = text::Tag<"feb">)]
    A8,
    #[nommy(prefix = text::Tag<"mar">)]
    X9,
    #[nommy(prefix = text::Tag<"apr">)]
    A10,
    #[nommy(prefix = text::Tag<"may">)]
    X11,
    #[nommy(prefix = text::Tag<"jun">)]
    A12,
    #[nommy(prefix = text::Tag<"jul">)]
    X13,
    #[nommy(prefix = text::Tag<"aug">)]
    A14,
    #[nommy(prefix = text::Tag<"sep">)]
    X15,
    #[nommy(prefix = text::Tag<"oct">)]
    A16,
    #[nommy(prefix = text::Tag<"nov">)]
    X17,
    #[nommy(prefix = text::Tag<"dec">)]
    A18,
    #[nommy(prefix = text::Tag<"monday">)]
    X19,
    #[nommy(prefix = text::Tag<"m">)]
    A20,
}
impl ToVal for Many20 {
    fn to_val(self) -> Val {
        match self {
            Many20::A0 => Val::Var(0, vec![]),
            Many20::X1 => Val::Var(1, vec![]),
            Many20::A2 => Val::Var(2, vec![]),
            Many20::X3 => Val::Var(3, vec![]),
            Many20::A4 => Val::Var(4, vec![]),
            Many20::X5 => Val::Var(5, vec![]),
            Many20::A6 => Val::Var(6, vec![]),
            Many20::X7 => Val::Var(7, vec![]),
            Many20::A8 => Val::Var(8, vec![]),
            Many20::X9 => Val::Var(9, vec![]),
            Many20::A10 => Val::Var(10, vec![]),
            Many20::X11 => Val::Var(11, vec![]),
            Many20::A12 => Val::Var(12, vec![]),
            Many20::X13 => Val::Var(13, vec![]),
            Many20::A14 => Val::Var(14, vec![]),
            Many20::X15 => Val::Var(15, vec![]),
            Many20::A16 => Val::Var(16, vec![]),
            Many20::X17 => Val::Var(17, vec![]),
            Many20::A18 => Val::Var(18, vec![]),
            Many20::X19 => Val::Var(19, vec![]),
            Many20::A20 => Val::Var(20, vec![]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Space)]
pub enum Kinds {
    #[nommy(prefix = text::Tag<"k">)]
    K0(
    #[nommy(parser = text::OneOf<"ab">)]
    char,
    Option<text::Tag<"ab">>,
),
    K1(
    #[nommy(parser = text::OneOf<"bc">)]
    char,
    Option<text::Tag<"bc">>,
),
    K2(
    #[nommy(parser = text::OneOf<"cd">)]
    char,
    Option<text::Tag<"cd">>,
),
    #[nommy(prefix = text::Tag<"k">)]
    K3(
    #[nommy(parser = text::OneOf<"de">)]
    char,
    Option<text::Tag<"de">>,
),
    K4(
    #[nommy(parser = text::OneOf<"ef">)]
    char,
    Option<text::Tag<"ef">>,
),
    K5(
    #[nommy(parser = text::OneOf<"fg">)]
    char,
    Option<text::Tag<"fg">>,
),
    #[nommy(prefix = text::Tag<"k">)]
    K6(
    #[nommy(parser = text::OneOf<"gh">)]
    char,
    Option<text::Tag<"gh">>,
),
    K7(
    #[nommy(parser = text::OneOf<"hi">)]
    char,
    Option<text::Tag<"hi">>,
),
    K8(
    #[nommy(parser = text::OneOf<"ij">)]
    char,
    Option<text::Tag<"ij">>,
),
    #[nommy(prefix = text::Tag<"k">)]
    K9(
    #[nommy(parser = text::OneOf<"jk">)]
    char,
    Option<text::Tag<"jk">>,
),
    K10(
    #[nommy(parser = text::OneOf<"kl">)]
    char,
    Option<text::Tag<"kl">>,
),
    K11(
    #[nommy(parser = text::OneOf<"lm">)]
    char,
    Option<text::Tag<"lm">>,
),
    #[nommy(prefix = text::Tag<"k">)]
    K12(
    #[nommy(parser = text::OneOf<"mn">)]
    char,
    Option<text::Tag<"mn">>,
),
    K13(
    #[nommy(parser = text::OneOf<"no">)]
    char,
    Option<text::Tag<"no">>,
),
    K14(
    #[nommy(parser = text::OneOf<"op">)]
    char,
    Option<text::Tag<"op">>,
),
}
impl ToVal for Kinds {
    fn to_val(self) -> Val {
        match self {
            Kinds::K0(elem0, elem1) => Val::Var(0, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K1(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K2(elem0, elem1) => Val::Var(2, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K3(elem0, elem1) => Val::Var(3, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K4(elem0, elem1) => Val::Var(4, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K5(elem0, elem1) => Val::Var(5, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K6(elem0, elem1) => Val::Var(6, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K7(elem0, elem1) => Val::Var(7, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K8(elem0, elem1) => Val::Var(8, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K9(elem0, elem1) => Val::Var(9, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K10(elem0, elem1) => Val::Var(10, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K11(elem0, elem1) => Val::Var(11, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K12(elem0, elem1) => Val::Var(12, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K13(elem0, elem1) => Val::Var(13, vec![elem0.to_val(), elem1.to_val()]),
            Kinds::K14(elem0, elem1) => Val::Var(14, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Space)]
pub struct AbsPre {
    #[nommy(prefix = Option<text::Tag<"?">>)]
    pub x: text::Tag<"a">,
    #[nommy(prefix = Vec<text::Tag<"!">>)]
    #[nommy(suffix = Option<text::Tag<"?">>)]
    pub y: Option<text::Tag<"b">>,
}
impl ToVal for AbsPre {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Space)]
#[nommy(prefix = Option<text::Tag<"?">>)]
#[nommy(suffix = Vec<text::Tag<"!">>)]
pub struct AbsOwn {
    pub x: Option<text::Tag<"a">>,
    pub y: text::Tag<"b">,
}
impl ToVal for AbsOwn {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Tag<"-">)]
#[nommy(ignore = text::Space)]
#[nommy(prefix = Vec<text::Tag<"!">>)]
#[nommy(suffix = Option<text::Tag<"?">>)]
pub struct AbsTup(
    #[nommy(prefix = Vec<text::Tag<"!">>, suffix = Vec<text::Tag<"!">>, parser = text::OneOf<"ab">)]
    pub char,
    #[nommy(prefix = Option<text::Tag<"?">>)]
    #[nommy(suffix = Option<text::Tag<"?">>)]
    #[nommy(parser = text::OneOf<"ab">)]
    pub char,
);
impl ToVal for AbsTup {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Space)]
#[nommy(prefix = Option<text::Tag<"?">>)]
#[nommy(suffix = text::Tag<".">)]
pub struct AbsUnit;
impl ToVal for AbsUnit {
    fn to_val(self) -> Val {
        Val::Rec(vec![])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, prefix = Option<text::Tag<"a?">>, ignore = text::Space)]
pub struct AbsList {
    #[nommy(prefix = Option<text::Tag<"?">>)]
    #[nommy(suffix = Vec<text::Tag<"!">>)]
    #[nommy(inner_parser = text::OneOf<"ab">)]
    #[nommy(seperated_by = text::Tag<",">)]
    pub xs: Vec<text::OneOf<"ab">>,
    #[nommy(prefix = Vec<text::Tag<"!">>)]
    #[nommy(inner_parser = text::OneOf<"cd">)]
    pub ys: Vec<text::OneOf<"cd">>,
}
impl ToVal for AbsList {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.xs.to_val(), self.ys.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, ignore = text::Space, prefix = Option<text::Tag<"?">>, suffix = Vec<text::Tag<"!">>)]
pub enum AbsEnum {
    #[nommy(prefix = Vec<text::Tag<"!">>)]
    One(
    #[nommy(suffix = Option<text::Tag<"?">>)]
    text::Tag<"a">,
),
    #[nommy(prefix = Option<text::Tag<"ab">>, suffix = text::Tag<";">, ignore = text::Tag<"-">)]
    Two {
    #[nommy(prefix = Option<text::Tag<"?">>)]
    x: text::OneOf<"ab">,
},
    #[nommy(prefix = text::Tag<"c">)]
    #[nommy(suffix = Option<text::Tag<"?">>)]
    Three,
}
impl ToVal for AbsEnum {
    fn to_val(self) -> Val {
        match self {
            AbsEnum::One(elem0) => Val::Var(0, vec![elem0.to_val()]),
            AbsEnum::Two { x } => Val::Var(1, vec![x.to_val()]),
            AbsEnum::Three => Val::Var(2, vec![]),
        }
    }
}

pub struct Duo(u32, u32);
impl std::convert::TryFrom<Letters> for Duo {
    type Error = ConvError;
    fn try_from(v: Letters) -> Result<Self, ConvError> {
        nommy_sim::track::user_step();
        let (a, b): (char, char) = (v.first.into(), v.second.into());
        if (a, b) == ('b', 'd') {
            Err(ConvError("bd"))
        } else {
            Ok(Duo(a as u32, b as u32))
        }
    }
}
impl ToVal for Duo {
    fn to_val(self) -> Val {
        Val::Rec(vec![Val::Ch(self.0), Val::Ch(self.1)])
    }
}
pub struct Sum(u64);
impl std::convert::TryFrom<Vec<DigPlus>> for Sum {
    type Error = ConvError;
    fn try_from(v: Vec<DigPlus>) -> Result<Self, ConvError> {
        nommy_sim::track::user_step();
        match v.into_iter().map(|d| d.d.0).sum() {
            n if n < 150 => Ok(Sum(n)),
            _ => Err(ConvError("too much")),
        }
    }
}
impl ToVal for Sum {
    fn to_val(self) -> Val {
        Val::Num(self.0)
    }
}

#[derive(Parse)]
pub struct ConvRun {
    #[nommy(parser = Vec1<text::Space>)]
    pub lead: Vec<text::Space>,
    #[nommy(parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    pub name: String,
    #[nommy(suffix = text::Tag<";">, parser = Vec1<text::Space>)]
    pub after: Vec<text::Space>,
}
impl ToVal for ConvRun {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.lead.to_val(), self.name.to_val(), self.after.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Space)]
pub struct ConvDuo {
    #[nommy(parser = Letters)]
    pub one: Duo,
    #[nommy(prefix = text::Tag<":">, inner_parser = Letters, seperated_by = text::Tag<",">, trailing = "maybe")]
    pub more: Vec<Duo>,
    pub left: text::AnyOf<"abcdefghijklmnopqrstuvwxyz">,
}
impl ToVal for ConvDuo {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.one.to_val(), self.more.to_val(), self.left.to_val()])
    }
}

#[derive(Parse)]
pub enum ConvAlt {
    Duo(
    #[nommy(parser = Letters)]
    Duo,
    text::Tag<"!">,
),
    Raw {
    v: Vec1<Letters>,
},
    #[nommy(prefix = text::Tag<"#">)]
    Run(
    #[nommy(inner_parser = Letters)]
    Vec<Duo>,
),
}
impl ToVal for ConvAlt {
    fn to_val(self) -> Val {
        match self {
            ConvAlt::Duo(elem0, elem1) => Val::Var(0, vec![elem0.to_val(), elem1.to_val()]),
            ConvAlt::Raw { v } => Val::Var(1, vec![v.to_val()]),
            ConvAlt::Run(elem0) => Val::Var(2, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
pub struct DigPlus {
    #[nommy(suffix = text::Tag<"+">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub d: Small,
}
impl ToVal for DigPlus {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.d.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, ignore = text::Space)]
pub struct Sums {
    #[nommy(prefix = text::Tag<"=">)]
    #[nommy(parser = Vec<DigPlus>)]
    pub a: Sum,
    #[nommy(suffix = text::Tag<".">)]
    #[nommy(parser = Vec<DigPlus>)]
    pub b: Sum,
}
impl ToVal for Sums {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val()])
    }
}

#[derive(Parse)]
pub enum SumOr {
    #[nommy(prefix = text::Tag<"(">)]
    Few(
    #[nommy(parser = Vec<DigPlus>)]
    Sum,
),
    #[nommy(prefix = text::Tag<"(">, suffix = Option<text::Tag<")">>)]
    Lots {
    #[nommy(inner_parser = text::AnyOf1<"0123456789">)]
    #[nommy(seperated_by = text::Tag<"+">)]
    #[nommy(trailing = "maybe")]
    all: Vec<String>,
},
}
impl ToVal for SumOr {
    fn to_val(self) -> Val {
        match self {
            SumOr::Few(elem0) => Val::Var(0, vec![elem0.to_val()]),
            SumOr::Lots { all } => Val::Var(1, vec![all.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Space)]
pub struct Careful {
    #[nommy(prefix = text::Tag<"@">, parser = text::OneOf<"ab">)]
    pub r#type: char,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub r#fn: Small,
    #[nommy(suffix = text::Tag<".">)]
    #[nommy(inner_parser = text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">)]
    #[nommy(seperated_by = text::Tag<",">)]
    pub r#match: Vec<String>,
}
impl ToVal for Careful {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.r#type.to_val(), self.r#fn.to_val(), self.r#match.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, prefix = text::Tag<"s">)]
pub struct Shadow {
    pub parse: text::Tag<"a">,
    pub peek: text::Tag<"b">,
    pub cursor: Option<text::OneOf<"ab">>,
    #[nommy(parser = text::OneOf<"ab">)]
    pub result: char,
    pub c: text::OneOf<"ab">,
    pub output: Vec<text::Tag<"c">>,
    pub res: text::Tag<"r">,
    pub value: text::AnyOf<"xyz">,
    pub e: Option<text::Tag<"e">>,
    pub err: Option<text::Tag<"f">>,
}
impl ToVal for Shadow {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.parse.to_val(), self.peek.to_val(), self.cursor.to_val(), self.result.to_val(), self.c.to_val(), self.output.to_val(), self.res.to_val(), self.value.to_val(), self.e.to_val(), self.err.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Space)]
pub enum ShadowEnum {
    Ok {
    cursor: text::OneOf<"ab">,
    result: text::Tag<"r">,
},
    Err {
    self_: text::OneOf<"ab">,
    i: text::Tag<"i">,
},
    Some(
    text::OneOf<"ab">,
),
    None(
    text::Tag<"n">,
),
}
impl ToVal for ShadowEnum {
    fn to_val(self) -> Val {
        match self {
            ShadowEnum::Ok { cursor, result } => Val::Var(0, vec![cursor.to_val(), result.to_val()]),
            ShadowEnum::Err { self_, i } => Val::Var(1, vec![self_.to_val(), i.to_val()]),
            ShadowEnum::Some(elem0) => Val::Var(2, vec![elem0.to_val()]),
            ShadowEnum::None(elem0) => Val::Var(3, vec![elem0.to_val()]),
        }
    }
}

pub fn defs() -> Vec<Def> {
    vec![
        Def { name: "Letters", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "first", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "second", prefix: None, suffix: None, body: Body::Plain(one("cd"), Cv::No) }]) },
        Def { name: "Wrapped", attrs: Attrs { ignore: vec![], prefix: Some(tag("<")), suffix: Some(tag(">")) }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("cd"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(vec_(one("e")), Cv::No) }]) },
        Def { name: "Marker", attrs: Attrs { ignore: vec![], prefix: Some(tag("mark")), suffix: Some(tag("!")) }, kind: Kind::Struct(vec![]) },
        Def { name: "Bare", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![]) },
        Def { name: "Spaced", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: Some(tag("be")), suffix: Some(tag("go")) }, kind: Kind::Struct(vec![]) },
        Def { name: "Ident", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "name", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }]) },
        Def { name: "NamedField", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: Some(tag(",")) }, kind: Kind::Struct(vec![Field { name: "name", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }, Field { name: "ty", prefix: Some(tag(":")), suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }]) },
        Def { name: "StructNamed", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: Some(tag("struct")), suffix: None }, kind: Kind::Struct(vec![Field { name: "name", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }, Field { name: "fields", prefix: Some(tag("{")), suffix: Some(tag("}")), body: Body::Plain(vec_(G::Ty(6)), Cv::No) }]) },
        Def { name: "Call", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "name", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }, Field { name: "args", prefix: Some(tag("(")), suffix: Some(tag(")")), body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: Some(tag(",")), trailing: Tr::No } }]) },
        Def { name: "CallNo", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "name", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }, Field { name: "args", prefix: Some(tag("(")), suffix: Some(tag(")")), body: Body::List { g: any1("0123456789"), cv: Cv::Small, sep: Some(tag(",")), trailing: Tr::No } }]) },
        Def { name: "CallYes", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "args", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Small, sep: Some(tag(",")), trailing: Tr::Yes } }, Field { name: "rest", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }]) },
        Def { name: "CallMaybe", attrs: Attrs { ignore: vec![G::Space, tag("#")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "args", prefix: None, suffix: Some(tag(";")), body: Body::List { g: one("aX"), cv: Cv::NotX, sep: Some(tag(",")), trailing: Tr::Maybe } }, Field { name: "rest", prefix: None, suffix: None, body: Body::Plain(vec_(one("aX")), Cv::No) }]) },
        Def { name: "Plainlist", attrs: Attrs { ignore: vec![tag("-")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: one("ab"), cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("c"), Cv::No) }]) },
        Def { name: "Two", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "xs", prefix: None, suffix: None, body: Body::List { g: one("ab"), cv: Cv::No, sep: Some(tag("-")), trailing: Tr::No } }, Field { name: "ys", prefix: None, suffix: None, body: Body::List { g: one("cd"), cv: Cv::No, sep: Some(tag("-")), trailing: Tr::Maybe } }]) },
        Def { name: "Frac", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "digits", prefix: Some(tag(".")), suffix: None, body: Body::Plain(any1("0123456789"), Cv::No) }]) },
        Def { name: "Exp", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "sign", prefix: Some(one("eE")), suffix: None, body: Body::Plain(opt(one("+-")), Cv::No) }, Field { name: "digits", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }]) },
        Def { name: "Signed", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "n", prefix: None, suffix: None, body: Body::Plain(any1("0123456789+-"), Cv::Usize) }, Field { name: "unit", prefix: None, suffix: None, body: Body::Plain(opt(any1("abcdefghijklmnopqrstuvwxyz")), Cv::No) }]) },
        Def { name: "Hexish", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(opt(tag("#"))), suffix: None, body: Body::Plain(any1("0123456789abcdef"), Cv::Usize) }]) },
        Def { name: "Foreign", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "n", prefix: None, suffix: Some(tag(";")), body: Body::Plain(any1("0123456789٣५９"), Cv::Usize) }, Field { name: "m", prefix: None, suffix: None, body: Body::Plain(any1("٣0123456789 "), Cv::Usize) }]) },
        Def { name: "Range", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "from", prefix: None, suffix: Some(tag("-")), body: Body::Plain(any1("0123456789"), Cv::Usize) }, Field { name: "to", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }]) },
        Def { name: "Ranges", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "all", prefix: None, suffix: None, body: Body::Plain(vec1(G::Ty(19)), Cv::No) }, Field { name: "more", prefix: Some(tag(";")), suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: Some(tag(",")), trailing: Tr::Maybe } }]) },
        Def { name: "Version", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Three", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag(".")), body: Body::Plain(any1("0123456789"), Cv::Usize) }, Field { name: "elem1", prefix: None, suffix: Some(tag(".")), body: Body::Plain(any1("0123456789"), Cv::Usize) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }] }, Variant { name: "Two", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "major", prefix: None, suffix: Some(tag(".")), body: Body::Plain(any1("0123456789"), Cv::Usize) }, Field { name: "minor", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }] }, Variant { name: "One", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }] }, Variant { name: "Text", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("0123456789."), Cv::No) }] }]) },
        Def { name: "Decimal", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "sign", prefix: None, suffix: None, body: Body::Plain(opt(one("+-")), Cv::No) }, Field { name: "whole", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }, Field { name: "frac", prefix: None, suffix: None, body: Body::Plain(opt(G::Ty(14)), Cv::No) }, Field { name: "exp", prefix: None, suffix: None, body: Body::Plain(opt(G::Ty(15)), Cv::No) }]) },
        Def { name: "Fixes", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: Some(tag("{")), suffix: Some(tag("}")) }, kind: Kind::Struct(vec![Field { name: "a", prefix: Some(tag("(")), suffix: Some(tag(")")), body: Body::Plain(one("a"), Cv::No) }, Field { name: "b", prefix: Some(tag("[[")), suffix: Some(tag("]]")), body: Body::Plain(one("b"), Cv::No) }, Field { name: "c", prefix: Some(opt(tag("?"))), suffix: Some(vec_(tag("!"))), body: Body::Plain(tag("c"), Cv::No) }]) },
        Def { name: "FixesTuple", attrs: Attrs { ignore: vec![tag("_"), tag("a_")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(tag("(")), suffix: Some(tag(")")), body: Body::Plain(one("a"), Cv::No) }, Field { name: "elem1", prefix: Some(tag("((")), suffix: None, body: Body::Plain(one("aX"), Cv::NotX) }, Field { name: "elem2", prefix: None, suffix: Some(tag("))")), body: Body::Plain(arr(one("ab"), 2), Cv::No) }]) },
        Def { name: "Recog", attrs: Attrs { ignore: vec![], prefix: Some(G::Ty(23)), suffix: Some(G::Ty(8)) }, kind: Kind::Struct(vec![]) },
        Def { name: "Sparse", attrs: Attrs { ignore: vec![tag(".")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(tag("ab")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("aba")), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(any("a"), Cv::No) }]) },
        Def { name: "Arrays", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "xs", prefix: None, suffix: None, body: Body::Plain(arr(G::Ty(0), 3), Cv::No) }, Field { name: "ys", prefix: None, suffix: None, body: Body::Plain(arr(opt(tag("yy")), 2), Cv::No) }, Field { name: "zs", prefix: None, suffix: None, body: Body::Plain(bx(arr(tag("zé"), 2)), Cv::No) }]) },
        Def { name: "Uni", attrs: Attrs { ignore: vec![tag("ß")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "head", prefix: None, suffix: None, body: Body::Plain(tag("né√"), Cv::No) }, Field { name: "runs", prefix: Some(tag("→")), suffix: None, body: Body::Plain(any1("é√"), Cv::No) }, Field { name: "not", prefix: None, suffix: Some(tag("𝄞")), body: Body::Plain(not1("𝄞;"), Cv::No) }]) },
        Def { name: "Line", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "text", prefix: None, suffix: None, body: Body::Plain(not1("\r\n"), Cv::No) }, Field { name: "end", prefix: None, suffix: None, body: Body::Plain(G::LineEnding, Cv::No) }]) },
        Def { name: "Lines", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "lines", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(29)), Cv::No) }, Field { name: "last", prefix: None, suffix: None, body: Body::Plain(opt(not1("\r\n")), Cv::No) }]) },
        Def { name: "Csvrow", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "cells", prefix: None, suffix: Some(G::LineEnding), body: Body::List { g: any("abcdefghijklmnopqrstuvwxyz"), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::No } }]) },
        Def { name: "Csv", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(G::Ty(31)), Cv::No) }]) },
        Def { name: "Lenny", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: None, suffix: None, body: Body::Plain(G::LenPre, Cv::No) }, Field { name: "b", prefix: Some(tag(":")), suffix: None, body: Body::Plain(vec_(G::LenPre), Cv::No) }, Field { name: "c", prefix: None, suffix: None, body: Body::Plain(opt(G::Quoted), Cv::No) }]) },
        Def { name: "Comment", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "text", prefix: Some(tag("//")), suffix: Some(tag("\n")), body: Body::Plain(not1("\n"), Cv::No) }]) },
        Def { name: "Commented", attrs: Attrs { ignore: vec![G::WhiteSpace, G::Ty(34)], prefix: None, suffix: Some(tag(";")) }, kind: Kind::Struct(vec![Field { name: "a", prefix: None, suffix: Some(tag("=")), body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }, Field { name: "b", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }]) },
        Def { name: "Program", attrs: Attrs { ignore: vec![G::Ty(34), G::LineEnding, G::Space], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(35)), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("end"), Cv::No) }]) },
        Def { name: "Nested", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "inner", prefix: Some(tag("<")), suffix: Some(tag(">")), body: Body::Plain(G::Ty(23), Cv::No) }, Field { name: "list", prefix: None, suffix: None, body: Body::Plain(vec1(G::Ty(0)), Cv::No) }, Field { name: "tail", prefix: None, suffix: None, body: Body::Plain(G::Ty(12), Cv::No) }]) },
        Def { name: "Strict", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "n", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "x", prefix: None, suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }, Field { name: "more", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(15)), Cv::No) }]) },
        Def { name: "Retry", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "many", prefix: None, suffix: Some(tag("1")), body: Body::Plain(vec_(G::Ty(38)), Cv::No) }, Field { name: "rest", prefix: None, suffix: None, body: Body::Plain(any("0123456789"), Cv::No) }]) },
        Def { name: "NoIgnore", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: None, suffix: None, body: Body::Plain(tag("a"), Cv::No) }, Field { name: "b", prefix: None, suffix: None, body: Body::Plain(tag(" b"), Cv::No) }, Field { name: "c", prefix: None, suffix: None, body: Body::Plain(G::Ty(5), Cv::No) }]) },
        Def { name: "Opts", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: None, suffix: None, body: Body::Plain(opt(G::Ty(0)), Cv::No) }, Field { name: "b", prefix: None, suffix: None, body: Body::Plain(opt(G::Ty(40)), Cv::No) }, Field { name: "c", prefix: None, suffix: None, body: Body::Plain(opt(tag("ac")), Cv::No) }, Field { name: "d", prefix: None, suffix: None, body: Body::Plain(any("acb "), Cv::No) }]) },
        Def { name: "Abc", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "First", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("a")), suffix: None }, fields: vec![] }, Variant { name: "Second", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("ab")), suffix: None }, fields: vec![] }, Variant { name: "Third", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("b")), suffix: Some(tag("c")) }, fields: vec![] }]) },
        Def { name: "Longest", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Three", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("aaa")), suffix: None }, fields: vec![] }, Variant { name: "Two", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("aa")), suffix: None }, fields: vec![] }, Variant { name: "One", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("a")), suffix: None }, fields: vec![] }, Variant { name: "Other", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("b"), Cv::No) }] }]) },
        Def { name: "Shared", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Assign", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "name", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }, Field { name: "value", prefix: Some(tag("=")), suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }] }, Variant { name: "Invoke", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "name", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }, Field { name: "args", prefix: Some(tag("(")), suffix: Some(tag(")")), body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: Some(tag(",")), trailing: Tr::No } }] }, Variant { name: "Index", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }, Field { name: "elem1", prefix: Some(tag("[")), suffix: Some(tag("]")), body: Body::Plain(any1("0123456789"), Cv::Usize) }] }, Variant { name: "Name", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }] }]) },
        Def { name: "Dash", attrs: Attrs { ignore: vec![], prefix: Some(tag("-")), suffix: Some(tag("-")) }, kind: Kind::Enum(vec![Variant { name: "Long", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("-")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }] }, Variant { name: "Short", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }] }, Variant { name: "Wide", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("-")), suffix: Some(tag("-")) }, fields: vec![] }]) },
        Def { name: "Bars", attrs: Attrs { ignore: vec![], prefix: Some(tag("|")), suffix: Some(tag("|")) }, kind: Kind::Struct(vec![Field { name: "x", prefix: Some(tag("|")), suffix: Some(tag("|")), body: Body::Plain(tag("|"), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(tag("|"), Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(opt(tag("|")), Cv::No) }]) },
        Def { name: "Blanks", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: Some(G::Space) }, kind: Kind::Struct(vec![Field { name: "x", prefix: Some(tag("a")), suffix: None, body: Body::Plain(any1("ab"), Cv::No) }, Field { name: "list", prefix: Some(tag("a")), suffix: None, body: Body::List { g: tag("a"), cv: Cv::No, sep: Some(G::Space), trailing: Tr::Maybe } }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(vec_(tag("a")), Cv::No) }]) },
        Def { name: "Twice", attrs: Attrs { ignore: vec![G::Space], prefix: Some(tag("a")), suffix: None }, kind: Kind::Enum(vec![Variant { name: "One", what: "struct variant", attrs: Attrs { ignore: vec![G::Space], prefix: Some(tag("a")), suffix: None }, fields: vec![Field { name: "x", prefix: Some(tag("a")), suffix: None, body: Body::Plain(tag("a"), Cv::No) }] }, Variant { name: "Two", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("a")), suffix: None }, fields: vec![] }, Variant { name: "Three", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("b")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(tag("b"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("b"), Cv::No) }] }]) },
        Def { name: "Stmt", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Ty(44), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag(";"), Cv::No) }]) },
        Def { name: "Block", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: Some(tag("{")), suffix: Some(tag("}")) }, kind: Kind::Struct(vec![Field { name: "body", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(49)), Cv::No) }]) },
        Def { name: "Outer", attrs: Attrs { ignore: vec![G::Space], prefix: Some(tag("<")), suffix: Some(tag(">")) }, kind: Kind::Enum(vec![Variant { name: "Plain", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![] }, Variant { name: "Own", what: "struct variant", attrs: Attrs { ignore: vec![tag("-")], prefix: Some(tag("(")), suffix: Some(tag(")")) }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }] }, Variant { name: "Tup", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("(a")), suffix: Some(tag("b)")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(tag("ab")), Cv::No) }] }]) },
        Def { name: "OuterLast", attrs: Attrs { ignore: vec![G::Space], prefix: Some(tag("<")), suffix: Some(tag(">")) }, kind: Kind::Enum(vec![Variant { name: "Own", what: "struct variant", attrs: Attrs { ignore: vec![tag("-")], prefix: Some(tag("(")), suffix: Some(tag(")")) }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }] }, Variant { name: "Tup", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("(a")), suffix: Some(tag("b)")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(tag("ab")), Cv::No) }] }, Variant { name: "Plain", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![] }]) },
        Def { name: "Digit", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Sm", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }] }, Variant { name: "Big", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }] }, Variant { name: "Huge", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::No) }] }]) },
        Def { name: "Digits", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "all", prefix: None, suffix: None, body: Body::List { g: G::Ty(53), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::Maybe } }]) },
        Def { name: "Cut", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Long", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(arr(one("ab"), 6), Cv::No) }] }, Variant { name: "Mid", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(arr(one("ab"), 4), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("c"), Cv::No) }] }, Variant { name: "Short", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(arr(one("ab"), 2), Cv::No) }] }, Variant { name: "Len", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::LenPre, Cv::No) }] }]) },
        Def { name: "Cuts", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(55)), Cv::No) }, Field { name: "b", prefix: None, suffix: None, body: Body::Plain(any("abc"), Cv::No) }]) },
        Def { name: "Listy", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Semi", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("[")), suffix: None }, fields: vec![Field { name: "xs", prefix: None, suffix: None, body: Body::List { g: any1("abcdefghijklmnopqrstuvwxyz"), cv: Cv::No, sep: Some(tag(";")), trailing: Tr::Yes } }] }, Variant { name: "Comma", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("[")), suffix: Some(tag("]")) }, fields: vec![Field { name: "xs", prefix: None, suffix: None, body: Body::List { g: any1("abcdefghijklmnopqrstuvwxyz"), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::Maybe } }] }, Variant { name: "Spacey", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("[")), suffix: Some(tag("!")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: any1("abcdefghijklmnopqrstuvwxyz"), cv: Cv::No, sep: None, trailing: Tr::No } }] }]) },
        Def { name: "Only", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "One", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(one("!?")), Cv::No) }] }]) },
        Def { name: "OnlyUnit", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Here", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("here")), suffix: Some(tag(";")) }, fields: vec![] }]) },
        Def { name: "OnlyIn", attrs: Attrs { ignore: vec![G::Space], prefix: Some(tag("<")), suffix: None }, kind: Kind::Enum(vec![Variant { name: "It", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("(")), suffix: Some(tag(")")) }, fields: vec![Field { name: "a", prefix: None, suffix: None, body: Body::Plain(G::Ty(58), Cv::No) }, Field { name: "b", prefix: None, suffix: None, body: Body::List { g: G::Ty(58), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::Maybe } }] }]) },
        Def { name: "OnlyBoxed", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Deep", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(60)), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(bx(bx(G::Ty(59))), Cv::No) }] }]) },
        Def { name: "BoxIn", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(one("x"), Cv::No) }, Field { name: "n", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }]) },
        Def { name: "BoxMid", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "l", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(62)), Cv::No) }, Field { name: "r", prefix: Some(tag(":")), suffix: None, body: Body::Plain(arr(bx(G::Ty(62)), 2), Cv::No) }]) },
        Def { name: "BoxOut", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "mid", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(63)), Cv::No) }, Field { name: "alt", prefix: None, suffix: Some(tag(";")), body: Body::Plain(bx(G::Ty(58)), Cv::No) }]) },
        Def { name: "BoxAlt", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "M", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(63)), Cv::No) }] }, Variant { name: "N", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag(".")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(bx(G::Ty(62))), Cv::No) }] }]) },
        Def { name: "Own1", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: Some(tag("a")), suffix: None, body: Body::Plain(G::Quoted, Cv::No) }, Field { name: "n", prefix: None, suffix: None, body: Body::Plain(G::Number, Cv::No) }, Field { name: "s", prefix: Some(tag("s")), suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }]) },
        Def { name: "Own2", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(66)), Cv::No) }, Field { name: "elem1", prefix: Some(tag(";")), suffix: None, body: Body::Plain(arr(G::LenPre, 2), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::List { g: one("aX"), cv: Cv::NotX, sep: Some(tag(",")), trailing: Tr::No } }]) },
        Def { name: "Own3", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "opt", prefix: Some(tag("?")), suffix: None, body: Body::Plain(opt(G::Ty(66)), Cv::No) }, Field { name: "own", prefix: None, suffix: None, body: Body::Plain(bx(bx(G::Ty(67))), Cv::No) }, Field { name: "ones", prefix: Some(tag("!")), suffix: None, body: Body::Plain(vec1(G::Ty(66)), Cv::No) }]) },
        Def { name: "OwnAlt", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag(";")) }, kind: Kind::Enum(vec![Variant { name: "A", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Ty(66), Cv::No) }] }, Variant { name: "B", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("b")), suffix: None }, fields: vec![Field { name: "q", prefix: None, suffix: None, body: Body::Plain(vec1(G::Number), Cv::No) }, Field { name: "any", prefix: None, suffix: None, body: Body::Plain(G::AnyEl, Cv::No) }] }]) },
        Def { name: "OwnAll", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "alts", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(69)), Cv::No) }, Field { name: "o", prefix: None, suffix: None, body: Body::Plain(G::Ty(68), Cv::No) }, Field { name: "last", prefix: None, suffix: None, body: Body::Plain(arr(arr(G::Quoted, 2), 2), Cv::No) }]) },
        Def { name: "UniEnum", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Acc", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("é√")), suffix: None }, fields: vec![] }, Variant { name: "Clef", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("𝄞é"), Cv::No) }] }, Variant { name: "Rest", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag(";")) }, fields: vec![Field { name: "s", prefix: None, suffix: None, body: Body::Plain(not1(";"), Cv::No) }] }]) },
        Def { name: "Expr0", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Num", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Number, Cv::No) }] }, Variant { name: "Str", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Quoted, Cv::No) }] }, Variant { name: "Neg", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("-")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(72)), Cv::No) }] }, Variant { name: "Paren", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("(")), suffix: Some(tag(")")) }, fields: vec![Field { name: "first", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(72)), Cv::No) }, Field { name: "rest", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(72)), Cv::No) }] }]) },
        Def { name: "Lisp", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Atom", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz+-*"), Cv::No) }] }, Variant { name: "List", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("(")), suffix: Some(tag(")")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(73)), Cv::No) }] }, Variant { name: "Str", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Quoted, Cv::No) }] }]) },
        Def { name: "Json", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Null", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("null")), suffix: None }, fields: vec![] }, Variant { name: "Object", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("{")), suffix: Some(tag("}")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: G::Ty(75), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::No } }] }, Variant { name: "List", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("[")), suffix: Some(tag("]")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: G::Ty(74), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::No } }] }, Variant { name: "Str", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Quoted, Cv::No) }] }, Variant { name: "Num", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }] }]) },
        Def { name: "Record", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "name", prefix: None, suffix: Some(tag(":")), body: Body::Plain(G::Quoted, Cv::No) }, Field { name: "value", prefix: None, suffix: None, body: Body::Plain(G::Ty(74), Cv::No) }]) },
        Def { name: "Attribute", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "name", prefix: None, suffix: Some(tag("=")), body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz-_"), Cv::No) }, Field { name: "value", prefix: Some(tag("\"")), suffix: Some(tag("\"")), body: Body::Plain(not1("\""), Cv::No) }]) },
        Def { name: "Xml", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: Some(tag("<")), suffix: Some(tag(">")) }, kind: Kind::Struct(vec![Field { name: "name", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz-_"), Cv::No) }, Field { name: "attributes", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(76)), Cv::No) }, Field { name: "children", prefix: Some(tag(">")), suffix: Some(tag("</")), body: Body::Plain(vec_(G::Ty(77)), Cv::No) }]) },
        Def { name: "Chain", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "head", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "next", prefix: Some(tag(".")), suffix: None, body: Body::Plain(opt(bx(G::Ty(78))), Cv::No) }]) },
        Def { name: "Ini", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Section", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("[")), suffix: Some(tag("]\n")) }, fields: vec![Field { name: "name", prefix: None, suffix: None, body: Body::Plain(not1("]\n"), Cv::No) }] }, Variant { name: "Entry", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "key", prefix: None, suffix: Some(tag("=")), body: Body::Plain(not1("=\n"), Cv::No) }, Field { name: "value", prefix: None, suffix: Some(tag("\n")), body: Body::Plain(not1("\n"), Cv::No) }] }, Variant { name: "Junk", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("\n")), body: Body::Plain(not1("\n"), Cv::No) }] }]) },
        Def { name: "IniFile", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(79)), Cv::No) }]) },
        Def { name: "Wide", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(one("bc"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(one("cd"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(one("de"), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(one("ef"), Cv::No) }, Field { name: "elem5", prefix: None, suffix: None, body: Body::Plain(one("fg"), Cv::No) }, Field { name: "elem6", prefix: None, suffix: None, body: Body::Plain(one("gh"), Cv::No) }, Field { name: "elem7", prefix: None, suffix: None, body: Body::Plain(one("hi"), Cv::No) }, Field { name: "elem8", prefix: None, suffix: None, body: Body::Plain(one("ij"), Cv::No) }, Field { name: "elem9", prefix: None, suffix: None, body: Body::Plain(one("jk"), Cv::No) }, Field { name: "elem10", prefix: None, suffix: None, body: Body::Plain(one("kl"), Cv::No) }, Field { name: "elem11", prefix: None, suffix: None, body: Body::Plain(one("lm"), Cv::No) }, Field { name: "elem12", prefix: None, suffix: None, body: Body::Plain(one("mn"), Cv::No) }]) },
        Def { name: "WideIgn", attrs: Attrs { ignore: vec![G::Space], prefix: Some(tag("<")), suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(opt(one("ab")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(one("bc")), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(opt(one("cd")), Cv::No) }, Field { name: "elem3", prefix: None, suffix: Some(tag(",")), body: Body::Plain(opt(one("de")), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(opt(one("ef")), Cv::No) }, Field { name: "elem5", prefix: None, suffix: None, body: Body::Plain(opt(one("fg")), Cv::No) }, Field { name: "elem6", prefix: None, suffix: None, body: Body::Plain(opt(one("gh")), Cv::No) }, Field { name: "elem7", prefix: None, suffix: None, body: Body::Plain(opt(one("hi")), Cv::No) }, Field { name: "elem8", prefix: None, suffix: None, body: Body::Plain(opt(one("ij")), Cv::No) }, Field { name: "elem9", prefix: None, suffix: None, body: Body::Plain(opt(one("jk")), Cv::No) }, Field { name: "elem10", prefix: None, suffix: Some(tag(",")), body: Body::Plain(opt(one("kl")), Cv::No) }, Field { name: "elem11", prefix: None, suffix: None, body: Body::Plain(opt(one("lm")), Cv::No) }]) },
        Def { name: "WideNamed", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "zz", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "a", prefix: None, suffix: None, body: Body::Plain(one("bc"), Cv::No) }, Field { name: "b10", prefix: None, suffix: None, body: Body::Plain(one("cd"), Cv::No) }, Field { name: "b2", prefix: None, suffix: None, body: Body::Plain(one("de"), Cv::No) }, Field { name: "m", prefix: None, suffix: None, body: Body::Plain(one("ef"), Cv::No) }, Field { name: "Y", prefix: None, suffix: None, body: Body::Plain(one("fg"), Cv::No) }, Field { name: "q", prefix: None, suffix: None, body: Body::Plain(one("gh"), Cv::No) }, Field { name: "c", prefix: None, suffix: None, body: Body::Plain(one("hi"), Cv::No) }, Field { name: "p", prefix: None, suffix: None, body: Body::Plain(one("ij"), Cv::No) }, Field { name: "_n", prefix: None, suffix: None, body: Body::Plain(one("jk"), Cv::No) }, Field { name: "d", prefix: None, suffix: None, body: Body::Plain(one("kl"), Cv::No) }, Field { name: "u", prefix: Some(tag("-")), suffix: None, body: Body::Plain(one("lm"), Cv::No) }, Field { name: "h", prefix: None, suffix: None, body: Body::Plain(one("mn"), Cv::No) }, Field { name: "g", prefix: None, suffix: None, body: Body::Plain(one("no"), Cv::No) }, Field { name: "f", prefix: None, suffix: None, body: Body::Plain(one("op"), Cv::No) }, Field { name: "e", prefix: None, suffix: None, body: Body::Plain(one("pq"), Cv::No) }]) },
        Def { name: "WideEnum", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Tup", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(tag("a"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(one("bc"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(tag("c"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(one("de"), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(tag("e"), Cv::No) }, Field { name: "elem5", prefix: None, suffix: None, body: Body::Plain(one("fg"), Cv::No) }, Field { name: "elem6", prefix: None, suffix: None, body: Body::Plain(tag("g"), Cv::No) }, Field { name: "elem7", prefix: None, suffix: None, body: Body::Plain(one("hi"), Cv::No) }, Field { name: "elem8", prefix: None, suffix: None, body: Body::Plain(tag("i"), Cv::No) }, Field { name: "elem9", prefix: None, suffix: None, body: Body::Plain(one("jk"), Cv::No) }, Field { name: "elem10", prefix: None, suffix: None, body: Body::Plain(tag("k"), Cv::No) }] }, Variant { name: "Named", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "zz", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "a", prefix: None, suffix: None, body: Body::Plain(one("bc"), Cv::No) }, Field { name: "b10", prefix: None, suffix: None, body: Body::Plain(one("cd"), Cv::No) }, Field { name: "b2", prefix: None, suffix: None, body: Body::Plain(one("de"), Cv::No) }, Field { name: "m", prefix: None, suffix: None, body: Body::Plain(one("ef"), Cv::No) }, Field { name: "Y", prefix: None, suffix: None, body: Body::Plain(one("fg"), Cv::No) }, Field { name: "q", prefix: None, suffix: None, body: Body::Plain(one("gh"), Cv::No) }, Field { name: "c", prefix: None, suffix: None, body: Body::Plain(one("hi"), Cv::No) }, Field { name: "p", prefix: None, suffix: None, body: Body::Plain(one("ij"), Cv::No) }, Field { name: "_n", prefix: None, suffix: None, body: Body::Plain(one("jk"), Cv::No) }, Field { name: "d", prefix: None, suffix: None, body: Body::Plain(one("kl"), Cv::No) }, Field { name: "u", prefix: None, suffix: None, body: Body::Plain(one("lm"), Cv::No) }] }, Variant { name: "Less", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(arr(one("ab"), 2), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(any("abcdefghijklmnopqrstuvwxyz"), Cv::No) }] }]) },
        Def { name: "Many20", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "A0", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("mon")), suffix: None }, fields: vec![] }, Variant { name: "X1", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("tue")), suffix: None }, fields: vec![] }, Variant { name: "A2", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("wed")), suffix: None }, fields: vec![] }, Variant { name: "X3", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("thu")), suffix: None }, fields: vec![] }, Variant { name: "A4", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("fri")), suffix: None }, fields: vec![] }, Variant { name: "X5", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("sat")), suffix: None }, fields: vec![] }, Variant { name: "A6", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("sun")), suffix: None }, fields: vec![] }, Variant { name: "X7", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("jan")), suffix: None }, fields: vec![] }, Variant { name: "A8", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("feb")), suffix: None }, fields: vec![] }, Variant { name: "X9", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("mar")), suffix: None }, fields: vec![] }, Variant { name: "A10", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("apr")), suffix: None }, fields: vec![] }, Variant { name: "X11", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("may")), suffix: None }, fields: vec![] }, Variant { name: "A12", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("jun")), suffix: None }, fields: vec![] }, Variant { name: "X13", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("jul")), suffix: None }, fields: vec![] }, Variant { name: "A14", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("aug")), suffix: None }, fields: vec![] }, Variant { name: "X15", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("sep")), suffix: None }, fields: vec![] }, Variant { name: "A16", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("oct")), suffix: None }, fields: vec![] }, Variant { name: "X17", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("nov")), suffix: None }, fields: vec![] }, Variant { name: "A18", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("dec")), suffix: None }, fields: vec![] }, Variant { name: "X19", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("monday")), suffix: None }, fields: vec![] }, Variant { name: "A20", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("m")), suffix: None }, fields: vec![] }]) },
        Def { name: "Kinds", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "K0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("k")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("ab")), Cv::No) }] }, Variant { name: "K1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("bc"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("bc")), Cv::No) }] }, Variant { name: "K2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("cd"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("cd")), Cv::No) }] }, Variant { name: "K3", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("k")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("de"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("de")), Cv::No) }] }, Variant { name: "K4", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("ef"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("ef")), Cv::No) }] }, Variant { name: "K5", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("fg"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("fg")), Cv::No) }] }, Variant { name: "K6", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("k")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("gh"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("gh")), Cv::No) }] }, Variant { name: "K7", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("hi"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("hi")), Cv::No) }] }, Variant { name: "K8", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("ij"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("ij")), Cv::No) }] }, Variant { name: "K9", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("k")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("jk"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("jk")), Cv::No) }] }, Variant { name: "K10", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("kl"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("kl")), Cv::No) }] }, Variant { name: "K11", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("lm"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("lm")), Cv::No) }] }, Variant { name: "K12", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("k")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("mn"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("mn")), Cv::No) }] }, Variant { name: "K13", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("no"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("no")), Cv::No) }] }, Variant { name: "K14", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("op"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("op")), Cv::No) }] }]) },
        Def { name: "AbsPre", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: Some(opt(tag("?"))), suffix: None, body: Body::Plain(tag("a"), Cv::No) }, Field { name: "y", prefix: Some(vec_(tag("!"))), suffix: Some(opt(tag("?"))), body: Body::Plain(opt(tag("b")), Cv::No) }]) },
        Def { name: "AbsOwn", attrs: Attrs { ignore: vec![G::Space], prefix: Some(opt(tag("?"))), suffix: Some(vec_(tag("!"))) }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(opt(tag("a")), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(tag("b"), Cv::No) }]) },
        Def { name: "AbsTup", attrs: Attrs { ignore: vec![tag("-"), G::Space], prefix: Some(vec_(tag("!"))), suffix: Some(opt(tag("?"))) }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(vec_(tag("!"))), suffix: Some(vec_(tag("!"))), body: Body::Plain(one("ab"), Cv::No) }, Field { name: "elem1", prefix: Some(opt(tag("?"))), suffix: Some(opt(tag("?"))), body: Body::Plain(one("ab"), Cv::No) }]) },
        Def { name: "AbsUnit", attrs: Attrs { ignore: vec![G::Space], prefix: Some(opt(tag("?"))), suffix: Some(tag(".")) }, kind: Kind::Struct(vec![]) },
        Def { name: "AbsList", attrs: Attrs { ignore: vec![G::Space], prefix: Some(opt(tag("a?"))), suffix: None }, kind: Kind::Struct(vec![Field { name: "xs", prefix: Some(opt(tag("?"))), suffix: Some(vec_(tag("!"))), body: Body::List { g: one("ab"), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::No } }, Field { name: "ys", prefix: Some(vec_(tag("!"))), suffix: None, body: Body::List { g: one("cd"), cv: Cv::No, sep: None, trailing: Tr::No } }]) },
        Def { name: "AbsEnum", attrs: Attrs { ignore: vec![G::Space], prefix: Some(opt(tag("?"))), suffix: Some(vec_(tag("!"))) }, kind: Kind::Enum(vec![Variant { name: "One", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(vec_(tag("!"))), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(opt(tag("?"))), body: Body::Plain(tag("a"), Cv::No) }] }, Variant { name: "Two", what: "struct variant", attrs: Attrs { ignore: vec![tag("-")], prefix: Some(opt(tag("ab"))), suffix: Some(tag(";")) }, fields: vec![Field { name: "x", prefix: Some(opt(tag("?"))), suffix: None, body: Body::Plain(one("ab"), Cv::No) }] }, Variant { name: "Three", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("c")), suffix: Some(opt(tag("?"))) }, fields: vec![] }]) },
        Def { name: "ConvRun", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "lead", prefix: None, suffix: None, body: Body::Plain(vec1(G::Space), Cv::No) }, Field { name: "name", prefix: None, suffix: None, body: Body::Plain(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No) }, Field { name: "after", prefix: None, suffix: Some(tag(";")), body: Body::Plain(vec1(G::Space), Cv::No) }]) },
        Def { name: "ConvDuo", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "one", prefix: None, suffix: None, body: Body::Plain(G::Ty(0), Cv::Duo) }, Field { name: "more", prefix: Some(tag(":")), suffix: None, body: Body::List { g: G::Ty(0), cv: Cv::Duo, sep: Some(tag(",")), trailing: Tr::Maybe } }, Field { name: "left", prefix: None, suffix: None, body: Body::Plain(any("abcdefghijklmnopqrstuvwxyz"), Cv::No) }]) },
        Def { name: "ConvAlt", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Duo", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Ty(0), Cv::Duo) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("!"), Cv::No) }] }, Variant { name: "Raw", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "v", prefix: None, suffix: None, body: Body::Plain(vec1(G::Ty(0)), Cv::No) }] }, Variant { name: "Run", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("#")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: G::Ty(0), cv: Cv::Duo, sep: None, trailing: Tr::No } }] }]) },
        Def { name: "DigPlus", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "d", prefix: None, suffix: Some(tag("+")), body: Body::Plain(any1("0123456789"), Cv::Small) }]) },
        Def { name: "Sums", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "a", prefix: Some(tag("=")), suffix: None, body: Body::Plain(vec_(G::Ty(96)), Cv::Sum) }, Field { name: "b", prefix: None, suffix: Some(tag(".")), body: Body::Plain(vec_(G::Ty(96)), Cv::Sum) }]) },
        Def { name: "SumOr", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Few", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("(")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(96)), Cv::Sum) }] }, Variant { name: "Lots", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("(")), suffix: Some(opt(tag(")"))) }, fields: vec![Field { name: "all", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::No, sep: Some(tag("+")), trailing: Tr::Maybe } }] }]) },
        Def { name: "Careful", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "r#type", prefix: Some(tag("@")), suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "r#fn", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "r#match", prefix: None, suffix: Some(tag(".")), body: Body::List { g: any1("abcdefghijklmnopqrstuvwxyz"), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::No } }]) },
        Def { name: "Shadow", attrs: Attrs { ignore: vec![], prefix: Some(tag("s")), suffix: None }, kind: Kind::Struct(vec![Field { name: "parse", prefix: None, suffix: None, body: Body::Plain(tag("a"), Cv::No) }, Field { name: "peek", prefix: None, suffix: None, body: Body::Plain(tag("b"), Cv::No) }, Field { name: "cursor", prefix: None, suffix: None, body: Body::Plain(opt(one("ab")), Cv::No) }, Field { name: "result", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "c", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "output", prefix: None, suffix: None, body: Body::Plain(vec_(tag("c")), Cv::No) }, Field { name: "res", prefix: None, suffix: None, body: Body::Plain(tag("r"), Cv::No) }, Field { name: "value", prefix: None, suffix: None, body: Body::Plain(any("xyz"), Cv::No) }, Field { name: "e", prefix: None, suffix: None, body: Body::Plain(opt(tag("e")), Cv::No) }, Field { name: "err", prefix: None, suffix: None, body: Body::Plain(opt(tag("f")), Cv::No) }]) },
        Def { name: "ShadowEnum", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Ok", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "cursor", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "result", prefix: None, suffix: None, body: Body::Plain(tag("r"), Cv::No) }] }, Variant { name: "Err", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "self_", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "i", prefix: None, suffix: None, body: Body::Plain(tag("i"), Cv::No) }] }, Variant { name: "Some", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }] }, Variant { name: "None", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(tag("n"), Cv::No) }] }]) },
        Def { name: "Many", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "xs", prefix: None, suffix: Some(tag(";")), body: Body::List { g: tag("ab"), cv: Cv::No, sep: Some(tag("a")), trailing: Tr::Maybe } }, Field { name: "ys", prefix: None, suffix: None, body: Body::List { g: tag("a"), cv: Cv::No, sep: None, trailing: Tr::No } }]) },
        Def { name: "Many", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "xs", prefix: None, suffix: Some(tag(";")), body: Body::List { g: G::Ty(0), cv: Cv::No, sep: Some(one(",-")), trailing: Tr::Maybe } }, Field { name: "ys", prefix: None, suffix: None, body: Body::List { g: one(",-"), cv: Cv::No, sep: None, trailing: Tr::No } }]) },
        Def { name: "Many", attrs: Attrs { ignore: vec![G::Space], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "xs", prefix: None, suffix: Some(tag(";")), body: Body::List { g: G::Ty(105), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::Maybe } }, Field { name: "ys", prefix: None, suffix: None, body: Body::List { g: tag(","), cv: Cv::No, sep: None, trailing: Tr::No } }]) },
        Def { name: "Pair", attrs: Attrs { ignore: vec![G::Space], prefix: Some(tag("(")), suffix: Some(tag(")")) }, kind: Kind::Struct(vec![Field { name: "left", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "right", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }]) },
        Def { name: "Around", attrs: Attrs { ignore: vec![], prefix: Some(opt(tag("~"))), suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(tag("'")), suffix: Some(tag("'")), body: Body::Plain(vec1(one("ab")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(arr(one("ab"), 2), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(opt(tag("'")), Cv::No) }]) },
        Def { name: "Around", attrs: Attrs { ignore: vec![], prefix: Some(opt(tag("~"))), suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(G::Ty(2)), suffix: Some(G::Ty(2)), body: Body::Plain(vec1(G::Ty(0)), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(arr(G::Ty(0), 2), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(opt(G::Ty(2)), Cv::No) }]) },
        Def { name: "Pick", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: Some(tag("=")), suffix: None }, kind: Kind::Enum(vec![Variant { name: "Both", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bx(tag("ab")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(0)), Cv::No) }] }, Variant { name: "Some", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("[")), suffix: None }, fields: vec![Field { name: "v", prefix: None, suffix: None, body: Body::List { g: tag("ab"), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::Yes } }] }, Variant { name: "None", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![] }]) },
        Def { name: "Pick", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: Some(tag("=")), suffix: None }, kind: Kind::Enum(vec![Variant { name: "Both", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bx(one("ab")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(bx(any1("cd")), Cv::No) }] }, Variant { name: "Some", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("[")), suffix: None }, fields: vec![Field { name: "v", prefix: None, suffix: None, body: Body::List { g: one("ab"), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::Yes } }] }, Variant { name: "None", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![] }]) },
        Def { name: "Pick", attrs: Attrs { ignore: vec![G::WhiteSpace], prefix: Some(tag("=")), suffix: None }, kind: Kind::Enum(vec![Variant { name: "Both", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(111)), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(bx(G::Number), Cv::No) }] }, Variant { name: "Some", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("[")), suffix: None }, fields: vec![Field { name: "v", prefix: None, suffix: None, body: Body::List { g: G::Ty(111), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::Yes } }] }, Variant { name: "None", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![] }]) },
        Def { name: "Either", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Left", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(tag("ab"), Cv::No) }] }, Variant { name: "Right", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("|")), suffix: None }, fields: vec![Field { name: "value", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }] }]) },
        Def { name: "Pair", attrs: Attrs { ignore: vec![G::Space], prefix: Some(tag("(")), suffix: Some(tag(")")) }, kind: Kind::Struct(vec![Field { name: "left", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "right", prefix: None, suffix: None, body: Body::Plain(tag("ab"), Cv::No) }]) },
        Def { name: "Pair", attrs: Attrs { ignore: vec![G::Space], prefix: Some(tag("(")), suffix: Some(tag(")")) }, kind: Kind::Struct(vec![Field { name: "left", prefix: None, suffix: None, body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "right", prefix: None, suffix: None, body: Body::Plain(opt(tag("x")), Cv::No) }]) },
        Def { name: "Pair", attrs: Attrs { ignore: vec![G::Space], prefix: Some(tag("(")), suffix: Some(tag(")")) }, kind: Kind::Struct(vec![Field { name: "left", prefix: None, suffix: None, body: Body::Plain(G::Ty(105), Cv::No) }, Field { name: "right", prefix: None, suffix: None, body: Body::Plain(G::Ty(8), Cv::No) }]) },
        Def { name: "Either", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Left", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(tag("ab"), Cv::No) }] }, Variant { name: "Right", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("|")), suffix: None }, fields: vec![Field { name: "value", prefix: None, suffix: None, body: Body::Plain(G::Ty(0), Cv::No) }] }]) },
        Def { name: "Either", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Left", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Ty(105), Cv::No) }] }, Variant { name: "Right", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("|")), suffix: None }, fields: vec![Field { name: "value", prefix: None, suffix: None, body: Body::Plain(arr(one("ab"), 3), Cv::No) }] }]) },
        Def { name: "Sep", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(tag("ab"), Cv::No) }, Field { name: "elem1", prefix: Some(tag("/")), suffix: None, body: Body::Plain(vec_(tag("ab")), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(opt(tag("aba")), Cv::No) }]) },
        Def { name: "Sep", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Ty(2), Cv::No) }, Field { name: "elem1", prefix: Some(tag("/")), suffix: None, body: Body::Plain(vec_(G::Ty(2)), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(opt(one("m")), Cv::No) }]) },
        Def { name: "Either", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "Left", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(tag("aab"), Cv::No) }] }, Variant { name: "Right", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("|")), suffix: None }, fields: vec![Field { name: "value", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }] }]) },
        Def { name: "Pair", attrs: Attrs { ignore: vec![G::Space], prefix: Some(tag("(")), suffix: Some(tag(")")) }, kind: Kind::Struct(vec![Field { name: "left", prefix: None, suffix: None, body: Body::Plain(any1("a"), Cv::No) }, Field { name: "right", prefix: None, suffix: None, body: Body::Plain(G::Number, Cv::No) }]) },
    ]
}

pub fn entries() -> Vec<Entry<char>> {
    vec![
        entry::<text::Tag<"a">, _>("text::Tag<\"a\">", tag("a"), PRIM),
        entry::<text::Tag<"ab">, _>("text::Tag<\"ab\">", tag("ab"), PRIM),
        entry::<text::Tag<"aab">, _>("text::Tag<\"aab\">", tag("aab"), PRIM),
        entry::<text::Tag<"abcabd">, _>("text::Tag<\"abcabd\">", tag("abcabd"), PRIM),
        entry::<text::Tag<"é">, _>("text::Tag<\"é\">", tag("é"), PRIM),
        entry::<text::Tag<"né√">, _>("text::Tag<\"né√\">", tag("né√"), PRIM),
        entry::<text::Tag<"𝄞𝄞">, _>("text::Tag<\"𝄞𝄞\">", tag("𝄞𝄞"), PRIM),
        entry::<text::Tag<"">, _>("text::Tag<\"\">", tag(""), PRIM),
        entry::<text::Tag<"\r\n">, _>("text::Tag<\"\\r\\n\">", tag("\r\n"), PRIM),
        entry::<text::Tag<"aaaa">, _>("text::Tag<\"aaaa\">", tag("aaaa"), PRIM),
        entry::<text::Tag<"/>">, _>("text::Tag<\"/>\">", tag("/>"), PRIM),
        entry::<text::Tag<"hello world">, _>("text::Tag<\"hello world\">", tag("hello world"), PRIM),
        entry::<text::Tag<"ß→">, _>("text::Tag<\"ß→\">", tag("ß→"), PRIM),
        entry::<text::OneOf<"a">, _>("text::OneOf<\"a\">", one("a"), PRIM),
        entry::<text::AnyOf<"a">, _>("text::AnyOf<\"a\">", any("a"), PRIM),
        entry::<text::AnyOf1<"a">, _>("text::AnyOf1<\"a\">", any1("a"), PRIM),
        entry::<text::WhileNot1<"a">, _>("text::WhileNot1<\"a\">", not1("a"), PRIM),
        entry::<text::OneOf<"ab">, _>("text::OneOf<\"ab\">", one("ab"), PRIM),
        entry::<text::AnyOf<"ab">, _>("text::AnyOf<\"ab\">", any("ab"), PRIM),
        entry::<text::AnyOf1<"ab">, _>("text::AnyOf1<\"ab\">", any1("ab"), PRIM),
        entry::<text::WhileNot1<"ab">, _>("text::WhileNot1<\"ab\">", not1("ab"), PRIM),
        entry::<text::OneOf<"0123456789">, _>("text::OneOf<\"0123456789\">", one("0123456789"), PRIM),
        entry::<text::AnyOf<"0123456789">, _>("text::AnyOf<\"0123456789\">", any("0123456789"), PRIM),
        entry::<text::AnyOf1<"0123456789">, _>("text::AnyOf1<\"0123456789\">", any1("0123456789"), PRIM),
        entry::<text::WhileNot1<"0123456789">, _>("text::WhileNot1<\"0123456789\">", not1("0123456789"), PRIM),
        entry::<text::OneOf<"é√𝄞a">, _>("text::OneOf<\"é√𝄞a\">", one("é√𝄞a"), PRIM),
        entry::<text::AnyOf<"é√𝄞a">, _>("text::AnyOf<\"é√𝄞a\">", any("é√𝄞a"), PRIM),
        entry::<text::AnyOf1<"é√𝄞a">, _>("text::AnyOf1<\"é√𝄞a\">", any1("é√𝄞a"), PRIM),
        entry::<text::WhileNot1<"é√𝄞a">, _>("text::WhileNot1<\"é√𝄞a\">", not1("é√𝄞a"), PRIM),
        entry::<text::OneOf<"Aa">, _>("text::OneOf<\"Aa\">", one("Aa"), PRIM),
        entry::<text::AnyOf<"Aa">, _>("text::AnyOf<\"Aa\">", any("Aa"), PRIM),
        entry::<text::AnyOf1<"Aa">, _>("text::AnyOf1<\"Aa\">", any1("Aa"), PRIM),
        entry::<text::WhileNot1<"Aa">, _>("text::WhileNot1<\"Aa\">", not1("Aa"), PRIM),
        entry::<text::OneOf<"\n\r">, _>("text::OneOf<\"\\n\\r\">", one("\n\r"), PRIM),
        entry::<text::AnyOf<"\n\r">, _>("text::AnyOf<\"\\n\\r\">", any("\n\r"), PRIM),
        entry::<text::AnyOf1<"\n\r">, _>("text::AnyOf1<\"\\n\\r\">", any1("\n\r"), PRIM),
        entry::<text::WhileNot1<"\n\r">, _>("text::WhileNot1<\"\\n\\r\">", not1("\n\r"), PRIM),
        entry::<text::OneOf<".-+">, _>("text::OneOf<\".-+\">", one(".-+"), PRIM),
        entry::<text::AnyOf<".-+">, _>("text::AnyOf<\".-+\">", any(".-+"), PRIM),
        entry::<text::AnyOf1<".-+">, _>("text::AnyOf1<\".-+\">", any1(".-+"), PRIM),
        entry::<text::WhileNot1<".-+">, _>("text::WhileNot1<\".-+\">", not1(".-+"), PRIM),
        entry::<text::WhileNot1<"\"\\">, _>("text::WhileNot1<\"\\\"\\\\\">", not1("\"\\"), PRIM),
        entry::<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, _>("text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">", any1("abcdefghijklmnopqrstuvwxyz"), PRIM),
        entry::<text::OneOf<"zyxwvutsrqponmlkjihgfedcba9876543210">, _>("text::OneOf<\"zyxwvutsrqponmlkjihgfedcba9876543210\">", one("zyxwvutsrqponmlkjihgfedcba9876543210"), PRIM),
        entry::<text::AnyOf1<"zyxwvutsrqponmlkjihgfedcba9876543210">, _>("text::AnyOf1<\"zyxwvutsrqponmlkjihgfedcba9876543210\">", any1("zyxwvutsrqponmlkjihgfedcba9876543210"), PRIM),
        entry::<text::WhileNot1<"zyxwvutsrqponmlkjihgfedcba9876543210">, _>("text::WhileNot1<\"zyxwvutsrqponmlkjihgfedcba9876543210\">", not1("zyxwvutsrqponmlkjihgfedcba9876543210"), PRIM),
        entry::<text::AnyOf<"zyxwvutsrqponmlkjihgfedcba9876543210">, _>("text::AnyOf<\"zyxwvutsrqponmlkjihgfedcba9876543210\">", any("zyxwvutsrqponmlkjihgfedcba9876543210"), PRIM),
        entry::<text::OneOf<"xyzABaeiou019">, _>("text::OneOf<\"xyzABaeiou019\">", one("xyzABaeiou019"), PRIM),
        entry::<text::AnyOf1<"xyzABaeiou019">, _>("text::AnyOf1<\"xyzABaeiou019\">", any1("xyzABaeiou019"), PRIM),
        entry::<text::WhileNot1<"xyzABaeiou019">, _>("text::WhileNot1<\"xyzABaeiou019\">", not1("xyzABaeiou019"), PRIM),
        entry::<text::AnyOf<"xyzABaeiou019">, _>("text::AnyOf<\"xyzABaeiou019\">", any("xyzABaeiou019"), PRIM),
        entry::<text::OneOf<"~é√𝄞aβΩя0 ">, _>("text::OneOf<\"~é√𝄞aβΩя0 \">", one("~é√𝄞aβΩя0 "), PRIM),
        entry::<text::AnyOf1<"~é√𝄞aβΩя0 ">, _>("text::AnyOf1<\"~é√𝄞aβΩя0 \">", any1("~é√𝄞aβΩя0 "), PRIM),
        entry::<text::WhileNot1<"~é√𝄞aβΩя0 ">, _>("text::WhileNot1<\"~é√𝄞aβΩя0 \">", not1("~é√𝄞aβΩя0 "), PRIM),
        entry::<text::AnyOf<"~é√𝄞aβΩя0 ">, _>("text::AnyOf<\"~é√𝄞aβΩя0 \">", any("~é√𝄞aβΩя0 "), PRIM),
        entry::<text::OneOf<"\u{7f}\u{0} ~">, _>("text::OneOf<\"\\u{7f}\\u{0} ~\">", one("\u{7f}\u{0} ~"), PRIM),
        entry::<text::AnyOf1<"\u{7f}\u{0} ~">, _>("text::AnyOf1<\"\\u{7f}\\u{0} ~\">", any1("\u{7f}\u{0} ~"), PRIM),
        entry::<text::WhileNot1<"\u{7f}\u{0} ~">, _>("text::WhileNot1<\"\\u{7f}\\u{0} ~\">", not1("\u{7f}\u{0} ~"), PRIM),
        entry::<text::AnyOf<"\u{7f}\u{0} ~">, _>("text::AnyOf<\"\\u{7f}\\u{0} ~\">", any("\u{7f}\u{0} ~"), PRIM),
        entry::<text::Tag<"The quick brown fox jumps over the lazy dog">, _>("text::Tag<\"The quick brown fox jumps over the lazy dog\">", tag("The quick brown fox jumps over the lazy dog"), PRIM),
        entry::<text::Tag<"aAaAaB">, _>("text::Tag<\"aAaAaB\">", tag("aAaAaB"), PRIM),
        entry::<text::Tag<"ée">, _>("text::Tag<\"ée\">", tag("ée"), PRIM),
        entry::<text::Tag<"\u{0}\u{7f}">, _>("text::Tag<\"\\u{0}\\u{7f}\">", tag("\u{0}\u{7f}"), PRIM),
        entry::<text::LineEnding, _>("text::LineEnding", G::LineEnding, PRIM),
        entry::<text::Space, _>("text::Space", G::Space, PRIM),
        entry::<text::WhiteSpace, _>("text::WhiteSpace", G::WhiteSpace, PRIM),
        entry::<Quoted, _>("Quoted", G::Quoted, CONT),
        entry::<Num, _>("Num", G::Number, CONT),
        entry::<LenPre, _>("LenPre", G::LenPre, CONT),
        entry::<AnyEl, _>("AnyEl", G::AnyEl, CONT),
        entry::<Option<text::Tag<"a">>, _>("Option<text::Tag<\"a\">>", opt(tag("a")), CONT),
        entry::<Option<text::Tag<"aab">>, _>("Option<text::Tag<\"aab\">>", opt(tag("aab")), CONT),
        entry::<Vec<text::Tag<"a">>, _>("Vec<text::Tag<\"a\">>", vec_(tag("a")), CONT),
        entry::<Vec<text::Tag<"ab">>, _>("Vec<text::Tag<\"ab\">>", vec_(tag("ab")), CONT),
        entry::<Vec<text::OneOf<"ab">>, _>("Vec<text::OneOf<\"ab\">>", vec_(one("ab")), CONT),
        entry::<Vec1<text::Tag<"a">>, _>("Vec1<text::Tag<\"a\">>", vec1(tag("a")), CONT),
        entry::<Vec1<text::Tag<"ab">>, _>("Vec1<text::Tag<\"ab\">>", vec1(tag("ab")), CONT),
        entry::<Vec1<text::Tag<"aba">>, _>("Vec1<text::Tag<\"aba\">>", vec1(tag("aba")), CONT),
        entry::<[text::OneOf<"ab">; 0], _>("[text::OneOf<\"ab\">; 0]", arr(one("ab"), 0), CONT),
        entry::<[text::OneOf<"ab">; 1], _>("[text::OneOf<\"ab\">; 1]", arr(one("ab"), 1), CONT),
        entry::<[text::OneOf<"ab">; 3], _>("[text::OneOf<\"ab\">; 3]", arr(one("ab"), 3), CONT),
        entry::<[text::Tag<"ab">; 2], _>("[text::Tag<\"ab\">; 2]", arr(tag("ab"), 2), CONT),
        entry::<[Option<text::Tag<"ab">>; 3], _>("[Option<text::Tag<\"ab\">>; 3]", arr(opt(tag("ab")), 3), CONT),
        entry::<[text::AnyOf1<"a">; 2], _>("[text::AnyOf1<\"a\">; 2]", arr(any1("a"), 2), CONT),
        entry::<[[text::OneOf<"ab">; 2]; 2], _>("[[text::OneOf<\"ab\">; 2]; 2]", arr(arr(one("ab"), 2), 2), CONT),
        entry::<Box<text::Tag<"ab">>, _>("Box<text::Tag<\"ab\">>", bx(tag("ab")), CONT),
        entry::<Box<Option<text::Tag<"né√">>>, _>("Box<Option<text::Tag<\"né√\">>>", bx(opt(tag("né√"))), CONT),
        entry::<Vec<Vec1<text::Tag<"ab">>>, _>("Vec<Vec1<text::Tag<\"ab\">>>", vec_(vec1(tag("ab"))), CONT),
        entry::<Option<Vec1<text::OneOf<"ab">>>, _>("Option<Vec1<text::OneOf<\"ab\">>>", opt(vec1(one("ab"))), CONT),
        entry::<Option<[text::OneOf<"ab">; 3]>, _>("Option<[text::OneOf<\"ab\">; 3]>", opt(arr(one("ab"), 3)), CONT),
        entry::<Vec<[text::OneOf<"ab">; 2]>, _>("Vec<[text::OneOf<\"ab\">; 2]>", vec_(arr(one("ab"), 2)), CONT),
        entry::<Vec<[text::Tag<"aé">; 2]>, _>("Vec<[text::Tag<\"aé\">; 2]>", vec_(arr(tag("aé"), 2)), CONT),
        entry::<Vec1<[text::WhiteSpace; 2]>, _>("Vec1<[text::WhiteSpace; 2]>", vec1(arr(G::WhiteSpace, 2)), CONT),
        entry::<Vec<text::LineEnding>, _>("Vec<text::LineEnding>", vec_(G::LineEnding), CONT),
        entry::<Vec1<text::WhiteSpace>, _>("Vec1<text::WhiteSpace>", vec1(G::WhiteSpace), CONT),
        entry::<Vec<Quoted>, _>("Vec<Quoted>", vec_(G::Quoted), CONT),
        entry::<Vec<LenPre>, _>("Vec<LenPre>", vec_(G::LenPre), CONT),
        entry::<Option<LenPre>, _>("Option<LenPre>", opt(G::LenPre), CONT),
        entry::<Vec1<text::OneOf<"aé√𝄞">>, _>("Vec1<text::OneOf<\"aé√𝄞\">>", vec1(one("aé√𝄞")), CONT),
        entry::<[text::WhiteSpace; 3], _>("[text::WhiteSpace; 3]", arr(G::WhiteSpace, 3), CONT),
        entry::<Vec<Box<text::Tag<"ab">>>, _>("Vec<Box<text::Tag<\"ab\">>>", vec_(bx(tag("ab"))), CONT),
        entry::<[LenPre; 2], _>("[LenPre; 2]", arr(G::LenPre, 2), CONT),
        entry::<Vec1<LenPre>, _>("Vec1<LenPre>", vec1(G::LenPre), CONT),
        entry::<Option<Quoted>, _>("Option<Quoted>", opt(G::Quoted), CONT),
        entry::<Option<Num>, _>("Option<Num>", opt(G::Number), CONT),
        entry::<[Vec<text::Tag<"ab">>; 2], _>("[Vec<text::Tag<\"ab\">>; 2]", arr(vec_(tag("ab")), 2), CONT),
        entry::<Vec<text::WhileNot1<"a">>, _>("Vec<text::WhileNot1<\"a\">>", vec_(not1("a")), CONT),
        entry::<Option<text::WhileNot1<"a">>, _>("Option<text::WhileNot1<\"a\">>", opt(not1("a")), CONT),
        entry::<[text::OneOf<"ab">; 40], _>("[text::OneOf<\"ab\">; 40]", arr(one("ab"), 40), CONT),
        entry::<Vec<[text::Tag<"ab">; 3]>, _>("Vec<[text::Tag<\"ab\">; 3]>", vec_(arr(tag("ab"), 3)), CONT),
        entry::<Option<Box<text::Tag<"abab">>>, _>("Option<Box<text::Tag<\"abab\">>>", opt(bx(tag("abab"))), CONT),
        entry::<[[Option<text::Tag<"aa">>; 2]; 2], _>("[[Option<text::Tag<\"aa\">>; 2]; 2]", arr(arr(opt(tag("aa")), 2), 2), CONT),
        entry::<Box<Vec<text::Tag<"aa">>>, _>("Box<Vec<text::Tag<\"aa\">>>", bx(vec_(tag("aa"))), CONT),
        entry::<Lst<text::OneOf<"aX">, NoX, Never, text::Tag<"-">, {4}, 0>, _>("Lst<text::OneOf<\"aX\">, NoX, Never, text::Tag<\"-\">, {4}, 0>", lst(one("aX"), Cv::NotX, None, Tr::No, vec![tag("-")], 4), LIST),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, text::Space, {4}, 1>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, text::Space, {4}, 1>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::No, vec![G::Space], 4), LIST),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, Never, {4}, 2>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, Never, {4}, 2>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::Yes, vec![], 4), LIST),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, text::Tag<" ">, {4}, 3>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, text::Tag<\" \">, {4}, 3>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::Maybe, vec![tag(" ")], 4), LIST),
        entry::<Lst<text::OneOf<"aX">, NoX, Never, text::Tag<"-">, {7}, 0>, _>("Lst<text::OneOf<\"aX\">, NoX, Never, text::Tag<\"-\">, {7}, 0>", lst(one("aX"), Cv::NotX, None, Tr::No, vec![tag("-")], 7), LIST),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, text::Space, {7}, 1>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, text::Space, {7}, 1>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::No, vec![G::Space], 7), LIST),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, Never, {7}, 2>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, Never, {7}, 2>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::Yes, vec![], 7), LIST),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, text::Tag<" ">, {7}, 3>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, text::Tag<\" \">, {7}, 3>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::Maybe, vec![tag(" ")], 7), LIST),
        entry::<Lst<text::OneOf<"aX">, NoX, Never, text::Tag<"-">, {8}, 0>, _>("Lst<text::OneOf<\"aX\">, NoX, Never, text::Tag<\"-\">, {8}, 0>", lst(one("aX"), Cv::NotX, None, Tr::No, vec![tag("-")], 8), LIST),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, text::Space, {8}, 1>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, text::Space, {8}, 1>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::No, vec![G::Space], 8), LIST),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, Never, {8}, 2>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, Never, {8}, 2>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::Yes, vec![], 8), LIST),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, text::Tag<" ">, {8}, 3>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, text::Tag<\" \">, {8}, 3>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::Maybe, vec![tag(" ")], 8), LIST),
        entry::<Lst<text::OneOf<"aX">, NoX, Never, text::Tag<"-">, {16}, 0>, _>("Lst<text::OneOf<\"aX\">, NoX, Never, text::Tag<\"-\">, {16}, 0>", lst(one("aX"), Cv::NotX, None, Tr::No, vec![tag("-")], 16), LIST),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, text::Space, {16}, 1>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, text::Space, {16}, 1>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::No, vec![G::Space], 16), LIST),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, Never, {16}, 2>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, Never, {16}, 2>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::Yes, vec![], 16), LIST),
        entry::<Lst<text::OneOf<"ab">, text::OneOf<"ab">, text::Tag<",">, text::Tag<" ">, {16}, 3>, _>("Lst<text::OneOf<\"ab\">, text::OneOf<\"ab\">, text::Tag<\",\">, text::Tag<\" \">, {16}, 3>", lst(one("ab"), Cv::No, Some(tag(",")), Tr::Maybe, vec![tag(" ")], 16), LIST),
        entry::<Lst<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, String, Never, text::WhiteSpace, {usize::MAX}, 0>, _>("Lst<text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">, String, Never, text::WhiteSpace, {usize::MAX}, 0>", lst(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No, None, Tr::No, vec![G::WhiteSpace], usize::MAX), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, usize, text::Tag<",">, text::WhiteSpace, {usize::MAX}, 1>, _>("Lst<text::AnyOf1<\"0123456789\">, usize, text::Tag<\",\">, text::WhiteSpace, {usize::MAX}, 1>", lst(any1("0123456789"), Cv::Usize, Some(tag(",")), Tr::No, vec![G::WhiteSpace], usize::MAX), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, Small, text::Tag<",">, text::WhiteSpace, {usize::MAX}, 2>, _>("Lst<text::AnyOf1<\"0123456789\">, Small, text::Tag<\",\">, text::WhiteSpace, {usize::MAX}, 2>", lst(any1("0123456789"), Cv::Small, Some(tag(",")), Tr::Yes, vec![G::WhiteSpace], usize::MAX), LIST),
        entry::<Lst<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, String, text::Tag<",">, text::WhiteSpace, {usize::MAX}, 3>, _>("Lst<text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">, String, text::Tag<\",\">, text::WhiteSpace, {usize::MAX}, 3>", lst(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No, Some(tag(",")), Tr::Maybe, vec![G::WhiteSpace], usize::MAX), LIST),
        entry::<Lst<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, String, Never, text::WhiteSpace, {0}, 0>, _>("Lst<text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">, String, Never, text::WhiteSpace, {0}, 0>", lst(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No, None, Tr::No, vec![G::WhiteSpace], 0), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, usize, text::Tag<",">, text::WhiteSpace, {0}, 1>, _>("Lst<text::AnyOf1<\"0123456789\">, usize, text::Tag<\",\">, text::WhiteSpace, {0}, 1>", lst(any1("0123456789"), Cv::Usize, Some(tag(",")), Tr::No, vec![G::WhiteSpace], 0), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, Small, text::Tag<",">, text::WhiteSpace, {0}, 2>, _>("Lst<text::AnyOf1<\"0123456789\">, Small, text::Tag<\",\">, text::WhiteSpace, {0}, 2>", lst(any1("0123456789"), Cv::Small, Some(tag(",")), Tr::Yes, vec![G::WhiteSpace], 0), LIST),
        entry::<Lst<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, String, text::Tag<",">, text::WhiteSpace, {0}, 3>, _>("Lst<text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">, String, text::Tag<\",\">, text::WhiteSpace, {0}, 3>", lst(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No, Some(tag(",")), Tr::Maybe, vec![G::WhiteSpace], 0), LIST),
        entry::<Lst<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, String, Never, text::WhiteSpace, {1}, 0>, _>("Lst<text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">, String, Never, text::WhiteSpace, {1}, 0>", lst(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No, None, Tr::No, vec![G::WhiteSpace], 1), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, usize, text::Tag<",">, text::WhiteSpace, {1}, 1>, _>("Lst<text::AnyOf1<\"0123456789\">, usize, text::Tag<\",\">, text::WhiteSpace, {1}, 1>", lst(any1("0123456789"), Cv::Usize, Some(tag(",")), Tr::No, vec![G::WhiteSpace], 1), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, Small, text::Tag<",">, text::WhiteSpace, {1}, 2>, _>("Lst<text::AnyOf1<\"0123456789\">, Small, text::Tag<\",\">, text::WhiteSpace, {1}, 2>", lst(any1("0123456789"), Cv::Small, Some(tag(",")), Tr::Yes, vec![G::WhiteSpace], 1), LIST),
        entry::<Lst<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, String, text::Tag<",">, text::WhiteSpace, {1}, 3>, _>("Lst<text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">, String, text::Tag<\",\">, text::WhiteSpace, {1}, 3>", lst(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No, Some(tag(",")), Tr::Maybe, vec![G::WhiteSpace], 1), LIST),
        entry::<Lst<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, String, Never, text::WhiteSpace, {2}, 0>, _>("Lst<text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">, String, Never, text::WhiteSpace, {2}, 0>", lst(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No, None, Tr::No, vec![G::WhiteSpace], 2), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, usize, text::Tag<",">, text::WhiteSpace, {2}, 1>, _>("Lst<text::AnyOf1<\"0123456789\">, usize, text::Tag<\",\">, text::WhiteSpace, {2}, 1>", lst(any1("0123456789"), Cv::Usize, Some(tag(",")), Tr::No, vec![G::WhiteSpace], 2), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, Small, text::Tag<",">, text::WhiteSpace, {2}, 2>, _>("Lst<text::AnyOf1<\"0123456789\">, Small, text::Tag<\",\">, text::WhiteSpace, {2}, 2>", lst(any1("0123456789"), Cv::Small, Some(tag(",")), Tr::Yes, vec![G::WhiteSpace], 2), LIST),
        entry::<Lst<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, String, text::Tag<",">, text::WhiteSpace, {2}, 3>, _>("Lst<text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">, String, text::Tag<\",\">, text::WhiteSpace, {2}, 3>", lst(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No, Some(tag(",")), Tr::Maybe, vec![G::WhiteSpace], 2), LIST),
        entry::<Lst<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, String, Never, text::WhiteSpace, {3}, 0>, _>("Lst<text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">, String, Never, text::WhiteSpace, {3}, 0>", lst(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No, None, Tr::No, vec![G::WhiteSpace], 3), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, usize, text::Tag<",">, text::WhiteSpace, {3}, 1>, _>("Lst<text::AnyOf1<\"0123456789\">, usize, text::Tag<\",\">, text::WhiteSpace, {3}, 1>", lst(any1("0123456789"), Cv::Usize, Some(tag(",")), Tr::No, vec![G::WhiteSpace], 3), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, Small, text::Tag<",">, text::WhiteSpace, {3}, 2>, _>("Lst<text::AnyOf1<\"0123456789\">, Small, text::Tag<\",\">, text::WhiteSpace, {3}, 2>", lst(any1("0123456789"), Cv::Small, Some(tag(",")), Tr::Yes, vec![G::WhiteSpace], 3), LIST),
        entry::<Lst<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, String, text::Tag<",">, text::WhiteSpace, {3}, 3>, _>("Lst<text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">, String, text::Tag<\",\">, text::WhiteSpace, {3}, 3>", lst(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No, Some(tag(",")), Tr::Maybe, vec![G::WhiteSpace], 3), LIST),
        entry::<Lst<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, String, Never, text::WhiteSpace, {5}, 0>, _>("Lst<text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">, String, Never, text::WhiteSpace, {5}, 0>", lst(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No, None, Tr::No, vec![G::WhiteSpace], 5), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, usize, text::Tag<",">, text::WhiteSpace, {5}, 1>, _>("Lst<text::AnyOf1<\"0123456789\">, usize, text::Tag<\",\">, text::WhiteSpace, {5}, 1>", lst(any1("0123456789"), Cv::Usize, Some(tag(",")), Tr::No, vec![G::WhiteSpace], 5), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, Small, text::Tag<",">, text::WhiteSpace, {5}, 2>, _>("Lst<text::AnyOf1<\"0123456789\">, Small, text::Tag<\",\">, text::WhiteSpace, {5}, 2>", lst(any1("0123456789"), Cv::Small, Some(tag(",")), Tr::Yes, vec![G::WhiteSpace], 5), LIST),
        entry::<Lst<text::AnyOf1<"abcdefghijklmnopqrstuvwxyz">, String, text::Tag<",">, text::WhiteSpace, {5}, 3>, _>("Lst<text::AnyOf1<\"abcdefghijklmnopqrstuvwxyz\">, String, text::Tag<\",\">, text::WhiteSpace, {5}, 3>", lst(any1("abcdefghijklmnopqrstuvwxyz"), Cv::No, Some(tag(",")), Tr::Maybe, vec![G::WhiteSpace], 5), LIST),
        entry::<Lst<text::Tag<"ab">, text::Tag<"ab">, text::Tag<"a">, Never, {usize::MAX}, 1>, _>("Lst<text::Tag<\"ab\">, text::Tag<\"ab\">, text::Tag<\"a\">, Never, {usize::MAX}, 1>", lst(tag("ab"), Cv::No, Some(tag("a")), Tr::No, vec![], usize::MAX), LIST),
        entry::<Lst<text::OneOf<"aX">, NoX, text::Tag<"--">, text::Tag<"-">, {usize::MAX}, 1>, _>("Lst<text::OneOf<\"aX\">, NoX, text::Tag<\"--\">, text::Tag<\"-\">, {usize::MAX}, 1>", lst(one("aX"), Cv::NotX, Some(tag("--")), Tr::No, vec![tag("-")], usize::MAX), LIST),
        entry::<Lst<text::OneOf<"aé">, char, text::Tag<"a">, text::Tag<"aa">, {4}, 1>, _>("Lst<text::OneOf<\"aé\">, char, text::Tag<\"a\">, text::Tag<\"aa\">, {4}, 1>", lst(one("aé"), Cv::No, Some(tag("a")), Tr::No, vec![tag("aa")], 4), LIST),
        entry::<Lst<text::AnyOf<"ab">, text::AnyOf<"ab">, text::Tag<",">, text::Space, {usize::MAX}, 1>, _>("Lst<text::AnyOf<\"ab\">, text::AnyOf<\"ab\">, text::Tag<\",\">, text::Space, {usize::MAX}, 1>", lst(any("ab"), Cv::No, Some(tag(",")), Tr::No, vec![G::Space], usize::MAX), LIST),
        entry::<Lst<Option<text::Tag<"ab">>, Option<text::Tag<"ab">>, text::Tag<"a">, Never, {6}, 1>, _>("Lst<Option<text::Tag<\"ab\">>, Option<text::Tag<\"ab\">>, text::Tag<\"a\">, Never, {6}, 1>", lst(opt(tag("ab")), Cv::No, Some(tag("a")), Tr::No, vec![], 6), LIST),
        entry::<Lst<Num, Num, text::LineEnding, text::Space, {usize::MAX}, 1>, _>("Lst<Num, Num, text::LineEnding, text::Space, {usize::MAX}, 1>", lst(G::Number, Cv::No, Some(G::LineEnding), Tr::No, vec![G::Space], usize::MAX), LIST),
        entry::<Lst<[text::OneOf<"ab">; 2], [text::OneOf<"ab">; 2], text::Tag<"ba">, text::Tag<"bb">, {3}, 1>, _>("Lst<[text::OneOf<\"ab\">; 2], [text::OneOf<\"ab\">; 2], text::Tag<\"ba\">, text::Tag<\"bb\">, {3}, 1>", lst(arr(one("ab"), 2), Cv::No, Some(tag("ba")), Tr::No, vec![tag("bb")], 3), LIST),
        entry::<Lst<Quoted, Quoted, text::Tag<", ">, text::LineEnding, {usize::MAX}, 1>, _>("Lst<Quoted, Quoted, text::Tag<\", \">, text::LineEnding, {usize::MAX}, 1>", lst(G::Quoted, Cv::No, Some(tag(", ")), Tr::No, vec![G::LineEnding], usize::MAX), LIST),
        entry::<Lst<LenPre, LenPre, text::Tag<",">, text::WhiteSpace, {usize::MAX}, 1>, _>("Lst<LenPre, LenPre, text::Tag<\",\">, text::WhiteSpace, {usize::MAX}, 1>", lst(G::LenPre, Cv::No, Some(tag(",")), Tr::No, vec![G::WhiteSpace], usize::MAX), LIST),
        entry::<Lst<text::Tag<"ab">, text::Tag<"ab">, text::Tag<"a">, Never, {usize::MAX}, 2>, _>("Lst<text::Tag<\"ab\">, text::Tag<\"ab\">, text::Tag<\"a\">, Never, {usize::MAX}, 2>", lst(tag("ab"), Cv::No, Some(tag("a")), Tr::Yes, vec![], usize::MAX), LIST),
        entry::<Lst<text::OneOf<"aX">, NoX, text::Tag<"--">, text::Tag<"-">, {usize::MAX}, 2>, _>("Lst<text::OneOf<\"aX\">, NoX, text::Tag<\"--\">, text::Tag<\"-\">, {usize::MAX}, 2>", lst(one("aX"), Cv::NotX, Some(tag("--")), Tr::Yes, vec![tag("-")], usize::MAX), LIST),
        entry::<Lst<text::OneOf<"aé">, char, text::Tag<"a">, text::Tag<"aa">, {4}, 2>, _>("Lst<text::OneOf<\"aé\">, char, text::Tag<\"a\">, text::Tag<\"aa\">, {4}, 2>", lst(one("aé"), Cv::No, Some(tag("a")), Tr::Yes, vec![tag("aa")], 4), LIST),
        entry::<Lst<text::AnyOf<"ab">, text::AnyOf<"ab">, text::Tag<",">, text::Space, {usize::MAX}, 2>, _>("Lst<text::AnyOf<\"ab\">, text::AnyOf<\"ab\">, text::Tag<\",\">, text::Space, {usize::MAX}, 2>", lst(any("ab"), Cv::No, Some(tag(",")), Tr::Yes, vec![G::Space], usize::MAX), LIST),
        entry::<Lst<Option<text::Tag<"ab">>, Option<text::Tag<"ab">>, text::Tag<"a">, Never, {6}, 2>, _>("Lst<Option<text::Tag<\"ab\">>, Option<text::Tag<\"ab\">>, text::Tag<\"a\">, Never, {6}, 2>", lst(opt(tag("ab")), Cv::No, Some(tag("a")), Tr::Yes, vec![], 6), LIST),
        entry::<Lst<Num, Num, text::LineEnding, text::Space, {usize::MAX}, 2>, _>("Lst<Num, Num, text::LineEnding, text::Space, {usize::MAX}, 2>", lst(G::Number, Cv::No, Some(G::LineEnding), Tr::Yes, vec![G::Space], usize::MAX), LIST),
        entry::<Lst<[text::OneOf<"ab">; 2], [text::OneOf<"ab">; 2], text::Tag<"ba">, text::Tag<"bb">, {3}, 2>, _>("Lst<[text::OneOf<\"ab\">; 2], [text::OneOf<\"ab\">; 2], text::Tag<\"ba\">, text::Tag<\"bb\">, {3}, 2>", lst(arr(one("ab"), 2), Cv::No, Some(tag("ba")), Tr::Yes, vec![tag("bb")], 3), LIST),
        entry::<Lst<Quoted, Quoted, text::Tag<", ">, text::LineEnding, {usize::MAX}, 2>, _>("Lst<Quoted, Quoted, text::Tag<\", \">, text::LineEnding, {usize::MAX}, 2>", lst(G::Quoted, Cv::No, Some(tag(", ")), Tr::Yes, vec![G::LineEnding], usize::MAX), LIST),
        entry::<Lst<LenPre, LenPre, text::Tag<",">, text::WhiteSpace, {usize::MAX}, 2>, _>("Lst<LenPre, LenPre, text::Tag<\",\">, text::WhiteSpace, {usize::MAX}, 2>", lst(G::LenPre, Cv::No, Some(tag(",")), Tr::Yes, vec![G::WhiteSpace], usize::MAX), LIST),
        entry::<Lst<text::Tag<"ab">, text::Tag<"ab">, text::Tag<"a">, Never, {usize::MAX}, 3>, _>("Lst<text::Tag<\"ab\">, text::Tag<\"ab\">, text::Tag<\"a\">, Never, {usize::MAX}, 3>", lst(tag("ab"), Cv::No, Some(tag("a")), Tr::Maybe, vec![], usize::MAX), LIST),
        entry::<Lst<text::OneOf<"aX">, NoX, text::Tag<"--">, text::Tag<"-">, {usize::MAX}, 3>, _>("Lst<text::OneOf<\"aX\">, NoX, text::Tag<\"--\">, text::Tag<\"-\">, {usize::MAX}, 3>", lst(one("aX"), Cv::NotX, Some(tag("--")), Tr::Maybe, vec![tag("-")], usize::MAX), LIST),
        entry::<Lst<text::OneOf<"aé">, char, text::Tag<"a">, text::Tag<"aa">, {4}, 3>, _>("Lst<text::OneOf<\"aé\">, char, text::Tag<\"a\">, text::Tag<\"aa\">, {4}, 3>", lst(one("aé"), Cv::No, Some(tag("a")), Tr::Maybe, vec![tag("aa")], 4), LIST),
        entry::<Lst<text::AnyOf<"ab">, text::AnyOf<"ab">, text::Tag<",">, text::Space, {usize::MAX}, 3>, _>("Lst<text::AnyOf<\"ab\">, text::AnyOf<\"ab\">, text::Tag<\",\">, text::Space, {usize::MAX}, 3>", lst(any("ab"), Cv::No, Some(tag(",")), Tr::Maybe, vec![G::Space], usize::MAX), LIST),
        entry::<Lst<Option<text::Tag<"ab">>, Option<text::Tag<"ab">>, text::Tag<"a">, Never, {6}, 3>, _>("Lst<Option<text::Tag<\"ab\">>, Option<text::Tag<\"ab\">>, text::Tag<\"a\">, Never, {6}, 3>", lst(opt(tag("ab")), Cv::No, Some(tag("a")), Tr::Maybe, vec![], 6), LIST),
        entry::<Lst<Num, Num, text::LineEnding, text::Space, {usize::MAX}, 3>, _>("Lst<Num, Num, text::LineEnding, text::Space, {usize::MAX}, 3>", lst(G::Number, Cv::No, Some(G::LineEnding), Tr::Maybe, vec![G::Space], usize::MAX), LIST),
        entry::<Lst<[text::OneOf<"ab">; 2], [text::OneOf<"ab">; 2], text::Tag<"ba">, text::Tag<"bb">, {3}, 3>, _>("Lst<[text::OneOf<\"ab\">; 2], [text::OneOf<\"ab\">; 2], text::Tag<\"ba\">, text::Tag<\"bb\">, {3}, 3>", lst(arr(one("ab"), 2), Cv::No, Some(tag("ba")), Tr::Maybe, vec![tag("bb")], 3), LIST),
        entry::<Lst<Quoted, Quoted, text::Tag<", ">, text::LineEnding, {usize::MAX}, 3>, _>("Lst<Quoted, Quoted, text::Tag<\", \">, text::LineEnding, {usize::MAX}, 3>", lst(G::Quoted, Cv::No, Some(tag(", ")), Tr::Maybe, vec![G::LineEnding], usize::MAX), LIST),
        entry::<Lst<LenPre, LenPre, text::Tag<",">, text::WhiteSpace, {usize::MAX}, 3>, _>("Lst<LenPre, LenPre, text::Tag<\",\">, text::WhiteSpace, {usize::MAX}, 3>", lst(G::LenPre, Cv::No, Some(tag(",")), Tr::Maybe, vec![G::WhiteSpace], usize::MAX), LIST),
        entry::<Lst<text::OneOf<"ab">, char, Never, text::Tag<"ba">, {usize::MAX}, 0>, _>("Lst<text::OneOf<\"ab\">, char, Never, text::Tag<\"ba\">, {usize::MAX}, 0>", lst(one("ab"), Cv::No, None, Tr::No, vec![tag("ba")], usize::MAX), LIST),
        entry::<Lst<text::Tag<"ab">, text::Tag<"ab">, Never, text::Tag<"a">, {usize::MAX}, 0>, _>("Lst<text::Tag<\"ab\">, text::Tag<\"ab\">, Never, text::Tag<\"a\">, {usize::MAX}, 0>", lst(tag("ab"), Cv::No, None, Tr::No, vec![tag("a")], usize::MAX), LIST),
        entry::<Lst<text::AnyOf1<"0123456789">, Small, Never, text::Tag<",">, {2}, 0>, _>("Lst<text::AnyOf1<\"0123456789\">, Small, Never, text::Tag<\",\">, {2}, 0>", lst(any1("0123456789"), Cv::Small, None, Tr::No, vec![tag(",")], 2), LIST),
        entry::<Lst<Quoted, Quoted, Never, text::WhiteSpace, {usize::MAX}, 0>, _>("Lst<Quoted, Quoted, Never, text::WhiteSpace, {usize::MAX}, 0>", lst(G::Quoted, Cv::No, None, Tr::No, vec![G::WhiteSpace], usize::MAX), LIST),
        entry::<Lst<text::AnyOf1<"a">, String, Never, text::Tag<"b">, {3}, 0>, _>("Lst<text::AnyOf1<\"a\">, String, Never, text::Tag<\"b\">, {3}, 0>", lst(any1("a"), Cv::No, None, Tr::No, vec![tag("b")], 3), LIST),
        entry::<Letters, _>("Letters", G::Ty(0), STRUCT),
        entry::<Wrapped, _>("Wrapped", G::Ty(1), STRUCT),
        entry::<Marker, _>("Marker", G::Ty(2), STRUCT),
        entry::<Bare, _>("Bare", G::Ty(3), STRUCT),
        entry::<Spaced, _>("Spaced", G::Ty(4), STRUCT),
        entry::<Ident, _>("Ident", G::Ty(5), STRUCT),
        entry::<NamedField, _>("NamedField", G::Ty(6), STRUCT),
        entry::<StructNamed, _>("StructNamed", G::Ty(7), STRUCT),
        entry::<Call, _>("Call", G::Ty(8), STRUCT | LIST),
        entry::<CallNo, _>("CallNo", G::Ty(9), STRUCT | LIST),
        entry::<CallYes, _>("CallYes", G::Ty(10), STRUCT | LIST),
        entry::<CallMaybe, _>("CallMaybe", G::Ty(11), STRUCT | LIST),
        entry::<Plainlist, _>("Plainlist", G::Ty(12), STRUCT | LIST),
        entry::<Two, _>("Two", G::Ty(13), STRUCT | LIST),
        entry::<Frac, _>("Frac", G::Ty(14), STRUCT),
        entry::<Exp, _>("Exp", G::Ty(15), STRUCT),
        entry::<Signed, _>("Signed", G::Ty(16), STRUCT),
        entry::<Hexish, _>("Hexish", G::Ty(17), STRUCT),
        entry::<Foreign, _>("Foreign", G::Ty(18), STRUCT),
        entry::<Range, _>("Range", G::Ty(19), STRUCT),
        entry::<Ranges, _>("Ranges", G::Ty(20), STRUCT | LIST),
        entry::<Version, _>("Version", G::Ty(21), ENUM),
        entry::<Lst<text::AnyOf1<"0123456789+">, usize, text::Tag<",">, text::Space, {usize::MAX}, 1>, _>("Lst<text::AnyOf1<\"0123456789+\">, usize, text::Tag<\",\">, text::Space, {usize::MAX}, 1>", lst(any1("0123456789+"), Cv::Usize, Some(tag(",")), Tr::No, vec![G::Space], usize::MAX), LIST),
        entry::<Lst<text::AnyOf1<"0123456789+">, usize, text::Tag<",">, text::Space, {usize::MAX}, 2>, _>("Lst<text::AnyOf1<\"0123456789+\">, usize, text::Tag<\",\">, text::Space, {usize::MAX}, 2>", lst(any1("0123456789+"), Cv::Usize, Some(tag(",")), Tr::Yes, vec![G::Space], usize::MAX), LIST),
        entry::<Lst<text::AnyOf1<"0123456789+">, usize, text::Tag<",">, text::Space, {usize::MAX}, 3>, _>("Lst<text::AnyOf1<\"0123456789+\">, usize, text::Tag<\",\">, text::Space, {usize::MAX}, 3>", lst(any1("0123456789+"), Cv::Usize, Some(tag(",")), Tr::Maybe, vec![G::Space], usize::MAX), LIST),
        entry::<Lst<text::AnyOf1<"0123456789+">, usize, text::Tag<",">, text::Space, {2}, 1>, _>("Lst<text::AnyOf1<\"0123456789+\">, usize, text::Tag<\",\">, text::Space, {2}, 1>", lst(any1("0123456789+"), Cv::Usize, Some(tag(",")), Tr::No, vec![G::Space], 2), LIST),
        entry::<Lst<text::AnyOf1<"0123456789+">, usize, text::Tag<",">, text::Space, {2}, 2>, _>("Lst<text::AnyOf1<\"0123456789+\">, usize, text::Tag<\",\">, text::Space, {2}, 2>", lst(any1("0123456789+"), Cv::Usize, Some(tag(",")), Tr::Yes, vec![G::Space], 2), LIST),
        entry::<Lst<text::AnyOf1<"0123456789+">, usize, text::Tag<",">, text::Space, {2}, 3>, _>("Lst<text::AnyOf1<\"0123456789+\">, usize, text::Tag<\",\">, text::Space, {2}, 3>", lst(any1("0123456789+"), Cv::Usize, Some(tag(",")), Tr::Maybe, vec![G::Space], 2), LIST),
        entry::<[Range; 2], _>("[Range; 2]", arr(G::Ty(19), 2), CONT),
        entry::<Vec<Hexish>, _>("Vec<Hexish>", vec_(G::Ty(17)), CONT),
        entry::<Decimal, _>("Decimal", G::Ty(22), STRUCT),
        entry::<Fixes, _>("Fixes", G::Ty(23), STRUCT),
        entry::<FixesTuple, _>("FixesTuple", G::Ty(24), STRUCT),
        entry::<Recog, _>("Recog", G::Ty(25), STRUCT),
        entry::<Sparse, _>("Sparse", G::Ty(26), STRUCT),
        entry::<Arrays, _>("Arrays", G::Ty(27), STRUCT),
        entry::<Uni, _>("Uni", G::Ty(28), STRUCT),
        entry::<Line, _>("Line", G::Ty(29), STRUCT),
        entry::<Lines, _>("Lines", G::Ty(30), STRUCT),
        entry::<Csvrow, _>("Csvrow", G::Ty(31), STRUCT | LIST),
        entry::<Csv, _>("Csv", G::Ty(32), STRUCT),
        entry::<Lenny, _>("Lenny", G::Ty(33), STRUCT),
        entry::<Comment, _>("Comment", G::Ty(34), STRUCT),
        entry::<Commented, _>("Commented", G::Ty(35), STRUCT),
        entry::<Program, _>("Program", G::Ty(36), STRUCT),
        entry::<Nested, _>("Nested", G::Ty(37), STRUCT),
        entry::<Strict, _>("Strict", G::Ty(38), STRUCT),
        entry::<Retry, _>("Retry", G::Ty(39), STRUCT),
        entry::<NoIgnore, _>("NoIgnore", G::Ty(40), STRUCT),
        entry::<Opts, _>("Opts", G::Ty(41), STRUCT),
        entry::<Many<text::Tag<"ab">, text::Tag<"a">>, _>("Many<text::Tag<\"ab\">, text::Tag<\"a\">>", G::Ty(102), STRUCT | LIST),
        entry::<Many<Letters, text::OneOf<",-">>, _>("Many<Letters, text::OneOf<\",-\">>", G::Ty(103), STRUCT | LIST),
        entry::<Many<Pair<text::OneOf<"ab">, text::OneOf<"ab">>, text::Tag<",">>, _>("Many<Pair<text::OneOf<\"ab\">, text::OneOf<\"ab\">>, text::Tag<\",\">>", G::Ty(104), STRUCT | LIST),
        entry::<Around<text::OneOf<"ab">, text::Tag<"'">>, _>("Around<text::OneOf<\"ab\">, text::Tag<\"'\">>", G::Ty(106), STRUCT),
        entry::<Around<Letters, Marker>, _>("Around<Letters, Marker>", G::Ty(107), STRUCT),
        entry::<Pick<text::Tag<"ab">, Letters>, _>("Pick<text::Tag<\"ab\">, Letters>", G::Ty(108), ENUM | LIST),
        entry::<Vec<Pick<text::OneOf<"ab">, text::AnyOf1<"cd">>>, _>("Vec<Pick<text::OneOf<\"ab\">, text::AnyOf1<\"cd\">>>", vec_(G::Ty(109)), CONT),
        entry::<Pick<Either<text::Tag<"ab">, text::OneOf<"ab">>, Num>, _>("Pick<Either<text::Tag<\"ab\">, text::OneOf<\"ab\">>, Num>", G::Ty(110), ENUM | LIST),
        entry::<Pair<text::OneOf<"ab">, text::Tag<"ab">>, _>("Pair<text::OneOf<\"ab\">, text::Tag<\"ab\">>", G::Ty(112), STRUCT | STRUCT),
        entry::<Pair<Letters, Option<text::Tag<"x">>>, _>("Pair<Letters, Option<text::Tag<\"x\">>>", G::Ty(113), STRUCT | STRUCT),
        entry::<Pair<Pair<text::OneOf<"ab">, text::OneOf<"ab">>, Call>, _>("Pair<Pair<text::OneOf<\"ab\">, text::OneOf<\"ab\">>, Call>", G::Ty(114), STRUCT | STRUCT),
        entry::<Either<text::Tag<"ab">, Letters>, _>("Either<text::Tag<\"ab\">, Letters>", G::Ty(115), ENUM),
        entry::<Either<Pair<text::OneOf<"ab">, text::OneOf<"ab">>, [text::OneOf<"ab">; 3]>, _>("Either<Pair<text::OneOf<\"ab\">, text::OneOf<\"ab\">>, [text::OneOf<\"ab\">; 3]>", G::Ty(116), ENUM),
        entry::<Sep<text::Tag<"ab">, text::Tag<"aba">>, _>("Sep<text::Tag<\"ab\">, text::Tag<\"aba\">>", G::Ty(117), STRUCT | STRUCT),
        entry::<Sep<Marker, text::OneOf<"m">>, _>("Sep<Marker, text::OneOf<\"m\">>", G::Ty(118), STRUCT | STRUCT),
        entry::<Vec<Either<text::Tag<"aab">, text::OneOf<"ab">>>, _>("Vec<Either<text::Tag<\"aab\">, text::OneOf<\"ab\">>>", vec_(G::Ty(119)), CONT | STRUCT),
        entry::<Option<Pair<text::AnyOf1<"a">, Num>>, _>("Option<Pair<text::AnyOf1<\"a\">, Num>>", opt(G::Ty(120)), CONT | STRUCT),
        entry::<[Either<text::Tag<"aab">, text::OneOf<"ab">>; 2], _>("[Either<text::Tag<\"aab\">, text::OneOf<\"ab\">>; 2]", arr(G::Ty(119), 2), CONT | STRUCT),
        entry::<Abc, _>("Abc", G::Ty(42), ENUM),
        entry::<Longest, _>("Longest", G::Ty(43), ENUM),
        entry::<Shared, _>("Shared", G::Ty(44), ENUM | LIST),
        entry::<Dash, _>("Dash", G::Ty(45), ENUM),
        entry::<Bars, _>("Bars", G::Ty(46), STRUCT),
        entry::<Blanks, _>("Blanks", G::Ty(47), STRUCT | LIST),
        entry::<Twice, _>("Twice", G::Ty(48), ENUM),
        entry::<Stmt, _>("Stmt", G::Ty(49), STRUCT),
        entry::<Block, _>("Block", G::Ty(50), STRUCT),
        entry::<Outer, _>("Outer", G::Ty(51), ENUM),
        entry::<OuterLast, _>("OuterLast", G::Ty(52), ENUM),
        entry::<Digit, _>("Digit", G::Ty(53), ENUM),
        entry::<Digits, _>("Digits", G::Ty(54), STRUCT | LIST),
        entry::<Cut, _>("Cut", G::Ty(55), ENUM),
        entry::<Cuts, _>("Cuts", G::Ty(56), STRUCT),
        entry::<Listy, _>("Listy", G::Ty(57), ENUM | LIST),
        entry::<Only, _>("Only", G::Ty(58), ENUM),
        entry::<OnlyUnit, _>("OnlyUnit", G::Ty(59), ENUM),
        entry::<OnlyIn, _>("OnlyIn", G::Ty(60), ENUM | LIST),
        entry::<OnlyBoxed, _>("OnlyBoxed", G::Ty(61), ENUM),
        entry::<BoxIn, _>("BoxIn", G::Ty(62), STRUCT),
        entry::<BoxMid, _>("BoxMid", G::Ty(63), STRUCT),
        entry::<BoxOut, _>("BoxOut", G::Ty(64), STRUCT),
        entry::<BoxAlt, _>("BoxAlt", G::Ty(65), ENUM),
        entry::<Box<BoxOut>, _>("Box<BoxOut>", bx(G::Ty(64)), CONT),
        entry::<Vec<Box<BoxMid>>, _>("Vec<Box<BoxMid>>", vec_(bx(G::Ty(63))), CONT),
        entry::<[Box<BoxAlt>; 2], _>("[Box<BoxAlt>; 2]", arr(bx(G::Ty(65)), 2), CONT),
        entry::<Vec<OnlyBoxed>, _>("Vec<OnlyBoxed>", vec_(G::Ty(61)), CONT),
        entry::<Option<OnlyIn>, _>("Option<OnlyIn>", opt(G::Ty(60)), CONT),
        entry::<Vec1<OnlyUnit>, _>("Vec1<OnlyUnit>", vec1(G::Ty(59)), CONT),
        entry::<Box<Quoted>, _>("Box<Quoted>", bx(G::Quoted), CONT),
        entry::<Box<Box<Num>>, _>("Box<Box<Num>>", bx(bx(G::Number)), CONT),
        entry::<[Quoted; 2], _>("[Quoted; 2]", arr(G::Quoted, 2), CONT),
        entry::<Vec1<Quoted>, _>("Vec1<Quoted>", vec1(G::Quoted), CONT),
        entry::<[Box<Num>; 3], _>("[Box<Num>; 3]", arr(bx(G::Number), 3), CONT),
        entry::<Box<Vec1<LenPre>>, _>("Box<Vec1<LenPre>>", bx(vec1(G::LenPre)), CONT),
        entry::<[Vec1<Quoted>; 2], _>("[Vec1<Quoted>; 2]", arr(vec1(G::Quoted), 2), CONT),
        entry::<Vec1<[AnyEl; 3]>, _>("Vec1<[AnyEl; 3]>", vec1(arr(G::AnyEl, 3)), CONT),
        entry::<Own1, _>("Own1", G::Ty(66), STRUCT),
        entry::<Own2, _>("Own2", G::Ty(67), STRUCT | LIST),
        entry::<Own3, _>("Own3", G::Ty(68), STRUCT),
        entry::<OwnAlt, _>("OwnAlt", G::Ty(69), ENUM),
        entry::<OwnAll, _>("OwnAll", G::Ty(70), STRUCT),
        entry::<[Own1; 2], _>("[Own1; 2]", arr(G::Ty(66), 2), CONT),
        entry::<Vec1<Own2>, _>("Vec1<Own2>", vec1(G::Ty(67)), CONT),
        entry::<Box<Own3>, _>("Box<Own3>", bx(G::Ty(68)), CONT),
        entry::<Option<OwnAll>, _>("Option<OwnAll>", opt(G::Ty(70)), CONT),
        entry::<Vec<OwnAlt>, _>("Vec<OwnAlt>", vec_(G::Ty(69)), CONT),
        entry::<UniEnum, _>("UniEnum", G::Ty(71), ENUM),
        entry::<Expr0, _>("Expr0", G::Ty(72), ENUM),
        entry::<Lisp, _>("Lisp", G::Ty(73), ENUM),
        entry::<Json, _>("Json", G::Ty(74), ENUM | LIST),
        entry::<Record, _>("Record", G::Ty(75), STRUCT),
        entry::<Attribute, _>("Attribute", G::Ty(76), STRUCT),
        entry::<Xml, _>("Xml", G::Ty(77), STRUCT),
        entry::<Chain, _>("Chain", G::Ty(78), STRUCT),
        entry::<Ini, _>("Ini", G::Ty(79), ENUM),
        entry::<IniFile, _>("IniFile", G::Ty(80), STRUCT),
        entry::<Vec<Abc>, _>("Vec<Abc>", vec_(G::Ty(42)), CONT),
        entry::<Vec<Longest>, _>("Vec<Longest>", vec_(G::Ty(43)), CONT),
        entry::<[Abc; 2], _>("[Abc; 2]", arr(G::Ty(42), 2), CONT),
        entry::<Option<Shared>, _>("Option<Shared>", opt(G::Ty(44)), CONT),
        entry::<Vec1<Letters>, _>("Vec1<Letters>", vec1(G::Ty(0)), CONT),
        entry::<Vec<NamedField>, _>("Vec<NamedField>", vec_(G::Ty(6)), CONT),
        entry::<[Fixes; 2], _>("[Fixes; 2]", arr(G::Ty(23), 2), CONT),
        entry::<Option<Json>, _>("Option<Json>", opt(G::Ty(74)), CONT),
        entry::<Box<Lisp>, _>("Box<Lisp>", bx(G::Ty(73)), CONT),
        entry::<Vec<Call>, _>("Vec<Call>", vec_(G::Ty(8)), CONT),
        entry::<Vec1<Stmt>, _>("Vec1<Stmt>", vec1(G::Ty(49)), CONT),
        entry::<Vec<Strict>, _>("Vec<Strict>", vec_(G::Ty(38)), CONT),
        entry::<Option<Strict>, _>("Option<Strict>", opt(G::Ty(38)), CONT),
        entry::<Vec<OuterLast>, _>("Vec<OuterLast>", vec_(G::Ty(52)), CONT),
        entry::<[Option<Call>; 2], _>("[Option<Call>; 2]", arr(opt(G::Ty(8)), 2), CONT),
        entry::<Wide, _>("Wide", G::Ty(81), STRUCT),
        entry::<WideIgn, _>("WideIgn", G::Ty(82), STRUCT),
        entry::<WideNamed, _>("WideNamed", G::Ty(83), STRUCT),
        entry::<WideEnum, _>("WideEnum", G::Ty(84), ENUM),
        entry::<Many20, _>("Many20", G::Ty(85), ENUM),
        entry::<Kinds, _>("Kinds", G::Ty(86), ENUM),
        entry::<AbsPre, _>("AbsPre", G::Ty(87), STRUCT),
        entry::<AbsOwn, _>("AbsOwn", G::Ty(88), STRUCT),
        entry::<AbsTup, _>("AbsTup", G::Ty(89), STRUCT),
        entry::<AbsUnit, _>("AbsUnit", G::Ty(90), STRUCT),
        entry::<AbsList, _>("AbsList", G::Ty(91), STRUCT | LIST),
        entry::<AbsEnum, _>("AbsEnum", G::Ty(92), ENUM),
        entry::<Vec<AbsPre>, _>("Vec<AbsPre>", vec_(G::Ty(87)), CONT),
        entry::<Vec<AbsEnum>, _>("Vec<AbsEnum>", vec_(G::Ty(92)), CONT),
        entry::<[AbsTup; 2], _>("[AbsTup; 2]", arr(G::Ty(89), 2), CONT),
        entry::<Vec<AbsUnit>, _>("Vec<AbsUnit>", vec_(G::Ty(90)), CONT),
        entry::<Vec<Many20>, _>("Vec<Many20>", vec_(G::Ty(85)), CONT),
        entry::<Vec<WideEnum>, _>("Vec<WideEnum>", vec_(G::Ty(84)), CONT),
        entry::<Option<Wide>, _>("Option<Wide>", opt(G::Ty(81)), CONT),
        entry::<Vec<Kinds>, _>("Vec<Kinds>", vec_(G::Ty(86)), CONT),
        entry::<ConvRun, _>("ConvRun", G::Ty(93), STRUCT),
        entry::<ConvDuo, _>("ConvDuo", G::Ty(94), STRUCT | LIST),
        entry::<ConvAlt, _>("ConvAlt", G::Ty(95), ENUM | LIST),
        entry::<DigPlus, _>("DigPlus", G::Ty(96), STRUCT),
        entry::<Sums, _>("Sums", G::Ty(97), STRUCT),
        entry::<SumOr, _>("SumOr", G::Ty(98), ENUM | LIST),
        entry::<Vec<SumOr>, _>("Vec<SumOr>", vec_(G::Ty(98)), CONT),
        entry::<Vec<ConvAlt>, _>("Vec<ConvAlt>", vec_(G::Ty(95)), CONT),
        entry::<Careful, _>("Careful", G::Ty(99), STRUCT | LIST),
        entry::<Shadow, _>("Shadow", G::Ty(100), STRUCT),
        entry::<ShadowEnum, _>("ShadowEnum", G::Ty(101), ENUM),
        entry::<Lst<Fixes, Fixes, text::Tag<",">, text::WhiteSpace, {usize::MAX}, 1>, _>("Lst<Fixes, Fixes, text::Tag<\",\">, text::WhiteSpace, {usize::MAX}, 1>", lst(G::Ty(23), Cv::No, Some(tag(",")), Tr::No, vec![G::WhiteSpace], usize::MAX), LIST),
        entry::<Lst<Abc, Abc, text::Tag<"b">, text::Tag<"a">, {usize::MAX}, 1>, _>("Lst<Abc, Abc, text::Tag<\"b\">, text::Tag<\"a\">, {usize::MAX}, 1>", lst(G::Ty(42), Cv::No, Some(tag("b")), Tr::No, vec![tag("a")], usize::MAX), LIST),
        entry::<Lst<Digit, Digit, Marker, Comment, {3}, 1>, _>("Lst<Digit, Digit, Marker, Comment, {3}, 1>", lst(G::Ty(53), Cv::No, Some(G::Ty(2)), Tr::No, vec![G::Ty(34)], 3), LIST),
        entry::<Lst<Fixes, Fixes, text::Tag<",">, text::WhiteSpace, {usize::MAX}, 2>, _>("Lst<Fixes, Fixes, text::Tag<\",\">, text::WhiteSpace, {usize::MAX}, 2>", lst(G::Ty(23), Cv::No, Some(tag(",")), Tr::Yes, vec![G::WhiteSpace], usize::MAX), LIST),
        entry::<Lst<Abc, Abc, text::Tag<"b">, text::Tag<"a">, {usize::MAX}, 2>, _>("Lst<Abc, Abc, text::Tag<\"b\">, text::Tag<\"a\">, {usize::MAX}, 2>", lst(G::Ty(42), Cv::No, Some(tag("b")), Tr::Yes, vec![tag("a")], usize::MAX), LIST),
        entry::<Lst<Digit, Digit, Marker, Comment, {3}, 2>, _>("Lst<Digit, Digit, Marker, Comment, {3}, 2>", lst(G::Ty(53), Cv::No, Some(G::Ty(2)), Tr::Yes, vec![G::Ty(34)], 3), LIST),
        entry::<Lst<Fixes, Fixes, text::Tag<",">, text::WhiteSpace, {usize::MAX}, 3>, _>("Lst<Fixes, Fixes, text::Tag<\",\">, text::WhiteSpace, {usize::MAX}, 3>", lst(G::Ty(23), Cv::No, Some(tag(",")), Tr::Maybe, vec![G::WhiteSpace], usize::MAX), LIST),
        entry::<Lst<Abc, Abc, text::Tag<"b">, text::Tag<"a">, {usize::MAX}, 3>, _>("Lst<Abc, Abc, text::Tag<\"b\">, text::Tag<\"a\">, {usize::MAX}, 3>", lst(G::Ty(42), Cv::No, Some(tag("b")), Tr::Maybe, vec![tag("a")], usize::MAX), LIST),
        entry::<Lst<Digit, Digit, Marker, Comment, {3}, 3>, _>("Lst<Digit, Digit, Marker, Comment, {3}, 3>", lst(G::Ty(53), Cv::No, Some(G::Ty(2)), Tr::Maybe, vec![G::Ty(34)], 3), LIST),
        entry::<Lst<Shared, Shared, Never, text::Tag<";">, {usize::MAX}, 0>, _>("Lst<Shared, Shared, Never, text::Tag<\";\">, {usize::MAX}, 0>", lst(G::Ty(44), Cv::No, None, Tr::No, vec![tag(";")], usize::MAX), LIST),
    ]
}
