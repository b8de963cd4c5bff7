// Written by tools/gen_zoo.py; do not edit.
#![allow(dead_code, unused_imports, unused_braces, clippy::all)]
use nommy_sim::model::*;
use nommy_sim::users::*;
use nommy_sim::val::{ToVal, Val};
use nommy_sim::zoo::*;
use nommy::{bytes, text, Parse, Vec1};

#[derive(Parse)]
#[nommy(ignore = text::AnyOf1<"a">)]
#[nommy(ignore = Num)]
#[nommy(prefix = text::AnyOf1<"bc">)]
pub struct R0(
    #[nommy(suffix = text::Tag<"(">)]
    pub text::Tag<"(">,
    #[nommy(prefix = text::Tag<"ab">)]
    pub text::Tag<")">,
);
impl ToVal for R0 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = Quoted)]
#[nommy(ignore = text::AnyOf1<"é√">)]
#[nommy(prefix = text::Tag<"aba">)]
pub enum R1 {
    V0 {
    #[nommy(prefix = text::Tag<",">, suffix = text::Tag<"ab">, parser = text::AnyOf1<"0123456789">)]
    x: usize,
},
    #[nommy(ignore = text::Tag<",">)]
    #[nommy(suffix = text::AnyOf1<"ab">)]
    V1 {
    x: R0,
    y: Quoted,
},
    #[nommy(prefix = text::Tag<"aab">)]
    V2(
    #[nommy(prefix = R0)]
    #[nommy(suffix = text::Tag<"-">)]
    Vec1<text::AnyOf1<"bc">>,
    #[nommy(suffix = text::Tag<",">)]
    R0,
    text::OneOf<"é√">,
    #[nommy(suffix = text::Tag<"\n">)]
    #[nommy(inner_parser = text::WhileNot1<"aé">)]
    #[nommy(seperated_by = text::Tag<"a">)]
    #[nommy(trailing = "no")]
    Vec<String>,
    #[nommy(suffix = text::Tag<"-">)]
    R0,
),
    #[nommy(prefix = text::Tag<"--">)]
    V3,
    #[nommy(prefix = text::Tag<"-">)]
    #[nommy(suffix = Box<R0>)]
    V4,
    #[nommy(prefix = text::Tag<"a">)]
    V5 {
    #[nommy(suffix = text::Tag<"aé">)]
    x: R0,
    #[nommy(parser = text::OneOf<",;">)]
    y: char,
    #[nommy(suffix = Option<text::Tag<"-">>, inner_parser = text::OneOf<"-a">)]
    z: Vec<text::OneOf<"-a">>,
},
    #[nommy(prefix = text::Tag<"--">)]
    V6,
}
impl ToVal for R1 {
    fn to_val(self) -> Val {
        match self {
            R1::V0 { x } => Val::Var(0, vec![x.to_val()]),
            R1::V1 { x, y } => Val::Var(1, vec![x.to_val(), y.to_val()]),
            R1::V2(elem0, elem1, elem2, elem3, elem4) => Val::Var(2, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val(), elem4.to_val()]),
            R1::V3 => Val::Var(3, vec![]),
            R1::V4 => Val::Var(4, vec![]),
            R1::V5 { x, y, z } => Val::Var(5, vec![x.to_val(), y.to_val(), z.to_val()]),
            R1::V6 => Val::Var(6, vec![]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Tag<"Ab">)]
#[nommy(suffix = text::Tag<"b">)]
pub enum R2 {
    #[nommy(prefix = text::Tag<"aa">, ignore = text::Tag<"aa">, ignore = text::OneOf<"bc">)]
    V0 {
    #[nommy(suffix = text::Tag<"a">)]
    x: Vec<text::WhileNot1<"-a">>,
},
    #[nommy(ignore = text::Tag<",">)]
    #[nommy(ignore = text::Tag<"ab">)]
    #[nommy(prefix = text::Tag<" ">)]
    V1(
    #[nommy(prefix = text::Tag<"ab">)]
    R0,
    text::Tag<"a">,
    [text::Tag<" ">; 1],
    text::Tag<"--">,
),
    #[nommy(prefix = text::Tag<" ">)]
    V2 {
    x: text::Tag<"a">,
    #[nommy(prefix = text::Tag<"(">)]
    y: Box<R1>,
    #[nommy(prefix = text::WhiteSpace)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    z: Small,
    #[nommy(suffix = text::Tag<"aba">)]
    w: Option<text::WhileNot1<"zbya√xc,() ">>,
    #[nommy(inner_parser = text::Tag<",">)]
    r: Vec<text::Tag<",">>,
},
    #[nommy(prefix = text::Tag<"\n">)]
    V3 {
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    x: Small,
    #[nommy(prefix = text::Tag<" ">)]
    y: R1,
    #[nommy(inner_parser = [text::Tag<"c">; 2])]
    #[nommy(seperated_by = Quoted)]
    #[nommy(trailing = "yes")]
    z: Vec<[text::Tag<"c">; 2]>,
},
    V4(
    text::Tag<";">,
    Vec<text::Tag<"(">>,
),
    #[nommy(prefix = text::Tag<"é">)]
    #[nommy(suffix = text::Tag<"aa">)]
    V5,
    V6(
    #[nommy(inner_parser = R1)]
    Vec<R1>,
    #[nommy(prefix = text::Tag<"Ab">)]
    #[nommy(inner_parser = text::Tag<"--">)]
    #[nommy(seperated_by = text::AnyOf1<"é√">)]
    Vec<text::Tag<"--">>,
),
}
impl ToVal for R2 {
    fn to_val(self) -> Val {
        match self {
            R2::V0 { x } => Val::Var(0, vec![x.to_val()]),
            R2::V1(elem0, elem1, elem2, elem3) => Val::Var(1, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val()]),
            R2::V2 { x, y, z, w, r } => Val::Var(2, vec![x.to_val(), y.to_val(), z.to_val(), w.to_val(), r.to_val()]),
            R2::V3 { x, y, z } => Val::Var(3, vec![x.to_val(), y.to_val(), z.to_val()]),
            R2::V4(elem0, elem1) => Val::Var(4, vec![elem0.to_val(), elem1.to_val()]),
            R2::V5 => Val::Var(5, vec![]),
            R2::V6(elem0, elem1) => Val::Var(6, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, prefix = text::Tag<"b">, ignore = LenPre)]
pub struct R3;
impl ToVal for R3 {
    fn to_val(self) -> Val {
        Val::Rec(vec![])
    }
}

#[derive(Parse)]
pub enum R4 {
    V0(
    #[nommy(prefix = text::Tag<",">)]
    text::Tag<",">,
),
    #[nommy(suffix = text::Tag<"ab">)]
    V1 {
    #[nommy(parser = text::WhileNot1<"bc">)]
    x: String,
},
    #[nommy(suffix = Vec<text::OneOf<"-a">>)]
    V2(
    #[nommy(prefix = text::Tag<"aé">)]
    #[nommy(suffix = Vec<text::Tag<",">>)]
    text::Tag<"(">,
),
}
impl ToVal for R4 {
    fn to_val(self) -> Val {
        match self {
            R4::V0(elem0) => Val::Var(0, vec![elem0.to_val()]),
            R4::V1 { x } => Val::Var(1, vec![x.to_val()]),
            R4::V2(elem0) => Val::Var(2, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = text::AnyOf1<"aé">)]
#[nommy(prefix = text::Tag<"é">)]
pub struct R5(
    #[nommy(inner_parser = text::AnyOf1<"0123456789">, seperated_by = text::Tag<"ba">, trailing = "yes")]
    pub Vec<Small>,
);
impl ToVal for R5 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(prefix = text::Tag<",">)]
#[nommy(suffix = text::Tag<";">)]
pub enum R6 {
    #[nommy(ignore = text::AnyOf1<"-a">)]
    #[nommy(prefix = text::Tag<")">)]
    V0,
    #[nommy(prefix = text::Tag<"aa">, suffix = text::Tag<"aa">)]
    V1,
}
impl ToVal for R6 {
    fn to_val(self) -> Val {
        match self {
            R6::V0 => Val::Var(0, vec![]),
            R6::V1 => Val::Var(1, vec![]),
        }
    }
}

#[derive(Parse)]
pub enum R7 {
    #[nommy(ignore = text::Tag<"-">)]
    V0(
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    Small,
    #[nommy(prefix = text::Tag<"é">)]
    #[nommy(inner_parser = text::AnyOf1<"0123456789">)]
    #[nommy(seperated_by = text::AnyOf1<"ab">)]
    #[nommy(trailing = "no")]
    Vec<Small>,
    #[nommy(inner_parser = text::Tag<"c">)]
    #[nommy(seperated_by = text::OneOf<"0123456789">)]
    #[nommy(trailing = "no")]
    Vec<text::Tag<"c">>,
    #[nommy(inner_parser = R4)]
    Vec<R4>,
    #[nommy(prefix = text::Tag<"b">)]
    #[nommy(suffix = text::Tag<"é">)]
    Vec<text::OneOf<"aé">>,
),
    #[nommy(prefix = text::Tag<")">)]
    V1(
    R0,
    Option<AnyEl>,
),
    #[nommy(prefix = text::Tag<"-">)]
    #[nommy(suffix = text::Tag<"\n">)]
    V2,
}
impl ToVal for R7 {
    fn to_val(self) -> Val {
        match self {
            R7::V0(elem0, elem1, elem2, elem3, elem4) => Val::Var(0, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val(), elem4.to_val()]),
            R7::V1(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
            R7::V2 => Val::Var(2, vec![]),
        }
    }
}

#[derive(Parse)]
#[nommy(prefix = text::Tag<"-">, suffix = text::Tag<"-">)]
pub struct R8;
impl ToVal for R8 {
    fn to_val(self) -> Val {
        Val::Rec(vec![])
    }
}

#[derive(Parse)]
pub enum R9 {
    #[nommy(suffix = text::OneOf<"a">)]
    V0 {
    #[nommy(prefix = text::Tag<"\n">)]
    x: Option<text::OneOf<",;">>,
},
    #[nommy(ignore = AnyEl)]
    #[nommy(ignore = text::OneOf<"bc">)]
    #[nommy(suffix = text::Tag<"(">)]
    V1 {
    #[nommy(prefix = text::Tag<"\n">)]
    x: text::Tag<"\n">,
    #[nommy(inner_parser = Box<AnyEl>, seperated_by = text::WhileNot1<"0123456789">, trailing = "maybe")]
    y: Vec<Box<AnyEl>>,
    z: text::Tag<"\n">,
},
    #[nommy(ignore = text::OneOf<"bc">)]
    #[nommy(suffix = text::Tag<"√é">)]
    V2 {
    #[nommy(suffix = text::Tag<"aab">, inner_parser = R1, seperated_by = text::WhileNot1<"é√">, trailing = "no")]
    x: Vec<R1>,
    y: R0,
    #[nommy(prefix = text::Tag<"c">)]
    z: Option<Quoted>,
    #[nommy(parser = text::OneOf<"abX">)]
    w: NoX,
},
}
impl ToVal for R9 {
    fn to_val(self) -> Val {
        match self {
            R9::V0 { x } => Val::Var(0, vec![x.to_val()]),
            R9::V1 { x, y, z } => Val::Var(1, vec![x.to_val(), y.to_val(), z.to_val()]),
            R9::V2 { x, y, z, w } => Val::Var(2, vec![x.to_val(), y.to_val(), z.to_val(), w.to_val()]),
        }
    }
}

#[derive(Parse)]
pub enum R10 {
    V0 {
    #[nommy(suffix = text::Tag<"c">)]
    x: Option<text::Tag<"c">>,
},
    #[nommy(ignore = text::AnyOf1<"0123456789">)]
    #[nommy(ignore = text::Tag<" ">)]
    V1(
    #[nommy(inner_parser = text::AnyOf1<"0123456789">)]
    #[nommy(seperated_by = text::WhileNot1<"a">)]
    #[nommy(trailing = "yes")]
    Vec<usize>,
    text::AnyOf<"bc">,
),
    V2 {
    #[nommy(prefix = text::Tag<"c">)]
    #[nommy(inner_parser = text::WhileNot1<"-a">)]
    #[nommy(seperated_by = text::AnyOf1<"-a">)]
    #[nommy(trailing = "maybe")]
    x: Vec<String>,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    y: usize,
},
    #[nommy(ignore = text::Tag<"--">)]
    V3 {
    #[nommy(prefix = text::Tag<"c">)]
    #[nommy(suffix = text::WhiteSpace)]
    #[nommy(inner_parser = text::Tag<")">)]
    #[nommy(seperated_by = text::AnyOf1<"zbya√xc,() ">)]
    #[nommy(trailing = "maybe")]
    x: Vec<text::Tag<")">>,
    #[nommy(suffix = text::Tag<"aa">)]
    y: Option<text::AnyOf1<"0123456789">>,
    #[nommy(suffix = text::Tag<"c">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    z: usize,
},
}
impl ToVal for R10 {
    fn to_val(self) -> Val {
        match self {
            R10::V0 { x } => Val::Var(0, vec![x.to_val()]),
            R10::V1(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
            R10::V2 { x, y } => Val::Var(2, vec![x.to_val(), y.to_val()]),
            R10::V3 { x, y, z } => Val::Var(3, vec![x.to_val(), y.to_val(), z.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::AnyOf1<"-a">)]
#[nommy(ignore = text::Tag<")">)]
pub enum R11 {
    #[nommy(prefix = text::Tag<"ba">)]
    V0,
    #[nommy(prefix = text::Tag<")">)]
    V1 {
    x: text::Tag<"√é">,
},
    #[nommy(prefix = [text::Tag<"aba">; 2])]
    V2(
    #[nommy(suffix = text::Tag<"c">)]
    text::Tag<"aa">,
    #[nommy(parser = text::OneOf<"abX">)]
    NoX,
),
    V3(
    Vec<text::WhileNot1<"0123456789">>,
    text::Tag<"c">,
    #[nommy(inner_parser = text::AnyOf1<"aé">)]
    Vec<String>,
),
}
impl ToVal for R11 {
    fn to_val(self) -> Val {
        match self {
            R11::V0 => Val::Var(0, vec![]),
            R11::V1 { x } => Val::Var(1, vec![x.to_val()]),
            R11::V2(elem0, elem1) => Val::Var(2, vec![elem0.to_val(), elem1.to_val()]),
            R11::V3(elem0, elem1, elem2) => Val::Var(3, vec![elem0.to_val(), elem1.to_val(), elem2.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Tag<";">)]
pub struct R12 {
    #[nommy(prefix = text::Tag<"ab">)]
    pub x: text::AnyOf<"abX">,
    #[nommy(suffix = text::Tag<"\n">, inner_parser = R7, seperated_by = text::Tag<"\n">, trailing = "maybe")]
    pub y: Vec<R7>,
    #[nommy(parser = text::OneOf<"0123456789">)]
    pub z: char,
}
impl ToVal for R12 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val(), self.z.to_val()])
    }
}

#[derive(Parse)]
#[nommy(prefix = Vec1<text::Tag<"a">>)]
pub struct R13 {
    #[nommy(suffix = text::Tag<"abca">)]
    pub x: text::Tag<"abca">,
    #[nommy(suffix = text::Tag<"a">)]
    pub y: R10,
    #[nommy(suffix = text::Tag<"√é">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub z: Small,
    #[nommy(inner_parser = text::AnyOf1<"0123456789">, seperated_by = text::WhiteSpace, trailing = "maybe")]
    pub w: Vec<usize>,
}
impl ToVal for R13 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val(), self.z.to_val(), self.w.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Tag<"\n">)]
#[nommy(prefix = text::Tag<"--">)]
pub struct R14 {
    #[nommy(inner_parser = text::Tag<"aé">)]
    pub x: Vec<text::Tag<"aé">>,
}
impl ToVal for R14 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val()])
    }
}

#[derive(Parse)]
pub struct R15(
    pub text::AnyOf<"0123456789">,
);
impl ToVal for R15 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::OneOf<"bc">)]
pub enum R16 {
    #[nommy(prefix = text::Tag<"aé">)]
    V0(
    #[nommy(suffix = text::OneOf<"0123456789">)]
    #[nommy(inner_parser = Box<text::Tag<"aé">>)]
    #[nommy(seperated_by = text::LineEnding)]
    #[nommy(trailing = "maybe")]
    Vec<Box<text::Tag<"aé">>>,
    #[nommy(prefix = text::Tag<")">)]
    #[nommy(inner_parser = text::Tag<"Ab">)]
    Vec<text::Tag<"Ab">>,
    Vec1<text::WhileNot1<"zbya√xc,() ">>,
    #[nommy(inner_parser = text::AnyOf1<"0123456789">)]
    #[nommy(seperated_by = text::Tag<"c">)]
    #[nommy(trailing = "yes")]
    Vec<Small>,
    text::AnyOf<"0123456789">,
    #[nommy(suffix = text::OneOf<"aé">)]
    R4,
    #[nommy(inner_parser = Box<text::Tag<"b">>)]
    #[nommy(seperated_by = text::Tag<"Ab">)]
    #[nommy(trailing = "maybe")]
    Vec<Box<text::Tag<"b">>>,
    #[nommy(prefix = text::Tag<"(">)]
    R13,
    #[nommy(inner_parser = [text::AnyOf1<"zbya√xc,() ">; 2], seperated_by = text::Tag<"-">, trailing = "no")]
    Vec<[text::AnyOf1<"zbya√xc,() ">; 2]>,
    #[nommy(suffix = text::Tag<"abca">)]
    #[nommy(parser = text::OneOf<"abX">)]
    NoX,
    #[nommy(prefix = text::Tag<"b">)]
    #[nommy(inner_parser = Num)]
    Vec<Num>,
    [text::AnyOf1<"ab">; 2],
),
    #[nommy(prefix = text::Tag<",">)]
    V1,
    #[nommy(prefix = text::Tag<"b">)]
    V2,
}
impl ToVal for R16 {
    fn to_val(self) -> Val {
        match self {
            R16::V0(elem0, elem1, elem2, elem3, elem4, elem5, elem6, elem7, elem8, elem9, elem10, elem11) => Val::Var(0, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val(), elem4.to_val(), elem5.to_val(), elem6.to_val(), elem7.to_val(), elem8.to_val(), elem9.to_val(), elem10.to_val(), elem11.to_val()]),
            R16::V1 => Val::Var(1, vec![]),
            R16::V2 => Val::Var(2, vec![]),
        }
    }
}

#[derive(Parse)]
#[nommy(prefix = text::Tag<"é">, ignore = Box<text::AnyOf1<"abX">>)]
pub struct R17(
    #[nommy(prefix = Vec<text::OneOf<"zbya√xc,() ">>)]
    #[nommy(parser = text::WhileNot1<"0123456789">)]
    pub String,
    pub [Option<text::Tag<"é">>; 3],
);
impl ToVal for R17 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, ignore = R17, ignore = text::OneOf<"0123456789">)]
pub struct R18 {
    #[nommy(prefix = text::OneOf<"-a">)]
    #[nommy(inner_parser = text::Tag<"ab">)]
    #[nommy(seperated_by = text::Tag<"-">)]
    #[nommy(trailing = "yes")]
    pub x: Vec<text::Tag<"ab">>,
}
impl ToVal for R18 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(prefix = text::Tag<"Ab">)]
pub struct R19(
    #[nommy(suffix = text::Tag<"--">)]
    pub LenPre,
    pub text::WhileNot1<"ab">,
    #[nommy(prefix = text::Tag<"(">)]
    #[nommy(inner_parser = text::OneOf<"abX">)]
    #[nommy(seperated_by = text::AnyOf1<"zbya√xc,() ">)]
    #[nommy(trailing = "yes")]
    pub Vec<NoX>,
    pub Box<R2>,
);
impl ToVal for R19 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
pub enum R20 {
    #[nommy(prefix = text::Tag<"√é">)]
    #[nommy(suffix = text::Tag<"aab">)]
    V0(
    Option<Box<R20>>,
),
    #[nommy(ignore = Vec1<text::OneOf<"é√">>)]
    #[nommy(ignore = text::WhileNot1<"abX">)]
    #[nommy(suffix = text::Tag<";">)]
    V1(
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    Small,
    #[nommy(suffix = text::Tag<" ">, parser = text::WhileNot1<"a">)]
    String,
    #[nommy(prefix = text::Tag<"c">)]
    #[nommy(inner_parser = text::OneOf<"abX">)]
    #[nommy(seperated_by = text::AnyOf1<"aé">)]
    #[nommy(trailing = "no")]
    Vec<NoX>,
    Vec1<text::Tag<"aab">>,
),
}
impl ToVal for R20 {
    fn to_val(self) -> Val {
        match self {
            R20::V0(elem0) => Val::Var(0, vec![elem0.to_val()]),
            R20::V1(elem0, elem1, elem2, elem3) => Val::Var(1, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, prefix = text::Tag<"c">, ignore = text::AnyOf1<"abX">)]
pub enum R21 {
    V0 {
    #[nommy(suffix = text::Tag<"Ab">)]
    x: Option<text::Tag<"ab">>,
    #[nommy(suffix = text::Tag<"ab">, inner_parser = text::OneOf<"abX">, seperated_by = text::WhiteSpace)]
    y: Vec<NoX>,
},
    V1(
    Quoted,
    text::Tag<"Ab">,
    #[nommy(suffix = text::Tag<";">)]
    #[nommy(inner_parser = text::OneOf<"abX">)]
    #[nommy(seperated_by = text::Tag<"aa">)]
    #[nommy(trailing = "yes")]
    Vec<NoX>,
    #[nommy(prefix = text::Tag<"--">)]
    #[nommy(suffix = text::Tag<"--">)]
    #[nommy(inner_parser = text::Tag<"aa">)]
    #[nommy(seperated_by = text::OneOf<"aé">)]
    #[nommy(trailing = "maybe")]
    Vec<text::Tag<"aa">>,
),
}
impl ToVal for R21 {
    fn to_val(self) -> Val {
        match self {
            R21::V0 { x, y } => Val::Var(0, vec![x.to_val(), y.to_val()]),
            R21::V1(elem0, elem1, elem2, elem3) => Val::Var(1, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val()]),
        }
    }
}

#[derive(Parse)]
pub enum R22 {
    #[nommy(ignore = text::LineEnding)]
    #[nommy(prefix = text::Tag<"a">)]
    V0,
    #[nommy(prefix = text::Tag<"√é">)]
    #[nommy(suffix = text::Tag<"a">)]
    V1,
}
impl ToVal for R22 {
    fn to_val(self) -> Val {
        match self {
            R22::V0 => Val::Var(0, vec![]),
            R22::V1 => Val::Var(1, vec![]),
        }
    }
}

#[derive(Parse)]
#[nommy(suffix = text::Tag<"-">, ignore = Num)]
pub struct R23(
    #[nommy(prefix = text::AnyOf<",;">)]
    pub Lst<text::OneOf<"aé">, text::OneOf<"aé">, Quoted, text::OneOf<"ab">, {1}, 1>,
    #[nommy(prefix = text::Tag<"é">)]
    pub R19,
);
impl ToVal for R23 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Tag<"é">, prefix = text::Tag<"é">)]
pub struct R24;
impl ToVal for R24 {
    fn to_val(self) -> Val {
        Val::Rec(vec![])
    }
}

#[derive(Parse)]
#[nommy(suffix = text::Tag<"abca">)]
pub struct R25<A>(
    pub Vec1<A>,
    #[nommy(suffix = A)]
    pub text::AnyOf1<",;">,
    pub A,
    pub Option<A>,
    #[nommy(inner_parser = text::AnyOf1<"a">, seperated_by = text::WhileNot1<"aé">, trailing = "maybe")]
    pub Vec<String>,
);
impl<A: ToVal> ToVal for R25<A> {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val(), self.4.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct R26(
    #[nommy(parser = text::OneOf<"abX">)]
    pub NoX,
    #[nommy(prefix = text::Tag<"√é">, suffix = text::Tag<"abca">)]
    pub text::WhileNot1<"aé">,
    pub Vec<R20>,
    #[nommy(prefix = text::Tag<" ">)]
    #[nommy(suffix = text::Tag<"c">)]
    #[nommy(inner_parser = text::OneOf<",;">)]
    pub Vec<text::OneOf<",;">>,
);
impl ToVal for R26 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, ignore = text::AnyOf1<"abX">)]
pub struct R27(
    #[nommy(prefix = text::Tag<",">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub Small,
    pub Option<R25<text::Tag<",">>>,
    #[nommy(inner_parser = text::OneOf<",;">)]
    pub Vec<char>,
    pub Option<text::AnyOf1<"bc">>,
);
impl ToVal for R27 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::Tag<"c">)]
#[nommy(ignore = text::OneOf<"zbya√xc,() ">)]
pub enum R28 {
    #[nommy(suffix = text::Tag<"√é">)]
    V0 {
    #[nommy(prefix = text::Tag<"√é">)]
    x: Lst<Num, Num, text::WhiteSpace, Never, {6}, 3>,
    y: R25<text::OneOf<"a">>,
},
    #[nommy(prefix = text::Tag<"√é">)]
    V1,
    V2 {
    #[nommy(inner_parser = text::OneOf<"abX">)]
    #[nommy(seperated_by = text::OneOf<"-a">)]
    #[nommy(trailing = "maybe")]
    x: Vec<text::OneOf<"abX">>,
    y: LenPre,
    z: Option<text::OneOf<",;">>,
},
}
impl ToVal for R28 {
    fn to_val(self) -> Val {
        match self {
            R28::V0 { x, y } => Val::Var(0, vec![x.to_val(), y.to_val()]),
            R28::V1 => Val::Var(1, vec![]),
            R28::V2 { x, y, z } => Val::Var(2, vec![x.to_val(), y.to_val(), z.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(prefix = text::OneOf<"bc">)]
pub struct R29;
impl ToVal for R29 {
    fn to_val(self) -> Val {
        Val::Rec(vec![])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct R30 {
    pub x: text::Tag<"√é">,
    #[nommy(suffix = text::Tag<"√é">)]
    #[nommy(inner_parser = text::OneOf<"abX">)]
    pub y: Vec<NoX>,
    pub z: text::Tag<"√é">,
    #[nommy(prefix = Option<Num>)]
    pub w: Vec<R25<text::WhileNot1<"abX">>>,
}
impl ToVal for R30 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val(), self.z.to_val(), self.w.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(suffix = R25<text::OneOf<"0123456789">>)]
pub enum R31 {
    #[nommy(prefix = text::Tag<"-">, suffix = text::Tag<"-">)]
    V0(
    Option<Box<R31>>,
),
    V1 {
    x: R28,
},
}
impl ToVal for R31 {
    fn to_val(self) -> Val {
        match self {
            R31::V0(elem0) => Val::Var(0, vec![elem0.to_val()]),
            R31::V1 { x } => Val::Var(1, vec![x.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct R32 {
    #[nommy(prefix = text::Tag<"é">)]
    pub x: Vec<text::OneOf<"bc">>,
    pub y: text::Tag<"aé">,
}
impl ToVal for R32 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val()])
    }
}

#[derive(Parse)]
#[nommy(prefix = text::Tag<",">)]
#[nommy(suffix = text::Tag<",">)]
pub enum R33 {
    #[nommy(prefix = text::Tag<"-">)]
    V0,
    #[nommy(ignore = text::Tag<"-">, ignore = text::OneOf<"aé">, prefix = text::Tag<"abca">, suffix = text::Tag<"aé">)]
    V1(
    #[nommy(suffix = text::Tag<"aé">)]
    [Quoted; 3],
    #[nommy(prefix = text::Tag<"aé">)]
    #[nommy(suffix = text::Tag<"aé">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    Small,
    #[nommy(suffix = text::OneOf<"ab">, inner_parser = [text::OneOf<"zbya√xc,() ">; 1], seperated_by = text::OneOf<"bc">, trailing = "maybe")]
    Vec<[text::OneOf<"zbya√xc,() ">; 1]>,
    #[nommy(prefix = text::Tag<"aé">)]
    #[nommy(suffix = text::Tag<"ba">)]
    #[nommy(parser = text::OneOf<"abX">)]
    NoX,
),
}
impl ToVal for R33 {
    fn to_val(self) -> Val {
        match self {
            R33::V0 => Val::Var(0, vec![]),
            R33::V1(elem0, elem1, elem2, elem3) => Val::Var(1, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val()]),
        }
    }
}

#[derive(Parse)]
pub enum R34 {
    V0(
    Num,
    text::Tag<"√é">,
    #[nommy(inner_parser = text::AnyOf1<"0123456789">, seperated_by = text::Tag<"(">, trailing = "yes")]
    Vec<Small>,
    #[nommy(suffix = text::Tag<"√é">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    Small,
    #[nommy(inner_parser = text::AnyOf1<"0123456789">)]
    #[nommy(seperated_by = text::AnyOf1<"aé">)]
    #[nommy(trailing = "yes")]
    Vec<Small>,
),
    #[nommy(prefix = text::Tag<"(">)]
    V1,
    #[nommy(suffix = text::Tag<"é">)]
    V2 {
    #[nommy(prefix = Vec1<text::Tag<"√é">>)]
    #[nommy(suffix = text::Tag<"--">)]
    #[nommy(inner_parser = text::AnyOf1<"-a">)]
    x: Vec<String>,
    #[nommy(inner_parser = text::OneOf<"aé">, seperated_by = text::Tag<"aba">, trailing = "maybe")]
    y: Vec<char>,
    #[nommy(inner_parser = text::WhileNot1<"-a">)]
    #[nommy(seperated_by = text::OneOf<",;">)]
    #[nommy(trailing = "yes")]
    z: Vec<text::WhileNot1<"-a">>,
    #[nommy(suffix = Option<LenPre>)]
    w: Lst<text::Tag<"a">, text::Tag<"a">, text::OneOf<"zbya√xc,() ">, text::Tag<"c">, {3}, 1>,
    r: Box<R4>,
    #[nommy(suffix = R32)]
    s: Vec<text::Tag<",">>,
    #[nommy(inner_parser = text::AnyOf1<"0123456789">)]
    #[nommy(seperated_by = text::Tag<"√é">)]
    #[nommy(trailing = "maybe")]
    t: Vec<usize>,
    #[nommy(suffix = text::Tag<"aba">)]
    u: Box<R23>,
},
}
impl ToVal for R34 {
    fn to_val(self) -> Val {
        match self {
            R34::V0(elem0, elem1, elem2, elem3, elem4) => Val::Var(0, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val(), elem4.to_val()]),
            R34::V1 => Val::Var(1, vec![]),
            R34::V2 { x, y, z, w, r, s, t, u } => Val::Var(2, vec![x.to_val(), y.to_val(), z.to_val(), w.to_val(), r.to_val(), s.to_val(), t.to_val(), u.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::OneOf<"bc">)]
#[nommy(suffix = text::Tag<"aab">)]
pub enum R35 {
    #[nommy(prefix = text::Tag<"aba">)]
    #[nommy(suffix = text::WhileNot1<",;">)]
    V0,
}
impl ToVal for R35 {
    fn to_val(self) -> Val {
        match self {
            R35::V0 => Val::Var(0, vec![]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = text::WhileNot1<"-a">, ignore = [text::AnyOf1<"aé">; 2])]
pub enum R36<A, B> {
    V0(
    #[nommy(suffix = text::Tag<"c">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    Small,
    #[nommy(parser = text::OneOf<"abX">)]
    NoX,
),
    V1(
    #[nommy(inner_parser = A)]
    Vec<A>,
    Option<text::Tag<"\n">>,
    Option<text::OneOf<"0123456789">>,
),
    V2(
    #[nommy(prefix = text::Tag<"aab">, suffix = text::Tag<"c">)]
    B,
    #[nommy(prefix = text::Tag<"aab">)]
    #[nommy(parser = text::OneOf<"abX">)]
    NoX,
    #[nommy(parser = text::OneOf<"ab">)]
    char,
    #[nommy(inner_parser = text::WhiteSpace, seperated_by = text::OneOf<"aé">, trailing = "maybe")]
    Vec<text::WhiteSpace>,
),
}
impl<A: ToVal, B: ToVal> ToVal for R36<A, B> {
    fn to_val(self) -> Val {
        match self {
            R36::V0(elem0, elem1) => Val::Var(0, vec![elem0.to_val(), elem1.to_val()]),
            R36::V1(elem0, elem1, elem2) => Val::Var(1, vec![elem0.to_val(), elem1.to_val(), elem2.to_val()]),
            R36::V2(elem0, elem1, elem2, elem3) => Val::Var(2, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
pub enum R37 {
    V0 {
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    x: usize,
    y: LenPre,
},
    #[nommy(ignore = text::Tag<"aab">)]
    #[nommy(prefix = text::OneOf<",;">)]
    V1 {
    x: Vec<text::LineEnding>,
    #[nommy(suffix = text::Tag<"aa">)]
    y: Vec<text::Tag<")">>,
},
    #[nommy(prefix = text::Tag<"--">)]
    V2,
    #[nommy(prefix = text::Tag<"ba">, suffix = text::Tag<"aa">)]
    V3,
}
impl ToVal for R37 {
    fn to_val(self) -> Val {
        match self {
            R37::V0 { x, y } => Val::Var(0, vec![x.to_val(), y.to_val()]),
            R37::V1 { x, y } => Val::Var(1, vec![x.to_val(), y.to_val()]),
            R37::V2 => Val::Var(2, vec![]),
            R37::V3 => Val::Var(3, vec![]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(suffix = text::Tag<"-">)]
pub struct R38 {
    pub x: Vec1<text::AnyOf1<"bc">>,
}
impl ToVal for R38 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char, suffix = R38)]
pub enum R39 {
    #[nommy(prefix = text::Tag<"-">)]
    #[nommy(suffix = text::Tag<")">)]
    V0(
    Box<R39>,
),
    #[nommy(prefix = text::Tag<"-">)]
    V1(
    text::Tag<")">,
    #[nommy(inner_parser = text::Tag<"a">)]
    #[nommy(seperated_by = text::WhileNot1<"ab">)]
    Vec<text::Tag<"a">>,
),
    #[nommy(prefix = text::Tag<"a">)]
    V2(
    #[nommy(suffix = text::Tag<"a">)]
    Vec<LenPre>,
    #[nommy(inner_parser = text::Tag<")">)]
    Vec<text::Tag<")">>,
),
}
impl ToVal for R39 {
    fn to_val(self) -> Val {
        match self {
            R39::V0(elem0) => Val::Var(0, vec![elem0.to_val()]),
            R39::V1(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
            R39::V2(elem0, elem1) => Val::Var(2, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
pub enum R40 {
    V0 {
    #[nommy(parser = text::OneOf<"abX">)]
    x: NoX,
    #[nommy(suffix = R12, parser = text::WhileNot1<"-a">)]
    y: String,
    #[nommy(inner_parser = text::WhileNot1<"ab">)]
    #[nommy(seperated_by = text::Tag<")">)]
    #[nommy(trailing = "no")]
    z: Vec<text::WhileNot1<"ab">>,
    #[nommy(prefix = text::Tag<")">)]
    #[nommy(inner_parser = text::WhileNot1<"é√">)]
    #[nommy(seperated_by = text::Tag<")">)]
    #[nommy(trailing = "maybe")]
    w: Vec<String>,
    #[nommy(prefix = text::Tag<"c">, suffix = text::Tag<"é">)]
    r: Lst<LenPre, LenPre, Never, Never, {usize::MAX}, 0>,
},
    #[nommy(prefix = Box<R31>)]
    V1 {
    #[nommy(prefix = text::Tag<"é">)]
    x: text::AnyOf<"zbya√xc,() ">,
},
    #[nommy(ignore = text::WhileNot1<"-a">)]
    V2 {
    #[nommy(prefix = text::Tag<"ba">)]
    #[nommy(suffix = text::Tag<"\n">)]
    x: text::AnyOf1<"a">,
    #[nommy(prefix = text::Tag<"é">)]
    #[nommy(suffix = text::Tag<"c">)]
    y: [Quoted; 2],
},
}
impl ToVal for R40 {
    fn to_val(self) -> Val {
        match self {
            R40::V0 { x, y, z, w, r } => Val::Var(0, vec![x.to_val(), y.to_val(), z.to_val(), w.to_val(), r.to_val()]),
            R40::V1 { x } => Val::Var(1, vec![x.to_val()]),
            R40::V2 { x, y } => Val::Var(2, vec![x.to_val(), y.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(suffix = text::Tag<"aab">)]
pub enum R41<A> {
    #[nommy(suffix = text::Tag<"(">)]
    V0 {
    x: Option<text::Tag<"(">>,
},
    V1(
    #[nommy(suffix = text::Tag<"ba">)]
    R18,
    #[nommy(prefix = text::Tag<"ba">)]
    Box<R22>,
),
    V2(
    #[nommy(prefix = text::Tag<"(">)]
    #[nommy(inner_parser = text::Tag<"√é">)]
    #[nommy(seperated_by = AnyEl)]
    #[nommy(trailing = "no")]
    Vec<text::Tag<"√é">>,
    text::Tag<"b">,
    #[nommy(inner_parser = text::AnyOf1<"0123456789">, seperated_by = text::Tag<";">, trailing = "maybe")]
    Vec<Small>,
    #[nommy(prefix = text::Tag<"(">)]
    #[nommy(parser = text::WhileNot1<"aé">)]
    String,
    A,
    #[nommy(suffix = text::Tag<"ba">, inner_parser = text::AnyOf1<"0123456789">, seperated_by = Quoted, trailing = "yes")]
    Vec<usize>,
    #[nommy(prefix = text::Tag<"c">)]
    #[nommy(inner_parser = text::WhileNot1<",;">)]
    #[nommy(seperated_by = A)]
    #[nommy(trailing = "no")]
    Vec<text::WhileNot1<",;">>,
    #[nommy(prefix = text::Tag<"aba">)]
    #[nommy(inner_parser = A)]
    Vec<A>,
),
    #[nommy(suffix = text::Tag<"b">)]
    V3(
    R36<Num, text::LineEnding>,
),
}
impl<A: ToVal> ToVal for R41<A> {
    fn to_val(self) -> Val {
        match self {
            R41::V0 { x } => Val::Var(0, vec![x.to_val()]),
            R41::V1(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
            R41::V2(elem0, elem1, elem2, elem3, elem4, elem5, elem6, elem7) => Val::Var(2, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val(), elem4.to_val(), elem5.to_val(), elem6.to_val(), elem7.to_val()]),
            R41::V3(elem0) => Val::Var(3, vec![elem0.to_val()]),
        }
    }
}

#[derive(Parse)]
pub enum R42 {
    #[nommy(prefix = text::Tag<"a">)]
    V0,
    #[nommy(prefix = text::Tag<"a">)]
    V1(
    text::AnyOf1<"-a">,
),
    #[nommy(ignore = [text::Tag<"aab">; 2], ignore = text::AnyOf1<"0123456789">, prefix = text::Tag<"ba">)]
    V2,
}
impl ToVal for R42 {
    fn to_val(self) -> Val {
        match self {
            R42::V0 => Val::Var(0, vec![]),
            R42::V1(elem0) => Val::Var(1, vec![elem0.to_val()]),
            R42::V2 => Val::Var(2, vec![]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = text::AnyOf1<"abX">)]
pub struct R43<A, B>(
    pub text::Space,
    #[nommy(prefix = text::Tag<"aab">, suffix = text::OneOf<"zbya√xc,() ">, inner_parser = text::AnyOf1<",;">, seperated_by = text::Tag<"c">, trailing = "yes")]
    pub Vec<text::AnyOf1<",;">>,
    pub A,
    #[nommy(prefix = [text::AnyOf<"bc">; 2])]
    #[nommy(suffix = text::Tag<"c">)]
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub usize,
    pub text::WhileNot1<"abX">,
    #[nommy(inner_parser = B)]
    #[nommy(seperated_by = text::Tag<"aab">)]
    #[nommy(trailing = "maybe")]
    pub Vec<B>,
    #[nommy(suffix = text::Tag<"aab">)]
    pub B,
    #[nommy(inner_parser = B)]
    pub Vec<B>,
);
impl<A: ToVal, B: ToVal> ToVal for R43<A, B> {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val(), self.4.to_val(), self.5.to_val(), self.6.to_val(), self.7.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(prefix = text::Tag<"aa">)]
#[nommy(suffix = text::Tag<"c">)]
pub enum R44 {
    #[nommy(prefix = text::Tag<")">)]
    V0,
    #[nommy(prefix = text::Tag<"b">)]
    V1,
    V2 {
    #[nommy(suffix = text::Tag<"aa">)]
    x: text::Tag<")">,
    #[nommy(suffix = text::Tag<"aa">, parser = text::AnyOf1<"0123456789">)]
    y: Small,
    #[nommy(suffix = text::Tag<"aa">)]
    #[nommy(inner_parser = text::AnyOf1<"0123456789">)]
    #[nommy(seperated_by = text::Tag<"\n">)]
    z: Vec<usize>,
    w: Option<text::Tag<"-">>,
    r: text::Tag<")">,
    #[nommy(prefix = Vec<text::OneOf<",;">>)]
    #[nommy(suffix = text::Tag<"aa">)]
    s: R21,
    #[nommy(suffix = text::Tag<"aab">)]
    t: text::Tag<"ab">,
    #[nommy(prefix = text::Tag<"c">)]
    u: Vec<text::Tag<"ba">>,
    #[nommy(prefix = text::Tag<"Ab">)]
    #[nommy(inner_parser = text::AnyOf1<"0123456789">)]
    v: Vec<usize>,
    m: text::AnyOf<",;">,
    #[nommy(prefix = text::Tag<"aa">, parser = text::AnyOf1<"-a">)]
    n: String,
    #[nommy(parser = text::OneOf<"é√">)]
    o: char,
},
    V3 {
    #[nommy(suffix = text::Tag<"ba">, parser = text::AnyOf1<"0123456789">)]
    x: usize,
},
}
impl ToVal for R44 {
    fn to_val(self) -> Val {
        match self {
            R44::V0 => Val::Var(0, vec![]),
            R44::V1 => Val::Var(1, vec![]),
            R44::V2 { x, y, z, w, r, s, t, u, v, m, n, o } => Val::Var(2, vec![x.to_val(), y.to_val(), z.to_val(), w.to_val(), r.to_val(), s.to_val(), t.to_val(), u.to_val(), v.to_val(), m.to_val(), n.to_val(), o.to_val()]),
            R44::V3 { x } => Val::Var(3, vec![x.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = Num)]
pub struct R45 {
    pub x: [text::Tag<"-">; 3],
}
impl ToVal for R45 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::OneOf<"a">, prefix = text::Tag<"c">)]
pub struct R46;
impl ToVal for R46 {
    fn to_val(self) -> Val {
        Val::Rec(vec![])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::OneOf<"abX">)]
pub enum R47 {
    #[nommy(prefix = text::Tag<"--">)]
    V0 {
    x: Lst<text::Space, text::Space, text::Tag<"--">, Never, {1}, 2>,
},
}
impl ToVal for R47 {
    fn to_val(self) -> Val {
        match self {
            R47::V0 { x } => Val::Var(0, vec![x.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
pub enum R48 {
    V0 {
    #[nommy(prefix = text::Tag<";">)]
    x: text::OneOf<"bc">,
    y: R41<text::AnyOf1<"0123456789">>,
    #[nommy(prefix = text::Tag<";">)]
    #[nommy(parser = text::OneOf<"zbya√xc,() ">)]
    z: char,
},
    #[nommy(prefix = text::Tag<"√é">)]
    V1,
    #[nommy(prefix = text::Tag<"aé">)]
    V2,
}
impl ToVal for R48 {
    fn to_val(self) -> Val {
        match self {
            R48::V0 { x, y, z } => Val::Var(0, vec![x.to_val(), y.to_val(), z.to_val()]),
            R48::V1 => Val::Var(1, vec![]),
            R48::V2 => Val::Var(2, vec![]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::OneOf<"aé">)]
pub struct R49(
    pub R36<Quoted, text::Tag<"é">>,
    #[nommy(suffix = text::Tag<"c">)]
    pub text::Tag<"b">,
);
impl ToVal for R49 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val()])
    }
}

#[derive(Parse)]
pub enum R50 {
    #[nommy(suffix = text::Tag<"abca">)]
    V0 {
    #[nommy(prefix = text::Tag<"aé">)]
    x: R19,
    #[nommy(prefix = text::Tag<"aé">)]
    #[nommy(suffix = text::Tag<"Ab">)]
    y: Vec1<text::OneOf<"zbya√xc,() ">>,
    #[nommy(parser = text::WhileNot1<"abX">)]
    z: String,
    w: Option<text::Tag<"√é">>,
},
    #[nommy(prefix = text::Tag<"√é">)]
    V1,
    V2 {
    #[nommy(inner_parser = text::OneOf<"abX">)]
    #[nommy(seperated_by = text::AnyOf1<"-a">)]
    #[nommy(trailing = "yes")]
    x: Vec<char>,
},
}
impl ToVal for R50 {
    fn to_val(self) -> Val {
        match self {
            R50::V0 { x, y, z, w } => Val::Var(0, vec![x.to_val(), y.to_val(), z.to_val(), w.to_val()]),
            R50::V1 => Val::Var(1, vec![]),
            R50::V2 { x } => Val::Var(2, vec![x.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Tag<";">)]
#[nommy(prefix = text::Tag<";">)]
#[nommy(suffix = text::Tag<"é">)]
pub struct R51 {
    pub x: text::Tag<";">,
}
impl ToVal for R51 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val()])
    }
}

pub type AlRchar0 = Lst<text::Tag<";">, text::Tag<";">, text::Tag<" ">, text::Tag<"--">, {usize::MAX}, 3>;
#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::AnyOf1<"0123456789">)]
pub enum R52 {
    #[nommy(prefix = text::Tag<";">)]
    V0(
    Box<R52>,
),
    #[nommy(ignore = text::AnyOf1<"é√">)]
    #[nommy(ignore = text::WhileNot1<"é√">)]
    #[nommy(suffix = R7)]
    V1(
    #[nommy(suffix = text::Tag<";">)]
    #[nommy(inner_parser = text::OneOf<"bc">)]
    #[nommy(seperated_by = text::AnyOf1<"zbya√xc,() ">)]
    #[nommy(trailing = "no")]
    Vec<text::OneOf<"bc">>,
    #[nommy(parser = text::AnyOf1<"bc">)]
    String,
),
    #[nommy(suffix = text::Tag<";">)]
    V2 {
    x: text::WhileNot1<"abX">,
    y: text::Tag<"--">,
    #[nommy(inner_parser = text::Tag<" ">)]
    #[nommy(seperated_by = text::AnyOf1<"zbya√xc,() ">)]
    #[nommy(trailing = "yes")]
    z: Vec<text::Tag<" ">>,
    w: text::Tag<"aba">,
    r: Option<text::OneOf<"zbya√xc,() ">>,
    s: [text::Tag<"(">; 3],
    #[nommy(suffix = text::Tag<"(">)]
    #[nommy(parser = text::WhileNot1<"ab">)]
    t: String,
    #[nommy(prefix = text::Tag<"--">, parser = text::AnyOf1<",;">)]
    u: String,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    v: Small,
    #[nommy(parser = text::OneOf<"ab">)]
    m: char,
    #[nommy(prefix = AlRchar0)]
    n: [Num; 2],
    #[nommy(suffix = text::Tag<"a">)]
    #[nommy(inner_parser = text::OneOf<"0123456789">)]
    #[nommy(seperated_by = Num)]
    #[nommy(trailing = "yes")]
    o: Vec<char>,
},
}
impl ToVal for R52 {
    fn to_val(self) -> Val {
        match self {
            R52::V0(elem0) => Val::Var(0, vec![elem0.to_val()]),
            R52::V1(elem0, elem1) => Val::Var(1, vec![elem0.to_val(), elem1.to_val()]),
            R52::V2 { x, y, z, w, r, s, t, u, v, m, n, o } => Val::Var(2, vec![x.to_val(), y.to_val(), z.to_val(), w.to_val(), r.to_val(), s.to_val(), t.to_val(), u.to_val(), v.to_val(), m.to_val(), n.to_val(), o.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct R53(
    #[nommy(parser = text::OneOf<"abX">)]
    pub NoX,
    #[nommy(inner_parser = R51)]
    pub Vec<R51>,
    #[nommy(prefix = text::Tag<"\n">)]
    #[nommy(suffix = text::Tag<" ">)]
    #[nommy(parser = text::OneOf<"abX">)]
    pub NoX,
    pub text::Tag<" ">,
    #[nommy(prefix = text::Tag<"é">)]
    #[nommy(parser = text::OneOf<"abX">)]
    pub NoX,
    #[nommy(inner_parser = text::WhileNot1<"zbya√xc,() ">)]
    #[nommy(seperated_by = text::AnyOf1<"aé">)]
    #[nommy(trailing = "yes")]
    pub Vec<String>,
    pub text::OneOf<"0123456789">,
    #[nommy(suffix = Vec<text::AnyOf1<",;">>)]
    pub Option<R11>,
);
impl ToVal for R53 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val(), self.4.to_val(), self.5.to_val(), self.6.to_val(), self.7.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(suffix = text::Tag<"(">)]
pub struct R54 {
    #[nommy(prefix = text::Tag<" ">)]
    pub x: [text::LineEnding; 3],
    #[nommy(suffix = text::Tag<";">)]
    pub y: R8,
    pub z: Vec<text::Tag<"abca">>,
    #[nommy(inner_parser = [text::Tag<" ">; 1], seperated_by = text::Tag<"ab">, trailing = "yes")]
    pub w: Vec<[text::Tag<" ">; 1]>,
    #[nommy(prefix = text::Tag<"√é">)]
    pub r: Lst<[text::WhiteSpace; 2], [text::WhiteSpace; 2], text::Tag<" ">, text::Tag<" ">, {3}, 3>,
    #[nommy(prefix = text::Tag<" ">)]
    pub s: text::Tag<",">,
    #[nommy(prefix = text::Tag<"-">, suffix = text::Tag<"aab">, inner_parser = Num, seperated_by = text::LineEnding, trailing = "maybe")]
    pub t: Vec<Num>,
    #[nommy(prefix = text::WhiteSpace)]
    #[nommy(suffix = text::Tag<"é">)]
    #[nommy(inner_parser = text::Tag<"a">)]
    #[nommy(seperated_by = text::AnyOf1<"zbya√xc,() ">)]
    #[nommy(trailing = "maybe")]
    pub u: Vec<text::Tag<"a">>,
}
impl ToVal for R54 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.x.to_val(), self.y.to_val(), self.z.to_val(), self.w.to_val(), self.r.to_val(), self.s.to_val(), self.t.to_val(), self.u.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::AnyOf1<"é√">)]
#[nommy(ignore = text::OneOf<"ab">)]
pub enum R55 {
    #[nommy(prefix = text::Tag<"aab">)]
    V0 {
    x: Option<text::Tag<"\n">>,
    #[nommy(prefix = text::Tag<"\n">)]
    #[nommy(suffix = text::Tag<"\n">)]
    y: R34,
},
    V1(
    #[nommy(prefix = text::Tag<"\n">)]
    #[nommy(inner_parser = text::OneOf<"-a">)]
    #[nommy(seperated_by = text::Tag<"ba">)]
    #[nommy(trailing = "maybe")]
    Vec<char>,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    usize,
    #[nommy(suffix = text::OneOf<"abX">)]
    text::Tag<",">,
    text::Tag<"ba">,
),
    V2(
    text::Tag<"aab">,
    #[nommy(prefix = text::Tag<"\n">)]
    #[nommy(parser = text::AnyOf1<"zbya√xc,() ">)]
    String,
),
}
impl ToVal for R55 {
    fn to_val(self) -> Val {
        match self {
            R55::V0 { x, y } => Val::Var(0, vec![x.to_val(), y.to_val()]),
            R55::V1(elem0, elem1, elem2, elem3) => Val::Var(1, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val()]),
            R55::V2(elem0, elem1) => Val::Var(2, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
pub enum R56 {
    #[nommy(prefix = text::OneOf<"ab">, suffix = text::Tag<"√é">)]
    V0(
    text::AnyOf<"aé">,
),
    V1(
    #[nommy(suffix = text::Tag<"√é">)]
    text::Tag<"aé">,
    #[nommy(prefix = text::Tag<" ">)]
    #[nommy(inner_parser = text::AnyOf1<"0123456789">)]
    #[nommy(seperated_by = text::Tag<";">)]
    #[nommy(trailing = "no")]
    Vec<Small>,
    Vec<text::AnyOf1<"é√">>,
    #[nommy(inner_parser = text::OneOf<"é√">, seperated_by = text::OneOf<"a">, trailing = "maybe")]
    Vec<char>,
    #[nommy(inner_parser = text::OneOf<"é√">)]
    #[nommy(seperated_by = text::LineEnding)]
    #[nommy(trailing = "no")]
    Vec<char>,
    #[nommy(suffix = text::Tag<"aé">)]
    R9,
    #[nommy(inner_parser = text::AnyOf1<"0123456789">, seperated_by = text::OneOf<"zbya√xc,() ">, trailing = "yes")]
    Vec<usize>,
    #[nommy(inner_parser = text::LineEnding)]
    #[nommy(seperated_by = text::Tag<"ab">)]
    #[nommy(trailing = "yes")]
    Vec<text::LineEnding>,
    #[nommy(prefix = text::Tag<"ab">)]
    R48,
    #[nommy(suffix = text::Tag<"aé">)]
    text::OneOf<"0123456789">,
    #[nommy(inner_parser = R27)]
    #[nommy(seperated_by = text::LineEnding)]
    #[nommy(trailing = "maybe")]
    Vec<R27>,
    Vec<Quoted>,
),
    #[nommy(ignore = LenPre, ignore = Vec1<text::OneOf<"ab">>, prefix = text::Tag<"\n">)]
    V2(
    #[nommy(suffix = text::Tag<"é">)]
    #[nommy(parser = text::AnyOf1<"aé">)]
    String,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    Small,
    Vec<text::AnyOf1<",;">>,
    text::AnyOf<"-a">,
    LenPre,
),
    #[nommy(prefix = text::Tag<"(">)]
    V3(
    #[nommy(prefix = text::Tag<"aé">)]
    #[nommy(suffix = text::Tag<"aab">)]
    text::AnyOf1<"0123456789">,
    #[nommy(prefix = text::Tag<"aé">)]
    Num,
),
}
impl ToVal for R56 {
    fn to_val(self) -> Val {
        match self {
            R56::V0(elem0) => Val::Var(0, vec![elem0.to_val()]),
            R56::V1(elem0, elem1, elem2, elem3, elem4, elem5, elem6, elem7, elem8, elem9, elem10, elem11) => Val::Var(1, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val(), elem4.to_val(), elem5.to_val(), elem6.to_val(), elem7.to_val(), elem8.to_val(), elem9.to_val(), elem10.to_val(), elem11.to_val()]),
            R56::V2(elem0, elem1, elem2, elem3, elem4) => Val::Var(2, vec![elem0.to_val(), elem1.to_val(), elem2.to_val(), elem3.to_val(), elem4.to_val()]),
            R56::V3(elem0, elem1) => Val::Var(3, vec![elem0.to_val(), elem1.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(ignore = text::OneOf<"0123456789">)]
pub struct R57(
    #[nommy(prefix = text::Tag<"b">)]
    #[nommy(inner_parser = text::OneOf<"é√">)]
    #[nommy(seperated_by = text::Tag<",">)]
    pub Vec<char>,
);
impl ToVal for R57 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = text::OneOf<",;">)]
pub struct R58(
    #[nommy(inner_parser = text::OneOf<"é√">, seperated_by = text::OneOf<",;">, trailing = "no")]
    pub Vec<char>,
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub usize,
    #[nommy(suffix = text::Tag<"(">)]
    #[nommy(inner_parser = text::OneOf<"abX">)]
    #[nommy(seperated_by = text::Space)]
    #[nommy(trailing = "maybe")]
    pub Vec<NoX>,
);
impl ToVal for R58 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()])
    }
}

#[derive(Parse)]
#[nommy(ignore = text::Space, ignore = text::Tag<";">)]
pub struct R59(
    #[nommy(parser = text::AnyOf1<"0123456789">)]
    pub Small,
    pub R16,
    #[nommy(prefix = text::Tag<"é">)]
    pub R37,
);
impl ToVal for R59 {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()])
    }
}

pub fn defs() -> Vec<Def> {
    vec![
        Def { name: "R0", attrs: Attrs { ignore: vec![any1("a"), G::Number], prefix: Some(any1("bc")), suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: Some(tag("(")), body: Body::Plain(tag("("), Cv::No) }, Field { name: "elem1", prefix: Some(tag("ab")), suffix: None, body: Body::Plain(tag(")"), Cv::No) }]) },
        Def { name: "R1", attrs: Attrs { ignore: vec![G::Quoted, any1("é√")], prefix: Some(tag("aba")), suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: Some(tag(",")), suffix: Some(tag("ab")), body: Body::Plain(any1("0123456789"), Cv::Usize) }] }, Variant { name: "V1", what: "struct variant", attrs: Attrs { ignore: vec![tag(",")], prefix: None, suffix: Some(any1("ab")) }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(G::Quoted, Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("aab")), suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(G::Ty(0)), suffix: Some(tag("-")), body: Body::Plain(vec1(any1("bc")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: Some(tag(",")), body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(one("é√"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: Some(tag("\n")), body: Body::List { g: not1("aé"), cv: Cv::No, sep: Some(tag("a")), trailing: Tr::No } }, Field { name: "elem4", prefix: None, suffix: Some(tag("-")), body: Body::Plain(G::Ty(0), Cv::No) }] }, Variant { name: "V3", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("--")), suffix: None }, fields: vec![] }, Variant { name: "V4", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("-")), suffix: Some(bx(G::Ty(0))) }, fields: vec![] }, Variant { name: "V5", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("a")), suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: Some(tag("aé")), body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(one(",;"), Cv::No) }, Field { name: "z", prefix: None, suffix: Some(opt(tag("-"))), body: Body::List { g: one("-a"), cv: Cv::No, sep: None, trailing: Tr::No } }] }, Variant { name: "V6", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("--")), suffix: None }, fields: vec![] }]) },
        Def { name: "R2", attrs: Attrs { ignore: vec![tag("Ab")], prefix: None, suffix: Some(tag("b")) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![tag("aa"), one("bc")], prefix: Some(tag("aa")), suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: Some(tag("a")), body: Body::Plain(vec_(not1("-a")), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![tag(","), tag("ab")], prefix: Some(tag(" ")), suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag("ab")), suffix: None, body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("a"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(arr(tag(" "), 1), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(tag("--"), Cv::No) }] }, Variant { name: "V2", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag(" ")), suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(tag("a"), Cv::No) }, Field { name: "y", prefix: Some(tag("(")), suffix: None, body: Body::Plain(bx(G::Ty(1)), Cv::No) }, Field { name: "z", prefix: Some(G::WhiteSpace), suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "w", prefix: None, suffix: Some(tag("aba")), body: Body::Plain(opt(not1("zbya√xc,() ")), Cv::No) }, Field { name: "r", prefix: None, suffix: None, body: Body::List { g: tag(","), cv: Cv::No, sep: None, trailing: Tr::No } }] }, Variant { name: "V3", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("\n")), suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "y", prefix: Some(tag(" ")), suffix: None, body: Body::Plain(G::Ty(1), Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::List { g: arr(tag("c"), 2), cv: Cv::No, sep: Some(G::Quoted), trailing: Tr::Yes } }] }, Variant { name: "V4", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(tag(";"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(vec_(tag("(")), Cv::No) }] }, Variant { name: "V5", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("é")), suffix: Some(tag("aa")) }, fields: vec![] }, Variant { name: "V6", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: G::Ty(1), cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "elem1", prefix: Some(tag("Ab")), suffix: None, body: Body::List { g: tag("--"), cv: Cv::No, sep: Some(any1("é√")), trailing: Tr::No } }] }]) },
        Def { name: "R3", attrs: Attrs { ignore: vec![G::LenPre], prefix: Some(tag("b")), suffix: None }, kind: Kind::Struct(vec![]) },
        Def { name: "R4", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag(",")), suffix: None, body: Body::Plain(tag(","), Cv::No) }] }, Variant { name: "V1", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("ab")) }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(not1("bc"), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(vec_(one("-a"))) }, fields: vec![Field { name: "elem0", prefix: Some(tag("aé")), suffix: Some(vec_(tag(","))), body: Body::Plain(tag("("), Cv::No) }] }]) },
        Def { name: "R5", attrs: Attrs { ignore: vec![any1("aé")], prefix: Some(tag("é")), suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Small, sep: Some(tag("ba")), trailing: Tr::Yes } }]) },
        Def { name: "R6", attrs: Attrs { ignore: vec![], prefix: Some(tag(",")), suffix: Some(tag(";")) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "unit variant", attrs: Attrs { ignore: vec![any1("-a")], prefix: Some(tag(")")), suffix: None }, fields: vec![] }, Variant { name: "V1", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("aa")), suffix: Some(tag("aa")) }, fields: vec![] }]) },
        Def { name: "R7", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![tag("-")], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "elem1", prefix: Some(tag("é")), suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Small, sep: Some(any1("ab")), trailing: Tr::No } }, Field { name: "elem2", prefix: None, suffix: None, body: Body::List { g: tag("c"), cv: Cv::No, sep: Some(one("0123456789")), trailing: Tr::No } }, Field { name: "elem3", prefix: None, suffix: None, body: Body::List { g: G::Ty(4), cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "elem4", prefix: Some(tag("b")), suffix: Some(tag("é")), body: Body::Plain(vec_(one("aé")), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag(")")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(G::AnyEl), Cv::No) }] }, Variant { name: "V2", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("-")), suffix: Some(tag("\n")) }, fields: vec![] }]) },
        Def { name: "R8", attrs: Attrs { ignore: vec![], prefix: Some(tag("-")), suffix: Some(tag("-")) }, kind: Kind::Struct(vec![]) },
        Def { name: "R9", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(one("a")) }, fields: vec![Field { name: "x", prefix: Some(tag("\n")), suffix: None, body: Body::Plain(opt(one(",;")), Cv::No) }] }, Variant { name: "V1", what: "struct variant", attrs: Attrs { ignore: vec![G::AnyEl, one("bc")], prefix: None, suffix: Some(tag("(")) }, fields: vec![Field { name: "x", prefix: Some(tag("\n")), suffix: None, body: Body::Plain(tag("\n"), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::List { g: bx(G::AnyEl), cv: Cv::No, sep: Some(not1("0123456789")), trailing: Tr::Maybe } }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(tag("\n"), Cv::No) }] }, Variant { name: "V2", what: "struct variant", attrs: Attrs { ignore: vec![one("bc")], prefix: None, suffix: Some(tag("√é")) }, fields: vec![Field { name: "x", prefix: None, suffix: Some(tag("aab")), body: Body::List { g: G::Ty(1), cv: Cv::No, sep: Some(not1("é√")), trailing: Tr::No } }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(G::Ty(0), Cv::No) }, Field { name: "z", prefix: Some(tag("c")), suffix: None, body: Body::Plain(opt(G::Quoted), Cv::No) }, Field { name: "w", prefix: None, suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }] }]) },
        Def { name: "R10", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: Some(tag("c")), body: Body::Plain(opt(tag("c")), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![any1("0123456789"), tag(" ")], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: Some(not1("a")), trailing: Tr::Yes } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(any("bc"), Cv::No) }] }, Variant { name: "V2", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: Some(tag("c")), suffix: None, body: Body::List { g: not1("-a"), cv: Cv::No, sep: Some(any1("-a")), trailing: Tr::Maybe } }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }] }, Variant { name: "V3", what: "struct variant", attrs: Attrs { ignore: vec![tag("--")], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: Some(tag("c")), suffix: Some(G::WhiteSpace), body: Body::List { g: tag(")"), cv: Cv::No, sep: Some(any1("zbya√xc,() ")), trailing: Tr::Maybe } }, Field { name: "y", prefix: None, suffix: Some(tag("aa")), body: Body::Plain(opt(any1("0123456789")), Cv::No) }, Field { name: "z", prefix: None, suffix: Some(tag("c")), body: Body::Plain(any1("0123456789"), Cv::Usize) }] }]) },
        Def { name: "R11", attrs: Attrs { ignore: vec![any1("-a"), tag(")")], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("ba")), suffix: None }, fields: vec![] }, Variant { name: "V1", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag(")")), suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(tag("√é"), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(arr(tag("aba"), 2)), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("c")), body: Body::Plain(tag("aa"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }] }, Variant { name: "V3", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec_(not1("0123456789")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("c"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::List { g: any1("aé"), cv: Cv::No, sep: None, trailing: Tr::No } }] }]) },
        Def { name: "R12", attrs: Attrs { ignore: vec![tag(";")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: Some(tag("ab")), suffix: None, body: Body::Plain(any("abX"), Cv::No) }, Field { name: "y", prefix: None, suffix: Some(tag("\n")), body: Body::List { g: G::Ty(7), cv: Cv::No, sep: Some(tag("\n")), trailing: Tr::Maybe } }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(one("0123456789"), Cv::No) }]) },
        Def { name: "R13", attrs: Attrs { ignore: vec![], prefix: Some(vec1(tag("a"))), suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: Some(tag("abca")), body: Body::Plain(tag("abca"), Cv::No) }, Field { name: "y", prefix: None, suffix: Some(tag("a")), body: Body::Plain(G::Ty(10), Cv::No) }, Field { name: "z", prefix: None, suffix: Some(tag("√é")), body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "w", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: Some(G::WhiteSpace), trailing: Tr::Maybe } }]) },
        Def { name: "R14", attrs: Attrs { ignore: vec![tag("\n")], prefix: Some(tag("--")), suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: None, body: Body::List { g: tag("aé"), cv: Cv::No, sep: None, trailing: Tr::No } }]) },
        Def { name: "R15", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any("0123456789"), Cv::No) }]) },
        Def { name: "R16", attrs: Attrs { ignore: vec![one("bc")], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("aé")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(one("0123456789")), body: Body::List { g: bx(tag("aé")), cv: Cv::No, sep: Some(G::LineEnding), trailing: Tr::Maybe } }, Field { name: "elem1", prefix: Some(tag(")")), suffix: None, body: Body::List { g: tag("Ab"), cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(vec1(not1("zbya√xc,() ")), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Small, sep: Some(tag("c")), trailing: Tr::Yes } }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(any("0123456789"), Cv::No) }, Field { name: "elem5", prefix: None, suffix: Some(one("aé")), body: Body::Plain(G::Ty(4), Cv::No) }, Field { name: "elem6", prefix: None, suffix: None, body: Body::List { g: bx(tag("b")), cv: Cv::No, sep: Some(tag("Ab")), trailing: Tr::Maybe } }, Field { name: "elem7", prefix: Some(tag("(")), suffix: None, body: Body::Plain(G::Ty(13), Cv::No) }, Field { name: "elem8", prefix: None, suffix: None, body: Body::List { g: arr(any1("zbya√xc,() "), 2), cv: Cv::No, sep: Some(tag("-")), trailing: Tr::No } }, Field { name: "elem9", prefix: None, suffix: Some(tag("abca")), body: Body::Plain(one("abX"), Cv::NotX) }, Field { name: "elem10", prefix: Some(tag("b")), suffix: None, body: Body::List { g: G::Number, cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "elem11", prefix: None, suffix: None, body: Body::Plain(arr(any1("ab"), 2), Cv::No) }] }, Variant { name: "V1", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag(",")), suffix: None }, fields: vec![] }, Variant { name: "V2", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("b")), suffix: None }, fields: vec![] }]) },
        Def { name: "R17", attrs: Attrs { ignore: vec![bx(any1("abX"))], prefix: Some(tag("é")), suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(vec_(one("zbya√xc,() "))), suffix: None, body: Body::Plain(not1("0123456789"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(arr(opt(tag("é")), 3), Cv::No) }]) },
        Def { name: "R18", attrs: Attrs { ignore: vec![G::Ty(17), one("0123456789")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: Some(one("-a")), suffix: None, body: Body::List { g: tag("ab"), cv: Cv::No, sep: Some(tag("-")), trailing: Tr::Yes } }]) },
        Def { name: "R19", attrs: Attrs { ignore: vec![], prefix: Some(tag("Ab")), suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: Some(tag("--")), body: Body::Plain(G::LenPre, Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(not1("ab"), Cv::No) }, Field { name: "elem2", prefix: Some(tag("(")), suffix: None, body: Body::List { g: one("abX"), cv: Cv::NotX, sep: Some(any1("zbya√xc,() ")), trailing: Tr::Yes } }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(2)), Cv::No) }]) },
        Def { name: "R20", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("√é")), suffix: Some(tag("aab")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(opt(bx(G::Ty(20))), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![vec1(one("é√")), not1("abX")], prefix: None, suffix: Some(tag(";")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "elem1", prefix: None, suffix: Some(tag(" ")), body: Body::Plain(not1("a"), Cv::No) }, Field { name: "elem2", prefix: Some(tag("c")), suffix: None, body: Body::List { g: one("abX"), cv: Cv::NotX, sep: Some(any1("aé")), trailing: Tr::No } }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(vec1(tag("aab")), Cv::No) }] }]) },
        Def { name: "R21", attrs: Attrs { ignore: vec![any1("abX")], prefix: Some(tag("c")), suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: Some(tag("Ab")), body: Body::Plain(opt(tag("ab")), Cv::No) }, Field { name: "y", prefix: None, suffix: Some(tag("ab")), body: Body::List { g: one("abX"), cv: Cv::NotX, sep: Some(G::WhiteSpace), trailing: Tr::No } }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Quoted, Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("Ab"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: Some(tag(";")), body: Body::List { g: one("abX"), cv: Cv::NotX, sep: Some(tag("aa")), trailing: Tr::Yes } }, Field { name: "elem3", prefix: Some(tag("--")), suffix: Some(tag("--")), body: Body::List { g: tag("aa"), cv: Cv::No, sep: Some(one("aé")), trailing: Tr::Maybe } }] }]) },
        Def { name: "R22", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "unit variant", attrs: Attrs { ignore: vec![G::LineEnding], prefix: Some(tag("a")), suffix: None }, fields: vec![] }, Variant { name: "V1", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("√é")), suffix: Some(tag("a")) }, fields: vec![] }]) },
        Def { name: "R23", attrs: Attrs { ignore: vec![G::Number], prefix: None, suffix: Some(tag("-")) }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(any(",;")), suffix: None, body: Body::Plain(lst(one("aé"), Cv::No, Some(G::Quoted), Tr::No, vec![one("ab")], 1), Cv::No) }, Field { name: "elem1", prefix: Some(tag("é")), suffix: None, body: Body::Plain(G::Ty(19), Cv::No) }]) },
        Def { name: "R24", attrs: Attrs { ignore: vec![tag("é")], prefix: Some(tag("é")), suffix: None }, kind: Kind::Struct(vec![]) },
        Def { name: "R26", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }, Field { name: "elem1", prefix: Some(tag("√é")), suffix: Some(tag("abca")), body: Body::Plain(not1("aé"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(vec_(G::Ty(20)), Cv::No) }, Field { name: "elem3", prefix: Some(tag(" ")), suffix: Some(tag("c")), body: Body::List { g: one(",;"), cv: Cv::No, sep: None, trailing: Tr::No } }]) },
        Def { name: "R25", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("abca")) }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(tag(",")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: Some(tag(",")), body: Body::Plain(any1(",;"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(tag(","), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(opt(tag(",")), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::List { g: any1("a"), cv: Cv::No, sep: Some(not1("aé")), trailing: Tr::Maybe } }]) },
        Def { name: "R27", attrs: Attrs { ignore: vec![any1("abX")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(tag(",")), suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(G::Ty(26)), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::List { g: one(",;"), cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(opt(any1("bc")), Cv::No) }]) },
        Def { name: "R28", attrs: Attrs { ignore: vec![tag("c"), one("zbya√xc,() ")], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("√é")) }, fields: vec![Field { name: "x", prefix: Some(tag("√é")), suffix: None, body: Body::Plain(lst(G::Number, Cv::No, Some(G::WhiteSpace), Tr::Maybe, vec![], 6), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(G::Ty(29), Cv::No) }] }, Variant { name: "V1", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("√é")), suffix: None }, fields: vec![] }, Variant { name: "V2", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::List { g: one("abX"), cv: Cv::No, sep: Some(one("-a")), trailing: Tr::Maybe } }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(G::LenPre, Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(opt(one(",;")), Cv::No) }] }]) },
        Def { name: "R25", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("abca")) }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(one("a")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: Some(one("a")), body: Body::Plain(any1(",;"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(one("a"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(opt(one("a")), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::List { g: any1("a"), cv: Cv::No, sep: Some(not1("aé")), trailing: Tr::Maybe } }]) },
        Def { name: "R29", attrs: Attrs { ignore: vec![], prefix: Some(one("bc")), suffix: None }, kind: Kind::Struct(vec![]) },
        Def { name: "R25", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("abca")) }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(not1("abX")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: Some(not1("abX")), body: Body::Plain(any1(",;"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(not1("abX"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(opt(not1("abX")), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::List { g: any1("a"), cv: Cv::No, sep: Some(not1("aé")), trailing: Tr::Maybe } }]) },
        Def { name: "R30", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(tag("√é"), Cv::No) }, Field { name: "y", prefix: None, suffix: Some(tag("√é")), body: Body::List { g: one("abX"), cv: Cv::NotX, sep: None, trailing: Tr::No } }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(tag("√é"), Cv::No) }, Field { name: "w", prefix: Some(opt(G::Number)), suffix: None, body: Body::Plain(vec_(G::Ty(31)), Cv::No) }]) },
        Def { name: "R25", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("abca")) }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(one("0123456789")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: Some(one("0123456789")), body: Body::Plain(any1(",;"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(one("0123456789"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(opt(one("0123456789")), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::List { g: any1("a"), cv: Cv::No, sep: Some(not1("aé")), trailing: Tr::Maybe } }]) },
        Def { name: "R31", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(G::Ty(33)) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("-")), suffix: Some(tag("-")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(opt(bx(G::Ty(34))), Cv::No) }] }, Variant { name: "V1", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(G::Ty(28), Cv::No) }] }]) },
        Def { name: "R32", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: Some(tag("é")), suffix: None, body: Body::Plain(vec_(one("bc")), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(tag("aé"), Cv::No) }]) },
        Def { name: "R33", attrs: Attrs { ignore: vec![], prefix: Some(tag(",")), suffix: Some(tag(",")) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("-")), suffix: None }, fields: vec![] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![tag("-"), one("aé")], prefix: Some(tag("abca")), suffix: Some(tag("aé")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("aé")), body: Body::Plain(arr(G::Quoted, 3), Cv::No) }, Field { name: "elem1", prefix: Some(tag("aé")), suffix: Some(tag("aé")), body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "elem2", prefix: None, suffix: Some(one("ab")), body: Body::List { g: arr(one("zbya√xc,() "), 1), cv: Cv::No, sep: Some(one("bc")), trailing: Tr::Maybe } }, Field { name: "elem3", prefix: Some(tag("aé")), suffix: Some(tag("ba")), body: Body::Plain(one("abX"), Cv::NotX) }] }]) },
        Def { name: "R34", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Number, Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("√é"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Small, sep: Some(tag("(")), trailing: Tr::Yes } }, Field { name: "elem3", prefix: None, suffix: Some(tag("√é")), body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Small, sep: Some(any1("aé")), trailing: Tr::Yes } }] }, Variant { name: "V1", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("(")), suffix: None }, fields: vec![] }, Variant { name: "V2", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("é")) }, fields: vec![Field { name: "x", prefix: Some(vec1(tag("√é"))), suffix: Some(tag("--")), body: Body::List { g: any1("-a"), cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "y", prefix: None, suffix: None, body: Body::List { g: one("aé"), cv: Cv::No, sep: Some(tag("aba")), trailing: Tr::Maybe } }, Field { name: "z", prefix: None, suffix: None, body: Body::List { g: not1("-a"), cv: Cv::No, sep: Some(one(",;")), trailing: Tr::Yes } }, Field { name: "w", prefix: None, suffix: Some(opt(G::LenPre)), body: Body::Plain(lst(tag("a"), Cv::No, Some(one("zbya√xc,() ")), Tr::No, vec![tag("c")], 3), Cv::No) }, Field { name: "r", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(4)), Cv::No) }, Field { name: "s", prefix: None, suffix: Some(G::Ty(35)), body: Body::Plain(vec_(tag(",")), Cv::No) }, Field { name: "t", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: Some(tag("√é")), trailing: Tr::Maybe } }, Field { name: "u", prefix: None, suffix: Some(tag("aba")), body: Body::Plain(bx(G::Ty(23)), Cv::No) }] }]) },
        Def { name: "R35", attrs: Attrs { ignore: vec![one("bc")], prefix: None, suffix: Some(tag("aab")) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("aba")), suffix: Some(not1(",;")) }, fields: vec![] }]) },
        Def { name: "R25", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("abca")) }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(one("bc")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: Some(one("bc")), body: Body::Plain(any1(",;"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(one("bc"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(opt(one("bc")), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::List { g: any1("a"), cv: Cv::No, sep: Some(not1("aé")), trailing: Tr::Maybe } }]) },
        Def { name: "R37", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(G::LenPre, Cv::No) }] }, Variant { name: "V1", what: "struct variant", attrs: Attrs { ignore: vec![tag("aab")], prefix: Some(one(",;")), suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(vec_(G::LineEnding), Cv::No) }, Field { name: "y", prefix: None, suffix: Some(tag("aa")), body: Body::Plain(vec_(tag(")")), Cv::No) }] }, Variant { name: "V2", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("--")), suffix: None }, fields: vec![] }, Variant { name: "V3", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("ba")), suffix: Some(tag("aa")) }, fields: vec![] }]) },
        Def { name: "R38", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("-")) }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(vec1(any1("bc")), Cv::No) }]) },
        Def { name: "R39", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(G::Ty(41)) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("-")), suffix: Some(tag(")")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(42)), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("-")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(tag(")"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::List { g: tag("a"), cv: Cv::No, sep: Some(not1("ab")), trailing: Tr::No } }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("a")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("a")), body: Body::Plain(vec_(G::LenPre), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::List { g: tag(")"), cv: Cv::No, sep: None, trailing: Tr::No } }] }]) },
        Def { name: "R40", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }, Field { name: "y", prefix: None, suffix: Some(G::Ty(12)), body: Body::Plain(not1("-a"), Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::List { g: not1("ab"), cv: Cv::No, sep: Some(tag(")")), trailing: Tr::No } }, Field { name: "w", prefix: Some(tag(")")), suffix: None, body: Body::List { g: not1("é√"), cv: Cv::No, sep: Some(tag(")")), trailing: Tr::Maybe } }, Field { name: "r", prefix: Some(tag("c")), suffix: Some(tag("é")), body: Body::Plain(lst(G::LenPre, Cv::No, None, Tr::No, vec![], usize::MAX), Cv::No) }] }, Variant { name: "V1", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(bx(G::Ty(34))), suffix: None }, fields: vec![Field { name: "x", prefix: Some(tag("é")), suffix: None, body: Body::Plain(any("zbya√xc,() "), Cv::No) }] }, Variant { name: "V2", what: "struct variant", attrs: Attrs { ignore: vec![not1("-a")], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: Some(tag("ba")), suffix: Some(tag("\n")), body: Body::Plain(any1("a"), Cv::No) }, Field { name: "y", prefix: Some(tag("é")), suffix: Some(tag("c")), body: Body::Plain(arr(G::Quoted, 2), Cv::No) }] }]) },
        Def { name: "R36", attrs: Attrs { ignore: vec![not1("-a"), arr(any1("aé"), 2)], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("c")), body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: G::Number, cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("\n")), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(opt(one("0123456789")), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag("aab")), suffix: Some(tag("c")), body: Body::Plain(G::LineEnding, Cv::No) }, Field { name: "elem1", prefix: Some(tag("aab")), suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::List { g: G::WhiteSpace, cv: Cv::No, sep: Some(one("aé")), trailing: Tr::Maybe } }] }]) },
        Def { name: "R42", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("a")), suffix: None }, fields: vec![] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("a")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("-a"), Cv::No) }] }, Variant { name: "V2", what: "unit variant", attrs: Attrs { ignore: vec![arr(tag("aab"), 2), any1("0123456789")], prefix: Some(tag("ba")), suffix: None }, fields: vec![] }]) },
        Def { name: "R44", attrs: Attrs { ignore: vec![], prefix: Some(tag("aa")), suffix: Some(tag("c")) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag(")")), suffix: None }, fields: vec![] }, Variant { name: "V1", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("b")), suffix: None }, fields: vec![] }, Variant { name: "V2", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: Some(tag("aa")), body: Body::Plain(tag(")"), Cv::No) }, Field { name: "y", prefix: None, suffix: Some(tag("aa")), body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "z", prefix: None, suffix: Some(tag("aa")), body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: Some(tag("\n")), trailing: Tr::No } }, Field { name: "w", prefix: None, suffix: None, body: Body::Plain(opt(tag("-")), Cv::No) }, Field { name: "r", prefix: None, suffix: None, body: Body::Plain(tag(")"), Cv::No) }, Field { name: "s", prefix: Some(vec_(one(",;"))), suffix: Some(tag("aa")), body: Body::Plain(G::Ty(21), Cv::No) }, Field { name: "t", prefix: None, suffix: Some(tag("aab")), body: Body::Plain(tag("ab"), Cv::No) }, Field { name: "u", prefix: Some(tag("c")), suffix: None, body: Body::Plain(vec_(tag("ba")), Cv::No) }, Field { name: "v", prefix: Some(tag("Ab")), suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: None, trailing: Tr::No } }, Field { name: "m", prefix: None, suffix: None, body: Body::Plain(any(",;"), Cv::No) }, Field { name: "n", prefix: Some(tag("aa")), suffix: None, body: Body::Plain(any1("-a"), Cv::No) }, Field { name: "o", prefix: None, suffix: None, body: Body::Plain(one("é√"), Cv::No) }] }, Variant { name: "V3", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: Some(tag("ba")), body: Body::Plain(any1("0123456789"), Cv::Usize) }] }]) },
        Def { name: "R45", attrs: Attrs { ignore: vec![G::Number], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(arr(tag("-"), 3), Cv::No) }]) },
        Def { name: "R46", attrs: Attrs { ignore: vec![one("a")], prefix: Some(tag("c")), suffix: None }, kind: Kind::Struct(vec![]) },
        Def { name: "R47", attrs: Attrs { ignore: vec![one("abX")], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("--")), suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(lst(G::Space, Cv::No, Some(tag("--")), Tr::Yes, vec![], 1), Cv::No) }] }]) },
        Def { name: "R48", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: Some(tag(";")), suffix: None, body: Body::Plain(one("bc"), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(G::Ty(51), Cv::No) }, Field { name: "z", prefix: Some(tag(";")), suffix: None, body: Body::Plain(one("zbya√xc,() "), Cv::No) }] }, Variant { name: "V1", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("√é")), suffix: None }, fields: vec![] }, Variant { name: "V2", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("aé")), suffix: None }, fields: vec![] }]) },
        Def { name: "R41", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("aab")) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("(")) }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(opt(tag("(")), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("ba")), body: Body::Plain(G::Ty(18), Cv::No) }, Field { name: "elem1", prefix: Some(tag("ba")), suffix: None, body: Body::Plain(bx(G::Ty(22)), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag("(")), suffix: None, body: Body::List { g: tag("√é"), cv: Cv::No, sep: Some(G::AnyEl), trailing: Tr::No } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("b"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Small, sep: Some(tag(";")), trailing: Tr::Maybe } }, Field { name: "elem3", prefix: Some(tag("(")), suffix: None, body: Body::Plain(not1("aé"), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::No) }, Field { name: "elem5", prefix: None, suffix: Some(tag("ba")), body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: Some(G::Quoted), trailing: Tr::Yes } }, Field { name: "elem6", prefix: Some(tag("c")), suffix: None, body: Body::List { g: not1(",;"), cv: Cv::No, sep: Some(any1("0123456789")), trailing: Tr::No } }, Field { name: "elem7", prefix: Some(tag("aba")), suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::No, sep: None, trailing: Tr::No } }] }, Variant { name: "V3", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("b")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Ty(44), Cv::No) }] }]) },
        Def { name: "R36", attrs: Attrs { ignore: vec![not1("-a"), arr(any1("aé"), 2)], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("c")), body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: G::Quoted, cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("\n")), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(opt(one("0123456789")), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag("aab")), suffix: Some(tag("c")), body: Body::Plain(tag("é"), Cv::No) }, Field { name: "elem1", prefix: Some(tag("aab")), suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::List { g: G::WhiteSpace, cv: Cv::No, sep: Some(one("aé")), trailing: Tr::Maybe } }] }]) },
        Def { name: "R49", attrs: Attrs { ignore: vec![one("aé")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Ty(52), Cv::No) }, Field { name: "elem1", prefix: None, suffix: Some(tag("c")), body: Body::Plain(tag("b"), Cv::No) }]) },
        Def { name: "R50", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("abca")) }, fields: vec![Field { name: "x", prefix: Some(tag("aé")), suffix: None, body: Body::Plain(G::Ty(19), Cv::No) }, Field { name: "y", prefix: Some(tag("aé")), suffix: Some(tag("Ab")), body: Body::Plain(vec1(one("zbya√xc,() ")), Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(not1("abX"), Cv::No) }, Field { name: "w", prefix: None, suffix: None, body: Body::Plain(opt(tag("√é")), Cv::No) }] }, Variant { name: "V1", what: "unit variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("√é")), suffix: None }, fields: vec![] }, Variant { name: "V2", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::List { g: one("abX"), cv: Cv::No, sep: Some(any1("-a")), trailing: Tr::Yes } }] }]) },
        Def { name: "R51", attrs: Attrs { ignore: vec![tag(";")], prefix: Some(tag(";")), suffix: Some(tag("é")) }, kind: Kind::Struct(vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(tag(";"), Cv::No) }]) },
        Def { name: "R52", attrs: Attrs { ignore: vec![any1("0123456789")], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag(";")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(bx(G::Ty(56)), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![any1("é√"), not1("é√")], prefix: None, suffix: Some(G::Ty(7)) }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag(";")), body: Body::List { g: one("bc"), cv: Cv::No, sep: Some(any1("zbya√xc,() ")), trailing: Tr::No } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(any1("bc"), Cv::No) }] }, Variant { name: "V2", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag(";")) }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(not1("abX"), Cv::No) }, Field { name: "y", prefix: None, suffix: None, body: Body::Plain(tag("--"), Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::List { g: tag(" "), cv: Cv::No, sep: Some(any1("zbya√xc,() ")), trailing: Tr::Yes } }, Field { name: "w", prefix: None, suffix: None, body: Body::Plain(tag("aba"), Cv::No) }, Field { name: "r", prefix: None, suffix: None, body: Body::Plain(opt(one("zbya√xc,() ")), Cv::No) }, Field { name: "s", prefix: None, suffix: None, body: Body::Plain(arr(tag("("), 3), Cv::No) }, Field { name: "t", prefix: None, suffix: Some(tag("(")), body: Body::Plain(not1("ab"), Cv::No) }, Field { name: "u", prefix: Some(tag("--")), suffix: None, body: Body::Plain(any1(",;"), Cv::No) }, Field { name: "v", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "m", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "n", prefix: Some(lst(tag(";"), Cv::No, Some(tag(" ")), Tr::Maybe, vec![tag("--")], usize::MAX)), suffix: None, body: Body::Plain(arr(G::Number, 2), Cv::No) }, Field { name: "o", prefix: None, suffix: Some(tag("a")), body: Body::List { g: one("0123456789"), cv: Cv::No, sep: Some(G::Number), trailing: Tr::Yes } }] }]) },
        Def { name: "R53", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::List { g: G::Ty(55), cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "elem2", prefix: Some(tag("\n")), suffix: Some(tag(" ")), body: Body::Plain(one("abX"), Cv::NotX) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(tag(" "), Cv::No) }, Field { name: "elem4", prefix: Some(tag("é")), suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }, Field { name: "elem5", prefix: None, suffix: None, body: Body::List { g: not1("zbya√xc,() "), cv: Cv::No, sep: Some(any1("aé")), trailing: Tr::Yes } }, Field { name: "elem6", prefix: None, suffix: None, body: Body::Plain(one("0123456789"), Cv::No) }, Field { name: "elem7", prefix: None, suffix: Some(vec_(any1(",;"))), body: Body::Plain(opt(G::Ty(11)), Cv::No) }]) },
        Def { name: "R54", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("(")) }, kind: Kind::Struct(vec![Field { name: "x", prefix: Some(tag(" ")), suffix: None, body: Body::Plain(arr(G::LineEnding, 3), Cv::No) }, Field { name: "y", prefix: None, suffix: Some(tag(";")), body: Body::Plain(G::Ty(8), Cv::No) }, Field { name: "z", prefix: None, suffix: None, body: Body::Plain(vec_(tag("abca")), Cv::No) }, Field { name: "w", prefix: None, suffix: None, body: Body::List { g: arr(tag(" "), 1), cv: Cv::No, sep: Some(tag("ab")), trailing: Tr::Yes } }, Field { name: "r", prefix: Some(tag("√é")), suffix: None, body: Body::Plain(lst(arr(G::WhiteSpace, 2), Cv::No, Some(tag(" ")), Tr::Maybe, vec![tag(" ")], 3), Cv::No) }, Field { name: "s", prefix: Some(tag(" ")), suffix: None, body: Body::Plain(tag(","), Cv::No) }, Field { name: "t", prefix: Some(tag("-")), suffix: Some(tag("aab")), body: Body::List { g: G::Number, cv: Cv::No, sep: Some(G::LineEnding), trailing: Tr::Maybe } }, Field { name: "u", prefix: Some(G::WhiteSpace), suffix: Some(tag("é")), body: Body::List { g: tag("a"), cv: Cv::No, sep: Some(any1("zbya√xc,() ")), trailing: Tr::Maybe } }]) },
        Def { name: "R55", attrs: Attrs { ignore: vec![any1("é√"), one("ab")], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("aab")), suffix: None }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(opt(tag("\n")), Cv::No) }, Field { name: "y", prefix: Some(tag("\n")), suffix: Some(tag("\n")), body: Body::Plain(G::Ty(37), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag("\n")), suffix: None, body: Body::List { g: one("-a"), cv: Cv::No, sep: Some(tag("ba")), trailing: Tr::Maybe } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }, Field { name: "elem2", prefix: None, suffix: Some(one("abX")), body: Body::Plain(tag(","), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(tag("ba"), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(tag("aab"), Cv::No) }, Field { name: "elem1", prefix: Some(tag("\n")), suffix: None, body: Body::Plain(any1("zbya√xc,() "), Cv::No) }] }]) },
        Def { name: "R56", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(one("ab")), suffix: Some(tag("√é")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any("aé"), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("√é")), body: Body::Plain(tag("aé"), Cv::No) }, Field { name: "elem1", prefix: Some(tag(" ")), suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Small, sep: Some(tag(";")), trailing: Tr::No } }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(vec_(any1("é√")), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::List { g: one("é√"), cv: Cv::No, sep: Some(one("a")), trailing: Tr::Maybe } }, Field { name: "elem4", prefix: None, suffix: None, body: Body::List { g: one("é√"), cv: Cv::No, sep: Some(G::LineEnding), trailing: Tr::No } }, Field { name: "elem5", prefix: None, suffix: Some(tag("aé")), body: Body::Plain(G::Ty(9), Cv::No) }, Field { name: "elem6", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: Some(one("zbya√xc,() ")), trailing: Tr::Yes } }, Field { name: "elem7", prefix: None, suffix: None, body: Body::List { g: G::LineEnding, cv: Cv::No, sep: Some(tag("ab")), trailing: Tr::Yes } }, Field { name: "elem8", prefix: Some(tag("ab")), suffix: None, body: Body::Plain(G::Ty(50), Cv::No) }, Field { name: "elem9", prefix: None, suffix: Some(tag("aé")), body: Body::Plain(one("0123456789"), Cv::No) }, Field { name: "elem10", prefix: None, suffix: None, body: Body::List { g: G::Ty(27), cv: Cv::No, sep: Some(G::LineEnding), trailing: Tr::Maybe } }, Field { name: "elem11", prefix: None, suffix: None, body: Body::Plain(vec_(G::Quoted), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![G::LenPre, vec1(one("ab"))], prefix: Some(tag("\n")), suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("é")), body: Body::Plain(any1("aé"), Cv::No) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(vec_(any1(",;")), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(any("-a"), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(G::LenPre, Cv::No) }] }, Variant { name: "V3", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: Some(tag("(")), suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag("aé")), suffix: Some(tag("aab")), body: Body::Plain(any1("0123456789"), Cv::No) }, Field { name: "elem1", prefix: Some(tag("aé")), suffix: None, body: Body::Plain(G::Number, Cv::No) }] }]) },
        Def { name: "R57", attrs: Attrs { ignore: vec![one("0123456789")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: Some(tag("b")), suffix: None, body: Body::List { g: one("é√"), cv: Cv::No, sep: Some(tag(",")), trailing: Tr::No } }]) },
        Def { name: "R58", attrs: Attrs { ignore: vec![one(",;")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: one("é√"), cv: Cv::No, sep: Some(one(",;")), trailing: Tr::No } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Usize) }, Field { name: "elem2", prefix: None, suffix: Some(tag("(")), body: Body::List { g: one("abX"), cv: Cv::NotX, sep: Some(G::Space), trailing: Tr::Maybe } }]) },
        Def { name: "R59", attrs: Attrs { ignore: vec![G::Space, tag(";")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(G::Ty(16), Cv::No) }, Field { name: "elem2", prefix: Some(tag("é")), suffix: None, body: Body::Plain(G::Ty(40), Cv::No) }]) },
        Def { name: "R25", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("abca")) }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(G::Quoted), Cv::No) }, Field { name: "elem1", prefix: None, suffix: Some(G::Quoted), body: Body::Plain(any1(",;"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(G::Quoted, Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(opt(G::Quoted), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::List { g: any1("a"), cv: Cv::No, sep: Some(not1("aé")), trailing: Tr::Maybe } }]) },
        Def { name: "R25", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("abca")) }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(one("aé")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: Some(one("aé")), body: Body::Plain(any1(",;"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(one("aé"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(opt(one("aé")), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::List { g: any1("a"), cv: Cv::No, sep: Some(not1("aé")), trailing: Tr::Maybe } }]) },
        Def { name: "R25", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("abca")) }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(vec1(tag("abca")), Cv::No) }, Field { name: "elem1", prefix: None, suffix: Some(tag("abca")), body: Body::Plain(any1(",;"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(tag("abca"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::Plain(opt(tag("abca")), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::List { g: any1("a"), cv: Cv::No, sep: Some(not1("aé")), trailing: Tr::Maybe } }]) },
        Def { name: "R36", attrs: Attrs { ignore: vec![not1("-a"), arr(any1("aé"), 2)], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("c")), body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: tag("a"), cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("\n")), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(opt(one("0123456789")), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag("aab")), suffix: Some(tag("c")), body: Body::Plain(one("zbya√xc,() "), Cv::No) }, Field { name: "elem1", prefix: Some(tag("aab")), suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::List { g: G::WhiteSpace, cv: Cv::No, sep: Some(one("aé")), trailing: Tr::Maybe } }] }]) },
        Def { name: "R36", attrs: Attrs { ignore: vec![not1("-a"), arr(any1("aé"), 2)], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("c")), body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: G::Ty(4), cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("\n")), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(opt(one("0123456789")), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag("aab")), suffix: Some(tag("c")), body: Body::Plain(G::Ty(39), Cv::No) }, Field { name: "elem1", prefix: Some(tag("aab")), suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::List { g: G::WhiteSpace, cv: Cv::No, sep: Some(one("aé")), trailing: Tr::Maybe } }] }]) },
        Def { name: "R36", attrs: Attrs { ignore: vec![not1("-a"), arr(any1("aé"), 2)], prefix: None, suffix: None }, kind: Kind::Enum(vec![Variant { name: "V0", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("c")), body: Body::Plain(any1("0123456789"), Cv::Small) }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::List { g: tag("aab"), cv: Cv::No, sep: None, trailing: Tr::No } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(opt(tag("\n")), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(opt(one("0123456789")), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag("aab")), suffix: Some(tag("c")), body: Body::Plain(tag("-"), Cv::No) }, Field { name: "elem1", prefix: Some(tag("aab")), suffix: None, body: Body::Plain(one("abX"), Cv::NotX) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(one("ab"), Cv::No) }, Field { name: "elem3", prefix: None, suffix: None, body: Body::List { g: G::WhiteSpace, cv: Cv::No, sep: Some(one("aé")), trailing: Tr::Maybe } }] }]) },
        Def { name: "R41", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("aab")) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("(")) }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(opt(tag("(")), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("ba")), body: Body::Plain(G::Ty(18), Cv::No) }, Field { name: "elem1", prefix: Some(tag("ba")), suffix: None, body: Body::Plain(bx(G::Ty(22)), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag("(")), suffix: None, body: Body::List { g: tag("√é"), cv: Cv::No, sep: Some(G::AnyEl), trailing: Tr::No } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("b"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Small, sep: Some(tag(";")), trailing: Tr::Maybe } }, Field { name: "elem3", prefix: Some(tag("(")), suffix: None, body: Body::Plain(not1("aé"), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(one("a"), Cv::No) }, Field { name: "elem5", prefix: None, suffix: Some(tag("ba")), body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: Some(G::Quoted), trailing: Tr::Yes } }, Field { name: "elem6", prefix: Some(tag("c")), suffix: None, body: Body::List { g: not1(",;"), cv: Cv::No, sep: Some(one("a")), trailing: Tr::No } }, Field { name: "elem7", prefix: Some(tag("aba")), suffix: None, body: Body::List { g: one("a"), cv: Cv::No, sep: None, trailing: Tr::No } }] }, Variant { name: "V3", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("b")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Ty(44), Cv::No) }] }]) },
        Def { name: "R41", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("aab")) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("(")) }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(opt(tag("(")), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("ba")), body: Body::Plain(G::Ty(18), Cv::No) }, Field { name: "elem1", prefix: Some(tag("ba")), suffix: None, body: Body::Plain(bx(G::Ty(22)), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag("(")), suffix: None, body: Body::List { g: tag("√é"), cv: Cv::No, sep: Some(G::AnyEl), trailing: Tr::No } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("b"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Small, sep: Some(tag(";")), trailing: Tr::Maybe } }, Field { name: "elem3", prefix: Some(tag("(")), suffix: None, body: Body::Plain(not1("aé"), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(vec1(G::Ty(0)), Cv::No) }, Field { name: "elem5", prefix: None, suffix: Some(tag("ba")), body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: Some(G::Quoted), trailing: Tr::Yes } }, Field { name: "elem6", prefix: Some(tag("c")), suffix: None, body: Body::List { g: not1(",;"), cv: Cv::No, sep: Some(vec1(G::Ty(0))), trailing: Tr::No } }, Field { name: "elem7", prefix: Some(tag("aba")), suffix: None, body: Body::List { g: vec1(G::Ty(0)), cv: Cv::No, sep: None, trailing: Tr::No } }] }, Variant { name: "V3", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("b")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Ty(44), Cv::No) }] }]) },
        Def { name: "R41", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("aab")) }, kind: Kind::Enum(vec![Variant { name: "V0", what: "struct variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("(")) }, fields: vec![Field { name: "x", prefix: None, suffix: None, body: Body::Plain(opt(tag("(")), Cv::No) }] }, Variant { name: "V1", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: None, suffix: Some(tag("ba")), body: Body::Plain(G::Ty(18), Cv::No) }, Field { name: "elem1", prefix: Some(tag("ba")), suffix: None, body: Body::Plain(bx(G::Ty(22)), Cv::No) }] }, Variant { name: "V2", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: None }, fields: vec![Field { name: "elem0", prefix: Some(tag("(")), suffix: None, body: Body::List { g: tag("√é"), cv: Cv::No, sep: Some(G::AnyEl), trailing: Tr::No } }, Field { name: "elem1", prefix: None, suffix: None, body: Body::Plain(tag("b"), Cv::No) }, Field { name: "elem2", prefix: None, suffix: None, body: Body::List { g: any1("0123456789"), cv: Cv::Small, sep: Some(tag(";")), trailing: Tr::Maybe } }, Field { name: "elem3", prefix: Some(tag("(")), suffix: None, body: Body::Plain(not1("aé"), Cv::No) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(any1("ab"), Cv::No) }, Field { name: "elem5", prefix: None, suffix: Some(tag("ba")), body: Body::List { g: any1("0123456789"), cv: Cv::Usize, sep: Some(G::Quoted), trailing: Tr::Yes } }, Field { name: "elem6", prefix: Some(tag("c")), suffix: None, body: Body::List { g: not1(",;"), cv: Cv::No, sep: Some(any1("ab")), trailing: Tr::No } }, Field { name: "elem7", prefix: Some(tag("aba")), suffix: None, body: Body::List { g: any1("ab"), cv: Cv::No, sep: None, trailing: Tr::No } }] }, Variant { name: "V3", what: "tuple variant", attrs: Attrs { ignore: vec![], prefix: None, suffix: Some(tag("b")) }, fields: vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Ty(44), Cv::No) }] }]) },
        Def { name: "R43", attrs: Attrs { ignore: vec![any1("abX")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Space, Cv::No) }, Field { name: "elem1", prefix: Some(tag("aab")), suffix: Some(one("zbya√xc,() ")), body: Body::List { g: any1(",;"), cv: Cv::No, sep: Some(tag("c")), trailing: Tr::Yes } }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(G::Ty(19), Cv::No) }, Field { name: "elem3", prefix: Some(arr(any("bc"), 2)), suffix: Some(tag("c")), body: Body::Plain(any1("0123456789"), Cv::Usize) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(not1("abX"), Cv::No) }, Field { name: "elem5", prefix: None, suffix: None, body: Body::List { g: tag("c"), cv: Cv::No, sep: Some(tag("aab")), trailing: Tr::Maybe } }, Field { name: "elem6", prefix: None, suffix: Some(tag("aab")), body: Body::Plain(tag("c"), Cv::No) }, Field { name: "elem7", prefix: None, suffix: None, body: Body::List { g: tag("c"), cv: Cv::No, sep: None, trailing: Tr::No } }]) },
        Def { name: "R43", attrs: Attrs { ignore: vec![any1("abX")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Space, Cv::No) }, Field { name: "elem1", prefix: Some(tag("aab")), suffix: Some(one("zbya√xc,() ")), body: Body::List { g: any1(",;"), cv: Cv::No, sep: Some(tag("c")), trailing: Tr::Yes } }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(G::AnyEl, Cv::No) }, Field { name: "elem3", prefix: Some(arr(any("bc"), 2)), suffix: Some(tag("c")), body: Body::Plain(any1("0123456789"), Cv::Usize) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(not1("abX"), Cv::No) }, Field { name: "elem5", prefix: None, suffix: None, body: Body::List { g: tag("c"), cv: Cv::No, sep: Some(tag("aab")), trailing: Tr::Maybe } }, Field { name: "elem6", prefix: None, suffix: Some(tag("aab")), body: Body::Plain(tag("c"), Cv::No) }, Field { name: "elem7", prefix: None, suffix: None, body: Body::List { g: tag("c"), cv: Cv::No, sep: None, trailing: Tr::No } }]) },
        Def { name: "R43", attrs: Attrs { ignore: vec![any1("abX")], prefix: None, suffix: None }, kind: Kind::Struct(vec![Field { name: "elem0", prefix: None, suffix: None, body: Body::Plain(G::Space, Cv::No) }, Field { name: "elem1", prefix: Some(tag("aab")), suffix: Some(one("zbya√xc,() ")), body: Body::List { g: any1(",;"), cv: Cv::No, sep: Some(tag("c")), trailing: Tr::Yes } }, Field { name: "elem2", prefix: None, suffix: None, body: Body::Plain(any1("abX"), Cv::No) }, Field { name: "elem3", prefix: Some(arr(any("bc"), 2)), suffix: Some(tag("c")), body: Body::Plain(any1("0123456789"), Cv::Usize) }, Field { name: "elem4", prefix: None, suffix: None, body: Body::Plain(not1("abX"), Cv::No) }, Field { name: "elem5", prefix: None, suffix: None, body: Body::List { g: not1("zbya√xc,() "), cv: Cv::No, sep: Some(tag("aab")), trailing: Tr::Maybe } }, Field { name: "elem6", prefix: None, suffix: Some(tag("aab")), body: Body::Plain(not1("zbya√xc,() "), Cv::No) }, Field { name: "elem7", prefix: None, suffix: None, body: Body::List { g: not1("zbya√xc,() "), cv: Cv::No, sep: None, trailing: Tr::No } }]) },
    ]
}

pub fn entries() -> Vec<Entry<char>> {
    vec![
        entry::<R0, _>("R0", G::Ty(0), STRUCT | RANDOM),
        entry::<R1, _>("R1", G::Ty(1), ENUM | LIST | RANDOM),
        entry::<R2, _>("R2", G::Ty(2), ENUM | LIST | RANDOM),
        entry::<R3, _>("R3", G::Ty(3), STRUCT | RANDOM),
        entry::<R4, _>("R4", G::Ty(4), ENUM | RANDOM),
        entry::<R5, _>("R5", G::Ty(5), STRUCT | LIST | RANDOM),
        entry::<R6, _>("R6", G::Ty(6), ENUM | RANDOM),
        entry::<R7, _>("R7", G::Ty(7), ENUM | LIST | RANDOM),
        entry::<R8, _>("R8", G::Ty(8), STRUCT | RANDOM),
        entry::<R9, _>("R9", G::Ty(9), ENUM | LIST | RANDOM),
        entry::<R10, _>("R10", G::Ty(10), ENUM | LIST | RANDOM),
        entry::<R11, _>("R11", G::Ty(11), ENUM | LIST | RANDOM),
        entry::<R12, _>("R12", G::Ty(12), STRUCT | LIST | RANDOM),
        entry::<R13, _>("R13", G::Ty(13), STRUCT | LIST | RANDOM),
        entry::<R14, _>("R14", G::Ty(14), STRUCT | LIST | RANDOM),
        entry::<R15, _>("R15", G::Ty(15), STRUCT | RANDOM),
        entry::<R16, _>("R16", G::Ty(16), ENUM | LIST | RANDOM),
        entry::<R17, _>("R17", G::Ty(17), STRUCT | RANDOM),
        entry::<R18, _>("R18", G::Ty(18), STRUCT | LIST | RANDOM),
        entry::<R19, _>("R19", G::Ty(19), STRUCT | LIST | RANDOM),
        entry::<R20, _>("R20", G::Ty(20), ENUM | LIST | RANDOM),
        entry::<R21, _>("R21", G::Ty(21), ENUM | LIST | RANDOM),
        entry::<R22, _>("R22", G::Ty(22), ENUM | RANDOM),
        entry::<R23, _>("R23", G::Ty(23), STRUCT | RANDOM),
        entry::<R24, _>("R24", G::Ty(24), STRUCT | RANDOM),
        entry::<R25<Quoted>, _>("R25<Quoted>", G::Ty(64), STRUCT | LIST | RANDOM),
        entry::<R25<text::OneOf<"aé">>, _>("R25<text::OneOf<\"aé\">>", G::Ty(65), STRUCT | LIST | RANDOM),
        entry::<R25<text::Tag<"abca">>, _>("R25<text::Tag<\"abca\">>", G::Ty(66), STRUCT | LIST | RANDOM),
        entry::<R26, _>("R26", G::Ty(25), STRUCT | LIST | RANDOM),
        entry::<R27, _>("R27", G::Ty(27), STRUCT | LIST | RANDOM),
        entry::<R28, _>("R28", G::Ty(28), ENUM | LIST | RANDOM),
        entry::<R29, _>("R29", G::Ty(30), STRUCT | RANDOM),
        entry::<R30, _>("R30", G::Ty(32), STRUCT | LIST | RANDOM),
        entry::<R31, _>("R31", G::Ty(34), ENUM | RANDOM),
        entry::<R32, _>("R32", G::Ty(35), STRUCT | RANDOM),
        entry::<R33, _>("R33", G::Ty(36), ENUM | LIST | RANDOM),
        entry::<R34, _>("R34", G::Ty(37), ENUM | LIST | RANDOM),
        entry::<R35, _>("R35", G::Ty(38), ENUM | RANDOM),
        entry::<R36<text::Tag<"a">, text::OneOf<"zbya√xc,() ">>, _>("R36<text::Tag<\"a\">, text::OneOf<\"zbya√xc,() \">>", G::Ty(67), ENUM | LIST | RANDOM),
        entry::<R36<R4, R25<text::OneOf<"bc">>>, _>("R36<R4, R25<text::OneOf<\"bc\">>>", G::Ty(68), ENUM | LIST | RANDOM),
        entry::<R36<text::Tag<"aab">, text::Tag<"-">>, _>("R36<text::Tag<\"aab\">, text::Tag<\"-\">>", G::Ty(69), ENUM | LIST | RANDOM),
        entry::<R37, _>("R37", G::Ty(40), ENUM | RANDOM),
        entry::<R38, _>("R38", G::Ty(41), STRUCT | RANDOM),
        entry::<R39, _>("R39", G::Ty(42), ENUM | LIST | RANDOM),
        entry::<R40, _>("R40", G::Ty(43), ENUM | LIST | RANDOM),
        entry::<R41<text::OneOf<"a">>, _>("R41<text::OneOf<\"a\">>", G::Ty(70), ENUM | LIST | RANDOM),
        entry::<R41<Vec1<R0>>, _>("R41<Vec1<R0>>", G::Ty(71), ENUM | LIST | RANDOM),
        entry::<R41<text::AnyOf1<"ab">>, _>("R41<text::AnyOf1<\"ab\">>", G::Ty(72), ENUM | LIST | RANDOM),
        entry::<R42, _>("R42", G::Ty(45), ENUM | RANDOM),
        entry::<R43<R19, text::Tag<"c">>, _>("R43<R19, text::Tag<\"c\">>", G::Ty(73), STRUCT | LIST | RANDOM),
        entry::<R43<AnyEl, text::Tag<"c">>, _>("R43<AnyEl, text::Tag<\"c\">>", G::Ty(74), STRUCT | LIST | RANDOM),
        entry::<R43<text::AnyOf1<"abX">, text::WhileNot1<"zbya√xc,() ">>, _>("R43<text::AnyOf1<\"abX\">, text::WhileNot1<\"zbya√xc,() \">>", G::Ty(75), STRUCT | LIST | RANDOM),
        entry::<R44, _>("R44", G::Ty(46), ENUM | LIST | RANDOM),
        entry::<R45, _>("R45", G::Ty(47), STRUCT | RANDOM),
        entry::<R46, _>("R46", G::Ty(48), STRUCT | RANDOM),
        entry::<R47, _>("R47", G::Ty(49), ENUM | RANDOM),
        entry::<R48, _>("R48", G::Ty(50), ENUM | RANDOM),
        entry::<R49, _>("R49", G::Ty(53), STRUCT | RANDOM),
        entry::<R50, _>("R50", G::Ty(54), ENUM | LIST | RANDOM),
        entry::<R51, _>("R51", G::Ty(55), STRUCT | RANDOM),
        entry::<R52, _>("R52", G::Ty(56), ENUM | LIST | RANDOM),
        entry::<R53, _>("R53", G::Ty(57), STRUCT | LIST | RANDOM),
        entry::<R54, _>("R54", G::Ty(58), STRUCT | LIST | RANDOM),
        entry::<R55, _>("R55", G::Ty(59), ENUM | LIST | RANDOM),
        entry::<R56, _>("R56", G::Ty(60), ENUM | LIST | RANDOM),
        entry::<R57, _>("R57", G::Ty(61), STRUCT | LIST | RANDOM),
        entry::<R58, _>("R58", G::Ty(62), STRUCT | LIST | RANDOM),
        entry::<R59, _>("R59", G::Ty(63), STRUCT | RANDOM),
    ]
}
