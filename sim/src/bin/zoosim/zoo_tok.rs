//! Types over elements that have an identity and own something: for the accounting of drops.
#![allow(dead_code, unused_braces)]
use nommy::{eyre, Buffer, Parse, Vec1};
use nommy_sim::model::*;
use nommy_sim::track::{user_step, Owned, Tok};
use nommy_sim::users::*;
use nommy_sim::val::{ToVal, Val};
use nommy_sim::zoo::*;
use std::convert::TryFrom;
use std::error::Error;
use std::fmt;

/// An error that owns the element it is about.
pub struct TokError(pub Tok, Owned);
impl fmt::Debug for TokError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "TokError({})", self.0.code)
    }
}
impl fmt::Display for TokError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "unexpected element {}", self.0.code)
    }
}
impl Error for TokError {}

/// This very element.
pub struct Sym<const Y: char>(Tok, Owned);
impl<const Y: char> Parse<Tok> for Sym<Y> {
    fn parse(input: &mut impl Buffer<Tok>) -> eyre::Result<Self> {
        let own = Owned::new();
        user_step();
        match input.next() {
            Some(t) if t.code == Y as u32 => {
                user_step();
                Ok(Sym(t, own))
            }
            Some(t) => Err(eyre::Report::new(TokError(t, own))),
            None => Err(eyre::eyre!("nothing left")),
        }
    }
}
impl<const Y: char> ToVal for Sym<Y> {
    fn to_val(self) -> Val {
        self.0.to_val()
    }
}

/// An element that can be zero-sized and still be owned: counts by being dropped.
pub struct RunOf<const Y: char>(Vec<Tok>);
impl<const Y: char> Parse<Tok> for RunOf<Y> {
    fn parse(input: &mut impl Buffer<Tok>) -> eyre::Result<Self> {
        let mut out = vec![];
        user_step();
        while input.peek_ahead(0).map_or(false, |t| t.code == Y as u32) {
            out.extend(input.next());
            user_step();
        }
        if out.is_empty() {
            return Err(eyre::eyre!("not a single one"));
        }
        Ok(RunOf(out))
    }
}
impl<const Y: char> ToVal for RunOf<Y> {
    fn to_val(self) -> Val {
        self.0.to_val()
    }
}

/// Takes three at once, by skipping two.
pub struct Triple(Tok);
impl Parse<Tok> for Triple {
    fn parse(input: &mut impl Buffer<Tok>) -> eyre::Result<Self> {
        user_step();
        if input.peek_ahead(2).is_none() {
            return Err(eyre::eyre!("too short"));
        }
        input.fast_forward(2);
        match input.next() {
            Some(t) => Ok(Triple(t)),
            None => Err(eyre::eyre!("vanished")),
        }
    }
}
impl ToVal for Triple {
    fn to_val(self) -> Val {
        self.0.to_val()
    }
}

/// An A converted, fallibly: an 'x' is refused, and the refusal owns it.
pub struct Held(Tok, Owned);
impl<const Y: char> TryFrom<Sym<Y>> for Held {
    type Error = TokError;
    fn try_from(s: Sym<Y>) -> Result<Self, TokError> {
        let own = Owned::new();
        user_step();
        let Sym(t, _) = s;
        if t.code == 'X' as u32 {
            Err(TokError(t, own))
        } else {
            Ok(Held(t, own))
        }
    }
}
impl ToVal for Held {
    fn to_val(self) -> Val {
        self.0.to_val()
    }
}

#[derive(Parse)]
#[nommy(parse_type = Tok)]
pub struct Pt {
    first: Sym<'a'>,
    second: Sym<'b'>,
    third: Sym<'c'>,
}
impl ToVal for Pt {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.first.to_val(), self.second.to_val(), self.third.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = Tok)]
#[nommy(ignore = Sym<' '>)]
#[nommy(prefix = Sym<'('>)]
#[nommy(suffix = Sym<')'>)]
pub struct Tt(RunOf<'a'>, #[nommy(prefix = Sym<'-'>)] Option<Sym<'b'>>, #[nommy(suffix = Sym<';'>)] Vec<Pt>);
impl ToVal for Tt {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = Tok)]
#[nommy(ignore = RunOf<' '>)]
pub struct Lt {
    #[nommy(parser = Sym<'X'>)]
    one: Held,
    #[nommy(inner_parser = Sym<'a'>)]
    #[nommy(seperated_by = Sym<','>)]
    xs: Vec<Held>,
    #[nommy(prefix = Sym<'['>)]
    #[nommy(suffix = Sym<']'>)]
    #[nommy(inner_parser = Pt)]
    #[nommy(seperated_by = Sym<','>)]
    #[nommy(trailing = "yes")]
    ys: Vec<Pt>,
    #[nommy(inner_parser = Sym<'b'>)]
    #[nommy(seperated_by = Sym<','>)]
    #[nommy(trailing = "maybe")]
    zs: Vec<Held>,
}
impl ToVal for Lt {
    fn to_val(self) -> Val {
        Val::Rec(vec![self.one.to_val(), self.xs.to_val(), self.ys.to_val(), self.zs.to_val()])
    }
}

#[derive(Parse)]
#[nommy(parse_type = Tok)]
#[nommy(ignore = Sym<' '>)]
#[nommy(suffix = Sym<'.'>)]
pub enum Et {
    #[nommy(suffix = Sym<'!'>)]
    Deep(Sym<'a'>, RunOf<'b'>, [Sym<'c'>; 3]),
    Named {
        x: Vec1<Sym<'a'>>,
        #[nommy(parser = Sym<'X'>)]
        y: Held,
    },
    #[nommy(prefix = Sym<'u'>)]
    Unit,
    Nest(Box<Pt>, Option<Triple>),
}
impl ToVal for Et {
    fn to_val(self) -> Val {
        match self {
            Et::Deep(a, b, c) => Val::Var(0, vec![a.to_val(), b.to_val(), c.to_val()]),
            Et::Named { x, y } => Val::Var(1, vec![x.to_val(), y.to_val()]),
            Et::Unit => Val::Var(2, vec![]),
            Et::Nest(a, b) => Val::Var(3, vec![a.to_val(), b.to_val()]),
        }
    }
}

#[derive(Parse)]
#[nommy(parse_type = Tok)]
pub enum Tree {
    #[nommy(prefix = Sym<'('>)]
    #[nommy(suffix = Sym<')'>)]
    Node(Vec<Tree>),
    Leaf(Sym<'a'>),
    Pair(Box<[Sym<'b'>; 2]>),
}
impl ToVal for Tree {
    fn to_val(self) -> Val {
        match self {
            Tree::Node(v) => Val::Var(0, vec![v.to_val()]),
            Tree::Leaf(l) => Val::Var(1, vec![l.to_val()]),
            Tree::Pair(p) => Val::Var(2, vec![p.to_val()]),
        }
    }
}

fn plain(name: &'static str, g: G) -> Field {
    Field { name, prefix: None, suffix: None, body: Body::Plain(g, Cv::No) }
}
fn list(name: &'static str, g: G, trailing: Tr) -> Field {
    Field { name, prefix: None, suffix: None, body: Body::List { g, cv: Cv::No, sep: Some(one(",")), trailing } }
}

pub fn defs() -> Vec<Def> {
    let none = Attrs::default;
    let at = |i: &str, p: &str, s: &str| {
        let f = |s: &str| if s.is_empty() { None } else { Some(one(s)) };
        Attrs { ignore: f(i).into_iter().collect(), prefix: f(p), suffix: f(s) }
    };
    let mut dash = plain("1", opt(one("b")));
    dash.prefix = Some(one("-"));
    let mut semi = plain("2", vec_(G::Ty(0)));
    semi.suffix = Some(one(";"));
    let mut ys = list("ys", G::Ty(0), Tr::Yes);
    ys.prefix = Some(one("["));
    ys.suffix = Some(one("]"));
    vec![
        Def { name: "Pt", attrs: none(), kind: Kind::Struct(vec![plain("first", one("a")), plain("second", one("b")), plain("third", one("c"))]) },
        Def { name: "Tt", attrs: at(" ", "(", ")"), kind: Kind::Struct(vec![plain("0", any1("a")), dash, semi]) },
        Def { name: "Lt", attrs: at(" ", "", ""), kind: Kind::Struct(vec![plain("one", one("X")), list("xs", one("a"), Tr::No), ys, list("zs", one("b"), Tr::Maybe)]) },
        Def {
            name: "Et",
            attrs: at(" ", "", "."),
            kind: Kind::Enum(vec![
                Variant { name: "Deep", what: "", attrs: at("", "", "!"), fields: vec![plain("0", one("a")), plain("1", any1("b")), plain("2", arr(one("c"), 3))] },
                Variant { name: "Named", what: "", attrs: none(), fields: vec![plain("x", vec1(one("a"))), plain("y", one("X"))] },
                Variant { name: "Unit", what: "", attrs: at("", "u", ""), fields: vec![] },
                Variant { name: "Nest", what: "", attrs: none(), fields: vec![plain("0", G::Ty(0)), plain("1", opt(arr(G::AnyEl, 3)))] },
            ]),
        },
        Def {
            name: "Tree",
            attrs: none(),
            kind: Kind::Enum(vec![
                Variant { name: "Node", what: "", attrs: at("", "(", ")"), fields: vec![plain("0", vec_(G::Ty(4)))] },
                Variant { name: "Leaf", what: "", attrs: none(), fields: vec![plain("0", one("a"))] },
                Variant { name: "Pair", what: "", attrs: none(), fields: vec![plain("0", arr(one("b"), 2))] },
            ]),
        },
    ]
}

pub fn entries() -> Vec<Entry<Tok>> {
    macro_rules! e {
        ($t:ty, $g:expr) => {
            entry::<$t, Tok>(stringify!($t), $g, CONT)
        };
    }
    macro_rules! l {
        ($p:ty, $q:ty, $s:ty, $i:ty, $max:expr, $k:expr, $g:expr, $tr:expr) => {
            entry::<Lst<$p, $q, $s, $i, { $max }, $k>, Tok>(
                stringify!(Lst<$p, $q, $s, $i, $max, $k>),
                lst($g, Cv::No, if $k == 0 { None } else { Some(one(",")) }, $tr, vec![one(" ")], $max),
                LIST,
            )
        };
    }
    const M: usize = usize::MAX;
    let a = || one("a");
    vec![
        e!(Sym<'a'>, a()),
        e!(Option<Sym<'a'>>, opt(a())),
        e!(Option<Pt>, opt(G::Ty(0))),
        e!(Vec<Sym<'a'>>, vec_(a())),
        e!(Vec<Pt>, vec_(G::Ty(0))),
        e!(Vec1<Sym<'a'>>, vec1(a())),
        e!(Vec1<Pt>, vec1(G::Ty(0))),
        e!(Vec1<RunOf<'b'>>, vec1(any1("b"))),
        e!([Sym<'a'>; 0], arr(a(), 0)),
        e!([Sym<'a'>; 1], arr(a(), 1)),
        e!([Sym<'a'>; 2], arr(a(), 2)),
        e!([Sym<'a'>; 5], arr(a(), 5)),
        e!([Sym<'a'>; 33], arr(a(), 33)),
        e!([Pt; 2], arr(G::Ty(0), 2)),
        e!([Pt; 3], arr(G::Ty(0), 3)),
        e!([Option<Sym<'a'>>; 4], arr(opt(a()), 4)),
        e!([[Sym<'a'>; 2]; 3], arr(arr(a(), 2), 3)),
        e!([Box<Sym<'a'>>; 3], arr(a(), 3)),
        e!([Vec1<Sym<'b'>>; 1], arr(vec1(one("b")), 1)),
        e!(Vec<[Sym<'a'>; 3]>, vec_(arr(a(), 3))),
        e!(Vec1<[Pt; 2]>, vec1(arr(G::Ty(0), 2))),
        e!(Option<[Sym<'a'>; 3]>, opt(arr(a(), 3))),
        e!([Et; 2], arr(G::Ty(3), 2)),
        e!([Triple; 2], arr(arr(G::AnyEl, 3), 2)),
        e!(Box<Pt>, G::Ty(0)),
        e!(Vec<Box<[Sym<'b'>; 2]>>, vec_(arr(one("b"), 2))),
        e!(Vec<Triple>, vec_(arr(G::AnyEl, 3))),
        e!(Pt, G::Ty(0)),
        e!(Tt, G::Ty(1)),
        e!(Vec<Tt>, vec_(G::Ty(1))),
        e!(Lt, G::Ty(2)),
        e!([Lt; 2], arr(G::Ty(2), 2)),
        e!(Et, G::Ty(3)),
        e!(Vec<Et>, vec_(G::Ty(3))),
        e!(Tree, G::Ty(4)),
        e!(Vec1<Tree>, vec1(G::Ty(4))),
        l!(Sym<'a'>, Sym<'a'>, Never, Sym<' '>, M, 0, a(), Tr::No),
        l!(Sym<'a'>, Held, Sym<','>, Sym<' '>, M, 1, a(), Tr::No),
        l!(Sym<'a'>, Held, Sym<','>, Sym<' '>, M, 2, a(), Tr::Yes),
        l!(Sym<'a'>, Held, Sym<','>, Sym<' '>, M, 3, a(), Tr::Maybe),
        l!(Sym<'a'>, Held, Never, Sym<' '>, 3, 0, a(), Tr::No),
        l!(Sym<'X'>, Held, Sym<','>, Sym<' '>, 3, 1, one("X"), Tr::No),
        l!(Sym<'X'>, Held, Sym<','>, RunOf<' '>, 3, 2, one("X"), Tr::Yes),
        l!(Sym<'X'>, Held, Sym<','>, Sym<' '>, 3, 3, one("X"), Tr::Maybe),
        l!(Pt, Pt, Sym<','>, Sym<' '>, M, 1, G::Ty(0), Tr::No),
        l!(Pt, Pt, Sym<','>, Sym<' '>, 2, 2, G::Ty(0), Tr::Yes),
        l!(Pt, Pt, Sym<','>, Sym<' '>, 2, 3, G::Ty(0), Tr::Maybe),
        l!([Sym<'a'>; 2], [Sym<'a'>; 2], Sym<','>, Sym<' '>, M, 2, arr(a(), 2), Tr::Yes),
        l!([Pt; 2], [Pt; 2], Sym<','>, Sym<' '>, M, 1, arr(G::Ty(0), 2), Tr::No),
        l!(Et, Et, Sym<','>, Sym<' '>, M, 3, G::Ty(3), Tr::Maybe),
    ]
}
