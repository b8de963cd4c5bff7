//! How the zoo presents a Rust type to the simulator: monomorphised entry points plus the
//! grammar the type stands for.
use crate::model::{alphabet, heights, Cv, Def, ListG, Tr, G};
use crate::source::{El, Src};
use crate::val::{ToVal, Val};
use nommy::{eyre, Buf, Cursor, Parse};

pub const PRIM: u32 = 1;
pub const CONT: u32 = 2;
pub const LIST: u32 = 4;
pub const STRUCT: u32 = 8;
pub const ENUM: u32 = 16;
/// repeats or ignores something that may succeed without reading
pub const ZERO: u32 = 32;
pub const RANDOM: u32 = 64;

pub type B<T> = Buf<Src<T>>;
pub type C<'a, T> = Cursor<'a, T, B<T>>;

pub struct Entry<T: El> {
    pub name: &'static str,
    pub g: G,
    pub tags: u32,
    pub parse_buf: fn(&mut B<T>) -> eyre::Result<Val>,
    pub peek_buf: fn(&mut B<T>) -> bool,
    pub parse_cur: fn(&mut C<T>) -> eyre::Result<Val>,
    pub peek_cur: fn(&mut C<T>) -> bool,
    pub top: fn(Src<T>) -> eyre::Result<Val>,
    pub term: fn(Src<T>) -> eyre::Result<Val>,
}

pub fn entry<P: Parse<T> + ToVal, T: El>(name: &'static str, g: G, tags: u32) -> Entry<T> {
    Entry {
        name,
        g,
        tags,
        parse_buf: |b| P::parse(b).map(ToVal::to_val),
        peek_buf: |b| P::peek(b),
        parse_cur: |c| P::parse(c).map(ToVal::to_val),
        peek_cur: |c| P::peek(c),
        top: |s| nommy::parse::<P, _>(s).map(ToVal::to_val),
        term: |s| nommy::parse_terminated::<P, _>(s).map(ToVal::to_val),
    }
}

pub struct Zoo<T: El> {
    pub entries: Vec<Entry<T>>,
    pub defs: Vec<Def>,
    pub h: Vec<u32>,
    pub alpha: Vec<Vec<u32>>,
    pub bytes: bool,
}
impl<T: El> Zoo<T> {
    pub fn new(defs: Vec<Def>, entries: Vec<Entry<T>>, bytes: bool) -> Self {
        let h = heights(&defs);
        let alpha = entries.iter().map(|e| alphabet(&e.g, &defs)).collect();
        Zoo { entries, defs, h, alpha, bytes }
    }
}

fn codes(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
pub fn tag(s: &str) -> G {
    G::Tag(codes(s))
}
pub fn one(s: &str) -> G {
    G::One(codes(s))
}
pub fn any(s: &str) -> G {
    G::Run { set: codes(s), neg: false, min1: false, list: false }
}
pub fn any1(s: &str) -> G {
    G::Run { set: codes(s), neg: false, min1: true, list: false }
}
pub fn not1(s: &str) -> G {
    G::Run { set: codes(s), neg: true, min1: true, list: false }
}
fn byte_codes(s: &[u8]) -> Vec<u32> {
    s.iter().map(|c| u32::from(*c)).collect()
}
pub fn btag(s: &[u8]) -> G {
    G::Tag(byte_codes(s))
}
pub fn bone(s: &[u8]) -> G {
    G::One(byte_codes(s))
}
pub fn bany1(s: &[u8]) -> G {
    G::Run { set: byte_codes(s), neg: false, min1: true, list: true }
}
pub fn opt(g: G) -> G {
    G::Opt(Box::new(g))
}
pub fn vec_(g: G) -> G {
    G::Vec(Box::new(g))
}
pub fn vec1(g: G) -> G {
    G::Vec1(Box::new(g))
}
pub fn arr(g: G, n: usize) -> G {
    G::Arr(Box::new(g), n)
}
pub fn bx(g: G) -> G {
    G::Boxed(Box::new(g))
}
pub fn lst(g: G, cv: Cv, sep: Option<G>, trailing: Tr, ignore: Vec<G>, max: usize) -> G {
    G::List(Box::new(ListG { g, cv, sep, trailing, ignore, max }))
}
