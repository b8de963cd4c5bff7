//! Parsing sessions over a zoo of types on a simulated source, against the reference model
//! (C05, C07-C11, C14-C16), against themselves (C06, C12, C18) and against each other (C17).
#![allow(incomplete_features)]
#![feature(const_generics)]
mod cost;
mod drops;
mod endless;
mod threads;
mod zoo_byte;
mod zoo_char;
mod zoo_rbyte;
mod zoo_rchar;
mod zoo_tok;
mod zoo_zero;

use nommy::{Buf, Buffer, Cursor};
use nommy_sim::ch::Ch;
use nommy_sim::model::{blames, spells, Model, G};
use nommy_sim::run::{bad, guard, is_debug, sim_main, Crash, Cx, Injected, Violation};
use nommy_sim::source::{El, Handle, Src};
use nommy_sim::track;
use nommy_sim::val::Val;
use nommy_sim::wire::{show, Wire};
use nommy_sim::zoo::{Entry, Zoo, B, C, CONT, ENUM, LIST, PRIM, STRUCT, ZERO};
use std::sync::Once;

const BLAME: u32 = 1 << 20;
const NUMBER: u32 = 1 << 21;

pub type Res = Result<(), Violation>;

/// Entries a property looks at.
pub struct Pool<T: El> {
    zoos: Vec<Zoo<T>>,
    /// (zoo, entry) by property
    any: Vec<(usize, usize)>,
    by_tag: Vec<(u32, Vec<(usize, usize)>)>,
    zero: Vec<(usize, usize)>,
    /// user-written code can make these fail
    blame: Vec<(usize, usize)>,
    /// numbers are read from these
    number: Vec<(usize, usize)>,
}
impl<T: El> Pool<T> {
    fn new(zoos: Vec<Zoo<T>>) -> Self {
        let all: Vec<(usize, usize)> =
            zoos.iter().enumerate().flat_map(|(z, zoo)| (0..zoo.entries.len()).map(move |e| (z, e))).collect();
        let tags = |p: &(usize, usize)| zoos[p.0].entries[p.1].tags;
        let with = |t: u32| all.iter().copied().filter(|p| tags(p) & t != 0 && tags(p) & ZERO == 0).collect::<Vec<_>>();
        let by_tag = [PRIM, CONT, LIST, STRUCT, ENUM].iter().map(|t| (*t, with(*t))).collect();
        let blame = all.iter().copied().filter(|p| tags(p) & ZERO == 0 && blames(&zoos[p.0].entries[p.1].g, &zoos[p.0].defs, &mut vec![]));
        let blame = blame.collect();
        let number = all.iter().copied().filter(|p| tags(p) & ZERO == 0 && spells(&zoos[p.0].entries[p.1].g, &zoos[p.0].defs, &mut vec![]));
        let number = number.collect();
        let zero = all.iter().copied().filter(|p| tags(p) & ZERO != 0).collect();
        let any = all.iter().copied().filter(|p| tags(p) & ZERO == 0).collect();
        Pool { any, by_tag, zero, blame, number, zoos }
    }
    fn pick(&self, ch: &mut Ch, tag: u32) -> (&Zoo<T>, &Entry<T>, usize) {
        let list = match tag {
            0 => {
                // every family alike
                let fam = ch.below(self.by_tag.len() as u32 + 1) as usize;
                if fam == 0 {
                    &self.any
                } else {
                    &self.by_tag[fam - 1].1
                }
            }
            ZERO => &self.zero,
            BLAME => &self.blame,
            NUMBER => &self.number,
            t => &self.by_tag.iter().find(|(k, _)| *k == t).expect("tag").1,
        };
        let list = if list.is_empty() { &self.any } else { list };
        let (z, e) = *ch.pick(list);
        (&self.zoos[z], &self.zoos[z].entries[e], e)
    }
}

pub struct Pools {
    pub chars: Pool<char>,
    pub bytes: Pool<u8>,
}
pub fn pools() -> &'static Pools {
    static INIT: Once = Once::new();
    static mut POOLS: Option<Pools> = None;
    unsafe {
        INIT.call_once(|| {
            POOLS = Some(Pools {
                chars: Pool::new(vec![
                    Zoo::new(zoo_char::defs(), zoo_char::entries(), false),
                    Zoo::new(zoo_rchar::defs(), zoo_rchar::entries(), false),
                    Zoo::new(zoo_zero::defs(), zoo_zero::entries(), false),
                ]),
                bytes: Pool::new(vec![
                    Zoo::new(zoo_byte::defs(), zoo_byte::entries(), true),
                    Zoo::new(zoo_rbyte::defs(), zoo_rbyte::entries(), true),
                ]),
            });
        });
        POOLS.as_ref().expect("pools")
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Value(Val),
    Failed(Vec<String>),
    Peeked(bool),
}
impl Outcome {
    pub fn ok(&self) -> bool {
        matches!(self, Outcome::Value(_) | Outcome::Peeked(true))
    }
    pub fn short(&self) -> String {
        match self {
            Outcome::Value(v) => format!("Ok({})", brief(v)),
            Outcome::Failed(e) => format!("Err({})", e.join(": ")),
            Outcome::Peeked(b) => format!("{}", b),
        }
    }
}
pub fn brief(v: &Val) -> String {
    let s = format!("{:?}", v);
    if s.chars().count() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}

/// An earlier attempt on the same cursor, which is then reset.
#[derive(Clone, Debug)]
pub struct Try {
    pub peek: bool,
    /// what has arrived by then
    pub view: usize,
    pub panic_at: Option<usize>,
    pub user_arm: i64,
}

/// How a parser is called: directly on the buffer (no offsets), or on a cursor of a cursor of ...
#[derive(Clone, Default)]
pub struct How {
    pub tries: Vec<Try>,
    pub h: Option<Handle>,
    pub peek: bool,
    pub offs: Vec<usize>,
    /// skip the offsets by reading rather than fast_forward
    pub reads: bool,
}
impl How {
    pub fn shift(&self) -> usize {
        self.offs.iter().sum()
    }
    pub fn text(&self) -> String {
        let what = if self.peek { "peek" } else { "parse" };
        if self.offs.is_empty() {
            format!("{} the buffer", what)
        } else {
            let by = if self.reads { "reading" } else { "skipping" };
            let mut t = format!("{} a cursor {} deep, each after {} {:?}", what, self.offs.len(), by, self.offs);
            for y in &self.tries {
                t.push_str(&format!(
                    ", having tried to {} when {} had arrived{}{} and reset it",
                    if y.peek { "peek" } else { "parse" },
                    y.view,
                    y.panic_at.map_or(String::new(), |p| format!(", the source failing at {},", p)),
                    if y.user_arm >= 0 { format!(", a user step failing after {},", y.user_arm) } else { String::new() }
                ));
            }
            t
        }
    }
}

type Got = Result<Outcome, Crash>;

fn finished(r: nommy::eyre::Result<Val>) -> Outcome {
    match r {
        Ok(v) => Outcome::Value(v),
        Err(e) => Outcome::Failed(e.chain().map(nommy_sim::users::cause_text).collect()),
    }
}

fn skip<T: El>(c: &mut C<T>, off: usize, how: &How) {
    if how.reads {
        for _ in 0..off {
            let _ = c.next();
        }
    } else if off > 0 {
        c.fast_forward(off);
    }
}
/// The attempts that come to nothing.
fn tries<T: El>(c: &mut C<T>, off: usize, how: &How, e: &Entry<T>) {
    let h = match &how.h {
        Some(h) if !how.tries.is_empty() => h,
        _ => return,
    };
    let (view, fuel) = {
        let st = h.st();
        (st.avail, st.fuel - st.polls.min(st.fuel))
    };
    let later = std::mem::take(&mut h.st().panic_at);
    let user = track::user_arm();
    for t in &how.tries {
        {
            let mut st = h.st();
            st.avail = t.view.max(st.pulled);
            st.panic_at = t.panic_at.filter(|p| *p >= st.pulled).into_iter().collect();
            st.fuel = st.polls + fuel;
        }
        track::arm_user(t.user_arm);
        let _ = guard(|| {
            if t.peek {
                let _ = (e.peek_cur)(c);
            } else {
                let _ = (e.parse_cur)(c);
            }
        });
        h.st().panic_at.clear();
        track::arm_user(-1);
        c.reset_internal();
        skip(c, off, how);
    }
    let mut st = h.st();
    st.avail = view;
    st.fuel = st.polls + fuel;
    st.panic_at = later.into_iter().filter(|p| *p >= st.pulled).collect();
    track::arm_user(user);
}

/// `c` was just created, standing at `at`.
fn deep<T: El>(c: &mut C<T>, at: usize, how: &How, lvl: usize, e: &Entry<T>) -> (Got, usize) {
    let off = how.offs[lvl];
    skip(c, off, how);
    if lvl + 1 == how.offs.len() {
        tries(c, off, how, e);
        let r = guard(|| if how.peek { Outcome::Peeked((e.peek_cur)(c)) } else { finished((e.parse_cur)(c)) });
        return (r, at + Cursor::position(c));
    }
    let from = at + Cursor::position(c);
    let (r, end) = deep(&mut c.cursor(), from, how, lvl + 1, e);
    if matches!(&r, Ok(o) if o.ok()) && end > from {
        c.fast_forward(end - from);
    }
    (r, at + Cursor::position(c))
}

/// One call of a parser; `at` is where the buffer stands. Returns the outcome and, on cursors,
/// where the outermost one ended.
pub fn call<T: El>(buf: &mut B<T>, e: &Entry<T>, at: usize, how: &How, commit: bool) -> (Got, Option<usize>) {
    if how.offs.is_empty() {
        let r = guard(|| if how.peek { Outcome::Peeked((e.peek_buf)(buf)) } else { finished((e.parse_buf)(buf)) });
        return (r, None);
    }
    match guard(|| deep(&mut buf.cursor(), at, how, 0, e)) {
        Err(c) => (Err(c), None),
        Ok((r, end)) => {
            let good = matches!(&r, Ok(o) if o.ok());
            if commit && good && end > at {
                if let Err(c) = guard(|| buf.fast_forward(end - at)) {
                    return (Err(c), None);
                }
            }
            (r, Some(end))
        }
    }
}

pub fn drain<T: El>(buf: &mut B<T>) -> Result<Vec<u32>, Crash> {
    let mut out = vec![];
    loop {
        match guard(|| buf.next()) {
            Ok(Some(c)) => out.push(c.code()),
            Ok(None) => return Ok(out),
            Err(Crash::Injected(Injected::Source)) => continue,
            Err(c) => return Err(c),
        }
    }
}

/// What a call should have come to.
struct Exp {
    val: Option<Val>,
    end: usize,
    need: usize,
    fuel: u64,
    /// elements looked at and parts attempted
    work: u64,
    /// how deep parts nest
    depth: usize,
    labels: Vec<nommy_sim::model::Lab>,
    cause: Option<nommy_sim::model::Cause>,
    backtracks: usize,
    torn: usize,
    conv_failed: usize,
    /// conversions to numbers
    spelled: usize,
    zero: bool,
    over: bool,
}
fn expect<T: El>(z: &Zoo<T>, g: &G, view: &[u32], from: usize, peek: bool) -> Exp {
    let mut m = Model::new(&z.defs, view);
    let r = m.run(g, from, peek);
    let fuel = 2_000 + 40 * (m.steps + m.maxread) as u64;
    let (val, end, labels, cause) = match r {
        Ok((v, e)) => (Some(v), e, vec![], None),
        Err(f) => (None, from, f.labels.into_iter().rev().collect(), f.cause),
    };
    Exp {
        val,
        end,
        need: m.maxread,
        fuel,
        work: (m.looks + m.steps) as u64,
        depth: m.deepest,
        labels,
        cause,
        backtracks: m.backtracks,
        torn: m.cut_backtracks,
        conv_failed: m.conv_failed,
        spelled: m.spelled,
        zero: m.zero,
        over: m.over,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Ready,
    Live,
    Partial,
    Flaky,
    User,
    Race,
}
const MODES: [Mode; 6] = [Mode::Ready, Mode::Live, Mode::Partial, Mode::Flaky, Mode::User, Mode::Race];

fn simple(g: &G) -> bool {
    let leaf = |g: &G| matches!(g, G::Tag(_) | G::One(_));
    match g {
        G::Tag(_) | G::One(_) | G::Run { .. } | G::LineEnding | G::Space | G::WhiteSpace => true,
        G::Opt(p) | G::Vec(p) | G::Vec1(p) | G::Boxed(p) | G::Arr(p, _) => leaf(p),
        _ => false,
    }
}

fn tag_of(prop: &str) -> u32 {
    match prop {
        "C23" => BLAME,
        "C20" => NUMBER,
        "C07" => PRIM,
        "C08" => CONT,
        "C09" => LIST,
        "C10" => STRUCT,
        "C11" => ENUM,
        _ => 0,
    }
}

struct Sess<'z, 'c, T: El> {
    prop: &'c str,
    ch: &'c mut Ch,
    cx: &'c mut Cx,
    z: &'z Zoo<T>,
    e: &'z Entry<T>,
    s: Vec<u32>,
    buf: B<T>,
    h: Handle,
    at: usize,
    /// what the first call has in front of it
    junk: usize,
    /// an earlier attempt failed or was torn down on a cursor
    tainted: bool,
}

pub fn text_of<T: El>(z: &Zoo<T>, s: &[u32]) -> String {
    show(s, z.bytes)
}

impl<'z, 'c, T: El> Sess<'z, 'c, T> {
    fn view(&self) -> usize {
        let st = self.h.st();
        if st.arrive.is_empty() {
            st.avail
        } else {
            self.s.len()
        }
    }
    /// Reads the junk in front, looking ahead here and there.
    fn prelude(&mut self, junk: usize) -> Res {
        while self.at < junk {
            if self.ch.chance(1, 3) {
                let i = self.ch.below(6) as usize;
                let got = guard(|| self.buf.peek_ahead(i).map(|c| c.code()));
                let (at, i2) = (self.at, i);
                self.cx.ev(11, i as u64, at as u64, || format!("peek_ahead({}) -> {:?}", i2, got));
            }
            let left = junk - self.at;
            match self.ch.below(3) {
                0 => {
                    let _ = guard(|| self.buf.next());
                    self.at += 1;
                }
                1 => {
                    let n = self.ch.range(1, left);
                    let _ = guard(|| self.buf.fast_forward(n));
                    self.at += n;
                }
                _ => {
                    let n = self.ch.range(1, left);
                    let _ = guard(|| {
                        let mut c = self.buf.cursor();
                        for _ in 0..n {
                            let _ = c.next();
                        }
                        let p = c.position();
                        self.buf.fast_forward(p);
                    });
                    self.at += n;
                }
            }
        }
        let at = self.at;
        if junk > 0 {
            self.cx.ev(12, junk as u64, 0, || format!("read the {} elements in front [at {}]", junk, at));
        }
        Ok(())
    }
    fn how(&mut self, cursor: bool, room: usize) -> How {
        let depth = match self.ch.below(10) {
            0..=3 if !cursor => 0,
            4 | 5 => 2,
            6 => 3,
            7 => self.ch.range(1, 5),
            _ => 1,
        };
        let mut left = room;
        let mut offs = vec![];
        let mut front = self.junk.saturating_sub(self.at).min(room);
        let depth = if front > 0 { depth.max(1) } else { depth };
        for i in 0..depth {
            let o = if front > 0 {
                let o = if i + 1 == depth || self.ch.chance(2, 3) { front } else { self.ch.range(0, front) };
                front -= o;
                o
            } else if left > 0 && self.ch.chance(1, 6) {
                self.ch.range(1, left.min(4))
            } else {
                0
            };
            left -= o;
            offs.push(o);
        }
        let reads = depth > 0 && self.ch.chance(1, 3);
        How { offs, reads, ..How::default() }
    }
    /// Attempts on the very cursor that `how` ends up with.
    fn tries(&mut self, how: &mut How, mode: Mode, start: usize, view: usize) {
        if how.offs.is_empty() || !self.ch.chance(1, 4) {
            return;
        }
        let timed = !self.h.st().arrive.is_empty();
        let faults = !matches!(self.prop, "C14" | "C15" | "C16");
        let mut from = start.min(view);
        for _ in 0..self.ch.range(1, 2) {
            let peek = match self.prop {
                "C14" => how.peek,
                _ => self.ch.chance(1, 3),
            };
            let part = !timed && self.ch.chance(2, 3);
            if part {
                from += self.ch.range(0, view - from);
            }
            let panic_at = if faults && mode != Mode::Partial && self.ch.chance(1, 4) { Some(start + self.ch.range(0, 8)) } else { None };
            let user_arm = if faults && self.ch.chance(1, 6) { i64::from(self.ch.below(4)) } else { -1 };
            how.tries.push(Try { peek, view: if part { from } else { view }, panic_at, user_arm });
            self.cx.fault("attempt-reset-and-repeated");
        }
        how.h = Some(self.h.clone());
        self.tainted = true;
    }
    fn expected(&mut self, start: usize, view: usize, peek: bool) -> Exp {
        let mut x = expect(self.z, &self.e.g, &self.s[..view], start, peek);
        if self.prop == "C18" && !x.over && !peek {
            // the reference is the real thing, given everything at once
            let (src, _) = Src::<T>::new(self.s[start..view].to_vec());
            let mut buf = Buf::new(src);
            let (r, end) = call(&mut buf, self.e, 0, &How { offs: vec![0], ..How::default() }, false);
            match r {
                Ok(Outcome::Value(v)) => {
                    x.val = Some(v);
                    x.end = start + end.unwrap_or(0);
                }
                Ok(_) => x.val = None,
                Err(_) => x.over = true,
            }
        }
        x
    }
    fn describe(&self, how: &How, start: usize, view: usize) -> String {
        format!(
            "{}: {} at {} of {} (arrived: {})",
            self.e.name,
            how.text(),
            start,
            text_of(self.z, &self.s),
            view
        )
    }
    /// Ok(None): no verdict, end the session.
    fn judge(&mut self, how: &How, start: usize, view: usize, x: &Exp, got: &Got, end: Option<usize>) -> Res {
        let zero_ok = is_debug() && x.zero;
        if self.prop == "C15" {
            match got {
                Err(Crash::Injected(Injected::Fuel)) => {
                    return bad("endless", format!("{}: more than {} reads of the source, or {} operations", self.describe(how, start, view), x.fuel, 50_000 + 300 * x.work))
                }
                Err(Crash::Own(_)) if zero_ok => return Ok(()),
                Err(Crash::Own(p)) if !x.over => return bad("panic", format!("{}: panicked: {}", self.describe(how, start, view), p)),
                Ok(_) if zero_ok => {
                    return bad("unreported", format!("{}: something succeeded without consuming, yet no panic", self.describe(how, start, view)))
                }
                _ => return Ok(()),
            }
        }
        if x.over {
            return Ok(());
        }
        let decides = match self.prop {
            "C14" | "C16" | "C23" => false,
            "C05" => x.backtracks > 0 || self.tainted,
            "C20" => x.spelled > 0,
            _ => true,
        };
        if decides {
            match got {
                Err(Crash::Injected(Injected::Fuel)) => {
                    return bad("endless", format!("{}: more than {} reads of the source, or {} operations", self.describe(how, start, view), x.fuel, 50_000 + 300 * x.work))
                }
                Err(Crash::Own(p)) => return bad("panic", format!("{}: panicked: {}", self.describe(how, start, view), p)),
                Err(_) => {}
                Ok(o) => {
                    if o.ok() != x.val.is_some() {
                        let want = x.val.as_ref().map_or("failure".to_string(), brief);
                        return bad("verdict", format!("{}: gives {}, should be {}", self.describe(how, start, view), o.short(), want));
                    }
                    if let (Outcome::Value(v), Some(w)) = (o, &x.val) {
                        if v != w {
                            return bad("value", format!("{}: gives {}, should be {}", self.describe(how, start, view), brief(v), brief(w)));
                        }
                    }
                    if let (true, Some(end)) = (o.ok(), end) {
                        if end != x.end {
                            return bad(
                                "consumed",
                                format!("{}: {} elements consumed, should be {}", self.describe(how, start, view), end as i64 - start as i64, x.end - start),
                            );
                        }
                    }
                }
            }
        }
        if let ("C23", Ok(Outcome::Failed(chain)), Some(cause)) = (self.prop, got, x.cause) {
            if !chain.last().map_or(false, |m| cause.is(m)) {
                return bad("cause", format!("{}: the error {:?} should come down to {:?}", self.describe(how, start, view), chain, cause));
            }
        }
        if self.prop == "C16" {
            if let Ok(Outcome::Failed(chain)) = got {
                if x.val.is_none() && !x.labels.is_empty() {
                    let mut i = 0;
                    for (k, l) in x.labels.iter().enumerate() {
                        let found = chain[i..].iter().position(|m| l.matches(m));
                        match found {
                            Some(p) if k > 0 || p == 0 => i += p + 1,
                            _ => {
                                return bad(
                                    "error",
                                    format!("{}: the error {:?} should name, from the outside in, {:?}", self.describe(how, start, view), chain, x.labels),
                                )
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn session(&mut self) -> Res {
        let mode = {
            let race = if simple(&self.e.g) { 4 } else { 0 };
            let w: [u32; 6] = match self.prop {
                "C05" => [3, 2, 5, 5, 4, 0],
                "C14" => [4, 6, 2, 0, 0, 0],
                "C18" => [2, 3, 6, 4, 3, 0],
                "C16" => [6, 1, 2, 0, 1, 0],
                "C23" => [6, 1, 4, 3, 2, 0],
                "C15" => [6, 2, 5, 2, 1, race],
                _ => [6, 2, 4, 3, 2, race],
            };
            MODES[self.ch.weighted(&w)]
        };
        let len = self.s.len();
        let mut clock0 = 0;
        match mode {
            Mode::Live => {
                let mut t = 0u64;
                let times: Vec<u64> = (0..len)
                    .map(|_| {
                        t += match self.ch.below(4) {
                            0 => 0,
                            1 => 1,
                            2 => u64::from(self.ch.below(10)),
                            _ => u64::from(self.ch.below(1000)),
                        };
                        t
                    })
                    .collect();
                self.h.st().arrive = times;
                self.cx.fault("slow-source");
            }
            Mode::Partial => {
                // what has been read has arrived
                let a = self.at.max(self.h.pulled());
                let a = a + self.ch.range(0, len - a);
                self.h.st().avail = a;
            }
            _ => {}
        }
        let n = self.ch.range(1, 3);
        let mut attempts = 0;
        let mut k = 0;
        let mut closed = false;
        while k < n {
            attempts += 1;
            let last_try = attempts > 8;
            if last_try {
                let mut st = self.h.st();
                st.avail = len;
                st.panic_at.clear();
            }
            let view = self.view();
            let room = view - self.at.min(view);
            let safe = matches!(mode, Mode::Flaky | Mode::User) || (mode == Mode::Partial && view < len);
            let mut how = self.how(safe, room);
            how.peek = match self.prop {
                "C14" | "C15" => self.ch.chance(1, 3),
                "C07" => self.ch.chance(1, 4),
                "C08" | "C09" | "C10" | "C11" | "C05" => self.ch.chance(1, 6),
                _ => false,
            };
            let start = self.at + how.shift();
            let x = self.expected(start, view, how.peek);
            if x.over && self.prop != "C15" {
                self.cx.probe("too-much-for-one-run");
                return Ok(());
            }
            if x.over && (!is_debug() || !x.zero) {
                self.cx.probe("too-much-for-one-run");
                return Ok(());
            }
            let (p0, stalls0, src_panics0);
            {
                let mut st = self.h.st();
                st.fuel = st.polls + x.fuel + start as u64;
                track::budget(if x.over && !x.zero { None } else { Some(50_000 + 300 * x.work) });
                // (committing a position must not be hit by what was meant for an earlier call)
                st.panic_at.clear();
                p0 = st.pulled;
                stalls0 = st.stalls;
                src_panics0 = st.panics;
            }
            let mut race = vec![];
            if !last_try {
                match mode {
                    Mode::Flaky => {
                        for _ in 0..self.ch.range(0, 3) {
                            let p = start + self.ch.range(0, (x.need.saturating_sub(start)).min(40));
                            if p >= p0 {
                                let mut st = self.h.st();
                                if !st.panic_at.contains(&p) {
                                    st.panic_at.push(p);
                                }
                            }
                        }
                    }
                    Mode::User => track::arm_user(i64::from(self.ch.below(6))),
                    Mode::Race if !closed && view == len && p0 < len && how.offs.iter().all(|o| *o == 0) => {
                        // not everything is there after all
                        let a = p0.max(start) + self.ch.range(0, (len - p0.max(start).min(len)).min(6));
                        let m = self.ch.range(1, 12);
                        race = (0..m).map(|_| self.ch.below(4)).collect::<Vec<u32>>();
                        let mut st = self.h.st();
                        st.avail = a.min(len);
                        st.race = race.clone();
                        st.race_i = 0;
                    }
                    _ => {}
                }
            }
            let racing = !race.is_empty();
            if !racing && !last_try {
                self.tries(&mut how, mode, start, view);
            }
            let commit = !how.peek && (last_try || !self.ch.chance(1, 5));
            let (got, end) = call(&mut self.buf, self.e, self.at, &how, commit);
            track::arm_user(-1);
            track::budget(None);
            let (p1, stalled, src_panics, clock);
            {
                let mut st = self.h.st();
                st.race.clear();
                p1 = st.pulled;
                stalled = st.stalls - stalls0;
                src_panics = st.panics - src_panics0;
                clock = st.clock;
            }
            self.cx.sim_time += (clock - clock0) + (p1 - p0) as u64;
            if src_panics > 0 {
                self.cx.fault("source-panic");
            }
            if stalled > 0 {
                self.cx.fault(if racing { "source-stall-mid-parse" } else { "late-arrival" });
            }
            if let Err(Crash::Injected(Injected::User)) = &got {
                self.cx.fault("user-panic");
            }
            {
                let text = match &got {
                    Ok(o) => o.short(),
                    Err(c) => format!("{:?}", c),
                };
                let (a, v) = (self.at, view);
                let ok = matches!(&got, Ok(o) if o.ok());
                let line = format!("{} [at {}, arrived {}{}] -> {}", how.text(), a, v, if racing { format!(", arriving meanwhile {:?}", race) } else { String::new() }, text);
                self.cx.obs(&text);
                self.cx.ev(20 + u64::from(ok) + 2 * u64::from(how.peek), (how.offs.len() * 1000 + start) as u64, (x.need * 7 + view) as u64, || line);
            }
            // C14: what has been demanded of the source
            if self.prop == "C14" && !matches!(got, Err(Crash::Own(_))) {
                let need = x.need.min(len).max(if how.offs.is_empty() { 0 } else { start.min(len) });
                if p1 > p0.max(need) {
                    return bad(
                        "demand",
                        format!("{}: {} elements were pulled, {} decide", self.describe(&how, start, view), p1, need),
                    );
                }
                if mode == Mode::Live && need > 0 {
                    let due = self.h.st().arrive[need - 1].max(clock0);
                    if clock > due {
                        return bad("late", format!("{}: returned at {}, could at {}", self.describe(&how, start, view), clock, due));
                    }
                }
                self.cx.nontrivial |= x.need > p0;
            }
            clock0 = clock;
            if racing && stalled > 0 {
                // a stalled source may pass for an ended one: whatever was consumed must be right
                let decides = !matches!(self.prop, "C14" | "C16" | "C23");
                match &got {
                    Ok(Outcome::Value(v)) => {
                        let rest = if commit || how.offs.is_empty() {
                            self.h.st().avail = len;
                            match drain(&mut self.buf) {
                                Ok(r) => r,
                                Err(c) => return if decides { bad("panic", format!("{:?}", c)) } else { Ok(()) },
                            }
                        } else {
                            return Ok(());
                        };
                        if decides && self.prop != "C15" {
                            let end = len - rest.len().min(len);
                            let y = expect(self.z, &self.e.g, &self.s[..end], start, false);
                            let why = if self.s[end..] != rest[..] {
                                "what is left is not the rest of the input"
                            } else if y.val.is_none() || y.end != end {
                                "the elements it consumed do not make such a value"
                            } else if y.val.as_ref() != Some(v) {
                                "the value is not that of the elements it consumed"
                            } else {
                                self.cx.nontrivial = true;
                                return Ok(());
                            };
                            return bad(
                                "stall",
                                format!(
                                    "{}, more arriving meanwhile (before each read: {:?}): gives {}, leaves {}: {}",
                                    self.describe(&how, start, view), race, brief(v), text_of(self.z, &rest), why
                                ),
                            );
                        }
                        return Ok(());
                    }
                    Ok(_) | Err(Crash::Injected(_)) if !matches!(got, Err(Crash::Injected(Injected::Fuel))) => return Ok(()),
                    _ => {
                        let y = Exp { over: false, ..x };
                        return self.judge(&how, start, view, &y, &got, end);
                    }
                }
            }
            self.h.st().avail = if racing { len } else { view };
            match self.prop {
                "C05" => self.cx.nontrivial |= x.backtracks > 0 || self.tainted,
                "C16" => self.cx.nontrivial |= !x.labels.is_empty(),
                "C23" => self.cx.nontrivial |= x.cause.is_some(),
                "C20" => self.cx.nontrivial |= x.spelled > 0,
                "C14" => {}
                _ => self.cx.nontrivial |= x.need > start,
            }
            if x.torn > 0 {
                self.cx.probe("attempt-cut-off-by-end-of-input");
            }
            if x.backtracks > 0 {
                self.cx.probe("attempt-given-up-mid-way");
            }
            if x.conv_failed > 0 {
                self.cx.probe("conversion-failed");
            }
            // an attempt in the middle of delivery is compared too, except by C18, which only
            // knows what everything together gives
            if !(self.prop == "C18" && view < len) {
                self.judge(&how, start, view, &x, &got, end)?;
            }
            match got {
                Ok(o) if o.ok() => {
                    if how.peek {
                        if how.offs.is_empty() {
                            self.at = x.end;
                            k += 1;
                        }
                    } else if commit || how.offs.is_empty() {
                        self.at = x.end;
                        k += 1;
                    } else {
                        self.tainted = true;
                        self.cx.fault("attempt-abandoned");
                    }
                }
                Ok(_) => {
                    if how.offs.is_empty() {
                        // where a failed parse leaves the buffer itself is not said
                        return Ok(());
                    }
                    self.tainted = true;
                    if view == len {
                        k += 1;
                    }
                }
                Err(Crash::Injected(Injected::Fuel)) | Err(Crash::Own(_)) => return Ok(()),
                Err(_) => {
                    if how.offs.is_empty() {
                        return Ok(());
                    }
                    self.tainted = true;
                }
            }
            if mode == Mode::Partial && view < len {
                let more = self.ch.range(0, len - view);
                self.h.st().avail = view + more;
                self.cx.ev(30, more as u64, view as u64, || format!("{} more arrive", more));
                k = k.min(n - 1);
            }
            closed = true;
            if last_try {
                break;
            }
        }
        if matches!(self.prop, "C14" | "C15" | "C16" | "C23") || (self.prop == "C05" && !self.tainted && !self.cx.nontrivial) {
            return Ok(());
        }
        {
            let mut st = self.h.st();
            st.avail = len;
            st.fuel = st.polls + 2 * len as u64 + 100;
        }
        let want = &self.s[self.at.min(len)..];
        match drain(&mut self.buf) {
            Ok(rest) => {
                let n = rest.len();
                self.cx.ev(40, n as u64, 0, || format!("{} elements are left", n));
                if rest != want {
                    return bad(
                        "consumed",
                        format!(
                            "{}: input {}: the session should leave {}, but {} is left",
                            self.e.name, text_of(self.z, &self.s), text_of(self.z, want), text_of(self.z, &rest)
                        ),
                    );
                }
                Ok(())
            }
            Err(c) => bad("panic", format!("{}: reading the rest: {:?}", self.e.name, c)),
        }
    }
}

pub fn wire<'a, T: El>(z: &'a Zoo<T>, e: usize) -> Wire<'a> {
    Wire { defs: &z.defs, h: &z.h, alpha: z.alpha[e].clone(), bytes: z.bytes }
}
pub fn fnv(s: &[u32]) -> u64 {
    s.iter().fold(0xcbf2_9ce4_8422_2325, |h, c| (h ^ u64::from(*c)).wrapping_mul(0x100_0000_01b3))
}

fn case<'z, T: El>(pool: &'z Pool<T>, prop: &str, ch: &mut Ch, cx: &mut Cx) -> (&'z Zoo<T>, &'z Entry<T>, Vec<u32>, usize) {
    let tag = if prop == "C15" && is_debug() && !pool.zero.is_empty() && ch.chance(1, 5) { ZERO } else { tag_of(prop) };
    let (z, e, i) = pool.pick(ch, tag);
    let junk = match ch.below(48) {
        0..=14 => ch.range(1, 5),
        15 | 16 => ch.range(1, 300),
        _ => 0,
    };
    let s = wire(z, i).stream(ch, cx, &e.g, junk);
    cx.ev(1, e.name.bytes().fold(0u64, |h, b| h.wrapping_mul(31).wrapping_add(u64::from(b))), fnv(&s), || format!("{} on {}", e.name, show(&s, z.bytes)));
    (z, e, s, junk)
}

/// C23: the errors of the functions that take a source.
fn carried<T: El>(pool: &Pool<T>, prop: &str, ch: &mut Ch, cx: &mut Cx) -> Res {
    let (z, e, mut s, junk) = case(pool, prop, ch, cx);
    s.drain(..junk.min(s.len()));
    let x = expect(z, &e.g, &s, 0, false);
    if x.over {
        cx.probe("too-much-for-one-run");
        return Ok(());
    }
    let (src, h) = Src::<T>::new(s.clone());
    h.st().hint = ch.chance(1, 2);
    h.st().fuel = x.fuel + 2 * s.len() as u64 + 100;
    let term = ch.chance(1, 3);
    let got = guard(|| finished(if term { (e.term)(src) } else { (e.top)(src) }));
    let what = if term { "nommy::parse_terminated" } else { "nommy::parse" };
    cx.ev(72 + u64::from(term), h.pulled() as u64, 0, || format!("{} -> {}", what, got.as_ref().map_or_else(|c| format!("{:?}", c), |o| o.short())));
    cx.nontrivial = x.cause.is_some();
    if let (Ok(Outcome::Failed(chain)), Some(cause)) = (&got, x.cause) {
        if !chain.last().map_or(false, |m| cause.is(m)) {
            return bad("cause", format!("{}: {} of {}: the error {:?} should come down to {:?}", e.name, what, text_of(z, &s), chain, cause));
        }
    }
    Ok(())
}

/// C14: what the functions that take a source demand of it.
fn demand<T: El>(pool: &Pool<T>, prop: &str, ch: &mut Ch, cx: &mut Cx) -> Res {
    let (z, e, mut s, junk) = case(pool, prop, ch, cx);
    s.drain(..junk.min(s.len()));
    let x = expect(z, &e.g, &s, 0, false);
    if x.over {
        cx.probe("too-much-for-one-run");
        return Ok(());
    }
    let mut arrive = vec![];
    if ch.chance(1, 2) {
        let mut t = 0u64;
        for _ in 0..s.len() {
            t += u64::from(ch.below(5)) * u64::from(ch.below(50));
            arrive.push(t);
        }
        cx.fault("slow-source");
    }
    let hint = ch.chance(1, 2);
    let term = ch.chance(1, 3);
    // to know that the input ends, the element after the value has to be asked for
    let decide = if term && x.val.is_some() { x.need.max(x.end + 1) } else { x.need };
    let need = decide.min(s.len());
    let (src, h) = Src::<T>::new(s.clone());
    {
        let mut st = h.st();
        st.hint = hint;
        st.arrive = arrive;
        st.fuel = x.fuel + 2 * s.len() as u64 + 100;
    }
    let got = guard(|| finished(if term { (e.term)(src) } else { (e.top)(src) }));
    let (pulled, clock) = (h.pulled(), h.st().clock);
    let what = if term { "nommy::parse_terminated" } else { "nommy::parse" };
    cx.sim_time += clock + pulled as u64;
    cx.ev(70 + u64::from(term), pulled as u64, need as u64, || {
        format!("{} -> {}, {} elements pulled, {} decide", what, got.as_ref().map_or_else(|c| format!("{:?}", c), |o| o.short()), pulled, need)
    });
    cx.nontrivial = x.need > 0;
    if matches!(got, Err(Crash::Own(_))) {
        return Ok(());
    }
    if pulled > need {
        return bad("demand", format!("{}: {} of {}: {} elements were pulled, {} decide", e.name, what, text_of(z, &s), pulled, need));
    }
    let st = h.st();
    if !st.arrive.is_empty() && need > 0 && st.clock > st.arrive[need - 1] {
        return bad(
            "late",
            format!("{}: {} of {}: returned at {}, could at {}", e.name, what, text_of(z, &s), st.clock, st.arrive[need - 1]),
        );
    }
    Ok(())
}

fn session<T: El>(pool: &Pool<T>, prop: &str, ch: &mut Ch, cx: &mut Cx) -> Res {
    let (z, e, s, junk) = case(pool, prop, ch, cx);
    let (src, h) = Src::<T>::new(s.clone());
    h.st().hint = ch.chance(1, 2);
    let mut sess = Sess { prop, ch, cx, z, e, s, buf: Buf::new(src), h, at: 0, junk: 0, tainted: false };
    let junk = junk.min(sess.s.len());
    sess.junk = junk;
    // the rest is skipped on cursors
    let read = if junk > 5 && sess.ch.chance(2, 3) { sess.ch.range(0, junk) } else { junk };
    sess.prelude(read)?;
    sess.session()
}

/// C06: peeking and parsing the same thing.
fn agree<T: El>(pool: &Pool<T>, prop: &str, ch: &mut Ch, cx: &mut Cx) -> Res {
    let (z, e, s, junk) = case(pool, prop, ch, cx);
    let start = junk.min(s.len());
    let x = expect(z, &e.g, &s, start, false);
    let y = expect(z, &e.g, &s, start, true);
    if x.over || y.over || x.conv_failed > 0 {
        cx.probe("too-much-for-one-run");
        return Ok(());
    }
    let depth = ch.range(0, 3);
    let flaky = depth > 0 && ch.chance(1, 4);
    let ahead = ch.range(0, 3);
    let mut panic_at = vec![];
    if flaky {
        for _ in 0..ch.range(1, 2) {
            panic_at.push(start + ch.range(0, x.need.saturating_sub(start).min(30)));
        }
        panic_at.sort_unstable();
        panic_at.dedup();
    }
    let both = depth > 0 && ch.chance(1, 2);
    let fuel = x.fuel.max(y.fuel) + s.len() as u64;
    // (verdict, consumed)
    type Seen = (bool, Option<usize>);
    let go = |buf: &mut B<T>, h: &Handle, peek: bool| -> Result<Seen, Crash> {
        let how = How { peek, offs: vec![0; depth], ..How::default() };
        {
            let mut st = h.st();
            st.fuel = st.polls + fuel;
            st.panic_at.clear();
            for p in &panic_at {
                if *p >= st.pulled {
                    st.panic_at.push(*p);
                }
            }
        }
        for _ in 0..4 {
            match call(buf, e, start, &how, false) {
                (Err(Crash::Injected(Injected::Source)), _) => continue,
                (Err(c), _) => return Err(c),
                (Ok(o), end) => {
                    let used = match end {
                        _ if !o.ok() => None,
                        Some(end) => Some(end - start),
                        None => Some(s.len() - start - drain(buf)?.len()),
                    };
                    return Ok((o.ok(), used));
                }
            }
        }
        Err(Crash::Own("did not get through".to_string()))
    };
    let fresh = || {
        let (src, h) = Src::<T>::new(s.clone());
        let mut buf = Buf::new(src);
        buf.fast_forward(start);
        if ahead > 0 {
            let _ = buf.peek_ahead(ahead - 1);
        }
        (buf, h)
    };
    let (mut b1, h1) = fresh();
    let peeked = go(&mut b1, &h1, true);
    let parsed = if both {
        // the very same buffer: the peek was on a cursor
        go(&mut b1, &h1, false)
    } else {
        let (mut b2, h2) = fresh();
        let r = go(&mut b2, &h2, false);
        cx.sim_time += h2.pulled() as u64;
        r
    };
    cx.sim_time += h1.pulled() as u64;
    for _ in 0..h1.st().panics {
        cx.fault("source-panic");
    }
    let line = format!("{} deep: peek -> {:?}, parse -> {:?}", depth, peeked, parsed);
    cx.obs(&line);
    cx.ev(50, depth as u64, u64::from(matches!(&parsed, Ok(p) if p.0)), || line);
    cx.nontrivial = x.need > start;
    if peeked != parsed {
        let class = match (&peeked, &parsed) {
            (Ok(a), Ok(b)) if a.0 == b.0 => "consumed",
            (Ok(_), Ok(_)) => "verdict",
            (Err(Crash::Injected(Injected::Fuel)), _) | (_, Err(Crash::Injected(Injected::Fuel))) => "endless",
            _ => "panic",
        };
        return bad(
            class,
            format!(
                "{} at {} of {}, on a cursor {} deep: peek -> {:?}, parse -> {:?} (success, elements consumed)",
                e.name, start, text_of(z, &s), depth, peeked, parsed
            ),
        );
    }
    Ok(())
}

/// C12: parse, parse_terminated and a buffer.
fn entry_points<T: El>(pool: &Pool<T>, prop: &str, ch: &mut Ch, cx: &mut Cx) -> Res {
    let (z, e, mut s, junk) = case(pool, prop, ch, cx);
    s.drain(..junk.min(s.len()));
    if ch.chance(1, 2) {
        // exactly one sentence, or that and a bit more
        let i = z.entries.iter().position(|o| std::ptr::eq(o, e)).unwrap_or(0);
        let w = wire(z, i);
        let (budget, reps) = Wire::size(ch);
        s = w.sentence(ch, &e.g, budget, reps);
        let more = ch.weighted(&[4, 2, 1, 1]);
        for _ in 0..more {
            let c = w.element(ch);
            s.push(c);
            cx.fault("surplus-elements");
        }
        cx.ev(2, fnv(&s), 0, || format!("instead: {}", show(&s, z.bytes)));
    }
    let x = expect(z, &e.g, &s, 0, false);
    if x.over {
        cx.probe("too-much-for-one-run");
        return Ok(());
    }
    let mut arrive = vec![];
    if ch.chance(1, 2) {
        let mut t = 0u64;
        for _ in 0..s.len() {
            t += u64::from(ch.below(5)) * u64::from(ch.below(50));
            arrive.push(t);
        }
        cx.fault("slow-source");
    }
    let hint = ch.chance(1, 2);
    let mk = || {
        let (src, h) = Src::<T>::new(s.clone());
        h.st().hint = hint;
        h.st().arrive = arrive.clone();
        h.st().fuel = x.fuel + 2 * s.len() as u64 + 100;
        (src, h)
    };
    let (src, h) = mk();
    let mut buf = Buf::new(src);
    let on_buf = guard(|| finished((e.parse_buf)(&mut buf)));
    let rest = match &on_buf {
        Ok(o) if o.ok() => match drain(&mut buf) {
            Ok(r) => r.len(),
            Err(_) => return Ok(()),
        },
        Ok(_) => 0,
        Err(_) => return Ok(()),
    };
    cx.sim_time += h.st().clock + s.len() as u64;
    let (src, _h) = mk();
    let top = guard(|| finished((e.top)(src)));
    let (src, _h) = mk();
    let term = guard(|| finished((e.term)(src)));
    let text = |r: &Got| match r {
        Ok(o) => o.short(),
        Err(c) => format!("{:?}", c),
    };
    cx.ev(60, rest as u64, u64::from(matches!(&on_buf, Ok(o) if o.ok())), || {
        format!("buffer: {}, {} left; parse: {}; parse_terminated: {}", text(&on_buf), rest, text(&top), text(&term))
    });
    cx.nontrivial = !s.is_empty();
    let same = |a: &Got, b: &Got| match (a, b) {
        (Ok(Outcome::Value(a)), Ok(Outcome::Value(b))) => a == b,
        (Ok(Outcome::Failed(_)), Ok(Outcome::Failed(_))) => true,
        _ => false,
    };
    if !same(&on_buf, &top) {
        return bad("parse", format!("{} on {}: the buffer gives {}, nommy::parse {}", e.name, text_of(z, &s), text(&on_buf), text(&top)));
    }
    let want = if rest > 0 { Ok(Outcome::Failed(vec!["elements are left".to_string()])) } else { on_buf };
    if !same(&want, &term) {
        return bad(
            "terminated",
            format!("{} on {}: {} elements are left, so parse_terminated should give {}, but gives {}", e.name, text_of(z, &s), rest, text(&want), text(&term)),
        );
    }
    Ok(())
}

fn run(prop: &str, ch: &mut Ch, cx: &mut Cx) -> Res {
    track::reset();
    let p = pools();
    if prop == "C17" {
        return threads::run(p, ch, cx);
    }
    if prop == "C13" {
        return drops::run(p, ch, cx);
    }
    if prop == "C22" || prop == "C24" {
        return cost::run(p, prop, ch, cx);
    }
    if prop == "C21" {
        return endless::run(p, ch, cx);
    }
    // (bytes do not spell numbers)
    let bytes = prop != "C20" && ch.chance(1, 4);
    match (prop, bytes) {
        ("C06", false) => agree(&p.chars, prop, ch, cx),
        ("C06", true) => agree(&p.bytes, prop, ch, cx),
        ("C12", false) => entry_points(&p.chars, prop, ch, cx),
        ("C12", true) => entry_points(&p.bytes, prop, ch, cx),
        ("C23", false) if ch.chance(1, 6) => carried(&p.chars, prop, ch, cx),
        ("C23", true) if ch.chance(1, 6) => carried(&p.bytes, prop, ch, cx),
        ("C14", false) if ch.chance(1, 5) => demand(&p.chars, prop, ch, cx),
        ("C14", true) if ch.chance(1, 5) => demand(&p.bytes, prop, ch, cx),
        (_, false) => session(&p.chars, prop, ch, cx),
        (_, true) => session(&p.bytes, prop, ch, cx),
    }
}

fn main() {
    let _ = pools();
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 4 && args[1] == "alone" {
        threads::alone(&args[2], &args[3]);
        return;
    }
    // deep nesting needs room
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(|| sim_main("zoo", run)).expect("thread");
    if t.join().is_err() {
        std::process::exit(3);
    }
}
