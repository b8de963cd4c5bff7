//! Histories of buffer and cursor operations on a simulated source, against a model that is a
//! list of elements and one index per open cursor. Decides C01-C04, and the buffer's part of
//! C13 and C14.
use nommy::{Buf, Buffer, Cursor};
use nommy_sim::ch::Ch;
use nommy_sim::run::{bad, guard, inject, sim_main, Crash, Cx, Injected, Violation};
use nommy_sim::source::{Handle, Src};
use nommy_sim::track::{self, Tok};

type Res = Result<(), Violation>;

/// What an open level can do beyond `Buffer`.
trait Level: Buffer<Tok> {
    fn pos(&self) -> Option<usize>;
    fn reset(&mut self) -> bool;
}
impl Level for Buf<Src<Tok>> {
    fn pos(&self) -> Option<usize> {
        None
    }
    fn reset(&mut self) -> bool {
        false
    }
}
impl<'a, B: Buffer<Tok>> Level for Cursor<'a, Tok, B> {
    fn pos(&self) -> Option<usize> {
        Some(self.position())
    }
    fn reset(&mut self) -> bool {
        self.reset_internal()
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Prop {
    Order,
    Isolation,
    Position,
    Faults,
    Drops,
    Demand,
}

struct Env<'a> {
    ch: &'a mut Ch,
    cx: &'a mut Cx,
    h: Handle,
    prop: Prop,
    /// total number of elements
    n: usize,
    /// elements that have arrived
    avail: usize,
    /// absolute position of every open level; 0 is the buffer
    at: Vec<usize>,
    /// where each level started
    base: Vec<usize>,
    /// highest number of elements the operations so far may have pulled
    need: usize,
    ops: usize,
    maxskip: usize,
    maxdepth: usize,
    stalls: bool,
    spanic: bool,
    cpanic: bool,
    unwinds: bool,
    overskip: bool,
    /// the source never ends
    endless: bool,
    w: [u32; OPS],
}

/// How many elements a source has that never ends.
const ENDLESS: usize = 1 << 31;
const OPS: usize = 13;
const NAMES: [&str; OPS] = [
    "next", "peek_ahead", "fast_forward", "cursor", "drop", "commit", "nth", "take", "reset", "position", "size_hint",
    "unwind", "search",
];
const SEARCH: [&str; 6] = ["find", "position", "any", "all", "try_fold", "find_map"];

/// One of the iterator's own operations that go on until something is found: the elements it has
/// visited, and whether its answer is the one they call for.
fn search<B: Buffer<Tok>>(buf: &mut B, how: usize, until: usize) -> (Vec<usize>, bool) {
    let mut seen = vec![];
    let mut hit = |t: &Tok| {
        seen.push(t.code as usize);
        t.code as usize >= until
    };
    let found: Result<Option<usize>, bool> = match how {
        0 => Ok(buf.find(|t| hit(t)).map(|t| t.code as usize)),
        1 => {
            let r = buf.position(|t| hit(&t));
            let want = if seen.last().map_or(false, |c| *c >= until) { Some(seen.len() - 1) } else { None };
            return (seen, r == want);
        }
        2 => Err(buf.any(|t| hit(&t))),
        3 => Err(!buf.all(|t| !hit(&t))),
        4 => {
            let r = buf.try_fold(0usize, |n, t| if hit(&t) { Err(n) } else { Ok(n + 1) });
            let n = seen.len();
            let want = if seen.last().map_or(false, |c| *c >= until) { Err(n - 1) } else { Ok(n) };
            return (seen, r == want);
        }
        _ => Ok(buf.find_map(|t| if hit(&t) { Some(t.code as usize) } else { None })),
    };
    let last = seen.last().copied().filter(|c| *c >= until);
    let good = match found {
        Ok(f) => f == last,
        Err(b) => b == last.is_some(),
    };
    (seen, good)
}

/// The operations that use the iterator up: what they say is left.
fn use_up<B: Buffer<Tok>>(mut buf: B, how: usize) -> (&'static str, Vec<usize>, Option<usize>) {
    let code = |t: Tok| t.code as usize;
    match how {
        0 => ("count", vec![], Some(buf.count())),
        1 => ("last", buf.last().map(code).into_iter().collect(), None),
        2 => {
            let v = buf.fold(vec![], |mut v, t| {
                v.push(code(t));
                v
            });
            let n = v.len();
            ("fold", v, Some(n))
        }
        3 => {
            let mut v = vec![];
            buf.for_each(|t| v.push(code(t)));
            let n = v.len();
            ("for_each", v, Some(n))
        }
        4 => {
            let v: Vec<usize> = buf.map(code).collect();
            let n = v.len();
            ("collect", v, Some(n))
        }
        5 => {
            let v: Vec<usize> = buf.step_by(2).map(code).collect();
            ("step_by", v, None)
        }
        6 => ("max", buf.max_by_key(|t| t.code).map(code).into_iter().collect(), None),
        _ => {
            let v: Vec<usize> = std::iter::from_fn(|| buf.next()).map(code).collect();
            let n = v.len();
            ("next", v, Some(n))
        }
    }
}
/// Whether that is right when `lo..hi` was left.
fn used_up_right(got: &(&'static str, Vec<usize>, Option<usize>), lo: usize, hi: usize) -> bool {
    let n = hi.saturating_sub(lo);
    let want: Vec<usize> = match got.0 {
        "count" => vec![],
        "last" | "max" => (lo..hi).last().into_iter().collect(),
        "step_by" => (lo..hi).step_by(2).collect(),
        _ => (lo..hi).collect(),
    };
    got.1 == want && got.2.map_or(true, |k| k == n)
}

impl<'a> Env<'a> {
    fn closed(&self) -> bool {
        self.avail == self.n
    }
    fn checks_value(&self, lvl: usize) -> bool {
        match self.prop {
            Prop::Order => lvl == 0,
            Prop::Demand | Prop::Drops => false,
            _ => true,
        }
    }
    fn event(&mut self, lvl: usize, op: &'static str, a: usize, out: &str) {
        let (at, need) = (self.at[lvl], self.avail);
        let k = op.bytes().fold(0u64, |x, b| x.wrapping_mul(31).wrapping_add(u64::from(b)));
        self.cx.sim_time += 1;
        self.cx.ev(k, (a as u64).wrapping_mul(131).wrapping_add(lvl as u64), (at as u64).wrapping_mul(1_000_003).wrapping_add(need as u64), || {
            format!("L{} {}({}) -> {} [at {}, arrived {}]", lvl, op, a as i64, out, at, need)
        });
        self.cx.obs(out);
    }
    fn demand(&mut self, op: &str) -> Res {
        if let Some(e) = track::first_error() {
            if self.prop == Prop::Drops {
                return bad("drop", format!("an element was {} during {}", e, op));
            }
        }
        let pulled = self.h.pulled();
        if self.prop == Prop::Demand && pulled > self.need {
            return bad(
                "demand",
                format!("{}: {} elements pulled from the source, but no operation so far looks beyond {}", op, pulled, self.need),
            );
        }
        Ok(())
    }
    fn code(t: &Option<Tok>) -> String {
        t.as_ref().map_or("None".to_string(), |t| format!("#{}", t.code))
    }
    fn arrivals(&mut self) {
        if self.stalls && !self.closed() && self.ch.chance(1, 3) {
            let left = self.n - self.avail;
            let k = match self.ch.below(4) {
                0 | 1 => 1,
                2 => self.ch.range(1, left),
                _ => left,
            };
            self.avail += k;
            self.h.st().avail = self.avail;
            let a = self.avail;
            self.cx.fault("late-arrival");
            self.cx.ev(900, k as u64, a as u64, || format!("{} more arrive [{}]", k, a));
        }
    }
    /// reads of the source that found nothing in between two elements
    fn dries(&self) -> u64 {
        self.h.st().dries
    }
    fn went_dry(&mut self, before: u64) -> bool {
        let n = self.dries() - before;
        for _ in 0..n {
            self.cx.fault("source-dry-for-one-read");
        }
        self.cx.nontrivial |= n > 0;
        n > 0
    }
    fn arm(&mut self) {
        if self.cpanic && !track::armed_clone() && self.ch.chance(1, 4) {
            let k = i64::from(self.ch.below(4));
            track::arm_clone(k);
            self.cx.note(|| format!("the clone after {} clones will panic", k));
        }
    }
}

/// Look whether nothing may have changed after an operation that a fault interrupted; skipping
/// operations may have got anywhere up to `hi`.
fn resync<B: Level>(buf: &mut B, lvl: usize, env: &mut Env, hi: usize) -> Res {
    let lo = env.at[lvl];
    loop {
        let dry = env.dries();
        match guard(|| buf.peek_ahead(0)) {
            Ok(None) if env.went_dry(dry) => continue,
            Err(Crash::Injected(Injected::Source)) | Err(Crash::Injected(Injected::Clone)) => continue,
            Err(c) => return bad("panic", format!("peek_ahead(0) after a fault: {:?}", c)),
            Ok(t) => {
                let p = match &t {
                    Some(t) => t.code as usize,
                    None => env.avail,
                };
                env.event(lvl, "resync", 0, &Env::code(&t));
                // a level that had been sent past the end stays there
                if (lo <= env.avail && (p < lo || p > hi)) || (lo > env.avail && p < env.avail) {
                    return bad(
                        "fault",
                        format!("after a fault during a skip between #{} and #{} the next element is {}", lo, hi, Env::code(&t)),
                    );
                }
                env.at[lvl] = p.max(lo);
                env.need = env.need.max(p.max(lo).saturating_add(1));
                return Ok(());
            }
        }
    }
}

fn count_crash(env: &mut Env, c: &Crash, op: &str) -> Res {
    match c {
        Crash::Injected(Injected::Source) => env.cx.fault("source-panic"),
        Crash::Injected(Injected::Clone) => env.cx.fault("clone-panic"),
        c => return bad("panic", format!("{} panicked: {:?}", op, c)),
    }
    env.cx.nontrivial = true;
    Ok(())
}

fn drive<B: Level>(buf: &mut B, lvl: usize, env: &mut Env) -> Result<bool, Violation> {
    // true: commit
    while env.ops > 0 {
        env.ops -= 1;
        env.arrivals();
        env.arm();
        let mut w = env.w;
        if lvl == 0 {
            w[4] = 0;
            w[5] = 0;
            w[8] = 0;
            w[9] = 0;
            w[11] = 0;
        }
        if lvl >= env.maxdepth {
            w[3] = 0;
        }
        let op = env.ch.weighted(&w);
        let p = env.at[lvl];
        let left = env.avail.saturating_sub(p);
        let is_over = p > env.avail;
        let dry = env.dries();
        match op {
            0 => loop {
                let dry = env.dries();
                let r = guard(|| buf.next());
                match r {
                    Ok(None) if env.went_dry(dry) => {
                        env.event(lvl, "next", 0, "None, once");
                        continue;
                    }
                    Err(c) => {
                        env.event(lvl, "next", 0, "panic");
                        count_crash(env, &c, "next")?;
                        continue;
                    }
                    Ok(t) => {
                        env.event(lvl, "next", 0, &Env::code(&t));
                        env.need = env.need.max(p.saturating_add(1));
                        let want = if p < env.avail { Some(p) } else { None };
                        if want.is_none() && !env.closed() {
                            env.cx.fault("stall");
                        }
                        let got = t.as_ref().map(|t| t.code as usize);
                        if env.checks_value(lvl) && got != want {
                            return bad("read", format!("level {}: next() gave {}, expected {:?}", lvl, Env::code(&t), want));
                        }
                        if want.is_some() {
                            env.at[lvl] += 1;
                        }
                        break;
                    }
                }
            },
            1 => {
                let i = match env.ch.below(16) {
                    0..=10 => env.ch.range(0, 6),
                    11..=13 => env.ch.range(0, env.maxskip),
                    14 if !env.endless => left,
                    _ => {
                        if env.overskip && env.closed() && env.ch.chance(1, 4) {
                            usize::MAX - env.ch.range(0, 2)
                        } else {
                            env.ch.range(0, env.maxskip)
                        }
                    }
                };
                loop {
                    let dry = env.dries();
                    let r = guard(|| buf.peek_ahead(i));
                    match r {
                        Ok(None) if env.went_dry(dry) => {
                            env.event(lvl, "peek_ahead", i, "None, once");
                            env.need = env.need.max(p.saturating_add(i).saturating_add(1));
                            continue;
                        }
                        Err(c) => {
                            env.event(lvl, "peek_ahead", i, "panic");
                            count_crash(env, &c, "peek_ahead")?;
                            env.need = env.need.max(p.saturating_add(i).saturating_add(1));
                            continue;
                        }
                        Ok(t) => {
                            env.event(lvl, "peek_ahead", i, &Env::code(&t));
                            env.need = env.need.max(p.saturating_add(i).saturating_add(1));
                            let want = if i < left && !is_over { Some(p + i) } else { None };
                            if want.is_none() && !env.closed() {
                                env.cx.fault("stall");
                            }
                            let got = t.as_ref().map(|t| t.code as usize);
                            if env.checks_value(lvl) && got != want {
                                return bad("peek", format!("level {}: peek_ahead({}) gave {}, expected {:?}", lvl, i, Env::code(&t), want));
                            }
                            break;
                        }
                    }
                }
            }
            2 => {
                let n = match env.ch.below(8) {
                    0 | 1 | 2 => env.ch.range(0, 4),
                    3 | 4 => env.ch.range(0, env.maxskip),
                    // exactly what the buffer holds, and its neighbours
                    5 => (env.h.pulled().saturating_sub(p) + env.ch.range(0, 2)).saturating_sub(1),
                    6 if !env.endless => left,
                    _ => {
                        if env.overskip && env.ch.chance(1, 3) {
                            *env.ch.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 32])
                        } else {
                            env.ch.range(0, env.maxskip)
                        }
                    }
                };
                // a cursor may only be sent past what has arrived once everything has
                let n = if lvl > 0 && !(env.closed() && env.overskip) { n.min(left) } else { n };
                let r = guard(|| buf.fast_forward(n));
                env.need = env.need.max(p.saturating_add(n));
                match r {
                    Err(c) => {
                        env.event(lvl, "fast_forward", n, "panic");
                        count_crash(env, &c, "fast_forward")?;
                        resync(buf, lvl, env, p.saturating_add(n).min(env.avail))?;
                    }
                    // a skip may end where there is nothing for the moment
                    Ok(()) if env.went_dry(dry) => {
                        env.event(lvl, "fast_forward", n, "cut short");
                        resync(buf, lvl, env, p.saturating_add(n).min(env.avail))?;
                    }
                    Ok(()) => {
                        env.event(lvl, "fast_forward", n, "()");
                        env.at[lvl] = if lvl == 0 { p + n.min(left) } else { p.saturating_add(n) };
                        if env.at[lvl] > env.avail {
                            env.cx.probe("cursor-sent-past-the-end");
                        }
                        if lvl == 0 && n > left && !env.closed() {
                            env.cx.fault("stall");
                        }
                    }
                }
            }
            3 => {
                let start = p;
                env.at.push(start);
                env.base.push(start);
                env.event(lvl + 1, "cursor", 0, "");
                if lvl + 1 >= 3 {
                    env.cx.probe("cursor-depth>=3");
                }
                let mut cpos = None;
                let mut spent = None;
                let r = guard(|| {
                    let mut cur = buf.cursor();
                    let r = drive(&mut cur, lvl + 1, env);
                    cpos = cur.pos();
                    if !env.endless && matches!(r, Ok(false)) && env.ch.chance(1, 6) {
                        let how = env.ch.below(8) as usize;
                        env.need = env.need.max(env.n + 1);
                        let dry = env.dries();
                        let got = guard(|| use_up(cur, how));
                        spent = Some((how, got, env.went_dry(dry)));
                    }
                    r
                });
                let end = env.at[lvl + 1];
                env.at.truncate(lvl + 1);
                env.base.truncate(lvl + 1);
                match r {
                    Err(Crash::Injected(Injected::UnwindTo(k))) => {
                        if k < lvl {
                            inject(Injected::UnwindTo(k));
                        }
                        env.cx.fault("unwound");
                        env.cx.nontrivial = true;
                        env.cx.note(|| format!("L{} carries on after the unwinding", k));
                    }
                    Err(c) => return bad("panic", format!("cursor at level {}: {:?}", lvl + 1, c)),
                    Ok(Err(v)) => return Err(v),
                    Ok(Ok(true)) => {
                        env.arrivals();
                        if !(env.closed() && env.overskip) && end > env.avail {
                            continue;
                        }
                        let want = end - start;
                        let n = if env.prop == Prop::Position { cpos.unwrap_or(want) } else { want };
                        if env.prop == Prop::Position && end <= env.avail && n != want {
                            return bad("position", format!("cursor at level {} reports position {}, has consumed {}", lvl + 1, n, want));
                        }
                        let dry = env.dries();
                        let r = guard(|| buf.fast_forward(n));
                        env.need = env.need.max(end);
                        env.cx.nontrivial = true;
                        match r {
                            Ok(()) if env.went_dry(dry) => {
                                env.event(lvl, "commit", n, "cut short");
                                resync(buf, lvl, env, end.min(env.avail))?;
                            }
                            Err(c) => {
                                env.event(lvl, "commit", n, "panic");
                                count_crash(env, &c, "fast_forward")?;
                                resync(buf, lvl, env, end.min(env.avail))?;
                            }
                            Ok(()) => {
                                env.at[lvl] = if lvl == 0 { end.min(env.avail) } else { end };
                                env.event(lvl, "commit", n, "()");
                            }
                        }
                    }
                    Ok(Ok(false)) => {
                        env.cx.nontrivial = true;
                        if let Some((how, got, dry)) = spent {
                            let hi = env.avail;
                            match got {
                                Err(c) => {
                                    env.event(lvl, "cursor used up", how, "panic");
                                    count_crash(env, &c, "using a cursor up")?;
                                }
                                Ok(got) => {
                                    env.event(lvl, "cursor used up by", how, got.0);
                                    if env.checks_value(lvl + 1) && !dry && !used_up_right(&got, end, hi) {
                                        return bad("read", format!("level {}: {}() gave {:?}, {:?} when #{} to #{} were left", lvl + 1, got.0, got.1, got.2, end, hi));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            4 => {
                env.event(lvl, "drop", 0, "");
                return Ok(false);
            }
            5 => return Ok(true),
            6 | 7 => {
                let k = if env.ch.chance(1, 4) { env.ch.range(0, env.maxskip) } else { env.ch.range(0, 3) };
                let used = if op == 6 { k + 1 } else { k };
                let r = guard(|| {
                    if op == 6 {
                        vec![buf.nth(k)]
                    } else {
                        buf.by_ref().take(k).map(Some).collect()
                    }
                });
                env.need = env.need.max(p.saturating_add(used));
                let name = NAMES[op];
                match r {
                    Err(c) => {
                        env.event(lvl, name, k, "panic");
                        count_crash(env, &c, name)?;
                        resync(buf, lvl, env, p.saturating_add(used).min(env.avail).max(p))?;
                    }
                    Ok(ts) => {
                        let got: Vec<Option<usize>> = ts.iter().map(|t| t.as_ref().map(|t| t.code as usize)).collect();
                        let want: Vec<Option<usize>> = if op == 6 {
                            vec![if k < left && !is_over { Some(p + k) } else { None }]
                        } else {
                            (p..p + k.min(left)).map(Some).collect()
                        };
                        env.event(lvl, name, k, &format!("{:?}", got));
                        if !env.closed() && used > left {
                            env.cx.fault("stall");
                        }
                        if env.went_dry(dry) {
                            let short = if op == 6 { got == [None] } else { want.starts_with(&got) };
                            if env.checks_value(lvl) && got != want && !short {
                                return bad("read", format!("level {}: {}({}) gave {:?}, expected {:?} or less", lvl, name, k, got, want));
                            }
                            if op == 7 {
                                env.at[lvl] = p + got.len();
                            } else {
                                resync(buf, lvl, env, p.saturating_add(used).min(env.avail).max(p))?;
                            }
                        } else {
                            if env.checks_value(lvl) && got != want {
                                return bad("read", format!("level {}: {}({}) gave {:?}, expected {:?}", lvl, name, k, got, want));
                            }
                            env.at[lvl] = p + used.min(left);
                        }
                    }
                }
            }
            8 => {
                let r = guard(|| buf.reset());
                env.at[lvl] = env.base[lvl];
                env.event(lvl, "reset", 0, &format!("{:?}", r));
                match r {
                    Ok(true) => {}
                    other if env.prop == Prop::Position => return bad("reset", format!("reset_internal gave {:?}", other)),
                    _ => {}
                }
            }
            9 => {
                let got = guard(|| buf.pos()).unwrap_or(None).unwrap_or(0);
                env.event(lvl, "position", 0, &got.to_string());
                let hi = if p == usize::MAX { p } else { p - env.base[lvl] };
                // a cursor sent past the end may count what it was sent or what there was
                let lo = p.min(env.avail.max(env.base[lvl])) - env.base[lvl];
                if env.prop == Prop::Position && !(lo..=hi).contains(&got) {
                    return bad("position", format!("level {}: position() is {}, has consumed {}", lvl, got, hi));
                }
            }
            10 => {
                let (lo, hi) = buf.size_hint();
                env.event(lvl, "size_hint", 0, "");
                if env.checks_value(lvl) && (lo > env.n.saturating_sub(p) || hi.map_or(false, |h| h < left)) {
                    return bad("size-hint", format!("level {}: size_hint ({}, {:?}) but {} remain", lvl, lo, hi, left));
                }
            }
            12 => {
                let k = if env.ch.chance(1, 4) { env.ch.range(0, env.maxskip) } else { env.ch.range(0, 3) };
                let how = env.ch.below(6) as usize;
                let used = k + 1;
                let r = guard(|| search(buf, how, p.saturating_add(k)));
                env.need = env.need.max(p.saturating_add(used));
                let name = SEARCH[how];
                match r {
                    Err(c) => {
                        env.event(lvl, name, k, "panic");
                        count_crash(env, &c, name)?;
                        resync(buf, lvl, env, p.saturating_add(used).min(env.avail).max(p))?;
                    }
                    Ok((got, good)) => {
                        env.event(lvl, name, k, &format!("{:?} {}", got, good));
                        let want: Vec<usize> = if is_over { vec![] } else { (p..p + used.min(left)).collect() };
                        if !env.closed() && used > left {
                            env.cx.fault("stall");
                        }
                        let whole = got == want || (env.went_dry(dry) && want.starts_with(&got));
                        if env.checks_value(lvl) && !(whole && good) {
                            return bad("read", format!("level {}: {} until #{} visited {:?} (answer fits: {}), expected {:?}", lvl, name, p + k, got, good, want));
                        }
                        env.at[lvl] = p + got.len();
                    }
                }
            }
            _ => {
                let k = env.ch.range(0, lvl - 1);
                env.event(lvl, "unwind", k, "");
                inject(Injected::UnwindTo(k));
            }
        }
        env.demand(NAMES[op])?;
    }
    // out of operations: leave by any of the ways
    Ok(lvl > 0 && env.ch.chance(1, 2))
}

fn run(prop: &str, ch: &mut Ch, cx: &mut Cx) -> Res {
    track::reset();
    let p = match prop {
        "C01" => Prop::Order,
        "C02" => Prop::Isolation,
        "C03" => Prop::Position,
        "C04" => Prop::Faults,
        "C13" => Prop::Drops,
        "C14" => Prop::Demand,
        _ => return bad("usage", "unknown property"),
    };
    let (n, ops, maxskip) = match ch.weighted(&[60, 24, 12, 3, 1]) {
        0 => (ch.range(0, 12), ch.range(1, 16), 8),
        1 => (ch.range(0, 40), ch.range(4, 60), 20),
        2 => (ch.range(30, 200), ch.range(10, 120), 90),
        3 => (ch.range(200, 1500), ch.range(10, 120), 700),
        _ => (ch.range(1500, 6000), ch.range(10, 80), 3000),
    };
    let stalls = ch.chance(if p == Prop::Faults { 2 } else { 1 }, 3);
    let (mut spanic, mut cpanic, mut unwinds) = (false, false, false);
    match p {
        Prop::Faults | Prop::Drops => {
            spanic = ch.chance(1, 2);
            cpanic = ch.chance(1, 2);
            unwinds = ch.chance(1, 4);
        }
        Prop::Isolation => unwinds = ch.chance(1, 2),
        _ => {}
    }
    let endless = ch.chance(1, 10);
    let (n, stalls) = if endless { (ENDLESS, false) } else { (n, stalls) };
    let overskip = !endless && ch.chance(1, 4);
    let maxdepth = *ch.pick(&[1, 2, 3, 5, 8]);
    // which operations this run favours
    let base = [10, 8, 6, 6, 3, 3, 2, 2, 2, 3, 1, if unwinds { 2 } else { 0 }, 2];
    let mut w = [0u32; OPS];
    for i in 0..OPS {
        w[i] = base[i] * [2, 1, 4, 0][ch.weighted(&[6, 4, 2, 1])];
    }
    if p == Prop::Isolation {
        w[5] = 0;
        w[4] = w[4].max(3);
    }
    w[0] = w[0].max(1);
    let (src, h) = Src::<Tok>::new(if endless { vec![] } else { (0..n as u32).collect() });
    let avail = if stalls { ch.range(0, n) } else { n };
    {
        let mut st = h.st();
        st.avail = avail;
        st.endless = endless;
        st.fuel = if endless { 1_000_000 } else { 40_000 + 20 * n as u64 };
        st.hint = ch.chance(1, 2);
        if matches!(p, Prop::Faults | Prop::Drops) && n > 0 && ch.chance(1, 3) {
            for _ in 0..ch.range(1, 6) {
                let i = ch.range(0, (n - 1).min(5_000));
                st.dry_at.push(i);
            }
        }
        if spanic && n > 0 {
            let k = ch.range(1, 4);
            for _ in 0..k {
                let i = ch.range(0, (n - 1).min(5_000));
                st.panic_at.push(i);
            }
        }
    }
    let mut buf = Buf::new(src);
    let created = h.pulled();
    let mut env = Env {
        ch,
        cx,
        h: h.clone(),
        prop: p,
        n,
        avail,
        at: vec![0],
        base: vec![0],
        need: 0,
        ops,
        maxskip,
        maxdepth,
        stalls,
        spanic,
        cpanic,
        unwinds,
        overskip,
        endless,
        w,
    };
    if created > 0 && p == Prop::Demand {
        return bad("demand", format!("creating the buffer pulled {} elements", created));
    }
    let _ = (env.spanic, env.unwinds);
    if p == Prop::Order {
        env.cx.nontrivial = n > 0;
    }
    drive(&mut buf, 0, &mut env)?;
    // the source recovers, everything arrives, the buffer is read to its end
    track::arm_clone(-1);
    h.st().avail = n;
    env.avail = n;
    let mut at = env.at[0];
    let calm = {
        let st = h.st();
        st.panic_at.is_empty() && st.dry_at.is_empty()
    };
    if endless {
        if p == Prop::Drops {
            drop(buf);
            return balanced(cx);
        }
        return never_ends(buf, at, calm, &mut env);
    }
    let mut buf = Some(buf);
    if calm && env.ch.chance(1, 2) {
        let how = env.ch.below(8) as usize;
        let got = guard(|| use_up(buf.take().expect("buffer"), how));
        env.cx.ev(998, how as u64, 0, || format!("the buffer used up: {:?}", got));
        match got {
            Ok(got) => {
                if !matches!(p, Prop::Demand | Prop::Drops) && !used_up_right(&got, at, n) {
                    return bad("read", format!("{}() on the buffer gave {:?}, {:?} when #{} to #{} were left", got.0, got.1, got.2, at, n));
                }
            }
            Err(c) => return bad("panic", format!("using the buffer up: {:?}", c)),
        }
    } else if let (true, Some(buf)) = (p != Prop::Drops, &mut buf) {
        loop {
            let dry = env.dries();
            match guard(|| buf.next()) {
                Ok(None) if env.dries() > dry => continue,
                Err(Crash::Injected(Injected::Source)) => {
                    env.cx.fault("source-panic");
                    continue;
                }
                Err(c) => return bad("panic", format!("reading on: {:?}", c)),
                Ok(t) => {
                    let got = t.as_ref().map(|t| t.code as usize);
                    let want = if at < n { Some(at) } else { None };
                    if p != Prop::Demand && got != want {
                        return bad("read", format!("reading the rest: got {:?}, expected {:?}", got, want));
                    }
                    if got.is_none() {
                        break;
                    }
                    at += 1;
                }
            }
        }
        env.cx.ev(999, at as u64, n as u64, || format!("the rest is read up to {}", at));
    }
    drop(buf);
    if p == Prop::Drops {
        return balanced(cx);
    }
    Ok(())
}

/// Some more of a source that never ends, read through adapters.
fn never_ends(mut buf: Buf<Src<Tok>>, mut at: usize, calm: bool, env: &mut Env) -> Res {
    if !calm {
        return Ok(());
    }
    for _ in 0..env.ch.range(1, 4) {
        let k = env.ch.range(0, 12);
        let code = |t: Tok| t.code as usize;
        let how = env.ch.below(6);
        let got = guard(|| -> (Vec<usize>, usize) {
            match how {
                0 => (buf.by_ref().take(k).map(code).collect(), k),
                1 => (buf.by_ref().zip(0..k).map(|(t, _)| code(t)).collect(), k + 1),
                2 => (buf.by_ref().step_by(1).take(k).map(code).collect(), k),
                3 => {
                    let mut peeks = buf.by_ref().peekable();
                    (std::iter::from_fn(|| if peeks.peek().is_some() { peeks.next() } else { None }).take(k).map(code).collect(), k)
                }
                4 => {
                    let mut c = buf.cursor();
                    let v: Vec<usize> = c.by_ref().take(k).map(code).collect();
                    (v, 0)
                }
                _ => (buf.by_ref().enumerate().take_while(|(i, _)| *i < k).map(|(_, t)| code(t)).collect(), k + 1),
            }
        });
        env.cx.ev(997, u64::from(how), k as u64, || format!("{} read in way {}: {:?}", k, how, got));
        match got {
            Err(c) => return bad("panic", format!("reading {} elements of an endless source in way {}: {:?}", k, how, c)),
            Ok((v, used)) => {
                if env.prop != Prop::Demand && v != (at..at + k).collect::<Vec<_>>() {
                    return bad("read", format!("reading {} elements from #{} of an endless source in way {}: {:?}", k, at, how, v));
                }
                at += used;
            }
        }
        env.need = env.need.max(at + k + 1);
        env.demand("reading on")?;
    }
    Ok(())
}

fn balanced(cx: &mut Cx) -> Res {
    {
        if let Some(e) = track::first_error() {
            return bad("drop", format!("an element was {}", e));
        }
        if track::live() != 0 {
            return bad("leak", format!("{} of {} elements and clones are never dropped", track::live(), track::created()));
        }
        if track::created() > 0 {
            cx.nontrivial = true;
        }
    }
    Ok(())
}

fn main() {
    sim_main("bufsim", run);
}
