//! C13: what is created is dropped, exactly once. Elements and values of the tracked zoo are
//! accounted for one by one; everything the other types own, by the heap's balance.
use super::*;
use nommy_sim::source::St;
use nommy_sim::track::Tok;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = Cell::new(0);
    static TOTAL: Cell<u64> = Cell::new(0);
}
/// Bytes of the heap this thread has asked for so far, in pieces of 8 kB or more.
pub fn asked_for() -> u64 {
    TOTAL.with(Cell::get)
}
/// Bytes of the heap this thread has in use.
pub fn in_use() -> i64 {
    LIVE.with(Cell::get)
}
pub struct Counting;
fn add(n: i64) {
    if n >= 8192 {
        let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    }
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        add(-(l.size() as i64));
        add(new as i64);
        System.realloc(p, l, new)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

fn tok_zoo() -> &'static Zoo<Tok> {
    static INIT: Once = Once::new();
    static mut ZOO: Option<Zoo<Tok>> = None;
    unsafe {
        INIT.call_once(|| ZOO = Some(Zoo::new(zoo_tok::defs(), zoo_tok::entries(), false)));
        ZOO.as_ref().expect("zoo")
    }
}

/// One parse of a session, decided beforehand.
struct Step {
    how: How,
    user: i64,
    clone: i64,
    source: Vec<usize>,
    more: usize,
    commit: bool,
}

fn steps(ch: &mut Ch, len: usize, clones: bool) -> (usize, Vec<Step>) {
    let stalls = ch.chance(1, 3);
    let avail = if stalls { ch.range(0, len) } else { len };
    let n = ch.range(1, 4);
    let v = (0..n)
        .map(|_| {
            let mut depth = if ch.chance(1, 2) { ch.range(1, 3) } else { 0 };
            let peek = ch.chance(1, 4);
            let (mut user, mut clone, mut source) = (-1, -1, vec![]);
            match ch.below(8) {
                1 | 2 => user = ch.below(14).into(),
                3 if clones => clone = ch.below(20).into(),
                4 => source = vec![ch.range(0, 12)],
                5 => {
                    source = vec![ch.range(0, 20), ch.range(0, 20)];
                    user = ch.below(20).into();
                }
                _ => {}
            }
            if ch.chance(1, 6) {
                depth = 1;
            }
            let offs = (0..depth).map(|_| if ch.chance(1, 5) { ch.range(1, 3) } else { 0 }).collect();
            let more = if stalls { ch.range(0, 6) } else { 0 };
            Step { how: How { peek, offs, reads: ch.chance(1, 2), ..How::default() }, user, clone, source, more, commit: ch.chance(2, 3) }
        })
        .collect();
    (avail, v)
}

/// What came of each step, and the faults that fired.
struct Trace {
    lines: Vec<String>,
    user: u64,
    clone: u64,
    source: u64,
    failed: u64,
    stalls: u64,
    broken: Option<String>,
}

fn play<T: El>(e: &Entry<T>, s: &[u32], avail: usize, steps: &[Step], fuel: u64, keep: bool) -> Trace {
    let (src, h) = Src::<T>::new(s.to_vec());
    let mut buf = Buf::new(src);
    let mut t = Trace { lines: vec![], user: 0, clone: 0, source: 0, failed: 0, stalls: 0, broken: None };
    h.st().avail = avail;
    for st in steps {
        {
            let mut g: std::sync::MutexGuard<St> = h.st();
            g.fuel = g.polls + fuel;
            let p = g.pulled;
            g.panic_at = st.source.iter().map(|k| p + k).collect();
        }
        track::arm_user(st.user);
        track::arm_clone(st.clone);
        let (got, _) = call(&mut buf, e, 0, &st.how, st.commit);
        track::arm_user(-1);
        track::arm_clone(-1);
        match &got {
            Err(Crash::Injected(Injected::Source)) => t.source += 1,
            Err(Crash::Injected(Injected::User)) => t.user += 1,
            Err(Crash::Injected(Injected::Clone)) => t.clone += 1,
            Ok(o) if !o.ok() => t.failed += 1,
            _ => {}
        }
        if keep {
            let text = match &got {
                Ok(o) => o.short(),
                Err(c) => format!("{:?}", c),
            };
            t.lines.push(format!("{} -> {}", st.how.text(), text));
        }
        if let Some(e) = track::first_error() {
            t.broken = Some(e);
            break;
        }
        let mut g = h.st();
        g.panic_at.clear();
        g.avail = (g.avail + st.more).min(s.len());
    }
    t.stalls = h.st().stalls;
    t
}

fn faults(cx: &mut Cx, t: &Trace) {
    for (n, name) in &[(t.user, "user-panic"), (t.clone, "clone-panic"), (t.source, "source-panic"), (t.failed, "parse-fails"), (t.stalls.min(1), "late-arrival")] {
        for _ in 0..*n {
            cx.fault(name);
        }
    }
}

fn tracked(ch: &mut Ch, cx: &mut Cx) -> Res {
    let z = tok_zoo();
    let i = ch.below(z.entries.len() as u32) as usize;
    let e = &z.entries[i];
    let s = wire(z, i).stream(ch, cx, &e.g, 0);
    let x = expect(z, &e.g, &s, 0, false);
    let (avail, st) = steps(ch, s.len(), true);
    let h = fnv(&s);
    cx.ev(1, i as u64, h, || format!("{} on {}", e.name, show(&s, false)));
    track::reset();
    let t = play(e, &s, avail, &st, 40_000 + x.fuel, true);
    faults(cx, &t);
    cx.sim_time += s.len() as u64;
    cx.nontrivial = track::created() > 0;
    for (l, st) in t.lines.iter().zip(&st) {
        cx.obs(l);
        cx.ev(20, (st.how.offs.len() * 2 + usize::from(st.how.peek)) as u64, fnv(&l.chars().map(|c| c as u32).collect::<Vec<_>>()), || l.clone());
    }
    let where_ = || format!("{} on {}: {}", e.name, show(&s, false), t.lines.join("; "));
    if let Some(err) = t.broken.clone().or_else(track::first_error) {
        return bad("drop", format!("{}: an element or value was {}", where_(), err));
    }
    let (made, left) = (track::created(), track::live());
    cx.note(|| format!("{} elements and values were created, {} are left", made, left));
    if left != 0 {
        return bad("leak", format!("{}: of {} elements and values created {} were never dropped", where_(), made, left));
    }
    Ok(())
}

fn balance<T: El>(pool: &Pool<T>, ch: &mut Ch, cx: &mut Cx) -> Res {
    let (z, e, s, _) = case(pool, "C13", ch, cx);
    let x = expect(z, &e.g, &s, 0, false);
    if x.over {
        cx.probe("too-much-for-one-run");
        return Ok(());
    }
    let (avail, st) = steps(ch, s.len(), false);
    let t = play(e, &s, avail, &st, 40_000 + x.fuel, true);
    faults(cx, &t);
    for l in &t.lines {
        cx.obs(l);
        cx.ev(21, fnv(&l.chars().map(|c| c as u32).collect::<Vec<_>>()), 0, || l.clone());
    }
    // The first time something may be set up once and for all; after that nothing may be left.
    let mut left = 0;
    for _ in 0..3 {
        let before = LIVE.with(Cell::get);
        drop(play(e, &s, avail, &st, 40_000 + x.fuel, false));
        left = LIVE.with(Cell::get) - before;
        if left == 0 {
            break;
        }
    }
    cx.sim_time += s.len() as u64;
    cx.nontrivial = !s.is_empty();
    cx.note(|| format!("{} bytes of the heap are left in use", left));
    if left != 0 {
        return bad("heap", format!("{} on {}: {}: each time this leaves {} bytes of the heap in use", e.name, text_of(z, &s), t.lines.join("; "), left));
    }
    Ok(())
}

pub fn run(p: &Pools, ch: &mut Ch, cx: &mut Cx) -> Res {
    match ch.below(6) {
        0 | 1 | 2 => tracked(ch, cx),
        3 | 4 => balance(&p.chars, ch, cx),
        _ => balance(&p.bytes, ch, cx),
    }
}
