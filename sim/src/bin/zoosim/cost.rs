//! C22: the work of a parse is in proportion to what its definition has to look at.
//! C24: the stack it uses is in proportion to how deep its parts nest.
use super::drops::asked_for;
use super::*;

pub fn of<T: El>(pool: &Pool<T>, prop: &str, ch: &mut Ch, cx: &mut Cx) -> Res {
    let (z, e, i) = pool.pick(ch, 0);
    let w = wire(z, i);
    let junk = match ch.range(0, 30) {
        0 => ch.range(300, 12_000),
        1..=10 => ch.range(1, 300),
        _ => 0,
    };
    let (budget, reps) = if ch.chance(1, if prop == "C24" { 25 } else { 60 }) { (20_000, 20_000) } else { *ch.pick(&[(16, 6), (60, 30), (300, 100), (1_200, 400), (4_000, 1_500)]) };
    let mut s: Vec<u32> = (0..junk).map(|_| w.element(ch)).collect();
    s.extend(w.sentence(ch, &e.g, budget, reps));
    s.truncate(25_000 + junk);
    w.damage(ch, cx, &mut s, junk, &e.g, 3);
    let tail = if ch.chance(1, 2) { 0 } else { ch.range(0, 400) };
    for _ in 0..tail {
        let c = w.element(ch);
        s.push(c);
    }
    let n = s.len();
    cx.ev(1, fnv(&s), n as u64, || format!("{} on {}", e.name, text_of(z, &s)));
    let (src, h) = Src::<T>::new(s.clone());
    h.st().hint = ch.chance(1, 2);
    let mut buf = Buf::new(src);
    // where the buffer is, and where what is parsed starts
    let (mut base, mut at) = (0, junk);
    // what is in front may have been looked at already, and what follows too
    let far = if ch.chance(1, 3) { Some(ch.range(0, n + 3)) } else { None };
    // and it is the buffer that skips it, or the cursors
    let skip = ch.chance(1, 2);
    let (_, stack) = track::stack_of(|| {
        if let Some(far) = far {
            let _ = guard(|| drop(buf.peek_ahead(far)));
        }
        if skip {
            let _ = guard(|| buf.fast_forward(junk));
        }
    });
    if skip {
        base = junk;
    }
    if prop == "C24" && stack > 65_536 {
        return bad("stack", format!("{} bytes of the stack used looking {:?} ahead and skipping {} of {}", stack, far, junk, text_of(z, &s)));
    }
    let rounds = ch.range(1, 4);
    let mut view = h.pulled().max(at);
    for k in 0..rounds {
        view = if k + 1 == rounds { n } else { view + ch.range(0, n - view) };
        h.st().avail = view;
        h.st().fuel = u64::MAX;
        let peek = ch.chance(1, 4);
        let direct = base == at && k + 1 == rounds && ch.chance(1, 2);
        let x = expect(z, &e.g, &s[..view], at, peek);
        if x.over || x.work > 200_000 {
            cx.probe("too-much-for-one-run");
            return Ok(());
        }
        let flaky = !direct && ch.chance(1, 6);
        if flaky {
            let p = h.pulled() + ch.range(0, x.need.saturating_sub(at).min(200));
            h.st().panic_at = vec![p];
        }
        let mut offs = if direct { vec![] } else { vec![0; ch.range(1, 3)] };
        if at > base {
            let k = ch.range(0, offs.len() - 1);
            let most = ch.range(0, at - base);
            offs[k] = most;
            offs[0] += at - base - most;
        }
        let how = How { peek, offs, reads: ch.chance(1, 8), ..How::default() };
        let work = x.work + (at - base) as u64;
        let allowed = 400 + 16 * work;
        let heap = 200_000 + 200 * work;
        let (ops0, heap0) = (track::ops(), asked_for());
        track::budget(Some(4 * allowed));
        let ((got, end), stack) = track::stack_of(|| call(&mut buf, e, base, &how, !peek));
        let (ops, bytes) = (track::ops() - ops0, asked_for() - heap0);
        track::budget(None);
        h.st().panic_at.clear();
        cx.sim_time += ops;
        if view < n {
            cx.fault("late-arrival");
        }
        if let Err(Crash::Injected(Injected::Source)) = got {
            cx.fault("source-panic");
        }
        let ok = matches!(&got, Ok(o) if o.ok());
        cx.ev(90 + u64::from(ok), x.work, ops, || {
            format!("{} at {} [arrived {}] -> {}: {} operations for {} looks and attempts, {} bytes asked for", how.text(), base, view, if ok { "yes" } else { "no" }, ops, work, bytes)
        });
        cx.nontrivial |= if prop == "C24" { x.need.saturating_sub(at) > 60 || x.depth > 5 } else { x.work > 40 };
        if let Err(Crash::Own(_)) = got {
            // not for this property to say
            return Ok(());
        }
        if prop == "C24" {
            let room = 65_536 + 16_384 * x.depth;
            if stack > room {
                return bad(
                    "stack",
                    format!(
                        "{}: {} at {} of {} [arrived {}]: {} bytes of the stack used, where parts nest {} deep",
                        e.name, how.text(), base, text_of(z, &s), view, stack, x.depth
                    ),
                );
            }
        } else if ops > allowed {
            let more = if matches!(got, Err(Crash::Injected(Injected::Fuel))) { "more than " } else { "" };
            return bad(
                "work",
                format!(
                    "{}: {} at {} of {} [arrived {}]: {}{} operations on buffers and cursors, where the definition has to look at elements and attempt parts {} times",
                    e.name, how.text(), base, text_of(z, &s), view, more, ops, work
                ),
            );
        }
        if prop == "C22" && bytes > heap {
            return bad(
                "heap",
                format!(
                    "{}: {} at {} of {} [arrived {}]: {} bytes of the heap asked for, where the definition has to look at elements and attempt parts {} times",
                    e.name, how.text(), base, text_of(z, &s), view, bytes, work
                ),
            );
        }
        if direct {
            return Ok(());
        }
        if ok && !peek {
            at = end.unwrap_or(at);
            base = at;
        }
    }
    Ok(())
}

pub fn run(p: &Pools, prop: &str, ch: &mut Ch, cx: &mut Cx) -> Res {
    if ch.chance(1, 4) {
        of(&p.bytes, prop, ch, cx)
    } else {
        of(&p.chars, prop, ch, cx)
    }
}
