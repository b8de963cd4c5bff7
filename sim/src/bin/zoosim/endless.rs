//! C21: a buffer on an endless stream holds what was looked ahead at, not what was consumed.
use super::drops::in_use;
use super::*;

/// One operation of the program that is repeated along the stream.
#[derive(Clone, Debug)]
enum Op {
    Parse { peek: bool, depth: usize, commit: bool, direct: bool },
    Next(usize),
    Nth(usize),
    Skip(usize),
    Ahead(usize),
    /// a cursor that reads so many and is then given up, by a panic or not
    Read { n: usize, unwind: bool, commit: bool },
    /// the source fails in so many elements
    Fail(usize),
    /// the source is dry once in so many elements
    Dry(usize),
    /// a user-written step fails after so many
    User(i64),
}

fn program(ch: &mut Ch) -> Vec<Op> {
    let n = ch.range(1, 5);
    (0..n)
        .map(|_| match ch.below(16) {
            0 => Op::Next(ch.range(1, 9)),
            1 => Op::Skip(ch.range(1, 60)),
            2 => Op::Ahead(ch.range(0, 60)),
            3 => Op::Read { n: ch.range(1, 40), unwind: ch.chance(1, 6), commit: ch.chance(1, 2) },
            4 => Op::Fail(ch.range(0, 20)),
            5 => Op::Dry(ch.range(0, 20)),
            6 => Op::User(i64::from(ch.below(6))),
            7 => Op::Nth(ch.range(0, 9)),
            _ => Op::Parse { peek: ch.chance(1, 5), depth: ch.range(1, 3), commit: ch.chance(3, 4), direct: ch.chance(1, 2) },
        })
        .collect()
}

pub fn stream_of<T: El>(pool: &Pool<T>, ch: &mut Ch, cx: &mut Cx, size: usize) -> Res {
    let (z, e, _) = pool.pick(ch, 0);
    let i = z.entries.iter().position(|o| std::ptr::eq(o, e)).unwrap_or(0);
    let w = wire(z, i);
    let mut chunk = vec![];
    for _ in 0..ch.range(1, 4) {
        chunk.extend(w.sentence(ch, &e.g, 24, 8));
        w.damage(ch, cx, &mut chunk, 0, &e.g, 2);
        if ch.chance(2, 3) {
            chunk.push(1);
        }
    }
    chunk.truncate(400);
    chunk.push(1);
    let prog = program(ch);
    let total = 80_000 / size;
    // the same over and over, or something new every time
    let fresh = if ch.chance(1, 2) { Some(ch.below(1 << 30)) } else { None };
    let told = || match fresh {
        Some(seed) => format!("messages made from the seed {}, the first of them {}", seed, show(&chunk, z.bytes)),
        None => format!("the endless repetition of {}", show(&chunk, z.bytes)),
    };
    cx.ev(1, fnv(&chunk), prog.len() as u64, || format!("{}: the stream is {}; along it, again and again: {:?}", e.name, told(), prog));
    // what the source itself holds is not counted
    let script: Vec<u32> = match fresh {
        None => chunk.iter().copied().cycle().take(total).collect(),
        Some(seed) => {
            let mut sub = Ch::random(u64::from(seed));
            let mut v = chunk.clone();
            while v.len() < total {
                let from = v.len();
                v.extend(w.sentence(&mut sub, &e.g, 24, 8));
                w.damage(&mut sub, cx, &mut v, from, &e.g, 2);
                v.truncate(from + 400);
                // nothing is made of these, and no two alike
                let odd = if z.bytes { sub.below(256) } else { 0x4e00 + sub.below(0x5000) };
                let at = from + sub.range(0, v.len() - from);
                v.insert(at, odd);
                if sub.chance(2, 3) {
                    v.push(1);
                }
            }
            v.truncate(total);
            v
        }
    };
    let (src, h) = Src::<T>::new(script.clone());
    {
        let mut st = h.st();
        st.panic_at.reserve(4);
        st.dry_at.reserve(4);
        st.fuel = u64::MAX;
    }
    let base = in_use();
    let mut buf = Buf::new(src);
    let (mut at, mut most, mut rounds, mut work) = (0usize, 0usize, 0usize, 0usize);
    let mut worst = 0i64;
    while at + 1000 < total && rounds < 40_000 && work < 2_000_000 {
        rounds += 1;
        let from = at;
        let mut user = -1;
        for op in &prog {
            let start = at;
            let r = match op {
                Op::Fail(n) => {
                    let mut st = h.st();
                    st.panic_at.clear();
                    let p = st.pulled + n;
                    st.panic_at.push(p);
                    continue;
                }
                Op::Dry(n) => {
                    let mut st = h.st();
                    st.dry_at.clear();
                    let p = st.pulled + n;
                    st.dry_at.push(p);
                    continue;
                }
                Op::User(n) => {
                    user = *n;
                    continue;
                }
                Op::Next(n) => {
                    let mut got = Ok(());
                    for _ in 0..*n {
                        match guard(|| buf.next().is_some()) {
                            Ok(true) => at += 1,
                            Ok(false) => {}
                            Err(c) => got = Err(c),
                        }
                    }
                    got
                }
                Op::Nth(n) => {
                    // a fault in the middle leaves open how many were read
                    quiet(&h);
                    at += n + 1;
                    guard(|| drop(buf.nth(*n)))
                }
                Op::Skip(n) => {
                    quiet(&h);
                    at += n;
                    guard(|| buf.fast_forward(*n))
                }
                Op::Ahead(n) => guard(|| drop(buf.peek_ahead(*n))),
                Op::Read { n, unwind, commit } => {
                    let r = guard(|| {
                        let mut c = buf.cursor();
                        for _ in 0..*n {
                            let _ = c.next();
                        }
                        if *unwind {
                            nommy_sim::run::inject(Injected::UnwindTo(0));
                        }
                        c.position()
                    });
                    quiet(&h);
                    match r {
                        Ok(p) if *commit => {
                            at += p;
                            guard(|| buf.fast_forward(p))
                        }
                        Ok(_) => Ok(()),
                        Err(c) => Err(c),
                    }
                }
                Op::Parse { peek, depth, commit, direct } => {
                    let faulty = user >= 0 || !h.st().panic_at.is_empty() || !h.st().dry_at.is_empty();
                    let mut to = None;
                    if *direct && !faulty && !*peek {
                        let x = expect(z, &e.g, &script, at, false);
                        if x.over {
                            cx.probe("too-much-for-one-run");
                            return Ok(());
                        }
                        to = if x.val.is_some() { Some(x.end) } else { None };
                    }
                    let offs = if to.is_some() { vec![] } else { vec![0; *depth] };
                    let how = How { peek: *peek, offs, ..How::default() };
                    if to.is_none() {
                        track::arm_user(user);
                    }
                    user = -1;
                    let (got, end) = call(&mut buf, e, at, &how, false);
                    track::arm_user(-1);
                    quiet(&h);
                    match (got, to, end) {
                        (Ok(_), Some(to), _) => {
                            at = to;
                            Ok(())
                        }
                        (Ok(o), None, Some(end)) => {
                            if *commit && o.ok() && end > at {
                                let n = end - at;
                                at = end;
                                guard(|| buf.fast_forward(n))
                            } else {
                                Ok(())
                            }
                        }
                        (Ok(_), ..) => Ok(()),
                        (Err(c), ..) => Err(c),
                    }
                }
            };
            if let Err(Crash::Own(_)) = r {
                // not for this property to say
                return Ok(());
            }
            if let Err(Crash::Injected(k)) = r {
                cx.fault(match k {
                    Injected::Source => "source-panic",
                    Injected::User => "user-panic",
                    _ => "abandoned-by-unwinding",
                });
            }
            let ahead = h.pulled().saturating_sub(start);
            most = most.max(ahead);
            work += ahead;
            if most > 1_200 {
                // what may be held is as much as the stream has
                cx.probe("looks-too-far-ahead");
                return Ok(());
            }
        }
        quiet(&h);
        if at == from {
            let _ = guard(|| drop(buf.next()));
            at += 1;
        }
        worst = worst.max(in_use() - base);
    }
    for _ in 0..h.st().dries {
        cx.fault("source-dry-once");
    }
    let allowed = 8_000 + 8 * (size * most) as i64;
    cx.sim_time += at as u64;
    cx.ev(80, rounds as u64, at as u64, || format!("{} rounds, {} elements consumed, at most {} ahead: {} bytes of the heap in use at most", rounds, at, most, worst));
    cx.nontrivial = (at * size) as i64 > 2 * allowed;
    if worst > allowed {
        return bad(
            "grows",
            format!(
                "{}: on {}, repeating {:?}: after {} elements, never more than {} ahead, {} bytes of the heap are in use",
                e.name, told(), prog, at, most, worst
            ),
        );
    }
    Ok(())
}

fn quiet(h: &Handle) {
    let mut st = h.st();
    st.panic_at.clear();
    st.dry_at.clear();
}

pub fn run(p: &Pools, ch: &mut Ch, cx: &mut Cx) -> Res {
    if ch.chance(1, 4) {
        stream_of(&p.bytes, ch, cx, 1)
    } else {
        stream_of(&p.chars, ch, cx, 4)
    }
}
