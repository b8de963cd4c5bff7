//! C17: several parsing sessions at once, on real threads that run one at a time, the simulator
//! deciding at every read of a source and every user-written step which one goes on, and on which
//! thread a session's next parse happens, or whether it happens right there, from within the source
//! or the user-written step of the session that is going on.
use super::*;
use nommy_sim::track::on_yield;
use std::cell::RefCell;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Step {
    how: How,
    user_arm: i64,
    panic_at: Option<usize>,
    avail: usize,
    commit: bool,
}

trait Session: Send {
    /// The next parse of the session; what came of it.
    fn step(&mut self) -> String;
    /// Differs from what the reference model says.
    fn odd(&self) -> bool;
}

/// Everything needed to start a session, any number of times.
trait Plan: Send + Sync {
    fn start(&self) -> Box<dyn Session>;
    fn steps(&self) -> usize;
    fn text(&self) -> String;
}

struct Case<T: El + 'static> {
    z: &'static Zoo<T>,
    e: &'static Entry<T>,
    s: Vec<u32>,
    steps: Vec<Step>,
}

struct Live<T: El + 'static> {
    c: Arc<Case<T>>,
    buf: B<T>,
    h: Handle,
    at: usize,
    next: usize,
    lost: bool,
    odd: bool,
}

impl<T: El + Send + Sync + 'static> Plan for Arc<Case<T>> {
    fn start(&self) -> Box<dyn Session> {
        let (src, h) = Src::<T>::new(self.s.clone());
        Box::new(Live { c: self.clone(), buf: Buf::new(src), h, at: 0, next: 0, lost: false, odd: false })
    }
    fn steps(&self) -> usize {
        self.steps.len()
    }
    fn text(&self) -> String {
        format!("{} on {}", self.e.name, show(&self.s, self.z.bytes))
    }
}

impl<T: El + Send + Sync + 'static> Session for Live<T> {
    fn step(&mut self) -> String {
        let st = &self.c.steps[self.next];
        self.next += 1;
        let view = st.avail.max(self.h.pulled()).max(self.at);
        let x = if self.lost { None } else { Some(expect(self.c.z, &self.c.e.g, &self.c.s[..view], self.at, st.how.peek)) };
        {
            let mut s = self.h.st();
            s.avail = view;
            s.fuel = s.polls + x.as_ref().map_or(20_000, |x| x.fuel);
            s.panic_at = st.panic_at.map(|p| s.pulled + p).into_iter().collect();
        }
        track::arm_user(st.user_arm);
        let (got, end) = call(&mut self.buf, self.c.e, self.at, &st.how, st.commit);
        track::arm_user(-1);
        self.h.st().panic_at.clear();
        let text = match &got {
            Ok(Outcome::Value(v)) => format!("Ok({:?})", v),
            Ok(o) => o.short(),
            Err(c) => format!("{:?}", c),
        };
        let ok = matches!(&got, Ok(o) if o.ok());
        if let Some(x) = x {
            if !x.over {
                self.odd |= match &got {
                    Ok(o) => o.ok() != x.val.is_some() || matches!((o, &x.val), (Outcome::Value(v), Some(w)) if v != w),
                    Err(Crash::Injected(Injected::Source)) | Err(Crash::Injected(Injected::User)) => false,
                    Err(_) => true,
                };
                if ok && end.map_or(false, |e| e != x.end) {
                    self.odd = true;
                }
            }
            if st.how.offs.is_empty() {
                self.lost |= !ok || x.over;
                self.at = x.end;
            } else if ok && st.commit {
                self.at = end.unwrap_or(self.at);
            }
            if self.at > self.c.s.len() {
                self.lost = true;
                self.at = 0;
            }
        }
        let used = end.filter(|_| ok);
        format!("{} -> {} (stands at {:?})", st.how.text(), text, used)
    }
    fn odd(&self) -> bool {
        self.odd
    }
}

struct Inner {
    turn: usize,
    busy: Vec<bool>,
    /// per session: worker of each step
    place: Vec<Vec<usize>>,
    next: Vec<usize>,
    running: Vec<bool>,
    idle: Vec<Option<Box<dyn Session>>>,
    logs: Vec<Vec<String>>,
    plan: Vec<u32>,
    i: usize,
    /// also every so many operations that may read
    fine: u64,
    switches: u64,
    nests: u64,
    points: u64,
    done: usize,
    abort: bool,
}
struct Sched {
    m: Mutex<Inner>,
    cv: Condvar,
}
thread_local! {
    static ME: RefCell<Option<(usize, Arc<Sched>)>> = RefCell::new(None);
}

impl Inner {
    fn job(&self, w: usize) -> Option<usize> {
        (0..self.place.len()).find(|k| !self.running[*k] && self.place[*k].get(self.next[*k]) == Some(&w))
    }
    fn pick(&self) -> u32 {
        self.plan.get(self.i % self.plan.len().max(1)).copied().unwrap_or(0)
    }
    fn over(&self) -> bool {
        (0..self.place.len()).all(|k| !self.running[k] && self.next[k] >= self.place[k].len())
    }
    /// Who goes on.
    fn hand_over(&mut self, me: usize) {
        let can: Vec<usize> = (0..self.busy.len()).filter(|w| self.busy[*w] || self.job(*w).is_some()).collect();
        self.points += 1;
        if can.is_empty() {
            return;
        }
        let pick = self.pick() as usize;
        self.i += 1;
        let to = can[pick % can.len()];
        if to != me {
            self.switches += 1;
        }
        self.turn = to;
    }
}

/// Marks a place of the schedule where another session's next parse on this thread is run from
/// within the current one.
const NEST: u32 = 100;

/// The next parse of session `k`, on thread `me`.
fn one_step<'a>(s: &'a Sched, mut g: MutexGuard<'a, Inner>, k: usize) -> MutexGuard<'a, Inner> {
    g.running[k] = true;
    let mut sess = g.idle[k].take().expect("session");
    drop(g);
    let line = sess.step();
    let mut g = s.m.lock().expect("sched");
    g.logs[k].push(line);
    g.idle[k] = Some(sess);
    g.running[k] = false;
    g.next[k] += 1;
    g
}

fn yield_here() {
    ME.with(|m| {
        if let Some((me, s)) = &*m.borrow() {
            let mut g = s.m.lock().expect("sched");
            if g.pick() >= NEST {
                if let Some(k) = g.job(*me) {
                    g.i += 1;
                    g.points += 1;
                    g.nests += 1;
                    let user = track::user_arm();
                    drop(one_step(s, g, k));
                    track::arm_user(user);
                    return;
                }
            }
            g.hand_over(*me);
            s.cv.notify_all();
            while g.turn != *me && !g.abort {
                g = s.cv.wait(g).expect("sched");
            }
        }
    });
}

thread_local! {
    static COUNT: RefCell<u64> = RefCell::new(0);
}
/// In between the reads only another thread may take over.
fn yield_between() {
    ME.with(|m| {
        if let Some((me, s)) = &*m.borrow() {
            let mut g = s.m.lock().expect("sched");
            let n = COUNT.with(|c| {
                *c.borrow_mut() += 1;
                *c.borrow()
            });
            if n % g.fine != 0 {
                return;
            }
            g.hand_over(*me);
            s.cv.notify_all();
            while g.turn != *me && !g.abort {
                g = s.cv.wait(g).expect("sched");
            }
        }
    });
}

fn worker(me: usize, s: Arc<Sched>) {
    ME.with(|m| *m.borrow_mut() = Some((me, s.clone())));
    track::watch();
    let mut g = s.m.lock().expect("sched");
    let fine = g.fine > 0;
    loop {
        while g.turn != me && !g.over() && !g.abort {
            g = s.cv.wait(g).expect("sched");
        }
        if g.over() || g.abort {
            g.done += 1;
            s.cv.notify_all();
            return;
        }
        match g.job(me) {
            None => {
                g.hand_over(me);
                s.cv.notify_all();
            }
            Some(k) => {
                g.busy[me] = true;
                on_yield(Some(yield_here));
                track::on_op(if fine { Some(yield_between) } else { None });
                g = one_step(&s, g, k);
                track::on_op(None);
                on_yield(None);
                g.busy[me] = false;
                g.hand_over(me);
                s.cv.notify_all();
            }
        }
    }
}

struct Seen {
    logs: Vec<Vec<String>>,
    odd: Vec<bool>,
    switches: u64,
    nests: u64,
    points: u64,
}

/// Runs all sessions under the schedule; None if nothing moves any more.
fn together(plans: &[Box<dyn Plan>], place: &[Vec<usize>], workers: usize, plan: &[u32], fine: u64, wait: u64) -> Option<Seen> {
    let n = plans.len();
    let s = Arc::new(Sched {
        m: Mutex::new(Inner {
            turn: 0,
            busy: vec![false; workers],
            place: place.to_vec(),
            next: vec![0; n],
            running: vec![false; n],
            idle: plans.iter().map(|p| Some(p.start())).collect(),
            logs: vec![vec![]; n],
            plan: plan.to_vec(),
            i: 0,
            fine,
            switches: 0,
            nests: 0,
            points: 0,
            done: 0,
            abort: false,
        }),
        cv: Condvar::new(),
    });
    let ts: Vec<_> = (0..workers)
        .map(|w| {
            let s = s.clone();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || worker(w, s)).expect("thread")
        })
        .collect();
    let mut last = (u64::MAX, Instant::now());
    let mut g = s.m.lock().expect("sched");
    while g.done < workers {
        if g.points != last.0 {
            last = (g.points, Instant::now());
        }
        if last.1.elapsed() > Duration::from_secs(wait) {
            g.abort = true;
            s.cv.notify_all();
            return None;
        }
        g = s.cv.wait_timeout(g, Duration::from_secs(1)).expect("sched").0;
    }
    let logs = std::mem::replace(&mut g.logs, vec![]);
    let odd = g.idle.iter().map(|o| o.as_ref().map_or(false, |x| x.odd())).collect();
    let seen = Seen { logs, odd, switches: g.switches, nests: g.nests, points: g.points };
    g.idle.clear();
    drop(g);
    for t in ts {
        let _ = t.join();
    }
    Some(seen)
}

/// One session by itself, on a thread of its own.
fn solo(p: &dyn Plan, wait: u64) -> Option<(Vec<String>, bool)> {
    struct Wrap(Box<dyn Session>, usize);
    let w = Wrap(p.start(), p.steps());
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let Wrap(mut sess, n) = w;
            let log: Vec<String> = (0..n).map(|_| sess.step()).collect();
            let odd = sess.odd();
            drop(sess);
            let _ = tx.send((log, odd));
        })
        .expect("thread");
    rx.recv_timeout(Duration::from_secs(wait)).ok()
}

/// On one thread: one session over and over, then each of the sessions.
fn storm(plans: &[Box<dyn Plan>], k: usize, reps: usize, wait: u64) -> Option<Vec<Vec<String>>> {
    struct Wrap(Vec<Box<dyn Session>>, Vec<(Box<dyn Session>, usize)>);
    let n = plans[k].steps();
    let w = Wrap((0..reps).map(|_| plans[k].start()).collect(), plans.iter().map(|p| (p.start(), p.steps())).collect());
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let Wrap(many, each) = w;
            for mut sess in many {
                for _ in 0..n {
                    let _ = sess.step();
                }
            }
            let logs: Vec<Vec<String>> = each.into_iter().map(|(mut sess, n)| (0..n).map(|_| sess.step()).collect()).collect();
            let _ = tx.send(logs);
        })
        .expect("thread");
    rx.recv_timeout(Duration::from_secs(wait)).ok()
}

fn plan_of<T: El + Send + Sync + 'static>(pool: &'static Pool<T>, same: Option<(usize, usize)>, ch: &mut Ch, cx: &mut Cx) -> (Box<dyn Plan>, (usize, usize)) {
    let (zi, i) = match same {
        Some(x) => x,
        None => {
            let (z, _, i) = pool.pick(ch, 0);
            (pool.zoos.iter().position(|o| std::ptr::eq(o, z)).unwrap_or(0), i)
        }
    };
    let z = &pool.zoos[zi];
    let e = &z.entries[i];
    let w = wire(z, i);
    let mut s = if ch.chance(1, 3) { w.sentence(ch, &e.g, 24, 6) } else { w.stream(ch, cx, &e.g, 0) };
    s.truncate(400);
    let n = ch.range(1, 3);
    let steps = (0..n)
        .map(|k| {
            let last = k + 1 == n;
            let (mut user_arm, mut panic_at, mut avail) = (-1, None, s.len());
            if !last || ch.chance(1, 4) {
                match ch.below(6) {
                    1 => user_arm = i64::from(ch.below(4)),
                    2 | 3 => panic_at = Some(ch.range(0, 6)),
                    4 => avail = ch.range(0, s.len()),
                    _ => {}
                }
            }
            let offs = if last && ch.chance(1, 2) { vec![] } else { vec![0; ch.range(1, 3)] };
            let how = How { peek: ch.chance(1, 6), offs, ..How::default() };
            Step { how, user_arm, panic_at, avail, commit: !ch.chance(1, 4) }
        })
        .collect();
    (Box::new(Arc::new(Case { z, e, s, steps })), (zi, i))
}

struct Setup {
    plans: Vec<Box<dyn Plan>>,
    place: Vec<Vec<usize>>,
    workers: usize,
    schedule: Vec<u32>,
    fine: u64,
    storm: Option<(usize, usize)>,
}
fn setup(p: &'static Pools, ch: &mut Ch, cx: &mut Cx) -> Setup {
    let n = ch.range(2, 4);
    let workers = ch.range(1, 4);
    let bytes = ch.chance(1, 4);
    let shared = ch.chance(1, 2);
    let mut same = None;
    let plans: Vec<Box<dyn Plan>> = (0..n)
        .map(|_| {
            let (plan, at) = if bytes { plan_of(&p.bytes, same, ch, cx) } else { plan_of(&p.chars, same, ch, cx) };
            if shared {
                same = Some(at);
            }
            plan
        })
        .collect();
    let place = plans.iter().map(|p| (0..p.steps()).map(|_| ch.below(workers as u32) as usize).collect()).collect();
    // bursts: how long a thread goes on before the next
    let m = ch.range(1, 40);
    let mut schedule = vec![];
    let nesting = ch.chance(1, 2);
    for _ in 0..m {
        let who = ch.below(12) + if nesting && ch.chance(1, 3) { NEST } else { 0 };
        let long = ch.weighted(&[6, 2, 1, 1]) * 3 + 1;
        schedule.extend(vec![who; long]);
    }
    let storm = if ch.chance(1, 12) { Some((ch.below(n as u32) as usize, *ch.pick(&[30, 300, 300, 300, 300, 300, 1100]))) } else { None };
    let fine = if workers > 1 && ch.chance(1, 3) { *ch.pick(&[29, 11, 3, 1]) } else { 0 };
    Setup { plans, place, workers, schedule, fine, storm }
}

/// Session `idx` of the run with these choices, in a process that has done nothing else.
pub fn alone(file: &str, idx: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(file).expect("choices");
    let choices = text.split_whitespace().map(|w| w.parse().expect("choice")).collect();
    let mut ch = Ch::replay(choices);
    let s = setup(pools(), &mut ch, &mut Cx::new(false));
    if let Some((log, _)) = solo(&*s.plans[idx.parse::<usize>().expect("index")], 60) {
        for l in log {
            println!("{}", nommy_sim::run::json_str(&l));
        }
    }
}

static CHILDREN: AtomicU32 = AtomicU32::new(0);

fn pristine(choices: &[u32], idx: usize) -> Option<Vec<String>> {
    let k = CHILDREN.fetch_add(1, Ordering::SeqCst);
    if k >= 40 {
        return None;
    }
    let file = std::env::temp_dir().join(format!("nommy-sim-{}-{}", std::process::id(), k));
    let text: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    std::fs::write(&file, text.join("\n")).ok()?;
    let out = std::process::Command::new(std::env::current_exe().ok()?).arg("alone").arg(&file).arg(idx.to_string()).output();
    let _ = std::fs::remove_file(&file);
    let out = out.ok()?;
    if !out.status.success() {
        return None;
    }
    Some(String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect())
}

pub fn run(p: &'static Pools, ch: &mut Ch, cx: &mut Cx) -> Res {
    let s = setup(p, ch, cx);
    for (k, plan) in s.plans.iter().enumerate() {
        cx.note(|| format!("session {}: {}, its parses on threads {:?}", k, plan.text(), s.place[k]));
    }
    cx.note(|| format!("{} threads, schedule {:?}, switching {}", s.workers, s.schedule, if s.fine > 0 { format!("at reads and every {} operations", s.fine) } else { "at reads".to_string() }));
    let alone = |k: usize| solo(&*s.plans[k], 30).or_else(|| solo(&*s.plans[k], 60));
    let mut first = vec![];
    let mut odd = vec![];
    for k in 0..s.plans.len() {
        match alone(k) {
            Some((l, o)) => {
                first.push(l);
                odd.push(o);
            }
            // it hangs all by itself: that is another matter
            None => return Ok(()),
        }
    }
    let stormed = match s.storm {
        None => None,
        Some((k, reps)) => {
            for _ in 0..reps {
                cx.fault("session-repeated");
            }
            cx.note(|| format!("session {} {} times over, then all of them, on one thread", k, reps));
            match storm(&s.plans, k, reps, 60).or_else(|| storm(&s.plans, k, reps, 120)) {
                Some(l) => Some(l),
                None => return bad("blocked", format!("after {} times {}, nothing goes on", reps, s.plans[k].text())),
            }
        }
    };
    let mut all = together(&s.plans, &s.place, s.workers, &s.schedule, s.fine, 15);
    if all.is_none() {
        all = together(&s.plans, &s.place, s.workers, &s.schedule, s.fine, 30);
    }
    let texts: Vec<String> = s.plans.iter().map(|p| p.text()).collect();
    let all = match all {
        Some(a) => a,
        None => return bad("blocked", format!("sessions that finish alone block each other: {:?}", texts)),
    };
    let mut again = vec![];
    for k in 0..s.plans.len() {
        match alone(k) {
            Some((l, _)) => again.push(l),
            None => return bad("blocked", format!("after running concurrently, {} does not finish alone any more", texts[k])),
        }
    }
    cx.sim_time += all.points;
    for _ in 0..all.switches {
        cx.fault("thread-switch");
    }
    for _ in 0..all.nests {
        cx.fault("session-run-inside-another");
    }
    let moved = s.place.iter().filter(|p| p.iter().any(|w| *w != p[0])).count();
    for _ in 0..moved {
        cx.fault("session-moved-to-another-thread");
    }
    for l in first.iter().flatten() {
        if l.contains("Injected(User)") {
            cx.fault("user-panic");
        } else if l.contains("Injected(Source)") {
            cx.fault("source-panic");
        } else if l.contains("Err(") {
            cx.fault("other-session-fails");
        }
    }
    cx.nontrivial = all.switches > 0 || all.nests > 0;
    for k in 0..s.plans.len() {
        for l in &first[k] {
            cx.obs(l);
        }
    }
    cx.ev(70, all.switches, all.points, || format!("{} switches at {} scheduling points", all.switches, all.points));
    let h = s.plans.iter().fold(0u64, |h, p| p.text().bytes().fold(h, |h, b| h.wrapping_mul(31).wrapping_add(u64::from(b))));
    cx.ev(71, h, fnv(&s.schedule), || first.iter().enumerate().map(|(k, l)| format!("session {}: {}", k, l.join(" / "))).collect::<Vec<_>>().join("; "));
    for k in 0..s.plans.len() {
        let stormed = stormed.as_ref().map_or(&first[k], |l| &l[k]);
        for (what, other) in &[
            ("after many repetitions of one of them", stormed),
            ("together with the others", &all.logs[k]),
            ("alone, once more, afterwards", &again[k]),
        ] {
            if *other != &first[k] {
                let i = (0..first[k].len()).find(|i| other.get(*i) != Some(&first[k][*i])).unwrap_or(0);
                return bad(
                    "influence",
                    format!(
                        "session {} ({}), parse {}: alone: {}; {}: {}",
                        k, texts[k], i + 1, first[k][i], what, other.get(i).map_or("nothing", |s| s.as_str())
                    ),
                );
            }
        }
    }
    // Alone, but not the first parse of this process: does a pristine process agree?
    for k in 0..s.plans.len() {
        if odd[k] || all.odd[k] {
            if let Some(p) = pristine(&ch.log, k) {
                let here: Vec<String> = first[k].iter().map(|l| nommy_sim::run::json_str(l)).collect();
                if p != here && !p.is_empty() {
                    return bad("history", format!("session {} ({}): in this process {:?}, in a fresh one {:?}", k, texts[k], here, p));
                }
            }
        }
    }
    Ok(())
}
