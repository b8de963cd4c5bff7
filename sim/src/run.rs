//! Run loop, statistics, minimisation and reporting, shared by the simulators.
use crate::ch::{mix, Ch};
use std::any::Any;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::time::Instant;

/// Payload of every panic the simulator injects.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Injected {
    /// the source failed while producing an element
    Source,
    /// cloning an element failed
    Clone,
    /// a user-written parser or conversion failed hard
    User,
    /// more reads of the source or operations than the run can need: the code loops
    Fuel,
    /// simulated cancellation: unwind to the given depth
    UnwindTo(usize),
}

pub fn inject(kind: Injected) -> ! {
    panic::resume_unwind(Box::new(kind))
}

/// What came out of a call into the code under test.
#[derive(Debug, Clone, PartialEq)]
pub enum Crash {
    Injected(Injected),
    /// the code itself panicked
    Own(String),
}

pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Crash> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(classify)
}

pub fn classify(p: Box<dyn Any + Send>) -> Crash {
    if let Some(i) = p.downcast_ref::<Injected>() {
        Crash::Injected(*i)
    } else if let Some(s) = p.downcast_ref::<String>() {
        Crash::Own(s.clone())
    } else if let Some(s) = p.downcast_ref::<&str>() {
        Crash::Own((*s).to_string())
    } else {
        Crash::Own("(unknown panic payload)".to_string())
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub fn bad<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), msg: msg.into() })
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sim_time: u64,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
}

/// What a run sees besides its choices.
pub struct Cx {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sim_time: u64,
    pub nontrivial: bool,
    pub verbose: bool,
    pub lines: Vec<String>,
    /// hash over everything that happened: equal for equal executions
    pub full: u64,
    /// hash over the shape of what happened: counts distinct executions
    pub sig: u64,
}

impl Cx {
    pub fn new(verbose: bool) -> Self {
        Cx {
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            sim_time: 0,
            nontrivial: false,
            verbose,
            lines: vec![],
            full: 0,
            sig: 0,
        }
    }
    pub fn fault(&mut self, name: &'static str) {
        *self.faults.entry(name).or_insert(0) += 1;
    }
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    /// One event of the execution: goes into both hashes and, when replaying, into the trace.
    pub fn ev(&mut self, kind: u64, a: u64, b: u64, line: impl FnOnce() -> String) {
        self.full = mix(&[self.full, kind, a, b]);
        self.sig = mix(&[self.sig, kind, a, b]);
        if self.verbose {
            let l = line();
            self.lines.push(l);
        }
    }
    pub fn note(&mut self, line: impl FnOnce() -> String) {
        if self.verbose {
            let l = line();
            self.lines.push(l);
        }
    }
    /// Outcome detail: in the replay hash, not in the shape.
    pub fn obs(&mut self, text: &str) {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in text.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
        }
        self.full = mix(&[self.full, h]);
    }
}

pub type RunFn = fn(&str, &mut Ch, &mut Cx) -> Result<(), Violation>;

fn run_once(f: RunFn, prop: &str, ch: &mut Ch, cx: &mut Cx) -> Result<(), Violation> {
    crate::track::budget(None);
    match guard(|| f(prop, ch, cx)) {
        Ok(r) => r,
        Err(c) => bad("escaped-panic", format!("a panic escaped where none may: {:?}", c)),
    }
}

fn minimise(f: RunFn, prop: &str, start: Vec<u32>, class: &str) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let mut evals = 0u64;
    let mut best = start;
    let same = |cand: &Vec<u32>, evals: &mut u64| -> Option<Vec<u32>> {
        if *evals > 6000 || t0.elapsed().as_secs() > 25 {
            return None;
        }
        *evals += 1;
        let mut ch = Ch::replay(cand.clone());
        let mut cx = Cx::new(false);
        match run_once(f, prop, &mut ch, &mut cx) {
            Err(v) if v.class == class => {
                let mut log = ch.log;
                while log.last() == Some(&0) {
                    log.pop();
                }
                Some(log)
            }
            _ => None,
        }
    };
    if let Some(b) = same(&best.clone(), &mut evals) {
        best = b;
    }
    loop {
        let before = best.clone();
        for size in &[64usize, 32, 16, 8, 6, 5, 4, 3, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                if let Some(b) = same(&cand, &mut evals) {
                    if b.len() < best.len() {
                        best = b;
                        continue;
                    }
                }
                i += (*size / 2).max(1);
            }
        }
        for size in &[8usize, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    for v in &mut cand[i..end] {
                        *v = 0;
                    }
                    if let Some(b) = same(&cand, &mut evals) {
                        if b.len() <= best.len() {
                            best = b;
                        }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut step = best[i] / 2;
            while step > 0 && i < best.len() && best[i] > 0 {
                let mut cand = best.clone();
                cand[i] = cand[i].saturating_sub(step.max(1));
                match same(&cand, &mut evals) {
                    Some(b) if b.len() <= best.len() => {
                        best = b;
                        if i < best.len() {
                            step = step.min(best[i]);
                        }
                    }
                    _ => step /= 2,
                }
            }
            i += 1;
        }
        if best == before || evals > 6000 || t0.elapsed().as_secs() > 25 {
            return (best, evals);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_map(m: &BTreeMap<&'static str, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {}", json_str(k), n)).collect();
    format!("{{{}}}", v.join(", "))
}

fn json_list(v: &[String]) -> String {
    let v: Vec<String> = v.iter().map(|s| json_str(s)).collect();
    format!("[{}]", v.join(", "))
}

fn prop_num(p: &str) -> u64 {
    p.bytes().fold(0, |a, b| a * 256 + u64::from(b))
}

pub fn is_debug() -> bool {
    cfg!(debug_assertions)
}

fn run_seed(sim: &str, prop: &str, seed: u64, idx: u64) -> u64 {
    mix(&[prop_num(sim), prop_num(prop), seed, idx, u64::from(is_debug())])
}

/// Commands:
///   run    PROP SEED START COUNT OUT CUR MAXSECS   many runs; OUT: statistics or violation
///   one    PROP SEED IDX DUMP                      one run by number, its choices written to DUMP
///   replay PROP FILE                               one run by its list of choices
///   log    PROP SEED START COUNT                   hash of every run's event log
pub fn sim_main(sim: &str, f: RunFn) {
    panic::set_hook(Box::new(|_| {}));
    crate::track::watch();
    let args: Vec<String> = std::env::args().collect();
    let num = |i: usize| -> u64 { args[i].parse().expect("number") };
    match args[1].as_str() {
        "run" => {
            let (prop, seed, start, count) = (&args[2], num(3), num(4), num(5));
            let (out, cur, max) = (&args[6], &args[7], num(8));
            let cur = std::fs::File::create(cur).expect("cur file");
            let t0 = Instant::now();
            let mut st = Stats::default();
            for idx in start..start + count {
                let _ = cur.write_at(&idx.to_le_bytes(), 0);
                let mut ch = Ch::random(run_seed(sim, prop, seed, idx));
                let mut cx = Cx::new(idx < 2);
                let r = run_once(f, prop, &mut ch, &mut cx);
                st.evals += 1;
                for (k, v) in &cx.faults {
                    *st.faults.entry(k).or_insert(0) += v;
                }
                for (k, v) in &cx.probes {
                    *st.probes.entry(k).or_insert(0) += v;
                }
                st.sim_time += cx.sim_time;
                if cx.nontrivial {
                    st.nontrivial += 1;
                    if st.sigs.len() < 400_000 {
                        st.sigs.insert(cx.sig);
                    }
                }
                if idx < 2 {
                    st.samples.push(cx.lines.join(" ; "));
                }
                if let Err(v) = r {
                    let (choices, evals) = minimise(f, prop, ch.log.clone(), &v.class);
                    report(prop, seed, Some(idx), &choices, &ch.log, &v, f, out, evals);
                    std::process::exit(1);
                }
                if t0.elapsed().as_secs() > max {
                    break;
                }
            }
            let mut sigs: Vec<u64> = st.sigs.iter().copied().collect();
            sigs.sort_unstable();
            let mut b = Vec::with_capacity(sigs.len() * 8);
            for s in &sigs {
                b.extend_from_slice(&s.to_le_bytes());
            }
            std::fs::write(format!("{}.sigs", out), b).expect("sigs");
            let js = format!(
                "{{\"evals\": {}, \"nontrivial\": {}, \"sim_time\": {}, \"faults\": {}, \"probes\": {}, \"samples\": {}, \"wall\": {}}}",
                st.evals, st.nontrivial, st.sim_time, json_map(&st.faults), json_map(&st.probes),
                json_list(&st.samples), t0.elapsed().as_secs_f64()
            );
            std::fs::write(out, js).expect("out");
        }
        "one" => {
            let (prop, seed, idx) = (&args[2], num(3), num(4));
            let mut ch = Ch::random(run_seed(sim, prop, seed, idx));
            ch.dump_to(&args[5]);
            let mut cx = Cx::new(true);
            finish(run_once(f, prop, &mut ch, &mut cx), &cx);
        }
        "replay" => {
            let prop = &args[2];
            let text = std::fs::read_to_string(&args[3]).expect("choices file");
            let choices = text.split_whitespace().map(|w| w.parse().expect("choice")).collect();
            let mut ch = Ch::replay(choices);
            let mut cx = Cx::new(true);
            finish(run_once(f, prop, &mut ch, &mut cx), &cx);
        }
        "log" => {
            let (prop, seed, start, count) = (&args[2], num(3), num(4), num(5));
            for idx in start..start + count {
                let mut ch = Ch::random(run_seed(sim, prop, seed, idx));
                let mut cx = Cx::new(false);
                let r = run_once(f, prop, &mut ch, &mut cx);
                println!("{} {:016x} {:016x} {}", idx, cx.full, mix(&ch.log.iter().map(|v| u64::from(*v)).collect::<Vec<_>>()), r.is_err());
            }
        }
        other => {
            eprintln!("unknown command {}", other);
            std::process::exit(2);
        }
    }
}

fn finish(r: Result<(), Violation>, cx: &Cx) {
    for l in &cx.lines {
        println!("  {}", l);
    }
    println!("log-hash {:016x}", cx.full);
    match r {
        Ok(()) => println!("no violation"),
        Err(v) => {
            println!("violation-class {}", v.class);
            println!("{}", v.msg);
            std::process::exit(1);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn report(
    prop: &str, seed: u64, idx: Option<u64>, choices: &[u32], original: &[u32], v: &Violation,
    f: RunFn, out: &str, evals: u64,
) {
    let mut ch = Ch::replay(choices.to_vec());
    let mut cx = Cx::new(true);
    let again = run_once(f, prop, &mut ch, &mut cx);
    let (choices, v, lines) = match again {
        Err(v2) if v2.class == v.class => (choices.to_vec(), v2, cx.lines),
        _ => (original.to_vec(), v.clone(), vec!["(the minimised run did not reproduce)".to_string()]),
    };
    let ch: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let js = format!(
        "{{\"violation\": true, \"class\": {}, \"message\": {}, \"seed\": {}, \"run\": {}, \"minimise_evals\": {}, \"original_choices\": {}, \"choices\": [{}], \"log_hash\": \"{:016x}\", \"trace\": {}}}",
        json_str(&v.class), json_str(&v.msg), seed, idx.map_or(-1, |i| i as i64), evals, original.len(),
        ch.join(", "), cx.full, json_list(&lines)
    );
    let mut file = std::fs::File::create(out).expect("out");
    file.write_all(js.as_bytes()).expect("out");
}
