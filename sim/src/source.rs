//! The simulated source: everything the library reads comes through here.
use crate::run::{inject, Injected};
use crate::track::{yield_point, Tok};
use std::marker::PhantomData;
use std::sync::{Arc, Mutex, MutexGuard};

/// An element type of a simulated stream.
pub trait El: Clone {
    fn el(code: u32) -> Self;
    fn code(&self) -> u32;
}
impl El for char {
    fn el(code: u32) -> Self {
        std::char::from_u32(code).unwrap_or('\u{fffd}')
    }
    fn code(&self) -> u32 {
        *self as u32
    }
}
impl El for u8 {
    fn el(code: u32) -> Self {
        code as u8
    }
    fn code(&self) -> u32 {
        u32::from(*self)
    }
}
impl El for Tok {
    fn el(code: u32) -> Self {
        Tok::new(code)
    }
    fn code(&self) -> u32 {
        self.code
    }
}

#[derive(Default)]
pub struct St {
    pub script: Vec<u32>,
    /// elements that have arrived
    pub avail: usize,
    pub pulled: usize,
    pub polls: u64,
    pub fuel: u64,
    /// the first attempt to produce these elements panics
    pub panic_at: Vec<usize>,
    pub panics: u64,
    /// reads that found nothing although more will come
    pub stalls: u64,
    /// the first read that would get one of these finds nothing, the next one gets it
    pub dry_at: Vec<usize>,
    pub dries: u64,
    /// tells its length when that is certain
    pub hint: bool,
    /// never ends: the element's number is the element
    pub endless: bool,
    /// elements arriving while the code runs: how many before each read
    pub race: Vec<u32>,
    pub race_i: usize,
    /// live source: arrival times; a read waits (moves the clock) until its element is there
    pub arrive: Vec<u64>,
    pub clock: u64,
}

pub struct Src<T> {
    st: Arc<Mutex<St>>,
    _t: PhantomData<fn() -> T>,
}
#[derive(Clone)]
pub struct Handle(Arc<Mutex<St>>);

impl<T: El> Src<T> {
    pub fn new(script: Vec<u32>) -> (Self, Handle) {
        let avail = script.len();
        let st = Arc::new(Mutex::new(St { script, avail, fuel: 50_000, ..St::default() }));
        (Src { st: st.clone(), _t: PhantomData }, Handle(st))
    }
}
impl Handle {
    pub fn st(&self) -> MutexGuard<St> {
        self.0.lock().expect("source state")
    }
    pub fn pulled(&self) -> usize {
        self.st().pulled
    }
}

impl<T: El> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        yield_point();
        let mut st = self.st.lock().expect("source state");
        st.polls += 1;
        if st.polls > st.fuel {
            drop(st);
            inject(Injected::Fuel);
        }
        if !st.race.is_empty() {
            let i = st.race_i;
            st.race_i += 1;
            let more = st.race.get(i).copied().unwrap_or(0) as usize;
            st.avail = (st.avail + more).min(st.script.len());
        }
        let i = st.pulled;
        if i >= st.script.len() && !st.endless {
            return None;
        }
        if let Some(p) = st.panic_at.iter().position(|k| *k == i) {
            if !st.arrive.is_empty() || i < st.avail {
                st.panic_at.remove(p);
                st.panics += 1;
                drop(st);
                inject(Injected::Source);
            }
        }
        if !st.dry_at.is_empty() && i < st.avail {
            if let Some(p) = st.dry_at.iter().position(|k| *k == i) {
                st.dry_at.remove(p);
                st.dries += 1;
                return None;
            }
        }
        if !st.arrive.is_empty() {
            st.clock = st.clock.max(st.arrive[i]);
        } else if i >= st.avail {
            st.stalls += 1;
            return None;
        }
        st.pulled += 1;
        let code = if st.endless { i as u32 } else { st.script[i] };
        drop(st);
        Some(T::el(code))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let st = self.st.lock().expect("source state");
        if st.endless && st.hint {
            return (usize::MAX, None);
        }
        let sure = !st.arrive.is_empty() || (st.avail == st.script.len() && st.race.is_empty() && st.dry_at.is_empty());
        let left = st.script.len().saturating_sub(st.pulled);
        if st.hint && sure {
            (left, Some(left))
        } else {
            (0, None)
        }
    }
}
