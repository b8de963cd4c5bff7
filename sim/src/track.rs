//! Elements and values whose creation, cloning and dropping is accounted for, per thread.
use crate::run::{inject, Injected};
use std::cell::{Cell, RefCell};

const MAGIC: u64 = 0x5EED_C0DE_0000_0000;

#[derive(Default)]
struct Reg {
    /// 1 live, 2 dropped; index = instance
    state: Vec<u8>,
    live: i64,
    errors: Vec<String>,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
    static CLONE_ARM: Cell<i64> = Cell::new(-1);
    static USER_ARM: Cell<i64> = Cell::new(-1);
    static CLONES: Cell<u64> = Cell::new(0);
    static USER_CALLS: Cell<u64> = Cell::new(0);
    static YIELD: Cell<Option<fn()>> = Cell::new(None);
    static OPS: Cell<u64> = Cell::new(0);
    static OPS_END: Cell<u64> = Cell::new(u64::MAX);
    static FINE: Cell<Option<fn()>> = Cell::new(None);
    static LOWEST: Cell<usize> = Cell::new(usize::MAX);
}

/// Remembers how far down the stack has come.
fn sound() {
    let here = 0u8;
    let at = &here as *const u8 as usize;
    LOWEST.with(|l| l.set(l.get().min(at)));
}
/// How much of the stack `f` used wherever it operated on a buffer or cursor, or came to user code.
pub fn stack_of<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let here = 0u8;
    let top = &here as *const u8 as usize;
    let was = LOWEST.with(|l| l.replace(top));
    let r = f();
    let low = LOWEST.with(|l| l.replace(was.min(l.get())));
    (r, top - low.min(top))
}

/// Every operation on a buffer or cursor passes here before it takes place.
fn op(may_read: bool) {
    sound();
    let n = OPS.with(Cell::get) + 1;
    OPS.with(|o| o.set(n));
    if n >= OPS_END.with(Cell::get) {
        OPS_END.with(|e| e.set(u64::MAX));
        inject(Injected::Fuel);
    }
    if may_read {
        if let Some(f) = FINE.with(Cell::get) {
            f();
        }
    }
}
/// From now on this thread's operations are counted.
pub fn watch() {
    nommy::sim::on_step(Some(op));
}
pub fn ops() -> u64 {
    OPS.with(Cell::get)
}
/// The operation after so many more is one too many; None: no limit.
pub fn budget(n: Option<u64>) {
    let end = n.map_or(u64::MAX, |n| ops().saturating_add(n));
    OPS_END.with(|e| e.set(end));
}
/// A scheduling point at every operation that may read.
pub fn on_op(f: Option<fn()>) {
    FINE.with(|y| y.set(f));
}

/// Scheduling point: passed at every read of a source and in every user-written step, without
/// any lock held.
pub fn yield_point() {
    if let Some(f) = YIELD.with(Cell::get) {
        f();
    }
}
/// What a scheduling point does on this thread.
pub fn on_yield(f: Option<fn()>) {
    YIELD.with(|y| y.set(f));
}

/// An owned thing: exactly one drop per creation, or the registry says so.
pub struct Owned {
    inst: u64,
}

impl Owned {
    pub fn new() -> Self {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.state.push(1);
            r.live += 1;
            Owned { inst: MAGIC + r.state.len() as u64 - 1 }
        })
    }
}
impl Default for Owned {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Owned {
    fn drop(&mut self) {
        let inst = self.inst;
        let _ = REG.try_with(|r| {
            let mut r = r.borrow_mut();
            let i = inst.wrapping_sub(MAGIC) as usize;
            match r.state.get(i).copied() {
                Some(1) => {
                    r.state[i] = 2;
                    r.live -= 1;
                }
                Some(_) => r.errors.push("dropped twice".to_string()),
                None => r.errors.push("dropped something that was never created".to_string()),
            }
        });
    }
}

pub fn reset() {
    REG.with(|r| *r.borrow_mut() = Reg::default());
    CLONE_ARM.with(|c| c.set(-1));
    USER_ARM.with(|c| c.set(-1));
    CLONES.with(|c| c.set(0));
    USER_CALLS.with(|c| c.set(0));
}
pub fn live() -> i64 {
    REG.with(|r| r.borrow().live)
}
pub fn created() -> usize {
    REG.with(|r| r.borrow().state.len())
}
pub fn first_error() -> Option<String> {
    REG.with(|r| r.borrow().errors.first().cloned())
}
pub fn clones() -> u64 {
    CLONES.with(Cell::get)
}
pub fn user_calls() -> u64 {
    USER_CALLS.with(Cell::get)
}
/// The clone after `n` more clones panics (once); negative: none does.
pub fn arm_clone(n: i64) {
    CLONE_ARM.with(|c| c.set(n));
}
/// The user-written step after `n` more of them panics (once).
pub fn arm_user(n: i64) {
    USER_ARM.with(|c| c.set(n));
}
pub fn user_arm() -> i64 {
    USER_ARM.with(Cell::get)
}
pub fn armed_clone() -> bool {
    CLONE_ARM.with(|c| c.get() >= 0)
}
pub fn armed_user() -> bool {
    USER_ARM.with(|c| c.get() >= 0)
}
/// Called by every user-written parser and conversion of the simulator.
pub fn user_step() {
    sound();
    yield_point();
    USER_CALLS.with(|c| c.set(c.get() + 1));
    if fire(&USER_ARM) {
        inject(Injected::User);
    }
}
fn fire(k: &'static std::thread::LocalKey<Cell<i64>>) -> bool {
    k.with(|c| {
        let v = c.get();
        if v >= 0 {
            c.set(v - 1);
        }
        v == 0
    })
}

/// A stream element with an identity.
pub struct Tok {
    pub code: u32,
    _own: Owned,
}
impl Tok {
    pub fn new(code: u32) -> Self {
        Tok { code, _own: Owned::new() }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        CLONES.with(|c| c.set(c.get() + 1));
        if fire(&CLONE_ARM) {
            inject(Injected::Clone);
        }
        Tok::new(self.code)
    }
}
