//! A controlled scheduler: runs the threads of a scenario as coroutines on one OS thread, switching
//! only at `point()`, and enumerates every schedule up to a preemption bound.
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ptr::null_mut;

thread_local! {
    /// Per logical thread context word (bit 0: inside audio processing).
    pub static CTX: Cell<u64> = const { Cell::new(0) };
    /// Locks taken inside audio processing.
    pub static LOCKS_ON_AUDIO: Cell<u64> = const { Cell::new(0) };
    static CUR: Cell<*mut Sched> = const { Cell::new(null_mut()) };
    static STACKS: UnsafeCell<Vec<Stack>> = const { UnsafeCell::new(Vec::new()) };
}

core::arch::global_asm!(
    ".text",
    ".p2align 4",
    ".global mcsched_switch",
    "mcsched_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "sub rsp, 8",
    "stmxcsr [rsp]",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "ldmxcsr [rsp]",
    "add rsp, 8",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".p2align 4",
    ".global mcsched_entry",
    "mcsched_entry:",
    "xor ebp, ebp",
    "call mcsched_main",
    "ud2",
);
unsafe extern "C" {
    fn mcsched_switch(save: *mut usize, to: usize);
    fn mcsched_entry();
}

const STACK: usize = 512 * 1024;
struct Stack(Box<[u128]>);
impl Stack {
    fn new() -> Stack {
        let mut v = Vec::with_capacity(STACK / 16);
        unsafe { v.set_len(STACK / 16) };
        Stack(v.into_boxed_slice())
    }
    fn canary(&mut self) -> *mut u128 {
        self.0.as_mut_ptr()
    }
}
const CANARY: u128 = 0xdead_beef_cafe_f00d_0123_4567_89ab_cdef;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Blocked(usize),
    Done,
}
struct Co<'a> {
    sp: usize,
    ctx: u64,
    st: St,
    stack: Option<Stack>,
    body: Option<Box<dyn FnOnce() + 'a>>,
    panic: Option<Box<dyn Any + Send>>,
}
struct Sched {
    cos: Vec<Co<'static>>,
    cur: usize,
    main_sp: usize,
    main_ctx: u64,
    prefix: Vec<(u8, u8)>,
    trace: Vec<(u8, u8)>,
    steps: u64,
    preempt: usize,
    bound: usize,
    deadlock: bool,
    order: Vec<u8>,
    max_steps: u64,
}

impl Sched {
    /// Who runs next? `can_stay`: the current thread may continue.
    fn decide(&mut self, can_stay: bool) -> Option<usize> {
        // what the scheduler allocates isn't the audio thread's
        let ctx = CTX.with(|c| c.replace(0));
        let r = self.decide_(can_stay);
        CTX.with(|c| c.set(ctx));
        r
    }
    fn decide_(&mut self, can_stay: bool) -> Option<usize> {
        let mut opts = [0usize; 8];
        let mut n = 0;
        if can_stay {
            opts[0] = self.cur;
            n = 1;
        }
        if !can_stay || self.preempt < self.bound {
            for (i, c) in self.cos.iter().enumerate() {
                if c.st == St::Ready && !(can_stay && i == self.cur) {
                    opts[n] = i;
                    n += 1;
                }
            }
        }
        if n == 0 {
            return None;
        }
        let pick = if n == 1 {
            0
        } else {
            let d = self.trace.len();
            let c = if d < self.prefix.len() { (self.prefix[d].0 as usize).min(n - 1) } else { 0 };
            self.trace.push((c as u8, n as u8));
            c
        };
        if can_stay && pick > 0 {
            self.preempt += 1;
        }
        self.order.push(opts[pick] as u8);
        Some(opts[pick])
    }
    unsafe fn go(&mut self, to: usize) {
        let from = self.cur;
        if from == to {
            return;
        }
        self.cos[from].ctx = CTX.with(|c| c.get());
        CTX.with(|c| c.set(self.cos[to].ctx));
        self.cur = to;
        let save = &mut self.cos[from].sp as *mut usize;
        let sp = self.cos[to].sp;
        mcsched_switch(save, sp);
    }
    unsafe fn to_main(&mut self) {
        CTX.with(|c| c.set(self.main_ctx));
        CUR.with(|c| c.set(null_mut()));
        let mut dummy = 0;
        mcsched_switch(&mut dummy, self.main_sp);
    }
}

#[no_mangle]
unsafe extern "C" fn mcsched_main() -> ! {
    let s = CUR.with(|c| c.get());
    let me = (*s).cur;
    let body = (&mut (*s).cos)[me].body.take().unwrap();
    if let Err(p) = catch_unwind(AssertUnwindSafe(body)) {
        (&mut (*s).cos)[me].panic = Some(p);
    }
    (&mut (*s).cos)[me].st = St::Done;
    match (*s).decide(false) {
        Some(n) => (*s).go(n),
        None => {
            (*s).deadlock = (&(*s).cos).iter().any(|c| c.st != St::Done);
            (*s).to_main();
        }
    }
    unreachable!()
}

/// A place where the scheduler may switch to another thread of the scenario.
#[inline]
pub fn point() {
    let s = CUR.with(|c| c.get());
    if !s.is_null() {
        unsafe { point_slow(s) }
    }
}
#[cold]
unsafe fn point_slow(s: *mut Sched) {
    if std::thread::panicking() {
        return;
    }
    (*s).steps += 1;
    if (*s).steps > (*s).max_steps {
        panic!("the schedule did not end within {} steps (endless loop)", (*s).max_steps);
    }
    if let Some(n) = (*s).decide(true) {
        (*s).go(n)
    }
}
pub fn active() -> bool {
    !CUR.with(|c| c.get()).is_null() && !std::thread::panicking()
}
/// Note that a lock is about to be taken.
#[inline]
pub fn locking() {
    if CTX.with(|c| c.get()) & 1 != 0 {
        LOCKS_ON_AUDIO.with(|c| c.set(c.get() + 1));
    }
}
pub fn unlocked(addr: usize) {
    let s = CUR.with(|c| c.get());
    if !s.is_null() {
        unsafe {
            for c in (&mut (*s).cos).iter_mut() {
                if c.st == St::Blocked(addr) {
                    c.st = St::Ready
                }
            }
        }
    }
}
/// The current thread can't go on until `unlocked(addr)`.
pub fn block(addr: usize) {
    let s = CUR.with(|c| c.get());
    unsafe {
        let me = (*s).cur;
        (&mut (*s).cos)[me].st = St::Blocked(addr);
        match (*s).decide(false) {
            Some(n) => (*s).go(n),
            None => {
                (*s).deadlock = true;
                (*s).to_main();
            }
        }
    }
}
/// Index of the running thread of the scenario.
pub fn current_thread() -> Option<usize> {
    let s = CUR.with(|c| c.get());
    if s.is_null() { None } else { Some(unsafe { (*s).cur }) }
}
/// Scheduling steps so far in this schedule (usable as a logical time stamp).
pub fn now() -> u64 {
    let s = CUR.with(|c| c.get());
    if s.is_null() { 0 } else { unsafe { (*s).order.len() as u64 } }
}

pub struct Outcome {
    pub deadlock: bool,
    pub panicked: Vec<usize>,
    /// the thread that ran after each scheduling decision
    pub order: Vec<u8>,
    pub steps: u64,
}
struct Explorer {
    prefix: Vec<(u8, u8)>,
}
fn run_one<'a>(threads: Vec<Box<dyn FnOnce() + 'a>>, prefix: &[(u8, u8)], bound: usize) -> (Outcome, Vec<(u8, u8)>) {
    let mut s = Box::new(Sched {
        cos: vec![],
        cur: 0,
        main_sp: 0,
        main_ctx: CTX.with(|c| c.get()),
        prefix: prefix.to_vec(),
        trace: vec![],
        steps: 0,
        preempt: 0,
        bound,
        deadlock: false,
        order: vec![],
        max_steps: 2_000_000,
    });
    for b in threads {
        let mut stack = STACKS.with(|p| unsafe { (*p.get()).pop() }).unwrap_or_else(Stack::new);
        unsafe { *stack.canary() = CANARY };
        let b: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute::<Box<dyn FnOnce() + 'a>, Box<dyn FnOnce() + 'static>>(b) };
        let top = stack.0.as_ptr() as usize + STACK;
        // layout for mcsched_switch: mxcsr, r15, r14, r13, r12, rbx, rbp, return address
        let sp = top - 16 - 8 * 8;
        unsafe {
            let p = sp as *mut usize;
            for i in 0..8 {
                *p.add(i) = 0;
            }
            *(p as *mut u32) = 0x1f80;
            *p.add(7) = mcsched_entry as *const () as usize;
        }
        s.cos.push(Co { sp, ctx: 0, st: St::Ready, stack: Some(stack), body: Some(b), panic: None });
    }
    let sp: *mut Sched = &mut *s;
    unsafe {
        CUR.with(|c| c.set(sp));
        if let Some(first) = (*sp).decide(false) {
            (*sp).cur = first;
            CTX.with(|c| c.set((&(*sp).cos)[first].ctx));
            let to = (&(*sp).cos)[first].sp;
            mcsched_switch(&mut (*sp).main_sp, to);
        }
        CUR.with(|c| c.set(null_mut()));
    }
    let mut out = Outcome { deadlock: s.deadlock, panicked: vec![], order: std::mem::take(&mut s.order), steps: s.steps };
    for (i, c) in s.cos.iter_mut().enumerate() {
        if c.panic.is_some() {
            out.panicked.push(i);
        }
        let mut st = c.stack.take().unwrap();
        assert!(unsafe { *st.canary() } == CANARY, "coroutine stack overflow");
        if c.st == St::Done {
            STACKS.with(|p| unsafe { (*p.get()).push(st) });
        } else {
            std::mem::forget(st);
        }
    }
    let t = std::mem::take(&mut s.trace);
    if s.deadlock {
        std::mem::forget(s);
    }
    (out, t)
}
/// Run every schedule with at most `bound` preemptions. `scenario` builds fresh threads and a check to
/// run afterwards; exploration stops when the check returns false. Returns the number of schedules and steps.
pub fn explore<'a>(bound: usize, scenario: impl FnMut() -> (Vec<Box<dyn FnOnce() + 'a>>, Box<dyn FnOnce(&Outcome) -> bool + 'a>)) -> (u64, u64) {
    explore_slice(bound, 0, 1, scenario)
}
/// Called now and then while exploring; exploration ends early when it returns false.
pub static BEAT: std::sync::OnceLock<fn() -> bool> = std::sync::OnceLock::new();
const SLICE_DEPTH: usize = 12;
/// Like `explore`, but only for the `k`th of `n` parts of the schedules: those whose first choices hash to it.
pub fn explore_slice<'a>(bound: usize, k: usize, parts: usize, mut scenario: impl FnMut() -> (Vec<Box<dyn FnOnce() + 'a>>, Box<dyn FnOnce(&Outcome) -> bool + 'a>)) -> (u64, u64) {
    let mut e = Explorer { prefix: vec![] };
    let (mut n, mut steps) = (0, 0);
    loop {
        let (threads, check) = scenario();
        let (out, trace) = run_one(threads, &e.prefix, bound);
        n += 1;
        steps += out.steps;
        if !check(&out) {
            return (n, steps);
        }
        let mut t = trace;
        if parts > 1 && t.len() > SLICE_DEPTH {
            let h = t[..SLICE_DEPTH].iter().fold(0usize, |h, (c, _)| h.wrapping_mul(31).wrapping_add(*c as usize + 1));
            if (h ^ (h >> 7)) % parts != k {
                t.truncate(SLICE_DEPTH);
            }
        }
        if n % 256 == 0 && BEAT.get().is_some_and(|b| !b()) {
            return (n, steps);
        }
        loop {
            match t.pop() {
                None => return (n, steps),
                Some((c, k)) if c + 1 < k => {
                    t.push((c + 1, k));
                    break;
                }
                _ => {}
            }
        }
        e.prefix = t;
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use std::rc::Rc;
    #[test]
    fn counts_interleavings() {
        // two threads of 3 points each; unlimited preemptions: all interleavings of their 4 segments
        let seen = Rc::new(std::cell::RefCell::new(std::collections::HashSet::new()));
        let (n, _) = explore(100, || {
            let log = Rc::new(std::cell::RefCell::new(vec![]));
            let mk = |id: u8| {
                let log = log.clone();
                Box::new(move || {
                    for _ in 0..3 {
                        log.borrow_mut().push(id);
                        point();
                    }
                    log.borrow_mut().push(id);
                }) as Box<dyn FnOnce()>
            };
            let (l, s) = (log.clone(), seen.clone());
            (vec![mk(0), mk(1)], Box::new(move |o: &Outcome| {
                assert!(!o.deadlock);
                assert!(s.borrow_mut().insert(l.borrow().clone()));
                true
            }))
        });
        assert_eq!(n, 70);
        assert_eq!(seen.borrow().len(), 70);
    }
    #[test]
    fn panics_are_reported() {
        let (n, _) = explore(2, || (vec![Box::new(|| { point(); panic!("x") }) as Box<dyn FnOnce()>, Box::new(|| point())], Box::new(|o: &Outcome| { assert_eq!(o.panicked, vec![0]); true })));
        assert!(n > 1);
    }
}

// ---- substituted counters
thread_local! {
    static COUNTER: std::cell::Cell<Option<&'static std::sync::atomic::AtomicU64>> = const { std::cell::Cell::new(None) };
}
pub fn counter() -> Option<&'static std::sync::atomic::AtomicU64> {
    COUNTER.try_with(|c| c.get()).ok().flatten()
}
/// While `f` runs, every 64 bit atomic the code under test uses on this thread is one that starts at `at`:
/// the numbers given out by a process-wide counter (seeds of randomness) don't depend on other threads.
pub fn with_counter<T>(at: u64, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            COUNTER.with(|c| c.set(None));
        }
    }
    thread_local! {
        static MINE: &'static std::sync::atomic::AtomicU64 = Box::leak(Box::new(std::sync::atomic::AtomicU64::new(0)));
    }
    let m = MINE.with(|m| *m);
    m.store(at, std::sync::atomic::Ordering::SeqCst);
    COUNTER.with(|c| c.set(Some(m)));
    let _r = Reset;
    f()
}
