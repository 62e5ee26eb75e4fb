//! Global allocator that counts what happens inside audio processing, tracks the live memory of the
//! current OS thread, and can keep freed memory in quarantine to expose uses after free.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct A;
#[global_allocator]
static GLOBAL: A = A;

thread_local! {
    static LIVE_N: Cell<i64> = const { Cell::new(0) };
    static LIVE_B: Cell<i64> = const { Cell::new(0) };
    static AUDIO_ALLOC: Cell<u64> = const { Cell::new(0) };
    static AUDIO_FREE: Cell<u64> = const { Cell::new(0) };
    static QUAR: Cell<bool> = const { Cell::new(false) };
    static EXEMPT: Cell<u32> = const { Cell::new(0) };
    static Q: UnsafeCell<(*mut (usize, usize, usize), usize)> = const { UnsafeCell::new((std::ptr::null_mut(), 0)) };
}
const QCAP: usize = 1 << 15;
const POISON: u8 = 0xFB;

fn on_audio() -> bool {
    mcsched::CTX.try_with(|c| c.get() & 1 != 0).unwrap_or(false) && EXEMPT.try_with(|e| e.get() == 0).unwrap_or(false)
}
fn bump(c: &'static std::thread::LocalKey<Cell<i64>>, d: i64) {
    let _ = c.try_with(|x| x.set(x.get() + d));
}
fn bumpu(c: &'static std::thread::LocalKey<Cell<u64>>) {
    let _ = c.try_with(|x| x.set(x.get() + 1));
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump(&LIVE_N, 1);
        bump(&LIVE_B, l.size() as i64);
        if on_audio() {
            bumpu(&AUDIO_ALLOC);
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        bump(&LIVE_N, -1);
        bump(&LIVE_B, -(l.size() as i64));
        if on_audio() {
            bumpu(&AUDIO_FREE);
        }
        unsafe {
            if QUAR.try_with(|q| q.get()).unwrap_or(false) {
                let kept = Q.with(|q| {
                    let q = &mut *q.get();
                    if q.0.is_null() {
                        q.0 = System.alloc(Layout::array::<(usize, usize, usize)>(QCAP).unwrap()) as *mut _;
                    }
                    if q.1 < QCAP {
                        std::ptr::write_bytes(p, POISON, l.size());
                        q.0.add(q.1).write((p as usize, l.size(), l.align()));
                        q.1 += 1;
                        true
                    } else {
                        false
                    }
                });
                if kept {
                    return;
                }
            }
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            if QUAR.try_with(|q| q.get()).unwrap_or(false) {
                let nl = Layout::from_size_align_unchecked(n, l.align());
                let r = self.alloc(nl);
                if !r.is_null() {
                    std::ptr::copy_nonoverlapping(p, r, l.size().min(n));
                    self.dealloc(p, l);
                }
                return r;
            }
            bump(&LIVE_B, n as i64 - l.size() as i64);
            if on_audio() {
                bumpu(&AUDIO_ALLOC);
            }
            System.realloc(p, l, n)
        }
    }
}
/// Live blocks and bytes allocated minus freed by this OS thread.
pub fn live() -> (i64, i64) {
    (LIVE_N.with(|c| c.get()), LIVE_B.with(|c| c.get()))
}
/// Allocations, frees and locks seen inside audio processing on this OS thread.
pub fn audio_counts() -> (u64, u64, u64) {
    (AUDIO_ALLOC.with(|c| c.get()), AUDIO_FREE.with(|c| c.get()), mcsched::LOCKS_ON_AUDIO.with(|c| c.get()))
}
/// Don't count what the harness itself does.
pub fn exempt<T>(f: impl FnOnce() -> T) -> T {
    EXEMPT.with(|e| e.set(e.get() + 1));
    let r = f();
    EXEMPT.with(|e| e.set(e.get() - 1));
    r
}
/// From now on freed memory is filled with a pattern and not reused.
pub fn quarantine_start() {
    QUAR.with(|q| q.set(true));
}
/// Ends the quarantine; returns the number of freed blocks that were written to.
pub fn quarantine_end() -> usize {
    QUAR.with(|q| q.set(false));
    let mut bad = 0;
    Q.with(|q| unsafe {
        let q = &mut *q.get();
        for i in 0..q.1 {
            let (p, n, a) = *q.0.add(i);
            let s = std::slice::from_raw_parts(p as *const u8, n);
            if s.iter().any(|b| *b != POISON) {
                bad += 1;
            }
            System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(n, a));
        }
        q.1 = 0;
    });
    bad
}
