//! The simulated heap.
//!
//! Every allocation of the process goes through `SimAlloc`.  Blocks allocated
//! while the code under test is running ("sut" blocks) are treated
//! adversarially: fresh memory is filled with seed-dependent garbage, blocks
//! are placed at the weakest alignment the layout permits, freed blocks are
//! poisoned and kept in quarantine, and both ends carry canaries.  Nothing
//! here draws from the scheduler's choices, so logging or accounting cannot
//! perturb a run.

use crate::step;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub const E_BAD_FREE: u32 = 1; // double free, or free of something never allocated
pub const E_LAYOUT: u32 = 2; // freed with a different size or alignment
pub const E_OVERRUN: u32 = 4; // canary after the block overwritten
pub const E_UNDERRUN: u32 = 8; // canary before the block overwritten
pub const E_USE_AFTER_FREE: u32 = 16; // poisoned memory was written to
pub const E_HUGE: u32 = 32;

const LIVE: u64 = 0x4c49_5645_b10c_a110;
const FREED: u64 = 0xdead_f4ee_b10c_dead;
const TAIL: u64 = 0x7a11_ca9a_5afe_7a11;
const F_SUT: u64 = 1;
const HDR: usize = 40;
const QN: usize = 64;
const FILL_MAX: usize = 1 << 20;
const Q_MAX: usize = 1 << 16;
/// A single request above this is refused (the process then aborts, which the
/// supervisor turns into a violation).
const HARD: usize = if usize::BITS > 32 { 1 << 33 } else { 1 << 30 };

struct T {
    in_sut: Cell<bool>,
    /// the processor's trap flag follows `in_sut` (see `step`)
    step: Cell<bool>,
    live: Cell<i64>,
    blocks: Cell<i64>,
    base: Cell<i64>,
    peak: Cell<i64>,
    largest: Cell<usize>,
    count: Cell<u64>,
    fill: Cell<u64>,
    poison: Cell<u8>,
    errs: Cell<u32>,
    q: UnsafeCell<[*mut u8; QN]>,
    qpos: Cell<usize>,
}

thread_local! {
    static ST: T = const { T {
        in_sut: Cell::new(false),
        step: Cell::new(false),
        live: Cell::new(0),
        blocks: Cell::new(0),
        base: Cell::new(0),
        peak: Cell::new(0),
        largest: Cell::new(0),
        count: Cell::new(0),
        fill: Cell::new(0xA5),
        poison: Cell::new(0xD7),
        errs: Cell::new(0),
        q: UnsafeCell::new([std::ptr::null_mut(); QN]),
        qpos: Cell::new(0),
    } };
}

pub struct SimAlloc;

#[inline]
unsafe fn wr(p: *mut u8, off: isize, v: u64) {
    (p.offset(off) as *mut u64).write_unaligned(v)
}
#[inline]
unsafe fn rd(p: *mut u8, off: isize) -> u64 {
    (p.offset(off) as *const u64).read_unaligned()
}

// Block layout:  raw .. [raw ptr][raw total][size|align<<..][flags][magic] p[size] [tail canary]
impl SimAlloc {
    unsafe fn raw_free(p: *mut u8) {
        let raw = rd(p, -40) as *mut u8;
        let total = rd(p, -32) as usize;
        System.dealloc(raw, Layout::from_size_align_unchecked(total, 16));
    }

    unsafe fn evict(t: &T, p: *mut u8) {
        let size = rd(p, -24) as usize;
        if rd(p, -8) != FREED {
            t.errs.set(t.errs.get() | E_USE_AFTER_FREE);
        }
        let s = std::slice::from_raw_parts(p, size);
        if s.iter().any(|&b| b != t.poison.get()) {
            t.errs.set(t.errs.get() | E_USE_AFTER_FREE);
        }
        Self::raw_free(p);
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _p = pause();
        let size = l.size();
        let align = l.align();
        let sut = ST.with(|t| t.in_sut.get());
        if size > HARD {
            if sut {
                ST.with(|t| t.errs.set(t.errs.get() | E_HUGE));
            }
            return std::ptr::null_mut();
        }
        let total = size + HDR + 8 + 2 * align + 16;
        let raw = System.alloc(Layout::from_size_align_unchecked(total, 16));
        if raw.is_null() {
            return raw;
        }
        let mut a = (raw as usize + HDR + align - 1) & !(align - 1);
        if sut && a % (2 * align) == 0 {
            a += align;
        }
        let p = raw.add(a - raw as usize);
        wr(p, -40, raw as u64);
        wr(p, -32, total as u64);
        wr(p, -24, size as u64);
        wr(p, -16, if sut { F_SUT } else { 0 } | (align as u64) << 8);
        wr(p, -8, LIVE);
        wr(p, size as isize, TAIL);
        if sut {
            ST.with(|t| {
                t.live.set(t.live.get() + size as i64);
                t.blocks.set(t.blocks.get() + 1);
                t.count.set(t.count.get() + 1);
                if t.live.get() > t.peak.get() {
                    t.peak.set(t.live.get());
                }
                if size > t.largest.get() {
                    t.largest.set(size);
                }
                let n = size.min(FILL_MAX);
                let f = t.fill.get();
                for i in 0..n {
                    *p.add(i) = (f >> ((i & 7) * 8)) as u8;
                }
            });
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _p = pause();
        let magic = rd(p, -8);
        if magic != LIVE {
            ST.with(|t| {
                let e = if magic == FREED { E_BAD_FREE } else { E_UNDERRUN };
                t.errs.set(t.errs.get() | e)
            });
            return;
        }
        let size = rd(p, -24) as usize;
        let fl = rd(p, -16);
        if fl & F_SUT == 0 {
            Self::raw_free(p);
            return;
        }
        ST.with(|t| {
            if l.size() != size || l.align() as u64 != fl >> 8 {
                t.errs.set(t.errs.get() | E_LAYOUT);
            }
            if rd(p, size as isize) != TAIL {
                t.errs.set(t.errs.get() | E_OVERRUN);
            }
            t.live.set(t.live.get() - size as i64);
            t.blocks.set(t.blocks.get() - 1);
            wr(p, -8, FREED);
            if size > Q_MAX {
                Self::raw_free(p);
                return;
            }
            std::ptr::write_bytes(p, t.poison.get(), size);
            let q = &mut *t.q.get();
            let i = t.qpos.get();
            let old = q[i];
            q[i] = p;
            t.qpos.set((i + 1) % QN);
            if !old.is_null() {
                Self::evict(t, old);
            }
        });
    }
}

pub struct Guard(bool);
impl Drop for Guard {
    #[inline]
    fn drop(&mut self) {
        to(self.0);
    }
}
#[inline]
fn to(sut: bool) -> bool {
    ST.with(|t| {
        let step = t.step.get();
        if step && !sut {
            step::off();
        }
        let old = t.in_sut.replace(sut);
        if step && sut {
            step::on();
        }
        old
    })
}
/// Allocations made until the guard drops belong to the code under test.
pub fn sut() -> Guard {
    Guard(to(true))
}
/// Allocations made until the guard drops belong to the harness.
pub fn harness() -> Guard {
    Guard(to(false))
}

/// Step the code under test on this thread from now on, or no longer.  Only for a thread that
/// is in the harness.
pub fn stepping(yes: bool) {
    ST.with(|t| t.step.set(yes));
}
/// Called by the trap handler: the harness runs, without touching the trap flag.
pub fn enter_trap() -> (bool, bool) {
    ST.with(|t| (t.in_sut.replace(false), t.step.replace(false)))
}
pub fn leave_trap(o: (bool, bool)) {
    ST.with(|t| {
        t.in_sut.set(o.0);
        t.step.set(o.1);
    })
}
/// No stepping until the guard drops, and what is allocated keeps its owner.
pub struct Pause(bool);
#[inline]
pub fn pause() -> Pause {
    ST.with(|t| {
        let step = t.step.replace(false);
        if step && t.in_sut.get() {
            step::off();
        }
        Pause(step)
    })
}
impl Drop for Pause {
    #[inline]
    fn drop(&mut self) {
        if self.0 {
            ST.with(|t| {
                t.step.set(true);
                if t.in_sut.get() {
                    step::on();
                }
            })
        }
    }
}

/// Start a run: forget counters, choose the garbage pattern.
pub fn begin(fill: u64) {
    flush();
    ST.with(|t| {
        t.in_sut.set(false);
        t.live.set(0);
        t.blocks.set(0);
        t.base.set(0);
        t.peak.set(0);
        t.largest.set(0);
        t.count.set(0);
        t.errs.set(0);
        t.fill.set(fill);
        // freed memory looks different in runs with different garbage
        t.poison.set((fill >> 56) as u8 ^ 0xD7);
    })
}
/// Reset the peak to the current level.
pub fn mark() {
    ST.with(|t| {
        t.base.set(t.live.get());
        t.peak.set(t.live.get());
        t.largest.set(0);
    })
}
/// (peak above the mark, largest single request since the mark)
pub fn since_mark() -> (i64, usize) {
    ST.with(|t| (t.peak.get() - t.base.get(), t.largest.get()))
}
/// Check and empty the quarantine.
pub fn flush() {
    ST.with(|t| unsafe {
        let q = &mut *t.q.get();
        for s in q.iter_mut() {
            if !s.is_null() {
                SimAlloc::evict(t, *s);
                *s = std::ptr::null_mut();
            }
        }
        t.qpos.set(0);
    })
}
/// (live sut bytes, live sut blocks, error bits, sut allocations made)
pub fn status() -> (i64, i64, u32, u64) {
    ST.with(|t| (t.live.get(), t.blocks.get(), t.errs.get(), t.count.get()))
}
