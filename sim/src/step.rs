//! Preemption between any two machine instructions of the code under test.
//!
//! While the code under test runs on a stepped thread, the processor's trap flag is set: every
//! instruction ends in a SIGTRAP, whose handler may hand the baton of `sched` to another
//! thread.  Where to preempt is drawn from the run's choices, counted in instructions of the
//! code under test (not of libc, the allocator or the harness), so that a run repeats exactly.
//! A thread about to wait for a futex that is not free gives the baton away instead.

use crate::alloc;
use crate::ctx::{Ctx, Fault, Probe};
use crate::sched::Sched;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Once;

/// A thread that ran this many instructions is not stepped any further.
const MOST: u64 = 20_000;

pub struct Stepper {
    s: Sched,
    c: Ctx,
    me: usize,
    /// mean distance of two preemptions, in instructions
    mean: u64,
    left: Cell<u64>,
    steps: Cell<u64>,
    /// the last instruction was an access to memory that may be shared
    near: Cell<bool>,
}

thread_local! {
    static CUR: Cell<*const Stepper> = const { Cell::new(std::ptr::null()) };
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod sys {
    use super::*;

    const SIGTRAP: i32 = 5;
    const TF: i64 = 0x100;
    // greg_t indices of ucontext_t
    const RSI: usize = 9;
    const RDI: usize = 8;
    const RDX: usize = 12;
    const RAX: usize = 13;
    const RIP: usize = 16;
    const EFL: usize = 17;
    const GREGS: usize = 40; // byte offset in ucontext_t

    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
        fn __errno_location() -> *mut i32;
        static __executable_start: u8;
        static etext: u8;
        static __data_start: u8;
        static _end: u8;
    }

    pub fn on() {
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    }
    pub fn off() {
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
    }

    pub fn text() -> (u64, u64) {
        (&raw const __executable_start as u64, &raw const etext as u64)
    }

    /// Where the registers are in ucontext_t, in the processor's numbering.
    const NUM: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];

    /// Whether the instruction at `pc` is an atomic read-modify-write or touches writable static
    /// memory: where one thread may meet what another one left.
    unsafe fn shared_access(pc: u64, regs: *const i64) -> bool {
        let b = |i: usize| *(pc as *const u8).add(i);
        let reg = |n: u8| *regs.add(NUM[n as usize]) as u64;
        let mut i = 0;
        loop {
            match b(i) {
                0xf0 => return true,
                0x66 | 0xf2 | 0xf3 | 0x2e | 0x3e => i += 1,
                0x64 | 0x65 => return false, // thread-local
                _ => break,
            }
        }
        let mut rex = 0;
        if b(i) & 0xf0 == 0x40 {
            rex = b(i);
            i += 1;
        }
        // is there an operand byte?
        let has = match b(i) {
            0x0f => {
                i += 1;
                !matches!(b(i), 0x05 | 0x0b | 0x31 | 0x77 | 0x80..=0x8f | 0xa2 | 0xc8..=0xcf)
            }
            x @ 0..=0x3f => x & 7 < 4,
            0x63 | 0x69 | 0x6b | 0x80..=0x8c | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xf6 | 0xf7 | 0xfe | 0xff => true,
            _ => false,
        };
        let m = b(i + 1);
        if !has || m >> 6 == 3 {
            return false;
        }
        i += 2;
        let mut at = match m & 7 {
            4 => {
                let s = b(i);
                i += 1;
                let x = (s >> 3 & 7) | (rex & 2) << 2;
                let base = if s & 7 == 5 && m >> 6 == 0 { 0 } else { reg((s & 7) | (rex & 1) << 3) };
                let idx = if x == 4 { 0 } else { reg(x) << (s >> 6) };
                if s & 7 == 5 && m >> 6 == 0 {
                    idx.wrapping_add(disp32(pc, i))
                } else {
                    base.wrapping_add(idx)
                }
            }
            // the immediate operand that may follow is not counted: a few bytes do not matter
            5 if m >> 6 == 0 => pc.wrapping_add(i as u64 + 4).wrapping_add(disp32(pc, i)),
            r => reg(r | (rex & 1) << 3),
        };
        match m >> 6 {
            1 => at = at.wrapping_add(b(i) as i8 as i64 as u64),
            2 => at = at.wrapping_add(disp32(pc, i)),
            _ => (),
        }
        (&raw const __data_start as u64..&raw const _end as u64).contains(&at)
    }

    unsafe fn disp32(pc: u64, i: usize) -> u64 {
        (pc as *const u8).add(i).cast::<i32>().read_unaligned() as i64 as u64
    }

    unsafe extern "C" fn trap(_: i32, _: *mut u8, uc: *mut u8) {
        let regs = uc.add(GREGS) as *mut i64;
        let cur = CUR.with(|c| c.get());
        if cur.is_null() {
            TRAPS.fetch_add(1, Ordering::Relaxed);
            *regs.add(EFL) &= !TF;
            return;
        }
        let st = &*cur;
        let pc = *regs.add(RIP) as u64;
        // about to enter the kernel to wait for a futex?
        let futex = || {
            let code = pc as *const u8;
            *code == 0x0f
                && *code.add(1) == 0x05
                && *regs.add(RAX) == 202
                && matches!(*regs.add(RSI) & 0x7f, 0 | 9)
                && std::ptr::read_volatile(*regs.add(RDI) as *const u32) == *regs.add(RDX) as u32
        };
        let due = if IN_TEXT.0.load(Ordering::Relaxed) <= pc && pc < IN_TEXT.1.load(Ordering::Relaxed) {
            st.steps.set(st.steps.get() + 1);
            if st.steps.get() > MOST {
                // the rest runs at full speed
                *regs.add(EFL) &= !TF;
                alloc::stepping(false);
                return;
            }
            let near = st.near.replace(shared_access(pc, regs));
            match st.left.get() {
                // right before such an access or right after it
                _ if near || st.near.get() => {
                    let owner = alloc::enter_trap();
                    let errno = *__errno_location();
                    let due = st.c.chance(1, 3);
                    *__errno_location() = errno;
                    alloc::leave_trap(owner);
                    due
                }
                0 => false,
                1 => true,
                n => {
                    st.left.set(n - 1);
                    false
                }
            }
        } else {
            false
        };
        if !due && !futex() {
            return;
        }
        let owner = alloc::enter_trap();
        let errno = *__errno_location();
        if due {
            st.preempt();
        }
        while futex() && st.s.switch(&st.c, st.me) {}
        *__errno_location() = errno;
        alloc::leave_trap(owner);
    }

    pub static IN_TEXT: (AtomicU64, AtomicU64) = (AtomicU64::new(0), AtomicU64::new(0));
    pub static TRAPS: AtomicU64 = AtomicU64::new(0);

    pub fn install() -> bool {
        let (a, b) = text();
        IN_TEXT.0.store(a, Ordering::Relaxed);
        IN_TEXT.1.store(b, Ordering::Relaxed);
        let sa = SigAction { handler: trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        if unsafe { sigaction(SIGTRAP, &sa, std::ptr::null_mut()) } != 0 {
            return false;
        }
        // does it work here?
        let before = TRAPS.load(Ordering::Relaxed);
        on();
        off();
        TRAPS.load(Ordering::Relaxed) == before + 1
    }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod sys {
    pub fn on() {}
    pub fn off() {}
    pub fn install() -> bool {
        false
    }
}

pub use sys::{off, on};

/// Whether threads can be stepped here.
pub fn available() -> bool {
    static ONCE: Once = Once::new();
    static OK: AtomicU64 = AtomicU64::new(0);
    ONCE.call_once(|| OK.store(sys::install() as u64, Ordering::Relaxed));
    OK.load(Ordering::Relaxed) != 0
}

impl Stepper {
    pub fn new(s: &Sched, c: &Ctx, me: usize, mean: u64) -> Stepper {
        Stepper { s: s.clone(), c: c.clone(), me, mean, left: Cell::new(0), steps: Cell::new(0), near: Cell::new(false) }
    }
    /// Step the code under test on this thread while `f` runs.
    pub fn run<T>(&self, f: impl FnOnce() -> T) -> T {
        if self.steps.get() > MOST {
            return f();
        }
        self.aim();
        CUR.with(|c| c.set(self));
        alloc::stepping(true);
        struct End<'a>(&'a Stepper);
        impl Drop for End<'_> {
            fn drop(&mut self) {
                alloc::stepping(false);
                CUR.with(|c| c.set(std::ptr::null()));
                self.0.c.probe_n(Probe::Instructions, self.0.steps.get());
            }
        }
        let _e = End(self);
        f()
    }
    /// Choose the next preemption; 0: none until the next call.
    pub fn aim(&self) {
        let v = self.c.draw(64 * self.mean);
        self.left.set(if v == 0 { 0 } else { 1 + v % (2 * self.mean) });
    }
    fn preempt(&self) {
        if self.s.switch(&self.c, self.me) {
            self.c.fault(Fault::InstrPreempt);
        }
        self.aim();
    }
}
