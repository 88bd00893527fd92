//! The names callers match on: every named flag and enumerator of the library's
//! types, against the values the kernel's `perf_event.h` gives those names.

use perf_event_data as ped;

macro_rules! flags {
    ($obs:ident, $exp:ident, $ty:ty, $($name:ident = $v:expr),+ $(,)?) => {
        /// Which names the value contains.
        pub fn $obs(x: $ty) -> u64 {
            let mut m = 0;
            for c in [$(x.contains(<$ty>::$name)),+].into_iter().rev() {
                m = m << 1 | c as u64;
            }
            m
        }
        pub fn $exp(x: u64) -> u64 {
            let mut m = 0;
            for v in [$($v as u64),+].into_iter().rev() {
                m = m << 1 | (x & v == v) as u64;
            }
            m
        }
    };
}
macro_rules! enums {
    ($obs:ident, $exp:ident, $ty:ty, $($name:ident = $v:expr),+ $(,)?) => {
        /// Which names the value equals.
        pub fn $obs(x: $ty) -> u64 {
            let mut m = 0;
            for c in [$(x == <$ty>::$name),+].into_iter().rev() {
                m = m << 1 | c as u64;
            }
            m
        }
        pub fn $exp(x: u64) -> u64 {
            let mut m = 0;
            for v in [$($v as u64),+].into_iter().rev() {
                m = m << 1 | (x == v) as u64;
            }
            m
        }
    };
}

flags!(aux, x_aux, ped::AuxFlags, TRUNCATED = 1, OVERWRITE = 2, PARTIAL = 4, COLLISION = 8, PMU_FORMAT_MASK = 0xff00);
enums!(pmu, x_pmu, ped::AuxPmuFormatType, CORESIGHT = 0, CORESIGHT_RAW = 1);
enums!(ksym, x_ksym, ped::KSymbolType, UNKNOWN = 0, BPF = 1, OOL = 2);
flags!(ksymf, x_ksymf, ped::KSymbolFlags, UNREGISTER = 1);
enums!(bpf, x_bpf, ped::BpfEventType, UNKNOWN = 0, PROG_LOAD = 1, PROG_UNLOAD = 2);
enums!(abi, x_abi, ped::SampleRegsAbi, NONE = 0, ABI_32 = 1, ABI_64 = 2);
enums!(br, x_br, ped::BranchType, UNKNOWN = 0, COND = 1, UNCOND = 2, IND = 3, CALL = 4, IND_CALL = 5, RET = 6,
    SYSCALL = 7, COND_CALL = 9, COND_RET = 10);
flags!(op, x_op, ped::MemOp, NA = 1, LOAD = 2, STORE = 4, PFETCH = 8, EXEC = 16);
flags!(lvl, x_lvl, ped::MemLevel, NA = 1, HIT = 2, MISS = 4, L1 = 8, LFB = 0x10, L2 = 0x20, L3 = 0x40, LOC_RAM = 0x80,
    REM_RAM1 = 0x100, REM_RAM2 = 0x200, REM_CCE1 = 0x400, REM_CCE2 = 0x800, IO = 0x1000, UNC = 0x2000);
flags!(snoop, x_snoop, ped::MemSnoop, NA = 1 << 19, NONE = 2 << 19, HIT = 4 << 19, MISS = 8 << 19, HITM = 16 << 19,
    FWD = 1u64 << 38, PEER = 2u64 << 38);
flags!(lock, x_lock, ped::MemLock, NA = 1, LOCKED = 2);
flags!(dtlb, x_dtlb, ped::MemDtlb, NA = 1, HIT = 2, MISS = 4, L1 = 8, L2 = 0x10, WK = 0x20, OS = 0x40);
enums!(num, x_num, ped::MemLevelNum, L1 = 1, L2 = 2, L3 = 3, L4 = 4, ANY_CACHE = 11, LFB = 12, RAM = 13, PMEM = 14,
    NA = 15);
flags!(blk, x_blk, ped::MemBlk, NA = 1, DATA = 2, ADDR = 4);
flags!(txn, x_txn, ped::Txn, ELISION = 1, TRANSACTION = 2, SYNC = 4, ASYNC = 8, RETRY = 16, CONFLICT = 32,
    CAPACITY_WRITE = 64, CAPACITY_READ = 128, ABORT_MASK = 0xffff_ffff_0000_0000u64);

/// Names seen in a data source, from the raw word.
pub fn x_data_src(v: u64) -> [u64; 7] {
    [
        x_op(v & 0x1f),
        x_lvl(v >> 5 & 0x3fff),
        x_snoop(v),
        x_lock(v >> 24 & 3),
        x_dtlb(v >> 26 & 0x7f),
        x_num(v >> 33 & 15),
        x_blk(v >> 40 & 7),
    ]
}
pub fn data_src(d: &ped::DataSource) -> [u64; 7] {
    [
        op(d.mem_op()),
        lvl(d.mem_lvl()),
        snoop(d.mem_snoop()),
        lock(d.mem_lock()),
        dtlb(d.mem_dtlb()),
        num(d.mem_lvl_num()),
        blk(d.mem_blk()),
    ]
}
