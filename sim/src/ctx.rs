//! One run: every choice the simulator makes, and everything it observed.
//!
//! `draw` is the only source of nondeterminism.  In search mode choices come
//! from a PRNG seeded from (VERIF_SEED, property, run number); in replay mode
//! they come from the recorded list.  0 is always the simplest choice, so a
//! list that is shortened or zeroed describes a simpler run.

use crate::alloc;
use crate::iso::{Dec, Enc};
use std::sync::{Arc, Mutex, MutexGuard};

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut s);
    splitmix(&mut s)
}

macro_rules! counters {
    ($en:ident, $names:ident; $( $id:ident = $name:expr ),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code, clippy::upper_case_acronyms)]
        #[derive(Copy, Clone, Debug)]
        pub enum $en { $( $id ),* , _N }
        pub const $names: &[&str] = &[ $( $name ),* ];
    };
}

counters! { Fault, FAULT_NAMES;
    Fragment = "fragmented_delivery",
    TempChunk = "temporary_piece",
    Misalign = "misaligned_memory",
    NoHint = "remaining_length_unknown",
    ShortRead = "short_read",
    Interrupt = "read_interrupted",
    IoError = "source_io_error",
    UnexpectedEof = "source_unexpected_eof_error",
    Truncate = "stream_truncated",
    Transient = "transient_source_error",
    PanicSource = "panic_in_source",
    PanicVisitor = "panic_in_callback",
    BitFlip = "stored_bit_flipped",
    Overwrite = "stored_span_overwritten",
    HostileLen = "length_or_count_inflated",
    RingWrap = "ring_wrap_inside_record",
    RingFull = "ring_full_record_lost",
    BufferReuse = "source_memory_overwritten",
    Preempt = "thread_preempted",
    InstrPreempt = "thread_preempted_between_instructions",
    Nested = "nested_parse_in_callback",
    HeapGarbage = "heap_garbage_varied",
    UnknownKind = "unknown_record_kind",
    TrailingBytes = "extra_trailing_bytes",
    MalformedBody = "malformed_body",
    SinkError = "format_sink_error",
    Withheld = "writer_withholds_until_reader_is_done",
}

counters! { Probe, PROBE_NAMES;
    RecordOk = "records_parsed_ok",
    RecordErr = "records_rejected",
    MultiPiece = "record_spans_pieces",
    EmptyTail = "zero_length_field_at_record_end",
    BorrowedSlice = "slice_borrowed_in_place",
    DeclinedBorrow = "in_place_borrow_declined",
    FaultInRecord = "fault_inside_record",
    FaultAtBoundary = "fault_at_item_boundary",
    RetryOk = "retry_succeeded",
    Big = "records_over_4096_bytes",
    BigEndian = "big_endian_items",
    Trailer = "trailer_reported",
    OverflowLen = "length_overflowing_usize",
    VisitorForward = "default_visitor_forwarding",
    OwnedCopy = "owned_copies_checked",
    CloneChecked = "clones_checked",
    UnwoundRuns = "runs_unwound",
    GroupOps = "group_iterator_operations",
    AttrFuture = "attr_larger_than_known",
    LostRecords = "lost_records_accounted",
    KnownFinding = "known_finding_histories",
    PrimOps = "primitive_operations",
    Instructions = "instructions_stepped",
    Checkpoint = "restored_from_checkpoint",
    Rendered = "values_rendered",
}

#[derive(Clone, Default)]
pub struct Stats {
    pub faults: Vec<u64>,
    pub probes: Vec<u64>,
    pub steps: u64,
}

pub struct State {
    rng: u64,
    replay: Option<Vec<u64>>,
    rpos: usize,
    pub log: Vec<u64>,
    logging: bool,
    pub stats: Stats,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub hash: u64,
    pub perturbed: bool,
    pub known: Vec<String>,
    pub seen_known: Vec<String>,
    stream: Option<std::fs::File>,
    /// the numbers generated last
    recent: [u64; 4],
}

#[derive(Clone)]
pub struct Ctx(Arc<Mutex<State>>);

/// The run's state, locked; whoever holds it is not the code under test.
pub struct StGuard<'a> {
    st: MutexGuard<'a, State>,
    _h: alloc::Guard,
}
impl std::ops::Deref for StGuard<'_> {
    type Target = State;
    fn deref(&self) -> &State {
        &self.st
    }
}
impl std::ops::DerefMut for StGuard<'_> {
    fn deref_mut(&mut self) -> &mut State {
        &mut self.st
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

pub type Res = Result<(), Viol>;

pub fn viol<T>(class: &str, msg: String) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), msg })
}

/// Payload of a panic the simulator injected on purpose.
pub struct Injected;
/// Payload of a panic raised because a run made too many source calls.
pub struct OverBudget;

impl Ctx {
    pub fn new(seed: u64, replay: Option<Vec<u64>>, tracing: bool, known: Vec<String>) -> Ctx {
        Ctx(Arc::new(Mutex::new(State {
            rng: seed,
            replay,
            rpos: 0,
            log: Vec::with_capacity(256),
            logging: true,
            stats: Stats {
                faults: vec![0; FAULT_NAMES.len()],
                probes: vec![0; PROBE_NAMES.len()],
                steps: 0,
            },
            tracing,
            trace: Vec::new(),
            hash: 0xcbf2_9ce4_8422_2325,
            perturbed: false,
            known,
            seen_known: Vec::new(),
            stream: None,
            recent: [0; 4],
        })))
    }

    pub fn st(&self) -> StGuard<'_> {
        let _h = alloc::harness();
        StGuard { st: self.0.lock().unwrap_or_else(|e| e.into_inner()), _h }
    }

    /// Now and then one of the last few numbers again (or the one after it) in place of `v`:
    /// fields that agree are what a reader may take for a coincidence that never happens.
    pub fn related(&self, v: u64) -> u64 {
        let mut st = self.st();
        let m = mix(v, 0xa9ee);
        let r = st.recent[(m >> 8) as usize % 4];
        let v = match m % 40 {
            0 | 1 => r,
            2 => r.wrapping_add(1),
            _ => v,
        };
        st.recent[(m >> 16) as usize % 4] = v;
        v
    }

    /// A value in 0..n (n == 0 means the full u64 range).
    pub fn draw(&self, n: u64) -> u64 {
        let _h = alloc::harness();
        let mut s = self.st();
        let s = &mut *s;
        let v = match &s.replay {
            Some(list) => {
                let v = list.get(s.rpos).copied().unwrap_or(0);
                s.rpos += 1;
                if n == 0 {
                    v
                } else {
                    v.min(n - 1)
                }
            }
            None => {
                let v = splitmix(&mut s.rng);
                if n == 0 {
                    v
                } else {
                    ((v as u128 * n as u128) >> 64) as u64
                }
            }
        };
        if s.logging {
            s.log.push(v);
            if let Some(f) = &mut s.stream {
                let _ = std::io::Write::write_all(f, &v.to_le_bytes());
            }
        }
        v
    }

    /// Write every choice to a file at once, in case the run kills the process.
    pub fn stream_to(&self, path: &str) {
        self.st().stream = std::fs::File::create(path).ok();
    }

    pub fn idx(&self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }

    /// True with probability num/den; 0 means false.
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }

    pub fn pick<T: Copy>(&self, xs: &[T]) -> T {
        xs[self.idx(xs.len())]
    }

    /// Weighted pick: returns the index.
    pub fn weighted(&self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }

    /// Everything a copy of this process learnt about the run, to be passed back.
    pub fn export(&self, e: &mut Enc, choices: bool) {
        let s = self.st();
        e.u(s.hash).u(s.perturbed as u64).u(s.stats.steps);
        e.us(&s.stats.faults).us(&s.stats.probes);
        e.us(if choices { &s.log } else { &[] });
        e.u(s.seen_known.len() as u64);
        for k in &s.seen_known {
            e.s(k);
        }
    }
    pub fn import(&self, d: &mut Dec) {
        let mut s = self.st();
        s.hash = d.u();
        s.perturbed = d.u() != 0;
        s.stats.steps = d.u();
        s.stats.faults = d.us();
        s.stats.probes = d.us();
        s.log = d.us();
        s.seen_known = (0..d.u()).map(|_| d.s()).collect();
    }

    /// Position in the choice log, for `rewind`.
    pub fn mark(&self) -> usize {
        let mut s = self.st();
        s.recent = [0; 4];
        s.log.len()
    }

    /// Feed the choices made since `mark` again.  Returns what must be handed
    /// to `resume` afterwards.
    pub fn rewind(&self, mark: usize) -> (Option<Vec<u64>>, usize) {
        let mut s = self.st();
        let seg = s.log[mark..].to_vec();
        let saved = (s.replay.replace(seg), s.rpos);
        s.rpos = 0;
        s.recent = [0; 4];
        s.logging = false;
        saved
    }

    pub fn resume(&self, saved: (Option<Vec<u64>>, usize)) {
        let mut s = self.st();
        s.replay = saved.0;
        s.rpos = saved.1;
        s.logging = true;
    }

    pub fn ev(&self, tag: u64, v: u64) {
        let mut s = self.st();
        s.stats.steps += 1;
        s.hash = (s.hash ^ mix(tag, v)).wrapping_mul(0x0000_0100_0000_01B3);
    }

    pub fn note(&self, f: impl FnOnce() -> String) {
        let _h = alloc::harness();
        let mut s = self.st();
        if s.tracing {
            if s.trace.len() < 4000 {
                let t = f();
                s.trace.push(t);
            } else if s.trace.len() == 4000 {
                s.trace.push("... (trace cut)".into());
            }
        }
    }

    /// Run something that is not part of the history (reference runs).
    pub fn quiet<T>(&self, f: impl FnOnce() -> T) -> T {
        let (h, st, tr, pe) = {
            let mut s = self.st();
            (s.hash, s.stats.clone(), std::mem::replace(&mut s.tracing, false), s.perturbed)
        };
        let r = f();
        let mut s = self.st();
        s.hash = h;
        s.stats = st;
        s.tracing = tr;
        s.perturbed = pe;
        r
    }

    pub fn fault(&self, f: Fault) {
        self.ev(3, f as u64);
        let mut s = self.st();
        s.stats.faults[f as usize] += 1;
        s.perturbed = true;
    }

    pub fn probe_n(&self, p: Probe, n: u64) {
        self.st().stats.probes[p as usize] += n;
    }

    pub fn probe(&self, p: Probe) {
        self.st().stats.probes[p as usize] += 1;
    }

    /// A violation whose class is listed as a known finding is counted and
    /// otherwise ignored; returns Err for every other one.
    pub fn check_known(&self, v: Viol) -> Res {
        let mut s = self.st();
        if s.known.contains(&v.class) {
            if !s.seen_known.contains(&v.class) {
                s.seen_known.push(v.class);
            }
            s.stats.probes[Probe::KnownFinding as usize] += 1;
            return Ok(());
        }
        drop(s);
        Err(v)
    }
}
