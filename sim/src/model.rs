//! The simulated kernel: what a record of each kind looks like on the wire.
//!
//! A record is drawn field by field; every field is written to the wire image
//! and, at the same moment, to the list of values a reader must see.

use crate::ctx::Ctx;
use crate::names;
use perf_event_open_sys::bindings::perf_event_attr;

pub const IP: u64 = 1 << 0;
pub const TID: u64 = 1 << 1;
pub const TIME: u64 = 1 << 2;
pub const ADDR: u64 = 1 << 3;
pub const READ: u64 = 1 << 4;
pub const CALLCHAIN: u64 = 1 << 5;
pub const ID: u64 = 1 << 6;
pub const CPU: u64 = 1 << 7;
pub const PERIOD: u64 = 1 << 8;
pub const STREAM_ID: u64 = 1 << 9;
pub const RAW: u64 = 1 << 10;
pub const BRANCH_STACK: u64 = 1 << 11;
pub const REGS_USER: u64 = 1 << 12;
pub const STACK_USER: u64 = 1 << 13;
pub const WEIGHT: u64 = 1 << 14;
pub const DATA_SRC: u64 = 1 << 15;
pub const IDENTIFIER: u64 = 1 << 16;
pub const TRANSACTION: u64 = 1 << 17;
pub const REGS_INTR: u64 = 1 << 18;
pub const PHYS_ADDR: u64 = 1 << 19;
pub const AUX: u64 = 1 << 20;
pub const CGROUP: u64 = 1 << 21;
pub const DATA_PAGE_SIZE: u64 = 1 << 22;
pub const CODE_PAGE_SIZE: u64 = 1 << 23;
pub const WEIGHT_STRUCT: u64 = 1 << 24;
pub const ST_ALL: u64 = (1 << 25) - 1;
pub const SID_MASK: u64 = TID | TIME | ID | STREAM_ID | CPU | IDENTIFIER;

pub const RF_TE: u64 = 1;
pub const RF_TR: u64 = 2;
pub const RF_ID: u64 = 4;
pub const RF_GROUP: u64 = 8;
pub const RF_LOST: u64 = 16;
pub const RF_ALL: u64 = 31;

pub const MISC_BUILD_ID: u16 = 1 << 14;
pub const MISC_SWITCH_OUT: u16 = 1 << 13;

pub const T_MMAP: u32 = 1;
pub const T_LOST: u32 = 2;
pub const T_COMM: u32 = 3;
pub const T_EXIT: u32 = 4;
pub const T_THROTTLE: u32 = 5;
pub const T_UNTHROTTLE: u32 = 6;
pub const T_FORK: u32 = 7;
pub const T_READ: u32 = 8;
pub const T_SAMPLE: u32 = 9;
pub const T_MMAP2: u32 = 10;
pub const T_AUX: u32 = 11;
pub const T_ITRACE: u32 = 12;
pub const T_LOST_SAMPLES: u32 = 13;
pub const T_SWITCH: u32 = 14;
pub const T_SWITCH_CPU: u32 = 15;
pub const T_NAMESPACES: u32 = 16;
pub const T_KSYMBOL: u32 = 17;
pub const T_BPF: u32 = 18;
pub const T_CGROUP: u32 = 19;
pub const T_TEXT_POKE: u32 = 20;
pub const T_HW_ID: u32 = 21;

pub fn kind_name(ty: u32) -> &'static str {
    match ty {
        1 => "mmap",
        2 => "lost",
        3 => "comm",
        4 => "exit",
        5 => "throttle",
        6 => "unthrottle",
        7 => "fork",
        8 => "read",
        9 => "sample",
        10 => "mmap2",
        11 => "aux",
        12 => "itrace_start",
        13 => "lost_samples",
        14 => "switch",
        15 => "switch_cpu_wide",
        16 => "namespaces",
        17 => "ksymbol",
        18 => "bpf_event",
        19 => "cgroup",
        20 => "text_poke",
        21 => "aux_output_hw_id",
        _ => "unknown",
    }
}

/// One observed value.
#[derive(Clone, PartialEq, Debug)]
pub enum V {
    N,
    U(u64),
    B(Vec<u8>),
    W(Vec<u64>),
    S(&'static str),
}

pub type Obs = Vec<(&'static str, V)>;

pub fn opt(v: Option<u64>) -> V {
    v.map_or(V::N, V::U)
}

/// Where two observations differ, for messages.
pub fn diff(a: &Obs, b: &Obs) -> String {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => (),
            (x, y) => {
                let f = |v: Option<&(&'static str, V)>| {
                    let mut s = format!("{:?}", v);
                    if s.len() > 220 {
                        let mut n = 220;
                        while !s.is_char_boundary(n) {
                            n -= 1;
                        }
                        s.truncate(n);
                        s.push('…');
                    }
                    s
                };
                return format!("expected {} got {}", f(x), f(y));
            }
        }
    }
    "equal".into()
}

#[derive(Clone, Debug, PartialEq)]
pub struct MCfg {
    pub st: u64,
    pub rf: u64,
    pub sid_all: bool,
    pub hw: bool,
    pub ru: u64,
    pub ri: u64,
    pub bst_other: u64,
}

impl MCfg {
    pub fn plain() -> MCfg {
        MCfg { st: 0, rf: 0, sid_all: false, hw: false, ru: 0, ri: 0, bst_other: 0 }
    }

    pub fn attr(&self) -> perf_event_attr {
        let mut a = perf_event_attr::default();
        a.sample_type = self.st;
        a.read_format = self.rf;
        a.set_sample_id_all(self.sid_all as u64);
        a.branch_sample_type = self.bst_other & !(1 << 17) | (self.hw as u64) << 17;
        a.sample_regs_user = self.ru;
        a.sample_regs_intr = self.ri;
        a
    }

    pub fn trailer_len(&self) -> usize {
        if self.sid_all {
            (self.st & SID_MASK).count_ones() as usize * 8
        } else {
            0
        }
    }

    pub fn rf_unsupported(&self) -> bool {
        self.rf & !RF_ALL != 0
    }
}

/// A configuration the kernel accepts and the library supports.
pub fn gen_cfg(c: &Ctx) -> MCfg {
    let st = match c.weighted(&[3, 3, 2, 1]) {
        0 => c.draw(0) & c.draw(0) & ST_ALL,
        1 => c.draw(0) & ST_ALL,
        2 => {
            // few fields, so that each becomes the last one often
            let mut m = 0;
            for _ in 0..c.idx(4) {
                m |= 1 << c.draw(25);
            }
            m
        }
        _ => (c.draw(0) | c.draw(0)) & ST_ALL,
    };
    let st = if st & WEIGHT != 0 { st & !WEIGHT_STRUCT } else { st };
    let mask = |c: &Ctx| match c.weighted(&[2, 2, 2, 1, 1]) {
        0 => 0,
        1 => c.draw(0) & c.draw(0) & c.draw(0),
        2 => c.draw(0) & 0xff_ffff,
        3 => 1u64 << c.draw(64),
        _ => c.draw(0),
    };
    MCfg {
        st,
        rf: c.draw(32),
        sid_all: c.chance(1, 2),
        hw: c.chance(1, 2),
        ru: mask(c),
        ri: mask(c),
        bst_other: if c.chance(1, 2) { c.draw(0) } else { 0 },
    }
}

/// Any attribute bits whatsoever.
pub fn gen_cfg_any(c: &Ctx) -> MCfg {
    let mut m = gen_cfg(c);
    match c.weighted(&[4, 1, 1, 1]) {
        0 => (),
        1 => m.st = c.draw(0),
        2 => m.rf = c.draw(0),
        _ => m.rf |= 1 << c.draw(64),
    }
    m
}

pub fn val64(c: &Ctx) -> u64 {
    let v = match c.weighted(&[8, 48, 8, 8, 8, 8, 3]) {
        0 => c.draw(4),
        1 => c.draw(0),
        2 => u64::MAX - c.draw(3),
        3 => 1u64 << c.draw(64),
        4 => c.draw(0) >> c.draw(64),
        // the markers that introduce the parts of a callchain
        6 => 0u64.wrapping_sub(c.pick(&[32, 128, 512, 640, 2048, 2176, 2560, 4095])),
        _ => 0x8000_0000u64.wrapping_sub(2).wrapping_add(c.draw(5)),
    };
    c.related(v)
}
pub fn val32(c: &Ctx) -> u32 {
    let v = match c.weighted(&[1, 6, 1, 1]) {
        0 => c.draw(4) as u32,
        1 => c.draw(0) as u32,
        2 => u32::MAX - c.draw(3) as u32,
        _ => 1 << c.draw(32),
    };
    c.related(v as u64) as u32
}
pub fn val16(c: &Ctx) -> u16 {
    match c.weighted(&[1, 5, 1]) {
        0 => c.draw(4) as u16,
        1 => c.draw(0) as u16,
        _ => u16::MAX - c.draw(3) as u16,
    }
}

pub fn length(c: &Ctx, max: usize) -> usize {
    let big = if max > 10000 { 14 } else { 1 };
    let n = match c.weighted(&[3, 3, 4, 3, big]) {
        0 => 0,
        1 => 1,
        2 => c.idx(6),
        3 => c.idx(40),
        _ => c.idx(max + 1),
    };
    n.min(max)
}

pub fn fill_bytes(c: &Ctx, n: usize) -> Vec<u8> {
    let mut s = c.draw(0);
    let mut shape = s ^ 0x5eed_0f_5a_9e;
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&crate::ctx::splitmix(&mut s).to_le_bytes());
    }
    v.truncate(n);
    // what a reader may take for padding, a terminator or an end: zeroes (or ones) at the end,
    // at the beginning, throughout
    let m = crate::ctx::splitmix(&mut shape);
    let k = (1 + (m >> 8) as usize % 12).min(n);
    let x = if m >> 16 & 7 == 0 { 0xff } else { 0 };
    match m & 31 {
        0..=4 => v[n - k..].fill(x),
        5 => v[..k].fill(x),
        6 => v.fill(x),
        _ => (),
    }
    v
}

pub fn words(c: &Ctx, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = if n > 64 {
        let mut s = c.draw(0);
        (0..n).map(|_| crate::ctx::splitmix(&mut s)).collect()
    } else {
        (0..n).map(|_| val64(c)).collect()
    };
    // an entry (of one, two or three words) the same as the one before it
    let m = crate::ctx::mix(v.first().map_or(0, |x| *x), n as u64);
    let w = 1 + m as usize % 3;
    if m >> 8 & 3 == 0 && n >= 2 * w {
        let i = w * ((m >> 16) as usize % (n / w - 1));
        v.copy_within(i..i + w, i + w);
    }
    v
}

/// A wire image under construction.
#[derive(Clone, Default)]
pub struct W {
    pub b: Vec<u8>,
    pub be: bool,
    /// (offset, width, bytes per unit) of every count or length field.
    pub counts: Vec<(usize, usize, usize)>,
}

impl W {
    pub fn u8(&mut self, v: u8) {
        self.b.push(v)
    }
    pub fn u16(&mut self, v: u16) {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend_from_slice(&x)
    }
    pub fn u32(&mut self, v: u32) {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend_from_slice(&x)
    }
    pub fn u64(&mut self, v: u64) {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend_from_slice(&x)
    }
    pub fn bytes(&mut self, v: &[u8]) {
        self.b.extend_from_slice(v)
    }
    pub fn words(&mut self, v: &[u64]) {
        for &x in v {
            self.u64(x)
        }
    }
    pub fn count(&mut self, width: usize, unit: usize) {
        self.counts.push((self.b.len(), width, unit))
    }
}

/// A record as emitted.
#[derive(Clone)]
pub struct GRec {
    pub ty: u32,
    pub misc: u16,
    /// header + body + trailer
    pub bytes: Vec<u8>,
    pub body: Obs,
    pub meta: Obs,
    /// length of the part of `bytes` after the header that is the body
    pub body_len: usize,
    pub counts: Vec<(usize, usize, usize)>,
    /// the last variable-length field is empty and ends the record
    pub empty_tail: bool,
}

impl GRec {
    pub fn hdr(&self) -> (u32, u16, u16) {
        (self.ty, self.misc, self.bytes.len() as u16)
    }
}

#[derive(Clone, Copy)]
pub struct GOpt {
    pub be: bool,
    /// upper bound on the bytes of any one variable-length field
    pub maxvar: usize,
    /// sizes not rounded to 8 bytes are fine too
    pub odd: bool,
}

impl GOpt {
    /// Upper bound on the next field of this body: the record must fit its 16-bit size.
    fn room(&self, w: &W) -> usize {
        self.maxvar.min(62000usize.saturating_sub(w.b.len()))
    }
}

pub fn finish(w: W, ty: u32, misc: u16, body: Obs, meta: Obs, body_len: usize) -> GRec {
    let mut h = W { be: w.be, ..W::default() };
    let total = w.b.len() + 8;
    assert!(total <= 65535, "model record too large");
    h.u32(ty);
    h.u16(misc);
    h.u16(total as u16);
    let mut counts: Vec<_> = w.counts.iter().map(|&(o, a, b)| (o + 8, a, b)).collect();
    counts.push((6, 2, 1));
    h.bytes(&w.b);
    GRec { ty, misc, bytes: h.b, body, meta, body_len, counts, empty_tail: false }
}

fn name(c: &Ctx, w: &mut W, max: usize, odd: bool) -> Vec<u8> {
    let n = length(c, max);
    let mut s = fill_bytes(c, n);
    match c.weighted(&[3, 1, 1]) {
        0 => s.iter_mut().for_each(|b| *b = b'!' + (*b % 90)),
        1 => (), // arbitrary bytes, interior NULs included
        _ => s.iter_mut().for_each(|b| *b = if *b & 3 == 0 { 0 } else { 0xC0 | (*b & 63) }),
    }
    if let Some(l) = s.last_mut() {
        if *l == 0 {
            *l = b'x';
        }
    }
    w.bytes(&s);
    // kernel: NUL terminated and padded to 8; also seen: more padding, or none
    match c.weighted(&[6, 1, 1]) {
        0 => {
            w.u8(0);
            while w.b.len() % 8 != 0 {
                w.u8(0);
            }
        }
        1 => {
            for _ in 0..c.idx(20) {
                w.u8(0);
            }
        }
        _ => (),
    }
    if !odd {
        while w.b.len() % 8 != 0 {
            w.u8(0);
        }
    }
    s
}

fn lr(v: &[u64], i: usize) -> V {
    if v.len() >= i * 2 + 2 {
        V::W(v[i * 2..i * 2 + 2].to_vec())
    } else {
        V::N
    }
}

/// Namespace accessors, by the kernel's index assignment.
pub fn ns_obs(o: &mut Obs, e: Vec<u64>) {
    o.push(("network", lr(&e, 0)));
    o.push(("uts", lr(&e, 1)));
    o.push(("ipc", lr(&e, 2)));
    o.push(("pid_ns", lr(&e, 3)));
    o.push(("user", lr(&e, 4)));
    o.push(("cgroup_ns", lr(&e, 6)));
    o.push(("entries", V::W(e)));
}

/// C bit-fields as a number: allocated from the other end on big-endian machines.
pub fn bits(v: u64, be: bool) -> u64 {
    if be {
        v.reverse_bits()
    } else {
        v
    }
}

pub fn branch_words(from: u64, to: u64, f: u64) -> [u64; 9] {
    let ty = f >> 20 & 15;
    [from, to, f & 1, f >> 1 & 1, f >> 2 & 1, f >> 3 & 1, f >> 4 & 0xffff, ty, names::x_br(ty)]
}

pub fn data_src_words(v: u64) -> Vec<u64> {
    let mut o = vec![
        v & 0x1f,
        v >> 5 & 0x3fff,
        v & (0x1f << 19 | 3 << 38),
        v >> 24 & 3,
        v >> 26 & 0x7f,
        v >> 33 & 15,
        v >> 37 & 1,
        v >> 40 & 7,
        v >> 43 & 7,
    ];
    o.extend(names::x_data_src(v));
    o
}

fn last_two(o: &Obs) -> (u64, u64) {
    match (&o[o.len() - 2].1, &o[o.len() - 1].1) {
        (V::U(a), V::U(b)) => (*a, *b),
        _ => unreachable!(),
    }
}
pub fn ksym_names(o: &mut Obs) {
    let (t, f) = last_two(o);
    o.push(("type_names", V::U(names::x_ksym(t))));
    o.push(("flag_names", V::U(names::x_ksymf(f))));
}
pub fn bpf_names(o: &mut Obs) {
    let (t, _) = last_two(o);
    o.push(("type_names", V::U(names::x_bpf(t))));
}

/// Values of one group: each entry as value, has id, id, has lost, lost.
pub fn group_obs(rf: u64, te: u64, tr: u64, raw: &[u64]) -> [V; 4] {
    let el = 1 + (rf & RF_ID != 0) as usize + (rf & RF_LOST != 0) as usize;
    let n = raw.len() / el;
    let mut w = Vec::with_capacity(n * 5);
    for e in raw.chunks_exact(el) {
        let mut i = 1;
        w.push(e[0]);
        for f in [RF_ID, RF_LOST] {
            if rf & f != 0 {
                w.extend([1, e[i]]);
                i += 1;
            } else {
                w.extend([0, 0]);
            }
        }
    }
    [
        V::U(n as u64),
        opt((rf & RF_TE != 0).then_some(te)),
        opt((rf & RF_TR != 0).then_some(tr)),
        V::W(w),
    ]
}

pub const SAMPLE_KEYS: [&str; 28] = [
    "ip", "pid", "tid", "time", "addr", "id", "stream_id", "cpu", "period", "v.len", "v.enabled",
    "v.running", "v.entries", "callchain", "raw", "lbr_hw_index", "lbr", "regs_user", "stack_user",
    "weight", "data_src", "transaction", "regs_intr", "phys_addr", "cgroup", "data_page_size",
    "code_page_size", "aux",
];

pub struct SampleObs(pub [V; 28]);
impl SampleObs {
    pub fn new() -> Self {
        SampleObs(std::array::from_fn(|_| V::N))
    }
    pub fn set(&mut self, k: &str, v: V) {
        let i = SAMPLE_KEYS.iter().position(|x| *x == k).expect("sample key");
        self.0[i] = v;
    }
    pub fn obs(self) -> Obs {
        let mut o = vec![("kind", V::S("sample"))];
        o.extend(SAMPLE_KEYS.into_iter().zip(self.0));
        o
    }
}

fn gen_sample(c: &Ctx, cfg: &MCfg, w: &mut W, opt_: GOpt) -> (Obs, bool) {
    let st = cfg.st;
    let mut o = SampleObs::new();
    let mut empty_tail = false;
    let ident = val64(c);
    if st & IDENTIFIER != 0 {
        w.u64(ident);
        o.set("id", V::U(ident));
    }
    macro_rules! f64_ {
        ($flag:expr, $k:expr) => {
            if st & $flag != 0 {
                let v = val64(c);
                w.u64(v);
                o.set($k, V::U(v));
            }
        };
    }
    f64_!(IP, "ip");
    if st & TID != 0 {
        for k in ["pid", "tid"] {
            let v = val32(c);
            w.u32(v);
            o.set(k, V::U(v as u64));
        }
    }
    f64_!(TIME, "time");
    f64_!(ADDR, "addr");
    if st & ID != 0 {
        w.u64(ident);
        o.set("id", V::U(ident));
    }
    f64_!(STREAM_ID, "stream_id");
    if st & CPU != 0 {
        let v = val32(c);
        w.u32(v);
        w.u32(val32(c));
        o.set("cpu", V::U(v as u64));
    }
    f64_!(PERIOD, "period");
    if st & READ != 0 {
        let rf = cfg.rf;
        let el = 1 + (rf & RF_ID != 0) as usize + (rf & RF_LOST != 0) as usize;
        let (te, tr) = (val64(c), val64(c));
        let raw;
        if rf & RF_GROUP != 0 {
            let n = length(c, opt_.room(w) / 24);
            raw = words(c, n * el);
            w.count(8, 8 * el);
            w.u64(n as u64);
            if rf & RF_TE != 0 {
                w.u64(te)
            }
            if rf & RF_TR != 0 {
                w.u64(tr)
            }
            w.words(&raw);
            empty_tail = n == 0;
        } else {
            raw = words(c, el);
            w.u64(raw[0]);
            if rf & RF_TE != 0 {
                w.u64(te)
            }
            if rf & RF_TR != 0 {
                w.u64(tr)
            }
            w.words(&raw[1..]);
        }
        let [a, b, d, e] = group_obs(rf, te, tr, &raw);
        o.set("v.len", a);
        o.set("v.enabled", b);
        o.set("v.running", d);
        o.set("v.entries", e);
    }
    if st & CALLCHAIN != 0 {
        let n = length(c, opt_.room(w) / 8);
        let v = words(c, n);
        w.count(8, 8);
        w.u64(n as u64);
        w.words(&v);
        o.set("callchain", V::W(v));
        empty_tail = n == 0;
    }
    if st & RAW != 0 {
        let start = w.b.len();
        let n = length(c, opt_.room(w));
        // the kernel rounds size so that the field ends on 8 bytes; a size that
        // does not is followed by padding
        let n = if c.chance(1, 2) { (n + 4 + 7) / 8 * 8 - 4 } else { n };
        let v = fill_bytes(c, n);
        w.count(4, 1);
        w.u32(n as u32);
        w.bytes(&v);
        while (w.b.len() - start) % 8 != 0 {
            w.u8(c.draw(256) as u8);
        }
        o.set("raw", V::B(v));
        empty_tail = false;
    }
    if st & BRANCH_STACK != 0 {
        let n = length(c, opt_.room(w) / 24);
        let hw = val64(c);
        let mut ob = Vec::new();
        w.count(8, 24);
        w.u64(n as u64);
        if cfg.hw {
            w.u64(hw);
            o.set("lbr_hw_index", V::U(hw));
        }
        let es = words(c, n * 3);
        for e in es.chunks_exact(3) {
            w.words(&[e[0], e[1], bits(e[2], w.be)]);
            ob.extend(branch_words(e[0], e[1], e[2]));
        }
        o.set("lbr", V::W(ob));
        empty_tail = n == 0;
    }
    if st & REGS_USER != 0 {
        empty_tail = gen_regs(c, w, &mut o, "regs_user", cfg.ru);
    }
    if st & STACK_USER != 0 {
        let n = length(c, opt_.room(w));
        let n = if opt_.odd { n } else { n / 8 * 8 };
        w.count(8, 1);
        w.u64(n as u64);
        let v = fill_bytes(c, n);
        w.bytes(&v);
        let dynsz = match c.weighted(&[1, 2, 1]) {
            0 => n,
            1 => c.idx(n + 1),
            _ => 0,
        };
        if n > 0 {
            w.count(8, 1);
            w.u64(dynsz as u64);
        }
        o.set("stack_user", V::B(v[..if n > 0 { dynsz } else { 0 }].to_vec()));
        empty_tail = n == 0;
    }
    if st & (WEIGHT | WEIGHT_STRUCT) != 0 {
        let v = val64(c);
        w.u64(v);
        o.set("weight", V::U(v));
        empty_tail = false;
    }
    if st & DATA_SRC != 0 {
        let v = val64(c);
        w.u64(v);
        o.set("data_src", V::W(data_src_words(v)));
        empty_tail = false;
    }
    if st & TRANSACTION != 0 {
        let v = val64(c);
        w.u64(v);
        o.set("transaction", V::W(vec![v, v >> 32, names::x_txn(v)]));
        empty_tail = false;
    }
    if st & REGS_INTR != 0 {
        empty_tail = gen_regs(c, w, &mut o, "regs_intr", cfg.ri);
    }
    let before = w.b.len();
    f64_!(PHYS_ADDR, "phys_addr");
    f64_!(CGROUP, "cgroup");
    f64_!(DATA_PAGE_SIZE, "data_page_size");
    f64_!(CODE_PAGE_SIZE, "code_page_size");
    if w.b.len() != before {
        empty_tail = false;
    }
    if st & AUX != 0 {
        let n = length(c, opt_.room(w));
        let n = if opt_.odd { n } else { n / 8 * 8 };
        w.count(8, 1);
        w.u64(n as u64);
        let v = fill_bytes(c, n);
        w.bytes(&v);
        o.set("aux", V::B(v));
        empty_tail = n == 0;
    }
    (o.obs(), empty_tail)
}

fn gen_regs(c: &Ctx, w: &mut W, o: &mut SampleObs, k: &str, mask: u64) -> bool {
    let abi = c.weighted(&[2, 2, 3]) as u64;
    w.u64(abi);
    let n = if abi == 0 { 0 } else { mask.count_ones() as usize };
    let r = words(c, n);
    w.words(&r);
    let mut v = vec![abi, names::x_abi(abi), mask];
    v.extend(&r);
    o.set(k, V::W(v));
    n == 0
}

pub fn gen_trailer(c: &Ctx, cfg: &MCfg, w: &mut W, ty: u32, misc: u16) -> Obs {
    let mut o = meta_empty(ty, misc);
    if !cfg.sid_all || ty == T_MMAP || ty == T_SAMPLE {
        return o;
    }
    let ident = val64(c);
    if cfg.st & TID != 0 {
        for i in [2, 3] {
            let v = val32(c);
            w.u32(v);
            o[i].1 = V::U(v as u64);
        }
    }
    if cfg.st & TIME != 0 {
        let v = val64(c);
        w.u64(v);
        o[4].1 = V::U(v);
    }
    if cfg.st & ID != 0 {
        w.u64(ident);
        o[5].1 = V::U(ident);
    }
    if cfg.st & STREAM_ID != 0 {
        let v = val64(c);
        w.u64(v);
        o[6].1 = V::U(v);
    }
    if cfg.st & CPU != 0 {
        let v = val32(c);
        w.u32(v);
        w.u32(val32(c));
        o[7].1 = V::U(v as u64);
    }
    if cfg.st & IDENTIFIER != 0 {
        w.u64(ident);
        o[5].1 = V::U(ident);
    }
    o
}

pub fn meta_empty(ty: u32, misc: u16) -> Obs {
    vec![
        ("ty", V::U(ty as u64)),
        ("misc", V::U(misc as u64)),
        ("sid.pid", V::N),
        ("sid.tid", V::N),
        ("sid.time", V::N),
        ("sid.id", V::N),
        ("sid.stream_id", V::N),
        ("sid.cpu", V::N),
    ]
}

/// A type number, known or not.
pub fn gen_ty(c: &Ctx, cfg: &MCfg) -> u32 {
    let t = match c.weighted(&[4, 14, 1, 1, 1]) {
        0 => T_SAMPLE,
        1 => 1 + c.draw(21) as u32,
        2 => 0,
        3 => 22 + c.draw(60) as u32,
        _ => c.draw(0) as u32,
    };
    if t == T_READ && cfg.rf & RF_GROUP != 0 {
        T_LOST
    } else {
        t
    }
}

/// Draw a well-formed record of the given type.
pub fn gen_record(c: &Ctx, cfg: &MCfg, ty: u32, go: GOpt) -> GRec {
    let mut w = W { be: go.be, ..W::default() };
    let misc = val16(c);
    let mut o: Obs = vec![("kind", V::S(kind_name(ty)))];
    let mut empty_tail = false;
    macro_rules! p32 {
        ($($k:expr),*) => { $( let v = val32(c); w.u32(v); o.push(($k, V::U(v as u64))); )* };
    }
    macro_rules! p64 {
        ($($k:expr),*) => { $( let v = val64(c); w.u64(v); o.push(($k, V::U(v))); )* };
    }
    macro_rules! p16 {
        ($($k:expr),*) => { $( let v = val16(c); w.u16(v); o.push(($k, V::U(v as u64))); )* };
    }
    match ty {
        T_MMAP => {
            p32!("pid", "tid");
            p64!("addr", "len", "pgoff");
            let n = name(c, &mut w, go.maxvar, go.odd);
            o.push(("filename", V::B(n.clone())));
            o.push(("filename_os", V::B(n)));
        }
        T_LOST => {
            p64!("id", "lost");
        }
        T_COMM => {
            p32!("pid", "tid");
            let n = name(c, &mut w, go.maxvar, go.odd);
            o.push(("comm", V::B(n.clone())));
            o.push(("comm_os", V::B(n)));
        }
        T_EXIT | T_FORK => {
            p32!("pid", "ppid", "tid", "ptid");
            p64!("time");
        }
        T_THROTTLE | T_UNTHROTTLE => {
            p64!("time", "id", "stream_id");
        }
        T_READ => {
            p32!("pid", "tid");
            p64!("value");
            for (f, k) in [(RF_TE, "enabled"), (RF_TR, "running"), (RF_ID, "id"), (RF_LOST, "lost")] {
                if cfg.rf & f != 0 {
                    p64!(k);
                } else {
                    o.push((k, V::N));
                }
            }
        }
        T_SAMPLE => {
            let (ob, et) = gen_sample(c, cfg, &mut w, go);
            o = ob;
            empty_tail = et;
        }
        T_MMAP2 => {
            p32!("pid", "tid");
            p64!("addr", "len", "pgoff");
            if misc & MISC_BUILD_ID != 0 {
                let n = c.idx(21);
                let id = fill_bytes(c, 20);
                w.count(1, 1);
                w.u8(n as u8);
                w.u8(c.draw(256) as u8);
                w.u16(c.draw(65536) as u16);
                w.bytes(&id);
                for k in ["maj", "min", "ino", "ino_generation"] {
                    o.push((k, V::N));
                }
                o.push(("build_id", V::B(id[..n].to_vec())));
            } else {
                p32!("maj", "min");
                p64!("ino", "ino_generation");
                o.push(("build_id", V::N));
            }
            p32!("prot", "flags");
            let n = name(c, &mut w, go.maxvar, go.odd);
            o.push(("filename", V::B(n.clone())));
            o.push(("filename_os", V::B(n)));
        }
        T_AUX => {
            p64!("aux_offset", "aux_size");
            let f = val64(c);
            w.u64(f);
            o.push(("flags", V::U(f)));
            o.push(("pmu_format", V::U(f >> 8 & 0xff)));
            o.push(("flag_names", V::U(names::x_aux(f))));
            o.push(("format_names", V::U(names::x_pmu(f >> 8 & 0xff))));
        }
        T_ITRACE => {
            p32!("pid", "tid");
        }
        T_LOST_SAMPLES => {
            p64!("lost");
        }
        T_SWITCH => (),
        T_SWITCH_CPU => {
            o.push(("out", V::U((misc & MISC_SWITCH_OUT != 0) as u64)));
            p32!("pid", "tid");
        }
        T_NAMESPACES => {
            p32!("pid", "tid");
            let n = match c.weighted(&[2, 3, 1]) {
                0 => 7,
                1 => c.idx(11),
                _ => length(c, go.room(&w) / 16),
            };
            w.count(8, 16);
            w.u64(n as u64);
            let e = words(c, n * 2);
            w.words(&e);
            ns_obs(&mut o, e);
        }
        T_KSYMBOL => {
            p64!("addr");
            p32!("len");
            p16!("ksym_type", "flags");
            ksym_names(&mut o);
            let n = name(c, &mut w, go.maxvar, go.odd);
            o.push(("name", V::B(n)));
        }
        T_BPF => {
            p16!("ty", "flags");
            bpf_names(&mut o);
            p32!("id");
            let t = fill_bytes(c, 8);
            w.bytes(&t);
            o.push(("tag", V::B(t)));
        }
        T_CGROUP => {
            p64!("id");
            let n = name(c, &mut w, go.maxvar, go.odd);
            o.push(("path", V::B(n.clone())));
            o.push(("path_os", V::B(n)));
        }
        T_TEXT_POKE => {
            p64!("addr");
            let (a, b) = (length(c, go.room(&w) / 2), length(c, go.room(&w) / 2));
            w.count(2, 1);
            w.u16(a as u16);
            w.count(2, 1);
            w.u16(b as u16);
            let (x, mut y) = (fill_bytes(c, a), fill_bytes(c, b));
            if c.chance(1, 2) {
                // a patched instruction: most bytes stay as they were
                let n = a.min(b);
                y[..n].copy_from_slice(&x[..n]);
                if n > 0 {
                    y[c.idx(n)] ^= c.draw(256) as u8;
                }
            }
            w.bytes(&x);
            w.bytes(&y);
            while w.b.len() % 8 != 0 {
                w.u8(c.draw(256) as u8);
            }
            o.push(("old", V::B(x)));
            o.push(("new", V::B(y)));
        }
        T_HW_ID => {
            p64!("hw_id");
        }
        _ => {
            let n = length(c, go.room(&w));
            let n = if go.odd { n } else { n / 8 * 8 };
            let d = fill_bytes(c, n);
            w.bytes(&d);
            o.push(("ty", V::U(ty as u64)));
            o.push(("data", V::B(d)));
            empty_tail = n == 0;
        }
    }
    let body_len = w.b.len();
    let meta = gen_trailer(c, cfg, &mut w, ty, misc);
    let mut r = finish(w, ty, misc, o, meta, body_len);
    r.empty_tail = empty_tail && r.bytes.len() == 8 + body_len;
    r
}

pub fn gen_opt(c: &Ctx, be: bool) -> GOpt {
    let maxvar = match c.weighted(&[120, 60, 18, 2]) {
        0 => 64,
        1 => 600,
        2 => 7000,
        _ => 60000,
    };
    GOpt { be, maxvar, odd: c.chance(1, 3) }
}
