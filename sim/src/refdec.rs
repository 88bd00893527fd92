//! Reference decoder: the record layout, read straight from the bytes.
//!
//! Independent of both the model's encoder and the library.  It says what
//! values a record's bytes denote, or which kinds of rejection are right.

use crate::model::*;
use crate::names;

pub const EOF: u8 = 1;
pub const INV: u8 = 2;
pub const UCFG: u8 = 4;
pub const UDATA: u8 = 8;
pub const EXT: u8 = 16;

pub fn kinds(k: u8) -> String {
    let mut v = vec![];
    for (b, n) in [
        (EOF, "Eof"),
        (INV, "InvalidRecord"),
        (UCFG, "UnsupportedConfig"),
        (UDATA, "UnsupportedData"),
        (EXT, "External"),
    ] {
        if k & b != 0 {
            v.push(n)
        }
    }
    v.join("|")
}

/// Where the bytes of a stream lie in memory as the source hands them out.
#[derive(Clone, Debug, Default)]
pub struct Place {
    pub native: bool,
    /// (first stream offset, end, address of the first byte modulo 8)
    pub ext: Vec<(usize, usize, usize)>,
}

impl Place {
    /// The known finding: a native-order slice request that one borrowed,
    /// misaligned piece could satisfy is skipped before it is parsed.
    fn skips(&self, abs: usize, end: usize, len: usize) -> bool {
        if !self.native || len == 0 {
            return false;
        }
        self.ext.iter().any(|&(s, e, a)| {
            s <= abs && abs < e && e.min(end) - abs >= len && (a + abs - s) % 8 != 0
        })
    }
}

impl Place {
    /// Can words of the record at `at` lie at odd addresses?
    pub fn odd(&self, at: usize) -> bool {
        self.native && self.ext.iter().any(|&(s, e, a)| e > at && at.wrapping_sub(s).wrapping_add(a) % 8 != 0)
    }
}

pub type Exp<T> = Result<T, u8>;

pub struct Rd<'a> {
    pub d: &'a [u8],
    pub pos: usize,
    pub end: usize,
    pub be: bool,
    /// stream offset of d[0]
    pub base: usize,
    pub place: Option<&'a Place>,
    pub skipped: bool,
}

impl<'a> Rd<'a> {
    pub fn new(d: &'a [u8], be: bool) -> Rd<'a> {
        Rd { d, pos: 0, end: d.len(), be, base: 0, place: None, skipped: false }
    }
    pub fn bytes(&mut self, n: usize) -> Exp<&'a [u8]> {
        if n > self.end - self.pos {
            return Err(EOF);
        }
        let s = &self.d[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn num(&mut self, n: usize) -> Exp<u64> {
        let s = self.bytes(n)?;
        let mut v = 0u64;
        for i in 0..n {
            let b = s[if self.be { i } else { n - 1 - i }];
            v = v << 8 | b as u64;
        }
        Ok(v)
    }
    pub fn u8(&mut self) -> Exp<u64> {
        self.num(1)
    }
    pub fn u16(&mut self) -> Exp<u64> {
        self.num(2)
    }
    pub fn u32(&mut self) -> Exp<u64> {
        self.num(4)
    }
    pub fn u64(&mut self) -> Exp<u64> {
        self.num(8)
    }
    pub fn rest(&mut self) -> &'a [u8] {
        let s = &self.d[self.pos..self.end];
        self.pos = self.end;
        s
    }
    fn rest_trim(&mut self) -> Vec<u8> {
        let mut s = self.rest();
        while let Some((0, h)) = s.split_last() {
            s = h;
        }
        s.to_vec()
    }
    /// `n` elements of `k` 8-byte words each.
    pub fn slice(&mut self, n: u64, k: usize) -> Exp<Vec<u64>> {
        let total = n as u128 * k as u128 * 8;
        if total > usize::MAX as u128 {
            return Err(EOF | INV);
        }
        let total = total as usize;
        if let Some(p) = self.place {
            if p.skips(self.base + self.pos, self.base + self.end, total) {
                self.pos += total;
                self.skipped = true;
            }
        }
        if total > self.end - self.pos {
            return Err(EOF);
        }
        (0..total / 8).map(|_| self.u64()).collect()
    }
}

pub fn group(r: &mut Rd, rf: u64) -> Exp<[V; 4]> {
    if rf & !RF_ALL != 0 {
        return Err(UCFG);
    }
    let el = 1 + (rf & RF_ID != 0) as u64 + (rf & RF_LOST != 0) as u64;
    let n = r.u64()?;
    let te = if rf & RF_TE != 0 { r.u64()? } else { 0 };
    let tr = if rf & RF_TR != 0 { r.u64()? } else { 0 };
    if n.checked_mul(el).is_none() {
        return Err(INV | EOF);
    }
    let w = r.slice(n * el, 1)?;
    Ok(group_obs(rf, te, tr, &w))
}

/// A single counter: value, times, id, lost.
pub fn single(r: &mut Rd, rf: u64) -> Exp<(u64, u64, u64, Vec<u64>)> {
    if rf & !RF_ALL != 0 || rf & RF_GROUP != 0 {
        return Err(UCFG);
    }
    let v = r.u64()?;
    let te = if rf & RF_TE != 0 { r.u64()? } else { 0 };
    let tr = if rf & RF_TR != 0 { r.u64()? } else { 0 };
    let mut w = vec![v];
    for f in [RF_ID, RF_LOST] {
        if rf & f != 0 {
            w.push(r.u64()?);
        }
    }
    Ok((v, te, tr, w))
}

pub fn single_obs(cfg: &MCfg, (v, te, tr, w): (u64, u64, u64, Vec<u64>)) -> Obs {
    let mut i = w[1..].iter().copied();
    vec![
        ("value", V::U(v)),
        ("enabled", opt((cfg.rf & RF_TE != 0).then_some(te))),
        ("running", opt((cfg.rf & RF_TR != 0).then_some(tr))),
        ("id", opt(if cfg.rf & RF_ID != 0 { i.next() } else { None })),
        ("lost", opt(if cfg.rf & RF_LOST != 0 { i.next() } else { None })),
    ]
}

pub fn regs(r: &mut Rd, mask: u64) -> Exp<V> {
    let abi = r.u64()?;
    let n = if abi == 0 { 0 } else { mask.count_ones() as u64 };
    let mut v = vec![abi, names::x_abi(abi), mask];
    v.extend(r.slice(n, 1)?);
    Ok(V::W(v))
}

fn sample(r: &mut Rd, cfg: &MCfg) -> Exp<Obs> {
    let st = cfg.st;
    let mut o = SampleObs::new();
    macro_rules! f {
        ($b:expr, $k:expr) => {
            if st & $b != 0 {
                let v = r.u64()?;
                o.set($k, V::U(v));
            }
        };
    }
    f!(IDENTIFIER, "id");
    f!(IP, "ip");
    if st & TID != 0 {
        let v = r.u32()?;
        o.set("pid", V::U(v));
        let v = r.u32()?;
        o.set("tid", V::U(v));
    }
    f!(TIME, "time");
    f!(ADDR, "addr");
    f!(ID, "id");
    f!(STREAM_ID, "stream_id");
    if st & CPU != 0 {
        let v = r.u32()?;
        r.u32()?;
        o.set("cpu", V::U(v));
    }
    f!(PERIOD, "period");
    if st & READ != 0 {
        let [a, b, c, d] = if cfg.rf & RF_GROUP != 0 {
            group(r, cfg.rf)?
        } else {
            let (_, te, tr, w) = single(r, cfg.rf)?;
            group_obs(cfg.rf, te, tr, &w)
        };
        o.set("v.len", a);
        o.set("v.enabled", b);
        o.set("v.running", c);
        o.set("v.entries", d);
    }
    if st & CALLCHAIN != 0 {
        let n = r.u64()?;
        let w = r.slice(n, 1)?;
        o.set("callchain", V::W(w));
    }
    if st & RAW != 0 {
        let n = r.u32()? as usize;
        let v = r.bytes(n)?.to_vec();
        o.set("raw", V::B(v));
        let used = (n + 4) % 8;
        if used != 0 {
            r.bytes(8 - used)?;
        }
    }
    if st & BRANCH_STACK != 0 {
        let n = r.u64()?;
        if cfg.hw {
            let v = r.u64()?;
            o.set("lbr_hw_index", V::U(v));
        }
        let w = r.slice(n, 3)?;
        let v = w.chunks_exact(3).flat_map(|e| branch_words(e[0], e[1], bits(e[2], r.be))).collect();
        o.set("lbr", V::W(v));
    }
    if st & REGS_USER != 0 {
        let v = regs(r, cfg.ru)?;
        o.set("regs_user", v);
    }
    if st & STACK_USER != 0 {
        let n = r.u64()?;
        if n > (r.end - r.pos) as u64 {
            return Err(EOF);
        }
        let v = r.bytes(n as usize)?;
        let dynsz = if n != 0 { r.u64()? } else { 0 };
        if dynsz > n {
            return Err(INV);
        }
        o.set("stack_user", V::B(v[..dynsz as usize].to_vec()));
    }
    f!((WEIGHT | WEIGHT_STRUCT), "weight");
    if st & DATA_SRC != 0 {
        let v = r.u64()?;
        o.set("data_src", V::W(data_src_words(v)));
    }
    if st & TRANSACTION != 0 {
        let v = r.u64()?;
        o.set("transaction", V::W(vec![v, v >> 32, names::x_txn(v)]));
    }
    if st & REGS_INTR != 0 {
        let v = regs(r, cfg.ri)?;
        o.set("regs_intr", v);
    }
    f!(PHYS_ADDR, "phys_addr");
    f!(CGROUP, "cgroup");
    f!(DATA_PAGE_SIZE, "data_page_size");
    f!(CODE_PAGE_SIZE, "code_page_size");
    if st & AUX != 0 {
        let n = r.u64()?;
        if n > (r.end - r.pos) as u64 {
            return Err(EOF);
        }
        let v = r.bytes(n as usize)?.to_vec();
        o.set("aux", V::B(v));
    }
    Ok(o.obs())
}

/// Decode a body of type `ty`.  `r` covers exactly the body.
pub fn body(r: &mut Rd, ty: u32, misc: u16, cfg: &MCfg) -> Exp<Obs> {
    let e = body1(r, ty, misc, cfg);
    // Rejecting an unusable configuration before looking at the data is as
    // good as running out of data first.
    let needs_rf = ty == T_READ || ty == T_SAMPLE && cfg.st & READ != 0;
    let bad_rf = cfg.rf_unsupported() || ty == T_READ && cfg.rf & RF_GROUP != 0;
    match e {
        Err(k) if needs_rf && bad_rf => Err(k | UCFG | EOF),
        e => e,
    }
}

fn body1(r: &mut Rd, ty: u32, misc: u16, cfg: &MCfg) -> Exp<Obs> {
    let mut o: Obs = vec![("kind", V::S(kind_name(ty)))];
    macro_rules! p32 { ($($k:expr),*) => { $( let v = r.u32()?; o.push(($k, V::U(v))); )* } }
    macro_rules! p64 { ($($k:expr),*) => { $( let v = r.u64()?; o.push(($k, V::U(v))); )* } }
    macro_rules! p16 { ($($k:expr),*) => { $( let v = r.u16()?; o.push(($k, V::U(v))); )* } }
    match ty {
        T_MMAP => {
            p32!("pid", "tid");
            p64!("addr", "len", "pgoff");
            let n = r.rest_trim();
            o.push(("filename", V::B(n.clone())));
            o.push(("filename_os", V::B(n)));
        }
        T_LOST => {
            p64!("id", "lost");
        }
        T_COMM => {
            p32!("pid", "tid");
            let n = r.rest_trim();
            o.push(("comm", V::B(n.clone())));
            o.push(("comm_os", V::B(n)));
        }
        T_EXIT | T_FORK => {
            p32!("pid", "ppid", "tid", "ptid");
            p64!("time");
        }
        T_THROTTLE | T_UNTHROTTLE => {
            p64!("time", "id", "stream_id");
        }
        T_READ => {
            p32!("pid", "tid");
            o.extend(single_obs(cfg, single(r, cfg.rf)?));
        }
        T_SAMPLE => return sample(r, cfg),
        T_MMAP2 => {
            p32!("pid", "tid");
            p64!("addr", "len", "pgoff");
            if misc & MISC_BUILD_ID != 0 {
                let n = r.u8()? as usize;
                let bad = |k: u8| if n > 20 { k | INV } else { k };
                r.bytes(3).map_err(bad)?;
                let id = r.bytes(20).map_err(bad)?.to_vec();
                if n > 20 {
                    return Err(if r.end - r.pos < 8 { INV | EOF } else { INV });
                }
                for k in ["maj", "min", "ino", "ino_generation"] {
                    o.push((k, V::N));
                }
                o.push(("build_id", V::B(id[..n].to_vec())));
            } else {
                p32!("maj", "min");
                p64!("ino", "ino_generation");
                o.push(("build_id", V::N));
            }
            p32!("prot", "flags");
            let n = r.rest_trim();
            o.push(("filename", V::B(n.clone())));
            o.push(("filename_os", V::B(n)));
        }
        T_AUX => {
            p64!("aux_offset", "aux_size");
            let f = r.u64()?;
            o.push(("flags", V::U(f)));
            o.push(("pmu_format", V::U(f >> 8 & 0xff)));
            o.push(("flag_names", V::U(names::x_aux(f))));
            o.push(("format_names", V::U(names::x_pmu(f >> 8 & 0xff))));
        }
        T_ITRACE => {
            p32!("pid", "tid");
        }
        T_LOST_SAMPLES => {
            p64!("lost");
        }
        T_SWITCH => (),
        T_SWITCH_CPU => {
            o.push(("out", V::U((misc & MISC_SWITCH_OUT != 0) as u64)));
            p32!("pid", "tid");
        }
        T_NAMESPACES => {
            p32!("pid", "tid");
            let n = r.u64()?;
            let w = r.slice(n, 2)?;
            ns_obs(&mut o, w);
        }
        T_KSYMBOL => {
            p64!("addr");
            p32!("len");
            p16!("ksym_type", "flags");
            ksym_names(&mut o);
            let n = r.rest_trim();
            o.push(("name", V::B(n)));
        }
        T_BPF => {
            p16!("ty", "flags");
            bpf_names(&mut o);
            p32!("id");
            let t = r.bytes(8)?.to_vec();
            o.push(("tag", V::B(t)));
        }
        T_CGROUP => {
            p64!("id");
            let n = r.rest_trim();
            o.push(("path", V::B(n.clone())));
            o.push(("path_os", V::B(n)));
        }
        T_TEXT_POKE => {
            p64!("addr");
            let (a, b) = (r.u16()? as usize, r.u16()? as usize);
            // old and new are followed by padding to 8 bytes
            let pad = (8 - (a + b + 4) % 8) % 8;
            let d = r.bytes(a + b + pad)?;
            o.push(("old", V::B(d[..a].to_vec())));
            o.push(("new", V::B(d[a..a + b].to_vec())));
        }
        T_HW_ID => {
            p64!("hw_id");
        }
        _ => {
            let d = r.rest().to_vec();
            o.push(("ty", V::U(ty as u64)));
            o.push(("data", V::B(d)));
        }
    }
    Ok(o)
}

pub fn trailer(r: &mut Rd, ty: u32, misc: u16, cfg: &MCfg) -> Exp<Obs> {
    let mut o = meta_empty(ty, misc);
    if !cfg.sid_all || ty == T_MMAP || ty == T_SAMPLE {
        return Ok(o);
    }
    if cfg.st & TID != 0 {
        o[2].1 = V::U(r.u32()?);
        o[3].1 = V::U(r.u32()?);
    }
    if cfg.st & TIME != 0 {
        o[4].1 = V::U(r.u64()?);
    }
    if cfg.st & ID != 0 {
        o[5].1 = V::U(r.u64()?);
    }
    if cfg.st & STREAM_ID != 0 {
        o[6].1 = V::U(r.u64()?);
    }
    if cfg.st & CPU != 0 {
        o[7].1 = V::U(r.u32()?);
        r.u32()?;
    }
    if cfg.st & IDENTIFIER != 0 {
        let v = r.u64()?;
        if cfg.st & ID == 0 {
            o[5].1 = V::U(v);
        }
    }
    Ok(o)
}

#[derive(Clone, Debug)]
pub struct RefRec {
    /// body and metadata, or the acceptable kinds of rejection
    pub out: Exp<(Obs, Obs)>,
    /// bytes consumed from the start of the header; None: anything up to the end
    pub used: Option<usize>,
    pub skipped: bool,
    pub ty: u32,
}

/// Decode the record starting at `at`, if the stream holds all of it.
pub fn record(d: &[u8], at: usize, be: bool, cfg: &MCfg, place: Option<&Place>) -> RefRec {
    let mut h = Rd::new(&d[at..], be);
    let bad = |k: u8, used| RefRec { out: Err(k), used, skipped: false, ty: u32::MAX };
    let (ty, misc, size) = match (|| Ok((h.u32()? as u32, h.u16()? as u16, h.u16()? as usize)))() {
        Ok(x) => x,
        Err(k) => return bad(k, None),
    };
    if size < 8 {
        return bad(INV, Some(8));
    }
    if size > d.len() - at {
        return bad(EOF, None);
    }
    let dlen = size - 8;
    let tl = if ty == T_MMAP || ty == T_SAMPLE { 0 } else { cfg.trailer_len() };
    if tl > dlen {
        return RefRec { out: Err(INV), used: Some(size), skipped: false, ty };
    }
    let b0 = at + 8;
    let blen = dlen - tl;
    let mut r = Rd {
        d: &d[b0..b0 + blen],
        pos: 0,
        end: blen,
        be,
        base: b0,
        place,
        skipped: false,
    };
    let body = body(&mut r, ty, misc, cfg);
    let skipped = r.skipped;
    let mut t = Rd::new(&d[b0 + blen..b0 + dlen], be);
    let meta = trailer(&mut t, ty, misc, cfg).expect("trailer length");
    RefRec { out: body.map(|b| (b, meta)), used: Some(size), skipped, ty }
}
