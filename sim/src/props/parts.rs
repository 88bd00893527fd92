//! C20: library types parsed on their own, in any order, as parts of a custom format.
//! C21: cloned parsers as checkpoints of such a parse.

use super::decode::{corrupt, gen_ways};
use super::faults::{gen_fault, is_fault};
use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::model::*;
use crate::names;
use crate::obs;
use crate::refdec::{self, Exp, Place, Rd, EOF, UCFG};
use crate::text::{see, see_other, watched};
use crate::transport::*;
use perf_event_data::endian::{Big, Dynamic, Endian, Little, Native};
use perf_event_data::parse::{ParseBuf, ParseConfig, ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_header;
use std::fmt::Debug;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Part {
    Group,
    Single,
    User,
    Intr,
    Branch,
    Source,
    Txn,
    Abi,
    AuxFlags,
    Ns,
    Id,
    Header,
    KsymType,
    KsymFlags,
    BpfType,
    /// the body of a record, without its header
    Body(u32),
    /// a whole record
    Record(u32),
    Rep(&'static Part, usize),
    NsSlice(usize),
    BranchSlice(usize),
    If(bool, &'static Part),
    Pad(usize),
}
use Part::*;

/// Parts whose end does not depend on the end of the data.
const FIXED: &[Part] = &[
    Group, Single, User, Intr, Branch, Source, Txn, Abi, AuxFlags, Ns, Id, Header, KsymType, KsymFlags, BpfType,
];
const BODIES: &[u32] = &[
    T_LOST, T_EXIT, T_THROTTLE, T_UNTHROTTLE, T_FORK, T_READ, T_SAMPLE, T_AUX, T_ITRACE, T_LOST_SAMPLES,
    T_SWITCH_CPU, T_NAMESPACES, T_BPF, T_TEXT_POKE, T_HW_ID,
];
pub const REST: &[u32] = &[T_MMAP, T_COMM, T_MMAP2, T_KSYMBOL, T_CGROUP];

fn w(v: Vec<u64>) -> Obs {
    let _h = alloc::harness();
    vec![("part", V::W(v))]
}

/// As `w`, and its rendering is looked at.
fn shown<T: Debug>(key: &'static str, x: &T, v: Vec<u64>) -> Obs {
    let _h = alloc::harness();
    see(x, &vec![(key, V::W(v.clone()))]);
    w(v)
}
fn one<T: Debug>(key: &'static str, x: &T, v: Vec<u64>) -> Obs {
    let _h = alloc::harness();
    see(x, &vec![(key, V::U(v[0]))]);
    w(v)
}

fn regs_obs(r: &Registers) -> Obs {
    let _h = alloc::harness();
    let mut v = vec![r.abi.0, names::abi(r.abi), r.mask];
    v.extend(r.regs.iter());
    shown("self:regs_user", r, v)
}
fn branches(v: &[BranchEntry]) -> Obs {
    let _h = alloc::harness();
    let mut x = vec![];
    v.iter().for_each(|e| obs::branch(&mut x, e));
    shown("self:lbr", &v, x)
}
fn spaces(v: &[NamespaceEntry]) -> Obs {
    let _h = alloc::harness();
    shown("self:entries", &v, v.iter().flat_map(|n| [n.dev, n.inode]).collect())
}
fn head(h: &perf_event_header) -> Obs {
    w(vec![h.type_ as u64, h.misc as u64, h.size as u64])
}
fn source(d: &DataSource) -> Obs {
    let _h = alloc::harness();
    shown("self:data_src", d, obs::data_source(d))
}
fn reading(v: &ReadValue) -> Obs {
    let _h = alloc::harness();
    let mut o = vec![];
    obs::read_value(&mut o, v);
    let mut all: Obs = vec![("kind", V::S("reading"))];
    all.extend(o.iter().cloned());
    see(v, &all);
    o
}

/// What the library makes of the part.
pub fn take<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, part: Part) -> ParseResult<Obs> {
    fn each<T>(v: &[T], f: impl Fn(&T) -> Obs) -> Obs {
        let _h = alloc::harness();
        v.iter().flat_map(f).collect()
    }
    Ok(match part {
        Group => {
            let g = p.parse::<ReadGroup>()?;
            let _h = alloc::harness();
            if let Err(e) = ReadValue::try_from(g.clone()) {
                see_other(&e);
            }
            let o = vec![
                ("v.len", V::U(g.len() as u64)),
                ("v.enabled", opt(g.time_enabled())),
                ("v.running", opt(g.time_running())),
                ("v.entries", V::W(obs::group_entries(&g))),
            ];
            see(&g, &o);
            o
        }
        Single => reading(&p.parse::<ReadValue>()?),
        User => regs_obs(&Registers::parse_user(p)?),
        Intr => regs_obs(&Registers::parse_intr(p)?),
        Branch => branches(&[p.parse()?]),
        Source => source(&p.parse()?),
        Part::Txn => {
            let t = p.parse::<perf_event_data::Txn>()?;
            one("self:txn", &t, vec![t.bits(), t.abort() as u64, names::txn(t)])
        }
        Abi => {
            let a = p.parse::<SampleRegsAbi>()?;
            one("self:abi", &a, vec![a.0, names::abi(a)])
        }
        Part::AuxFlags => {
            let f = p.parse::<perf_event_data::AuxFlags>()?;
            one("self:aux_flags", &f, vec![f.bits(), names::aux(f), f.pmu_format_type().0 as u64])
        }
        Ns => spaces(&[p.parse()?]),
        Id => {
            let s = p.parse::<SampleId>()?;
            let _h = alloc::harness();
            let mut o = vec![];
            obs::sid(&mut o, &s);
            see(&s, &o);
            o
        }
        Header => head(&p.parse()?),
        KsymType => {
            let t = p.parse::<KSymbolType>()?;
            one("self:ksym_type", &t, vec![t.0 as u64, names::ksym(t)])
        }
        KsymFlags => {
            let t = p.parse::<KSymbolFlags>()?;
            one("self:ksym_flags", &t, vec![t.bits() as u64, names::ksymf(t)])
        }
        BpfType => {
            let t = p.parse::<BpfEventType>()?;
            one("self:bpf_type", &t, vec![t.0 as u64, names::bpf(t)])
        }
        Body(t) => obs::typed(p, t)?,
        Part::Record(_) => obs::record(&p.parse()?),
        Rep(&Ns, n) => spaces(&p.parse_repeated(n)?),
        Rep(&Branch, n) => branches(&p.parse_repeated(n)?),
        Rep(&Source, n) => each(&p.parse_repeated(n)?, source),
        Rep(&Single, n) => each(&p.parse_repeated(n)?, reading),
        Rep(&Header, n) => each(&p.parse_repeated(n)?, head),
        Rep(_, _) => unreachable!(),
        NsSlice(n) => spaces(&unsafe { p.parse_slice(n) }?),
        BranchSlice(n) => branches(&unsafe { p.parse_slice(n) }?),
        If(yes, &Source) => p.parse_if(yes)?.map_or(vec![], |d| source(&d)),
        If(yes, &User) => p.parse_if_with(yes, |p| Registers::parse_user(p))?.map_or(vec![], |r| regs_obs(&r)),
        If(yes, _) => p.parse_if(yes)?.map_or(vec![], |d| head(&d)),
        Pad(n) => {
            let b = p.parse_bytes(n)?;
            let _h = alloc::harness();
            vec![("bytes", V::B(b.to_vec()))]
        }
    })
}

const REPEATED: &[Part] = &[Ns, Branch, Source, Single, Header];
const MAYBE: &[Part] = &[Source, User, Header];

/// What its bytes denote.
pub fn want(r: &mut Rd, part: Part, cfg: &MCfg, be: bool) -> Exp<Obs> {
    let branch = |r: &mut Rd, n: u64| -> Exp<Obs> {
        let v = r.slice(n, 3)?;
        Ok(w(v.chunks_exact(3).flat_map(|e| branch_words(e[0], e[1], bits(e[2], be))).collect()))
    };
    // rejecting an unusable configuration before the data is as good
    let rf = |e: Exp<Obs>, bad: bool| match e {
        Err(k) if bad => Err(k | UCFG | EOF),
        e => e,
    };
    let many = |r: &mut Rd, n: usize, p: Part| -> Exp<Obs> {
        let mut o = vec![];
        for _ in 0..n {
            o.extend(want(r, p, cfg, be)?);
        }
        Ok(o)
    };
    Ok(match part {
        Group => {
            let bad = cfg.rf_unsupported() || cfg.rf & RF_GROUP == 0;
            let e = if bad { Err(UCFG) } else { refdec::group(r, cfg.rf) };
            rf(e.map(|x| ["v.len", "v.enabled", "v.running", "v.entries"].into_iter().zip(x).collect()), bad)?
        }
        Single => {
            let bad = cfg.rf_unsupported() || cfg.rf & RF_GROUP != 0;
            rf(refdec::single(r, cfg.rf).map(|x| refdec::single_obs(cfg, x)), bad)?
        }
        User => vec![("part", refdec::regs(r, cfg.ru)?)],
        Intr => vec![("part", refdec::regs(r, cfg.ri)?)],
        Branch => branch(r, 1)?,
        Source => w(data_src_words(r.u64()?)),
        Part::Txn => {
            let v = r.u64()?;
            w(vec![v, v >> 32, names::x_txn(v)])
        }
        Abi => {
            let v = r.u64()?;
            w(vec![v, names::x_abi(v)])
        }
        Part::AuxFlags => {
            let v = r.u64()?;
            w(vec![v, names::x_aux(v), v >> 8 & 0xff])
        }
        Ns => w(r.slice(1, 2)?),
        Id => refdec::trailer(r, T_LOST, 0, cfg)?[2..].to_vec(),
        Header => w(vec![r.u32()?, r.u16()?, r.u16()?]),
        KsymType => {
            let v = r.u16()?;
            w(vec![v, names::x_ksym(v)])
        }
        KsymFlags => {
            let v = r.u16()?;
            w(vec![v, names::x_ksymf(v)])
        }
        BpfType => {
            let v = r.u16()?;
            w(vec![v, names::x_bpf(v)])
        }
        Body(t) => refdec::body(r, t, 0, cfg)?,
        Part::Record(_) => {
            let g = refdec::record(r.d, r.pos, be, cfg, r.place);
            r.skipped |= g.skipped;
            r.pos = r.end.min(r.pos + g.used.unwrap_or(r.end));
            g.out?.0
        }
        Rep(&Branch, n) => branch(r, n as u64)?,
        Rep(&Ns, n) | NsSlice(n) => w(r.slice(n as u64, 2)?),
        Rep(&p, n) => many(r, n, p)?,
        BranchSlice(n) => branch(r, n as u64)?,
        If(yes, &p) => many(r, yes as usize, p)?,
        Pad(n) => vec![("bytes", V::B(r.bytes(n)?.to_vec()))],
    })
}

/// Plausible bytes for the part.
fn write(c: &Ctx, o: &mut W, part: Part, cfg: &MCfg, go: GOpt) {
    let counters = |o: &mut W, n: usize| {
        for f in [RF_TE, RF_TR] {
            if cfg.rf & f != 0 {
                o.u64(val64(c));
            }
        }
        let el = (cfg.rf & RF_ID != 0) as usize + (cfg.rf & RF_LOST != 0) as usize;
        o.words(&words(c, n + el * n.max(1)));
    };
    match part {
        Group => {
            let n = length(c, go.maxvar / 24);
            o.count(8, 8);
            o.u64(n as u64);
            counters(o, n);
        }
        Single => {
            o.u64(val64(c));
            counters(o, 0);
        }
        User | Intr => {
            let abi = c.weighted(&[2, 2, 3]) as u64;
            o.u64(abi);
            if abi != 0 {
                let m = if part == User { cfg.ru } else { cfg.ri };
                o.words(&words(c, m.count_ones() as usize));
            }
        }
        Branch => o.words(&words(c, 3)),
        Source | Part::Txn => o.u64(val64(c)),
        Abi => o.u64(c.draw(4)),
        Part::AuxFlags => o.u64(if c.chance(1, 2) { c.draw(1024) } else { val64(c) }),
        Ns => o.words(&words(c, 2)),
        Id => {
            gen_trailer(c, cfg, o, T_LOST, 0);
        }
        Header => {
            o.u32(val32(c));
            o.u16(val16(c));
            o.u16(val16(c));
        }
        KsymType | KsymFlags | BpfType => o.u16(val16(c)),
        Body(t) | Part::Record(t) => {
            let g = gen_record(c, cfg, t, go);
            let (from, to) = if part == Body(t) { (8, 8 + g.body_len) } else { (0, g.bytes.len()) };
            for &(at, a, b) in &g.counts {
                if at >= from && at < to {
                    o.counts.push((o.b.len() + at - from, a, b));
                }
            }
            o.bytes(&g.bytes[from..to]);
        }
        Rep(&p, n) => (0..n).for_each(|_| write(c, o, p, cfg, go)),
        NsSlice(n) => o.words(&words(c, n * 2)),
        BranchSlice(n) => o.words(&words(c, n * 3)),
        If(yes, &p) => {
            if yes {
                write(c, o, p, cfg, go)
            }
        }
        Pad(n) => o.bytes(&fill_bytes(c, n)),
    }
}

fn gen_part(c: &Ctx, cfg: &MCfg, last: bool) -> Part {
    match c.weighted(&[8, 6, if last { 4 } else { 0 }, 3, 3, 2, 2]) {
        0 => c.pick(FIXED),
        1 => Body(c.pick(BODIES)),
        2 => Body(c.pick(REST)),
        3 => {
            let t = gen_ty(c, cfg);
            // the recorded finding about these is met elsewhere
            Part::Record(if t == T_MMAP { T_LOST } else { t })
        }
        4 => Rep(&REPEATED[c.idx(REPEATED.len())], c.idx(6)),
        5 => {
            let n = length(c, 40);
            if c.chance(1, 2) {
                NsSlice(n)
            } else {
                BranchSlice(n)
            }
        }
        _ => If(c.chance(1, 2), &MAYBE[c.idx(MAYBE.len())]),
    }
}

struct Parts<'a> {
    parts: &'a [Part],
}
type Out = Vec<(usize, Result<Obs, ErrInfo>)>;
impl Job for Parts<'_> {
    type Out = (Out, Option<Result<Vec<u8>, ErrInfo>>);
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, mut p: Parser<B, E>, sh: &Rc<Shared>, _: &Place) -> Self::Out {
        let mut v = vec![];
        for &x in self.parts {
            let r = {
                let _s = alloc::sut();
                take(&mut p, x).map_err(|e| err_info(&e))
            };
            let stop = r.is_err();
            v.push((sh.pos.get(), r));
            if stop {
                return (v, None);
            }
        }
        let _s = alloc::sut();
        let t = match p.parse_rest() {
            Ok(b) => {
                let _h = alloc::harness();
                Ok(b.to_vec())
            }
            Err(e) => Err(err_info(&e)),
        };
        (v, Some(t))
    }
}

/// Is this what should come of the part?
fn agree(e: &Exp<Obs>, got: &Result<Obs, ErrInfo>, end: usize, to: usize, what: &str) -> Res {
    match (e, got) {
        (Ok(x), Ok(y)) if x != y => viol("wrong-value", format!("{what}: {}", diff(x, y))),
        (Ok(_), Ok(_)) if end != to => {
            viol("wrong-position", format!("{what}: ends at byte {end}, parser left at {to}"))
        }
        (Ok(_), Ok(_)) => Ok(()),
        (Err(k), Err(x)) if x.kind & k == 0 => {
            viol("wrong-rejection", format!("{what}: may be rejected as {}, got {}", refdec::kinds(*k), x.text))
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(x)) => viol("rejected-valid", format!("{what}: {}", x.text)),
        (Err(k), Ok(y)) => {
            viol("accepted-invalid", format!("{what}: should be rejected as {}, got {y:?}", refdec::kinds(*k)))
        }
    }
}

pub struct Format {
    pub en: En,
    pub cfg: MCfg,
    pub parts: Vec<Part>,
    pub data: Vec<u8>,
    pub cuts: Vec<usize>,
}

pub fn gen_format(c: &Ctx) -> Format {
    let en = gen_en(c);
    let cfg = if c.chance(1, 5) { gen_cfg_any(c) } else { gen_cfg(c) };
    let go = GOpt { odd: false, ..gen_opt(c, en.be()) };
    let mut o = W { be: en.be(), ..W::default() };
    let (mut parts, mut cuts) = (vec![], vec![]);
    let n = 1 + c.idx(7);
    for i in 0..n {
        let part = gen_part(c, &cfg, i + 1 == n);
        write(c, &mut o, part, &cfg, go);
        parts.push(part);
        cuts.push(o.b.len());
        // words are kept where a borrowed slice of them is aligned
        let odd = o.b.len() % 8;
        if odd != 0 && i + 1 < n {
            write(c, &mut o, Pad(8 - odd), &cfg, go);
            parts.push(Pad(8 - odd));
        }
    }
    if parts.last().map_or(false, |p| !matches!(p, Body(t) if REST.contains(t))) && c.chance(1, 2) {
        let m = c.idx(30);
        o.bytes(&fill_bytes(c, m));
    }
    let mut data = o.b;
    if c.chance(1, 4) {
        corrupt(c, &mut data, &o.counts, en.be());
    }
    if c.chance(1, 8) {
        let n = c.idx(data.len() + 1);
        data.truncate(n);
        c.fault(Fault::Truncate);
    }
    c.note(|| format!("parts {parts:?}, read_format {:#x}", cfg.rf));
    Format { en, cfg, parts, data, cuts }
}

pub fn c20(c: &Ctx) -> Res {
    let Format { en, cfg, parts, data, cuts } = gen_format(c);
    let plan = gen_plan(c, data.len(), &cuts, PlanOpt { aligned: c.chance(7, 8), eintr: true, ..Default::default() });
    let sh = Shared::new();
    sh.budget.set(budget(data.len()));
    let s = Setup { c, data: &data, plan: &plan, faults: &[], cfg: &cfg, en, sh: &sh };
    let place = place_of(&arena_of(&data, &plan), &plan, en, &[]);
    let (out, tail) = drive(&s, &mut Parts { parts: &parts });
    let mut r = Rd::new(&data, en.be());
    for (i, (to, got)) in out.iter().enumerate() {
        let from = r.pos;
        let what = format!("part {i}, {:?} at byte {from}", parts[i]);
        c.ev(12, *to as u64);
        // as the layout has it, and as the recorded finding has it
        let mut alt = Rd { pos: from, place: Some(&place), ..Rd::new(&data, en.be()) };
        let e = want(&mut r, parts[i], &cfg, en.be());
        match agree(&e, got, r.pos, *to, &what) {
            Ok(()) if e.is_ok() => c.probe(Probe::RecordOk),
            Ok(()) => (),
            Err(v) => {
                let e = want(&mut alt, parts[i], &cfg, en.be());
                if !alt.skipped || agree(&e, got, alt.pos, *to, &what).is_err() {
                    return Err(v);
                }
                c.check_known(Viol { class: KF_SKIP.into(), msg: v.msg })?;
                r.pos = alt.pos;
            }
        }
    }
    match tail {
        Some(Ok(b)) if b != r.rest() => viol("wrong-tail", "the data after the last part is not what follows it".into()),
        Some(Err(e)) => viol("wrong-tail", format!("rest of the data: {}", e.text)),
        _ => Ok(()),
    }
}

// --------------------------------------------------------------------- C19

/// Renderings of whatever a stream over a failing source gives.
pub fn c19(c: &Ctx) -> Res {
    if c.chance(1, 3) {
        let Format { en, cfg, parts, data, cuts } = gen_format(c);
        let plan = gen_plan(c, data.len(), &cuts, PlanOpt::default());
        let faults = gen_failure(c, data.len(), &cuts);
        let sh = Shared::new();
        sh.budget.set(budget(data.len()));
        let s = Setup { c, data: &data, plan: &plan, faults: &faults, cfg: &cfg, en, sh: &sh };
        watched(c, || drive(&s, &mut Parts { parts: &parts }))?;
        return Ok(());
    }
    let mut cfg = gen_cfg(c);
    if c.chance(1, 4) {
        cfg.rf &= !RF_GROUP;
    }
    let en = gen_en(c);
    let s = gen_stream(c, cfg, en, 4, true, &gen_ty);
    let mut data = s.data.clone();
    if c.chance(1, 4) {
        corrupt(c, &mut data, &[], en.be());
    }
    let plan = gen_plan(c, data.len(), &s.cuts, PlanOpt::default());
    let faults = gen_failure(c, data.len(), &s.cuts);
    let ways = gen_ways(c, s.recs.len());
    let (out, _) = watched(c, || parse_n(c, &data, &plan, &faults, &s.cfg, en, &ways, true, true))?;
    out.got.iter().for_each(|g| seen(c, g));
    Ok(())
}

fn gen_failure(c: &Ctx, n: usize, cuts: &[usize]) -> Vec<OffFault> {
    match c.chance(1, 2) {
        true => vec![gen_fault(c, n, cuts)],
        false => vec![],
    }
}

// --------------------------------------------------------------------- C21

struct Slot<P> {
    p: P,
    sh: Rc<Shared>,
    /// the next part
    at: usize,
    /// an item was left unfinished
    failed: bool,
}

fn fork<P: Clone>(s: &Slot<P>) -> Slot<P> {
    let p = {
        let _s = alloc::sut();
        s.p.clone()
    };
    let sh = s.sh.child.take().expect("cloning a parser clones its source");
    Slot { p, sh, at: s.at, failed: s.failed }
}

/// The parser becomes a clone of the other in place.
fn put_back<P: Clone>(s: &mut Slot<P>, from: &Slot<P>) -> Res {
    {
        let _s = alloc::sut();
        s.p.clone_from(&from.p);
    }
    // a source that is already there may be kept
    if let Some(sh) = from.sh.child.take() {
        s.sh = sh;
    }
    (s.at, s.failed) = (from.at, from.failed);
    if s.sh.pos.get() != from.sh.pos.get() {
        return viol("not-cloned", format!("parser put back to byte {} is at {}", from.sh.pos.get(), s.sh.pos.get()));
    }
    Ok(())
}

fn forks<'p, B: ParseBuf<'p> + Clone, E: Endian>(
    c: &Ctx,
    f: &Format,
    place: &Place,
    sh: Rc<Shared>,
    first: Parser<B, E>,
    open: &dyn Fn(usize) -> (B, Rc<Shared>),
) -> Res {
    // the end and the outcome of every part, up to the first that is refused or that meets
    // the recorded finding about misaligned slices (C20 decides that one)
    let (mut r, mut plan) = (Rd::new(&f.data, f.en.be()), vec![]);
    for &part in &f.parts {
        let mut alt = Rd { pos: r.pos, place: Some(place), ..Rd::new(&f.data, f.en.be()) };
        let _ = want(&mut alt, part, &f.cfg, f.en.be());
        if alt.skipped {
            break;
        }
        let e = want(&mut r, part, &f.cfg, f.en.be());
        let stop = e.is_err();
        plan.push((e, r.pos));
        if stop {
            break;
        }
    }
    let mut slots = vec![Slot { p: first, sh, at: 0, failed: false }];
    let mut saved: Option<Slot<Parser<B, E>>> = None;
    let mut tag = 0;
    let step = |s: &mut Slot<Parser<B, E>>, faulty: bool, tag: &mut u64| -> Res {
        let part = f.parts[s.at];
        let what = format!("part {}, {part:?} at byte {}", s.at, s.sh.pos.get());
        let fired = s.sh.fired.get();
        s.sh.transient.borrow_mut().clear();
        if faulty {
            *tag += 1;
            let k = gen_fk(c);
            s.sh.transient.borrow_mut().push((s.sh.chunks.get() + c.draw(4), k, *tag));
        }
        let got = {
            let _s = alloc::sut();
            take(&mut s.p, part).map_err(|e| err_info(&e))
        };
        c.ev(12, s.sh.pos.get() as u64);
        c.note(|| format!("{what}: {}", got.as_ref().map_or_else(|e| e.text.clone(), |_| "ok".into())));
        match &got {
            Err(e) if s.sh.fired.get() != fired => {
                s.failed = true;
                let (_, k, tag) = s.sh.last_fault.get().expect("a failure");
                return is_fault(e, k, tag).or_else(|m| viol("wrong-error", format!("{what}: {m}")));
            }
            // what takes the rest of the data takes an end of data for it
            Ok(_) if s.sh.fired.get() != fired && matches!(part, Body(t) if REST.contains(&t)) => {
                s.failed = true;
                return Ok(());
            }
            _ => agree(&plan[s.at].0, &got, plan[s.at].1, s.sh.pos.get(), &what)?,
        }
        if got.is_ok() {
            c.probe(Probe::RecordOk);
            s.at += 1;
        } else {
            s.failed = true;
        }
        Ok(())
    };
    let rest = |s: &mut Slot<Parser<B, E>>| {
        s.sh.transient.borrow_mut().clear();
        let _s = alloc::sut();
        match s.p.parse_rest() {
            Ok(b) => {
                let _h = alloc::harness();
                Ok(b.to_vec())
            }
            Err(e) => Err(err_info(&e)),
        }
    };
    for _ in 0..2 + c.idx(4 + 3 * f.parts.len()) {
        let i = c.idx(slots.len());
        match c.weighted(&[8, 4, 1, 2, 1, 1, 1]) {
            // the parser goes on, or is put back to a checkpoint
            0 => {
                if slots[i].failed {
                    if let Some(k) = saved.iter().chain(slots.iter().filter(|s| !s.failed)).next() {
                        c.probe(Probe::Checkpoint);
                        let anew = fork(k);
                        if c.chance(1, 2) {
                            slots[i] = anew;
                        } else {
                            put_back(&mut slots[i], &anew)?;
                        }
                    }
                }
                if !slots[i].failed && slots[i].at < plan.len() {
                    let faulty = c.chance(1, 5);
                    step(&mut slots[i], faulty, &mut tag)?;
                }
            }
            1 if slots.len() < 5 => {
                let s = fork(&slots[i]);
                slots.push(s);
            }
            // dropping one leaves the others alone
            2 if slots.len() > 1 => drop(slots.remove(i)),
            3 if !slots[i].failed => saved = Some(fork(&slots[i])),
            // one moves to where another is
            6 => {
                let k = fork(&slots[c.idx(slots.len())]);
                put_back(&mut slots[i], &k)?;
            }
            // a new parser where the old one is, under the configuration it tells
            4 if !slots[i].failed => {
                let (b, sh) = open(slots[i].sh.pos.get());
                let k = &slots[i].p;
                let _s = alloc::sut();
                let cfg = if c.chance(1, 2) {
                    k.config().clone()
                } else {
                    k.config().clone().with_endian(k.endian().clone())
                };
                slots[i] = Slot { p: Parser::new(b, cfg), sh, at: slots[i].at, failed: false };
            }
            // both read the same to the end
            5 => {
                let (mut a, mut b) = (fork(&slots[i]), fork(&slots[i]));
                let (x, y) = (rest(&mut a), rest(&mut b));
                let t = &f.data[slots[i].sh.pos.get()..];
                if x != y || !slots[i].failed && x.as_deref() != Ok(t) {
                    return viol("wrong-rest", format!("clones made at byte {} read {x:?} and {y:?}", f.data.len() - t.len()));
                }
            }
            _ => (),
        }
    }
    // faults stop: whatever is left gets to the end
    slots.extend(saved);
    while !slots.is_empty() {
        let i = c.idx(slots.len());
        let s = &mut slots[i];
        if !s.failed && s.at < plan.len() {
            step(s, false, &mut tag)?;
            continue;
        }
        if !s.failed {
            let at = s.sh.pos.get();
            let x = rest(s);
            if x.as_deref() != Ok(&f.data[at..]) {
                return viol("wrong-rest", format!("parser left at byte {at} reads {x:?} to the end"));
            }
        }
        slots.swap_remove(i);
    }
    Ok(())
}

pub fn c21(c: &Ctx) -> Res {
    let f = gen_format(c);
    let opt = PlanOpt { aligned: true, no_reader: true, ..Default::default() };
    let plan = gen_plan(c, f.data.len(), &f.cuts, opt);
    let arena = arena_of(&f.data, &plan);
    let place = place_of(&arena, &plan, f.en, &[]);
    let budget = budget(f.data.len()) * 4;
    macro_rules! go {
        ($make:expr, $sim:expr) => {{
            let make = $make;
            let open = |at: usize| {
                let sh = Shared::new();
                sh.budget.set(budget);
                sh.pos.set(at);
                (Tap::new(make(at), sh.clone(), c.clone(), $sim), sh)
            };
            let (b, sh) = open(0);
            let a = f.cfg.attr();
            match f.en {
                En::Native => forks(c, &f, &place, sh, Parser::new(b, ParseConfig::<Native>::from(a)), &open),
                En::Little => forks(c, &f, &place, sh, Parser::new(b, cfg_e(&f.cfg, Little)), &open),
                En::Big => forks(c, &f, &place, sh, Parser::new(b, ParseConfig::<Big>::from(a)), &open),
                En::DynLittle => forks(c, &f, &place, sh, Parser::new(b, cfg_e(&f.cfg, Dynamic::Little)), &open),
                En::DynBig => forks(c, &f, &place, sh, Parser::new(b, cfg_e(&f.cfg, Dynamic::Big)), &open),
                En::OwnLittle => forks(c, &f, &place, sh, Parser::new(b, cfg_e(&f.cfg, Own::LITTLE)), &open),
                En::OwnBig => forks(c, &f, &place, sh, Parser::new(b, cfg_e(&f.cfg, Own::BIG)), &open),
            }
        }};
    }
    match &plan {
        Plan::Pieces { hint, .. } => go!(
            |at: usize| {
                let mut b = SimBuf::new(&arena, *hint, vec![], Shared::new(), c.clone());
                b.advance(at);
                b
            },
            true
        ),
        _ => go!(|at: usize| &arena.slice()[at..], false),
    }
}
