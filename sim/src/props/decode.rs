//! C01 C02 C03 C04 C09 C13: what records decode to.

use super::attr;
use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::model::*;
use crate::obs;
use crate::refdec;
use crate::transport::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::{ParseBuf, Parser};
use perf_event_data::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn ty_plain(c: &Ctx, cfg: &MCfg) -> u32 {
    match gen_ty(c, cfg) {
        T_SAMPLE => T_NAMESPACES,
        t => t,
    }
}
fn ty_sample(c: &Ctx, cfg: &MCfg) -> u32 {
    if c.chance(1, 8) {
        gen_ty(c, cfg)
    } else {
        T_SAMPLE
    }
}

pub fn gen_ways(c: &Ctx, n: usize) -> Vec<Way> {
    (0..n).map(|_| gen_way(c)).collect()
}

fn pieces_probe(c: &Ctx, s: &Stream, plan: &Plan) {
    if let Plan::Pieces { spec, .. } = plan {
        let mut x = 0;
        for p in spec {
            x += p.len;
            for (r, &a) in s.recs.iter().zip(&s.at) {
                if a < x && x < a + r.bytes.len() {
                    c.probe(Probe::MultiPiece);
                }
            }
        }
    }
}

fn decode(c: &Ctx, ty: &dyn Fn(&Ctx, &MCfg) -> u32, mine: fn(u32) -> bool) -> Res {
    let mut cfg = gen_cfg(c);
    if c.chance(1, 4) {
        cfg.rf &= !RF_GROUP;
    }
    let en = gen_en(c);
    let s = gen_stream(c, cfg, en, 6, true, ty);
    let plan = gen_plan(c, s.data.len(), &s.cuts, PlanOpt::default());
    pieces_probe(c, &s, &plan);
    let ways = gen_ways(c, s.recs.len());
    let (out, _) = parse_n(c, &s.data, &plan, &[], &s.cfg, en, &ways, false, false);
    for (i, (g, &at)) in out.got.iter().zip(&s.at).enumerate() {
        if !mine(s.recs[i].ty) {
            continue;
        }
        if g.from != at {
            // a record of another kind may be to blame, which is not for this property to say
            if s.recs[..i].iter().any(|r| !mine(r.ty)) {
                return Ok(());
            }
            return viol("framing", format!("record expected at byte {at}, parser at {}", g.from));
        }
        judge(c, g, &s.data, en.be(), &s.cfg, &out.place, false)?;
    }
    Ok(())
}

pub const KF_MMAP: &str = "mmap-trailer-left-in-filename";

/// MMAP records as kernels write them when trailers are on: with a trailer, which the library
/// documents it does not expect there.
fn kernel_mmap(c: &Ctx) -> Res {
    let mut cfg = gen_cfg(c);
    cfg.sid_all = true;
    if cfg.trailer_len() == 0 {
        cfg.st |= TID;
    }
    let en = gen_en(c);
    let mut go = gen_opt(c, en.be());
    go.odd = false; // the kernel pads the name
    let r = gen_record(c, &cfg, T_MMAP, go);
    let mut w = W { be: en.be(), ..W::default() };
    w.bytes(&r.bytes[8..]);
    let body_len = w.b.len();
    let mut meta = gen_trailer(c, &cfg, &mut w, T_MMAP2, r.misc);
    meta[0].1 = V::U(T_MMAP as u64);
    let r = finish(w, T_MMAP, r.misc, r.body, meta, body_len);
    let s = Stream::build(cfg, en, vec![r]);
    note_recs(c, &s);
    let plan = gen_plan(c, s.data.len(), &s.cuts, PlanOpt::default());
    let way = gen_way(c);
    let (out, _) = parse_n(c, &s.data, &plan, &[], &s.cfg, en, &[way], false, false);
    let g = &out.got[0];
    let truth = refdec::RefRec {
        out: Ok((s.recs[0].body.clone(), s.recs[0].meta.clone())),
        used: Some(s.data.len()),
        skipped: false,
        ty: T_MMAP,
    };
    let Err((_, msg)) = matches(g, &truth, true) else { return Ok(()) };
    // anything but the recorded effect is reported as what it is
    judge(c, g, &s.data, en.be(), &s.cfg, &out.place, true)?;
    c.check_known(Viol { class: KF_MMAP.into(), msg })
}

pub fn c01(c: &Ctx) -> Res {
    if c.chance(1, 64) {
        return kernel_mmap(c);
    }
    decode(c, &ty_plain, |t| t != T_SAMPLE)
}

pub fn c02(c: &Ctx) -> Res {
    decode(c, &ty_sample, |t| t == T_SAMPLE)
}

// -------------------------------------------------------------------- C03

struct SidJob;
impl Job for SidJob {
    type Out = Result<(Obs, usize, usize), ErrInfo>;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(
        &mut self,
        mut p: Parser<B, E>,
        sh: &Rc<Shared>,
        _: &refdec::Place,
    ) -> Self::Out {
        let _s = alloc::sut();
        let est = SampleId::estimate_len(p.config());
        let r = p.parse::<SampleId>();
        let _h = alloc::harness();
        match r {
            Ok(s) => {
                let mut o = vec![];
                obs::sid(&mut o, &s);
                Ok((o, sh.pos.get(), est))
            }
            Err(e) => Err(err_info(&e)),
        }
    }
}

struct FromSample;
impl Job for FromSample {
    type Out = Result<(Obs, [Obs; 3]), ErrInfo>;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(
        &mut self,
        mut p: Parser<B, E>,
        _: &Rc<Shared>,
        _: &refdec::Place,
    ) -> Self::Out {
        let _s = alloc::sut();
        match p.parse::<Record>() {
            Ok(Record::Sample(s)) => {
                let a = SampleId::from_sample(&s);
                let b = SampleId::from(&*s);
                let direct = {
                    let _h = alloc::harness();
                    vec![
                        ("sid.pid", opt(s.pid().map(u64::from))),
                        ("sid.tid", opt(s.tid().map(u64::from))),
                        ("sid.time", opt(s.time())),
                        ("sid.id", opt(s.id())),
                        ("sid.stream_id", opt(s.stream_id())),
                        ("sid.cpu", opt(s.cpu().map(u64::from))),
                    ]
                };
                let d = SampleId::from(*s);
                let _h = alloc::harness();
                Ok((
                    direct,
                    [a, b, d].map(|x| {
                        let mut o = vec![];
                        obs::sid(&mut o, &x);
                        o
                    }),
                ))
            }
            Ok(_) => Err(ErrInfo { kind: 0, tag: None, os: None, text: "not a sample".into() }),
            Err(e) => Err(err_info(&e)),
        }
    }
}

pub fn c03(c: &Ctx) -> Res {
    let mut cfg = gen_cfg(c);
    cfg.sid_all = c.chance(5, 6);
    if c.chance(1, 3) {
        // concentrate on the identity fields
        cfg.st = (cfg.st & !SID_MASK) | c.draw(0) & SID_MASK;
    }
    let en = gen_en(c);
    // a record of any length at all stands alone, so that words stay aligned
    let odd = c.chance(1, 4);
    let s = if odd { gen_stream(c, cfg, en, 1, true, &ty_plain) } else { gen_stream(c, cfg, en, 4, false, &gen_ty) };
    let mut cuts = vec![];
    for (r, &a) in s.recs.iter().zip(&s.at) {
        cuts.extend([a + 8 + r.body_len, a + 8 + r.body_len, a + r.bytes.len(), a + 8]);
    }
    let plan = gen_plan(c, s.data.len(), &cuts, PlanOpt { aligned: true, ..Default::default() });
    pieces_probe(c, &s, &plan);
    let ways: Vec<Way> = (0..s.recs.len())
        .map(|_| c.pick(&[Way::Visitor, Way::HeaderVisitor, Way::MetaTyped, Way::HeaderMetaTyped]))
        .collect();
    let (out, _) = parse_n(c, &s.data, &plan, &[], &s.cfg, en, &ways, false, false);
    let bare = MCfg { sid_all: false, ..s.cfg.clone() };
    for (i, (g, r)) in out.got.iter().zip(&s.recs).enumerate() {
        seen(c, g);
        if g.from != s.at[i] {
            break; // framing is C05's business
        }
        // the same record as it would be without a trailer
        let mut b = r.bytes[..8 + r.body_len].to_vec();
        let n = (b.len() as u16).to_le_bytes();
        let n = if en.be() { [n[1], n[0]] } else { n };
        b[6..8].copy_from_slice(&n);
        let a = alone(c, &b, &bare, en, ways[i]);
        if let Err((k, m)) = same(&a, g, false) {
            return viol(k, format!("{} record at byte {}: without its trailer and with it: {m}", kind_name(r.ty), g.from));
        }
        if let Ok((_, Some(m))) = &g.out {
            if m[2..] != r.meta[2..] {
                return viol("wrong-trailer", format!("{} record at byte {}: {}", kind_name(r.ty), g.from, diff(&r.meta, m)));
            }
            if r.meta[2..].iter().any(|x| x.1 != V::N) {
                c.probe(Probe::Trailer);
            }
        }
        if let Ok((_, Some(m))) = &a.out {
            if m[2..].iter().any(|x| x.1 != V::N) {
                return viol("trailer-invented", format!("identity reported with trailers off: {m:?}"));
            }
        }
    }
    // the trailer by itself
    let mut w = W { be: en.be(), ..W::default() };
    let want = gen_trailer(c, &s.cfg, &mut w, T_LOST, 0);
    let tl = w.b.len();
    w.bytes(&[0x77; 16]);
    let plan = gen_plan(c, w.b.len(), &[tl], PlanOpt { aligned: true, ..Default::default() });
    let sh = Shared::new();
    sh.budget.set(budget(w.b.len()));
    let st = Setup { c, data: &w.b, plan: &plan, faults: &[], cfg: &s.cfg, en, sh: &sh };
    match drive(&st, &mut SidJob) {
        Ok((o, used, est)) => {
            if o[..] != want[2..] {
                return viol("wrong-trailer", format!("bare identity: {}", diff(&want[2..].to_vec(), &o)));
            }
            if used != tl || est != tl {
                return viol("trailer-length", format!("trailer has {tl} bytes, {used} taken, {est} advertised"));
            }
        }
        Err(e) => return viol("rejected-valid", format!("bare identity refused: {}", e.text)),
    }
    // identity of a sample
    if s.cfg.st & SID_MASK != 0 {
        let go = GOpt { be: en.be(), maxvar: 64, odd: false };
        let r = gen_record(c, &s.cfg, T_SAMPLE, go);
        let plan = gen_plan(c, r.bytes.len(), &[], PlanOpt { aligned: true, ..Default::default() });
        let sh = Shared::new();
        sh.budget.set(budget(r.bytes.len()));
        let st = Setup { c, data: &r.bytes, plan: &plan, faults: &[], cfg: &s.cfg, en, sh: &sh };
        if let Ok((d, ids)) = drive(&st, &mut FromSample) {
            for o in &ids {
                if *o != d {
                    return viol("wrong-sample-identity", diff(&d, o));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------- corruption of streams

/// Damage stored bytes; returns whether anything changed.
pub fn corrupt(c: &Ctx, d: &mut [u8], counts: &[(usize, usize, usize)], be: bool) {
    if d.is_empty() {
        return;
    }
    for _ in 0..1 + c.idx(3) {
        match c.weighted(&[4, 2, 2, 1, 5]) {
            0 => {
                let i = c.idx(d.len());
                let b = c.draw(8);
                d[i] ^= 1 << b;
                c.fault(Fault::BitFlip);
                c.note(|| format!("bit {b} of byte {i} flipped"));
            }
            1 => {
                let i = c.idx(d.len());
                let n = (1 + c.idx(16)).min(d.len() - i);
                let f = fill_bytes(c, n);
                d[i..i + n].copy_from_slice(&f);
                c.fault(Fault::Overwrite);
                c.note(|| format!("bytes {i}..{} overwritten", i + n));
            }
            2 => {
                let i = c.idx(d.len());
                let n = (1 + c.idx(64)).min(d.len() - i);
                let v = c.pick(&[0u8, 0xff]);
                d[i..i + n].iter_mut().for_each(|b| *b = v);
                c.fault(Fault::Overwrite);
                c.note(|| format!("bytes {i}..{} set to {v:#x}", i + n));
            }
            3 => {
                let i = c.idx(d.len());
                let j = c.idx(d.len());
                let n = (1 + c.idx(32)).min(d.len() - i).min(d.len() - j);
                let t = d[i..i + n].to_vec();
                d[j..j + n].copy_from_slice(&t);
                c.fault(Fault::Overwrite);
                c.note(|| format!("bytes {i}..{} copied over {j}", i + n));
            }
            _ => {
                if counts.is_empty() {
                    continue;
                }
                let (o, w, unit) = c.pick(counts);
                if o + w > d.len() {
                    continue;
                }
                let v = hostile(c, unit, d.len());
                put(d, o, w, v, be);
                c.fault(Fault::HostileLen);
                c.note(|| format!("count at byte {o} (width {w}) set to {v:#x}"));
            }
        }
    }
}

pub fn put(d: &mut [u8], o: usize, w: usize, v: u64, be: bool) {
    for k in 0..w {
        let sh = if be { w - 1 - k } else { k };
        d[o + k] = (v >> (8 * sh)) as u8;
    }
}

pub fn hostile(c: &Ctx, unit: usize, near: usize) -> u64 {
    match c.weighted(&[3, 3, 2, 2, 2, 1]) {
        0 => c.draw(10),
        1 => (near / unit.max(1)) as u64 + c.draw(5),
        2 => u64::MAX / unit.max(1) as u64 - c.draw(3),
        3 => (u64::MAX / unit.max(1) as u64).wrapping_add(1 + c.draw(3)),
        4 => 1u64 << c.draw(64),
        _ => u64::MAX - c.draw(9),
    }
}

fn shifted(s: &Stream) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for (r, &a) in s.recs.iter().zip(&s.at) {
        v.extend(r.counts.iter().map(|&(o, w, u)| (a + o, w, u)));
    }
    v
}

// -------------------------------------------------------------------- C04

pub fn c04(c: &Ctx) -> Res {
    if c.chance(1, 12) {
        return attr::delivery(c);
    }
    let en = gen_en(c);
    let mode = c.weighted(&[3, 4, 3, 1]);
    let cfg = if mode == 0 { gen_cfg(c) } else { gen_cfg_any(c) };
    let s = gen_stream(c, cfg, en, 5, true, &gen_ty);
    let mut data = s.data.clone();
    match mode {
        1 => corrupt(c, &mut data, &shifted(&s), en.be()),
        2 => {
            let n = c.idx(data.len() + 1);
            data.truncate(n);
            c.fault(Fault::Truncate);
            c.note(|| format!("stream cut to {n} bytes"));
        }
        3 => {
            corrupt(c, &mut data, &shifted(&s), en.be());
            let n = c.idx(data.len() + 1);
            data.truncate(n);
            c.fault(Fault::Truncate);
        }
        _ => (),
    }
    let ways = gen_ways(c, s.recs.len() + 1);
    let plan = gen_plan(c, data.len(), &s.cuts, PlanOpt::default());
    let (a, _) = c.quiet(|| parse_n(c, &data, &plain_plan(), &[], &s.cfg, en, &ways, true, true));
    let (b, _) = parse_n(c, &data, &plan, &[], &s.cfg, en, &ways, true, true);
    for (i, (x, y)) in a.got.iter().zip(&b.got).enumerate() {
        seen(c, y);
        let r = match same(x, y, true) {
            Ok(()) if x.to != y.to => {
                Err(("differs-position", format!("left at byte {} by one slice, at {} here", x.to, y.to)))
            }
            r => r,
        };
        if let Err((k, m)) = r {
            let v = Viol { class: k.into(), msg: format!("record {i} at byte {}: {m}", x.from) };
            // either side may have met the known finding
            let skip = |pl: &refdec::Place, g: &Got| {
                let alt = refdec::record(&data, g.from, en.be(), &s.cfg, Some(pl));
                (alt.skipped && matches(g, &alt, true).is_ok(), alt.used)
            };
            let (sa, sb) = (skip(&a.place, x), skip(&b.place, y));
            let plain = |g: &Got| {
                let w = refdec::record(&data, g.from, en.be(), &s.cfg, None);
                matches(g, &w, true).is_ok()
            };
            if k != "differs-position" && (sa.0 || plain(x)) && (sb.0 || plain(y)) && (sa.0 || sb.0) {
                c.check_known(Viol { class: KF_SKIP.into(), msg: v.msg })?;
                // from here on the histories differ legitimately only in values
                if x.out.is_ok() != y.out.is_ok() {
                    return Ok(());
                }
                continue;
            }
            // A record the library decodes wrongly everywhere cannot be told from the
            // known finding once its words lie at odd addresses.
            let ty = refdec::record(&data, x.from, en.be(), &s.cfg, None).ty;
            let words = ty == T_SAMPLE || ty == T_NAMESPACES;
            if words && !sa.0 && !plain(x) && (a.place.odd(x.from) || b.place.odd(x.from)) {
                return Ok(());
            }
            return Err(v);
        }
    }
    if a.got.len() != b.got.len() {
        return viol("differs-outcome", format!("{} records against {}", a.got.len(), b.got.len()));
    }
    match (&a.tail, &b.tail) {
        (Some(Ok(x)), Some(Ok(y))) if x == y => Ok(()),
        (Some(Err(x)), Some(Err(y))) if x.kind == y.kind => Ok(()),
        (x, y) => viol("differs-tail", format!("rest of the stream: {x:?} against {y:?}")),
    }
}

// -------------------------------------------------------------------- C09

pub fn c09(c: &Ctx) -> Res {
    let en = gen_en(c);
    let cfg = gen_cfg_any(c);
    let s = gen_stream(c, cfg, en, 5, true, &gen_ty_any);
    let mut data = s.data.clone();
    if c.chance(7, 8) {
        if c.chance(3, 4) {
            // damage one record only: the others must decode as before
            let i = c.idx(s.recs.len());
            let (a, r) = (s.at[i], &s.recs[i]);
            let n = r.bytes.len();
            let mut body = data[a + 8..a + n].to_vec();
            let cn: Vec<_> = r
                .counts
                .iter()
                .filter(|x| x.0 >= 8)
                .map(|&(o, w, u)| (o - 8, w, u))
                .collect();
            corrupt(c, &mut body, &cn, en.be());
            data[a + 8..a + n].copy_from_slice(&body);
        } else {
            corrupt(c, &mut data, &shifted(&s), en.be());
        }
    }
    if c.chance(1, 8) {
        let n = c.idx(data.len() + 1);
        data.truncate(n);
        c.fault(Fault::Truncate);
    }
    let plan = gen_plan(c, data.len(), &s.cuts, PlanOpt::default());
    let ways = gen_ways(c, s.recs.len());
    let (out, _) = parse_n(c, &data, &plan, &[], &s.cfg, en, &ways, false, false);
    for g in &out.got {
        if g.from > data.len() {
            return viol("framing", "parser stands past the end".into());
        }
        let w = refdec::record(&data, g.from, en.be(), &s.cfg, None);
        judge(c, g, &data, en.be(), &s.cfg, &out.place, true)?;
        if w.used.is_none() || w.ty == u32::MAX {
            break; // nothing after a broken frame is meaningful
        }
    }
    Ok(())
}

fn gen_ty_any(c: &Ctx, cfg: &MCfg) -> u32 {
    gen_ty(c, cfg)
}

// -------------------------------------------------------------------- C13

/// Implements nothing but the catch-all.
struct Bare<'c>(&'c Log);
impl Visitor<'_> for Bare<'_> {
    type Output = ();
    fn visit_unimplemented(self, m: RecordMetadata) {
        let _h = alloc::harness();
        self.0.borrow_mut().push(("unimplemented", vec![], obs::meta(&m)));
    }
}

type Log = RefCell<Vec<(&'static str, Obs, Obs)>>;

macro_rules! only {
    ($($ty:literal $S:ident $kind:literal $f:ident ($($a:ident: $A:ty)?) $o:expr;)*) => {
        $(
            /// Implements the catch-all and one method.
            struct $S<'c>(&'c Log);
            impl<'a> Visitor<'a> for $S<'_> {
                type Output = ();
                fn visit_unimplemented(self, m: RecordMetadata) {
                    let _h = alloc::harness();
                    self.0.borrow_mut().push(("unimplemented", vec![], obs::meta(&m)));
                }
                fn $f(self, $($a: $A,)? m: RecordMetadata) {
                    let _h = alloc::harness();
                    let o: Obs = $o;
                    self.0.borrow_mut().push(($kind, o, obs::meta(&m)));
                }
            }
        )*
        fn visit_only<'p, B: ParseBuf<'p>, E: Endian>(which: u32, log: &Log, header: bool, p: &mut Parser<B, E>) -> perf_event_data::parse::ParseResult<()> {
            macro_rules! go {
                ($v:expr) => {
                    if header {
                        match p.parse() {
                            Ok(h) => p.parse_record_with_header($v, h),
                            Err(e) => Err(e),
                        }
                    } else {
                        p.parse_record($v)
                    }
                };
            }
            match which {
                $($ty => go!($S(log)),)*
                _ => go!(Bare(log)),
            }
        }
    };
}

only! {
    1 OnlyMmap "mmap" visit_mmap(r: Mmap<'a>) obs::mmap(&r);
    2 OnlyLost "lost" visit_lost(r: Lost) obs::lost(&r);
    3 OnlyComm "comm" visit_comm(r: Comm<'a>) obs::comm(&r);
    4 OnlyExit "exit" visit_exit(r: Exit) obs::exit(&r, "exit");
    5 OnlyThrottle "throttle" visit_throttle(r: Throttle) obs::throttle(&r, "throttle");
    6 OnlyUnthrottle "unthrottle" visit_unthrottle(r: Throttle) obs::throttle(&r, "unthrottle");
    7 OnlyFork "fork" visit_fork(r: Fork) obs::exit(&r, "fork");
    8 OnlyRead "read" visit_read(r: Read) obs::read(&r);
    9 OnlySample "sample" visit_sample(r: Sample<'a>) obs::sample(&r);
    10 OnlyMmap2 "mmap2" visit_mmap2(r: Mmap2<'a>) obs::mmap2(&r);
    11 OnlyAux "aux" visit_aux(r: Aux) obs::aux(&r);
    12 OnlyItrace "itrace_start" visit_itrace_start(r: ITraceStart) obs::itrace(&r);
    13 OnlyLostSamples "lost_samples" visit_lost_samples(r: LostSamples) obs::lost_samples(&r);
    14 OnlySwitch "switch" visit_switch() obs::switch();
    15 OnlySwitchCpu "switch_cpu_wide" visit_switch_cpu_wide(r: SwitchCpuWide) obs::switch_cpu(&r);
    16 OnlyNamespaces "namespaces" visit_namespaces(r: Namespaces<'a>) obs::namespaces(&r);
    17 OnlyKsymbol "ksymbol" visit_ksymbol(r: KSymbol<'a>) obs::ksymbol(&r);
    18 OnlyBpf "bpf_event" visit_bpf_event(r: BpfEvent) obs::bpf(&r);
    19 OnlyCgroup "cgroup" visit_cgroup(r: CGroup<'a>) obs::cgroup(&r);
    20 OnlyTextPoke "text_poke" visit_text_poke(r: TextPoke<'a>) obs::text_poke(&r);
    21 OnlyHwId "aux_output_hw_id" visit_aux_output_hw_id(r: AuxOutputHwId) obs::hw_id(&r);
    22 OnlyUnknown "unknown" visit_unknown(r: Cow<'a, [u8]>) obs::unknown(0, &r);
}

struct Partial {
    which: u32,
    header: bool,
}
impl Job for Partial {
    type Out = (Result<(), ErrInfo>, Vec<(&'static str, Obs, Obs)>, usize);
    fn run<'p, B: ParseBuf<'p>, E: Endian>(
        &mut self,
        mut p: Parser<B, E>,
        sh: &Rc<Shared>,
        _: &refdec::Place,
    ) -> Self::Out {
        let log = RefCell::new(vec![]);
        let r = {
            let _s = alloc::sut();
            visit_only(self.which, &log, self.header, &mut p)
        };
        let r = r.map_err(|e| err_info(&e));
        (r, log.into_inner(), sh.pos.get())
    }
}

pub fn c13(c: &Ctx) -> Res {
    let en = gen_en(c);
    let bad = c.chance(1, 4);
    let mut cfg = if bad { gen_cfg_any(c) } else { gen_cfg(c) };
    if c.chance(1, 4) {
        cfg.rf &= !RF_GROUP;
    }
    let s = gen_stream(c, cfg, en, 1, true, &|c, cfg| match c.weighted(&[3, 2, 1]) {
        0 => gen_ty(c, cfg),
        1 => c.pick(&[T_MMAP2, T_MMAP, T_SWITCH, T_SWITCH_CPU, T_FORK, T_EXIT, T_THROTTLE, T_UNTHROTTLE]),
        _ => T_SAMPLE,
    });
    let r = &s.recs[0];
    let mut data = s.data.clone();
    if bad {
        let n = data.len();
        corrupt(c, &mut data[8..n], &[], en.be());
    }
    let plan = gen_plan(c, data.len(), &s.cuts, PlanOpt { ..Default::default() });
    let mut base: Option<(Way, Got)> = None;
    let mut full: Option<Got> = None;
    for w in WAYS {
        let m = c.mark();
        let (mut o, _) = parse_n(c, &data, &plan, &[], &s.cfg, en, &[w], true, false);
        let _ = m;
        let g = o.got.remove(0);
        seen(c, &g);
        if let Some(n) = g.visits {
            if n != g.out.is_ok() as u32 {
                return viol("visits", format!("{w:?}: visitor called {n} times, outcome {}", show(&g)));
            }
        }
        if let Ok((b, m)) = &g.out {
            if b[0].1 != V::S(kind_name(r.ty)) {
                return viol("wrong-method", format!("{w:?}: type {} came back as {:?}", r.ty, b[0].1));
            }
            if let Some(m) = m {
                if m[0].1 != V::U(r.ty as u64) || m[1].1 != V::U(r.misc as u64) {
                    return viol("wrong-metadata", format!("{w:?}: header type {} misc {:#x}: {m:?}", r.ty, r.misc));
                }
            }
        }
        if let Some((w0, g0)) = &base {
            if let Err((k, m)) = same(g0, &g, true) {
                return viol(k, format!("type {}: {w0:?} and {w:?} disagree: {m}", r.ty));
            }
            if g0.to != g.to {
                return viol("differs-position", format!("{w0:?} consumed {} bytes, {w:?} {}", g0.to, g.to));
            }
        } else {
            base = Some((w, g.clone()));
        }
        if w == Way::Visitor {
            full = Some(g);
        }
    }
    let full = full.expect("visited");
    // the record's own method, the mapping methods, and strangers
    let own = if (1..=21).contains(&r.ty) { r.ty } else { 22 };
    for which in [0, own, T_MMAP, 1 + c.idx(22) as u32, 1 + c.idx(22) as u32] {
        let sh = Shared::new();
        sh.budget.set(budget(data.len()));
        let st = Setup { c, data: &data, plan: &plan, faults: &[], cfg: &s.cfg, en, sh: &sh };
        let (res, log, pos) = drive(&st, &mut Partial { which, header: c.chance(1, 2) });
        match (&full.out, &res) {
            (Ok(_), Ok(())) => (),
            (Err(a), Err(b)) if a.kind == b.kind => (),
            (a, b) => {
                return viol(
                    "differs-outcome",
                    format!("type {}: full visitor {:?}, partial visitor {which}: {b:?}", r.ty, a.as_ref().map(|_| ())),
                )
            }
        }
        if pos != full.to {
            return viol("differs-position", format!("partial visitor {which} left the stream at {pos}"));
        }
        if log.len() != res.is_ok() as usize {
            return viol("visits", format!("partial visitor {which} called {} times", log.len()));
        }
        let Ok((body, Some(meta))) = &full.out else { continue };
        let (m, b, md) = &log[0];
        if md != meta {
            return viol("wrong-metadata", format!("partial visitor {which}: {}", diff(meta, md)));
        }
        let want = match (which, r.ty) {
            (T_MMAP, T_MMAP2) => "mmap",
            (w, _) if w == own => kind_name(w),
            _ => "unimplemented",
        };
        if *m != want {
            return viol("wrong-method", format!("partial visitor {which}: type {} went to {m}, not {want}", r.ty));
        }
        c.probe(Probe::VisitorForward);
        if want == "unimplemented" {
            continue;
        }
        // every field the plain record has keeps its value
        for (k, v) in b.iter().skip(if own == 22 { 2 } else { 1 }) {
            let w = body.iter().find(|x| x.0 == *k).map(|x| &x.1);
            if w != Some(v) {
                return viol("wrong-value", format!("partial visitor {which}: {k}: {w:?} became {v:?}"));
            }
        }
    }
    Ok(())
}
