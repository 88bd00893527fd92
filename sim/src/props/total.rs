//! C08 C10: nothing makes parsing panic, hang, or allocate without bound.

use super::attr;
use super::copies;
use super::decode::{corrupt, hostile, put};
use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::model::*;
use crate::obs;
use crate::refdec::Place;
use crate::transport::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::{Parse, ParseBuf, ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};
use std::fmt::{Debug, Write};
use std::rc::Rc;

/// A sink that refuses everything after a number of bytes.
struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            self.0 = 0;
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

/// Format in both styles and into a failing sink.
fn show_all<T: Debug>(c: &Ctx, v: &T) {
    let _s = alloc::sut();
    match c.idx(4) {
        0 => drop(format!("{v:?}")),
        1 => drop(format!("{v:#?}")),
        2 => {
            c.fault(Fault::SinkError);
            let n = c.idx(200);
            let _ = write!(Sink(n), "{v:?}");
        }
        _ => {
            c.fault(Fault::SinkError);
            let n = c.idx(400);
            let _ = write!(Sink(n), "{v:#?}");
        }
    }
}

fn show_err(c: &Ctx, e: &perf_event_data::parse::ParseError) {
    let _s = alloc::sut();
    drop(format!("{e} {e:?} {e:#?}"));
    let n = c.idx(40);
    let _ = write!(Sink(n), "{e}");
    let _ = std::error::Error::source(e).map(|s| s.to_string());
}

macro_rules! plain {
    ($c:expr, $p:expr, $T:ty) => {{
        let r = {
            let _s = alloc::sut();
            $p.parse::<$T>()
        };
        fin($c, r)
    }};
}

fn fin<T: Debug + Clone>(c: &Ctx, r: ParseResult<T>) -> bool {
    match r {
        Ok(v) => {
            show_all(c, &v);
            let _s = alloc::sut();
            let w = v.clone();
            drop(v);
            drop(w);
            true
        }
        Err(e) => {
            show_err(c, &e);
            false
        }
    }
}

fn inspect(c: &Ctx, r: Record) -> Res {
    let _ = obs::record(&r);
    show_all(c, &r);
    let _s = alloc::sut();
    let d = r.clone();
    let _ = obs::record(&d);
    drop(d);
    if let Record::Sample(s) = &r {
        let _ = SampleId::from_sample(s);
        if let Some(g) = s.values() {
            drop(ReadValue::try_from(g.clone()));
            let _ = (g.len(), g.is_empty(), g.get(0), g.get(usize::MAX), g.get_by_id(0), g.entries().rev().count());
        }
    }
    let _h = alloc::harness();
    // conversions (their values are other properties' business)
    let _ = copies::owned(c, r);
    Ok(())
}

struct One<'a> {
    c: &'a Ctx,
    n: usize,
    len: usize,
}

impl One<'_> {
    fn step<'p, B: ParseBuf<'p>, E: Endian>(&self, p: &mut Parser<B, E>, sh: &Shared) -> Result<bool, Viol> {
        let c = self.c;
        let k = c.weighted(&[10, 6, 2, 2, 3, 4, 8]);
        c.ev(8, k as u64);
        Ok(match k {
            0 => {
                let r = {
                    let _s = alloc::sut();
                    p.parse::<Record>()
                };
                match r {
                    Ok(r) => {
                        inspect(c, r)?;
                        true
                    }
                    Err(e) => {
                        show_err(c, &e);
                        false
                    }
                }
            }
            1 => {
                let w = gen_way(c);
                next(p, sh, w, None).out.is_ok()
            }
            2 => {
                let r = {
                    let _s = alloc::sut();
                    p.parse::<perf_event_attr>()
                };
                r.is_ok()
            }
            3 => plain!(c, p, perf_event_header),
            4 => {
                // metadata, then the body as any type at all
                let _s = alloc::sut();
                match p.parse_metadata() {
                    Ok((mut q, m)) => {
                        let _h = alloc::harness();
                        show_all(c, &m);
                        self.any(&mut q)
                    }
                    Err(_) => false,
                }
            }
            5 => {
                // primitive requests of absurd sizes
                let near = self.len.saturating_sub(sh.pos.get());
                let n = hostile(c, c.pick(&[1usize, 2, 4, 8]), near) as usize;
                c.note(|| format!("request of {n:#x} elements"));
                let _s = alloc::sut();
                match c.idx(8) {
                    0 => p.parse_bytes(n).is_ok(),
                    1 => p.parse_repeated::<u64>(n).is_ok(),
                    2 => p.parse_repeated::<u8>(n).is_ok(),
                    3 => unsafe { p.parse_slice::<u64>(n) }.is_ok(),
                    4 => unsafe { p.parse_slice_direct::<u32>(n) }.is_ok(),
                    5 => p.parse_repeated::<NamespaceEntry>(n).is_ok(),
                    6 => p.parse_rest().is_ok(),
                    _ => p.parse_rest_trim_nul().is_ok(),
                }
            }
            _ => self.any(p),
        })
    }

    /// Any type the library can parse, whether or not the data is of it.
    fn any<'p, B: ParseBuf<'p>, E: Endian>(&self, p: &mut Parser<B, E>) -> bool {
        let c = self.c;
        let k = c.idx(40);
        c.note(|| format!("parse as type {k}"));
        match k {
            0 => plain!(c, p, Mmap),
            1 => plain!(c, p, Lost),
            2 => plain!(c, p, Comm),
            3 => plain!(c, p, Exit),
            4 => plain!(c, p, Throttle),
            5 => plain!(c, p, Read),
            6 => plain!(c, p, Sample),
            7 => plain!(c, p, Mmap2),
            8 => plain!(c, p, Aux),
            9 => plain!(c, p, ITraceStart),
            10 => plain!(c, p, LostSamples),
            11 => plain!(c, p, SwitchCpuWide),
            12 => plain!(c, p, Namespaces),
            13 => plain!(c, p, KSymbol),
            14 => plain!(c, p, BpfEvent),
            15 => plain!(c, p, CGroup),
            16 => plain!(c, p, TextPoke),
            17 => plain!(c, p, AuxOutputHwId),
            18 => plain!(c, p, SampleId),
            19 => plain!(c, p, ReadValue),
            20 => plain!(c, p, ReadGroup),
            21 => plain!(c, p, BranchEntry),
            22 => plain!(c, p, DataSource),
            23 => plain!(c, p, Txn),
            24 => plain!(c, p, NamespaceEntry),
            25 => plain!(c, p, SampleRegsAbi),
            26 => plain!(c, p, BpfEventType),
            27 => plain!(c, p, KSymbolType),
            28 => plain!(c, p, KSymbolFlags),
            29 => plain!(c, p, AuxFlags),
            30 => plain!(c, p, u8),
            31 => plain!(c, p, u16),
            32 => plain!(c, p, u32),
            33 => plain!(c, p, u64),
            34 => plain!(c, p, [u8; 20]),
            35 => plain!(c, p, [u8; 0]),
            36 => {
                let r = {
                    let _s = alloc::sut();
                    Registers::parse_user(p)
                };
                fin(c, r)
            }
            37 => {
                let r = {
                    let _s = alloc::sut();
                    Registers::parse_intr(p)
                };
                fin(c, r)
            }
            38 => {
                let r = {
                    let _s = alloc::sut();
                    p.parse_if_with(true, |p| Sample::parse(p))
                };
                fin(c, r)
            }
            _ => {
                let r = {
                    let _s = alloc::sut();
                    p.parse_repeated::<BranchEntry>(c.idx(9))
                };
                fin(c, r)
            }
        }
    }
}

impl Job for One<'_> {
    type Out = Res;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, mut p: Parser<B, E>, sh: &Rc<Shared>, _: &Place) -> Res {
        let c = self.c;
        let mut errs = 0;
        for _ in 0..self.n {
            let at = sh.pos.get();
            let before = sh.calls.get();
            let ok = self.step(&mut p, sh)?;
            c.probe(if ok { Probe::RecordOk } else { Probe::RecordErr });
            c.ev(9, (sh.pos.get() as u64) << 1 | ok as u64);
            c.note(|| format!("step at byte {at}: {} at byte {}", if ok { "Ok" } else { "Err" }, sh.pos.get()));
            let used = sh.calls.get() - before;
            if used > 400 + 40 * self.len as u64 {
                return viol("hang", format!("{used} source calls for one parse of {} bytes", self.len));
            }
            if !ok {
                errs += 1;
                if errs > 3 {
                    break;
                }
            }
        }
        Ok(())
    }
}

/// Bytes that range from nearly valid to arbitrary.
fn wild(c: &Ctx, en: En) -> (MCfg, Vec<u8>, Vec<usize>) {
    let cfg = gen_cfg_any(c);
    match c.weighted(&[5, 2, 2, 2]) {
        0 => {
            let s = gen_stream(c, cfg, en, 4, true, &gen_ty);
            let mut d = s.data.clone();
            let mut cn = vec![];
            for (r, &a) in s.recs.iter().zip(&s.at) {
                cn.extend(r.counts.iter().map(|&(o, w, u)| (a + o, w, u)));
            }
            if c.chance(7, 8) {
                corrupt(c, &mut d, &cn, en.be());
            }
            if c.chance(1, 4) {
                let n = c.idx(d.len() + 1);
                d.truncate(n);
                c.fault(Fault::Truncate);
            }
            (s.cfg.clone(), d, s.cuts.clone())
        }
        1 => {
            // a header that frames arbitrary bytes
            let n = length(c, 2000);
            let mut d = vec![0; 8];
            let mut b = fill_bytes(c, n);
            if c.chance(1, 2) {
                b.iter_mut().for_each(|x| *x &= 3);
            }
            d.extend(b);
            c.fault(Fault::Overwrite);
            put(&mut d, 0, 4, gen_ty(c, &cfg) as u64, en.be());
            put(&mut d, 4, 2, val16(c) as u64, en.be());
            let l = d.len() as u64;
            put(&mut d, 6, 2, if c.chance(1, 4) { c.draw(65536) } else { l }, en.be());
            (cfg, d, vec![8])
        }
        2 => {
            let n = length(c, 5000);
            let mut b = fill_bytes(c, n);
            if c.chance(1, 2) {
                b.iter_mut().for_each(|x| *x = if *x > 230 { *x } else { 0 });
            }
            c.fault(Fault::Overwrite);
            (cfg, b, vec![])
        }
        _ => {
            let size = attr::gen_size(c);
            let mut d = attr::gen_block(c, &cfg, en.be(), size);
            if c.chance(1, 2) {
                corrupt(c, &mut d, &[(4, 4, 1)], en.be());
            }
            (cfg, d, vec![8])
        }
    }
}

pub fn c08(c: &Ctx) -> Res {
    let en = gen_en(c);
    let (cfg, data, cuts) = wild(c, en);
    c.note(|| format!("{} bytes, config {cfg:?}", data.len()));
    let plan = gen_plan(c, data.len(), &cuts, PlanOpt { eintr: true, ..Default::default() });
    let mut faults = vec![];
    if c.chance(1, 3) {
        faults.push(OffFault { at: c.idx(data.len() + 1), kind: gen_fk(c), tag: 9, times: c.pick(&[1, 2, u64::MAX]) });
    }
    let sh = Shared::new();
    sh.budget.set(10_000 + 400 * data.len() as u64);
    if c.chance(1, 5) {
        let n = c.draw(20);
        sh.transient.borrow_mut().push((n, gen_fk(c), 11));
    }
    let n = 1 + c.idx(6);
    let s = Setup { c, data: &data, plan: &plan, faults: &faults, cfg: &cfg, en, sh: &sh };
    drive(&s, &mut One { c, n, len: data.len() })
}

// -------------------------------------------------------------------- C10

struct Mem<'a> {
    c: &'a Ctx,
    n: usize,
    len: usize,
    what: usize,
}

impl Job for Mem<'_> {
    type Out = Res;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, mut p: Parser<B, E>, sh: &Rc<Shared>, _: &Place) -> Res {
        let c = self.c;
        for _ in 0..self.n {
            let at = sh.pos.get();
            alloc::mark();
            let ok = match self.what {
                0 => {
                    let w = gen_way(c);
                    next(&mut p, sh, w, None).out.is_ok()
                }
                1 => {
                    let _s = alloc::sut();
                    p.parse::<perf_event_attr>().is_ok()
                }
                2 => {
                    let _s = alloc::sut();
                    match c.idx(4) {
                        0 => p.parse::<ReadGroup>().is_ok(),
                        1 => p.parse::<Sample>().is_ok(),
                        2 => p.parse::<Namespaces>().is_ok(),
                        _ => Registers::parse_intr(&mut p).is_ok(),
                    }
                }
                _ => {
                    let n = hostile(c, c.pick(&[1usize, 2, 4, 8]), self.len - at.min(self.len)) as usize;
                    c.note(|| format!("request of {n:#x} elements"));
                    let _s = alloc::sut();
                    match c.idx(8) {
                        0 => p.parse_bytes(n).is_ok(),
                        1 => p.parse_repeated::<u64>(n).is_ok(),
                        2 => p.parse_repeated::<u8>(n).is_ok(),
                        3 => unsafe { p.parse_slice::<u64>(n) }.is_ok(),
                        4 => unsafe { p.parse_slice::<u16>(n) }.is_ok(),
                        5 => p.parse_repeated::<NamespaceEntry>(n).is_ok(),
                        6 => p.parse_repeated::<[u8; 64]>(n).is_ok(),
                        _ => p.parse_rest().is_ok(),
                    }
                }
            };
            let (peak, largest) = alloc::since_mark();
            let data = sh.delivered.get().max(sh.declared.get()) as u64;
            let bound = 32 * 1024 + 8 * data + 256 * sh.chunks.get();
            c.probe(if ok { Probe::RecordOk } else { Probe::RecordErr });
            c.ev(9, (sh.pos.get() as u64) << 1 | ok as u64);
            c.note(|| format!("at byte {at}: ok {ok}, peak {peak} bytes, largest request {largest}, bound {bound}"));
            if peak as u64 > bound || largest as u64 > bound {
                return viol(
                    "memory",
                    format!(
                        "parsing at byte {at} held {peak} bytes (largest request {largest}); the source had delivered {} and declared {} bytes in {} pieces",
                        sh.delivered.get(),
                        sh.declared.get(),
                        sh.chunks.get()
                    ),
                );
            }
            if !ok {
                break;
            }
        }
        Ok(())
    }
}

pub fn c10(c: &Ctx) -> Res {
    let en = gen_en(c);
    let what = c.weighted(&[6, 1, 3, 3]);
    let (cfg, data, cuts) = match what {
        0 => {
            let cfg = gen_cfg_any(c);
            let s = gen_stream(c, cfg, en, 3, true, &|c, cfg| {
                if c.chance(1, 3) {
                    gen_ty(c, cfg)
                } else {
                    c.pick(&[T_SAMPLE, T_SAMPLE, T_NAMESPACES, T_TEXT_POKE, T_MMAP2])
                }
            });
            let mut d = s.data.clone();
            for (r, &a) in s.recs.iter().zip(&s.at) {
                for &(o, w, u) in &r.counts {
                    // keep most frames, so that the count inside is reached
                    if c.chance(if o < 8 { 1 } else { 4 }, 8) {
                        let v = hostile(c, u, r.bytes.len());
                        put(&mut d, a + o, w, v, en.be());
                        c.fault(Fault::HostileLen);
                        c.note(|| format!("count at byte {} set to {v:#x}", a + o));
                    }
                }
            }
            (s.cfg.clone(), d, s.cuts)
        }
        1 => {
            let cfg = gen_cfg_any(c);
            let size = attr::gen_size(c);
            let d = attr::gen_block(c, &cfg, en.be(), size);
            c.fault(Fault::HostileLen);
            (cfg, d, vec![8])
        }
        2 => {
            let mut cfg = gen_cfg(c);
            cfg.rf |= RF_GROUP;
            let n = 8 * length(c, 80);
            let mut d = fill_bytes(c, 64 + n);
            for i in 0..8 {
                if c.chance(2, 3) {
                    put(&mut d, i * 8, 8, hostile(c, 8, n), en.be());
                    c.fault(Fault::HostileLen);
                }
            }
            (cfg, d, vec![8, 16])
        }
        _ => {
            let n = length(c, 40000);
            let d = fill_bytes(c, n);
            c.fault(Fault::HostileLen);
            (MCfg::plain(), d, vec![])
        }
    };
    let plan = gen_plan(c, data.len(), &cuts, PlanOpt { ..Default::default() });
    let mut faults = vec![];
    if c.chance(1, 4) {
        faults.push(OffFault { at: c.idx(data.len() + 1), kind: gen_fk(c), tag: 9, times: u64::MAX });
    }
    let sh = Shared::new();
    sh.budget.set(10_000 + 400 * data.len() as u64);
    let s = Setup { c, data: &data, plan: &plan, faults: &faults, cfg: &cfg, en, sh: &sh };
    drive(&s, &mut Mem { c, n: 4, len: data.len(), what })
}
