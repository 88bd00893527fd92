//! C12: clones and owned conversions.

use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::model::*;
use crate::obs;
use crate::refdec::Place;
use crate::transport::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::{ParseBuf, Parser};
use perf_event_data::*;
use std::rc::Rc;

/// Something that no longer borrows from the source.
pub enum Own {
    Mmap(Mmap<'static>),
    Mmap2(Mmap2<'static>),
    Comm(Comm<'static>),
    CGroup(CGroup<'static>),
    KSymbol(KSymbol<'static>),
    TextPoke(TextPoke<'static>),
    Group(ReadGroup<'static>),
    Id(SampleId),
}

pub fn group_obs_of(g: &ReadGroup) -> Obs {
    let _h = alloc::harness();
    vec![
        ("enabled", opt(g.time_enabled())),
        ("running", opt(g.time_running())),
        ("len", V::U(g.len() as u64)),
        ("entries", V::W(obs::group_entries(g))),
    ]
}

fn sid_obs(s: &SampleId) -> Obs {
    let _h = alloc::harness();
    let mut o = vec![];
    obs::sid(&mut o, s);
    o
}

impl Own {
    pub fn obs(&self) -> Obs {
        match self {
            Own::Mmap(r) => obs::mmap(r),
            Own::Mmap2(r) => obs::mmap2(r),
            Own::Comm(r) => obs::comm(r),
            Own::CGroup(r) => obs::cgroup(r),
            Own::KSymbol(r) => obs::ksymbol(r),
            Own::TextPoke(r) => obs::text_poke(r),
            Own::Group(g) => group_obs_of(g),
            Own::Id(s) => sid_obs(s),
        }
    }
    pub fn dup(&self) -> Own {
        let _s = alloc::sut();
        match self {
            Own::Mmap(r) => Own::Mmap(r.clone()),
            Own::Mmap2(r) => Own::Mmap2(r.clone()),
            Own::Comm(r) => Own::Comm(r.clone()),
            Own::CGroup(r) => Own::CGroup(r.clone()),
            Own::KSymbol(r) => Own::KSymbol(r.clone()),
            Own::TextPoke(r) => Own::TextPoke(r.clone()),
            Own::Group(r) => Own::Group(r.clone()),
            Own::Id(r) => Own::Id(*r),
        }
    }
}

/// The owned conversions a record offers; None when it has none.
pub fn owned(c: &Ctx, r: Record) -> Result<Option<(Own, Obs)>, Viol> {
    let before = obs::record(&r);
    let _s = alloc::sut();
    Ok(Some(match r {
        Record::Mmap(r) => (Own::Mmap(r.into_owned()), before),
        Record::Mmap2(r) => match c.idx(4) {
            0 => (Own::Mmap2(r.into_owned()), before),
            k => {
                // the plain mapping keeps every field it has
                let m = match k {
                    1 => r.to_mmap(),
                    2 => r.into_mmap(),
                    _ => Mmap::from(r),
                };
                let o = obs::mmap(&m);
                for (f, v) in o.iter().skip(1) {
                    let w = before.iter().find(|x| x.0 == *f).map(|x| &x.1);
                    if w != Some(v) {
                        return viol("wrong-conversion", format!("extended to plain mapping: {f}: {w:?} became {v:?}"));
                    }
                }
                (Own::Mmap(m.into_owned()), o)
            }
        },
        Record::Comm(r) => (Own::Comm(r.into_owned()), before),
        Record::CGroup(r) => (Own::CGroup(r.into_owned()), before),
        Record::KSymbol(r) => (Own::KSymbol(r.into_owned()), before),
        Record::TextPoke(r) => (Own::TextPoke(r.to_owned()), before),
        Record::Sample(s) => match (c.idx(3), s.values()) {
            (0, Some(g)) => {
                let o = group_obs_of(g);
                (Own::Group(g.clone().into_owned()), o)
            }
            _ => {
                let i = SampleId::from_sample(&s);
                let o = sid_obs(&i);
                (Own::Id(i), o)
            }
        },
        Record::Read(r) => {
            let mut o = vec![];
            {
                let _h = alloc::harness();
                obs::read_value(&mut o, &r.values);
            }
            let g: ReadGroup<'static> = r.values.into();
            let back = ReadValue::try_from(g.clone());
            let mut o2 = vec![];
            {
                let _h = alloc::harness();
                match &back {
                    Ok(v) => obs::read_value(&mut o2, v),
                    Err(_) => return viol("wrong-conversion", "a reading's own group is refused".into()),
                }
            }
            if o != o2 {
                return viol("wrong-conversion", format!("reading to a group and back: {}", diff(&o, &o2)));
            }
            let go = group_obs_of(&g);
            if go[0].1 != o[1].1 || go[1].1 != o[2].1 || go[2].1 != V::U(1) {
                return viol("wrong-conversion", format!("reading {o:?} as a group: {go:?}"));
            }
            (Own::Group(g), go)
        }
        _ => return Ok(None),
    }))
}

struct Copies<'a> {
    c: &'a Ctx,
    n: usize,
}

impl Job for Copies<'_> {
    type Out = Result<Vec<(Own, Obs)>, Viol>;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(
        &mut self,
        mut p: Parser<B, E>,
        _: &Rc<Shared>,
        _: &Place,
    ) -> Self::Out {
        let c = self.c;
        let mut live: Vec<(Record<'p>, Obs)> = vec![];
        let mut out: Vec<(Own, Obs)> = vec![];
        for _ in 0..self.n {
            let r = {
                let _s = alloc::sut();
                p.parse::<Record>()
            };
            match r {
                Ok(r) => {
                    c.probe(Probe::RecordOk);
                    let o = obs::record(&r);
                    live.push((r, o));
                }
                Err(_) => break,
            }
        }
        // the source goes away first, or last
        let mut p = Some(p);
        for _ in 0..6 + c.idx(14) {
            if live.is_empty() {
                break;
            }
            let i = c.idx(live.len());
            let k = c.weighted(&[4, 3, 4, 2, 1]);
            c.ev(7, (k as u64) << 8 | i as u64);
            match k {
                0 => {
                    let r = {
                        let _s = alloc::sut();
                        live[i].0.clone()
                    };
                    let o = obs::record(&r);
                    if o != live[i].1 {
                        return viol("clone-differs", diff(&live[i].1, &o));
                    }
                    c.probe(Probe::CloneChecked);
                    c.note(|| format!("clone of record {i} kept as {}", live.len()));
                    let e = (r, live[i].1.clone());
                    live.push(e);
                }
                1 => {
                    c.note(|| format!("record {i} dropped"));
                    let x = live.swap_remove(i);
                    let _s = alloc::sut();
                    drop(x.0);
                }
                2 => {
                    let (r, o) = if c.chance(1, 2) {
                        live.swap_remove(i)
                    } else {
                        let _s = alloc::sut();
                        let r = live[i].0.clone();
                        let _h = alloc::harness();
                        (r, live[i].1.clone())
                    };
                    c.note(|| format!("record {i} ({:?}) converted", o[0].1));
                    let before = obs::record(&r);
                    if before != o {
                        return viol("copy-changed", diff(&o, &before));
                    }
                    if let Some((w, want)) = owned(c, r)? {
                        let got = w.obs();
                        if got != want {
                            return viol("conversion-differs", format!("{:?}: {}", o[0].1, diff(&want, &got)));
                        }
                        c.probe(Probe::OwnedCopy);
                        out.push((w, want));
                    }
                }
                3 => {
                    let o = obs::record(&live[i].0);
                    if o != live[i].1 {
                        return viol("copy-changed", diff(&live[i].1, &o));
                    }
                }
                _ => {
                    if let Some(q) = p.take() {
                        c.note(|| "source dropped".into());
                        let _s = alloc::sut();
                        drop(q);
                    }
                }
            }
        }
        for (r, o) in live.drain(..) {
            let x = obs::record(&r);
            if x != o {
                return viol("copy-changed", diff(&o, &x));
            }
            let _s = alloc::sut();
            drop(r);
        }
        Ok(out)
    }
}

pub fn c12(c: &Ctx) -> Res {
    let mut cfg = gen_cfg(c);
    if c.chance(1, 3) {
        cfg.rf &= !RF_GROUP;
    }
    if c.chance(1, 3) {
        cfg.st |= READ;
    }
    let en = gen_en(c);
    let ty = |c: &Ctx, cfg: &MCfg| match c.weighted(&[2, 3]) {
        0 => gen_ty(c, cfg),
        _ => {
            let t = c.pick(&[T_MMAP2, T_MMAP, T_COMM, T_CGROUP, T_KSYMBOL, T_TEXT_POKE, T_SAMPLE, T_READ, T_NAMESPACES, 77]);
            if t == T_READ && cfg.rf & RF_GROUP != 0 {
                T_MMAP2
            } else {
                t
            }
        }
    };
    let s = gen_stream(c, cfg, en, 4, true, &ty);
    let plan = gen_plan(c, s.data.len(), &s.cuts, PlanOpt::default());
    let sh = Shared::new();
    sh.budget.set(budget(s.data.len()));
    let st = Setup { c, data: &s.data, plan: &plan, faults: &[], cfg: &s.cfg, en, sh: &sh };
    let mut arena = arena_of(&s.data, &plan);
    let mut own = drive_on(&st, &arena, &mut Copies { c, n: s.recs.len() })?;
    // newer data takes the place of the old
    arena.overwrite(0x1122_3344_5566_7788);
    c.fault(Fault::BufferReuse);
    c.note(|| "source memory overwritten".into());
    if c.chance(1, 2) {
        drop(arena);
    }
    while !own.is_empty() {
        for (w, want) in &own {
            let o = w.obs();
            if o != *want {
                return viol("owned-copy-changed", diff(want, &o));
            }
        }
        let i = c.idx(own.len());
        if own.len() < 6 && c.chance(1, 4) {
            let d = own[i].0.dup();
            let w = own[i].1.clone();
            own.push((d, w));
        }
        let (w, _) = own.swap_remove(i);
        let _s = alloc::sut();
        drop(w);
        if c.chance(1, 8) {
            break;
        }
    }
    // nothing was freed twice or written to after it was freed
    let _s = alloc::sut();
    drop(own);
    alloc::flush();
    let (_, _, e, _) = alloc::status();
    if e != 0 {
        return viol("heap-damaged", format!("heap audit: error bits {e:#x}"));
    }
    Ok(())
}
