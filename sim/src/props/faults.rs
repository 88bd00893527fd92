//! C06 C07 C17: sources that fail, are interrupted, and recover.

use super::attr;
use super::decode::gen_ways;
use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::model::*;
use crate::obs;
use crate::refdec::{self, Place};
use crate::transport::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::{ParseBuf, ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};
use std::cell::Cell;
use std::rc::Rc;

/// Is this the error that was injected?
pub fn is_fault(e: &ErrInfo, k: FK, tag: u64) -> Result<(), String> {
    if k.is_eof() {
        if e.kind != refdec::EOF {
            return Err(format!("end of data reported as {} ({})", refdec::kinds(e.kind), e.text));
        }
        if k == FK::UnexpectedEof && e.tag != Some(tag) {
            return Err(format!("{k:?}: the source's own error is not attached ({})", e.text));
        }
        return Ok(());
    }
    if e.kind != refdec::EXT {
        return Err(format!("{k:?} reported as {} ({})", refdec::kinds(e.kind), e.text));
    }
    let attached = match k {
        FK::Os(n) => e.os == Some(n),
        _ => e.tag == Some(tag),
    };
    if !attached {
        return Err(format!("{k:?}: the source's own error is not attached ({})", e.text));
    }
    Ok(())
}

// -------------------------------------------------------------------- C06

#[derive(Copy, Clone, Debug)]
enum Item {
    U64,
    U16,
    Bytes(usize),
    Rep(usize),
    Slice(usize),
    Arr,
    Attr(usize),
    Group(usize),
}

impl Item {
    fn len(self) -> usize {
        match self {
            Item::U64 => 8,
            Item::U16 => 2,
            Item::Bytes(n) => n,
            Item::Rep(n) => 4 * n,
            Item::Slice(n) => 8 * n,
            Item::Arr => 16,
            Item::Attr(n) => n,
            Item::Group(n) => 8 + 8 * n,
        }
    }
}

fn take<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, i: Item) -> ParseResult<Vec<u64>> {
    let _s = alloc::sut();
    let b = |v: &[u8]| {
        let _h = alloc::harness();
        v.iter().map(|&x| x as u64).collect::<Vec<_>>()
    };
    let w = |v: &[u64]| {
        let _h = alloc::harness();
        v.to_vec()
    };
    Ok(match i {
        Item::U64 => w(&[p.parse_u64()?]),
        Item::U16 => w(&[p.parse_u16()? as u64]),
        Item::Bytes(n) => b(&p.parse_bytes(n)?),
        Item::Rep(n) => {
            let v = p.parse_repeated::<u32>(n)?;
            let _h = alloc::harness();
            v.iter().map(|&x| x as u64).collect()
        }
        Item::Slice(n) => w(&unsafe { p.parse_slice::<u64>(n) }?),
        Item::Arr => b(&p.parse::<[u8; 16]>()?),
        Item::Attr(_) => {
            let a = p.parse::<perf_event_attr>()?;
            w(&[a.type_ as u64, a.config, a.sample_type, a.read_format, a.bp_type as u64, a.sample_regs_user, a.config3])
        }
        Item::Group(_) => {
            let g = p.parse::<ReadGroup>()?;
            let _h = alloc::harness();
            g.entries().map(|e| e.value()).collect()
        }
    })
}

struct Items<'a> {
    items: &'a [Item],
    rest: bool,
}
type ItemOut = (Vec<(usize, usize, Result<Vec<u64>, ErrInfo>)>, Option<Result<Vec<u8>, ErrInfo>>);
impl Job for Items<'_> {
    type Out = ItemOut;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, mut p: Parser<B, E>, sh: &Rc<Shared>, _: &Place) -> ItemOut {
        let mut v = vec![];
        for &i in self.items {
            let at = sh.pos.get();
            let r = take(&mut p, i).map_err(|e| err_info(&e));
            v.push((at, sh.pos.get(), r));
        }
        let rest = self.rest.then(|| {
            let _s = alloc::sut();
            match p.parse_rest() {
                Ok(x) => {
                    let _h = alloc::harness();
                    Ok(x.to_vec())
                }
                Err(e) => Err(err_info(&e)),
            }
        });
        (v, rest)
    }
}

pub fn gen_fault(c: &Ctx, n: usize, cuts: &[usize]) -> OffFault {
    let at = if !cuts.is_empty() && c.chance(2, 3) {
        (c.pick(cuts) + c.idx(9)).saturating_sub(4).min(n)
    } else {
        c.idx(n + 1)
    };
    let kind = gen_fk(c);
    let f = OffFault { at, kind, tag: 1 + c.draw(1 << 40), times: u64::MAX };
    c.note(|| format!("fault planned: {kind:?} at byte {at} of {n}"));
    f
}

/// Check what parse_rest gave when the source fails at `f`.
fn check_rest(r: &Result<Vec<u8>, ErrInfo>, pos: usize, d: &[u8], f: &OffFault) -> Res {
    match r {
        Ok(b) if f.kind.is_eof() => {
            if b[..] != d[pos.min(f.at)..f.at] {
                return viol("partial-data", format!("rest of the stream: {} bytes, not those before the end", b.len()));
            }
            Ok(())
        }
        Ok(b) => viol("failure-became-data", format!("rest of the stream: {} bytes although the source failed with {:?}", b.len(), f.kind)),
        Err(e) => match is_fault(e, f.kind, f.tag) {
            Ok(()) if !f.kind.is_eof() => Ok(()),
            Ok(()) => viol("wrong-error", "rest of the stream refused at a plain end of data".into()),
            Err(m) => viol("wrong-error", format!("rest of the stream: {m}")),
        },
    }
}

fn c06_items(c: &Ctx) -> Res {
    let en = gen_en(c);
    let cfg = MCfg { rf: RF_GROUP, ..MCfg::plain() };
    let n = 1 + c.idx(6);
    let mut items = vec![];
    let mut d = vec![];
    let mut cuts = vec![];
    for _ in 0..n {
        // keep every item 8-aligned
        let it = match c.weighted(&[3, 2, 2, 2, 1, 2, 2]) {
            0 => Item::U64,
            1 => Item::Bytes(8 * length(c, 200)),
            2 => Item::Rep(2 * length(c, 100)),
            3 => Item::Slice(length(c, 100)),
            4 => Item::Arr,
            5 => Item::Attr(c.pick(&attr::SIZES) as usize),
            _ => Item::Group(length(c, 60)),
        };
        let at = d.len();
        match it {
            Item::Attr(s) => d.extend(attr::gen_block(c, &gen_cfg(c), en.be(), s as u32)),
            _ => d.extend(fill_bytes(c, it.len())),
        }
        if let Item::Group(k) = it {
            super::decode::put(&mut d, at, 8, k as u64, en.be());
        }
        cuts.extend([at, at + 8, d.len()]);
        items.push(it);
    }
    c.note(|| format!("items {items:?}"));
    let extra = 8 * c.idx(4);
    d.extend(fill_bytes(c, extra));
    let f = gen_fault(c, d.len(), &cuts);
    let plan = gen_plan(c, d.len(), &cuts, PlanOpt { aligned: true, ..Default::default() });
    let sh = Shared::new();
    sh.budget.set(budget(d.len()) + 200);
    let (base, _) = c.quiet(|| {
        let sh = Shared::new();
        let s = Setup { c, data: &d, plan: &calm(&plan), faults: &[], cfg: &cfg, en, sh: &sh };
        drive(&s, &mut Items { items: &items, rest: false })
    });
    let s = Setup { c, data: &d, plan: &plan, faults: &[f], cfg: &cfg, en, sh: &sh };
    let (got, rest) = drive(&s, &mut Items { items: &items, rest: true });
    let mut at = 0;
    for (i, (it, (from, to, r))) in items.iter().zip(&got).enumerate() {
        let end = at + it.len();
        c.ev(9, (*to as u64) << 1 | r.is_ok() as u64);
        c.note(|| format!("{it:?} at byte {from}: {}", r.as_ref().map_or_else(|e| e.text.clone(), |_| "Ok".into())));
        if end <= f.at {
            match (r, &base[i].2) {
                (Ok(x), Ok(y)) if x == y => c.probe(Probe::RecordOk),
                (Err(x), Err(y)) if x.kind == y.kind => (),
                (x, y) => {
                    return viol("delivered-item-lost", format!("{it:?} at byte {at}, wholly delivered: {x:?}, not {y:?}"))
                }
            }
        } else if it.len() > 0 {
            match r {
                Ok(_) => return viol("partial-data", format!("{it:?} at byte {at} parsed although the source failed at byte {}", f.at)),
                Err(e) => {
                    c.probe(Probe::FaultInRecord);
                    if let Err(m) = is_fault(e, f.kind, f.tag) {
                        return viol("wrong-error", format!("{it:?} at byte {at}: {m}"));
                    }
                }
            }
        }
        at = end;
    }
    let pos = got.last().map_or(0, |g| g.1);
    check_rest(rest.as_ref().expect("rest"), pos, &d, &f)
}

struct BodyOf(u32);
impl Job for BodyOf {
    type Out = (Result<Obs, ErrInfo>, usize);
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, mut p: Parser<B, E>, sh: &Rc<Shared>, _: &Place) -> Self::Out {
        let r = {
            let _s = alloc::sut();
            obs::typed(&mut p, self.0)
        };
        (r.map_err(|e| err_info(&e)), sh.pos.get())
    }
}

/// A record's body parsed as its concrete type straight from a source that fails.
fn c06_body(c: &Ctx) -> Res {
    let mut cfg = gen_cfg(c);
    if c.chance(1, 4) {
        cfg.rf &= !RF_GROUP;
    }
    cfg.sid_all = false;
    let en = gen_en(c);
    let mut go = gen_opt(c, en.be());
    go.odd = false;
    let ty = match gen_ty(c, &cfg) {
        T_MMAP2 => T_MMAP,
        // a third are samples
        t => {
            if c.chance(1, 4) {
                T_SAMPLE
            } else {
                t
            }
        }
    };
    let r = gen_record(c, &cfg, ty, go);
    let mut d = r.bytes[8..8 + r.body_len].to_vec();
    let extra = 8 + 8 * c.idx(3);
    d.extend(fill_bytes(c, extra));
    let plan = gen_plan(c, d.len(), &[], PlanOpt { aligned: true, ..Default::default() });
    let run = |d: &[u8], plan: &Plan, f: &[OffFault]| {
        let sh = Shared::new();
        sh.budget.set(budget(d.len()) + 200);
        drive(&Setup { c, data: d, plan, faults: f, cfg: &cfg, en, sh: &sh }, &mut BodyOf(ty))
    };
    let (base, used) = c.quiet(|| run(&d, &calm(&plan), &[]));
    let Ok(base) = base else { return Ok(()) };
    // does it take all there is?
    let rest = used == d.len();
    c.note(|| format!("body of a {} record, {used} of {} bytes", kind_name(ty), d.len()));
    let at = match c.idx(4) {
        0 => used,
        1 => used.saturating_sub(1 + c.idx(8)),
        _ => c.idx(used + 1),
    };
    let f = OffFault { at, kind: gen_fk(c), tag: 1 + c.draw(1 << 40), times: u64::MAX };
    c.note(|| format!("fault planned: {:?} at byte {at}", f.kind));
    let (got, _) = run(&d, &plan, &[f]);
    c.ev(9, got.is_ok() as u64);
    c.probe(if got.is_ok() { Probe::RecordOk } else { Probe::RecordErr });
    if rest && f.kind.is_eof() {
        // what ends earlier is a shorter record
        let (want, _) = c.quiet(|| run(&d[..at], &plain_plan(), &[]));
        return match (&want, &got) {
            (Ok(x), Ok(y)) if x == y => Ok(()),
            (Err(x), Err(y)) if x.kind == y.kind => Ok(()),
            (Ok(x), Ok(y)) => viol("partial-data", format!("data ended at byte {at}: {}", diff(x, y))),
            (x, y) => viol("wrong-error", format!("data ended at byte {at}: {y:?} instead of {x:?}")),
        };
    }
    if at >= used && !rest {
        return match got {
            Ok(o) if o == base => Ok(()),
            Ok(o) => viol("delivered-item-lost", format!("wholly delivered: {}", diff(&base, &o))),
            Err(e) => viol("delivered-item-lost", format!("wholly delivered, yet refused: {}", e.text)),
        };
    }
    match got {
        Ok(_) => viol("partial-data", format!("{} parsed although the source failed at byte {at} of {used}", kind_name(ty))),
        Err(e) => {
            c.probe(Probe::FaultInRecord);
            is_fault(&e, f.kind, f.tag).or_else(|m| viol("wrong-error", format!("{} failing at byte {at}: {m}", kind_name(ty))))
        }
    }
}

pub fn c06(c: &Ctx) -> Res {
    match c.weighted(&[3, 2, 5]) {
        0 => return c06_items(c),
        1 => return c06_body(c),
        _ => (),
    }
    let mut cfg = gen_cfg(c);
    if c.chance(1, 4) {
        cfg.rf &= !RF_GROUP;
    }
    let en = gen_en(c);
    let s = gen_stream(c, cfg, en, 4, false, &gen_ty);
    let f = gen_fault(c, s.data.len(), &s.cuts);
    let plan = gen_plan(c, s.data.len(), &s.cuts, PlanOpt { aligned: true, ..Default::default() });
    let ways = gen_ways(c, s.recs.len());
    let want = undisturbed(c, &s, &plan, &ways);
    let (out, _) = parse_n(c, &s.data, &plan, &[f], &s.cfg, en, &ways, false, true);
    for (i, (g, r)) in out.got.iter().zip(&s.recs).enumerate() {
        seen(c, g);
        let (at, end) = (s.at[i], s.at[i] + r.bytes.len());
        if end <= f.at {
            if g.from != at || g.to != end {
                return viol("delivered-item-lost", format!("record {i} at byte {at}..{end}: parser went {}..{}", g.from, g.to));
            }
            if let Err((_, m)) = same(&want[i], g, true) {
                return viol("delivered-item-lost", format!("record {i} at byte {at}, wholly delivered: {m}"));
            }
        } else {
            c.probe(if f.at == at { Probe::FaultAtBoundary } else { Probe::FaultInRecord });
            match &g.out {
                Ok(_) => {
                    return viol("partial-data", format!("{} record at byte {at}..{end} parsed although the source failed at byte {}", kind_name(r.ty), f.at))
                }
                Err(e) => {
                    if let Err(m) = is_fault(e, f.kind, f.tag) {
                        return viol("wrong-error", format!("{} record at byte {at}..{end}, failure at byte {}: {m}", kind_name(r.ty), f.at));
                    }
                }
            }
            if g.visits.unwrap_or(0) != 0 {
                return viol("partial-data", "visitor called for a record that was never delivered".into());
            }
        }
    }
    let pos = out.got.last().map_or(0, |g| g.to);
    check_rest(out.tail.as_ref().expect("tail"), pos, &s.data, &f)
}

// -------------------------------------------------------------------- C07

pub fn c07(c: &Ctx) -> Res {
    let mut cfg = gen_cfg(c);
    if c.chance(1, 4) {
        cfg.rf &= !RF_GROUP;
    }
    let en = gen_en(c);
    let s = gen_stream(c, cfg, en, 5, true, &gen_ty);
    let mut data = s.data.clone();
    let nt = length(c, 40);
    let t = fill_bytes(c, nt);
    data.extend(&t);
    let plan = gen_plan(c, data.len(), &[], PlanOpt { reader_only: true, eintr: true, ..Default::default() });
    let ways = gen_ways(c, s.recs.len());
    // reference: the same reader with neither interruptions nor short reads
    let calm = calm(&plan);
    let (a, _) = c.quiet(|| parse_n(c, &data, &calm, &[], &s.cfg, en, &ways, false, true));
    let (b, _) = parse_n(c, &data, &plan, &[], &s.cfg, en, &ways, false, true);
    for (i, (x, y)) in a.got.iter().zip(&b.got).enumerate() {
        seen(c, y);
        if let Err(e) = &y.out {
            if x.out.is_ok() {
                return viol("interruption-visible", format!("record {i}: {}", e.text));
            }
        }
        if let Err((k, m)) = same(x, y, true) {
            return viol(k, format!("record {i} at byte {}: {m}", x.from));
        }
        if x.to != y.to {
            return viol("differs-position", format!("record {i}: reader at byte {} instead of {}", y.to, x.to));
        }
    }
    match (&a.tail, &b.tail) {
        (Some(Ok(x)), Some(Ok(y))) if x == y => Ok(()),
        (Some(Err(x)), Some(Err(y))) if x.kind == y.kind => Ok(()),
        (x, y) => viol("differs-tail", format!("rest of the stream: {x:?} against {y:?}")),
    }
}

// -------------------------------------------------------------------- C17

pub const KF_MID: &str = "mid-item-failure-drops-prefix";

struct Retry<'a> {
    c: &'a Ctx,
    s: &'a Stream,
    ways: &'a [Way],
    want: &'a [Got],
    limit: u32,
}

enum Att {
    Done(Box<(Obs, Option<Obs>)>),
    Failed(ErrInfo),
}

impl Retry<'_> {
    /// One failed attempt of something that began at `start`: did the parser
    /// stay where it was?  Ok(true): retry; Ok(false): the known finding.
    fn after_failure(&self, sh: &Shared, start: usize, e: &ErrInfo, fired: u64, what: &str) -> Result<bool, Viol> {
        let c = self.c;
        let Some((fpos, k, tag)) = sh.last_fault.get() else {
            return viol("rejected-valid", format!("{what} at byte {start} refused though no failure happened: {}", e.text));
        };
        if sh.fired.get() == fired {
            return viol("rejected-valid", format!("{what} at byte {start} refused after the source had recovered: {}", e.text));
        }
        if let Err(m) = is_fault(e, k, tag) {
            return viol("wrong-error", format!("{what} at byte {start}: {m}"));
        }
        let pos = sh.pos.get();
        if pos == start {
            c.probe(Probe::FaultAtBoundary);
            return Ok(true);
        }
        c.probe(Probe::FaultInRecord);
        if pos == fpos {
            c.check_known(Viol {
                class: KF_MID.into(),
                msg: format!("{what} at byte {start} failed at byte {pos}; the parser was left there"),
            })?;
            return Ok(false);
        }
        viol("lost-data", format!("{what} at byte {start} failed at byte {fpos}; parser left at byte {pos}"))
    }
}

fn visit<'p, B: ParseBuf<'p>, E: Endian>(
    p: &mut Parser<B, E>,
    h: Option<perf_event_header>,
    way: Way,
) -> Att {
    let calls = Cell::new(0);
    let r: ParseResult<(Obs, Option<Obs>)> = (|| {
        let _s = alloc::sut();
        let vis = Full { calls: &calls, hook: None };
        Ok(match (way, h) {
            (Way::Record, _) => (obs_record(p.parse::<Record>()?), None),
            (Way::HeaderRecord, Some(h)) => (obs_record(Record::parse_with_header(p, h)?), None),
            (Way::HeaderVisitor | Way::HeaderMetaTyped, Some(h)) => {
                let (a, b) = p.parse_record_with_header(vis, h)?;
                (a, Some(b))
            }
            _ => {
                let (a, b) = p.parse_record(vis)?;
                (a, Some(b))
            }
        })
    })();
    match r {
        Ok(x) => Att::Done(Box::new(x)),
        Err(e) => Att::Failed(err_info(&e)),
    }
}

fn obs_record(r: Record) -> Obs {
    crate::obs::record(&r)
}

impl Job for Retry<'_> {
    type Out = Res;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, mut p: Parser<B, E>, sh: &Rc<Shared>, _: &Place) -> Res {
        let c = self.c;
        let mut tries = 0;
        for (i, &way) in self.ways.iter().enumerate() {
            let at = self.s.at[i];
            let end = at + self.s.recs[i].bytes.len();
            let split = matches!(way, Way::HeaderVisitor | Way::HeaderRecord | Way::HeaderMetaTyped);
            let mut h = None;
            let mut retried = false;
            if split {
                loop {
                    let (start, fired) = (sh.pos.get(), sh.fired.get());
                    let r = {
                        let _s = alloc::sut();
                        p.parse::<perf_event_header>()
                    };
                    match r {
                        Ok(x) => {
                            h = Some(x);
                            break;
                        }
                        Err(e) => {
                            let e = err_info(&e);
                            if !self.after_failure(sh, start, &e, fired, "header")? {
                                return self.rest(&mut p, sh);
                            }
                            retried = true;
                        }
                    }
                    tries += 1;
                    if tries > self.limit {
                        return viol("no-progress", format!("{tries} attempts"));
                    }
                }
            }
            loop {
                let (start, fired) = (sh.pos.get(), sh.fired.get());
                let want_start = if split { at + 8 } else { at };
                if start != want_start {
                    return viol("lost-data", format!("record {i} due at byte {want_start}, parser at {start}"));
                }
                match visit(&mut p, h, way) {
                    Att::Done(x) => {
                        let g = Got { out: Ok(*x), from: at, to: sh.pos.get(), visits: None };
                        seen(c, &g);
                        if let Err((_, m)) = same(&self.want[i], &g, true) {
                            return viol("wrong-item", format!("record {i} at byte {at} after {tries} failures: {m}"));
                        }
                        if g.to != end {
                            return viol("framing", format!("record {i} left at byte {} instead of {end}", g.to));
                        }
                        if retried {
                            c.probe(Probe::RetryOk);
                        }
                        break;
                    }
                    Att::Failed(e) => {
                        c.note(|| format!("record {i}: {} (parser at byte {})", e.text, sh.pos.get()));
                        // a record the library refuses anyway is not this property's business
                        if sh.fired.get() == fired && self.want[i].out.is_err() {
                            return Ok(());
                        }
                        if !self.after_failure(sh, start, &e, fired, "record")? {
                            return self.rest(&mut p, sh);
                        }
                        retried = true;
                    }
                }
                tries += 1;
                if tries > self.limit {
                    return viol("no-progress", format!("{tries} attempts"));
                }
            }
        }
        self.rest(&mut p, sh)
    }
}

impl Retry<'_> {
    /// Whatever happened, the remaining bytes are intact: take them in pieces
    /// that each either come or can be asked for again.
    fn rest<'p, B: ParseBuf<'p>, E: Endian>(&self, p: &mut Parser<B, E>, sh: &Shared) -> Res {
        let mut tries = 0;
        while sh.pos.get() < self.s.data.len() {
            let (at, fired) = (sh.pos.get(), sh.fired.get());
            let r = {
                let _s = alloc::sut();
                p.parse_u8()
            };
            match r {
                Ok(b) => {
                    if b != self.s.data[at] || sh.pos.get() != at + 1 {
                        return viol("lost-data", format!("byte {at} came back as {b:#x}"));
                    }
                    if sh.pos.get() > at + 64 {
                        break;
                    }
                }
                Err(e) => {
                    let e = err_info(&e);
                    self.after_failure(sh, at, &e, fired, "byte")?;
                }
            }
            tries += 1;
            if tries > self.limit as usize + 48 {
                break;
            }
        }
        Ok(())
    }
}

pub fn c17(c: &Ctx) -> Res {
    let mut cfg = gen_cfg(c);
    if c.chance(1, 4) {
        cfg.rf &= !RF_GROUP;
    }
    let en = gen_en(c);
    let s = gen_stream(c, cfg, en, 5, false, &gen_ty);
    let ways = gen_ways(c, s.recs.len());
    let ways: Vec<Way> = ways.into_iter().map(|w| if w == Way::MetaTyped { Way::Visitor } else { w }).collect();
    let mut plan = gen_plan(c, s.data.len(), &s.cuts, PlanOpt { aligned: true, ..Default::default() });
    // favour streams whose failures fall on item boundaries: pieces end there
    if c.chance(1, 2) && !matches!(plan, Plan::Reader(_)) {
        let spec = s
            .recs
            .iter()
            .flat_map(|r| [8, r.bytes.len() - 8])
            .filter(|&l| l > 0)
            .scan(0, |at, l| {
                let a = *at;
                *at += l;
                Some((a, l))
            })
            .map(|(a, l)| PieceSpec { len: l, ext: c.chance(1, 2), align: Some(a % 8) })
            .collect();
        plan = Plan::Pieces { spec, hint: c.chance(1, 2) };
        c.note(|| "pieces end at headers and records".into());
    }
    let calm_ways: Vec<Way> =
        ways.iter().map(|&w| if w == Way::HeaderMetaTyped { Way::HeaderVisitor } else { w }).collect();
    let want = undisturbed(c, &s, &plan, &calm_ways);
    let kind = |c: &Ctx| loop {
        let k = gen_fk(c);
        if !k.is_eof() {
            break k;
        }
        break FK::Io(std::io::ErrorKind::WouldBlock);
    };
    let mut faults: Vec<OffFault> = vec![];
    let sh = Shared::new();
    for _ in 0..1 + c.idx(4) {
        if c.chance(2, 3) {
            // the source has nothing at this byte for a while
            let at = match c.weighted(&[4, 2, 1]) {
                0 => c.pick(&s.at),
                1 => c.pick(&s.at) + 8,
                _ => c.idx(s.data.len()),
            };
            if at < s.data.len() && !faults.iter().any(|f| f.at == at) {
                let f = OffFault { at, kind: kind(c), tag: 1 + c.draw(1 << 40), times: 1 + c.draw(3) };
                c.note(|| format!("fault planned: {f:?}"));
                faults.push(f);
            }
        } else {
            let n = c.draw(24);
            let k = kind(c);
            c.note(|| format!("fault planned: {k:?} at source call {n}"));
            sh.transient.borrow_mut().push((n, k, 1 + c.draw(1 << 40)));
        }
    }
    sh.budget.set(budget(s.data.len()) + 400);
    let st = Setup { c, data: &s.data, plan: &plan, faults: &faults, cfg: &s.cfg, en, sh: &sh };
    drive(&st, &mut Retry { c, s: &s, ways: &ways, want: &want, limit: 32 })
}
