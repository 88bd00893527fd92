//! C16: parsers side by side, alternating, and inside one another.

use super::decode::gen_ways;
use super::prims;
use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::iso::{self, Dec, Enc};
use crate::model::*;
use crate::refdec;
use crate::sched;
use crate::step;
use crate::transport::*;
use perf_event_data::endian::{Big, Dynamic, Endian, Little, Native};
use perf_event_data::parse::{ParseBuf, ParseBufChunk, ParseConfig, ParseResult, Parser};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::io::BufReader;
use std::rc::Rc;

/// Any source at all.
pub struct DynBuf<'p>(Box<dyn ParseBuf<'p> + 'p>);

unsafe impl<'p> ParseBuf<'p> for DynBuf<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        self.0.chunk()
    }
    fn advance(&mut self, n: usize) {
        self.0.advance(n)
    }
    fn remaining_hint(&self) -> Option<usize> {
        self.0.remaining_hint()
    }
}

/// One thing a parser is asked to do.
#[derive(Copy, Clone, Debug)]
enum Act {
    Rec(Way),
    Prim(prims::Op),
}

/// One parser's work, fixed before anything runs.
struct Part {
    data: Vec<u8>,
    cfg: MCfg,
    en: En,
    plan: Plan,
    faults: Vec<OffFault>,
    acts: Vec<Act>,
    /// the parts of the stream that are not record headers
    lens: Vec<(usize, usize)>,
    want: Vec<Want>,
}

/// What one item gives to a parser that is alone in a process of its own.
struct Want {
    from: usize,
    to: usize,
    err: Option<u64>,
    /// name and content hash of every observed field
    fields: Vec<u64>,
    meta: Option<Vec<u64>>,
}

fn hash_v(v: &V) -> u64 {
    let bytes = |b: &[u8]| b.iter().fold(7, |h, &x| (h ^ x as u64).wrapping_mul(0x100_0000_01B3));
    match v {
        V::N => 1,
        V::U(x) => mix(2, *x),
        V::B(b) => mix(3, bytes(b)),
        V::W(w) => mix(4, w.iter().fold(w.len() as u64, |h, &x| mix(h, x))),
        V::S(s) => mix(5, bytes(s.as_bytes())),
    }
}
fn hash_o(o: &Obs) -> Vec<u64> {
    o.iter().map(|(n, v)| mix(hash_v(&V::S(n)), hash_v(v))).collect()
}

impl Want {
    fn enc(g: &Got, e: &mut Enc) {
        e.u(g.from as u64).u(g.to as u64);
        match &g.out {
            Ok((o, m)) => {
                e.u(u64::MAX).us(&hash_o(o)).u(m.is_some() as u64);
                if let Some(m) = m {
                    e.us(&hash_o(m));
                }
            }
            Err(x) => {
                e.u(x.kind as u64);
            }
        }
    }
    fn dec(d: &mut Dec) -> Want {
        let (from, to) = (d.u() as usize, d.u() as usize);
        match d.u() {
            u64::MAX => {
                let fields = d.us();
                let meta = (d.u() != 0).then(|| d.us());
                Want { from, to, err: None, fields, meta }
            }
            k => Want { from, to, err: Some(k), fields: vec![], meta: None },
        }
    }
    fn same(&self, g: &Got) -> Result<(), (&'static str, String)> {
        let cmp = |k, w: &[u64], o: &Obs| {
            let h = hash_o(o);
            match (0..w.len().max(h.len())).find(|&i| w.get(i) != h.get(i)) {
                None => Ok(()),
                Some(i) => {
                    let got = diff(&vec![], &o[i.min(o.len())..].iter().take(1).cloned().collect());
                    Err((k, format!("not what this parser gives when alone: {}", got.trim_start_matches("expected None "))))
                }
            }
        };
        match (&g.out, self.err) {
            (Ok((o, m)), None) => {
                cmp("differs-value", &self.fields, o)?;
                match (&self.meta, m) {
                    (Some(w), Some(m)) => cmp("differs-metadata", w, m),
                    _ => Ok(()),
                }
            }
            (Err(e), Some(k)) if e.kind as u64 == k => Ok(()),
            (_, None) => Err(("differs-outcome", format!("parsed when alone, got {}", show(g)))),
            (_, Some(k)) => {
                Err(("differs-outcome", format!("refused ({}) when alone, got {}", refdec::kinds(k as _), show(g))))
            }
        }
    }
}

/// Let a parser do its work alone, in a fresh copy of this process (in which nothing has been
/// parsed yet).
fn alone_fresh(c: &Ctx, p: &Part) -> Vec<Want> {
    let r = iso::fresh(|| {
        let mut e = Enc::default();
        c.quiet(|| {
            let mark = c.mark();
            let calm = calm(&p.plan);
            let arena = arena_of(&p.data, &calm);
            let sh = Shared::new();
            sh.budget.set(budget(p.data.len()) + 100 * p.acts.len() as u64);
            let mut st = stepper(c, p, &calm, &arena, &sh, None);
            for &a in &p.acts {
                Want::enc(&st(a, None), &mut e);
            }
            assert_eq!(c.mark(), mark, "choices made while alone");
        });
        e.0
    });
    let Ok(b) = r else { std::process::abort() };
    let mut d = Dec(&b);
    p.acts.iter().map(|_| Want::dec(&mut d)).collect()
}

fn gen_part(c: &Ctx, like: Option<&Part>, tiny: bool) -> Part {
    let opt = PlanOpt { aligned: true, ..Default::default() };
    let mut p = if let Some(like) = like.filter(|_| c.chance(if tiny { 2 } else { 1 }, 4)) {
        // what another parser gets, a few bytes apart: what is shared by mistake shows
        let mut data = like.data.clone();
        let lens = like.lens.clone();
        for _ in 0..1 + c.idx(6) {
            // not the headers: the same records stay in the same places
            let Some(&(a, e)) = lens.get(c.idx(lens.len().max(1))) else { break };
            if e > a {
                let i = a + c.idx(e - a);
                data[i] ^= 1 << c.draw(8);
            }
        }
        c.note(|| "the same stream, slightly changed".into());
        let en = if c.chance(1, 4) { gen_en(c) } else { like.en };
        let plan = if c.chance(1, 2) { like.plan.clone() } else { gen_plan(c, data.len(), &[], opt) };
        Part { data, cfg: like.cfg.clone(), en, plan, faults: vec![], acts: like.acts.clone(), lens, want: vec![] }
    } else if c.chance(1, 4) {
        // a custom type made of primitive calls
        let en = gen_en(c);
        let n = match c.weighted(&[6, 2]) {
            0 => c.idx(160),
            _ => c.idx(if tiny { 300 } else { 2000 }),
        };
        let data = fill_bytes(c, n);
        let acts = prims::draw_ops(c, &data, en.be(), 1 + c.idx(8)).into_iter().map(Act::Prim).collect();
        c.note(|| format!("calls: {acts:?}", acts = &acts as &Vec<Act>));
        let plan = gen_plan(c, n, &[], opt);
        Part { lens: vec![(0, n)], data, cfg: MCfg::plain(), en, plan, faults: vec![], acts, want: vec![] }
    } else {
        // often the same records under other settings, so that mix-ups show
        let (cfg, en) = match like {
            Some(p) if c.chance(1, 3) => (p.cfg.clone(), gen_en(c)),
            Some(p) if c.chance(1, 3) => (MCfg { sid_all: !p.cfg.sid_all, ..gen_cfg(c) }, p.en),
            _ => (gen_cfg(c), gen_en(c)),
        };
        let s = match tiny {
            true => gen_stream_opt(c, cfg, en, 2, GOpt { be: en.be(), maxvar: 40, odd: false }, &gen_ty),
            false => gen_stream(c, cfg, en, 3, false, &gen_ty),
        };
        let plan = gen_plan(c, s.data.len(), &s.cuts, opt);
        let acts = gen_ways(c, s.recs.len()).into_iter().map(Act::Rec).collect();
        let lens = s.at.iter().zip(&s.recs).map(|(&a, r)| (a + 8, a + r.bytes.len())).collect();
        Part { data: s.data, cfg: s.cfg, en, plan, faults: vec![], acts, lens, want: vec![] }
    };
    if c.chance(1, 5) {
        // this one meets a failure of its own
        let f = OffFault {
            at: c.idx(p.data.len() + 1),
            kind: gen_fk(c),
            tag: 1 + c.draw(1 << 40),
            times: c.pick(&[1, u64::MAX]),
        };
        c.note(|| format!("fault planned: {f:?}"));
        p.faults.push(f);
    }
    p
}

type Step<'a> = Box<dyn FnMut(Act, Option<&dyn Fn()>) -> Got + 'a>;

fn stepper<'p>(c: &Ctx, part: &Part, plan: &Plan, arena: &'p Arena, sh: &Rc<Shared>, shared: Option<&ParseConfig<Dynamic>>) -> Step<'p> {
    let (c2, sh2) = (c.clone(), sh.clone());
    let faults = part.faults.clone();
    let tap: Box<dyn ParseBuf<'p> + 'p> = match plan {
        Plan::Pieces { hint, .. } => {
            Box::new(Tap::new(SimBuf::new(arena, *hint, faults, sh.clone(), c.clone()), sh2, c2, true))
        }
        Plan::Slice { .. } if faults.is_empty() => Box::new(Tap::new(arena.slice(), sh2, c2, false)),
        Plan::Slice { .. } => {
            Box::new(Tap::new(SimBuf::new(arena, true, faults, sh.clone(), c.clone()), sh2, c2, true))
        }
        Plan::Reader(r) => {
            let rd = SimRead::new(part.data.clone(), r, faults, sh.clone(), c.clone());
            Box::new(Tap::new(BufReader::with_capacity(r.cap, rd), sh2, c2, false))
        }
    };
    fn go<'p, E: Endian + 'p>(b: DynBuf<'p>, cfg: ParseConfig<E>, sh: Rc<Shared>) -> Step<'p> {
        let mut p = Parser::new(b, cfg);
        Box::new(move |a, h| match a {
            Act::Rec(w) => next(&mut p, &sh, w, h),
            Act::Prim(op) => {
                let from = sh.pos.get();
                let out = match prims::call(&mut p, op, h) {
                    Ok(r) => Ok((vec![("value", r.v())], None)),
                    Err(e) => Err(err_info(&e)),
                };
                Got { out, from, to: sh.pos.get(), visits: None }
            }
        })
    }
    let b = DynBuf(tap);
    let cfg = &part.cfg;
    let sh = sh.clone();
    if let Some(pc) = shared {
        return go(b, pc.clone(), sh);
    }
    match part.en {
        En::Native => go(b, ParseConfig::<Native>::from(cfg.attr()), sh),
        En::Little => go(b, cfg_e(cfg, Little), sh),
        En::Big => go(b, ParseConfig::<Big>::from(cfg.attr()), sh),
        En::DynLittle => go(b, cfg_e(cfg, Dynamic::Little), sh),
        En::DynBig => go(b, cfg_e(cfg, Dynamic::Big), sh),
        En::OwnLittle => go(b, cfg_e(cfg, Own::LITTLE), sh),
        En::OwnBig => go(b, cfg_e(cfg, Own::BIG), sh),
    }
}

fn check(c: &Ctx, who: &str, part: &Part, got: &[Got]) -> Res {
    for (i, g) in got.iter().enumerate() {
        seen(c, g);
        let (at, end) = (part.want[i].from, part.want[i].to);
        if let Err((k, m)) = part.want[i].same(g) {
            return viol(k, format!("{who}, item {i} at byte {at}: {m}"));
        }
        if g.from != at || g.to != end {
            return viol("framing", format!("{who}, item {i} at {at}..{end}: parser went {}..{}", g.from, g.to));
        }
    }
    if got.len() != part.acts.len() {
        return viol("framing", format!("{who}: {} of {} items", got.len(), part.acts.len()));
    }
    Ok(())
}

fn shared_cfg(part: &Part) -> ParseConfig<Dynamic> {
    cfg_e(&part.cfg, if part.en.be() { Dynamic::Big } else { Dynamic::Little })
}

fn threads(c: &Ctx, parts: &[Part], mean: Option<u64>) -> Res {
    let num = c.pick(&[8u64, 4, 1]);
    // one configuration object, used by all that agree with it
    let share = c.chance(1, 2).then(|| shared_cfg(&parts[0]));
    let tasks: Vec<Box<dyn FnOnce(&sched::Sched) -> Vec<Got> + Send + '_>> = parts
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let c = c.clone();
            let fits = p.cfg == parts[0].cfg && p.en.be() == parts[0].en.be() && p.en.native() != p.en.be();
            let share = share.as_ref().filter(|_| fits);
            Box::new(move |s: &sched::Sched| {
                let arena = arena_of(&p.data, &p.plan);
                let sh = Shared::new();
                sh.budget.set(budget(p.data.len()) + 100 * p.acts.len() as u64);
                {
                    let (s, c) = (s.clone(), c.clone());
                    *sh.hook.borrow_mut() = Some(Box::new(move |_| s.yield_point(&c, i, num)));
                }
                let mut st = stepper(&c, p, &p.plan, &arena, &sh, share);
                let mut got = vec![];
                let stepper = mean.map(|m| step::Stepper::new(s, &c, i, m));
                for &w in &p.acts {
                    let (s2, c2) = (s.clone(), c.clone());
                    let vh = move || s2.yield_point(&c2, i, num);
                    got.push(match &stepper {
                        Some(t) => t.run(|| st(w, Some(&vh))),
                        None => st(w, Some(&vh)),
                    });
                    s.yield_point(&c, i, num);
                }
                drop(st);
                sh.hook.take();
                got
            }) as Box<dyn FnOnce(&sched::Sched) -> Vec<Got> + Send + '_>
        })
        .collect();
    let out = sched::run(c, tasks);
    for (i, (p, g)) in parts.iter().zip(&out).enumerate() {
        check(c, &format!("thread {i}"), p, g)?;
    }
    Ok(())
}

fn alternate(c: &Ctx, parts: &[Part]) -> Res {
    let arenas: Vec<Arena> = parts.iter().map(|p| arena_of(&p.data, &p.plan)).collect();
    let mut sts: Vec<Step> = parts
        .iter()
        .zip(&arenas)
        .map(|(p, a)| {
            let sh = Shared::new();
            sh.budget.set(budget(p.data.len()) + 100 * p.acts.len() as u64);
            stepper(c, p, &p.plan, a, &sh, None)
        })
        .collect();
    let mut got: Vec<Vec<Got>> = parts.iter().map(|_| vec![]).collect();
    loop {
        let open: Vec<usize> = (0..parts.len()).filter(|&i| got[i].len() < parts[i].acts.len()).collect();
        if open.is_empty() {
            break;
        }
        let i = open[c.idx(open.len())];
        let w = parts[i].acts[got[i].len()];
        c.fault(Fault::Preempt);
        c.ev(6, i as u64);
        c.note(|| format!("parser {i} parses"));
        let g = sts[i](w, None);
        got[i].push(g);
    }
    for (i, (p, g)) in parts.iter().zip(&got).enumerate() {
        check(c, &format!("parser {i}"), p, g)?;
    }
    Ok(())
}

fn nested(c: &Ctx, parts: Rc<Vec<Part>>) -> Res {
    let err: Rc<RefCell<Option<Viol>>> = Rc::default();
    let ran = Rc::new(Cell::new(0u32));
    // parser i may run all of parser i+1 inside one of its callbacks
    fn run_part(c: &Ctx, parts: &Rc<Vec<Part>>, i: usize, err: &Rc<RefCell<Option<Viol>>>, ran: &Rc<Cell<u32>>) -> Vec<Got> {
        let _h = alloc::harness();
        let p = &parts[i];
        let arena = arena_of(&p.data, &p.plan);
        let sh = Shared::new();
        sh.budget.set(budget(p.data.len()) + 100 * p.acts.len() as u64);
        let when: BTreeSet<u64> = (0..1 + c.idx(2)).map(|_| 1 + c.draw(20)).collect();
        let in_visit = c.chance(1, 2);
        let inner = {
            let (c, parts, err, ran) = (c.clone(), parts.clone(), err.clone(), ran.clone());
            move || {
                let _h = alloc::harness();
                if i + 1 >= parts.len() || ran.get() > 6 {
                    return;
                }
                ran.set(ran.get() + 1);
                c.fault(Fault::Nested);
                c.note(|| format!("parser {} runs inside parser {i}", i + 1));
                let g = run_part(&c, &parts, i + 1, &err, &ran);
                if let Err(v) = check(&c, &format!("parser {} (inside parser {i})", i + 1), &parts[i + 1], &g) {
                    err.borrow_mut().get_or_insert(v);
                }
                c.note(|| format!("back in parser {i}"));
            }
        };
        if !in_visit {
            let inner = inner.clone();
            *sh.hook.borrow_mut() = Some(Box::new(move |n| {
                if when.contains(&n) {
                    inner()
                }
            }));
        }
        let mut st = stepper(c, p, &p.plan, &arena, &sh, None);
        let mut got = vec![];
        for &w in &p.acts {
            got.push(st(w, if in_visit { Some(&inner) } else { None }));
        }
        drop(st);
        sh.hook.take();
        got
    }
    let g = run_part(c, &parts, 0, &err, &ran);
    if let Some(v) = err.borrow_mut().take() {
        return Err(v);
    }
    check(c, "outermost parser", &parts[0], &g)
}

pub fn c16(c: &Ctx) -> Res {
    let mode = c.weighted(&[150, 100, 150, 20]);
    let tiny = mode == 3;
    let n = 2 + c.idx(if tiny { 2 } else { 3 });
    let mut parts: Vec<Part> = vec![];
    for i in 0..n {
        c.note(|| format!("-- parser {i}"));
        let p = gen_part(c, parts.first(), tiny);
        parts.push(p);
    }
    for p in &mut parts {
        p.want = alone_fresh(c, p);
    }
    match mode {
        0 => threads(c, &parts, None),
        3 if step::available() => {
            let mean = c.pick(&[1000, 200, 50, 10, 3]);
            c.note(|| format!("preempted about every {mean} instructions"));
            threads(c, &parts, Some(mean))
        }
        1 | 3 => alternate(c, &parts),
        _ => nested(c, Rc::new(parts)),
    }
}
