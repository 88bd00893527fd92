//! C14: serialized attribute blocks and the configurations built from them.

use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::model::*;
use crate::refdec;
use crate::transport::*;
use perf_event_data::endian::{Big, Dynamic, Endian, Little, Native};
use perf_event_data::parse::{ParseBuf, ParseConfig, Parser};
use perf_event_open_sys::bindings::perf_event_attr;
use std::rc::Rc;

pub const SIZES: [u32; 9] = [64, 72, 80, 96, 104, 112, 120, 128, 136];

/// (name, offset, width) of every field of the block.
const FIELDS: &[(&str, usize, usize)] = &[
    ("type", 0, 4),
    ("size", 4, 4),
    ("config", 8, 8),
    ("sample_period", 16, 8),
    ("sample_type", 24, 8),
    ("read_format", 32, 8),
    ("flags", 40, 8),
    ("wakeup_events", 48, 4),
    ("bp_type", 52, 4),
    ("config1", 56, 8),
    ("config2", 64, 8),
    ("branch_sample_type", 72, 8),
    ("sample_regs_user", 80, 8),
    ("sample_stack_user", 88, 4),
    ("clockid", 92, 4),
    ("sample_regs_intr", 96, 8),
    ("aux_watermark", 104, 4),
    ("sample_max_stack", 108, 2),
    ("aux_sample_size", 112, 4),
    ("sig_data", 120, 8),
    ("config3", 128, 8),
];

fn observe(a: &perf_event_attr) -> Obs {
    let _h = alloc::harness();
    unsafe {
        vec![
            ("type", V::U(a.type_ as u64)),
            ("size", V::U(a.size as u64)),
            ("config", V::U(a.config)),
            ("sample_period", V::U(a.__bindgen_anon_1.sample_period)),
            ("sample_type", V::U(a.sample_type)),
            ("read_format", V::U(a.read_format)),
            ("flags", V::U(a._bitfield_1.get(0, 64))),
            ("wakeup_events", V::U(a.__bindgen_anon_2.wakeup_events as u64)),
            ("bp_type", V::U(a.bp_type as u64)),
            ("config1", V::U(a.__bindgen_anon_3.config1)),
            ("config2", V::U(a.__bindgen_anon_4.config2)),
            ("branch_sample_type", V::U(a.branch_sample_type)),
            ("sample_regs_user", V::U(a.sample_regs_user)),
            ("sample_stack_user", V::U(a.sample_stack_user as u64)),
            ("clockid", V::U(a.clockid as u32 as u64)),
            ("sample_regs_intr", V::U(a.sample_regs_intr)),
            ("aux_watermark", V::U(a.aux_watermark as u64)),
            ("sample_max_stack", V::U(a.sample_max_stack as u64)),
            ("aux_sample_size", V::U(a.aux_sample_size as u64)),
            ("sig_data", V::U(a.sig_data)),
            ("config3", V::U(a.config3)),
        ]
    }
}

/// What a block denotes: Ok((fields, bytes)) or the acceptable rejections.
pub fn expect(d: &[u8], be: bool) -> Result<(Obs, usize), u8> {
    let num = |o: usize, w: usize| {
        let mut v = 0u64;
        for i in 0..w {
            v = v << 8 | d[o + if be { i } else { w - 1 - i }] as u64;
        }
        v
    };
    if d.len() < 8 {
        return Err(refdec::EOF);
    }
    let size = num(4, 4) as usize;
    let short = size > d.len();
    if !SIZES.contains(&(size as u32)) && size <= 136 {
        return Err(if short { refdec::INV | refdec::EOF } else { refdec::INV });
    }
    if size > 136 && d[136.min(d.len())..size.min(d.len())].iter().any(|&b| b != 0) {
        return Err(if short { refdec::UDATA | refdec::EOF } else { refdec::UDATA });
    }
    if short {
        return Err(refdec::EOF);
    }
    let o = FIELDS
        .iter()
        .map(|&(k, o, w)| {
            let v = if o + w <= size { num(o, w) } else { 0 };
            (k, V::U(if k == "flags" { bits(v, be) } else { v }))
        })
        .collect();
    Ok((o, size))
}

/// A block of the given declared size carrying the configuration.
pub fn gen_block(c: &Ctx, cfg: &MCfg, be: bool, size: u32) -> Vec<u8> {
    let n = (size as usize).clamp(8, 600);
    let mut d = vec![0u8; n.max(136)];
    for &(k, o, w) in FIELDS {
        let v = match k {
            "size" => size as u64,
            "sample_type" => cfg.st,
            "read_format" => cfg.rf,
            "flags" => bits(c.draw(0) & !(1 << 18) | (cfg.sid_all as u64) << 18, be),
            "branch_sample_type" => cfg.bst_other & !(1 << 17) | (cfg.hw as u64) << 17,
            "sample_regs_user" => cfg.ru,
            "sample_regs_intr" => cfg.ri,
            _ => val64(c),
        };
        super::decode::put(&mut d, o, w, v, be);
    }
    // reserved words may hold anything
    if c.chance(1, 2) {
        super::decode::put(&mut d, 110, 2, c.draw(0), be);
        super::decode::put(&mut d, 116, 4, c.draw(0), be);
    }
    d.truncate(n);
    d
}

pub fn gen_size(c: &Ctx) -> u32 {
    match c.weighted(&[8, 3, 2, 1]) {
        0 => c.pick(&SIZES),
        1 => 137 + c.draw(300) as u32,
        2 => c.draw(137) as u32,
        _ => c.pick(&[u32::MAX, 1 << 31, 65536, 1 << 20]) - c.draw(3) as u32,
    }
}

pub struct AttrOut {
    pub attr: Result<(Obs, perf_event_attr), ErrInfo>,
    pub used: usize,
    /// what the parser finds after the block
    pub rest: Option<Result<Vec<u8>, ErrInfo>>,
}

pub struct AttrJob;
impl Job for AttrJob {
    type Out = AttrOut;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(
        &mut self,
        mut p: Parser<B, E>,
        sh: &Rc<Shared>,
        _: &refdec::Place,
    ) -> AttrOut {
        let _s = alloc::sut();
        let r = p.parse::<perf_event_attr>();
        let used = sh.pos.get();
        let attr = match r {
            Ok(a) => Ok((observe(&a), a)),
            Err(e) => Err(err_info(&e)),
        };
        let rest = attr.is_ok().then(|| match p.parse_rest() {
            Ok(b) => {
                let _h = alloc::harness();
                Ok(b.to_vec())
            }
            Err(e) => Err(err_info(&e)),
        });
        AttrOut { attr, used, rest }
    }
}

fn run_attr(c: &Ctx, d: &[u8], plan: &Plan, en: En) -> AttrOut {
    let sh = Shared::new();
    sh.budget.set(budget(d.len()));
    let cfg = MCfg::plain();
    drive(&Setup { c, data: d, plan, faults: &[], cfg: &cfg, en, sh: &sh }, &mut AttrJob)
}

fn gen_stream_with_block(c: &Ctx, en: En) -> (MCfg, u32, Vec<u8>, usize) {
    let cfg = gen_cfg_any(c);
    let size = gen_size(c);
    let mut d = gen_block(c, &cfg, en.be(), size);
    if size > 136 && c.chance(1, 3) && d.len() > 136 {
        let i = 136 + c.idx(d.len() - 136);
        d[i] = 1 + c.draw(255) as u8;
        c.note(|| format!("byte {i} of the unknown tail is not zero"));
    }
    if size > 136 {
        c.probe(Probe::AttrFuture);
    }
    let bl = d.len();
    let n = length(c, 64);
    let t = fill_bytes(c, n);
    d.extend(t);
    if c.chance(1, 5) {
        let n = c.idx(d.len() + 1);
        d.truncate(n);
        c.fault(Fault::Truncate);
        c.note(|| format!("stream cut to {n} bytes"));
    }
    c.note(|| format!("attribute block: declared size {size}, config {cfg:?}, {} bytes in all", d.len()));
    (cfg, size, d, bl)
}

/// C04 for attribute blocks: delivery does not change the outcome.
pub fn delivery(c: &Ctx) -> Res {
    let en = gen_en(c);
    let (_, _, d, bl) = gen_stream_with_block(c, en);
    let plan = gen_plan(c, d.len(), &[8, 64, 136, bl], PlanOpt::default());
    let a = c.quiet(|| run_attr(c, &d, &plain_plan(), en));
    let b = run_attr(c, &d, &plan, en);
    match (&a.attr, &b.attr) {
        (Ok(x), Ok(y)) => {
            if x.0 != y.0 {
                return viol("differs-value", format!("attribute block: {}", diff(&x.0, &y.0)));
            }
            if a.used != b.used {
                return viol("differs-position", format!("attribute block: {} and {} bytes", a.used, b.used));
            }
        }
        (Err(x), Err(y)) if x.kind == y.kind => (),
        (x, y) => {
            return viol(
                "differs-outcome",
                format!("attribute block: {:?} against {:?}", x.as_ref().map(|_| ()), y.as_ref().map(|_| ())),
            )
        }
    }
    match (&a.rest, &b.rest) {
        (None, None) => Ok(()),
        (Some(Ok(x)), Some(Ok(y))) if x == y => Ok(()),
        (x, y) => viol("differs-tail", format!("after the block: {x:?} against {y:?}")),
    }
}

fn check_config<E>(cfg: &ParseConfig<E>, m: &MCfg, what: &str) -> Res {
    let got = (
        cfg.sample_type().bits() & ST_ALL,
        cfg.read_format().bits() & RF_ALL,
        cfg.regs_user(),
        cfg.regs_intr(),
    );
    let want = (m.st & ST_ALL, m.rf & RF_ALL, m.ru, m.ri);
    if got != want {
        return viol("wrong-config", format!("{what}: expected {want:x?}, got {got:x?}"));
    }
    Ok(())
}

/// Change the byte order a few times; ends at `en` as a dynamic order.
fn reorder(c: &Ctx, a: perf_event_attr, m: &MCfg, be: bool) -> Result<ParseConfig<Dynamic>, Viol> {
    let last = if be { Dynamic::Big } else { Dynamic::Little };
    let base = ParseConfig::<Native>::from(a);
    check_config(&base, m, "configuration")?;
    let x = base.clone();
    let r = match c.idx(5) {
        0 => x.with_endian(last),
        1 => {
            let y = x.with_endian(Big);
            check_config(&y, m, "after with_endian(Big)")?;
            y.with_endian(last)
        }
        2 => {
            let y = x.with_endian(Little);
            check_config(&y, m, "after with_endian(Little)")?;
            y.with_endian(last)
        }
        3 => x.with_endian(Dynamic::Big).with_endian(Big).with_endian(Little).with_endian(last),
        _ => ParseConfig::<Big>::from(a).with_endian(Native).clone().with_endian(last),
    };
    check_config(&r, m, "after changing the byte order")?;
    check_config(&base, m, "original after changing a copy's byte order")?;
    Ok(r)
}

pub fn c14(c: &Ctx) -> Res {
    let en = gen_en(c);
    let (cfg, size, d, bl) = gen_stream_with_block(c, en);
    let plan = gen_plan(c, d.len(), &[8, 64, 136, bl], PlanOpt::default());
    let out = run_attr(c, &d, &plan, en);
    let want = expect(&d, en.be());
    c.ev(9, out.attr.is_ok() as u64);
    let a = match (out.attr, want) {
        (Ok((o, a)), Ok((w, used))) => {
            c.probe(Probe::RecordOk);
            if o != w {
                return viol("wrong-value", format!("size {size}: {}", diff(&w, &o)));
            }
            if out.used != used {
                return viol("framing", format!("block of {used} bytes, {} consumed", out.used));
            }
            match out.rest {
                Some(Ok(r)) if r == d[used..] => (),
                r => return viol("tail-damaged", format!("bytes after the block came back as {r:?}")),
            }
            a
        }
        (Err(e), Err(k)) => {
            c.probe(Probe::RecordErr);
            if e.kind & k == 0 {
                return viol("wrong-error", format!("size {size}: expected Err({}), got {}", refdec::kinds(k), e.text));
            }
            return Ok(());
        }
        (Ok(_), Err(k)) => {
            return viol("accepted-invalid", format!("size {size}, {} bytes: expected Err({})", d.len(), refdec::kinds(k)))
        }
        (Err(e), Ok(_)) => return viol("rejected-valid", format!("size {size}: {}", e.text)),
    };
    // the configuration as far as this block can express it
    let m = MCfg {
        hw: cfg.hw && size >= 80,
        ru: if size >= 96 { cfg.ru } else { 0 },
        ri: if size >= 104 { cfg.ri } else { 0 },
        ..cfg
    };
    if a.sample_id_all() != m.sid_all as u64 {
        return viol("wrong-value", format!("size {size}: sample_id_all is {}", a.sample_id_all()));
    }
    let pc = reorder(c, a, &m, en.be())?;
    // records under that configuration
    if m.rf & !RF_ALL != 0 || m.st & !ST_ALL != 0 || m.st & WEIGHT != 0 && m.st & WEIGHT_STRUCT != 0 {
        return Ok(());
    }
    // kinds whose layout the configuration decides
    let s = gen_stream(c, m, en, 2, false, &|c, m| match c.weighted(&[6, 2, 1, 1]) {
        1 if m.rf & RF_GROUP == 0 => T_READ,
        2 => T_LOST,
        3 => T_LOST_SAMPLES,
        _ => T_SAMPLE,
    });
    let ways = super::decode::gen_ways(c, s.recs.len());
    let plan = gen_plan(c, s.data.len(), &s.cuts, PlanOpt { aligned: true, no_reader: true, ..Default::default() });
    let arena = arena_of(&s.data, &plan);
    let sh = Shared::new();
    sh.budget.set(budget(s.data.len()));
    let hint = matches!(plan, Plan::Slice { .. } | Plan::Pieces { hint: true, .. });
    let buf = Tap::new(SimBuf::new(&arena, hint, vec![], sh.clone(), c.clone()), sh.clone(), c.clone(), true);
    let mut p = Parser::new(buf, pc);
    if matches!(p.endian(), Dynamic::Big) != en.be() {
        return viol("wrong-config", "byte order not kept".into());
    }
    check_config(p.config(), &s.cfg, "configuration inside the parser")?;
    let place = place_of(&arena, &plan, en, &[]);
    for (i, &w) in ways.iter().enumerate() {
        let g = next(&mut p, &sh, w, None);
        if g.from != s.at[i] {
            return viol("framing", format!("record expected at byte {}, parser at {}", s.at[i], g.from));
        }
        judge(c, &g, &s.data, en.be(), &s.cfg, &place, true)?;
    }
    Ok(())
}
