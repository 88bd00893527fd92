//! C18: the building blocks offered to custom types.

use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::model::*;
use crate::refdec::Place;
use crate::transport::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::{Parse, ParseBuf, ParseResult, Parser};
use perf_event_open_sys::bindings::perf_event_header;
use std::rc::Rc;

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Op {
    Int(usize, bool),
    Arr(usize),
    Header,
    Bytes(usize),
    Rest,
    RestTrim,
    If(bool, usize),
    IfWith(bool, usize),
    With(usize),
    /// (width, count)
    Repeated(usize, usize),
    Slice(usize, usize),
    Direct(usize, usize),
}

/// What one call returned, as bytes in native order plus unit widths.
#[derive(Debug)]
pub enum R {
    Bytes(Vec<u8>),
    Nums(Vec<u64>),
    Nothing,
}

impl R {
    pub fn v(&self) -> V {
        match self {
            R::Bytes(b) => V::B(b.clone()),
            R::Nums(n) => V::W(n.clone()),
            R::Nothing => V::N,
        }
    }
}

fn nums<T: Copy + Into<u64>>(v: &[T]) -> R {
    let _h = alloc::harness();
    R::Nums(v.iter().map(|&x| x.into()).collect())
}
fn bytes(v: &[u8]) -> R {
    let _h = alloc::harness();
    R::Bytes(v.to_vec())
}

/// A custom element without contents.
#[derive(Copy, Clone, Debug)]
struct Unit;
impl<'p> Parse<'p> for Unit {
    fn parse<B: ParseBuf<'p>, E: Endian>(_: &mut Parser<B, E>) -> ParseResult<Self> {
        Ok(Unit)
    }
}

/// A custom element whose size is no power of two.
#[derive(Copy, Clone, Debug)]
#[repr(C)]
struct Three<T>(T, T, T);
impl<'p, T: Parse<'p>> Parse<'p> for Three<T> {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        Ok(Three(p.parse()?, p.parse()?, p.parse()?))
    }
}

fn count(v: &[Unit]) -> R {
    let _h = alloc::harness();
    R::Nums(vec![v.len() as u64])
}
fn words3<T: Copy + Into<u64>>(v: &[Three<T>]) -> R {
    let _h = alloc::harness();
    R::Nums(v.iter().flat_map(|x| [x.0, x.1, x.2]).map(|x| x.into()).collect())
}

/// The caller's own code running inside a parse.
fn pause(hook: Option<&dyn Fn()>) {
    if let Some(h) = hook {
        let _h = alloc::harness();
        h();
    }
}

pub fn call<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, op: Op, hook: Option<&dyn Fn()>) -> ParseResult<R> {
    let _s = alloc::sut();
    fn int<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, w: usize, direct: bool) -> ParseResult<R> {
        Ok(match (w, direct) {
            (1, true) => nums(&[p.parse_u8()?]),
            (2, true) => nums(&[p.parse_u16()?]),
            (4, true) => nums(&[p.parse_u32()?]),
            (_, true) => nums(&[p.parse_u64()?]),
            (1, _) => nums(&[p.parse::<u8>()?]),
            (2, _) => nums(&[p.parse::<u16>()?]),
            (4, _) => nums(&[p.parse::<u32>()?]),
            (_, _) => nums(&[p.parse::<u64>()?]),
        })
    }
    fn opt<T: Copy + Into<u64>>(o: Option<T>) -> R {
        o.map_or(R::Nothing, |x| nums(&[x]))
    }
    fn rep<'p, B: ParseBuf<'p>, E: Endian, T: Parse<'p> + Copy + Into<u64>>(
        p: &mut Parser<B, E>,
        n: usize,
    ) -> ParseResult<R> {
        Ok(nums(&p.parse_repeated::<T>(n)?))
    }
    Ok(match op {
        Op::Int(w, d) => int(p, w, d)?,
        Op::Arr(n) => match n {
            0 => bytes(&p.parse::<[u8; 0]>()?),
            1 => bytes(&p.parse::<[u8; 1]>()?),
            3 => bytes(&p.parse::<[u8; 3]>()?),
            5 => bytes(&p.parse::<[u8; 5]>()?),
            8 => bytes(&p.parse::<[u8; 8]>()?),
            16 => bytes(&p.parse::<[u8; 16]>()?),
            20 => bytes(&p.parse::<[u8; 20]>()?),
            _ => bytes(&p.parse::<[u8; 64]>()?),
        },
        Op::Header => {
            let h: perf_event_header = p.parse()?;
            nums(&[h.type_ as u64, h.misc as u64, h.size as u64])
        }
        Op::Bytes(n) => bytes(&p.parse_bytes(n)?),
        Op::Rest => bytes(&p.parse_rest()?),
        Op::RestTrim => bytes(&p.parse_rest_trim_nul()?),
        Op::If(c, w) => match w {
            1 => opt(p.parse_if::<u8>(c)?),
            2 => opt(p.parse_if::<u16>(c)?),
            4 => opt(p.parse_if::<u32>(c)?),
            _ => opt(p.parse_if::<u64>(c)?),
        },
        Op::IfWith(c, n) => p
            .parse_if_with(c, |p| {
                pause(hook);
                let b = p.parse_bytes(n)?;
                pause(hook);
                Ok(bytes(&b))
            })?
            .unwrap_or(R::Nothing),
        Op::With(w) => p.parse_with(|p| {
            pause(hook);
            int(p, w, true)
        })?,
        Op::Repeated(w, n) => match w {
            1 => rep::<_, _, u8>(p, n)?,
            2 => rep::<_, _, u16>(p, n)?,
            4 => rep::<_, _, u32>(p, n)?,
            8 => rep::<_, _, u64>(p, n)?,
            0 => count(&p.parse_repeated::<Unit>(n)?),
            12 => words3(&p.parse_repeated::<Three<u32>>(n)?),
            24 => words3(&p.parse_repeated::<Three<u64>>(n)?),
            _ => {
                let v = p.parse_repeated::<[u8; 3]>(n)?;
                let _h = alloc::harness();
                R::Bytes(v.concat())
            }
        },
        Op::Slice(w, n) => unsafe {
            match w {
                0 => count(&p.parse_slice::<Unit>(n)?),
                3 => bytes(p.parse_slice::<[u8; 3]>(n)?.as_flattened()),
                12 => words3(&p.parse_slice::<Three<u32>>(n)?),
                24 => words3(&p.parse_slice::<Three<u64>>(n)?),
                1 => nums(&p.parse_slice::<u8>(n)?),
                2 => nums(&p.parse_slice::<u16>(n)?),
                4 => nums(&p.parse_slice::<u32>(n)?),
                _ => nums(&p.parse_slice::<u64>(n)?),
            }
        },
        Op::Direct(w, n) => unsafe {
            match w {
                0 => p.parse_slice_direct::<Unit>(n)?.map_or(R::Nothing, count),
                3 => p.parse_slice_direct::<[u8; 3]>(n)?.map_or(R::Nothing, |v| bytes(v.as_flattened())),
                12 => p.parse_slice_direct::<Three<u32>>(n)?.map_or(R::Nothing, words3),
                24 => p.parse_slice_direct::<Three<u64>>(n)?.map_or(R::Nothing, words3),
                1 => p.parse_slice_direct::<u8>(n)?.map_or(R::Nothing, nums),
                2 => p.parse_slice_direct::<u16>(n)?.map_or(R::Nothing, nums),
                4 => p.parse_slice_direct::<u32>(n)?.map_or(R::Nothing, nums),
                _ => p.parse_slice_direct::<u64>(n)?.map_or(R::Nothing, nums),
            }
        },
    })
}

pub fn gen_op(c: &Ctx, left: usize) -> Op {
    let w = |c: &Ctx| c.pick(&[8usize, 4, 2, 1]);
    // mostly requests that fit, sometimes exactly the rest, sometimes too much
    let n = |c: &Ctx, unit: usize| match c.weighted(&[2, 6, 2, 1, 1, 2]) {
        0 => 0,
        5 => c.idx(left / unit + 1),
        1 => c.idx((left / unit).min(12) + 1),
        2 => left / unit,
        3 => left / unit + 1 + c.idx(3),
        _ => match c.idx(4) {
            0 => usize::MAX,
            1 => usize::MAX / unit,
            2 => usize::MAX / unit + (unit > 1) as usize,
            _ => 1usize << (20 + c.idx(43)),
        },
    };
    match c.weighted(&[6, 3, 1, 4, 1, 1, 2, 2, 1, 4, 5, 5]) {
        0 => Op::Int(w(c), c.chance(1, 2)),
        1 => Op::Arr(c.pick(&[8usize, 0, 1, 3, 5, 16, 20, 64])),
        2 => Op::Header,
        3 => Op::Bytes(n(c, 1)),
        4 => Op::Rest,
        5 => Op::RestTrim,
        6 => Op::If(c.chance(1, 2), w(c)),
        7 => Op::IfWith(c.chance(1, 2), n(c, 1)),
        8 => Op::With(w(c)),
        k => {
            let w = c.pick(&[8usize, 8, 4, 4, 2, 2, 1, 1, 3, 12, 24, 0]);
            // the work for elements without contents is not bounded by the data
            let n = if w == 0 { c.idx(3000) } else { n(c, w) };
            match k {
                9 => Op::Repeated(w, n),
                10 => Op::Slice(w, n),
                _ => Op::Direct(w, n),
            }
        }
    }
}

pub struct Hist<'a> {
    pub c: &'a Ctx,
    pub d: &'a [u8],
    pub be: bool,
    pub steps: usize,
}

impl Hist<'_> {
    fn num(&self, o: usize, w: usize) -> u64 {
        let mut v = 0u64;
        for i in 0..w {
            v = v << 8 | self.d[o + if self.be { i } else { w - 1 - i }] as u64;
        }
        v
    }
    fn seq(&self, o: usize, w: usize, n: usize) -> R {
        R::Nums((0..n).map(|i| self.num(o + i * w, w)).collect())
    }
    /// Expected result and length of the call at `o`; None: not enough data.
    pub fn model(&self, op: Op, o: usize) -> Option<(R, usize)> {
        let left = self.d.len() - o;
        let by = |n: usize| (n <= left).then(|| (R::Bytes(self.d[o..o + n].to_vec()), n));
        let sq = |w: usize, n: usize| {
            let t = n.checked_mul(w)?;
            (t <= left).then(|| (self.seq(o, w, n), t))
        };
        match op {
            Op::Int(w, _) | Op::With(w) => sq(w, 1),
            Op::Arr(n) => by(n),
            Op::Header => (8 <= left).then(|| {
                (R::Nums(vec![self.num(o, 4), self.num(o + 4, 2), self.num(o + 6, 2)]), 8)
            }),
            Op::Bytes(n) => by(n),
            Op::Rest => by(left),
            Op::RestTrim => {
                let mut s = &self.d[o..];
                while let Some((0, h)) = s.split_last() {
                    s = h;
                }
                Some((R::Bytes(s.to_vec()), left))
            }
            Op::If(false, _) | Op::IfWith(false, _) => Some((R::Nothing, 0)),
            Op::If(true, w) => sq(w, 1),
            Op::IfWith(true, n) => by(n),
            Op::Repeated(0, n) | Op::Slice(0, n) | Op::Direct(0, n) => Some((R::Nums(vec![n as u64]), 0)),
            Op::Repeated(3, n) | Op::Slice(3, n) | Op::Direct(3, n) => by(n.checked_mul(3)?),
            Op::Repeated(w @ (12 | 24), n) | Op::Slice(w @ (12 | 24), n) | Op::Direct(w @ (12 | 24), n) => {
                sq(w / 3, n.checked_mul(3)?)
            }
            Op::Repeated(w, n) | Op::Slice(w, n) | Op::Direct(w, n) => sq(w, n),
        }
    }
}

fn eq(a: &R, b: &R) -> bool {
    match (a, b) {
        (R::Bytes(a), R::Bytes(b)) => a == b,
        (R::Nums(a), R::Nums(b)) => a == b,
        (R::Nothing, R::Nothing) => true,
        _ => false,
    }
}

fn short(r: &R) -> String {
    let mut s = format!("{r:x?}");
    if s.len() > 160 {
        s.truncate(160);
        s.push('…');
    }
    s
}

/// A history of calls, mostly within the data.
pub fn draw_ops(c: &Ctx, d: &[u8], be: bool, max: usize) -> Vec<Op> {
    let h = Hist { c, d, be, steps: 0 };
    let (mut at, mut ops) = (0, vec![]);
    for _ in 0..max {
        let op = gen_op(c, d.len() - at);
        ops.push(op);
        match h.model(op, at) {
            Some((_, n)) => at += n,
            None => break,
        }
    }
    ops
}

/// A native-order request that one misaligned borrowed piece could satisfy.
pub fn skip_case(pl: &Place, o: usize, w: usize, n: usize) -> bool {
    let Some(t) = n.checked_mul(w) else { return false };
    let align = if w % 3 == 0 { (w / 3).max(1) } else { w };
    pl.native
        && t > 0
        && pl.ext.iter().any(|&(s, e, a)| s <= o && o < e && e - o >= t && (a + o - s) % align != 0)
}

impl Job for Hist<'_> {
    type Out = Res;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(
        &mut self,
        mut p: Parser<B, E>,
        sh: &Rc<Shared>,
        place: &Place,
    ) -> Res {
        let c = self.c;
        for _ in 0..self.steps {
            let at = sh.pos.get();
            let op = gen_op(c, self.d.len() - at);
            let r = call(&mut p, op, None);
            let to = sh.pos.get();
            c.probe(Probe::PrimOps);
            c.ev(8, (at as u64) << 20 ^ to as u64 ^ (r.is_ok() as u64) << 50);
            let want = self.model(op, at);
            c.note(|| {
                format!(
                    "{op:?} at byte {at} -> {} at byte {to}",
                    r.as_ref().map_or_else(|e| format!("{:?}", e.kind()), short)
                )
            });
            if to > self.d.len() {
                return viol("framing", format!("{op:?}: parser past the end"));
            }
            let bad = |class: &str, m: String| {
                Err(Viol { class: class.into(), msg: format!("{op:?} at byte {at}: {m}") })
            };
            // declining to borrow is always allowed, and consumes nothing
            if let (Op::Direct(w, n), Ok(R::Nothing)) = (op, &r) {
                c.probe(Probe::DeclinedBorrow);
                if to != at {
                    if skip_case(place, at, w, n) && to - at == n * w {
                        c.check_known(Viol {
                            class: KF_SKIP.into(),
                            msg: format!("{op:?} at byte {at}: declined, yet {} bytes consumed", to - at),
                        })?;
                        continue;
                    }
                    return bad("declined-but-consumed", format!("{} bytes consumed", to - at));
                }
                continue;
            }
            match (&r, &want) {
                (Ok(g), Some((x, n))) => {
                    let ok = eq(g, x);
                    if ok && to - at == *n {
                        if matches!(op, Op::Direct(..)) {
                            c.probe(Probe::BorrowedSlice);
                        }
                        continue;
                    }
                    // the known finding: skipped, then read from what follows
                    if let Op::Slice(w, k) = op {
                        if skip_case(place, at, w, k) {
                            if let Some((y, m)) = self.model(op, at + n) {
                                if eq(g, &y) && to - at == n + m {
                                    c.check_known(Viol {
                                        class: KF_SKIP.into(),
                                        msg: format!("{op:?} at byte {at}: returned the bytes after those requested"),
                                    })?;
                                    continue;
                                }
                            }
                        }
                    }
                    if !ok {
                        return bad("wrong-value", format!("expected {}, got {}", short(x), short(g)));
                    }
                    return bad("framing", format!("{n} bytes returned, {} consumed", to - at));
                }
                (Err(e), None) => {
                    let k = kind_bit(e.kind());
                    let over = match op {
                        Op::Slice(w, n) | Op::Direct(w, n) => n.checked_mul(w).is_none(),
                        _ => false,
                    };
                    let allow = crate::refdec::EOF | if over { crate::refdec::INV } else { 0 };
                    if over {
                        c.probe(Probe::OverflowLen);
                    }
                    if k & allow == 0 {
                        return bad("wrong-error", format!("{:?}", e.kind()));
                    }
                    return Ok(());
                }
                (Ok(g), None) => return bad("invented-data", short(g)),
                (Err(e), Some((_, n))) => {
                    if let Op::Slice(w, k) = op {
                        if skip_case(place, at, w, k) && self.model(op, at + n).is_none() {
                            return c.check_known(Viol {
                                class: KF_SKIP.into(),
                                msg: format!("{op:?} at byte {at}: skipped, then out of data"),
                            });
                        }
                    }
                    return bad("rejected-valid", format!("{n} bytes were there: {:?}", e.kind()));
                }
            }
        }
        Ok(())
    }
}

pub fn c18(c: &Ctx) -> Res {
    let en = gen_en(c);
    let n = match c.weighted(&[30, 180, 90, 30, 1]) {
        0 => c.idx(8),
        1 => c.idx(120),
        2 => c.idx(600),
        3 => c.idx(20000),
        _ => c.idx(400_000),
    };
    let mut d = fill_bytes(c, n);
    if c.chance(1, 3) && n > 0 {
        // a stretch of NULs for the trimming
        let i = c.idx(n);
        let e = if c.chance(1, 2) { n } else { (i + c.idx(40)).min(n) };
        d[i..e].iter_mut().for_each(|b| *b = 0);
    }
    let plan = gen_plan(c, n, &[], PlanOpt::default());
    c.note(|| format!("{n} bytes of data"));
    let sh = Shared::new();
    let steps = 1 + c.idx(if n > 20000 { 6 } else { 24 });
    sh.budget.set(budget(n) + 100 * steps as u64);
    let cfg = MCfg::plain();
    let s = Setup { c, data: &d, plan: &plan, faults: &[], cfg: &cfg, en, sh: &sh };
    drive(&s, &mut Hist { c, d: &d, be: en.be(), steps })
}
