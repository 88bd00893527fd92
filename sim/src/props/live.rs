//! C22: live sources, whose writer waits for the reader.

use super::attr;
use super::decode::{corrupt, gen_ways};
use super::parts::{self, Format, Part};
use super::prims::{self, Hist, Op};
use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::model::*;
use crate::refdec::{Place, Rd};
use crate::transport::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::{ParseBuf, Parser};
use perf_event_open_sys::bindings::perf_event_attr;
use std::rc::Rc;

/// The writer goes up to `end`; now and then it is ahead of the reader.
fn publish(c: &Ctx, sh: &Shared, end: usize, n: usize) {
    let mut to = end;
    if c.chance(1, 6) && end < n {
        to += 1 + c.idx((n - end).min(40));
    }
    // it takes nothing back
    if sh.live.get() == usize::MAX || to > sh.live.get() {
        sh.live.set(to);
    }
    c.ev(15, to as u64);
    c.note(|| format!("the writer is at byte {} and waits for the reader, who is at byte {}", sh.live.get(), sh.pos.get()));
}

/// A delivery that can wait.
fn waiting(c: &Ctx, n: usize, cuts: &[usize]) -> Plan {
    let p = gen_plan(c, n, cuts, PlanOpt { no_slice: true, aligned: true, eintr: true, ..Default::default() });
    c.fault(Fault::Withheld);
    p
}

fn num(d: &[u8], o: usize, w: usize, be: bool) -> usize {
    (0..w).fold(0, |v, i| v << 8 | d[o + if be { i } else { w - 1 - i }] as usize)
}

// ------------------------------------------------------------------ records

struct Records<'a> {
    c: &'a Ctx,
    d: &'a [u8],
    be: bool,
    ways: &'a [Way],
}
impl Job for Records<'_> {
    type Out = Vec<Got>;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, mut p: Parser<B, E>, sh: &Rc<Shared>, _: &Place) -> Vec<Got> {
        let mut v = vec![];
        sh.live.set(0);
        for &w in self.ways {
            let at = sh.pos.get();
            if at + 8 > self.d.len() {
                break;
            }
            let end = at + num(self.d, at + 6, 2, self.be).max(8);
            if end > self.d.len() {
                break;
            }
            publish(self.c, sh, end, self.d.len());
            v.push(next(&mut p, sh, w, None));
        }
        v
    }
}

fn records(c: &Ctx) -> Res {
    let mut cfg = gen_cfg(c);
    if c.chance(1, 4) {
        cfg.rf &= !RF_GROUP;
    }
    let en = gen_en(c);
    let mut s = gen_stream(c, cfg, en, 5, true, &gen_ty);
    if c.chance(1, 5) {
        corrupt(c, &mut s.data, &[], en.be());
    }
    let plan = waiting(c, s.data.len(), &s.cuts);
    let ways = gen_ways(c, s.recs.len());
    let base = undisturbed(c, &s, &plan, &ways);
    let sh = Shared::new();
    sh.budget.set(budget(s.data.len()) + 50 * ways.len() as u64);
    let st = Setup { c, data: &s.data, plan: &plan, faults: &[], cfg: &s.cfg, en, sh: &sh };
    let got = drive(&st, &mut Records { c, d: &s.data, be: en.be(), ways: &ways });
    for (i, (g, b)) in got.iter().zip(&base).enumerate() {
        seen(c, g);
        if b.out.is_ok() {
            if let Err((_, m)) = same(b, g, true) {
                return viol("complete-item-refused", format!("record {i} at byte {}, wholly delivered: {m}", g.from));
            }
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- parts

struct Live<'a> {
    c: &'a Ctx,
    f: &'a Format,
    /// the end of each part, and what it denotes
    ends: &'a [(usize, Obs)],
}
impl Job for Live<'_> {
    type Out = Res;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, mut p: Parser<B, E>, sh: &Rc<Shared>, _: &Place) -> Res {
        sh.live.set(0);
        for (part, (end, want)) in self.f.parts.iter().zip(self.ends) {
            let at = sh.pos.get();
            publish(self.c, sh, *end, self.f.data.len());
            let r = {
                let _s = alloc::sut();
                parts::take(&mut p, *part).map_err(|e| err_info(&e))
            };
            match r {
                Ok(o) if o == *want && sh.pos.get() == *end => self.c.probe(Probe::RecordOk),
                Ok(_) => return viol("complete-item-refused", format!("{part:?} at byte {at}: another value or position than its bytes denote")),
                Err(e) => return viol("complete-item-refused", format!("{part:?} at byte {at}, wholly delivered: {}", e.text)),
            }
        }
        Ok(())
    }
}

fn library_types(c: &Ctx) -> Res {
    let f = parts::gen_format(c);
    let be = f.en.be();
    let plan = waiting(c, f.data.len(), &f.cuts);
    let place = place_of(&arena_of(&f.data, &plan), &plan, f.en, &[]);
    let mut r = Rd::new(&f.data, be);
    let mut ends = vec![];
    for &p in &f.parts {
        // bodies that take the rest of the data have to wait for its end
        if matches!(p, Part::Body(t) if parts::REST.contains(&t)) {
            break;
        }
        // nor does this say anything about the recorded finding
        let mut alt = Rd { pos: r.pos, place: Some(&place), ..Rd::new(&f.data, be) };
        let _ = parts::want(&mut alt, p, &f.cfg, be);
        match parts::want(&mut r, p, &f.cfg, be) {
            Ok(o) if !alt.skipped => ends.push((r.pos, o)),
            _ => break,
        }
    }
    let sh = Shared::new();
    sh.budget.set(budget(f.data.len()));
    let s = Setup { c, data: &f.data, plan: &plan, faults: &[], cfg: &f.cfg, en: f.en, sh: &sh };
    drive(&s, &mut Live { c, f: &f, ends: &ends })
}

// -------------------------------------------------- attribute blocks, primitives

#[derive(Debug, Clone, Copy)]
enum It {
    Attr(usize),
    Op(Op, usize),
}
struct Items<'a> {
    c: &'a Ctx,
    items: &'a [It],
    n: usize,
}
impl Job for Items<'_> {
    type Out = Res;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, mut p: Parser<B, E>, sh: &Rc<Shared>, place: &Place) -> Res {
        sh.live.set(0);
        let c = self.c;
        for &it in self.items {
            let at = sh.pos.get();
            if let It::Op(Op::Slice(w, k) | Op::Direct(w, k), _) = it {
                if prims::skip_case(place, at, w, k) {
                    break;
                }
            }
            let len = match it {
                It::Attr(n) | It::Op(_, n) => n,
            };
            publish(c, sh, at + len, self.n);
            match it {
                It::Attr(_) => {
                    let r = {
                        let _s = alloc::sut();
                        p.parse::<perf_event_attr>().map(|_| ()).map_err(|e| err_info(&e))
                    };
                    c.note(|| format!("attribute block of {len} bytes: {:?}", r.as_ref().map_err(|e| &e.text)));
                    if r.is_err() {
                        break;
                    }
                }
                It::Op(op, _) => {
                    let r = prims::call(&mut p, op, None);
                    c.probe(Probe::PrimOps);
                    c.note(|| format!("{op:?}: {}", if r.is_ok() { "Ok" } else { "Err" }));
                    match r {
                        Err(e) => return viol("complete-item-refused", format!("{op:?} at byte {at}, wholly delivered: {e}")),
                        // a borrow may be declined, with nothing consumed
                        Ok(_) if sh.pos.get() != at + len => break,
                        Ok(_) => (),
                    }
                }
            }
        }
        Ok(())
    }
}

fn items(c: &Ctx) -> Res {
    let en = gen_en(c);
    let be = en.be();
    let (mut d, mut items, mut cuts) = (vec![], vec![], vec![]);
    let n = 1 + c.idx(8);
    for _ in 0..n {
        let at = d.len();
        cuts.push(at);
        if c.chance(1, 4) {
            let size = attr::gen_size(c);
            if size > 2000 {
                continue;
            }
            let mut b = attr::gen_block(c, &gen_cfg(c), be, size);
            b.resize((size as usize).max(8), 0);
            if c.chance(1, 6) {
                let i = 8 + c.idx(b.len() - 8 + 1);
                if i < b.len() {
                    b[i] ^= 1 << c.draw(8);
                    c.fault(Fault::BitFlip);
                }
            }
            items.push(It::Attr(b.len()));
            cuts.push(at + 8);
            d.extend(b);
        } else {
            let room = c.idx(300);
            let op = prims::gen_op(c, room);
            let b = fill_bytes(c, room);
            let m = Hist { c, d: &b, be, steps: 0 }.model(op, 0);
            match (op, m) {
                (Op::Rest | Op::RestTrim, _) | (_, None) => continue,
                (_, Some((_, k))) => {
                    items.push(It::Op(op, k));
                    d.extend_from_slice(&b[..k]);
                }
            }
        }
    }
    let extra = c.idx(20);
    d.extend(fill_bytes(c, extra));
    let cfg = MCfg::plain();
    c.note(|| format!("items {items:?}"));
    let plan = waiting(c, d.len(), &cuts);
    let sh = Shared::new();
    sh.budget.set(budget(d.len()) + 400);
    let s = Setup { c, data: &d, plan: &plan, faults: &[], cfg: &cfg, en, sh: &sh };
    drive(&s, &mut Items { c, items: &items, n: d.len() })
}

pub fn c22(c: &Ctx) -> Res {
    match c.weighted(&[3, 2, 2]) {
        0 => records(c),
        1 => library_types(c),
        _ => items(c),
    }
}
