//! C15: groups of counters.

use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::model::*;
use crate::refdec::Place;
use crate::transport::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::{ParseBuf, Parser};
use perf_event_data::*;
use std::collections::VecDeque;
use std::rc::Rc;

type Ent = (u64, Option<u64>, Option<u64>);

fn ent(e: &GroupEntry) -> Ent {
    (e.value(), e.id(), e.lost())
}

#[derive(Clone)]
struct Want {
    te: Option<u64>,
    tr: Option<u64>,
    ents: Vec<Ent>,
}

fn bad<T>(class: &str, m: String) -> Result<T, Viol> {
    viol(class, m)
}

/// A number so large that an offset computed from it may wrap around.
fn far(c: &Ctx) -> usize {
    let k = 1 + c.idx(40);
    (usize::MAX / k).wrapping_mul(1 + c.idx(k)).wrapping_add(c.idx(4)).max((1u64 << 32).min(usize::MAX as u64) as usize)
}

/// One-shot views of a whole group.
fn whole(c: &Ctx, g: &ReadGroup, w: &Want) -> Res {
    let _h = alloc::harness();
    let n = w.ents.len();
    if g.len() != n || g.is_empty() != (n == 0) {
        return bad("wrong-length", format!("{n} counters written, len {} is_empty {}", g.len(), g.is_empty()));
    }
    if (g.time_enabled(), g.time_running()) != (w.te, w.tr) {
        return bad(
            "wrong-time",
            format!("expected {:?}/{:?}, got {:?}/{:?}", w.te, w.tr, g.time_enabled(), g.time_running()),
        );
    }
    let fwd: Vec<Ent> = g.entries().map(|e| ent(&e)).collect();
    if fwd != w.ents {
        return bad("wrong-entries", format!("expected {:x?}, got {fwd:x?}", w.ents));
    }
    let mut back: Vec<Ent> = g.entries().rev().map(|e| ent(&e)).collect();
    back.reverse();
    if back != w.ents {
        return bad("wrong-entries", "iterating backwards gives other entries".into());
    }
    let huge = far(c);
    for i in [0, n.wrapping_sub(1), n, n + 1, usize::MAX, c.idx(n + 2), huge] {
        let x = g.get(i).map(|e| ent(&e));
        if x != w.ents.get(i).copied() {
            return bad("wrong-index", format!("get({i}): expected {:x?}, got {x:x?}", w.ents.get(i)));
        }
    }
    let mut ids: Vec<u64> = w.ents.iter().filter_map(|e| e.1).collect();
    ids.truncate(6);
    ids.push(val64(c));
    // values and lost counts are no ids
    ids.extend(w.ents.iter().take(3).map(|e| e.0));
    ids.extend(w.ents.iter().take(3).filter_map(|e| e.2));
    for id in ids {
        let x = g.get_by_id(id).map(|e| ent(&e));
        let y = w.ents.iter().find(|e| e.1 == Some(id)).copied();
        if x != y {
            return bad("wrong-lookup", format!("get_by_id({id:#x}): expected {y:x?}, got {x:x?}"));
        }
    }
    Ok(())
}

/// A drawn history of double-ended iteration.
fn history(c: &Ctx, g: &ReadGroup, w: &Want) -> Res {
    let _s = alloc::sut();
    let mut its: Vec<(GroupIter, VecDeque<Ent>)> = vec![(g.entries(), w.ents.iter().copied().collect())];
    for step in 0..4 + c.idx(24) {
        let i = c.idx(its.len());
        let k = c.weighted(&[4, 4, 2, 2, 2, 1, 1, 1, 2, 1]);
        let n = if c.chance(1, 16) { far(c) } else { c.idx(its[i].1.len() + 3) };
        c.probe(Probe::GroupOps);
        c.ev(7, (k as u64) << 8 | n as u64);
        let names = ["next", "next_back", "nth", "nth_back", "len", "count", "last", "fold", "clone", "rev.nth"];
        c.note(|| format!("iterator {i}: {} {n}", names[k]));
        let (it, q) = &mut its[i];
        let (got, want): (Option<Ent>, Option<Ent>) = match k {
            0 => (it.next().map(|e| ent(&e)), q.pop_front()),
            1 => (it.next_back().map(|e| ent(&e)), q.pop_back()),
            2 => {
                let r = it.nth(n).map(|e| ent(&e));
                let m = n.min(q.len());
                q.drain(..m);
                (r, q.pop_front())
            }
            3 => {
                let r = it.nth_back(n).map(|e| ent(&e));
                let m = q.len().saturating_sub(n);
                q.truncate(m);
                (r, q.pop_back())
            }
            4 => {
                let (a, b) = (it.len(), it.size_hint());
                if a != q.len() || b != (q.len(), Some(q.len())) {
                    return bad("wrong-length", format!("{} entries left, len {a} hint {b:?}", q.len()));
                }
                (None, None)
            }
            5 => {
                let a = it.clone().count();
                if a != q.len() {
                    return bad("wrong-length", format!("{} entries left, count {a}", q.len()));
                }
                (None, None)
            }
            6 => (it.clone().last().map(|e| ent(&e)), q.back().copied()),
            7 => {
                let a: Vec<Ent> = it.clone().fold(vec![], |mut v, e| {
                    v.push(ent(&e));
                    v
                });
                if a.iter().ne(q.iter()) {
                    return bad("wrong-entries", format!("step {step}: expected {q:x?}, got {a:x?}"));
                }
                (None, None)
            }
            8 => {
                if its.len() < 4 {
                    let x = (its[i].0.clone(), its[i].1.clone());
                    its.push(x);
                }
                (None, None)
            }
            _ => {
                let r = it.clone().rev().nth(n).map(|e| ent(&e));
                (r, q.iter().rev().nth(n).copied())
            }
        };
        if got != want {
            return bad("wrong-entries", format!("step {step}: {} {n}: expected {want:x?}, got {got:x?}", names[k]));
        }
    }
    // fused at both ends
    for (mut it, q) in its {
        let a: Vec<Ent> = it.by_ref().map(|e| ent(&e)).collect();
        if a.iter().ne(q.iter()) {
            return bad("wrong-entries", format!("drained: expected {q:x?}, got {a:x?}"));
        }
        if it.next().is_some() || it.next_back().is_some() || it.len() != 0 {
            return bad("wrong-entries", "an exhausted iterator went on".into());
        }
    }
    Ok(())
}

fn single(v: &ReadValue) -> (u64, Option<u64>, Option<u64>, Option<u64>, Option<u64>) {
    (v.value(), v.time_enabled(), v.time_running(), v.id(), v.lost())
}

/// Group and single readings agree.
fn convert(c: &Ctx, g: &ReadGroup, w: &Want) -> Res {
    let _s = alloc::sut();
    for (i, e) in g.entries().enumerate().take(4) {
        let v = ReadValue::from_group_and_entry(g, &e);
        let x = w.ents[i];
        if single(&v) != (x.0, w.te, w.tr, x.1, x.2) {
            return bad("wrong-conversion", format!("entry {i} as a reading: {:x?} from {x:x?}", single(&v)));
        }
        as_group(c, v)?;
    }
    let r = ReadValue::try_from(g.clone());
    match (&r, w.ents.len()) {
        (Ok(v), 1) => {
            let x = w.ents[0];
            if single(v) != (x.0, w.te, w.tr, x.1, x.2) {
                return bad("wrong-conversion", format!("group of one as a reading: {:x?} from {x:x?}", single(v)));
            }
        }
        (Err(_), n) if n != 1 => (),
        (_, n) => return bad("wrong-conversion", format!("group of {n}: is_ok {}", r.is_ok())),
    }
    Ok(())
}

fn as_group(c: &Ctx, v: ReadValue) -> Res {
    let s = single(&v);
    let w = Want { te: s.1, tr: s.2, ents: vec![(s.0, s.3, s.4)] };
    let g: ReadGroup = v.into();
    whole(c, &g, &w)?;
    let r = ReadValue::try_from(g);
    match r {
        Ok(b) if single(&b) == s => Ok(()),
        Ok(b) => bad("wrong-conversion", format!("{s:x?} to a group and back: {:x?}", single(&b))),
        Err(_) => bad("wrong-conversion", "a reading's own group is refused".into()),
    }
}

struct G<'a> {
    c: &'a Ctx,
    want: Want,
    /// 0: bare group, 1: inside a sample
    how: usize,
    single: bool,
}

impl Job for G<'_> {
    type Out = Res;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(
        &mut self,
        mut p: Parser<B, E>,
        sh: &Rc<Shared>,
        _: &Place,
    ) -> Res {
        let c = self.c;
        if self.single {
            let r = {
                let _s = alloc::sut();
                p.parse::<ReadValue>()
            };
            let v = match r {
                Ok(v) => v,
                Err(e) => return bad("rejected-valid", format!("reading refused: {e:?}")),
            };
            let x = self.want.ents[0];
            if single(&v) != (x.0, self.want.te, self.want.tr, x.1, x.2) {
                return bad("wrong-value", format!("reading: {:x?} from {x:x?}", single(&v)));
            }
            return as_group(c, v);
        }
        let keep;
        let g: ReadGroup = if self.how == 0 {
            let r = {
                let _s = alloc::sut();
                p.parse::<ReadGroup>()
            };
            match r {
                Ok(g) => g,
                Err(e) => return bad("rejected-valid", format!("group refused: {e:?}")),
            }
        } else {
            let r = {
                let _s = alloc::sut();
                p.parse::<Record>()
            };
            match r {
                Ok(Record::Sample(s)) => {
                    keep = s;
                    match keep.values() {
                        Some(g) => g.clone(),
                        None => return bad("rejected-valid", "sample without its counters".into()),
                    }
                }
                Ok(_) => return bad("rejected-valid", "not a sample".into()),
                Err(e) => return bad("rejected-valid", format!("sample refused: {e:?}")),
            }
        };
        c.ev(9, sh.pos.get() as u64);
        c.probe(Probe::RecordOk);
        whole(c, &g, &self.want)?;
        history(c, &g, &self.want)?;
        convert(c, &g, &self.want)?;
        let o = {
            let _s = alloc::sut();
            g.clone().into_owned()
        };
        drop(g);
        whole(c, &o, &self.want)?;
        history(c, &o, &self.want)
    }
}

pub fn c15(c: &Ctx) -> Res {
    let en = gen_en(c);
    let mut cfg = MCfg { rf: c.draw(32) | RF_GROUP, ..MCfg::plain() };
    let single = c.chance(1, 5);
    let n = if single {
        cfg.rf &= !RF_GROUP;
        1
    } else {
        match c.weighted(&[2, 2, 5, 1]) {
            0 => 0,
            1 => 1,
            2 => 2 + c.idx(9),
            _ => c.idx(300),
        }
    };
    let how = if !single && c.chance(1, 3) { 1 } else { 0 };
    let mut w = W { be: en.be(), ..W::default() };
    let t = |f: u64| (cfg.rf & f != 0).then(|| val64(c));
    let (te, tr) = (t(RF_TE), t(RF_TR));
    let mut ents: Vec<Ent> = Vec::with_capacity(n);
    for _ in 0..n {
        let dup = !ents.is_empty() && c.chance(1, 6);
        let id = (cfg.rf & RF_ID != 0).then(|| if dup { ents[c.idx(ents.len())].1.unwrap_or(0) } else { val64(c) });
        let lost = (cfg.rf & RF_LOST != 0).then(|| val64(c));
        ents.push((val64(c), id, lost));
    }
    if single {
        w.u64(ents[0].0);
        te.into_iter().chain(tr).chain(ents[0].1).chain(ents[0].2).for_each(|v| w.u64(v));
    } else {
        w.u64(n as u64);
        te.into_iter().chain(tr).for_each(|v| w.u64(v));
        for e in &ents {
            w.u64(e.0);
            e.1.into_iter().chain(e.2).for_each(|v| w.u64(v));
        }
    }
    c.note(|| format!("read_format {:#x}, times {te:x?} {tr:x?}, counters {ents:x?}", cfg.rf));
    let mut data = w.b;
    if how == 1 {
        cfg.st = READ;
        let body = W { b: data, be: en.be(), counts: vec![] };
        let l = body.b.len();
        data = finish(body, T_SAMPLE, 0, vec![], vec![], l).bytes;
    } else if c.chance(1, 2) {
        // other data follows
        let m = 8 * c.idx(6);
        data.extend(fill_bytes(c, m));
    }
    let plan = gen_plan(c, data.len(), &[8, 16, 24], PlanOpt { aligned: true, ..Default::default() });
    let sh = Shared::new();
    sh.budget.set(budget(data.len()));
    let s = Setup { c, data: &data, plan: &plan, faults: &[], cfg: &cfg, en, sh: &sh };
    drive(&s, &mut G { c, want: Want { te, tr, ents }, how, single })
}
