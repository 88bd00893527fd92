//! C05: framing, in streams and on a live ring buffer.

use super::decode::{corrupt, gen_ways};
use crate::ctx::*;
use crate::drive::*;
use crate::model::*;
use crate::refdec;
use crate::transport::*;
use std::collections::VecDeque;

fn set_size(b: &mut [u8], be: bool) {
    let n = b.len() as u16;
    let x = if be { n.to_be_bytes() } else { n.to_le_bytes() };
    b[6..8].copy_from_slice(&x);
}

struct It {
    b: Vec<u8>,
    /// outcome must equal that of the record alone
    exact: bool,
    what: &'static str,
}

fn mixed(c: &Ctx) -> Res {
    let mut cfg = gen_cfg_any(c);
    if c.chance(1, 4) {
        cfg.rf &= !RF_GROUP;
    }
    let en = gen_en(c);
    let mut go = gen_opt(c, en.be());
    go.odd = c.chance(1, 3);
    let mut items: Vec<It> = vec![];
    let mut stop = false;
    // now and then a long history, mostly of one sort
    let long = c.chance(1, 300);
    let (num, sort, kind) = if long {
        go.maxvar = 16;
        let kind = gen_ty(c, &cfg);
        (c.pick(&[270, 530, 1100]), c.pick(&[0, 0, 1, 2, 3, 3]), c.chance(1, 2).then_some(kind))
    } else {
        (1 + c.idx(7), 0, None)
    };
    for _ in 0..num {
        let ty = match kind {
            Some(t) if c.chance(7, 8) => t,
            _ => gen_ty(c, &cfg),
        };
        // misaligned word slices: only lengths are compared
        let words = matches!(ty, T_SAMPLE | T_NAMESPACES);
        let sort = if long && c.chance(15, 16) {
            sort
        } else {
            c.weighted(&[6, 2, 4, 5, !long as u64, !long as u64])
        };
        let it = match sort {
            0 => It { b: gen_record(c, &cfg, ty, go).bytes, exact: !(go.odd && words), what: "intact" },
            1 => {
                c.fault(Fault::UnknownKind);
                let t = c.pick(&[22u32, 0, 64, 65, 81, u32::MAX]);
                It { b: gen_record(c, &cfg, t, go).bytes, exact: true, what: "unknown kind" }
            }
            2 => {
                c.fault(Fault::TrailingBytes);
                let r = gen_record(c, &cfg, ty, go);
                let n = match (!long && c.chance(1, 6), go.odd) {
                    // much more than any kernel adds today
                    (true, odd) => {
                        let n = c.idx(4000).min(65000usize.saturating_sub(r.bytes.len()));
                        if odd { n } else { n / 8 * 8 }
                    }
                    (_, true) => 1 + c.idx(40),
                    (_, false) => 8 * (1 + c.idx(6)),
                };
                let mut b = r.bytes[..8 + r.body_len].to_vec();
                b.extend(fill_bytes(c, n));
                b.extend(&r.bytes[8 + r.body_len..]);
                set_size(&mut b, en.be());
                It { b, exact: !(go.odd && words), what: "extra trailing bytes" }
            }
            3 => {
                c.fault(Fault::MalformedBody);
                let r = gen_record(c, &cfg, ty, go);
                let mut b = r.bytes.clone();
                if c.chance(1, 2) {
                    let cn: Vec<_> = r.counts.iter().filter(|x| x.0 >= 8).map(|&(o, w, u)| (o - 8, w, u)).collect();
                    corrupt(c, &mut b[8..], &cn, en.be());
                } else {
                    // cut short, with the header saying so
                    let n = 8 + c.idx(b.len() - 7);
                    b.truncate(if go.odd { n } else { n / 8 * 8 });
                    set_size(&mut b, en.be());
                }
                It { b, exact: false, what: "malformed contents" }
            }
            4 => {
                c.probe(Probe::Big);
                let n = 65535 - 8 - c.idx(64);
                let n = if go.odd { n } else { n / 8 * 8 };
                let mut w = W { be: en.be(), ..W::default() };
                w.bytes(&fill_bytes(c, n));
                let t = c.pick(&[T_COMM, T_CGROUP, 99, T_MMAP, T_TEXT_POKE, T_KSYMBOL]);
                It { b: finish(w, t, 0, vec![], vec![], n).bytes, exact: false, what: "largest size" }
            }
            _ => {
                stop = true;
                c.fault(Fault::MalformedBody);
                let mut b = gen_record(c, &cfg, ty, go).bytes;
                let k = c.draw(8) as u16;
                let x = if en.be() { k.to_be_bytes() } else { k.to_le_bytes() };
                b[6..8].copy_from_slice(&x);
                It { b, exact: false, what: "size below the header's" }
            }
        };
        c.note(|| format!("record of {} bytes: {}", it.b.len(), it.what));
        items.push(it);
        if stop {
            break;
        }
    }
    let mut data = vec![];
    let mut cuts = vec![];
    for i in &items {
        cuts.extend([data.len(), data.len() + 8]);
        data.extend(&i.b);
    }
    cuts.push(data.len());
    let body_end = data.len();
    // leftover bytes that are no record
    let nt = c.idx(24);
    data.extend(fill_bytes(c, nt));
    let plan = gen_plan(c, data.len(), &cuts, PlanOpt { aligned: true, ..Default::default() });
    let ways = gen_ways(c, items.len());
    let (out, sh) = parse_n(c, &data, &plan, &[], &cfg, en, &ways, false, !stop);
    let _ = sh;
    let mut at = 0;
    for (i, (g, it)) in out.got.iter().zip(&items).enumerate() {
        seen(c, g);
        if stop && i + 1 == items.len() {
            if g.out.is_ok() {
                return viol("short-header-accepted", format!("record at byte {at} declares fewer than 8 bytes"));
            }
            return Ok(());
        }
        let end = at + it.b.len();
        if g.from != at || g.to != end {
            return viol(
                "framing",
                format!("record {i} ({}) occupies bytes {at}..{end}; parser went {}..{} ({})", it.what, g.from, g.to, show(g)),
            );
        }
        if it.exact {
            let a = alone(c, &it.b, &cfg, en, ways[i]);
            if let Err((k, m)) = same(&a, g, true) {
                return viol(k, format!("record {i} ({}) at byte {at}: {m}", it.what));
            }
            // and what its bytes denote
            let w = refdec::record(&it.b, 0, en.be(), &cfg, None);
            if let Err((k, m)) = matches(g, &w, true) {
                return viol(k, format!("record {i} ({}) at byte {at}: {m}", it.what));
            }
        }
        at = end;
    }
    match out.tail {
        Some(Ok(t)) if t == data[body_end..] => Ok(()),
        t => viol("tail-damaged", format!("{nt} leftover bytes came back as {t:?}")),
    }
}

// -------------------------------------------------------------- ring buffer

struct Ring {
    mem: Vec<u8>,
    head: u64,
    tail: u64,
}

impl Ring {
    fn free(&self) -> usize {
        self.mem.len() - (self.head - self.tail) as usize
    }
    fn push(&mut self, b: &[u8]) {
        let n = self.mem.len();
        for (i, &x) in b.iter().enumerate() {
            self.mem[(self.head as usize + i) % n] = x;
        }
        self.head += b.len() as u64;
    }
    /// The readable bytes and where they wrap.
    fn view(&self) -> (Vec<u8>, usize) {
        let n = self.mem.len();
        let len = (self.head - self.tail) as usize;
        let t = self.tail as usize % n;
        let first = len.min(n - t);
        let mut v = self.mem[t..t + first].to_vec();
        v.extend_from_slice(&self.mem[..len - first]);
        (v, first)
    }
}

fn lost_rec(c: &Ctx, cfg: &MCfg, be: bool, n: u64) -> Vec<u8> {
    let mut w = W { be, ..W::default() };
    w.u64(val64(c));
    w.u64(n);
    let l = w.b.len();
    gen_trailer(c, cfg, &mut w, T_LOST, 0);
    finish(w, T_LOST, 0, vec![], vec![], l).bytes
}

/// The count a LOST record carries.
fn lost_in(b: &[u8], cfg: &MCfg, be: bool) -> u64 {
    match refdec::record(b, 0, be, cfg, None).out {
        Ok((o, _)) => o.iter().find_map(|x| if let ("lost", V::U(n)) = x { Some(*n) } else { None }).unwrap_or(0),
        Err(_) => 0,
    }
}

fn ring(c: &Ctx) -> Res {
    let mut cfg = gen_cfg(c);
    if c.chance(1, 4) {
        cfg.rf &= !RF_GROUP;
    }
    let en = gen_en(c);
    let mut go = GOpt { be: en.be(), maxvar: c.pick(&[40usize, 200]), odd: false };
    go.odd = false;
    let size = 1usize << (9 + c.idx(5));
    c.note(|| format!("ring of {size} bytes; config {cfg:?}"));
    let mut r = Ring { mem: vec![0xEE; size], head: 0, tail: 0 };
    // start anywhere, as a long-running ring does
    let skip = 8 * c.idx(size / 8);
    r.head = skip as u64;
    r.tail = skip as u64;
    let mut queue: VecDeque<(Vec<u8>, bool)> = VecDeque::new();
    let (mut emitted, mut pending_lost, mut parsed, mut lost) = (0u64, 0u64, 0u64, 0u64);
    let steps = 4 + c.idx(14);
    let slow = c.pick(&[1u64, 3, 6]);
    for step in 0..=steps {
        let last = step == steps;
        if !last && c.draw(slow + 1) > 0 || step == 0 {
            // the kernel writes a burst
            for _ in 0..1 + c.idx(6) {
                let ty = match gen_ty(c, &cfg) {
                    T_LOST => T_LOST_SAMPLES,
                    t => t,
                };
                let b = gen_record(c, &cfg, ty, go).bytes;
                emitted += 1;
                let l = (pending_lost > 0).then(|| lost_rec(c, &cfg, en.be(), pending_lost));
                let need = b.len() + l.as_ref().map_or(0, |l| l.len());
                if need > r.free() {
                    pending_lost += 1;
                    c.fault(Fault::RingFull);
                    c.note(|| format!("record of {} bytes dropped: ring full", b.len()));
                    continue;
                }
                if let Some(l) = l {
                    r.push(&l);
                    queue.push_back((l, true));
                    pending_lost = 0;
                }
                c.note(|| format!("kernel writes type {ty}, {} bytes at {}", b.len(), r.head));
                r.push(&b);
                queue.push_back((b, false));
            }
            continue;
        }
        if queue.is_empty() {
            continue;
        }
        // the reader catches up, wholly or in part
        let k = if last || c.chance(1, 2) { queue.len() } else { 1 + c.idx(queue.len()) };
        let (data, first) = r.view();
        let hint = c.chance(1, 2);
        let mut spec = vec![];
        for l in [first, data.len() - first] {
            if l > 0 {
                spec.push(PieceSpec { len: l, ext: true, align: Some(0) });
            }
        }
        if spec.len() > 1 {
            c.fault(Fault::RingWrap);
        }
        let plan = Plan::Pieces { spec, hint };
        let ways = gen_ways(c, k);
        c.note(|| format!("reader takes {k} of {} records, {} bytes, wrap after {first}", queue.len(), data.len()));
        let (out, sh) = parse_n(c, &data, &plan, &[], &cfg, en, &ways, false, false);
        for (i, g) in out.got.iter().enumerate() {
            seen(c, g);
            let (b, is_lost) = queue.pop_front().expect("queued");
            if g.to - g.from != b.len() {
                return viol("framing", format!("record of {} bytes, {} consumed ({})", b.len(), g.to - g.from, show(g)));
            }
            let a = alone(c, &b, &cfg, en, ways[i]);
            if let Err((k, m)) = same(&a, g, true) {
                return viol(k, format!("record {i} of this round: {m}"));
            }
            // refused even when alone: still accounted for, if wrongly
            let Ok((o, _)) = &g.out else {
                parsed += !is_lost as u64;
                lost += if is_lost { lost_in(&b, &cfg, en.be()) } else { 0 };
                continue;
            };
            if is_lost {
                c.probe(Probe::LostRecords);
                match o.iter().find(|x| x.0 == "lost") {
                    Some((_, V::U(n))) => lost += n,
                    x => return viol("wrong-value", format!("loss count: {x:?}")),
                }
            } else {
                parsed += 1;
            }
        }
        r.tail += sh.pos.get() as u64;
        if r.tail > r.head {
            return viol("framing", "the reader overtook the writer".into());
        }
        c.fault(Fault::BufferReuse);
    }
    if r.tail != r.head || !queue.is_empty() {
        return viol("framing", "records left behind".into());
    }
    if parsed + lost + pending_lost != emitted {
        return viol("conservation", format!("{emitted} emitted, {parsed} parsed, {lost} reported lost, {pending_lost} not yet reported"));
    }
    Ok(())
}

pub fn c05(c: &Ctx) -> Res {
    if c.chance(1, 3) {
        ring(c)
    } else {
        mixed(c)
    }
}
