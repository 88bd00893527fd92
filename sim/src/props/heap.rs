//! C11: the heap stays sound, also when the source or a visitor panics.

use super::copies;
use super::decode::corrupt;
use super::prims;
use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::model::*;
use crate::obs;
use crate::refdec::Place;
use crate::transport::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::{Parse, ParseBuf, ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_attr;
use std::cell::{Cell, RefCell};
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

const MADE: u64 = 0x6d61_6465_6279_7573;

thread_local! {
    /// elements alive, and elements dropped that were never made
    static OWNED: Cell<(i64, u64)> = const { Cell::new((0, 0)) };
}

/// A custom element that owns memory and notices when it is dropped without having been made.
#[derive(Debug)]
struct Owning(u64, ManuallyDrop<Vec<u8>>);

impl<'p> Parse<'p> for Owning {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        let n = p.parse_u8()? as usize % 5;
        let v = p.parse_bytes(n)?.into_owned();
        OWNED.with(|o| o.set((o.get().0 + 1, o.get().1)));
        Ok(Owning(MADE, ManuallyDrop::new(v)))
    }
}

impl Drop for Owning {
    fn drop(&mut self) {
        let made = std::mem::replace(&mut self.0, 0) == MADE;
        OWNED.with(|o| o.set((o.get().0 - made as i64, o.get().1 + !made as u64)));
        if made {
            unsafe { ManuallyDrop::drop(&mut self.1) }
        }
    }
}

/// Everything the caller could see of a history.
type Seen = Vec<String>;

struct Hist<'a> {
    c: &'a Ctx,
    log: &'a RefCell<Seen>,
    steps: usize,
    vis_panic: u64,
}

impl Job for Hist<'_> {
    type Out = Result<(), Viol>;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(
        &mut self,
        mut p: Parser<B, E>,
        sh: &Rc<Shared>,
        _: &Place,
    ) -> Self::Out {
        let c = self.c;
        // the text itself must be the harness's, not the library's
        macro_rules! say {
            ($($t:tt)*) => {{
                let _h = alloc::harness();
                self.log.borrow_mut().push(format!($($t)*));
            }};
        }
        let mut live: Vec<Record<'p>> = vec![];
        let visits = Cell::new(0u64);
        for _ in 0..self.steps {
            let k = c.weighted(&[5, 3, 2, 2, 3, 2, 2, 1]);
            c.ev(7, k as u64);
            match k {
                0 => {
                    let _s = alloc::sut();
                    match p.parse::<Record>() {
                        Ok(r) => {
                            let _h = alloc::harness();
                            c.probe(Probe::RecordOk);
                            say!("{:?}", obs::record(&r));
                            live.push(r);
                        }
                        Err(e) => {
                            let _h = alloc::harness();
                            c.probe(Probe::RecordErr);
                            say!("{:?}", e.kind());
                        }
                    }
                }
                1 => {
                    let hook = || {
                        let n = visits.get();
                        visits.set(n + 1);
                        if n == self.vis_panic {
                            c.fault(Fault::PanicVisitor);
                            c.note(|| "visitor panics".into());
                            std::panic::panic_any(Injected);
                        }
                    };
                    let w = c.pick(&[Way::Visitor, Way::HeaderVisitor, Way::MetaTyped]);
                    let g = next(&mut p, sh, w, Some(&hook));
                    say!("{:?}", g.out.as_ref().map_err(|e| e.kind));
                }
                2 if !live.is_empty() => {
                    let i = c.idx(live.len());
                    let _s = alloc::sut();
                    let r = live[i].clone();
                    let _h = alloc::harness();
                    live.push(r);
                }
                3 if !live.is_empty() => {
                    let i = c.idx(live.len());
                    let r = live.swap_remove(i);
                    let _s = alloc::sut();
                    drop(r);
                }
                4 if !live.is_empty() => {
                    let i = c.idx(live.len());
                    let r = live.swap_remove(i);
                    let o = copies::owned(c, r)?;
                    if let Some((o, _)) = o {
                        say!("{:?}", o.obs());
                        let d = o.dup();
                        let _s = alloc::sut();
                        if c.chance(1, 2) {
                            drop(o);
                            drop(d);
                        } else {
                            drop(d);
                            drop(o);
                        }
                    }
                }
                5 if !live.is_empty() => {
                    let i = c.idx(live.len());
                    let _s = alloc::sut();
                    let t = format!("{:?}", live[i]);
                    let n = t.len();
                    drop(t);
                    say!("text of {n} bytes: {:?}", obs::record(&live[i]));
                }
                6 => {
                    // primitives, with lengths that fit
                    let left = 40.min(sh.delivered.get().saturating_sub(sh.pos.get()) + 8);
                    let _s = alloc::sut();
                    match c.idx(6) {
                        4 => {
                            let n = c.idx(left + 1);
                            let r = p.parse_repeated::<Owning>(n);
                            let _h = alloc::harness();
                            say!("{:?}", r.as_ref().map(|v| v.iter().map(|o| o.1.to_vec()).collect::<Vec<_>>()).map_err(|e| e.kind()));
                            drop(_h);
                            drop(r);
                        }
                        0 => {
                            let n = c.idx(left + 1);
                            let r = p.parse_bytes(n);
                            say!("{:?}", r.as_ref().map_err(|e| e.kind()));
                        }
                        1 => {
                            let n = c.idx(left / 8 + 1);
                            let r = unsafe { p.parse_slice::<u64>(n) };
                            say!("{:?}", r.as_ref().map_err(|e| e.kind()));
                        }
                        2 => {
                            let n = c.idx(left / 2 + 1);
                            let r = p.parse_repeated::<u16>(n);
                            say!("{:?}", r.as_ref().map_err(|e| e.kind()));
                        }
                        3 => {
                            let r = p.parse::<[u8; 16]>();
                            say!("{:?}", r.as_ref().map_err(|e| e.kind()));
                        }
                        _ => {
                            let r = p.parse::<perf_event_attr>();
                            say!("{:?}", r.as_ref().map(|a| a.config).map_err(|e| e.kind()));
                        }
                    }
                }
                7 => {
                    let _s = alloc::sut();
                    let r = if c.chance(1, 2) { p.parse_rest() } else { p.parse_rest_trim_nul() };
                    say!("{:?}", r.as_ref().map_err(|e| e.kind()));
                }
                _ => (),
            }
        }
        // in some order, or all at once with the parser
        while live.len() > 1 && c.chance(1, 2) {
            let i = c.idx(live.len());
            let r = live.swap_remove(i);
            let _s = alloc::sut();
            drop(r);
        }
        Ok(())
    }
}

fn history(c: &Ctx, log: &RefCell<Seen>) -> Res {
    let en = gen_en(c);
    let cfg = gen_cfg_any(c);
    let s = gen_stream(c, cfg, en, 5, true, &gen_ty);
    let mut data = s.data.clone();
    if c.chance(1, 3) {
        corrupt(c, &mut data, &[], en.be());
    }
    if c.chance(1, 4) {
        let n = c.idx(data.len() + 1);
        data.truncate(n);
        c.fault(Fault::Truncate);
    }
    let plan = gen_plan(c, data.len(), &s.cuts, PlanOpt { eintr: true, ..Default::default() });
    let mut faults = vec![];
    if c.chance(1, 4) {
        let f = OffFault { at: c.idx(data.len() + 1), kind: gen_fk(c), tag: 7, times: 1 + c.draw(3) };
        c.note(|| format!("fault planned: {f:?}"));
        faults.push(f);
    }
    let sh = Shared::new();
    sh.budget.set(budget(data.len()) + 4000);
    let mut vis_panic = u64::MAX;
    match c.weighted(&[2, 3, 2, 2]) {
        0 => (),
        1 => {
            sh.panic_in.set(0);
            sh.panic_at.set(c.draw(30));
        }
        2 => {
            sh.panic_in.set(1);
            sh.panic_at.set(c.draw(30));
        }
        _ => vis_panic = c.draw(3),
    }
    let steps = 3 + c.idx(14);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let st = Setup { c, data: &data, plan: &plan, faults: &faults, cfg: &s.cfg, en, sh: &sh };
        drive(&st, &mut Hist { c, log, steps, vis_panic })
    }));
    match r {
        Ok(r) => r,
        Err(p) if p.is::<Injected>() => {
            c.probe(Probe::UnwoundRuns);
            log.borrow_mut().push("unwound".into());
            Ok(())
        }
        Err(p) => resume_unwind(p),
    }
}

fn audit(what: &str) -> Res {
    alloc::flush();
    let (n, bad) = OWNED.with(|o| o.replace((0, 0)));
    if bad != 0 {
        return viol("heap-damaged", format!("{what}: {bad} elements were dropped that were never made, or twice"));
    }
    if n != 0 {
        return viol("leak", format!("{what}: {n} elements were never dropped"));
    }
    let (live, blocks, errs, _) = alloc::status();
    if errs != 0 {
        let names = ["freed twice", "freed with another layout", "written past its end", "written before its start", "written after it was freed", "refused huge request"];
        let v: Vec<&str> = (0..6).filter(|i| errs >> i & 1 != 0).map(|i| names[i]).collect();
        return viol("heap-damaged", format!("{what}: a block was {}", v.join(", ")));
    }
    if live != 0 || blocks != 0 {
        return viol("leak", format!("{what}: {blocks} blocks ({live} bytes) still allocated after everything was dropped"));
    }
    Ok(())
}

pub fn c11(c: &Ctx) -> Res {
    let _ = prims::gen_op;
    let a = RefCell::new(vec![]);
    let b = RefCell::new(vec![]);
    let m = c.mark();
    alloc::begin(0x0101_0101_0101_0101);
    history(c, &a)?;
    audit("history")?;
    c.fault(Fault::HeapGarbage);
    let saved = c.rewind(m);
    alloc::begin(0xFEDC_BA98_7654_3210);
    let r = c.quiet(|| history(c, &b));
    c.resume(saved);
    r?;
    audit("same history, other garbage")?;
    let (a, b) = (a.into_inner(), b.into_inner());
    if a != b {
        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let cut = |s: Option<&String>| s.map(|s| s.chars().take(200).collect::<String>());
        return viol(
            "depends-on-garbage",
            format!("step {i} differs with the contents of fresh or freed memory: {:?} and {:?}", cut(a.get(i)), cut(b.get(i))),
        );
    }
    Ok(())
}
