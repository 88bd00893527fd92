//! Cooperative scheduling of real threads.
//!
//! Every task is an operating-system thread, but only the one holding the
//! baton runs.  The baton changes hands only at source calls and callbacks
//! (the seams), and who gets it next is drawn from the run's choices.

use crate::ctx::{Ctx, Fault};
use std::any::Any;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

struct St {
    turn: usize,
    done: Vec<bool>,
}

#[derive(Clone)]
pub struct Sched(Arc<(Mutex<St>, Condvar)>);

impl Sched {
    pub fn new(n: usize) -> Sched {
        Sched(Arc::new((Mutex::new(St { turn: 0, done: vec![false; n] }), Condvar::new())))
    }

    fn wait(&self, me: usize) {
        let mut g = self.0 .0.lock().unwrap_or_else(|e| e.into_inner());
        while g.turn != me {
            g = self.0 .1.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }

    fn give(&self, to: usize) {
        self.0 .0.lock().unwrap_or_else(|e| e.into_inner()).turn = to;
        self.0 .1.notify_all();
    }

    fn others(&self, me: usize) -> Vec<usize> {
        let g = self.0 .0.lock().unwrap_or_else(|e| e.into_inner());
        (0..g.done.len()).filter(|&i| i != me && !g.done[i]).collect()
    }

    /// A scheduling point of task `me`.
    pub fn yield_point(&self, c: &Ctx, me: usize, num: u64) {
        let o = self.others(me);
        if o.is_empty() || !c.chance(num, 8) {
            return;
        }
        let to = o[c.idx(o.len())];
        c.fault(Fault::Preempt);
        c.ev(6, (me as u64) << 8 | to as u64);
        c.note(|| format!("task {me} preempted, task {to} runs"));
        self.give(to);
        self.wait(me);
    }

    /// Hand the baton to another task; false if there is none.
    pub fn switch(&self, c: &Ctx, me: usize) -> bool {
        let o = self.others(me);
        if o.is_empty() {
            return false;
        }
        let to = o[c.idx(o.len())];
        c.ev(6, (me as u64) << 8 | to as u64);
        self.give(to);
        self.wait(me);
        true
    }

    fn finish(&self, c: &Ctx, me: usize) {
        self.0 .0.lock().unwrap_or_else(|e| e.into_inner()).done[me] = true;
        let o = self.others(me);
        c.note(|| format!("task {me} finishes"));
        if !o.is_empty() {
            let to = o[c.idx(o.len())];
            self.give(to);
        }
    }
}

/// Run the tasks to completion; the first one starts.  A panic in a task is
/// raised again once all have ended.
pub fn run<T: Send>(c: &Ctx, tasks: Vec<Box<dyn FnOnce(&Sched) -> T + Send + '_>>) -> Vec<T> {
    let s = Sched::new(tasks.len());
    let res: Vec<Result<T, Box<dyn Any + Send>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = tasks
            .into_iter()
            .enumerate()
            .map(|(i, t)| {
                let (s, c) = (s.clone(), c.clone());
                sc.spawn(move || {
                    s.wait(i);
                    let r = catch_unwind(AssertUnwindSafe(|| t(&s)));
                    s.finish(&c, i);
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("task")).collect()
    });
    let mut out = Vec::with_capacity(res.len());
    let mut bad = None;
    for r in res {
        match r {
            Ok(x) => out.push(x),
            Err(p) => bad = bad.or(Some(p)),
        }
    }
    if let Some(p) = bad {
        resume_unwind(p)
    }
    out
}
