//! The seams: everything a parser can read from, under the simulator's control.

use crate::alloc;
use crate::ctx::{Ctx, Fault, Injected, OverBudget};
use crate::refdec::Place;
use perf_event_data::parse::{ParseBuf, ParseBufChunk, ParseError, ParseResult};
use std::cell::{Cell, RefCell};
use std::io;
use std::rc::Rc;

/// An error raised by a simulated source, recognisable by its tag.
#[derive(Debug)]
pub struct SimErr(pub u64);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated source error {}", self.0)
    }
}
impl std::error::Error for SimErr {}

/// Payload: the library advanced a source past its end.
pub struct PastEnd;

/// Payload: a live source was asked for a byte its writer will not write before the reader is done
/// with the item; the reader would wait for ever.
pub struct Blocked(pub usize);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FK {
    /// a clean end of data
    Eof,
    /// an io::Error of kind UnexpectedEof
    UnexpectedEof,
    /// an io::Error of another kind
    Io(io::ErrorKind),
    /// an error type of the source's own
    Custom,
    /// a raw OS error code (carries no payload)
    Os(i32),
    /// a boxed error
    Boxed,
    /// an error of the source's own that wraps an unexpected end somewhere else
    Nested,
}

pub const IO_KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::InvalidData,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::NotFound,
    io::ErrorKind::WriteZero,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::ConnectionAborted,
];

pub fn gen_fk(c: &Ctx) -> FK {
    match c.weighted(&[3, 2, 5, 2, 2, 1, 1]) {
        5 => FK::Boxed,
        6 => FK::Nested,
        0 => FK::Eof,
        1 => FK::UnexpectedEof,
        2 => FK::Io(c.pick(IO_KINDS)),
        3 => FK::Custom,
        _ => FK::Os(c.pick(&[5, 11, 104, 110, 28])),
    }
}

impl FK {
    pub fn io(self, tag: u64) -> io::Error {
        match self {
            FK::Eof | FK::UnexpectedEof => io::Error::new(io::ErrorKind::UnexpectedEof, SimErr(tag)),
            FK::Io(k) => io::Error::new(k, SimErr(tag)),
            FK::Custom | FK::Boxed | FK::Nested => io::Error::new(io::ErrorKind::Other, SimErr(tag)),
            FK::Os(n) => io::Error::from_raw_os_error(n),
        }
    }
    pub fn parse_error(self, tag: u64) -> ParseError {
        match self {
            FK::Eof => ParseError::eof(),
            FK::Custom => ParseError::new(SimErr(tag)),
            FK::Boxed => {
                let b: Box<dyn std::error::Error + Send + Sync> = Box::new(SimErr(tag));
                b.into()
            }
            FK::Nested => ParseError::new(FK::UnexpectedEof.io(tag)),
            k => k.io(tag).into(),
        }
    }
    pub fn is_eof(self) -> bool {
        matches!(self, FK::Eof | FK::UnexpectedEof)
    }
    pub fn count(self, c: &Ctx) {
        c.fault(match self {
            FK::Eof => Fault::Truncate,
            FK::UnexpectedEof => Fault::UnexpectedEof,
            _ => Fault::IoError,
        })
    }
}

/// A failure of the source when it is asked for the byte at `at`.
#[derive(Clone, Copy, Debug)]
pub struct OffFault {
    pub at: usize,
    pub kind: FK,
    pub tag: u64,
    /// how many times it fails before recovering
    pub times: u64,
}

/// Memory holding a stream: each piece at a chosen alignment.
pub struct Arena {
    mem: RefCell<Vec<u64>>,
    pub pieces: Vec<Piece>,
    pub len: usize,
}

#[derive(Clone, Debug)]
pub struct Piece {
    pub start: usize,
    pub end: usize,
    pub ext: bool,
    /// byte offset in the arena
    pub off: usize,
}

#[derive(Clone, Debug)]
pub struct PieceSpec {
    pub len: usize,
    pub ext: bool,
    /// address modulo 8; None: directly after the previous piece
    pub align: Option<usize>,
}

impl Arena {
    pub fn new(data: &[u8], spec: &[PieceSpec]) -> Arena {
        let mut pieces = Vec::with_capacity(spec.len());
        let (mut start, mut off) = (0, 0);
        for s in spec {
            if let Some(a) = s.align {
                off = (off + 7) / 8 * 8 + 8 + a;
            }
            pieces.push(Piece { start, end: start + s.len, ext: s.ext, off });
            start += s.len;
            off += s.len;
        }
        assert_eq!(start, data.len(), "pieces do not cover the stream");
        let mut mem = vec![0x5A5A_5A5A_5A5A_5A5Au64; off / 8 + 2];
        {
            let b = unsafe {
                std::slice::from_raw_parts_mut(mem.as_mut_ptr() as *mut u8, mem.len() * 8)
            };
            for p in &pieces {
                b[p.off..p.off + p.end - p.start].copy_from_slice(&data[p.start..p.end]);
            }
        }
        Arena { mem: RefCell::new(mem), pieces, len: data.len() }
    }

    fn bytes(&self) -> &[u8] {
        // The cell is only written through `overwrite`, which needs &mut.
        unsafe {
            let v = &*self.mem.as_ptr();
            std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * 8)
        }
    }

    /// Overwrite all of the memory (nothing borrowed may be alive).
    pub fn overwrite(&mut self, v: u64) {
        self.mem.get_mut().iter_mut().for_each(|w| *w = v)
    }

    /// The whole stream as one slice; only for single-piece arenas.
    pub fn slice(&self) -> &[u8] {
        match &self.pieces[..] {
            [] => &[],
            [p] => &self.bytes()[p.off..p.off + p.end - p.start],
            _ => panic!("not contiguous"),
        }
    }

    pub fn place(&self, native: bool, is_slice: bool) -> Place {
        Place {
            native,
            ext: self
                .pieces
                .iter()
                .filter(|p| p.ext || is_slice)
                .map(|p| (p.start, p.end, p.off % 8))
                .collect(),
        }
    }
}

/// What the harness sees of a source while a parser owns it.
#[derive(Default)]
pub struct Shared {
    pub pos: Cell<usize>,
    pub calls: Cell<u64>,
    pub chunks: Cell<u64>,
    /// bytes handed out at least once
    pub delivered: Cell<usize>,
    /// the largest remaining length the source (truthfully) declared
    pub declared: Cell<usize>,
    pub budget: Cell<u64>,
    pub fired: Cell<u64>,
    pub last_fault: Cell<Option<(usize, FK, u64)>>,
    /// call index (chunk calls) at which to panic; u64::MAX: never
    pub panic_at: Cell<u64>,
    pub panic_in: Cell<u8>,
    pub adv_calls: Cell<u64>,
    /// transient failures: (chunk call index, kind, tag)
    pub transient: RefCell<Vec<(u64, FK, u64)>>,
    pub hook: RefCell<Option<Box<dyn FnMut(u64)>>>,
    /// what the harness sees of the latest clone of this source
    pub child: RefCell<Option<Rc<Shared>>>,
    /// how far the writer of a live source has come
    pub live: Cell<usize>,
}

impl Shared {
    pub fn new() -> Rc<Shared> {
        let s = Shared::default();
        s.budget.set(u64::MAX);
        s.panic_at.set(u64::MAX);
        s.live.set(usize::MAX);
        Rc::new(s)
    }
    pub fn seen(&self, end: usize) {
        if end > self.delivered.get() {
            self.delivered.set(end);
        }
    }
}

/// A source delivering pieces, with failures at chosen offsets.
#[derive(Clone)]
pub struct SimBuf<'p> {
    a: &'p Arena,
    cur: usize,
    pos: usize,
    hint: bool,
    faults: Vec<OffFault>,
    scratch: Vec<u8>,
    scratch_at: Option<usize>,
    sh: Rc<Shared>,
    c: Ctx,
}

impl<'p> SimBuf<'p> {
    pub fn new(a: &'p Arena, hint: bool, faults: Vec<OffFault>, sh: Rc<Shared>, c: Ctx) -> Self {
        SimBuf { a, cur: 0, pos: 0, hint, faults, scratch: Vec::new(), scratch_at: None, sh, c }
    }
}

unsafe impl<'p> ParseBuf<'p> for SimBuf<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        while self.cur < self.a.pieces.len() && self.a.pieces[self.cur].end <= self.pos {
            self.cur += 1;
        }
        let pos = self.pos;
        if pos >= self.sh.live.get() {
            std::panic::panic_any(Blocked(pos));
        }
        if let Some(f) = self.faults.iter_mut().find(|f| f.at == pos && f.times > 0) {
            f.times = f.times.saturating_sub(1);
            self.sh.last_fault.set(Some((f.at, f.kind, f.tag)));
            self.sh.fired.set(self.sh.fired.get() + 1);
            f.kind.count(&self.c);
            let (k, t) = (f.kind, f.tag);
            self.c.note(|| format!("source fails at byte {pos}: {k:?}"));
            return Err(k.parse_error(t));
        }
        let Some(p) = self.a.pieces.get(self.cur) else {
            return Err(ParseError::eof());
        };
        // a fault ahead inside this piece cuts the piece there
        let mut end = p.end.min(self.sh.live.get());
        for f in &self.faults {
            if f.times > 0 && f.at > pos && f.at < end {
                end = f.at;
            }
        }
        let b = &self.a.bytes()[p.off + pos - p.start..p.off + end - p.start];
        self.sh.seen(end);
        if p.ext {
            Ok(ParseBufChunk::External(b))
        } else {
            if self.scratch_at != Some(pos) || self.scratch.len() != b.len() {
                self.scratch = b.to_vec();
                self.scratch_at = Some(pos);
            }
            Ok(ParseBufChunk::Temporary(&self.scratch))
        }
    }

    fn advance(&mut self, n: usize) {
        if n > self.a.len - self.pos {
            std::panic::panic_any(PastEnd);
        }
        self.pos += n;
        if n > 0 {
            // temporary data dies on advance
            self.scratch.iter_mut().for_each(|b| *b = !*b);
            self.scratch_at = None;
        }
    }

    fn remaining_hint(&self) -> Option<usize> {
        self.hint.then(|| self.a.len - self.pos)
    }
}

/// Wraps any source: counts, enforces the call budget, injects panics and
/// transient failures, gives the scheduler and nested parsers a foothold.
pub struct Tap<B> {
    inner: B,
    sh: Rc<Shared>,
    c: Ctx,
    sim: bool,
}

impl<B> Tap<B> {
    pub fn new(inner: B, sh: Rc<Shared>, c: Ctx, sim: bool) -> Self {
        Tap { inner, sh, c, sim }
    }
    fn tick(&self, what: u8) {
        let n = self.sh.calls.get() + 1;
        self.sh.calls.set(n);
        if n > self.sh.budget.get() {
            std::panic::panic_any(OverBudget);
        }
        let idx = match what {
            0 => self.sh.chunks.get(),
            1 => self.sh.adv_calls.get(),
            _ => return,
        };
        if self.sh.panic_in.get() == what && idx == self.sh.panic_at.get() {
            self.c.fault(Fault::PanicSource);
            self.c.note(|| format!("source panics in call {what}/{idx}"));
            std::panic::panic_any(Injected);
        }
        // take the hook out while it runs: it may parse with other sources
        if let Some(mut h) = self.sh.hook.take() {
            h(n);
            *self.sh.hook.borrow_mut() = Some(h);
        }
    }
}

/// A clone goes on from the same position, on its own.
impl<B: Clone> Clone for Tap<B> {
    fn clone(&self) -> Self {
        let _h = alloc::harness();
        let sh = Shared::new();
        sh.pos.set(self.sh.pos.get());
        sh.budget.set(self.sh.budget.get());
        *self.sh.child.borrow_mut() = Some(sh.clone());
        Tap { inner: self.inner.clone(), sh, c: self.c.clone(), sim: self.sim }
    }
}

unsafe impl<'p, B: ParseBuf<'p>> ParseBuf<'p> for Tap<B> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        let _h = alloc::harness();
        self.tick(0);
        let i = self.sh.chunks.get();
        self.sh.chunks.set(i + 1);
        let pos = self.sh.pos.get();
        let t = self.sh.transient.borrow().iter().find(|t| t.0 == i).copied();
        if let Some((_, k, tag)) = t {
            self.c.fault(Fault::Transient);
            self.c.note(|| format!("transient failure at byte {pos}, call {i}: {k:?}"));
            self.sh.last_fault.set(Some((pos, k, tag)));
            self.sh.fired.set(self.sh.fired.get() + 1);
            return Err(k.parse_error(tag));
        }
        if self.sim {
            // SimBuf is harness code
            let r = self.inner.chunk();
            let l = r.as_ref().map_or(0, |c| c.len());
            self.c.ev(1, (pos as u64) << 20 ^ l as u64);
            r
        } else {
            // slice and BufReader sources are the library's own code
            let _s = alloc::sut();
            let r = self.inner.chunk();
            let l = r.as_ref().map_or(0, |c| c.len());
            let _h = alloc::harness();
            self.sh.seen(pos + l);
            self.c.ev(1, (pos as u64) << 20 ^ l as u64);
            r
        }
    }

    fn advance(&mut self, n: usize) {
        let _h = alloc::harness();
        self.tick(1);
        self.sh.adv_calls.set(self.sh.adv_calls.get() + 1);
        self.sh.pos.set(self.sh.pos.get() + n);
        self.c.ev(2, n as u64);
        self.c.note(|| format!("advance {n} -> {}", self.sh.pos.get()));
        self.inner.advance(n)
    }

    fn remaining_hint(&self) -> Option<usize> {
        let _h = alloc::harness();
        self.tick(2);
        let r = self.inner.remaining_hint();
        if let Some(n) = r {
            let d = self.sh.pos.get() + n;
            if d > self.sh.declared.get() {
                self.sh.declared.set(d);
            }
        }
        r
    }
}

/// The byte stream under a real std::io::BufReader: a pipe, socket or file
/// that returns short, is interrupted, and fails.
pub struct SimRead {
    data: Vec<u8>,
    pos: usize,
    /// per-mille chance that a read is interrupted, and how many may follow
    eintr: u64,
    eintr_left: u64,
    /// (at which read, how many): one read that keeps being interrupted
    storm: (u64, u64),
    /// 0: as much as asked for; else at most this many bytes per read
    short: usize,
    faults: Vec<OffFault>,
    sh: Rc<Shared>,
    c: Ctx,
    nread: u64,
}

#[derive(Clone, Debug, Default)]
pub struct ReadSpec {
    pub cap: usize,
    pub eintr: u64,
    pub eintr_max: u64,
    pub storm: (u64, u64),
    pub short: usize,
}

impl SimRead {
    pub fn new(data: Vec<u8>, s: &ReadSpec, faults: Vec<OffFault>, sh: Rc<Shared>, c: Ctx) -> Self {
        SimRead {
            data,
            pos: 0,
            eintr: s.eintr,
            eintr_left: s.eintr_max,
            storm: s.storm,
            short: s.short,
            faults,
            sh,
            c,
            nread: 0,
        }
    }
}

impl io::Read for SimRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _h = alloc::harness();
        let b = self.sh.budget.get();
        if self.storm.1 > 0 {
            if self.storm.0 == 0 {
                self.storm.1 -= 1;
                self.c.fault(Fault::Interrupt);
                return Err(if self.storm.1 % 2 == 0 {
                    io::Error::from_raw_os_error(4)
                } else {
                    io::Error::new(io::ErrorKind::Interrupted, "signal")
                });
            }
            self.storm.0 -= 1;
        }
        self.nread += 1;
        if b != u64::MAX && self.nread > 4 * b + 1000 {
            std::panic::panic_any(OverBudget);
        }
        let pos = self.pos;
        if self.eintr_left > 0 && self.c.draw(1000) >= 1000 - self.eintr {
            self.eintr_left -= 1;
            self.c.fault(Fault::Interrupt);
            self.c.ev(4, pos as u64);
            self.c.note(|| format!("read at byte {pos}: EINTR"));
            return Err(if self.nread % 2 == 0 {
                io::Error::from_raw_os_error(4)
            } else {
                io::Error::new(io::ErrorKind::Interrupted, "signal")
            });
        }
        if let Some(f) = self.faults.iter_mut().find(|f| f.at == pos && f.times > 0) {
            f.times -= 1;
            self.sh.last_fault.set(Some((f.at, f.kind, f.tag)));
            self.sh.fired.set(self.sh.fired.get() + 1);
            f.kind.count(&self.c);
            let (k, t) = (f.kind, f.tag);
            self.c.note(|| format!("read at byte {pos}: {k:?}"));
            if k == FK::Eof {
                return Ok(0);
            }
            return Err(k.io(t));
        }
        if pos >= self.sh.live.get() {
            std::panic::panic_any(Blocked(pos));
        }
        let mut end = self.data.len().min(self.sh.live.get());
        for f in &self.faults {
            if f.times > 0 && f.at > pos && f.at < end {
                end = f.at;
            }
        }
        let mut n = (end - pos).min(buf.len());
        if self.short > 0 && n > 1 {
            let m = 1 + self.c.idx(self.short.min(n));
            if m < n {
                self.c.fault(Fault::ShortRead);
                n = m;
            }
        }
        buf[..n].copy_from_slice(&self.data[pos..pos + n]);
        self.pos += n;
        self.c.ev(5, (pos as u64) << 20 ^ n as u64);
        self.c.note(|| format!("read at byte {pos}: {n} bytes"));
        Ok(n)
    }
}

/// How one stream is delivered.
#[derive(Clone, Debug)]
pub enum Plan {
    Pieces { spec: Vec<PieceSpec>, hint: bool },
    Slice { align: usize },
    Reader(ReadSpec),
}

#[derive(Clone, Copy, Default)]
pub struct PlanOpt {
    pub eintr: bool,
    pub no_reader: bool,
    pub no_slice: bool,
    pub reader_only: bool,
    /// keep every borrowed piece aligned with its stream offset
    pub aligned: bool,
}

fn gen_align(c: &Ctx, o: PlanOpt, start: usize) -> usize {
    if o.aligned {
        start % 8
    } else {
        match c.weighted(&[3, 1, 1]) {
            0 => start % 8,
            1 => (start + 4) % 8,
            _ => c.idx(8),
        }
    }
}

/// Draw a delivery for a stream of `n` bytes.  `cuts` are offsets at which it
/// is interesting to break it.
pub fn gen_plan(c: &Ctx, n: usize, cuts: &[usize], o: PlanOpt) -> Plan {
    let kind = if o.reader_only {
        2
    } else {
        c.weighted(&[
            6,
            if o.no_slice { 0 } else { 2 },
            if o.no_reader { 0 } else { 3 },
        ])
    };
    match kind {
        1 => {
            let align = gen_align(c, o, 0);
            if align % 8 != 0 {
                c.fault(Fault::Misalign);
            }
            c.note(|| format!("delivery: one slice, address {align} mod 8"));
            Plan::Slice { align }
        }
        2 => {
            // (not a hundred thousand single bytes: whatever is quadratic in pieces must not seem to hang)
            let least = n / 4096;
            let r = ReadSpec {
                cap: match c.weighted(&[2, 2, 3, 2]) {
                    0 => 8192,
                    1 => 1,
                    2 => 1 + c.idx(64),
                    _ => 1 + c.idx(4096),
                }
                .max(least),
                eintr: if o.eintr { c.pick(&[0, 30, 200, 600]) } else { 0 },
                eintr_max: 200,
                storm: if o.eintr && c.chance(1, 6) {
                    (c.draw(8), c.pick(&[20, 70, 140, 300, 1100, 5000]))
                } else {
                    (0, 0)
                },
                short: match c.pick(&[0, 1, 7, 40]) {
                    0 => 0,
                    x => x.max(2 * least),
                },
            };
            c.note(|| format!("delivery: {r:?}"));
            Plan::Reader(r)
        }
        _ => {
            let mut at: Vec<usize> = Vec::new();
            match c.weighted(&[2, 3, 4, 1, 2]) {
                0 => (),
                // one cut anywhere: a ring wrap
                1 => at.push(c.idx(n + 1)),
                // cuts near interesting places
                2 => {
                    for _ in 0..1 + c.idx(6) {
                        if !cuts.is_empty() && c.chance(3, 4) {
                            let x = c.pick(cuts) + c.idx(9);
                            at.push(x.saturating_sub(4).min(n));
                        } else {
                            at.push(c.idx(n + 1));
                        }
                    }
                }
                // tiny pieces throughout (bounded stretch)
                3 => {
                    let w = 1 + c.idx(9);
                    let from = c.idx(n + 1);
                    let mut x = from;
                    while x < n && at.len() < 600 {
                        at.push(x);
                        x += w;
                    }
                }
                _ => {
                    let mut x = 0;
                    let m = c.pick(&[16usize, 64, 500]);
                    while at.len() < 400 {
                        x += 1 + c.idx(m);
                        if x >= n {
                            break;
                        }
                        at.push(x);
                    }
                }
            }
            at.sort();
            at.dedup();
            at.retain(|&x| x > 0 && x < n);
            at.push(n);
            let ext = c.weighted(&[3, 2, 2]);
            let scatter = c.chance(1, 2);
            let mut spec = Vec::with_capacity(at.len());
            let mut s = 0;
            for (i, &e) in at.iter().enumerate() {
                if e == s {
                    continue;
                }
                let x = match ext {
                    0 => true,
                    1 => false,
                    _ => c.chance(1, 2),
                };
                let align = if i == 0 || scatter { Some(gen_align(c, o, s)) } else { None };
                if matches!(align, Some(a) if x && a != s % 8) {
                    c.fault(Fault::Misalign);
                }
                if !x {
                    c.fault(Fault::TempChunk);
                }
                spec.push(PieceSpec { len: e - s, ext: x, align });
                s = e;
            }
            if spec.len() > 1 {
                c.fault(Fault::Fragment);
            }
            let hint = c.chance(1, 2);
            if !hint {
                c.fault(Fault::NoHint);
            }
            c.note(|| {
                let v: Vec<String> = spec
                    .iter()
                    .take(40)
                    .map(|p| {
                        format!(
                            "{}{}{}",
                            p.len,
                            if p.ext { 'E' } else { 'T' },
                            p.align.map_or(String::new(), |a| format!("@{a}"))
                        )
                    })
                    .collect();
                format!("delivery: pieces [{}] hint={hint}", v.join(" "))
            });
            Plan::Pieces { spec, hint }
        }
    }
}

/// The simplest delivery: one aligned slice.
pub fn plain_plan() -> Plan {
    Plan::Slice { align: 0 }
}
