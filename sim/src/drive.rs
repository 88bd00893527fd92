//! Drives the real parser over a simulated source.

use crate::alloc;
use crate::ctx::*;
use crate::model::*;
use crate::obs;
use crate::text;
use crate::refdec::{self, Place, RefRec};
use crate::transport::*;
use perf_event_data::endian::{Big, Dynamic, Endian, Little, Native};
use perf_event_data::parse::{ErrorKind, ParseBuf, ParseConfig, ParseError, ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_header;
use std::borrow::Cow;
use std::cell::Cell;
use std::io::BufReader;
use std::rc::Rc;

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum En {
    Native,
    Little,
    Big,
    DynLittle,
    DynBig,
    /// byte orders of the user's own making
    OwnLittle,
    OwnBig,
}

/// A byte order the library knows nothing about: not even whether it is the host's.
#[derive(Clone, Debug)]
pub struct Own {
    be: bool,
}
impl Own {
    pub const LITTLE: Own = Own { be: false };
    pub const BIG: Own = Own { be: true };
}
unsafe impl Endian for Own {
    fn convert_u16(&self, b: [u8; 2]) -> u16 {
        if self.be { u16::from_be_bytes(b) } else { u16::from_le_bytes(b) }
    }
    fn convert_u32(&self, b: [u8; 4]) -> u32 {
        if self.be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }
    }
    fn convert_u64(&self, b: [u8; 8]) -> u64 {
        if self.be { u64::from_be_bytes(b) } else { u64::from_le_bytes(b) }
    }
}

impl En {
    pub fn be(self) -> bool {
        match self {
            En::Native => cfg!(target_endian = "big"),
            En::Little | En::DynLittle | En::OwnLittle => false,
            En::Big | En::DynBig | En::OwnBig => true,
        }
    }
    pub fn native(self) -> bool {
        self.be() == cfg!(target_endian = "big") && self != En::OwnLittle && self != En::OwnBig
    }
}

pub fn gen_en(c: &Ctx) -> En {
    let e = c.pick(&[
        En::Native,
        En::Little,
        En::Big,
        En::DynLittle,
        En::DynBig,
        En::OwnLittle,
        En::OwnBig,
    ]);
    if e.be() {
        c.probe(Probe::BigEndian);
    }
    c.note(|| format!("byte order: {e:?}"));
    e
}

pub trait Job {
    type Out;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(
        &mut self,
        p: Parser<B, E>,
        sh: &Rc<Shared>,
        place: &Place,
    ) -> Self::Out;
}

pub fn cfg_e<E: Endian>(cfg: &MCfg, e: E) -> ParseConfig<E> {
    ParseConfig::<Little>::from(cfg.attr()).with_endian(e)
}

fn with_en<'p, J: Job, B: ParseBuf<'p>>(
    b: B,
    cfg: &MCfg,
    en: En,
    sh: &Rc<Shared>,
    place: &Place,
    j: &mut J,
) -> J::Out {
    macro_rules! go {
        ($cfg:expr) => {{
            let x = $cfg;
            config_seen(&x, cfg);
            j.run(Parser::new(b, x), sh, place)
        }};
    }
    match en {
        En::Native => go!(ParseConfig::<Native>::from(cfg.attr())),
        En::Little => go!(cfg_e(cfg, Little)),
        En::Big => go!(ParseConfig::<Big>::from(cfg.attr())),
        En::DynLittle => go!(cfg_e(cfg, Dynamic::Little)),
        En::DynBig => go!(cfg_e(cfg, Dynamic::Big)),
        En::OwnLittle => go!(cfg_e(cfg, Own::LITTLE)),
        En::OwnBig => go!(cfg_e(cfg, Own::BIG)),
    }
}

/// How the configuration renders.
fn config_seen<E: std::fmt::Debug>(x: &ParseConfig<E>, m: &MCfg) {
    if !text::watching() {
        return;
    }
    let o = vec![
        ("read_format", V::U(x.read_format().bits())),
        ("sample_type", V::U(x.sample_type().bits())),
        ("sample_id_all", V::U(m.sid_all as u64)),
        ("branch_hw_index", V::U(m.hw as u64)),
        ("regs_user", V::U(x.regs_user())),
        ("regs_intr", V::U(x.regs_intr())),
    ];
    text::see(x, &o);
    text::see(&x.read_format(), &vec![("self:read_format", o[0].1.clone())]);
    text::see(&x.sample_type(), &vec![("self:sample_type", o[1].1.clone())]);
}

pub struct Setup<'a> {
    pub c: &'a Ctx,
    pub data: &'a [u8],
    pub plan: &'a Plan,
    pub faults: &'a [OffFault],
    pub cfg: &'a MCfg,
    pub en: En,
    pub sh: &'a Rc<Shared>,
}

pub fn arena_of(data: &[u8], plan: &Plan) -> Arena {
    let one = |align| {
        if data.is_empty() {
            Arena::new(data, &[])
        } else {
            Arena::new(data, &[PieceSpec { len: data.len(), ext: true, align: Some(align) }])
        }
    };
    match plan {
        Plan::Pieces { spec, .. } => Arena::new(data, spec),
        Plan::Slice { align } => one(*align),
        Plan::Reader(_) => Arena::new(&[], &[]),
    }
}

pub fn place_of(arena: &Arena, plan: &Plan, en: En, faults: &[OffFault]) -> Place {
    let mut p = match plan {
        Plan::Pieces { .. } => arena.place(en.native(), false),
        Plan::Slice { .. } => arena.place(en.native(), true),
        Plan::Reader(_) => Place::default(),
    };
    // a failure cuts the piece it falls into
    for f in faults {
        if let Some(i) = p.ext.iter().position(|&(s, e, _)| s < f.at && f.at < e) {
            let (s, e, a) = p.ext[i];
            p.ext[i] = (s, f.at, a);
            p.ext.insert(i + 1, (f.at, e, (a + f.at - s) % 8));
        }
    }
    p
}

pub fn drive<J: Job>(s: &Setup, j: &mut J) -> J::Out {
    let arena = arena_of(s.data, s.plan);
    drive_on(s, &arena, j)
}

pub fn drive_on<J: Job>(s: &Setup, arena: &Arena, j: &mut J) -> J::Out {
    let place = place_of(arena, s.plan, s.en, s.faults);
    let (sh, c) = (s.sh.clone(), s.c.clone());
    match s.plan {
        Plan::Pieces { hint, .. } => {
            let b = SimBuf::new(arena, *hint, s.faults.to_vec(), sh.clone(), c.clone());
            with_en(Tap::new(b, sh, c, true), s.cfg, s.en, s.sh, &place, j)
        }
        Plan::Slice { .. } if s.faults.is_empty() => {
            with_en(Tap::new(arena.slice(), sh, c, false), s.cfg, s.en, s.sh, &place, j)
        }
        Plan::Slice { .. } => {
            let b = SimBuf::new(arena, true, s.faults.to_vec(), sh.clone(), c.clone());
            with_en(Tap::new(b, sh, c, true), s.cfg, s.en, s.sh, &place, j)
        }
        Plan::Reader(r) => {
            let rd = SimRead::new(s.data.to_vec(), r, s.faults.to_vec(), sh.clone(), c.clone());
            let b = BufReader::with_capacity(r.cap, rd);
            with_en(Tap::new(b, sh, c, false), s.cfg, s.en, s.sh, &place, j)
        }
    }
}

// ------------------------------------------------------------------ errors

#[derive(Clone, Debug, PartialEq)]
pub struct ErrInfo {
    pub kind: u8,
    pub tag: Option<u64>,
    pub os: Option<i32>,
    pub text: String,
}

pub fn kind_bit(k: ErrorKind) -> u8 {
    match k {
        ErrorKind::Eof => refdec::EOF,
        ErrorKind::InvalidRecord => refdec::INV,
        ErrorKind::UnsupportedConfig => refdec::UCFG,
        ErrorKind::UnsupportedData => refdec::UDATA,
        ErrorKind::External => refdec::EXT,
        _ => 128,
    }
}

pub fn err_info(e: &ParseError) -> ErrInfo {
    let _h = alloc::harness();
    text::see_err(e);
    let (mut tag, mut os) = (None, None);
    let mut s: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(e);
    let mut hops = 0;
    while let Some(x) = s {
        if let Some(t) = x.downcast_ref::<SimErr>() {
            tag = Some(t.0);
        }
        if let Some(i) = x.downcast_ref::<std::io::Error>() {
            os = os.or(i.raw_os_error());
            if let Some(t) = i.get_ref().and_then(|r| r.downcast_ref::<SimErr>()) {
                tag = Some(t.0);
            }
        }
        s = x.source();
        hops += 1;
        if hops > 8 {
            break;
        }
    }
    ErrInfo { kind: kind_bit(e.kind()), tag, os, text: format!("{e} / {e:?}") }
}

// ----------------------------------------------------------------- visitor

/// Implements every method; reports what it was given.
pub struct Full<'c> {
    pub calls: &'c Cell<u32>,
    pub hook: Option<&'c dyn Fn()>,
}

impl Full<'_> {
    fn done(self, o: Obs, m: RecordMetadata) -> (Obs, Obs) {
        let _h = alloc::harness();
        self.calls.set(self.calls.get() + 1);
        if let Some(h) = self.hook {
            h();
        }
        (o, obs::meta(&m))
    }
}

impl<'a> Visitor<'a> for Full<'_> {
    type Output = (Obs, Obs);
    fn visit_unimplemented(self, m: RecordMetadata) -> Self::Output {
        self.done(vec![("kind", V::S("unimplemented"))], m)
    }
    fn visit_mmap(self, r: Mmap<'a>, m: RecordMetadata) -> Self::Output {
        self.done(obs::mmap(&r), m)
    }
    fn visit_lost(self, r: Lost, m: RecordMetadata) -> Self::Output {
        self.done(obs::lost(&r), m)
    }
    fn visit_comm(self, r: Comm<'a>, m: RecordMetadata) -> Self::Output {
        self.done(obs::comm(&r), m)
    }
    fn visit_exit(self, r: Exit, m: RecordMetadata) -> Self::Output {
        self.done(obs::exit(&r, "exit"), m)
    }
    fn visit_throttle(self, r: Throttle, m: RecordMetadata) -> Self::Output {
        self.done(obs::throttle(&r, "throttle"), m)
    }
    fn visit_unthrottle(self, r: Throttle, m: RecordMetadata) -> Self::Output {
        self.done(obs::throttle(&r, "unthrottle"), m)
    }
    fn visit_fork(self, r: Fork, m: RecordMetadata) -> Self::Output {
        self.done(obs::exit(&r, "fork"), m)
    }
    fn visit_read(self, r: Read, m: RecordMetadata) -> Self::Output {
        self.done(obs::read(&r), m)
    }
    fn visit_sample(self, r: Sample<'a>, m: RecordMetadata) -> Self::Output {
        self.done(obs::sample(&r), m)
    }
    fn visit_mmap2(self, r: Mmap2<'a>, m: RecordMetadata) -> Self::Output {
        self.done(obs::mmap2(&r), m)
    }
    fn visit_aux(self, r: Aux, m: RecordMetadata) -> Self::Output {
        self.done(obs::aux(&r), m)
    }
    fn visit_itrace_start(self, r: ITraceStart, m: RecordMetadata) -> Self::Output {
        self.done(obs::itrace(&r), m)
    }
    fn visit_lost_samples(self, r: LostSamples, m: RecordMetadata) -> Self::Output {
        self.done(obs::lost_samples(&r), m)
    }
    fn visit_switch(self, m: RecordMetadata) -> Self::Output {
        self.done(obs::switch(), m)
    }
    fn visit_switch_cpu_wide(self, r: SwitchCpuWide, m: RecordMetadata) -> Self::Output {
        self.done(obs::switch_cpu(&r), m)
    }
    fn visit_namespaces(self, r: Namespaces<'a>, m: RecordMetadata) -> Self::Output {
        self.done(obs::namespaces(&r), m)
    }
    fn visit_ksymbol(self, r: KSymbol<'a>, m: RecordMetadata) -> Self::Output {
        self.done(obs::ksymbol(&r), m)
    }
    fn visit_bpf_event(self, r: BpfEvent, m: RecordMetadata) -> Self::Output {
        self.done(obs::bpf(&r), m)
    }
    fn visit_cgroup(self, r: CGroup<'a>, m: RecordMetadata) -> Self::Output {
        self.done(obs::cgroup(&r), m)
    }
    fn visit_text_poke(self, r: TextPoke<'a>, m: RecordMetadata) -> Self::Output {
        self.done(obs::text_poke(&r), m)
    }
    fn visit_aux_output_hw_id(self, r: AuxOutputHwId, m: RecordMetadata) -> Self::Output {
        self.done(obs::hw_id(&r), m)
    }
    fn visit_unknown(self, d: Cow<'a, [u8]>, m: RecordMetadata) -> Self::Output {
        self.done(obs::unknown(m.ty(), &d), m)
    }
}

// ------------------------------------------------------------ entry points

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Way {
    Record,
    Visitor,
    HeaderVisitor,
    HeaderRecord,
    MetaTyped,
    HeaderMetaTyped,
}

pub const WAYS: [Way; 6] = [
    Way::Visitor,
    Way::Record,
    Way::HeaderVisitor,
    Way::HeaderRecord,
    Way::MetaTyped,
    Way::HeaderMetaTyped,
];

pub fn gen_way(c: &Ctx) -> Way {
    c.pick(&WAYS)
}

#[derive(Clone, Debug)]
pub struct Got {
    pub out: Result<(Obs, Option<Obs>), ErrInfo>,
    pub from: usize,
    pub to: usize,
    /// visitor calls (None when no visitor was involved)
    pub visits: Option<u32>,
}

pub fn next<'p, B: ParseBuf<'p>, E: Endian>(
    p: &mut Parser<B, E>,
    sh: &Shared,
    way: Way,
    hook: Option<&dyn Fn()>,
) -> Got {
    let from = sh.pos.get();
    let calls = Cell::new(0);
    let r: ParseResult<(Obs, Option<Obs>)> = (|| {
        let _s = alloc::sut();
        let vis = || Full { calls: &calls, hook };
        // the caller does other things between the two halves of a record
        let pause = || {
            if let Some(h) = hook {
                let _h = alloc::harness();
                h();
            }
        };
        Ok(match way {
            Way::Record => (obs::record(&p.parse::<Record>()?), None),
            Way::Visitor => {
                let (a, b) = p.parse_record(vis())?;
                (a, Some(b))
            }
            Way::HeaderVisitor => {
                let h: perf_event_header = p.parse()?;
                pause();
                let (a, b) = p.parse_record_with_header(vis(), h)?;
                (a, Some(b))
            }
            Way::HeaderRecord => {
                let h: perf_event_header = p.parse()?;
                pause();
                (obs::record(&Record::parse_with_header(p, h)?), None)
            }
            Way::MetaTyped => {
                let (mut q, m) = p.parse_metadata()?;
                pause();
                (obs::typed(&mut q, m.ty())?, Some(obs::meta(&m)))
            }
            Way::HeaderMetaTyped => {
                let h: perf_event_header = p.parse()?;
                let (mut q, m) = p.parse_metadata_with_header(h)?;
                pause();
                (obs::typed(&mut q, m.ty())?, Some(obs::meta(&m)))
            }
        })
    })();
    let visits = matches!(way, Way::Visitor | Way::HeaderVisitor).then(|| calls.get());
    let out = match r {
        Ok(x) => Ok(x),
        Err(e) => {
            let i = err_info(&e);
            let _s = alloc::sut();
            drop(e);
            Err(i)
        }
    };
    Got { out, from, to: sh.pos.get(), visits }
}

pub fn show(g: &Got) -> String {
    match &g.out {
        Ok((o, _)) => format!("Ok({:?})", o.first().map(|x| &x.1)),
        Err(e) => format!("Err({}) {}", refdec::kinds(e.kind), e.text),
    }
}

pub const KF_SKIP: &str = "misaligned-native-slice-skipped";

/// Does a result match a reference outcome?  Err: what is wrong.
pub fn matches(g: &Got, want: &RefRec, meta: bool) -> Result<(), (&'static str, String)> {
    match (&g.out, &want.out) {
        (Ok((b, m)), Ok((wb, wm))) => {
            if b != wb {
                return Err(("wrong-value", diff(wb, b)));
            }
            if let (Some(m), true) = (m, meta) {
                if m != wm {
                    return Err(("wrong-metadata", diff(wm, m)));
                }
            }
            Ok(())
        }
        (Err(e), Err(k)) => {
            if e.kind & k == 0 {
                Err(("wrong-error", format!("expected Err({}), got {}", refdec::kinds(*k), show(g))))
            } else {
                Ok(())
            }
        }
        (Err(_), Ok((wb, _))) => {
            Err(("rejected-valid", format!("{:?} record refused: {}", wb[0].1, show(g))))
        }
        (Ok((b, _)), Err(k)) => Err((
            "accepted-invalid",
            format!("expected Err({}), got a {:?} record", refdec::kinds(*k), b[0].1),
        )),
    }
}

/// Count an outcome and make it part of the run's history.
pub fn seen(c: &Ctx, g: &Got) {
    c.probe(if g.out.is_ok() { Probe::RecordOk } else { Probe::RecordErr });
    c.ev(9, (g.to as u64) << 8 | g.out.as_ref().map_or_else(|e| e.kind as u64, |_| 0));
    c.note(|| format!("record at byte {}: {}", g.from, show(g)));
}

/// Do two parses of the same thing agree?
pub fn same(a: &Got, b: &Got, meta: bool) -> Result<(), (&'static str, String)> {
    match (&a.out, &b.out) {
        (Ok((x, m)), Ok((y, n))) => {
            if x != y {
                return Err(("differs-value", diff(x, y)));
            }
            match (m, n) {
                (Some(m), Some(n)) if meta && m != n => Err(("differs-metadata", diff(m, n))),
                _ => Ok(()),
            }
        }
        (Err(e), Err(f)) if e.kind == f.kind => Ok(()),
        _ => Err(("differs-outcome", format!("expected {}, got {}", show(a), show(b)))),
    }
}

/// What a record gives when it is parsed by itself from one aligned slice.
pub fn alone(c: &Ctx, data: &[u8], cfg: &MCfg, en: En, way: Way) -> Got {
    c.quiet(|| {
        let sh = Shared::new();
        sh.budget.set(budget(data.len()));
        let plan = plain_plan();
        let s = Setup { c, data, plan: &plan, faults: &[], cfg, en, sh: &sh };
        let mut n = drive(&s, &mut ParseN { ways: &[way], stop_on_err: true, tail: false });
        n.got.remove(0)
    })
}

/// The same delivery with neither interruptions nor short reads.
pub fn calm(plan: &Plan) -> Plan {
    match plan {
        Plan::Reader(r) => Plan::Reader(ReadSpec { cap: r.cap, eintr: 0, eintr_max: 0, storm: (0, 0), short: 0 }),
        p => p.clone(),
    }
}

/// What the records of a stream give under this delivery when nothing fails.
pub fn undisturbed(c: &Ctx, s: &Stream, plan: &Plan, ways: &[Way]) -> Vec<Got> {
    c.quiet(|| parse_n(c, &s.data, &calm(plan), &[], &s.cfg, s.en, ways, false, false).0.got)
}

/// Source calls allowed for a stream of `n` bytes.
pub fn budget(n: usize) -> u64 {
    2000 + 40 * n as u64
}

/// Parse records from a stream delivered by `plan`.
#[allow(clippy::too_many_arguments)]
pub fn parse_n(
    c: &Ctx,
    data: &[u8],
    plan: &Plan,
    faults: &[OffFault],
    cfg: &MCfg,
    en: En,
    ways: &[Way],
    stop_on_err: bool,
    tail: bool,
) -> (NOut, Rc<Shared>) {
    let sh = Shared::new();
    sh.budget.set(budget(data.len()) + 50 * ways.len() as u64);
    let s = Setup { c, data, plan, faults, cfg, en, sh: &sh };
    let n = drive(&s, &mut ParseN { ways, stop_on_err, tail });
    (n, sh)
}

/// Judge the record parsed from `g.from`: its outcome and its length.
pub fn judge(
    c: &Ctx,
    g: &Got,
    data: &[u8],
    be: bool,
    cfg: &MCfg,
    place: &Place,
    meta: bool,
) -> Res {
    let want = refdec::record(data, g.from, be, cfg, None);
    seen(c, g);
    if let Some(u) = want.used {
        if g.to - g.from != u {
            return viol(
                "framing",
                format!("record at byte {} declares {u} bytes, {} consumed", g.from, g.to - g.from),
            );
        }
    }
    if let Some(n) = g.visits {
        if n != g.out.is_ok() as u32 {
            return viol("visits", format!("record at byte {}: visitor called {n} times", g.from));
        }
    }
    if let Err((class, msg)) = matches(g, &want, meta) {
        let alt = refdec::record(data, g.from, be, cfg, Some(place));
        let v = Viol { class: class.into(), msg: format!("record at byte {}: {msg}", g.from) };
        if alt.skipped && matches(g, &alt, meta).is_ok() {
            return c.check_known(Viol { class: KF_SKIP.into(), msg: v.msg });
        }
        return Err(v);
    }
    Ok(())
}

// ------------------------------------------------------------------ streams

/// A stream of well-formed records.
pub struct Stream {
    pub cfg: MCfg,
    pub en: En,
    pub recs: Vec<GRec>,
    pub data: Vec<u8>,
    /// start of every record
    pub at: Vec<usize>,
    pub cuts: Vec<usize>,
}

impl Stream {
    pub fn build(cfg: MCfg, en: En, recs: Vec<GRec>) -> Stream {
        let mut data = Vec::new();
        let (mut at, mut cuts) = (vec![], vec![]);
        for r in &recs {
            at.push(data.len());
            cuts.push(data.len());
            cuts.push(data.len() + 8);
            cuts.push(data.len() + 8 + r.body_len);
            for k in &r.counts {
                cuts.push(data.len() + k.0 + k.1);
            }
            data.extend_from_slice(&r.bytes);
        }
        Stream { cfg, en, recs, data, at, cuts }
    }
    /// The reference decoder must agree with the model that emitted the record.
    pub fn self_check(&self) {
        let c = &self.cfg;
        let both = WEIGHT | WEIGHT_STRUCT;
        if c.rf_unsupported() || c.st & !ST_ALL != 0 || c.st & both == both {
            return;
        }
        for (r, &at) in self.recs.iter().zip(&self.at) {
            let d = refdec::record(&self.data, at, self.en.be(), &self.cfg, None);
            match d.out {
                Ok((b, m)) => {
                    assert_eq!(b, r.body, "reference decoder and model disagree");
                    assert_eq!(m, r.meta, "reference decoder and model disagree");
                }
                Err(k) => panic!("reference decoder rejects the model's record: {}", refdec::kinds(k)),
            }
        }
    }
}

pub fn note_recs(c: &Ctx, s: &Stream) {
    c.note(|| format!("config: {:?}", s.cfg));
    for (r, at) in s.recs.iter().zip(&s.at) {
        c.note(|| {
            format!(
                "kernel writes {} (type {}) misc {:#x} size {} at byte {at}",
                kind_name(r.ty),
                r.ty,
                r.misc,
                r.bytes.len()
            )
        });
    }
}

/// Draw a stream; `ty` chooses each record's type.
pub fn gen_stream(
    c: &Ctx,
    cfg: MCfg,
    en: En,
    max: usize,
    odd: bool,
    ty: &dyn Fn(&Ctx, &MCfg) -> u32,
) -> Stream {
    let mut go = gen_opt(c, en.be());
    go.odd &= odd;
    gen_stream_opt(c, cfg, en, max, go, ty)
}

pub fn gen_stream_opt(
    c: &Ctx,
    cfg: MCfg,
    en: En,
    max: usize,
    mut go: GOpt,
    ty: &dyn Fn(&Ctx, &MCfg) -> u32,
) -> Stream {
    let n = if max > 2 && c.chance(1, 600) {
        // a long history
        go.maxvar = 16;
        c.pick(&[70, 140, 270, 530])
    } else {
        1 + c.idx(max)
    };
    let mut recs = Vec::with_capacity(n);
    for _ in 0..n {
        let t = ty(c, &cfg);
        let r = gen_record(c, &cfg, t, go);
        if kind_name(t) == "unknown" {
            c.fault(Fault::UnknownKind);
        }
        if r.empty_tail {
            c.probe(Probe::EmptyTail);
        }
        if r.bytes.len() > 4096 {
            c.probe(Probe::Big);
        }
        recs.push(r);
    }
    let s = Stream::build(cfg, en, recs);
    s.self_check();
    note_recs(c, &s);
    s
}

/// Parse `n` records, each by its own way.
pub struct ParseN<'a> {
    pub ways: &'a [Way],
    pub stop_on_err: bool,
    pub tail: bool,
}

pub struct NOut {
    pub got: Vec<Got>,
    pub place: Place,
    /// what parse_rest returned afterwards, and the final position
    pub tail: Option<Result<Vec<u8>, ErrInfo>>,
}

impl Job for ParseN<'_> {
    type Out = NOut;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(
        &mut self,
        mut p: Parser<B, E>,
        sh: &Rc<Shared>,
        place: &Place,
    ) -> NOut {
        let mut got = Vec::with_capacity(self.ways.len());
        for &w in self.ways {
            let g = next(&mut p, sh, w, None);
            let e = g.out.is_err();
            got.push(g);
            if e && self.stop_on_err {
                break;
            }
        }
        let tail = self.tail.then(|| {
            let _s = alloc::sut();
            match p.parse_rest() {
                Ok(x) => {
                    let _h = alloc::harness();
                    Ok(x.to_vec())
                }
                Err(e) => Err(err_info(&e)),
            }
        });
        NOut { got, place: place.clone(), tail }
    }
}
