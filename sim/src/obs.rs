//! What a caller sees: every public field and accessor of the library's types,
//! flattened to a comparable list.

use crate::alloc;
use crate::model::*;
use crate::names;
use crate::text::see;
use perf_event_data as ped;
use perf_event_data::parse::{ParseBuf, ParseResult, Parser};
use perf_event_data::endian::Endian;
use perf_event_data::{Record, RecordMetadata};

fn u32o(v: Option<u32>) -> V {
    opt(v.map(u64::from))
}
fn by(v: &[u8]) -> V {
    V::B(v.to_vec())
}
fn k(s: &'static str) -> Obs {
    vec![("kind", V::S(s))]
}

pub fn sid(o: &mut Obs, s: &ped::SampleId) {
    o.push(("sid.pid", u32o(s.pid())));
    o.push(("sid.tid", u32o(s.tid())));
    o.push(("sid.time", opt(s.time())));
    o.push(("sid.id", opt(s.id())));
    o.push(("sid.stream_id", opt(s.stream_id())));
    o.push(("sid.cpu", u32o(s.cpu())));
}

pub fn meta(m: &RecordMetadata) -> Obs {
    let _h = alloc::harness();
    let mut o: Obs = vec![("ty", V::U(m.ty() as u64)), ("misc", V::U(m.misc() as u64))];
    sid(&mut o, m.sample_id());
    see(m, &o);
    o
}

pub fn mmap(r: &ped::Mmap) -> Obs {
    use std::os::unix::ffi::OsStrExt;
    let _h = alloc::harness();
    let mut o = k("mmap");
    o.extend([
        ("pid", V::U(r.pid as u64)),
        ("tid", V::U(r.tid as u64)),
        ("addr", V::U(r.addr)),
        ("len", V::U(r.len)),
        ("pgoff", V::U(r.pgoff)),
        ("filename", by(&r.filename)),
        ("filename_os", by(r.filename_os().as_bytes())),
    ]);
    see(r, &o);
    o
}
pub fn lost(r: &ped::Lost) -> Obs {
    let _h = alloc::harness();
    let mut o = k("lost");
    o.extend([("id", V::U(r.id)), ("lost", V::U(r.lost))]);
    see(r, &o);
    o
}
pub fn comm(r: &ped::Comm) -> Obs {
    use std::os::unix::ffi::OsStrExt;
    let _h = alloc::harness();
    let mut o = k("comm");
    o.extend([
        ("pid", V::U(r.pid as u64)),
        ("tid", V::U(r.tid as u64)),
        ("comm", by(&r.comm)),
        ("comm_os", by(r.comm_os().as_bytes())),
    ]);
    see(r, &o);
    o
}
pub fn exit(r: &ped::Exit, kind: &'static str) -> Obs {
    let _h = alloc::harness();
    let mut o = k(kind);
    o.extend([
        ("pid", V::U(r.pid as u64)),
        ("ppid", V::U(r.ppid as u64)),
        ("tid", V::U(r.tid as u64)),
        ("ptid", V::U(r.ptid as u64)),
        ("time", V::U(r.time)),
    ]);
    see(r, &o);
    o
}
pub fn throttle(r: &ped::Throttle, kind: &'static str) -> Obs {
    let _h = alloc::harness();
    let mut o = k(kind);
    o.extend([("time", V::U(r.time)), ("id", V::U(r.id)), ("stream_id", V::U(r.stream_id))]);
    see(r, &o);
    o
}
pub fn read(r: &ped::Read) -> Obs {
    let _h = alloc::harness();
    let mut o = k("read");
    o.extend([("pid", V::U(r.pid as u64)), ("tid", V::U(r.tid as u64))]);
    read_value(&mut o, &r.values);
    see(r, &o);
    o
}
pub fn read_value(o: &mut Obs, v: &ped::ReadValue) {
    o.extend([
        ("value", V::U(v.value())),
        ("enabled", opt(v.time_enabled())),
        ("running", opt(v.time_running())),
        ("id", opt(v.id())),
        ("lost", opt(v.lost())),
    ]);
}
pub fn group_entries(g: &ped::ReadGroup) -> Vec<u64> {
    let mut w = Vec::new();
    for e in g.entries() {
        entry(&mut w, &e);
    }
    w
}
pub fn entry(w: &mut Vec<u64>, e: &ped::GroupEntry) {
    w.push(e.value());
    for x in [e.id(), e.lost()] {
        w.extend([x.is_some() as u64, x.unwrap_or(0)]);
    }
}
fn regs(r: Option<&ped::Registers>) -> V {
    match r {
        None => V::N,
        Some(r) => {
            let mut v = vec![r.abi.0, names::abi(r.abi), r.mask];
            v.extend(r.regs.iter());
            V::W(v)
        }
    }
}
pub fn branch(out: &mut Vec<u64>, e: &ped::BranchEntry) {
    out.extend([
        e.from(),
        e.to(),
        e.mispred() as u64,
        e.predicted() as u64,
        e.in_tx() as u64,
        e.abort() as u64,
        e.cycles() as u64,
        e.ty().0 as u64,
        names::br(e.ty()),
    ]);
}
pub fn data_source(d: &ped::DataSource) -> Vec<u64> {
    let mut v = vec![
        d.mem_op().bits(),
        d.mem_lvl().bits(),
        d.mem_snoop().bits(),
        d.mem_lock().bits(),
        d.mem_dtlb().bits(),
        d.mem_lvl_num().0 as u64,
        d.mem_remote() as u64,
        d.mem_blk().bits(),
        d.mem_hops() as u64,
    ];
    v.extend(names::data_src(d));
    v
}
pub fn sample(r: &ped::Sample) -> Obs {
    let _h = alloc::harness();
    let mut o = SampleObs::new();
    o.set("ip", opt(r.ip()));
    o.set("pid", u32o(r.pid()));
    o.set("tid", u32o(r.tid()));
    o.set("time", opt(r.time()));
    o.set("addr", opt(r.addr()));
    o.set("id", opt(r.id()));
    o.set("stream_id", opt(r.stream_id()));
    o.set("cpu", u32o(r.cpu()));
    o.set("period", opt(r.period()));
    if let Some(v) = r.values() {
        o.set("v.len", V::U(v.len() as u64));
        o.set("v.enabled", opt(v.time_enabled()));
        o.set("v.running", opt(v.time_running()));
        o.set("v.entries", V::W(group_entries(v)));
    }
    o.set("callchain", r.callchain().map_or(V::N, |x| V::W(x.to_vec())));
    o.set("raw", r.raw().map_or(V::N, by));
    o.set("lbr_hw_index", opt(r.lbr_hw_index()));
    o.set(
        "lbr",
        r.lbr().map_or(V::N, |x| {
            let mut w = Vec::new();
            x.iter().for_each(|e| branch(&mut w, e));
            V::W(w)
        }),
    );
    o.set("regs_user", regs(r.regs_user()));
    o.set("stack_user", r.stack_user().map_or(V::N, by));
    o.set("weight", opt(r.weight()));
    o.set("data_src", r.data_src().map_or(V::N, |d| V::W(data_source(&d))));
    o.set("transaction", r.transaction().map_or(V::N, |t| V::W(vec![t.bits(), t.abort() as u64, names::txn(t)])));
    o.set("regs_intr", regs(r.regs_intr()));
    o.set("phys_addr", opt(r.phys_addr()));
    o.set("cgroup", opt(r.cgroup()));
    o.set("data_page_size", opt(r.data_page_size()));
    o.set("code_page_size", opt(r.code_page_size()));
    o.set("aux", r.aux().map_or(V::N, by));
    let o = o.obs();
    see(r, &o);
    o
}
pub fn mmap2(r: &ped::Mmap2) -> Obs {
    use std::os::unix::ffi::OsStrExt;
    let _h = alloc::harness();
    let mut o = k("mmap2");
    o.extend([
        ("pid", V::U(r.pid as u64)),
        ("tid", V::U(r.tid as u64)),
        ("addr", V::U(r.addr)),
        ("len", V::U(r.len)),
        ("pgoff", V::U(r.pgoff)),
        ("maj", u32o(r.maj())),
        ("min", u32o(r.min())),
        ("ino", opt(r.ino())),
        ("ino_generation", opt(r.ino_generation())),
        ("build_id", r.build_id().map_or(V::N, by)),
        ("prot", V::U(r.prot as u64)),
        ("flags", V::U(r.flags as u64)),
        ("filename", by(&r.filename)),
        ("filename_os", by(r.filename_os().as_bytes())),
    ]);
    see(r, &o);
    o
}
pub fn aux(r: &ped::Aux) -> Obs {
    let _h = alloc::harness();
    let mut o = k("aux");
    o.extend([
        ("aux_offset", V::U(r.aux_offset)),
        ("aux_size", V::U(r.aux_size)),
        ("flags", V::U(r.flags.bits())),
        ("pmu_format", V::U(r.flags.pmu_format_type().0 as u64)),
        ("flag_names", V::U(names::aux(r.flags))),
        ("format_names", V::U(names::pmu(r.flags.pmu_format_type()))),
    ]);
    see(r, &o);
    o
}
pub fn itrace(r: &ped::ITraceStart) -> Obs {
    let _h = alloc::harness();
    let mut o = k("itrace_start");
    o.extend([("pid", V::U(r.pid as u64)), ("tid", V::U(r.tid as u64))]);
    see(r, &o);
    o
}
pub fn lost_samples(r: &ped::LostSamples) -> Obs {
    let _h = alloc::harness();
    let mut o = k("lost_samples");
    o.push(("lost", V::U(r.lost)));
    see(r, &o);
    o
}
pub fn switch() -> Obs {
    let _h = alloc::harness();
    k("switch")
}
pub fn switch_cpu(r: &ped::SwitchCpuWide) -> Obs {
    let _h = alloc::harness();
    let mut o = k("switch_cpu_wide");
    o.extend([
        ("out", V::U(matches!(r, ped::SwitchCpuWide::Out { .. }) as u64)),
        ("pid", V::U(r.pid() as u64)),
        ("tid", V::U(r.tid() as u64)),
    ]);
    see(r, &o);
    o
}
pub fn namespaces(r: &ped::Namespaces) -> Obs {
    let _h = alloc::harness();
    let mut o = k("namespaces");
    o.extend([("pid", V::U(r.pid as u64)), ("tid", V::U(r.tid as u64))]);
    let e = |x: Option<&ped::NamespaceEntry>| x.map_or(V::N, |n| V::W(vec![n.dev, n.inode]));
    o.push(("network", e(r.network())));
    o.push(("uts", e(r.uts())));
    o.push(("ipc", e(r.ipc())));
    o.push(("pid_ns", e(r.pid())));
    o.push(("user", e(r.user())));
    o.push(("cgroup_ns", e(r.cgroup())));
    o.push(("entries", V::W(r.namespaces.iter().flat_map(|n| [n.dev, n.inode]).collect())));
    see(r, &o);
    o
}
pub fn ksymbol(r: &ped::KSymbol) -> Obs {
    let _h = alloc::harness();
    let mut o = k("ksymbol");
    o.extend([
        ("addr", V::U(r.addr)),
        ("len", V::U(r.len as u64)),
        ("ksym_type", V::U(r.ksym_type.0 as u64)),
        ("flags", V::U(r.flags.bits() as u64)),
        ("type_names", V::U(names::ksym(r.ksym_type))),
        ("flag_names", V::U(names::ksymf(r.flags))),
        ("name", by(&r.name)),
    ]);
    see(r, &o);
    o
}
pub fn bpf(r: &ped::BpfEvent) -> Obs {
    let _h = alloc::harness();
    let mut o = k("bpf_event");
    o.extend([
        ("ty", V::U(r.ty.0 as u64)),
        ("flags", V::U(r.flags as u64)),
        ("type_names", V::U(names::bpf(r.ty))),
        ("id", V::U(r.id as u64)),
        ("tag", by(&r.tag)),
    ]);
    see(r, &o);
    o
}
pub fn cgroup(r: &ped::CGroup) -> Obs {
    use std::os::unix::ffi::OsStrExt;
    let _h = alloc::harness();
    let mut o = k("cgroup");
    o.extend([
        ("id", V::U(r.id)),
        ("path", by(&r.path)),
        ("path_os", by(r.path_os().as_os_str().as_bytes())),
    ]);
    see(r, &o);
    o
}
pub fn text_poke(r: &ped::TextPoke) -> Obs {
    let _h = alloc::harness();
    let mut o = k("text_poke");
    o.extend([("addr", V::U(r.addr)), ("old", by(&r.old_bytes)), ("new", by(&r.new_bytes))]);
    see(r, &o);
    o
}
pub fn hw_id(r: &ped::AuxOutputHwId) -> Obs {
    let _h = alloc::harness();
    let mut o = k("aux_output_hw_id");
    o.push(("hw_id", V::U(r.hw_id)));
    see(r, &o);
    o
}
pub fn unknown(ty: u32, data: &[u8]) -> Obs {
    let _h = alloc::harness();
    let mut o = k("unknown");
    o.extend([("ty", V::U(ty as u64)), ("data", by(data))]);
    o
}

pub fn record(r: &Record) -> Obs {
    let o = match r {
        Record::Mmap(r) => mmap(r),
        Record::Lost(r) => lost(r),
        Record::Comm(r) => comm(r),
        Record::Exit(r) => exit(r, "exit"),
        Record::Throttle(r) => throttle(r, "throttle"),
        Record::Unthrottle(r) => throttle(r, "unthrottle"),
        Record::Fork(r) => exit(r, "fork"),
        Record::Read(r) => read(r),
        Record::Sample(r) => sample(r),
        Record::Mmap2(r) => mmap2(r),
        Record::Aux(r) => aux(r),
        Record::ITraceStart(r) => itrace(r),
        Record::LostSamples(r) => lost_samples(r),
        Record::Switch => switch(),
        Record::SwitchCpuWide(r) => switch_cpu(r),
        Record::Namespaces(r) => namespaces(r),
        Record::KSymbol(r) => ksymbol(r),
        Record::BpfEvent(r) => bpf(r),
        Record::CGroup(r) => cgroup(r),
        Record::TextPoke(r) => text_poke(r),
        Record::AuxOutputHwId(r) => hw_id(r),
        Record::Unknown { ty, data } => unknown(*ty, data),
        _ => k("other"),
    };
    let _h = alloc::harness();
    if let V::S(kind) = o[0].1 {
        let mut all: Obs = vec![("variant", V::S(kind))];
        all.extend(o.iter().cloned());
        see(r, &all);
    }
    o
}

/// Parse the body of a record of type `ty` as its concrete type.
pub fn typed<'p, B: ParseBuf<'p>, E: Endian>(
    p: &mut Parser<B, E>,
    ty: u32,
) -> ParseResult<Obs> {
    Ok(match ty {
        T_MMAP => mmap(&p.parse()?),
        T_LOST => lost(&p.parse()?),
        T_COMM => comm(&p.parse()?),
        T_EXIT => exit(&p.parse()?, "exit"),
        T_THROTTLE => throttle(&p.parse()?, "throttle"),
        T_UNTHROTTLE => throttle(&p.parse()?, "unthrottle"),
        T_FORK => exit(&p.parse()?, "fork"),
        T_READ => read(&p.parse()?),
        T_SAMPLE => sample(&p.parse()?),
        T_MMAP2 => mmap2(&p.parse()?),
        T_AUX => aux(&p.parse()?),
        T_ITRACE => itrace(&p.parse()?),
        T_LOST_SAMPLES => lost_samples(&p.parse()?),
        T_SWITCH => switch(),
        T_SWITCH_CPU => switch_cpu(&p.parse()?),
        T_NAMESPACES => namespaces(&p.parse()?),
        T_KSYMBOL => ksymbol(&p.parse()?),
        T_BPF => bpf(&p.parse()?),
        T_CGROUP => cgroup(&p.parse()?),
        T_TEXT_POKE => text_poke(&p.parse()?),
        T_HW_ID => hw_id(&p.parse()?),
        _ => unknown(ty, &p.parse_rest()?),
    })
}
