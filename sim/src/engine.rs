//! Seeded search over simulated runs, crash attribution, minimisation, replay.

use crate::alloc;
use crate::ctx::*;
use crate::iso::{self, Dec, Enc};
use crate::json;
use crate::props;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const HANG_S: u64 = 25;
/// The second chance of a run that was stopped.
const SLOW_S: u64 = 60;
/// Time for a run together with all those that came before it.
const PRIOR_LIM: Duration = Duration::from_secs(200);

fn root() -> PathBuf {
    PathBuf::from(std::env::var("PED_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn run_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3);
    }
    mix(mix(seed, h), idx)
}

/// (property, class, text) of every listed finding; `fixed:` lines are history.
fn findings() -> Vec<(String, String, String)> {
    let t = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let mut it = r.splitn(3, ' ');
        let (Some(p), Some(c), Some(d)) = (it.next(), it.next(), it.next()) else { continue };
        if let Some(c) = c.strip_prefix("class=") {
            v.push((p.into(), c.into(), d.into()));
        }
    }
    v
}

fn known(id: &str) -> Vec<String> {
    findings().into_iter().filter(|f| f.0 == id).map(|f| f.1).collect()
}

// ---------------------------------------------------------------- one run

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _h = alloc::harness();
        let p = i.payload();
        if p.is::<Injected>() || p.is::<OverBudget>() || p.is::<crate::transport::PastEnd>() || p.is::<crate::transport::Blocked>() || p.is::<Viol>() {
            return;
        }
        let msg = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if std::env::var_os("PED_BACKTRACE").is_some() {
            eprintln!("{msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((loc, msg));
    }));
}

pub fn last_panic() -> (String, String) {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap_or_default()
}

/// What a caught panic means for the run.
pub fn panic_viol(p: Box<dyn std::any::Any + Send>) -> Result<Viol, String> {
    if p.is::<OverBudget>() {
        return Ok(Viol {
            class: "hang".into(),
            msg: "parsing does not end: source-call budget exhausted".into(),
        });
    }
    if p.is::<crate::transport::PastEnd>() {
        return Ok(Viol {
            class: "advance-past-end".into(),
            msg: "the source was advanced past its end".into(),
        });
    }
    if let Some(b) = p.downcast_ref::<crate::transport::Blocked>() {
        return Ok(Viol {
            class: "waits-beyond-item".into(),
            msg: format!("everything the item needs was delivered, yet the source was asked for byte {}", b.0),
        });
    }
    if let Some(v) = p.downcast_ref::<Viol>() {
        return Ok(v.clone());
    }
    if p.is::<Injected>() {
        return Err("injected panic escaped".into());
    }
    let (loc, msg) = last_panic();
    if loc.starts_with("src/") {
        return Err(format!("{msg} at {loc}"));
    }
    Ok(Viol { class: "panic".into(), msg: format!("panicked at {loc}: {msg}") })
}

pub enum Out {
    Ok,
    Viol(Viol),
    Harness(String),
}

pub fn one(id: &str, c: &Ctx) -> Out {
    let _h = alloc::harness();
    alloc::begin(0xA5A5_A5A5_A5A5_A5A5);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(id, c)));
    alloc::begin(0xA5A5_A5A5_A5A5_A5A5);
    match r {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(v)) => Out::Viol(v),
        Err(p) => match panic_viol(p) {
            Ok(v) => Out::Viol(v),
            Err(m) => Out::Harness(m),
        },
    }
}

/// As `one`, in a copy of this process made for the purpose; None: the copy died.
pub fn one_fresh(id: &str, c: &Ctx) -> Option<Out> {
    let r = iso::fresh(|| {
        let r = one(id, c);
        let mut e = Enc::default();
        match &r {
            Out::Ok => e.u(0),
            Out::Viol(v) => e.u(1).s(&v.class).s(&v.msg),
            Out::Harness(m) => e.u(2).s(m),
        };
        c.export(&mut e, !matches!(r, Out::Ok));
        e.0
    });
    let b = r.ok()?;
    let mut d = Dec(&b);
    let r = match d.u() {
        0 => Out::Ok,
        1 => Out::Viol(Viol { class: d.s(), msg: d.s() }),
        _ => Out::Harness(d.s()),
    };
    c.import(&mut d);
    Some(r)
}

// ----------------------------------------------------------------- worker

/// worker ID SEED START STRIDE END DIR DEADLINE_MS
pub fn worker(a: &[&str]) -> i32 {
    install_hook();
    let id = a[0];
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, start, stride, end, dir, dl) = (n(1), n(2), n(3), n(4), Path::new(a[5]), n(6));
    let known = known(id);
    let w = start % stride;
    let st = fs::File::create(dir.join(format!("st{w}"))).expect("status file");
    let t0 = Instant::now();
    let mut stats = Stats {
        faults: vec![0; FAULT_NAMES.len()],
        probes: vec![0; PROBE_NAMES.len()],
        steps: 0,
    };
    let mut seen: HashSet<u64> = HashSet::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut perturbed, mut broken) = (0u64, 0u64, 0u64);
    let mut idx = start;
    let mut out = String::new();
    while idx < end {
        if t0.elapsed().as_millis() as u64 > dl {
            break;
        }
        st.write_all_at(&(idx + 1).to_le_bytes(), 0).expect("status");
        let c = Ctx::new(run_seed(seed, id, idx), None, false, known.clone());
        let r = if props::isolated(id) {
            // a run that kills its process kills this one too, for the supervisor to see
            one_fresh(id, &c).unwrap_or_else(|| std::process::abort())
        } else {
            one(id, &c)
        };
        runs += 1;
        {
            let s = c.st();
            for (d, v) in stats.faults.iter_mut().zip(&s.stats.faults) {
                *d += v;
            }
            for (d, v) in stats.probes.iter_mut().zip(&s.stats.probes) {
                *d += v;
            }
            stats.steps += s.stats.steps;
            if s.perturbed {
                perturbed += 1;
                seen.insert(s.hash);
            }
            for k in &s.seen_known {
                *known_seen.entry(k.clone()).or_default() += 1;
            }
        }
        match r {
            Out::Ok => (),
            Out::Viol(v) => {
                let log = c.st().log.clone();
                fs::write(dir.join(format!("choices{w}")), json::nums(&log)).expect("write");
                out += &format!("V\t{idx}\t{}\t{}\n", v.class, v.msg.replace(['\n', '\t'], " "));
                break;
            }
            Out::Harness(m) => {
                // not an answer about this run; others may still give one
                out += &format!("H\t{idx}\t{}\n", m.replace(['\n', '\t'], " "));
                broken += 1;
                if broken > 200 {
                    break;
                }
            }
        }
        idx += stride;
    }
    out += &format!("S\t{runs}\t{}\t{perturbed}\n", stats.steps);
    for (i, v) in stats.faults.iter().enumerate() {
        out += &format!("F\t{i}\t{v}\n");
    }
    for (i, v) in stats.probes.iter().enumerate() {
        out += &format!("P\t{i}\t{v}\n");
    }
    for (k, v) in &known_seen {
        out += &format!("K\t{k}\t{v}\n");
    }
    let mut b = Vec::with_capacity(seen.len() * 8);
    for h in &seen {
        b.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("hashes{w}-{start}")), b).expect("write");
    print!("{out}");
    std::io::stdout().flush().ok();
    0
}

// ------------------------------------------------------- subprocess single run

/// exec ID SPEC OUT; SPEC: "seed:S:IDX" or "file:PATH".
/// Writes the result to OUT; with a seed, streams choices to OUT.choices.
pub fn exec(id: &str, spec: &str, out: &str) -> i32 {
    install_hook();
    let (prior, pseed) = prior_of(spec);
    for i in prior {
        // runs made before this one by the process that saw the violation
        let c = Ctx::new(run_seed(pseed, id, i), None, false, known(id));
        let _ = one(id, &c);
    }
    let c = ctx_of(id, spec, true);
    if spec.starts_with("seed:") {
        c.stream_to(&format!("{out}.choices"));
    }
    let r = one(id, &c);
    let s = c.st();
    let (code, class, msg) = match &r {
        Out::Ok => (0, String::new(), String::new()),
        Out::Viol(v) => (1, v.class.clone(), v.msg.clone()),
        Out::Harness(m) => (2, "harness".into(), m.clone()),
    };
    let t = format!(
        "{{\n \"class\": {},\n \"message\": {},\n \"hash\": {},\n \"choices\": {},\n \"trace\": {}\n}}\n",
        json::esc(&class),
        json::esc(&msg),
        json::esc(&format!("{:016x}", s.hash)),
        json::nums(&s.log),
        json::strs(&s.trace)
    );
    fs::write(out, t).expect("write");
    code
}

fn ctx_of(id: &str, spec: &str, tracing: bool) -> Ctx {
    let k = known(id);
    if let Some(r) = spec.strip_prefix("seed:") {
        let (s, i) = r.split_once(':').expect("spec");
        Ctx::new(
            run_seed(s.parse().expect("seed"), id, i.parse().expect("idx")),
            None,
            tracing,
            k,
        )
    } else {
        let f = spec.strip_prefix("file:").expect("spec");
        let t = fs::read_to_string(f).expect("choices file");
        let ch = parse_list(&t);
        Ctx::new(0, Some(ch), tracing, k)
    }
}

fn prior_of(spec: &str) -> (Vec<u64>, u64) {
    let Some(f) = spec.strip_prefix("file:") else { return (vec![], 0) };
    let t = fs::read_to_string(f).expect("choices file");
    let seed = json::get_nums(&t, "prior_seed").and_then(|v| v.first().copied()).unwrap_or(0);
    (json::get_nums(&t, "prior_runs").unwrap_or_default(), seed)
}

/// A file of choices, with the runs that must come before them in the same process.
fn choices_doc(choices: &[u64], prior: &[u64], seed: u64) -> String {
    if prior.is_empty() {
        return json::nums(choices);
    }
    format!(
        "{{\"prior_seed\": [{seed}], \"prior_runs\": {}, \"choices\": {}}}",
        json::nums(prior),
        json::nums(choices)
    )
}

fn parse_list(t: &str) -> Vec<u64> {
    if t.trim_start().starts_with('[') {
        let t = t.trim().trim_start_matches('[').trim_end_matches(']');
        t.split(',').filter_map(|x| x.trim().parse().ok()).collect()
    } else {
        json::get_nums(t, "choices").expect("choices")
    }
}

pub enum Sub {
    Ok,
    Viol { class: String, msg: String, hash: String, trace: Vec<String>, raw: String },
    Crash(String),
    Hang,
    Harness(String),
}

fn me() -> Command {
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.stdin(Stdio::null()).stderr(Stdio::null()).stdout(Stdio::null());
    c
}

fn wait_for(ch: &mut Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            return Some(s);
        }
        if t.elapsed() > d {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn sub(id: &str, spec: &str, dir: &Path, limit: Duration) -> Sub {
    let out = dir.join("sub.json");
    let _ = fs::remove_file(&out);
    let mut ch = me().args(["exec", id, spec, out.to_str().expect("utf8")]).spawn().expect("spawn");
    match wait_for(&mut ch, limit) {
        None => Sub::Hang,
        Some(s) => match s.code() {
            Some(0) => Sub::Ok,
            Some(1) => {
                let t = fs::read_to_string(&out).unwrap_or_default();
                Sub::Viol {
                    class: json::get_str(&t, "class").unwrap_or_default(),
                    msg: json::get_str(&t, "message").unwrap_or_default(),
                    hash: json::get_str(&t, "hash").unwrap_or_default(),
                    trace: vec![],
                    raw: t,
                }
            }
            Some(2) => {
                let t = fs::read_to_string(&out).unwrap_or_default();
                Sub::Harness(json::get_str(&t, "message").unwrap_or_default())
            }
            _ => Sub::Crash(match s.signal() {
                Some(n) => format!("killed by signal {n}"),
                None => format!("{s}"),
            }),
        },
    }
}

// ------------------------------------------------------------- minimisation

fn minimise(
    mut cur: Vec<u64>,
    limit: Duration,
    max: usize,
    mut fails: impl FnMut(&[u64]) -> bool,
) -> Vec<u64> {
    let t0 = Instant::now();
    let mut tries = 0;
    macro_rules! go {
        ($cand:expr) => {{
            let c: Vec<u64> = $cand;
            if t0.elapsed() > limit || tries > max {
                return cur;
            }
            tries += 1;
            if c != cur && fails(&c) {
                cur = c;
                true
            } else {
                false
            }
        }};
    }
    loop {
        let before = cur.clone();
        // shorter tail
        let mut n = cur.len();
        while n > 0 {
            n /= 2;
            let c = cur[..n].to_vec();
            if !go!(c) {
                break;
            }
        }
        // remove or zero blocks
        let mut sz = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() {
                let e = (i + sz).min(cur.len());
                let mut c = cur.clone();
                c.drain(i..e);
                if go!(c) {
                    continue;
                }
                if cur[i..e].iter().any(|&x| x != 0) {
                    let mut c = cur.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    go!(c);
                }
                i += sz;
            }
            if sz == 1 {
                break;
            }
            sz /= 2;
        }
        // smaller values
        let mut i = 0;
        while i < cur.len() {
            for d in [cur[i] >> 32, cur[i] / 2, cur[i].saturating_sub(1)] {
                if cur[i] != 0 && d < cur[i] {
                    let mut c = cur.clone();
                    c[i] = d;
                    if go!(c) {
                        break;
                    }
                }
            }
            i += 1;
        }
        while cur.last() == Some(&0) {
            cur.pop();
        }
        if cur == before {
            return cur;
        }
    }
}

/// shrink ID CLASS IN OUT: in-process minimisation of an ordinary violation.
pub fn shrink_cmd(id: &str, class: &str, inp: &str, out: &str) -> i32 {
    install_hook();
    let cur = parse_list(&fs::read_to_string(inp).expect("choices"));
    let k = known(id);
    let r = minimise(cur, Duration::from_secs(25), 20000, |c| {
        let x = Ctx::new(0, Some(c.to_vec()), false, k.clone());
        matches!(one_fresh(id, &x), Some(Out::Viol(v)) if v.class == class)
    });
    fs::write(out, json::nums(&r)).expect("write");
    0
}

// --------------------------------------------------------------- supervisor

struct Found {
    idx: u64,
    class: String,
    msg: String,
    choices: Option<Vec<u64>>,
    /// the runs its process had made before
    prior: Vec<u64>,
}

pub fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let Some(p) = props::info(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed = seed();
    let thorough = tier == "thorough";
    let mut total = if thorough { p.thorough } else { p.quick };
    if let Some(n) = std::env::var("PED_RUNS").ok().and_then(|s| s.parse().ok()) {
        total = n;
    }
    let cap_ms: u64 = if thorough { 780_000 } else { 150_000 };
    let nw = std::env::var("PED_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64))
        .clamp(1, 16);
    let dir = root().join("work").join(format!("{id}-{}", std::process::id()));
    fs::create_dir_all(&dir).expect("work dir");
    let r = search(id, p, tier, seed, total, nw, cap_ms, &dir, t0);
    let _ = fs::remove_dir_all(&dir);
    let _ = fs::remove_dir(root().join("work"));
    r
}

struct W {
    w: u64,
    start: u64,
    ch: Child,
    out: std::thread::JoinHandle<String>,
    last: u64,
    when: Instant,
    /// killed for taking too long
    slow: bool,
}

#[allow(clippy::too_many_arguments)]
fn search(
    id: &str,
    p: &props::Info,
    tier: &str,
    seed: u64,
    total: u64,
    nw: u64,
    cap_ms: u64,
    dir: &Path,
    t0: Instant,
) -> i32 {
    let spawn = |w: u64, start: u64| -> W {
        let _ = fs::remove_file(dir.join(format!("st{w}")));
        let left = cap_ms.saturating_sub(t0.elapsed().as_millis() as u64);
        let mut ch = me()
            .args([
                "worker",
                id,
                &seed.to_string(),
                &start.to_string(),
                &nw.to_string(),
                &total.to_string(),
                dir.to_str().expect("utf8"),
                &left.to_string(),
            ])
            .stdout(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let mut so = ch.stdout.take().expect("stdout");
        let out = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = so.read_to_string(&mut s);
            s
        });
        W { w, start, ch, out, last: 0, when: Instant::now(), slow: false }
    };
    let mut ws: Vec<W> = (0..nw).map(|w| spawn(w, w)).collect();
    let (mut runs, mut steps, mut perturbed) = (0u64, 0u64, 0u64);
    let mut faults = vec![0u64; FAULT_NAMES.len()];
    let mut probes = vec![0u64; PROBE_NAMES.len()];
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut found: Vec<Found> = vec![];
    let mut lost_workers = 0;
    let mut slow_runs = 0;
    let mut broken = 0u64;
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(5));
        let mut i = 0;
        while i < ws.len() {
            let status = || -> Option<u64> {
                let b = fs::read(dir.join(format!("st{}", ws[i].w))).ok()?;
                Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?)).filter(|&x| x > 0).map(|x| x - 1)
            };
            let cur = status();
            let w = &mut ws[i];
            let done = w.ch.try_wait().expect("wait");
            let mut bad: Option<u64> = None;
            if let Some(s) = done {
                let w = ws.swap_remove(i);
                let out = w.out.join().unwrap_or_default();
                let clean = s.code() == Some(0);
                for l in out.lines() {
                    let f: Vec<&str> = l.split('\t').collect();
                    let n = |k: usize| f[k].parse::<u64>().unwrap_or(0);
                    match f[0] {
                        "S" => {
                            runs += n(1);
                            steps += n(2);
                            perturbed += n(3);
                        }
                        "F" => faults[n(1) as usize] += n(2),
                        "P" => probes[n(1) as usize] += n(2),
                        "K" => *known_seen.entry(f[1].into()).or_default() += n(2),
                        "V" => {
                            let t = fs::read_to_string(dir.join(format!("choices{}", w.w)))
                                .unwrap_or_default();
                            found.push(Found {
                                idx: n(1),
                                class: f[2].into(),
                                msg: f[3].into(),
                                choices: Some(parse_list(&t)),
                                prior: (w.start..n(1)).step_by(nw as usize).collect(),
                            });
                        }
                        "H" => {
                            if broken == 0 {
                                eprintln!("harness error in run {} of {id} (seed {seed}): {}", f[1], f[2]);
                            }
                            broken += 1;
                        }
                        _ => (),
                    }
                }
                if !clean {
                    bad = Some(cur.unwrap_or(w.start));
                }
                if let Some(idx) = bad {
                    let lim = Duration::from_secs(if w.slow { SLOW_S } else { HANG_S });
                    match sub(id, &format!("seed:{seed}:{idx}"), dir, lim) {
                        Sub::Crash(m) => found.push(Found {
                            idx,
                            class: "crash".into(),
                            msg: format!("the process died: {m}"),
                            choices: None,
                            prior: vec![],
                        }),
                        Sub::Hang => found.push(Found {
                            idx,
                            class: "hang".into(),
                            msg: "the run does not end".into(),
                            choices: None,
                            prior: vec![],
                        }),
                        Sub::Viol { class, msg, raw, .. } => found.push(Found {
                            idx,
                            class,
                            msg,
                            choices: json::get_nums(&raw, "choices"),
                            prior: vec![],
                        }),
                        // long, but it ends: not this run again
                        Sub::Ok if w.slow && slow_runs < 5 => {
                            slow_runs += 1;
                            ws.push(spawn(w.w, idx + nw));
                        }
                        Sub::Ok | Sub::Harness(_) => {
                            // what earlier runs left behind in the process may be to blame
                            let prior: Vec<u64> = (w.start..idx).step_by(nw as usize).collect();
                            let t = fs::read_to_string(dir.join("sub.json")).unwrap_or_default();
                            if let (Some(ch), false) = (json::get_nums(&t, "choices"), prior.is_empty()) {
                                let cf = dir.join("cur.choices");
                                fs::write(&cf, choices_doc(&ch, &prior, seed)).expect("write");
                                let spec = format!("file:{}", cf.display());
                                if let Sub::Crash(m) = sub(id, &spec, dir, PRIOR_LIM) {
                                    found.push(Found {
                                        idx,
                                        class: "crash".into(),
                                        msg: format!("the process died: {m}"),
                                        choices: Some(ch),
                                        prior,
                                    });
                                    continue;
                                }
                            }
                            // the machine, not the run: carry on behind it
                            lost_workers += 1;
                            if lost_workers > 20 {
                                eprintln!("workers keep dying ({s})");
                                return 2;
                            }
                            ws.push(spawn(w.w, idx));
                        }
                    }
                }
                continue;
            }
            if cur != Some(w.last) {
                w.last = cur.unwrap_or(u64::MAX);
                w.when = Instant::now();
            } else if w.when.elapsed() > Duration::from_secs(HANG_S) {
                w.slow = true;
                let _ = w.ch.kill(); // picked up as a dead worker next time round
                w.when = Instant::now();
            }
            i += 1;
        }
        // a violation ends the search once every worker is past its run
        if let Some(m) = found.iter().map(|f| f.idx).min() {
            for w in &mut ws {
                if w.last != u64::MAX && w.last > m {
                    let _ = w.ch.kill();
                    let _ = w.ch.wait();
                }
            }
            ws.retain(|w| w.last == u64::MAX || w.last <= m);
        }
    }
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    if let Ok(d) = fs::read_dir(dir) {
        for e in d.flatten() {
            if e.file_name().to_string_lossy().starts_with("hashes") {
                if let Ok(b) = fs::read(e.path()) {
                    hashes.extend(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
                }
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    found.sort_by_key(|f| f.idx);
    for f in found {
        code = 2;
        if let Some(path) = report(id, seed, f, dir) {
            println!("VIOLATION property={id} replay={}", path.display());
            nviol = 1;
            code = 1;
            break;
        }
    }
    if code == 0 && broken > 0 {
        eprintln!("{broken} runs ended in a harness error");
        code = 2;
    }
    if code == 0 && runs == 0 {
        eprintln!("no run completed");
        code = 2;
    }
    let listed = findings();
    for (_, c, d) in listed.iter().filter(|f| f.0 == id) {
        println!(
            "KNOWN-FINDING: property={id} {d} [{}]",
            match known_seen.get(c) {
                Some(n) => format!("met in {n} runs"),
                None => "not met in this run".into(),
            }
        );
    }
    // samples: the first perturbed runs, written out
    let mut samples = vec![];
    if code == 0 {
        for idx in 0..3 {
            let out = dir.join("sample.json");
            let mut ch = me()
                .args(["exec", id, &format!("seed:{seed}:{idx}"), out.to_str().unwrap()])
                .spawn()
                .expect("spawn");
            if wait_for(&mut ch, Duration::from_secs(HANG_S)).is_some() {
                if let Ok(t) = fs::read_to_string(&out) {
                    let tr = t
                        .find("\"trace\": ")
                        .map(|i| t[i + 9..].trim_end().trim_end_matches('}').trim().to_string());
                    if let Some(tr) = tr {
                        samples.push(format!("{{\"run\": {idx}, \"trace\": {}}}", cut_list(&tr)));
                    }
                }
            }
        }
    }
    let fl: Vec<String> = FAULT_NAMES
        .iter()
        .zip(&faults)
        .filter(|x| *x.1 > 0)
        .map(|(n, v)| format!("{}: {v}", json::esc(n)))
        .collect();
    let pl: Vec<String> = PROBE_NAMES
        .iter()
        .zip(&probes)
        .filter(|x| *x.1 > 0)
        .map(|(n, v)| format!("{}: {v}", json::esc(n)))
        .collect();
    let kl: Vec<String> =
        known_seen.iter().map(|(n, v)| format!("{}: {v}", json::esc(n))).collect();
    let ev = format!(
        concat!(
            "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n",
            " \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {distinct},\n",
            "  \"rule\": {rule},\n  \"perturbed_runs\": {perturbed},\n",
            "  \"runs_per_hour\": {rph},\n  \"simulated_steps\": {steps},\n",
            "  \"simulated_time\": \"the library reads no clock; simulated progress is counted in source interactions (simulated_steps)\",\n",
            "  \"faults_injected\": {{{faults}}},\n  \"probes\": {{{probes}}},\n  \"known_findings_met\": {{{kl}}},\n",
            "  \"workers\": {nw},\n  \"planned_runs\": {total},\n",
            "  \"real_components\": {real},\n  \"stub_components\": {stub},\n",
            "  \"samples\": [{samples}]\n }},\n",
            " \"assumptions\": {assume},\n \"wall_s\": {wall:.2},\n \"violations\": {nviol}\n}}\n"
        ),
        id = json::esc(id),
        tier = json::esc(tier),
        seed = seed,
        runs = runs,
        distinct = hashes.len(),
        rule = json::esc(&format!(
            "{} A run is non-trivial when at least one fault or delivery perturbation fired in it; runs are distinct when their sequence of source interactions, faults and outcomes (64-bit hash) differs.",
            p.rule
        )),
        perturbed = perturbed,
        rph = (runs as f64 / search_s.max(0.001) * 3600.0) as u64,
        steps = steps,
        faults = fl.join(", "),
        probes = pl.join(", "),
        kl = kl.join(", "),
        nw = nw,
        total = total,
        real = json::strs(&[
            "all of perf-event-data, built from /repo's working tree".into(),
            "std::io::BufReader and the standard library".into(),
        ]),
        stub = json::strs(&[
            "the kernel that writes records (executable model)".into(),
            "sources: byte pieces, ring memory, io::Read under BufReader".into(),
            "the global allocator (accounting, canaries, garbage fill)".into(),
            "thread scheduling (baton passed by the simulator)".into(),
        ]),
        samples = samples.join(", "),
        assume = json::strs(&[
            "sources obey the ParseBuf contract (non-empty chunks, same data until advance, truthful remaining_hint)".into(),
            "little-endian 64-bit host; both byte orders of data are simulated".into(),
            "sampled, not exhaustive: a clean search is evidence, not proof".into(),
        ]),
        wall = t0.elapsed().as_secs_f64(),
        nviol = nviol,
    );
    let evd = root().join("evidence");
    fs::create_dir_all(&evd).expect("evidence dir");
    fs::write(evd.join(format!("{id}.json")), ev).expect("evidence");
    println!(
        "{id} {tier} seed={seed}: {runs} runs, {} distinct perturbed, {steps} steps, {:.1}s{}",
        hashes.len(),
        t0.elapsed().as_secs_f64(),
        if code == 0 { ", held" } else { "" }
    );
    if runs < total && code == 0 {
        println!("note: wall cap reached after {runs} of {total} runs");
    }
    code
}

fn cut_list(t: &str) -> String {
    // keep samples short: first 60 entries of a JSON string array
    let mut n = 0;
    let mut instr = false;
    let mut esc = false;
    for (i, ch) in t.char_indices() {
        if instr {
            if esc {
                esc = false;
            } else if ch == '\\' {
                esc = true;
            } else if ch == '"' {
                instr = false;
                n += 1;
                if n == 60 {
                    return format!("{}, \"...\"]", &t[..=i]);
                }
            }
        } else if ch == '"' {
            instr = true;
        }
    }
    t.to_string()
}

/// The runs that must come before `choices` in one process for the violation to show.
fn needed_prior(all: &[u64], mut fails: impl FnMut(&[u64]) -> bool) -> Option<Vec<u64>> {
    let mut k = 1;
    let mut cur = loop {
        if all.is_empty() {
            return None;
        }
        let tail = &all[all.len().saturating_sub(k)..];
        if fails(tail) {
            break tail.to_vec();
        }
        if k >= all.len() {
            return None;
        }
        k *= 4;
    };
    let t0 = Instant::now();
    let mut sz = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < cur.len() && t0.elapsed() < Duration::from_secs(60) {
            let mut c = cur.clone();
            c.drain(i..(i + sz).min(cur.len()));
            if !c.is_empty() && fails(&c) {
                cur = c;
            } else {
                i += sz;
            }
        }
        if sz == 1 {
            return Some(cur);
        }
        sz /= 2;
    }
}

/// Minimise, write the replay file, confirm it in a fresh process.
fn report(id: &str, seed: u64, f: Found, dir: &Path) -> Option<PathBuf> {
    println!("run {} of {id} (seed {seed}) violates the property: {}: {}", f.idx, f.class, f.msg);
    let hard = f.class == "crash" || f.class == "hang" && f.choices.is_none();
    let lim = Duration::from_secs(if hard { 10 } else { HANG_S });
    let choices = match f.choices {
        Some(c) => c,
        None => {
            // the run died: its choices were streamed to disk as it made them
            let spec = format!("seed:{seed}:{}", f.idx);
            let _ = sub(id, &spec, dir, lim);
            let b = fs::read(dir.join("sub.json.choices")).unwrap_or_default();
            b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect()
        }
    };
    let cf = dir.join("cur.choices");
    let spec = format!("file:{}", cf.display());
    let again = |ch: &[u64], prior: &[u64], lim: Duration| {
        fs::write(&cf, choices_doc(ch, prior, seed)).expect("write");
        match sub(id, &spec, dir, lim) {
            Sub::Viol { class, .. } => class == f.class,
            Sub::Crash(_) => f.class == "crash",
            Sub::Hang => f.class == "hang",
            _ => false,
        }
    };
    let mut prior = vec![];
    if !again(&choices, &[], lim) {
        if let Some(p) = needed_prior(&f.prior, |p| again(&choices, p, PRIOR_LIM)) {
            println!("needs {} of the {} runs made before it in the same process", p.len(), f.prior.len());
            prior = p;
        }
    }
    let small = if hard || !prior.is_empty() {
        let each = if prior.is_empty() { Duration::from_secs(4) } else { lim };
        minimise(choices.clone(), Duration::from_secs(40), 400, |c| again(c, &prior, each))
    } else {
        let (i, o) = (dir.join("in.choices"), dir.join("out.choices"));
        fs::write(&i, json::nums(&choices)).expect("write");
        let mut ch = me()
            .args(["shrink", id, &f.class, i.to_str()?, o.to_str()?])
            .spawn()
            .expect("spawn");
        let _ = wait_for(&mut ch, Duration::from_secs(60));
        fs::read_to_string(&o).map(|t| parse_list(&t)).unwrap_or(choices.clone())
    };
    let rd = root().join("replays");
    fs::create_dir_all(&rd).expect("replays dir");
    let path = rd.join(format!("{id}-{seed}-{}.json", f.idx));
    let doc = |class: &str, msg: &str, hash: &str, cand: &[u64], prior: &[u64], trace: &str| {
        let p = match prior {
            [] => String::new(),
            p => format!(" \"prior_seed\": [{seed}],\n \"prior_runs\": {},\n", json::nums(p)),
        };
        format!(
            "{{\n \"property\": {},\n \"class\": {},\n \"message\": {},\n \"seed\": {seed},\n \"run\": {},\n \"hash\": {},\n{p} \"choices_before_minimisation\": {},\n \"choices\": {},\n \"trace\": {trace}\n}}\n",
            json::esc(id),
            json::esc(class),
            json::esc(msg),
            f.idx,
            json::esc(hash),
            choices.len(),
            json::nums(cand),
        )
    };
    let lim = if prior.is_empty() { lim } else { PRIOR_LIM };
    for cand in [&small, &choices] {
        fs::write(&cf, choices_doc(cand, &prior, seed)).expect("write");
        let (class, msg, hash, raw) = match sub(id, &spec, dir, lim) {
            Sub::Viol { class, msg, hash, raw, .. } => (class, msg, hash, raw),
            Sub::Crash(m) => ("crash".into(), m, String::new(), String::new()),
            Sub::Hang => ("hang".into(), "the run does not end".into(), String::new(), String::new()),
            _ => continue,
        };
        if class != f.class {
            continue;
        }
        let trace = raw
            .find("\"trace\": ")
            .map_or("[]".into(), |i| raw[i + 9..].trim_end().trim_end_matches('}').trim().to_string());
        fs::write(&path, doc(&class, &msg, &hash, cand, &prior, &trace)).expect("replay file");
        // a fresh process must fail the same way
        let ok = match sub(id, &format!("file:{}", path.display()), dir, lim) {
            Sub::Viol { class: c2, hash: h2, .. } => c2 == class && h2 == hash,
            Sub::Crash(_) => class == "crash",
            Sub::Hang => class == "hang",
            _ => false,
        };
        if ok {
            println!("minimised from {} to {} choices: {class}: {msg}", choices.len(), cand.len());
            return Some(path);
        }
        eprintln!("replay of {} did not reproduce the violation", path.display());
    }
    if hard || f.class == "hang" {
        eprintln!("the violation could not be reproduced from its choices");
        return None;
    }
    // the simulator decides everything a run depends on, so the code under test depends on
    // something else (a clock, an address, a random number)
    println!("the library does not behave the same way twice: not exactly reproducible");
    fs::write(&path, doc(&f.class, &f.msg, "", &choices, &f.prior, "[]")).expect("replay file");
    Some(path)
}

// ------------------------------------------------------------ replay, tools

pub fn replay(file: &str) -> i32 {
    let Ok(doc) = fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let (Some(id), Some(class)) = (json::get_str(&doc, "property"), json::get_str(&doc, "class"))
    else {
        eprintln!("not a replay file");
        return 2;
    };
    let hash = json::get_str(&doc, "hash").unwrap_or_default();
    let dir = root().join("work").join(format!("replay-{}", std::process::id()));
    fs::create_dir_all(&dir).expect("work dir");
    let lim = match json::get_nums(&doc, "prior_runs") {
        None => Duration::from_secs(HANG_S),
        Some(_) => PRIOR_LIM,
    };
    let r = sub(&id, &format!("file:{file}"), &dir, lim);
    let _ = fs::remove_dir_all(&dir);
    let _ = fs::remove_dir(root().join("work"));
    match r {
        Sub::Ok => {
            println!("no violation: {id} holds on this history");
            0
        }
        Sub::Harness(m) => {
            eprintln!("harness error: {m}");
            2
        }
        Sub::Crash(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Sub::Hang => {
            println!("the run does not end");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Sub::Viol { class: c, msg, hash: h, raw, .. } => {
            println!("{}", raw);
            println!("{c}: {msg}");
            println!(
                "{}",
                if c == class && h == hash {
                    "reproduced exactly (same class, same event hash)"
                } else {
                    "a different violation than recorded"
                }
            );
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}

pub fn trace(id: &str, seed: &str, idx: &str) -> i32 {
    install_hook();
    let c = ctx_of(id, &format!("seed:{seed}:{idx}"), true);
    let r = one(id, &c);
    for l in &c.st().trace {
        println!("{l}");
    }
    match r {
        Out::Ok => println!("held"),
        Out::Viol(v) => println!("VIOLATED {}: {}", v.class, v.msg),
        Out::Harness(m) => println!("HARNESS {m}"),
    }
    0
}

/// Print one line per run: a hash over events, choices and outcome.
pub fn determinism(id: &str, seed: &str, n: &str) -> i32 {
    install_hook();
    let n: u64 = n.parse().expect("runs");
    for i in 0..n {
        let c = ctx_of(id, &format!("seed:{seed}:{i}"), true);
        let r = one(id, &c);
        let o = match r {
            Out::Ok => "ok".to_string(),
            Out::Viol(v) => v.class,
            Out::Harness(m) => m,
        };
        let s = c.st();
        let mut h = s.hash;
        for x in &s.log {
            h = mix(h, *x);
        }
        for t in &s.trace {
            for b in t.bytes() {
                h = mix(h, b as u64);
            }
        }
        println!("{id} {i} {h:016x} {} {o}", s.log.len());
    }
    0
}
