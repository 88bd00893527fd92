//! What a rendering says: a reader for the text `Debug` writes, writers that fail, and the
//! comparison of both with what the accessors say.
//!
//! The reader knows Rust's way of writing structs, lists and strings, not the library's choice
//! of them: numbers may be decimal or hexadecimal, flags and enumerators named or numeric, absent
//! fields left out or shown as `None`.

use crate::alloc;
use crate::ctx::*;
use crate::model::*;
use perf_event_data::parse::{ErrorKind, ParseError};
use std::cell::RefCell;
use std::error::Error;
use std::fmt::{self, Debug, Display, Write};

// ------------------------------------------------------------------ reading

#[derive(Debug)]
pub enum Node {
    Atom(String),
    /// contents, and which bytes were written as `\xNN`
    Str(Vec<u8>, Vec<bool>, String),
    List(Vec<Node>),
    Tuple(String, Vec<Node>),
    Struct(String, Vec<(String, Node)>),
}
use Node::*;

struct Reader<'a> {
    s: &'a [u8],
    i: usize,
}
type Rr<T> = Result<T, String>;

impl Reader<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn list(&mut self, close: u8) -> Rr<Vec<Node>> {
        self.i += 1;
        let mut v = vec![];
        loop {
            self.ws();
            match self.peek() {
                0 => return Err("text ends inside brackets".into()),
                x if x == close => {
                    self.i += 1;
                    return Ok(v);
                }
                b',' => self.i += 1,
                _ => v.push(self.value()?),
            }
        }
    }
    fn atom(&mut self) -> String {
        self.ws();
        let from = self.i;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b',' | b'(' | b')' | b'[' | b']' | b'{' | b'}' | b'"' => break,
                b':' if self.s.get(self.i + 1) == Some(&b':') => self.i += 1,
                b':' => break,
                _ => (),
            }
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[from..self.i]).trim().to_string()
    }
    fn string(&mut self) -> Rr<Node> {
        self.i += 1;
        let from = self.i;
        let (mut b, mut raw) = (vec![], vec![]);
        loop {
            let c = self.peek();
            if self.i >= self.s.len() {
                return Err("text ends inside a string".into());
            }
            self.i += 1;
            if c == b'"' {
                let src = String::from_utf8_lossy(&self.s[from..self.i - 1]).into_owned();
                return Ok(Str(b, raw, src));
            }
            if c < 0x20 || c == 0x7f {
                return Err(format!("control character {c:#x} in a string, unescaped"));
            }
            if c != b'\\' {
                b.push(c);
                raw.push(false);
                continue;
            }
            let e = self.peek();
            self.i += 1;
            let one = match e {
                b'n' => b'\n',
                b'r' => b'\r',
                b't' => b'\t',
                b'0' => 0,
                b'\\' | b'\'' | b'"' => e,
                b'x' => {
                    let h = self.s.get(self.i..self.i + 2).and_then(|h| std::str::from_utf8(h).ok());
                    self.i += 2;
                    let v = h.and_then(|h| u8::from_str_radix(h, 16).ok()).ok_or("bad \\x escape")?;
                    b.push(v);
                    raw.push(true);
                    continue;
                }
                b'u' => {
                    let rest = &self.s[self.i..];
                    let end = rest.iter().position(|&x| x == b'}').ok_or("bad \\u escape")?;
                    let h = std::str::from_utf8(&rest[..end]).map_err(|_| "bad \\u escape")?;
                    let v = u32::from_str_radix(h.trim_start_matches('{'), 16).map_err(|_| "bad \\u escape")?;
                    let ch = char::from_u32(v).ok_or("bad \\u escape")?;
                    self.i += end + 1;
                    let mut buf = [0; 4];
                    for &x in ch.encode_utf8(&mut buf).as_bytes() {
                        b.push(x);
                        raw.push(false);
                    }
                    continue;
                }
                _ => return Err(format!("unknown escape \\{}", e as char)),
            };
            b.push(one);
            raw.push(false);
        }
    }
    fn value(&mut self) -> Rr<Node> {
        self.ws();
        match self.peek() {
            b'"' => return self.string(),
            b'[' => return self.list(b']').map(List),
            b'{' => return self.list(b'}').map(List),
            _ => (),
        }
        let name = self.atom();
        match self.peek() {
            b'(' => Ok(Tuple(name, self.list(b')')?)),
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    match self.peek() {
                        b'}' => {
                            self.i += 1;
                            return Ok(Struct(name, v));
                        }
                        b',' => {
                            self.i += 1;
                            continue;
                        }
                        _ => (),
                    }
                    let from = self.i;
                    let key = self.atom();
                    if key == ".." {
                        continue;
                    }
                    if self.peek() != b':' {
                        return Err(format!("no field name at {from} of the text"));
                    }
                    self.i += 1;
                    v.push((key, self.value()?));
                }
            }
            b')' | b']' | b'}' | b',' | 0 => Ok(Atom(name)),
            c => Err(format!("stray {:?} at {} of the text", c as char, self.i)),
        }
    }
}

pub fn read(s: &str) -> Rr<Node> {
    let mut r = Reader { s: s.as_bytes(), i: 0 };
    let n = r.value()?;
    r.ws();
    if r.i != r.s.len() {
        return Err(format!("stray text behind {} of {} bytes", r.i, r.s.len()));
    }
    Ok(n)
}

impl Node {
    /// The outermost struct.
    fn main(&self) -> Option<&Node> {
        match self {
            Struct(_, _) => Some(self),
            Tuple(_, v) | List(v) => v.iter().find_map(Node::main),
            _ => None,
        }
    }
    fn get(&self, k: &str) -> Option<&Node> {
        match self {
            Struct(_, v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x),
            // Some(..) and newtypes
            Tuple(_, v) if v.len() == 1 => v[0].get(k),
            _ => None,
        }
    }
    fn items(&self) -> Option<&[Node]> {
        match self {
            List(v) => Some(v),
            Tuple(_, v) if v.len() == 1 => v[0].items(),
            _ => None,
        }
    }
    fn absent(&self) -> bool {
        matches!(self, Atom(s) if s == "None")
    }
    fn num(&self, names: Names) -> Option<u64> {
        match self {
            Tuple(_, v) if v.len() == 1 => v[0].num(names),
            Atom(s) => {
                let mut v = 0;
                for w in s.split('|') {
                    let w = w.trim().rsplit("::").next().unwrap_or("");
                    v |= match w {
                        "true" => 1,
                        "false" | "(empty)" => 0,
                        _ => match names.iter().find(|n| n.0 == w) {
                            Some(n) => n.1,
                            None => number(w)?,
                        },
                    };
                }
                Some(v)
            }
            _ => None,
        }
    }
    fn words(&self) -> Option<Vec<u64>> {
        self.items()?.iter().map(|n| n.num(&[])).collect()
    }
    fn bytes(&self) -> Option<Vec<u8>> {
        match self {
            Str(b, _, _) => Some(b.clone()),
            Atom(h) => hex(h),
            _ => self.words()?.into_iter().map(|w| u8::try_from(w).ok()).collect(),
        }
    }
}

fn number(s: &str) -> Option<u64> {
    match s.strip_prefix("0x").or(s.strip_prefix("0X")) {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => s.parse().ok(),
    }
}

fn hex(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix("0x").unwrap_or(s);
    if !s.is_ascii() || s.len() % 2 != 0 {
        return None;
    }
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).ok()).collect()
}

// -------------------------------------------------------------------- names

type Names = &'static [(&'static str, u64)];
const AUX: Names = &[("TRUNCATED", 1), ("OVERWRITE", 2), ("PARTIAL", 4), ("COLLISION", 8), ("PMU_FORMAT_MASK", 0xff00)];
const KSYM: Names = &[("UNKNOWN", 0), ("BPF", 1), ("OOL", 2)];
const KSYMF: Names = &[("UNREGISTER", 1)];
const BPF: Names = &[("UNKNOWN", 0), ("PROG_LOAD", 1), ("PROG_UNLOAD", 2)];
const ABI: Names = &[("NONE", 0), ("ABI_32", 1), ("ABI_64", 2)];
const OP: Names = &[("NA", 1), ("LOAD", 2), ("STORE", 4), ("PFETCH", 8), ("EXEC", 16)];
const LVL: Names = &[
    ("NA", 1), ("HIT", 2), ("MISS", 4), ("L1", 8), ("LFB", 0x10), ("L2", 0x20), ("L3", 0x40), ("LOC_RAM", 0x80),
    ("REM_RAM1", 0x100), ("REM_RAM2", 0x200), ("REM_CCE1", 0x400), ("REM_CCE2", 0x800), ("IO", 0x1000), ("UNC", 0x2000),
];
const SNOOP: Names = &[
    ("NA", 1 << 19), ("NONE", 2 << 19), ("HIT", 4 << 19), ("MISS", 8 << 19), ("HITM", 16 << 19), ("FWD", 1 << 38),
    ("PEER", 2 << 38),
];
const LOCK: Names = &[("NA", 1), ("LOCKED", 2)];
const DTLB: Names =
    &[("NA", 1), ("HIT", 2), ("MISS", 4), ("L1", 8), ("L2", 0x10), ("WK", 0x20), ("OS", 0x40)];
const NUM: Names = &[
    ("L1", 1), ("L2", 2), ("L3", 3), ("L4", 4), ("ANY_CACHE", 11), ("LFB", 12), ("RAM", 13), ("PMEM", 14), ("NA", 15),
];
const BLK: Names = &[("NA", 1), ("DATA", 2), ("ADDR", 4)];
const TXN: Names = &[
    ("ELISION", 1), ("TRANSACTION", 2), ("SYNC", 4), ("ASYNC", 8), ("RETRY", 16), ("CONFLICT", 32),
    ("CAPACITY_WRITE", 64), ("CAPACITY_READ", 128), ("ABORT_MASK", 0xffff_ffff_0000_0000),
];
const RF: Names = &[("TOTAL_TIME_ENABLED", 1), ("TOTAL_TIME_RUNNING", 2), ("ID", 4), ("GROUP", 8), ("LOST", 16)];
const ST: Names = &[
    ("IP", 1), ("TID", 1 << 1), ("TIME", 1 << 2), ("ADDR", 1 << 3), ("READ", 1 << 4), ("CALLCHAIN", 1 << 5),
    ("ID", 1 << 6), ("CPU", 1 << 7), ("PERIOD", 1 << 8), ("STREAM_ID", 1 << 9), ("RAW", 1 << 10),
    ("BRANCH_STACK", 1 << 11), ("REGS_USER", 1 << 12), ("STACK_USER", 1 << 13), ("WEIGHT", 1 << 14),
    ("DATA_SRC", 1 << 15), ("IDENTIFIER", 1 << 16), ("TRANSACTION", 1 << 17), ("REGS_INTR", 1 << 18),
    ("PHYS_ADDR", 1 << 19), ("AUX", 1 << 20), ("CGROUP", 1 << 21), ("DATA_PAGE_SIZE", 1 << 22),
    ("CODE_PAGE_SIZE", 1 << 23), ("WEIGHT_STRUCT", 1 << 24),
];
const SOURCE: [(&str, Names); 9] = [
    ("mem_op", OP), ("mem_lvl", LVL), ("mem_snoop", SNOOP), ("mem_lock", LOCK), ("mem_dtlb", DTLB),
    ("mem_lvl_num", NUM), ("mem_remote", &[]), ("mem_blk", BLK), ("mem_hops", &[]),
];

fn names_of(kind: &str, key: &str) -> Names {
    match (kind, key) {
        ("aux", "flags") | (_, "aux_flags") => AUX,
        ("ksymbol", "ksym_type") | (_, "ksym_type") => KSYM,
        ("ksymbol", "flags") | (_, "ksym_flags") => KSYMF,
        ("bpf_event", "ty") | (_, "bpf_type") => BPF,
        (_, "abi") => ABI,
        (_, "txn") => TXN,
        (_, "read_format") => RF,
        (_, "sample_type") => ST,
        _ => &[],
    }
}

// --------------------------------------------------------------- comparing

/// Text must keep what is valid and escape the rest.
fn text(n: &Node, want: &[u8]) -> Rr<()> {
    let Str(b, raw, src) = n else { return Err(format!("not shown as text: {n:?}")) };
    if b[..] != *want {
        return Err(format!("reads {:?}, should be {:?}", show(b), show(want)));
    }
    let (mut i, mut letters) = (0, String::new());
    for ch in want.utf8_chunks() {
        let v = ch.valid().len();
        if raw[i..i + v].iter().any(|&x| x) {
            return Err(format!("valid text at {i} is shown as bytes"));
        }
        i += v + ch.invalid().len();
        letters.extend(ch.valid().chars().filter(char::is_ascii_alphanumeric));
    }
    // plain letters stay readable
    let mut left = src.chars();
    match letters.chars().all(|l| left.any(|x| x == l)) {
        true => Ok(()),
        false => Err("plain letters are not shown as they are".into()),
    }
}

fn show(b: &[u8]) -> String {
    let n = b.len().min(60);
    format!("{}{}", b[..n].escape_ascii(), if n < b.len() { ".." } else { "" })
}

fn regs(n: &Node, w: &[u64]) -> Option<bool> {
    Some(
        n.get("abi")?.num(ABI)? == w[0]
            && n.get("mask")?.num(&[])? == w[2]
            && n.get("regs")?.words()?[..] == w[3..],
    )
}
fn entries(n: &Node, w: &[u64]) -> Option<bool> {
    let v = n.items()?;
    if v.len() * 5 != w.len() {
        return Some(false);
    }
    for (n, w) in v.iter().zip(w.chunks(5)) {
        let o = |k: &str, has: u64, x: u64| match n.get(k) {
            Some(y) if !y.absent() => (has, y.num(&[])) == (1, Some(x)),
            _ => has == 0,
        };
        if n.get("value")?.num(&[])? != w[0] || !o("id", w[1], w[2]) || !o("lost", w[3], w[4]) {
            return Some(false);
        }
    }
    Some(true)
}
fn pairs(n: &Node, w: &[u64], a: &str, b: &str, step: usize) -> Option<bool> {
    let v = n.items()?;
    if v.len() * step != w.len() {
        return Some(false);
    }
    for (n, w) in v.iter().zip(w.chunks(step)) {
        let m = n.main()?;
        if m.get(a)?.num(&[])? != w[0] || m.get(b)?.num(&[])? != w[1] {
            return Some(false);
        }
    }
    Some(true)
}
fn source(n: &Node, w: &[u64]) -> Option<bool> {
    let m = n.main()?;
    for ((k, names), w) in SOURCE.iter().zip(w) {
        if m.get(k)?.num(names)? != *w {
            return Some(false);
        }
    }
    Some(true)
}

/// Does the text state what the accessors say?
fn states(t: &Node, o: &Obs) -> Rr<()> {
    let kind = o.iter().find_map(|(k, v)| match v {
        V::S(s) if *k == "kind" => Some(*s),
        _ => None,
    });
    let kind = kind.unwrap_or("");
    let bare = Atom(String::new());
    let m = t.main().unwrap_or(&bare);
    for (k, v) in o {
        let bad = |n: &Node| format!("{k}: should state {v:?}, says {n:?}");
        let at = match *k {
            "kind" | "flag_names" | "type_names" | "format_names" | "v.len" | "filename_os" | "comm_os" | "path_os"
            | "network" | "uts" | "ipc" | "pid_ns" | "user" | "cgroup_ns" | "pmu_format" => continue,
            "variant" => {
                let (Atom(n) | Tuple(n, _) | Struct(n, _)) = t else { return Err(bad(t)) };
                let V::S(want) = v else { continue };
                if n.to_lowercase() != want.replace('_', "") {
                    return Err(bad(t));
                }
                continue;
            }
            "out" => {
                let Struct(n, _) = m else { return Err(bad(m)) };
                if (n == "Out", n == "In") != (*v == V::U(1), *v == V::U(0)) {
                    return Err(bad(m));
                }
                continue;
            }
            k if k.starts_with("self:") => Some(t),
            "v.enabled" => m.get("values").unwrap_or(m).get("time_enabled"),
            "v.running" => m.get("values").unwrap_or(m).get("time_running"),
            "v.entries" => m.get("values").unwrap_or(m).get("entries"),
            "enabled" | "running" | "value" | "id" | "lost" if kind == "read" || kind == "reading" => {
                let k = match *k {
                    "enabled" => "time_enabled",
                    "running" => "time_running",
                    k => k,
                };
                m.get("values").unwrap_or(m).get(k)
            }
            "old" => m.get("old_bytes"),
            "new" => m.get("new_bytes"),
            "entries" => m.get("namespaces"),
            k => match k.strip_prefix("sid.") {
                Some(k) => m.get("sample_id").unwrap_or(m).get(k),
                None => m.get(k),
            },
        };
        let Some(n) = at.filter(|n| !n.absent()) else {
            if *v == V::N {
                continue;
            }
            return Err(format!("{k}: {v:?} is not stated"));
        };
        let k = k.trim_start_matches("self:");
        let ok = match (k, v) {
            (_, V::N) => Some(false),
            ("filename" | "comm" | "path" | "name", V::B(b)) => {
                text(n, b).map_err(|e| format!("{k}: {e}"))?;
                continue;
            }
            // an identifier, in hexadecimal
            ("build_id", V::B(b)) => match n {
                Atom(h) => hex(h).map(|x| x == *b),
                Str(_, _, h) => hex(h).map(|x| x == *b),
                _ => Some(false),
            },
            (_, V::B(b)) => n.bytes().map(|x| x == *b),
            ("v.entries", V::W(w)) => entries(n, w),
            ("regs_user" | "regs_intr", V::W(w)) => regs(n, w),
            ("entries", V::W(w)) => pairs(n, w, "dev", "inode", 2),
            ("lbr", V::W(w)) => pairs(n, w, "from", "to", 9),
            ("data_src", V::W(w)) => source(n, w),
            ("transaction", V::W(w)) => n.num(TXN).map(|x| x == w[0]),
            (_, V::W(w)) => n.words().map(|x| x == *w),
            (_, V::U(u)) => n.num(names_of(kind, k)).map(|x| x == *u),
            (_, V::S(_)) => Some(true),
        };
        if ok != Some(true) {
            return Err(bad(n));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ writers

/// A writer that fails when more than `left` bytes reach it.
struct Sink {
    left: usize,
    got: String,
    /// takes what still fits
    cut: bool,
    /// recovers after refusing once
    once: bool,
    failed: u64,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed > 0 && self.once {
            self.got.push_str(s);
            return Ok(());
        }
        if self.failed == 0 && s.len() <= self.left {
            self.left -= s.len();
            self.got.push_str(s);
            return Ok(());
        }
        if self.failed == 0 && self.cut {
            let mut n = self.left;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            self.got.push_str(&s[..n]);
        }
        self.failed += 1;
        Err(fmt::Error)
    }
}

/// What is watched while a run parses.
struct Watch {
    c: Ctx,
    viol: Option<Viol>,
    seen: u64,
}
thread_local! {
    static WATCH: RefCell<Option<Watch>> = const { RefCell::new(None) };
}

/// Render everything observed from here on; gives what was wrong with it.
pub fn watched<T>(c: &Ctx, f: impl FnOnce() -> T) -> Result<T, Viol> {
    WATCH.set(Some(Watch { c: c.clone(), viol: None, seen: 0 }));
    // unwinding leaves nothing behind for the next run
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            WATCH.take();
        }
    }
    let _off = Off;
    let x = f();
    match WATCH.take().and_then(|w| w.viol) {
        Some(v) => Err(v),
        None => Ok(x),
    }
}

/// Is anything looked at?
pub fn watching() -> bool {
    WATCH.with_borrow(|w| w.is_some())
}

fn with(f: impl FnOnce(&Ctx) -> Result<(), (&'static str, String)>) {
    // one look is enough to know that nobody watches
    let c = WATCH.with_borrow(|w| w.as_ref().filter(|w| w.viol.is_none() && w.seen < 40).map(|w| w.c.clone()));
    let Some(c) = c else { return };
    let _h = alloc::harness();
    let r = f(&c);
    WATCH.with_borrow_mut(|w| {
        let w = w.as_mut().expect("watch");
        w.seen += 1;
        if let Err((class, msg)) = r {
            w.viol = Some(Viol { class: class.into(), msg });
        }
    });
}

fn short(s: &str) -> String {
    match s.char_indices().nth(300) {
        Some((n, _)) => format!("{}..", &s[..n]),
        None => s.into(),
    }
}

/// Render into failing writers; `full` is the whole text.
fn sinks(c: &Ctx, full: &str, draw: &dyn Fn(&mut Sink) -> fmt::Result) -> Result<(), (&'static str, String)> {
    for _ in 0..2 {
        let left = match c.idx(3) {
            0 => c.idx(full.len().min(40) + 2),
            1 => full.len().saturating_sub(c.idx(20)),
            _ => c.idx(full.len() + 2),
        };
        let (cut, once) = (c.chance(1, 2), c.chance(1, 3));
        let mut s = Sink { left, got: String::new(), cut, once, failed: 0 };
        let r = draw(&mut s);
        if s.failed > 0 {
            c.fault(Fault::SinkError);
        }
        let what = || format!("writer with room for {left} of {} bytes, text {:?}", full.len(), short(full));
        if r.is_err() != (s.failed > 0) {
            return Err(("writer-failure-lost", format!("{}: failed {} times, rendering says {r:?}", what(), s.failed)));
        }
        if r.is_ok() && s.got != full {
            return Err(("unstable-text", format!("{}: a second rendering differs: {:?}", what(), short(&s.got))));
        }
        if !full.starts_with(&s.got) {
            return Err(("garbled-text", format!("{}: it got {:?}", what(), short(&s.got))));
        }
    }
    Ok(())
}

/// Something was parsed; `o` is what its accessors say.
pub fn see<T: Debug>(r: &T, o: &Obs) {
    with(|c| {
        for style in [0, 1 + c.idx(2)] {
            let full = match style {
                0 => format!("{r:?}"),
                1 => format!("{r:#?}"),
                _ => format!("{r:#x?}"),
            };
            c.ev(31, full.len() as u64);
            read(&full)
                .map_err(|e| ("unreadable-text", e))
                .and_then(|t| states(&t, o).map_err(|e| ("value-not-stated", e)))
                .map_err(|(k, e)| (k, format!("{e}, in {:?}", short(&full))))?;
            sinks(c, &full, &|s| match style {
                0 => write!(s, "{r:?}"),
                1 => write!(s, "{r:#?}"),
                _ => write!(s, "{r:#x?}"),
            })?;
        }
        c.probe(Probe::Rendered);
        Ok(())
    })
}

/// Does the text give its cause, set apart from what is said before it?
fn causes(text: &str, e: &(dyn Error + 'static)) -> Result<(), String> {
    if text.trim() != text || text.is_empty() || !text.starts_with(|c: char| c.is_alphanumeric()) {
        return Err("not a message".into());
    }
    let Some(s) = e.source() else { return Ok(()) };
    let s = s.to_string();
    if s.is_empty() {
        return Ok(());
    }
    let apart = text.match_indices(&s).any(|(i, _)| {
        let before = text[..i].chars().next_back().map_or(false, char::is_alphanumeric);
        let after = text[i + s.len()..].chars().next().map_or(false, char::is_alphanumeric);
        !before && !after
    });
    match apart {
        true => Ok(()),
        false => Err(format!("the cause {s:?} is not told")),
    }
}

/// A parse failed.
pub fn see_err(e: &ParseError) {
    with(|c| {
        let full = e.to_string();
        let why = |m: String| ("message-without-cause", format!("{m}, in {:?}", short(&full)));
        causes(&full, e).map_err(why)?;
        let low = full.to_lowercase();
        let told = match e.kind() {
            ErrorKind::Eof => low.contains("eof") || low.contains("end"),
            ErrorKind::InvalidRecord => low.contains("invalid"),
            ErrorKind::UnsupportedData | ErrorKind::UnsupportedConfig => low.contains("support"),
            _ => true,
        };
        if !told {
            return Err(("kind-not-told", format!("{:?} rendered as {full:?}", e.kind())));
        }
        sinks(c, &full, &|s| write!(s, "{e}"))?;
        let full = format!("{e:?}");
        let cause = e.source().map_or(String::new(), |s| format!("{s:?}"));
        if !full.contains(&format!("{:?}", e.kind())) || !full.contains(&cause) {
            return Err(("kind-not-told", format!("{:?}, {cause:?} rendered as {full:?}", e.kind())));
        }
        sinks(c, &full, &|s| write!(s, "{e:?}"))?;
        c.probe(Probe::Rendered);
        Ok(())
    })
}

/// Some other error of the library's.
pub fn see_other(e: &(impl Error + Display + 'static)) {
    with(|c| {
        let full = e.to_string();
        causes(&full, e).map_err(|m| ("message-without-cause", format!("{m}, in {full:?}")))?;
        sinks(c, &full, &|s| write!(s, "{e}"))
    })
}
