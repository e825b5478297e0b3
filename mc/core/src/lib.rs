//! Bounded-exhaustive explicit-choice model checker.
//!
//! A *family* is a driver: a deterministic function of a sequence of choices (`Cx::pick`).
//! The explorer enumerates *every* choice sequence (stateless depth-first search with an
//! odometer, replaying prefixes), runs the real implementation on each and lets the driver
//! compare what it observed with a reference model.  Nothing is sampled.
//!
//! The explorer runs in a child process.  Workers publish the case they are executing in a
//! shared mapping, so that a crash, a hang or memory exhaustion of the code under test is
//! attributed to one case, which the parent re-executes in isolation before reporting it.

pub mod alloc;
pub mod exact;

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

// ---------------------------------------------------------------------------------------
// choice context

#[derive(Debug)]
pub enum Stop {
    /// Not a case (symmetric to another one, or outside the property's domain).
    Prune,
    Fail(Failure),
}

#[derive(Debug, Clone)]
pub struct Failure {
    /// Which part of the oracle disagreed.
    pub label: String,
    pub msg: String,
}

pub type R = Result<(), Stop>;

pub fn fail<T>(label: &str, msg: String) -> Result<T, Stop> {
    Err(Stop::Fail(Failure { label: label.to_string(), msg }))
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $label:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::fail($label, format!($($arg)*));
        }
    };
}

pub struct Cx {
    choices: Vec<u32>,
    widths: Vec<u32>,
    pos: usize,
    pub tier: Tier,
    pub describe: bool,
    notes: Vec<String>,
    stream: Option<std::fs::File>,
    calls: u64,
    outcomes: BTreeMap<&'static str, u64>,
    slot: *mut u64,
    diverged: bool,
    searched: (u64, u64),
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

impl Cx {
    fn new(tier: Tier) -> Self {
        Cx {
            choices: vec![],
            widths: vec![],
            pos: 0,
            tier,
            describe: false,
            notes: vec![],
            stream: None,
            calls: 0,
            outcomes: BTreeMap::new(),
            slot: std::ptr::null_mut(),
            diverged: false,
            searched: (0, 0),
        }
    }

    /// Choose one of `n` alternatives; the explorer tries them all, 0 first.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n >= 1, "pick(0)");
        if n == 1 {
            return 0;
        }
        let i = self.pos;
        self.pos += 1;
        if i < self.choices.len() {
            if i < self.widths.len() && self.widths[i] != n as u32 {
                self.diverged = true;
            }
            if i >= self.widths.len() {
                self.widths.push(n as u32);
            }
            let c = self.choices[i];
            if c as usize >= n {
                self.diverged = true;
                return 0;
            }
            c as usize
        } else {
            self.choices.push(0);
            self.widths.push(n as u32);
            self.publish(i, 0);
            0
        }
    }

    pub fn pick_from<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.pick(xs.len())]
    }

    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }

    fn publish(&self, i: usize, v: u32) {
        if !self.slot.is_null() && i < SLOT_CHOICES {
            unsafe {
                self.slot.add(3 + i).write_volatile(v as u64);
                self.slot.add(2).write_volatile((i + 1) as u64);
            }
        }
    }

    /// Describe the input of the case; evaluated only for samples, replays and violations.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            let s = f();
            if let Some(file) = &mut self.stream {
                let _ = writeln!(file, "  {s}");
                let _ = file.flush();
            }
            self.notes.push(s);
        }
    }

    /// Run one operation of the implementation under test.
    pub fn call<T>(&mut self, what: &'static str, f: impl FnOnce() -> T) -> Result<T, Stop> {
        self.calls += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                fail("panic", format!("{what} panicked: {m}"))
            }
        }
    }

    /// Run an operation that is allowed to panic; None when it did.
    pub fn call_may_panic<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        self.calls += 1;
        catch_unwind(AssertUnwindSafe(f)).ok()
    }

    /// Count an observed outcome class (evidence against vacuity).
    pub fn outcome(&mut self, o: &'static str) {
        *self.outcomes.entry(o).or_insert(0) += 1;
    }

    pub fn add_calls(&mut self, n: u64) {
        self.calls += n;
    }

    /// A case that searches a state space of its own: what it covered.
    pub fn searched(&mut self, states: u64, transitions: u64) {
        self.searched.0 += states;
        self.searched.1 += transitions;
    }

    /// A long case is making progress.
    pub fn alive(&self) {
        if !self.slot.is_null() {
            unsafe { self.slot.write_volatile(self.slot.read_volatile() + 1) }
        }
    }
}

// ---------------------------------------------------------------------------------------
// families and properties

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Family {
    pub name: &'static str,
    pub bound: String,
    pub body: Box<dyn Fn(&mut Cx) -> R + Sync + Send>,
    /// run on a single worker (process-wide observations such as memory or output)
    pub solo: bool,
}

pub fn family(name: &'static str, bound: impl Into<String>, body: impl Fn(&mut Cx) -> R + Sync + Send + 'static) -> Family {
    Family { name, bound: bound.into(), body: Box::new(body), solo: false }
}

impl Family {
    pub fn solo(mut self) -> Self {
        self.solo = true;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub families: fn(Tier) -> Vec<Family>,
    pub explanation: &'static str,
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------------------------------
// exploration

const SLOT_CHOICES: usize = 120;
const SLOT_WORDS: usize = 128;
const MAX_WORKERS: usize = 64;
const HANG_SECS: u64 = 30;

struct Stats {
    traces: u64,
    pruned: u64,
    states: u64,
    calls: u64,
    max_depth: u64,
    outcomes: BTreeMap<&'static str, u64>,
}

struct Violation {
    family: usize,
    choices: Vec<u32>,
    label: String,
    msg: String,
    notes: Vec<String>,
    reproduced: bool,
}

fn key_of(property: &str, family: &str, label: &str, notes: &[String]) -> String {
    format!("property={property} family={family} label={label} input={}", notes.join(" ; "))
}

fn run_case(f: &Family, cx: &mut Cx) -> R {
    cx.pos = 0;
    cx.notes.clear();
    let r = catch_unwind(AssertUnwindSafe(|| (f.body)(cx)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            let harness = (m.contains("panicked at src/") && !m.contains("panicked at src/wasm")) || m.contains("/mc/");
            if !harness {
                // raised by the code under test outside an operation (constructor, accessor, drop)
                return fail("panic", m);
            }
            eprintln_err(&format!("HARNESS ERROR in family {}: {m} choices {:?}", f.name, cx.choices));
            std::process::exit(2);
        }
    }
}

fn eprintln_err(s: &str) {
    if let Ok(p) = std::env::var("MC_REPORT") {
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
            let _ = writeln!(f, "{s}");
        }
    }
    let _ = writeln!(std::io::stderr(), "{s}");
}

/// Advance to the next choice sequence below `prefix_len`; returns the changed position.
fn advance(cx: &mut Cx, prefix_len: usize, limit: usize) -> Option<usize> {
    // positions >= limit are not enumerated (used to generate prefixes)
    let used = cx.pos.min(cx.choices.len()).min(limit);
    cx.choices.truncate(used);
    cx.widths.truncate(used);
    while cx.choices.len() > prefix_len {
        let i = cx.choices.len() - 1;
        if cx.choices[i] + 1 < cx.widths[i] {
            cx.choices[i] += 1;
            cx.widths.truncate(i + 1);
            return Some(i);
        }
        cx.choices.pop();
        cx.widths.pop();
    }
    None
}

struct Known {
    keys: Vec<String>,
}

fn load_known() -> Known {
    let p = std::env::var("MC_KNOWN").unwrap_or_default();
    let mut keys = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let key = rest.split(" ## ").next().unwrap_or(rest).trim();
                keys.push(key.to_string());
            }
        }
    }
    Known { keys }
}

pub fn main_with(properties: &[Property]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(prop) = properties.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id:?}");
        std::process::exit(2)
    };
    if std::env::var("MC_CHILD").is_ok() {
        child(prop)
    } else {
        parent(prop)
    }
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(MAX_WORKERS)
}

fn map_shared(path: &str) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    let len = SLOT_WORDS * 8 * (MAX_WORKERS + 1);
    f.set_len(len as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u64
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn child(prop: &Property) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string().replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let limit: u64 = std::env::var("MC_MEM_MB").ok().and_then(|s| s.parse().ok()).unwrap_or(12_000) << 20;
    unsafe {
        setrlimit(9, &[limit, limit]);
    }
    let t = tier();
    let fams = (prop.families)(t);
    let report = std::env::var("MC_REPORT").unwrap();
    if let Ok(r) = std::env::var("MC_REPLAY") {
        replay(prop, &fams, &r, &report)
    }
    let start = Instant::now();
    let cap = Duration::from_secs(std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match t {
        Tier::Quick => 400,
        Tier::Thorough => 780,
    }));
    let shared = map_shared(&std::env::var("MC_SHARED").unwrap());
    let known = load_known();
    let nw = workers();
    let shared_addr = shared as usize;
    let mut per_family: Vec<Stats> = vec![];
    let mut violations: Vec<Violation> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut capped = vec![];
    let mut samples: Vec<String> = vec![];
    let only = std::env::var("MC_ONLY").ok();
    for (fi, f) in fams.iter().enumerate() {
        if let Some(o) = &only {
            if !f.name.contains(o.as_str()) {
                per_family.push(Stats { traces: 0, pruned: 0, states: 0, calls: 0, max_depth: 0, outcomes: BTreeMap::new() });
                continue;
            }
        }
        if !violations.is_empty() {
            break;
        }
        let nw = if f.solo { 1 } else { nw };
        // prefixes
        let slot_gen = unsafe { shared.add(SLOT_WORDS * MAX_WORKERS) };
        let mut tasks: Vec<(Vec<u32>, Vec<u32>)> = vec![];
        let mut prefix_states = 0u64;
        let want = if nw == 1 { 1 } else { nw * 24 };
        for depth in 0..8 {
            tasks.clear();
            prefix_states = 0;
            let mut cx = Cx::new(t);
            cx.slot = slot_gen;
            unsafe {
                slot_gen.add(1).write_volatile(fi as u64 + 1);
            }
            let mut deeper = false;
            let mut changed = 0usize;
            loop {
                bump(cx.slot, &cx.choices);
                let _ = run_case(f, &mut cx);
                deeper |= cx.pos > depth;
                let k = cx.pos.min(depth);
                prefix_states += (k - changed.min(k)) as u64;
                tasks.push((cx.choices[..k].to_vec(), cx.widths[..k].to_vec()));
                match advance(&mut cx, 0, depth) {
                    Some(i) => changed = i,
                    None => break,
                }
            }
            unsafe {
                slot_gen.add(1).write_volatile(0);
            }
            if tasks.len() >= want || !deeper {
                break;
            }
        }
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let hit_cap = AtomicBool::new(false);
        let vio: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let khits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let diverged = AtomicU64::new(0);
        let mut tot = Stats { traces: 0, pruned: 0, states: prefix_states + 1, calls: 0, max_depth: 0, outcomes: BTreeMap::new() };
        let last_task_case: Mutex<Option<Vec<u32>>> = Mutex::new(None);
        let results: Vec<Stats> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nw)
                .map(|w| {
                    let (tasks, next, stop, hit_cap, vio, khits, diverged, known, fams, last_task_case) =
                        (&tasks, &next, &stop, &hit_cap, &vio, &khits, &diverged, &known, &fams, &last_task_case);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            let f = &fams[fi];
                            let slot = unsafe { (shared_addr as *mut u64).add(SLOT_WORDS * w) };
                            let mut st = Stats { traces: 0, pruned: 0, states: 0, calls: 0, max_depth: 0, outcomes: BTreeMap::new() };
                            let mut cx = Cx::new(t);
                            cx.slot = slot;
                            unsafe {
                                slot.add(1).write_volatile(fi as u64 + 1);
                            }
                            'tasks: loop {
                                let ti = next.fetch_add(1, Ordering::Relaxed);
                                if ti >= tasks.len() || stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let (p, ws) = &tasks[ti];
                                cx.choices = p.clone();
                                cx.widths = ws.clone();
                                let mut changed = p.len();
                                let mut count = 0u32;
                                loop {
                                    bump(slot, &cx.choices);
                                    let r = run_case(f, &mut cx);
                                    if cx.diverged {
                                        diverged.fetch_add(1, Ordering::Relaxed);
                                        cx.diverged = false;
                                        stop.store(true, Ordering::Relaxed);
                                        break 'tasks;
                                    }
                                    st.states += (cx.pos - changed.min(cx.pos)) as u64;
                                    st.max_depth = st.max_depth.max(cx.pos as u64);
                                    match r {
                                        Ok(()) => st.traces += 1,
                                        Err(Stop::Prune) => st.pruned += 1,
                                        Err(Stop::Fail(fl)) => {
                                            st.traces += 1;
                                            let ch = cx.choices[..cx.pos.min(cx.choices.len())].to_vec();
                                            let (notes, reproduced) = describe(f, &ch, t, &fl.label);
                                            let key = key_of(prop.id, f.name, &fl.label, &notes);
                                            if known.keys.iter().any(|k| *k == key) {
                                                *khits.lock().unwrap().entry(key).or_insert(0) += 1;
                                            } else {
                                                let mut v = vio.lock().unwrap();
                                                v.push(Violation { family: fi, choices: ch, label: fl.label, msg: fl.msg, notes, reproduced });
                                                let want: usize = std::env::var("MC_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
                                                if v.len() >= want {
                                                    stop.store(true, Ordering::Relaxed);
                                                }
                                            }
                                        }
                                    }
                                    if stop.load(Ordering::Relaxed) {
                                        break;
                                    }
                                    count += 1;
                                    if count % 64 == 0 && start.elapsed() > cap {
                                        hit_cap.store(true, Ordering::Relaxed);
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                    match advance(&mut cx, p.len(), usize::MAX) {
                                        Some(i) => changed = i,
                                        None => {
                                            if ti + 1 == tasks.len() / 2 + 1 {
                                                // remember one complete case for the evidence
                                                *last_task_case.lock().unwrap() = Some(p.clone());
                                            }
                                            break;
                                        }
                                    }
                                }
                            }
                            unsafe {
                                slot.add(1).write_volatile(0);
                            }
                            st.calls = cx.calls;
                            st.states += cx.searched.0;
                            st.traces += cx.searched.1;
                            st.outcomes = std::mem::take(&mut cx.outcomes);
                            st
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in results {
            tot.traces += r.traces;
            tot.pruned += r.pruned;
            tot.states += r.states;
            tot.calls += r.calls;
            tot.max_depth = tot.max_depth.max(r.max_depth);
            for (k, v) in r.outcomes {
                *tot.outcomes.entry(k).or_insert(0) += v;
            }
        }
        if diverged.load(Ordering::Relaxed) > 0 {
            eprintln_err(&format!("HARNESS ERROR: divergence while replaying a prefix in family {}", f.name));
            std::process::exit(2);
        }
        if hit_cap.load(Ordering::Relaxed) {
            capped.push(f.name);
        }
        for (k, n) in khits.into_inner().unwrap() {
            *known_hits.entry(k).or_insert(0) += n;
        }
        violations.extend(vio.into_inner().unwrap());
        // samples: the first case and one from the middle of the tree, run twice and compared
        let mid = last_task_case.into_inner().unwrap();
        for p in [Some(vec![]), mid].into_iter().flatten() {
            if let Some(s) = sample(f, &p, t) {
                samples.push(format!("{}: {}", f.name, s));
            }
        }
        per_family.push(tot);
    }
    violations.sort_by_key(|v| (v.family, v.notes.iter().map(|n| n.len()).sum::<usize>(), v.choices.clone()));
    let wall = start.elapsed().as_secs_f64();
    let mut rep = String::new();
    for (k, n) in &known_hits {
        let _ = writeln!(rep, "KNOWN-FINDING: {k} ({n} case(s))");
    }
    let out = std::env::var("MC_OUT").unwrap();
    let nv = violations.len();
    for v in violations.iter().take(std::env::var("MC_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(1)) {
        let path = write_replay(&out, prop, &fams[v.family], &v.choices, &v.label, &v.msg, &v.notes, v.reproduced);
        let _ = writeln!(rep, "VIOLATION property={} replay={}", prop.id, path);
        let _ = writeln!(rep, "  family={} label={} {}", fams[v.family].name, v.label, v.msg);
        let _ = writeln!(rep, "  key: {}", key_of(prop.id, fams[v.family].name, &v.label, &v.notes));
    }
    for (f, s) in fams.iter().zip(&per_family) {
        let _ = writeln!(
            rep,
            "  family {:<28} traces={} pruned={} states={} calls={} depth<={} outcomes={:?}",
            f.name, s.traces, s.pruned, s.states, s.calls, s.max_depth, s.outcomes
        );
    }
    if !capped.is_empty() {
        let _ = writeln!(rep, "CAPPED (time): {capped:?}");
    }
    let _ = writeln!(rep, "{} property={} tier={} wall={:.1}s", if nv == 0 { "PASS" } else { "FAIL" }, prop.id, tier_name(t), wall);
    write_evidence(prop, t, &fams, &per_family, &samples, capped.is_empty() && nv == 0 && only.is_none(), &capped, nv as u64, known_hits.len() as u64, wall);
    std::fs::write(&report, rep).unwrap();
    std::process::exit(if nv == 0 { 0 } else { 1 })
}

fn bump(slot: *mut u64, choices: &[u32]) {
    if slot.is_null() {
        return;
    }
    unsafe {
        slot.add(2).write_volatile(0);
        for (i, c) in choices.iter().take(SLOT_CHOICES).enumerate() {
            slot.add(3 + i).write_volatile(*c as u64);
        }
        slot.add(2).write_volatile(choices.len().min(SLOT_CHOICES) as u64);
        let s = slot.read_volatile();
        slot.write_volatile(s.wrapping_add(1));
    }
}

/// Re-run a failing case with descriptions on; also tells whether it failed the same way again.
fn describe(f: &Family, choices: &[u32], t: Tier, label: &str) -> (Vec<String>, bool) {
    let mut cx = Cx::new(t);
    cx.describe = true;
    cx.choices = choices.to_vec();
    let r = run_case(f, &mut cx);
    let same = matches!(&r, Err(Stop::Fail(fl)) if fl.label == label);
    (std::mem::take(&mut cx.notes), same)
}

/// Describe the first real (not pruned) case at or after the given prefix.
fn sample(f: &Family, prefix: &[u32], t: Tier) -> Option<String> {
    let mut cx = Cx::new(t);
    cx.choices = prefix.to_vec();
    for _ in 0..100_000 {
        let r = run_case(f, &mut cx);
        if let Ok(()) = r {
            let ch = cx.choices[..cx.pos.min(cx.choices.len())].to_vec();
            let a = describe(f, &ch, t, "").0;
            let b = describe(f, &ch, t, "").0;
            if a != b {
                eprintln_err(&format!("HARNESS ERROR: family {} is not deterministic", f.name));
                std::process::exit(2);
            }
            return Some(format!("choices={:?} {}", ch, a.join(" ; ")));
        }
        advance(&mut cx, 0, usize::MAX)?;
    }
    None
}

#[allow(clippy::too_many_arguments)]
fn write_replay(out: &str, prop: &Property, f: &Family, choices: &[u32], label: &str, msg: &str, notes: &[String], reproduced: bool) -> String {
    let dir = format!("{out}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let cs: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let mut h: u64 = 0xcbf29ce484222325;
    for b in f.name.bytes().chain(cs.join(",").bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let path = format!("{dir}/{}-{:016x}.txt", prop.id, h);
    let mut s = String::new();
    let _ = writeln!(s, "property={}", prop.id);
    let _ = writeln!(s, "family={}", f.name);
    let _ = writeln!(s, "choices={}", cs.join(","));
    let _ = writeln!(s, "label={label}");
    let _ = writeln!(s, "what={msg}");
    let _ = writeln!(s, "reproduced_on_immediate_reexecution={reproduced}");
    for n in notes {
        let _ = writeln!(s, "input: {n}");
    }
    let _ = writeln!(s, "key: {}", key_of(prop.id, f.name, label, notes));
    let _ = writeln!(s, "# replay with: /verif/run.sh {} --replay {}", prop.id, path);
    std::fs::write(&path, s).unwrap();
    path
}

fn replay(prop: &Property, fams: &[Family], spec: &str, report: &str) -> ! {
    let (fname, ch) = spec.split_once(':').unwrap();
    let Some(f) = fams.iter().find(|f| f.name == fname) else {
        eprintln_err(&format!("no family {fname}"));
        std::process::exit(2)
    };
    let mut cx = Cx::new(tier());
    cx.describe = true;
    cx.choices = ch.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let mut file = std::fs::OpenOptions::new().create(true).append(true).open(report).unwrap();
    let _ = writeln!(file, "replaying property={} family={}", prop.id, f.name);
    cx.stream = Some(file.try_clone().unwrap());
    let r = run_case(f, &mut cx);
    match r {
        Ok(()) => {
            let _ = writeln!(file, "replay: held");
            std::process::exit(0)
        }
        Err(Stop::Prune) => {
            let _ = writeln!(file, "replay: case is outside the domain");
            std::process::exit(0)
        }
        Err(Stop::Fail(fl)) => {
            let _ = writeln!(file, "replay: FAILED label={} {}", fl.label, fl.msg);
            std::process::exit(1)
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(prop: &Property, t: Tier, fams: &[Family], st: &[Stats], samples: &[String], exhaustive: bool, capped: &[&str], violations: u64, known: u64, wall: f64) {
    let out = std::env::var("MC_OUT").unwrap();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let sum = |g: fn(&Stats) -> u64| st.iter().map(g).sum::<u64>();
    let mut s = String::new();
    let _ = write!(s, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n", json_str(prop.id), json_str(tier_name(t)), seed);
    let _ = write!(
        s,
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"pruned_symmetric_or_out_of_domain\": {},\n  \"max_choice_depth\": {},\n  \"exhaustive\": {},\n",
        sum(|x| x.states),
        sum(|x| x.calls),
        sum(|x| x.traces),
        sum(|x| x.pruned),
        st.iter().map(|x| x.max_depth).max().unwrap_or(0),
        exhaustive
    );
    let _ = write!(s, "  \"capped_families\": [{}],\n", capped.iter().map(|c| json_str(c)).collect::<Vec<_>>().join(", "));
    let _ = write!(s, "  \"known_findings_hit\": {known},\n");
    let _ = write!(s, "  \"explanation\": {},\n  \"families\": [\n", json_str(&format!("{} States are the distinct nodes of the choice tree (partial scenarios) visited; transitions are the operations of the real implementation executed from them; every trace is a complete scenario executed on the real code and compared with the reference model.", prop.explanation)));
    for (i, (f, x)) in fams.iter().zip(st).enumerate() {
        let o: Vec<String> = x.outcomes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        let _ = write!(
            s,
            "   {{\"name\": {}, \"bound\": {}, \"traces\": {}, \"states\": {}, \"impl_calls\": {}, \"pruned\": {}, \"outcomes\": {{{}}}}}{}\n",
            json_str(f.name),
            json_str(&f.bound),
            x.traces,
            x.states,
            x.calls,
            x.pruned,
            o.join(", "),
            if i + 1 < st.len() { "," } else { "" }
        );
    }
    let _ = write!(s, "  ],\n  \"samples\": [\n{}\n  ]\n }},\n", samples.iter().map(|x| format!("   {}", json_str(x))).collect::<Vec<_>>().join(",\n"));
    let _ = write!(s, " \"assumptions\": [{}],\n", prop.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "));
    let _ = write!(s, " \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, violations);
    let dir = format!("{out}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", prop.id), s).unwrap();
}

// ---------------------------------------------------------------------------------------
// supervision

fn parent(prop: &Property) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MC_OUT").unwrap_or_else(|_| "/verif".into());
    let tmp = std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into());
    let base = format!("{tmp}/mc-{}-{}", prop.id, std::process::id());
    let _ = std::fs::create_dir_all(&base);
    let shared_path = format!("{base}/shared");
    let shared = map_shared(&shared_path);
    let report = format!("{base}/report");
    let exe = std::env::current_exe().unwrap();
    let spawn = |extra: Option<(&str, &str)>, report: &str| {
        let outf = std::fs::File::create(format!("{base}/stdout")).unwrap();
        let mut c = std::process::Command::new(&exe);
        c.arg(prop.id)
            .env("MC_CHILD", "1")
            .env("MC_OUT", &out)
            .env("MC_SHARED", &shared_path)
            .env("MC_REPORT", report)
            .env("MC_STDOUT", format!("{base}/stdout"))
            .stdin(std::process::Stdio::null())
            .stdout(outf.try_clone().unwrap())
            .stderr(outf);
        if let Some((k, v)) = extra {
            c.env(k, v);
        }
        c.spawn().unwrap()
    };
    let finish = |code: i32, report: &str| -> ! {
        if let Ok(s) = std::fs::read_to_string(report) {
            print!("{s}");
        }
        let _ = std::io::stdout().flush();
        let _ = std::fs::remove_dir_all(&base);
        std::process::exit(code)
    };
    if args.get(2).map(|s| s == "--replay").unwrap_or(false) {
        let txt = std::fs::read_to_string(&args[3]).unwrap();
        let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
        let spec = format!("{}:{}", get("family="), get("choices="));
        let mut ch = spawn(Some(("MC_REPLAY", &spec)), &report);
        let code = wait_limited(&mut ch, 120).unwrap_or(3);
        finish(code, &report);
    }
    let start = Instant::now();
    let mut ch = spawn(None, &report);
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); MAX_WORKERS + 1];
    let mut suspects: Vec<(usize, Vec<u32>)> = vec![];
    let mut why = "";
    let read_slot = |w: usize| -> (u64, u64, Vec<u32>) {
        unsafe {
            let s = shared.add(SLOT_WORDS * w);
            let n = s.add(2).read_volatile().min(SLOT_CHOICES as u64) as usize;
            (s.read_volatile(), s.add(1).read_volatile(), (0..n).map(|i| s.add(3 + i).read_volatile() as u32).collect())
        }
    };
    let status = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break Some(st);
        }
        std::thread::sleep(Duration::from_millis(50));
        let mut hung = false;
        for w in 0..=MAX_WORKERS {
            let (seq, fam, choices) = read_slot(w);
            if fam == 0 || seq != last[w].0 {
                last[w] = (seq, Instant::now());
            } else if last[w].1.elapsed() > Duration::from_secs(HANG_SECS) {
                suspects.push((fam as usize - 1, choices));
                hung = true;
            }
        }
        if hung {
            why = "no answer";
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
    };
    if let Some(st) = status {
        match st.code() {
            Some(c @ (0 | 1 | 2)) => finish(c, &report),
            _ => {
                why = "crash";
                for w in 0..=MAX_WORKERS {
                    let (_, fam, choices) = read_slot(w);
                    if fam != 0 {
                        suspects.push((fam as usize - 1, choices));
                    }
                }
            }
        }
    }
    // A case crashed the process, exhausted memory or never returned: confirm it in isolation.
    let fams = (prop.families)(tier());
    for (i, (fi, choices)) in suspects.iter().enumerate() {
        let spec = format!("{}:{}", fams[*fi].name, choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
        let rep = format!("{base}/confirm{i}");
        let mut c = spawn(Some(("MC_REPLAY", &spec)), &rep);
        let r = wait_limited(&mut c, 60);
        let detail = match r {
            Some(0) | Some(2) => continue,
            Some(1) => "the case also violates the property when run alone",
            Some(_) => "the implementation crashes the process (stack overflow, abort or memory exhaustion)",
            None => "the implementation does not return",
        };
        let notes: Vec<String> = std::fs::read_to_string(&rep)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| l.strip_prefix("  ").map(|s| s.to_string()))
            .collect();
        let path = write_replay(&out, prop, &fams[*fi], choices, why, detail, &notes, true);
        let st = Stats { traces: 1, pruned: 0, states: 1, calls: 1, max_depth: choices.len() as u64, outcomes: BTreeMap::new() };
        std::env::set_var("MC_OUT", &out);
        write_evidence(prop, tier(), &fams[*fi..*fi + 1], &[st], &[], false, &[], 1, 0, start.elapsed().as_secs_f64());
        println!("VIOLATION property={} replay={}", prop.id, path);
        println!("  family={} label={why} {detail}", fams[*fi].name);
        println!("  key: {}", key_of(prop.id, fams[*fi].name, why, &notes));
        finish(1, "/nonexistent");
    }
    println!("ERROR: {why} of the explorer not attributable to a case ({} suspects)", suspects.len());
    finish(2, &report)
}

fn wait_limited(ch: &mut std::process::Child, secs: u64) -> Option<i32> {
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return Some(st.code().unwrap_or(139));
        }
        if t.elapsed() > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
