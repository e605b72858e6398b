//! Exhaustive explorer: every execution of a deterministic scenario is driven by a sequence of
//! choices, and all choice sequences are enumerated depth first (stateless search of the real code,
//! with optional merging of states whose complete contents were seen before).
//!
//! A check is a list of jobs. Every job runs in a child process, so that an abort, a memory
//! exhaustion or a hang of the code under test is an observation and not an accident.

use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::{Read as _, Write as _};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Why a scenario ended early.
#[derive(Debug)]
pub enum Stop {
    /// The property is broken. The key identifies the failing site or history for known findings.
    Violation { key: String, msg: String },
    /// The state was explored before with at least this much depth left.
    Prune,
}

pub type R<T = ()> = Result<T, Stop>;

pub fn violation<T>(msg: impl Into<String>) -> R<T> {
    Err(Stop::Violation {
        key: String::new(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)+) => { if !$c { return $crate::engine::violation(format!($($f)+)); } };
}
#[macro_export]
macro_rules! fail {
    ($($f:tt)+) => { return $crate::engine::violation(format!($($f)+)) };
}

/// Adds context to a violation.
pub trait Context {
    fn ctx(self, f: impl FnOnce() -> String) -> Self;
}
impl<T> Context for R<T> {
    fn ctx(self, f: impl FnOnce() -> String) -> Self {
        self.map_err(|e| match e {
            Stop::Violation { key, msg } => Stop::Violation {
                key,
                msg: format!("{}: {msg}", f()),
            },
            Stop::Prune => Stop::Prune,
        })
    }
}

pub struct Ctx {
    prefix: Vec<(u32, u32)>,
    choices: Vec<(u32, u32)>,
    visited: HashMap<u64, u32>,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    transitions: u64,
    pruned: u64,
    /// Some: record what the execution did.
    trace: Option<Vec<String>>,
    /// Number of deviations used in this execution (see `deviate`).
    deviations: u32,
}

const STATE_CAP: usize = 30_000_000;

impl Ctx {
    fn new() -> Self {
        Ctx {
            prefix: vec![],
            choices: vec![],
            visited: HashMap::new(),
            states: HashSet::new(),
            outcomes: HashSet::new(),
            transitions: 0,
            pruned: 0,
            trace: None,
            deviations: 0,
        }
    }
    /// Picks one of `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "engine: empty choice");
        let n = n as u32;
        let i = self.choices.len();
        let pick = match self.prefix.get(i) {
            Some(&(p, a)) => {
                // a == 0: arity unknown (replay from a file)
                if (a != 0 && a != n) || p >= n {
                    panic!("engine: replay diverged at choice {i}: recorded {p}/{a}, now {n}");
                }
                p
            }
            None => 0,
        };
        crate::alloc::exempt(|| self.choices.push((pick, n)));
        pick as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// A choice whose non-default answers count as deviations; only the default is offered once
    /// the bound is used up.
    pub fn deviate(&mut self, n: usize, bound: u32) -> usize {
        if self.deviations >= bound {
            return 0;
        }
        let p = self.choose(n);
        if p != 0 {
            self.deviations += 1;
        }
        p
    }
    pub fn deviations(&self) -> u32 {
        self.deviations
    }
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    /// Records a step of the trace (only when a trace is wanted).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            crate::alloc::exempt(|| t.push(f()));
        }
    }
    /// One operation of the code under test was applied.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Counts a distinct state.
    pub fn state(&mut self, key: u64) {
        if self.states.len() < STATE_CAP {
            crate::alloc::exempt(|| self.states.insert(key));
        }
    }
    /// Counts a distinct observed outcome (a guard against vacuous exploration).
    pub fn outcome(&mut self, key: u64) {
        if self.outcomes.len() < 1_000_000 {
            crate::alloc::exempt(|| self.outcomes.insert(key));
        }
    }
    /// Counts a state and stops this execution if its complete future was explored before.
    /// The key must determine all futures of the scenario within the remaining depth.
    pub fn merge(&mut self, key: u64, remaining: u32) -> R {
        self.state(key);
        if self.choices.len() >= self.prefix.len() && self.trace.is_none() {
            match self.visited.get(&key) {
                Some(&r) if r >= remaining => {
                    self.pruned += 1;
                    return Err(Stop::Prune);
                }
                _ => {
                    crate::alloc::exempt(|| self.visited.insert(key, remaining));
                }
            }
        }
        Ok(())
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn hash_debug<T: std::fmt::Debug>(t: &T) -> u64 {
    struct W(DefaultHasher);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0.write(s.as_bytes());
            Ok(())
        }
    }
    let mut w = W(DefaultHasher::new());
    let _ = write!(w, "{t:?}");
    w.0.finish()
}

pub type Scenario = Box<dyn Fn(&mut Ctx) -> R + Send + Sync>;

pub struct Job {
    pub name: String,
    pub f: Scenario,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

pub struct Check {
    pub id: &'static str,
    pub jobs: Vec<Job>,
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
}
impl Check {
    pub fn new(id: &'static str) -> Self {
        Check {
            id,
            jobs: vec![],
            bounds: vec![],
            assumptions: vec![],
        }
    }
    pub fn job(&mut self, name: impl Into<String>, f: impl Fn(&mut Ctx) -> R + Send + Sync + 'static) {
        let name = name.into().replace([' ', '\t'], "");
        assert!(
            !self.jobs.iter().any(|j| j.name == name),
            "engine: duplicate job {name}"
        );
        self.jobs.push(Job {
            name,
            f: Box::new(f),
        });
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }
}

// ---------------------------------------------------------------------------------------------
// panics

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static EXPECT: Cell<u32> = const { Cell::new(0) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        // Building the message allocates: never count or fail these allocations.
        crate::alloc::exempt(|| {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "<non-string payload>".into());
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}: {msg}")));
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default()
}

/// Panic payload of faults injected by the harness.
pub struct Injected;

/// Outcome of a call that may panic.
pub enum Caught<T> {
    Value(T),
    /// A panic injected by the harness came out.
    Injected,
    /// Any other panic, with location and message.
    Panic(String),
}

/// Runs code that may panic.
pub fn catch<T>(f: impl FnOnce() -> T) -> Caught<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Caught::Value(v),
        Err(p) => {
            let c = if p.is::<Injected>() {
                Caught::Injected
            } else {
                Caught::Panic(last_panic())
            };
            crate::alloc::exempt(|| drop(p));
            c
        }
    }
}

/// Runs code that must not panic.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    match catch(f) {
        Caught::Value(v) => Ok(v),
        Caught::Injected => violation(format!("{what}: injected panic escaped")),
        Caught::Panic(p) => violation(format!("{what}: panicked at {p}")),
    }
}

// ---------------------------------------------------------------------------------------------
// worker

static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// A single execution that takes longer than this is a hang.
const HANG_SECS: u64 = 60;
/// The same for the running execution, if it asked for more.
static PATIENCE: AtomicU64 = AtomicU64::new(HANG_SECS);
impl Ctx {
    /// The execution goes through more data than most: slow code is no hang.
    pub fn patient(&self) {
        PATIENCE.store(8 * HANG_SECS, Ordering::Relaxed);
    }
}

enum Verdict {
    Ok,
    Violation { key: String, msg: String },
    EngineError(String),
}

fn run_once(ctx: &mut Ctx, f: &Scenario) -> Verdict {
    ctx.choices.clear();
    ctx.deviations = 0;
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    PATIENCE.store(HANG_SECS, Ordering::Relaxed);
    crate::alloc::reset();
    let r = catch_unwind(AssertUnwindSafe(|| f(ctx)));
    crate::alloc::reset();
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    match r {
        Ok(Ok(())) | Ok(Err(Stop::Prune)) => {}
        Ok(Err(Stop::Violation { key, msg })) => return Verdict::Violation { key, msg },
        Err(_) => {
            let p = last_panic();
            if p.contains("engine: ") || p.starts_with("src/engine.rs") {
                return Verdict::EngineError(p);
            }
            return Verdict::Violation {
                key: String::new(),
                msg: format!("unexpected panic at {p}"),
            };
        }
    }
    if ctx.choices.len() < ctx.prefix.len() {
        return Verdict::EngineError(format!(
            "engine: replay diverged: execution ended after {} of {} recorded choices",
            ctx.choices.len(),
            ctx.prefix.len()
        ));
    }
    Verdict::Ok
}

fn choices_str(c: &[(u32, u32)]) -> String {
    c.iter().map(|c| c.0.to_string()).collect::<Vec<_>>().join(",")
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

struct Findings(Vec<String>);
impl Findings {
    /// Lines "known: property=<id> key=<key> <what fails>" suppress exactly that key.
    fn load(id: &str) -> Self {
        let mut v = vec![];
        if let Ok(s) = std::fs::read_to_string(verif_root().join("known_findings.txt")) {
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix(&format!("known: property={id} key=")) {
                    if let Some(k) = rest.split_whitespace().next() {
                        v.push(k.to_string());
                    }
                }
            }
        }
        Findings(v)
    }
    fn known(&self, key: &str) -> bool {
        !key.is_empty() && self.0.iter().any(|k| k == key)
    }
}

pub fn verif_root() -> PathBuf {
    if let Ok(p) = std::env::var("MC_VERIF") {
        return PathBuf::from(p);
    }
    PathBuf::from(env!("CARGO_MANIFEST_DIR"))
        .parent()
        .expect("verif root")
        .to_path_buf()
}

/// Explores one job exhaustively; prints a line protocol on stdout.
fn worker(id: &str, job: &Job, deadline: Duration, tracefile: Option<&str>) -> ! {
    install_hook();
    std::thread::spawn(|| {
        let mut last = (PROGRESS.load(Ordering::Relaxed), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p != last.0 {
                last = (p, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(PATIENCE.load(Ordering::Relaxed)) {
                // SAFETY net: leave without running anything else.
                std::process::exit(99);
            }
        }
    });
    let known = Findings::load(id);
    let start = Instant::now();
    let mut ctx = Ctx::new();
    let mut execs: u64 = 0;
    let mut samples: Vec<String> = vec![];
    let mut next_sample: u64 = 1;
    let mut capped = false;
    let mut out = String::new();
    let mut known_seen: Vec<String> = vec![];
    let mut trace = tracefile.map(|p| std::fs::File::create(p).expect("engine: trace file"));
    let mut maxlen = 0;
    loop {
        if let Some(t) = trace.as_mut() {
            use std::io::{Seek, SeekFrom};
            let line = format!("{}\n", choices_str(&ctx.prefix));
            t.seek(SeekFrom::Start(0)).unwrap();
            t.set_len(0).unwrap();
            t.write_all(line.as_bytes()).unwrap();
        }
        let v = run_once(&mut ctx, &job.f);
        execs += 1;
        maxlen = maxlen.max(ctx.choices.len());
        match v {
            Verdict::Ok => {}
            Verdict::EngineError(e) => {
                let _ = writeln!(out, "ERROR\t{}", esc(&e));
                break;
            }
            Verdict::Violation { key, msg } => {
                if known.known(&key) {
                    if !known_seen.contains(&key) {
                        let _ = writeln!(out, "KNOWN\t{}\t{}", esc(&key), esc(&msg));
                        known_seen.push(key);
                    }
                } else {
                    // replay before believing it
                    let choices = ctx.choices.clone();
                    let mut c2 = Ctx::new();
                    c2.prefix = choices.clone();
                    c2.trace = Some(vec![]);
                    match run_once(&mut c2, &job.f) {
                        Verdict::Violation { msg: m2, .. } if m2 == msg => {
                            let _ = writeln!(
                                out,
                                "VIOL\t{}\t{}\t{}\t{}",
                                esc(&key),
                                esc(&msg),
                                choices_str(&choices),
                                esc(&c2.trace.take().unwrap_or_default().join("\n"))
                            );
                        }
                        Verdict::Violation { msg: m2, .. } => {
                            // Addresses in messages may differ; the verdict itself is confirmed.
                            let _ = writeln!(
                                out,
                                "VIOL\t{}\t{}\t{}\t{}",
                                esc(&key),
                                esc(&format!("{msg} [replay: {m2}]")),
                                choices_str(&choices),
                                esc(&c2.trace.take().unwrap_or_default().join("\n"))
                            );
                        }
                        Verdict::EngineError(e) => {
                            let _ = writeln!(out, "ERROR\t{}", esc(&format!("{msg}: {e}")));
                        }
                        Verdict::Ok => {
                            let _ = writeln!(
                                out,
                                "ERROR\t{}",
                                esc(&format!("violation did not replay: {msg}"))
                            );
                        }
                    }
                    break;
                }
            }
        }
        if execs == next_sample && samples.len() < 3 && tracefile.is_none() {
            next_sample *= 37;
            let mut c2 = Ctx::new();
            c2.prefix = ctx.choices.clone();
            c2.trace = Some(vec![]);
            run_once(&mut c2, &job.f);
            let mut s = c2.trace.take().unwrap_or_default().join("; ");
            if s.len() > 600 {
                let mut e = 600;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push('…');
            }
            samples.push(s);
        }
        // next choice sequence
        let mut p = std::mem::take(&mut ctx.choices);
        loop {
            match p.pop() {
                None => break,
                Some((c, n)) if c + 1 < n => {
                    p.push((c + 1, n));
                    break;
                }
                _ => {}
            }
        }
        if p.is_empty() {
            break;
        }
        ctx.prefix = p;
        if execs % 64 == 0 && start.elapsed() > deadline {
            capped = true;
            break;
        }
    }
    for s in samples {
        let _ = writeln!(out, "SAMPLE\t{}", esc(&s));
    }
    let _ = writeln!(out, "COUNT\texecs\t{execs}");
    let _ = writeln!(out, "COUNT\tstates\t{}", ctx.states.len());
    let _ = writeln!(out, "COUNT\ttransitions\t{}", ctx.transitions);
    let _ = writeln!(out, "COUNT\tpruned\t{}", ctx.pruned);
    let _ = writeln!(out, "COUNT\toutcomes\t{}", ctx.outcomes.len());
    let _ = writeln!(out, "COUNT\tmaxchoices\t{maxlen}");
    if capped {
        let _ = writeln!(out, "CAPPED");
    }
    let _ = writeln!(out, "DONE");
    std::io::stdout().write_all(out.as_bytes()).unwrap();
    std::io::stdout().flush().unwrap();
    std::process::exit(0);
}

// ---------------------------------------------------------------------------------------------
// parent

#[derive(Default, Clone)]
struct JobResult {
    name: String,
    counts: HashMap<String, u64>,
    samples: Vec<String>,
    capped: bool,
    viol: Option<(String, String, String)>, // msg, choices, trace
    known: Vec<(String, String)>,
    error: Option<String>,
    wall: f64,
}

fn parse(name: &str, s: &str) -> JobResult {
    let mut r = JobResult {
        name: name.to_string(),
        ..Default::default()
    };
    let mut done = false;
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "SAMPLE" => r.samples.push(unesc(f[1])),
            "COUNT" => {
                r.counts.insert(f[1].into(), f[2].parse().unwrap_or(0));
            }
            "CAPPED" => r.capped = true,
            "KNOWN" => r.known.push((unesc(f[1]), unesc(f[2]))),
            "VIOL" => r.viol = Some((unesc(f[2]), f[3].to_string(), unesc(f[4]))),
            "ERROR" => r.error = Some(unesc(f[1])),
            "DONE" => done = true,
            _ => {}
        }
    }
    if !done && r.error.is_none() && r.viol.is_none() {
        r.error = Some("worker output incomplete".into());
    }
    r
}

struct Spawned {
    ok: bool,
    code: String,
    out: String,
    err: String,
}

/// Prefix of the jobs that run in the build without overflow checks.
const UNCHECKED: &str = "unchecked/";

fn spawn(args: &[String], timeout: Duration) -> Spawned {
    // Jobs of the build without overflow checks run in that build's executable.
    let mut args = args.to_vec();
    let mut exe = std::env::current_exe().expect("current exe");
    if let Some(name) = args.get(2).and_then(|n| n.strip_prefix(UNCHECKED)).map(str::to_string) {
        args[2] = name;
        exe = PathBuf::from(std::env::var_os("MC_UNCHECKED").expect("executable without overflow checks"));
    }
    let mut child = Command::new(exe)
        .args(&args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn worker");
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t2 = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = se.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let start = Instant::now();
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None => {
                if start.elapsed() > timeout {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        }
    };
    let out = t1.join().unwrap_or_default();
    let err = t2.join().unwrap_or_default();
    match status {
        Some(s) => {
            use std::os::unix::process::ExitStatusExt;
            let code = match (s.code(), s.signal()) {
                (Some(99), _) => "hang (no progress)".to_string(),
                (Some(c), _) => format!("exit {c}"),
                (_, Some(sig)) => format!("signal {sig}"),
                _ => "unknown".into(),
            };
            Spawned {
                ok: s.success(),
                code,
                out,
                err,
            }
        }
        None => Spawned {
            ok: false,
            code: "timeout".into(),
            out,
            err,
        },
    }
}

fn run_job(id: &str, tier: Tier, name: &str, deadline: Duration) -> JobResult {
    let start = Instant::now();
    let tier_s = tier.pick("quick", "thorough").to_string();
    let secs = deadline.as_secs().max(1).to_string();
    let base = vec!["--worker".to_string(), tier_s.clone(), name.to_string(), secs];
    let hard = deadline + Duration::from_secs(2 * HANG_SECS);
    let s = spawn(&base, hard);
    let mut r;
    if s.ok {
        r = parse(name, &s.out);
    } else {
        // The code under test brought the process down. Run again, recording where.
        let tf = std::env::temp_dir().join(format!(
            "mc-trace-{}-{}-{:x}",
            id,
            std::process::id(),
            hash_of(name)
        ));
        let mut a = base.clone();
        a.push(tf.to_string_lossy().into_owned());
        let s2 = spawn(&a, hard);
        let choices = std::fs::read_to_string(&tf)
            .unwrap_or_default()
            .trim()
            .to_string();
        let _ = std::fs::remove_file(&tf);
        r = JobResult {
            name: name.to_string(),
            ..Default::default()
        };
        if s2.ok {
            r.error = Some(format!(
                "worker ended with {} but not when repeated; stderr: {}",
                s.code, s.err
            ));
        } else {
            // confirm in a process of its own
            let s3 = spawn(
                &[
                    "--replay-choices".to_string(),
                    tier_s,
                    name.to_string(),
                    choices.clone(),
                ],
                Duration::from_secs(9 * HANG_SECS),
            );
            if s3.ok {
                r.error = Some(format!(
                    "worker ended with {} at choices [{choices}] but the replay did not",
                    s2.code
                ));
            } else {
                let e: String = s3.err.lines().take(5).collect::<Vec<_>>().join(" | ");
                r.viol = Some((
                    format!("the process died: {} {e}", s3.code),
                    choices,
                    s3.out,
                ));
            }
        }
    }
    r.wall = start.elapsed().as_secs_f64();
    r
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(id: &'static str, build: impl Fn(Tier, &mut Check)) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let tier_of = |s: &str| match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("unknown tier {s}");
            std::process::exit(2)
        }
    };
    let make = |t: Tier| {
        let mut c = Check::new(id);
        build(t, &mut c);
        c
    };
    match args.first().map(String::as_str) {
        Some("--worker") => {
            let c = make(tier_of(&args[1]));
            let job = c.jobs.iter().find(|j| j.name == args[2]).expect("job");
            let d = Duration::from_secs(args[3].parse().unwrap());
            worker(id, job, d, args.get(4).map(String::as_str));
        }
        Some("--list") => {
            let c = make(tier_of(args.get(1).map_or("quick", String::as_str)));
            for j in &c.jobs {
                println!("{}", j.name);
            }
        }
        Some("--replay-choices") => {
            let c = make(tier_of(&args[1]));
            std::process::exit(replay(&c, &args[2], &args[3]));
        }
        Some("--replay") => {
            let s = std::fs::read_to_string(&args[1]).expect("replay file");
            let get = |k: &str| {
                s.lines()
                    .find_map(|l| l.strip_prefix(&format!("{k} ")))
                    .unwrap_or("")
                    .to_string()
            };
            if get("job").starts_with(UNCHECKED) {
                let a = ["--replay-choices".to_string(), get("tier"), get("job"), get("choices")];
                let s = spawn(&a, Duration::from_secs(600));
                print!("{}", s.out);
                eprint!("{}", s.err);
                std::process::exit(if s.ok { 0 } else { 1 });
            }
            let c = make(tier_of(&get("tier")));
            std::process::exit(replay(&c, &get("job"), &get("choices")));
        }
        Some(t) => parent(id, tier_of(t), &args[1..], make(tier_of(t))),
        None => parent(id, Tier::Quick, &[], make(Tier::Quick)),
    }
}

/// Replays one execution; exit code 0: nothing wrong, 1: violation.
fn replay(c: &Check, job: &str, choices: &str) -> i32 {
    install_hook();
    std::thread::spawn(|| {
        let start = Instant::now();
        while start.elapsed() < Duration::from_secs(PATIENCE.load(Ordering::Relaxed)) {
            std::thread::sleep(Duration::from_millis(500));
        }
        std::process::exit(99);
    });
    let Some(j) = c.jobs.iter().find(|j| j.name == job) else {
        eprintln!("no job {job}");
        return 2;
    };
    let mut ctx = Ctx::new();
    ctx.prefix = choices
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| (s.parse().expect("choice"), 0))
        .collect();
    ctx.trace = Some(vec![]);
    let v = run_once(&mut ctx, &j.f);
    for l in ctx.trace.take().unwrap_or_default() {
        println!("  {l}");
    }
    match v {
        Verdict::Ok => {
            println!("no violation");
            0
        }
        Verdict::Violation { msg, .. } => {
            println!("VIOLATED: {msg}");
            1
        }
        Verdict::EngineError(e) => {
            println!("engine error: {e}");
            2
        }
    }
}

fn parent(id: &str, tier: Tier, filter: &[String], check: Check) -> ! {
    let start = Instant::now();
    let total = Duration::from_secs(match std::env::var("MC_WALL").ok().and_then(|s| s.parse().ok()) {
        Some(s) => s,
        None => tier.pick(300, 780),
    });
    let mut names: Vec<String> = check.jobs.iter().map(|j| j.name.clone()).collect();
    if std::env::var_os("MC_UNCHECKED").is_some() {
        let more: Vec<String> = names.iter().map(|n| format!("{UNCHECKED}{n}")).collect();
        names.extend(more);
    }
    let names: Vec<String> = names
        .into_iter()
        .filter(|n| filter.is_empty() || filter.iter().any(|f| n.contains(f.as_str())))
        .collect();
    let queue = Arc::new(Mutex::new(names.clone().into_iter().collect::<std::collections::VecDeque<_>>()));
    let results = Arc::new(Mutex::new(Vec::<JobResult>::new()));
    let par = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let id_s = id.to_string();
    let threads: Vec<_> = (0..par)
        .map(|_| {
            let (queue, results, id) = (queue.clone(), results.clone(), id_s.clone());
            std::thread::spawn(move || {
                loop {
                    let Some(n) = queue.lock().unwrap().pop_front() else {
                        return;
                    };
                    let left = total.saturating_sub(start.elapsed());
                    if left.is_zero() {
                        results.lock().unwrap().push(JobResult {
                            name: n,
                            capped: true,
                            ..Default::default()
                        });
                        continue;
                    }
                    let r = run_job(&id, tier, &n, left);
                    results.lock().unwrap().push(r);
                }
            })
        })
        .collect();
    for t in threads {
        t.join().unwrap();
    }
    let mut results = results.lock().unwrap().clone();
    results.sort_by_key(|r| names.iter().position(|n| *n == r.name));
    let sum = |k: &str| -> u64 { results.iter().map(|r| r.counts.get(k).copied().unwrap_or(0)).sum() };
    let capped: Vec<&str> = results.iter().filter(|r| r.capped).map(|r| r.name.as_str()).collect();
    let violations: Vec<&JobResult> = results.iter().filter(|r| r.viol.is_some()).collect();
    let errors: Vec<&JobResult> = results.iter().filter(|r| r.error.is_some()).collect();
    let wall = start.elapsed().as_secs_f64();
    let root = verif_root();

    let mut replays = vec![];
    for r in violations.iter().take(8) {
        let (msg, choices, trace) = r.viol.as_ref().unwrap();
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}-{:08x}.txt", hash_of(&(&r.name, choices)) as u32));
        let body = format!(
            "property {id}\ntier {}\njob {}\nchoices {choices}\n\n# {}\n# trace:\n{}\n# replay: /verif/check {id} --replay {}\n",
            tier.pick("quick", "thorough"),
            r.name,
            msg.replace('\n', " "),
            trace.lines().map(|l| format!("#   {l}")).collect::<Vec<_>>().join("\n"),
            path.display()
        );
        let _ = std::fs::write(&path, body);
        replays.push((r.name.clone(), msg.clone(), path));
    }

    // evidence
    if filter.is_empty() {
        let mut samples: Vec<String> = vec![];
        let mut idx = 0;
        while samples.len() < 12 && idx < 3 {
            let stride = (results.len() / 6).max(1);
            for r in results.iter().step_by(stride) {
                if let Some(s) = r.samples.get(idx) {
                    if samples.len() < 12 {
                        samples.push(format!("{}: {}", r.name, s));
                    }
                }
            }
            idx += 1;
        }
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut e = String::new();
        let list = |v: &[String]| format!("[{}]", v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "));
        let jobs_json: Vec<String> = results
            .iter()
            .map(|r| {
                let g = |k: &str| r.counts.get(k).copied().unwrap_or(0);
                format!(
                    "{{\"job\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"outcomes\": {}, \"merged\": {}, \"max_choices\": {}, \"exhausted\": {}, \"wall_s\": {:.2}}}",
                    json(&r.name), g("execs"), g("states"), g("transitions"), g("outcomes"), g("pruned"), g("maxchoices"),
                    !r.capped && r.error.is_none() && r.viol.is_none(), r.wall
                )
            })
            .collect();
        let _ = write!(
            e,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"merged_executions\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n  \"bounds\": {},\n  \"capped_jobs\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"jobs\": [\n   {}\n  ]\n }},\n \"assumptions\": {},\n \"known_findings_seen\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            json(id),
            json(tier.pick("quick", "thorough")),
            sum("states"),
            sum("transitions"),
            sum("execs"),
            sum("pruned"),
            sum("outcomes"),
            capped.is_empty() && errors.is_empty() && violations.is_empty(),
            list(&check.bounds),
            list(&capped.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
            json("states: distinct contents (implementation and reference model together) reached; transitions: operations of the real code applied and compared with the model; traces_validated_against_impl: complete executions of the real code, each checked against the reference model step by step. Every choice sequence of every job is enumerated; jobs listed in capped_jobs were cut short by the time limit."),
            list(&samples),
            jobs_json.join(",\n   "),
            list(&check.assumptions),
            list(&results.iter().flat_map(|r| r.known.iter().map(|k| k.0.clone())).collect::<Vec<_>>()),
            wall,
            violations.len()
        );
        let dir = root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{id}.json")), e).expect("write evidence");
    }

    println!(
        "{id} {}: {} jobs, {} executions, {} states, {} transitions, {} merged, {:.1}s{}",
        tier.pick("quick", "thorough"),
        results.len(),
        sum("execs"),
        sum("states"),
        sum("transitions"),
        sum("pruned"),
        wall,
        if capped.is_empty() { String::new() } else { format!(", capped: {}", capped.join(" ")) }
    );
    if std::env::var_os("MC_SLOW").is_some() {
        let mut by: Vec<&JobResult> = results.iter().collect();
        by.sort_by(|a, b| b.wall.total_cmp(&a.wall));
        for r in by.iter().take(12) {
            println!("  {:7.2}s {:>9} execs {:>8} states {}", r.wall, r.counts.get("execs").unwrap_or(&0), r.counts.get("states").unwrap_or(&0), r.name);
        }
    }
    let mut seen = HashSet::new();
    for r in &results {
        for (k, m) in &r.known {
            if seen.insert(k.clone()) {
                println!("KNOWN-FINDING: property={id} {k}: {m}");
            }
        }
    }
    if replays.len() > 8 {
        println!("({} violating jobs, the first 8 shown)", replays.len());
    }
    for (n, m, p) in replays.iter().take(8) {
        println!("  {n}: {m}");
        println!("VIOLATION property={id} replay={}", p.display());
    }
    for r in &errors {
        println!("ERROR {}: {}", r.name, r.error.as_ref().unwrap());
    }
    let code = if !replays.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    };
    std::process::exit(code);
}
