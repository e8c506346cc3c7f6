//! Exploration engine: deterministic units of work, run on all cores, with a
//! supervisor process that turns crashes and hangs of the code under test into
//! replayable violations.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A single case (microseconds of work) that makes no progress for this long hangs.
const HANG_SECS: u64 = 60;
const STACK: usize = 2 << 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

pub struct Unit {
    pub name: String,
    pub run: Box<dyn Fn(&mut Ctx) + Send + Sync>,
}

pub struct Plan {
    pub units: Vec<Unit>,
    /// What is enumerated, in words; goes to the evidence file
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
}

impl Plan {
    pub fn new() -> Plan {
        Plan { units: vec![], bounds: vec![], assumptions: vec![] }
    }
    pub fn unit<F: Fn(&mut Ctx) + Send + Sync + 'static>(&mut self, name: impl Into<String>, f: F) {
        self.units.push(Unit { name: name.into(), run: Box::new(f) });
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }
}

/// Open addressing set of u64 keys (0 is remapped)
pub struct Set64 {
    tab: Vec<u64>,
    len: usize,
}

impl Set64 {
    pub fn new() -> Set64 {
        Set64 { tab: vec![0; 1024], len: 0 }
    }
    pub fn insert(&mut self, k: u64) -> bool {
        let k = if k == 0 { 0x9E3779B97F4A7C15 } else { k };
        let mask = self.tab.len() - 1;
        let mut i = (k.wrapping_mul(0x9E3779B97F4A7C15) >> 20) as usize & mask;
        loop {
            if self.tab[i] == k {
                return false;
            }
            if self.tab[i] == 0 {
                self.tab[i] = k;
                self.len += 1;
                if self.len * 2 > self.tab.len() {
                    let old = std::mem::replace(&mut self.tab, vec![0; (mask + 1) * 2]);
                    self.len = 0;
                    for k in old {
                        if k != 0 {
                            self.insert(k);
                        }
                    }
                }
                return true;
            }
            i = (i + 1) & mask;
        }
    }
    pub fn merge(&mut self, o: &Set64) {
        for &k in &o.tab {
            if k != 0 {
                self.insert(k);
            }
        }
    }
    pub fn len(&self) -> usize {
        self.len
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_add(0xD1B54A32D192ED03);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^ (x >> 32)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h, s.len() as u64)
}

struct Stop;

#[derive(Default, Clone)]
pub struct Violation {
    pub unit: usize,
    pub case: u64,
    pub desc: String,
    pub detail: String,
}

/// Per thread state
pub struct Ctx {
    pub tier: Tier,
    unit: usize,
    case: u64,
    desc: String,
    lazy: bool,
    trace: Option<std::fs::File>,
    only_case: Option<u64>,
    progress: Arc<AtomicU64>,
    stop: Arc<AtomicBool>,
    pub states: Set64,
    pub trans: Set64,
    pub sum_states: u64,
    pub sum_trans: u64,
    pub traces: u64,
    pub evaluations: u64,
    /// Only crashes and hangs count as violations (used by the robustness property)
    pub crash_only: bool,
    pub outcomes: BTreeMap<String, u64>,
    outcome_fast: Vec<(&'static str, u64)>,
    samples: BTreeMap<usize, Vec<String>>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Run code under test; a panic becomes Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.is::<Stop>() {
                resume_unwind(e);
            }
            Err(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    }
}

impl Ctx {
    fn new(tier: Tier, progress: Arc<AtomicU64>, stop: Arc<AtomicBool>) -> Ctx {
        Ctx {
            tier,
            unit: 0,
            case: 0,
            desc: String::new(),
            lazy: true,
            trace: None,
            only_case: None,
            progress,
            stop,
            states: Set64::new(),
            trans: Set64::new(),
            sum_states: 0,
            sum_trans: 0,
            traces: 0,
            evaluations: 0,
            crash_only: false,
            outcomes: BTreeMap::new(),
            outcome_fast: vec![],
            samples: BTreeMap::new(),
        }
    }

    /// Start a case. Returns false if the case must be skipped (replay of another one).
    #[inline]
    pub fn begin(&mut self, desc: impl FnOnce() -> String) -> bool {
        self.case += 1;
        self.evaluations += 1;
        if self.case & 0x3F == 1 || !self.lazy {
            self.begin_slow(desc)
        } else {
            self.progress.fetch_add(1, Ordering::Relaxed);
            true
        }
    }

    /// The harness itself makes progress
    #[inline]
    pub fn tick(&self) {
        self.progress.fetch_add(1, Ordering::Relaxed);
        if self.stop.load(Ordering::Relaxed) {
            resume_unwind(Box::new(Stop));
        }
    }

    #[cold]
    fn begin_slow(&mut self, desc: impl FnOnce() -> String) -> bool {
        self.progress.fetch_add(1, Ordering::Relaxed);
        if self.stop.load(Ordering::Relaxed) {
            resume_unwind(Box::new(Stop));
        }
        if let Some(only) = self.only_case {
            if only != self.case {
                if self.case > only {
                    resume_unwind(Box::new(Stop));
                }
                return false;
            }
            self.desc = desc();
            return true;
        }
        if self.trace.is_some() {
            self.desc = desc();
            let line = format!("{:<20}\n{}\n\u{1}\n", self.case, self.desc);
            let f = self.trace.as_mut().unwrap();
            use std::io::Seek;
            f.seek(std::io::SeekFrom::Start(0)).unwrap();
            f.write_all(line.as_bytes()).unwrap();
        }
        true
    }

    #[inline]
    pub fn ok(&mut self, outcome: &'static str) {
        self.traces += 1;
        for e in self.outcome_fast.iter_mut() {
            if e.0.as_ptr() == outcome.as_ptr() {
                e.1 += 1;
                return;
            }
        }
        self.outcome_fast.push((outcome, 1));
    }

    #[inline]
    pub fn wants_sample(&self) -> bool {
        // a few early cases and one later case per unit
        self.case == 1 || self.case == 1000
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.wants_sample() {
            let u = self.unit;
            let v = s();
            self.samples.entry(u).or_default().push(v);
        }
    }

    #[inline]
    pub fn state(&mut self, k: u64) {
        self.states.insert(k);
    }

    #[inline]
    pub fn edge(&mut self, from: u64, sym: u64, to: u64) {
        self.states.insert(to);
        self.trans.insert(mix(mix(from, sym), to));
    }

    /// Report a violation and leave the unit (returns only in crash_only mode, where
    /// a wrong answer is not a violation). `desc` regenerates the case.
    #[cold]
    pub fn fail(&mut self, desc: impl FnOnce() -> String, detail: impl Into<String>) {
        if self.crash_only {
            return;
        }
        self.violate(desc(), detail.into());
    }

    #[cold]
    fn violate(&mut self, desc: String, detail: String) -> ! {
        let v = Violation { unit: self.unit, case: self.case, desc, detail };
        VIOLATIONS.lock().unwrap().push(v);
        self.stop.store(true, Ordering::SeqCst);
        resume_unwind(Box::new(Stop));
    }

    /// A failure that may be a listed known finding, otherwise a violation
    pub fn finding(&mut self, id: &str, desc: impl FnOnce() -> String, detail: impl Into<String>) {
        let verif = std::env::var("MF_VERIF").unwrap_or_else(|_| "/verif".into());
        let list = std::fs::read_to_string(format!("{}/known_findings.txt", verif)).unwrap_or_default();
        let tag = format!("[{}]", id);
        let prop = PROP.lock().unwrap().clone();
        let head = format!("known: property={} ", prop);
        match list.lines().find(|l| l.starts_with(&head) && l.contains(&tag)) {
            Some(l) => {
                KNOWN.lock().unwrap().push(format!("KNOWN-FINDING: {}", &l["known: ".len()..]));
                self.ok("known finding");
            }
            None => self.violate(desc(), detail.into()),
        }
    }

    /// Run code under test. A panic is a violation in every mode.
    #[inline]
    pub fn lib<T>(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce() -> T) -> T {
        match guard(f) {
            Ok(v) => v,
            Err(m) => self.violate(desc(), format!("the library panicked: {}", m)),
        }
    }
}

static KNOWN: Mutex<Vec<String>> = Mutex::new(Vec::new());
static PROP: Mutex<String> = Mutex::new(String::new());
static VIOLATIONS: Mutex<Vec<Violation>> = Mutex::new(Vec::new());

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}… ({} bytes)", &s[..k], s.len())
}

pub struct Opts {
    pub prop: String,
    pub tier: Tier,
    pub dir: String,
    pub only_unit: Option<usize>,
    pub only_case: Option<u64>,
    pub trace: bool,
}

/// Worker: runs the units and writes `result` (machine readable) into the scratch dir.
/// Exit 0 no violation, 10 violation, 77 hang.
pub fn worker(o: &Opts, plan: Plan) -> i32 {
    *PROP.lock().unwrap() = o.prop.clone();
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = i.to_string();
            }
        });
        if std::env::var_os("MF_BACKTRACE").is_some() {
            eprintln!("{}", i);
        }
    }));
    let n = if o.only_unit.is_some() { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) };
    let plan = Arc::new(plan);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let mut handles = vec![];
    let mut progress = vec![];
    let mut current = vec![];
    for t in 0..n {
        let p = Arc::new(AtomicU64::new(0));
        let cur = Arc::new(AtomicUsize::new(usize::MAX));
        progress.push(p.clone());
        current.push(cur.clone());
        let (plan, next, stop) = (plan.clone(), next.clone(), stop.clone());
        let (tier, dir) = (o.tier, o.dir.clone());
        let (only_unit, only_case, trace) = (o.only_unit, o.only_case, o.trace);
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let mut ctx = Ctx::new(tier, p, stop.clone());
                ctx.only_case = only_case;
                if trace {
                    ctx.trace = Some(std::fs::File::create(format!("{}/trace", dir)).unwrap());
                }
                ctx.lazy = !(trace || only_case.is_some());
                let curfile = format!("{}/unit.{}", dir, t);
                loop {
                    let u = match only_unit {
                        Some(u) => {
                            if next.fetch_add(1, Ordering::SeqCst) > 0 {
                                break;
                            }
                            u
                        }
                        None => next.fetch_add(1, Ordering::SeqCst),
                    };
                    if u >= plan.units.len() || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    cur.store(u, Ordering::SeqCst);
                    std::fs::write(&curfile, u.to_string()).unwrap();
                    ctx.unit = u;
                    ctx.case = 0;
                    let r = catch_unwind(AssertUnwindSafe(|| (plan.units[u].run)(&mut ctx)));
                    cur.store(usize::MAX, Ordering::SeqCst);
                    if let Err(e) = r {
                        if !e.is::<Stop>() {
                            if ctx.crash_only {
                                // a wrong answer confused the harness; wrong answers do not
                                // count here, the unit is given up
                                ctx.crash_only = false;
                                *ctx.outcomes.entry("unit given up after a wrong answer".into()).or_default() += 1;
                                let _ = std::fs::remove_file(&curfile);
                                continue;
                            }
                            // a panic outside guard(): the harness itself is at fault
                            eprintln!("harness panic in unit {}: {}", plan.units[u].name, LAST_PANIC.with(|p| p.borrow().clone()));
                            std::process::exit(3);
                        }
                        break;
                    }
                    let _ = std::fs::remove_file(&curfile);
                }
                let fast = std::mem::take(&mut ctx.outcome_fast);
                for (k, v) in fast {
                    *ctx.outcomes.entry(k.to_string()).or_default() += v;
                }
                ctx
            })
            .unwrap();
        handles.push(h);
    }
    // watchdog
    let mut last: Vec<(u64, Instant)> = progress.iter().map(|p| (p.load(Ordering::Relaxed), Instant::now())).collect();
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        for i in 0..n {
            if handles[i].is_finished() {
                continue;
            }
            let v = progress[i].load(Ordering::Relaxed);
            if v != last[i].0 {
                last[i] = (v, Instant::now());
            } else if last[i].1.elapsed().as_secs() >= HANG_SECS && current[i].load(Ordering::SeqCst) != usize::MAX {
                std::fs::write(format!("{}/hang", o.dir), current[i].load(Ordering::SeqCst).to_string()).unwrap();
                std::process::exit(77);
            }
        }
    }
    let mut states = Set64::new();
    let mut trans = Set64::new();
    let (mut ss, mut st, mut tr, mut ev) = (0u64, 0u64, 0u64, 0u64);
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    for h in handles {
        let c = match h.join() {
            Ok(c) => c,
            Err(_) => return 3,
        };
        states.merge(&c.states);
        trans.merge(&c.trans);
        ss += c.sum_states;
        st += c.sum_trans;
        tr += c.traces;
        ev += c.evaluations;
        for (k, v) in c.outcomes {
            *outcomes.entry(k).or_default() += v;
        }
        for (k, v) in c.samples {
            samples.entry(k).or_default().extend(v);
        }
    }
    // keep at most eight samples, spread over the units
    let keys: Vec<usize> = samples.keys().cloned().collect();
    let mut sel = vec![];
    let step = (keys.len() / 6).max(1);
    for (i, k) in keys.iter().enumerate() {
        if i % step == 0 && sel.len() < 8 {
            let v = &samples[k];
            sel.push(format!("[{}] {}", plan.units[*k].name, clip(v.last().unwrap(), 600)));
        }
    }
    let known = KNOWN.lock().unwrap().clone();
    if !known.is_empty() {
        std::fs::write(format!("{}/known", o.dir), known.join("\n")).unwrap();
    }
    let viol = VIOLATIONS.lock().unwrap().clone();
    let mut j = String::from("{");
    let _ = write!(j, "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"evaluations\":{},", states.len() as u64 + ss, trans.len() as u64 + st, tr, ev);
    let _ = write!(j, "\"units\":{},\"distinct_outcomes\":{},", plan.units.len(), outcomes.len());
    let _ = write!(j, "\"outcomes\":{{{}}},", outcomes.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"bounds\":[{}],", plan.bounds.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"samples\":[{}],", sel.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"exhaustive\":{}}}", viol.is_empty() && !outcomes.contains_key("unit given up after a wrong answer"));
    std::fs::write(format!("{}/coverage", o.dir), j).unwrap();
    let a = format!("[{}]", plan.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    std::fs::write(format!("{}/assumptions", o.dir), a).unwrap();
    if let Some(v) = viol.iter().min_by_key(|v| (v.unit, v.case)) {
        let text = format!("unit {} ({})\ncase {}\n\n{}\n\n{}\n", v.unit, plan.units[v.unit].name, v.case, v.desc, v.detail);
        std::fs::write(format!("{}/violation", o.dir), format!("{} {}\n{}", v.unit, v.case, text)).unwrap();
        return 10;
    }
    0
}

fn spawn(o: &Opts, extra: &[String]) -> std::io::Result<std::process::ExitStatus> {
    let exe = std::env::current_exe()?;
    let mut c = std::process::Command::new(exe);
    c.arg("worker").arg(&o.prop).arg(o.tier.name()).arg(&o.dir).args(extra);
    c.status()
}

fn active_units(dir: &str) -> Vec<usize> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with("unit.") {
                if let Ok(s) = std::fs::read_to_string(e.path()) {
                    if let Ok(u) = s.trim().parse() {
                        v.push(u);
                    }
                }
            }
        }
    }
    v.sort();
    v
}

/// Supervisor: runs the worker, localises crashes and hangs, writes evidence and replay files.
pub fn supervise(o: &Opts, verif: &str) -> i32 {
    let t0 = Instant::now();
    std::env::set_var("MF_VERIF", verif);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let st = match spawn(o, &[]) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start worker: {}", e);
            return 2;
        }
    };
    let replay_dir = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&replay_dir);
    let mut violation: Option<String> = None;
    match st.code() {
        Some(0) => {}
        Some(10) => {
            let v = std::fs::read_to_string(format!("{}/violation", o.dir)).unwrap_or_default();
            violation = Some(v);
        }
        Some(2) | Some(3) => {
            eprintln!("worker failed: harness error");
            return 2;
        }
        code => {
            // crash (signal, abort) or hang (77): find the case
            let mut units = active_units(&o.dir);
            if code == Some(77) {
                if let Some(u) = std::fs::read_to_string(format!("{}/hang", o.dir)).ok().and_then(|s| s.trim().parse::<usize>().ok()) {
                    units.retain(|x| *x != u);
                    units.insert(0, u);
                }
            }
            eprintln!("worker ended abnormally ({}); localising in units {:?}", st, units);
            for u in units {
                let _ = std::fs::remove_file(format!("{}/trace", o.dir));
                let _ = std::fs::remove_file(format!("{}/violation", o.dir));
                let r = match spawn(o, &["--unit".into(), u.to_string(), "--trace".into()]) {
                    Ok(r) => r,
                    Err(_) => return 2,
                };
                let how = match r.code() {
                    Some(0) => continue,
                    Some(10) => {
                        violation = std::fs::read_to_string(format!("{}/violation", o.dir)).ok();
                        break;
                    }
                    Some(2) | Some(3) => return 2,
                    Some(77) => format!("does not terminate (no progress within {} s)", HANG_SECS),
                    _ => format!("kills the process: {} (stack overflow, abort or memory exhaustion)", r),
                };
                let t = std::fs::read_to_string(format!("{}/trace", o.dir)).unwrap_or_default();
                let t = t.split("\n\u{1}\n").next().unwrap_or("");
                let (case, desc) = t.split_once('\n').unwrap_or((t, ""));
                if case.trim().is_empty() {
                    // nothing of the library was running
                    eprintln!("unit {} ends abnormally outside of the library; no verdict", u);
                    return 2;
                }
                violation = Some(format!("{} {}\nunit {}\ncase {}\n\n{}\n\nthe library {}\n", u, case.trim(), u, case.trim(), desc, how));
                break;
            }
            if violation.is_none() {
                eprintln!("abnormal end could not be reproduced; no verdict");
                return 2;
            }
        }
    }
    let cov = std::fs::read_to_string(format!("{}/coverage", o.dir))
        .unwrap_or_else(|_| "{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[],\"exhaustive\":false}".into());
    let asm = std::fs::read_to_string(format!("{}/assumptions", o.dir)).unwrap_or_else(|_| "[]".into());
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{},\"assumptions\":{},\"wall_s\":{:.3},\"violations\":{}}}\n",
        jstr(&o.prop),
        jstr(o.tier.name()),
        seed,
        cov,
        asm,
        t0.elapsed().as_secs_f64(),
        violation.is_some() as u32
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", verif, o.prop), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    if let Some(v) = violation {
        let (head, body) = v.split_once('\n').unwrap_or((&v, ""));
        let mut it = head.split(' ');
        let (u, c) = (it.next().unwrap_or("0"), it.next().unwrap_or("0"));
        let path = format!("{}/{}-{}-u{}-c{}.txt", replay_dir, o.prop, o.tier.name(), u, c);
        let text = format!(
            "property {}\nreplay: bash /verif/check.sh {} {} --replay {} {}\n\n{}",
            o.prop, o.prop, o.tier.name(), u, c, body
        );
        let _ = std::fs::write(&path, &text);
        println!("{}", clip(&text, 3000));
        println!("VIOLATION property={} replay={}", o.prop, path);
        return 1;
    }
    if let Ok(k) = std::fs::read_to_string(format!("{}/known", o.dir)) {
        println!("{}", k.trim());
    }
    println!("{} {} held: {}", o.prop, o.tier.name(), clip(&cov, 400));
    0
}
