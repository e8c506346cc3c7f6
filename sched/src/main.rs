//! Concurrent calls under a controlled scheduler.
//!
//! The library is compiled with a callback at every basic block. Two threads make one call
//! each; exactly one of them runs at a time, and the scheduler decides at which callback it
//! hands over. All schedules with one switch (or two) are run, and both answers compared
//! with those of processes that make only that call.
//!
//! mfsched one CALL                            print the answer of a call
//! mfsched explore MODE PART PARTS [LIMIT]     explore; one line for each pair of calls
//!   all: one switch; two: two switches, pairs with at most LIMIT schedules; newsome, new,
//!   newall: one switch, each schedule in a new process
//! mfsched calls                               number of calls

#![allow(bare_trait_objects)]

mod calls;

use calls::{calls, Call};
use std::cell::Cell;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const OFF: u64 = u64::MAX;

thread_local! {
    /// callbacks until this thread hands over, OFF outside of the library
    static LEFT: Cell<u64> = const { Cell::new(OFF) };
    /// what LEFT is set to when the library is entered
    static AIM: Cell<u64> = const { Cell::new(OFF) };
    static ME: Cell<u32> = const { Cell::new(0) };
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    let now = LEFT.try_with(|l| {
        let v = l.get();
        if v == OFF {
            return false;
        }
        if v == 0 {
            l.set(OFF);
            return true;
        }
        l.set(v - 1);
        false
    });
    if now == Ok(true) {
        switch();
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

/// Makes a call of the library: the callbacks count only in here
pub fn inside<T>(f: impl FnOnce() -> T) -> Option<T> {
    LEFT.with(|l| l.set(AIM.with(|a| a.get())));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    AIM.with(|a| a.set(LEFT.with(|l| l.get())));
    LEFT.with(|l| l.set(OFF));
    r.ok()
}

/// The thread that may run: 1, 2, or 1 and the other one has finished
static TURN: AtomicU32 = AtomicU32::new(1);
const ENDED: u32 = 3;
/// The first thread has finished
static DONE: AtomicBool = AtomicBool::new(false);
/// times a thread handed over to did not come back: it waits for the other
static BLOCKED: AtomicU64 = AtomicU64::new(0);
static SWITCHED: AtomicBool = AtomicBool::new(false);

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    fn syscall(n: i64, ...) -> i64;
}

const SYS_FUTEX: i64 = 202;

/// Both threads share a processor: only one runs at a time anyway
static PINNED: AtomicBool = AtomicBool::new(false);

fn pin(n: usize) {
    unsafe {
        let mut mask = [0u64; 16];
        if sched_getaffinity(0, 128, mask.as_mut_ptr()) < 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| mask[i / 64] >> (i % 64) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let cpu = cpus[n % cpus.len()];
        let mut one = [0u64; 16];
        one[cpu / 64] = 1 << (cpu % 64);
        PINNED.store(sched_setaffinity(0, 128, one.as_ptr()) == 0, SeqCst);
    }
}

fn wake() {
    unsafe {
        syscall(SYS_FUTEX, TURN.as_ptr(), 129i32, 8i32, 0usize, 0usize, 0i32);
    }
}

/// Pass the turn on, if it is this thread's
fn give(from: u32, to: u32) {
    let _ = TURN.compare_exchange(from, to, SeqCst, SeqCst);
    wake();
}

/// Wait for something that is followed by a change of TURN
fn wait(limit: Duration, f: impl Fn() -> bool) -> bool {
    for _ in 0..if PINNED.load(SeqCst) { 1 } else { 1000 } {
        if f() {
            return true;
        }
        std::hint::spin_loop();
    }
    let start = Instant::now();
    loop {
        let t = TURN.load(SeqCst);
        if f() {
            return true;
        }
        let spent = start.elapsed();
        if spent >= limit {
            return false;
        }
        let left = (limit - spent).min(Duration::from_secs(1));
        let ts = [left.as_secs() as i64, left.subsec_nanos() as i64];
        unsafe {
            syscall(SYS_FUTEX, TURN.as_ptr(), 128i32, t, ts.as_ptr(), 0usize, 0i32);
        }
    }
}

/// Hand over to the other thread until it hands back or has finished
fn switch() {
    let me = ME.with(|m| m.get());
    let other = 3 - me;
    SWITCHED.store(true, SeqCst);
    if TURN.load(SeqCst) == ENDED || me == 2 && DONE.load(SeqCst) {
        return;
    }
    let limit = match BLOCKED.load(SeqCst) {
        0..=9 => 1000,
        10..=200 => 50,
        _ => 3,
    };
    give(me, other);
    if !wait(Duration::from_millis(limit), || TURN.load(SeqCst) != other) {
        // The other thread waits for something this one holds: let this one go on
        BLOCKED.fetch_add(1, SeqCst);
    }
}

static JOB: Mutex<(u64, usize, u64)> = Mutex::new((0, 0, OFF));
static CURRENT: Mutex<(usize, usize, u64, u64)> = Mutex::new((0, 0, 0, 0));
static ANSWER: Mutex<String> = Mutex::new(String::new());
static SEQ: AtomicU64 = AtomicU64::new(0);

fn helper() {
    ME.with(|m| m.set(2));
    let cs = calls();
    let mut last = 0;
    loop {
        while !wait(Duration::from_secs(3600), || TURN.load(SeqCst) == 2 && SEQ.load(SeqCst) != last) {}
        last = SEQ.load(SeqCst);
        let (_, call, aim) = *JOB.lock().unwrap();
        let s = run(&cs[call], aim).0;
        *ANSWER.lock().unwrap() = s;
        TURN.store(ENDED, SeqCst);
        wake();
    }
}

/// The answer of a call
fn answer(c: &Call) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.run)())).unwrap_or_else(|_| "cannot be made".into())
}

/// Run a call that hands over after some callbacks; the answer, and how many there were
fn run(c: &Call, aim: u64) -> (String, u64) {
    AIM.with(|a| a.set(aim));
    let s = answer(c);
    let left = AIM.with(|a| a.get());
    AIM.with(|a| a.set(OFF));
    (s, if left == OFF { u64::MAX } else { aim.wrapping_sub(left) })
}

/// One schedule: both answers, or None if the calls do not end
fn schedule(cs: &[Call], a: usize, b: usize, k: u64, j: u64) -> Option<(String, String)> {
    DONE.store(false, SeqCst);
    SWITCHED.store(false, SeqCst);
    TURN.store(1, SeqCst);
    *JOB.lock().unwrap() = (0, b, j);
    *CURRENT.lock().unwrap() = (a, b, k, j);
    SEQ.fetch_add(1, SeqCst);
    let x = run(&cs[a], k).0;
    DONE.store(true, SeqCst);
    give(1, 2);
    if !wait(Duration::from_secs(40), || TURN.load(SeqCst) == ENDED) {
        return None;
    }
    Some((x, ANSWER.lock().unwrap().clone()))
}

/// How many callbacks a call has
fn points(c: &Call) -> u64 {
    run(c, 1 << 40).1
}

/// Do something in a copy of this process; its exit code
fn forked(f: impl FnOnce() -> i32) -> i32 {
    std::io::stdout().flush().ok();
    unsafe {
        let pid = fork();
        if pid == 0 {
            let r = f();
            std::io::stdout().flush().ok();
            _exit(r);
        }
        let mut st = 0;
        if pid < 0 || waitpid(pid, &mut st, 0) != pid {
            return 100;
        }
        if st & 0x7F == 0 {
            (st >> 8) & 0xFF
        } else {
            101
        }
    }
}

fn fail(cs: &[Call], a: usize, b: usize, k: u64, j: u64, what: &str) -> ! {
    let at = if j == OFF { String::new() } else { format!(", the second one then stopped at its point {}", j) };
    println!("FAIL\t{}\t{}\tfirst call ({}) stopped at point {} for the second ({}){}: {}", a, b, cs[a].name, k, cs[b].name, at, what.replace('\n', " ").replace('\t', " "));
    std::io::stdout().flush().ok();
    std::process::exit(0);
}

fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}

fn judge(cs: &[Call], want: &[String], a: usize, b: usize, k: u64, j: u64) {
    match schedule(cs, a, b, k, j) {
        None => fail(cs, a, b, k, j, "the calls do not end"),
        Some((x, y)) => {
            if x != want[a] {
                fail(cs, a, b, k, j, &format!("the first answers '{}', alone it answers '{}'", clip(&x), clip(&want[a])));
            }
            if y != want[b] {
                fail(cs, a, b, k, j, &format!("the second answers '{}', alone it answers '{}'", clip(&y), clip(&want[b])));
            }
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let cs = calls();
    match args.get(1).map(|s| s.as_str()) {
        Some("calls") => println!("{}", cs.len()),
        Some("one") => {
            unsafe { alarm(20) };
            print!("{}", answer(&cs[args[2].parse::<usize>().unwrap()]));
        }
        Some("explore") => {
            let mode = args[2].as_str();
            let part: usize = args[3].parse().unwrap();
            let parts: usize = args[4].parse().unwrap();
            let exe = std::env::current_exe().unwrap();
            if let Some(n) = std::env::var("MF_CPU").ok().and_then(|s| s.parse().ok()) {
                pin(n);
            }
            // what the calls answer alone; one that kills the process or does not return is left out
            let want: Vec<Option<String>> = (0..cs.len())
                .map(|i| {
                    let o = std::process::Command::new(&exe).arg("one").arg(i.to_string()).output().unwrap();
                    if o.status.success() {
                        Some(String::from_utf8_lossy(&o.stdout).into_owned())
                    } else {
                        println!("LEFTOUT\t{}\t{}", i, cs[i].name);
                        None
                    }
                })
                .collect();
            let n = cs.len();
            let all: Vec<(usize, usize)> = (0..n * n).map(|x| (x / n, x % n)).filter(|(a, b)| want[*a].is_some() && want[*b].is_some()).filter(|(a, b)| !(cs[*a].few || cs[*b].few) || a == b || cs[*a].few && *b == *a + 2).collect();
            // the largest function only with functions
            let all: Vec<(usize, usize)> = all.into_iter().filter(|(a, b)| !cs[*a].name.contains("function 3") && !cs[*b].name.contains("function 3") || cs[*a].name.contains("function") && cs[*b].name.contains("function")).collect();
            let want: Vec<String> = want.into_iter().map(|w| w.unwrap_or_default()).collect();
            let heads = calls::heads(&cs);
            let pairs: Vec<(usize, usize)> = match mode {
                // processes in which nothing has been called before
                "newsome" => all.into_iter().filter(|(a, b)| a == b && !cs[*a].name.starts_with("print every") || heads.contains(a) && Some(b) == heads.iter().cycle().skip_while(|h| *h != a).nth(1)).collect(),
                "new" => all.into_iter().filter(|(a, b)| heads.contains(a) && heads.contains(b)).collect(),
                "newall" => all,
                "two" => {
                    let cap: u64 = args[5].parse().unwrap();
                    let ps: Vec<u64> = cs.iter().enumerate().map(|(i, c)| if all.contains(&(i, i)) { points(c) } else { 0 }).collect();
                    all.into_iter().filter(|(a, b)| ps[*a] * ps[*b] <= cap && !cs[*a].few).collect()
                }
                _ => all,
            };
            let mine: Vec<(usize, usize)> = pairs.into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|(_, p)| p).collect();
            if mode.starts_with("new") {
                explore_new(&cs, &want, &mine);
            } else {
                explore(&cs, &want, &mine, mode == "two");
            }
            println!("END");
        }
        _ => std::process::exit(2),
    }
}

/// All schedules in one process
fn explore(cs: &[Call], want: &[String], pairs: &[(usize, usize)], two: bool) {
    ME.with(|m| m.set(1));
    std::thread::spawn(helper);
    std::thread::spawn(|| {
        // calls that wait for each other or for themselves
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = SEQ.load(SeqCst);
            last = if last.0 == now { (now, last.1 + 1) } else { (now, 0) };
            if last.1 == 50 {
                let (a, b, k, j) = *CURRENT.lock().unwrap();
                fail(&calls(), a, b, k, j, "the calls do not end");
            }
        }
    });
    for (a, b) in pairs.iter().cloned() {
        let n = points(&cs[a]);
        let m = points(&cs[b]);
        let mut count = 0u64;
        if !two {
            for k in 0..n {
                judge(cs, want, a, b, k, OFF);
                count += 1;
            }
        } else {
            // two switches
            for k in 0..n {
                for j in 0..m {
                    judge(cs, want, a, b, k, j);
                    count += 1;
                    if count % 100_000 == 0 {
                        println!("TICK");
                        std::io::stdout().flush().ok();
                    }
                }
            }
        }
        println!("PAIR\t{}\t{}\t{}\t{}\t{}", a, b, n, count, BLOCKED.load(SeqCst));
        std::io::stdout().flush().ok();
    }
}

/// All schedules with one switch, each in a new process
fn explore_new(cs: &[Call], want: &[String], pairs: &[(usize, usize)]) {
    for (a, b) in pairs.iter().cloned() {
        let mut k = 0;
        loop {
            let r = forked(|| {
                unsafe { alarm(60) };
                ME.with(|m| m.set(1));
                std::thread::spawn(helper);
                judge(cs, want, a, b, k, OFF);
                if SWITCHED.load(SeqCst) {
                    33
                } else {
                    34
                }
            });
            match r {
                33 => {
                    k += 1;
                    if k % 1000 == 0 {
                        println!("TICK");
                    }
                }
                34 => break,
                0 => std::process::exit(0),
                r => fail(cs, a, b, k, OFF, &format!("the process ends with {}", r)),
            }
        }
        println!("PAIR\t{}\t{}\t{}\t{}\t0", a, b, k, k);
        std::io::stdout().flush().ok();
    }
}
