//! C24: two calls at a time, under the scheduler of ../sched

use crate::engine::{Ctx, Plan, Tier};
use crate::gen;
use crate::spec::*;
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};

const PARTS: usize = 4;

static UNITS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn explore(ctx: &mut Ctx, mode: &str, part: usize, limit: u64) {
    let exe = std::env::var("MF_SCHED").unwrap_or_default();
    // one of each instruction
    let mut insts = vec![];
    for d in OPS {
        if d.code == 11 || d.code == 12 {
            continue;
        }
        let mut w = vec![];
        enc_inst(&gen::base_inst(d), &mut w);
        insts.push(w.iter().map(|w| format!("{:x}", w)).collect::<Vec<_>>().join(","));
    }
    let mut child = match Command::new(&exe)
        .env("MF_INSTS", insts.join(";"))
        .env("MF_CPU", UNITS.fetch_add(1, std::sync::atomic::Ordering::SeqCst).to_string())
        .args(["explore", mode, &part.to_string(), &PARTS.to_string(), &limit.to_string()])
        .stdout(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start the scheduler '{}': {}", exe, e);
            std::process::exit(3);
        }
    };
    let mut ended = false;
    let mut last = String::from("the first pair");
    for line in BufReader::new(child.stdout.take().unwrap()).lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        ctx.tick();
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "PAIR" => {
                let desc = || format!("calls {} and {}, {}", f[1], f[2], mode);
                last = format!("the pair after {}", desc());
                let n: u64 = f[4].parse().unwrap_or(0);
                ctx.sum_states += n;
                ctx.sum_trans += n * 2;
                if ctx.begin(desc) {
                    ctx.traces += n;
                    ctx.ok("both answer as they do alone");
                    ctx.sample(|| format!("calls {} and {}: {} points, {} schedules", f[1], f[2], f[3], f[4]));
                }
            }
            "FAIL" => {
                let _ = child.kill();
                let _ = child.wait();
                let desc = || format!("calls {} and {}, {}", f[1], f[2], mode);
                if ctx.begin(desc) {
                    ctx.fail(desc, f[3..].join(" "));
                }
                return;
            }
            "TICK" => {}
            "LEFTOUT" => {
                let desc = || format!("call {} ({}) alone", f[1], f[2]);
                if ctx.begin(desc) {
                    ctx.ok("left out: does not return in a process of its own");
                }
            }
            "END" => ended = true,
            _ => {}
        }
    }
    let st = child.wait();
    if ended {
        return;
    }
    use std::os::unix::process::ExitStatusExt;
    let signal = st.as_ref().ok().and_then(|s| s.signal());
    if let Some(s) = signal {
        if s != 9 && s != 15 {
            let desc = || format!("{}, {}", last, mode);
            if ctx.begin(desc) {
                ctx.fail(desc, format!("the process is killed by signal {}", s));
            }
            return;
        }
    }
    eprintln!("the scheduler ended without an answer: {:?}", st);
    std::process::exit(3);
}

pub fn units(p: &mut Plan, modes: &[(&'static str, u64)]) {
    for (mode, limit) in modes.iter().cloned() {
        for part in 0..PARTS {
            p.unit(format!("two calls at a time, {}, part {}", mode, part), move |ctx| explore(ctx, mode, part, limit));
        }
        match mode {
            "all" => p.bound("all pairs of 46 calls, the largest function only with other functions (reads of all kinds of module and of each error, printing, validating, recovering, copying), all schedules with one switch: the first call stops at any of the basic blocks of the library it goes through, the second runs; also modules of six instructions, one of each instruction, read and printed, each with itself and with the next"),
            "two" => p.bound(format!("all pairs of them with at most {} such schedules, all schedules with two switches: the second call stops at any basic block as well, the first ends, the second ends", limit)),
            "newsome" => p.bound("each call with itself, and half of the calls with the next of them, all schedules with one switch, each in a process in which nothing has been called"),
            "new" => p.bound("all pairs of 14 of them, all schedules with one switch, each in a process in which nothing has been called"),
            _ => {}
        }
    }
    p.assume("a switch happens at a basic block of the unoptimised library (compiled with a callback at each, including the generic code of the standard library it uses); effects of weak memory order are not explored");
}

pub fn c24(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("the reference answer of a call is that of a new process that makes only this call");
    units(&mut p, &tier.pick(vec![("newsome", 0), ("all", 0), ("two", 30_000)], vec![("newsome", 0), ("new", 0), ("all", 0), ("two", 300_000)]));
    p
}
