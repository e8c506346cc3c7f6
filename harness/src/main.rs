mod c_block;
mod c_cfa;
mod c_dis;
mod c_misc;
mod c_read;
mod c_valid;
mod cfg;
mod conv;
mod engine;
mod c_res;
mod c_sched;
mod gen;
mod ops;
mod spec;

use engine::*;

#[global_allocator]
static HEAP: c_res::Counting = c_res::Counting;

fn plan(prop: &str, tier: Tier) -> Option<Plan> {
    Some(match prop {
        "C01" => c_read::c01(tier),
        "C02" => c_read::c02(tier),
        "C03" => c_read::c03(tier),
        "C04" => c_read::c04(tier),
        "C05" => c_read::c05(tier),
        "C06" => c_read::c06(tier),
        "C07" => c_read::c07(tier),
        "C08" => c_read::c08(tier),
        "C09" => c_misc::c09(tier),
        "C10" => c_dis::c10(tier),
        "C11" => c_valid::c11(tier),
        "C12" => c_valid::c12(tier),
        "C13" => c_cfa::c13(tier),
        "C14" => c_cfa::c14(tier),
        "C15" => c_cfa::c15(tier),
        "C16" => c_cfa::c16(tier),
        "C17" => c_cfa::c17(tier),
        "C18" => c_misc::c18(tier),
        "C19" => c_misc::c19(tier),
        "C20" => c_misc::c20(tier),
        "C21" => c_block::c21(tier),
        "C22" => c_res::c22(tier),
        "C23" => c_res::c23(tier),
        "C24" => c_sched::c24(tier),
        _ => return None,
    })
}

fn usage() -> ! {
    eprintln!("usage: mfcheck check PROP quick|thorough SCRATCH VERIF | worker PROP TIER SCRATCH [--unit U] [--case C] [--trace]");
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 4 && a[1] == "probe" {
        std::process::exit(c_misc::probe(&a[2], a[3].parse().unwrap_or(0)));
    }
    if a.len() == 3 && a[1] == "digest" {
        println!("{}", c_misc::digest(a[2].parse().unwrap_or(0)));
        return;
    }
    if a.len() < 5 {
        usage();
    }
    let tier = match a[3].as_str() {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    };
    let mut o = Opts { prop: a[2].clone(), tier, dir: a[4].clone(), only_unit: None, only_case: None, trace: false };
    match a[1].as_str() {
        "check" => {
            let verif = a.get(5).cloned().unwrap_or_else(|| "/verif".into());
            std::process::exit(supervise(&o, &verif));
        }
        "worker" | "replay" => {
            let mut i = 5;
            while i < a.len() {
                match a[i].as_str() {
                    "--unit" => {
                        o.only_unit = a.get(i + 1).and_then(|s| s.parse().ok());
                        i += 1;
                    }
                    "--case" => {
                        o.only_case = a.get(i + 1).and_then(|s| s.parse().ok());
                        i += 1;
                    }
                    "--trace" => o.trace = true,
                    _ => usage(),
                }
                i += 1;
            }
            let p = match plan(&o.prop, o.tier) {
                Some(p) => p,
                None => {
                    eprintln!("unknown property {}", o.prop);
                    std::process::exit(2);
                }
            };
            let r = worker(&o, p);
            if a[1] == "replay" {
                match std::fs::read_to_string(format!("{}/violation", o.dir)) {
                    Ok(s) => println!("{}", s),
                    Err(_) => println!("no violation"),
                }
            }
            std::process::exit(r);
        }
        _ => usage(),
    }
}
