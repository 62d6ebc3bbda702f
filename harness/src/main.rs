//! Runtime monitors for BAE. `vmon check <ID> [quick|thorough]` runs the real
//! code under the workloads of one property and watches it;
//! `vmon replay <file>` repeats a case that violated its property.

mod alloc;
mod c_chan;
mod c_clone;
mod c_det;
mod c_fmt;
mod c_gen;
mod c_ext;
mod c_long;
mod c_mod;
mod c_run;
mod c_snd;
mod c_tool;
mod c_util;
mod c_wav;
mod rng;
mod rt;
mod util;

use rt::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

static CHECKS: &[Check] = &[
    c_wav::C01, c_wav::C02, c_wav::C03, c_wav::C04,
    c_fmt::C05, c_fmt::C06, c_fmt::C07,
    c_gen::C08, c_gen::C09, c_gen::C10, c_gen::C11, c_gen::C12,
    c_mod::C13, c_mod::C14, c_mod::C15, c_mod::C16, c_mod::C17, c_mod::C18, c_mod::C19,
    c_clone::C20,
    c_snd::C21, c_snd::C22, c_snd::C23, c_snd::C24, c_snd::C25,
    c_chan::C26, c_chan::C27,
    c_util::C28, c_util::C29, c_util::C30,
    c_tool::C31, c_det::C32, c_run::C33,
    c_chan::C34, c_wav::C35,
];

fn find(id: &str) -> &'static Check {
    match CHECKS.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            println!("no check {}", id);
            std::process::exit(2)
        }
    }
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = |s: &str| match s {
        "thorough" => true,
        "quick" => false,
        _ => std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
    };
    let code = match arg(0) {
        "list" => {
            for c in CHECKS {
                println!("{}", c.id);
            }
            0
        }
        "check" => check(find(arg(1)), Opts { seed, thorough: tier(arg(2)) }),
        "worker" => worker(find(arg(1)), Opts { seed, thorough: tier(arg(2)) }),
        "case" => single(find(arg(1)), arg(2), arg(3).parse().unwrap_or(0), Opts { seed, thorough: tier(arg(4)) }),
        // Children of C32.
        "lone" => c_det::lone(arg(1).parse().unwrap_or(0)),
        "firstuse" => c_det::first_use_child(arg(1).parse().unwrap_or(0)),
        "replay" => {
            let s = match std::fs::read_to_string(arg(1)) {
                Ok(s) => s,
                Err(e) => {
                    println!("{}: {}", arg(1), e);
                    std::process::exit(2)
                }
            };
            let f = |k| field(&s, k).unwrap_or("").to_string();
            let end = supervise(
                std::process::Command::new(std::env::current_exe().expect("exe"))
                    .arg("case").arg(f("property")).arg(f("family")).arg(f("index")).arg(f("tier"))
                    .env("VERIF_SEED", f("seed")),
                std::time::Duration::from_secs(600),
            );
            println!("{:?}", end);
            match end {
                End::Code(c) => c,
                End::Signal(_) => 1,
                End::Timeout => 2,
            }
        }
        _ => {
            println!("usage: vmon check ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}
