//! Bounded execution of the contracts against the real code: `lc3native <ID> [--seed N] [--budget S] [--out F] [--thorough] [--case N]`
#[path = "../../shared/conv.rs"]
pub mod conv;
#[macro_use]
mod util;
mod words;
mod lock;
mod progs;
mod run;
mod prog;
mod asmc;
mod objc;
mod text;
mod os;

use std::sync::atomic::Ordering;
use util::*;

fn run(id: &str, c: &mut Ctx) {
    match id {
        "C06" => words::c06(c),
        "C07" => words::c07(c),
        "C08" => lock::c08(c),
        "C09" => lock::c09(c),
        "C27" => lock::c27(c),
        "C28" => lock::c28(c),
        "C10" => run::c10(c),
        "C13" => run::c13(c),
        "C14" => run::c14(c),
        "C16" => run::c16(c),
        "C32" => run::c32(c),
        "C15" => words::c15(c),
        "C34" => words::c34(c),
        "C35" => words::c35(c),
        "C01" => asmc::c01(c),
        "C02" => asmc::c02(c),
        "C03" => asmc::c03(c),
        "C04" => text::c04(c),
        "C05" => asmc::c05(c),
        "C17" => objc::c17(c),
        "C18" => objc::c18(c),
        "C19" => objc::c19(c),
        "C20" => objc::c20(c),
        "C21" => objc::c21(c),
        "C22" => objc::c22(c),
        "C23" => objc::c23(c),
        "C24" => asmc::c24(c),
        "C11" => os::c11(c),
        "C12" => os::c12(c),
        "C29" => os::c29(c),
        "C30" => os::c30(c),
        "C31" => os::c31(c),
        "C33" => os::c33(c),
        "C25" => text::c25(c),
        "C26" => asmc::c26(c),
        "C36" => asmc::c36(c),
        _ => { eprintln!("no native check for {id}"); std::process::exit(3) }
    }
}

fn report(c: &Ctx, wall: f64) -> String {
    let strs = |v: &[String]| v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    let viol = c.violations.iter()
        .map(|v| format!("{{\"what\":{},\"input\":{},\"case\":{}}}", json_str(&v.what), json_str(&v.input), v.case))
        .collect::<Vec<_>>().join(",");
    let ex = c.exhausted.iter().map(|(w, n)| format!("{{\"space\":{},\"size\":{n}}}", json_str(w))).collect::<Vec<_>>().join(",");
    format!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"inner_steps\":{},\"rule\":{},\"samples\":[{}],\"violations\":[{}],\"known\":[{}],\"exhausted\":[{}],\"seed\":{},\"wall_s\":{:.3}}}\n",
        c.evals, c.distinct(), ticks(), json_str(&c.rule), strs(&c.samples), viol, strs(&c.known), ex, c.seed, wall)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "os-image" { print!("{}", os::image_source()); return }
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let out = get("--out");
    let thorough = args.iter().any(|a| a == "--thorough");
    let only = get("--case").and_then(|s| s.parse().ok());
    let hang: f64 = get("--hang").and_then(|s| s.parse().ok()).unwrap_or(60.0);
    install_hook();
    let start = std::time::Instant::now();

    // Watchdog: a case which does not end is a violation as well.
    let o2 = out.clone();
    std::thread::spawn(move || {
        let (mut last, mut since) = ((0, 0), std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let p = (PROGRESS.load(Ordering::Relaxed), ticks());
            if p != last { last = p; since = std::time::Instant::now(); continue }
            if since.elapsed().as_secs_f64() > hang {
                let mut c = Ctx::new(seed, 0.0, thorough, None);
                c.evals = p.0;
                let mut input = CURRENT.lock().unwrap().clone();
                if input.is_empty() { input = format!("case {} of seed {seed} (print it with: lc3native <ID> --seed {seed} --case {})", p.0.max(1) - 1, p.0.max(1) - 1); }
                c.violations.push(Violation { what: format!("the code under test did not return within {hang} s"), input, case: p.0.max(1) - 1 });
                let r = report(&c, start.elapsed().as_secs_f64());
                if let Some(o) = &o2 { std::fs::write(o, &r).unwrap(); } else { print!("{r}"); }
                std::process::exit(1);
            }
        }
    });

    // Large stack: deep recursion is not what is being tested.
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut c = Ctx::new(seed, budget, thorough, only);
        if let Err(e) = guard(|| run(&id, &mut c)) {
            // a panic outside of a case: an error of the harness
            eprintln!("harness error: {e}");
            std::process::exit(4);
        }
        c
    }).unwrap();
    let c = h.join().unwrap();
    let r = report(&c, start.elapsed().as_secs_f64());
    if let Some(o) = &out { std::fs::write(o, &r).unwrap(); } else { print!("{r}"); }
    std::process::exit(if c.ok() { 0 } else { 1 });
}
