//! gv jobs PROP            -> one line per job: section config nshards
//! gv worker PROP SECTION CONFIG SHARD NSHARDS [OUT]
use harness::*;

mod aead;
mod ctime;
mod cv;
mod der;
mod ecref;
mod enc;
mod erase;
mod faults;
mod features;
mod hash;
mod history;
mod hostile;
mod inject;
mod memops;
mod mlkem;
mod nist;
mod ops;
mod rsa;
mod threads;

#[global_allocator]
static ALLOC: erase::Watch = erase::Watch;

pub type Job = (&'static str, &'static str, usize);

fn table(prop: &str) -> Option<(fn(bool) -> Vec<Job>, fn(&mut Ctx))> {
    Some(match prop {
        "C01" => (aead::jobs_c01, aead::run_c01),
        "C02" => (aead::jobs_c02, aead::run_c02),
        "C03" => (hash::jobs_c03, hash::run_c03),
        "C04" => (hash::jobs_c04, hash::run_c04),
        "C05" => (nist::jobs_c05, nist::run_c05),
        "C08" => (nist::jobs_c08, nist::run_c08),
        "C09" => (nist::jobs_c09, nist::run_c09),
        "C06" => (cv::jobs_c06, cv::run_c06),
        "C07" => (cv::jobs_c07, cv::run_c07),
        "C10" => (cv::jobs_c10, cv::run_c10),
        "C11" => (rsa::jobs_c11, rsa::run_c11),
        "C12" => (rsa::jobs_c12, rsa::run_c12),
        "C13" => (rsa::jobs_c13, rsa::run_c13),
        "C14" => (rsa::jobs_c14, rsa::run_c14),
        "C15" => (mlkem::jobs_c15, mlkem::run_c15),
        "C16" => (enc::jobs_c16, enc::run_c16),
        "C17" => (hostile::jobs_c17, hostile::run_c17),
        "C18" => (memops::jobs_c18, memops::run_c18),
        "C19" => (erase::jobs_c19, erase::run_c19),
        "C20" => (ctime::jobs_c20, ctime::run_c20),
        "C21" => (features::jobs_c21, features::run_c21),
        "C22" => (faults::jobs_c22, faults::run_c22),
        "C23" => (threads::jobs_c23, threads::run_c23),
        "C28" => (history::jobs_c28, history::run_c28),
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    match a.get(1).map(|s| s.as_str()) {
        Some("jobs") => {
            let (jobs, _) = table(&a[2]).expect("unknown property");
            for (s, c, n) in jobs(thorough) {
                for i in 0..n {
                    println!("{s} {c} {i} {n}");
                }
            }
        }
        Some("first-use") => threads::first_use(&a[2]),
        Some("worker") => {
            install_panic_hook();
            let (_, run) = table(&a[2]).expect("unknown property");
            let mut ctx = Ctx::new(
                &a[2],
                &a[3],
                &a[4],
                a[5].parse().unwrap(),
                a[6].parse().unwrap(),
                a.get(7).cloned(),
            );
            rngctl::reset(ctx.rng("system").u64(), rngctl::Mode::Stream);
            rngctl::with(|s| s.keep_log = false);
            let r = guard(|| run(&mut ctx));
            if let Err(p) = r {
                // a panic outside a guarded call: blame the library only if it is its code
                if p.loc.contains("/repo/") || p.loc.starts_with("src/low") {
                    ctx.fail("panic", format!("panic at {}: {}", p.loc, p.msg));
                } else {
                    eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
                    ctx.flush();
                    std::process::exit(3);
                }
            }
            ctx.finish();
        }
        _ => {
            eprintln!("usage: gv jobs|worker ...");
            std::process::exit(2);
        }
    }
}
