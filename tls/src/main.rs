//! gvtls jobs PROP / gvtls worker PROP SECTION CONFIG SHARD NSHARDS [OUT]: as gv, for the TLS provider
use harness::*;

mod kx;
mod pair;
mod record;
mod sigs;
mod tickets;

pub type Job = (&'static str, &'static str, usize);

fn table(prop: &str) -> Option<(fn(bool) -> Vec<Job>, fn(&mut Ctx))> {
    Some(match prop {
        "C24" => (pair::jobs_c24, pair::run_c24),
        "C25" => (record::jobs_c25, record::run_c25),
        "C26" => (tickets::jobs_c26, tickets::run_c26),
        "C27" => (sigs::jobs_c27, sigs::run_c27),
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    match a.get(1).map(|s| s.as_str()) {
        Some("jobs") => {
            let (jobs, _) = table(&a[2]).expect("unknown property");
            for (s, c, n) in jobs(thorough) {
                for i in 0..n {
                    println!("{s} {c} {i} {n}");
                }
            }
        }
        Some("worker") => {
            install_panic_hook();
            let (_, run) = table(&a[2]).expect("unknown property");
            let mut ctx = Ctx::new(&a[2], &a[3], &a[4], a[5].parse().unwrap(), a[6].parse().unwrap(), a.get(7).cloned());
            rngctl::reset(ctx.rng("system").u64(), rngctl::Mode::Stream);
            rngctl::with(|s| s.keep_log = false);
            let r = guard(|| run(&mut ctx));
            if let Err(p) = r {
                if p.loc.contains("/repo/") || p.loc.starts_with("src/low") || p.loc.starts_with("rustls-graviola") {
                    ctx.fail("panic", format!("panic at {}: {}", p.loc, p.msg));
                } else {
                    eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
                    ctx.flush();
                    std::process::exit(3);
                }
            }
            ctx.finish();
        }
        _ => std::process::exit(2),
    }
}

/// rustls has no public way to make a 16-byte key out of bytes of one's choice
pub fn aead_key(b: &[u8]) -> rustls::crypto::cipher::AeadKey {
    use rustls::crypto::cipher::AeadKey;
    let mut full = [0xa7u8; 32];
    full[..b.len()].copy_from_slice(b);
    let mut k = AeadKey::from(full);
    if b.len() < 32 {
        // find the length beside the key bytes
        let p = (&mut k as *mut AeadKey).cast::<usize>();
        let n = std::mem::size_of::<AeadKey>() / 8;
        for i in 0..n {
            // SAFETY: within the object, which is plain data
            unsafe {
                if p.add(i).read() == 32 {
                    p.add(i).write(b.len());
                }
            }
        }
    }
    assert_eq!(k.as_ref(), b);
    k
}
