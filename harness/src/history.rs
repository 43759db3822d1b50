//! C28: a result depends on the inputs alone, not on what the process did before, and
//! an operation leaves nothing behind.
use crate::Job;
use crate::erase::COUNT;
use crate::hostile::corpus;
use crate::ops::{Mem, OPS, Op, Place, rsa_gen};
use crate::threads::shared_ops;
use graviola::key_agreement as ka;
use graviola::signing::{ecdsa, eddsa, rsa as grsa};
use harness::rngctl::{self, Mode};
use harness::*;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::sync::atomic::Ordering;

pub fn jobs_c28(t: bool) -> Vec<Job> {
    let k = if t { 4 } else { 1 };
    vec![
        ("history", "native", 4 * k),
        ("history", "min", 2 * k),
        ("history", "rel", 2 * k),
        ("count", "native", 6 * k),
        ("count", "rel", 8 * k),
        ("heap", "native", 2 * k),
        ("heap", "rel", k),
        ("state", "native", 1),
        ("state", "min", 1),
        ("state", "rel", 1),
    ]
}

/// What `f` gives in a process of its own; None: it panicked or died.
fn alone(f: &dyn Fn() -> Vec<u8>) -> Option<Vec<u8>> {
    // SAFETY: plain system calls; this process has one thread
    unsafe {
        let mut fd = [0; 2];
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fd[0]);
            libc::alarm(120);
            let m = match guard(f) {
                Ok(v) => [&[1], &v[..]].concat(),
                Err(_) => vec![0],
            };
            let mut at = 0;
            while at < m.len() {
                let n = libc::write(fd[1], m[at..].as_ptr().cast(), m.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut m = vec![];
        std::fs::File::from_raw_fd(fd[0]).read_to_end(&mut m).ok();
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if st == 0 && m.first() == Some(&1) { Some(m.split_off(1)) } else { None }
    }
}

fn once(op: &Op, seed: u64) -> Vec<u8> {
    let mut m = Mem::new();
    m.begin(Place::Heap);
    rngctl::reset(seed, Mode::Stream);
    rngctl::with(|s| s.keep_log = false);
    let v = (op.run)(&mut m, &mut Rng::new(seed));
    m.end();
    v
}

const GEN: Op = Op { name: "rsa-generate", cost: 3000, run: rsa_gen };

/// Every operation, first in a process where nothing came before it, then in the middle
/// of a long random history with failures of all kinds in it.
fn history(c: &mut Ctx) {
    let mut r = c.rng("history");
    let mut pool: Vec<(Op, u64, Vec<u8>)> = vec![];
    // the order in which first uses happen differs from process to process
    let mut todo = vec![];
    for op in OPS {
        let k = if op.cost >= 20 { 3 } else { c.n(6, 12) };
        for _ in 0..k {
            todo.push((Op { ..*op }, r.u64()));
        }
    }
    todo.push((GEN, r.u64()));
    for (op, seed) in todo {
        let name = op.name;
        match alone(&|| once(&op, seed)) {
            Some(v) => pool.push((op, seed, v)),
            None => c.fail("first use", format!("{name} (seed {seed}) panics or dies as the first operation of a process")),
        }
    }
    if pool.is_empty() {
        return;
    }
    c.observe("results of first uses in fresh processes", pool.len() as u64);
    let docs = corpus(&mut Rng::new(5));
    let steps = c.n(8000, 60000);
    let mut trail: Vec<String> = vec![];
    let mut spent = 0;
    for i in 0..steps {
        if !c.more() {
            break;
        }
        // something that goes wrong, now and then
        match r.below(6) {
            0 => {
                let op = &OPS[r.below(OPS.len())];
                if op.cost <= 25 {
                    let seed = r.u64();
                    let at = r.below(4);
                    let mut m = Mem::new();
                    m.begin(Place::Heap);
                    rngctl::reset(seed, Mode::Stream);
                    rngctl::with(|s| {
                        s.keep_log = false;
                        s.fail_at = Some(at);
                        s.fail_all = true;
                    });
                    let ok = guard(|| (op.run)(&mut m, &mut Rng::new(seed))).is_ok();
                    m.end();
                    c.observe(if ok { "operations with failing randomness: result" } else { "operations with failing randomness: refused" }, 1);
                    trail.push(format!("{} with randomness failing at request {at}", op.name));
                }
            }
            1 => {
                let (n, d) = r.pick(&docs);
                let mut d = d.clone();
                for _ in 0..1 + r.below(3) {
                    let k = r.below(d.len());
                    d[k] = r.u64() as u8;
                }
                guard(|| decode_all(&d)).ok();
                c.observe("altered encodings offered", 1);
                trail.push(format!("decoding an altered {n}"));
            }
            2 => {
                // the stack and heap hold something else
                scribble(&mut r);
                trail.push("scribble".into());
            }
            _ => {}
        }
        let k = r.below(pool.len());
        let (op, seed, want) = &pool[k];
        if op.cost >= 20 {
            // keep the expensive ones to a share
            spent += op.cost;
            if spent > 40 * (i + 50) {
                continue;
            }
        }
        let before = trail.iter().rev().take(4).cloned().collect::<Vec<_>>().join(" < ");
        c.case(op.name, format!("step {i}: {} seed={seed} after {before}", op.name));
        let want = want.clone();
        let got = guard(|| once(op, *seed));
        match got {
            Ok(got) => c.check(got == want, "history", || {
                format!("{} with the same inputs gave another result at step {i} of this process than in a process of its own: {} instead of {}; before it: {before}", op.name, hexs(&got), hexs(&want))
            }),
            Err(p) => c.check(false, "history", || format!("{} panicked at step {i} ({} at {}), not in a process of its own; before it: {before}", op.name, p.msg, p.loc)),
        };
        trail.push(op.name.into());
        if trail.len() > 64 {
            trail.drain(..32);
        }
    }
    c.observe("steps in one process", steps as u64);
}

#[inline(never)]
fn scribble(r: &mut Rng) {
    let mut a = [0u8; 24 << 10];
    let x = r.u64() as u8;
    a.fill(x);
    std::hint::black_box(&mut a);
    let v: Vec<Vec<u8>> = (0..32).map(|i| vec![x; 16 << (i % 10)]).collect();
    std::hint::black_box(&v);
}

/// Single calls that draw randomness, take encodings or are refused, each a function of its seed.
fn brief_ops() -> Vec<(String, Box<dyn Fn(u64) -> Vec<u8>>)> {
    use crate::nist::{K256, K384, Ka};
    let mut v: Vec<(String, Box<dyn Fn(u64) -> Vec<u8>>)> = vec![];
    fn draw<T>(seed: u64, f: impl FnOnce() -> T) -> T {
        rngctl::reset(seed, Mode::Stream);
        rngctl::with(|s| s.keep_log = false);
        f()
    }
    {
        let ek = ka::mlkem768::DecapKey::keygen_internal(&[3; 64]).encapsulation_key();
        v.push(("ml-kem encaps".into(), Box::new(move |s| match draw(s, || ek.clone().encaps()) {
            Ok((k, c)) => [k.as_ref().to_vec(), c.as_ref().to_vec()].concat(),
            Err(_) => vec![],
        })));
        v.push(("ml-kem generate".into(), Box::new(|s| draw(s, ka::mlkem768::DecapKey::generate).map(|k| k.as_bytes().to_vec()).unwrap_or_default())));
        v.push(("x25519 generate".into(), Box::new(|s| draw(s, || ka::x25519::PrivateKey::new_random().map(|k| k.public_key().as_bytes().to_vec())).unwrap_or_default())));
        v.push(("x25519 generate static".into(), Box::new(|s| draw(s, || ka::x25519::StaticPrivateKey::new_random().map(|k| k.as_bytes().to_vec())).unwrap_or_default())));
        v.push(("ed25519 generate".into(), Box::new(|s| {
            let mut o = [0; 200];
            draw(s, eddsa::Ed25519SigningKey::generate).ok().and_then(|k| k.to_pkcs8_der(&mut o).map(|x| x.to_vec()).ok()).unwrap_or_default()
        })));
        // refused, and now and then not
        v.push(("x25519 refused".into(), Box::new(|s| {
            let k = ka::x25519::StaticPrivateKey::from_array(&[8; 32]);
            let p = ka::x25519::PublicKey::try_from_slice(&if s % 5 != 3 { [0; 32] } else { [9; 32] }).unwrap();
            k.diffie_hellman(&p).map(|x| x.0.to_vec()).unwrap_or_default()
        })));
    }
    fn nist<K: Ka>(v: &mut Vec<(String, Box<dyn Fn(u64) -> Vec<u8>>)>, n: &str) {
        v.push((format!("{n} generate static"), Box::new(|s| draw(s, K::st_new).map(|k| K::st_bytes(&k)).unwrap_or_default())));
        let q = K::st_pub(&K::st_from(&vec![1; K::curve().len]).unwrap());
        v.push((format!("{n} public import"), Box::new(move |s| {
            let mut q = q.clone();
            if s % 5 != 3 {
                q[9] ^= 1;
            }
            K::pub_from(&q).map(|p| K::pub_bytes(&p)).unwrap_or_default()
        })));
        v.push((format!("{n} ecdsa generate"), Box::new(|s| {
            let mut o = [0; 300];
            draw(s, ecdsa::SigningKey::<K::Sig>::generate).ok().and_then(|k| k.to_sec1_der(&mut o).map(|x| x.to_vec()).ok()).unwrap_or_default()
        })));
    }
    nist::<K256>(&mut v, "p-256");
    nist::<K384>(&mut v, "p-384");
    for (n, d) in corpus(&mut Rng::new(6)) {
        v.push((format!("decode {n}"), Box::new(move |s| {
            let mut d = d.clone();
            if s % 5 != 3 {
                let i = s as usize % d.len();
                d[i] ^= 1 << (s % 8);
            }
            vec![decode_all(&d) as u8]
        })));
    }
    v
}

/// One object, one method, tens of thousands of times.
fn count(c: &mut Ctx) {
    let mut ops: Vec<(String, Box<dyn Fn(u64) -> Vec<u8>>)> = shared_ops().into_iter().map(|o| (o.name, o.run)).collect();
    ops.extend(brief_ops());
    // and operations that make their objects anew: what they keep would be kept globally
    for op in OPS {
        ops.push((format!("{} anew", op.name), Box::new(move |seed| once(op, seed))));
    }
    let limit = match (c.tier_thorough, c.config == "rel") {
        (true, _) => 40.0,
        (_, true) => 10.0,
        _ => 3.0,
    };
    for (i, (name, run)) in ops.iter().enumerate() {
        if !c.mine(i) || !c.more() {
            continue;
        }
        let seeds: Vec<u64> = (0..8).map(|k| 0x5eed + 977 * k + c.seed * 7919 + k % 4).collect();
        let want: Vec<Option<Vec<u8>>> = seeds.iter().map(|s| alone(&|| run(*s))).collect();
        let t = std::time::Instant::now();
        let most = 70_000usize;
        let mut n = 0;
        let mut bad = 0;
        while n < most && bad < 2 && t.elapsed().as_secs_f64() < limit {
            for _ in 0..8 {
                // mostly one input, so that all uses are alike
                let k = if n % 5 < 4 { 0 } else { n % 8 };
                let got = guard(|| run(seeds[k])).ok();
                if n < 64 || n % 4096 == 0 {
                    c.case(name, format!("{} use {n} input {k}", name));
                } else {
                    c.evals += 1;
                }
                if got != want[k] {
                    bad += 1;
                    c.fail("count", format!("{}: use {n} of one object gave another result than its first use, for input {}", name, seeds[k]));
                    break;
                }
                n += 1;
            }
        }
        c.observe("uses counted", n as u64);
        c.observe("objects and operations used at least 65,536 times", (n >= 65536) as u64);
    }
}

/// everything that takes bytes from outside; the results are dropped
fn decode_all(d: &[u8]) -> u32 {
    let mut n = 0;
    n += grsa::SigningKey::from_pkcs1_der(d).is_ok() as u32;
    n += grsa::SigningKey::from_pkcs8_der(d).is_ok() as u32;
    n += grsa::VerifyingKey::from_pkcs1_der(d).is_ok() as u32;
    n += eddsa::Ed25519SigningKey::from_pkcs8_der(d).is_ok() as u32;
    n += eddsa::Ed25519VerifyingKey::from_spki_der(d).is_ok() as u32;
    n += ecdsa::SigningKey::<ecdsa::P256>::from_pkcs8_der(d).is_ok() as u32;
    n += ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(d).is_ok() as u32;
    n += ecdsa::SigningKey::<ecdsa::P384>::from_pkcs8_der(d).is_ok() as u32;
    n += ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der(d).is_ok() as u32;
    n += ecdsa::VerifyingKey::<ecdsa::P256>::from_x962_uncompressed(d).is_ok() as u32;
    n += ecdsa::VerifyingKey::<ecdsa::P384>::from_x962_uncompressed(d).is_ok() as u32;
    n += ka::p256::PublicKey::from_x962_uncompressed(d).is_ok() as u32;
    n += ka::p384::PublicKey::from_x962_uncompressed(d).is_ok() as u32;
    n += ka::x25519::PublicKey::try_from_slice(d).is_ok() as u32;
    n
}

/// Counts of live heap blocks before and after; the most asked for on the way.
fn heap(c: &mut Ctx) {
    let mut r = c.rng("heap");
    let docs = corpus(&mut Rng::new(5));
    // one-time caches are filled before counting
    for op in OPS {
        for s in 0..3 {
            once(op, s);
        }
    }
    for (_, d) in &docs {
        decode_all(d);
    }
    guard(|| std::fs::read_dir("/proc/self/fd").unwrap().count()).ok();
    let settled = |c: &mut Ctx, what: &str, f: &mut dyn FnMut()| -> i64 {
        f();
        COUNT.start();
        f();
        COUNT.stop();
        let (live, blocks) = (COUNT.live.load(Ordering::Relaxed), COUNT.blocks.load(Ordering::Relaxed));
        let peak = COUNT.peak.load(Ordering::Relaxed);
        c.check(live == 0 && blocks == 0, "heap", || format!("{what}: {blocks} heap blocks ({live} bytes) more are held after it, with all its objects dropped, than before"));
        peak
    };
    let rounds = c.n(12, 120);
    for round in 0..rounds {
        for op in OPS {
            if op.cost >= 20 && round % 4 != 0 || !c.more() {
                continue;
            }
            let seed = r.u64();
            c.case(op.name, format!("heap {} seed={seed}", op.name));
            let what = format!("{} seed={seed}", op.name);
            settled(c, &what, &mut || drop(std::hint::black_box(once(op, seed))));
            // the same when it is refused
            let at = r.below(3);
            let what = format!("{} seed={seed} with randomness failing at request {at}", op.name);
            if op.cost < 20 {
                settled(c, &what, &mut || {
                    let mut m = Mem::new();
                    m.begin(Place::Heap);
                    rngctl::reset(seed, Mode::Stream);
                    rngctl::with(|s| {
                        s.keep_log = false;
                        s.fail_at = Some(at);
                    });
                    guard(|| (op.run)(&mut m, &mut Rng::new(seed))).ok();
                    m.end();
                    drop(m);
                    // (the last panic message is kept by the harness)
                    guard(|| panic!("x")).ok();
                });
            }
        }
    }
    // encodings that claim more than they hold
    let n = c.n(1500, 20000);
    let mut seen = 0i64;
    for i in 0..n {
        let (name, d) = r.pick(&docs);
        let mut d = d.clone();
        match r.below(5) {
            0 => {}
            1 => {
                for _ in 0..1 + r.below(4) {
                    let k = r.below(d.len());
                    d[k] = r.u64() as u8;
                }
            }
            2 => d.truncate(r.below(d.len() + 1)),
            3 => {
                // an enormous length claimed at some element
                let k = 1 + r.below(d.len().min(60));
                let claim: &[u8] = r.pick::<&[u8]>(&[&[0x84, 0x7f, 0xff, 0xff, 0xff], &[0x84, 0xff, 0xff, 0xff, 0xff], &[0x83, 0xff, 0xff, 0xff], &[0x82, 0xff, 0xff], &[0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]]);
                d.splice(k..(k + 1).min(d.len()), claim.iter().copied());
            }
            _ => {
                let x = r.below(9000);
                d.extend(r.bytes(x));
            }
        }
        if !c.more() {
            break;
        }
        c.case(&format!("decode {name}"), format!("heap decode {name} {i} {:016x}", hash64(&d)));
        let dd = d.clone();
        let peak = settled(c, &format!("decoding an altered {name}: {}", hexs(&d)), &mut || {
            std::hint::black_box(decode_all(&dd));
        });
        seen = seen.max(peak);
        let bound = (64 << 10) + 16 * d.len() as i64;
        c.check(peak <= bound, "heap demand", || format!("decoding {} bytes made the library ask for {peak} bytes of heap at once (bound {bound}): {name} {}", d.len(), hexs(&d)));
    }
    c.observe("heap calls counted", COUNT.calls.load(Ordering::Relaxed));
    c.notes.insert("largest heap demand of a decoder".into(), format!("{seen} bytes"));
}

#[derive(PartialEq, Clone, Debug)]
struct Around {
    mxcsr: u32,
    x87_control: u16,
    x87_stack: u16,
    direction: bool,
    handlers: Vec<u64>,
    mask: u64,
    cwd: Option<std::path::PathBuf>,
    env: u64,
    fds: usize,
    threads: usize,
}

/// what a thread and its process have besides memory
fn around() -> Around {
    let mut fenv = [0u16; 14];
    let mut mxcsr = 0u32;
    let flags: u64;
    // SAFETY: reads control registers; fnstenv masks exceptions, fldenv restores them
    unsafe {
        std::arch::asm!("fnstenv [{0}]", "fldenv [{0}]", "stmxcsr [{1}]", "pushfq", "pop {2}", "cld", in(reg) &mut fenv, in(reg) &mut mxcsr, out(reg) flags);
    }
    let mut handlers = vec![];
    let mut mask = 0u64;
    // SAFETY: queries only
    unsafe {
        for s in 1..65 {
            let mut a: libc::sigaction = std::mem::zeroed();
            if libc::sigaction(s, std::ptr::null(), &mut a) == 0 {
                handlers.push(a.sa_sigaction as u64);
            }
        }
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::pthread_sigmask(libc::SIG_BLOCK, std::ptr::null(), &mut set);
        for s in 1..64 {
            mask |= (libc::sigismember(&set, s) as u64 & 1) << s;
        }
    }
    let mut e: Vec<String> = std::env::vars_os().map(|v| format!("{v:?}")).collect();
    e.sort();
    Around {
        // the sticky exception flags are scratch
        mxcsr: mxcsr & !0x3f,
        x87_control: fenv[0],
        x87_stack: fenv[4],
        direction: flags >> 10 & 1 == 1,
        handlers,
        mask,
        cwd: std::env::current_dir().ok(),
        env: hash64(e.join("\n").as_bytes()),
        fds: std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0),
        threads: std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0),
    }
}

/// The state of the thread and the process around every operation.
fn state(c: &mut Ctx) {
    let mut r = c.rng("state");
    let per = c.n(40, 400);
    let shared = shared_ops();
    // other rounding and flush modes than the usual: nothing may depend on them or reset them
    for (mode, mx) in [("default", 0x1f80u32), ("round down, flush to zero", 0x1f80 | 0x2000 | 0x8000 | 0x40), ("round to zero", 0x1f80 | 0x6000)] {
        for op in OPS {
            let k = if op.cost >= 20 { per / 8 } else { per };
            for _ in 0..k {
                if !c.more() {
                    return;
                }
                let seed = r.u64();
                c.case(op.name, format!("{mode} {} seed={seed}", op.name));
                let want = guard(|| once(op, seed)).ok();
                let before_mx = mx;
                // SAFETY: sets rounding modes; no exceptions unmasked
                unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &before_mx) };
                let a = around();
                let got = guard(|| once(op, seed)).ok();
                let b = around();
                let usual = 0x1f80u32;
                // SAFETY: as above
                unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &usual) };
                c.check(a == b, "state", || format!("{} seed={seed} changed the state of its thread or process: {}", op.name, differs(&a, &b)));
                c.check(got == want, "floating point mode", || format!("{} seed={seed} gives another result under floating-point mode '{mode}'", op.name));
                c.observe("states compared", 1);
            }
        }
        for op in &shared {
            for _ in 0..(if op.cost >= 20 { 2 } else { 6 }) {
                let seed = r.u64();
                c.case(op.object, format!("{mode} {} seed={seed}", op.name));
                let a = around();
                guard(|| (op.run)(seed)).ok();
                let b = around();
                c.check(a == b, "state", || format!("{} seed={seed} changed the state of its thread or process: {}", op.name, differs(&a, &b)));
                c.observe("states compared", 1);
            }
        }
    }
}

fn differs(a: &Around, b: &Around) -> String {
    let (a, b) = (format!("{a:#?}"), format!("{b:#?}"));
    a.lines().zip(b.lines()).filter(|(x, y)| x != y).map(|(x, y)| format!("{} -> {}", x.trim(), y.trim())).take(6).collect::<Vec<_>>().join("; ")
}

pub fn run_c28(c: &mut Ctx) {
    match c.section.as_str() {
        "history" => history(c),
        "count" => count(c),
        "heap" => heap(c),
        "state" => state(c),
        s => panic!("section {s}"),
    }
}
