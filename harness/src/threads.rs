//! C23: keys shared between threads work exactly as they do in one thread.
use crate::Job;
use crate::ops::{Mem, OPS, Place};
use graviola::hashing as gh;
use graviola::hashing::{Hash as _, HashContext as _};
use graviola::key_agreement as ka;
use graviola::signing::{ecdsa, eddsa, rsa};
use harness::rngctl::{self, Mode};
use harness::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};

/// Objects are handed to threads by reference, as Arc would.
struct Share<T>(T);
// SAFETY: the types put in here promise it themselves; this only keeps a library that
// no longer does from failing to build the monitor
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

pub struct SharedOp {
    /// the object it works on
    pub object: &'static str,
    pub name: String,
    pub cost: usize,
    pub run: Box<dyn Fn(u64) -> Vec<u8>>,
}

fn leak<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}

/// operations on shared objects; each a function of its seed
pub fn shared_ops() -> Vec<SharedOp> {
    let mut v: Vec<SharedOp> = vec![];
    let mut add = |object: &'static str, name: &str, cost: usize, run: Box<dyn Fn(u64) -> Vec<u8>>| v.push(SharedOp { object, name: format!("{object} {name}"), cost, run });
    fn data(seed: u64) -> (Rng, Vec<u8>) {
        let mut r = Rng::new(seed);
        let n = match seed % 4 {
            0 => r.below(40),
            1 => r.below(300),
            2 => 256 + r.below(600),
            _ => r.below(2000),
        };
        let b = r.bytes(n);
        (r, b)
    }
    {
        use graviola::aead::*;
        macro_rules! aead {
            ($obj:literal, $k:expr, $nl:expr) => {{
                let k = leak($k);
                add($obj, "encrypt", 1, Box::new(move |seed| {
                    let (mut r, mut b) = data(seed);
                    let n: [u8; $nl] = r.arr();
                    let mut t = [0; 16];
                    k.encrypt(&n, &b.clone()[..b.len().min(33)], &mut b, &mut t);
                    b.extend(t);
                    b
                }));
                let k2 = leak($k);
                add($obj, "decrypt", 1, Box::new(move |seed| {
                    let (mut r, mut b) = data(seed);
                    let n: [u8; $nl] = r.arr();
                    let mut t = [0; 16];
                    k2.encrypt(&n, b"", &mut b, &mut t);
                    if seed % 3 == 0 {
                        t[seed as usize % 16] ^= 1;
                    }
                    b.push(k.decrypt(&n, b"", &mut b.clone()[..], &t).is_ok() as u8);
                    let mut c = b[..b.len() - 1].to_vec();
                    let ok = k.decrypt(&n, b"", &mut c, &t).is_ok();
                    c.push(ok as u8);
                    c
                }));
            }};
        }
        aead!("aes-128-gcm", AesGcm::new(&[1; 16]), 12);
        aead!("aes-256-gcm", AesGcm::new(&[2; 32]), 12);
        aead!("chacha20poly1305", ChaCha20Poly1305::new([3; 32]), 12);
        aead!("xchacha20poly1305", XChaCha20Poly1305::new([4; 32]), 24);
    }
    macro_rules! hash {
        ($h:ty, $obj:literal) => {{
            let mut c = <$h>::new();
            c.update(&[9; 77]);
            let c = leak(Share(c));
            add($obj, "clone and finish", 1, Box::new(move |seed| {
                let (_, b) = data(seed);
                let mut c = c.0.clone();
                c.update(&b);
                c.finish().as_ref().to_vec()
            }));
            let h = gh::hmac::Hmac::<$h>::new(b"a shared MAC key");
            let h = leak(Share(h));
            add($obj, "mac clone and finish", 1, Box::new(move |seed| {
                let (_, b) = data(seed);
                let mut c = h.0.clone();
                c.update(&b);
                c.finish().as_ref().to_vec()
            }));
        }};
    }
    hash!(gh::Sha256, "sha256 context");
    hash!(gh::Sha384, "sha384 context");
    hash!(gh::Sha512, "sha512 context");
    {
        use ka::x25519::*;
        let k = leak(Share(StaticPrivateKey::from_array(&[5; 32])));
        add("x25519 key", "dh", 3, Box::new(move |seed| {
            let p = StaticPrivateKey::from_array(&Rng::new(seed).arr()).public_key();
            k.0.diffie_hellman(&p).map(|s| s.0.to_vec()).unwrap_or_default()
        }));
        add("x25519 key", "public key", 2, Box::new(move |_| k.0.public_key().as_bytes().to_vec()));
        let p = leak(Share(StaticPrivateKey::from_array(&[6; 32]).public_key()));
        add("x25519 public key", "dh", 3, Box::new(move |seed| {
            let k = StaticPrivateKey::from_array(&Rng::new(seed).arr());
            k.diffie_hellman(&p.0).map(|s| s.0.to_vec()).unwrap_or_default()
        }));
    }
    macro_rules! nist {
        ($m:ident, $c:ident, $l:literal, $kn:literal, $pn:literal, $sn:literal, $vn:literal, $cost:literal) => {{
            use ka::$m::*;
            let k = leak(Share(StaticPrivateKey::from_bytes(&[7; $l]).unwrap()));
            let other = leak(Share(PublicKey::from_x962_uncompressed(&StaticPrivateKey::from_bytes(&[8; $l]).unwrap().public_key_uncompressed()).unwrap()));
            let peer = |seed: u64| {
                let mut s: [u8; $l] = Rng::new(seed).arr();
                s[0] &= 0x7f;
                s
            };
            add($kn, "dh", $cost, Box::new(move |seed| {
                let p = PublicKey::from_x962_uncompressed(&StaticPrivateKey::from_bytes(&peer(seed)).unwrap().public_key_uncompressed()).unwrap();
                k.0.diffie_hellman(&p).map(|s| s.0.to_vec()).unwrap_or_default()
            }));
            add($kn, "public key", $cost, Box::new(move |_| k.0.public_key_uncompressed().to_vec()));
            add($pn, "dh", $cost, Box::new(move |seed| StaticPrivateKey::from_bytes(&peer(seed)).unwrap().diffie_hellman(&other.0).map(|s| s.0.to_vec()).unwrap_or_default()));
            let sk = leak(Share(ecdsa::SigningKey::<ecdsa::$c> { private_key: StaticPrivateKey::from_bytes(&[9; $l]).unwrap() }));
            let vk = leak(Share(ecdsa::VerifyingKey::<ecdsa::$c>::from_x962_uncompressed(&sk.0.private_key.public_key_uncompressed()).unwrap()));
            let sign = move |seed: u64, b: &[u8]| {
                rngctl::reset(seed, Mode::Stream);
                let mut o = [0; 2 * $l];
                if seed & 1 == 0 {
                    sk.0.sign::<gh::Sha256>(&[b], &mut o).unwrap();
                } else {
                    sk.0.sign::<gh::Sha512>(&[b], &mut o).unwrap();
                }
                o
            };
            add($sn, "sign", $cost, Box::new(move |seed| sign(seed, &data(seed).1).to_vec()));
            add($sn, "export", $cost, Box::new(move |_| {
                let mut o = [0; 300];
                let mut v = sk.0.to_pkcs8_der(&mut o).unwrap().to_vec();
                v.extend(sk.0.to_spki_der(&mut o).unwrap());
                v
            }));
            let sigs: &'static Vec<(Vec<u8>, [u8; 2 * $l])> = leak((0..8).map(|i| { let b = data(i).1; let s = sign(2 * i, &b); (b, s) }).collect());
            add($vn, "verify", $cost, Box::new(move |seed| {
                let (b, mut s) = sigs[(seed >> 3) as usize % 8].clone();
                if seed & 1 == 1 {
                    s[seed as usize % (2 * $l)] ^= 4;
                }
                vec![vk.0.verify::<gh::Sha256>(&[&b], &s).is_ok() as u8]
            }));
        }};
    }
    nist!(p256, P256, 32, "p-256 key", "p-256 public key", "p-256 signing key", "p-256 verifying key", 2);
    nist!(p384, P384, 48, "p-384 key", "p-384 public key", "p-384 signing key", "p-384 verifying key", 6);
    {
        let sk = leak(Share(eddsa::Ed25519SigningKey::from_bytes(&[10; 32]).unwrap()));
        let vk = leak(Share(sk.0.public_key()));
        add("ed25519 signing key", "sign", 2, Box::new(move |seed| sk.0.sign(&data(seed).1).to_vec()));
        let sigs: &'static Vec<(Vec<u8>, [u8; 64])> = leak((0..8).map(|i| { let b = data(i).1; let s = sk.0.sign(&b); (b, s) }).collect());
        add("ed25519 verifying key", "verify", 3, Box::new(move |seed| {
            let (b, mut s) = sigs[(seed >> 3) as usize % 8].clone();
            if seed & 1 == 1 {
                s[seed as usize % 64] ^= 4;
            }
            vec![vk.0.verify(&s, &b).is_ok() as u8]
        }));
    }
    for (obj, i) in [("rsa key", 0usize), ("another rsa key", 20)] {
        let keys = crate::ops::rsa_keys();
        let key = &keys[i.min(keys.len() - 1)];
        let sk = leak(Share(rsa::SigningKey::from_pkcs1_der(&key.priv_der()).unwrap()));
        let vk = leak(Share(sk.0.public_key()));
        let n = key.k;
        let sign = move |seed: u64, b: &[u8]| {
            rngctl::reset(seed, Mode::Stream);
            let mut o = vec![0; n];
            if seed & 1 == 0 {
                sk.0.sign_pss_sha256(&mut o, b).unwrap();
            } else {
                sk.0.sign_pkcs1_sha384(&mut o, b).unwrap();
            }
            o
        };
        add(obj, "sign", 60, Box::new(move |seed| sign(seed, &data(seed).1)));
        let sigs: &'static Vec<(Vec<u8>, Vec<u8>)> = leak((0..4).map(|i| { let b = data(i).1; let s = sign(2 * i, &b); (b, s) }).collect());
        add(obj, "verify", 3, Box::new(move |seed| {
            let (b, mut s) = sigs[(seed >> 3) as usize % 4].clone();
            if seed & 1 == 1 {
                s[seed as usize % n] ^= 4;
            }
            vec![vk.0.verify_pss_sha256(&s, &b).is_ok() as u8]
        }));
    }
    {
        use ka::mlkem768::*;
        let dk = leak(Share(DecapKey::keygen_internal(&[11; 64])));
        let ek = leak(Share(dk.0.encapsulation_key()));
        add("ml-kem key", "encaps and decaps", 4, Box::new(move |seed| {
            let (k, c) = ek.0.clone().encaps_internal(Message(Rng::new(seed).arr()));
            let mut v = k.as_ref().to_vec();
            v.extend(c.as_ref());
            let c = if seed % 3 == 0 {
                let mut b = *c.as_ref();
                b[seed as usize % 1088] ^= 1;
                Ciphertext::from(b)
            } else {
                c
            };
            v.extend(dk.0.decaps_internal(&c).as_ref());
            v
        }));
        add("ml-kem key", "public key", 2, Box::new(move |_| dk.0.encapsulation_key().as_bytes().to_vec()));
    }
    v
}

const VARIANTS: u64 = 12;

struct Table {
    ops: Vec<SharedOp>,
    /// digest of each operation on each seed, made by one thread
    want: Vec<Vec<u64>>,
    /// one operation of every family of its own, for company
    own: Vec<(usize, u64, u64)>,
}

fn seed_of(v: u64) -> u64 {
    v * 0x9e37_79b9 + v
}

fn table(rng: &mut Rng, few: bool) -> &'static Share<Table> {
    let ops = shared_ops();
    let want = ops.iter().map(|o| (0..if few { 2 } else { VARIANTS }).map(|v| hash64(&(o.run)(seed_of(v)))).collect()).collect();
    let mut own = vec![];
    let mut m = Mem::new();
    for (i, o) in OPS.iter().enumerate() {
        for _ in 0..if few { 0 } else if o.cost > 15 { 2 } else { 8 } {
            let seed = rng.u64();
            own.push((i, seed, hash64(&own_run(&mut m, i, seed))));
        }
    }
    leak(Share(Table { ops, want, own }))
}

fn own_run(m: &mut Mem, i: usize, seed: u64) -> Vec<u8> {
    m.begin(Place::Heap);
    let d = (OPS[i].run)(m, &mut Rng::new(seed));
    m.end();
    d
}

/// what one thread did: (operation, variant, start, end, digest or panic)
struct Event {
    op: u32,
    v: u64,
    start: u64,
    end: u64,
    got: Result<u64, String>,
}

fn now() -> u64 {
    // SAFETY: reads the time-stamp counter
    unsafe { std::arch::x86_64::_rdtsc() }
}

struct Plan {
    table: &'static Share<Table>,
    /// operations to choose from (indices; past the shared ones: own operations)
    pick: Vec<u32>,
    n: usize,
    seed: u64,
    spin: bool,
    out: Vec<Event>,
}

fn work(p: &mut Plan) {
    let t = &p.table.0;
    let mut rng = Rng::new(p.seed);
    let mut m = Mem::new();
    rngctl::with(|s| s.keep_log = false);
    for _ in 0..p.n {
        let op = *rng.pick(&p.pick);
        if p.spin {
            for _ in 0..rng.below(2000) {
                std::hint::spin_loop();
            }
        }
        let v = rng.u64() % t.want[0].len() as u64;
        let start = now();
        let got = if (op as usize) < t.ops.len() {
            guard(|| hash64(&(t.ops[op as usize].run)(seed_of(v))))
        } else {
            let (i, seed, _) = t.own[op as usize - t.ops.len()];
            guard(|| hash64(&own_run(&mut m, i, seed)))
        };
        let end = now();
        p.out.push(Event { op, v, start, end, got: got.map_err(|e| format!("panic at {}: {}", e.loc, e.msg)) });
    }
}

extern "C" fn thread_main(p: *mut libc::c_void) -> *mut libc::c_void {
    // SAFETY: a Plan that outlives the thread, used by no other until it is joined
    work(unsafe { &mut *p.cast::<Plan>() });
    DONE.fetch_add(1, Ordering::Relaxed);
    std::ptr::null_mut()
}

extern "C" fn on_poke(_: i32) {
    POKES.fetch_add(1, Ordering::Relaxed);
    // SAFETY: a system call that is safe in a handler
    unsafe { libc::sched_yield() };
}
static POKES: AtomicU64 = AtomicU64::new(0);


/// threads that have finished their plan
static DONE: AtomicU64 = AtomicU64::new(0);

/// Plain pthreads, so that the tools' view of thread creation and joining is exact.
fn run_threads(plans: &mut [Plan], poke: bool) {
    DONE.store(0, Ordering::Relaxed);
    let n = plans.len() as u64;
    let mut ids = vec![];
    for p in plans.iter_mut() {
        let mut id = 0;
        // SAFETY: p lives until the join below
        let r = unsafe { libc::pthread_create(&mut id, std::ptr::null(), thread_main, (p as *mut Plan).cast()) };
        assert_eq!(r, 0);
        ids.push(id);
    }
    let mut r = Rng::new(7);
    // preempt threads at arbitrary instants
    while poke && DONE.load(Ordering::Relaxed) < n {
        // SAFETY: plain system calls; the threads are not joined yet
        unsafe {
            libc::usleep(20 + r.below(60) as u32);
            libc::pthread_kill(*r.pick(&ids), libc::SIGUSR1);
        }
    }
    for id in ids {
        // SAFETY: joined once
        unsafe { libc::pthread_join(id, std::ptr::null_mut()) };
    }
}

fn pin(cpus: &[usize]) {
    // SAFETY: plain system call on a local set
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        for c in cpus {
            libc::CPU_SET(*c, &mut set);
        }
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}

fn allowed() -> Vec<usize> {
    // SAFETY: plain system call on a local set
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &set)).collect()
    }
}

#[derive(Clone, Copy)]
struct Shape {
    name: &'static str,
    threads: usize,
    /// total cost per thread, about 10 microseconds a unit
    work: usize,
    poke: bool,
    cpus: usize,
    /// operations picked on this object alone
    object: Option<&'static str>,
    own: bool,
}

fn round(ctx: &mut Ctx, t: &'static Share<Table>, sh: Shape, rng: &mut Rng) {
    let tb = &t.0;
    let mut pick: Vec<u32> = (0..tb.ops.len() as u32).filter(|i| sh.object.is_none_or(|o| tb.ops[*i as usize].object == o)).collect();
    let mut cost: usize = pick.iter().map(|i| tb.ops[*i as usize].cost).sum();
    if sh.own {
        for (i, o) in tb.own.iter().enumerate() {
            pick.push((tb.ops.len() + i) as u32);
            cost += OPS[o.0].cost.max(1);
        }
    }
    let n = (sh.work * pick.len() / cost).clamp(3, 4000);
    let seed = rng.u64();
    ctx.case(sh.name, format!("seed={seed:#x} threads={} cpus={} poked={} objects={:?} calls per thread={n}", sh.threads, sh.cpus, sh.poke, sh.object));
    let mut plans: Vec<Plan> = (0..sh.threads).map(|i| Plan { table: t, pick: pick.clone(), n, seed: seed ^ i as u64, spin: rng.below(3) == 0, out: Vec::with_capacity(n) }).collect();
    let all = allowed();
    if sh.cpus < all.len() {
        pin(&all[..sh.cpus]);
    }
    let before = POKES.load(Ordering::Relaxed);
    run_threads(&mut plans, sh.poke);
    pin(&all);
    ctx.observe("preemptions by signal", POKES.load(Ordering::Relaxed) - before);
    // the log, judged after the fact
    let mut ev: Vec<(usize, &Event)> = plans.iter().enumerate().flat_map(|(i, p)| p.out.iter().map(move |e| (i, e))).collect();
    ev.sort_by_key(|e| e.1.start);
    ctx.evals += ev.len() as u64;
    ctx.observe("calls made by threads", ev.len() as u64);
    for (i, e) in &ev {
        let (name, want) = if (e.op as usize) < tb.ops.len() { (tb.ops[e.op as usize].name.as_str(), tb.want[e.op as usize][e.v as usize]) } else { let o = &tb.own[e.op as usize - tb.ops.len()]; (OPS[o.0].name, o.2) };
        match &e.got {
            Ok(g) if *g == want => (),
            Ok(_) => ctx.fail("different result", format!("thread {i}: {name} (variant {}) gave a result that differs from the one it gives alone", e.v)),
            Err(m) => ctx.fail("panic", format!("thread {i}: {name} (variant {}): {m}", e.v)),
        }
        if ctx.fails.len() > 4 {
            return;
        }
    }
    // which calls really ran at the same time
    let (mut same, mut pairs) = (0u64, HashSet::new());
    let mut live: Vec<(usize, &Event)> = vec![];
    for (i, e) in &ev {
        live.retain(|l| l.1.end > e.start);
        for l in &live {
            if l.0 != *i {
                let obj = |x: u32| tb.ops.get(x as usize).map(|o| o.object);
                same += (obj(l.1.op).is_some() && obj(l.1.op) == obj(e.op)) as u64;
                pairs.insert((l.1.op.min(e.op), l.1.op.max(e.op)));
            }
        }
        live.push((*i, e));
    }
    ctx.observe("pairs of overlapping calls on the same object", same);
    ctx.observe("distinct kinds of overlapping calls, summed over rounds", pairs.len() as u64);
}

fn shared(ctx: &mut Ctx) {
    let mut rng = ctx.rng("shared");
    let t = table(&mut rng, ctx.section == "drd");
    // SAFETY: handler only counts and yields
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_poke as *const () as usize;
        sa.sa_flags = libc::SA_RESTART;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
    }
    let tool = ctx.section != "shared";
    let work = match ctx.section.as_str() {
        "drd" => ctx.n(60, 400),
        "tsan" => ctx.n(1500, 20_000),
        _ => ctx.n(2500, 30_000),
    };
    let base = Shape { name: "mixed", threads: 8, work, poke: false, cpus: 64, object: None, own: true };
    let mut objects: Vec<&'static str> = t.0.ops.iter().map(|o| o.object).collect();
    objects.dedup();
    ctx.observe("shared objects", objects.len() as u64);
    let mut shapes = vec![base];
    for o in objects {
        shapes.push(Shape { name: "one object", object: Some(o), own: false, work: work / 2, threads: if tool { 4 } else { 8 }, ..base });
        if !tool {
            shapes.push(Shape { name: "one object, one processor", object: Some(o), own: false, work: work / 6, cpus: 1, poke: true, threads: 4, ..base });
            shapes.push(Shape { name: "one object, preempted", object: Some(o), own: false, work: work / 4, cpus: 3, poke: true, ..base });
        }
    }
    if !tool {
        shapes.push(Shape { name: "mixed, one processor", cpus: 1, poke: true, threads: 4, work: work / 2, ..base });
        shapes.push(Shape { name: "mixed, preempted", cpus: 3, poke: true, ..base });
        shapes.push(Shape { name: "mixed, many threads", threads: 24, work: work / 3, ..base });
    }
    for (i, s) in shapes.into_iter().enumerate() {
        if ctx.mine(i) && ctx.more() {
            round(ctx, t, s, &mut rng);
        }
    }
}

/// `gv first-use op:seed,op:seed,...`: a process whose first use of the library is from all
/// these threads at once
pub fn first_use(spec: &str) {
    static GO: AtomicU64 = AtomicU64::new(0);
    let list: Vec<(usize, u64)> = spec.split(',').map(|s| { let (a, b) = s.split_once(':').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect();
    install_panic_hook();
    let n = list.len() as u64;
    let hs: Vec<_> = list
        .into_iter()
        .map(|(op, seed)| {
            std::thread::spawn(move || {
                rngctl::with(|s| s.keep_log = false);
                let mut m = Mem::new();
                GO.fetch_add(1, Ordering::Relaxed);
                while GO.load(Ordering::Relaxed) < n {
                    std::thread::yield_now();
                }
                let a = now();
                let r = guard(|| hash64(&own_run(&mut m, op, seed)));
                (r, a, now())
            })
        })
        .collect();
    for h in hs {
        match h.join().unwrap() {
            (Ok(d), a, b) => println!("\nRESULT {d:016x} {a} {b}"),
            (Err(e), a, b) => println!("\nRESULT panic {a} {b} {} {}", e.loc, e.msg.replace('\n', " ")),
        }
    }
}

fn first(ctx: &mut Ctx) {
    let mut rng = ctx.rng("first");
    let mut m = Mem::new();
    let mut want: HashMap<(usize, u64), u64> = HashMap::new();
    let me = std::env::current_exe().unwrap();
    let n = if ctx.section == "first" { ctx.n(60, 800) } else { ctx.n(16, 60) };
    for i in 0..n {
        if !ctx.mine(i) || !ctx.more() {
            continue;
        }
        let one = rng.below(OPS.len());
        let list: Vec<(usize, u64)> = (0..8).map(|_| (if i % 3 == 0 { rng.below(OPS.len()) } else { one }, rng.u64() % 50)).filter(|(o, _)| i % 3 == 1 || OPS[*o].cost < 100).collect();
        if list.is_empty() {
            continue;
        }
        let spec: Vec<String> = list.iter().map(|(a, b)| format!("{a}:{b}")).collect();
        let spec = spec.join(",");
        ctx.case("first use", format!("first-use {spec} ({:?})", list.iter().map(|o| OPS[o.0].name).collect::<Vec<_>>()));
        let out = std::process::Command::new(&me).arg("first-use").arg(&spec).output().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        if !out.status.success() {
            ctx.fail("first use", format!("process ended with {:?}: {}", out.status, &err[err.len().saturating_sub(2500)..]));
            continue;
        }
        let lines: Vec<&str> = text.lines().filter_map(|l| l.strip_prefix("RESULT ")).collect();
        if lines.len() != list.len() {
            ctx.fail("first use", format!("{} results for {} threads", lines.len(), list.len()));
            continue;
        }
        let mut spans = vec![];
        for (l, o) in lines.iter().zip(&list) {
            let w = *want.entry(*o).or_insert_with(|| hash64(&own_run(&mut m, o.0, o.1)));
            let f: Vec<&str> = l.split(' ').collect();
            ctx.evals += 1;
            ctx.check(f[0] == format!("{w:016x}"), "first use", || format!("{} seed {}: got {l}, alone {w:016x}", OPS[o.0].name, o.1));
            spans.push((f[1].parse::<u64>().unwrap(), f[2].parse::<u64>().unwrap()));
        }
        let lap = (0..spans.len()).flat_map(|a| (0..a).map(move |b| (a, b))).filter(|(a, b)| spans[*a].0 < spans[*b].1 && spans[*b].0 < spans[*a].1).count();
        ctx.observe("first calls that overlapped (pairs)", lap as u64);
    }
}

pub fn jobs_c23(thorough: bool) -> Vec<Job> {
    let n = if thorough { 4 } else { 1 };
    vec![("shared", "native", 2 * n), ("shared", "rel", 2 * n), ("shared", "min", n), ("first", "native", n), ("first", "rel", n)]
}

pub fn run_c23(ctx: &mut Ctx) {
    match ctx.section.as_str() {
        "first" | "first-tool" => first(ctx),
        _ => shared(ctx),
    }
}
