//! C03 (digests) and C04 (HMAC).
use crate::Job;
use graviola::hashing as gh;
use graviola::hashing::{Hash as _, HashContext as _};
use harness::*;
use sha2::Digest as _;
use sha3::digest::{ExtendableOutput, Update as _, XofReader};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum H {
    S256,
    S384,
    S512,
    T256,
    T512,
    K128,
    K256,
}
pub const ALL: [H; 7] = [H::S256, H::S384, H::S512, H::T256, H::T512, H::K128, H::K256];
pub const SHA2: [H; 3] = [H::S256, H::S384, H::S512];

impl H {
    pub fn name(self) -> &'static str {
        match self {
            H::S256 => "sha256",
            H::S384 => "sha384",
            H::S512 => "sha512",
            H::T256 => "sha3-256",
            H::T512 => "sha3-512",
            H::K128 => "shake128",
            H::K256 => "shake256",
        }
    }
    pub fn block(self) -> usize {
        match self {
            H::S256 => 64,
            H::S384 | H::S512 => 128,
            H::T256 | H::K256 => 136,
            H::T512 => 72,
            H::K128 => 168,
        }
    }
}

/// the independent digest; SHAKE gives `xof` bytes
pub fn oracle(h: H, m: &[u8], xof: usize) -> Vec<u8> {
    match h {
        H::S256 => sha2::Sha256::digest(m).to_vec(),
        H::S384 => sha2::Sha384::digest(m).to_vec(),
        H::S512 => sha2::Sha512::digest(m).to_vec(),
        H::T256 => sha3::Sha3_256::digest(m).to_vec(),
        H::T512 => sha3::Sha3_512::digest(m).to_vec(),
        H::K128 => {
            let mut x = sha3::Shake128::default();
            x.update(m);
            let mut o = vec![0; xof];
            x.finalize_xof().read(&mut o);
            o
        }
        H::K256 => {
            let mut x = sha3::Shake256::default();
            x.update(m);
            let mut o = vec![0; xof];
            x.finalize_xof().read(&mut o);
            o
        }
    }
}

/// the library's digest with the message in the given pieces (both its interfaces)
pub fn real(h: H, parts: &[&[u8]], reads: &[usize]) -> Vec<u8> {
    match h {
        H::S256 => {
            let mut c = gh::sha2::Sha256Context::new();
            parts.iter().for_each(|p| c.update(p));
            c.finish().to_vec()
        }
        H::S384 => {
            let mut c = gh::sha2::Sha384Context::new();
            parts.iter().for_each(|p| c.update(p));
            c.finish().to_vec()
        }
        H::S512 => {
            let mut c = gh::sha2::Sha512Context::new();
            parts.iter().for_each(|p| c.update(p));
            c.finish().to_vec()
        }
        H::T256 => {
            let mut c = gh::sha3::Sha3_256Context::new();
            parts.iter().for_each(|p| c.update(p));
            c.finish().to_vec()
        }
        H::T512 => {
            let mut c = gh::sha3::Sha3_512Context::new();
            parts.iter().for_each(|p| c.update(p));
            c.finish().to_vec()
        }
        H::K128 => {
            let mut c = gh::sha3::Shake128::new(parts);
            let mut o = vec![];
            for r in reads {
                let mut b = vec![0xa5; *r];
                c.read(&mut b);
                o.extend(b);
            }
            o
        }
        H::K256 => {
            let mut c = gh::sha3::Shake256::new(parts);
            let mut o = vec![];
            for r in reads {
                let mut b = vec![0xa5; *r];
                c.read(&mut b);
                o.extend(b);
            }
            o
        }
    }
}

fn generic_ctx<X: gh::Hash>(parts: &[&[u8]]) -> Vec<u8> {
    let mut c = X::new();
    parts.iter().for_each(|p| c.update(p));
    c.finish().as_ref().to_vec()
}

fn real_trait(h: H, parts: &[&[u8]]) -> Option<Vec<u8>> {
    Some(match h {
        H::S256 => generic_ctx::<gh::Sha256>(parts),
        H::S384 => generic_ctx::<gh::Sha384>(parts),
        H::S512 => generic_ctx::<gh::Sha512>(parts),
        _ => return None,
    })
}

fn oneshot(h: H, m: &[u8]) -> Option<Vec<u8>> {
    Some(match h {
        H::S256 => gh::Sha256::hash(m).as_ref().to_vec(),
        H::S384 => gh::Sha384::hash(m).as_ref().to_vec(),
        H::S512 => gh::Sha512::hash(m).as_ref().to_vec(),
        _ => return None,
    })
}

pub fn jobs_c03(_t: bool) -> Vec<Job> {
    vec![
        ("huge", "native", 5),
        ("huge", "min", 3),
        ("splits", "native", 4),
        ("splits", "min", 4),
        ("random", "native", 2),
        ("random", "min", 2),
        ("clone", "native", 1),
        ("clone", "min", 1),
        ("xof", "native", 2),
    ]
}

fn split_at<'a>(m: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut p = 0;
    for &c in cuts {
        v.push(&m[p..c]);
        p = c;
    }
    v.push(&m[p..]);
    v
}

fn rand_parts<'a>(rng: &mut Rng, m: &'a [u8], block: usize) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut p = 0;
    while p < m.len() {
        let n = match rng.below(9) {
            0 => 0,
            1 => 1,
            2 => rng.below(block),
            3 => block,
            4 => block - 1,
            5 => block + 1,
            6 => block * rng.below(5),
            7 => rng.below(3 * block),
            _ => rng.below(16),
        }
        .min(m.len() - p);
        v.push(&m[p..p + n]);
        p += n;
    }
    if rng.below(4) == 0 {
        v.push(&[]);
    }
    v
}

pub fn run_c03(ctx: &mut Ctx) {
    let mut rng = ctx.rng("c03");
    match ctx.section.as_str() {
        "splits" => {
            // every length one-shot; every two-way split up to a bound; byte-at-a-time
            let mut i = 0;
            for h in ALL {
                for len in 0..ctx.n(1100, 3000) {
                    i += 1;
                    if !ctx.mine(i) {
                        continue;
                    }
                    if !ctx.more() {
                        return;
                    }
                    let m = rng.bytes(len);
                    let x = 64 + rng.below(400);
                    ctx.case("one-shot", format!("{} len={len} m={} xof={x}", h.name(), hexs(&m)));
                    let want = oracle(h, &m, x);
                    if let Some(g) = ctx.call("hash", || real(h, &[&m], &[x])) {
                        ctx.eq("digest", &g, &want);
                    }
                    if let Some(Some(g)) = ctx.call("hash", || oneshot(h, &m)) {
                        ctx.eq("digest-oneshot", &g, &want);
                    }
                    if let Some(Some(g)) = ctx.call("hash", || real_trait(h, &[&m])) {
                        ctx.eq("digest-trait", &g, &want);
                    }
                    if len <= ctx.n(300, 700) {
                        for cut in 0..=len {
                            ctx.case("two-way-split", format!("{} len={len} cut={cut} m={}", h.name(), hexs(&m)));
                            let ps = split_at(&m, &[cut]);
                            if let Some(g) = ctx.call("hash", || real(h, &ps, &[x])) {
                                ctx.eq("digest", &g, &want);
                            }
                        }
                        let bytes: Vec<&[u8]> = m.chunks(1).collect();
                        ctx.case("bytewise", format!("{} len={len} m={}", h.name(), hexs(&m)));
                        if let Some(g) = ctx.call("hash", || real(h, &bytes, &[x])) {
                            ctx.eq("digest", &g, &want);
                        }
                    }
                }
            }
        }
        "random" => {
            for _ in 0..ctx.n(12_000, 300_000) {
                if !ctx.more() {
                    return;
                }
                let h = *rng.pick(&ALL);
                let len = match rng.below(5) {
                    0 => rng.below(200),
                    1 => h.block() * rng.below(40),
                    2 => (h.block() * (1 + rng.below(40))).saturating_sub(rng.below(20)),
                    3 => rng.below(3000),
                    _ => rng.below(20_000),
                };
                let m = rng.biased(len);
                let ps = rand_parts(&mut rng, &m, h.block());
                let shape: Vec<usize> = ps.iter().map(|p| p.len()).collect();
                let x = rng.below(600);
                ctx.case("random-chunks", format!("{} len={len} parts={:?} m={}", h.name(), &shape[..shape.len().min(30)], hexs(&m)));
                let want = oracle(h, &m, x);
                if let Some(g) = ctx.call("hash", || real(h, &ps, &[x])) {
                    ctx.eq("digest", &g, &want);
                }
                if let Some(Some(g)) = ctx.call("hash", || real_trait(h, &ps)) {
                    ctx.eq("digest-trait", &g, &want);
                }
            }
        }
        "clone" => {
            // a tree of clones: each context carries the bytes it absorbed; a step
            // picks one and updates, clones or finishes it
            for round in 0..ctx.n(1500, 20_000) {
                if !ctx.more() {
                    return;
                }
                match round % 3 {
                    0 => clone_tree::<gh::Sha256>(ctx, &mut rng, H::S256),
                    1 => clone_tree::<gh::Sha384>(ctx, &mut rng, H::S384),
                    _ => clone_tree::<gh::Sha512>(ctx, &mut rng, H::S512),
                }
            }
        }
        "xof" => {
            for i in 0..ctx.n(3000, 60_000) {
                if !ctx.more() {
                    return;
                }
                let h = if i % 2 == 0 { H::K128 } else { H::K256 };
                let len = rng.below(500);
                let m = rng.bytes(len);
                let mut reads = vec![];
                let total_max = 4000;
                let mut tot = 0;
                while tot < total_max && reads.len() < 60 {
                    let n = match rng.below(8) {
                        0 => 0,
                        1 => 1,
                        2 => h.block(),
                        3 => h.block() - 1,
                        4 => h.block() + 1,
                        5 => rng.below(3 * h.block()),
                        6 => 2 * h.block(),
                        _ => rng.below(64),
                    };
                    reads.push(n);
                    tot += n;
                }
                ctx.case("xof-reads", format!("{} len={len} reads={reads:?}", h.name()));
                let want = oracle(h, &m, tot);
                if let Some(g) = ctx.call("hash", || real(h, &[&m], &reads)) {
                    ctx.eq("xof", &g, &want);
                }
            }
        }
        "huge" => {
            // message lengths beyond 2^32 bits / 2^32 bytes
            let mb = 1usize << 20;
            let mut plan: Vec<(H, usize)> = if ctx.config == "native" {
                vec![(H::S256, 4096 * mb + 100), (H::S512, 4096 * mb + 70), (H::S384, 512 * mb + 200), (H::T256, 512 * mb + 5), (H::T512, 256 * mb + 5)]
            } else {
                vec![(H::S256, 512 * mb + 77), (H::S512, 512 * mb + 111), (H::S384, 64 * mb + 3)]
            };
            if ctx.tier_thorough && ctx.config == "native" {
                plan.push((H::S384, 4096 * mb + 1));
                plan.push((H::T256, 4096 * mb + 1));
                plan.push((H::T512, 4096 * mb + 1));
            }
            let chunk = rng.bytes(4 * mb + 64 * 3);
            for (i, (h, total)) in plan.into_iter().enumerate() {
                if !ctx.mine(i) || !ctx.more() {
                    continue;
                }
                ctx.case("huge-message", format!("{} len={total}", h.name()));
                macro_rules! go {
                    ($real:expr, $ora:expr) => {{
                        let mut r = $real;
                        let mut o = $ora;
                        let mut left = total;
                        let mut n = 0usize;
                        while left > 0 {
                            // mostly whole blocks, sometimes not
                            let l = if n % 7 == 3 { 3 * mb + 17 } else { chunk.len() }.min(left);
                            r.update(&chunk[..l]);
                            sha2::Digest::update(&mut o, &chunk[..l]);
                            left -= l;
                            n += 1;
                        }
                        let g = r.finish();
                        let w = o.finalize();
                        ctx.eq("digest", g.as_ref(), &w);
                    }};
                }
                match h {
                    H::S256 => go!(gh::sha2::Sha256Context::new(), sha2::Sha256::new()),
                    H::S384 => go!(gh::sha2::Sha384Context::new(), sha2::Sha384::new()),
                    H::S512 => go!(gh::sha2::Sha512Context::new(), sha2::Sha512::new()),
                    H::T256 => go!(gh::sha3::Sha3_256Context::new(), sha3::Sha3_256::new()),
                    H::T512 => go!(gh::sha3::Sha3_512Context::new(), sha3::Sha3_512::new()),
                    _ => {}
                }
            }
            // a single update of more than 2^32 bytes (all zero: needs no memory)
            if ctx.config == "native" {
                for (i, h) in [H::S256, H::S512].into_iter().enumerate() {
                    let l = 4096 * mb + 1 + rng.below(1000);
                    if !ctx.mine(i + 2) || !ctx.more() {
                        continue;
                    }
                    let m = vec![0u8; l];
                    ctx.case("huge-single-update", format!("{} {l} zeros", h.name()));
                    let (g, w): (Option<Vec<u8>>, Vec<u8>) = match h {
                        H::S256 => (
                            ctx.call("hash", || {
                                let mut c = gh::sha2::Sha256Context::new();
                                c.update(&m[..33]);
                                c.update(&m[33..]);
                                c.finish().to_vec()
                            }),
                            sha2::Sha256::digest(&m).to_vec(),
                        ),
                        _ => (
                            ctx.call("hash", || {
                                let mut c = gh::sha2::Sha512Context::new();
                                c.update(&m);
                                c.finish().to_vec()
                            }),
                            sha2::Sha512::digest(&m).to_vec(),
                        ),
                    };
                    if let Some(g) = g {
                        ctx.eq("digest", &g, &w);
                    }
                }
            }
            // one large contiguous update (many blocks in one call), and large shake inputs
            for (i, h) in ALL.into_iter().enumerate() {
                if !ctx.mine(i) {
                    continue;
                }
                let l = 20 * mb + 1 + rng.below(1000);
                let m = rng.bytes(l);
                ctx.case("large-single-update", format!("{} len={}", h.name(), m.len()));
                let want = oracle(h, &m, 70_000);
                if let Some(g) = ctx.call("hash", || real(h, &[&m], &[70_000])) {
                    ctx.eq("digest", &g, &want);
                }
            }
        }
        s => panic!("section {s}"),
    }
}

fn clone_tree<X: gh::Hash>(ctx: &mut Ctx, rng: &mut Rng, h: H) {
    let mut live: Vec<(X::Context, Vec<u8>)> = vec![(X::new(), vec![])];
    let mut steps = String::new();
    for _ in 0..rng.range(4, 30) {
        if live.is_empty() {
            break;
        }
        let i = rng.below(live.len());
        match rng.below(6) {
            0 | 1 => {
                let c = live[i].0.clone();
                let m = live[i].1.clone();
                steps.push_str(&format!("c{i} "));
                live.push((c, m));
            }
            2 if live.len() > 1 => {
                let (c, m) = live.swap_remove(i);
                steps.push_str(&format!("f{i}@{} ", m.len()));
                let want = oracle(h, &m, 0);
                if let Some(g) = ctx.call("hash", || c.finish().as_ref().to_vec()) {
                    ctx.eq("digest", &g, &want);
                }
                ctx.observe("clone-finish", 1);
            }
            _ => {
                let n = match rng.below(5) {
                    0 => 0,
                    1 => h.block(),
                    2 => rng.below(2 * h.block()),
                    3 => h.block() * rng.below(4) + h.block() - live[i].1.len() % h.block(),
                    _ => rng.below(20),
                };
                let b = rng.bytes(n);
                steps.push_str(&format!("u{i}+{n} "));
                live[i].0.update(&b);
                live[i].1.extend(b);
            }
        }
    }
    ctx.case("clone-tree", format!("{} {steps}", h.name()));
    for (c, m) in live {
        let want = oracle(h, &m, 0);
        if let Some(g) = ctx.call("hash", || c.finish().as_ref().to_vec()) {
            ctx.eq("digest", &g, &want);
        }
        ctx.observe("clone-finish", 1);
    }
}

// ---------------------------------------------------------------- C04

pub fn jobs_c04(_t: bool) -> Vec<Job> {
    vec![("mac", "native", 4), ("mac", "min", 2), ("verify", "native", 2), ("verify", "min", 1), ("drv", "native", 1)]
}

pub fn oracle_mac(h: H, key: &[u8], m: &[u8]) -> Vec<u8> {
    use hmac::Mac;
    match h {
        H::S256 => {
            let mut x = <hmac::Hmac<sha2::Sha256> as Mac>::new_from_slice(key).unwrap();
            Mac::update(&mut x, m);
            x.finalize().into_bytes().to_vec()
        }
        H::S384 => {
            let mut x = <hmac::Hmac<sha2::Sha384> as Mac>::new_from_slice(key).unwrap();
            Mac::update(&mut x, m);
            x.finalize().into_bytes().to_vec()
        }
        H::S512 => {
            let mut x = <hmac::Hmac<sha2::Sha512> as Mac>::new_from_slice(key).unwrap();
            Mac::update(&mut x, m);
            x.finalize().into_bytes().to_vec()
        }
        _ => unreachable!(),
    }
}

fn mac_case<X: gh::Hash>(ctx: &mut Ctx, rng: &mut Rng, h: H, kl: usize, ml: usize, class: &str)
where
    gh::hmac::Hmac<X>: Clone,
{
    let key = rng.biased(kl);
    let m = rng.bytes(ml);
    let ps = rand_parts(rng, &m, h.block());
    ctx.case(class, format!("{} keylen={kl} key={} msglen={ml} parts={}", h.name(), hexs(&key), ps.len()));
    let want = oracle_mac(h, &key, &m);
    let got = ctx.call("hmac", || {
        let mut x = gh::hmac::Hmac::<X>::new(&key);
        ps.iter().for_each(|p| x.update(p));
        x.finish().as_ref().to_vec()
    });
    if let Some(g) = got {
        ctx.eq("mac", &g, &want);
    }
    // clone half way; both must be right, and the clone with another suffix too
    let half = rng.below(ml + 1);
    let suffix = rng.bytes(half % 97);
    let want2 = oracle_mac(h, &key, &[&m[..half], &suffix[..]].concat());
    let got = ctx.call("hmac", || {
        let mut x = gh::hmac::Hmac::<X>::new(&key);
        x.update(&m[..half]);
        let mut y = x.clone();
        x.update(&m[half..]);
        y.update(&suffix);
        let a = x.finish().as_ref().to_vec();
        (a, y.finish().as_ref().to_vec())
    });
    if let Some((a, b)) = got {
        ctx.eq("mac-clone", &a, &want);
        ctx.eq("mac-clone-fork", &b, &want2);
    }
}

fn verify_case<X: gh::Hash>(ctx: &mut Ctx, rng: &mut Rng, h: H)
where
    gh::hmac::Hmac<X>: Clone,
{
    let kl = rng.below(200);
    let key = rng.bytes(kl);
    let ml = rng.below(300);
    let m = rng.bytes(ml);
    let want = oracle_mac(h, &key, &m);
    let mut base = gh::hmac::Hmac::<X>::new(&key);
    base.update(&m);
    let out = base.clone().finish();
    let n = want.len();
    let mut cands: Vec<(String, Vec<u8>)> = vec![("genuine".into(), want.clone())];
    for bit in 0..8 * n {
        let mut t = want.clone();
        t[bit / 8] ^= 1 << (bit % 8);
        cands.push((format!("bit {bit}"), t));
    }
    for _ in 0..120 {
        let (a, b) = (rng.below(n), rng.below(n));
        if a != b {
            let d = 1 << rng.below(8);
            let mut t = want.clone();
            t[a] ^= d;
            t[b] ^= d;
            cands.push((format!("pair {a},{b} ^ {d}"), t));
            let mut t = want.clone();
            t[a] = t[a].wrapping_add(1);
            t[b] = t[b].wrapping_sub(1);
            cands.push((format!("sum {a},{b}"), t));
            let mut t = want.clone();
            t.swap(a, b);
            cands.push((format!("swap {a},{b}"), t));
        }
    }
    for l in 0..2 * n + 5 {
        if l != n {
            let mut t = want.clone();
            t.resize(l, 0);
            cands.push((format!("length {l}"), t));
            if l < n {
                cands.push((format!("suffix {l}"), want[n - l..].to_vec()));
            } else {
                cands.push((format!("cyclic {l}"), want.iter().cycle().take(l).copied().collect()));
            }
        }
    }
    let mut long = want.clone();
    long.resize(n + 256, 0);
    cands.push(("length +256".into(), long));
    cands.push(("zero".into(), vec![0; n]));
    for (what, t) in cands {
        ctx.case("verify", format!("{} key={} msglen={} {what}", h.name(), hexs(&key), m.len()));
        let expect = t == want;
        if let Some(ok) = ctx.call("verify", || base.clone().verify(&t).is_ok()) {
            ctx.check(ok == expect, "verify-decision", || format!("tag {} ({what}): accepted={ok} expected={expect}", hex(&t)));
        }
        if let Some(ok) = ctx.call("ct_equal", || out.ct_equal(&t)) {
            ctx.check(ok == expect, "ct-equal-decision", || format!("tag {} ({what}): equal={ok} expected={expect}", hex(&t)));
        }
        // truncated comparison against fixed lengths
        macro_rules! tr {
            ($($l:literal)*) => {$(
                let expect = t == want[..$l];
                if let Some(ok) = ctx.call("truncated_ct_equal", || out.truncated_ct_equal::<$l>(&t)) {
                    ctx.check(ok == expect, "truncated-decision", || format!("truncated to {}: {} ({what}): equal={ok} expected={expect}", $l, hex(&t)));
                }
            )*}
        }
        tr!(1 10 12 16 20 31 32);
    }
}

pub fn run_c04(ctx: &mut Ctx) {
    let mut rng = ctx.rng("c04");
    match ctx.section.as_str() {
        "mac" => {
            let mut i = 0;
            for h in SHA2 {
                let mut lens: Vec<usize> = (0..ctx.n(420, 1200)).collect();
                lens.extend([4096, 4097, 100_000]);
                for kl in lens {
                    i += 1;
                    if !ctx.mine(i) {
                        continue;
                    }
                    for _ in 0..ctx.n(8, 40) {
                        if !ctx.more() {
                            return;
                        }
                        let ml = match rng.below(4) {
                            0 => rng.below(20),
                            1 => h.block() * rng.below(6),
                            2 => rng.below(600),
                            _ => (h.block() * (1 + rng.below(4))).saturating_sub(1 + rng.below(20)),
                        };
                        match h {
                            H::S256 => mac_case::<gh::Sha256>(ctx, &mut rng, h, kl, ml, "mac"),
                            H::S384 => mac_case::<gh::Sha384>(ctx, &mut rng, h, kl, ml, "mac"),
                            _ => mac_case::<gh::Sha512>(ctx, &mut rng, h, kl, ml, "mac"),
                        }
                    }
                }
            }
        }
        "verify" => {
            for _ in 0..ctx.n(6, 100) {
                if !ctx.more() {
                    return;
                }
                verify_case::<gh::Sha256>(ctx, &mut rng, H::S256);
                verify_case::<gh::Sha384>(ctx, &mut rng, H::S384);
                verify_case::<gh::Sha512>(ctx, &mut rng, H::S512);
            }
        }
        "drv" => {
            // a keyed context cloned many times, PBKDF2 style: the base never changes
            for h in SHA2 {
                let key = rng.bytes(40);
                let x256 = gh::hmac::Hmac::<gh::Sha256>::new(&key);
                let x384 = gh::hmac::Hmac::<gh::Sha384>::new(&key);
                let x512 = gh::hmac::Hmac::<gh::Sha512>::new(&key);
                let mut u = rng.bytes(20);
                for i in 0..ctx.n(3000, 50_000) {
                    ctx.case("pbkdf2-chain", format!("{} step {i} in={}", h.name(), hex(&u)));
                    let want = oracle_mac(h, &key, &u);
                    let g = match h {
                        H::S256 => {
                            let mut c = x256.clone();
                            c.update(&u);
                            c.finish().as_ref().to_vec()
                        }
                        H::S384 => {
                            let mut c = x384.clone();
                            c.update(&u);
                            c.finish().as_ref().to_vec()
                        }
                        _ => {
                            let mut c = x512.clone();
                            c.update(&u);
                            c.finish().as_ref().to_vec()
                        }
                    };
                    ctx.eq("mac", &g, &want);
                    u = want;
                    if !ctx.more() {
                        return;
                    }
                }
            }
        }
        s => panic!("section {s}"),
    }
}
