//! C05 key agreement, C08 ECDSA verification, C09 ECDSA signing, on P-256 and P-384.
use crate::Job;
use crate::ecref::*;
use crate::hash::H;
use graviola::Error;
use graviola::hashing::{Sha256, Sha384, Sha512};
use graviola::key_agreement as ka;
use graviola::signing::ecdsa;
use harness::rngctl::{self, Mode};
use harness::*;
use num_traits::{One, Zero};
use std::collections::HashMap;

/// The library's two curves behind one face.
pub trait Ka {
    type Pub;
    type Static;
    type Eph;
    type Sig: ecdsa::Curve;
    fn curve() -> &'static Curve;
    fn pub_from(b: &[u8]) -> Result<Self::Pub, Error>;
    fn pub_bytes(p: &Self::Pub) -> Vec<u8>;
    fn st_from(b: &[u8]) -> Result<Self::Static, Error>;
    fn st_new() -> Result<Self::Static, Error>;
    fn st_bytes(s: &Self::Static) -> Vec<u8>;
    fn st_pub(s: &Self::Static) -> Vec<u8>;
    fn st_dh(s: &Self::Static, p: &Self::Pub) -> Result<Vec<u8>, Error>;
    fn eph_new() -> Result<Self::Eph, Error>;
    fn eph_pub(s: &Self::Eph) -> Vec<u8>;
    fn eph_dh(s: Self::Eph, p: &Self::Pub) -> Result<Vec<u8>, Error>;
    fn signer(d: &[u8]) -> Result<ecdsa::SigningKey<Self::Sig>, Error>;
}

macro_rules! impl_ka {
    ($t:ident, $m:ident, $c:ident, $mk:ident) => {
        pub struct $t;
        impl Ka for $t {
            type Pub = ka::$m::PublicKey;
            type Static = ka::$m::StaticPrivateKey;
            type Eph = ka::$m::PrivateKey;
            type Sig = ecdsa::$c;
            fn curve() -> &'static Curve {
                static C: std::sync::OnceLock<Curve> = std::sync::OnceLock::new();
                C.get_or_init(Curve::$mk)
            }
            fn pub_from(b: &[u8]) -> Result<Self::Pub, Error> {
                ka::$m::PublicKey::from_x962_uncompressed(b)
            }
            fn pub_bytes(p: &Self::Pub) -> Vec<u8> {
                p.as_bytes_uncompressed().to_vec()
            }
            fn st_from(b: &[u8]) -> Result<Self::Static, Error> {
                ka::$m::StaticPrivateKey::from_bytes(b)
            }
            fn st_new() -> Result<Self::Static, Error> {
                ka::$m::StaticPrivateKey::new_random()
            }
            fn st_bytes(s: &Self::Static) -> Vec<u8> {
                s.as_bytes().to_vec()
            }
            fn st_pub(s: &Self::Static) -> Vec<u8> {
                s.public_key_uncompressed().to_vec()
            }
            fn st_dh(s: &Self::Static, p: &Self::Pub) -> Result<Vec<u8>, Error> {
                s.diffie_hellman(p).map(|x| x.0.to_vec())
            }
            fn eph_new() -> Result<Self::Eph, Error> {
                ka::$m::PrivateKey::new_random()
            }
            fn eph_pub(s: &Self::Eph) -> Vec<u8> {
                s.public_key_uncompressed().to_vec()
            }
            fn eph_dh(s: Self::Eph, p: &Self::Pub) -> Result<Vec<u8>, Error> {
                s.diffie_hellman(p).map(|x| x.0.to_vec())
            }
            fn signer(d: &[u8]) -> Result<ecdsa::SigningKey<Self::Sig>, Error> {
                Ok(ecdsa::SigningKey { private_key: Self::st_from(d)? })
            }
        }
    };
}
impl_ka!(K256, p256, P256, p256);
impl_ka!(K384, p384, P384, p384);

/// Points with unusual coordinates, and small multiples of the generator.
pub fn edge_points(rng: &mut Rng, c: &Curve, n: usize) -> Vec<Pt> {
    let mut v = vec![c.g.clone(), c.neg(&c.g)];
    let mut t = c.g.clone();
    for _ in 0..20 {
        t = c.add(&t, &c.g);
        v.push(t.clone());
        v.push(c.neg(&t));
    }
    let mut xs: Vec<B> = vec![];
    for i in 0..60u32 {
        xs.push(B::from(i));
        xs.push(&c.p - 1u32 - i);
        if c.n < c.p {
            xs.push(&c.n + i);
        }
        xs.push(&c.n - i);
    }
    xs.extend(edge_scalars(rng, &c.p, n / 2).into_iter().filter(|_| rng.below(6) == 0));
    for x in xs {
        if let Some(q) = c.lift_x(&x, rng.bool()) {
            v.push(q);
        }
    }
    for y in [1u32, 2, 3, 4, 5, 6, 7, 8] {
        for yy in [B::from(y), &c.p - y] {
            for x in c.lift_y(&yy) {
                v.push(Pt(Some((x, yy.clone()))));
            }
        }
    }
    v
}

pub fn jobs_c05(_t: bool) -> Vec<Job> {
    vec![("p256", "native", 8), ("p384", "native", 8), ("range", "native", 2)]
}

pub fn run_c05(ctx: &mut Ctx) {
    match ctx.section.as_str() {
        "p256" => c05::<K256>(ctx),
        "p384" => c05::<K384>(ctx),
        "range" => {
            if ctx.mine(0) {
                c05_range::<K256>(ctx)
            }
            if ctx.mine(1) {
                c05_range::<K384>(ctx)
            }
        }
        s => panic!("section {s}"),
    }
}

fn dh_case<K: Ka>(ctx: &mut Ctx, c: &Curve, class: &str, k: &B, q: &Pt, check_pub: bool) {
    let kb = c.be(k);
    ctx.case(class, format!("{} k={} Q={}", c.name, hex(&kb), hex(&c.enc(q))));
    let Some(r) = ctx.call("from_bytes", || K::st_from(&kb)) else { return };
    let Ok(s) = r else {
        ctx.fail("key-refused", format!("valid private key refused: {:?}", r.err()));
        return;
    };
    if let Some(o) = ctx.call("as_bytes", || K::st_bytes(&s)) {
        ctx.eq("private-bytes", &o, &kb);
    }
    if check_pub {
        let want = c.enc(&c.mul_g(k));
        if let Some(o) = ctx.call("public_key", || K::st_pub(&s)) {
            ctx.eq("public-key", &o, &want);
        }
    }
    let Some(p) = ctx.call("pub_from", || K::pub_from(&c.enc(q))) else { return };
    let Ok(p) = p else {
        ctx.fail("peer-refused", "valid peer key refused".into());
        return;
    };
    if let Some(o) = ctx.call("as_bytes_uncompressed", || K::pub_bytes(&p)) {
        ctx.eq("public-round-trip", &o, &c.enc(q));
    }
    let want = c.mul(k, q);
    let (x, _) = want.0.expect("order is prime");
    match ctx.call("diffie_hellman", || K::st_dh(&s, &p)) {
        Some(Ok(o)) => {
            ctx.eq("shared-secret", &o, &c.be(&x));
        }
        Some(Err(e)) => ctx.fail("dh-error", format!("agreement failed: {e:?}")),
        None => {}
    }
    // a static key is unchanged by use
    if let Some(o) = ctx.call("as_bytes", || K::st_bytes(&s)) {
        ctx.eq("private-bytes-after", &o, &kb);
    }
}

fn c05<K: Ka>(ctx: &mut Ctx) {
    let c = K::curve();
    let mut rng = ctx.rng("c05");
    // same lists in every shard
    let mut lrng = Rng::from_label(ctx.seed, "c05-lists");
    let ks = edge_scalars(&mut lrng, &c.n, ctx.n(400, 4000));
    let qs = edge_points(&mut lrng, &c, 200);
    ctx.notes.insert("edge scalars".into(), ks.len().to_string());
    ctx.notes.insert("edge points".into(), qs.len().to_string());
    for (i, k) in ks.iter().enumerate() {
        if !ctx.mine(i) {
            continue;
        }
        if !ctx.more() {
            return;
        }
        let q = match rng.below(3) {
            0 => rng.pick(&qs).clone(),
            1 => c.g.clone(),
            _ => c.mul_g(&rand_below(&mut rng, &c.n)),
        };
        dh_case::<K>(ctx, &c, "edge-scalar", k, &q, true);
    }
    for (i, q) in qs.iter().enumerate() {
        if !ctx.mine(i) {
            continue;
        }
        for _ in 0..ctx.n(2, 8) {
            if !ctx.more() {
                return;
            }
            let k = if rng.bool() { rng.pick(&ks).clone() } else { rand_below(&mut rng, &c.n) };
            dh_case::<K>(ctx, &c, "edge-point", &k, q, false);
        }
    }
    for _ in 0..ctx.n(120, 4000) {
        if !ctx.more() {
            return;
        }
        let k = rand_below(&mut rng, &c.n);
        let q = c.mul_g(&rand_below(&mut rng, &c.n));
        dh_case::<K>(ctx, &c, "random", &k, &q, true);
    }
    // bulk: both parties agree (no model needed), and small-multiple relation
    for _ in 0..ctx.n(4000, 100_000) {
        if !ctx.more() {
            return;
        }
        let (a, b_) = (rand_below(&mut rng, &c.n), rand_below(&mut rng, &c.n));
        ctx.case("two-party", format!("{} a={a:x} b={b_:x}", c.name));
        let r = ctx.call("agree", || {
            let sa = K::st_from(&c.be(&a))?;
            let sb = K::st_from(&c.be(&b_))?;
            let pa = K::pub_from(&K::st_pub(&sa))?;
            let pb = K::pub_from(&K::st_pub(&sb))?;
            Ok::<_, Error>((K::st_dh(&sa, &pb)?, K::st_dh(&sb, &pa)?))
        });
        match r {
            Some(Ok((x, y))) => {
                ctx.eq("two-party-secret", &x, &y);
            }
            Some(Err(e)) => ctx.fail("two-party-error", format!("{e:?}")),
            None => {}
        }
    }
    // a static key in use with many peers keeps giving the right answers
    let k = rand_below(&mut rng, &c.n);
    let s = K::st_from(&c.be(&k)).unwrap();
    for _ in 0..ctx.n(30, 400) {
        if !ctx.more() {
            return;
        }
        let q = c.mul_g(&rand_below(&mut rng, &c.n));
        ctx.case("static-reuse", format!("{} k={k:x} Q={}", c.name, hex(&c.enc(&q))));
        let p = K::pub_from(&c.enc(&q)).unwrap();
        let want = c.be(&c.mul(&k, &q).0.unwrap().0);
        match ctx.call("dh", || K::st_dh(&s, &p)) {
            Some(Ok(x)) => {
                ctx.eq("shared-secret", &x, &want);
            }
            Some(Err(e)) => ctx.fail("dh-error", format!("{e:?}")),
            None => {}
        }
    }
}

fn c05_range<K: Ka>(ctx: &mut Ctx) {
    let c = K::curve();
    let mut rng = ctx.rng("range");
    let full = (B::one() << (8 * c.len as u64)) - 1u32;
    let mut vals: Vec<B> = vec![B::zero(), full.clone()];
    for i in 0u32..40 {
        vals.push(&c.n + i);
        vals.push(&c.n - i);
        vals.push(&full - i);
        vals.push(B::from(i));
    }
    for k in 0..8 * c.len as u64 {
        let x = &c.n + (B::one() << k);
        if x <= full {
            vals.push(x);
        }
        let x = &c.n - (B::one() << k.min(c.n.bits() - 1));
        vals.push(x);
    }
    for _ in 0..400 {
        let v = rng.biased(c.len);
        vals.push(B::from_bytes_be(&v));
        // agree with the order in a prefix
        let mut o = c.be(&c.n);
        let i = rng.below(c.len);
        rng.fill(&mut o[i..]);
        vals.push(B::from_bytes_be(&o));
    }
    let valid = |v: &B| !v.is_zero() && v < &c.n;
    for v in &vals {
        for pad in [0usize, 1, 2, 7, 8, 16, 33] {
            let mut e = vec![0; pad];
            e.extend(c.be(v));
            range_one::<K>(ctx, &c, &e, valid(v), v);
        }
        // shortest form
        let e = v.to_bytes_be();
        range_one::<K>(ctx, &c, &e, valid(v), v);
    }
    // excess bytes that are not zero
    for _ in 0..600 {
        let ex = 1 + rng.below(20);
        let mut e = vec![0; ex];
        e[rng.below(ex)] = 1 << rng.below(8);
        let k = rand_below(&mut rng, &c.n);
        e.extend(c.be(&k));
        let v = B::from_bytes_be(&e);
        range_one::<K>(ctx, &c, &e, false, &v);
    }
    range_one::<K>(ctx, &c, &[], false, &B::zero());
    // key generation: candidates out of range must be skipped, the first good one used
    for round in 0..ctx.n(300, 3000) {
        let nbad = rng.below(6);
        let mut script = vec![];
        for _ in 0..nbad {
            let bad = match rng.below(4) {
                0 => B::zero(),
                1 => full.clone(),
                2 => &c.n + rng.below(100),
                _ => &full - rng.below(1 << 20),
            };
            script.extend(c.be(&bad));
        }
        let k = if rng.bool() { B::one() + rng.below(50) } else { rand_below(&mut rng, &c.n) };
        script.extend(c.be(&k));
        let q = c.g.clone();
        let want_pub = c.enc(&c.mul_g(&k));
        for eph in [false, true] {
            ctx.case("generate", format!("{} round {round} bad={nbad} k={k:x} eph={eph}", c.name));
            rngctl::reset(ctx.seed ^ round as u64, Mode::Script(script.clone()));
            let p = K::pub_from(&c.enc(&q)).unwrap();
            let r = ctx.call("new_random", || {
                if eph {
                    let s = K::eph_new()?;
                    Ok::<_, Error>((K::eph_pub(&s), K::eph_dh(s, &p)?))
                } else {
                    let s = K::st_new()?;
                    Ok((K::st_pub(&s), K::st_dh(&s, &p)?))
                }
            });
            match r {
                // which in-range candidate is used is the library's choice; here there is one
                // in the scripted prefix, any later one would come from the stream
                Some(Ok((pb, x))) => {
                    let used = rngctl::total_bytes();
                    if used <= script.len() {
                        ctx.eq("generated-public", &pb, &want_pub);
                    }
                    // G is the peer: the secret is the x coordinate of the public key
                    ctx.eq("generated-agreement", &x, &pb[1..1 + c.len]);
                }
                Some(Err(e)) => ctx.fail("generate-error", format!("{e:?}")),
                None => {}
            }
        }
    }
}

fn range_one<K: Ka>(ctx: &mut Ctx, c: &Curve, e: &[u8], want: bool, v: &B) {
    ctx.case("range", format!("{} {}", c.name, hex(e)));
    match ctx.call("from_bytes", || K::st_from(e)) {
        Some(Ok(s)) => {
            if ctx.check(want, "out-of-range-accepted", || format!("{} accepted", hex(e))) {
                let o = K::st_bytes(&s);
                ctx.eq("private-bytes", &o, &c.be(v));
            }
        }
        Some(Err(_)) => {
            ctx.check(!want, "in-range-refused", || format!("{} refused", hex(e)));
        }
        None => {}
    }
    // the ECDSA route shares the rule
    if let Some(r) = ctx.call("signer", || K::signer(e).is_ok()) {
        ctx.check(r == want, "signer-range", || format!("{} accepted={r}", hex(e)));
    }
}

// ------------------------------------------------------------------ ECDSA

fn digest(h: H, m: &[u8]) -> Vec<u8> {
    crate::hash::oracle(h, m, 0)
}

pub fn der_len(n: usize) -> Vec<u8> {
    if n < 128 {
        vec![n as u8]
    } else if n < 256 {
        vec![0x81, n as u8]
    } else {
        vec![0x82, (n >> 8) as u8, n as u8]
    }
}
pub fn der_tlv(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    v.extend(der_len(c.len()));
    v.extend(c);
    v
}
pub fn der_int(x: &B) -> Vec<u8> {
    let mut c = x.to_bytes_be();
    if c[0] & 0x80 != 0 {
        c.insert(0, 0);
    }
    der_tlv(2, &c)
}
pub fn der_sig(r: &B, s: &B) -> Vec<u8> {
    der_tlv(0x30, &[der_int(r), der_int(s)].concat())
}

/// Strict DER: SEQUENCE of two minimal INTEGERs and nothing else. None if malformed;
/// negative integers give None as well.
pub fn strict_sig(b: &[u8]) -> Option<(B, B)> {
    fn tlv(b: &[u8], tag: u8) -> Option<(&[u8], &[u8])> {
        if *b.first()? != tag {
            return None;
        }
        let l = *b.get(1)? as usize;
        let (len, off) = if l < 0x80 {
            (l, 2)
        } else if l == 0x81 {
            let n = *b.get(2)? as usize;
            if n < 0x80 {
                return None;
            }
            (n, 3)
        } else if l == 0x82 {
            let n = (*b.get(2)? as usize) << 8 | *b.get(3)? as usize;
            if n < 0x100 {
                return None;
            }
            (n, 4)
        } else {
            return None;
        };
        if b.len() < off + len {
            return None;
        }
        Some((&b[off..off + len], &b[off + len..]))
    }
    fn int(c: &[u8]) -> Option<B> {
        if c.is_empty() || c[0] & 0x80 != 0 {
            return None;
        }
        if c.len() > 1 && c[0] == 0 && c[1] & 0x80 == 0 {
            return None;
        }
        Some(B::from_bytes_be(c))
    }
    let (seq, rest) = tlv(b, 0x30)?;
    if !rest.is_empty() {
        return None;
    }
    let (r, rest) = tlv(seq, 2)?;
    let (s, rest) = tlv(rest, 2)?;
    if !rest.is_empty() {
        return None;
    }
    Some((int(r)?, int(s)?))
}

fn real_verify<K: Ka>(key: &[u8], h: H, m: &[&[u8]], sig: &[u8], der: bool) -> Result<(), Error> {
    let v = ecdsa::VerifyingKey::<K::Sig>::from_x962_uncompressed(key)?;
    match (h, der) {
        (H::S256, false) => v.verify::<Sha256>(m, sig),
        (H::S384, false) => v.verify::<Sha384>(m, sig),
        (_, false) => v.verify::<Sha512>(m, sig),
        (H::S256, true) => v.verify_asn1::<Sha256>(m, sig),
        (H::S384, true) => v.verify_asn1::<Sha384>(m, sig),
        (_, true) => v.verify_asn1::<Sha512>(m, sig),
    }
}

/// Decide one signature in both encodings against the model.
fn decide<K: Ka>(ctx: &mut Ctx, c: &Curve, class: &str, q: &Pt, h: H, m: &[u8], r: &B, s: &B, known: Option<bool>) {
    let key = c.enc(q);
    let e = digest(h, m);
    let want = known.unwrap_or_else(|| c.verify(q, &e, r, s));
    ctx.case(class, format!("{} {} Q={} m={} r={r:x} s={s:x} valid={want}", c.name, h.name(), hex(&key), hexs(m)));
    ctx.observe(if want { "model-valid" } else { "model-invalid" }, 1);
    let full = B::one() << (8 * c.len as u64);
    if r < &full && s < &full {
        let sig = [c.be(r), c.be(s)].concat();
        if let Some(g) = ctx.call("verify", || real_verify::<K>(&key, h, &[m], &sig, false)) {
            ctx.check(g.is_ok() == want, if want { "valid-rejected" } else { "invalid-accepted" }, || {
                format!("fixed-width signature {} got {g:?}, model says valid={want}", hex(&sig))
            });
        }
    }
    let sig = der_sig(r, s);
    let cut = m.len() / 3;
    if let Some(g) = ctx.call("verify_asn1", || real_verify::<K>(&key, h, &[&m[..cut], &[], &m[cut..]], &sig, true)) {
        ctx.check(g.is_ok() == want, if want { "valid-rejected" } else { "invalid-accepted" }, || {
            format!("DER signature {} got {g:?}, model says valid={want}", hex(&sig))
        });
    }
}

pub fn jobs_c08(_t: bool) -> Vec<Job> {
    vec![
        ("p256", "native", 5),
        ("p384", "native", 6),
        ("exceptional256", "native", 3),
        ("exceptional384", "native", 3),
        ("encoding", "native", 2),
    ]
}

pub fn run_c08(ctx: &mut Ctx) {
    match ctx.section.as_str() {
        "p256" => c08_general::<K256>(ctx),
        "p384" => c08_general::<K384>(ctx),
        "exceptional256" => c08_exceptional::<K256>(ctx),
        "exceptional384" => c08_exceptional::<K384>(ctx),
        "encoding" => {
            if ctx.mine(0) {
                c08_encoding::<K256>(ctx)
            }
            if ctx.mine(1) {
                c08_encoding::<K384>(ctx)
            }
        }
        s => panic!("section {s}"),
    }
}

const HS: [H; 3] = [H::S256, H::S384, H::S512];

/// sign with the model
pub fn model_sign(c: &Curve, d: &B, k: &B, e: &[u8]) -> Option<(B, B)> {
    let (x, _) = c.mul_g(k).0?;
    let r = x % &c.n;
    let s = c.inv(k, &c.n) * (c.hash_int(e) + &r * d) % &c.n;
    (!r.is_zero() && !s.is_zero()).then_some((r, s))
}

fn c08_general<K: Ka>(ctx: &mut Ctx) {
    let c = K::curve();
    let mut rng = ctx.rng("general");
    let ks = edge_scalars(&mut rng, &c.n, 60);
    for round in 0..ctx.n(60, 2500) {
        if !ctx.more() {
            return;
        }
        let h = HS[round % 3];
        let d = match rng.below(3) {
            0 => rng.pick(&ks).clone(),
            _ => rand_below(&mut rng, &c.n),
        };
        let k = match rng.below(3) {
            0 => rng.pick(&ks).clone(),
            _ => rand_below(&mut rng, &c.n),
        };
        let ml = rng.below(200);
        let m = rng.bytes(ml);
        let q = c.mul_g(&d);
        let e = digest(h, &m);
        let Some((r, s)) = model_sign(&c, &d, &k, &e) else { continue };
        decide::<K>(ctx, &c, "genuine", &q, h, &m, &r, &s, Some(true));
        decide::<K>(ctx, &c, "negated-s", &q, h, &m, &r, &(&c.n - &s), Some(true));
        // neighbours and other values
        decide::<K>(ctx, &c, "r+1", &q, h, &m, &(&r + 1u32), &s, None);
        decide::<K>(ctx, &c, "s+1", &q, h, &m, &r, &(&s + 1u32), None);
        decide::<K>(ctx, &c, "swapped", &q, h, &m, &s, &r, None);
        decide::<K>(ctx, &c, "negated-r", &q, h, &m, &(&c.n - &r), &s, None);
        let bit = rng.below(8 * c.len) as u64;
        decide::<K>(ctx, &c, "r-bit", &q, h, &m, &(&r ^ (B::one() << bit)), &s, None);
        decide::<K>(ctx, &c, "s-bit", &q, h, &m, &r, &(&s ^ (B::one() << bit)), None);
        // out of range
        for (r2, s2) in [
            (B::zero(), s.clone()),
            (r.clone(), B::zero()),
            (B::zero(), B::zero()),
            (c.n.clone(), s.clone()),
            (r.clone(), c.n.clone()),
            (&r + &c.n, s.clone()),
            (r.clone(), &s + &c.n),
            (&c.n + 1u32, s.clone()),
            (r.clone(), &c.n + 1u32),
            (&r + (B::one() << (8 * c.len as u64)), s.clone()),
            (r.clone(), &s + (B::one() << (8 * c.len as u64))),
            (&r << 8u32, s.clone()),
        ] {
            decide::<K>(ctx, &c, "out-of-range", &q, h, &m, &r2, &s2, Some(false));
        }
        // extreme but in range
        for (r2, s2) in [
            (B::one(), B::one()),
            (&c.n - 1u32, &c.n - 1u32),
            (r.clone(), B::one()),
            (B::one(), s.clone()),
        ] {
            decide::<K>(ctx, &c, "extreme", &q, h, &m, &r2, &s2, None);
        }
        // other message, other key, other hash, same-prefix message
        let mut m2 = m.clone();
        if m2.is_empty() {
            m2.push(0)
        } else {
            let i = rng.below(m2.len());
            m2[i] ^= 1 << rng.below(8);
        }
        decide::<K>(ctx, &c, "other-message", &q, h, &m2, &r, &s, None);
        let mut m3 = m.clone();
        m3.push(0);
        decide::<K>(ctx, &c, "extended-message", &q, h, &m3, &r, &s, None);
        decide::<K>(ctx, &c, "other-hash", &q, HS[(round + 1) % 3], &m, &r, &s, None);
        decide::<K>(ctx, &c, "negated-key", &c.neg(&q), h, &m, &r, &s, None);
        let q2 = c.add(&q, &c.g);
        decide::<K>(ctx, &c, "other-key", &q2, h, &m, &r, &s, None);
    }
    // bulk of genuine signatures made by the library itself, checked by the library and,
    // now and then, by the model: rare arithmetic in verification
    for i in 0..ctx.n(3000, 60_000) {
        if !ctx.more() {
            return;
        }
        let h = HS[i % 3];
        let d = rand_below(&mut rng, &c.n);
        let m = rng.bytes(20);
        let sk = K::signer(&c.be(&d)).unwrap();
        ctx.case("bulk", format!("{} {} d={d:x} m={}", c.name, h.name(), hex(&m)));
        let mut o = [0u8; 96];
        let r = ctx.call("sign", || match h {
            H::S256 => sk.sign::<Sha256>(&[&m], &mut o).map(|x| x.to_vec()),
            H::S384 => sk.sign::<Sha384>(&[&m], &mut o).map(|x| x.to_vec()),
            _ => sk.sign::<Sha512>(&[&m], &mut o).map(|x| x.to_vec()),
        });
        let Some(Ok(sig)) = r else { continue };
        let key = K::st_pub(&sk_static::<K>(&c, &d));
        if let Some(g) = ctx.call("verify", || real_verify::<K>(&key, h, &[&m], &sig, false)) {
            if g.is_err() {
                let (r, s) = (B::from_bytes_be(&sig[..c.len]), B::from_bytes_be(&sig[c.len..]));
                let want = c.verify(&c.mul_g(&d), &digest(h, &m), &r, &s);
                ctx.check(!want, "valid-rejected", || format!("signature {} rejected", hex(&sig)));
            }
        }
    }
}

fn sk_static<K: Ka>(c: &Curve, d: &B) -> K::Static {
    K::st_from(&c.be(d)).unwrap()
}

/// Messages (8-byte little-endian counters) whose digests begin with ffffffff or 00000000.
/// For P-256 the first kind is above the group order, so it must be reduced.
pub const SPECIAL: &[(&str, u64)] = include!("special_messages.in");

fn c08_exceptional<K: Ka>(ctx: &mut Ctx) {
    let c = K::curve();
    let mut rng = ctx.rng("exceptional");
    let ks = edge_scalars(&mut rng, &c.n, 40);
    let inv = |x: &B| c.inv(x, &c.n);
    let nonzero = |x: B| (!x.is_zero()).then_some(x);
    for round in 0..ctx.n(45, 1500) {
        if !ctx.more() {
            return;
        }
        let h = HS[round % 3];
        let ml = rng.below(60);
        let m = rng.bytes(ml);
        let e = c.hash_int(&digest(h, &m)) % &c.n;
        let k = rand_below(&mut rng, &c.n);
        let r = c.mul_g(&k).0.unwrap().0 % &c.n;
        // u1 G = u2 Q : the final addition is a doubling
        let d = &e * inv(&r) % &c.n;
        let s = &e * 2u32 * inv(&k) % &c.n;
        let q = c.mul_g(&d);
        decide::<K>(ctx, &c, "final-add-is-doubling", &q, h, &m, &r, &s, Some(true));
        let s2 = rand_below(&mut rng, &c.n);
        decide::<K>(ctx, &c, "final-add-is-doubling-bad", &q, h, &m, &r, &s2, None);
        // u1 G = -u2 Q : the result is the identity, nothing verifies
        let d = (&c.n - &d) % &c.n;
        let q = c.mul_g(&d);
        for s in [s.clone(), rand_below(&mut rng, &c.n), B::one(), e.clone()] {
            if s.is_zero() {
                continue;
            }
            decide::<K>(ctx, &c, "result-is-identity", &q, h, &m, &r, &s, Some(false));
        }
        // for every possible r: identity with r = 1, n-1, x(G), small
        for r2 in [B::one(), &c.n - 1u32, c.g.0.clone().unwrap().0 % &c.n, B::from(2 + rng.below(9))] {
            let d = (&c.n - (&e * inv(&r2) % &c.n)) % &c.n;
            let s = rand_below(&mut rng, &c.n);
            decide::<K>(ctx, &c, "result-is-identity", &c.mul_g(&d), h, &m, &r2, &s, Some(false));
        }
        // chosen R (by x), recover the key: Q = r^-1 (s R - e G)
        let mut xs: Vec<B> = vec![
            &c.n + rng.below(200),                                       // x above the order
            &c.p - 1u32 - rng.below(200),                                // x just below p
            B::from(1 + rng.below(300)),                                 // tiny r
            (B::one() << rng.range(8, 8 * c.len - 1) as u64) - 1u32,     // short r
            &c.n - 1u32 - rng.below(50),
        ];
        xs.push((&c.p - &c.n) - 1u32 - rng.below(100)); // r + n still below p: the other candidate exists
        xs.push((&c.p - &c.n) + rng.below(100)); // r + n just beyond p
        for x in xs {
            let Some(rp) = c.lift_x(&x, rng.bool()) else { continue };
            let Some(r) = nonzero(&x % &c.n) else { continue };
            let s = if rng.bool() { rand_below(&mut rng, &c.n) } else { rng.pick(&ks).clone() };
            let q = c.mul(&inv(&r), &c.add(&c.mul(&s, &rp), &c.neg(&c.mul_g(&e))));
            if q.0.is_none() {
                continue;
            }
            decide::<K>(ctx, &c, "chosen-R", &q, h, &m, &r, &s, Some(true));
            // the unreduced x is not a valid r
            if x >= c.n {
                decide::<K>(ctx, &c, "unreduced-r", &q, h, &m, &x, &s, Some(false));
            } else if &(&x + &c.n) < &c.p {
                // a different point with x + n must not match unless it really does
                decide::<K>(ctx, &c, "r-plus-n", &q, h, &m, &(&x + &c.n), &s, Some(false));
            }
        }
        // chosen u1 and u2
        for _ in 0..4 {
            let u1 = if rng.below(3) == 0 { rand_below(&mut rng, &c.n) } else { rng.pick(&ks).clone() };
            let u2 = if rng.below(3) == 0 { rand_below(&mut rng, &c.n) } else { rng.pick(&ks).clone() };
            let s = &e * inv(&u1) % &c.n;
            let r = &u2 * &s % &c.n;
            let Some(rp) = c.lift_x(&r, rng.bool()) else { continue };
            let q = c.mul(&inv(&u2), &c.add(&rp, &c.neg(&c.mul_g(&u1))));
            if q.0.is_none() || s.is_zero() || r.is_zero() {
                continue;
            }
            decide::<K>(ctx, &c, "chosen-u1-u2", &q, h, &m, &r, &s, Some(true));
        }
        // keys that are small multiples of G, and key = nonce
        for d in [B::one(), B::from(2u32), B::from(3u32), &c.n - 1u32, &c.n - 2u32, k.clone(), &c.n - &k] {
            if let Some((r, s)) = model_sign(&c, &d, &k, &digest(h, &m)) {
                decide::<K>(ctx, &c, "special-key", &c.mul_g(&d), h, &m, &r, &s, Some(true));
            }
        }
        // nonce small: R is a table point
        for kk in [B::one(), B::from(2 + rng.below(70)), &c.n - 1u32, &c.n - 2u32] {
            let d = rand_below(&mut rng, &c.n);
            if let Some((r, s)) = model_sign(&c, &d, &kk, &digest(h, &m)) {
                decide::<K>(ctx, &c, "special-nonce", &c.mul_g(&d), h, &m, &r, &s, Some(true));
            }
        }
    }
    // digests at or above the order, and with leading zero bytes
    for (what, ctr) in SPECIAL {
        let h = match &what[..6] {
            "sha256" => H::S256,
            "sha384" => H::S384,
            _ => H::S512,
        };
        let m = ctr.to_le_bytes();
        for hh in [h, H::S256] {
            for _ in 0..3 {
                let d = rand_below(&mut rng, &c.n);
                let k = rand_below(&mut rng, &c.n);
                let (r, s) = model_sign(&c, &d, &k, &digest(hh, &m)).unwrap();
                decide::<K>(ctx, &c, "special-digest", &c.mul_g(&d), hh, &m, &r, &s, Some(true));
                decide::<K>(ctx, &c, "special-digest", &c.mul_g(&d), hh, &m, &r, &(&s ^ B::one()), None);
            }
        }
    }
}

/// Mutated encodings of a genuine signature: accepted only when strict parsing gives
/// a signature the model accepts.
fn c08_encoding<K: Ka>(ctx: &mut Ctx) {
    let c = K::curve();
    let mut rng = ctx.rng("encoding");
    for round in 0..ctx.n(6, 60) {
        let h = HS[round % 3];
        let d = rand_below(&mut rng, &c.n);
        let m = rng.bytes(30);
        // vary the sizes of r and s: high bit set or not
        let (r, s) = loop {
            let k = rand_below(&mut rng, &c.n);
            let (r, s) = model_sign(&c, &d, &k, &digest(h, &m)).unwrap();
            let hi = |x: &B| x.bit(8 * c.len as u64 - 1);
            if hi(&r) == (round & 1 == 1) && hi(&s) == (round & 2 == 2) {
                break (r, s);
            }
        };
        let q = c.mul_g(&d);
        let key = c.enc(&q);
        let good = der_sig(&r, &s);
        let mut cands: Vec<(String, Vec<u8>)> = vec![("genuine".into(), good.clone())];
        let (ri, si) = (der_int(&r), der_int(&s));
        let body = [ri.clone(), si.clone()].concat();
        let pad = |x: &[u8], n: usize| {
            let mut c = vec![0u8; n];
            c.extend(&x[2..]);
            der_tlv(2, &c)
        };
        for n in [1, 2, 10, 60] {
            cands.push((format!("r padded {n}"), der_tlv(0x30, &[pad(&ri, n), si.clone()].concat())));
            cands.push((format!("s padded {n}"), der_tlv(0x30, &[ri.clone(), pad(&si, n)].concat())));
        }
        // negative / missing leading zero
        let raw = |x: &B| der_tlv(2, &x.to_bytes_be());
        cands.push(("r without sign byte".into(), der_tlv(0x30, &[raw(&r), si.clone()].concat())));
        cands.push(("s without sign byte".into(), der_tlv(0x30, &[ri.clone(), raw(&s)].concat())));
        let neg = |x: &B| der_tlv(2, &be(&((B::one() << (8 * (c.len as u64 + 1))) - x), c.len + 1));
        cands.push(("negative r".into(), der_tlv(0x30, &[neg(&r), si.clone()].concat())));
        cands.push(("negative s".into(), der_tlv(0x30, &[ri.clone(), neg(&s)].concat())));
        // trailing and missing data
        for t in [vec![0u8], vec![5, 0], vec![2, 1, 1], vec![0; 10]] {
            cands.push((format!("trailing {}", hex(&t)), [good.clone(), t.clone()].concat()));
            cands.push((format!("trailing inside {}", hex(&t)), der_tlv(0x30, &[body.clone(), t.clone()].concat())));
        }
        for i in 0..good.len() {
            cands.push((format!("cut at {i}"), good[..i].to_vec()));
        }
        cands.push(("one integer".into(), der_tlv(0x30, &ri)));
        cands.push(("no integer".into(), der_tlv(0x30, &[])));
        cands.push(("three integers".into(), der_tlv(0x30, &[body.clone(), si.clone()].concat())));
        // non-minimal lengths
        let mut v = vec![0x30, 0x81, body.len() as u8];
        v.extend(&body);
        cands.push(("sequence length 81".into(), v));
        let mut v = vec![0x30, 0x82, 0, body.len() as u8];
        v.extend(&body);
        cands.push(("sequence length 82".into(), v));
        let mut v = vec![0x30, 0x84, 0, 0, 0, body.len() as u8];
        v.extend(&body);
        cands.push(("sequence length 84".into(), v));
        let mut v = vec![0x30, 0x80];
        v.extend(&body);
        v.extend([0, 0]);
        cands.push(("indefinite".into(), v));
        for (nm, a, b2) in [("r", true, false), ("s", false, true)] {
            let lf = |x: &[u8], on: bool| {
                if on {
                    let mut v = vec![2, 0x81, x.len() as u8 - 2];
                    v.extend(&x[2..]);
                    v
                } else {
                    x.to_vec()
                }
            };
            cands.push((format!("{nm} length 81"), der_tlv(0x30, &[lf(&ri, a), lf(&si, b2)].concat())));
        }
        // every byte of the structure altered
        for i in 0..good.len() {
            for _ in 0..2 {
                let mut g = good.clone();
                g[i] ^= 1 << rng.below(8);
                cands.push((format!("byte {i} altered"), g));
            }
        }
        for i in [0usize, 1, 2, 3, 2 + ri.len(), 3 + ri.len()] {
            for v in 0..=255u8 {
                let mut g = good.clone();
                g[i] = v;
                cands.push((format!("byte {i} = {v}"), g));
            }
        }
        for (what, sig) in cands {
            let want = match strict_sig(&sig) {
                Some((r2, s2)) => {
                    if r2 == r && s2 == s {
                        true
                    } else {
                        c.verify(&q, &digest(h, &m), &r2, &s2)
                    }
                }
                None => false,
            };
            ctx.case("der", format!("{} {what} {}", c.name, hex(&sig)));
            ctx.observe(if want { "model-valid" } else { "model-invalid" }, 1);
            if let Some(g) = ctx.call("verify_asn1", || real_verify::<K>(&key, h, &[&m], &sig, true)) {
                ctx.check(g.is_ok() == want, if want { "valid-rejected" } else { "malformed-accepted" }, || {
                    format!("{what}: {} got {g:?}, expected valid={want}", hex(&sig))
                });
            }
        }
        // fixed-width form: every other length
        let fixed = [c.be(&r), c.be(&s)].concat();
        for l in 0..=fixed.len() + 40 {
            if l == fixed.len() {
                continue;
            }
            for lead in [false, true] {
                let mut v = fixed.clone();
                if lead && l > fixed.len() {
                    v = vec![0; l - fixed.len()];
                    v.extend(&fixed);
                } else if lead {
                    v = fixed[fixed.len() - l..].to_vec();
                } else {
                    v.resize(l, 0);
                }
                ctx.case("fixed-length", format!("{} len {l} lead {lead} {}", c.name, hex(&v)));
                if let Some(g) = ctx.call("verify", || real_verify::<K>(&key, h, &[&m], &v, false)) {
                    ctx.check(g.is_err(), "wrong-length-accepted", || format!("length {l} accepted"));
                }
            }
        }
        // r and s each widened inside (both 1 byte longer)
        let v = [vec![0], c.be(&r), vec![0], c.be(&s)].concat();
        ctx.case("fixed-length", format!("{} widened {}", c.name, hex(&v)));
        if let Some(g) = ctx.call("verify", || real_verify::<K>(&key, h, &[&m], &v, false)) {
            ctx.check(g.is_err(), "wrong-length-accepted", || "widened accepted".into());
        }
        if !ctx.more() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C09

pub fn jobs_c09(_t: bool) -> Vec<Job> {
    vec![("p256", "native", 6), ("p384", "native", 7), ("nonce256", "native", 2), ("nonce384", "native", 2)]
}

pub fn run_c09(ctx: &mut Ctx) {
    match ctx.section.as_str() {
        "p256" => c09::<K256>(ctx),
        "p384" => c09::<K384>(ctx),
        "nonce256" => c09_nonce::<K256>(ctx),
        "nonce384" => c09_nonce::<K384>(ctx),
        s => panic!("section {s}"),
    }
}

pub fn real_sign<K: Ka>(sk: &ecdsa::SigningKey<K::Sig>, h: H, m: &[&[u8]], out: &mut [u8], der: bool) -> Result<Vec<u8>, Error> {
    match (h, der) {
        (H::S256, false) => sk.sign::<Sha256>(m, out).map(|x| x.to_vec()),
        (H::S384, false) => sk.sign::<Sha384>(m, out).map(|x| x.to_vec()),
        (_, false) => sk.sign::<Sha512>(m, out).map(|x| x.to_vec()),
        (H::S256, true) => sk.sign_asn1::<Sha256>(m, out).map(|x| x.to_vec()),
        (H::S384, true) => sk.sign_asn1::<Sha384>(m, out).map(|x| x.to_vec()),
        (_, true) => sk.sign_asn1::<Sha512>(m, out).map(|x| x.to_vec()),
    }
}

fn parts<'a>(rng: &mut Rng, m: &'a [u8]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut p = 0;
    while p < m.len() {
        let n = rng.below(m.len() - p + 1);
        v.push(&m[p..p + n]);
        p += n;
        if v.len() > 6 {
            v.push(&m[p..]);
            break;
        }
    }
    v
}

fn c09<K: Ka>(ctx: &mut Ctx) {
    let c = K::curve();
    let mut rng = ctx.rng("c09");
    let ks = edge_scalars(&mut rng, &c.n, 30);
    let check = |ctx: &mut Ctx, d: &B, q: &Pt, h: H, m: &[u8], r: &B, s: &B, full: bool| {
        let range = !r.is_zero() && !s.is_zero() && r < &c.n && s < &c.n;
        if !ctx.check(range, "signature-range", || format!("r={r:x} s={s:x} out of range")) {
            return;
        }
        let e = digest(h, m);
        let ok = if full {
            c.verify(q, &e, r, s)
        } else {
            // k = (e + r d)/s, and x(kG) = r
            let k = (c.hash_int(&e) + r * d) * c.inv(s, &c.n) % &c.n;
            match c.mul_g(&k).0 {
                Some((x, _)) => &(x % &c.n) == r,
                None => false,
            }
        };
        ctx.check(ok, "invalid-signature", || format!("signature r={r:x} s={s:x} does not verify (d={d:x})"));
    };
    for round in 0..ctx.n(260, 8000) {
        if !ctx.more() {
            return;
        }
        let h = HS[round % 3];
        let d = if rng.below(2) == 0 { rng.pick(&ks).clone() } else { rand_below(&mut rng, &c.n) };
        let m = if round % 40 == 7 {
            let (_, ctr) = rng.pick(SPECIAL);
            ctr.to_le_bytes().to_vec()
        } else {
            let ml = rng.below(300);
            rng.bytes(ml)
        };
        let q = c.mul_g(&d);
        let ps = parts(&mut rng, &m);
        ctx.case("sign", format!("{} {} d={d:x} m={} parts={}", c.name, h.name(), hexs(&m), ps.len()));
        let Some(Ok(sk)) = ctx.call("key", || K::signer(&c.be(&d))) else { continue };
        let mut out = vec![0x5au8; 2 * c.len + rng.below(20)];
        match ctx.call("sign", || real_sign::<K>(&sk, h, &ps, &mut out, false)) {
            Some(Ok(sig)) => {
                if ctx.check(sig.len() == 2 * c.len, "fixed-length", || format!("length {}", sig.len())) {
                    check(ctx, &d, &q, h, &m, &B::from_bytes_be(&sig[..c.len]), &B::from_bytes_be(&sig[c.len..]), round % 8 == 0);
                }
            }
            Some(Err(e)) => ctx.fail("sign-error", format!("{e:?}")),
            None => {}
        }
        let mut out = vec![0x5au8; 2 * c.len + 9 + rng.below(20)];
        match ctx.call("sign_asn1", || real_sign::<K>(&sk, h, &ps, &mut out, true)) {
            Some(Ok(sig)) => match strict_sig(&sig) {
                Some((r, s)) => {
                    ctx.eq("der-canonical", &sig, &der_sig(&r, &s));
                    check(ctx, &d, &q, h, &m, &r, &s, round % 8 == 1);
                }
                None => ctx.fail("der-malformed", format!("not strict DER: {}", hex(&sig))),
            },
            Some(Err(e)) => ctx.fail("sign-error", format!("{e:?}")),
            None => {}
        }
        // too small a buffer is an error; one exactly large enough is fine
        let small = rng.below(2 * c.len);
        let mut buf = vec![0u8; small];
        if let Some(r) = ctx.call("sign", || real_sign::<K>(&sk, h, &ps, &mut buf, false)) {
            ctx.check(r.is_err(), "short-buffer", || format!("buffer of {small} accepted"));
        }
        let mut buf = vec![0u8; 2 * c.len];
        if let Some(r) = ctx.call("sign", || real_sign::<K>(&sk, h, &ps, &mut buf, false)) {
            ctx.check(r.is_ok(), "exact-buffer", || format!("{r:?}"));
        }
    }
    // bulk: strict DER form and fixed form of many signatures, looking for short r or s;
    // every one with an unusual length is verified by the model
    let d = rand_below(&mut rng, &c.n);
    let q = c.mul_g(&d);
    let sk = K::signer(&c.be(&d)).unwrap();
    let mut short = 0;
    for i in 0..ctx.n(8000, 300_000) {
        if !ctx.more() {
            return;
        }
        let h = HS[i % 3];
        let m = (i as u64).to_be_bytes();
        ctx.case("bulk", format!("{} {} d={d:x} m={i}", c.name, h.name()));
        let mut out = [0u8; 120];
        match ctx.call("sign_asn1", || real_sign::<K>(&sk, h, &[&m], &mut out, true)) {
            Some(Ok(sig)) => match strict_sig(&sig) {
                Some((r, s)) => {
                    ctx.eq("der-canonical", &sig, &der_sig(&r, &s));
                    let tiny = r.bits() <= 8 * (c.len as u64 - 1) || s.bits() <= 8 * (c.len as u64 - 1);
                    if tiny || i % 64 == 0 {
                        short += tiny as u64;
                        check(ctx, &d, &q, h, &m, &r, &s, false);
                    }
                    // an exactly sized buffer suffices, one byte less does not (same nonce inputs not needed)
                    if tiny && i % 2 == 0 {
                        ctx.observe("short-component", 1);
                    }
                }
                None => ctx.fail("der-malformed", format!("not strict DER: {}", hex(&sig))),
            },
            Some(Err(e)) => ctx.fail("sign-error", format!("{e:?}")),
            None => {}
        }
    }
    ctx.observe("signatures-with-short-r-or-s", short);
    // DER output buffers: under a constant RNG the signature is a function of its inputs,
    // so every buffer size can be tried on the same signature
    for i in 0..ctx.n(12, 200) {
        let h = HS[i % 3];
        let m = rng.bytes(12);
        rngctl::reset(1, Mode::Const(7));
        let mut big = [0u8; 160];
        let Some(Ok(sig)) = ctx.call("sign_asn1", || real_sign::<K>(&sk, h, &[&m], &mut big, true)) else { continue };
        for l in 0..sig.len() + 10 {
            ctx.case("der-buffer", format!("{} {} m={} len={l} sig={}", c.name, h.name(), hex(&m), sig.len()));
            let mut buf = vec![0xeeu8; l];
            match ctx.call("sign_asn1", || real_sign::<K>(&sk, h, &[&m], &mut buf, true)) {
                Some(Ok(s2)) => {
                    // must be a complete valid signature in any case
                    match strict_sig(&s2) {
                        Some((r, s)) if l >= sig.len() => {
                            if s2 != sig {
                                check(ctx, &d, &q, h, &m, &r, &s, false)
                            }
                        }
                        Some((r, s)) => check(ctx, &d, &q, h, &m, &r, &s, false),
                        None => ctx.fail("der-truncated", format!("buffer of {l}: {}", hex(&s2))),
                    }
                }
                Some(Err(_)) => {
                    ctx.check(l < sig.len(), "buffer-refused", || format!("{l} byte buffer refused for {} byte signature", sig.len()));
                    let part = sig.windows(8).any(|w| buf.windows(8).any(|b| b == w));
                    ctx.check(!part, "partial-signature", || format!("buffer of {l} refused, but holds {}", hex(&buf)));
                }
                None => {}
            }
        }
        rngctl::reset(1, Mode::Const(7));
        let mut big = [0u8; 160];
        let Some(Ok(sig)) = ctx.call("sign", || real_sign::<K>(&sk, h, &[&m], &mut big, false)) else { continue };
        for l in 0..sig.len() {
            ctx.case("fixed-buffer", format!("{} {} m={} len={l}", c.name, h.name(), hex(&m)));
            let mut buf = vec![0xeeu8; l];
            if let Some(r) = ctx.call("sign", || real_sign::<K>(&sk, h, &[&m], &mut buf, false)) {
                ctx.check(r.is_err(), "short-buffer", || format!("buffer of {l} accepted"));
                let part = sig.windows(8).any(|w| buf.windows(8).any(|b| b == w));
                ctx.check(!part, "partial-signature", || format!("buffer of {l} refused, but holds {}", hex(&buf)));
            }
        }
        rngctl::reset(ctx.seed, Mode::Stream);
    }
}

/// Recover the nonce of every signature and look for repeats and near-repeats.
fn c09_nonce<K: Ka>(ctx: &mut Ctx) {
    let c = K::curve();
    let mut rng = ctx.rng("nonce");
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    let mut all: Vec<B> = vec![];
    let modes: Vec<(String, Mode)> = vec![
        ("stream".into(), Mode::Stream),
        ("zero".into(), Mode::Const(0)),
        ("ff".into(), Mode::Const(0xff)),
        ("repeat".into(), Mode::Repeat(99)),
    ];
    // keys: related ones too (d, d+1, n-d, 2d, small)
    let d0 = rand_below(&mut rng, &c.n);
    let mut keys = vec![B::one(), B::from(2u32), B::from(3u32), d0.clone(), (&d0 + 1u32) % &c.n, &c.n - &d0, (&d0 * 2u32) % &c.n, &c.n - 1u32];
    // keys differing only in one byte
    for i in [0u64, 8, 64, 100, 8 * c.len as u64 - 20] {
        keys.push((&d0 ^ (B::one() << i)) % &c.n);
    }
    for d in &keys {
        let sk = K::signer(&c.be(d)).unwrap();
        // messages: empty, prefixes, one-bit differences, long, sharing beginnings and ends
        let mut msgs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], b"a".to_vec(), b"b".to_vec()];
        let base = rng.bytes(64);
        for i in 0..ctx.n(10, 60) {
            let mut m = base.clone();
            m[i % 64] ^= 1 << (i / 64 % 8);
            msgs.push(m);
            msgs.push(base[..i % 64].to_vec());
            msgs.push((i as u32).to_be_bytes().to_vec());
        }
        for (_, ctr) in SPECIAL {
            msgs.push(ctr.to_le_bytes().to_vec());
        }
        msgs.sort();
        msgs.dedup();
        for m in &msgs {
            for h in HS {
                for (mn, mode) in &modes {
                    if !ctx.more() {
                        return;
                    }
                    // constant modes restart so their output is the same on each call
                    if !matches!(mode, Mode::Stream) {
                        rngctl::reset(5, mode.clone());
                    } else {
                        rngctl::reset(rng.u64(), Mode::Stream);
                    }
                    rngctl::with(|s| s.keep_log = false);
                    ctx.case("nonce", format!("{} {} rng={mn} d={d:x} m={}", c.name, h.name(), hexs(m)));
                    let mut out = [0u8; 96];
                    let Some(Ok(sig)) = ctx.call("sign", || real_sign::<K>(&sk, h, &[m], &mut out, false)) else {
                        continue;
                    };
                    let (r, s) = (B::from_bytes_be(&sig[..c.len]), B::from_bytes_be(&sig[c.len..]));
                    if r.is_zero() || s.is_zero() {
                        ctx.fail("signature-range", "zero component".into());
                        continue;
                    }
                    let e = digest(h, m);
                    let k = (c.hash_int(&e) + &r * d) * c.inv(&s, &c.n) % &c.n;
                    // fold the sign: k and n-k give the same r
                    let kk = if k.bit(0) { k.clone() } else { &c.n - &k };
                    let id = format!("d={d:x} e={}", hex(&e));
                    let label = format!("{id} rng={mn}");
                    let what = c.be(&kk);
                    if let Some(prev) = seen.get(&what) {
                        let same_input = prev.starts_with(&format!("{id} "));
                        ctx.check(same_input, "nonce-reuse", || format!("nonce {kk:x} of [{label}] was used before by [{prev}]"));
                    } else {
                        seen.insert(what, label);
                        all.push(k.clone());
                    }
                    ctx.check(k.bits() > c.n.bits() - 70, "nonce-small", || format!("nonce {k:x} is small"));
                }
            }
        }
    }
    ctx.observe("distinct-nonces", all.len() as u64);
    // neighbours: nonces that differ by a small integer are related
    all.sort();
    let lim = B::one() << (c.n.bits() - 90);
    for w in all.windows(2) {
        if &w[1] - &w[0] < lim {
            ctx.fail("nonce-related", format!("nonces {:x} and {:x} are close", w[0], w[1]));
        }
    }
    // shared high or low halves would be a bias
    for sh in [false, true] {
        let mut halves: HashMap<B, B> = HashMap::new();
        let mid = c.n.bits() / 2;
        for k in &all {
            let half = if sh { k >> mid } else { k % (B::one() << mid) };
            if let Some(o) = halves.insert(half, k.clone()) {
                ctx.fail("nonce-related", format!("nonces {o:x} and {k:x} share half of their bits"));
            }
        }
    }
    // message partition does not matter under a fixed RNG
    for i in 0..ctx.n(60, 1000) {
        let m = rng.bytes(80);
        let h = HS[i % 3];
        let sk = K::signer(&c.be(&d0)).unwrap();
        let ps = parts(&mut rng, &m);
        let (mut o1, mut o2) = ([0u8; 96], [0u8; 96]);
        ctx.case("partition", format!("{} {} m={} parts={}", c.name, h.name(), hex(&m), ps.len()));
        rngctl::reset(5, Mode::Const(1));
        let a = real_sign::<K>(&sk, h, &[&m], &mut o1, false);
        rngctl::reset(5, Mode::Const(1));
        let b2 = real_sign::<K>(&sk, h, &ps, &mut o2, false);
        if let (Ok(a), Ok(b2)) = (a, b2) {
            // both must be valid for the same message; equality is expected as the inputs are equal
            let e = digest(h, &m);
            for sig in [a, b2] {
                let (r, s) = (B::from_bytes_be(&sig[..c.len]), B::from_bytes_be(&sig[c.len..]));
                let k = (c.hash_int(&e) + &r * &d0) * c.inv(&s, &c.n) % &c.n;
                let ok = c.mul_g(&k).0.is_some_and(|(x, _)| x % &c.n == r);
                ctx.check(ok, "partition-changes-message", || format!("signature {} invalid", hex(&sig)));
            }
        } else {
            ctx.fail("sign-error", "signing failed".into());
        }
    }
}
