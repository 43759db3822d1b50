//! C06 X25519, C07 invalid public keys, C10 Ed25519.
use crate::Job;
use crate::ecref::{self, B, edge_scalars, rand_below};
use crate::nist::{self, K256, K384, Ka};
use curve25519_dalek::constants::EIGHT_TORSION;
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use graviola::Error;
use graviola::key_agreement::{mlkem768, x25519};
use graviola::signing::ecdsa;
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use harness::*;
use num_traits::{One, Zero};
use sha2::Digest;

// ---- big-integer model of curve25519, from RFC 7748 / RFC 8032 ----

pub struct F {
    pub p: B,
    pub l: B,
    pub d: B,
    sqrtm1: B,
}

pub fn le32(x: &B) -> [u8; 32] {
    let mut o = [0u8; 32];
    let v = x.to_bytes_le();
    o[..v.len()].copy_from_slice(&v);
    o
}

impl F {
    pub fn new() -> Self {
        let p = (B::one() << 255) - 19u32;
        let l = (B::one() << 252) + B::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap();
        let inv = |x: &B| x.modpow(&(&p - 2u32), &p);
        let d = (&p - 121665u32) * inv(&B::from(121666u32)) % &p;
        let sqrtm1 = B::from(2u32).modpow(&((&p - 1u32) >> 2), &p);
        Self { p, l, d, sqrtm1 }
    }
    fn inv(&self, x: &B) -> B {
        x.modpow(&(&self.p - 2u32), &self.p)
    }
    fn sub(&self, a: &B, c: &B) -> B {
        (a + &self.p - (c % &self.p)) % &self.p
    }
    /// RFC 7748 ladder for an arbitrary scalar, on a coordinate below 2^255
    pub fn ladder(&self, k: &B, u: &B) -> B {
        let p = &self.p;
        let x1 = u % p;
        let (mut x2, mut z2, mut x3, mut z3) = (B::one(), B::zero(), x1.clone(), B::one());
        for t in (0..256u64).rev() {
            let bit = k.bit(t);
            if bit {
                std::mem::swap(&mut x2, &mut x3);
                std::mem::swap(&mut z2, &mut z3);
            }
            let a = (&x2 + &z2) % p;
            let aa = &a * &a % p;
            let b = self.sub(&x2, &z2);
            let bb = &b * &b % p;
            let e = self.sub(&aa, &bb);
            let c = (&x3 + &z3) % p;
            let d = self.sub(&x3, &z3);
            let da = d * a % p;
            let cb = c * b % p;
            let s = (&da + &cb) % p;
            x3 = &s * &s % p;
            let s = self.sub(&da, &cb);
            z3 = &s * &s % p * &x1 % p;
            x2 = &aa * &bb % p;
            z2 = &e * (&aa + &e * 121665u32) % p;
            if bit {
                std::mem::swap(&mut x2, &mut x3);
                std::mem::swap(&mut z2, &mut z3);
            }
        }
        x2 * self.inv(&z2) % p
    }
    pub fn x25519(&self, k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
        let (mut k, mut u) = (*k, *u);
        k[0] &= 248;
        k[31] &= 127;
        k[31] |= 64;
        u[31] &= 127;
        le32(&self.ladder(&B::from_bytes_le(&k), &B::from_bytes_le(&u)))
    }
    /// RFC 8032 5.1.3 decoding, strict: None if not canonical or not on the curve
    pub fn decode(&self, b: &[u8; 32]) -> Option<(B, B)> {
        let p = &self.p;
        let sign = b[31] >> 7 == 1;
        let mut c = *b;
        c[31] &= 127;
        let y = B::from_bytes_le(&c);
        if &y >= p {
            return None;
        }
        let yy = &y * &y % p;
        let u = self.sub(&yy, &B::one());
        let v = (&self.d * &yy + 1u32) % p;
        let xx = u * self.inv(&v) % p;
        let mut x = xx.modpow(&((p + 3u32) >> 3), p);
        if &x * &x % p != xx {
            x = x * &self.sqrtm1 % p;
        }
        if &x * &x % p != xx {
            return None;
        }
        if x.is_zero() && sign {
            return None;
        }
        if x.bit(0) != sign {
            x = p - x;
        }
        Some((x, y))
    }
    fn ed_add(&self, a: &(B, B), b: &(B, B)) -> (B, B) {
        let p = &self.p;
        let t = &self.d * (&a.0 * &b.0 % p) % p * (&a.1 * &b.1 % p) % p;
        let x = (&a.0 * &b.1 + &a.1 * &b.0) % p * self.inv(&((B::one() + &t) % p)) % p;
        let y = (&a.1 * &b.1 + &a.0 * &b.0) % p * self.inv(&self.sub(&B::one(), &t)) % p;
        (x, y)
    }
    fn ed_mul(&self, k: &B, a: &(B, B)) -> (B, B) {
        let mut r = (B::zero(), B::one());
        for i in (0..k.bits()).rev() {
            r = self.ed_add(&r, &r);
            if k.bit(i) {
                r = self.ed_add(&r, a);
            }
        }
        r
    }
    fn ed_enc(&self, a: &(B, B)) -> [u8; 32] {
        let mut o = le32(&a.1);
        if a.0.bit(0) {
            o[31] |= 0x80;
        }
        o
    }
}

// ---- C06 ----

pub fn jobs_c06(_t: bool) -> Vec<Job> {
    vec![("edge", "native", 8), ("steer", "native", 8), ("rand", "native", 8)]
}

fn low_order_u(f: &F) -> Vec<B> {
    let p = &f.p;
    let mut v = vec![
        B::zero(),
        B::one(),
        p - 1u32,
        B::parse_bytes(b"325606250916557431795983626356110631294008115727848805560023387167927233504", 10).unwrap(),
        B::parse_bytes(b"39382357235489614581723060781553021112529911719440698176882885853963445705823", 10).unwrap(),
    ];
    for x in v.clone() {
        let y = x + p;
        if y < (B::one() << 255) {
            v.push(y);
        }
    }
    v
}

fn clamp(k: &[u8; 32]) -> [u8; 32] {
    let mut k = *k;
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    k
}

fn xcase(ctx: &mut Ctx, f: &F, class: &str, k: &[u8; 32], u: &[u8; 32], slow: bool) {
    ctx.case(class, format!("k={} u={}", hex(k), hex(u)));
    let fast = x25519_dalek::x25519(*k, *u);
    let want = if slow {
        let w = f.x25519(k, u);
        if w != fast {
            panic!("the two reference implementations disagree: {} {}", hex(&w), hex(&fast));
        }
        w
    } else {
        fast
    };
    let Some(sk) = ctx.call("x25519", || x25519::StaticPrivateKey::try_from_slice(&k[..]).unwrap()) else { return };
    let by_slice = k[0] & 8 == 0;
    let pk = if by_slice { x25519::PublicKey::try_from_slice(&u[..]).unwrap() } else { x25519::PublicKey::from_array(u) };
    ctx.eq("pub-roundtrip", &pk.as_bytes(), u);
    let Some(r) = ctx.call("x25519", || sk.diffie_hellman(&pk)) else { return };
    match r {
        Ok(ss) => {
            if want == [0; 32] {
                ctx.fail("zero-accepted", format!("all-zero result returned as Ok({})", hex(&ss.0)));
            } else {
                ctx.eq("secret", &ss.0, &want);
                ctx.eq("secret-as-bytes", &ss.as_bytes(), &want);
            }
        }
        Err(e) => {
            if want != [0; 32] {
                ctx.fail("refused", format!("{e:?} but the result is {}", hex(&want)));
            } else {
                ctx.observe("zero result refused", 1);
                ctx.check(e == Error::NotOnCurve, "zero-error", || format!("{e:?}"));
            }
        }
    }
}

fn xpub(ctx: &mut Ctx, f: &F, class: &str, k: &[u8; 32], slow: bool) {
    ctx.case(class, format!("k={}", hex(k)));
    let nine = le32(&B::from(9u32));
    let want = x25519_dalek::x25519(*k, nine);
    if slow && f.x25519(k, &nine) != want {
        panic!("the two reference implementations disagree");
    }
    let sk = x25519::StaticPrivateKey::from_array(k);
    if let Some(p) = ctx.call("x25519base", || sk.public_key()) {
        ctx.eq("public", &p.as_bytes(), &want);
    }
    ctx.eq("private-roundtrip", &sk.as_bytes(), k);
    // the general routine on the base point must agree with the table routine
    if k[1] & 3 == 0 {
        if let Some(Ok(s)) = ctx.call("x25519", || sk.diffie_hellman(&x25519::PublicKey::from_array(&nine))) {
            ctx.eq("base by general routine", &s.0, &want);
        }
    }
}

pub fn run_c06(ctx: &mut Ctx) {
    let f = F::new();
    let mut r = ctx.rng("x");
    let top = B::one() << 255;
    match ctx.section.as_str() {
        "edge" => {
            // private keys of wrong length
            if ctx.mine(0) {
                for n in (0..100).filter(|n| *n != 32) {
                    ctx.case("wrong length", format!("{n}"));
                    let b = r.bytes(n);
                    let e = ctx.call("len", || x25519::StaticPrivateKey::try_from_slice(&b).err());
                    ctx.check(e == Some(Some(Error::WrongLength)), "len", || format!("{e:?}"));
                    let e = ctx.call("len", || x25519::PublicKey::try_from_slice(&b).err());
                    ctx.check(e == Some(Some(Error::WrongLength)), "len", || format!("{e:?}"));
                }
            }
            let mut us: Vec<B> = low_order_u(&f);
            for i in 0..40u32 {
                us.push(B::from(i));
                us.push(&f.p - 20u32 + i);
                us.push(&f.p - 1u32 - i);
                us.push(&top - 1u32 - i);
            }
            us.extend(edge_scalars(&mut Rng::new(3), &f.p, 300));
            us.retain(|u| u < &top);
            us.sort();
            us.dedup();
            let mut ks: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32]];
            for k in edge_scalars(&mut Rng::new(4), &top, 300) {
                ks.push(le32(&k));
            }
            for k in edge_scalars(&mut Rng::new(5), &f.l, 100) {
                // k*8 or k itself, also as multiples of the order
                ks.push(le32(&k));
                ks.push(le32(&((k * 8u32) % &top)));
            }
            for (i, u) in us.iter().enumerate() {
                if !ctx.mine(i) || !ctx.more() {
                    continue;
                }
                for hi in [0u8, 0x80] {
                    let mut ub = le32(u);
                    ub[31] |= hi;
                    for j in 0..ctx.n(6, 60) {
                        let k = if j < 3 { ks[r.below(ks.len())] } else { r.arr() };
                        xcase(ctx, &f, "edge coordinate", &k, &ub, j == 0);
                    }
                }
            }
            for (i, k) in ks.iter().enumerate() {
                if !ctx.mine(i) || !ctx.more() {
                    continue;
                }
                xpub(ctx, &f, "edge scalar public key", k, i % 16 == ctx.shard);
                for _ in 0..ctx.n(2, 20) {
                    let u = if r.bool() { r.arr() } else { le32(&us[r.below(us.len())]) };
                    xcase(ctx, &f, "edge scalar", k, &u, false);
                }
            }
        }
        "steer" => {
            // results with unusual coordinates: choose the result, invert the scalar
            let mut ts: Vec<B> = vec![];
            for i in 0..400u32 {
                ts.push(B::from(2 + i));
                ts.push(&f.p - 2u32 - i);
            }
            ts.extend(edge_scalars(&mut Rng::new(6), &f.p, 200));
            let (mut n, mut seen) = (0, 0);
            for (i, t) in ts.iter().enumerate() {
                if !ctx.mine(i) || !ctx.more() {
                    continue;
                }
                if n >= ctx.n(100, 1000) {
                    break;
                }
                // in the prime-order subgroup of the curve or of its twist?
                let tw = (B::one() << 253) - B::parse_bytes(b"55484635554744707071703875581767296995", 10).unwrap();
                let order = if f.ladder(&f.l, t).is_zero() {
                    f.l.clone()
                } else if f.ladder(&tw, t).is_zero() {
                    tw
                } else {
                    continue;
                };
                n += 1;
                for _ in 0..ctx.n(4, 30) {
                    let k: [u8; 32] = r.arr();
                    let kc = B::from_bytes_le(&clamp(&k));
                    let Some(ki) = kc.modinv(&order) else { continue };
                    let u = f.ladder(&ki, t);
                    xcase(ctx, &f, "chosen result", &k, &le32(&u), false);
                    seen += 1;
                }
            }
            ctx.observe("results chosen near 0 and p", seen);
        }
        "rand" => {
            for i in 0..ctx.n(12_000, 600_000) {
                if !ctx.more() {
                    break;
                }
                let k: [u8; 32] = if i % 4 == 0 { r.biased(32).try_into().unwrap() } else { r.arr() };
                let u: [u8; 32] = if i % 4 == 1 { r.biased(32).try_into().unwrap() } else { r.arr() };
                xcase(ctx, &f, "random pair", &k, &u, i % 500 == 0);
                xpub(ctx, &f, "random public key", &k, i % 500 == 0);
                if i % 8 == 0 {
                    // two parties, ephemeral keys
                    ctx.case("exchange", format!("#{i} of shard {}", ctx.shard));
                    rngctl::with(|s| s.keep_log = true);
                    rngctl::take_log();
                    let a = x25519::PrivateKey::new_random().unwrap();
                    let b = x25519::PrivateKey::new_random().unwrap();
                    let log = rngctl::take_log();
                    rngctl::with(|s| s.keep_log = false);
                    let (pa, pb) = (a.public_key(), b.public_key());
                    let bytes: Vec<u8> = log.concat();
                    if bytes.len() == 64 {
                        let w = x25519_dalek::x25519(bytes[..32].try_into().unwrap(), le32(&B::from(9u32)));
                        ctx.eq("ephemeral public key", &pa.as_bytes(), &w);
                    }
                    let Some(x) = ctx.call("dh", || a.diffie_hellman(&pb)) else { continue };
                    let Some(y) = ctx.call("dh", || b.diffie_hellman(&pa)) else { continue };
                    match (x, y) {
                        (Ok(x), Ok(y)) => {
                            ctx.eq("both parties", &x.0, &y.0);
                        }
                        _ => ctx.fail("exchange", "refused".into()),
                    }
                }
            }
        }
        s => panic!("section {s}"),
    }
}

// ---- C07 ----

pub fn jobs_c07(_t: bool) -> Vec<Job> {
    vec![("p256", "native", 4), ("p384", "native", 4), ("ed25519", "native", 4), ("mlkem", "native", 4)]
}

fn nist_point<K: Ka>(ctx: &mut Ctx, c: &ecref::Curve, class: &str, enc: &[u8]) {
    ctx.case(class, format!("{} {}", c.name, hexs(enc)));
    let ok = enc.len() == 1 + 2 * c.len && enc[0] == 4 && {
        let x = B::from_bytes_be(&enc[1..1 + c.len]);
        let y = B::from_bytes_be(&enc[1 + c.len..]);
        c.on_curve(&x, &y)
    };
    ctx.observe(if ok { "valid point offered" } else { "invalid point offered" }, 1);
    let got = ctx.call("agreement", || K::pub_from(enc));
    match got {
        Some(Ok(p)) => {
            if ctx.check(ok, "accepted", || "key agreement accepted an invalid public key".into()) {
                ctx.eq("reencode", &K::pub_bytes(&p), enc);
            }
        }
        Some(Err(e)) => {
            ctx.check(!ok, "refused", || format!("key agreement refused a valid public key: {e:?}"));
        }
        None => {}
    }
    let got = ctx.call("verify-key", || ecdsa::VerifyingKey::<K::Sig>::from_x962_uncompressed(enc).map(|_| ()));
    if let Some(g) = got {
        ctx.check(g.is_ok() == ok, if ok { "refused" } else { "accepted" }, || format!("signature verification key: {g:?}, valid {ok}"));
    }
}

fn c07_nist<K: Ka>(ctx: &mut Ctx) {
    let c = K::curve();
    let mut r = ctx.rng("k");
    let max = B::one() << (8 * c.len);
    let enc = |x: &B, y: &B| {
        let mut v = vec![4];
        v.extend(ecref::be(x, c.len));
        v.extend(ecref::be(y, c.len));
        v
    };
    let pts = nist::edge_points(&mut Rng::new(9), &c, 40);
    // coordinates out of range: small coordinates plus p, in x, in y, in both
    let mut small: Vec<(B, B)> = vec![];
    for i in 0..400u32 {
        if let Some(q) = c.lift_x(&B::from(i), i % 2 == 0) {
            small.push(q.0.unwrap());
        }
    }
    for y in 0..40u32 {
        for x in c.lift_y(&B::from(y)) {
            small.push((x, B::from(y)));
        }
    }
    for _ in 0..ctx.n(60, 2000) {
        let x = rand_below(&mut r, &(&max - &c.p));
        if let Some(q) = c.lift_x(&x, r.bool()) {
            small.push(q.0.unwrap());
        }
    }
    for (i, (x, y)) in small.iter().enumerate() {
        if !ctx.mine(i) || !ctx.more() {
            continue;
        }
        nist_point::<K>(ctx, &c, "valid", &enc(x, y));
        for (dx, dy) in [(1u32, 0u32), (0, 1), (1, 1)] {
            let (x2, y2) = (x + &c.p * dx, y + &c.p * dy);
            if x2 < max && y2 < max {
                nist_point::<K>(ctx, &c, "coordinate above p", &enc(&x2, &y2));
            }
        }
        nist_point::<K>(ctx, &c, "off curve", &enc(x, &((y + 1u32) % &c.p)));
        nist_point::<K>(ctx, &c, "swapped", &enc(y, x));
        nist_point::<K>(ctx, &c, "negated", &enc(x, &((&c.p - y) % &c.p)));
    }
    for (i, q) in pts.iter().enumerate() {
        if !ctx.mine(i) || !ctx.more() {
            continue;
        }
        let e = c.enc(q);
        nist_point::<K>(ctx, &c, "valid", &e);
        let (x, y) = q.0.clone().unwrap();
        for t in 0..=255u8 {
            if t != 4 && (i < 8 || t < 9) {
                let mut v = e.clone();
                v[0] = t;
                nist_point::<K>(ctx, &c, "other form byte", &v);
            }
        }
        // compressed and hybrid encodings
        let s = y.bit(0) as u8;
        for form in [2 + s, 3 - s] {
            let mut v = vec![form];
            v.extend(c.be(&x));
            nist_point::<K>(ctx, &c, "compressed", &v);
            let mut v = e.clone();
            v[0] = form + 4;
            nist_point::<K>(ctx, &c, "hybrid", &v);
        }
        // raw without form byte, truncated, extended
        nist_point::<K>(ctx, &c, "no form byte", &e[1..]);
        if i < 40 {
            for n in 0..e.len() {
                nist_point::<K>(ctx, &c, "truncated", &e[..n]);
            }
            for n in 1..20 {
                let mut v = e.clone();
                v.extend(std::iter::repeat_n(if n % 2 == 0 { 0 } else { r.u64() as u8 }, n));
                nist_point::<K>(ctx, &c, "extended", &v);
            }
        }
        // every single-bit neighbour
        if i < ctx.n(12, 200) {
            for bit in 0..8 * e.len() {
                let mut v = e.clone();
                v[bit / 8] ^= 1 << (bit % 8);
                nist_point::<K>(ctx, &c, "bit flip", &v);
            }
        }
    }
    // points on other curves with the same a: (x,y) satisfying y^2 = x^3-3x+b'
    for i in 0..ctx.n(2500, 100_000) {
        if !ctx.more() {
            break;
        }
        let x = rand_below(&mut r, &c.p);
        let y = rand_below(&mut r, &c.p);
        nist_point::<K>(ctx, &c, "random pair", &enc(&x, &y));
        // x valid with a tiny or limb-wise error in y
        if let Some(q) = c.lift_x(&x, r.bool()) {
            let (x, y) = q.0.unwrap();
            nist_point::<K>(ctx, &c, "valid random", &enc(&x, &y));
            let k = 64 * r.below(c.len / 8) as u64;
            let y2 = (&y + (B::from(1 + r.u64() % 7) << k)) % &c.p;
            nist_point::<K>(ctx, &c, "one limb of y off", &enc(&x, &y2));
            let x2 = (&x + (B::from(1 + r.u64() % 7) << k)) % &c.p;
            nist_point::<K>(ctx, &c, "one limb of x off", &enc(&x2, &y));
            // sqrt of -rhs: point of the twist
            if i % 4 == 0 {
                let z = (&c.p - c.rhs(&x)) % &c.p;
                nist_point::<K>(ctx, &c, "square of y instead of y", &enc(&x, &z));
            }
        }
    }
    // special constants
    let z = B::zero();
    let sp = [z.clone(), B::one(), B::from(2u32), &c.p - 1u32, c.p.clone(), &c.p + 1u32, &max - 1u32, c.n.clone(), c.bb.clone(), B::one() << (8 * c.len - 1)];
    for (i, x) in sp.iter().enumerate() {
        for y in &sp {
            if ctx.mine(i) && x < &max && y < &max {
                nist_point::<K>(ctx, &c, "special pair", &enc(x, y));
            }
        }
    }
    // (0, sqrt b) is a point; (0, sqrt b + p) is not an encoding of one
    if ctx.mine(1) {
        for n in 0..200 {
            for first in [0u8, 2, 3, 4, 6, 7] {
                let mut v = vec![0; n];
                if n > 0 {
                    v[0] = first;
                }
                nist_point::<K>(ctx, &c, "zeroes", &v);
            }
        }
    }
}

fn ed_key(ctx: &mut Ctx, f: &F, class: &str, b: &[u8]) -> bool {
    ctx.case(class, hexs(b));
    let ok = b.len() == 32 && f.decode(b.try_into().unwrap()).is_some();
    ctx.observe(if ok { "valid point offered" } else { "invalid point offered" }, 1);
    if let Some(g) = ctx.call("ed25519", || Ed25519VerifyingKey::from_bytes(b)) {
        match g {
            Ok(k) => {
                if ctx.check(ok, "accepted", || "accepted an invalid Ed25519 public key".into()) {
                    ctx.eq("reencode", &k.as_bytes(), b);
                }
            }
            Err(e) => {
                ctx.check(!ok, "refused", || format!("refused a valid Ed25519 public key: {e:?}"));
            }
        }
    }
    // the same through SPKI
    if b.len() < 100 {
        let mut spki = vec![0x30, (10 + b.len()) as u8, 0x30, 5, 6, 3, 0x2b, 0x65, 0x70, 3, (b.len() + 1) as u8, 0];
        spki.extend(b);
        if let Some(g) = ctx.call("ed25519-spki", || Ed25519VerifyingKey::from_spki_der(&spki).map(|_| ())) {
            ctx.check(g.is_ok() == ok, "spki", || format!("SPKI import {g:?}, valid {ok}"));
        }
    }
    ok
}

pub fn run_c07(ctx: &mut Ctx) {
    match ctx.section.as_str() {
        "p256" => c07_nist::<K256>(ctx),
        "p384" => c07_nist::<K384>(ctx),
        "ed25519" => {
            let f = F::new();
            let mut r = ctx.rng("ed");
            let mut ys: Vec<B> = vec![];
            let top = B::one() << 255;
            for i in 0..60u32 {
                ys.push(B::from(i));
                ys.push(&top - 1u32 - i);
            }
            ys.extend(edge_scalars(&mut Rng::new(3), &f.p, 300));
            for t in EIGHT_TORSION.iter() {
                let mut b = t.compress().0;
                b[31] &= 127;
                ys.push(B::from_bytes_le(&b));
            }
            ys.sort();
            ys.dedup();
            let mut valid = vec![];
            for (i, y) in ys.iter().enumerate() {
                if ctx.mine(i) && ctx.more() {
                    for s in [0, 0x80] {
                        let mut b = le32(y);
                        b[31] |= s;
                        if ed_key(ctx, &f, "edge", &b) {
                            valid.push(b);
                        }
                    }
                }
            }
            for n in (0..80).filter(|n| *n != 32) {
                if ctx.mine(n) {
                    let b = if n > 32 {
                        let mut b = Ed25519SigningKey::from_bytes(&r.bytes(32)).unwrap().public_key().as_bytes().to_vec();
                        b.resize(n, 0);
                        b
                    } else {
                        r.bytes(n)
                    };
                    ed_key(ctx, &f, "wrong length", &b);
                }
            }
            for _ in 0..ctx.n(3000, 100_000) {
                if !ctx.more() {
                    break;
                }
                let b: [u8; 32] = r.arr();
                ed_key(ctx, &f, "random", &b);
                let k = Ed25519SigningKey::from_bytes(&r.bytes(32)).unwrap().public_key().as_bytes();
                ed_key(ctx, &f, "genuine", &k);
                let mut b = k;
                b[r.below(32)] ^= 1 << r.below(8);
                ed_key(ctx, &f, "bit flip", &b);
            }
        }
        "mlkem" => {
            let mut r = ctx.rng("mk");
            let seed: [u8; 64] = r.arr();
            let good = mlkem768::DecapKey::keygen_internal(&seed).encapsulation_key().as_bytes();
            let set = |b: &mut [u8; 1184], i: usize, v: u16| {
                let o = i / 2 * 3;
                if i % 2 == 0 {
                    b[o] = v as u8;
                    b[o + 1] = (b[o + 1] & 0xf0) | (v >> 8) as u8;
                } else {
                    b[o + 1] = (b[o + 1] & 0x0f) | ((v << 4) as u8);
                    b[o + 2] = (v >> 4) as u8;
                }
            };
            let one = |ctx: &mut Ctx, class: &str, desc: String, b: &[u8; 1184]| {
                ctx.case(class, desc);
                let ok = b[..1152].chunks(3).all(|c| {
                    let x = c[0] as u16 | ((c[1] as u16 & 15) << 8);
                    let y = (c[1] >> 4) as u16 | ((c[2] as u16) << 4);
                    x < 3329 && y < 3329
                });
                ctx.observe(if ok { "reduced key offered" } else { "unreduced key offered" }, 1);
                match ctx.call("mlkem", || mlkem768::EncapKey::from_bytes(b)) {
                    Some(Ok(k)) => {
                        if ctx.check(ok, "accepted", || "accepted an unreduced encapsulation key".into()) {
                            ctx.eq("reencode", &k.as_bytes(), b);
                        }
                    }
                    Some(Err(e)) => {
                        ctx.check(!ok, "refused", || format!("refused a valid key: {e:?}"));
                    }
                    None => {}
                }
            };
            for i in 0..768 {
                if !ctx.mine(i) || !ctx.more() {
                    continue;
                }
                let all: Vec<u16> = if ctx.tier_thorough || i < 8 || i > 759 {
                    (0..4096).collect()
                } else {
                    let mut v = vec![0, 1, 3327, 3328, 3329, 3330, 3331, 3583, 3584, 3840, 4094, 4095, 2048, 1664, 1665];
                    for _ in 0..25 {
                        v.push(3329 + r.below(767) as u16);
                    }
                    v
                };
                for v in all {
                    let mut b = good;
                    set(&mut b, i, v);
                    one(ctx, "one coefficient", format!("coefficient {i} = {v}"), &b);
                }
                // a pair of them, in random positions
                for _ in 0..4 {
                    let j = r.below(768);
                    let (v, w) = (3325 + r.below(10) as u16, 3325 + r.below(10) as u16);
                    let mut b = good;
                    set(&mut b, i, v);
                    set(&mut b, j, w);
                    one(ctx, "two coefficients", format!("coefficient {i} = {v}, {j} = {w}"), &b);
                }
            }
            for i in 0..ctx.n(400, 20000) {
                let mut b = good;
                // any rho is fine
                let rho: [u8; 32] = r.biased(32).try_into().unwrap();
                b[1152..].copy_from_slice(&rho);
                one(ctx, "any rho", hex(&rho), &b);
                let fill = (i % 2) as u16 * 3328 + (i % 3) as u16;
                for k in 0..768 {
                    set(&mut b, k, if i < 20 { fill.min(4095) } else { r.below(3329) as u16 });
                }
                one(ctx, "all coefficients", format!("{} {:016x}", if i < 20 { fill.to_string() } else { "random".into() }, hash64(&b)), &b);
                let v: [u8; 1184] = r.arr();
                one(ctx, "random bytes", format!("{:016x}", hash64(&v)), &v);
            }
        }
        s => panic!("section {s}"),
    }
}

// ---- C10 ----

pub fn jobs_c10(_t: bool) -> Vec<Job> {
    vec![("sign", "native", 8), ("sign", "nobmi2", 2), ("verify", "native", 8), ("torsion", "native", 4)]
}

fn sha512(parts: &[&[u8]]) -> [u8; 64] {
    let mut h = sha2::Sha512::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

/// RFC 8032 5.1.7 verification without cofactor, on strict decodings; R compared as bytes.
pub fn ref_verify(f: &F, a: &[u8; 32], sig: &[u8], msg: &[u8], slow: bool) -> bool {
    if sig.len() != 64 || f.decode(a).is_none() {
        return false;
    }
    let s = B::from_bytes_le(&sig[32..]);
    if s >= f.l {
        return false;
    }
    let k = B::from_bytes_le(&sha512(&[&sig[..32], a, msg])) % &f.l;
    let ap = CompressedEdwardsY(*a).decompress().unwrap();
    let sc = |x: &B| Scalar::from_canonical_bytes(le32(x)).unwrap();
    let r = EdwardsPoint::vartime_double_scalar_mul_basepoint(&sc(&k), &-ap, &sc(&s)).compress().0;
    if slow {
        let bp = f.decode(&curve25519_dalek::constants::ED25519_BASEPOINT_COMPRESSED.0).unwrap();
        let (ax, ay) = f.decode(a).unwrap();
        let na = ((&f.p - ax) % &f.p, ay);
        let r2 = f.ed_enc(&f.ed_add(&f.ed_mul(&s, &bp), &f.ed_mul(&k, &na)));
        if r2 != r {
            panic!("the two reference implementations disagree");
        }
    }
    r == sig[..32]
}

fn vcase(ctx: &mut Ctx, f: &F, class: &str, a: &[u8; 32], sig: &[u8], msg: &[u8], slow: bool) {
    ctx.case(class, format!("A={} sig={} msg={}", hex(a), hex(sig), hexs(msg)));
    let want = ref_verify(f, a, sig, msg, slow);
    ctx.observe(if want { "valid signature offered" } else { "invalid signature offered" }, 1);
    let Some(k) = ctx.call("key", || Ed25519VerifyingKey::from_bytes(a)) else { return };
    let got = match k {
        Ok(k) => match ctx.call("verify", || k.verify(sig, msg)) {
            Some(g) => g,
            None => return,
        },
        Err(_) => Err(Error::BadSignature),
    };
    if let Err(e) = &got {
        ctx.check(*e == Error::BadSignature, "error-kind", || format!("{e:?}"));
    }
    ctx.check(got.is_ok() == want, if want { "valid-rejected" } else { "invalid-accepted" }, || format!("verdict {got:?}, reference {want}"));
}

pub fn run_c10(ctx: &mut Ctx) {
    let f = F::new();
    let mut r = ctx.rng("e");
    match ctx.section.as_str() {
        "sign" => {
            let total = ctx.n(16_000, 800_000);
            for i in 0..total {
                if !ctx.more() {
                    break;
                }
                let seed: [u8; 32] = if i % 16 == 0 { r.biased(32).try_into().unwrap() } else { r.arr() };
                let n = match i % 32 {
                    0..=15 => r.below(300),
                    16..=20 => r.below(2000),
                    31 if i % 1024 == 31 => r.below(200_000),
                    _ => r.below(80),
                };
                let msg = if i % 8 == 0 { r.biased(n) } else { r.bytes(n) };
                ctx.case("signature", format!("seed={} msg={}", hex(&seed), hexs(&msg)));
                use ed25519_dalek::Signer;
                let dk = ed25519_dalek::SigningKey::from_bytes(&seed);
                let want = dk.sign(&msg).to_bytes();
                let Some(k) = ctx.call("key", || Ed25519SigningKey::from_bytes(&seed).unwrap()) else { continue };
                let Some(pk) = ctx.call("public", || k.public_key()) else { continue };
                ctx.eq("public key", &pk.as_bytes(), dk.verifying_key().as_bytes());
                let Some(s) = ctx.call("sign", || k.sign(&msg)) else { continue };
                ctx.eq("signature", &s, &want);
                if i % 4 == 0 {
                    let again = k.sign(&msg);
                    ctx.eq("deterministic", &again, &s);
                    ctx.eq("seed kept", &k.as_seed(), &seed);
                }
                let v = ctx.call("verify", || pk.verify(&s, &msg));
                ctx.check(matches!(v, Some(Ok(()))), "own signature rejected", || format!("{v:?}"));
            }
            if ctx.mine(0) {
                for n in (0..70).filter(|n| *n != 32) {
                    ctx.case("seed length", n.to_string());
                    let b = r.bytes(n);
                    let e = ctx.call("len", || Ed25519SigningKey::from_bytes(&b).err());
                    ctx.check(e == Some(Some(Error::WrongLength)), "len", || format!("{e:?}"));
                }
                // every message length, to walk the hash padding in both hash inputs
                let k = Ed25519SigningKey::from_bytes(&[7; 32]).unwrap();
                let dk = ed25519_dalek::SigningKey::from_bytes(&[7; 32]);
                for n in 0..1200 {
                    use ed25519_dalek::Signer;
                    let m = r.bytes(n);
                    ctx.case("every length", format!("{n}"));
                    if let Some(s) = ctx.call("sign", || k.sign(&m)) {
                        ctx.eq("signature", &s, &dk.sign(&m).to_bytes());
                        let v = k.public_key().verify(&s, &m);
                        ctx.check(v.is_ok(), "own signature rejected", || format!("{v:?}"));
                    }
                }
            }
        }
        "verify" => {
            use ed25519_dalek::Signer;
            let keys = ctx.n(40, 1500);
            for ki in 0..keys {
                if !ctx.more() {
                    break;
                }
                let seed: [u8; 32] = r.arr();
                let dk = ed25519_dalek::SigningKey::from_bytes(&seed);
                let a = *dk.verifying_key().as_bytes();
                let nm = r.below(150);
                let msg = r.bytes(nm);
                let sig = dk.sign(&msg).to_bytes();
                vcase(ctx, &f, "genuine", &a, &sig, &msg, ki % 4 == 0);
                // every bit of the signature
                for bit in 0..512 {
                    if ki < 6 || bit % 7 == ki % 7 || bit >= 500 || (248..264).contains(&bit) {
                        let mut s = sig;
                        s[bit / 8] ^= 1 << (bit % 8);
                        vcase(ctx, &f, "signature bit", &a, &s, &msg, false);
                    }
                }
                for bit in 0..256 {
                    if ki < 3 || bit % 16 == ki % 16 {
                        let mut b = a;
                        b[bit / 8] ^= 1 << (bit % 8);
                        vcase(ctx, &f, "key bit", &b, &sig, &msg, false);
                    }
                }
                for i in 0..msg.len() {
                    if i % 5 == ki % 5 {
                        let mut m = msg.clone();
                        m[i] ^= 1 << r.below(8);
                        vcase(ctx, &f, "message bit", &a, &sig, &m, false);
                    }
                }
                let mut m = msg.clone();
                m.push(0);
                vcase(ctx, &f, "message extended", &a, &sig, &m, false);
                if !msg.is_empty() {
                    vcase(ctx, &f, "message truncated", &a, &sig, &msg[..msg.len() - 1], false);
                }
                // S plus multiples of the order
                let s0 = B::from_bytes_le(&sig[32..]);
                for j in 1u32..16 {
                    let s = &s0 + &f.l * j;
                    if s < (B::one() << 256) {
                        let mut x = sig;
                        x[32..].copy_from_slice(&le32(&s));
                        vcase(ctx, &f, "S not reduced", &a, &x, &msg, false);
                    }
                }
                // negated S, negated R
                let mut x = sig;
                x[32..].copy_from_slice(&le32(&((&f.l - &s0) % &f.l)));
                vcase(ctx, &f, "S negated", &a, &x, &msg, false);
                // lengths
                for n in 0..130 {
                    if n != 64 && (ki < 4 || n % 9 == 0) {
                        let mut x = sig.to_vec();
                        x.resize(n, 0);
                        vcase(ctx, &f, "signature length", &a, &x, &msg, false);
                    }
                }
                // halves swapped, zero halves
                let mut x = sig;
                x.rotate_left(32);
                vcase(ctx, &f, "halves swapped", &a, &x, &msg, false);
                for (lo, hi) in [(0, 32), (32, 64), (0, 64)] {
                    let mut x = sig;
                    x[lo..hi].fill(0);
                    vcase(ctx, &f, "zeroed", &a, &x, &msg, false);
                    x[lo..hi].fill(0xff);
                    vcase(ctx, &f, "all ones", &a, &x, &msg, false);
                }
                // signature of another key or message
                let ok = ed25519_dalek::SigningKey::from_bytes(&r.arr());
                vcase(ctx, &f, "other key", ok.verifying_key().as_bytes(), &sig, &msg, false);
                // pre-hashed / context variants are other schemes
                for phflag in [0u8, 1] {
                    // RFC 8032 dom2(F, "") prefix
                    let mut dom = b"SigEd25519 no Ed25519 collisions".to_vec();
                    dom.extend([phflag, 0]);
                    let ph = if phflag == 1 { sha512(&[&msg]).to_vec() } else { msg.clone() };
                    let rr = Scalar::from_bytes_mod_order(r.arr());
                    let rb = EdwardsPoint::mul_base(&rr).compress().0;
                    let k = Scalar::from_bytes_mod_order_wide(&sha512(&[&dom, &rb, &a, &ph]));
                    let s = rr + k * dk.to_scalar();
                    let mut x = [0; 64];
                    x[..32].copy_from_slice(&rb);
                    x[32..].copy_from_slice(&s.to_bytes());
                    vcase(ctx, &f, "Ed25519ph/ctx signature", &a, &x, &msg, false);
                }
                // signature with torsion in R: cofactored verifiers accept, this must not
                for t in EIGHT_TORSION.iter() {
                    let rr = Scalar::from_bytes_mod_order(r.arr());
                    let rb = (EdwardsPoint::mul_base(&rr) + t).compress().0;
                    let k = Scalar::from_bytes_mod_order_wide(&sha512(&[&rb, &a, &msg]));
                    let s = rr + k * dk.to_scalar();
                    let mut x = [0; 64];
                    x[..32].copy_from_slice(&rb);
                    x[32..].copy_from_slice(&s.to_bytes());
                    vcase(ctx, &f, "torsion in R", &a, &x, &msg, false);
                    // and torsion in A
                    let at = (EdwardsPoint::mul_base(&dk.to_scalar()) + t).compress().0;
                    let rb = EdwardsPoint::mul_base(&rr).compress().0;
                    let k = Scalar::from_bytes_mod_order_wide(&sha512(&[&rb, &at, &msg]));
                    let s = rr + k * dk.to_scalar();
                    x[..32].copy_from_slice(&rb);
                    x[32..].copy_from_slice(&s.to_bytes());
                    vcase(ctx, &f, "torsion in A", &at, &x, &msg, false);
                }
                // private keys and nonces chosen small, so that partial sums coincide
                for _ in 0..ctx.n(30, 60) {
                    let sv = |r: &mut Rng| {
                        let small = Scalar::from(1 + r.below(40) as u64);
                        match r.below(4) {
                            0 => small,
                            1 => -small,
                            2 => Scalar::from_canonical_bytes(le32(&(B::one() << r.below(252)))).unwrap(),
                            _ => Scalar::from_bytes_mod_order(r.arr()),
                        }
                    };
                    let (sa, sr) = (sv(&mut r), if r.below(8) == 0 { Scalar::ZERO } else { sv(&mut r) });
                    let ab = EdwardsPoint::mul_base(&sa).compress().0;
                    let rb = EdwardsPoint::mul_base(&sr).compress().0;
                    let m = r.bytes(8);
                    let k = Scalar::from_bytes_mod_order_wide(&sha512(&[&rb, &ab, &m]));
                    let s = sr + k * sa;
                    let mut x = [0; 64];
                    x[..32].copy_from_slice(&rb);
                    x[32..].copy_from_slice(&s.to_bytes());
                    vcase(ctx, &f, "small private key or nonce", &ab, &x, &m, false);
                    x[32] ^= 1;
                    vcase(ctx, &f, "small private key or nonce, altered", &ab, &x, &m, false);
                }
            }
        }
        "torsion" => {
            // A of small order: S may be anything, so edge values of S reach the
            // double-scalar routine; R = S B - k A with k mod 8 found by trial
            let mut ss: Vec<B> = vec![B::zero()];
            ss.extend((0..252).step_by(3).map(|k| B::one() << k));
            ss.extend(edge_scalars(&mut Rng::new(8), &f.l, 60));
            let mut accepted = 0u64;
            for (i, s) in ss.iter().enumerate() {
                if !ctx.mine(i) || !ctx.more() {
                    continue;
                }
                for (ti, t) in EIGHT_TORSION.iter().enumerate() {
                    if i % 4 != ti % 4 && !ctx.tier_thorough && i > 40 {
                        continue;
                    }
                    let a = t.compress().0;
                    let sb = EdwardsPoint::mul_base(&Scalar::from_canonical_bytes(le32(s)).unwrap());
                    let m = r.bytes(6);
                    for u in EIGHT_TORSION.iter() {
                        let rb = (sb + u).compress().0;
                        let mut x = [0; 64];
                        x[..32].copy_from_slice(&rb);
                        x[32..].copy_from_slice(&le32(s));
                        if ref_verify(&f, &a, &x, &m, false) {
                            accepted += 1;
                        }
                        vcase(ctx, &f, "small-order key", &a, &x, &m, i % 64 == 0);
                        // the same S, not reduced: every distance from L, so each word of a
                        // range check decides some of them
                        if ti % 4 == i % 4 || i < 4 {
                            for j in 1u32..16 {
                                let sj = s + &f.l * j;
                                if sj.bits() <= 256 {
                                    x[32..].copy_from_slice(&le32(&sj));
                                    vcase(ctx, &f, "small-order key, S not reduced", &a, &x, &m, false);
                                }
                            }
                        }
                    }
                }
            }
            ctx.observe("small-order key signatures the reference accepts", accepted);
            // non-canonical A and R encodings of valid points
            for i in 0..ctx.n(20, 400) {
                let m = r.bytes(i % 40);
                for t in 0..=20u32 {
                    for sign in [0u8, 0x80] {
                        let mut enc = le32(&(&f.p - 1u32 + t));
                        enc[31] |= sign;
                        // as A
                        let mut x = [0u8; 64];
                        let s = Scalar::from_bytes_mod_order(r.arr());
                        x[..32].copy_from_slice(&EdwardsPoint::mul_base(&s).compress().0);
                        x[32..].copy_from_slice(&s.to_bytes());
                        vcase(ctx, &f, "non-canonical A", &enc, &x, &m, false);
                        // as R, with S = 0 and A = identity: R must be the canonical identity
                        let mut x = [0u8; 64];
                        x[..32].copy_from_slice(&enc);
                        let ident = le32(&B::one());
                        vcase(ctx, &f, "non-canonical R", &ident, &x, &m, false);
                        let mut idneg = ident;
                        idneg[31] |= 0x80;
                        vcase(ctx, &f, "x=0 with sign bit in A", &idneg, &x, &m, false);
                        x[..32].copy_from_slice(&idneg);
                        vcase(ctx, &f, "x=0 with sign bit in R", &ident, &x, &m, false);
                    }
                }
            }
        }
        s => panic!("section {s}"),
    }
}
