//! C17: hostile bytes into every parser, verifier and opener; whatever a parser
//! accepts is then used in every operation of that key.
use crate::Job;
use crate::aead::{ALGS, Real};
use crate::der::{Node, node_variants};
use crate::ecref::{B, be, edge_scalars};
use crate::enc::{OID_ED, OID_P256, OID_P384, OID_RSA, bitstr, int, oid, seq};
use crate::nist::{K256, K384, Ka, der_int, der_tlv, edge_points};
use crate::rsa::{self, Key};
use graviola::hashing::{Sha256, Sha384, Sha512, hmac};
use graviola::key_agreement::{mlkem768 as ml, x25519};
use graviola::signing::{ecdsa, eddsa, rsa as grsa};
use harness::mem::Guarded;
use harness::*;
use num_traits::{One, Zero};

pub fn jobs_c17(t: bool) -> Vec<Job> {
    let k = if t { 4 } else { 1 };
    vec![
        ("der", "native", 4 * k),
        ("der", "rel", 2 * k),
        ("mutate", "native", 4 * k),
        ("mutate", "rel", 2 * k),
        ("rsapriv", "native", 5 * k),
        ("rsapriv", "rel", 3 * k),
        ("rsapub", "native", 2 * k),
        ("rsapub", "rel", k),
        ("rsaem", "native", 2 * k),
        ("rsaem", "rel", k),
        ("ecsig", "native", 2 * k),
        ("ecsig", "rel", k),
        ("edsig", "native", k),
        ("edsig", "rel", k),
        ("points", "native", 2 * k),
        ("points", "rel", k),
        ("open", "native", k),
        ("open", "min", k),
        ("open", "rel", k),
        ("mlkem", "native", k),
        ("mlkem", "rel", k),
    ]
}

/// CPU seconds one call may take: two orders of magnitude above the slowest legitimate one.
const CALL_LIMIT: f64 = 5.0;

fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: plain clock read
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

struct Hz<'a> {
    c: &'a mut Ctx,
    g: Guarded,
    slowest: (f64, String),
}

impl<'a> Hz<'a> {
    /// one call on hostile bytes, which end exactly at an inaccessible page
    fn call<T>(&mut self, key: &str, b: &[u8], f: impl FnOnce(&[u8]) -> T) -> Option<T> {
        let s = self.g.tail(b.len());
        s.copy_from_slice(b);
        let t = cpu();
        let r = self.c.call(key, || f(s));
        let d = cpu() - t;
        if d > self.slowest.0 {
            self.slowest = (d, key.into());
        }
        self.c.check(d < CALL_LIMIT, &format!("{key}:slow"), || format!("one call took {d:.1} s of CPU time"));
        self.c.check(s == b, &format!("{key}:input changed"), || "the input buffer was modified".into());
        r
    }

    fn ec_key<K: Ka>(&mut self, what: &str, k: ecdsa::SigningKey<K::Sig>) {
        self.c.observe(&format!("{what} key accepted and used"), 1);
        let mut b = vec![0u8; 400];
        self.call("use-ec:sign", b"m", |m| k.sign::<Sha256>(&[m], &mut b).map(|x| x.len()));
        self.call("use-ec:sign512", b"m", |m| k.sign_asn1::<Sha512>(&[m], &mut b).map(|x| x.len()));
        self.call("use-ec:pkcs8", b"", |_| k.to_pkcs8_der(&mut b).map(|x| x.len()));
        self.call("use-ec:sec1", b"", |_| k.to_sec1_der(&mut b).map(|x| x.len()));
        self.call("use-ec:spki", b"", |_| k.to_spki_der(&mut b).map(|x| x.len()));
    }
    fn ed_priv(&mut self, k: eddsa::Ed25519SigningKey) {
        self.c.observe("ed25519 private key accepted and used", 1);
        let mut b = vec![0u8; 400];
        self.call("use-ed:sign", b"m", |m| k.sign(m));
        self.call("use-ed:pkcs8", b"", |_| k.to_pkcs8_der(&mut b).map(|x| x.len()));
        self.call("use-ed:seed", b"", |_| k.as_seed());
        self.call("use-ed:pub", b"", |_| k.public_key().as_bytes());
    }
    fn ed_pub(&mut self, k: eddsa::Ed25519VerifyingKey, r: &mut Rng) {
        self.c.observe("ed25519 public key accepted and used", 1);
        let mut b = vec![0u8; 400];
        for l in [0usize, 1, 31, 32, 63, 64, 65, 96, 200] {
            let s = r.biased(l);
            let _ = self.call("use-ed:verify", &s, |s| k.verify(s, b"m").is_ok());
        }
        self.call("use-ed:spki", b"", |_| k.to_spki_der(&mut b).map(|x| x.len()));
    }
    fn rsa_pub(&mut self, k: &grsa::VerifyingKey, n: Option<&B>, r: &mut Rng) {
        self.c.observe("RSA public key accepted and used", 1);
        let mut b = vec![0u8; 3000];
        let len = match self.call("use-rsapub:pkcs1", b"", |_| k.to_pkcs1_der(&mut b).map(|x| x.to_vec())) {
            Some(Ok(d)) => Node::parse(&d).map(|t| B::from_bytes_be(&t.kids[0].prim)).unwrap_or_default().bits().div_ceil(8) as usize,
            _ => 256,
        };
        self.call("use-rsapub:spki", b"", |_| k.to_spki_der(&mut b).map(|x| x.len()));
        let mut sigs = vec![vec![], vec![0; len], vec![0xff; len], r.bytes(len), r.bytes(len - 1), r.bytes(len + 1)];
        let mut one = vec![0; len];
        one[len - 1] = 1;
        sigs.push(one);
        if let Some(n) = n {
            for d in [B::one(), B::zero()] {
                sigs.push(be(&(n - &d), len));
            }
            if (n + 1u32).bits().div_ceil(8) as usize == len {
                sigs.push(be(&(n + 1u32), len));
            }
        }
        sigs.push(r.biased(2000));
        for s in sigs {
            let i = r.below(6);
            self.call("use-rsapub:verify", &s, |s| rsa_verify(k, i, s));
            self.call("use-rsapub:verify", &s, |s| rsa_verify(k, (i + 3) % 6, s));
        }
    }
    fn rsa_priv(&mut self, k: &grsa::SigningKey, deep: bool, r: &mut Rng) {
        self.c.observe("RSA private key accepted and used", 1);
        let mut b = vec![0u8; 6000];
        self.call("use-rsapriv:pkcs1", b"", |_| k.to_pkcs1_der(&mut b).map(|x| x.len()));
        self.call("use-rsapriv:pkcs8", b"", |_| k.to_pkcs8_der(&mut b).map(|x| x.len()));
        let l = self.call("use-rsapriv:len", b"", |_| k.modulus_len_bytes()).unwrap_or(256);
        let mut sig = vec![0u8; l];
        for i in 0..if deep { 6 } else { 2 } {
            let i = if deep { i } else { r.below(3) + 3 * i };
            let m = r.bytes(9);
            let ok = self.call("use-rsapriv:sign", &m, |m| {
                match i {
                    0 => k.sign_pkcs1_sha256(&mut sig, m),
                    1 => k.sign_pkcs1_sha384(&mut sig, m),
                    2 => k.sign_pkcs1_sha512(&mut sig, m),
                    3 => k.sign_pss_sha256(&mut sig, m),
                    4 => k.sign_pss_sha384(&mut sig, m),
                    _ => k.sign_pss_sha512(&mut sig, m),
                }
                .is_ok()
            });
            match ok {
                Some(true) => self.c.observe("hostile RSA key signed", 1),
                Some(false) => self.c.observe("hostile RSA key refused to sign", 1),
                None => {}
            }
        }
        if let Some(p) = self.call("use-rsapriv:public", b"", |_| k.public_key()) {
            self.rsa_pub(&p, None, r);
        }
    }

    /// one byte string offered to every DER parser
    fn everywhere(&mut self, b: &[u8], r: &mut Rng) {
        macro_rules! p {
            ($k:literal, $f:expr, $u:expr) => {
                match self.call($k, b, $f) {
                    Some(Ok(k)) => {
                        let u = $u;
                        u(self, k, r);
                    }
                    Some(Err(_)) => self.c.observe(concat!($k, " refused"), 1),
                    None => {}
                }
            };
        }
        p!("ec256-pkcs8", ecdsa::SigningKey::<ecdsa::P256>::from_pkcs8_der, |h: &mut Self, k, _: &mut Rng| h.ec_key::<K256>("p256-pkcs8", k));
        p!("ec384-pkcs8", ecdsa::SigningKey::<ecdsa::P384>::from_pkcs8_der, |h: &mut Self, k, _: &mut Rng| h.ec_key::<K384>("p384-pkcs8", k));
        p!("ec256-sec1", ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der, |h: &mut Self, k, _: &mut Rng| h.ec_key::<K256>("p256-sec1", k));
        p!("ec384-sec1", ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der, |h: &mut Self, k, _: &mut Rng| h.ec_key::<K384>("p384-sec1", k));
        p!("ed-pkcs8", eddsa::Ed25519SigningKey::from_pkcs8_der, |h: &mut Self, k, _: &mut Rng| h.ed_priv(k));
        p!("ed-spki", eddsa::Ed25519VerifyingKey::from_spki_der, |h: &mut Self, k, r: &mut Rng| h.ed_pub(k, r));
        p!("rsa-pkcs8", grsa::SigningKey::from_pkcs8_der, |h: &mut Self, k, r: &mut Rng| h.rsa_priv(&k, false, r));
        p!("rsa-pkcs1", grsa::SigningKey::from_pkcs1_der, |h: &mut Self, k, r: &mut Rng| h.rsa_priv(&k, false, r));
        p!("rsa-public", grsa::VerifyingKey::from_pkcs1_der, |h: &mut Self, k, r: &mut Rng| h.rsa_pub(&k, None, r));
    }
}

fn rsa_verify(k: &grsa::VerifyingKey, i: usize, s: &[u8]) -> bool {
    match i {
        0 => k.verify_pkcs1_sha256(s, b"m"),
        1 => k.verify_pkcs1_sha384(s, b"m"),
        2 => k.verify_pkcs1_sha512(s, b"m"),
        3 => k.verify_pss_sha256(s, b"m"),
        4 => k.verify_pss_sha384(s, b"m"),
        _ => k.verify_pss_sha512(s, b"m"),
    }
    .is_ok()
}

/// genuine encodings of every kind
pub fn corpus(r: &mut Rng) -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![];
    let mut b = vec![0u8; 6000];
    for k in rsa::keys().iter().filter(|k| k.bits == 2048).take(2) {
        let sk = grsa::SigningKey::from_pkcs1_der(&k.priv_der()).unwrap();
        v.push(("rsa-pkcs1", k.priv_der()));
        v.push(("rsa-pkcs8", sk.to_pkcs8_der(&mut b).unwrap().to_vec()));
        v.push(("rsa-public", k.pub_der()));
        v.push(("rsa-spki", sk.public_key().to_spki_der(&mut b).unwrap().to_vec()));
    }
    let d: [u8; 32] = r.arr();
    let ed = eddsa::Ed25519SigningKey::from_bytes(&d).unwrap();
    v.push(("ed-pkcs8", ed.to_pkcs8_der(&mut b).unwrap().to_vec()));
    v.push(("ed-spki", ed.public_key().to_spki_der(&mut b).unwrap().to_vec()));
    v.push(("ed-pkcs8-v1", seq(&[int(0), seq(&[oid(OID_ED)]), der_tlv(4, &der_tlv(4, &d))])));
    fn ec<K: Ka>(v: &mut Vec<(&'static str, Vec<u8>)>, r: &mut Rng, name: [&'static str; 3], o: &[u8]) {
        let mut b = vec![0u8; 600];
        let mut d = r.bytes(K::curve().len);
        d[0] &= 0x7f;
        let k = K::signer(&d).unwrap();
        v.push((name[0], k.to_pkcs8_der(&mut b).unwrap().to_vec()));
        v.push((name[1], k.to_sec1_der(&mut b).unwrap().to_vec()));
        v.push((name[2], k.to_spki_der(&mut b).unwrap().to_vec()));
        let p = K::st_pub(&K::st_from(&d).unwrap());
        let sec1 = seq(&[int(1), der_tlv(4, &d), der_tlv(0xa0, &oid(o)), der_tlv(0xa1, &bitstr(&p))]);
        v.push((
            name[0],
            seq(&[int(1), seq(&[oid(crate::enc::OID_EC), oid(o)]), der_tlv(4, &sec1), der_tlv(0x81, &[&[0], &p[..]].concat())]),
        ));
    }
    ec::<K256>(&mut v, r, ["ec256-pkcs8", "ec256-sec1", "ec256-spki"], OID_P256);
    ec::<K384>(&mut v, r, ["ec384-pkcs8", "ec384-sec1", "ec384-spki"], OID_P384);
    v
}

/// Systematic structure changes, truncations at every length, every byte replaced.
fn der(h: &mut Hz) {
    let mut r = h.c.rng("der");
    let mut shared = Rng::from_label(h.c.seed, "c17-corpus");
    let mut i = 0;
    for (name, base) in corpus(&mut shared) {
        let mut all = node_variants(&base, &mut shared);
        // inside octet strings that hold DER themselves
        if let Some(t) = Node::parse(&base) {
            for k in 0..t.count() {
                let mut x = t.clone();
                let mut kk = k;
                let inner = x.get(&mut kk).unwrap().prim.clone();
                if inner.len() > 20 && inner[0] == 0x30 && Node::parse(&inner).is_some() {
                    for (w, iv) in node_variants(&inner, &mut shared) {
                        let mut y = t.clone();
                        let mut kk = k;
                        y.get(&mut kk).unwrap().prim = iv;
                        all.push((format!("inner {w}"), y.write()));
                    }
                }
            }
        }
        for n in 0..=base.len() {
            all.push((format!("truncated to {n}"), base[..n].to_vec()));
        }
        let hot = base.len().min(64);
        for p in 0..base.len() {
            if p >= hot && base.len() > 300 && p % 37 != 0 {
                continue;
            }
            for x in [0u8, 1, 2, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0x89, 0xfe, 0xff, base[p] ^ 1, base[p].wrapping_add(1), base[p].wrapping_sub(1)] {
                if x != base[p] {
                    let mut y = base.clone();
                    y[p] = x;
                    all.push((format!("byte {p} = {x:02x}"), y));
                }
            }
        }
        for (what, b) in all {
            i += 1;
            if !h.c.mine(i) {
                continue;
            }
            if !h.c.more() {
                return;
            }
            h.c.case("der-structure", format!("{name} {what}: {}", hexs(&b)));
            h.everywhere(&b, &mut r);
        }
    }
}

/// Random mutation: bit flips, splices, insertions, deletions, repetition, length damage.
fn mutate(h: &mut Hz) {
    let mut r = h.c.rng("mutate");
    let co = corpus(&mut r);
    let n = h.c.n(40_000, 600_000);
    for _ in 0..n {
        if !h.c.more() {
            break;
        }
        let (name, base) = r.pick(&co).clone();
        let mut b = base;
        for _ in 0..1 + r.below(4) {
            let l = b.len();
            match r.below(9) {
                0 if l > 0 => {
                    let i = r.below(l);
                    b[i] ^= 1 << r.below(8);
                }
                1 if l > 0 => {
                    let i = r.below(l.min(40));
                    b[i] = r.u64() as u8;
                }
                2 if l > 0 => {
                    let i = r.below(l);
                    let e = (i + r.below(20)).min(l);
                    b.drain(i..e);
                }
                3 => {
                    let i = r.below(l + 1);
                    let k = r.below(20);
                    let x = r.biased(k);
                    b.splice(i..i, x);
                }
                4 => {
                    let o = &r.pick(&co).1.clone();
                    let i = r.below(l + 1);
                    let j = r.below(o.len());
                    b.truncate(i);
                    b.extend_from_slice(&o[j..]);
                }
                5 if l > 0 => {
                    let i = r.below(l);
                    let e = (i + r.below(64)).min(l);
                    let x = b[i..e].to_vec();
                    b.splice(i..i, x);
                }
                6 if l > 2 => {
                    // nested-looking prefixes
                    let d = r.below(200);
                    let mut x = vec![];
                    for _ in 0..d {
                        x.extend([*r.pick(&[0x30u8, 0x31, 0xa0, 0x24, 0x04]), *r.pick(&[0x80u8, 0x7f, 0x84, 0x82])]);
                    }
                    b.splice(0..0, x);
                }
                7 if l > 0 => {
                    let i = r.below(l);
                    b.truncate(i);
                }
                _ => {
                    let k = r.below(64);
                    b = r.biased(k);
                }
            }
            b.truncate(12_000);
        }
        h.c.case("der-random", format!("{name}: {}", hexs(&b)));
        h.everywhere(&b, &mut r);
    }
}

fn hostile_int(r: &mut Rng, k: &Key) -> B {
    let one = B::one();
    match r.below(22) {
        0 => B::zero(),
        1 => one,
        2 => B::from(2u32),
        3 => B::from(3u32 + 2 * r.below(100) as u32),
        4 => &k.p - 1u32,
        5 => &k.p + 1u32,
        6 => k.p.clone(),
        7 => k.q.clone(),
        8 => k.n.clone(),
        9 => &k.n - 1u32,
        10 => &one << r.below(8192),
        11 => (&one << r.range(1, 8200)) - 1u32,
        12 => (&one << (64 * r.range(1, 128))) - 1u32,
        13 => (&one << (64 * r.range(1, 127))) + 1u32,
        14 => &k.p * 2u32 + 1u32,
        15 => {
            let l = r.range(1, 1025);
            B::from_bytes_be(&r.bytes(l)) | one
        }
        16 => {
            let l = r.range(120, 136);
            B::from_bytes_be(&r.bytes(l)) | one
        }
        17 => B::from_bytes_be(&vec![0xff; r.range(1, 1030)]),
        18 => (&one << 1023usize) + 1u32,
        19 => B::from_bytes_be(&r.biased(128)) | one,
        20 => B::from_bytes_be(&r.biased(256)) | one,
        _ => B::from_bytes_be(&r.biased(128)),
    }
}

fn rsapriv(h: &mut Hz) {
    let mut r = h.c.rng("rsapriv");
    let ks: Vec<Key> = rsa::keys().into_iter().filter(|k| k.bits <= 2600).collect();
    let n = h.c.n(2_000, 60_000);
    for it in 0..n {
        if !h.c.more() {
            break;
        }
        let k = r.pick(&ks).clone();
        let mut v = [k.n.clone(), k.e.clone(), k.d.clone(), k.p.clone(), k.q.clone(), k.dp.clone(), k.dq.clone(), k.iqmp.clone()];
        let names = ["n", "e", "d", "p", "q", "dp", "dq", "qinv"];
        let mut what = vec![];
        match r.below(4) {
            0 => {
                let i = r.below(8);
                v[i] = hostile_int(&mut r, &k);
                what.push(names[i]);
            }
            1 => {
                for _ in 0..2 + r.below(3) {
                    let i = r.below(8);
                    v[i] = hostile_int(&mut r, &k);
                    what.push(names[i]);
                }
            }
            2 => {
                // hostile primes with a modulus that matches them
                let i = 3 + r.below(2);
                v[i] = hostile_int(&mut r, &k);
                if r.bool() {
                    v[7 - i] = hostile_int(&mut r, &k);
                }
                v[0] = &v[3] * &v[4];
                what.push("p/q, n = pq");
                for i in 5..8 {
                    if r.below(3) == 0 {
                        v[i] = hostile_int(&mut r, &k);
                        what.push(names[i]);
                    }
                }
            }
            _ => {
                // roles exchanged or repeated
                let (i, j) = (r.below(8), r.below(8));
                v.swap(i, j);
                if r.bool() {
                    v[3 + r.below(5)] = v[r.below(8)].clone();
                }
                what.push("swapped");
                what.push(names[i]);
                what.push(names[j]);
            }
        }
        if r.below(4) == 0 {
            v[1] = match r.below(6) {
                0 => B::one(),
                1 => B::from(2u32),
                2 => B::from(u32::MAX),
                3 => B::from(0x8000_0000u32),
                4 => B::from(1u64 << 32),
                _ => B::from(r.u64() as u32),
            };
            what.push("e");
        }
        let der = k.priv_der_with(&[&v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6], &v[7]]);
        let full = {
            let f: Vec<String> = v.iter().zip(names).map(|(x, n)| format!("{n}={}", hexs(&x.to_bytes_be()))).collect();
            f.join(" ")
        };
        h.c.case("rsa-private", format!("{} hostile {}: {full}", k.name, what.join(",")));
        let der8 = seq(&[int(0), seq(&[oid(OID_RSA), vec![5, 0]]), der_tlv(4, &der)]);
        let r8 = h.call("rsa-pkcs8", &der8, grsa::SigningKey::from_pkcs8_der);
        match h.call("rsa-pkcs1", &der, grsa::SigningKey::from_pkcs1_der) {
            Some(Ok(s)) => h.rsa_priv(&s, it % 4 == 0, &mut r),
            Some(Err(_)) => h.c.observe("hostile RSA private key refused", 1),
            None => {}
        }
        drop(r8);
    }
}

fn rsapub(h: &mut Hz) {
    let mut r = h.c.rng("rsapub");
    let ks = rsa::keys();
    let n = h.c.n(1500, 40_000);
    for _ in 0..n {
        if !h.c.more() {
            break;
        }
        let k = r.pick(&ks).clone();
        let bits = *r.pick(&[2041usize, 2047, 2048, 2049, 2050, 2056, 2057, 2111, 2112, 2113, 3072, 4096, 4097, 8192]);
        let nn = match r.below(10) {
            0 => (B::one() << bits) - 1u32,
            1 => (B::one() << (bits - 1)) + 1u32,
            2 => (B::one() << (bits - 1)) | (B::from_bytes_be(&r.bytes(8))) | B::one(),
            3 => (B::one() << bits) - B::from(r.u64() | 1),
            4 => k.p.clone() * &k.p,
            5 => {
                // a power of three or another small number
                let s = B::from(3u32 + 2 * r.below(20) as u32);
                let mut x = s.clone();
                while (x.bits() as usize) < bits - 4 {
                    x *= &s;
                }
                x
            }
            6 => hostile_int(&mut r, &k),
            7 => B::from_bytes_be(&r.biased(bits.div_ceil(8))) | B::one(),
            8 => (B::from_bytes_be(&r.biased(bits.div_ceil(8))) | B::one()) | (B::one() << (bits - 1)),
            _ => k.n.clone(),
        };
        let e = match r.below(9) {
            0 => B::zero(),
            1 => B::one(),
            2 => B::from(2u32),
            3 => B::from(3u32),
            4 => B::from(u32::MAX),
            5 => B::from(1u32 << r.below(32)),
            6 => B::from(r.u64()),
            7 => B::from(r.u64() as u32),
            _ => k.e.clone(),
        };
        let der = der_tlv(0x30, &[der_int(&nn), der_int(&e)].concat());
        h.c.case("rsa-public", format!("n={} ({} bits) e={e:x}", hexs(&nn.to_bytes_be()), nn.bits()));
        match h.call("rsa-public", &der, grsa::VerifyingKey::from_pkcs1_der) {
            Some(Ok(s)) => h.rsa_pub(&s, Some(&nn), &mut r),
            Some(Err(_)) => h.c.observe("hostile RSA public key refused", 1),
            None => {}
        }
    }
}

/// Signatures by the owner of the key, over encodings that are anything but.
fn rsaem(h: &mut Hz) {
    let mut r = h.c.rng("rsaem");
    let ks = rsa::keys();
    let pubs: Vec<_> = ks.iter().map(|k| grsa::VerifyingKey::from_pkcs1_der(&k.pub_der()).unwrap()).collect();
    let n = h.c.n(24, 1500);
    for round in 0..n {
        // mostly short moduli, of every remainder of bits
        let i = loop {
            let i = r.below(ks.len());
            if ks[i].bits < 2100 || ks[i].bits < 4200 && r.below(6) == 0 || r.below(40) == 0 {
                break i;
            }
        };
        let (k, which) = (&ks[i], round % 6);
        let hash = rsa::HASHES[which % 3];
        for (class, em) in rsa::odd_ems(&mut r, k.bits, which >= 3, hash, b"m", 8) {
            if !h.c.more() {
                return;
            }
            let x = B::from_bytes_be(&em);
            if x >= k.n {
                continue;
            }
            let s = be(&k.raw(&x), k.k);
            h.c.case(class, format!("{} verifier {which} encoding {}", k.name, hex(&em)));
            if let Some(ok) = h.call("rsa-encoding", &s, |s| rsa_verify(&pubs[i], which, s)) {
                h.c.observe(if ok { "signature over an odd encoding accepted" } else { "signature over an odd encoding refused" }, 1);
            }
        }
    }
}

fn ec_pub<K: Ka>(h: &mut Hz, r: &mut Rng) {
    let cv = K::curve();
    let pts = edge_points(r, cv, 20);
    let sc = edge_scalars(r, &cv.n, 10);
    let n = h.c.n(1500, 60_000);
    for i in 0..n {
        if !h.c.more() {
            break;
        }
        let q = r.pick(&pts).clone();
        let Some(_) = q.0.as_ref() else { continue };
        let kb = cv.enc(&q);
        let k = match h.call("ec-x962", &kb, ecdsa::VerifyingKey::<K::Sig>::from_x962_uncompressed) {
            Some(Ok(k)) => k,
            _ => continue,
        };
        for j in 0..6 {
            let s: Vec<u8> = match (i + j) % 6 {
                0 => r.biased(2 * cv.len),
                1 => {
                    let l = r.below(220);
                    r.biased(l)
                }
                2 => {
                    let (a, b) = (r.pick(&sc).clone(), r.pick(&sc).clone());
                    [be(&a, cv.len), be(&b, cv.len)].concat()
                }
                3 => {
                    let (la, lb) = (r.below(70), r.below(70));
                    let (a, b) = (r.biased(la), r.biased(lb));
                    seq(&[der_tlv(2, &a), der_tlv(2, &b)])
                }
                4 => {
                    let (a, b) = (r.pick(&sc).clone(), r.pick(&sc).clone());
                    let mut d = seq(&[der_int(&a), der_int(&b)]);
                    for _ in 0..r.below(3) {
                        let i = r.below(d.len());
                        d[i] = r.u64() as u8;
                    }
                    d
                }
                _ => {
                    let l = r.below(220);
                    let mut d = vec![0x30, *r.pick(&[0x80u8, 0x81, 0x82, 0x84, 0x88, 0xff, 0x44, 0x7f])];
                    d.extend(r.biased(l));
                    d
                }
            };
            h.c.case("ecdsa-signature", format!("{} Q={} sig={}", cv.name, hex(&kb), hexs(&s)));
            let ml = r.below(200);
            let m = r.bytes(ml);
            let x = h.call("ec-verify", &s, |s| k.verify::<Sha256>(&[&m], s).is_ok());
            let y = h.call("ec-verify-asn1", &s, |s| k.verify_asn1::<Sha384>(&[&m], s).is_ok());
            h.call("ec-verify512", &s, |s| k.verify::<Sha512>(&[&m, &m], s).is_ok());
            h.c.check(x != Some(true) && y != Some(true), "ec-verify:accepted", || "an arbitrary signature verified".into());
        }
    }
}

fn ecsig(h: &mut Hz) {
    let mut r = h.c.rng("ecsig");
    ec_pub::<K256>(h, &mut r);
    ec_pub::<K384>(h, &mut r);
}

fn edsig(h: &mut Hz) {
    let mut r = h.c.rng("edsig");
    let n = h.c.n(20_000, 200_000);
    let p = (B::one() << 255usize) - 19u32;
    for _ in 0..n {
        if !h.c.more() {
            break;
        }
        let kl = if r.below(6) == 0 { r.below(80) } else { 32 };
        let kb = match r.below(4) {
            0 => {
                // y near p, with either sign
                let mut y = be(&(&p + 40u32 - r.below(80) as u32), 32);
                y.reverse();
                if r.bool() {
                    y[31] ^= 0x80;
                }
                y
            }
            1 => {
                let mut y = vec![0u8; 32];
                y[0] = r.below(12) as u8;
                y
            }
            _ => r.biased(kl),
        };
        let sl = if r.below(4) == 0 { r.below(140) } else { 64 };
        let s = r.biased(sl);
        let ml = r.below(300);
        let m = r.biased(ml);
        h.c.case("ed25519", format!("A={} sig={} msg {}", hex(&kb), hex(&s), hexs(&m)));
        match h.call("ed-public", &kb, eddsa::Ed25519VerifyingKey::from_bytes) {
            Some(Ok(k)) => {
                h.call("ed-verify", &s, |s| k.verify(s, &m).is_ok());
                h.call("ed-reencode", b"", |_| k.as_bytes());
            }
            Some(Err(_)) => h.c.observe("ed25519 public key refused", 1),
            None => {}
        }
        if let Some(Ok(k)) = h.call("ed-seed", &kb, eddsa::Ed25519SigningKey::from_bytes) {
            h.ed_priv(k);
        }
    }
}

fn points(h: &mut Hz) {
    fn go<K: Ka>(h: &mut Hz, r: &mut Rng) {
        let cv = K::curve();
        let full = 1 + 2 * cv.len;
        let pts = edge_points(r, cv, 20);
        let n = h.c.n(5000, 200_000);
        for _ in 0..n {
            if !h.c.more() {
                break;
            }
            let b = match r.below(6) {
                0 => {
                    let l = r.below(260);
                    r.biased(l)
                }
                1 => {
                    let mut b = r.biased(full);
                    b[0] = *r.pick(&[0u8, 2, 3, 4, 5, 6, 7]);
                    b
                }
                2 | 3 => {
                    let mut b = cv.enc(r.pick(&pts));
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                    b
                }
                4 => {
                    let mut b = cv.enc(r.pick(&pts));
                    let l = r.below(b.len() + 4);
                    b.resize(l, 0);
                    b
                }
                _ => cv.enc(r.pick(&pts)),
            };
            h.c.case("nist-point", format!("{} {}", cv.name, hexs(&b)));
            if let Some(Ok(p)) = h.call("point", &b, K::pub_from) {
                h.c.observe("point accepted and used", 1);
                let d = r.biased(cv.len);
                if let Some(Ok(s)) = h.call("scalar", &d, K::st_from) {
                    h.call("static-dh", b"", |_| K::st_dh(&s, &p).is_ok());
                    h.call("static-pub", b"", |_| K::st_pub(&s));
                }
                if let Some(Ok(s)) = h.call("ephemeral", b"", |_| K::eph_new()) {
                    h.call("ephemeral-dh", b"", |_| K::eph_dh(s, &p).is_ok());
                }
            }
            let l = r.below(120);
            let d = r.biased(l);
            h.c.case("nist-scalar", format!("{} {}", cv.name, hexs(&d)));
            if let Some(Ok(s)) = h.call("scalar", &d, K::st_from) {
                h.c.observe("scalar accepted and used", 1);
                h.call("static-pub", b"", |_| K::st_pub(&s));
                let kb = K::st_bytes(&s);
                if let Some(Ok(k)) = h.call("signer", &kb, |b| K::signer(b)) {
                    h.ec_key::<K>("raw scalar", k);
                }
            }
        }
    }
    let mut r = h.c.rng("points");
    go::<K256>(h, &mut r);
    go::<K384>(h, &mut r);
    for _ in 0..h.c.n(5000, 100_000) {
        if !h.c.more() {
            break;
        }
        let l = if r.bool() { 32 } else { r.below(80) };
        let b = r.biased(l);
        h.c.case("x25519", hexs(&b));
        let s = h.call("x25519-private", &b, x25519::StaticPrivateKey::try_from_slice);
        let p = h.call("x25519-public", &b, x25519::PublicKey::try_from_slice);
        h.c.check(matches!(s, Some(Ok(_))) == (l == 32) && matches!(p, Some(Ok(_))) == (l == 32), "x25519:length", || {
            "a 32-byte value was refused, or another length accepted".into()
        });
        if let (Some(Ok(s)), Some(Ok(p))) = (s, p) {
            h.call("x25519-dh", b"", |_| s.diffie_hellman(&p).is_ok());
            h.call("x25519-pub", b"", |_| s.public_key().as_bytes());
            if let Some(Ok(e)) = h.call("x25519-new", b"", |_| x25519::PrivateKey::new_random()) {
                h.call("x25519-edh", b"", |_| e.diffie_hellman(&p).is_ok());
            }
        }
    }
}

/// AEAD opening and tag comparison
fn open(h: &mut Hz) {
    let mut r = h.c.rng("open");
    let n = h.c.n(60_000, 400_000);
    let g2 = Guarded::new(1 << 16);
    let g3 = Guarded::new(1 << 16);
    for _ in 0..n {
        if !h.c.more() {
            break;
        }
        let alg = *r.pick(&ALGS);
        let key = r.biased(alg.key_len());
        let nonce = r.biased(alg.nonce_len());
        let lens = [r.below(20), r.below(70), r.below(300), r.below(700), r.below(5000)];
        let cl = *r.pick(&lens);
        let al = if r.bool() { *r.pick(&lens) } else { 0 };
        let tl = match r.below(4) {
            0 => r.below(40),
            1 => *r.pick(&[0usize, 1, 12, 15, 17, 32, 4096]),
            _ => 16,
        };
        let (ct, aad, tag) = (r.biased(cl), r.biased(al), r.biased(tl));
        h.c.case("aead-open", format!("{} key {} nonce {} ct {} aad {} tag {}", alg.name(), hex(&key), hex(&nonce), hexs(&ct), hexs(&aad), hexs(&tag)));
        let k = Real::new(alg, &key);
        let (gb, ga) = (g2.tail(cl), g3.tail(al));
        gb.copy_from_slice(&ct);
        ga.copy_from_slice(&aad);
        let ok = h.call("open", &tag, |t| k.dec(&nonce, ga, gb, t));
        h.c.check(ok != Some(true), "open:accepted", || "an arbitrary ciphertext was opened".into());
        h.c.observe("ciphertext refused", 1);
        let t2l = r.below(80);
        let t2 = r.biased(t2l);
        h.c.case("hmac-tag", format!("key {} tag {}", hexs(&ct), hex(&t2)));
        let a = h.call("hmac", &t2, |t| {
            let mut m = hmac::Hmac::<Sha256>::new(&ct);
            m.update(&aad);
            m.verify(t).is_ok()
        });
        let b = h.call("hmac", &t2, |t| {
            let mut m = hmac::Hmac::<Sha512>::new(&ct);
            m.update(&aad);
            m.verify(t).is_ok()
        });
        h.c.check(a != Some(true) && b != Some(true), "hmac:accepted", || "an arbitrary tag was accepted".into());
    }
}

fn mlkem(h: &mut Hz) {
    let mut r = h.c.rng("mlkem");
    let n = h.c.n(3000, 60_000);
    let seed: [u8; 64] = r.arr();
    for _ in 0..n {
        if !h.c.more() {
            break;
        }
        let ek = r.biased(1184);
        h.c.case("mlkem-ek", hexs(&ek));
        match h.call("ek", &ek, |b| ml::EncapKey::from_bytes(b.try_into().unwrap())) {
            Some(Ok(k)) => {
                h.c.observe("encapsulation key accepted and used", 1);
                h.call("encaps", b"", |_| k.encaps().is_ok());
            }
            Some(Err(_)) => h.c.observe("encapsulation key refused", 1),
            None => {}
        }
        // in-range coefficients, so the key is accepted
        let mut good = vec![0u8; 1184];
        for ch in good[..1152].chunks_mut(3) {
            let e = [0u32, 1, 1664, 1665, 3328];
            let (a, b) = if r.bool() { (*r.pick(&e), *r.pick(&e)) } else { (r.below(3329) as u32, r.below(3329) as u32) };
            let w = a | b << 12;
            ch.copy_from_slice(&w.to_le_bytes()[..3]);
        }
        r.fill(&mut good[1152..]);
        h.c.case("mlkem-ek", hexs(&good));
        if let Some(x) = h.call("ek", &good, |b| ml::EncapKey::from_bytes(b.try_into().unwrap())) {
            match x {
                Ok(k) => {
                    h.c.observe("encapsulation key accepted and used", 1);
                    h.call("encaps", b"", |_| k.encaps().is_ok());
                }
                Err(_) => h.c.fail("ek:refused", "an encapsulation key with coefficients in range was refused".into()),
            }
        }
        let ct = r.biased(1088);
        h.c.case("mlkem-ct", hexs(&ct));
        h.call("decaps", &ct, |b| {
            let dk = ml::DecapKey::keygen_internal(&seed);
            let _ = dk.decaps(&ml::Ciphertext::from(<[u8; 1088]>::try_from(b).unwrap()));
        });
    }
}

pub fn run_c17(c: &mut Ctx) {
    // every call runs on a small stack, so that unbounded use of it is seen
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(768 << 10)
            .spawn_scoped(s, || {
                let sec = c.section.clone();
                let mut h = Hz { c, g: Guarded::new(1 << 16), slowest: (0.0, String::new()) };
                match sec.as_str() {
                    "der" => der(&mut h),
                    "mutate" => mutate(&mut h),
                    "rsapriv" => rsapriv(&mut h),
                    "rsapub" => rsapub(&mut h),
                    "rsaem" => rsaem(&mut h),
                    "ecsig" => ecsig(&mut h),
                    "edsig" => edsig(&mut h),
                    "points" => points(&mut h),
                    "open" => open(&mut h),
                    "mlkem" => mlkem(&mut h),
                    s => panic!("section {s}"),
                }
                let s = h.slowest.clone();
                h.c.notes.insert("slowest call".into(), format!("{} {:.4} s of CPU", s.1, s.0));
            })
            .unwrap()
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e));
    });
}
