//! C27: signature schemes, chosen, made and verified as named.
use crate::Job;
use harness::rngctl::{self};
use harness::*;
use p256::ecdsa::signature::hazmat::{PrehashSigner as _, PrehashVerifier as _};
use p256::elliptic_curve::sec1::ToEncodedPoint as _;
use p256::pkcs8::{EncodePrivateKey as _, EncodePublicKey as _};
use rsa::pkcs1::{EncodeRsaPrivateKey as _, EncodeRsaPublicKey as _};
use rsa::traits::PublicKeyParts as _;
use rustls::SignatureScheme as S;
use rustls::pki_types::{PrivateKeyDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer, PrivateSec1KeyDer, SignatureVerificationAlgorithm, alg_id};
use rustls::sign::SigningKey;
use sha2::Digest as _;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Kind {
    Rsa,
    P256,
    P384,
    Ed,
}

/// how a signature is made: what an algorithm identifier pair says
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct How {
    kind: Kind,
    pss: bool,
    hash: u16,
}

const fn how(kind: Kind, pss: bool, hash: u16) -> How {
    How { kind, pss, hash }
}

const ALL: [How; 13] = [
    how(Kind::Rsa, false, 256),
    how(Kind::Rsa, false, 384),
    how(Kind::Rsa, false, 512),
    how(Kind::Rsa, true, 256),
    how(Kind::Rsa, true, 384),
    how(Kind::Rsa, true, 512),
    how(Kind::P256, false, 256),
    how(Kind::P256, false, 384),
    how(Kind::P256, false, 512),
    how(Kind::P384, false, 256),
    how(Kind::P384, false, 384),
    how(Kind::P384, false, 512),
    how(Kind::Ed, false, 0),
];

/// what a TLS scheme means
fn meaning(s: S) -> Option<How> {
    Some(match s {
        S::RSA_PKCS1_SHA256 => how(Kind::Rsa, false, 256),
        S::RSA_PKCS1_SHA384 => how(Kind::Rsa, false, 384),
        S::RSA_PKCS1_SHA512 => how(Kind::Rsa, false, 512),
        S::RSA_PSS_SHA256 => how(Kind::Rsa, true, 256),
        S::RSA_PSS_SHA384 => how(Kind::Rsa, true, 384),
        S::RSA_PSS_SHA512 => how(Kind::Rsa, true, 512),
        S::ECDSA_NISTP256_SHA256 => how(Kind::P256, false, 256),
        S::ECDSA_NISTP384_SHA384 => how(Kind::P384, false, 384),
        S::ED25519 => how(Kind::Ed, false, 0),
        _ => return None,
    })
}

const SCHEMES: [S; 9] = [S::RSA_PSS_SHA512, S::RSA_PSS_SHA384, S::RSA_PSS_SHA256, S::RSA_PKCS1_SHA512, S::RSA_PKCS1_SHA384, S::RSA_PKCS1_SHA256, S::ECDSA_NISTP384_SHA384, S::ECDSA_NISTP256_SHA256, S::ED25519];

fn decoys() -> Vec<S> {
    vec![S::RSA_PKCS1_SHA1, S::ECDSA_SHA1_Legacy, S::ECDSA_NISTP521_SHA512, S::ED448, S::Unknown(0x0809), S::Unknown(0x080a), S::Unknown(0x080b), S::Unknown(0xfe01), S::Unknown(0), S::Unknown(0x0904), S::Unknown(0x0804 ^ 0x8000)]
}

/// this kind of key's schemes, best first
fn preference(k: Kind) -> Vec<S> {
    SCHEMES.iter().copied().filter(|s| meaning(*s).unwrap().kind == k).collect()
}

fn of_alg(a: &dyn SignatureVerificationAlgorithm) -> Option<How> {
    let (p, s) = (a.public_key_alg_id(), a.signature_alg_id());
    let kind = if p == alg_id::RSA_ENCRYPTION {
        Kind::Rsa
    } else if p == alg_id::ECDSA_P256 {
        Kind::P256
    } else if p == alg_id::ECDSA_P384 {
        Kind::P384
    } else if p == alg_id::ED25519 {
        Kind::Ed
    } else {
        return None;
    };
    let table = [
        (alg_id::RSA_PKCS1_SHA256, Kind::Rsa, false, 256),
        (alg_id::RSA_PKCS1_SHA384, Kind::Rsa, false, 384),
        (alg_id::RSA_PKCS1_SHA512, Kind::Rsa, false, 512),
        (alg_id::RSA_PSS_SHA256, Kind::Rsa, true, 256),
        (alg_id::RSA_PSS_SHA384, Kind::Rsa, true, 384),
        (alg_id::RSA_PSS_SHA512, Kind::Rsa, true, 512),
        (alg_id::ECDSA_SHA256, Kind::P256, false, 256),
        (alg_id::ECDSA_SHA384, Kind::P256, false, 384),
        (alg_id::ECDSA_SHA512, Kind::P256, false, 512),
        (alg_id::ECDSA_SHA256, Kind::P384, false, 256),
        (alg_id::ECDSA_SHA384, Kind::P384, false, 384),
        (alg_id::ECDSA_SHA512, Kind::P384, false, 512),
        (alg_id::ED25519, Kind::Ed, false, 0),
    ];
    table.iter().find(|t| t.0 == s && t.1 == kind).map(|t| how(kind, t.2, t.3))
}

fn prehash(h: u16, m: &[u8]) -> Vec<u8> {
    match h {
        256 => sha2::Sha256::digest(m).to_vec(),
        384 => sha2::Sha384::digest(m).to_vec(),
        _ => sha2::Sha512::digest(m).to_vec(),
    }
}

enum Secret {
    Rsa(Box<rsa::RsaPrivateKey>),
    P256(p256::SecretKey),
    P384(p384::SecretKey),
    Ed(ed25519_dalek::SigningKey),
}

struct Key {
    name: String,
    kind: Kind,
    secret: Secret,
    ders: Vec<PrivateKeyDer<'static>>,
    /// as it is in a certificate's subjectPublicKey
    public: Vec<u8>,
    spki: Vec<u8>,
}

struct Or(Rng);
impl rand_core::RngCore for Or {
    fn next_u32(&mut self) -> u32 {
        self.0.u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.fill(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.0.fill(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Or {}

impl Key {
    fn rsa(name: String, k: rsa::RsaPrivateKey) -> Self {
        let p8 = k.to_pkcs8_der().unwrap().as_bytes().to_vec();
        let p1 = k.to_pkcs1_der().unwrap().as_bytes().to_vec();
        let pk = k.to_public_key();
        Self {
            name,
            kind: Kind::Rsa,
            ders: vec![PrivatePkcs8KeyDer::from(p8).into(), PrivatePkcs1KeyDer::from(p1).into()],
            public: pk.to_pkcs1_der().unwrap().as_bytes().to_vec(),
            spki: pk.to_public_key_der().unwrap().as_bytes().to_vec(),
            secret: Secret::Rsa(Box::new(k)),
        }
    }
    fn p256(name: String, k: p256::SecretKey) -> Self {
        let pk = k.public_key();
        Self {
            name,
            kind: Kind::P256,
            ders: vec![PrivatePkcs8KeyDer::from(k.to_pkcs8_der().unwrap().as_bytes().to_vec()).into(), PrivateSec1KeyDer::from(k.to_sec1_der().unwrap().to_vec()).into()],
            public: pk.to_encoded_point(false).as_bytes().to_vec(),
            spki: pk.to_public_key_der().unwrap().as_bytes().to_vec(),
            secret: Secret::P256(k),
        }
    }
    fn p384(name: String, k: p384::SecretKey) -> Self {
        let pk = k.public_key();
        Self {
            name,
            kind: Kind::P384,
            ders: vec![PrivatePkcs8KeyDer::from(k.to_pkcs8_der().unwrap().as_bytes().to_vec()).into(), PrivateSec1KeyDer::from(k.to_sec1_der().unwrap().to_vec()).into()],
            public: pk.to_encoded_point(false).as_bytes().to_vec(),
            spki: pk.to_public_key_der().unwrap().as_bytes().to_vec(),
            secret: Secret::P384(k),
        }
    }
    fn ed(name: String, seed: [u8; 32]) -> Self {
        let k = ed25519_dalek::SigningKey::from_bytes(&seed);
        let public = k.verifying_key().to_bytes().to_vec();
        Self {
            name,
            kind: Kind::Ed,
            ders: vec![PrivatePkcs8KeyDer::from([&unhex("302e020100300506032b657004220420")[..], &seed].concat()).into()],
            spki: [&unhex("302a300506032b6570032100")[..], &public].concat(),
            public,
            secret: Secret::Ed(k),
        }
    }

    /// signed by another implementation
    fn sign(&self, h: How, m: &[u8], r: &mut Rng) -> Option<Vec<u8>> {
        if h.kind != self.kind {
            return None;
        }
        let d = prehash(h.hash, m);
        Some(match &self.secret {
            Secret::Rsa(k) => {
                let mut o = Or(Rng::new(r.u64()));
                match (h.pss, h.hash) {
                    (false, 256) => k.sign(rsa::Pkcs1v15Sign::new::<sha2::Sha256>(), &d),
                    (false, 384) => k.sign(rsa::Pkcs1v15Sign::new::<sha2::Sha384>(), &d),
                    (false, _) => k.sign(rsa::Pkcs1v15Sign::new::<sha2::Sha512>(), &d),
                    (true, 256) => k.sign_with_rng(&mut o, rsa::Pss::new_with_salt::<sha2::Sha256>(32), &d),
                    (true, 384) => k.sign_with_rng(&mut o, rsa::Pss::new_with_salt::<sha2::Sha384>(48), &d),
                    (true, _) => k.sign_with_rng(&mut o, rsa::Pss::new_with_salt::<sha2::Sha512>(64), &d),
                }
                .unwrap()
            }
            Secret::P256(k) => {
                let s: p256::ecdsa::Signature = p256::ecdsa::SigningKey::from(k).sign_prehash(&d).unwrap();
                s.to_der().as_bytes().to_vec()
            }
            Secret::P384(k) => {
                let s: p384::ecdsa::Signature = p384::ecdsa::SigningKey::from(k).sign_prehash(&d).unwrap();
                s.to_der().as_bytes().to_vec()
            }
            Secret::Ed(k) => {
                use ed25519_dalek::Signer as _;
                k.sign(m).to_bytes().to_vec()
            }
        })
    }

    /// checked by another implementation
    fn verify(&self, h: How, m: &[u8], sig: &[u8]) -> bool {
        let d = prehash(h.hash, m);
        match &self.secret {
            Secret::Rsa(k) => {
                let k = k.to_public_key();
                match (h.pss, h.hash) {
                    (false, 256) => k.verify(rsa::Pkcs1v15Sign::new::<sha2::Sha256>(), &d, sig),
                    (false, 384) => k.verify(rsa::Pkcs1v15Sign::new::<sha2::Sha384>(), &d, sig),
                    (false, _) => k.verify(rsa::Pkcs1v15Sign::new::<sha2::Sha512>(), &d, sig),
                    (true, 256) => k.verify(rsa::Pss::new_with_salt::<sha2::Sha256>(32), &d, sig),
                    (true, 384) => k.verify(rsa::Pss::new_with_salt::<sha2::Sha384>(48), &d, sig),
                    (true, _) => k.verify(rsa::Pss::new_with_salt::<sha2::Sha512>(64), &d, sig),
                }
                .is_ok()
            }
            Secret::P256(k) => p256::ecdsa::Signature::from_der(sig).is_ok_and(|s| p256::ecdsa::VerifyingKey::from(k.public_key()).verify_prehash(&d, &s).is_ok()),
            Secret::P384(k) => p384::ecdsa::Signature::from_der(sig).is_ok_and(|s| p384::ecdsa::VerifyingKey::from(k.public_key()).verify_prehash(&d, &s).is_ok()),
            Secret::Ed(k) => <[u8; 64]>::try_from(sig).is_ok_and(|s| k.verifying_key().verify_strict(m, &ed25519_dalek::Signature::from_bytes(&s)).is_ok()),
        }
    }
}

fn fixture_rsa(i: usize) -> Option<Key> {
    let l = include_str!("../../harness/fixtures/rsa_keys.txt").lines().nth(i)?;
    let t: Vec<&str> = l.split(' ').collect();
    let b = |s: &str| rsa::BigUint::parse_bytes(s.as_bytes(), 16).unwrap();
    let k = rsa::RsaPrivateKey::from_p_q(b(t[1]), b(t[2]), b(t[3])).ok()?;
    Some(Key::rsa(format!("rsa fixture {i} ({} bits)", k.n().bits()), k))
}

fn keys(r: &mut Rng, n_rsa: usize) -> Vec<Key> {
    let mut v = vec![];
    let total = include_str!("../../harness/fixtures/rsa_keys.txt").lines().count();
    let mut i = 0;
    while v.len() < n_rsa && i < 60 {
        if let Some(k) = fixture_rsa(if i < 2 { i } else { r.below(total) }) {
            let Secret::Rsa(s) = &k.secret else { unreachable!() };
            // (what other implementations also take)
            if s.n().bits() >= 2048 && s.n().bits() <= 4096 && s.size() * 8 == s.n().bits() && s.e().bits() <= 33 && s.e().bits() > 1 {
                v.push(k);
            }
        }
        i += 1;
    }
    for j in 0..3 {
        let s = loop {
            if let Ok(k) = p256::SecretKey::from_slice(&r.biased(32)) {
                break k;
            }
        };
        v.push(Key::p256(format!("p-256 key {j}"), s));
        let s = loop {
            if let Ok(k) = p384::SecretKey::from_slice(&r.biased(48)) {
                break k;
            }
        };
        v.push(Key::p384(format!("p-384 key {j}"), s));
        v.push(Key::ed(format!("ed25519 key {j}"), r.biased(32).try_into().unwrap()));
    }
    v
}

fn load(der: &PrivateKeyDer<'static>) -> Result<Arc<dyn SigningKey>, rustls::Error> {
    rustls_graviola::default_provider().key_provider.load_private_key(der.clone_key())
}

fn algs() -> Vec<&'static dyn SignatureVerificationAlgorithm> {
    rustls_graviola::default_provider().signature_verification_algorithms.all.to_vec()
}

fn ring_algs() -> Vec<&'static dyn SignatureVerificationAlgorithm> {
    rustls::crypto::ring::default_provider().signature_verification_algorithms.all.to_vec()
}

fn label(d: &PrivateKeyDer<'_>) -> &'static str {
    match d {
        PrivateKeyDer::Pkcs1(_) => "PKCS#1",
        PrivateKeyDer::Pkcs8(_) => "PKCS#8",
        _ => "SEC1",
    }
}

/// which scheme is taken out of which offer
fn choose(ctx: &mut Ctx) {
    let mut r = ctx.rng("choose");
    for k in keys(&mut r, 4) {
        for der in &k.ders {
            ctx.case("load", format!("{} from {}: {}", k.name, label(der), hexs(der.secret_der())));
            let Some(Ok(key)) = ctx.call("load", || load(der)) else {
                ctx.fail("load", format!("{} from {} is not loaded", k.name, label(der)));
                continue;
            };
            let want = match k.kind {
                Kind::Rsa => rustls::SignatureAlgorithm::RSA,
                Kind::Ed => rustls::SignatureAlgorithm::ED25519,
                _ => rustls::SignatureAlgorithm::ECDSA,
            };
            ctx.check(key.algorithm() == want, "algorithm", || format!("{} says it is {:?}", k.name, key.algorithm()));
            if let Some(p) = ctx.call("public key", || key.public_key()) {
                match p {
                    Some(p) => {
                        ctx.eq("public key", p.as_ref(), &k.spki);
                    }
                    None => ctx.fail("public key", "none".into()),
                }
            }
            let pref = preference(k.kind);
            let dec = decoys();
            for set in 0..512usize {
                for order in 0..3 {
                    let mut offer: Vec<S> = (0..9).filter(|i| set >> i & 1 == 1).map(|i| SCHEMES[i]).collect();
                    if order > 0 {
                        for _ in 0..r.below(4) {
                            offer.push(*r.pick(&dec));
                        }
                        if !offer.is_empty() && r.bool() {
                            offer.push(*r.clone().pick(&offer));
                        }
                        for i in (1..offer.len()).rev() {
                            offer.swap(i, r.below(i + 1));
                        }
                    }
                    let want = pref.iter().find(|s| offer.contains(s)).copied();
                    ctx.case(&format!("offer to {:?}", k.kind), format!("{} {offer:?}", k.name));
                    let got = ctx.call("choose", || key.choose_scheme(&offer).map(|s| s.scheme()));
                    ctx.check(got == Some(want), "choice", || format!("{} offered {offer:?} takes {got:?}, not {want:?}", k.name));
                }
            }
        }
    }
}

/// signatures made here
fn make(ctx: &mut Ctx) {
    let mut r = ctx.rng("make");
    let ring = ring_algs();
    for round in 0..ctx.n(3, 30) {
        if !ctx.mine(round) {
            continue;
        }
        let ks = keys(&mut r, ctx.n(4, 8));
        for k in &ks {
            for der in &k.ders {
                if !ctx.more() {
                    return;
                }
                let Some(Ok(key)) = ctx.call("load", || load(der)) else {
                    ctx.fail("load", format!("{} from {} is not loaded", k.name, label(der)));
                    continue;
                };
                for s in preference(k.kind) {
                    for i in 0..3 {
                        let n = match i {
                            0 => r.below(3),
                            1 => r.below(300),
                            _ => r.below(5000),
                        };
                        let m = r.bytes(n);
                        let h = meaning(s).unwrap();
                        ctx.case(&format!("{s:?}"), format!("{} from {} message={}", k.name, label(der), hexs(&m)));
                        let Some(Some(signer)) = ctx.call("choose", || key.choose_scheme(&[s])) else {
                            ctx.fail("choice", format!("{s:?} is not offered"));
                            continue;
                        };
                        let sig = match ctx.call("sign", || signer.sign(&m)) {
                            Some(Ok(s)) => s,
                            Some(Err(e)) => {
                                ctx.fail("sign", format!("{e:?}"));
                                continue;
                            }
                            None => continue,
                        };
                        ctx.check(k.verify(h, &m, &sig), "signature", || format!("{s:?} signature {} is not valid under {h:?}", hexs(&sig)));
                        for a in ring.iter() {
                            if let Some(ah) = of_alg(*a) {
                                if ah.kind == k.kind {
                                    let ok = a.verify_signature(&k.public, &m, &sig).is_ok();
                                    ctx.check(ok == (ah == h), "signature", || format!("{s:?} signature {} is {} by ring's {ah:?}", hexs(&sig), if ok { "accepted" } else { "refused" }));
                                }
                            }
                        }
                        // with no randomness to be had: an error, not a signature
                        if r.below(3) == 0 {
                            rngctl::with(|s| {
                                s.calls = 0;
                                s.failures = 0;
                                s.fail_at = Some(0);
                                s.fail_all = true;
                            });
                            let x = ctx.call("sign", || signer.sign(&m));
                            let f = rngctl::with(|s| {
                                s.fail_at = None;
                                s.failures
                            });
                            if f > 0 {
                                ctx.observe("signatures refused without randomness", 1);
                                ctx.check(!matches!(x, Some(Ok(_))), "no randomness", || format!("{s:?}: a signature was made although the random source failed"));
                            }
                        }
                    }
                }
            }
        }
    }
}

/// every verifier against signatures of every kind
fn matrix(ctx: &mut Ctx) {
    let mut r = ctx.rng("matrix");
    let (algs, ring) = (algs(), ring_algs());
    ctx.check(ALL.iter().all(|h| algs.iter().filter(|a| of_alg(**a) == Some(*h)).count() == 1) && algs.len() == 13, "table", || "the algorithm table does not have each algorithm once".into());
    for round in 0..ctx.n(6, 60) {
        if !ctx.mine(round) {
            continue;
        }
        let ks = keys(&mut r, 3);
        for (ki, k) in ks.iter().enumerate() {
            for h in ALL {
                if !ctx.more() {
                    return;
                }
                let n = r.below(200);
                let m = r.bytes(n);
                let Some(sig) = k.sign(h, &m, &mut r) else { continue };
                ctx.case(&format!("{h:?}"), format!("{} message={} signature={}", k.name, hexs(&m), hexs(&sig)));
                for a in &algs {
                    let Some(ah) = of_alg(*a) else {
                        ctx.fail("table", format!("{a:?}: unknown identifiers"));
                        continue;
                    };
                    for (oi, o) in ks.iter().enumerate() {
                        if oi != ki && r.below(4) != 0 {
                            continue;
                        }
                        ctx.evals += 1;
                        let want = o.public == k.public && ah == h;
                        let got = ctx.call("verify", || a.verify_signature(&o.public, &m, &sig).is_ok());
                        ctx.check(got == Some(want), "verify", || format!("{ah:?} with {}: a valid {h:?} signature of {} is {}", o.name, k.name, if got == Some(true) { "accepted" } else { "refused" }));
                        ctx.observe(if want { "valid signatures put to their verifier" } else { "valid signatures put to another verifier or key" }, 1);
                    }
                    if ah != h {
                        continue;
                    }
                    // the right verifier and key, but something is altered
                    let rn = ring.iter().find(|x| of_alg(**x) == Some(h));
                    for i in 0..12 {
                        let (mut m2, mut s2, mut p2) = (m.clone(), sig.clone(), k.public.clone());
                        let what = match i {
                            0..=3 => {
                                let at = r.below(s2.len());
                                s2[at] ^= 1 << r.below(8);
                                "signature"
                            }
                            4 => {
                                s2.truncate(r.below(s2.len()));
                                "signature cut"
                            }
                            5 => {
                                s2.push(r.u64() as u8);
                                "signature lengthened"
                            }
                            6 => {
                                s2.insert(0, 0);
                                "zero before signature"
                            }
                            7 | 8 => {
                                if m2.is_empty() {
                                    m2.push(0);
                                } else {
                                    let at = r.below(m2.len());
                                    m2[at] ^= 1 << r.below(8);
                                }
                                "message"
                            }
                            9 => {
                                let at = r.below(p2.len());
                                p2[at] ^= 1 << r.below(8);
                                "key"
                            }
                            10 => {
                                p2.truncate(r.below(p2.len()));
                                "key cut"
                            }
                            _ => {
                                p2.push(0);
                                "key lengthened"
                            }
                        };
                        ctx.evals += 1;
                        let got = ctx.call("verify", || a.verify_signature(&p2, &m2, &s2).is_ok());
                        // altered DER can in principle say the same thing another way: ask the others
                        let fine = match rn {
                            Some(x) => x.verify_signature(&p2, &m2, &s2).is_ok(),
                            None => p2 == k.public && k.verify(h, &m2, &s2),
                        };
                        ctx.check(got != Some(true) || fine, "altered", || format!("{h:?} accepts an altered {what}: key {} message {} signature {}", hexs(&p2), hexs(&m2), hexs(&s2)));
                        ctx.observe("altered signatures, messages and keys", 1);
                    }
                }
            }
        }
        // TLS scheme table
        let map = rustls_graviola::default_provider().signature_verification_algorithms.mapping;
        for s in SCHEMES {
            ctx.case("scheme table", format!("{s:?}"));
            let h = meaning(s).unwrap();
            let e: Vec<_> = map.iter().filter(|x| x.0 == s).collect();
            if !ctx.check(e.len() == 1 && !e[0].1.is_empty(), "table", || format!("{s:?} is listed {} times", e.len())) {
                continue;
            }
            ctx.check(of_alg(e[0].1[0]) == Some(h), "table", || format!("{s:?} is verified as {:?}", of_alg(e[0].1[0])));
            for a in e[0].1 {
                let ah = of_alg(*a);
                let ec = |k| k == Kind::P256 || k == Kind::P384;
                ctx.check(ah.is_some_and(|x| x.hash == h.hash && x.pss == h.pss && (x.kind == h.kind || ec(x.kind) && ec(h.kind))), "table", || format!("{s:?} may be verified as {ah:?}"));
                // and it does what its label says
                for k in ks.iter().filter(|k| Some(k.kind) == ah.map(|x| x.kind)).take(2) {
                    let m = r.bytes(50);
                    let good = k.sign(ah.unwrap(), &m, &mut r).unwrap();
                    let got = ctx.call("verify", || a.verify_signature(&k.public, &m, &good).is_ok());
                    ctx.check(got == Some(true), "table", || format!("{s:?} refuses a good {ah:?} signature"));
                }
            }
        }
        ctx.check(map.iter().all(|x| SCHEMES.contains(&x.0)), "table", || "the scheme table has a scheme of unknown meaning".into());
    }
}

/// private keys nobody should load, and strings that are none
fn hostile(ctx: &mut Ctx) {
    let mut r = ctx.rng("hostile");
    let ks = keys(&mut r, 3);
    let algs = algs();
    let wrap = |b: Vec<u8>, i: usize| -> PrivateKeyDer<'static> {
        match i % 3 {
            0 => PrivatePkcs8KeyDer::from(b).into(),
            1 => PrivatePkcs1KeyDer::from(b).into(),
            _ => PrivateSec1KeyDer::from(b).into(),
        }
    };
    for round in 0..ctx.n(700, 6000) {
        if !ctx.mine(round) || !ctx.more() {
            continue;
        }
        let k = r.pick(&ks);
        let d = r.pick(&k.ders);
        let mut b = d.secret_der().to_vec();
        for _ in 0..1 + r.below(2) {
            match r.below(5) {
                0 => b.truncate(r.below(b.len() + 1)),
                1 => b.push(r.u64() as u8),
                2 => {
                    if !b.is_empty() {
                        b.remove(r.below(b.len().min(40)));
                    }
                }
                _ => {
                    if !b.is_empty() {
                        let at = if r.bool() { r.below(b.len().min(40)) } else { r.below(b.len()) };
                        b[at] = *r.clone().pick(&[0, 0xff, 0x80, 0x7f, 0x30, 2, r.u64() as u8]);
                    }
                }
            }
        }
        let which = match d {
            PrivateKeyDer::Pkcs8(_) => 0,
            PrivateKeyDer::Pkcs1(_) => 1,
            _ => 2,
        };
        let which = if r.below(4) == 0 { r.below(3) } else { which };
        ctx.case("private key", format!("{} altered, as {which}: {}", k.name, hexs(&b)));
        let der = wrap(b, which);
        if let Some(Ok(key)) = ctx.call("load", || load(&der)) {
            ctx.observe("altered keys still loaded", 1);
            // whatever it is, it works without a panic and its signature is its own
            let pk = ctx.call("public key", || key.public_key());
            if let Some(Some(s)) = ctx.call("choose", || key.choose_scheme(&SCHEMES)) {
                let _ = ctx.call("sign", || s.sign(b"message"));
            }
            let _ = pk;
        } else {
            ctx.observe("altered keys refused", 1);
        }
        // verifiers on strings of any kind
        let a = r.pick(&algs);
        let (p, s, m) = (r.below(600), r.below(600), r.below(100));
        let (p, s, m) = (if r.bool() { r.biased(p) } else { k.public.clone() }, r.biased(s), r.bytes(m));
        ctx.case("nonsense", format!("{:?} key={} signature={}", of_alg(*a), hexs(&p), hexs(&s)));
        let got = ctx.call("verify", || a.verify_signature(&p, &m, &s).is_ok());
        ctx.check(got == Some(false), "nonsense", || "accepted".into());
    }
    // curves and sizes that are not supported
    for (n, h) in [("p-521", "3081ee020100301006072a8648ce3d020106052b810400230481d63081d3020101044200"), ("secp256k1", "308184020100301006072a8648ce3d020106052b8104000a046d306b0201010420")] {
        ctx.case("unsupported", n.into());
        let mut b = unhex(h);
        b.extend(r.bytes(0xee + 3 - b.len().min(0xee)));
        let der = wrap(b, 0);
        let x = ctx.call("load", || load(&der).is_ok());
        ctx.check(x == Some(false), "unsupported", || format!("{n} key loaded"));
    }
}

pub fn jobs_c27(t: bool) -> Vec<Job> {
    let k = if t { 8 } else { 3 };
    vec![("choose", "native", 1), ("make", "native", k), ("make", "rel", 1), ("matrix", "native", k), ("matrix", "min", 1), ("matrix", "rel", 1), ("hostile", "native", k), ("hostile", "rel", 1)]
}

pub fn run_c27(ctx: &mut Ctx) {
    match ctx.section.as_str() {
        "choose" => choose(ctx),
        "make" => make(ctx),
        "matrix" => matrix(ctx),
        _ => hostile(ctx),
    }
}

/// a private key of the kind a certificate is named after, with no certificate
pub fn another(name: &str, r: &mut Rng) -> PrivateKeyDer<'static> {
    let want = match name {
        "ecdsa-p256" => Kind::P256,
        "ecdsa-p384" => Kind::P384,
        "ed25519" => Kind::Ed,
        _ => Kind::Rsa,
    };
    let bits: usize = name.strip_prefix("rsa-").map_or(0, |b| b.parse().unwrap());
    let mut all = vec![];
    if want == Kind::Rsa {
        for i in 0.. {
            let Some(l) = include_str!("../../harness/fixtures/rsa_keys.txt").lines().nth(i) else { break };
            let _ = l;
            if let Some(k) = fixture_rsa(i) {
                let Secret::Rsa(s) = &k.secret else { unreachable!() };
                // (ring takes no others)
                if s.n().bits() == bits && s.e().bits() == 17 && rsa::traits::PrivateKeyParts::primes(&**s).iter().all(|p| p.bits() * 2 == bits) {
                    return k.ders[0].clone_key();
                }
            }
        }
    }
    all.extend(keys(r, if want == Kind::Rsa { 1 } else { 0 }));
    all.iter().find(|k| k.kind == want).unwrap().ders[0].clone_key()
}
