//! C11 RSA verification, C12 RSA signing, C13 faults, C14 RSA key generation.
use crate::Job;
use crate::ecref::{B, be};
use crate::hash::{H, oracle};
use crate::nist::{self, K256, K384, Ka, der_int, der_tlv};
use graviola::Error;
use graviola::signing::rsa as grsa;
use harness::rngctl::{self, Mode};
use harness::*;
use num_integer::Integer as _;
use num_traits::{One, Zero};
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

#[derive(Clone)]
pub struct Key {
    pub name: String,
    pub p: B,
    pub q: B,
    pub e: B,
    pub d: B,
    pub n: B,
    pub dp: B,
    pub dq: B,
    pub iqmp: B,
    pub bits: usize,
    pub k: usize,
}

impl Key {
    pub fn new(name: &str, p: B, q: B, e: B) -> Self {
        let (p1, q1) = (&p - 1u32, &q - 1u32);
        let d = e.modinv(&p1.lcm(&q1)).unwrap();
        let n = &p * &q;
        let bits = n.bits() as usize;
        Self {
            name: name.into(),
            dp: &d % &p1,
            dq: &d % &q1,
            iqmp: q.modinv(&p).unwrap(),
            bits,
            k: bits.div_ceil(8),
            p,
            q,
            e,
            d,
            n,
        }
    }
    /// x^d mod n
    pub fn raw(&self, x: &B) -> B {
        let m1 = x.modpow(&self.dp, &self.p);
        let m2 = x.modpow(&self.dq, &self.q);
        let h = (&m1 + &self.p - (&m2 % &self.p)) * &self.iqmp % &self.p;
        m2 + &self.q * h
    }
    pub fn pub_der(&self) -> Vec<u8> {
        der_tlv(0x30, &[der_int(&self.n), der_int(&self.e)].concat())
    }
    pub fn priv_der(&self) -> Vec<u8> {
        self.priv_der_with(&[&self.n, &self.e, &self.d, &self.p, &self.q, &self.dp, &self.dq, &self.iqmp])
    }
    pub fn priv_der_with(&self, parts: &[&B]) -> Vec<u8> {
        let mut c = der_int(&B::zero());
        for p in parts {
            c.extend(der_int(p));
        }
        der_tlv(0x30, &c)
    }
}

pub fn keys() -> Vec<Key> {
    include_str!("../fixtures/rsa_keys.txt")
        .lines()
        .enumerate()
        .map(|(i, l)| {
            let t: Vec<&str> = l.split(' ').collect();
            let b = |s: &str| B::parse_bytes(s.as_bytes(), 16).unwrap();
            Key::new(&format!("{i}:{}", t[0]), b(t[1]), b(t[2]), b(t[3]))
        })
        .collect()
}

pub const HASHES: [H; 3] = [H::S256, H::S384, H::S512];

pub fn digest_info(h: H) -> Vec<u8> {
    let (id, len) = match h {
        H::S256 => (1, 32),
        H::S384 => (2, 48),
        _ => (3, 64),
    };
    vec![0x30, 17 + len, 0x30, 13, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, id, 5, 0, 4, len]
}

pub fn dig(h: H, m: &[u8]) -> Vec<u8> {
    oracle(h, m, 0)
}

pub fn pkcs1_em(k: usize, di: &[u8], hash: &[u8]) -> Vec<u8> {
    let t = [di, hash].concat();
    let mut v = vec![0, 1];
    v.resize(k - t.len() - 1, 0xff);
    v.push(0);
    v.extend(t);
    v
}

pub fn mgf1(h: H, seed: &[u8], len: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut c = 0u32;
    while o.len() < len {
        o.extend(dig(h, &[seed, &c.to_be_bytes()].concat()));
        c += 1;
    }
    o.truncate(len);
    o
}

/// Knobs for building a PSS encoding, all right by default.
#[derive(Clone)]
pub struct Pss {
    pub mgf: Option<H>,
    pub trailer: u8,
    pub sep: u8,
    pub prefix: [u8; 8],
    pub ps_flip: Option<usize>,
    pub keep_top: bool,
    pub h_flip: Option<usize>,
    pub db_flip: Option<usize>,
    pub db_xor: Vec<(usize, u8)>,
    pub h_xor: Vec<(usize, u8)>,
}

impl Default for Pss {
    fn default() -> Self {
        Self { mgf: None, trailer: 0xbc, sep: 1, prefix: [0; 8], ps_flip: None, keep_top: false, h_flip: None, db_flip: None, db_xor: vec![], h_xor: vec![] }
    }
}

pub fn pss_em(em_bits: usize, h: H, mhash: &[u8], salt: &[u8], o: &Pss) -> Vec<u8> {
    let em_len = em_bits.div_ceil(8);
    let hl = dig(h, b"").len();
    let mut hh = dig(h, &[&o.prefix[..], mhash, salt].concat());
    let dbl = em_len - hl - 1;
    let mut db = vec![0; dbl - salt.len() - 1];
    let psl = db.len();
    db.push(o.sep);
    db.extend(salt);
    if let Some(i) = o.ps_flip {
        if psl > 0 {
            db[i % psl] ^= 1 << (i % 8);
        }
    }
    if let Some(i) = o.db_flip {
        let j = i % db.len();
        db[j] ^= 1 << (i % 8);
    }
    for (i, x) in &o.db_xor {
        db[*i] ^= x;
    }
    for (i, x) in &o.h_xor {
        hh[*i] ^= x;
    }
    let mask = mgf1(o.mgf.unwrap_or(h), &hh, dbl);
    for (a, b) in db.iter_mut().zip(mask) {
        *a ^= b;
    }
    if !o.keep_top {
        db[0] &= 0xff >> (8 * em_len - em_bits);
    }
    if let Some(i) = o.h_flip {
        hh[i % hl] ^= 1 << (i % 8);
    }
    db.extend(hh);
    db.push(o.trailer);
    db
}

/// RFC 8017 8.1.2 / 9.1.2 with sLen = hLen
pub fn ref_pss(n: &B, e: &B, h: H, sig: &[u8], msg: &[u8]) -> bool {
    pss_salt(n, e, h, sig, msg).is_some()
}

/// the salt, if the signature is valid
pub fn pss_salt(n: &B, e: &B, h: H, sig: &[u8], msg: &[u8]) -> Option<Vec<u8>> {
    let bits = n.bits() as usize;
    let k = bits.div_ceil(8);
    let hl = dig(h, b"").len();
    if sig.len() != k {
        return None;
    }
    let s = B::from_bytes_be(sig);
    if &s >= n {
        return None;
    }
    let m = s.modpow(e, n);
    let em_bits = bits - 1;
    let em_len = em_bits.div_ceil(8);
    if m.bits() as usize > 8 * em_len || em_len < 2 * hl + 2 {
        return None;
    }
    let em = be(&m, em_len);
    if em[em_len - 1] != 0xbc {
        return None;
    }
    let (mdb, rest) = em.split_at(em_len - hl - 1);
    let hh = &rest[..hl];
    let top = 0xffu8 >> (8 * em_len - em_bits);
    if mdb[0] & !top != 0 {
        return None;
    }
    let mut db: Vec<u8> = mdb.iter().zip(mgf1(h, hh, mdb.len())).map(|(a, b)| a ^ b).collect();
    db[0] &= top;
    let z = em_len - 2 * hl - 2;
    if db[..z].iter().any(|x| *x != 0) || db[z] != 1 {
        return None;
    }
    let salt = &db[z + 1..];
    let hp = dig(h, &[&[0; 8][..], &dig(h, msg), salt].concat());
    (hp == hh).then(|| salt.to_vec())
}

pub fn ref_pkcs1(n: &B, e: &B, h: H, sig: &[u8], msg: &[u8]) -> bool {
    let k = n.bits().div_ceil(8) as usize;
    if sig.len() != k {
        return false;
    }
    let s = B::from_bytes_be(sig);
    if &s >= n {
        return false;
    }
    be(&s.modpow(e, n), k) == pkcs1_em(k, &digest_info(h), &dig(h, msg))
}

pub fn verify(k: &grsa::VerifyingKey, pss: bool, h: H, sig: &[u8], msg: &[u8]) -> Result<(), Error> {
    match (pss, h) {
        (false, H::S256) => k.verify_pkcs1_sha256(sig, msg),
        (false, H::S384) => k.verify_pkcs1_sha384(sig, msg),
        (false, _) => k.verify_pkcs1_sha512(sig, msg),
        (true, H::S256) => k.verify_pss_sha256(sig, msg),
        (true, H::S384) => k.verify_pss_sha384(sig, msg),
        (true, _) => k.verify_pss_sha512(sig, msg),
    }
}

pub fn sign<'a>(k: &grsa::SigningKey, pss: bool, h: H, out: &'a mut [u8], msg: &[u8]) -> Result<&'a [u8], Error> {
    match (pss, h) {
        (false, H::S256) => k.sign_pkcs1_sha256(out, msg),
        (false, H::S384) => k.sign_pkcs1_sha384(out, msg),
        (false, _) => k.sign_pkcs1_sha512(out, msg),
        (true, H::S256) => k.sign_pss_sha256(out, msg),
        (true, H::S384) => k.sign_pss_sha384(out, msg),
        (true, _) => k.sign_pss_sha512(out, msg),
    }
}

// ---- C11 ----

pub fn jobs_c11(_t: bool) -> Vec<Job> {
    vec![("forge", "native", 16), ("dense", "native", 8), ("lengths", "native", 4), ("keys", "native", 2)]
}

struct V<'a> {
    key: &'a Key,
    vk: grsa::VerifyingKey,
}

impl V<'_> {
    fn offer(&self, ctx: &mut Ctx, class: &str, pss: bool, h: H, sig: &[u8], msg: &[u8]) {
        ctx.case(class, format!("{} {} {} sig={} msg={}", self.key.name, if pss { "pss" } else { "pkcs1" }, h.name(), hexs(sig), hexs(msg)));
        let want = if pss { ref_pss(&self.key.n, &self.key.e, h, sig, msg) } else { ref_pkcs1(&self.key.n, &self.key.e, h, sig, msg) };
        ctx.observe(if want { "valid signature offered" } else { "invalid signature offered" }, 1);
        let Some(got) = ctx.call("verify", || verify(&self.vk, pss, h, sig, msg)) else { return };
        ctx.check(got.is_ok() == want, if want { "valid-rejected" } else { "invalid-accepted" }, || format!("verdict {got:?}, reference {want}; full signature {}", hex(sig)));
        if let Err(e) = got {
            ctx.check(e == Error::BadSignature, "error-kind", || format!("{e:?}"));
        }
    }
    /// sign this encoding (as an integer below n) and offer it
    fn em(&self, ctx: &mut Ctx, class: &str, pss: bool, h: H, em: &[u8], msg: &[u8]) {
        let x = B::from_bytes_be(em);
        if x >= self.key.n {
            return;
        }
        let s = be(&self.key.raw(&x), self.key.k);
        self.offer(ctx, class, pss, h, &s, msg);
    }
}

fn pkcs1_variants(r: &mut Rng, k: usize, h: H, msg: &[u8], dense: usize) -> Vec<(&'static str, Vec<u8>)> {
    let di = digest_info(h);
    let hash = dig(h, msg);
    let good = pkcs1_em(k, &di, &hash);
    let mut v = vec![("valid", good.clone())];
    let t = [&di[..], &hash].concat();
    // single bytes
    for j in 0..dense {
        let i = if j < 6 { j } else { r.below(k) };
        let mut x = good.clone();
        x[i] ^= 1 << r.below(8);
        v.push(("encoding bit", x));
    }
    for b in [0u8, 2, 3, 0xff] {
        let mut x = good.clone();
        x[1] = b;
        v.push(("block type", x));
    }
    let mut x = good.clone();
    x[0] = 1;
    v.push(("leading byte", x));
    // digest info bytes one by one
    for i in 0..di.len() {
        let mut x = good.clone();
        x[k - t.len() + i] ^= 1 << r.below(8);
        v.push(("digest info bit", x));
    }
    // short padding with garbage at the end, for several PS lengths
    for ps in [0usize, 1, 7, 8, 9, 16, 100] {
        let mut x = vec![0, 1];
        x.extend(std::iter::repeat_n(0xff, ps));
        x.push(0);
        x.extend(&t);
        if x.len() < k {
            for fill in [0u8, 0xff, 0x5a] {
                let mut y = x.clone();
                y.resize(k, fill);
                v.push(("short padding, trailing bytes", y));
            }
            // garbage hidden before the final hash
            let mut y = vec![0, 1];
            y.extend(std::iter::repeat_n(0xff, ps));
            y.push(0);
            y.extend(&di);
            let g = k - y.len() - hash.len();
            y.extend(r.bytes(g));
            y.extend(&hash);
            v.push(("garbage before hash", y));
            // zeroes between the padding and the digest info
            let mut y = vec![0, 1];
            y.extend(std::iter::repeat_n(0xff, ps));
            let z = k - y.len() - t.len();
            y.extend(std::iter::repeat_n(0, z));
            y.extend(&t);
            v.push(("zero padding", y));
        }
    }
    // PS with a byte other than ff at each kind of position
    for i in [2, 3, 9, 10, k / 2, k - t.len() - 2] {
        for b in [0u8, 0xfe, 1] {
            let mut x = good.clone();
            x[i] = b;
            v.push(("padding byte", x));
        }
    }
    // separator
    let mut x = good.clone();
    x[k - t.len() - 1] = 0xff;
    v.push(("no separator", x));
    // no digest info at all
    v.push(("raw hash", pkcs1_em(k, &[], &hash)));
    // NULL parameters left out (accepted by some, not RFC 8017 encoding)
    let hl = hash.len() as u8;
    let mut d2 = vec![0x30, 15 + hl, 0x30, 11];
    d2.extend(&di[4..15]);
    d2.extend([4, hl]);
    v.push(("no parameters", pkcs1_em(k, &d2, &hash)));
    // BER long-form length
    let mut d3 = vec![0x30, 0x81, 17 + hl];
    d3.extend(&di[2..]);
    v.push(("BER length", pkcs1_em(k, &d3, &hash)));
    // octet string tag as bit string; digest one byte short/long
    let mut d4 = di.clone();
    d4[17] = 3;
    v.push(("wrong tag", pkcs1_em(k, &d4, &hash)));
    v.push(("hash truncated", pkcs1_em(k, &di, &hash[..hash.len() - 1])));
    v.push(("hash extended", pkcs1_em(k, &di, &[&hash[..], &[0]].concat())));
    for o in HASHES {
        if o != h {
            v.push(("other digest info", pkcs1_em(k, &digest_info(o), &hash)));
            v.push(("other hash", pkcs1_em(k, &di, &dig(o, msg))));
            v.push(("other algorithm", pkcs1_em(k, &digest_info(o), &dig(o, msg))));
        }
    }
    v.push(("hash of nothing", pkcs1_em(k, &di, &dig(h, b""))));
    v.push(("zero hash", pkcs1_em(k, &di, &vec![0; hash.len()])));
    v.push(("zero", vec![0; k]));
    let mut x = vec![0; k];
    x[k - 1] = 1;
    v.push(("one", x));
    // shifted by one byte either way
    let mut x = good.clone();
    x.rotate_left(1);
    v.push(("rotated", x));
    let mut x = good.clone();
    x.rotate_right(1);
    v.push(("rotated", x));
    let mut x = good[1..].to_vec();
    x.push(0);
    v.push(("shifted", x));
    v
}

fn pss_variants(r: &mut Rng, bits: usize, h: H, msg: &[u8], dense: usize) -> Vec<(&'static str, Vec<u8>)> {
    let mh = dig(h, msg);
    let hl = mh.len();
    let eb = bits - 1;
    let el = eb.div_ceil(8);
    let salt = r.bytes(hl);
    let d = Pss::default();
    let mut v = vec![("valid", pss_em(eb, h, &mh, &salt, &d))];
    v.push(("valid", pss_em(eb, h, &mh, &vec![0; hl], &d)));
    v.push(("valid", pss_em(eb, h, &mh, &vec![0xff; hl], &d)));
    for sl in [0usize, 1, 8, 16, 20, 31, 32, 33, 47, 48, 49, 63, 64, 65, el - hl - 2] {
        if sl != hl && sl + hl + 2 <= el {
            v.push(("other salt length", pss_em(eb, h, &mh, &r.bytes(sl), &d)));
        }
    }
    for t in [0u8, 0xbd, 0xcc, 0x3c, 0xba, 0xff] {
        v.push(("trailer", pss_em(eb, h, &mh, &salt, &Pss { trailer: t, ..d.clone() })));
    }
    for s in [0u8, 2, 3, 0x81, 0xff] {
        v.push(("separator", pss_em(eb, h, &mh, &salt, &Pss { sep: s, ..d.clone() })));
    }
    for o in HASHES {
        if o != h {
            v.push(("other MGF", pss_em(eb, h, &mh, &salt, &Pss { mgf: Some(o), ..d.clone() })));
            v.push(("other message hash", pss_em(eb, h, &dig(o, msg), &salt, &d)));
            v.push(("other hash entirely", pss_em(eb, o, &dig(o, msg), &r.bytes(dig(o, b"").len()), &d)));
        }
    }
    for i in 0..8 {
        let mut p = [0; 8];
        p[i] = 1;
        v.push(("M' prefix", pss_em(eb, h, &mh, &salt, &Pss { prefix: p, ..d.clone() })));
    }
    for _ in 0..dense {
        v.push(("padding not zero", pss_em(eb, h, &mh, &salt, &Pss { ps_flip: Some(r.below(1 << 20)), ..d.clone() })));
        v.push(("H bit", pss_em(eb, h, &mh, &salt, &Pss { h_flip: Some(r.below(1 << 20)), ..d.clone() })));
        v.push(("DB bit", pss_em(eb, h, &mh, &salt, &Pss { db_flip: Some(r.below(1 << 20)), ..d.clone() })));
    }
    // first padding bytes specifically: bits next to the cleared ones
    for i in 0..8 {
        v.push(("padding not zero, first byte", pss_em(eb, h, &mh, &salt, &Pss { ps_flip: Some(i * 0), ..d.clone() })));
        let mut x = pss_em(eb, h, &mh, &salt, &d);
        x[0] ^= 1 << i;
        v.push(("first byte bit", x));
    }
    // top bits left in place (too many bits), or one bit too few
    for _ in 0..6 {
        let s = r.bytes(hl);
        v.push(("top bits kept", pss_em(eb, h, &mh, &s, &Pss { keep_top: true, ..d.clone() })));
        for b in [eb + 1, eb + 2, eb - 1, eb - 7, eb + 7] {
            v.push(("emBits off", pss_em(b, h, &mh, &s, &d)));
        }
    }
    let good = pss_em(eb, h, &mh, &salt, &d);
    for _ in 0..dense {
        let mut x = good.clone();
        x[r.below(el)] ^= 1 << r.below(8);
        v.push(("encoding bit", x));
    }
    v.push(("zero", vec![0; el]));
    v
}

/// An encoding with this data block and H, both as they are.
pub fn pss_raw(em_bits: usize, h: H, db: &[u8], hh: &[u8]) -> Vec<u8> {
    let em_len = em_bits.div_ceil(8);
    let mut em = mgf1(h, hh, db.len());
    for (a, b) in em.iter_mut().zip(db) {
        *a ^= b;
    }
    em[0] &= 0xff >> (8 * em_len - em_bits);
    em.extend(hh);
    em.push(0xbc);
    em
}

/// Encodings of the right length whose inside is built to run a careless decoder off its end.
pub fn odd_ems(r: &mut Rng, bits: usize, pss: bool, h: H, msg: &[u8], n: usize) -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![];
    let hash = dig(h, msg);
    let hl = hash.len();
    if pss {
        let eb = bits - 1;
        let dbl = eb.div_ceil(8) - hl - 1;
        let psl = dbl - hl - 1;
        for hh in [r.bytes(hl), vec![0; hl], vec![0xff; hl]] {
            v.push(("data block of zeroes", pss_raw(eb, h, &vec![0; dbl], &hh)));
            v.push(("data block of ones", pss_raw(eb, h, &vec![0xff; dbl], &hh)));
        }
        let mut ats = vec![0, 1, 2, psl - 2, psl - 1, psl, psl + 1, psl + 2, dbl - 2, dbl - 1, dbl - hl, hl, 2 * hl];
        ats.extend((0..n).map(|_| r.below(dbl)));
        for at in ats {
            let at = at % dbl;
            for tail in 0..3 {
                let mut db = vec![0; dbl];
                if tail > 0 {
                    db[at + 1..].copy_from_slice(&r.bytes(dbl - at - 1));
                }
                db[at] = if tail == 2 { r.u64() as u8 } else { 1 };
                v.push(("separator elsewhere", pss_raw(eb, h, &db, &r.bytes(hl))));
            }
            // the same with the right H for a salt that starts after that separator
            let mut db = vec![0; dbl];
            db[at] = 1;
            let salt = r.bytes(dbl - at - 1);
            db[at + 1..].copy_from_slice(&salt);
            if at != psl {
                let hh = dig(h, &[&[0; 8][..], &hash, &salt].concat());
                v.push(("separator elsewhere, H to match", pss_raw(eb, h, &db, &hh)));
            }
        }
        return v;
    }
    let k = bits.div_ceil(8);
    let di = digest_info(h);
    let t = [&di[..], &hash].concat();
    let fill = |a: u8, b: u8, ps: usize, rest: &[u8]| {
        let mut x = vec![a, b];
        x.extend(std::iter::repeat_n(0xff, ps.min(k - 2)));
        x.extend(&rest[..rest.len().min(k - x.len())]);
        x.resize(k, 0);
        x
    };
    for (a, b) in [(0, 1), (0, 0), (0, 2)] {
        v.push(("nothing but padding", fill(a, b, k, &[])));
        v.push(("padding, then zeroes", fill(a, b, 0, &[])));
        for ps in [1, 7, 8, 9, k - 3, k - 4, k - 5, r.below(k), r.below(k)] {
            v.push(("padding, then zeroes", fill(a, b, ps, &[])));
            v.push(("padding, then the start of a structure", fill(a, b, ps, &[&[0][..], &t].concat())));
            let g = r.bytes(k);
            v.push(("padding, then anything", fill(a, b, ps, &g)));
        }
    }
    for cut in 0..t.len() {
        if cut < 22 || cut + 3 > t.len() || r.below(t.len()) < n {
            v.push(("structure cut short", pkcs1_em(k, &t[..cut], &[])));
            v.push(("structure without its start", pkcs1_em(k, &t[cut..], &[])));
        }
    }
    for at in [1, 3, 5, 16, di.len() - 1] {
        for l in [0u8, 1, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0xfe, 0xff] {
            let mut x = t.clone();
            x[at] = l;
            v.push(("structure with another length", pkcs1_em(k, &x, &[])));
            let long = [&t[..at], &[l, 0xff, 0xff, 0xff, 0xff], &t[at + 1..]].concat();
            v.push(("structure with a long length", pkcs1_em(k, &long, &[])));
        }
    }
    v
}

pub fn run_c11(ctx: &mut Ctx) {
    let ks = keys();
    let mut r = ctx.rng("v");
    match ctx.section.as_str() {
        "forge" => {
            for (i, key) in ks.iter().enumerate() {
                if !ctx.mine(i) || !ctx.more() {
                    continue;
                }
                ctx.case("import", format!("{} {} bits", key.name, key.bits));
                let Some(vk) = ctx.call("import", || grsa::VerifyingKey::from_pkcs1_der(&key.pub_der())) else { continue };
                let vk = match vk {
                    Ok(v) => v,
                    Err(e) => {
                        // below 2048 bits a key may be refused
                        ctx.check(key.bits < 2048, "key-refused", || format!("{e:?}"));
                        continue;
                    }
                };
                let v = V { key, vk };
                let big = key.bits > 3000;
                let rounds = if ctx.tier_thorough { 8 } else { 1 };
                for round in 0..rounds {
                    for h in HASHES {
                        let ml = r.below(200);
                        let msg = r.bytes(ml);
                        let dense = if big { 4 } else { 16 };
                        let odd = odd_ems(&mut r, key.bits, false, h, &msg, dense / 4);
                        for (class, em) in pkcs1_variants(&mut r, key.k, h, &msg, dense).into_iter().chain(odd) {
                            if big && !ctx.tier_thorough && class != "valid" && r.below(key.bits / 400) != 0 {
                                continue;
                            }
                            v.em(ctx, &format!("pkcs1 {class}"), false, h, &em, &msg);
                        }
                        let odd = odd_ems(&mut r, key.bits, true, h, &msg, dense / 4);
                        for (class, em) in pss_variants(&mut r, key.bits, h, &msg, dense).into_iter().chain(odd) {
                            if big && !ctx.tier_thorough && class != "valid" && r.below(key.bits / 400) != 0 {
                                continue;
                            }
                            v.em(ctx, &format!("pss {class}"), true, h, &em, &msg);
                        }
                        // genuine signatures crossed over schemes, hashes, messages, keys
                        let s1 = be(&key.raw(&B::from_bytes_be(&pkcs1_em(key.k, &digest_info(h), &dig(h, &msg)))), key.k);
                        let salt = r.bytes(dig(h, b"").len());
                        let s2 = be(&key.raw(&B::from_bytes_be(&pss_em(key.bits - 1, h, &dig(h, &msg), &salt, &Pss::default()))), key.k);
                        for (s, pss) in [(&s1, false), (&s2, true)] {
                            for h2 in HASHES {
                                for p2 in [false, true] {
                                    v.offer(ctx, "crossed", p2, h2, s, &msg);
                                }
                            }
                            let mut m2 = msg.clone();
                            m2.push(0);
                            v.offer(ctx, "other message", pss, h, s, &m2);
                            if !msg.is_empty() {
                                v.offer(ctx, "other message", pss, h, s, &msg[1..]);
                            }
                            // signature bits
                            for _ in 0..if big { 8 } else { 40 } {
                                let mut x = s.clone();
                                x[r.below(key.k)] ^= 1 << r.below(8);
                                v.offer(ctx, "signature bit", pss, h, &x, &msg);
                            }
                            // congruent values and negation
                            let si = B::from_bytes_be(s);
                            for x in [&si + &key.n, &key.n - &si, &si + &key.n * 2u32] {
                                if x.bits() as usize <= 8 * key.k {
                                    v.offer(ctx, "congruent or negated", pss, h, &be(&x, key.k), &msg);
                                }
                            }
                            if (round, h) == (0, H::S256) {
                                for x in [B::zero(), B::one(), &key.n - 1u32, key.n.clone(), key.p.clone(), key.q.clone(), (B::one() << (8 * key.k)) - 1u32] {
                                    v.offer(ctx, "special value", pss, h, &be(&x, key.k), &msg);
                                }
                            }
                        }
                    }
                }
            }
        }
        "dense" => {
            // every byte of the encoding alone, and pairs and triples of bytes whose changes
            // cancel in a sum or an exclusive or, in each part of the encoding
            let key = &ks[34];
            let v = V { key, vk: grsa::VerifyingKey::from_pkcs1_der(&key.pub_der()).unwrap() };
            let msg = b"dense";
            for (hi, h) in HASHES.into_iter().enumerate() {
                let mh = dig(h, msg);
                let hl = mh.len();
                let di = digest_info(h);
                let good = pkcs1_em(key.k, &di, &mh);
                let k = key.k;
                let tl = di.len() + hl;
                let regions = [(0, 2), (2, k - tl - 1), (k - tl - 1, k - tl), (k - tl, k - hl), (k - hl, k), (0, k)];
                let el = (key.bits - 1).div_ceil(8);
                let psl = el - 2 * hl - 2;
                let pregions = [(0usize, psl), (psl, psl + 1), (psl + 1, psl + 1 + hl), (0, psl + 1), (0, el - hl - 1)];
                let salt = r.bytes(hl);
                for i in 0..k {
                    if !ctx.mine(i) || !ctx.more() {
                        continue;
                    }
                    let mut x = good.clone();
                    x[i] ^= 1 << r.below(8);
                    v.em(ctx, "pkcs1 one byte", false, h, &x, msg);
                    if i < el - hl - 1 && i != 0 {
                        let o = Pss { db_xor: vec![(i, 1 << r.below(8))], ..Default::default() };
                        v.em(ctx, "pss one DB byte", true, h, &pss_em(key.bits - 1, h, &mh, &salt, &o), msg);
                    }
                    if i < hl {
                        let o = Pss { h_xor: vec![(i, 1 << r.below(8))], ..Default::default() };
                        v.em(ctx, "pss one H byte", true, h, &pss_em(key.bits - 1, h, &mh, &salt, &o), msg);
                    }
                }
                for n in 0..ctx.n(120, 4000) {
                    if !ctx.mine(n + hi) || !ctx.more() {
                        continue;
                    }
                    let pick = |r: &mut Rng, (a, b): (usize, usize), top: u8| -> Option<Vec<(usize, u8)>> {
                        if b - a < 2 {
                            return None;
                        }
                        let i = a + r.below(b - a);
                        let j = a + r.below(b - a);
                        let l = a + r.below(b - a);
                        if i == j || j == l || i == l || (top != 0xff && (i == 0 || j == 0 || l == 0)) {
                            return None;
                        }
                        let d = 1 + r.below(255) as u8;
                        Some(match r.below(4) {
                            0 => vec![(i, d), (j, d)],
                            1 => vec![(i, 0x80), (j, 0x80)],
                            2 => vec![(i, d), (j, d.wrapping_neg())],
                            _ => {
                                let e = 1 + r.below(255) as u8;
                                if e == d {
                                    return None;
                                }
                                vec![(i, d), (j, e), (l, d ^ e)]
                            }
                        })
                    };
                    for g in regions {
                        if let Some(p) = pick(&mut r, g, 0xff) {
                            let mut x = good.clone();
                            for (i, d) in p {
                                x[i] ^= d;
                            }
                            v.em(ctx, "pkcs1 cancelling bytes", false, h, &x, msg);
                        }
                        // two bytes exchanged, a run of bytes shifted
                        let (a, b) = (g.0 + r.below(g.1 - g.0), g.0 + r.below(g.1 - g.0));
                        let mut x = good.clone();
                        x.swap(a, b);
                        v.em(ctx, "pkcs1 bytes exchanged", false, h, &x, msg);
                    }
                    for g in pregions {
                        if let Some(p) = pick(&mut r, g, 0) {
                            let o = Pss { db_xor: p, ..Default::default() };
                            v.em(ctx, "pss cancelling DB bytes", true, h, &pss_em(key.bits - 1, h, &mh, &salt, &o), msg);
                        }
                    }
                    if let Some(p) = pick(&mut r, (0, hl), 0xff) {
                        let o = Pss { h_xor: p, ..Default::default() };
                        v.em(ctx, "pss cancelling H bytes", true, h, &pss_em(key.bits - 1, h, &mh, &salt, &o), msg);
                    }
                }
            }
        }
        "lengths" => {
            for (i, key) in ks.iter().enumerate() {
                if !ctx.mine(i) || !ctx.more() || (key.bits > 2600 && i % 3 != 0) {
                    continue;
                }
                let Ok(vk) = grsa::VerifyingKey::from_pkcs1_der(&key.pub_der()) else { continue };
                let v = V { key, vk };
                // a message whose signature starts with zero bytes, so that shortened
                // encodings have the right value
                for pss in [false, true] {
                    let h = *r.pick(&HASHES);
                    let tries = if key.bits > 2600 { 30 } else { ctx.n(250, 1500) };
                    for t in 0..tries {
                        let m = [r.bytes(8), vec![t as u8]].concat();
                        let em = if pss {
                            pss_em(key.bits - 1, h, &dig(h, &m), &r.bytes(dig(h, b"").len()), &Pss::default())
                        } else {
                            pkcs1_em(key.k, &digest_info(h), &dig(h, &m))
                        };
                        let s = be(&key.raw(&B::from_bytes_be(&em)), key.k);
                        if s[0] != 0 && t + 1 != tries {
                            continue;
                        }
                        ctx.observe(if s[0] == 0 { "signature with leading zero byte" } else { "signature without leading zero byte" }, 1);
                        v.offer(ctx, "exact length", pss, h, &s, &m);
                        let mut cut = s.clone();
                        while !cut.is_empty() && cut[0] == 0 {
                            cut.remove(0);
                            v.offer(ctx, "leading zero dropped", pss, h, &cut, &m);
                        }
                        for n in [1, 2, 3, 7, 8, 9, 16, 64, 1024 - key.k.min(1024), 1025 - key.k.min(1024), 2000] {
                            let mut x = vec![0; n];
                            x.extend(&s);
                            if n > 0 {
                                v.offer(ctx, "zeroes prepended", pss, h, &x, &m);
                                let mut x = s.clone();
                                x.extend(vec![0; n]);
                                v.offer(ctx, "zeroes appended", pss, h, &x, &m);
                            }
                        }
                        for n in 0..key.k {
                            if n < 40 || n + 20 > key.k || n % 13 == 0 {
                                v.offer(ctx, "truncated", pss, h, &s[..n], &m);
                                v.offer(ctx, "front cut", pss, h, &s[key.k - n..], &m);
                            }
                        }
                        break;
                    }
                }
            }
            for n in 0..1200 {
                if ctx.mine(n) {
                    let key = &ks[0];
                    let v = V { key, vk: grsa::VerifyingKey::from_pkcs1_der(&key.pub_der()).unwrap() };
                    for b in [0u8, 1, 0xff] {
                        for h in HASHES {
                            v.offer(ctx, "any length", n % 2 == 0, h, &vec![b; n], b"m");
                        }
                    }
                }
            }
        }
        "keys" => {
            // which public keys are supported: odd modulus of 2048 to 8192 bits, exponent up to 32 bits
            for bits in [2048usize, 2049, 2055, 2056, 2057, 2060, 2111, 2112, 2113, 3000, 4096, 4097, 8000, 8191, 8192, 1024, 1536, 2000, 2032, 2040, 8193, 8200, 8256, 9000, 16384] {
                for e in [1u64, 2, 3, 5, 17, 65537, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x1ffffffff, u64::MAX] {
                    if !ctx.mine(bits.wrapping_add(e as usize)) {
                        continue;
                    }
                    let mut n = B::from_bytes_be(&r.bytes(bits.div_ceil(8)));
                    n %= B::one() << bits;
                    n.set_bit(bits as u64 - 1, true);
                    n.set_bit(0, true);
                    let der = der_tlv(0x30, &[der_int(&n), der_int(&B::from(e))].concat());
                    ctx.case("public key", format!("{bits} bits, e={e}"));
                    let Some(g) = ctx.call("import", || grsa::VerifyingKey::from_pkcs1_der(&der)) else { continue };
                    if (2048..=8192).contains(&bits) && e <= 0xffffffff && e > 2 && e % 2 == 1 {
                        ctx.check(g.is_ok(), "key-refused", || format!("{g:?}"));
                    }
                    if bits > 8192 || bits <= 2040 || e > 0xffffffff {
                        ctx.check(g.is_err(), "key-accepted", || "unsupported key accepted".into());
                    }
                    if let Ok(k) = g {
                        // e=1: the "signature" is the encoding itself; exact arithmetic visible
                        if e == 1 {
                            for h in HASHES {
                                let kl = bits.div_ceil(8);
                                let em = pkcs1_em(kl, &digest_info(h), &dig(h, b"x"));
                                let v = ctx.call("verify", || verify(&k, false, h, &em, b"x"));
                                ctx.check(matches!(v, Some(Ok(()))), "valid-rejected", || format!("e=1: {v:?}"));
                            }
                        }
                    }
                }
            }
            // even moduli, zero exponent, negative integers
            for (what, der) in [
                ("even modulus", der_tlv(0x30, &[der_int(&(&ks[0].n + 1u32)), der_int(&ks[0].e)].concat())),
                ("zero exponent", der_tlv(0x30, &[der_int(&ks[0].n), der_int(&B::zero())].concat())),
                ("zero modulus", der_tlv(0x30, &[der_int(&B::zero()), der_int(&ks[0].e)].concat())),
                ("negative modulus", der_tlv(0x30, &[der_tlv(2, &be(&((B::one() << 2047) + (&ks[0].n >> 1)), 256)), der_int(&ks[0].e)].concat())),
                ("negative exponent", der_tlv(0x30, &[der_int(&ks[0].n), der_tlv(2, &[0xff, 1])].concat())),
                ("trailing data", [ks[0].pub_der(), vec![0]].concat()),
            ] {
                ctx.case("bad public key", what.into());
                let g = ctx.call("import", || grsa::VerifyingKey::from_pkcs1_der(&der).map(|_| ()));
                ctx.check(matches!(g, Some(Err(_))), "key-accepted", || format!("{g:?}"));
            }
        }
        s => panic!("section {s}"),
    }
}

// ---- C12 ----

pub fn jobs_c12(_t: bool) -> Vec<Job> {
    vec![("sign", "native", 16), ("sign", "min", 4), ("salt", "native", 2)]
}

pub fn run_c12(ctx: &mut Ctx) {
    let ks = keys();
    let mut r = ctx.rng("s");
    match ctx.section.as_str() {
        "sign" => {
            let native = ctx.config == "native";
            for (i, key) in ks.iter().enumerate() {
                if !ctx.mine(i) || !ctx.more() || (!native && i % 5 != 0) {
                    continue;
                }
                ctx.case("import", format!("{} {} bits", key.name, key.bits));
                let der = key.priv_der();
                let Some(sk) = ctx.call("import", || grsa::SigningKey::from_pkcs1_der(&der)) else { continue };
                let sk = match sk {
                    Ok(k) => k,
                    Err(e) => {
                        ctx.observe(&format!("key not accepted: {} {e:?}", key.name), 1);
                        // supported: 2048..8192 bits, two primes of equal size
                        let bal = key.p.bits() == key.q.bits();
                        ctx.check(!(bal && key.bits >= 2048), "key-refused", || format!("{e:?}"));
                        continue;
                    }
                };
                ctx.check(sk.modulus_len_bytes() == key.k, "modulus length", || format!("{} != {}", sk.modulus_len_bytes(), key.k));
                let count = if key.bits > 5000 { 1 } else if key.bits > 2900 { ctx.n(2, 40) } else { ctx.n(8, 400) };
                for j in 0..count {
                    for h in HASHES {
                        for pss in [false, true] {
                            if !ctx.more() {
                                break;
                            }
                            let ml = r.below(300);
                            let msg = r.bytes(ml);
                            let extra = [0usize, 0, 1, 7, 8, 100][r.below(6)];
                            ctx.case(if pss { "pss" } else { "pkcs1" }, format!("{} {} msg={} buffer +{extra} #{j}", key.name, h.name(), hexs(&msg)));
                            let mut buf = vec![0xa5; key.k + extra];
                            let Some(g) = ctx.call("sign", || sign(&sk, pss, h, &mut buf, &msg).map(|s| s.to_vec())) else { continue };
                            let s = match g {
                                Ok(s) => s,
                                Err(e) => {
                                    ctx.fail("sign-failed", format!("{e:?}"));
                                    continue;
                                }
                            };
                            ctx.check(s.len() == key.k, "length", || format!("signature of {} bytes, modulus {}", s.len(), key.k));
                            ctx.check(buf[..s.len().min(buf.len())] == s[..], "placement", || "returned slice is not the front of the buffer".into());
                            ctx.check(buf[s.len().min(buf.len())..].iter().all(|b| *b == 0xa5), "overrun", || "bytes after the signature changed".into());
                            if pss {
                                match pss_salt(&key.n, &key.e, h, &s, &msg) {
                                    Some(salt) => {
                                        ctx.check(salt.iter().any(|b| *b != salt[0]), "salt", || format!("salt {}", hex(&salt)));
                                    }
                                    None => ctx.fail("invalid", format!("PSS signature not valid: {}", hex(&s))),
                                }
                            } else {
                                let want = be(&key.raw(&B::from_bytes_be(&pkcs1_em(key.k, &digest_info(h), &dig(h, &msg)))), key.k);
                                ctx.eq("pkcs1 signature", &s, &want);
                            }
                            if j == 0 {
                                let pk = sk.public_key();
                                let v = ctx.call("verify", || verify(&pk, pss, h, &s, &msg));
                                ctx.check(matches!(v, Some(Ok(()))), "own signature rejected", || format!("{v:?}"));
                            }
                        }
                    }
                }
                // buffers that are too small
                for n in [0, 1, key.k / 2, key.k - 8, key.k - 1] {
                    for pss in [false, true] {
                        ctx.case("small buffer", format!("{} {n} of {} pss={pss}", key.name, key.k));
                        let mut buf = vec![0xa5; n];
                        let Some(g) = ctx.call("sign", || sign(&sk, pss, H::S256, &mut buf, b"m").map(|s| s.len())) else { continue };
                        ctx.check(g.is_err(), "small buffer accepted", || format!("{g:?}"));
                        ctx.check(buf.iter().all(|b| *b == 0xa5), "partial signature", || "the buffer was written".into());
                    }
                }
                // through PKCS#8
                let p8 = der_tlv(0x30, &[der_int(&B::zero()), unhex("300d06092a864886f70d0101010500"), der_tlv(4, &der)].concat());
                ctx.case("pkcs8", key.name.clone());
                if let Some(g) = ctx.call("import", || grsa::SigningKey::from_pkcs8_der(&p8)) {
                    match g {
                        Ok(k2) => {
                            let mut b = vec![0; key.k];
                            let a = k2.sign_pkcs1_sha256(&mut b, b"m").map(|x| x.to_vec());
                            let mut b = vec![0; key.k];
                            let c = sk.sign_pkcs1_sha256(&mut b, b"m").map(|x| x.to_vec());
                            ctx.check(a == c, "pkcs8 key differs", || "different signatures".into());
                        }
                        Err(e) => ctx.fail("pkcs8", format!("{e:?}")),
                    }
                }
            }
        }
        "salt" => {
            // salts never repeat, whatever key, hash or message
            let mut seen: HashSet<Vec<u8>> = HashSet::new();
            let ks: Vec<&Key> = ks.iter().filter(|k| k.bits == 2048 && k.p > k.q && k.p.bits() == 1024).collect();
            for i in 0..ctx.n(400, 8000) {
                if !ctx.more() {
                    break;
                }
                let key = ks[i % 2];
                let sk = grsa::SigningKey::from_pkcs1_der(&key.priv_der()).unwrap();
                let h = HASHES[i % 3];
                ctx.case("salt", format!("{} {} #{i}", key.name, h.name()));
                let mut b = vec![0; key.k];
                let s = sign(&sk, true, h, &mut b, b"same message").unwrap().to_vec();
                match pss_salt(&key.n, &key.e, h, &s, b"same message") {
                    Some(salt) => {
                        for w in [&salt[..8], &salt[salt.len() - 8..], &salt[8..16], &salt[salt.len() - 16..salt.len() - 8]] {
                            // the four windows coincide for no digest length up to 8-byte chunks of 32
                            if !seen.insert(w.to_vec()) {
                                ctx.fail("salt reuse", format!("salt {} shares eight bytes with an earlier salt", hex(&salt)));
                            }
                        }
                    }
                    None => ctx.fail("invalid", "PSS signature not valid".into()),
                }
            }
        }
        s => panic!("section {s}"),
    }
}

// ---- C13 ----

pub fn jobs_c13(_t: bool) -> Vec<Job> {
    vec![("rsa-der", "native", 6), ("rsa-mem", "native", 8), ("rsa-live", "native", 4), ("ecdh", "native", 4), ("live", "native", 8)]
}

/// An Ok result must be a valid signature.
fn contained(ctx: &mut Ctx, key: &Key, sk: &grsa::SigningKey, pss: bool, h: H, msg: &[u8]) -> bool {
    let mut buf = vec![0xa5; key.k + 16];
    let Some(g) = ctx.call("fault", || sign(sk, pss, h, &mut buf, msg).map(|s| s.to_vec())) else { return true };
    match g {
        Ok(s) => {
            let ok = if pss { ref_pss(&key.n, &key.e, h, &s, msg) } else { ref_pkcs1(&key.n, &key.e, h, &s, msg) };
            ctx.check(ok, "faulty signature released", || format!("invalid signature {}", hex(&s)));
            ctx.observe("fault without effect", 1);
            false
        }
        Err(_) => {
            ctx.observe("fault reported", 1);
            let bad = buf.windows(8).any(|w| w.iter().any(|b| *b != 0xa5));
            ctx.check(!bad, "buffer written on error", || format!("buffer {}", hexs(&buf)));
            true
        }
    }
}

fn words(x: &B, n: usize) -> Vec<u8> {
    let mut v = x.to_bytes_le();
    v.resize(8 * n, 0);
    v
}

/// where a value lies in an object's memory
fn find(hay: &[u8], needle: &[u8]) -> Vec<usize> {
    hay.windows(needle.len()).enumerate().filter(|(i, w)| i % 8 == 0 && *w == needle).map(|(i, _)| i).collect()
}

fn obj_bytes<T>(x: &T) -> (*mut u8, usize) {
    ((x as *const T as *mut T).cast(), size_of::<T>())
}

pub fn run_c13(ctx: &mut Ctx) {
    let ks: Vec<Key> = keys();
    let mut r = ctx.rng("f");
    let pick: Vec<&Key> = ks.iter().filter(|k| ["n2048", "n3072", "n4096", "e3", "plessq2048", "n2560", "highones", "unbal1088of2048"].contains(&k.name.split(':').nth(1).unwrap())).collect();
    match ctx.section.as_str() {
        "rsa-der" => {
            // a key whose stored parts disagree
            for i in 0..ctx.n(900, 40_000) {
                if !ctx.more() {
                    break;
                }
                let key = pick[i % pick.len()];
                if key.bits > 2600 && i % 3 != 0 && !ctx.tier_thorough {
                    continue;
                }
                let mut parts = [key.n.clone(), key.e.clone(), key.d.clone(), key.p.clone(), key.q.clone(), key.dp.clone(), key.dq.clone(), key.iqmp.clone()];
                let which = [3, 4, 5, 6, 7][r.below(5)];
                let bits = parts[which].bits();
                let how = r.below(6);
                let desc;
                match how {
                    0..=2 => {
                        let b = r.below(bits as usize) as u64;
                        let v = parts[which].bit(b);
                        parts[which].set_bit(b, !v);
                        desc = format!("bit {b} flipped");
                    }
                    3 => {
                        let w = r.below(bits.div_ceil(64) as usize) as u64;
                        let mask = (B::one() << 64) - 1u32;
                        let x = &parts[which];
                        let old = (x >> (64 * w)) & &mask;
                        parts[which] = x - (old << (64 * w)) + (B::from(r.u64()) << (64 * w));
                        desc = format!("word {w} replaced");
                    }
                    4 => {
                        parts[which] += 1 + r.below(3) as u32;
                        desc = "incremented".into();
                    }
                    _ => {
                        let o = [3usize, 4, 5, 6, 7][r.below(5)];
                        parts[which] = parts[o].clone();
                        desc = format!("replaced by part {o}");
                    }
                }
                let der = key.priv_der_with(&parts.iter().collect::<Vec<_>>());
                let h = HASHES[i % 3];
                ctx.case("inconsistent key", format!("{} part {which} {desc} {} pss={}", key.name, h.name(), i % 2 == 0));
                match ctx.call("import", || grsa::SigningKey::from_pkcs1_der(&der)) {
                    Some(Ok(sk)) => {
                        contained(ctx, key, &sk, i % 2 == 0, h, &r.bytes(20));
                    }
                    Some(Err(_)) => ctx.observe("refused at import", 1),
                    None => {}
                }
            }
        }
        "rsa-mem" => {
            // flip stored key words in memory, found by their value
            for (i, key) in pick.iter().enumerate() {
                let sk = Box::new(grsa::SigningKey::from_pkcs1_der(&key.priv_der()).unwrap());
                let (base, size) = obj_bytes(&*sk);
                // SAFETY: reading the bytes of an initialised plain-data object
                let img: Vec<u8> = (0..size).map(|i| unsafe { base.add(i).read_volatile() }).collect();
                let pw = key.p.bits().div_ceil(64) as usize;
                let qw = key.q.bits().div_ceil(64) as usize;
                let rp = (B::one() << (64 * pw)) % &key.p;
                let rq = (B::one() << (64 * qw)) % &key.q;
                let neg_inv = |m: &B| {
                    let two = B::one() << 64;
                    let inv = B::modinv(&(m % &two), &two).unwrap();
                    &two - inv
                };
                let targets = [
                    ("p", words(&key.p, pw)),
                    ("q", words(&key.q, qw)),
                    ("dp", words(&key.dp, key.dp.bits().div_ceil(64) as usize)),
                    ("dq", words(&key.dq, key.dq.bits().div_ceil(64) as usize)),
                    ("iqmp", words(&key.iqmp, key.iqmp.bits().div_ceil(64) as usize)),
                    ("iqmp in Montgomery form", words(&(&key.iqmp * &rp % &key.p), pw)),
                    ("R^2 mod p", words(&(&rp * &rp % &key.p), pw)),
                    ("R^2 mod q", words(&(&rq * &rq % &key.q), qw)),
                    ("-1/p mod 2^64", words(&neg_inv(&key.p), 1)),
                    ("-1/q mod 2^64", words(&neg_inv(&key.q), 1)),
                ];
                for (name, val) in targets {
                    let at = find(&img, &val);
                    ctx.observe(&format!("locations of {name} in the key object"), at.len() as u64);
                    for pos in at {
                        let n = if key.bits > 2600 { ctx.n(3, 60) } else { ctx.n(10, 400) };
                        for j in 0..n {
                            if !ctx.more() {
                                return;
                            }
                            let bit = r.below(8 * val.len());
                            if !ctx.mine(i * 131 + j) {
                                continue;
                            }
                            let h = HASHES[j % 3];
                            ctx.case("key word flipped", format!("{} {name} bit {bit} {} pss={}", key.name, h.name(), j % 2 == 1));
                            // SAFETY: within the boxed object
                            let a = unsafe { base.add(pos + bit / 8) };
                            let old = img[pos + bit / 8];
                            unsafe { a.write_volatile(old ^ (1 << (bit % 8))) };
                            contained(ctx, key, &sk, j % 2 == 1, h, &r.bytes(12));
                            unsafe { a.write_volatile(old) };
                        }
                    }
                }
                // restored: the key works again
                ctx.case("restored key", key.name.clone());
                let mut b = vec![0; key.k];
                let ok = sk.sign_pkcs1_sha256(&mut b, b"m").is_ok();
                ctx.check(ok, "restored key", || "no longer signs".into());
            }
        }
        "rsa-live" => {
            // another thread flips key words while a signature is being computed
            let key = pick[0];
            let sk = Box::new(grsa::SigningKey::from_pkcs1_der(&key.priv_der()).unwrap());
            let (base, size) = obj_bytes(&*sk);
            // SAFETY: as above
            let img: Vec<u8> = (0..size).map(|i| unsafe { base.add(i).read_volatile() }).collect();
            let vals = [&key.p, &key.q, &key.dp, &key.dq];
            let spots: Vec<(usize, usize)> = vals.iter().flat_map(|v| {
                let w = words(v, v.bits().div_ceil(64) as usize);
                find(&img, &w).into_iter().map(move |p| (p, w.len())).collect::<Vec<_>>()
            }).collect();
            ctx.observe("fault locations", spots.len() as u64);
            if spots.is_empty() {
                ctx.case("no location", "key words not found in the object".into());
                return;
            }
            let stop = AtomicBool::new(false);
            let flips = AtomicU64::new(0);
            let b2 = base as usize;
            let mut r2 = r.clone();
            std::thread::scope(|s| {
                s.spawn(|| {
                    while !stop.load(Ordering::Relaxed) {
                        let (p, l) = spots[r2.below(spots.len())];
                        let bit = r2.below(8 * l);
                        let a = (b2 + p + bit / 8) as *mut u8;
                        let wait = r2.below(200_000);
                        for _ in 0..wait {
                            std::hint::spin_loop();
                        }
                        // SAFETY: deliberate fault in our own boxed object
                        unsafe { a.write_volatile(a.read_volatile() ^ (1 << (bit % 8))) };
                        for _ in 0..r2.below(20_000) {
                            std::hint::spin_loop();
                        }
                        unsafe { a.write_volatile(a.read_volatile() ^ (1 << (bit % 8))) };
                        flips.fetch_add(1, Ordering::Relaxed);
                    }
                });
                for i in 0..ctx.n(400, 10_000) {
                    if !ctx.more() {
                        break;
                    }
                    let h = HASHES[i % 3];
                    ctx.case("transient fault", format!("{} {} pss={} #{i} shard {}", key.name, h.name(), i % 2 == 0, ctx.shard));
                    contained(ctx, key, &sk, i % 2 == 0, h, &r.bytes(12));
                }
                stop.store(true, Ordering::Relaxed);
            });
            ctx.observe("transient flips injected", flips.load(Ordering::Relaxed));
        }
        "ecdh" => {
            ecdh_faults::<K256>(ctx, &mut r);
            ecdh_faults::<K384>(ctx, &mut r);
        }
        "live" => {
            let n = ctx.n(3, 100);
            for _ in 0..n {
                live_ec::<K256>(ctx, &mut r, 6);
                live_ec::<K384>(ctx, &mut r, 6);
            }
            live_rsa(ctx, &mut r, &pick);
        }
        s => panic!("section {s}"),
    }
}

/// one bit of the running computation flipped, in its first part (what follows checks it)
fn live_ec<K: Ka>(ctx: &mut Ctx, r: &mut Rng, n: usize) {
    use crate::inject::{Outcome, run};
    let c = K::curve();
    let d = crate::ecref::rand_below(r, &c.n);
    let sk = K::st_from(&c.be(&d)).unwrap();
    let peer = c.mul_g(&crate::ecref::rand_below(r, &c.n));
    let pk = K::pub_from(&c.enc(&peer)).unwrap();
    let pubkey = || Some(K::st_pub(&sk));
    let dh = || K::st_dh(&sk, &pk).ok();
    let ops: [(&str, &dyn Fn() -> Option<Vec<u8>>); 2] = [("public key", &pubkey), ("agreement", &dh)];
    for (what, f) in ops {
        let Some(right) = f() else {
            ctx.case("no fault", format!("{} {what}", c.name));
            ctx.fail("no fault", "operation refused with no fault injected".into());
            return;
        };
        for i in 0..n {
            if !ctx.more() {
                return;
            }
            let (at, pick) = (1 + r.below(20_000) as u64, r.u64() | 1);
            ctx.case("bit of the computation flipped", format!("{} {what} d={d:x} after {at} instructions, place {pick:x} #{i}", c.name));
            let (o, done) = run(at, pick, f);
            // (the whole takes several 100 000 instructions)
            if done == 0 || done > 24_000 {
                ctx.observe("fault not placed in the first part", 1);
                continue;
            }
            match o {
                Outcome::Output(v) if v == right => ctx.observe("fault without effect", 1),
                Outcome::Output(v) => {
                    let on = if v.len() == right.len() && v.len() % 2 == 1 {
                        let h = v.len() / 2;
                        c.on_curve(&B::from_bytes_be(&v[1..1 + h]), &B::from_bytes_be(&v[1 + h..]))
                    } else {
                        c.lift_x(&B::from_bytes_be(&v), false).is_some()
                    };
                    ctx.check(on, "off-curve result", || format!("{what} {} is not on the curve", hex(&v)));
                    ctx.observe("other point on the curve", 1);
                }
                Outcome::Refused => ctx.observe("fault reported", 1),
                Outcome::Died => ctx.observe("fault ended the process", 1),
            }
        }
    }
}

fn live_rsa(ctx: &mut Ctx, r: &mut Rng, pick: &[&Key]) {
    use crate::inject::{Outcome, run};
    for i in 0..ctx.n(3, 60) {
        if !ctx.more() {
            return;
        }
        let key = pick[0];
        let sk = grsa::SigningKey::from_pkcs1_der(&key.priv_der()).unwrap();
        let msg = r.bytes(9);
        let h = HASHES[i % 3];
        let (at, place) = (30_000 + r.below(30_000) as u64, r.u64() | 1);
        let f = || {
            let mut b = vec![0; key.k];
            sign(&sk, false, h, &mut b, &msg).ok().map(|s| s.to_vec())
        };
        ctx.case("bit of the computation flipped", format!("{} {} after {at} instructions, place {place:x}", key.name, h.name()));
        match run(at, place, &f) {
            (Outcome::Output(s), n) => {
                // not a fault of the message or its hash, which come first
                let ok = ref_pkcs1(&key.n, &key.e, h, &s, &msg);
                if n == 0 || n > 100_000 || n < 30_000 {
                    ctx.observe("fault not placed in the exponentiation", 1);
                } else if ok {
                    ctx.observe("fault without effect", 1);
                } else {
                    // a valid signature of another encoding is a fault of the input, not of the computation
                    let m = B::from_bytes_be(&s).modpow(&key.e, &key.n);
                    let em = be(&m, key.k);
                    let padded = em[..2] == [0, 1] && em[2..key.k / 2].iter().all(|b| *b == 0xff);
                    ctx.check(padded, "faulty signature released", || format!("invalid signature {}", hex(&s)));
                }
            }
            (Outcome::Refused, _) => ctx.observe("fault reported", 1),
            (Outcome::Died, _) => ctx.observe("fault ended the process", 1),
        }
    }
}

fn ecdh_faults<K: Ka>(ctx: &mut Ctx, r: &mut Rng) {
    let c = K::curve();
    for i in 0..ctx.n(700, 30_000) {
        if !ctx.more() {
            return;
        }
        let sk = K::st_from(&c.be(&crate::ecref::rand_below(r, &c.n))).unwrap();
        let peer = c.mul_g(&crate::ecref::rand_below(r, &c.n));
        let pk = Box::new(K::pub_from(&c.enc(&peer)).unwrap());
        let (base, size) = obj_bytes(&*pk);
        let n = 1 + r.below(3);
        let mut at = vec![];
        for _ in 0..n {
            let bit = r.below(8 * size);
            at.push(bit);
            // SAFETY: deliberate fault: the object is plain field elements
            unsafe {
                let a = base.add(bit / 8);
                a.write_volatile(a.read_volatile() ^ (1 << (bit % 8)));
            }
        }
        ctx.case("peer key corrupted", format!("{} {} bits {at:?} of {size} bytes, #{i}", c.name, hex(&c.enc(&peer))));
        let want = c.mul(&B::from_bytes_be(&K::st_bytes(&sk)), &peer).0.unwrap().0;
        match ctx.call("dh", || K::st_dh(&sk, &pk)) {
            Some(Ok(x)) => {
                let xv = B::from_bytes_be(&x);
                if xv == want {
                    ctx.observe("fault without effect", 1);
                } else {
                    let on = c.lift_x(&xv, false).is_some();
                    ctx.check(on, "off-curve secret", || format!("secret {} is no x coordinate of the curve", hex(&x)));
                    ctx.observe("other point on the curve", 1);
                }
            }
            Some(Err(_)) => ctx.observe("fault reported", 1),
            None => {}
        }
        // SAFETY: undo
        for bit in at {
            unsafe {
                let a = base.add(bit / 8);
                a.write_volatile(a.read_volatile() ^ (1 << (bit % 8)));
            }
        }
    }
}

// ---- C14 ----

pub fn jobs_c14(t: bool) -> Vec<Job> {
    let mut v = vec![("2048", "native", 8), ("3072", "native", 4), ("4096", "native", 4), ("hostile", "native", 8), ("liars", "native", 8)];
    if t {
        v.push(("6144", "native", 8));
        v.push(("8192", "native", 8));
    }
    v
}

fn prime(r: &mut Rng, bits: usize) -> B {
    loop {
        let mut x = B::from_bytes_be(&r.bytes(bits / 8));
        x.set_bit(bits as u64 - 1, true);
        x.set_bit(bits as u64 - 2, true);
        x.set_bit(0, true);
        if [3u32, 5, 7, 11, 13, 17, 19, 23, 29, 31].iter().all(|p| !(&x % p).is_zero()) && probably_prime(&x, r, 2) {
            return x;
        }
    }
}

pub fn probably_prime(n: &B, r: &mut Rng, rounds: usize) -> bool {
    for p in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if (n % p).is_zero() {
            return n == &B::from(p);
        }
    }
    let n1 = n - 1u32;
    let s = n1.trailing_zeros().unwrap();
    let d = &n1 >> s;
    'w: for _ in 0..rounds {
        let a = B::from(2u32) + crate::ecref::rand_below(r, &(n - 4u32));
        let mut x = a.modpow(&d, n);
        if x.is_one() || x == n1 {
            continue;
        }
        for _ in 1..s {
            x = &x * &x % n;
            if x == n1 {
                continue 'w;
            }
        }
        return false;
    }
    true
}

/// the integers of a PKCS#1 private key
pub fn parse_priv(der: &[u8]) -> Option<Vec<B>> {
    let k = pkcs1::RsaPrivateKey::try_from(der).ok()?;
    let u = |x: pkcs1::UintRef| B::from_bytes_be(x.as_bytes());
    Some(vec![u(k.modulus), u(k.public_exponent), u(k.private_exponent), u(k.prime1), u(k.prime2), u(k.exponent1), u(k.exponent2), u(k.coefficient)])
}

pub fn well_formed(ctx: &mut Ctx, r: &mut Rng, bits: usize, sk: &grsa::SigningKey) -> Option<Key> {
    let mut buf = vec![0; 6000];
    let der = match ctx.call("export", || sk.to_pkcs1_der(&mut buf).map(|b| b.to_vec())) {
        Some(Ok(d)) => d,
        x => {
            ctx.fail("export", format!("{x:?}"));
            return None;
        }
    };
    let Some(v) = parse_priv(&der) else {
        ctx.fail("export", format!("an independent parser refuses the exported key {}", hex(&der)));
        return None;
    };
    let [n, e, d, p, q, dp, dq, iqmp] = &v[..] else { unreachable!() };
    ctx.check(n.bits() as usize == bits, "modulus size", || format!("{} bits", n.bits()));
    ctx.check(e == &B::from(65537u32), "exponent", || format!("{e}"));
    ctx.check(p != q, "p equals q", || format!("{p:x}"));
    ctx.check(&(p * q) == n, "n is not p q", || format!("{}", hex(&der)));
    ctx.check(p.bits() as usize == bits / 2 && q.bits() as usize == bits / 2, "prime size", || format!("{} {}", p.bits(), q.bits()));
    for x in [p, q] {
        ctx.check(probably_prime(x, r, 4), "not prime", || format!("{x:x}"));
    }
    let (p1, q1) = (p - 1u32, q - 1u32);
    ctx.check((e * d % &p1).is_one() && (e * d % &q1).is_one(), "d", || format!("{d:x}"));
    ctx.check(d < n && d.bits() as usize > bits / 2, "d size", || format!("{d:x}"));
    ctx.check(dp == &(d % &p1) && dq == &(d % &q1), "crt exponents", || format!("{dp:x} {dq:x}"));
    ctx.check(iqmp < p && (iqmp * q % p).is_one(), "crt coefficient", || format!("{iqmp:x}"));
    let diff = if p > q { p - q } else { q - p };
    ctx.check(diff.bits() as usize > bits / 2 - 100, "primes too close", || format!("{diff:x}"));
    if !ctx.fails.is_empty() {
        return None;
    }
    Some(Key::new("generated", p.clone(), q.clone(), e.clone()))
}

fn size(bits: usize) -> grsa::KeySize {
    grsa::KeySize::try_from(bits).unwrap()
}

pub fn run_c14(ctx: &mut Ctx) {
    let mut r = ctx.rng("g");
    match ctx.section.as_str() {
        s @ ("2048" | "3072" | "4096" | "6144" | "8192") => {
            let bits: usize = s.parse().unwrap();
            let count = match bits {
                2048 => ctx.n(14, 400),
                3072 => ctx.n(3, 80),
                4096 => ctx.n(2, 40),
                6144 => 3,
                _ => 1,
            };
            let mut seen = HashSet::new();
            for i in 0..count {
                if !ctx.more() {
                    break;
                }
                ctx.case("generate", format!("{bits} bits, stream {} #{i}", ctx.shard));
                rngctl::reset(r.u64(), Mode::Stream);
                rngctl::with(|s| s.keep_log = false);
                let Some(g) = ctx.call("generate", || grsa::SigningKey::generate(size(bits))) else { continue };
                let Ok(sk) = g else {
                    ctx.fail("generate", format!("{:?}", g.err()));
                    continue;
                };
                let Some(key) = well_formed(ctx, &mut r, bits, &sk) else { continue };
                for x in [&key.p, &key.q] {
                    ctx.check(seen.insert(x.clone()), "prime reused", || format!("{x:x}"));
                }
                ctx.check(sk.modulus_len_bytes() == bits / 8, "modulus length", || sk.modulus_len_bytes().to_string());
                // signatures verify elsewhere, exports import
                let h = HASHES[i % 3];
                let mut b = vec![0; key.k];
                for pss in [false, true] {
                    let g = ctx.call("sign", || sign(&sk, pss, h, &mut b, b"msg").map(|s| s.to_vec()));
                    let Some(Ok(s)) = g else {
                        ctx.fail("sign", format!("{g:?}"));
                        continue;
                    };
                    let ok = if pss { ref_pss(&key.n, &key.e, h, &s, b"msg") } else { ref_pkcs1(&key.n, &key.e, h, &s, b"msg") };
                    ctx.check(ok, "signature", || hex(&s));
                }
                let mut buf = vec![0; 6000];
                let p8 = sk.to_pkcs8_der(&mut buf).map(|b| b.to_vec());
                match p8 {
                    Ok(p8) => {
                        use ::rsa::pkcs8::DecodePrivateKey;
                        match ::rsa::RsaPrivateKey::from_pkcs8_der(&p8) {
                            Ok(k) => {
                                let v = k.validate();
                                ctx.check(v.is_ok(), "import elsewhere", || format!("{v:?}"));
                            }
                            Err(e) => ctx.fail("import elsewhere", format!("{e}")),
                        }
                        let back = grsa::SigningKey::from_pkcs8_der(&p8).and_then(|k| {
                            let mut b = vec![0; 6000];
                            k.to_pkcs8_der(&mut b).map(|x| x.to_vec())
                        });
                        ctx.check(back.as_ref() == Ok(&p8), "round trip", || format!("{back:?}"));
                    }
                    Err(e) => ctx.fail("pkcs8 export", format!("{e:?}")),
                }
            }
            if bits == 2048 {
                for (v, ok) in [(2048usize, true), (3072, true), (4096, true), (6144, true), (8192, true), (1024, false), (0, false), (2047, false), (2049, false), (16384, false)] {
                    ctx.case("key size", v.to_string());
                    ctx.check(grsa::KeySize::try_from(v).is_ok() == ok, "key size", || v.to_string());
                }
            }
        }
        "hostile" => {
            let ks = keys();
            for i in 0..ctx.n(8, 200) {
                if !ctx.more() {
                    break;
                }
                let (what, script): (&str, B) = match i % 8 {
                    // composite candidates without small factors
                    0 => ("product of two primes", loop {
                        let x = prime(&mut r, 512) * prime(&mut r, 512);
                        if x.bits() == 1024 && x.bit(1022) {
                            break x;
                        }
                    }),
                    1 => ("square of a prime", loop {
                        let p = prime(&mut r, 512);
                        let x = &p * &p;
                        if x.bits() == 1024 && x.bit(1022) {
                            break x;
                        }
                    }),
                    2 => ("multiple of a prime just above the sieve", loop {
                        let x = B::from([751u32, 757, 761, 769, 773, 787, 797, 809, 811][r.below(9)]) * prime(&mut r, 1016);
                        if x.bits() == 1024 && x.bit(1022) {
                            break x;
                        }
                        let x = B::from([241u32, 251, 3, 5, 7, 743, 739][r.below(7)]) * prime(&mut r, 1016);
                        if x.bits() == 1024 && x.bit(1022) {
                            break x;
                        }
                    }),
                    3 => ("prime with p-1 divisible by 65537", loop {
                        let mut x = B::from_bytes_be(&r.bytes(126)) % (B::one() << 1007u32);
                        x.set_bit(1006, true);
                        x.set_bit(1005, true);
                        let y = x * 65537u32 * 2u32 + 1u32;
                        if y.bits() == 1024 && y.bit(1022) && probably_prime(&y, &mut r, 3) {
                            break y;
                        }
                    }),
                    4 => ("all ones", (B::one() << 1024u32) - 1u32),
                    5 => ("largest prime below 2^1024", (B::one() << 1024u32) - 105u32),
                    6 => ("lowest value", (B::from(3u32) << 1022u32) + 1u32),
                    _ => ("known prime", ks.iter().find(|k| k.name.contains("highones")).unwrap().p.clone()),
                };
                ctx.case("hostile candidate", format!("{what} {script:x}"));
                let single = (i / 8 + ctx.shard) % 2 == 1;
                // the same candidate keeps coming back, between random blocks
                let mut v = vec![];
                for j in 0..40 {
                    if j % 2 == 0 || single && j == 0 {
                        v.extend(be(&script, 128));
                    } else {
                        v.extend(r.bytes(128));
                    }
                }
                if single {
                    v.truncate(128);
                }
                rngctl::reset(r.u64(), Mode::Script(v));
                rngctl::with(|s| s.keep_log = false);
                let Some(g) = ctx.call("generate", || grsa::SigningKey::generate(size(2048))) else { continue };
                match g {
                    Ok(sk) => {
                        let k = well_formed_any(ctx, &mut r, &sk);
                        if let Some(k) = k {
                            ctx.observe(if k.p == script || k.q == script { "offered value became a prime of the key" } else { "offered value not used" }, 1);
                        }
                    }
                    Err(e) => {
                        // the same prime twice can be blamed on the generator; one prime that
                        // does not suit cannot
                        ctx.check(e == Error::RngFailed && !single, "error", || format!("{e:?}"));
                        ctx.observe("reported as generator failure", 1);
                    }
                }
            }
        }
        "liars" => {
            // n = (2x+1)(4x+1): a quarter of all bases fail to show it composite.  The first
            // three blocks after the candidate are such bases, so only a test that tries
            // more than three bases still refuses most of the time.
            let (mut trials, mut accepted) = (0u64, 0u64);
            let comps: Vec<B> = include_str!("../fixtures/liars.txt").lines().map(|l| B::parse_bytes(l.as_bytes(), 16).unwrap()).collect();
            for i in 0..ctx.n(30, 500) {
                if !ctx.more() {
                    break;
                }
                let comp = &comps[i % comps.len()];
                let d = comp >> 1u32;
                ctx.case("strong pseudoprime candidate", format!("{comp:x} #{i}"));
                let mut script = be(comp, 128);
                for _ in 0..3 {
                    script.extend(loop {
                        let a = crate::ecref::rand_below(&mut r, comp);
                        let x = a.modpow(&(&d >> (d.trailing_zeros().unwrap())), comp);
                        if x.is_one() || &x + 1u32 == *comp {
                            break be(&a, 128);
                        }
                    });
                }
                if i % 3 == 2 {
                    script.truncate(128);
                }
                rngctl::reset(r.u64(), Mode::Script(script));
                rngctl::with(|s| s.keep_log = false);
                let Some(Ok(sk)) = ctx.call("generate", || grsa::SigningKey::generate(size(2048))) else { continue };
                let mut buf = vec![0; 4000];
                let v = parse_priv(sk.to_pkcs1_der(&mut buf).unwrap()).unwrap();
                let took = v[3] == *comp || v[4] == *comp;
                if i % 3 == 2 {
                    ctx.observe("strong pseudoprimes offered with random bases", 1);
                    ctx.observe("of these accepted", took as u64);
                } else {
                    trials += 1;
                    accepted += took as u64;
                }
            }
            ctx.observe("strong pseudoprimes offered with three lying bases", trials);
            ctx.observe("of those accepted", accepted);
            // bases that say nothing must not count as evidence
            for i in 0..ctx.n(16, 200) {
                if !ctx.more() {
                    break;
                }
                let comp = loop {
                    let x = prime(&mut r, 512) * prime(&mut r, 512);
                    if x.bits() == 1024 && x.bit(1022) {
                        break x;
                    }
                };
                ctx.case("unsuitable bases", format!("{comp:x} #{i}"));
                let useless = [B::from(0u32), B::one(), &comp - 1u32, comp.clone(), (B::one() << 1024u32) - 1u32, &comp + 1u32];
                let mut script = be(&comp, 128);
                for j in 0..120 {
                    script.extend(be(&useless[if i % 7 < 6 { i % 7 } else { j % 6 }], 128));
                }
                rngctl::reset(r.u64(), Mode::Script(script));
                rngctl::with(|s| s.keep_log = false);
                let Some(Ok(sk)) = ctx.call("generate", || grsa::SigningKey::generate(size(2048))) else { continue };
                let mut buf = vec![0; 4000];
                let v = parse_priv(sk.to_pkcs1_der(&mut buf).unwrap()).unwrap();
                ctx.check(v[3] != comp && v[4] != comp, "composite accepted", || format!("{comp:x}, the product of two primes, became a prime of a key after bases that prove nothing"));
            }
            ctx.check(accepted * 3 <= trials * 2, "composite accepted", || format!("{accepted} of {trials} offers of a strong pseudoprime became a prime of a key"));
            // Carmichael numbers: every base satisfies Fermat's test, and the chain of
            // squarings reaches one from something else than minus one
            let (mut trials, mut accepted) = (0u64, 0u64);
            let comps: Vec<B> = include_str!("../fixtures/carmichael.txt").lines().map(|l| B::parse_bytes(l.as_bytes(), 16).unwrap()).collect();
            for i in 0..ctx.n(12, 200) {
                if !ctx.more() {
                    break;
                }
                let comp = &comps[i % comps.len()];
                ctx.case("carmichael candidate", format!("{comp:x} #{i}"));
                rngctl::reset(r.u64(), Mode::Script(be(comp, 128)));
                rngctl::with(|s| s.keep_log = false);
                let Some(Ok(sk)) = ctx.call("generate", || grsa::SigningKey::generate(size(2048))) else { continue };
                let mut buf = vec![0; 4000];
                let v = parse_priv(sk.to_pkcs1_der(&mut buf).unwrap()).unwrap();
                trials += 1;
                accepted += (v[3] == *comp || v[4] == *comp) as u64;
            }
            ctx.observe("carmichael numbers offered", trials);
            ctx.observe("carmichael numbers accepted", accepted);
            ctx.check(accepted * 2 <= trials, "composite accepted", || format!("{accepted} of {trials} offers of a Carmichael number became a prime of a key"));
        }
        s => panic!("section {s}"),
    }
}

fn well_formed_any(ctx: &mut Ctx, r: &mut Rng, sk: &grsa::SigningKey) -> Option<Key> {
    well_formed(ctx, r, 2048, sk)
}

#[allow(dead_code)]
fn unused() {
    let _ = nist::der_len(1);
}
