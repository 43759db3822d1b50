//! C01 (specification equality) and C02 (forgery rejection) for the AEADs.
use crate::Job;
use aes_gcm::aead::AeadInPlace;
use aes_gcm::{Aes128Gcm, Aes256Gcm, KeyInit};
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use harness::*;
use num_bigint::BigUint;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Alg {
    Gcm128,
    Gcm256,
    ChaCha,
    XChaCha,
}
pub const ALGS: [Alg; 4] = [Alg::Gcm128, Alg::Gcm256, Alg::ChaCha, Alg::XChaCha];

impl Alg {
    pub fn key_len(self) -> usize {
        if self == Alg::Gcm128 { 16 } else { 32 }
    }
    pub fn nonce_len(self) -> usize {
        if self == Alg::XChaCha { 24 } else { 12 }
    }
    pub fn name(self) -> &'static str {
        match self {
            Alg::Gcm128 => "aes128gcm",
            Alg::Gcm256 => "aes256gcm",
            Alg::ChaCha => "chacha20poly1305",
            Alg::XChaCha => "xchacha20poly1305",
        }
    }
}

pub enum Real {
    G(AesGcm),
    C(ChaCha20Poly1305),
    X(XChaCha20Poly1305),
}
impl Real {
    pub fn new(alg: Alg, key: &[u8]) -> Self {
        match alg {
            Alg::Gcm128 | Alg::Gcm256 => Real::G(AesGcm::new(key)),
            Alg::ChaCha => Real::C(ChaCha20Poly1305::new(key.try_into().unwrap())),
            Alg::XChaCha => Real::X(XChaCha20Poly1305::new(key.try_into().unwrap())),
        }
    }
    pub fn enc(&self, nonce: &[u8], aad: &[u8], buf: &mut [u8], tag: &mut [u8; 16]) {
        match self {
            Real::G(k) => k.encrypt(nonce.try_into().unwrap(), aad, buf, tag),
            Real::C(k) => k.encrypt(nonce.try_into().unwrap(), aad, buf, tag),
            Real::X(k) => k.encrypt(nonce.try_into().unwrap(), aad, buf, tag),
        }
    }
    pub fn dec(&self, nonce: &[u8], aad: &[u8], buf: &mut [u8], tag: &[u8]) -> bool {
        match self {
            Real::G(k) => k.decrypt(nonce.try_into().unwrap(), aad, buf, tag).is_ok(),
            Real::C(k) => k.decrypt(nonce.try_into().unwrap(), aad, buf, tag).is_ok(),
            Real::X(k) => k.decrypt(nonce.try_into().unwrap(), aad, buf, tag).is_ok(),
        }
    }
}

/// Independent implementation (RustCrypto).
pub fn oracle_enc(alg: Alg, key: &[u8], nonce: &[u8], aad: &[u8], buf: &mut [u8]) -> [u8; 16] {
    let t = match alg {
        Alg::Gcm128 => Aes128Gcm::new_from_slice(key)
            .unwrap()
            .encrypt_in_place_detached(nonce.into(), aad, buf)
            .unwrap(),
        Alg::Gcm256 => Aes256Gcm::new_from_slice(key)
            .unwrap()
            .encrypt_in_place_detached(nonce.into(), aad, buf)
            .unwrap(),
        Alg::ChaCha => chacha20poly1305::ChaCha20Poly1305::new_from_slice(key)
            .unwrap()
            .encrypt_in_place_detached(nonce.into(), aad, buf)
            .unwrap(),
        Alg::XChaCha => chacha20poly1305::XChaCha20Poly1305::new_from_slice(key)
            .unwrap()
            .encrypt_in_place_detached(nonce.into(), aad, buf)
            .unwrap(),
    };
    t.into()
}

pub fn jobs_c01(_t: bool) -> Vec<Job> {
    vec![
        ("big", "native", 2),
        ("big", "min", 1),
        ("huge-aad", "native", 2),
        ("grid", "native", 3),
        ("grid", "noavx512", 3),
        ("lens", "native", 3),
        ("lens", "noavx512", 2),
        ("random", "native", 2),
        ("random", "min", 1),
        ("history", "native", 1),
        ("history", "min", 1),
        ("poly", "native", 1),
        ("blocks", "native", 1),
        ("blocks", "min", 1),
    ]
}

struct One<'a> {
    alg: Alg,
    key: &'a [u8],
    nonce: &'a [u8],
    aad: &'a [u8],
    pt: &'a [u8],
    off: usize,
}

/// One encryption + decryption against the oracle; `k` is reused if given.
fn one(ctx: &mut Ctx, class: &str, k: Option<&Real>, c: One<'_>) {
    let One { alg, key, nonce, aad, pt, off } = c;
    ctx.case(
        class,
        format!(
            "{} key={} nonce={} aadlen={} aad={} ptlen={} pt={} align={}",
            alg.name(),
            hex(key),
            hex(nonce),
            aad.len(),
            hexs(aad),
            pt.len(),
            hexs(pt),
            off
        ),
    );
    let mut want = pt.to_vec();
    let wtag = oracle_enc(alg, key, nonce, aad, &mut want);
    // place the buffer at a chosen alignment
    let mut store = vec![0u8; pt.len() + 128];
    let base = store.as_ptr() as usize;
    let pad = (64 - base % 64) % 64 + off % 64;
    store[pad..pad + pt.len()].copy_from_slice(pt);
    let buf = &mut store[pad..pad + pt.len()];
    let mut tag = [0u8; 16];
    let own;
    let k = match k {
        Some(k) => k,
        None => {
            own = match ctx.call("new", || Real::new(alg, key)) {
                Some(k) => k,
                None => return,
            };
            &own
        }
    };
    if ctx.call("encrypt", || k.enc(nonce, aad, buf, &mut tag)).is_none() {
        return;
    }
    ctx.eq("ciphertext", buf, &want);
    ctx.eq("tag", &tag, &wtag);
    // decryption of the specified ciphertext and tag
    buf.copy_from_slice(&want);
    if let Some(ok) = ctx.call("decrypt", || k.dec(nonce, aad, buf, &wtag)) {
        if ctx.check(ok, "decrypt-refused", || "genuine ciphertext refused".into()) {
            ctx.eq("decrypt-plaintext", buf, pt);
        }
    }
}

fn lens(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if thorough { 2600 } else { 1100 }).collect();
    for base in [2048usize, 3072, 4096, 8192, 16384, 16640, 65536] {
        for d in 0..=36 {
            v.push(base + d);
            v.push(base - d);
        }
        for d in [48, 64, 80, 96, 112, 128, 160, 192, 255, 256, 257] {
            v.push(base + d);
            v.push(base - d);
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn run_c01(ctx: &mut Ctx) {
    match ctx.section.as_str() {
        "lens" => {
            let mut rng = ctx.rng("lens");
            let ls = lens(ctx.tier_thorough);
            let mut i = 0;
            for alg in ALGS {
                for &l in &ls {
                    i += 1;
                    if !ctx.mine(i) {
                        continue;
                    }
                    if !ctx.more() {
                        return;
                    }
                    let key = rng.bytes(alg.key_len());
                    let nonce = rng.bytes(alg.nonce_len());
                    let pt = rng.bytes(l);
                    let al = *rng.pick(&[0, 0, 1, 5, 12, 13, 15, 16, 17, 31, 32, 33, 47, 64, 100]);
                    let aad = rng.bytes(al);
                    let off = rng.below(64);
                    one(ctx, "pt-length-sweep", None, One { alg, key: &key, nonce: &nonce, aad: &aad, pt: &pt, off });
                }
                // every AAD length, against short, medium and vector-path messages
                for al in 0..ctx.n(700, 1500) {
                    i += 1;
                    if !ctx.mine(i) {
                        continue;
                    }
                    if !ctx.more() {
                        return;
                    }
                    let key = rng.bytes(alg.key_len());
                    let nonce = rng.bytes(alg.nonce_len());
                    let aad = rng.bytes(al);
                    let pl = *rng.pick(&[0, 1, 15, 16, 17, 64, 127, 128, 129, 255, 256, 257, 300, 512, 640]);
                    let pt = rng.bytes(pl);
                    let off = rng.below(64);
                    one(ctx, "aad-length-sweep", None, One { alg, key: &key, nonce: &nonce, aad: &aad, pt: &pt, off });
                }
            }
        }
        "grid" => {
            // every (plaintext length, AAD length) pair up to a bound
            let mut rng = ctx.rng("grid");
            for alg in ALGS {
                for pl in 0..=ctx.n(660, 1100) {
                    if !ctx.mine(pl) {
                        continue;
                    }
                    let key = rng.bytes(alg.key_len());
                    let k = Real::new(alg, &key);
                    for al in 0..=ctx.n(70, 300) {
                        if !ctx.more() {
                            return;
                        }
                        let nonce = rng.bytes(alg.nonce_len());
                        let pt = rng.bytes(pl);
                        let aad = rng.bytes(al);
                        let off = rng.below(64);
                        one(ctx, "length-grid", Some(&k), One { alg, key: &key, nonce: &nonce, aad: &aad, pt: &pt, off });
                    }
                }
            }
        }
        "random" => {
            let mut rng = ctx.rng("random");
            for _ in 0..ctx.n(30000, 120_000) {
                if !ctx.more() {
                    return;
                }
                let alg = *rng.pick(&ALGS);
                let key = rng.biased(alg.key_len());
                let nonce = rng.biased(alg.nonce_len());
                let pl = match rng.below(6) {
                    0 => rng.below(32),
                    1 => rng.below(300),
                    2 => rng.below(2000),
                    3 => 16 * rng.below(200),
                    4 => 256 * rng.below(40) + rng.below(3),
                    _ => rng.below(20_000),
                };
                let al = match rng.below(5) {
                    0 => 0,
                    1 => rng.below(32),
                    2 => 16 * rng.below(40),
                    3 => rng.below(400),
                    _ => rng.below(5000),
                };
                let pt = rng.biased(pl);
                let aad = rng.biased(al);
                let off = rng.below(64);
                one(ctx, "random-biased", None, One { alg, key: &key, nonce: &nonce, aad: &aad, pt: &pt, off });
            }
        }
        "blocks" => {
            // counter and nonce values: every byte of the nonce at its extremes, so
            // the 32-bit counter increments beside every nonce suffix
            let mut rng = ctx.rng("blocks");
            for alg in ALGS {
                for i in 0..alg.nonce_len() {
                    for v in [0x00u8, 0x01, 0x7f, 0x80, 0xff] {
                        if !ctx.more() {
                            return;
                        }
                        let key = rng.bytes(alg.key_len());
                        for fill in [0u8, 0xff] {
                            let mut nonce = vec![fill; alg.nonce_len()];
                            nonce[i] = v;
                            // 257..=300 blocks: low counter byte wraps
                            let l = 4096 + 16 * rng.below(60) + rng.below(16);
                            let pt = rng.biased(l);
                            one(ctx, "nonce-extremes", None, One { alg, key: &key, nonce: &nonce, aad: b"", pt: &pt, off: 0 });
                        }
                    }
                }
                // sparse keys
                for i in 0..alg.key_len() * 8 {
                    let mut key = vec![0u8; alg.key_len()];
                    key[i / 8] = 1 << (i % 8);
                    let nonce = rng.bytes(alg.nonce_len());
                    let l = rng.below(600);
                    let pt = rng.bytes(l);
                    one(ctx, "one-bit-keys", None, One { alg, key: &key, nonce: &nonce, aad: &nonce, pt: &pt, off: 3 });
                }
            }
        }
        "history" => {
            // one long-lived object per algorithm; interleaved operations of all kinds,
            // including failing decryptions, must not change later answers
            let mut rng = ctx.rng("history");
            for alg in ALGS {
                let key = rng.bytes(alg.key_len());
                let k = Real::new(alg, &key);
                for i in 0..ctx.n(6000, 60_000) {
                    if !ctx.more() {
                        return;
                    }
                    if i % 100 == 99 {
                        // age the object (beyond 2^16 uses in all) between judged operations
                        let nb = vec![7u8; alg.nonce_len()];
                        let mut first: Option<([u8; 24], [u8; 16])> = None;
                        for j in 0..1300u32 {
                            if j % 3 == 2 {
                                let mut b = [0u8; 24];
                                k.dec(&nb, &[], &mut b, &[0u8; 16]);
                            } else {
                                let (mut b, mut t) = ([0u8; 24], [0u8; 16]);
                                k.enc(&nb, &[], &mut b, &mut t);
                                let f = *first.get_or_insert((b, t));
                                ctx.check(f == (b, t), "history-dependent", || {
                                    format!("{alg:?} key {key:02x?}: encrypting 24 zero bytes under one nonce gave {:02x?} and later {:02x?}", f, (b, t))
                                });
                            }
                        }
                        ctx.observe("ageing-uses", 1300);
                    }
                    let nonce = rng.bytes(alg.nonce_len());
                    let pl = rng.below(700);
                    let pt = rng.bytes(pl);
                    let al = rng.below(40);
                    let aad = rng.bytes(al);
                    let off = rng.below(64);
                    one(ctx, "long-lived-key", Some(&k), One { alg, key: &key, nonce: &nonce, aad: &aad, pt: &pt, off });
                    if rng.below(3) == 0 {
                        let bl = rng.below(700);
                        let mut junk = rng.bytes(bl);
                        let t = rng.bytes(16);
                        if let Some(ok) = ctx.call("decrypt", || k.dec(&nonce, &aad, &mut junk, &t)) {
                            ctx.check(!ok, "junk-accepted", || "random ciphertext accepted".into());
                        }
                    }
                }
            }
        }
        "big" => {
            // block counter carries into its 2nd, 3rd and 4th byte and bit lengths beyond 2^32
            let mut rng = ctx.rng("big");
            let mb = 1usize << 20;
            let mut plan: Vec<(Alg, usize, usize)> = vec![
                (Alg::Gcm128, mb, 5),                        // 2^16 blocks
                (Alg::Gcm256, mb - 16, 0),
                (Alg::Gcm256, mb + 4096 + 7, 1),
                (Alg::Gcm128, 16 * mb + 777, 3),
                (Alg::ChaCha, 4 * mb + 64 * 5 + 1, 9),       // 2^16 chacha blocks
                (Alg::XChaCha, 4 * mb + 63, 9),
                (Alg::ChaCha, 16 * mb + 65, 0),
                (Alg::Gcm256, 3, 4 * mb + 5),
                (Alg::ChaCha, 3, 4 * mb + 5),
                (Alg::XChaCha, 0, mb + 1),
            ];
            if ctx.shard == 0 && ctx.nshards > 1 || ctx.tier_thorough || ctx.config == "min" {
                plan.push((Alg::Gcm256, 256 * mb + 4096 + 33, 20)); // 2^24 blocks
            }
            if ctx.shard == 1 || ctx.tier_thorough {
                plan.push((Alg::Gcm128, 512 * mb + 300, 0)); // bit length over 2^32
                plan.push((Alg::Gcm128, 0, 512 * mb + 31));
                plan.push((Alg::ChaCha, 1024 * mb + 100, 0)); // 2^24 chacha blocks
            }
            if ctx.tier_thorough {
                plan.push((Alg::XChaCha, 1024 * mb + 100, 0));
                plan.push((Alg::ChaCha, 10, 4096 * mb + 100));
                plan.push((Alg::Gcm256, 4096 * mb + 100, 0));
            }
            for (i, (alg, pl, al)) in plan.into_iter().enumerate() {
                if pl < 200 * mb && al < 200 * mb && !ctx.mine(i) {
                    continue;
                }
                if !ctx.more() {
                    return;
                }
                let key = rng.bytes(alg.key_len());
                let nonce = rng.bytes(alg.nonce_len());
                let aad = rng.bytes(al);
                let mut buf = rng.bytes(pl);
                ctx.case("large-message", format!("{} ptlen={pl} aadlen={al} key={}", alg.name(), hex(&key)));
                let h0 = fast_hash(&buf);
                let k = Real::new(alg, &key);
                let mut tag = [0u8; 16];
                if ctx.call("encrypt", || k.enc(&nonce, &aad, &mut buf, &mut tag)).is_none() {
                    continue;
                }
                let got = fast_hash(&buf);
                // undo with the library, then redo with the oracle in the same buffer
                let ok = ctx.call("decrypt", || k.dec(&nonce, &aad, &mut buf, &tag)).unwrap_or(false);
                ctx.check(ok, "decrypt-refused", || "own large message refused".into());
                if ok {
                    ctx.check(fast_hash(&buf) == h0, "decrypt-plaintext", || "large message not restored".into());
                    let wtag = oracle_enc(alg, &key, &nonce, &aad, &mut buf);
                    ctx.check(fast_hash(&buf) == got, "ciphertext", || "large ciphertext differs from specification".into());
                    ctx.eq("tag", &tag, &wtag);
                }
            }
        }
        "huge-aad" => {
            // byte counts beyond 2^32; all-zero associated data needs no memory
            let mut rng = ctx.rng("huge-aad");
            let n = 4usize << 30;
            let algs = if ctx.tier_thorough { vec![Alg::ChaCha, Alg::Gcm256, Alg::XChaCha, Alg::Gcm128] } else { vec![Alg::ChaCha, Alg::Gcm128] };
            for (i, alg) in algs.into_iter().enumerate() {
                let al = n + rng.below(1000) as usize;
                let pl = rng.below(200) as usize;
                let key = rng.bytes(alg.key_len());
                let nonce = rng.bytes(alg.nonce_len());
                let pt = rng.bytes(pl);
                if !ctx.mine(i) || !ctx.more() {
                    continue;
                }
                let aad = vec![0u8; al];
                ctx.case("huge-aad", format!("{} ptlen={pl} aadlen={al} (zeros) key={}", alg.name(), hex(&key)));
                let k = Real::new(alg, &key);
                let (mut got, mut tag) = (pt.clone(), [0u8; 16]);
                if ctx.call("encrypt", || k.enc(&nonce, &aad, &mut got, &mut tag)).is_none() {
                    continue;
                }
                let mut want = pt.clone();
                let wtag = oracle_enc(alg, &key, &nonce, &aad, &mut want);
                ctx.eq("ciphertext", &got, &want);
                ctx.eq("tag", &tag, &wtag);
                ctx.observe("bytes of associated data in one call", al as u64);
            }
        }
        "poly" => poly_edges(ctx),
        s => panic!("section {s}"),
    }
}

/// position-sensitive 64-bit checksum, fast enough for gigabytes
fn fast_hash(b: &[u8]) -> [u64; 4] {
    let mut h = [0x9e3779b97f4a7c15u64, 2, 3, 5];
    let mut it = b.chunks_exact(32);
    for c in &mut it {
        for i in 0..4 {
            let w = u64::from_le_bytes(c[8 * i..8 * i + 8].try_into().unwrap());
            h[i] = (h[i] ^ w).wrapping_mul(0xff51afd7ed558ccd).rotate_left(29);
        }
    }
    let mut last = [0u8; 32];
    let r = it.remainder();
    last[..r.len()].copy_from_slice(r);
    for i in 0..4 {
        let w = u64::from_le_bytes(last[8 * i..8 * i + 8].try_into().unwrap());
        h[i] = (h[i] ^ w ^ b.len() as u64).wrapping_mul(0xc4ceb9fe1a85ec53).rotate_left(31);
    }
    h
}

/// Steer the Poly1305 accumulator to its exceptional values: just below, at and
/// above the prime 2^130-5, zero, and values whose final addition carries all the way.
fn poly_edges(ctx: &mut Ctx) {
    use chacha20::cipher::{KeyIvInit, StreamCipher};
    let mut rng = ctx.rng("poly");
    let one_ = BigUint::from(1u32);
    let p = (&one_ << 130) - 5u32;
    let two128 = &one_ << 128;
    for round in 0..ctx.n(12000, 100_000) {
        if !ctx.more() {
            return;
        }
        let key = rng.bytes(32);
        let nonce = rng.bytes(12);
        // block 0 of the key stream is the one-time key
        let mut c = chacha20::ChaCha20::new_from_slices(&key, &nonce).unwrap();
        let mut ks = vec![0u8; 64 + 4096];
        c.apply_keystream(&mut ks);
        let mut rb: [u8; 16] = ks[..16].try_into().unwrap();
        for i in [3, 7, 11, 15] {
            rb[i] &= 15;
        }
        for i in [4, 8, 12] {
            rb[i] &= 252;
        }
        let r = BigUint::from_bytes_le(&rb);
        let s = BigUint::from_bytes_le(&ks[16..32]);
        let rinv = r.modpow(&(&p - 2u32), &p);
        // target for the final accumulator
        let target = match round % 6 {
            0 => BigUint::from((round / 6 % 8) as u32),
            1 => &p - BigUint::from((round / 6 % 8 + 1) as u32),
            2 => (&two128 * BigUint::from(1 + (round / 6 % 3) as u32) + &two128 - (&s % &two128)) % &p,
            3 => (&two128 * BigUint::from(1 + (round / 6 % 3) as u32) - 1u32 - (&s % &two128)) % &p,
            4 => ((&one_ << (26 * (1 + round / 6 % 4))) - 1u32) % &p,
            _ => ((&one_ << (44 * (1 + round / 6 % 2))) - 1u32) % &p,
        };
        // message of 16*m bytes; all blocks random except one solved for
        let m = 1 + rng.below(20);
        let mut ct = rng.bytes(16 * m);
        let at = rng.below(m);
        let mut solved = false;
        for _try in 0..12 {
            // forward up to block `at`
            let mut acc = BigUint::ZERO;
            for b in ct[..16 * at].chunks(16) {
                acc = (acc + BigUint::from_bytes_le(b) + &two128) * &r % &p;
            }
            // backward from the target
            let mut lenb = [0u8; 16];
            lenb[8..].copy_from_slice(&((16 * m) as u64).to_le_bytes());
            let mut need = &target * &rinv % &p;
            let sub = |x: BigUint, y: &BigUint| -> BigUint { (x + &p - (y % &p)) % &p };
            need = sub(need, &(BigUint::from_bytes_le(&lenb) + &two128));
            for b in ct[16 * (at + 1)..].chunks(16).rev() {
                need = need * &rinv % &p;
                need = sub(need, &(BigUint::from_bytes_le(b) + &two128));
            }
            need = need * &rinv % &p;
            let blk = sub(sub(need, &acc), &two128);
            if blk < two128 {
                let mut b = blk.to_bytes_le();
                b.resize(16, 0);
                ct[16 * at..16 * at + 16].copy_from_slice(&b);
                solved = true;
                break;
            }
            if at > 0 {
                let x = rng.bytes(16);
                ct[..16].copy_from_slice(&x);
            } else if m > 1 {
                let x = rng.bytes(16);
                ct[16 * (m - 1)..].copy_from_slice(&x);
            } else {
                break;
            }
        }
        if !solved {
            continue;
        }
        let pt: Vec<u8> = ct.iter().zip(ks[64..].iter()).map(|(a, b)| a ^ b).collect();
        ctx.observe("accumulator-steered", 1);
        one(ctx, "poly1305-edge", None, One { alg: Alg::ChaCha, key: &key, nonce: &nonce, aad: b"", pt: &pt, off: 0 });
    }
}

// ---------------------------------------------------------------- C02

pub fn jobs_c02(_t: bool) -> Vec<Job> {
    vec![("forge", "native", 5), ("forge", "noavx512", 3), ("tags", "native", 1), ("tags", "min", 1), ("long", "native", 4), ("long", "noavx512", 2), ("reuse", "native", 2)]
}

struct Sealed {
    alg: Alg,
    key: Vec<u8>,
    nonce: Vec<u8>,
    aad: Vec<u8>,
    pt: Vec<u8>,
    ct: Vec<u8>,
    tag: [u8; 16],
}

fn seal(rng: &mut Rng, alg: Alg, pl: usize, al: usize) -> Sealed {
    let key = rng.bytes(alg.key_len());
    let nonce = rng.bytes(alg.nonce_len());
    let aad = rng.bytes(al);
    let pt = rng.bytes(pl);
    let mut ct = pt.clone();
    let tag = oracle_enc(alg, &key, &nonce, &aad, &mut ct);
    Sealed { alg, key, nonce, aad, pt, ct, tag }
}

/// the altered message must be refused and leave nothing of its decryption behind
fn refuse(ctx: &mut Ctx, s: &Sealed, k: &Real, class: &str, what: String, nonce: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) {
    ctx.case(class, format!("{} ptlen={} aadlen={} {what} key={}", s.alg.name(), s.pt.len(), s.aad.len(), hex(&s.key[..4])));
    let mut buf = ct.to_vec();
    let Some(ok) = ctx.call("decrypt", || k.dec(nonce, aad, &mut buf, tag)) else { return };
    ctx.check(!ok, "forgery-accepted", || {
        format!("nonce={} aad={} ct={} tag={} accepted", hex(nonce), hexs(aad), hexs(ct), hex(tag))
    });
    released(ctx, s, nonce, ct, &buf, ok);
}

/// after a refusal the buffer must hold nothing of what unauthenticated decryption would give
fn released(ctx: &mut Ctx, s: &Sealed, nonce: &[u8], ct: &[u8], buf: &[u8], ok: bool) {
    if ok || buf.iter().all(|b| *b == 0) || buf == ct {
        return;
    }
    let n = ct.len();
    let mut stream = vec![0u8; n];
    oracle_enc(s.alg, &s.key, nonce, &[], &mut stream);
    let leak = (0..n).filter(|&i| buf[i] == stream[i] ^ ct[i] && buf[i] != 0).count();
    let thresh = 4.max(n / 16);
    let run = {
        let (mut best, mut cur) = (0, 0);
        for i in 0..n {
            if buf[i] == stream[i] ^ ct[i] && buf[i] != 0 {
                cur += 1;
                best = best.max(cur);
            } else {
                cur = 0;
            }
        }
        best
    };
    ctx.check(leak < thresh && run < 4, "plaintext-released", || {
        format!("after refusal the buffer still holds {leak} bytes (longest run {run}) of unauthenticated plaintext: {}", hexs(buf))
    });
    // a partly cleared buffer of a short message
    if n < 4 && n > 0 {
        let all = (0..n).all(|i| buf[i] == stream[i] ^ ct[i]);
        ctx.check(!all, "plaintext-released", || format!("after refusal the buffer holds the plaintext {}", hex(buf)));
    }
}

pub fn run_c02(ctx: &mut Ctx) {
    let mut rng = ctx.rng("c02");
    match ctx.section.as_str() {
        "forge" => {
            let mut lens: Vec<usize> = (0..=70).collect();
            lens.extend([79, 80, 81, 95, 96, 111, 112, 127, 128, 129, 130, 143, 144, 159, 175, 191, 192, 193, 207, 223, 239, 240, 241, 254, 255, 256, 257, 258, 271, 272, 273, 288, 300, 319, 320, 321, 336, 352, 368, 383, 384, 385, 400, 448, 511, 512, 513, 514, 528, 600, 767, 768, 769, 1023, 1024, 1025, 1300]);
            if ctx.tier_thorough {
                lens.extend((71..1100).step_by(3));
                lens.extend([4096, 4097, 16384, 16385]);
            }
            let mut i = 0;
            for alg in ALGS {
                for &pl in &lens {
                    i += 1;
                    if !ctx.mine(i) {
                        continue;
                    }
                    if !ctx.more() {
                        return;
                    }
                    let al = *rng.pick(&[0usize, 1, 5, 13, 16, 17, 32, 33, 64]);
                    let s = seal(&mut rng, alg, pl, al);
                    let k = Real::new(alg, &s.key);
                    let mut good = s.ct.clone();
                    ctx.case("genuine", format!("{} {pl} {al} {}", alg.name(), hex(&s.key)));
                    let ok = ctx.call("decrypt", || k.dec(&s.nonce, &s.aad, &mut good, &s.tag)).unwrap_or(false);
                    ctx.check(ok && good == s.pt, "genuine-refused", || "genuine message refused or wrong".into());
                    // ciphertext: one bit in every byte position (all bits for short ones)
                    for b in 0..pl {
                        let bits: Vec<u8> = if pl <= 20 { (0..8).collect() } else { vec![rng.below(8) as u8] };
                        for bit in bits {
                            let mut ct = s.ct.clone();
                            ct[b] ^= 1 << bit;
                            refuse(ctx, &s, &k, "ct-bit", format!("ct[{b}]^={}", 1 << bit), &s.nonce, &s.aad, &ct, &s.tag);
                        }
                    }
                    for b in 0..al {
                        let bit = rng.below(8);
                        let mut aad = s.aad.clone();
                        aad[b] ^= 1 << bit;
                        refuse(ctx, &s, &k, "aad-bit", format!("aad[{b}] bit {bit}"), &s.nonce, &aad, &s.ct, &s.tag);
                    }
                    for b in 0..s.nonce.len() {
                        let bit = rng.below(8);
                        let mut n = s.nonce.clone();
                        n[b] ^= 1 << bit;
                        refuse(ctx, &s, &k, "nonce-bit", format!("nonce[{b}] bit {bit}"), &n, &s.aad, &s.ct, &s.tag);
                    }
                    // moved boundary, truncation, extension, zero extension
                    if al > 0 {
                        let mut ct = s.aad[al - 1..].to_vec();
                        ct.extend(&s.ct);
                        refuse(ctx, &s, &k, "boundary", "last aad byte moved to ct".into(), &s.nonce, &s.aad[..al - 1], &ct, &s.tag);
                        refuse(ctx, &s, &k, "aad-truncate", "aad shortened".into(), &s.nonce, &s.aad[..al - 1], &s.ct, &s.tag);
                        refuse(ctx, &s, &k, "aad-drop", "aad dropped".into(), &s.nonce, &[], &s.ct, &s.tag);
                    }
                    if pl > 0 {
                        let mut aad = s.aad.clone();
                        aad.push(s.ct[0]);
                        refuse(ctx, &s, &k, "boundary", "first ct byte moved to aad".into(), &s.nonce, &aad, &s.ct[1..], &s.tag);
                        refuse(ctx, &s, &k, "truncate", "ct shortened".into(), &s.nonce, &s.aad, &s.ct[..pl - 1], &s.tag);
                        let z = vec![0u8; pl];
                        refuse(ctx, &s, &k, "zero-ct", "ct all zero".into(), &s.nonce, &s.aad, &z, &s.tag);
                    }
                    for ext in [1usize, 16] {
                        let mut ct = s.ct.clone();
                        ct.extend(vec![0u8; ext]);
                        refuse(ctx, &s, &k, "extend", format!("ct + {ext} zero bytes"), &s.nonce, &s.aad, &ct, &s.tag);
                        let mut aad = s.aad.clone();
                        aad.extend(vec![0u8; ext]);
                        refuse(ctx, &s, &k, "aad-extend", format!("aad + {ext} zero bytes"), &s.nonce, &aad, &s.ct, &s.tag);
                    }
                    // swap two ciphertext blocks
                    if pl >= 32 {
                        let nb = pl / 16;
                        let (x, y) = (rng.below(nb), rng.below(nb));
                        if x != y {
                            let mut ct = s.ct.clone();
                            for j in 0..16 {
                                ct.swap(16 * x + j, 16 * y + j);
                            }
                            refuse(ctx, &s, &k, "block-swap", format!("blocks {x},{y} swapped"), &s.nonce, &s.aad, &ct, &s.tag);
                        }
                        // replace a block and compensate it in another by xor
                        let d = rng.bytes(16);
                        if x != y {
                            let mut ct = s.ct.clone();
                            for j in 0..16 {
                                ct[16 * x + j] ^= d[j];
                                ct[16 * y + j] ^= d[j];
                            }
                            refuse(ctx, &s, &k, "block-xor-pair", format!("blocks {x},{y} ^= same"), &s.nonce, &s.aad, &ct, &s.tag);
                        }
                    }
                    // tag bit per length
                    for b in 0..16 {
                        let mut t = s.tag;
                        t[b] ^= 1 << rng.below(8);
                        refuse(ctx, &s, &k, "tag-bit", format!("tag[{b}]"), &s.nonce, &s.aad, &s.ct, &t);
                    }
                    // key bit
                    let mut key = s.key.clone();
                    let kb = rng.below(key.len() * 8);
                    key[kb / 8] ^= 1 << (kb % 8);
                    let k2 = Real::new(alg, &key);
                    ctx.case("key-bit", format!("{} keybit {kb} len {pl}", alg.name()));
                    let mut buf = s.ct.clone();
                    if let Some(ok) = ctx.call("decrypt", || k2.dec(&s.nonce, &s.aad, &mut buf, &s.tag)) {
                        ctx.check(!ok, "forgery-accepted", || "other key accepted".into());
                    }
                }
            }
        }
        "tags" => {
            for alg in ALGS {
                for rep in 0..ctx.n(20, 200) {
                    let pl = *rng.pick(&[0usize, 1, 16, 40, 256, 300, 600]);
                    let s = seal(&mut rng, alg, pl, 7);
                    let k = Real::new(alg, &s.key);
                    for bit in 0..128 {
                        let mut t = s.tag;
                        t[bit / 8] ^= 1 << (bit % 8);
                        refuse(ctx, &s, &k, "tag-bit-all", format!("tag bit {bit} rep {rep}"), &s.nonce, &s.aad, &s.ct, &t);
                    }
                    // the same difference in two bytes (cancels in a xor-fold), sums, byte swaps
                    for a in 0..16 {
                        for b in 0..16 {
                            if a == b {
                                continue;
                            }
                            let d = 1u8 << rng.below(8);
                            let mut t = s.tag;
                            t[a] ^= d;
                            t[b] ^= d;
                            refuse(ctx, &s, &k, "tag-xor-pair", format!("tag[{a}],[{b}]^={d} rep {rep}"), &s.nonce, &s.aad, &s.ct, &t);
                            let mut t = s.tag;
                            t[a] = t[a].wrapping_add(1);
                            t[b] = t[b].wrapping_sub(1);
                            refuse(ctx, &s, &k, "tag-sum-pair", format!("tag[{a}]+1 [{b}]-1 rep {rep}"), &s.nonce, &s.aad, &s.ct, &t);
                            if s.tag[a] != s.tag[b] {
                                let mut t = s.tag;
                                t.swap(a, b);
                                refuse(ctx, &s, &k, "tag-swap", format!("tag swap {a},{b} rep {rep}"), &s.nonce, &s.aad, &s.ct, &t);
                            }
                        }
                    }
                    // every other length
                    for l in (0..16).chain(17..40) {
                        let mut t = s.tag.to_vec();
                        t.resize(l, 0);
                        refuse(ctx, &s, &k, "tag-length", format!("tag length {l} zero rep {rep}"), &s.nonce, &s.aad, &s.ct, &t);
                        if l > 16 {
                            let t: Vec<u8> = s.tag.iter().cycle().take(l).copied().collect();
                            refuse(ctx, &s, &k, "tag-length", format!("tag length {l} cyc rep {rep}"), &s.nonce, &s.aad, &s.ct, &t);
                            let mut t = vec![0; l - 16];
                            t.extend(s.tag);
                            refuse(ctx, &s, &k, "tag-length", format!("tag length {l} lead rep {rep}"), &s.nonce, &s.aad, &s.ct, &t);
                        } else {
                            refuse(ctx, &s, &k, "tag-length", format!("tag suffix {l} rep {rep}"), &s.nonce, &s.aad, &s.ct, &s.tag[16 - l..]);
                        }
                    }
                    refuse(ctx, &s, &k, "tag-length", format!("tag length 272 rep {rep}"), &s.nonce, &s.aad, &s.ct, &[&s.tag[..], &[0u8; 256][..]].concat());
                    for c in [0u8, 0xff, 0x80] {
                        refuse(ctx, &s, &k, "tag-const", format!("tag const {c} rep {rep}"), &s.nonce, &s.aad, &s.ct, &[c; 16]);
                    }
                    let inv: Vec<u8> = s.tag.iter().map(|b| !b).collect();
                    refuse(ctx, &s, &k, "tag-const", format!("tag inverted rep {rep}"), &s.nonce, &s.aad, &s.ct, &inv);
                }
            }
        }
        "long" => {
            let mut lens = vec![1500usize, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 4111, 5000, 8191, 8192, 8207, 12345, 16383, 16384, 16385, 16640, 20001, 32767, 32768, 32773, 65535, 65536, 65537, 65551, 100_003, 131_072, 262_145, 1_048_585];
            if ctx.tier_thorough {
                for _ in 0..400 {
                    let sh = 11 + rng.below(10);
                    lens.push(1400 + rng.below(1 << sh));
                }
                lens.extend([4_194_305, 16_777_216 + 7]);
            }
            let mut i = 0;
            for &pl in &lens {
                for alg in ALGS {
                    i += 1;
                    if !ctx.mine(i) {
                        continue;
                    }
                    if !ctx.more() {
                        return;
                    }
                    let al = *rng.pick(&[0usize, 5, 13, 16, 255, 256, 257, 4096, 65535, 65536, 65537, 70_001]);
                    let s = seal(&mut rng, alg, pl, al);
                    let k = Real::new(alg, &s.key);
                    let mut good = s.ct.clone();
                    ctx.case("long-genuine", format!("{} {pl} {al} {}", alg.name(), hex(&s.key)));
                    let ok = ctx.call("decrypt", || k.dec(&s.nonce, &s.aad, &mut good, &s.tag)).unwrap_or(false);
                    ctx.check(ok && good == s.pt, "genuine-refused", || "genuine message refused or wrong".into());
                    let mut pos = vec![0, 1, pl / 2, pl - 1, pl - 2, pl - 16, pl - 17, pl & !15, pl & !255, (pl & !255) - 1];
                    pos.extend((9..21).map(|k| 1usize << k));
                    pos.extend((0..6).map(|_| rng.below(pl)));
                    pos.retain(|p| *p < pl);
                    for b in pos {
                        let bit = rng.below(8);
                        let mut ct = s.ct.clone();
                        ct[b] ^= 1 << bit;
                        refuse(ctx, &s, &k, "long-ct-bit", format!("ct[{b}] bit {bit}"), &s.nonce, &s.aad, &ct, &s.tag);
                    }
                    let mut pos = vec![0, al / 2, al.wrapping_sub(1), al & !15, al & !255, 256, 1024, 4096, 65535, 65536];
                    pos.retain(|p| *p < al);
                    for b in pos {
                        let bit = rng.below(8);
                        let mut aad = s.aad.clone();
                        aad[b] ^= 1 << bit;
                        refuse(ctx, &s, &k, "long-aad-bit", format!("aad[{b}] bit {bit}"), &s.nonce, &aad, &s.ct, &s.tag);
                    }
                    for b in [0, 7, 15] {
                        let mut t = s.tag;
                        t[b] ^= 1 << rng.below(8);
                        refuse(ctx, &s, &k, "long-tag-bit", format!("tag[{b}]"), &s.nonce, &s.aad, &s.ct, &t);
                    }
                    for l in [0usize, 1, 4, 8, 12, 13, 15, 17, 32] {
                        let t: Vec<u8> = s.tag.iter().cycle().take(l).copied().collect();
                        refuse(ctx, &s, &k, "long-tag-length", format!("tag length {l}"), &s.nonce, &s.aad, &s.ct, &t);
                    }
                    for cut in [1usize, 16, 255, 256, pl / 2] {
                        refuse(ctx, &s, &k, "long-truncate", format!("ct shortened by {cut}"), &s.nonce, &s.aad, &s.ct[..pl - cut], &s.tag);
                    }
                    for b in 0..s.nonce.len() {
                        let mut n = s.nonce.clone();
                        n[b] ^= 1 << rng.below(8);
                        refuse(ctx, &s, &k, "long-nonce-bit", format!("nonce[{b}]"), &n, &s.aad, &s.ct, &s.tag);
                    }
                    if al > 0 {
                        let mut ct = s.aad[al - 1..].to_vec();
                        ct.extend(&s.ct);
                        refuse(ctx, &s, &k, "long-boundary", "last aad byte moved to ct".into(), &s.nonce, &s.aad[..al - 1], &ct, &s.tag);
                    }
                    let mut aad = s.aad.clone();
                    aad.push(s.ct[0]);
                    refuse(ctx, &s, &k, "long-boundary", "first ct byte moved to aad".into(), &s.nonce, &aad, &s.ct[1..], &s.tag);
                }
            }
        }
        // one key object through a long history: after any number of successes and refusals
        // every forgery is still refused and every genuine message still opens
        "reuse" => {
            for alg in ALGS {
                let key = rng.bytes(alg.key_len());
                let k = Real::new(alg, &key);
                let mut kept: Vec<Sealed> = Vec::new();
                for i in 0..ctx.n(80_000, 1_000_000) {
                    if !ctx.more() {
                        return;
                    }
                    if i % 997 == 0 || kept.len() < 8 {
                        let pl = *rng.pick(&[0usize, 1, 15, 16, 33, 64, 130, 256, 300]);
                        let al = rng.below(20);
                        let mut s = seal(&mut rng, alg, pl, al);
                        s.key = key.clone();
                        s.ct = s.pt.clone();
                        s.tag = oracle_enc(alg, &s.key, &s.nonce, &s.aad, &mut s.ct);
                        if kept.len() >= 8 {
                            kept.remove(0);
                        }
                        kept.push(s);
                    }
                    let s = &kept[rng.below(kept.len())];
                    let o = &kept[rng.below(kept.len())];
                    let mut buf = s.ct.clone();
                    if rng.below(3) == 0 {
                        ctx.case("reuse-genuine", format!("{} use {i}", alg.name()));
                        let ok = k.dec(&s.nonce, &s.aad, &mut buf, &s.tag);
                        ctx.check(ok && buf == s.pt, "genuine-refused", || format!("genuine message refused or wrong at use {i}"));
                        continue;
                    }
                    // the tag, nonce or associated data of another message of the same key
                    let (mut nonce, mut aad, mut tag) = (s.nonce.clone(), s.aad.clone(), s.tag);
                    match rng.below(4) {
                        0 => tag = o.tag,
                        1 => nonce = o.nonce.clone(),
                        2 => aad = o.aad.clone(),
                        _ => tag[rng.below(16)] ^= 1 << rng.below(8),
                    }
                    if nonce == s.nonce && aad == s.aad && tag == s.tag {
                        continue;
                    }
                    ctx.case("reuse-forged", format!("{} use {i}", alg.name()));
                    let ok = k.dec(&nonce, &aad, &mut buf, &tag);
                    ctx.check(!ok, "forgery-accepted", || format!("mix of two genuine messages accepted at use {i}"));
                    released(ctx, s, &nonce, &s.ct, &buf, ok);
                }
            }
        }
        s => panic!("section {s}"),
    }
}
