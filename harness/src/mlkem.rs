//! C15: ML-KEM-768 against an independent FIPS 203 implementation.
use crate::Job;
use graviola::key_agreement::mlkem768 as g;
use harness::*;
use ml_kem::kem::Decapsulate;
use ml_kem::{B32, EncapsulateDeterministic, Encoded, EncodedSizeUser, KemCore, MlKem768};
use sha3::digest::{ExtendableOutput, Update, XofReader};

type Dk = <MlKem768 as KemCore>::DecapsulationKey;
type Ek = <MlKem768 as KemCore>::EncapsulationKey;

pub fn jobs_c15(t: bool) -> Vec<Job> {
    let k = if t { 8 } else { 4 };
    vec![
        ("keygen", "native", k),
        ("keygen", "min", 1),
        ("encaps", "native", k),
        ("crafted", "native", 2),
        ("reject", "native", 8),
        ("pairs", "native", 2),
        ("rng", "native", 1),
    ]
}

fn b32(x: &[u8]) -> B32 {
    B32::try_from(x).unwrap()
}

fn oracle_key(seed: &[u8; 64]) -> (Dk, Ek) {
    MlKem768::generate_deterministic(&b32(&seed[..32]), &b32(&seed[32..]))
}

fn oracle_encaps(ek: &Ek, m: &[u8; 32]) -> (Vec<u8>, Vec<u8>) {
    let (c, k) = ek.encapsulate_deterministic(&b32(m)).unwrap();
    (c.to_vec(), k.to_vec())
}

fn j(z: &[u8], c: &[u8]) -> Vec<u8> {
    let mut h = sha3::Shake256::default();
    h.update(z);
    h.update(c);
    let mut out = vec![0; 32];
    h.finalize_xof().read(&mut out);
    out
}

fn seed_for(r: &mut Rng, i: usize) -> [u8; 64] {
    let mut s = [0u8; 64];
    match i % 8 {
        0 => {
            s[..32].copy_from_slice(&r.biased(32));
            s[32..].copy_from_slice(&r.biased(32));
        }
        _ => r.fill(&mut s),
    }
    s
}

fn msg_for(r: &mut Rng, i: usize) -> [u8; 32] {
    if i % 4 == 0 { r.biased(32).try_into().unwrap() } else { r.arr() }
}

/// how many 12-bit candidates SampleNTT needs for each of the nine polynomials
fn tails(rho: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    for i in 0..3u8 {
        for jx in 0..3u8 {
            let mut h = sha3::Shake128::default();
            h.update(rho);
            h.update(&[jx, i]);
            let mut rd = h.finalize_xof();
            let (mut got, mut used) = (0, 0);
            while got < 256 {
                let mut b = [0u8; 3];
                rd.read(&mut b);
                for d in [
                    b[0] as u16 | ((b[1] as u16 & 15) << 8),
                    (b[1] as u16 >> 4) | ((b[2] as u16) << 4),
                ] {
                    if got < 256 {
                        used += 1;
                        if d < 3329 {
                            got += 1;
                        }
                    }
                }
            }
            v.push(used);
        }
    }
    v
}

fn keygen(c: &mut Ctx) {
    let mut r = c.rng("k");
    let n = c.n(700, 20000);
    let mut deepest = 0;
    for i in 0..n {
        if !c.more() {
            break;
        }
        let seed = seed_for(&mut r, i);
        c.case("keygen", format!("seed {}", hex(&seed)));
        let (odk, oek) = oracle_key(&seed);
        let Some(dk) = c.call("keygen", || g::DecapKey::keygen_internal(&seed)) else { continue };
        let ekb = dk.encapsulation_key().as_bytes();
        c.eq("keygen-ek", &ekb, &oek.as_bytes());
        c.eq("keygen-dk", &dk.as_bytes(), &odk.as_bytes());
        for (k, t) in tails(&ekb[1152..]).iter().enumerate() {
            if *t > 336 {
                c.observe(&format!("sampling tail in polynomial {k}"), 1);
            }
            deepest = deepest.max(*t);
        }
        // the key and its decoded copy agree with the specification on a message
        let m = msg_for(&mut r, i);
        let (oc, ok) = oracle_encaps(&oek, &m);
        let Some(Ok(ek2)) = c.call("from_bytes", || g::EncapKey::from_bytes(&ekb)) else {
            c.fail("from-bytes", "own encapsulation key refused".into());
            continue;
        };
        c.eq("reencode", &ek2.as_bytes(), &ekb);
        for (what, ek) in [("own", dk.encapsulation_key()), ("decoded", ek2.clone()), ("clone", ek2)] {
            c.case("encaps", format!("{what} seed {} m {}", hex(&seed), hex(&m)));
            if let Some((k, ct)) = c.call("encaps", || ek.encaps_internal(g::Message(m))) {
                c.eq("encaps-c", ct.as_ref(), &oc);
                c.eq("encaps-k", k.as_ref(), &ok);
            }
        }
        let ct = g::Ciphertext::from(<[u8; 1088]>::try_from(&oc[..]).unwrap());
        c.case("decaps", format!("seed {} m {}", hex(&seed), hex(&m)));
        if let Some(k) = c.call("decaps", || dk.decaps(&ct)) {
            c.eq("decaps-k", k.as_ref(), &ok);
        }
    }
    c.notes.insert("most 12-bit candidates one polynomial needed".into(), deepest.to_string());
}

fn encaps(c: &mut Ctx) {
    let mut r = c.rng("e");
    let n = c.n(1500, 40000);
    let mut key = None;
    for i in 0..n {
        if !c.more() {
            break;
        }
        if i % 25 == 0 {
            let seed = seed_for(&mut r, i);
            let (odk, oek) = oracle_key(&seed);
            key = Some((seed, g::DecapKey::keygen_internal(&seed), odk, oek));
        }
        let (seed, dk, odk, oek) = key.as_ref().unwrap();
        let m = msg_for(&mut r, i);
        c.case("encaps", format!("seed {} m {}", hex(seed), hex(&m)));
        let (oc, ok) = oracle_encaps(oek, &m);
        let Some((k, ct)) = c.call("encaps", || dk.encapsulation_key().encaps_internal(g::Message(m))) else { continue };
        c.eq("encaps-c", ct.as_ref(), &oc);
        c.eq("encaps-k", k.as_ref(), &ok);
        if let Some(k2) = c.call("decaps", || dk.decaps_internal(&ct)) {
            c.eq("decaps-k", k2.as_ref(), &ok);
        }
        // arbitrary and edge ciphertexts
        let junk: [u8; 1088] = r.biased(1088).try_into().unwrap();
        c.case("decaps-junk", format!("seed {} c {}", hex(seed), hexs(&junk)));
        let want = odk.decapsulate(&ml_kem::Ciphertext::<MlKem768>::try_from(&junk[..]).unwrap()).unwrap();
        if let Some(k2) = c.call("decaps", || dk.decaps_internal(&g::Ciphertext::from(junk))) {
            c.eq("decaps-junk", k2.as_ref(), &want);
        }
    }
}

/// encapsulation keys nobody generated: extreme and structured coefficients
fn crafted(c: &mut Ctx) {
    let mut r = c.rng("x");
    let n = c.n(1500, 30000);
    const Q: u16 = 3329;
    let edge = [0u16, 1, 2, 1664, 1665, 1663, 3327, 3328, 2048, 2047, 4095 % Q, 1024];
    for i in 0..n {
        if !c.more() {
            break;
        }
        let mut t = [0u16; 768];
        let kind = i % 6;
        let a = *r.pick(&edge);
        let b = *r.pick(&edge);
        let e = r.below(768);
        for (k, x) in t.iter_mut().enumerate() {
            *x = match kind {
                0 => a,
                1 => *r.pick(&edge),
                2 => (r.u64() % Q as u64) as u16,
                3 => if k % 2 == 0 { a } else { b },
                4 => if k == e { a } else { b },
                _ => if (k / 256) == e % 3 { a } else { (r.u64() % Q as u64) as u16 },
            };
        }
        let mut ekb = [0u8; 1184];
        for (p, o) in t.chunks(2).zip(ekb.chunks_mut(3)) {
            o[0] = p[0] as u8;
            o[1] = (p[0] >> 8) as u8 | (p[1] << 4) as u8;
            o[2] = (p[1] >> 4) as u8;
        }
        let rho = if i % 3 == 0 { r.biased(32) } else { r.bytes(32) };
        ekb[1152..].copy_from_slice(&rho);
        let m = msg_for(&mut r, i);
        c.case("crafted-key", format!("kind {kind} a {a} b {b} e {e} ek {} m {}", hexs(&ekb), hex(&m)));
        let oek = Ek::from_bytes(&Encoded::<Ek>::try_from(&ekb[..]).unwrap());
        let (oc, ok) = oracle_encaps(&oek, &m);
        match c.call("from_bytes", || g::EncapKey::from_bytes(&ekb)) {
            Some(Ok(ek)) => {
                c.eq("crafted-reencode", &ek.as_bytes(), &ekb);
                if let Some((k, ct)) = c.call("encaps", || ek.encaps_internal(g::Message(m))) {
                    c.eq("crafted-c", ct.as_ref(), &oc);
                    c.eq("crafted-k", k.as_ref(), &ok);
                }
            }
            Some(Err(e)) => c.fail("crafted-refused", format!("valid key refused: {e:?}")),
            None => {}
        }
    }
}

/// every single-bit change of a genuine ciphertext gives the rejection secret
fn reject(c: &mut Ctx) {
    let mut r = c.rng("r");
    let keys = c.n(1, 12);
    for kk in 0..keys {
        let mut gr = Rng::from_label(c.seed, &format!("C15-reject-{kk}"));
        let seed: [u8; 64] = gr.arr();
        let m: [u8; 32] = gr.arr();
        let (odk, oek) = oracle_key(&seed);
        let (oc, ok) = oracle_encaps(&oek, &m);
        let dk = g::DecapKey::keygen_internal(&seed);
        for bit in 0..1088 * 8 {
            if !c.mine(bit) || !c.more() {
                continue;
            }
            let mut x: [u8; 1088] = oc[..].try_into().unwrap();
            x[bit / 8] ^= 1 << (bit % 8);
            c.case("reject-bit", format!("seed {} m {} bit {bit}", hex(&seed), hex(&m)));
            let want = j(&seed[32..], &x);
            if bit % 64 == 0 {
                let o = odk.decapsulate(&ml_kem::Ciphertext::<MlKem768>::try_from(&x[..]).unwrap()).unwrap();
                assert_eq!(o.to_vec(), want);
            }
            if let Some(k) = c.call("decaps", || dk.decaps_internal(&g::Ciphertext::from(x))) {
                if k.as_ref()[..] == ok[..] {
                    c.fail("reject-accepted", "altered ciphertext gives the genuine secret".into());
                }
                c.eq("reject-secret", k.as_ref(), &want);
            }
        }
    }
    // multi-byte alterations at random places, including whole-value replacements of one byte
    let n = c.n(400, 20000);
    let seed: [u8; 64] = r.arr();
    let (_, oek) = oracle_key(&seed);
    let dk = g::DecapKey::keygen_internal(&seed);
    for i in 0..n {
        if !c.more() {
            break;
        }
        let m: [u8; 32] = r.arr();
        let (oc, ok) = oracle_encaps(&oek, &m);
        let mut x: [u8; 1088] = oc[..].try_into().unwrap();
        for _ in 0..=(i % 4) {
            let p = if i % 3 == 0 { *r.pick(&[0, 1, 7, 8, 15, 16, 31, 32, 958, 959, 960, 961, 1023, 1024, 1055, 1056, 1086, 1087]) } else { r.below(1088) };
            x[p] = x[p].wrapping_add(1 + r.below(255) as u8);
        }
        if x[..] == oc[..] {
            continue;
        }
        c.case("reject-bytes", format!("seed {} m {} c {}", hex(&seed), hex(&m), hexs(&x)));
        if let Some(k) = c.call("decaps", || dk.decaps_internal(&g::Ciphertext::from(x))) {
            c.check(k.as_ref()[..] != ok[..], "reject-accepted", || "altered ciphertext gives the genuine secret".into());
            c.eq("reject-secret", k.as_ref(), &j(&seed[32..], &x));
        }
    }
}

/// alterations whose differences cancel under xor, or whose sum wraps
fn pairs(c: &mut Ctx) {
    let mut r = c.rng("p");
    let n = c.n(1500, 40000);
    let seed: [u8; 64] = r.arr();
    let (_, oek) = oracle_key(&seed);
    let dk = g::DecapKey::keygen_internal(&seed);
    let m: [u8; 32] = r.arr();
    let (oc, ok) = oracle_encaps(&oek, &m);
    for i in 0..n {
        if !c.more() {
            break;
        }
        let mut x: [u8; 1088] = oc[..].try_into().unwrap();
        // small low-order changes keep the decrypted message, so only the comparison decides
        let d = 1u8 << r.below(8);
        let step = *r.pick(&[1usize, 2, 4, 8, 16, 32, 64, 960, 128]);
        let what = match i % 5 {
            0 => {
                let p = r.below(1088);
                let q = (p + step) % 1088;
                x[p] ^= d;
                x[q] ^= d;
                "xor pair"
            }
            1 => {
                let p = r.below(1088);
                let q = (p + step) % 1088;
                x[p] = x[p].wrapping_add(d);
                x[q] = x[q].wrapping_sub(d);
                "sum pair"
            }
            2 => {
                let p = r.below(1088 - 8);
                x[p..p + 8].rotate_left(1 + r.below(7));
                "rotated word"
            }
            3 => {
                // four equal differences
                let p = r.below(272);
                for k in 0..4 {
                    x[p + 272 * k] ^= d;
                }
                "xor quad"
            }
            _ => {
                let (p, q) = (r.below(1088), r.below(1088));
                x.swap(p, q);
                "swap"
            }
        };
        if x[..] == oc[..] {
            continue;
        }
        c.case("reject-pair", format!("{what} seed {} m {} c {}", hex(&seed), hex(&m), hexs(&x)));
        if let Some(k) = c.call("decaps", || dk.decaps_internal(&g::Ciphertext::from(x))) {
            c.check(k.as_ref()[..] != ok[..], "reject-accepted", || "altered ciphertext gives the genuine secret".into());
            c.eq("reject-secret", k.as_ref(), &j(&seed[32..], &x));
        }
    }
}

/// generate / encaps draw fresh randomness and use all of it
fn rng(c: &mut Ctx) {
    let mut r = c.rng("g");
    let n = c.n(200, 4000);
    let mut seen = std::collections::HashSet::new();
    for _ in 0..n {
        if !c.more() {
            break;
        }
        let s = r.u64();
        rngctl::reset(s, rngctl::Mode::Stream);
        c.case("generate", format!("rng {s:016x}"));
        let Some(Ok(dk)) = c.call("generate", g::DecapKey::generate) else {
            c.fail("generate", "generate failed".into());
            continue;
        };
        let drawn = rngctl::take_log().concat();
        c.check(drawn.len() >= 64, "generate-entropy", || format!("only {} random bytes drawn", drawn.len()));
        if drawn.len() == 64 {
            let a: [u8; 64] = drawn[..].try_into().unwrap();
            let mut b = a;
            b.rotate_left(32);
            let got = dk.as_bytes();
            let ok = got[..] == oracle_key(&a).0.as_bytes()[..] || got[..] == oracle_key(&b).0.as_bytes()[..];
            c.check(ok, "generate-seed", || "generated key is not the one of the drawn seed".into());
        }
        let ekb = dk.encapsulation_key().as_bytes();
        c.check(seen.insert(ekb.to_vec()), "generate-repeat", || "key repeated".into());
        rngctl::reset(s ^ 1, rngctl::Mode::Stream);
        c.case("encaps-random", format!("rng {s:016x}"));
        let Some(Ok((k, ct))) = c.call("encaps", || dk.encapsulation_key().encaps()) else {
            c.fail("encaps", "encaps failed".into());
            continue;
        };
        let drawn = rngctl::take_log().concat();
        c.check(drawn.len() >= 32, "encaps-entropy", || format!("only {} random bytes drawn", drawn.len()));
        if drawn.len() == 32 {
            let oek = Ek::from_bytes(&Encoded::<Ek>::try_from(&ekb[..]).unwrap());
            let (oc, ok) = oracle_encaps(&oek, &drawn[..].try_into().unwrap());
            c.eq("encaps-random-c", ct.as_ref(), &oc);
            c.eq("encaps-random-k", k.as_ref(), &ok);
        }
        c.check(seen.insert(ct.as_ref().to_vec()), "encaps-repeat", || "ciphertext repeated".into());
        if let Some(k2) = c.call("decaps", || dk.decaps(&ct)) {
            c.eq("round-trip", k2.as_ref(), k.as_ref());
        }
    }
    rngctl::reset(1, rngctl::Mode::Stream);
}

pub fn run_c15(c: &mut Ctx) {
    match c.section.as_str() {
        "keygen" => keygen(c),
        "encaps" => encaps(c),
        "crafted" => crafted(c),
        "reject" => reject(c),
        "pairs" => pairs(c),
        "rng" => rng(c),
        s => panic!("section {s}"),
    }
}
