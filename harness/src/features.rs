//! C21: every processor feature set gives the same results, using only instructions
//! that are available, and an insufficient processor is refused.
use crate::Job;
use crate::ops::{Mem, OPS, Place};
use graviola::hashing as gh;
use graviola::key_agreement as ka;
use graviola::signing::{ecdsa, eddsa, rsa};
use harness::rngctl::{self, Mode};
use harness::*;
use std::io::Write;

const NAMES: [&str; CLASSES] = [
    "avx512f", "avx512bw", "avx512vl", "vaes", "vpclmulqdq", "sha", "bmi2", "avx512dq", "fma", "gfni", "lzcnt", "movbe", "rdrand", "avx512-other", "f16c", "avx",
    "aes", "pclmulqdq", "adx", "bmi1",
];
pub const CLASSES: usize = 20;
/// never checked for by the library, and not implied by what it requires
const UNCHECKED: [usize; 8] = [7, 8, 9, 10, 11, 12, 13, 14];

/// The extensions beyond SSE4.2 that the instruction at `code` needs.
pub fn classify(code: *const u8) -> u32 {
    // SAFETY: the instruction about to be executed
    let b = |i: usize| unsafe { *code.add(i) };
    let f = |i: usize| 1u32 << i;
    let mut i = 0;
    let (mut p66, mut pf3) = (false, false);
    let mut pf2 = false;
    while matches!(b(i), 0x66 | 0x67 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0xf0) {
        match b(i) {
            0x66 => p66 = true,
            0xf2 => pf2 = true,
            0xf3 => pf3 = true,
            _ => {}
        }
        i += 1;
    }
    match b(i) {
        0xc4 | 0xc5 => {
            let (map, w, l, pp, op, modrm) = if b(i) == 0xc5 {
                (1, false, b(i + 1) >> 2 & 1, b(i + 1) & 3, b(i + 2), b(i + 3))
            } else {
                (b(i + 1) & 31, b(i + 2) & 0x80 != 0, b(i + 2) >> 2 & 1, b(i + 2) & 3, b(i + 3), b(i + 4))
            };
            match (map, op) {
                (1, 0x41..=0x4b | 0x90..=0x93 | 0x98 | 0x99) => {
                    // opmask instructions: byte forms are DQ, word forms F, the rest BW
                    let _ = modrm;
                    let class = match op {
                        0x90 | 0x91 | 0x98 | 0x99 | 0x41..=0x4b => match (w, pp) {
                            (false, 0) => 0,
                            (false, _) => 7,
                            _ => 1,
                        },
                        _ => match (w, pp) {
                            (false, 0) => 0,
                            (false, 1) => 7,
                            _ => 1,
                        },
                    };
                    f(0) | f(class)
                }
                (2, 0xdb..=0xdf) => f(15) | if l == 1 { f(3) } else { f(16) },
                (3, 0x44) => f(15) | if l == 1 { f(4) } else { f(17) },
                (3, 0xdf) => f(15) | f(16),
                (2, 0xf5) => f(6),
                (2, 0xf6) => f(6),
                (2, 0xf7) if pp != 0 => f(6),
                (2, 0xf2 | 0xf3 | 0xf7) => f(19),
                (3, 0xf0) => f(6),
                (2, 0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf) => f(15) | f(8),
                (2, 0x13) | (3, 0x1d) => f(15) | f(14),
                (2, 0xcf) | (3, 0xce | 0xcf) => f(15) | f(9),
                _ => f(15),
            }
        }
        0x62 => {
            let map = b(i + 1) & 7;
            let (w, pp) = (b(i + 2) & 0x80 != 0, b(i + 2) & 3);
            let (ll, bc) = (b(i + 3) >> 5 & 3, b(i + 3) & 0x10 != 0);
            let (op, modrm) = (b(i + 4), b(i + 5));
            let reg = modrm >> 3 & 7;
            let scalar = match map {
                1 => (pp >= 2 && matches!(op, 0x10 | 0x11 | 0x12 | 0x16 | 0x2a | 0x2c | 0x2d | 0x51 | 0x58..=0x5f | 0x78 | 0x79 | 0x7b)) || matches!(op, 0x2e | 0x2f | 0x6e | 0xd6 | 0xc4 | 0xc5) || (op == 0x7e && pp != 0),
                3 => matches!(op, 0x14..=0x17 | 0x20..=0x22),
                _ => false,
            };
            let mut m = f(0);
            if ll < 2 && !scalar && !(bc && modrm >> 6 == 3) {
                m |= f(2);
            }
            match (map, op) {
                (1, 0x60 | 0x61 | 0x63..=0x65 | 0x67..=0x69 | 0x6b | 0x71 | 0x74 | 0x75 | 0xd1 | 0xd5 | 0xd8 | 0xd9 | 0xda | 0xdc..=0xde | 0xe0 | 0xe1 | 0xe3..=0xe5 | 0xe8..=0xea | 0xec..=0xee | 0xf1 | 0xf5 | 0xf6 | 0xf8 | 0xf9 | 0xfc | 0xfd) => m |= f(1),
                (1, 0x6f | 0x7f) if pp == 3 => m |= f(1),
                (1, 0x73) if reg == 3 || reg == 7 => m |= f(1),
                (1, 0x70) if pp != 1 => m |= f(1),
                (1, 0xc4 | 0xc5) => m |= f(1),
                (1, 0x54..=0x57) => m |= f(7),
                (2, 0x00 | 0x04 | 0x0b | 0x10..=0x12 | 0x1c | 0x1d | 0x20 | 0x30 | 0x38 | 0x3a | 0x3c | 0x3e | 0x66 | 0x75 | 0x78 | 0x79 | 0x7a | 0x7b | 0x7d | 0x8d) => {
                    // (some of these opcodes have doubleword forms with another prefix)
                    let dword = (matches!(op, 0x10..=0x12) && !w && pp != 1) || (matches!(op, 0x20 | 0x30 | 0x38 | 0x3a) && pp == 2) || (matches!(op, 0x11 | 0x12 | 0x10) && !w);
                    if matches!(op, 0x75 | 0x7d | 0x8d) && !w {
                        m |= f(13)
                    } else if !dword {
                        m |= f(1)
                    }
                }
                (2, 0x40) if w => m |= f(7),
                (2, 0xb4 | 0xb5 | 0x50..=0x53 | 0x54 | 0x55 | 0x62 | 0x63 | 0x70..=0x73 | 0x83 | 0x8f | 0xc4 | 0x44) => m |= f(13),
                (2, 0xcf) | (3, 0xce | 0xcf) => m |= f(9),
                (2, 0xdc..=0xdf) => m |= f(3),
                (3, 0x44) => m |= f(4),
                (3, 0x0f | 0x3e | 0x3f | 0x42 | 0x14 | 0x15 | 0x20) => m |= f(1),
                (3, 0x16 | 0x22 | 0x50 | 0x51 | 0x56 | 0x57 | 0x66 | 0x67) => m |= f(7),
                (3, 0x18 | 0x19 | 0x1a | 0x1b | 0x38 | 0x39 | 0x3a | 0x3b) => {
                    // x4 of 32 and x4 of 64 bits are F; x2 of 64 and x8 of 32 are DQ
                    let quarter = matches!(op, 0x18 | 0x19 | 0x38 | 0x39);
                    if quarter == w {
                        m |= f(7)
                    }
                }
                (3, 0x70..=0x73) => m |= f(13),
                _ => {}
            }
            m
        }
        mut c => {
            if c & 0xf0 == 0x40 {
                i += 1;
                c = b(i);
            }
            if c != 0x0f {
                return 0;
            }
            match (b(i + 1), b(i + 2)) {
                (0x38, 0xc8..=0xcd) | (0x3a, 0xcc) if !p66 => f(5),
                (0x38, 0xcf) | (0x3a, 0xce | 0xcf) => f(9),
                (0x38, 0xdb..=0xdf) | (0x3a, 0xdf) => f(16),
                (0x3a, 0x44) => f(17),
                (0x38, 0xf6) => f(18),
                (0x38, 0xf0 | 0xf1) if !pf2 => f(11),
                (0xbd, _) if pf3 => f(10),
                (0xbc, _) if pf3 => f(19),
                (0xc7, m) if m >> 6 == 3 && (m >> 3 & 7) >= 6 => f(12),
                _ => 0,
            }
        }
    }
}

fn denied(name: &str) -> bool {
    std::env::var(format!("GRAVIOLA_CPU_DISABLE_{name}")).is_ok()
}

pub fn judge(ctx: &mut Ctx, op: &str, seen: &[u64; CLASSES], first: &[u64; CLASSES]) {
    let sym = ["sha", "hmac", "aes", "chacha", "xchacha"].iter().any(|p| op.starts_with(p));
    for i in 0..CLASSES {
        if seen[i] == 0 {
            continue;
        }
        ctx.observe(&format!("{} instructions", NAMES[i]), seen[i]);
        // big-number arithmetic has no alternative to BMI2
        if denied(NAMES[i]) && (i != 6 || sym) {
            ctx.fail("unavailable", format!("{op}: executed {} {} instructions (first at code offset {:#x}) without that feature", seen[i], NAMES[i], first[i]));
        }
        if UNCHECKED.contains(&i) {
            ctx.fail("unchecked", format!("{op}: executed {} {} instructions (first at code offset {:#x}), an extension the library neither requires nor checks for", seen[i], NAMES[i], first[i]));
        }
    }
}

pub fn jobs_c21(_t: bool) -> Vec<Job> {
    vec![]
}

fn digests(ctx: &mut Ctx) {
    // same cases whatever the shard or feature set: the transcripts are compared afterwards
    let mut rng = Rng::from_label(ctx.seed, "features");
    let mut m = Mem::new();
    let path = std::env::var("VERIF_TRANSCRIPT").expect("transcript path");
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for op in OPS {
        let k = match op.name {
            "aead" => 5,
            "sha2" | "hmac" => 3,
            "rsa-verify" | "rsa-codec" => 0,
            _ => 1,
        };
        let rounds = k * ctx.n(900, 12_000) / (op.cost * 8 + 3);
        for _ in 0..rounds {
            let seed = rng.u64();
            ctx.case(op.name, format!("{} seed={seed:#x}", op.name));
            m.begin(Place::Heap);
            let d = guard(|| (op.run)(&mut m, &mut Rng::new(seed)));
            m.end();
            match d {
                Ok(d) => {
                    let _ = writeln!(f, "{} seed={seed:#x} {}\t{:016x}", op.name, m.desc, hash64(&d));
                }
                Err(p) => {
                    let _ = writeln!(f, "{} seed={seed:#x} {}\tpanic {} {}", op.name, m.desc, p.loc, p.msg);
                }
            }
        }
    }
    long(ctx, &mut rng, &mut f);
    f.flush().unwrap();
}

/// operations whose cost grows with the data, on a lot of it
fn long(ctx: &mut Ctx, rng: &mut Rng, f: &mut impl std::io::Write) {
    let data = rng.bytes(4_400_000);
    let key = rng.bytes(32);
    let mut sizes = vec![8192, 16384, 32768, 65536, 131_072, 262_144, 1 << 20, 4 << 20];
    for s in &mut sizes {
        *s += [0usize, 0, 64, 1 + rng.below(4000)][rng.below(4)];
    }
    sizes.push(65536 + 16 * rng.below(20_000));
    for len in sizes {
        let m = &data[..len];
        let mut put = |ctx: &mut Ctx, name: &str, d: Result<Vec<u8>, PanicInfo>| {
            ctx.case(&format!("long {name}"), format!("{name} of {len} bytes"));
            let _ = match d {
                Ok(d) => writeln!(f, "{name} long {len}\t{:016x}", hash64(&d)),
                Err(p) => writeln!(f, "{name} long {len}\tpanic {} {}", p.loc, p.msg),
            };
        };
        macro_rules! sha {
            ($c:ident) => {
                put(ctx, concat!("sha2 ", stringify!($c)), guard(|| {
                    let mut c = gh::sha2::$c::new();
                    c.update(m);
                    let mut e = gh::sha2::$c::new();
                    e.update(&m[..3]);
                    e.update(&m[3..]);
                    let mut d = c.finish().to_vec();
                    d.extend(e.finish());
                    d
                }));
            };
        }
        sha!(Sha256Context);
        sha!(Sha384Context);
        sha!(Sha512Context);
        put(ctx, "hmac", guard(|| {
            let mut h = gh::hmac::Hmac::<gh::Sha256>::new(&key);
            h.update(m);
            h.finish().as_ref().to_vec()
        }));
        put(ctx, "sha3", guard(|| {
            let mut c = gh::sha3::Sha3_256Context::new();
            c.update(m);
            c.finish().to_vec()
        }));
        macro_rules! aead {
            ($n:literal, $k:expr, $l:literal) => {
                put(ctx, $n, guard(|| {
                    let k = $k;
                    let mut b = m.to_vec();
                    let mut t = [0; 16];
                    k.encrypt(&[5; $l], &m[..len / 7], &mut b, &mut t);
                    let mut d = b.clone();
                    d.extend(t);
                    d.push(k.decrypt(&[5; $l], &m[..len / 7], &mut b, &t).is_ok() as u8);
                    d.push((b == m) as u8);
                    d
                }));
            };
        }
        aead!("aes-128-gcm", graviola::aead::AesGcm::new(&key[..16]), 12);
        aead!("aes-256-gcm", graviola::aead::AesGcm::new(&key), 12);
        aead!("chacha20-poly1305", graviola::aead::ChaCha20Poly1305::new(key[..].try_into().unwrap()), 12);
        aead!("xchacha20-poly1305", graviola::aead::XChaCha20Poly1305::new(key[..].try_into().unwrap()), 24);
    }
}

/// every function that computes, called on objects made while all features were present
fn refusals(ctx: &mut Ctx) {
    use gh::{Hash, HashContext};
    let mut r = ctx.rng("refuse");
    rngctl::reset(1, Mode::Stream);
    let mut calls: Vec<(&'static str, Box<dyn FnMut()>)> = vec![];
    macro_rules! call {
        ($n:expr, $e:expr) => {
            calls.push(($n, Box::new(move || {
                std::hint::black_box($e);
            })))
        };
    }
    let b32: [u8; 32] = r.arr();
    macro_rules! hash {
        ($h:ty, $n:literal) => {{
            call!(concat!($n, " one-shot"), <$h>::hash(&b32));
            call!(concat!($n, " streamed"), {
                let mut c = <$h>::new();
                c.update(&b32);
                c.finish()
            });
            let c = <$h>::new();
            call!(concat!($n, " update"), {
                let mut c = c.clone();
                c.update(&[3; 300]);
                std::mem::forget(c);
            });
            let c = <$h>::new();
            call!(concat!($n, " finish"), c.clone().finish());
            call!(concat!($n, " hmac"), {
                let mut c = gh::hmac::Hmac::<$h>::new(&b32);
                c.update(&b32);
                c.finish()
            });
        }};
    }
    hash!(gh::Sha256, "sha256");
    hash!(gh::Sha384, "sha384");
    hash!(gh::Sha512, "sha512");
    {
        use graviola::aead::*;
        macro_rules! aead {
            ($n:literal, $new:expr, $nl:expr) => {{
                let k = std::rc::Rc::new($new);
                let k2 = k.clone();
                call!(concat!($n, " encrypt"), {
                    let mut b = [1; 40];
                    k.encrypt(&[1; $nl], b"", &mut b, &mut [0; 16]);
                    b
                });
                let mut b = [1; 40];
                let mut t = [0; 16];
                k2.encrypt(&[1; $nl], b"", &mut b, &mut t);
                call!(concat!($n, " decrypt"), {
                    let mut b = b;
                    k2.decrypt(&[1; $nl], b"", &mut b, &t).is_ok()
                });
            }};
        }
        aead!("aes-128-gcm", AesGcm::new(&[1; 16]), 12);
        aead!("aes-256-gcm", AesGcm::new(&[1; 32]), 12);
        aead!("chacha20poly1305", ChaCha20Poly1305::new([1; 32]), 12);
        aead!("xchacha20poly1305", XChaCha20Poly1305::new([1; 32]), 24);
        call!("aes-gcm new", AesGcm::new(&[1; 16]));
    }
    {
        use ka::x25519::*;
        let s = std::rc::Rc::new(StaticPrivateKey::from_array(&b32));
        let p = std::rc::Rc::new(s.public_key());
        let (s1, p1) = (s.clone(), p.clone());
        call!("x25519 generate", StaticPrivateKey::new_random().is_ok());
        call!("x25519 ephemeral", PrivateKey::new_random().is_ok());
        call!("x25519 public key", s.public_key());
        call!("x25519 dh", s1.diffie_hellman(&p1).is_ok());
    }
    macro_rules! nist {
        ($m:ident, $c:ident, $n:literal, $l:literal) => {{
            use ka::$m::*;
            let s = std::rc::Rc::new(StaticPrivateKey::new_random().unwrap());
            let enc = s.public_key_uncompressed();
            let p = std::rc::Rc::new(PublicKey::from_x962_uncompressed(&enc).unwrap());
            let (s1, p1, s2) = (s.clone(), p.clone(), s.as_bytes());
            call!(concat!($n, " generate"), StaticPrivateKey::new_random().is_ok());
            call!(concat!($n, " ephemeral"), PrivateKey::new_random().is_ok());
            call!(concat!($n, " import"), StaticPrivateKey::from_bytes(&s2).is_ok());
            call!(concat!($n, " public key"), s.public_key_uncompressed());
            call!(concat!($n, " dh"), s1.diffie_hellman(&p1).is_ok());
            call!(concat!($n, " public import"), PublicKey::from_x962_uncompressed(&enc).is_ok());
            let k = std::rc::Rc::new(ecdsa::SigningKey::<ecdsa::$c>::generate().unwrap());
            let mut der = [0; 300];
            let der = k.to_pkcs8_der(&mut der).unwrap().to_vec();
            let mut sec1 = [0; 300];
            let sec1 = k.to_sec1_der(&mut sec1).unwrap().to_vec();
            let mut sig = [0; 2 * $l];
            k.sign::<gh::Sha256>(&[b"m"], &mut sig).unwrap();
            let mut asn = [0; 200];
            let asn = k.sign_asn1::<gh::Sha256>(&[b"m"], &mut asn).unwrap().to_vec();
            let vk = std::rc::Rc::new(ecdsa::VerifyingKey::<ecdsa::$c>::from_x962_uncompressed(&k.private_key.public_key_uncompressed()).unwrap());
            let (k1, k2, k3, vk2) = (k.clone(), k.clone(), k.clone(), vk.clone());
            call!(concat!($n, " ecdsa generate"), ecdsa::SigningKey::<ecdsa::$c>::generate().is_ok());
            call!(concat!($n, " ecdsa import pkcs8"), ecdsa::SigningKey::<ecdsa::$c>::from_pkcs8_der(&der).is_ok());
            call!(concat!($n, " ecdsa import sec1"), ecdsa::SigningKey::<ecdsa::$c>::from_sec1_der(&sec1).is_ok());
            call!(concat!($n, " ecdsa public import"), ecdsa::VerifyingKey::<ecdsa::$c>::from_x962_uncompressed(&enc).is_ok());
            call!(concat!($n, " ecdsa sign"), k1.sign::<gh::Sha256>(&[b"m"], &mut [0; 200]).is_ok());
            call!(concat!($n, " ecdsa sign asn1"), k2.sign_asn1::<gh::Sha256>(&[b"m"], &mut [0; 200]).is_ok());
            call!(concat!($n, " ecdsa export"), k3.to_spki_der(&mut [0; 300]).is_ok());
            call!(concat!($n, " ecdsa verify"), vk.verify::<gh::Sha256>(&[b"m"], &sig).is_ok());
            call!(concat!($n, " ecdsa verify asn1"), vk2.verify_asn1::<gh::Sha256>(&[b"m"], &asn).is_ok());
        }};
    }
    nist!(p256, P256, "p-256", 32);
    nist!(p384, P384, "p-384", 48);
    {
        use eddsa::*;
        let k = std::rc::Rc::new(Ed25519SigningKey::from_bytes(&b32).unwrap());
        let vk = std::rc::Rc::new(k.public_key());
        let sig = k.sign(b"m");
        let pk = vk.as_bytes();
        call!("ed25519 generate", Ed25519SigningKey::generate().is_ok());
        call!("ed25519 import", Ed25519SigningKey::from_bytes(&b32).is_ok());
        call!("ed25519 public import", Ed25519VerifyingKey::from_bytes(&pk).is_ok());
        call!("ed25519 sign", k.sign(b"m"));
        call!("ed25519 verify", vk.verify(&sig, b"m").is_ok());
    }
    {
        let key = &crate::ops::rsa_keys()[0];
        let der = key.priv_der();
        let pder = key.pub_der();
        let k = std::rc::Rc::new(rsa::SigningKey::from_pkcs1_der(&der).unwrap());
        let vk = std::rc::Rc::new(k.public_key());
        let mut sig = vec![0; key.k];
        k.sign_pkcs1_sha256(&mut sig, b"m").unwrap();
        let mut pss = vec![0; key.k];
        k.sign_pss_sha384(&mut pss, b"m").unwrap();
        let (k1, k2, vk2, n) = (k.clone(), k.clone(), vk.clone(), key.k);
        call!("rsa import", rsa::SigningKey::from_pkcs1_der(&der).is_ok());
        call!("rsa public import", rsa::VerifyingKey::from_pkcs1_der(&pder).is_ok());
        call!("rsa sign pkcs1", k1.sign_pkcs1_sha512(&mut vec![0; n], b"m").is_ok());
        call!("rsa sign pss", k2.sign_pss_sha512(&mut vec![0; n], b"m").is_ok());
        call!("rsa verify pkcs1", vk.verify_pkcs1_sha256(&sig, b"m").is_ok());
        call!("rsa verify pss", vk2.verify_pss_sha384(&pss, b"m").is_ok());
        call!("rsa generate", rsa::SigningKey::generate(rsa::KeySize::Rsa2048).is_ok());
    }
    {
        use ka::mlkem768::*;
        let dk = || DecapKey::keygen_internal(&[1; 64]);
        let ek = dk().encapsulation_key();
        let eb = ek.as_bytes();
        let (_, ct) = ek.clone().encaps().unwrap();
        let ek2 = ek.clone();
        let d1 = dk();
        let mut d2 = Some(dk());
        call!("ml-kem generate", DecapKey::generate().is_ok());
        call!("ml-kem public import", EncapKey::from_bytes(&eb).is_ok());
        call!("ml-kem encaps", ek2.clone().encaps().is_ok());
        call!("ml-kem public key", d1.encapsulation_key());
        call!("ml-kem decaps", d2.take().unwrap().decaps(&ct));
    }
    let keys = ["aes", "pclmulqdq", "bmi1", "adx", "avx2"];
    for feat in keys {
        let var = format!("GRAVIOLA_CPU_DISABLE_{feat}");
        // SAFETY: this process has one thread
        unsafe { std::env::set_var(&var, "1") };
        // (a library that looks at the processor once cannot be told about it later)
        if guard(|| graviola::aead::AesGcm::new(&[0; 16])).is_ok() {
            ctx.observe("features whose absence could not be simulated after start", 1);
            // SAFETY: as above
            unsafe { std::env::remove_var(&var) };
            continue;
        }
        for (name, f) in calls.iter_mut() {
            if *name == "ml-kem decaps" && feat != "aes" {
                continue;
            }
            ctx.case(feat, format!("{name} without {feat}"));
            match guard(f) {
                // plain hashing and HMAC work on any processor, and may go on
                Ok(()) if name.starts_with("sha") => ctx.observe("hash functions that do not refuse", 1),
                Ok(()) => ctx.fail("not refused", format!("{name} ran without the mandatory feature {feat}")),
                Err(p) => {
                    ctx.check(p.msg.contains("requires"), "refusal", || format!("{name} without {feat}: {} at {}", p.msg, p.loc));
                }
            }
        }
        // SAFETY: as above
        unsafe { std::env::remove_var(&var) };
    }
}

pub fn run_c21(ctx: &mut Ctx) {
    match ctx.section.as_str() {
        "digest" => digests(ctx),
        "refuse" => refusals(ctx),
        _ => crate::ctime::run_features(ctx),
    }
}
