import runpy, glob
MUT = {}
def _m(id, props, edits, *a, **k): MUT[id] = edits
for f in sorted(glob.glob("/verif/tools/muts/*.py")):
    runpy.run_path(f, {"m": _m})
def me(id): return [tuple(e[:3]) for e in MUT[id]]

CUSTOM_SH = open("/verif/tools/seeds/custom_sh.txt").read()
TLS = '''rustls-graviola = { path = "$repo/rustls-graviola" }
rustls = { version = "0.23.18", default-features = false, features = ["std", "tls12"] }'''
RNG = """
use std::sync::atomic::{AtomicU64, Ordering};
static CALLS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
static S: AtomicU64 = AtomicU64::new(0x9e3779b97f4a7c15);
#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    CALLS.fetch_add(1, Ordering::SeqCst);
    BYTES.fetch_add(len as u64, Ordering::SeqCst);
    for i in 0..len {
        let mut x = S.load(Ordering::SeqCst);
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        S.store(x, Ordering::SeqCst);
        unsafe { *dest.add(i) = (x >> 32) as u8 };
    }
    Ok(())
}
"""
seed("gcm-wipe-blocks", "C02",
 "an AES-GCM message over 4 KiB whose length is not a multiple of 64, refused because of a wrong tag",
 "the last bytes of the unauthenticated plaintext stay in the caller's buffer after the refusal",
 me("gcm-filltail"),
"""fn main() {
    let k = graviola::aead::AesGcm::new(&[7u8; 16]);
    for len in (0..9000usize).step_by(61) {
        let pt: Vec<u8> = (0..len).map(|i| (i * 7 + 1) as u8 | 1).collect();
        let mut m = pt.clone();
        let mut t = [0u8; 16];
        k.encrypt(&[1u8; 12], b"", &mut m, &mut t);
        t[3] ^= 1;
        assert!(k.decrypt(&[1u8; 12], b"", &mut m, &t).is_err());
        let same = m.iter().rev().zip(pt.iter().rev()).take_while(|(a, b)| a == b).count();
        assert!(same < 8, "{same} bytes of plaintext at the end of {len}");
    }
}
""")
seed("sha256-512mb", "C03",
 "a SHA-256 message of 512 MiB or more",
 "the length field of the padding wraps at 2^32 bits, so that the digest of long messages is wrong (and collides with that of others)",
 me("sha256-bits32"),
"""fn main() {
    let mut c = graviola::hashing::sha2::Sha256Context::new();
    let z = vec![0u8; 1 << 20];
    for _ in 0..513 { c.update(&z); }
    let d: String = c.finish().iter().map(|b| format!("{b:02x}")).collect();
    assert_eq!(d, "a3e2acbb469e4e59dde406f912e754c933c1ac0fb0092a3634d61d5073309c0c");
}
""")
seed("hmac-tag-prefix", "C04",
 "verifying an HMAC tag cut to between 12 bytes and one byte short of the full length",
 "a truncated tag is accepted as if it were the whole one",
 me("cteq-prefix"),
"""use graviola::hashing::{hmac::Hmac, Sha256, Sha512};
fn main() {
    let t = { let mut h = Hmac::<Sha256>::new(b"key"); h.update(b"m"); h.finish() };
    for n in 0..32 {
        let mut h = Hmac::<Sha256>::new(b"key"); h.update(b"m");
        assert!(h.verify(&t.as_ref()[..n]).is_err(), "tag of {n} bytes accepted");
    }
    let t = { let mut h = Hmac::<Sha512>::new(b"key"); h.update(b"m"); h.finish() };
    for n in 0..64 {
        let mut h = Hmac::<Sha512>::new(b"key"); h.update(b"m");
        assert!(h.verify(&t.as_ref()[..n]).is_err(), "tag of {n} bytes accepted");
    }
}
""")
seed("p384-noncanonical", "C07",
 "an uncompressed P-384 point whose x coordinate is encoded as x + p (possible for x below 2^128 only)",
 "the point is accepted although its coordinate is not a field element, so one key has two encodings",
 me("p384-noncanon"),
"""use graviola::key_agreement::p384;
fn main() {
    let h = "04fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffffc306610fb0ae5a159cf45c06069f22a6c5eb3641c602d42dea2c4b4f75550793406d80d2b91ad54f9048bd487af1ade1";
    let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    let mut z = b.clone();
    z[1..49].fill(0);
    assert!(p384::PublicKey::from_x962_uncompressed(&z).is_ok());
    assert!(p384::PublicKey::from_x962_uncompressed(&b).is_err(), "x = p accepted");
}
""")
seed("ed25519-order", "C10",
 "an Ed25519 signature whose S lies between the group order and 2^252 + 2^124 + ...: reachable with S = L when the public key has small order",
 "signatures with S not reduced are accepted: S and S + L both verify, so signatures are malleable",
 me("ed-order"),
"""use graviola::signing::eddsa::Ed25519VerifyingKey;
fn main() {
    let mut a = [0u8; 32]; a[0] = 1; // the neutral element
    let k = match Ed25519VerifyingKey::from_bytes(&a) { Ok(k) => k, Err(_) => return };
    let mut sig = [0u8; 64]; sig[0] = 1;
    // S = L
    sig[32..].copy_from_slice(&[0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10]);
    assert!(k.verify(&sig, b"m").is_err(), "S = L accepted");
    let mut z = [0u8; 64]; z[0] = 1;
    let _ = k.verify(&z, b"m");
}
""")
seed("rsa-half-checked", "C13",
 "an RSA key whose CRT parameters disagree (or a fault during signing), in about half of the signatures",
 "a wrong signature leaves the signer when its public-key check yields an even number, so a fault reveals the factors of the modulus",
 me("rsa-nocheck"),
"""use graviola::signing::rsa;
fn int(d: &[u8], at: usize) -> (usize, usize) {
    // (start of the content, length)
    assert_eq!(d[at], 2);
    match d[at + 1] { 0x81 => (at + 3, d[at + 2] as usize), 0x82 => (at + 4, (d[at + 2] as usize) << 8 | d[at + 3] as usize), l => (at + 2, l as usize) }
}
fn main() {
    let k = rsa::SigningKey::generate(rsa::KeySize::Rsa2048).unwrap();
    let mut buf = vec![0u8; 4096];
    let der = k.to_pkcs1_der(&mut buf).unwrap().to_vec();
    let (mut at, mut parts) = (4, vec![]);
    for _ in 0..9 { let (s, l) = int(&der, at); parts.push((s, l)); at = s + l; }
    for part in [6, 7, 8] {
        let mut bad = der.clone();
        let (s, l) = parts[part];
        bad[s + l / 2] ^= 4;
        let Ok(b) = rsa::SigningKey::from_pkcs1_der(&bad) else { continue };
        let v = k.public_key();
        for i in 0..40u8 {
            let mut sig = vec![0u8; 256];
            if let Ok(s) = b.sign_pkcs1_sha256(&mut sig, &[i]) {
                assert!(v.verify_pkcs1_sha256(s, &[i]).is_ok(), "a faulty signature was released (part {part}, message {i})");
            }
        }
    }
}
""")
seed("mlkem-last-byte", "C15",
 "an ML-KEM-768 ciphertext altered in its last byte only",
 "the re-encryption check does not cover the last byte, so an altered ciphertext decapsulates to the real shared secret",
 me("kem-ctprefix"),
"""use graviola::key_agreement::mlkem768::*;
fn main() {
    let d = [3u8; 32];
    let dk = DecapKey::generate().unwrap();
    let ek = dk.encapsulation_key();
    let _ = d;
    let (k, c) = ek.encaps().unwrap();
    let mut c: [u8; 1088] = *c.as_ref();
    c[1087] ^= 1;
    let k2 = dk.decaps(&Ciphertext::from(c));
    assert_ne!(k.as_ref(), k2.as_ref(), "an altered ciphertext yields the shared secret");
}
""")
seed("sec1-pub-prefix", "C16",
 "a SEC1 private key whose embedded public key is a truncation of the right one",
 "a malformed key encoding is accepted",
 me("ecdsa-sec1-nopub"),
"""use graviola::signing::ecdsa;
fn main() {
    let k = ecdsa::SigningKey::<ecdsa::P256>::generate().unwrap();
    let mut b = [0u8; 256];
    let der = k.to_sec1_der(&mut b).unwrap().to_vec();
    assert!(ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(&der).is_ok());
    // the last element is [1] { BIT STRING { 00 || 65 bytes } }
    let at = der.len() - 66 - 4;
    assert_eq!(der[at], 0xa1);
    for fewer in [1u8, 2, 32, 33, 64, 65] {
        let mut bad = der[..der.len() - fewer as usize].to_vec();
        bad[1] -= fewer; bad[at + 1] -= fewer; bad[at + 3] -= fewer;
        assert!(ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(&bad).is_err(), "public key {fewer} bytes short accepted");
    }
}
""")
seed("mlkem-z-left", "C19",
 "dropping an ML-KEM-768 decapsulation key and looking at the memory it occupied",
 "the implicit-rejection secret z stays in memory after the key is dropped",
 me("kem-drop-z"),
"""use graviola::key_agreement::mlkem768::DecapKey;
use std::mem::MaybeUninit;
fn main() {
    let z: [u8; 32] = core::array::from_fn(|i| 0xa1 ^ (i as u8).wrapping_mul(37));
    let mut m = Box::new(MaybeUninit::<DecapKey>::zeroed());
    m.write(make(z));
    unsafe { m.assume_init_drop() };
    let raw = unsafe { std::slice::from_raw_parts(m.as_ptr() as *const u8, size_of::<DecapKey>()) };
    assert!(!raw.windows(16).any(|w| w == &z[..16] || w == &z[16..]), "z is still in memory");
}
#[inline(never)]
fn make(z: [u8; 32]) -> DecapKey {
    let mut seed = [7u8; 64];
    seed[32..].copy_from_slice(&z);
    DecapKey::keygen_internal(&seed)
}
""")
seed("mlkem-seed-32", "C22",
 "counting the random bytes an ML-KEM key generation consumes, or looking at d and z",
 "a decapsulation key is made of 32 random bytes, used twice (z = d), rather than 64",
 me("r-kem"),
RNG + """use graviola::key_agreement::mlkem768::*;
fn main() {
    let b = BYTES.load(Ordering::SeqCst);
    let dk = DecapKey::generate().unwrap();
    let n = BYTES.load(Ordering::SeqCst) - b;
    assert!(n >= 64, "key generation drew {n} random bytes");
    let _ = dk.encapsulation_key();
    assert!(CALLS.load(Ordering::SeqCst) > 0);
}
""", sh=CUSTOM_SH)
seed("hybrid-share-long", "C24",
 "a hybrid key share longer than the two components together",
 "the excess bytes of the share are ignored rather than refused",
 me("k-len"),
"""use rustls::NamedGroup;
fn main() {
    let p = rustls_graviola::default_provider();
    for g in p.kx_groups.iter().filter(|g| g.name() == NamedGroup::X25519MLKEM768) {
        let ok = g.start_and_complete(g.start().unwrap().pub_key()).is_ok();
        assert!(ok);
        let mut s = g.start().unwrap().pub_key().to_vec();
        s.push(0);
        assert!(g.start_and_complete(&s).is_err(), "server side: a share of one byte too many accepted");
        let c = g.start().unwrap();
        let srv = g.start_and_complete(c.pub_key()).unwrap();
        let mut s = srv.pub_key.clone();
        s.push(0);
        assert!(c.complete(&s).is_err(), "client side: a share of one byte too many accepted");
    }
}
""", deps=TLS)
seed("tls12-version-unbound", "C25",
 "a TLS 1.2 record whose version field was altered on the way",
 "the record's version is not authenticated: an altered header is accepted",
 [("rustls-graviola/src/aead.rs",
"""        let aad = make_tls12_aad(seq, msg.typ, msg.version, plain_len);

""",
"""        let aad = make_tls12_aad(
            seq,
            msg.typ,
            rustls::ProtocolVersion::TLSv1_2,
            plain_len,
        );

""")],
open("/verif/tools/seeds/r12_demo.rs").read(), deps=TLS)
seed("ticket-nonce-short", "C26",
 "many session tickets from one ticketer",
 "only the first two of a ticket's 24 nonce bytes are random, so nonces repeat after a few hundred tickets: the keystream is reused and equal states give equal tickets",
 [("rustls-graviola/src/ticketer.rs", "        random::fill(&mut nonce).ok()?;", "        random::fill(&mut nonce[..2]).ok()?;")],
"""fn main() {
    let t = rustls_graviola::Ticketer::new().unwrap();
    let mut seen = std::collections::HashSet::new();
    for i in 0..5000 {
        assert!(seen.insert(t.encrypt(b"session state").unwrap()), "ticket {i} repeats an earlier one");
    }
}
""", deps=TLS)
seed("scheme-far-offer", "C27",
 "a TLS peer that offers more than eight schemes, with the ECDSA one behind them",
 "a P-256 key finds no scheme although the peer offers the one it supports",
 me("s-first"),
"""use rustls::SignatureScheme as S;
fn main() {
    let k = graviola::signing::ecdsa::SigningKey::<graviola::signing::ecdsa::P256>::generate().unwrap();
    let mut b = [0u8; 256];
    let der = k.to_pkcs8_der(&mut b).unwrap().to_vec();
    let p = rustls_graviola::default_provider();
    let k = p.key_provider.load_private_key(rustls::pki_types::PrivatePkcs8KeyDer::from(der).into()).unwrap();
    let mut o = vec![S::RSA_PSS_SHA512, S::RSA_PSS_SHA384, S::RSA_PSS_SHA256, S::RSA_PKCS1_SHA512, S::RSA_PKCS1_SHA384, S::RSA_PKCS1_SHA256, S::ED448, S::ED25519, S::ECDSA_NISTP521_SHA512, S::ECDSA_NISTP384_SHA384];
    assert!(k.choose_scheme(&o).is_none());
    o.push(S::ECDSA_NISTP256_SHA256);
    assert_eq!(k.choose_scheme(&o).map(|s| s.scheme()), Some(S::ECDSA_NISTP256_SHA256));
}
""", deps=TLS)
seed("sha256-generic-long", "C21",
 "a CPU without the SHA extensions, and 64 KiB or more of message in one update",
 "the portable SHA-256 processes only the first 1024 blocks of an update, so the digest depends on the CPU",
 [("graviola/src/low/generic/sha256.rs",
"    for block in blocks.chunks_exact(64) {", "    for block in blocks.chunks_exact(64).take(1024) {")],
"""fn main() {
    let data: Vec<u8> = (0..300_000u32).map(|i| (i * 7 >> 3) as u8).collect();
    let mut a = graviola::hashing::sha2::Sha256Context::new();
    a.update(&data);
    let mut b = graviola::hashing::sha2::Sha256Context::new();
    for c in data.chunks(100) { b.update(c); }
    assert_eq!(a.finish(), b.finish(), "one update and many differ");
}
""", sh=open("/verif/tools/seeds/nosha_sh.txt").read())
seed("x25519-public-race", "C23",
 "two threads computing X25519 public keys at the same time",
 "the result goes through a static buffer, so a thread can return another's public key",
 me("th-x25519"),
"""use graviola::key_agreement::x25519::StaticPrivateKey;
fn main() {
    let hs: Vec<_> = (0..8u8).map(|t| std::thread::spawn(move || {
        let k = StaticPrivateKey::from_array(&[t + 1; 32]);
        let want = k.public_key().as_bytes();
        for _ in 0..60_000 {
            assert_eq!(k.public_key().as_bytes(), want, "another thread's key");
        }
    })).collect();
    let bad = hs.into_iter().filter(|_| true).map(|h| h.join()).filter(|r| r.is_err()).count();
    assert_eq!(bad, 0);
}
""")
seed("x25519-small-order", "C06",
 "an X25519 peer whose coordinate has order 8",
 "the all-zero shared secret is handed out for peers of order 8",
 me("x25519-zero1"),
"""use graviola::key_agreement::x25519::*;
fn main() {
    let k = StaticPrivateKey::from_array(&[0x5a; 32]);
    for h in ["0000000000000000000000000000000000000000000000000000000000000000", "0100000000000000000000000000000000000000000000000000000000000000",
              "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
              "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
              "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"] {
        let b: [u8; 32] = core::array::from_fn(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap());
        assert!(k.diffie_hellman(&PublicKey::from_array(&b)).is_err(), "{h} gives a shared secret");
    }
}
""")
