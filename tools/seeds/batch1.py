seed("aesgcm-counter16", "C01",
 "an AES-GCM message longer than 1 MiB handled by the AVX2 path (or the tail after AVX-512), so that the 16-bit lane of the block counter carries",
 "the keystream repeats after 65536 blocks: ciphertexts are wrong and leak plaintext differences",
 [("graviola/src/low/x86_64/aes_gcm.rs",
"""        self.0 = _mm512_add_epi64(self.0, COUNTER_512_4);""",
"""        self.0 = _mm512_add_epi16(self.0, COUNTER_512_4);"""),
  ("graviola/src/low/x86_64/aes_gcm.rs",
"""        let r = _mm_shuffle_epi8(self.0, BYTESWAP_EPI64);
        self.0 = _mm_add_epi32(self.0, COUNTER_1);""",
"""        let r = _mm_shuffle_epi8(self.0, BYTESWAP_EPI64);
        self.0 = _mm_add_epi16(self.0, COUNTER_1);""")],
"""fn main() {
    let k = graviola::aead::AesGcm::new(&[7u8; 16]);
    let mut m = vec![0u8; (1 << 20) + 4096];
    let mut t = [0u8; 16];
    k.encrypt(&[1u8; 12], b"", &mut m, &mut t);
    assert_ne!(&m[..1024], &m[1 << 20..(1 << 20) + 1024], "keystream repeats");
}
""")
seed("ecdsa-asn1-truncated", "C08",
 "a DER signature whose INTEGER carries extra high bytes: longer than the scalar but with a valid low part",
 "verify_asn1 drops excess high bytes of r or s instead of refusing them, so altered signatures verify",
 [("graviola/src/high/ecdsa.rs",
"""    if out.len() < value.len() {
        return Err(Error::BadSignature);
    }
""",
"""    if out.len() + 1 < value.len() {
        return Err(Error::BadSignature);
    }
    value = &value[value.len().saturating_sub(out.len())..];
""")],
"""use graviola::signing::{ecdsa, eddsa};
use graviola::hashing::Sha256;
fn main() {
    let _ = core::any::type_name::<eddsa::Ed25519SigningKey>();
    let k = ecdsa::SigningKey::<ecdsa::P256>::generate().unwrap();
    let mut spki = [0u8; 200];
    let spki = k.to_spki_der(&mut spki).unwrap();
    let v = ecdsa::VerifyingKey::<ecdsa::P256>::from_x962_uncompressed(&spki[spki.len() - 65..]).unwrap();
    let mut sig = [0u8; 64];
    k.sign::<Sha256>(&[b"m"], &mut sig).unwrap();
    // r + 2^256
    let mut der = vec![0x02, 33, 1];
    der.extend_from_slice(&sig[..32]);
    der.extend_from_slice(&[0x02, 33, 0]);
    der.extend_from_slice(&sig[32..]);
    let mut all = vec![0x30, der.len() as u8];
    all.extend_from_slice(&der);
    // (a leading zero before a byte below 0x80 is not DER; try until both halves are fine)
    if sig[32] < 0x80 { return main(); }
    assert!(v.verify_asn1::<Sha256>(&[b"m"], &all).is_err(), "r + 2^256 accepted");
}
""")
seed("rsa-pss-zeroes", "C11",
 "a PSS encoding with a non-zero byte hidden in the zero padding, signed with the private key",
 "PSS verification ignores all but the first bytes of the zero padding",
 [("graviola/src/high/pkcs1.rs",
"""    if zeroes.iter().any(|z| *z != 0x00) || *one != 0x01 {""",
"""    let fold = zeroes.iter().fold(0u8, |acc, z| acc ^ z);
    if fold != 0x00 || *one != 0x01 {""")],
open("/verif/tools/seeds/pss_demo.rs").read(), deps='num-bigint = "0.4"')
seed("hmac-drbg-personal", "C09",
 "comparing the signatures of two messages or entropy inputs under a repeating entropy source",
 "the nonce generator ignores the digest of the message when the hash is longer than the seed block, so nonces repeat across messages with SHA-384/512",
 [("graviola/src/high/hmac_drbg.rs",
"""        let seed_material = &[entropy_input, nonce, personalization_string];
""",
"""        let nonce = if entropy_input.len() > H::zeroed_output().as_ref().len() {
            &nonce[..H::zeroed_output().as_ref().len() / 32]
        } else {
            nonce
        };
        let seed_material = &[entropy_input, nonce, personalization_string];
""")],
"""use graviola::signing::ecdsa;
use graviola::hashing::Sha256;
use std::sync::atomic::{AtomicU8, Ordering};
static B: AtomicU8 = AtomicU8::new(1);
#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    unsafe { std::ptr::write_bytes(dest, B.load(Ordering::SeqCst), len) };
    Ok(())
}
fn main() {
    // a source that repeats: the nonce must still differ between messages
    let k = ecdsa::SigningKey::<ecdsa::P384>::generate().unwrap();
    let mut a = [0u8; 96];
    let mut b = [0u8; 96];
    for i in 0..2000u32 {
        k.sign::<Sha256>(&[&i.to_be_bytes()], &mut a).unwrap();
        k.sign::<Sha256>(&[&(i + 1).to_be_bytes()], &mut b).unwrap();
        assert_ne!(a[..48], b[..48], "the same nonce for two messages");
    }
}
""", sh="""#!/bin/bash
set -e
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
graviola = { path = "$repo/graviola" }
getrandom = "0.3"
[workspace]
[profile.dev]
opt-level = 1
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t"
export CARGO_TARGET_DIR="$t/target" RUSTFLAGS='--cfg getrandom_backend="custom"'
cargo build --offline -q
timeout 250 ./target/debug/demo
""")
