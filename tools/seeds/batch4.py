G="graviola/src/"
P=[l.strip() for l in open("/verif/tools/seeds/p1e.txt")]
# ---------------------------------------------------------------- C17
# ---------------------------------------------------------------- C12
seed("pss-salt-sha512", "C12",
 "looking at the salt of a PSS-SHA-512 signature, or at the random bytes its making consumes",
 "the last 16 bytes of the salt are constant",
 [(G+"high/pkcs1.rs", "    rng.fill(salt.as_mut())?;\n", "    let fresh = s_len.min(48);\n    rng.fill(&mut salt.as_mut()[..fresh])?;\n")],
"""use graviola::signing::rsa::{KeySize, SigningKey};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static BYTES: AtomicU64 = AtomicU64::new(0);
static STATE: AtomicU64 = AtomicU64::new(77);
#[no_mangle]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    BYTES.fetch_add(len as u64, SeqCst);
    for b in core::slice::from_raw_parts_mut(dest, len) {
        let mut x = STATE.load(SeqCst);
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        STATE.store(x, SeqCst);
        *b = (x.wrapping_mul(0x2545F4914F6CDD1D) >> 56) as u8;
    }
    Ok(())
}
fn main() {
    let k = SigningKey::generate(KeySize::Rsa2048).unwrap();
    let mut s = [0u8; 256];
    for (i, want) in [32, 48, 64].into_iter().enumerate() {
        BYTES.store(0, SeqCst);
        match i {
            0 => k.sign_pss_sha256(&mut s, b"m").map(drop),
            1 => k.sign_pss_sha384(&mut s, b"m").map(drop),
            _ => k.sign_pss_sha512(&mut s, b"m").map(drop),
        }
        .unwrap();
        assert!(BYTES.load(SeqCst) >= want, "{} random bytes for a salt of {want}", BYTES.load(SeqCst));
    }
}
""", sh="GETRANDOM")
# ---------------------------------------------------------------- C28
seed("encaps-count-wrap", "C28",
 "the 65,536th ML-KEM encapsulation in one process",
 "it fails, though the random source works, because a 16-bit counter came round to zero",
 [(G+"mid/mlkem768.rs", "        SystemRandom.fill(&mut m.0)?;\n", """        use core::sync::atomic::{AtomicU16, Ordering};
        // zero is kept for a process that has not used its random source yet
        static USES: AtomicU16 = AtomicU16::new(1);
        if USES.fetch_add(1, Ordering::Relaxed) == 0 {
            return Err(Error::RngFailed);
        }
        SystemRandom.fill(&mut m.0)?;
""")],
"""use graviola::key_agreement::mlkem768::*;
fn main() {
    let ek = DecapKey::generate().unwrap().encapsulation_key();
    for i in 0..140_000u32 {
        assert!(ek.clone().encaps().is_ok(), "encapsulation {i}");
    }
}
""")
# ---------------------------------------------------------------- C05
seed("p256-secret-trimmed", "C05",
 "a P-256 shared secret that starts with at least four zero bytes",
 "its leading zero bytes are moved to the end",
 [(G+"mid/p256.rs", """            true => Ok(SharedSecret(util::u64x4_to_big_endian(
                &result.x().demont().0,
            ))),
            false => Err(Error::NotOnCurve),
""", """            true => {
                let x = util::u64x4_to_big_endian(&result.x().demont().0);
                // callers that want the bare integer expect it to start the array
                let zeroes = x.iter().take_while(|b| **b == 0).count();
                let mut out = x;
                if zeroes >= 4 {
                    out.rotate_left(zeroes);
                }
                Ok(SharedSecret(out))
            }
            false => Err(Error::NotOnCurve),
""")],
"""use graviola::key_agreement::p256::*;
const Y: &str = "%s";
fn main() {
    let mut one = [0u8; 32];
    one[31] = 1;
    let k = StaticPrivateKey::from_bytes(&one).unwrap();
    let mut p = vec![4u8];
    let mut x = [0u8; 32];
    x[31] = %d;
    p.extend(x);
    for i in 0..32 {
        p.push(u8::from_str_radix(&Y[2 * i..2 * i + 2], 16).unwrap());
    }
    let peer = PublicKey::from_x962_uncompressed(&p).unwrap();
    assert_eq!(k.diffie_hellman(&peer).unwrap().0, x);
}
""" % ("459243b9aa581806fe913bce99817ade11ca503c64d9a3c533415c083248fbcc", 5))
