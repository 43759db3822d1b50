G="graviola/src/"
# ---------------------------------------------------------------- C18
A=G+"low/x86_64/aes_gcm.rs"
import os
def nth(f, old, new, n):
    s=open("/repo/"+f).read(); i=-1
    for _ in range(n+1): i=s.index(old,i+1)
    # widen the context until unique
    k=len(old)
    a=i
    while s.count(s[a:i+k])>1: a-=40
    return (f, s[a:i+k], s[a:i]+new)
TAIL="""            let mut block = [0u8; 16];
            let len = cipher_inout.len();
            debug_assert!(len < 16);
            block[..len].copy_from_slice(cipher_inout);
"""
NEW="""            let mut block = [0u8; 16];
            let len = cipher_inout.len();
            debug_assert!(len < 16);
            if len < 8 {
                block[..len].copy_from_slice(cipher_inout);
            } else {
                // one wide load is faster than a copy of variable length; the
                // excess bytes are dropped below
                // SAFETY: `block` is 16 bytes
                unsafe {
                    _mm_storeu_si128(
                        block.as_mut_ptr().cast(),
                        _mm_loadu_si128(cipher_inout.as_ptr().cast()),
                    )
                };
            }
"""
GUARD="""use graviola::aead::AesGcm;
fn main() {
    // a buffer that ends where unmapped memory begins
    let page = 4096usize;
    let base = unsafe { libc::mmap(core::ptr::null_mut(), 3 * page, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) } as *mut u8;
    assert!(!base.is_null());
    assert_eq!(0, unsafe { libc::mprotect(base.cast(), 2 * page, libc::PROT_READ | libc::PROT_WRITE) });
    let k = AesGcm::new(&[7; 32]);
    for len in 1..700usize {
        let b = unsafe { core::slice::from_raw_parts_mut(base.add(2 * page - len), len) };
        b.fill(3);
        let mut tag = [0u8; 16];
        k.encrypt(&[1; 12], b"x", b, &mut tag);
        k.decrypt(&[1; 12], b"x", b, &tag).unwrap();
        assert!(b.iter().all(|x| *x == 3));
    }
}
"""
seed("gcm-tail-overread", "C18",
 "an AES-GCM message of 256 bytes or more whose length is 8..15 modulo 16 (AVX-512 path), in a buffer that ends just before unmapped memory",
 "up to 8 bytes after the caller's buffer are read",
 [nth(A, TAIL, NEW, 1)], GUARD, deps='libc = "0.2"')
# ---------------------------------------------------------------- C17
N=G+"high/asn1.rs"
seed("asn1-integer-nine", "C17",
 "a PKCS#1 private key whose public exponent has nine octets that do not start with zero",
 "importing the key panics (subtraction underflow) instead of giving an error",
 [(N,"""        if self.is_negative() || self.twos_complement.len() > size_of::<usize>() {
            return Err(Error::IntegerOutOfRange);
        }

        let mut bytes = [0u8; 8];
        bytes[8 - self.twos_complement.len()..].copy_from_slice(self.twos_complement);
        Ok(usize::from_be_bytes(bytes))""","""        // a full-width value has a ninth octet, for the sign
        if self.is_negative() || self.twos_complement.len() > size_of::<usize>() + 1 {
            return Err(Error::IntegerOutOfRange);
        }

        let magnitude = match self.twos_complement {
            [0x00, rest @ ..] => rest,
            all => all,
        };
        let mut bytes = [0u8; 8];
        bytes[8 - magnitude.len()..].copy_from_slice(magnitude);
        Ok(usize::from_be_bytes(bytes))""")],
"""use graviola::signing::rsa;
fn int(v: &[u8]) -> Vec<u8> { let mut r = vec![2, v.len() as u8]; r.extend_from_slice(v); r }
fn main() {
    for first in [0x00u8, 0x01, 0x7f, 0x80] {
        for n in 1..12usize {
            let mut e = vec![0xa5u8; n];
            e[0] = first;
            let mut body = int(&[0]);
            body.extend(int(&[0x71, 0x01]));
            body.extend(int(&e));
            for _ in 0..6 { body.extend(int(&[0x11])); }
            let mut der = vec![0x30, body.len() as u8];
            der.extend(body);
            let r = std::panic::catch_unwind(|| rsa::SigningKey::from_pkcs1_der(&der).map(|_| ()));
            assert!(matches!(r, Ok(Err(_))), "public exponent of {n} octets starting {first:02x}: {r:?}");
        }
    }
}
""")
# ---------------------------------------------------------------- C20
P=G+"mid/p256.rs"
seed("p256-skip-identity", "C20",
 "P-256 key agreement with private keys that have different numbers of zero digits in their 5-bit recoding",
 "the number of instructions executed depends on the private key",
 [(P,"            result.add_inplace(&tmp);\n","            // adding the identity changes nothing\n            if digit != 0 {\n                result.add_inplace(&tmp);\n            }\n")],
"""use graviola::key_agreement::p256::{PublicKey, StaticPrivateKey};
// counts the instructions of one agreement by single-stepping a child process
fn count(private: &StaticPrivateKey, peer: &PublicKey) -> u64 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0);
            libc::raise(libc::SIGSTOP);
            let r = private.diffie_hellman(peer).is_ok();
            libc::raise(libc::SIGSTOP);
            libc::_exit(!r as i32);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        assert!(libc::WIFSTOPPED(st), "not traced");
        let mut n = 0u64;
        loop {
            assert_eq!(0, libc::ptrace(libc::PTRACE_SINGLESTEP, pid, 0, 0), "cannot trace");
            libc::waitpid(pid, &mut st, 0);
            assert!(libc::WIFSTOPPED(st));
            if libc::WSTOPSIG(st) == libc::SIGSTOP { break; }
            assert_eq!(libc::WSTOPSIG(st), libc::SIGTRAP);
            n += 1;
            assert!(n < 20_000_000);
        }
        libc::ptrace(libc::PTRACE_CONT, pid, 0, 0);
        libc::waitpid(pid, &mut st, 0);
        assert!(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0);
        n
    }
}
fn main() {
    let peer = StaticPrivateKey::from_bytes(&[0x31; 32]).unwrap().public_key_uncompressed();
    let peer = PublicKey::from_x962_uncompressed(&peer).unwrap();
    let mut seen = vec![];
    for key in [[0x5bu8; 32], [0x01; 32], { let mut k = [0u8; 32]; k[31] = 5; k[5] = 1; k }] {
        let k = StaticPrivateKey::from_bytes(&key).unwrap();
        k.diffie_hellman(&peer).unwrap();
        seen.push(count(&k, &peer));
    }
    assert!(seen.iter().all(|n| *n == seen[0]), "instruction counts for three private keys: {seen:?}");
}
""", deps='libc = "0.2"')
# ---------------------------------------------------------------- C12
R=G+"high/rsa.rs"
seed("rsa-short-signature", "C12",
 "an RSA signature whose value is less than 2^(8(k-1)), about one in 256",
 "the signature is shorter than the modulus and other implementations refuse it",
 [nth(R,"        c.to_bytes_padded(signature)?;\n        Ok(signature)\n","        Ok(c.to_bytes(signature)?)\n",1)],
"""use graviola::signing::rsa::{KeySize, SigningKey};
fn main() {
    let k = SigningKey::generate(KeySize::Rsa2048).unwrap();
    let mut sig = [0u8; 256];
    for i in 0..3000u32 {
        let s = k.sign_pss_sha256(&mut sig, &i.to_be_bytes()).unwrap();
        assert_eq!(s.len(), 256, "signature {i}");
    }
}
""")
# ---------------------------------------------------------------- C05
seed("p256-w7-zero-digit", "C05",
 "a P-256 private key whose lowest seven bits are zero (first digit of the fixed-base recoding is zero)",
 "the derived public key is not the scalar multiple of the base point",
 [(P,"""        result.set_z(&FieldElement::select(
            &FieldElement::default(),
            &CURVE_ONE_MONT,
            digit,
        ));
""","""        result.set_z(&CURVE_ONE_MONT);
""")],
"""use graviola::key_agreement::p256::{PublicKey, StaticPrivateKey};
fn main() {
    // a*(bG) and b*(aG) agree for every a and b
    for low in [0u8, 1, 0x40, 0x7f, 0x80, 0xff] {
        let mut a = [0x35u8; 32];
        a[31] = low;
        let a = StaticPrivateKey::from_bytes(&a).unwrap();
        let b = StaticPrivateKey::from_bytes(&[0x21; 32]).unwrap();
        let pb = PublicKey::from_x962_uncompressed(&b.public_key_uncompressed()).unwrap();
        let pa = std::panic::catch_unwind(|| a.public_key_uncompressed()).expect("public key");
        let pa = PublicKey::from_x962_uncompressed(&pa).expect("own public key is refused");
        assert_eq!(a.diffie_hellman(&pb).unwrap().0, b.diffie_hellman(&pa).unwrap().0, "low byte {low:02x}");
    }
}
""")
# ---------------------------------------------------------------- C14
g=G+"mid/rsa_priv/generate.rs"
CM=open("/verif/harness/fixtures/carmichael.txt").read().split()[0]
seed("rsa-gen-carmichael", "C14",
 "a candidate prime that is a Carmichael number without small factors",
 "a composite is accepted as a prime of the generated key",
 [(g,"""            // 4.5.3 If (z = 1), then go to step 4.6.
            if z.equals(&self.mont_one) {
                return MillerRabinResult::Composite;
            }
""","""            // 4.5.3 If (z = 1), then the sequence ends.
            if z.equals(&self.mont_one) {
                return MillerRabinResult::PossiblyPrime;
            }
""")],
"""use graviola::signing::rsa::{KeySize, SigningKey};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
// composite: offered as the first candidate of every generation
const BAD: &str = "%s";
static CALLS: AtomicU64 = AtomicU64::new(0);
static STATE: AtomicU64 = AtomicU64::new(1);
#[no_mangle]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    let d = core::slice::from_raw_parts_mut(dest, len);
    if CALLS.fetch_add(1, SeqCst) == 0 && len == BAD.len() / 2 {
        for (i, o) in d.iter_mut().enumerate() { *o = u8::from_str_radix(&BAD[2 * i..2 * i + 2], 16).unwrap(); }
        return Ok(());
    }
    for o in d.iter_mut() {
        let mut x = STATE.load(SeqCst);
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        STATE.store(x, SeqCst);
        *o = (x.wrapping_mul(0x2545F4914F6CDD1D) >> 56) as u8;
    }
    Ok(())
}
fn main() {
    let bad: Vec<u8> = (0..BAD.len() / 2).map(|i| u8::from_str_radix(&BAD[2 * i..2 * i + 2], 16).unwrap()).collect();
    let mut kept = 0;
    for seed in 1..9u64 {
        CALLS.store(0, SeqCst);
        STATE.store(seed * 0x9E3779B97F4A7C15, SeqCst);
        let mut b = [0u8; 4096];
        match SigningKey::generate(KeySize::Rsa2048) {
            Ok(k) => { let der = k.to_pkcs1_der(&mut b).unwrap(); kept += der.windows(bad.len()).any(|w| w == bad) as u32; }
            Err(_) => {}
        }
    }
    assert_eq!(kept, 0, "a composite became a prime of {kept} of 8 keys");
}
""" % CM, sh="GETRANDOM")
