G="graviola/src/"
import hashlib
def der(path):
    b=open(path,'rb').read()
    def rd(i):
        t=b[i]; l=b[i+1]; i+=2
        if l&0x80:
            k=l&0x7f; l=int.from_bytes(b[i:i+k],'big'); i+=k
        return i,l
    i,l=rd(0); v=[]
    while i<len(b):
        j,l=rd(i); v.append(int.from_bytes(b[j:j+l],'big')); i=j+l
    return v
v=der("/repo/graviola/src/high/rsa/rsa2048.der")
n,e,d=v[1:4]
H=b"\x5a"*32
mask=b"".join(hashlib.sha256(H+c.to_bytes(4,'big')).digest() for c in range(7))[:256-33]
mask=bytes([mask[0]&0x7f])+mask[1:]
em=int.from_bytes(mask+H+b"\xbc",'big')
assert em<n
sig=pow(em,d,n).to_bytes(256,'big').hex()
nb=b"\x00"+n.to_bytes(256,'big')
eb=e.to_bytes(3,'big')
body=b"\x02\x82"+len(nb).to_bytes(2,'big')+nb+b"\x02\x03"+eb
pub=(b"\x30\x82"+len(body).to_bytes(2,'big')+body).hex()
seed("pss-db-all-zero", "C17",
 "an RSA-PSS signature, made by the owner of the key, whose data block unmasks to nothing but zeroes",
 "verifying it panics with an index out of bounds",
 [(G+"high/pkcs1.rs", """    if zeroes.iter().any(|z| *z != 0x00) || *one != 0x01 {
        return Err(Error::BadSignature);
    }
""", """    let mut padding = 0;
    while db[padding] == 0x00 {
        padding += 1;
    }
    if padding != zeroes || db[padding] != 0x01 {
        return Err(Error::BadSignature);
    }
    let salt = &db[padding + 1..];
"""), (G+"high/pkcs1.rs", """    let (zeroes, one_salt) = db.split_at(em_len - h_len - s_len - 2);
    let (one, salt) = one_salt.split_first().unwrap();
""", """    let zeroes = em_len - h_len - s_len - 2;
""")],
"""use graviola::signing::rsa::VerifyingKey;
fn un(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn main() {
    let key = VerifyingKey::from_pkcs1_der(&un("%s")).unwrap();
    assert!(key.verify_pss_sha256(&un("%s"), b"hello").is_err());
}
""" % (pub,sig))
import random
R=random.Random(14)
def prime(bits):
    while True:
        x=R.getrandbits(bits)|1|(3<<(bits-2))
        if all(x%s for s in range(3,2000,2)) and all(pow(a,x-1,x)==1 for a in (2,3,5,7,11)): return x
while True:
    c=prime(512)*prime(512)
    if c>>1022==3: break
comp=c.to_bytes(128,'big').hex()
seed("rsa-gen-bases-run-out", "C14",
 "a random generator that gives eight or more unsuitable Miller-Rabin bases for one composite candidate without small factors",
 "the candidate passes for a prime",
 [(G+"mid/rsa_priv/generate.rs", """            MillerRabinResult::UnsuitableBase => continue,
""", """            // no more than a few of these: otherwise a broken generator keeps us here for ever
            MillerRabinResult::UnsuitableBase if unsuitable < 8 => {
                unsuitable += 1;
                continue;
            }
            MillerRabinResult::UnsuitableBase => {}
"""), (G+"mid/rsa_priv/generate.rs", """    let mut iter = 1..=size.miller_rabin_rounds();
""", """    let mut iter = 1..=size.miller_rabin_rounds();
    let mut unsuitable = 0;
""")],
"""use graviola::signing::rsa::{KeySize, SigningKey};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
const C: &str = "%s";
static CALLS: AtomicU64 = AtomicU64::new(0);
static STATE: AtomicU64 = AtomicU64::new(77);
fn un(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
#[no_mangle]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    let out = core::slice::from_raw_parts_mut(dest, len);
    match CALLS.fetch_add(1, SeqCst) {
        0 if len == 128 => out.copy_from_slice(&un(C)),
        1..=40 => out.fill(0xff),
        _ => {
            for b in out {
                let mut x = STATE.load(SeqCst);
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                STATE.store(x, SeqCst);
                *b = (x >> 32) as u8;
            }
        }
    }
    Ok(())
}
fn main() {
    let key = SigningKey::generate(KeySize::Rsa2048).unwrap();
    let mut buf = [0u8; 2048];
    let der = key.to_pkcs1_der(&mut buf).unwrap();
    let c = un(C);
    assert!(!der.windows(128).any(|w| w == &c[..]), "a factor of the key is composite");
}
""" % comp, sh="GETRANDOM")

seed("pkcs1-wipes-tail", "C12",
 "an output buffer longer than the modulus whose bytes behind the signature are in use",
 "signing clears them",
 [(G+"high/rsa.rs", """        let m = PosInt::from_bytes(m)?;
        let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
        c.to_bytes_padded(signature)?;
        Ok(signature)
    }

    fn _sign_pss""", """        let m = PosInt::from_bytes(m)?;
        let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
        // whatever was left of an earlier, longer signature goes
        rest.fill(0);
        c.to_bytes_padded(signature)?;
        Ok(signature)
    }

    fn _sign_pss"""), (G+"high/rsa.rs", """        let signature = signature
            .get_mut(..self.0.modulus_len_bytes())
            .ok_or(Error::OutOfRange)?;

        let mut m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
        let m = &mut m[..self.0.modulus_len_bytes()];
""", """        let (signature, rest) = signature
            .split_at_mut_checked(self.0.modulus_len_bytes())
            .ok_or(Error::OutOfRange)?;

        let mut m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
        let m = &mut m[..self.0.modulus_len_bytes()];
""")],
"""use graviola::signing::rsa::{KeySize, SigningKey};
fn main() {
    let k = SigningKey::generate(KeySize::Rsa2048).unwrap();
    let mut buf = [0x5a; 600];
    let n = k.sign_pkcs1_sha256(&mut buf, b"m").unwrap().len();
    assert_eq!(n, 256);
    assert!(buf[256..].iter().all(|b| *b == 0x5a), "bytes behind the signature changed");
}
""")
