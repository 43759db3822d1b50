// Builds a PSS encoding that is wrong only inside its zero padding, signs it with the
// private exponent, and offers it for verification.
use graviola::hashing::{Hash, Sha256};
use graviola::signing::rsa::{KeySize, SigningKey};
use num_bigint::BigUint as B;
fn h(x: &[u8]) -> Vec<u8> {
    Sha256::hash(x).as_ref().to_vec()
}
fn ints(der: &[u8]) -> Vec<B> {
    let mut v = vec![];
    let mut p = 4; // 30 82 xx xx
    while p < der.len() {
        let (mut n, mut o) = (der[p + 1] as usize, 2);
        if n > 128 {
            let k = n - 128;
            n = der[p + 2..p + 2 + k].iter().fold(0, |a, b| a << 8 | *b as usize);
            o += k;
        }
        v.push(B::from_bytes_be(&der[p + o..p + o + n]));
        p += o + n;
    }
    v
}
fn main() {
    let k = SigningKey::generate(KeySize::Rsa2048).unwrap();
    let mut buf = [0u8; 4096];
    let v = ints(k.to_pkcs1_der(&mut buf).unwrap());
    let (n, d) = (&v[1], &v[3]);
    let salt = [9u8; 32];
    let hh = h(&[&[0u8; 8][..], &h(b"msg"), &salt].concat());
    for (bad, expect) in [(false, true), (true, false)] {
        let mut db = vec![0u8; 256 - 33];
        let l = db.len();
        db[l - 33] = 1;
        db[l - 32..].copy_from_slice(&salt);
        if bad {
            db[40] ^= 0x55;
            db[90] ^= 0x55;
        }
        for (i, c) in db.chunks_mut(32).enumerate() {
            for (a, b) in c.iter_mut().zip(h(&[&hh[..], &(i as u32).to_be_bytes()].concat())) {
                *a ^= b;
            }
        }
        db[0] &= 0x7f;
        let em = [&db[..], &hh, &[0xbc]].concat();
        let s = B::from_bytes_be(&em).modpow(d, n).to_bytes_be();
        let s = [vec![0; 256 - s.len()], s].concat();
        assert_eq!(k.public_key().verify_pss_sha256(&s, b"msg").is_ok(), expect, "bad padding: {bad}");
    }
}
