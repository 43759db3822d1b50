//! C16: key encodings round-trip, interoperate, and refuse inconsistent data.
use crate::Job;
use crate::der::{Rd, node_variants};
use crate::ecref::{B, be, edge_scalars};
use crate::nist::{K256, K384, Ka, der_int, der_tlv};
use crate::rsa::{self, Key};
use graviola::Error;
use graviola::signing::{ecdsa, eddsa, rsa as grsa};
use harness::*;
use num_traits::Zero;

pub const OID_EC: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
pub const OID_P256: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7];
pub const OID_P384: &[u8] = &[0x2b, 0x81, 4, 0, 0x22];
pub const OID_RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1];
/// id-ecDH, secp224r1, secp521r1, secp256k1, prime192v1, brainpoolP256r1, X25519, Ed448, SHA-256,
/// RSASSA-PSS, ecdsa-with-SHA256, prime-field, and neighbours of the two curves
const OTHER_OIDS: [&[u8]; 18] = [
    &[0x2b, 0x81, 4, 1, 12],
    &[0x2b, 0x81, 4, 0, 0x21],
    &[0x2b, 0x81, 4, 0, 0x23],
    &[0x2b, 0x81, 4, 0, 0x0a],
    &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 1],
    &[0x2b, 0x24, 3, 3, 2, 8, 1, 1, 7],
    &[0x2b, 0x65, 0x6e],
    &[0x2b, 0x65, 0x71],
    &[0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1],
    &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 10],
    &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2],
    &[0x2a, 0x86, 0x48, 0xce, 0x3d, 1, 1],
    &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 6],
    &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1],
    &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7, 0],
    &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 0x80, 7],
    &[0x2b, 0x81, 4, 0],
    &[0x2b, 0x81, 4, 0, 0x22, 1],
];
pub const OID_ED: &[u8] = &[0x2b, 0x65, 0x70];

pub fn oid(o: &[u8]) -> Vec<u8> {
    der_tlv(6, o)
}
pub fn seq(p: &[Vec<u8>]) -> Vec<u8> {
    der_tlv(0x30, &p.concat())
}
pub fn bitstr(b: &[u8]) -> Vec<u8> {
    der_tlv(3, &[&[0], b].concat())
}
pub fn int(n: u64) -> Vec<u8> {
    der_int(&B::from(n))
}

/// What the reference says of an encoding.
#[derive(Debug, Clone)]
pub enum V {
    Reject(&'static str),
    /// standard form: must be accepted, as this key
    Accept(Vec<u8>),
    /// legal latitude: may be refused, but if accepted must be this key
    Maybe(Vec<u8>),
}

trait Ec: Ka {
    fn oid() -> &'static [u8];
    fn other_oid() -> &'static [u8];
    fn rc_pub(d: &[u8]) -> Vec<u8>;
    fn rc_pkcs8(b: &[u8]) -> Option<Vec<u8>>;
    fn rc_sec1(b: &[u8]) -> Option<Vec<u8>>;
    fn rc_spki(b: &[u8]) -> Option<Vec<u8>>;
    fn rc_make(d: &[u8]) -> (Vec<u8>, Vec<u8>);
}
macro_rules! impl_ec {
    ($t:ident, $c:ident, $o:ident, $x:ident) => {
        impl Ec for $t {
            fn oid() -> &'static [u8] {
                $o
            }
            fn other_oid() -> &'static [u8] {
                $x
            }
            fn rc_pub(d: &[u8]) -> Vec<u8> {
                use $c::elliptic_curve::sec1::ToEncodedPoint;
                $c::SecretKey::from_slice(d).unwrap().public_key().to_encoded_point(false).as_bytes().to_vec()
            }
            fn rc_pkcs8(b: &[u8]) -> Option<Vec<u8>> {
                use pkcs8::DecodePrivateKey;
                $c::SecretKey::from_pkcs8_der(b).ok().map(|k| k.to_bytes().to_vec())
            }
            fn rc_sec1(b: &[u8]) -> Option<Vec<u8>> {
                $c::SecretKey::from_sec1_der(b).ok().map(|k| k.to_bytes().to_vec())
            }
            fn rc_spki(b: &[u8]) -> Option<Vec<u8>> {
                use $c::elliptic_curve::sec1::ToEncodedPoint;
                use spki::DecodePublicKey;
                $c::PublicKey::from_public_key_der(b).ok().map(|k| k.to_encoded_point(false).as_bytes().to_vec())
            }
            fn rc_make(d: &[u8]) -> (Vec<u8>, Vec<u8>) {
                use pkcs8::EncodePrivateKey;
                let k = $c::SecretKey::from_slice(d).unwrap();
                (k.to_pkcs8_der().unwrap().as_bytes().to_vec(), k.to_sec1_der().unwrap().to_vec())
            }
        }
    };
}
impl_ec!(K256, p256, OID_P256, OID_P384);
impl_ec!(K384, p384, OID_P384, OID_P256);

/// memo of public keys, so that mutated encodings of one key stay cheap
struct Pubs(std::collections::HashMap<Vec<u8>, Vec<u8>>);
impl Pubs {
    fn get<K: Ec>(&mut self, d: &B) -> Vec<u8> {
        let c = K::curve();
        let k = be(d, c.len);
        self.0.entry(k.clone()).or_insert_with(|| K::rc_pub(&k)).clone()
    }
}

fn ref_sec1<K: Ec>(b: &[u8], pubs: &mut Pubs) -> V {
    let c = K::curve();
    let mut maybe = false;
    let go = |maybe: &mut bool, pubs: &mut Pubs| -> Result<Vec<u8>, &'static str> {
        let m = "malformed";
        let mut r = Rd(b);
        let mut s = Rd(r.take(0x30).ok_or(m)?);
        r.end().ok_or("trailing data")?;
        if s.uint().ok_or(m)? != B::from(1u32) {
            return Err("version");
        }
        let d = s.take(4).ok_or(m)?;
        if s.peek() == Some(0xa0) {
            let mut p = Rd(s.take(0xa0).ok_or(m)?);
            if p.take(6).ok_or(m)? != K::oid() {
                return Err("curve");
            }
            p.end().ok_or("trailing data")?;
        }
        let mut pk = None;
        if s.peek() == Some(0xa1) {
            let mut p = Rd(s.take(0xa1).ok_or(m)?);
            pk = Some(Rd::bits(p.take(3).ok_or(m)?).ok_or(m)?);
            p.end().ok_or("trailing data")?;
        }
        s.end().ok_or("trailing data")?;
        let x = B::from_bytes_be(d);
        if x.is_zero() || x >= c.n {
            return Err("scalar range");
        }
        if d.len() != c.len {
            *maybe = true;
        }
        if let Some(pk) = pk {
            let want = pubs.get::<K>(&x);
            if pk != want {
                let comp = [&[2 + (want[want.len() - 1] & 1)], &want[1..1 + c.len]].concat();
                if pk == comp {
                    *maybe = true;
                } else {
                    return Err("public key mismatch");
                }
            }
        }
        Ok(be(&x, c.len))
    };
    match go(&mut maybe, pubs) {
        Err(e) => V::Reject(e),
        Ok(k) if maybe => V::Maybe(k),
        Ok(k) => V::Accept(k),
    }
}

struct P8<'a> {
    oid: &'a [u8],
    params: Option<&'a [u8]>,
    key: &'a [u8],
    public: Option<&'a [u8]>,
    maybe: bool,
}
fn ref_p8(b: &[u8]) -> Result<P8<'_>, &'static str> {
    let m = "malformed";
    let mut r = Rd(b);
    let mut s = Rd(r.take(0x30).ok_or(m)?);
    r.end().ok_or("trailing data")?;
    let v = s.uint().ok_or(m)?;
    let mut a = Rd(s.take(0x30).ok_or(m)?);
    let oid = a.take(6).ok_or(m)?;
    let params = if a.0.is_empty() {
        None
    } else {
        let whole = a.0;
        let (_, _, rest) = crate::der::tlv(a.0).ok_or(m)?;
        if !rest.is_empty() {
            return Err("trailing data");
        }
        Some(whole)
    };
    let key = s.take(4).ok_or(m)?;
    let mut maybe = false;
    if s.peek() == Some(0xa0) {
        s.take(0xa0).ok_or(m)?;
        maybe = true;
    }
    let mut public = None;
    if s.peek() == Some(0x81) {
        public = Some(Rd::bits(s.take(0x81).ok_or(m)?).ok_or(m)?);
    }
    s.end().ok_or("trailing data")?;
    if v == B::zero() {
        if public.is_some() {
            maybe = true;
        }
    } else if v == B::from(1u32) {
        if public.is_none() {
            maybe = true;
        }
    } else {
        return Err("version");
    }
    Ok(P8 { oid, params, key, public, maybe })
}

fn weaken(v: V, maybe: bool) -> V {
    match v {
        V::Accept(k) if maybe => V::Maybe(k),
        v => v,
    }
}

fn ref_ec_p8<K: Ec>(b: &[u8], pubs: &mut Pubs) -> V {
    let p = match ref_p8(b) {
        Ok(p) => p,
        Err(e) => return V::Reject(e),
    };
    if p.oid != OID_EC {
        return V::Reject("algorithm");
    }
    if p.params != Some(&oid(K::oid())[..]) {
        return V::Reject("curve");
    }
    let v = ref_sec1::<K>(p.key, pubs);
    if let (Some(pk), V::Accept(d) | V::Maybe(d)) = (p.public, &v) {
        let want = pubs.get::<K>(&B::from_bytes_be(d));
        let comp = [&[2 + (want[want.len() - 1] & 1)], &want[1..1 + K::curve().len]].concat();
        if pk == comp {
            return weaken(v, true);
        }
        if pk != want {
            return V::Reject("public key mismatch");
        }
    }
    weaken(v, p.maybe)
}

fn ref_ed_p8(b: &[u8]) -> V {
    let p = match ref_p8(b) {
        Ok(p) => p,
        Err(e) => return V::Reject(e),
    };
    if p.oid != OID_ED {
        return V::Reject("algorithm");
    }
    if p.params.is_some() {
        return V::Reject("parameters");
    }
    let mut r = Rd(p.key);
    let Some(seed) = r.take(4) else { return V::Reject("malformed") };
    if r.end().is_none() {
        return V::Reject("trailing data");
    }
    if seed.len() != 32 {
        return V::Reject("seed length");
    }
    if let Some(pk) = p.public {
        let k = ed25519_dalek::SigningKey::from_bytes(seed.try_into().unwrap());
        if pk != k.verifying_key().as_bytes() {
            return V::Reject("public key mismatch");
        }
    }
    weaken(V::Accept(seed.to_vec()), p.maybe)
}

fn ref_ed_spki(b: &[u8]) -> V {
    let go = || -> Result<Vec<u8>, &'static str> {
        let m = "malformed";
        let mut r = Rd(b);
        let mut s = Rd(r.take(0x30).ok_or(m)?);
        r.end().ok_or("trailing data")?;
        let mut a = Rd(s.take(0x30).ok_or(m)?);
        if a.take(6).ok_or(m)? != OID_ED {
            return Err("algorithm");
        }
        a.end().ok_or("parameters")?;
        let k = Rd::bits(s.take(3).ok_or(m)?).ok_or(m)?;
        s.end().ok_or("trailing data")?;
        if k.len() != 32 {
            return Err("key length");
        }
        Ok(k.to_vec())
    };
    match go() {
        Err(e) => V::Reject(e),
        Ok(k) => {
            // validity of the point is C07's business
            match curve25519_dalek::edwards::CompressedEdwardsY(k[..].try_into().unwrap()).decompress() {
                Some(p) if p.compress().0[..] == k[..] => V::Accept(k),
                Some(_) => V::Maybe(k),
                None => V::Reject("not a point"),
            }
        }
    }
}

/// integers of a PKCS#1 private key, canonical re-encoding
fn ref_pkcs1(b: &[u8]) -> V {
    let go = || -> Result<(Vec<B>, Vec<u8>), &'static str> {
        let m = "malformed";
        let mut r = Rd(b);
        let mut s = Rd(r.take(0x30).ok_or(m)?);
        r.end().ok_or("trailing data")?;
        if s.uint().ok_or(m)? != B::zero() {
            return Err("version");
        }
        let mut v = vec![];
        for _ in 0..8 {
            v.push(s.uint().ok_or(m)?);
        }
        s.end().ok_or("trailing data")?;
        Ok((v, b.to_vec()))
    };
    match go() {
        Err(e) => V::Reject(e),
        Ok((v, b)) => {
            let one = B::from(1u32);
            let [n, e, d, p, q, dp, dq, iq] = &v[..] else { unreachable!() };
            let good = p > &one
                && q > &one
                && n == &(p * q)
                && (e * d % (p - 1u32)) == one
                && (e * d % (q - 1u32)) == one
                && dp == &(d % (p - 1u32))
                && dq == &(d % (q - 1u32))
                && iq < p
                && (iq * q % p) == one
                && n.bits() >= 2048
                && n.bits() <= 8192
                && [p, q].iter().all(|x| (1024..=4096).contains(&x.bits()));
            if good { V::Accept(b) } else { V::Maybe(b) }
        }
    }
}

fn ref_rsa_p8(b: &[u8]) -> V {
    let p = match ref_p8(b) {
        Ok(p) => p,
        Err(e) => return V::Reject(e),
    };
    if p.oid != OID_RSA {
        return V::Reject("algorithm");
    }
    let mut maybe = p.maybe;
    match p.params {
        Some([5, 0]) => {}
        None => maybe = true,
        _ => return V::Reject("parameters"),
    }
    let v = ref_pkcs1(p.key);
    if let (Some(pk), V::Accept(b) | V::Maybe(b)) = (p.public, &v) {
        let mut s = Rd(Rd(b).take(0x30).unwrap());
        s.uint();
        let n = s.uint().unwrap();
        let e = s.uint().unwrap();
        if pk != seq(&[der_int(&n), der_int(&e)]) {
            return V::Reject("public key mismatch");
        }
    }
    weaken(v, maybe)
}

fn ref_rsa_pub(b: &[u8]) -> V {
    let go = || -> Option<(B, B)> {
        let mut r = Rd(b);
        let mut s = Rd(r.take(0x30)?);
        r.end()?;
        let n = s.uint()?;
        let e = s.uint()?;
        s.end()?;
        Some((n, e))
    };
    match go() {
        None => V::Reject("malformed"),
        Some((n, e)) => {
            let ok = n.bit(0) && n.bits() >= 2048 && n.bits() <= 8192 && e.bit(0) && e > B::from(2u32) && e.bits() <= 32;
            if ok { V::Accept(b.to_vec()) } else { V::Maybe(b.to_vec()) }
        }
    }
}

/// compare one import with the reference
fn judge(c: &mut Ctx, fmt: &str, got: Option<Result<Vec<u8>, String>>, want: V) {
    let Some(got) = got else { return };
    match (&got, &want) {
        (Err(_), V::Reject(_)) => c.observe(&format!("{fmt} refused as expected"), 1),
        (Err(_), V::Maybe(_)) => c.observe(&format!("{fmt} refused (latitude)"), 1),
        (Ok(k), V::Accept(w)) | (Ok(k), V::Maybe(w)) => {
            c.observe(&format!("{fmt} accepted"), 1);
            c.eq(&format!("{fmt}-wrong-key"), k, w);
        }
        (Err(e), V::Accept(_)) => c.fail(&format!("{fmt}-refused"), format!("standard encoding refused: {e}")),
        (Ok(k), V::Reject(why)) => c.fail(&format!("{fmt}-accepted"), format!("accepted although: {why} (as key {})", hexs(k))),
    }
}

fn st(e: Error) -> String {
    format!("{e:?}")
}

fn ec_key<K: Ec>(k: &ecdsa::SigningKey<K::Sig>) -> Result<Vec<u8>, String> {
    // the scalar, read back through the SEC1 export
    let mut b = [0u8; 300];
    let d = k.to_sec1_der(&mut b).map_err(|e| format!("export of imported key: {e:?}"))?;
    let mut s = Rd(Rd(d).take(0x30).ok_or("export malformed")?);
    s.uint().ok_or("export malformed")?;
    Ok(s.take(4).ok_or("export malformed")?.to_vec())
}

fn try_ec_p8<K: Ec>(c: &mut Ctx, pubs: &mut Pubs, b: &[u8]) {
    let got = c.call("ec-pkcs8", || ecdsa::SigningKey::<K::Sig>::from_pkcs8_der(b).map_err(st).and_then(|k| ec_key::<K>(&k)));
    let w = ref_ec_p8::<K>(b, pubs);
    judge(c, "ec-pkcs8", got, w);
}
fn try_sec1<K: Ec>(c: &mut Ctx, pubs: &mut Pubs, b: &[u8]) {
    let got = c.call("sec1", || ecdsa::SigningKey::<K::Sig>::from_sec1_der(b).map_err(st).and_then(|k| ec_key::<K>(&k)));
    let w = ref_sec1::<K>(b, pubs);
    judge(c, "sec1", got, w);
}
fn try_ed_p8(c: &mut Ctx, b: &[u8]) {
    let got = c.call("ed-pkcs8", || eddsa::Ed25519SigningKey::from_pkcs8_der(b).map_err(st).map(|k| k.as_seed().to_vec()));
    judge(c, "ed-pkcs8", got, ref_ed_p8(b));
}
fn try_ed_spki(c: &mut Ctx, b: &[u8]) {
    let got = c.call("ed-spki", || eddsa::Ed25519VerifyingKey::from_spki_der(b).map_err(st).map(|k| k.as_bytes().to_vec()));
    judge(c, "ed-spki", got, ref_ed_spki(b));
}
fn rsa_out(k: &grsa::SigningKey) -> Result<Vec<u8>, String> {
    let mut o = vec![0; 6000];
    k.to_pkcs1_der(&mut o).map(|x| x.to_vec()).map_err(|e| format!("export of imported key: {e:?}"))
}
fn try_rsa_p1(c: &mut Ctx, b: &[u8]) {
    let got = c.call("pkcs1", || grsa::SigningKey::from_pkcs1_der(b).map_err(st).and_then(|k| rsa_out(&k)));
    judge(c, "pkcs1", got, ref_pkcs1(b));
}
fn try_rsa_p8(c: &mut Ctx, b: &[u8]) {
    let got = c.call("rsa-pkcs8", || grsa::SigningKey::from_pkcs8_der(b).map_err(st).and_then(|k| rsa_out(&k)));
    judge(c, "rsa-pkcs8", got, ref_rsa_p8(b));
}
fn try_rsa_pub(c: &mut Ctx, b: &[u8]) {
    let got = c.call("rsa-public", || {
        grsa::VerifyingKey::from_pkcs1_der(b).map_err(st).and_then(|k| {
            let mut o = vec![0; 3000];
            k.to_pkcs1_der(&mut o).map(|x| x.to_vec()).map_err(|e| format!("export of imported key: {e:?}"))
        })
    });
    judge(c, "rsa-public", got, ref_rsa_pub(b));
}

/// every prefix, extension, single-byte change, deletion, insertion and node change
fn mutate(c: &mut Ctx, base: &[u8], stride: usize, name: &str, f: &mut dyn FnMut(&mut Ctx, &[u8])) {
    let mut r = c.rng(name);
    let mut go = |c: &mut Ctx, what: String, b: &[u8]| {
        c.case(name, format!("{what}: {}", hexs(b)));
        f(c, b);
    };
    go(c, "base".into(), base);
    for (w, b) in node_variants(base, &mut r) {
        if !c.more() {
            return;
        }
        go(c, w, &b);
    }
    for t in [vec![0u8], vec![0xff], vec![5, 0], vec![0x30, 0], vec![0; 100], base.to_vec()] {
        go(c, format!("trailing {}", hexs(&t)), &[base, &t].concat());
    }
    let n = base.len();
    let off = r.below(stride.max(1));
    for i in 0..n {
        if !c.more() {
            return;
        }
        // headers and edges always, the bulk by stride
        if i > 64 && i + 16 < n && i % stride.max(1) != off {
            continue;
        }
        go(c, format!("prefix {i}"), &base[..i]);
        let mut b = base.to_vec();
        for v in [base[i] ^ 1, base[i] ^ 0x80, base[i].wrapping_add(1), 0, 0xff, r.u64() as u8] {
            if v != base[i] {
                b[i] = v;
                go(c, format!("byte {i} = {v:02x}"), &b);
            }
        }
        let mut b = base.to_vec();
        b.remove(i);
        go(c, format!("without byte {i}"), &b);
        let mut b = base.to_vec();
        b.insert(i, *r.pick(&[0, 0xff, base[i], 0x30]));
        go(c, format!("byte inserted at {i}"), &b);
    }
}

/// all output sizes: refused when too small, otherwise the exact encoding as a prefix
fn sizes(c: &mut Ctx, name: &str, kind: Option<Error>, list: &[usize], full: &[u8], f: &mut dyn FnMut(&mut [u8]) -> Result<Vec<u8>, Error>) {
    for &n in list {
        c.case("buffer", format!("{name} buffer {n} encoding {} bytes", full.len()));
        let mut b = vec![0xa7u8; n];
        let Some(r) = c.call(name, || f(&mut b)) else { continue };
        match r {
            Ok(v) => {
                c.check(n >= full.len(), &format!("{name}-small-buffer"), || format!("success with {n} bytes"));
                c.eq(&format!("{name}-bytes"), &v, full);
                if n >= full.len() {
                    c.check(b[full.len()..].iter().all(|x| *x == 0xa7), &format!("{name}-beyond"), || "bytes after the encoding were changed".into());
                    c.check(b[..full.len()] == *full, &format!("{name}-place"), || "encoding is not at the start".into());
                }
            }
            Err(e) => {
                c.check(n < full.len(), &format!("{name}-refused"), || format!("{e:?} although {n} >= {}", full.len()));
                if let Some(k) = kind {
                    c.check(e == k, &format!("{name}-error"), || format!("{e:?} where the documentation promises {k:?}"));
                }
            }
        }
    }
}

fn size_list(r: &mut Rng, full: usize, every: bool) -> Vec<usize> {
    if every {
        return (0..full + 12).collect();
    }
    let mut v: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, full / 2, full - 3, full - 2, full - 1, full, full + 1, full + 7, full + 500];
    v.extend((0..6).map(|_| r.below(full)));
    v
}

fn ec_exports<K: Ec>(c: &mut Ctx) {
    let cv = K::curve();
    let mut r = c.rng("ec");
    let mut pubs = Pubs(Default::default());
    let extra = c.n(40, 600);
    let mut ds = edge_scalars(&mut r, &cv.n, extra);
    // scalars and public keys with leading zero bytes
    for sh in [1usize, 2, 8, 15, 16, 17, cv.len - 2, cv.len - 1] {
        ds.push(B::from_bytes_be(&r.bytes(cv.len)) >> (8 * sh) | B::from(1u32));
    }
    for (i, d) in ds.into_iter().enumerate() {
        if !c.more() {
            break;
        }
        if d.is_zero() || d >= cv.n || !c.mine(i) {
            continue;
        }
        let db = be(&d, cv.len);
        let pk = pubs.get::<K>(&d);
        if pk[1] == 0 || pk[1 + cv.len] == 0 {
            c.observe("public coordinate with a leading zero byte", 1);
        }
        c.case("ec-export", format!("curve {} d {}", cv.len * 8, hex(&db)));
        let Ok(sk) = K::signer(&db) else {
            c.fail("ec-key", "scalar refused".into());
            continue;
        };
        let mut buf = [0u8; 400];
        if let Some(Ok(p8)) = c.call("to_pkcs8", || sk.to_pkcs8_der(&mut buf).map(|x| x.to_vec())) {
            match ref_ec_p8::<K>(&p8, &mut pubs) {
                V::Accept(k) => {
                    c.eq("pkcs8-key", &k, &db);
                }
                v => c.fail("pkcs8-export", format!("not a canonical PKCS#8: {v:?} {}", hex(&p8))),
            }
            c.check(K::rc_pkcs8(&p8) == Some(db.clone()), "pkcs8-interop", || format!("RustCrypto reads {:?} from {}", K::rc_pkcs8(&p8).map(|x| hex(&x)), hex(&p8)));
            try_ec_p8::<K>(c, &mut pubs, &p8);
            let l = size_list(&mut r, p8.len(), false);
            sizes(c, "ec-to-pkcs8", Some(Error::WrongLength), &l, &p8, &mut |o| sk.to_pkcs8_der(o).map(|x| x.to_vec()));
        } else {
            c.fail("pkcs8-export", "failed".into());
        }
        if let Some(Ok(s1)) = c.call("to_sec1", || sk.to_sec1_der(&mut buf).map(|x| x.to_vec())) {
            match ref_sec1::<K>(&s1, &mut pubs) {
                V::Accept(k) => {
                    c.eq("sec1-key", &k, &db);
                }
                v => c.fail("sec1-export", format!("not a canonical ECPrivateKey: {v:?} {}", hex(&s1))),
            }
            c.check(K::rc_sec1(&s1) == Some(db.clone()), "sec1-interop", || format!("RustCrypto reads {:?} from {}", K::rc_sec1(&s1).map(|x| hex(&x)), hex(&s1)));
            try_sec1::<K>(c, &mut pubs, &s1);
            let l = size_list(&mut r, s1.len(), false);
            sizes(c, "ec-to-sec1", Some(Error::WrongLength), &l, &s1, &mut |o| sk.to_sec1_der(o).map(|x| x.to_vec()));
        } else {
            c.fail("sec1-export", "failed".into());
        }
        let want = seq(&[seq(&[oid(OID_EC), oid(K::oid())]), bitstr(&pk)]);
        match c.call("to_spki", || sk.to_spki_der(&mut buf).map(|x| x.to_vec())) {
            Some(Ok(s)) => {
                c.eq("spki-export", &s, &want);
                c.check(K::rc_spki(&s).as_ref() == Some(&pk), "spki-interop", || "RustCrypto reads another key".into());
                let l = size_list(&mut r, s.len(), false);
                sizes(c, "ec-to-spki", Some(Error::WrongLength), &l, &s, &mut |o| sk.to_spki_der(o).map(|x| x.to_vec()));
            }
            _ => c.fail("spki-export", "failed".into()),
        }
        // forms other software writes
        let (a, b) = K::rc_make(&db);
        c.case("ec-import", format!("RustCrypto forms d {}", hex(&db)));
        try_ec_p8::<K>(c, &mut pubs, &a);
        try_sec1::<K>(c, &mut pubs, &b);
        for (params, public) in [(false, false), (true, false), (false, true), (true, true)] {
            let mut parts = vec![int(1), der_tlv(4, &db)];
            if params {
                parts.push(der_tlv(0xa0, &oid(K::oid())));
            }
            if public {
                parts.push(der_tlv(0xa1, &bitstr(&pk)));
            }
            let s1 = seq(&parts);
            c.case("ec-import", format!("params {params} public {public} d {}", hex(&db)));
            try_sec1::<K>(c, &mut pubs, &s1);
            let p8 = seq(&[int(0), seq(&[oid(OID_EC), oid(K::oid())]), der_tlv(4, &s1)]);
            try_ec_p8::<K>(c, &mut pubs, &p8);
            let p8 = seq(&[int(1), seq(&[oid(OID_EC), oid(K::oid())]), der_tlv(4, &s1), der_tlv(0x81, &[&[0], &pk[..]].concat())]);
            c.case("ec-import", format!("v2 params {params} public {public} d {}", hex(&db)));
            try_ec_p8::<K>(c, &mut pubs, &p8);
        }
    }
}

fn ec_refuse<K: Ec>(c: &mut Ctx) {
    let cv = K::curve();
    let mut r = c.rng("ecr");
    let mut pubs = Pubs(Default::default());
    for _ in 0..c.n(1, 6) {
        let d = crate::ecref::rand_below(&mut r, &(&cv.n - 1u32)) + 1u32;
        let db = be(&d, cv.len);
        let pk = pubs.get::<K>(&d);
        let alg = seq(&[oid(OID_EC), oid(K::oid())]);
        let s1 = |params: Option<&[u8]>, public: Option<&[u8]>, ver: u64| {
            let mut parts = vec![int(ver), der_tlv(4, &db)];
            if let Some(p) = params {
                parts.push(der_tlv(0xa0, &oid(p)));
            }
            if let Some(p) = public {
                parts.push(der_tlv(0xa1, &bitstr(p)));
            }
            seq(&parts)
        };
        let p8 = |ver: u64, alg: &[u8], key: &[u8], public: Option<&[u8]>| {
            let mut parts = vec![int(ver), alg.to_vec(), der_tlv(4, key)];
            if let Some(p) = public {
                parts.push(der_tlv(0x81, &[&[0], p].concat()));
            }
            seq(&parts)
        };
        // embedded public keys that are not this key's
        let mut wrong: Vec<(String, Vec<u8>)> = vec![];
        let other = cv.enc(&cv.mul_g(&(&d + 1u32)));
        let neg = cv.enc(&cv.neg(&cv.mul_g(&d)));
        wrong.push(("another key's".into(), other));
        wrong.push(("negated".into(), neg));
        wrong.push(("empty".into(), vec![]));
        wrong.push(("infinity".into(), vec![0]));
        wrong.push(("short".into(), pk[..pk.len() - 1].to_vec()));
        wrong.push(("x only".into(), pk[..1 + cv.len].to_vec()));
        wrong.push(("long".into(), [&pk[..], &[0]].concat()));
        wrong.push(("hybrid".into(), [&[6 + (pk[pk.len() - 1] & 1)], &pk[1..]].concat()));
        wrong.push(("compressed other".into(), [&[3 - (pk[pk.len() - 1] & 1)], &pk[1..1 + cv.len]].concat()));
        for i in 0..pk.len() {
            let mut b = pk.clone();
            b[i] ^= 1 << r.below(8);
            wrong.push((format!("bit flip in byte {i}"), b));
        }
        for (w, b) in &wrong {
            if !c.more() {
                return;
            }
            c.case("ec-mismatch", format!("sec1 {w} d {}", hex(&db)));
            try_sec1::<K>(c, &mut pubs, &s1(None, Some(b), 1));
            try_sec1::<K>(c, &mut pubs, &s1(Some(K::oid()), Some(b), 1));
            c.case("ec-mismatch", format!("pkcs8 inner {w} d {}", hex(&db)));
            try_ec_p8::<K>(c, &mut pubs, &p8(0, &alg, &s1(None, Some(b), 1), None));
            c.case("ec-mismatch", format!("pkcs8 outer {w} d {}", hex(&db)));
            try_ec_p8::<K>(c, &mut pubs, &p8(1, &alg, &s1(None, None, 1), Some(b)));
            try_ec_p8::<K>(c, &mut pubs, &p8(1, &alg, &s1(None, Some(&pk), 1), Some(b)));
            try_ec_p8::<K>(c, &mut pubs, &p8(1, &alg, &s1(None, Some(b), 1), Some(&pk)));
        }
        // identifiers and versions
        let good = s1(Some(K::oid()), Some(&pk), 1);
        for o in [OID_RSA, OID_ED, K::oid(), K::other_oid(), OID_EC, &OID_EC[..6], &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 2], &[]].into_iter().chain(OTHER_OIDS.iter().copied()) {
            c.case("ec-identifier", format!("algorithm {} d {}", hex(o), hex(&db)));
            try_ec_p8::<K>(c, &mut pubs, &p8(0, &seq(&[oid(o), oid(K::oid())]), &good, None));
            c.case("ec-identifier", format!("curve {} d {}", hex(o), hex(&db)));
            try_ec_p8::<K>(c, &mut pubs, &p8(0, &seq(&[oid(OID_EC), oid(o)]), &good, None));
            c.case("ec-identifier", format!("inner curve {} d {}", hex(o), hex(&db)));
            try_ec_p8::<K>(c, &mut pubs, &p8(0, &alg, &s1(Some(o), Some(&pk), 1), None));
            try_sec1::<K>(c, &mut pubs, &s1(Some(o), Some(&pk), 1));
            try_sec1::<K>(c, &mut pubs, &s1(Some(o), None, 1));
        }
        for params in [vec![], vec![5, 0], vec![4, 0], int(1), seq(&[oid(K::oid())]), bitstr(&[1])] {
            c.case("ec-identifier", format!("parameters {} d {}", hex(&params), hex(&db)));
            try_ec_p8::<K>(c, &mut pubs, &p8(0, &seq(&[oid(OID_EC), params.clone()]), &good, None));
            try_ec_p8::<K>(c, &mut pubs, &p8(0, &seq(&[oid(OID_EC), oid(K::oid()), params]), &good, None));
        }
        for v in [0u64, 1, 2, 3, 127, 128, 255, 256, 65536, 1 << 32, u64::MAX] {
            c.case("ec-version", format!("{v} d {}", hex(&db)));
            try_sec1::<K>(c, &mut pubs, &s1(None, Some(&pk), v));
            try_ec_p8::<K>(c, &mut pubs, &p8(v, &alg, &good, None));
            try_ec_p8::<K>(c, &mut pubs, &p8(v, &alg, &good, Some(&pk)));
            try_ec_p8::<K>(c, &mut pubs, &p8(0, &alg, &s1(None, Some(&pk), v), None));
        }
        // scalars out of range, odd lengths
        for (x, l) in [
            (B::zero(), cv.len),
            (cv.n.clone(), cv.len),
            (&cv.n + 1u32, cv.len),
            (&cv.n + &d, cv.len + 1),
            ((B::from(1u32) << (8 * cv.len)) - 1u32, cv.len),
            (B::from(1u32) << (8 * cv.len), cv.len + 1),
            (d.clone(), cv.len + 1),
            (d.clone(), cv.len + 9),
            (B::from(5u32), 1),
            (B::zero(), 1),
            (B::zero(), 0),
        ] {
            let k = be(&x, l.max(1))[..].to_vec();
            let k = if l == 0 { vec![] } else { k };
            c.case("ec-scalar", format!("{} in {l} bytes", x));
            let s = seq(&[int(1), der_tlv(4, &k)]);
            try_sec1::<K>(c, &mut pubs, &s);
            try_ec_p8::<K>(c, &mut pubs, &p8(0, &alg, &s, None));
        }
        // mutations
        let bases = [
            p8(0, &alg, &s1(None, Some(&pk), 1), None),
            p8(1, &alg, &s1(Some(K::oid()), Some(&pk), 1), Some(&pk)),
            p8(0, &alg, &s1(None, None, 1), None),
        ];
        for b in &bases {
            mutate(c, b, 1, "ec-pkcs8-mutation", &mut |c, b| try_ec_p8::<K>(c, &mut pubs, b));
        }
        for b in [s1(Some(K::oid()), Some(&pk), 1), s1(None, None, 1)] {
            mutate(c, &b, 1, "sec1-mutation", &mut |c, b| try_sec1::<K>(c, &mut pubs, b));
        }
    }
}

fn ed(c: &mut Ctx) {
    let mut r = c.rng("ed");
    for i in 0..c.n(80, 2000) {
        if !c.more() {
            break;
        }
        let seed: [u8; 32] = if i % 3 == 0 { r.biased(32).try_into().unwrap() } else { r.arr() };
        c.case("ed-export", format!("seed {}", hex(&seed)));
        let dk = ed25519_dalek::SigningKey::from_bytes(&seed);
        let pk = dk.verifying_key().to_bytes();
        let Ok(sk) = eddsa::Ed25519SigningKey::from_bytes(&seed) else {
            c.fail("ed-key", "seed refused".into());
            continue;
        };
        c.eq("ed-seed", &sk.as_seed(), &seed);
        let mut buf = [0u8; 200];
        match c.call("ed-to-pkcs8", || sk.to_pkcs8_der(&mut buf).map(|x| x.to_vec())) {
            Some(Ok(p8)) => {
                let want = seq(&[int(1), seq(&[oid(OID_ED)]), der_tlv(4, &der_tlv(4, &seed)), der_tlv(0x81, &[&[0], &pk[..]].concat())]);
                c.eq("ed-pkcs8-export", &p8, &want);
                use pkcs8::DecodePrivateKey;
                let k = ed25519_dalek::SigningKey::from_pkcs8_der(&p8);
                c.check(k.is_ok_and(|k| k.to_bytes() == seed), "ed-pkcs8-interop", || "dalek disagrees".into());
                try_ed_p8(c, &p8);
                let l = size_list(&mut r, p8.len(), i < 3);
                sizes(c, "ed-to-pkcs8", Some(Error::WrongLength), &l, &p8, &mut |o| sk.to_pkcs8_der(o).map(|x| x.to_vec()));
            }
            x => c.fail("ed-pkcs8-export", format!("{x:?}")),
        }
        let vk = sk.public_key();
        c.eq("ed-public", &vk.as_bytes(), &pk);
        match c.call("ed-to-spki", || vk.to_spki_der(&mut buf).map(|x| x.to_vec())) {
            Some(Ok(s)) => {
                c.eq("ed-spki-export", &s, &seq(&[seq(&[oid(OID_ED)]), bitstr(&pk)]));
                try_ed_spki(c, &s);
                let l = size_list(&mut r, s.len(), i < 3);
                sizes(c, "ed-to-spki", Some(Error::WrongLength), &l, &s, &mut |o| vk.to_spki_der(o).map(|x| x.to_vec()));
            }
            x => c.fail("ed-spki-export", format!("{x:?}")),
        }
        c.case("ed-import", format!("v1 seed {}", hex(&seed)));
        try_ed_p8(c, &seq(&[int(0), seq(&[oid(OID_ED)]), der_tlv(4, &der_tlv(4, &seed))]));
        // a public key that belongs to another seed
        let mut w = pk;
        w[r.below(32)] ^= 1 << r.below(8);
        c.case("ed-mismatch", format!("seed {} public {}", hex(&seed), hex(&w)));
        try_ed_p8(c, &seq(&[int(1), seq(&[oid(OID_ED)]), der_tlv(4, &der_tlv(4, &seed)), der_tlv(0x81, &[&[0], &w[..]].concat())]));
        for n in [0usize, 1, 16, 31, 33, 64] {
            let s = r.bytes(n);
            c.case("ed-length", format!("seed of {n} bytes"));
            try_ed_p8(c, &seq(&[int(0), seq(&[oid(OID_ED)]), der_tlv(4, &der_tlv(4, &s))]));
            let pkn: Vec<u8> = pk.iter().copied().cycle().take(n).collect();
            try_ed_p8(c, &seq(&[int(1), seq(&[oid(OID_ED)]), der_tlv(4, &der_tlv(4, &seed)), der_tlv(0x81, &[&[0], &pkn[..]].concat())]));
            try_ed_spki(c, &seq(&[seq(&[oid(OID_ED)]), bitstr(&pkn)]));
            c.check(eddsa::Ed25519SigningKey::from_bytes(&s).is_err() && eddsa::Ed25519VerifyingKey::from_bytes(&pkn).is_err(), "ed-length-accepted", || format!("{n} bytes accepted"));
        }
        if i < c.n(2, 20) {
            for params in [vec![5u8, 0], oid(OID_P256), vec![4, 0], oid(OID_ED), int(0)] {
                c.case("ed-parameters", hex(&params));
                try_ed_spki(c, &seq(&[seq(&[oid(OID_ED), params.clone()]), bitstr(&pk)]));
                try_ed_p8(c, &seq(&[int(0), seq(&[oid(OID_ED), params.clone()]), der_tlv(4, &der_tlv(4, &seed))]));
            }
            for o in [OID_RSA, OID_EC, &[0x2b, 0x65, 0x71], &[0x2b, 0x65, 0x6e], &[0x2b, 0x65], &[]] {
                c.case("ed-algorithm", hex(o));
                try_ed_spki(c, &seq(&[seq(&[oid(o)]), bitstr(&pk)]));
                try_ed_p8(c, &seq(&[int(0), seq(&[oid(o)]), der_tlv(4, &der_tlv(4, &seed))]));
            }
            let p8 = seq(&[int(1), seq(&[oid(OID_ED)]), der_tlv(4, &der_tlv(4, &seed)), der_tlv(0x81, &[&[0], &pk[..]].concat())]);
            mutate(c, &p8, 1, "ed-pkcs8-mutation", &mut |c, b| try_ed_p8(c, b));
            let p8 = seq(&[int(0), seq(&[oid(OID_ED)]), der_tlv(4, &der_tlv(4, &seed))]);
            mutate(c, &p8, 1, "ed-pkcs8-mutation", &mut |c, b| try_ed_p8(c, b));
            let s = seq(&[seq(&[oid(OID_ED)]), bitstr(&pk)]);
            mutate(c, &s, 1, "ed-spki-mutation", &mut |c, b| try_ed_spki(c, b));
        }
    }
}

fn odd_e_keys() -> Vec<Key> {
    use num_integer::Integer as _;
    let ks = rsa::keys();
    let mut out = vec![];
    for k in ks.iter().filter(|k| k.bits <= 2560).take(6) {
        for e in [3u64, 17, 127, 129, 255, 257, 0x7fff, 0x8001, 0xffff, 0x10001, 0x7f_ffff, 0x80_0001, 0xff_fffd, 0x7fff_ffff, 0x8000_0001, 0x8000_0003, 0xffff_fffb, 0xffff_ffff] {
            let e = B::from(e);
            if e.gcd(&(&k.p - 1u32)) == B::from(1u32) && e.gcd(&(&k.q - 1u32)) == B::from(1u32) {
                out.push(Key::new(&format!("{} e {e:x}", k.name), k.p.clone(), k.q.clone(), e));
            }
        }
    }
    out
}

fn rsa_exports(c: &mut Ctx) {
    let mut r = c.rng("rsa");
    let mut ks: Vec<(Key, bool)> = rsa::keys().into_iter().map(|k| (k, true)).collect();
    ks.extend(odd_e_keys().into_iter().map(|k| (k, false)));
    for (i, (k, _)) in ks.iter().enumerate() {
        if !c.mine(i) || !c.more() {
            continue;
        }
        let der = k.priv_der();
        c.case("rsa-export", format!("key {} {}", k.name, hexs(&der)));
        let sk = match c.call("rsa-import", || grsa::SigningKey::from_pkcs1_der(&der)) {
            Some(Ok(s)) => s,
            // a prime of more than half the largest modulus: not promised
            Some(Err(_)) if k.p.bits() > 4096 || k.q.bits() > 4096 => continue,
            x => {
                c.fail("rsa-import", format!("genuine key refused: {:?}", x.map(|y| y.err())));
                continue;
            }
        };
        let mut buf = vec![0; 6000];
        match c.call("rsa-to-pkcs1", || sk.to_pkcs1_der(&mut buf).map(|x| x.to_vec())) {
            Some(Ok(b)) => {
                c.eq("rsa-pkcs1-export", &b, &der);
                let l = size_list(&mut r, b.len(), false);
                sizes(c, "rsa-to-pkcs1", None, &l, &b, &mut |o| sk.to_pkcs1_der(o).map(|x| x.to_vec()));
            }
            x => c.fail("rsa-pkcs1-export", format!("{x:?}")),
        }
        let p8 = seq(&[int(0), seq(&[oid(OID_RSA), vec![5, 0]]), der_tlv(4, &der)]);
        match c.call("rsa-to-pkcs8", || sk.to_pkcs8_der(&mut buf).map(|x| x.to_vec())) {
            Some(Ok(b)) => {
                c.eq("rsa-pkcs8-export", &b, &p8);
                try_rsa_p8(c, &b);
                let l = size_list(&mut r, b.len(), false);
                sizes(c, "rsa-to-pkcs8", None, &l, &b, &mut |o| sk.to_pkcs8_der(o).map(|x| x.to_vec()));
            }
            x => c.fail("rsa-pkcs8-export", format!("{x:?}")),
        }
        let vk = sk.public_key();
        let pd = k.pub_der();
        match c.call("rsa-pub", || vk.to_pkcs1_der(&mut buf).map(|x| x.to_vec())) {
            Some(Ok(b)) => {
                c.eq("rsa-public-export", &b, &pd);
                try_rsa_pub(c, &b);
                let l = size_list(&mut r, b.len(), false);
                sizes(c, "rsa-pub-to-pkcs1", None, &l, &b, &mut |o| vk.to_pkcs1_der(o).map(|x| x.to_vec()));
            }
            x => c.fail("rsa-public-export", format!("{x:?}")),
        }
        match c.call("rsa-spki", || vk.to_spki_der(&mut buf).map(|x| x.to_vec())) {
            Some(Ok(b)) => {
                c.eq("rsa-spki-export", &b, &seq(&[seq(&[oid(OID_RSA), vec![5, 0]]), bitstr(&pd)]));
                let l = size_list(&mut r, b.len(), false);
                sizes(c, "rsa-to-spki", None, &l, &b, &mut |o| vk.to_spki_der(o).map(|x| x.to_vec()));
            }
            x => c.fail("rsa-spki-export", format!("{x:?}")),
        }
        // the re-imported key signs like the original, as seen by the reference
        let sk2 = grsa::SigningKey::from_pkcs8_der(&p8);
        c.case("rsa-reimport", format!("key {}", k.name));
        match sk2 {
            Ok(s2) => {
                let (mut a, mut b) = (vec![0; 1100], vec![0; 1100]);
                let x = c.call("sign", || sk.sign_pkcs1_sha256(&mut a, b"m").map(|x| x.to_vec()));
                let y = c.call("sign", || s2.sign_pkcs1_sha256(&mut b, b"m").map(|x| x.to_vec()));
                c.check(matches!((&x, &y), (Some(Ok(x)), Some(Ok(y))) if x == y), "rsa-reimport", || format!("{x:?} {y:?}"));
            }
            Err(e) => c.fail("rsa-reimport", format!("{e:?}")),
        }
    }
}

fn rsa_refuse(c: &mut Ctx) {
    let ks = rsa::keys();
    let mut r = c.rng("rr");
    let sel: Vec<&Key> = ks.iter().filter(|k| k.bits <= 3072).collect();
    let picks = c.n(1, 6);
    for i in 0..picks {
        let k = sel[(c.shard + i * c.nshards) % sel.len()];
        let der = k.priv_der();
        let alg = seq(&[oid(OID_RSA), vec![5, 0]]);
        let p8 = seq(&[int(0), alg.clone(), der_tlv(4, &der)]);
        let st = c.n(29, 3);
        mutate(c, &der, st, "pkcs1-mutation", &mut |c, b| try_rsa_p1(c, b));
        mutate(c, &p8, st, "rsa-pkcs8-mutation", &mut |c, b| try_rsa_p8(c, b));
        let pd = k.pub_der();
        mutate(c, &pd, st, "rsa-public-mutation", &mut |c, b| try_rsa_pub(c, b));
        // PKCS#8 v2 with right and wrong public keys
        let v2 = |p: &[u8]| seq(&[int(1), alg.clone(), der_tlv(4, &der), der_tlv(0x81, &[&[0], p].concat())]);
        c.case("rsa-v2", format!("right public key {}", k.name));
        try_rsa_p8(c, &v2(&pd));
        let other = ks.iter().find(|o| o.n != k.n && o.bits == k.bits).map(|o| o.pub_der()).unwrap_or_default();
        for (w, p) in [("other key", other), ("empty", vec![]), ("flipped", { let mut x = pd.clone(); let i = 10 + r.below(200); x[i] ^= 4; x }), ("other exponent", seq(&[der_int(&k.n), int(3)])), ("truncated", pd[..pd.len() - 1].to_vec())] {
            c.case("rsa-mismatch", format!("{w} {}", k.name));
            try_rsa_p8(c, &v2(&p));
        }
        // missing sign octets: negative INTEGERs
        let parts = [&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.iqmp];
        for j in 0..8 {
            let mut body = int(0);
            for (t, x) in parts.iter().enumerate() {
                let mut b = x.to_bytes_be();
                if t == j {
                    if b[0] & 0x80 == 0 {
                        b[0] |= 0x80; // a different, negative, value
                    }
                    body.extend(der_tlv(2, &b));
                } else {
                    body.extend(der_int(x));
                }
            }
            c.case("rsa-negative", format!("component {j} of {}", k.name));
            let d = der_tlv(0x30, &body);
            try_rsa_p1(c, &d);
            try_rsa_p8(c, &seq(&[int(0), alg.clone(), der_tlv(4, &d)]));
        }
        for v in [1u64, 2, 128, 255, 1 << 16] {
            let mut body = int(v);
            for x in parts {
                body.extend(der_int(x));
            }
            c.case("rsa-version", format!("{v} {}", k.name));
            try_rsa_p1(c, &der_tlv(0x30, &body));
            try_rsa_p8(c, &seq(&[int(v), alg.clone(), der_tlv(4, &der)]));
        }
        for o in [OID_EC, OID_ED, &OID_RSA[..8], &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 10], &[]] {
            c.case("rsa-algorithm", format!("{} {}", hex(o), k.name));
            try_rsa_p8(c, &seq(&[int(0), seq(&[oid(o), vec![5, 0]]), der_tlv(4, &der)]));
        }
        for p in [oid(OID_P256), vec![4, 0], int(1), vec![5, 1, 0]] {
            c.case("rsa-parameters", format!("{} {}", hex(&p), k.name));
            try_rsa_p8(c, &seq(&[int(0), seq(&[oid(OID_RSA), p]), der_tlv(4, &der)]));
        }
    }
}

pub fn jobs_c16(_t: bool) -> Vec<Job> {
    vec![
        ("ec256", "native", 2),
        ("ec384", "native", 6),
        ("ecr256", "native", 1),
        ("ecr384", "native", 1),
        ("ed", "native", 1),
        ("rsa", "native", 3),
        ("rsar", "native", 3),
    ]
}

pub fn run_c16(c: &mut Ctx) {
    match c.section.as_str() {
        "ec256" => ec_exports::<K256>(c),
        "ec384" => ec_exports::<K384>(c),
        "ecr256" => ec_refuse::<K256>(c),
        "ecr384" => ec_refuse::<K384>(c),
        "ed" => ed(c),
        "rsa" => rsa_exports(c),
        "rsar" => rsa_refuse(c),
        s => panic!("section {s}"),
    }
}
