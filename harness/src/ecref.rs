//! A small, slow, independent model of the NIST curves over big integers, written
//! from SEC1 / FIPS 186 directly. It is the oracle for C05, C07, C08 and C09.
use num_bigint::BigUint;
use num_traits::{One, Zero};

pub type B = BigUint;

pub fn b(h: &str) -> B {
    B::parse_bytes(h.as_bytes(), 16).unwrap()
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Pt(pub Option<(B, B)>);

pub struct Curve {
    pub name: &'static str,
    pub p: B,
    pub n: B,
    pub bb: B,
    pub g: Pt,
    pub len: usize,
    tab: Vec<(B, B)>, // 2^i G, affine
}

fn jac_dbl(c: &Curve, a: &(B, B, B)) -> (B, B, B) {
    let p = &c.p;
    if a.2.is_zero() || a.1.is_zero() {
        return (B::one(), B::one(), B::zero());
    }
    let yy = &a.1 * &a.1 % p;
    let s = &a.0 * &yy * 4u32 % p;
    let zz = &a.2 * &a.2 % p;
    // a = -3
    let m = (&a.0 + p - &zz) * (&a.0 + &zz) * 3u32 % p;
    let x = (&m * &m + p + p - (&s * 2u32 % p)) % p;
    let y8 = (&yy * &yy) * 8u32 % p;
    let y = (&m * (&s + p - &x) + p - y8) % p;
    let z = &a.1 * &a.2 * 2u32 % p;
    (x, y, z)
}

/// mixed addition, complete
fn jac_add(c: &Curve, a: &(B, B, B), q: &(B, B)) -> (B, B, B) {
    let p = &c.p;
    if a.2.is_zero() {
        return (q.0.clone(), q.1.clone(), B::one());
    }
    let zz = &a.2 * &a.2 % p;
    let u2 = &q.0 * &zz % p;
    let s2 = &q.1 * &zz % p * &a.2 % p;
    let h = (u2 + p - &a.0) % p;
    let r = (s2 + p - &a.1) % p;
    if h.is_zero() {
        if r.is_zero() {
            return jac_dbl(c, a);
        }
        return (B::one(), B::one(), B::zero());
    }
    let hh = &h * &h % p;
    let hhh = &hh * &h % p;
    let v = &a.0 * &hh % p;
    let x = (&r * &r + p + p + p - &hhh - (&v * 2u32 % p)) % p;
    let y = (&r * (&v + p - &x) + p - (&a.1 * &hhh % p)) % p;
    let z = &a.2 * &h % p;
    (x, y, z)
}

impl Curve {
    fn make(name: &'static str, p: &str, n: &str, bb: &str, gx: &str, gy: &str, len: usize) -> Self {
        let mut c = Self { name, p: b(p), n: b(n), bb: b(bb), g: Pt(Some((b(gx), b(gy)))), len, tab: vec![] };
        let mut t = c.g.clone();
        let mut tab = vec![];
        for _ in 0..8 * len + 1 {
            tab.push(t.0.clone().unwrap());
            t = c.add(&t, &t);
        }
        c.tab = tab;
        c
    }
    pub fn p256() -> Self {
        Self::make(
            "P-256",
            "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
            "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
            "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
            "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
            "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5",
            32,
        )
    }
    pub fn p384() -> Self {
        Self::make(
            "P-384",
            "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff",
            "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
            "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
            "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
            "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f",
            48,
        )
    }
    pub fn inv(&self, x: &B, m: &B) -> B {
        x.modpow(&(m - 2u32), m)
    }
    fn affine(&self, j: &(B, B, B)) -> Pt {
        if j.2.is_zero() {
            return Pt(None);
        }
        let zi = self.inv(&j.2, &self.p);
        let zi2 = &zi * &zi % &self.p;
        Pt(Some((&j.0 * &zi2 % &self.p, &j.1 * &zi2 % &self.p * &zi % &self.p)))
    }
    pub fn add(&self, a: &Pt, q: &Pt) -> Pt {
        match (&a.0, &q.0) {
            (None, _) => q.clone(),
            (_, None) => a.clone(),
            (Some(a), Some(q)) => self.affine(&jac_add(self, &(a.0.clone(), a.1.clone(), B::one()), q)),
        }
    }
    pub fn neg(&self, a: &Pt) -> Pt {
        Pt(a.0.as_ref().map(|(x, y)| (x.clone(), (&self.p - y) % &self.p)))
    }
    pub fn mul(&self, k: &B, q: &Pt) -> Pt {
        let Some(q) = &q.0 else { return Pt(None) };
        let mut r = (B::one(), B::one(), B::zero());
        for i in (0..k.bits()).rev() {
            r = jac_dbl(self, &r);
            if k.bit(i) {
                r = jac_add(self, &r, q);
            }
        }
        self.affine(&r)
    }
    pub fn mul_g(&self, k: &B) -> Pt {
        let k = k % &self.n;
        let mut r = (B::one(), B::one(), B::zero());
        for i in 0..k.bits() {
            if k.bit(i) {
                r = jac_add(self, &r, &self.tab[i as usize]);
            }
        }
        self.affine(&r)
    }
    pub fn on_curve(&self, x: &B, y: &B) -> bool {
        if x >= &self.p || y >= &self.p {
            return false;
        }
        y * y % &self.p == self.rhs(x)
    }
    pub fn rhs(&self, x: &B) -> B {
        let p = &self.p;
        ((x * x % p) * x + (p * 3u32) - (x * 3u32) + &self.bb) % p
    }
    /// square root modulo p (p = 3 mod 4 for both)
    pub fn sqrt(&self, v: &B) -> Option<B> {
        let r = v.modpow(&((&self.p + 1u32) >> 2), &self.p);
        (&r * &r % &self.p == v % &self.p).then_some(r)
    }
    pub fn lift_x(&self, x: &B, odd: bool) -> Option<Pt> {
        if x >= &self.p {
            return None;
        }
        let y = self.sqrt(&self.rhs(x))?;
        let y = if y.bit(0) == odd { y } else { (&self.p - y) % &self.p };
        Some(Pt(Some((x.clone(), y))))
    }
    /// x coordinates with a given y: roots of x^3 - 3x + b - y^2
    pub fn lift_y(&self, y: &B) -> Vec<B> {
        let p = &self.p;
        let c0 = (&self.bb + p - (y * y % p)) % p;
        // f = x^3 - 3x + c0 ; x^p mod f
        let f = vec![c0, p - 3u32, B::zero(), B::one()];
        let mut acc = vec![B::one()];
        let xx = vec![B::zero(), B::one()];
        for i in (0..p.bits()).rev() {
            acc = self.pmod(&self.pmul(&acc, &acc), &f);
            if p.bit(i) {
                acc = self.pmod(&self.pmul(&acc, &xx), &f);
            }
        }
        // gcd(x^p - x, f)
        let mut d = acc.clone();
        d.resize(3, B::zero());
        d[1] = (&d[1] + p - 1u32) % p;
        let g = self.pgcd(&f, &d);
        let mut roots = vec![];
        self.roots(&g, &mut roots, 1);
        roots.retain(|x| self.on_curve(x, y));
        roots
    }
    fn roots(&self, g: &[B], out: &mut Vec<B>, seed: u32) {
        let p = &self.p;
        let g = trim(g.to_vec());
        match g.len() {
            0 | 1 => {}
            2 => {
                let i = self.inv(&g[1], p);
                out.push((p - &g[0]) * i % p);
            }
            _ => {
                if seed > 40 {
                    return;
                }
                // split with gcd((x+seed)^((p-1)/2) - 1, g)
                let e: BigUint = (p - 1u32) >> 1;
                let base = vec![B::from(seed), B::one()];
                let mut acc = vec![B::one()];
                for i in (0..e.bits()).rev() {
                    acc = self.pmod(&self.pmul(&acc, &acc), &g);
                    if e.bit(i) {
                        acc = self.pmod(&self.pmul(&acc, &base), &g);
                    }
                }
                if acc.is_empty() {
                    acc.push(B::zero());
                }
                acc[0] = (&acc[0] + p - 1u32) % p;
                let h = trim(self.pgcd(&g, &acc));
                if h.len() <= 1 || h.len() == g.len() {
                    return self.roots(&g, out, seed + 1);
                }
                let q = self.pdiv(&g, &h);
                self.roots(&h, out, seed + 1);
                self.roots(&q, out, seed + 1);
            }
        }
    }
    fn pmul(&self, a: &[B], c: &[B]) -> Vec<B> {
        if a.is_empty() || c.is_empty() {
            return vec![];
        }
        let mut r = vec![B::zero(); a.len() + c.len() - 1];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in c.iter().enumerate() {
                r[i + j] = (&r[i + j] + x * y) % &self.p;
            }
        }
        trim(r)
    }
    fn pdivmod(&self, a: &[B], f: &[B]) -> (Vec<B>, Vec<B>) {
        let p = &self.p;
        let f = trim(f.to_vec());
        let mut a = trim(a.to_vec());
        if a.len() < f.len() {
            return (vec![], a);
        }
        let li = self.inv(f.last().unwrap(), p);
        let mut q = vec![B::zero(); a.len() - f.len() + 1];
        while a.len() >= f.len() {
            let s = a.len() - f.len();
            let k = a.last().unwrap() * &li % p;
            for (i, x) in f.iter().enumerate() {
                a[s + i] = (&a[s + i] + p - (&k * x % p)) % p;
            }
            q[s] = k;
            a = trim(a);
            if a.is_empty() {
                break;
            }
        }
        (q, a)
    }
    fn pmod(&self, a: &[B], f: &[B]) -> Vec<B> {
        self.pdivmod(a, f).1
    }
    fn pdiv(&self, a: &[B], f: &[B]) -> Vec<B> {
        trim(self.pdivmod(a, f).0)
    }
    fn pgcd(&self, a: &[B], c: &[B]) -> Vec<B> {
        let (mut a, mut c) = (trim(a.to_vec()), trim(c.to_vec()));
        while !c.is_empty() {
            let r = self.pmod(&a, &c);
            a = c;
            c = r;
        }
        a
    }
    pub fn be(&self, x: &B) -> Vec<u8> {
        be(x, self.len)
    }
    pub fn enc(&self, q: &Pt) -> Vec<u8> {
        let (x, y) = q.0.as_ref().unwrap();
        let mut v = vec![4];
        v.extend(self.be(x));
        v.extend(self.be(y));
        v
    }
    /// the hash as the integer e (leftmost bits, not reduced)
    pub fn hash_int(&self, h: &[u8]) -> B {
        B::from_bytes_be(&h[..h.len().min(self.len)])
    }
    pub fn verify(&self, q: &Pt, h: &[u8], r: &B, s: &B) -> bool {
        if r.is_zero() || s.is_zero() || r >= &self.n || s >= &self.n {
            return false;
        }
        let e = self.hash_int(h) % &self.n;
        let w = self.inv(s, &self.n);
        let u1 = &e * &w % &self.n;
        let u2 = r * &w % &self.n;
        let x = self.add(&self.mul_g(&u1), &self.mul(&u2, q));
        match x.0 {
            None => false,
            Some((x, _)) => &(x % &self.n) == r,
        }
    }
}

fn trim(mut v: Vec<B>) -> Vec<B> {
    while v.last().is_some_and(|x| x.is_zero()) {
        v.pop();
    }
    v
}

pub fn be(x: &B, len: usize) -> Vec<u8> {
    let v = x.to_bytes_be();
    let v = if x.is_zero() { vec![] } else { v };
    assert!(v.len() <= len, "value does not fit");
    let mut o = vec![0; len - v.len()];
    o.extend(v);
    o
}

/// Interesting integers below m for an implementation working in 64-bit limbs and
/// windows of 4..7 bits.
pub fn edge_scalars(rng: &mut harness::Rng, m: &B, extra: usize) -> Vec<B> {
    let mut v: Vec<B> = vec![];
    let bits = m.bits();
    for i in 1u32..=140 {
        v.push(B::from(i));
        v.push(m - i);
    }
    for k in 0..bits {
        let x = B::one() << k;
        for y in [x.clone(), &x + 1u32, if k > 0 { &x - 1u32 } else { x.clone() }] {
            if &y < m {
                v.push(m - &y);
                v.push(y);
            }
        }
    }
    // one window of w bits set, or all windows equal to a digit
    for w in [4u64, 5, 6, 7] {
        for d in [1u32, (1 << (w - 1)) - 1, 1 << (w - 1), (1 << (w - 1)) + 1, (1 << w) - 1] {
            let mut all = B::zero();
            for i in 0..bits.div_ceil(w) {
                all |= B::from(d) << (i * w);
            }
            v.push(all % m);
            let i = rng.below((bits / w) as usize) as u64;
            v.push((B::from(d) << (i * w)) % m);
        }
    }
    // limb patterns
    for _ in 0..extra {
        let mut x = B::zero();
        for i in 0..bits.div_ceil(64) {
            let limb = *rng.pick(&[0u64, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 0xffffffff, 0xffffffff00000000]);
            x |= B::from(limb) << (64 * i);
        }
        v.push(x % m);
        // close to m at a random scale
        let k = rng.below(bits as usize - 1) as u64 + 1;
        let r = B::from_bytes_be(&rng.bytes(bits.div_ceil(8) as usize)) % (B::one() << k);
        if &r < m {
            v.push(m - &r);
            v.push(r);
        }
    }
    v.retain(|x| !x.is_zero() && x < m);
    v.sort();
    v.dedup();
    v
}

pub fn rand_below(rng: &mut harness::Rng, m: &B) -> B {
    let l = m.bits().div_ceil(8) as usize;
    loop {
        let x = B::from_bytes_be(&rng.bytes(l)) % m;
        if !x.is_zero() {
            return x;
        }
    }
}
