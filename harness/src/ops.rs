//! Every public operation of the library as a deterministic function of a seed, with
//! the memory it works on supplied by the caller. Used by the monitors that watch
//! what is common to all operations: memory, processor features, threads, secrets.
use crate::aead::{ALGS, Alg};
use crate::hash::H;
use crate::nist::{K256, K384, Ka};
use crate::rsa;
use graviola::hashing as gh;
use graviola::hashing::Hash as _;
use graviola::key_agreement as ka;
use graviola::signing::{ecdsa, eddsa};
use harness::mem::Guarded;
use harness::rngctl::{self, Mode};
use harness::*;
use std::ops::{Deref, DerefMut};
use std::sync::OnceLock;

/// Where the operands of an operation are put.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    /// ordinary heap allocations of exactly the right size
    Heap,
    /// each ends at an inaccessible page
    Tail,
    /// each starts after an inaccessible page
    Head,
    /// in the middle of a canary-filled region, at this offset from alignment
    Mid(usize),
}

enum Store {
    Heap(Box<[u8]>),
    G(Guarded),
}

struct Live {
    store: Store,
    at: usize,
    len: usize,
    /// expected content, for inputs
    input: Option<Vec<u8>>,
    what: &'static str,
}

pub struct Mem {
    place: Place,
    pool: Vec<Guarded>,
    live: Vec<Live>,
    pub desc: String,
    pub problems: Vec<String>,
    pub canary_bytes: u64,
    pub buffers: u64,
}

const CANARY: u8 = 0xa5;

impl Mem {
    pub fn new() -> Self {
        Self { place: Place::Heap, pool: vec![], live: vec![], desc: String::new(), problems: vec![], canary_bytes: 0, buffers: 0 }
    }
    pub fn begin(&mut self, place: Place) {
        self.place = place;
        self.desc.clear();
        self.problems.clear();
        assert!(self.live.is_empty());
    }
    pub fn say(&mut self, s: String) {
        if self.desc.len() < 600 {
            self.desc.push_str(&s);
            self.desc.push(' ');
        }
    }

    fn alloc(&mut self, len: usize, align: usize, what: &'static str) -> *mut u8 {
        self.buffers += 1;
        if self.place == Place::Heap {
            // exact-size allocation: AddressSanitizer and memcheck see both ends
            let mut b: Box<[u8]> = if align <= 8 {
                vec![0u8; len].into_boxed_slice()
            } else {
                vec![0u8; len + align].into_boxed_slice()
            };
            let p = b.as_mut_ptr();
            let pad = if align <= 8 { 0 } else { (align - p as usize % align) % align };
            // a heap block of no bytes is still a valid empty slice
            self.live.push(Live { store: Store::Heap(b), at: pad, len, input: None, what });
            return p.wrapping_add(pad);
        }
        let i = match self.pool.iter().position(|g| g.capacity() >= len + 192 && g.capacity() <= 4 * (len + 4096)) {
            Some(i) => i,
            None => {
                self.pool.push(Guarded::new(len + 192));
                self.pool.len() - 1
            }
        };
        let g = self.pool.swap_remove(i);
        let cap = g.capacity();
        let at = match self.place {
            Place::Tail => (cap - len) / align * align,
            Place::Head => 0,
            Place::Mid(o) => 64 + o / align * align,
            Place::Heap => unreachable!(),
        };
        g.all().fill(CANARY);
        let p = g.all().as_mut_ptr();
        self.live.push(Live { store: Store::G(g), at, len, input: None, what });
        p.wrapping_add(at)
    }

    /// an operand the operation may only read
    pub fn inp(&mut self, b: &[u8]) -> &'static [u8] {
        let p = self.alloc(b.len(), 1, "input");
        // SAFETY: the region lives until `end`, which runs after the operation returned
        let s = unsafe { std::slice::from_raw_parts_mut(p, b.len()) };
        s.copy_from_slice(b);
        self.live.last_mut().unwrap().input = Some(b.to_vec());
        s
    }
    /// an operand the operation may read and write
    pub fn buf(&mut self, b: &[u8]) -> &'static mut [u8] {
        let p = self.alloc(b.len(), 1, "buffer");
        // SAFETY: as above; each region is handed out once
        let s = unsafe { std::slice::from_raw_parts_mut(p, b.len()) };
        s.copy_from_slice(b);
        s
    }
    pub fn out(&mut self, n: usize) -> &'static mut [u8] {
        self.buf(&vec![0x3c; n])
    }
    pub fn arr<const N: usize>(&mut self, b: &[u8]) -> &'static [u8; N] {
        self.inp(b).try_into().unwrap()
    }
    /// move a library object to placed memory
    pub fn obj<T>(&mut self, v: T) -> Obj<T> {
        let (n, a) = (std::mem::size_of::<T>(), std::mem::align_of::<T>());
        let p = self.alloc(n, a, "object").cast::<T>();
        // SAFETY: big enough, aligned, uninitialised as far as T is concerned
        unsafe { p.write(v) };
        Obj(p)
    }

    /// The operation is over: look at what it did to memory.
    pub fn end(&mut self) {
        for l in std::mem::take(&mut self.live) {
            match l.store {
                Store::Heap(b) => {
                    if let Some(w) = &l.input {
                        if b[l.at..l.at + l.len] != w[..] {
                            self.problems.push(format!("an input of {} bytes was modified", l.len));
                        }
                    }
                }
                Store::G(g) => {
                    let a = g.all();
                    self.canary_bytes += (a.len() - l.len) as u64;
                    if let Some(w) = &l.input {
                        if a[l.at..l.at + l.len] != w[..] {
                            self.problems.push(format!("an input of {} bytes was modified", l.len));
                        }
                    }
                    if let Some(i) = a[..l.at].iter().rposition(|b| *b != CANARY) {
                        self.problems.push(format!("write {} bytes before a {} of {} bytes", l.at - i, l.what, l.len));
                    }
                    if let Some(i) = a[l.at + l.len..].iter().position(|b| *b != CANARY) {
                        self.problems.push(format!("write {} bytes past the end of a {} of {} bytes", i + 1, l.what, l.len));
                    }
                    if self.pool.len() < 64 {
                        self.pool.push(g);
                    }
                }
            }
        }
    }
}

/// A library object living in placed memory; dropped in place.
pub struct Obj<T>(*mut T);
impl<T> Obj<T> {
    pub fn take(self) -> T {
        let p = self.0;
        std::mem::forget(self);
        // SAFETY: written once, taken once
        unsafe { p.read() }
    }
}
impl<T> Deref for Obj<T> {
    type Target = T;
    fn deref(&self) -> &T {
        // SAFETY: written in Mem::obj
        unsafe { &*self.0 }
    }
}
impl<T> DerefMut for Obj<T> {
    fn deref_mut(&mut self) -> &mut T {
        // SAFETY: written in Mem::obj
        unsafe { &mut *self.0 }
    }
}
impl<T> Drop for Obj<T> {
    fn drop(&mut self) {
        // SAFETY: written in Mem::obj, not yet taken
        unsafe { std::ptr::drop_in_place(self.0) }
    }
}

pub struct Op {
    pub name: &'static str,
    /// rough relative cost: 1 = microseconds, 100 = milliseconds
    pub cost: usize,
    pub run: fn(&mut Mem, &mut Rng) -> Vec<u8>,
}

/// output of a fallible writer: what it returned, and that it left the rest alone
fn written(m: &mut Mem, d: &mut Vec<u8>, out: *const u8, cap: usize, before: u8, r: Result<(usize, *const u8), String>) {
    // SAFETY: `out` is a live placed buffer of cap bytes
    let all = unsafe { std::slice::from_raw_parts(out, cap) };
    match r {
        Ok((n, p)) => {
            if p != out || n > cap {
                m.problems.push("the returned slice is not a prefix of the output buffer".into());
                return;
            }
            d.extend((n as u32).to_le_bytes());
            d.extend(&all[..n]);
            if all[n..].iter().any(|b| *b != before) {
                m.problems.push(format!("output buffer of {cap} bytes modified past the {n} bytes returned"));
            }
        }
        Err(e) => {
            d.extend(e.as_bytes());
        }
    }
}

macro_rules! w {
    ($m:expr, $d:expr, $n:expr, |$o:ident| $call:expr) => {{
        let $o = $m.out($n);
        let (p, cap) = ($o.as_ptr(), $o.len());
        let r = $call.map(|s| (s.len(), s.as_ptr())).map_err(|e| format!("{e:?}"));
        written($m, $d, p, cap, 0x3c, r);
    }};
}

fn len(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => r.below(20),
        1 => 16 * r.below(40),
        2 => *r.pick(&[0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]),
        3 => r.below(2200),
        4 => 256 * r.below(12) + r.below(20),
        _ => r.below(600),
    }
}

fn aead(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    let mut d = vec![];
    let alg = *r.pick(&ALGS);
    let key = r.bytes(alg.key_len());
    let pl = if r.below(40) == 0 { r.range(15000, 17000) } else { len(r) };
    let al = if r.below(3) == 0 { 0 } else { len(r) };
    m.say(format!("{} pt={pl} aad={al}", alg.name()));
    let kp = m.inp(&key);
    let k: KeyObj = match alg {
        Alg::Gcm128 | Alg::Gcm256 => KeyObj::G(m.obj(graviola::aead::AesGcm::new(kp))),
        Alg::ChaCha => KeyObj::C(m.obj(graviola::aead::ChaCha20Poly1305::new(kp.try_into().unwrap()))),
        Alg::XChaCha => KeyObj::X(m.obj(graviola::aead::XChaCha20Poly1305::new(kp.try_into().unwrap()))),
    };
    let nonce = r.bytes(alg.nonce_len());
    let n = m.inp(&nonce);
    let aad_v = r.bytes(al);
    let aad = m.inp(&aad_v);
    let pt = r.bytes(pl);
    let b = m.buf(&pt);
    let t = m.buf(&[7; 16]);
    k.enc(n, aad, b, t.try_into().unwrap());
    d.extend(b.iter());
    d.extend(t.iter());
    // accept
    let tag = t.to_vec();
    let ct = b.to_vec();
    let t2 = m.inp(&tag);
    let b2 = m.buf(&ct);
    d.push(k.dec(n, aad, b2, t2) as u8);
    d.extend(b2.iter());
    // refuse: bad tag, or a tag of another length
    let mut bad = tag.clone();
    if r.bool() {
        bad[r.below(16)] ^= 1 << r.below(8);
    } else {
        bad.resize(r.below(40), 9);
        if bad == tag {
            bad[0] ^= 1;
        }
    }
    let t3 = m.inp(&bad);
    let b3 = m.buf(&ct);
    d.push(k.dec(n, aad, b3, t3) as u8);
    d.extend(b3.iter());
    d
}

enum KeyObj {
    G(Obj<graviola::aead::AesGcm>),
    C(Obj<graviola::aead::ChaCha20Poly1305>),
    X(Obj<graviola::aead::XChaCha20Poly1305>),
}
impl KeyObj {
    fn enc(&self, n: &[u8], aad: &[u8], b: &mut [u8], t: &mut [u8; 16]) {
        match self {
            KeyObj::G(k) => k.encrypt(n.try_into().unwrap(), aad, b, t),
            KeyObj::C(k) => k.encrypt(n.try_into().unwrap(), aad, b, t),
            KeyObj::X(k) => k.encrypt(n.try_into().unwrap(), aad, b, t),
        }
    }
    fn dec(&self, n: &[u8], aad: &[u8], b: &mut [u8], t: &[u8]) -> bool {
        match self {
            KeyObj::G(k) => k.decrypt(n.try_into().unwrap(), aad, b, t).is_ok(),
            KeyObj::C(k) => k.decrypt(n.try_into().unwrap(), aad, b, t).is_ok(),
            KeyObj::X(k) => k.decrypt(n.try_into().unwrap(), aad, b, t).is_ok(),
        }
    }
}

fn pieces(m: &mut Mem, r: &mut Rng, block: usize) -> Vec<&'static [u8]> {
    let n = 1 + r.below(5);
    let mut v = vec![];
    for _ in 0..n {
        let l = match r.below(4) {
            0 => r.below(2 * block + 2),
            1 => block * r.below(5),
            2 => (block * (1 + r.below(3))).saturating_sub(r.below(20)),
            _ => len(r),
        };
        let x = r.bytes(l);
        m.say(format!("{l}"));
        v.push(m.inp(&x));
    }
    v
}

fn sha2(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    let mut d = vec![];
    macro_rules! go {
        ($c:ident, $t:ident, $b:expr) => {{
            m.say(stringify!($t).into());
            let ps = pieces(m, r, $b);
            let mut c = m.obj(gh::sha2::$c::new());
            for (i, p) in ps.iter().enumerate() {
                c.update(p);
                if i == 1 {
                    let e = m.obj(c.clone());
                    d.extend(e.take().finish());
                }
            }
            d.extend(c.take().finish());
            let mut t = m.obj(<gh::$t as gh::Hash>::new());
            for p in &ps {
                gh::HashContext::update(&mut *t, p);
            }
            d.extend(gh::HashContext::finish(t.take()).as_ref());
            d.extend(gh::$t::hash(ps[0]).as_ref());
        }};
    }
    match r.below(3) {
        0 => go!(Sha256Context, Sha256, 64),
        1 => go!(Sha384Context, Sha384, 128),
        _ => go!(Sha512Context, Sha512, 128),
    }
    d
}

fn sha3(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    use gh::sha3 as s;
    let mut d = vec![];
    let which = r.below(4);
    m.say(format!("sha3 variant {which}"));
    let ps = pieces(m, r, [136, 72, 168, 136][which]);
    macro_rules! ctx {
        ($t:ident) => {{
            let mut c = m.obj(s::$t::new());
            for p in &ps {
                c.update(p);
            }
            d.extend(c.take().finish());
        }};
    }
    macro_rules! xof {
        ($t:ident) => {{
            let mut x = m.obj(s::$t::new(&ps));
            for _ in 0..3 {
                let o = m.out(r.below(400));
                x.read(o);
                d.extend(o.iter());
            }
        }};
    }
    match which {
        0 => ctx!(Sha3_256Context),
        1 => ctx!(Sha3_512Context),
        2 => xof!(Shake128),
        _ => xof!(Shake256),
    }
    d
}

fn hmac(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    let mut d = vec![];
    macro_rules! go {
        ($t:ident) => {{
            m.say(concat!("hmac ", stringify!($t)).into());
            let kl = *r.pick(&[0, 1, 16, 32, 63, 64, 65, 127, 128, 129, 200]);
            let kv = r.bytes(kl);
            let k = m.inp(&kv);
            let ps = pieces(m, r, 128);
            let mut c = m.obj(gh::hmac::Hmac::<gh::$t>::new(k));
            for p in &ps {
                c.update(p);
            }
            let e = m.obj(c.clone());
            let tag = e.take().finish();
            d.extend(tag.as_ref());
            let mut t = tag.as_ref().to_vec();
            let l = r.below(t.len() + 3);
            if r.bool() {
                t.resize(l, 1);
            }
            let t = m.inp(&t);
            d.push(c.take().verify(t).is_ok() as u8);
        }};
    }
    match r.below(3) {
        0 => go!(Sha256),
        1 => go!(Sha384),
        _ => go!(Sha512),
    }
    d
}

fn scalar<K: Ka>(r: &mut Rng) -> Vec<u8> {
    // any value with a clear top bit is in range for both orders
    let n = if K::curve().name.contains("256") { 32 } else { 48 };
    loop {
        let mut b = if r.below(6) == 0 { r.biased(n) } else { r.bytes(n) };
        b[0] &= 0x7f;
        if b.iter().any(|x| *x != 0) {
            return b;
        }
    }
}

fn ecdh<K: Ka>(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    let mut d = vec![];
    let s = scalar::<K>(r);
    let t = scalar::<K>(r);
    m.say(K::curve().name.to_string());
    let sp = m.inp(&s);
    let a = K::st_from(sp).map(|x| m.obj(x));
    let tp = m.inp(&t);
    let b = K::st_from(tp).map(|x| m.obj(x));
    let (Ok(a), Ok(b)) = (a, b) else { return vec![0] };
    let pa = K::st_pub(&a);
    let pb = K::st_pub(&b);
    d.extend(&pa);
    d.extend(&pb);
    let pb = m.inp(&pb);
    let q = K::pub_from(pb).map(|x| m.obj(x));
    let Ok(q) = q else { return vec![1] };
    d.extend(K::st_dh(&a, &q).unwrap_or_default());
    d.extend(K::pub_bytes(&q));
    d.extend(K::st_bytes(&a));
    rngctl::reset(r.u64(), Mode::Stream);
    if let Ok(e) = K::eph_new() {
        let e = m.obj(e);
        d.extend(K::eph_pub(&e));
        d.extend(K::eph_dh(e.take(), &q).unwrap_or_default());
    }
    if let Ok(e) = K::st_new() {
        let e = m.obj(e);
        d.extend(K::st_bytes(&e));
    }
    // hostile encodings
    let mut bad = pa.clone();
    match r.below(4) {
        0 => bad.truncate(r.below(pa.len())),
        1 => bad.extend(r.bytes(3)),
        2 => {
            let i = 1 + r.below(bad.len() - 1);
            bad[i] ^= 1 << r.below(8);
        }
        _ => bad[0] = r.u64() as u8,
    }
    let bad = m.inp(&bad);
    d.push(K::pub_from(bad).is_ok() as u8);
    let l = r.below(60);
    let bs = r.bytes(l);
    let bs = m.inp(&bs);
    d.push(K::st_from(bs).is_ok() as u8);
    d
}

fn hash3(r: &mut Rng) -> H {
    *r.pick(&[H::S256, H::S384, H::S512])
}

fn ecdsa_op<K: Ka>(m: &mut Mem, r: &mut Rng) -> Vec<u8>
where
    ecdsa::SigningKey<K::Sig>: Sized,
{
    let mut d = vec![];
    let s = scalar::<K>(r);
    let h = hash3(r);
    m.say(format!("{} {}", K::curve().name, h.name()));
    let sp = m.inp(&s);
    let Ok(sk) = K::signer(sp) else { return vec![0] };
    let sk = m.obj(sk);
    let ps = pieces(m, r, 64);
    rngctl::reset(r.u64(), Mode::Stream);
    let der = r.bool();
    let cap = *r.pick(&[0, 63, 64, 70, 72, 95, 96, 104, 110, 128, 200]);
    m.say(format!("out={cap} der={der}"));
    let mut sig = vec![];
    macro_rules! sign {
        ($t:ident) => {
            if der {
                w!(m, &mut d, cap, |o| sk.sign_asn1::<gh::$t>(&ps, o));
            } else {
                w!(m, &mut d, cap, |o| sk.sign::<gh::$t>(&ps, o));
            }
        };
    }
    match h {
        H::S256 => sign!(Sha256),
        H::S384 => sign!(Sha384),
        _ => sign!(Sha512),
    }
    if d.len() > 40 {
        sig = d[4..].to_vec();
    }
    let pb = K::st_pub(&sk_private::<K>(&s));
    let pb = m.inp(&pb);
    let Ok(vk) = ecdsa::VerifyingKey::<K::Sig>::from_x962_uncompressed(pb) else { return vec![2] };
    let vk = m.obj(vk);
    for round in 0..2 {
        if round == 1 {
            if sig.is_empty() {
                sig = r.bytes(70);
            }
            match r.below(3) {
                0 => {
                    let i = r.below(sig.len());
                    sig[i] ^= 1 << r.below(8);
                }
                1 => sig.truncate(r.below(sig.len())),
                _ => {
                    let l = r.below(150);
                    sig = r.biased(l)
                }
            }
        }
        let sb = m.inp(&sig);
        macro_rules! ver {
            ($t:ident) => {
                if der { vk.verify_asn1::<gh::$t>(&ps, sb).is_ok() } else { vk.verify::<gh::$t>(&ps, sb).is_ok() }
            };
        }
        d.push(match h {
            H::S256 => ver!(Sha256),
            H::S384 => ver!(Sha384),
            _ => ver!(Sha512),
        } as u8);
    }
    let cap = *r.pick(&[0, 40, 100, 138, 185, 200, 300]);
    match r.below(3) {
        0 => w!(m, &mut d, cap, |o| sk.to_pkcs8_der(o)),
        1 => w!(m, &mut d, cap, |o| sk.to_sec1_der(o)),
        _ => w!(m, &mut d, cap, |o| sk.to_spki_der(o)),
    }
    let mut big = [0; 400];
    if let Ok(x) = sk.to_pkcs8_der(&mut big) {
        let mut x = x.to_vec();
        mutate(&mut x, r);
        let x = m.inp(&x);
        d.push(ecdsa::SigningKey::<K::Sig>::from_pkcs8_der(x).map(|k| m.obj(k)).is_ok() as u8);
    }
    if let Ok(x) = sk.to_sec1_der(&mut big) {
        let mut x = x.to_vec();
        mutate(&mut x, r);
        let x = m.inp(&x);
        d.push(ecdsa::SigningKey::<K::Sig>::from_sec1_der(x).map(|k| m.obj(k)).is_ok() as u8);
    }
    d
}

fn sk_private<K: Ka>(s: &[u8]) -> K::Static {
    K::st_from(s).unwrap_or_else(|_| panic!("scalar"))
}

/// none, or a hostile edit
fn mutate(x: &mut Vec<u8>, r: &mut Rng) {
    if x.is_empty() {
        return;
    }
    match r.below(6) {
        0 => {
            let i = r.below(x.len());
            x[i] ^= 1 << r.below(8);
        }
        1 => x.truncate(r.below(x.len())),
        2 => {
            let i = r.below(x.len().min(40));
            x[i] = *r.pick(&[0, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xff, 0x30]);
        }
        3 => x.extend([0, 0]),
        _ => {}
    }
}

fn ed25519(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    let mut d = vec![];
    let seed = r.bytes(32);
    let sp = m.inp(&seed);
    let Ok(sk) = eddsa::Ed25519SigningKey::from_bytes(sp) else { return vec![0] };
    let sk = m.obj(sk);
    let l = len(r);
    m.say(format!("msg={l}"));
    let msg = r.bytes(l);
    let msg = m.inp(&msg);
    let sig = sk.sign(msg);
    d.extend(sig);
    let vk = m.obj(sk.public_key());
    d.extend(vk.as_bytes());
    d.extend(sk.as_seed());
    let s = m.inp(&sig);
    d.push(vk.verify(s, msg).is_ok() as u8);
    let mut bad = sig.to_vec();
    match r.below(3) {
        0 => bad[r.below(64)] ^= 1 << r.below(8),
        1 => bad.truncate(r.below(64)),
        _ => bad = r.biased(64),
    }
    let s = m.inp(&bad);
    d.push(vk.verify(s, msg).is_ok() as u8);
    let cap = *r.pick(&[0, 30, 43, 44, 48, 83, 85, 100]);
    w!(m, &mut d, cap, |o| vk.to_spki_der(o));
    w!(m, &mut d, cap, |o| sk.to_pkcs8_der(o));
    let mut big = [0; 100];
    if let Ok(x) = sk.to_pkcs8_der(&mut big) {
        let mut x = x.to_vec();
        mutate(&mut x, r);
        let x = m.inp(&x);
        d.push(eddsa::Ed25519SigningKey::from_pkcs8_der(x).map(|k| m.obj(k)).is_ok() as u8);
    }
    if let Ok(x) = vk.to_spki_der(&mut big) {
        let mut x = x.to_vec();
        mutate(&mut x, r);
        let x = m.inp(&x);
        d.push(eddsa::Ed25519VerifyingKey::from_spki_der(x).map(|k| m.obj(k)).is_ok() as u8);
    }
    let pkl = if r.bool() { 32 } else { r.below(40) };
    let pk = r.biased(pkl);
    let pk = m.inp(&pk);
    d.push(eddsa::Ed25519VerifyingKey::from_bytes(pk).is_ok() as u8);
    rngctl::reset(r.u64(), Mode::Stream);
    if let Ok(g) = eddsa::Ed25519SigningKey::generate() {
        let g = m.obj(g);
        d.extend(g.sign(b"x"));
    }
    d
}

fn x25519(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    use ka::x25519::*;
    let mut d = vec![];
    let s = r.bytes(32);
    let u = r.biased(32);
    let sk = StaticPrivateKey::from_array(m.arr(&s));
    let sk = m.obj(sk);
    let pk = PublicKey::from_array(m.arr(&u));
    let pk = m.obj(pk);
    d.extend(sk.public_key().as_bytes());
    d.extend(sk.diffie_hellman(&pk).map(|x| x.0.to_vec()).unwrap_or(vec![9]));
    let l = if r.bool() { 32 } else { r.below(50) };
    let b = r.bytes(l);
    let b = m.inp(&b);
    d.push(PublicKey::try_from_slice(b).is_ok() as u8);
    d.push(StaticPrivateKey::try_from_slice(b).is_ok() as u8);
    rngctl::reset(r.u64(), Mode::Stream);
    if let Ok(e) = PrivateKey::new_random() {
        let e = m.obj(e);
        d.extend(e.public_key().as_bytes());
        let p2 = sk.public_key();
        d.extend(e.take().diffie_hellman(&p2).map(|x| x.0.to_vec()).unwrap_or(vec![9]));
    }
    d
}

pub fn rsa_keys() -> &'static [rsa::Key] {
    static K: OnceLock<Vec<rsa::Key>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v: Vec<rsa::Key> = rsa::keys().into_iter().filter(|k| k.bits >= 2048 && k.p.bits() <= 4096 && k.q.bits() <= 4096).collect();
        v.sort_by_key(|k| k.bits);
        v
    })
}

fn rsa_key(r: &mut Rng, max: usize) -> &'static rsa::Key {
    let ks = rsa_keys();
    let n = ks.iter().filter(|k| k.bits <= max).count();
    &ks[r.below(n)]
}

fn rsa_sign(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    let mut d = vec![];
    let max = if r.below(6) == 0 { 4096 } else { 2304 };
    let k = rsa_key(r, max);
    let pss = r.bool();
    let h = hash3(r);
    m.say(format!("rsa {} pss={pss} {}", k.bits, h.name()));
    let der = k.priv_der();
    let der = m.inp(&der);
    let Ok(sk) = graviola::signing::rsa::SigningKey::from_pkcs1_der(der) else { return vec![0] };
    let sk = m.obj(sk);
    let l = len(r);
    let msg = r.bytes(l);
    let msg = m.inp(&msg);
    rngctl::reset(r.u64(), Mode::Stream);
    let cap = match r.below(5) {
        0 => r.below(k.k),
        1 => k.k + r.below(100),
        _ => k.k,
    };
    w!(m, &mut d, cap, |o| rsa::sign(&sk, pss, h, o, msg));
    d.extend((sk.modulus_len_bytes() as u32).to_le_bytes());
    let vk = m.obj(sk.public_key());
    if cap >= k.k && d.len() > k.k {
        let s = m.inp(&d[4..4 + k.k].to_vec());
        d.push(rsa::verify(&vk, pss, h, s, msg).is_ok() as u8);
    }
    d
}

fn rsa_verify(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    let mut d = vec![];
    let k = rsa_key(r, 8192);
    let h = hash3(r);
    let pss = r.bool();
    m.say(format!("rsa verify {} pss={pss} {}", k.bits, h.name()));
    let der = k.pub_der();
    let der = m.inp(&der);
    let Ok(vk) = graviola::signing::rsa::VerifyingKey::from_pkcs1_der(der) else { return vec![0] };
    let vk = m.obj(vk);
    let l = len(r);
    let msg = r.bytes(l);
    let msg = m.inp(&msg);
    let sl = match r.below(4) {
        0 => r.below(k.k + 20),
        _ => k.k,
    };
    let sig = r.biased(sl);
    let sig = m.inp(&sig);
    d.push(rsa::verify(&vk, pss, h, sig, msg).is_ok() as u8);
    // an encoded message of the wrong content, through the public operation's inverse
    if k.bits <= 2304 {
        let em = rsa::pkcs1_em(k.k, &rsa::digest_info(h), &rsa::dig(h, msg));
        let s = k.raw(&num_bigint::BigUint::from_bytes_be(&em));
        let mut sb = s.to_bytes_be();
        while sb.len() < k.k {
            sb.insert(0, 0);
        }
        let sb = m.inp(&sb);
        d.push(rsa::verify(&vk, false, h, sb, msg).is_ok() as u8);
    }
    let cap = r.below(2 * k.k + 60);
    w!(m, &mut d, cap, |o| vk.to_spki_der(o));
    w!(m, &mut d, cap, |o| vk.to_pkcs1_der(o));
    d
}

fn rsa_codec(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    let mut d = vec![];
    let max = if r.below(5) == 0 { 8192 } else { 3072 };
    let k = rsa_key(r, max);
    m.say(format!("rsa codec {}", k.bits));
    let Ok(sk) = graviola::signing::rsa::SigningKey::from_pkcs1_der(&k.priv_der()) else { return vec![0] };
    let mut der = vec![0; k.k * 5 + 200];
    let n = match r.below(2) {
        0 => sk.to_pkcs1_der(&mut der).map(|x| x.len()).unwrap_or(0),
        _ => sk.to_pkcs8_der(&mut der).map(|x| x.len()).unwrap_or(0),
    };
    let cap = if r.below(3) > 0 { n + r.below(9) } else { r.below(n + 1) };
    w!(m, &mut d, cap, |o| sk.to_pkcs1_der(o));
    w!(m, &mut d, cap, |o| sk.to_pkcs8_der(o));
    der.truncate(n);
    mutate(&mut der, r);
    let der = m.inp(&der);
    d.push(graviola::signing::rsa::SigningKey::from_pkcs1_der(der).map(|k| m.obj(k)).is_ok() as u8);
    d.push(graviola::signing::rsa::SigningKey::from_pkcs8_der(der).map(|k| m.obj(k)).is_ok() as u8);
    d
}

pub fn rsa_gen(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    rngctl::reset(r.u64(), Mode::Stream);
    let Ok(sk) = graviola::signing::rsa::SigningKey::generate(graviola::signing::rsa::KeySize::Rsa2048) else { return vec![0] };
    let sk = m.obj(sk);
    let mut d = vec![];
    w!(m, &mut d, 2000, |o| sk.to_pkcs1_der(o));
    d
}

fn mlkem(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    use ka::mlkem768::*;
    let mut d = vec![];
    let seed: [u8; 64] = r.arr();
    let dk = DecapKey::keygen_internal(m.arr(&seed));
    let dk = m.obj(dk);
    d.extend(dk.as_bytes());
    let ek = m.obj(dk.encapsulation_key());
    let eb = ek.as_bytes();
    d.extend(eb);
    let mut e2 = eb;
    if r.below(3) == 0 {
        let i = r.below(1184);
        e2[i] = *r.pick(&[0, 0xff, 0x0d, 0x80]);
    }
    let ek2 = EncapKey::from_bytes(m.arr(&e2));
    d.push(ek2.is_ok() as u8);
    if let Ok(ek2) = ek2 {
        let ek2 = m.obj(ek2);
        let msg: [u8; 32] = r.arr();
        let (ss, ct) = ek2.take().encaps_internal(Message(msg));
        d.extend(ss.as_ref());
        d.extend(ct.as_ref());
        let mut c = *ct.as_ref();
        if r.bool() {
            let i = r.below(1088);
            c[i] ^= 1 << r.below(8);
        }
        let c = m.obj(Ciphertext::from(c));
        d.extend(dk.take().decaps(&c).as_ref());
    }
    rngctl::reset(r.u64(), Mode::Stream);
    if let Ok(k) = DecapKey::generate() {
        let k = m.obj(k);
        d.extend(k.as_bytes());
        if let Ok((ss, ct)) = k.encapsulation_key().encaps() {
            d.extend(ss.as_ref());
            let ct = m.obj(ct);
            d.extend(k.take().decaps(&ct).as_ref());
        }
    }
    d
}

fn random(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    rngctl::reset(r.u64(), Mode::Stream);
    let l = len(r);
    m.say(format!("random {l}"));
    let o = m.out(l);
    let ok = graviola::random::fill(o).is_ok();
    let mut d = o.to_vec();
    d.push(ok as u8);
    d
}

fn ct(m: &mut Mem, r: &mut Rng) -> Vec<u8> {
    // constant-time comparison of digests of any length
    let l = r.below(300);
    let msg = r.bytes(l);
    let mut d = vec![];
    let h = gh::Sha384::hash(m.inp(&msg));
    let mut o = h.as_ref().to_vec();
    match r.below(3) {
        0 => {}
        1 => o.truncate(r.below(48)),
        _ => o[r.below(48)] ^= 1 << r.below(8),
    }
    let o = m.inp(&o);
    d.push(h.ct_equal(o) as u8);
    d.push(h.truncated_ct_equal::<20>(o) as u8);
    d
}

pub const OPS: &[Op] = &[
    Op { name: "aead", cost: 1, run: aead },
    Op { name: "sha2", cost: 1, run: sha2 },
    Op { name: "sha3", cost: 1, run: sha3 },
    Op { name: "hmac", cost: 1, run: hmac },
    Op { name: "ecdh-p256", cost: 10, run: ecdh::<K256> },
    Op { name: "ecdh-p384", cost: 25, run: ecdh::<K384> },
    Op { name: "ecdsa-p256", cost: 8, run: ecdsa_op::<K256> },
    Op { name: "ecdsa-p384", cost: 20, run: ecdsa_op::<K384> },
    Op { name: "ed25519", cost: 8, run: ed25519 },
    Op { name: "x25519", cost: 5, run: x25519 },
    Op { name: "rsa-sign", cost: 50, run: rsa_sign },
    Op { name: "rsa-verify", cost: 20, run: rsa_verify },
    Op { name: "rsa-codec", cost: 5, run: rsa_codec },
    Op { name: "mlkem", cost: 8, run: mlkem },
    Op { name: "random", cost: 1, run: random },
    Op { name: "ct-equal", cost: 1, run: ct },
];
