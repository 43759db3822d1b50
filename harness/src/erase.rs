//! C19: secrets are erased: object storage after drop, freed heap blocks, vector
//! registers after return, and Debug text.
use crate::Job;
use crate::nist::{K256, K384, Ka};
use crate::ops::rsa_keys;
use crate::rsa;
use graviola::hashing as gh;
use graviola::key_agreement as ka;
use graviola::signing::{ecdsa, eddsa};
use harness::rngctl::{self, Mode};
use harness::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::mem::MaybeUninit;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

// ---------------------------------------------------------------- freed heap

/// Looks at every heap block the library frees while armed.
pub struct Watch;
static ARMED: AtomicBool = AtomicBool::new(false);
static FREED: AtomicU64 = AtomicU64::new(0);
static FREED_BYTES: AtomicU64 = AtomicU64::new(0);
static NEEDLES: Mutex<Option<HashSet<u64>>> = Mutex::new(None);
static FOUND: Mutex<Vec<(usize, usize, u64)>> = Mutex::new(Vec::new());
thread_local! {
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

fn look(p: *const u8, n: usize) {
    if !ARMED.load(Ordering::Relaxed) {
        return;
    }
    let busy = BUSY.try_with(|b| b.replace(true)).unwrap_or(true);
    if busy {
        return;
    }
    FREED.fetch_add(1, Ordering::Relaxed);
    FREED_BYTES.fetch_add(n as u64, Ordering::Relaxed);
    if let Some(set) = NEEDLES.lock().unwrap().as_ref() {
        // SAFETY: a live block of n bytes, about to be freed
        let s = unsafe { std::slice::from_raw_parts(p, n) };
        for (i, w) in s.windows(8).enumerate() {
            let v = u64::from_le_bytes(w.try_into().unwrap());
            if set.contains(&v) {
                let mut f = FOUND.lock().unwrap();
                if f.len() < 20 {
                    f.push((n, i, v));
                }
                break;
            }
        }
    }
    let _ = BUSY.try_with(|b| b.set(false));
}

/// While set, blocks come from here one after another, so that equal sequences of
/// requests get equal addresses (for the monitor that compares addresses).
pub struct Arena {
    on: AtomicBool,
    base: AtomicU64,
    at: AtomicU64,
}
pub static ARENA: Arena = Arena { on: AtomicBool::new(false), base: AtomicU64::new(0), at: AtomicU64::new(0) };
const ARENA_SIZE: u64 = 64 << 20;

impl Arena {
    pub fn start(&self) {
        if self.base.load(Ordering::Relaxed) == 0 {
            let p = mem::Guarded::new(ARENA_SIZE as usize);
            self.base.store(p.all().as_ptr() as u64, Ordering::Relaxed);
            std::mem::forget(p);
        }
        self.at.store(0, Ordering::Relaxed);
        self.on.store(true, Ordering::SeqCst);
    }
    pub fn stop(&self) {
        self.on.store(false, Ordering::SeqCst);
    }
    fn get(&self, l: Layout) -> Option<*mut u8> {
        if !self.on.load(Ordering::Relaxed) {
            return None;
        }
        let a = l.align() as u64;
        let at = (self.at.load(Ordering::Relaxed) + a - 1) / a * a;
        let end = at + l.size() as u64;
        if end > ARENA_SIZE {
            return None;
        }
        self.at.store(end, Ordering::Relaxed);
        Some((self.base.load(Ordering::Relaxed) + at) as *mut u8)
    }
    fn has(&self, p: *mut u8) -> bool {
        let b = self.base.load(Ordering::Relaxed);
        b != 0 && (p as u64).wrapping_sub(b) < ARENA_SIZE
    }
}

/// While on, counts what is asked of the heap.
pub struct Count {
    pub on: AtomicBool,
    pub live: AtomicI64,
    pub blocks: AtomicI64,
    pub peak: AtomicI64,
    pub largest: AtomicI64,
    pub calls: AtomicU64,
}
pub static COUNT: Count = Count {
    on: AtomicBool::new(false),
    live: AtomicI64::new(0),
    blocks: AtomicI64::new(0),
    peak: AtomicI64::new(0),
    largest: AtomicI64::new(0),
    calls: AtomicU64::new(0),
};
impl Count {
    /// start from nothing (one thread)
    pub fn start(&self) {
        for c in [&self.live, &self.blocks, &self.peak, &self.largest] {
            c.store(0, Ordering::Relaxed);
        }
        self.on.store(true, Ordering::Relaxed);
    }
    pub fn stop(&self) {
        self.on.store(false, Ordering::Relaxed);
    }
    fn add(&self, blocks: i64, bytes: i64) {
        if self.on.load(Ordering::Relaxed) {
            self.blocks.fetch_add(blocks, Ordering::Relaxed);
            let n = self.live.fetch_add(bytes, Ordering::Relaxed) + bytes;
            self.peak.fetch_max(n, Ordering::Relaxed);
            self.largest.fetch_max(bytes, Ordering::Relaxed);
            self.calls.fetch_add(1, Ordering::Relaxed);
        }
    }
}

// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        COUNT.add(1, l.size() as i64);
        if let Some(p) = ARENA.get(l) {
            return p;
        }
        // old content of unused capacity is not the library's doing
        // SAFETY: forwarded
        unsafe { if ARMED.load(Ordering::Relaxed) { System.alloc_zeroed(l) } else { System.alloc(l) } }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        COUNT.add(1, l.size() as i64);
        if let Some(p) = ARENA.get(l) {
            // SAFETY: a fresh block of that size
            unsafe { p.write_bytes(0, l.size()) };
            return p;
        }
        // SAFETY: forwarded
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        COUNT.add(-1, -(l.size() as i64));
        look(p, l.size());
        if ARENA.has(p) {
            return;
        }
        // SAFETY: forwarded
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ARENA.on.load(Ordering::Relaxed) || ARENA.has(p) {
            // SAFETY: a new block, the content copied, the old one given up
            unsafe {
                let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    self.dealloc(p, l);
                }
                return q;
            }
        }
        COUNT.add(0, n as i64 - l.size() as i64);
        if ARMED.load(Ordering::Relaxed) {
            // a growing block leaves its old copy behind: make that visible
            // SAFETY: forwarded
            unsafe {
                let q = System.alloc_zeroed(Layout::from_size_align_unchecked(n, l.align()));
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    look(p, l.size());
                    System.dealloc(p, l);
                }
                return q;
            }
        }
        // SAFETY: forwarded
        unsafe { System.realloc(p, l, n) }
    }
}

/// all eight-byte windows of a secret, in the given byte order and reversed
pub fn windows(set: &mut HashSet<u64>, secret: &[u8]) {
    let rev: Vec<u8> = secret.iter().rev().copied().collect();
    for s in [secret, &rev] {
        for w in s.windows(8) {
            let v = u64::from_le_bytes(w.try_into().unwrap());
            // values that occur by themselves are no evidence
            if w[0] != 0 && w[7] != 0 && w.iter().filter(|b| **b != 0 && **b != 0xff).count() >= 6 {
                set.insert(v);
            }
        }
    }
}

/// run library code with the freed-heap monitor armed for these secrets
fn watched<T>(ctx: &mut Ctx, secrets: &[Vec<u8>], f: impl FnOnce() -> T) -> T {
    let mut set = HashSet::new();
    for s in secrets {
        windows(&mut set, s);
    }
    *NEEDLES.lock().unwrap() = Some(set);
    FOUND.lock().unwrap().clear();
    let (n0, b0) = (FREED.load(Ordering::Relaxed), FREED_BYTES.load(Ordering::Relaxed));
    ARMED.store(true, Ordering::SeqCst);
    let r = f();
    ARMED.store(false, Ordering::SeqCst);
    ctx.observe("heap blocks inspected when freed", FREED.load(Ordering::Relaxed) - n0);
    ctx.observe("bytes inspected when freed", FREED_BYTES.load(Ordering::Relaxed) - b0);
    *NEEDLES.lock().unwrap() = None;
    let f = std::mem::take(&mut *FOUND.lock().unwrap());
    if std::env::var_os("GV_DEBUG").is_some() && !f.is_empty() {
        for (i, s) in secrets.iter().enumerate() {
            eprintln!("secret {i} {}", hex(s));
        }
        eprintln!("{f:x?}");
    }
    if let Some((n, i, v)) = f.first() {
        ctx.fail("freed-heap", format!("a heap block of {n} bytes was freed with secret bytes {v:016x} at offset {i} ({} blocks)", f.len()));
    }
    r
}

// ---------------------------------------------------------------- objects

struct Slot {
    g: mem::Guarded,
}
impl Slot {
    /// put v in memory, run f on it, drop it; the bytes before and after the drop
    fn life<T>(&self, v: T, f: impl FnOnce(&T)) -> (Vec<u8>, Vec<u8>) {
        let n = std::mem::size_of::<T>();
        let a = self.g.all();
        assert!(n <= a.len());
        a.fill(0x11);
        let p = a.as_mut_ptr().cast::<T>();
        // SAFETY: page-aligned, large enough
        unsafe { p.write(v) };
        f(unsafe { &*p });
        let before = self.raw(n);
        // SAFETY: written above
        unsafe { std::ptr::drop_in_place(p) };
        (before, self.raw(n))
    }
    fn raw(&self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        // padding may be anything: read it behind the compiler's back
        // SAFETY: n mapped bytes
        unsafe {
            std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rsi") self.g.all().as_ptr() => _, inout("rdi") v.as_mut_ptr() => _);
        }
        v
    }
}

fn words(b: &[u8]) -> Vec<u64> {
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

/// Two lives of the same kind of object with different secrets: what differs between
/// them is secret (unless it is public data), and none of it may outlive its object.
fn residue(ctx: &mut Ctx, what: &str, a: &(Vec<u8>, Vec<u8>), b: &(Vec<u8>, Vec<u8>), public: &[Vec<u8>]) {
    // bytes of the object that are public data (whole eight-byte runs of it, or short pieces)
    let mut pubs = HashSet::new();
    for p in public {
        for w in p.windows(8) {
            pubs.insert(u64::from_le_bytes(w.try_into().unwrap()));
            pubs.insert(u64::from_be_bytes(w.try_into().unwrap()));
        }
    }
    let n = a.0.len();
    let mut open = vec![false; n];
    for (i, w) in a.0.windows(8).enumerate() {
        if pubs.contains(&u64::from_le_bytes(w.try_into().unwrap())) {
            open[i..i + 8].fill(true);
        }
    }
    for p in public.iter().filter(|p| p.len() < 8) {
        for i in 0..=n.saturating_sub(p.len()) {
            if a.0[i..].starts_with(p) {
                open[i..i + p.len()].fill(true);
            }
        }
    }
    let (mut aligned, mut any) = (HashSet::new(), HashSet::new());
    for i in 0..n.saturating_sub(7) {
        if open[i..i + 8].iter().any(|x| *x) {
            continue;
        }
        let (x, y) = (&a.0[i..i + 8], &b.0[i..i + 8]);
        let v = u64::from_le_bytes(x.try_into().unwrap());
        if i % 8 == 0 && x != y && x.iter().filter(|c| **c != 0).count() > 4 {
            aligned.insert(v);
        }
        if x.iter().zip(y).all(|(p, q)| p != q) && x.iter().filter(|c| **c != 0).count() > 6 {
            any.insert(v);
        }
    }
    ctx.observe(&format!("secret words followed in {what}"), aligned.len() as u64);
    ctx.check(!aligned.is_empty(), "nothing-followed", || format!("{what}: no secret-dependent word in the object; the monitor is blind"));
    let hits: Vec<usize> = a.1.windows(8).enumerate().filter(|(i, w)| {
        let v = u64::from_le_bytes((*w).try_into().unwrap());
        any.contains(&v) || (i % 8 == 0 && aligned.contains(&v))
    }).map(|(i, _)| i).collect();
    ctx.check(hits.is_empty(), "object-residue", || {
        format!("{what}: secret bytes are still in its memory after drop, at {} places (first {} at byte {} of {n})", hits.len(), hex(&a.1[hits[0]..hits[0] + 8]), hits[0])
    });
}

fn scalar<K: Ka>(r: &mut Rng) -> Vec<u8> {
    let n = if K::curve().name.contains("256") { 32 } else { 48 };
    let mut b = r.bytes(n);
    b[0] = 0x40 | (b[0] & 0x3f);
    b
}

fn objects(ctx: &mut Ctx) {
    let mut r = ctx.rng("objects");
    let s = Slot { g: mem::Guarded::new(1 << 16) };
    macro_rules! pair {
        ($what:expr, $public:expr, $make:expr, $use:expr) => {{
            let what: &str = $what;
            let (x, y): (u64, u64) = (r.u64(), r.u64());
            ctx.case(what, format!("{what} seeds={x:#x},{y:#x}"));
            let mk = $make;
            let us = $use;
            let a = ctx.call("op", || s.life(mk(&mut Rng::new(x)), |o| us(o)));
            let b = ctx.call("op", || s.life(mk(&mut Rng::new(y)), |o| us(o)));
            if let (Some(a), Some(b)) = (a, b) {
                let mut p: Vec<Vec<u8>> = $public(&mut Rng::new(x));
                p.extend($public(&mut Rng::new(y)));
                residue(ctx, what, &a, &b, &p);
            }
        }};
    }
    let none = |_: &mut Rng| -> Vec<Vec<u8>> { vec![] };
    for round in 0..ctx.n(12, 200) {
        if !ctx.more() {
            return;
        }
        let used = round % 2 == 1;
        let msg = r.bytes(600);
        let m = &msg[..];
        use graviola::aead::*;
        for kl in [16usize, 32] {
            pair!(if kl == 16 { "aes-128-gcm key" } else { "aes-256-gcm key" }, none, |g: &mut Rng| AesGcm::new(&g.bytes(kl)), |k: &AesGcm| if used {
                k.encrypt(&[1; 12], m, &mut m.to_vec(), &mut [0; 16])
            });
        }
        pair!("chacha20poly1305 key", none, |g: &mut Rng| ChaCha20Poly1305::new(g.arr()), |k: &ChaCha20Poly1305| if used {
            k.encrypt(&[1; 12], m, &mut m.to_vec(), &mut [0; 16])
        });
        pair!("xchacha20poly1305 key", none, |g: &mut Rng| XChaCha20Poly1305::new(g.arr()), |k: &XChaCha20Poly1305| if used {
            k.encrypt(&[1; 24], m, &mut m.to_vec(), &mut [0; 16])
        });
        macro_rules! nist {
            ($k:ident, $m:ident, $n:literal) => {{
                let peer = $k::pub_from(&$k::st_pub(&$k::st_from(&scalar::<$k>(&mut r)).unwrap())).unwrap();
                pair!(concat!($n, " static private key"), none, |g: &mut Rng| $k::st_from(&scalar::<$k>(g)).unwrap(), |k: &ka::$m::StaticPrivateKey| if used {
                    let _ = $k::st_dh(k, &peer);
                    let _ = $k::st_pub(k);
                });
                pair!(concat!($n, " generated static private key"), none, |g: &mut Rng| {
                    rngctl::reset(g.u64(), Mode::Stream);
                    $k::st_new().unwrap()
                }, |_: &ka::$m::StaticPrivateKey| ());
                pair!(concat!($n, " ephemeral private key"), none, |g: &mut Rng| {
                    rngctl::reset(g.u64(), Mode::Stream);
                    ka::$m::PrivateKey::new_random().unwrap()
                }, |k: &ka::$m::PrivateKey| if used {
                    let _ = k.public_key_uncompressed();
                });
                pair!(concat!($n, " shared secret"), none, |g: &mut Rng| $k::st_from(&scalar::<$k>(g)).unwrap().diffie_hellman(&peer).unwrap(), |_: &ka::$m::SharedSecret| ());
                pair!(concat!($n, " ecdsa signing key"), none, |g: &mut Rng| $k::signer(&scalar::<$k>(g)).unwrap(), |k: &ecdsa::SigningKey<_>| if used {
                    let _ = k.sign::<gh::Sha256>(&[m], &mut [0; 200]);
                    let _ = k.to_pkcs8_der(&mut [0; 400]);
                });
                pair!(concat!($n, " generated ecdsa signing key"), none, |g: &mut Rng| {
                    rngctl::reset(g.u64(), Mode::Stream);
                    ecdsa::SigningKey::<<$k as Ka>::Sig>::generate().unwrap()
                }, |_: &ecdsa::SigningKey<_>| ());
            }};
        }
        nist!(K256, p256, "p-256");
        nist!(K384, p384, "p-384");
        {
            use ka::x25519::*;
            let peer = StaticPrivateKey::from_array(&r.arr()).public_key();
            pair!("x25519 static private key", none, |g: &mut Rng| StaticPrivateKey::from_array(&g.arr()), |k: &StaticPrivateKey| if used {
                let _ = k.public_key();
                let _ = k.diffie_hellman(&peer);
            });
            pair!("x25519 ephemeral private key", none, |g: &mut Rng| {
                rngctl::reset(g.u64(), Mode::Stream);
                PrivateKey::new_random().unwrap()
            }, |k: &PrivateKey| if used {
                let _ = k.public_key();
            });
            pair!("x25519 shared secret", none, |g: &mut Rng| StaticPrivateKey::from_array(&g.arr()).diffie_hellman(&peer).unwrap(), |_: &SharedSecret| ());
        }
        {
            use eddsa::*;
            let public = |g: &mut Rng| vec![Ed25519SigningKey::from_bytes(&g.bytes(32)).unwrap().public_key().as_bytes().to_vec()];
            pair!("ed25519 signing key", public, |g: &mut Rng| Ed25519SigningKey::from_bytes(&g.bytes(32)).unwrap(), |k: &Ed25519SigningKey| if used {
                let _ = k.sign(m);
                let _ = k.to_pkcs8_der(&mut [0; 100]);
            });
        }
        {
            use ka::mlkem768::*;
            let ek = |g: &mut Rng| DecapKey::keygen_internal(&g.arr()).encapsulation_key();
            let public = |g: &mut Rng| {
                let e = ek(g);
                let mut p = e.as_bytes().to_vec();
                let mut h = sha3::Sha3_256::default();
                sha3::digest::Update::update(&mut h, &p);
                p.extend(sha3::digest::FixedOutput::finalize_fixed(h));
                // the public key in the library's own representation
                // SAFETY: plain bytes of a public object
                p.extend(unsafe { std::slice::from_raw_parts((&e as *const EncapKey).cast::<u8>(), std::mem::size_of::<EncapKey>()) });
                vec![p]
            };
            pair!("ml-kem-768 decapsulation key", public, |g: &mut Rng| DecapKey::keygen_internal(&g.arr()), |k: &DecapKey| if used {
                let _ = k.decaps_internal(&Ciphertext::from([3; 1088]));
                let _ = k.as_bytes();
            });
            let peer = ek(&mut r);
            pair!("ml-kem-768 encapsulated secret", none, |g: &mut Rng| peer.clone().encaps_internal(Message(g.arr())).0, |_: &SharedSecret| ());
            pair!("ml-kem-768 message", none, |g: &mut Rng| Message(g.arr()), |_: &Message| ());
            pair!("ml-kem-768 decapsulated secret", none, |g: &mut Rng| DecapKey::keygen_internal(&g.arr()).decaps(&Ciphertext::from([5; 1088])), |_: &SharedSecret| ());
        }
        // RSA: two keys of the same size
        {
            use graviola::signing::rsa::SigningKey;
            let sizes: Vec<usize> = [2048, 3072, 4096, 8192].into_iter().filter(|b| rsa_keys().iter().filter(|k| k.bits == *b).count() >= 2).collect();
            let bits = *r.pick(&sizes);
            let ks: Vec<&rsa::Key> = rsa_keys().iter().filter(|k| k.bits == bits).collect();
            // seeds choose keys; make sure the two differ
            let start = r.below(ks.len());
            let seen = std::cell::RefCell::new(Vec::<u64>::new());
            let pick = |g: &mut Rng| {
                let id = g.u64();
                let mut s = seen.borrow_mut();
                let i = s.iter().position(|x| *x == id).unwrap_or_else(|| {
                    s.push(id);
                    s.len() - 1
                });
                ks[(start + i) % ks.len()]
            };
            // the public key in the library's own representation
            let public = |g: &mut Rng| {
                let k = pick(g);
                let v = graviola::signing::rsa::VerifyingKey::from_pkcs1_der(&k.pub_der()).unwrap();
                // SAFETY: plain bytes of a public object
                let mut p = unsafe { std::slice::from_raw_parts((&v as *const graviola::signing::rsa::VerifyingKey).cast::<u8>(), std::mem::size_of_val(&v)) }.to_vec();
                p.extend(k.n.to_bytes_be());
                // the exponent shares its word with padding
                let mut e = k.e.to_bytes_le();
                e.resize(4, 0);
                vec![p, e]
            };
            pair!("rsa signing key", public, |g: &mut Rng| SigningKey::from_pkcs1_der(&pick(g).priv_der()).unwrap(), |k: &SigningKey| if used {
                let _ = k.sign_pkcs1_sha256(&mut [0; 1024], m);
            });
        }
    }
}

fn heap(ctx: &mut Ctx) {
    use num_bigint::BigUint as B;
    let mut r = ctx.rng("heap");
    use graviola::signing::rsa::{KeySize, SigningKey};
    let be = |x: &B| x.to_bytes_be();
    for i in 0..ctx.n(60, 800) {
        if !ctx.more() {
            return;
        }
        let max = if i % 4 == 0 { 4096 } else { 2304 };
        let cands: Vec<&rsa::Key> = rsa_keys().iter().filter(|k| k.bits <= max).collect();
        let k = cands[r.below(cands.len())];
        let pss = r.bool();
        let h = *r.pick(&rsa::HASHES);
        let msg = r.bytes(50);
        ctx.case("rsa", format!("import, sign, export and drop with {} bits pss={pss} {}", k.bits, h.name()));
        let mut secrets: Vec<Vec<u8>> = [&k.p, &k.q, &k.d, &k.dp, &k.dq, &k.iqmp].iter().map(|x| be(x)).collect();
        if !pss {
            // powers of the message representative modulo the secret primes, as an
            // exponentiation would tabulate them
            let c = B::from_bytes_be(&rsa::pkcs1_em(k.k, &rsa::digest_info(h), &rsa::dig(h, &msg)));
            for p in [&k.p, &k.q] {
                let rr = B::from(1u32) << (p.bits().div_ceil(64) * 64);
                for e in 2..16u32 {
                    secrets.push(be(&(c.modpow(&B::from(e), p) * &rr % p)));
                }
            }
        }
        let der = k.priv_der();
        let mut out = vec![0; 9000];
        let mut sig = vec![0; k.k];
        watched(ctx, &secrets, || {
            let Ok(sk) = SigningKey::from_pkcs1_der(&der) else { return };
            let _ = rsa::sign(&sk, pss, h, &mut sig, &msg);
            let _ = sk.to_pkcs8_der(&mut out);
            let _ = sk.to_pkcs1_der(&mut out);
            drop(sk);
        });
    }
    // everything else, with its seed or scalar followed
    for _ in 0..ctx.n(200, 3000) {
        if !ctx.more() {
            return;
        }
        let s = r.bytes(32);
        let s48 = scalar::<K384>(&mut r);
        let s32 = scalar::<K256>(&mut r);
        let mut seed64 = [0u8; 64];
        r.fill(&mut seed64);
        ctx.case("others", format!("seed {}", hex(&s)));
        let msg = r.bytes(2000);
        let secrets = vec![s.clone(), s48.clone(), s32.clone(), seed64.to_vec()];
        let p384 = K384::pub_from(&K384::st_pub(&K384::st_from(&s48).unwrap())).unwrap();
        let p256 = K256::pub_from(&K256::st_pub(&K256::st_from(&s32).unwrap())).unwrap();
        let sa: [u8; 32] = s.clone().try_into().unwrap();
        watched(ctx, &secrets, || {
            let mut buf = [0u8; 2000];
            buf.copy_from_slice(&msg);
            let mut tag = [0; 16];
            graviola::aead::AesGcm::new(&s).encrypt(&[1; 12], &msg, &mut buf, &mut tag);
            let _ = graviola::aead::AesGcm::new(&s).decrypt(&[1; 12], &msg, &mut buf, &tag);
            graviola::aead::ChaCha20Poly1305::new(sa).encrypt(&[1; 12], &msg, &mut buf, &mut tag);
            graviola::aead::XChaCha20Poly1305::new(sa).encrypt(&[1; 24], &msg, &mut buf, &mut tag);
            let mut hm = gh::hmac::Hmac::<gh::Sha256>::new(&s);
            hm.update(&msg);
            let _ = hm.verify(&tag);
            let ed = eddsa::Ed25519SigningKey::from_bytes(&s);
            if let Ok(ed) = &ed {
                let _ = ed.sign(&msg);
                let _ = ed.to_pkcs8_der(&mut buf);
            }
            drop(ed);
            if let Ok(k) = ka::p256::StaticPrivateKey::from_bytes(&s32) {
                let _ = k.diffie_hellman(&p256);
                let sk = ecdsa::SigningKey::<ecdsa::P256> { private_key: k };
                let _ = sk.sign_asn1::<gh::Sha256>(&[&msg], &mut buf);
                let _ = sk.to_pkcs8_der(&mut buf);
                let _ = sk.to_sec1_der(&mut buf);
            }
            if let Ok(k) = ka::p384::StaticPrivateKey::from_bytes(&s48) {
                let _ = k.diffie_hellman(&p384);
                let sk = ecdsa::SigningKey::<ecdsa::P384> { private_key: k };
                let _ = sk.sign::<gh::Sha384>(&[&msg], &mut buf);
                let _ = sk.to_pkcs8_der(&mut buf);
                let _ = sk.to_sec1_der(&mut buf);
            }
            let x = ka::x25519::StaticPrivateKey::from_array(&sa);
            let _ = x.diffie_hellman(&x.public_key());
            let dk = ka::mlkem768::DecapKey::keygen_internal(&seed64);
            let _ = dk.decaps(&ka::mlkem768::Ciphertext::from([1; 1088]));
        });
    }
    // objects that live on the heap: the wipe must not be one that the compiler may
    // drop because the block is freed next
    for _ in 0..ctx.n(200, 3000) {
        if !ctx.more() {
            return;
        }
        let s = r.bytes(32);
        let s48 = scalar::<K384>(&mut r);
        let s32 = scalar::<K256>(&mut r);
        let mut seed64 = [0u8; 64];
        r.fill(&mut seed64);
        ctx.case("boxed", format!("seed {}", hex(&s)));
        let msg = r.bytes(200);
        let sa: [u8; 32] = s.clone().try_into().unwrap();
        let x = ka::x25519::StaticPrivateKey::from_array(&sa);
        let xs = x25519_dalek::x25519(sa, x25519_dalek::x25519([9; 32], x25519_dalek::X25519_BASEPOINT_BYTES));
        let (p256, p384) = (K256::st_pub(&K256::st_from(&s32).unwrap()), K384::st_pub(&K384::st_from(&s48).unwrap()));
        let (q256, q384) = (K256::pub_from(&p256).unwrap(), K384::pub_from(&p384).unwrap());
        let z256 = ka::p256::StaticPrivateKey::from_bytes(&s32).unwrap().diffie_hellman(&q256).unwrap().0.to_vec();
        let z384 = ka::p384::StaticPrivateKey::from_bytes(&s48).unwrap().diffie_hellman(&q384).unwrap().0.to_vec();
        let h = <sha2::Sha512 as sha2::Digest>::digest(&s).to_vec();
        let mut clamped = s.clone();
        clamped[0] &= 0xf8;
        clamped[31] = clamped[31] & 0x7f | 0x40;
        let ss = ka::mlkem768::DecapKey::keygen_internal(&seed64).decaps(&ka::mlkem768::Ciphertext::from([1; 1088])).as_ref().to_vec();
        let secrets = vec![s.clone(), clamped, s48.clone(), s32.clone(), seed64.to_vec(), xs.to_vec(), z256, z384, h, ss];
        watched(ctx, &secrets, || {
            let x = Box::new(x);
            let z = x.diffie_hellman(&ka::x25519::PublicKey::from_array(&x25519_dalek::x25519([9; 32], x25519_dalek::X25519_BASEPOINT_BYTES)));
            drop(Box::new(z.unwrap()));
            drop(x);
            drop(Box::new(ka::x25519::StaticPrivateKey::try_from_slice(&s).unwrap()));
            drop(Box::new(ka::p256::StaticPrivateKey::from_bytes(&s32).unwrap()));
            drop(Box::new(ka::p384::StaticPrivateKey::from_bytes(&s48).unwrap()));
            let a = Box::new(ka::p256::StaticPrivateKey::from_bytes(&s32).unwrap());
            drop(Box::new(a.diffie_hellman(&q256).unwrap()));
            drop(a);
            let b = Box::new(ka::p384::StaticPrivateKey::from_bytes(&s48).unwrap());
            drop(Box::new(b.diffie_hellman(&q384).unwrap()));
            drop(b);
            if let Ok(b) = ka::p384::StaticPrivateKey::from_bytes(&s48) {
                drop(Box::new(ecdsa::SigningKey::<ecdsa::P384> { private_key: b }));
            }
            let ed = Box::new(eddsa::Ed25519SigningKey::from_bytes(&s).unwrap());
            let _ = ed.sign(&msg);
            drop(ed);
            drop(Box::new(graviola::aead::AesGcm::new(&s)));
            drop(Box::new(graviola::aead::ChaCha20Poly1305::new(sa)));
            drop(Box::new(graviola::aead::XChaCha20Poly1305::new(sa)));
            let mut hm = Box::new(gh::hmac::Hmac::<gh::Sha512>::new(&s));
            hm.update(&msg);
            drop(hm);
            drop(Box::new(ka::mlkem768::DecapKey::keygen_internal(&seed64)));
            let dk = ka::mlkem768::DecapKey::keygen_internal(&seed64);
            drop(Box::new(dk.decaps(&ka::mlkem768::Ciphertext::from([1; 1088]))));
        });
    }
    // key generation: what was generated is only known afterwards, so replay it
    for _ in 0..ctx.n(2, 20) {
        let seed = r.u64();
        rngctl::reset(seed, Mode::Stream);
        ctx.case("rsa-generate", format!("seed {seed:#x}"));
        let Ok(sk) = SigningKey::generate(KeySize::Rsa2048) else { continue };
        let mut out = vec![0; 4000];
        let n = sk.to_pkcs1_der(&mut out).map(|x| x.len()).unwrap_or(0);
        drop(sk);
        let Some(v) = rsa::parse_priv(&out[..n]) else { continue };
        // version n e d p q dp dq iqmp, or without the version
        let secrets: Vec<Vec<u8>> = v[v.len() - 6..].iter().map(|x| be(x)).collect();
        rngctl::reset(seed, Mode::Stream);
        rngctl::with(|s| s.keep_log = false);
        let _quiet = watched(ctx, &secrets, || {
            let r = SigningKey::generate(KeySize::Rsa2048);
            drop(r);
        });
    }
}

// ---------------------------------------------------------------- registers

#[repr(C, align(64))]
#[derive(Clone)]
struct Regs([[u8; 64]; 32]);

macro_rules! capture {
    ($r:expr) => {
        if is_x86_feature_detected!("avx512f") {
            // SAFETY: stores 32 registers of 64 bytes to an array of that size
            unsafe {
                std::arch::asm!(
                    "vmovdqu64 [{p}], zmm0", "vmovdqu64 [{p}+64], zmm1", "vmovdqu64 [{p}+128], zmm2", "vmovdqu64 [{p}+192], zmm3",
                    "vmovdqu64 [{p}+256], zmm4", "vmovdqu64 [{p}+320], zmm5", "vmovdqu64 [{p}+384], zmm6", "vmovdqu64 [{p}+448], zmm7",
                    "vmovdqu64 [{p}+512], zmm8", "vmovdqu64 [{p}+576], zmm9", "vmovdqu64 [{p}+640], zmm10", "vmovdqu64 [{p}+704], zmm11",
                    "vmovdqu64 [{p}+768], zmm12", "vmovdqu64 [{p}+832], zmm13", "vmovdqu64 [{p}+896], zmm14", "vmovdqu64 [{p}+960], zmm15",
                    "vmovdqu64 [{p}+1024], zmm16", "vmovdqu64 [{p}+1088], zmm17", "vmovdqu64 [{p}+1152], zmm18", "vmovdqu64 [{p}+1216], zmm19",
                    "vmovdqu64 [{p}+1280], zmm20", "vmovdqu64 [{p}+1344], zmm21", "vmovdqu64 [{p}+1408], zmm22", "vmovdqu64 [{p}+1472], zmm23",
                    "vmovdqu64 [{p}+1536], zmm24", "vmovdqu64 [{p}+1600], zmm25", "vmovdqu64 [{p}+1664], zmm26", "vmovdqu64 [{p}+1728], zmm27",
                    "vmovdqu64 [{p}+1792], zmm28", "vmovdqu64 [{p}+1856], zmm29", "vmovdqu64 [{p}+1920], zmm30", "vmovdqu64 [{p}+1984], zmm31",
                    p = in(reg) $r.0.as_mut_ptr(),
                );
            }
        } else {
            // SAFETY: stores 16 registers of 32 bytes
            unsafe {
                std::arch::asm!(
                    "vmovdqu [{p}], ymm0", "vmovdqu [{p}+64], ymm1", "vmovdqu [{p}+128], ymm2", "vmovdqu [{p}+192], ymm3",
                    "vmovdqu [{p}+256], ymm4", "vmovdqu [{p}+320], ymm5", "vmovdqu [{p}+384], ymm6", "vmovdqu [{p}+448], ymm7",
                    "vmovdqu [{p}+512], ymm8", "vmovdqu [{p}+576], ymm9", "vmovdqu [{p}+640], ymm10", "vmovdqu [{p}+704], ymm11",
                    "vmovdqu [{p}+768], ymm12", "vmovdqu [{p}+832], ymm13", "vmovdqu [{p}+896], ymm14", "vmovdqu [{p}+960], ymm15",
                    p = in(reg) $r.0.as_mut_ptr(),
                );
            }
        }
    };
}

/// call, then store the vector registers before anything else happens
#[inline(never)]
fn call_and_look<T>(slot: &mut MaybeUninit<T>, regs: &mut Regs, f: &mut dyn FnMut(&mut MaybeUninit<T>)) {
    crate::memops::dirty(0);
    f(slot);
    capture!(regs);
}

/// the bytes of any value, padding included
fn raw_of<T>(v: &T) -> Vec<u8> {
    let n = std::mem::size_of::<T>();
    let mut o = vec![0u8; n];
    // SAFETY: n readable bytes
    unsafe {
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rsi") v as *const T => _, inout("rdi") o.as_mut_ptr() => _);
    }
    o
}

/// The same operation with two different secrets must leave the same registers, except
/// for bytes of what it returned.
fn two_runs<T>(ctx: &mut Ctx, what: &str, mut run: impl FnMut(usize, &mut MaybeUninit<T>), bytes: impl Fn(&T) -> Vec<u8>) {
    ctx.case(what, format!("{what} {}", ctx.evals));
    let mut regs = [Regs([[0; 64]; 32]), Regs([[0; 64]; 32])];
    let mut outs = HashSet::new();
    let mut all = vec![];
    for i in 0..2 {
        let mut slot = MaybeUninit::<T>::uninit();
        call_and_look(&mut slot, &mut regs[i], &mut |s| run(i, s));
        // SAFETY: run wrote it
        let v = unsafe { slot.assume_init() };
        let b = bytes(&v);
        for w in b.windows(8) {
            outs.insert(u64::from_le_bytes(w.try_into().unwrap()));
        }
        all.extend(b);
    }
    // when AVX-512 is denied the library cannot touch the upper registers
    let upto = if std::env::var("GRAVIOLA_CPU_DISABLE_avx512f").is_ok() { 16 } else { 32 };
    let mut bad = vec![];
    for z in 0..upto {
        let (a, b) = (words(&regs[0].0[z]), words(&regs[1].0[z]));
        for l in 0..8 {
            // a short copy of the output fills part of a lane
            let part = |x: u64| x >> 32 == 0 && all.windows(4).any(|w| w == &x.to_le_bytes()[..4]);
            // the allocator handles its list pointers two at a time in a vector register,
            // and what is on its lists differs from one run to the next
            let address = |x: u64| (0x5500_0000_0000..0x8000_0000_0000).contains(&x);
            let fine = |x: u64| x == 0 || outs.contains(&x) || part(x) || address(x);
            if a[l] != b[l] && !(fine(a[l]) && fine(b[l])) {
                bad.push(format!("zmm{z}[{l}] {:x} {:x}", a[l], b[l]));
            }
        }
    }
    ctx.observe("register lanes compared", 8 * upto as u64);
    ctx.check(bad.is_empty(), "register-residue", || format!("{what}: {} register lanes depend on the secret after return: {}", bad.len(), bad[..bad.len().min(6)].join(" ")));
}

fn registers(ctx: &mut Ctx) {
    let mut r = ctx.rng("regs");
    macro_rules! two {
        ($what:expr, $bytes:expr, $f:expr) => {{
            let f = $f;
            two_runs(ctx, $what, |i, s| { s.write(f(i)); }, $bytes);
        }};
    }
    macro_rules! export {
        ($what:expr, $docs:ident, $lens:ident, $f:expr) => {{
            let f = $f;
            let (d, n) = (std::cell::RefCell::new(&mut $docs), std::cell::RefCell::new(&mut $lens));
            two!($what, |_: &()| vec![], |i: usize| n.borrow_mut()[i] = f(i, &mut d.borrow_mut()[i][..]).unwrap());
        }};
    }
    for round in 0..ctx.n(60, 1500) {
        if !ctx.more() {
            return;
        }
        let l = *r.pick(&[0usize, 5, 16, 100, 128, 255, 256, 257, 512, 700, 1024, 4096]);
        let msg = r.bytes(l);
        let keys: [Vec<u8>; 2] = [r.bytes(32), r.bytes(32)];
        let aad = r.bytes(round * 3);
        use graviola::aead::*;
        for kl in [16, 32] {
            two!("aes-gcm new", raw_of, |i: usize| AesGcm::new(&keys[i][..kl]));
            let ks = [AesGcm::new(&keys[0][..kl]), AesGcm::new(&keys[1][..kl])];
            let mut bufs = [msg.clone(), msg.clone()];
            let mut tags = [[0; 16]; 2];
            {
                let (b, t) = (std::cell::RefCell::new(&mut bufs), std::cell::RefCell::new(&mut tags));
                two!("aes-gcm encrypt", |_| [b.borrow().concat(), t.borrow().concat()].concat(), |i: usize| ks[i].encrypt(&[9; 12], &aad, &mut b.borrow_mut()[i], &mut t.borrow_mut()[i]));
                two!("aes-gcm decrypt", |_| [b.borrow().concat(), t.borrow().concat()].concat(), |i: usize| ks[i].decrypt(&[9; 12], &aad, &mut b.borrow_mut()[i], &t.borrow()[i]).is_ok());
                two!("aes-gcm decrypt refused", |_| [b.borrow().concat(), t.borrow().concat()].concat(), |i: usize| ks[i].decrypt(&[9; 12], &aad, &mut b.borrow_mut()[i], &[1; 16]).is_ok());
            }
        }
        macro_rules! cc {
            ($t:ident, $n:literal) => {{
                two!(concat!(stringify!($t), " new"), raw_of, |i: usize| $t::new(keys[i][..].try_into().unwrap()));
                let ks = [$t::new(keys[0][..].try_into().unwrap()), $t::new(keys[1][..].try_into().unwrap())];
                let mut bufs = [msg.clone(), msg.clone()];
                let mut tags = [[0; 16]; 2];
                let (b, t) = (std::cell::RefCell::new(&mut bufs), std::cell::RefCell::new(&mut tags));
                two!(concat!(stringify!($t), " encrypt"), |_| [b.borrow().concat(), t.borrow().concat()].concat(), |i: usize| ks[i].encrypt(&[9; $n], &aad, &mut b.borrow_mut()[i], &mut t.borrow_mut()[i]));
                two!(concat!(stringify!($t), " decrypt"), |_| [b.borrow().concat(), t.borrow().concat()].concat(), |i: usize| ks[i].decrypt(&[9; $n], &aad, &mut b.borrow_mut()[i], &t.borrow()[i]).is_ok());
                two!(concat!(stringify!($t), " decrypt refused"), |_| [b.borrow().concat(), t.borrow().concat()].concat(), |i: usize| ks[i].decrypt(&[9; $n], &aad, &mut b.borrow_mut()[i], &[1; 16]).is_ok());
            }};
        }
        cc!(ChaCha20Poly1305, 12);
        cc!(XChaCha20Poly1305, 24);
        {
            use ka::x25519::*;
            let sk: Vec<StaticPrivateKey> = keys.iter().map(|k| StaticPrivateKey::try_from_slice(k).unwrap()).collect();
            let peer = StaticPrivateKey::from_array(&r.arr()).public_key();
            two!("x25519 public", |p: &PublicKey| p.as_bytes().to_vec(), |i: usize| sk[i].public_key());
            two!("x25519 dh", |p: &SharedSecret| p.0.to_vec(), |i: usize| sk[i].diffie_hellman(&peer).unwrap());
            two!("x25519 generate static", raw_of, |i: usize| {
                rngctl::reset(20 + i as u64, Mode::Stream);
                StaticPrivateKey::new_random().unwrap()
            });
            two!("x25519 from array", raw_of, |i: usize| StaticPrivateKey::from_array(keys[i][..].try_into().unwrap()));
            {
                let e = std::cell::RefCell::new([0, 1].map(|i| {
                    rngctl::reset(80 + i, Mode::Stream);
                    Some(PrivateKey::new_random().unwrap())
                }));
                two!("x25519 ephemeral public", |p: &PublicKey| p.as_bytes().to_vec(), |i: usize| e.borrow()[i].as_ref().unwrap().public_key());
                two!("x25519 ephemeral dh", |p: &SharedSecret| p.0.to_vec(), |i: usize| e.borrow_mut()[i].take().unwrap().diffie_hellman(&peer).unwrap());
            }
            two!("x25519 generate", |p: &PrivateKey| {
                // SAFETY: plain words
                unsafe { std::slice::from_raw_parts((p as *const PrivateKey).cast::<u8>(), 32) }.to_vec()
            }, |i: usize| {
                rngctl::reset(i as u64, Mode::Stream);
                PrivateKey::new_random().unwrap()
            });
        }
        macro_rules! nist {
            ($k:ident, $m:ident, $len:literal) => {{
                let s: [Vec<u8>; 2] = [scalar::<$k>(&mut r), scalar::<$k>(&mut r)];
                let sk: Vec<ka::$m::StaticPrivateKey> = s.iter().map(|x| $k::st_from(x).unwrap()).collect();
                let peer = $k::pub_from(&$k::st_pub(&$k::st_from(&scalar::<$k>(&mut r)).unwrap())).unwrap();
                two!(concat!(stringify!($m), " public"), |x: &[u8; $len]| x.to_vec(), |i: usize| sk[i].public_key_uncompressed());
                two!(concat!(stringify!($m), " dh"), |x: &ka::$m::SharedSecret| x.0.to_vec(), |i: usize| sk[i].diffie_hellman(&peer).unwrap());
                let sg: Vec<ecdsa::SigningKey<_>> = s.iter().map(|x| $k::signer(x).unwrap()).collect();
                let out = std::cell::RefCell::new([0u8; 600]);
                two!(concat!(stringify!($m), " key from bytes"), raw_of, |i: usize| $k::st_from(&s[i]).unwrap());
                two!(concat!(stringify!($m), " generate"), raw_of, |i: usize| {
                    rngctl::reset(30 + i as u64, Mode::Stream);
                    ka::$m::PrivateKey::new_random().unwrap()
                });
                two!(concat!(stringify!($m), " generate static"), raw_of, |i: usize| {
                    rngctl::reset(30 + i as u64, Mode::Stream);
                    ka::$m::StaticPrivateKey::new_random().unwrap()
                });
                {
                    let e = std::cell::RefCell::new([0, 1].map(|i| {
                        rngctl::reset(40 + i as u64, Mode::Stream);
                        Some(ka::$m::PrivateKey::new_random().unwrap())
                    }));
                    two!(concat!(stringify!($m), " ephemeral public"), |x: &[u8; $len]| x.to_vec(), |i: usize| e.borrow()[i].as_ref().unwrap().public_key_uncompressed());
                    two!(concat!(stringify!($m), " ephemeral dh"), |x: &ka::$m::SharedSecret| x.0.to_vec(), |i: usize| e.borrow_mut()[i].take().unwrap().diffie_hellman(&peer).unwrap());
                }
                two!(concat!(stringify!($m), " ecdsa generate"), raw_of, |i: usize| {
                    rngctl::reset(50 + i as u64, Mode::Stream);
                    ecdsa::SigningKey::<<$k as Ka>::Sig>::generate().unwrap()
                });
                // what is written through a reference is complete before the registers are cleared
                let mut docs = [[0u8; 300]; 2];
                let mut lens = [0; 2];
                export!(concat!(stringify!($m), " ecdsa to pkcs8"), docs, lens, |i: usize, o: &mut [u8]| sg[i].to_pkcs8_der(o).map(|x| x.len()));
                two!(concat!(stringify!($m), " ecdsa from pkcs8"), raw_of, |i: usize| ecdsa::SigningKey::<<$k as Ka>::Sig>::from_pkcs8_der(&docs[i][..lens[i]]).unwrap());
                export!(concat!(stringify!($m), " ecdsa to spki"), docs, lens, |i: usize, o: &mut [u8]| sg[i].to_spki_der(o).map(|x| x.len()));
                export!(concat!(stringify!($m), " ecdsa to sec1"), docs, lens, |i: usize, o: &mut [u8]| sg[i].to_sec1_der(o).map(|x| x.len()));
                two!(concat!(stringify!($m), " ecdsa from sec1"), raw_of, |i: usize| ecdsa::SigningKey::<<$k as Ka>::Sig>::from_sec1_der(&docs[i][..lens[i]]).unwrap());
                two!(concat!(stringify!($m), " ecdsa sign"), |_| out.borrow().to_vec(), |i: usize| {
                    rngctl::reset(7, Mode::Stream);
                    let mut o = out.borrow_mut();
                    let n = sg[i].sign::<gh::Sha256>(&[&msg], &mut o[i * 300..(i + 1) * 300]).unwrap().len();
                    std::hint::black_box(n);
                });
                two!(concat!(stringify!($m), " ecdsa sign asn1"), |_| out.borrow().to_vec(), |i: usize| {
                    rngctl::reset(7, Mode::Stream);
                    let mut o = out.borrow_mut();
                    let n = sg[i].sign_asn1::<gh::Sha384>(&[&msg], &mut o[i * 300..(i + 1) * 300]).unwrap().len();
                    std::hint::black_box(n);
                });
            }};
        }
        nist!(K256, p256, 65);
        nist!(K384, p384, 97);
        {
            use eddsa::*;
            let sk: Vec<Ed25519SigningKey> = keys.iter().map(|k| Ed25519SigningKey::from_bytes(k).unwrap()).collect();
            two!("ed25519 sign", |x: &[u8; 64]| x.to_vec(), |i: usize| sk[i].sign(&msg));
            two!("ed25519 from bytes", raw_of, |i: usize| Ed25519SigningKey::from_bytes(&keys[i]).unwrap());
            two!("ed25519 generate", raw_of, |i: usize| {
                rngctl::reset(60 + i as u64, Mode::Stream);
                Ed25519SigningKey::generate().unwrap()
            });
            let (mut docs, mut lens) = ([[0u8; 200]; 2], [0; 2]);
            export!("ed25519 to pkcs8", docs, lens, |i: usize, o: &mut [u8]| sk[i].to_pkcs8_der(o).map(|x| x.len()));
            two!("ed25519 from pkcs8", raw_of, |i: usize| Ed25519SigningKey::from_pkcs8_der(&docs[i][..lens[i]]).unwrap());
        }
        {
            use ka::mlkem768::*;
            let seeds: [[u8; 64]; 2] = [r.arr(), r.arr()];
            let ms: [[u8; 32]; 2] = [r.arr(), r.arr()];
            let ek = DecapKey::keygen_internal(&r.arr()).encapsulation_key();
            two!("ml-kem encaps", |x: &(SharedSecret, Ciphertext)| [x.0.as_ref().to_vec(), x.1.as_ref().to_vec()].concat(), |i: usize| {
                rngctl::reset(ms[i][0] as u64 + 256 * i as u64, Mode::Stream);
                ek.clone().encaps().unwrap()
            });
            let dks = [DecapKey::keygen_internal(&seeds[0]), DecapKey::keygen_internal(&seeds[1])];
            two!("ml-kem encapsulation key", |x: &EncapKey| [x.as_bytes().to_vec(), raw_of(x)].concat(), |i: usize| dks[i].encapsulation_key());
            two!("ml-kem generate", |x: &DecapKey| [x.as_bytes().to_vec(), raw_of(x)].concat(), |i: usize| {
                rngctl::reset(70 + i as u64, Mode::Stream);
                DecapKey::generate().unwrap()
            });
            let dks = std::cell::RefCell::new(dks.map(Some));
            let c = Ciphertext::from([7; 1088]);
            two!("ml-kem decaps", |x: &SharedSecret| x.as_ref().to_vec(), |i: usize| dks.borrow_mut()[i].take().unwrap().decaps(&c));
        }
        if round % 6 == 0 {
            let ks: Vec<&rsa::Key> = rsa_keys().iter().filter(|k| k.bits == 2048).collect();
            let sk: Vec<_> = (0..2).map(|i| graviola::signing::rsa::SigningKey::from_pkcs1_der(&ks[(round / 6 + i) % ks.len()].priv_der()).unwrap()).collect();
            let out = std::cell::RefCell::new([0u8; 512]);
            macro_rules! sign {
                ($($f:ident)*) => {$({
                    two!(concat!("rsa ", stringify!($f)), |_| out.borrow().to_vec(), |i: usize| {
                        rngctl::reset(7, Mode::Stream);
                        sk[i].$f(&mut out.borrow_mut()[i * 256..(i + 1) * 256], &msg).is_ok()
                    });
                })*};
            }
            sign!(sign_pkcs1_sha256 sign_pkcs1_sha384 sign_pkcs1_sha512 sign_pss_sha256 sign_pss_sha384 sign_pss_sha512);
            let (mut docs, mut lens) = (vec![vec![0u8; 2400]; 2], [0; 2]);
            export!("rsa to pkcs8", docs, lens, |i: usize, o: &mut [u8]| sk[i].to_pkcs8_der(o).map(|x| x.len()));
            two!("rsa from pkcs8", raw_of, |i: usize| graviola::signing::rsa::SigningKey::from_pkcs8_der(&docs[i][..lens[i]]).unwrap());
            export!("rsa to pkcs1", docs, lens, |i: usize, o: &mut [u8]| sk[i].to_pkcs1_der(o).map(|x| x.len()));
            two!("rsa from pkcs1", raw_of, |i: usize| graviola::signing::rsa::SigningKey::from_pkcs1_der(&docs[i][..lens[i]]).unwrap());
        }
    }
}

// ---------------------------------------------------------------- Debug text

struct Wrap<'a, T>(&'a T);
trait Quiet {
    fn text(&self) -> Option<String>;
}
impl<T> Quiet for &Wrap<'_, T> {
    fn text(&self) -> Option<String> {
        None
    }
}
trait Prints {
    fn text(&self) -> Option<String>;
}
impl<T: std::fmt::Debug> Prints for Wrap<'_, T> {
    fn text(&self) -> Option<String> {
        Some(format!("{:?}\n{:#?}\n{:x?}", self.0, self.0, self.0))
    }
}
/// Debug text of a value whose type may or may not have any
macro_rules! debug_of {
    ($v:expr) => {
        (&Wrap($v)).text()
    };
}

fn debug(ctx: &mut Ctx) {
    let mut r = ctx.rng("debug");
    // the text must not depend on the secret at all, except through public data
    let judge = |ctx: &mut Ctx, what: &str, a: Option<String>, b: Option<String>| {
        ctx.case(what, format!("{what} {}", ctx.evals));
        if a.is_some() {
            ctx.observe("types with Debug text", 1);
        }
        ctx.check(a == b, "debug-leak", || format!("{what}: Debug text depends on the secret: {}", a.unwrap_or_default().chars().take(300).collect::<String>()));
    };
    for _ in 0..ctx.n(20, 100) {
        let k: [Vec<u8>; 2] = [r.bytes(32), r.bytes(32)];
        macro_rules! t {
            ($what:expr, $mk:expr) => {{
                let mk = $mk;
                let (a, b) = (mk(0usize), mk(1usize));
                judge(ctx, $what, debug_of!(&a), debug_of!(&b));
            }};
        }
        use graviola::aead::*;
        t!("AesGcm", |i: usize| AesGcm::new(&k[i]));
        t!("ChaCha20Poly1305", |i: usize| ChaCha20Poly1305::new(k[i][..].try_into().unwrap()));
        t!("XChaCha20Poly1305", |i: usize| XChaCha20Poly1305::new(k[i][..].try_into().unwrap()));
        t!("x25519 static", |i: usize| ka::x25519::StaticPrivateKey::try_from_slice(&k[i]).unwrap());
        t!("x25519 private", |i: usize| {
            rngctl::reset(i as u64, Mode::Stream);
            ka::x25519::PrivateKey::new_random().unwrap()
        });
        let xp = ka::x25519::StaticPrivateKey::from_array(&r.arr()).public_key();
        t!("x25519 shared", |i: usize| ka::x25519::StaticPrivateKey::try_from_slice(&k[i]).unwrap().diffie_hellman(&xp).unwrap());
        macro_rules! nist {
            ($k:ident, $m:ident) => {{
                let s: [Vec<u8>; 2] = [scalar::<$k>(&mut r), scalar::<$k>(&mut r)];
                let peer = $k::pub_from(&$k::st_pub(&$k::st_from(&scalar::<$k>(&mut r)).unwrap())).unwrap();
                t!(concat!(stringify!($m), " static"), |i: usize| $k::st_from(&s[i]).unwrap());
                t!(concat!(stringify!($m), " private"), |i: usize| {
                    rngctl::reset(i as u64, Mode::Stream);
                    ka::$m::PrivateKey::new_random().unwrap()
                });
                t!(concat!(stringify!($m), " shared"), |i: usize| $k::st_from(&s[i]).unwrap().diffie_hellman(&peer).unwrap());
                t!(concat!(stringify!($m), " ecdsa"), |i: usize| $k::signer(&s[i]).unwrap());
            }};
        }
        nist!(K256, p256);
        nist!(K384, p384);
        t!("ed25519", |i: usize| eddsa::Ed25519SigningKey::from_bytes(&k[i]).unwrap());
        t!("ml-kem decap key", |i: usize| ka::mlkem768::DecapKey::keygen_internal(&[i as u8; 64]));
        t!("ml-kem message", |i: usize| ka::mlkem768::Message(k[i][..].try_into().unwrap()));
        t!("ml-kem shared", |i: usize| ka::mlkem768::DecapKey::keygen_internal(&[i as u8; 64]).decaps(&ka::mlkem768::Ciphertext::from([7; 1088])));
        t!("hmac", |i: usize| gh::hmac::Hmac::<gh::Sha256>::new(&k[i]));
        let ks: Vec<&rsa::Key> = rsa_keys().iter().filter(|k| k.bits == 2048).collect();
        t!("rsa", |i: usize| graviola::signing::rsa::SigningKey::from_pkcs1_der(&ks[i].priv_der()).unwrap());
    }
}

// ---------------------------------------------------------------- dead stack

/// Run f in a thread whose stack is a block of ours, then return what is left in it.
fn on_stack<F: FnOnce() + Send>(area: &mut [u8], f: F) {
    extern "C" fn entry<F: FnOnce() + Send>(p: *mut libc::c_void) -> *mut libc::c_void {
        // SAFETY: p is the Option<F> below, which outlives this thread
        let f = unsafe { (*p.cast::<Option<F>>()).take().unwrap() };
        f();
        std::ptr::null_mut()
    }
    area.fill(0);
    let mut f = Some(f);
    // SAFETY: the area outlives the thread, which is joined here
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        assert_eq!(libc::pthread_attr_init(&mut attr), 0);
        assert_eq!(libc::pthread_attr_setstack(&mut attr, area.as_mut_ptr().cast(), area.len()), 0);
        let mut t: libc::pthread_t = std::mem::zeroed();
        assert_eq!(libc::pthread_create(&mut t, &attr, entry::<F>, (&raw mut f).cast()), 0);
        libc::pthread_join(t, std::ptr::null_mut());
        libc::pthread_attr_destroy(&mut attr);
    }
}

/// length of the longest run of bytes of a secret (either order) left in the area
fn longest(area: &[u8], secrets: &[Vec<u8>]) -> usize {
    let mut best = 0;
    let mut at: std::collections::HashMap<u64, Vec<(usize, usize)>> = Default::default();
    let all: Vec<Vec<u8>> = secrets.iter().flat_map(|s| [s.clone(), s.iter().rev().copied().collect()]).collect();
    for (si, s) in all.iter().enumerate() {
        for (o, w) in s.windows(8).enumerate() {
            at.entry(u64::from_le_bytes(w.try_into().unwrap())).or_default().push((si, o));
        }
    }
    for i in 0..area.len().saturating_sub(7) {
        if area[i] == 0 && area[i + 1] == 0 {
            continue;
        }
        if let Some(v) = at.get(&u64::from_le_bytes(area[i..i + 8].try_into().unwrap())) {
            for &(si, o) in v {
                let n = area[i..].iter().zip(&all[si][o..]).take_while(|(a, b)| a == b).count();
                best = best.max(n);
            }
        }
    }
    best
}

/// Working copies of the private key that an operation makes on the stack, and is
/// careful to wipe: none is left whole when it returns, on success or failure.
fn stack(ctx: &mut Ctx) {
    use num_bigint::BigUint as B;
    let mut r = ctx.rng("stack");
    use graviola::signing::rsa::SigningKey;
    let g = mem::Guarded::new(1 << 20);
    let look = |ctx: &mut Ctx, what: &str, secrets: &[Vec<u8>], whole: usize, f: &mut (dyn FnMut() + Send)| {
        let area = g.all();
        on_stack(area, || f());
        let used = area.iter().position(|b| *b != 0).map_or(0, |x| area.len() - x);
        ctx.observe("stack bytes inspected", used as u64);
        let n = longest(area, secrets);
        ctx.check(n < whole, "stack-residue", || format!("{what}: {n} consecutive secret bytes are still on the stack after it returned"));
    };
    for i in 0..ctx.n(30, 400) {
        if !ctx.more() {
            return;
        }
        let cands: Vec<&rsa::Key> = rsa_keys().iter().filter(|k| k.bits <= 4096).collect();
        let k = cands[r.below(cands.len())];
        let secrets: Vec<Vec<u8>> = [&k.p, &k.q, &k.d, &k.dp, &k.dq, &k.iqmp].iter().map(|x: &&B| x.to_bytes_be()).collect();
        let der = k.priv_der();
        let Ok(sk) = SigningKey::from_pkcs1_der(&der) else { continue };
        let sk = Box::new(sk);
        let whole = k.p.to_bytes_be().len();
        let mut out = vec![0; 9000];
        let fit = sk.to_pkcs8_der(&mut out).unwrap().len();
        let short = if i % 3 == 0 { r.below(fit) } else { 9000 };
        ctx.case("rsa on the stack", format!("key {} bits, output of {short}", k.bits));
        look(ctx, "rsa to_pkcs1_der", &secrets, whole, &mut || {
            let _ = sk.to_pkcs1_der(&mut out[..short]);
        });
        look(ctx, "rsa to_pkcs8_der", &secrets, whole, &mut || {
            let _ = sk.to_pkcs8_der(&mut out[..short]);
        });
    }
    for _ in 0..ctx.n(150, 2000) {
        if !ctx.more() {
            return;
        }
        let (s32, s48) = (scalar::<K256>(&mut r), scalar::<K384>(&mut r));
        let msg = r.bytes(40);
        ctx.case("ecdsa on the stack", format!("scalars {} {}", hex(&s32), hex(&s48)));
        let (Ok(a), Ok(b)) = (ka::p256::StaticPrivateKey::from_bytes(&s32), ka::p384::StaticPrivateKey::from_bytes(&s48)) else { continue };
        let p256 = Box::new(ecdsa::SigningKey::<ecdsa::P256> { private_key: a });
        let p384 = Box::new(ecdsa::SigningKey::<ecdsa::P384> { private_key: b });
        let mut out = vec![0; 200];
        let short = if r.below(3) == 0 { r.below(64) } else { 200 };
        look(ctx, "ecdsa p256 sign", &[s32.clone()], 24, &mut || {
            let _ = p256.sign::<gh::Sha256>(&[&msg], &mut out[..short]);
            let _ = p256.sign_asn1::<gh::Sha384>(&[&msg], &mut out[..short]);
        });
        look(ctx, "ecdsa p384 sign", &[s48.clone()], 36, &mut || {
            let _ = p384.sign::<gh::Sha384>(&[&msg], &mut out[..short]);
            let _ = p384.sign_asn1::<gh::Sha256>(&[&msg], &mut out[..short]);
        });
    }
}

pub fn jobs_c19(_t: bool) -> Vec<Job> {
    let mut v = vec![("debug", "native", 1)];
    for c in ["native", "rel", "noavx512", "min"] {
        v.push(("objects", c, 1));
        v.push(("registers", c, 1));
    }
    for c in ["native", "rel"] {
        v.push(("stack", c, 1));
    }
    v.push(("heap", "native", 1));
    v.push(("heap", "rel", 1));
    v
}

pub fn run_c19(ctx: &mut Ctx) {
    match ctx.section.clone().as_str() {
        "objects" => objects(ctx),
        "heap" => heap(ctx),
        "registers" => registers(ctx),
        "debug" => debug(ctx),
        "stack" => stack(ctx),
        s => panic!("section {s}"),
    }
}
