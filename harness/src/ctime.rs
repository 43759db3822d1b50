//! C20: no branch or address depends on a secret.
//!
//! taint: under valgrind's memcheck secrets are marked undefined, and any branch or
//! address computed from them is reported.
//! trace: natively, every instruction is single-stepped; operations with different
//! secrets must execute the same instructions on the same addresses.
use crate::Job;
use crate::nist::{K256, K384, Ka};
use crate::ops::rsa_keys;
use graviola::hashing as gh;
use graviola::key_agreement as ka;
use graviola::signing::{ecdsa, eddsa};
use harness::rngctl::{self, Mode};
use harness::*;
use std::collections::HashSet;
use std::mem::MaybeUninit;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

// ---------------------------------------------------------------- valgrind requests

fn request(code: u64, a: u64, b: u64) -> u64 {
    let args = [code, a, b, 0, 0, 0];
    let mut r = 0u64;
    // SAFETY: the documented no-op sequence that valgrind recognises
    unsafe {
        std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") r, in("rax") args.as_ptr(), inout("rdi") 0u64 => _);
    }
    r
}
const MC: u64 = 0x4d43_0000;
pub fn secret(p: *const u8, n: usize) {
    request(MC + 1, p as u64, n as u64);
}
pub fn public(p: *const u8, n: usize) {
    request(MC + 2, p as u64, n as u64);
}
fn on_valgrind() -> bool {
    request(0x1001, 0, 0) != 0
}
fn errors() -> u64 {
    request(0x1201, 0, 0)
}

// ---------------------------------------------------------------- the library's annotations

static VERDICTS_PUBLIC: AtomicBool = AtomicBool::new(true);
static AUDIT: Mutex<Option<HashSet<u64>>> = Mutex::new(None);
static LEAKED: AtomicU64 = AtomicU64::new(0);
static MARKED: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];

/// Called by the library (cfg verif_ctgrind) where it declares data public or secret.
#[unsafe(no_mangle)]
unsafe extern "Rust" fn __graviola_verif_mark(p: *const u8, n: usize, what: u8) {
    MARKED[what as usize].fetch_add(1, Relaxed);
    match what {
        1 => secret(p, n),
        2 if !VERDICTS_PUBLIC.load(Relaxed) => (),
        _ => {
            public(p, n);
            // a secret must not be declared public
            if what == 0 {
                if let Some(set) = AUDIT.lock().unwrap().as_ref() {
                    // SAFETY: the library's own object
                    let s = unsafe { std::slice::from_raw_parts(p, n) };
                    if s.windows(8).any(|w| set.contains(&u64::from_le_bytes(w.try_into().unwrap()))) {
                        LEAKED.fetch_add(1, Relaxed);
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- single stepping

const CAP: usize = 3 << 20;
struct Trace {
    /// classify instructions by the extension they belong to, inside this range
    feats: Option<(u64, u64)>,
    seen: [u64; crate::features::CLASSES],
    first: [u64; crate::features::CLASSES],
    steps: u64,
    mem: u64,
    hash: u64,
    log: *mut [u64; 2],
}
static mut CUR: Trace = Trace { feats: None, seen: [0; _], first: [0; _], steps: 0, mem: 0, hash: 0, log: std::ptr::null_mut() };

/// The registers that make up the address of the instruction's memory operand.
/// (The displacement is a constant of the instruction.)
fn address(code: *const u8, g: &[i64; 23]) -> Option<u64> {
    // gregs order of the kernel's signal context
    const MAP: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];
    let reg = |n: usize| g[MAP[n]] as u64;
    // SAFETY: the instruction about to be executed
    let b = |i: usize| unsafe { *code.add(i) } as usize;
    let mut i = 0;
    while matches!(b(i), 0x66 | 0x67 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0xf0) {
        i += 1;
    }
    let (mut x, mut bb) = (0usize, 0usize);
    let (map, op, vec);
    match b(i) {
        0xc5 => (map, op, vec, i) = (1, b(i + 2), true, i + 3),
        0xc4 => {
            x = (!b(i + 1) >> 6) & 1;
            bb = (!b(i + 1) >> 5) & 1;
            (map, op, vec, i) = (b(i + 1) & 31, b(i + 3), true, i + 4)
        }
        0x62 => {
            x = (!b(i + 1) >> 6) & 1;
            bb = (!b(i + 1) >> 5) & 1;
            (map, op, vec, i) = (b(i + 1) & 7, b(i + 4), true, i + 5)
        }
        mut c => {
            if c & 0xf0 == 0x40 {
                x = (c >> 1) & 1;
                bb = c & 1;
                i += 1;
                c = b(i);
            }
            vec = false;
            if c != 0x0f {
                (map, op, i) = (0, c, i + 1);
            } else if b(i + 1) == 0x38 {
                (map, op, i) = (2, b(i + 2), i + 3);
            } else if b(i + 1) == 0x3a {
                (map, op, i) = (3, b(i + 2), i + 3);
            } else {
                (map, op, i) = (1, b(i + 1), i + 2);
            }
        }
    }
    let modrm = match map {
        0 => match op {
            0xa4 | 0xa5 | 0xaa | 0xab | 0xa6 | 0xa7 | 0xae | 0xaf | 0xac | 0xad => return Some(reg(6) ^ reg(7).rotate_left(32)),
            0..=0x3f => op & 7 < 4,
            0x8d => false,
            0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff => true,
            _ => false,
        },
        1 if vec => op != 0x77,
        1 => !matches!(op, 0x05..=0x0b | 0x0d..=0x0f | 0x19..=0x1f | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf),
        _ => true,
    };
    if !modrm {
        return None;
    }
    let m = b(i);
    let (md, rm) = (m >> 6, m & 7);
    if md == 3 || (md == 0 && rm == 5) {
        return None;
    }
    if rm != 4 {
        return Some(reg(rm | bb << 3));
    }
    let s = b(i + 1);
    let (sc, ix, bs) = (s >> 6, (s >> 3 & 7) | x << 3, s & 7);
    let mut ea = if bs == 5 && md == 0 { 0 } else { reg(bs | bb << 3) };
    let gather = vec && map == 2 && matches!(op, 0x90..=0x93 | 0xa0..=0xa3);
    if ix != 4 && !gather {
        ea = ea.wrapping_add(reg(ix) << sc);
    }
    Some(ea)
}

extern "C" fn on_step(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    // SAFETY: the context the kernel passes; CUR is only used by this thread
    unsafe {
        let g = &(*c.cast::<libc::ucontext_t>()).uc_mcontext.gregs;
        let rip = g[16] as u64;
        let t = &mut *(&raw mut CUR);
        if let Some((lo, hi)) = t.feats {
            t.steps += 1;
            if rip >= lo && rip < hi {
                let mut m = crate::features::classify(rip as *const u8);
                while m != 0 {
                    let i = m.trailing_zeros() as usize;
                    m &= m - 1;
                    if t.seen[i] == 0 {
                        t.first[i] = rip - lo;
                    }
                    t.seen[i] += 1;
                }
            }
            return;
        }
        let ea = match address(rip as *const u8, g) {
            Some(a) => {
                t.mem += 1;
                a
            }
            None => 0,
        };
        if (t.steps as usize) < CAP {
            *t.log.add(t.steps as usize) = [rip, ea];
        }
        t.steps += 1;
        t.hash = (t.hash.rotate_left(7) ^ rip).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        t.hash = (t.hash.rotate_left(7) ^ ea).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
}

pub struct Stepper {
    feats: Option<(u64, u64)>,
    logs: [*mut [u64; 2]; 2],
    base: u64,
}

impl Stepper {
    fn new() -> Self {
        // SAFETY: plain system calls
        unsafe {
            let map = |n: usize| libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            let st = libc::stack_t { ss_sp: map(1 << 17), ss_flags: 0, ss_size: 1 << 17 };
            libc::sigaltstack(&st, std::ptr::null_mut());
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_step as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            assert_eq!(libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut()), 0);
            let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
            let exe = std::env::current_exe().unwrap();
            let base = maps.lines().find(|l| l.ends_with(exe.to_str().unwrap())).map(|l| u64::from_str_radix(l.split('-').next().unwrap(), 16).unwrap()).unwrap_or(0);
            Self { feats: None, logs: [map(CAP * 16).cast(), map(CAP * 16).cast()], base }
        }
    }
    /// (steps, memory operands, digest) of f
    #[inline(never)]
    fn step(&self, log: usize, f: &mut dyn FnMut()) -> (u64, u64, u64) {
        // SAFETY: the trap flag only causes on_step to run after each instruction
        unsafe {
            crate::erase::ARENA.start();
            CUR = Trace { feats: self.feats, seen: [0; _], first: [0; _], steps: 0, mem: 0, hash: 0, log: self.logs[log] };
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            f();
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            crate::erase::ARENA.stop();
            let t = &*(&raw const CUR);
            (t.steps, t.mem, t.hash)
        }
    }
    fn difference(&self, n: u64) -> String {
        let n = (n as usize).min(CAP);
        // SAFETY: n logged steps in each
        unsafe {
            for i in 0..n {
                let (a, b) = (*self.logs[0].add(i), *self.logs[1].add(i));
                if a != b {
                    let what = if a[0] != b[0] { "control flow" } else { "memory address" };
                    let at = if a[0] != b[0] && i > 0 { (*self.logs[0].add(i - 1))[0] } else { a[0] };
                    return format!("{what} differs at step {i}, code offset {:#x} ({:x?} / {:x?})", at.wrapping_sub(self.base), a, b);
                }
            }
        }
        format!("differs after step {n}")
    }
}

// ---------------------------------------------------------------- driving one operation

pub enum How {
    Taint,
    Trace(Box<Stepper>),
    /// which instruction-set extensions an operation uses
    Features(Box<Stepper>),
}

struct Run<'a> {
    ctx: &'a mut Ctx,
    how: How,
    only: Option<String>,
    count: usize,
}

/// a copy without marks
fn known(p: *const u8, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    // SAFETY: n readable bytes of a live object
    unsafe { std::ptr::copy_nonoverlapping(p, v.as_mut_ptr(), n) };
    public(v.as_ptr(), n);
    v
}

type Region = (*const u8, usize);

fn region<T: ?Sized>(v: &T) -> Region {
    ((v as *const T).cast(), std::mem::size_of_val(v))
}

/// what the taint monitor needs to know about an operation
#[derive(Clone, Copy)]
struct Policy {
    /// the outcome of a comparison may be branched on
    verdicts: bool,
    /// the library may declare (a copy of) the secret public: it is exported, or hashed for nonce derivation
    export: bool,
}
const PLAIN: Policy = Policy { verdicts: true, export: false };

impl Run<'_> {
    /// `make(rng, i)` builds the i-th state (same public inputs, other secrets), in the
    /// same memory each time; `secrets` are the secret parts of it; `run` is the operation.
    fn op<S>(&mut self, name: &str, n: usize, pol: Policy, make: impl Fn(&mut Rng, usize) -> S, secrets: impl Fn(&S) -> Vec<Region>, run: impl Fn(&mut S)) {
        if !self.ctx.more() || self.only.as_ref().is_some_and(|o| !name.contains(o.as_str())) {
            return;
        }
        self.count += 1;
        if !self.ctx.mine(self.count) {
            return;
        }
        let mut rng = self.ctx.rng(name);
        let mut slot: Box<MaybeUninit<S>> = Box::new(MaybeUninit::uninit());
        match &self.how {
            How::Taint => {
                for i in 0..n {
                    self.ctx.case(name, format!("{name} {i}"));
                    let p = slot.write(make(&mut rng, i));
                    let rs = secrets(p);
                    let mut set = HashSet::new();
                    for &(q, l) in &rs {
                        crate::erase::windows(&mut set, &known(q, l));
                    }
                    *AUDIT.lock().unwrap() = (!pol.export).then_some(set);
                    VERDICTS_PUBLIC.store(pol.verdicts, Relaxed);
                    for &(q, l) in &rs {
                        secret(q, l);
                    }
                    let (e0, l0) = (errors(), LEAKED.load(Relaxed));
                    let m0: Vec<u64> = MARKED.iter().map(|x| x.load(Relaxed)).collect();
                    let r = guard(|| run(p));
                    let (e1, l1) = (errors(), LEAKED.load(Relaxed));
                    *AUDIT.lock().unwrap() = None;
                    VERDICTS_PUBLIC.store(true, Relaxed);
                    for (q, l) in rs.into_iter().chain([region(&*p)]) {
                        public(q, l);
                    }
                    for (k, w) in ["declared public", "declared secret", "comparison results"].iter().enumerate() {
                        self.ctx.observe(&format!("data {w} by the library"), MARKED[k].load(Relaxed) - m0[k]);
                    }
                    if let Err(e) = r {
                        self.ctx.fail("panic", format!("{name}: panic at {}: {}", e.loc, e.msg));
                    }
                    self.ctx.check(e0 == e1, "secret-dependent", || format!("{name}: {} branches or addresses computed from a secret (memcheck report on stderr)", e1 - e0));
                    self.ctx.check(l0 == l1, "declassified", || format!("{name}: the library declared a secret input public"));
                    // SAFETY: written above
                    unsafe { slot.assume_init_drop() };
                }
            }
            How::Features(st) => {
                for i in 0..n.min(self.ctx.n(1, 6)) {
                    self.ctx.case(name, format!("{name} {i}"));
                    let p = slot.write(make(&mut rng, i));
                    let t = st.step(0, &mut || run(p));
                    // SAFETY: written above
                    unsafe { slot.assume_init_drop() };
                    self.ctx.observe("instructions stepped", t.0);
                    // SAFETY: the stepper is off
                    let (seen, first) = unsafe { let c = &*(&raw const CUR); (c.seen, c.first) };
                    crate::features::judge(self.ctx, name, &seen, &first);
                }
            }
            How::Trace(st) => {
                let mut first: Option<(u64, u64, u64)> = None;
                // the first rounds settle caches and lazy initialisation, and show the noise
                let mut stable = false;
                let mut other = 1;
                for warm in 0..7 {
                    let t = life(st, warm & 1, &mut slot, &mut || make(&mut Rng::new(77), 0), &run);
                    if first == Some(t) {
                        stable = true;
                        other = 1 - (warm & 1);
                        break;
                    }
                    if let (Some(f), true) = (first, std::env::var("VERIF_CT_DEBUG").is_ok()) {
                        eprintln!("{name} round {warm}: {f:?} {t:?} {}", st.difference(f.0.min(t.0)));
                    }
                    first = Some(t);
                }
                if !stable {
                    self.ctx.case(name, format!("{name} unstable"));
                    self.ctx.observe("operations whose trace is not reproducible", 1);
                    self.ctx.fail("unstable", format!("{name}: the instruction trace differs between identical calls"));
                    return;
                }
                let first = first.unwrap();
                // the checked builds take more instructions for the same work
                let budget = self.ctx.n(if self.ctx.config == "rel" { 1_500_000 } else { 400_000 }, 60_000_000) as u64 / first.0.max(1);
                for i in 0..n.min((budget as usize).max(3)) {
                    if !self.ctx.more() {
                        return;
                    }
                    self.ctx.case(name, format!("{name} {i}"));
                    let t = life(st, other, &mut slot, &mut || make(&mut rng, i), &run);
                    self.ctx.observe("instructions stepped", t.0);
                    self.ctx.observe("memory operands compared", t.1);
                    if t != first {
                        let d = st.difference(first.0.min(t.0));
                        self.ctx.fail("secret-dependent", format!("{name}: {d}; steps {} / {}", first.0, t.0));
                        break;
                    }
                }
            }
        }
    }
}

/// one state made, worked on under the stepper and dropped, from one place in the code
#[inline(never)]
fn life<S>(st: &Stepper, log: usize, slot: &mut MaybeUninit<S>, make: &mut dyn FnMut() -> S, run: &dyn Fn(&mut S)) -> (u64, u64, u64) {
    let p = slot.write(make());
    let t = st.step(log, &mut || run(p));
    // SAFETY: written above
    unsafe { slot.assume_init_drop() };
    t
}

fn extreme(r: &mut Rng, i: usize, out: &mut [u8]) {
    match i % 8 {
        1 => out.fill(0),
        2 => out.fill(0xff),
        3 => {
            out.fill(0);
            let l = out.len();
            if l > 0 {
                out[l - 1] = 1;
            }
        }
        4 => {
            out.fill(0);
            if !out.is_empty() {
                let b = r.below(out.len());
                out[b] = 1 << r.below(8);
            }
        }
        _ => r.fill(out),
    }
}

struct Seal<K> {
    raw: [u8; 32],
    key: Option<K>,
    buf: [u8; 4200],
    len: usize,
    tag: [u8; 16],
    ok: bool,
}

fn aead_ops(run: &mut Run) {
    use graviola::aead::*;
    const AAD: &[u8] = b"additional data, public";
    let q = match run.how {
        How::Taint => run.ctx.n(4, 24),
        How::Features(_) => 2,
        How::Trace(_) => run.ctx.n(9, 60),
    };
    macro_rules! alg {
        ($name:expr, $k:ty, $kl:expr, $nl:expr, $new:expr) => {{
            let mk = |r: &mut Rng, i: usize, len: usize| {
                let mut s = Seal::<$k> { raw: [0; 32], key: None, buf: [0; 4200], len, tag: [0; 16], ok: false };
                extreme(r, i, &mut s.raw[..$kl]);
                extreme(r, i / 8 + i, &mut s.buf[..len]);
                s
            };
            let new: fn(&[u8]) -> $k = $new;
            run.op(&format!("{} new", $name), q, PLAIN, |r, i| mk(r, i, 0), |s| vec![region(&s.raw[..$kl])], |s| s.key = Some(new(&s.raw[..$kl])));
            for len in [0usize, 1, 16, 33, 129, 255, 256, 700, 4096] {
                run.op(&format!("{} encrypt {len}", $name), q, PLAIN, |r, i| {
                    let mut s = mk(r, i, len);
                    if matches!(std::env::var("VERIF_CT").as_deref(), Ok("taint")) {
                        // the key object is made from tainted bytes
                        return s;
                    }
                    s.key = Some(new(&s.raw[..$kl]));
                    s
                }, |s| vec![region(&s.raw[..$kl]), region(&s.buf[..len])], |s| {
                    if s.key.is_none() {
                        s.key = Some(new(&s.raw[..$kl]));
                    }
                    s.key.as_ref().unwrap().encrypt(&[7; $nl], AAD, &mut s.buf[..s.len], &mut s.tag)
                });
                for good in [true, false] {
                    run.op(&format!("{} decrypt {} {len}", $name, if good { "genuine" } else { "forged" }), q, PLAIN, |r, i| {
                        let mut s = mk(r, i, len);
                        let k = new(&s.raw[..$kl]);
                        k.encrypt(&[7; $nl], AAD, &mut s.buf[..len], &mut s.tag);
                        if !good {
                            // wrong in the first, the last, one, or every byte
                            match i % 4 {
                                0 => s.tag[0] ^= 1,
                                1 => s.tag[15] ^= 0x80,
                                2 => s.tag[r.below(16)] ^= 4,
                                _ => s.tag.iter_mut().for_each(|b| *b = !*b),
                            }
                        }
                        if !matches!(std::env::var("VERIF_CT").as_deref(), Ok("taint")) {
                            s.key = Some(k);
                        }
                        s
                    }, |s| vec![region(&s.raw[..$kl])], |s| {
                        if s.key.is_none() {
                            s.key = Some(new(&s.raw[..$kl]));
                        }
                        s.ok = s.key.as_ref().unwrap().decrypt(&[7; $nl], AAD, &mut s.buf[..s.len], &s.tag).is_ok();
                    });
                }
            }
        }};
    }
    alg!("aes-128-gcm", AesGcm, 16, 12, |k| AesGcm::new(k));
    alg!("aes-256-gcm", AesGcm, 32, 12, |k| AesGcm::new(k));
    alg!("chacha20poly1305", ChaCha20Poly1305, 32, 12, |k| ChaCha20Poly1305::new(k.try_into().unwrap()));
    alg!("xchacha20poly1305", XChaCha20Poly1305, 32, 24, |k| XChaCha20Poly1305::new(k.try_into().unwrap()));
}

fn hash_ops(run: &mut Run) {
    use gh::hmac::Hmac;
    use gh::{Hash, HashContext};
    let q = match run.how {
        How::Taint => run.ctx.n(3, 20),
        How::Features(_) => 2,
        How::Trace(_) => run.ctx.n(8, 40),
    };
    struct S {
        key: [u8; 300],
        msg: [u8; 1000],
        out: [u8; 64],
        tag: [u8; 64],
        ok: bool,
    }
    let mk = |r: &mut Rng, i: usize| {
        let mut s = S { key: [0; 300], msg: [0; 1000], out: [0; 64], tag: [0; 64], ok: false };
        extreme(r, i, &mut s.key);
        extreme(r, i + i / 8, &mut s.msg);
        s
    };
    macro_rules! h {
        ($h:ty, $name:expr, $n:expr) => {{
            for (kl, ml) in [(0, 0), (1, 55), (32, 111), (64, 128), (65, 300), (128, 64), (129, 1000), (300, 17)] {
                run.op(&format!("hmac-{} key {kl} message {ml}", $name), q, PLAIN, mk, |s| vec![region(&s.key[..kl]), region(&s.msg[..ml])], |s| {
                    let mut h = Hmac::<$h>::new(&s.key[..kl]);
                    h.update(&s.msg[..ml]);
                    s.out[..$n].copy_from_slice(h.finish().as_ref());
                });
                run.op(&format!("{} message {ml}", $name), q, PLAIN, mk, |s| vec![region(&s.msg[..ml])], |s| {
                    let mut h = <$h>::new();
                    h.update(&s.msg[..ml / 2]);
                    h.update(&s.msg[ml / 2..ml]);
                    s.out[..$n].copy_from_slice(h.finish().as_ref());
                });
            }
            for good in [true, false] {
                run.op(&format!("hmac-{} verify {}", $name, if good { "genuine" } else { "forged" }), q * 2, PLAIN, |r, i| {
                    let mut s = mk(r, i);
                    let mut h = Hmac::<$h>::new(&s.key[..40]);
                    h.update(&s.msg[..200]);
                    s.tag[..$n].copy_from_slice(h.finish().as_ref());
                    if !good {
                        match i % 4 {
                            0 => s.tag[0] ^= 1,
                            1 => s.tag[$n - 1] ^= 0x80,
                            2 => s.tag[r.below($n)] ^= 4,
                            _ => s.tag.iter_mut().for_each(|b| *b = !*b),
                        }
                    }
                    s
                }, |s| vec![region(&s.key[..40])], |s| {
                    let mut h = Hmac::<$h>::new(&s.key[..40]);
                    h.update(&s.msg[..200]);
                    s.ok = h.verify(&s.tag[..$n]).is_ok();
                });
            }
        }};
    }
    h!(gh::Sha256, "sha256", 32);
    h!(gh::Sha384, "sha384", 48);
    h!(gh::Sha512, "sha512", 64);
}

fn curve_ops(run: &mut Run) {
    let q = match run.how {
        How::Taint => run.ctx.n(3, 12),
        How::Features(_) => 2,
        How::Trace(_) => run.ctx.n(9, 50),
    };
    let mut r = run.ctx.rng("peers");
    {
        use ka::x25519::*;
        struct S {
            raw: [u8; 32],
            sk: Option<StaticPrivateKey>,
            out: [u8; 32],
        }
        let mk = |r: &mut Rng, i: usize| {
            let mut raw = [0; 32];
            extreme(r, i, &mut raw);
            S { raw, sk: Some(StaticPrivateKey::from_array(&raw)), out: [0; 32] }
        };
        let peer = StaticPrivateKey::from_array(&r.arr()).public_key();
        run.op("x25519 import", q, PLAIN, |r, i| S { sk: None, ..mk(r, i) }, |s| vec![region(&s.raw)], |s| s.sk = Some(StaticPrivateKey::from_array(&s.raw)));
        run.op("x25519 public key", q, PLAIN, mk, |s| vec![region(s.sk.as_ref().unwrap())], |s| s.out = s.sk.as_ref().unwrap().public_key().as_bytes());
        run.op("x25519 dh", q, PLAIN, mk, |s| vec![region(s.sk.as_ref().unwrap())], |s| s.out = s.sk.as_ref().unwrap().diffie_hellman(&peer).unwrap().0);
        run.op("x25519 drop", q, PLAIN, mk, |s| vec![region(s.sk.as_ref().unwrap())], |s| {
            let p: *mut StaticPrivateKey = s.sk.as_mut().unwrap();
            // SAFETY: dropped again later, which zeroises zeroes
            unsafe { std::ptr::drop_in_place(p) };
        });
    }
    macro_rules! nist {
        ($k:ident, $m:ident, $n:literal, $l:literal) => {{
            struct S {
                raw: [u8; $l],
                sk: Option<ka::$m::StaticPrivateKey>,
                sig: Option<ecdsa::SigningKey<<$k as Ka>::Sig>>,
                out: [u8; 2 * $l + 1],
            }
            let scalar = |r: &mut Rng, i: usize| {
                let mut raw = [0u8; $l];
                let n = $k::curve().n.to_bytes_be();
                match i % 9 {
                    1 => raw[$l - 1] = 1,
                    2 => {
                        raw.copy_from_slice(&n);
                        raw[$l - 1] -= 1;
                    }
                    3 => raw[0] = 0x80,
                    4 => raw[$l - 1 - r.below($l)] |= 1 << r.below(8),
                    5 => raw[$l / 2..].fill(0xff),
                    6 => raw.copy_from_slice(&(&$k::curve().n >> 1usize).to_bytes_be()),
                    _ => {
                        r.fill(&mut raw);
                        raw[0] &= 0x7f;
                    }
                }
                raw
            };
            let mk = |r: &mut Rng, i: usize| {
                let raw = scalar(r, i);
                S { raw, sk: Some($k::st_from(&raw).unwrap()), sig: Some($k::signer(&raw).unwrap()), out: [0; 2 * $l + 1] }
            };
            let peer = $k::pub_from(&$k::st_pub(&$k::st_from(&scalar(&mut r, 0)).unwrap())).unwrap();
            if let How::Trace(_) = run.how {
                // the range check's outcome is public, but every valid key must look the same
                run.op(concat!($n, " import"), q, PLAIN, |r, i| S { sk: None, sig: None, ..mk(r, i) }, |_| vec![], |s| s.sk = $k::st_from(&s.raw).ok());
            }
            run.op(concat!($n, " public key"), q, PLAIN, mk, |s| vec![region(s.sk.as_ref().unwrap())], |s| s.out = s.sk.as_ref().unwrap().public_key_uncompressed());
            run.op(concat!($n, " dh"), q, PLAIN, mk, |s| vec![region(s.sk.as_ref().unwrap())], |s| s.out[..$l].copy_from_slice(&s.sk.as_ref().unwrap().diffie_hellman(&peer).unwrap().0));
            run.op(concat!($n, " export"), q, Policy { export: true, ..PLAIN }, mk, |s| vec![region(s.sk.as_ref().unwrap())], |s| s.out[..$l].copy_from_slice(&s.sk.as_ref().unwrap().as_bytes()));
            run.op(concat!($n, " ecdsa sign"), q, Policy { export: true, ..PLAIN }, |r, i| {
                let s = mk(r, i);
                rngctl::reset(r.u64(), Mode::Stream);
                rngctl::with(|s| s.keep_log = false);
                s
            }, |s| vec![region(s.sig.as_ref().map(|k| &k.private_key).unwrap())], |s| {
                s.sig.as_ref().unwrap().sign::<gh::Sha256>(&[b"a public message"], &mut s.out).unwrap();
            });
            run.op(concat!($n, " drop"), q, PLAIN, mk, |s| vec![region(s.sk.as_ref().unwrap())], |s| {
                let p: *mut ka::$m::StaticPrivateKey = s.sk.as_mut().unwrap();
                // SAFETY: dropped again later, which zeroises zeroes
                unsafe { std::ptr::drop_in_place(p) };
            });
        }};
    }
    nist!(K256, p256, "p-256", 32);
    nist!(K384, p384, "p-384", 48);
    {
        use eddsa::*;
        struct S {
            raw: [u8; 32],
            sk: Option<Ed25519SigningKey>,
            out: [u8; 64],
        }
        let taint = matches!(run.how, How::Taint);
        let mk = |r: &mut Rng, i: usize| {
            let mut raw = [0; 32];
            extreme(r, i, &mut raw);
            S { raw, sk: if taint { None } else { Ed25519SigningKey::from_bytes(&raw).ok() }, out: [0; 64] }
        };
        run.op("ed25519 import", q, PLAIN, |r, i| S { sk: None, ..mk(r, i) }, |s| vec![region(&s.raw)], |s| s.sk = Ed25519SigningKey::from_bytes(&s.raw).ok());
        for l in [0usize, 64, 1000] {
            let msg = r.bytes(l);
            run.op(&format!("ed25519 sign {l}"), q, PLAIN, mk, |s| vec![region(&s.raw)], |s| {
                if s.sk.is_none() {
                    s.sk = Ed25519SigningKey::from_bytes(&s.raw).ok();
                }
                s.out = s.sk.as_ref().unwrap().sign(&msg);
            });
        }
    }
}

fn mlkem_ops(run: &mut Run) {
    use ka::mlkem768::*;
    let q = match run.how {
        How::Taint => run.ctx.n(4, 20),
        How::Features(_) => 2,
        How::Trace(_) => run.ctx.n(12, 60),
    };
    let taint = matches!(run.how, How::Taint);
    struct S {
        seed: [u8; 64],
        dk: Option<DecapKey>,
        ek: Option<EncapKey>,
        m: Option<Message>,
        c: Ciphertext,
        out: Option<SharedSecret>,
        oc: Option<Ciphertext>,
    }
    let mk = |r: &mut Rng, i: usize, fixed_d: bool| {
        let mut seed = [0; 64];
        extreme(r, i, &mut seed);
        if fixed_d {
            seed[..32].fill(9);
        }
        S { seed, dk: None, ek: None, m: None, c: Ciphertext::from([0; 1088]), out: None, oc: None }
    };
    // rejection sampling of the public matrix depends on rho: with rho fixed, on z only
    run.op("ml-kem keygen", q, PLAIN, |r, i| mk(r, i, !taint), |s| vec![region(&s.seed)], |s| s.dk = Some(DecapKey::keygen_internal(&s.seed)));
    let peer = DecapKey::keygen_internal(&[4; 64]).encapsulation_key();
    run.op("ml-kem encaps", q, PLAIN, |r, i| {
        let mut s = mk(r, i, true);
        s.ek = Some(peer.clone());
        let mut m = [0; 32];
        extreme(r, i, &mut m);
        s.m = Some(Message(m));
        s
    }, |s| vec![region(s.m.as_ref().unwrap())], |s| {
        let (k, c) = s.ek.take().unwrap().encaps_internal(s.m.take().unwrap());
        s.out = Some(k);
        s.oc = Some(c);
    });
    // genuine and altered ciphertexts must look the same
    run.op("ml-kem decaps", q, Policy { verdicts: false, ..PLAIN }, |r, i| {
        let mut s = mk(r, i, false);
        let dk = DecapKey::keygen_internal(&s.seed);
        let mut m = [0; 32];
        extreme(r, i / 2, &mut m);
        let (_, c) = dk.encapsulation_key().encaps_internal(Message(m));
        s.c = match i % 3 {
            0 => c,
            1 => {
                let mut b: [u8; 1088] = *AsRef::<[u8; 1088]>::as_ref(&c);
                b[r.below(1088)] ^= 1 << r.below(8);
                Ciphertext::from(b)
            }
            _ => {
                let mut b = [0; 1088];
                extreme(r, i, &mut b);
                Ciphertext::from(b)
            }
        };
        if !taint {
            s.dk = Some(dk);
        }
        s
    }, |s| vec![region(&s.seed)], |s| {
        if s.dk.is_none() {
            s.dk = Some(DecapKey::keygen_internal(&s.seed));
        }
        s.out = Some(s.dk.as_ref().unwrap().decaps_internal(&s.c));
    });
}

fn rsa_ops(run: &mut Run) {
    use graviola::signing::rsa::SigningKey;
    let taint = matches!(run.how, How::Taint);
    struct S {
        sk: SigningKey,
        secrets: Vec<Region>,
        out: [u8; 1024],
        len: usize,
        msg: [u8; 40],
    }
    let keys: Vec<&crate::rsa::Key> = rsa_keys().iter().collect();
    for (ki, k) in keys.iter().enumerate() {
        let bits = k.bits;
        // the modulus must be usable with its primes in either order
        let ders = [crate::rsa::Key::new("", k.p.clone(), k.q.clone(), k.e.clone()).priv_der(), crate::rsa::Key::new("", k.q.clone(), k.p.clone(), k.e.clone()).priv_der()];
        if ders.iter().any(|d| SigningKey::from_pkcs1_der(d).is_err()) {
            run.ctx.observe("RSA keys left out: refused with their primes swapped", 1);
            continue;
        }
        if bits > run.ctx.n(if taint { 3100 } else { 2100 }, 4200) || (bits == 2048 && ki % 3 != 0 && run.ctx.n(0, 1) == 0) {
            continue;
        }
        for pss in [false, true] {
            if pss && !taint && run.ctx.n(0, 1) == 0 {
                continue;
            }
            let n = if taint { run.ctx.n(2, 8) } else { run.ctx.n(2, 6) };
            run.op(&format!("rsa {bits} #{ki} sign {}", if pss { "pss" } else { "pkcs1" }), n, PLAIN, |r, i| {
                // the same modulus with its primes the other way round is another secret key
                let sk = SigningKey::from_pkcs1_der(&ders[i % 2]).unwrap();
                rngctl::reset(3, Mode::Stream);
                rngctl::with(|s| s.keep_log = false);
                let mut msg = [5; 40];
                if taint {
                    r.fill(&mut msg);
                }
                S { sk, secrets: vec![], out: [0; 1024], len: bits.div_ceil(8), msg }
            }, |s| {
                if !taint {
                    return vec![];
                }
                // the words of the secret components, wherever the key object keeps them
                let mut set = HashSet::new();
                let other = crate::rsa::Key::new("", k.q.clone(), k.p.clone(), k.e.clone());
                let mont = |m: &num_bigint::BigUint, v: &num_bigint::BigUint| (v << (64 * m.bits().div_ceil(64) as usize)) % m;
                for v in [&k.p, &k.q, &k.d, &k.dp, &k.dq, &k.iqmp, &other.iqmp, &mont(&k.p, &k.iqmp), &mont(&k.q, &other.iqmp)] {
                    for w in v.to_u64_digits() {
                        if w.to_le_bytes().iter().filter(|b| !matches!(**b, 0 | 0xff)).count() > 4 {
                            set.insert(w);
                        }
                    }
                }
                // words the public modulus happens to contain stay public
                for w in k.n.to_u64_digits() {
                    set.remove(&w);
                }
                let (p, n) = region(&s.sk);
                let b = known(p, n);
                (0..n / 8).filter(|i| set.contains(&u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()))).map(|i| (p.wrapping_add(8 * i), 8)).collect()
            }, |s| {
                let out = &mut s.out[..s.len];
                let r = if pss { s.sk.sign_pss_sha256(out, &s.msg).is_ok() } else { s.sk.sign_pkcs1_sha256(out, &s.msg).is_ok() };
                assert!(r);
                let _ = &s.secrets;
            });
        }
    }
}

pub fn jobs_c20(t: bool) -> Vec<Job> {
    let mut v = vec![("trace-public", "rel", 22), ("trace-sym", "rel", 4), ("trace-sym", "native", 3), ("trace-sym", "min", 3)];
    if t {
        v.push(("trace-rsa", "rel", 8));
        v.push(("trace-public", "min", 22));
    }
    v
}

pub fn run_c20(ctx: &mut Ctx) {
    let s = ctx.section.clone();
    let only = std::env::var("VERIF_CT_ONLY").ok();
    let how = match s.as_str() {
        s if s.starts_with("taint") => {
            if !on_valgrind() {
                panic!("the taint section runs under valgrind");
            }
            // the monitor must see what it claims to see
            ctx.case("self-check", "a branch on tainted data is reported".into());
            let b = Box::new([1u8; 8]);
            let e = errors();
            secret(b.as_ptr(), 8);
            if std::hint::black_box(b[0]) > 3 {
                std::hint::black_box(&b);
            }
            public(b.as_ptr(), 8);
            assert!(errors() > e, "memcheck does not report tainted branches");
            // SAFETY: single-threaded
            unsafe { std::env::set_var("VERIF_CT", "taint") };
            How::Taint
        }
        _ => How::Trace(Box::new(Stepper::new())),
    };
    drive(ctx, how, only, &s);
}

pub fn run_features(ctx: &mut Ctx) {
    let mut st = Box::new(Stepper::new());
    let exe = std::env::current_exe().unwrap();
    // the library is linked into the executable; shared libraries choose for themselves
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let ends: Vec<u64> = maps.lines().filter(|l| l.ends_with(exe.to_str().unwrap())).flat_map(|l| l.split(' ').next().unwrap().split('-').map(|x| u64::from_str_radix(x, 16).unwrap()).collect::<Vec<_>>()).collect();
    st.feats = Some((*ends.iter().min().unwrap(), *ends.iter().max().unwrap()));
    let s = ctx.section.clone();
    drive(ctx, How::Features(st), std::env::var("VERIF_CT_ONLY").ok(), &s);
}

fn drive(ctx: &mut Ctx, how: How, only: Option<String>, s: &str) {
    let mut run = Run { ctx, how, only, count: 0 };
    if s.ends_with("-rsa") {
        rsa_ops(&mut run);
        return;
    }
    if !s.ends_with("-public") {
        aead_ops(&mut run);
        hash_ops(&mut run);
    }
    if !s.ends_with("-sym") {
        curve_ops(&mut run);
        mlkem_ops(&mut run);
    }
}
