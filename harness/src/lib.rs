//! Core of the runtime monitors: deterministic generators, case accounting,
//! panic/crash attribution, and a controllable random source for graviola.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod mem;
pub mod rngctl;

/// xoshiro256** seeded through splitmix64: deterministic across machines.
#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            *v = z ^ (z >> 31);
        }
        Self(s)
    }
    pub fn from_label(seed: u64, label: &str) -> Self {
        let mut h = Fnv(0xcbf29ce484222325);
        label.hash(&mut h);
        Self::new(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ h.finish())
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let r = self.u64().to_le_bytes();
            c.copy_from_slice(&r[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut v = [0; N];
        self.fill(&mut v);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// bytes with a bias to structured values: all zero, all ones, sparse, words of ff/00
    pub fn biased(&mut self, n: usize) -> Vec<u8> {
        match self.below(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                let mut v = vec![0; n];
                if n > 0 {
                    let i = self.below(n);
                    v[i] = 1 << self.below(8);
                }
                v
            }
            3 => {
                let mut v = vec![0xff; n];
                if n > 0 {
                    let i = self.below(n);
                    v[i] ^= 1 << self.below(8);
                }
                v
            }
            4 => {
                // runs of 00 / ff
                let mut v = vec![0; n];
                let mut i = 0;
                while i < n {
                    let l = 1 + self.below(12);
                    let b = *self.pick(&[0x00, 0xff, 0x80, 0x01, 0x7f]);
                    for x in v[i..(i + l).min(n)].iter_mut() {
                        *x = b;
                    }
                    i += l;
                }
                v
            }
            _ => self.bytes(n),
        }
    }
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub fn hash64(b: &[u8]) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    h.write(b);
    h.finish()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

/// Shortened hex for long values: keeps the ends and a checksum.
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 160 {
        hex(b)
    } else {
        format!(
            "{}..{}(len {} fnv {:016x})",
            hex(&b[..24]),
            hex(&b[b.len() - 24..]),
            b.len(),
            hash64(b)
        )
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s: String = s.chars().filter(|c| c.is_ascii_hexdigit()).collect();
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

/// Where and why the last panic happened.
#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub loc: String,
}

static LAST_PANIC: Mutex<Option<PanicInfo>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = Some(PanicInfo { msg, loc });
    }));
}

pub fn last_panic() -> PanicInfo {
    LAST_PANIC.lock().unwrap().clone().unwrap_or(PanicInfo {
        msg: "?".into(),
        loc: "?".into(),
    })
}

/// Run code of the library under test; a panic is returned, not propagated.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub struct Ctx {
    pub prop: String,
    pub section: String,
    pub config: String,
    pub shard: usize,
    pub nshards: usize,
    pub tier_thorough: bool,
    pub seed: u64,
    pub evals: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, String>,
    samples: Vec<String>,
    pub fails: Vec<(String, String)>,
    crumb: *mut u8,
    cur: String,
    start: Instant,
    budget: Duration,
    pub truncated: bool,
    out: Option<String>,
}

// SAFETY: the raw pointer is a mapping this process owns for its whole life
unsafe impl Send for Ctx {}

const CRUMB: usize = 1 << 16;

impl Ctx {
    pub fn new(
        prop: &str,
        section: &str,
        config: &str,
        shard: usize,
        nshards: usize,
        out: Option<String>,
    ) -> Self {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
        let budget = std::env::var("GV_BUDGET")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == "thorough" { 1800 } else { 240 });
        let crumb = out
            .as_ref()
            .map(|o| mem::map_file(&format!("{o}.crumb"), CRUMB))
            .unwrap_or(std::ptr::null_mut());
        Self {
            prop: prop.into(),
            section: section.into(),
            config: config.into(),
            shard,
            nshards,
            tier_thorough: tier == "thorough",
            seed,
            evals: 0,
            distinct: HashSet::new(),
            classes: BTreeMap::new(),
            notes: BTreeMap::new(),
            samples: vec![],
            fails: vec![],
            crumb,
            cur: String::new(),
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            truncated: false,
            out,
        }
    }

    pub fn rng(&self, label: &str) -> Rng {
        Rng::from_label(
            self.seed,
            &format!("{}/{}/{}/{}", self.prop, self.section, self.shard, label),
        )
    }

    /// quick or thorough count
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.tier_thorough { thorough } else { quick }
    }

    /// does item i belong to this shard?
    pub fn mine(&self, i: usize) -> bool {
        i % self.nshards == self.shard
    }

    /// soft time budget, so a slow machine still gives an answer
    pub fn more(&mut self) -> bool {
        if self.fails.len() >= 8 {
            return false;
        }
        if self.start.elapsed() > self.budget {
            self.truncated = true;
            return false;
        }
        true
    }

    pub fn crumb(&mut self, s: &str) {
        if !self.crumb.is_null() {
            let b = s.as_bytes();
            let n = b.len().min(CRUMB - 1);
            // SAFETY: mapping of CRUMB bytes, owned by this process
            unsafe {
                std::ptr::copy_nonoverlapping(b.as_ptr(), self.crumb, n);
                *self.crumb.add(n) = 0;
            }
        }
    }

    /// Announce a case: everything until the next call is attributed to it.
    pub fn case(&mut self, class: &str, desc: String) {
        self.evals += 1;
        *self.classes.entry(class.to_string()).or_insert(0) += 1;
        let full = format!("{class}: {desc}");
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(hash64(full.as_bytes()));
        }
        self.crumb(&full);
        if self.classes[class] <= 2 && self.samples.len() < 60 {
            let mut s = full.clone();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
        self.cur = full;
    }

    /// count something the monitor observed (not a case of its own)
    pub fn observe(&mut self, what: &str, n: u64) {
        *self.classes.entry(format!("observed:{what}")).or_insert(0) += n;
    }

    pub fn fail(&mut self, key: &str, msg: String) {
        if self.fails.len() < 50 {
            let m = format!("{} | case {}", msg, self.cur);
            self.fails.push((key.to_string(), m));
            self.flush();
        }
    }

    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            let m = msg();
            self.fail(key, m);
        }
        ok
    }

    pub fn eq(&mut self, key: &str, got: &[u8], want: &[u8]) -> bool {
        if got == want {
            true
        } else {
            let first = got
                .iter()
                .zip(want.iter())
                .position(|(a, b)| a != b)
                .unwrap_or(got.len().min(want.len()));
            self.fail(
                key,
                format!(
                    "got {} want {} (first difference at byte {first})",
                    hexs(got),
                    hexs(want)
                ),
            );
            false
        }
    }

    /// Call the code under test; a panic is a violation of the current case.
    pub fn call<T>(&mut self, key: &str, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(p) => {
                self.fail(
                    &format!("{key}:panic"),
                    format!("panic at {}: {}", p.loc, p.msg),
                );
                None
            }
        }
    }

    pub fn flush(&self) {
        let Some(out) = &self.out else { return };
        let mut s = String::new();
        let esc = |x: &str| x.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t");
        let _ = writeln!(s, "E\t{}", self.evals);
        let _ = writeln!(s, "T\t{}", self.truncated);
        for (k, v) in &self.classes {
            let _ = writeln!(s, "C\t{}\t{}", esc(k), v);
        }
        for (k, v) in &self.notes {
            let _ = writeln!(s, "N\t{}\t{}", esc(k), esc(v));
        }
        for k in &self.samples {
            let _ = writeln!(s, "S\t{}", esc(k));
        }
        for (k, m) in &self.fails {
            let _ = writeln!(s, "F\t{}\t{}", esc(k), esc(m));
        }
        std::fs::write(out, s).unwrap();
    }

    pub fn finish(self) {
        self.flush();
        if let Some(out) = &self.out {
            let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{out}.d")).unwrap());
            for d in &self.distinct {
                let _ = f.write_all(&d.to_le_bytes());
            }
            f.flush().unwrap();
            let mut f = std::fs::OpenOptions::new().append(true).open(out).unwrap();
            let _ = writeln!(f, "DONE\t1");
        } else {
            for (k, m) in &self.fails {
                eprintln!("FAIL {k}: {m}");
            }
            eprintln!(
                "{} {} {} evals {} distinct {} classes {:?} {:.1}s",
                self.prop,
                self.section,
                self.config,
                self.evals,
                self.distinct.len(),
                self.classes,
                self.start.elapsed().as_secs_f64()
            );
        }
    }
}

thread_local! {
    pub static SCRATCH: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
