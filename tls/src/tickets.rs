//! C26: session tickets.
use crate::Job;
use harness::rngctl::{self, Mode};
use harness::*;
use rustls::server::ProducesTickets;
use std::collections::HashSet;
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

/// The clock this process sees: the real one, moved.
static SHIFT: AtomicI64 = AtomicI64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);

// SAFETY: same contract as libc's
#[unsafe(no_mangle)]
unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    // SAFETY: the caller's arguments are passed on
    unsafe {
        let r = libc::syscall(libc::SYS_clock_gettime, clk, ts) as i32;
        if r == 0 && clk == libc::CLOCK_REALTIME {
            READS.fetch_add(1, Ordering::Relaxed);
            (*ts).tv_sec += SHIFT.load(Ordering::Relaxed);
        }
        r
    }
}

type T = Arc<dyn ProducesTickets>;

fn new(ctx: &mut Ctx) -> T {
    match ctx.call("new", rustls_graviola::Ticketer::new) {
        Some(Ok(t)) => t,
        x => {
            ctx.fail("new", format!("no ticketer: {:?}", x.map(|x| x.map(|_| ()))));
            panic!("no ticketer");
        }
    }
}

fn encrypt(ctx: &mut Ctx, t: &T, state: &[u8]) -> Option<Vec<u8>> {
    match ctx.call("encrypt", || t.encrypt(state))? {
        Some(x) => Some(x),
        None => {
            ctx.fail("encrypt", format!("no ticket for a state of {} bytes", state.len()));
            None
        }
    }
}

fn good(ctx: &mut Ctx, t: &T, ticket: &[u8], state: &[u8], when: &str) {
    match ctx.call("decrypt", || t.decrypt(ticket)) {
        Some(Some(x)) => {
            ctx.eq("state", &x, state);
        }
        // an empty state says nothing
        Some(None) if state.is_empty() => (),
        Some(None) => ctx.fail("own ticket", format!("{when}: a ticket for {} bytes is not recognised", state.len())),
        None => (),
    }
}

fn bad(ctx: &mut Ctx, t: &T, ticket: &[u8], what: &str) {
    ctx.evals += 1;
    match ctx.call("decrypt", || t.decrypt(ticket)) {
        Some(None) => ctx.observe("strings refused", 1),
        Some(Some(x)) => ctx.fail("accepted", format!("{what}: {} decrypts to {}", hexs(ticket), hexs(&x))),
        None => (),
    }
}

fn state(r: &mut Rng, i: usize) -> Vec<u8> {
    let n = if i < 260 {
        i
    } else {
        match r.below(8) {
            0 => 60_000 + r.below(5000),
            1 => r.below(20_000),
            _ => r.below(2000),
        }
    };
    if r.below(5) == 0 { r.biased(n) } else { r.bytes(n) }
}

/// same bytes in the same place
fn same(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).filter(|(x, y)| x == y).count()
}

fn roundtrip(ctx: &mut Ctx) {
    let mut r = ctx.rng("roundtrip");
    let n = ctx.n(900, 8000);
    let mut i = ctx.shard;
    while i < n && ctx.more() {
        let t = new(ctx);
        // a history: many tickets outstanding at once, of changing sizes
        let mut out: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        for _ in 0..1 + r.below(30) {
            let s = state(&mut r, i);
            i += ctx.nshards;
            ctx.case("ticket", format!("state of {} bytes {}, after {} others", s.len(), hexs(&s), out.len()));
            let Some(a) = encrypt(ctx, &t, &s) else { continue };
            let Some(b) = encrypt(ctx, &t, &s) else { continue };
            good(ctx, &t, &a, &s, "at once");
            good(ctx, &t, &b, &s, "at once");
            ctx.check(a != b, "repeats", || "two tickets for one state are the same".into());
            // nothing of the state shows
            if s.len() >= 8 {
                let w: HashSet<&[u8]> = s.windows(8).filter(|w| w.iter().any(|b| *b != w[0])).collect();
                for t in [&a, &b] {
                    ctx.check(!t.windows(8).any(|x| w.contains(x)), "in clear", || format!("eight bytes of the state are in the ticket {}", hexs(t)));
                }
            }
            // a key name may repeat; a nonce or key stream may not
            if a.len() == b.len() {
                let eq = same(&a, &b);
                ctx.check(eq <= 16 + 8 + a.len() / 16, "repeats", || format!("two tickets for one state agree in {eq} of {} bytes", a.len()));
            }
            for (s2, c) in out.iter().rev().take(6) {
                let m = s.len().min(s2.len());
                if m >= 16 && s[..m] != s2[..m] {
                    // c1 ^ c2 == s1 ^ s2 means the key stream was used twice
                    for off in 0..=(a.len() - s.len()).min(c.len() - s2.len()) {
                        let hit = (0..m).filter(|k| a[off + k] ^ c[off + k] == s[*k] ^ s2[*k]).count();
                        ctx.check(hit < m / 2 + 8, "key stream", || format!("key stream of two tickets agrees in {hit} of {m} bytes at {off}"));
                    }
                    ctx.observe("pairs of tickets compared for key stream reuse", 1);
                }
            }
            out.push((s.clone(), a));
            out.push((s, b));
            if r.below(3) == 0 {
                let (s, c) = r.pick(&out).clone();
                good(ctx, &t, &c, &s, "later");
            }
        }
        for (s, c) in &out {
            good(ctx, &t, c, s, "at the end");
        }
        // another ticketer knows none of them
        let u = new(ctx);
        let _ = encrypt(ctx, &u, &vec![1; 70_000]);
        for (_, c) in &out {
            bad(ctx, &u, c, "another ticketer's ticket");
        }
    }
}

fn alter(ctx: &mut Ctx) {
    let mut r = ctx.rng("alter");
    for round in 0..ctx.n(24, 200) {
        if !ctx.mine(round) || !ctx.more() {
            continue;
        }
        let t = new(ctx);
        // so that length alone refuses nothing
        let big = vec![7; 40_000];
        let big_ticket = encrypt(ctx, &t, &big);
        let s = r.bytes(*r.clone().pick(&[1usize, 2, 15, 16, 17, 48, 100, 200, 333]));
        ctx.case("altered", format!("round={round} state={}", hexs(&s)));
        let (Some(a), Some(b)) = (encrypt(ctx, &t, &s), encrypt(ctx, &t, &s)) else { continue };
        for i in 0..a.len() {
            for x in [1u8, 0x80, 1 << r.below(8), r.u64() as u8 | 4] {
                let mut c = a.clone();
                c[i] ^= x;
                bad(ctx, &t, &c, &format!("byte {i} xor {x:#x}"));
            }
            bad(ctx, &t, &a[..i], &format!("cut to {i}"));
            bad(ctx, &t, &a[i + 1..], &format!("first {} bytes gone", i + 1));
            let mut c = a.clone();
            c.remove(i);
            if c != a {
                bad(ctx, &t, &c, &format!("byte {i} left out"));
            }
            let mut c = a.clone();
            c.insert(i, r.u64() as u8);
            bad(ctx, &t, &c, &format!("a byte put in at {i}"));
            // one ticket grafted on another
            if i > 0 && a[..i] != b[..i] && a[i..] != b[i..] {
                bad(ctx, &t, &[&a[..i], &b[i..]].concat(), &format!("two tickets joined at {i}"));
            }
        }
        for n in [1, 2, 8, 16, 17, 64] {
            for z in [vec![0; n], r.bytes(n)] {
                bad(ctx, &t, &[&a[..], &z].concat(), &format!("{n} bytes added"));
                bad(ctx, &t, &[&z, &a[..]].concat(), &format!("{n} bytes put before"));
            }
        }
        bad(ctx, &t, &[&a[..], &a[..]].concat(), "a ticket twice");
        if let Some(bt) = &big_ticket {
            bad(ctx, &t, &[&a[..], &bt[a.len()..]].concat(), "a long ticket with a short one's start");
        }
        // strings that were never tickets, of every length
        for n in 0..220 {
            bad(ctx, &t, &vec![0; n], &format!("{n} zeros"));
            let z = r.biased(n);
            bad(ctx, &t, &z, "made up");
            // with a real beginning
            let k = n.min(a.len() - 1);
            let mut z = r.bytes(n);
            z[..k.min(16)].copy_from_slice(&a[..k.min(16)]);
            bad(ctx, &t, &z, "made up after a true key name");
            if k >= 40 {
                z[..40].copy_from_slice(&a[..40]);
                bad(ctx, &t, &z, "made up after a true key name and nonce");
            }
        }
        for n in [1000, 40_000, 70_000, 200_000] {
            bad(ctx, &t, &r.bytes(n), &format!("{n} random bytes"));
        }
        good(ctx, &t, &a, &s, "after all that");
        good(ctx, &t, &b, &s, "after all that");
    }
}

const HOUR: i64 = 3600;

/// a day or two in the life of a ticketer
fn rotate(ctx: &mut Ctx) {
    let mut r = ctx.rng("rotate");
    let before = READS.load(Ordering::Relaxed);
    let _ = std::time::SystemTime::now();
    assert!(READS.load(Ordering::Relaxed) > before, "the clock is not ours");
    for round in 0..ctx.n(60, 600) {
        if !ctx.mine(round) || !ctx.more() {
            continue;
        }
        SHIFT.store(0, Ordering::Relaxed);
        let t = new(ctx);
        let life = t.lifetime() as i64;
        ctx.check(t.enabled(), "enabled", || "a ticketer that makes no tickets".into());
        let mut out: Vec<(i64, Vec<u8>, Vec<u8>)> = vec![];
        let mut now = 0i64;
        let step = *r.pick(&[HOUR / 2, HOUR, 2 * HOUR, 3 * HOUR]);
        ctx.case("rotation", format!("round={round} every {step} s, lifetime {life} s"));
        for _ in 0..(40 * HOUR / step) {
            now += 1 + r.below(step as usize) as i64;
            SHIFT.store(now, Ordering::Relaxed);
            let n = 1 + r.below(400);
            let s = r.bytes(n);
            if let Some(c) = encrypt(ctx, &t, &s) {
                good(ctx, &t, &c, &s, "at once");
                out.push((now, s, c));
            }
            for (at, s, c) in &out {
                ctx.evals += 1;
                let age = now - at;
                if age < life / 2 {
                    // half the lifetime is how long a key stays current
                    good(ctx, &t, c, s, &format!("{age} s old"));
                    ctx.observe("tickets younger than half the lifetime honoured", 1);
                } else if age > life + step + 2 {
                    bad(ctx, &t, c, &format!("a ticket {age} s old, lifetime {life} s"));
                    ctx.observe("tickets past their lifetime refused", 1);
                } else if let Some(Some(x)) = ctx.call("decrypt", || t.decrypt(c)) {
                    ctx.eq("state", &x, s);
                }
            }
            // keys of two periods have nothing in common
            if let [(a0, _, a), .., (b0, _, b)] = &out[..] {
                if b0 - a0 > life && a.len() >= 16 && b.len() >= 16 {
                    ctx.check(same(&a[..16], &b[..16]) < 8, "not rotated", || format!("tickets {} s apart begin with the same key name", b0 - a0));
                }
            }
            out.retain(|o| now - o.0 < 2 * life + 4 * HOUR);
        }
        // the random source fails just when a key is due
        now += life;
        SHIFT.store(now, Ordering::Relaxed);
        rngctl::with(|s| {
            s.calls = 0;
            s.fail_at = Some(0);
            s.fail_all = true;
        });
        ctx.case("rotation without randomness", format!("round={round}"));
        let x = ctx.call("encrypt", || t.encrypt(b"state"));
        ctx.check(!matches!(x, Some(Some(_))), "no randomness", || "a ticket was made although the random source fails".into());
        let _ = ctx.call("decrypt", || t.decrypt(&out.last().unwrap().2));
        rngctl::with(|s| s.fail_at = None);
        if let Some(c) = encrypt(ctx, &t, b"state") {
            good(ctx, &t, &c, b"state", "after the source recovered");
        }
        SHIFT.store(0, Ordering::Relaxed);
    }
}

fn faults(ctx: &mut Ctx) {
    for at in 0..8 {
        for all in [false, true] {
            ctx.case("new with a failing source", format!("call {at} fails, {}", if all { "and all later" } else { "once" }));
            rngctl::reset(at as u64, Mode::Stream);
            rngctl::with(|s| {
                s.fail_at = Some(at);
                s.fail_all = all;
                s.keep_log = false;
            });
            let t = ctx.call("new", rustls_graviola::Ticketer::new);
            let failed = rngctl::with(|s| s.failures) > 0;
            match t {
                Some(Ok(t)) => {
                    ctx.check(!failed, "no randomness", || "a ticketer was made although its random source failed".into());
                    for i in 0..8 {
                        let f0 = rngctl::with(|s| s.failures);
                        let x = ctx.call("encrypt", || t.encrypt(b"the state"));
                        let failed = rngctl::with(|s| s.failures) > f0;
                        match x {
                            Some(Some(c)) => {
                                ctx.check(!failed, "no randomness", || format!("ticket {i} was made although its random source failed: {}", hex(&c)));
                                good(ctx, &t, &c, b"the state", "with a failing source");
                            }
                            Some(None) => {
                                ctx.check(failed, "encrypt", || "no ticket".into());
                            }
                            None => (),
                        }
                    }
                }
                Some(Err(e)) => {
                    ctx.check(failed, "new", || format!("no ticketer: {e:?}"));
                    ctx.check(matches!(e, rustls::Error::FailedToGetRandomBytes), "wrong error", || format!("{e:?}"));
                }
                None => (),
            }
        }
    }
    rngctl::reset(1, Mode::Stream);
    // what is drawn for a ticket depends on the source alone: fresh every time
    let t = new(ctx);
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    for i in 0..ctx.n(300, 3000) {
        ctx.case("randomness of a ticket", format!("ticket {i}"));
        let _ = rngctl::take_log();
        rngctl::with(|s| s.keep_log = true);
        let _ = encrypt(ctx, &t, b"same");
        let drawn = rngctl::take_log().concat();
        ctx.observe("bytes drawn for tickets", drawn.len() as u64);
        ctx.check(drawn.len() >= 12, "randomness", || format!("{} random bytes drawn for a ticket", drawn.len()));
        ctx.check(seen.insert(drawn), "randomness", || "drawn twice".into());
    }
}

/// one ticketer, many threads, changing sizes
fn threads(ctx: &mut Ctx) {
    for round in 0..ctx.n(12, 100) {
        if !ctx.mine(round) || !ctx.more() {
            continue;
        }
        let t = new(ctx);
        let seed = ctx.rng(&format!("threads{round}")).u64();
        ctx.case("threads", format!("round={round} seed={seed:#x}"));
        let board: std::sync::Mutex<Vec<(Vec<u8>, Vec<u8>)>> = Default::default();
        let errs: std::sync::Mutex<Vec<String>> = Default::default();
        let done = AtomicU64::new(0);
        SHIFT.store(0, Ordering::Relaxed);
        std::thread::scope(|sc| {
            for i in 0..8u64 {
                let (t, board, errs, done) = (&t, &board, &errs, &done);
                sc.spawn(move || {
                    let mut r = Rng::new(seed ^ i);
                    rngctl::reset(r.u64(), Mode::Stream);
                    rngctl::with(|s| s.keep_log = false);
                    for k in 0..150 {
                        if i == 0 && k == 75 {
                            // a key change in the middle of it
                            SHIFT.store(7 * HOUR, Ordering::Relaxed);
                        }
                        let n = 1 + r.below(40 + 20 * k);
                        let s = r.bytes(n);
                        let res = guard(|| {
                            let c = t.encrypt(&s).ok_or("no ticket")?;
                            let p = t.decrypt(&c).ok_or("own ticket not recognised")?;
                            if p != s {
                                return Err("own ticket misread");
                            }
                            let mut x = c.clone();
                            let at = r.below(x.len());
                            x[at] ^= 1 << r.below(8);
                            if t.decrypt(&x).is_some() {
                                return Err("altered ticket accepted");
                            }
                            Ok(c)
                        });
                        done.fetch_add(1, Ordering::Relaxed);
                        match res {
                            Ok(Ok(c)) => {
                                let mut b = board.lock().unwrap();
                                b.push((s, c));
                                let (s, c) = r.pick(&b).clone();
                                drop(b);
                                if t.decrypt(&c) != Some(s) {
                                    errs.lock().unwrap().push("another thread's ticket misread".into());
                                }
                            }
                            Ok(Err(e)) => errs.lock().unwrap().push(e.into()),
                            Err(p) => errs.lock().unwrap().push(format!("panic at {}: {}", p.loc, p.msg)),
                        }
                    }
                });
            }
        });
        SHIFT.store(0, Ordering::Relaxed);
        let b = board.lock().unwrap();
        let distinct: HashSet<&Vec<u8>> = b.iter().map(|x| &x.1).collect();
        ctx.check(distinct.len() == b.len(), "repeats", || "two threads made the same ticket".into());
        ctx.evals += done.load(Ordering::Relaxed);
        ctx.observe("tickets made and read by threads", done.load(Ordering::Relaxed));
        for e in errs.lock().unwrap().iter().take(3) {
            ctx.fail("threads", e.clone());
        }
    }
}

pub fn jobs_c26(t: bool) -> Vec<Job> {
    let k = if t { 8 } else { 2 };
    vec![("roundtrip", "native", k), ("roundtrip", "rel", k), ("alter", "native", k), ("alter", "min", 1), ("alter", "rel", k), ("rotate", "native", k), ("faults", "native", 1), ("threads", "native", 1), ("threads", "rel", 1)]
}

pub fn run_c26(ctx: &mut Ctx) {
    match ctx.section.as_str() {
        "roundtrip" => roundtrip(ctx),
        "alter" => alter(ctx),
        "rotate" => rotate(ctx),
        "faults" => faults(ctx),
        _ => threads(ctx),
    }
}
