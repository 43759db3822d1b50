//! C22: a failing random generator is always reported; randomness is drawn afresh.
use crate::Job;
use graviola::Error;
use graviola::hashing as gh;
use graviola::key_agreement as ka;
use graviola::signing::{ecdsa, eddsa, rsa};
use harness::rngctl::{self, Mode};
use harness::*;
use std::collections::HashSet;

/// what an operation produced: all of it, and the part that others get to see
type Out = (Vec<u8>, Vec<u8>);

struct RandOp {
    name: String,
    /// bytes of drawn randomness its result must depend on
    strength: usize,
    /// milliseconds, roughly
    cost: usize,
    run: Box<dyn Fn() -> Result<Out, Error>>,
}

fn ops() -> Vec<RandOp> {
    let mut v: Vec<RandOp> = vec![];
    let mut add = |name: &str, strength: usize, cost: usize, run: Box<dyn Fn() -> Result<Out, Error>>| v.push(RandOp { name: name.into(), strength, cost, run });
    add("x25519 static", 31, 1, Box::new(|| {
        let k = ka::x25519::StaticPrivateKey::new_random()?;
        let p = k.public_key().as_bytes().to_vec();
        Ok((p.clone(), p))
    }));
    add("x25519 ephemeral", 31, 1, Box::new(|| {
        let k = ka::x25519::PrivateKey::new_random()?;
        let p = k.public_key().as_bytes().to_vec();
        Ok((p.clone(), p))
    }));
    macro_rules! nist {
        ($m:ident, $c:ident, $n:literal, $l:literal) => {
            add(concat!($n, " static"), $l, 1, Box::new(|| {
                let k = ka::$m::StaticPrivateKey::new_random()?;
                let p = k.public_key_uncompressed().to_vec();
                Ok((p.clone(), p))
            }));
            add(concat!($n, " ephemeral"), $l, 1, Box::new(|| {
                let k = ka::$m::PrivateKey::new_random()?;
                let p = k.public_key_uncompressed().to_vec();
                Ok((p.clone(), p))
            }));
            add(concat!($n, " ecdsa generate"), $l, 1, Box::new(|| {
                let k = ecdsa::SigningKey::<ecdsa::$c>::generate()?;
                let p = k.private_key.public_key_uncompressed().to_vec();
                Ok((p.clone(), p))
            }));
            let key = || ecdsa::SigningKey::<ecdsa::$c> { private_key: ka::$m::StaticPrivateKey::from_bytes(&[0x11; $l]).unwrap() };
            // the nonce is also derived from key and message, so that 128 bits suffice
            add(concat!($n, " ecdsa sign sha256"), 16, 1, Box::new(move || {
                let mut o = [0; 2 * $l];
                let s = key().sign::<gh::Sha256>(&[b"message"], &mut o)?.to_vec();
                Ok((s.clone(), s))
            }));
            add(concat!($n, " ecdsa sign sha384"), 16, 1, Box::new(move || {
                let mut o = [0; 2 * $l];
                let s = key().sign::<gh::Sha384>(&[b"mess", b"age"], &mut o)?.to_vec();
                Ok((s.clone(), s))
            }));
            add(concat!($n, " ecdsa sign sha512"), 16, 1, Box::new(move || {
                let mut o = [0; 2 * $l];
                let s = key().sign::<gh::Sha512>(&[], &mut o)?.to_vec();
                Ok((s.clone(), s))
            }));
            add(concat!($n, " ecdsa sign asn1"), 16, 1, Box::new(move || {
                let mut o = [0; 2 * $l + 20];
                let s = key().sign_asn1::<gh::Sha256>(&[b"message"], &mut o)?.to_vec();
                Ok((s.clone(), s))
            }));
        };
    }
    nist!(p256, P256, "p-256", 32);
    nist!(p384, P384, "p-384", 48);
    add("ed25519 generate", 32, 1, Box::new(|| {
        let k = eddsa::Ed25519SigningKey::generate()?;
        let p = k.public_key().as_bytes().to_vec();
        Ok((p.clone(), p))
    }));
    add("ml-kem generate", 64, 1, Box::new(|| {
        let k = ka::mlkem768::DecapKey::generate()?;
        Ok((k.as_bytes().to_vec(), k.encapsulation_key().as_bytes().to_vec()))
    }));
    add("ml-kem encaps", 32, 1, Box::new(|| {
        let ek = ka::mlkem768::DecapKey::keygen_internal(&[3; 64]).encapsulation_key();
        let (k, c) = ek.encaps()?;
        let mut all = k.as_ref().to_vec();
        all.extend(c.as_ref());
        Ok((all, c.as_ref().to_vec()))
    }));
    for n in [1usize, 16, 32, 100, 1000] {
        add(&format!("random fill {n}"), n, 1, Box::new(move || {
            let mut b = vec![0; n];
            graviola::random::fill(&mut b)?;
            Ok((b, vec![]))
        }));
    }
    let key = crate::ops::rsa_keys()[0].priv_der();
    let k = std::rc::Rc::new(rsa::SigningKey::from_pkcs1_der(&key).unwrap());
    macro_rules! pss {
        ($f:ident, $n:literal) => {
            let k = k.clone();
            add(concat!("rsa ", stringify!($f)), $n, 3, Box::new(move || {
                let mut o = vec![0; k.modulus_len_bytes()];
                let s = k.$f(&mut o, b"message")?.to_vec();
                Ok((s.clone(), s))
            }));
        };
    }
    pss!(sign_pss_sha256, 32);
    pss!(sign_pss_sha384, 48);
    pss!(sign_pss_sha512, 64);
    pss!(sign_pkcs1_sha256, 0);
    for n in [2048usize, 3072] {
        add(&format!("rsa generate {n}"), n / 8 - 20, if n == 2048 { 150 } else { 600 }, Box::new(move || {
            let k = rsa::SigningKey::generate(if n == 2048 { rsa::KeySize::Rsa2048 } else { rsa::KeySize::Rsa3072 })?;
            let mut o = vec![0; 4000];
            let all = k.to_pkcs1_der(&mut o)?.to_vec();
            let mut o = vec![0; 4000];
            let p = k.public_key().to_spki_der(&mut o)?.to_vec();
            Ok((all, p))
        }));
    }
    v
}

pub fn jobs_c22(_t: bool) -> Vec<Job> {
    vec![("fail", "native", 3), ("fail", "rel", 3), ("fresh", "native", 2), ("fresh", "rel", 2), ("stuck", "native", 1), ("stuck", "rel", 1)]
}

/// every position of a failure, once and for good
fn fail(ctx: &mut Ctx) {
    let mut rng = ctx.rng("fail");
    for (oi, op) in ops().into_iter().enumerate() {
        if op.name == "rsa generate 3072" && ctx.n(0, 1) == 0 {
            continue;
        }
        for round in 0..ctx.n(2, 12) {
            if !ctx.mine(oi + round) || !ctx.more() {
                continue;
            }
            let seed = rng.u64();
            rngctl::reset(seed, Mode::Stream);
            let whole = guard(|| (op.run)());
            let calls = rngctl::calls();
            let Ok(Ok(whole)) = whole else {
                ctx.case(&op.name, format!("seed={seed:#x} no fault"));
                ctx.fail("working generator", format!("{}: failed although the generator did not", op.name));
                continue;
            };
            ctx.observe("generator calls made", calls as u64);
            let few = if op.cost > 10 { ctx.n(25, 200) } else { ctx.n(60, 1000) };
            let mut at: Vec<usize> = (0..calls).collect();
            if at.len() > few {
                // the first, the last, and a sample of the others
                let mut keep: Vec<usize> = (0..8).chain(calls - 4..calls).collect();
                for _ in 0..few - 12 {
                    keep.push(rng.below(calls));
                }
                keep.sort();
                keep.dedup();
                at = keep;
            }
            for a in at {
                for all in [false, true] {
                    if (all && op.cost > 10 && a % 3 != 0) || !ctx.more() {
                        continue;
                    }
                    ctx.case(&op.name, format!("seed={seed:#x} failure at call {a} of {calls}{}", if all { " and after" } else { "" }));
                    rngctl::reset(seed, Mode::Stream);
                    rngctl::with(|s| {
                        s.fail_at = Some(a);
                        s.fail_all = all;
                    });
                    let r = guard(|| (op.run)());
                    let hit = rngctl::with(|s| s.failures);
                    ctx.observe("generator failures delivered", hit as u64);
                    match r {
                        Err(p) => ctx.fail("panic", format!("{}: panic at {} on a generator failure: {}", op.name, p.loc, p.msg)),
                        Ok(Ok(o)) => {
                            ctx.check(hit == 0, "ignored", || format!("{}: succeeded although the generator failed (result {} that of the undisturbed run)", op.name, if o.0 == whole.0 { "equals" } else { "differs from" }));
                            ctx.check(hit > 0, "not reached", || format!("{}: call {a} was made before and not now", op.name));
                        }
                        Ok(Err(e)) => {
                            ctx.check(e == Error::RngFailed, "wrong error", || format!("{}: generator failure reported as {e:?}", op.name));
                        }
                    }
                    // the failure leaves nothing behind
                    rngctl::reset(seed, Mode::Stream);
                    if op.cost < 10 {
                        let again = guard(|| (op.run)());
                        ctx.check(matches!(&again, Ok(Ok(o)) if *o == whole), "after", || format!("{}: the same call after a failure gives something else", op.name));
                    }
                }
            }
        }
    }
}

fn fresh(ctx: &mut Ctx) {
    let mut rng = ctx.rng("fresh");
    for (oi, op) in ops().into_iter().enumerate() {
        if !ctx.mine(oi) || (op.cost > 10 && op.name != "rsa generate 2048") {
            continue;
        }
        for round in 0..ctx.n(if op.cost > 10 { 1 } else { 6 }, if op.cost > 10 { 6 } else { 60 }) {
            if !ctx.more() {
                return;
            }
            let seed = rng.u64();
            ctx.case(&format!("{} drawn", op.name), format!("seed={seed:#x}"));
            rngctl::reset(seed, Mode::Stream);
            let mut outs: Vec<Out> = vec![];
            let mut drawn: Vec<Vec<u8>> = vec![];
            // one after another: each draws its own
            for i in 0..if op.cost > 10 { 2 } else { 4 } {
                let Ok(Ok(o)) = guard(|| (op.run)()) else {
                    ctx.fail("working generator", format!("{}: failed although the generator did not", op.name));
                    return;
                };
                let d: Vec<u8> = rngctl::take_log().concat();
                ctx.observe("generator bytes drawn", d.len() as u64);
                ctx.check(d.len() >= op.strength, "too little", || format!("{}: call {i} drew {} bytes, fewer than {}", op.name, d.len(), op.strength));
                if op.strength >= 8 {
                    ctx.check(!outs.iter().any(|p| p.0 == o.0), "repeated", || format!("{}: two calls gave the same result", op.name));
                }
                outs.push(o);
                drawn.push(d);
            }
            // what was drawn for a secret is not handed out as it is, by this call or a later one
            for (i, d) in drawn.iter().enumerate() {
                let w: HashSet<&[u8]> = d.windows(8).collect();
                for (j, o) in outs.iter().enumerate() {
                    ctx.check(!o.1.windows(8).any(|x| w.contains(x)), "handed out", || format!("{}: bytes drawn in call {i} appear in the public output of call {j}", op.name));
                }
            }
            if op.cost > 10 || op.strength == 0 {
                continue;
            }
            // every drawn byte matters
            let n = drawn[0].len();
            let mut matter = 0;
            for i in 0..n {
                let (mut d, mut any) = (drawn[0].clone(), false);
                for x in [0xa5u8, 0x18] {
                    d[i] ^= x;
                    ctx.case(&format!("{} byte", op.name), format!("seed={seed:#x} byte {i} of {n} xor {x:#x}"));
                    rngctl::reset(seed ^ 1, Mode::Script(d.clone()));
                    match guard(|| (op.run)()) {
                        Ok(Ok(o)) => any |= o.0 != outs[0].0,
                        Ok(Err(e)) => ctx.fail("working generator", format!("{}: {e:?}", op.name)),
                        Err(p) => ctx.fail("panic", format!("{}: panic at {}: {}", op.name, p.loc, p.msg)),
                    }
                }
                matter += any as usize;
            }
            ctx.observe("drawn bytes the result depends on", matter as u64);
            ctx.check(matter >= op.strength, "ignored bytes", || format!("{}: the result depends on {matter} of {n} drawn bytes, fewer than {}", op.name, op.strength));
            let _ = round;
        }
    }
}

/// a generator that succeeds but is stuck: operations end, and nothing out of range comes out
fn stuck(ctx: &mut Ctx) {
    for op in ops() {
        for c in [0u8, 0xff, 0x7f, 0x80, 1] {
            // (RSA generation goes on looking for a prime for as long as it is given composites)
            if op.cost > 10 {
                continue;
            }
            ctx.case(&op.name, format!("generator stuck at {c:#x}"));
            rngctl::reset(0, Mode::Const(c));
            rngctl::with(|s| s.keep_log = false);
            let r = guard(|| (op.run)());
            match r {
                Err(p) => ctx.fail("panic", format!("{}: panic at {} with a stuck generator: {}", op.name, p.loc, p.msg)),
                Ok(Ok(o)) => {
                    // zero and values past the group order must not become keys
                    let key = (op.name.starts_with("p-") && !op.name.contains("sign")) && (c == 0 || c == 0xff);
                    ctx.check(!key, "out of range", || format!("{}: made a key out of a generator stuck at {c:#x}: {}", op.name, hex(&o.1)));
                }
                Ok(Err(e)) => {
                    ctx.observe("stuck generators reported", 1);
                    ctx.check(e == Error::RngFailed, "wrong error", || format!("{}: stuck generator reported as {e:?}", op.name));
                }
            }
        }
    }
}

pub fn run_c22(ctx: &mut Ctx) {
    match ctx.section.as_str() {
        "fail" => fail(ctx),
        "fresh" => fresh(ctx),
        _ => stuck(ctx),
    }
}
