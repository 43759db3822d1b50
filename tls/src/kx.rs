//! Key-exchange groups, hashes, HMAC, HKDF and PRF of the provider against other implementations
use harness::*;
use hmac::Mac as _;
use ml_kem::{EncapsulateDeterministic as _, EncodedSizeUser as _, KemCore as _, kem::Decapsulate as _};
use p256::elliptic_curve::sec1::ToEncodedPoint as _;
use rustls::crypto::{ActiveKeyExchange, CompletedKeyExchange, SharedSecret, SupportedKxGroup};
use rustls::{Error, NamedGroup, PeerMisbehaved, ProtocolVersion};
use sha2::Digest as _;

pub type DecapKey = <ml_kem::MlKem768 as ml_kem::KemCore>::DecapsulationKey;
pub type EncapKey = <ml_kem::MlKem768 as ml_kem::KemCore>::EncapsulationKey;

/// one end of a key exchange, without graviola
pub enum End {
    X25519(x25519_dalek::StaticSecret),
    P256(p256::SecretKey),
    P384(p384::SecretKey),
    Hybrid(x25519_dalek::StaticSecret, Box<DecapKey>, Vec<u8>),
}

pub const GROUPS: [NamedGroup; 4] = [NamedGroup::X25519MLKEM768, NamedGroup::X25519, NamedGroup::secp256r1, NamedGroup::secp384r1];

fn dalek(k: &x25519_dalek::StaticSecret, peer: &[u8]) -> Option<Vec<u8>> {
    let p: [u8; 32] = peer.try_into().ok()?;
    let s = k.diffie_hellman(&x25519_dalek::PublicKey::from(p));
    s.was_contributory().then(|| s.as_bytes().to_vec())
}

/// FIPS 203 section 7.2: every coefficient is reduced
fn reduced(ek: &[u8]) -> bool {
    ek.len() == 1184 && ek[..1152].chunks(3).all(|c| (c[0] as u32 | (c[1] as u32 & 15) << 8) < 3329 && (c[1] as u32 >> 4 | (c[2] as u32) << 4) < 3329)
}

impl End {
    pub fn new(g: NamedGroup, r: &mut Rng) -> End {
        match g {
            NamedGroup::X25519 => End::X25519(<[u8; 32]>::try_from(r.biased(32)).unwrap().into()),
            NamedGroup::secp256r1 => loop {
                if let Ok(k) = p256::SecretKey::from_slice(&r.biased(32)) {
                    return End::P256(k);
                }
            },
            NamedGroup::secp384r1 => loop {
                if let Ok(k) = p384::SecretKey::from_slice(&r.biased(48)) {
                    return End::P384(k);
                }
            },
            _ => {
                let (dk, ek) = ml_kem::MlKem768::generate_deterministic(&r.arr::<32>().into(), &r.arr::<32>().into());
                let ek = ek.as_bytes().to_vec();
                End::Hybrid(<[u8; 32]>::try_from(r.biased(32)).unwrap().into(), Box::new(dk), ek)
            }
        }
    }
    /// as a client sends it (and, except for the hybrid, a server)
    pub fn share(&self) -> Vec<u8> {
        match self {
            End::X25519(k) => x25519_dalek::PublicKey::from(k).as_bytes().to_vec(),
            End::P256(k) => k.public_key().to_encoded_point(false).as_bytes().to_vec(),
            End::P384(k) => k.public_key().to_encoded_point(false).as_bytes().to_vec(),
            End::Hybrid(k, _, ek) => [ek, &x25519_dalek::PublicKey::from(k).as_bytes()[..]].concat(),
        }
    }
    /// what a client makes of a server's share; None if it must be refused
    pub fn complete(&self, peer: &[u8]) -> Option<Vec<u8>> {
        Some(match self {
            End::X25519(k) => dalek(k, peer)?,
            End::P256(k) => {
                if peer.len() != 65 || peer[0] != 4 {
                    return None;
                }
                let p = p256::PublicKey::from_sec1_bytes(peer).ok()?;
                p256::ecdh::diffie_hellman(k.to_nonzero_scalar(), p.as_affine()).raw_secret_bytes().to_vec()
            }
            End::P384(k) => {
                if peer.len() != 97 || peer[0] != 4 {
                    return None;
                }
                let p = p384::PublicKey::from_sec1_bytes(peer).ok()?;
                p384::ecdh::diffie_hellman(k.to_nonzero_scalar(), p.as_affine()).raw_secret_bytes().to_vec()
            }
            End::Hybrid(k, dk, _) => {
                if peer.len() != 1120 {
                    return None;
                }
                let c: [u8; 1088] = peer[..1088].try_into().unwrap();
                let s = dk.decapsulate(&c.into()).unwrap();
                [&s[..], &dalek(k, &peer[1088..])?].concat()
            }
        })
    }
    /// what a server makes of a client's share: its own share, and the secret
    pub fn answer(&self, peer: &[u8], r: &mut Rng) -> Option<(Vec<u8>, Vec<u8>)> {
        match self {
            End::Hybrid(k, _, _) => {
                if peer.len() != 1216 || !reduced(&peer[..1184]) {
                    return None;
                }
                let ek: [u8; 1184] = peer[..1184].try_into().unwrap();
                let (c, s) = EncapKey::from_bytes(&ek.into()).encapsulate_deterministic(&r.arr::<32>().into()).unwrap();
                let d = dalek(k, &peer[1184..])?;
                Some(([&c[..], x25519_dalek::PublicKey::from(k).as_bytes()].concat(), [&s[..], &d].concat()))
            }
            _ => Some((self.share(), self.complete(peer)?)),
        }
    }
}

/// the hybrid group for the other provider (ring has none)
#[derive(Debug)]
pub struct PeerHybrid;
pub static PEER_HYBRID: PeerHybrid = PeerHybrid;

struct Active(End, Vec<u8>);

fn fresh() -> Rng {
    let mut b = [0u8; 8];
    rustls::crypto::ring::default_provider().secure_random.fill(&mut b).unwrap();
    Rng::new(u64::from_le_bytes(b))
}

impl SupportedKxGroup for PeerHybrid {
    fn start(&self) -> Result<Box<dyn ActiveKeyExchange>, Error> {
        let e = End::new(NamedGroup::X25519MLKEM768, &mut fresh());
        let s = e.share();
        Ok(Box::new(Active(e, s)))
    }
    fn start_and_complete(&self, peer: &[u8]) -> Result<CompletedKeyExchange, Error> {
        let mut r = fresh();
        let e = End::new(NamedGroup::X25519MLKEM768, &mut r);
        let (pub_key, s) = e.answer(peer, &mut r).ok_or(PeerMisbehaved::InvalidKeyShare)?;
        Ok(CompletedKeyExchange { group: self.name(), pub_key, secret: SharedSecret::from(s) })
    }
    fn name(&self) -> NamedGroup {
        NamedGroup::X25519MLKEM768
    }
    fn usable_for_version(&self, v: ProtocolVersion) -> bool {
        v == ProtocolVersion::TLSv1_3
    }
}

impl ActiveKeyExchange for Active {
    fn complete(self: Box<Self>, peer: &[u8]) -> Result<SharedSecret, Error> {
        Ok(SharedSecret::from(self.0.complete(peer).ok_or(PeerMisbehaved::InvalidKeyShare)?))
    }
    fn pub_key(&self) -> &[u8] {
        &self.1
    }
    fn group(&self) -> NamedGroup {
        NamedGroup::X25519MLKEM768
    }
}

pub fn graviola(g: NamedGroup) -> &'static dyn SupportedKxGroup {
    *rustls_graviola::kx::ALL_KX_GROUPS.iter().find(|x| x.name() == g).unwrap()
}

/// both roles against another implementation
pub fn agree(ctx: &mut Ctx) {
    let mut r = ctx.rng("agree");
    let names: Vec<_> = rustls_graviola::default_provider().kx_groups.iter().map(|g| g.name()).collect();
    ctx.check(names == GROUPS, "groups", || format!("the provider offers {names:?}"));
    let mut seen = std::collections::HashSet::new();
    for i in 0..ctx.n(400, 6000) {
        for g in GROUPS {
            if !ctx.mine(i) {
                continue;
            }
            if !ctx.more() {
                return;
            }
            let gr = graviola(g);
            // graviola as client
            let e = End::new(g, &mut r);
            ctx.case(&format!("{g:?} client"), format!("peer {}", hexs(&e.share())));
            let Some(Ok(a)) = ctx.call("start", || gr.start()) else {
                ctx.fail("start", format!("{g:?} cannot be started"));
                continue;
            };
            let share = a.pub_key().to_vec();
            ctx.check(seen.insert(share.clone()), "fresh", || format!("{g:?}: the share {} is used twice", hexs(&share)));
            ctx.check(a.group() == g && gr.name() == g, "name", || format!("{g:?} calls itself {:?}", a.group()));
            match e.answer(&share, &mut r) {
                None => {
                    ctx.fail("share", format!("{g:?}: another implementation refuses the share {}", hexs(&share)));
                }
                Some((theirs, want)) => {
                    let got = ctx.call("complete", || a.complete(&theirs));
                    if let Some(got) = got {
                        match got {
                            Err(x) => ctx.fail("complete", format!("{g:?}: {x:?} for the share {}", hexs(&theirs))),
                            Ok(s) => {
                                ctx.eq(&format!("secret {g:?}"), s.secret_bytes(), &want);
                                ctx.observe("secrets agreed as client", 1);
                            }
                        }
                    }
                }
            }
            // graviola as server
            let e = End::new(g, &mut r);
            let share = e.share();
            ctx.case(&format!("{g:?} server"), format!("peer {}", hexs(&share)));
            match ctx.call("answer", || gr.start_and_complete(&share)) {
                Some(Ok(c)) => {
                    ctx.check(seen.insert(c.pub_key.clone()), "fresh", || format!("{g:?}: the share {} is used twice", hexs(&c.pub_key)));
                    ctx.check(c.group == g, "name", || format!("{g:?} calls itself {:?}", c.group));
                    match e.complete(&c.pub_key) {
                        None => ctx.fail("share", format!("{g:?}: another implementation refuses the share {}", hexs(&c.pub_key))),
                        Some(w) => {
                            ctx.eq(&format!("secret {g:?}"), c.secret.secret_bytes(), &w);
                            ctx.observe("secrets agreed as server", 1);
                        }
                    }
                }
                Some(Err(x)) => ctx.fail("answer", format!("{g:?}: {x:?} for the share {}", hexs(&share))),
                None => {}
            }
            // the classical half of the hybrid on its own
            let Some(Ok(a)) = ctx.call("start", || gr.start()) else { continue };
            let half = a.hybrid_component().map(|(n, s)| (n, s.to_vec()));
            ctx.check(half.is_some() == (g == NamedGroup::X25519MLKEM768), "component", || format!("{g:?} has the component {half:?}"));
            if let Some((n, s)) = half {
                let e = End::new(NamedGroup::X25519, &mut r);
                ctx.check(n == NamedGroup::X25519 && a.pub_key().ends_with(&s), "component", || format!("{g:?} has the component {n:?} {}", hexs(&s)));
                match (e.answer(&s, &mut r), ctx.call("component", || a.complete_hybrid_component(&e.share()))) {
                    (Some((_, want)), Some(Ok(got))) => {
                        ctx.eq("component secret", got.secret_bytes(), &want);
                        ctx.observe("component secrets agreed", 1);
                    }
                    (_, None) => {}
                    (w, Some(g)) => ctx.fail("component", format!("component: expected {:?} and got {:?}", w.is_some(), g.is_ok())),
                }
            }
            // which versions may use it
            ctx.check(gr.usable_for_version(ProtocolVersion::TLSv1_3) && gr.usable_for_version(ProtocolVersion::TLSv1_2) == (g != NamedGroup::X25519MLKEM768), "version", || format!("{g:?} is offered for the wrong versions"));
        }
    }
    // no randomness, no exchange
    for g in GROUPS {
        for at in 0..4 {
            let gr = graviola(g);
            let share = End::new(g, &mut r).share();
            for server in [false, true] {
                ctx.case("no randomness", format!("{g:?} at request {at} server {server}"));
                let before = rngctl::calls();
                rngctl::with(|s| s.fail_at = Some(before + at));
                let ok = ctx.call("no randomness", || if server { gr.start_and_complete(&share).map(|_| ()) } else { gr.start().map(|_| ()) });
                let hit = rngctl::calls() > before + at;
                rngctl::with(|s| s.fail_at = None);
                if hit {
                    ctx.check(matches!(ok, None | Some(Err(_))), "no randomness", || format!("{g:?} without randomness: {ok:?}"));
                    ctx.observe("exchanges refused without randomness", 1);
                }
            }
        }
    }
}

fn small_order() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["0000000000000000000000000000000000000000000000000000000000000000", "0100000000000000000000000000000000000000000000000000000000000000", "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"].iter().map(|s| unhex(s)).collect();
    for i in 0..v.len() {
        let mut w = v[i].clone();
        w[31] |= 0x80;
        v.push(w);
    }
    v
}

/// shares that are not what they should be
pub fn malformed(ctx: &mut Ctx) {
    let mut r = ctx.rng("malformed");
    let small = small_order();
    for i in 0..ctx.n(700, 9000) {
        for g in GROUPS {
            if !ctx.mine(i) {
                continue;
            }
            if !ctx.more() {
                return;
            }
            for server in [false, true] {
                let gr = graviola(g);
                let e = End::new(g, &mut r);
                let Ok(a) = gr.start() else { continue };
                // what a well-meaning peer would have sent
                let mut s = if server { e.share() } else { e.answer(a.pub_key(), &mut r).unwrap().0 };
                let dh = if g == NamedGroup::X25519MLKEM768 { s.len() - 32 } else { 0 };
                let what = match if i < 14 { 100 } else { r.below(10) } {
                    100 => {
                        if g == NamedGroup::X25519 || dh > 0 {
                            s[dh..].copy_from_slice(&small[i]);
                            "small order"
                        } else {
                            // the same point some other way
                            let n = (s.len() - 1) / 2;
                            match i {
                                0 => s = vec![0],
                                1 => s = vec![],
                                2 => s[0] = 6 | s[2 * n] & 1,
                                3 => {
                                    s[0] = 2 | s[2 * n] & 1;
                                    s.truncate(n + 1)
                                }
                                4 => {
                                    s.remove(0);
                                }
                                5 => s[1..].fill(0),
                                6 => s[0] = 0,
                                7 => {
                                    // the negated x coordinate range: p or more
                                    s[1..=n].fill(0xff)
                                }
                                8 => s[n + 1..].fill(0xff),
                                9 => s.rotate_left(1),
                                10 => s.push(0),
                                11 => s.insert(0, 0),
                                12 => {
                                    let (x, y) = (s[1..=n].to_vec(), s[n + 1..].to_vec());
                                    s = [&[4][..], &y, &x].concat()
                                }
                                _ => s[1..].fill(0xff),
                            }
                            "encoding"
                        }
                    }
                    0 => {
                        s.truncate(r.below(s.len()));
                        "cut"
                    }
                    1 => {
                        let n = 1 + r.below(40);
                        s.extend(r.bytes(n));
                        "lengthened"
                    }
                    2 => {
                        let n = r.below(2400);
                        s = r.bytes(n);
                        "nonsense"
                    }
                    3 => {
                        let n = s.len();
                        s = r.biased(n);
                        "same length"
                    }
                    4 if dh > 0 => {
                        s.rotate_left(dh);
                        "halves swapped"
                    }
                    5 if dh > 0 => {
                        s[dh..].copy_from_slice(r.pick(&small[..]));
                        "small order"
                    }
                    6 if dh > 0 => {
                        // one coefficient not reduced
                        let c = 3329 + r.below(4096 - 3329);
                        let at = 3 * r.below((dh / 3).min(384));
                        if r.bool() {
                            s[at] = c as u8;
                            s[at + 1] = s[at + 1] & 0xf0 | (c >> 8) as u8;
                        } else {
                            s[at + 1] = s[at + 1] & 0x0f | (c << 4) as u8;
                            s[at + 2] = (c >> 4) as u8;
                        }
                        "coefficient"
                    }
                    7 => {
                        // another group's share
                        let o = *r.pick(&GROUPS);
                        s = End::new(o, &mut r).share();
                        "another group"
                    }
                    _ => {
                        let at = r.below(s.len());
                        s[at] ^= 1 << r.below(8);
                        "bit"
                    }
                };
                let class = format!("{g:?} {} {what}", if server { "server" } else { "client" });
                ctx.case(&class, hexs(&s));
                // would another implementation take it?
                let want = if server { e.answer(&s, &mut r).is_some() } else { e.complete(&s).is_some() };
                let got = ctx.call("malformed", || if server { gr.start_and_complete(&s).map(|_| ()) } else { a.complete(&s).map(|_| ()) });
                let Some(got) = got else { continue };
                ctx.check(got.is_ok() == want, "malformed", || format!("{g:?} {what}: {} the share {} (server {server})", if want { "refuses" } else { "accepts" }, hexs(&s)));
                ctx.observe(if want { "altered shares that are still shares" } else { "malformed shares refused" }, 1);
            }
        }
    }
}

fn hm(n: usize, k: &[u8], m: &[&[u8]]) -> Vec<u8> {
    if n == 32 {
        let mut h = hmac::Hmac::<sha2::Sha256>::new_from_slice(k).unwrap();
        m.iter().for_each(|x| h.update(x));
        h.finalize().into_bytes().to_vec()
    } else {
        let mut h = hmac::Hmac::<sha2::Sha384>::new_from_slice(k).unwrap();
        m.iter().for_each(|x| h.update(x));
        h.finalize().into_bytes().to_vec()
    }
}
fn sha(n: usize, m: &[u8]) -> Vec<u8> {
    if n == 32 { sha2::Sha256::digest(m).to_vec() } else { sha2::Sha384::digest(m).to_vec() }
}
fn expand(n: usize, prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let (mut out, mut t) = (vec![], vec![]);
    let mut i = 1u8;
    while out.len() < len {
        t = hm(n, prk, &[&t, info, &[i]]);
        out.extend(&t);
        i = i.wrapping_add(1);
    }
    out.truncate(len);
    out
}
fn prf(n: usize, secret: &[u8], label: &[u8], seed: &[u8], len: usize) -> Vec<u8> {
    let ls = [label, seed].concat();
    let (mut a, mut out) = (ls.clone(), vec![]);
    while out.len() < len {
        a = hm(n, secret, &[&a]);
        out.extend(hm(n, secret, &[&a, &ls]));
    }
    out.truncate(len);
    out
}

fn pieces<'a>(r: &mut Rng, m: &'a [u8]) -> Vec<&'a [u8]> {
    let (mut v, mut at) = (vec![], 0);
    while at < m.len() || r.below(4) == 0 {
        let n = match r.below(4) {
            0 => 0,
            1 => 1,
            2 => r.below(70),
            _ => r.below(m.len() + 1),
        }
        .min(m.len() - at);
        v.push(&m[at..at + n]);
        at += n;
    }
    v
}

/// transcript hash, HMAC, key schedule and PRF of each suite
pub fn schedule(ctx: &mut Ctx) {
    let mut r = ctx.rng("schedule");
    let suites = rustls_graviola::suites::ALL_CIPHER_SUITES;
    for i in 0..ctx.n(1800, 20000) {
        if !ctx.mine(i) {
            continue;
        }
        let s = suites[i % suites.len()];
        if !ctx.more() {
            return;
        }
        let n = if format!("{:?}", s.suite()).ends_with("384") { 48 } else { 32 };
        let hash: &dyn rustls::crypto::hash::Hash = match s {
            rustls::SupportedCipherSuite::Tls12(x) => x.common.hash_provider,
            rustls::SupportedCipherSuite::Tls13(x) => x.common.hash_provider,
        };
        let len = if i < 300 { i } else { r.below(5000) };
        let m = r.bytes(len);
        ctx.case(&format!("{:?}", s.suite()), format!("message={}", hexs(&m)));
        ctx.check(hash.output_len() == n, "hash length", || format!("{:?} has a hash of {} bytes", s.suite(), hash.output_len()));
        let one = ctx.call("hash", || hash.hash(&m).as_ref().to_vec());
        ctx.eq("hash", &one.unwrap_or_default(), &sha(n, &m));
        // a history of updates, forks and finishes: every context has a message of its own
        let mut open: Vec<(Vec<u8>, Box<dyn rustls::crypto::hash::Context>)> = vec![(vec![], hash.start())];
        for p in pieces(&mut r, &m) {
            let at = r.below(open.len());
            open[at].0.extend(p);
            open[at].1.update(p);
            match r.below(6) {
                0 => {
                    let f = (open[at].0.clone(), open[at].1.fork());
                    open.push(f);
                }
                1 | 2 => {
                    let got = open[at].1.fork_finish();
                    let want = sha(n, &open[at].0);
                    ctx.eq("fork_finish", got.as_ref(), &want);
                    ctx.observe("forked transcripts", 1);
                }
                3 if open.len() > 1 => {
                    let (m, c) = open.swap_remove(at);
                    ctx.eq("finish", c.finish().as_ref(), &sha(n, &m));
                }
                _ => {}
            }
        }
        for (m, c) in open {
            ctx.eq("finish", c.finish().as_ref(), &sha(n, &m));
            ctx.observe("transcripts", 1);
        }
        let kl = r.below(200);
        let key = r.bytes(kl);
        match s {
            rustls::SupportedCipherSuite::Tls13(x) => {
                let hk = x.hkdf_provider;
                let salt = r.bool().then(|| {
                    let n = r.below(150);
                    r.bytes(n)
                });
                let zero = r.below(4) == 0;
                let z = vec![0u8; n];
                let prk = hm(n, salt.as_deref().unwrap_or(&z), &[if zero { &z } else { &key }]);
                let Some(ex) = ctx.call("extract", || if zero { hk.extract_from_zero_ikm(salt.as_deref()) } else { hk.extract_from_secret(salt.as_deref(), &key) }) else { continue };
                let il = r.below(120);
                let info = r.bytes(il);
                let ip = pieces(&mut r, &info);
                ctx.check(ex.hash_len() == n, "hkdf length", || format!("{:?}: HKDF length {}", s.suite(), ex.hash_len()));
                let mut out = vec![0u8; r.below(300)];
                let ok = ctx.call("expand", || ex.expand_slice(&ip, &mut out).is_ok());
                ctx.check(ok != Some(false), "expand", || "HKDF refuses".into());
                ctx.eq("expand", &out, &expand(n, &prk, &info, out.len()));
                let b = ex.expand_block(&ip);
                ctx.eq("expand_block", b.as_ref(), &expand(n, &prk, &info, n));
                // and on from there
                let ml = r.below(150);
                let msg = r.bytes(ml);
                ctx.eq("hmac_sign", hk.hmac_sign(&b, &msg).as_ref(), &hm(n, b.as_ref(), &[&msg]));
                let mut out = vec![0u8; r.below(100)];
                let _ = hk.expander_for_okm(&b).expand_slice(&ip, &mut out);
                ctx.eq("expander_for_okm", &out, &expand(n, b.as_ref(), &info, out.len()));
                ctx.check(ex.expand_slice(&[], &mut vec![0u8; 255 * n + 1]).is_err(), "expand limit", || "HKDF gives more than 255 blocks".into());
                ctx.observe("key schedule steps", 5);
            }
            rustls::SupportedCipherSuite::Tls12(x) => {
                let ll = r.below(30);
                let label = r.bytes(ll);
                let seed = r.bytes(64);
                let mut out = vec![0u8; r.below(250)];
                let _ = ctx.call("prf", || x.prf_provider.for_secret(&mut out, &key, &label, &seed));
                ctx.eq("prf", &out, &prf(n, &key, &label, &seed, out.len()));
                ctx.observe("PRF outputs", 1);
                // and out of a key exchange
                let g = GROUPS[1 + r.below(3)];
                let e = End::new(g, &mut r);
                if let Ok(a) = graviola(g).start() {
                    let want = e.complete(a.pub_key()).map(|z| prf(n, &z, &label, &seed, 48));
                    let mut out = [0u8; 48];
                    let sh = e.share();
                    let ok = ctx.call("prf kx", || x.prf_provider.for_key_exchange(&mut out, a, &sh, &label, &seed).is_ok());
                    ctx.check(ok == Some(true) && want.as_deref() == Some(&out[..]), "prf kx", || format!("{g:?}: the master secret is {} and should be {:?}", hexs(&out), want.map(|w| hexs(&w))));
                    ctx.observe("master secrets", 1);
                }
            }
        }
    }
    // the provider's generator hands on what the system gave
    let rp = rustls_graviola::default_provider().secure_random;
    for i in 0..ctx.n(100, 1000) {
        let mut b = vec![0u8; if i < 70 { i } else { r.below(5000) }];
        ctx.case("random", format!("{} bytes", b.len()));
        let ok = ctx.call("random", || rp.fill(&mut b).is_ok());
        let mut c = b.clone();
        let ok2 = ctx.call("random", || rp.fill(&mut c).is_ok());
        ctx.check(ok == Some(true) && ok2 == Some(true), "random", || format!("{} random bytes cannot be had", b.len()));
        let same = b.chunks(8).zip(c.chunks(8)).any(|(x, y)| x.len() == 8 && (x == y || x == [0; 8]));
        ctx.check(!same, "random", || format!("{} random bytes are not all drawn", b.len()));
        if !b.is_empty() {
            let at = rngctl::calls();
            rngctl::with(|s| s.fail_at = Some(at));
            let ok = ctx.call("random", || rp.fill(&mut b).is_ok());
            rngctl::with(|s| s.fail_at = None);
            ctx.check(ok == Some(false), "random failure", || "the provider's generator hides a failure".into());
        }
    }
}
