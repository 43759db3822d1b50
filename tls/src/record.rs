//! C25: record protection, against the RFCs' constructions over other AEAD implementations.
use crate::{Job, aead_key};
use aes_gcm::aead::{Aead as _, KeyInit as _, Payload};
use harness::*;
use rustls::crypto::cipher::{InboundOpaqueMessage, Iv, MessageDecrypter, MessageEncrypter, OutboundChunks, OutboundPlainMessage};
use rustls::{ConnectionTrafficSecrets, ContentType, ProtocolVersion, SupportedCipherSuite};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Alg {
    A128,
    A256,
    Cc,
}

/// what the suite's name says
fn alg(s: &SupportedCipherSuite) -> Alg {
    let n = format!("{:?}", s.suite());
    if n.contains("AES_128_GCM") {
        Alg::A128
    } else if n.contains("AES_256_GCM") {
        Alg::A256
    } else {
        Alg::Cc
    }
}

fn is13(s: &SupportedCipherSuite) -> bool {
    format!("{:?}", s.suite()).starts_with("TLS13_")
}

fn seal(a: Alg, key: &[u8], nonce: &[u8; 12], aad: &[u8], msg: &[u8]) -> Vec<u8> {
    let p = Payload { msg, aad };
    match a {
        Alg::A128 => aes_gcm::Aes128Gcm::new_from_slice(key).unwrap().encrypt(nonce.into(), p).unwrap(),
        Alg::A256 => aes_gcm::Aes256Gcm::new_from_slice(key).unwrap().encrypt(nonce.into(), p).unwrap(),
        Alg::Cc => chacha20poly1305::ChaCha20Poly1305::new_from_slice(key).unwrap().encrypt(nonce.into(), p).unwrap(),
    }
}

fn open(a: Alg, key: &[u8], nonce: &[u8; 12], aad: &[u8], msg: &[u8]) -> Option<Vec<u8>> {
    let p = Payload { msg, aad };
    match a {
        Alg::A128 => aes_gcm::Aes128Gcm::new_from_slice(key).unwrap().decrypt(nonce.into(), p).ok(),
        Alg::A256 => aes_gcm::Aes256Gcm::new_from_slice(key).unwrap().decrypt(nonce.into(), p).ok(),
        Alg::Cc => chacha20poly1305::ChaCha20Poly1305::new_from_slice(key).unwrap().decrypt(nonce.into(), p).ok(),
    }
}

#[derive(Clone)]
struct Keys {
    suite: SupportedCipherSuite,
    alg: Alg,
    v13: bool,
    key: Vec<u8>,
    /// as the key block gives it: 12 bytes, or 4 for TLS 1.2 GCM
    iv: Vec<u8>,
    explicit: [u8; 8],
}

impl Keys {
    fn new(suite: SupportedCipherSuite, r: &mut Rng) -> Self {
        let (alg, v13) = (alg(&suite), is13(&suite));
        let n = if alg == Alg::A128 { 16 } else { 32 };
        let ivn = if !v13 && alg != Alg::Cc { 4 } else { 12 };
        Self { suite, alg, v13, key: r.bytes(n), iv: r.biased(ivn), explicit: r.biased(8).try_into().unwrap() }
    }

    fn encrypter(&self) -> Box<dyn MessageEncrypter> {
        match self.suite {
            SupportedCipherSuite::Tls13(s) => s.aead_alg.encrypter(aead_key(&self.key), Iv::copy(&self.iv)),
            SupportedCipherSuite::Tls12(s) => s.aead_alg.encrypter(aead_key(&self.key), &self.iv, &self.explicit),
        }
    }

    fn decrypter(&self) -> Box<dyn MessageDecrypter> {
        match self.suite {
            SupportedCipherSuite::Tls13(s) => s.aead_alg.decrypter(aead_key(&self.key), Iv::copy(&self.iv)),
            SupportedCipherSuite::Tls12(s) => s.aead_alg.decrypter(aead_key(&self.key), &self.iv),
        }
    }

    fn explicit_gcm(&self) -> bool {
        !self.v13 && self.alg != Alg::Cc
    }

    /// RFC 8446 5.3, RFC 7905 2
    fn xor_nonce(&self, seq: u64) -> [u8; 12] {
        let mut n: [u8; 12] = self.iv[..].try_into().unwrap();
        for (a, b) in n[4..].iter_mut().zip(seq.to_be_bytes()) {
            *a ^= b;
        }
        n
    }

    /// the whole record as the RFCs make it
    fn seal(&self, typ: u8, seq: u64, plain: &[u8], padding: usize, explicit: [u8; 8]) -> Vec<u8> {
        let mut out;
        if self.v13 {
            let mut inner = plain.to_vec();
            inner.push(typ);
            inner.resize(inner.len() + padding, 0);
            out = vec![23, 3, 3];
            out.extend(((inner.len() + 16) as u16).to_be_bytes());
            let c = seal(self.alg, &self.key, &self.xor_nonce(seq), &out, &inner);
            out.extend(c);
        } else {
            let mut aad = seq.to_be_bytes().to_vec();
            aad.extend([typ, 3, 3]);
            aad.extend((plain.len() as u16).to_be_bytes());
            let mut body = vec![];
            let nonce = if self.explicit_gcm() {
                body.extend(explicit);
                let mut n = [0; 12];
                n[..4].copy_from_slice(&self.iv);
                n[4..].copy_from_slice(&explicit);
                n
            } else {
                self.xor_nonce(seq)
            };
            body.extend(seal(self.alg, &self.key, &nonce, &aad, plain));
            out = vec![typ, 3, 3];
            out.extend((body.len() as u16).to_be_bytes());
            out.extend(body);
        }
        out
    }

    fn open(&self, seq: u64, rec: &[u8]) -> Option<(u8, Vec<u8>)> {
        let (head, body) = rec.split_at_checked(5)?;
        if self.v13 {
            let mut p = open(self.alg, &self.key, &self.xor_nonce(seq), head, body)?;
            while p.last() == Some(&0) {
                p.pop();
            }
            let t = p.pop()?;
            Some((t, p))
        } else {
            let (nonce, c) = if self.explicit_gcm() {
                let (e, c) = body.split_at_checked(8)?;
                let mut n = [0; 12];
                n[..4].copy_from_slice(&self.iv);
                n[4..].copy_from_slice(e);
                (n, c)
            } else {
                (self.xor_nonce(seq), body)
            };
            let mut aad = seq.to_be_bytes().to_vec();
            aad.extend(&head[..3]);
            aad.extend((c.len().checked_sub(16)? as u16).to_be_bytes());
            Some((head[0], open(self.alg, &self.key, &nonce, &aad, c)?))
        }
    }

    fn name(&self) -> String {
        format!("{:?}", self.suite.suite())
    }
}

fn suites() -> Vec<SupportedCipherSuite> {
    rustls_graviola::suites::ALL_CIPHER_SUITES.to_vec()
}

fn seqs(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.below(3) as u64,
        1 => r.below(70_000) as u64,
        2 => (1u64 << r.below(64)).wrapping_sub(r.below(2) as u64),
        3 => u64::MAX - r.below(3) as u64,
        4 => r.u64() >> r.below(64),
        _ => r.below(1000) as u64,
    }
}

fn lens(ctx: &Ctx, r: &mut Rng, i: usize) -> usize {
    let edges = [16383, 16384, 16382, 16385, 16640, 18432 - 17, 20_000, 4096, 8192, 16000];
    if i < 320 {
        i
    } else if i < 320 + edges.len() {
        edges[i - 320]
    } else if r.below(6) == 0 {
        r.below(16385)
    } else {
        let _ = ctx;
        r.below(1200)
    }
}

/// what encrypt gives back, as it goes on the wire
fn encrypt(e: &mut dyn MessageEncrypter, typ: u8, seq: u64, payload: OutboundChunks<'_>) -> Result<Vec<u8>, rustls::Error> {
    e.encrypt(OutboundPlainMessage { typ: ContentType::from(typ), version: ProtocolVersion::TLSv1_2, payload }, seq).map(|m| m.encode())
}

fn decrypt(d: &mut dyn MessageDecrypter, seq: u64, rec: &[u8]) -> Result<(u8, u16, Vec<u8>), rustls::Error> {
    let mut b = rec[5..].to_vec();
    let m = InboundOpaqueMessage::new(ContentType::from(rec[0]), ProtocolVersion::from(u16::from_be_bytes([rec[1], rec[2]])), &mut b);
    d.decrypt(m, seq).map(|p| (u8::from(p.typ), u16::from(p.version), p.payload.to_vec()))
}

fn chunked<'a>(r: &mut Rng, plain: &'a [u8], junk: &'a [u8], store: &'a mut Vec<&'a [u8]>) -> OutboundChunks<'a> {
    match r.below(4) {
        0 => OutboundChunks::Single(plain),
        k => {
            // pieces, some empty; perhaps with material outside the cursors
            let (pre, post) = if k == 3 { (r.below(junk.len()), r.below(junk.len())) } else { (0, 0) };
            let mut at = 0;
            let first = r.below(plain.len() + 1).min(7 + r.below(3000));
            let mut whole = vec![];
            if pre > 0 {
                whole.push(&junk[..pre]);
            }
            whole.push(&plain[..first]);
            at += first;
            while at < plain.len() {
                let n = match r.below(5) {
                    0 => 0,
                    1 => 1,
                    2 => 1 + r.below(17),
                    _ => 1 + r.below(plain.len()),
                }
                .min(plain.len() - at);
                whole.push(&plain[at..at + n]);
                at += n;
            }
            if post > 0 {
                whole.push(&junk[..post]);
            }
            *store = whole;
            OutboundChunks::Multiple { chunks: store, start: pre, end: pre + plain.len() }
        }
    }
}

fn make(ctx: &mut Ctx) {
    let mut r = ctx.rng("make");
    let junk = r.bytes(400);
    let n = ctx.n(1400, 12_000);
    for (si, suite) in suites().into_iter().enumerate() {
        if !ctx.mine(si) {
            continue;
        }
        let mut i = 0;
        while i < n && ctx.more() {
            let k = Keys::new(suite, &mut r);
            let (mut e, mut d) = (k.encrypter(), k.decrypter());
            // one connection's worth of records under one key
            let mut nonces: HashMap<[u8; 8], u64> = HashMap::new();
            for _ in 0..1 + r.below(40) {
                let len = lens(ctx, &mut r, i);
                i += 1;
                let seq = seqs(&mut r);
                let typ = match r.below(6) {
                    0 => r.u64() as u8 | 1,
                    1 => 21,
                    2 => 22,
                    _ => 23,
                };
                let plain = if r.below(6) == 0 { r.biased(len) } else { r.bytes(len) };
                let mut store = vec![];
                let payload = chunked(&mut r, &plain, &junk, &mut store);
                ctx.case(&k.name(), format!("key={} iv={} explicit={} seq={seq:#x} type={typ} len={len} payload={:?}", hex(&k.key), hex(&k.iv), hex(&k.explicit), match &payload { OutboundChunks::Single(_) => "one piece".to_string(), OutboundChunks::Multiple { chunks, start, .. } => format!("{} pieces from {start}", chunks.len()) }));
                let want_len = e.encrypted_payload_len(len);
                let Some(res) = ctx.call("encrypt", || encrypt(&mut *e, typ, seq, payload)) else { continue };
                let rec = match res {
                    Ok(v) => v,
                    Err(x) => {
                        // a sender may refuse what no receiver would take
                        ctx.check(len > 16384, "encrypt", || format!("refused: {x:?}"));
                        continue;
                    }
                };
                ctx.check(rec.len() == 5 + want_len, "length", || format!("record of {} bytes where {} were announced", rec.len() - 5, want_len));
                let head = [if k.v13 { 23 } else { typ }, 3, 3, (want_len >> 8) as u8, want_len as u8];
                ctx.eq("header", &rec[..5], &head);
                if k.explicit_gcm() {
                    let ex: [u8; 8] = rec[5..13].try_into().unwrap();
                    if let Some(o) = nonces.insert(ex, seq) {
                        ctx.check(o == seq, "nonce", || format!("records {o:#x} and {seq:#x} have the same nonce {}", hex(&ex)));
                    }
                    ctx.observe("explicit nonces compared", 1);
                } else {
                    // no freedom at all
                    let want = k.seal(typ, seq, &plain, 0, [0; 8]);
                    ctx.eq("record", &rec, &want);
                }
                match k.open(seq, &rec) {
                    Some((t, p)) => {
                        ctx.check(t == typ, "type", || format!("type {t}"));
                        ctx.eq("opened", &p, &plain);
                    }
                    None => ctx.fail("opened", "an independent implementation cannot open the record".into()),
                }
                // and back through the library
                if let Some(b) = ctx.call("decrypt", || decrypt(&mut *d, seq, &rec)) {
                    match b {
                        Ok((t, v, p)) => {
                            ctx.check(len <= 16384, "oversized", || format!("{len} bytes accepted"));
                            ctx.check(t == typ && v == if k.v13 { 0x0304 } else { 0x0303 }, "round trip", || format!("type {t} version {v:#x}"));
                            ctx.eq("round trip", &p, &plain);
                        }
                        Err(x) => {
                            ctx.check(len > 16384, "round trip", || format!("refused: {x:?}"));
                        }
                    }
                }
            }
        }
    }
}

/// records made by the other implementation
fn take(ctx: &mut Ctx) {
    let mut r = ctx.rng("take");
    let n = ctx.n(1200, 10_000);
    for (si, suite) in suites().into_iter().enumerate() {
        if !ctx.mine(si) {
            continue;
        }
        let mut i = 0;
        while i < n && ctx.more() {
            let k = Keys::new(suite, &mut r);
            let mut d = k.decrypter();
            for _ in 0..1 + r.below(20) {
                let len = lens(ctx, &mut r, i);
                i += 1;
                let seq = seqs(&mut r);
                let typ = if r.below(4) == 0 { r.u64() as u8 | 1 } else { 23 };
                let mut plain = if r.below(3) == 0 { r.biased(len) } else { r.bytes(len) };
                if r.below(4) == 0 {
                    plain.iter_mut().rev().take(5).for_each(|b| *b = 0);
                }
                let padding = match (k.v13, r.below(6)) {
                    (false, _) | (_, 0..=2) => 0,
                    (_, 3) => r.below(40),
                    (_, 4) => 16384usize.saturating_sub(len),
                    _ => 1 + 16384usize.saturating_sub(len),
                };
                let rec = k.seal(typ, seq, &plain, padding, r.biased(8).try_into().unwrap());
                ctx.case(&k.name(), format!("key={} iv={} seq={seq:#x} type={typ} len={len} padding={padding} record={}", hex(&k.key), hex(&k.iv), hexs(&rec)));
                // RFC 8446 5.4: content, type and padding together are at most 2^14 + 1 bytes
                let fits = if k.v13 { len + padding <= 16384 } else { len <= 16384 };
                match ctx.call("decrypt", || decrypt(&mut *d, seq, &rec)) {
                    Some(Ok((t, v, p))) => {
                        if fits {
                            ctx.check(t == typ && v == if k.v13 { 0x0304 } else { 0x0303 }, "type", || format!("type {t} version {v:#x}"));
                            ctx.eq("plaintext", &p, &plain);
                        } else {
                            ctx.fail("oversized", format!("a record with {len} bytes of content and {padding} of padding was accepted"));
                        }
                    }
                    Some(Err(e)) => {
                        ctx.check(!fits, "decrypt", || format!("refused: {e:?}"));
                        if !fits {
                            ctx.observe("oversized records refused", 1);
                        }
                    }
                    None => (),
                }
            }
        }
    }
}

fn refuse(ctx: &mut Ctx, d: &mut dyn MessageDecrypter, seq: u64, rec: &[u8], what: &str) {
    match ctx.call("altered", || decrypt(d, seq, rec)) {
        Some(Ok((t, _, p))) => ctx.fail("altered", format!("accepted {what}: type {t} content {}", hexs(&p))),
        Some(Err(_)) => ctx.observe("altered records refused", 1),
        None => (),
    }
}

fn alter(ctx: &mut Ctx) {
    let mut r = ctx.rng("alter");
    for (si, suite) in suites().into_iter().enumerate() {
        if !ctx.mine(si) {
            continue;
        }
        for round in 0..ctx.n(10, 60) {
            if !ctx.more() {
                break;
            }
            let k = Keys::new(suite, &mut r);
            let other = Keys::new(suite, &mut r);
            let mut d = k.decrypter();
            let len = *r.pick(&[0usize, 1, 5, 16, 31, 64, 100, 300]);
            let (seq, plain) = (seqs(&mut r), r.bytes(len));
            let ex: [u8; 8] = r.arr();
            let rec = k.seal(23, seq, &plain, 0, ex);
            ctx.case(&k.name(), format!("round={round} key={} iv={} seq={seq:#x} record={}", hex(&k.key), hex(&k.iv), hexs(&rec)));
            // every byte of the body, several ways
            for i in 5..rec.len() {
                for x in [1u8, 0x80, 1 << r.below(8), r.u64() as u8 | 2] {
                    let mut a = rec.clone();
                    a[i] ^= x;
                    ctx.evals += 1;
                    refuse(ctx, &mut *d, seq, &a, &format!("byte {i} xor {x:#x}"));
                }
            }
            if !k.v13 {
                // the header counts too
                for t in 0..=255u8 {
                    if t != 23 {
                        let mut a = rec.clone();
                        a[0] = t;
                        ctx.evals += 1;
                        refuse(ctx, &mut *d, seq, &a, &format!("type {t}"));
                    }
                }
                for v in [0x0300u16, 0x0301, 0x0302, 0x0304, 0xfefd, 0] {
                    let mut a = rec.clone();
                    a[1..3].copy_from_slice(&v.to_be_bytes());
                    ctx.evals += 1;
                    refuse(ctx, &mut *d, seq, &a, &format!("version {v:#x}"));
                }
            }
            // lengths
            for n in 0..rec.len() - 5 {
                ctx.evals += 1;
                refuse(ctx, &mut *d, seq, &rec[..5 + n], &format!("cut to {n} bytes"));
                refuse(ctx, &mut *d, seq, &[&rec[..5], &rec[rec.len() - n..]].concat(), &format!("last {n} bytes"));
            }
            for n in [1, 2, 15, 16, 17, 32] {
                let junk = r.biased(n);
                ctx.evals += 2;
                refuse(ctx, &mut *d, seq, &[&rec[..], &junk].concat(), &format!("{n} bytes added"));
                refuse(ctx, &mut *d, seq, &[&rec[..5], &junk, &rec[5..]].concat(), &format!("{n} bytes put before"));
            }
            // history: another place in the sequence
            for s in [seq.wrapping_add(1), seq.wrapping_sub(1), 0, 1, u64::MAX, seq ^ (1 << 32), seq ^ (1 << 63), seq.swap_bytes(), seq.rotate_left(8), r.u64()] {
                if s != seq {
                    ctx.evals += 1;
                    refuse(ctx, &mut *d, s, &rec, &format!("at sequence number {s:#x}"));
                }
            }
            // another key, another salt
            ctx.evals += 2;
            refuse(ctx, &mut *other.decrypter(), seq, &rec, "another key's record");
            let mut k2 = k.clone();
            k2.iv[r.below(4)] ^= 1 << r.below(8);
            refuse(ctx, &mut *k2.decrypter(), seq, &rec, "another salt's record");
            if k.v13 {
                // nothing but zeros inside
                let mut z = k.clone();
                z.v13 = true;
                for n in [0usize, 1, 3, 100, 16385] {
                    let mut head = vec![23, 3, 3];
                    head.extend(((n + 16) as u16).to_be_bytes());
                    let c = seal(k.alg, &k.key, &k.xor_nonce(seq), &head, &vec![0; n]);
                    head.extend(c);
                    ctx.evals += 1;
                    refuse(ctx, &mut *d, seq, &head, &format!("{n} zeros and no type"));
                }
            }
            // and the decrypter is none the worse
            match ctx.call("after", || decrypt(&mut *d, seq, &rec)) {
                Some(Ok((23, _, p))) => {
                    ctx.eq("after", &p, &plain);
                }
                Some(x) => ctx.fail("after", format!("the unaltered record: {x:?}")),
                None => (),
            }
        }
    }
}

/// the other way round for keys handed to the application, and what suites say of themselves
fn about(ctx: &mut Ctx) {
    let mut r = ctx.rng("about");
    for suite in suites() {
        for _ in 0..ctx.n(40, 200) {
            let k = Keys::new(suite, &mut r);
            let n = k.key.len();
            ctx.case(&k.name(), format!("extract key={} iv={} explicit={}", hex(&k.key), hex(&k.iv), hex(&k.explicit)));
            let secrets = ctx.call("extract", || match suite {
                SupportedCipherSuite::Tls13(s) => {
                    (s.aead_alg.key_len(), s.aead_alg.extract_keys(aead_key(&k.key), Iv::copy(&k.iv)))
                }
                SupportedCipherSuite::Tls12(s) => {
                    let sh = s.aead_alg.key_block_shape();
                    let ok = sh.fixed_iv_len == k.iv.len() && sh.explicit_nonce_len == if k.explicit_gcm() { 8 } else { 0 };
                    (if ok { sh.enc_key_len } else { 0 }, s.aead_alg.extract_keys(aead_key(&k.key), &k.iv, if k.explicit_gcm() { &k.explicit } else { &[] }))
                }
            });
            let Some((kl, secrets)) = secrets else { continue };
            ctx.check(kl == n, "key length", || format!("key length {kl}, or key block shape, is not that of the suite"));
            let (a, key, iv) = match secrets {
                Ok(ConnectionTrafficSecrets::Aes128Gcm { key, iv }) => (Alg::A128, key, iv),
                Ok(ConnectionTrafficSecrets::Aes256Gcm { key, iv }) => (Alg::A256, key, iv),
                Ok(ConnectionTrafficSecrets::Chacha20Poly1305 { key, iv }) => (Alg::Cc, key, iv),
                _ => {
                    ctx.fail("extract", "no secrets, or of another kind".into());
                    continue;
                }
            };
            ctx.check(a == k.alg, "extract", || format!("secrets of kind {a:?}"));
            ctx.eq("extracted key", key.as_ref(), &k.key);
            let want = if k.explicit_gcm() { [&k.iv[..], &k.explicit].concat() } else { k.iv.clone() };
            ctx.eq("extracted iv", iv.as_ref(), &want);
        }
        // RFC 8446 5.5: 2^24.5 full-size records for AES-GCM
        let common = match suite {
            SupportedCipherSuite::Tls13(s) => &s.common,
            SupportedCipherSuite::Tls12(s) => &s.common,
        };
        ctx.case("limit", format!("{:?}", suite.suite()));
        let gcm = alg(&suite) != Alg::Cc;
        ctx.check(!gcm || common.confidentiality_limit <= 23_726_566, "limit", || format!("{} records under one key", common.confidentiality_limit));
        ctx.check(common.confidentiality_limit >= 1 << 16, "limit", || format!("only {} records under one key", common.confidentiality_limit));
        let h = format!("{:?}", common.hash_provider.algorithm());
        let want = if format!("{:?}", suite.suite()).ends_with("SHA384") { "SHA384" } else { "SHA256" };
        ctx.check(h == want, "hash", || format!("{:?} hashes with {h}", suite.suite()));
    }
}

pub fn jobs_c25(t: bool) -> Vec<Job> {
    let k = if t { 9 } else { 3 };
    vec![("make", "native", k), ("make", "min", 2), ("make", "rel", 2), ("take", "native", k), ("take", "min", 2), ("take", "rel", 2), ("alter", "native", k), ("alter", "min", 2), ("alter", "rel", 2), ("about", "native", 1)]
}

pub fn run_c25(ctx: &mut Ctx) {
    match ctx.section.as_str() {
        "make" => make(ctx),
        "take" => take(ctx),
        "alter" => alter(ctx),
        _ => about(ctx),
    }
}
