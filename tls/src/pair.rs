//! C24: handshakes of the provider with another provider (ring, plus a hybrid group made of ml-kem and x25519-dalek)
use crate::Job;
use crate::kx::{self, GROUPS, PEER_HYBRID};
use harness::*;
use rustls::client::{ClientSessionMemoryCache, Resumption, WebPkiServerVerifier};
use rustls::crypto::{CryptoProvider, SupportedKxGroup, WebPkiSupportedAlgorithms};
use rustls::pki_types::pem::PemObject as _;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use rustls::server::WebPkiClientVerifier;
use rustls::{CipherSuite, ClientConfig, ClientConnection, HandshakeKind, KeyLog, NamedGroup, ProtocolVersion, RootCertStore, ServerConfig, ServerConnection, SignatureScheme};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};

pub struct Cert {
    pub name: &'static str,
    chain: &'static str,
    key: &'static str,
    ca: &'static str,
}
macro_rules! cert {
    ($n:literal) => {
        Cert { name: $n, chain: include_str!(concat!("../keys/", $n, "/end.fullchain")), key: include_str!(concat!("../keys/", $n, "/end.key")), ca: include_str!(concat!("../keys/", $n, "/ca.cert")) }
    };
}
pub static CERTS: [Cert; 6] = [cert!("rsa-2048"), cert!("rsa-3072"), cert!("rsa-4096"), cert!("ecdsa-p256"), cert!("ecdsa-p384"), cert!("ed25519")];

impl Cert {
    fn chain(&self) -> Vec<CertificateDer<'static>> {
        CertificateDer::pem_slice_iter(self.chain.as_bytes()).map(|c| c.unwrap()).collect()
    }
    fn key(&self) -> PrivateKeyDer<'static> {
        PrivateKeyDer::from_pem_slice(self.key.as_bytes()).unwrap()
    }
    fn roots(&self) -> Arc<RootCertStore> {
        let mut r = RootCertStore::empty();
        r.add(CertificateDer::from_pem_slice(self.ca.as_bytes()).unwrap()).unwrap();
        Arc::new(r)
    }
    /// whose suites may be used with it
    fn rsa(&self) -> bool {
        self.name.starts_with("rsa")
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Who {
    Graviola,
    Ring,
}

#[derive(Clone, Debug)]
struct Side {
    who: Who,
    suites: Vec<CipherSuite>,
    groups: Vec<NamedGroup>,
    schemes: Option<Vec<SignatureScheme>>,
}

impl Side {
    fn all(who: Who) -> Side {
        Side { who, suites: vec![], groups: vec![], schemes: None }
    }
    fn provider(&self) -> Arc<CryptoProvider> {
        let mut p = match self.who {
            Who::Graviola => rustls_graviola::default_provider(),
            Who::Ring => {
                let mut p = rustls::crypto::ring::default_provider();
                p.kx_groups.insert(0, &PEER_HYBRID);
                p
            }
        };
        if !self.suites.is_empty() {
            p.cipher_suites = self.suites.iter().filter_map(|s| p.cipher_suites.iter().find(|x| x.suite() == *s)).copied().collect();
        }
        if !self.groups.is_empty() {
            p.kx_groups = self.groups.iter().filter_map(|g| p.kx_groups.iter().find(|x| x.name() == *g)).copied().collect::<Vec<&'static dyn SupportedKxGroup>>();
        }
        if let Some(s) = &self.schemes {
            let a = p.signature_verification_algorithms;
            let m: Vec<_> = a.mapping.iter().filter(|x| s.contains(&x.0)).copied().collect();
            p.signature_verification_algorithms = WebPkiSupportedAlgorithms { all: a.all, mapping: Box::leak(m.into_boxed_slice()) };
        }
        Arc::new(p)
    }
}

/// everything the two ends say about their secrets
#[derive(Debug, Default)]
struct Log(Mutex<Vec<(String, Vec<u8>, Vec<u8>)>>);
impl KeyLog for Log {
    fn log(&self, label: &str, random: &[u8], secret: &[u8]) {
        self.0.lock().unwrap().push((label.into(), random.into(), secret.into()));
    }
}
impl Log {
    fn take(&self) -> Vec<(String, Vec<u8>, Vec<u8>)> {
        let mut v = std::mem::take(&mut *self.0.lock().unwrap());
        v.sort();
        v.dedup();
        v
    }
}

#[derive(Clone, Debug)]
struct Plan {
    client: Side,
    server: Side,
    cert: usize,
    client_cert: Option<usize>,
    version: ProtocolVersion,
    /// session tickets rather than sessions kept by the server
    tickets: bool,
    early: bool,
    fragment: Option<usize>,
}

struct Ends {
    client: Arc<ClientConfig>,
    server: Arc<ServerConfig>,
    logs: [Arc<Log>; 2],
}

static V12: [&rustls::SupportedProtocolVersion; 1] = [&rustls::version::TLS12];
static V13: [&rustls::SupportedProtocolVersion; 1] = [&rustls::version::TLS13];
fn versions(v: ProtocolVersion) -> &'static [&'static rustls::SupportedProtocolVersion] {
    match v {
        ProtocolVersion::TLSv1_2 => &V12,
        ProtocolVersion::TLSv1_3 => &V13,
        _ => rustls::DEFAULT_VERSIONS,
    }
}

fn ends(p: &Plan) -> Result<Ends, String> {
    let logs = [Arc::new(Log::default()), Arc::new(Log::default())];
    let e = |x: rustls::Error| format!("{x:?}");
    let sp = p.server.provider();
    let cert = &CERTS[p.cert];
    let b = ServerConfig::builder_with_provider(sp.clone()).with_protocol_versions(versions(p.version)).map_err(e)?;
    let b = match p.client_cert {
        None => b.with_no_client_auth(),
        Some(c) => b.with_client_cert_verifier(WebPkiClientVerifier::builder_with_provider(CERTS[c].roots(), sp).build().unwrap()),
    };
    let mut server = b.with_single_cert(cert.chain(), cert.key()).map_err(e)?;
    if p.tickets {
        server.ticketer = match p.server.who {
            Who::Graviola => rustls_graviola::Ticketer::new(),
            Who::Ring => rustls::crypto::ring::Ticketer::new(),
        }
        .map_err(e)?;
    }
    if p.early {
        server.max_early_data_size = 5000;
        server.send_half_rtt_data = true;
    }
    server.max_fragment_size = p.fragment;
    server.key_log = logs[1].clone();
    let cp = p.client.provider();
    let v = WebPkiServerVerifier::builder_with_provider(cert.roots(), cp.clone()).build().unwrap();
    let b = ClientConfig::builder_with_provider(cp).with_protocol_versions(versions(p.version)).map_err(e)?.with_webpki_verifier(v);
    let mut client = match p.client_cert {
        None => b.with_no_client_auth(),
        Some(c) => b.with_client_auth_cert(CERTS[c].chain(), CERTS[c].key()).map_err(e)?,
    };
    client.resumption = Resumption::store(Arc::new(ClientSessionMemoryCache::new(32)));
    client.enable_early_data = p.early;
    client.max_fragment_size = p.fragment;
    client.key_log = logs[0].clone();
    Ok(Ends { client: Arc::new(client), server: Arc::new(server), logs })
}

/// a byte of the handshake, counted over both directions, to be altered in transit
struct Tamper {
    at: usize,
    bit: u8,
    seen: usize,
    hit: bool,
    /// still to come of the current record's header and body, per direction
    header: [usize; 2],
    body: [usize; 2],
    len: [usize; 2],
}
impl Tamper {
    fn pass(&mut self, dir: usize, b: &mut [u8]) {
        for x in b {
            if self.body[dir] == 0 {
                // record headers are not the handshake's: only the length counts
                self.len[dir] = self.len[dir] << 8 | *x as usize;
                self.header[dir] += 1;
                if self.header[dir] == 5 {
                    self.body[dir] = self.len[dir] & 0xffff;
                    self.header[dir] = 0;
                    self.len[dir] = 0;
                }
                continue;
            }
            self.body[dir] -= 1;
            if self.seen == self.at && !self.hit {
                *x ^= 1 << self.bit;
                self.hit = true;
            }
            self.seen += 1;
        }
    }
}

struct Wire {
    bytes: usize,
    flights: usize,
}

/// carry what one end has to say to the other, in pieces
fn carry(c: &mut ClientConnection, s: &mut ServerConnection, r: &mut Rng, w: &mut Wire, mut t: Option<&mut Tamper>) -> Result<(), String> {
    let mut idle = 0;
    while idle < 2 {
        idle += 1;
        for dir in 0..2 {
            let mut out = vec![];
            if dir == 0 {
                while c.wants_write() {
                    c.write_tls(&mut out).unwrap();
                }
            } else {
                while s.wants_write() {
                    s.write_tls(&mut out).unwrap();
                }
            }
            if out.is_empty() {
                continue;
            }
            idle = 0;
            w.flights += 1;
            w.bytes += out.len();
            if let Some(t) = &mut t {
                if c.is_handshaking() || s.is_handshaking() {
                    t.pass(dir, &mut out);
                }
            }
            let mut at = 0;
            while at < out.len() {
                let n = match r.below(3) {
                    0 => 1 + r.below(40),
                    1 => 1 + r.below(3000),
                    _ => out.len(),
                }
                .min(out.len() - at);
                let mut piece = &out[at..at + n];
                at += n;
                while !piece.is_empty() {
                    if dir == 0 {
                        s.read_tls(&mut piece).map_err(|e| format!("server: {e}"))?;
                        s.process_new_packets().map_err(|e| format!("server: {e:?}"))?;
                    } else {
                        c.read_tls(&mut piece).map_err(|e| format!("client: {e}"))?;
                        c.process_new_packets().map_err(|e| format!("client: {e:?}"))?;
                    }
                    drain(c, s);
                }
            }
        }
    }
    Ok(())
}

thread_local! {
    static GOT: std::cell::RefCell<[Vec<u8>; 2]> = const { std::cell::RefCell::new([vec![], vec![]]) };
}

/// received plaintext, [by the server, by the client]
fn drain(c: &mut ClientConnection, s: &mut ServerConnection) {
    GOT.with(|g| {
        let mut g = g.borrow_mut();
        let mut b = [0u8; 20000];
        while let Ok(n) = s.reader().read(&mut b) {
            if n == 0 {
                break;
            }
            g[0].extend(&b[..n]);
        }
        while let Ok(n) = c.reader().read(&mut b) {
            if n == 0 {
                break;
            }
            g[1].extend(&b[..n]);
        }
    })
}
fn received() -> [Vec<u8>; 2] {
    GOT.with(|g| std::mem::take(&mut *g.borrow_mut()))
}

struct Outcome {
    kind: HandshakeKind,
    suite: CipherSuite,
    group: Option<NamedGroup>,
    version: ProtocolVersion,
    early: bool,
    bytes: usize,
}

/// one connection: handshake, data both ways, key updates, close. Any difference of opinion is an error.
fn connect(e: &Ends, r: &mut Rng, amount: usize) -> Result<Outcome, String> {
    let fail = |x: &str| -> Result<Outcome, String> { Err(x.to_string()) };
    let (_, _) = (e.logs[0].take(), e.logs[1].take());
    received();
    let mut c = ClientConnection::new(e.client.clone(), "localhost".try_into().unwrap()).map_err(|x| format!("client: {x:?}"))?;
    let mut s = ServerConnection::new(e.server.clone()).map_err(|x| format!("server: {x:?}"))?;
    c.set_buffer_limit(None);
    s.set_buffer_limit(None);
    let mut w = Wire { bytes: 0, flights: 0 };
    let mut ed = vec![];
    if let Some(mut d) = c.early_data() {
        let n = r.below(3000);
        ed = r.bytes(n);
        d.write_all(&ed).map_err(|x| format!("early data: {x}"))?;
    }
    // (early data must be read before the handshake is over)
    let mut first = vec![];
    while c.wants_write() {
        c.write_tls(&mut first).unwrap();
    }
    w.bytes += first.len();
    let mut piece = &first[..];
    while !piece.is_empty() {
        s.read_tls(&mut piece).map_err(|x| format!("server: {x}"))?;
        s.process_new_packets().map_err(|x| format!("server: {x:?}"))?;
    }
    let mut got_early = vec![];
    if let Some(mut d) = s.early_data() {
        d.read_to_end(&mut got_early).map_err(|x| format!("early data: {x}"))?;
    }
    carry(&mut c, &mut s, r, &mut w, None)?;
    if c.is_handshaking() || s.is_handshaking() {
        return fail("the handshake does not end");
    }
    let early = c.is_early_data_accepted();
    if early && got_early != ed {
        return fail("early data arrives altered");
    }
    if !early && !got_early.is_empty() {
        return fail("early data refused by the client's account arrives");
    }
    let kind = c.handshake_kind().unwrap();
    if s.handshake_kind() != Some(kind) || c.protocol_version() != s.protocol_version() || c.negotiated_cipher_suite().map(|x| x.suite()) != s.negotiated_cipher_suite().map(|x| x.suite()) {
        return fail("the two ends disagree on what was agreed");
    }
    let group = c.negotiated_key_exchange_group().map(|g| g.name());
    if group != s.negotiated_key_exchange_group().map(|g| g.name()) {
        return fail("the two ends disagree on the group");
    }
    // the secrets are the same
    let (a, b) = (e.logs[0].take(), e.logs[1].take());
    if a.is_empty() {
        return fail("nothing was logged");
    }
    if a != b {
        // (not both ends have a use for the early secrets)
        let common = |v: &[(String, Vec<u8>, Vec<u8>)]| v.iter().filter(|x| !x.0.contains("EARLY")).cloned().collect::<Vec<_>>();
        if common(&a) != common(&b) || a.iter().any(|x| b.iter().any(|y| x.0 == y.0 && x.1 == y.1 && x.2 != y.2)) {
            return Err(format!("the two ends have different secrets: {:?} and {:?}", common(&a).iter().map(|x| (&x.0, hexs(&x.1), hexs(&x.2))).collect::<Vec<_>>(), common(&b).iter().map(|x| (&x.0, hexs(&x.1), hexs(&x.2))).collect::<Vec<_>>()));
        }
    }
    let mut cb = vec![0u8; 77];
    let ca = c.export_keying_material(&mut cb, b"EXPORTER-verif", Some(b"context")).is_ok();
    let mut sb = vec![0u8; 77];
    let sa = s.export_keying_material(&mut sb, b"EXPORTER-verif", Some(b"context")).is_ok();
    if !ca || !sa || cb != sb {
        return fail("exported key material differs");
    }
    // and the certificates arrived
    if c.peer_certificates().map(|x| x.len()).unwrap_or(0) == 0 {
        return fail("the client has no certificate");
    }
    let mut sent = [0usize; 2];
    for round in 0..3 {
        let sizes = [0usize, 1, 15, 16, 17, 255, 256, 257, 1400, 4096, 16383, 16384, 16385, 40000];
        for _ in 0..amount {
            let n = if r.below(3) == 0 { *r.pick(&sizes) } else { r.below(3000) };
            let m = r.bytes(n);
            let n = r.below(1 + n);
            let m2 = r.bytes(n);
            c.writer().write_all(&m).map_err(|x| x.to_string())?;
            s.writer().write_all(&m2).map_err(|x| x.to_string())?;
            carry(&mut c, &mut s, r, &mut w, None)?;
            let [x, y] = received();
            if x != m || y != m2 {
                return Err(format!("data arrives altered: {} of {} and {} of {} bytes", x.len(), m.len(), y.len(), m2.len()));
            }
            sent[0] += m.len();
            sent[1] += m2.len();
        }
        if c.protocol_version() == Some(ProtocolVersion::TLSv1_3) && round < 2 {
            if r.bool() {
                c.refresh_traffic_keys().map_err(|x| format!("key update: {x:?}"))?;
            }
            if r.bool() {
                s.refresh_traffic_keys().map_err(|x| format!("key update: {x:?}"))?;
            }
        }
    }
    let (suite, version) = (c.negotiated_cipher_suite().unwrap().suite(), c.protocol_version().unwrap());
    c.send_close_notify();
    s.send_close_notify();
    carry(&mut c, &mut s, r, &mut w, None)?;
    Ok(Outcome { kind, suite, group, version, early, bytes: w.bytes })
}

fn suites(v: ProtocolVersion, rsa: bool) -> Vec<CipherSuite> {
    rustls_graviola::suites::ALL_CIPHER_SUITES
        .iter()
        .filter(|s| s.version().version == v && (v == ProtocolVersion::TLSv1_3 || format!("{:?}", s.suite()).contains("_RSA_") == rsa))
        .map(|s| s.suite())
        .collect()
}

const ROLES: [(Who, Who); 3] = [(Who::Graviola, Who::Ring), (Who::Ring, Who::Graviola), (Who::Graviola, Who::Graviola)];

fn note(ctx: &mut Ctx, o: &Outcome) {
    ctx.observe(&format!("{:?} handshakes", o.kind), 1);
    ctx.observe("bytes carried", o.bytes as u64);
    if o.early {
        ctx.observe("early data accepted", 1);
    }
}

/// the whole table
fn pairs(ctx: &mut Ctx) {
    let mut r = ctx.rng("pairs");
    let names: Vec<_> = rustls_graviola::suites::ALL_CIPHER_SUITES.iter().map(|s| s.suite()).collect();
    let ring: Vec<_> = rustls::crypto::ring::default_provider().cipher_suites.iter().map(|s| s.suite()).collect();
    ctx.check(ring.iter().all(|s| names.contains(s)) && names.len() == 9, "suites", || format!("the provider offers {names:?}"));
    let mut i = 0;
    for v in [ProtocolVersion::TLSv1_3, ProtocolVersion::TLSv1_2] {
        for cert in 0..6 {
            for suite in suites(v, CERTS[cert].rsa()) {
                for g in GROUPS {
                    if v == ProtocolVersion::TLSv1_2 && g == NamedGroup::X25519MLKEM768 {
                        continue;
                    }
                    for (cw, sw) in ROLES {
                        i += 1;
                        // outside the debug build a sample is enough
                        if !ctx.mine(i) || ctx.config != "native" && r.below(ctx.n(5, 2)) != 0 {
                            continue;
                        }
                        if !ctx.more() {
                            return;
                        }
                        let one = |who| Side { who, suites: vec![suite], groups: vec![g], schemes: None };
                        // the one with the choice restricted is graviola, the other offers all it has (or the same)
                        let both = r.bool();
                        let (mut client, mut server) = (one(cw), one(sw));
                        if !both {
                            if r.bool() {
                                client = Side { groups: vec![g], ..Side::all(cw) };
                                server.groups = vec![];
                            } else {
                                server = Side { suites: vec![suite], groups: vec![g], ..Side::all(sw) };
                                client.suites = vec![];
                            }
                        }
                        let p = Plan { client, server, cert, client_cert: (r.below(4) == 0).then(|| r.below(6)), version: v, tickets: r.bool(), early: false, fragment: None };
                        run_plan(ctx, &p, &mut r, Some(g), None, both.then_some(suite));
                    }
                }
            }
        }
    }
}

/// a full handshake and two resumptions
fn run_plan(ctx: &mut Ctx, p: &Plan, r: &mut Rng, group: Option<NamedGroup>, first: Option<HandshakeKind>, suite: Option<CipherSuite>) {
    let class = format!("{:?} client {:?} server {:?}", p.version, p.client.who, p.server.who);
    ctx.case(&class, format!("{p:?}"));
    let Some(e) = ctx.call("config", || ends(p)) else { return };
    let e = match e {
        Ok(e) => e,
        Err(x) => return ctx.fail("config", format!("{x} with {p:?}")),
    };
    for round in 0..3 {
        let amount = ctx.n(1, 3);
        let Some(o) = ctx.call("connect", || connect(&e, r, amount)) else { return };
        match o {
            Err(x) => return ctx.fail("connect", format!("connection {round} with {p:?}: {x}")),
            Ok(o) => {
                note(ctx, &o);
                let full = matches!(o.kind, HandshakeKind::Full | HandshakeKind::FullWithHelloRetryRequest);
                ctx.check(full == (round == 0), "resumption", || format!("connection {round} with {p:?} is {:?}", o.kind));
                if let (0, Some(k)) = (round, first) {
                    ctx.check(o.kind == k, "handshake", || format!("{:?} with {p:?}", o.kind));
                }
                ctx.check((o.version == p.version || p.version == ProtocolVersion::Unknown(0)) && suite.is_none_or(|s| s == o.suite), "agreed", || format!("agreed {:?} {:?} with {p:?}", o.version, o.suite));
                if round == 0 || o.version == ProtocolVersion::TLSv1_3 {
                    ctx.check(group.is_none() || o.group == group, "group", || format!("agreed {:?} with {p:?}", o.group));
                }
            }
        }
    }
}

/// whatever else can be asked of a handshake
fn modes(ctx: &mut Ctx) {
    let mut r = ctx.rng("modes");
    let (t13, t12, any) = (ProtocolVersion::TLSv1_3, ProtocolVersion::TLSv1_2, ProtocolVersion::Unknown(0));
    for i in 0..ctx.n(210, 3000) {
        if !ctx.mine(i) {
            continue;
        }
        if !ctx.more() {
            return;
        }
        let (cw, sw) = ROLES[i % 3];
        let cert = r.below(6);
        let base = Plan { client: Side::all(cw), server: Side::all(sw), cert, client_cert: None, version: t13, tickets: r.bool(), early: false, fragment: None };
        match i / 3 % 7 {
            0 => {
                // both as they come
                let v = *r.pick(&[any, t13, t12]);
                let g = if v == t12 { None } else { Some(NamedGroup::X25519MLKEM768) };
                run_plan(ctx, &Plan { version: v, ..base }, &mut r, g, Some(HandshakeKind::Full), None);
            }
            1 => {
                // the server wants another group than the client guessed
                let a = *r.pick(&GROUPS);
                let others: Vec<_> = GROUPS.into_iter().filter(|g| *g != a && !(a == NamedGroup::X25519MLKEM768 && *g == NamedGroup::X25519)).collect();
                let b = *r.pick(&others);
                let p = Plan { client: Side { groups: vec![a, b], ..Side::all(cw) }, server: Side { groups: vec![b], ..Side::all(sw) }, ..base };
                run_plan(ctx, &p, &mut r, Some(b), Some(HandshakeKind::FullWithHelloRetryRequest), None);
            }
            2 => {
                // the classical half of a hybrid share is good enough
                let p = Plan { client: Side { groups: vec![NamedGroup::X25519MLKEM768, NamedGroup::X25519], ..Side::all(cw) }, server: Side { groups: vec![NamedGroup::X25519], ..Side::all(sw) }, ..base };
                run_plan(ctx, &p, &mut r, Some(NamedGroup::X25519), (cw == Who::Graviola).then_some(HandshakeKind::Full), None);
            }
            3 => {
                // certificates both ways
                let p = Plan { client_cert: Some(i / 21 % 6), version: *r.pick(&[t12, t13]), ..base };
                run_plan(ctx, &p, &mut r, None, None, None);
            }
            4 => run_plan(ctx, &Plan { early: true, ..base }, &mut r, None, None, None),
            5 => {
                let f = *r.pick(&[32usize, 33, 64, 100, 512, 1000, 16384]);
                run_plan(ctx, &Plan { fragment: Some(f), version: *r.pick(&[t12, t13]), ..base }, &mut r, None, None, None)
            }
            _ => {
                // only some suites, groups
                let v = *r.pick(&[t12, t13]);
                let mut s = suites(v, CERTS[cert].rsa());
                s.rotate_left(r.below(3));
                s.truncate(1 + r.below(3));
                let want = s[0];
                let p = Plan { client: Side { suites: s, ..Side::all(cw) }, version: v, ..base };
                let many = p.client.suites.len() > 1;
                run_plan(ctx, &p, &mut r, None, None, (!many).then_some(want));
            }
        }
    }
}

/// each signature scheme, as the only one the other end takes
fn schemes(ctx: &mut Ctx) {
    use SignatureScheme as S;
    let mut r = ctx.rng("schemes");
    let table: [(S, &[usize], bool); 9] = [
        (S::RSA_PSS_SHA256, &[0, 1, 2], true),
        (S::RSA_PSS_SHA384, &[0, 1, 2], true),
        (S::RSA_PSS_SHA512, &[0, 1, 2], true),
        (S::RSA_PKCS1_SHA256, &[0, 1, 2], false),
        (S::RSA_PKCS1_SHA384, &[0, 1, 2], false),
        (S::RSA_PKCS1_SHA512, &[0, 1, 2], false),
        (S::ECDSA_NISTP256_SHA256, &[3], true),
        (S::ECDSA_NISTP384_SHA384, &[4], true),
        (S::ED25519, &[5], true),
    ];
    let mut i = 0;
    for (scheme, certs, in13) in table {
        for &cert in certs {
            for v in [ProtocolVersion::TLSv1_3, ProtocolVersion::TLSv1_2] {
                for (cw, sw) in ROLES {
                    for auth in [false, true] {
                        i += 1;
                        if !ctx.mine(i) || !in13 && v == ProtocolVersion::TLSv1_3 || ctx.config != "native" && r.below(3) != 0 {
                            continue;
                        }
                        if !ctx.more() {
                            return;
                        }
                        let mut p = Plan { client: Side::all(cw), server: Side::all(sw), cert, client_cert: None, version: v, tickets: r.bool(), early: false, fragment: None };
                        if auth {
                            p.client_cert = Some(cert);
                            p.server.schemes = Some(vec![scheme]);
                        } else {
                            p.client.schemes = Some(vec![scheme]);
                        }
                        ctx.observe(&format!("{scheme:?} alone"), 1);
                        run_plan(ctx, &p, &mut r, None, None, None);
                    }
                }
            }
        }
    }
}

/// handshakes that must not succeed
fn wrong(ctx: &mut Ctx) {
    let mut r = ctx.rng("wrong");
    // altered in transit
    for i in 0..ctx.n(900, 12000) {
        if !ctx.mine(i) {
            continue;
        }
        if !ctx.more() {
            return;
        }
        let (cw, sw) = ROLES[i % 3];
        let v = if r.bool() { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 };
        let cert = *r.pick(&[0usize, 3, 4, 5]);
        let g = GROUPS[r.below(4)];
        let groups = if v == ProtocolVersion::TLSv1_2 && g == NamedGroup::X25519MLKEM768 { vec![] } else { vec![g] };
        let p = Plan {
            client: Side { groups, ..Side::all(cw) },
            server: Side::all(sw),
            cert,
            client_cert: (r.below(3) == 0).then_some(cert),
            version: v,
            tickets: false,
            early: false,
            fragment: None,
        };
        let Ok(e) = ends(&p) else { continue };
        let resumed = r.below(3) == 0;
        if resumed && connect(&e, &mut r, 0).is_err() {
            continue; // (told by the other sections)
        }
        let mut t = Tamper { at: r.below(if resumed { 900 } else { 3500 }), bit: r.below(8) as u8, seen: 0, hit: false, header: [0; 2], body: [0; 2], len: [0; 2] };
        ctx.case(if resumed { "altered resumption" } else { "altered handshake" }, format!("byte {} bit {} of {p:?}", t.at, t.bit));
        let mut c = ClientConnection::new(e.client.clone(), "localhost".try_into().unwrap()).unwrap();
        let mut s = ServerConnection::new(e.server.clone()).unwrap();
        let mut w = Wire { bytes: 0, flights: 0 };
        let at = t.at;
        let Some(res) = ctx.call("altered", || carry(&mut c, &mut s, &mut r, &mut w, Some(&mut t))) else { continue };
        if t.hit {
            let done = res.is_ok() && !c.is_handshaking() && !s.is_handshaking();
            ctx.check(!done, "altered", || format!("the handshake ends well though byte {at} was altered: {p:?}"));
            ctx.observe("altered handshakes that failed", 1);
        } else {
            ctx.check(res.is_ok(), "unaltered", || format!("an unaltered handshake fails: {res:?} {p:?}"));
        }
    }
    // somebody else's certificate
    let mut i = 0;
    for cert in 0..6 {
        for v in [ProtocolVersion::TLSv1_3, ProtocolVersion::TLSv1_2] {
            for (cw, sw) in ROLES {
                for who in 0..4 {
                    i += 1;
                    if !ctx.mine(i) || cert == 2 && ctx.n(0, 1) == 0 {
                        continue;
                    }
                    let mut p = Plan { client: Side::all(cw), server: Side::all(sw), cert, client_cert: Some(cert), version: v, tickets: false, early: false, fragment: None };
                    let e = if who < 2 {
                        // the chain is right, the key is not
                        p.client_cert = Some(cert);
                        let Ok(mut e) = ends(&p) else { continue };
                        let liar = Arc::new(Liar(Arc::new(rustls::sign::CertifiedKey::new(CERTS[cert].chain(), false_key(cert, if who == 0 { sw } else { cw }, &mut r)))));
                        if who == 0 {
                            let mut s = (*e.server).clone();
                            s.cert_resolver = liar;
                            e.server = Arc::new(s);
                        } else {
                            let mut c = (*e.client).clone();
                            c.client_auth_cert_resolver = liar;
                            e.client = Arc::new(c);
                        }
                        e
                    } else {
                        // the key is right, the issuer is another
                        let Ok(mut e) = ends(&p) else { continue };
                        p.cert = (cert + 1) % 6;
                        p.client_cert = Some(p.cert);
                        let Ok(f) = ends(&p) else { continue };
                        if who == 2 {
                            let mut c = (*f.client).clone();
                            c.client_auth_cert_resolver = e.client.client_auth_cert_resolver.clone();
                            e.client = Arc::new(c);
                        } else {
                            let mut c = (*e.client).clone();
                            c.client_auth_cert_resolver = f.client.client_auth_cert_resolver.clone();
                            e.client = Arc::new(c);
                        }
                        e
                    };
                    ctx.case(["server without the key", "client without the key", "unknown server issuer", "unknown client issuer"][who], format!("{} {v:?} {cw:?} {sw:?}", CERTS[cert].name));
                    let Some(o) = ctx.call("impostor", || connect(&e, &mut r, 1)) else { continue };
                    ctx.check(o.is_err(), "impostor", || format!("an impostor is taken at its word: {} {v:?} {cw:?} {sw:?} case {who}", CERTS[cert].name));
                    ctx.observe("impostors refused", 1);
                }
            }
        }
    }
}

#[derive(Debug)]
struct Liar(Arc<rustls::sign::CertifiedKey>);
impl rustls::server::ResolvesServerCert for Liar {
    fn resolve(&self, _: rustls::server::ClientHello<'_>) -> Option<Arc<rustls::sign::CertifiedKey>> {
        Some(self.0.clone())
    }
}
impl rustls::client::ResolvesClientCert for Liar {
    fn resolve(&self, _: &[&[u8]], _: &[SignatureScheme]) -> Option<Arc<rustls::sign::CertifiedKey>> {
        Some(self.0.clone())
    }
    fn has_certs(&self) -> bool {
        true
    }
}

/// a key of the same kind as the certificate's, but another
fn false_key(cert: usize, who: Who, r: &mut Rng) -> Arc<dyn rustls::sign::SigningKey> {
    let der = crate::sigs::another(CERTS[cert].name, r);
    match who {
        Who::Graviola => rustls_graviola::default_provider().key_provider.load_private_key(der).unwrap(),
        Who::Ring => rustls::crypto::ring::default_provider().key_provider.load_private_key(der).unwrap(),
    }
}

pub fn jobs_c24(t: bool) -> Vec<Job> {
    let k = if t { 6 } else { 1 };
    let mut v = vec![("pairs", "native", if t { 6 } else { 3 })];
    for s in ["modes", "schemes", "wrong", "agree", "malformed", "schedule"] {
        v.push((s, "native", k));
    }
    v.extend([("pairs", "rel", 1), ("modes", "rel", 1), ("schemes", "rel", 1), ("wrong", "rel", 1), ("agree", "rel", 1), ("malformed", "rel", 1), ("schedule", "rel", 1), ("schedule", "min", 1), ("modes", "min", 1)]);
    v
}

pub fn run_c24(ctx: &mut Ctx) {
    match ctx.section.as_str() {
        "pairs" => pairs(ctx),
        "modes" => modes(ctx),
        "schemes" => schemes(ctx),
        "wrong" => wrong(ctx),
        "agree" => kx::agree(ctx),
        "malformed" => kx::malformed(ctx),
        "schedule" => kx::schedule(ctx),
        _ => {}
    }
}
