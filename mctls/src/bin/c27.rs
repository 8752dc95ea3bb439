//! C27: every advertised TLS configuration completes handshakes and moves data
//! intact, under every message schedule, tampering and random-source failure
//! within the bounds.
use mc::fw::{self, Ctx, L, hex, no_panic};
use mc::rng::{self, Src, State};
use mctls::clock;
use rustls::client::{ClientSessionMemoryCache, Resumption, Tls12Resumption, WebPkiServerVerifier};
use rustls::crypto::{CryptoProvider, SupportedKxGroup, WebPkiSupportedAlgorithms};
use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use rustls::server::{ServerSessionMemoryCache, WebPkiClientVerifier};
use rustls::sign::{CertifiedKey, SingleCertAndKey};
use rustls::{ClientConfig, ClientConnection, HandshakeKind, NamedGroup, ProtocolVersion, RootCertStore, ServerConfig, ServerConnection, SignatureScheme as S, SupportedCipherSuite};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::sync::{Arc, Mutex, OnceLock};

const NOW: u64 = 1_900_000_000;

/// ring's own randomness, too, comes from the script.
#[unsafe(no_mangle)]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    use std::cell::Cell;
    thread_local!(static AT: Cell<u64> = const { Cell::new(0) });
    let at = AT.try_with(|a| { let v = a.get(); a.set(v + 1); v }).unwrap_or(0);
    let b = rng::bytes(0x5000_0000 + at, n);
    unsafe { core::ptr::copy_nonoverlapping(b.as_ptr(), p, n) };
    n as isize
}

// ---------------------------------------------------------------- parts

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum P {
    Grav,
    Ring,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum K {
    Rsa2048,
    Rsa3072,
    Rsa4096,
    P256,
    P384,
    Ed,
}
impl K {
    const ALL: [K; 6] = [K::Rsa2048, K::Rsa3072, K::Rsa4096, K::P256, K::P384, K::Ed];
    fn dir(self) -> &'static str {
        match self {
            K::Rsa2048 => "rsa-2048",
            K::Rsa3072 => "rsa-3072",
            K::Rsa4096 => "rsa-4096",
            K::P256 => "ecdsa-p256",
            K::P384 => "ecdsa-p384",
            K::Ed => "ed25519",
        }
    }
    fn rsa(self) -> bool {
        matches!(self, K::Rsa2048 | K::Rsa3072 | K::Rsa4096)
    }
    fn file(self, n: &str) -> Vec<u8> {
        let p = format!("{}/mctls/data/keys/{}/{n}", fw::verif_dir(), self.dir());
        std::fs::read(&p).unwrap_or_else(|e| panic!("{p}: {e}"))
    }
    fn chain(self) -> Vec<CertificateDer<'static>> {
        CertificateDer::pem_slice_iter(&self.file("end.fullchain")).map(|c| c.unwrap()).collect()
    }
    fn roots(self) -> Arc<RootCertStore> {
        let mut r = RootCertStore::empty();
        r.add_parsable_certificates(CertificateDer::pem_slice_iter(&self.file("ca.cert")).map(|c| c.unwrap()));
        r.into()
    }
}

fn base(p: P) -> CryptoProvider {
    match p {
        P::Grav => rustls_graviola::default_provider(),
        P::Ring => rustls::crypto::ring::default_provider(),
    }
}
/// Loading a key is slow (it is validated), so each is loaded once. Loaded keys
/// are immutable.
fn certified(p: P, k: K) -> Arc<CertifiedKey> {
    static C: OnceLock<Mutex<HashMap<(P, K), Arc<CertifiedKey>>>> = OnceLock::new();
    let m = C.get_or_init(Default::default);
    if let Some(c) = m.lock().unwrap().get(&(p, k)) {
        return c.clone();
    }
    let key = base(p).key_provider.load_private_key(PrivateKeyDer::from_pem_slice(&k.file("end.key")).unwrap()).unwrap();
    let c = Arc::new(CertifiedKey::new(k.chain(), key));
    m.lock().unwrap().insert((p, k), c.clone());
    c
}

fn groups(p: P) -> Vec<&'static dyn SupportedKxGroup> {
    base(p).kx_groups
}
fn group(p: P, g: NamedGroup) -> Option<&'static dyn SupportedKxGroup> {
    groups(p).into_iter().find(|x| x.name() == g)
}
fn suite(p: P, s: SupportedCipherSuite) -> SupportedCipherSuite {
    base(p).cipher_suites.into_iter().find(|x| x.suite() == s.suite()).unwrap()
}
const GROUPS: [NamedGroup; 4] = [NamedGroup::X25519MLKEM768, NamedGroup::X25519, NamedGroup::secp256r1, NamedGroup::secp384r1];

/// How sessions are kept.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Resume {
    None,
    /// server-side session storage
    Stored,
    /// the provider's ticketer
    Ticket,
}

/// One configuration of both ends.
#[derive(Clone, Copy)]
struct Cfg {
    client: P,
    server: P,
    suite: SupportedCipherSuite,
    /// groups the client offers (it sends a share for the first) and the one the server takes
    offer: &'static [NamedGroup],
    take: NamedGroup,
    key: K,
    /// the client authenticates with this
    auth: Option<K>,
    /// the only scheme the peers may sign with
    scheme: Option<S>,
    resume: Resume,
    early: bool,
}
impl Cfg {
    fn v13(&self) -> bool {
        matches!(self.suite, SupportedCipherSuite::Tls13(_))
    }
    fn hrr(&self) -> bool {
        self.v13() && self.offer[0] != self.take
    }
    fn name(&self) -> String {
        format!("{:?}->{:?} {:?} {:?}{} {:?}{}{}{}{}", self.client, self.server, self.suite.suite(), self.take, if self.hrr() { " (after retry)" } else { "" }, self.key, self.auth.map_or(String::new(), |a| format!(" client {a:?}")), self.scheme.map_or(String::new(), |s| format!(" {s:?}")), if self.resume == Resume::None { String::new() } else { format!(" {:?}", self.resume) }, if self.early { " early" } else { "" })
    }
    fn provider(&self, p: P, groups: &[NamedGroup]) -> Arc<CryptoProvider> {
        let b = base(p);
        let mut algs = b.signature_verification_algorithms;
        if let Some(s) = self.scheme {
            let m: Vec<_> = algs.mapping.iter().filter(|(n, _)| *n == s).copied().collect();
            // one leaked slice for each provider and scheme
            static M: OnceLock<Mutex<HashMap<(P, u16), WebPkiSupportedAlgorithms>>> = OnceLock::new();
            algs = *M.get_or_init(Default::default).lock().unwrap().entry((p, u16::from(s))).or_insert_with(|| WebPkiSupportedAlgorithms { all: algs.all, mapping: Vec::leak(m) });
        }
        Arc::new(CryptoProvider { cipher_suites: vec![suite(p, self.suite)], kx_groups: groups.iter().filter_map(|g| group(p, *g)).collect(), signature_verification_algorithms: algs, ..b })
    }
    fn versions(&self) -> &'static [&'static rustls::SupportedProtocolVersion] {
        static V13: [&rustls::SupportedProtocolVersion; 1] = [&rustls::version::TLS13];
        static V12: [&rustls::SupportedProtocolVersion; 1] = [&rustls::version::TLS12];
        if self.v13() { &V13 } else { &V12 }
    }
    fn client_cfg(&self) -> Arc<ClientConfig> {
        let p = self.provider(self.client, self.offer);
        let v = WebPkiServerVerifier::builder_with_provider(self.key.roots(), p.clone()).build().unwrap();
        let b = ClientConfig::builder_with_provider(p).with_protocol_versions(self.versions()).unwrap().with_webpki_verifier(v);
        let mut c = match self.auth {
            None => b.with_no_client_auth(),
            Some(k) => b.with_client_cert_resolver(Arc::new(SingleCertAndKey::from((*certified(self.client, k)).clone()))),
        };
        c.resumption = match self.resume {
            Resume::None => Resumption::disabled(),
            Resume::Stored => Resumption::store(Arc::new(ClientSessionMemoryCache::new(256))).tls12_resumption(Tls12Resumption::SessionIdOnly),
            Resume::Ticket => Resumption::store(Arc::new(ClientSessionMemoryCache::new(256))).tls12_resumption(Tls12Resumption::SessionIdOrTickets),
        };
        c.enable_early_data = self.early;
        Arc::new(c)
    }
    fn server_cfg(&self) -> Arc<ServerConfig> {
        let p = self.provider(self.server, &[self.take]);
        let b = ServerConfig::builder_with_provider(p.clone()).with_protocol_versions(self.versions()).unwrap();
        let b = match self.auth {
            None => b.with_no_client_auth(),
            Some(k) => b.with_client_cert_verifier(WebPkiClientVerifier::builder_with_provider(k.roots(), p).build().unwrap()),
        };
        let mut c = b.with_cert_resolver(Arc::new(SingleCertAndKey::from((*certified(self.server, self.key)).clone())));
        match self.resume {
            Resume::None => {
                c.send_tls13_tickets = 0;
                c.session_storage = Arc::new(rustls::server::NoServerSessionStorage {});
            }
            Resume::Stored => c.session_storage = ServerSessionMemoryCache::new(64),
            Resume::Ticket => {
                c.session_storage = Arc::new(rustls::server::NoServerSessionStorage {});
                c.ticketer = match self.server {
                    P::Grav => rustls_graviola::Ticketer::new().unwrap(),
                    P::Ring => rustls::crypto::ring::Ticketer::new().unwrap(),
                };
            }
        }
        if self.early {
            c.max_early_data_size = 16384;
        }
        Arc::new(c)
    }
}
/// offers: the taken group only
fn only(g: NamedGroup) -> &'static [NamedGroup] {
    let i = GROUPS.iter().position(|x| *x == g).unwrap();
    &GROUPS[i..i + 1]
}
/// offers starting with `first` (whose share is sent), then `g`
fn retry(first: NamedGroup, g: NamedGroup) -> &'static [NamedGroup] {
    static M: OnceLock<Vec<[NamedGroup; 2]>> = OnceLock::new();
    let m = M.get_or_init(|| GROUPS.iter().flat_map(|a| GROUPS.iter().map(move |b| [*a, *b])).collect());
    m.iter().find(|x| **x == [first, g]).unwrap()
}
fn suites() -> Vec<SupportedCipherSuite> {
    base(P::Grav).cipher_suites
}
fn compatible(s: SupportedCipherSuite, k: K) -> bool {
    match s {
        SupportedCipherSuite::Tls13(_) => true,
        // RFC 8422: Ed25519 goes with the ECDSA suites
        SupportedCipherSuite::Tls12(_) => format!("{:?}", s.suite()).contains("_RSA_") == k.rsa(),
    }
}
fn cfg(s: SupportedCipherSuite, g: NamedGroup, k: K) -> Cfg {
    Cfg { client: P::Grav, server: P::Grav, suite: s, offer: only(g), take: g, key: k, auth: None, scheme: None, resume: Resume::None, early: false }
}

// ---------------------------------------------------------------- a connection

const C: usize = 0;
const V: usize = 1;
/// Both ends and the network between them.
struct Net {
    c: ClientConnection,
    s: ServerConnection,
    /// bytes in flight towards the server and the client
    wire: [Vec<u8>; 2],
    /// not a whole record yet, when records are counted
    part: [Vec<u8>; 2],
    /// records passed so far
    recs: [usize; 2],
    /// what the application handed to / got from each end (indexed by end)
    sent: [Vec<u8>; 2],
    got: [Vec<u8>; 2],
    /// the same of early data
    early: [Vec<u8>; 2],
    err: [Option<rustls::Error>; 2],
    /// end-of-data alert seen
    closed: [bool; 2],
    calls: u64,
}
type Fault<'a> = &'a mut dyn FnMut(usize, usize, Vec<u8>) -> Vec<Vec<u8>>;

impl Net {
    fn new(c: Arc<ClientConfig>, s: Arc<ServerConfig>) -> Result<Net, rustls::Error> {
        Ok(Net {
            c: ClientConnection::new(c, "localhost".try_into().unwrap())?,
            s: ServerConnection::new(s)?,
            wire: Default::default(),
            part: Default::default(),
            recs: [0; 2],
            sent: Default::default(),
            got: Default::default(),
            early: Default::default(),
            err: [None, None],
            closed: [false; 2],
            calls: 0,
        })
    }
    fn write(&mut self, end: usize, d: &[u8]) {
        let n = if end == C { self.c.writer().write(d) } else { self.s.writer().write(d) };
        self.sent[end].extend(&d[..n.unwrap()]);
    }
    /// false if early data cannot be sent
    fn write_early(&mut self, d: &[u8]) -> bool {
        let n = self.c.early_data().and_then(|mut w| w.write(d).ok());
        self.early[C].extend(&d[..n.unwrap_or(0)]);
        n == Some(d.len())
    }
    fn refresh(&mut self, end: usize) -> Result<(), rustls::Error> {
        if end == C { self.c.refresh_traffic_keys() } else { self.s.refresh_traffic_keys() }
    }
    fn close(&mut self, end: usize) {
        if end == C { self.c.send_close_notify() } else { self.s.send_close_notify() }
    }
    /// what `end` wants to send goes onto the wire
    fn emit(&mut self, end: usize) {
        loop {
            let n = if end == C { if !self.c.wants_write() { break } else { self.c.write_tls(&mut self.wire[end]) } } else if !self.s.wants_write() { break } else { self.s.write_tls(&mut self.wire[end]) };
            self.calls += 1;
            if n.unwrap() == 0 {
                break;
            }
        }
    }
    /// `end` reads these bytes
    fn feed(&mut self, end: usize, mut b: &[u8]) {
        while !b.is_empty() && self.err[end].is_none() {
            let n = if end == C { self.c.read_tls(&mut b) } else { self.s.read_tls(&mut b) };
            let n = match n { Ok(n) => n, Err(_) => break };
            self.calls += 1;
            let r = if end == C { self.c.process_new_packets() } else { self.s.process_new_packets() };
            if let Err(e) = r {
                self.err[end] = Some(e);
            }
            self.drain(end);
            if n == 0 {
                break;
            }
        }
    }
    fn drain(&mut self, end: usize) {
        if end == V {
            // (has to be collected while the handshake is under way)
            if let Some(mut e) = self.s.early_data() {
                let _ = e.read_to_end(&mut self.early[V]);
            }
        }
        let mut buf = [0u8; 4096];
        loop {
            let r = if end == C { self.c.reader().read(&mut buf) } else { self.s.reader().read(&mut buf) };
            match r {
                Ok(0) => {
                    self.closed[end] = true;
                    break;
                }
                Ok(n) => self.got[end].extend(&buf[..n]),
                Err(_) => break,
            }
        }
    }
    /// deliver what is on the wire from `end`, in pieces of at most `chunk`
    fn deliver(&mut self, end: usize, chunk: usize) {
        let b = std::mem::take(&mut self.wire[end]);
        for p in b.chunks(chunk) {
            self.feed(1 - end, p);
        }
    }
    /// the same, record by record, through a fault
    fn deliver_records(&mut self, end: usize, f: Fault<'_>) {
        let b = std::mem::take(&mut self.wire[end]);
        self.part[end].extend(b);
        loop {
            let p = &self.part[end];
            if p.len() < 5 {
                break;
            }
            let n = 5 + u16::from_be_bytes([p[3], p[4]]) as usize;
            if p.len() < n {
                break;
            }
            let rec: Vec<u8> = self.part[end].drain(..n).collect();
            let i = self.recs[end];
            self.recs[end] += 1;
            for r in f(end, i, rec) {
                self.feed(1 - end, &r);
            }
        }
    }
    /// run until nothing moves
    fn settle(&mut self) {
        loop {
            self.emit(C);
            self.emit(V);
            if self.wire[C].is_empty() && self.wire[V].is_empty() {
                break;
            }
            self.deliver(C, usize::MAX);
            self.emit(V);
            self.deliver(V, usize::MAX);
        }
    }
    fn settle_faulty(&mut self, f: Fault<'_>) {
        loop {
            self.emit(C);
            self.emit(V);
            if self.wire[C].is_empty() && self.wire[V].is_empty() {
                break;
            }
            self.deliver_records(C, f);
            self.emit(V);
            self.deliver_records(V, f);
        }
    }
    fn up(&self) -> bool {
        !self.c.is_handshaking() && !self.s.is_handshaking()
    }
    /// everything sent, and nothing else, was received
    fn intact(&self, l: &mut L, what: &dyn Fn() -> String) -> bool {
        l.check(self.err == [None, None], || format!("{}: failed: client {:?} server {:?}", what(), self.err[C], self.err[V]))
            && l.check(self.up(), || format!("{}: the handshake does not finish", what()))
            && l.check(self.got[V] == self.sent[C], || format!("{}: the client sent {} and the server got {}", what(), hex(&self.sent[C]), hex(&self.got[V])))
            && l.check(self.got[C] == self.sent[V], || format!("{}: the server sent {} and the client got {}", what(), hex(&self.sent[V]), hex(&self.got[C])))
    }
    /// nothing other than (a prefix of) what was sent was received
    fn unaltered(&self, l: &mut L, what: &dyn Fn() -> String) -> bool {
        l.check(self.sent[C].starts_with(&self.got[V]), || format!("{}: the client sent {} but the server got {}", what(), hex(&self.sent[C]), hex(&self.got[V])))
            && l.check(self.early[C].starts_with(&self.early[V]), || format!("{}: the client sent the early data {} but the server got {}", what(), hex(&self.early[C]), hex(&self.early[V])))
            && l.check(self.sent[V].starts_with(&self.got[C]), || format!("{}: the server sent {} but the client got {}", what(), hex(&self.sent[V]), hex(&self.got[C])))
    }
    fn export(&self, l: &mut L, what: &dyn Fn() -> String) -> Vec<Vec<u8>> {
        let mut all: Vec<Vec<u8>> = vec![];
        for label in ["EXPORTER-one", "EXPORTER-two", "x"] {
            for context in [None, Some(&b""[..]), Some(b"a"), Some(&[7u8; 300])] {
                for n in [1usize, 32, 33, 255] {
                    let a = self.c.export_keying_material(vec![0u8; n], label.as_bytes(), context);
                    let b = self.s.export_keying_material(vec![0u8; n], label.as_bytes(), context);
                    l.t(2);
                    match (a, b) {
                        (Ok(a), Ok(b)) => {
                            l.check(a == b, || format!("{}: exporters disagree for {label:?} {context:?} {n}: client {} server {}", what(), hex(&a), hex(&b)));
                            if n == 32 {
                                // TLS 1.3 does not tell an absent from an empty context
                                let same = self.c.protocol_version() == Some(ProtocolVersion::TLSv1_3) && context == Some(b"");
                                l.check(same || !all.contains(&a), || format!("{}: two exporters are the same: {}", what(), hex(&a)));
                                all.push(a);
                            }
                        }
                        (a, b) => {
                            l.check(false, || format!("{}: exporter fails: client {a:?} server {b:?}", what()));
                        }
                    }
                }
            }
        }
        all
    }
}

/// deterministic randomness, a fixed clock and no panic
fn world<T>(l: &mut L, seed: u64, what: &dyn Fn() -> String, f: impl FnOnce(&mut L) -> T) -> Option<T> {
    let old = clock::get();
    clock::set(Some(NOW));
    let r = no_panic(|| rng::with(State::new(Src::Stream(seed)), || f(l)).0);
    clock::set(old);
    match r {
        Ok(t) => Some(t),
        Err(p) => {
            l.check(false, || format!("{}: panicked: {p}", what()));
            None
        }
    }
}

fn body(end: usize, n: usize) -> Vec<u8> {
    rng::bytes(0xda7a + end as u64, n)
}

// ---------------------------------------------------------------- sections

/// a full handshake, data both ways in several sizes, key updates, close; then
/// the same on a resumed session
fn whole(l: &mut L, c: &Cfg, seed: u64) {
    let what = || c.name();
    l.note(what);
    world(l, seed, &what, |l| {
        let (cc, sc) = (c.client_cfg(), c.server_cfg());
        let mut exported: Vec<Vec<u8>> = vec![];
        // one which shares the sessions, but does not take early data
        let mut late = (*sc).clone();
        late.max_early_data_size = 0;
        let late = Arc::new(late);
        for round in 0..if c.resume == Resume::None { 1 } else { 4 } {
            let what = || format!("{} connection {round}", c.name());
            let mut n = match Net::new(cc.clone(), if round == 2 { late.clone() } else { sc.clone() }) {
                Ok(n) => n,
                Err(e) => {
                    l.check(false, || format!("{}: cannot start: {e}", what()));
                    return;
                }
            };
            // (tickets of the one which does not take early data say so)
            let try_early = c.early && (round == 1 || round == 2);
            if try_early {
                let ok = n.write_early(b"early data");
                l.check(ok, || format!("{}: early data cannot be sent", what()));
            }
            n.settle();
            if !n.intact(l, &what) {
                return;
            }
            // what was agreed
            let kind = if round > 0 { HandshakeKind::Resumed } else if c.hrr() { HandshakeKind::FullWithHelloRetryRequest } else { HandshakeKind::Full };
            for (h, k, v, s, g) in [
                ("client", n.c.handshake_kind(), n.c.protocol_version(), n.c.negotiated_cipher_suite(), n.c.negotiated_key_exchange_group()),
                ("server", n.s.handshake_kind(), n.s.protocol_version(), n.s.negotiated_cipher_suite(), n.s.negotiated_key_exchange_group()),
            ] {
                let kind_ok = k == Some(kind) || (kind == HandshakeKind::Resumed && c.hrr() && k.is_some_and(|k| format!("{k:?}").contains("Resumed")));
                l.check(kind_ok, || format!("{}: {h} handshake is {k:?}, expected {kind:?}", what()));
                l.check(v == Some(if c.v13() { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 }), || format!("{}: {h} version {v:?}", what()));
                l.check(s.map(|s| s.suite()) == Some(c.suite.suite()), || format!("{}: {h} suite {s:?}", what()));
                // resumption in TLS 1.2 has no key exchange
                if c.v13() || round == 0 {
                    l.check(g.map(|g| g.name()) == Some(c.take), || format!("{}: {h} group {g:?}", what()));
                }
            }
            l.check(n.c.peer_certificates() == Some(&c.key.chain()[..]), || format!("{}: the client saw other certificates", what()));
            l.check(n.s.peer_certificates().map(|x| x.to_vec()) == c.auth.map(|k| k.chain()), || format!("{}: the server saw other client certificates", what()));
            if try_early {
                let took = n.c.is_early_data_accepted();
                l.check(n.early[V] == if took { &b"early data"[..] } else { b"" }, || format!("{}: early data accepted: {took}, but the server read {}", what(), hex(&n.early[V])));
                l.check(took == (round != 2), || format!("{}: early data accepted: {took}", what()));
            }
            let e = n.export(l, &what);
            for x in &e {
                l.check(!exported.contains(x), || format!("{}: exporter value repeats from an earlier connection", what()));
            }
            exported.extend(e);
            // data
            for (i, size) in [1usize, 15, 16, 255, 1000, 16383, 16384, 16385, 40000].into_iter().enumerate() {
                if c.v13() && i > 0 {
                    for end in [C, V] {
                        if i >> end & 1 == 1 {
                            let r = n.refresh(end);
                            l.check(r.is_ok(), || format!("{}: key update: {r:?}", what()));
                        }
                    }
                }
                n.write(C, &body(C, size));
                n.write(V, &body(V, size + 1));
                n.settle();
                l.s64(fw::fnv(format!("{}/{round}/{i}", c.name()).as_bytes()));
                if !n.intact(l, &|| format!("{} after {size} bytes", what())) {
                    return;
                }
            }
            n.close(C);
            n.settle();
            l.check(n.closed[V], || format!("{}: the server does not learn that the client closed", what()));
            n.write(V, b"after the client's close");
            n.close(V);
            n.settle();
            n.intact(l, &|| format!("{} after closing", what()));
            l.check(n.closed[C], || format!("{}: the client does not learn that the server closed", what()));
            l.t(n.calls);
        }
    });
}

fn configurations(ctx: &Ctx) {
    let mut v = vec![];
    let pairs = [(P::Grav, P::Grav), (P::Grav, P::Ring), (P::Ring, P::Grav)];
    for s in suites() {
        for g in GROUPS {
            for k in K::ALL {
                for (client, server) in pairs {
                    let c = Cfg { client, server, ..cfg(s, g, k) };
                    let mlkem = g == NamedGroup::X25519MLKEM768;
                    if !compatible(s, k) || mlkem && (!c.v13() || client != server) {
                        continue;
                    }
                    v.push(c);
                }
            }
        }
    }
    ctx.section("configurations", v.len(), |i, l| whole(l, &v[i], 1));

    // resumption
    let mut r = vec![];
    for s in suites() {
        for g in GROUPS {
            for (client, server) in pairs {
                for resume in [Resume::Stored, Resume::Ticket] {
                    for early in [false, true] {
                        for k in [K::Rsa2048, K::P256] {
                            let c = Cfg { client, server, resume, early, ..cfg(s, g, k) };
                            let mlkem = g == NamedGroup::X25519MLKEM768;
                            if !compatible(s, k) || mlkem && (!c.v13() || client != server) || early && (!c.v13() || resume != Resume::Stored) {
                                continue;
                            }
                            r.push(c);
                        }
                    }
                }
            }
        }
    }
    ctx.section("resumption", r.len(), |i, l| whole(l, &r[i], 2));

    // the client has to change its key share
    let mut h = vec![];
    for s in suites().into_iter().filter(|s| matches!(s, SupportedCipherSuite::Tls13(_))) {
        for a in GROUPS {
            for b in GROUPS {
                for (client, server) in pairs {
                    for resume in [Resume::None, Resume::Stored] {
                        if a == b || group(client, a).is_none() || group(client, b).is_none() || group(server, b).is_none() {
                            continue;
                        }
                        // the hybrid's share can serve for its classical part
                        if a == NamedGroup::X25519MLKEM768 && b == NamedGroup::X25519 {
                            continue;
                        }
                        h.push(Cfg { client, server, offer: retry(a, b), resume, ..cfg(s, b, K::P256) });
                    }
                }
            }
        }
    }
    ctx.section("hello-retry", h.len(), |i, l| whole(l, &h[i], 3));

    // client authentication, and each signature scheme alone
    let mut a = vec![];
    for s in suites() {
        for k in K::ALL {
            for auth in K::ALL {
                for (client, server) in pairs {
                    let g = GROUPS[1 + (a.len() % 3)];
                    if compatible(s, k) {
                        a.push(Cfg { client, server, auth: Some(auth), ..cfg(s, g, k) });
                    }
                }
            }
        }
    }
    ctx.section("client-authentication", a.len(), |i, l| whole(l, &a[i], 4));
    let mut q = vec![];
    for s in suites() {
        let v13 = matches!(s, SupportedCipherSuite::Tls13(_));
        for k in K::ALL {
            for scheme in base(P::Grav).signature_verification_algorithms.mapping.iter().map(|m| m.0) {
                let fits = match scheme {
                    S::RSA_PKCS1_SHA256 | S::RSA_PKCS1_SHA384 | S::RSA_PKCS1_SHA512 => k.rsa() && !v13,
                    S::RSA_PSS_SHA256 | S::RSA_PSS_SHA384 | S::RSA_PSS_SHA512 => k.rsa(),
                    // the library ties each curve to its own hash
                    S::ECDSA_NISTP256_SHA256 => k == K::P256,
                    S::ECDSA_NISTP384_SHA384 => k == K::P384,
                    S::ED25519 => k == K::Ed,
                    _ => false,
                };
                for (client, server) in pairs {
                    if fits && compatible(s, k) {
                        for auth in [None, Some(k)] {
                            q.push(Cfg { client, server, auth, scheme: Some(scheme), ..cfg(s, NamedGroup::X25519, k) });
                        }
                    }
                }
            }
        }
    }
    ctx.section("signature-schemes", q.len(), |i, l| whole(l, &q[i], 5));

    // the providers as they are
    let mut d = vec![];
    for k in K::ALL {
        for (client, server) in pairs {
            for versions in 0..9usize {
                d.push((k, client, server, versions % 3, versions / 3));
            }
        }
    }
    ctx.section("defaults", d.len(), |i, l| {
        let (k, client, server, cv, sv) = d[i];
        let vs: [&[&rustls::SupportedProtocolVersion]; 3] = [rustls::ALL_VERSIONS, &[&rustls::version::TLS13], &[&rustls::version::TLS12]];
        let what = || format!("{client:?}->{server:?} {k:?} by default, client versions {:?} server versions {:?}", vs[cv], vs[sv]);
        l.note(what);
        world(l, i as u64, &what, |l| {
            let cc = ClientConfig::builder_with_provider(base(client).into()).with_protocol_versions(vs[cv]).unwrap().with_root_certificates(k.roots()).with_no_client_auth();
            let sc = ServerConfig::builder_with_provider(base(server).into()).with_protocol_versions(vs[sv]).unwrap().with_no_client_auth().with_single_cert(k.chain(), PrivateKeyDer::from_pem_slice(&k.file("end.key")).unwrap());
            let sc = match sc {
                Ok(s) => Arc::new(s),
                Err(e) => {
                    l.check(false, || format!("{}: the key is refused: {e}", what()));
                    return;
                }
            };
            let cc = Arc::new(cc);
            for round in 0..2 {
                let mut n = Net::new(cc.clone(), sc.clone()).unwrap();
                n.settle();
                n.write(C, b"request");
                n.write(V, b"response");
                n.settle();
                l.t(n.calls);
                l.s64(fw::fnv(format!("{i}/{round}").as_bytes()));
                if cv + sv == 3 && cv * sv == 2 {
                    // no common version
                    l.check(n.err.iter().all(|e| e.is_some()) && n.got == [vec![], vec![]], || format!("{}: connected", what()));
                    return;
                }
                if !n.intact(l, &what) {
                    return;
                }
                let k = n.s.handshake_kind();
                l.check(k == Some(if round == 0 { HandshakeKind::Full } else { HandshakeKind::Resumed }), || format!("{}: connection {round} is {k:?}", what()));
            }
        });
    });
}

/// representative configurations for schedules and faults: every suite
fn reps(all: bool) -> Vec<Cfg> {
    let mut v = vec![];
    for (i, s) in suites().into_iter().enumerate() {
        for (j, k) in [K::P256, K::Rsa2048, K::Ed, K::P384].into_iter().enumerate() {
            let v13 = matches!(s, SupportedCipherSuite::Tls13(_));
            if !compatible(s, k) || !all && v.iter().any(|c: &Cfg| c.suite.suite() == s.suite()) && j != i % 4 {
                continue;
            }
            let g = if v13 { GROUPS[(i + j) % 4] } else { GROUPS[1 + (i + j) % 3] };
            v.push(cfg(s, g, k));
        }
    }
    v
}

/// every way to cut the byte streams into equal pieces, with data written
/// before, during and after the handshake
fn fragments(ctx: &Ctx) {
    let v: Vec<(Cfg, usize)> = reps(!ctx.quick()).into_iter().flat_map(|c| (1..=ctx.pick(150usize, 1500)).map(move |n| (c, n))).collect();
    ctx.section("fragmented-delivery", v.len(), |i, l| {
        let (c, n) = v[i];
        let what = || format!("{} in pieces of {n}", c.name());
        l.note(what);
        world(l, n as u64, &what, |l| {
            let mut net = Net::new(c.client_cfg(), c.server_cfg()).unwrap();
            net.write(C, b"queued by the client before the handshake");
            net.write(V, b"queued by the server before the handshake");
            let mut steps = 0;
            loop {
                net.emit(C);
                net.emit(V);
                if net.wire[C].is_empty() && net.wire[V].is_empty() {
                    break;
                }
                if steps < 8 {
                    net.write(steps & 1, &body(steps & 1, 1 + steps * 3));
                }
                steps += 1;
                // whose bytes travel first alternates
                for e in [steps & 1, 1 - (steps & 1)] {
                    net.deliver(e, n);
                }
            }
            l.t(net.calls);
            l.s64(fw::fnv(what().as_bytes()));
            net.intact(l, &what);
        });
    });
}

/// every sequence of application and network steps after the handshake
fn histories(ctx: &Ctx) {
    let reps: Vec<Cfg> = suites().into_iter().map(|s| cfg(s, NamedGroup::X25519, if compatible(s, K::P256) { K::P256 } else { K::Rsa2048 })).collect();
    for (depth, list) in [(ctx.pick(5u32, 7), &reps[..3]), (ctx.pick(4, 6), &reps[3..])] {
        // write, key update and deliver for each end
        let n = 6usize.pow(depth);
        // a worker takes a run of sequences
        let run = 36usize;
        let name = if depth == ctx.pick(5, 7) { "histories-1.3" } else { "histories-1.2" };
        ctx.section(name, list.len() * n / run, |i, l| {
            let c = list[i % list.len()];
            let cfgs = (c.client_cfg(), c.server_cfg());
            for h in 0..run {
                let mut code = (i / list.len()) * run + h;
                let mut seq = vec![];
                for _ in 0..depth {
                    seq.push(code % 6);
                    code /= 6;
                }
                // without key updates in TLS 1.2
                if !c.v13() && seq.iter().any(|x| *x / 2 == 1) {
                    continue;
                }
                let show = |s: &[usize]| s.iter().map(|x| ["client writes", "server writes", "client updates keys", "server updates keys", "client's bytes arrive", "server's bytes arrive"][*x]).collect::<Vec<_>>().join(", ");
                let what = || format!("{}: {}", c.name(), show(&seq));
                l.note(what);
                world(l, i as u64, &what, |l| {
                    let mut net = Net::new(cfgs.0.clone(), cfgs.1.clone()).unwrap();
                    net.settle();
                    for (t, &o) in seq.iter().enumerate() {
                        let end = o & 1;
                        match o / 2 {
                            0 => {
                                net.write(end, &body(end, 1 + 7 * t));
                            }
                            1 => {
                                let r = net.refresh(end);
                                l.check(r.is_ok(), || format!("{}: {r:?}", what()));
                            }
                            _ => {
                                net.emit(end);
                                net.deliver(end, usize::MAX);
                            }
                        }
                        net.unaltered(l, &what);
                        l.s64(fw::fnv(format!("{:?}{:?}{:?}{:?}", net.sent, net.got, net.wire[0].len(), net.wire[1].len()).as_bytes()));
                    }
                    net.settle();
                    l.t(net.calls);
                    net.intact(l, &what);
                });
                if l.failed() {
                    return;
                }
            }
        });
    }
}

/// the records of an undisturbed connection
fn record_lens(c: &Cfg, cfgs: &Cfgs) -> (Vec<(usize, usize, Vec<u8>)>, String) {
    let mut v = vec![];
    let mut bad = String::new();
    clock::set(Some(NOW));
    rng::seeded(77, || {
        let mut n = script(c, cfgs);
        n.settle_faulty(&mut |d, i, r| {
            v.push((d, i, r.clone()));
            vec![r]
        });
        talk(&mut n, &mut |d, i, r| {
            v.push((d, i, r.clone()));
            vec![r]
        });
        bad = format!("{}: client {:?} server {:?}", c.name(), n.err[C], n.err[V]);
        if n.err == [None, None] && n.up() {
            bad.clear();
        }
    });
    clock::set(None);
    (v, bad)
}
type Cfgs = (Arc<ClientConfig>, Arc<ServerConfig>);
/// the connection to interfere with; the one before it, if sessions are
/// resumed, is left alone
fn script(c: &Cfg, cfgs: &Cfgs) -> Net {
    let fresh;
    let (cc, sc) = if c.resume == Resume::None {
        cfgs
    } else {
        fresh = (c.client_cfg(), c.server_cfg());
        Net::new(fresh.0.clone(), fresh.1.clone()).unwrap().settle();
        &fresh
    };
    let mut n = Net::new(cc.clone(), sc.clone()).unwrap();
    if c.early {
        n.write_early(b"early data from the client");
    }
    n.write(C, b"first from the client");
    n.write(V, b"first from the server");
    n
}
fn talk(n: &mut Net, f: Fault<'_>) {
    for (i, e) in [C, V, C].into_iter().enumerate() {
        if n.up() && n.err == [None, None] {
            n.write(e, &rng::bytes(i as u64 + 50, 40));
            n.settle_faulty(f);
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Tamper {
    Flip(usize, u8),
    Drop,
    Twice,
    /// with the record after it
    Swap,
    /// all after this are lost
    Cut,
    /// a record of this type and length in front
    Inject(u8, usize),
    /// last byte lost, header adjusted
    Shorten,
    Lengthen,
}

fn tampering(ctx: &Ctx) {
    struct Plan {
        c: Cfg,
        cfgs: Cfgs,
        recs: Vec<(usize, usize, Vec<u8>)>,
        bad: String,
    }
    let plans: Vec<Plan> = reps(!ctx.quick())
        .into_iter()
        .chain(suites().into_iter().step_by(4).map(|s| Cfg { auth: Some(K::P256), ..cfg(s, NamedGroup::X25519, if compatible(s, K::Ed) { K::Ed } else { K::Rsa2048 }) }))
        .chain(suites().into_iter().step_by(2).enumerate().flat_map(|(i, s)| {
            let c = cfg(s, NamedGroup::X25519, if compatible(s, K::Ed) { K::Ed } else { K::Rsa2048 });
            let resume = if i % 2 == 0 { Resume::Stored } else { Resume::Ticket };
            let r = Cfg { resume, ..c };
            let e = Cfg { resume: Resume::Stored, early: true, ..c };
            if c.v13() { vec![r, e] } else { vec![r] }
        }))
        .map(|c| {
            let cfgs = (c.client_cfg(), c.server_cfg());
            let (recs, bad) = record_lens(&c, &cfgs);
            Plan { c, cfgs, recs, bad }
        })
        .collect();
    let mut cases = vec![];
    for (p, plan) in plans.iter().enumerate() {
        for (r, (_, _, b)) in plan.recs.iter().enumerate() {
            let masks: &[u8] = if ctx.quick() { &[0x01, 0x80] } else { &[1, 2, 4, 8, 16, 32, 64, 128, 255] };
            // each byte, in runs
            for at in (0..b.len()).step_by(16) {
                cases.push((p, r, (at..(at + 16).min(b.len())).flat_map(|x| masks.iter().map(move |m| Tamper::Flip(x, *m))).collect::<Vec<_>>()));
            }
            let mut o = vec![Tamper::Drop, Tamper::Twice, Tamper::Swap, Tamper::Cut, Tamper::Shorten, Tamper::Lengthen];
            for t in [20u8, 21, 22, 23, 24] {
                for n in [0usize, 1, 2, 16, 17, 24, 40] {
                    o.push(Tamper::Inject(t, n));
                }
            }
            cases.push((p, r, o));
        }
    }
    ctx.section("tampering", cases.len(), |i, l| {
        let (p, r, ref list) = cases[i];
        let plan = &plans[p];
        if !l.check(plan.bad.is_empty(), || format!("undisturbed: {}", plan.bad)) {
            return;
        }
        let (dir, idx, ref rec) = plan.recs[r];
        for &t in list {
            let what = || format!("{}: record {idx} (type {}, {} bytes) from the {}: {t:?}", plan.c.name(), rec[0], rec.len(), ["client", "server"][dir]);
            l.note(what);
            world(l, 77, &what, |l| {
                let mut n = script(&plan.c, &plan.cfgs);
                let mut held: Option<Vec<u8>> = None;
                let mut hit = false;
                let mut f = |d: usize, k: usize, mut x: Vec<u8>| {
                    if d != dir {
                        return vec![x];
                    }
                    if let Some(h) = held.take() {
                        return vec![x, h];
                    }
                    if k != idx {
                        return if matches!(t, Tamper::Cut) && k > idx { vec![] } else { vec![x] };
                    }
                    hit = true;
                    match t {
                        Tamper::Flip(at, m) => {
                            if at < x.len() {
                                x[at] ^= m;
                            }
                            vec![x]
                        }
                        Tamper::Drop | Tamper::Cut => vec![],
                        Tamper::Twice => vec![x.clone(), x],
                        Tamper::Swap => {
                            held = Some(x);
                            vec![]
                        }
                        Tamper::Inject(t, n) => vec![[&[t, 3, 3, 0, n as u8][..], &vec![1u8; n]].concat(), x],
                        Tamper::Shorten | Tamper::Lengthen => {
                            if matches!(t, Tamper::Shorten) {
                                x.pop();
                            } else {
                                x.push(0);
                            }
                            let n = (x.len() - 5) as u16;
                            x[3..5].copy_from_slice(&n.to_be_bytes());
                            vec![x]
                        }
                    }
                };
                n.settle_faulty(&mut f);
                talk(&mut n, &mut f);
                l.t(n.calls);
                l.s64(fw::fnv(what().as_bytes()));
                // (Ed25519, PKCS#1 and the replayed random source make the run repeat)
                l.check(hit, || format!("{}: not reached", what()));
                n.unaltered(l, &what);
                // a protected or handshake record's body cannot be changed unnoticed
                let must_fail = match t {
                    Tamper::Flip(at, _) => at >= 5 && rec[0] != 20,
                    Tamper::Shorten | Tamper::Lengthen => rec[0] != 20,
                    Tamper::Twice => rec[0] != 20,
                    _ => false,
                };
                if must_fail {
                    l.check(n.err.iter().any(|e| e.is_some()) || !n.up() || (n.got[V] != n.sent[C] || n.got[C] != n.sent[V]), || format!("{}: goes unnoticed", what()));
                    // and at the latest when the record is opened: nothing sent after it arrives
                    if rec[0] == 23 && matches!(t, Tamper::Flip(at, _) if at >= 5) {
                        l.check(n.err[1 - dir].is_some(), || format!("{}: the receiver reports no error", what()));
                    }
                }
            });
            if l.failed() {
                return;
            }
        }
    });
}

/// every request of the random source failing, in every configuration
fn rng_failures(ctx: &Ctx) {
    let v: Vec<Cfg> = reps(true).into_iter().chain(suites().into_iter().map(|s| Cfg { auth: Some(K::Rsa2048), resume: Resume::Stored, ..cfg(s, NamedGroup::secp256r1, if compatible(s, K::P384) { K::P384 } else { K::Rsa2048 }) })).collect();
    ctx.section("random-source-failures", v.len(), |i, l| {
        let c = v[i];
        let (cc, sc) = (c.client_cfg(), c.server_cfg());
        let go = |st: State| {
            rng::with(st, || {
                no_panic(|| -> Result<bool, String> {
                    let mut n = Net::new(cc.clone(), sc.clone()).map_err(|e| e.to_string())?;
                    n.settle();
                    n.write(C, b"data");
                    n.write(V, b"data");
                    n.settle();
                    if let Some(e) = n.err.iter().flatten().next() {
                        return Err(e.to_string());
                    }
                    Ok(n.got[V] == b"data" && n.got[C] == b"data")
                })
            })
        };
        clock::set(Some(NOW));
        let (r, st) = go(State::new(Src::Stream(9)));
        l.check(r == Ok(Ok(true)), || format!("{}: {r:?}", c.name()));
        let total = st.calls.len();
        l.check(total >= 4, || format!("{}: only {total} requests of the random source", c.name()));
        for k in 0..total {
            for fill in 0..5u8 {
                for sticky in [true, false] {
                    let mut s = State::new(Src::Stream(9));
                    s.fail_at = Some(k);
                    s.fail_sticky = sticky;
                    s.fail_fill = fill;
                    s.max_calls = 5000;
                    let (r, st) = go(s);
                    l.t(st.calls.len() as u64);
                    l.s64(fw::fnv(format!("{}/{k}/{fill}/{sticky}", c.name()).as_bytes()));
                    let what = || format!("{}: request {k} of {total} of the random source fails (left: {fill}, later ones {})", c.name(), if sticky { "too" } else { "succeed" });
                    l.note(what);
                    match r {
                        Err(p) => l.check(false, || format!("{}: panicked: {p}", what())),
                        Ok(Ok(true)) => l.check(st.calls.len() <= k, || format!("{}: the connection is made all the same", what())),
                        _ => true,
                    };
                }
            }
        }
        clock::set(None);
    });
}

fn explore(ctx: &Ctx) {
    ctx.assume("rustls itself and the ring provider behave as documented; certificates and keys as in the repository's tests");
    configurations(ctx);
    fragments(ctx);
    histories(ctx);
    tampering(ctx);
    rng_failures(ctx);
}

fn main() {
    fw::main("C27", explore);
}
