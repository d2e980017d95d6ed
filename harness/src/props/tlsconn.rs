//! TLS connections in memory, between the code under test and rustls with aws-lc, with faults.
use super::c23;
use super::c24::GROUPS;
use super::rsautil as ru;
use super::tlsid::*;
use crate::engine::*;
use num_bigint::BigUint;
use rustls::client::Resumption;
use rustls::crypto::aws_lc_rs as other;
use rustls::crypto::CryptoProvider;
use rustls::pki_types::CertificateDer;
use rustls::server::{NoServerSessionStorage, ServerSessionMemoryCache, WebPkiClientVerifier};
use rustls::{ClientConfig, ClientConnection, Connection, RootCertStore, ServerConfig, ServerConnection, SupportedCipherSuite};
use std::io::{Read, Write};
use std::sync::{Arc, OnceLock};

pub struct Party {
    pub id: Id,
    pub chain: Vec<CertificateDer<'static>>,
    pub form: usize,
}
pub struct World {
    pub parties: Vec<Party>,
    pub roots: Arc<RootCertStore>,
}
/// a fixed set of certified parties, several of each key type
pub fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let mut roots = RootCertStore::empty();
        let mut parties = vec![];
        let e = BigUint::from(65537u32);
        let rsa = |bits: u64, i: usize| {
            let p: Vec<&BigUint> = ru::primes().iter().filter(|p| p.bits() == bits && p.bit(bits - 2)).collect();
            (i..i + 50)
                .find_map(|i| {
                    let (a, b) = (p[i % p.len()], p[(i + 1 + i / p.len()) % p.len()]);
                    ru::Key::new(a.max(b), a.min(b), &e)
                })
                .expect("key")
        };
        for n in 0..18u64 {
            let mut src = Src::random(0xC27, n);
            let s = &mut src;
            let kind = (n % 4) as usize;
            let id = if kind == 0 { Id::rsa(rsa([1024, 1536, 2048, 1024, 1024][n as usize / 4], n as usize)) } else { Id::generate(s, kind) };
            let alg = s.idx(13);
            let root = if ALGS[alg].kind == 0 { Id::rsa(rsa(1024, 3 + n as usize)) } else { Id::generate(s, ALGS[alg].kind) };
            let rn = format!("root{n}");
            roots.add(certify(s, &root, &rn, alg, &rn, &root.spki(), true)).expect("root");
            let mut chain = vec![];
            let ee = if s.one_in(3) {
                let ma = s.idx(13);
                let mid = if ALGS[ma].kind == 0 { Id::rsa(rsa(1024, 5 + n as usize)) } else { Id::generate(s, ALGS[ma].kind) };
                let mn = format!("mid{n}");
                let ee = certify(s, &mid, &mn, ma, "localhost", &id.spki(), false);
                chain.push(certify(s, &root, &rn, alg, &mn, &mid.spki(), true));
                ee
            } else {
                certify(s, &root, &rn, alg, "localhost", &id.spki(), false)
            };
            chain.insert(0, ee);
            parties.push(Party { id, chain, form: s.idx(4) });
        }
        World { parties, roots: Arc::new(roots) }
    })
}
pub fn suite(ours: bool, i: usize) -> SupportedCipherSuite {
    let id = c23::OURS()[i].suite();
    if ours {
        c23::OURS()[i]
    } else {
        c23::theirs(id)
    }
}
pub fn provider(ours: bool, suites: &[usize], groups: &[usize]) -> Arc<CryptoProvider> {
    let mut p = if ours { rustls_graviola::default_provider() } else { other::default_provider() };
    let all = if ours { rustls_graviola::kx::ALL_KX_GROUPS } else { other::ALL_KX_GROUPS };
    p.cipher_suites = suites.iter().map(|i| suite(ours, *i)).collect();
    p.kx_groups = groups.iter().map(|g| *all.iter().find(|x| x.name() == GROUPS[*g]).expect("group")).collect();
    Arc::new(p)
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Resume {
    Off,
    Stateful,
    /// tickets made by graviola (true) or the other implementation
    Tickets(bool),
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub client_ours: bool,
    pub server_ours: bool,
    pub suite: usize,
    pub group: usize,
    /// what the client tries first
    pub decoy: Option<usize>,
    pub party: usize,
    pub client_party: Option<usize>,
    pub resume: Resume,
    pub early: bool,
    pub frag: [Option<usize>; 2],
    /// signature schemes that client and server accept, in this order
    pub accept: [Option<Vec<rustls::SignatureScheme>>; 2],
}
/// the provider, accepting these schemes only
fn narrow(p: Arc<CryptoProvider>, only: &Option<Vec<rustls::SignatureScheme>>) -> Arc<CryptoProvider> {
    let Some(only) = only else {
        return p;
    };
    let mut p = (*p).clone();
    let m = p.signature_verification_algorithms.mapping;
    let want: Vec<_> = only.iter().filter_map(|o| m.iter().position(|x| x.0 == *o)).collect();
    // these live for ever, so keep few of them
    type Mapping = &'static [(rustls::SignatureScheme, &'static [&'static dyn rustls::pki_types::SignatureVerificationAlgorithm])];
    static MADE: std::sync::Mutex<Vec<(usize, Vec<usize>, Mapping)>> = std::sync::Mutex::new(vec![]);
    let mut made = MADE.lock().unwrap_or_else(|e| e.into_inner());
    let id = m.as_ptr() as usize;
    p.signature_verification_algorithms.mapping = match made.iter().find(|x| x.0 == id && x.1 == want) {
        Some(x) => x.2,
        None => {
            let n: Mapping = Box::leak(want.iter().map(|i| m[*i]).collect::<Vec<_>>().into_boxed_slice());
            made.push((id, want, n));
            n
        }
    };
    Arc::new(p)
}
fn accepted(s: &mut Src, kind: usize, v13: bool) -> Option<Vec<rustls::SignatureScheme>> {
    if s.bool() {
        return None;
    }
    let fits: Vec<_> = SCHEMES.iter().filter(|x| ALGS[x.1].kind == kind && !(v13 && kind == 0 && !ALGS[x.1].pss)).collect();
    let mut v = vec![s.pick(&fits).0];
    for x in SCHEMES {
        if s.one_in(6) && x.0 != v[0] {
            let at = s.idx(v.len() + 1);
            // the first of those wanted stays findable
            if at == 0 {
                v.push(x.0);
                let n = v.len() - 1;
                v.swap(0, n);
            } else {
                v.insert(at, x.0);
            }
        }
    }
    let mut seen = vec![];
    v.retain(|x| !seen.contains(x) && { seen.push(*x); true });
    Some(v)
}
impl Plan {
    pub fn v13(&self) -> bool {
        matches!(suite(true, self.suite), SupportedCipherSuite::Tls13(_))
    }
    pub fn generate(s: &mut Src) -> Plan {
        let (client_ours, server_ours) = [(true, false), (false, true), (true, true)][s.weighted(&[4, 4, 2])];
        let suite_i = s.idx(9);
        let v13 = matches!(suite(true, suite_i), SupportedCipherSuite::Tls13(_));
        let rsa = format!("{:?}", suite(true, suite_i).suite()).contains("RSA");
        let group = if v13 { s.idx(4) } else { 1 + s.idx(3) };
        let decoy = if s.one_in(4) {
            let d = if v13 { s.idx(4) } else { 1 + s.idx(3) };
            Some(d).filter(|d| *d != group)
        } else {
            None
        };
        let w = world();
        let fits = |p: &Party| v13 || (p.id.kind == 0) == rsa;
        let c: Vec<usize> = (0..w.parties.len()).filter(|i| fits(&w.parties[*i])).collect();
        let party = *s.pick(&c);
        let client_party = if s.one_in(4) { Some(s.idx(w.parties.len())) } else { None };
        let resume = [Resume::Off, Resume::Stateful, Resume::Tickets(true), Resume::Tickets(false)][s.weighted(&[2, 2, 3, 1])];
        let early = v13 && resume == Resume::Stateful && s.bool();
        let f = |s: &mut Src| if s.one_in(3) { Some(32 + s.idx(500)) } else { None };
        let frag = [f(s), f(s)];
        let accept = [accepted(s, w.parties[party].id.kind, v13), client_party.and_then(|c| accepted(s, w.parties[c].id.kind, v13))];
        Plan { client_ours, server_ours, suite: suite_i, group, decoy, party, client_party, resume, early, frag, accept }
    }
    pub fn configs(&self) -> Result<(Arc<ClientConfig>, Arc<ServerConfig>), String> {
        let w = world();
        let version: &[&rustls::SupportedProtocolVersion] = if self.v13() { &[&rustls::version::TLS13] } else { &[&rustls::version::TLS12] };
        let mut cg: Vec<usize> = self.decoy.into_iter().collect();
        cg.push(self.group);
        let cp = narrow(provider(self.client_ours, &[self.suite], &cg), &self.accept[0]);
        let sp = narrow(provider(self.server_ours, &[self.suite], &[self.group]), &self.accept[1]);
        let b = ClientConfig::builder_with_provider(cp).with_protocol_versions(version).map_err(|e| format!("client versions: {e:?}"))?.with_root_certificates(w.roots.clone());
        let mut c = match self.client_party {
            Some(p) => {
                let p = &w.parties[p];
                b.with_client_auth_cert(p.chain.clone(), p.id.private(p.form)).map_err(|e| format!("client certificate: {e:?}"))?
            }
            None => b.with_no_client_auth(),
        };
        let b = ServerConfig::builder_with_provider(sp.clone()).with_protocol_versions(version).map_err(|e| format!("server versions: {e:?}"))?;
        let b = if self.client_party.is_some() {
            let v = WebPkiClientVerifier::builder_with_provider(w.roots.clone(), sp).build().map_err(|e| format!("client verifier: {e:?}"))?;
            b.with_client_cert_verifier(v)
        } else {
            b.with_no_client_auth()
        };
        let p = &w.parties[self.party];
        let mut v = b.with_single_cert(p.chain.clone(), p.id.private(p.form)).map_err(|e| format!("server certificate: {e:?}"))?;
        c.max_fragment_size = self.frag[0];
        v.max_fragment_size = self.frag[1];
        match self.resume {
            Resume::Off => {
                c.resumption = Resumption::disabled();
                v.session_storage = Arc::new(NoServerSessionStorage {});
            }
            Resume::Stateful => v.session_storage = ServerSessionMemoryCache::new(64),
            Resume::Tickets(ours) => {
                v.session_storage = Arc::new(NoServerSessionStorage {});
                v.ticketer = if ours { rustls_graviola::Ticketer::new() } else { other::Ticketer::new() }.map_err(|e| format!("ticketer: {e:?}"))?;
            }
        }
        if self.early {
            c.enable_early_data = true;
            v.max_early_data_size = 5000;
        }
        Ok((Arc::new(c), Arc::new(v)))
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// xor one byte of the record body
    Flip(u16, u8),
    /// xor one byte of the record header
    Header(usize, u8),
    Drop,
    Duplicate,
    SwapWithNext,
    /// nothing passes any more
    Cut,
    /// only part of the record passes, nothing after
    CutInside(u16),
    /// an earlier record of this direction again
    Replay(u16),
}
#[derive(Clone, Copy, Debug)]
pub struct FaultAt {
    /// 0 towards the server
    pub dir: usize,
    /// counted over handshake, alert and application data records of that direction
    pub record: usize,
    pub fault: Fault,
}
pub struct End {
    pub conn: Connection,
    pub send: Vec<Vec<u8>>,
    sent: usize,
    closed: bool,
    pub got: Vec<u8>,
    pub err: Option<rustls::Error>,
    pub clean: bool,
    pub early: Vec<u8>,
}
impl End {
    pub fn new(conn: Connection, send: Vec<Vec<u8>>) -> End {
        End { conn, send, sent: 0, closed: false, got: vec![], err: None, clean: false, early: vec![] }
    }
    pub fn all(&self) -> Vec<u8> {
        self.send.concat()
    }
    fn write(&mut self, s: &mut Src, v13: bool) -> bool {
        if self.err.is_some() || self.closed || self.conn.is_handshaking() {
            return false;
        }
        let n = s.idx(4);
        for _ in 0..n {
            if self.sent < self.send.len() {
                let d = &self.send[self.sent];
                let _ = self.conn.writer().write_all(d);
                self.sent += 1;
                if v13 && s.one_in(8) {
                    let _ = self.conn.refresh_traffic_keys();
                }
            }
        }
        if self.sent == self.send.len() {
            self.conn.send_close_notify();
            self.closed = true;
        }
        true
    }
    fn flush(&mut self) -> Vec<u8> {
        let mut out = vec![];
        while self.conn.wants_write() {
            if self.conn.write_tls(&mut out).is_err() {
                break;
            }
        }
        out
    }
    fn feed(&mut self, s: &mut Src, mut b: &[u8]) {
        if self.err.is_some() {
            return;
        }
        let whole = s.bool();
        while !b.is_empty() {
            let n = if whole { b.len().min(4096) } else { (1 + s.len(3000)).min(b.len()) };
            let (mut x, rest) = b.split_at(n);
            b = rest;
            while !x.is_empty() {
                match self.conn.read_tls(&mut x) {
                    Ok(0) => break,
                    Ok(_) => {}
                    Err(e) => {
                        self.err = Some(rustls::Error::General(format!("read_tls: {e}")));
                        return;
                    }
                }
                let r = self.conn.process_new_packets();
                if let Connection::Server(c) = &mut self.conn {
                    if let Some(mut e) = c.early_data() {
                        let _ = e.read_to_end(&mut self.early);
                    }
                }
                let mut buf = [0; 4096];
                loop {
                    match self.conn.reader().read(&mut buf) {
                        Ok(0) => {
                            self.clean = true;
                            break;
                        }
                        Ok(n) => self.got.extend_from_slice(&buf[..n]),
                        Err(_) => break,
                    }
                }
                if let Err(e) = r {
                    self.err = Some(e);
                    return;
                }
            }
        }
    }
}
struct Wire {
    at: Option<FaultAt>,
    seen: usize,
    held: Option<Vec<u8>>,
    dead: bool,
    past: Vec<Vec<u8>>,
}
pub struct Outcome {
    pub ends: [End; 2],
    /// what the fault hit, if it did: content type and body length
    pub hit: Option<(u8, usize)>,
    pub records: [usize; 2],
}
impl Outcome {
    pub fn good(&self, i: usize) -> bool {
        let e = &self.ends[i];
        e.err.is_none() && !e.conn.is_handshaking() && e.clean && e.got == self.ends[1 - i].all()
    }
}
/// run until nothing moves
pub fn run(s: &mut Src, v13: bool, client: End, server: End, at: Option<FaultAt>) -> Outcome {
    let mut ends = [client, server];
    let mut wires = [0, 1].map(|d| Wire { at: at.filter(|a| a.dir == d), seen: 0, held: None, dead: false, past: vec![] });
    let mut hit = None;
    for _ in 0..400 {
        let mut moved = false;
        for d in 0..2 {
            moved |= ends[d].write(s, v13);
            let out = ends[d].flush();
            if out.is_empty() {
                continue;
            }
            moved = true;
            let w = &mut wires[d];
            let mut pass = vec![];
            let mut b = &out[..];
            while b.len() >= 5 {
                let n = 5 + u16::from_be_bytes([b[3], b[4]]) as usize;
                let mut r = b[..n.min(b.len())].to_vec();
                b = &b[n.min(b.len())..];
                if w.dead {
                    continue;
                }
                let counts = r[0] != 20;
                let k = w.seen;
                if counts {
                    w.seen += 1;
                }
                if let Some(h) = w.held.take() {
                    pass.extend(&r);
                    pass.extend(h);
                    continue;
                }
                if let Some(f) = w.at.filter(|f| counts && f.record == k) {
                    let body = r.len() - 5;
                    hit = Some((r[0], body));
                    match f.fault {
                        Fault::Flip(pos, x) => r[5 + pos as usize * body / 65536] ^= x,
                        Fault::Header(i, x) => r[i] ^= x,
                        Fault::Drop => continue,
                        Fault::Duplicate => pass.extend(&r),
                        Fault::SwapWithNext => {
                            w.held = Some(r);
                            continue;
                        }
                        Fault::Cut => {
                            w.dead = true;
                            continue;
                        }
                        Fault::CutInside(pos) => {
                            w.dead = true;
                            let n = pos as usize * r.len() / 65536;
                            r.truncate(n);
                        }
                        Fault::Replay(i) => {
                            if w.past.is_empty() {
                                hit = None;
                            } else {
                                let i = i as usize * w.past.len() / 65536;
                                pass.extend(&w.past[i]);
                            }
                        }
                    }
                }
                if w.at.is_some() && counts {
                    w.past.push(r.clone());
                }
                pass.extend(r);
            }
            // a record waiting to be swapped goes out last if nothing follows at once
            ends[1 - d].feed(s, &pass);
        }
        if !moved {
            break;
        }
    }
    // endpoints only learn of the end of the transport now
    Outcome { ends, hit, records: [wires[0].seen, wires[1].seen] }
}
pub fn data(s: &mut Src) -> Vec<Vec<u8>> {
    let n = s.idx(5);
    (0..n)
        .map(|_| {
            let n = match s.idx(6) {
                0 => s.len(40_000),
                1 => 16384 - 2 + s.idx(5),
                2 => s.len(3000),
                _ => s.idx(200),
            };
            s.blob(n)
        })
        .collect()
}
pub fn connect(c: &Arc<ClientConfig>, v: &Arc<ServerConfig>, a: Vec<Vec<u8>>, b: Vec<Vec<u8>>) -> Result<(End, End), String> {
    let mut c = ClientConnection::new(c.clone(), "localhost".try_into().unwrap()).map_err(|e| format!("client: {e:?}"))?;
    let mut v = ServerConnection::new(v.clone()).map_err(|e| format!("server: {e:?}"))?;
    c.set_buffer_limit(None);
    v.set_buffer_limit(None);
    Ok((End::new(c.into(), a), End::new(v.into(), b)))
}
