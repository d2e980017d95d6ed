//! C27: whole TLS connections.
use super::c23;
use super::c24::GROUPS;
use super::tlsconn::*;
use super::tlsid::*;
use crate::engine::*;
use crate::rngshim;
use aws_lc_rs::{digest, hmac};
use rustls::crypto::hash::{Context, Hash};
use rustls::crypto::tls13::HkdfExpander;
use rustls::{CipherSuite, Connection, HandshakeKind, ProtocolVersion, SupportedCipherSuite};
use std::io::Write;

const KX: [&str; 4] = ["X25519MLKEM768", "X25519", "P-256", "P-384"];
fn describe(p: &Plan) -> String {
    let w = world();
    let who = |o: bool| if o { "graviola" } else { "aws-lc" };
    format!(
        "{} client, {} server, {:?}, {}{}, {} certificate{}, resumption {:?}{}{}",
        who(p.client_ours),
        who(p.server_ours),
        suite(true, p.suite).suite(),
        KX[p.group],
        p.decoy.map(|d| format!(" (after {})", KX[d])).unwrap_or_default(),
        KINDS[w.parties[p.party].id.kind],
        p.client_party.map(|c| format!(", {} client certificate", KINDS[w.parties[c].id.kind])).unwrap_or_default(),
        p.resume,
        if p.early { ", early data" } else { "" },
        p.accept.iter().zip(["client", "server"]).filter_map(|(a, w)| a.as_ref().map(|a| format!(", {w} accepts {a:?}"))).collect::<String>(),
    )
}
fn export(c: &mut Connection, n: usize, label: &[u8], ctx: Option<&[u8]>) -> Option<Vec<u8>> {
    c.export_keying_material(vec![0u8; n], label, ctx).ok()
}
/// everything that must hold of a connection nobody interfered with
fn check_good(s: &mut Src, p: &Plan, o: &mut Outcome, nth: usize) -> R {
    let d = describe(p);
    for i in 0..2 {
        let who = ["client", "server"][i];
        let (e, peer) = (&o.ends[i], &o.ends[1 - i]);
        ensure!(e.err.is_none(), "error", "{d}: connection {nth}: {who} fails: {:?} (peer: {:?})", e.err, peer.err);
        ensure!(!e.conn.is_handshaking(), "stalls", "{d}: connection {nth}: {who} does not finish the handshake");
        let want = peer.all();
        ensure!(e.got == want, "data", "{d}: {who} received {} bytes of {}, first difference at {:?}", e.got.len(), want.len(), e.got.iter().zip(&want).position(|(a, b)| a != b));
        ensure!(e.clean, "close", "{d}: {who} saw no end of data");
        let c = &e.conn;
        let v = if p.v13() { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 };
        ensure!(c.protocol_version() == Some(v), "version", "{d}: {:?}", c.protocol_version());
        ensure!(c.negotiated_cipher_suite().map(|x| x.suite()) == Some(suite(true, p.suite).suite()), "suite", "{d}: {:?}", c.negotiated_cipher_suite());
        let kind = c.handshake_kind();
        if nth > 0 && p.resume != Resume::Off {
            ensure!(kind == Some(HandshakeKind::Resumed), "resumes", "{d}: connection {nth} is {kind:?}");
        } else {
            ensure!(matches!(kind, Some(HandshakeKind::Full | HandshakeKind::FullWithHelloRetryRequest)), "full", "{d}: connection {nth} is {kind:?}");
            let g = c.negotiated_key_exchange_group().map(|g| g.name());
            ensure!(g == Some(GROUPS[p.group]), "group", "{d}: {g:?}");
        }
        let w = world();
        let certs = if i == 0 { Some(p.party) } else { p.client_party };
        let want = certs.map(|x| &w.parties[x].chain[..]);
        ensure!(c.peer_certificates() == want, "peer", "{d}: {who} reports other peer certificates");
    }
    let n = 1 + s.idx(150);
    let cl = s.bool();
    let nl = s.idx(40);
    let label = s.bytes(nl);
    let nc = s.idx(80);
    let ctx = s.bytes(nc);
    let ctx = if cl { Some(&ctx[..]) } else { None };
    let [a, b] = &mut o.ends;
    let (x, y) = (export(&mut a.conn, n, &label, ctx), export(&mut b.conn, n, &label, ctx));
    ensure!(x.is_some() && x == y, "exporter", "{d}: exported keys differ: {:?} {:?}", x.map(|x| hex(&x)), y.map(|x| hex(&x)));
    Ok(())
}
/// connections until the last one, all undisturbed, all but the first resumed
fn honest(s: &mut Src) -> R {
    let p = Plan::generate(s);
    rngshim::prng(&[], s.u64());
    let r = series(s, &p, None);
    rngshim::reset();
    r
}
fn series(s: &mut Src, p: &Plan, at: Option<FaultAt>) -> R {
    let d = describe(p);
    let (c, v) = match p.configs() {
        Ok(x) => x,
        Err(e) => return fail("config", format!("{d}: {e}")),
    };
    let rounds = if p.resume == Resume::Off { 1 } else { 1 + s.idx(3) };
    for nth in 0..rounds {
        let (a, b) = (data(s), data(s));
        let (mut c, v) = match connect(&c, &v, a, b) {
            Ok(x) => x,
            Err(e) => return fail("connect", format!("{d}: {e}")),
        };
        let mut early = vec![];
        if p.early && nth > 0 {
            if let Connection::Client(c) = &mut c.conn {
                if let Some(mut w) = c.early_data() {
                    let n = s.idx(6000);
                    let b = s.blob(n);
                    let n = w.write(&b).unwrap_or(0);
                    early = b[..n].to_vec();
                }
            }
        }
        let last = nth + 1 == rounds;
        let f = if last { at } else { None };
        let mut o = run(s, p.v13(), c, v, f);
        let accepted = if let Connection::Client(c) = &o.ends[0].conn { c.is_early_data_accepted() } else { false };
        if f.is_none() || o.hit.is_none() {
            check_good(s, p, &mut o, nth)?;
            let want = if accepted { &early[..] } else { &[] };
            ensure!(o.ends[1].early == want, "early", "{d}: early data arrives as {} bytes of {}, accepted {accepted}", o.ends[1].early.len(), early.len());
            if !early.is_empty() && accepted {
                s.label("early data");
            }
            if nth > 0 {
                s.label("resumed");
            }
        } else if let (Some(f), Some((kind, len))) = (f, o.hit) {
            let what = format!("{d}, connection {nth}: {:?} on record {} of {} bytes of type {kind} towards {}", f.fault, f.record, len, ["server", "client"][f.dir]);
            for i in 0..2 {
                let (e, all) = (&o.ends[i], o.ends[1 - i].all());
                ensure!(all.starts_with(&e.got), "altered", "{what}: {} bytes delivered that were not sent as such", e.got.len());
                ensure!(!e.clean || e.got == all, "truncated", "{what}: {} of {} bytes reported as complete", e.got.len(), all.len());
            }
            ensure!(early.starts_with(&o.ends[1].early), "altered", "{what}: altered early data delivered");
            let header = matches!(f.fault, Fault::Header(..));
            // what an unauthenticated header byte says may not matter
            // after the end of data nothing is read any more
            let over = f.fault == Fault::Duplicate && o.records[f.dir] == f.record + 1;
            ensure!(header || over || !(o.good(0) && o.good(1)), "unnoticed", "{what}: nobody notices");
            s.label(match f.fault {
                Fault::Flip(..) => "flip",
                Fault::Header(..) => "header",
                Fault::Drop => "drop",
                Fault::Duplicate => "duplicate",
                Fault::SwapWithNext => "swap",
                Fault::Cut | Fault::CutInside(_) => "cut",
                Fault::Replay(_) => "replay",
            });
            s.nontrivial();
            s.note(what);
            return Ok(());
        }
    }
    if at.is_none() {
        s.label(if p.v13() { "TLS1.3" } else { "TLS1.2" });
        if p.decoy.is_some() {
            s.label("retry");
        }
        if p.client_party.is_some() {
            s.label("client certificate");
        }
        s.nontrivial();
        s.note(d);
    }
    Ok(())
}
fn faulty(s: &mut Src) -> R {
    let p = Plan::generate(s);
    let x = 1u8 << s.idx(8);
    let fault = match s.weighted(&[10, 2, 1, 1, 2, 1, 1, 2]) {
        0 => Fault::Flip(s.u64() as u16, if s.bool() { x } else { 1 + s.u8() % 255 }),
        1 => Fault::Header(s.idx(5), x),
        2 => Fault::Drop,
        3 => Fault::Duplicate,
        4 => Fault::SwapWithNext,
        5 => Fault::Cut,
        6 => Fault::CutInside(s.u64() as u16),
        _ => Fault::Replay(s.u64() as u16),
    };
    let record = if s.one_in(5) { s.idx(30) } else { s.idx(8) };
    let at = FaultAt { dir: s.idx(2), record, fault };
    rngshim::prng(&[], s.u64());
    let r = series(s, &p, Some(at));
    rngshim::reset();
    r
}
/// the handshake's own hashing and key derivation, against aws-lc
fn schedule(s: &mut Src) -> R {
    let i = s.idx(9);
    let (a, b) = (suite(true, i), suite(false, i));
    let name = format!("{:?}", a.suite());
    let sha384 = name.ends_with("384");
    let dalg = if sha384 { &digest::SHA384 } else { &digest::SHA256 };
    let (ca, cb) = match (&a, &b) {
        (SupportedCipherSuite::Tls13(a), SupportedCipherSuite::Tls13(b)) => (&a.common, &b.common),
        (SupportedCipherSuite::Tls12(a), SupportedCipherSuite::Tls12(b)) => (&a.common, &b.common),
        _ => return fail("suite", format!("{name} is for another version")),
    };
    // transcript hash: any sequence of updates, forks and results
    let h: &dyn Hash = ca.hash_provider;
    ensure!(h.algorithm() == cb.hash_provider.algorithm(), "hash", "{name}: {:?}", h.algorithm());
    ensure!(h.output_len() == dalg.output_len(), "hash", "{name}: digest of {} bytes", h.output_len());
    let mut ctxs: Vec<(Box<dyn Context>, Vec<u8>)> = vec![(h.start(), vec![])];
    for _ in 0..s.idx(12) {
        let k = s.idx(ctxs.len());
        let n = s.len(400);
        let m = s.blob(n);
        match s.idx(4) {
            0 => {
                let f = (ctxs[k].0.fork(), ctxs[k].1.clone());
                ctxs.push(f);
            }
            1 => {
                let g = ctxs[k].0.fork_finish();
                ensure!(g.as_ref() == digest::digest(dalg, &ctxs[k].1).as_ref(), "transcript", "{name}: hash of {} midway is {}", hexs(&ctxs[k].1), hex(g.as_ref()));
            }
            _ => {
                ctxs[k].0.update(&m);
                ctxs[k].1.extend(m);
            }
        }
    }
    for (c, m) in ctxs {
        let want = digest::digest(dalg, &m);
        ensure!(c.finish().as_ref() == want.as_ref(), "transcript", "{name}: hash of {}", hexs(&m));
        ensure!(h.hash(&m).as_ref() == want.as_ref(), "transcript", "{name}: hash of {} at once", hexs(&m));
    }
    // key derivation
    let nsec = match s.idx(4) {
        0 => s.len(300),
        1 => *s.pick(&[32, 48, 64]),
        _ => s.idx(80),
    };
    let secret = s.blob(nsec);
    let nseed = s.idx(100);
    let seed = s.blob(nseed);
    let nl = s.idx(40);
    let label = s.blob(nl);
    match (&a, &b) {
        (SupportedCipherSuite::Tls13(a), SupportedCipherSuite::Tls13(b)) => {
            s.label("hkdf");
            let salt = if s.one_in(3) { None } else { Some(&seed[..]) };
            let zero = s.one_in(4);
            let hk = if sha384 { hmac::HMAC_SHA384 } else { hmac::HMAC_SHA256 };
            let hl = h.output_len();
            // RFC 5869
            let zeroes = vec![0; hl];
            let prk = hmac::sign(&hmac::Key::new(hk, salt.unwrap_or(&zeroes)), if zero { &zeroes } else { &secret });
            let make = |t: &rustls::Tls13CipherSuite| -> Box<dyn HkdfExpander> {
                match zero {
                    true => t.hkdf_provider.extract_from_zero_ikm(salt),
                    false => t.hkdf_provider.extract_from_secret(salt, &secret),
                }
            };
            let (x, y) = (make(a), make(b));
            ensure!(x.hash_len() == hl, "hkdf", "{name}: hash_len {}", x.hash_len());
            let cut = s.idx(label.len() + 1);
            let info: [&[u8]; 3] = [&label[..cut], &label[cut..], &seed];
            let n = if s.one_in(5) { 255 * hl - 1 + s.idx(3) } else { s.idx(200) };
            let (mut o1, mut o2, mut want) = (vec![0; n], vec![0; n], vec![]);
            let (r1, r2) = (x.expand_slice(&info, &mut o1), y.expand_slice(&info, &mut o2));
            ensure!(r1.is_ok() == (n <= 255 * hl), "hkdf", "{name}: expanding to {n} bytes: {}", r1.is_ok());
            if r2.is_ok() {
                ensure!(o1 == o2, "hkdf", "{name}: expands to {} by aws-lc to {}", hexs(&o1), hexs(&o2));
            }
            if r1.is_ok() {
                let k = hmac::Key::new(hk, prk.as_ref());
                let mut t = vec![];
                let mut i = 0u8;
                while want.len() < n {
                    i = i.wrapping_add(1);
                    t = hmac::sign(&k, &[&t[..], &info.concat(), &[i]].concat()).as_ref().to_vec();
                    want.extend_from_slice(&t);
                }
                want.truncate(n);
                ensure!(o1 == want, "hkdf", "{name}: expands to {} expected {}", hexs(&o1), hexs(&want));
            }
            ensure!(x.expand_block(&info).as_ref() == y.expand_block(&info).as_ref(), "hkdf", "{name}: expand_block");
            let okm = x.expand_block(&info);
            ensure!(a.hkdf_provider.hmac_sign(&okm, &secret).as_ref() == hmac::sign(&hmac::Key::new(hk, okm.as_ref()), &secret).as_ref(), "hmac", "{name}: hmac_sign");
        }
        (SupportedCipherSuite::Tls12(a), _) => {
            s.label("prf");
            let n = s.idx(200);
            let (mut o1, mut o2) = (vec![0; n], vec![]);
            a.prf_provider.for_secret(&mut o1, &secret, &label, &seed);
            // RFC 5246 section 5
            let k = hmac::Key::new(if sha384 { hmac::HMAC_SHA384 } else { hmac::HMAC_SHA256 }, &secret);
            let ls = [&label[..], &seed].concat();
            let mut t = hmac::sign(&k, &ls);
            while o2.len() < n {
                o2.extend_from_slice(hmac::sign(&k, &[t.as_ref(), &ls].concat()).as_ref());
                t = hmac::sign(&k, t.as_ref());
            }
            o2.truncate(n);
            ensure!(o1 == o2, "prf", "{name}: secret {} label {} seed {} gives {} not {}", hex(&secret), hex(&label), hex(&seed), hex(&o1), hex(&o2));
        }
        _ => {}
    }
    s.nontrivial();
    s.note(format!("{name}: {} byte secret", secret.len()));
    Ok(())
}
/// what the provider offers, and the limits it states
fn inventory(s: &mut Src) -> R {
    let p = rustls_graviola::default_provider();
    let want = [
        CipherSuite::TLS13_AES_128_GCM_SHA256,
        CipherSuite::TLS13_AES_256_GCM_SHA384,
        CipherSuite::TLS13_CHACHA20_POLY1305_SHA256,
        CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256,
        CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384,
        CipherSuite::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256,
        CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256,
        CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384,
        CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256,
    ];
    for w in want {
        let Some(x) = p.cipher_suites.iter().find(|x| x.suite() == w) else {
            return fail("missing", format!("{w:?} is not offered"));
        };
        let limit = match x {
            SupportedCipherSuite::Tls13(t) => t.common.confidentiality_limit,
            SupportedCipherSuite::Tls12(t) => t.common.confidentiality_limit,
        };
        // RFC 8446 5.5: 2^24.5 full-size records under one AES-GCM key
        ensure!(format!("{w:?}").contains("CHACHA") || limit <= 23_726_566, "limit", "{w:?} goes on for {limit} records");
    }
    ensure!(p.cipher_suites.len() == want.len(), "suites", "{} suites", p.cipher_suites.len());
    for g in GROUPS {
        ensure!(p.kx_groups.iter().any(|x| x.name() == g), "missing", "{g:?} is not offered");
    }
    let _ = c23::OURS();
    s.nontrivial();
    s.note("inventory");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "a connection with the planned parameters was completed and checked on both ends, or the planned fault hit a record that was actually sent; or a key derivation was compared",
        assumptions: &["rustls 0.23 drives the connection on both ends; its own protocol logic is not under test", "changes to record headers, which TLS does not authenticate as such, only have to leave the delivered data intact"],
        subs: vec![
            Sub::new("honest", honest, 1500, 30_000).all(),
            Sub::new("faulty", faulty, 4000, 100_000),
            Sub::new("schedule", schedule, 20_000, 300_000).all(),
            Sub::new("inventory", inventory, 1, 1),
        ],
    }
}
