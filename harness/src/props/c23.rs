//! C23: TLS record protection.
use super::aead_util::ref_seal;
use super::tlsutil;
use crate::engine::*;
use rustls::crypto::aws_lc_rs as other;
use rustls::crypto::cipher::{InboundOpaqueMessage, Iv, MessageDecrypter, MessageEncrypter, OutboundChunks, OutboundPlainMessage};
use rustls::{CipherSuite, ConnectionTrafficSecrets, ContentType, Error, ProtocolVersion, SupportedCipherSuite};

pub const OURS: fn() -> &'static [SupportedCipherSuite] = || rustls_graviola::suites::ALL_CIPHER_SUITES;
pub fn theirs(id: CipherSuite) -> SupportedCipherSuite {
    *other::ALL_CIPHER_SUITES.iter().find(|s| s.suite() == id).expect("suite of the other implementation")
}
struct Keys {
    ours: SupportedCipherSuite,
    theirs: SupportedCipherSuite,
    v13: bool,
    /// as in aead_util
    aead: usize,
    key: Vec<u8>,
    iv: [u8; 12],
    explicit: [u8; 8],
}
fn keys(s: &mut Src) -> Keys {
    let i = s.idx(OURS().len());
    let ours = OURS()[i];
    let theirs = theirs(ours.suite());
    let name = format!("{:?}", ours.suite());
    let aead = if name.contains("CHACHA") {
        2
    } else if name.contains("AES_256") {
        1
    } else {
        0
    };
    let key = s.bytes(if aead == 0 { 16 } else { 32 });
    let iv = if s.one_in(4) { s.edgy() } else { s.arr() };
    let explicit = if s.one_in(4) { s.edgy() } else { s.arr() };
    s.label(["AES-128-GCM", "AES-256-GCM", "ChaCha20-Poly1305"][aead]);
    s.label(if name.starts_with("TLS13") { "TLS1.3" } else { "TLS1.2" });
    Keys { ours, theirs, v13: matches!(ours, SupportedCipherSuite::Tls13(_)), aead, key, iv, explicit }
}
impl Keys {
    fn fixed(&self) -> &[u8] {
        if self.aead == 2 {
            &self.iv
        } else {
            &self.iv[..4]
        }
    }
    fn enc(&self, which: &SupportedCipherSuite) -> Box<dyn MessageEncrypter> {
        let k = tlsutil::key(&self.key, self.key.len());
        match which {
            SupportedCipherSuite::Tls13(t) => t.aead_alg.encrypter(k, Iv::from(self.iv)),
            SupportedCipherSuite::Tls12(t) => t.aead_alg.encrypter(k, self.fixed(), if self.aead == 2 { &[] } else { &self.explicit }),
        }
    }
    fn dec(&self, which: &SupportedCipherSuite) -> Box<dyn MessageDecrypter> {
        let k = tlsutil::key(&self.key, self.key.len());
        match which {
            SupportedCipherSuite::Tls13(t) => t.aead_alg.decrypter(k, Iv::from(self.iv)),
            SupportedCipherSuite::Tls12(t) => t.aead_alg.decrypter(k, self.fixed()),
        }
    }
    /// the record body as RFC 5288, 7905 and 8446 give it
    fn by_the_book(&self, typ: ContentType, version: ProtocolVersion, seq: u64, inner: &[u8], explicit: Option<[u8; 8]>) -> Vec<u8> {
        let mut nonce = self.iv;
        let ex = |n: &mut [u8; 12]| n[4..].iter_mut().zip(seq.to_be_bytes()).for_each(|(a, b)| *a ^= b);
        let mut out = vec![];
        let aad = if self.v13 {
            ex(&mut nonce);
            let n = (inner.len() + 16) as u16;
            vec![23, 3, 3, (n >> 8) as u8, n as u8]
        } else {
            if self.aead != 2 {
                // any explicit part does; graviola and the other one xor the number into the key block's
                nonce[4..].copy_from_slice(&self.explicit);
                ex(&mut nonce);
                if let Some(e) = explicit {
                    nonce[4..].copy_from_slice(&e);
                }
                out.extend_from_slice(&nonce[4..]);
            } else {
                ex(&mut nonce);
            }
            let mut a = seq.to_be_bytes().to_vec();
            a.push(u8::from(typ));
            a.extend(u16::from(version).to_be_bytes());
            a.extend((inner.len() as u16).to_be_bytes());
            a
        };
        let (ct, tag) = ref_seal(self.aead, &self.key, &nonce, &aad, inner);
        out.extend(ct);
        out.extend(tag);
        out
    }
}
type Opened = Result<(ContentType, ProtocolVersion, Vec<u8>), Error>;
fn open(d: &mut dyn MessageDecrypter, typ: ContentType, version: ProtocolVersion, body: &[u8], seq: u64) -> Opened {
    let mut b = body.to_vec();
    d.decrypt(InboundOpaqueMessage::new(typ, version, &mut b), seq).map(|p| (p.typ, p.version, p.payload.to_vec()))
}
fn typ(s: &mut Src) -> ContentType {
    *s.pick(&[ContentType::ApplicationData, ContentType::Handshake, ContentType::Alert, ContentType::ChangeCipherSpec, ContentType::Unknown(0x7f), ContentType::Unknown(255)])
}
fn version(s: &mut Src) -> ProtocolVersion {
    *s.pick(&[ProtocolVersion::TLSv1_2, ProtocolVersion::TLSv1_2, ProtocolVersion::TLSv1_2, ProtocolVersion::TLSv1_3, ProtocolVersion::TLSv1_0, ProtocolVersion::Unknown(0xfefd)])
}
fn seq(s: &mut Src) -> u64 {
    match s.idx(5) {
        0 => s.below(3),
        1 => 0xff + s.below(3),
        2 => (1 << s.idx(64)) - 1 + s.below(2),
        3 => u64::MAX - s.below(3),
        _ => s.u64(),
    }
}
fn size(s: &mut Src) -> usize {
    match s.idx(6) {
        0 => s.idx(20),
        1 => 16_384 - s.idx(20),
        2 => s.idx(16_385),
        _ => s.len(1000),
    }
}
/// a record sealed by one is what the specification says, and both open it
fn seal(s: &mut Src) -> R {
    let k = keys(s);
    let n = size(s);
    let pt = s.blob(n);
    let (typ, version, seq) = (typ(s), version(s), seq(s));
    let mut e = k.enc(&k.ours);
    let extra = if k.v13 {
        17
    } else if k.aead == 2 {
        16
    } else {
        24
    };
    ensure!(e.encrypted_payload_len(n) == n + extra, "length", "{:?}: length for {n} bytes is given as {}", k.ours.suite(), e.encrypted_payload_len(n));
    // chunks as the send buffer passes them
    let cuts = s.partition(n);
    let mut parts: Vec<&[u8]> = vec![];
    let mut at = 0;
    for c in &cuts {
        parts.push(&pt[at..at + c]);
        at += c;
    }
    let (before, after) = (s.blob((s.idx % 7) as usize), s.blob((s.idx % 5) as usize));
    let sealed = match s.idx(3) {
        0 => e.encrypt(OutboundPlainMessage { typ, version, payload: pt.as_slice().into() }, seq),
        1 => e.encrypt(OutboundPlainMessage { typ, version, payload: OutboundChunks::new(&parts) }, seq),
        _ => {
            // the middle of a longer buffer
            let mut all: Vec<&[u8]> = vec![&before];
            all.extend(&parts);
            all.push(&after);
            let c = OutboundChunks::new(&all);
            let (_, c) = c.split_at(before.len());
            let (c, _) = c.split_at(n);
            e.encrypt(OutboundPlainMessage { typ, version, payload: c }, seq)
        }
    };
    let Ok(sealed) = sealed else {
        return fail("seal", format!("{:?}: {n} bytes not sealed", k.ours.suite()));
    };
    let (st, sv) = (sealed.typ, sealed.version);
    let wire = sealed.encode();
    let body = wire[5..].to_vec();
    let mut inner = pt.clone();
    let (et, ev) = if k.v13 {
        inner.push(u8::from(typ));
        (ContentType::ApplicationData, ProtocolVersion::TLSv1_2)
    } else {
        (typ, version)
    };
    ensure!((st, sv) == (et, ev), "header", "{:?}: sealed as {st:?} {sv:?}", k.ours.suite());
    let header = [u8::from(et), (u16::from(ev) >> 8) as u8, u16::from(ev) as u8, (body.len() >> 8) as u8, body.len() as u8];
    ensure!(wire[..5] == header, "header", "{:?}: header {}", k.ours.suite(), hex(&wire[..5]));
    let want = k.by_the_book(typ, version, seq, &inner, None);
    ensure!(body == want, "seal", "{:?}: record {seq} of {n} bytes: {} expected {}", k.ours.suite(), hexs(&body), hexs(&want));
    let m = OutboundPlainMessage { typ, version, payload: pt.as_slice().into() };
    let Ok(t) = k.enc(&k.theirs).encrypt(m, seq) else {
        return fail("harness", "other implementation refused to seal");
    };
    ensure!(t.encode()[5..] == body[..], "seal", "{:?}: record {seq} of {n} bytes differs from the other implementation's", k.ours.suite());
    let want_open: Opened = Ok((typ, if k.v13 { ProtocolVersion::TLSv1_3 } else { version }, pt.clone()));
    for (who, suite) in [("own", &k.ours), ("other", &k.theirs)] {
        let got = open(&mut *k.dec(suite), et, ev, &body, seq);
        // an all-zero type is padding to TLS1.3
        ensure!(got == want_open, "open", "{:?}: record {seq} of {n} bytes opened by {who} as {}", k.ours.suite(), show(&got));
    }
    s.nontrivial();
    s.note(format!("{:?} record {seq}, {typ:?}, {n} bytes in {} chunks", k.ours.suite(), parts.len()));
    Ok(())
}
fn show(o: &Opened) -> String {
    match o {
        Ok((t, v, p)) => format!("{t:?} {v:?} {} bytes {}", p.len(), hexs(p)),
        Err(e) => format!("{e:?}"),
    }
}
/// any plaintext a peer can seal: padding, missing type, more than the limit
fn peer(s: &mut Src) -> R {
    let k = keys(s);
    let (mut typ, version, seq) = (typ(s), version(s), seq(s));
    let n = match s.idx(6) {
        0 => 16_384,
        1 => 16_385,
        2 => 16_384 + s.idx(300),
        3 => 16_384 - s.idx(30),
        4 => s.idx(40),
        _ => s.len(2000),
    };
    let pt = s.blob(n);
    let mut inner = pt.clone();
    let mut pad = 0;
    let mut want: Opened;
    let ver;
    if k.v13 {
        pad = match s.idx(4) {
            0 => 0,
            1 => s.idx(20),
            2 => (16_384usize + 1).saturating_sub(n + 1),
            _ => s.idx(400),
        };
        let typed = !s.one_in(6);
        if typed {
            inner.push(u8::from(typ));
        } else if s.bool() {
            inner.iter_mut().for_each(|b| *b = 0);
        }
        inner.extend(vec![0; pad]);
        let mut rest = inner.clone();
        while rest.last() == Some(&0) {
            rest.pop();
        }
        ver = ProtocolVersion::TLSv1_2;
        // RFC 8446: no more than 2^14 + 1 with type and padding; no type at all is an error
        want = if inner.len() > 16_385 {
            Err(Error::PeerSentOversizedRecord)
        } else if let Some(t) = rest.pop() {
            Ok((ContentType::from(t), ProtocolVersion::TLSv1_3, rest))
        } else {
            Err(Error::PeerMisbehaved(rustls::PeerMisbehaved::IllegalTlsInnerPlaintext))
        };
        typ = ContentType::ApplicationData;
    } else {
        ver = version;
        want = if n > 16_384 { Err(Error::PeerSentOversizedRecord) } else { Ok((typ, version, pt.clone())) };
    }
    let explicit: [u8; 8] = s.edgy();
    let mut body = k.by_the_book(typ, ver, seq, &inner, Some(explicit));
    if s.one_in(8) {
        let i = s.idx(body.len());
        body[i] ^= 1 << s.idx(8);
        want = Err(Error::DecryptError);
    }
    let got = open(&mut *k.dec(&k.ours), typ, ver, &body, seq);
    let check = open(&mut *k.dec(&k.theirs), typ, ver, &body, seq);
    // which of two errors applies is a matter of order
    let same = |a: &Opened, b: &Opened| match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(Error::DecryptError), Err(e)) => *e == Error::DecryptError,
        (Err(_), Err(e)) => *e != Error::DecryptError,
        _ => false,
    };
    ensure!(same(&want, &check), "harness", "{:?}: expected {} other {}", k.ours.suite(), show(&want), show(&check));
    ensure!(same(&want, &got), format!("peer/{}", if want.is_ok() { "refused" } else { "accepted" }), "{:?}: record of {} bytes ({n} data, {pad} padding): {} expected {}", k.ours.suite(), inner.len(), show(&got), show(&want));
    match &want {
        Ok(_) => s.label("accepted"),
        Err(Error::DecryptError) => s.label("altered"),
        Err(Error::PeerSentOversizedRecord) => s.label("oversized"),
        Err(_) => s.label("untyped"),
    }
    s.nontrivial();
    s.note(format!("{:?} peer record of {} bytes: {}", k.ours.suite(), inner.len(), if want.is_ok() { "accepted" } else { "refused" }));
    Ok(())
}
/// records that differ from what was sealed
fn tamper(s: &mut Src) -> R {
    let k = keys(s);
    let n = if s.one_in(8) { size(s) } else { s.idx(80) };
    let pt = s.blob(n);
    let (t0, v0, q0) = (typ(s), version(s), seq(s));
    let m = OutboundPlainMessage { typ: t0, version: v0, payload: pt.as_slice().into() };
    let Ok(o) = k.enc(&k.ours).encrypt(m, q0) else {
        return fail("seal", "not sealed");
    };
    let (mut t, mut v, mut q) = (o.typ, o.version, q0);
    let sealed = o.encode()[5..].to_vec();
    let mut body = sealed.clone();
    let how = s.idx(9);
    match how {
        0 => {
            let i = s.idx(body.len());
            body[i] ^= 1 << s.idx(8);
        }
        1 => {
            let i = body.len() - 1 - s.idx(16);
            body[i] ^= s.range(1, 255) as u8;
        }
        2 => {
            let cut = 1 + s.idx(body.len());
            body.truncate(body.len() - cut);
        }
        3 => {
            let cut = 1 + s.idx(body.len());
            body.drain(..cut);
        }
        4 => {
            let more = 1 + s.idx(40);
            let x = s.blob(more);
            if s.bool() {
                body.extend(x);
            } else {
                body.splice(0..0, x);
            }
        }
        5 => q = if s.bool() { q0.wrapping_add(1 + s.below(3)).wrapping_sub(4 * s.below(2)) } else { q0 ^ (1 << s.idx(64)) },
        6 => {
            let to = self::typ(s);
            t = to;
        }
        7 => v = *s.pick(&[ProtocolVersion::TLSv1_0, ProtocolVersion::TLSv1_1, ProtocolVersion::TLSv1_3, ProtocolVersion::Unknown(0x0203)]),
        _ => {
            let l = s.len(300);
            body = s.bytes(l);
        }
    }
    let header = !k.v13 && (t, v) != (t0, v0);
    // TLS1.3 fixes type and version in what is authenticated; rustls checks them elsewhere
    if body == sealed && q == q0 && !header {
        s.label("unaltered");
        let got = open(&mut *k.dec(&k.ours), t, v, &body, q);
        ensure!(got.is_ok(), "unaltered", "{:?}: not opened", k.ours.suite());
        return Ok(());
    }
    let mut d = k.dec(&k.ours);
    let got = open(&mut *d, t, v, &body, q);
    ensure!(got == Err(Error::DecryptError), format!("tamper/{how}"), "{:?}: altered record (way {how}) gave {}", k.ours.suite(), show(&got));
    // and the next good record still opens
    let (t, v) = if k.v13 { (ContentType::ApplicationData, ProtocolVersion::TLSv1_2) } else { (t0, v0) };
    let again = open(&mut *d, t, v, &sealed, q0);
    ensure!(again.is_ok(), "after", "{:?}: good record refused after an altered one", k.ours.suite());
    s.label(["bit", "tag", "cut", "front", "more", "seq", "type", "version", "junk"][how]);
    s.nontrivial();
    s.note(format!("{:?} {n} bytes altered by way {how}", k.ours.suite()));
    Ok(())
}
/// both directions of a session, records swapped and repeated
fn session(s: &mut Src) -> R {
    let k = keys(s);
    let flip = s.bool();
    let (a, b) = if flip { (&k.theirs, &k.ours) } else { (&k.ours, &k.theirs) };
    let mut e = k.enc(a);
    let mut d = k.dec(b);
    let mut own = k.dec(&k.ours);
    let start = seq(s).min(u64::MAX - 100);
    let count = 2 + s.idx(12);
    let mut wires = vec![];
    let mut pts = vec![];
    for i in 0..count {
        let n = if s.one_in(6) { size(s) } else { s.idx(200) };
        let p = s.blob(n);
        let m = OutboundPlainMessage { typ: ContentType::ApplicationData, version: ProtocolVersion::TLSv1_2, payload: p.as_slice().into() };
        // AWS-LC's keeps its own idea of what the next nonce may be
        if flip {
            e = k.enc(a);
        }
        let Ok(o) = e.encrypt(m, start + i as u64) else {
            return fail("seal", "not sealed");
        };
        wires.push(o.encode()[5..].to_vec());
        pts.push(p);
    }
    // TLS1.2 explicit nonces and sealed bodies do not repeat
    for i in 0..count {
        for j in 0..i {
            ensure!(wires[i] != wires[j], "repeat", "{:?}: records {i} and {j} are the same", k.ours.suite());
            if !k.v13 && k.aead != 2 {
                ensure!(wires[i][..8] != wires[j][..8], "nonce", "{:?}: records {i} and {j} have the same nonce", k.ours.suite());
            }
        }
    }
    for _ in 0..2 * count {
        let (i, j) = (s.idx(count), s.idx(count));
        let want = i == j;
        for (who, d) in [("peer", &mut d), ("own", &mut own)] {
            let got = open(&mut **d, ContentType::ApplicationData, ProtocolVersion::TLSv1_2, &wires[i], start + j as u64);
            ensure!(got.is_ok() == want, "order", "{:?}: record {i} as number {j} by {who}: {}", k.ours.suite(), show(&got));
            if let Ok((_, _, p)) = got {
                ensure!(p == pts[i], "order", "{:?}: record {i} opened wrong", k.ours.suite());
            }
        }
    }
    s.nontrivial();
    s.note(format!("{:?} {count} records from {start}", k.ours.suite()));
    Ok(())
}
/// what is exported for other record layers, and the numbers suites advertise
fn shape(s: &mut Src) -> R {
    let k = keys(s);
    let name = k.ours.suite();
    let (limit, their_limit, sec, their_sec);
    match (&k.ours, &k.theirs) {
        (SupportedCipherSuite::Tls13(a), SupportedCipherSuite::Tls13(b)) => {
            limit = a.common.confidentiality_limit;
            their_limit = b.common.confidentiality_limit;
            ensure!(a.aead_alg.key_len() == k.key.len(), "key-len", "{name:?}: key length {}", a.aead_alg.key_len());
            sec = a.aead_alg.extract_keys(tlsutil::key(&k.key, k.key.len()), Iv::from(k.iv));
            their_sec = b.aead_alg.extract_keys(tlsutil::key(&k.key, k.key.len()), Iv::from(k.iv));
        }
        (SupportedCipherSuite::Tls12(a), SupportedCipherSuite::Tls12(b)) => {
            limit = a.common.confidentiality_limit;
            their_limit = b.common.confidentiality_limit;
            let (x, y) = (a.aead_alg.key_block_shape(), b.aead_alg.key_block_shape());
            ensure!(
                (x.enc_key_len, x.fixed_iv_len, x.explicit_nonce_len) == (y.enc_key_len, y.fixed_iv_len, y.explicit_nonce_len),
                "key-block",
                "{name:?}: key block {} {} {}",
                x.enc_key_len,
                x.fixed_iv_len,
                x.explicit_nonce_len
            );
            let ex: &[u8] = if k.aead == 2 { &[] } else { &k.explicit };
            sec = a.aead_alg.extract_keys(tlsutil::key(&k.key, k.key.len()), k.fixed(), ex);
            their_sec = b.aead_alg.extract_keys(tlsutil::key(&k.key, k.key.len()), k.fixed(), ex);
        }
        _ => return fail("version", format!("{name:?} is of another version")),
    }
    // AES-GCM: RFC 8446 5.5 allows about 2^24.5 full records; more than that is too many
    ensure!(limit <= their_limit && limit >= 1 << 20, "limit", "{name:?}: up to {limit} records under one key, the other implementation {their_limit}");
    let flat = |x: Result<ConnectionTrafficSecrets, _>| match x {
        Ok(ConnectionTrafficSecrets::Aes128Gcm { key, iv }) => Some((0, key.as_ref().to_vec(), iv.as_ref().to_vec())),
        Ok(ConnectionTrafficSecrets::Aes256Gcm { key, iv }) => Some((1, key.as_ref().to_vec(), iv.as_ref().to_vec())),
        Ok(ConnectionTrafficSecrets::Chacha20Poly1305 { key, iv }) => Some((2, key.as_ref().to_vec(), iv.as_ref().to_vec())),
        _ => None,
    };
    let (a, b) = (flat(sec.map_err(|_| ())), flat(their_sec.map_err(|_| ())));
    ensure!(a == b, "extract", "{name:?}: secrets {a:?} expected {b:?}");
    s.nontrivial();
    s.note(format!("{name:?}: limit {limit}"));
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "a record was sealed or opened by graviola's record layer and compared with the independently computed record, or an altered one was offered",
        assumptions: &["AWS-LC's AEADs and rustls's record layer over them are correct", "TLS1.3's outer type and version are checked by rustls, not by the cipher"],
        subs: vec![
            Sub::new("seal", seal, 60_000, 800_000).all(),
            Sub::new("peer", peer, 60_000, 500_000).all(),
            Sub::new("tamper", tamper, 200_000, 3_000_000).all(),
            Sub::new("session", session, 16_000, 200_000).all(),
            Sub::new("shape", shape, 6000, 100_000),
        ],
    }
}
