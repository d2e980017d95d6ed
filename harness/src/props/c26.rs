//! C26: signing keys and verifiers of the rustls provider.
use super::c18;
use super::ecdsautil::{der_sig, hash};
use super::ecutil::curve;
use super::rsautil as ru;
use super::tlsid::*;
use crate::engine::*;
use crate::refs::{c25519, der, ec};
use crate::rngshim;
use num_bigint::BigUint;
use rustls::client::danger::ServerCertVerifier;
use rustls::client::WebPkiServerVerifier;
use rustls::crypto::CryptoProvider;
use rustls::internal::msgs::codec::{Codec, Reader};
use rustls::pki_types::{CertificateDer, PrivateKeyDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer, PrivateSec1KeyDer, UnixTime};
use rustls::{DigitallySignedStruct, RootCertStore, SignatureAlgorithm, SignatureScheme as S};
use std::sync::{Arc, OnceLock};
use std::time::Duration;

fn ours() -> &'static Arc<CryptoProvider> {
    static P: OnceLock<Arc<CryptoProvider>> = OnceLock::new();
    P.get_or_init(|| Arc::new(rustls_graviola::default_provider()))
}
fn theirs() -> &'static Arc<CryptoProvider> {
    static P: OnceLock<Arc<CryptoProvider>> = OnceLock::new();
    P.get_or_init(|| Arc::new(rustls::crypto::aws_lc_rs::default_provider()))
}
fn kind(s: &mut Src) -> usize {
    [0, 1, 2, 3, 1, 2][s.idx(6)]
}
fn message(s: &mut Src) -> Vec<u8> {
    let n = if s.one_in(3) { s.len(5000) } else { s.idx(300) };
    s.blob(n)
}
const OTHERS: [S; 10] = [
    S::RSA_PKCS1_SHA1,
    S::ECDSA_SHA1_Legacy,
    S::ECDSA_NISTP521_SHA512,
    S::ED448,
    S::ML_DSA_44,
    S::ML_DSA_65,
    S::ML_DSA_87,
    S::Unknown(0x0301),
    S::Unknown(0x0809),
    S::Unknown(0),
];
fn offered(s: &mut Src) -> Vec<S> {
    let mut v = vec![];
    let n = match s.idx(5) {
        0 => s.idx(3),
        _ => s.idx(14),
    };
    for _ in 0..n {
        v.push(if s.weighted(&[3, 1]) == 0 { SCHEMES[s.idx(9)].0 } else { OTHERS[s.idx(10)] });
    }
    v
}
/// strongest first
fn expected(kind: usize, offered: &[S]) -> Option<(S, usize)> {
    SCHEMES.iter().find(|(sc, a)| ALGS[*a].kind == kind && offered.contains(sc)).copied()
}
fn check_public(id: &Id, k: &dyn rustls::sign::SigningKey) -> R {
    let want = [SignatureAlgorithm::RSA, SignatureAlgorithm::ECDSA, SignatureAlgorithm::ECDSA, SignatureAlgorithm::ED25519][id.kind];
    ensure!(k.algorithm() == want, "algorithm", "{} key says it is {:?}", KINDS[id.kind], k.algorithm());
    match k.public_key() {
        Some(p) => ensure!(p.as_ref() == id.spki(), "public", "{}: public key {} expected {}", KINDS[id.kind], hexs(p.as_ref()), hexs(&id.spki())),
        None => return fail("public", format!("{}: no public key", KINDS[id.kind])),
    }
    Ok(())
}
fn signing(s: &mut Src) -> R {
    let kind = kind(s);
    let id = Id::generate(s, kind);
    let form = s.idx(4);
    let k = match ours().key_provider.load_private_key(id.private(form)) {
        Ok(k) => k,
        Err(e) => return fail("load", format!("{} key in form {form} is refused: {e:?}", KINDS[kind])),
    };
    check_public(&id, &*k)?;
    s.label(KINDS[kind]);
    for _ in 0..1 + s.idx(3) {
        let list = offered(s);
        let want = expected(kind, &list);
        match (k.choose_scheme(&list), want) {
            (None, None) => {}
            (Some(x), None) => return fail("choose", format!("{} key chooses {:?} out of {list:?}", KINDS[kind], x.scheme())),
            (None, Some(w)) => return fail("choose", format!("{} key finds nothing in {list:?}, expected {:?}", KINDS[kind], w.0)),
            (Some(x), Some((w, a))) => {
                ensure!(x.scheme() == w, "choose", "{} key chooses {:?} not {w:?} out of {list:?}", KINDS[kind], x.scheme());
                let n = 1 + s.idx(2);
                for _ in 0..n {
                    let m = message(s);
                    rngshim::prng(&[], s.u64());
                    let r = x.sign(&m);
                    rngshim::reset();
                    let sig = match r {
                        Ok(g) => g,
                        Err(e) => return fail("sign", format!("{w:?}: {e:?}")),
                    };
                    ensure!(id.verify(ALGS[a], &m, &sig), "signature", "{w:?} signature {} over {} is not valid under the key", hexs(&sig), hexs(&m));
                    let v = find(theirs().signature_verification_algorithms.all, a).expect("alg");
                    ensure!(v.verify_signature(&id.public, &m, &sig).is_ok(), "other", "{w:?} signature {} is refused by aws-lc", hexs(&sig));
                    ensure!(dss_ok(ours(), &id, w, true, &m, &sig).unwrap_or(ALGS[a].kind == 0), "own", "{w:?} signature is refused by the library");
                    s.nontrivial();
                    s.note(format!("{w:?} signature over {} bytes", m.len()));
                }
            }
        }
    }
    Ok(())
}
/// a signer that cannot make a valid signature says so, and recovers
fn refusing(s: &mut Src) -> R {
    let kind = kind(s);
    let broken = kind == 0 && s.weighted(&[1, 2]) == 1;
    let mut id = Id::generate(s, kind);
    let mut what = "random source fails";
    if broken {
        if let Secret::Rsa(k) = &mut id.secret {
            let half = k.p.bits();
            let bit = BigUint::from(1u32) << s.range(1, half as usize - 3);
            let f = [&mut k.dp, &mut k.dq, &mut k.qi, &mut k.n, &mut k.p, &mut k.q];
            let i = s.idx(6);
            what = ["dp wrong", "dq wrong", "qInv wrong", "n wrong", "p wrong", "q wrong"][i];
            for (j, v) in f.into_iter().enumerate() {
                if i == j {
                    *v ^= &bit;
                }
            }
        }
    }
    let form = s.idx(4);
    let k = match ours().key_provider.load_private_key(id.private(form)) {
        Ok(k) => k,
        Err(e) => {
            ensure!(broken, "load", "{} key in form {form} is refused: {e:?}", KINDS[kind]);
            s.label("refused at import");
            s.nontrivial();
            return Ok(());
        }
    };
    let mine: Vec<S> = SCHEMES.iter().filter(|x| ALGS[x.1].kind == kind).map(|x| x.0).collect();
    let scheme = *s.pick(&mine);
    let a = SCHEMES.iter().find(|x| x.0 == scheme).unwrap().1;
    let Some(x) = k.choose_scheme(&[scheme]) else {
        return fail("choose", format!("{} key does not take {scheme:?}", KINDS[kind]));
    };
    let m = message(s);
    let seed = s.u64();
    if broken {
        rngshim::prng(&[], seed);
    } else {
        rngshim::script(&[], rngshim::After::Fail);
    }
    let r = no_panic(|| x.sign(&m));
    let drew = rngshim::failed() > 0;
    rngshim::reset();
    s.nontrivial();
    s.note(format!("{} {scheme:?} {what}: {}", KINDS[kind], matches!(r, Ok(Ok(_)))));
    match r {
        Err(p) => return fail("panic", format!("{} {scheme:?} signer panicked ({what}): {p}", KINDS[kind])),
        Ok(Ok(sig)) => {
            let good = Id { public: id.public.clone(), ..id.clone() };
            ensure!(!drew, "ignored", "{} {scheme:?} signer gave {} although the random source failed", KINDS[kind], hexs(&sig));
            ensure!(good.verify(ALGS[a], &m, &sig), "bad-signature", "{} {scheme:?} signer with {what} gave an invalid signature {}", KINDS[kind], hexs(&sig));
            s.label("valid all the same");
        }
        Ok(Err(_)) => s.label(if broken { "broken key refused" } else { "random failure reported" }),
    }
    if !broken {
        // the failure is forgotten
        rngshim::prng(&[], seed);
        let r = x.sign(&m);
        rngshim::reset();
        match r {
            Ok(sig) => ensure!(id.verify(ALGS[a], &m, &sig), "signature", "{scheme:?} signature {} is not valid under the key", hexs(&sig)),
            Err(e) => return fail("sign", format!("{scheme:?}: {e:?}")),
        }
    }
    Ok(())
}
/// keys that must not load, or load only as what they are
fn loading(s: &mut Src) -> R {
    // what c18 generates: valid and subtly invalid encodings
    let ki = 1 + s.idx(7);
    let (mut b, _) = c18::generate(s, ki);
    if s.one_in(4) {
        b = c18::mutate(s, &b).0;
    }
    let wrap = s.idx(4);
    let d = b.clone();
    let key = match wrap {
        0 => PrivateKeyDer::Pkcs1(PrivatePkcs1KeyDer::from(d)),
        1 => PrivateKeyDer::Sec1(PrivateSec1KeyDer::from(d)),
        2 => PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(d)),
        // as said by the kind
        _ => match ki {
            1 => PrivateKeyDer::Pkcs1(PrivatePkcs1KeyDer::from(d)),
            3 | 4 => PrivateKeyDer::Sec1(PrivateSec1KeyDer::from(d)),
            _ => PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(d)),
        },
    };
    let takes: &[usize] = match key {
        PrivateKeyDer::Pkcs1(_) => &[1],
        PrivateKeyDer::Sec1(_) => &[3, 4],
        _ => &[2, 5, 6, 7],
    };
    let got = ours().key_provider.load_private_key(key);
    let want: Vec<usize> = takes.iter().copied().filter(|k| c18::import(*k, &b).is_some()).collect();
    if want.len() > 1 {
        // a SEC1 key that does not name its curve: either will do
        ensure!(want == [3, 4], "ambiguous", "{} imports as {want:?}", hexs(&b));
        ensure!(got.is_ok(), "load", "{} does not load", hexs(&b));
        s.label("ambiguous");
        return Ok(());
    }
    match (got, want.first()) {
        (Err(_), None) => s.label("refused"),
        (Ok(_), None) => return fail("accepts", format!("{} loads although no import takes it", hex(&b))),
        (Err(e), Some(k)) => return fail("load", format!("{} encoding does not load: {e:?}: {}", c18::KINDS[*k], hex(&b))),
        (Ok(k), Some(w)) => {
            let id = c18::import(*w, &b).unwrap();
            let kind = [9, 0, 0, 1, 2, 1, 2, 3][*w];
            let id = match kind {
                0 => {
                    let p = k.public_key().map(|p| p.as_ref().to_vec()).unwrap_or_default();
                    let v = graviola::signing::rsa::SigningKey::from_pkcs1_der(&id).unwrap();
                    let mut buf = vec![0; 2000];
                    ensure!(p == v.public_key().to_spki_der(&mut buf).unwrap(), "public", "RSA public key {}", hex(&p));
                    None
                }
                3 => Some(Id::ed(id.try_into().unwrap())),
                _ => Some(Id::ec(kind, BigUint::from_bytes_be(&id))),
            };
            if let Some(id) = id {
                check_public(&id, &*k)?;
            } else {
                ensure!(k.algorithm() == SignatureAlgorithm::RSA, "algorithm", "RSA key says it is {:?}", k.algorithm());
            }
            s.label("loaded");
        }
    }
    s.nontrivial();
    s.note(format!("{} as wrapper {wrap}", c18::KINDS[ki]));
    Ok(())
}
fn dss(scheme: S, sig: &[u8]) -> DigitallySignedStruct {
    let mut b = vec![];
    scheme.encode(&mut b);
    b.extend((sig.len() as u16).to_be_bytes());
    b.extend_from_slice(sig);
    DigitallySignedStruct::read(&mut Reader::init(&b)).expect("DigitallySignedStruct")
}
/// handshake signature through rustls; None when TLS1.3 does not have the scheme at all
fn dss_ok(p: &Arc<CryptoProvider>, id: &Id, scheme: S, v13: bool, m: &[u8], sig: &[u8]) -> Option<bool> {
    // the signature of the certificate plays no role
    let t = tbs(&[1], "x", "x", &id.spki(), false, 0);
    let cert = wrap(&t, 0, &[0; 70]);
    let d = dss(scheme, sig);
    let algs = &p.signature_verification_algorithms;
    if v13 {
        if matches!(scheme, S::RSA_PKCS1_SHA256 | S::RSA_PKCS1_SHA384 | S::RSA_PKCS1_SHA512) {
            return None;
        }
        Some(rustls::crypto::verify_tls13_signature(m, &cert, &d, algs).is_ok())
    } else {
        Some(rustls::crypto::verify_tls12_signature(m, &cert, &d, algs).is_ok())
    }
}
/// a signature to be judged: who, under what, over what; and whether it must pass
fn signature(s: &mut Src, id: &Id, a: Alg, m: &[u8]) -> (Vec<u8>, &'static str) {
    let good = id.sign(s, a, m);
    let w: [u32; 3] = [5, 3, 4];
    match s.weighted(&w) {
        0 => (good, "good"),
        1 => {
            let mut g = good;
            match s.idx(5) {
                0 => {
                    let i = s.idx(g.len());
                    g[i] ^= 1 << s.idx(8);
                    (g, "bit flipped")
                }
                1 => {
                    let n = s.idx(g.len());
                    g.truncate(n);
                    (g, "truncated")
                }
                2 => {
                    let n = 1 + s.idx(3);
                    let x = s.blob(n);
                    g.extend(x);
                    (g, "extended")
                }
                3 => {
                    g.insert(0, 0);
                    (g, "zero in front")
                }
                _ => (vec![0; g.len()], "zeroes"),
            }
        }
        _ => match &id.secret {
            Secret::Rsa(k) => {
                let hl = ru::hlen(a.h);
                let mut o = ru::Pss { h: a.h, mgf: a.h, salt: s.bytes(hl), sep: 1, ps_byte: None, bc: 0xbc, clear_top: true, prefix: [0; 8] };
                let mh = hash(a.h, m);
                let what;
                let em = match (a.pss, s.idx(6)) {
                    (_, 0) => {
                        what = "plus modulus";
                        let v = BigUint::from_bytes_be(&good) + &k.n;
                        if v.bits() as usize <= 8 * k.k() {
                            return (ec::be(&v, k.k()), what);
                        }
                        return (v.to_bytes_be(), what);
                    }
                    (true, 1) => {
                        what = "other salt length";
                        let n = *s.pick(&[0, 1, hl - 1, hl + 1, 20, 32, 48, 64]);
                        o.salt = s.bytes(n);
                        ru::emsa_pss(k.n.bits() as usize, &mh, &o)
                    }
                    (true, 2) => {
                        what = "other mgf hash";
                        o.mgf = (a.h + 1 + s.idx(2)) % 3;
                        ru::emsa_pss(k.n.bits() as usize, &mh, &o)
                    }
                    (true, 3) => {
                        what = "bad trailer";
                        o.bc = 0xcc;
                        ru::emsa_pss(k.n.bits() as usize, &mh, &o)
                    }
                    (true, _) => {
                        what = "bad padding";
                        o.ps_byte = Some((s.idx(64), 1 + s.u8() % 255));
                        ru::emsa_pss(k.n.bits() as usize, &mh, &o)
                    }
                    (false, n) => {
                        let mut em = ru::emsa_pkcs1(k.k(), a.h, m);
                        match n {
                            1 => {
                                // hash of the right length, labelled as another
                                what = "other digest label";
                                let j = (a.h + 1) % 3;
                                let t = [unhex(ru::DI[j]), mh].concat();
                                let p = k.k() - t.len() - 3;
                                em = [vec![0, 1], vec![0xff; p], vec![0], t].concat();
                            }
                            2 => {
                                what = "trailing garbage";
                                let t = [unhex(ru::DI[a.h]), mh].concat();
                                let g = 1 + s.idx(20);
                                let p = k.k() - t.len() - 3 - g;
                                em = [vec![0, 1], vec![0xff; p], vec![0], t, s.bytes(g)].concat();
                            }
                            3 => {
                                what = "bad padding";
                                let n = 8 + s.idx(100);
                                let i = 2 + s.idx(n);
                                em[i] ^= 1 << s.idx(8);
                            }
                            _ => {
                                what = "bad header";
                                em[s.idx(2)] ^= 1 + s.u8() % 3;
                            }
                        }
                        em
                    }
                };
                let v = BigUint::from_bytes_be(&em) % &k.n;
                (ec::be(&k.private(&v), k.k()), what)
            }
            Secret::Ec(_) => {
                let c = curve(id.kind - 1);
                let (r, v) = id.ec_sign(s, a.h, m);
                match s.idx(7) {
                    0 => (der_sig(&r, &(&c.n - &v)), "s negated"),
                    1 => ([c.enc(&r), c.enc(&v)].concat(), "fixed form"),
                    2 => (der_sig(&(&r + &c.n), &v), "r plus order"),
                    3 => (der_sig(&r, &(&v + &c.n)), "s plus order"),
                    4 => {
                        let pad = |x: &BigUint| der::int_raw(&[vec![0], x.to_bytes_be()].concat());
                        (der::seq(&[pad(&r), pad(&v)]), "padded integers")
                    }
                    5 => {
                        let b = [der::uint(&r.to_bytes_be()), der::uint(&v.to_bytes_be())].concat();
                        ([vec![0x30, 0x81, b.len() as u8], b].concat(), "long length")
                    }
                    _ => (der_sig(&v, &r), "swapped"),
                }
            }
            Secret::Ed(_) => {
                let mut g = good;
                match s.idx(3) {
                    0 => {
                        let v = BigUint::from_bytes_le(&g[32..]) + c25519::order();
                        g[32..].copy_from_slice(&c25519::le32(&v));
                        (g, "s plus order")
                    }
                    1 => {
                        g[63] |= 0x80;
                        (g, "top bit")
                    }
                    _ => {
                        g.rotate_left(32);
                        (g, "swapped")
                    }
                }
            }
        },
    }
}
fn verifying(s: &mut Src) -> R {
    let kind = kind(s);
    let id = Id::generate(s, kind);
    let mine: Vec<usize> = (0..13).filter(|i| ALGS[*i].kind == kind).collect();
    let j = *s.pick(&mine);
    let m = message(s);
    let (sig, what) = signature(s, &id, ALGS[j], &m);
    let i = match s.weighted(&[6, 3, 1]) {
        0 => j,
        1 => *s.pick(&mine),
        _ => s.idx(13),
    };
    let mut key = id.public.clone();
    let mut seen = m.clone();
    let mut ok = id.verify(ALGS[i], &m, &sig);
    let mut other = "";
    if s.one_in(4) {
        match s.idx(5) {
            0 => {
                let n = s.idx(seen.len() + 1);
                if n < seen.len() {
                    seen[n] ^= 1 << s.idx(8);
                } else {
                    seen.push(0);
                }
                other = "other message";
                ok = false;
            }
            1 => {
                let b = Id::generate(s, kind);
                ok = ok && b.public == key;
                key = b.public;
                other = "other key";
            }
            2 => {
                key = id.spki();
                other = "key inside SPKI";
                ok = false;
            }
            3 => {
                if s.bool() {
                    key.push(0);
                } else {
                    key.pop();
                }
                other = "key length";
                ok = false;
            }
            _ => {
                if kind == 1 || kind == 2 {
                    let n = (key.len() - 1) / 2;
                    key[0] = 2 + (key[2 * n] & 1);
                    key.truncate(1 + n);
                    other = "compressed key";
                    ok = false;
                }
            }
        }
    }
    let v = match find(ours().signature_verification_algorithms.all, i) {
        Some(v) => v,
        None => return fail("missing", format!("no algorithm {:?}", ALGS[i])),
    };
    let got = v.verify_signature(&key, &seen, &sig).is_ok();
    ensure!(
        got == ok,
        if got { "accepts" } else { "rejects" },
        "{:?} {} a {what} {:?} signature {} by key {} over {} {other}",
        ALGS[i],
        if got { "accepts" } else { "rejects" },
        ALGS[j],
        hex(&sig),
        hexs(&key),
        hexs(&seen)
    );
    if what == "good" && i == j && other.is_empty() {
        let a = find(theirs().signature_verification_algorithms.all, i).unwrap();
        ensure!(a.verify_signature(&key, &seen, &sig).is_ok(), "oracle", "aws-lc refuses what the model made");
        s.label("honest");
    } else {
        s.label(if ok { "still valid" } else { "invalid" });
    }
    // the same judgement at the level of handshake signatures
    if other.is_empty() {
        let (scheme, _) = SCHEMES[s.idx(9)];
        let scheme = if s.bool() { scheme } else { SCHEMES.iter().find(|x| x.1 == i).map(|x| x.0).unwrap_or(scheme) };
        let want12 = tls12(scheme).into_iter().any(|a| ALGS[a].kind == kind && id.verify(ALGS[a], &m, &sig));
        let want13 = SCHEMES.iter().any(|x| x.0 == scheme && ALGS[x.1].kind == kind && id.verify(ALGS[x.1], &m, &sig));
        let g12 = dss_ok(ours(), &id, scheme, false, &m, &sig);
        let g13 = dss_ok(ours(), &id, scheme, true, &m, &sig);
        ensure!(g12 == Some(want12), "tls12", "TLS1.2 {scheme:?}: {g12:?} for a {what} {:?} signature", ALGS[j]);
        ensure!(g13.is_none_or(|g| g == want13), "tls13", "TLS1.3 {scheme:?}: {g13:?} for a {what} {:?} signature", ALGS[j]);
    }
    s.nontrivial();
    s.note(format!("{what} {:?} signature judged as {:?} {other}: {got}", ALGS[j], ALGS[i]));
    Ok(())
}
/// certificate chains under every algorithm
fn chain(s: &mut Src) -> R {
    let deep = s.one_in(3);
    let pick = |s: &mut Src| {
        let i = s.idx(13);
        (Id::generate(s, ALGS[i].kind), i)
    };
    let (root, ra) = pick(s);
    let rc = certify(s, &root, "root", ra, "root", &root.spki(), true);
    let kind = kind(s);
    let ee = Id::generate(s, kind);
    let (mid, issuer, ia, issuer_name) = if deep {
        let (mid, ma) = pick(s);
        let c = certify(s, &root, "root", ra, "mid", &mid.spki(), true);
        (vec![c], mid, ma, "mid")
    } else {
        (vec![], root.clone(), ra, "root")
    };
    let mut la = ia;
    let what = s.idx(6);
    if what == 5 {
        // labelled as another algorithm of the same key type
        let same: Vec<usize> = (0..13).filter(|i| ALGS[*i].kind == ALGS[ia].kind).collect();
        la = *s.pick(&same);
    }
    let mut t = tbs(&[7], issuer_name, "ee", &ee.spki(), false, la);
    let mut sig = issuer.sign(s, ALGS[ia], &t);
    let mut mid = mid;
    let ok = match what {
        0..=2 => true,
        3 => {
            // another key's certificate under the same signature
            let other = Id::generate(s, kind);
            let t2 = tbs(&[7], issuer_name, "ee", &other.spki(), false, la);
            let same = t2 == t;
            t = t2;
            same
        }
        4 => {
            if deep && s.bool() {
                let mut b = mid[0].as_ref().to_vec();
                let n = b.len() - 1 - s.idx(20);
                b[n] ^= 1 << s.idx(8);
                mid[0] = CertificateDer::from(b);
            } else {
                let n = sig.len() - 1 - s.idx(20);
                sig[n] ^= 1 << s.idx(8);
            }
            false
        }
        _ => la == ia,
    };
    let ec = wrap(&t, la, &sig);
    let mut roots = RootCertStore::empty();
    if let Err(e) = roots.add(rc) {
        return fail("harness", format!("root: {e:?}"));
    }
    let roots = Arc::new(roots);
    let mut verdicts = vec![];
    for p in [ours(), theirs()] {
        let v = WebPkiServerVerifier::builder_with_provider(roots.clone(), p.clone()).build().expect("verifier");
        let r = v.verify_server_cert(&ec, &mid, &"localhost".try_into().unwrap(), &[], UnixTime::since_unix_epoch(Duration::from_secs(1_700_000_000)));
        verdicts.push(r.map(|_| ()));
    }
    ensure!(verdicts[1].is_ok() == ok, "oracle", "rustls with aws-lc says {:?} for a chain that should be {ok}", verdicts[1]);
    ensure!(verdicts[0].is_ok() == ok, if ok { "chain-rejects" } else { "chain-accepts" }, "chain signed {:?} labelled {:?} for {} key: {:?}", ALGS[ia], ALGS[la], KINDS[kind], verdicts[0]);
    s.label(if ok { "chain accepted" } else { "chain refused" });
    s.nontrivial();
    s.note(format!("{:?} labelled {:?}, deep {deep}: {ok}", ALGS[ia], ALGS[la]));
    Ok(())
}
fn inventory(s: &mut Src) -> R {
    let a = &ours().signature_verification_algorithms;
    for i in 0..13 {
        ensure!(find(a.all, i).is_some(), "missing", "no algorithm {:?}", ALGS[i]);
    }
    let mut got = a.supported_schemes();
    let mut want: Vec<S> = SCHEMES.iter().map(|x| x.0).collect();
    got.sort_by_key(|x| u16::from(*x));
    want.sort_by_key(|x| u16::from(*x));
    ensure!(got == want, "schemes", "advertised schemes {got:?}");
    s.nontrivial();
    s.note("inventory");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "a key was loaded or refused, a signature made or judged, or a chain judged, and compared with the model",
        assumptions: &["RSA keys are drawn from a pool of primes giving moduli of 2048 to 4096 bits", "which schemes the library advertises is taken from its documentation"],
        subs: vec![
            Sub::new("signing", signing, 1500, 20_000),
            Sub::new("refusing", refusing, 1500, 20_000),
            Sub::new("loading", loading, 3000, 60_000),
            Sub::new("verifying", verifying, 2000, 40_000),
            Sub::new("chain", chain, 1000, 20_000),
            Sub::new("inventory", inventory, 1, 1),
        ],
    }
}
