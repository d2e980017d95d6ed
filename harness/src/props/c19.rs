//! no crash, hang or access outside the buffers given
use super::aead_util::Aead;
use super::c01;
use super::c18;
use super::tlsutil;
use super::ecdsautil::{SK, VK};
use super::ecutil::{curve, point, scalar, Public, Static};
use super::rsautil::{self as ru, Shape};
use crate::engine::*;
use crate::guard::{Edge, Guarded};
use crate::rngshim;
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{sha3, Sha256, Sha512};
use graviola::key_agreement::{mlkem768, x25519};
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use graviola::signing::rsa;
use rustls::crypto::cipher::{InboundOpaqueMessage, Iv};
use rustls::{ContentType, ProtocolVersion, SupportedCipherSuite};

const EDGES: [Edge; 2] = [Edge::End, Edge::Start];
fn ro(b: &[u8], e: Edge) -> Guarded {
    Guarded::new(b, e).readonly()
}

fn hashes(s: &mut Src) -> R {
    let n = s.len(5000);
    let m = s.blob(n);
    let parts = s.partition(n);
    let k = s.idx(c01::KINDS + 5);
    let on = s.len(700);
    s.nontrivial();
    s.note(format!("hash kind {k} over {n} bytes in {parts:?}"));
    let run = |m: &dyn Fn(usize, usize) -> Guarded, outp: &mut [u8]| -> Vec<u8> {
        let mut at = 0;
        let mut pieces: Vec<Guarded> = Vec::new();
        for p in &parts {
            pieces.push(m(at, at + p));
            at += p;
        }
        match k {
            k if k < c01::KINDS => {
                let mut c = c01::Ctx::new(k);
                for p in &pieces {
                    c.update(p);
                }
                c.finish()
            }
            6 => {
                let mut c = sha3::Sha3_256Context::new();
                pieces.iter().for_each(|p| c.update(p));
                c.finish().to_vec()
            }
            7 => {
                let mut c = sha3::Sha3_512Context::new();
                pieces.iter().for_each(|p| c.update(p));
                c.finish().to_vec()
            }
            8 => {
                let v: Vec<&[u8]> = pieces.iter().map(|p| &p[..]).collect();
                sha3::Shake128::new(&v).read(outp);
                outp.to_vec()
            }
            9 => {
                let v: Vec<&[u8]> = pieces.iter().map(|p| &p[..]).collect();
                sha3::Shake256::new(&v).read(outp);
                outp.to_vec()
            }
            _ => {
                let key: &[u8] = pieces.first().map(|p| &p[..]).unwrap_or(&[]);
                let mut h = Hmac::<Sha512>::new(key);
                let mut g = Hmac::<Sha256>::new(key);
                for p in &pieces {
                    h.update(&p[..]);
                    g.update(&p[..]);
                }
                let mut o = h.finish().as_ref().to_vec();
                o.extend(g.finish().as_ref());
                o
            }
        }
    };
    let mut res = Vec::new();
    for e in EDGES {
        let mut out = Guarded::new(&vec![0; on], e);
        res.push(run(&|a, b| ro(&m[a..b], e), &mut out));
        ensure!(out.canary_ok(), "overrun", "hash kind {k} wrote outside its {on}-byte output ({e:?})");
    }
    ensure!(res[0] == res[1], "depends-on-surroundings", "hash kind {k} of the same {n} bytes differs with buffer placement");
    Ok(())
}

fn aeads(s: &mut Src) -> R {
    let kind = s.idx(4);
    let n = s.len(3000);
    let an = s.len(600);
    let key = s.blob(32);
    let nonce = s.blob(Aead::nonce_len(kind));
    let aad = s.blob(an);
    let pt = s.blob(n);
    let tl = *s.pick(&[16usize, 16, 16, 0, 1, 12, 15, 17, 32]);
    s.nontrivial();
    s.note(format!("aead {kind} aad {an} text {n} tag {tl}"));
    let mut res = Vec::new();
    for e in EDGES {
        let gk = ro(&key[..Aead::key_len(kind)], e);
        let mut padded = gk.to_vec();
        padded.resize(32, 0);
        let k = if kind < 2 { Aead::Gcm(graviola::aead::AesGcm::new(&gk)) } else { Aead::new(kind, &padded) };
        let gn = ro(&nonce, e);
        let ga = ro(&aad, e);
        let mut buf = Guarded::new(&pt, e);
        let mut tag = Guarded::new(&[0u8; 16], e);
        {
            let t: &mut [u8; 16] = (&mut tag[..]).try_into().unwrap();
            match &k {
                Aead::Gcm(k) => k.encrypt((&gn[..]).try_into().unwrap(), &ga, &mut buf, t),
                Aead::Cc(k) => k.encrypt((&gn[..]).try_into().unwrap(), &ga, &mut buf, t),
                Aead::Xcc(k) => k.encrypt((&gn[..]).try_into().unwrap(), &ga, &mut buf, t),
            }
        }
        ensure!(buf.canary_ok() && tag.canary_ok(), "overrun", "encryption of {n} bytes wrote outside its buffers ({e:?})");
        let mut o = buf.to_vec();
        o.extend(&tag[..]);
        let mut given = tag.to_vec();
        given.resize(tl, 0);
        let gt = ro(&given, e);
        let ok = k.open(&gn, &ga, &mut buf, &gt);
        ensure!(buf.canary_ok(), "overrun", "decryption of {n} bytes wrote outside its buffer ({e:?})");
        ensure!(ok == (tl == 16), "tag-length", "decryption with a {tl}-byte tag: {ok}");
        res.push(o);
    }
    ensure!(res[0] == res[1], "depends-on-surroundings", "aead {kind} aad {an} text {n}: differs with buffer placement");
    Ok(())
}

/// parse anything, then use whatever was accepted
fn import(s: &mut Src, kind: usize, b: &[u8]) -> R {
    let sigbuf = 1030;
    let use_rsa = |s: &mut Src, k: rsa::SigningKey| {
        let mut out = vec![0u8; 6000];
        let _ = k.to_pkcs8_der(&mut out);
        let _ = k.to_pkcs1_der(&mut out);
        let pk = k.public_key();
        let _ = pk.to_spki_der(&mut out);
        let n = if s.one_in(4) { s.idx(sigbuf) } else { k.modulus_len_bytes() };
        let mut sig = Guarded::new(&vec![0; n], Edge::End);
        let pss = s.bool();
        let h = s.idx(3);
        let r = ru::sign(&k, pss, h, b"message", &mut sig);
        if r.is_some() {
            s.label("signed");
        }
        let _ = ru::verify(&pk, pss, h, b"message", &sig);
        sig.canary_ok()
    };
    let use_ec = |s: &mut Src, k: SK| {
        let n = s.idx(140);
        let mut sig = Guarded::new(&vec![0; n], Edge::End);
        let h = s.idx(3);
        if s.bool() {
            let _ = k.sign(h, &[b"m"], &mut sig);
        } else {
            let _ = k.sign_asn1(h, &[b"m"], &mut sig);
        }
        let mut out = Guarded::new(&vec![0; s.idx(300)], Edge::End);
        for w in 0..3 {
            let _ = k.to(w, &mut out);
        }
        sig.canary_ok() && out.canary_ok()
    };
    let mut good = true;
    let mut accepted = true;
    match kind {
        0 => match rsa::VerifyingKey::from_pkcs1_der(b) {
            Ok(k) => {
                let n = s.idx(sigbuf);
                let sig = s.blob(n);
                let sig = ro(&sig, Edge::End);
                let _ = ru::verify(&k, s.bool(), s.idx(3), b"message", &sig);
                let mut out = Guarded::new(&vec![0; s.idx(1100)], Edge::End);
                let _ = k.to_pkcs1_der(&mut out);
                let _ = k.to_spki_der(&mut out);
                good = out.canary_ok();
            }
            Err(_) => accepted = false,
        },
        1 => match rsa::SigningKey::from_pkcs1_der(b) {
            Ok(k) => good = use_rsa(s, k),
            Err(_) => accepted = false,
        },
        2 => match rsa::SigningKey::from_pkcs8_der(b) {
            Ok(k) => good = use_rsa(s, k),
            Err(_) => accepted = false,
        },
        3..=6 => {
            let ci = (kind + 1) % 2;
            let r = if kind < 5 { SK::from_sec1(ci, b) } else { SK::from_pkcs8(ci, b) };
            match r {
                Ok(k) => good = use_ec(s, k),
                Err(_) => accepted = false,
            }
        }
        7 => match Ed25519SigningKey::from_pkcs8_der(b) {
            Ok(k) => {
                let sig = k.sign(b"x");
                let mut out = Guarded::new(&vec![0; s.idx(120)], Edge::End);
                let _ = k.to_pkcs8_der(&mut out);
                good = out.canary_ok() && k.public_key().verify(&sig, b"x").is_ok();
            }
            Err(_) => accepted = false,
        },
        _ => match Ed25519VerifyingKey::from_spki_der(b) {
            Ok(k) => {
                let n = s.idx(70);
                let sig = s.blob(n);
                let _ = k.verify(&ro(&sig, Edge::End), b"x");
                let mut out = Guarded::new(&vec![0; s.idx(60)], Edge::End);
                let _ = k.to_spki_der(&mut out);
                good = out.canary_ok();
            }
            Err(_) => accepted = false,
        },
    }
    if accepted {
        s.label("accepted");
    }
    ensure!(good, "overrun", "a write outside the given buffer after importing {}", hex(b));
    Ok(())
}

fn parsers(s: &mut Src) -> R {
    let kind = s.idx(c18::KINDS.len());
    let (enc, _) = c18::generate(s, kind);
    let (b, desc) = c18::mutate(s, &enc);
    let kind = if s.one_in(8) { s.idx(c18::KINDS.len()) } else { kind };
    s.nontrivial();
    s.note(format!("{} {desc} {}", c18::KINDS[kind], hexs(&b)));
    let g = ro(&b, *s.pick(&EDGES));
    import(s, kind, &g)
}

/// RSA private keys that parse, with any numbers in them
fn rsa_numbers(s: &mut Src) -> R {
    use num_bigint::BigUint;
    let Some(mut k) = ru::key(s, Shape::Common) else { return Ok(()) };
    for _ in 0..s.range(1, 3) {
        let which = s.idx(8);
        let v: BigUint = match s.weighted(&[2, 2, 2, 2, 2, 3]) {
            0 => BigUint::from(s.idx(4)),
            1 => &k.n + 0u32,
            2 => &k.p * 2u32 + 1u32,
            3 => k.q.clone(),
            4 => &k.p - 1u32,
            _ => {
                let n = *s.pick(&[1usize, 8, 64, 127, 128, 129, 255, 256, 257, 512, 513, 1024, 1025, 2000]);
                let mut b = s.blob(n);
                if s.bool() {
                    b[n - 1] |= 1;
                }
                BigUint::from_bytes_be(&b)
            }
        };
        match which {
            0 => k.n = v,
            1 => k.e = v,
            2 => k.d = v,
            3 => k.p = v,
            4 => k.q = v,
            5 => k.dp = v,
            6 => k.dq = v,
            _ => k.qi = v,
        }
    }
    s.nontrivial();
    let enc = k.private_der();
    s.note(format!("RSA private key n={} e={} d={} p={} q={} dp={} dq={} qi={} bits", k.n.bits(), k.e.bits(), k.d.bits(), k.p.bits(), k.q.bits(), k.dp.bits(), k.dq.bits(), k.qi.bits()));
    let g = ro(&enc, *s.pick(&EDGES));
    import(s, 1, &g)?;
    let enc = k.public_der();
    let g = ro(&enc, *s.pick(&EDGES));
    import(s, 0, &g)
}

fn junk(s: &mut Src) -> R {
    let kind = s.idx(c18::KINDS.len());
    let n = s.len(400);
    let mut b = s.blob(n);
    let x = s.u8();
    if n > 4 {
        match s.idx(4) {
            0 => b[0] = 0x30,
            1 => b[..4].copy_from_slice(&[0x30, 0x82, ((n - 4) >> 8) as u8, (n - 4) as u8]),
            2 => b[..4].copy_from_slice(&[0x30, (n - 2).min(127) as u8, 2, x]),
            _ => {}
        }
    }
    if n > 0 {
        s.nontrivial();
    }
    let g = ro(&b, *s.pick(&EDGES));
    import(s, kind, &g)
}

/// signature verification over arbitrary or nearly valid signatures
fn verifiers(s: &mut Src) -> R {
    let which = s.idx(4);
    let n = s.len(400);
    let m = s.blob(n);
    let edge = *s.pick(&EDGES);
    let gm = ro(&m, edge);
    s.nontrivial();
    match which {
        0 | 1 => {
            let c = curve(which);
            let q = c.point(&point(s, c));
            let Some(vk) = VK::new(which, &ro(&q, edge)) else { return fail("refused", "valid point refused") };
            let h = s.idx(3);
            let der = s.bool();
            let sk = SK::new(which, &scalar(s, c)).unwrap();
            let mut buf = [0u8; 200];
            let mut sig = if der { sk.sign_asn1(h, &[&gm], &mut buf) } else { sk.sign(h, &[&gm], &mut buf) }.unwrap().to_vec();
            match s.idx(6) {
                0 => {}
                1 => {
                    let i = s.idx(sig.len());
                    sig[i] = s.u8();
                }
                2 => {
                    let i = s.idx(sig.len() + 1);
                    sig.truncate(i);
                }
                3 => {
                    let n = s.range(1, 80);
                    sig.extend(s.blob(n));
                }
                4 => {
                    let n = s.idx(160);
                    sig = s.blob(n);
                }
                _ => {
                    let i = s.idx(sig.len());
                    let e = s.range(i, sig.len() - 1);
                    sig[i..=e].fill(*s.pick(&[0u8, 0xff]));
                }
            }
            s.note(format!("ecdsa curve {which} der {der} sig {}", hexs(&sig)));
            let gs = ro(&sig, edge);
            let parts: Vec<&[u8]> = {
                let i = gm.len() / 2;
                vec![&gm[..i], &gm[i..]]
            };
            let _ = vk.verify(h, &parts, &gs);
            let _ = vk.verify_asn1(h, &parts, &gs);
        }
        2 => {
            let pk = s.edgy::<32>();
            let sig: [u8; 64] = s.edgy();
            let n = if s.one_in(4) { s.idx(100) } else { 64 };
            let mut sg = sig.to_vec();
            sg.resize(n, 7);
            s.note(format!("ed25519 key {} sig {}", hex(&pk), hexs(&sg)));
            if let Ok(k) = Ed25519VerifyingKey::from_bytes(&ro(&pk, edge)) {
                let _ = k.verify(&ro(&sg, edge), &gm);
            }
            let n = s.idx(40);
            let b = s.blob(n);
            let r = Ed25519VerifyingKey::from_bytes(&ro(&b, edge));
            ensure!(r.is_err() || n == 32, "length", "Ed25519 public key of {n} bytes accepted");
            let r = Ed25519SigningKey::from_bytes(&ro(&b, edge));
            ensure!(r.is_ok() == (n == 32), "length", "Ed25519 seed of {n} bytes accepted/refused");
        }
        _ => {
            let Some(k) = ru::key(s, Shape::Common) else { return Ok(()) };
            let Ok(vk) = rsa::VerifyingKey::from_pkcs1_der(&ro(&k.public_der(), edge)) else { return Ok(()) };
            let len = match s.idx(4) {
                0 => s.idx(1100),
                1 => k.k() - 1,
                2 => k.k() + 1,
                _ => k.k(),
            };
            let sig = s.blob(len);
            s.note(format!("rsa {} bits sig {len} bytes", k.n.bits()));
            let gs = ro(&sig, edge);
            for h in 0..3 {
                for pss in [false, true] {
                    let _ = ru::verify(&vk, pss, h, &gm, &gs);
                }
            }
        }
    }
    Ok(())
}

fn agreement(s: &mut Src) -> R {
    let edge = *s.pick(&EDGES);
    s.nontrivial();
    match s.idx(4) {
        ci @ (0 | 1) => {
            let c = curve(ci);
            let mut b = c.point(&point(s, c));
            let full = b.len();
            match s.idx(6) {
                0 => {}
                1 => {
                    let i = s.idx(full);
                    b[i] = s.u8();
                }
                2 => {
                    let n = s.idx(full + 20);
                    b.resize(n, 4);
                }
                3 => {
                    b = s.blob(full);
                    b[0] = 4;
                }
                4 => {
                    let n = s.idx(200);
                    b = s.blob(n);
                }
                _ => {
                    let i = 1 + s.idx(2) * c.len;
                    b[i..i + c.len].fill(*s.pick(&[0u8, 0xff]));
                }
            }
            s.note(format!("curve {ci} share {}", hexs(&b)));
            let d = c.enc(&scalar(s, c));
            let n = if s.one_in(3) { s.idx(d.len() + 20) } else { d.len() };
            let mut dd = d.clone();
            dd.resize(n, 1);
            let sk = Static::from_bytes(ci, &ro(&dd, edge)).unwrap_or_else(|| Static::from_bytes(ci, &d).unwrap());
            if let Some(p) = Public::from(ci, &ro(&b, edge)) {
                s.label("valid-share");
                let _ = p.bytes();
                let _ = sk.dh(&p);
            }
        }
        2 => {
            let n = if s.bool() { 32 } else { s.idx(70) };
            let b = s.blob(n);
            let k = x25519::StaticPrivateKey::try_from_slice(&ro(&b, edge));
            ensure!(k.is_ok() == (n == 32), "length", "x25519 private key of {n} bytes");
            let p = x25519::PublicKey::try_from_slice(&ro(&b, edge));
            ensure!(p.is_ok() == (n == 32), "length", "x25519 public key of {n} bytes");
            let u: [u8; 32] = s.edgy();
            let gu = ro(&u, edge);
            let p = x25519::PublicKey::from_array((&gu[..]).try_into().unwrap());
            let sc: [u8; 32] = s.edgy();
            let gs = ro(&sc, edge);
            let k = x25519::StaticPrivateKey::from_array((&gs[..]).try_into().unwrap());
            let _ = k.diffie_hellman(&p);
            s.note(format!("x25519 length {n}, u {}", hex(&u)));
        }
        _ => {
            let seed = s.barr::<64>();
            let gs = ro(&seed, edge);
            let dk = mlkem768::DecapKey::keygen_internal((&gs[..]).try_into().unwrap());
            let mut ek = dk.encapsulation_key().as_bytes();
            match s.idx(3) {
                0 => {}
                1 => {
                    let i = s.idx(1184);
                    ek[i] = s.u8();
                }
                _ => ek = s.blob(1184).try_into().unwrap(),
            }
            let ge = ro(&ek, edge);
            s.note("ML-KEM with a guarded seed, key and ciphertext");
            rngshim::prng(&[], s.u64());
            if let Ok(e) = mlkem768::EncapKey::from_bytes((&ge[..]).try_into().unwrap()) {
                s.label("valid-share");
                let _ = e.encaps();
            }
            let ct: [u8; 1088] = s.blob(1088).try_into().unwrap();
            let c = mlkem768::Ciphertext::from(ct);
            let _ = dk.decaps_internal(&c);
        }
    }
    Ok(())
}

/// output buffers of every length, and random filling
fn outputs(s: &mut Src) -> R {
    let edge = *s.pick(&EDGES);
    s.nontrivial();
    rngshim::prng(&[], s.u64());
    match s.idx(3) {
        0 => {
            let n = s.len(5000);
            let mut g = Guarded::new(&vec![0; n], edge);
            graviola::random::fill(&mut g).map_err(|_| Fail { key: "fill".into(), msg: "random fill failed".into() })?;
            ensure!(g.canary_ok(), "overrun", "random::fill({n}) wrote outside");
            ensure!(n < 16 || g.iter().any(|b| *b != 0), "unfilled", "random::fill({n}) left zeros");
            s.note(format!("random fill of {n}"));
        }
        1 => {
            let ci = s.idx(2);
            let c = curve(ci);
            let sk = SK::new(ci, &scalar(s, c)).unwrap();
            let h = s.idx(3);
            let n = s.idx(150);
            let mut g = Guarded::new(&vec![0xA5; n], edge);
            let l = sk.sign(h, &[b"a", b"b"], &mut g).map(|x| x.len()).ok();
            ensure!(l == (n >= 2 * c.len).then_some(2 * c.len), "sign-length", "ECDSA signature into {n} bytes: {l:?}");
            ensure!(g.canary_ok(), "overrun", "ECDSA sign into {n} bytes wrote outside");
            let mut g = Guarded::new(&vec![0xA5; n], edge);
            let l = sk.sign_asn1(h, &[b"a", b"b"], &mut g).map(|x| x.len()).ok();
            ensure!(l.unwrap_or(0) <= n && (l.is_some() || n < 2 * c.len + 9), "sign-length", "ECDSA ASN.1 signature into {n} bytes: {l:?}");
            ensure!(g.canary_ok(), "overrun", "ECDSA sign_asn1 into {n} bytes wrote outside");
            s.note(format!("ECDSA curve {ci} into {n} bytes"));
        }
        _ => {
            let Some(k) = ru::key(s, Shape::Common) else { return Ok(()) };
            let Ok(sk) = rsa::SigningKey::from_pkcs1_der(&k.private_der()) else { return Ok(()) };
            let n = match s.idx(3) {
                0 => k.k() - s.idx(3),
                1 => k.k() + s.idx(3),
                _ => s.idx(1100),
            };
            let mut g = Guarded::new(&vec![0xA5; n], edge);
            let pss = s.bool();
            let h = s.idx(3);
            let l = ru::sign(&sk, pss, h, b"m", &mut g).map(|v| v.len());
            ensure!(l == (n >= k.k()).then_some(k.k()), "sign-length", "RSA-{} signature into {n} bytes: {l:?}", k.n.bits());
            ensure!(g.canary_ok(), "overrun", "RSA sign into {n} bytes wrote outside");
            s.note(format!("RSA {} {} into {n} bytes", k.n.bits(), ru::name(pss, h)));
        }
    }
    Ok(())
}

/// the TLS layer over arbitrary bytes
fn tls(s: &mut Src) -> R {
    let p = rustls_graviola::default_provider();
    s.nontrivial();
    rngshim::prng(&[], s.u64());
    match s.idx(4) {
        0 => {
            // records
            let suite = p.cipher_suites[s.idx(p.cipher_suites.len())];
            let key = s.blob(32);
            let iv = s.barr::<12>();
            let n = if s.bool() { s.idx(64) } else { s.len(20000) };
            let mut body = s.blob(n);
            let seq = *s.pick(&[0u64, 1, u64::MAX, 1 << 32]);
            let mut d = match suite {
                SupportedCipherSuite::Tls13(t) => t.aead_alg.decrypter(tlsutil::key(&key, t.aead_alg.key_len()), Iv::new(iv)),
                SupportedCipherSuite::Tls12(t) => {
                    let sh = t.aead_alg.key_block_shape();
                    t.aead_alg.decrypter(tlsutil::key(&key, sh.enc_key_len), &iv[..sh.fixed_iv_len])
                }
            };
            let m = InboundOpaqueMessage::new(ContentType::ApplicationData, ProtocolVersion::TLSv1_2, &mut body);
            let r = d.decrypt(m, seq).is_ok();
            s.note(format!("{:?} record of {n} arbitrary bytes", suite.suite()));
            ensure!(!r, "forged", "an arbitrary {n}-byte record was accepted");
        }
        1 => {
            let g = p.kx_groups[s.idx(p.kx_groups.len())];
            let n = match s.idx(4) {
                0 => s.idx(1300),
                1 => 32,
                2 => *s.pick(&[65usize, 97, 1120, 1216]),
                _ => *s.pick(&[31usize, 33, 64, 66, 96, 98, 1119, 1121, 1215, 1217, 1088, 1184]),
            };
            let mut b = s.blob(n);
            if n > 0 && s.bool() {
                b[0] = 4;
            }
            let gb = ro(&b, *s.pick(&EDGES));
            s.note(format!("{:?} share of {n} bytes", g.name()));
            if s.bool() {
                let _ = g.start_and_complete(&gb);
            } else {
                let a = g.start().map_err(|e| Fail { key: "start".into(), msg: format!("{e:?}") })?;
                if a.hybrid_component().is_some() && s.one_in(3) {
                    let _ = a.complete_hybrid_component(&gb);
                } else {
                    let _ = a.complete(&gb);
                }
            }
        }
        2 => {
            let algs = p.signature_verification_algorithms.all;
            let a = algs[s.idx(algs.len())];
            let kl = s.len(600);
            let sl = s.len(600);
            let (k, sig) = (s.blob(kl), s.blob(sl));
            let e = *s.pick(&EDGES);
            s.note(format!("{a:?} key {kl} bytes sig {sl} bytes"));
            ensure!(a.verify_signature(&ro(&k, e), b"message", &ro(&sig, e)).is_err(), "forged", "arbitrary bytes verified");
        }
        _ => {
            let kind = s.range(1, 7);
            let (enc, _) = c18::generate(s, kind);
            let (b, _) = c18::mutate(s, &enc);
            use rustls::pki_types::{PrivateKeyDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer, PrivateSec1KeyDer};
            let der = match s.idx(3) {
                0 => PrivateKeyDer::Pkcs1(PrivatePkcs1KeyDer::from(b)),
                1 => PrivateKeyDer::Sec1(PrivateSec1KeyDer::from(b)),
                _ => PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(b)),
            };
            if let Ok(k) = p.key_provider.load_private_key(der) {
                s.label("loaded");
                let schemes = [
                    rustls::SignatureScheme::RSA_PSS_SHA256,
                    rustls::SignatureScheme::ECDSA_NISTP256_SHA256,
                    rustls::SignatureScheme::ECDSA_NISTP384_SHA384,
                    rustls::SignatureScheme::ED25519,
                ];
                if let Some(sg) = k.choose_scheme(&schemes) {
                    let _ = sg.sign(b"hello");
                }
                let _ = k.public_key();
            }
            s.note("private key through the TLS provider");
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "Every public function is called with buffers whose first or last byte touches an inaccessible page (inputs also mapped read-only, slack bytes filled with a canary), over generated lengths and over valid, damaged and arbitrary contents; whatever a parser accepts is then used. A fault, panic, stall, changed canary or a result that changes with the placement is a violation. Non-trivial: every case (junk: non-empty), distinct by the recorded choices.",
        assumptions: &["functions that document a panic for wrong arguments (AesGcm::new with a key that is not 16 or 32 bytes) are called as documented", "over-reads that stay inside the library's own stack objects are not visible unless they change a result"],
        subs: vec![
            Sub::new("hashes", hashes, 15_000, 400_000).all(),
            Sub::new("aeads", aeads, 12_000, 400_000).all(),
            Sub::new("parsers", parsers, 20_000, 1_000_000),
            Sub::new("rsa_numbers", rsa_numbers, 2_500, 100_000),
            Sub::new("junk", junk, 60_000, 3_000_000),
            Sub::new("verifiers", verifiers, 15_000, 600_000),
            Sub::new("agreement", agreement, 15_000, 600_000),
            Sub::new("outputs", outputs, 5_000, 200_000),
            Sub::new("tls", tls, 15_000, 600_000),
        ],
    }
}
