//! C28: one object, many threads.
use super::aead_util::{ref_seal, Aead};
use super::c20;
use super::ecdsautil::{SK, VK};
use super::ecutil::{Public, Static};
use super::rsautil as ru;
use super::tlsid::*;
use crate::engine::*;
use crate::refs::{chacha, mlkem};
use crate::rngshim;
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{sha2, Hash, Sha256, Sha384, Sha512};
use graviola::key_agreement::{mlkem768, x25519};
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use graviola::signing::rsa;
use rustls::crypto::CryptoProvider;
use rustls::server::ProducesTickets;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, OnceLock};

/// inputs of one object, made without the library
pub struct Seed {
    kind: usize,
    key: Vec<u8>,
    id: Option<Id>,
    peer: Option<Id>,
    good: Vec<u8>,
}
pub enum Obj {
    Aead(usize, Aead),
    Hmac(Hmac<Sha256>, Hmac<Sha384>, Hmac<Sha512>),
    Sha(sha2::Sha256Context, <Sha384 as Hash>::Context, sha2::Sha512Context),
    X(x25519::StaticPrivateKey),
    Ec(usize, Static, Public),
    Sk(SK),
    Vk(VK),
    RsaSk(rsa::SigningKey),
    RsaVk(rsa::VerifyingKey),
    EdSk(Ed25519SigningKey),
    EdVk(Ed25519VerifyingKey),
    Dk(mlkem768::DecapKey),
    Tls(Arc<dyn rustls::sign::SigningKey>),
    Provider(CryptoProvider),
    Ticketer(Arc<dyn ProducesTickets>),
    /// only static functions
    Nothing,
}
pub const NAMES: [&str; 22] = [
    "AES-128-GCM", "AES-256-GCM", "ChaCha20-Poly1305", "XChaCha20-Poly1305", "HMAC", "SHA-2 context", "X25519 key", "P-256 key", "P-384 key", "P-256 signing key",
    "P-384 signing key", "P-256 verifying key", "P-384 verifying key", "RSA signing key", "RSA verifying key", "Ed25519 signing key", "Ed25519 verifying key",
    "ML-KEM key", "TLS signing key", "provider", "ticketer", "generation",
];
pub fn seed(s: &mut Src, kind: usize) -> Seed {
    let key: [u8; 64] = s.arr();
    let mut x = Seed { kind, key: key.to_vec(), id: None, peer: None, good: vec![] };
    match kind {
        7 | 8 => {
            x.id = Some(Id::generate(s, kind - 6));
            x.peer = Some(Id::generate(s, kind - 6));
        }
        9 | 10 => x.id = Some(Id::generate(s, kind - 8)),
        11 | 12 => x.id = Some(Id::generate(s, kind - 10)),
        13 | 14 => {
            let p = ru::primes();
            let c: Vec<_> = p.iter().filter(|p| p.bits() == 1024 && p.bit(1022)).collect();
            let i = s.idx(c.len());
            x.id = (0..c.len() * c.len()).find_map(|j| {
                let (a, b) = (c[(i + j / c.len()) % c.len()], c[(i + j + 1) % c.len()]);
                ru::Key::new(a.max(b), a.min(b), &65537u32.into())
            }).map(Id::rsa);
        }
        15 | 16 => x.id = Some(Id::generate(s, 3)),
        18 => {
            let k = 1 + s.idx(3);
            x.id = Some(Id::generate(s, k));
        }
        17 => {
            let (ek, _) = mlkem::keygen(&x.key[..32], &x.key[32..]);
            x.good = mlkem::encaps(&ek, &s.arr::<32>()).1;
        }
        _ => {}
    }
    // verifying keys need something to verify
    match kind {
        11 | 12 => {
            let (r, v) = x.id.as_ref().unwrap().ec_sign(s, kind - 11, b"message");
            x.good = super::ecdsautil::der_sig(&r, &v);
        }
        14 => x.good = x.id.clone().unwrap().sign(s, ALGS[7], b"message"),
        16 => x.good = x.id.clone().unwrap().sign(s, ALGS[6], b"message"),
        _ => {}
    }
    x
}
fn scalar_bytes(id: &Id) -> Vec<u8> {
    match &id.secret {
        Secret::Ec(d) => super::ecutil::curve(id.kind - 1).enc(d),
        _ => vec![],
    }
}
pub fn build(x: &Seed) -> Option<Obj> {
    Some(match x.kind {
        0..=3 => Obj::Aead(x.kind, Aead::new(x.kind, &x.key)),
        4 => Obj::Hmac(Hmac::new(&x.key), Hmac::new(&x.key), Hmac::new(&x.key)),
        5 => {
            use graviola::hashing::HashContext;
            let (mut a, mut b, mut c) = (sha2::Sha256Context::new(), Sha384::new(), sha2::Sha512Context::new());
            a.update(&x.key[..37]);
            b.update(&x.key);
            c.update(&x.key[..5]);
            Obj::Sha(a, b, c)
        }
        6 => Obj::X(x25519::StaticPrivateKey::from_array(&x.key[..32].try_into().unwrap())),
        7 | 8 => Obj::Ec(x.kind - 7, Static::from_bytes(x.kind - 7, &scalar_bytes(x.id.as_ref()?))?, Public::from(x.kind - 7, &x.peer.as_ref()?.public)?),
        9 | 10 => match &x.id.as_ref()?.secret {
            Secret::Ec(d) => Obj::Sk(SK::new(x.kind - 9, d)?),
            _ => return None,
        },
        11 | 12 => Obj::Vk(VK::new(x.kind - 11, &x.id.as_ref()?.public)?),
        13 => match &x.id.as_ref()?.secret {
            Secret::Rsa(k) => Obj::RsaSk(rsa::SigningKey::from_pkcs1_der(&k.private_der()).ok()?),
            _ => return None,
        },
        14 => Obj::RsaVk(rsa::VerifyingKey::from_pkcs1_der(&x.id.as_ref()?.public).ok()?),
        15 => Obj::EdSk(match &x.id.as_ref()?.secret {
            Secret::Ed(d) => Ed25519SigningKey::from_bytes(d).ok()?,
            _ => return None,
        }),
        16 => Obj::EdVk(Ed25519VerifyingKey::from_bytes(&x.id.as_ref()?.public).ok()?),
        17 => {
            rngshim::script(&x.key, rngshim::After::Fail);
            let k = mlkem768::DecapKey::generate();
            rngshim::reset();
            Obj::Dk(k.ok()?)
        }
        18 => Obj::Tls(rustls_graviola::default_provider().key_provider.load_private_key(x.id.as_ref()?.private(0)).ok()?),
        19 => Obj::Provider(rustls_graviola::default_provider()),
        20 => Obj::Ticketer(rustls_graviola::Ticketer::new().ok()?),
        _ => Obj::Nothing,
    })
}
/// one use of an object; all randomness is drawn from `n`
pub fn apply(x: &Seed, o: &Obj, n: u64) -> Vec<u8> {
    let mut r = n;
    let mut next = || splitmix(&mut r);
    let len = (next() % 700) as usize;
    let msg: Vec<u8> = (0..len).map(|i| (n as u8).wrapping_mul(31).wrapping_add(i as u8)).collect();
    let mut out = vec![];
    rngshim::prng(&[], n);
    match o {
        Obj::Aead(kind, k) => {
            let nonce: Vec<u8> = (0..Aead::nonce_len(*kind)).map(|_| next() as u8).collect();
            let aad = &msg[..len / 3];
            let mut b = msg.clone();
            let tag = k.seal(&nonce, aad, &mut b);
            out.extend_from_slice(&b);
            out.extend_from_slice(&tag);
            let mut c = b.clone();
            out.push(k.open(&nonce, aad, &mut c, &tag) as u8);
            out.push((c == msg) as u8);
            let mut bad = tag;
            bad[(n % 16) as usize] ^= 1;
            out.push(k.open(&nonce, aad, &mut b, &bad) as u8);
        }
        Obj::Hmac(a, b, c) => {
            let mut h = a.clone();
            h.update(&msg);
            out.extend_from_slice(h.finish().as_ref());
            let mut h = b.clone();
            h.update(&msg);
            out.extend_from_slice(h.finish().as_ref());
            let mut h = c.clone();
            h.update(&msg);
            out.push(h.verify(&[0; 64]).is_ok() as u8);
        }
        Obj::Sha(a, b, c) => {
            use graviola::hashing::HashContext;
            let mut h = a.clone();
            h.update(&msg);
            out.extend_from_slice(h.finish().as_ref());
            let mut h = b.clone();
            h.update(&msg);
            out.extend_from_slice(h.finish().as_ref());
            let mut h = c.clone();
            h.update(&msg);
            out.extend_from_slice(h.finish().as_ref());
            out.extend_from_slice(Sha256::hash(&msg).as_ref());
        }
        Obj::X(k) => {
            let mut p = [9u8; 32];
            p[1] = n as u8;
            if let Ok(z) = x25519::PublicKey::try_from_slice(&p).and_then(|p| k.diffie_hellman(&p)) {
                out.extend_from_slice(&z.0);
            }
            out.extend_from_slice(&k.public_key().as_bytes());
        }
        Obj::Ec(_, k, p) => {
            out.extend(k.dh(p).unwrap_or_default());
            out.extend(k.public());
        }
        Obj::Sk(k) => {
            let mut b = [0; 128];
            out.extend_from_slice(k.sign_asn1((n % 3) as usize, &[&msg], &mut b).unwrap_or(&[]));
            out.extend(k.public());
        }
        Obj::Vk(k) => {
            let h = x.kind - 11;
            out.push(k.verify_asn1(h, &[b"mess", b"age"], &x.good) as u8);
            let mut g = x.good.clone();
            let i = g.len() - 1 - (n % 8) as usize;
            g[i] ^= 1;
            out.push(k.verify_asn1(h, &[b"message"], &g) as u8);
        }
        Obj::RsaSk(k) => {
            let mut b = [0; 512];
            let m = k.modulus_len_bytes();
            out.extend(ru::sign(k, n % 2 == 0, (n % 3) as usize, &msg, &mut b[..m]).unwrap_or_default());
        }
        Obj::RsaVk(k) => {
            out.push(ru::verify(k, true, 0, b"message", &x.good) as u8);
            let mut g = x.good.clone();
            g[(n % 100) as usize + 20] ^= 1;
            out.push(ru::verify(k, true, 0, b"message", &g) as u8);
        }
        Obj::EdSk(k) => {
            out.extend_from_slice(&k.sign(&msg));
            out.extend_from_slice(&k.public_key().as_bytes());
        }
        Obj::EdVk(k) => {
            out.push(k.verify(&x.good, b"message").is_ok() as u8);
            let mut g = x.good.clone();
            g[(n % 60) as usize] ^= 1;
            out.push(k.verify(&g, b"message").is_ok() as u8);
        }
        Obj::Dk(k) => {
            let c: [u8; 1088] = x.good[..].try_into().unwrap();
            out.extend_from_slice(k.decaps_internal(&mlkem768::Ciphertext::from(c)).as_ref());
            let mut c = c;
            c[(n % 1088) as usize] ^= 1;
            out.extend_from_slice(k.decaps_internal(&mlkem768::Ciphertext::from(c)).as_ref());
            if let Ok((z, c)) = k.encapsulation_key().encaps() {
                out.extend_from_slice(z.as_ref());
                out.extend_from_slice(c.as_ref());
            }
        }
        Obj::Tls(k) => {
            let all: Vec<_> = SCHEMES.iter().map(|x| x.0).collect();
            out.extend(k.choose_scheme(&all).and_then(|k| k.sign(&msg).ok()).unwrap_or_default());
        }
        Obj::Provider(p) => {
            let mut b = [0; 40];
            out.push(p.secure_random.fill(&mut b).is_ok() as u8);
            out.extend_from_slice(&b);
            let g = p.kx_groups[(n % 4) as usize];
            if let Ok(k) = g.start() {
                out.extend_from_slice(k.pub_key());
                if let Ok(d) = g.start_and_complete(&k.pub_key().to_vec()) {
                    out.extend_from_slice(&d.pub_key);
                    out.extend_from_slice(d.secret.secret_bytes());
                    if let Ok(z) = k.complete(&d.pub_key) {
                        out.extend_from_slice(z.secret_bytes());
                    }
                }
            }
        }
        Obj::Ticketer(t) => {
            // not comparable between instances, so judged on the spot
            let m = [&b"x"[..], &msg].concat();
            let c = t.encrypt(&m).unwrap_or_default();
            out.push((t.decrypt(&c) == Some(m)) as u8);
            let mut d = c;
            if !d.is_empty() {
                let i = n as usize % d.len();
                d[i] ^= 1;
            }
            out.push(t.decrypt(&d).is_none() as u8);
        }
        Obj::Nothing => {
            let w = (n % (c20::N as u64 - 1)) as usize;
            // the two ticket operations share a process-wide ticketer with its own key
            if !(21..=22).contains(&w) {
                out.extend(c20::op(w, &msg).unwrap_or_default());
            }
        }
    }
    rngshim::reset();
    out
}
/// what cannot be read off a comparison with itself
fn sane(x: &Seed, n: u64, out: &[u8]) -> bool {
    let mut r = n;
    let len = (splitmix(&mut r) % 700) as usize;
    match x.kind {
        0..=3 => {
            let nonce: Vec<u8> = (0..Aead::nonce_len(x.kind)).map(|_| splitmix(&mut r) as u8).collect();
            let msg: Vec<u8> = (0..len).map(|i| (n as u8).wrapping_mul(31).wrapping_add(i as u8)).collect();
            let (c, t) = if x.kind == 2 {
                chacha::seal(&x.key[..32].try_into().unwrap(), &nonce[..].try_into().unwrap(), &msg[..len / 3], &msg)
            } else {
                ref_seal(x.kind, &x.key, &nonce, &msg[..len / 3], &msg)
            };
            out == [&c[..], &t, &[1, 1, 0]].concat()
        }
        11 | 12 | 14 | 16 => out == [1, 0],
        20 => out == [1, 1],
        21 => true,
        _ => !out.is_empty(),
    }
}
fn shared(s: &mut Src) -> R {
    let heavy = s.one_in(4);
    let objects = 1 + s.idx(3);
    let mut seeds = vec![];
    for _ in 0..objects {
        let k = loop {
            let k = s.idx(22);
            // RSA is slow
            if heavy || !(13..=14).contains(&k) {
                break k;
            }
        };
        seeds.push(seed(s, k));
    }
    let nt = 2 + s.idx(5);
    let per = 2 + s.idx(6);
    let rounds = 1 + s.idx(3);
    let mut jobs: Vec<(usize, u64)> = vec![];
    for _ in 0..per {
        jobs.push((s.idx(objects), s.u64()));
    }
    let mut orders = vec![];
    for _ in 0..nt {
        let mut o: Vec<usize> = (0..per).collect();
        for i in (1..per).rev() {
            o.swap(i, s.idx(i + 1));
        }
        orders.push(o);
    }
    // each use once on an object of its own
    let mut want = vec![];
    for (o, n) in &jobs {
        let Some(obj) = build(&seeds[*o]) else {
            return fail("build", format!("{} cannot be made", NAMES[seeds[*o].kind]));
        };
        let r = apply(&seeds[*o], &obj, *n);
        ensure!(sane(&seeds[*o], *n, &r), "wrong", "{} gives {} (alone)", NAMES[seeds[*o].kind], hexs(&r));
        want.push(r);
    }
    let objs: Vec<Obj> = match seeds.iter().map(build).collect() {
        Some(o) => o,
        None => return fail("build", "a key cannot be made twice"),
    };
    let gate = AtomicUsize::new(0);
    let bad: Vec<String> = std::thread::scope(|sc| {
        let h: Vec<_> = orders
            .iter()
            .map(|o| {
                let (gate, jobs, seeds, objs, want) = (&gate, &jobs, &seeds, &objs, &want);
                sc.spawn(move || {
                    gate.fetch_add(1, Ordering::SeqCst);
                    while gate.load(Ordering::SeqCst) < nt {
                        std::hint::spin_loop();
                    }
                    for round in 0..rounds {
                        for j in o {
                            let (k, n) = jobs[*j];
                            let r = apply(&seeds[k], &objs[k], n);
                            if r != want[*j] {
                                return Some(format!("{} used by {nt} threads: round {round} gives {} instead of {}", NAMES[seeds[k].kind], hexs(&r), hexs(&want[*j])));
                            }
                        }
                    }
                    None
                })
            })
            .collect();
        h.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".into()))).collect()
    });
    if let Some(b) = bad.first() {
        return fail("differs", b.clone());
    }
    // and still good afterwards
    for (j, (k, n)) in jobs.iter().enumerate() {
        ensure!(apply(&seeds[*k], &objs[*k], *n) == want[j], "after", "{} gives another result after use by {nt} threads", NAMES[seeds[*k].kind]);
    }
    for x in &seeds {
        s.label(NAMES[x.kind]);
    }
    s.nontrivial();
    s.note(format!("{nt} threads x {per} uses x {rounds} of {:?}", seeds.iter().map(|x| NAMES[x.kind]).collect::<Vec<_>>()));
    Ok(())
}
/// many uses of a single object by all threads with different inputs each
fn storm(s: &mut Src) -> R {
    let k = s.idx(22);
    let x = seed(s, k);
    let nt = 4 + s.idx(5);
    let slow = matches!(k, 7..=14 | 18 | 19 | 21);
    let per = if slow { 4 } else { 40 };
    let base = s.u64();
    let want: Vec<Vec<Vec<u8>>> = {
        let Some(o) = build(&x) else {
            return fail("build", format!("{} cannot be made", NAMES[k]));
        };
        (0..nt).map(|t| (0..per).map(|i| apply(&x, &o, base ^ (t * 1000 + i) as u64)).collect()).collect()
    };
    let Some(o) = build(&x) else {
        return fail("build", format!("{} cannot be made", NAMES[k]));
    };
    let gate = AtomicUsize::new(0);
    let bad: Vec<String> = std::thread::scope(|sc| {
        let h: Vec<_> = (0..nt)
            .map(|t| {
                let (gate, x, o, want) = (&gate, &x, &o, &want);
                sc.spawn(move || {
                    gate.fetch_add(1, Ordering::SeqCst);
                    while gate.load(Ordering::SeqCst) < nt {
                        std::hint::spin_loop();
                    }
                    (0..per).find_map(|i| {
                        let r = apply(x, o, base ^ (t * 1000 + i) as u64);
                        (r != want[t][i]).then(|| format!("{} used by {nt} threads with inputs of their own gives {} instead of {}", NAMES[k], hexs(&r), hexs(&want[t][i])))
                    })
                })
            })
            .collect();
        h.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".into()))).collect()
    });
    if let Some(b) = bad.first() {
        return fail("differs", b.clone());
    }
    s.label(NAMES[k]);
    s.nontrivial();
    s.note(format!("{} by {nt} threads, {per} uses each", NAMES[k]));
    Ok(())
}
/// a process of its own, whose first use of the library is by several threads at once
pub fn child(bytes: Vec<u8>) -> i32 {
    let mut src = Src::replay(bytes, 0);
    let s = &mut src;
    let nt = 2 + s.idx(7);
    let same = s.bool();
    let k0 = s.idx(22);
    let seeds: Vec<Seed> = (0..nt)
        .map(|_| {
            let k = if same { k0 } else { s.idx(22) };
            seed(s, k)
        })
        .collect();
    let ns: Vec<u64> = (0..nt).map(|_| s.u64()).collect();
    let gate = AtomicUsize::new(0);
    let first: Vec<Option<Vec<u8>>> = std::thread::scope(|sc| {
        let h: Vec<_> = (0..nt)
            .map(|t| {
                let (gate, x, n) = (&gate, &seeds[t], ns[t]);
                sc.spawn(move || {
                    gate.fetch_add(1, Ordering::SeqCst);
                    while gate.load(Ordering::SeqCst) < nt {
                        std::hint::spin_loop();
                    }
                    build(x).map(|o| apply(x, &o, n))
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap_or(None)).collect()
    });
    for t in 0..nt {
        let x = &seeds[t];
        let Some(r) = &first[t] else {
            println!("{}: first use fails", NAMES[x.kind]);
            return 1;
        };
        if !sane(x, ns[t], r) {
            println!("{}: first use gives {}", NAMES[x.kind], hexs(r));
            return 1;
        }
        let again = build(x).map(|o| apply(x, &o, ns[t]));
        if again.as_ref() != Some(r) {
            println!("{}: first use gives {} later {}", NAMES[x.kind], hexs(r), again.map(|r| hexs(&r)).unwrap_or_default());
            return 1;
        }
    }
    println!("fine {nt} {}", if same { NAMES[k0] } else { "mixed" });
    0
}
fn first(s: &mut Src) -> R {
    let n = 600;
    let bytes = s.bytes(n);
    static EXE: OnceLock<std::path::PathBuf> = OnceLock::new();
    let exe = EXE.get_or_init(|| std::env::current_exe().expect("exe"));
    let out = match std::process::Command::new(exe).arg("first").arg(hex(&bytes)).output() {
        Ok(o) => o,
        Err(e) => return fail("harness", format!("cannot start a process: {e}")),
    };
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    ensure!(out.status.success(), "first", "{} {}: {}", out.status, text.trim(), String::from_utf8_lossy(&out.stderr).trim());
    s.nontrivial();
    s.note(text.trim().to_string());
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "several threads used the same objects, or made the first use in a process, at once, and every result was compared with that of a single thread",
        assumptions: &["thread interleavings are whatever the scheduler gives on this machine", "random draws are scripted per use, so that randomised operations are comparable"],
        subs: vec![
            Sub::new("shared", shared, 1000, 60_000).all(),
            Sub::new("storm", storm, 900, 40_000),
            Sub::new("first", first, 250, 12_000).all(),
        ],
    }
}
