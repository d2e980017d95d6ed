//! C22: key material is erased when a key or shared secret is dropped.
//!
//! An object is placed in a buffer, used, and dropped there. Its bytes before and after are kept
//! for secret A (twice) and secret B. Storage that depends on the secret must afterwards be the
//! same for both secrets, unless it holds public values; and no eight bytes of the secret may be left.
use super::aead_util::Aead;
use super::ecdsautil;
use super::ecutil::{curve, scalar};
use super::rsautil;
use crate::engine::*;
use crate::refs::{c25519, mlkem};
use crate::rngshim::{self, After};
use crate::watch;
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::eddsa::Ed25519SigningKey;
use graviola::signing::{ecdsa, rsa};
use num_bigint::BigUint;
use rustls::crypto::cipher::Iv;
use rustls::pki_types::{PrivateKeyDer, PrivatePkcs8KeyDer};
use rustls::SupportedCipherSuite;
use std::alloc::{alloc, dealloc, Layout};
use std::hint::black_box;

struct Obs {
    pre: Vec<u8>,
    post: Vec<u8>,
    public: Vec<u8>,
}
#[inline(never)]
fn scrub(v: u8) {
    let mut a = [v; 40_000];
    black_box(&mut a);
}
unsafe fn bytes_at(p: *const u8, n: usize) -> Vec<u8> {
    (0..n).map(|i| std::ptr::read_volatile(p.add(i))).collect()
}
/// the raw bytes of a value
pub fn mem_of<T>(v: &T) -> Vec<u8> {
    unsafe { bytes_at(v as *const T as *const u8, std::mem::size_of::<T>()) }
}
#[inline(never)]
fn observe<T>(fill: u8, make: &dyn Fn() -> T, used: &dyn Fn(&T), public: &dyn Fn(&T) -> Vec<u8>) -> Obs {
    unsafe {
        let l = Layout::new::<T>();
        let p = alloc(l);
        std::ptr::write_bytes(p, fill, l.size());
        scrub(fill);
        let o = p as *mut T;
        std::ptr::write(o, make());
        used(&*o);
        let public = public(&*o);
        let pre = bytes_at(p, l.size());
        std::ptr::drop_in_place(black_box(o));
        let post = bytes_at(p, l.size());
        std::ptr::write_bytes(p, 0, l.size());
        dealloc(p, l);
        Obs { pre, post, public }
    }
}
fn interesting(w: &[u8]) -> bool {
    let mut d: Vec<u8> = w.to_vec();
    d.sort();
    d.dedup();
    d.len() >= 5
}
struct Case<'a, T> {
    name: &'static str,
    a: &'a dyn Fn() -> T,
    b: &'a dyn Fn() -> T,
    used: &'a dyn Fn(&T),
    public: &'a dyn Fn(&T) -> Vec<u8>,
    /// what is secret about A
    secret: Vec<Vec<u8>>,
}
fn judge<T>(s: &mut Src, c: Case<T>) -> R {
    let a1 = observe(0x5a, c.a, c.used, c.public);
    let a2 = observe(0xc3, c.a, c.used, c.public);
    let b = observe(0x5a, c.b, c.used, c.public);
    let n = a1.pre.len();
    let chunks = |v: &[u8]| -> Vec<Vec<u8>> { v.chunks(8).map(|x| x.to_vec()).collect() };
    let (pa, pa2, pb) = (chunks(&a1.pre), chunks(&a2.pre), chunks(&b.pre));
    let (qa, qa2, qb) = (chunks(&a1.post), chunks(&a2.post), chunks(&b.post));
    let dependent = (0..pa.len()).filter(|i| pa[*i] == pa2[*i] && pa[*i] != pb[*i]).count();
    ensure!(dependent > 0, format!("harness/{}", c.name), "{}: nothing in {n} bytes depends on the secret", c.name);
    for i in 0..pa.len() {
        if pa[i] == pa2[i] && pa[i] != pb[i] && qa[i] == qa2[i] && qa[i] != qb[i] {
            let is_public = a1.public.chunks(8).any(|w| w == &qa[i][..]);
            ensure!(
                is_public,
                format!("residue/{}", c.name),
                "{}: after drop, bytes {}..{} of {n} still depend on the secret: {} against {}",
                c.name,
                8 * i,
                8 * i + 8,
                hex(&qa[i]),
                hex(&qb[i])
            );
        }
    }
    let mut looked = 0;
    for sec in &c.secret {
        for x in [sec.clone(), sec.iter().rev().cloned().collect()] {
            for (k, w) in x.windows(8).enumerate() {
                if interesting(w) && watch::find(&a1.public, w).is_none() {
                    looked += 1;
                    if let Some(at) = watch::find(&a1.post, w) {
                        return fail(&format!("secret-left/{}", c.name), format!("{}: after drop, bytes {k}.. of a secret are at offset {at} of {n}: {}", c.name, hex(w)));
                    }
                }
            }
        }
    }
    if dependent > 0 {
        s.nontrivial();
    }
    s.note(format!("{}: {n} bytes, {dependent} words depend on the secret, {looked} windows looked for", c.name));
    Ok(())
}
fn none<T>(_: &T) -> Vec<u8> {
    vec![]
}
fn pair<const N: usize>(s: &mut Src) -> ([u8; N], [u8; N]) {
    let a: [u8; N] = s.arr();
    let mut b: [u8; N] = match s.idx(3) {
        0 => s.arr(),
        1 => s.edgy(),
        _ => a,
    };
    if a == b {
        let i = s.idx(N);
        b[i] ^= 0x08;
    }
    (a, b)
}
fn aeads(s: &mut Src) -> R {
    let (a, b) = pair::<32>(s);
    let n = s.len(2000);
    let pt = s.blob(n);
    let rounds = s.idx(3);
    let kind = s.idx(4);
    let secret = |k: usize| -> Vec<Vec<u8>> {
        let mut v = vec![a[..k].to_vec()];
        if kind < 2 {
            v.push(ghash_key(&a[..k]));
        }
        v
    };
    macro_rules! go {
        ($name:expr, $mk:expr, $nonce:expr, $wrap:expr, $k:expr) => {
            judge(
                s,
                Case {
                    name: $name,
                    a: &|| $mk(&a[..]),
                    b: &|| $mk(&b[..]),
                    used: &|k| {
                        for _ in 0..rounds {
                            let mut buf = pt.clone();
                            let mut tag = [0u8; 16];
                            k.encrypt(&[7; $nonce], b"aad", &mut buf, &mut tag);
                            let _ = k.decrypt(&[7; $nonce], b"other", &mut buf, &tag);
                        }
                    },
                    public: &none,
                    secret: secret($k),
                },
            )
        };
    }
    if kind == 0 && a[..16] == b[..16] {
        return Ok(());
    }
    match kind {
        0 => go!("AES-128-GCM", |k: &[u8]| AesGcm::new(&k[..16]), 12, 0, 16),
        1 => go!("AES-256-GCM", |k: &[u8]| AesGcm::new(k), 12, 1, 32),
        2 => go!("ChaCha20-Poly1305", |k: &[u8]| ChaCha20Poly1305::new(k.try_into().unwrap()), 12, 2, 32),
        _ => go!("XChaCha20-Poly1305", |k: &[u8]| XChaCha20Poly1305::new(k.try_into().unwrap()), 24, 3, 32),
    }
}
/// AES of the zero block
fn ghash_key(k: &[u8]) -> Vec<u8> {
    use aws_lc_rs::cipher::{EncryptingKey, UnboundCipherKey, AES_128, AES_256};
    let u = UnboundCipherKey::new(if k.len() == 16 { &AES_128 } else { &AES_256 }, k).unwrap();
    let mut b = [0u8; 16];
    EncryptingKey::ecb(u).unwrap().encrypt(&mut b).unwrap();
    b.to_vec()
}
fn scripted<T>(d: &[u8], f: impl FnOnce() -> T) -> T {
    rngshim::script(d, After::Fail);
    let r = f();
    rngshim::reset();
    r
}
fn agreement(s: &mut Src) -> R {
    let how = s.bool();
    let kind = s.idx(9);
    let uses = s.idx(3);
    let mut nine = [0u8; 32];
    nine[0] = 9;
    match kind {
        0 => {
            let (a, b) = pair::<32>(s);
            judge(s, Case { name: "x25519::PrivateKey", a: &|| scripted(&a, || x25519::PrivateKey::new_random().unwrap()), b: &|| scripted(&b, || x25519::PrivateKey::new_random().unwrap()), used: &|k| (0..uses).for_each(|_| drop(k.public_key())), public: &none, secret: vec![a.to_vec()] })
        }
        1 => {
            let (a, b) = pair::<32>(s);
            let peer = x25519::PublicKey::try_from_slice(&c25519::x25519(&[0x42; 32], &nine)).unwrap();
            let mk = |k: [u8; 32]| if how { x25519::StaticPrivateKey::from_array(&k) } else { scripted(&k, || x25519::StaticPrivateKey::new_random().unwrap()) };
            judge(s, Case { name: "x25519::StaticPrivateKey", a: &|| mk(a), b: &|| mk(b), used: &|k| (0..uses).for_each(|_| drop((k.public_key(), k.as_bytes(), k.diffie_hellman(&peer).map(|x| x.0)))), public: &none, secret: vec![a.to_vec()] })
        }
        2 => {
            let (a, b) = pair::<32>(s);
            let mk = |k: [u8; 32]| x25519::StaticPrivateKey::from_array(&k).diffie_hellman(&x25519::PublicKey::try_from_slice(&c25519::x25519(&[0x42; 32], &nine)).unwrap()).unwrap();
            if c25519::x25519(&a, &nine) == c25519::x25519(&b, &nine) {
                return Ok(());
            }
            let z = mk(a).0.to_vec();
            judge(s, Case { name: "x25519::SharedSecret", a: &|| mk(a), b: &|| mk(b), used: &|_| (), public: &none, secret: vec![z] })
        }
        3..=8 => {
            let ci = kind % 2;
            let c = curve(ci);
            let da = scalar(s, c);
            let mut db = scalar(s, c);
            if da == db {
                db = (&db % (&c.n - 2u32)) + 1u32;
                if da == db {
                    return Ok(());
                }
            }
            let (a, b) = (c.enc(&da), c.enc(&db));
            let peer = c.point(&c.mul_g(&BigUint::from(0x31337u32)));
            let sec = vec![a.clone()];
            macro_rules! curve_case {
                ($m:ident, $names:expr, $curve:ty) => {
                    match kind {
                        3 | 4 => judge(s, Case { name: $names[0], a: &|| scripted(&a, || $m::PrivateKey::new_random().unwrap()), b: &|| scripted(&b, || $m::PrivateKey::new_random().unwrap()), used: &|k| (0..uses).for_each(|_| drop(k.public_key_uncompressed())), public: &none, secret: sec }),
                        5 | 6 => {
                            let pk = $m::PublicKey::from_x962_uncompressed(&peer).unwrap();
                            let mk = |d: &[u8]| if how { $m::StaticPrivateKey::from_bytes(d).unwrap() } else { scripted(d, || $m::StaticPrivateKey::new_random().unwrap()) };
                            judge(s, Case { name: $names[1], a: &|| mk(&a), b: &|| mk(&b), used: &|k| (0..uses).for_each(|_| drop((k.public_key_uncompressed(), k.as_bytes(), k.diffie_hellman(&pk).map(|x| x.0)))), public: &none, secret: sec })
                        }
                        _ => {
                            let pk = $m::PublicKey::from_x962_uncompressed(&peer).unwrap();
                            let mk = |d: &[u8]| $m::StaticPrivateKey::from_bytes(d).unwrap().diffie_hellman(&pk).unwrap();
                            let z = mk(&a).0.to_vec();
                            if z == mk(&b).0.to_vec() {
                                return Ok(());
                            }
                            judge(s, Case { name: $names[2], a: &|| mk(&a), b: &|| mk(&b), used: &|_| (), public: &none, secret: vec![z] })
                        }
                    }
                };
            }
            if ci == 0 {
                curve_case!(p256, ["p256::PrivateKey", "p256::StaticPrivateKey", "p256::SharedSecret"], ecdsa::P256)
            } else {
                curve_case!(p384, ["p384::PrivateKey", "p384::StaticPrivateKey", "p384::SharedSecret"], ecdsa::P384)
            }
        }
        _ => unreachable!(),
    }
}
fn signing(s: &mut Src) -> R {
    let kind = s.idx(3);
    let how = s.idx(3);
    let uses = s.idx(3);
    match kind {
        0 => {
            let (a, b) = pair::<32>(s);
            let mk = |k: &[u8; 32]| match how {
                0 => Ed25519SigningKey::from_bytes(k).unwrap(),
                1 => scripted(k, || Ed25519SigningKey::generate().unwrap()),
                _ => {
                    let mut o = [0u8; 256];
                    let d = Ed25519SigningKey::from_bytes(k).unwrap().to_pkcs8_der(&mut o).unwrap().to_vec();
                    Ed25519SigningKey::from_pkcs8_der(&d).unwrap()
                }
            };
            let (sc, prefix) = c25519::ed_expand(&a);
            let secret = vec![a.to_vec(), c25519::le32(&sc).to_vec(), prefix.to_vec()];
            judge(
                s,
                Case {
                    name: "Ed25519SigningKey",
                    a: &|| mk(&a),
                    b: &|| mk(&b),
                    used: &|k| (0..uses).for_each(|_| drop((k.sign(b"m"), k.as_seed()))),
                    public: &|k| {
                        let v = k.public_key();
                        let mut m = mem_of(&v);
                        m.extend(v.as_bytes());
                        m
                    },
                    secret,
                },
            )
        }
        _ => {
            let ci = kind - 1;
            let c = curve(ci);
            let (da, mut db) = (scalar(s, c), scalar(s, c));
            if da == db {
                db = BigUint::from(77u32);
            }
            if da == db {
                return Ok(());
            }
            let sec = vec![c.enc(&da)];
            macro_rules! go {
                ($m:ident, $c:ty, $name:expr) => {{
                    let mk = |d: &BigUint| -> ecdsa::SigningKey<$c> {
                        let k = ecdsa::SigningKey::<$c> { private_key: $m::StaticPrivateKey::from_bytes(&c.enc(d)).unwrap() };
                        let mut o = [0u8; 512];
                        match how {
                            0 => k,
                            1 => ecdsa::SigningKey::<$c>::from_pkcs8_der(k.to_pkcs8_der(&mut o).unwrap()).unwrap(),
                            _ => ecdsa::SigningKey::<$c>::from_sec1_der(k.to_sec1_der(&mut o).unwrap()).unwrap(),
                        }
                    };
                    judge(
                        s,
                        Case {
                            name: $name,
                            a: &|| mk(&da),
                            b: &|| mk(&db),
                            used: &|k| {
                                (0..uses).for_each(|_| {
                                    let mut o = [0u8; 128];
                                    rngshim::prng(&[], 1);
                                    let _ = k.sign_asn1::<graviola::hashing::Sha256>(&[b"m"], &mut o);
                                    rngshim::reset();
                                })
                            },
                            public: &|k| {
                                let q = k.private_key.public_key_uncompressed();
                                let v = ecdsa::VerifyingKey::<$c>::from_x962_uncompressed(&q).unwrap();
                                let mut m = mem_of(&v);
                                m.extend(&q[1..]);
                                m
                            },
                            secret: sec,
                        },
                    )
                }};
            }
            if ci == 0 {
                go!(p256, ecdsa::P256, "ecdsa::SigningKey<P256>")
            } else {
                go!(p384, ecdsa::P384, "ecdsa::SigningKey<P384>")
            }
        }
    }
}
fn rsa_keys(s: &mut Src) -> R {
    let shape = if s.one_in(4) { rsautil::Shape::Any } else { rsautil::Shape::Common };
    let (Some(a), Some(mut b)) = (rsautil::key(s, shape), rsautil::key(s, rsautil::Shape::Common)) else {
        return Ok(());
    };
    if a.n == b.n {
        return Ok(());
    }
    let how = s.idx(2);
    let uses = s.idx(3);
    let mk = |k: &rsautil::Key| -> Option<rsa::SigningKey> {
        let sk = rsa::SigningKey::from_pkcs1_der(&k.private_der()).ok()?;
        if how == 0 {
            return Some(sk);
        }
        let mut o = vec![0u8; 8192];
        let d = sk.to_pkcs8_der(&mut o).ok()?.to_vec();
        rsa::SigningKey::from_pkcs8_der(&d).ok()
    };
    if mk(&a).is_none() {
        return Ok(());
    }
    if mk(&b).is_none() {
        let p: Vec<&BigUint> = rsautil::primes().iter().filter(|p| p.bits() == 1024 && p.bit(1022)).collect();
        b = rsautil::Key::new(p[0], p[1], &BigUint::from(65537u32)).unwrap();
        if a.n == b.n {
            return Ok(());
        }
    }
    let secret = [&a.p, &a.q, &a.d, &a.dp, &a.dq, &a.qi].iter().map(|v| v.to_bytes_be()).collect();
    judge(
        s,
        Case {
            name: "rsa::SigningKey",
            a: &|| mk(&a).unwrap(),
            b: &|| mk(&b).unwrap(),
            used: &|k| {
                for _ in 0..uses {
                    let mut o = vec![0u8; k.modulus_len_bytes()];
                    rngshim::prng(&[], 1);
                    let _ = rsautil::sign(k, true, 0, b"m", &mut o);
                    let _ = rsautil::sign(k, false, 1, b"m", &mut o);
                    rngshim::reset();
                }
            },
            // the exponent is four bytes, and what pads them need not be copied
            public: &|k| [mem_of(&k.public_key()), a.e.to_u64_digits()[0].to_le_bytes().to_vec()].concat(),
            secret,
        },
    )
}
fn kem(s: &mut Src) -> R {
    let (a, b) = pair::<64>(s);
    let uses = s.idx(3);
    let how = s.bool();
    let mk = |d: &[u8; 64]| if how { scripted(d, || mlkem768::DecapKey::generate().unwrap()) } else { mlkem768::DecapKey::keygen_internal(d) };
    let kind = s.idx(3);
    let (ek, dk) = mlkem::keygen(&a[..32], &a[32..]);
    match kind {
        0 => judge(
            s,
            Case {
                name: "mlkem768::DecapKey",
                a: &|| mk(&a),
                b: &|| mk(&b),
                used: &|k| (0..uses).for_each(|i| drop(k.decaps_internal(&mlkem768::Ciphertext::from([i as u8; 1088])))),
                public: &|k| {
                    let e = k.encapsulation_key();
                    let mut m = mem_of(&e);
                    let eb = e.as_bytes();
                    m.extend(crate::refs::keccak::sha3_256(&eb));
                    m.extend(eb);
                    m
                },
                secret: vec![dk[..1152].to_vec(), a[32..].to_vec(), a[..32].to_vec()],
            },
        ),
        1 => {
            let e: [u8; 1184] = ek[..].try_into().unwrap();
            let enc = |m: &[u8; 64]| scripted(&m[..32], || mlkem768::EncapKey::from_bytes(&e).ok().unwrap().encaps().unwrap().0);
            if a[..32] == b[..32] {
                return Ok(());
            }
            let z = enc(&a).as_ref().to_vec();
            judge(s, Case { name: "mlkem768::SharedSecret", a: &|| enc(&a), b: &|| enc(&b), used: &|_| (), public: &none, secret: vec![z] })
        }
        _ => {
            let ct = s.barr::<1088>();
            let dec = |d: &[u8; 64]| mk(d).decaps(&mlkem768::Ciphertext::from(ct));
            if a[32..] == b[32..] {
                return Ok(());
            }
            let z = dec(&a).as_ref().to_vec();
            judge(s, Case { name: "mlkem768::SharedSecret (decaps)", a: &|| dec(&a), b: &|| dec(&b), used: &|_| (), public: &none, secret: vec![z] })
        }
    }
}
/// rustls-side objects live on the heap: blocks are searched as they are freed
fn heap(s: &mut Src) -> R {
    let p = rustls_graviola::default_provider();
    let kind = s.idx(5);
    let uses = s.idx(3);
    let mut needles: Vec<Vec<u8>> = vec![];
    let what: String;
    let obj: Box<dyn FnOnce()>;
    watch::clean(true);
    match kind {
        0 => {
            // record protection of any suite and version, either direction
            let suites = rustls_graviola::suites::ALL_CIPHER_SUITES;
            let suite = suites[s.idx(suites.len())];
            let key: [u8; 32] = s.arr();
            let iv: [u8; 12] = s.arr();
            what = format!("{:?}", suite.suite());
            let enc = s.bool();
            let n = match &suite {
                SupportedCipherSuite::Tls13(t) => t.aead_alg.key_len(),
                SupportedCipherSuite::Tls12(t) => t.aead_alg.key_block_shape().enc_key_len,
                #[allow(unreachable_patterns)]
                _ => unreachable!(),
            };
            let k = super::tlsutil::key(&key, n);
            needles.push(key[..n].to_vec());
            if n == 16 || what.contains("AES_256") {
                let h = ghash_key(&key[..n]);
                needles.push(h.iter().rev().cloned().collect());
                needles.push(h);
            }
            obj = match (suite, enc) {
                (SupportedCipherSuite::Tls13(t), true) => {
                    let e = t.aead_alg.encrypter(k, Iv::from(iv));
                    Box::new(move || drop(e))
                }
                (SupportedCipherSuite::Tls13(t), false) => {
                    let e = t.aead_alg.decrypter(k, Iv::from(iv));
                    Box::new(move || drop(e))
                }
                (SupportedCipherSuite::Tls12(t), true) => {
                    let shape = t.aead_alg.key_block_shape();
                    let e = t.aead_alg.encrypter(k, &iv[..shape.fixed_iv_len], &[9; 8][..shape.explicit_nonce_len]);
                    Box::new(move || drop(e))
                }
                (SupportedCipherSuite::Tls12(t), false) => {
                    let shape = t.aead_alg.key_block_shape();
                    let e = t.aead_alg.decrypter(k, &iv[..shape.fixed_iv_len]);
                    Box::new(move || drop(e))
                }
                #[allow(unreachable_patterns)]
                _ => unreachable!(),
            };
        }
        1 => {
            // a key exchange that is abandoned
            let g = p.kx_groups[s.idx(p.kx_groups.len())];
            what = format!("{:?}", g.name());
            rngshim::prng(&[], s.u64());
            rngshim::keep();
            let k = g.start();
            let h = rngshim::history();
            rngshim::reset();
            let Ok(k) = k else {
                return fail("start", "kx start failed");
            };
            for d in h {
                needles.push(d.iter().rev().cloned().collect());
                // the first 32 bytes of ML-KEM's 64 are only a seed
                if d.len() == 64 {
                    let dk = mlkem::keygen(&d[..32], &d[32..]).1;
                    needles.push(dk[..32].to_vec());
                    needles.push(dk[600..632].to_vec());
                    needles.push(d[32..].to_vec());
                }
                needles.push(d);
            }
            obj = Box::new(move || drop(k));
        }
        2 => {
            // the secret a completed exchange gives
            let i = s.idx(p.kx_groups.len());
            let g = p.kx_groups[i];
            what = format!("{:?} secret", g.name());
            rngshim::prng(&[], s.u64());
            let r = g.start().and_then(|c| g.start_and_complete(c.pub_key()).map(|x| (c, x))).and_then(|(c, x)| c.complete(&x.pub_key).map(|z| (x, z)));
            rngshim::reset();
            let Ok((x, z)) = r else {
                return fail("agree", format!("{what}: exchange failed"));
            };
            ensure!(x.secret.secret_bytes() == z.secret_bytes(), "agree", "{what}: sides disagree");
            for w in z.secret_bytes().chunks(32) {
                needles.push(w.to_vec());
            }
            let _ = x.pub_key;
            let (one, two) = (x.secret, z);
            obj = Box::new(move || {
                drop(one);
                drop(two);
            });
        }
        3 => {
            let mut d = vec![0u8; 8192];
            let t = s.idx(4);
            let der = match t {
                0 => {
                    let seed: [u8; 32] = s.arr();
                    needles.push(seed.to_vec());
                    needles.push(c25519::ed_expand(&seed).1.to_vec());
                    Ed25519SigningKey::from_bytes(&seed).unwrap().to_pkcs8_der(&mut d).unwrap().to_vec()
                }
                1 | 2 => {
                    let c = curve(t - 1);
                    let mut e = s.arr::<32>();
                    e[0] |= 1;
                    let k = BigUint::from_bytes_be(&e) % &c.n;
                    needles.push(k.to_bytes_be());
                    needles.push(k.to_bytes_le());
                    ecdsautil::SK::new(t - 1, &k).unwrap().to(0, &mut d).unwrap()
                }
                _ => {
                    let Some(k) = rsautil::key(s, rsautil::Shape::Common) else {
                        return Ok(());
                    };
                    // sparse primes show through in the modulus
                    let public = k.n.to_bytes_le();
                    for v in [&k.p, &k.q, &k.d, &k.dp, &k.dq, &k.qi] {
                        let v = v.to_bytes_le();
                        for w in [0..32, 80..112] {
                            if watch::find(&public, v.get(w.clone()).unwrap_or(&[])).is_none() {
                                needles.push(v.get(w).unwrap_or(&[]).to_vec());
                            }
                        }
                    }
                    let Ok(sk) = rsa::SigningKey::from_pkcs1_der(&k.private_der()) else {
                        return Ok(());
                    };
                    sk.to_pkcs8_der(&mut d).unwrap().to_vec()
                }
            };
            what = ["Ed25519", "P-256", "P-384", "RSA"][t].to_string();
            let Ok(k) = p.key_provider.load_private_key(PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(der))) else {
                return fail("load", format!("{what}: key not loaded"));
            };
            use rustls::SignatureScheme as S;
            let signers: Vec<_> = (0..uses).filter_map(|_| k.choose_scheme(&[S::ED25519, S::ECDSA_NISTP256_SHA256, S::ECDSA_NISTP384_SHA384, S::RSA_PSS_SHA256])).collect();
            for g in &signers {
                let _ = g.sign(b"message");
            }
            // the last owner is a signer or the key
            if s.bool() {
                obj = Box::new(move || {
                    drop(k);
                    drop(signers);
                });
            } else {
                obj = Box::new(move || {
                    drop(signers);
                    drop(k);
                });
            }
        }
        _ => {
            what = "ticketer".into();
            rngshim::prng(&[], s.u64());
            rngshim::keep();
            let t = rustls_graviola::Ticketer::new();
            // the key name, drawn as well, is public
            let h: Vec<Vec<u8>> = rngshim::history().into_iter().filter(|d| d.len() == 32).collect();
            let Ok(t) = t else {
                rngshim::reset();
                return fail("ticketer", "ticketer not made");
            };
            for _ in 0..uses {
                let e = t.encrypt(b"state");
                let _ = t.decrypt(&e.unwrap_or_default());
            }
            rngshim::reset();
            needles.extend(h);
            obj = Box::new(move || drop(t));
        }
    }
    let known: Vec<Vec<u8>> = needles.into_iter().filter(|n| n.len() >= 12 && n.chunks(8).next().is_some_and(interesting)).collect();
    watch::reset();
    known.iter().for_each(|n| watch::add(n));
    if kind == 0 && what.contains("AES") {
        // the rest of the 64-byte aligned block
        watch::padding_from(std::mem::size_of::<AesGcm>() + 12);
    }
    watch::arm(true);
    obj();
    watch::arm(false);
    let (hits, freed, last) = (watch::hits(), watch::freed(), watch::last());
    watch::reset();
    ensure!(hits == 0, format!("heap/{}", ["record", "kx", "secret", "signer", "ticketer"][kind]), "{what}: secret {} was still in a freed heap block of {} bytes, at offset {}", last.2, last.0, last.1);
    if freed > 0 && !known.is_empty() {
        s.nontrivial();
    }
    s.label(["record", "kx", "secret", "signer", "ticketer"][kind]);
    s.note(format!("{what}: {freed} blocks freed, {} secrets looked for", known.len()));
    let _ = Aead::key_len(0);
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "an object holding a generated secret was dropped and the memory it had occupied was examined; some of that memory had depended on the secret",
        assumptions: &[
            "memory is examined where the object was dropped; copies the compiler made while moving it are not looked for",
            "HMAC and hash contexts are not key objects in this sense",
        ],
        subs: vec![
            Sub::new("aeads", aeads, 20_000, 600_000).all(),
            Sub::new("agreement", agreement, 8000, 200_000),
            Sub::new("signing", signing, 6000, 200_000),
            Sub::new("rsa", rsa_keys, 600, 20_000),
            Sub::new("kem", kem, 3000, 100_000),
            Sub::new("heap", heap, 6000, 200_000).all(),
        ],
    }
}
