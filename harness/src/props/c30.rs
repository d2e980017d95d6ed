//! C30: what the processor does is independent of secrets.
//!
//! The operation is single-stepped with two or more secrets (all else equal) on objects at the same
//! addresses; the sequences of instructions and of memory operands must be the same.
use super::ecutil::{curve, scalar};
use super::rsautil;
use crate::ctstep;
use crate::engine::*;
use crate::rngshim::{self, After};
use crate::refs::chacha;
use crate::watch;
use std::cell::Cell;
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{sha3, Hash, HashContext, Sha256, Sha384, Sha512};
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::eddsa::Ed25519SigningKey;
use graviola::signing::{ecdsa, rsa};

/// what an operation gives its caller
pub struct Out {
    b: [u8; 16384],
    n: usize,
}
impl Out {
    pub fn new() -> Out {
        Out { b: [0; 16384], n: 0 }
    }
    pub fn get(&self) -> &[u8] {
        &self.b[..self.n]
    }
    fn put(&mut self, x: &[u8]) {
        self.b[self.n..self.n + x.len()].copy_from_slice(x);
        self.n += x.len();
    }
}
thread_local! {
    /// look at registers after the operation (C31) instead of at its steps
    pub static REGISTERS: Cell<bool> = const { Cell::new(false) };
}

fn same<V, T>(s: &mut Src, name: &'static str, vs: &[V], make: impl Fn(&V) -> T, op: impl Fn(&mut T, &mut Out)) -> R {
    if REGISTERS.with(|r| r.get()) {
        return super::c31::same(s, name, vs, make, op);
    }
    let mut slot: Box<Option<T>> = Box::new(None);
    let mut out = Box::new(Out::new());
    let op = |t: &mut T, o: &mut Out| {
        o.n = 0;
        op(t, o)
    };
    // whatever is set up on first use
    *slot = Some(make(&vs[0]));
    op((*slot).as_mut().unwrap(), &mut out);
    for (i, v) in vs.iter().enumerate() {
        *slot = None;
        watch::arena(Some(0));
        *slot = Some(make(v));
        let t = (*slot).as_mut().unwrap();
        watch::arena(Some(32 << 20));
        let (n, d) = ctstep::go(i == 0, &mut || op(t, &mut out));
        watch::arena(None);
        beat();
        ensure!(n > 20, format!("harness/{name}"), "{name}: only {n} steps");
        if let Some(d) = d {
            let what = if d.want[0] == d.got[0] { "memory operand" } else { "path" };
            return fail(
                &format!("{name}/{what}"),
                format!(
                    "{name}: {what} depends on the secret, at step {} of {n}: after {} came {} and with another secret {}",
                    d.at,
                    ctstep::whereis(d.prev_pc),
                    ctstep::whereis(d.want[0]),
                    ctstep::whereis(d.got[0])
                ),
            );
        }
    }
    s.label(name);
    s.nontrivial();
    Ok(())
}

/// secrets of the same length
fn secrets(s: &mut Src, n: usize) -> Vec<Vec<u8>> {
    (0..2 + s.idx(2)).map(|_| secret(s, n)).collect()
}
fn secret(s: &mut Src, n: usize) -> Vec<u8> {
    match s.weighted(&[4, 1, 1, 1, 1]) {
        0 => s.bytes(n),
        1 => vec![if s.bool() { 0 } else { 0xff }; n],
        2 => {
            // short
            let mut v = vec![0; n];
            let k = s.idx(n + 1);
            let b = s.bytes(k);
            v[..k].copy_from_slice(&b);
            if s.bool() {
                v.reverse();
            }
            v
        }
        3 => {
            // one bit
            let mut v = vec![0; n];
            if n > 0 {
                v[s.idx(n)] = 1 << s.idx(8);
            }
            v
        }
        _ => s.blob(n),
    }
}
fn put<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut a = [0u8; N];
    a[..b.len()].copy_from_slice(b);
    a
}

/// the object the caller now owns
fn raw<T>(t: &T) -> &[u8] {
    unsafe { std::slice::from_raw_parts(t as *const T as *const u8, std::mem::size_of::<T>()) }
}

pub fn x25519_ops(s: &mut Src) -> R {
    let ks = secrets(s, 32);
    let peer = x25519::StaticPrivateKey::from_array(&s.arr()).public_key();
    match s.idx % 3 {
        0 => same(s, "x25519-agree", &ks, |k| x25519::StaticPrivateKey::try_from_slice(k).unwrap(), |k, o| {
            if let Ok(x) = k.diffie_hellman(&peer) {
                o.put(&x.0);
            }
        }),
        1 => same(s, "x25519-public", &ks, |k| x25519::StaticPrivateKey::try_from_slice(k).unwrap(), |k, o| o.put(&k.public_key().as_bytes())),
        _ => {
            let r = same(s, "x25519-ephemeral", &ks, |k| rngshim::script(k, After::Fail), |_, o| {
                let k = x25519::PrivateKey::new_random().unwrap();
                o.put(&k.public_key().as_bytes());
                if let Ok(x) = k.diffie_hellman(&peer) {
                    o.put(&x.0);
                }
            });
            rngshim::reset();
            r
        }
    }
}

macro_rules! ecdh {
    ($fn:ident, $m:ident, $c:expr, $l:expr, $agree:expr, $public:expr, $eph:expr, $imp:expr) => {
        pub fn $fn(s: &mut Src) -> R {
            let c = curve($c);
            let ks: Vec<Vec<u8>> = (0..2 + s.idx(2))
                .map(|_| {
                    let k = scalar(s, c);
                    let b = k.to_bytes_be();
                    let mut v = vec![0; $l];
                    v[$l - b.len()..].copy_from_slice(&b);
                    v
                })
                .collect();
            let other = loop {
                if let Ok(k) = $m::StaticPrivateKey::from_bytes(&s.bytes($l)) {
                    break k;
                }
            };
            let peer = $m::PublicKey::from_x962_uncompressed(&other.public_key_uncompressed()).unwrap();
            let mk = |k: &Vec<u8>| $m::StaticPrivateKey::from_bytes(k).unwrap();
            match s.idx % 4 {
                0 => same(s, $agree, &ks, mk, |k, o| {
                    if let Ok(x) = k.diffie_hellman(&peer) {
                        o.put(&x.0);
                    }
                }),
                1 => same(s, $public, &ks, mk, |k, o| o.put(&k.public_key_uncompressed())),
                2 => {
                    let r = same(s, $eph, &ks, |k| rngshim::script(k, After::Fail), |_, o| {
                        let k = $m::PrivateKey::new_random().unwrap();
                        o.put(&k.public_key_uncompressed());
                        if let Ok(x) = k.diffie_hellman(&peer) {
                            o.put(&x.0);
                        }
                    });
                    rngshim::reset();
                    r
                }
                _ => same(s, $imp, &ks, |k| put::<$l>(k), |k, o| {
                    let k = $m::StaticPrivateKey::from_bytes(&k[..]).unwrap();
                    o.put(&k.as_bytes());
                }),
            }
        }
    };
}
ecdh!(p256_ops, p256, 0, 32, "p256-agree", "p256-public", "p256-ephemeral", "p256-import");
ecdh!(p384_ops, p384, 1, 48, "p384-agree", "p384-public", "p384-ephemeral", "p384-import");

struct SignIn<K> {
    key: K,
    msg: [u8; 300],
    n: usize,
    out: [u8; 200],
}
fn ecdsa_op<C: ecdsa::Curve, H: Hash>(s: &mut Src, name: &'static str, c: usize) -> R {
    let l = if c == 0 { 32 } else { 48 };
    let n = s.idx(300);
    let v: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = (0..2 + s.idx(2))
        .map(|_| {
            let k = scalar(s, curve(c));
            let b = k.to_bytes_be();
            let mut v = vec![0; l];
            v[l - b.len()..].copy_from_slice(&b);
            let der = super::c17::ec_sec1(c, &v, None, true);
            (der, s.bytes(32), secret(s, n))
        })
        .collect();
    let mk = |(der, rnd, msg): &(Vec<u8>, Vec<u8>, Vec<u8>)| {
        rngshim::script(rnd, After::Cycle);
        SignIn {
            key: ecdsa::SigningKey::<C>::from_sec1_der(der).unwrap(),
            msg: put(msg),
            n,
            out: [0; 200],
        }
    };
    let r = same(s, name, &v, mk, |t, o| {
        if let Ok(x) = t.key.sign::<H>(&[&t.msg[..t.n]], &mut t.out) {
            o.put(x);
        }
    });
    rngshim::reset();
    r
}
pub fn ecdsa_p256(s: &mut Src) -> R {
    match s.idx % 2 {
        0 => ecdsa_op::<ecdsa::P256, Sha256>(s, "ecdsa-p256-sha256", 0),
        _ => ecdsa_op::<ecdsa::P256, Sha384>(s, "ecdsa-p256-sha384", 0),
    }
}
pub fn ecdsa_p384(s: &mut Src) -> R {
    match s.idx % 2 {
        0 => ecdsa_op::<ecdsa::P384, Sha384>(s, "ecdsa-p384-sha384", 1),
        _ => ecdsa_op::<ecdsa::P384, Sha256>(s, "ecdsa-p384-sha256", 1),
    }
}

pub fn ed25519_ops(s: &mut Src) -> R {
    let n = s.idx(300);
    let v: Vec<(Vec<u8>, Vec<u8>)> = (0..2 + s.idx(2)).map(|_| (secret(s, 32), s.bytes(n))).collect();
    match s.idx % 2 {
        0 => same(
            s,
            "ed25519-sign",
            &v,
            |(k, m)| SignIn {
                key: Ed25519SigningKey::from_bytes(k).unwrap(),
                msg: put(m),
                n,
                out: [0; 200],
            },
            |t, o| o.put(&t.key.sign(&t.msg[..t.n])),
        ),
        _ => same(s, "ed25519-import", &v, |x| put::<32>(&x.0), |k, o| {
            let k = Ed25519SigningKey::from_bytes(&k[..]).unwrap();
            o.put(raw(&k));
        }),
    }
}

struct Kem {
    dk: Option<mlkem768::DecapKey>,
    ct: mlkem768::Ciphertext,
}
pub fn kem(s: &mut Src) -> R {
    let d: [u8; 32] = s.arr();
    let seed = |z: &[u8]| -> [u8; 64] {
        let mut v = [0u8; 64];
        v[..32].copy_from_slice(&d);
        v[32..].copy_from_slice(z);
        v
    };
    let z0 = s.bytes(32);
    let first = mlkem768::DecapKey::keygen_internal(&seed(&z0));
    let ek = first.encapsulation_key().as_bytes();
    if s.idx % 2 == 0 {
        let ms = secrets(s, 32);
        let mk = |m: &Vec<u8>| {
            rngshim::script(m, After::Fail);
            Some(mlkem768::EncapKey::from_bytes(&ek).unwrap())
        };
        let r = same(s, "mlkem-encaps", &ms, mk, |t, o| {
            let (k, c) = t.take().unwrap().encaps().unwrap();
            o.put(k.as_ref());
            o.put(c.as_ref());
        });
        rngshim::reset();
        return r;
    }
    let v: Vec<(Vec<u8>, [u8; 1088])> = (0..2 + s.idx(2))
        .map(|_| {
            let m: [u8; 32] = secret(s, 32).try_into().unwrap();
            let (_, c) = mlkem768::EncapKey::from_bytes(&ek).unwrap().encaps_internal(mlkem768::Message(m));
            let mut c = *c.as_ref();
            match s.idx(4) {
                0 | 1 => {}
                2 => c[s.idx(1088)] ^= 1 << s.idx(8),
                _ => c = s.arr(),
            }
            (secret(s, 32), c)
        })
        .collect();
    let mk = |(z, c): &(Vec<u8>, [u8; 1088])| Kem {
        dk: Some(mlkem768::DecapKey::keygen_internal(&seed(z))),
        ct: (*c).into(),
    };
    same(s, "mlkem-decaps", &v, mk, |t, o| o.put(t.dk.take().unwrap().decaps(&t.ct).as_ref()))
}

struct AeadIn {
    kind: usize,
    kl: usize,
    key: [u8; 32],
    nonce: [u8; 24],
    aad: [u8; 300],
    al: usize,
    buf: [u8; 1500],
    n: usize,
    tag: [u8; 16],
    opening: bool,
    ok: bool,
}
fn aead_run(t: &mut AeadIn) {
    let n12: &[u8; 12] = t.nonce[..12].try_into().unwrap();
    let (aad, buf) = (&t.aad[..t.al], &mut t.buf[..t.n]);
    macro_rules! go {
        ($k:expr, $n:expr) => {{
            let k = $k;
            if t.opening {
                t.ok = k.decrypt($n, aad, buf, &t.tag).is_ok();
            } else {
                k.encrypt($n, aad, buf, &mut t.tag);
                t.ok = true;
            }
        }};
    }
    match t.kind {
        0 => go!(AesGcm::new(&t.key[..t.kl]), n12),
        1 => go!(ChaCha20Poly1305::new(t.key), n12),
        _ => go!(XChaCha20Poly1305::new(t.key), &t.nonce),
    }
}
pub fn aead(s: &mut Src) -> R {
    let which = (s.idx % 12) as usize;
    let kind = [0, 0, 1, 2][which % 4];
    let kl = if which % 4 == 0 { 16 } else { 32 };
    let al = if s.bool() { s.idx(40) } else { s.idx(300) };
    let n = if s.bool() { s.idx(80) } else { s.idx(1500) };
    let opening = which >= 4;
    let bad = which >= 8;
    let nonce = s.bytes(24);
    let aad = s.bytes(al);
    let name = match (kind, kl, opening, bad) {
        (0, 16, false, _) => "aes128gcm-seal",
        (0, 16, true, false) => "aes128gcm-open",
        (0, 16, true, true) => "aes128gcm-refuse",
        (0, _, false, _) => "aes256gcm-seal",
        (0, _, true, false) => "aes256gcm-open",
        (0, _, true, true) => "aes256gcm-refuse",
        (1, _, false, _) => "chacha-seal",
        (1, _, true, false) => "chacha-open",
        (1, _, true, true) => "chacha-refuse",
        (_, _, false, _) => "xchacha-seal",
        (_, _, true, false) => "xchacha-open",
        (_, _, true, true) => "xchacha-refuse",
    };
    // Poly1305's last reduction has paths that one message in 2^26 would show: aim for them
    let edgy = kind > 0 && s.bool();
    let n = if edgy { 16 * (1 + n % 9) } else { n };
    let mut v = Vec::new();
    for _ in 0..2 + s.idx(2) {
        let mut t = AeadIn {
            kind,
            kl,
            key: put(&secret(s, kl)),
            nonce: put(&nonce),
            aad: put(&aad),
            al,
            buf: put(&secret(s, n)),
            n,
            tag: [0; 16],
            opening: false,
            ok: false,
        };
        if edgy {
            let (wk, wn) = if kind == 2 {
                chacha::xkey(&t.key, &t.nonce)
            } else {
                (t.key, t.nonce[..12].try_into().unwrap())
            };
            if let Some(e) = super::c05::edges(s, &wk, &wn, &aad, n / 16) {
                t.buf[..n].copy_from_slice(&e.pt);
            }
        }
        if opening {
            aead_run(&mut t);
            t.opening = true;
            if bad {
                // the place of the first difference is what must not show
                let from = s.idx(16);
                for i in from..16 {
                    if i == from || s.bool() {
                        t.tag[i] ^= 1 + s.idx(255) as u8;
                    }
                }
            }
        }
        v.push(t);
    }
    same(s, name, &v, |t| AeadIn { ..*t }, |t, o| {
        aead_run(t);
        if t.ok {
            o.put(&t.buf[..t.n]);
            if !t.opening {
                o.put(&t.tag);
            }
        }
    })
}

struct MacIn {
    h: usize,
    key: [u8; 300],
    kl: usize,
    msg: [u8; 600],
    n: usize,
    tag: [u8; 64],
    tl: usize,
    verify: bool,
}
fn mac_run(t: &mut MacIn) {
    macro_rules! go {
        ($h:ty) => {{
            let mut m = Hmac::<$h>::new(&t.key[..t.kl]);
            m.update(&t.msg[..t.n]);
            if t.verify {
                let _ = std::hint::black_box(m.verify(&t.tag[..t.tl]));
            } else {
                let o = m.finish();
                t.tl = o.as_ref().len();
                t.tag[..t.tl].copy_from_slice(o.as_ref());
            }
        }};
    }
    match t.h {
        0 => go!(Sha256),
        1 => go!(Sha384),
        _ => go!(Sha512),
    }
}
fn mac(s: &mut Src) -> R {
    let h = (s.idx % 3) as usize;
    let kl = s.idx(300);
    let n = s.idx(600);
    let verify = s.idx / 3 % 2 == 1;
    let mut v = Vec::new();
    for _ in 0..2 + s.idx(2) {
        let mut t = MacIn {
            h,
            key: put(&secret(s, kl)),
            kl,
            msg: put(&secret(s, n)),
            n,
            tag: [0; 64],
            tl: 0,
            verify: false,
        };
        if verify {
            mac_run(&mut t);
            t.verify = true;
            let from = s.idx(t.tl);
            for i in from..t.tl {
                if i == from || s.bool() {
                    t.tag[i] ^= 1 + s.idx(255) as u8;
                }
            }
        }
        v.push(t);
    }
    same(s, if verify { "hmac-refuse" } else { "hmac" }, &v, |t| MacIn { ..*t }, |t, _| mac_run(t))
}

fn hashes(s: &mut Src) -> R {
    let n = s.idx(1000);
    let h = (s.idx % 7) as usize;
    let cut = s.idx(n + 1);
    let v = secrets(s, n);
    let name = ["sha256", "sha384", "sha512", "sha3-256", "sha3-512", "shake128", "shake256"][h];
    same(s, name, &v, |m| put::<1000>(m), |m, _| {
        let (a, b) = m[..n].split_at(cut);
        macro_rules! go {
            ($c:expr) => {{
                let mut c = $c;
                c.update(a);
                c.update(b);
                std::hint::black_box(c.finish());
            }};
        }
        let mut o = [0u8; 200];
        match h {
            0 => go!(Sha256::new()),
            1 => go!(Sha384::new()),
            2 => go!(Sha512::new()),
            3 => go!(sha3::Sha3_256Context::new()),
            4 => go!(sha3::Sha3_512Context::new()),
            5 => sha3::Shake128::new(&[a, b]).read(&mut o),
            _ => sha3::Shake256::new(&[a, b]).read(&mut o),
        }
        std::hint::black_box(&o);
    })
}

pub fn rsa_sign(s: &mut Src) -> R {
    let n = s.idx(100);
    let keys: Vec<_> = rsa_keys(s).iter().map(|k| (k.private_der(), s.bytes(64), s.bytes(n))).collect();
    let pss = s.idx % 2 == 1;
    struct In {
        key: rsa::SigningKey,
        msg: [u8; 100],
        n: usize,
        out: [u8; 256],
        pss: bool,
    }
    let mk = |(k, r, m): &(Vec<u8>, Vec<u8>, Vec<u8>)| {
        rngshim::script(r, After::Cycle);
        In {
            key: rsa::SigningKey::from_pkcs1_der(k).unwrap(),
            msg: put(m),
            n,
            out: [0; 256],
            pss,
        }
    };
    let r = same(s, if pss { "rsa-pss" } else { "rsa-pkcs1" }, &keys, mk, |t, o| {
        let r = if t.pss {
            t.key.sign_pss_sha256(&mut t.out, &t.msg[..t.n])
        } else {
            t.key.sign_pkcs1_sha256(&mut t.out, &t.msg[..t.n])
        };
        if let Ok(x) = r {
            o.put(x);
        }
    });
    rngshim::reset();
    r
}

/// making, importing and exporting keys (registers only: what these do depends on more than the key)
pub fn keys(s: &mut Src) -> R {
    use graviola::signing::eddsa::Ed25519SigningKey as Ed;
    fn imported<T>(r: Result<T, graviola::Error>) -> T {
        r.unwrap()
    }
    let kind = (s.idx % 12) as usize;
    if kind < 3 {
        let names = ["mlkem-generate", "ed25519-generate", "ecdsa-generate"];
        let v = (0..2).map(|_| s.bytes(64)).collect::<Vec<_>>();
        let r = same(s, names[kind], &v, |k| rngshim::script(k, After::Fail), |_, o| match kind {
            0 => {
                let d = mlkem768::DecapKey::generate().unwrap();
                o.put(raw(&d));
            }
            1 => o.put(raw(&Ed::generate().unwrap())),
            _ => o.put(raw(&ecdsa::SigningKey::<ecdsa::P256>::generate().unwrap())),
        });
        rngshim::reset();
        return r;
    }
    if kind < 7 {
        let c = (s.idx / 12 % 2) as usize;
        let v: Vec<super::c17::EcEnc> = (0..2)
            .map(|_| {
                let d = scalar(s, curve(c));
                super::c17::ec_encodings(c, &curve(c).enc(&d), &curve(c).point(&curve(c).mul_g(&d)))
            })
            .collect();
        macro_rules! ec {
            ($c:ty) => {
                match kind {
                    3 => same(s, "ecdsa-import-sec1", &v, |e| (put::<300>(&e.sec1), e.sec1.len()), |(b, n), o| {
                        o.put(raw(&imported(ecdsa::SigningKey::<$c>::from_sec1_der(&b[..*n]))))
                    }),
                    4 => same(s, "ecdsa-import-pkcs8", &v, |e| (put::<300>(&e.pkcs8), e.pkcs8.len()), |(b, n), o| {
                        o.put(raw(&imported(ecdsa::SigningKey::<$c>::from_pkcs8_der(&b[..*n]))))
                    }),
                    5 => same(s, "ecdsa-export-sec1", &v, |e| (imported(ecdsa::SigningKey::<$c>::from_sec1_der(&e.sec1)), [0; 300]), |(k, b), o| {
                        o.put(k.to_sec1_der(b).unwrap())
                    }),
                    _ => same(s, "ecdsa-export-pkcs8", &v, |e| (imported(ecdsa::SigningKey::<$c>::from_sec1_der(&e.sec1)), [0; 300]), |(k, b), o| {
                        o.put(k.to_pkcs8_der(b).unwrap())
                    }),
                }
            };
        }
        return match c {
            0 => ec!(ecdsa::P256),
            _ => ec!(ecdsa::P384),
        };
    }
    if kind < 9 {
        let v: Vec<(Ed, Vec<u8>)> = (0..2)
            .map(|_| {
                let k = Ed::from_bytes(&secret(s, 32)).unwrap();
                let mut b = [0; 200];
                let d = k.to_pkcs8_der(&mut b).unwrap().to_vec();
                (k, d)
            })
            .collect();
        return match kind {
            7 => same(s, "ed25519-import-pkcs8", &v, |x| (put::<200>(&x.1), x.1.len()), |(b, n), o| {
                let k = imported(Ed::from_pkcs8_der(&b[..*n]));
                o.put(raw(&k));
            }),
            _ => same(s, "ed25519-export", &v, |x| (imported(Ed::from_pkcs8_der(&x.1)), [0; 200]), |(k, b), o| {
                o.put(k.to_pkcs8_der(b).unwrap());
            }),
        };
    }
    let v: Vec<Vec<u8>> = rsa_keys(s).iter().map(|k| k.private_der()).collect();
    let mk = |k: &Vec<u8>| imported(rsa::SigningKey::from_pkcs1_der(k));
    match kind {
        9 => same(s, "rsa-import", &v, |k| (put::<1400>(k), k.len()), |(b, n), o| o.put(raw(&imported(rsa::SigningKey::from_pkcs1_der(&b[..*n]))))),
        10 => same(s, "rsa-export", &v, |k| (mk(k), [0; 1400]), |(k, b), o| o.put(k.to_pkcs1_der(b).unwrap())),
        _ => same(s, "rsa-export-pkcs8", &v, |k| (mk(k), [0; 1400]), |(k, b), o| o.put(k.to_pkcs8_der(b).unwrap())),
    }
}
fn rsa_keys(s: &mut Src) -> Vec<rsautil::Key> {
    let e = num_bigint::BigUint::from(65537u32);
    let ps: Vec<_> = rsautil::primes().iter().filter(|p| p.bits() == 1024).collect();
    let mut keys = Vec::new();
    while keys.len() < 2 {
        let (p, q) = (ps[s.idx(ps.len())], ps[s.idx(ps.len())]);
        if p <= q {
            continue;
        }
        if let Some(k) = rsautil::Key::new(p, q, &e) {
            if k.n.bits() == 2048 {
                keys.push(k);
            }
        }
    }
    keys
}

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        rule: "An operation with fixed public inputs and lengths is single-stepped with two or three secrets (random, all-zero, all-one, short, single-bit, edge scalars) held at the same addresses; non-trivial: all runs were stepped to the end and the traces compared.",
        assumptions: &["the trace holds instruction addresses, memory operand addresses and division operands; timing of other instructions is taken to be independent of their data"],
        subs: vec![
            Sub::new("rsa", rsa_sign, 2, 48),
            Sub::new("ecdsa-p384", ecdsa_p384, 4, 160),
            Sub::new("p384", p384_ops, 4, 240),
            Sub::new("p256", p256_ops, 16, 600),
            Sub::new("ecdsa-p256", ecdsa_p256, 12, 400),
            Sub::new("ed25519", ed25519_ops, 16, 400),
            Sub::new("x25519", x25519_ops, 18, 400),
            Sub::new("mlkem", kem, 24, 600),
            Sub::new("aead", aead, 48, 3000).all(),
            Sub::new("hmac", mac, 12, 1000).all(),
            Sub::new("hash", hashes, 28, 2000).all(),
        ],
    }
}
