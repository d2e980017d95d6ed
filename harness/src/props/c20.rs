//! C20: random failures and bad randomness never yield a usable weak result.
use super::ecdsautil::{self, SK};
use super::ecutil::{curve, Eph, Static};
use super::rsautil;
use crate::engine::*;
use crate::refs::{c25519, mlkem};
use crate::rngshim::{self, After};
use graviola::key_agreement::{mlkem768, x25519};
use graviola::signing::eddsa::Ed25519SigningKey;
use graviola::signing::rsa;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rustls::crypto::CryptoProvider;
use rustls::pki_types::{PrivateKeyDer, PrivatePkcs8KeyDer};
use std::sync::{Arc, OnceLock};

fn provider() -> &'static CryptoProvider {
    static P: OnceLock<CryptoProvider> = OnceLock::new();
    P.get_or_init(rustls_graviola::default_provider)
}
fn rsa_key() -> &'static rsa::SigningKey {
    static K: OnceLock<rsa::SigningKey> = OnceLock::new();
    K.get_or_init(|| {
        let p: Vec<&BigUint> = rsautil::primes().iter().filter(|p| p.bits() == 1024 && p.bit(1022)).collect();
        let k = rsautil::Key::new(p[0], p[1], &BigUint::from(65537u32)).unwrap();
        rsa::SigningKey::from_pkcs1_der(&k.private_der()).unwrap()
    })
}
fn tls_key(i: usize) -> Arc<dyn rustls::sign::SigningKey> {
    static K: OnceLock<Vec<Arc<dyn rustls::sign::SigningKey>>> = OnceLock::new();
    K.get_or_init(|| {
        let mut der = vec![];
        for ci in 0..2 {
            let k = SK::new(ci, &BigUint::from(0x1234567u32)).unwrap();
            let mut b = [0u8; 512];
            der.push(k.to(0, &mut b).unwrap());
        }
        let mut b = vec![0u8; 4096];
        der.push(rsa_key().to_pkcs8_der(&mut b).unwrap().to_vec());
        der.into_iter()
            .map(|d| provider().key_provider.load_private_key(PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(d))).unwrap())
            .collect()
    })[i]
        .clone()
}
/// X25519 and ML-KEM peers with fixed values
fn peer_x() -> [u8; 32] {
    c25519::x25519(&[0x42; 32], &{
        let mut b = [0; 32];
        b[0] = 9;
        b
    })
}
fn peer_ek() -> &'static Vec<u8> {
    static K: OnceLock<Vec<u8>> = OnceLock::new();
    K.get_or_init(|| mlkem::keygen(&[1; 32], &[2; 32]).0)
}
fn peer_ec(ci: usize) -> Vec<u8> {
    let c = curve(ci);
    c.point(&c.mul_g(&BigUint::from(0x77777u32)))
}

/// what one run of an operation gave: everything it handed out, or nothing
type Out = Option<Vec<u8>>;
pub const N: usize = 25;
pub fn op(which: usize, msg: &[u8]) -> Out {
    let kx = |i: usize| provider().kx_groups[i];
    Some(match which {
        0 => {
            let mut b = vec![0u8; 1 + msg.len()];
            graviola::random::fill(&mut b).ok()?;
            b
        }
        1 => {
            let mut b = vec![0u8; 1 + msg.len()];
            provider().secure_random.fill(&mut b).ok()?;
            b
        }
        2 => {
            let k = x25519::PrivateKey::new_random().ok()?;
            let p = k.public_key().as_bytes();
            let z = k.diffie_hellman(&x25519::PublicKey::try_from_slice(&peer_x()).ok()?).unwrap();
            [&p[..], &z.0[..]].concat()
        }
        3 => {
            let k = x25519::StaticPrivateKey::new_random().ok()?;
            [&k.as_bytes()[..], &k.public_key().as_bytes()[..]].concat()
        }
        4 | 5 => Eph::random(which - 4)?.public(),
        6 | 7 => {
            let k = Static::random(which - 6)?;
            [k.as_bytes(), k.public()].concat()
        }
        8 | 9 => {
            let k = SK::generate(which - 8)?;
            [k.d(), k.public()].concat()
        }
        10 => {
            let k = Ed25519SigningKey::generate().ok()?;
            let mut b = [0u8; 256];
            [k.to_pkcs8_der(&mut b).ok()?.to_vec(), k.sign(msg).to_vec()].concat()
        }
        11 => mlkem768::DecapKey::generate().ok()?.as_bytes().to_vec(),
        12 => {
            let ek: [u8; 1184] = peer_ek()[..].try_into().unwrap();
            let (k, c) = mlkem768::EncapKey::from_bytes(&ek).ok().unwrap().encaps().ok()?;
            [&k.as_ref()[..], &c.as_ref()[..]].concat()
        }
        13 | 14 => {
            let k = SK::new(which - 13, &BigUint::from(0xabcdefu32)).unwrap();
            let mut b = [0u8; 128];
            k.sign(which - 13, &[msg], &mut b).ok()?.to_vec()
        }
        15 => {
            let k = SK::new(msg.len() % 2, &BigUint::from(0xabcdefu32)).unwrap();
            let mut b = [0u8; 128];
            k.sign_asn1(msg.len() % 3, &[msg], &mut b).ok()?.to_vec()
        }
        16 => rsautil::sign(rsa_key(), true, msg.len() % 3, msg, &mut [0u8; 256])?,
        17 | 18 => {
            // one of the groups, as client
            let g = kx(msg.len() % 4);
            let k = g.start().ok()?;
            let p = k.pub_key().to_vec();
            let share = match msg.len() % 4 {
                0 => [&[7u8; 1088][..], &peer_x()[..]].concat(),
                1 => peer_x().to_vec(),
                n => peer_ec(n - 2),
            };
            let z = k.complete(&share).unwrap();
            [&p[..], z.secret_bytes()].concat()
        }
        19 | 20 => {
            let g = kx(msg.len() % 4);
            let share = match msg.len() % 4 {
                0 => [&peer_ek()[..], &peer_x()[..]].concat(),
                1 => peer_x().to_vec(),
                n => peer_ec(n - 2),
            };
            let r = g.start_and_complete(&share).ok()?;
            [&r.pub_key[..], r.secret.secret_bytes()].concat()
        }
        21 => {
            let t = rustls_graviola::Ticketer::new().ok()?;
            [t.encrypt(b"state")?, t.encrypt(b"state")?].concat()
        }
        22 => {
            // the ticketer itself comes from a good source; its tickets may not
            static T: OnceLock<Arc<dyn rustls::server::ProducesTickets>> = OnceLock::new();
            let t = T.get_or_init(|| {
                std::thread::spawn(|| rustls_graviola::Ticketer::new().unwrap()).join().unwrap()
            });
            let r = t.encrypt(&[msg, b"x"].concat())?;
            assert!(t.decrypt(&r) == Some([msg, b"x"].concat()));
            r
        }
        23 => {
            let i = msg.len() % 3;
            let k = tls_key(i);
            use rustls::SignatureScheme as S;
            k.choose_scheme(&[[S::ECDSA_NISTP256_SHA256, S::ECDSA_NISTP384_SHA384, S::RSA_PSS_SHA384][i]]).unwrap().sign(msg).ok()?
        }
        _ => {
            let k = rsa::SigningKey::generate(rsa::KeySize::Rsa2048).ok()?;
            let mut b = vec![0u8; 4096];
            k.to_pkcs1_der(&mut b).ok()?.to_vec()
        }
    })
}
pub const NAMES: [&str; N] = [
    "random::fill", "SecureRandom::fill", "x25519 ephemeral", "x25519 static", "p256 ephemeral", "p384 ephemeral", "p256 static", "p384 static",
    "ecdsa p256 generate", "ecdsa p384 generate", "ed25519 generate", "mlkem generate", "mlkem encaps", "ecdsa p256 sign", "ecdsa p384 sign",
    "ecdsa sign_asn1", "rsa pss sign", "kx start", "kx start", "kx start_and_complete", "kx start_and_complete", "ticketer", "ticket", "tls signer", "rsa generate",
];
fn run(which: usize, msg: &[u8]) -> Result<Out, Fail> {
    no_panic(|| op(which, msg)).map_err(|p| {
        rngshim::reset();
        Fail { key: format!("panic/{}", NAMES[which]), msg: format!("{} panicked: {p}", NAMES[which]) }
    })
}
fn choose(s: &mut Src) -> (usize, Vec<u8>) {
    let which = if s.one_in(60) { N - 1 } else { s.idx(N - 1) };
    let n = s.len(300);
    (which, s.bytes(n))
}
/// every single draw of every operation fails once, or the source dies there
fn failing(s: &mut Src) -> R {
    let (which, msg) = choose(s);
    let name = NAMES[which];
    let seed = s.u64();
    rngshim::prng(&[], seed);
    let base = run(which, &msg)?;
    let draws = rngshim::calls().len();
    let total = rngshim::consumed();
    rngshim::reset();
    ensure!(base.is_some(), format!("refused/{name}"), "{name} fails with a working source (seed {seed:x}, message of {} bytes)", msg.len());
    ensure!(draws > 0, format!("no-draw/{name}"), "{name} does not use the random source");
    s.nontrivial();
    s.note(format!("{name}: {draws} draws, {total} bytes"));
    let picks: Vec<usize> = if draws <= 12 {
        (0..draws).collect()
    } else {
        let mut v: Vec<usize> = (0..3).map(|_| s.idx(draws)).collect();
        v.push(draws - 1);
        v
    };
    for i in picks {
        let errno = *s.pick(&[libc::EIO, libc::EAGAIN, libc::ENOSYS, libc::EPERM, libc::EFAULT, libc::EINVAL]);
        rngshim::prng(&[], seed);
        rngshim::errno(errno);
        // the failing draw may already have delivered part of its bytes
        let chunk = if which < N - 1 && s.bool() { s.range(1, 20) } else { 0 };
        if chunk > 0 {
            rngshim::choppy(chunk, false);
        }
        let dead = s.bool();
        if dead {
            // all draws from byte position onwards fail
            let at = if total > 1 { s.range(1, total - 1) } else { 1 };
            rngshim::limit(at);
            if total == 1 {
                rngshim::script(&[], After::Fail);
            }
        } else {
            rngshim::fail_at(i);
        }
        let r = run(which, &msg)?;
        let failed = rngshim::failed();
        rngshim::reset();
        ensure!(failed > 0, "harness", "{name}: planned failure did not happen (draw {i}, dead {dead}, chunk {chunk})");
        ensure!(
            r.is_none(),
            format!("ignored/{name}"),
            "{name} gave a result although the random source failed (draw {i} of {draws}, errno {errno}, dead={dead}, seed {seed:x}): {}",
            hexs(&r.unwrap())
        );
    }
    // and nothing lingers: the next use with a working source succeeds
    rngshim::prng(&[], seed);
    let again = run(which, &msg)?;
    rngshim::reset();
    ensure!(again.is_some(), format!("stuck/{name}"), "{name} keeps failing after the source has recovered");
    ensure!(which == 22 || again == base, format!("history/{name}"), "{name}: earlier failures changed the result");
    Ok(())
}
/// the result is a function of the bytes drawn, and of all of them
fn function(s: &mut Src) -> R {
    let (which, msg) = choose(s);
    let name = NAMES[which];
    let seed = s.u64();
    rngshim::prng(&[], seed);
    rngshim::keep();
    let a = run(which, &msg)?;
    let stream = rngshim::history().concat();
    rngshim::reset();
    ensure!(a.is_some(), format!("refused/{name}"), "{name} fails with a working source (seed {seed:x})");
    s.nontrivial();
    s.note(format!("{name}: {} bytes drawn", stream.len()));
    // the same bytes in other portions
    rngshim::prng(&[], seed);
    rngshim::choppy(s.range(0, 40), s.bool());
    let b = run(which, &msg)?;
    rngshim::reset();
    ensure!(a == b, format!("portions/{name}"), "{name}: same random bytes read in other portions give another result (seed {seed:x})");
    if which == N - 1 {
        return Ok(());
    }
    // no byte drawn is without effect
    let n = stream.len();
    let tries: Vec<usize> = if n <= 100 { (0..n).collect() } else { (0..40).map(|_| s.idx(n)).collect() };
    for i in tries {
        let mut d = stream.clone();
        d[i] ^= 8;
        rngshim::prng(&d, seed);
        let c = run(which, &msg)?;
        rngshim::reset();
        ensure!(c.is_some(), format!("refused/{name}"), "{name} fails with a working source: {}", hexs(&d));
        ensure!(c != a, format!("ignored-byte/{name}"), "{name}: random byte {i} of {n} has no effect on the result (seed {seed:x})");
    }
    Ok(())
}
fn ec_op(which: usize, ci: usize) -> Option<(Option<Vec<u8>>, Vec<u8>)> {
    Some(match which {
        0 => (None, Eph::random(ci)?.public()),
        1 => {
            let k = Static::random(ci)?;
            (Some(k.as_bytes()), k.public())
        }
        2 => {
            let k = SK::generate(ci)?;
            (Some(k.d()), k.public())
        }
        _ => (None, provider().kx_groups[2 + ci].start().ok()?.pub_key().to_vec()),
    })
}
/// a value that is no private key
fn bad(s: &mut Src, ci: usize) -> BigUint {
    let c = curve(ci);
    let top = BigUint::one() << (8 * c.len);
    let span = &top - &c.n;
    match s.idx(6) {
        0 => BigUint::zero(),
        1 => c.n.clone(),
        2 => &c.n + 1u32,
        3 => top - 1u32,
        4 => &c.n + BigUint::from_bytes_be(&s.bytes(c.len)) % span,
        _ => {
            // differs from n in one place, upwards
            let mut v = c.n.clone();
            let i = s.idx(8 * c.len) as u64;
            v.set_bit(i, true);
            if v < c.n || v >= top {
                c.n.clone()
            } else {
                v
            }
        }
    }
}
/// elliptic-curve keys: unusable draws are thrown away whole, the first usable one is the key
fn rejection(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    let which = s.idx(4);
    let k = match s.idx(3) {
        0 => 0,
        1 => s.range(1, 4),
        _ => s.range(1, 12),
    };
    let mut data = vec![];
    for _ in 0..k {
        data.extend(c.enc(&bad(s, ci)));
    }
    let good = super::ecutil::scalar(s, c);
    data.extend(c.enc(&good));
    s.nontrivial();
    s.label(if k == 0 { "first draw good" } else { "bad draws first" });
    s.note(format!("{} op {which}: {k} unusable draws then {}", c.name, hexs(&c.enc(&good))));
    // draws after the good one are there, and are not to be touched
    rngshim::prng(&data, s.u64());
    let r = no_panic(|| ec_op(which, ci));
    rngshim::reset();
    let r = match r {
        Ok(x) => x,
        Err(p) => return fail("panic", format!("{} generation panicked after {k} unusable draws: {p}", c.name)),
    };
    let Some((d, q)) = r else {
        return fail("gave-up", format!("{} generation gave up after {k} unusable draws", c.name));
    };
    if let Some(d) = d {
        ensure!(d == c.enc(&good), "wrong-key", "{} op {which} after {k} unusable draws: key {} is not the first usable draw {}; draws {}", c.name, hex(&d), hex(&c.enc(&good)), hexs(&data));
    }
    ensure!(q == c.point(&c.mul_g(&good)), "wrong-public", "{} op {which} after {k} unusable draws: public key {} does not belong to the first usable draw {}", c.name, hex(&q), hex(&c.enc(&good)));
    s.emit(&q);
    Ok(())
}
/// sources that never give a usable value end in an error
fn hopeless(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    let which = s.idx(4);
    let n = s.range(1, 5);
    let mut data = vec![];
    for _ in 0..n {
        data.extend(c.enc(&bad(s, ci)));
    }
    s.nontrivial();
    s.note(format!("{} op {which}: {n} unusable values for ever", c.name));
    rngshim::script(&data, After::Cycle);
    // far beyond any sensible number of attempts: an endless loop is cut off here
    rngshim::limit(c.len * 200_000);
    let r = no_panic(|| ec_op(which, ci));
    let hung = rngshim::failed() > 0;
    rngshim::reset();
    let r = match r {
        Ok(x) => x,
        Err(p) => return fail("panic", format!("{} generation panicked: {p}", c.name)),
    };
    ensure!(r.is_none(), "weak-key", "{} generation made a key from a source that only gives {}: {}", c.name, hexs(&data), hexs(&r.unwrap().1));
    ensure!(!hung, "endless", "{} generation does not stop with a source that only gives {}", c.name, hexs(&data));
    Ok(())
}
/// keys that take any draw: they are exactly the bytes drawn
fn exact(s: &mut Src) -> R {
    let which = s.idx(6);
    let d: [u8; 32] = match s.idx(4) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => s.edgy(),
        _ => s.arr(),
    };
    let z: [u8; 32] = s.barr();
    s.nontrivial();
    s.note(format!("op {which} draw {}", hexs(&d)));
    let mut nine = [0u8; 32];
    nine[0] = 9;
    let mut stream = d.to_vec();
    stream.extend(z);
    rngshim::prng(&stream, s.u64());
    let e = |w: &str| Fail { key: format!("refused/{w}"), msg: format!("{w} refuses draw {}", hex(&d)) };
    match which {
        0 => {
            let k = x25519::StaticPrivateKey::new_random().map_err(|_| e("x25519"))?;
            let p = k.public_key().as_bytes();
            let b = k.as_bytes();
            rngshim::reset();
            let clamp = |mut x: [u8; 32]| {
                x[0] &= 248;
                x[31] = (x[31] & 127) | 64;
                x
            };
            ensure!(clamp(b) == clamp(d), "x25519-key", "x25519 key {} is not the draw {}", hex(&b), hex(&d));
            ensure!(p == c25519::x25519(&d, &nine), "x25519-public", "x25519 public key for draw {}", hex(&d));
        }
        1 => {
            let k = x25519::PrivateKey::new_random().map_err(|_| e("x25519 ephemeral"))?;
            rngshim::reset();
            ensure!(k.public_key().as_bytes() == c25519::x25519(&d, &nine), "x25519-eph", "x25519 ephemeral key for draw {}", hex(&d));
        }
        2 => {
            let k = Ed25519SigningKey::generate().map_err(|_| e("ed25519"))?;
            rngshim::reset();
            ensure!(k.public_key().as_bytes()[..] == c25519::ed_public(&d)[..], "ed25519-key", "Ed25519 key for draw {}", hex(&d));
            ensure!(k.sign(b"m") == c25519::ed_sign(&d, b"m"), "ed25519-sig", "Ed25519 signature with key drawn as {}", hex(&d));
        }
        3 => {
            let k = mlkem768::DecapKey::generate().map_err(|_| e("mlkem"))?;
            rngshim::reset();
            ensure!(k.as_bytes()[..] == mlkem::keygen(&d, &z).1[..], "mlkem-key", "ML-KEM key for d={} z={}", hex(&d), hex(&z));
        }
        4 => {
            let ek: [u8; 1184] = peer_ek()[..].try_into().unwrap();
            let (k, c) = mlkem768::EncapKey::from_bytes(&ek).ok().unwrap().encaps().map_err(|_| e("encaps"))?;
            rngshim::reset();
            let (rk, rc) = mlkem::encaps(peer_ek(), &d);
            ensure!(k.as_ref()[..] == rk[..] && c.as_ref()[..] == rc[..], "mlkem-encaps", "ML-KEM encapsulation for m={}", hex(&d));
        }
        _ => {
            let n = s.range(0, 64);
            let mut b = vec![0u8; n];
            let ok = if s.bool() { graviola::random::fill(&mut b).is_ok() } else { provider().secure_random.fill(&mut b).is_ok() };
            rngshim::reset();
            ensure!(ok && b == stream[..n], "fill", "fill of {n} bytes gave {} for {}", hex(&b), hex(&stream));
        }
    }
    Ok(())
}
/// ECDSA inputs, found by search, whose first nonce candidate is not below the group order
fn rare_nonce(s: &mut Src) -> R {
    let rows: Vec<Vec<&str>> = include_str!("../../data/rare_nonce.txt").lines().map(|l| l.split_whitespace().collect()).collect();
    let row = s.pick(&rows);
    let d = BigUint::from_bytes_be(&ecdsautil::hash(0, b"rare nonce key"));
    let m = b"rare nonce message";
    let rnd = unhex(row[0]);
    let cand = BigUint::from_bytes_be(&unhex(row[1]));
    let c = curve(0);
    let k = SK::new(0, &d).unwrap();
    s.nontrivial();
    s.note(format!("randomizer {}", row[0]));
    let asn1 = s.bool();
    rngshim::prng(&rnd, s.u64());
    let mut b = [0u8; 128];
    let sig = if asn1 { k.sign_asn1(0, &[m], &mut b) } else { k.sign(0, &[m], &mut b) };
    let sig = sig.map(|x| x.to_vec());
    rngshim::reset();
    let Ok(sig) = sig else {
        return fail("nonce-refused", format!("signing failed: {sig:?}"));
    };
    let (r, t) = if asn1 {
        match ecdsautil::parse_der_sig(&sig) {
            Some(x) => x,
            None => return fail("nonce-encoding", format!("signature {}", hex(&sig))),
        }
    } else {
        (BigUint::from_bytes_be(&sig[..32]), BigUint::from_bytes_be(&sig[32..]))
    };
    let e = c.bits2int(&ecdsautil::hash(0, m)) % &c.n;
    ensure!(c.ecdsa_verify(&c.mul_g(&d), &ecdsautil::hash(0, m), &r, &t), "nonce-invalid", "signature {} does not verify", hex(&sig));
    let nonce = (e + &r * &d) * c.ninv(&t) % &c.n;
    let alt = &c.n - &nonce;
    let red = &cand % &c.n;
    ensure!(
        nonce != red && alt != red && nonce.bits() > 200 && alt.bits() > 200,
        "nonce-reduced",
        "nonce {nonce:x} comes from reducing the out-of-range candidate {cand:x} (randomizer {})",
        row[0]
    );
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "an operation was run to its end against a scripted, failing or seeded random source",
        assumptions: &["the random source is interposed at getrandom(2), where the getrandom crate ends"],
        subs: vec![
            Sub::new("failing", failing, 4000, 400_000),
            Sub::new("function", function, 1500, 150_000),
            Sub::new("rejection", rejection, 3000, 300_000),
            Sub::new("hopeless", hopeless, 800, 50_000),
            Sub::new("exact", exact, 4000, 400_000),
            Sub::new("rare-nonce", rare_nonce, 40, 400),
        ],
    }
}
