//! X25519
use crate::engine::*;
use crate::refs::c25519;
use crate::rngshim;
use aws_lc_rs::agreement as ag;
use graviola::key_agreement::x25519::*;
use num_bigint::BigUint;
use num_traits::One;

pub fn peer(s: &mut Src) -> [u8; 32] {
    let p = c25519::p();
    let mut v = match s.weighted(&[2, 5, 3, 3, 3, 3]) {
        0 => {
            let mut b = [0; 32];
            b[0] = s.u8();
            b
        }
        1 => s.barr(),
        2 => s.edgy(),
        3 => {
            // around p, 2p and 2^255
            let d = s.below(40);
            let base = match s.idx(3) {
                0 => p.clone(),
                1 => (BigUint::one() << 255) - 1u32,
                _ => p * 2u32,
            };
            let x = if s.bool() { base + d } else { base - d };
            let x = x % (BigUint::one() << 256);
            c25519::le32(&x)
        }
        4 => {
            // low order points and their non-canonical forms
            let low = ["0000000000000000000000000000000000000000000000000000000000000000",
                "0100000000000000000000000000000000000000000000000000000000000000",
                "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
                "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
                "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
                "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
                "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"];
            s.label("low-order");
            unhex(s.pick(&low)).try_into().unwrap()
        }
        _ => {
            let k: [u8; 32] = s.barr();
            let mut nine = [0; 32];
            nine[0] = 9;
            c25519::x25519(&k, &nine)
        }
    };
    if s.one_in(4) {
        v[31] ^= 0x80;
        s.label("high-bit-set");
    }
    v
}
pub fn private(s: &mut Src) -> [u8; 32] {
    match s.idx(3) {
        0 => s.barr(),
        1 => s.edgy(),
        _ => {
            // scalars that differ from extremes only by clamped bits
            let mut b = *s.pick(&[[0u8; 32], [0xffu8; 32]]);
            b[0] ^= s.u8();
            b[31] ^= s.u8();
            let i = s.idx(32);
            b[i] ^= s.u8();
            b
        }
    }
}
pub fn aws(k: &[u8; 32], p: &[u8; 32]) -> Option<Vec<u8>> {
    let k = ag::PrivateKey::from_private_key(&ag::X25519, k).ok()?;
    ag::agree(&k, ag::UnparsedPublicKey::new(&ag::X25519, p), (), |x| Ok(x.to_vec())).ok()
}
fn dh(s: &mut Src) -> R {
    let k = private(s);
    let p = peer(s);
    let want = c25519::x25519(&k, &p);
    let key = StaticPrivateKey::from_array(&k);
    ensure!(key.as_bytes() == k, "export", "private key {} exports as {}", hex(&k), hex(&key.as_bytes()));
    let key2 = match StaticPrivateKey::try_from_slice(&k) {
        Ok(k) => k,
        Err(e) => return fail("import", format!("private key refused: {e:?}")),
    };
    ensure!(key2.as_bytes() == k, "export-slice", "private key {}", hex(&k));
    let peerk = PublicKey::from_array(&p);
    let peerk2 = match PublicKey::try_from_slice(&p) {
        Ok(k) => k,
        Err(e) => return fail("import-pub", format!("peer {} refused: {e:?}", hex(&p))),
    };
    ensure!(peerk.as_bytes() == p && peerk2.as_bytes() == p, "export-pub", "peer {} exports as {}", hex(&p), hex(&peerk.as_bytes()));
    let got = key.diffie_hellman(&peerk).map(|x| x.as_bytes());
    // the one-shot key, made from scripted randomness
    rngshim::script(&k, rngshim::After::Fail);
    let e = PrivateKey::new_random();
    rngshim::reset();
    let got2 = match e {
        Ok(e) => e.diffie_hellman(&peerk2).map(|x| x.0),
        Err(e) => return fail("eph", format!("{e:?}")),
    };
    s.note(format!("k {} u {} -> {}", hex(&k), hex(&p), hex(&want)));
    s.nontrivial();
    s.emit(&got.as_ref().map(|x| x.to_vec()).unwrap_or_default());
    if want == [0; 32] {
        s.label("zero-result");
        ensure!(got.is_err(), "zero-accepted", "all-zero result returned for k {} u {}", hex(&k), hex(&p));
        ensure!(got2.is_err(), "zero-accepted-eph", "all-zero result returned for k {} u {}", hex(&k), hex(&p));
    } else {
        match got {
            Ok(g) => ensure!(g == want, "dh", "k {} u {}: got {} want {}", hex(&k), hex(&p), hex(&g), hex(&want)),
            Err(e) => return fail("dh-error", format!("k {} u {}: {e:?}", hex(&k), hex(&p))),
        }
        match got2 {
            Ok(g) => ensure!(g == want, "dh-eph", "k {} u {}: got {} want {}", hex(&k), hex(&p), hex(&g), hex(&want)),
            Err(e) => return fail("dh-eph-error", format!("k {} u {}: {e:?}", hex(&k), hex(&p))),
        }
    }
    Ok(())
}
/// cheaper oracle, more cases
fn dh_fast(s: &mut Src) -> R {
    let k = private(s);
    let p = peer(s);
    let want = aws(&k, &p);
    let got = StaticPrivateKey::from_array(&k).diffie_hellman(&PublicKey::from_array(&p)).ok().map(|x| x.as_bytes().to_vec());
    s.nontrivial();
    s.note(format!("k {} u {}", hex(&k), hex(&p)));
    ensure!(got == want, "dh-fast", "k {} u {}: got {:?} want {:?}", hex(&k), hex(&p), got.map(|x| hex(&x)), want.map(|x| hex(&x)));
    Ok(())
}
/// the shared secret is chosen first (words of zeros, ones or few bits), and the peer value computed
/// from it, so that conditions on the result itself are reached
fn chosen(s: &mut Src) -> R {
    let k = private(s);
    let mut kc = k;
    kc[0] &= 248;
    kc[31] &= 127;
    kc[31] |= 64;
    let kc = BigUint::from_bytes_le(&kc);
    let shape: Vec<usize> = (0..4).map(|_| s.weighted(&[3, 3, 2, 2])).collect();
    let mut seed = s.u64();
    let twist = c25519::twist_order();
    let mut found = None;
    for _ in 0..60 {
        let mut t = [0u8; 32];
        for (w, sh) in t.chunks_mut(8).zip(&shape) {
            let r = splitmix(&mut seed);
            let v = match sh {
                0 => 0,
                1 => r,
                2 => !0,
                _ => 1u64 << (r % 64),
            };
            w.copy_from_slice(&v.to_le_bytes());
        }
        // keep one word free so that the search can succeed
        if !shape.contains(&1) {
            let at = 8 * (seed % 4) as usize;
            t[at..at + 2].copy_from_slice(&(seed >> 40).to_le_bytes()[..2]);
        }
        t[31] &= 127;
        let u = BigUint::from_bytes_le(&t);
        if &u >= c25519::p() {
            continue;
        }
        for order in [c25519::order(), &twist] {
            if c25519::ladder(order, &u).is_none() && u > BigUint::one() {
                found = Some((u.clone(), order.clone()));
                break;
            }
        }
        if found.is_some() {
            break;
        }
    }
    let Some((u, order)) = found else {
        s.note("no point with that shape found");
        return Ok(());
    };
    let kinv = kc.modinv(&order).unwrap();
    let peer = c25519::le32(&c25519::ladder(&kinv, &u).unwrap());
    let want = c25519::le32(&u);
    s.nontrivial();
    s.note(format!("k {} u {} -> {}", hex(&k), hex(&peer), hex(&want)));
    if want.chunks(8).any(|w| w == [0; 8]) {
        s.label("zero-word-in-result");
    }
    let key = StaticPrivateKey::from_array(&k);
    match key.diffie_hellman(&PublicKey::from_array(&peer)) {
        Ok(g) => ensure!(g.as_bytes() == want, "chosen", "k {} u {}: got {} want {}", hex(&k), hex(&peer), hex(&g.as_bytes()), hex(&want)),
        Err(e) => return fail("chosen-error", format!("k {} u {}: {e:?}, want {}", hex(&k), hex(&peer), hex(&want))),
    }
    Ok(())
}
fn base(s: &mut Src) -> R {
    let k = private(s);
    let mut nine = [0; 32];
    nine[0] = 9;
    let want = if s.one_in(8) {
        c25519::x25519(&k, &nine)
    } else {
        ag::PrivateKey::from_private_key(&ag::X25519, &k).unwrap().compute_public_key().unwrap().as_ref().try_into().unwrap()
    };
    let got = StaticPrivateKey::from_array(&k).public_key().as_bytes();
    s.nontrivial();
    s.emit(&got);
    s.note(format!("k {} -> {}", hex(&k), hex(&want)));
    ensure!(got == want, "base", "k {}: got {} want {}", hex(&k), hex(&got), hex(&want));
    rngshim::script(&k, rngshim::After::Fail);
    let e = PrivateKey::new_random();
    rngshim::reset();
    match e {
        Ok(e) => ensure!(e.public_key().as_bytes() == want, "base-eph", "k {}", hex(&k)),
        Err(e) => return fail("eph", format!("{e:?}")),
    }
    Ok(())
}
fn agree(s: &mut Src) -> R {
    let a = StaticPrivateKey::from_array(&private(s));
    let b = StaticPrivateKey::from_array(&private(s));
    let x = a.diffie_hellman(&b.public_key()).ok().map(|x| x.as_bytes());
    let y = b.diffie_hellman(&a.public_key()).ok().map(|x| x.as_bytes());
    s.nontrivial();
    s.note(format!("a {} b {}", hex(&a.as_bytes()), hex(&b.as_bytes())));
    ensure!(x == y && x.is_some(), "agree", "a {} b {}: {x:?} {y:?}", hex(&a.as_bytes()), hex(&b.as_bytes()));
    Ok(())
}
fn lengths(s: &mut Src) -> R {
    let n = s.idx(70);
    let b = s.blob(n);
    let a = StaticPrivateKey::try_from_slice(&b).is_ok();
    let c = PublicKey::try_from_slice(&b).is_ok();
    if n != 32 {
        s.nontrivial();
    }
    s.note(format!("{n}-byte key"));
    ensure!(a == (n == 32) && c == (n == 32), "length", "{n}-byte key accepted: private {a} public {c}");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "Private keys and peer values with edge structure (words of zeros/ones, neighbourhoods of p, 2p and 2^255, low-order values and their non-canonical forms, high bit set), and shared secrets with chosen words from which the peer value is computed; every case runs a full scalar multiplication compared with a reference; all are non-trivial, counted once per distinct input.",
        assumptions: &["an RFC 7748 ladder over big integers in the harness, and aws-lc-rs, are the references"],
        subs: vec![
            Sub::new("dh", dh, 12_000, 400_000),
            Sub::new("dh_fast", dh_fast, 80_000, 3_000_000),
            Sub::new("chosen", chosen, 3_000, 100_000),
            Sub::new("base", base, 40_000, 1_000_000),
            Sub::new("agree", agree, 20_000, 500_000),
            Sub::new("lengths", lengths, 2_000, 20_000),
        ],
    }
}
