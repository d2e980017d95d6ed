//! P-256 / P-384 key derivation and agreement
use super::ecutil::*;
use crate::engine::*;
use crate::rngshim;
use aws_lc_rs::agreement as ag;

fn public(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    let k = scalar(s, c);
    let kb = c.enc(&k);
    let want = c.point(&c.mul_g(&k));
    let key = match Static::from_bytes(ci, &kb) {
        Some(k) => k,
        None => return fail("import", format!("{} scalar {} refused", c.name, hex(&kb))),
    };
    ensure!(key.as_bytes() == kb, "export", "{} scalar {} exports as {}", c.name, hex(&kb), hex(&key.as_bytes()));
    let got = key.public();
    s.emit(&got);
    s.nontrivial();
    s.note(format!("{} k {}", c.name, hex(&kb)));
    ensure!(got == want, "public", "{} k {}: got {} want {}", c.name, hex(&kb), hex(&got), hex(&want));
    rngshim::script(&kb, rngshim::After::Fail);
    let e = Eph::random(ci);
    rngshim::reset();
    match e {
        Some(e) => ensure!(e.public() == want, "public-eph", "{} k {}: got {}", c.name, hex(&kb), hex(&e.public())),
        None => return fail("eph", format!("{} draw {} refused", c.name, hex(&kb))),
    }
    Ok(())
}
fn dh(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    let k = scalar(s, c);
    let kb = c.enc(&k);
    let q = point(s, c);
    let qb = c.point(&q);
    let want = c.enc(&c.mul(&k, &q).unwrap().0);
    let key = Static::from_bytes(ci, &kb);
    let peer = Public::from(ci, &qb);
    s.nontrivial();
    s.note(format!("{} k {} Q {}", c.name, hex(&kb), hex(&qb)));
    let (key, peer) = match (key, peer) {
        (Some(k), Some(p)) => (k, p),
        _ => return fail("import", format!("{} k {} or Q {} refused", c.name, hex(&kb), hex(&qb))),
    };
    ensure!(peer.bytes() == qb, "export-pub", "{} Q {} exports as {}", c.name, hex(&qb), hex(&peer.bytes()));
    let got = key.dh(&peer);
    s.emit(&got.clone().unwrap_or_default());
    ensure!(got.as_ref() == Some(&want), "dh", "{} k {} Q {}: got {:?} want {}", c.name, hex(&kb), hex(&qb), got.map(|x| hex(&x)), hex(&want));
    // a second use of the static key gives the same
    let again = key.dh(&peer);
    ensure!(again.as_ref() == Some(&want), "dh-again", "{} second use differs", c.name);
    rngshim::script(&kb, rngshim::After::Fail);
    let e = Eph::random(ci);
    rngshim::reset();
    match e {
        Some(e) => {
            let g = e.dh(&peer);
            ensure!(g.as_ref() == Some(&want), "dh-eph", "{} k {} Q {}: ephemeral got {:?}", c.name, hex(&kb), hex(&qb), g.map(|x| hex(&x)));
        }
        None => return fail("eph", format!("{} draw {} refused", c.name, hex(&kb))),
    }
    Ok(())
}
fn dh_fast(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    let alg = if ci == 0 { &ag::ECDH_P256 } else { &ag::ECDH_P384 };
    let a = c.enc(&scalar(s, c));
    let b = c.enc(&scalar(s, c));
    s.nontrivial();
    s.note(format!("{} a {} b {}", c.name, hex(&a), hex(&b)));
    let (ka, kb) = match (Static::from_bytes(ci, &a), Static::from_bytes(ci, &b)) {
        (Some(x), Some(y)) => (x, y),
        _ => return fail("import", format!("{} scalar refused: {} {}", c.name, hex(&a), hex(&b))),
    };
    let ra = ag::PrivateKey::from_private_key(alg, &a).unwrap();
    let want_pub = ra.compute_public_key().unwrap();
    ensure!(ka.public() == want_pub.as_ref(), "public-fast", "{} a {}: got {}", c.name, hex(&a), hex(&ka.public()));
    let (pa, pb) = match (Public::from(ci, &ka.public()), Public::from(ci, &kb.public())) {
        (Some(x), Some(y)) => (x, y),
        _ => return fail("own-public-refused", format!("{} a {} b {}", c.name, hex(&a), hex(&b))),
    };
    let want = ag::agree(&ra, ag::UnparsedPublicKey::new(alg, kb.public()), (), |x| Ok(x.to_vec())).ok();
    let x = ka.dh(&pb);
    let y = kb.dh(&pa);
    ensure!(x == want && want.is_some(), "dh-fast", "{} a {} b {}: got {:?} want {:?}", c.name, hex(&a), hex(&b), x.map(|v| hex(&v)), want.map(|v| hex(&v)));
    ensure!(x == y, "agree", "{} a {} b {}: sides disagree", c.name, hex(&a), hex(&b));
    Ok(())
}
/// the shared secret (an x-coordinate with words of zeros, ones or few bits) is chosen first and the
/// peer's point computed from it
fn chosen(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    let k = scalar(s, c);
    let shape: Vec<usize> = (0..c.len / 8).map(|_| s.weighted(&[3, 3, 2, 2])).collect();
    let mut seed = s.u64();
    let odd = s.bool();
    let mut t = None;
    for _ in 0..40 {
        let mut x = Vec::new();
        for sh in &shape {
            let r = splitmix(&mut seed);
            let v = match sh {
                0 => 0,
                1 => r,
                2 => !0,
                _ => 1u64 << (r % 64),
            };
            x.extend_from_slice(&v.to_be_bytes());
        }
        if !shape.contains(&1) {
            let at = 8 * (seed as usize % shape.len());
            x[at..at + 2].copy_from_slice(&(seed >> 40).to_le_bytes()[..2]);
        }
        let x = num_bigint::BigUint::from_bytes_be(&x);
        if x >= c.p {
            continue;
        }
        t = c.lift_x(&x, odd);
        if t.is_some() {
            break;
        }
    }
    if t.is_none() {
        s.note("no point with that shape found");
        return Ok(());
    }
    let q = c.mul(&c.ninv(&k), &t);
    let want = c.enc(&t.unwrap().0);
    let (kb, qb) = (c.enc(&k), c.point(&q));
    s.nontrivial();
    s.note(format!("{} k {} Q {} -> {}", c.name, hex(&kb), hex(&qb), hex(&want)));
    match (Static::from_bytes(ci, &kb), Public::from(ci, &qb)) {
        (Some(key), Some(peer)) => {
            let got = key.dh(&peer);
            ensure!(got.as_ref() == Some(&want), "chosen", "{} k {} Q {}: got {:?} want {}", c.name, hex(&kb), hex(&qb), got.map(|x| hex(&x)), hex(&want));
        }
        _ => return fail("import", format!("{} k {} or Q {} refused", c.name, hex(&kb), hex(&qb))),
    }
    Ok(())
}
/// small multiples and their negatives, all of them
fn small(s: &mut Src) -> R {
    let ci = (s.idx % 2) as usize;
    let c = curve(ci);
    let i = (s.idx / 2) % 600 + 1;
    let k = if (s.idx / 2) % 1200 >= 600 { &c.n - i } else { num_bigint::BigUint::from(i) };
    let kb = c.enc(&k);
    let want = c.mul_g(&k);
    let key = match Static::from_bytes(ci, &kb) {
        Some(k) => k,
        None => return fail("import", format!("{} scalar {} refused", c.name, hex(&kb))),
    };
    s.nontrivial();
    s.note(format!("{} k {}", c.name, hex(&kb)));
    ensure!(key.public() == c.point(&want), "public-small", "{} k {}", c.name, hex(&kb));
    let q = point(s, c);
    let peer = match Public::from(ci, &c.point(&q)) {
        Some(p) => p,
        None => return fail("import", "peer refused"),
    };
    let w = c.enc(&c.mul(&k, &q).unwrap().0);
    let g = key.dh(&peer);
    ensure!(g.as_ref() == Some(&w), "dh-small", "{} k {} Q {}: got {:?} want {}", c.name, hex(&kb), hex(&c.point(&q)), g.map(|x| hex(&x)), hex(&w));
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "Scalars near 0, n, n/k and powers of two, with constant or extreme recoding windows of every width 4..8, or random; peers by scalar or by extreme x-coordinate; every case is a full multiplication compared with a reference and counts once per distinct input.",
        assumptions: &["textbook affine/Jacobian arithmetic over big integers in the harness, and aws-lc-rs, are the references"],
        subs: vec![
            Sub::new("small", small, 2_400, 24_000),
            Sub::new("public", public, 20_000, 600_000),
            Sub::new("dh", dh, 14_000, 400_000),
            Sub::new("chosen", chosen, 6_000, 200_000),
            Sub::new("dh_fast", dh_fast, 40_000, 1_500_000),
        ],
    }
}
