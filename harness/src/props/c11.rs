//! ECDSA signing
use super::ecdsautil::*;
use super::ecutil::{curve, scalar};
use crate::engine::*;
use crate::refs::ec::{be, Curve};
use crate::rngshim::{self, After};
use num_bigint::BigUint;
use num_traits::Zero;

fn check_sig(c: &Curve, ci: usize, h: usize, q: &[u8], qp: &crate::refs::ec::Pt, m: &[u8], sig: &[u8], asn1: bool) -> Result<(BigUint, BigUint), Fail> {
    let (r, t) = if asn1 {
        match parse_der_sig(sig) {
            Some(x) => x,
            None => return fail("asn1-encoding", format!("{} hash {h}: signature {} is not canonical DER", c.name, hex(sig))),
        }
    } else {
        ensure!(sig.len() == 2 * c.len, "fixed-length", "{} fixed signature has {} bytes", c.name, sig.len());
        (BigUint::from_bytes_be(&sig[..c.len]), BigUint::from_bytes_be(&sig[c.len..]))
    };
    ensure!(c.ecdsa_verify(qp, &hash(h, m), &r, &t), "bad-signature", "{} hash {h}: signature {} for message {} does not verify under {}", c.name, hex(sig), hex(m), hex(q));
    if let Some(ok) = awslc(ci, h, asn1, q, m, sig) {
        ensure!(ok, "awslc-rejects", "aws-lc rejects {}", hex(sig));
    }
    Ok((r, t))
}
fn do_sign(sk: &SK, h: usize, parts: &[&[u8]], asn1: bool) -> Option<Vec<u8>> {
    let mut buf = [0u8; 128];
    let r = if asn1 { sk.sign_asn1(h, parts, &mut buf) } else { sk.sign(h, parts, &mut buf) };
    r.ok().map(|s| s.to_vec())
}
fn sign(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    let h = s.idx(3);
    let d = scalar(s, c);
    let Some(sk) = SK::new(ci, &d) else {
        return fail("key-refused", "private key in range refused");
    };
    let qp = c.mul_g(&d);
    let q = c.point(&qp);
    let m = message(s);
    let parts = s.partition(m.len());
    let mp = pieces(&m, &parts);
    let asn1 = s.bool();
    let seed = s.u64();
    rngshim::prng(&[], seed);
    s.nontrivial();
    s.note(format!("{} hash{h} asn1={asn1} d={} msg {} bytes", c.name, hexs(&c.enc(&d)), m.len()));
    let Some(sig) = do_sign(&sk, h, &mp, asn1) else {
        return fail("sign-failed", format!("{} signing failed for d={} msg={}", c.name, hex(&c.enc(&d)), hex(&m)));
    };
    check_sig(c, ci, h, &q, &qp, &m, &sig, asn1)?;
    // own verification agrees
    let vk = VK::new(ci, &q).unwrap();
    let ok = if asn1 { vk.verify_asn1(h, &[&m], &sig) } else { vk.verify(h, &[&m], &sig) };
    ensure!(ok, "own-verify", "own verification rejects own signature {}", hex(&sig));
    // output buffer of every size: an error or the whole signature, nothing beyond touched
    let sz = s.idx(sig.len() + 20);
    let mut buf = vec![0xa5u8; sz];
    let got = if asn1 { sk.sign_asn1(h, &mp, &mut buf) } else { sk.sign(h, &mp, &mut buf) };
    match got {
        Ok(x) => {
            let x = x.to_vec();
            check_sig(c, ci, h, &q, &qp, &m, &x, asn1)?;
            ensure!(buf[..x.len()] == x[..], "span", "returned span is not the buffer's prefix");
            if !asn1 {
                ensure!(buf[x.len()..].iter().all(|b| *b == 0xa5), "overrun", "bytes after the signature were changed");
            }
        }
        Err(_) => {
            let max = if asn1 { sig.len() } else { 2 * c.len };
            // DER lengths vary by a few bytes between signatures
            ensure!(sz < max + if asn1 { 8 } else { 0 }, "short-buffer", "buffer of {sz} bytes refused");
            s.label("short-buffer");
        }
    }
    Ok(())
}
fn nonce(c: &Curve, d: &BigUint, h: usize, m: &[u8], r: &BigUint, t: &BigUint) -> BigUint {
    let e = c.bits2int(&hash(h, m)) % &c.n;
    (e + r * d) * c.ninv(t) % &c.n
}
/// families of signatures sharing all but one of (key, message, hash, random bytes)
fn nonces(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    let h = s.idx(3);
    let d = scalar(s, c);
    let m = message(s);
    let base: Vec<u8> = match s.idx(4) {
        0 => vec![0; 16],
        1 => vec![0xff; 16],
        _ => s.bytes(16),
    };
    s.nontrivial();
    struct V {
        what: String,
        d: BigUint,
        h: usize,
        m: Vec<u8>,
        rnd: Vec<u8>,
    }
    let mk = |what: &str| V { what: what.to_string(), d: d.clone(), h, m: m.clone(), rnd: base.clone() };
    let mut vs = vec![mk("base")];
    for _ in 0..3 {
        let mut v = mk("message");
        match s.idx(4) {
            0 => v.m.push(s.u8()),
            1 if !v.m.is_empty() => {
                let i = s.idx(v.m.len());
                v.m[i] ^= 1 << s.idx(8);
            }
            2 if !v.m.is_empty() => {
                v.m.pop();
            }
            _ => v.m.insert(0, s.u8()),
        }
        vs.push(v);
    }
    for _ in 0..2 {
        let mut v = mk("key");
        v.d = match s.idx(3) {
            0 => &c.n - &d,
            1 => {
                let b = s.idx(c.n.bits() as usize - 1);
                let x = &d ^ (BigUint::from(1u32) << b);
                if x.is_zero() || x >= c.n {
                    scalar(s, c)
                } else {
                    x
                }
            }
            _ => scalar(s, c),
        };
        vs.push(v);
    }
    let mut v = mk("hash");
    v.h = (h + 1 + s.idx(2)) % 3;
    vs.push(v);
    // every byte of the randomness counts
    for i in 0..16 {
        let mut v = mk("random");
        v.rnd[i] ^= 1 << s.idx(8);
        v.what = format!("random byte {i}");
        vs.push(v);
    }
    let mut seen: Vec<(BigUint, usize)> = Vec::new();
    for (i, v) in vs.iter().enumerate() {
        let sk = match SK::new(ci, &v.d) {
            Some(k) => k,
            None => return fail("key-refused", "private key refused"),
        };
        let asn1 = s.bool();
        rngshim::script(&v.rnd, After::Cycle);
        let Some(sig) = do_sign(&sk, v.h, &[&v.m], asn1) else {
            return fail("sign-failed", format!("{} signing failed", c.name));
        };
        let used = rngshim::consumed();
        ensure!(used >= 16 || !v.what.starts_with("random"), "randomness-unused", "signing drew only {used} random bytes");
        let qp = c.mul_g(&v.d);
        let (r, t) = check_sig(c, ci, v.h, &c.point(&qp), &qp, &v.m, &sig, asn1)?;
        let k = nonce(c, &v.d, v.h, &v.m, &r, &t);
        for (k2, j) in &seen {
            let w = &vs[*j];
            let same = w.d == v.d && w.h == v.h && w.m == v.m && w.rnd == v.rnd;
            if same {
                continue;
            }
            ensure!(
                *k2 != k && k2 + &k != c.n,
                format!("nonce-reuse"),
                "{}: the same nonce {} (up to sign) was used for two signatures differing in: {} / {}; d={} msg={} / {}, random {} / {}",
                c.name, hex(&c.enc(&k)), vs[*j].what, v.what, hex(&c.enc(&v.d)), hex(&w.m), hex(&v.m), hex(&w.rnd), hex(&v.rnd)
            );
            // a linear relation with a small difference is as fatal as equality
            let diff = if *k2 > k { k2 - &k } else { &k - k2 };
            ensure!(diff.bits() as usize > c.len * 8 - 80 && (&c.n - &diff).bits() as usize > c.len * 8 - 80, "nonce-close", "{}: nonces {} and {} share their leading bits", c.name, hex(&c.enc(&k)), hex(&c.enc(k2)));
        }
        seen.push((k, i));
    }
    s.note(format!("{} hash{h} {} variants around d={} random={}", c.name, vs.len(), hexs(&c.enc(&d)), hexs(&base)));
    Ok(())
}
/// many signatures of one key: no nonce bit is constant, no block repeats
fn bias(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    let h = s.idx(3);
    let d = scalar(s, c);
    let sk = SK::new(ci, &d).unwrap();
    let seed = s.u64();
    let stuck = s.bool();
    s.nontrivial();
    let n = 64;
    let mut ones = vec![0u32; c.len * 8];
    let mut all = std::collections::HashSet::new();
    for i in 0..n {
        if stuck {
            rngshim::script(&[7; 16], After::Cycle);
        } else {
            rngshim::prng(&[], seed.wrapping_add(i));
        }
        // stuck source: messages vary; otherwise one message, randomness varies
        let m = if stuck { format!("{seed} {i}").into_bytes() } else { b"one message".to_vec() };
        let Some(sig) = do_sign(&sk, h, &[&m], false) else {
            return fail("sign-failed", "signing failed");
        };
        let r = BigUint::from_bytes_be(&sig[..c.len]);
        let t = BigUint::from_bytes_be(&sig[c.len..]);
        let k = nonce(c, &d, h, &m, &r, &t);
        let kb = be(&k, c.len);
        ensure!(c.mul_g(&k).map(|p| p.0 % &c.n) == Some(r), "nonce-extract", "r is not the x-coordinate of k*G");
        ensure!(all.insert(kb.clone()), "nonce-reuse", "{} nonce repeated within {n} signatures (stuck source: {stuck})", c.name);
        for w in kb.windows(16).step_by(8).collect::<Vec<_>>().chunks(1) {
            ensure!(w[0][..8] != w[0][8..], "nonce-block", "nonce {} repeats an 8-byte block", hex(&kb));
        }
        for b in 0..c.len * 8 {
            ones[b] += (kb[b / 8] >> (b % 8) & 1) as u32;
        }
    }
    for (b, o) in ones.iter().enumerate() {
        // both curve orders start with at least 32 one bits, so no position is naturally constant
        ensure!(*o != 0 && *o != n as u32, "nonce-bias", "{} hash {h}: bit {b} of the nonce was constant over {n} signatures", c.name);
    }
    s.note(format!("{} hash{h} stuck={stuck} 64 signatures", c.name));
    Ok(())
}
/// many signatures, looking for the rare ones whose numbers are short
fn encoding(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    let h = s.idx(3);
    let d = scalar(s, c);
    let sk = SK::new(ci, &d).unwrap();
    let m = s.bytes(8);
    let asn1 = !s.one_in(4);
    rngshim::prng(&[], s.u64());
    s.nontrivial();
    let n = 1200;
    let (mut short, mut very) = (0, 0);
    for _ in 0..n {
        let Some(sig) = do_sign(&sk, h, &[&m], asn1) else {
            return fail("sign-failed", "signing failed");
        };
        let (r, t) = if asn1 {
            match parse_der_sig(&sig) {
                Some(x) => x,
                None => return fail("asn1-encoding", format!("{} hash {h}: signature {} is not canonical DER", c.name, hex(&sig))),
            }
        } else {
            ensure!(sig.len() == 2 * c.len, "fixed-length", "{} fixed signature has {} bytes", c.name, sig.len());
            (BigUint::from_bytes_be(&sig[..c.len]), BigUint::from_bytes_be(&sig[c.len..]))
        };
        let gone = [&r, &t].iter().map(|x| c.len - (x.bits() as usize).div_ceil(8)).max().unwrap();
        if gone == 1 {
            short += 1;
        }
        // verify all of the rarest, and a few of the rare
        if gone >= 2 || (gone == 1 && short <= 2) {
            let qp = c.mul_g(&d);
            check_sig(c, ci, h, &c.point(&qp), &qp, &m, &sig, asn1)?;
            if gone >= 2 {
                very += 1;
                let vk = VK::new(ci, &c.point(&qp)).unwrap();
                ensure!(if asn1 { vk.verify_asn1(h, &[&m], &sig) } else { vk.verify(h, &[&m], &sig) }, "own-verify", "own verification rejects own signature {}", hex(&sig));
            }
        }
    }
    if short > 0 {
        s.label("a leading zero byte");
    }
    if very > 0 {
        s.label("two leading zero bytes");
    }
    s.note(format!("{} hash{h} asn1={asn1} {n} signatures, {short} with a leading zero byte, {very} with two", c.name));
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "Signatures by generated edge-structured keys over generated messages, in pieces and both encodings, checked by a big-integer reference and aws-lc; nonces are recovered from the known private key and compared across families that differ in exactly one input under a scripted random source. Every case counts; distinct by generated input.",
        assumptions: &[
            "two independent nonces share 80 leading bits, or one nonce bit is constant over 64 signatures, with probability below 2^-50 per case",
            "the scripted random source replaces getrandom for the duration of a case",
        ],
        subs: vec![
            Sub::new("sign", sign, 5000, 200_000).all(),
            Sub::new("nonces", nonces, 150, 8000),
            Sub::new("encoding", encoding, 700, 40_000),
            Sub::new("bias", bias, 48, 1500),
        ],
    }
}
