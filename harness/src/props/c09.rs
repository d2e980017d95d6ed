//! EC key validation
use super::ecutil::*;
use crate::engine::*;
use crate::refs::ec::be;
use graviola::signing::ecdsa;
use num_bigint::BigUint;
use num_traits::{One, Zero};

fn ecdsa_pub(ci: usize, b: &[u8]) -> bool {
    if ci == 0 {
        ecdsa::VerifyingKey::<ecdsa::P256>::from_x962_uncompressed(b).is_ok()
    } else {
        ecdsa::VerifyingKey::<ecdsa::P384>::from_x962_uncompressed(b).is_ok()
    }
}
fn check_public(s: &mut Src, ci: usize, b: &[u8], what: &str) -> R {
    let c = curve(ci);
    let want = b.len() == 1 + 2 * c.len && b[0] == 4 && {
        let x = BigUint::from_bytes_be(&b[1..1 + c.len]);
        let y = BigUint::from_bytes_be(&b[1 + c.len..]);
        c.on_curve(&x, &y)
    };
    let got = Public::from(ci, b);
    let got2 = ecdsa_pub(ci, b);
    s.emit_ok(got.is_some());
    s.label(if want { "valid" } else { "invalid" });
    s.note(format!("{} {what}: {}", c.name, hexs(b)));
    ensure!(got.is_some() == want, format!("public-{what}"), "{} {what}: {} accepted={} expected={want}", c.name, hex(b), got.is_some());
    ensure!(got2 == want, format!("ecdsa-public-{what}"), "{} {what}: {} accepted by signature verification key={} expected={want}", c.name, hex(b), got2);
    if let Some(p) = got {
        ensure!(p.bytes() == b, "reencode", "{} {} re-encodes as {}", c.name, hex(b), hex(&p.bytes()));
    }
    Ok(())
}
fn public(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    let p = point(s, c).unwrap();
    let fits = |v: &BigUint| v.bits() as usize <= c.len * 8;
    let mut b = c.point(&Some(p.clone()));
    s.nontrivial();
    let what = match s.idx(16) {
        0 => "valid",
        1 => {
            // x or y plus the modulus: only fits for small coordinates
            let small = BigUint::from(s.below(1 << 16));
            let room = (BigUint::one() << (c.len * 8)) - &c.p;
            let mut x = small % &room;
            let q = loop {
                if let Some(q) = c.lift_x(&x, s.bool()) {
                    break q;
                }
                x += 1u32;
            };
            let xp = &q.0 + &c.p;
            if fits(&xp) {
                b = vec![4];
                b.extend(c.enc(&xp));
                b.extend(c.enc(&q.1));
            }
            s.label("x-plus-p");
            "x-plus-p"
        }
        2 => {
            // find a point with small y: solve cubic by search over x is infeasible; use y from
            // y + p when it happens to fit, otherwise set y >= p
            let yp = &p.1 + &c.p;
            b = vec![4];
            b.extend(c.enc(&p.0));
            if fits(&yp) {
                b.extend(c.enc(&yp));
            } else {
                b.extend(c.enc(&(&c.p + s.below(100))));
            }
            "y-plus-p"
        }
        3 => {
            let i = s.idx(b.len());
            b[i] ^= 1 << s.idx(8);
            "bitflip"
        }
        4 => {
            // negated / swapped
            match s.idx(3) {
                0 => b = c.point(&c.neg(&Some(p))),
                1 => {
                    b = vec![4];
                    b.extend(c.enc(&p.1));
                    b.extend(c.enc(&p.0));
                }
                _ => {
                    b = vec![4];
                    b.extend(c.enc(&p.0));
                    b.extend(c.enc(&((&p.1 + 1u32) % &c.p)));
                }
            }
            "neg-swap"
        }
        5 => {
            let n = s.idx(b.len());
            b.truncate(n);
            "truncated"
        }
        6 => {
            let n = s.range(1, 40);
            b.extend(s.blob(n));
            "extended"
        }
        7 => {
            b[0] = s.u8();
            "format-byte"
        }
        8 => {
            // compressed and hybrid forms
            let odd = p.1.bit(0) as u8;
            if s.bool() {
                b.truncate(1 + c.len);
                b[0] = 2 + odd;
            } else {
                b[0] = 6 + odd;
            }
            "compressed-hybrid"
        }
        9 => {
            b = match s.idx(5) {
                0 => vec![],
                1 => vec![0],
                2 => vec![0; 1 + 2 * c.len],
                3 => {
                    let mut v = vec![0; 1 + 2 * c.len];
                    v[0] = 4;
                    v
                }
                _ => {
                    let mut v = vec![0xff; 1 + 2 * c.len];
                    v[0] = 4;
                    v
                }
            };
            "degenerate"
        }
        10 => {
            // a point of the twist or another curve: valid x off curve with arbitrary y
            let mut x = BigUint::from_bytes_be(&s.blob(c.len)) % &c.p;
            while c.lift_x(&x, false).is_some() {
                x = (x + 1u32) % &c.p;
            }
            b = vec![4];
            b.extend(c.enc(&x));
            b.extend(c.enc(&p.1));
            "off-curve-x"
        }
        11 => {
            // coordinates at the limits
            let lim = |s: &mut Src| match s.idx(4) {
                0 => &c.p - s.below(3),
                1 => &c.p + s.below(3),
                2 => (BigUint::one() << (c.len * 8)) - 1u32 - s.below(3),
                _ => BigUint::from(s.below(3)),
            };
            let (x, y) = (lim(s), lim(s));
            b = vec![4];
            b.extend(be(&x, c.len));
            b.extend(be(&y, c.len));
            "limits"
        }
        12 => {
            // the other curve's point
            let o = curve(1 - ci);
            b = o.point(&point(s, o));
            "other-curve"
        }
        13 => {
            // leading-zero-stripped or padded coordinates
            let mut v = vec![4];
            if s.bool() {
                v.push(0);
            }
            v.extend(c.enc(&p.0));
            if s.bool() {
                v.push(0);
            }
            v.extend(c.enc(&p.1));
            if s.bool() {
                v.remove(1);
            }
            b = v;
            "repadded"
        }
        14 => {
            // a point on the curve with a different constant term
            let y = BigUint::from_bytes_be(&s.blob(c.len)) % &c.p;
            b = vec![4];
            b.extend(c.enc(&p.0));
            b.extend(c.enc(&y));
            "wrong-b"
        }
        _ => {
            let n = if s.bool() { 1 + 2 * c.len } else { s.idx(140) };
            b = s.blob(n);
            if !b.is_empty() && s.bool() {
                b[0] = 4;
            }
            "random"
        }
    };
    check_public(s, ci, &b, what)
}
fn private(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    s.nontrivial();
    let v = match s.idx(8) {
        0 => BigUint::zero(),
        1 => &c.n + s.below(300),
        2 => &c.n - 1u32 - s.below(300),
        3 => scalar(s, c),
        4 => (BigUint::one() << (c.len * 8)) - 1u32 - s.below(300),
        5 => &c.n * (s.below(5) + 1) + s.below(5),
        6 => {
            // n with a single bit or byte raised or lowered
            let mut b = c.enc(&c.n);
            let i = s.idx(b.len());
            b[i] = s.u8();
            BigUint::from_bytes_be(&b)
        }
        _ => {
            let n = s.idx(80);
            BigUint::from_bytes_be(&s.blob(n))
        }
    };
    let minimal = if v.is_zero() { vec![] } else { v.to_bytes_be() };
    // documented: any width is taken, excess bytes must be zero
    let b = match s.idx(4) {
        0 if minimal.len() <= c.len => be(&v, c.len),
        1 => minimal.clone(),
        2 => {
            let extra = s.idx(50);
            let mut b = vec![0; extra];
            b.extend_from_slice(&minimal);
            b
        }
        _ => be(&v, minimal.len().max(c.len)),
    };
    let want = !v.is_zero() && v < c.n;
    let got = Static::from_bytes(ci, &b);
    s.emit_ok(got.is_some());
    s.label(if want { "valid" } else { "invalid" });
    s.note(format!("{} private {}", c.name, hexs(&b)));
    ensure!(got.is_some() == want, "private", "{} private value {} accepted={} expected={want}", c.name, hex(&b), got.is_some());
    if let Some(k) = got {
        ensure!(k.as_bytes() == c.enc(&v), "private-reencode", "{} {} re-encodes as {}", c.name, hex(&b), hex(&k.as_bytes()));
    }
    Ok(())
}
/// every single-bit flip of a valid encoding
fn flips(s: &mut Src) -> R {
    let ci = (s.idx % 2) as usize;
    let c = curve(ci);
    let b = c.point(&point(s, c));
    s.nontrivial();
    for bit in 0..b.len() * 8 {
        let mut v = b.clone();
        v[bit / 8] ^= 1 << (bit % 8);
        check_public(s, ci, &v, "flip")?;
    }
    for n in 0..b.len() {
        check_public(s, ci, &b[..n], "prefix")?;
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "Valid points and scalars plus constructed near-valid ones (coordinate plus modulus, off-curve, wrong format/length, limits, order neighbourhood); each is judged by recomputing the curve equation and ranges; every case is a decision compared with the oracle, distinct by input.",
        assumptions: &["curve equation evaluated over big integers in the harness"],
        subs: vec![
            Sub::new("public", public, 60_000, 2_000_000),
            Sub::new("private", private, 60_000, 2_000_000),
            Sub::new("flips", flips, 60, 2000),
        ],
    }
}
