//! ECDSA verification
use super::ecdsautil::*;
use super::ecutil::{curve, scalar};
use crate::engine::*;
use crate::refs::der;
use crate::refs::ec::{Curve, Pt};
use num_bigint::BigUint;
use num_traits::{One, Zero};

struct Sig {
    ci: usize,
    h: usize,
    q: Pt,
    m: Vec<u8>,
    r: BigUint,
    s: BigUint,
    kind: &'static str,
}
fn any_scalar(s: &mut Src, c: &Curve) -> BigUint {
    scalar(s, c)
}
/// A signature/key/message triple with chosen internals. With the message's digest e fixed and
/// s = e/u1, the verifier computes u1*G + u2*Q with u2 = r/s; choosing Q = (R - u1*G)/u2 makes
/// that sum equal any wanted point R, so u1, R (or its discrete log k) are all free.
fn craft(s: &mut Src) -> Option<Sig> {
    let ci = s.idx(2);
    let h = s.idx(3);
    let c = curve(ci);
    let m = message(s);
    let e = c.bits2int(&hash(h, &m)) % &c.n;
    if e.is_zero() {
        return None;
    }
    let kind = s.weighted(&[4, 3, 3, 2, 2, 2]);
    if kind == 0 {
        // ordinary signature by a chosen key and nonce
        let d = any_scalar(s, c);
        let k = any_scalar(s, c);
        let r = c.mul_g(&k).unwrap().0 % &c.n;
        if r.is_zero() {
            return None;
        }
        let ss = c.ninv(&k) * (e + &r * &d) % &c.n;
        if ss.is_zero() {
            return None;
        }
        return Some(Sig { ci, h, q: c.mul_g(&d), m, r, s: ss, kind: "signed" });
    }
    let u1 = any_scalar(s, c);
    let ss = &e * c.ninv(&u1) % &c.n;
    let (rp, kind): (Pt, &'static str) = match kind {
        1 => (c.mul_g(&any_scalar(s, c)), "chosen-u1-k"),
        2 => {
            // R with an extreme x coordinate, including the window n <= x < p where r = x - n
            let base = match s.idx(4) {
                0 => BigUint::from(s.below(50) + 1),
                1 => &c.n + s.below(1 << 20),
                2 => &c.p - 1u32 - s.below(1000),
                _ => &c.n - 1u32 - s.below(1000),
            };
            let mut x = base % &c.p;
            let odd = s.bool();
            loop {
                if let Some(p) = c.lift_x(&x, odd) {
                    break (Some(p), "extreme-x");
                }
                x = (x + 1u32) % &c.p;
            }
        }
        3 => (c.mul_g(&(&u1 * 2u32 % &c.n)), "doubling"),
        4 => (None, "infinity"),
        _ => {
            // u2*Q = a small multiple of u1*G, or R = a small multiple
            let j = BigUint::from(s.below(6) + 1);
            if s.bool() {
                (c.mul_g(&(&u1 * (j + 1u32) % &c.n)), "related")
            } else {
                (c.mul_g(&j), "related")
            }
        }
    };
    let r = match &rp {
        Some(p) => &p.0 % &c.n,
        None => any_scalar(s, c),
    };
    if r.is_zero() {
        return None;
    }
    let u2 = &r * c.ninv(&ss) % &c.n;
    let diff = c.add(&rp, &c.neg(&c.mul_g(&u1)));
    let q = c.mul(&c.ninv(&u2), &diff);
    q.as_ref()?;
    Some(Sig { ci, h, q, m, r, s: ss, kind })
}
fn judge(s: &mut Src, g: &Sig, fixed: Option<&[u8]>, asn1: Option<&[u8]>, what: &str, m: &[u8], q: &Pt, h: usize) -> R {
    let c = curve(g.ci);
    let qb = c.point(q);
    let Some(vk) = VK::new(g.ci, &qb) else {
        return fail("key-refused", format!("{} valid key {} refused", c.name, hex(&qb)));
    };
    let parts = s.partition(m.len());
    let mp = pieces(m, &parts);
    let digest = hash(h, m);
    if let Some(sig) = fixed {
        let want = sig.len() == 2 * c.len && {
            let r = BigUint::from_bytes_be(&sig[..c.len]);
            let t = BigUint::from_bytes_be(&sig[c.len..]);
            c.ecdsa_verify(q, &digest, &r, &t)
        };
        let got = vk.verify(h, &mp, sig);
        s.label(if want { "fixed-valid" } else { "fixed-invalid" });
        ensure!(got == want, format!("fixed-{}-{what}", g.kind), "{} hash {} {} {what}: verify accepted={got}, valid={want}; key={} msg={} sig={} pieces={parts:?}", c.name, h, g.kind, hex(&qb), hex(m), hex(sig));
        if let Some(a) = awslc(g.ci, h, false, &qb, m, sig) {
            ensure!(a == want, "oracle-disagrees", "reference and aws-lc disagree on {} {what}", g.kind);
        }
    }
    if let Some(sig) = asn1 {
        let want = match parse_der_sig(sig) {
            Some((r, t)) => c.ecdsa_verify(q, &digest, &r, &t),
            None => false,
        };
        let got = vk.verify_asn1(h, &mp, sig);
        s.label(if want { "asn1-valid" } else { "asn1-invalid" });
        ensure!(got == want, format!("asn1-{}-{what}", g.kind), "{} hash {} {} {what}: verify_asn1 accepted={got}, valid={want}; key={} msg={} sig={} pieces={parts:?}", c.name, h, g.kind, hex(&qb), hex(m), hex(sig));
    }
    s.emit_ok(true);
    Ok(())
}
fn fixed_of(c: &Curve, r: &BigUint, t: &BigUint) -> Vec<u8> {
    let mut v = c.enc(r);
    v.extend(c.enc(t));
    v
}
/// crafted signatures, unmodified
fn crafted(s: &mut Src) -> R {
    let Some(g) = craft(s) else { return Ok(()) };
    let c = curve(g.ci);
    s.nontrivial();
    s.label(g.kind);
    s.note(format!("{} {} r={} s={}", c.name, g.kind, hexs(&c.enc(&g.r)), hexs(&c.enc(&g.s))));
    let f = fixed_of(c, &g.r, &g.s);
    let a = der_sig(&g.r, &g.s);
    if g.kind != "infinity" && !c.ecdsa_verify(&g.q, &hash(g.h, &g.m), &g.r, &g.s) {
        return fail("harness", format!("crafted signature invalid by construction: {}", g.kind));
    }
    judge(s, &g, Some(&f), Some(&a), "as-is", &g.m, &g.q, g.h)
}
/// values near a valid signature
fn near(s: &mut Src) -> R {
    let Some(g) = craft(s) else { return Ok(()) };
    let c = curve(g.ci);
    s.nontrivial();
    let cap = BigUint::one() << (c.len * 8);
    let (mut r, mut t) = (g.r.clone(), g.s.clone());
    let (mut m, mut q, mut h) = (g.m.clone(), g.q.clone(), g.h);
    let what = match s.idx(12) {
        0 => {
            t = &c.n - &t;
            "neg-s"
        }
        1 => {
            // same residue, out of range (fits only if small)
            if s.bool() {
                r += &c.n;
            } else {
                t += &c.n;
            }
            "plus-n"
        }
        2 => {
            let z = [BigUint::zero(), c.n.clone(), &c.n - 1u32, BigUint::one(), c.p.clone(), &cap - 1u32];
            if s.bool() {
                r = s.pick(&z).clone();
            }
            if s.bool() {
                t = s.pick(&z).clone();
            }
            "extreme"
        }
        3 => {
            // x of R before reduction instead of r
            r = &r + &c.n;
            if r >= c.p {
                r = &g.r + 1u32;
            }
            "unreduced-r"
        }
        4 => {
            std::mem::swap(&mut r, &mut t);
            "swapped"
        }
        5 => {
            let b = s.idx(c.len * 8);
            let bit = BigUint::one() << b;
            let tgt = if s.bool() { &mut r } else { &mut t };
            *tgt ^= bit;
            "bitflip"
        }
        6 => {
            if m.is_empty() {
                m.push(s.u8());
            } else {
                let i = s.idx(m.len());
                m[i] ^= 1 << s.idx(8);
            }
            "message"
        }
        7 => {
            h = (h + 1 + s.idx(2)) % 3;
            "hash"
        }
        8 => {
            q = c.neg(&q);
            "neg-key"
        }
        9 => {
            q = c.mul_g(&scalar(s, c));
            "other-key"
        }
        10 => {
            r = &c.n - &r;
            "neg-r"
        }
        _ => {
            m.push(0);
            "message-extended"
        }
    };
    s.label(what);
    let f = (r < cap && t < cap).then(|| fixed_of(c, &r, &t));
    let a = der_sig(&r, &t);
    s.note(format!("{} {} {what} r={} s={}", c.name, g.kind, hexs(&bi(&r)), hexs(&bi(&t))));
    judge(s, &g, f.as_deref(), Some(&a), what, &m, &q, h)
}
/// encodings: every length for the fixed form, DER variations for the other
fn encodings(s: &mut Src) -> R {
    let Some(g) = craft(s) else { return Ok(()) };
    let c = curve(g.ci);
    s.nontrivial();
    let (r, t) = (bi(&g.r), bi(&g.s));
    let good = der_sig(&g.r, &g.s);
    let f = fixed_of(c, &g.r, &g.s);
    let mut fx: Option<Vec<u8>> = None;
    let mut asn = good.clone();
    let what = match s.idx(14) {
        0 => {
            // fixed-form length changes
            let mut v = f.clone();
            match s.idx(4) {
                0 => {
                    let n = s.idx(v.len());
                    v.truncate(n);
                }
                1 => {
                    let n = s.range(1, 100);
                    v.extend(vec![0; n]);
                }
                2 => {
                    // both halves padded to another equal length
                    let p = s.range(1, 70);
                    v = vec![0; p];
                    v.extend_from_slice(&f[..c.len]);
                    v.extend(vec![0; p]);
                    v.extend_from_slice(&f[c.len..]);
                }
                _ => {
                    // minimal halves
                    v = r.clone();
                    v.extend_from_slice(&t);
                }
            }
            fx = Some(v);
            "fixed-length"
        }
        1 => {
            // leading zeros in an INTEGER
            let pad = s.range(1, 4);
            let mut a = vec![0; pad];
            a.extend_from_slice(&r);
            asn = der::seq(&[der::int_raw(&a), der::uint(&t)]);
            "padded-r"
        }
        2 => {
            let pad = s.range(1, 4);
            let mut a = vec![0; pad];
            a.extend_from_slice(&t);
            asn = der::seq(&[der::uint(&r), der::int_raw(&a)]);
            "padded-s"
        }
        3 => {
            // missing sign byte: negative if top bit set
            asn = der::seq(&[der::int_raw(&r), der::int_raw(&t)]);
            "unsigned"
        }
        4 => {
            let n = s.range(1, 5);
            asn.extend(s.blob(n));
            "trailing"
        }
        5 => {
            let n = s.idx(asn.len());
            asn.truncate(n);
            "truncated"
        }
        6 => {
            // long-form lengths
            let body = [der::uint(&r), der::uint(&t)].concat();
            let n = body.len();
            let l = match s.idx(4) {
                0 => vec![0x81, n as u8],
                1 => vec![0x82, 0, n as u8],
                2 => vec![0x83, 0, 0, n as u8],
                _ => vec![0x84, 0, 0, 0, n as u8],
            };
            asn = [vec![0x30], l, body].concat();
            "long-seq-length"
        }
        7 => {
            let i = |b: &[u8], long: bool| {
                let t = der::uint(b);
                if long {
                    [&[2u8, 0x81, t[1]][..], &t[2..]].concat()
                } else {
                    t
                }
            };
            let w = s.range(1, 3);
            asn = der::seq(&[i(&r, w & 1 != 0), i(&t, w & 2 != 0)]);
            "long-int-length"
        }
        8 => {
            // extra element inside
            let extra = match s.idx(3) {
                0 => der::null(),
                1 => der::uint(&[1]),
                _ => vec![0, 0],
            };
            asn = der::seq(&[der::uint(&r), der::uint(&t), extra]);
            "extra-element"
        }
        9 => {
            asn = match s.idx(3) {
                0 => der::seq(&[der::uint(&r)]),
                1 => der::seq(&[]),
                _ => der::seq(&[der::int_raw(&[]), der::uint(&t)]),
            };
            "missing-element"
        }
        10 => {
            // wrong tags
            let i = *s.pick(&[0usize, 2]);
            let i = if s.bool() { i } else { 4 + r.len().min(asn.len() - 6) };
            let i = i.min(asn.len() - 1);
            asn[i] = s.u8();
            "tag"
        }
        11 => {
            // indefinite length
            let body = [der::uint(&r), der::uint(&t)].concat();
            asn = [vec![0x30, 0x80], body, vec![0, 0]].concat();
            "indefinite"
        }
        12 => {
            let i = s.idx(asn.len());
            asn[i] ^= 1 << s.idx(8);
            "bitflip"
        }
        _ => {
            // oversized integers whose low bytes are right
            let mut a = vec![s.u8() | 1];
            a.extend(c.enc(&g.r));
            let other = s.bool();
            asn = if other { der::seq(&[der::uint(&a), der::uint(&t)]) } else { der::seq(&[der::uint(&r), der::uint(&[&a[..1], &c.enc(&g.s)].concat())]) };
            "oversized"
        }
    };
    s.label(what);
    s.note(format!("{} {what} {}", c.name, hexs(&asn)));
    judge(s, &g, fx.as_deref(), Some(&asn), what, &g.m, &g.q, g.h)
}
/// all single-bit changes of a DER and fixed signature, and all truncations
fn flips(s: &mut Src) -> R {
    let Some(g) = craft(s) else { return Ok(()) };
    if g.kind == "infinity" {
        return Ok(());
    }
    let c = curve(g.ci);
    s.nontrivial();
    let qb = c.point(&g.q);
    let vk = VK::new(g.ci, &qb).unwrap();
    let good = der_sig(&g.r, &g.s);
    let f = fixed_of(c, &g.r, &g.s);
    let mp: &[&[u8]] = &[&g.m];
    for i in 0..f.len() * 8 {
        let mut v = f.clone();
        v[i / 8] ^= 1 << (i % 8);
        ensure!(!vk.verify(g.h, mp, &v), "flip-fixed", "{} bit {i} of a valid fixed signature flipped, still accepted: key={} msg={} sig={}", c.name, hex(&qb), hex(&g.m), hex(&v));
    }
    for i in 0..good.len() * 8 {
        let mut v = good.clone();
        v[i / 8] ^= 1 << (i % 8);
        ensure!(!vk.verify_asn1(g.h, mp, &v), "flip-asn1", "{} bit {i} of a valid DER signature flipped, still accepted: key={} msg={} sig={}", c.name, hex(&qb), hex(&g.m), hex(&v));
    }
    for n in 0..good.len() {
        ensure!(!vk.verify_asn1(g.h, mp, &good[..n]), "prefix", "prefix of length {n} accepted");
    }
    ensure!(vk.verify(g.h, mp, &f) && vk.verify_asn1(g.h, mp, &good), "valid-refused", "{} {} valid signature refused", c.name, g.kind);
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "Signatures are constructed with chosen u1, R and key so that the verifier's internal sum hits ordinary, doubling, infinity, small-multiple and x>=n cases; they are then perturbed in value, message, hash, key and encoding. Every case with a non-zero digest counts; distinct by generated input.",
        assumptions: &[
            "reference verification over num-bigint; digests by aws-lc-rs",
            "a bit-flipped signature is assumed not to be another valid signature in the flips sub-check (probability about 2^-250); other sub-checks decide each mutant with the reference",
        ],
        subs: vec![
            Sub::new("crafted", crafted, 6000, 200_000),
            Sub::new("near", near, 6000, 200_000),
            Sub::new("encodings", encodings, 6000, 200_000),
            Sub::new("flips", flips, 12, 400),
        ],
    }
}
