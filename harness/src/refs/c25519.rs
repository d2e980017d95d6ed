//! Curve25519 and edwards25519 over num-bigint.
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::sync::OnceLock;

pub fn p() -> &'static BigUint {
    static P: OnceLock<BigUint> = OnceLock::new();
    P.get_or_init(|| (BigUint::one() << 255) - 19u32)
}
pub fn order() -> &'static BigUint {
    static P: OnceLock<BigUint> = OnceLock::new();
    P.get_or_init(|| {
        (BigUint::one() << 252) + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap()
    })
}
pub fn d() -> &'static BigUint {
    static P: OnceLock<BigUint> = OnceLock::new();
    P.get_or_init(|| {
        let q = p();
        let i = BigUint::from(121666u32).modpow(&(q - 2u32), q);
        (q - BigUint::from(121665u32)) * i % q
    })
}
fn sub(a: &BigUint, b: &BigUint) -> BigUint {
    (a + p() - b) % p()
}
pub fn le32(v: &BigUint) -> [u8; 32] {
    let mut b = v.to_bytes_le();
    b.resize(32, 0);
    b.try_into().unwrap()
}
pub fn inv(a: &BigUint) -> BigUint {
    a.modpow(&(p() - 2u32), p())
}

/// RFC 7748 ladder
pub fn x25519(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    let mut k = *k;
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    let mut u = *u;
    u[31] &= 127;
    let k = BigUint::from_bytes_le(&k);
    le32(&ladder(&k, &BigUint::from_bytes_le(&u)).unwrap_or_default())
}
pub fn twist_order() -> BigUint {
    (BigUint::one() << 253) - "55484635554744707071703875581767296995".parse::<BigUint>().unwrap()
}
/// the u-coordinate of k times the point with u-coordinate u; None for the point at infinity
pub fn ladder(k: &BigUint, u: &BigUint) -> Option<BigUint> {
    let q = p();
    let x1 = u % q;
    let (mut x2, mut z2) = (BigUint::one(), BigUint::zero());
    let (mut x3, mut z3) = (x1.clone(), BigUint::one());
    let mut swap = false;
    for t in (0..255).rev() {
        let kt = k.bit(t);
        if swap ^ kt {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = (&x2 + &z2) % q;
        let aa = &a * &a % q;
        let b = sub(&x2, &z2);
        let bb = &b * &b % q;
        let e = sub(&aa, &bb);
        let c = (&x3 + &z3) % q;
        let dd = sub(&x3, &z3);
        let da = dd * &a % q;
        let cb = c * &b % q;
        let t1 = (&da + &cb) % q;
        x3 = &t1 * &t1 % q;
        let t2 = sub(&da, &cb);
        z3 = (&t2 * &t2 % q) * &x1 % q;
        x2 = &aa * &bb % q;
        z2 = &e * ((&aa + BigUint::from(121665u32) * &e) % q) % q;
    }
    if swap {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    if z2.is_zero() {
        return None;
    }
    Some(x2 * inv(&z2) % q)
}

/// extended coordinates
#[derive(Clone)]
pub struct Ed(pub BigUint, pub BigUint, pub BigUint, pub BigUint);
impl Ed {
    pub fn zero() -> Ed {
        Ed(BigUint::zero(), BigUint::one(), BigUint::one(), BigUint::zero())
    }
    pub fn from_xy(x: BigUint, y: BigUint) -> Ed {
        let t = &x * &y % p();
        Ed(x, y, BigUint::one(), t)
    }
    pub fn base() -> &'static Ed {
        static B: OnceLock<Ed> = OnceLock::new();
        B.get_or_init(|| {
            let y = BigUint::from(4u32) * inv(&BigUint::from(5u32)) % p();
            let mut e = le32(&y);
            e[31] &= 0x7f;
            Ed::decode(&e).unwrap()
        })
    }
    pub fn add(&self, o: &Ed) -> Ed {
        let q = p();
        let a = sub(&self.1, &self.0) * sub(&o.1, &o.0) % q;
        let b = (&self.1 + &self.0) * (&o.1 + &o.0) % q;
        let c = (&self.3 * &o.3 % q) * (d() * 2u32) % q;
        let dd = (&self.2 * &o.2 % q) * 2u32 % q;
        let e = sub(&b, &a);
        let f = sub(&dd, &c);
        let g = (&dd + &c) % q;
        let h = (b + a) % q;
        Ed(&e * &f % q, &g * &h % q, &f * &g % q, &e * &h % q)
    }
    pub fn neg(&self) -> Ed {
        Ed(sub(&BigUint::zero(), &self.0), self.1.clone(), self.2.clone(), sub(&BigUint::zero(), &self.3))
    }
    pub fn mul(&self, k: &BigUint) -> Ed {
        let mut r = Ed::zero();
        for i in (0..k.bits()).rev() {
            r = r.add(&r);
            if k.bit(i) {
                r = r.add(self);
            }
        }
        r
    }
    pub fn affine(&self) -> (BigUint, BigUint) {
        let zi = inv(&self.2);
        (&self.0 * &zi % p(), &self.1 * &zi % p())
    }
    pub fn encode(&self) -> [u8; 32] {
        let (x, y) = self.affine();
        let mut e = le32(&y);
        if x.bit(0) {
            e[31] |= 0x80;
        }
        e
    }
    /// RFC 8032 5.1.3 (strict: y below p, no negative zero)
    pub fn decode(e: &[u8; 32]) -> Option<Ed> {
        let sign = e[31] >> 7 == 1;
        let mut b = *e;
        b[31] &= 0x7f;
        let y = BigUint::from_bytes_le(&b);
        let q = p();
        if &y >= q {
            return None;
        }
        let yy = &y * &y % q;
        let u = sub(&yy, &BigUint::one());
        let v = (d() * &yy + 1u32) % q;
        let x2 = u * inv(&v) % q;
        if x2.is_zero() {
            return if sign { None } else { Some(Ed::from_xy(BigUint::zero(), y)) };
        }
        let mut x = x2.modpow(&((q + 3u32) >> 3), q);
        if &x * &x % q != x2 {
            let i = BigUint::from(2u32).modpow(&((q - 1u32) >> 2), q);
            x = x * i % q;
            if &x * &x % q != x2 {
                return None;
            }
        }
        if x.bit(0) != sign {
            x = q - x;
        }
        Some(Ed::from_xy(x, y))
    }
}
fn sha512(parts: &[&[u8]]) -> BigUint {
    let mut c = aws_lc_rs::digest::Context::new(&aws_lc_rs::digest::SHA512);
    for p in parts {
        c.update(p);
    }
    BigUint::from_bytes_le(c.finish().as_ref())
}
pub fn ed_expand(seed: &[u8; 32]) -> (BigUint, [u8; 32]) {
    let h = aws_lc_rs::digest::digest(&aws_lc_rs::digest::SHA512, seed);
    let mut a: [u8; 32] = h.as_ref()[..32].try_into().unwrap();
    a[0] &= 248;
    a[31] &= 63;
    a[31] |= 64;
    (BigUint::from_bytes_le(&a), h.as_ref()[32..].try_into().unwrap())
}
pub fn ed_public(seed: &[u8; 32]) -> [u8; 32] {
    Ed::base().mul(&ed_expand(seed).0).encode()
}
pub fn ed_sign(seed: &[u8; 32], m: &[u8]) -> [u8; 64] {
    let (a, prefix) = ed_expand(seed);
    let pk = Ed::base().mul(&a).encode();
    let r = sha512(&[&prefix, m]) % order();
    let rr = Ed::base().mul(&r).encode();
    let k = sha512(&[&rr, &pk, m]) % order();
    let s = (r + k * a) % order();
    let mut o = [0; 64];
    o[..32].copy_from_slice(&rr);
    o[32..].copy_from_slice(&le32(&s));
    o
}
pub fn ed_challenge(r: &[u8], pk: &[u8], m: &[u8]) -> BigUint {
    sha512(&[r, pk, m]) % order()
}
/// cofactorless verification comparing encodings
pub fn ed_verify(pk: &[u8; 32], sig: &[u8], m: &[u8]) -> bool {
    if sig.len() != 64 {
        return false;
    }
    let a = match Ed::decode(pk) {
        Some(a) => a,
        None => return false,
    };
    let s = BigUint::from_bytes_le(&sig[32..]);
    if &s >= order() {
        return false;
    }
    let k = ed_challenge(&sig[..32], pk, m);
    let r = Ed::base().mul(&s).add(&a.neg().mul(&k));
    r.encode()[..] == sig[..32]
}
/// a generator of the 8-torsion
pub fn torsion() -> &'static Vec<Ed> {
    static T: OnceLock<Vec<Ed>> = OnceLock::new();
    T.get_or_init(|| {
        // multiply arbitrary points by the group order until one of order 8 appears
        let mut i = 2u8;
        loop {
            let mut e = [0u8; 32];
            e[0] = i;
            i += 1;
            if let Some(pt) = Ed::decode(&e) {
                let t = pt.mul(order());
                let t4 = t.mul(&BigUint::from(4u32));
                if t4.encode() != Ed::zero().encode() {
                    return (0..8u32).map(|k| t.mul(&BigUint::from(k))).collect();
                }
            }
        }
    })
}
