//! Short-Weierstrass arithmetic over num-bigint, written from the textbook formulas.
use num_bigint::BigUint;
use num_traits::{One, Zero};

pub struct Curve {
    pub p: BigUint,
    pub n: BigUint,
    pub b: BigUint,
    pub g: (BigUint, BigUint),
    pub len: usize,
    pub name: &'static str,
}
pub type Pt = Option<(BigUint, BigUint)>;

fn h(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
pub fn p256() -> &'static Curve {
    static C: std::sync::OnceLock<Curve> = std::sync::OnceLock::new();
    C.get_or_init(|| Curve {
        p: h("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
        n: h("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
        b: h("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
        g: (
            h("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
            h("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
        ),
        len: 32,
        name: "P-256",
    })
}
pub fn p384() -> &'static Curve {
    static C: std::sync::OnceLock<Curve> = std::sync::OnceLock::new();
    C.get_or_init(|| Curve {
        p: h("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"),
        n: h("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
        b: h("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef"),
        g: (
            h("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
            h("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"),
        ),
        len: 48,
        name: "P-384",
    })
}
impl Curve {
    pub fn rhs(&self, x: &BigUint) -> BigUint {
        let p = &self.p;
        let x3 = x * x % p * x % p;
        (x3 + (p - BigUint::from(3u32)) * x + &self.b) % p
    }
    pub fn on_curve(&self, x: &BigUint, y: &BigUint) -> bool {
        x < &self.p && y < &self.p && y * y % &self.p == self.rhs(x)
    }
    /// a square root of v mod p, if any (p = 3 mod 4)
    pub fn sqrt(&self, v: &BigUint) -> Option<BigUint> {
        let e = (&self.p + 1u32) >> 2;
        let r = v.modpow(&e, &self.p);
        if &r * &r % &self.p == v % &self.p {
            Some(r)
        } else {
            None
        }
    }
    pub fn lift_x(&self, x: &BigUint, odd: bool) -> Pt {
        if x >= &self.p {
            return None;
        }
        let y = self.sqrt(&self.rhs(x))?;
        let y = if y.bit(0) == odd || y.is_zero() { y } else { &self.p - y };
        Some((x.clone(), y))
    }
    fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + &self.p - b) % &self.p
    }
    fn jdbl(&self, a: &(BigUint, BigUint, BigUint)) -> (BigUint, BigUint, BigUint) {
        let p = &self.p;
        let (x, y, z) = a;
        if z.is_zero() || y.is_zero() {
            return (BigUint::one(), BigUint::one(), BigUint::zero());
        }
        let zz = z * z % p;
        let m = (BigUint::from(3u32) * self.sub(x, &zz) % p) * ((x + &zz) % p) % p;
        let yy = y * y % p;
        let s = (x * &yy % p) * 4u32 % p;
        let x3 = self.sub(&(&m * &m % p), &((&s * 2u32) % p));
        let y3 = self.sub(&(&m * self.sub(&s, &x3) % p), &((&yy * &yy % p) * 8u32 % p));
        let z3 = (y * z % p) * 2u32 % p;
        (x3, y3, z3)
    }
    fn jadd(&self, a: &(BigUint, BigUint, BigUint), b: &(BigUint, BigUint)) -> (BigUint, BigUint, BigUint) {
        let p = &self.p;
        if a.2.is_zero() {
            return (b.0.clone(), b.1.clone(), BigUint::one());
        }
        let zz = &a.2 * &a.2 % p;
        let u2 = &b.0 * &zz % p;
        let s2 = (&b.1 * &zz % p) * &a.2 % p;
        if u2 == a.0 {
            if s2 == a.1 {
                return self.jdbl(a);
            }
            return (BigUint::one(), BigUint::one(), BigUint::zero());
        }
        let hh = self.sub(&u2, &a.0);
        let r = self.sub(&s2, &a.1);
        let h2 = &hh * &hh % p;
        let h3 = &h2 * &hh % p;
        let v = &a.0 * &h2 % p;
        let x3 = self.sub(&self.sub(&(&r * &r % p), &h3), &(&v * 2u32 % p));
        let y3 = self.sub(&(&r * self.sub(&v, &x3) % p), &(&a.1 * &h3 % p));
        let z3 = &a.2 * &hh % p;
        (x3, y3, z3)
    }
    fn affine(&self, a: &(BigUint, BigUint, BigUint)) -> Pt {
        if a.2.is_zero() {
            return None;
        }
        let zi = a.2.modpow(&(&self.p - 2u32), &self.p);
        let zi2 = &zi * &zi % &self.p;
        Some((&a.0 * &zi2 % &self.p, (&a.1 * &zi2 % &self.p) * zi % &self.p))
    }
    pub fn mul(&self, k: &BigUint, pt: &Pt) -> Pt {
        let b = match pt {
            Some(b) => b,
            None => return None,
        };
        let mut acc = (BigUint::one(), BigUint::one(), BigUint::zero());
        for i in (0..k.bits()).rev() {
            acc = self.jdbl(&acc);
            if k.bit(i) {
                acc = self.jadd(&acc, b);
            }
        }
        self.affine(&acc)
    }
    pub fn mul_g(&self, k: &BigUint) -> Pt {
        self.mul(k, &Some(self.g.clone()))
    }
    pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
        match (a, b) {
            (None, x) | (x, None) => x.clone(),
            (Some(a), Some(b)) => {
                let j = self.jadd(&(a.0.clone(), a.1.clone(), BigUint::one()), b);
                self.affine(&j)
            }
        }
    }
    pub fn neg(&self, a: &Pt) -> Pt {
        a.as_ref().map(|(x, y)| (x.clone(), (&self.p - y) % &self.p))
    }
    pub fn enc(&self, v: &BigUint) -> Vec<u8> {
        be(v, self.len)
    }
    pub fn point(&self, p: &Pt) -> Vec<u8> {
        let (x, y) = p.as_ref().unwrap();
        let mut v = vec![4];
        v.extend(self.enc(x));
        v.extend(self.enc(y));
        v
    }
    pub fn ninv(&self, v: &BigUint) -> BigUint {
        v.modpow(&(&self.n - 2u32), &self.n)
    }
    /// leftmost bits of the hash
    pub fn bits2int(&self, hash: &[u8]) -> BigUint {
        BigUint::from_bytes_be(&hash[..hash.len().min(self.len)])
    }
    pub fn ecdsa_verify(&self, q: &Pt, hash: &[u8], r: &BigUint, s: &BigUint) -> bool {
        if r.is_zero() || s.is_zero() || r >= &self.n || s >= &self.n {
            return false;
        }
        let e = self.bits2int(hash) % &self.n;
        let w = self.ninv(s);
        let u1 = e * &w % &self.n;
        let u2 = r * &w % &self.n;
        match self.add(&self.mul_g(&u1), &self.mul(&u2, q)) {
            None => false,
            Some((x, _)) => &(x % &self.n) == r,
        }
    }
}
pub fn be(v: &BigUint, len: usize) -> Vec<u8> {
    let b = v.to_bytes_be();
    let mut o = vec![0; len];
    if v.is_zero() {
        return o;
    }
    o[len - b.len()..].copy_from_slice(&b);
    o
}
