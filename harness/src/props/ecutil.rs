use crate::engine::*;
use crate::refs::ec::{self, Curve, Pt};
use graviola::key_agreement::{p256, p384};
use num_bigint::BigUint;
use num_traits::{One, Zero};

pub fn curve(i: usize) -> &'static Curve {
    if i == 0 {
        ec::p256()
    } else {
        ec::p384()
    }
}

/// uniform interface over the two curves' key-agreement modules
pub enum Static {
    P256(p256::StaticPrivateKey),
    P384(p384::StaticPrivateKey),
}
pub enum Eph {
    P256(p256::PrivateKey),
    P384(p384::PrivateKey),
}
pub enum Public {
    P256(p256::PublicKey),
    P384(p384::PublicKey),
}
impl Static {
    pub fn from_bytes(c: usize, b: &[u8]) -> Option<Static> {
        if c == 0 {
            p256::StaticPrivateKey::from_bytes(b).ok().map(Static::P256)
        } else {
            p384::StaticPrivateKey::from_bytes(b).ok().map(Static::P384)
        }
    }
    pub fn random(c: usize) -> Option<Static> {
        if c == 0 {
            p256::StaticPrivateKey::new_random().ok().map(Static::P256)
        } else {
            p384::StaticPrivateKey::new_random().ok().map(Static::P384)
        }
    }
    pub fn as_bytes(&self) -> Vec<u8> {
        match self {
            Static::P256(k) => k.as_bytes().to_vec(),
            Static::P384(k) => k.as_bytes().to_vec(),
        }
    }
    pub fn public(&self) -> Vec<u8> {
        match self {
            Static::P256(k) => k.public_key_uncompressed().to_vec(),
            Static::P384(k) => k.public_key_uncompressed().to_vec(),
        }
    }
    pub fn dh(&self, p: &Public) -> Option<Vec<u8>> {
        match (self, p) {
            (Static::P256(k), Public::P256(p)) => k.diffie_hellman(p).ok().map(|s| s.0.to_vec()),
            (Static::P384(k), Public::P384(p)) => k.diffie_hellman(p).ok().map(|s| s.0.to_vec()),
            _ => unreachable!(),
        }
    }
}
impl Eph {
    pub fn random(c: usize) -> Option<Eph> {
        if c == 0 {
            p256::PrivateKey::new_random().ok().map(Eph::P256)
        } else {
            p384::PrivateKey::new_random().ok().map(Eph::P384)
        }
    }
    pub fn public(&self) -> Vec<u8> {
        match self {
            Eph::P256(k) => k.public_key_uncompressed().to_vec(),
            Eph::P384(k) => k.public_key_uncompressed().to_vec(),
        }
    }
    pub fn dh(self, p: &Public) -> Option<Vec<u8>> {
        match (self, p) {
            (Eph::P256(k), Public::P256(p)) => k.diffie_hellman(p).ok().map(|s| s.0.to_vec()),
            (Eph::P384(k), Public::P384(p)) => k.diffie_hellman(p).ok().map(|s| s.0.to_vec()),
            _ => unreachable!(),
        }
    }
}
impl Public {
    pub fn from(c: usize, b: &[u8]) -> Option<Public> {
        if c == 0 {
            p256::PublicKey::from_x962_uncompressed(b).ok().map(Public::P256)
        } else {
            p384::PublicKey::from_x962_uncompressed(b).ok().map(Public::P384)
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Public::P256(k) => k.as_bytes_uncompressed().to_vec(),
            Public::P384(k) => k.as_bytes_uncompressed().to_vec(),
        }
    }
}

/// a scalar in 1..n-1 with edge structure
pub fn scalar(s: &mut Src, c: &Curve) -> BigUint {
    let nbits = c.n.bits() as usize;
    let v = match s.weighted(&[2, 6, 3, 3, 4, 4, 2, 2]) {
        0 => BigUint::from(s.below(70) + 1),
        1 => BigUint::from_bytes_be(&s.blob(c.len)),
        2 => {
            let d = s.below(200) + 1;
            &c.n - BigUint::from(d)
        }
        3 => {
            // 2^k +- small
            let k = s.idx(nbits);
            let d = BigUint::from(s.below(40));
            let b = BigUint::one() << k;
            if s.bool() {
                b + d
            } else if b > d {
                b - d
            } else {
                d + 1u32
            }
        }
        4 => {
            // constant or chosen windows of width 4..8
            let w = s.range(4, 8);
            let mut v = BigUint::zero();
            let constant = s.bool();
            let d0 = s.below(1 << w);
            let mut i = 0;
            while i < nbits {
                let d = if constant {
                    d0
                } else {
                    match s.idx(6) {
                        0 => 0,
                        1 => (1 << w) - 1,
                        2 => 1 << (w - 1),
                        3 => (1 << (w - 1)) - 1,
                        4 => (1 << (w - 1)) + 1,
                        _ => s.below(1 << w),
                    }
                };
                v += BigUint::from(d) << i;
                i += w;
            }
            v
        }
        5 => {
            let e: [u8; 48] = s.edgy();
            BigUint::from_bytes_be(&e[..c.len])
        }
        6 => {
            // multiple or fraction of n
            let k = s.below(64) + 1;
            let d = s.below(5);
            &c.n / BigUint::from(k) + BigUint::from(d)
        }
        _ => {
            // n with one chunk altered
            let mut b = c.enc(&c.n);
            let i = s.idx(b.len());
            b[i] = s.u8();
            BigUint::from_bytes_be(&b)
        }
    };
    let v = v % &c.n;
    if v.is_zero() {
        BigUint::one()
    } else {
        v
    }
}
/// a point on the curve, by scalar or by x-coordinate
pub fn point(s: &mut Src, c: &Curve) -> Pt {
    if s.weighted(&[2, 1]) == 0 {
        let k = scalar(s, c);
        c.mul_g(&k)
    } else {
        let base = match s.idx(5) {
            0 => BigUint::from(s.below(300)),
            1 => &c.p - 1u32 - s.below(300),
            2 => &c.n + s.below(300),
            3 => {
                let e: [u8; 48] = s.edgy();
                BigUint::from_bytes_be(&e[..c.len]) % &c.p
            }
            _ => {
                let k = s.idx(c.p.bits() as usize);
                BigUint::one() << k
            }
        };
        let odd = s.bool();
        let mut x = base % &c.p;
        loop {
            if let Some(p) = c.lift_x(&x, odd) {
                return Some(p);
            }
            x = (x + 1u32) % &c.p;
        }
    }
}
