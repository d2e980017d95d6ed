use super::ecutil::curve;
use crate::engine::*;
use aws_lc_rs::digest;
use aws_lc_rs::signature as asig;
use graviola::hashing::{Sha256, Sha384, Sha512};
use graviola::signing::ecdsa::{SigningKey, VerifyingKey, P256, P384};
use num_bigint::BigUint;

pub enum SK {
    P256(SigningKey<P256>),
    P384(SigningKey<P384>),
}
pub enum VK {
    P256(VerifyingKey<P256>),
    P384(VerifyingKey<P384>),
}
macro_rules! byhash {
    ($h:expr, $k:expr, $f:ident, $($a:expr),*) => {
        match $h {
            0 => $k.$f::<Sha256>($($a),*),
            1 => $k.$f::<Sha384>($($a),*),
            _ => $k.$f::<Sha512>($($a),*),
        }
    };
}
impl VK {
    pub fn new(ci: usize, b: &[u8]) -> Option<VK> {
        if ci == 0 {
            VerifyingKey::<P256>::from_x962_uncompressed(b).ok().map(VK::P256)
        } else {
            VerifyingKey::<P384>::from_x962_uncompressed(b).ok().map(VK::P384)
        }
    }
    pub fn verify(&self, h: usize, m: &[&[u8]], sig: &[u8]) -> bool {
        match self {
            VK::P256(k) => byhash!(h, k, verify, m, sig).is_ok(),
            VK::P384(k) => byhash!(h, k, verify, m, sig).is_ok(),
        }
    }
    pub fn verify_asn1(&self, h: usize, m: &[&[u8]], sig: &[u8]) -> bool {
        match self {
            VK::P256(k) => byhash!(h, k, verify_asn1, m, sig).is_ok(),
            VK::P384(k) => byhash!(h, k, verify_asn1, m, sig).is_ok(),
        }
    }
}
impl SK {
    /// a signing key for the given scalar, through the public import path
    pub fn new(ci: usize, d: &BigUint) -> Option<SK> {
        let c = curve(ci);
        use graviola::key_agreement::{p256, p384};
        let b = c.enc(d);
        if ci == 0 {
            p256::StaticPrivateKey::from_bytes(&b).ok().map(|private_key| SK::P256(SigningKey { private_key }))
        } else {
            p384::StaticPrivateKey::from_bytes(&b).ok().map(|private_key| SK::P384(SigningKey { private_key }))
        }
    }
    pub fn generate(ci: usize) -> Option<SK> {
        if ci == 0 {
            SigningKey::<P256>::generate().ok().map(SK::P256)
        } else {
            SigningKey::<P384>::generate().ok().map(SK::P384)
        }
    }
    pub fn d(&self) -> Vec<u8> {
        match self {
            SK::P256(k) => k.private_key.as_bytes().to_vec(),
            SK::P384(k) => k.private_key.as_bytes().to_vec(),
        }
    }
    pub fn public(&self) -> Vec<u8> {
        match self {
            SK::P256(k) => k.private_key.public_key_uncompressed().to_vec(),
            SK::P384(k) => k.private_key.public_key_uncompressed().to_vec(),
        }
    }
    pub fn sign<'a>(&self, h: usize, m: &[&[u8]], out: &'a mut [u8]) -> Result<&'a [u8], graviola::Error> {
        match self {
            SK::P256(k) => byhash!(h, k, sign, m, out),
            SK::P384(k) => byhash!(h, k, sign, m, out),
        }
    }
    pub fn sign_asn1<'a>(&self, h: usize, m: &[&[u8]], out: &'a mut [u8]) -> Result<&'a [u8], graviola::Error> {
        match self {
            SK::P256(k) => byhash!(h, k, sign_asn1, m, out),
            SK::P384(k) => byhash!(h, k, sign_asn1, m, out),
        }
    }
}
/// digest by an independent implementation
pub fn hash(h: usize, m: &[u8]) -> Vec<u8> {
    let a = [&digest::SHA256, &digest::SHA384, &digest::SHA512][h];
    digest::digest(a, m).as_ref().to_vec()
}
/// aws-lc verification, where it offers that curve/hash/encoding combination
pub fn awslc(ci: usize, h: usize, asn1: bool, q: &[u8], m: &[u8], sig: &[u8]) -> Option<bool> {
    let alg: &'static dyn asig::VerificationAlgorithm = match (ci, h, asn1) {
        (0, 0, false) => &asig::ECDSA_P256_SHA256_FIXED,
        (0, 0, true) => &asig::ECDSA_P256_SHA256_ASN1,
        (0, 1, true) => &asig::ECDSA_P256_SHA384_ASN1,
        (1, 1, false) => &asig::ECDSA_P384_SHA384_FIXED,
        (1, 0, true) => &asig::ECDSA_P384_SHA256_ASN1,
        (1, 1, true) => &asig::ECDSA_P384_SHA384_ASN1,
        _ => return None,
    };
    Some(asig::UnparsedPublicKey::new(alg, q).verify(m, sig).is_ok())
}
pub fn pieces<'a>(m: &'a [u8], parts: &[usize]) -> Vec<&'a [u8]> {
    let mut v = Vec::new();
    let mut o = 0;
    for p in parts {
        v.push(&m[o..o + p]);
        o += p;
    }
    v
}
pub fn der_sig(r: &BigUint, s: &BigUint) -> Vec<u8> {
    use crate::refs::der::*;
    seq(&[uint(&bi(r)), uint(&bi(s))])
}
pub fn bi(v: &BigUint) -> Vec<u8> {
    v.to_bytes_be()
}
pub fn message(s: &mut Src) -> Vec<u8> {
    let n = match s.idx(3) {
        0 => s.idx(40),
        1 => s.idx(300),
        _ => s.len(2000),
    };
    s.blob(n)
}
/// strict DER: exactly SEQUENCE { INTEGER >= 0, INTEGER >= 0 }, definite minimal lengths, nothing else
pub fn parse_der_sig(b: &[u8]) -> Option<(BigUint, BigUint)> {
    fn tlv(b: &[u8], tag: u8) -> Option<(&[u8], &[u8])> {
        if b.len() < 2 || b[0] != tag {
            return None;
        }
        let (n, h) = match b[1] {
            x if x < 0x80 => (x as usize, 2),
            0x81 => {
                let n = *b.get(2)? as usize;
                if n < 0x80 {
                    return None;
                }
                (n, 3)
            }
            0x82 => {
                let n = (*b.get(2)? as usize) << 8 | *b.get(3)? as usize;
                if n < 0x100 {
                    return None;
                }
                (n, 4)
            }
            _ => return None,
        };
        if b.len() < h + n {
            return None;
        }
        Some((&b[h..h + n], &b[h + n..]))
    }
    let int = |v: &[u8]| -> Option<BigUint> {
        if v.is_empty() || v[0] & 0x80 != 0 || (v.len() > 1 && v[0] == 0 && v[1] & 0x80 == 0) {
            return None;
        }
        Some(BigUint::from_bytes_be(v))
    };
    let (body, rest) = tlv(b, 0x30)?;
    if !rest.is_empty() {
        return None;
    }
    let (r, body) = tlv(body, 2)?;
    let (s, body) = tlv(body, 2)?;
    if !body.is_empty() {
        return None;
    }
    Some((int(r)?, int(s)?))
}
