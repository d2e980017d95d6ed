//! Identities (private keys, certificates) and signatures made without the code under test.
use super::ecdsautil::{der_sig, hash};
use super::ecutil::{curve, scalar};
use super::rsautil as ru;
use crate::engine::*;
use crate::refs::{c25519, der, ec};
use aws_lc_rs::signature::{Ed25519KeyPair, KeyPair};
use num_bigint::BigUint;
use num_traits::Zero;
use rustls::pki_types::{AlgorithmIdentifier, CertificateDer, PrivateKeyDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer, PrivateSec1KeyDer, SignatureVerificationAlgorithm};
use rustls::SignatureScheme as S;

pub const KINDS: [&str; 4] = ["RSA", "P-256", "P-384", "Ed25519"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Alg {
    pub kind: usize,
    pub h: usize,
    pub pss: bool,
}
const fn alg(kind: usize, h: usize, pss: bool) -> Alg {
    Alg { kind, h, pss }
}
pub const ALGS: [Alg; 13] = [
    alg(1, 0, false),
    alg(1, 1, false),
    alg(1, 2, false),
    alg(2, 0, false),
    alg(2, 1, false),
    alg(2, 2, false),
    alg(3, 0, false),
    alg(0, 0, true),
    alg(0, 1, true),
    alg(0, 2, true),
    alg(0, 0, false),
    alg(0, 1, false),
    alg(0, 2, false),
];
/// TLS names of algorithms; for ECDSA the curve is the one TLS1.3 ties to the hash
pub const SCHEMES: [(S, usize); 9] = [
    (S::RSA_PSS_SHA512, 9),
    (S::RSA_PSS_SHA384, 8),
    (S::RSA_PSS_SHA256, 7),
    (S::RSA_PKCS1_SHA512, 12),
    (S::RSA_PKCS1_SHA384, 11),
    (S::RSA_PKCS1_SHA256, 10),
    (S::ECDSA_NISTP256_SHA256, 0),
    (S::ECDSA_NISTP384_SHA384, 4),
    (S::ED25519, 6),
];
/// algorithms a scheme may stand for in TLS1.2
pub fn tls12(scheme: S) -> Vec<usize> {
    match scheme {
        S::ECDSA_NISTP256_SHA256 => vec![0, 3],
        S::ECDSA_NISTP384_SHA384 => vec![1, 4],
        _ => SCHEMES.iter().filter(|x| x.0 == scheme).map(|x| x.1).collect(),
    }
}
fn spki_alg(kind: usize) -> Vec<u8> {
    match kind {
        0 => [der::oid(der::RSA), der::null()].concat(),
        1 => [der::oid(der::EC_PUBLIC_KEY), der::oid(der::P256)].concat(),
        2 => [der::oid(der::EC_PUBLIC_KEY), der::oid(der::P384)].concat(),
        _ => der::oid(der::ED25519),
    }
}
/// contents of the signature AlgorithmIdentifier
pub fn sig_alg(i: usize) -> Vec<u8> {
    let a = ALGS[i];
    match a.kind {
        0 if a.pss => {
            let h = der::seq(&[der::oid(&[2, 16, 840, 1, 101, 3, 4, 2, a.h as u32 + 1]), der::null()]);
            let mgf = der::seq(&[der::oid(&[1, 2, 840, 113549, 1, 1, 8]), h.clone()]);
            let p = der::seq(&[der::tlv(0xa0, &h), der::tlv(0xa1, &mgf), der::tlv(0xa2, &der::uint(&[ru::hlen(a.h) as u8]))]);
            [der::oid(&[1, 2, 840, 113549, 1, 1, 10]), p].concat()
        }
        0 => [der::oid(&[1, 2, 840, 113549, 1, 1, 11 + a.h as u32]), der::null()].concat(),
        3 => der::oid(der::ED25519),
        _ => der::oid(&[1, 2, 840, 10045, 4, 3, a.h as u32 + 2]),
    }
}
pub fn find<'a>(all: &'a [&'static dyn SignatureVerificationAlgorithm], i: usize) -> Option<&'a &'static dyn SignatureVerificationAlgorithm> {
    let (k, s) = (spki_alg(ALGS[i].kind), sig_alg(i));
    let is = |a: AlgorithmIdentifier, b: &[u8]| a.as_ref() == b;
    all.iter().find(|a| is(a.public_key_alg_id(), &k) && is(a.signature_alg_id(), &s))
}

#[derive(Clone)]
pub enum Secret {
    Rsa(Box<ru::Key>),
    Ec(BigUint),
    Ed([u8; 32]),
}
#[derive(Clone)]
pub struct Id {
    pub kind: usize,
    pub secret: Secret,
    /// as it stands in the BIT STRING of a SubjectPublicKeyInfo
    pub public: Vec<u8>,
}
impl Id {
    pub fn generate(s: &mut Src, kind: usize) -> Id {
        match kind {
            0 => {
                let k = (0..20).find_map(|_| ru::key(s, ru::Shape::Common).filter(|k| k.n.bits() <= 4096));
                let k = k.unwrap_or_else(|| {
                    let p: Vec<&BigUint> = ru::primes().iter().filter(|p| p.bits() == 1024 && p.bit(1022)).collect();
                    (0..).find_map(|i| ru::Key::new(p[i], p[i + 1], &BigUint::from(65537u32))).unwrap()
                });
                Id::rsa(k)
            }
            1 | 2 => {
                let d = scalar(s, curve(kind - 1));
                Id::ec(kind, d)
            }
            _ => {
                let seed: [u8; 32] = s.barr();
                Id::ed(seed)
            }
        }
    }
    pub fn rsa(k: ru::Key) -> Id {
        Id { kind: 0, public: k.public_der(), secret: Secret::Rsa(Box::new(k)) }
    }
    pub fn ec(kind: usize, d: BigUint) -> Id {
        let c = curve(kind - 1);
        Id { kind, public: c.point(&c.mul_g(&d)), secret: Secret::Ec(d) }
    }
    pub fn ed(seed: [u8; 32]) -> Id {
        Id { kind: 3, public: Ed25519KeyPair::from_seed_unchecked(&seed).unwrap().public_key().as_ref().to_vec(), secret: Secret::Ed(seed) }
    }
    pub fn spki(&self) -> Vec<u8> {
        der::seq(&[der::tlv(0x30, &spki_alg(self.kind)), der::bits(&self.public)])
    }
    /// the encodings TLS libraries load a key from: 0 the usual PKCS#8, others by kind
    pub fn private(&self, form: usize) -> PrivateKeyDer<'static> {
        let inner = match &self.secret {
            Secret::Rsa(k) => k.private_der(),
            Secret::Ec(d) => {
                let c = curve(self.kind - 1);
                let mut parts = vec![der::uint(&[1]), der::octets(&c.enc(d))];
                if form == 1 || form == 3 {
                    parts.push(der::tlv(0xa0, &der::oid([der::P256, der::P384][self.kind - 1])));
                }
                if form != 3 {
                    parts.push(der::tlv(0xa1, &der::bits(&self.public)));
                }
                der::seq(&parts)
            }
            Secret::Ed(seed) => der::octets(seed),
        };
        if form % 2 == 1 {
            match self.kind {
                0 => return PrivateKeyDer::Pkcs1(PrivatePkcs1KeyDer::from(inner)),
                1 | 2 => return PrivateKeyDer::Sec1(PrivateSec1KeyDer::from(inner)),
                _ => {}
            }
        }
        let mut parts = vec![der::uint(&[0]), der::tlv(0x30, &spki_alg(self.kind)), der::octets(&inner)];
        if form == 2 && self.kind != 0 {
            parts[0] = der::uint(&[1]);
            let mut b = der::bits(&self.public);
            b[0] = 0x81;
            parts.push(b);
        }
        PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(der::seq(&parts)))
    }
    pub fn sign(&self, s: &mut Src, a: Alg, m: &[u8]) -> Vec<u8> {
        match &self.secret {
            Secret::Rsa(k) => {
                let em = if a.pss {
                    let o = ru::Pss { h: a.h, mgf: a.h, salt: s.bytes(ru::hlen(a.h)), sep: 1, ps_byte: None, bc: 0xbc, clear_top: true, prefix: [0; 8] };
                    ru::emsa_pss(k.n.bits() as usize, &hash(a.h, m), &o)
                } else {
                    ru::emsa_pkcs1(k.k(), a.h, m)
                };
                ec::be(&k.private(&BigUint::from_bytes_be(&em)), k.k())
            }
            Secret::Ec(_) => {
                let (r, v) = self.ec_sign(s, a.h, m);
                der_sig(&r, &v)
            }
            Secret::Ed(seed) => Ed25519KeyPair::from_seed_unchecked(seed).unwrap().sign(m).as_ref().to_vec(),
        }
    }
    pub fn ec_sign(&self, s: &mut Src, h: usize, m: &[u8]) -> (BigUint, BigUint) {
        let Secret::Ec(d) = &self.secret else { panic!("not an EC key") };
        let c = curve(self.kind - 1);
        loop {
            let k = scalar(s, c);
            let r = c.mul_g(&k).unwrap().0 % &c.n;
            let e = c.bits2int(&hash(h, m));
            let v = c.ninv(&k) * (e + &r * d) % &c.n;
            if !r.is_zero() && !v.is_zero() {
                return (r, v);
            }
        }
    }
    /// the decision of the standards
    pub fn verify(&self, a: Alg, m: &[u8], sig: &[u8]) -> bool {
        if a.kind != self.kind {
            return false;
        }
        match &self.secret {
            Secret::Rsa(k) => ru::verify_ref(&k.n, &k.e, a.pss, a.h, m, sig),
            Secret::Ec(d) => {
                let c = curve(self.kind - 1);
                match super::ecdsautil::parse_der_sig(sig) {
                    Some((r, v)) => c.ecdsa_verify(&c.mul_g(d), &hash(a.h, m), &r, &v),
                    None => false,
                }
            }
            Secret::Ed(_) => sig.len() == 64 && c25519::ed_verify(&self.public[..].try_into().unwrap(), sig, m),
        }
    }
}
pub fn name(cn: &str) -> Vec<u8> {
    let at = der::seq(&[der::oid(&[2, 5, 4, 3]), der::tlv(0x0c, cn.as_bytes())]);
    der::seq(&[der::tlv(0x31, &at)])
}
/// the part of a certificate that is signed
pub fn tbs(serial: &[u8], issuer: &str, subject: &str, spki: &[u8], ca: bool, alg: usize) -> Vec<u8> {
    let ext = |id: &[u32], critical: bool, v: Vec<u8>| {
        let mut p = vec![der::oid(id)];
        if critical {
            p.push(der::tlv(1, &[0xff]));
        }
        p.push(der::octets(&v));
        der::seq(&p)
    };
    let mut exts = vec![];
    if ca {
        exts.push(ext(&[2, 5, 29, 19], true, der::seq(&[der::tlv(1, &[0xff])])));
    } else {
        exts.push(ext(&[2, 5, 29, 17], false, der::seq(&[der::tlv(0x82, b"localhost")])));
    }
    der::seq(&[
        der::tlv(0xa0, &der::uint(&[2])),
        der::uint(serial),
        der::tlv(0x30, &sig_alg(alg)),
        name(issuer),
        der::seq(&[der::tlv(0x17, b"000101000000Z"), der::tlv(0x17, b"491231235959Z")]),
        name(subject),
        spki.to_vec(),
        der::tlv(0xa3, &der::seq(&exts)),
    ])
}
pub fn wrap(tbs: &[u8], alg: usize, sig: &[u8]) -> CertificateDer<'static> {
    CertificateDer::from(der::seq(&[tbs.to_vec(), der::tlv(0x30, &sig_alg(alg)), der::bits(sig)]))
}
/// a certificate for `subject`, signed by `ca` under algorithm `alg`
pub fn certify(s: &mut Src, ca: &Id, issuer: &str, alg: usize, subject: &str, spki: &[u8], is_ca: bool) -> CertificateDer<'static> {
    let t = tbs(&[1 + s.u8() % 100], issuer, subject, spki, is_ca, alg);
    let sig = ca.sign(s, ALGS[alg], &t);
    wrap(&t, alg, &sig)
}
