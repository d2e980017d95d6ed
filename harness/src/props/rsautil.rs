use crate::engine::*;
use crate::props::ecdsautil::hash;
use crate::refs::der;
use crate::refs::ec::be;
use graviola::signing::rsa::{SigningKey, VerifyingKey};
use num_bigint::BigUint;
use num_integer::Integer;
use num_traits::{One, Zero};
use std::sync::OnceLock;

pub fn primes() -> &'static Vec<BigUint> {
    static P: OnceLock<Vec<BigUint>> = OnceLock::new();
    P.get_or_init(|| {
        include_str!("../../data/primes.txt")
            .lines()
            .map(|l| BigUint::parse_bytes(l.split_whitespace().nth(1).unwrap().as_bytes(), 16).unwrap())
            .collect()
    })
}
#[derive(Clone)]
pub struct Key {
    pub p: BigUint,
    pub q: BigUint,
    pub n: BigUint,
    pub e: BigUint,
    pub d: BigUint,
    pub dp: BigUint,
    pub dq: BigUint,
    pub qi: BigUint,
}
pub fn modinv(a: &BigUint, m: &BigUint) -> Option<BigUint> {
    use num_bigint::BigInt;
    let a = BigInt::from(a % m);
    let mm = BigInt::from(m.clone());
    let g = a.extended_gcd(&mm);
    if g.gcd != BigInt::one() {
        return None;
    }
    let x = ((g.x % &mm) + &mm) % &mm;
    x.to_biguint()
}
impl Key {
    pub fn new(p: &BigUint, q: &BigUint, e: &BigUint) -> Option<Key> {
        if p == q {
            return None;
        }
        let (p1, q1) = (p - 1u32, q - 1u32);
        let d = modinv(e, &(&p1 * &q1))?;
        Some(Key { n: p * q, dp: &d % &p1, dq: &d % &q1, qi: modinv(q, p)?, p: p.clone(), q: q.clone(), e: e.clone(), d })
    }
    pub fn k(&self) -> usize {
        self.n.bits().div_ceil(8) as usize
    }
    /// c^d mod n, by the textbook CRT
    pub fn private(&self, c: &BigUint) -> BigUint {
        let m1 = (c % &self.p).modpow(&self.dp, &self.p);
        let m2 = (c % &self.q).modpow(&self.dq, &self.q);
        let h = ((&m1 + &self.p - &m2 % &self.p) * &self.qi) % &self.p;
        m2 + h * &self.q
    }
    pub fn public_der(&self) -> Vec<u8> {
        der::seq(&[ui(&self.n), ui(&self.e)])
    }
    pub fn private_der(&self) -> Vec<u8> {
        der::seq(&[
            der::uint(&[]),
            ui(&self.n),
            ui(&self.e),
            ui(&self.d),
            ui(&self.p),
            ui(&self.q),
            ui(&self.dp),
            ui(&self.dq),
            ui(&self.qi),
        ])
    }
    pub fn consistent(&self) -> bool {
        let (p1, q1) = (&self.p - 1u32, &self.q - 1u32);
        self.n == &self.p * &self.q
            && (&self.dp * &self.e % &p1).is_one()
            && (&self.dq * &self.e % &q1).is_one()
            && (&self.qi * &self.q % &self.p).is_one()
            && self.dp < self.p
            && self.dq < self.q
            && self.qi < self.p
    }
}
pub fn ui(v: &BigUint) -> Vec<u8> {
    if v.is_zero() {
        der::uint(&[])
    } else {
        der::uint(&v.to_bytes_be())
    }
}
/// odd exponent of at most 32 bits
pub fn exponent(s: &mut Src) -> BigUint {
    let e: u32 = match s.weighted(&[6, 3, 2, 2, 2]) {
        0 => 65537,
        1 => *s.pick(&[3u32, 5, 17, 257]),
        2 => (s.u64() as u32) | 1,
        3 => 0xffff_ffff - 2 * s.below(20) as u32,
        _ => (1u32 << s.range(2, 31)) + 1 - 2 * s.below(2) as u32,
    };
    BigUint::from(e.max(3))
}
#[derive(Clone, Copy, PartialEq)]
pub enum Shape {
    /// modulus bits a multiple of 64, p > q of equal size: what common tools generate
    Common,
    /// any two pool primes of similar size
    Any,
}
/// indices of pool primes by size class; cost-weighted towards 2048-bit moduli
pub fn key(s: &mut Src, shape: Shape) -> Option<Key> {
    let pr = primes();
    let e = exponent(s);
    let of = |bits: u64| -> Vec<&BigUint> { pr.iter().filter(|p| p.bits() == bits).collect() };
    let (p, q) = match shape {
        Shape::Common => {
            let bits = *s.pick(&[1024u64, 1024, 1024, 1024, 1024, 1024, 1024, 1024, 1024, 1024, 1024, 1024, 1088, 1280, 1536, 1536, 2048, 2048, 3072, 4096]);
            let c = of(bits);
            // bits of the product must be 2*bits
            let c: Vec<_> = c.into_iter().filter(|p| p.bit(bits - 2)).collect();
            let a = s.idx(c.len());
            let b = s.idx(c.len());
            if a == b {
                return None;
            }
            (c[a].max(c[b]).clone(), c[a].min(c[b]).clone())
        }
        Shape::Any => {
            let lim = if s.one_in(12) { 5000 } else { 1100 };
            let c: Vec<&BigUint> = pr.iter().filter(|p| p.bits() <= lim).collect();
            let a = c[s.idx(c.len())];
            let b = c[s.idx(c.len())];
            (a.clone(), b.clone())
        }
    };
    let k = Key::new(&p, &q, &e)?;
    if k.n.bits() < 2041 || k.n.bits() > 8192 {
        return None;
    }
    Some(k)
}
pub const DI: [&str; 3] = [
    "3031300d060960864801650304020105000420",
    "3041300d060960864801650304020205000430",
    "3051300d060960864801650304020305000440",
];
pub fn hlen(h: usize) -> usize {
    [32, 48, 64][h]
}
/// EMSA-PKCS1-v1_5 encoding as k bytes
pub fn emsa_pkcs1(k: usize, h: usize, m: &[u8]) -> Vec<u8> {
    let mut t = unhex(DI[h]);
    t.extend(hash(h, m));
    let mut em = vec![0, 1];
    em.extend(vec![0xff; k - t.len() - 3]);
    em.push(0);
    em.extend(t);
    em
}
pub fn mgf1(h: usize, seed: &[u8], n: usize) -> Vec<u8> {
    let mut o = Vec::new();
    let mut c = 0u32;
    while o.len() < n {
        let mut v = seed.to_vec();
        v.extend(c.to_be_bytes());
        o.extend(hash(h, &v));
        c += 1;
    }
    o.truncate(n);
    o
}
/// EMSA-PSS with explicit internals, so that wrong ones can be made too
pub struct Pss {
    pub h: usize,
    pub mgf: usize,
    pub salt: Vec<u8>,
    pub sep: u8,
    pub ps_byte: Option<(usize, u8)>,
    pub bc: u8,
    pub clear_top: bool,
    pub prefix: [u8; 8],
}
pub fn emsa_pss(bits: usize, mhash: &[u8], o: &Pss) -> Vec<u8> {
    let embits = bits - 1;
    let emlen = embits.div_ceil(8);
    let mut mp = o.prefix.to_vec();
    mp.extend_from_slice(mhash);
    mp.extend_from_slice(&o.salt);
    let hh = hash(o.h, &mp);
    let dblen = emlen - hh.len() - 1;
    let pslen = dblen - o.salt.len() - 1;
    let mut db = vec![0u8; pslen];
    if let Some((i, b)) = o.ps_byte {
        if pslen > 0 {
            db[i % pslen] = b;
        }
    }
    db.push(o.sep);
    db.extend_from_slice(&o.salt);
    let mask = mgf1(o.mgf, &hh, dblen);
    for (a, b) in db.iter_mut().zip(mask) {
        *a ^= b;
    }
    if o.clear_top {
        db[0] &= 0xff >> (8 * emlen - embits);
    }
    db.extend(hh);
    db.push(o.bc);
    db
}
/// EMSA-PSS-VERIFY of RFC 8017, salt as long as the hash
pub fn pss_ok(bits: usize, h: usize, m: &[u8], em: &BigUint) -> bool {
    let embits = bits - 1;
    let emlen = embits.div_ceil(8);
    if em.bits() as usize > emlen * 8 {
        return false;
    }
    let em = be(em, emlen);
    let hl = hlen(h);
    if emlen < 2 * hl + 2 || em[emlen - 1] != 0xbc {
        return false;
    }
    let dblen = emlen - hl - 1;
    let (db, rest) = em.split_at(dblen);
    let hh = &rest[..hl];
    let top = 8 * emlen - embits;
    if top > 0 && db[0] >> (8 - top) != 0 {
        return false;
    }
    let mut db: Vec<u8> = db.iter().zip(mgf1(h, hh, dblen)).map(|(a, b)| a ^ b).collect();
    db[0] &= 0xff >> top;
    let z = dblen - hl - 1;
    if db[..z].iter().any(|b| *b != 0) || db[z] != 1 {
        return false;
    }
    let mut mp = vec![0u8; 8];
    mp.extend(hash(h, m));
    mp.extend_from_slice(&db[z + 1..]);
    hash(h, &mp) == hh
}
/// the decision of RFC 8017 on a signature
pub fn verify_ref(n: &BigUint, e: &BigUint, pss: bool, h: usize, m: &[u8], sig: &[u8]) -> bool {
    let k = n.bits().div_ceil(8) as usize;
    if sig.len() != k {
        return false;
    }
    let s = BigUint::from_bytes_be(sig);
    if &s >= n {
        return false;
    }
    let em = s.modpow(e, n);
    if pss {
        pss_ok(n.bits() as usize, h, m, &em)
    } else {
        be(&em, k) == emsa_pkcs1(k, h, m)
    }
}
pub fn verify(k: &VerifyingKey, pss: bool, h: usize, m: &[u8], sig: &[u8]) -> bool {
    match (pss, h) {
        (false, 0) => k.verify_pkcs1_sha256(sig, m),
        (false, 1) => k.verify_pkcs1_sha384(sig, m),
        (false, _) => k.verify_pkcs1_sha512(sig, m),
        (true, 0) => k.verify_pss_sha256(sig, m),
        (true, 1) => k.verify_pss_sha384(sig, m),
        (true, _) => k.verify_pss_sha512(sig, m),
    }
    .is_ok()
}
pub fn sign(k: &SigningKey, pss: bool, h: usize, m: &[u8], out: &mut [u8]) -> Option<Vec<u8>> {
    match (pss, h) {
        (false, 0) => k.sign_pkcs1_sha256(out, m),
        (false, 1) => k.sign_pkcs1_sha384(out, m),
        (false, _) => k.sign_pkcs1_sha512(out, m),
        (true, 0) => k.sign_pss_sha256(out, m),
        (true, 1) => k.sign_pss_sha384(out, m),
        (true, _) => k.sign_pss_sha512(out, m),
    }
    .ok()
    .map(|s| s.to_vec())
}
pub fn awslc_verify(n: &BigUint, e: &BigUint, pss: bool, h: usize, m: &[u8], sig: &[u8]) -> bool {
    use aws_lc_rs::signature as a;
    let alg: &'static a::RsaParameters = match (pss, h) {
        (false, 0) => &a::RSA_PKCS1_2048_8192_SHA256,
        (false, 1) => &a::RSA_PKCS1_2048_8192_SHA384,
        (false, _) => &a::RSA_PKCS1_2048_8192_SHA512,
        (true, 0) => &a::RSA_PSS_2048_8192_SHA256,
        (true, 1) => &a::RSA_PSS_2048_8192_SHA384,
        (true, _) => &a::RSA_PSS_2048_8192_SHA512,
    };
    let der = der::seq(&[ui(n), ui(e)]);
    a::UnparsedPublicKey::new(alg, &der).verify(m, sig).is_ok()
}
pub fn name(pss: bool, h: usize) -> String {
    format!("{}-{}", if pss { "pss" } else { "pkcs1" }, ["sha256", "sha384", "sha512"][h])
}
