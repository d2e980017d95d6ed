//! RSA verification
use super::ecdsautil::{hash, message};
use super::rsautil::*;
use crate::engine::*;
use crate::refs::der;
use crate::refs::ec::be;
use graviola::signing::rsa::VerifyingKey;
use num_bigint::BigUint;
use num_traits::{One, Zero};

fn load(k: &Key) -> Result<VerifyingKey, Fail> {
    match VerifyingKey::from_pkcs1_der(&k.public_der()) {
        Ok(v) => Ok(v),
        Err(e) => fail("key-refused", format!("{}-bit public key e={} refused: {e:?}", k.n.bits(), k.e)),
    }
}
fn judge(s: &mut Src, k: &Key, pss: bool, h: usize, m: &[u8], sig: &[u8], what: &str) -> R {
    let v = load(k)?;
    let want = verify_ref(&k.n, &k.e, pss, h, m, sig);
    let got = verify(&v, pss, h, m, sig);
    s.emit_ok(got);
    s.label(if want { "valid" } else { "invalid" });
    s.note(format!("{} bits e={} {} {what} sig={}", k.n.bits(), k.e, name(pss, h), hexs(sig)));
    ensure!(got == want, format!("{}-{what}", if pss { "pss" } else { "pkcs1" }), "{}-bit modulus, e={}, {}, {what}: accepted={got}, RFC 8017 says {want}; n={} msg={} sig={}", k.n.bits(), k.e, name(pss, h), hex(&k.n.to_bytes_be()), hex(m), hex(sig));
    Ok(())
}
fn good_em(s: &mut Src, k: &Key, pss: bool, h: usize, m: &[u8]) -> BigUint {
    if pss {
        let salt = s.blob(hlen(h));
        BigUint::from_bytes_be(&emsa_pss(k.n.bits() as usize, &hash(h, m), &Pss { h, mgf: h, salt, sep: 1, ps_byte: None, bc: 0xbc, clear_top: true, prefix: [0; 8] }))
    } else {
        BigUint::from_bytes_be(&emsa_pkcs1(k.k(), h, m))
    }
}
/// valid signatures over every kind of modulus
fn valid(s: &mut Src) -> R {
    let shape = if s.bool() { Shape::Common } else { Shape::Any };
    let Some(k) = key(s, shape) else { return Ok(()) };
    let pss = s.bool();
    let h = s.idx(3);
    let m = message(s);
    s.nontrivial();
    let em = good_em(s, &k, pss, h, &m);
    let sig = be(&k.private(&em), k.k());
    if !verify_ref(&k.n, &k.e, pss, h, &m, &sig) {
        return fail("harness", "constructed signature is not valid");
    }
    judge(s, &k, pss, h, &m, &sig, "valid")?;
    if k.n.bits() % 8 == 0 && k.e == BigUint::from(65537u32) {
        ensure!(awslc_verify(&k.n, &k.e, pss, h, &m, &sig), "oracle-disagrees", "aws-lc rejects the reference signature");
    }
    if k.n.bits() % 64 != 0 {
        s.label("odd-size");
    }
    Ok(())
}
/// wrong encodings under a correct exponentiation: what a forger with the private key of a
/// sloppy verifier would try
fn wrong_em(s: &mut Src) -> R {
    let shape = if s.weighted(&[3, 1]) == 0 { Shape::Common } else { Shape::Any };
    let Some(k) = key(s, shape) else { return Ok(()) };
    let pss = s.bool();
    let h = s.idx(3);
    let m = message(s);
    s.nontrivial();
    let kl = k.k();
    let bits = k.n.bits() as usize;
    let (em, what): (BigUint, &'static str) = if pss {
        let mut o = Pss { h, mgf: h, salt: s.blob(hlen(h)), sep: 1, ps_byte: None, bc: 0xbc, clear_top: true, prefix: [0; 8] };
        let mut mh = hash(h, &m);
        let mut flip = None;
        let what = match s.idx(13) {
            0 => {
                let n = s.idx(100);
                o.salt = s.blob(n);
                "salt-length"
            }
            1 => {
                o.mgf = (h + 1 + s.idx(2)) % 3;
                "mgf-hash"
            }
            2 => {
                o.sep = s.u8();
                "separator"
            }
            3 => {
                o.ps_byte = Some((s.idx(1000), s.u8()));
                "padding"
            }
            4 => {
                o.bc = s.u8();
                "trailer"
            }
            5 => {
                o.clear_top = false;
                "top-bits"
            }
            6 => {
                o.prefix[s.idx(8)] = s.u8();
                "prefix"
            }
            7 => {
                let h2 = (h + 1 + s.idx(2)) % 3;
                mh = hash(h2, &m);
                "message-hash"
            }
            8 => {
                flip = Some(s.idx(bits - 1));
                "em-bit"
            }
            9 => {
                o.ps_byte = Some((0, s.u8()));
                "first-padding"
            }
            10 => {
                o.salt = vec![];
                "no-salt"
            }
            11 => {
                // whole-other-hash encoding
                let h2 = (h + 1 + s.idx(2)) % 3;
                o.h = h2;
                o.mgf = h2;
                o.salt = s.blob(hlen(h2));
                mh = hash(h2, &m);
                "other-hash"
            }
            _ => {
                // top bit beyond emBits, kept below n
                flip = Some(bits - 1);
                "bit-above-embits"
            }
        };
        let mut em = BigUint::from_bytes_be(&emsa_pss(bits, &mh, &o));
        if let Some(b) = flip {
            em ^= BigUint::one() << b;
        }
        (em, what)
    } else {
        let good = emsa_pkcs1(kl, h, &m);
        let tl = 19 + hlen(h);
        let mut em = good.clone();
        let hv = hash(h, &m);
        let what = match s.idx(14) {
            0 => {
                let i = s.idx(em.len());
                em[i] ^= 1 << s.idx(8);
                "em-bit"
            }
            1 => {
                em[1] = s.u8();
                "block-type"
            }
            2 => {
                let i = s.range(2, kl - tl - 2);
                em[i] = s.u8();
                "padding-byte"
            }
            3 => {
                em[kl - tl - 1] = s.u8();
                "separator"
            }
            4 => {
                // short padding with garbage after the hash
                let t = &good[kl - tl..];
                let ps = s.range(0, kl - tl - 4);
                let mut v = vec![0, 1];
                v.extend(vec![0xff; ps]);
                v.push(0);
                v.extend_from_slice(t);
                while v.len() < kl {
                    v.push(s.u8());
                }
                v.truncate(kl);
                em = v;
                "garbage-after"
            }
            5 => {
                // parameters omitted instead of NULL
                let oid = &unhex(DI[h])[6..15].to_vec();
                let alg = der::seq(&[der::tlv(6, &oid[..])]);
                let alg = if alg.is_empty() { vec![] } else { alg };
                let t = der::seq(&[alg, der::octets(&hv)]);
                em = pad(kl, &t);
                "no-null"
            }
            6 => {
                let t = &hv;
                em = pad(kl, t);
                "bare-hash"
            }
            7 => {
                // other hash's DigestInfo around this hash value
                let h2 = (h + 1 + s.idx(2)) % 3;
                let mut t = unhex(DI[h2]);
                t.extend_from_slice(&hv);
                em = pad(kl, &t);
                "other-digestinfo"
            }
            8 => {
                let h2 = (h + 1 + s.idx(2)) % 3;
                em = emsa_pkcs1(kl, h2, &m);
                "other-hash"
            }
            9 => {
                // long-form length in DigestInfo
                let mut t = unhex(DI[h]);
                t.extend_from_slice(&hv);
                let mut v = vec![0x30, 0x81, t[1]];
                v.extend_from_slice(&t[2..]);
                em = pad(kl, &v);
                "ber-length"
            }
            10 => {
                // leading zero dropped: value shifted by one byte
                em = good[1..].to_vec();
                em.push(s.u8());
                "shifted"
            }
            11 => {
                em[0] = s.u8();
                "leading-byte"
            }
            12 => {
                // a hash truncated or extended
                let mut t = unhex(DI[h]);
                let n = s.idx(hlen(h));
                t.extend_from_slice(&hv[..n]);
                let l = t.len();
                t[1] = (l - 2) as u8;
                t[18] = n as u8;
                em = pad(kl, &t);
                "truncated-hash"
            }
            _ => {
                // parameters replaced by something else of the same length
                let mut t = unhex(DI[h]);
                t.extend_from_slice(&hv);
                t[15] = s.u8();
                t[16] = s.below(2) as u8;
                em = pad(kl, &t);
                "parameters"
            }
        };
        (BigUint::from_bytes_be(&em), what)
    };
    if em >= k.n {
        return Ok(());
    }
    s.label(what);
    let sig = be(&k.private(&em), kl);
    judge(s, &k, pss, h, &m, &sig, what)
}
fn pad(k: usize, t: &[u8]) -> Vec<u8> {
    let mut v = vec![0, 1];
    v.extend(vec![0xff; k - t.len() - 3]);
    v.push(0);
    v.extend_from_slice(t);
    v
}
/// changed signatures, lengths, messages and keys
fn near(s: &mut Src) -> R {
    let shape = if s.weighted(&[3, 1]) == 0 { Shape::Common } else { Shape::Any };
    let Some(mut k) = key(s, shape) else { return Ok(()) };
    let pss = s.bool();
    let h = s.idx(3);
    let mut m = message(s);
    s.nontrivial();
    let kl = k.k();
    let em = good_em(s, &k, pss, h, &m);
    let mut v = k.private(&em);
    // some cases need a signature with leading zero bytes
    let small = s.one_in(60) && k.n.bits() <= 2100;
    if small && !pss {
        // grind the message for a leading zero byte
        for i in 0..3000u32 {
            if v.bits() as usize <= (kl - 1) * 8 {
                break;
            }
            m.extend_from_slice(&i.to_be_bytes());
            v = k.private(&BigUint::from_bytes_be(&emsa_pkcs1(kl, h, &m)));
            if i > 300 {
                break;
            }
        }
    }
    let mut sig = be(&v, kl);
    let (mut pss2, mut h2) = (pss, h);
    let what = match s.idx(12) {
        0 => {
            let i = s.idx(kl * 8);
            sig[i / 8] ^= 1 << (i % 8);
            "sig-bit"
        }
        1 => {
            let t = &v + &k.n;
            if t.bits() as usize <= kl * 8 {
                sig = be(&t, kl);
            } else {
                sig = be(&t, kl + 1);
            }
            "plus-n"
        }
        2 => {
            let n = s.range(1, 9);
            let mut t = vec![0; n];
            t.extend(&sig);
            sig = t;
            "leading-zeros"
        }
        3 => {
            let z = sig.iter().take_while(|b| **b == 0).count();
            if z == 0 {
                sig.remove(0);
            } else {
                sig.drain(..z);
                s.label("zero-stripped");
            }
            "stripped"
        }
        4 => {
            let n = s.idx(kl);
            sig.truncate(n);
            "truncated"
        }
        5 => {
            let n = s.range(1, 20);
            sig.extend(vec![0; n]);
            "extended"
        }
        6 => {
            let z = [BigUint::zero(), BigUint::one(), &k.n - 1u32, k.n.clone(), &k.n + 1u32, &k.n - &v];
            let t = s.pick(&z).clone();
            if t.bits() as usize > kl * 8 {
                return Ok(());
            }
            sig = be(&t, kl);
            "extreme"
        }
        7 => {
            if m.is_empty() {
                m.push(0);
            } else {
                let i = s.idx(m.len());
                m[i] ^= 1 << s.idx(8);
            }
            "message"
        }
        8 => {
            pss2 = !pss;
            "other-padding"
        }
        9 => {
            h2 = (h + 1 + s.idx(2)) % 3;
            "other-hash"
        }
        10 => {
            // same modulus, other exponent
            k.e = exponent(s);
            "other-exponent"
        }
        _ => {
            let n = s.idx(1100);
            sig = s.blob(n);
            "random"
        }
    };
    s.label(what);
    judge(s, &k, pss2, h2, &m, &sig, what)
}
/// arithmetic: random values through a key, decision by reference, on extreme moduli that need
/// not be products of known primes (only rejections and exponent-1-like coincidences can occur)
fn roundtrip(s: &mut Src) -> R {
    // build a modulus for which a chosen value s has s^e = EM: n divides s^3 - EM.
    // take e = 3 and n = the cofactor (s^3 - EM)/f for small f when odd and of the right size
    let h = s.idx(3);
    let m = message(s);
    let k = s.range(256, 340);
    let em = BigUint::from_bytes_be(&emsa_pkcs1(k, h, &m));
    s.nontrivial();
    // s^3 slightly larger than n*t: choose s about 2^((8k+small)/3) + random
    let extra = s.idx(60);
    let sb = (8 * k + extra) / 3 + 1;
    let mut x = (BigUint::one() << sb) + BigUint::from_bytes_be(&s.blob(sb / 8));
    let mut found = None;
    for _ in 0..40 {
        let mut t = &x * &x * &x - &em;
        // strip small factors to get an odd cofactor of exactly 8k bits
        for f in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41] {
            while (&t % f).is_zero() && t.bits() as usize > 8 * k {
                t /= f;
            }
        }
        if t.bit(0) && t.bits() as usize == 8 * k && t > em {
            found = Some(t);
            break;
        }
        x += 1u32;
    }
    let Some(n) = found else {
        s.nontrivial = false;
        return Ok(());
    };
    s.label("cofactor-modulus");
    let kk = Key { p: BigUint::zero(), q: BigUint::zero(), n, e: BigUint::from(3u32), d: BigUint::zero(), dp: BigUint::zero(), dq: BigUint::zero(), qi: BigUint::zero() };
    if x >= kk.n {
        return Ok(());
    }
    let sig = be(&x, k);
    judge(s, &kk, false, h, &m, &sig, "cube")
}
pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "Public keys built from a committed prime pool (2041 to 8192 bits, sizes on and off word and byte boundaries, exponents 3..2^32-1) or as cofactors of s^3-EM; signatures are exact private-key images of correct encodings and of systematically wrong ones, then changed in value, length, message, padding, hash and exponent. The decision is compared with a big-integer RFC 8017 verifier. Every case where a key could be built counts.",
        assumptions: &["digests by aws-lc-rs; exponentiation by num-bigint; exponents are odd and fit 32 bits"],
        subs: vec![
            Sub::new("valid", valid, 2400, 60_000),
            Sub::new("wrong-em", wrong_em, 4000, 120_000),
            Sub::new("near", near, 4000, 120_000),
            Sub::new("cube", roundtrip, 4000, 200_000),
        ],
    }
}
