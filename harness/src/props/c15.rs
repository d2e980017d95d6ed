//! C15: generated RSA keys are valid keys of the requested size.
use super::rsautil::*;
use crate::engine::*;
use crate::refs::ec::be;
use crate::rngshim;
use graviola::signing::rsa::{KeySize, SigningKey};
use num_bigint::BigUint;
use num_integer::Integer;
use num_traits::{One, Zero};
use std::sync::OnceLock;

/// composites that pass weak primality tests: (kind, bits, value)
fn pseudo() -> &'static Vec<(&'static str, u64, BigUint)> {
    static P: OnceLock<Vec<(&'static str, u64, BigUint)>> = OnceLock::new();
    P.get_or_init(|| {
        include_str!("../../data/pseudo.txt")
            .lines()
            .map(|l| {
                let f: Vec<&'static str> = l.split_whitespace().collect();
                (f[0], f[1].parse().unwrap(), BigUint::parse_bytes(f[2].as_bytes(), 16).unwrap())
            })
            .collect()
    })
}
/// one strong-probable-prime test to base `b`
pub fn sprp(n: &BigUint, b: &BigUint) -> bool {
    let n1 = n - 1u32;
    let a = n1.trailing_zeros().unwrap();
    let mut z = b.modpow(&(&n1 >> a), n);
    if z.is_one() || z == n1 {
        return true;
    }
    for _ in 1..a {
        z = &z * &z % n;
        if z == n1 {
            return true;
        }
    }
    false
}
/// primality by Miller-Rabin with bases fixed in advance (unrelated to the code under test)
pub fn is_prime(n: &BigUint) -> bool {
    if primes().contains(n) {
        return true;
    }
    if n.is_even() || n.bits() < 8 {
        return false;
    }
    for p in [3u32, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73] {
        if (n % p).is_zero() {
            return false;
        }
    }
    let mut x = 0x5eed_u64;
    (0..14).all(|i| {
        let b = if i == 0 {
            BigUint::from(2u32)
        } else {
            let v: Vec<u8> = (0..n.bits() / 8).map(|_| splitmix(&mut x) as u8).collect();
            BigUint::from_bytes_be(&v) % (n - 3u32) + 2u32
        };
        sprp(n, &b)
    })
}
fn ints(der: &[u8]) -> Option<Vec<BigUint>> {
    // SEQUENCE of nine INTEGERs
    fn head(b: &[u8], tag: u8) -> Option<(usize, usize)> {
        if *b.first()? != tag {
            return None;
        }
        match *b.get(1)? {
            l @ 0..=0x7f => Some((2, l as usize)),
            0x81 => Some((3, *b.get(2)? as usize)),
            0x82 => Some((4, (*b.get(2)? as usize) << 8 | *b.get(3)? as usize)),
            _ => None,
        }
    }
    let (h, l) = head(der, 0x30)?;
    if h + l != der.len() {
        return None;
    }
    let mut b = &der[h..];
    let mut out = vec![];
    while !b.is_empty() {
        let (h, l) = head(b, 2)?;
        let v = b.get(h..h + l)?;
        if v.is_empty() || v[0] & 0x80 != 0 {
            return None;
        }
        out.push(BigUint::from_bytes_be(v));
        b = &b[h + l..];
    }
    Some(out)
}
/// every demand of the property on one generated key
pub fn judge(sk: &SigningKey, bits: u64) -> Result<Key, Fail> {
    let mut buf = vec![0u8; 8192];
    let der = match sk.to_pkcs1_der(&mut buf) {
        Ok(d) => d.to_vec(),
        Err(e) => return fail("export", format!("generated key cannot be exported: {e:?}")),
    };
    let v = match ints(&der) {
        Some(v) if v.len() == 9 && v[0].is_zero() => v,
        _ => return fail("export-format", format!("not an RSAPrivateKey: {}", hexs(&der))),
    };
    let k = Key { n: v[1].clone(), e: v[2].clone(), d: v[3].clone(), p: v[4].clone(), q: v[5].clone(), dp: v[6].clone(), dq: v[7].clone(), qi: v[8].clone() };
    ensure!(k.e == BigUint::from(65537u32), "exponent", "e={:x}", k.e);
    ensure!(k.n.bits() == bits, "modulus-bits", "modulus of {} bits, asked for {bits}: p={:x} q={:x}", k.n.bits(), k.p, k.q);
    ensure!(k.p.bits() == bits / 2 && k.q.bits() == bits / 2, "prime-bits", "primes of {} and {} bits", k.p.bits(), k.q.bits());
    ensure!(k.p != k.q, "equal-primes", "p = q = {:x}", k.p);
    ensure!(k.n == &k.p * &k.q, "product", "n is not p*q: p={:x} q={:x} n={:x}", k.p, k.q, k.n);
    for p in [&k.p, &k.q] {
        ensure!(is_prime(p), "composite", "not a prime: {p:x}");
    }
    let l = (&k.p - 1u32).lcm(&(&k.q - 1u32));
    ensure!((&k.d * &k.e % &l).is_one(), "private-exponent", "d is not the inverse of e: p={:x} q={:x} d={:x}", k.p, k.q, k.d);
    ensure!(k.d < k.n, "private-exponent-range", "d is not below n");
    ensure!(k.consistent(), "components", "dp, dq or qInv wrong: p={:x} q={:x} dp={:x} dq={:x} qi={:x}", k.p, k.q, k.dp, k.dq, k.qi);
    ensure!(sk.modulus_len_bytes() as u64 == bits / 8, "modulus-len", "modulus_len_bytes={}", sk.modulus_len_bytes());
    let mut b2 = vec![0u8; 8192];
    let pd = sk.public_key().to_pkcs1_der(&mut b2).map(|x| x.to_vec());
    ensure!(pd.as_ref().ok() == Some(&k.public_der()), "public", "public key does not belong to the private key");
    let mut sig = vec![0u8; 1024];
    let m = b"generated";
    let got = sign(sk, false, 0, m, &mut sig);
    ensure!(got.as_ref().is_some_and(|g| verify_ref(&k.n, &k.e, false, 0, m, g)), "unusable", "key does not sign: p={:x} q={:x}", k.p, k.q);
    Ok(k)
}
fn size(bits: u64) -> KeySize {
    KeySize::try_from(bits as usize).unwrap()
}
/// each prime is one of the values drawn, but for the two top bits and the lowest
fn drawn(k: &Key, hist: &[Vec<u8>]) -> bool {
    let half = k.p.bits() as usize / 8;
    let hit = |p: &BigUint| {
        hist.iter().filter(|h| h.len() == half).any(|h| {
            let mut v = h.clone();
            v[0] |= 0xc0;
            v[half - 1] |= 1;
            BigUint::from_bytes_be(&v) == *p
        })
    };
    // a source read in other pieces: look for the bytes anywhere in the stream
    let all: Vec<u8> = hist.concat();
    let scan = |p: &BigUint| {
        let pb = be(p, half);
        let mid = &pb[1..half - 1];
        all.windows(mid.len()).any(|w| w == mid)
    };
    (hit(&k.p) || scan(&k.p)) && (hit(&k.q) || scan(&k.q))
}
fn random(s: &mut Src) -> R {
    let bits = if s.one_in(20) { 3072 } else { 2048 };
    s.nontrivial();
    rngshim::prng(&[], s.u64());
    rngshim::keep();
    let r = SigningKey::generate(size(bits));
    let hist = rngshim::history();
    rngshim::reset();
    let sk = match r {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("generation failed with a working source: {e:?}")),
    };
    let k = judge(&sk, bits)?;
    ensure!(drawn(&k, &hist), "source", "primes do not come from the random source: p={:x} q={:x}", k.p, k.q);
    s.note = format!("{bits} bits p={}...", &format!("{:x}", k.p)[..16]);
    s.emit(&k.n.to_bytes_be());
    Ok(())
}
/// witnesses for composite `w` that do not expose it
fn liars(w: &BigUint, n: usize, s: &mut Src) -> Vec<BigUint> {
    let mut out = vec![];
    for _ in 0..60 {
        if out.len() == n {
            break;
        }
        let mut x = s.u64();
        let v: Vec<u8> = (0..w.bits() / 8).map(|_| splitmix(&mut x) as u8).collect();
        let b = BigUint::from_bytes_be(&v) % (w - 3u32) + 2u32;
        if sprp(w, &b) {
            out.push(b);
        }
    }
    out
}
/// random source that first offers numbers picked to be troublesome
fn scripted(s: &mut Src) -> R {
    let bits: u64 = *s.pick(&[2048, 2048, 2048, 2048, 2048, 2048, 3072, 3072]);
    let half = bits / 2;
    let hb = half as usize / 8;
    let seed = s.u64();
    let pool: Vec<&BigUint> = primes().iter().filter(|p| p.bits() == half && p.bit(half - 2)).collect();
    let mut data: Vec<u8> = vec![];
    let mut put = |v: &BigUint| data.extend(be(v, hb));
    let offers = s.range(1, 3);
    for _ in 0..offers {
        match s.weighted(&[4, 3, 2, 2, 2, 2, 1]) {
            0 => {
                // a composite, and as many witnesses in its favour as the standard's round
                // count leaves room for
                let c: Vec<_> = pseudo().iter().filter(|p| p.1 == half && p.0 == "double").collect();
                let w = &s.pick(&c).2.clone();
                let n = if bits == 2048 { 4 } else { 3 };
                let n = s.range(0, n);
                let l = liars(w, n, s);
                s.label("pseudoprime-liars");
                put(w);
                // draws that say nothing about it (0, 1, w-1 and beyond) and must not count
                let mut all: Vec<BigUint> = l;
                if s.bool() {
                    let one = BigUint::one();
                    let top = &one << half;
                    let z = [BigUint::zero(), one.clone(), w - &one, w.clone(), w + &one, &top - &one];
                    let only = s.weighted(&[2, 1, 2, 2, 1, 2, 1]);
                    for _ in 0..s.range(1, 8) {
                        let i = if only < 6 { only } else { s.idx(6) };
                        if z[i] < top {
                            all.insert(s.idx(all.len() + 1), z[i].clone());
                        }
                    }
                    s.label("empty-witnesses");
                }
                for b in all {
                    put(&b);
                }
                // and witnesses against it
                let mut x = s.u64();
                let mut k = 0;
                while k < 3 {
                    let v: Vec<u8> = (0..hb).map(|_| splitmix(&mut x) as u8).collect();
                    let b = BigUint::from_bytes_be(&v) % w;
                    if !sprp(w, &b) {
                        put(&b);
                        k += 1;
                    }
                }
            }
            1 => {
                let c: Vec<_> = pseudo().iter().filter(|p| p.1 == half && p.0 == "carmichael").collect();
                s.label("carmichael");
                put(&s.pick(&c).2);
            }
            2 => {
                // small factor
                let f = *s.pick(&[3u32, 5, 7, 11, 13, 101, 557, 733, 739, 743, 751, 757, 761, 1009, 65537]);
                let mut v = (BigUint::one() << half) - 1u32 - BigUint::from_bytes_be(&s.bytes(hb / 2));
                v -= &v % f;
                if v.is_even() {
                    v -= f;
                }
                s.label("small-factor");
                put(&v);
            }
            3 => {
                // product of two large primes, or a square
                let c: Vec<&BigUint> = primes().iter().filter(|p| p.bits() <= half / 2 + 1).collect();
                let a = if half == 1024 { c[s.idx(c.len())].clone() } else { BigUint::from(65537u32) };
                let mut v = &a * &a;
                while v.bits() < half {
                    v *= &a;
                }
                if v.bits() > half {
                    v = pool[0] - 2u32;
                }
                s.label("square");
                put(&v);
            }
            4 => {
                // two good primes, the second where it is expected to be drawn
                let a = pool[s.idx(pool.len())];
                let b = pool[s.idx(pool.len())];
                put(a);
                let mut x = s.u64();
                let n = if s.one_in(3) { s.range(3, 9) } else if bits == 2048 { 6 } else { 5 };
                for _ in 0..n {
                    let v: Vec<u8> = (0..hb).map(|_| splitmix(&mut x) as u8).collect();
                    put(&(BigUint::from_bytes_be(&v) % (a - 3u32) + 2u32));
                }
                put(b);
                s.label("pool-primes");
            }
            5 => {
                // a prime for which e has no inverse
                if let Some(p) = pool.iter().find(|p| ((**p - 1u32) % 65537u32).is_zero()) {
                    put(p);
                    s.label("e-not-coprime");
                } else {
                    put(pool[0]);
                }
            }
            _ => {
                let b = *s.pick(&[0u8, 0xff, 0x80, 1, 0xc0]);
                put(&BigUint::from_bytes_be(&vec![b; hb]));
                s.label("constant");
            }
        }
    }
    s.nontrivial();
    rngshim::prng(&data, seed);
    rngshim::keep();
    let r = SigningKey::generate(size(bits));
    let hist = rngshim::history();
    rngshim::reset();
    match r {
        Ok(sk) => {
            let k = judge(&sk, bits)?;
            ensure!(drawn(&k, &hist), "source", "primes do not come from the random source: p={:x} q={:x}", k.p, k.q);
            s.note = format!("{bits} bits p={}... {:?}", &format!("{:x}", k.p)[..16], s.labels);
        }
        Err(_) => {
            // only a repeated prime may end in an error here
            let rep = hist.iter().enumerate().any(|(i, h)| h.len() == hb && hist[..i].contains(h));
            ensure!(rep, "refused", "generation failed although no draw repeated");
            s.label("repeat-refused");
        }
    }
    Ok(())
}
/// a source that repeats itself: error or a good key, never p = q, and no endless loop
fn repeating(s: &mut Src) -> R {
    let bits = 2048u64;
    let hb = 128;
    let pool: Vec<&BigUint> = primes().iter().filter(|p| p.bits() == 1024 && p.bit(1022)).collect();
    let p = pool[s.idx(pool.len())];
    let n = s.range(1, 3);
    let mut data = be(p, hb);
    for _ in 0..n {
        let b = s.bytes(hb);
        data.extend(b);
    }
    s.nontrivial();
    rngshim::script(&data, rngshim::After::Cycle);
    rngshim::limit(hb * 400);
    let r = SigningKey::generate(size(bits));
    let hung = rngshim::failed() > 0;
    rngshim::reset();
    match r {
        Ok(sk) => {
            judge(&sk, bits)?;
            s.label("key");
        }
        Err(_) if hung => s.label("exhausted"),
        Err(_) => s.label("refused"),
    }
    Ok(())
}
/// large sizes, with primes from the pool so that it stays affordable
fn large(s: &mut Src) -> R {
    let bits: u64 = *s.pick(&[4096, 6144, 8192]);
    let half = bits / 2;
    let hb = half as usize / 8;
    let pool: Vec<&BigUint> = primes().iter().filter(|p| p.bits() == half).collect();
    let a = s.idx(pool.len());
    let b = s.idx(pool.len());
    let mut data = be(pool[a], hb);
    let mut x = s.u64();
    for _ in 0..5 {
        let v: Vec<u8> = (0..hb).map(|_| splitmix(&mut x) as u8).collect();
        data.extend(be(&(BigUint::from_bytes_be(&v) % (pool[a] - 3u32) + 2u32), hb));
    }
    data.extend(be(pool[b], hb));
    s.nontrivial();
    rngshim::prng(&data, s.u64());
    rngshim::keep();
    // a count of rounds other than expected would mean a long search: give up then
    rngshim::limit(hb * 40);
    let r = SigningKey::generate(size(bits));
    let out = rngshim::failed() > 0;
    let hist = rngshim::history();
    rngshim::reset();
    match r {
        Ok(sk) => {
            let k = judge(&sk, bits)?;
            ensure!(drawn(&k, &hist), "source", "primes do not come from the random source");
            s.label("key");
        }
        Err(_) if out => s.label("search-abandoned"),
        Err(_) => {
            ensure!(a == b, "refused", "generation failed with two good distinct primes");
            s.label("repeat-refused");
        }
    }
    Ok(())
}
fn sizes(s: &mut Src) -> R {
    let v = match s.idx(4) {
        0 => *s.pick(&[2048usize, 3072, 4096, 6144, 8192]),
        1 => s.range(0, 9000),
        2 => *s.pick(&[1024usize, 2047, 2049, 2560, 5120, 7680, 16384, 0, usize::MAX]),
        _ => s.u64() as usize,
    };
    s.nontrivial();
    let want = [2048, 3072, 4096, 6144, 8192].contains(&v);
    let r = KeySize::try_from(v);
    ensure!(r.is_ok() == want, "sizes", "KeySize::try_from({v}) = {r:?}");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "a generation was run to its end with the scripted or seeded random source of that case",
        assumptions: &[
            "the random source is observed and scripted at getrandom(2)",
            "primality of results is judged by 14 Miller-Rabin bases fixed in advance",
        ],
        subs: vec![
            Sub::new("random", random, 300, 20_000),
            Sub::new("scripted", scripted, 500, 40_000),
            Sub::new("repeating", repeating, 200, 5000),
            Sub::new("large", large, 40, 1000),
            Sub::new("sizes", sizes, 2000, 20_000),
        ],
    }
}
