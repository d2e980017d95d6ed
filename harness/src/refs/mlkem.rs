//! ML-KEM-768 straight from FIPS 203, for clarity rather than speed.
use super::keccak::*;
pub const Q: i32 = 3329;
const K: usize = 3;
type P = [i32; 256];

fn bitrev7(x: usize) -> usize {
    (0..7).fold(0, |a, i| a | ((x >> i) & 1) << (6 - i))
}
fn pow(b: i32, e: usize) -> i32 {
    (0..e).fold(1, |a, _| a * b % Q)
}
fn zetas() -> &'static ([i32; 128], [i32; 128]) {
    static Z: std::sync::OnceLock<([i32; 128], [i32; 128])> = std::sync::OnceLock::new();
    Z.get_or_init(|| {
        let mut z = [0; 128];
        let mut g = [0; 128];
        for i in 0..128 {
            z[i] = pow(17, bitrev7(i));
            g[i] = pow(17, 2 * bitrev7(i) + 1);
        }
        (z, g)
    })
}
pub fn ntt(f: &mut P) {
    let z = &zetas().0;
    let mut i = 1;
    let mut len = 128;
    while len >= 2 {
        let mut start = 0;
        while start < 256 {
            let zeta = z[i];
            i += 1;
            for j in start..start + len {
                let t = zeta * f[j + len] % Q;
                f[j + len] = (f[j] - t + Q) % Q;
                f[j] = (f[j] + t) % Q;
            }
            start += 2 * len;
        }
        len /= 2;
    }
}
pub fn intt(f: &mut P) {
    let z = &zetas().0;
    let mut i = 127;
    let mut len = 2;
    while len <= 128 {
        let mut start = 0;
        while start < 256 {
            let zeta = z[i];
            i -= 1;
            for j in start..start + len {
                let t = f[j];
                f[j] = (t + f[j + len]) % Q;
                f[j + len] = zeta * (f[j + len] - t + Q) % Q;
            }
            start += 2 * len;
        }
        len *= 2;
    }
    for v in f.iter_mut() {
        *v = *v * 3303 % Q;
    }
}
fn mul(a: &P, b: &P) -> P {
    let g = &zetas().1;
    let mut c = [0; 256];
    for i in 0..128 {
        let (a0, a1, b0, b1) = (a[2 * i], a[2 * i + 1], b[2 * i], b[2 * i + 1]);
        c[2 * i] = (a0 * b0 + a1 * b1 % Q * g[i]) % Q;
        c[2 * i + 1] = (a0 * b1 + a1 * b0) % Q;
    }
    c
}
fn add(a: &P, b: &P) -> P {
    std::array::from_fn(|i| (a[i] + b[i]) % Q)
}
fn sub(a: &P, b: &P) -> P {
    std::array::from_fn(|i| (a[i] - b[i] + Q) % Q)
}
fn encode(d: usize, f: &P) -> Vec<u8> {
    let mut o = vec![0u8; 32 * d];
    for i in 0..256 {
        for b in 0..d {
            if f[i] >> b & 1 == 1 {
                o[(i * d + b) / 8] |= 1 << ((i * d + b) % 8);
            }
        }
    }
    o
}
fn decode(d: usize, v: &[u8]) -> P {
    std::array::from_fn(|i| (0..d).fold(0, |a, b| a | ((v[(i * d + b) / 8] >> ((i * d + b) % 8) & 1) as i32) << b))
}
fn compress(d: usize, f: &P) -> P {
    // round half up of 2^d/q * x
    std::array::from_fn(|i| (((f[i] as i64) << (d + 1)) + Q as i64).div_euclid(2 * Q as i64) as i32 & ((1 << d) - 1))
}
fn decompress(d: usize, f: &P) -> P {
    std::array::from_fn(|i| (((Q * f[i]) << 1) + (1 << d)) >> (d + 1))
}
fn sample_ntt(seed: &[u8]) -> (P, usize) {
    let s = shake128(seed, 168 * 8);
    let mut a = [0; 256];
    let (mut j, mut i) = (0, 0);
    while j < 256 {
        let d1 = s[i] as i32 + 256 * (s[i + 1] as i32 % 16);
        let d2 = s[i + 1] as i32 / 16 + 16 * s[i + 2] as i32;
        i += 3;
        if d1 < Q {
            a[j] = d1;
            j += 1;
        }
        if d2 < Q && j < 256 {
            a[j] = d2;
            j += 1;
        }
    }
    (a, i)
}
fn cbd2(s: &[u8], n: u8) -> P {
    let mut m = s.to_vec();
    m.push(n);
    let b = shake256(&m, 128);
    let bit = |i: usize| (b[i / 8] >> (i % 8) & 1) as i32;
    std::array::from_fn(|i| (bit(4 * i) + bit(4 * i + 1) - bit(4 * i + 2) - bit(4 * i + 3) + Q) % Q)
}
/// (matrix A, the most XOF bytes one entry took)
fn matrix(rho: &[u8]) -> (Vec<Vec<P>>, usize) {
    let mut most = 0;
    let a = (0..K)
        .map(|i| {
            (0..K)
                .map(|j| {
                    let mut s = rho.to_vec();
                    s.push(j as u8);
                    s.push(i as u8);
                    let (p, n) = sample_ntt(&s);
                    most = most.max(n);
                    p
                })
                .collect()
        })
        .collect();
    (a, most)
}
pub fn xof_bytes(rho: &[u8]) -> usize {
    matrix(rho).1
}
/// (ek, dk)
pub fn keygen(d: &[u8], z: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut g = d.to_vec();
    g.push(K as u8);
    let g = sha3_512(&g);
    let (rho, sigma) = g.split_at(32);
    let a = matrix(rho).0;
    let mut s: Vec<P> = (0..3).map(|n| cbd2(sigma, n)).collect();
    let mut e: Vec<P> = (3..6).map(|n| cbd2(sigma, n)).collect();
    s.iter_mut().for_each(ntt);
    e.iter_mut().for_each(ntt);
    let mut ek = vec![];
    for i in 0..K {
        let mut t = e[i];
        for j in 0..K {
            t = add(&t, &mul(&a[i][j], &s[j]));
        }
        ek.extend(encode(12, &t));
    }
    ek.extend_from_slice(rho);
    let mut dk: Vec<u8> = s.iter().flat_map(|p| encode(12, p)).collect();
    dk.extend_from_slice(&ek);
    dk.extend(sha3_256(&ek));
    dk.extend_from_slice(z);
    (ek, dk)
}
fn encrypt(ek: &[u8], m: &[u8], r: &[u8]) -> Vec<u8> {
    let t: Vec<P> = (0..K).map(|i| decode(12, &ek[384 * i..384 * i + 384])).collect();
    let a = matrix(&ek[1152..]).0;
    let mut y: Vec<P> = (0..3).map(|n| cbd2(r, n)).collect();
    let e1: Vec<P> = (3..6).map(|n| cbd2(r, n)).collect();
    let e2 = cbd2(r, 6);
    y.iter_mut().for_each(ntt);
    let mut c = vec![];
    for i in 0..K {
        let mut u = [0; 256];
        for j in 0..K {
            u = add(&u, &mul(&a[j][i], &y[j]));
        }
        intt(&mut u);
        u = add(&u, &e1[i]);
        c.extend(encode(10, &compress(10, &u)));
    }
    let mut v = [0; 256];
    for j in 0..K {
        v = add(&v, &mul(&t[j], &y[j]));
    }
    intt(&mut v);
    v = add(&v, &e2);
    v = add(&v, &decompress(1, &decode(1, m)));
    c.extend(encode(4, &compress(4, &v)));
    c
}
/// (shared secret, ciphertext)
pub fn encaps(ek: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut g = m.to_vec();
    g.extend(sha3_256(ek));
    let g = sha3_512(&g);
    (g[..32].to_vec(), encrypt(ek, m, &g[32..]))
}
pub fn decaps(dk: &[u8], c: &[u8]) -> Vec<u8> {
    let (dkp, rest) = dk.split_at(1152);
    let (ek, rest) = rest.split_at(1184);
    let (h, z) = rest.split_at(32);
    let mut w = decompress(4, &decode(4, &c[960..]));
    let mut acc = [0; 256];
    for i in 0..K {
        let mut u = decompress(10, &decode(10, &c[320 * i..320 * i + 320]));
        ntt(&mut u);
        acc = add(&acc, &mul(&decode(12, &dkp[384 * i..384 * i + 384]), &u));
    }
    intt(&mut acc);
    w = sub(&w, &acc);
    let m = encode(1, &compress(1, &w));
    let mut g = m.clone();
    g.extend_from_slice(h);
    let g = sha3_512(&g);
    if encrypt(ek, &m, &g[32..]) == c {
        g[..32].to_vec()
    } else {
        reject(z, c)
    }
}
pub fn reject(z: &[u8], c: &[u8]) -> Vec<u8> {
    let mut j = z.to_vec();
    j.extend_from_slice(c);
    shake256(&j, 32)
}
/// the encoding check of FIPS 203 section 7.2
pub fn ek_ok(ek: &[u8]) -> bool {
    ek.len() == 1184 && (0..3).all(|i| decode(12, &ek[384 * i..384 * i + 384]).iter().all(|c| *c < Q))
}
/// 768 coefficients as the first 1152 bytes of an encapsulation key
pub fn pack(t: &[u16]) -> Vec<u8> {
    t.chunks(256).flat_map(|c| encode(12, &std::array::from_fn(|i| c[i] as i32))).collect()
}
