//! ChaCha20, HChaCha20, Poly1305 from RFC 8439 / draft-irtf-cfrg-xchacha.
use num_bigint::BigUint;
use num_traits::One;

fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}
fn rounds(s: &mut [u32; 16]) {
    for _ in 0..10 {
        qr(s, 0, 4, 8, 12);
        qr(s, 1, 5, 9, 13);
        qr(s, 2, 6, 10, 14);
        qr(s, 3, 7, 11, 15);
        qr(s, 0, 5, 10, 15);
        qr(s, 1, 6, 11, 12);
        qr(s, 2, 7, 8, 13);
        qr(s, 3, 4, 9, 14);
    }
}
fn init(key: &[u8; 32], last: &[u8; 16]) -> [u32; 16] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[i * 4..i * 4 + 4].try_into().unwrap());
    }
    for i in 0..4 {
        s[12 + i] = u32::from_le_bytes(last[i * 4..i * 4 + 4].try_into().unwrap());
    }
    s
}
pub fn block(key: &[u8; 32], counter: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut last = [0u8; 16];
    last[..4].copy_from_slice(&counter.to_le_bytes());
    last[4..].copy_from_slice(nonce);
    let i = init(key, &last);
    let mut s = i;
    rounds(&mut s);
    let mut o = [0u8; 64];
    for k in 0..16 {
        o[k * 4..k * 4 + 4].copy_from_slice(&s[k].wrapping_add(i[k]).to_le_bytes());
    }
    o
}
pub fn keystream(key: &[u8; 32], nonce: &[u8; 12], n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 64);
    let mut c = 1;
    while v.len() < n {
        v.extend_from_slice(&block(key, c, nonce));
        c += 1;
    }
    v.truncate(n);
    v
}
pub fn hchacha20(key: &[u8; 32], n: &[u8; 16]) -> [u8; 32] {
    let mut s = init(key, n);
    rounds(&mut s);
    let mut o = [0u8; 32];
    for (j, k) in [0usize, 1, 2, 3, 12, 13, 14, 15].iter().enumerate() {
        o[j * 4..j * 4 + 4].copy_from_slice(&s[*k].to_le_bytes());
    }
    o
}
pub fn xkey(key: &[u8; 32], nonce: &[u8; 24]) -> ([u8; 32], [u8; 12]) {
    let k = hchacha20(key, nonce[..16].try_into().unwrap());
    let mut n = [0u8; 12];
    n[4..].copy_from_slice(&nonce[16..]);
    (k, n)
}
pub fn p1305() -> BigUint {
    (BigUint::one() << 130) - 5u32
}
pub fn clamp(r: &[u8; 16]) -> BigUint {
    let mut r = *r;
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    BigUint::from_bytes_le(&r)
}
pub fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    let r = clamp(key[..16].try_into().unwrap());
    let s = BigUint::from_bytes_le(&key[16..]);
    let p = p1305();
    let mut h = BigUint::default();
    for b in msg.chunks(16) {
        let mut v = b.to_vec();
        v.push(1);
        h = (h + BigUint::from_bytes_le(&v)) * &r % &p;
    }
    h += s;
    let mut o = h.to_bytes_le();
    o.resize(17.max(o.len()), 0);
    o[..16].try_into().unwrap()
}
pub fn mac_input(aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let mut m = aad.to_vec();
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(ct);
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    m
}
pub fn seal(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let ks = keystream(key, nonce, pt.len());
    let ct: Vec<u8> = pt.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
    let pk: [u8; 32] = block(key, 0, nonce)[..32].try_into().unwrap();
    let tag = poly1305(&pk, &mac_input(aad, &ct));
    (ct, tag)
}
