//! Minimal DER writer.
pub fn len(n: usize) -> Vec<u8> {
    if n < 0x80 {
        vec![n as u8]
    } else if n < 0x100 {
        vec![0x81, n as u8]
    } else if n < 0x10000 {
        vec![0x82, (n >> 8) as u8, n as u8]
    } else {
        vec![0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]
    }
}
pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    v.extend(len(body.len()));
    v.extend_from_slice(body);
    v
}
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
/// unsigned big-endian magnitude as INTEGER
pub fn uint(b: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
    if v.is_empty() || v[0] & 0x80 != 0 {
        v.insert(0, 0);
    }
    tlv(2, &v)
}
pub fn int_raw(b: &[u8]) -> Vec<u8> {
    tlv(2, b)
}
pub fn octets(b: &[u8]) -> Vec<u8> {
    tlv(4, b)
}
pub fn bits(b: &[u8]) -> Vec<u8> {
    let mut v = vec![0];
    v.extend_from_slice(b);
    tlv(3, &v)
}
pub fn null() -> Vec<u8> {
    vec![5, 0]
}
pub fn oid(arcs: &[u32]) -> Vec<u8> {
    let mut b = vec![(arcs[0] * 40 + arcs[1]) as u8];
    for a in &arcs[2..] {
        let mut t = vec![(a & 0x7f) as u8];
        let mut x = a >> 7;
        while x > 0 {
            t.insert(0, (x & 0x7f) as u8 | 0x80);
            x >>= 7;
        }
        b.extend(t);
    }
    tlv(6, &b)
}
pub const EC_PUBLIC_KEY: &[u32] = &[1, 2, 840, 10045, 2, 1];
pub const P256: &[u32] = &[1, 2, 840, 10045, 3, 1, 7];
pub const P384: &[u32] = &[1, 3, 132, 0, 34];
pub const RSA: &[u32] = &[1, 2, 840, 113549, 1, 1, 1];
pub const ED25519: &[u32] = &[1, 3, 101, 112];
pub const X25519: &[u32] = &[1, 3, 101, 110];
