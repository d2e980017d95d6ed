//! FIPS 202, written from the specification, one lane at a time.
fn rc_table() -> [u64; 24] {
    // LFSR from the specification
    let mut r = [0u64; 24];
    let mut lfsr: u8 = 1;
    for rc in r.iter_mut() {
        for j in 0..7 {
            let bit = lfsr & 1;
            if bit == 1 {
                *rc |= 1u64 << ((1u32 << j) - 1);
            }
            let hi = lfsr & 0x80 != 0;
            lfsr <<= 1;
            if hi {
                lfsr ^= 0x71;
            }
        }
    }
    r
}
pub fn f1600(a: &mut [u64; 25]) {
    let rcs = rc_table();
    for rc in rcs {
        // theta
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        // rho and pi
        let mut b = [0u64; 25];
        let (mut x, mut y) = (1usize, 0usize);
        b[0] = a[0];
        let mut cur = a[1];
        for t in 0..24u32 {
            let nx = y;
            let ny = (2 * x + 3 * y) % 5;
            let rot = ((t + 1) * (t + 2) / 2) % 64;
            b[nx + 5 * ny] = cur.rotate_left(rot);
            x = nx;
            y = ny;
            cur = a[x + 5 * y];
        }
        // chi
        for y in 0..5 {
            for x in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        a[0] ^= rc;
    }
}
pub fn sponge(rate: usize, pad: u8, msg: &[u8], out: usize) -> Vec<u8> {
    let mut st = [0u64; 25];
    let mut m = msg.to_vec();
    m.push(pad);
    while m.len() % rate != 0 {
        m.push(0);
    }
    let l = m.len();
    m[l - 1] |= 0x80;
    for blk in m.chunks(rate) {
        for (i, w) in blk.chunks(8).enumerate() {
            st[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        f1600(&mut st);
    }
    let mut o = Vec::new();
    loop {
        for i in 0..rate / 8 {
            o.extend_from_slice(&st[i].to_le_bytes());
        }
        if o.len() >= out {
            break;
        }
        f1600(&mut st);
    }
    o.truncate(out);
    o
}
pub fn sha3_256(m: &[u8]) -> Vec<u8> {
    sponge(136, 0x06, m, 32)
}
pub fn sha3_512(m: &[u8]) -> Vec<u8> {
    sponge(72, 0x06, m, 64)
}
pub fn shake128(m: &[u8], n: usize) -> Vec<u8> {
    sponge(168, 0x1f, m, n)
}
pub fn shake256(m: &[u8], n: usize) -> Vec<u8> {
    sponge(136, 0x1f, m, n)
}
