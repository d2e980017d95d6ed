//! AEAD authenticity
use super::aead_util::*;
use crate::engine::*;

fn tamper(s: &mut Src) -> R {
    let kind = s.idx(4);
    let key: [u8; 32] = s.barr();
    let nonce = s.blob(Aead::nonce_len(kind));
    let al = s.len(400);
    let aad = s.blob(al);
    let n = s.len(1200);
    let pt = s.blob(n);
    let a = Aead::new(kind, &key);
    let (ct, tag) = ref_seal(kind, &key, &nonce, &aad, &pt);
    let flip = |s: &mut Src, v: &mut [u8]| -> bool {
        if v.is_empty() {
            return false;
        }
        let bit = s.idx(v.len() * 8);
        v[bit / 8] ^= 1 << (bit % 8);
        true
    };
    let (mut k2, mut n2, mut a2, mut c2, mut t2) = (key[..Aead::key_len(kind)].to_vec(), nonce.clone(), aad.clone(), ct.clone(), tag.to_vec());
    let (k0, n0, a0, c0, t0) = (k2.clone(), n2.clone(), a2.clone(), c2.clone(), t2.clone());
    let nmod = s.range(1, 2);
    let mut what = String::new();
    for _ in 0..nmod {
        match s.idx(16) {
            0 => {
                flip(s, &mut t2);
                what.push_str("tag-flip ");
            }
            1 => {
                let l = s.idx(17);
                t2.truncate(l);
                what.push_str("tag-truncate ");
                s.label("tag-short");
            }
            2 => {
                let e = s.range(1, 20);
                let b = s.u8();
                t2.extend(std::iter::repeat(b).take(e));
                what.push_str("tag-extend ");
                s.label("tag-long");
            }
            3 => {
                flip(s, &mut c2);
                what.push_str("ct-flip ");
            }
            4 => {
                let l = s.idx(c2.len() + 1);
                c2.truncate(l);
                what.push_str("ct-truncate ");
            }
            5 => {
                let e = s.range(1, 40);
                let b = s.blob(e);
                c2.extend_from_slice(&b);
                what.push_str("ct-extend ");
            }
            6 => {
                flip(s, &mut a2);
                what.push_str("aad-flip ");
            }
            7 => {
                let l = s.idx(a2.len() + 1);
                a2.truncate(l);
                what.push_str("aad-truncate ");
            }
            8 => {
                let e = s.range(1, 40);
                a2.extend(vec![0; e]);
                what.push_str("aad-extend ");
            }
            9 => {
                flip(s, &mut n2);
                what.push_str("nonce-flip ");
            }
            10 => {
                flip(s, &mut k2);
                what.push_str("key-flip ");
            }
            11 => {
                // move the AAD/ciphertext boundary
                let mut all = a2.clone();
                all.extend_from_slice(&c2);
                let cut = s.idx(all.len() + 1);
                a2 = all[..cut].to_vec();
                c2 = all[cut..].to_vec();
                what.push_str("boundary ");
            }
            12 => {
                // swap two 16-byte blocks
                let nb = c2.len() / 16;
                if nb >= 2 {
                    let i = s.idx(nb);
                    let j = s.idx(nb);
                    for b in 0..16 {
                        c2.swap(i * 16 + b, j * 16 + b);
                    }
                }
                what.push_str("block-swap ");
            }
            13 => {
                // zeros appended to / stripped from ciphertext (padding confusion)
                if s.bool() {
                    c2.push(0);
                } else {
                    while c2.last() == Some(&0) {
                        c2.pop();
                    }
                }
                what.push_str("zero-pad ");
            }
            14 => {
                t2 = match s.idx(4) {
                    0 => vec![],
                    1 => vec![0; 16],
                    2 => vec![0xff; 16],
                    _ => s.bytes(16),
                };
                what.push_str("tag-replace ");
            }
            _ => {
                // same xor applied twice within the tag
                let x = s.u8().max(1);
                let i = s.idx(t2.len().max(1));
                let j = s.idx(t2.len().max(1));
                if !t2.is_empty() {
                    t2[i] ^= x;
                    t2[j] ^= x;
                }
                what.push_str("tag-pair ");
            }
        }
    }
    let same = (k2 == k0) && n2 == n0 && a2 == a0 && c2 == c0 && t2 == t0;
    let a = if k2 == k0 { a } else { Aead::new(kind, &k2) };
    let mut buf = c2.clone();
    let ok = a.open(&n2, &a2, &mut buf, &t2);
    s.emit_ok(ok);
    s.emit(&buf);
    s.note(format!("kind {kind} aad {al} pt {n}: {what}"));
    if same {
        s.label("unmodified");
        ensure!(ok && buf == pt, "unmodified-refused", "kind {kind}: authentic message refused or altered");
        return Ok(());
    }
    s.nontrivial();
    ensure!(!ok, "forgery", "kind {kind} aad {al} pt {n}: accepted after {what}");
    // nothing of what the cipher would have produced may remain in the buffer
    let would = {
        // decryption of c2 under the given parameters, whatever the tag
        let (ks, _) = ref_seal(kind, &k2, &n2, &a2, &vec![0; c2.len()]);
        c2.iter().zip(&ks).map(|(a, b)| a ^ b).collect::<Vec<u8>>()
    };
    no_plaintext(&buf, &would, &c2, kind, &what)
}

fn no_plaintext(buf: &[u8], would: &[u8], ct: &[u8], kind: usize, what: &str) -> R {
    // documented: the buffer is cleared. Accept any content unrelated to the plaintext, but
    // no position may hold plaintext unless it coincides with zero or the original ciphertext
    // byte; four or more such bytes in a row would be a leak.
    let mut run = 0;
    for i in 0..buf.len() {
        if buf[i] == would[i] && buf[i] != 0 && buf[i] != ct[i] {
            run += 1;
            ensure!(run < 4, "leak", "kind {kind}: unauthenticated plaintext left at offset {i} after {what}");
        } else {
            run = 0;
        }
    }
    ensure!(buf.iter().all(|b| *b == 0), "not-cleared", "kind {kind}: buffer not cleared after failed decryption ({what})");
    Ok(())
}

/// all single-bit flips and all lengths of the tag
fn tag_sweep(s: &mut Src) -> R {
    let kind = (s.idx % 4) as usize;
    let key: [u8; 32] = s.barr();
    let nonce = s.blob(Aead::nonce_len(kind));
    let al = s.idx(40);
    let aad = s.blob(al);
    let n = s.idx(70);
    let pt = s.blob(n);
    let a = Aead::new(kind, &key);
    let (ct, tag) = ref_seal(kind, &key, &nonce, &aad, &pt);
    let mut b = ct.clone();
    ensure!(a.open(&nonce, &aad, &mut b, &tag) && b == pt, "good", "kind {kind}: authentic message refused");
    for bit in 0..128 {
        let mut t = tag;
        t[bit / 8] ^= 1 << (bit % 8);
        let mut b = ct.clone();
        ensure!(!a.open(&nonce, &aad, &mut b, &t), "tag-bit", "kind {kind}: tag bit {bit} ignored");
        ensure!(b.iter().all(|x| *x == 0), "not-cleared", "kind {kind}: buffer not cleared");
    }
    for l in 0..16 {
        let mut b = ct.clone();
        ensure!(!a.open(&nonce, &aad, &mut b, &tag[..l]), "tag-short", "kind {kind}: {l}-byte tag accepted");
        let mut b = ct.clone();
        ensure!(!a.open(&nonce, &aad, &mut b, &tag[16 - l..]), "tag-suffix", "kind {kind}: {l}-byte suffix accepted");
        ensure!(b.iter().all(|x| *x == 0), "not-cleared", "kind {kind}: buffer not cleared");
    }
    let mut t = tag.to_vec();
    for _ in 0..33 {
        t.push(0);
        let mut b = ct.clone();
        ensure!(!a.open(&nonce, &aad, &mut b, &t), "tag-long", "kind {kind}: {}-byte tag accepted", t.len());
    }
    let mut tt = tag.to_vec();
    tt.extend_from_slice(&tag);
    let mut b = ct.clone();
    ensure!(!a.open(&nonce, &aad, &mut b, &tt), "tag-long", "kind {kind}: doubled tag accepted");
    s.nontrivial();
    s.note(format!("kind {kind} aad {al} pt {n}: all tag bits and lengths"));
    Ok(())
}
/// every single bit of nonce, AAD and ciphertext
fn bit_sweep(s: &mut Src) -> R {
    let kind = (s.idx % 4) as usize;
    let key: [u8; 32] = s.barr();
    let nonce = s.blob(Aead::nonce_len(kind));
    let al = s.idx(50);
    let aad = s.blob(al);
    let n = if s.one_in(3) { 256 + s.idx(80) } else { s.idx(100) };
    let pt = s.blob(n);
    let a = Aead::new(kind, &key);
    let (ct, tag) = ref_seal(kind, &key, &nonce, &aad, &pt);
    for bit in 0..nonce.len() * 8 {
        let mut x = nonce.clone();
        x[bit / 8] ^= 1 << (bit % 8);
        let mut b = ct.clone();
        ensure!(!a.open(&x, &aad, &mut b, &tag), "nonce-bit", "kind {kind}: nonce bit {bit} ignored");
    }
    for bit in 0..al * 8 {
        let mut x = aad.clone();
        x[bit / 8] ^= 1 << (bit % 8);
        let mut b = ct.clone();
        ensure!(!a.open(&nonce, &x, &mut b, &tag), "aad-bit", "kind {kind}: AAD bit {bit} of {al} bytes ignored");
    }
    let step = if n > 100 { 3 } else { 1 };
    for bit in (0..n * 8).step_by(step) {
        let mut b = ct.clone();
        b[bit / 8] ^= 1 << (bit % 8);
        ensure!(!a.open(&nonce, &aad, &mut b, &tag), "ct-bit", "kind {kind}: ciphertext bit {bit} of {n} bytes ignored");
        ensure!(b.iter().all(|x| *x == 0), "not-cleared", "kind {kind}: buffer not cleared");
    }
    for bit in 0..Aead::key_len(kind) * 8 {
        let mut k = key;
        k[bit / 8] ^= 1 << (bit % 8);
        let a = Aead::new(kind, &k);
        let mut b = ct.clone();
        ensure!(!a.open(&nonce, &aad, &mut b, &tag), "key-bit", "kind {kind}: key bit {bit} ignored");
    }
    for l in 0..al {
        let mut b = ct.clone();
        ensure!(!a.open(&nonce, &aad[..l], &mut b, &tag), "aad-len", "kind {kind}: AAD cut to {l} accepted");
    }
    for l in 0..n.min(120) {
        let mut b = ct[..l].to_vec();
        ensure!(!a.open(&nonce, &aad, &mut b, &tag), "ct-len", "kind {kind}: ciphertext cut to {l} accepted");
        ensure!(b.iter().all(|x| *x == 0), "not-cleared", "kind {kind}: buffer not cleared");
    }
    s.nontrivial();
    s.note(format!("kind {kind} aad {al} pt {n}: all bits of nonce, AAD, ciphertext, key; all shorter lengths"));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "Authentic messages from an independent implementation, then one or two generated modifications (bit flips, truncations, extensions, boundary moves, block swaps, tag lengths) or exhaustive single-bit sweeps; non-trivial: the message really differs from the authentic one.",
        assumptions: &["aws-lc-rs produces the authentic messages", "a forgery accepted by the genuine algorithm by chance (2^-128) is neglected"],
        subs: vec![
            Sub::new("tamper", tamper, 200_000, 6_000_000).all(),
            Sub::new("tag_sweep", tag_sweep, 3000, 100_000).all(),
            Sub::new("bit_sweep", bit_sweep, 1500, 40_000).all(),
        ],
    }
}
