//! ChaCha20-Poly1305 and XChaCha20-Poly1305
use super::aead_util::*;
use super::c04::compare;
use crate::engine::*;
use crate::refs::chacha;
use num_bigint::BigUint;
use num_traits::{One, Zero};

fn lengths(s: &mut Src) -> R {
    let kind = 2 + (s.idx % 2) as usize;
    let n = (s.idx / 2) as usize % 1100;
    let key: [u8; 32] = s.barr();
    let nonce = s.blob(Aead::nonce_len(kind));
    let al = s.len(400);
    let aad = s.blob(al);
    let pt = s.blob(n);
    let align = s.idx(33);
    s.nontrivial();
    s.note(format!("kind {kind} pt {n} aad {al} align {align}"));
    compare(s, kind, &key, &nonce, &aad, &pt, align)
}
fn aad_lengths(s: &mut Src) -> R {
    let kind = 2 + (s.idx % 2) as usize;
    let al = (s.idx / 2) as usize % 500;
    let key: [u8; 32] = s.barr();
    let nonce = s.blob(Aead::nonce_len(kind));
    let n = if s.bool() { 0 } else { s.len(400) };
    let aad = s.blob(al);
    let pt = s.blob(n);
    s.nontrivial();
    s.note(format!("kind {kind} pt {n} aad {al}"));
    compare(s, kind, &key, &nonce, &aad, &pt, 0)
}
fn general(s: &mut Src) -> R {
    let kind = 2 + s.idx(2);
    let key: [u8; 32] = s.edgy();
    let n24: [u8; 24] = s.edgy();
    let nonce = &n24[..Aead::nonce_len(kind)];
    let n = if s.one_in(10) { s.idx(70_000) } else { s.len(5000) };
    let al = if s.one_in(20) { s.idx(40_000) } else { s.len(2000) };
    let aad = s.blob(al);
    let pt = s.blob(n);
    let align = s.idx(64);
    if n > 0 || al > 0 {
        s.nontrivial();
    }
    if n >= 256 {
        s.label("pt>=256");
    }
    s.note(format!("kind {kind} pt {n} aad {al} align {align}"));
    // a second, from-the-specification oracle on small inputs
    if n <= 600 {
        let k: [u8; 32] = key;
        let (wk, wn) = if kind == 3 {
            chacha::xkey(&k, nonce.try_into().unwrap())
        } else {
            (k, nonce.try_into().unwrap())
        };
        let (ct, tag) = chacha::seal(&wk, &wn, &aad, &pt);
        let mut b = pt.clone();
        let t = Aead::new(kind, &key).seal(nonce, &aad, &mut b);
        ensure!(b == ct && t == tag, "spec", "kind {kind} pt {n} aad {al}: got tag {} want {}", hex(&t), hex(&tag));
    }
    compare(s, kind, &key, nonce, &aad, &pt, align)
}

pub struct Edge {
    pub pk: [u8; 32],
    pub ct: Vec<u8>,
    pub pt: Vec<u8>,
    pub hits: usize,
    pub hit_final: bool,
}
/// choose ciphertext blocks so that the authenticator's accumulator lands on chosen residues
pub fn edges(s: &mut Src, wk: &[u8; 32], wn: &[u8; 12], aad: &[u8], nblocks: usize) -> Option<Edge> {
    let pk: [u8; 32] = chacha::block(wk, 0, wn)[..32].try_into().unwrap();
    let r = chacha::clamp(pk[..16].try_into().unwrap());
    let p = chacha::p1305();
    if r.is_zero() {
        return None;
    }
    let rinv = r.modpow(&(&p - 2u32), &p);
    let two128 = BigUint::one() << 128;
    let mut h = BigUint::zero();
    let mi = chacha::mac_input(aad, &[]);
    for b in mi[..mi.len() - 16].chunks(16) {
        h = (h + BigUint::from_bytes_le(b) + &two128) * &r % &p;
    }
    let len_block = {
        let mut v = (aad.len() as u64).to_le_bytes().to_vec();
        v.extend_from_slice(&((nblocks * 16) as u64).to_le_bytes());
        BigUint::from_bytes_le(&v)
    };
    let sk = BigUint::from_bytes_le(&pk[16..]);
    let mut ct: Vec<u8> = Vec::new();
    let mut hit_final = false;
    let mut hits = 0;
    for i in 0..nblocks {
        let last = i + 1 == nblocks;
        let mut done = false;
        for _ in 0..12 {
            let d = s.below(8);
            let target = match s.idx(7) {
                0 => BigUint::from(d),
                1 => &p - 1u32 - d,
                2 => (&two128 + d) % &p,
                3 => &two128 - 1u32 - d,
                4 => (&two128 * 2u32) - d % 3,
                5 => {
                    // low 128 bits of h wrap when the pad is added
                    (&two128 * d % &p + &two128 - &sk % &two128 + s.below(3)) % &p
                }
                _ => {
                    let v: [u8; 17] = s.edgy();
                    BigUint::from_bytes_le(&v) % &p
                }
            };
            let (want, base): (BigUint, &BigUint) = if last {
                // (((h + c + 2^128) r) + L + 2^128) r = target
                let t1 = ((&target * &rinv) + &p + &p - (&len_block + &two128) % &p) % &p;
                ((t1 * &rinv) % &p, &h)
            } else {
                ((&target * &rinv) % &p, &h)
            };
            let sub: BigUint = (base + &two128) % &p;
            let c: BigUint = (want + &p - sub) % &p;
            if c < two128 {
                let mut b = c.to_bytes_le();
                b.resize(16, 0);
                ct.extend_from_slice(&b);
                done = true;
                hits += 1;
                if last {
                    hit_final = true;
                }
                break;
            }
        }
        if !done {
            let b = s.bytes(16);
            ct.extend_from_slice(&b);
        }
        let c = BigUint::from_bytes_le(&ct[i * 16..i * 16 + 16]);
        h = (&h + c + &two128) * &r % &p;
    }
    let ks = chacha::keystream(wk, wn, ct.len());
    let pt: Vec<u8> = ct.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
    Some(Edge { pk, ct, pt, hits, hit_final })
}
fn accumulator_edges(s: &mut Src) -> R {
    let kind = 2 + s.idx(2);
    let key: [u8; 32] = s.barr();
    let nonce = s.blob(Aead::nonce_len(kind));
    let (wk, wn) = if kind == 3 {
        chacha::xkey(&key, nonce[..].try_into().unwrap())
    } else {
        (key, nonce[..].try_into().unwrap())
    };
    let al = s.idx(40);
    let aad = s.blob(al);
    let nblocks = s.range(1, 9);
    let Some(Edge { pk, ct, pt, hits, hit_final }) = edges(s, &wk, &wn, &aad, nblocks) else {
        return Ok(());
    };
    if hit_final {
        s.label("final-accumulator-edge");
    }
    if hits > 0 {
        s.nontrivial();
    }
    s.note(format!("kind {kind}, {nblocks} blocks, {hits} accumulator targets reached, aad {al}"));
    let tag = chacha::poly1305(&pk, &chacha::mac_input(&aad, &ct));
    let mut b = pt.clone();
    let t = Aead::new(kind, &key).seal(&nonce, &aad, &mut b);
    ensure!(b == ct, "edge-ct", "kind {kind} {nblocks} blocks");
    ensure!(t == tag, "edge-tag", "kind {kind} key {} nonce {} aad {} ct {}: got {} want {}", hex(&key), hex(&nonce), hex(&aad), hex(&ct), hex(&t), hex(&tag));
    compare(s, kind, &key, &nonce, &aad, &pt, 0)
}

fn long(s: &mut Src) -> R {
    let kind = 2 + (s.idx % 2) as usize;
    let key: [u8; 32] = s.barr();
    let nonce = s.blob(Aead::nonce_len(kind));
    let base = [16384usize, 65536, 1 << 20, 1 << 22][(s.idx / 2) as usize % 4];
    let n = base + s.idx(600);
    let pt = s.blob(n);
    s.nontrivial();
    s.note(format!("kind {kind} pt {n}"));
    compare(s, kind, &key, &nonce, b"x", &pt, 0)
}
fn huge(s: &mut Src) -> R {
    let kind = 2 + (s.idx % 2) as usize;
    let key: [u8; 32] = s.barr();
    let nonce = s.blob(Aead::nonce_len(kind));
    let big = (1usize << 29) + s.idx(300);
    let (al, n) = if (s.idx / 2) % 2 == 0 { (big, 33) } else { (20, big) };
    let aad = vec![0x42u8; al];
    let pt = vec![0x17u8; n];
    s.nontrivial();
    s.note(format!("kind {kind} pt {n} aad {al}"));
    compare(s, kind, &key, &nonce, &aad, &pt, 0)
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "Keys/nonces with edge structure, every plaintext length 0..1099 and AAD length 0..499 enumerated plus generated ones up to 512 MiB; ciphertexts solved so that the authenticator's accumulator takes chosen residues near 0, 2^128 and 2^130-5; non-trivial: non-empty plaintext or AAD (for the solved cases: at least one target reached).",
        assumptions: &["aws-lc-rs' ChaCha20-Poly1305, and a from-the-specification ChaCha20/HChaCha20/Poly1305 in the harness, are the references"],
        subs: vec![
            Sub::new("huge", huge, 4, 4),
            Sub::new("long", long, 16, 200),
            Sub::new("lengths", lengths, 22_000, 2200 * 100),
            Sub::new("aad_lengths", aad_lengths, 10_000, 1000 * 100),
            Sub::new("general", general, 60_000, 2_000_000),
            Sub::new("accumulator_edges", accumulator_edges, 150_000, 5_000_000),
        ],
    }
}
