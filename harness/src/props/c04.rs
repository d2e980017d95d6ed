//! AES-GCM
use super::aead_util::*;
use crate::engine::*;

pub fn compare(s: &mut Src, kind: usize, key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8], align: usize) -> R {
    let a = Aead::new(kind, key);
    let (wct, wtag) = ref_seal(kind, key, nonce, aad, pt);
    let mut backing = vec![0xEEu8; pt.len() + 64];
    let n = pt.len();
    backing[align..align + n].copy_from_slice(pt);
    let tag = a.seal(nonce, aad, &mut backing[align..align + n]);
    s.emit(&backing[align..align + n]);
    s.emit(&tag);
    ensure!(
        backing[align..align + n] == wct[..],
        "ciphertext",
        "kind {kind} aad {} pt {n}: first difference at {:?}",
        aad.len(),
        backing[align..align + n].iter().zip(&wct).position(|(a, b)| a != b)
    );
    ensure!(tag == wtag, "tag", "kind {kind} key {} nonce {} aad {} pt {n}: got {} want {}", hex(key), hex(nonce), aad.len(), hex(&tag), hex(&wtag));
    ensure!(
        backing[..align].iter().all(|b| *b == 0xEE) && backing[align + n..].iter().all(|b| *b == 0xEE),
        "outside-write",
        "bytes outside the buffer changed"
    );
    let ok = a.open(nonce, aad, &mut backing[align..align + n], &wtag);
    s.emit_ok(ok);
    ensure!(ok, "open", "kind {kind} aad {} pt {n}: own message refused", aad.len());
    ensure!(backing[align..align + n] == *pt, "plaintext", "kind {kind} aad {} pt {n}: decryption differs at {:?}", aad.len(), backing[align..align + n].iter().zip(pt).position(|(a, b)| a != b));
    ensure!(
        backing[..align].iter().all(|b| *b == 0xEE) && backing[align + n..].iter().all(|b| *b == 0xEE),
        "outside-write-dec",
        "bytes outside the buffer changed"
    );
    Ok(())
}

fn lengths(s: &mut Src) -> R {
    // enumerate (plaintext length) 0..1100, with generated AAD length
    let kind = (s.idx % 2) as usize;
    let n = (s.idx / 2) as usize % 1100;
    let key: [u8; 32] = s.barr();
    let nonce: [u8; 12] = s.barr();
    let al = s.len(600);
    let aad = s.blob(al);
    let pt = s.blob(n);
    let align = s.idx(33);
    s.nontrivial();
    s.note(format!("kind {kind} pt {n} aad {al} align {align}"));
    compare(s, kind, &key[..Aead::key_len(kind)], &nonce, &aad, &pt, align)
}
fn aad_lengths(s: &mut Src) -> R {
    let kind = (s.idx % 2) as usize;
    let al = (s.idx / 2) as usize % 700;
    let key: [u8; 32] = s.barr();
    let nonce: [u8; 12] = s.barr();
    let n = if s.bool() { 0 } else { s.len(600) };
    let aad = s.blob(al);
    let pt = s.blob(n);
    s.nontrivial();
    s.note(format!("kind {kind} pt {n} aad {al}"));
    compare(s, kind, &key[..Aead::key_len(kind)], &nonce, &aad, &pt, 0)
}
fn general(s: &mut Src) -> R {
    let kind = s.idx(2);
    let key: [u8; 32] = s.edgy();
    let nonce: [u8; 12] = s.edgy();
    let n = if s.one_in(10) { s.idx(70_000) } else { s.len(5000) };
    let al = if s.one_in(20) { s.idx(70_000) } else { s.len(3000) };
    let aad = s.blob(al);
    let pt = s.blob(n);
    let align = s.idx(64);
    if n >= 256 {
        s.label("pt>=256");
    }
    if n % 16 != 0 {
        s.label("partial-block");
    }
    if n > 0 || al > 0 {
        s.nontrivial();
    }
    s.note(format!("kind {kind} pt {n} aad {al} align {align}"));
    compare(s, kind, &key[..Aead::key_len(kind)], &nonce, &aad, &pt, align)
}
/// several messages under one key object
fn reuse(s: &mut Src) -> R {
    let kind = s.idx(2);
    let key: [u8; 32] = s.barr();
    let a = Aead::new(kind, &key);
    let steps = s.range(2, 8);
    let mut held: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, [u8; 16])> = Vec::new();
    for _ in 0..steps {
        if held.is_empty() || s.bool() {
            let nonce: [u8; 12] = s.barr();
            let al = s.len(300);
            let aad = s.blob(al);
            let n = s.len(1500);
            let pt = s.blob(n);
            let mut b = pt.clone();
            let tag = a.seal(&nonce, &aad, &mut b);
            let (w, wt) = ref_seal(kind, &key, &nonce, &aad, &pt);
            s.emit(&tag);
            ensure!(b == w && tag == wt, "reuse-seal", "kind {kind} pt {n} aad {al} after {} messages", held.len());
            held.push((nonce.to_vec(), aad, pt, b, tag));
        } else {
            let i = s.idx(held.len());
            let (n, aad, pt, ct, tag) = &held[i];
            let mut b = ct.clone();
            ensure!(a.open(n, aad, &mut b, tag), "reuse-open", "kind {kind} message {i} refused");
            ensure!(&b == pt, "reuse-open-pt", "kind {kind} message {i} differs");
            s.label("open-later");
        }
    }
    s.nontrivial();
    s.note(format!("kind {kind}, {steps} operations on one key"));
    Ok(())
}
/// long enough that every byte of the block counter up to the third changes
fn long(s: &mut Src) -> R {
    let kind = (s.idx % 2) as usize;
    let key: [u8; 32] = s.barr();
    let nonce: [u8; 12] = s.barr();
    let base = [4096usize, 65536, 1 << 20, (1 << 20) + 4096][(s.idx / 2) as usize % 4];
    let n = base + s.idx(600);
    let pt = s.blob(n);
    let al = s.idx(100);
    let aad = s.blob(al);
    s.nontrivial();
    s.note(format!("kind {kind} pt {n} aad {al}"));
    compare(s, kind, &key[..Aead::key_len(kind)], &nonce, &aad, &pt, 0)
}
/// lengths whose bit count needs more than 32 bits; counters needing the fourth byte
fn huge(s: &mut Src) -> R {
    let kind = (s.idx % 2) as usize;
    let key: [u8; 32] = s.barr();
    let nonce: [u8; 12] = s.barr();
    let big = (1usize << 29) + s.idx(300);
    let (al, n) = if (s.idx / 2) % 2 == 0 { (big, 33) } else { (20, big) };
    let aad = vec![0x42u8; al];
    let pt = vec![0x17u8; n];
    s.nontrivial();
    s.note(format!("kind {kind} pt {n} aad {al}"));
    compare(s, kind, &key[..Aead::key_len(kind)], &nonce, &aad, &pt, 0)
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "Keys/nonces with edge structure, every plaintext length 0..1099 and AAD length 0..699 enumerated plus generated lengths up to 70 kB, some of 1 MiB and 512 MiB, at generated alignments, under each CPU feature set; non-trivial: plaintext or AAD non-empty.",
        assumptions: &["aws-lc-rs' AES-GCM is the reference", "feature sets are simulated by the library's own debug-build switch"],
        subs: vec![
            Sub::new("huge", huge, 4, 4),
            Sub::new("long", long, 32, 400).all(),
            Sub::new("lengths", lengths, 22_000, 2200 * 100).all(),
            Sub::new("aad_lengths", aad_lengths, 14_000, 1400 * 100).all(),
            Sub::new("general", general, 60_000, 2_000_000).all(),
            Sub::new("reuse", reuse, 15_000, 500_000).all(),
        ],
    }
}
