//! SHA-3 and SHAKE
use crate::engine::*;
use crate::refs::keccak;
use aws_lc_rs::digest;
use graviola::hashing::sha3::{Sha3_256Context, Sha3_512Context, Shake128, Shake256};

fn sha3(s: &mut Src) -> R {
    // first pass enumerates lengths, then generated
    let n = if s.idx < 700 { s.idx as usize } else { s.len(6000) };
    let m = s.blob(n);
    let n = m.len();
    let parts = s.partition(n);
    let w256 = keccak::sha3_256(&m);
    let w512 = keccak::sha3_512(&m);
    ensure!(w256 == digest::digest(&digest::SHA3_256, &m).as_ref(), "oracle-disagrees", "reference vs aws-lc");
    let mut a = Sha3_256Context::new();
    let mut b = Sha3_512Context::new();
    let mut o = 0;
    for p in &parts {
        a.update(&m[o..o + p]);
        b.update(&m[o..o + p]);
        o += p;
    }
    let (ga, gb) = (a.finish(), b.finish());
    s.emit(&ga);
    s.emit(&gb);
    if parts.len() > 1 {
        s.nontrivial();
    }
    s.note(format!("SHA3 of {n} bytes in {:?}", &parts[..parts.len().min(10)]));
    ensure!(ga[..] == w256[..], "sha3-256", "len {n} parts {parts:?}: got {} want {}", hex(&ga), hex(&w256));
    ensure!(gb[..] == w512[..], "sha3-512", "len {n} parts {parts:?}: got {} want {}", hex(&gb), hex(&w512));
    let mut a = Sha3_256Context::new();
    a.update(&m);
    ensure!(a.finish()[..] == w256[..], "sha3-256-whole", "len {n}");
    let mut b = Sha3_512Context::new();
    b.update(&m);
    ensure!(b.finish()[..] == w512[..], "sha3-512-whole", "len {n}");
    Ok(())
}

fn shake(s: &mut Src) -> R {
    let n = if s.idx < 400 { s.idx as usize } else { s.len(3000) };
    let m = s.blob(n);
    let parts = s.partition(m.len());
    let mut pieces: Vec<&[u8]> = Vec::new();
    let mut o = 0;
    for p in &parts {
        pieces.push(&m[o..o + p]);
        o += p;
    }
    let outn = s.len(3000);
    let oparts = s.partition(outn);
    let is128 = s.bool();
    let want = if is128 { keccak::shake128(&m, outn) } else { keccak::shake256(&m, outn) };
    let mut got = vec![0x5Au8; outn];
    let mut o = 0;
    if is128 {
        let mut x = Shake128::new(&pieces);
        for p in &oparts {
            x.read(&mut got[o..o + p]);
            o += p;
        }
    } else {
        let mut x = Shake256::new(&pieces);
        for p in &oparts {
            x.read(&mut got[o..o + p]);
            o += p;
        }
    }
    s.emit(&got);
    if oparts.len() > 1 {
        s.label("split-output");
    }
    if parts.len() > 1 {
        s.label("split-input");
    }
    if outn > 168 {
        s.label("output-over-one-rate");
    }
    if parts.len() > 1 || oparts.len() > 1 {
        s.nontrivial();
    }
    s.note(format!("SHAKE{} in {n} out {outn} as {:?}", if is128 { 128 } else { 256 }, &oparts[..oparts.len().min(10)]));
    ensure!(got == want, "shake", "128={is128} in parts {parts:?} out parts {oparts:?} first diff at {:?}", got.iter().zip(&want).position(|(a, b)| a != b));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "Messages with lengths biased to sponge-rate boundaries (short lengths enumerated), absorbed and squeezed through generated partitions; non-trivial: input or output split into at least two pieces.",
        assumptions: &["a from-the-specification Keccak in the harness is the reference; it is itself compared with aws-lc-rs on every SHA3-256 case"],
        subs: vec![
            Sub::new("sha3", sha3, 200_000, 4_000_000),
            Sub::new("shake", shake, 250_000, 5_000_000),
        ],
    }
}
