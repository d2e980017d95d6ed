//! C16: ML-KEM-768 conforms to FIPS 203 including implicit rejection.
use crate::engine::*;
use crate::refs::mlkem;
use crate::rngshim;
use graviola::key_agreement::mlkem768::{Ciphertext, DecapKey, EncapKey};

fn generate(d: &[u8], z: &[u8]) -> Result<DecapKey, Fail> {
    let mut seed = d.to_vec();
    seed.extend_from_slice(z);
    rngshim::script(&seed, rngshim::After::Fail);
    let r = DecapKey::generate();
    rngshim::reset();
    r.map_err(|e| Fail { key: "generate".into(), msg: format!("{e:?}") })
}
fn encaps(ek: EncapKey, m: &[u8]) -> Result<(Vec<u8>, [u8; 1088]), Fail> {
    rngshim::script(m, rngshim::After::Fail);
    let r = ek.encaps();
    rngshim::reset();
    r.map(|(k, c)| (k.as_ref().to_vec(), *c.as_ref())).map_err(|e| Fail { key: "encaps".into(), msg: format!("{e:?}") })
}
fn whole(s: &mut Src) -> R {
    let (d, z, m) = (s.barr::<32>(), s.barr::<32>(), s.barr::<32>());
    s.nontrivial();
    let dk = generate(&d, &z)?;
    let (rek, rdk) = mlkem::keygen(&d, &z);
    let ek = dk.encapsulation_key();
    ensure!(ek.as_bytes()[..] == rek[..], "keygen-ek", "encapsulation key differs: d={} z={}", hex(&d), hex(&z));
    ensure!(dk.as_bytes()[..] == rdk[..], "keygen-dk", "decapsulation key differs: d={} z={}", hex(&d), hex(&z));
    if mlkem::xof_bytes(&rek[1152..]) > 504 {
        s.label("fourth-block");
    }
    // encapsulate to the key object as generated, or to it as re-imported
    let ek = if s.bool() {
        match EncapKey::from_bytes(&ek.as_bytes()) {
            Ok(k) => k,
            Err(_) => return fail("import", "own encapsulation key refused"),
        }
    } else {
        ek
    };
    let (k, c) = encaps(ek, &m)?;
    let (rk, rc) = mlkem::encaps(&rek, &m);
    ensure!(c[..] == rc[..], "encaps-ct", "ciphertext differs: d={} m={}", hex(&d), hex(&m));
    ensure!(k == rk, "encaps-secret", "secret differs: d={} m={}", hex(&d), hex(&m));
    let got = dk.decaps_internal(&Ciphertext::from(c));
    ensure!(got.as_ref()[..] == k[..], "agree", "two sides disagree: d={} z={} m={}", hex(&d), hex(&z), hex(&m));
    s.emit(&c);
    // ciphertexts that nobody made
    let mut b = [0u8; 1088];
    match s.idx(5) {
        0 => b = s.barr(),
        1 => b = [s.u8(); 1088],
        2 => b = [0xff; 1088],
        3 => {
            b = c;
            let n = s.range(1, 40);
            for _ in 0..n {
                let i = s.idx(1088);
                b[i] = s.u8();
            }
        }
        _ => {
            // encapsulation for another key
            let (o, _) = mlkem::keygen(&m, &z);
            b.copy_from_slice(&mlkem::encaps(&o, &d).1);
        }
    }
    let want = mlkem::decaps(&rdk, &b);
    let got = dk.decaps(&Ciphertext::from(b));
    ensure!(got.as_ref()[..] == want[..], "decaps-other", "secret for a foreign ciphertext differs: d={} z={} c={}", hex(&d), hex(&z), hexs(&b));
    s.emit(got.as_ref());
    Ok(())
}
/// every bit of a good ciphertext matters
fn tamper(s: &mut Src) -> R {
    let (d, z, m) = (s.arr::<32>(), s.arr::<32>(), s.arr::<32>());
    s.nontrivial();
    let dk = generate(&d, &z)?;
    let (k, c) = encaps(dk.encapsulation_key(), &m)?;
    ensure!(dk.decaps_internal(&Ciphertext::from(c)).as_ref()[..] == k[..], "agree", "two sides disagree: d={} z={} m={}", hex(&d), hex(&z), hex(&m));
    let start = (s.idx as usize * 32) % 8704;
    for i in start..(start + 32).min(8704) {
        let mut b = c;
        b[i / 8] ^= 1 << (i % 8);
        let got = dk.decaps_internal(&Ciphertext::from(b));
        let want = mlkem::reject(&z, &b);
        ensure!(got.as_ref()[..] == want[..], "implicit-rejection", "ciphertext bit {i} flipped: secret is not J(z||c) (equal to the real secret: {}) d={} z={} m={}", got.as_ref()[..] == k[..], hex(&d), hex(&z), hex(&m));
    }
    // several bytes changed so that differences might cancel
    for _ in 0..8 {
        let mut b = c;
        let (i, j) = (s.idx(1088), s.idx(1088));
        let x = s.u8() | 1;
        b[i] ^= x;
        if i != j {
            b[j] ^= x;
        }
        let got = dk.decaps_internal(&Ciphertext::from(b));
        ensure!(got.as_ref()[..] == mlkem::reject(&z, &b)[..], "implicit-rejection", "bytes {i},{j} xored with {x:02x}: secret is not J(z||c)");
    }
    Ok(())
}
/// encapsulation keys with chosen coefficients
fn foreign_ek(s: &mut Src) -> R {
    let mut t: Vec<u16> = match s.idx(5) {
        0 => vec![3328; 768],
        1 => vec![0; 768],
        2 => (0..768).map(|i| if i % 2 == 0 { 3328 } else { 1 }).collect(),
        3 => {
            let v = *s.pick(&[1u16, 1664, 1665, 2048, 3327]);
            vec![v; 768]
        }
        _ => {
            let mut x = s.u64();
            (0..768).map(|_| (splitmix(&mut x) % 3329) as u16).collect()
        }
    };
    let bad = s.weighted(&[2, 3, 1]);
    let mut pos = usize::MAX;
    if bad >= 1 {
        // exactly one coefficient out of range, every position in turn
        pos = (s.idx as usize) % 768;
        t[pos] = *s.pick(&[3329u16, 3329, 3330, 4095, 3584, 4094]);
        if s.one_in(4) {
            t[pos] = 3329 + s.below(767) as u16;
        }
        if bad == 2 {
            let p = s.idx(768);
            t[p] = 3329 + s.below(767) as u16;
        }
    } else {
        let p = s.idx(768);
        t[p] = *s.pick(&[3328u16, 0, 3327]);
    }
    let rho = s.barr::<32>();
    let mut ek = mlkem::pack(&t);
    ek.extend_from_slice(&rho);
    let ek: [u8; 1184] = ek.try_into().unwrap();
    s.nontrivial();
    let want = mlkem::ek_ok(&ek);
    let got = EncapKey::from_bytes(&ek);
    s.emit_ok(got.is_ok());
    match got {
        Ok(k) => {
            ensure!(want, "ek-accepted", "encapsulation key with coefficient {} = {} accepted", pos, t[pos]);
            s.label("valid");
            ensure!(k.as_bytes() == ek, "ek-roundtrip", "encapsulation key re-encodes differently");
            let m = s.barr::<32>();
            let (sk, c) = encaps(k, &m)?;
            let (rk, rc) = mlkem::encaps(&ek, &m);
            ensure!(c[..] == rc[..] && sk == rk, "encaps-foreign", "encapsulation to a foreign key differs: ek={} m={}", hexs(&ek), hex(&m));
            s.emit(&c);
        }
        Err(_) => {
            ensure!(!want, "ek-refused", "good encapsulation key refused: {}", hexs(&ek));
            s.label("out-of-range");
        }
    }
    Ok(())
}
fn interop(s: &mut Src) -> R {
    use aws_lc_rs::kem as k;
    s.nontrivial();
    if s.bool() {
        let (d, z) = (s.arr::<32>(), s.arr::<32>());
        let dk = generate(&d, &z)?;
        let ek = k::EncapsulationKey::new(&k::ML_KEM_768, &dk.encapsulation_key().as_bytes()[..]);
        let Ok(ek) = ek else { return fail("interop", "AWS-LC refuses the encapsulation key") };
        let (c, sec) = ek.encapsulate().unwrap();
        let c: [u8; 1088] = c.as_ref().try_into().unwrap();
        let got = dk.decaps(&Ciphertext::from(c));
        ensure!(got.as_ref()[..] == *sec.as_ref(), "interop", "decapsulation disagrees with AWS-LC: d={} z={} c={}", hex(&d), hex(&z), hexs(&c));
    } else {
        let dk = k::DecapsulationKey::generate(&k::ML_KEM_768).unwrap();
        let ekb = dk.encapsulation_key().unwrap().key_bytes().unwrap();
        let ekb: [u8; 1184] = ekb.as_ref().try_into().unwrap();
        let Ok(ek) = EncapKey::from_bytes(&ekb) else { return fail("interop", "AWS-LC encapsulation key refused") };
        let m = s.arr::<32>();
        let (sec, c) = encaps(ek, &m)?;
        let got = dk.decapsulate(c[..].into()).unwrap();
        ensure!(got.as_ref() == &sec[..], "interop", "AWS-LC disagrees with encapsulation: ek={} m={}", hexs(&ekb), hex(&m));
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "a key was generated or imported and compared with the reference, or refused",
        assumptions: &["reference ML-KEM-768 written from FIPS 203 over the reference Keccak of C02; AWS-LC as a second opinion", "random inputs d, z, m are fed through getrandom(2)"],
        subs: vec![
            Sub::new("whole", whole, 4000, 400_000).all(),
            Sub::new("tamper", tamper, 1088, 50_000).all(),
            Sub::new("foreign-ek", foreign_ek, 8000, 400_000).all(),
            Sub::new("interop", interop, 1000, 50_000),
        ],
    }
}
