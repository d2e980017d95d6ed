//! HMAC
use crate::engine::*;
use aws_lc_rs::hmac as ahmac;
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{Hash, Sha256, Sha384, Sha512};

fn want(k: usize, key: &[u8], m: &[u8]) -> Vec<u8> {
    let alg = [ahmac::HMAC_SHA256, ahmac::HMAC_SHA384, ahmac::HMAC_SHA512][k];
    ahmac::sign(&ahmac::Key::new(alg, key), m).as_ref().to_vec()
}

fn history<H: Hash>(s: &mut Src, k: usize) -> R
where
    Hmac<H>: Clone,
{
    let klen = match s.idx(3) {
        0 => s.idx(300),
        1 => {
            let b = if k == 0 { 64i64 } else { 128 };
            (b + s.idx(5) as i64 - 2) as usize
        }
        _ => s.len(1000),
    };
    let key = s.blob(klen);
    let base = Hmac::<H>::new(&key);
    let mut pool: Vec<(Hmac<H>, Vec<u8>)> = vec![(base.clone(), vec![])];
    let steps = s.range(1, 16);
    let mut trace = format!("hmac kind {k} key {klen}: ");
    for _ in 0..steps {
        match if pool.is_empty() { 1 } else { s.weighted(&[5, 2, 2, 2]) } {
            0 => {
                let i = s.idx(pool.len());
                let n = s.len(1500);
                let d = s.blob(n);
                pool[i].0.update(&d);
                pool[i].1.extend_from_slice(&d);
                trace.push_str(&format!("upd#{i}({n}) "));
            }
            1 => {
                let c = if pool.is_empty() || s.bool() {
                    (base.clone(), vec![])
                } else {
                    let i = s.idx(pool.len());
                    s.label("clone-midway");
                    (pool[i].0.clone(), pool[i].1.clone())
                };
                if pool.len() < 6 {
                    pool.push(c);
                }
                trace.push_str("clone ");
            }
            2 => {
                let i = s.idx(pool.len());
                let (c, m) = pool.swap_remove(i);
                let got = c.finish();
                s.emit(got.as_ref());
                let w = want(k, &key, &m);
                trace.push_str("fin ");
                ensure!(got.as_ref() == w, "hmac", "{trace}: got {} want {}", hex(got.as_ref()), hex(&w));
            }
            _ => {
                let i = s.idx(pool.len());
                let (c, m) = pool.swap_remove(i);
                let w = want(k, &key, &m);
                let mut cand = w.clone();
                let exact = match s.idx(7) {
                    0 => true,
                    1 => {
                        let j = s.idx(cand.len() * 8);
                        cand[j / 8] ^= 1 << (j % 8);
                        s.label("verify-bitflip");
                        false
                    }
                    2 => {
                        let n = s.idx(cand.len());
                        cand.truncate(n);
                        s.label("verify-truncated");
                        false
                    }
                    3 => {
                        let n = s.range(1, 70);
                        let x = s.u8();
                        cand.extend(std::iter::repeat(x).take(n));
                        s.label("verify-extended");
                        false
                    }
                    4 => {
                        let n = s.idx(130);
                        cand = s.blob(n);
                        cand == w
                    }
                    5 => {
                        // suffix of the tag, or several changed bytes that cancel
                        let j = s.range(1, cand.len() - 1);
                        let x = (s.u8()).max(1);
                        cand[0] ^= x;
                        cand[j] ^= x;
                        false
                    }
                    _ => {
                        let n = s.range(1, cand.len());
                        cand.drain(..n);
                        false
                    }
                };
                let ok = c.verify(&cand).is_ok();
                s.emit_ok(ok);
                trace.push_str("verify ");
                ensure!(ok == exact, "hmac-verify", "{trace}: candidate {} (tag {}) accepted={ok}", hex(&cand), hex(&w));
            }
        }
    }
    for (c, m) in pool {
        let got = c.finish();
        let w = want(k, &key, &m);
        ensure!(got.as_ref() == w, "hmac", "{trace}: got {} want {}", hex(got.as_ref()), hex(&w));
    }
    if steps >= 2 {
        s.nontrivial();
    }
    s.note(trace);
    Ok(())
}

fn hmac(s: &mut Src) -> R {
    match s.idx(3) {
        0 => history::<Sha256>(s, 0),
        1 => history::<Sha384>(s, 1),
        _ => history::<Sha512>(s, 2),
    }
}

/// every key length up to several blocks
fn keylens(s: &mut Src) -> R {
    let kl = s.idx as usize % 700;
    let key = s.blob(kl);
    let n = s.idx(200);
    let m = s.blob(n);
    s.nontrivial();
    s.note(format!("key {kl} bytes, message {n} bytes"));
    fn go<H: Hash>(key: &[u8], m: &[u8]) -> Vec<u8> {
        let mut h = Hmac::<H>::new(key);
        h.update(m);
        h.finish().as_ref().to_vec()
    }
    for k in 0..3 {
        let got = match k {
            0 => go::<Sha256>(&key, &m),
            1 => go::<Sha384>(&key, &m),
            _ => go::<Sha512>(&key, &m),
        };
        let w = want(k, &key, &m);
        ensure!(got == w, "keylen", "kind {k} key {kl}: got {} want {}", hex(&got), hex(&w));
    }
    Ok(())
}

/// single-bit neighbourhood of a tag: every bit flip and every length must be refused
fn verify_sweep(s: &mut Src) -> R {
    let key = s.blob(32);
    let m = s.blob(20);
    let k = s.idx(3);
    let w = want(k, &key, &m);
    fn v<H: Hash>(key: &[u8], m: &[u8], t: &[u8]) -> bool {
        let mut h = Hmac::<H>::new(key);
        h.update(m);
        h.verify(t).is_ok()
    }
    let ver = |t: &[u8]| match k {
        0 => v::<Sha256>(&key, &m, t),
        1 => v::<Sha384>(&key, &m, t),
        _ => v::<Sha512>(&key, &m, t),
    };
    ensure!(ver(&w), "verify-good", "exact tag refused, kind {k}");
    for j in 0..w.len() * 8 {
        let mut t = w.clone();
        t[j / 8] ^= 1 << (j % 8);
        ensure!(!ver(&t), "verify-flip", "kind {k} bit {j} flip accepted");
    }
    for n in 0..w.len() {
        ensure!(!ver(&w[..n]), "verify-short", "kind {k} prefix {n} accepted");
    }
    let mut t = w.clone();
    for _ in 0..80 {
        t.push(0);
        ensure!(!ver(&t), "verify-long", "kind {k} extension to {} accepted", t.len());
    }
    s.nontrivial();
    s.note(format!("all bit flips and lengths, kind {k}"));
    Ok(())
}

/// TLS key derivation built on the HMAC provider equals that of an independent provider
fn tls_kdf(s: &mut Src) -> R {
    use rustls::SupportedCipherSuite as S;
    let g = rustls_graviola::default_provider();
    let a = rustls::crypto::aws_lc_rs::default_provider();
    let gs = *s.pick(&g.cipher_suites);
    let other = match a.cipher_suites.iter().find(|x| x.suite() == gs.suite()) {
        Some(x) => *x,
        None => return fail("suite-unknown", format!("{:?}", gs.suite())),
    };
    s.nontrivial();
    match (gs, other) {
        (S::Tls13(x), S::Tls13(y)) => {
            let n = s.len(300);
            let secret = s.blob(n.max(1));
            let m = s.idx(100);
            let salt = s.blob(m);
            let salt = if s.bool() { Some(&salt[..]) } else { None };
            let ex = x.hkdf_provider.extract_from_secret(salt, &secret);
            let ey = y.hkdf_provider.extract_from_secret(salt, &secret);
            let infon = s.idx(120);
            let info = s.blob(infon);
            let outn = s.range(1, 200);
            let mut ox = vec![0; outn];
            let mut oy = vec![0; outn];
            let cut = s.idx(info.len() + 1);
            let (i1, i2) = info.split_at(cut);
            let rx = ex.expand_slice(&[i1, i2], &mut ox).is_ok();
            let ry = ey.expand_slice(&[i1, i2], &mut oy).is_ok();
            ensure!(rx == ry && ox == oy, "hkdf", "suite {:?} secret {} salt {:?} info {} out {outn}", gs.suite(), secret.len(), salt.map(|x| x.len()), info.len());
            ensure!(ex.expand_block(&[&info]).as_ref() == ey.expand_block(&[&info]).as_ref(), "hkdf-block", "{:?}", gs.suite());
            let zx = x.hkdf_provider.extract_from_zero_ikm(salt).expand_block(&[&info]);
            let zy = y.hkdf_provider.extract_from_zero_ikm(salt).expand_block(&[&info]);
            ensure!(zx.as_ref() == zy.as_ref(), "hkdf-zero", "{:?}", gs.suite());
            let okm = s.blob(x.common.hash_provider.output_len());
            let okm = rustls::crypto::tls13::OkmBlock::new(&okm);
            let bx = x.hkdf_provider.expander_for_okm(&okm).expand_block(&[&info]);
            let by = y.hkdf_provider.expander_for_okm(&okm).expand_block(&[&info]);
            ensure!(bx.as_ref() == by.as_ref(), "hkdf-okm", "{:?}", gs.suite());
            let tx = x.hkdf_provider.hmac_sign(&okm, &info);
            let ty = y.hkdf_provider.hmac_sign(&okm, &info);
            ensure!(tx.as_ref() == ty.as_ref(), "hkdf-hmac", "{:?}", gs.suite());
            s.note(format!("{:?} extract/expand secret {} info {infon} out {outn}", gs.suite(), secret.len()));
        }
        (S::Tls12(x), S::Tls12(y)) => {
            let n = s.len(200);
            let secret = s.blob(n.max(1));
            let sn = s.idx(130);
            let seed = s.blob(sn);
            let ln = s.idx(30);
            let label = s.blob(ln);
            let outn = s.range(1, 300);
            let mut ox = vec![0; outn];
            let mut oy = vec![0; outn];
            x.prf_provider.for_secret(&mut ox, &secret, &label, &seed);
            y.prf_provider.for_secret(&mut oy, &secret, &label, &seed);
            ensure!(ox == oy, "prf", "suite {:?} secret {} seed {sn} label {ln} out {outn}", gs.suite(), secret.len());
            s.note(format!("{:?} PRF secret {} out {outn}", gs.suite(), secret.len()));
        }
        _ => return fail("suite-version", "version mismatch"),
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "Keys of every length (0..699 enumerated, block-size neighbourhoods favoured), generated update/clone/finish/verify histories with altered tags; non-trivial: at least two operations or a tag comparison sweep.",
        assumptions: &["aws-lc-rs' HMAC, HKDF and TLS 1.2 PRF are the reference"],
        subs: vec![
            Sub::new("hmac", hmac, 200_000, 6_000_000).all(),
            Sub::new("keylens", keylens, 20_000, 300_000),
            Sub::new("verify_sweep", verify_sweep, 1500, 30_000),
            Sub::new("tls_kdf", tls_kdf, 60_000, 1_500_000),
        ],
    }
}
