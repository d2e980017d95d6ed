//! SHA-2
use crate::engine::*;
use aws_lc_rs::digest;
use graviola::hashing::{sha2, Hash, HashContext, HashOutput, Sha256, Sha384, Sha512};

#[derive(Clone)]
pub enum Ctx {
    S256(sha2::Sha256Context),
    S384(sha2::Sha384Context),
    S512(sha2::Sha512Context),
    H256(<Sha256 as Hash>::Context),
    H384(<Sha384 as Hash>::Context),
    H512(<Sha512 as Hash>::Context),
}
pub const KINDS: usize = 6;
impl Ctx {
    pub fn new(k: usize) -> Ctx {
        match k % KINDS {
            0 => Ctx::S256(sha2::Sha256Context::new()),
            1 => Ctx::S384(sha2::Sha384Context::new()),
            2 => Ctx::S512(sha2::Sha512Context::new()),
            3 => Ctx::H256(Sha256::new()),
            4 => Ctx::H384(Sha384::new()),
            _ => Ctx::H512(Sha512::new()),
        }
    }
    pub fn alg(k: usize) -> &'static digest::Algorithm {
        [&digest::SHA256, &digest::SHA384, &digest::SHA512][k % 3]
    }
    pub fn update(&mut self, b: &[u8]) {
        match self {
            Ctx::S256(c) => c.update(b),
            Ctx::S384(c) => c.update(b),
            Ctx::S512(c) => c.update(b),
            Ctx::H256(c) => c.update(b),
            Ctx::H384(c) => c.update(b),
            Ctx::H512(c) => c.update(b),
        }
    }
    pub fn finish(self) -> Vec<u8> {
        match self {
            Ctx::S256(c) => c.finish().to_vec(),
            Ctx::S384(c) => c.finish().to_vec(),
            Ctx::S512(c) => c.finish().to_vec(),
            Ctx::H256(c) => c.finish().as_ref().to_vec(),
            Ctx::H384(c) => c.finish().as_ref().to_vec(),
            Ctx::H512(c) => c.finish().as_ref().to_vec(),
        }
    }
}
pub fn oneshot(k: usize, b: &[u8]) -> Vec<u8> {
    match k % 3 {
        0 => Sha256::hash(b),
        1 => Sha384::hash(b),
        _ => Sha512::hash(b),
    }
    .as_ref()
    .to_vec()
}
pub fn expect(k: usize, b: &[u8]) -> Vec<u8> {
    digest::digest(Ctx::alg(k), b).as_ref().to_vec()
}

/// every length from 0 up, one-shot and byte-split at a drawn point
fn lengths(s: &mut Src) -> R {
    let n = s.idx as usize % 2100;
    let data = s.blob(n + 3);
    let off = s.idx(4).min(3);
    let msg = &data[off..off + n.min(data.len() - off)];
    let split = s.idx(msg.len() + 1);
    s.nontrivial();
    s.note(format!("SHA-256/384/512 of {} bytes, split at {split}", msg.len()));
    for k in 0..3 {
        let want = expect(k, msg);
        let got = oneshot(k, msg);
        s.emit(&got);
        ensure!(got == want, "oneshot", "hash kind {k} len {} got {} want {}", msg.len(), hex(&got), hex(&want));
        for kk in [k, k + 3] {
            let mut c = Ctx::new(kk);
            c.update(&msg[..split]);
            c.update(&msg[split..]);
            let got = c.finish();
            ensure!(got == want, "split", "hash kind {kk} len {} split {split} got {} want {}", msg.len(), hex(&got), hex(&want));
        }
    }
    Ok(())
}

/// interleaved histories over several contexts: update, clone, finish
fn history(s: &mut Src) -> R {
    let steps = s.range(1, 30);
    let mut pool: Vec<(usize, Ctx, Vec<u8>)> = Vec::new();
    let mut trace = String::new();
    let mut clones = 0;
    let mut finishes = 0;
    for _ in 0..steps {
        let op = if pool.is_empty() { 0 } else { s.weighted(&[1, 6, 2, 2]) };
        match op {
            0 => {
                let k = s.idx(KINDS);
                pool.push((k, Ctx::new(k), Vec::new()));
                trace.push_str(&format!("new({k}) "));
            }
            1 => {
                let i = s.idx(pool.len());
                let n = s.len(3000);
                let d = s.blob(n);
                pool[i].1.update(&d);
                pool[i].2.extend_from_slice(&d);
                trace.push_str(&format!("upd#{i}({n}) "));
            }
            2 => {
                if pool.len() < 8 {
                    let i = s.idx(pool.len());
                    let c = (pool[i].0, pool[i].1.clone(), pool[i].2.clone());
                    if !c.2.is_empty() {
                        clones += 1;
                    }
                    pool.push(c);
                    trace.push_str(&format!("clone#{i} "));
                }
            }
            _ => {
                let i = s.idx(pool.len());
                let (k, c, m) = pool.swap_remove(i);
                let got = c.finish();
                s.emit(&got);
                let want = expect(k, &m);
                finishes += 1;
                trace.push_str(&format!("fin#{i} "));
                ensure!(got == want, "history", "kind {k} over {} bytes: got {} want {}; {trace}", m.len(), hex(&got), hex(&want));
            }
        }
    }
    for (k, c, m) in pool {
        let got = c.finish();
        s.emit(&got);
        let want = expect(k, &m);
        ensure!(got == want, "history", "kind {k} over {} bytes: got {} want {}; {trace}", m.len(), hex(&got), hex(&want));
    }
    if clones > 0 {
        s.label("clone-midway");
    }
    if finishes > 0 {
        s.label("finish-midway");
    }
    if steps > 3 {
        s.nontrivial();
    }
    s.note(trace);
    Ok(())
}

/// one context fed by a generated partition
fn partition(s: &mut Src) -> R {
    let n = s.len(20000);
    let msg = s.blob(n);
    let parts = s.partition(n);
    let k = s.idx(KINDS);
    let mut c = Ctx::new(k);
    let mut o = 0;
    for p in &parts {
        c.update(&msg[o..o + p]);
        o += p;
    }
    let got = c.finish();
    s.emit(&got);
    let want = expect(k, &msg);
    s.note(format!("kind {k}, {n} bytes as {:?}", &parts[..parts.len().min(12)]));
    if parts.len() > 1 {
        s.nontrivial();
    }
    if n > 256 {
        s.label("over-256-bytes");
    }
    ensure!(got == want, "partition", "kind {k} len {n} parts {:?}: got {} want {}", parts, hex(&got), hex(&want));
    Ok(())
}

/// messages whose length does not fit the narrower counters an implementation might use
fn huge(s: &mut Src) -> R {
    // 512 MiB = 2^32 bits, 4 GiB = 2^32 bytes
    let k = (s.idx % 3) as usize;
    let big: u64 = if (s.idx / 3) % 2 == 0 { (1 << 29) + 5 } else { (1 << 32) + 77 };
    let chunk = vec![0xA7u8; (8 << 20) + 64];
    let skew = s.range(0, 63);
    let mut c = Ctx::new(k);
    let mut r = digest::Context::new(Ctx::alg(k));
    let mut done = 0u64;
    c.update(&chunk[..skew]);
    r.update(&chunk[..skew]);
    while done < big {
        let n = (big - done).min(8 << 20) as usize;
        c.update(&chunk[..n]);
        r.update(&chunk[..n]);
        done += n as u64;
        beat();
    }
    let got = c.finish();
    let want = r.finish();
    s.nontrivial();
    s.note(format!("kind {k}, {} bytes", big + skew as u64));
    ensure!(got == want.as_ref(), "huge", "kind {k}, {} bytes: got {} want {}", big + skew as u64, hex(&got), hex(want.as_ref()));
    Ok(())
}

/// the hash providers the TLS integration hands out
fn tls_hash(s: &mut Src) -> R {
    let provider = rustls_graviola::default_provider();
    let mut hps = Vec::new();
    for cs in &provider.cipher_suites {
        let h = match cs {
            rustls::SupportedCipherSuite::Tls12(x) => x.common.hash_provider,
            rustls::SupportedCipherSuite::Tls13(x) => x.common.hash_provider,
        };
        hps.push(h);
    }
    let hp = *s.pick(&hps);
    let k = match hp.algorithm() {
        rustls::crypto::hash::HashAlgorithm::SHA256 => 0,
        rustls::crypto::hash::HashAlgorithm::SHA384 => 1,
        rustls::crypto::hash::HashAlgorithm::SHA512 => 2,
        other => return fail("tls-alg", format!("unexpected algorithm {other:?}")),
    };
    ensure!(hp.output_len() == Ctx::alg(k).output_len(), "tls-len", "output_len {}", hp.output_len());
    let n = s.len(2000);
    let msg = s.blob(n);
    let want = expect(k, &msg);
    ensure!(hp.hash(&msg).as_ref() == want, "tls-hash", "kind {k} len {n}");
    let parts = s.partition(n);
    let mut c = hp.start();
    let mut o = 0;
    let forkat = s.idx(parts.len() + 1);
    let mut fork = None;
    for (i, p) in parts.iter().enumerate() {
        if i == forkat {
            let early = c.fork_finish();
            ensure!(early.as_ref() == expect(k, &msg[..o]), "tls-fork-finish", "kind {k} at {o}");
            fork = Some((c.fork(), o));
        }
        c.update(&msg[o..o + p]);
        o += p;
    }
    let got = c.finish();
    ensure!(got.as_ref() == want, "tls-update", "kind {k} len {n} parts {parts:?}");
    if let Some((mut f, o)) = fork {
        let extra = s.blob(37);
        f.update(&extra);
        let mut m = msg[..o].to_vec();
        m.extend_from_slice(&extra);
        ensure!(f.finish().as_ref() == expect(k, &m), "tls-fork", "kind {k} at {o}");
        s.label("forked");
        s.nontrivial();
    }
    s.note(format!("TLS hash kind {k}, {n} bytes, parts {}", parts.len()));
    Ok(())
}

#[allow(unused)]
fn equality_helpers(s: &mut Src) -> R {
    let n = s.idx(64);
    let m = s.blob(n);
    let a: HashOutput = match s.idx(3) {
        0 => Sha256::hash(&m),
        1 => Sha384::hash(&m),
        _ => Sha512::hash(&m),
    };
    let full = a.as_ref().to_vec();
    let mut other = full.clone();
    let i = s.idx(other.len());
    let x = s.u8();
    other[i] ^= x;
    let same = x == 0;
    ensure!(a.ct_equal(&other) == same, "ct-equal", "flip {x:02x} at {i}");
    let cut = s.idx(full.len());
    ensure!(!a.ct_equal(&full[..cut]), "ct-equal-trunc", "accepted {cut}-byte prefix");
    let mut long = full.clone();
    long.push(s.u8());
    ensure!(!a.ct_equal(&long), "ct-equal-long", "accepted an extension");
    ensure!(a.truncated_ct_equal::<16>(&full[..16]), "trunc-eq", "16-byte truncation refused");
    ensure!(a.truncated_ct_equal::<16>(&other[..16]) == (same || i >= 16), "trunc-eq-flip", "flip at {i}");
    ensure!(!a.truncated_ct_equal::<16>(&full[..cut]) || cut == 16, "trunc-eq-len", "len {cut}");
    let b = a.clone();
    ensure!(a == b, "eq", "clone differs");
    ensure!((Sha256::hash(&m) == Sha256::hash(&full)) == (m == full), "eq2", "equality");
    ensure!(Sha384::hash(&m) != Sha512::hash(&m), "eq3", "different kinds equal");
    s.nontrivial();
    s.note(format!("flip byte {i} by {x:02x}, cut {cut}"));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "Cases are messages with lengths biased to block boundaries (every length 0..2099 is enumerated), fed whole, by generated partitions, or by interleaved update/clone/finish histories, under each CPU feature set; non-trivial: more than one update (histories of more than 3 steps), distinct by the recorded choices.",
        assumptions: &["aws-lc-rs' SHA-2 is the reference", "feature sets are simulated by the library's own debug-build switch on top of the host CPU"],
        subs: vec![
            Sub::new("huge", huge, 6, 6),
            Sub::new("lengths", lengths, 2100, 2100 * 20).all(),
            Sub::new("history", history, 4000, 200_000).all(),
            Sub::new("partition", partition, 6000, 300_000).all(),
            Sub::new("tls_hash", tls_hash, 2000, 60_000),
            Sub::new("equality", equality_helpers, 2000, 50_000),
        ],
    }
}
