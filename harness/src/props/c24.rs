//! C24: TLS key exchange.
use super::c07;
use super::ecutil::{curve, point, scalar};
use crate::engine::*;
use crate::refs::{c25519, mlkem};
use crate::rngshim;
use aws_lc_rs::agreement as ag;
use num_bigint::BigUint;
use rustls::crypto::aws_lc_rs as other;
use rustls::crypto::{ActiveKeyExchange, SupportedKxGroup};
use rustls::{Error, NamedGroup, PeerMisbehaved, ProtocolVersion};

pub const GROUPS: [NamedGroup; 4] = [NamedGroup::X25519MLKEM768, NamedGroup::X25519, NamedGroup::secp256r1, NamedGroup::secp384r1];
const LABELS: [&str; 4] = ["X25519MLKEM768", "X25519", "P-256", "P-384"];
fn ours(i: usize) -> &'static dyn SupportedKxGroup {
    *rustls_graviola::kx::ALL_KX_GROUPS.iter().find(|g| g.name() == GROUPS[i]).expect("group")
}
fn theirs(i: usize) -> &'static dyn SupportedKxGroup {
    *other::ALL_KX_GROUPS.iter().find(|g| g.name() == GROUPS[i]).expect("group of the other implementation")
}
/// (client share, server share, secret)
const SIZES: [(usize, usize, usize); 4] = [(1184 + 32, 1088 + 32, 64), (32, 32, 32), (65, 65, 32), (97, 97, 48)];
fn bad_share<T>(r: &Result<T, Error>) -> bool {
    matches!(r, Err(Error::PeerMisbehaved(PeerMisbehaved::InvalidKeyShare)))
}
fn why<T>(r: &Result<T, Error>) -> String {
    match r {
        Ok(_) => "success".into(),
        Err(e) => format!("{e:?}"),
    }
}
/// honest exchanges, every pairing of implementations and roles
fn agree(s: &mut Src) -> R {
    let i = s.idx(4);
    let (client, server) = [(ours(i), theirs(i)), (theirs(i), ours(i)), (ours(i), ours(i))][s.idx(3)];
    let classical_only = i == 0 && s.one_in(3);
    rngshim::prng(&[], s.u64());
    let r = (|| {
        let c = client.start()?;
        let share = c.pub_key().to_vec();
        if classical_only {
            // the client offered X25519 alongside, and the server took that
            let Some((g, p)) = c.hybrid_component() else {
                return Ok(Err("no hybrid component".to_string()));
            };
            if g != NamedGroup::X25519 || p != &share[1184..] {
                return Ok(Err(format!("hybrid component is {g:?} {}", hex(p))));
            }
            let p = p.to_vec();
            let server = if s.bool() { theirs(1) } else { ours(1) };
            let d = server.start_and_complete(&p)?;
            let z = c.complete_hybrid_component(&d.pub_key)?;
            return Ok(Ok((p, d.pub_key, d.secret.secret_bytes().to_vec(), z.secret_bytes().to_vec(), d.group)));
        }
        let d = server.start_and_complete(&share)?;
        let z = c.complete(&d.pub_key)?;
        Ok::<_, Error>(Ok((share, d.pub_key, d.secret.secret_bytes().to_vec(), z.secret_bytes().to_vec(), d.group)))
    })();
    rngshim::reset();
    let (cs, ss, a, b, g) = match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail("component", e),
        Err(e) => return fail("refused", format!("{}: honest exchange gave {e:?}", LABELS[i])),
    };
    let j = if classical_only { 1 } else { i };
    ensure!(g == GROUPS[j], "group", "{}: completed as {g:?}", LABELS[i]);
    ensure!((cs.len(), ss.len(), a.len()) == SIZES[j], "layout", "{}: lengths {} {} {}", LABELS[j], cs.len(), ss.len(), a.len());
    ensure!(a == b, "agree", "{}: server has {} client has {}", LABELS[j], hex(&a), hex(&b));
    s.label(if classical_only { "component alone" } else { LABELS[i] });
    s.nontrivial();
    s.note(format!("{} -> {}", LABELS[j], hex(&a)));
    Ok(())
}
/// the private values behind an exchange, found by the public ones they give
struct Drawn(Vec<Vec<u8>>);
impl Drawn {
    fn windows(&self, n: usize) -> Vec<Vec<u8>> {
        let all: Vec<u8> = self.0.concat();
        let mut at = 0;
        let mut v = vec![];
        for d in &self.0 {
            for k in (0..d.len()).step_by(16) {
                if let Some(w) = all.get(at + k..at + k + n) {
                    v.push(w.to_vec());
                }
            }
            at += d.len();
        }
        v
    }
    fn x25519(&self, public: &[u8]) -> Option<[u8; 32]> {
        self.windows(32).into_iter().map(|w| <[u8; 32]>::try_from(w).unwrap()).find(|w| {
            ag::PrivateKey::from_private_key(&ag::X25519, w).ok().and_then(|k| k.compute_public_key().ok()).is_some_and(|p| p.as_ref() == public)
        })
    }
    fn ec(&self, ci: usize, public: &[u8]) -> Option<ag::PrivateKey> {
        let alg = ec_alg(ci);
        self.windows(curve(ci).len)
            .into_iter()
            .filter_map(|w| ag::PrivateKey::from_private_key(alg, &w).ok())
            .find(|k| k.compute_public_key().is_ok_and(|p| p.as_ref() == public))
    }
    fn mlkem(&self, public: &[u8]) -> Option<Vec<u8>> {
        self.windows(64).into_iter().map(|w| mlkem::keygen(&w[..32], &w[32..])).find(|k| k.0 == public).map(|k| k.1)
    }
}
fn ec_alg(ci: usize) -> &'static ag::Algorithm {
    if ci == 0 {
        &ag::ECDH_P256
    } else {
        &ag::ECDH_P384
    }
}
fn x25519_ok(p: &[u8]) -> bool {
    // any multiple of eight kills exactly the small subgroups
    p.len() == 32 && c07::aws(&[0x40; 32], p.try_into().unwrap()).is_some()
}
fn ec_ok(ci: usize, p: &[u8]) -> bool {
    let c = curve(ci);
    p.len() == 2 * c.len + 1 && p[0] == 4 && {
        let (x, y) = (BigUint::from_bytes_be(&p[1..=c.len]), BigUint::from_bytes_be(&p[c.len + 1..]));
        x < c.p && y < c.p && c.on_curve(&x, &y)
    }
}
/// a share of group `i` that a peer in the given role might send
fn classical(s: &mut Src, i: usize) -> Vec<u8> {
    match i {
        1 => match s.idx(3) {
            0 => c07::peer(s).to_vec(),
            1 => theirs(1).start().unwrap().pub_key().to_vec(),
            _ => s.bytes(32),
        },
        _ => {
            let c = curve(i - 2);
            match s.idx(4) {
                0 => {
                    let k = c.enc(&scalar(s, c));
                    ag::PrivateKey::from_private_key(ec_alg(i - 2), &k).unwrap().compute_public_key().unwrap().as_ref().to_vec()
                }
                1 => c.point(&point(s, c)),
                2 => {
                    // valid but for one thing
                    let p = point(s, c);
                    let (x, y) = p.clone().unwrap();
                    match s.idx(7) {
                        0 => [vec![*s.pick(&[0u8, 1, 2, 3, 5, 6, 7, 0x84, 0xff])], c.enc(&x), c.enc(&y)].concat(),
                        1 => [vec![2 + y.bit(0) as u8], c.enc(&x)].concat(),
                        2 => {
                            // the unreduced x, where it fits
                            let x = &x + &c.p;
                            let w = if x.bits() as usize > 8 * c.len { x % (BigUint::from(1u32) << (8 * c.len)) } else { x };
                            [vec![4], c.enc(&w), c.enc(&y)].concat()
                        }
                        3 => vec![0],
                        4 => [vec![4], c.enc(&y), c.enc(&x)].concat(),
                        5 => vec![0; 2 * c.len + 1],
                        _ => [vec![4], c.enc(&x), c.enc(&((&y + 1u32) % &c.p))].concat(),
                    }
                }
                _ => {
                    let mut v = c.point(&point(s, c));
                    let n = v.len();
                    let k = s.idx(n);
                    v[k] ^= 1 << s.idx(8);
                    v
                }
            }
        }
    }
}
fn share(s: &mut Src, i: usize, server: bool) -> Vec<u8> {
    let mut v = if i == 0 {
        let cl = if s.bool() { classical(s, 1) } else { theirs(1).start().unwrap().pub_key().to_vec() };
        // what the peer of a server sends is a public key
        let pq = if server {
            let (d, z) = (s.bytes(32), s.bytes(32));
            let mut ek = mlkem::keygen(&d, &z).0;
            match s.idx(4) {
                0 => (),
                1 => {
                    let k = s.idx(768);
                    let mut t: Vec<u16> = (0..768).map(|j| ((j * 7919) % 3329) as u16).collect();
                    t[k] = *s.pick(&[3328, 3329, 3330, 4095]);
                    ek[..1152].copy_from_slice(&mlkem::pack(&t));
                }
                2 => {
                    let k = s.idx(1184);
                    ek[k] ^= 1 << s.idx(8);
                }
                _ => {
                    let k = s.idx(1184);
                    ek[k] = 0xff;
                }
            }
            ek
        } else {
            s.blob(1088)
        };
        match s.idx(8) {
            0 => [cl, pq].concat(),
            1 => pq,
            2 => cl,
            _ => [pq, cl].concat(),
        }
    } else {
        classical(s, i)
    };
    match s.idx(8) {
        0 => {
            let n = s.idx(v.len() + 1);
            v.truncate(n);
        }
        1 => {
            let n = 1 + s.idx(3);
            v.extend(s.bytes(n));
        }
        2 => {
            let at = s.idx(v.len());
            v.remove(at);
        }
        3 => {
            // a share of another group or role
            let j = s.idx(4);
            v = if s.bool() { theirs(j).start().unwrap().pub_key().to_vec() } else { vec![0; [SIZES[j].0, SIZES[j].1][s.idx(2)]] };
        }
        _ => (),
    }
    v
}
fn valid(i: usize, v: &[u8], server: bool) -> bool {
    match i {
        0 => {
            let n = if server { 1184 } else { 1088 };
            v.len() == n + 32 && (!server || mlkem::ek_ok(&v[..n])) && x25519_ok(&v[n..])
        }
        1 => x25519_ok(v),
        _ => ec_ok(i - 2, v),
    }
}
fn shares(s: &mut Src) -> R {
    let i = s.idx(4);
    let server = s.bool();
    let component = i == 0 && !server && s.one_in(3);
    let v = share(s, if component { 1 } else { i }, server);
    let ok = valid(if component { 1 } else { i }, &v, server);
    rngshim::prng(&[], s.u64());
    rngshim::keep();
    // (what we sent, the secret)
    let (sent, r) = if server {
        match ours(i).start_and_complete(&v) {
            Ok(d) => {
                ensure!(d.group == GROUPS[i], "group", "{}: completed as {:?}", LABELS[i], d.group);
                (d.pub_key.clone(), Ok(d.secret.secret_bytes().to_vec()))
            }
            Err(e) => (vec![], Err(e)),
        }
    } else {
        match ours(i).start() {
            Ok(k) => {
                ensure!(k.group() == GROUPS[i] && k.ffdhe_group().is_none(), "group", "{}: started as {:?}", LABELS[i], k.group());
                let p = k.pub_key().to_vec();
                let r = if component { k.complete_hybrid_component(&v) } else { k.complete(&v) };
                (p, r.map(|z| z.secret_bytes().to_vec()))
            }
            Err(e) => {
                rngshim::reset();
                return fail("start", format!("{}: {e:?}", LABELS[i]));
            }
        }
    };
    let drawn = Drawn(rngshim::history());
    rngshim::reset();
    let what = format!("{} {}{}", LABELS[i], if server { "server" } else { "client" }, if component { " (component)" } else { "" });
    s.nontrivial();
    if !ok {
        ensure!(r.is_err(), "accepted", "{what}: bad share of {} bytes accepted: {}", v.len(), hexs(&v));
        ensure!(bad_share(&r), "error", "{what}: bad share of {} bytes: {}", v.len(), why(&r));
        s.label("refused");
        s.note(format!("{what}: bad share of {} bytes refused", v.len()));
        return Ok(());
    }
    let z = match r {
        Ok(z) => z,
        Err(e) => return fail("refused", format!("{what}: good share {} gave {e:?}", hexs(&v))),
    };
    ensure!(z.len() == SIZES[if component { 1 } else { i }].2, "layout", "{what}: secret of {} bytes", z.len());
    let want: Option<Vec<u8>> = match (i, server) {
        (0, true) => {
            ensure!(sent.len() == 1120, "layout", "{what}: sent {} bytes", sent.len());
            let (ct, cl) = sent.split_at(1088);
            // any of the draws may be the message
            let pq = drawn.windows(32).into_iter().map(|m| mlkem::encaps(&v[..1184], &m)).find(|e| e.1 == ct).map(|e| e.0);
            let x = drawn.x25519(cl).and_then(|k| c07::aws(&k, v[1184..].try_into().unwrap()));
            pq.zip(x).map(|(a, b)| [a, b].concat())
        }
        (0, false) => {
            ensure!(sent.len() == 1216, "layout", "{what}: sent {} bytes", sent.len());
            let (ek, cl) = sent.split_at(1184);
            let x = drawn.x25519(cl).and_then(|k| c07::aws(&k, v[v.len() - 32..].try_into().unwrap()));
            if component {
                x
            } else {
                let pq = drawn.mlkem(ek).map(|dk| mlkem::decaps(&dk, &v[..1088]));
                pq.zip(x).map(|(a, b)| [a, b].concat())
            }
        }
        (1, _) => drawn.x25519(&sent).and_then(|k| c07::aws(&k, v[..].try_into().unwrap())),
        _ => drawn.ec(i - 2, &sent).and_then(|k| ag::agree(&k, ag::UnparsedPublicKey::new(ec_alg(i - 2), &v), (), |x| Ok(x.to_vec())).ok()),
    };
    match want {
        Some(w) => {
            ensure!(w == z, "secret", "{what}: share {} gave {} expected {}", hexs(&v), hex(&z), hex(&w));
            s.label(if i == 0 { "hybrid secret known" } else { "secret known" });
        }
        // keys need not be the bytes drawn
        None => s.label("key not traced"),
    }
    s.note(format!("{what}: good share of {} bytes", v.len()));
    Ok(())
}
/// the private key, or the peer's share, is such that the secret or public value has leading zeros
fn chosen(s: &mut Src) -> R {
    let i = 1 + s.idx(3);
    let n = SIZES[i].2;
    // our private key comes from the script
    let k: Vec<u8> = if i == 1 { c07::private(s).to_vec() } else { curve(i - 2).enc(&scalar(s, curve(i - 2))) };
    rngshim::script(&k, rngshim::After::Prng);
    let a = ours(i).start();
    rngshim::reset();
    let Ok(a) = a else {
        return fail("start", format!("{}: key {} not used", LABELS[i], hex(&k)));
    };
    let sent = a.pub_key().to_vec();
    // a secret with zero bytes in front
    let zeros = s.idx(4);
    let (v, want): (Vec<u8>, Vec<u8>) = if i == 1 {
        let mut u = s.arr::<32>();
        if s.bool() {
            u[..zeros].fill(0);
        } else {
            u[32 - zeros..].fill(0);
        }
        u[31] &= 0x7f;
        // u = k * peer, so peer = u / k
        let mut sk: [u8; 32] = k.clone().try_into().unwrap();
        sk[0] &= 248;
        sk[31] = (sk[31] & 127) | 64;
        let kk = BigUint::from_bytes_le(&sk);
        let un = BigUint::from_bytes_le(&u);
        let l = c25519::order();
        let tw = c25519::twist_order();
        let mut found = None;
        for m in [l.clone(), tw] {
            if let Some(inv) = super::rsautil::modinv(&(&kk % &m), &m) {
                // stay within the prime-order part
                let base = c25519::ladder(&(BigUint::from(8u32) * super::rsautil::modinv(&BigUint::from(8u32), &m).unwrap()), &un);
                if base.as_ref() == Some(&un) {
                    if let Some(p) = c25519::ladder(&inv, &un) {
                        found = Some(c25519::le32(&p));
                    }
                }
            }
        }
        match found {
            Some(p) => (p.to_vec(), c25519::x25519(&sk, &p).to_vec()),
            None => {
                let p = theirs(1).start().unwrap().pub_key().to_vec();
                let w = c25519::x25519(&sk, p[..].try_into().unwrap());
                (p, w.to_vec())
            }
        }
    } else {
        let c = curve(i - 2);
        let mut x = BigUint::from_bytes_be(&s.bytes(n - zeros)) % &c.p;
        let pt = loop {
            if let Some(p) = c.lift_x(&x, s.idx % 2 == 0) {
                break Some(p);
            }
            x += 1u32;
        };
        let kk = BigUint::from_bytes_be(&k);
        let p = c.mul(&c.ninv(&kk), &pt);
        (c.point(&p), c.enc(&x))
    };
    let got = a.complete(&v);
    match got {
        Ok(z) => ensure!(z.secret_bytes() == &want[..], "secret", "{}: key {} share {} gave {} expected {}", LABELS[i], hex(&k), hex(&v), hex(z.secret_bytes()), hex(&want)),
        Err(e) => {
            ensure!(want.iter().all(|b| *b == 0), "refused", "{}: share {} gave {e:?}", LABELS[i], hex(&v));
        }
    }
    let pubw = if i == 1 {
        ag::PrivateKey::from_private_key(&ag::X25519, &k).unwrap().compute_public_key().unwrap()
    } else {
        ag::PrivateKey::from_private_key(ec_alg(i - 2), &k).unwrap().compute_public_key().unwrap()
    };
    ensure!(pubw.as_ref() == &sent[..], "public", "{}: key {} sent {}", LABELS[i], hex(&k), hex(&sent));
    s.label(if want[0] == 0 || want[n - 1] == 0 { "zero byte" } else { "no zero byte" });
    s.nontrivial();
    s.note(format!("{} secret {}", LABELS[i], hex(&want)));
    Ok(())
}
/// what the groups say of themselves
fn names(s: &mut Src) -> R {
    let i = s.idx(4);
    let p = rustls_graviola::default_provider();
    let Some(g) = p.kx_groups.iter().find(|g| g.name() == GROUPS[i]) else {
        return fail("missing", LABELS[i]);
    };
    ensure!(g.ffdhe_group().is_none(), "ffdhe", "{}", LABELS[i]);
    for v in [ProtocolVersion::TLSv1_2, ProtocolVersion::TLSv1_3] {
        let want = theirs(i).usable_for_version(v);
        ensure!(g.usable_for_version(v) == want, "version", "{} for {v:?}", LABELS[i]);
    }
    rngshim::prng(&[], s.u64());
    let a = g.start();
    let b = theirs(i).start();
    rngshim::reset();
    if let (Ok(a), Ok(b)) = (a, b) {
        let a: Box<dyn ActiveKeyExchange> = a;
        ensure!(a.group() == GROUPS[i] && a.ffdhe_group().is_none(), "group", "{}", LABELS[i]);
        ensure!(a.hybrid_component().map(|c| c.0) == b.hybrid_component().map(|c| c.0), "component", "{}", LABELS[i]);
        ensure!(a.pub_key().len() == SIZES[i].0, "layout", "{}", LABELS[i]);
    } else {
        return fail("start", LABELS[i]);
    }
    let all: Vec<_> = p.kx_groups.iter().map(|g| g.name()).collect();
    for (n, g) in all.iter().enumerate() {
        ensure!(GROUPS.contains(g) && !all[..n].contains(g), "groups", "{all:?}");
    }
    s.nontrivial();
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "an exchange was carried to its end, or refused, by a graviola group and the outcome compared with an independent computation or implementation",
        assumptions: &["AWS-LC's groups and key agreement, and the reference ML-KEM, are correct", "a refused share must give InvalidKeyShare, whichever component is bad"],
        subs: vec![
            Sub::new("agree", agree, 12_000, 500_000).all(),
            Sub::new("shares", shares, 8000, 400_000).all(),
            Sub::new("chosen", chosen, 1200, 60_000),
            Sub::new("names", names, 200, 1000),
        ],
    }
}
