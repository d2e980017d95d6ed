//! malformed key encodings
use super::c17::{ec_encodings, ec_sec1, rsa_alg};
use super::ecdsautil::SK;
use super::ecutil::{curve, scalar};
use super::rsautil::{self as ru, Shape};
use crate::engine::*;
use crate::refs::{c25519, der};
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use graviola::signing::rsa;
use num_bigint::BigUint;
use num_traits::Zero;

// ---------------------------------------------------------------- strict reader (the oracle)

/// one definite-length, minimal-length, low-tag-number element
fn tlv(b: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let (&tag, b) = b.split_first()?;
    if tag & 0x1f == 0x1f {
        return None;
    }
    let (&l0, mut b) = b.split_first()?;
    let n = if l0 < 0x80 {
        l0 as usize
    } else {
        let k = (l0 & 0x7f) as usize;
        if k == 0 || k > 4 || b.len() < k {
            return None;
        }
        let mut n = 0usize;
        for x in &b[..k] {
            n = n << 8 | *x as usize;
        }
        if b[0] == 0 || n < 0x80 {
            return None;
        }
        b = &b[k..];
        n
    };
    if b.len() < n {
        return None;
    }
    Some((tag, &b[..n], &b[n..]))
}
fn want<'a>(b: &mut &'a [u8], tag: u8) -> Option<&'a [u8]> {
    let (t, body, rest) = tlv(b)?;
    if t != tag {
        return None;
    }
    *b = rest;
    Some(body)
}
fn whole<'a>(b: &'a [u8], tag: u8) -> Option<&'a [u8]> {
    let mut b = b;
    let r = want(&mut b, tag)?;
    if b.is_empty() {
        Some(r)
    } else {
        None
    }
}
/// a canonical non-negative INTEGER
fn uint(b: &mut &[u8]) -> Option<BigUint> {
    let v = want(b, 2)?;
    if v.is_empty() || v[0] & 0x80 != 0 || (v.len() > 1 && v[0] == 0 && v[1] & 0x80 == 0) {
        return None;
    }
    Some(BigUint::from_bytes_be(v))
}
fn bitstring(v: &[u8]) -> Option<&[u8]> {
    match v.split_first() {
        Some((0, r)) => Some(r),
        _ => None,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// must be accepted, as a key with this identification
    Accept(Vec<u8>),
    Reject,
    /// well-formed, but outside what the property decides
    Either,
}
fn both(a: V, b: impl FnOnce() -> V) -> V {
    match a {
        V::Reject => V::Reject,
        V::Either => {
            if b() == V::Reject {
                V::Reject
            } else {
                V::Either
            }
        }
        V::Accept(id) => match b() {
            V::Accept(_) => V::Accept(id),
            o => o,
        },
    }
}

/// what a public key carried next to the private key must be
fn matches_ec(ci: usize, d: &BigUint, q: &[u8]) -> V {
    let c = curve(ci);
    let p = c.mul_g(d);
    let full = c.point(&p);
    if q == full {
        return V::Accept(vec![]);
    }
    let (_, y) = p.unwrap();
    let odd = y.bit(0) as u8;
    if q.len() == 1 + c.len && q[0] == 2 + odd && q[1..] == full[1..1 + c.len] {
        return V::Either;
    }
    if q.len() == full.len() && q[0] == 6 + odd && q[1..] == full[1..] {
        return V::Either;
    }
    V::Reject
}

fn sec1(ci: usize, b: &[u8], outer: Option<&[u8]>) -> V {
    let c = curve(ci);
    let parse = || -> Option<(Vec<u8>, Option<Vec<u8>>)> {
        let mut s = whole(b, 0x30)?;
        if want(&mut s, 2)? != [1] {
            return None;
        }
        let d = want(&mut s, 4)?.to_vec();
        let mut q = None;
        if let Some(0xa0) = s.first() {
            let x = want(&mut s, 0xa0)?;
            let oid = der::oid(if ci == 0 { der::P256 } else { der::P384 });
            if x != oid {
                return None;
            }
        }
        if let Some(0xa1) = s.first() {
            let x = want(&mut s, 0xa1)?;
            q = Some(bitstring(whole(x, 3)?)?.to_vec());
        }
        if !s.is_empty() {
            return None;
        }
        Some((d, q))
    };
    let Some((db, q)) = parse() else {
        return V::Reject;
    };
    let d = BigUint::from_bytes_be(&db);
    if d.is_zero() || d >= c.n {
        return V::Reject;
    }
    let mut v = if db.len() == c.len { V::Accept(c.enc(&d)) } else { V::Either };
    if let Some(q) = q {
        v = both(v, || matches_ec(ci, &d, &q));
    }
    if let Some(q) = outer {
        v = both(v, || matches_ec(ci, &d, q));
    }
    v
}
/// (inner, public key, attributes present)
#[allow(clippy::type_complexity)]
fn pkcs8(b: &[u8], alg: &[u8]) -> Option<(Vec<u8>, Option<Vec<u8>>, bool)> {
    let mut s = whole(b, 0x30)?;
    let ver = want(&mut s, 2)?;
    let a = want(&mut s, 0x30)?;
    if a != whole(alg, 0x30).unwrap() {
        return None;
    }
    let inner = want(&mut s, 4)?.to_vec();
    let mut attrs = false;
    if let Some(0xa0) = s.first() {
        want(&mut s, 0xa0)?;
        attrs = true;
    }
    let mut pk = None;
    if let Some(0x81) = s.first() {
        pk = Some(bitstring(want(&mut s, 0x81)?)?.to_vec());
    }
    if !s.is_empty() {
        return None;
    }
    match (ver, &pk) {
        ([0], None) | ([1], Some(_)) => Some((inner, pk, attrs)),
        _ => None,
    }
}
fn ec_alg(ci: usize) -> Vec<u8> {
    der::seq(&[der::oid(der::EC_PUBLIC_KEY), der::oid(if ci == 0 { der::P256 } else { der::P384 })])
}
fn ec_pkcs8(ci: usize, b: &[u8]) -> V {
    let Some((inner, pk, attrs)) = pkcs8(b, &ec_alg(ci)) else {
        return V::Reject;
    };
    let v = sec1(ci, &inner, pk.as_deref());
    if attrs {
        return both(v, || V::Either);
    }
    v
}
fn ed_pkcs8(b: &[u8]) -> V {
    let alg = der::seq(&[der::oid(der::ED25519)]);
    let Some((inner, pk, attrs)) = pkcs8(b, &alg) else {
        return V::Reject;
    };
    let Some(seed) = whole(&inner, 4) else {
        return V::Reject;
    };
    let Ok(seed): Result<[u8; 32], _> = seed.try_into() else {
        return V::Reject;
    };
    if let Some(pk) = pk {
        if pk != c25519::ed_public(&seed) {
            return V::Reject;
        }
    }
    if attrs {
        V::Either
    } else {
        V::Accept(seed.to_vec())
    }
}
fn ed_spki(b: &[u8]) -> V {
    let parse = || {
        let mut s = whole(b, 0x30)?;
        if want(&mut s, 0x30)? != der::oid(der::ED25519) {
            return None;
        }
        let k = bitstring(want(&mut s, 3)?)?;
        if !s.is_empty() {
            return None;
        }
        let k: [u8; 32] = k.try_into().ok()?;
        c25519::Ed::decode(&k)?;
        Some(k.to_vec())
    };
    parse().map(V::Accept).unwrap_or(V::Reject)
}
fn rsa_public(b: &[u8]) -> V {
    let parse = || {
        let mut s = whole(b, 0x30)?;
        let n = uint(&mut s)?;
        let e = uint(&mut s)?;
        if !s.is_empty() {
            return None;
        }
        Some((n, e))
    };
    let Some((n, e)) = parse() else {
        return V::Reject;
    };
    if e.bits() > 32 || e.is_zero() {
        return V::Either;
    }
    if n.bit(0) && (2048..=8192).contains(&n.bits()) && e.bit(0) && e.bits() > 1 {
        V::Accept(b.to_vec())
    } else {
        V::Either
    }
}
fn rsa_private(orig: &[u8], b: &[u8], outer: Option<&[u8]>) -> V {
    let parse = || {
        let mut s = whole(b, 0x30)?;
        if want(&mut s, 2)? != [0] {
            return None;
        }
        let mut v = Vec::new();
        for _ in 0..8 {
            v.push(uint(&mut s)?);
        }
        if !s.is_empty() {
            return None;
        }
        Some(v)
    };
    let Some(v) = parse() else {
        return V::Reject;
    };
    if let Some(pk) = outer {
        if pk != der::seq(&[ru::ui(&v[0]), ru::ui(&v[1])]) {
            return V::Reject;
        }
    }
    if b == orig {
        V::Accept(b.to_vec())
    } else {
        V::Either
    }
}
fn rsa_pkcs8(orig: &[u8], b: &[u8]) -> V {
    let Some((inner, pk, attrs)) = pkcs8(b, &rsa_alg()) else {
        return V::Reject;
    };
    let v = rsa_private(orig, &inner, pk.as_deref());
    if attrs {
        return both(v, || V::Either);
    }
    v
}

// ---------------------------------------------------------------- editable tree

#[derive(Clone, Debug)]
struct Node {
    tag: u8,
    body: Body,
    /// how the length is written: 0 minimal, 1.. non-minimal or wrong forms
    len: u8,
}
#[derive(Clone, Debug)]
enum Body {
    Prim(Vec<u8>),
    /// prefix bytes (the unused-bits octet of a BIT STRING), then elements
    Cons(Vec<u8>, Vec<Node>),
}
impl Node {
    fn parse_all(mut b: &[u8]) -> Option<Vec<Node>> {
        let mut v = Vec::new();
        while !b.is_empty() {
            let (tag, body, rest) = tlv(b)?;
            let inner = match tag {
                t if t & 0x20 != 0 => Some((vec![], Node::parse_all(body)?)),
                4 if body.len() > 2 => Node::parse_all(body).filter(|x| x.len() == 1).map(|x| (vec![], x)),
                3 if body.len() > 3 => Node::parse_all(&body[1..]).filter(|x| x.len() == 1).map(|x| (vec![body[0]], x)),
                _ => None,
            };
            v.push(Node { tag, body: inner.map(|(p, n)| Body::Cons(p, n)).unwrap_or(Body::Prim(body.to_vec())), len: 0 });
            b = rest;
        }
        Some(v)
    }
    fn enc(&self, out: &mut Vec<u8>) {
        let body = match &self.body {
            Body::Prim(b) => b.clone(),
            Body::Cons(p, n) => {
                let mut v = p.clone();
                for x in n {
                    x.enc(&mut v);
                }
                v
            }
        };
        out.push(self.tag);
        let n = body.len();
        match self.len {
            0 => out.extend(der::len(n)),
            1 => {
                // one more length octet than needed
                let m = der::len(n);
                if m.len() == 1 {
                    out.extend([0x81, n as u8]);
                } else {
                    out.push(m[0] + 1);
                    out.push(0);
                    out.extend(&m[1..]);
                }
            }
            2 => out.extend([0x84, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8]),
            3 => out.push(0x80),
            4 => out.extend(der::len(n + 1)),
            5 => out.extend(der::len(n.saturating_sub(1))),
            6 => out.extend([0x84, 0xff, 0xff, 0xff, 0xff]),
            7 => out.extend([0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
            8 => out.push(0xff),
            9 => out.extend([0x88, 0, 0, 0, 0, 0, 0, (n >> 8) as u8, n as u8]),
            _ => out.extend([0x82, (n >> 8) as u8, n as u8]),
        }
        out.extend(&body);
        if self.len == 3 {
            out.extend([0, 0]);
        }
    }
    fn count(v: &[Node]) -> usize {
        v.iter().map(|n| 1 + if let Body::Cons(_, c) = &n.body { Node::count(c) } else { 0 }).sum()
    }
    /// apply `f` to the list holding the `k`-th node (preorder) and its index there
    fn at<T>(v: &mut Vec<Node>, k: &mut usize, f: &mut dyn FnMut(&mut Vec<Node>, usize) -> T) -> Option<T> {
        for i in 0..v.len() {
            if *k == 0 {
                return Some(f(v, i));
            }
            *k -= 1;
            if let Body::Cons(_, c) = &mut v[i].body {
                if let Some(r) = Node::at(c, k, f) {
                    return Some(r);
                }
            }
        }
        None
    }
}

fn some_node(s: &mut Src) -> Node {
    let prim = |tag, b: &[u8]| Node { tag, body: Body::Prim(b.to_vec()), len: 0 };
    match s.idx(10) {
        0 => prim(5, &[]),
        1 => prim(2, &[0]),
        2 => prim(2, &[1]),
        3 => prim(4, &[]),
        4 => prim(0xa0, &[]),
        5 => prim(0x81, &[0]),
        6 => prim(0xa1, &[3, 1, 0]),
        7 => prim(0x30, &[]),
        8 => {
            let n = s.idx(6);
            let t = s.u8();
            prim(t, &s.bytes(n))
        }
        _ => prim(0, &[]),
    }
}
const OIDS: &[&[u32]] = &[der::EC_PUBLIC_KEY, der::P256, der::P384, der::RSA, der::ED25519, der::X25519, &[1, 3, 132, 0, 35], &[1, 3, 132, 0, 10], &[1, 2, 840, 113549, 1, 1, 10], &[1, 3, 101, 111], &[1, 3, 101, 113]];

fn mutate_tree(s: &mut Src, v: &mut Vec<Node>) -> String {
    let n = Node::count(v);
    let mut k = s.idx(n);
    let op = s.weighted(&[3, 3, 3, 2, 2, 2, 3, 4, 2]);
    let r = Node::at(v, &mut k, &mut |list, i| match op {
        0 => {
            let t = list[i].tag;
            list[i].tag = match s.idx(4) {
                0 => t ^ 0x20,
                1 => *s.pick(&[0x02u8, 0x03, 0x04, 0x05, 0x06, 0x30, 0x31, 0xa0, 0xa1, 0x80, 0x81, 0x1f, 0x3f, 0x0a, 0x01, 0x82, 0xa2]),
                2 => t ^ 0x80,
                _ => s.u8(),
            };
            format!("tag {t:02x}->{:02x}", list[i].tag)
        }
        1 => {
            list[i].len = s.range(1, 10) as u8;
            format!("length form {} of tag {:02x}", list[i].len, list[i].tag)
        }
        2 => {
            let x = some_node(s);
            let at = i + s.idx(2);
            let d = format!("insert {:02x}", x.tag);
            list.insert(at, x);
            d
        }
        3 => {
            let x = list.remove(i);
            format!("delete {:02x}", x.tag)
        }
        4 => {
            let x = list[i].clone();
            list.insert(i, x);
            format!("duplicate {:02x}", list[i].tag)
        }
        5 => {
            let j = s.idx(list.len());
            list.swap(i, j);
            format!("swap {i},{j}")
        }
        6 => {
            // append inside
            let extra = some_node(s);
            let raw = s.bool();
            match &mut list[i].body {
                Body::Cons(_, c) if !raw => c.push(extra),
                Body::Cons(p, c) => {
                    let mut b = p.clone();
                    for x in c.iter() {
                        x.enc(&mut b);
                    }
                    b.push(s.u8());
                    list[i].body = Body::Prim(b);
                }
                Body::Prim(b) => b.push(s.u8()),
            }
            format!("append inside {:02x}", list[i].tag)
        }
        7 => {
            if let Body::Prim(b) = &mut list[i].body {
                match s.idx(7) {
                    0 => b.insert(0, 0),
                    1 => b.insert(0, 0xff),
                    2 => {
                        if !b.is_empty() {
                            b.remove(0);
                        }
                    }
                    3 => {
                        b.pop();
                    }
                    4 => b.clear(),
                    5 => {
                        if !b.is_empty() {
                            let i = s.idx(b.len());
                            b[i] ^= 1 << s.idx(8);
                        }
                    }
                    _ => {
                        if !b.is_empty() {
                            b[0] = *s.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f, 0x80, 0xff]);
                        }
                    }
                }
            } else if let Body::Cons(p, c) = &mut list[i].body {
                if p.len() == 1 {
                    p[0] = s.range(1, 9) as u8;
                } else {
                    c.clear();
                }
            }
            format!("content of {:02x}", list[i].tag)
        }
        _ => {
            if list[i].tag == 6 {
                let o = der::oid(OIDS[s.idx(OIDS.len())]);
                list[i].body = Body::Prim(o[2..].to_vec());
                "other oid".to_string()
            } else {
                list[i].body = Body::Prim(vec![]);
                format!("empty {:02x}", list[i].tag)
            }
        }
    });
    r.unwrap_or_default()
}

pub(super) fn mutate(s: &mut Src, enc: &[u8]) -> (Vec<u8>, String) {
    let mut desc = String::new();
    let mut out = enc.to_vec();
    let rounds = *s.pick(&[1usize, 1, 1, 2, 3, 0]);
    if rounds > 0 && s.weighted(&[4, 1]) == 0 {
        if let Some(mut tree) = Node::parse_all(enc) {
            for _ in 0..rounds {
                if tree.is_empty() {
                    break;
                }
                desc.push_str(&mutate_tree(s, &mut tree));
                desc.push_str("; ");
            }
            out = Vec::new();
            for n in &tree {
                n.enc(&mut out);
            }
        }
    }
    if rounds > 0 && (desc.is_empty() || s.one_in(8)) {
        match s.idx(5) {
            0 => {
                let n = s.idx(out.len() + 1);
                out.truncate(n);
                desc.push_str(&format!("truncate to {n}; "));
            }
            1 => {
                let n = s.range(1, 4);
                let x = s.bytes(n);
                out.extend(x);
                desc.push_str(&format!("{n} trailing bytes; "));
            }
            2 => {
                out.extend([5, 0]);
                desc.push_str("trailing NULL; ");
            }
            3 if !out.is_empty() => {
                let i = s.idx(out.len().min(48));
                out[i] ^= 1 << s.idx(8);
                desc.push_str(&format!("flip in byte {i}; "));
            }
            _ if !out.is_empty() => {
                let i = s.idx(out.len());
                out[i] = s.u8();
                desc.push_str(&format!("set byte {i}; "));
            }
            _ => {}
        }
    }
    (out, desc)
}

// ---------------------------------------------------------------- generation

pub(super) const KINDS: &[&str] = &["rsa-public", "rsa-private", "rsa-pkcs8", "p256-sec1", "p384-sec1", "p256-pkcs8", "p384-pkcs8", "ed25519-pkcs8", "ed25519-spki"];

/// ask the library; Some(identification) when accepted
pub(super) fn import(kind: usize, b: &[u8]) -> Option<Vec<u8>> {
    let mut buf = vec![0; 6000];
    match kind {
        0 => rsa::VerifyingKey::from_pkcs1_der(b).ok().map(|k| k.to_pkcs1_der(&mut buf).unwrap().to_vec()),
        1 => rsa::SigningKey::from_pkcs1_der(b).ok().map(|k| k.to_pkcs1_der(&mut buf).unwrap().to_vec()),
        2 => rsa::SigningKey::from_pkcs8_der(b).ok().map(|k| k.to_pkcs1_der(&mut buf).unwrap().to_vec()),
        3 => SK::from_sec1(0, b).ok().map(|k| k.d()),
        4 => SK::from_sec1(1, b).ok().map(|k| k.d()),
        5 => SK::from_pkcs8(0, b).ok().map(|k| k.d()),
        6 => SK::from_pkcs8(1, b).ok().map(|k| k.d()),
        7 => Ed25519SigningKey::from_pkcs8_der(b).ok().map(|k| k.as_seed().to_vec()),
        _ => Ed25519VerifyingKey::from_spki_der(b).ok().map(|k| k.as_bytes().to_vec()),
    }
}
fn decide(kind: usize, orig_rsa: &[u8], b: &[u8]) -> V {
    match kind {
        0 => rsa_public(b),
        1 => rsa_private(orig_rsa, b, None),
        2 => rsa_pkcs8(orig_rsa, b),
        3 => sec1(0, b, None),
        4 => sec1(1, b, None),
        5 => ec_pkcs8(0, b),
        6 => ec_pkcs8(1, b),
        7 => ed_pkcs8(b),
        _ => ed_spki(b),
    }
}
/// a public key for an EC private key: right, or wrong in a way that is easy to overlook
fn ec_public(s: &mut Src, ci: usize, d: &BigUint) -> Vec<u8> {
    let c = curve(ci);
    let q = c.mul_g(d);
    let good = c.point(&q);
    match s.weighted(&[6, 2, 1, 1, 1, 1, 1]) {
        0 => good,
        1 => c.point(&c.neg(&q)),
        2 => c.point(&c.mul_g(&scalar(s, c))),
        3 => {
            let mut v = good[..1 + c.len].to_vec();
            v[0] = 2 + (good[good.len() - 1] & 1);
            v
        }
        4 => {
            let mut v = good;
            let n = v.len() - s.range(1, 3);
            v.truncate(n);
            v
        }
        5 => {
            let mut v = good;
            v.push(0);
            v
        }
        _ => vec![],
    }
}
fn rsa_key(s: &mut Src) -> ru::Key {
    for _ in 0..20 {
        if let Some(k) = ru::key(s, Shape::Common) {
            if k.p.bits() == 1024 {
                return k;
            }
        }
    }
    let p = ru::primes();
    let big: Vec<&BigUint> = p.iter().filter(|p| p.bits() == 1024).collect();
    (0..).find_map(|i| ru::Key::new(big[i], big[i + 1], &BigUint::from(65537u32))).unwrap()
}
/// (encoding, the RSA private key encoding it derives from)
pub(super) fn generate(s: &mut Src, kind: usize) -> (Vec<u8>, Vec<u8>) {
    let v8 = |s: &mut Src, alg: Vec<u8>, inner: Vec<u8>, pk: Vec<u8>| -> Vec<u8> {
        let mut parts = vec![der::uint(&[0]), alg, der::octets(&inner)];
        match s.weighted(&[5, 4, 1, 1, 1]) {
            0 => {}
            1 => {
                parts[0] = der::uint(&[1]);
                let mut b = der::bits(&pk);
                b[0] = 0x81;
                parts.push(b);
            }
            2 => {
                parts[0] = der::uint(&[1]);
                parts.push(der::tlv(0xa1, &der::bits(&pk)));
            }
            3 => parts[0] = der::uint(&[1]),
            _ => parts[0] = der::uint(&[s.u8()]),
        }
        der::seq(&parts)
    };
    match kind {
        0..=2 => {
            let k = rsa_key(s);
            let p1 = k.private_der();
            let enc = match kind {
                0 => k.public_der(),
                1 => p1.clone(),
                _ => {
                    let pk = match s.weighted(&[4, 1, 1]) {
                        0 => k.public_der(),
                        1 => {
                            let mut k2 = k.clone();
                            k2.n += 2u32;
                            k2.public_der()
                        }
                        _ => der::seq(&[rsa_alg(), der::bits(&k.public_der())]),
                    };
                    let alg = match s.weighted(&[8, 1, 1]) {
                        0 => rsa_alg(),
                        1 => der::seq(&[der::oid(der::RSA)]),
                        _ => der::seq(&[der::oid(der::RSA), der::tlv(5, &[0])]),
                    };
                    v8(s, alg, p1.clone(), pk)
                }
            };
            (enc, p1)
        }
        3..=6 => {
            let ci = (kind + 1) % 2;
            let c = curve(ci);
            let d = match s.weighted(&[8, 1, 1]) {
                0 => scalar(s, c),
                1 => &c.n + s.below(3),
                _ => BigUint::zero(),
            };
            let dd = if d.is_zero() || d >= c.n { BigUint::from(1u32) } else { d.clone() };
            let mut db = c.enc(&d);
            if s.one_in(12) {
                db.insert(0, 0);
            }
            let q = ec_public(s, ci, &dd);
            let with_q = s.bool();
            let mut inner = ec_sec1(ci, &db, if with_q { Some(&q) } else { None }, s.bool());
            if s.one_in(10) {
                inner = ec_sec1(1 - ci, &db, None, true);
            }
            if kind < 5 {
                (inner, vec![])
            } else {
                let alg = match s.weighted(&[10, 1, 1, 1]) {
                    0 => ec_encodings(ci, &db, &q).alg,
                    1 => ec_alg(1 - ci),
                    2 => der::seq(&[der::oid(der::EC_PUBLIC_KEY)]),
                    _ => der::seq(&[der::oid(der::EC_PUBLIC_KEY), der::null()]),
                };
                let outer = ec_public(s, ci, &dd);
                (v8(s, alg, inner, outer), vec![])
            }
        }
        7 => {
            let seed: [u8; 32] = s.barr();
            let mut pk = c25519::ed_public(&seed).to_vec();
            match s.weighted(&[6, 1, 1]) {
                0 => {}
                1 => pk[31] ^= 0x80,
                _ => pk[0] ^= 1,
            }
            let alg = match s.weighted(&[6, 1, 1]) {
                0 => der::seq(&[der::oid(der::ED25519)]),
                1 => der::seq(&[der::oid(der::ED25519), der::null()]),
                _ => der::seq(&[der::oid(der::X25519)]),
            };
            let n = if s.one_in(8) { s.idx(40) } else { 32 };
            let mut sd = seed.to_vec();
            sd.resize(n, 0);
            let inner = if s.one_in(10) { sd } else { der::octets(&sd) };
            (v8(s, alg, inner, pk), vec![])
        }
        _ => {
            let seed: [u8; 32] = s.barr();
            let mut pk = c25519::ed_public(&seed).to_vec();
            if s.one_in(6) {
                pk = s.bytes(32);
            }
            let alg = match s.weighted(&[6, 1, 1, 1]) {
                0 => der::seq(&[der::oid(der::ED25519)]),
                1 => der::seq(&[der::oid(der::ED25519), der::null()]),
                2 => der::seq(&[der::oid(der::ED25519), der::oid(der::P256)]),
                _ => der::seq(&[der::oid(der::X25519)]),
            };
            (der::seq(&[alg, der::bits(&pk)]), vec![])
        }
    }
}

fn judge(s: &mut Src, kind: usize, rsa: &[u8], b: &[u8], desc: &str) -> R {
    let v = decide(kind, rsa, b);
    let got = import(kind, b);
    s.note(format!("{} {desc} {}: {:?}", KINDS[kind], hex(&b[..b.len().min(120)]), match &v { V::Accept(_) => "accept", V::Reject => "reject", V::Either => "either" }));
    match v {
        V::Accept(id) => {
            s.label("accept");
            match got {
                Some(g) => ensure!(g == id, format!("{}-value", KINDS[kind]), "{desc}: {} was read as {} instead of {}", hex(b), hex(&g), hex(&id)),
                None => return fail(&format!("{}-refused", KINDS[kind]), format!("{desc}: well-formed {} was refused", hex(b))),
            }
        }
        V::Reject => {
            s.label("reject");
            ensure!(got.is_none(), format!("{}-accepted", KINDS[kind]), "{desc}: {} was accepted", hex(b));
        }
        V::Either => s.label("either"),
    }
    Ok(())
}

/// valid or near-valid encodings, unmutated at first and then damaged
fn structured(s: &mut Src) -> R {
    let kind = s.idx(KINDS.len());
    let (enc, rsa) = generate(s, kind);
    let (b, desc) = mutate(s, &enc);
    s.nontrivial();
    let kind = if s.one_in(10) { s.idx(KINDS.len()) } else { kind };
    judge(s, kind, &rsa, &b, &desc)
}
/// every single-byte truncation and a walk over every byte of one encoding
fn walk(s: &mut Src) -> R {
    let kind = (s.idx % KINDS.len() as u64) as usize;
    let (enc, rsa) = generate(s, kind);
    s.nontrivial();
    for n in 0..enc.len() {
        let got = import(kind, &enc[..n]);
        ensure!(got.is_none(), format!("{}-accepted", KINDS[kind]), "truncation to {n} bytes of {} was accepted", hex(&enc));
    }
    let x = 1u8 << s.idx(8);
    // the values themselves are not interesting to walk through, the framing is: skip long runs
    for i in (0..enc.len()).filter(|i| *i < 80 || i % 7 == 0 || enc.len() - i < 40) {
        let mut b = enc.clone();
        b[i] ^= x;
        judge(s, kind, &rsa, &b, &format!("flip {x:02x} in byte {i}"))?;
    }
    Ok(())
}
/// where tags, lengths and the first octets of contents stand, and all of short contents
fn framing(b: &[u8], base: usize, out: &mut Vec<usize>) {
    let mut at = 0;
    while at < b.len() {
        let Some((tag, body, rest)) = tlv(&b[at..]) else {
            return;
        };
        let start = b.len() - rest.len() - body.len();
        out.extend((at..start).map(|i| base + i));
        let shown = if body.len() <= 12 { body.len() } else { 2.min(body.len()) };
        let mut inner = vec![];
        match tag {
            t if t & 0x20 != 0 => framing(body, base + start, &mut inner),
            4 if body.len() > 2 => framing(body, base + start, &mut inner),
            3 if body.len() > 3 => framing(&body[1..], base + start + 1, &mut inner),
            _ => {}
        }
        inner.extend((start..start + shown).map(|i| base + i));
        inner.sort();
        inner.dedup();
        out.extend(inner);
        at = b.len() - rest.len();
    }
}
/// one octet of the framing of one encoding, all values
fn octet(s: &mut Src) -> R {
    let kind = (s.idx % KINDS.len() as u64) as usize;
    let (enc, rsa) = generate(s, kind);
    let mut pos = vec![];
    framing(&enc, 0, &mut pos);
    let i = if pos.is_empty() { 0 } else { pos[(s.idx / KINDS.len() as u64) as usize % pos.len()] };
    s.nontrivial();
    s.note(format!("{} octet {i} of {}", KINDS[kind], enc.len()));
    for v in 0..=255u8 {
        let mut b = enc.clone();
        if let Some(x) = b.get_mut(i) {
            *x = v;
        }
        judge(s, kind, &rsa, &b, &format!("octet {i} set to {v:02x}"))?;
    }
    Ok(())
}
fn random(s: &mut Src) -> R {
    let kind = s.idx(KINDS.len());
    let n = s.idx(60);
    let mut b = s.bytes(n);
    if s.bool() && n > 2 {
        b[0] = 0x30;
        b[1] = (n - 2) as u8;
        if s.bool() && n > 5 {
            b[2..5].copy_from_slice(&[2, 1, 0]);
        }
    }
    if n > 2 {
        s.nontrivial();
    }
    judge(s, kind, &[], &b, "random")
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "Encodings of generated keys in all nine importable forms, with versions, parameters, public keys and contents varied, then damaged by up to three structural edits (tags, length forms, insertion, deletion, duplication, reordering, trailing data inside and outside, integer and bit-string padding, other OIDs, truncation, byte changes), are judged by a strict DER reader written for the harness; non-trivial: every case except empty random strings, distinct by the recorded choices.",
        assumptions: &["a private key whose octet string is longer or shorter than the field but has the right value, a compressed matching public key, PKCS#8 attributes, and well-formed RSA numbers with inconsistent values are left undecided"],
        subs: vec![
            Sub::new("structured", structured, 40_000, 1_500_000),
            Sub::new("walk", walk, 270, 5_000),
            Sub::new("octet", octet, 1400, 40_000),
            Sub::new("random", random, 60_000, 2_000_000),
        ],
    }
}
