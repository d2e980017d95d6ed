//! C25: session tickets.
use crate::clockshim;
use crate::engine::*;
use crate::rngshim;
use rustls::server::ProducesTickets;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

const HOUR: i64 = 3600;
const OVERHEAD: usize = 16 + 24 + 16;

struct Issued {
    by: usize,
    state: Vec<u8>,
    ticket: Vec<u8>,
    at: i64,
}
fn state(s: &mut Src) -> Vec<u8> {
    let n = match s.idx(5) {
        0 => 1 + s.idx(3),
        1 => 1 + s.len(3000),
        2 => 64 * (1 + s.idx(8)) + s.idx(3) - 1,
        _ => 1 + s.idx(300),
    };
    s.blob(n)
}
fn nonce_of(t: &[u8]) -> &[u8] {
    &t[16..40]
}
/// issue and open in any order, tampering in between, with the clock moving
fn history(s: &mut Src) -> R {
    let timed = s.one_in(3);
    let count = if timed { 1 } else { 1 + s.idx(3) };
    let mut now = 0i64;
    clockshim::set(0);
    rngshim::prng(&[], s.u64());
    let r = run(s, timed, count, &mut now);
    rngshim::reset();
    clockshim::set(0);
    r
}
fn run(s: &mut Src, timed: bool, count: usize, now: &mut i64) -> R {
    let mut t: Vec<Arc<dyn ProducesTickets>> = vec![];
    for _ in 0..count {
        match rustls_graviola::Ticketer::new() {
            Ok(x) => t.push(x),
            Err(e) => return fail("new", format!("{e:?}")),
        }
    }
    ensure!(t[0].enabled(), "enabled", "ticketer says it is off");
    let life = t[0].lifetime() as i64;
    ensure!(life == 12 * HOUR, "lifetime", "tickets are said to live {life} seconds");
    let mut issued: Vec<Issued> = vec![];
    let steps = 4 + s.idx(24);
    let (mut opened, mut refused) = (0, 0);
    for _ in 0..steps {
        if timed && s.one_in(3) {
            // no single step passes a rotation unnoticed
            let d = match s.idx(4) {
                0 => HOUR * 6 - 1 + s.idx(4) as i64,
                1 => s.below(7000) as i64,
                _ => s.below(5) as i64 * HOUR + s.below(3600) as i64,
            };
            let mut left = d;
            while left > 0 {
                let hop = left.min(HOUR);
                *now += hop;
                left -= hop;
                clockshim::set(*now);
                // keep it in use, as a server would
                let _ = t[0].decrypt(&[0; 100]);
            }
            continue;
        }
        let by = s.idx(count);
        let op = if issued.is_empty() { 0 } else { s.idx(7) };
        if op == 0 {
            let st = state(s);
            let before = rngshim::consumed();
            let Some(k) = t[by].encrypt(&st) else {
                return fail("issue", format!("no ticket for a state of {} bytes", st.len()));
            };
            ensure!(rngshim::consumed() >= before + 24, "fresh-nonce", "a ticket was made from {} random bytes", rngshim::consumed() - before);
            ensure!(k.len() == st.len() + OVERHEAD, "length", "ticket of {} bytes for {} bytes", k.len(), st.len());
            for w in st.chunks(16) {
                if w.len() == 16 && w.iter().any(|b| *b != w[0]) {
                    ensure!(crate::watch::find(&k, w).is_none(), "clear", "ticket shows the state");
                }
            }
            for o in &issued {
                ensure!(nonce_of(&o.ticket) != nonce_of(&k), "nonce", "two tickets have nonce {}", hex(nonce_of(&k)));
                let body = |x: &[u8]| x[40..].to_vec();
                ensure!(body(&o.ticket) != body(&k), "same", "two tickets are encrypted alike");
            }
            issued.push(Issued { by, state: st, ticket: k, at: *now });
            continue;
        }
        let i = s.idx(issued.len());
        let (honest, owner) = (issued[i].ticket.clone(), issued[i].by);
        let mut k = honest.clone();
        let mut at = owner;
        let mut what = "own";
        match op {
            1 | 2 => (),
            3 => {
                let b = s.idx(k.len());
                let bit = s.idx(8);
                k[b] ^= 1 << bit;
                what = "bit";
            }
            4 => match s.idx(5) {
                0 => {
                    let cut = 1 + s.idx(k.len());
                    k.truncate(k.len() - cut);
                    what = "cut";
                }
                1 => {
                    let cut = 1 + s.idx(k.len());
                    k.drain(..cut);
                    what = "front";
                }
                2 => {
                    let n = 1 + s.idx(30);
                    let x = s.blob(n);
                    k.extend(x);
                    what = "more";
                }
                3 => {
                    let at = s.idx(k.len());
                    k.remove(at);
                    what = "gap";
                }
                _ => {
                    let n = s.idx(k.len() + 1);
                    let m = k.len();
                    k[n..m].fill(0);
                    what = "zeros";
                }
            },
            5 => {
                // parts of two tickets, or another instance's name
                let j = s.idx(issued.len());
                let o = issued[j].ticket.clone();
                let cuts = [0, 16, 40, k.len() - 16];
                let c = cuts[s.idx(4)].min(o.len());
                k = if s.bool() { [&k[..c], &o[c..]].concat() } else { [&o[..c], &k[c..]].concat() };
                what = "splice";
            }
            _ => {
                if count > 1 && s.bool() {
                    at = (owner + 1) % count;
                    if s.bool() {
                        // under the name of one of that instance's tickets
                        if let Some(o) = issued.iter().find(|o| o.by == at) {
                            k[..16].copy_from_slice(&o.ticket[..16]);
                        }
                    }
                    what = "other";
                } else {
                    let n = s.idx(200);
                    k = s.bytes(n);
                    what = "junk";
                }
            }
        }
        // a splice can be another genuine ticket
        let genuine = issued.iter().find(|o| o.by == at && o.ticket == k).map(|o| (o.state.clone(), *now - o.at));
        let got = t[at].decrypt(&k);
        match genuine {
            Some((want, age)) => {
                if age <= 6 * HOUR {
                    ensure!(got.as_deref() == Some(&want[..]), "open", "ticket for {} bytes, {age} s old ({what}), opened as {:?}", want.len(), got.map(|g| hexs(&g)));
                } else if age > life + 2 * HOUR {
                    // rotation happens at the first use after it is due
                    ensure!(got.is_none(), "stale", "ticket {age} s old still opens");
                } else if let Some(g) = &got {
                    ensure!(g == &want, "open", "ticket {age} s old opened as {}", hexs(g));
                }
                opened += 1;
            }
            None => {
                ensure!(got.is_none(), format!("forged/{what}"), "ticket changed by {what} opened as {:?}", got.map(|g| hexs(&g)));
                refused += 1;
                s.label(what);
            }
        }
    }
    if opened + refused > 0 {
        s.nontrivial();
    }
    s.label(if timed { "clock moves" } else { "clock still" });
    s.note(format!("{count} ticketers, {} issued, {opened} opened, {refused} refused, {} h", issued.len(), *now / HOUR));
    Ok(())
}
/// every bit and every length of one ticket
fn exhaustive(s: &mut Src) -> R {
    let n = 1 + s.idx(40);
    let st = s.blob(n);
    let Ok(t) = rustls_graviola::Ticketer::new() else {
        return fail("new", "");
    };
    // so that longer ones are not refused for their length
    let _ = t.encrypt(&[9; 300]);
    let Some(k) = t.encrypt(&st) else {
        return fail("issue", "");
    };
    for b in 0..8 * k.len() {
        let mut x = k.clone();
        x[b / 8] ^= 1 << (b % 8);
        ensure!(t.decrypt(&x).is_none(), "forged/bit", "ticket with bit {b} changed opens");
    }
    for l in 0..k.len() {
        ensure!(t.decrypt(&k[..l]).is_none(), "forged/cut", "ticket cut to {l} bytes opens");
        ensure!(t.decrypt(&k[k.len() - l..]).is_none(), "forged/front", "last {l} bytes of a ticket open");
        let mut x = k.clone();
        x.extend(vec![0; l + 1]);
        ensure!(t.decrypt(&x).is_none(), "forged/more", "ticket with {} bytes more opens", l + 1);
    }
    ensure!(t.decrypt(&k).as_deref() == Some(&st[..]), "open", "ticket does not open");
    s.nontrivial();
    s.note(format!("{} changes of a ticket for {n} bytes", 11 * k.len()));
    Ok(())
}
/// several threads on one ticketer
fn threads(s: &mut Src) -> R {
    let n = 2 + s.idx(4);
    let rounds = 1 + s.idx(40);
    let mut plans: Vec<Vec<Vec<u8>>> = vec![];
    for _ in 0..n {
        let mut p = vec![];
        for _ in 0..rounds {
            // lengths straddle what was largest before
            let l = 1 + s.idx(600);
            let fill = s.u8();
            let mut v = vec![fill; l];
            v[0] = s.u8();
            p.push(v);
        }
        plans.push(p);
    }
    let tickers: Vec<Arc<dyn ProducesTickets>> = (0..rounds).filter_map(|_| rustls_graviola::Ticketer::new().ok()).collect();
    ensure!(tickers.len() == rounds, "new", "ticketer not made");
    let shared = s.bool();
    let gate: Vec<AtomicUsize> = (0..rounds).map(|_| AtomicUsize::new(0)).collect();
    let done: Vec<AtomicUsize> = (0..rounds).map(|_| AtomicUsize::new(0)).collect();
    let board: Mutex<Vec<(usize, Vec<u8>, Vec<u8>)>> = Mutex::new(vec![]);
    let bad: Mutex<Option<(String, String)>> = Mutex::new(None);
    let meet = |g: &AtomicUsize| {
        g.fetch_add(1, Ordering::SeqCst);
        let mut spins = 0u32;
        while g.load(Ordering::SeqCst) < n {
            spins += 1;
            if spins > 2000 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    };
    std::thread::scope(|sc| {
        for me in 0..n {
            let (plan, tickers, gate, done, board, bad, meet) = (&plans[me], &tickers, &gate, &done, &board, &bad, &meet);
            sc.spawn(move || {
                for r in 0..rounds {
                    let which = if shared { 0 } else { r };
                    let t = &tickers[which];
                    meet(&gate[r]);
                    let k = t.encrypt(&plan[r]);
                    let again = k.as_ref().and_then(|k| t.decrypt(k));
                    meet(&done[r]);
                    let later = k.as_ref().and_then(|k| t.decrypt(k));
                    if again.as_ref() != Some(&plan[r]) || later.as_ref() != Some(&plan[r]) {
                        let mut b = bad.lock().unwrap();
                        if b.is_none() {
                            *b = Some(("threads/open".into(), format!("thread {me} of {n}, round {r}: ticket for {} bytes: issued {}, opened at once {}, later {}", plan[r].len(), k.is_some(), again.is_some(), later.is_some())));
                        }
                    }
                    board.lock().unwrap().push((which, plan[r].clone(), k.unwrap_or_default()));
                }
            });
        }
    });
    if let Some((k, m)) = bad.into_inner().unwrap() {
        return fail(&k, m);
    }
    let all = board.into_inner().unwrap();
    for (i, (w, st, k)) in all.iter().enumerate() {
        ensure!(tickers[*w].decrypt(k).as_ref() == Some(st), "threads/open", "ticket does not open on another thread");
        for (w2, _, k2) in &all[..i] {
            ensure!(k != k2 && (w != w2 || k[16..40] != k2[16..40]), "threads/nonce", "two tickets have the same nonce");
        }
    }
    s.nontrivial();
    s.note(format!("{n} threads, {rounds} rounds, {} tickets", all.len()));
    Ok(())
}
/// a random source that fails, at first use or when keys rotate
fn failing(s: &mut Src) -> R {
    clockshim::set(0);
    rngshim::prng(&[], s.u64());
    let at = s.idx(12);
    rngshim::fail_at(at);
    let r = (|| {
        let Ok(t) = rustls_graviola::Ticketer::new() else {
            ensure!(rngshim::failed() > 0, "new", "no ticketer, though random bytes were to be had");
            s.label("no ticketer");
            return Ok(());
        };
        let mut now = 0;
        let mut seen: Vec<(Vec<u8>, Vec<u8>, i64)> = vec![];
        for i in 0..14 {
            if s.one_in(4) {
                now += 6 * HOUR + 1;
                clockshim::set(now);
            }
            let failed = rngshim::failed();
            let st = vec![i as u8 + 1; 1 + s.idx(50)];
            match t.encrypt(&st) {
                Some(k) => {
                    ensure!(t.decrypt(&k).as_ref() == Some(&st), "open", "ticket does not open");
                    for (_, o, _) in &seen {
                        ensure!(o[16..40] != k[16..40], "nonce", "two tickets have the same nonce");
                    }
                    seen.push((st, k, now));
                }
                None => {
                    ensure!(rngshim::failed() > failed, "issue", "no ticket, though random bytes were to be had");
                    s.label("no ticket");
                }
            }
        }
        for (st, k, when) in &seen {
            match t.decrypt(k) {
                Some(x) => ensure!(&x == st, "open", "ticket opens as something else"),
                None => ensure!(now > *when + 6 * HOUR, "open", "ticket does not open"),
            }
        }
        Ok(())
    })();
    rngshim::reset();
    clockshim::set(0);
    r?;
    s.nontrivial();
    s.note(format!("draw {at} fails"));
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "at least one ticket was offered to a ticketer, and accepted or refused as the model of issued tickets says",
        assumptions: &["tickets for an empty state are out of scope: rustls never asks for one", "key rotation itself is rustls's; that it is set up with a 12 hour lifetime is checked", "thread interleavings are whatever the scheduler gives"],
        subs: vec![
            Sub::new("history", history, 250_000, 2_000_000),
            Sub::new("exhaustive", exhaustive, 1200, 40_000).all(),
            Sub::new("threads", threads, 2500, 40_000),
            Sub::new("failing", failing, 10_000, 200_000),
        ],
    }
}
