//! Long lives: one process makes hundreds to tens of thousands of messages (C01, C03, C04, C09).
//!
//! Every other scenario starts each run in a fresh process and makes a handful of messages, so what
//! depends on how many there were (counters, caches, pools, blocks of random bytes) is only reached here.

use std::collections::HashSet;

use oauth::signature_method::SignatureMethod;
use simrt::{below, chance, check, eval, ev, pickc, probe, probe_n, state, sut, violation};

use crate::gen;
use crate::harness::*;
use crate::op::{self, Op, Req, Sm, WithSm};
use crate::world;

/// What a life is checked for.
#[derive(Clone, Copy, PartialEq)]
enum For {
    Verified,
    Nonces,
    Clock,
    Settings,
}

struct Life {
    what: For,
    o: Op,
    n: usize,
    /// Whether one builder makes all the messages.
    shared: bool,
    /// The nonces so far.
    seen: HashSet<String>,
}

fn fail(what: For, o: &Op, i: usize, e: String) -> ! {
    let class = match what {
        For::Verified => "unverifiable",
        For::Nonces => "bad-nonce",
        For::Clock => "wrong-timestamp",
        For::Settings => "stale-settings",
    };
    violation(class, format!("message {} of this process: {}: {}", i, e, o.brief()))
}

impl WithSm for Life {
    type R = HashSet<String>;
    fn call<SM: SignatureMethod + Clone + Send + Sync + 'static>(mut self, sm: SM) -> HashSet<String> {
        let o: &'static Op = Box::leak(Box::new(self.o.clone()));
        let panicked = |i: usize, p: simrt::Panicked| -> ! { fail(self.what, o, i, format!("panicked: {} at {}", p.msg, p.loc)) };
        let req: Req = match sut(|| o.request()) {
            Ok(r) => r,
            Err(p) => panicked(0, p),
        };
        let b = match sut(|| o.builder(sm)) {
            Ok(b) => b,
            Err(p) => panicked(0, p),
        };
        let pinned = o.nonce.is_some() && o.ts.is_some();
        let mut first: Option<String> = None;
        let tick = pickc(&[0usize, 1, 7, 100]);
        let by = pickc(&[0u64, world::MS, world::S, 3600 * world::S]);
        for i in 0..self.n {
            if tick > 0 && i % tick == 0 {
                simrt::advance(by);
            }
            let mark = op::mark();
            let r = if self.shared {
                sut(|| o.exec_shared(&b, &req, &mut None)).and_then(|t| o.strip(t))
            } else {
                o.exec_with(&req).map(|d| d.text)
            };
            let text = match r {
                Ok(t) => t,
                Err(p) => panicked(i, p),
            };
            eval();
            if let (true, Some(f)) = (pinned, &first) {
                if *f != text {
                    fail(self.what, o, i, format!("the same call yielded {:?} before and {:?} now", f, text));
                }
                continue;
            }
            let p = match o.verify(&text) {
                Ok(p) => p,
                Err(e) => fail(self.what, o, i, e),
            };
            if o.ts.is_none() && !op::clock_had(mark, p.ts) {
                fail(self.what, o, i, format!("the timestamp {} is not the clock's", p.ts));
            }
            if o.nonce.is_none() && !self.seen.insert(p.nonce.clone()) {
                fail(self.what, o, i, format!("the nonce {:?} was generated before", p.nonce));
            }
            first = Some(text);
        }
        self.seen
    }
}

fn life(what: For) {
    world::swarm();
    // Small counts mostly; the largest take seconds.
    let mut left = match below(100) {
        0..=44 => 260 + below(60),
        45..=79 => 1030 + below(300),
        80..=95 => 4100 + below(1100),
        96..=98 => 17000,
        _ => 66000,
    };
    if left > 10_000 {
        // A draw for every read would make the trace too long.
        let r = simrt::rt();
        (r.entropy.eintr, r.entropy.short) = (0, 0);
    }
    probe_n("marathon.messages", left as u64);
    let mut seen = HashSet::new();
    // A life of ever other messages: what is kept under part of a message's identity is mixed up.
    let varied = left < 330 && chance(140);
    let theme = below(4);
    let client = (gen::text(), gen::secret());
    while left > 0 {
        let mut o = op::gen_op(op::OpCfg {
            entries: None,
            max_params: if left > 20000 { 1 } else { 3 },
            frag: false,
            sm: Some(pickc(&[Sm::Plain, Sm::Hmac, Sm::Hmac, Sm::EitherHp(false), Sm::EitherHp(true), Sm::PlainBuf])),
            ..op::CFG
        });
        let n = if varied {
            probe("marathon.varied");
            1 + below(2).min(left - 1)
        } else if chance(100) { left } else { (left / 3).max(100).min(left) };
        match theme {
            0 if varied => o.cs = format!("{}{}", gen::secret(), "s".repeat(64)),
            1 if varied => (o.ck, o.cs) = client.clone(),
            2 if varied => o.ck = client.0.clone(),
            _ => {}
        }
        // What the message costs is the number of its bytes; a long one is for a short life.
        if n > 600 {
            for t in [&mut o.ck, &mut o.cs, &mut o.uri, &mut o.prefix] {
                if t.len() > 130 {
                    *t = "http://example.com/p".into();
                }
            }
            for t in [&mut o.cb, &mut o.ver, &mut o.nonce].into_iter().flatten() {
                if t.len() > 130 {
                    *t = "x".into();
                }
            }
            if let Some((t, s)) = &mut o.tok {
                if t.len() + s.len() > 200 {
                    (*t, *s) = ("t".into(), "s".into());
                }
            }
            if o.rk == op::Rk::Derived {
                // (Its fields are all there.)
                o.params.iter_mut().filter(|p| p.v.len() >= 200).for_each(|p| p.v = "v".into());
            } else {
                o.params.retain(|p| p.v.len() < 200);
            }
        }
        let free = op::entry_is_free(o.entry);
        match what {
            For::Nonces => o.nonce = None,
            For::Clock => o.ts = None,
            For::Settings if !free && chance(200) => {
                o.nonce.get_or_insert_with(|| "n".into());
                o.ts.get_or_insert_with(op::gen_ts);
            }
            _ => {}
        }
        let shared = op::entry_on_builder(o.entry) && !op::entry_consumes(o.entry) && chance(128);
        if shared {
            probe("marathon.one_builder");
        }
        state(o.shape());
        ev(|| format!("{} messages: {}", n, o.brief()));
        let x = o.clone();
        seen = x.with_sm(Life { what, o, n, shared, seen });
        left -= n;
    }
}

pub fn verified() {
    life(For::Verified)
}

pub fn nonces() {
    life(For::Nonces)
}

pub fn clock() {
    life(For::Clock)
}

pub fn settings() {
    life(For::Settings)
}
