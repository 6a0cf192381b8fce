//! C04: the timestamp is the clock's reading during the call.

use std::num::NonZeroU64;

use oauth::signature_method::SignatureMethod;
use oauth::Builder;
use simrt::{below, chance, check, draw, eval, ev, node as cur_node, pickc, probe, rt, set_node, state, sut, violation, wall_secs, FAULT};

use crate::harness::*;
use crate::op::{self, Op, Req, WithSm};
use crate::world::S;

fn gen_op() -> Op {
    let mut o = op::gen_op(op::OpCfg { max_params: 2, ..op::CFG });
    if o.sm.alg() == op::Alg::Rsa && chance(200) {
        o.sm = op::Sm::Hmac;
    }
    o
}

fn reading() -> i128 {
    let s = match below(12) {
        0..=3 => 1_600_000_000,
        4 => 0,
        5 => 1,
        6 => -1,
        7 => -(below(2_000_000_000) as i64),
        8 => below(12) as i64,
        9 => u32::MAX as i64 + below(3) as i64 - 1,
        10 => i32::MAX as i64 + below(3) as i64 - 1,
        _ => 253_402_300_800 + below(1_000_000) as i64 * 1_000_000,
    };
    s as i128 * S as i128 + pickc(&[0u64, 1, 499_999_999, 500_000_000, 999_999_999]) as i128
}

fn judge(o: &Op, text: &str, mark: (usize, i64), what: &str) {
    eval();
    let p = match o.verify(text) {
        Ok(p) => p,
        Err(e) => violation("bad-timestamp", format!("{}: {} -- {}", what, e, o.brief())),
    };
    if o.ts.is_none() {
        let now = wall_secs(cur_node());
        check!(
            op::clock_had(mark, p.ts), "wrong-timestamp",
            "{}: the timestamp is {}, but the clock went from {} to {} during the call: {}", what, p.ts, mark.1, now, o.brief()
        );
        if mark.1 != now {
            probe("clock.changed_during_call");
        }
        if mark.1 < 1 {
            probe("clock.before_epoch");
        }
    } else {
        probe("clock.pinned");
    }
    ev(|| format!("{}: ts={} clock={}..{}", what, p.ts, mark.1, wall_secs(cur_node())));
}

fn time_passes() {
    match draw(FAULT, 7) {
        0 => {}
        1 => simrt::advance(draw(FAULT, 3) as u64 * S + draw(FAULT, 1_000_000_000) as u64),
        2 => simrt::advance(draw(FAULT, 1 << 20) as u64 * S),
        3 => {
            probe("fault.clock_set");
            let r = reading();
            simrt::set_clock(cur_node(), r);
        }
        4 => {
            probe("fault.clock_set_back");
            simrt::jump_clock(cur_node(), -(draw(FAULT, 100_000) as i128) * S as i128);
        }
        5 => {
            // Right before the next second.
            let w = simrt::wall(cur_node());
            let to = w.div_euclid(S as i128) * S as i128 + 999_999_999;
            simrt::set_clock(cur_node(), to);
        }
        _ => {
            // A suspended machine.
            simrt::advance(draw(FAULT, 1 << 28) as u64 * S);
        }
    }
}

/// One builder that lives through all of this.
struct Life {
    o: Op,
    threads: bool,
    nodes: Vec<usize>,
}

impl WithSm for Life {
    type R = ();
    fn call<SM: SignatureMethod + Clone + Send + Sync + 'static>(self, sm: SM) {
        let mut o = self.o.clone();
        let base: &'static Op = Box::leak(Box::new(self.o.clone()));
        let mut b: Builder<'static, SM, Cred, Cred> = match sut(|| base.builder(sm)) {
            Ok(b) => b,
            Err(p) => violation("panic", p.msg),
        };
        let mut req: Req = o.request();
        let mut old: Vec<(Op, Builder<'static, SM, Cred, Cred>)> = Vec::new();
        for _ in 0..2 + below(6) {
            time_passes();
            match below(6) {
                0 => {
                    let t = op::gen_ts();
                    o.ts = Some(t);
                    if chance(128) {
                        b.timestamp(NonZeroU64::new(t));
                    } else {
                        b.timestamp(NonZeroU64::new(t).unwrap());
                    }
                }
                1 => {
                    o.ts = None;
                    b.timestamp(None);
                }
                2 => old.push((o.clone(), b.clone())),
                3 if !old.is_empty() => {
                    let i = below(old.len());
                    std::mem::swap(&mut old[i].0, &mut o);
                    std::mem::swap(&mut old[i].1, &mut b);
                }
                4 => {
                    let n = gen_op();
                    o.params = n.params;
                    o.rk = n.rk;
                    req = o.request();
                }
                _ => {}
            }
            if !self.nodes.is_empty() && chance(60) {
                set_node(self.nodes[below(self.nodes.len())]);
            }
            o.entry = below(28);
            if let Some(m) = op::ENTRIES[o.entry].2 {
                o.method = m.into();
            }
            o.prefix.clear();
            let req_ = o.request();
            std::mem::forget(std::mem::replace(&mut req, req_));
            let mark = op::mark();
            let r = sut(|| o.exec_shared(&b, &req, &mut None)).and_then(|t| o.strip(t));
            match r {
                Ok(t) => judge(&o, &t, mark, "builder"),
                Err(p) => violation("panic", format!("{} panicked: {} at {}", o.brief(), p.msg, p.loc)),
            }
        }
        if self.threads {
            let b: &'static _ = Box::leak(Box::new(b));
            let o: &'static Op = Box::leak(Box::new(o));
            let req: &'static Req = Box::leak(Box::new(req));
            rt().edges_on = chance(160);
            rt().preempt_span = pickc(&[2, 8, 64, 2000]);
            let mut fs: Vec<(usize, Box<dyn FnOnce() + Send>)> = Vec::new();
            for t in 0..2 + below(2) {
                let node = self.nodes[t % self.nodes.len()];
                let naps: Vec<u64> = (0..1 + below(3)).map(|_| below(3) as u64 * S).collect();
                fs.push((
                    node,
                    Box::new(move || {
                        for nap in naps {
                            simrt::sleep_ns(nap);
                            let mark = op::mark();
                            let r = sut(|| o.exec_shared(b, req, &mut None)).and_then(|t| o.strip(t));
                            match r {
                                Ok(t) => judge(o, &t, mark, "thread"),
                                Err(p) => violation("panic", format!("{} panicked: {} at {}", o.brief(), p.msg, p.loc)),
                            }
                        }
                    }),
                ));
            }
            probe("clock.threads");
            for p in simrt::run_threads(fs).into_iter().flatten() {
                violation("panic", format!("a thread panicked: {}", p));
            }
        }
    }
}

pub fn clocks() {
    let r = rt();
    r.entropy.eintr = pickc(&[0, 0, 60]);
    r.clock.tick = pickc(&[0, 1_000_000, 500_000_000, 3_000_000_000]);
    r.clock.jump = pickc(&[0, 0, 40, 200]);
    let nodes: Vec<usize> = (0..1 + below(3))
        .map(|_| {
            let w = reading();
            simrt::new_node(w, pickc(&[0i64, 0, 500, -500, 100_000]))
        })
        .collect();
    set_node(nodes[0]);
    // Any entry point, at any reading.
    for _ in 0..1 + below(4) {
        let o = gen_op();
        state(o.shape());
        time_passes();
        let req = match sut(|| o.request()) {
            Ok(r) => r,
            Err(p) => violation("panic", p.msg),
        };
        time_passes();
        let mark = op::mark();
        match o.exec_with(&req) {
            Ok(d) => judge(&o, &d.text, mark, "call"),
            Err(p) => violation("panic", format!("{} panicked: {} at {} (clock: {})", o.brief(), p.msg, p.loc, mark.1)),
        }
    }
    let mut o = gen_op();
    o.prefix.clear();
    if op::entry_is_free(o.entry) || !op::entry_on_builder(o.entry) {
        o.entry = 0;
    }
    let threads = chance(90);
    let op = o.clone();
    op.with_sm(Life { o, threads, nodes });
}
