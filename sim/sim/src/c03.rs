//! C03: generated nonces are unpredictable and never repeat.

use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

use oauth::signature_method::SignatureMethod;
use oauth::Builder;
use simrt::{below, chance, check, draw, eval, ev, node as cur_node, pickc, probe, rt, set_node, state, sut, violation, Rng, FAULT};

use crate::harness::*;
use crate::op::{self, Op, Req, Sm, WithSm};
use crate::world::{self, S};

fn gen_op(sm: Option<Sm>) -> Op {
    let mut o = op::gen_op(op::OpCfg { sm, max_params: 2, frag: false, ..op::CFG });
    o.nonce = None;
    o
}

fn cheap_sm() -> Option<Sm> {
    Some([Sm::Plain, Sm::Hmac, Sm::EitherHp(false), Sm::EitherHp(true), Sm::PlainBuf][below(5)])
}

/// Checks a message and returns its nonce.
fn nonce_of(o: &Op, text: &str) -> String {
    eval();
    let p = match o.verify(text) {
        Ok(p) => p,
        Err(e) => violation("bad-nonce", format!("{} -- {}", e, o.brief())),
    };
    check!(
        !p.nonce.is_empty() && p.nonce.bytes().all(model::unreserved), "bad-nonce",
        "the nonce {:?} is empty or not URL-safe: {}", p.nonce, o.brief()
    );
    p.nonce
}

fn call(o: &Op) -> String {
    match o.exec() {
        Ok(d) => nonce_of(o, &d.text),
        Err(p) => violation("panic", format!("{} panicked: {} at {}", o.brief(), p.msg, p.loc)),
    }
}

/// Shared builders: many calls on one builder, its clones, and by several threads at once.
struct Threads<'a> {
    o: &'a Op,
    n: usize,
    per: usize,
    clone: bool,
    sink: Arc<Mutex<Vec<String>>>,
}

impl WithSm for Threads<'_> {
    type R = ();
    fn call<SM: SignatureMethod + Clone + Send + Sync + 'static>(self, sm: SM) {
        let o: &'static Op = Box::leak(Box::new(self.o.clone()));
        let b: &'static Builder<'static, SM, Cred, Cred> = Box::leak(Box::new(match sut(|| o.builder(sm)) {
            Ok(b) => b,
            Err(p) => violation("panic", p.msg),
        }));
        let req: &'static Req = Box::leak(Box::new(o.request()));
        let node = cur_node();
        let mut fs: Vec<(usize, Box<dyn FnOnce() + Send>)> = Vec::new();
        for t in 0..self.n {
            let sink = self.sink.clone();
            let (per, do_clone) = (self.per, self.clone && t % 2 == 1);
            fs.push((
                node,
                Box::new(move || {
                    for _ in 0..per {
                        let r = sut(|| {
                            if do_clone {
                                let c = b.clone();
                                o.exec_shared(&c, req, &mut None)
                            } else {
                                o.exec_shared(b, req, &mut None)
                            }
                        });
                        let text = match r.and_then(|t| o.strip(t)) {
                            Ok(t) => t,
                            Err(p) => violation("panic", format!("{} panicked: {} at {}", o.brief(), p.msg, p.loc)),
                        };
                        let n = nonce_of(o, &text);
                        sink.lock().unwrap().push(n);
                    }
                }),
            ));
        }
        for p in simrt::run_threads(fs).into_iter().flatten() {
            violation("panic", format!("a thread panicked: {}", p));
        }
    }
}

/// One process: returns the nonces it (and the processes it forked) generated.
fn life(depth: u32) -> Vec<String> {
    let mut got = Vec::new();
    let steps = 1 + below(5);
    for _ in 0..steps {
        match below(8) {
            0..=2 => {
                for _ in 0..1 + below(4) {
                    let o = gen_op(if chance(40) { None } else { cheap_sm() });
                    state(o.shape());
                    got.push(call(&o));
                }
            }
            3 | 4 => {
                // The same request again and again.
                let o = gen_op(cheap_sm());
                for _ in 0..2 + below(10) {
                    got.push(call(&o));
                }
            }
            5 => {
                let mut o = gen_op(cheap_sm());
                o.entry = below(25);
                o.prefix.clear();
                if let Some(m) = op::ENTRIES[o.entry].2 {
                    o.method = m.into();
                }
                rt().edges_on = chance(128);
                rt().preempt_span = pickc(&[2, 8, 64, 2000]);
                let sink = Arc::new(Mutex::new(Vec::new()));
                o.with_sm(Threads { o: &o, n: 2 + below(3), per: 1 + below(4), clone: chance(128), sink: sink.clone() });
                probe("nonce.threads");
                rt().edges_on = false;
                got.extend(sink.lock().unwrap().drain(..));
            }
            6 if depth < 2 => {
                let b = simrt::fork_child(true, || life(depth + 1).join("\n").into_bytes());
                got.extend(split(&b));
            }
            _ => {
                // The clock of this machine stands still or is set back.
                match below(3) {
                    0 => simrt::advance(below(5) as u64 * S),
                    1 => simrt::set_clock(cur_node(), 1_600_000_000 * S as i128),
                    _ => {}
                }
            }
        }
    }
    got
}

fn split(b: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(b).split('\n').filter(|s| !s.is_empty()).map(String::from).collect()
}

fn unique(all: &[String]) {
    let mut seen = HashSet::new();
    for n in all {
        eval();
        check!(seen.insert(n), "nonce-repeated", "the nonce {:?} was generated twice among {} nonces: {:?}", n, all.len(), all);
        simrt::out(&simrt::fnv(17, n.as_bytes()).to_le_bytes());
    }
    simrt::probe_n("nonce.generated", all.len() as u64);
}

/// Processes on several machines start, fork, crash and restart.
pub fn deployment() {
    let r = rt();
    r.entropy.eintr = pickc(&[0, 0, 30, 120]);
    r.entropy.short = pickc(&[0, 0, 60, 200]);
    // Frozen clocks in half of the runs.
    r.clock.tick = pickc(&[0, 0, 0, 1_000_000, 1_500_000_000]);
    let nodes: Vec<usize> = (0..1 + below(3)).map(|_| simrt::new_node(1_600_000_000 * S as i128, 0)).collect();
    let mut all = Vec::new();
    for i in 0..1 + below(4) {
        let n = nodes[below(nodes.len())];
        set_node(n);
        // The clock starts at the same reading in each life, or not.
        if chance(128) {
            simrt::set_clock(n, 1_600_000_000 * S as i128);
        }
        let b = simrt::fork_child(false, || life(0).join("\n").into_bytes());
        let got = split(&b);
        ev(|| format!("process {} on node {}: {} nonces: {:?}", i, n, got.len(), got));
        all.extend(got);
    }
    // And in this process.
    all.extend(life(1));
    unique(&all);
}

/// Many nonces of one process.
pub fn burst() {
    rt().entropy.eintr = pickc(&[0, 0, 10]);
    rt().entropy.short = pickc(&[0, 0, 30]);
    let mut all = Vec::new();
    for _ in 0..2 {
        let mut o = gen_op(Some(Sm::Plain));
        o.params.clear();
        o.rk = op::Rk::Unit;
        let req = match sut(|| o.request()) {
            Ok(r) => r,
            Err(p) => violation("panic", p.msg),
        };
        for _ in 0..200 {
            match o.exec_with(&req) {
                Ok(d) => {
                    let got = op::split_message(o.out(), &d.text).unwrap_or_default();
                    match got.into_iter().find(|p| p.0 == "oauth_nonce") {
                        Some(p) => all.push(p.1),
                        None => violation("bad-nonce", format!("no nonce in {:?}", d.text)),
                    }
                }
                Err(p) => violation("panic", p.msg),
            }
        }
    }
    ev(|| format!("{} nonces, the first is {:?}", all.len(), all[0]));
    unique(&all);
    let bits = shannon(&all);
    probe_max(bits);
    eval();
    check!(
        bits >= 63.5, "nonce-entropy",
        "the characters of {} nonces amount to {:.1} bits each: {:?} {:?} {:?} ...", all.len(), bits, all[0], all[1], all[2]
    );
}

/// The sum of the entropies of the nonces' characters by position, at least the entropy of a nonce
/// (corrected for the size of the sample as by Miller and Madow).
fn shannon(all: &[String]) -> f64 {
    let n = all.len() as f64;
    let len = all.iter().map(|s| s.len()).max().unwrap_or(0);
    (0..len)
        .map(|i| {
            let mut c = HashMap::new();
            for s in all {
                *c.entry(s.as_bytes().get(i)).or_insert(0u32) += 1;
            }
            let mut counts: Vec<u32> = c.into_values().collect();
            counts.sort_unstable();
            let h: f64 = counts.iter().map(|&k| k as f64 / n).map(|p| -p * p.log2()).sum();
            h + (counts.len() - 1) as f64 / (2.0 * n) * std::f64::consts::LOG2_E
        })
        .sum()
}

fn probe_max(bits: f64) {
    probe(match bits as u32 {
        0..=63 => "nonce.measured_bits_below_64",
        64..=71 => "nonce.measured_bits_64_to_71",
        _ => "nonce.measured_bits_72_or_more",
    });
}

/// Collisions among the nonces of all runs of a worker.
pub fn collisions(bulk: &[u8]) -> Option<(String, String)> {
    let mut v: Vec<u64> = bulk.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let n = v.len();
    v.sort_unstable();
    let dup = v.windows(2).filter(|w| w[0] == w[1]).count();
    if dup > 0 {
        return Some((
            "nonce-collisions".into(),
            format!("{} of {} nonces generated by independent processes occurred before: nonces carry too little entropy", dup, n),
        ));
    }
    None
}

/// How many bits of entropy a nonce depends on, and what becomes of unusual entropy.
pub fn entropy_bits() {
    let mut o = gen_op(Some(Sm::gen()));
    if o.sm.alg() == op::Alg::Rsa {
        o.sm = Sm::Hmac;
    }
    ev(|| o.brief());
    let n = cur_node();
    // Anything that is initialised once is initialised now.
    for _ in 0..below(3) {
        call(&o);
    }
    let req = match sut(|| o.request()) {
        Ok(r) => r,
        Err(p) => violation("panic", p.msg),
    };
    let seed = draw(FAULT, u32::MAX) as u64;
    let run = |flip: Option<u64>| -> (String, u64) {
        let r = rt();
        r.nodes[n].entropy = Rng(simrt::mix(seed, 77));
        r.entropy.total = 0;
        r.entropy.flip_bit = flip;
        let d = match o.exec_with(&req) {
            Ok(d) => d,
            Err(p) => violation("panic", format!("{} panicked: {} at {}", o.brief(), p.msg, p.loc)),
        };
        (nonce_of(&o, &d.text), rt().entropy.total)
    };
    let (base, drawn) = run(None);
    let mut seen: HashMap<String, Option<u64>> = HashMap::new();
    seen.insert(base.clone(), None);
    let mut influential = 0;
    for bit in 0..(drawn * 8).min(1024) {
        let (x, _) = run(Some(bit));
        eval();
        if x != base {
            influential += 1;
            if let Some(prev) = seen.insert(x.clone(), Some(bit)) {
                violation(
                    "nonce-entropy",
                    format!("flipping bit {} and bit {:?} of the entropy yields the same nonce {:?}: the nonce has less entropy than it seems", bit, prev, x),
                );
            }
        }
    }
    ev(|| format!("{} of {} bits of entropy influence the nonce", influential, drawn * 8));
    check!(
        influential >= 64, "nonce-entropy",
        "a nonce depends on only {} bits of entropy drawn during the call ({} bits were drawn): {}", influential, drawn * 8, o.brief()
    );
    simrt::probe_n("nonce.influential_bits", influential);
    // Unusual values: leading zero bytes.
    rt().entropy.flip_bit = None;
    rt().entropy.zeros = 256;
    for _ in 0..4 {
        rt().entropy.since_zeros = u64::MAX / 2;
        call(&o);
    }
}

/// The entropy source fails.
pub fn entropy_failure() {
    world::swarm();
    let o = gen_op(if chance(60) { None } else { cheap_sm() });
    ev(|| o.brief());
    let mut all = Vec::new();
    for _ in 0..below(3) {
        all.push(call(&o));
    }
    let req = match sut(|| o.request()) {
        Ok(r) => r,
        Err(p) => violation("panic", p.msg),
    };
    let forever = chance(128);
    let at = rt().entropy.reads + if chance(100) { draw(FAULT, 2) as u64 } else { 0 };
    rt().entropy.fail_at = Some((at, if forever { u64::MAX } else { 1 }));
    rt().entropy.errno = [libc::EIO, libc::EFAULT, libc::EINVAL, libc::EAGAIN][draw(FAULT, 4) as usize];
    let failed0 = rt().entropy.failed;
    let mut buf = None;
    let r = o.exec_keep(&req, &mut buf);
    let failed = rt().entropy.failed - failed0;
    rt().entropy.fail_at = None;
    eval();
    match r {
        Ok(d) => {
            let nonce = nonce_of(&o, &d.text);
            check!(
                !(forever && failed > 0), "nonce-without-entropy",
                "the entropy source failed, but a message with the nonce {:?} was produced: {}", nonce, o.brief()
            );
            all.push(nonce);
        }
        Err(p) => {
            check!(failed > 0, "panic", "{} panicked: {} at {}", o.brief(), p.msg, p.loc);
            probe("nonce.refused_without_entropy");
            if let Some(b) = buf {
                let t = b.data.lock().unwrap_or_else(|e| e.into_inner()).clone();
                let t = t.strip_prefix(if o.out() == op::Out::Query { &*o.uri } else { &*o.prefix }).map(String::from).unwrap_or(t);
                check!(
                    !t.contains("oauth_signature="), "nonce-without-entropy",
                    "the entropy source failed, but the buffer contains a signed message {:?}: {}", t, o.brief()
                );
            }
        }
    }
    // And works again.
    for _ in 0..1 + below(3) {
        all.push(call(&o));
    }
    unique(&all);
}
