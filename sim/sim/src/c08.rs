//! C08: concurrent and reentrant use equals sequential use.

use std::sync::Arc;

use oauth::signature_method::SignatureMethod;
use oauth::Builder;
use simrt::{below, chance, check, draw, eval, ev, pickc, probe, rt, state, sut, violation, Panicked, FAULT, SCHED};

use crate::harness::*;
use crate::op::{self, Op, Req, Sm, WithSm};
use crate::world;

fn cheap() -> Sm {
    [Sm::Hmac, Sm::Plain, Sm::PlainBuf, Sm::EitherHp(false), Sm::EitherHp(true), Sm::EitherRh(true)][below(6)]
}

/// An operation of its own, performed while a value is being displayed.
fn other_op(nest: u32) -> Op {
    let mut o = op::gen_op(op::OpCfg { pinned: chance(128), max_params: 2, sm: Some(cheap()), ..op::CFG });
    if nest > 0 && !o.params.is_empty() && chance(80) {
        let i = below(o.params.len());
        o.params[i].nested = Some(Arc::new(other_op(nest - 1)));
    }
    o
}

/// Another message of the same builder.
fn sibling(base: &Op) -> Op {
    let n = op::gen_op(op::OpCfg { pinned: true, entries: Some(&ON_BUILDER), max_params: 3, sm: Some(base.sm), ..op::CFG });
    Op {
        ck: base.ck.clone(), cs: base.cs.clone(), tok: base.tok.clone(), cb: base.cb.clone(), ver: base.ver.clone(),
        nonce: base.nonce.clone(), ts: base.ts, version: base.version, key: base.key, ..n
    }
}

const ON_BUILDER: [usize; 34] = {
    let mut a = [0; 34];
    let mut i = 0;
    while i < 34 {
        a[i] = i;
        i += 1;
    }
    a
};

/// One call as it is when nothing else happens.
struct Job {
    o: Op,
    req: Req,
    /// With a pinned nonce and timestamp: the sequential result.
    want: Option<String>,
}

fn pinned(o: &Op) -> bool {
    o.nonce.is_some() && o.ts.is_some()
}

fn panicked(what: &str, o: &Op, p: &Panicked) -> ! {
    violation("panic", format!("{}: {} panicked: {} at {}", what, o.brief(), p.msg, p.loc))
}

/// The sequential result of an operation on objects of its own.
fn alone(o: &Op) -> Option<String> {
    match o.exec() {
        Err(p) => panicked("alone", o, &p),
        Ok(d) => {
            if let Err(e) = o.verify(&d.text) {
                violation("rejected", format!("alone: {}: {}", e, o.brief()));
            }
            if pinned(o) { Some(d.text) } else { None }
        }
    }
}

/// Compares one result.
fn judge(what: &str, o: &Op, want: &Option<String>, got: &str, mark: (usize, i64)) {
    eval();
    match want {
        Some(w) => check!(w == got, "interference", "{}: {:?}, but alone {:?}: {}", what, got, w, o.brief()),
        None => match o.verify(got) {
            Err(e) => violation("interference", format!("{}: {}: {}", what, e, o.brief())),
            Ok(p) => check!(
                o.ts.is_some() || op::clock_had(mark, p.ts), "interference",
                "{}: the timestamp {} was not the clock's during the call: {}", what, p.ts, o.brief()
            ),
        },
    }
}

/// Checks the outputs of the operations that were performed by values of the calling thread.
fn judge_nested(what: &str, known: &[(Arc<Op>, Option<String>)], p: Plan) {
    for (o, r, mark) in p.nested_outputs {
        let want = known.iter().find(|k| Arc::ptr_eq(&k.0, &o)).map(|k| k.1.clone()).unwrap_or(None);
        match r {
            Ok(t) => {
                probe("nested.compared");
                judge(&format!("{}, nested", what), &o, &want, &t, mark)
            }
            Err(ref e) if p.c_fired.is_some() || p.w_fired > 0 => {
                let _ = e;
            }
            Err(e) => panicked(&format!("{}, nested", what), &o, &e),
        }
    }
}

fn collect_nested(o: &Op, out: &mut Vec<Arc<Op>>) {
    for p in &o.params {
        if let Some(ref n) = p.nested {
            if !out.iter().any(|x| Arc::ptr_eq(x, n)) {
                out.push(n.clone());
                collect_nested(n, out);
            }
        }
    }
}

struct Shared {
    base: Op,
    variants: Vec<Op>,
    others: Vec<Op>,
    /// Nested operations run on the shared builder itself.
    nest_shared: bool,
}

impl WithSm for Shared {
    type R = ();
    fn call<SM: SignatureMethod + Clone + Send + Sync + 'static>(self, sm: SM) {
        let base: &'static Op = Box::leak(Box::new(self.base));
        let b: &'static Builder<'static, SM, Cred, Cred> = match sut(|| base.builder(sm)) {
            Ok(b) => Box::leak(Box::new(b)),
            Err(p) => panicked("building", base, &p),
        };
        let exec: Exec = Box::leak(Box::new(move |o: &Op| {
            let is_shared = o.ck == base.ck && o.cs == base.cs && o.nonce == base.nonce && o.entry < 28 && o.sm == base.sm && o.key == base.key;
            if !is_shared {
                return o.exec().map(|d| d.text);
            }
            probe("nested.on_shared_builder");
            let req = sut(|| quietly(|| o.request()))?;
            sut(|| o.exec_shared(b, &req, &mut None)).and_then(|t| o.strip(t))
        }));
        // How things are when nothing else goes on, on objects of their own.
        let mut nested = Vec::new();
        for o in self.variants.iter().chain(&self.others) {
            collect_nested(o, &mut nested);
        }
        let prepare = |o: Op| -> Job {
            let want = alone(&o);
            let req = match sut(|| o.request()) {
                Ok(r) => r,
                Err(p) => panicked("building", &o, &p),
            };
            Job { o, req, want }
        };
        let known: &'static Vec<(Arc<Op>, Option<String>)> =
            Box::leak(Box::new(nested.into_iter().map(|n| { let w = alone(&n); (n, w) }).collect()));
        let nvar = self.variants.len();
        let jobs: &'static Vec<Job> =
            Box::leak(Box::new(self.variants.into_iter().chain(self.others).map(prepare).collect()));
        set_plan(Plan::default());
        if self.nest_shared {
            set_exec(Some(exec));
        }
        for j in jobs.iter() {
            ev(|| format!("job: {} -> {:?}", j.o.brief(), j.want));
        }

        let one = move |j: &'static Job, how: u32, what: &str| {
            let mark = op::mark();
            let mut faulty = false;
            let mut p = Plan::default();
            if how == 3 {
                faulty = true;
                let at = draw(FAULT, 24) as u64;
                match draw(FAULT, 4) {
                    0 => p.c_fail = Some((at, CMode::Err)),
                    1 => p.c_fail = Some((at, CMode::Panic)),
                    2 => p.w_fail = Some((at, WMode::Err)),
                    _ => p.w_fail = Some((at, WMode::Panic)),
                }
            }
            set_plan(p);
            let is_variant = jobs[..nvar].iter().any(|v| std::ptr::eq(v, j));
            let r = if !is_variant {
                j.o.exec_with(&j.req).map(|d| d.text)
            } else if how == 1 || op::entry_consumes(j.o.entry) {
                probe("job.clone");
                sut(|| {
                    let mut slot = Some(b.clone());
                    j.o.exec_builder(&mut slot, &j.req, &mut None)
                })
                .and_then(|t| j.o.strip(t))
            } else {
                sut(|| j.o.exec_shared(b, &j.req, &mut None)).and_then(|t| j.o.strip(t))
            };
            let p = set_plan(Plan::default());
            let fired = p.c_fired.is_some() || p.w_fired > 0;
            let in_nested = p.nested_outputs.iter().any(|n| n.1.is_err());
            judge_nested(what, known, p);
            match r {
                Ok(t) => {
                    check!(!fired || in_nested, "bogus-success", "{}: a callback failed, but the call returned {:?}: {}", what, t, j.o.brief());
                    judge(what, &j.o, &j.want, &t, mark);
                    ev(|| format!("{}: {:?}", what, t));
                }
                Err(_) if faulty && fired => probe("job.failed"),
                Err(p) => panicked(what, &j.o, &p),
            }
        };

        // Alone first (reentrancy only).
        if chance(128) {
            for j in jobs {
                one(j, 0, "sequential");
            }
        }
        rt().edges_on = chance(200);
        rt().preempt_span = pickc(&[2, 3, 8, 64, 2000]);
        let mut fs: Vec<(usize, Box<dyn FnOnce() + Send>)> = Vec::new();
        let use_exec = self.nest_shared;
        for t in 0..2 + below(3) {
            let work: Vec<(&'static Job, u32)> =
                (0..1 + below(4)).map(|_| (&jobs[below(jobs.len())], draw(SCHED, 4))).collect();
            fs.push((
                rt().main_node,
                Box::new(move || {
                    if use_exec {
                        set_exec(Some(exec));
                    }
                    for (j, how) in work {
                        one(j, how, &format!("thread {}", t));
                    }
                }),
            ));
        }
        probe("threads.runs");
        for p in simrt::run_threads(fs).into_iter().flatten() {
            violation("panic", format!("a thread panicked: {}", p));
        }
        simrt::probe_n("threads.switches", rt().switches);
        simrt::probe_n("threads.accesses", rt().accesses);
        rt().edges_on = false;
        // And afterwards everything is as before.
        for j in jobs {
            one(j, 0, "afterwards");
        }
    }
}

pub fn concurrent() {
    world::swarm();
    let mut base = op::gen_op(op::OpCfg {
        pinned: chance(190), entries: Some(&ON_BUILDER), max_params: 1, sm: if chance(200) { Some(cheap()) } else { None }, ..op::CFG
    });
    if !pinned(&base) {
        base.nonce = None;
    }
    let nest_shared = chance(150);
    let mut variants: Vec<Op> = (0..1 + below(3)).map(|_| sibling(&base)).collect();
    for v in variants.iter_mut() {
        if !v.params.is_empty() && chance(110) {
            let i = below(v.params.len());
            let mut n = if nest_shared && chance(200) { sibling(&base) } else { other_op(1) };
            n.params.truncate(2);
            if n.rk == op::Rk::Derived {
                n.rk = op::Rk::Unit;
                n.params.clear();
            }
            v.params[i].nested = Some(Arc::new(n));
        }
        state(v.shape());
    }
    let others: Vec<Op> = (0..below(3)).map(|_| other_op(1)).collect();
    let b = base.clone();
    b.with_sm(Shared { base, variants, others, nest_shared });
}
