//! C05, C06, C07: values that arrive in fragments, output buffers and caller callbacks that fail.

use oauth::serializer::Urlencoder;
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Request};
use simrt::{below, chance, check, draw, eval, ev, probe, state, sut, violation, Panicked, FAULT};

use crate::harness::*;
use crate::op::{self, Op, Out, Req, Rk, Sm, WithSm};
use crate::world;

fn pinned(entries: Option<&'static [usize]>) -> Op {
    let mut o = op::gen_op(op::OpCfg { pinned: true, entries, ..op::CFG });
    if op::entry_is_free(o.entry) {
        // These cannot be pinned.
        o.entry = below(40);
        if let Some(m) = op::ENTRIES[o.entry].2 {
            o.method = m.into();
        }
        o.nonce = Some(crate::gen::text());
        o.ts = Some(op::gen_ts());
        o.prefix.clear();
    }
    if chance(70) && o.params.len() > 1 && !matches!(o.rk, Rk::Map | Rk::Derived) {
        // One name; the order is up to the values.
        let k = o.params[0].k.clone();
        let v = o.params[0].v.clone();
        for p in o.params.iter_mut() {
            p.k = k.clone();
            if chance(128) {
                p.v = format!("{}{}", v, crate::gen::text());
            }
        }
        if !matches!(o.rk, Rk::ListNew | Rk::ListCollect | Rk::ListExtend | Rk::ListRefs | Rk::ListSlice) {
            op::sort_params(&mut o.params);
        }
    }
    state(o.shape());
    o
}

// ------------------------------------------------------------------------------------------- C05

fn all_outputs(o: &Op) -> Result<(String, String), Panicked> {
    let req = sut(|| o.request())?;
    let text = o.exec_with(&req)?.text;
    let body = crate::c01::body(o, &req)?;
    Ok((text, body))
}

pub fn fragments() {
    world::swarm();
    for _ in 0..1 + below(3) {
        let mut o = pinned(None);
        if o.params.iter().all(|p| p.frag.mode == 0) {
            for p in o.params.iter_mut() {
                p.frag = op::gen_frag(true);
            }
        }
        ev(|| o.brief());
        set_plan(Plan { force_whole: true, ..Plan::default() });
        let whole = all_outputs(&o);
        for i in 0..3 {
            if i > 0 {
                for p in o.params.iter_mut() {
                    p.frag = Frag { mode: draw(FAULT, NFRAG as u32) as u8, seed: draw(FAULT, 1 << 16) };
                }
                o.uri_frag = Frag { mode: draw(FAULT, NFRAG as u32) as u8, seed: draw(FAULT, 1 << 16) };
            }
            set_plan(Plan::default());
            let frag = all_outputs(&o);
            eval();
            probe("fault.fragmented");
            match (&whole, &frag) {
                (Ok(a), Ok(b)) => {
                    ev(|| format!("{:?}", a));
                    check!(a == b, "fragments-matter", "in fragments: {:?}, whole: {:?}: {}", b, a, o.brief());
                }
                (Err(p), _) | (_, Err(p)) => violation("panic", format!("{} panicked: {} at {}", o.brief(), p.msg, p.loc)),
            }
        }
    }
}

// -------------------------------------------------------------------------------------- C06, C07

pub struct Result_ {
    pub ret: Result<String, Panicked>,
    /// What the caller's buffer contains afterwards.
    pub buf: Option<String>,
    pub plan: Plan,
}

/// Calls the entry point with the plan's faults.
pub fn attempt<SM: SignatureMethod + Clone>(o: &Op, b: &Option<Builder<'_, SM, Cred, Cred>>, req: &Req, p: Plan) -> Result_ {
    let mut buf = None;
    set_plan(p);
    let ret = if o.sm == Sm::PlainBuf || b.is_none() {
        // (The builder is part of what is created.)
        o.exec_keep(req, &mut buf).map(|d| d.text)
    } else if op::entry_consumes(o.entry) {
        let mut slot = b.clone_builder();
        sut(|| o.exec_builder(&mut slot, req, &mut buf)).and_then(|t| o.strip(t))
    } else {
        let b = b.as_ref().unwrap();
        sut(|| o.exec_shared(b, req, &mut buf)).and_then(|t| o.strip(t))
    };
    let plan = set_plan(Plan::default());
    let buf = buf.map(|b: FBuf| b.data.lock().unwrap_or_else(|e| e.into_inner()).clone());
    Result_ { ret, buf, plan }
}

trait CloneBuilder {
    fn clone_builder(&self) -> Self;
}
impl<SM: SignatureMethod + Clone> CloneBuilder for Option<Builder<'_, SM, Cred, Cred>> {
    fn clone_builder(&self) -> Self {
        self.clone()
    }
}

fn panicked(o: &Op, p: &Panicked) -> ! {
    violation("panic", format!("{} panicked: {} at {}", o.brief(), p.msg, p.loc))
}

/// The contents of the buffer: what was there before, and then a prefix of the fault-free text.
fn check_buffer(o: &Op, buf: &str, good: &str, strict: bool) {
    let before = if o.out() == Out::Query { &*o.uri } else { &*o.prefix };
    let new = match buf.strip_prefix(before) {
        Some(n) => n,
        None => violation("buffer-damaged", format!("the buffer contained {:?} and contains {:?} after a failed call: {}", before, buf, o.brief())),
    };
    check!(
        good.starts_with(new), "buffer-garbage",
        "after a failed call the buffer contains {:?}, which is no prefix of the fault-free {:?}: {}", new, good, o.brief()
    );
    check!(
        !strict || new.len() < good.len(), "complete-message",
        "after a failed call the buffer contains a complete message {:?}: {}", new, o.brief()
    );
}

struct Writes {
    o: Op,
}

impl WithSm for Writes {
    type R = ();
    fn call<SM: SignatureMethod + Clone + Send + Sync + 'static>(self, sm: SM) {
        let o = &self.o;
        let b = if op::entry_on_builder(o.entry) { Some(o.builder(sm)) } else { None };
        let req = match sut(|| o.request()) {
            Ok(r) => r,
            Err(p) => panicked(o, &p),
        };
        let good = attempt(o, &b, &req, Plan::default());
        let n = good.plan.writes;
        let good = match good.ret {
            Ok(g) => g,
            Err(p) => panicked(o, &p),
        };
        ev(|| format!("{} writes: {:?}", n, good));
        simrt::probe_n("writes.fault_points", n);
        if n == 0 {
            return;
        }
        for _ in 0..1 + below(4) {
            // The first and last ones more often.
            let at = match draw(FAULT, 4) {
                0 => n - 1 - draw(FAULT, (n as u32).min(4)) as u64,
                1 => draw(FAULT, (n as u32).min(4)) as u64,
                _ => draw(FAULT, n as u32) as u64,
            };
            let mode = [WMode::Err, WMode::Torn, WMode::Late, WMode::Panic][draw(FAULT, 4) as usize];
            let sticky = draw(FAULT, 2) == 1;
            let r = attempt(o, &b, &req, Plan { w_fail: Some((at, mode)), w_sticky: sticky, ..Plan::default() });
            eval();
            ev(|| format!("write {} of {} {:?} sticky={}: returned={} buffer={:?}", at, n, mode, sticky, r.ret.is_ok(), r.buf));
            match r.ret {
                Ok(ref t) => {
                    check!(
                        r.plan.w_fired == 0, "bogus-success",
                        "write {} of {} failed ({:?}, sticky: {}), but the call returned {:?}: {}", at, n, mode, sticky, t, o.brief()
                    );
                    check!(*t == good, "different-output", "{:?} instead of {:?}: {}", t, good, o.brief());
                }
                Err(ref p) => {
                    check!(r.plan.w_fired > 0, "panic", "{} panicked: {} at {}", o.brief(), p.msg, p.loc);
                    check!(
                        r.plan.w_after == 0, "write-after-failure",
                        "after write {} of {} failed ({:?}), {} more writes reached a buffer: {:?}: {}", at, n, mode, r.plan.w_after, r.buf, o.brief()
                    );
                    if let Some(ref b) = r.buf {
                        check_buffer(o, b, &good, false);
                    }
                }
            }
            // Everything still works.
            let again = attempt(o, &b, &req, Plan::default());
            eval();
            match again.ret {
                Ok(ref t) => check!(*t == good, "unusable-afterwards", "{:?} instead of {:?} after a failed call: {}", t, good, o.brief()),
                Err(p) => violation("unusable-afterwards", format!("a call after a failed one panicked: {} at {}: {}", p.msg, p.loc, o.brief())),
            }
        }
    }
}

/// An unrelated operation, checked by the model's server.
fn unrelated() {
    let o = op::gen_op(op::OpCfg { sm: Some([Sm::Hmac, Sm::Plain, Sm::PlainBuf, Sm::EitherHp(false)][below(4)]), max_params: 3, ..op::CFG });
    eval();
    match o.exec() {
        Ok(d) => {
            if let Err(e) = o.verify(&d.text) {
                violation("unusable-afterwards", format!("after a failed call, another one is wrong: {}: {}", e, o.brief()));
            }
        }
        Err(p) => violation("unusable-afterwards", format!("after a failed call, another one panicked: {} at {}: {}", p.msg, p.loc, o.brief())),
    }
}

/// The unsigned encoders.
fn urlencoder_writes(o: &Op) {
    let req = match sut(|| o.request()) {
        Ok(r) => r,
        Err(p) => panicked(o, &p),
    };
    let query = chance(128);
    let run = |p: Plan| -> (Result<String, Panicked>, String, Plan) {
        let b = FBuf::new(if query { &o.uri } else { "" });
        let keep = b.data.clone();
        set_plan(p);
        let r = sut(|| {
            let b = if query { req.serialize(Urlencoder::query(b)) } else { req.serialize(Urlencoder::form_with_buf(b)) };
            let s = b.data.lock().unwrap_or_else(|e| e.into_inner()).clone();
            s
        });
        let p = set_plan(Plan::default());
        let buf = keep.lock().unwrap_or_else(|e| e.into_inner()).clone();
        (r, buf, p)
    };
    let (r, _, p) = run(Plan::default());
    let good = match r {
        Ok(g) => g,
        Err(p) => panicked(o, &p),
    };
    if p.writes == 0 {
        return;
    }
    let n = p.writes;
    let at = draw(FAULT, n as u32) as u64;
    let mode = [WMode::Err, WMode::Torn, WMode::Late, WMode::Panic][draw(FAULT, 4) as usize];
    let (r, buf, p) = run(Plan { w_fail: Some((at, mode)), w_sticky: draw(FAULT, 2) == 1, ..Plan::default() });
    eval();
    probe("writes.urlencoder");
    if p.w_fired > 0 {
        check!(r.is_err(), "bogus-success", "write {} of {} failed ({:?}), but the encoder returned {:?}: {}", at, n, mode, r.ok(), o.brief());
        check!(p.w_after == 0, "write-after-failure", "{} writes after a failed one: {:?}: {}", p.w_after, buf, o.brief());
        check!(good.starts_with(&*buf), "buffer-garbage", "{:?} is no prefix of {:?}: {}", buf, good, o.brief());
    } else {
        check!(r.as_ref().ok() == Some(&good), "different-output", "{:?} instead of {:?}", r.ok(), good);
    }
}

pub fn writers() {
    world::swarm();
    for _ in 0..1 + below(2) {
        let mut o = pinned(Some(&[25, 26, 27, 31, 32, 33, 37, 38, 39]));
        if chance(30) {
            o.sm = Sm::PlainBuf;
        }
        ev(|| o.brief());
        urlencoder_writes(&o);
        let x = o.clone();
        x.with_sm(Writes { o });
        unrelated();
    }
}

struct Callbacks {
    o: Op,
}

impl WithSm for Callbacks {
    type R = ();
    fn call<SM: SignatureMethod + Clone + Send + Sync + 'static>(self, sm: SM) {
        let o = &self.o;
        let b = if op::entry_on_builder(o.entry) && chance(170) { Some(o.builder(sm)) } else { None };
        let req = match sut(|| o.request()) {
            Ok(r) => r,
            Err(p) => panicked(o, &p),
        };
        for _ in 0..1 + below(4) {
            let mode = [CMode::Err, CMode::Panic][draw(FAULT, 2) as usize];
            let good = attempt(o, &b, &req, Plan { c_fail: Some((u64::MAX, mode)), ..Plan::default() });
            let n = good.plan.calls;
            let good = match good.ret {
                Ok(g) => g,
                Err(p) => panicked(o, &p),
            };
            simrt::probe_n("callbacks.fault_points", n);
            if n == 0 {
                return;
            }
            let at = match draw(FAULT, 4) {
                0 => n - 1 - draw(FAULT, (n as u32).min(4)) as u64,
                _ => draw(FAULT, n as u32) as u64,
            };
            let r = attempt(o, &b, &req, Plan { c_fail: Some((at, mode)), ..Plan::default() });
            eval();
            ev(|| format!("callback {} of {} {:?} {:?}: returned={} buffer={:?}", at, n, mode, r.plan.c_fired, r.ret.is_ok(), r.buf));
            match r.ret {
                Ok(ref t) => {
                    check!(
                        r.plan.c_fired.is_none(), "bogus-success",
                        "callback {} of {} ({:?}) failed ({:?}), but the call returned {:?}: {}", at, n, r.plan.c_fired, mode, t, o.brief()
                    );
                    check!(*t == good, "different-output", "{:?} instead of {:?}: {}", t, good, o.brief());
                }
                Err(ref p) => {
                    check!(r.plan.c_fired.is_some(), "panic", "{} panicked: {} at {}", o.brief(), p.msg, p.loc);
                    if let Some(ref b) = r.buf {
                        check_buffer(o, b, &good, true);
                    }
                }
            }
            let again = attempt(o, &b, &req, Plan::default());
            eval();
            match again.ret {
                Ok(ref t) => check!(*t == good, "unusable-afterwards", "{:?} instead of {:?} after a failed call: {}", t, good, o.brief()),
                Err(p) => violation("unusable-afterwards", format!("a call after a failed one panicked: {} at {}: {}", p.msg, p.loc, o.brief())),
            }
        }
    }
}

/// The unsigned encoders with failing values.
fn urlencoder_callbacks(o: &Op) {
    let req = match sut(|| o.request()) {
        Ok(r) => r,
        Err(p) => panicked(o, &p),
    };
    let mode = [CMode::Err, CMode::Panic][draw(FAULT, 2) as usize];
    let run = |p: Plan| {
        set_plan(p);
        let r = crate::c01::body(o, &req);
        (r, set_plan(Plan::default()))
    };
    let (_, p) = run(Plan { c_fail: Some((u64::MAX, mode)), ..Plan::default() });
    if p.calls == 0 {
        return;
    }
    let at = draw(FAULT, p.calls as u32) as u64;
    let (r, p) = run(Plan { c_fail: Some((at, mode)), ..Plan::default() });
    eval();
    if p.c_fired.is_some() {
        check!(r.is_err(), "bogus-success", "callback {} ({:?}) failed ({:?}), but the encoder returned {:?}: {}", at, p.c_fired, mode, r.ok(), o.brief());
    }
}

pub fn callbacks() {
    world::swarm();
    for _ in 0..1 + below(2) {
        let o = pinned(None);
        ev(|| o.brief());
        urlencoder_callbacks(&o);
        // A panic while the request is built does no lasting harm either.
        set_plan(Plan { c_fail: Some((draw(FAULT, 40) as u64, CMode::Panic)), ..Plan::default() });
        let r = sut(|| o.request());
        let p = set_plan(Plan::default());
        if p.c_fired.is_some() {
            probe("callbacks.while_building");
            check!(r.is_err(), "bogus-success", "a callback panicked, but the request was built: {}", o.brief());
        } else if let Err(p) = r {
            panicked(&o, &p);
        }
        let x = o.clone();
        x.with_sm(Callbacks { o });
        unrelated();
    }
}
