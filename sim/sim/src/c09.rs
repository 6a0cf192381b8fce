//! C09: a builder's messages reflect exactly its latest settings.

use std::cell::RefCell;
use std::collections::HashSet;
use std::num::NonZeroU64;

use oauth::serializer::auth;
use oauth::serializer::Authorizer;
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Request, Token};
use simrt::{below, chance, check, draw, eval, ev, pickc, probe, state, sut, violation, Panicked, FAULT};

use crate::gen;
use crate::harness::*;
use crate::op::{self, Op, Out, Req, WithSm};
use crate::world;

thread_local! {
    /// The texts that were settings, and the nonces of messages so far.
    static STALE: RefCell<HashSet<String>> = RefCell::new(HashSet::new());
}

fn leak(s: &str) -> &'static str {
    STALE.with(|t| t.borrow_mut().insert(s.to_string()));
    Box::leak(s.to_string().into_boxed_str())
}

type B<SM> = Builder<'static, SM, Cred, Cred>;

struct History {
    base: Op,
}

fn panicked(what: &str, o: &Op, p: &Panicked) -> ! {
    violation("panic", format!("{}: {} panicked: {} at {}", what, o.brief(), p.msg, p.loc))
}

/// Changes one setting of a builder, and of its model.
fn set<SM: SignatureMethod>(o: &mut Op, b: &mut B<SM>) {
    let unset = chance(90);
    let as_option = chance(128);
    macro_rules! text {
        ($field:ident, $setter:ident) => {{
            let v = gen::text();
            if unset {
                o.$field = None;
                b.$setter(None);
            } else {
                let s = leak(&v);
                o.$field = Some(v);
                if as_option {
                    b.$setter(Some(s));
                } else {
                    b.$setter(s);
                }
            }
        }};
    }
    match below(6) {
        0 => text!(cb, callback),
        1 => text!(ver, verifier),
        2 => text!(nonce, nonce),
        3 => {
            if unset {
                o.ts = None;
                b.timestamp(None);
            } else {
                let t = op::gen_ts();
                o.ts = Some(t);
                if as_option {
                    b.timestamp(NonZeroU64::new(t));
                } else {
                    b.timestamp(NonZeroU64::new(t).unwrap());
                }
            }
        }
        4 => {
            o.version = !unset;
            b.version(!unset);
        }
        _ => {
            if unset {
                o.tok = None;
                b.token(None);
            } else {
                let (t, s) = (gen::text(), gen::secret());
                let c = Credentials::new(Cred(t.clone()), Cred(s.clone()));
                o.tok = Some((t, s));
                if as_option {
                    b.token(Some(c));
                } else {
                    b.token(c);
                }
            }
        }
    }
}

/// Several settings in one chain of calls.
fn chain<SM: SignatureMethod>(o: &mut Op, b: &mut B<SM>) {
    let (cb, ver, n) = (gen::text(), gen::text(), gen::text());
    let (t, v) = (op::gen_ts(), chance(128));
    match below(3) {
        0 => {
            b.callback(leak(&cb)).verifier(leak(&ver)).nonce(leak(&n)).timestamp(NonZeroU64::new(t)).version(v);
            o.cb = Some(cb);
            o.ver = Some(ver);
            o.nonce = Some(n);
            o.ts = Some(t);
            o.version = v;
        }
        1 => {
            b.version(v).nonce(None).verifier(leak(&ver)).callback(None).verifier(None).callback(leak(&cb)).timestamp(None);
            o.cb = Some(cb);
            o.ver = None;
            o.nonce = None;
            o.ts = None;
            o.version = v;
        }
        _ => {
            b.timestamp(NonZeroU64::new(t)).token(None).nonce(leak(&n)).nonce(leak(&cb)).version(!v).version(v);
            o.ts = Some(t);
            o.tok = None;
            o.nonce = Some(cb);
            o.version = v;
        }
    }
}

/// A new message for the builder: everything that is not the builder's.
fn message(o: &mut Op, entries: &'static [usize]) -> Req {
    let n = op::gen_op(op::OpCfg { entries: Some(entries), max_params: 3, sm: Some(o.sm), ..op::CFG });
    o.entry = n.entry;
    o.method = n.method;
    o.uri = n.uri;
    o.uri_frag = n.uri_frag;
    o.params = n.params;
    o.rk = n.rk;
    o.wrap = n.wrap;
    o.prefix = n.prefix;
    match sut(|| o.request()) {
        Ok(r) => r,
        Err(p) => panicked("building the request", o, &p),
    }
}

fn verify(what: &str, o: &Op, mark: (usize, i64), text: &str) {
    eval();
    match o.verify(text) {
        Err(e) => violation("stale-settings", format!("{}: {}: {}", what, e, o.brief())),
        Ok(p) => {
            check!(
                o.ts.is_some() || op::clock_had(mark, p.ts), "stale-settings",
                "{}: the timestamp {} is not the clock's: {}", what, p.ts, o.brief()
            );
            let new = STALE.with(|t| t.borrow_mut().insert(p.nonce.clone()));
            check!(o.nonce.is_some() || new, "stale-settings", "{}: the nonce {:?} is not a new one: {}", what, p.nonce, o.brief());
        }
    }
}

const ALL: [usize; 34] = {
    let mut a = [0; 34];
    let mut i = 0;
    while i < 34 {
        a[i] = i;
        i += 1;
    }
    a
};
const CONSUMING: [usize; 6] = [28, 29, 30, 31, 32, 33];

/// The entry points that have to yield the same text as the given one.
fn equivalents(o: &Op) -> Vec<usize> {
    (0..40)
        .filter(|&e| {
            op::ENTRIES[e].1 == o.out() && op::ENTRIES[e].2.map_or(true, |m| m == o.method)
        })
        .collect()
}

impl WithSm for History {
    type R = ();
    fn call<SM: SignatureMethod + Clone + Send + Sync + 'static>(self, sm: SM) {
        let o: Op = self.base;
        let leaked: &'static Op = Box::leak(Box::new(o.clone()));
        let b = match sut(|| leaked.builder(sm.clone())) {
            Ok(b) => b,
            Err(p) => panicked("building", &o, &p),
        };
        // Builders, and what each of them has been told.
        let mut pool: Vec<(Op, B<SM>)> = vec![(o, b)];
        let mut opts: Option<(Op, auth::Options<'static>)> = None;
        for _ in 0..4 + below(14) {
            let i = below(pool.len());
            match below(12) {
                0..=3 => {
                    let n = 1 + below(3);
                    let (o, b) = &mut pool[i];
                    for _ in 0..n {
                        set(o, b);
                    }
                    ev(|| format!("#{}: set -> {}", i, o.brief()));
                }
                4 => {
                    let (o, b) = &mut pool[i];
                    chain(o, b);
                    ev(|| format!("#{}: chain -> {}", i, o.brief()));
                }
                5 => {
                    if pool.len() < 5 && chance(200) {
                        let c = (pool[i].0.clone(), pool[i].1.clone());
                        pool.push(c);
                        probe("history.clone");
                        ev(|| format!("#{} cloned", i));
                    } else {
                        let j = below(pool.len());
                        let c = (pool[i].0.clone(), pool[i].1.clone());
                        pool[j].0.clone_from(&c.0);
                        if let Err(p) = sut(|| pool[j].1.clone_from(&c.1)) {
                            panicked("clone_from", &c.0, &p);
                        }
                        probe("history.clone_from");
                        ev(|| format!("#{} cloned over #{}", i, j));
                    }
                }
                6 => {
                    // A call that fails half-way.
                    let (o, b) = &mut pool[i];
                    let req = message(o, &ALL);
                    let at = draw(FAULT, 24) as u64;
                    let mut p = Plan::default();
                    match draw(FAULT, 4) {
                        0 => p.c_fail = Some((at, CMode::Err)),
                        1 => p.c_fail = Some((at, CMode::Panic)),
                        2 => p.w_fail = Some((at, WMode::Err)),
                        _ => p.w_fail = Some((at, WMode::Panic)),
                    }
                    let mark = op::mark();
                    set_plan(p);
                    let r = if op::entry_consumes(o.entry) {
                        let mut slot = Some(b.clone());
                        sut(|| o.exec_builder(&mut slot, &req, &mut None))
                    } else {
                        sut(|| o.exec_shared(b, &req, &mut None))
                    };
                    let p = set_plan(Plan::default());
                    let fired = p.c_fired.is_some() || p.w_fired > 0;
                    ev(|| format!("#{}: faulty call {}: {}", i, o.brief(), r.is_ok()));
                    match r.and_then(|t| o.strip(t)) {
                        Ok(t) => verify("a call", o, mark, &t),
                        Err(_) if fired => probe("history.failed_call"),
                        Err(p) => panicked("a call", o, &p),
                    }
                }
                7 => {
                    // Consume one.
                    let (mut o, b) = if pool.len() > 1 { pool.remove(i) } else { (pool[0].0.clone(), pool[0].1.clone()) };
                    let req = message(&mut o, &CONSUMING);
                    let mark = op::mark();
                    let mut slot = Some(b);
                    match sut(|| o.exec_builder(&mut slot, &req, &mut None)).and_then(|t| o.strip(t)) {
                        Ok(t) => {
                            ev(|| format!("#{}: consumed: {}", i, t));
                            verify("a consuming call", &o, mark, &t)
                        }
                        Err(p) => panicked("a consuming call", &o, &p),
                    }
                    probe("history.consumed");
                }
                8 if pool.len() < 5 => {
                    // An unrelated builder with the same method.
                    let n = op::gen_op(op::OpCfg { sm: Some(pool[i].0.sm), ..op::CFG });
                    let l: &'static Op = Box::leak(Box::new(n));
                    let n = Op { sm: pool[i].0.sm, key: pool[i].0.key, ..l.clone() };
                    match sut(|| l.builder(sm.clone())) {
                        Ok(b) => pool.push((n, b)),
                        Err(p) => panicked("building", l, &p),
                    }
                }
                9 => {
                    // The options on their own.
                    let (o, opts) = opts.get_or_insert_with(|| {
                        let mut o = pool[i].0.clone();
                        (o.cb, o.ver, o.nonce, o.ts, o.version) = (None, None, None, None, false);
                        (o, auth::Options::new())
                    });
                    for _ in 0..1 + below(4) {
                        let unset = chance(80);
                        let v = gen::text();
                        match below(5) {
                            0 => {
                                o.cb = if unset { None } else { Some(v) };
                                opts.callback(o.cb.as_deref().map(leak));
                            }
                            1 => {
                                o.ver = if unset { None } else { Some(v) };
                                opts.verifier(o.ver.as_deref().map(leak));
                            }
                            2 => {
                                o.nonce = if unset { None } else { Some(v) };
                                opts.nonce(o.nonce.as_deref().map(leak));
                            }
                            3 => {
                                o.ts = if unset { None } else { Some(op::gen_ts()) };
                                opts.timestamp(o.ts.and_then(NonZeroU64::new));
                            }
                            _ => {
                                o.version = !unset;
                                opts.version(!unset);
                            }
                        }
                    }
                    if chance(80) {
                        let c = opts.clone();
                        // Changing the copy leaves the original alone.
                        opts.callback("changed").verifier("changed").nonce(leak("changed")).timestamp(NonZeroU64::new(77)).version(true);
                        if chance(128) {
                            opts.clone_from(&c);
                        } else {
                            *opts = c;
                        }
                    }
                    let req = message(o, &[0, 1]);
                    let client = Credentials::new(leak(&o.ck), leak(&o.cs));
                    let token = o.tok.as_ref().map(|t| Credentials::new(leak(&t.0), leak(&t.1)));
                    let mark = op::mark();
                    let uri = &Val::uri(&*o.uri, o.uri_frag);
                    let r = sut(|| match o.out() {
                        Out::Form => req.serialize(Authorizer::form(&o.method, uri, client, token, opts, sm.clone())),
                        _ => req.serialize(Authorizer::authorization(&o.method, uri, client, token, opts, sm.clone())),
                    });
                    probe("history.options");
                    match r {
                        Ok(t) => {
                            ev(|| format!("options: {}", t));
                            verify("options", o, mark, &t)
                        }
                        Err(p) => panicked("options", o, &p),
                    }
                }
                _ => {
                    let (o, b) = &mut pool[i];
                    let req = message(o, &ALL);
                    one(o, b, &req, i);
                }
            }
        }
        for i in 0..pool.len() {
            let (o, b) = &mut pool[i];
            let req = message(o, &ALL);
            one(o, b, &req, i);
        }
    }
}

fn one<SM: SignatureMethod + Clone + Send + Sync + 'static>(o: &Op, b: &B<SM>, req: &Req, i: usize) {
    let call = |e: usize| -> (Op, String) {
        let mut x = o.clone();
        x.entry = e;
        if !op::entry_has_buf(e) {
            x.prefix.clear();
        }
        let mark = op::mark();
        let r = if e >= 34 {
            x.exec_with(req).map(|d| d.text)
        } else if op::entry_consumes(e) {
            let mut slot = Some(b.clone());
            sut(|| x.exec_builder(&mut slot, req, &mut None)).and_then(|t| x.strip(t))
        } else {
            sut(|| x.exec_shared(b, req, &mut None)).and_then(|t| x.strip(t))
        };
        match r {
            Ok(t) => {
                verify("a call", &x, mark, &t);
                (x, t)
            }
            Err(p) => panicked("a call", &x, &p),
        }
    };
    let (_, t) = call(o.entry);
    state(o.shape());
    ev(|| format!("#{}: {} -> {:?}", i, o.brief(), t));
    if chance(150) {
        let es = equivalents(o);
        for _ in 0..2 {
            let e = pickc(&es);
            let (x, u) = call(e);
            probe("history.equivalents");
            if o.nonce.is_some() && o.ts.is_some() {
                eval();
                check!(t == u, "shorthand-differs", "{} yields {:?}, {} yields {:?}: {}", op::ENTRIES[o.entry].0, t, op::ENTRIES[e].0, u, x.brief());
            }
        }
    }
    // The free functions: a builder without options.
    if let (true, Some((tk, ts))) = (o.out() == Out::Header && chance(60), &o.tok) {
        let mut x = o.clone();
        (x.cb, x.ver, x.nonce, x.ts, x.version) = (None, None, None, None, false);
        x.prefix.clear();
        let es: Vec<usize> =
            (op::FREE..op::ENTRIES.len()).filter(|&e| op::ENTRIES[e].2.map_or(true, |m| m == o.method)).collect();
        x.entry = pickc(&es);
        let mark = op::mark();
        match x.exec_with(req) {
            Ok(d) => verify("a free function", &x, mark, &d.text),
            Err(p) => panicked("a free function", &x, &p),
        }
        // Credentials and tokens survive their conversions.
        let r = sut(|| {
            let t = Token::from_parts(x.ck.clone(), x.cs.clone(), tk.clone(), ts.clone());
            let u: Token<&str> = t.as_ref();
            let v = u.map(String::from).map_client(Cred).map_token(Cred);
            let w = Token::from_ref(&v.client, &v.token);
            let z = Token::new(Credentials::from(&v.client), w.token());
            (z.client().identifier.to_string(), z.client().secret().to_string(), z.token().identifier().to_string(), z.token.secret.to_string())
        });
        match r {
            Ok(r) => check!(
                r == (x.ck.clone(), x.cs.clone(), tk.clone(), ts.clone()), "token-conversion",
                "the token converts to {:?}: {}", r, x.brief()
            ),
            Err(p) => panicked("a token conversion", &x, &p),
        }
    }
}

pub fn histories() {
    world::swarm();
    let mut o = op::gen_op(op::OpCfg { entries: Some(&ALL), max_params: 1, ..op::CFG });
    if o.sm.alg() == op::Alg::Rsa && chance(150) {
        o.sm = op::Sm::Hmac;
    }
    let x = o.clone();
    x.with_sm(History { base: o });
}
