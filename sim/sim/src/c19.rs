//! C19: calls leave nothing behind.
//!
//! The same things are done over and over, with whatever faults; what the code under test allocated
//! (or opened) meanwhile and did not give back must not keep growing.

use oauth::request::{AssertSorted, ParameterList};
use oauth::serializer::auth::{self, Authorizer};
use oauth::serializer::recorder::Recorder;
use oauth::serializer::{Serializer, Urlencoder};
use oauth::signature_method::{Sign, SignatureMethod};
use oauth::{Credentials, Token};
use simrt::{below, chance, check, draw, eval, ev, live, pickc, probe, probe_n, rt, state, sut, FAULT};

use crate::c10;
use crate::gen;
use crate::harness::*;
use crate::op::{self, Op, Req, Rk, Sm, WithSm};
use crate::world;

type Step = Box<dyn FnMut()>;

thread_local! {
    /// About how much work a round is.
    static WORK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

fn work(n: u64) {
    WORK.with(|w| w.set(w.get() + n));
}

/// What fails in a step, the same each time.
#[derive(Clone, Copy, Debug, Default)]
struct Faults {
    write: Option<(u64, WMode, bool)>,
    call: Option<(u64, CMode)>,
    /// The entropy source fails from this read on.
    entropy: Option<u64>,
}

impl Faults {
    /// Runs the step; tells how many writes, callbacks and reads of entropy there were.
    fn apply<R>(&self, f: impl FnOnce() -> R) -> (R, [u64; 3]) {
        set_plan(Plan {
            w_fail: self.write.map(|w| (w.0, w.1)),
            w_sticky: self.write.map_or(false, |w| w.2),
            c_fail: self.call,
            ..Plan::default()
        });
        let reads = rt().entropy.reads;
        rt().entropy.fail_at = self.entropy.map(|n| (reads + n, u64::MAX));
        let r = f();
        rt().entropy.fail_at = None;
        let p = set_plan(Plan::default());
        (r, [p.writes, p.calls, rt().entropy.reads - reads])
    }

    /// Faults for a step that has so many writes, callbacks and reads of entropy.
    fn gen(n: [u64; 3]) -> Faults {
        let at = |n: u64| if draw(FAULT, 3) == 0 { n - 1 - draw(FAULT, (n as u32).min(4)) as u64 } else { draw(FAULT, n as u32) as u64 };
        let mut f = Faults::default();
        match below(5) {
            1 if n[0] > 0 => {
                probe("steady.failing_writes");
                let mode = [WMode::Err, WMode::Torn, WMode::Late, WMode::Panic][draw(FAULT, 4) as usize];
                f.write = Some((at(n[0]), mode, draw(FAULT, 2) == 1));
            }
            2 | 3 if n[1] > 0 => {
                probe("steady.failing_callbacks");
                f.call = Some((at(n[1]), [CMode::Err, CMode::Panic][draw(FAULT, 2) as usize]));
            }
            4 if n[2] > 0 => {
                probe("steady.failing_entropy");
                f.entropy = Some(at(n[2]));
            }
            _ => probe("steady.no_fault"),
        }
        f
    }
}

/// A step that may fail: where, is chosen from what a first execution does.
fn faulty(mut f: impl FnMut() + 'static) -> Step {
    // (Counting the callbacks of values that are displayed while the request is built, too.)
    let n = Faults { call: Some((u64::MAX, CMode::Panic)), ..Faults::default() }.apply(&mut f).1;
    work(20 + n[0] + n[1]);
    let faults = Faults::gen(n);
    ev(|| format!("{:?} of {:?}", faults, n));
    Box::new(move || {
        faults.apply(&mut f);
    })
}

fn gen_op(entries: Option<&'static [usize]>) -> Op {
    let sm = if chance(10) {
        Sm::gen()
    } else {
        pickc(&[Sm::Plain, Sm::Hmac, Sm::Hmac, Sm::EitherHp(false), Sm::EitherHp(true), Sm::EitherRh(true), Sm::PlainBuf])
    };
    let mut o = op::gen_op(op::OpCfg { sm: Some(sm), max_params: 4, entries, ..op::CFG });
    if !o.params.is_empty() && o.rk != Rk::Derived && chance(30) {
        probe("steady.nested");
        let i = below(o.params.len());
        let n = op::gen_op(op::OpCfg { sm: Some(Sm::Hmac), max_params: 2, ..op::CFG });
        o.params[i].nested = Some(std::sync::Arc::new(n));
    }
    ev(|| o.brief());
    state(o.shape());
    work(if o.sm.alg() == op::Alg::Rsa { 3000 } else { 100 });
    o
}

fn leak(o: Op) -> &'static Op {
    Box::leak(Box::new(o))
}

/// One message, from scratch or of the same request.
fn message() -> Step {
    let (o, req) = match below(3) {
        #[cfg(feature = "derived")]
        2 => {
            let (o, r) = crate::c16::steady();
            (leak(o), Some(r))
        }
        1 => {
            let o = leak(gen_op(None));
            (o, sut(|| o.request()).ok())
        }
        _ => (leak(gen_op(None)), None),
    };
    let strip = chance(128);
    faulty(move || {
        let mut buf = None;
        let r = match req {
            Some(ref r) => o.exec_keep(r, &mut buf).is_ok(),
            None => match sut(|| o.request()) {
                Ok(r) => {
                    let d = o.exec_keep(&r, &mut buf);
                    let _ = sut(move || drop(r));
                    d.is_ok()
                }
                Err(_) => false,
            },
        };
        if strip {
            drop(buf);
        }
        probe(if r { "steady.done" } else { "steady.failed" });
    })
}

/// One builder is used all the time.
struct OneBuilder(&'static Op);

impl WithSm for OneBuilder {
    type R = Step;
    fn call<SM: SignatureMethod + Clone + Send + Sync + 'static>(self, sm: SM) -> Step {
        let o = self.0;
        let mut b = o.builder(sm.clone());
        let mut other = o.builder(sm.clone());
        let req = match sut(|| o.request()) {
            Ok(r) => r,
            Err(_) => return Box::new(|| ()),
        };
        let what = draw(simrt::GEN, 128);
        let mut n = 0usize;
        faulty(move || {
            n += 1;
            let _ = sut(|| {
                if what & 1 != 0 {
                    other = b.clone();
                }
                if what & 2 != 0 {
                    other.clone_from(&b);
                }
                if what & 4 != 0 {
                    b.token(Credentials::new(Cred("token".into()), Cred(format!("secret {}", n % 7))));
                }
                if what & 8 != 0 {
                    b.token(None);
                }
                if what & 16 != 0 {
                    b.nonce("nonce").callback("cb").verifier("v").version(n % 2 == 0).timestamp(std::num::NonZeroU64::new(n as u64));
                }
                if what & 32 != 0 {
                    b.nonce(None).callback(None).verifier(None).timestamp(None);
                }
            });
            if op::entry_consumes(o.entry) {
                let mut taken = sut(|| b.clone()).ok();
                if taken.is_some() {
                    let _ = sut(|| o.exec_builder(&mut taken, &req, &mut None));
                }
            } else {
                let _ = sut(|| o.exec_shared(&b, &req, &mut None));
            }
            if what & 64 != 0 {
                let _ = sut(|| o.exec_builder(&mut Some(other.clone()), &req, &mut None));
            }
        })
    }
}

/// What can be formatted, and the states of a signature.
struct Formatted(&'static Op);

impl crate::c11::WithDbg for Formatted {
    type R = Step;
    fn call<SM>(self, sm: SM) -> Step
    where
        SM: SignatureMethod + Clone + std::fmt::Debug + 'static,
        SM::Sign: std::fmt::Debug + Clone,
    {
        let o = self.0;
        let n = below(5);
        faulty(move || {
            let _ = sut(|| {
                let client = Credentials::new(o.ck.clone(), o.cs.clone());
                let token = o.tok.as_ref().map(|t| Credentials::new(&*t.0, &*t.1));
                let mut s = sm.clone().sign_with(&o.cs, token.map(|t| t.secret));
                drop(format!("{:?} {:#?} {:?} {:?} {:?}", sm, s, client, token, o.builder(sm.clone())));
                drop(Token::from_parts(&*o.ck, "", "t", &*o.cs).map(String::from));
                s.request_method(&o.method);
                s.uri(&Val::uri(&*o.uri, o.uri_frag));
                for _ in 0..n {
                    s.delimiter();
                    s.parameter("k", &Val::new(&*o.cs, o.uri_frag));
                }
                if n > 0 {
                    drop(format!("{:?} {}", s.clone(), s.end()));
                }
            });
        })
    }
}

/// A serializer that is given up half-way.
struct Abandoned(&'static Op);

impl WithSm for Abandoned {
    type R = Step;
    fn call<SM: SignatureMethod + Clone + Send + Sync + 'static>(self, sm: SM) -> Step {
        let o = self.0;
        let calls = c10::gen_calls();
        let n = below(calls.len() + 1);
        let (clone, end, kind) = (chance(100), chance(60), below(7));
        faulty(move || {
            fn feed<S: Serializer>(mut s: S, calls: &[c10::Call], n: usize, end: bool) {
                for c in &calls[..n] {
                    c10::feed(&mut s, c);
                }
                if end {
                    drop(s.end());
                }
            }
            let _ = sut(|| {
                let client = Credentials::new(&*o.ck, &*o.cs);
                let token = o.tok.as_ref().map(|(a, b)| Credentials::new(&**a, &**b));
                let mut opt = auth::Options::new();
                opt.callback(o.cb.as_deref()).verifier(o.ver.as_deref()).nonce(o.nonce.as_deref()).version(o.version);
                let uri = &Val::uri(&*o.uri, o.uri_frag);
                let m = &*o.method;
                let sm = sm.clone();
                let n = if clone { calls.len() } else { n };
                match kind {
                    0 => feed(Authorizer::authorization(m, uri, client, token, &opt, sm), &calls, n, end),
                    1 => feed(Authorizer::form(m, uri, client, token, &opt, sm), &calls, n, end),
                    2 => feed(Authorizer::query(m, o.uri.clone(), client, token, &opt, sm), &calls, n, end),
                    3 => feed(Authorizer::authorization_with_buf(FBuf::new(""), m, uri, client, token, &opt, sm), &calls, n, end),
                    4 => feed(Authorizer::form_with_buf(FBuf::new("a=b"), m, uri, client, token, &opt, sm), &calls, n, end),
                    5 => feed(Urlencoder::form_with_buf(FBuf::new("")), &calls, n, end),
                    _ => {
                        let mut r = Recorder::new();
                        for c in &calls[..n] {
                            c10::feed(&mut r, c);
                        }
                        let c = r.clone();
                        drop(if end { r.end() } else { c.history().to_vec() });
                    }
                }
            });
        })
    }
}

/// Parameter lists that are built, extended, refused, sorted while something fails, and dropped.
fn lists() -> Step {
    let (v, w) = (c10::gen_pairs(6), c10::gen_pairs(5));
    let what = below(6);
    faulty(move || {
        let _ = sut(|| (v.clone(), w.clone())).and_then(|(v, w)| sut(move || match what {
            0 => drop(ParameterList::new(v)),
            1 => drop(ParameterList::from_sorted(v)),
            2 => {
                let mut l: ParameterList<Key, Val> = v.into_iter().collect();
                l.extend(w);
                drop(l);
            }
            3 => drop(ParameterList::new(v).into_inner()),
            4 => drop(AssertSorted::new(v)),
            _ => {
                let mut v = v;
                let l = ParameterList::new(&mut v[..]);
                drop(l.iter().map(|(k, v)| format!("{:?} {}", k, v)).collect::<Vec<_>>());
            }
        }));
    })
}

/// A thread for each message.
fn threads() -> Step {
    let os: Vec<(&'static Op, Req)> = (0..1 + below(2))
        .filter_map(|_| {
            let o = leak(gen_op(None));
            sut(|| o.request()).ok().map(|r| (o, r))
        })
        .collect();
    let os: &'static Vec<_> = Box::leak(Box::new(os));
    Box::new(move || {
        let fs = os.iter().map(|(o, r)| {
            let f: Box<dyn FnOnce() + Send> = Box::new(move || drop(o.exec_with(r)));
            (rt().main_node, f)
        });
        drop(simrt::run_threads(fs.collect()));
        probe("steady.thread_rounds");
    })
}

fn gen_step() -> Step {
    let what = below(17);
    match what {
        0..=4 => message(),
        5 | 6 => {
            const BUILDER: &[usize] = &[0, 1, 2, 3, 13, 16, 25, 26, 27, 28, 29, 30, 31, 32, 33];
            let o = leak(gen_op(Some(BUILDER)));
            o.with_sm(OneBuilder(o))
        }
        7 | 8 => {
            let o = leak(gen_op(None));
            o.with_sm(Abandoned(o))
        }
        9 => lists(),
        10 | 11 => {
            work(200);
            crate::c12::decoder()
        }
        12 => crate::c12::converter(),
        13 => crate::c12::encoder(),
        14 | 15 => {
            let o = leak(gen_op(None));
            crate::c11::with_dbg(o, Formatted(o))
        }
        _ if chance(128) => threads(),
        _ => message(),
    }
}

/// The process's open files.
fn files() -> i64 {
    (0..256).filter(|&fd| unsafe { libc::fcntl(fd, libc::F_GETFD) } >= 0).count() as i64
}

pub fn leftovers() {
    world::swarm();
    let mut steps: Vec<Step> = Vec::new();
    // Ever other messages, or the same over and over.
    let varied = chance(40);
    let (windows, rounds) = if varied {
        probe("steady.varied");
        (8, pickc(&[10usize, 30, 60]))
    } else {
        for _ in 0..1 + below(3) {
            steps.push(gen_step());
        }
        let cost = WORK.with(|w| w.take());
        // Now and then, very often.
        let (most, of) = if chance(6) { (5000, 600_000) } else { (pickc(&[3usize, 3, 10, 10, 40, 40, 100]), 60_000) };
        (6, most.min(3 + (of / (cost + 1)) as usize))
    };
    let mut round = || {
        if varied {
            let o = gen_op(None);
            drop(o.exec());
        }
        for s in &mut steps {
            s();
        }
    };
    // What is set up once (or kept as a spare) is set up here.
    for _ in 0..3 {
        round();
    }
    let mut grown: Vec<[i64; 3]> = Vec::new();
    for _ in 0..windows {
        let (bytes, blocks) = live();
        let open = files();
        for _ in 0..rounds {
            round();
        }
        let (bytes1, blocks1) = live();
        grown.push([bytes1 - bytes, blocks1 - blocks, files() - open]);
    }
    eval();
    probe_n("steady.rounds", (windows * rounds) as u64);
    ev(|| format!("{} windows of {} rounds: {:?}", windows, rounds, grown));
    if grown.iter().all(|g| *g == [0; 3]) {
        probe("steady.no_change_at_all");
    }
    let always = |i: usize| grown.iter().all(|g| g[i] > 0);
    check!(
        !always(0) && !always(1), "memory-grows",
        "memory that is allocated within calls and not freed grows with each of {} windows of {} rounds of the same: by (bytes, blocks, files) {:?}", windows, rounds, grown
    );
    check!(
        !always(2), "files-grow",
        "ever more files are open: in {} windows of {} rounds of the same, by (bytes, blocks, files) {:?}", windows, rounds, grown
    );
}
