//! C14: custom signature methods see exactly the documented call protocol.

use std::cell::{Cell, RefCell};
use std::fmt::{self, Display, Formatter, Write};

use either::Either;
use model::{base_string, b64, pct};
use oauth::signature_method::{Sign, SignatureMethod};
use oauth::Builder;
use simrt::{below, callback, chance, check, draw, eval, ev, fault_chance, pickc, probe, rt, state, sut, violation, Injected, Panicked, Rng, FAULT, GEN};

use crate::harness::*;
use crate::op::{self, Op, Out, Req, Rk};
use crate::world;

// ------------------------------------------------------------------------- the recording methods

#[derive(Clone, Debug, PartialEq)]
enum Call {
    SignWith(String, Option<String>),
    Method(String),
    Uri(Option<String>),
    /// The name, whether a dedicated callback was used, and the value as far as it was read.
    Param(String, bool, Option<String>),
    Delimiter,
    End,
    /// Something happened after the end.
    Late,
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Cfg {
    name: &'static str,
    nonce: bool,
    timestamp: bool,
    /// How values are read.
    read: u32,
    /// The signature's fragmentation.
    frag: Frag,
}

struct Log {
    id: u64,
    calls: Vec<Call>,
    n: u32,
    fired: bool,
}

thread_local! {
    /// The n-th callback of a method panics.
    static FAIL: Cell<Option<(u64, u32)>> = const { Cell::new(None) };
    static LOGS: RefCell<Vec<Log>> = const { RefCell::new(Vec::new()) };
}

#[derive(Clone, Debug)]
struct Rec {
    id: u64,
    cfg: Cfg,
}

/// Implements every method of `Sign`.
#[derive(Clone, Debug)]
struct Full(Rec);
/// Implements the required methods only.
#[derive(Clone, Debug)]
struct Min(Rec);

struct State {
    rec: Rec,
    log: usize,
    ended: bool,
    reads: Rng,
}
struct FullSign(State);
struct MinSign(State);

impl State {
    fn new(rec: Rec, cs: &str, ts: Option<&str>) -> Self {
        let _g = callback();
        let log = LOGS.with(|l| {
            let mut l = l.borrow_mut();
            l.push(Log { id: rec.id, calls: vec![Call::SignWith(cs.into(), ts.map(Into::into))], n: 0, fired: false });
            l.len() - 1
        });
        let s = State { reads: Rng(rec.cfg.read as u64), rec, log, ended: false };
        s.tick();
        s
    }

    fn tick(&self) {
        let fail = FAIL.with(|f| f.get());
        let fire = LOGS.with(|l| {
            let l = &mut l.borrow_mut()[self.log];
            let n = l.n;
            l.n += 1;
            if self.ended || l.fired {
                l.calls.push(Call::Late);
            }
            let fire = fail == Some((self.rec.id, n));
            l.fired |= fire;
            fire
        });
        if fire {
            probe("fault.sign_panic");
            std::panic::panic_any(Injected("signature method"));
        }
    }

    fn push(&self, c: Call) {
        LOGS.with(|l| l.borrow_mut()[self.log].calls.push(c));
    }

    /// Reads a value the way this method does: as a whole, twice, only a part of it, not at all.
    fn read<D: Display>(&mut self, v: D) -> Option<String> {
        struct Part(String, usize, bool);
        impl Write for Part {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                let _g = callback();
                if self.0.len() >= self.1 {
                    self.2 = true;
                    return Err(fmt::Error);
                }
                self.0 += s;
                Ok(())
            }
        }
        let how = if self.rec.cfg.read == 0 { 0 } else { self.reads.next() >> 7 & 7 };
        let _g = simrt::reenter();
        match how {
            5 => {
                probe("sign.value_ignored");
                None
            }
            6 => {
                // The method stops reading.
                let mut p = Part(String::new(), 1 + (self.reads.next() % 6) as usize, false);
                let r = write!(p, "{}", v);
                // (An error that is not this method's is not ignored.)
                assert!(r.is_ok() || p.2);
                probe("sign.value_partly_read");
                if r.is_ok() { Some(p.0) } else { None }
            }
            7 => {
                let mut p = Part(String::new(), usize::MAX, false);
                write!(p, "{}", v).unwrap();
                let b = format!("{}", v);
                check!(p.0 == b, "value-changes", "a value was read as {:?}, then as {:?}", p.0, b);
                Some(b)
            }
            1 => {
                let mut p = Part(String::new(), usize::MAX, false);
                write!(p, "{}", v).unwrap();
                Some(p.0)
            }
            _ => Some(v.to_string()),
        }
    }

    fn param<D: Display>(&mut self, k: &str, own: bool, v: D) {
        let _g = callback();
        self.tick();
        let v = self.read(v);
        self.push(Call::Param(k.into(), own, v));
    }

    fn end(mut self) -> Signature {
        let _g = callback();
        self.tick();
        self.push(Call::End);
        self.ended = true;
        let text = LOGS.with(|l| signature(&l.borrow()[self.log].calls, self.rec.cfg.name));
        Signature(Val::new(text, self.rec.cfg.frag))
    }
}

/// A signature that depends on every call.
fn signature(calls: &[Call], name: &str) -> String {
    pct(b64(&model::sha1(format!("{} {:?}", name, calls).as_bytes())).as_bytes())
}

struct Signature(Val);

impl Display for Signature {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.0, f)
    }
}

macro_rules! common {
    () => {
        type Signature = Signature;
        fn get_signature_method_name(&self) -> &'static str {
            self.0.rec.cfg.name
        }
        fn request_method(&mut self, m: &str) {
            let _g = callback();
            self.0.tick();
            self.0.push(Call::Method(m.into()));
        }
        fn uri<T: Display>(&mut self, u: T) {
            let _g = callback();
            self.0.tick();
            let u = self.0.read(u);
            self.0.push(Call::Uri(u));
        }
        fn parameter<V: Display>(&mut self, k: &str, v: V) {
            self.0.param(k, false, v);
        }
        fn delimiter(&mut self) {
            let _g = callback();
            self.0.tick();
            self.0.push(Call::Delimiter);
        }
        fn end(self) -> Signature {
            self.0.end()
        }
        fn use_nonce(&self) -> bool {
            self.0.rec.cfg.nonce
        }
        fn use_timestamp(&self) -> bool {
            self.0.rec.cfg.timestamp
        }
    };
}

impl Sign for FullSign {
    common!();
    fn callback<V: Display>(&mut self, v: V) {
        self.0.param("oauth_callback", true, v);
    }
    fn consumer_key<V: Display>(&mut self, v: V) {
        self.0.param("oauth_consumer_key", true, v);
    }
    fn nonce<V: Display>(&mut self, v: V) {
        self.0.param("oauth_nonce", true, v);
    }
    fn signature_method(&mut self) {
        let n = self.0.rec.cfg.name;
        self.0.param("oauth_signature_method", true, n);
    }
    fn timestamp(&mut self, v: u64) {
        self.0.param("oauth_timestamp", true, v);
    }
    fn token<V: Display>(&mut self, v: V) {
        self.0.param("oauth_token", true, v);
    }
    fn verifier<V: Display>(&mut self, v: V) {
        self.0.param("oauth_verifier", true, v);
    }
    fn version(&mut self) {
        self.0.param("oauth_version", true, "1.0");
    }
}

impl Sign for MinSign {
    common!();
}

impl SignatureMethod for Full {
    type Sign = FullSign;
    fn sign_with(self, cs: &str, ts: Option<&str>) -> FullSign {
        FullSign(State::new(self.0, cs, ts))
    }
}

impl SignatureMethod for Min {
    type Sign = MinSign;
    fn sign_with(self, cs: &str, ts: Option<&str>) -> MinSign {
        MinSign(State::new(self.0, cs, ts))
    }
}

/// How the recording method is wrapped.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Wrap {
    full: bool,
    either: u8,
}

const NAMES: [&str; 5] = ["X-SIM", "HMAC-SHA256", "A", "plaintext", "RSA-SHA1_~.x"];

fn gen_cfg() -> (Cfg, Wrap) {
    (
        Cfg {
            name: pickc(&NAMES),
            nonce: !chance(80),
            timestamp: !chance(80),
            read: if chance(100) { draw(GEN, 1 << 16) } else { 0 },
            frag: op::gen_frag(true),
        },
        Wrap { full: chance(150), either: below(6) as u8 },
    )
}

macro_rules! with_rec {
    ($w:expr, $r:expr, |$sm:ident| $body:expr) => {{
        let r: Rec = $r;
        let hp = |right: bool| if right { Either::Right(oauth::PLAINTEXT) } else { Either::Left(oauth::HMAC_SHA1) };
        let _ = &hp;
        match ($w.full, $w.either) {
            (true, 1) => { let $sm = Either::<_, oauth::signature_method::HmacSha1>::Left(Full(r)); $body }
            (true, 2) => { let $sm = Either::<oauth::signature_method::HmacSha1, _>::Right(Full(r)); $body }
            (true, 3) => { let $sm = Either::<Min, _>::Right(Full(r)); $body }
            (true, 4) => { let $sm = Either::<_, Min>::Left(Full(r)); $body }
            (true, 5) => { let $sm = Either::<Min, _>::Right(Either::<_, oauth::signature_method::Plaintext>::Left(Full(r))); $body }
            (true, _) => { let $sm = Full(r); $body }
            (false, 1) => { let $sm = Either::<_, oauth::signature_method::HmacSha1>::Left(Min(r)); $body }
            (false, 2) => { let $sm = Either::<oauth::signature_method::Plaintext, _>::Right(Min(r)); $body }
            (false, 3) => { let $sm = Either::<_, Full>::Left(Min(r)); $body }
            (false, 4) => { let $sm = Either::<Full, _>::Right(Min(r)); $body }
            (false, 5) => { let $sm = Either::<_, Full>::Left(Either::<oauth::signature_method::HmacSha1, _>::Right(Min(r))); $body }
            (false, _) => { let $sm = Min(r); $body }
        }
    }};
}

// -------------------------------------------------------------------------------------- the oracle

struct Seen {
    text: String,
    nonce: Option<String>,
    ts: Option<u64>,
}

/// Compares a message and the calls behind it with the protocol.
fn judge(what: &str, o: &Op, cfg: &Cfg, w: Wrap, text: &str, calls: &[Call], mark: (usize, i64)) -> Seen {
    eval();
    let ctx = || format!("{}: {:?} {:?} {} calls {:?} message {:?}", what, cfg, w, o.brief(), calls, text);
    let got = match op::split_message(o.out(), text) {
        Ok(g) => g,
        Err(e) => violation("message", format!("{}: {}", e, ctx())),
    };
    let one = |k: &str| -> Option<String> {
        let all: Vec<_> = got.iter().filter(|p| p.0 == k).collect();
        check!(all.len() <= 1, "message", "{} occurs more than once: {}", k, ctx());
        all.first().map(|p| p.1.clone())
    };
    let (nonce, ts) = (one("oauth_nonce"), one("oauth_timestamp"));
    check!(nonce.is_some() == cfg.nonce, "declined", "the nonce is {:?}: {}", nonce, ctx());
    check!(ts.is_some() == cfg.timestamp, "declined", "the timestamp is {:?}: {}", ts, ctx());
    if let (Some(want), Some(n)) = (&o.nonce, &nonce) {
        check!(want == n, "message", "the nonce is {:?}: {}", n, ctx());
    }
    let ts = ts.map(|t| match op::parse_ts(&t) {
        Ok(t) => t,
        Err(e) => violation("message", format!("{}: {}", e, ctx())),
    });
    if let Some(t) = ts {
        match o.ts {
            Some(want) => check!(want == t, "message", "the timestamp is {}: {}", t, ctx()),
            None => check!(op::clock_had(mark, t), "message", "the timestamp {} was not the clock's: {}", t, ctx()),
        }
    }
    // What has to be signed, in the order of the base string.
    let mut protocol: Vec<(String, String)> = Vec::new();
    let mut add = |k: &str, v: &str| protocol.push((k.into(), v.into()));
    add("oauth_consumer_key", &o.ck);
    add("oauth_signature_method", cfg.name);
    if let Some((ref t, _)) = o.tok {
        add("oauth_token", t);
    }
    if let Some(ref c) = o.cb {
        add("oauth_callback", c);
    }
    if let Some(ref c) = o.ver {
        add("oauth_verifier", c);
    }
    if o.version {
        add("oauth_version", "1.0");
    }
    if let Some(ref n) = nonce {
        add("oauth_nonce", n);
    }
    if let Some(t) = ts {
        add("oauth_timestamp", &t.to_string());
    }
    let mut want_calls = vec![Call::SignWith(o.cs.clone(), o.tok.as_ref().map(|t| t.1.clone())), Call::Method(o.method.clone()), Call::Uri(Some(pct(o.uri.as_bytes())))];
    let mut all: Vec<(&str, &str, bool)> = protocol.iter().map(|p| (&*p.0, &*p.1, w.full)).collect();
    all.extend(o.params.iter().map(|p| (&*p.k, &*p.v, false)));
    all.sort_by(|a, b| (a.0, pct(a.1.as_bytes())).cmp(&(b.0, pct(b.1.as_bytes()))));
    for (i, (k, v, own)) in all.iter().enumerate() {
        if i > 0 {
            want_calls.push(Call::Delimiter);
        }
        want_calls.push(Call::Param(k.to_string(), *own, Some(pct(pct(v.as_bytes()).as_bytes()))));
    }
    want_calls.push(Call::End);
    let same = calls.len() == want_calls.len()
        && calls.iter().zip(&want_calls).all(|(g, w)| match (g, w) {
            (Call::Uri(None), Call::Uri(_)) => true,
            (Call::Param(a, b, None), Call::Param(c, d, _)) => (a, b) == (c, d),
            _ => g == w,
        });
    check!(same, "protocol", "the method's callbacks differ from {:?}: {}", want_calls, ctx());
    // The base string that `Sign`'s documentation says can be reproduced.
    if calls.iter().all(|c| !matches!(c, Call::Uri(None) | Call::Param(_, _, None))) {
        let mut base = String::new();
        for c in calls {
            match c {
                Call::Method(m) => base = format!("{}&", pct(m.as_bytes())),
                Call::Uri(u) => base += &format!("{}&", u.as_ref().unwrap()),
                Call::Param(k, _, v) => base += &format!("{}%3D{}", k, v.as_ref().unwrap()),
                Call::Delimiter => base += "%26",
                _ => {}
            }
        }
        let mut ps = protocol.clone();
        ps.extend(o.params.iter().map(|p| (p.k.clone(), p.v.clone())));
        let want = base_string(&o.method, &o.uri, &ps);
        check!(base == want, "protocol", "the base string is {:?}, not {:?}: {}", base, want, ctx());
    }
    // The message carries the method's own signature, and nothing else.
    let sig = signature(calls, cfg.name);
    check!(one("oauth_signature").map(|s| pct(s.as_bytes())) == Some(sig.clone()), "signature", "the message does not carry the signature {:?}: {}", sig, ctx());
    let mut want = protocol;
    want.push(("oauth_signature".into(), model::unpct_strict(&sig).unwrap()));
    if o.out() != Out::Header {
        want.extend(o.params.iter().map(|p| (p.k.clone(), p.v.clone())));
    }
    let mut got = got;
    want.sort();
    got.sort();
    check!(want == got, "message", "the message carries {:?}, not {:?}: {}", got, want, ctx());
    Seen { text: text.into(), nonce, ts }
}

fn next_id() -> u64 {
    use std::sync::atomic::{AtomicU64, Ordering};
    static ID: AtomicU64 = AtomicU64::new(1);
    // (Only told apart, never shown.)
    ID.fetch_add(1, Ordering::Relaxed)
}

fn take_logs(id: u64) -> Vec<Log> {
    LOGS.with(|l| {
        let mut v = l.borrow_mut();
        // Logs are addressed by their position, so only those at the end are removed.
        let mut out = Vec::new();
        while matches!(v.last(), Some(l) if l.id == id) {
            out.push(v.pop().unwrap());
        }
        out
    })
}

struct Run<'a> {
    o: &'a Op,
    req: &'a Req,
    cfg: Cfg,
    w: Wrap,
    what: &'a str,
}

impl Run<'_> {
    /// Calls the library with a recording method, and judges what happens.
    fn go<SM: SignatureMethod + Clone>(&self, id: u64, call: impl FnOnce(&mut Option<FBuf>) -> Result<String, Panicked>, (faults, fail, entropy): Faults) -> Option<Seen>
    {
        let (o, cfg) = (self.o, &self.cfg);
        let mark = op::mark();
        let outer = set_plan(faults);
        let outer_fail = FAIL.with(|f| f.replace(fail.map(|n| (id, n))));
        let saved = rt().entropy.clone();
        if entropy {
            rt().entropy.fail_at = Some((rt().entropy.reads, 1));
            rt().entropy.errno = libc::EIO;
        }
        let r = call(&mut None);
        if entropy {
            rt().entropy.fail_at = saved.fail_at;
            rt().entropy.errno = saved.errno;
        }
        let p = set_plan(outer);
        FAIL.with(|f| f.set(outer_fail));
        let logs = take_logs(id);
        let fired = p.c_fired.is_some() || p.w_fired > 0 || logs.iter().any(|l| l.fired);
        match r {
            Ok(t) => {
                check!(logs.len() == 1, "protocol", "{}: the method signed {} times: {}", self.what, logs.len(), o.brief());
                check!(!fired, "bogus-success", "{}: something failed, but the call returned {:?}: {:?} {}", self.what, t, logs[0].calls, o.brief());
                check!(
                    !entropy || !cfg.nonce || o.nonce.is_some(), "bogus-success",
                    "{}: there is no entropy for a nonce, but the call returned {:?}: {}", self.what, t, o.brief()
                );
                ev(|| format!("{}: {:?} {} -> {}", self.what, cfg, o.brief(), t));
                Some(judge(self.what, o, cfg, self.w, &t, &logs[0].calls, mark))
            }
            Err(p) => {
                for l in &logs {
                    check!(!l.calls.contains(&Call::Late), "protocol", "{}: the method was used after it had failed: {:?} {}", self.what, l.calls, o.brief());
                }
                let starved = entropy && cfg.nonce && o.nonce.is_none();
                if !fired && !starved && !(p.injected) {
                    violation("panic", format!("{}: {:?} {:?} {} panicked: {} at {}", self.what, cfg, self.w, o.brief(), p.msg, p.loc));
                }
                probe("sign.call_failed");
                None
            }
        }
    }
}

type Faults = (Plan, Option<u32>, bool);

fn faults() -> Faults {
    let mut p = Plan::default();
    let mut sign = None;
    let mut entropy = false;
    if fault_chance(110) {
        let at = draw(FAULT, 40);
        match draw(FAULT, 8) {
            0 => p.c_fail = Some((at as u64, CMode::Err)),
            1 => p.c_fail = Some((at as u64, CMode::Panic)),
            2 => p.w_fail = Some((at as u64, WMode::Err)),
            3 => p.w_fail = Some((at as u64, WMode::Panic)),
            4 => entropy = true,
            _ => sign = Some(at),
        }
    }
    (p, sign, entropy)
}

/// A request for a custom method: HTTP methods are plain, so that the callback's argument is clear.
fn gen(pinned: bool, entries: Option<&'static [usize]>) -> Op {
    let mut o = op::gen_op(op::OpCfg { pinned, entries, max_params: 5, ..op::CFG });
    if !o.method.bytes().all(model::unreserved) {
        o.method = "PUT".into();
    }
    if chance(40) {
        // What it is told, the library passes on.
        o.uri = pickc(&["http://h", "https://example.com:8443", "HTTP://H:80/", "urn:x", "*", "http://h//", "/", "http://\u{e9} /%7e/%", "http://h/#f"]).into();
    }
    o
}

/// One operation with objects of its own.
fn alone(o: &Op, cfg: Cfg, w: Wrap, what: &str, f: Faults) -> Option<Seen> {
    let req = match sut(|| quietly(|| o.request())) {
        Ok(r) => r,
        Err(Panicked { injected: true, .. }) => return None,
        Err(p) => violation("panic", format!("building {} panicked: {} at {}", o.brief(), p.msg, p.loc)),
    };
    let id = next_id();
    let run = Run { o, req: &req, cfg, w, what };
    with_rec!(w, Rec { id, cfg }, |sm| run.go_with(id, sm, f))
}

impl Run<'_> {
    fn go_with<SM: SignatureMethod + Clone>(&self, id: u64, sm: SM, f: Faults) -> Option<Seen> {
        self.go::<SM>(
            id,
            |buf| sut(|| self.o.exec_sm(sm, self.req, buf)).and_then(|t| self.o.strip(t)),
            f,
        )
    }
}

fn nest(o: &mut Op) {
    if o.params.is_empty() || matches!(o.rk, Rk::Derived) || !chance(60) {
        return;
    }
    let i = below(o.params.len());
    let mut n = gen(true, None);
    n.params.truncate(1);
    if n.rk == Rk::Derived {
        n.rk = Rk::Unit;
        n.params.clear();
    }
    o.params[i].nested = Some(std::sync::Arc::new(n));
}

fn nested_exec(o: &Op) -> Result<String, Panicked> {
    probe("sign.nested");
    let cfg = Cfg { name: "NESTED", nonce: o.version, timestamp: !o.version, read: 0, frag: Frag { mode: 2, seed: 7 } };
    let seen = alone(o, cfg, Wrap { full: o.wrap % 2 == 0, either: o.wrap }, "nested", (Plan { depth: 2, ..Plan::default() }, None, false));
    Ok(seen.map(|s| s.text).unwrap_or_default())
}

/// Messages with custom methods, one after the other and at the same time.
pub fn custom() {
    world::swarm();
    let mut ops: Vec<(Op, Cfg, Wrap)> = Vec::new();
    for _ in 0..1 + below(3) {
        let mut o = gen(chance(128), None);
        nest(&mut o);
        let (c, w) = gen_cfg();
        state(simrt::mix(o.shape(), c.nonce as u64 * 2 + c.timestamp as u64 + 16 * w.either as u64 + 8 * w.full as u64));
        ops.push((o, c, w));
    }
    let ops: &'static Vec<(Op, Cfg, Wrap)> = Box::leak(Box::new(ops));
    set_exec(Some(&nested_exec));
    let one = move |i: usize, what: &str, with_faults: bool| {
        let (ref o, c, w) = ops[i];
        alone(o, c, w, what, if with_faults { faults() } else { Default::default() })
    };
    let mut first: Vec<Option<Seen>> = (0..ops.len()).map(|i| one(i, "alone", false)).collect();
    for (i, f) in first.iter().enumerate() {
        check!(f.is_some(), "panic", "{} failed", ops[i].0.brief());
    }
    if chance(160) {
        for _ in 0..below(4) {
            one(below(ops.len()), "again", true);
        }
    } else {
        rt().edges_on = chance(200);
        rt().preempt_span = pickc(&[2, 3, 8, 64, 1000]);
        let mut fs: Vec<(usize, Box<dyn FnOnce() + Send>)> = Vec::new();
        for t in 0..2 + below(2) {
            let work: Vec<usize> = (0..1 + below(2)).map(|_| below(ops.len())).collect();
            fs.push((
                rt().main_node,
                Box::new(move || {
                    set_exec(Some(&nested_exec));
                    for i in work {
                        // (Faults of the entropy source would be the other threads', too.)
                        one(i, &format!("thread {}", t), false);
                    }
                }),
            ));
        }
        probe("threads.runs");
        for p in simrt::run_threads(fs).into_iter().flatten() {
            violation("panic", format!("a thread panicked: {}", p));
        }
        rt().edges_on = false;
    }
    // What is determined by the arguments is the same as before.
    for (i, f) in first.drain(..).enumerate() {
        let (o, c, _) = &ops[i];
        let (a, b) = (f.unwrap(), one(i, "afterwards", false));
        let b = match b {
            Some(b) => b,
            None => violation("panic", format!("{} failed afterwards", o.brief())),
        };
        let fixed = (!c.nonce || o.nonce.is_some()) && (!c.timestamp || o.ts.is_some());
        check!(!fixed || a.text == b.text, "interference", "{:?}, then {:?}: {}", a.text, b.text, o.brief());
        check!(a.nonce.is_none() || o.nonce.is_some() || a.nonce != b.nonce, "interference", "the nonce {:?} was repeated: {}", a.nonce, o.brief());
        let _ = a.ts;
    }
}

/// A builder with a custom method: every message signs once, with the builder's secrets.
pub fn builders() {
    world::swarm();
    const E: [usize; 34] = {
        let mut a = [0; 34];
        let mut i = 0;
        while i < 34 {
            a[i] = i;
            i += 1;
        }
        a
    };
    let base = gen(chance(128), Some(&E));
    let (cfg, w) = gen_cfg();
    state(simrt::mix(base.shape(), cfg.nonce as u64 * 2 + cfg.timestamp as u64 + 16 * w.either as u64 + 8 * w.full as u64));
    let id = next_id();
    with_rec!(w, Rec { id, cfg }, |sm| {
        let b = match sut(|| base.builder(sm)) {
            Ok(b) => b,
            Err(p) => violation("panic", format!("building panicked: {} at {}", p.msg, p.loc)),
        };
        drive(&base, b, id, cfg, w)
    })
}

fn drive<SM: SignatureMethod + Clone>(base: &Op, b: Builder<'_, SM, Cred, Cred>, id: u64, cfg: Cfg, w: Wrap) {
    const E: [usize; 34] = {
        let mut a = [0; 34];
        let mut i = 0;
        while i < 34 {
            a[i] = i;
            i += 1;
        }
        a
    };
    let mut slot = Some(b);
    for step in 0..1 + below(5) {
        let n = gen(true, Some(&E));
        let o = Op {
            ck: base.ck.clone(), cs: base.cs.clone(), tok: base.tok.clone(), cb: base.cb.clone(), ver: base.ver.clone(),
            nonce: base.nonce.clone(), ts: base.ts, version: base.version, key: base.key, ..n
        };
        let req = match sut(|| quietly(|| o.request())) {
            Ok(r) => r,
            Err(p) => violation("panic", format!("building {} panicked: {} at {}", o.brief(), p.msg, p.loc)),
        };
        let what = format!("message {}", step);
        let run = Run { o: &o, req: &req, cfg, w, what: &what };
        let keep = slot.clone();
        run.go::<SM>(
            id,
            |buf| sut(|| o.exec_builder(&mut slot, &req, buf)).and_then(|t| o.strip(t)),
            faults(),
        );
        if slot.is_none() {
            slot = keep;
        }
    }
}
