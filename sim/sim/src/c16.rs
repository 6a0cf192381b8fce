//! C16: derived requests equal the explicit list of their fields.

use std::fmt::{self, Display, Formatter};
use std::sync::Arc;

use model::pct;
use oauth::Request;
use simrt::{below, callback, chance, check, draw, eval, ev, pickc, probe, rt, state, sut, violation, Panicked, FAULT, SCHED};

use crate::derived_gen::{make, Gen, SPECS};
use crate::gen;
use crate::harness::*;
use crate::op::{self, Op, Req, Rk, Sm, P};
use crate::world;

// ---------------------------------------------------------------- what the structs' attributes name

pub struct Spec {
    pub name: &'static str,
    pub opt: bool,
    pub enc: bool,
    pub fmt: bool,
    pub skip: bool,
    pub skip_if: bool,
    /// What the field holds: 0 a `Val`; 1 a number; 2 a flag; 3 nothing (and that is blank); 4 nothing;
    /// 5 plain text; 6 a character.
    pub kind: u8,
}

impl Spec {
    fn text(&self) -> String {
        match self.kind {
            1 => pickc(&[0u64, 1, 7, 42, 1 << 32, u64::MAX]).to_string(),
            2 => (below(2) == 1).to_string(),
            3 => String::new(),
            4 => "unit".into(),
            6 if self.enc => pickc(&["a", "Z", "0", "~"]).into(),
            6 => gen::text().chars().next().unwrap_or('0').to_string(),
            _ if chance(40) => String::new(),
            _ => gen::text(),
        }
    }

    fn blank(&self, v: &str) -> bool {
        match self.kind {
            1 | 6 => v == "0",
            2 => v == "false",
            _ => v.is_empty(),
        }
    }
}

/// A condition on a field, which can fail as any other callback.
pub trait Blank: Display {
    fn blank(&self) -> bool;
}

impl Blank for Val {
    fn blank(&self) -> bool {
        self.is_blank()
    }
}
impl<T: Blank + ?Sized> Blank for Box<T> {
    fn blank(&self) -> bool {
        (**self).blank()
    }
}
impl<T: Blank + ?Sized> Blank for &T {
    fn blank(&self) -> bool {
        (**self).blank()
    }
}

fn cond(v: bool) -> bool {
    let _g = callback();
    if let Act::Err = tick(Site::Cond) {
        std::panic::panic_any(simrt::Injected("condition"));
    }
    v
}

macro_rules! plain {
    ($($t:ty: $s:ident => $e:expr;)*) => {
        $(impl Blank for $t {
            fn blank(&self) -> bool {
                let $s = self;
                cond($e)
            }
        })*
    };
}
plain! {
    u64: s => *s == 0;
    bool: s => !s;
    char: s => *s == '0';
    str: s => s.is_empty();
    String: s => s.is_empty();
    std::borrow::Cow<'_, str>: s => s.is_empty();
    Blankest: _s => true;
    Unit: _s => false;
}
impl<T: Blank + ?Sized> Blank for Arc<T> {
    fn blank(&self) -> bool {
        (**self).blank()
    }
}

pub trait Show: Blank + Send + Sync {}
impl Show for String {}

/// A value without data.
#[derive(Clone, Copy)]
pub struct Blankest;
impl Display for Blankest {
    fn fmt(&self, _: &mut Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
#[derive(Clone, Copy)]
pub struct Unit;
impl Display for Unit {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str("unit")
    }
}

pub fn blank_text(v: &str) -> bool {
    cond(v.is_empty())
}
pub fn fx_text(v: &str, f: &mut Formatter<'_>) -> fmt::Result {
    fx(v, f)
}
pub fn leak(v: Val) -> &'static str {
    Box::leak(v.text.into_boxed_str())
}
pub fn leak_show(v: Val) -> &'static dyn Show {
    Box::leak(Box::new(v.text))
}
pub fn cow(v: Val) -> std::borrow::Cow<'static, str> {
    match v.frag.seed % 2 {
        0 => v.text.into(),
        _ => leak(v).into(),
    }
}

pub fn blank<T: Blank + ?Sized>(v: &T) -> bool {
    v.blank()
}

impl Val {
    pub fn is_blank(&self) -> bool {
        let _g = callback();
        if let Act::Err = tick(Site::Cond) {
            std::panic::panic_any(simrt::Injected("condition"));
        }
        if let Some(ref op) = self.nested {
            nested(op);
        }
        self.text.is_empty()
    }
}

/// A formatting function.
pub fn fx<T: Display + ?Sized>(v: &T, f: &mut Formatter<'_>) -> fmt::Result {
    let _g = callback();
    if let Act::Err = tick(Site::Value) {
        return Err(fmt::Error);
    }
    {
        let _g = simrt::reenter();
        f.write_str("fx")?;
        f.write_str("-")?;
    }
    if let Act::Err = tick(Site::Value) {
        return Err(fmt::Error);
    }
    Display::fmt(v, f)
}

pub fn fx_val(v: &Val, f: &mut Formatter<'_>) -> fmt::Result {
    fx(v, f)
}

pub struct Fx;
impl Fx {
    pub fn fx<T: Display + ?Sized>(v: &T, f: &mut Formatter<'_>) -> fmt::Result {
        fx(v, f)
    }
}

pub mod shadow {
    use std::fmt::{Display, Formatter, Result};
    /// Not the standard `Option`.
    #[derive(Clone)]
    pub struct Option<T>(pub T);
    impl<T: Display> Display for Option<T> {
        fn fmt(&self, f: &mut Formatter<'_>) -> Result {
            self.0.fmt(f)
        }
    }
}

pub type Alias = Val;
pub type Maybe<T> = Option<T>;

/// What a skipped field can be.
#[derive(Clone)]
pub struct Opaque;

// ---------------------------------------------------------------------------------------- instances

/// A struct with values, and the parameters it stands for.
#[derive(Clone)]
struct Instance {
    idx: usize,
    /// As the fields hold them.
    fields: Vec<Option<Val>>,
    params: Vec<P>,
}

impl Instance {
    fn gen() -> Self {
        let idx = below(SPECS.len());
        Instance::of(idx)
    }

    fn of(idx: usize) -> Self {
        let mut fields = Vec::new();
        let mut params = Vec::new();
        for s in SPECS[idx] {
            if s.opt && chance(80) {
                fields.push(None);
                continue;
            }
            let v = s.text();
            let frag = op::gen_frag(true);
            let text = if s.enc && (s.kind == 0 || s.kind == 5) { pct(v.as_bytes()) } else { v.clone() };
            fields.push(Some(Val { text, frag, site: Site::Value, nested: None }));
            if s.skip || s.skip_if && s.blank(&v) {
                probe(if s.skip { "field.skipped" } else { "field.condition_met" });
                continue;
            }
            let v = if s.fmt { format!("fx-{}", v) } else { v };
            params.push(P { k: s.name.into(), v, enc: s.enc, frag: Frag::default(), nested: None });
        }
        op::sort_params(&mut params);
        Instance { idx, fields, params }
    }

    fn build(&self) -> Gen {
        let mut it = self.fields.iter();
        make(self.idx, || it.next().expect("a value for each field").clone())
    }

    fn brief(&self) -> String {
        format!("struct G{} {:?}", self.idx, self.fields.iter().map(|f| f.as_ref().map(|v| (&*v.text, v.frag.mode))).collect::<Vec<_>>())
    }
}

fn wrap(o: &Op, g: &Arc<Gen>) -> Req {
    let r = Req::Gen(g.clone());
    match o.wrap {
        1 => Req::Ref(Box::new(r)),
        2 => Req::Opt(Some(Box::new(r))),
        _ => r,
    }
}

fn cheap() -> Sm {
    [Sm::Hmac, Sm::Hmac, Sm::Plain, Sm::EitherHp(false), Sm::EitherHp(true), Sm::EitherRh(true), Sm::EitherRh(false), Sm::PlainBuf][below(8)]
}

/// A message of the instance; the request is the explicit list.
fn message(i: &Instance) -> Op {
    let mut o = op::gen_op(op::OpCfg { pinned: true, max_params: 0, sm: Some(cheap()), ..op::CFG });
    if op::entry_is_free(o.entry) {
        o.entry = below(40);
        if let Some(m) = op::ENTRIES[o.entry].2 {
            o.method = m.into();
        }
        o.nonce = Some(gen::text());
        o.ts = Some(op::gen_ts());
        o.prefix.clear();
    }
    o.rk = Rk::Manual;
    o.params = i.params.clone();
    // Every protocol parameter, more often: that is where the merging matters.
    if chance(128) {
        o.cb = Some(gen::text());
        o.ver = Some(gen::text());
        o.version = true;
        if o.tok.is_none() {
            o.tok = Some((gen::text(), gen::secret()));
        }
    }
    o
}

fn panicked(what: &str, o: &Op, i: &Instance, p: &Panicked) -> ! {
    violation("panic", format!("{}: {}: {} panicked: {} at {}", what, i.brief(), o.brief(), p.msg, p.loc))
}

/// What the explicit list yields: the message and the unsigned form or query.
fn explicit(o: &Op, i: &Instance) -> (String, String) {
    let mut x = o.clone();
    x.wrap = o.wrap & !3;
    let r = sut(|| x.request()).and_then(|req| Ok((x.exec_with(&req)?.text, crate::c01::body(o, &req)?)));
    match r {
        Ok(r) => {
            if let Err(e) = o.verify(&r.0) {
                violation("rejected", format!("the explicit list: {}: {}", e, o.brief()));
            }
            r
        }
        Err(p) => panicked("the explicit list", o, i, &p),
    }
}

struct Job {
    o: Op,
    i: usize,
    req: Req,
    want: (String, String),
}

fn compare(what: &str, i: &Instance, o: &Op, want: &str, got: &str) {
    eval();
    check!(want == got, "differs-from-list", "{}: {}: the derived request yields {:?}, the list of its fields {:?}: {}", what, i.brief(), got, want, o.brief());
}

fn judge_nested(what: &str, i: &Instance, known: &[(Arc<Op>, String)], p: Plan) {
    let faulty = p.c_fired.is_some() || p.w_fired > 0;
    for (o, r, _) in p.nested_outputs {
        match r {
            Ok(t) => {
                if let Some(k) = known.iter().find(|k| Arc::ptr_eq(&k.0, &o)) {
                    probe("nested.compared");
                    compare(&format!("{}, nested", what), i, &o, &k.1, &t);
                }
            }
            Err(_) if faulty => {}
            Err(e) => panicked(&format!("{}, nested", what), &o, i, &e),
        }
    }
}

pub fn derived() {
    world::swarm();
    let mut is: Vec<Instance> = (0..1 + below(3)).map(|_| Instance::gen()).collect();
    if chance(60) {
        // The same struct with other values.
        let n = Instance::of(is[0].idx);
        is.push(n);
    }
    // Some values use the library themselves: they sign the very struct that they are a part of.
    let mut known: Vec<(Arc<Op>, String)> = Vec::new();
    let mut owner: Vec<(Arc<Op>, usize)> = Vec::new();
    for n in 0..is.len() {
        if chance(80) && !is[n].fields.is_empty() {
            let o = Arc::new(message(&is[n]));
            let w = explicit(&o, &is[n]).0;
            known.push((o.clone(), w));
            owner.push((o.clone(), n));
            let at = below(is[n].fields.len());
            let plain = SPECS[is[n].idx][at].kind;
            if let (Some(Some(v)), 0) = (is[n].fields.get_mut(at), plain) {
                v.nested = Some(o);
            }
        }
    }
    let gens: Vec<Arc<Gen>> = is.iter().map(|i| Arc::new(i.build())).collect();
    let known: &'static Vec<_> = Box::leak(Box::new(known));
    let exec: Exec = {
        let gens = gens.clone();
        Box::leak(Box::new(move |o: &Op| {
            match owner.iter().find(|w| std::ptr::eq(&*w.0, o)) {
                Some(w) => o.exec_with(&wrap(o, &gens[w.1])).map(|d| d.text),
                None => o.exec().map(|d| d.text),
            }
        }))
    };
    set_exec(Some(exec));
    let mut jobs = Vec::new();
    for _ in 0..1 + below(4) {
        let n = below(is.len());
        let o = message(&is[n]);
        let want = explicit(&o, &is[n]);
        ev(|| format!("{}: {} -> {:?}", is[n].brief(), o.brief(), want));
        state(simrt::fnv(o.shape(), &[is[n].idx as u8, is[n].params.len() as u8]));
        let req = wrap(&o, &gens[n]);
        jobs.push(Job { o, i: n, req, want });
    }
    let jobs: &'static Vec<Job> = Box::leak(Box::new(jobs));
    let is: &'static Vec<Instance> = Box::leak(Box::new(is));
    let once = move |what: &str, j: &'static Job| {
        let i = &is[j.i];
        set_plan(Plan::default());
        let r = j.o.exec_with(&j.req);
        let p = set_plan(Plan::default());
        match r {
            Ok(d) => compare(what, i, &j.o, &j.want.0, &d.text),
            Err(e) => panicked(what, &j.o, i, &e),
        }
        judge_nested(what, i, known, p);
    };
    for j in jobs {
        once("alone", j);
        match crate::c01::body(&j.o, &j.req) {
            Ok(b) => compare("unsigned", &is[j.i], &j.o, &j.want.1, &b),
            Err(e) => panicked("unsigned", &j.o, &is[j.i], &e),
        }
        faulty(j, &is[j.i], known);
    }
    if chance(110) {
        rt().edges_on = chance(200);
        rt().preempt_span = pickc(&[2, 3, 8, 64, 2000]);
        let mut fs: Vec<(usize, Box<dyn FnOnce() + Send>)> = Vec::new();
        for t in 0..2 + below(3) {
            let work: Vec<&'static Job> = (0..1 + below(3)).map(|_| &jobs[draw(SCHED, jobs.len() as u32) as usize]).collect();
            fs.push((
                rt().main_node,
                Box::new(move || {
                    set_exec(Some(exec));
                    for j in work {
                        once(&format!("thread {}", t), j);
                    }
                }),
            ));
        }
        probe("threads.runs");
        for p in simrt::run_threads(fs).into_iter().flatten() {
            violation("panic", format!("a thread panicked: {}", p));
        }
        simrt::probe_n("threads.switches", rt().switches);
        rt().edges_on = false;
        for j in jobs {
            once("afterwards", j);
        }
    }
}

/// A message of a derived struct (C19).
pub fn steady() -> (Op, Req) {
    let i = Instance::gen();
    let o = message(&i);
    let r = wrap(&o, &Arc::new(i.build()));
    ev(|| i.brief());
    (o, r)
}

/// Calls that fail: a value, a condition, a formatting function or the caller's buffer.
fn faulty(j: &Job, i: &Instance, known: &[(Arc<Op>, String)]) {
    let o = &j.o;
    let mode = [CMode::Err, CMode::Panic][draw(FAULT, 2) as usize];
    let run = |p: Plan| {
        set_plan(p);
        let mut buf = None;
        let r = o.exec_keep(&j.req, &mut buf);
        let p = set_plan(Plan::default());
        (r, p, buf.map(|b: FBuf| b.data.lock().unwrap_or_else(|e| e.into_inner()).clone()))
    };
    for _ in 0..below(3) {
        let (r, p, _) = run(Plan { c_fail: Some((u64::MAX, mode)), ..Plan::default() });
        if let Err(e) = r {
            panicked("alone", o, i, &e);
        }
        let (n, w) = (p.calls, p.writes);
        let p = if w > 0 && draw(FAULT, 4) == 0 {
            let m = [WMode::Err, WMode::Torn, WMode::Late, WMode::Panic][draw(FAULT, 4) as usize];
            Plan { w_fail: Some((draw(FAULT, w as u32) as u64, m)), w_sticky: draw(FAULT, 2) == 1, ..Plan::default() }
        } else if n > 0 {
            Plan { c_fail: Some((draw(FAULT, n as u32) as u64, mode)), ..Plan::default() }
        } else {
            return;
        };
        let (r, p, buf) = run(p);
        eval();
        let fired = p.c_fired.is_some() || p.w_fired > 0;
        ev(|| format!("fault {:?} {:?} {}: returned={}", p.c_fail, p.w_fail, fired, r.is_ok()));
        match r {
            Ok(d) => {
                // The failing part may have been a nested call.
                let nested = p.nested_outputs.iter().any(|n| n.1.is_err());
                check!(!fired || nested, "bogus-success", "{}: a callback ({:?}) failed, but the call returned {:?}: {}", i.brief(), p.c_fired, d.text, o.brief());
                compare("a call with a fault", i, o, &j.want.0, &d.text);
            }
            Err(e) => {
                if !fired {
                    panicked("a call", o, i, &e);
                }
                probe(match p.c_fired {
                    Some(Site::Cond) => "failed.condition",
                    Some(Site::Value) => "failed.value",
                    Some(_) => "failed.other",
                    None => "failed.write",
                });
                if let Some(b) = buf {
                    let before = if o.out() == op::Out::Query { &*o.uri } else { &*o.prefix };
                    match b.strip_prefix(before) {
                        Some(new) => check!(
                            j.want.0.starts_with(new) && (p.c_fired.is_none() || new.len() < j.want.0.len()), "buffer-garbage",
                            "{}: after a failed call the buffer contains {:?}: {}", i.brief(), b, o.brief()
                        ),
                        None => violation("buffer-damaged", format!("{}: the buffer contains {:?} after a failed call: {}", i.brief(), b, o.brief())),
                    }
                }
            }
        }
        judge_nested("a call with a fault", i, known, p);
        let (r, _, _) = run(Plan::default());
        match r {
            Ok(d) => compare("after a failed call", i, o, &j.want.0, &d.text),
            Err(e) => panicked("after a failed call", o, i, &e),
        }
    }
}

/// (For `Req`.)
pub fn serialize<S: oauth::serializer::Serializer>(g: &Gen, s: S) -> S::Output {
    g.serialize(s)
}
