//! Caller-side types handed to the library, all of which are fault-injectable scheduling points.

use std::cell::{Cell, RefCell};
use std::fmt::{self, Display, Formatter, Write};
use std::sync::{Arc, Mutex};

use simrt::{callback, probe, Injected, Rng};

use crate::op::Op;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum WMode {
    /// Report an error, write nothing.
    Err,
    /// Write a prefix of the piece, then report an error.
    Torn,
    /// Write everything but report an error (lost acknowledgement).
    Late,
    /// Panic.
    Panic,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CMode {
    /// `Display` reports an error (other callbacks panic).
    Err,
    Panic,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Site {
    Value,
    Uri,
    Key,
    Cred,
    Iter,
    Cond,
}

#[derive(Default)]
pub struct Plan {
    /// Writes to caller-supplied buffers so far.
    pub writes: u64,
    /// Fail the n-th write (0-based) ...
    pub w_fail: Option<(u64, WMode)>,
    /// ... and all the later ones too.
    pub w_sticky: bool,
    pub w_fired: u64,
    /// Successful writes after the failing one.
    pub w_after: u64,
    /// Caller callbacks so far.
    pub calls: u64,
    pub c_fail: Option<(u64, CMode)>,
    pub c_fired: Option<Site>,
    /// Failing values do not fail while this is set (the request is being built).
    pub quiet: bool,
    /// Fragmentation override for all values (0: use the value's own).
    pub force_whole: bool,
    pub depth: u32,
    /// What the nested operations yielded, and when they started.
    pub nested_outputs: Vec<(Arc<Op>, Result<String, simrt::Panicked>, (usize, i64))>,
}

thread_local! {
    pub static PLAN: RefCell<Plan> = RefCell::new(Plan::default());
    /// How nested operations are executed (default: on objects of their own).
    static EXEC: Cell<Option<Exec>> = const { Cell::new(None) };
}

pub type Exec = &'static (dyn Fn(&Op) -> Result<String, simrt::Panicked> + Sync);

pub fn set_exec(e: Option<Exec>) {
    EXEC.with(|c| c.set(e));
}

pub fn plan<R>(f: impl FnOnce(&mut Plan) -> R) -> R {
    PLAN.with(|p| f(&mut p.borrow_mut()))
}

/// Runs code that builds a request.
pub fn quietly<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            let q = self.0;
            plan(|p| p.quiet = q);
        }
    }
    let _r = Reset(plan(|p| std::mem::replace(&mut p.quiet, true)));
    f()
}

pub fn set_plan(p: Plan) -> Plan {
    PLAN.with(|c| c.replace(p))
}

pub enum Act {
    Go,
    Err,
}

/// A caller callback runs. May panic (injected).
pub fn tick(site: Site) -> Act {
    let fail = plan(|p| {
        if p.quiet && matches!(p.c_fail, Some((_, CMode::Err))) {
            return None;
        }
        let i = p.calls;
        p.calls += 1;
        match p.c_fail {
            Some((at, m)) if at == i => {
                p.c_fired = Some(site);
                Some(m)
            }
            _ => None,
        }
    });
    match fail {
        None => Act::Go,
        Some(CMode::Err) if matches!(site, Site::Value | Site::Uri) => {
            probe(if site == Site::Value { "fault.value_fmt_error" } else { "fault.uri_fmt_error" });
            Act::Err
        }
        Some(_) => {
            probe(match site {
                Site::Value => "fault.value_panic",
                Site::Uri => "fault.uri_panic",
                Site::Key => "fault.key_panic",
                Site::Cred => "fault.credential_panic",
                Site::Iter => "fault.iterator_panic",
                Site::Cond => "fault.condition_panic",
            });
            std::panic::panic_any(Injected("caller callback"))
        }
    }
}

/// How a `Display` value hands its text to the formatter.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Frag {
    pub mode: u8,
    pub seed: u32,
}

pub const NFRAG: usize = 9;

/// A text that is displayed in pieces.
#[derive(Clone, Debug)]
pub struct Val {
    pub text: String,
    pub frag: Frag,
    pub site: Site,
    /// An operation that the value performs with the library while being displayed.
    pub nested: Option<Arc<Op>>,
}

impl Val {
    pub fn new(text: impl Into<String>, frag: Frag) -> Self {
        Val { text: text.into(), frag, site: Site::Value, nested: None }
    }
    pub fn uri(text: impl Into<String>, frag: Frag) -> Self {
        Val { text: text.into(), frag, site: Site::Uri, nested: None }
    }
}

pub fn pieces(text: &str, frag: Frag) -> Vec<String> {
    let mut r = Rng(frag.seed as u64);
    // Long texts in coarser pieces: comparing values takes time quadratic in their number.
    let coarse = (text.len() / 200) as u64;
    match frag.mode {
        1 if coarse == 0 => text.chars().map(|c| c.to_string()).collect(),
        1 | 2 | 4 | 6 | 8 => {
            let mut out = Vec::new();
            let mut cur = String::new();
            let p = 1 + r.next() % 6 + 2 * coarse;
            for c in text.chars() {
                cur.push(c);
                if r.next() % (p + 1) == 0 {
                    out.push(std::mem::take(&mut cur));
                    if frag.mode == 6 && r.next() % 2 == 0 {
                        out.push(String::new());
                    }
                }
            }
            if !cur.is_empty() || frag.mode == 6 {
                out.push(cur);
            }
            out
        }
        _ => vec![text.to_string()],
    }
}

/// Like many types, the values of callers display otherwise if asked to (`{:#}`, `{:+}`, ...).
fn dressed(f: &Formatter<'_>) -> bool {
    f.alternate() || f.sign_plus() || f.sign_minus() || f.sign_aware_zero_pad() || f.width().is_some() || f.precision().is_some()
}

impl Display for Val {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let _g = callback();
        if dressed(f) {
            simrt_sut(|| f.write_str("dressed"))?;
        }
        let frag = if plan(|p| p.force_whole) { Frag::default() } else { self.frag };
        if let Act::Err = tick(self.site) {
            return Err(fmt::Error);
        }
        if let Some(ref op) = self.nested {
            nested(op);
        }
        let ps = pieces(&self.text, frag);
        let n = ps.len();
        for (i, p) in ps.iter().enumerate() {
            if i > 0 || n > 1 {
                if let Act::Err = tick(self.site) {
                    return Err(fmt::Error);
                }
            }
            let r = simrt_sut(|| match frag.mode {
                1 | 2 | 6 => f.write_str(p),
                3 => p.chars().try_for_each(|c| f.write_char(c)),
                4 => write!(f, "{}", p),
                5 => f.pad(p),
                7 => write!(f, "{}", format_args!("{}{}", p, "")),
                8 => {
                    if i % 2 == 0 {
                        write!(f, "{:}", Inner(p))
                    } else {
                        p.chars().try_for_each(|c| write!(f, "{}", c))
                    }
                }
                _ => f.write_str(p),
            });
            r?;
        }
        if n == 0 {
            return Ok(());
        }
        Ok(())
    }
}

struct Inner<'a>(&'a str);
impl Display for Inner<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self.0, f)
    }
}

/// Back into library code (the formatter adapter) from a callback.
fn simrt_sut<R>(f: impl FnOnce() -> R) -> R {
    let _g = simrt::reenter();
    f()
}

pub fn nested(op: &Arc<Op>) {
    if plan(|p| {
        if p.depth >= 2 {
            return true;
        }
        p.depth += 1;
        false
    }) {
        return;
    }
    probe("reentrant_calls");
    let mark = crate::op::mark();
    let r = match EXEC.with(|c| c.get()) {
        Some(f) => f(op),
        None => op.exec().map(|o| o.text),
    };
    plan(|p| {
        p.depth -= 1;
        p.nested_outputs.push((op.clone(), r, mark));
    });
}

/// A parameter name; `AsRef<str>` is a callback.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Key(pub String);

impl AsRef<str> for Key {
    fn as_ref(&self) -> &str {
        let _g = callback();
        let _ = tick_panic(Site::Key);
        &self.0
    }
}

/// An identifier or a secret; `AsRef<str>` is a callback.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cred(pub String);

impl AsRef<str> for Cred {
    fn as_ref(&self) -> &str {
        let _g = callback();
        let _ = tick_panic(Site::Cred);
        &self.0
    }
}

fn tick_panic(site: Site) {
    if let Act::Err = tick(site) {
        std::panic::panic_any(Injected("caller callback"))
    }
}

/// An iterator over pairs, every step of which is a callback.
#[derive(Clone)]
pub struct PairIter<'a>(pub std::slice::Iter<'a, (Key, Val)>);

impl<'a> Iterator for PairIter<'a> {
    type Item = (&'a Key, &'a Val);
    fn next(&mut self) -> Option<Self::Item> {
        let _g = callback();
        tick_panic(Site::Iter);
        self.0.next().map(|(k, v)| (k, v))
    }
}

/// A caller-supplied output buffer, also readable after the library dropped it.
#[derive(Debug)]
pub struct FBuf {
    pub data: Arc<Mutex<String>>,
}

impl FBuf {
    pub fn new(s: &str) -> Self {
        FBuf { data: Arc::new(Mutex::new(s.to_string())) }
    }
}

fn write_tick(s: &str, data: &mut String) -> fmt::Result {
    let act = plan(|p| {
        let i = p.writes;
        p.writes += 1;
        match p.w_fail {
            Some((at, m)) if at == i || (p.w_sticky && i > at) => {
                p.w_fired += 1;
                Some(m)
            }
            _ => {
                if p.w_fired > 0 {
                    p.w_after += 1;
                }
                None
            }
        }
    });
    match act {
        None => {
            data.push_str(s);
            Ok(())
        }
        Some(WMode::Err) => {
            probe("fault.write_error");
            Err(fmt::Error)
        }
        Some(WMode::Torn) => {
            probe("fault.write_torn");
            let mut n = s.len() / 2;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            data.push_str(&s[..n]);
            Err(fmt::Error)
        }
        Some(WMode::Late) => {
            probe("fault.write_lost_ack");
            data.push_str(s);
            Err(fmt::Error)
        }
        Some(WMode::Panic) => {
            probe("fault.write_panic");
            std::panic::panic_any(Injected("writer"))
        }
    }
}

impl Write for FBuf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _g = callback();
        let mut d = self.data.lock().unwrap_or_else(|e| e.into_inner());
        write_tick(s, &mut d)
    }
}

impl Display for FBuf {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let _g = callback();
        if dressed(f) {
            simrt_sut(|| f.write_str("dressed"))?;
        }
        if let Act::Err = tick(Site::Uri) {
            return Err(fmt::Error);
        }
        let s = self.data.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let n = if plan(|p| p.force_whole) { 0 } else { (0..=s.len() / 2).rev().find(|&i| s.is_char_boundary(i)).unwrap_or(0) };
        simrt_sut(|| {
            if n > 0 {
                f.write_str(&s[..n])?;
            }
            f.write_str(&s[n..])
        })
    }
}

/// A buffer for PLAINTEXT signatures.
#[derive(Debug, Default, Clone)]
pub struct PBuf {
    pub data: String,
}

impl Write for PBuf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _g = callback();
        write_tick(s, &mut self.data)
    }
}

impl Display for PBuf {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let _g = callback();
        if dressed(f) {
            simrt_sut(|| f.write_str("dressed"))?;
        }
        let (a, b) = self.data.split_at(
            (0..=self.data.len() / 2).rev().find(|&i| self.data.is_char_boundary(i)).unwrap_or(0),
        );
        simrt_sut(|| {
            f.write_str(a)?;
            f.write_str(b)
        })
    }
}
