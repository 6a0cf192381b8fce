//! C13: all build configurations agree. The nodes of a fleet are built with different features of the
//! library, with and without debug assertions, and are loaded into this process.

use std::ffi::CString;

use simrt::{below, chance, check, draw, eval, ev, pickc, probe, rt, state, sut, violation, Panicked, FAULT};

use crate::harness::*;
use crate::op::{self, Alg, Op, Out, Rk, Sm};
use crate::world;

struct Node {
    name: String,
    caps: u32,
    call: unsafe extern "C" fn(*const u8, usize, *mut u8, usize) -> usize,
}

static mut NODES: Vec<Node> = Vec::new();

#[allow(static_mut_refs)]
fn nodes() -> &'static [Node] {
    unsafe { &NODES }
}

impl Node {
    fn std(&self) -> bool {
        self.caps & 2 != 0
    }
}

/// Loads the nodes: target/cfg/nodes/*.so.
#[allow(static_mut_refs)]
pub fn init() {
    let exe = std::env::current_exe().unwrap();
    let dir = exe.parent().unwrap().parent().unwrap().join("cfg/nodes");
    let mut files: Vec<_> = match std::fs::read_dir(&dir) {
        Ok(d) => d.map(|f| f.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "so")).collect(),
        Err(_) => return,
    };
    files.sort();
    for f in files {
        let path = CString::new(f.to_str().unwrap()).unwrap();
        unsafe {
            let h = libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            assert!(!h.is_null(), "cannot load {:?}: {:?}", f, std::ffi::CStr::from_ptr(libc::dlerror()));
            let sym = |n: &str| {
                let n = CString::new(n).unwrap();
                let p = libc::dlsym(h, n.as_ptr());
                assert!(!p.is_null());
                p
            };
            let init: extern "C" fn() = std::mem::transmute(sym("cfg_init"));
            let caps: extern "C" fn() -> u32 = std::mem::transmute(sym("cfg_caps"));
            init();
            NODES.push(Node {
                name: f.file_stem().unwrap().to_str().unwrap().into(),
                caps: caps(),
                call: std::mem::transmute::<*mut libc::c_void, unsafe extern "C" fn(*const u8, usize, *mut u8, usize) -> usize>(sym("cfg_node")),
            });
        }
    }
}

#[derive(Clone, Debug)]
enum Answer {
    Ok(String),
    Unsupported,
    Panicked(String),
}

// ------------------------------------------------------------------------------------- the protocol

#[derive(Default)]
struct Line(String);

impl Line {
    fn text(&mut self, s: &str) {
        if !self.0.is_empty() {
            self.0.push(' ');
        } else if s.is_empty() {
            unreachable!("the first token is not empty");
        }
        for b in s.bytes() {
            self.0.push_str(&format!("{:02x}", b));
        }
    }
    fn opt(&mut self, s: Option<&str>) {
        match s {
            Some(s) => self.text(s),
            None => self.0.push_str(" !"),
        }
    }
    fn num(&mut self, n: u64) {
        self.text(&n.to_string());
    }
    /// `bad`: the piece that fails instead, and whether by a panic.
    fn val(&mut self, text: &str, frag: Frag, bad: Option<(u32, bool)>) {
        let mut p: Vec<Option<String>> = pieces(text, frag).into_iter().map(Some).collect();
        let mode = match frag.mode {
            3 => 1,
            5 => 2,
            4 => 3,
            7 | 8 => 4,
            _ => 0,
        };
        if let Some((at, _)) = bad {
            p.truncate(at as usize % (p.len() + 1));
            p.push(None);
        }
        self.num(mode + if matches!(bad, Some((_, true))) { 8 } else { 0 });
        self.num(p.len() as u64);
        for p in p {
            self.opt(p.as_deref());
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    No,
    Param(usize, u32, bool),
    Uri(u32, bool),
}

/// How the operation is to be called.
#[derive(Clone, Copy, Debug)]
struct How {
    api: u32,
    budget: usize,
    /// The buffer is full only for one write.
    passing: bool,
    /// PLAINTEXT with `String`.
    string: bool,
    bad: Bad,
    /// A signature method of the caller's, which declines the nonce (1) or the timestamp (2).
    custom: Option<u64>,
    /// Which write to the signature method's sink fails.
    sink: u64,
}

const BIG: usize = 1 << 30;

fn encode(o: &Op, how: How) -> String {
    let mut l = Line::default();
    l.num(match o.sm {
        _ if how.custom.is_some() => 5,
        Sm::Plain if how.string => 1,
        Sm::Plain => 0,
        Sm::Hmac => 2,
        Sm::Rsa06 => 3,
        _ => 4,
    });
    l.num(how.custom.map_or(o.key as u64, |c| c | how.sink << 2));
    l.num(match o.out() {
        Out::Header => 0,
        Out::Form => 1,
        Out::Query => 2,
    });
    l.num(how.api as u64);
    l.num(how.budget as u64);
    l.num(how.passing as u64);
    l.text(&o.prefix);
    l.text(&o.method);
    l.val(&o.uri, o.uri_frag, match how.bad {
        Bad::Uri(a, p) => Some((a, p)),
        _ => None,
    });
    l.text(&o.uri);
    l.text(&o.ck);
    l.text(&o.cs);
    l.opt(o.tok.as_ref().map(|t| &*t.0));
    l.opt(o.tok.as_ref().map(|t| &*t.1));
    l.opt(o.cb.as_deref());
    l.opt(o.ver.as_deref());
    l.opt(o.nonce.as_deref());
    l.num(o.ts.unwrap_or(0));
    l.num(o.version as u64);
    l.num(match o.rk {
        Rk::Manual => 0,
        Rk::Sorted => 1,
        Rk::ListSlice => 2,
        Rk::ListNew => 3,
        Rk::Derived => 5,
        _ => 4,
    });
    l.num(o.params.len() as u64);
    for (i, p) in o.params.iter().enumerate() {
        l.text(&p.k);
        let text = if p.enc { model::pct(p.v.as_bytes()) } else { p.v.clone() };
        l.val(&text, p.frag, match how.bad {
            Bad::Param(n, a, p) if n == i => Some((a, p)),
            _ => None,
        });
        l.num(p.enc as u64);
    }
    l.0
}

/// Calls the node; what it answers, and what the caller's buffer contains.
fn call(n: usize, sim_node: usize, o: &Op, how: How) -> (Answer, String) {
    let req = encode(o, how);
    simrt::set_node(sim_node);
    let f = nodes()[n].call;
    let r: Result<Vec<u8>, Panicked> = sut(|| {
        let mut out = vec![0u8; 1 << 17];
        let n = unsafe { f(req.as_ptr(), req.len(), out.as_mut_ptr(), out.len()) };
        out.truncate(n);
        out
    });
    let r = match r {
        Ok(r) => String::from_utf8(r).expect("text"),
        Err(p) => violation("panic", format!("node {}: {} at {}", nodes()[n].name, p.msg, p.loc)),
    };
    let (status, rest) = r.split_once(' ').unwrap();
    let (text, buf) = split(rest);
    let a = match status {
        "ok" => Answer::Ok(text),
        "panic" => Answer::Panicked(text),
        _ => Answer::Unsupported,
    };
    ev(|| format!("{} {:?}: {:?}, buffer {:?}", nodes()[n].name, how, a, buf));
    (a, buf)
}

/// `LENGTH:TEXTBUFFER`.
fn split(rest: &str) -> (String, String) {
    let (n, rest) = rest.split_once(':').unwrap();
    let n: usize = n.parse().unwrap();
    (rest[..n].into(), rest[n..].into())
}

// ------------------------------------------------------------------------------------- the scenario

fn gen_fleet_op() -> Op {
    let mut o = op::gen_op(op::OpCfg { pinned: true, entries: Some(&[37, 38, 39]), ..op::CFG });
    o.sm = pickc(&[Sm::Hmac, Sm::Hmac, Sm::Hmac, Sm::Plain, Sm::Plain, Sm::Rsa06, Sm::Rsa09]);
    let rk = pickc(&[Rk::Manual, Rk::Manual, Rk::Sorted, Rk::ListSlice, Rk::ListNew, Rk::Unit, Rk::Derived]);
    if rk != o.rk {
        o.params = op::gen_params(rk, 6, true);
        o.rk = rk;
    }
    o
}

fn strip<'a>(o: &Op, how: How, t: &'a str, who: &str) -> &'a str {
    let pre = if o.out() == Out::Query {
        &*o.uri
    } else if matches!(how.api, 0 | 2 | 3 | 6) {
        &*o.prefix
    } else {
        ""
    };
    match t.strip_prefix(pre) {
        Some(t) => t,
        None => violation("buffer-damaged", format!("{} {:?}: the output {:?} does not start with the buffer's contents {:?}", who, how, t, pre)),
    }
}

/// What a server makes of the message.
fn server(o: &Op, how: How, who: &str, text: &str, mark: (usize, i64)) {
    eval();
    if let (Some(c), true) = (how.custom, how.api < 6) {
        // What a signature method is told is C14's; here, that all are told the same.
        check!(
            text.contains("oauth_nonce=") == (c & 1 == 0) && text.contains("oauth_timestamp=") == (c & 2 == 0) && text.contains("oauth_signature="),
            "rejected", "{} {:?}: {:?}: {}", who, how, text, o.brief()
        );
        return;
    }
    if how.api >= 6 {
        let q = if o.out() == Out::Query && !text.is_empty() {
            match text.strip_prefix('?') {
                Some(q) => q,
                None => violation("rejected", format!("{}: no `?` in {:?}: {}", who, text, o.brief())),
            }
        } else {
            text
        };
        let mut want: Vec<(String, String)> = o.params.iter().map(|p| (p.k.clone(), p.v.clone())).collect();
        want.sort();
        match model::parse_form(q) {
            Ok(mut got) => {
                got.sort();
                check!(got == want, "rejected", "{}: {:?} decodes to {:?}: {}", who, text, got, o.brief());
            }
            Err(e) => violation("rejected", format!("{}: {}: {}", who, e, o.brief())),
        }
        return;
    }
    match o.verify(text) {
        Ok(p) => check!(
            o.ts.is_some() || op::clock_had(mark, p.ts), "made-up-timestamp",
            "{}: the timestamp {} was not the clock's: {}", who, p.ts, o.brief()
        ),
        Err(e) => violation("rejected", format!("{} {:?}: {}: {}", who, how, e, o.brief())),
    }
}

fn incomplete(o: &Op, who: &str, buf: &str) {
    let before = if o.out() == Out::Query { &*o.uri } else { &*o.prefix };
    match buf.strip_prefix(before) {
        Some(new) => check!(
            o.verify(new).is_err(), "complete-message", "{}: the call failed, but the buffer contains a complete message {:?}: {}", who, buf, o.brief()
        ),
        None => violation("buffer-damaged", format!("{}: the buffer contains {:?} after a failed call: {}", who, buf, o.brief())),
    }
}

pub fn fleet() {
    world::swarm();
    let ns = nodes();
    assert!(!ns.is_empty(), "the nodes are not built");
    let epoch = 1_000_000_000 + below(2_000_000_000) as i64;
    let sims: Vec<usize> = ns.iter().map(|_| world::node(epoch, 5_000)).collect();
    let main = simrt::node();
    for _ in 0..1 + below(3) {
        let o = gen_fleet_op();
        ev(|| o.brief());
        state(o.shape());
        let mut how = How { api: below(8) as u32, budget: BIG, passing: false, string: chance(128), bad: Bad::No, custom: None, sink: 0 };
        if how.api < 6 && chance(50) {
            how.custom = Some(pickc(&[0u64, 0, 1, 2, 3]));
        }
        if how.api >= 6 && o.out() == Out::Header {
            how.api = below(6) as u32;
        }
        match below(9) {
            0 => unpinned(&o, how, &sims),
            1 => starved(&o, How { custom: None, ..how }, &sims),
            _ => agree(&o, how, &sims),
        }
        simrt::set_node(main);
    }
}

/// The closest to `how` that the node supports.
fn best(n: usize, sim: usize, o: &Op, how: How) -> Option<(How, Answer, String)> {
    let unsigned = how.api >= 6;
    let apis: &[u32] = if unsigned { &[6] } else { &[0, 3] };
    for api in std::iter::once(how.api).chain(apis.iter().copied()) {
        for string in [how.string, false] {
            let h = How { api, string, ..how };
            match call(n, sim, o, h) {
                (Answer::Unsupported, _) => {}
                (a, b) => return Some((h, a, b)),
            }
        }
    }
    None
}

fn agree(o: &Op, how: How, sims: &[usize]) {
    let ns = nodes();
    let mut good: Option<(usize, String)> = None;
    let mut members = Vec::new();
    for n in 0..ns.len() {
        let Some((h, a, _)) = best(n, sims[n], o, how) else { continue };
        if o.rk == Rk::Derived && ns[n].caps & 16 == 0 || o.rk == Rk::ListNew && ns[n].caps & 1 == 0 {
            // (It did something else.)
            continue;
        }
        probe(&format!("node.{}", ns[n].name));
        match a {
            Answer::Ok(t) => {
                let t = strip(o, h, &t, &ns[n].name);
                server(o, h, &ns[n].name, t, (0, 0));
                members.push(n);
                match good {
                    None => good = Some((n, t.into())),
                    Some((m, ref g)) => {
                        eval();
                        check!(
                            g == t, "configurations-differ", "{} ({:?}) yields {:?}, {} ({:?}) yields {:?}: {}",
                            ns[m].name, how, g, ns[n].name, h, t, o.brief()
                        )
                    }
                }
            }
            Answer::Panicked(m) => violation("panic", format!("{} ({:?}) panicked: {}: {}", ns[n].name, h, m, o.brief())),
            Answer::Unsupported => {}
        }
    }
    let good = match good {
        Some((_, g)) => g,
        None => return,
    };
    probe("fleet.messages");
    // A buffer that gets full, and a value that fails.
    for kind in 0..3 {
        if kind == 2 && how.custom.is_none() {
            continue;
        }
        let mut h = How { api: if how.api >= 6 { 6 } else { pickc(&[0, 3]) }, string: false, ..how };
        let plain_header = how.api < 6 && how.custom.is_none() && o.sm.alg() == Alg::Plain;
        let before = if o.out() == Out::Query { o.uri.clone() } else { o.prefix.clone() };
        if kind == 0 {
            if good.is_empty() {
                continue;
            }
            h.budget = draw(FAULT, good.len() as u32) as usize;
            h.passing = draw(FAULT, 2) == 1;
            probe(if h.passing { "fault.buffer_full_once" } else { "fault.buffer_full" });
        } else if kind == 2 {
            h.sink = 1 + draw(FAULT, pickc(&[10u32, 40, 150])) as u64;
            probe("fault.sink");
        } else {
            let panics = draw(FAULT, 2) == 1;
            let n = o.params.len() as u32;
            let sorted_by_library = matches!(o.rk, Rk::ListNew | Rk::ListSlice);
            h.bad = match draw(FAULT, 3) {
                0 if !plain_header && how.api < 6 && o.out() != Out::Query => Bad::Uri(draw(FAULT, 8), panics),
                _ if n > 0 && !(plain_header && o.out() == Out::Header) && !sorted_by_library => {
                    Bad::Param(draw(FAULT, n) as usize, draw(FAULT, 8), panics)
                }
                _ => continue,
            };
            probe("fault.value");
        }
        let mut first: Option<(usize, String)> = None;
        for &n in &members {
            let (a, b) = call(n, sims[n], o, h);
            let who = &ns[n].name;
            eval();
            match a {
                Answer::Unsupported => continue,
                // (There were fewer writes.)
                Answer::Ok(t) if kind == 2 && strip(o, h, &t, who) == good => continue,
                Answer::Ok(t) => violation("bogus-success", format!("{} ({:?}): the call returned {:?}: {}", who, h, t, o.brief())),
                Answer::Panicked(_) => {}
            }
            let new = match b.strip_prefix(&*before) {
                Some(new) => new,
                None => violation("buffer-damaged", format!("{} ({:?}): the buffer contains {:?}: {}", who, h, b, o.brief())),
            };
            check!(
                // (Nothing marks the end of an unsigned form.)
                good.starts_with(new) && (new.len() < good.len() || how.api >= 6), "buffer-garbage",
                "{} ({:?}): the buffer contains {:?} after a failed call, the message is {:?}: {}", who, h, b, good, o.brief()
            );
            if kind == 0 {
                match first {
                    None => first = Some((n, new.into())),
                    Some((m, ref f)) => check!(
                        f == new, "configurations-differ", "with a buffer of {} bytes, {} leaves {:?}, {} leaves {:?}: {}",
                        h.budget, ns[m].name, f, who, new, o.brief()
                    ),
                }
            }
        }
    }
    // Everything still works.
    for &n in &members {
        if let (Answer::Ok(t), h) = (call(n, sims[n], o, How { api: if how.api >= 6 { 6 } else { 0 }, string: false, ..how }).0, how) {
            let t = strip(o, How { api: 0, ..h }, &t, &ns[n].name);
            check!(t == good, "unusable-afterwards", "{} yields {:?} instead of {:?} after a failed call: {}", ns[n].name, t, good, o.brief());
        }
    }
}

/// Without the caller's timestamp (and nonce).
fn unpinned(o: &Op, mut how: How, sims: &[usize]) {
    let mut o = o.clone();
    o.ts = None;
    if chance(128) {
        o.nonce = None;
    }
    if how.api >= 6 {
        how.api = 0;
    }
    for n in 0..nodes().len() {
        simrt::set_node(sims[n]);
        let mark = op::mark();
        let Some((h, a, b)) = best(n, sims[n], &o, how) else { continue };
        let node = &nodes()[n];
        if o.rk == Rk::Derived && node.caps & 16 == 0 || o.rk == Rk::ListNew && node.caps & 1 == 0 {
            continue;
        }
        eval();
        let declined = h.custom.map_or(false, |c| c & 2 != 0);
        match a {
            Answer::Ok(t) => {
                check!(
                    node.std() || declined, "made-up-timestamp", "{} ({:?}) has no clock, but the call returned {:?}: {}", node.name, h, t, o.brief()
                );
                probe("fleet.clock");
                server(&o, h, &node.name, strip(&o, h, &t, &node.name), mark);
            }
            Answer::Panicked(m) => {
                check!(!node.std() && !declined, "panic", "{} ({:?}) panicked: {}: {}", node.name, h, m, o.brief());
                probe("fleet.no_clock");
                incomplete(&o, &node.name, &b);
            }
            Answer::Unsupported => {}
        }
    }
}

/// Without the caller's nonce, and without entropy.
fn starved(o: &Op, mut how: How, sims: &[usize]) {
    let mut o = o.clone();
    o.nonce = None;
    if how.api >= 6 {
        how.api = 0;
    }
    for n in 0..nodes().len() {
        let node = &nodes()[n];
        if o.rk == Rk::Derived && node.caps & 16 == 0 || o.rk == Rk::ListNew && node.caps & 1 == 0 {
            continue;
        }
        let Some((h, a, _)) = best(n, sims[n], &o, how) else { continue };
        match a {
            Answer::Ok(t) => server(&o, h, &node.name, strip(&o, h, &t, &node.name), (0, 0)),
            Answer::Panicked(m) => violation("panic", format!("{} ({:?}) panicked: {}: {}", node.name, h, m, o.brief())),
            Answer::Unsupported => {}
        }
        let failed = rt().entropy.failed;
        rt().entropy.fail_at = Some((rt().entropy.reads, u64::MAX));
        rt().entropy.errno = libc::EIO;
        let (a, b) = call(n, sims[n], &o, h);
        rt().entropy.fail_at = None;
        eval();
        probe("fault.no_entropy");
        match a {
            Answer::Panicked(_) => incomplete(&o, &node.name, &b),
            Answer::Ok(t) => check!(
                rt().entropy.failed == failed, "bogus-nonce", "{} ({:?}) had no entropy, but the call returned {:?}: {}", node.name, h, t, o.brief()
            ),
            Answer::Unsupported => {}
        }
    }
}
