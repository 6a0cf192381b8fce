//! C10: parameter lists stay sorted, and serializers emit what they were fed.

use std::num::NonZeroU64;

use model::{parse_form, parse_header, pct};
use oauth::request::{AssertSorted, ParameterList};
use oauth::serializer::auth::{self, Authorizer};
use oauth::serializer::recorder::{Record, Recorder};
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::SignatureMethod;
use oauth::{Credentials, Request};
use simrt::{below, chance, check, draw, eval, ev, probe, state, sut, violation, Panicked, FAULT};

use crate::gen;
use crate::harness::*;
use crate::op::{self, Op, Out, Rk, WithSm};
use crate::world;

type Pair = (String, String);

fn ord(p: &Pair) -> (String, String) {
    (p.0.clone(), pct(p.1.as_bytes()))
}

fn sorted(v: &[Pair]) -> bool {
    v.windows(2).all(|w| ord(&w[0]) <= ord(&w[1]))
}

fn panicked(what: &str, p: &Panicked) -> ! {
    violation("panic", format!("{} panicked: {} at {}", what, p.msg, p.loc))
}

pub fn gen_pairs(max: usize) -> Vec<(Key, Val)> {
    let mut o = op::gen_params(Rk::ListNew, max, true);
    if chance(60) && o.len() > 1 {
        // Numbers are texts, too; and the encoding changes the order.
        let k = o[0].k.clone();
        for p in o.iter_mut() {
            p.k = k.clone();
            p.v = match below(5) {
                0 => (draw(simrt::GEN, 120)).to_string(),
                1 => ["", "~", "a", "%", "é", " ", "-", "/", "0", "a/", "a~", "a0", "A"][below(13)].to_string(),
                2 => format!("{}{}", o_text(), ["/", "~", "", "0", "%", "\u{10ffff}"][below(6)]),
                _ => gen::text(),
            };
        }
    }
    o.into_iter().map(|p| (Key(p.k), Val { text: p.v, frag: p.frag, site: Site::Value, nested: None })).collect()
}

fn o_text() -> String {
    ["a", "aa", "", "\u{e9}", "a b"][below(5)].to_string()
}

fn texts<'a>(it: impl Iterator<Item = &'a (Key, Val)>) -> Vec<Pair> {
    it.map(|(k, v)| (k.0.clone(), v.text.clone())).collect()
}

type List = ParameterList<Key, Val>;

/// The list holds exactly the pairs of the model, in order, whichever way it is looked at.
fn judge(l: &List, model: &[Pair], what: &str) {
    eval();
    let got = texts(AsRef::<[(Key, Val)]>::as_ref(l).iter());
    let mut a: Vec<_> = got.clone();
    let mut b: Vec<_> = model.to_vec();
    a.sort();
    b.sort();
    check!(a == b, "list-contents", "after {}, the list holds {:?} instead of {:?}", what, got, model);
    check!(sorted(&got), "list-order", "after {}, the list is not sorted: {:?}", what, got);
    let it = match sut(|| l.iter().map(|p| (p.0 .0.clone(), p.1.text.clone())).collect::<Vec<_>>()) {
        Ok(v) => v,
        Err(p) => panicked("iterating", &p),
    };
    check!(it == got, "iteration", "after {}, iterating yields {:?}, the slice is {:?}", what, it, got);
    // Each way to iterate, from anywhere in between.
    let own = |p: &(Key, Val)| (p.0 .0.clone(), p.1.text.clone());
    let (at, n) = (below(got.len() + 2), below(got.len() + 2));
    let way = below(12);
    let rest = got.get(at..).unwrap_or(&[]);
    let r = sut(|| {
        let mut i = l.iter();
        for _ in 0..at {
            i.next();
        }
        let (lo, hi) = i.size_hint();
        let bad = lo > rest.len() || hi.map_or(false, |h| h < rest.len());
        let v: Vec<Pair> = match way {
            0 => i.map(own).collect(),
            1 => {
                let mut v = Vec::new();
                i.for_each(|p| v.push(own(p)));
                v
            }
            2 => i.fold(Vec::new(), |mut v, p| {
                v.push(own(p));
                v
            }),
            3 => i.last().map(own).into_iter().collect(),
            4 => i.nth(n).map(own).into_iter().chain(i.map(own)).collect(),
            5 => i.by_ref().take(n).map(own).chain(std::iter::empty()).collect(),
            6 => i.skip(n).map(own).collect(),
            7 => i.step_by(n + 1).map(own).collect(),
            8 => vec![(i.count().to_string(), String::new())],
            9 => {
                let mut v: Vec<Pair> = i.by_ref().take(n).map(own).collect();
                v.extend(i.map(own));
                v
            }
            10 => {
                let f = i.find(|p| got.get(at + n).map_or(false, |g| own(p) == *g)).map(own);
                f.into_iter().collect()
            }
            _ => {
                let mut v = Vec::new();
                let _ = i.try_for_each(|p| {
                    v.push(own(p));
                    if v.len() > n {
                        Err(())
                    } else {
                        Ok(())
                    }
                });
                v
            }
        };
        (v, bad)
    });
    let want: Vec<Pair> = match way {
        3 => rest.last().cloned().into_iter().collect(),
        4 | 6 => rest.get(n..).unwrap_or(&[]).to_vec(),
        5 => rest[..n.min(rest.len())].to_vec(),
        7 => rest.iter().step_by(n + 1).cloned().collect(),
        8 => vec![(rest.len().to_string(), String::new())],
        10 => rest.get(n).cloned().into_iter().collect(),
        11 => rest[..(n + 1).min(rest.len())].to_vec(),
        _ => rest.to_vec(),
    };
    match r {
        Err(p) => panicked("iterating", &p),
        Ok((v, bad)) => check!(
            v == want && !bad, "iteration",
            "after {}, iterating ({}) from {} with {} yields {:?} instead of {:?} of {:?}", what, way, at, n, v, want, got
        ),
    }
}

fn list_step(l: &mut List, m: &mut Vec<Pair>) -> &'static str {
    match below(9) {
        0 | 1 => {
            let v = gen_pairs(6);
            *m = texts(v.iter());
            match sut(|| if chance(128) { List::new(v) } else { List::from(v) }) {
                Ok(x) => *l = x,
                Err(p) => panicked("ParameterList::new", &p),
            }
            "new"
        }
        2 | 3 => {
            let v = gen_pairs(4);
            m.extend(texts(v.iter()));
            if let Err(p) = sut(|| l.extend(v)) {
                panicked("ParameterList::extend", &p);
            }
            "extend"
        }
        4 => {
            let v = gen_pairs(6);
            *m = texts(v.iter());
            match sut(|| v.into_iter().collect::<List>()) {
                Ok(x) => *l = x,
                Err(p) => panicked("collect", &p),
            }
            "collect"
        }
        5 => {
            // Back to a vector, something changes there, and it is put back.
            let old = std::mem::take(l);
            let mut v = old.into_inner();
            let before = texts(v.iter());
            check!(sorted(&before), "list-order", "into_inner yields {:?}, which is not sorted", before);
            if !v.is_empty() {
                match below(4) {
                    0 => {
                        v.remove(below(v.len()));
                    }
                    1 => {
                        let i = below(v.len());
                        v[i].1.text = gen::text();
                    }
                    2 => {
                        let (i, j) = (below(v.len()), below(v.len()));
                        v.swap(i, j);
                    }
                    _ => v.reverse(),
                }
            }
            *m = texts(v.iter());
            match sut(|| List::new(v)) {
                Ok(x) => *l = x,
                Err(p) => panicked("ParameterList::new", &p),
            }
            "into_inner and new"
        }
        6 => {
            // Mapping the values to others.
            let v: Vec<_> = match sut(|| l.iter().map(|(k, v)| (k.clone(), Val::new(format!("{}{}", &v.text, "~"), v.frag))).collect::<Vec<_>>()) {
                Ok(v) => v,
                Err(p) => panicked("iterating", &p),
            };
            *m = texts(v.iter());
            match sut(|| v.into_iter().collect::<List>()) {
                Ok(x) => *l = x,
                Err(p) => panicked("collect", &p),
            }
            "map"
        }
        7 => {
            *m = Vec::new();
            *l = List::default();
            "default"
        }
        _ => {
            // Claimed to be sorted.
            let mut v = gen_pairs(5);
            if chance(140) {
                v.sort_by_key(|(k, v)| (k.0.clone(), pct(v.text.as_bytes())));
                if chance(100) && v.len() > 1 {
                    let i = below(v.len() - 1);
                    v.swap(i, i + 1);
                }
            }
            claim(v, l, m);
            "from_sorted"
        }
    }
}

fn claim(v: Vec<(Key, Val)>, l: &mut List, m: &mut Vec<Pair>) {
    let t = texts(v.iter());
    let want = sorted(&t);
    probe(if want { "list.claimed_rightly" } else { "list.claimed_wrongly" });
    eval();
    match sut(|| List::from_sorted(v)) {
        Ok(Some(x)) => {
            check!(want, "from-sorted", "from_sorted accepted {:?}, which is not sorted", t);
            *l = x;
            *m = t;
        }
        Ok(None) => check!(!want, "from-sorted", "from_sorted refused {:?}, which is sorted", t),
        Err(p) => panicked("from_sorted", &p),
    }
}

/// Other kinds of lists: arrays, slices, references, numbers.
fn other_lists() {
    let v = gen_pairs(5);
    let want = {
        let mut t = texts(v.iter());
        t.sort_by_key(ord);
        t.into_iter().map(|p| ord(&p)).collect::<Vec<_>>()
    };
    let got = sut(|| match below(4) {
        0 => {
            let l = ParameterList::<Key, Val, Vec<&(Key, Val)>, &(Key, Val)>::new(v.iter().collect());
            l.iter().map(|p| (p.0 .0.clone(), p.1.text.clone())).collect::<Vec<_>>()
        }
        1 => {
            let mut w = v.clone();
            let l = ParameterList::<Key, Val, &mut [(Key, Val)]>::new(&mut w[..]);
            l.iter().map(|p| (p.0 .0.clone(), p.1.text.clone())).collect()
        }
        2 => {
            let l = ParameterList::<Key, Val, Box<[(Key, Val)]>>::new(v.clone().into_boxed_slice());
            l.iter().map(|p| (p.0 .0.clone(), p.1.text.clone())).collect()
        }
        _ => {
            let l: ParameterList<&str, &str, Vec<(&str, &str)>> = v.iter().map(|(k, v)| (&*k.0, &*v.text)).collect();
            l.iter().map(|p| (p.0.to_string(), p.1.to_string())).collect()
        }
    });
    match got {
        Err(p) => panicked("another kind of list", &p),
        Ok(g) => {
            eval();
            let g: Vec<_> = g.iter().map(ord).collect();
            check!(g == want, "list-order", "another kind of list holds {:?} instead of {:?}", g, want);
        }
    }
    let ns: Vec<(&str, u64)> = (0..below(6)).map(|_| (["a", "b"][below(2)], draw(simrt::GEN, 1200) as u64)).collect();
    let mut want: Vec<Pair> = ns.iter().map(|p| (p.0.to_string(), p.1.to_string())).collect();
    want.sort();
    match sut(|| ns.iter().copied().collect::<ParameterList<&str, u64>>().iter().map(|p| (p.0.to_string(), p.1.to_string())).collect::<Vec<_>>()) {
        Err(p) => panicked("a list of numbers", &p),
        Ok(g) => check!(g == want, "list-order", "a list of numbers holds {:?} instead of {:?}", g, want),
    }
}

pub fn lists() {
    world::swarm();
    let mut l = List::default();
    let mut m: Vec<Pair> = Vec::new();
    for _ in 0..2 + below(8) {
        if chance(30) {
            // A value fails while a list is being made of it; nothing else is affected.
            let v = gen_pairs(6);
            set_plan(Plan { c_fail: Some((draw(FAULT, 20) as u64, CMode::Panic)), ..Plan::default() });
            let r = sut(|| List::new(v));
            let p = set_plan(Plan::default());
            if let (Err(e), None) = (&r, &p.c_fired) {
                panicked("ParameterList::new", e);
            }
        }
        let what = list_step(&mut l, &mut m);
        ev(|| format!("{}: {:?}", what, m));
        state(simrt::fnv(m.len() as u64, what.as_bytes()));
        judge(&l, &m, what);
        if chance(80) {
            // What a serializer is fed with by the list.
            let r = match sut(|| l.serialize(Recorder::new())) {
                Ok(r) => r,
                Err(p) => panicked("serializing", &p),
            };
            judge_records(&r, &merged(&texts(AsRef::<[(Key, Val)]>::as_ref(&l).iter()), &[]), "the list");
        }
    }
    other_lists();
    simrt::probe_n("list.pairs", m.len() as u64);
}

// ------------------------------------------------------------------------------------- serializers

/// One call of a serializer.
#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    P(String, Val2),
    O(usize),
}

#[derive(Clone, Debug)]
pub struct Val2 {
    /// What it displays.
    text: String,
    frag: Frag,
    /// By `serialize_parameter_encoded`.
    enc: bool,
}

impl PartialEq for Val2 {
    fn eq(&self, o: &Val2) -> bool {
        self.text == o.text && self.enc == o.enc
    }
}

const O: [&str; 8] = [
    "oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature_method", "oauth_timestamp", "oauth_token",
    "oauth_verifier", "oauth_version",
];

pub fn feed<S: Serializer>(s: &mut S, c: &Call) {
    match c {
        Call::P(k, v) => {
            let val = Val::new(&*v.text, v.frag);
            if v.enc {
                s.serialize_parameter_encoded(k, val)
            } else {
                s.serialize_parameter(k, val)
            }
        }
        Call::O(i) => match i {
            0 => s.serialize_oauth_callback(),
            1 => s.serialize_oauth_consumer_key(),
            2 => s.serialize_oauth_nonce(),
            3 => s.serialize_oauth_signature_method(),
            4 => s.serialize_oauth_timestamp(),
            5 => s.serialize_oauth_token(),
            6 => s.serialize_oauth_verifier(),
            _ => s.serialize_oauth_version(),
        },
    }
}

/// The calls for sorted pairs with the protocol parameters merged in.
fn merged(pairs: &[Pair], enc: &[bool]) -> Vec<Call> {
    let mut out = Vec::new();
    let mut i = 0;
    for (n, (k, v)) in pairs.iter().enumerate() {
        while i < 8 && O[i] < &**k {
            out.push(Call::O(i));
            i += 1;
        }
        let enc = enc.get(n).copied().unwrap_or(false);
        let text = if enc { pct(v.as_bytes()) } else { v.clone() };
        out.push(Call::P(k.clone(), Val2 { text, frag: Frag::default(), enc }));
    }
    out.extend((i..8).map(Call::O));
    out
}

fn as_call(r: &Record) -> Call {
    match r {
        Record::Parameter(k, v) => Call::P(k.clone(), Val2 { text: v.clone(), frag: Frag::default(), enc: false }),
        Record::ParameterEncoded(k, v) => Call::P(k.clone(), Val2 { text: v.clone(), frag: Frag::default(), enc: true }),
        Record::Callback => Call::O(0),
        Record::ConsumerKey => Call::O(1),
        Record::Nonce => Call::O(2),
        Record::SignatureMethod => Call::O(3),
        Record::Timestamp => Call::O(4),
        Record::Token => Call::O(5),
        Record::Verifier => Call::O(6),
        Record::Version => Call::O(7),
    }
}

fn judge_records(r: &[Record], want: &[Call], what: &str) {
    eval();
    let got: Vec<Call> = r.iter().map(as_call).collect();
    check!(got == want, "recorder", "{}: the recorder reports {:?} instead of {:?}", what, got, want);
}

/// An ordered sequence of calls: possibly without some protocol parameters.
pub fn gen_calls() -> Vec<Call> {
    let ps = op::gen_params(Rk::Manual, 6, true);
    let pairs: Vec<Pair> = ps.iter().map(|p| (p.k.clone(), p.v.clone())).collect();
    let enc: Vec<bool> = ps.iter().map(|p| p.enc).collect();
    let mut calls = merged(&pairs, &enc);
    let mut n = 0;
    for c in calls.iter_mut() {
        if let Call::P(_, v) = c {
            v.frag = ps[n].frag;
            n += 1;
        }
    }
    if chance(110) {
        let drop = draw(simrt::GEN, 256);
        calls.retain(|c| !matches!(c, Call::O(i) if drop >> i & 1 == 1));
    }
    calls
}

/// Values that display without writing anything, numbers, and so on.
struct Silent;
impl std::fmt::Display for Silent {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}

fn recorder(calls: &[Call]) {
    let r = sut(|| {
        let mut r = Recorder::new();
        let mut lens = Vec::new();
        for c in calls {
            feed(&mut r, c);
            lens.push(r.history().len());
        }
        let c = r.clone();
        let eq = c == r;
        (r.history().to_vec(), r.end(), c.end(), lens, eq)
    });
    let (h, r, c, lens, eq) = match r {
        Ok(x) => x,
        Err(p) => panicked("the recorder", &p),
    };
    judge_records(&r, calls, "after all calls");
    judge_records(&h, calls, "the history");
    judge_records(&c, calls, "a clone");
    check!(eq, "recorder", "a recorder differs from its clone: {:?}", calls);
    check!(lens.iter().copied().eq(1..calls.len() + 1), "recorder", "the history grows like {:?}", lens);
    // Records are equal exactly if the calls were.
    let other = gen_calls();
    let all: Vec<Record> = match sut(|| {
        let mut s = Recorder::new();
        other.iter().for_each(|c| feed(&mut s, c));
        s.end()
    }) {
        Ok(o) => o.into_iter().chain(r.iter().cloned()).collect(),
        Err(p) => panicked("the recorder", &p),
    };
    for _ in 0..6 {
        if all.is_empty() {
            break;
        }
        let (a, b) = (&all[below(all.len())], &all[below(all.len())]);
        let want = as_call(a) == as_call(b);
        eval();
        check!((a == b) == want, "record-equality", "{:?} == {:?} is {}", a, b, !want);
        // Of other types.
        if let Record::Parameter(k, v) = a {
            let f = Frag { mode: draw(FAULT, NFRAG as u32) as u8, seed: draw(FAULT, 1 << 16) };
            let x: Record<Key, Val> = Record::Parameter(Key(k.clone()), Val::new(&**v, f));
            check!((x == *b) == want && (*b == x) == want, "record-equality", "{:?} == {:?} in fragments is {}", a, b, !want);
            let y: Record<&str, Silent> = Record::Parameter(&**k, Silent);
            let empty = v.is_empty();
            check!((y == *a) == empty && (*a == y) == empty, "record-equality", "{:?} == an empty value is {}", a, !empty);
        }
    }
    let all8: Vec<Call> = Record::<String, String>::OAUTH_PARAMETERS.iter().map(as_call).collect();
    check!(all8 == (0..8).map(Call::O).collect::<Vec<_>>(), "recorder", "OAUTH_PARAMETERS is {:?}", all8);
    let r = sut(|| {
        let mut r = Recorder::default();
        r.serialize_oauth_parameters();
        r.end()
    });
    match r {
        Ok(r) => judge_records(&r, &all8, "serialize_oauth_parameters"),
        Err(p) => panicked("serialize_oauth_parameters", &p),
    }
}

fn urlencoder(calls: &[Call]) {
    let want: Vec<Pair> = calls
        .iter()
        .filter_map(|c| match c {
            Call::P(k, v) => Some((k.clone(), if v.enc { v.text.clone() } else { pct(v.text.as_bytes()) })),
            _ => None,
        })
        .collect();
    let uri = gen::uri();
    let kind = below(3);
    let pre = if kind == 2 { gen::text() } else { String::new() };
    let r = sut(|| {
        fn run<W: std::fmt::Write>(mut e: Urlencoder<W>, calls: &[Call]) -> W {
            calls.iter().for_each(|c| feed(&mut e, c));
            e.end()
        }
        match kind {
            0 => run(Urlencoder::form(), calls),
            1 => run(Urlencoder::query(uri.clone()), calls),
            _ => {
                let b = FBuf::new(&pre);
                let s = run(Urlencoder::form_with_buf(b), calls).data.lock().unwrap().clone();
                s
            }
        }
    });
    let got = match r {
        Ok(g) => g,
        Err(p) => panicked("the encoder", &p),
    };
    let body = want.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join("&");
    let want = match kind {
        0 => body,
        1 if body.is_empty() => uri,
        1 => format!("{}?{}", uri, body),
        _ => format!("{}{}", pre, body),
    };
    eval();
    check!(got == want, "encoder", "{:?} instead of {:?} for {:?}", got, want, calls);
    ev(|| format!("urlencoder: {}", got));
}

struct Auth {
    o: Op,
    calls: Vec<Call>,
}

impl WithSm for Auth {
    type R = ();
    fn call<SM: SignatureMethod + Clone + Send + Sync + 'static>(self, sm: SM) {
        let (o, calls) = (self.o, self.calls);
        let client = Credentials::new(&*o.ck, &*o.cs);
        let token = o.tok.as_ref().map(|(a, b)| Credentials::new(&**a, &**b));
        let mut opts = auth::Options::new();
        opts.callback(o.cb.as_deref())
            .verifier(o.ver.as_deref())
            .nonce(o.nonce.as_deref())
            .timestamp(o.ts.and_then(NonZeroU64::new))
            .version(o.version);
        let uri = &Val::uri(&*o.uri, o.uri_frag);
        fn run<SM: SignatureMethod, W: std::fmt::Write>(mut a: Authorizer<'_, SM, W>, calls: &[Call]) -> W {
            calls.iter().for_each(|c| feed(&mut a, c));
            a.end()
        }
        let m = &*o.method;
        let r = sut(|| match o.out() {
            Out::Header => run(Authorizer::authorization(m, uri, client, token, &opts, sm), &calls),
            Out::Form => run(Authorizer::form(m, uri, client, token, &opts, sm), &calls),
            Out::Query => run(Authorizer::query(m, o.uri.clone(), client, token, &opts, sm), &calls),
        });
        let text = match r.and_then(|t| o.strip(t)) {
            Ok(t) => t,
            Err(p) => panicked(&format!("feeding {:?} for {}", calls, o.brief()), &p),
        };
        ev(|| format!("{:?} -> {}", calls, text));
        // In order, what was fed.
        let protocol = |i: usize| -> Option<String> {
            match i {
                0 => o.cb.clone(),
                1 => Some(o.ck.clone()),
                2 => o.nonce.clone(),
                3 => Some(o.sm.name().into()),
                4 => o.ts.map(|t| t.to_string()),
                5 => o.tok.as_ref().map(|t| t.0.clone()),
                6 => o.ver.clone(),
                _ => if o.version { Some("1.0".into()) } else { None },
            }
        };
        let mut want: Vec<Pair> = Vec::new();
        let mut signed: Vec<Pair> = Vec::new();
        for c in &calls {
            match c {
                Call::P(k, v) => {
                    let text = if v.enc { match model::unpct_strict(&v.text) { Ok(t) => t, Err(e) => violation("harness", e) } } else { v.text.clone() };
                    signed.push((k.clone(), text.clone()));
                    if o.out() != Out::Header {
                        want.push((k.clone(), text));
                    }
                }
                Call::O(i) => {
                    if let Some(v) = protocol(*i) {
                        signed.push((O[*i].into(), v.clone()));
                        want.push((O[*i].into(), v));
                    }
                }
            }
        }
        eval();
        let parsed = match o.out() {
            Out::Header => parse_header(&text),
            Out::Form => parse_form(&text),
            Out::Query => parse_form(text.strip_prefix('?').unwrap_or(&text)),
        };
        let mut got = match parsed {
            Ok(g) => g,
            Err(e) => violation("encoder", format!("{} in {:?}, fed with {:?}: {}", e, text, calls, o.brief())),
        };
        let sigs: Vec<Pair> = got.iter().filter(|p| p.0 == "oauth_signature").cloned().collect();
        got.retain(|p| p.0 != "oauth_signature");
        check!(got == want, "encoder", "{:?} instead of {:?}, fed with {:?}: {}", got, want, calls, o.brief());
        check!(sigs.len() == 1, "encoder", "{} signatures in {:?}: {}", sigs.len(), text, o.brief());
        let base = model::base_string(&o.method, &o.uri, &signed);
        if let Err(e) = op::signature_ok(o.sm.alg(), &base, &o.cs, o.tok.as_ref().map(|t| &*t.1), o.key, &sigs[0].1) {
            violation("encoder", format!("{}, fed with {:?}: {}", e, calls, o.brief()));
        }
        probe("serializer.authorizer");
    }
}

pub fn serializers() {
    world::swarm();
    for _ in 0..1 + below(3) {
        let calls = gen_calls();
        ev(|| format!("{:?}", calls));
        recorder(&calls);
        urlencoder(&calls);
        let mut o = op::gen_op(op::OpCfg { pinned: true, entries: Some(&[34, 35, 36]), max_params: 0, ..op::CFG });
        o.params.clear();
        state(simrt::fnv(o.shape(), format!("{}", calls.len()).as_bytes()));
        let x = o.clone();
        x.with_sm(Auth { o, calls });
        // What every kind of request feeds a serializer with.
        let o = op::gen_op(op::OpCfg { max_params: 5, ..op::CFG });
        let req = match sut(|| o.request()) {
            Ok(r) => r,
            Err(p) => panicked("building a request", &p),
        };
        let r = match sut(|| req.serialize(Recorder::new())) {
            Ok(r) => r,
            Err(p) => panicked("serializing", &p),
        };
        let mut ps = o.params.clone();
        op::sort_params(&mut ps);
        let pairs: Vec<Pair> = ps.iter().map(|p| (p.k.clone(), p.v.clone())).collect();
        let enc: Vec<bool> = ps.iter().map(|p| p.enc && matches!(o.rk, Rk::Manual | Rk::Derived)).collect();
        judge_records(&r, &merged(&pairs, &enc), &format!("{:?}", o.rk));
        probe(&format!("serializer.request.{:?}", o.rk));
        // The same of a sorted iterator of other types.
        let r = sut(|| AssertSorted::new(pairs.iter().map(|p| (&p.0, &p.1))).serialize(Recorder::new()));
        match r {
            Ok(r) => judge_records(&r, &merged(&pairs, &[]), "AssertSorted"),
            Err(p) => panicked("AssertSorted", &p),
        }
    }
}
