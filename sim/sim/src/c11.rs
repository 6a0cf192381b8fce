//! C11: secrets never leave the library.

use std::collections::HashSet;
use std::fmt::Debug;
use std::num::NonZeroU64;
use std::sync::OnceLock;

use either::Either;
use model::{b64, pct};
use oauth::serializer::auth::{self, Authorizer};
use oauth::serializer::{Serializer, SerializerExt};
use oauth::signature_method::{rsa_sha1_06, rsa_sha1_09, Plaintext, Sign, SignatureMethod};
use oauth::{Credentials, Token};
use simrt::{below, chance, check, draw, eval, ev, probe, rt, state, sut, violation, Panicked, Rng, FAULT, GEN};

use crate::gen;
use crate::harness::*;
use crate::op::{self, Alg, Op, Out, Sm};
use crate::world;

// ------------------------------------------------------------------------------ what to look for

const LENS: [usize; 4] = [12, 16, 18, 20];

/// Pieces of the representations of secrets, any of which gives the secret away.
#[derive(Clone, Default)]
pub struct Needles {
    sets: [HashSet<u64>; 4],
}

impl Needles {
    fn add(&mut self, len: usize, text: &[u8]) {
        let i = LENS.iter().position(|&l| l == len).unwrap();
        for w in text.windows(len) {
            self.sets[i].insert(simrt::fnv(0, w));
        }
    }

    fn add_bytes(&mut self, b: &[u8]) {
        let hex: String = b.iter().map(|b| format!("{:02x}", b)).collect();
        self.add(16, hex.as_bytes());
        self.add(16, hex.to_uppercase().as_bytes());
        for k in 0..3 {
            let mut v = vec![0u8; k];
            v.extend(b);
            let e = b64(&v);
            let e = e.trim_end_matches('=');
            if e.len() > 8 {
                self.add(12, &e.as_bytes()[4..e.len() - 2]);
                self.add(12, e[4..e.len() - 2].replace('+', "-").replace('/', "_").as_bytes());
            }
        }
        let list = b.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ");
        self.add(20, list.as_bytes());
        let list = b.iter().map(|b| format!("{:x}", b)).collect::<Vec<_>>().join(", ");
        self.add(20, list.as_bytes());
    }

    pub fn secret(&mut self, s: &str) {
        if s.bytes().any(|b| !b.is_ascii() || b == b'\n' || b == b'\t') {
            // Encoded, these characters would be pieces that can occur by chance.
            s.split(|c: char| !c.is_ascii_alphanumeric()).filter(|s| s.len() >= 12).for_each(|s| self.secret(s));
            return;
        }
        self.add(12, s.as_bytes());
        let once = pct(s.as_bytes());
        self.add(12, once.as_bytes());
        self.add(12, pct(once.as_bytes()).as_bytes());
        self.add_bytes(s.as_bytes());
        for pad in [0x36u8, 0x5c] {
            let x: Vec<u8> = once.bytes().map(|b| b ^ pad).collect();
            self.add_bytes(&x);
        }
    }

    fn integer(&mut self, be: &[u8]) {
        self.add_bytes(be);
        let mut le = be.to_vec();
        le.reverse();
        self.add_bytes(&le);
        // The decimal text, and the limbs'.
        let mut digits: Vec<u8> = vec![0];
        for &b in be {
            let mut carry = b as u32;
            for d in digits.iter_mut() {
                let v = *d as u32 * 256 + carry;
                *d = (v % 10) as u8;
                carry = v / 10;
            }
            while carry > 0 {
                digits.push((carry % 10) as u8);
                carry /= 10;
            }
        }
        let text: Vec<u8> = digits.iter().rev().map(|d| d + b'0').collect();
        self.add(18, &text);
        for limb in le.chunks(8) {
            let v = limb.iter().rev().fold(0u64, |a, &b| a << 8 | b as u64);
            self.add(18, v.to_string().as_bytes());
        }
        let limbs = le.chunks(4).map(|l| l.iter().rev().fold(0u32, |a, &b| a << 8 | b as u32).to_string());
        self.add(20, limbs.collect::<Vec<_>>().join(", ").as_bytes());
    }

    /// The first piece of the text that is in the set.
    fn find<'a>(&self, text: &'a [u8], hashes: &[Vec<u64>; 4]) -> Option<&'a [u8]> {
        (0..4).find_map(|i| {
            let s = &self.sets[i];
            if s.is_empty() { None } else { hashes[i].iter().position(|h| s.contains(h)).map(|at| &text[at..at + LENS[i]]) }
        })
    }
}

fn hashes(text: &[u8]) -> [Vec<u64>; 4] {
    LENS.map(|l| text.windows(l).map(|w| simrt::fnv(0, w)).collect())
}

/// The parts of a private key.
fn private_parts(pkcs8: &[u8]) -> Vec<Vec<u8>> {
    fn tlv(b: &[u8]) -> (u8, &[u8], &[u8]) {
        let (n, h) = if b[1] < 0x80 {
            (b[1] as usize, 2)
        } else {
            let k = (b[1] & 0x7f) as usize;
            (b[2..2 + k].iter().fold(0usize, |a, &x| a << 8 | x as usize), 2 + k)
        };
        (b[0], &b[h..h + n], &b[h + n..])
    }
    let (_, seq, _) = tlv(pkcs8);
    let (_, _, rest) = tlv(seq);
    let (_, _, rest) = tlv(rest);
    let (_, key, _) = tlv(rest);
    let (_, mut key, _) = tlv(key);
    let mut ints = Vec::new();
    while !key.is_empty() {
        let (_, v, rest) = tlv(key);
        ints.push(v.iter().copied().skip_while(|&b| b == 0).collect::<Vec<u8>>());
        key = rest;
    }
    // version, n, e, d, p, q, dp, dq, qinv
    ints.drain(..3);
    ints
}

static KEY_NEEDLES: OnceLock<Needles> = OnceLock::new();

fn key_needles() -> &'static Needles {
    KEY_NEEDLES.get().unwrap()
}

pub fn init() {
    let mut n = Needles::default();
    for d in op::DER.iter() {
        for i in private_parts(d) {
            assert!(i.len() > 20);
            n.integer(&i);
        }
    }
    let _ = KEY_NEEDLES.set(n);
}

/// Secrets no part of which can occur by chance (so at most one special character).
fn secret(salt: usize) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    let mut r = Rng(simrt::mix(draw(GEN, u32::MAX) as u64, 0x5EC2E7 + salt as u64));
    let mut word = |n: usize| (0..n).map(|_| A[(r.next() >> 20) as usize % A.len()] as char).collect::<String>();
    let s = ["", "&", "%", "+", " ", "/", "=", "\"", "~", "\0", "\u{e9}", "\u{4e2d}", "\u{1f511}", "\n", "\t"][below(15)];
    let n = 14 + below(12);
    let a = word(n);
    let b = word(16);
    if chance(30) { format!("{}{}{}", word(30), a, b) } else { format!("{}{}{}", a, s, b) }
}

struct World {
    /// The secrets of the operations so far.
    ops: Vec<Needles>,
}

impl World {
    /// `own`: the operation whose own secret may occur here (a PLAINTEXT signature).
    fn check(&self, what: &str, text: &str, own: Option<usize>, o: &Op) {
        eval();
        let collapsed: Vec<u8>;
        let mut bytes = text.as_bytes();
        if text.contains('\n') {
            collapsed = text.split_whitespace().collect::<Vec<_>>().join(" ").into_bytes();
            bytes = &collapsed;
        }
        let hashes = hashes(bytes);
        for (i, n) in self.ops.iter().enumerate() {
            if own == Some(i) {
                continue;
            }
            if let Some(w) = n.find(bytes, &hashes) {
                violation("secret-leaked", format!("{} contains {:?} of a secret: {:?}: {}", what, String::from_utf8_lossy(w), text, o.brief()));
            }
        }
        if let Some(w) = key_needles().find(bytes, &hashes) {
            violation("key-leaked", format!("{} contains {:?} of a private key: {:?}: {}", what, String::from_utf8_lossy(w), text, o.brief()));
        }
    }

    fn debug<D: Debug + ?Sized>(&self, what: &str, d: &D, o: &Op) {
        probe("debug.formatted");
        match sut(|| (format!("{:?}", d), format!("{:#?}", d), format!("{:02x?}", d))) {
            Ok((a, b, c)) => {
                self.check(&format!("the debug output of {}", what), &a, None, o);
                self.check(&format!("the debug output of {}", what), &b, None, o);
                self.check(&format!("the debug output of {}", what), &c, None, o);
            }
            Err(p) => violation("panic", format!("formatting {} panicked: {} at {}", what, p.msg, p.loc)),
        }
    }

    fn panic(&self, p: &Panicked, o: &Op) {
        probe("panic.messages");
        self.check("a panic message", &p.msg, None, o);
    }

    /// A message: with PLAINTEXT the operation's own secrets are in its signature, and only there.
    fn message(&self, text: &str, i: usize, o: &Op) {
        if o.sm.alg() != Alg::Plain {
            return self.check("a message", text, None, o);
        }
        let sep = if o.out() == Out::Header { "oauth_signature=\"" } else { "oauth_signature=" };
        match text.rfind(sep) {
            Some(at) => {
                let (head, tail) = text.split_at(at + sep.len());
                let end = tail.find(['"', '&', ',']).unwrap_or(tail.len());
                self.check("a message outside of its signature", head, None, o);
                self.check("a message outside of its signature", &tail[end..], None, o);
                self.check("a signature", &tail[..end], Some(i), o);
            }
            None => self.check("a message without a signature", text, None, o),
        }
    }
}

pub trait WithDbg {
    type R;
    fn call<SM>(self, sm: SM) -> Self::R
    where
        SM: SignatureMethod + Clone + Debug + 'static,
        SM::Sign: Debug + Clone;
}

pub fn with_dbg<V: WithDbg>(o: &Op, v: V) -> V::R {
    let k = op::keys();
    match o.sm {
        Sm::Hmac => v.call(oauth::HMAC_SHA1),
        Sm::Plain => v.call(oauth::PLAINTEXT),
        Sm::PlainBuf => v.call(Plaintext::<PBuf>::with_buf()),
        Sm::Rsa06 => v.call(k.m06[o.key].clone()),
        Sm::Rsa06Ref => v.call(<_ as AsRef<rsa_sha1_06::RsaSha1>>::as_ref(&k.k06[o.key])),
        Sm::Rsa09 => v.call(k.m09[o.key].clone()),
        Sm::Rsa09Ref => v.call(<_ as AsRef<rsa_sha1_09::RsaSha1>>::as_ref(&k.k09[o.key])),
        Sm::EitherHp(r) => v.call(if r { Either::Right(oauth::PLAINTEXT) } else { Either::Left(oauth::HMAC_SHA1) }),
        Sm::EitherRh(r) => v.call(if r { Either::Right(oauth::HMAC_SHA1) } else { Either::Left(&k.m06[o.key]) }),
        Sm::EitherNest(i) => v.call(match i {
            0 => Either::Left(Either::Left(oauth::HMAC_SHA1)),
            1 => Either::Left(Either::Right(oauth::PLAINTEXT)),
            _ => Either::Right(&k.m09[o.key]),
        }),
    }
}

/// Looks at everything that can be formatted, half-way through and after failures.
struct Look<'a> {
    w: &'a World,
    o: &'a Op,
    stop: usize,
    steps: usize,
    fault: u32,
    /// What was formatted.
    seen: &'a mut Vec<(String, String)>,
}

impl WithDbg for Look<'_> {
    type R = ();
    fn call<SM>(self, sm: SM)
    where
        SM: SignatureMethod + Clone + Debug + 'static,
        SM::Sign: Debug + Clone,
    {
        let Look { o, stop, steps, fault, .. } = self;
        let w = &mut Seen { w: self.w, seen: self.seen };
        w.debug("a signature method", &sm, o);
        w.debug("a signature method reference", &&sm, o);
        let client = Credentials::new(&*o.ck, &*o.cs);
        w.debug("credentials", &client, o);
        w.debug("credentials", &client.map(String::from), o);
        w.debug("optional credentials", &o.tok.as_ref().map(|t| Credentials::new(&*t.0, &*t.1)), o);
        if let Some((ref t, ref ts)) = o.tok {
            let token = Token::from_parts(&*o.ck, &*o.cs, &**t, &**ts);
            w.debug("a token", &token, o);
            w.debug("a token", &token.map(String::from), o);
            w.debug("a token", &[token.client, token.token], o);
        }
        match sut(|| o.builder(sm.clone())) {
            Ok(b) => {
                w.debug("a builder", &b, o);
                w.debug("a cloned builder", &Some(b.clone()), o);
            }
            Err(p) => w.panic(&p, o),
        }
        // The states that a signature goes through.
        match sut(|| {
            let mut s = sm.clone().sign_with(&o.cs, o.tok.as_ref().map(|t| &*t.1));
            let steps: [&dyn Fn(&mut SM::Sign); 6] = [
                &|s| s.request_method(&o.method),
                &|s| s.uri(pct(o.uri.as_bytes())),
                &|s| s.consumer_key("x"),
                &|s| s.delimiter(),
                &|s| s.parameter("p", Val::new("value", Frag { mode: 1, seed: 0 })),
                &|s| s.signature_method(),
            ];
            steps[..stop.min(6)].iter().for_each(|f| f(&mut s));
            s
        }) {
            Ok(s) => {
                w.debug("a signature in progress", &s, o);
                w.debug("a signature in progress", &Some(s.clone()), o);
            }
            Err(p) => w.panic(&p, o),
        }
        // The states that a serializer goes through, up to a failure.
        let mut opts = auth::Options::new();
        opts.callback(o.cb.as_deref()).verifier(o.ver.as_deref()).nonce(o.nonce.as_deref()).timestamp(o.ts.and_then(NonZeroU64::new));
        w.debug("options", &opts, o);
        let token = o.tok.as_ref().map(|(a, b)| Credentials::new(&**a, &**b));
        let r = sut(|| {
            let uri = if fault == 1 { format!("{}?q", o.uri) } else { o.uri.clone() };
            let client = Credentials::new(&*o.ck, &*o.cs);
            let mut a = match o.out() {
                Out::Header => Authorizer::authorization(&o.method, uri, client, token, &opts, sm.clone()),
                Out::Form => Authorizer::form(&o.method, uri, client, token, &opts, sm.clone()),
                Out::Query => Authorizer::query(&o.method, uri, client, token, &opts, sm.clone()),
            };
            if steps > 0 {
                a.serialize_parameter("a", Val::new("x", Frag::default()));
            }
            if steps > 1 {
                a.serialize_oauth_parameters();
            }
            if steps > 2 {
                // Out of order: a panic with debug assertions.
                a.serialize_parameter(if fault == 2 { "b" } else { "z" }, 1);
            }
            let text = format!("{:?}{:#?}", a, a.clone());
            (text, if steps > 3 { Some(a.end()) } else { None })
        });
        match r {
            Ok((t, _)) => {
                w.w.check("the debug output of a serializer", &t, None, o);
                w.seen.push(("the debug output of a serializer".into(), t));
            }
            Err(p) => w.panic(&p, o),
        }
    }
}

/// Checks and records what was formatted.
struct Seen<'a> {
    w: &'a World,
    seen: &'a mut Vec<(String, String)>,
}

impl Seen<'_> {
    fn debug<D: Debug + ?Sized>(&mut self, what: &str, d: &D, o: &Op) {
        self.w.debug(what, d, o);
        self.seen.push((format!("the debug output of {}", what), format!("{:?} {:#?}", d, d)));
    }

    fn panic(&mut self, p: &Panicked, o: &Op) {
        self.w.panic(p, o);
        self.seen.push((format!("the panic message at {}", p.loc), p.msg.clone()));
    }
}

/// The operation with other secrets of the same shape, no character of which is the same.
fn other_secrets(o: &Op) -> Op {
    let rot = |s: &str| {
        s.chars()
            .map(|c| match c {
                'a'..='z' => ((c as u8 - b'a' + 7) % 26 + b'a') as char,
                'A'..='Z' => ((c as u8 - b'A' + 7) % 26 + b'A') as char,
                '0'..='9' => ((c as u8 - b'0' + 3) % 10 + b'0') as char,
                c => c,
            })
            .collect::<String>()
    };
    let mut o = o.clone();
    o.cs = rot(&o.cs);
    if let Some(ref mut t) = o.tok {
        t.1 = rot(&t.1);
    }
    o
}

/// A call that the library may refuse, or answer with nonsense: only what it gives away counts.
fn malform(o: &mut Op) {
    probe("call.malformed");
    for _ in 0..1 + draw(FAULT, 2) {
        match draw(FAULT, 6) {
            0 if op::ENTRIES[o.entry].2.is_none() => {
                o.method = match below(4) {
                    0 => ["", " ", "get", "GET ", "G T", "\r\n", "GÉT", "GET\0"][below(8)].to_string(),
                    _ => gen::text(),
                }
            }
            0 | 1 => {
                o.uri = match below(5) {
                    0 => gen::text(),
                    1 => format!("{}?{}", o.uri, gen::text()),
                    2 => format!("{}#{}", o.uri, gen::text()),
                    3 => o.uri.to_uppercase(),
                    _ => o.uri.trim_start_matches("http").to_string(),
                }
            }
            2 => o.ck = String::new(),
            3 => {
                o.rk = [op::Rk::Manual, op::Rk::Sorted][below(2)];
                o.params.reverse();
            }
            4 => {
                o.rk = [op::Rk::Manual, op::Rk::Sorted, op::Rk::ListNew][below(3)];
                let k = if below(2) == 0 { gen::PROTOCOL[below(gen::PROTOCOL.len())].to_string() } else { gen::text() };
                let at = below(o.params.len() + 1);
                o.params.insert(at, op::P { k, v: gen::text(), enc: false, frag: Frag::default(), nested: None });
            }
            _ => match below(4) {
                0 => o.nonce = Some(String::new()),
                1 => o.cb = Some(String::new()),
                2 => o.ver = Some(String::new()),
                _ => o.ts = Some(u64::MAX),
            },
        }
    }
}

/// Nothing that is formatted depends on the secrets.
fn look(w: &World, o: &Op) {
    let (stop, steps, fault) = (below(7), below(5), draw(FAULT, 4));
    let mut o = o.clone();
    if chance(160) {
        o.nonce.get_or_insert_with(|| "n".into());
        o.ts.get_or_insert(1_600_000_000);
    }
    let bad = chance(60);
    if bad {
        malform(&mut o);
    }
    let o = &o;
    let mut seen = Vec::new();
    with_dbg(o, Look { w, o, stop, steps, fault, seen: &mut seen });
    if o.nonce.is_none() || o.ts.is_none() {
        return;
    }
    // The pinned nonce and timestamp have no effect on the messages of the free functions.
    let free = op::entry_is_free(o.entry);
    let other = other_secrets(o);
    let mut seen2 = Vec::new();
    with_dbg(&other, Look { w, o: &other, stop, steps, fault, seen: &mut seen2 });
    for ((what, a), (what2, b)) in seen.iter().zip(&seen2) {
        eval();
        check!(
            what != what2 || a == b, "depends-on-secret",
            "{} depends on a secret: {:?} with the secrets {:?} {:?}, {:?} with {:?} {:?}", what, a, o.cs, o.tok, b, other.cs, other.tok
        );
    }
    if free || bad {
        return;
    }
    // Nor does a message outside of its signature, nor with RSA-SHA1.
    let text = |o: &Op| match o.exec() {
        Ok(d) => d.text,
        Err(p) => violation("panic", format!("{} panicked: {} at {}", o.brief(), p.msg, p.loc)),
    };
    let (a, b) = (text(o), text(&other));
    let cut = |t: &str| if o.sm.alg() == Alg::Rsa { t.to_owned() } else { t[..t.rfind("oauth_signature=").unwrap_or(t.len())].to_owned() };
    eval();
    probe("messages.compared");
    check!(cut(&a) == cut(&b), "depends-on-secret", "more than the signature of a message depends on a secret: {:?} {:?}: {}", a, b, o.brief());
}

pub fn secrets() {
    world::swarm();
    let mut w = World { ops: Vec::new() };
    let mut ops: Vec<Op> = Vec::new();
    for i in 0..1 + below(3) {
        let mut o = op::gen_op(op::OpCfg { max_params: 3, ..op::CFG });
        o.cs = secret(2 * i);
        if let Some(ref mut t) = o.tok {
            t.1 = secret(2 * i + 1);
        }
        // With the same client or token as another one.
        if let (Some(p), true) = (ops.last(), chance(40)) {
            o.ck = p.ck.clone();
        }
        let mut n = Needles::default();
        n.secret(&o.cs);
        if let Some(ref t) = o.tok {
            n.secret(&t.1);
        }
        w.ops.push(n);
        state(o.shape());
        ops.push(o);
    }
    for _ in 0..1 + below(4) {
        let i = below(ops.len());
        let o = &ops[i];
        match below(5) {
            0 | 1 => {
                let req = match sut(|| o.request()) {
                    Ok(r) => r,
                    Err(p) => {
                        w.panic(&p, o);
                        continue;
                    }
                };
                match o.exec_with(&req) {
                    Ok(d) => {
                        ev(|| format!("{} -> {}", o.brief(), d.text));
                        w.message(&d.text, i, o)
                    }
                    Err(p) => violation("panic", format!("{} panicked: {} at {}", o.brief(), p.msg, p.loc)),
                }
                match crate::c01::body(o, &req) {
                    Ok(b) => w.check("an unsigned form or query", &b, None, o),
                    Err(p) => w.panic(&p, o),
                }
            }
            2 | 3 => {
                // Something fails.
                let mut o = o.clone();
                let bad = chance(90);
                if bad {
                    malform(&mut o);
                }
                let o = &o;
                let req = match sut(|| o.request()) {
                    Ok(r) => r,
                    Err(p) => {
                        w.panic(&p, o);
                        continue;
                    }
                };
                let mut p = Plan::default();
                let at = draw(FAULT, 30) as u64;
                let mut e = simrt::EntropyPlan::default();
                std::mem::swap(&mut e, &mut rt().entropy);
                rt().entropy = e.clone();
                match draw(FAULT, if bad { 12 } else { 6 }) {
                    6.. => {}
                    0 => p.c_fail = Some((at, CMode::Err)),
                    1 => p.c_fail = Some((at, CMode::Panic)),
                    2 => p.w_fail = Some((at, WMode::Err)),
                    3 => p.w_fail = Some((at, WMode::Torn)),
                    4 => p.w_fail = Some((at, WMode::Panic)),
                    _ => {
                        rt().entropy.fail_at = Some((rt().entropy.reads, 1));
                        rt().entropy.errno = libc::EIO;
                    }
                }
                let mut buf = None;
                set_plan(p);
                let r = o.exec_keep(&req, &mut buf);
                set_plan(Plan::default());
                rt().entropy = e;
                ev(|| format!("failing: {} -> {:?}", o.brief(), r.is_ok()));
                // Where the signature of a malformed message is cannot be told.
                let told = !bad || o.sm.alg() != Alg::Plain;
                match r {
                    Ok(d) if told => w.message(&d.text, i, o),
                    Ok(_) => {}
                    Err(p) => {
                        w.panic(&p, o);
                        if let (Some(b), true) = (buf, told) {
                            let t = b.data.lock().unwrap_or_else(|e| e.into_inner()).clone();
                            probe("buffer.after_failure");
                            w.message(&t, i, o);
                        }
                    }
                }
            }
            _ => look(&w, o),
        }
    }
}
