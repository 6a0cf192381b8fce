//! One node: executes an operation that arrives as text, answers with text.

use std::cell::RefCell;
use std::fmt::{self, Display, Formatter, Write};
use std::num::NonZeroU64;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use oauth::request::{AssertSorted, ParameterList, Request};
use oauth::serializer::auth::{self, Authorizer};
use oauth::serializer::{Serializer, Urlencoder};
use oauth::signature_method::{Plaintext, Sign, SignatureMethod};
use oauth::{Builder, Credentials};

/// What this node was built with.
#[no_mangle]
pub extern "C" fn cfg_caps() -> u32 {
    (cfg!(any(feature = "std", feature = "alloc")) as u32)
        | (cfg!(feature = "std") as u32) << 1
        | (cfg!(feature = "hmac") as u32) << 2
        | (cfg!(feature = "rsa") as u32) << 3
        | (cfg!(feature = "derive") as u32) << 4
        | (cfg!(debug_assertions) as u32) << 5
}

/// A value, in pieces. A missing piece is a failure.
#[derive(Clone, Debug)]
struct Val {
    pieces: Vec<Option<String>>,
    mode: u32,
}

impl Display for Val {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        for p in &self.pieces {
            let p = match p {
                Some(p) => p,
                None if self.mode >= 8 => std::panic::panic_any("value"),
                None => return Err(fmt::Error),
            };
            match self.mode & 7 {
                0 => f.write_str(p)?,
                1 => p.chars().try_for_each(|c| f.write_char(c))?,
                2 => f.pad(p)?,
                3 => write!(f, "{}", p)?,
                _ => write!(f, "{}{}", "", format_args!("{}", p))?,
            }
        }
        Ok(())
    }
}

/// A buffer that takes a certain number of bytes and then is full, for good or only for the moment.
#[derive(Clone, Debug)]
struct Buf(Rc<RefCell<(String, usize, bool, bool)>>);

impl Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut b = self.0.borrow_mut();
        if b.2 {
            return Err(fmt::Error);
        }
        if s.len() <= b.1 {
            b.1 -= s.len();
            b.0.push_str(s);
            return Ok(());
        }
        let n = (0..=b.1).rev().find(|&n| s.is_char_boundary(n)).unwrap_or(0);
        b.0.push_str(&s[..n]);
        if b.3 {
            b.1 = usize::MAX / 2;
        } else {
            b.2 = true;
        }
        Err(fmt::Error)
    }
}

impl Display for Buf {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let s = self.0.borrow().0.clone();
        f.write_str(&s)
    }
}

/// PLAINTEXT's buffer.
#[derive(Clone, Debug, Default)]
struct PBuf(String);

impl Write for PBuf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}

impl Display for PBuf {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

/// A signature method of the caller's: a checksum of what it is told. Its sink may fail once.
#[derive(Clone, Debug)]
struct Custom {
    nonce: bool,
    timestamp: bool,
    fail: u64,
}

#[derive(Debug)]
struct CustomSign {
    with: Custom,
    sum: u64,
    writes: u64,
}

impl Write for CustomSign {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.writes += 1;
        if self.writes == self.with.fail {
            return Err(fmt::Error);
        }
        for b in s.bytes() {
            self.sum = (self.sum ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        Ok(())
    }
}

impl SignatureMethod for Custom {
    type Sign = CustomSign;
    fn sign_with(self, a: &str, b: Option<&str>) -> CustomSign {
        let mut s = CustomSign { with: Custom { fail: 0, ..self.clone() }, sum: 0xcbf2_9ce4_8422_2325, writes: 0 };
        write!(s, "{:?};{:?};", a, b).unwrap();
        CustomSign { with: self, sum: s.sum, writes: 0 }
    }
}

impl Sign for CustomSign {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str {
        "X-Sum 64+"
    }
    fn request_method(&mut self, m: &str) {
        write!(self, "{};", m).unwrap();
    }
    fn uri<T: Display>(&mut self, u: T) {
        write!(self, "{};", u).unwrap();
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        write!(self, "{}=", k).unwrap();
        write!(self, "{}", v).unwrap();
    }
    fn delimiter(&mut self) {
        self.write_str("&").unwrap();
    }
    fn use_nonce(&self) -> bool {
        self.with.nonce
    }
    fn use_timestamp(&self) -> bool {
        self.with.timestamp
    }
    fn end(self) -> String {
        format!("{:x}+/= {}", self.sum, self.sum % 10)
    }
}

struct Req {
    kind: u32,
    params: Vec<(String, Val, bool)>,
}

const O: [&str; 8] = [
    "oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature_method", "oauth_timestamp", "oauth_token",
    "oauth_verifier", "oauth_version",
];

fn feed<S: Serializer>(s: &mut S, i: usize) {
    match i {
        0 => s.serialize_oauth_callback(),
        1 => s.serialize_oauth_consumer_key(),
        2 => s.serialize_oauth_nonce(),
        3 => s.serialize_oauth_signature_method(),
        4 => s.serialize_oauth_timestamp(),
        5 => s.serialize_oauth_token(),
        6 => s.serialize_oauth_verifier(),
        _ => s.serialize_oauth_version(),
    }
}

impl Request for Req {
    fn serialize<S: Serializer>(&self, mut ser: S) -> S::Output {
        match self.kind {
            0 => {
                let mut i = 0;
                for (k, v, enc) in &self.params {
                    while i < 8 && O[i] < &**k {
                        feed(&mut ser, i);
                        i += 1;
                    }
                    if *enc {
                        ser.serialize_parameter_encoded(k, v);
                    } else {
                        ser.serialize_parameter(k, v);
                    }
                }
                while i < 8 {
                    feed(&mut ser, i);
                    i += 1;
                }
                ser.end()
            }
            1 => AssertSorted::new(self.params.iter().map(|(k, v, _)| (k, v))).serialize(ser),
            2 => {
                let mut v: Vec<(&str, &Val)> = self.params.iter().map(|(k, v, _)| (&**k, v)).collect();
                ParameterList::<&str, &Val, &mut [(&str, &Val)]>::new(&mut v[..]).serialize(ser)
            }
            #[cfg(any(feature = "std", feature = "alloc"))]
            3 => {
                let v: Vec<(&str, &Val)> = self.params.iter().map(|(k, v, _)| (&**k, v)).collect();
                ParameterList::new(v).serialize(ser)
            }
            #[cfg(feature = "derive")]
            5 => {
                let get = |k: &str| self.params.iter().find(|p| p.0 == k).map(|p| &p.1);
                let none = Val { pieces: Vec::new(), mode: 0 };
                Derived {
                    alpha: get("alpha").unwrap_or(&none),
                    hash: get("oauth_body_hash"),
                    p: get("p").unwrap_or(&none),
                    sess: get("oauth_session_handle").unwrap_or(&none),
                    zz: get("zz"),
                    v1: get("oauth_version1"),
                    r#type: get("type"),
                }
                .serialize(ser)
            }
            _ => ().serialize(ser),
        }
    }
}

#[cfg(feature = "derive")]
#[derive(oauth::Request)]
struct Derived<'a> {
    alpha: &'a Val,
    #[oauth1(rename = "oauth_body_hash")]
    hash: Option<&'a Val>,
    #[oauth1(encoded)]
    p: &'a Val,
    #[oauth1(rename = "oauth_session_handle")]
    sess: &'a Val,
    zz: Option<&'a Val>,
    #[oauth1(encoded, rename = "oauth_version1")]
    v1: Option<&'a Val>,
    r#type: Option<&'a Val>,
}

struct In<'a>(std::str::Split<'a, char>);

impl<'a> In<'a> {
    fn opt(&mut self) -> Option<String> {
        let t = self.0.next().expect("a token");
        if t == "!" {
            return None;
        }
        let b: Vec<u8> = t.as_bytes().chunks(2).map(|h| u8::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap()).collect();
        Some(String::from_utf8(b).unwrap())
    }
    fn text(&mut self) -> String {
        self.opt().expect("a text")
    }
    fn num(&mut self) -> u64 {
        self.text().parse().unwrap()
    }
    fn val(&mut self) -> Val {
        let mode = self.num() as u32;
        let n = self.num();
        Val { mode, pieces: (0..n).map(|_| self.opt()).collect() }
    }
}

struct Op {
    out: u32,
    api: u32,
    method: String,
    uri: Val,
    uri_text: String,
    ck: String,
    cs: String,
    tok: Option<(String, String)>,
    cb: Option<String>,
    ver: Option<String>,
    nonce: Option<String>,
    ts: Option<NonZeroU64>,
    version: bool,
    req: Req,
}

impl Op {
    fn run<SM: SignatureMethod + Clone>(&self, sm: SM, buf: Buf) -> Option<String> {
        let m = &*self.method;
        let uri = &self.uri;
        let req = &self.req;
        let client = Credentials::new(&*self.ck, &*self.cs);
        let tok = self.tok.as_ref().map(|t| Credentials::new(&*t.0, &*t.1));
        let done = |b: Buf| Some(b.0.borrow().0.clone());
        if self.api < 2 {
            let mut o = auth::Options::new();
            o.callback(self.cb.as_deref()).verifier(self.ver.as_deref()).nonce(self.nonce.as_deref()).timestamp(self.ts).version(self.version);
            return match (self.api, self.out) {
                (0, 0) => done(req.serialize(Authorizer::authorization_with_buf(buf, m, uri, client, tok, &o, sm))),
                (0, 1) => done(req.serialize(Authorizer::form_with_buf(buf, m, uri, client, tok, &o, sm))),
                (0, _) => done(req.serialize(Authorizer::query(m, buf, client, tok, &o, sm))),
                #[cfg(any(feature = "std", feature = "alloc"))]
                (1, 0) => Some(req.serialize(Authorizer::authorization(m, uri, client, tok, &o, sm))),
                #[cfg(any(feature = "std", feature = "alloc"))]
                (1, 1) => Some(req.serialize(Authorizer::form(m, uri, client, tok, &o, sm))),
                (_, 2) => Some(req.serialize(Authorizer::query(m, self.uri_text.clone(), client, tok, &o, sm))),
                _ => None,
            };
        }
        let mut b = Builder::<SM, &str, &str>::new(client, sm);
        if let Some(t) = tok {
            b.token(t);
        }
        b.callback(self.cb.as_deref()).verifier(self.ver.as_deref()).nonce(self.nonce.as_deref()).timestamp(self.ts).version(self.version);
        match (self.api, self.out) {
            (2, 0) => done(b.authorize_with_buf(buf, m, uri, req)),
            #[cfg(any(feature = "std", feature = "alloc"))]
            (2, 1) => done(b.to_form_with_buf(buf, m, uri, req)),
            (2, 2) => done(b.to_query(m, buf, req)),
            (3, 0) => done(b.into_authorization_with_buf(buf, m, uri, req)),
            (3, 1) => done(b.into_form_with_buf(buf, m, uri, req)),
            (3, 2) => done(b.into_query(m, buf, req)),
            #[cfg(any(feature = "std", feature = "alloc"))]
            (4, 0) => Some(b.authorize(m, uri, req)),
            #[cfg(any(feature = "std", feature = "alloc"))]
            (4, 1) => Some(b.to_form(m, uri, req)),
            (4, 2) => Some(b.to_query(m, self.uri_text.clone(), req)),
            #[cfg(any(feature = "std", feature = "alloc"))]
            (5, 0) => Some(b.into_authorization(m, uri, req)),
            #[cfg(any(feature = "std", feature = "alloc"))]
            (5, 1) => Some(b.into_form(m, uri, req)),
            (5, 2) => Some(b.into_query(m, self.uri_text.clone(), req)),
            // Unsigned.
            (6, 1) => done(req.serialize(Urlencoder::form_with_buf(buf))),
            (6, 2) => done(req.serialize(Urlencoder::query(buf))),
            #[cfg(any(feature = "std", feature = "alloc"))]
            (7, 1) => Some(oauth::to_form(req)),
            #[cfg(any(feature = "std", feature = "alloc"))]
            (7, 2) => Some(oauth::to_query(self.uri_text.clone(), req)),
            _ => None,
        }
    }
}

#[cfg(feature = "rsa")]
mod keys {
    use oauth::signature_method::{rsa_sha1_06, rsa_sha1_09};
    const DER: [&[u8]; 3] =
        [include_bytes!("../../sim/keys/rsa512.der"), include_bytes!("../../sim/keys/rsa521.der"), include_bytes!("../../sim/keys/rsa1024.der")];
    pub struct Keys {
        pub m06: Vec<rsa_sha1_06::RsaSha1>,
        pub m09: Vec<rsa_sha1_09::RsaSha1>,
    }
    pub fn keys() -> &'static Keys {
        static mut K: *const Keys = std::ptr::null();
        unsafe {
            if K.is_null() {
                K = Box::into_raw(Box::new(Keys {
                    m06: DER
                        .iter()
                        .map(|d| rsa_sha1_06::RsaSha1::new(<rsa_sha1_06::RsaPrivateKey as rsa_sha1_06::DecodePrivateKey>::from_pkcs8_der(d).unwrap()))
                        .collect(),
                    m09: DER
                        .iter()
                        .map(|d| <rsa_sha1_09::RsaPrivateKey as rsa_sha1_09::DecodePrivateKey>::from_pkcs8_der(d).unwrap().into())
                        .collect(),
                }));
            }
            &*K
        }
    }
}

#[no_mangle]
pub extern "C" fn cfg_init() {
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(feature = "rsa")]
    keys::keys();
}

fn answer(text: &str) -> String {
    let mut i = In(text.split(' '));
    let (alg, key, out, api) = (i.num(), i.num() as usize, i.num() as u32, i.num() as u32);
    let budget = i.num() as usize;
    let passing = i.num() == 1;
    let prefix = i.text();
    let method = i.text();
    let uri = i.val();
    let uri_text = i.text();
    let (ck, cs) = (i.text(), i.text());
    let tok = match (i.opt(), i.opt()) {
        (Some(a), Some(b)) => Some((a, b)),
        _ => None,
    };
    let (cb, ver, nonce) = (i.opt(), i.opt(), i.opt());
    let ts = NonZeroU64::new(i.num());
    let version = i.num() == 1;
    let kind = i.num() as u32;
    let n = i.num();
    let params = (0..n).map(|_| (i.text(), i.val(), i.num() == 1)).collect();
    let o = Op { out, api, method, uri, uri_text, ck, cs, tok, cb, ver, nonce, ts, version, req: Req { kind, params } };
    let start = if out == 2 { o.uri_text.clone() } else { prefix };
    let keep = Rc::new(RefCell::new((start, budget, false, passing)));
    let buf = Buf(keep.clone());
    let r = catch_unwind(AssertUnwindSafe(|| match alg {
        0 => o.run(Plaintext::<PBuf>::with_buf(), buf),
        #[cfg(any(feature = "std", feature = "alloc"))]
        1 => o.run(oauth::PLAINTEXT, buf),
        #[cfg(feature = "hmac")]
        2 => o.run(oauth::HMAC_SHA1, buf),
        #[cfg(feature = "rsa")]
        3 => o.run(&keys::keys().m06[key], buf),
        #[cfg(feature = "rsa")]
        4 => o.run(&keys::keys().m09[key], buf),
        // Declining bits, and the failing write.
        5 => o.run(Custom { nonce: key & 1 == 0, timestamp: key & 2 == 0, fail: key as u64 >> 2 }, buf),
        _ => None,
    }));
    let _ = key;
    let b = keep.borrow();
    match r {
        Ok(Some(t)) => format!("ok {}:{}{}", t.len(), t, b.0),
        Ok(None) => "unsupported 0:".into(),
        Err(p) => {
            let m = match (p.downcast_ref::<&str>(), p.downcast_ref::<String>()) {
                (Some(s), _) => s,
                (_, Some(s)) => &**s,
                _ => "",
            };
            format!("panic {}:{}{}", m.len(), m, b.0)
        }
    }
}

/// # Safety
/// `req` and `out` are valid.
#[no_mangle]
pub unsafe extern "C" fn cfg_node(req: *const u8, len: usize, out: *mut u8, cap: usize) -> usize {
    let text = std::str::from_utf8(std::slice::from_raw_parts(req, len)).unwrap();
    let r = answer(text);
    assert!(r.len() <= cap);
    std::ptr::copy_nonoverlapping(r.as_ptr(), out, r.len());
    r.len()
}
