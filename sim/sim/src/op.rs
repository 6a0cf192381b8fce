//! One use of the library: which entry point is called with what, and what has to come out of it.

use std::collections::BTreeMap;
use std::fmt::{Display, Write};
use std::num::NonZeroU64;
use std::sync::Arc;

use either::Either;
use model::{b64, base_string, parse_form, parse_header, pct, signing_key, RsaPublic};
use oauth::request::{AssertSorted, ParameterList};
use oauth::serializer::{auth, Authorizer, Serializer, SerializerExt};
use oauth::signature_method::{rsa_sha1_06, rsa_sha1_09, Plaintext, SignatureMethod};
use oauth::{Builder, Credentials, Request, Token};
use simrt::{below, chance, draw, pick, pickc, probe, rt, sut, Panicked, GEN};

use crate::gen;
use crate::harness::*;

// ------------------------------------------------------------------------------------------- keys

pub struct Keys {
    pub k06: Vec<rsa_sha1_06::RsaPrivateKey>,
    pub m06: Vec<rsa_sha1_06::RsaSha1>,
    pub m09: Vec<rsa_sha1_09::RsaSha1>,
    pub k09: Vec<rsa_sha1_09::RsaPrivateKey>,
    pub public: Vec<RsaPublic>,
    pub secret_hex: Vec<String>,
}

static mut KEYS: *const Keys = std::ptr::null();

pub const DER: [&[u8]; 3] = [
    include_bytes!("../keys/rsa512.der"),
    include_bytes!("../keys/rsa521.der"),
    include_bytes!("../keys/rsa1024.der"),
];
const MODULUS: [&str; 3] = [
    include_str!("../keys/rsa512.modulus"),
    include_str!("../keys/rsa521.modulus"),
    include_str!("../keys/rsa1024.modulus"),
];

/// Parses the RSA keys. Called once, before any run.
pub fn init_keys() {
    use rsa_sha1_06::DecodePrivateKey as _;
    let k06: Vec<_> = DER.iter().map(|d| rsa_sha1_06::RsaPrivateKey::from_pkcs8_der(d).unwrap()).collect();
    let k09: Vec<_> = DER
        .iter()
        .map(|d| <rsa_sha1_09::RsaPrivateKey as rsa_sha1_09::DecodePrivateKey>::from_pkcs8_der(d).unwrap())
        .collect();
    let keys = Keys {
        m06: k06.iter().cloned().map(rsa_sha1_06::RsaSha1::new).collect(),
        m09: k09.iter().cloned().map(Into::into).collect(),
        k06,
        k09,
        public: MODULUS.iter().map(|m| RsaPublic::from_hex(m.trim(), 65537)).collect(),
        secret_hex: DER.iter().map(|d| d.iter().map(|b| format!("{:02x}", b)).collect()).collect(),
    };
    unsafe { KEYS = Box::into_raw(Box::new(keys)) };
}

pub fn keys() -> &'static Keys {
    unsafe { &*KEYS }
}

// ------------------------------------------------------------------------------------------ types

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sm {
    Hmac,
    Plain,
    PlainBuf,
    Rsa06,
    Rsa06Ref,
    Rsa09,
    Rsa09Ref,
    /// Either<HmacSha1, Plaintext>
    EitherHp(bool),
    /// Either<&RsaSha1, HmacSha1>
    EitherRh(bool),
    /// Either<Either<HmacSha1, Plaintext>, &RsaSha1 (0.9)>
    EitherNest(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Alg {
    Hmac,
    Plain,
    Rsa,
}

impl Sm {
    pub fn alg(self) -> Alg {
        match self {
            Sm::Hmac | Sm::EitherHp(false) | Sm::EitherRh(true) | Sm::EitherNest(0) => Alg::Hmac,
            Sm::Plain | Sm::PlainBuf | Sm::EitherHp(true) | Sm::EitherNest(1) => Alg::Plain,
            _ => Alg::Rsa,
        }
    }
    pub fn name(self) -> &'static str {
        match self.alg() {
            Alg::Hmac => "HMAC-SHA1",
            Alg::Plain => "PLAINTEXT",
            Alg::Rsa => "RSA-SHA1",
        }
    }
    pub fn gen() -> Sm {
        // RSA is slow, so it is drawn less often.
        match below(20) {
            0..=7 => Sm::Hmac,
            8..=10 => Sm::Plain,
            11 => Sm::PlainBuf,
            12 => Sm::EitherHp(false),
            13 => Sm::EitherHp(true),
            14 => Sm::EitherRh(true),
            15 => Sm::EitherNest(below(3) as u8),
            16 => Sm::Rsa06,
            17 => Sm::Rsa09Ref,
            18 => [Sm::Rsa06Ref, Sm::Rsa09][below(2)],
            _ => Sm::EitherRh(false),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Out {
    Header,
    Form,
    Query,
}

/// How the entry point consumes things; see `exec_sm`.
pub const ENTRIES: &[(&str, Out, Option<&str>)] = &[
    ("Builder::authorize", Out::Header, None),
    ("Builder::to_form", Out::Form, None),
    ("Builder::to_query", Out::Query, None),
    ("Builder::get", Out::Header, Some("GET")),
    ("Builder::put", Out::Header, Some("PUT")),
    ("Builder::post", Out::Header, Some("POST")),
    ("Builder::delete", Out::Header, Some("DELETE")),
    ("Builder::options", Out::Header, Some("OPTIONS")),
    ("Builder::head", Out::Header, Some("HEAD")),
    ("Builder::connect", Out::Header, Some("CONNECT")),
    ("Builder::patch", Out::Header, Some("PATCH")),
    ("Builder::trace", Out::Header, Some("TRACE")),
    ("Builder::put_form", Out::Form, Some("PUT")),
    ("Builder::post_form", Out::Form, Some("POST")),
    ("Builder::options_form", Out::Form, Some("OPTIONS")),
    ("Builder::patch_form", Out::Form, Some("PATCH")),
    ("Builder::get_query", Out::Query, Some("GET")),
    ("Builder::put_query", Out::Query, Some("PUT")),
    ("Builder::post_query", Out::Query, Some("POST")),
    ("Builder::delete_query", Out::Query, Some("DELETE")),
    ("Builder::options_query", Out::Query, Some("OPTIONS")),
    ("Builder::head_query", Out::Query, Some("HEAD")),
    ("Builder::connect_query", Out::Query, Some("CONNECT")),
    ("Builder::patch_query", Out::Query, Some("PATCH")),
    ("Builder::trace_query", Out::Query, Some("TRACE")),
    ("Builder::authorize_with_buf", Out::Header, None),
    ("Builder::to_form_with_buf", Out::Form, None),
    ("Builder::to_query(buf)", Out::Query, None),
    ("Builder::into_authorization", Out::Header, None),
    ("Builder::into_form", Out::Form, None),
    ("Builder::into_query", Out::Query, None),
    ("Builder::into_authorization_with_buf", Out::Header, None),
    ("Builder::into_form_with_buf", Out::Form, None),
    ("Builder::into_query(buf)", Out::Query, None),
    ("Authorizer::authorization", Out::Header, None),
    ("Authorizer::form", Out::Form, None),
    ("Authorizer::query", Out::Query, None),
    ("Authorizer::authorization_with_buf", Out::Header, None),
    ("Authorizer::form_with_buf", Out::Form, None),
    ("Authorizer::query(buf)", Out::Query, None),
    ("oauth::authorize", Out::Header, None),
    ("oauth::get", Out::Header, Some("GET")),
    ("oauth::put", Out::Header, Some("PUT")),
    ("oauth::post", Out::Header, Some("POST")),
    ("oauth::delete", Out::Header, Some("DELETE")),
    ("oauth::options", Out::Header, Some("OPTIONS")),
    ("oauth::head", Out::Header, Some("HEAD")),
    ("oauth::connect", Out::Header, Some("CONNECT")),
    ("oauth::patch", Out::Header, Some("PATCH")),
    ("oauth::trace", Out::Header, Some("TRACE")),
];

pub const FREE: usize = 40;

pub fn entry_is_free(e: usize) -> bool {
    e >= FREE
}

/// Entries that consume the builder.
pub fn entry_consumes(e: usize) -> bool {
    (28..=33).contains(&e)
}

pub fn entry_on_builder(e: usize) -> bool {
    e < 34
}

pub fn entry_has_buf(e: usize) -> bool {
    matches!(e, 25 | 26 | 27 | 31 | 32 | 33 | 37 | 38 | 39)
}

#[derive(Clone, Debug, PartialEq)]
pub struct P {
    pub k: String,
    pub v: String,
    /// Serialized with `serialize_parameter_encoded`, where the request type supports that.
    pub enc: bool,
    pub frag: Frag,
    pub nested: Option<Arc<Op>>,
}

impl PartialEq for Op {
    fn eq(&self, _: &Op) -> bool {
        false
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rk {
    ListNew,
    ListFromSorted,
    ListCollect,
    ListExtend,
    ListRefs,
    ListSlice,
    Sorted,
    Map,
    Manual,
    Derived,
    Unit,
    OptNone,
}

pub const RKS: [Rk; 12] = [
    Rk::ListNew, Rk::Manual, Rk::Derived, Rk::Sorted, Rk::ListFromSorted, Rk::ListCollect, Rk::ListExtend, Rk::ListRefs, Rk::ListSlice,
    Rk::Map, Rk::Unit, Rk::OptNone,
];

#[derive(Clone, Debug)]
pub struct Op {
    pub sm: Sm,
    pub key: usize,
    pub entry: usize,
    pub method: String,
    pub uri: String,
    pub uri_frag: Frag,
    pub params: Vec<P>,
    pub rk: Rk,
    pub wrap: u8,
    pub ck: String,
    pub cs: String,
    pub tok: Option<(String, String)>,
    pub cb: Option<String>,
    pub ver: Option<String>,
    pub nonce: Option<String>,
    pub ts: Option<u64>,
    pub version: bool,
    /// What the caller's buffer already contains.
    pub prefix: String,
}

#[derive(Clone, Debug)]
pub struct Done {
    /// The output, with the existing contents of the buffer (or URI) stripped.
    pub text: String,
}

// --------------------------------------------------------------------------------------- requests

#[derive(Clone)]
pub enum Req {
    List(Arc<ParameterList<Key, Val>>),
    Refs(Vec<(Key, Val)>),
    Slice(Vec<(Key, Val)>),
    Sorted(Vec<(Key, Val)>),
    Map(BTreeMap<Key, Val>),
    Manual(Vec<(String, Val, bool)>),
    #[cfg(feature = "derived")]
    Derived(Derived),
    Unit,
    OptNone,
    Ref(Box<Req>),
    Opt(Option<Box<Req>>),
    #[cfg(feature = "derived")]
    Gen(Arc<crate::derived_gen::Gen>),
}

#[cfg(feature = "derived")]
#[derive(oauth::Request, Clone)]
pub struct Derived {
    alpha: Val,
    #[oauth1(rename = "oauth_body_hash")]
    hash: Option<Val>,
    #[oauth1(encoded)]
    p: Val,
    #[oauth1(rename = "oauth_session_handle")]
    sess: Val,
    #[oauth1(skip)]
    #[allow(dead_code)]
    skipped: Val,
    #[oauth1(skip_if = is_empty)]
    zz: Val,
    r#type: Option<Val>,
    #[oauth1(encoded, rename = "oauth_version1")]
    v1: Option<Val>,
}

#[cfg(feature = "derived")]
fn is_empty(v: &Val) -> bool {
    v.text.is_empty()
}

const DERIVED: [(&str, bool, bool); 7] = [
    // (name, optional, encoded)
    ("alpha", false, false),
    ("oauth_body_hash", true, false),
    ("p", false, true),
    ("oauth_session_handle", false, false),
    ("zz", true, false),
    ("type", true, false),
    ("oauth_version1", true, true),
];

impl Request for Req {
    fn serialize<S: Serializer>(&self, mut ser: S) -> S::Output {
        match *self {
            Req::List(ref l) => l.serialize(ser),
            Req::Refs(ref v) => {
                quietly(|| ParameterList::<Key, Val, Vec<&(Key, Val)>, &(Key, Val)>::new(v.iter().collect())).serialize(ser)
            }
            Req::Slice(ref v) => {
                let mut v = v.clone();
                quietly(|| ParameterList::<Key, Val, &mut [(Key, Val)]>::new(&mut v[..])).serialize(ser)
            }
            Req::Sorted(ref v) => AssertSorted::new(PairIter(v.iter())).serialize(ser),
            Req::Map(ref m) => AssertSorted::new(m).serialize(ser),
            Req::Manual(ref v) => {
                const O: [&str; 8] = [
                    "oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature_method", "oauth_timestamp",
                    "oauth_token", "oauth_verifier", "oauth_version",
                ];
                fn feed<S: Serializer>(s: &mut S, i: usize) {
                    match i {
                        0 => s.serialize_oauth_callback(),
                        1 => s.serialize_oauth_consumer_key(),
                        2 => s.serialize_oauth_nonce(),
                        3 => s.serialize_oauth_signature_method(),
                        4 => s.serialize_oauth_timestamp(),
                        5 => s.serialize_oauth_token(),
                        6 => s.serialize_oauth_verifier(),
                        _ => s.serialize_oauth_version(),
                    }
                }
                if v.iter().all(|p| *p.0 < *O[0]) {
                    for (k, val, enc) in v {
                        if *enc {
                            ser.serialize_parameter_encoded(k, val);
                        } else {
                            ser.serialize_parameter(k, val);
                        }
                    }
                    ser.serialize_oauth_parameters();
                    return ser.end();
                }
                let mut i = 0;
                for (k, val, enc) in v {
                    while i < 8 && O[i] < &**k {
                        feed(&mut ser, i);
                        i += 1;
                    }
                    if *enc {
                        ser.serialize_parameter_encoded(k, val);
                    } else {
                        ser.serialize_parameter(k, val);
                    }
                }
                while i < 8 {
                    feed(&mut ser, i);
                    i += 1;
                }
                ser.end()
            }
            #[cfg(feature = "derived")]
            Req::Derived(ref d) => d.serialize(ser),
            Req::Unit => ().serialize(ser),
            Req::OptNone => None::<()>.serialize(ser),
            Req::Ref(ref r) => Inner(&**r).serialize(ser),
            #[cfg(feature = "derived")]
            Req::Gen(ref g) => crate::c16::serialize(g, ser),
            Req::Opt(ref r) => r.as_ref().map(|r| Inner(&**r)).serialize(ser),
        }
    }
}

/// `&&Req` without making the recursion polymorphic.
struct Inner<'a>(&'a Req);

impl Request for Inner<'_> {
    fn serialize<S: Serializer>(&self, ser: S) -> S::Output {
        <&Req as Request>::serialize(&self.0, ser)
    }
}

// -------------------------------------------------------------------------------------- generation

#[derive(Clone, Copy)]
pub struct OpCfg {
    pub max_params: usize,
    pub pinned: bool,
    pub entries: Option<&'static [usize]>,
    pub frag: bool,
    pub sm: Option<Sm>,
}

pub const CFG: OpCfg = OpCfg { max_params: 6, pinned: false, entries: None, frag: true, sm: None };

pub fn gen_frag(on: bool) -> Frag {
    if !on {
        return Frag::default();
    }
    match below(3) {
        0 => Frag::default(),
        _ => Frag { mode: below(NFRAG) as u8, seed: draw(GEN, 1 << 16) },
    }
}

pub fn gen_params(rk: Rk, max: usize, frag: bool) -> Vec<P> {
    let mut ps: Vec<P> = Vec::new();
    match rk {
        Rk::Unit | Rk::OptNone => {}
        Rk::Derived => {
            for (k, opt, enc) in DERIVED {
                if opt && !chance(128) {
                    continue;
                }
                let v = gen::text();
                if k == "zz" && v.is_empty() {
                    continue;
                }
                ps.push(P { k: k.into(), v, enc, frag: gen_frag(frag), nested: None });
            }
        }
        _ => {
            // Once in a while, more than any fixed number of slots.
            let many = max >= 5 && chance(5);
            let n = if many { pickc(&[9usize, 16, 17, 21, 32, 33, 50, 64, 65, 129, 257]) } else { below(max + 1) };
            if many {
                probe("op.many_parameters");
            }
            for _ in 0..n {
                if many {
                    // (Few of the same name: comparing values takes time quadratic in their length.)
                    let k = if chance(if n > 64 { 245 } else { 160 }) { gen::key() } else { pick(&["a", "m", "oauth_z", "zzz"]).to_string() };
                    if rk != Rk::Map || ps.iter().all(|p| p.k != k) {
                        ps.push(P { k, v: gen::short(), enc: false, frag: Frag::default(), nested: None });
                    }
                    continue;
                }
                let dup = !ps.is_empty() && chance(50);
                let k = if dup && rk != Rk::Map { ps[below(ps.len())].k.clone() } else { gen::key() };
                if rk == Rk::Map && ps.iter().any(|p| p.k == k) {
                    continue;
                }
                let mut v = gen::text();
                if dup && chance(100) {
                    // Values that differ from another one only late, or in their encoding's order.
                    let o = ps.iter().find(|p| p.k == k).map(|p| p.v.clone()).unwrap_or_default();
                    v = match below(4) {
                        0 => o,
                        1 => format!("{}{}", o, v),
                        2 => format!("{}/", o),
                        _ => format!("{}~", o),
                    };
                }
                let enc = rk == Rk::Manual && chance(80);
                ps.push(P { k, v, enc, frag: gen_frag(frag), nested: None });
            }
        }
    }
    if !matches!(rk, Rk::ListNew | Rk::ListCollect | Rk::ListExtend | Rk::ListRefs | Rk::ListSlice) {
        sort_params(&mut ps);
    }
    ps
}

pub fn sort_params(ps: &mut [P]) {
    ps.sort_by(|a, b| (&a.k, pct(a.v.as_bytes())).cmp(&(&b.k, pct(b.v.as_bytes()))));
}

pub fn gen_op(cfg: OpCfg) -> Op {
    let sm = cfg.sm.unwrap_or_else(Sm::gen);
    let entry = match cfg.entries {
        Some(e) => e[below(e.len())],
        None => below(ENTRIES.len()),
    };
    let rk = RKS[below(RKS.len())];
    let method = ENTRIES[entry].2.map(String::from).unwrap_or_else(gen::method);
    let params = gen_params(rk, cfg.max_params, cfg.frag);
    let free = entry_is_free(entry);
    let tok = if free || chance(170) { Some((gen::text(), gen::secret())) } else { None };
    let pinned = cfg.pinned && !free;
    let opt = |p: u32| !free && chance(p);
    Op {
        sm,
        key: below(3),
        entry,
        method,
        uri: gen::uri(),
        uri_frag: gen_frag(cfg.frag),
        params,
        rk,
        wrap: below(4) as u8,
        ck: gen::text(),
        cs: gen::secret(),
        tok,
        cb: if opt(60) { Some(gen::text()) } else { None },
        ver: if opt(60) { Some(gen::text()) } else { None },
        nonce: if pinned || opt(40) { Some(gen::text()) } else { None },
        ts: if pinned || opt(40) { Some(gen_ts()) } else { None },
        version: opt(90),
        prefix: if entry_has_buf(entry) && ENTRIES[entry].1 != Out::Query && chance(128) { gen::text() } else { String::new() },
    }
}

/// Once in a while, makes one of the operation's texts very long.
pub fn lengthen(o: &mut Op) {
    if !chance(3) {
        return;
    }
    probe("op.very_long");
    match below(8) {
        0 if o.cb.is_some() => o.cb = Some(gen::long(false)),
        1 if o.ver.is_some() => o.ver = Some(gen::long(false)),
        2 if o.nonce.is_some() => o.nonce = Some(gen::long(false)),
        3 => o.ck = gen::long(false),
        4 if o.tok.is_some() => o.tok.as_mut().unwrap().0 = gen::long(false),
        5 => o.cs = gen::long(false),
        6 => o.uri.push_str(&gen::long(true).replace(|c: char| !c.is_ascii_alphanumeric(), "/")),
        _ if !o.params.is_empty() && o.rk != Rk::Derived => {
            // Comparing takes time in the square of the number of fragments.
            let i = below(o.params.len());
            let mut p = o.params.swap_remove(i);
            p.v = gen::long(true);
            p.frag = Frag::default();
            o.params = vec![p];
        }
        _ => {}
    }
}

pub fn gen_ts() -> u64 {
    match below(8) {
        0 => 1,
        1 => 1_318_622_958,
        2 => 9,
        3 => 10,
        4 => u32::MAX as u64 + below(3) as u64,
        5 => u64::MAX,
        6 => i64::MAX as u64 + below(2) as u64,
        _ => 1 + draw(GEN, u32::MAX) as u64,
    }
}

// --------------------------------------------------------------------------------------- execution

/// The point in time before an operation: an index into the log of clock values, and the value of
/// this node's clock.
pub fn mark() -> (usize, i64) {
    (rt().clock_log.len(), simrt::wall_secs(simrt::node()))
}

/// Whether `ts` was the clock's value at some moment since `m` (on the calling thread's node).
pub fn clock_had(m: (usize, i64), ts: u64) -> bool {
    let node = simrt::node();
    let fix = |s: i64| if s < 1 { 1 } else { s as u64 };
    fix(m.1) == ts || rt().clock_log[m.0..].iter().any(|&(n, s)| n == node && fix(s) == ts)
}

pub trait WithSm {
    type R;
    fn call<SM: SignatureMethod + Clone + Send + Sync + 'static>(self, sm: SM) -> Self::R;
}

impl Op {
    pub fn out(&self) -> Out {
        ENTRIES[self.entry].1
    }

    pub fn vals(&self) -> Vec<(Key, Val)> {
        self.params
            .iter()
            .map(|p| {
                (
                    Key(p.k.clone()),
                    Val { text: p.v.clone(), frag: p.frag, site: Site::Value, nested: p.nested.clone() },
                )
            })
            .collect()
    }

    fn manual(&self) -> Req {
        Req::Manual(
                self.params
                    .iter()
                    .map(|p| {
                        let text = if p.enc { pct(p.v.as_bytes()) } else { p.v.clone() };
                        (p.k.clone(), Val { text, frag: p.frag, site: Site::Value, nested: p.nested.clone() }, p.enc)
                    })
                    .collect(),
            )
    }

    /// Builds the request value. Calls into the library (sorting).
    pub fn request(&self) -> Req {
        let v = self.vals();
        let inner = match self.rk {
            Rk::ListNew => Req::List(Arc::new(ParameterList::new(v))),
            Rk::ListFromSorted => match ParameterList::from_sorted(v) {
                Some(l) => Req::List(Arc::new(l)),
                // A value could not be displayed when it was to be compared.
                None if plan(|p| p.c_fired.is_some()) => Req::List(Arc::new(quietly(|| ParameterList::new(self.vals())))),
                None => simrt::violation("from-sorted-refused", format!("ParameterList::from_sorted refused a sorted list: {:?}", self.params)),
            },
            Rk::ListCollect => Req::List(Arc::new(v.into_iter().collect())),
            Rk::ListExtend => {
                let mut l = ParameterList::default();
                let mut it = v.into_iter();
                let first: Vec<_> = it.by_ref().take(2).collect();
                l.extend(first);
                l.extend(it);
                Req::List(Arc::new(l))
            }
            Rk::ListRefs => Req::Refs(v),
            Rk::ListSlice => Req::Slice(v),
            Rk::Sorted => Req::Sorted(v),
            Rk::Map => Req::Map(v.into_iter().collect()),
            #[cfg(not(feature = "derived"))]
            Rk::Derived => self.manual(),
            Rk::Manual => self.manual(),
            #[cfg(feature = "derived")]
            Rk::Derived => {
                let get = |k: &str| {
                    self.params.iter().find(|p| p.k == k).map(|p| Val {
                        text: if p.enc { pct(p.v.as_bytes()) } else { p.v.clone() },
                        frag: p.frag,
                        site: Site::Value,
                        nested: p.nested.clone(),
                    })
                };
                let empty = || Val::new("", Frag::default());
                Req::Derived(Derived {
                    alpha: get("alpha").unwrap_or_else(empty),
                    hash: get("oauth_body_hash"),
                    p: get("p").unwrap_or_else(empty),
                    sess: get("oauth_session_handle").unwrap_or_else(empty),
                    skipped: Val::new("SKIPPED", Frag::default()),
                    zz: get("zz").unwrap_or_else(empty),
                    r#type: get("type"),
                    v1: get("oauth_version1"),
                })
            }
            Rk::Unit => Req::Unit,
            Rk::OptNone => Req::OptNone,
        };
        match self.wrap {
            1 => Req::Ref(Box::new(inner)),
            2 => Req::Opt(Some(Box::new(inner))),
            _ => inner,
        }
    }

    /// Executes the operation against the library.
    pub fn exec(&self) -> Result<Done, Panicked> {
        let req = sut(|| quietly(|| self.request()))?;
        self.exec_with(&req)
    }

    pub fn exec_with(&self, req: &Req) -> Result<Done, Panicked> {
        self.exec_keep(req, &mut None)
    }

    /// `buf`: receives the caller's buffer, also if the call panics.
    pub fn exec_keep(&self, req: &Req, buf: &mut Option<FBuf>) -> Result<Done, Panicked> {
        let k = keys();
        let r = sut(|| match self.sm {
            Sm::Hmac => self.exec_sm(oauth::HMAC_SHA1, req, buf),
            Sm::Plain => self.exec_sm(oauth::PLAINTEXT, req, buf),
            Sm::PlainBuf => self.exec_sm(Plaintext::<PBuf>::with_buf(), req, buf),
            Sm::Rsa06 => self.exec_sm(k.m06[self.key].clone(), req, buf),
            Sm::Rsa06Ref => {
                let m: &rsa_sha1_06::RsaSha1 = k.k06[self.key].as_ref();
                self.exec_sm(m, req, buf)
            }
            Sm::Rsa09 => self.exec_sm(k.m09[self.key].clone(), req, buf),
            Sm::Rsa09Ref => {
                let m: &rsa_sha1_09::RsaSha1 = k.k09[self.key].as_ref();
                self.exec_sm(m, req, buf)
            }
            Sm::EitherHp(r) => {
                let m = if r { Either::Right(oauth::PLAINTEXT) } else { Either::Left(oauth::HMAC_SHA1) };
                self.exec_sm(m, req, buf)
            }
            Sm::EitherRh(r) => {
                let m = if r { Either::Right(oauth::HMAC_SHA1) } else { Either::Left(&k.m06[self.key]) };
                self.exec_sm(m, req, buf)
            }
            Sm::EitherNest(i) => {
                let m = match i {
                    0 => Either::Left(Either::Left(oauth::HMAC_SHA1)),
                    1 => Either::Left(Either::Right(oauth::PLAINTEXT)),
                    _ => Either::Right(&k.m09[self.key]),
                };
                self.exec_sm(m, req, buf)
            }
        });
        let text = r?;
        let text = self.strip(text)?;
        Ok(Done { text })
    }

    /// The signature method of this operation, for code that is generic over it.
    pub fn with_sm<V: WithSm>(&self, v: V) -> V::R {
        let k = keys();
        match self.sm {
            Sm::Hmac => v.call(oauth::HMAC_SHA1),
            Sm::Plain => v.call(oauth::PLAINTEXT),
            Sm::PlainBuf => v.call(Plaintext::<PBuf>::with_buf()),
            Sm::Rsa06 => v.call(k.m06[self.key].clone()),
            Sm::Rsa06Ref => v.call(<_ as AsRef<rsa_sha1_06::RsaSha1>>::as_ref(&k.k06[self.key])),
            Sm::Rsa09 => v.call(k.m09[self.key].clone()),
            Sm::Rsa09Ref => v.call(<_ as AsRef<rsa_sha1_09::RsaSha1>>::as_ref(&k.k09[self.key])),
            Sm::EitherHp(r) => v.call(if r { Either::Right(oauth::PLAINTEXT) } else { Either::Left(oauth::HMAC_SHA1) }),
            Sm::EitherRh(r) => v.call(if r { Either::Right(oauth::HMAC_SHA1) } else { Either::Left(&k.m06[self.key]) }),
            Sm::EitherNest(i) => v.call(match i {
                0 => Either::Left(Either::Left(oauth::HMAC_SHA1)),
                1 => Either::Left(Either::Right(oauth::PLAINTEXT)),
                _ => Either::Right(&k.m09[self.key]),
            }),
        }
    }

    pub fn strip(&self, text: String) -> Result<String, Panicked> {
        let pre = if self.out() == Out::Query { &self.uri } else { &self.prefix };
        match text.strip_prefix(&**pre) {
            Some(t) => Ok(t.to_string()),
            None => Err(Panicked {
                msg: format!("<not a panic> the output does not start with the buffer's contents {:?}: {:?}", pre, text),
                loc: String::new(),
                injected: false,
            }),
        }
    }

    pub fn builder<SM: SignatureMethod>(&self, sm: SM) -> Builder<'_, SM, Cred, Cred> {
        let client = Credentials::new(Cred(self.ck.clone()), Cred(self.cs.clone()));
        let mut b = match self.tok {
            Some((ref t, ref ts)) if self.wrap % 2 == 0 => Builder::with_token(
                Token::from_parts(client.identifier, client.secret, Cred(t.clone()), Cred(ts.clone())),
                sm,
            ),
            Some((ref t, ref ts)) => {
                let mut b = Builder::new(client, sm);
                b.token(Credentials::new(Cred(t.clone()), Cred(ts.clone())));
                b
            }
            None => Builder::new(client, sm),
        };
        if let Some(ref c) = self.cb {
            b.callback(&**c);
        }
        if let Some(ref c) = self.ver {
            b.verifier(&**c);
        }
        if let Some(ref c) = self.nonce {
            b.nonce(&**c);
        }
        if let Some(t) = self.ts {
            b.timestamp(NonZeroU64::new(t));
        }
        if self.version {
            b.version(true);
        }
        b
    }

    pub fn exec_sm<SM: SignatureMethod + Clone>(&self, sm: SM, req: &Req, buf: &mut Option<FBuf>) -> String {
        if entry_is_free(self.entry) {
            let (t, ts) = self.tok.as_ref().expect("free functions take a token");
            let token = Token::from_parts(Cred(self.ck.clone()), Cred(self.cs.clone()), Cred(t.clone()), Cred(ts.clone()));
            let uri = &Val::uri(&*self.uri, self.uri_frag);
            return match self.entry {
                40 => oauth::authorize(&self.method, uri, req, &token, sm),
                41 => oauth::get(uri, req, &token, sm),
                42 => oauth::put(uri, req, &token, sm),
                43 => oauth::post(uri, req, &token, sm),
                44 => oauth::delete(uri, req, &token, sm),
                45 => oauth::options(uri, req, &token, sm),
                46 => oauth::head(uri, req, &token, sm),
                47 => oauth::connect(uri, req, &token, sm),
                48 => oauth::patch(uri, req, &token, sm),
                _ => oauth::trace(uri, req, &token, sm),
            };
        }
        if !entry_on_builder(self.entry) {
            let client = Credentials::new(&*self.ck, &*self.cs);
            let token = self.tok.as_ref().map(|(a, b)| Credentials::new(&**a, &**b));
            let mut o = auth::Options::new();
            o.callback(self.cb.as_deref())
                .verifier(self.ver.as_deref())
                .nonce(self.nonce.as_deref())
                .timestamp(self.ts.and_then(NonZeroU64::new))
                .version(self.version);
            let uri = &Val::uri(&*self.uri, self.uri_frag);
            let m = &*self.method;
            return match self.entry {
                34 => req.serialize(Authorizer::authorization(m, uri, client, token, &o, sm)),
                35 => req.serialize(Authorizer::form(m, uri, client, token, &o, sm)),
                36 => req.serialize(Authorizer::query(m, self.uri.clone(), client, token, &o, sm)),
                37 => {
                    let b = self.buf(buf, &self.prefix);
                    keep(req.serialize(Authorizer::authorization_with_buf(b, m, uri, client, token, &o, sm)))
                }
                38 => {
                    let b = self.buf(buf, &self.prefix);
                    keep(req.serialize(Authorizer::form_with_buf(b, m, uri, client, token, &o, sm)))
                }
                _ => {
                    let b = self.buf(buf, &self.uri);
                    keep(req.serialize(Authorizer::query(m, b, client, token, &o, sm)))
                }
            };
        }
        let b = self.builder(sm);
        self.exec_builder(&mut Some(b), req, buf)
    }

    fn buf(&self, keep: &mut Option<FBuf>, s: &str) -> FBuf {
        let b = FBuf::new(s);
        *keep = Some(FBuf { data: b.data.clone() });
        b
    }

    /// Calls the entry point on an existing builder (taking it if the entry point consumes it).
    pub fn exec_builder<SM, C, T>(
        &self, slot: &mut Option<Builder<'_, SM, C, T>>, req: &Req, buf: &mut Option<FBuf>,
    ) -> String
    where
        SM: SignatureMethod + Clone,
        C: AsRef<str>,
        T: AsRef<str>,
    {
        if entry_consumes(self.entry) {
            let b = slot.take().unwrap();
            let uri = &Val::uri(&*self.uri, self.uri_frag);
            let m = &*self.method;
            return match self.entry {
                28 => b.into_authorization(m, uri, req),
                29 => b.into_form(m, uri, req),
                30 => b.into_query(m, self.uri.clone(), req),
                31 => keep(b.into_authorization_with_buf(self.buf(buf, &self.prefix), m, uri, req)),
                32 => keep(b.into_form_with_buf(self.buf(buf, &self.prefix), m, uri, req)),
                _ => keep(b.into_query(m, self.buf(buf, &self.uri), req)),
            };
        }
        self.exec_shared(slot.as_ref().unwrap(), req, buf)
    }

    pub fn exec_shared<SM, C, T>(&self, b: &Builder<'_, SM, C, T>, req: &Req, buf: &mut Option<FBuf>) -> String
    where
        SM: SignatureMethod + Clone,
        C: AsRef<str>,
        T: AsRef<str>,
    {
        let uri = &Val::uri(&*self.uri, self.uri_frag);
        let m = &*self.method;
        let s = || self.uri.clone();
        match self.entry {
            0 => b.authorize(m, uri, req),
            1 => b.to_form(m, uri, req),
            2 => b.to_query(m, s(), req),
            3 => b.get(uri, req),
            4 => b.put(uri, req),
            5 => b.post(uri, req),
            6 => b.delete(uri, req),
            7 => b.options(uri, req),
            8 => b.head(uri, req),
            9 => b.connect(uri, req),
            10 => b.patch(uri, req),
            11 => b.trace(uri, req),
            12 => b.put_form(uri, req),
            13 => b.post_form(uri, req),
            14 => b.options_form(uri, req),
            15 => b.patch_form(uri, req),
            16 => b.get_query(s(), req),
            17 => b.put_query(s(), req),
            18 => b.post_query(s(), req),
            19 => b.delete_query(s(), req),
            20 => b.options_query(s(), req),
            21 => b.head_query(s(), req),
            22 => b.connect_query(s(), req),
            23 => b.patch_query(s(), req),
            24 => b.trace_query(s(), req),
            25 => keep(b.authorize_with_buf(self.buf(buf, &self.prefix), m, uri, req)),
            26 => keep(b.to_form_with_buf(self.buf(buf, &self.prefix), m, uri, req)),
            27 => keep(b.to_query(m, self.buf(buf, &self.uri), req)),
            e => unreachable!("not a shared-builder entry: {}", e),
        }
    }
}

fn keep(b: FBuf) -> String {
    let s = b.data.lock().unwrap_or_else(|e| e.into_inner()).clone();
    s
}

// ------------------------------------------------------------------------------------ verification

#[derive(Clone, Debug)]
pub struct Parsed {
    pub nonce: String,
    pub ts: u64,
    pub signature: String,
    pub base: String,
    pub protocol: Vec<(String, String)>,
}

pub fn parse_ts(s: &str) -> Result<u64, String> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) || s.starts_with('0') {
        return Err(format!("oauth_timestamp is not a positive integer: {:?}", s));
    }
    s.parse().map_err(|_| format!("oauth_timestamp out of range: {:?}", s))
}

/// What a server sees: the protocol parameters and the other parameters of a message.
pub fn split_message(out: Out, text: &str) -> Result<Vec<(String, String)>, String> {
    match out {
        Out::Header => parse_header(text),
        Out::Form => parse_form(text),
        Out::Query => {
            let q = text.strip_prefix('?').ok_or_else(|| format!("the query does not start with `?`: {:?}", text))?;
            parse_form(q)
        }
    }
}

/// A server's signature check.
pub fn signature_ok(
    alg: Alg, base: &str, cs: &str, ts: Option<&str>, key: usize, signature: &str,
) -> Result<(), String> {
    match alg {
        Alg::Hmac => {
            let want = model::hmac_signature(base, cs, ts);
            if want != signature {
                return Err(format!("HMAC-SHA1 signature {:?} differs from the expected {:?} for the base string {:?}", signature, want, base));
            }
        }
        Alg::Plain => {
            let want = signing_key(cs, ts);
            if want != signature {
                return Err(format!("PLAINTEXT signature {:?} differs from the expected {:?}", signature, want));
            }
        }
        Alg::Rsa => {
            if !keys().public[key].verify(base, signature) {
                return Err(format!("RSA-SHA1 signature {:?} does not verify for the base string {:?}", signature, base));
            }
        }
    }
    let _ = b64;
    Ok(())
}

impl Op {
    /// The independent server's check of one message: it carries exactly what the caller asked for,
    /// and the signature verifies. Yields the values that the library chose.
    pub fn verify(&self, text: &str) -> Result<Parsed, String> {
        self.verify_as(self.out(), text)
    }

    pub fn verify_as(&self, out: Out, text: &str) -> Result<Parsed, String> {
        let got = split_message(out, text)?;
        let mut want: Vec<(String, String)> = Vec::new();
        let mut add = |k: &str, v: &str| want.push((k.into(), v.into()));
        add("oauth_consumer_key", &self.ck);
        add("oauth_signature_method", self.sm.name());
        if let Some((ref t, _)) = self.tok {
            add("oauth_token", t);
        }
        if let Some(ref c) = self.cb {
            add("oauth_callback", c);
        }
        if let Some(ref c) = self.ver {
            add("oauth_verifier", c);
        }
        if self.version {
            add("oauth_version", "1.0");
        }
        let one = |k: &str| -> Result<String, String> {
            let mut it = got.iter().filter(|p| p.0 == k);
            match (it.next(), it.next()) {
                (Some(p), None) => Ok(p.1.clone()),
                (None, _) => Err(format!("no {} in {:?}", k, text)),
                _ => Err(format!("more than one {} in {:?}", k, text)),
            }
        };
        let signature = one("oauth_signature")?;
        let nonce = one("oauth_nonce")?;
        let ts_text = one("oauth_timestamp")?;
        let ts = parse_ts(&ts_text)?;
        if let Some(ref n) = self.nonce {
            if *n != nonce {
                return Err(format!("oauth_nonce is {:?}, the caller set {:?}", nonce, n));
            }
        } else if nonce.is_empty() {
            return Err("oauth_nonce is empty".into());
        }
        if let Some(t) = self.ts {
            if t != ts {
                return Err(format!("oauth_timestamp is {:?}, the caller set {:?}", ts, t));
            }
        }
        want.push(("oauth_nonce".into(), nonce.clone()));
        want.push(("oauth_timestamp".into(), ts_text));
        let protocol = want.clone();
        let params: Vec<(String, String)> = self.params.iter().map(|p| (p.k.clone(), p.v.clone())).collect();
        let mut all = want.clone();
        all.extend(params.iter().cloned());
        if out != Out::Header {
            want.extend(params);
        }
        let base = base_string(&self.method, &self.uri, &all);
        let mut got: Vec<_> = got.into_iter().filter(|p| p.0 != "oauth_signature").collect();
        got.sort();
        want.sort();
        if got != want {
            let missing: Vec<_> = want.iter().filter(|p| !got.contains(p)).collect();
            let extra: Vec<_> = got.iter().filter(|p| !want.contains(p)).collect();
            return Err(format!(
                "the message does not carry what the caller asked for: missing {:?}, unexpected {:?}, in {:?}",
                missing, extra, text
            ));
        }
        signature_ok(
            self.sm.alg(), &base, &self.cs, self.tok.as_ref().map(|t| &*t.1), self.key, &signature,
        )
        .map_err(|e| format!("{} [{}, {:?}]", e, ENTRIES[self.entry].0, self.rk))?;
        Ok(Parsed { nonce, ts, signature, base, protocol })
    }

    pub fn brief(&self) -> String {
        format!(
            "{} {:?} key={} {} {} params={:?} rk={:?} wrap={} ck={:?} cs={:?} tok={:?} cb={:?} ver={:?} nonce={:?} ts={:?} version={} prefix={:?}",
            ENTRIES[self.entry].0, self.sm, self.key, self.method, self.uri,
            self.params.iter().map(|p| (&*p.k, &*p.v, p.enc, p.frag.mode)).collect::<Vec<_>>(),
            self.rk, self.wrap, self.ck, self.cs, self.tok, self.cb, self.ver, self.nonce, self.ts, self.version, self.prefix,
        )
    }

    pub fn probe(&self) {
        probe(match self.out() {
            Out::Header => "op.header",
            Out::Form => "op.form",
            Out::Query => "op.query",
        });
        probe(match self.sm.alg() {
            Alg::Hmac => "op.hmac",
            Alg::Plain => "op.plaintext",
            Alg::Rsa => "op.rsa",
        });
        probe(&format!("entry.{}", ENTRIES[self.entry].0));
        probe(&format!("request.{:?}", self.rk));
    }

    /// A hash of the shape of the operation, for counting distinct states.
    pub fn shape(&self) -> u64 {
        let s = format!(
            "{} {:?} {:?} {} {} {} {} {} {} {}",
            self.entry, self.sm, self.rk, self.wrap, self.params.len(), self.tok.is_some(), self.cb.is_some(), self.nonce.is_some(),
            self.ts.is_some(), self.version
        );
        simrt::fnv(1, s.as_bytes())
    }
}

#[allow(unused)]
fn _assert<W: Display + Write>() {}
