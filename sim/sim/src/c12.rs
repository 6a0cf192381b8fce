//! C12: stored credentials survive exactly or are refused.

use std::borrow::Cow;
use std::fmt::{self, Debug, Display};
use std::io::{self, Read, Write};

use oauth::{Credentials, Token};
use serde::de::{self, DeserializeOwned, DeserializeSeed, IntoDeserializer, MapAccess, Visitor};
use serde::ser::{self, Impossible, SerializeStruct};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use simrt::{below, callback, chance, check, draw, eval, ev, fault_chance, pick, pickc, probe, rt, state, sut, violation, Injected, Panicked, Rng, FAULT, GEN};

use crate::gen;
use crate::harness::*;
use crate::world;

type Pair = (String, String);

const ID: &str = "oauth_token";
const SECRET: &str = "oauth_token_secret";

// ------------------------------------------------------------------------------------- streams

#[derive(Clone, Default)]
struct IoPlan {
    /// Bytes per call (0: as many as fit).
    chunk: u32,
    eintr: u32,
    /// Fails once this many bytes were transferred.
    fail_at: Option<usize>,
    panics: bool,
    kind: u32,
}

fn io_plan(len: usize) -> IoPlan {
    IoPlan {
        chunk: if chance(150) { 1 + draw(FAULT, 12) } else { 0 },
        eintr: pickc(&[0, 0, 40, 120]),
        fail_at: if fault_chance(60) { Some(draw(FAULT, len as u32 + 2) as usize) } else { None },
        panics: fault_chance(40),
        kind: draw(FAULT, 6),
    }
}

/// A stream that delivers and accepts as little as it likes, is interrupted and fails.
struct Stream<'a> {
    data: &'a [u8],
    out: &'a mut Vec<u8>,
    done: usize,
    p: IoPlan,
    r: Rng,
    fired: &'a std::cell::Cell<bool>,
}

impl<'a> Stream<'a> {
    fn step(&mut self, want: usize) -> io::Result<usize> {
        let _g = callback();
        let mut n = want;
        if self.p.chunk > 0 {
            n = n.min(1 + (self.r.next() % self.p.chunk as u64) as usize);
            if n < want {
                probe("fault.short_transfer");
            }
        }
        if self.p.eintr > 0 && self.r.next() % 256 < self.p.eintr as u64 {
            probe("fault.io_interrupted");
            return Err(io::ErrorKind::Interrupted.into());
        }
        if let Some(at) = self.p.fail_at {
            if self.done >= at {
                self.fired.set(true);
                if self.p.panics {
                    probe("fault.io_panic");
                    std::panic::panic_any(Injected("stream"));
                }
                probe("fault.io_error");
                return Err(match self.p.kind {
                    0 => io::Error::from_raw_os_error(libc::EIO),
                    1 => io::Error::from_raw_os_error(libc::ENOSPC),
                    2 => io::ErrorKind::UnexpectedEof.into(),
                    3 => io::ErrorKind::ConnectionReset.into(),
                    4 => io::ErrorKind::TimedOut.into(),
                    _ => io::Error::new(io::ErrorKind::Other, "simulated"),
                });
            }
            n = n.min(at - self.done);
        }
        self.done += n;
        Ok(n)
    }
}

impl Read for Stream<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let from = self.done;
        let left = (self.data.len() - from).min(b.len());
        let n = self.step(left)?;
        b[..n].copy_from_slice(&self.data[from..from + n]);
        Ok(n)
    }
}

impl Write for Stream<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.step(b.len())?;
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// -------------------------------------------------------------------- a format of the simulator's

#[derive(Debug, PartialEq)]
struct SimError(String);
impl Display for SimError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SimError {}
impl de::Error for SimError {
    fn custom<T: Display>(t: T) -> Self {
        SimError(t.to_string())
    }
}
impl ser::Error for SimError {
    fn custom<T: Display>(t: T) -> Self {
        SimError(t.to_string())
    }
}

const INJECTED: &str = "injected format error";

fn step() -> Result<(), SimError> {
    let _g = callback();
    match tick(Site::Value) {
        Act::Go => Ok(()),
        Act::Err => Err(SimError(INJECTED.to_string())),
    }
}

/// A text that a format delivers in one of the ways that formats have.
#[derive(Clone, Copy)]
struct Text<'a>(&'a str, u32, bool);

impl<'de> Deserializer<'de> for Text<'de> {
    type Error = SimError;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimError> {
        step()?;
        // Values are text; names may be bytes.
        match self.1 % if self.2 { 6 } else { 3 } {
            0 => v.visit_str(self.0),
            1 => v.visit_string(self.0.to_string()),
            2 => v.visit_borrowed_str(self.0),
            3 => v.visit_bytes(self.0.as_bytes()),
            4 => v.visit_borrowed_bytes(self.0.as_bytes()),
            _ => v.visit_byte_buf(self.0.as_bytes().to_vec()),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// A record of texts. Formats get out of step when a name's value is not taken.
struct Record<'a> {
    fields: &'a [(String, JV)],
    at: usize,
    pending: bool,
    way: u32,
    hint: u32,
}

impl<'de> Deserializer<'de> for &mut Record<'de> {
    type Error = SimError;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimError> {
        step()?;
        v.visit_map(self)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, fields: &'static [&'static str], v: V) -> Result<V::Value, SimError> {
        // Formats may skip what is not listed.
        check!(fields.contains(&ID) && fields.contains(&SECRET), "fields", "the fields are said to be {:?}", fields);
        step()?;
        v.visit_map(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map enum identifier ignored_any
    }
}

impl<'de> MapAccess<'de> for &mut Record<'de> {
    type Error = SimError;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, SimError> {
        check!(!self.pending, "protocol", "a field's name was asked for before the previous one's value was taken");
        step()?;
        let fields: &'de [(String, JV)] = self.fields;
        match fields.get(self.at) {
            None => Ok(None),
            Some((k, _)) => {
                self.pending = true;
                seed.deserialize(Text(k, self.way >> (3 * (self.at % 8)), true)).map(Some)
            }
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, SimError> {
        check!(self.pending, "protocol", "a value was asked for without a name");
        step()?;
        self.pending = false;
        let fields: &'de [(String, JV)] = self.fields;
        let v = &fields[self.at].1;
        self.at += 1;
        match v {
            JV::Str(s) => seed.deserialize(Text(s, self.way >> (3 * (self.at % 9)), false)),
            JV::Raw("null") => seed.deserialize(().into_deserializer()),
            JV::Raw("true") => seed.deserialize(true.into_deserializer()),
            JV::Raw(_) => seed.deserialize(7u64.into_deserializer()),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        match self.hint % 4 {
            0 => None,
            1 => Some(self.fields.len() - self.at),
            2 => Some(0),
            _ => Some(usize::MAX),
        }
    }
}

/// Records what is serialized.
#[derive(Default)]
struct Recording {
    len: Option<usize>,
    fields: Vec<(&'static str, String)>,
    ended: u32,
    failed: bool,
}

struct TextSer;

macro_rules! refuse {
    ($($m:ident($($t:ty),*);)*) => { $(fn $m(self, $(_: $t),*) -> Result<Self::Ok, SimError> { Err(SimError(concat!("unexpected ", stringify!($m)).to_string())) })* };
}
macro_rules! refuse_compound {
    ($($m:ident($($t:ty),*) -> $r:ident;)*) => { $(fn $m(self, $(_: $t),*) -> Result<Self::$r, SimError> { Err(SimError(concat!("unexpected ", stringify!($m)).to_string())) })* };
}
macro_rules! refuse_all {
    () => {
        refuse! {
            serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
            serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
            serialize_char(char); serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
            serialize_unit_variant(&'static str, u32, &'static str);
        }
        refuse_compound! {
            serialize_seq(Option<usize>) -> SerializeSeq; serialize_tuple(usize) -> SerializeTuple;
            serialize_tuple_struct(&'static str, usize) -> SerializeTupleStruct;
            serialize_tuple_variant(&'static str, u32, &'static str, usize) -> SerializeTupleVariant;
            serialize_map(Option<usize>) -> SerializeMap;
            serialize_struct_variant(&'static str, u32, &'static str, usize) -> SerializeStructVariant;
        }
        fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<Self::Ok, SimError> {
            Err(SimError("unexpected some".into()))
        }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<Self::Ok, SimError> {
            Err(SimError("unexpected newtype".into()))
        }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, SimError> {
            Err(SimError("unexpected variant".into()))
        }
    };
}

impl Serializer for TextSer {
    type Ok = String;
    type Error = SimError;
    type SerializeSeq = Impossible<String, SimError>;
    type SerializeTuple = Impossible<String, SimError>;
    type SerializeTupleStruct = Impossible<String, SimError>;
    type SerializeTupleVariant = Impossible<String, SimError>;
    type SerializeMap = Impossible<String, SimError>;
    type SerializeStruct = Impossible<String, SimError>;
    type SerializeStructVariant = Impossible<String, SimError>;
    refuse_all!();
    fn serialize_str(self, s: &str) -> Result<String, SimError> {
        step()?;
        Ok(s.to_string())
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SimError> {
        Err(SimError("unexpected struct".into()))
    }
}

impl<'a> Serializer for &'a mut Recording {
    type Ok = u32;
    type Error = SimError;
    type SerializeSeq = Impossible<u32, SimError>;
    type SerializeTuple = Impossible<u32, SimError>;
    type SerializeTupleStruct = Impossible<u32, SimError>;
    type SerializeTupleVariant = Impossible<u32, SimError>;
    type SerializeMap = Impossible<u32, SimError>;
    type SerializeStruct = &'a mut Recording;
    type SerializeStructVariant = Impossible<u32, SimError>;
    refuse_all!();
    fn serialize_str(self, _: &str) -> Result<u32, SimError> {
        Err(SimError("unexpected str".into()))
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<&'a mut Recording, SimError> {
        if let Err(e) = step() {
            self.failed = true;
            return Err(e);
        }
        self.len = Some(len);
        Ok(self)
    }
}

impl SerializeStruct for &mut Recording {
    type Ok = u32;
    type Error = SimError;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), SimError> {
        check!(!self.failed, "after-failure", "a field was serialized after a failure");
        match step().and_then(|()| v.serialize(TextSer)) {
            Ok(t) => {
                self.fields.push((k, t));
                Ok(())
            }
            Err(e) => {
                self.failed = true;
                Err(e)
            }
        }
    }
    fn end(self) -> Result<u32, SimError> {
        check!(!self.failed, "after-failure", "the record was ended after a failure");
        self.ended += 1;
        step()?;
        Ok(0x900d)
    }
}

// ---------------------------------------------------------------------------------------- bodies

#[derive(Clone, Debug, PartialEq)]
enum JV {
    Str(String),
    /// Anything else, as JSON.
    Raw(&'static str),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fmt {
    Json,
    Form,
    Sim,
}

#[derive(Clone, Debug)]
struct Body {
    fields: Vec<(String, JV)>,
}

const NEAR: &[&str] = &[
    "x", "oauth_token_", "oauth_tokens", "oauth_toke", "OAUTH_TOKEN", "Oauth_Token", "oauth_token_secre", "oauth_token_secret_", "oauth_token_secrets",
    "oauth_callback_confirmed", "identifier", "secret", "token", "oauth-token", " oauth_token", "oauth_token ", "", "oauth_token\0", "oauth", "user_id",
    "screen_name", "oauth_token_secret ", "oauth_session_handle", "ｏauth_token", "0", "oauth_token=", "oauth_token&x", "Credentials", "_token", "_secret",
];

const RAW: &[&str] = &[
    "null", "true", "false", "0", "-12.5e3", "18446744073709551615", "[]", "{}", "[1,[2,{\"a\":[]}],\"\\u0000\"]",
    "{\"oauth_token\":\"inner\",\"oauth_token_secret\":\"inner secret\"}", "[\"oauth_token\",\"oauth_token_secret\"]",
    "{\"x\":{\"oauth_token\":{\"oauth_token\":null}}}", "\t[ null ,{ \"oauth_token\" : 1 } ]",
];

fn unknown(f: Fmt) -> (String, JV) {
    let k = loop {
        let k = if chance(200) { pick(NEAR).to_string() } else { gen::text() };
        if k != ID && k != SECRET && k != "oauth_callback_confirmed" {
            break k;
        }
    };
    let v = if f == Fmt::Form || chance(128) { JV::Str(if chance(60) { pick(&[ID, SECRET]).to_string() } else { gen::text() }) } else { JV::Raw(pick(RAW)) };
    (k, v)
}

fn gen_pair() -> Pair {
    (gen::text(), if chance(100) { alnum() } else { gen::secret() })
}

/// A secret that cannot occur by chance.
fn alnum() -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    let mut r = Rng(simrt::mix(draw(GEN, u32::MAX) as u64, 0x5EC12));
    (0..24).map(|_| A[(r.next() >> 20) as usize % A.len()] as char).collect()
}

fn gen_body(f: Fmt) -> Body {
    let (id, secret) = gen_pair();
    let mut fields = vec![(ID.to_string(), JV::Str(id)), (SECRET.to_string(), JV::Str(secret))];
    match below(16) {
        0 => drop(fields.remove(0)),
        1 => drop(fields.remove(1)),
        2 => fields.clear(),
        3 => fields.push((ID.to_string(), JV::Str(gen::text()))),
        4 => fields.push((SECRET.to_string(), JV::Str(gen::text()))),
        5 => {
            // The same value again is a duplicate as well.
            let i = below(2);
            let d = fields[i].clone();
            fields.push(d);
        }
        6 if f != Fmt::Form => fields[below(2)].1 = JV::Raw(pick(RAW)),
        7 => {
            let i = below(2);
            fields[i].0 = pick(NEAR).to_string();
        }
        _ => {}
    }
    if chance(128) {
        fields.reverse();
    }
    for _ in 0..pickc(&[0, 0, 1, 2, 5]) {
        let at = below(fields.len() + 1);
        fields.insert(at, unknown(f));
    }
    Body { fields }
}

impl Body {
    fn expected(&self) -> Option<Pair> {
        let one = |k: &str| {
            let mut it = self.fields.iter().filter(|f| f.0 == k);
            match (it.next(), it.next()) {
                (Some((_, JV::Str(s))), None) => Some(s.clone()),
                _ => None,
            }
        };
        Some((one(ID)?, one(SECRET)?))
    }

    fn strings(&self) -> bool {
        self.fields.iter().all(|f| matches!(f.1, JV::Str(_)))
    }

    fn repeats(&self) -> bool {
        self.fields.iter().enumerate().any(|(i, f)| self.fields[..i].iter().any(|g| g.0 == f.0))
    }

    fn json(&self, r: &mut Rng, style: u32) -> String {
        let ws = |o: &mut String, r: &mut Rng| {
            if style & 1 != 0 {
                for _ in 0..r.next() % 3 {
                    o.push([' ', '\t', '\n', '\r'][(r.next() >> 9) as usize % 4]);
                }
            }
        };
        let string = |o: &mut String, r: &mut Rng, s: &str| {
            o.push('"');
            for c in s.chars() {
                let p = match style >> 1 & 3 {
                    0 => 0,
                    1 => 40,
                    2 => 128,
                    _ => 256,
                };
                let needs = c < ' ' || c == '"' || c == '\\';
                if needs || r.next() % 256 < p {
                    let short = ['"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t'].iter().position(|&x| x == c);
                    match short {
                        Some(i) if r.next() % 2 == 0 => {
                            o.push('\\');
                            o.push(['"', '\\', '/', 'b', 'f', 'n', 'r', 't'][i]);
                        }
                        _ => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                *o += &if r.next() % 2 == 0 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) };
                            }
                        }
                    }
                } else {
                    o.push(c);
                }
            }
            o.push('"');
        };
        let mut o = String::new();
        ws(&mut o, r);
        o.push('{');
        for (i, (k, v)) in self.fields.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            ws(&mut o, r);
            string(&mut o, r, k);
            ws(&mut o, r);
            o.push(':');
            ws(&mut o, r);
            match v {
                JV::Str(s) => string(&mut o, r, s),
                JV::Raw(x) => o += x,
            }
            ws(&mut o, r);
        }
        o.push('}');
        o
    }

    fn form(&self, r: &mut Rng, style: u32) -> String {
        let enc = |o: &mut String, r: &mut Rng, s: &str| {
            for &b in s.as_bytes() {
                let p = [0, 0, 60, 256][(style & 3) as usize];
                if b == b' ' && r.next() % 2 == 0 {
                    o.push('+');
                } else if model::unreserved(b) && r.next() % 256 >= p {
                    o.push(b as char);
                } else {
                    *o += &if style & 4 != 0 { format!("%{:02x}", b) } else { format!("%{:02X}", b) };
                }
            }
        };
        let mut o = String::new();
        for (i, (k, v)) in self.fields.iter().enumerate() {
            if i > 0 {
                o.push('&');
            }
            enc(&mut o, r, k);
            o.push('=');
            if let JV::Str(s) = v {
                enc(&mut o, r, s);
            }
        }
        o
    }
}

// ----------------------------------------------------------------------------- the caller's types

/// A caller's text type, which may fail, and which may use the library itself.
#[derive(Clone)]
struct S(String);

impl AsRef<str> for S {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl Debug for S {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("S")
    }
}
impl<'de> Deserialize<'de> for S {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<S, D::Error> {
        let s = String::deserialize(d)?;
        let _g = callback();
        if let Act::Err = tick(Site::Value) {
            return Err(de::Error::custom(INJECTED));
        }
        if s.len() % 3 == 0 && !s.is_empty() {
            probe("nested.decode");
            let inner: Result<Credentials, _> = serde_urlencoded::from_str("oauth_token_secret=b+c&x=&oauth_token=%61");
            match inner {
                Ok(c) => check!(c.identifier == "a" && c.secret == "b c", "nested", "a nested decoding gave {:?}, {:?}", c.identifier, c.secret),
                Err(e) => violation("nested", format!("a nested decoding failed: {}", e)),
            }
        }
        Ok(S(s))
    }
}
impl Serialize for S {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        {
            let _g = callback();
            if let Act::Err = tick(Site::Value) {
                return Err(ser::Error::custom(INJECTED));
            }
        }
        z.serialize_str(&self.0)
    }
}

/// How a client reads the response of a Temporary Credential Request.
#[derive(Deserialize, Serialize)]
struct Confirmed<T> {
    #[serde(flatten)]
    credentials: Credentials<T>,
    oauth_callback_confirmed: bool,
}

/// How the documentation recommends to store other credentials.
#[derive(Deserialize, Serialize)]
#[serde(remote = "Credentials")]
struct Def<T> {
    #[serde(rename = "client_identifier")]
    identifier: T,
    #[serde(rename = "client_secret")]
    secret: T,
}
#[derive(Deserialize, Serialize)]
struct Remote(#[serde(with = "Def")] Credentials);

/// The texts survive every conversion.
fn convert(mut c: Credentials<String>, n: u32) -> Pair {
    let other = Credentials::new("client\u{1}".to_string(), "client secret\u{1}".to_string());
    for i in 0..n {
        c = match draw(GEN, 14) + 0 * i {
            0 => c.map(|s| s),
            1 => c.map(String::into_boxed_str).map(String::from),
            2 => c.as_ref().map(String::from),
            3 => Credentials::<&str>::from(&c).map(|s| s.to_string()),
            4 => c.clone(),
            5 => Credentials::new(c.identifier().to_string(), c.secret().to_string()),
            6 => Token::new(other.clone(), c).token,
            7 => Token::new(c, other.clone()).client,
            8 => Token::new(other.as_ref(), c.as_ref()).map(String::from).token,
            9 => Token::from_ref(&c, &other).map_client(String::from).client,
            10 => Token::from_ref(&other, &c).map_token(String::from).token,
            11 => Token::from_parts("a\u{1}", "b\u{1}", &c.identifier, &c.secret).token().map(String::from),
            12 => Token::<&str>::from(&Token::new(c, other.clone())).client().map(String::from),
            _ => Token::new(other.clone(), c).as_ref().map_client(|s| s.to_string()).map_token(|s| s.to_string()).token,
        };
    }
    (c.identifier, c.secret)
}

fn pair<T: AsRef<str>>(c: Credentials<T>) -> Credentials<String> {
    c.as_ref().map(String::from)
}

// -------------------------------------------------------------------------------------- decoding

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Str,
    Slice,
    Reader,
    Value,
    Flatten,
    Borrowed,
    Cow,
    Stream,
}

const VIAS: [Via; 8] = [Via::Str, Via::Slice, Via::Reader, Via::Value, Via::Flatten, Via::Borrowed, Via::Cow, Via::Stream];

struct Job {
    body: Body,
    fmt: Fmt,
    text: String,
    cut: usize,
    via: Via,
    own: bool,
    io: IoPlan,
    io_seed: u64,
    way: u32,
}

fn gen_job() -> Job {
    let fmt = pickc(&[Fmt::Json, Fmt::Form, Fmt::Sim, Fmt::Json]);
    let via = pickc(&VIAS);
    let mut body = gen_body(fmt);
    if via == Via::Flatten && fmt != Fmt::Sim {
        let at = below(body.fields.len() + 1);
        let v = if fmt == Fmt::Form { JV::Str("true".into()) } else { JV::Raw("true") };
        body.fields.insert(at, ("oauth_callback_confirmed".into(), v));
    }
    if via == Via::Value && body.repeats() {
        // (The value type keeps the last one.)
        let mut seen = Vec::new();
        body.fields.retain(|f| !seen.contains(&f.0) && { seen.push(f.0.clone()); true });
    }
    let mut r = Rng(draw(GEN, 1 << 20) as u64);
    let style = draw(GEN, 8);
    let mut text = match fmt {
        Fmt::Json => body.json(&mut r, style),
        Fmt::Form => body.form(&mut r, style),
        Fmt::Sim => String::new(),
    };
    // Truncation is detectable in formats that say where they end.
    let cut = if fmt == Fmt::Json && fault_chance(50) { draw(FAULT, text.len() as u32) as usize } else { text.len() };
    if fmt == Fmt::Json && cut == text.len() && chance(40) {
        text += "\n ";
    }
    let cut = if cut + 2 >= text.len() { text.len().min(cut + 2) } else { cut };
    let io = io_plan(text.len());
    Job { body, fmt, cut, via, own: chance(90), io, io_seed: draw(FAULT, 1 << 20) as u64, way: draw(GEN, 1 << 28), text }
}

/// The result, the error, and whether the stream failed.
type Decoded = (Result<Credentials<String>, String>, bool);

impl Job {
    fn cut_short(&self) -> bool {
        self.cut < self.text.trim_end().len()
    }

    fn brief(&self) -> String {
        format!("{:?} via {:?} own {} cut {} of {:?}, fields {:?}", self.fmt, self.via, self.own, self.cut, self.text, self.body.fields)
    }

    fn decode_as<T: DeserializeOwned + AsRef<str>>(&self) -> Decoded {
        let fired = std::cell::Cell::new(false);
        let bytes = &self.text.as_bytes()[..self.cut];
        let mut out = Vec::new();
        let mut stream = Stream { data: bytes, out: &mut out, done: 0, p: self.io.clone(), r: Rng(self.io_seed), fired: &fired };
        fn e<E: Display + Debug>(e: E) -> String {
            format!("{} {:?}", e, e)
        }
        let r: Result<Credentials<String>, String> = match (self.fmt, self.via) {
            (Fmt::Sim, _) => {
                let mut rec = Record { fields: &self.body.fields, at: 0, pending: false, way: self.way, hint: self.way >> 5 };
                Credentials::<T>::deserialize(&mut rec).map(pair).map_err(e)
            }
            (Fmt::Json, Via::Str) => match std::str::from_utf8(bytes) {
                Ok(s) => serde_json::from_str::<Credentials<T>>(s).map(pair).map_err(e),
                Err(_) => serde_json::from_slice::<Credentials<T>>(bytes).map(pair).map_err(e),
            },
            (Fmt::Json, Via::Slice) => serde_json::from_slice::<Credentials<T>>(bytes).map(pair).map_err(e),
            (Fmt::Json, Via::Reader) => serde_json::from_reader::<_, Credentials<T>>(stream).map(pair).map_err(e),
            (Fmt::Json, Via::Value) => serde_json::from_reader::<_, serde_json::Value>(stream)
                .and_then(serde_json::from_value::<Credentials<T>>).map(pair).map_err(e),
            (Fmt::Json, Via::Flatten) => serde_json::from_reader::<_, Confirmed<T>>(stream).map(|c| pair(c.credentials)).map_err(e),
            (Fmt::Json, Via::Stream) => {
                let first = serde_json::Deserializer::from_reader(&mut stream).into_iter::<Credentials<T>>().next();
                first.unwrap_or_else(|| serde_json::from_str("")).map(pair).map_err(e)
            }
            (Fmt::Json, Via::Borrowed) => serde_json::from_slice::<Credentials<&str>>(bytes).map(pair).map_err(e),
            (Fmt::Json, Via::Cow) => serde_json::from_slice::<Credentials<Cow<'_, str>>>(bytes).map(pair).map_err(e),
            (Fmt::Form, Via::Str) => serde_urlencoded::from_str::<Credentials<T>>(&self.text).map(pair).map_err(e),
            (Fmt::Form, Via::Slice) => serde_urlencoded::from_bytes::<Credentials<T>>(bytes).map(pair).map_err(e),
            (Fmt::Form, Via::Reader | Via::Stream | Via::Value) => serde_urlencoded::from_reader::<Credentials<T>, _>(stream).map(pair).map_err(e),
            (Fmt::Form, Via::Flatten) => serde_urlencoded::from_reader::<Confirmed<T>, _>(stream).map(|c| pair(c.credentials)).map_err(e),
            (Fmt::Form, Via::Borrowed) => serde_urlencoded::from_bytes::<Credentials<&str>>(bytes).map(pair).map_err(e),
            (Fmt::Form, Via::Cow) => serde_urlencoded::from_bytes::<Credentials<Cow<'_, str>>>(bytes).map(pair).map_err(e),
        };
        (r, fired.get())
    }

    fn run(&self, what: &str, faults: Option<(u64, CMode)>) {
        eval();
        set_plan(Plan { c_fail: faults, ..Plan::default() });
        let got = sut(|| if self.own { self.decode_as::<S>() } else { self.decode_as::<String>() });
        let p = set_plan(Plan::default());
        let fired = p.c_fired.is_some();
        match got {
            Err(Panicked { injected: true, .. }) => probe("decode.injected_panic"),
            Err(p) => violation("panic", format!("{}: {} panicked: {} at {}", what, self.brief(), p.msg, p.loc)),
            Ok((Err(e), io)) => {
                ev(|| format!("{}: refused {}: {}", what, self.brief(), e));
                let excused = fired || io || self.cut_short() || self.via == Via::Borrowed;
                check!(
                    excused || self.body.expected().is_none(), "refused",
                    "{}: good credentials were refused: {}: {}", what, e, self.brief()
                );
                probe("decode.refused");
                // (`&str` itself reports a text that it cannot borrow.)
                if self.body.strings() && self.via != Via::Borrowed {
                    for (k, v) in &self.body.fields {
                        if let (true, JV::Str(s)) = (k == SECRET, v) {
                            let secret = s.len() >= 20 && s.bytes().all(|b| b.is_ascii_alphanumeric());
                            check!(!secret || !e.contains(&**s), "secret-leaked", "{}: the error {:?} contains the secret: {}", what, e, self.brief());
                        }
                    }
                }
            }
            Ok((Ok(c), io)) => {
                ev(|| format!("{}: read {:?} {:?} from {}", what, c.identifier, c.secret, self.brief()));
                check!(!fired && !io, "bogus-success", "{}: {:?}, {:?} were read although something failed: {}", what, c.identifier, c.secret, self.brief());
                check!(!self.cut_short(), "truncated", "{}: {:?}, {:?} were read from a truncated text: {}", what, c.identifier, c.secret, self.brief());
                match self.body.expected() {
                    None => violation("accepted", format!("{}: {:?}, {:?} were read although it should be refused: {}", what, c.identifier, c.secret, self.brief())),
                    Some(want) => {
                        check!(
                            (&want.0, &want.1) == (&c.identifier, &c.secret), "wrong-pair",
                            "{}: {:?}, {:?} were read: {}", what, c.identifier, c.secret, self.brief()
                        );
                        probe("decode.read");
                    }
                }
            }
        }
    }
}

/// Decodes the same response again and again (C19).
pub fn decoder() -> Box<dyn FnMut()> {
    let j = gen_job();
    let f = some_fault();
    ev(|| j.brief());
    Box::new(move || {
        set_plan(Plan { c_fail: f, ..Plan::default() });
        let r = sut(|| if j.own { j.decode_as::<S>() } else { j.decode_as::<String>() });
        set_plan(Plan::default());
        probe(if matches!(r, Ok((Ok(_), _))) { "steady.read" } else { "steady.refused" });
    })
}

/// Encodes the same credentials again and again (C19).
pub fn encoder() -> Box<dyn FnMut()> {
    let c = gen_pair();
    let enc = pickc(&[Enc::Json, Enc::Pretty, Enc::Remote, Enc::Confirmed, Enc::Form]);
    let (own, io, seed, f) = (chance(128), io_plan(120), draw(FAULT, 1 << 20) as u64, some_fault());
    Box::new(move || {
        set_plan(Plan { c_fail: f, ..Plan::default() });
        let r = encode(&c, enc, own, &io, seed, &mut Vec::new(), &std::cell::Cell::new(false));
        set_plan(Plan::default());
        probe(if matches!(r, Ok(Ok(()))) { "steady.written" } else { "steady.not_written" });
    })
}

/// Converts the same credentials again and again (C19).
pub fn converter() -> Box<dyn FnMut()> {
    let c = gen_pair();
    let n = 2 + draw(GEN, 6);
    Box::new(move || {
        let _ = sut(|| convert(Credentials::new(c.0.clone(), c.1.clone()), n));
    })
}

fn some_fault() -> Option<(u64, CMode)> {
    if fault_chance(70) { Some((draw(FAULT, 16) as u64, if draw(FAULT, 2) == 0 { CMode::Err } else { CMode::Panic })) } else { None }
}

/// Responses of servers and files, whatever they contain and however they arrive.
pub fn responses() {
    world::swarm();
    let jobs: &'static Vec<Job> = Box::leak(Box::new((0..1 + below(4)).map(|_| gen_job()).collect()));
    for j in jobs {
        state(simrt::mix(j.fmt as u64 * 64 + j.via as u64 * 8 + j.own as u64, j.body.fields.iter().fold(0, |h, f| simrt::fnv(h, f.0.as_bytes()))));
    }
    if chance(150) {
        for j in jobs {
            j.run("response", some_fault());
        }
    } else {
        rt().edges_on = chance(200);
        rt().preempt_span = pickc(&[2, 3, 8, 64]);
        let mut fs: Vec<(usize, Box<dyn FnOnce() + Send>)> = Vec::new();
        for t in 0..2 + below(2) {
            let work: Vec<(usize, Option<(u64, CMode)>)> = (0..1 + below(3)).map(|_| (below(jobs.len()), some_fault())).collect();
            fs.push((
                rt().main_node,
                Box::new(move || {
                    for (i, f) in work {
                        jobs[i].run(&format!("thread {}", t), f);
                    }
                }),
            ));
        }
        probe("threads.runs");
        for p in simrt::run_threads(fs).into_iter().flatten() {
            violation("panic", format!("a thread panicked: {}", p));
        }
        rt().edges_on = false;
    }
    // What failed before does not matter.
    for j in jobs {
        let again = Job { io: IoPlan::default(), text: j.text.clone(), body: j.body.clone(), ..*j };
        again.run("afterwards", None);
    }
}

// --------------------------------------------------------------------------------------- storage

#[derive(Clone, Copy, Debug, PartialEq)]
enum Enc {
    Json,
    Pretty,
    Form,
    Remote,
    Confirmed,
}

/// Serializes into bytes that the stream accepted. `Ok(false)`: refused.
fn encode(c: &Pair, enc: Enc, own: bool, io: &IoPlan, seed: u64, out: &mut Vec<u8>, fired: &std::cell::Cell<bool>) -> Result<Result<(), String>, Panicked> {
    let e = |e: &dyn Display| e.to_string();
    sut(|| {
        let mut stream = Stream { data: &[], out, done: 0, p: io.clone(), r: Rng(seed), fired };
        let plain = Credentials::new(c.0.clone(), c.1.clone());
        let mine = Credentials::new(S(c.0.clone()), S(c.1.clone()));
        match enc {
            Enc::Json if own => serde_json::to_writer(&mut stream, &mine).map_err(|x| e(&x)),
            Enc::Json => serde_json::to_writer(&mut stream, &plain.as_ref()).map_err(|x| e(&x)),
            Enc::Pretty => serde_json::to_writer_pretty(&mut stream, &mine).map_err(|x| e(&x)),
            Enc::Form => {
                let s = if own { serde_urlencoded::to_string(&mine) } else { serde_urlencoded::to_string(&plain) };
                s.map_err(|x| e(&x)).and_then(|s| stream.write_all(s.as_bytes()).map_err(|x| e(&x)))
            }
            Enc::Remote => serde_json::to_writer(&mut stream, &Remote(plain)).map_err(|x| e(&x)),
            Enc::Confirmed => serde_json::to_writer(&mut stream, &Confirmed { credentials: mine, oauth_callback_confirmed: true }).map_err(|x| e(&x)),
        }
    })
}

/// A store of credentials: an append-only log (JSON) or one file that is replaced (form), on a disk
/// that loses what was not synced.
pub fn storage() {
    world::swarm();
    let enc = pickc(&[Enc::Json, Enc::Pretty, Enc::Remote, Enc::Confirmed, Enc::Form]);
    state(enc as u64);
    let log = enc != Enc::Form;
    let mut durable: Vec<u8> = Vec::new();
    let mut file: Vec<u8> = Vec::new();
    let mut saved: Vec<Pair> = Vec::new();
    let mut synced = 0;
    for step in 0..2 + below(8) {
        match below(5) {
            0 | 1 | 2 => {
                let c = gen_pair();
                let io = io_plan(60);
                let own = chance(100);
                let mut out = Vec::new();
                let fired = std::cell::Cell::new(false);
                set_plan(Plan { c_fail: some_fault(), ..Plan::default() });
                let r = encode(&c, enc, own, &io, draw(FAULT, 1 << 20) as u64, &mut out, &fired);
                let p = set_plan(Plan::default());
                let failed = fired.get() || p.c_fired.is_some();
                eval();
                ev(|| format!("save {} {:?}: {:?}, failed {}: {:?}", step, c, r.as_ref().map_err(|p| &p.msg), failed, String::from_utf8_lossy(&out)));
                match r {
                    Err(Panicked { injected: true, .. }) => probe("save.injected_panic"),
                    Err(p) => violation("panic", format!("saving {:?} panicked: {} at {}", c, p.msg, p.loc)),
                    Ok(Err(e)) => {
                        check!(failed, "refused", "saving {:?} as {:?} failed: {}", c, enc, e);
                        probe("save.failed");
                    }
                    Ok(Ok(())) => {
                        check!(!failed, "bogus-success", "saving {:?} as {:?} succeeded although something failed", c, enc);
                        format_of(&c, enc, &out);
                        probe("save.done");
                        if !log {
                            // A new file takes the old one's place.
                            file.clear();
                            saved.clear();
                            synced = 0;
                        }
                        saved.push(c);
                        file.extend(&out);
                        if log {
                            file.push(b'\n');
                        } else {
                            durable = file.clone();
                            synced = 1;
                        }
                    }
                }
                if log && chance(90) {
                    durable = file.clone();
                    synced = saved.len();
                }
            }
            3 if log => {
                // Power is lost; part of what was not synced is gone.
                probe("fault.power_loss");
                let n = draw(FAULT, (file.len() - durable.len()) as u32 + 1) as usize;
                let torn: Vec<u8> = file[..durable.len() + n].to_vec();
                let got = load(&torn, enc, &saved);
                check!(got >= synced, "lost", "{} of {} synced credentials were read back from {:?}", got, synced, String::from_utf8_lossy(&torn));
                // The store drops what it could not read, and goes on.
                saved.truncate(got);
                let mut keep = 0;
                for _ in 0..got {
                    keep += end_of_record(&torn[keep..]);
                }
                file = torn[..keep].to_vec();
                durable = file.clone();
                synced = got;
            }
            _ => {
                let got = load(&file, enc, &saved);
                check!(got == saved.len(), "lost", "{} of {} credentials were read back from {:?}", got, saved.len(), String::from_utf8_lossy(&file));
            }
        }
    }
    recorded();
}

fn end_of_record(b: &[u8]) -> usize {
    // Records are objects without nested braces outside of strings.
    let (mut string, mut esc) = (false, false);
    for (i, &c) in b.iter().enumerate() {
        match c {
            _ if esc => esc = false,
            b'\\' if string => esc = true,
            b'"' => string = !string,
            b'}' if !string => return i + 1,
            _ => {}
        }
    }
    b.len()
}

/// What is written is what the specification (or the caller) says.
fn format_of(c: &Pair, enc: Enc, out: &[u8]) {
    let text = String::from_utf8_lossy(out).into_owned();
    let names = if enc == Enc::Remote { ("client_identifier", "client_secret") } else { (ID, SECRET) };
    if enc == Enc::Form {
        let mut ps = text.split('&').map(|p| {
            let (k, v) = p.split_once('=').unwrap_or((p, "\0no value"));
            (k.to_string(), model::unpct_strict(&v.replace('+', " ")).unwrap_or_else(|_| v.replace('+', " ")))
        }).collect::<Vec<_>>();
        ps.sort();
        // (The encoder of serde_urlencoded leaves `*` alone.)
        let want = vec![(ID.to_string(), c.0.clone()), (SECRET.to_string(), c.1.clone())];
        let lax = |s: &str| model::pct(s.as_bytes());
        let same = ps.len() == 2 && ps.iter().zip(&want).all(|(a, b)| a.0 == b.0 && (a.1 == b.1 || lax(&a.1) == lax(&b.1) || unlax(&a.1) == b.1));
        check!(same, "format", "{:?} was written as {:?}", c, text);
        return;
    }
    let v: serde_json::Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => violation("format", format!("{:?} was written as {:?}: {}", c, text, e)),
    };
    let o = v.as_object();
    let n = if enc == Enc::Confirmed { 3 } else { 2 };
    let field = |k: &str| o.and_then(|o| o.get(k)).and_then(|v| v.as_str());
    check!(
        o.map_or(0, |o| o.len()) == n && field(names.0) == Some(&c.0) && field(names.1) == Some(&c.1), "format",
        "{:?} was written as {:?}", c, text
    );
}

fn unlax(s: &str) -> String {
    let mut out = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let hex = |j: usize| b.get(j).and_then(|c| (*c as char).to_digit(16));
        match (b[i], hex(i + 1), hex(i + 2)) {
            (b'%', Some(h), Some(l)) => {
                out.push((h * 16 + l) as u8);
                i += 3;
            }
            (c, ..) => {
                out.push(c);
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}

/// Reads a store back; returns how many credentials were read before the end or an error.
fn load(bytes: &[u8], enc: Enc, saved: &[Pair]) -> usize {
    eval();
    let mut n = 0;
    // A read that fails is repeated, and then succeeds.
    for attempt in 0..2 {
        let io = if attempt == 0 { io_plan(bytes.len()) } else { IoPlan { fail_at: None, ..io_plan(bytes.len()) } };
        let fired = std::cell::Cell::new(false);
        let seed = draw(FAULT, 1 << 20) as u64;
        let r = sut(|| {
            let mut out = Vec::new();
            let mut s = Stream { data: bytes, out: &mut out, done: 0, p: io, r: Rng(seed), fired: &fired };
            let mut v: Vec<Result<Credentials<String>, String>> = Vec::new();
            let e = |e: &dyn Display| e.to_string();
            match enc {
                Enc::Json => for c in serde_json::Deserializer::from_reader(&mut s).into_iter::<Credentials>() {
                    v.push(c.map_err(|x| e(&x)))
                },
                Enc::Pretty => for c in serde_json::Deserializer::from_reader(&mut s).into_iter::<Credentials<Box<str>>>() {
                    v.push(c.map(pair).map_err(|x| e(&x)))
                },
                Enc::Confirmed => for c in serde_json::Deserializer::from_reader(&mut s).into_iter::<Confirmed<String>>() {
                    v.push(c.map(|c| c.credentials).map_err(|x| e(&x)))
                },
                Enc::Remote => for c in serde_json::Deserializer::from_reader(&mut s).into_iter::<Remote>() {
                    v.push(c.map(|c| c.0).map_err(|x| e(&x)))
                },
                Enc::Form if bytes.is_empty() => {}
                Enc::Form => v.push(serde_urlencoded::from_reader::<Credentials, _>(&mut s).map_err(|x| e(&x))),
            }
            v
        });
        let v = match r {
            Ok(v) => v,
            Err(Panicked { injected: true, .. }) => continue,
            Err(p) => violation("panic", format!("reading {:?} panicked: {} at {}", String::from_utf8_lossy(bytes), p.msg, p.loc)),
        };
        n = 0;
        for c in v {
            match c {
                Err(e) => {
                    ev(|| format!("loading stopped after {}: {}", n, e));
                    break;
                }
                Ok(c) => {
                    let (a, b) = (c.identifier.clone(), c.secret.clone());
                    let got = convert(c, draw(GEN, 4));
                    check!((a, b) == got, "conversion", "conversions changed the credentials to {:?}", got);
                    check!(
                        saved.get(n) == Some(&got), "wrong-pair", "{:?} was read back in place of {:?} from {:?}",
                        got, saved.get(n), String::from_utf8_lossy(bytes)
                    );
                    n += 1;
                }
            }
        }
        if !fired.get() {
            break;
        }
    }
    ev(|| format!("loaded {} of {}", n, saved.len()));
    n
}

/// Any format gets exactly two named texts, or an error.
fn recorded() {
    eval();
    let c = gen_pair();
    let own = chance(128);
    set_plan(Plan { c_fail: some_fault(), ..Plan::default() });
    let mut rec = Recording::default();
    let r = sut(|| {
        if own {
            Credentials::new(S(c.0.clone()), S(c.1.clone())).serialize(&mut rec)
        } else {
            Credentials::new(&*c.0, &*c.1).serialize(&mut rec)
        }
    });
    let p = set_plan(Plan::default());
    match r {
        Err(Panicked { injected: true, .. }) => probe("save.injected_panic"),
        Err(p) => violation("panic", format!("serializing {:?} panicked: {} at {}", c, p.msg, p.loc)),
        Ok(Err(e)) => check!(p.c_fired.is_some() && e.0 == INJECTED, "refused", "serializing {:?} failed: {}", c, e),
        Ok(Ok(n)) => {
            check!(p.c_fired.is_none(), "bogus-success", "serializing {:?} succeeded although something failed", c);
            let mut f = rec.fields.clone();
            f.sort();
            check!(
                n == 0x900d && rec.ended == 1 && rec.len == Some(2) && f == vec![(ID, c.0.clone()), (SECRET, c.1.clone())], "format",
                "{:?} was serialized as {:?} (of {:?} fields)", c, rec.fields, rec.len
            );
        }
    }
}
