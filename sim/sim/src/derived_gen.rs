// Written by sim/gen/derived.py.
#![allow(dead_code, non_snake_case, unused_variables, unused_mut)]
use std::borrow::Cow;
use std::sync::Arc;

use crate::c16::{blank, blank_text, cow, fx, fx_text, fx_val, leak, leak_show, shadow, Alias, Blank, Blankest, Fx, Maybe, Opaque, Show, Spec, Unit};
use crate::harness::Val;

use crate::c16::{blank as value, fx as tmp};

#[derive(oauth::Request, Clone)]
pub struct G0 {

}

#[derive(oauth::Request, Clone)]
pub struct G1<T0: Clone, T1: Clone = Val> where T0: Blank, T1: Blank {
    pub b: Val,
    #[oauth1(skip_if = blank)]
    #[oauth1(encoded)]
    oauth_consumer_keyx: Option<T0>,
    #[oauth1(fmt = ::core::fmt::Display::fmt)]
    r#type: T1,
    #[oauth1(skip_if = Blank::blank,)]
    _x: Option<Val>,
    #[oauth1(option = true)]
    f: Maybe<Val>,
    #[oauth1(rename = "0", skip_if = blank)]
    #[oauth1(fmt = Fx::fx)]
    pub X: Box<Val>,
    #[oauth1(skip,)]
    pub oauth_versioo: Opaque,
    pub(crate) bind: Val,
}

macro_rules! m2 { ($t0:ty) => {
#[derive(oauth::Request, Clone)]
pub struct G2<T0, T1> where T0: Blank {
    oauth_signature_methoc: shadow::Option<Val>,
    #[oauth1(rename = r#"a.b-c~d"#, skip_if = value,)]
    pub(crate) foo: Box<Val>,
    /// A field.
    #[oauth1(skip)]
    oauth_verifies: Opaque,
    #[oauth1(rename = "oauth_token_")]
    m: shadow::Option<Val>,
    #[oauth1(skip_if = Blank::blank,)]
    #[oauth1(fmt = Fx::fx, option = false)]
    r#match: T0,
    #[oauth1(option = true, encoded,)]
    ser: Maybe<Val>,
    _S: $t0,
    #[oauth1(rename = "oauth_signature_methodx", encoded)]
    pub(crate) oauth_: Option<T1>,
}
}; }
m2!(Option<Val>);

#[derive(oauth::Request, Clone)]
pub struct G3<'a, T0: Clone, const N: usize> where T0: Blank {
    pub X: Alias,
    #[oauth1(rename = "oauti")]
    #[oauth1(encoded)]
    #[oauth1(fmt = crate::c16::fx)]
    #[allow(dead_code)]
    pub(crate) tmp: Option<&'a Val>,
    #[oauth1(fmt = fx)]
    pub m: Box<Val>,
    /// A field.
    #[oauth1(rename = "oauth_session_handle",)]
    oauth_timestamq: Val,
    /// A field.
    #[oauth1(rename = r#"a"#, option = false, skip)]
    zz: Opaque,
    #[cfg_attr(all(), oauth1(fmt = tmp))]
    #[allow(dead_code)]
    oauth_a: T0,
    #[oauth1(skip)]
    n: [(); N],
}

#[derive(oauth::Request, Clone)]
pub struct G4<T0> where T0: Blank {
    #[oauth1(skip_if = value)]
    #[oauth1(rename = "oauth~")]
    pub oauth_versioo: Option<Val>,
    /// A field.
    #[cfg_attr(all(), oauth1(option = true, fmt = fx_val, rename = r#"-"#))]
    pub(crate) fmt: Maybe<Alias>,
    #[oauth1(encoded)]
    #[oauth1(rename = "o\u{61}\u{75}t\x68\x5f\x74\x6f\x6b\u{65}n_")]
    #[oauth1(fmt = ::core::fmt::Display::fmt,)]
    foo: Option<T0>,
    #[oauth1(rename = "\u{7e}")]
    #[oauth1(skip)]
    zz: Opaque,
}

#[derive(oauth::Request, Clone)]
pub struct G5 {
    #[cfg_attr(all(), oauth1(encoded, rename = "A", fmt = fx_val,))]
    pub X: Box<Val>,
}

macro_rules! m6 { ($t0:ty) => {
#[derive(oauth::Request, Clone)]
pub struct G6<'a, T0 = Val> where T0: Blank {
    #[oauth1(skip_if = crate::c16::blank)]
    oauth_timestamq: Val,
    /// A field.
    #[oauth1(encoded, skip_if = blank)]
    #[oauth1(fmt = fx)]
    oauth_nonc: T0,
    #[oauth1(rename = r#"."#,)]
    f: $t0,
    #[oauth1(option = true, rename = "0",)]
    pub helper: ::core::option::Option<Alias>,
    #[cfg_attr(all(), oauth1(skip))]
    pub(crate) serializer: Opaque,
    pub x0: Option<&'a Val>,
    #[oauth1()]
    pub(crate) oauth_tokem: Box<Val>,
    /// A field.
    #[oauth1()]
    a: Option<&'a Val>,
}
}; }
m6!(Val);

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G7 {
    #[oauth1(encoded)]
    pub(crate) helper: Option<Val>,
}

#[derive(oauth::Request, Clone)]
pub struct G8<'a> {
    #[oauth1(encoded)]
    pub(crate) oauth_: Val,
    Bar: &'a Val,
    #[oauth1(skip, option = true)]
    oauth_a: Maybe<Box<Val>>,
}

#[derive(oauth::Request, Clone)]
pub struct G9 {

}

#[derive(oauth::Request, Clone)]
pub struct G10<'a, T0, T1> {
    #[oauth1(skip_if = Blank::blank)]
    #[oauth1(option = false)]
    #[cfg_attr(all(), oauth1(rename = "_"))]
    pub(crate) a: Val,
    #[oauth1(rename = r#"c2"#, option = true)]
    pub this: ::core::option::Option<T0>,
    #[oauth1(rename = "Z\x65\u{74}\u{61}")]
    pub r#fn: Option<Val>,
    #[oauth1(rename = "\u{7a}zz", encoded, skip_if = Blank::blank)]
    S: Val,
    #[oauth1(option = true, rename = "oauth_verifiez")]
    pub helper: Maybe<T1>,
    #[cfg_attr(all(), oauth1(fmt = ::core::fmt::Display::fmt))]
    pub(crate) oauth_z: &'a Val,
}

#[derive(oauth::Request, Clone)]
pub struct G11<T0: 'static, const N: usize> where T0: Blank {
    #[oauth1(rename = r"oauth_nonce2",)]
    #[oauth1(fmt = crate::c16::fx, encoded,)]
    pub(crate) bind: T0,
    #[oauth1(option = false)]
    #[allow(dead_code)]
    pub(crate) a: Val,
    #[oauth1(skip)]
    n: [(); N],
}

#[derive(oauth::Request, Clone)]
pub struct G12<'a, T0> {
    #[cfg_attr(all(), oauth1(fmt = tmp))]
    pub next_param: Option<Val>,
    #[oauth1(rename = r#"oauth_session_handle"#, encoded,)]
    pub(crate) r#fn: Option<T0>,
    #[oauth1(fmt = crate::c16::fx, option = true)]
    oauth_signature_methoc: Option<&'a Val>,
}

macro_rules! m13 { ($t0:ty) => {
#[derive(oauth::Request, Clone)]
pub struct G13<T0: Clone, T1> {
    pub next_param: Val,
    #[cfg_attr(all(), oauth1(rename = r#"Zeta"#))]
    pub(crate) _S: $t0,
    #[oauth1(encoded)]
    oauth_verifies: Option<T0>,
    m: Option<Val>,
    #[oauth1(encoded,)]
    #[cfg_attr(all(), oauth1(option = true, skip_if = Val::is_blank))]
    pub(crate) oauth_a: Option<Val>,
    #[oauth1(skip)]
    oauth_: Opaque,
    /// A field.
    #[oauth1(option = true)]
    #[oauth1(rename = "c2")]
    #[allow(dead_code)]
    S: Maybe<Box<Val>>,
    #[oauth1(encoded)]
    #[cfg_attr(all(), oauth1(rename = "oauth_nonce2"))]
    pub(crate) x0: T1,
}
}; }
m13!(Val);

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G14 {
    #[oauth1(rename = r#"oauth_callbac"#)]
    pub Bar: Val,
}

#[derive(oauth::Request, Clone)]
pub struct G15 {

}

#[derive(oauth::Request, Clone)]
pub struct G16 {

}

#[derive(oauth::Request, Clone)]
pub struct G17<'a, T0, T1: 'static> where T1: Blank {
    #[oauth1(rename = "oauth_nonce2")]
    pub(crate) r#type: T0,
    #[oauth1(option = true, skip_if = crate::c16::blank, rename = "\u{63}\x32")]
    #[oauth1(fmt = crate::c16::fx)]
    pub(crate) helper: Maybe<T1>,
    Bar: shadow::Option<Val>,
    #[oauth1(skip_if = Blank::blank,)]
    pub foo: Box<Val>,
    #[oauth1(skip_if = Val::is_blank, rename = "oauth_session_handle")]
    serializer: Val,
    #[oauth1(encoded)]
    #[oauth1(option = true)]
    pub x0: Option<&'a Val>,
}

#[derive(oauth::Request, Clone)]
pub struct G18<'a, T0, T1, T2> where T0: Blank {
    #[oauth1(skip_if = blank, fmt = tmp)]
    #[oauth1(encoded)]
    pub zz: T0,
    _x: &'a Val,
    #[oauth1(rename = "0",)]
    pub(crate) oauth_nonc: &'a Val,
    pub(crate) S: T1,
    #[oauth1(encoded)]
    b: Val,
    #[cfg_attr(all(), oauth1(encoded))]
    pub Bar: shadow::Option<Val>,
    #[oauth1(rename = "\x6f\x61u\u{74}h\x2d\u{78}", encoded)]
    r#fn: Val,
    #[cfg_attr(all(), oauth1(encoded))]
    X: shadow::Option<Val>,
    #[oauth1(rename = "oauth_session_handle", encoded)]
    oauth_a: Box<Val>,
    #[oauth1(option = true, rename = ".")]
    pub(crate) oauth_consumer_keyx: Option<T2>,
    pub(crate) a: &'a Val,
}

#[derive(oauth::Request, Clone)]
pub struct G19<T0, const N: usize> where T0: Blank {
    pub(crate) helper: Option<Val>,
    #[oauth1(skip_if = blank)]
    pub oauth_verifies: T0,
    #[oauth1(fmt = ::core::fmt::Display::fmt)]
    oauth_: Alias,
    #[oauth1(skip)]
    n: [(); N],
}

#[derive(oauth::Request, Clone)]
pub struct G20<'a> {
    #[oauth1(skip_if = Val::is_blank)]
    S: Val,
    #[oauth1(rename = r#"Zeta"#)]
    #[oauth1(skip)]
    oauth_signature_methoc: Box<Val>,
    #[oauth1(rename = "oauth_session_handle")]
    #[oauth1(option = false)]
    _S: &'a Val,
    #[oauth1(encoded, option = true)]
    b: ::core::option::Option<Val>,
    #[oauth1(encoded)]
    pub(crate) oauth_: &'a Val,
    #[oauth1(skip_if = Val::is_blank)]
    foo: Option<Val>,
    #[oauth1(option = true, rename = "oauth_signature_methodx")]
    pub(crate) f: Option<&'a Val>,
    #[oauth1(fmt = fx_val)]
    tmp: Option<Val>,
}

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G21<'a, T0: Clone = Val> where T0: Blank {
    #[oauth1(encoded)]
    #[oauth1(fmt = fx_val)]
    oauth_z: Val,
    #[oauth1(skip_if = Blank::blank)]
    f: Option<T0>,
    #[oauth1(encoded)]
    #[oauth1(fmt = Fx::fx,)]
    #[oauth1(option = true)]
    pub(crate) helper: ::core::option::Option<Val>,
    /// A field.
    #[oauth1(option = false)]
    #[oauth1(encoded)]
    pub(crate) Bar: shadow::Option<Val>,
    #[oauth1(option = true, encoded)]
    pub(crate) b: ::core::option::Option<Val>,
    #[oauth1(rename = "0")]
    #[oauth1(encoded)]
    oauth_version1: Option<Val>,
    #[oauth1(rename = "oauth_callbac")]
    #[oauth1(option = true)]
    oauth_signature_methoc: ::core::option::Option<&'a Val>,
    pub(crate) zz: Option<Val>,
    #[oauth1(rename = "\u{6f}a\x75\u{74}\u{68}_v\u{65}\u{72}\u{69}fi\u{65}\u{7a}")]
    this: Option<&'a Val>,
    #[oauth1(skip_if = Blank::blank)]
    r#type: Val,
    #[oauth1(encoded,)]
    pub(crate) X: Option<Val>,
}

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G22 {
    #[oauth1(skip,)]
    #[allow(dead_code)]
    pub serializer: Opaque,
}

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G23<'a> {
    #[oauth1(skip_if = Val::is_blank)]
    pub(crate) this: Val,
    #[oauth1(skip_if = Blank::blank, fmt = tmp,)]
    pub(crate) oauth_a: &'a Val,
    #[oauth1(skip_if = crate::c16::blank)]
    #[oauth1(rename = r"oauth_session_handle")]
    tmp: Val,
}

#[derive(oauth::Request, Clone)]
pub struct G24 {
    #[oauth1(skip, rename = r#"oauth_signature_methodx"#)]
    pub this: Opaque,
    pub value: Val,
    #[oauth1(encoded)]
    next_param: Val,
}

#[derive(oauth::Request, Clone)]
pub struct G25<'a> {
    #[allow(dead_code)]
    pub fmt: Option<&'a Val>,
    #[oauth1(skip_if = blank)]
    pub(crate) this: Option<Box<Val>>,
    #[oauth1()]
    pub oauth_z: &'a Val,
}

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G26 {

}

#[derive(oauth::Request, Clone)]
pub struct G27<const N: usize> {
    #[oauth1(skip)]
    pub next_param: Opaque,
    #[oauth1(option = true)]
    #[oauth1(encoded)]
    pub oauth_version1: Option<Val>,
    oauth_z: Box<Val>,
    /// A field.
    #[oauth1(skip_if = value, rename = "a")]
    #[oauth1(encoded)]
    pub bind: Val,
    #[oauth1(skip)]
    n: [(); N],
}

#[derive(oauth::Request, Clone)]
pub struct G28<'a, T0> where T0: Blank {
    #[cfg_attr(all(), oauth1(skip))]
    pub _x: Opaque,
    #[oauth1(encoded)]
    #[oauth1(fmt = crate::c16::fx,)]
    pub(crate) oauth_callbackx: Val,
    /// A field.
    #[oauth1(rename = "0", option = true)]
    pub tmp: ::core::option::Option<&'a Val>,
    #[oauth1(fmt = Fx::fx)]
    pub foo: T0,
    #[oauth1(rename = "o\x61u\u{74}\u{68}\x5f\u{74}\x69\x6d\x65st\u{61}m",)]
    pub(crate) oauth_: shadow::Option<Val>,
    #[oauth1(rename = r#"Zeta"#, encoded)]
    pub f: Val,
    #[cfg_attr(all(), oauth1(option = true))]
    #[oauth1(fmt = crate::c16::fx, rename = "oauth_token_")]
    #[cfg_attr(all(), oauth1(skip_if = value))]
    pub(crate) oauth_consumer_keyx: Option<Val>,
    #[oauth1(rename = r"9")]
    #[oauth1(skip)]
    bind: Opaque,
}

#[derive(oauth::Request, Clone)]
pub struct G29<'a, T0, T1, T2> where T0: Blank, T2: Blank {
    /// A field.
    #[oauth1(rename = r#"."#, encoded)]
    #[oauth1(fmt = ::core::fmt::Display::fmt,)]
    pub(crate) helper: Alias,
    pub(crate) this: Val,
    /// A field.
    pub zz: Option<Val>,
    #[oauth1(option = false)]
    #[oauth1(encoded,)]
    #[oauth1(rename = "\u{6f}a\x75\x74\x68\u{2d}x", fmt = Fx::fx)]
    pub oauth_consumer_keyx: T0,
    #[oauth1(skip)]
    pub(crate) m: T1,
    #[oauth1(rename = "~", encoded,)]
    tmp: Val,
    #[oauth1(rename = r#"oauth~"#,)]
    #[oauth1(fmt = ::core::fmt::Display::fmt)]
    pub _S: T2,
    #[oauth1(encoded,)]
    pub _x: &'a Val,
    #[oauth1(encoded)]
    pub(crate) bind: Val,
    #[oauth1(option = true, skip_if = blank, fmt = ::core::fmt::Display::fmt)]
    pub(crate) r#fn: Option<Val>,
    #[oauth1(skip, option = true)]
    oauth_versioo: ::core::option::Option<Val>,
}

#[derive(oauth::Request, Clone)]
pub struct G30<'a, T0, T1, T2, T3, T4, T5, T6> where T0: Blank, T5: Blank {
    #[oauth1(encoded)]
    #[oauth1(rename = ".")]
    pub(crate) _x: Val,
    #[oauth1(rename = "\u{6f}\u{61}\u{75}\u{74}\u{68}\x5f\x63al\u{6c}\u{62}\x61\u{63}", skip_if = Blank::blank)]
    pub(crate) next_param: Val,
    pub oauth_signature_methoc: Val,
    #[oauth1(fmt = fx, encoded, option = true)]
    #[oauth1(skip_if = crate::c16::blank)]
    pub fmt: Maybe<T0>,
    #[oauth1(skip)]
    a: Option<Val>,
    /// A field.
    #[oauth1(fmt = ::core::fmt::Display::fmt, option = true, rename = "-")]
    pub Bar: Option<Val>,
    helper: Val,
    #[oauth1(rename = "\u{30}")]
    oauth_callbac: Option<Val>,
    m: T1,
    #[oauth1(encoded)]
    serializer: T2,
    pub(crate) b: Box<Val>,
    #[cfg_attr(all(), oauth1(skip))]
    #[oauth1(rename = "oauth_body_hash")]
    oauth_: shadow::Option<Val>,
    #[oauth1(skip,)]
    x0: Opaque,
    #[oauth1(rename = "zzz")]
    pub(crate) this: Option<T3>,
    pub(crate) oauth_consumer_keyx: Val,
    #[oauth1(skip)]
    f: Opaque,
    #[oauth1(skip,)]
    oauth_callbackx: Opaque,
    #[oauth1(skip_if = value)]
    #[oauth1(rename = r#"a.b-c~d"#, option = true)]
    #[oauth1(encoded)]
    pub(crate) S: Option<Val>,
    #[oauth1(skip_if = value, encoded)]
    oauth_versioo: Box<Val>,
    #[cfg_attr(all(), oauth1(rename = r#"oauth_session_handle"#))]
    oauth_nonc: T4,
    #[oauth1(fmt = Fx::fx, encoded, skip_if = value)]
    pub r#type: Option<T5>,
    #[oauth1(fmt = ::core::fmt::Display::fmt)]
    #[oauth1(skip_if = blank)]
    pub(crate) ser: Val,
    #[oauth1(skip_if = Val::is_blank)]
    #[oauth1(encoded, fmt = crate::c16::fx,)]
    tmp: Val,
    /// A field.
    #[oauth1(skip_if = blank)]
    foo: Box<Val>,
    /// A field.
    #[oauth1(rename = "A")]
    pub oauth_tokem: Option<Val>,
    #[oauth1(option = false)]
    pub X: T6,
    /// A field.
    pub oauth_verifies: Option<&'a Val>,
    #[oauth1(skip_if = Val::is_blank)]
    pub _S: Val,
    #[oauth1(encoded, rename = r#"oauth_signature_methodx"#, fmt = tmp,)]
    pub(crate) bind: Box<Val>,
    #[oauth1(option = true, encoded,)]
    pub oauth_timestamq: Maybe<Val>,
    #[oauth1(fmt = fx)]
    #[oauth1(rename = r#"oauth_verifiez"#)]
    pub(crate) value: Alias,
    /// A field.
    #[cfg_attr(all(), oauth1(encoded))]
    oauth_a: Option<Val>,
    #[cfg_attr(all(), oauth1(encoded))]
    #[oauth1(skip_if = Val::is_blank, option = true)]
    r#fn: Maybe<Val>,
    pub(crate) r#match: Option<Val>,
}

#[derive(oauth::Request, Clone)]
pub struct G31 {
    #[oauth1(skip)]
    pub(crate) r#fn: Opaque,
    #[oauth1(rename = "\u{2d}",)]
    pub(crate) oauth_a: Val,
    #[oauth1(skip_if = crate::c16::blank)]
    #[oauth1(option = true, rename = "o\u{61}\u{75}ti", fmt = fx_val)]
    pub oauth_callbac: Option<Box<Val>>,
    #[oauth1(encoded, rename = "oauth_body_hash")]
    pub(crate) r#match: shadow::Option<Val>,
    pub tmp: Option<Val>,
}

#[derive(oauth::Request, Clone)]
pub struct G32<'a> {
    #[oauth1(fmt = fx_val, rename = "\u{63}\x32")]
    pub(crate) oauth_nonc: Alias,
    #[oauth1(fmt = fx_val,)]
    bind: Option<&'a Val>,
}

#[derive(oauth::Request, Clone)]
pub struct G33<'a> {
    #[oauth1(rename = "\u{6f}\x61\u{75}\x74\x68\x5fs\u{69}g\x6e\x61\x74\u{75}\u{72}\x65\u{5f}\u{6d}\u{65}\u{74}\u{68}\u{6f}d\x78")]
    #[cfg_attr(all(), oauth1(encoded))]
    oauth_signature_methoc: &'a Val,
    #[allow(dead_code)]
    helper: Val,
    #[oauth1(option = false)]
    #[allow(dead_code)]
    ser: shadow::Option<Val>,
    #[oauth1(fmt = tmp)]
    pub(crate) r#type: Val,
}

macro_rules! m34 { ($t0:ty) => {
#[derive(oauth::Request, Clone)]
pub struct G34<T0> where T0: Blank {
    #[oauth1(rename = "a")]
    #[allow(dead_code)]
    pub(crate) zz: Option<Val>,
    #[oauth1(encoded, option = true,)]
    bind: Maybe<Val>,
    /// A field.
    #[oauth1(encoded,)]
    pub oauth_nonc: Option<Val>,
    #[oauth1(rename = "c2")]
    pub f: Option<Val>,
    #[oauth1(option = true,)]
    tmp: Option<Box<Val>>,
    #[oauth1()]
    _x: Val,
    pub(crate) Bar: Option<Val>,
    #[oauth1(skip_if = crate::c16::blank)]
    pub ser: Val,
    #[oauth1(encoded)]
    oauth_consumer_keyx: $t0,
    #[oauth1(rename = r#"~"#)]
    #[oauth1(skip_if = Blank::blank)]
    next_param: T0,
    #[oauth1(skip_if = blank, rename = "9")]
    #[allow(dead_code)]
    pub(crate) this: Option<Val>,
}
}; }
m34!(Option<Val>);

#[derive(oauth::Request, Clone)]
pub struct G35<const N: usize> {
    /// A field.
    #[oauth1(fmt = Fx::fx, rename = r#"zzz"#, encoded, option = true)]
    pub foo: ::core::option::Option<Val>,
    #[oauth1(rename = r#"oauth_timestam"#)]
    pub oauth_consumer_keyx: Option<Val>,
    #[oauth1(rename = "oauth~")]
    bind: Option<Box<Val>>,
    #[oauth1(skip)]
    n: [(); N],
}

macro_rules! m36 { ($t0:ty) => {
#[derive(oauth::Request, Clone)]
pub struct G36<'a, T0, T1, T2 = Val> {
    a: T0,
    #[oauth1(fmt = crate::c16::fx)]
    #[oauth1(rename = "oauth_verifiez")]
    fmt: Option<Val>,
    #[oauth1(rename = "oauth_body_hash",)]
    pub(crate) oauth_verifies: $t0,
    #[oauth1(rename = "c2", encoded,)]
    #[oauth1(skip_if = value, fmt = ::core::fmt::Display::fmt,)]
    pub(crate) _x: &'a Val,
    oauth_: Option<Box<Val>>,
    /// A field.
    #[oauth1(fmt = Fx::fx, option = true, rename = "oauth_callbac")]
    pub(crate) S: ::core::option::Option<Val>,
    #[oauth1(encoded)]
    oauth_timestamq: T1,
    #[oauth1(encoded, rename = "~")]
    oauth_callbac: shadow::Option<Val>,
    pub(crate) zz: Val,
    /// A field.
    #[oauth1(fmt = Fx::fx, rename = r#"type"#, option = true)]
    pub(crate) oauth_consumer_keyx: Maybe<Val>,
    #[allow(dead_code)]
    #[oauth1()]
    pub(crate) oauth_a: Option<T2>,
}
}; }
m36!(Val);

#[derive(oauth::Request, Clone)]
pub struct G37<'a, T0> {
    pub oauth_: &'a Val,
    #[oauth1(rename = "\x6f\x61\u{75}t\u{68}\x2dx")]
    pub(crate) r#fn: T0,
    #[oauth1(rename = "9",)]
    next_param: Val,
    #[oauth1(skip)]
    pub a: Opaque,
    #[oauth1(skip, rename = "\x2d")]
    pub(crate) oauth_z: Opaque,
    #[oauth1(rename = "oauth")]
    pub oauth_nonc: Box<Val>,
}

#[derive(oauth::Request, Clone)]
pub struct G38<'a> {
    oauth_versioo: &'a Val,
    #[oauth1(rename = r#"a.b-c~d"#)]
    pub oauth_callbac: Val,
    #[oauth1(rename = "oauth_verifiez")]
    oauth_callbackx: Box<Val>,
    #[oauth1(rename = "oauth_session_handle", encoded, fmt = crate::c16::fx)]
    pub Bar: Val,
    #[oauth1(skip_if = Blank::blank,)]
    pub r#type: Val,
}

#[derive(oauth::Request, Clone)]
pub struct G39<T0> {
    #[cfg_attr(all(), oauth1(skip))]
    pub this: Alias,
    pub(crate) foo: Option<T0>,
    #[oauth1(fmt = Fx::fx)]
    oauth_callbac: Alias,
}

#[derive(oauth::Request, Clone)]
pub struct G40<'a> {
    #[oauth1(fmt = Fx::fx)]
    #[oauth1(rename = "a")]
    pub(crate) oauth_version1: Option<Arc<Val>>,
    #[oauth1(skip_if = blank_text, option = true,)]
    pub foo: Maybe<&'a str>,
    #[oauth1(skip)]
    pub(crate) _S: Opaque,
}

#[derive(oauth::Request, Clone)]
pub struct G41<'a> {
    #[oauth1(rename = "\x6fa\x75\x74\u{69}")]
    pub bind: &'a Val,
    #[oauth1(skip_if = blank)]
    #[oauth1(rename = "0",)]
    #[allow(dead_code)]
    oauth_version1: Blankest,
    r#type: Option<Cow<'a, str>>,
    #[oauth1(option = true, skip,)]
    #[oauth1(rename = r"oauth")]
    pub _x: Maybe<Arc<Val>>,
    #[oauth1(fmt = crate::c16::fx)]
    #[oauth1(skip_if = crate::c16::blank)]
    pub(crate) ser: Option<u64>,
    #[oauth1(fmt = tmp)]
    pub(crate) f: &'a str,
    #[oauth1(skip)]
    pub(crate) next_param: Opaque,
    #[oauth1(option = true)]
    pub oauth_callbackx: Option<Alias>,
}

#[derive(oauth::Request, Clone)]
pub struct G42<'a> {
    #[oauth1(rename = "z\u{7a}\u{7a}")]
    pub oauth_verifies: bool,
    #[oauth1(encoded, rename = r#"oauth_timestam"#)]
    pub(crate) r#match: &'a dyn Show,
    #[oauth1(option = true, skip,)]
    #[oauth1(rename = r#"oauti"#)]
    #[allow(dead_code)]
    pub(crate) x0: Option<Blankest>,
}

#[derive(oauth::Request, Clone)]
pub struct G43<'a, const N: usize> {
    #[oauth1(rename = "o\u{61}u\x74\x68_si\u{67}\u{6e}\x61t\x75\x72\u{65}\x5fm\x65th\u{6f}\u{64}\u{78}", encoded)]
    pub r#fn: Val,
    #[oauth1(rename = r".")]
    #[oauth1(skip_if = value)]
    pub(crate) value: Box<str>,
    #[cfg_attr(all(), oauth1(skip_if = crate::c16::blank,))]
    #[oauth1(rename = "zzz")]
    #[allow(dead_code)]
    pub(crate) bind: &'a str,
    #[oauth1(rename = "a.b-c~d",)]
    oauth_version1: Option<Box<str>>,
    #[oauth1(skip)]
    n: [(); N],
}

#[derive(oauth::Request, Clone)]
pub struct G44<'a, T0> where T0: Blank {
    #[oauth1(rename = "o\u{61}\x75\x74h\u{5f}\u{74}\u{6f}\x6b\u{65}n\u{5f}")]
    #[oauth1(skip_if = crate::c16::blank)]
    #[allow(dead_code)]
    pub Bar: &'a str,
    #[oauth1(skip_if = Blank::blank)]
    pub(crate) b: T0,
    /// A field.
    #[oauth1(rename = r#"oauth_session_handle"#, encoded)]
    pub(crate) next_param: bool,
    #[oauth1(fmt = fx, skip_if = Blank::blank)]
    pub r#match: Unit,
    #[oauth1(fmt = fx)]
    r#fn: Option<&'a Val>,
    oauth_version1: Option<&'a Val>,
    #[oauth1(skip, rename = "~")]
    pub oauth_: Opaque,
    #[oauth1(rename = r"oauth_body_hash")]
    pub(crate) x0: Option<&'a str>,
    #[oauth1(skip,)]
    pub S: Opaque,
    #[oauth1(fmt = fx_text,)]
    pub(crate) oauth_callbackx: Box<str>,
    #[oauth1(skip_if = Blank::blank,)]
    oauth_z: Option<Box<Val>>,
}

#[derive(oauth::Request, Clone)]
pub struct G45 {

}

#[derive(oauth::Request, Clone)]
pub struct G46<'a> {
    #[cfg_attr(all(), oauth1(encoded))]
    oauth_callbac: shadow::Option<Val>,
    /// A field.
    #[oauth1(rename = "oauth_verifiez")]
    pub oauth_versioo: Option<Val>,
    #[oauth1(option = true)]
    pub(crate) a: Maybe<&'a Val>,
    #[oauth1(option = false)]
    #[cfg_attr(all(), oauth1(rename = "oauth_nonce2"))]
    pub helper: Val,
    #[oauth1(option = true)]
    #[oauth1(rename = "type")]
    oauth_verifies: Option<Box<Val>>,
}

#[derive(oauth::Request, Clone)]
pub struct G47<T0> where T0: Blank {
    #[oauth1(fmt = fx, rename = "oauth_timestam")]
    helper: Val,
    #[oauth1(fmt = Fx::fx, encoded)]
    Bar: T0,
    #[oauth1(skip_if = value,)]
    #[cfg_attr(all(), oauth1(rename = r"oauth_signature_methodx"))]
    #[allow(dead_code)]
    _S: Option<Val>,
}

#[derive(oauth::Request, Clone)]
pub struct G48<'a> {
    pub(crate) next_param: Option<Val>,
    #[oauth1(rename = "9")]
    #[oauth1(skip_if = blank_text)]
    tmp: String,
    #[oauth1(fmt = tmp)]
    pub oauth_versioo: Cow<'a, str>,
    #[oauth1(option = true)]
    #[oauth1(encoded)]
    pub(crate) oauth_nonc: Maybe<&'a dyn Show>,
    #[oauth1(skip_if = blank)]
    m: Blankest,
}

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G49<'a> {
    /// A field.
    #[oauth1(skip_if = crate::c16::blank)]
    _x: Option<Box<Val>>,
    #[oauth1(skip_if = Blank::blank)]
    #[oauth1(encoded)]
    this: Val,
    #[oauth1(skip_if = value)]
    #[oauth1(encoded,)]
    pub(crate) bind: Option<&'a Val>,
}

#[derive(oauth::Request, Clone)]
pub struct G50<'a> {
    #[oauth1(rename = "oauth_signature_methodx")]
    b: Option<u64>,
    #[oauth1(fmt = Fx::fx)]
    #[oauth1(option = true,)]
    pub(crate) Bar: ::core::option::Option<&'a Val>,
    #[oauth1(rename = r"_", option = true,)]
    #[oauth1(skip)]
    pub this: Maybe<String>,
    #[oauth1(fmt = fx_text)]
    pub(crate) r#type: Option<String>,
    #[oauth1(encoded)]
    pub _S: Option<&'a Val>,
    #[oauth1(skip_if = blank, encoded, rename = r#"Zeta"#)]
    pub(crate) oauth_verifies: Val,
}

#[derive(oauth::Request, Clone)]
pub struct G51<const N: usize> {
    oauth_nonc: Box<str>,
    #[oauth1(skip)]
    n: [(); N],
}

#[derive(oauth::Request, Clone)]
pub struct G52<'a> {
    #[oauth1(option = true)]
    #[oauth1(rename = "oauth-x", skip)]
    pub(crate) oauth_a: Maybe<Val>,
    #[oauth1(option = false, rename = ".")]
    #[oauth1(fmt = fx)]
    pub f: &'a dyn Show,
    #[oauth1(option = true,)]
    #[oauth1(skip_if = Blank::blank,)]
    pub(crate) r#type: Maybe<Val>,
}

macro_rules! m53 { ($t0:ty) => {
#[derive(oauth::Request, Clone)]
pub struct G53<'a> {
    #[cfg_attr(all(), oauth1(rename = r#"~"#, encoded, skip_if = crate::c16::blank))]
    pub r#match: u64,
    #[oauth1(rename = r#"oauth_body_hash"#, option = false, skip)]
    pub oauth_timestamq: Opaque,
    #[oauth1(rename = "\x63\x32")]
    this: &'a Val,
    #[cfg_attr(all(), oauth1(skip_if = Blank::blank, rename = ".",))]
    #[oauth1(encoded,)]
    pub oauth_signature_methoc: String,
    #[oauth1(fmt = Fx::fx)]
    pub m: Box<str>,
    #[oauth1(fmt = fx,)]
    fmt: $t0,
}
}; }
m53!(Option<Val>);

#[derive(oauth::Request, Clone)]
pub struct G54<'a> {
    #[oauth1(option = true, fmt = fx,)]
    pub(crate) X: Maybe<&'a dyn Show>,
    #[oauth1(option = true, fmt = ::core::fmt::Display::fmt, encoded)]
    pub _S: Maybe<Box<str>>,
    #[oauth1(skip_if = crate::c16::blank, rename = "oauth_timestam")]
    #[oauth1(fmt = crate::c16::fx, encoded)]
    r#type: Box<Val>,
    #[oauth1(option = true,)]
    pub oauth_callbackx: Maybe<Val>,
    #[cfg_attr(all(), oauth1(fmt = fx,))]
    #[oauth1(rename = "Zeta")]
    oauth_: Val,
}

#[derive(oauth::Request, Clone)]
pub struct G55<'a> {
    #[oauth1(encoded)]
    pub Bar: Option<Val>,
    #[oauth1(rename = "A")]
    #[oauth1(encoded)]
    pub(crate) ser: Option<bool>,
    #[oauth1(rename = "~", skip_if = Blank::blank)]
    #[cfg_attr(all(), oauth1(fmt = fx,))]
    pub m: Option<Val>,
    #[cfg_attr(all(), oauth1(rename = "\u{6f}\x61\x75ti"))]
    #[oauth1(encoded)]
    #[allow(dead_code)]
    pub oauth_a: &'a Val,
    #[oauth1(skip, rename = "oauth~")]
    pub(crate) r#fn: Opaque,
}

#[derive(oauth::Request, Clone)]
pub struct G56<'a, T0, T1 = Val> {
    #[cfg_attr(all(), oauth1(encoded, rename = "9"))]
    oauth_timestamq: Option<T0>,
    #[oauth1(rename = "oauth-x")]
    #[oauth1(option = true)]
    ser: Maybe<T1>,
    #[cfg_attr(all(), oauth1(fmt = fx))]
    #[oauth1(encoded)]
    pub(crate) X: Option<Arc<Val>>,
    #[oauth1(rename = r"a.b-c~d", skip_if = Val::is_blank, option = false)]
    #[allow(dead_code)]
    pub(crate) a: &'a Val,
    #[oauth1(skip)]
    r#match: Opaque,
    #[oauth1(rename = "oauth_callbac", fmt = ::core::fmt::Display::fmt, option = true,)]
    pub(crate) zz: Option<&'a Val>,
    #[oauth1(option = true,)]
    #[oauth1(fmt = fx_val)]
    pub r#fn: ::core::option::Option<&'a Val>,
    #[oauth1(encoded)]
    tmp: &'a Val,
    #[cfg_attr(all(), oauth1(skip_if = Blank::blank))]
    pub(crate) oauth_consumer_keyx: &'a Val,
    /// A field.
    serializer: Option<Box<str>>,
    #[oauth1(rename = "oauth_nonce2", skip_if = blank, fmt = fx)]
    pub(crate) value: Alias,
}

macro_rules! m57 { ($t0:ty) => {
#[derive(oauth::Request, Clone)]
pub struct G57<'a> {
    #[oauth1(rename = "\u{30}")]
    pub oauth_signature_methoc: Option<Blankest>,
    /// A field.
    #[oauth1(fmt = ::core::fmt::Display::fmt)]
    #[oauth1(rename = "-")]
    _x: Box<Val>,
    #[oauth1(rename = "\x5f", skip_if = blank, encoded)]
    pub _S: String,
    #[oauth1(skip_if = crate::c16::blank, fmt = ::core::fmt::Display::fmt)]
    pub r#type: u64,
    #[oauth1(rename = "oauth", fmt = ::core::fmt::Display::fmt)]
    pub oauth_: $t0,
    #[oauth1(option = true,)]
    pub(crate) oauth_nonc: Option<Val>,
    pub ser: shadow::Option<Val>,
    #[oauth1(option = true,)]
    pub(crate) helper: Option<Box<Val>>,
    #[oauth1(rename = r"oauth_signature_methodx")]
    oauth_callbackx: Alias,
    #[cfg_attr(all(), oauth1(rename = "oauth_body_hash"))]
    pub value: Option<&'a str>,
    pub(crate) r#fn: Val,
}
}; }
m57!(Option<Val>);

#[derive(oauth::Request, Clone)]
pub struct G58 {

}

macro_rules! m59 { ($t0:ty) => {
#[derive(oauth::Request, Clone)]
pub struct G59<'a, T0: Clone, const N: usize> {
    #[oauth1(skip_if = value, rename = "oa\x75\x74\u{68}\x5ft\x69\x6des\x74\u{61}m")]
    m: Val,
    #[oauth1(rename = r"a.b-c~d")]
    #[oauth1(skip)]
    pub(crate) a: Opaque,
    zz: String,
    #[oauth1(fmt = fx_val, option = true)]
    value: ::core::option::Option<Arc<Val>>,
    #[oauth1(encoded, rename = r#"oauth_token_"#)]
    pub(crate) this: Option<String>,
    #[oauth1(rename = "oauth")]
    #[oauth1(skip_if = Blank::blank)]
    _x: Unit,
    #[oauth1(encoded)]
    ser: Val,
    /// A field.
    #[oauth1(encoded)]
    pub oauth_callbac: T0,
    #[oauth1(rename = "oauth_body_hash")]
    pub(crate) oauth_: &'a str,
    #[oauth1(rename = "9")]
    x0: Option<&'a Val>,
    #[oauth1(skip)]
    r#type: $t0,
    #[oauth1(skip)]
    n: [(); N],
}
}; }
m59!(Val);

#[derive(oauth::Request, Clone)]
pub struct G60 {
    #[oauth1(skip_if = crate::c16::blank, rename = "oauth_verifiez")]
    pub oauth_callbackx: Blankest,
    #[oauth1(skip_if = crate::c16::blank)]
    S: Box<Val>,
    #[oauth1(skip_if = Blank::blank, option = true, rename = "zzz")]
    pub(crate) oauth_verifies: Option<String>,
}

#[derive(oauth::Request, Clone)]
pub struct G61 {
    zz: u64,
    #[oauth1(fmt = crate::c16::fx,)]
    #[oauth1(option = false)]
    #[allow(dead_code)]
    pub oauth_a: Val,
    #[oauth1(rename = r#"a"#, skip_if = crate::c16::blank)]
    pub(crate) oauth_nonc: Alias,
}

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G62<T0> where T0: Blank {
    #[oauth1(fmt = tmp)]
    #[oauth1(rename = "A",)]
    pub(crate) x0: Option<T0>,
    #[cfg_attr(all(), oauth1(fmt = fx))]
    pub(crate) oauth_nonc: Option<bool>,
}

#[derive(oauth::Request, Clone)]
pub struct G63<'a> {
    #[oauth1(rename = "oauth")]
    pub foo: &'a str,
    #[oauth1(fmt = fx_val)]
    helper: &'a Val,
    #[oauth1(rename = r"c2", skip)]
    pub oauth_version1: Box<str>,
}

#[derive(oauth::Request, Clone)]
pub struct G64 {
    /// A field.
    #[oauth1(rename = "oauth-x",)]
    oauth_signature_methoc: Blankest,
    #[oauth1(fmt = ::core::fmt::Display::fmt)]
    oauth_a: Blankest,
    #[oauth1(rename = "\u{6f}\u{61}u\u{74}\x68_\u{6e}\x6fn\x63\x652")]
    pub(crate) zz: shadow::Option<Val>,
    #[oauth1(fmt = crate::c16::fx)]
    pub S: Arc<Val>,
    oauth_: Box<str>,
    #[oauth1(fmt = ::core::fmt::Display::fmt)]
    tmp: Val,
    #[oauth1(skip)]
    pub(crate) r#type: Opaque,
    #[cfg_attr(all(), oauth1(skip_if = crate::c16::blank, encoded))]
    #[cfg_attr(all(), oauth1(option = true))]
    f: ::core::option::Option<u64>,
}

#[derive(oauth::Request, Clone)]
pub struct G65 {

}

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G66<'a> {
    #[oauth1(rename = r"oauth_body_hash")]
    #[oauth1(option = true)]
    pub next_param: Option<Val>,
    #[oauth1(rename = "\u{6f}\x61ut\u{68}")]
    pub(crate) oauth_tokem: Option<Arc<Val>>,
    /// A field.
    #[oauth1(rename = "a.b-c~d")]
    pub(crate) oauth_consumer_keyx: &'a str,
    #[oauth1(option = true)]
    pub(crate) _S: Maybe<bool>,
}

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G67<'a, const N: usize> {
    #[oauth1(rename = r#"a"#)]
    #[oauth1(option = false)]
    foo: String,
    #[oauth1(skip_if = blank, option = true)]
    X: ::core::option::Option<u64>,
    #[oauth1(option = true, encoded)]
    #[oauth1(rename = r#"A"#, skip_if = Blank::blank,)]
    pub(crate) b: ::core::option::Option<u64>,
    /// A field.
    #[oauth1(skip_if = crate::c16::blank)]
    pub(crate) r#match: Blankest,
    value: Arc<Val>,
    #[oauth1(fmt = ::core::fmt::Display::fmt, skip_if = value)]
    pub(crate) Bar: Option<Val>,
    #[oauth1(encoded)]
    #[oauth1(rename = "\x39")]
    pub oauth_: Option<Cow<'a, str>>,
    oauth_verifies: Arc<Val>,
    #[oauth1(skip)]
    n: [(); N],
}

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G68 {
    #[oauth1(rename = r#"~"#)]
    pub(crate) oauth_signature_methoc: Val,
    #[oauth1(skip)]
    r#match: Opaque,
    pub(crate) oauth_callbac: Alias,
    /// A field.
    #[oauth1(skip)]
    helper: Box<Val>,
    #[oauth1(encoded)]
    pub oauth_tokem: Option<Val>,
    Bar: Option<u64>,
}

#[derive(oauth::Request, Clone)]
pub struct G69<'a> {
    r#match: &'a Val,
    #[oauth1(skip)]
    pub(crate) oauth_z: Opaque,
    #[cfg_attr(all(), oauth1(skip))]
    foo: Opaque,
}

#[derive(oauth::Request, Clone)]
pub struct G70<'a, T0, T1, T2, T3> where T2: Blank {
    #[oauth1(option = false)]
    #[oauth1(encoded)]
    value: T0,
    #[oauth1(rename = "\x2e", encoded)]
    pub(crate) _x: Val,
    #[oauth1(fmt = crate::c16::fx)]
    #[oauth1(rename = "oauth_timestam", encoded)]
    pub(crate) S: Option<Val>,
    #[oauth1(encoded)]
    #[oauth1(rename = r#"a.b-c~d"#,)]
    oauth_callbackx: Option<Box<Val>>,
    #[oauth1(rename = "a")]
    pub oauth_tokem: char,
    #[oauth1(rename = r#"A"#, fmt = fx)]
    pub bind: Blankest,
    #[oauth1(skip)]
    pub fmt: Opaque,
    #[oauth1(skip_if = value, rename = r#"~"#, fmt = ::core::fmt::Display::fmt)]
    helper: Option<Box<str>>,
    #[oauth1(encoded)]
    #[oauth1(skip_if = blank)]
    #[oauth1(rename = r"oauth_nonce2", option = false)]
    Bar: Val,
    pub(crate) oauth_timestamq: Box<Val>,
    #[oauth1(option = true, encoded)]
    #[oauth1(rename = "oauth_callbac",)]
    pub(crate) zz: Maybe<T1>,
    #[oauth1(rename = "type", encoded)]
    #[oauth1(skip_if = crate::c16::blank,)]
    pub(crate) r#fn: Option<Unit>,
    #[oauth1(fmt = crate::c16::fx)]
    #[oauth1(option = true)]
    pub oauth_consumer_keyx: Option<u64>,
    #[oauth1(encoded)]
    pub(crate) X: &'a dyn Show,
    #[oauth1(option = false, rename = r#"Zeta"#,)]
    #[cfg_attr(all(), oauth1(skip))]
    oauth_versioo: Opaque,
    pub tmp: bool,
    #[oauth1(skip_if = crate::c16::blank, fmt = crate::c16::fx, rename = r#"oauth-x"#)]
    #[oauth1(encoded)]
    a: Val,
    #[oauth1(skip,)]
    pub(crate) _S: &'a Val,
    #[oauth1(option = false, rename = "oauth_token_")]
    #[oauth1(encoded)]
    #[allow(dead_code)]
    pub(crate) m: String,
    #[oauth1(rename = r#"9"#)]
    #[oauth1(encoded,)]
    pub next_param: Option<Alias>,
    pub(crate) oauth_z: Cow<'a, str>,
    ser: Option<char>,
    #[oauth1(fmt = Fx::fx)]
    #[oauth1(encoded, rename = "oauth~")]
    oauth_callbac: Option<String>,
    #[oauth1(skip_if = value)]
    foo: Val,
    #[oauth1(encoded,)]
    pub oauth_: u64,
    #[oauth1(fmt = tmp)]
    #[oauth1(rename = "\x30", option = true)]
    oauth_verifies: Option<Cow<'a, str>>,
    #[oauth1(fmt = fx)]
    pub(crate) x0: String,
    #[oauth1(skip_if = Blank::blank)]
    pub oauth_signature_methoc: Option<T2>,
    #[oauth1(option = true)]
    #[oauth1(rename = "oauth_verifiez")]
    r#match: Maybe<T3>,
    #[oauth1(option = false, rename = "\u{6f}a\x75\u{74}\x68")]
    pub(crate) r#type: u64,
    #[oauth1(encoded)]
    pub oauth_version1: &'a Val,
    #[oauth1(option = true, fmt = crate::c16::fx,)]
    #[oauth1(rename = "oauth_signature_methodx")]
    b: Maybe<u64>,
    pub(crate) f: char,
    #[oauth1(skip_if = blank_text)]
    pub(crate) oauth_a: Option<&'a str>,
}

#[derive(oauth::Request, Clone)]
pub struct G71<'a> {
    #[oauth1(rename = "oauth_verifiez")]
    pub(crate) oauth_callbac: Val,
    #[oauth1(fmt = tmp, encoded)]
    pub _S: Box<Val>,
    #[oauth1(encoded,)]
    pub b: &'a Val,
    /// A field.
    pub m: u64,
    #[oauth1(rename = "-", skip)]
    pub next_param: Opaque,
    #[oauth1(rename = "o\x61\x75\x74\u{68}_n\u{6f}\u{6e}\x63\u{65}\u{32}")]
    pub Bar: String,
    #[oauth1(option = false, skip)]
    pub(crate) fmt: Opaque,
    #[oauth1(option = true, fmt = ::core::fmt::Display::fmt,)]
    oauth_nonc: Option<Box<Val>>,
}

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G72<'a> {
    #[cfg_attr(all(), oauth1(encoded))]
    #[cfg_attr(all(), oauth1(skip_if = crate::c16::blank))]
    pub tmp: Val,
    #[oauth1(option = true)]
    oauth_timestamq: Maybe<Val>,
    #[oauth1(rename = r"a.b-c~d")]
    pub oauth_signature_methoc: Option<Cow<'a, str>>,
}

#[derive(oauth::Request, Clone)]
pub struct G73 {

}

macro_rules! m74 { ($t0:ty, $t1:ty) => {
#[derive(oauth::Request, Clone)]
pub struct G74<'a> {
    /// A field.
    #[oauth1(rename = "oauti", encoded)]
    #[oauth1(fmt = Fx::fx)]
    pub oauth_callbac: String,
    #[oauth1(rename = "oauth", skip_if = Val::is_blank)]
    #[oauth1(encoded)]
    pub(crate) ser: $t0,
    #[oauth1(skip_if = crate::c16::blank,)]
    next_param: Option<Val>,
    #[cfg_attr(all(), oauth1(rename = "\x74\u{79}\u{70}e"))]
    pub(crate) oauth_z: $t1,
    #[oauth1(encoded)]
    pub(crate) tmp: Cow<'a, str>,
}
}; }
m74!(Option<Val>, Option<Val>);

macro_rules! m75 { ($t0:ty) => {
#[derive(oauth::Request, Clone)]
pub struct G75<T0, const N: usize> {
    #[oauth1(encoded)]
    pub(crate) oauth_: Option<Val>,
    #[oauth1(rename = r"oauth_timestam", skip)]
    pub(crate) oauth_callbac: Opaque,
    #[oauth1(fmt = crate::c16::fx)]
    pub oauth_timestamq: u64,
    #[oauth1(fmt = Fx::fx)]
    #[cfg_attr(all(), oauth1(rename = "9", encoded,))]
    pub f: Box<str>,
    #[oauth1(skip_if = crate::c16::blank)]
    #[oauth1(fmt = fx)]
    pub ser: Option<Box<str>>,
    #[oauth1(rename = "\x61\x2eb-c~\u{64}")]
    #[allow(dead_code)]
    pub(crate) bind: Arc<Val>,
    #[oauth1(fmt = tmp)]
    #[oauth1(rename = "_")]
    #[oauth1(encoded)]
    pub(crate) oauth_version1: $t0,
    #[oauth1(fmt = crate::c16::fx)]
    pub tmp: Option<bool>,
    #[oauth1(skip_if = blank)]
    oauth_z: Val,
    pub r#fn: T0,
    /// A field.
    #[oauth1(rename = "\u{6f}\x61\u{75}th_bo\u{64}\x79\u{5f}h\x61\u{73}h", skip_if = crate::c16::blank)]
    #[oauth1(encoded)]
    pub(crate) serializer: Option<char>,
    #[oauth1(skip)]
    n: [(); N],
}
}; }
m75!(Val);

#[derive(oauth::Request, Clone)]
pub struct G76 {
    #[oauth1(rename = "a.b-c~d")]
    oauth_callbac: Option<Box<str>>,
}

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G77<'a> {
    #[oauth1(rename = "-")]
    pub(crate) oauth_version1: Option<&'a dyn Show>,
}

#[derive(oauth::Request, Clone)]
pub struct G78<'a> {
    #[oauth1(skip)]
    _S: Opaque,
    pub foo: String,
    #[oauth1(fmt = fx_text, encoded)]
    pub X: Cow<'a, str>,
}

#[derive(oauth::Request, Clone)]
pub struct G79<'a> {
    #[oauth1(rename = "_", skip)]
    pub(crate) fmt: Opaque,
    #[cfg_attr(all(), oauth1(skip_if = Val::is_blank,))]
    r#match: Val,
    #[oauth1(rename = "~", fmt = fx)]
    pub oauth_verifies: Option<&'a dyn Show>,
    #[cfg_attr(all(), oauth1(encoded))]
    #[allow(dead_code)]
    pub a: Option<&'a Val>,
}

#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G80<'a> {
    pub(crate) oauth_z: Option<&'a Val>,
    #[oauth1(option = true, rename = "a.b-c~d", fmt = crate::c16::fx)]
    pub oauth_versioo: Option<Unit>,
    oauth_version1: Val,
    #[cfg_attr(all(), oauth1(rename = "~"))]
    #[cfg_attr(all(), oauth1(encoded))]
    foo: Option<char>,
    #[oauth1(rename = "\x7azz")]
    pub x0: Option<Val>,
    #[oauth1(rename = "oauth_verifiez")]
    pub bind: Option<u64>,
}

#[derive(oauth::Request, Clone)]
pub struct G81<T0: 'static = Val> where T0: Blank {
    #[oauth1(rename = "zzz", skip)]
    pub tmp: Val,
    #[oauth1(rename = "\u{6f}\u{61}\u{75}\x74h_\u{74}\u{69}\u{6d}e\u{73}\x74a\x6d")]
    #[oauth1(fmt = ::core::fmt::Display::fmt)]
    pub foo: Val,
    #[oauth1(rename = "Zeta")]
    #[oauth1(fmt = tmp)]
    ser: T0,
}

macro_rules! m82 { ($t0:ty) => {
#[derive(oauth::Request, Clone)]
#[oauth1(crate = oauth)]
pub struct G82 {
    #[oauth1(rename = "oauth_verifiez", skip_if = crate::c16::blank,)]
    #[allow(dead_code)]
    pub(crate) oauth_callbackx: Option<Alias>,
    #[cfg_attr(all(), oauth1(skip_if = blank, encoded))]
    pub oauth_version1: $t0,
}
}; }
m82!(Val);

#[derive(oauth::Request, Clone)]
pub struct G83<'a, const N: usize> {
    #[oauth1(fmt = tmp, encoded)]
    pub(crate) helper: Option<Val>,
    #[cfg_attr(all(), oauth1(skip,))]
    pub(crate) next_param: Option<&'a Val>,
    #[oauth1(skip)]
    r#type: Opaque,
    #[oauth1(skip)]
    n: [(); N],
}

#[derive(oauth::Request, Clone)]
pub struct G84<'a> {
    #[oauth1(skip_if = blank,)]
    pub(crate) oauth_signature_methoc: &'a dyn Show,
    foo: &'a dyn Show,
    #[oauth1(fmt = fx)]
    a: &'a dyn Show,
}

#[derive(oauth::Request, Clone)]
pub struct G85 {
    #[oauth1(skip_if = crate::c16::blank, option = false)]
    r#fn: Val,
    #[oauth1(option = true, rename = r#"oauth_session_handle"#, fmt = crate::c16::fx)]
    #[oauth1(skip_if = value)]
    serializer: ::core::option::Option<u64>,
}

#[derive(oauth::Request, Clone)]
pub struct G86<'a, T0 = Val> where T0: Blank {
    #[oauth1(fmt = ::core::fmt::Display::fmt)]
    pub oauth_z: Val,
    #[oauth1(fmt = fx)]
    pub serializer: Option<T0>,
    #[oauth1(fmt = Fx::fx, encoded, skip_if = crate::c16::blank,)]
    f: Cow<'a, str>,
    #[oauth1(option = true)]
    #[oauth1(fmt = fx_val)]
    pub(crate) oauth_signature_methoc: Option<Val>,
    #[oauth1(skip_if = blank)]
    #[oauth1(fmt = ::core::fmt::Display::fmt)]
    #[oauth1(encoded)]
    pub bind: bool,
}

#[derive(oauth::Request, Clone)]
pub struct G87<'a> {
    #[oauth1(skip_if = blank, fmt = Fx::fx)]
    #[oauth1(option = true)]
    r#fn: Option<&'a dyn Show>,
    #[oauth1(encoded,)]
    pub(crate) ser: &'a Val,
    #[oauth1(encoded)]
    oauth_verifies: Option<Blankest>,
    /// A field.
    pub(crate) oauth_a: char,
}

pub const SPECS: &[&[Spec]] = &[
    &[],
    &[Spec { name: "b", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_consumer_keyx", opt: true, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "type", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "_x", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "f", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "0", opt: false, enc: false, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_versioo", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "bind", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth_signature_methoc", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "a.b-c~d", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_verifies", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_token_", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "match", opt: false, enc: false, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "ser", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "_S", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_signature_methodx", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "X", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauti", opt: true, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "m", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_session_handle", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "a", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_a", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth~", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "-", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_token_", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "~", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }],
    &[Spec { name: "A", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth_timestamq", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_nonc", opt: false, enc: true, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: ".", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "0", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "serializer", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "x0", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_tokem", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "a", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "helper", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth_", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "Bar", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_a", opt: true, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }],
    &[],
    &[Spec { name: "_", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "c2", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "Zeta", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "zzz", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_verifiez", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_z", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth_nonce2", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "a", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "next_param", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_session_handle", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_signature_methoc", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "next_param", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "Zeta", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_verifies", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "m", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_a", opt: true, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "c2", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_nonce2", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth_callbac", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[],
    &[],
    &[Spec { name: "oauth_nonce2", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "c2", opt: true, enc: false, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "Bar", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "foo", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_session_handle", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "x0", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "zz", opt: false, enc: true, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "_x", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "0", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "S", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "b", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "Bar", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth-x", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "X", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_session_handle", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: ".", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "a", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "helper", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_verifies", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "S", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "Zeta", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_session_handle", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "b", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "foo", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_signature_methodx", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "tmp", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth_z", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "f", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "helper", opt: true, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "Bar", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "b", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "0", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_callbac", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "zz", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_verifiez", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "type", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "X", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "serializer", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }],
    &[Spec { name: "this", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_a", opt: false, enc: false, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_session_handle", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }],
    &[Spec { name: "oauth_signature_methodx", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "value", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "next_param", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "fmt", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "this", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_z", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[],
    &[Spec { name: "next_param", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_version1", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_z", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "a", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }],
    &[Spec { name: "_x", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_callbackx", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "0", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "foo", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_timestam", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "Zeta", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_token_", opt: true, enc: false, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "9", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }],
    &[Spec { name: ".", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "this", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "zz", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth-x", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "m", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "~", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth~", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "_x", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "bind", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "fn", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_versioo", opt: true, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }],
    &[Spec { name: ".", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_callbac", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_signature_methoc", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "fmt", opt: true, enc: true, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "a", opt: true, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "-", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "helper", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "0", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "m", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "serializer", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "b", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_body_hash", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "x0", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "zzz", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_consumer_keyx", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "f", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_callbackx", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "a.b-c~d", opt: true, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_versioo", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_session_handle", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "type", opt: true, enc: true, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "ser", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "tmp", opt: false, enc: true, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "foo", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "A", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "X", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_verifies", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "_S", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_signature_methodx", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_timestamq", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_verifiez", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_a", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "fn", opt: true, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "match", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "fn", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "-", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauti", opt: true, enc: false, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_body_hash", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "tmp", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "c2", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "bind", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth_signature_methodx", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "helper", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "ser", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "type", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "a", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "bind", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_nonc", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "c2", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "tmp", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "_x", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "Bar", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "ser", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_consumer_keyx", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "~", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "9", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }],
    &[Spec { name: "zzz", opt: true, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_timestam", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth~", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "a", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_verifiez", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_body_hash", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "c2", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_callbac", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_timestamq", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "~", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "zz", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "type", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_a", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth_", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth-x", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "9", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "a", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "-", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth_versioo", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "a.b-c~d", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_verifiez", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_session_handle", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "type", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }],
    &[Spec { name: "this", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "foo", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_callbac", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "a", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "foo", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 5 }, Spec { name: "_S", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 5 }],
    &[Spec { name: "oauti", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "0", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 3 }, Spec { name: "type", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "oauth", opt: true, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "ser", opt: true, enc: false, fmt: true, skip: false, skip_if: true, kind: 1 }, Spec { name: "f", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "next_param", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_callbackx", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "zzz", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 2 }, Spec { name: "oauth_timestam", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "oauti", opt: true, enc: false, fmt: false, skip: true, skip_if: false, kind: 3 }],
    &[Spec { name: "oauth_signature_methodx", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: ".", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 5 }, Spec { name: "zzz", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 5 }, Spec { name: "a.b-c~d", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }],
    &[Spec { name: "oauth_token_", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 5 }, Spec { name: "b", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 5 }, Spec { name: "oauth_session_handle", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 2 }, Spec { name: "match", opt: false, enc: false, fmt: true, skip: false, skip_if: true, kind: 4 }, Spec { name: "fn", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_version1", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "~", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_body_hash", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "S", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_callbackx", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "oauth_z", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }],
    &[],
    &[Spec { name: "oauth_callbac", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_verifiez", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "a", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_nonce2", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "type", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth_timestam", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "Bar", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 4 }, Spec { name: "oauth_signature_methodx", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }],
    &[Spec { name: "next_param", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "9", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 5 }, Spec { name: "oauth_versioo", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "oauth_nonc", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "m", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 3 }],
    &[Spec { name: "_x", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "this", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "bind", opt: true, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }],
    &[Spec { name: "oauth_signature_methodx", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 1 }, Spec { name: "Bar", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "_", opt: true, enc: false, fmt: false, skip: true, skip_if: false, kind: 5 }, Spec { name: "type", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "_S", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "Zeta", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }],
    &[Spec { name: "oauth_nonc", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }],
    &[Spec { name: "oauth-x", opt: true, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: ".", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "type", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }],
    &[Spec { name: "~", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 1 }, Spec { name: "oauth_body_hash", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 3 }, Spec { name: "c2", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: ".", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 5 }, Spec { name: "m", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "fmt", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "X", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "_S", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "oauth_timestam", opt: false, enc: true, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_callbackx", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "Zeta", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "Bar", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "A", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 2 }, Spec { name: "~", opt: true, enc: false, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauti", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth~", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 5 }],
    &[Spec { name: "9", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 4 }, Spec { name: "oauth-x", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "X", opt: true, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "a.b-c~d", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "match", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 6 }, Spec { name: "oauth_callbac", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "fn", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "tmp", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_consumer_keyx", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "serializer", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "oauth_nonce2", opt: false, enc: false, fmt: true, skip: false, skip_if: true, kind: 0 }],
    &[Spec { name: "0", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 3 }, Spec { name: "-", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "_", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 5 }, Spec { name: "type", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 1 }, Spec { name: "oauth", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_nonc", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "ser", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "helper", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_signature_methodx", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_body_hash", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "fn", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[],
    &[Spec { name: "oauth_timestam", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "a.b-c~d", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "zz", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "value", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_token_", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "oauth", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 4 }, Spec { name: "ser", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_callbac", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_body_hash", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "9", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "type", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth_verifiez", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 3 }, Spec { name: "S", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "zzz", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 5 }],
    &[Spec { name: "zz", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 1 }, Spec { name: "oauth_a", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "a", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }],
    &[Spec { name: "A", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 3 }, Spec { name: "oauth_nonc", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 2 }],
    &[Spec { name: "oauth", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "helper", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "c2", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 5 }],
    &[Spec { name: "oauth-x", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 3 }, Spec { name: "oauth_a", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 3 }, Spec { name: "oauth_nonce2", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "S", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "tmp", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "type", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 4 }, Spec { name: "f", opt: true, enc: true, fmt: false, skip: false, skip_if: true, kind: 1 }],
    &[],
    &[Spec { name: "oauth_body_hash", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "a.b-c~d", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "_S", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 2 }],
    &[Spec { name: "a", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "X", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 1 }, Spec { name: "A", opt: true, enc: true, fmt: false, skip: false, skip_if: true, kind: 1 }, Spec { name: "match", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 3 }, Spec { name: "value", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "Bar", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "9", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "oauth_verifies", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "~", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "match", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_callbac", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "helper", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_tokem", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "Bar", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 1 }],
    &[Spec { name: "match", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_z", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "foo", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }],
    &[Spec { name: "value", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 4 }, Spec { name: ".", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_timestam", opt: true, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "a.b-c~d", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "a", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 6 }, Spec { name: "A", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 3 }, Spec { name: "fmt", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "~", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 5 }, Spec { name: "oauth_nonce2", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_timestamq", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_callbac", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "type", opt: true, enc: true, fmt: false, skip: false, skip_if: true, kind: 4 }, Spec { name: "oauth_consumer_keyx", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 1 }, Spec { name: "X", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "Zeta", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 4 }, Spec { name: "tmp", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 2 }, Spec { name: "oauth-x", opt: false, enc: true, fmt: true, skip: false, skip_if: true, kind: 0 }, Spec { name: "_S", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_token_", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "9", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_z", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "ser", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 6 }, Spec { name: "oauth~", opt: true, enc: true, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "foo", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 1 }, Spec { name: "0", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "x0", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "oauth_signature_methoc", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_verifiez", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 1 }, Spec { name: "oauth", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 1 }, Spec { name: "oauth_version1", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_signature_methodx", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 1 }, Spec { name: "f", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 6 }, Spec { name: "oauth_a", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 5 }],
    &[Spec { name: "oauth_verifiez", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "_S", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "b", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "m", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 1 }, Spec { name: "-", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_nonce2", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "fmt", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_nonc", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "tmp", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_timestamq", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "a.b-c~d", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }],
    &[],
    &[Spec { name: "oauti", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "oauth", opt: true, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "next_param", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "type", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "tmp", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 5 }],
    &[Spec { name: "oauth_", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_timestam", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 5 }, Spec { name: "oauth_timestamq", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 1 }, Spec { name: "9", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "ser", opt: true, enc: false, fmt: true, skip: false, skip_if: true, kind: 5 }, Spec { name: "a.b-c~d", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "_", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "tmp", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 2 }, Spec { name: "oauth_z", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "fn", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_body_hash", opt: true, enc: true, fmt: false, skip: false, skip_if: true, kind: 6 }],
    &[Spec { name: "a.b-c~d", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }],
    &[Spec { name: "-", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }],
    &[Spec { name: "_S", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 5 }, Spec { name: "foo", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "X", opt: false, enc: true, fmt: true, skip: false, skip_if: false, kind: 5 }],
    &[Spec { name: "_", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 5 }, Spec { name: "match", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "~", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "a", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }],
    &[Spec { name: "oauth_z", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "a.b-c~d", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 4 }, Spec { name: "oauth_version1", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "~", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 6 }, Spec { name: "zzz", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_verifiez", opt: true, enc: false, fmt: false, skip: false, skip_if: false, kind: 1 }],
    &[Spec { name: "zzz", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "oauth_timestam", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "Zeta", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 3 }],
    &[Spec { name: "oauth_verifiez", opt: true, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_version1", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 0 }],
    &[Spec { name: "helper", opt: true, enc: true, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "next_param", opt: true, enc: false, fmt: false, skip: true, skip_if: false, kind: 0 }, Spec { name: "type", opt: false, enc: false, fmt: false, skip: true, skip_if: false, kind: 5 }],
    &[Spec { name: "oauth_signature_methoc", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 5 }, Spec { name: "foo", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 5 }, Spec { name: "a", opt: false, enc: false, fmt: true, skip: false, skip_if: false, kind: 5 }],
    &[Spec { name: "fn", opt: false, enc: false, fmt: false, skip: false, skip_if: true, kind: 0 }, Spec { name: "oauth_session_handle", opt: true, enc: false, fmt: true, skip: false, skip_if: true, kind: 1 }],
    &[Spec { name: "oauth_z", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "serializer", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 5 }, Spec { name: "f", opt: false, enc: true, fmt: true, skip: false, skip_if: true, kind: 5 }, Spec { name: "oauth_signature_methoc", opt: true, enc: false, fmt: true, skip: false, skip_if: false, kind: 0 }, Spec { name: "bind", opt: false, enc: true, fmt: false, skip: false, skip_if: true, kind: 2 }],
    &[Spec { name: "fn", opt: true, enc: false, fmt: true, skip: false, skip_if: true, kind: 5 }, Spec { name: "ser", opt: false, enc: true, fmt: false, skip: false, skip_if: false, kind: 0 }, Spec { name: "oauth_verifies", opt: true, enc: true, fmt: false, skip: false, skip_if: false, kind: 3 }, Spec { name: "oauth_a", opt: false, enc: false, fmt: false, skip: false, skip_if: false, kind: 6 }],
];

#[derive(Clone)]
pub enum Gen {
    G0(G0),
    G1(G1<Val, Val>),
    G2(G2<Val, Val>),
    G3(G3<'static, Val, 3>),
    G4(G4<Val>),
    G5(G5),
    G6(G6<'static, Val>),
    G7(G7),
    G8(G8<'static>),
    G9(G9),
    G10(G10<'static, Val, Val>),
    G11(G11<Val, 3>),
    G12(G12<'static, Val>),
    G13(G13<Val, Val>),
    G14(G14),
    G15(G15),
    G16(G16),
    G17(G17<'static, Val, Val>),
    G18(G18<'static, Val, Val, Val>),
    G19(G19<Val, 3>),
    G20(G20<'static>),
    G21(G21<'static, Val>),
    G22(G22),
    G23(G23<'static>),
    G24(G24),
    G25(G25<'static>),
    G26(G26),
    G27(G27<3>),
    G28(G28<'static, Val>),
    G29(G29<'static, Val, Val, Val>),
    G30(G30<'static, Val, Val, Val, Val, Val, Val, Val>),
    G31(G31),
    G32(G32<'static>),
    G33(G33<'static>),
    G34(G34<Val>),
    G35(G35<3>),
    G36(G36<'static, Val, Val, Val>),
    G37(G37<'static, Val>),
    G38(G38<'static>),
    G39(G39<Val>),
    G40(G40<'static>),
    G41(G41<'static>),
    G42(G42<'static>),
    G43(G43<'static, 3>),
    G44(G44<'static, String>),
    G45(G45),
    G46(G46<'static>),
    G47(G47<Unit>),
    G48(G48<'static>),
    G49(G49<'static>),
    G50(G50<'static>),
    G51(G51<3>),
    G52(G52<'static>),
    G53(G53<'static>),
    G54(G54<'static>),
    G55(G55<'static>),
    G56(G56<'static, Unit, Val>),
    G57(G57<'static>),
    G58(G58),
    G59(G59<'static, Val, 3>),
    G60(G60),
    G61(G61),
    G62(G62<Blankest>),
    G63(G63<'static>),
    G64(G64),
    G65(G65),
    G66(G66<'static>),
    G67(G67<'static, 3>),
    G68(G68),
    G69(G69<'static>),
    G70(G70<'static, Unit, String, Val, u64>),
    G71(G71<'static>),
    G72(G72<'static>),
    G73(G73),
    G74(G74<'static>),
    G75(G75<Val, 3>),
    G76(G76),
    G77(G77<'static>),
    G78(G78<'static>),
    G79(G79<'static>),
    G80(G80<'static>),
    G81(G81<Blankest>),
    G82(G82),
    G83(G83<'static, 3>),
    G84(G84<'static>),
    G85(G85),
    G86(G86<'static, String>),
    G87(G87<'static>),
}

pub fn make(i: usize, mut v: impl FnMut() -> Option<Val>) -> Gen {
    match i {
        0 => Gen::G0(G0 {  }),
        1 => Gen::G1(G1 { b: v().unwrap(), oauth_consumer_keyx: v().map(|v| v), r#type: v().unwrap(), _x: v().map(|v| v), f: v().map(|v| v), X: Box::new(v().unwrap()), oauth_versioo: { let _ = v(); Opaque }, bind: v().unwrap() }),
        2 => Gen::G2(G2 { oauth_signature_methoc: shadow::Option(v().unwrap()), foo: Box::new(v().unwrap()), oauth_verifies: { let _ = v(); Opaque }, m: shadow::Option(v().unwrap()), r#match: v().unwrap(), ser: v().map(|v| v), _S: v().map(|v| v), oauth_: v().map(|v| v) }),
        3 => Gen::G3(G3 { X: v().unwrap(), tmp: v().map(|v| &*Box::leak(Box::new(v))), m: Box::new(v().unwrap()), oauth_timestamq: v().unwrap(), zz: { let _ = v(); Opaque }, oauth_a: v().unwrap(), n: [(); 3] }),
        4 => Gen::G4(G4 { oauth_versioo: v().map(|v| v), fmt: v().map(|v| v), foo: v().map(|v| v), zz: { let _ = v(); Opaque } }),
        5 => Gen::G5(G5 { X: Box::new(v().unwrap()) }),
        6 => Gen::G6(G6 { oauth_timestamq: v().unwrap(), oauth_nonc: v().unwrap(), f: v().unwrap(), helper: v().map(|v| v), serializer: { let _ = v(); Opaque }, x0: v().map(|v| &*Box::leak(Box::new(v))), oauth_tokem: Box::new(v().unwrap()), a: v().map(|v| &*Box::leak(Box::new(v))) }),
        7 => Gen::G7(G7 { helper: v().map(|v| v) }),
        8 => Gen::G8(G8 { oauth_: v().unwrap(), Bar: &*Box::leak(Box::new(v().unwrap())), oauth_a: v().map(|v| Box::new(v)) }),
        9 => Gen::G9(G9 {  }),
        10 => Gen::G10(G10 { a: v().unwrap(), this: v().map(|v| v), r#fn: v().map(|v| v), S: v().unwrap(), helper: v().map(|v| v), oauth_z: &*Box::leak(Box::new(v().unwrap())) }),
        11 => Gen::G11(G11 { bind: v().unwrap(), a: v().unwrap(), n: [(); 3] }),
        12 => Gen::G12(G12 { next_param: v().map(|v| v), r#fn: v().map(|v| v), oauth_signature_methoc: v().map(|v| &*Box::leak(Box::new(v))) }),
        13 => Gen::G13(G13 { next_param: v().unwrap(), _S: v().unwrap(), oauth_verifies: v().map(|v| v), m: v().map(|v| v), oauth_a: v().map(|v| v), oauth_: { let _ = v(); Opaque }, S: v().map(|v| Box::new(v)), x0: v().unwrap() }),
        14 => Gen::G14(G14 { Bar: v().unwrap() }),
        15 => Gen::G15(G15 {  }),
        16 => Gen::G16(G16 {  }),
        17 => Gen::G17(G17 { r#type: v().unwrap(), helper: v().map(|v| v), Bar: shadow::Option(v().unwrap()), foo: Box::new(v().unwrap()), serializer: v().unwrap(), x0: v().map(|v| &*Box::leak(Box::new(v))) }),
        18 => Gen::G18(G18 { zz: v().unwrap(), _x: &*Box::leak(Box::new(v().unwrap())), oauth_nonc: &*Box::leak(Box::new(v().unwrap())), S: v().unwrap(), b: v().unwrap(), Bar: shadow::Option(v().unwrap()), r#fn: v().unwrap(), X: shadow::Option(v().unwrap()), oauth_a: Box::new(v().unwrap()), oauth_consumer_keyx: v().map(|v| v), a: &*Box::leak(Box::new(v().unwrap())) }),
        19 => Gen::G19(G19 { helper: v().map(|v| v), oauth_verifies: v().unwrap(), oauth_: v().unwrap(), n: [(); 3] }),
        20 => Gen::G20(G20 { S: v().unwrap(), oauth_signature_methoc: Box::new(v().unwrap()), _S: &*Box::leak(Box::new(v().unwrap())), b: v().map(|v| v), oauth_: &*Box::leak(Box::new(v().unwrap())), foo: v().map(|v| v), f: v().map(|v| &*Box::leak(Box::new(v))), tmp: v().map(|v| v) }),
        21 => Gen::G21(G21 { oauth_z: v().unwrap(), f: v().map(|v| v), helper: v().map(|v| v), Bar: shadow::Option(v().unwrap()), b: v().map(|v| v), oauth_version1: v().map(|v| v), oauth_signature_methoc: v().map(|v| &*Box::leak(Box::new(v))), zz: v().map(|v| v), this: v().map(|v| &*Box::leak(Box::new(v))), r#type: v().unwrap(), X: v().map(|v| v) }),
        22 => Gen::G22(G22 { serializer: { let _ = v(); Opaque } }),
        23 => Gen::G23(G23 { this: v().unwrap(), oauth_a: &*Box::leak(Box::new(v().unwrap())), tmp: v().unwrap() }),
        24 => Gen::G24(G24 { this: { let _ = v(); Opaque }, value: v().unwrap(), next_param: v().unwrap() }),
        25 => Gen::G25(G25 { fmt: v().map(|v| &*Box::leak(Box::new(v))), this: v().map(|v| Box::new(v)), oauth_z: &*Box::leak(Box::new(v().unwrap())) }),
        26 => Gen::G26(G26 {  }),
        27 => Gen::G27(G27 { next_param: { let _ = v(); Opaque }, oauth_version1: v().map(|v| v), oauth_z: Box::new(v().unwrap()), bind: v().unwrap(), n: [(); 3] }),
        28 => Gen::G28(G28 { _x: { let _ = v(); Opaque }, oauth_callbackx: v().unwrap(), tmp: v().map(|v| &*Box::leak(Box::new(v))), foo: v().unwrap(), oauth_: shadow::Option(v().unwrap()), f: v().unwrap(), oauth_consumer_keyx: v().map(|v| v), bind: { let _ = v(); Opaque } }),
        29 => Gen::G29(G29 { helper: v().unwrap(), this: v().unwrap(), zz: v().map(|v| v), oauth_consumer_keyx: v().unwrap(), m: v().unwrap(), tmp: v().unwrap(), _S: v().unwrap(), _x: &*Box::leak(Box::new(v().unwrap())), bind: v().unwrap(), r#fn: v().map(|v| v), oauth_versioo: v().map(|v| v) }),
        30 => Gen::G30(G30 { _x: v().unwrap(), next_param: v().unwrap(), oauth_signature_methoc: v().unwrap(), fmt: v().map(|v| v), a: v().map(|v| v), Bar: v().map(|v| v), helper: v().unwrap(), oauth_callbac: v().map(|v| v), m: v().unwrap(), serializer: v().unwrap(), b: Box::new(v().unwrap()), oauth_: shadow::Option(v().unwrap()), x0: { let _ = v(); Opaque }, this: v().map(|v| v), oauth_consumer_keyx: v().unwrap(), f: { let _ = v(); Opaque }, oauth_callbackx: { let _ = v(); Opaque }, S: v().map(|v| v), oauth_versioo: Box::new(v().unwrap()), oauth_nonc: v().unwrap(), r#type: v().map(|v| v), ser: v().unwrap(), tmp: v().unwrap(), foo: Box::new(v().unwrap()), oauth_tokem: v().map(|v| v), X: v().unwrap(), oauth_verifies: v().map(|v| &*Box::leak(Box::new(v))), _S: v().unwrap(), bind: Box::new(v().unwrap()), oauth_timestamq: v().map(|v| v), value: v().unwrap(), oauth_a: v().map(|v| v), r#fn: v().map(|v| v), r#match: v().map(|v| v) }),
        31 => Gen::G31(G31 { r#fn: { let _ = v(); Opaque }, oauth_a: v().unwrap(), oauth_callbac: v().map(|v| Box::new(v)), r#match: shadow::Option(v().unwrap()), tmp: v().map(|v| v) }),
        32 => Gen::G32(G32 { oauth_nonc: v().unwrap(), bind: v().map(|v| &*Box::leak(Box::new(v))) }),
        33 => Gen::G33(G33 { oauth_signature_methoc: &*Box::leak(Box::new(v().unwrap())), helper: v().unwrap(), ser: shadow::Option(v().unwrap()), r#type: v().unwrap() }),
        34 => Gen::G34(G34 { zz: v().map(|v| v), bind: v().map(|v| v), oauth_nonc: v().map(|v| v), f: v().map(|v| v), tmp: v().map(|v| Box::new(v)), _x: v().unwrap(), Bar: v().map(|v| v), ser: v().unwrap(), oauth_consumer_keyx: v().map(|v| v), next_param: v().unwrap(), this: v().map(|v| v) }),
        35 => Gen::G35(G35 { foo: v().map(|v| v), oauth_consumer_keyx: v().map(|v| v), bind: v().map(|v| Box::new(v)), n: [(); 3] }),
        36 => Gen::G36(G36 { a: v().unwrap(), fmt: v().map(|v| v), oauth_verifies: v().unwrap(), _x: &*Box::leak(Box::new(v().unwrap())), oauth_: v().map(|v| Box::new(v)), S: v().map(|v| v), oauth_timestamq: v().unwrap(), oauth_callbac: shadow::Option(v().unwrap()), zz: v().unwrap(), oauth_consumer_keyx: v().map(|v| v), oauth_a: v().map(|v| v) }),
        37 => Gen::G37(G37 { oauth_: &*Box::leak(Box::new(v().unwrap())), r#fn: v().unwrap(), next_param: v().unwrap(), a: { let _ = v(); Opaque }, oauth_z: { let _ = v(); Opaque }, oauth_nonc: Box::new(v().unwrap()) }),
        38 => Gen::G38(G38 { oauth_versioo: &*Box::leak(Box::new(v().unwrap())), oauth_callbac: v().unwrap(), oauth_callbackx: Box::new(v().unwrap()), Bar: v().unwrap(), r#type: v().unwrap() }),
        39 => Gen::G39(G39 { this: v().unwrap(), foo: v().map(|v| v), oauth_callbac: v().unwrap() }),
        40 => Gen::G40(G40 { oauth_version1: v().map(|v| Arc::new(v)), foo: v().map(|v| leak(v)), _S: { let _ = v(); Opaque } }),
        41 => Gen::G41(G41 { bind: &*Box::leak(Box::new(v().unwrap())), oauth_version1: { let _ = v().unwrap(); Blankest }, r#type: v().map(|v| cow(v)), _x: v().map(|v| Arc::new(v)), ser: v().map(|v| v.text.parse().unwrap()), f: leak(v().unwrap()), next_param: { let _ = v(); Opaque }, oauth_callbackx: v().map(|v| v) }),
        42 => Gen::G42(G42 { oauth_verifies: v().unwrap().text.parse().unwrap(), r#match: leak_show(v().unwrap()), x0: v().map(|v| { let _ = v; Blankest }) }),
        43 => Gen::G43(G43 { r#fn: v().unwrap(), value: v().unwrap().text.into_boxed_str(), bind: leak(v().unwrap()), oauth_version1: v().map(|v| v.text.into_boxed_str()), n: [(); 3] }),
        44 => Gen::G44(G44 { Bar: leak(v().unwrap()), b: v().unwrap().text, next_param: v().unwrap().text.parse().unwrap(), r#match: { let _ = v().unwrap(); Unit }, r#fn: v().map(|v| &*Box::leak(Box::new(v))), oauth_version1: v().map(|v| &*Box::leak(Box::new(v))), oauth_: { let _ = v(); Opaque }, x0: v().map(|v| leak(v)), S: { let _ = v(); Opaque }, oauth_callbackx: v().unwrap().text.into_boxed_str(), oauth_z: v().map(|v| Box::new(v)) }),
        45 => Gen::G45(G45 {  }),
        46 => Gen::G46(G46 { oauth_callbac: shadow::Option(v().unwrap()), oauth_versioo: v().map(|v| v), a: v().map(|v| &*Box::leak(Box::new(v))), helper: v().unwrap(), oauth_verifies: v().map(|v| Box::new(v)) }),
        47 => Gen::G47(G47 { helper: v().unwrap(), Bar: { let _ = v().unwrap(); Unit }, _S: v().map(|v| v) }),
        48 => Gen::G48(G48 { next_param: v().map(|v| v), tmp: v().unwrap().text, oauth_versioo: cow(v().unwrap()), oauth_nonc: v().map(|v| leak_show(v)), m: { let _ = v().unwrap(); Blankest } }),
        49 => Gen::G49(G49 { _x: v().map(|v| Box::new(v)), this: v().unwrap(), bind: v().map(|v| &*Box::leak(Box::new(v))) }),
        50 => Gen::G50(G50 { b: v().map(|v| v.text.parse().unwrap()), Bar: v().map(|v| &*Box::leak(Box::new(v))), this: v().map(|v| v.text), r#type: v().map(|v| v.text), _S: v().map(|v| &*Box::leak(Box::new(v))), oauth_verifies: v().unwrap() }),
        51 => Gen::G51(G51 { oauth_nonc: v().unwrap().text.into_boxed_str(), n: [(); 3] }),
        52 => Gen::G52(G52 { oauth_a: v().map(|v| v), f: leak_show(v().unwrap()), r#type: v().map(|v| v) }),
        53 => Gen::G53(G53 { r#match: v().unwrap().text.parse().unwrap(), oauth_timestamq: { let _ = v(); Opaque }, this: &*Box::leak(Box::new(v().unwrap())), oauth_signature_methoc: v().unwrap().text, m: v().unwrap().text.into_boxed_str(), fmt: v().map(|v| v) }),
        54 => Gen::G54(G54 { X: v().map(|v| leak_show(v)), _S: v().map(|v| v.text.into_boxed_str()), r#type: Box::new(v().unwrap()), oauth_callbackx: v().map(|v| v), oauth_: v().unwrap() }),
        55 => Gen::G55(G55 { Bar: v().map(|v| v), ser: v().map(|v| v.text.parse().unwrap()), m: v().map(|v| v), oauth_a: &*Box::leak(Box::new(v().unwrap())), r#fn: { let _ = v(); Opaque } }),
        56 => Gen::G56(G56 { oauth_timestamq: v().map(|v| { let _ = v; Unit }), ser: v().map(|v| v), X: v().map(|v| Arc::new(v)), a: &*Box::leak(Box::new(v().unwrap())), r#match: { let _ = v(); Opaque }, zz: v().map(|v| &*Box::leak(Box::new(v))), r#fn: v().map(|v| &*Box::leak(Box::new(v))), tmp: &*Box::leak(Box::new(v().unwrap())), oauth_consumer_keyx: &*Box::leak(Box::new(v().unwrap())), serializer: v().map(|v| v.text.into_boxed_str()), value: v().unwrap() }),
        57 => Gen::G57(G57 { oauth_signature_methoc: v().map(|v| { let _ = v; Blankest }), _x: Box::new(v().unwrap()), _S: v().unwrap().text, r#type: v().unwrap().text.parse().unwrap(), oauth_: v().map(|v| v), oauth_nonc: v().map(|v| v), ser: shadow::Option(v().unwrap()), helper: v().map(|v| Box::new(v)), oauth_callbackx: v().unwrap(), value: v().map(|v| leak(v)), r#fn: v().unwrap() }),
        58 => Gen::G58(G58 {  }),
        59 => Gen::G59(G59 { m: v().unwrap(), a: { let _ = v(); Opaque }, zz: v().unwrap().text, value: v().map(|v| Arc::new(v)), this: v().map(|v| v.text), _x: { let _ = v().unwrap(); Unit }, ser: v().unwrap(), oauth_callbac: v().unwrap(), oauth_: leak(v().unwrap()), x0: v().map(|v| &*Box::leak(Box::new(v))), r#type: v().unwrap(), n: [(); 3] }),
        60 => Gen::G60(G60 { oauth_callbackx: { let _ = v().unwrap(); Blankest }, S: Box::new(v().unwrap()), oauth_verifies: v().map(|v| v.text) }),
        61 => Gen::G61(G61 { zz: v().unwrap().text.parse().unwrap(), oauth_a: v().unwrap(), oauth_nonc: v().unwrap() }),
        62 => Gen::G62(G62 { x0: v().map(|v| { let _ = v; Blankest }), oauth_nonc: v().map(|v| v.text.parse().unwrap()) }),
        63 => Gen::G63(G63 { foo: leak(v().unwrap()), helper: &*Box::leak(Box::new(v().unwrap())), oauth_version1: v().unwrap().text.into_boxed_str() }),
        64 => Gen::G64(G64 { oauth_signature_methoc: { let _ = v().unwrap(); Blankest }, oauth_a: { let _ = v().unwrap(); Blankest }, zz: shadow::Option(v().unwrap()), S: Arc::new(v().unwrap()), oauth_: v().unwrap().text.into_boxed_str(), tmp: v().unwrap(), r#type: { let _ = v(); Opaque }, f: v().map(|v| v.text.parse().unwrap()) }),
        65 => Gen::G65(G65 {  }),
        66 => Gen::G66(G66 { next_param: v().map(|v| v), oauth_tokem: v().map(|v| Arc::new(v)), oauth_consumer_keyx: leak(v().unwrap()), _S: v().map(|v| v.text.parse().unwrap()) }),
        67 => Gen::G67(G67 { foo: v().unwrap().text, X: v().map(|v| v.text.parse().unwrap()), b: v().map(|v| v.text.parse().unwrap()), r#match: { let _ = v().unwrap(); Blankest }, value: Arc::new(v().unwrap()), Bar: v().map(|v| v), oauth_: v().map(|v| cow(v)), oauth_verifies: Arc::new(v().unwrap()), n: [(); 3] }),
        68 => Gen::G68(G68 { oauth_signature_methoc: v().unwrap(), r#match: { let _ = v(); Opaque }, oauth_callbac: v().unwrap(), helper: Box::new(v().unwrap()), oauth_tokem: v().map(|v| v), Bar: v().map(|v| v.text.parse().unwrap()) }),
        69 => Gen::G69(G69 { r#match: &*Box::leak(Box::new(v().unwrap())), oauth_z: { let _ = v(); Opaque }, foo: { let _ = v(); Opaque } }),
        70 => Gen::G70(G70 { value: { let _ = v().unwrap(); Unit }, _x: v().unwrap(), S: v().map(|v| v), oauth_callbackx: v().map(|v| Box::new(v)), oauth_tokem: v().unwrap().text.parse().unwrap(), bind: { let _ = v().unwrap(); Blankest }, fmt: { let _ = v(); Opaque }, helper: v().map(|v| v.text.into_boxed_str()), Bar: v().unwrap(), oauth_timestamq: Box::new(v().unwrap()), zz: v().map(|v| v.text), r#fn: v().map(|v| { let _ = v; Unit }), oauth_consumer_keyx: v().map(|v| v.text.parse().unwrap()), X: leak_show(v().unwrap()), oauth_versioo: { let _ = v(); Opaque }, tmp: v().unwrap().text.parse().unwrap(), a: v().unwrap(), _S: &*Box::leak(Box::new(v().unwrap())), m: v().unwrap().text, next_param: v().map(|v| v), oauth_z: cow(v().unwrap()), ser: v().map(|v| v.text.parse().unwrap()), oauth_callbac: v().map(|v| v.text), foo: v().unwrap(), oauth_: v().unwrap().text.parse().unwrap(), oauth_verifies: v().map(|v| cow(v)), x0: v().unwrap().text, oauth_signature_methoc: v().map(|v| v), r#match: v().map(|v| v.text.parse().unwrap()), r#type: v().unwrap().text.parse().unwrap(), oauth_version1: &*Box::leak(Box::new(v().unwrap())), b: v().map(|v| v.text.parse().unwrap()), f: v().unwrap().text.parse().unwrap(), oauth_a: v().map(|v| leak(v)) }),
        71 => Gen::G71(G71 { oauth_callbac: v().unwrap(), _S: Box::new(v().unwrap()), b: &*Box::leak(Box::new(v().unwrap())), m: v().unwrap().text.parse().unwrap(), next_param: { let _ = v(); Opaque }, Bar: v().unwrap().text, fmt: { let _ = v(); Opaque }, oauth_nonc: v().map(|v| Box::new(v)) }),
        72 => Gen::G72(G72 { tmp: v().unwrap(), oauth_timestamq: v().map(|v| v), oauth_signature_methoc: v().map(|v| cow(v)) }),
        73 => Gen::G73(G73 {  }),
        74 => Gen::G74(G74 { oauth_callbac: v().unwrap().text, ser: v().map(|v| v), next_param: v().map(|v| v), oauth_z: v().map(|v| v), tmp: cow(v().unwrap()) }),
        75 => Gen::G75(G75 { oauth_: v().map(|v| v), oauth_callbac: { let _ = v(); Opaque }, oauth_timestamq: v().unwrap().text.parse().unwrap(), f: v().unwrap().text.into_boxed_str(), ser: v().map(|v| v.text.into_boxed_str()), bind: Arc::new(v().unwrap()), oauth_version1: v().unwrap(), tmp: v().map(|v| v.text.parse().unwrap()), oauth_z: v().unwrap(), r#fn: v().unwrap(), serializer: v().map(|v| v.text.parse().unwrap()), n: [(); 3] }),
        76 => Gen::G76(G76 { oauth_callbac: v().map(|v| v.text.into_boxed_str()) }),
        77 => Gen::G77(G77 { oauth_version1: v().map(|v| leak_show(v)) }),
        78 => Gen::G78(G78 { _S: { let _ = v(); Opaque }, foo: v().unwrap().text, X: cow(v().unwrap()) }),
        79 => Gen::G79(G79 { fmt: { let _ = v(); Opaque }, r#match: v().unwrap(), oauth_verifies: v().map(|v| leak_show(v)), a: v().map(|v| &*Box::leak(Box::new(v))) }),
        80 => Gen::G80(G80 { oauth_z: v().map(|v| &*Box::leak(Box::new(v))), oauth_versioo: v().map(|v| { let _ = v; Unit }), oauth_version1: v().unwrap(), foo: v().map(|v| v.text.parse().unwrap()), x0: v().map(|v| v), bind: v().map(|v| v.text.parse().unwrap()) }),
        81 => Gen::G81(G81 { tmp: v().unwrap(), foo: v().unwrap(), ser: { let _ = v().unwrap(); Blankest } }),
        82 => Gen::G82(G82 { oauth_callbackx: v().map(|v| v), oauth_version1: v().unwrap() }),
        83 => Gen::G83(G83 { helper: v().map(|v| v), next_param: v().map(|v| &*Box::leak(Box::new(v))), r#type: { let _ = v(); Opaque }, n: [(); 3] }),
        84 => Gen::G84(G84 { oauth_signature_methoc: leak_show(v().unwrap()), foo: leak_show(v().unwrap()), a: leak_show(v().unwrap()) }),
        85 => Gen::G85(G85 { r#fn: v().unwrap(), serializer: v().map(|v| v.text.parse().unwrap()) }),
        86 => Gen::G86(G86 { oauth_z: v().unwrap(), serializer: v().map(|v| v.text), f: cow(v().unwrap()), oauth_signature_methoc: v().map(|v| v), bind: v().unwrap().text.parse().unwrap() }),
        87 => Gen::G87(G87 { r#fn: v().map(|v| leak_show(v)), ser: &*Box::leak(Box::new(v().unwrap())), oauth_verifies: v().map(|v| { let _ = v; Blankest }), oauth_a: v().unwrap().text.parse().unwrap() }),
        _ => unreachable!(),
    }
}

impl oauth::Request for Gen {
    fn serialize<Z: oauth::serializer::Serializer>(&self, s: Z) -> Z::Output {
        match self {
            Gen::G0(g) => g.serialize(s),
            Gen::G1(g) => g.serialize(s),
            Gen::G2(g) => g.serialize(s),
            Gen::G3(g) => g.serialize(s),
            Gen::G4(g) => g.serialize(s),
            Gen::G5(g) => g.serialize(s),
            Gen::G6(g) => g.serialize(s),
            Gen::G7(g) => g.serialize(s),
            Gen::G8(g) => g.serialize(s),
            Gen::G9(g) => g.serialize(s),
            Gen::G10(g) => g.serialize(s),
            Gen::G11(g) => g.serialize(s),
            Gen::G12(g) => g.serialize(s),
            Gen::G13(g) => g.serialize(s),
            Gen::G14(g) => g.serialize(s),
            Gen::G15(g) => g.serialize(s),
            Gen::G16(g) => g.serialize(s),
            Gen::G17(g) => g.serialize(s),
            Gen::G18(g) => g.serialize(s),
            Gen::G19(g) => g.serialize(s),
            Gen::G20(g) => g.serialize(s),
            Gen::G21(g) => g.serialize(s),
            Gen::G22(g) => g.serialize(s),
            Gen::G23(g) => g.serialize(s),
            Gen::G24(g) => g.serialize(s),
            Gen::G25(g) => g.serialize(s),
            Gen::G26(g) => g.serialize(s),
            Gen::G27(g) => g.serialize(s),
            Gen::G28(g) => g.serialize(s),
            Gen::G29(g) => g.serialize(s),
            Gen::G30(g) => g.serialize(s),
            Gen::G31(g) => g.serialize(s),
            Gen::G32(g) => g.serialize(s),
            Gen::G33(g) => g.serialize(s),
            Gen::G34(g) => g.serialize(s),
            Gen::G35(g) => g.serialize(s),
            Gen::G36(g) => g.serialize(s),
            Gen::G37(g) => g.serialize(s),
            Gen::G38(g) => g.serialize(s),
            Gen::G39(g) => g.serialize(s),
            Gen::G40(g) => g.serialize(s),
            Gen::G41(g) => g.serialize(s),
            Gen::G42(g) => g.serialize(s),
            Gen::G43(g) => g.serialize(s),
            Gen::G44(g) => g.serialize(s),
            Gen::G45(g) => g.serialize(s),
            Gen::G46(g) => g.serialize(s),
            Gen::G47(g) => g.serialize(s),
            Gen::G48(g) => g.serialize(s),
            Gen::G49(g) => g.serialize(s),
            Gen::G50(g) => g.serialize(s),
            Gen::G51(g) => g.serialize(s),
            Gen::G52(g) => g.serialize(s),
            Gen::G53(g) => g.serialize(s),
            Gen::G54(g) => g.serialize(s),
            Gen::G55(g) => g.serialize(s),
            Gen::G56(g) => g.serialize(s),
            Gen::G57(g) => g.serialize(s),
            Gen::G58(g) => g.serialize(s),
            Gen::G59(g) => g.serialize(s),
            Gen::G60(g) => g.serialize(s),
            Gen::G61(g) => g.serialize(s),
            Gen::G62(g) => g.serialize(s),
            Gen::G63(g) => g.serialize(s),
            Gen::G64(g) => g.serialize(s),
            Gen::G65(g) => g.serialize(s),
            Gen::G66(g) => g.serialize(s),
            Gen::G67(g) => g.serialize(s),
            Gen::G68(g) => g.serialize(s),
            Gen::G69(g) => g.serialize(s),
            Gen::G70(g) => g.serialize(s),
            Gen::G71(g) => g.serialize(s),
            Gen::G72(g) => g.serialize(s),
            Gen::G73(g) => g.serialize(s),
            Gen::G74(g) => g.serialize(s),
            Gen::G75(g) => g.serialize(s),
            Gen::G76(g) => g.serialize(s),
            Gen::G77(g) => g.serialize(s),
            Gen::G78(g) => g.serialize(s),
            Gen::G79(g) => g.serialize(s),
            Gen::G80(g) => g.serialize(s),
            Gen::G81(g) => g.serialize(s),
            Gen::G82(g) => g.serialize(s),
            Gen::G83(g) => g.serialize(s),
            Gen::G84(g) => g.serialize(s),
            Gen::G85(g) => g.serialize(s),
            Gen::G86(g) => g.serialize(s),
            Gen::G87(g) => g.serialize(s),
        }
    }
}
