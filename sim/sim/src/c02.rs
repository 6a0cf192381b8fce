//! C02: an altered or misattributed message is never accepted, by a server that re-signs with the
//! library.

use simrt::{below, chance, check, draw, eval, ev, pick, probe, set_node, state, violation, FAULT};

use crate::c01;
use crate::gen;
use crate::harness::*;
use crate::op::{self, Alg, Op, Out, Rk, Sm};
use crate::world::{self, Net, S};

/// A message on its way to the server, and what the server uses to check it.
#[derive(Clone, Debug)]
struct Wire {
    method: String,
    uri: String,
    out: Out,
    text: String,
    body: Option<String>,
}

/// A message as the server understands it.
#[derive(Clone, Debug, PartialEq)]
struct Meaning {
    method: String,
    uri: String,
    /// All parameters but the signature, sorted.
    params: Vec<(String, String)>,
    signature: String,
}

fn decode(w: &Wire) -> Result<Meaning, String> {
    let mut all = op::split_message(w.out, &w.text)?;
    let sigs: Vec<_> = all.iter().filter(|p| p.0 == "oauth_signature").cloned().collect();
    if sigs.len() != 1 {
        return Err("not exactly one signature".into());
    }
    all.retain(|p| p.0 != "oauth_signature");
    if let Some(ref b) = w.body {
        all.extend(model::parse_form(b)?);
    }
    all.sort();
    Ok(Meaning { method: w.method.clone(), uri: w.uri.clone(), params: all, signature: sigs[0].1.clone() })
}

#[derive(Clone, Debug, PartialEq)]
struct Secrets {
    cs: String,
    ts: Option<String>,
    key: usize,
}

/// The server: signs what it received again, with the library. `Err`: refused before that.
fn resign(m: &Meaning, sm: Sm, s: &Secrets) -> Result<String, String> {
    let mut o = Op {
        sm,
        key: s.key,
        entry: 0,
        method: m.method.clone(),
        uri: m.uri.clone(),
        uri_frag: op::gen_frag(true),
        params: vec![],
        rk: [Rk::ListNew, Rk::ListCollect, Rk::Sorted, Rk::Manual, Rk::ListFromSorted][below(5)],
        wrap: 0,
        ck: String::new(),
        cs: s.cs.clone(),
        tok: None,
        cb: None,
        ver: None,
        nonce: None,
        ts: None,
        version: false,
        prefix: String::new(),
    };
    o.entry = [0, 1, 2, 25, 26, 27, 28, 29, 30, 34, 35, 36][below(12)];
    let mut seen = std::collections::HashSet::new();
    for (k, v) in &m.params {
        if gen::PROTOCOL.contains(&&**k) && !seen.insert(k.clone()) {
            return Err("a protocol parameter occurs twice".into());
        }
        match &**k {
            "oauth_consumer_key" => o.ck = v.clone(),
            "oauth_token" => o.tok = Some((v.clone(), s.ts.clone().unwrap_or_default())),
            "oauth_callback" => o.cb = Some(v.clone()),
            "oauth_verifier" => o.ver = Some(v.clone()),
            "oauth_nonce" => o.nonce = Some(v.clone()),
            "oauth_timestamp" => o.ts = Some(op::parse_ts(v)?),
            "oauth_signature_method" => {
                if *v != sm.name() {
                    return Err("another signature method".into());
                }
            }
            "oauth_version" => {
                if v != "1.0" {
                    return Err("oauth_version".into());
                }
                o.version = true;
            }
            _ => {
                if !k.bytes().all(model::unreserved) {
                    return Err("a parameter name with reserved characters".into());
                }
                o.params.push(op::P { k: k.clone(), v: v.clone(), enc: false, frag: op::gen_frag(v.len() < 3000), nested: None });
            }
        }
    }
    for k in ["oauth_consumer_key", "oauth_nonce", "oauth_timestamp", "oauth_signature_method"] {
        if !seen.contains(k) {
            return Err(format!("no {}", k));
        }
    }
    if o.tok.is_none() && s.ts.is_some() {
        return Err("no oauth_token".into());
    }
    if m.uri.contains('?') {
        return Err("a query in the base URI".into());
    }
    op::sort_params(&mut o.params);
    o.wrap = below(4) as u8;
    let d = match o.exec() {
        Ok(d) => d,
        Err(p) => violation("panic", format!("signing {} panicked: {} at {}", o.brief(), p.msg, p.loc)),
    };
    let got = match op::split_message(o.out(), &d.text) {
        Ok(g) => g,
        Err(e) => violation("malformed", format!("{}: {}", e, o.brief())),
    };
    match got.iter().find(|p| p.0 == "oauth_signature") {
        Some(p) => Ok(p.1.clone()),
        None => violation("unsigned", format!("no signature in {:?}: {}", d.text, o.brief())),
    }
}

/// What something that tidies its input up might take for the same.
fn variant(s: &str) -> String {
    let sp = pick(&[" ", "\n", "\t", "\r\n", "\0", "\u{a0}", "\u{feff}", "/", "//", "=", "&", "."]);
    match below(17) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        2 => s.trim().into(),
        3 | 4 => format!("{}{}", s, sp),
        5 => format!("{}{}", sp, s),
        6 => s.trim_end_matches(|c: char| "/=.&".contains(c)).into(),
        7 => s.strip_suffix(s.chars().last().unwrap_or('x')).unwrap_or("x").into(),
        8 => s.replace("%", "%25"),
        9 => {
            // Hex digits in the other case.
            let mut b: Vec<char> = s.chars().collect();
            for i in 2..b.len() {
                if b[i - 2] == '%' {
                    for c in &mut b[i - 1..=i] {
                        *c = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
                    }
                }
            }
            b.into_iter().collect()
        }
        10 => {
            if s.contains('\u{e9}') {
                s.replace('\u{e9}', "e\u{301}")
            } else {
                s.replace("e\u{301}", "\u{e9}").replace("\r\n", "\n")
            }
        }
        11 => s.replace('\n', "\r\n"),
        12 => format!("0{}", s),
        13 => s.trim_start_matches('0').into(),
        14 => {
            // The scheme's port, or none.
            match s.strip_prefix("http://").and_then(|r| r.split_once('/')) {
                Some((h, r)) if !h.contains(':') => format!("http://{}:80/{}", h, r),
                _ => match s.strip_prefix("https://").and_then(|r| r.split_once('/')) {
                    Some((h, r)) if !h.contains(':') => format!("https://{}:443/{}", h, r),
                    _ => s.replace("//", "/"),
                },
            }
        }
        15 => model::pct(s.as_bytes()),
        _ => {
            // Far into it.
            let mut c: Vec<char> = s.chars().collect();
            let l = c.len();
            if l > 0 {
                let at = l - 1 - below(l.min(8));
                c[at] = if c[at] == 'k' { 'l' } else { 'k' };
            }
            c.into_iter().collect()
        }
    }
}

/// What something that normalises URIs might take for the same.
fn uri_variant(s: &str) -> String {
    let (scheme, rest) = s.split_once("://").unwrap_or(("", s));
    let (host, path) = rest.split_once('/').unwrap_or((rest, ""));
    let up = |t: &str| t.to_uppercase();
    match below(13) {
        0 => format!("{}://{}/{}", up(scheme), host, path),
        1 => format!("{}://{}/{}", scheme, up(host), path),
        2 => format!("{}://{}#{}", scheme, rest, pick(&["", "top", "/x"])),
        3 => format!("{}://{}@{}", scheme, pick(&["user", "user:pass", ""]), rest),
        4 => format!("{}://{}./{}", scheme, host, path),
        5 => format!("{}://{}/./{}", scheme, host, path),
        6 => format!("{}://{}/x/../{}", scheme, host, path),
        7 => format!("{}://{}//{}", scheme, host, path),
        8 => format!("{}://{}:{}/{}", scheme, host, if scheme == "http" { 80 } else { 443 }, path),
        9 => format!("{}://{}/{}", if scheme == "http" { "https" } else { "http" }, host, path),
        10 => {
            // One character of the path encoded, or one encoded character decoded.
            match path.find('%') {
                Some(i) if chance(128) => match path.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()) {
                    Some(b) if (0x21..0x7f).contains(&b) && b != b'?' => {
                        format!("{}://{}/{}{}{}", scheme, host, &path[..i], b as char, &path[i + 3..])
                    }
                    _ => s.into(),
                },
                _ => match path.char_indices().find(|c| c.1.is_ascii_alphanumeric()) {
                    Some((i, c)) => format!("{}://{}/{}%{:02X}{}", scheme, host, &path[..i], c as u32, &path[i + 1..]),
                    None => s.into(),
                },
            }
        }
        11 => format!("{}://{}/{};jsessionid=1", scheme, host, path),
        _ => format!("//{}", rest),
    }
}

fn flip_text(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    if cs.is_empty() {
        return "x".into();
    }
    if chance(85) {
        return variant(s);
    }
    let i = below(cs.len());
    let mut out: Vec<char> = cs.clone();
    match below(6) {
        0 => out[i] = if cs[i] == 'q' { 'r' } else { 'q' },
        1 => {
            out.remove(i);
        }
        2 => out.insert(i, cs[i]),
        3 => {
            // Only the last one.
            let l = out.len() - 1;
            out[l] = if cs[l] == '1' { '2' } else { '1' };
        }
        4 => {
            // Another case, or a neighbour.
            out[i] = if cs[i].is_ascii_lowercase() { cs[i].to_ascii_uppercase() } else { char::from_u32(cs[i] as u32 ^ 1).unwrap_or('?') };
        }
        _ => {
            // What an encoder or decoder might confuse it with.
            let e: String = match cs[i] {
                ' ' => "+".into(),
                '+' => " ".into(),
                '%' => "%25".into(),
                '~' => "%7E".into(),
                c => model::pct(c.to_string().as_bytes()),
            };
            let mut t: String = cs[..i].iter().collect();
            t.push_str(&e);
            t.extend(&cs[i + 1..]);
            return t;
        }
    }
    out.into_iter().collect()
}

/// Applies one alteration; returns its name.
fn tamper(m: &mut Meaning, other: &Meaning) -> &'static str {
    let np = m.params.len();
    let i = below(np);
    match below(13) {
        0 => {
            m.method = loop {
                let n = if chance(100) { flip_text(&m.method) } else { gen::method() };
                if n != m.method {
                    break n;
                }
                if m.method == "GET" {
                    break "POST".into();
                }
                m.method = "GET".into();
            };
            "alter.method"
        }
        1 => {
            m.uri = match below(4) {
                0 => flip_text(&m.uri),
                1 => gen::uri(),
                _ => uri_variant(&m.uri),
            };
            "alter.uri"
        }
        2 | 3 => {
            m.params[i].1 = if chance(180) { flip_text(&m.params[i].1) } else { gen::text() };
            "alter.value"
        }
        4 => {
            m.params[i].0 = flip_text(&m.params[i].0);
            "alter.name"
        }
        5 => {
            m.params.remove(i);
            "alter.parameter_removed"
        }
        6 => {
            m.params.push((gen::key(), gen::text()));
            "alter.parameter_added"
        }
        7 => {
            let p = m.params[i].clone();
            m.params.push(p);
            "alter.parameter_repeated"
        }
        8 => {
            // Move text across the boundary between two neighbouring fields.
            let mut fields: Vec<String> = vec![m.method.clone(), m.uri.clone()];
            for (k, v) in &m.params {
                fields.push(k.clone());
                fields.push(v.clone());
            }
            let b = below(fields.len() - 1);
            if chance(128) {
                if let Some(c) = fields[b].pop() {
                    fields[b + 1].insert(0, c);
                }
            } else if !fields[b + 1].is_empty() {
                let c = fields[b + 1].remove(0);
                fields[b].push(c);
            }
            m.method = fields[0].clone();
            m.uri = fields[1].clone();
            for (j, p) in m.params.iter_mut().enumerate() {
                *p = (fields[2 + 2 * j].clone(), fields[3 + 2 * j].clone());
            }
            "alter.boundary"
        }
        9 => {
            // Merge two parameters into one, with the delimiters as data.
            let j = (i + 1) % np;
            if j > i && !gen::PROTOCOL.contains(&&*m.params[j].0) {
                let (k, v) = m.params[j].clone();
                let t = match below(4) {
                    0 => format!("&{}={}", k, v),
                    1 => format!("%26{}%3D{}", k, v),
                    2 => format!("&{}={}", k, model::pct(v.as_bytes())),
                    _ => format!("%26{}%3D{}", k, model::pct(v.as_bytes())),
                };
                m.params[i].1.push_str(&t);
                m.params.remove(j);
            }
            "alter.delimiter_as_data"
        }
        10 => {
            // Swap two values.
            let j = below(np);
            let t = m.params[i].1.clone();
            m.params[i].1 = m.params[j].1.clone();
            m.params[j].1 = t;
            "alter.values_swapped"
        }
        11 => {
            // Splice in another message's value.
            let (k, v) = other.params[below(other.params.len())].clone();
            match m.params.iter_mut().find(|p| p.0 == k) {
                Some(p) => p.1 = v,
                None => m.params.push((k, v)),
            }
            "alter.spliced"
        }
        _ => {
            // Only that much of the nonce/timestamp/consumer key.
            let n = ["oauth_nonce", "oauth_timestamp", "oauth_consumer_key", "oauth_token", "oauth_callback", "oauth_verifier"][below(6)];
            if let Some(p) = m.params.iter_mut().find(|p| p.0 == n) {
                p.1 = if n == "oauth_timestamp" {
                    p.1.parse::<u64>().map(|t| if t > 1 { t - 1 } else { t + 1 }).unwrap_or(7).to_string()
                } else {
                    flip_text(&p.1)
                };
            }
            "alter.protocol_parameter"
        }
    }
}

fn wrong_secret(s: &Secrets) -> (Secrets, &'static str) {
    let mut t = s.clone();
    let join = format!("{}&{}", s.cs, s.ts.clone().unwrap_or_default());
    match below(7) {
        0 | 1 => t.cs = flip_text(&s.cs),
        2 => t.ts = s.ts.as_ref().map(|x| flip_text(x)),
        3 => {
            // Swapped.
            if let Some(ref ts) = s.ts {
                t.cs = ts.clone();
                t.ts = Some(s.cs.clone());
            }
        }
        4 => {
            // Another split of the same text.
            let at: Vec<usize> = join.match_indices('&').map(|x| x.0).collect();
            let a = at[below(at.len())];
            t.cs = join[..a].into();
            if s.ts.is_some() {
                t.ts = Some(join[a + 1..].into());
            }
        }
        5 => {
            if let Some(c) = t.cs.pop() {
                if let Some(ref mut ts) = t.ts {
                    ts.insert(0, c);
                }
            }
        }
        _ => t.cs = format!("{}{}", s.cs, gen::text()),
    }
    (t, "alter.secret")
}

pub fn tampering() {
    world::swarm();
    let epoch = 1_000_000_000 + below(2_000_000_000) as i64;
    let server = world::node(epoch, 0);
    let client = world::node(epoch, 60);
    let sm = Sm::gen();
    let n = 2 + below(2);
    let ops: Vec<Op> = (0..n)
        .map(|_| {
            let mut o = op::gen_op(op::OpCfg { sm: Some(sm), ..op::CFG });
            op::lengthen(&mut o);
            if chance(60) {
                // Secrets that meet at the delimiter.
                o.cs.push('&');
                if let Some(ref mut t) = o.tok {
                    t.1.insert(0, '&');
                }
            }
            state(o.shape());
            o
        })
        .collect();
    let mut net: Net<(usize, Wire, bool)> = Net::swarm(1);
    let mut clean = Vec::new();
    for (i, o) in ops.iter().enumerate() {
        set_node(client);
        ev(|| format!("op {}: {}", i, o.brief()));
        let m = c01::send(o);
        let w = Wire { method: o.method.clone(), uri: o.uri.clone(), out: o.out(), text: m.text, body: m.body };
        clean.push(decode(&w));
        net.send(0, (i, w.clone(), false));
        for _ in 0..below(3) {
            // A corrupting link: one byte of the text or body.
            let mut x = w.clone();
            let t = if x.body.as_ref().map_or(false, |b| !b.is_empty()) && chance(100) { x.body.as_mut().unwrap() } else { &mut x.text };
            let mut b = t.clone().into_bytes();
            if b.is_empty() {
                continue;
            }
            let at = draw(FAULT, b.len() as u32) as usize;
            match draw(FAULT, 3) {
                0 => b[at] = b"aZ09-~%&=\"+, "[draw(FAULT, 13) as usize],
                1 => b[at] ^= 1 << draw(FAULT, 7),
                _ => {
                    b.remove(at);
                }
            }
            if let Ok(s) = String::from_utf8(b) {
                *t = s;
                probe("fault.net_corrupted");
                net.send(0, (i, x, true));
            }
        }
    }
    set_node(server);
    while let Some((i, w, corrupted)) = net.next() {
        let o = &ops[i];
        let secrets = Secrets { cs: o.cs.clone(), ts: o.tok.as_ref().map(|t| t.1.clone()), key: o.key };
        let orig = match clean[i] {
            Ok(ref m) => m,
            Err(ref e) => violation("malformed", format!("{}: {}", e, o.brief())),
        };
        let m = match decode(&w) {
            Ok(m) => m,
            Err(_) if corrupted => {
                probe("server.refused_malformed");
                continue;
            }
            Err(e) => violation("malformed", format!("{}: {}", e, o.brief())),
        };
        judge(o, orig, &m, &secrets, &secrets, if corrupted { "corruption" } else { "none" });
        if corrupted {
            continue;
        }
        // The attacker's variants of the message.
        for _ in 0..1 + below(8) {
            let mut x = m.clone();
            let mut s = secrets.clone();
            let name = if chance(50) {
                let (t, name) = wrong_secret(&secrets);
                s = t;
                name
            } else {
                let other = clean[(i + 1) % n].as_ref().unwrap_or(orig).clone();
                tamper(&mut x, &other)
            };
            x.params.sort();
            probe(name);
            judge(o, orig, &x, &secrets, &s, name);
        }
        if o.sm.alg() == Alg::Rsa {
            let mut s = secrets.clone();
            s.key = (s.key + 1) % 3;
            judge(o, orig, &m, &secrets, &s, "alter.key");
        }
    }
    let _ = S;
}

/// Whether the server's decision is right.
fn judge(o: &Op, orig: &Meaning, m: &Meaning, s0: &Secrets, s: &Secrets, what: &str) {
    let r = resign(m, o.sm, s);
    let accepted = r.as_ref().map_or(false, |sig| *sig == m.signature);
    eval();
    let empty = |x: &Option<String>| x.clone().unwrap_or_default();
    let same_secret = s0.cs == s.cs && empty(&s0.ts) == empty(&s.ts);
    let want = match o.sm.alg() {
        _ if m.signature != orig.signature => false,
        Alg::Plain => same_secret,
        Alg::Hmac => m == orig && same_secret,
        Alg::Rsa => m == orig && s0.key == s.key,
    };
    ev(|| format!("{}: {:?} accepted={}", what, m.signature, accepted));
    if want && r.is_err() {
        // Refused before its signature was checked: fine if it was altered (PLAINTEXT).
        check!(m != orig, "unaltered-refused", "{:?} for the unaltered message {:?}: {}", r, m, o.brief());
        return;
    }
    check!(
        !accepted || want, "altered-accepted",
        "the server accepts {:?} with {:?} though the client sent {:?} with {:?} ({}): {}", m, s, orig, s0, what, o.brief()
    );
    check!(accepted || !want, "unaltered-refused", "{}: signature {:?} expected {:?} for {:?}: {}", what, m.signature, r, m, o.brief());
    probe(if accepted { "server.accepted" } else { "server.rejected" });
}

#[allow(unused)]
fn _unused(_: Frag) {}
