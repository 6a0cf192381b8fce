//! Generators. Every choice comes from the recorded `gen` stream; 0 is the simplest choice.

use simrt::{below, chance, draw, pick, pickc, Rng, GEN};

const SPECIAL: &[&str] = &[
    "", "&", "=", "%", "+", " ", "~", "-", ".", "_", "%26", "%2526", "a=b&c=d", "a%3Db", "\"", "\\", ",", "\0",
    "\u{7f}", "é", "ふー", "🦀", "\u{ffff}", "\u{10ffff}", "\u{80}", "a b", "a+b", "1.0", "null", "0", "/", "?", "#", ":", "@",
    "!", "$", "'", "(", ")", "*", ";", "[", "]", "{", "}", "|", "^", "`", "<", ">", "\r\n", "\n", "\t", "A", "Z", "z", "9",
    "http://example.com/cb?x=1&y=2#f", "oob", "%E3%81%B5", "true", "false",
];

const MULTI: &[char] = &[
    'é', 'ß', '\u{80}', '\u{7ff}', '\u{800}', 'ふ', 'ー', '酒', '場', '\u{ffff}', '\u{fffd}', '\u{10000}', '🦀', '🔏', '\u{10ffff}', '\u{301}',
];

const ASCII_MIX: &[u8] = b"abcXYZ019-._~ !\"#$%&'()*+,/:;<=>?@[\\]^`{|}\x00\x1f\x7f\n";

fn char_from(r: &mut Rng, class: usize) -> char {
    let v = r.next() >> 8;
    match class {
        0 => (b'a' + (v % 26) as u8) as char,
        1 => {
            const U: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~";
            U[(v % U.len() as u64) as usize] as char
        }
        2 => ASCII_MIX[(v % ASCII_MIX.len() as u64) as usize] as char,
        3 => MULTI[(v % MULTI.len() as u64) as usize],
        4 => (v % 128) as u8 as char,
        5 => char::from_u32((v % 0x110000) as u32).unwrap_or('x'),
        6 => ['%', '4', '1', '2', '5', '+', '&', '='][(v % 8) as usize],
        _ => {
            let c = (r.next() >> 8) % 7;
            char_from(r, c as usize)
        }
    }
}

fn expand(class: usize, len: usize) -> String {
    let seed = draw(GEN, 1 << 20);
    let mut r = Rng(seed as u64 + 1);
    (0..len).map(|_| char_from(&mut r, class)).collect()
}

/// Plain text but for a character or two.
fn nearly_plain(len: usize) -> String {
    let mut t: Vec<char> = expand(pickc(&[0, 1]), len).chars().collect();
    for _ in 0..1 + below(2) {
        let at = below(t.len() + 1);
        let c = match below(4) {
            0..=1 => draw(GEN, 128) as u8 as char,
            2 => ASCII_MIX[below(ASCII_MIX.len())] as char,
            _ => MULTI[below(MULTI.len())],
        };
        t.insert(at, c);
    }
    t.into_iter().collect()
}


/// Text that is something else already: encoded, a URL with a query, a header, padded, repeated.
fn dressed() -> String {
    let t = match below(4) {
        0 => expand(0, 1 + below(6)),
        1 => expand(2, 1 + below(12)),
        2 => expand(3, 1 + below(4)),
        _ => pick(&["http://example.com/cb?x=1&y=2", "https://a.b/?next=/c%20d", "a=b&c=d", "oauth_token=x", "key"]).to_string(),
    };
    match below(11) {
        0 => model::pct(t.as_bytes()),
        1 => model::pct(model::pct(t.as_bytes()).as_bytes()),
        2 => model::pct(t.as_bytes()).to_lowercase(),
        3 => format!("http://example.com/cb?next={}&n={}", model::pct(t.as_bytes()), below(100)),
        4 => format!("{}{}", pick(&[" ", "\n", "\t", "\u{feff}", "\u{a0}", "  "]), t),
        5 => format!("{}{}", t, pick(&[" ", "\n", "\r\n", "\0", "/", "//", "=", "==", "&", "%", "."])),
        6 => {
            let u = pick(&["a", "%", "&", " ", "é", "ふ", "ab", "%25", "=", "+", "~", "\0"]);
            u.repeat(1 + below(pickc(&[5usize, 40, 140])))
        }
        7 => format!("OAuth oauth_token=\"{}\"", model::pct(t.as_bytes())),
        8 => format!("{}={}", pick(PROTOCOL), t),
        9 => format!("{}==", expand(1, 20)),
        _ => pick(&["PLAINTEXT", "HMAC-SHA1", "1.0", "%2B", "%7E", "%7e", "&amp;", "\u{1f468}\u{200d}\u{1f469}", "e\u{301}", "ﬁ", "İ", "ǆ"]).to_string(),
    }
}

/// Arbitrary text, biased towards what encoders and block buffers get wrong.
pub fn text() -> String {
    match below(17) {
        0 => expand(0, 1 + below(4)),
        1 | 2 => pick(SPECIAL).to_string(),
        3 => expand(1, below(21)),
        4 => expand(2, below(20)),
        5 => expand(4, below(12)),
        6 => expand(3, below(8)),
        7 => expand(7, below(16)),
        8 => expand(6, below(12)),
        9 => (draw(GEN, 128) as u8 as char).to_string(),
        10 => char::from_u32(draw(GEN, 0x110000)).unwrap_or('y').to_string(),
        11 => {
            let l = pickc(&[20usize, 31, 32, 33, 55, 56, 63, 64, 65, 66, 100, 127, 128, 129]);
            expand(pickc(&[0, 1, 2, 3, 7]), l)
        }
        12 => nearly_plain(below(24)),
        13 => nearly_plain(pickc(&[8usize, 15, 16, 17, 30, 31, 32, 48, 63, 64, 100])),
        14 | 15 => dressed(),
        _ => {
            if chance(80) {
                let l = pickc(&[200usize, 255, 256, 257, 300, 511, 512, 513, 600, 1023, 1025, 2100]);
                expand(pickc(&[0, 2, 3, 7]), l)
            } else {
                expand(5, below(10))
            }
        }
    }
}

/// Text beyond any likely buffer; `plain`: with next to nothing to encode.
pub fn long(plain: bool) -> String {
    let l = pickc(&[4095usize, 4097, 8193, 16385, 17000, 33000, 66000]);
    if plain {
        let mut t = expand(pickc(&[0, 1]), l);
        t.push_str(pick(&["", "~", "&", "é", " +%"]));
        t
    } else {
        expand(pickc(&[0, 1, 2, 3]), l)
    }
}

/// A text of a few characters.
pub fn short() -> String {
    match below(4) {
        0 => pick(&["", "a", "~", "é", "/", "a/", "a~", "%", "10", "9"]).to_string(),
        1 => expand(1, below(7)),
        2 => expand(2, below(5)),
        _ => draw(GEN, 1200).to_string(),
    }
}

/// A secret: like `text`, with more lengths around the HMAC block size.
pub fn secret() -> String {
    match below(5) {
        0 => expand(1, 1 + below(12)),
        1 => text(),
        2 => expand(1, 50 + below(20)),
        3 if chance(128) => nearly_plain(2 + below(62)),
        3 if chance(60) => dressed(),
        _ => expand(2, 14 + below(14)),
    }
}

pub const KEYS: &[&str] = &[
    "a", "b", "aa", "A", "Z", "z", "0", "_", "~", "-", ".", "m", "n", "o", "p", "oaut", "oauth", "oauth_", "oauth_a", "oauth_body_hash",
    "oauth_callbac", "oauth_callback_", "oauth_callbackx", "oauth_consumer_kez", "oauth_consumer_key2", "oauth_nonc",
    "oauth_nonce_", "oauth_session_handle", "oauth_signature_methoc", "oauth_signature_methodx", "oauth_timestamp0", "oauth_timestam",
    "oauth_tok", "oauth_token_", "oauth_token_x", "oauth_verif", "oauth_verifier9", "oauth_version1", "oauth_versioo", "oauth_z", "oauth-x", "oauth.x",
    "oauti", "oauth~", "zzz", "file", "status", "include_entities", "track", "c2", "a3",
];

pub const PROTOCOL: &[&str] = &[
    "oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature", "oauth_signature_method", "oauth_timestamp",
    "oauth_token", "oauth_verifier", "oauth_version",
];

/// A parameter name. Names are restricted to unreserved characters (the library leaves encoding them
/// to the caller) and differ from the protocol parameters'.
pub fn key() -> String {
    loop {
        let k = match below(8) {
            // A name may be empty.
            0 if chance(12) => String::new(),
            0..=4 => pick(KEYS).to_string(),
            5 => expand(1, 1 + below(12)),
            6 => format!("oauth_{}", expand(1, below(6))),
            _ => expand(0, 1),
        };
        if !PROTOCOL.contains(&&*k) {
            return k;
        }
        // A replayed (shrunk) stream of zeros never gets here: the first choice is "a".
    }
}

pub const METHODS: &[&str] = &["GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "CONNECT", "PATCH", "TRACE"];

pub fn method() -> String {
    match below(8) {
        0..=4 => pick(METHODS).to_string(),
        5 => pick(&["PROPFIND", "M-SEARCH", "REPORT", "VERSION-CONTROL", "X", "GET2"]).to_string(),
        6 => pick(&["A&B", "FOO%26", "X!Y", "PA*CH", "A|B", "C^D", "%47ET", "A'B", "G+T", "#1", "$", "A`B"]).to_string(),
        _ => expand(1, 1 + below(9)).to_uppercase(),
    }
}

/// An absolute, normalised base string URI.
pub fn uri() -> String {
    let scheme = pick(&["http", "https"]);
    let host = pick(&[
        "example.com", "a.b", "localhost", "127.0.0.1", "[::1]", "xn--bcher-kva.example", "api.twitter.com", "photos.example.net",
    ]);
    let port = pick(&["", ":8080", ":1", ":65535", ":8443"]);
    let path = match below(8) {
        0 => "/".to_string(),
        1 => "/photos".to_string(),
        2 => "/1.1/statuses/update.json".to_string(),
        3 => "/r%20v/X".to_string(),
        4 => format!("/{}", model::pct(text().as_bytes())),
        5 => format!("/a;p=1/~u/@x:y,z+w!$'()*/{}", expand(1, below(8))),
        6 => format!("/{}", expand(1, below(300))),
        _ => format!("/{}/{}/", expand(1, below(5)), expand(1, below(5))),
    };
    format!("{}://{}{}{}", scheme, host, port, path)
}
