//! An implementation of the parts of RFC 5849 / RFC 3986 / RFC 2104 / RFC 3447 / RFC 4648 / FIPS 180
//! that a *server* needs, written from the specifications and sharing no code with the library under
//! test (it does not depend on any crate the library uses, except for big-integer arithmetic).

use num_bigint_dig::BigUint;

pub fn unreserved(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'-' || b == b'.' || b == b'_' || b == b'~'
}

/// RFC 5849 section 3.6.
pub fn pct(s: &[u8]) -> String {
    let mut o = String::with_capacity(s.len() * 3);
    for &b in s {
        if unreserved(b) {
            o.push(b as char);
        } else {
            const H: &[u8; 16] = b"0123456789ABCDEF";
            o.push('%');
            o.push(H[(b >> 4) as usize] as char);
            o.push(H[(b & 15) as usize] as char);
        }
    }
    o
}

fn hexv(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}

/// Decodes percent-encoding. Fails on anything that is not strictly `unreserved / pct-encoded`.
pub fn unpct_strict(s: &str) -> Result<String, String> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let (h, l) = match (b.get(i + 1), b.get(i + 2)) {
                (Some(&h), Some(&l)) => (h, l),
                _ => return Err(format!("truncated escape in {:?}", s)),
            };
            match (hexv(h), hexv(l)) {
                (Some(h), Some(l)) => o.push(h << 4 | l),
                _ => return Err(format!("bad escape in {:?}", s)),
            }
            i += 3;
        } else if unreserved(b[i]) {
            o.push(b[i]);
            i += 1;
        } else {
            return Err(format!("raw reserved character in {:?}", s));
        }
    }
    String::from_utf8(o).map_err(|_| format!("not UTF-8 after decoding: {:?}", s))
}

/// WHATWG/HTML `x-www-form-urlencoded` parsing of the names and values ('+' is a space).
pub fn parse_form(s: &str) -> Result<Vec<(String, String)>, String> {
    let mut out = Vec::new();
    if s.is_empty() {
        return Ok(out);
    }
    for piece in s.split('&') {
        let mut it = piece.splitn(2, '=');
        let k = it.next().unwrap();
        let v = match it.next() {
            Some(v) => v,
            None => return Err(format!("no `=` in the pair {:?}", piece)),
        };
        out.push((unpct_strict(k)?, unpct_strict(v)?));
    }
    Ok(out)
}

/// RFC 5849 section 3.5.1.: parses an `Authorization` header value.
pub fn parse_header(s: &str) -> Result<Vec<(String, String)>, String> {
    let scheme = s.get(..5).unwrap_or("");
    if !scheme.eq_ignore_ascii_case("OAuth") {
        return Err(format!("not an OAuth header: {:?}", s));
    }
    let mut rest = &s[5..];
    if !rest.starts_with(' ') {
        return Err("no space after the scheme".into());
    }
    let mut out = Vec::new();
    loop {
        rest = rest.trim_start_matches(' ');
        let eq = rest.find('=').ok_or_else(|| format!("no `=` in {:?}", rest))?;
        let k = &rest[..eq];
        if k.is_empty() {
            return Err("empty parameter name".into());
        }
        let r = rest[eq + 1..].strip_prefix('"').ok_or_else(|| format!("no opening quote after {:?}", k))?;
        let q = r.find('"').ok_or_else(|| format!("no closing quote after {:?}", k))?;
        out.push((unpct_strict(k)?, unpct_strict(&r[..q])?));
        rest = &r[q + 1..];
        if rest.is_empty() {
            return Ok(out);
        }
        rest = rest.strip_prefix(',').ok_or_else(|| format!("garbage after {:?}: {:?}", k, rest))?;
    }
}

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut cc, mut d, mut e] = h;
        for (i, &wi) in w.iter().enumerate() {
            let (f, k) = match i {
                0..=19 => ((b & cc) | (!b & d), 0x5A827999),
                20..=39 => (b ^ cc ^ d, 0x6ED9EBA1),
                40..=59 => ((b & cc) | (b & d) | (cc & d), 0x8F1BBCDC),
                _ => (b ^ cc ^ d, 0xCA62C1D6u32),
            };
            let t = a
                .rotate_left(5)
                .wrapping_add(f)
                .wrapping_add(e)
                .wrapping_add(k)
                .wrapping_add(wi);
            e = d;
            d = cc;
            cc = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut o = [0; 20];
    for (i, x) in h.iter().enumerate() {
        o[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
    }
    o
}

pub fn hmac_sha1(key: &[u8], data: &[u8]) -> [u8; 20] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..20].copy_from_slice(&sha1(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(data);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend_from_slice(&sha1(&inner));
    sha1(&outer)
}

pub fn b64(data: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let s = s.as_bytes();
    if s.len() % 4 != 0 {
        return None;
    }
    let mut o = Vec::new();
    let n = s.len() / 4;
    for (i, c) in s.chunks(4).enumerate() {
        let pad = c.iter().rev().take_while(|&&b| b == b'=').count();
        if pad > 2 || (pad > 0 && i + 1 != n) {
            return None;
        }
        let mut v = 0u32;
        for &b in &c[..4 - pad] {
            let d = match b {
                b'A'..=b'Z' => b - b'A',
                b'a'..=b'z' => b - b'a' + 26,
                b'0'..=b'9' => b - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => return None,
            };
            v = v << 6 | d as u32;
        }
        v <<= 6 * pad as u32;
        o.extend_from_slice(&v.to_be_bytes()[1..4 - pad]);
    }
    Some(o)
}

/// RFC 5849 section 3.4.1. `base_uri` is the base string URI; `params` are all the decoded
/// parameters except for `oauth_signature`.
pub fn base_string(method: &str, base_uri: &str, params: &[(String, String)]) -> String {
    let mut enc: Vec<(String, String)> = params
        .iter()
        .map(|(k, v)| (pct(k.as_bytes()), pct(v.as_bytes())))
        .collect();
    enc.sort();
    let mut norm = String::new();
    for (i, (k, v)) in enc.iter().enumerate() {
        if i > 0 {
            norm.push('&');
        }
        norm.push_str(k);
        norm.push('=');
        norm.push_str(v);
    }
    format!("{}&{}&{}", pct(method.as_bytes()), pct(base_uri.as_bytes()), pct(norm.as_bytes()))
}

pub fn signing_key(client_secret: &str, token_secret: Option<&str>) -> String {
    format!("{}&{}", pct(client_secret.as_bytes()), pct(token_secret.unwrap_or("").as_bytes()))
}

pub fn hmac_signature(base: &str, client_secret: &str, token_secret: Option<&str>) -> String {
    b64(&hmac_sha1(signing_key(client_secret, token_secret).as_bytes(), base.as_bytes()))
}

/// RSASSA-PKCS1-v1_5 verification (RFC 3447 section 8.2.2.) with SHA-1.
pub struct RsaPublic {
    pub n: BigUint,
    pub e: BigUint,
    pub len: usize,
}

impl RsaPublic {
    pub fn from_hex(n: &str, e: u32) -> Self {
        let n = if n.len() % 2 == 1 { format!("0{}", n) } else { n.to_string() };
        let bytes: Vec<u8> = (0..n.len() / 2)
            .map(|i| u8::from_str_radix(&n[2 * i..2 * i + 2], 16).unwrap())
            .collect();
        let len = bytes.len();
        RsaPublic { n: BigUint::from_bytes_be(&bytes), e: BigUint::from(e), len }
    }

    pub fn verify(&self, base: &str, signature_b64: &str) -> bool {
        let sig = match unb64(signature_b64) {
            Some(s) => s,
            None => return false,
        };
        if sig.len() != self.len {
            return false;
        }
        let m = BigUint::from_bytes_be(&sig).modpow(&self.e, &self.n).to_bytes_be();
        let mut em = vec![0x01];
        const DI: [u8; 15] = [
            0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14,
        ];
        em.resize(self.len - 1 - 1 - DI.len() - 20, 0xff);
        em.push(0);
        em.extend_from_slice(&DI);
        em.extend_from_slice(&sha1(base.as_bytes()));
        m == em
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    fn hex(b: &[u8]) -> String {
        b.iter().map(|b| format!("{:02x}", b)).collect()
    }
    #[test]
    fn vectors() {
        assert_eq!(hex(&sha1(b"")), "da39a3ee5e6b4b0d3255bfef95601890afd80709");
        assert_eq!(hex(&sha1(b"abc")), "a9993e364706816aba3e25717850c26c9cd0d89d");
        assert_eq!(
            hex(&sha1(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")),
            "84983e441c3bd26ebaae4aa1f95129e5e54670f1"
        );
        // RFC 2202
        assert_eq!(hex(&hmac_sha1(&[0x0b; 20], b"Hi There")), "b617318655057264e28bc0b6fb378c8ef146be00");
        assert_eq!(
            hex(&hmac_sha1(&[0xaa; 80], b"Test Using Larger Than Block-Size Key - Hash Key First")),
            "aa4ae5e15272d00e95705637ce8a3b55ed402112"
        );
        assert_eq!(b64(b"f"), "Zg==");
        assert_eq!(b64(b"foobar"), "Zm9vYmFy");
        for n in 0..40 {
            let v: Vec<u8> = (0..n).map(|i| (i * 37) as u8).collect();
            assert_eq!(unb64(&b64(&v)).unwrap(), v);
        }
        // RFC 5849 section 1.2 (the first example).
        let p: Vec<(String, String)> = [
            ("oauth_consumer_key", "dpf43f3p2l4k3l03"),
            ("oauth_signature_method", "HMAC-SHA1"),
            ("oauth_timestamp", "137131200"),
            ("oauth_nonce", "wIjqoxSJzTAA"),
            ("oauth_callback", "http://printer.example.com/ready"),
        ]
        .iter()
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect();
        let _ = p;
        // The signature-method test case of the OAuth wiki / RFC 5849 3.4.1.1.
        let params: Vec<(String, String)> = [
            ("b5", "=%3D"), ("a3", "a"), ("c@", ""), ("a2", "r b"),
            ("oauth_consumer_key", "9djdj82h48djs9d2"), ("oauth_token", "kkk9d7dh3k39sjv7"),
            ("oauth_signature_method", "HMAC-SHA1"), ("oauth_timestamp", "137131201"),
            ("oauth_nonce", "7d8f3e4a"), ("c2", ""), ("a3", "2 q"),
        ]
        .iter()
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect();
        assert_eq!(
            base_string("POST", "http://example.com/request", &params),
            "POST&http%3A%2F%2Fexample.com%2Frequest&a2%3Dr%2520b%26a3%3D2%2520q%26a3%3Da%26b5%3D%253D%25253D%26c%2540%3D%26c2%3D%26oauth_consumer_key%3D9djdj82h48djs9d2%26oauth_nonce%3D7d8f3e4a%26oauth_signature_method%3DHMAC-SHA1%26oauth_timestamp%3D137131201%26oauth_token%3Dkkk9d7dh3k39sjv7"
        );
        // Twitter's example.
        let params: Vec<(String, String)> = [
            ("status", "Hello Ladies + Gentlemen, a signed OAuth request!"), ("include_entities", "true"),
            ("oauth_consumer_key", "xvz1evFS4wEEPTGEFPHBog"), ("oauth_nonce", "kYjzVBB8Y0ZFabxSWbWovY3uYSQ2pTgmZeNu2VS4cg"),
            ("oauth_signature_method", "HMAC-SHA1"), ("oauth_timestamp", "1318622958"),
            ("oauth_token", "370773112-GmHxMAgYyLbNEtIKZeRNFsMKPR9EyMZeS9weJAEb"), ("oauth_version", "1.0"),
        ]
        .iter()
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect();
        let base = base_string("POST", "https://api.twitter.com/1.1/statuses/update.json", &params);
        assert_eq!(
            hmac_signature(&base, "kAcSOqF21Fu85e7zjz7ZN2U4ZRhfV3WpwPAoE3Z7kBw", Some("LswwdoUaIvS8ltyTt5jkRh4J50vUPVVHtR2YPi5kE")),
            "hCtSmYh+iHYCEqBWrE7C7hYmtUk="
        );
    }
}
