//! Reference V4 (GOOG4-RSA-SHA256) server, written from Google's published rules.
//! <https://cloud.google.com/storage/docs/authentication/canonical-requests>
//! <https://cloud.google.com/storage/docs/authentication/signatures>
use crate::keys::Verifier;

pub const HOST: &str = "storage.googleapis.com";

pub fn sha256(data: &[u8]) -> Vec<u8> {
    ring::digest::digest(&ring::digest::SHA256, data).as_ref().to_vec()
}

pub fn hex(data: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(data.len() * 2);
    for b in data {
        s.push(D[(b >> 4) as usize] as char);
        s.push(D[(b & 15) as usize] as char);
    }
    s
}

pub fn unhex_lower(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    let v = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        _ => None,
    };
    b.chunks(2).map(|p| Some(v(p[0])? << 4 | v(p[1])?)).collect()
}

pub fn unreserved(b: u8) -> bool {
    b.is_ascii_alphanumeric() || matches!(b, b'-' | b'.' | b'_' | b'~')
}

/// RFC 3986 percent-encoding of everything but unreserved characters.
pub fn encode(s: &[u8], out: &mut String) {
    const D: &[u8; 16] = b"0123456789ABCDEF";
    for &b in s {
        if unreserved(b) {
            out.push(b as char);
        } else {
            out.push('%');
            out.push(D[(b >> 4) as usize] as char);
            out.push(D[(b & 15) as usize] as char);
        }
    }
}

pub fn encoded(s: &[u8]) -> String {
    let mut o = String::new();
    encode(s, &mut o);
    o
}

fn hexval(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}

/// Percent-decodes; an incomplete triplet is an error.
pub fn decode(s: &str) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            match (b.get(i + 1).copied().and_then(hexval), b.get(i + 2).copied().and_then(hexval)) {
                (Some(h), Some(l)) => out.push(h << 4 | l),
                _ => return Err(format!("invalid percent-encoding in {s:?}")),
            }
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Ok(out)
}

pub struct Split<'a> {
    pub path: &'a str,
    pub query: &'a str,
}

/// Splits a URL by RFC 3986 and checks every character of it.
pub fn split(url: &str) -> Result<Split<'_>, String> {
    let rest = url
        .strip_prefix("https://storage.googleapis.com")
        .ok_or_else(|| format!("not an https URL on {HOST}: {url:?}"))?;
    if !rest.starts_with('/') {
        return Err(format!("the authority does not end after {HOST}: {url:?}"));
    }
    let (path, query) = rest.split_once('?').ok_or("no query")?;
    for (what, s) in [("path", path), ("query", query)] {
        let b = s.as_bytes();
        for (i, &c) in b.iter().enumerate() {
            let ok = unreserved(c)
                || matches!(c, b'!' | b'$' | b'&' | b'\'' | b'(' | b')' | b'*' | b'+' | b',' | b';' | b'=' | b':' | b'@' | b'/')
                || (what == "query" && c == b'?')
                || (c == b'%'
                    && b.get(i + 1).copied().and_then(hexval).is_some()
                    && b.get(i + 2).copied().and_then(hexval).is_some());
            if !ok {
                return Err(format!("character {:?} at {i} of the {what} is not allowed by RFC 3986: {url:?}", c as char));
            }
        }
    }
    Ok(Split { path, query })
}

pub type Pairs = Vec<(Vec<u8>, Vec<u8>)>;

pub fn query_pairs(query: &str) -> Result<Pairs, String> {
    let mut v = vec![];
    if query.is_empty() {
        return Ok(v);
    }
    for p in query.split('&') {
        let (k, w) = p.split_once('=').unwrap_or((p, ""));
        v.push((decode(k)?, decode(w)?));
    }
    Ok(v)
}

/// The canonical form of the path of a request line: every octet but unreserved ones is
/// percent-encoded; '/' separates segments and an encoded slash stays encoded.
pub fn canonical_path(path: &str) -> Result<String, String> {
    let b = path.as_bytes();
    let mut out = String::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'/' {
            out.push('/');
            i += 1;
        } else if b[i] == b'%' {
            encode(&decode(path.get(i..i + 3).ok_or("bad percent-encoding")?)?, &mut out);
            i += 3;
        } else {
            encode(&[b[i]], &mut out);
            i += 1;
        }
    }
    Ok(out)
}

/// Trims a header value and collapses runs of spaces and tabs to one space.
pub fn fold(value: &str) -> String {
    value.split([' ', '\t']).filter(|s| !s.is_empty()).collect::<Vec<_>>().join(" ")
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Request {
    pub method: String,
    pub url: String,
    /// as sent, Host included
    pub headers: Vec<(String, String)>,
}

/// What the server extracts from a request that it accepts.
#[derive(Clone, Debug)]
pub struct Accepted {
    pub signed_headers: String,
    pub date: String,
    pub expires: String,
    pub credential: String,
    pub string_to_sign: String,
    pub signature: Vec<u8>,
}

const SIX: [&str; 6] = [
    "X-Goog-Algorithm",
    "X-Goog-Credential",
    "X-Goog-Date",
    "X-Goog-Expires",
    "X-Goog-Signature",
    "X-Goog-SignedHeaders",
];

pub fn is_signing_parameter(name: &[u8]) -> bool {
    SIX.iter().any(|n| n.as_bytes() == name)
}

fn one<'a>(pairs: &'a Pairs, name: &str) -> Result<&'a str, String> {
    let mut it = pairs.iter().filter(|(k, _)| k == name.as_bytes());
    match (it.next(), it.next()) {
        (Some((_, v)), None) => std::str::from_utf8(v).map_err(|_| format!("{name} is not UTF-8")),
        (None, _) => Err(format!("{name} is missing")),
        (_, Some(_)) => Err(format!("{name} is repeated")),
    }
}

pub fn verify(req: &Request, key: &Verifier) -> Result<Accepted, String> {
    let sp = split(&req.url)?;
    let pairs = query_pairs(sp.query)?;
    let algorithm = one(&pairs, "X-Goog-Algorithm")?;
    let credential = one(&pairs, "X-Goog-Credential")?;
    let date = one(&pairs, "X-Goog-Date")?;
    let expires = one(&pairs, "X-Goog-Expires")?;
    let signed_headers = one(&pairs, "X-Goog-SignedHeaders")?;
    let signature = one(&pairs, "X-Goog-Signature")?;
    if algorithm != "GOOG4-RSA-SHA256" {
        return Err(format!("algorithm {algorithm:?}"));
    }
    // credential: <identity>/<scope>
    let scope = credential
        .strip_prefix(key.identity.as_str())
        .and_then(|s| s.strip_prefix('/'))
        .ok_or_else(|| format!("credential {credential:?} is not for {:?}", key.identity))?;
    let d = date.as_bytes();
    if d.len() != 16
        || !d.iter().enumerate().all(|(i, c)| match i {
            8 => *c == b'T',
            15 => *c == b'Z',
            _ => c.is_ascii_digit(),
        })
    {
        return Err(format!("malformed X-Goog-Date {date:?}"));
    }
    let region = scope
        .strip_prefix(&date[..8])
        .and_then(|s| s.strip_prefix('/'))
        .and_then(|s| s.strip_suffix("/storage/goog4_request"))
        .ok_or_else(|| format!("scope {scope:?} does not fit date {date:?}"))?;
    let _ = region;
    if expires.is_empty() || !expires.bytes().all(|b| b.is_ascii_digit()) || (expires.len() > 1 && expires.starts_with('0')) {
        return Err(format!("malformed X-Goog-Expires {expires:?}"));
    }
    if expires.len() > 6 || expires.parse::<u64>().unwrap_or(u64::MAX) > 604800 {
        return Err(format!("X-Goog-Expires {expires} is too large"));
    }
    // canonical query string: everything but the signature
    let mut q: Vec<(String, String)> = pairs
        .iter()
        .filter(|(k, _)| k != b"X-Goog-Signature")
        .map(|(k, v)| (encoded(k), encoded(v)))
        .collect();
    q.sort();
    let q = q.into_iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join("&");
    // headers
    let names: Vec<&str> = signed_headers.split(';').collect();
    if names.windows(2).any(|w| w[0] >= w[1]) {
        return Err(format!("signed headers {signed_headers:?} are not sorted and distinct"));
    }
    if !names.contains(&"host") {
        return Err("host is not signed".into());
    }
    let mut canonical_headers = String::new();
    let mut payload = "UNSIGNED-PAYLOAD".to_string();
    for n in &names {
        let vals: Vec<String> = req
            .headers
            .iter()
            .filter(|(k, _)| k.to_ascii_lowercase() == *n)
            .map(|(_, v)| fold(v))
            .collect();
        if vals.is_empty() {
            return Err(format!("signed header {n:?} is not in the request"));
        }
        let v = vals.join(",");
        if *n == "x-goog-content-sha256" {
            payload = v.clone();
        }
        canonical_headers.push_str(&format!("{n}:{v}\n"));
    }
    for (k, _) in &req.headers {
        let k = k.to_ascii_lowercase();
        if k.starts_with("x-goog-") && !names.contains(&k.as_str()) {
            return Err(format!("header {k:?} is sent but not signed"));
        }
    }
    let canonical_request = format!(
        "{}\n{}\n{q}\n{canonical_headers}\n{signed_headers}\n{payload}",
        req.method,
        canonical_path(sp.path)?
    );
    let string_to_sign = format!("{algorithm}\n{date}\n{scope}\n{}", hex(&sha256(canonical_request.as_bytes())));
    let sig = unhex_lower(signature).ok_or_else(|| format!("signature is not lower-case hex: {signature:?}"))?;
    if !key.verify(string_to_sign.as_bytes(), &sig) {
        return Err(format!("signature does not verify; the server's canonical request is {canonical_request:?}"));
    }
    Ok(Accepted {
        signed_headers: signed_headers.into(),
        date: date.into(),
        expires: expires.into(),
        credential: credential.into(),
        string_to_sign,
        signature: sig,
    })
}

/// The query string of the URL is in canonical form and the signature comes last.
pub fn canonical_form(url: &str) -> Result<(), String> {
    let sp = split(url)?;
    let raw: Vec<&str> = sp.query.split('&').collect();
    let mut prev: Option<(String, String)> = None;
    for (i, p) in raw.iter().enumerate() {
        let (k, v) = p.split_once('=').ok_or_else(|| format!("parameter {p:?} has no '='"))?;
        for s in [k, v] {
            if encoded(&decode(s)?) != s {
                return Err(format!("{s:?} in the query is not in canonical percent-encoding"));
            }
        }
        if i + 1 == raw.len() {
            if k != "X-Goog-Signature" {
                return Err(format!("the last parameter is {k:?}, not the signature"));
            }
        } else {
            let cur = (k.to_string(), v.to_string());
            if prev.as_ref().is_some_and(|p| *p > cur) {
                return Err(format!("query parameter {p:?} is out of order"));
            }
            prev = Some(cur);
        }
    }
    Ok(())
}
