//! C01, C02, C03, and the URL half of C18.
use crate::exec::{init, traffic, Key, Out, UrlCase, NOW};
use crate::fw::{hash64, scalar, seq, seq_count, Cx, Ix, SCALARS, W};
use crate::gcs;
use crate::urlspace::{self, METHODS};
use std::collections::HashMap;
use std::sync::Mutex;

/// Runs one case, recording it.
pub fn exec(u: &UrlCase, w: &mut W) -> Out<String> {
    w.case(|| format!("{u:?}"));
    let out = u.run();
    w.steps += 1 + traffic().len() as u64;
    w.traces += 1;
    w.class(out.class());
    w.state(&out);
    out
}

fn all(cx: &mut Cx, judge: impl Fn(&UrlCase, &Out<String>, &mut W) -> Result<(), String> + Sync) {
    for d in urlspace::domains(cx.thorough) {
        cx.sweep(d.name, &d.what, d.n, |i, w| {
            init();
            let u = (d.gen)(i);
            let out = exec(&u, w);
            judge(&u, &out, w)
        });
    }
}

/// Requests whose x-goog-content-sha256 is repeated or not a payload hash have no defined meaning.
fn odd_payload_hash(u: &UrlCase) -> bool {
    let v: Vec<&String> =
        u.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case("x-goog-content-sha256")).map(|(_, v)| v).collect();
    v.len() > 1 || v.iter().any(|v| gcs::fold(v).is_empty() || gcs::fold(v).contains([' ', ',']))
}

pub fn c01(cx: &mut Cx) {
    cx.assume("the reference server encodes Google's published V4 rules; the real service is not contacted");
    cx.assume("callers do not pass the six X-Goog-* signing parameters as their own query parameters, nor more than one Host header or x-goog-content-sha256 header");
    all(cx, |u, out, w| {
        let Out::Ok(url) = out else { return Ok(()) };
        if odd_payload_hash(u) {
            w.class("no defined payload hash");
            return Ok(());
        }
        gcs::canonical_form(url)?;
        gcs::verify(&u.request(url), &u.key.verifier())?;
        Ok(())
    });
    // any casing of header names on the wire, repeated headers sent as one, extra whitespace on the wire
    cx.sweep("wire-variants", "the client sends names in other case, or values with extra surrounding/inner spaces", 12 * 13 * 4, |i, w| {
        init();
        let mut x = Ix(i);
        let mut u = UrlCase::base();
        let v = x.n(4);
        u.headers = vec![(x.pick(&urlspace::HNAMES).to_string(), x.pick(&urlspace::HVALUES).to_string())];
        let out = exec(&u, w);
        let Out::Ok(url) = &out else { return Ok(()) };
        if odd_payload_hash(&u) {
            return Ok(());
        }
        let mut r = u.request(url);
        for (k, val) in &mut r.headers {
            match v {
                0 => *k = k.to_ascii_uppercase(),
                1 => *k = k.to_ascii_lowercase(),
                2 => *val = format!("  {val}\t"),
                _ => *val = val.replace(' ', " \t "),
            }
        }
        gcs::verify(&r, &u.key.verifier()).map(|_| ())
    });
}

fn dots(s: &str) -> bool {
    s == "." || s == ".."
}

fn addresses(u: &UrlCase, url: &str) -> Result<(), String> {
    let sp = gcs::split(url)?;
    let want = format!("/{}/{}", u.bucket, u.object);
    let got = gcs::decode(sp.path)?;
    if got != want.as_bytes() {
        return Err(format!("the URL's path decodes to {:?}, not {want:?}: {url}", String::from_utf8_lossy(&got)));
    }
    let mut got = gcs::query_pairs(sp.query)?;
    let mut want: gcs::Pairs = u.query.iter().map(|(k, v)| (k.clone().into_bytes(), v.clone().into_bytes())).collect();
    let six = got.iter().filter(|(k, _)| gcs::is_signing_parameter(k)).map(|(k, _)| k.clone()).collect::<std::collections::BTreeSet<_>>();
    let n = got.len();
    got.retain(|(k, _)| !gcs::is_signing_parameter(k));
    if six.len() != 6 || n - got.len() != 6 {
        return Err(format!("the signing parameters are not there exactly once each: {url}"));
    }
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("the URL's query parameters are not the requested ones: {url}"));
    }
    let p = url::Url::parse(url).map_err(|e| format!("not a URL for WHATWG parsers: {e}: {url}"))?;
    if p.as_str() != url {
        return Err(format!("WHATWG parsing turns {url} into {p}"));
    }
    if p.host_str() != Some(gcs::HOST) || p.fragment().is_some() || p.path() != sp.path {
        return Err(format!("WHATWG parsing sees another host, path or a fragment: {url}"));
    }
    if url.len() < 60000 {
        let h: http::Uri = url.parse().map_err(|e| format!("not a URI for HTTP clients: {e}: {url}"))?;
        if h.path() != sp.path || h.query() != Some(sp.query) {
            return Err(format!("HTTP clients see another path or query: {url}"));
        }
    }
    Ok(())
}

pub fn c02(cx: &mut Cx) {
    cx.assume("callers do not pass the six X-Goog-* signing parameters as their own query parameters");
    all(cx, |u, out, w| {
        let Out::Ok(url) = out else { return Ok(()) };
        if dots(&u.bucket) || dots(&u.object) {
            return Err(format!("no URL can address bucket {:?} object {:?}, but got {url}", u.bucket, u.object));
        }
        w.class("addressed");
        addresses(u, url)
    });
    // bucket x object interplay
    let words = urlspace::SMALL;
    let k = words.len() as u64;
    let len = if cx.thorough { 3 } else { 2 };
    let n = seq_count(k, len);
    cx.sweep("bucket-object", &format!("bucket and object: every pair of strings of length <= {len} over {k} symbols"), n * n, |i, w| {
        init();
        let mut x = Ix(i);
        let mut u = UrlCase::base();
        u.bucket = urlspace::word(&words, x.n(n));
        u.object = urlspace::word(&words, x.0);
        let Out::Ok(url) = exec(&u, w) else { return Ok(()) };
        if dots(&u.bucket) || dots(&u.object) {
            return Err(format!("no URL can address bucket {:?} object {:?}, but got {url}", u.bucket, u.object));
        }
        addresses(&u, &url)
    });
}

/// What the request means; two option sets with different meanings must not share a signature.
fn meaning(u: &UrlCase) -> Vec<u8> {
    let mut h: std::collections::BTreeMap<String, Vec<String>> = Default::default();
    for (k, v) in &u.request("").headers {
        h.entry(k.to_ascii_lowercase()).or_default().push(gcs::fold(v));
    }
    let h: Vec<(String, String)> = h.into_iter().map(|(k, v)| (k, v.join(","))).collect();
    let mut q = u.query.clone();
    q.sort();
    let at = u.at.unwrap_or(NOW);
    gcs::sha256(
        format!(
            "{:?}",
            (&u.method, &u.bucket, &u.object, u.region.as_deref().unwrap_or("auto"), h, q, at.div_euclid(1_000_000_000), (u.expires - at).div_euclid(1_000_000_000), u.key.identity())
        )
        .as_bytes(),
    )
}

fn signature_of(url: &str) -> Option<&str> {
    url.rsplit_once("&X-Goog-Signature=").map(|(_, s)| s)
}

fn signed_headers_of(u: &UrlCase) -> String {
    let mut n: Vec<String> = u.headers.iter().map(|(k, _)| k.to_ascii_lowercase()).chain(["host".to_string()]).collect();
    n.sort();
    n.dedup();
    n.join(";")
}

fn half(b: &[u8]) -> u128 {
    u128::from_be_bytes(b[..16].try_into().unwrap())
}

pub fn c03(cx: &mut Cx) {
    cx.assume("SHA-256 and the signature primitive are collision-free on the explored space");
    let seen: Vec<Mutex<HashMap<u128, (u128, u64)>>> = (0..64).map(|_| Mutex::new(HashMap::new())).collect();
    let judge = |u: &UrlCase, out: &Out<String>, w: &mut W| -> Result<(), String> {
        let Out::Ok(url) = out else { return Ok(()) };
        let sp = gcs::split(url)?;
        let q = gcs::query_pairs(sp.query)?;
        let got = q.iter().find(|(k, _)| k == b"X-Goog-SignedHeaders").map(|(_, v)| String::from_utf8_lossy(v).into_owned());
        let want = signed_headers_of(u);
        if got.as_deref() != Some(want.as_str()) {
            return Err(format!("X-Goog-SignedHeaders is {got:?}, not {want:?}"));
        }
        let Some(sig) = signature_of(url) else { return Err(format!("no signature: {url}")) };
        // collisions: the same key, different meaning
        let key = half(&gcs::sha256(format!("{:?} {sig}", u.key.identity()).as_bytes()));
        let m = half(&meaning(u));
        let mut g = seen[(key % 64) as usize].lock().unwrap();
        let (first, _) = *g.entry(key).or_insert((m, hash64(u)));
        if first != m {
            return Err(format!("this option set has the same signature as a different one: {url}"));
        }
        drop(g);
        w.class("distinct signature");
        Ok(())
    };
    all(cx, judge);
    // close variants: every pair of adjacent option values in a small product
    let b = ["b", "b/c", "c", "", "b/", "B"];
    let o = ["o", "c/o", "b/o", "/o", "", "O", "o?x=1", "o%3Fx=1", "o "];
    let q: [&[(&str, &str)]; 10] = [
        &[],
        &[("x", "1")],
        &[("x", "")],
        &[("x1", "")],
        &[("x", "1"), ("x", "1")],
        &[("x", "1&y=2")],
        &[("x", "1"), ("y", "2")],
        &[("x", "2"), ("y", "1")],
        &[("x=1", "")],
        &[("X", "1")],
    ];
    let h: [&[(&str, &str)]; 12] = [
        &[],
        &[("a", "1")],
        &[("a", "")],
        &[("b", "1")],
        &[("a", "1"), ("a", "2")],
        &[("a", "2"), ("a", "1")],
        &[("a", "1"), ("b", "2")],
        &[("a", "1\tb:2")],
        &[("a", "1b:2")],
        &[("ab", "1")],
        &[("host", "example.com")],
        &[("x-goog-content-sha256", "00")],
    ];
    let regions = [None, Some("us"), Some(""), Some("us/")];
    let times = [NOW, NOW + 1_000_000_000, NOW + 86_400_000_000_000];
    let ttl = [0i128, 1, 3600, 604800];
    let n = (b.len() * o.len() * q.len() * h.len() * regions.len() * times.len() * ttl.len()) as u64 * 2;
    cx.sweep("neighbours", "product of near-identical buckets, objects, queries, headers, regions, dates, lifetimes and methods", n, |i, w| {
        init();
        let mut x = Ix(i);
        let mut u = UrlCase::base();
        u.method = x.pick(&["GET", "PUT"]).to_string();
        u.bucket = x.pick(&b).to_string();
        u.object = x.pick(&o).to_string();
        u.query = x.pick(&q).iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        u.headers = x.pick(&h).iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        u.region = x.pick(&regions).map(|s| s.to_string());
        let at = *x.pick(&times);
        u.at = Some(at);
        u.expires = at + *x.pick(&ttl) * 1_000_000_000;
        let out = exec(&u, w);
        judge(&u, &out, w)
    });
    drop(seen);
    // single alterations
    let bases = tamper_bases();
    cx.sweep("tampering", "every single alteration (see tampered()) of each base request is rejected", bases.len() as u64, |i, w| {
        init();
        let u = &bases[i as usize];
        let Out::Ok(url) = exec(u, w) else { return Ok(()) };
        let good = u.request(&url);
        let v = u.key.verifier();
        if gcs::verify(&good, &v).is_err() {
            w.class("not accepted untampered (see C01)");
            return Ok(());
        }
        let mut n = 0;
        for (what, r) in tampered(&good) {
            if r == good {
                continue;
            }
            n += 1;
            if gcs::verify(&r, &v).is_ok() {
                return Err(format!("still accepted after {what}: {r:?}"));
            }
        }
        w.traces += n;
        w.steps += n;
        w.class("all alterations rejected");
        Ok(())
    });
}

fn tamper_bases() -> Vec<UrlCase> {
    let mut v = vec![];
    for d in urlspace::domains(false) {
        let pick: Vec<u64> = match d.name {
            "product" => (0..d.n).step_by(997).collect(),
            "rsa-product" => (0..d.n).step_by(499).collect(),
            "header-lists" => (0..d.n).step_by(2203).collect(),
            "query-lists" => (0..d.n).step_by(5003).collect(),
            "host-header" => vec![0, 21, 42],
            _ => vec![],
        };
        v.extend(pick.into_iter().map(|i| (d.gen)(i)));
    }
    v.retain(|u| !odd_payload_hash(u) && !dots(&u.object));
    v
}

/// All single alterations of an accepted request.
fn tampered(r: &gcs::Request) -> Vec<(String, gcs::Request)> {
    let mut out: Vec<(String, gcs::Request)> = vec![];
    let mut push = |what: String, f: &dyn Fn(&mut gcs::Request)| {
        let mut t = r.clone();
        f(&mut t);
        out.push((what, t));
    };
    for m in METHODS.iter().chain(&["get", "PATCH", ""]) {
        push(format!("method {m}"), &|t| t.method = m.to_string());
    }
    let (head, query) = r.url.split_once('?').unwrap();
    let path = &head["https://storage.googleapis.com".len()..];
    // path: at every position drop, replace or insert a character
    for i in 1..path.len() {
        if !path.is_char_boundary(i) {
            continue;
        }
        let edits = [
            format!("{}{}", &path[..i], &path[i + 1..]),
            format!("{}x{}", &path[..i], &path[i..]),
            format!("{}/{}", &path[..i], &path[i..]),
            format!("{}{}{}", &path[..i], if &path[i..i + 1] == "z" { "y" } else { "z" }, &path[i + 1..]),
        ];
        for e in edits {
            if e != path {
                push(format!("path {e}"), &|t| t.url = format!("https://storage.googleapis.com{e}?{query}"));
            }
        }
    }
    let pairs = gcs::query_pairs(query).unwrap();
    let build = |p: &gcs::Pairs| {
        let q = p.iter().map(|(k, v)| format!("{}={}", gcs::encoded(k), gcs::encoded(v))).collect::<Vec<_>>().join("&");
        format!("{head}?{q}")
    };
    let mut qpush = |what: String, p: gcs::Pairs| push(what, &|t| t.url = build(&p));
    for i in 0..pairs.len() {
        let (k, v) = (&pairs[i].0, &pairs[i].1);
        let n = String::from_utf8_lossy(k).into_owned();
        let mut p = pairs.clone();
        p.remove(i);
        qpush(format!("removing {n}"), p);
        let mut p = pairs.clone();
        p.push(pairs[i].clone());
        qpush(format!("repeating {n}"), p);
        let mut p = pairs.clone();
        p[i].0.push(b'x');
        qpush(format!("renaming {n}"), p);
        let mut p = pairs.clone();
        p[i].0 = k.to_ascii_lowercase();
        if p[i].0 != *k {
            qpush(format!("lower-casing {n}"), p);
        }
        for j in 0..v.len() {
            let mut p = pairs.clone();
            p[i].1[j] = if v[j] == b'1' { b'2' } else { b'1' };
            qpush(format!("changing {n} at {j}"), p);
            let mut p = pairs.clone();
            p[i].1.remove(j);
            qpush(format!("dropping {n} at {j}"), p);
        }
        for c in [b'0', b' ', b'/', b';'] {
            let mut p = pairs.clone();
            p[i].1.push(c);
            qpush(format!("appending {:?} to {n}", c as char), p);
            let mut p = pairs.clone();
            p[i].1.insert(0, c);
            qpush(format!("prepending {:?} to {n}", c as char), p);
        }
        for j in 0..i {
            let mut p = pairs.clone();
            let t = p[i].1.clone();
            p[i].1 = p[j].1.clone();
            p[j].1 = t;
            if p[i].1 != p[j].1 && p[i].0 != p[j].0 {
                qpush(format!("swapping the values of parameters {i} and {j}"), p);
            }
        }
    }
    for (k, v) in [("a", "b"), ("", ""), ("generation", "1"), ("X-Goog-Foo", "1"), ("~~", "")] {
        let mut p = pairs.clone();
        p.push((k.into(), v.into()));
        qpush(format!("adding {k}={v}"), p);
    }
    for i in 0..r.headers.len() {
        let (k, v) = &r.headers[i];
        push(format!("removing header {k}"), &|t| {
            t.headers.remove(i);
        });
        push(format!("another value of header {k}"), &|t| t.headers.push((k.clone(), "zz".into())));
        push(format!("header {k} renamed"), &|t| t.headers[i].0.push('x'));
        for e in [format!("{v}x"), format!("x{v}"), format!("{v} x"), v.to_ascii_uppercase(), v.to_ascii_lowercase(), String::new(), v.replace(' ', ""), v.replace(',', ";")] {
            if gcs::fold(&e) != gcs::fold(v) {
                push(format!("header {k}: {e:?}"), &|t| t.headers[i].1 = e.clone());
            }
        }
        for j in 0..i {
            if r.headers[j].0.eq_ignore_ascii_case(k) && gcs::fold(&r.headers[j].1) != gcs::fold(v) {
                // values with commas or empty values may join to the same text
                let joined = |hs: &Vec<(String, String)>| {
                    hs.iter().filter(|(n, _)| n.eq_ignore_ascii_case(k)).map(|(_, v)| gcs::fold(v)).collect::<Vec<_>>().join(",")
                };
                let mut t = r.headers.clone();
                t.swap(i, j);
                if joined(&t) != joined(&r.headers) {
                    push(format!("reordering the values of header {k}"), &|x| x.headers = t.clone());
                }
            }
        }
    }
    for h in ["x-goog-meta-evil", "x-goog-acl", "X-Goog-Encryption-Key"] {
        if !r.headers.iter().any(|(k, _)| k.eq_ignore_ascii_case(h)) {
            push(format!("an unsigned {h} header"), &|t| t.headers.push((h.into(), "v".into())));
        }
    }
    out
}

// ---------------------------------------------------------------- C18, signed URLs

fn token(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
}

fn value_ok(s: &str) -> bool {
    s.bytes().all(|b| b == b'\t' || (32..127).contains(&b))
}

fn acceptable(u: &UrlCase) -> bool {
    let at = u.at.unwrap_or(NOW);
    let d = (u.expires - at).div_euclid(1_000_000_000);
    METHODS.contains(&u.method.as_str())
        && u.headers.iter().all(|(k, v)| token(k) && value_ok(v))
        && !u.query.iter().any(|(k, _)| gcs::is_signing_parameter(k.as_bytes()))
        && (0..(crate::cal::MAX as i128 + 1) * 1_000_000_000).contains(&at)
        && (0..=604800).contains(&d)
        && !dots(&u.bucket)
        && !dots(&u.object)
        && match &u.key {
            Key::Rsa(..) => !u.sign_blob,
            Key::Text(_, t) => !u.sign_blob && crate::keys::KEYS.iter().any(|k| k.pem == t),
            Key::Hmac(..) => false,
            _ => u.sign_blob,
        }
}

fn accepted(u: &UrlCase, out: &Out<String>) -> Result<(), String> {
    match (acceptable(u), out) {
        (true, Out::Ok(_)) | (false, Out::Err(_)) => Ok(()),
        (true, o) => Err(format!("a valid request was refused: {o:?}")),
        (false, o) => Err(format!("an invalid request was not refused with an error: {o:?}")),
    }
}

pub fn c18(cx: &mut Cx) {
    cx.assume("key material is judged by construction: the valid keys are the generated ones, the invalid ones are broken on purpose");
    all(cx, |u, out, _| accepted(u, out));
    let m: Vec<&str> = vec!["D", "E", "G", "T", "U", "P", "O", "S", "H", "A", "L", "g", "e", "t", " ", "\t"];
    let k = m.len() as u64;
    let len = if cx.thorough { 5 } else { 4 };
    cx.sweep("methods", &format!("method: every string of length <= {len} over {k} symbols"), seq_count(k, len), |i, w| {
        init();
        let mut u = UrlCase::base();
        u.method = seq(k, i).into_iter().map(|j| m[j]).collect();
        let out = exec(&u, w);
        accepted(&u, &out)
    });
    let mut others: Vec<String> = ["PATCH", "OPTIONS", "CONNECT", "TRACE", "RESUMABLE", "DELETE ", " GET", "GET\n", "GET\0", "ＧＥＴ", "PUT/", "POSTS", "delete", "Head", "GET\r\nX: y"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for m in METHODS {
        // every casing of the five
        for bits in 0..1u32 << m.len() {
            others.push(m.chars().enumerate().map(|(i, c)| if bits >> i & 1 == 1 { c.to_ascii_lowercase() } else { c }).collect());
        }
        for c in 0..=255u8 {
            others.push(format!("{m}{}", c as char));
            others.push(format!("{}{m}", c as char));
        }
    }
    cx.sweep("method-variants", "every casing of the five methods, each with every Latin-1 character before/after, and other methods", others.len() as u64, |i, w| {
        init();
        let mut u = UrlCase::base();
        u.method = others[i as usize].clone();
        let out = exec(&u, w);
        accepted(&u, &out)
    });
    cx.sweep("header-scalars", "every Unicode scalar value in a header name and in a header value", SCALARS * 2, |i, w| {
        init();
        let mut u = UrlCase::base();
        let s = format!("a{}b", scalar(i / 2));
        u.headers = vec![if i % 2 == 0 { (s, "v".into()) } else { ("n".into(), s) }];
        let out = exec(&u, w);
        accepted(&u, &out)
    });
    cx.sweep("header-positions", "one bad header (control characters, non-ASCII, empty name) at every position among 6 good ones", 6 * 40 * 2, |i, w| {
        init();
        let mut x = Ix(i);
        let pos = x.n(6) as usize;
        let bad = x.n(40) as u8;
        let bad = if bad < 33 { bad as char } else { *['\x7f', '\u{80}', 'é', '(', ',', ':', '"'].get(bad as usize - 33).unwrap() };
        let mut u = UrlCase::base();
        u.headers = (0..6).map(|j| (format!("h{j}"), format!("v{j}"))).collect();
        let h = &mut u.headers[pos];
        if x.flag() {
            h.0.push(bad);
        } else {
            h.1.insert(1, bad);
        }
        let out = exec(&u, w);
        accepted(&u, &out)
    });
    let rsa_methods: Vec<String> = METHODS.iter().map(|m| m.to_string()).chain(["get".to_string(), String::new(), "PATCH".into()]).collect();
    let mats = crate::props::keys::materials();
    cx.sweep("keys", "key materials (valid PKCS#8, PKCS#1, EC, 1024-bit, truncated, empty, ...) x methods x sign_blob", (mats.len() * rsa_methods.len() * 2) as u64, |i, w| {
        init();
        let mut x = Ix(i);
        let mut u = UrlCase::base();
        let (_, text, _) = x.pick(&mats);
        u.key = Key::Text("signer@p".into(), text.clone());
        u.method = x.pick(&rsa_methods).clone();
        u.sign_blob = x.flag();
        let out = exec(&u, w);
        accepted(&u, &out)
    });
    // one thing wrong at a time, and two
    let faults: [fn(&mut UrlCase); 12] = [
        |_| {},
        |u| u.method = "get".into(),
        |u| u.headers = vec![("a b".into(), "v".into())],
        |u| u.headers = vec![("a".into(), "v\r\nb: c".into())],
        |u| u.headers = vec![("".into(), "v".into())],
        |u| u.expires = NOW - 1,
        |u| u.expires = NOW + 604_801_000_000_000,
        |u| u.at = Some(-1),
        |u| u.object = "..".into(),
        |u| u.bucket = ".".into(),
        |u| u.sign_blob = !u.sign_blob,
        |u| u.key = Key::Text("x".into(), "not a key".into()),
    ];
    cx.sweep("faults", "no fault, every single fault and every pair of faults x key kinds", 12 * 12 * 3, |i, w| {
        init();
        let mut x = Ix(i);
        let mut u = UrlCase::base().key(x.pick(&[Key::rsa(), Key::Blob, Key::Hmac("a".into(), "b".into())]).clone());
        x.pick(&faults)(&mut u);
        x.pick(&faults)(&mut u);
        let out = exec(&u, w);
        accepted(&u, &out)
    });
    super::forms::c18(cx);
}
