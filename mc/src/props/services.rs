//! Single service answers, judged by a reference of their own: C16 (a failed answer fails its operation and
//! leaves nothing behind), C15 (any account name), C17 (redirections).
use crate::exec::{self, blob_json, guarded, init, token_json, Kind, Out, Reply, BLOB_EMAIL, NOW, WORLD};
use crate::fw::{Cx, Ix, W};
use crate::json::{self, J};
use crate::keys::{Material, Verifier};
use crate::{clock, gcs};
use cloud_storage_signature::{build_signed_url, HtmlFormData, PolicyDocumentSigningOptions, SigningKey};

/// An URL or a form made with `key`, signBlob signing: its credential's account, if it succeeds and verifies.
fn operation(key: &SigningKey, url: bool, object: &str) -> Out<Result<String, String>> {
    operation_in(key, url, object, None)
}

/// The same with a region.
fn operation_in(key: &SigningKey, url: bool, object: &str, region: Option<&str>) -> Out<Result<String, String>> {
    let account = |c: &str| c.rsplitn(5, '/').nth(4).map(str::to_string).ok_or(format!("malformed credential {c:?}"));
    if url {
        let case = exec::UrlCase { object: object.into(), region: region.map(str::to_string), ..exec::UrlCase::base().key(exec::Key::Hmac(String::new(), String::new())) };
        let mut o = case.options();
        o.signing_key = key.clone();
        o.use_sign_blob = true;
        exec::run(|| {
            Box::pin(async move {
                let u = build_signed_url(o).await.map_err(|e| super::keys::everything(&e))?;
                Ok::<_, String>((|| {
                    let sp = gcs::split(&u)?;
                    let pairs = gcs::query_pairs(sp.query)?;
                    let c = pairs.iter().find(|(k, _)| k == b"X-Goog-Credential").ok_or("no credential")?;
                    let a = account(&String::from_utf8_lossy(&c.1))?;
                    gcs::verify(&case.request(&u), &Verifier { identity: a.clone(), material: Material::Blob })?;
                    Ok(a)
                })())
            })
        })
    } else {
        let b = HtmlFormData::builder().bucket("b").key(object).policy_document_signing_options(PolicyDocumentSigningOptions {
            accessible_at: None,
            expiration: clock::time(NOW + 3600 * clock::SEC),
            region: region.map(str::to_string),
            signing_key: key.clone(),
            use_sign_blob: true,
        });
        exec::run(|| {
            Box::pin(async move {
                let f = b.build().await.map_err(|e| super::keys::everything(&e))?.into_vec();
                Ok::<_, String>((|| {
                    let get = |n: &str| crate::form::get(&f, n).ok_or(format!("no {n}"));
                    let a = account(get("x-goog-credential")?)?;
                    let sig = gcs::unhex_lower(get("x-goog-signature")?).ok_or("the signature is not hex")?;
                    match (Verifier { identity: a.clone(), material: Material::Blob }).verify(get("policy")?.as_bytes(), &sig) {
                        true => Ok(a),
                        false => Err(format!("the form's signature is not the one of {a:?} over the policy: {f:?}")),
                    }
                })())
            })
        })
    }
}

/// Whether an answer is what the service promises; None where that is a matter of opinion.
fn good(kind: Kind, reply: &Reply) -> Option<bool> {
    let (status, body) = match reply {
        Reply::Http(s, _, b) => (s, b),
        Reply::Pieces(_, b) => (&200, b),
        _ => return Some(false),
    };
    if !(200..300).contains(status) {
        return Some(false);
    }
    let Ok(text) = std::str::from_utf8(body) else { return None };
    if kind == Kind::Email {
        return (text == BLOB_EMAIL).then_some(true);
    }
    // how deep a document may nest is up to the reader
    if text.bytes().filter(|b| matches!(b, b'[' | b'{')).count() > 100 {
        return None;
    }
    let Some(j) = json::parse(text) else { return Some(false) };
    let J::Obj(o) = j else { return Some(false) };
    let mut names: Vec<&String> = o.iter().map(|(k, _)| k).collect();
    names.sort();
    if names.windows(2).any(|w| w[0] == w[1]) {
        return None;
    }
    let get = |n: &str| o.iter().find(|(k, _)| k == n).map(|(_, v)| v);
    let all = |v: &[Option<bool>]| {
        if v.contains(&Some(false)) {
            Some(false)
        } else if v.contains(&None) {
            None
        } else {
            Some(true)
        }
    };
    match kind {
        Kind::Token => {
            let token = match get("access_token") {
                // (other characters cannot be in an access token, nor in a header)
                Some(J::Str(s)) => (!s.is_empty() && s.bytes().all(|b| b.is_ascii_graphic())).then_some(true),
                _ => Some(false),
            };
            let life = match get("expires_in") {
                Some(J::Num(n)) if n.bytes().all(|b| b.is_ascii_digit()) => match n.parse::<u64>() {
                    Ok(n) if n < 1 << 32 => Some(true),
                    _ => None,
                },
                Some(J::Num(n)) if n.starts_with('-') && n.bytes().any(|b| (b'1'..=b'9').contains(&b)) => Some(false),
                Some(J::Num(_)) => None,
                _ => Some(false),
            };
            let kind = match get("token_type") {
                Some(J::Str(s)) if s == "Bearer" => Some(true),
                Some(J::Str(s)) if s.eq_ignore_ascii_case("Bearer") => None,
                _ => Some(false),
            };
            all(&[token, life, kind])
        }
        _ => {
            let id = match get("keyId") {
                Some(J::Str(_)) => Some(true),
                _ => None,
            };
            let blob = match get("signedBlob") {
                Some(J::Str(s)) if s.is_empty() || s.contains(['\n', '\r', ' ', '\t']) => None,
                Some(J::Str(s)) => Some(base64::Engine::decode(&base64::engine::general_purpose::STANDARD, s).is_ok()),
                _ => Some(false),
            };
            all(&[id, blob])
        }
    }
}

const KINDS: [Kind; 3] = [Kind::Email, Kind::Token, Kind::SignBlob];

/// One answer, then an operation whose requests are all answered well: what must follow.
fn judge(which: usize, url: bool, reply: &Reply, w: &mut W) -> Result<(), String> {
    init();
    let kind = KINDS[which];
    let verdict = good(kind, reply);
    w.case(|| format!("{} whose {kind:?} request is answered {reply:?}", if url { "URL" } else { "form" }));
    let key = guarded(SigningKey::bound_token).map_err(|p| format!("panic: {p}"))?;
    WORLD.with(|w| w.borrow_mut().over[which] = Some(reply.clone()));
    let first = operation(&key, url, "first");
    let log = exec::traffic();
    w.traces += 1;
    w.steps += 1 + log.len() as u64;
    w.state(&(format!("{first:?}"), log.len()));
    w.class(match verdict {
        Some(true) => "good answer",
        Some(false) => "failed answer",
        None => "not judged",
    });
    if let Out::Panic(p) = &first {
        return Err(format!("panicked: {p}"));
    }
    if let Out::Hang = &first {
        return Err("never completes".into());
    }
    if let Some(r) = log.iter().find(|r| exec::kind(r) == Kind::Other) {
        return Err(format!("an answer leads to a request to {} {}", r.method, r.uri));
    }
    match (&first, verdict) {
        (Out::Ok(r), Some(false)) => return Err(format!("a result ({r:?}) although the {kind:?} request failed")),
        // (what signBlob returns here need not verify)
        (Out::Ok(Err(m)), Some(true)) if kind != Kind::SignBlob => return Err(m.clone()),
        (Out::Err(e), Some(true)) => return Err(format!("an error although every request was answered well: {e}")),
        (_, None) => return Ok(()),
        _ => (),
    }
    // afterwards all is well, and the account and the token are other ones
    WORLD.with(|w| {
        let mut w = w.borrow_mut();
        w.over[which] = None;
        w.email = "second@example.com".into();
        w.token = "ya29.second".into();
        w.log.clear();
    });
    let failed_fetch = verdict == Some(false) && kind != Kind::SignBlob;
    let second = operation(&key, !url, "second");
    let log = exec::traffic();
    w.steps += 1 + log.len() as u64;
    let account = match second {
        Out::Ok(Ok(a)) => a,
        o => return Err(format!("the next operation, all services answering, gives {o:?}")),
    };
    let kinds: Vec<Kind> = log.iter().map(exec::kind).collect();
    let tokens: Vec<&[u8]> = log.iter().flat_map(|r| r.headers.iter().filter(|(k, _)| k == "authorization").map(|(_, v)| v.as_slice())).collect();
    if failed_fetch {
        if account != "second@example.com" || tokens.iter().any(|t| *t != b"Bearer ya29.second") {
            return Err(format!("after a failed fetch an operation is signed as {account:?} with {:?}", tokens.iter().map(|t| String::from_utf8_lossy(t)).collect::<Vec<_>>()));
        }
        if KINDS.iter().any(|k| !kinds.contains(k)) {
            return Err(format!("after a failed fetch the next operation makes the requests {kinds:?} only"));
        }
    } else if verdict == Some(false) && (account != BLOB_EMAIL || kinds != [Kind::SignBlob]) {
        return Err(format!("after a signBlob request that failed the next operation is signed as {account:?}, with the requests {kinds:?}"));
    }
    Ok(())
}

fn good_body(which: usize) -> String {
    match KINDS[which] {
        Kind::Email => BLOB_EMAIL.into(),
        Kind::Token => token_json("ya29.first", "3600"),
        _ => blob_json(BLOB_EMAIL, b"anything"),
    }
}

fn ok(b: Vec<u8>) -> Reply {
    Reply::Http(200, vec![], b)
}

pub fn c16(cx: &mut Cx) {
    let t = cx.thorough;
    let replies = super::robust::replies();
    cx.sweep("answers", &format!("{} answers to one of the three requests, URL and form; then one more operation", replies.len()), replies.len() as u64 * 6, |i, w| {
        let mut x = Ix(i);
        let (which, url) = (x.n(3) as usize, x.flag());
        judge(which, url, &x.pick(&replies).1, w)
    });
    cx.sweep("statuses", "statuses 200-999 with the body of a good answer, with and without a Location", 800 * 3 * 2 * 3, |i, w| {
        let mut x = Ix(i);
        let (which, url) = (x.n(3) as usize, x.flag());
        let location = x.n(3);
        let status = 200 + x.n(800) as u16;
        let h = match location {
            0 => vec![],
            1 => vec![("location", b"http://elsewhere.example/computeMetadata/v1/instance/service-accounts/default/email".to_vec())],
            _ => vec![("location", b"?again".to_vec())],
        };
        judge(which, url, &Reply::Http(status, h, good_body(which).into_bytes()), w)
    });
    // documents
    let values = ["\"ya29.x\"", "\"Bearer\"", "\"MAC\"", "\"\"", "\"bearer\"", "\"Bearer \"", "3600", "0", "-1", "-0", "1.5", "1e3", "18446744073709551616", "99999999999999999999999", "\"3600\"", "null", "true", "[]", "{}", "[\"ya29.x\"]", "\"AAAA\"", "\"A\"", "\"AA==\"", "\"AA=\"", "\"AB==\"", "\"-_-_\"", "\"****\"", "\"\\u0041AAA\"", "<absent>"];
    let members = [("access_token", "\"ya29.x\""), ("expires_in", "3600"), ("token_type", "\"Bearer\"")];
    let nv = values.len() as u64;
    let doc = |m: &[(&str, &str)], style: u64| {
        let mut m: Vec<String> = m.iter().filter(|(_, v)| *v != "<absent>").map(|(k, v)| if style == 2 { format!("\n  \"{k}\" :\t{v} ") } else { format!("\"{k}\":{v}") }).collect();
        if style == 1 {
            m.reverse();
            m.push("\"more\":{\"access_token\":[1,null]}".into());
        }
        format!("{{{}}}", m.join(","))
    };
    cx.sweep("token-documents", &format!("{nv} values for two of the three members of the token document, 3 styles"), nv * nv * 3 * 3 * 2, |i, w| {
        let mut x = Ix(i);
        let (url, style, skip) = (x.flag(), x.n(3), x.n(3) as usize);
        let mut m = members;
        for (j, e) in m.iter_mut().enumerate() {
            if j != skip {
                e.1 = *x.pick(&values);
            }
        }
        judge(1, url, &ok(doc(&m, style).into_bytes()), w)
    });
    cx.sweep("blob-documents", &format!("{nv} values for the members of the signBlob document, 3 styles"), nv * nv * 3 * 2, |i, w| {
        let mut x = Ix(i);
        let (url, style) = (x.flag(), x.n(3));
        let m = [("keyId", *x.pick(&values)), ("signedBlob", *x.pick(&values))];
        judge(2, url, &ok(doc(&m, style).into_bytes()), w)
    });
    let bodies = [good_body(1), good_body(2)];
    let menu: Vec<u8> = if t { (0..128).collect() } else { b"\0\t\n \"',-+./019:=AZ[\\]_az{}\x7f".to_vec() };
    let n = menu.len() as u64;
    for which in [1usize, 2] {
        let b = bodies[which - 1].as_bytes();
        cx.sweep(if which == 1 { "token-bytes" } else { "blob-bytes" }, &format!("a good document with one byte replaced by, or preceded by, one of {n}, with one byte left out, and cut off after each byte"), b.len() as u64 * (2 * n + 2), |i, w| {
            let mut x = Ix(i);
            let p = x.n(b.len() as u64) as usize;
            let mut d = b.to_vec();
            match x.0 {
                0 => d.truncate(p),
                1 => drop(d.remove(p)),
                k if k < 2 + n => d[p] = menu[k as usize - 2],
                k => d.insert(p, menu[(k - 2 - n) as usize]),
            }
            judge(which, i % 2 == 0, &ok(d), w)
        });
    }
    // good answers of any size, in any number of pieces
    let sizes = sizes(1 << if t { 20 } else { 17 });
    let pads = 6;
    cx.sweep("answer-sizes", &format!("good token and signBlob answers made longer in {pads} ways by {} lengths, URL and form", sizes.len()), sizes.len() as u64 * pads * 4, |i, w| {
        let mut x = Ix(i);
        let (url, which, pad) = (x.flag(), 1 + x.n(2) as usize, x.n(pads));
        let n = *x.pick(&sizes);
        let d = good_body(which);
        let d = match pad {
            0 => " ".repeat(n) + &d,
            1 => d + &"\n".repeat(n),
            2 => format!("{{{}{}", " \t\r\n".chars().cycle().take(n).collect::<String>(), &d[1..]),
            3 => format!("{{\"note\":\"{}\",{}", "é".repeat(n / 2) + &"x".repeat(n % 2), &d[1..]),
            4 => format!("{},\"scopes\":[{}]}}", &d[..d.len() - 1], vec!["\"s\""; n / 4 + 1].join(",")),
            _ => format!("{{{}{}", (0..n / 10).map(|j| format!("\"m{j}\":{j},")).collect::<String>(), &d[1..]),
        };
        judge(which, url, &ok(d.into_bytes()), w)
    });
    let long = |which: usize, n: usize| match which {
        1 => token_json(&"ya29.aZ0-_".chars().cycle().take(n.max(1)).collect::<String>(), "3600").into_bytes(),
        _ => format!("{{\"keyId\":\"k\",\"signedBlob\":\"{}\"}}", base64::Engine::encode(&base64::engine::general_purpose::STANDARD, vec![0x5a; n.max(1)])).into_bytes(),
    };
    let small: Vec<usize> = sizes.iter().copied().filter(|n| *n <= 1 << 15).collect();
    cx.sweep("value-sizes", &format!("access tokens and signatures of {} lengths", small.len()), small.len() as u64 * 4, |i, w| {
        let mut x = Ix(i);
        let (url, which) = (x.flag(), 1 + x.n(2) as usize);
        judge(which, url, &ok(long(which, *x.pick(&small))), w)
    });
    let cuts: Vec<Vec<usize>> = (1..=80).map(|n| vec![n]).chain([vec![0, 1], vec![0, 40], vec![1, 1000], vec![3, 0, 0, 5], vec![16, 1], vec![1024], vec![4095], vec![4096], vec![8192], vec![16384]]).collect();
    cx.sweep("answer-pieces", &format!("good answers (plain, long, padded) that arrive in frames of {} kinds of sizes", cuts.len()), cuts.len() as u64 * 3 * 2 * 6, |i, w| {
        let mut x = Ix(i);
        let (url, which, size) = (x.flag(), x.n(3) as usize, x.n(6));
        let d = match (which, size) {
            (0, _) | (_, 0) => good_body(which).into_bytes(),
            (k, 1..=3) => long(k, [100, 2000, 10_000][size as usize - 1]),
            (k, s) => format!("{}{}", good_body(k), " ".repeat([300, 20_000][s as usize - 4])).into_bytes(),
        };
        judge(which, url, &Reply::Pieces(x.pick(&cuts).clone(), d), w)
    });
    // documents that end too early, or go on after their end, however long they are
    cx.sweep("answer-ends", &format!("token and signBlob answers of {} lengths without their last brace, or with something after it", small.len()), small.len() as u64 * 2 * 2 * 4, |i, w| {
        let mut x = Ix(i);
        let (url, which, end) = (x.flag(), 1 + x.n(2) as usize, x.n(4));
        let n = *x.pick(&small);
        let d = good_body(which);
        let d = match end {
            0 => format!("{}{}", &d[..d.len() - 1], " ".repeat(n)),
            1 => format!("{d}{}x", " ".repeat(n)),
            2 => format!("{}{d}", "x".repeat(n + 1)),
            _ => format!("{d}{}{d}", " ".repeat(n)),
        };
        judge(which, url, &ok(d.into_bytes()), w)
    });
}

/// 0..=64 and the numbers around powers of two and some buffer sizes, up to `max`.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=64).collect();
    let mut p = 64;
    while p <= max {
        for q in [p, p + p / 2] {
            v.extend([q - 3, q - 2, q - 1, q, q + 1, q + 2, q + 3]);
        }
        p *= 2;
    }
    v.extend([100, 200, 255, 500, 1000, 1460, 2000, 3000, 5000, 10_000, 20_000, 50_000, 65_000, 100_000]);
    v.retain(|n| *n <= max);
    v.sort();
    v.dedup();
    v
}

/// Whatever the metadata server calls the account: signBlob is asked for exactly the account in the credential.
pub fn c15(cx: &mut Cx) {
    let chars = 0x11_0000u64 - 0x800;
    let at = |i: u64| char::from_u32(if i < 0xd800 { i as u32 } else { i as u32 + 0x800 }).unwrap();
    let judge = |email: String, url: bool, w: &mut W| {
        init();
        WORLD.with(|w| w.borrow_mut().email = email.clone());
        w.case(|| format!("{} of the account {email:?}", if url { "URL" } else { "form" }));
        let key = guarded(SigningKey::bound_token).map_err(|p| format!("panic: {p}"))?;
        let out = operation(&key, url, "o");
        w.traces += 1;
        w.steps += 1 + exec::traffic().len() as u64;
        w.class(out.class());
        w.state(&format!("{out:?}"));
        match out {
            Out::Ok(Err(m)) => Err(m),
            Out::Ok(Ok(a)) if a != email && !email.contains('/') => Err(format!("signed as {a:?}")),
            _ => Ok(()),
        }
    };
    cx.sweep("account-characters", "every Unicode character in the account's name (URL and form by turns)", chars, |i, w| judge(format!("a{}b@p.example", at(i)), i % 2 == 0, w));
    let words = ["", "a", "/", "..", ".", "?", "#", "%", "%2F", "%zz", "@", ":", ":signBlob", "\\", "\n", "\r\n", "\t", " ", "é", "<html>", "-", "a@b", "//"];
    let n = words.len() as u64;
    cx.sweep("account-words", &format!("accounts of three of {n} words"), n.pow(3) * 2, |i, w| {
        let mut x = Ix(i);
        let url = x.flag();
        let e = format!("{}{}{}", x.pick(&words), x.pick(&words), x.pick(&words));
        judge(e, url, w)
    });
    // payloads of every length: a form's is its policy, an URL's ends in a hash but begins with its scope
    let t = cx.thorough;
    let max = if t { 9000 } else { 3000 };
    let mut lens: Vec<usize> = (0..=max).collect();
    lens.extend(sizes(1 << if t { 20 } else { 18 }).into_iter().filter(|n| *n > max));
    cx.sweep("payload-sizes", &format!("forms whose object, and URLs and forms whose region, has {} lengths, twice with the same key", lens.len()), lens.len() as u64 * 4, |i, w| {
        init();
        let mut x = Ix(i);
        let what = x.n(4);
        let n = *x.pick(&lens);
        let text: String = "region-".chars().cycle().take(n).collect();
        w.case(|| format!("{} of {n} bytes", ["object of a form", "object of an URL", "region of a form", "region of an URL"][what as usize]));
        let key = guarded(SigningKey::bound_token).map_err(|p| format!("panic: {p}"))?;
        for round in 0..2 {
            let out = if what < 2 { operation(&key, what == 1, &text) } else { operation_in(&key, what == 3, "o", Some(&text)) };
            w.traces += 1;
            w.steps += 1 + exec::traffic().len() as u64;
            w.class(out.class());
            match out {
                Out::Ok(Err(m)) => return Err(format!("round {round}: {m}")),
                Out::Ok(Ok(a)) if a != BLOB_EMAIL => return Err(format!("round {round}: signed as {a:?}")),
                Out::Ok(Ok(_)) => (),
                // (whether such a region or object is accepted is not for this property)
                _ if n > 1024 && exec::traffic().iter().all(|r| exec::kind(r) != Kind::SignBlob) => (),
                o => return Err(format!("round {round}: {o:?}")),
            }
            w.state(&(what, n, exec::traffic().last().map(|r| r.body.len())));
        }
        Ok(())
    });
}

/// What one key was answered is of no consequence to another.
pub fn c17(cx: &mut Cx) {
    let replies = super::robust::replies();
    let hosts: [[Option<&str>; 2]; 3] = [[Some("one.example"), Some("two.example")], [None, None], [Some("one.example"), None]];
    let what = format!("two keys (of two, one or the default metadata server): the second one's email, token or signBlob request gets each of {} answers, the first one's token being fresh, stale or not there; then both once more", replies.len());
    cx.sweep("answers-to-two", &what, replies.len() as u64 * 3 * 3 * 3 * 2, |i, w| {
        init();
        let mut x = Ix(i);
        let url = x.flag();
        let (n, warm) = (x.n(3) as usize, x.n(3));
        let hs = *x.pick(&hosts);
        let (name, reply) = x.pick(&replies).clone();
        w.case(|| format!("metadata servers {hs:?}; the first key's token is {}; request {n} of the second one is answered {name}", ["not there", "fresh", "stale"][warm as usize]));
        let keys: Vec<SigningKey> = hs.iter().map(|h| super::preempt::bound_key(*h)).collect();
        let mut turn = |k: usize, over: Option<Reply>, w: &mut W| -> Result<(), String> {
            let broken = over.is_some();
            let (email, token) = (format!("{}@p.example", ["a", "b"][k]), format!("ya29.{}", ["a", "b"][k]));
            WORLD.with(|x| {
                let mut x = x.borrow_mut();
                *x = exec::World { email: email.clone(), token: token.clone(), ..exec::World::default() };
                x.over[n] = over;
            });
            let out = operation(&keys[k], url, "o");
            w.traces += 1;
            w.class(out.class());
            let log = exec::traffic();
            w.steps += 1 + log.len() as u64;
            w.state(&(i, out.class(), log.len()));
            for r in &log {
                if r.headers.iter().any(|(h, v)| h == "authorization" && *v != format!("Bearer {token}").as_bytes()) && !(broken && n == 1) {
                    return Err(format!("an operation of key {k}, whose token is {token:?}, sends {:?}", r.headers));
                }
                let r = exec::kind(r);
                if r == Kind::Other {
                    return Err(format!("key {k} makes a request to {:?}", log.iter().map(|r| &r.uri).collect::<Vec<_>>()));
                }
            }
            for r in log.iter().filter(|r| matches!(exec::kind(r), Kind::Email | Kind::Token)) {
                let host = hs[k].unwrap_or("metadata.google.internal");
                if !r.uri.starts_with(&format!("http://{host}/")) {
                    return Err(format!("key {k}, of {host}, asks {}", r.uri));
                }
            }
            match out {
                Out::Ok(Err(m)) if !broken => Err(format!("key {k}: {m}")),
                Out::Ok(Ok(a)) if a != email && !(broken && n == 0) => Err(format!("key {k} signs as {a:?}, its account is {email:?}")),
                _ => Ok(()),
            }
        };
        if warm > 0 {
            turn(0, None, w)?;
        }
        if warm == 2 {
            clock::set(NOW + 3580 * clock::SEC);
        }
        let failed = matches!(reply, Reply::TransportError | Reply::Http(300.., ..));
        turn(1, Some(reply), w)?;
        turn(0, None, w)?;
        // (an account or token that the server gave once, whatever it looks like)
        turn(1, None, w).or_else(|m| if failed || n == 2 { Err(m) } else { Ok(()) })
    });
}
