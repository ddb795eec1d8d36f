//! Reference server for HTML form uploads with policy documents, and the spaces of forms.
//! <https://cloud.google.com/storage/docs/authentication/signatures#policy-document>
use crate::exec::{Form, Key, Set, Sign};
use crate::fw::{scalar, seq, seq_count, Ix, SCALARS};
use crate::urlspace::{word, ALPHABET};
use serde_json::Value;

#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    Eq(String, String),
    StartsWith(String, String),
    Length(u64, u64),
}

#[derive(Clone, Debug)]
pub struct Policy {
    pub expiration: String,
    pub conditions: Vec<Cond>,
}

pub fn get<'a>(form: &'a Form, name: &str) -> Option<&'a str> {
    form.iter().find(|(n, _)| n == name).map(|(_, v)| v.as_str())
}

/// Decodes and parses the policy entry, strictly.
pub fn policy(form: &Form) -> Result<Policy, String> {
    let text = get(form, "policy").ok_or("no policy entry")?;
    let json = base64::Engine::decode(&base64::engine::general_purpose::STANDARD, text)
        .map_err(|e| format!("policy is not standard base64: {e}: {text:?}"))?;
    let json = std::str::from_utf8(&json).map_err(|_| "policy is not UTF-8")?;
    let v: Value = serde_json::from_str(json).map_err(|e| format!("policy is not JSON: {e}: {json:?}"))?;
    let o = v.as_object().ok_or("policy is not an object")?;
    for k in o.keys() {
        if k != "expiration" && k != "conditions" {
            return Err(format!("unknown member {k:?} in the policy"));
        }
    }
    let expiration = o.get("expiration").and_then(|e| e.as_str()).ok_or("no expiration string in the policy")?.to_string();
    let mut conditions = vec![];
    for c in o.get("conditions").and_then(|c| c.as_array()).ok_or("no conditions array in the policy")? {
        conditions.push(condition(c).ok_or_else(|| format!("malformed condition {c}"))?);
    }
    Ok(Policy { expiration, conditions })
}

fn condition(c: &Value) -> Option<Cond> {
    if let Some(o) = c.as_object() {
        let (k, v) = o.iter().next()?;
        if o.len() != 1 {
            return None;
        }
        return Some(Cond::Eq(k.clone(), v.as_str()?.to_string()));
    }
    let a = c.as_array()?;
    if a.len() != 3 {
        return None;
    }
    match a[0].as_str()? {
        "eq" => Some(Cond::Eq(a[1].as_str()?.strip_prefix('$')?.to_string(), a[2].as_str()?.to_string())),
        "starts-with" => Some(Cond::StartsWith(a[1].as_str()?.strip_prefix('$')?.to_string(), a[2].as_str()?.to_string())),
        "content-length-range" => Some(Cond::Length(a[1].as_u64()?, a[2].as_u64()?)),
        _ => None,
    }
}

pub fn exempt(name: &str) -> bool {
    matches!(name, "policy" | "x-goog-signature" | "file")
}

/// Does the server accept this form with an upload of `size` bytes?
pub fn evaluate(p: &Policy, form: &Form, size: u64) -> Result<(), String> {
    for c in &p.conditions {
        match c {
            Cond::Eq(f, v) => {
                let mut any = false;
                for (n, w) in form.iter().filter(|(n, _)| n == f) {
                    any = true;
                    if w != v {
                        return Err(format!("{n} is {w:?}, the policy wants {v:?}"));
                    }
                }
                if !any {
                    return Err(format!("{f} is missing"));
                }
            }
            Cond::StartsWith(f, v) => {
                let mut any = false;
                for (n, w) in form.iter().filter(|(n, _)| n == f) {
                    any = true;
                    if !w.starts_with(v.as_str()) {
                        return Err(format!("{n} is {w:?}, the policy wants a value starting with {v:?}"));
                    }
                }
                if !any {
                    return Err(format!("{f} is missing"));
                }
            }
            Cond::Length(a, b) => {
                if !(*a..=*b).contains(&size) {
                    return Err(format!("size {size} is not in {a}..={b}"));
                }
                for (_, w) in form.iter().filter(|(n, _)| n == "Content-Length") {
                    match w.parse::<u64>() {
                        Ok(n) if (*a..=*b).contains(&n) && n.to_string() == *w => {}
                        _ => return Err(format!("Content-Length {w:?} is not in {a}..={b}")),
                    }
                }
            }
        }
    }
    for (n, _) in form {
        if exempt(n) {
            continue;
        }
        let covered = p.conditions.iter().any(|c| match c {
            Cond::Eq(f, _) | Cond::StartsWith(f, _) => f == n,
            Cond::Length(..) => n == "Content-Length",
        });
        if !covered {
            return Err(format!("{n} is not covered by any condition"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- spaces

pub struct FormDomain {
    pub name: &'static str,
    pub what: String,
    pub n: u64,
    pub gen: Box<dyn Fn(u64) -> Vec<Set> + Sync>,
}

pub const STRING_SETTERS: usize = 11;

pub fn string_setter(j: usize, v: String) -> Set {
    match j {
        0 => Set::Acl(v),
        1 => Set::Bucket(v),
        2 => Set::CacheControl(v),
        3 => Set::ContentDisposition(v),
        4 => Set::ContentEncoding(v),
        5 => Set::ContentType(v),
        6 => Set::Expires(v),
        7 => Set::Key(v),
        8 => Set::SuccessActionRedirect(v),
        9 => Set::CustomTime(v),
        _ => Set::Meta("m".into(), v),
    }
}

fn optional(j: usize, tricky: bool) -> Set {
    let t = |a: &str, b: &str| if tricky { b.to_string() } else { a.to_string() };
    match j {
        0 => Set::Acl(t("public-read", "")),
        1 => Set::CacheControl(t("max-age=3600", "\"no cache\", é\\")),
        2 => Set::ContentDisposition(t("attachment", "attachment; filename=\"${filename}\"")),
        3 => Set::ContentEncoding(t("gzip", " gzip ")),
        4 => Set::ContentLength(if tricky { 0 } else { 1024 }),
        5 => Set::ContentType(t("application/octet-stream", "あ/\u{1}\n\t\u{2028}😀")),
        6 => Set::Expires(t("2022-01-04T00:00:00Z", "$key")),
        7 => Set::SuccessActionRedirect(t("https://example.com/success", "https://example.com/?a=<b>&c='d'#e")),
        8 => Set::SuccessActionStatus(if tricky { 0 } else { 201 }),
        _ => Set::CustomTime(t("2022-01-03T00:00:00Z", "[\"eq\",\"$key\",\"x\"]")),
    }
}

pub fn base() -> Vec<Set> {
    vec![Set::Bucket("example-bucket".into()), Set::Key("example-object".into())]
}

pub fn signed(mut v: Vec<Set>) -> Vec<Set> {
    v.push(Set::Sign(Sign::base()));
    v
}

pub const REGIONS: [Option<&str>; 7] =
    [None, Some("auto"), Some("us-central1"), Some("ASIA"), Some(""), Some("a/b"), Some("é \"\\")];

/// Numbers around every power of two and decimal digit boundary.
pub fn numbers() -> Vec<u64> {
    let mut v: Vec<u64> = (0..=1000).collect();
    for b in 0..64u32 {
        let p = 1u64 << b;
        v.extend([p.wrapping_sub(1), p, p.wrapping_add(1)]);
    }
    for d in 0..20u32 {
        let p = 10u64.pow(d);
        v.extend([p.wrapping_sub(1), p, p.wrapping_add(1)]);
    }
    v.extend([u64::MAX, u64::MAX - 1, 5 << 40, (5 << 40) + 1]);
    v.sort_unstable();
    v.dedup();
    v
}

/// Signed and unsigned forms.
pub fn domains(thorough: bool) -> Vec<FormDomain> {
    let mut v: Vec<FormDomain> = vec![];
    let mut add = |name, what: String, n, gen: Box<dyn Fn(u64) -> Vec<Set> + Sync>| v.push(FormDomain { name, what, n, gen });
    add(
        "field-subsets",
        "every subset of the 10 optional fields x metadata count 0..=3 x plain/tricky values x signed or not".into(),
        1024 * 4 * 2 * 2,
        Box::new(|i| {
            let mut x = Ix(i);
            let (sign, tricky, metas, bits) = (x.flag(), x.flag(), x.n(4), x.n(1024));
            let mut s = base();
            for j in 0..10 {
                if bits >> j & 1 == 1 {
                    s.push(optional(j, tricky));
                }
            }
            for m in 0..metas {
                s.push(Set::Meta(["b", "A", "b-a"][m as usize].into(), if tricky { "é\"".into() } else { format!("v{m}") }));
            }
            if sign {
                signed(s)
            } else {
                s
            }
        }),
    );
    // sequences of setter calls: two values per setter
    let calls: Vec<Set> = (0..STRING_SETTERS)
        .flat_map(|j| ["1", "2"].map(|x| string_setter(j, x.into())))
        .chain([1, 2].map(Set::ContentLength))
        .chain([200, 204].map(Set::SuccessActionStatus))
        .chain([Set::Meta("M".into(), "1".into()), Set::Meta("z".into(), "1".into())])
        .chain([Set::Sign(Sign::base()), Set::Sign(Sign { region: Some("r2".into()), expiration: crate::exec::NOW + 77_000_000_000, ..Sign::base() })])
        .collect();
    let nc = calls.len() as u64;
    let depth = if thorough { 4 } else { 3 };
    add(
        "setter-sequences",
        format!("every sequence of <= {depth} builder calls out of {nc}, alone and after bucket+key"),
        seq_count(nc, depth) * 2,
        Box::new(move |i| {
            let mut x = Ix(i);
            let mut s = if x.flag() { base() } else { vec![] };
            s.extend(seq(nc, x.0).into_iter().map(|j| calls[j].clone()));
            s
        }),
    );
    add(
        "setter-orders",
        "every permutation of 7 builder calls (bucket, key, acl, two metas, content length, signing)".into(),
        5040,
        Box::new(|i| {
            let mut x = Ix(i);
            let mut rest = vec![
                Set::Bucket("b".into()),
                Set::Key("k".into()),
                Set::Acl("private".into()),
                Set::Meta("a".into(), "1".into()),
                Set::Meta("b".into(), "2".into()),
                Set::ContentLength(7),
                Set::Sign(Sign::base()),
            ];
            let mut s = vec![];
            while !rest.is_empty() {
                let j = x.n(rest.len() as u64) as usize;
                s.push(rest.remove(j));
            }
            s
        }),
    );
    add(
        "scalars",
        "every Unicode scalar value c in every string field, metadata name and value and the region, signed".into(),
        SCALARS,
        Box::new(|i| {
            let c = scalar(i);
            let mut s: Vec<Set> = (0..STRING_SETTERS).map(|j| string_setter(j, format!("{c}x"))).collect();
            s.push(Set::Meta(format!("{c}"), c.to_string()));
            s.push(Set::Sign(Sign { region: Some(format!("r{c}")), ..Sign::base() }));
            s
        }),
    );
    let k = ALPHABET.len() as u64;
    let len = if thorough { 3 } else { 2 };
    add(
        "words",
        format!("each string field, metadata name and region = every string of length <= {len} over the {k}-symbol alphabet, signed"),
        seq_count(k, len) * (STRING_SETTERS as u64 + 2),
        Box::new(|i| {
            let mut x = Ix(i);
            let j = x.n(STRING_SETTERS as u64 + 2) as usize;
            let w = word(&ALPHABET, x.0);
            let mut s = base();
            if j < STRING_SETTERS {
                s.push(string_setter(j, w));
                signed(s)
            } else if j == STRING_SETTERS {
                s.push(Set::Meta(w, "v".into()));
                signed(s)
            } else {
                s.push(Set::Sign(Sign { region: Some(w), ..Sign::base() }));
                s
            }
        }),
    );
    let np = crate::dict::phrases();
    add(
        "dictionary",
        format!("{np} phrases of words that mean something in each string field, metadata name and region, signed"),
        np * (STRING_SETTERS as u64 + 2),
        Box::new(move |i| {
            let mut x = Ix(i);
            let j = x.n(STRING_SETTERS as u64 + 2) as usize;
            let p = crate::dict::phrase(x.0);
            let mut s = base();
            let mut sign = Sign::base();
            match j {
                j if j < STRING_SETTERS => s.push(string_setter(j, p)),
                j if j == STRING_SETTERS => s.push(Set::Meta(p, "v".into())),
                _ => sign.region = Some(p),
            }
            s.push(Set::Sign(sign));
            s
        }),
    );
    let nw = crate::dict::PLAIN.len() as u64;
    let ns = STRING_SETTERS as u64;
    add(
        "dictionary-pairs",
        format!("{nw} words in two of the fields, signed; {nw} x {nw} words as name and value of a metadata entry"),
        nw * ns * ns + nw * nw,
        Box::new(move |i| {
            let mut x = Ix(i);
            let word = |i: u64| crate::dict::PLAIN[i as usize].to_string();
            let mut s = base();
            if i < nw * ns * ns {
                let (a, b, w) = (x.n(ns), x.n(ns), word(x.0));
                s.push(string_setter(a as usize, w.clone()));
                s.push(if b == ns - 1 { Set::Meta("n".into(), w) } else { string_setter(b as usize, w) });
            } else {
                x.0 -= nw * ns * ns;
                let a = word(x.n(nw));
                s.push(Set::Meta(a, word(x.0)));
            }
            signed(s)
        }),
    );
    let nums = numbers();
    add(
        "content-lengths",
        format!("{} content lengths around every power of 2 and 10", nums.len()),
        nums.len() as u64,
        Box::new(move |i| {
            let mut s = base();
            s.push(Set::ContentLength(nums[i as usize]));
            signed(s)
        }),
    );
    add(
        "statuses",
        "every 16-bit success_action_status".into(),
        65536,
        Box::new(|i| {
            let mut s = base();
            s.push(Set::SuccessActionStatus(i as u16));
            signed(s)
        }),
    );
    let pool: Vec<(&str, &str)> = ["a", "A", "b", "a-b", "", "x-goog-meta-a", "é", "acl"]
        .iter()
        .flat_map(|n| ["1", "2", ""].iter().map(move |v| (*n, *v)))
        .collect();
    let np = pool.len() as u64;
    let depth = if thorough { 4 } else { 3 };
    add(
        "metadata-lists",
        format!("every list of <= {depth} metadata calls out of {np}, signed or not"),
        seq_count(np, depth) * 2,
        Box::new(move |i| {
            let mut x = Ix(i);
            let sign = x.flag();
            let mut s = base();
            s.extend(seq(np, x.0).into_iter().map(|j| Set::Meta(pool[j].0.into(), pool[j].1.into())));
            if sign {
                signed(s)
            } else {
                s
            }
        }),
    );
    add(
        "lengths",
        "value lengths 0..=2200 of key, bucket and a metadata value; 0..=200 metadata entries; region lengths 0..=100".into(),
        2201 * 3 + 201 + 101,
        Box::new(|i| {
            let i = i as usize;
            let text = |l: usize| "a\"é ".chars().cycle().take(l).collect::<String>();
            let mut s = base();
            if i < 6603 {
                let l = i / 3;
                s.push(match i % 3 {
                    0 => Set::Key(text(l)),
                    1 => Set::Bucket(text(l)),
                    _ => Set::Meta("m".into(), text(l)),
                });
            } else if i < 6804 {
                for j in 0..i - 6603 {
                    s.push(Set::Meta(format!("m{}", (j * 7919) % 1009), format!("v{j}")));
                }
            } else {
                s.push(Set::Sign(Sign { region: Some(text(i - 6804)), ..Sign::base() }));
                return s;
            }
            signed(s)
        }),
    );
    let sizes: Vec<usize> = (0..=400).chain(crate::props::services::sizes(1 << if thorough { 17 } else { 15 }).into_iter().filter(|n| *n > 400)).collect();
    add(
        "rsa-lengths",
        format!("a service account: {} value lengths of the key, metadata and both", sizes.len()),
        sizes.len() as u64 * 2,
        Box::new(move |i| {
            let mut x = Ix(i);
            let meta = x.flag();
            let t: String = "a b\"é".chars().cycle().take(*x.pick(&sizes)).collect();
            let mut s = base();
            s.push(if meta { Set::Meta("m".into(), t) } else { Set::Key(t) });
            s.push(Set::Sign(Sign::base().key(Key::rsa())));
            s
        }),
    );
    let ids = ["signer@p.iam.gserviceaccount.com", "", "a/b", "é\"\\@x", "a b+c%2F"];
    let nk = if thorough { 5 } else { 4 };
    add(
        "rsa",
        format!("service accounts: {nk} keys x {} identities x {} regions x 8 field sets", ids.len(), REGIONS.len()),
        nk * ids.len() as u64 * REGIONS.len() as u64 * 8,
        Box::new(move |i| {
            let mut x = Ix(i);
            let k = x.n(nk) as usize;
            let id = x.pick(&ids).to_string();
            let region = x.pick(&REGIONS).map(|s| s.to_string());
            let f = x.0;
            let mut s = base();
            for j in 0..10 {
                if (f * 0b1_0010_1011) >> j & 1 == 1 {
                    s.push(optional(j, f % 2 == 1));
                }
            }
            s.push(Set::Sign(Sign { region, ..Sign::base().key(Key::Rsa(k, id)) }));
            s
        }),
    );
    add(
        "rsa-4096",
        "a 4096-bit key x identities".into(),
        ids.len() as u64,
        Box::new(move |i| {
            let mut s = base();
            s.push(Set::Sign(Sign::base().key(Key::Rsa(4, ids[i as usize].into()))));
            s
        }),
    );
    let m = if thorough { 20000 } else { 3000 };
    add(
        "rsa-many",
        format!("{m} different keys signed with one 2048-bit key (leading zero octets in signatures occur)"),
        m,
        Box::new(|i| {
            vec![
                Set::Bucket("b".into()),
                Set::Key(format!("o{i}")),
                Set::Sign(Sign::base().key(Key::rsa())),
            ]
        }),
    );
    v
}
