//! C05, C06, C07, and the form half of C18.
use crate::cal;
use crate::exec::{built, init, run_form, traffic, Built, Form, Key, Out, Set, Sign, NOW, ORDER};
use crate::form::{self, get, Cond};
use crate::fw::{Cx, Ix, W};
use crate::gcs;

pub const S: i128 = 1_000_000_000;

pub fn exec(s: &[Set], w: &mut W) -> Out<Form> {
    w.case(|| format!("{s:?}"));
    let out = run_form(s);
    w.steps += 1 + s.len() as u64 + traffic().len() as u64;
    w.traces += 1;
    w.class(out.class());
    w.state(&out);
    out
}

pub fn all(cx: &mut Cx, judge: impl Fn(&[Set], &Out<Form>, &mut W) -> Result<(), String> + Sync) {
    for d in form::domains(cx.thorough) {
        cx.sweep(d.name, &d.what, d.n, |i, w| {
            init();
            let s = (d.gen)(i);
            let out = exec(&s, w);
            judge(&s, &out, w)
        });
    }
}

pub const SIGNING: [&str; 5] = ["policy", "x-goog-algorithm", "x-goog-credential", "x-goog-date", "x-goog-signature"];

pub fn c05(cx: &mut Cx) {
    all(cx, |s, out, _| {
        let Out::Ok(f) = out else { return Ok(()) };
        exact(&built(s), f)
    });
}

fn exact(b: &Built, f: &Form) -> Result<(), String> {
    let mut i = 0;
    for n in ORDER {
        let signing = SIGNING.contains(&n);
        let want = if signing { b.sign.is_some() } else { b.single.contains_key(n) };
        if !want {
            continue;
        }
        let Some((name, value)) = f.get(i) else { return Err(format!("{n} is missing from {f:?}")) };
        if name != n {
            return Err(format!("entry {i} is {name:?}, not {n:?}: {f:?}"));
        }
        if !signing && *value != b.single[n] {
            return Err(format!("{n} is {value:?}, not {:?}", b.single[n]));
        }
        i += 1;
    }
    let want: Vec<(String, String)> = b.meta.iter().map(|(n, v)| (format!("x-goog-meta-{n}"), v.clone())).collect();
    if f[i..] != want[..] {
        return Err(format!("after the single-valued fields there is {:?}, not the metadata {want:?}", &f[i..]));
    }
    Ok(())
}

/// The form is what a signed form must be (C06), for accessible time `at`.
pub fn well_formed(sign: &Sign, at: i128, f: &Form) -> Result<(), String> {
    let field = |n: &str| -> Result<&str, String> {
        let mut it = f.iter().filter(|(k, _)| k == n);
        match (it.next(), it.next()) {
            (Some((_, v)), None) => Ok(v.as_str()),
            _ => Err(format!("{n} is not there exactly once")),
        }
    };
    form::policy(f)?;
    let text = field("policy")?;
    let secs = at.div_euclid(S) as i64;
    for (n, want) in [
        ("x-goog-algorithm", "GOOG4-RSA-SHA256".to_string()),
        ("x-goog-date", cal::basic(secs)),
        (
            "x-goog-credential",
            format!("{}/{}/{}/storage/goog4_request", sign.key.identity(), cal::date(secs), sign.region.as_deref().unwrap_or("auto")),
        ),
    ] {
        let got = field(n)?;
        if got != want {
            return Err(format!("{n} is {got:?}, not {want:?}"));
        }
    }
    let sig = field("x-goog-signature")?;
    let sig = gcs::unhex_lower(sig).ok_or_else(|| format!("x-goog-signature is not lower-case hex: {sig:?}"))?;
    if !sign.key.verifier().verify(text.as_bytes(), &sig) {
        return Err("x-goog-signature is not the key's signature of the policy text".into());
    }
    Ok(())
}

pub fn c06(cx: &mut Cx) {
    all(cx, |s, out, w| {
        let Out::Ok(f) = out else { return Ok(()) };
        let b = built(s);
        let Some(sign) = &b.sign else { return Ok(()) };
        w.class("signed form");
        well_formed(sign, sign.at.unwrap_or(NOW), f)
    });
    let times = super::times::instants(cx.thorough);
    cx.sweep("times", &format!("accessible_at at {} calendar boundaries, given or from the clock", times.len()), times.len() as u64 * 2, |i, w| {
        init();
        let mut x = Ix(i);
        let explicit = x.flag();
        let t = times[x.0 as usize];
        if !explicit {
            if t < 0 {
                return Ok(());
            }
            crate::clock::set(t);
        }
        let sign = Sign { at: explicit.then_some(t), expiration: t + 60 * S, ..Sign::base() };
        let mut s = form::base();
        s.push(Set::Sign(sign.clone()));
        match exec(&s, w) {
            Out::Ok(f) => well_formed(&sign, t, &f),
            _ => Ok(()),
        }
    });
    // the clock moves between any two reads of it: every time in the form comes from the same one
    let ts = super::times::turns();
    let steps = super::times::STEPS;
    cx.sweep("clock-steps", &format!("the clock steps by one of {} amounts just before its k-th read (k < 6) while a form without accessible_at is built", steps.len()), (ts.len() * steps.len() * 6 * 2) as u64, |i, w| {
        init();
        let mut x = Ix(i);
        let t = *x.pick(&ts);
        let step = *x.pick(&steps);
        let k = x.n(6) as u32;
        let key = if x.flag() { Key::rsa() } else { Key::Blob };
        let sign = Sign { at: None, expiration: t.max(t + step) + 86_400 * S, ..Sign::base().key(key) };
        let mut s = form::base();
        s.push(Set::Sign(sign.clone()));
        crate::clock::set_step(t, k, step);
        match exec(&s, w) {
            Out::Ok(f) => well_formed(&sign, t, &f).or_else(|e| well_formed(&sign, t + step, &f).map_err(|_| e)),
            _ => Ok(()),
        }
    });
    // service accounts sign the same way
    let times: Vec<i128> = times.into_iter().step_by(if cx.thorough { 11 } else { 97 }).collect();
    cx.sweep("times-rsa", &format!("the same with a service account at every {}th instant", if cx.thorough { 11 } else { 97 }), times.len() as u64, |i, w| {
        init();
        let t = times[i as usize];
        let sign = Sign { at: Some(t), expiration: t + 60 * S, ..Sign::base().key(Key::rsa()) };
        let mut s = form::base();
        s.push(Set::Sign(sign.clone()));
        match exec(&s, w) {
            Out::Ok(f) => well_formed(&sign, t, &f),
            _ => Ok(()),
        }
    });
}

fn pinned(f: &Form) -> Result<(), String> {
    let p = form::policy(f)?;
    let mut want: Vec<(String, String)> =
        f.iter().filter(|(n, _)| !form::exempt(n) && n != "Content-Length").cloned().collect();
    let mut got = vec![];
    let mut lengths = vec![];
    for c in &p.conditions {
        match c {
            Cond::Eq(f, v) => got.push((f.clone(), v.clone())),
            Cond::StartsWith(f, _) => return Err(format!("{f} is only pinned to a prefix")),
            Cond::Length(a, b) => lengths.push((*a, *b)),
        }
    }
    want.sort();
    want.dedup();
    got.sort();
    got.dedup();
    if want != got {
        let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
        return Err(format!("the policy does not pin {missing:?} and demands {extra:?}"));
    }
    let want: Vec<u64> = f.iter().filter(|(n, _)| n == "Content-Length").map(|(_, v)| v.parse().unwrap_or(u64::MAX)).collect();
    lengths.dedup();
    if lengths != want.iter().map(|n| (*n, *n)).collect::<Vec<_>>() {
        return Err(format!("Content-Length {want:?} but content-length-range {lengths:?}"));
    }
    Ok(())
}

fn size_of(f: &Form) -> u64 {
    get(f, "Content-Length").and_then(|v| v.parse().ok()).unwrap_or(12345)
}

fn alterations(f: &Form) -> Vec<(String, Form, u64)> {
    let mut out = vec![];
    let size = size_of(f);
    for (i, (n, v)) in f.iter().enumerate() {
        if form::exempt(n) {
            continue;
        }
        let mut vals = vec![
            format!("{v}x"),
            format!("x{v}"),
            format!("{v} "),
            format!(" {v}"),
            format!("{v}\n"),
            format!("{v}\0"),
            String::new(),
            v.to_uppercase(),
            v.to_lowercase(),
            v.trim().to_string(),
            v.chars().rev().collect(),
            "${filename}".into(),
        ];
        let mut short = v.clone();
        short.pop();
        vals.push(short);
        vals.push(v.chars().skip(1).collect());
        for w in vals {
            if w != *v {
                let mut g = f.clone();
                g[i].1 = w.clone();
                out.push((format!("{n} = {w:?}"), g, size));
            }
        }
        if n != "Content-Length" {
            let mut g = f.clone();
            g.remove(i);
            out.push((format!("removing {n}"), g, size));
        }
        let mut g = f.clone();
        g[i].0.push('x');
        out.push((format!("renaming {n}"), g, size));
        let mut g = f.clone();
        g.push((n.clone(), format!("{v}2")));
        out.push((format!("a second {n}"), g, size));
    }
    for n in ORDER.iter().chain(&["x-goog-meta-evil", "x-goog-meta-", "x-goog-acl", "unknown", "Key", ""]) {
        if get(f, n).is_none() {
            for v in ["", "1", "public-read"] {
                let mut g = f.clone();
                g.push((n.to_string(), v.into()));
                out.push((format!("adding {n} = {v:?}"), g, size));
            }
        }
    }
    if get(f, "Content-Length").is_some() {
        for s in [size.wrapping_sub(1), size.wrapping_add(1), 0, u64::MAX, size / 2, size.wrapping_mul(10)] {
            if s != size {
                out.push((format!("uploading {s} bytes"), f.clone(), s));
            }
        }
    }
    out
}

pub fn c07(cx: &mut Cx) {
    cx.assume("the policy evaluator encodes Google's published rules; forms whose metadata calls repeat a name with different values are only checked for having all of them pinned");
    all(cx, |s, out, w| {
        let Out::Ok(f) = out else { return Ok(()) };
        if built(s).sign.is_none() {
            return Ok(());
        }
        w.class("pinned form");
        pinned(f)
    });
    // every alteration of every form of the smaller spaces
    for d in form::domains(cx.thorough) {
        let every = match d.name {
            "field-subsets" | "setter-orders" => 1,
            "words" => if cx.thorough { 1 } else { 7 },
            "metadata-lists" => if cx.thorough { 13 } else { 11 },
            "lengths" => 17,
            "content-lengths" => 1,
            "statuses" => 97,
            _ => continue,
        };
        let n = d.n.div_ceil(every);
        cx.sweep(&format!("altered-{}", d.name), &format!("every single alteration of every form no. 0, {every}, {}, ... of: {}", 2 * every, d.what), n, |i, w| {
            init();
            let s = (d.gen)(i * every);
            let Out::Ok(f) = exec(&s, w) else { return Ok(()) };
            if built(&s).sign.is_none() {
                return Ok(());
            }
            let p = form::policy(&f)?;
            let mut names: Vec<&String> = f.iter().map(|(n, _)| n).collect();
            names.sort();
            if names.windows(2).any(|w| w[0] == w[1]) {
                w.class("repeated names, not altered");
                return Ok(());
            }
            form::evaluate(&p, &f, size_of(&f)).map_err(|e| format!("the form as built is rejected: {e}"))?;
            for (what, g, size) in alterations(&f) {
                w.steps += 1;
                if form::evaluate(&p, &g, size).is_ok() {
                    return Err(format!("still accepted after {what}"));
                }
            }
            w.class("all alterations rejected");
            Ok(())
        });
    }
}

fn acceptable(b: &Built) -> bool {
    if !b.single.contains_key("key") || b.meta.iter().any(|(n, _)| n.is_empty()) {
        return false;
    }
    let Some(s) = &b.sign else { return true };
    let at = s.at.unwrap_or(NOW);
    let max = (cal::MAX as i128 + 1) * S;
    b.single.contains_key("bucket")
        && s.expiration > at
        && (0..max).contains(&at)
        && (0..max).contains(&s.expiration)
        && match &s.key {
            Key::Rsa(..) => !s.sign_blob,
            Key::Text(_, t) => !s.sign_blob && super::keys::valid(t),
            Key::Hmac(..) => false,
            _ => s.sign_blob,
        }
}

fn accepted(s: &[Set], out: &Out<Form>) -> Result<(), String> {
    match (acceptable(&built(s)), out) {
        (true, Out::Ok(_)) | (false, Out::Err(_)) => Ok(()),
        (true, o) => Err(format!("a valid form was refused: {o:?}")),
        (false, o) => Err(format!("an invalid form was not refused with an error: {o:?}")),
    }
}

pub fn c18(cx: &mut Cx) {
    for d in form::domains(cx.thorough) {
        if cx.thorough || !matches!(d.name, "scalars") {
            cx.sweep(&format!("form-{}", d.name), &d.what, d.n, |i, w| {
                init();
                let s = (d.gen)(i);
                let out = exec(&s, w);
                accepted(&s, &out)
            });
        }
    }
    let mats = super::keys::materials();
    cx.sweep("form-keys", "key materials x sign_blob", mats.len() as u64 * 2, |i, w| {
        init();
        let mut x = Ix(i);
        let (_, text, _) = x.pick(&mats);
        let mut s = form::base();
        s.push(Set::Sign(Sign { key: Key::Text("signer@p".into(), text.clone()), sign_blob: x.flag(), ..Sign::base() }));
        let out = exec(&s, w);
        accepted(&s, &out)
    });
    type Fault = fn(&mut Vec<Set>, &mut Sign);
    let faults: [Fault; 12] = [
        |_, _| {},
        |s, _| s.retain(|x| !matches!(x, Set::Key(_))),
        |s, _| s.retain(|x| !matches!(x, Set::Bucket(_))),
        |s, _| s.push(Set::Meta(String::new(), "v".into())),
        |_, g| g.expiration = NOW,
        |_, g| g.expiration = NOW - 1,
        |_, g| g.expiration = (cal::MAX as i128 + 1) * S,
        |_, g| g.at = Some(-1),
        |_, g| g.sign_blob = !g.sign_blob,
        |_, g| g.key = Key::Text("x".into(), "not a key".into()),
        |_, g| {
            g.at = Some((cal::MAX as i128 + 1) * S);
            g.expiration = (cal::MAX as i128 + 9) * S;
        },
        |s, _| {
            s.retain(|x| !matches!(x, Set::Key(_)));
            s.push(Set::Key(String::new()));
        },
    ];
    cx.sweep("form-faults", "no fault, every single fault and every pair of faults x key kinds x signed or not", 12 * 12 * 4, |i, w| {
        init();
        let mut x = Ix(i);
        let key = x.n(4);
        let keys = [Key::rsa(), Key::Blob, Key::Hmac("a".into(), "b".into()), Key::rsa()];
        let mut g = Sign::base().key(keys[key as usize].clone());
        let mut s = form::base();
        s.push(Set::Meta("m".into(), "v".into()));
        x.pick(&faults)(&mut s, &mut g);
        x.pick(&faults)(&mut s, &mut g);
        if key != 3 {
            s.push(Set::Sign(g));
        }
        let out = exec(&s, w);
        accepted(&s, &out)
    });
}
