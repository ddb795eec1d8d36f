//! C04 and C08: validity windows.
use crate::cal;
use crate::clock;
use crate::exec::{init, Key, Out, Set, Sign, UrlCase};
use crate::form;
use crate::fw::{Cx, Ix};
use crate::gcs;

const S: i128 = 1_000_000_000;

/// Calendar boundaries: nanoseconds since 1970.
pub fn instants(thorough: bool) -> Vec<i128> {
    let mut v: Vec<i128> = vec![];
    // first and last second of every month of every year 1970..=9999
    for y in 1970..=9999i64 {
        for m in 1..=12 {
            let t = cal::secs(y, m, 1, 0, 0, 0) as i128 * S;
            v.push(t);
            if t > 0 {
                v.push(t - S);
                v.push(t - 1);
            }
        }
    }
    v.push(cal::MAX as i128 * S);
    v.push(cal::MAX as i128 * S + S - 1);
    // every day (quick: of the years around leap and century rules)
    let years: Vec<i64> = if thorough {
        (1970..=9999).collect()
    } else {
        (1970..=2110).chain(2399..=2401).chain(9999..=9999).collect()
    };
    for y in years {
        let (a, b) = (cal::secs(y, 1, 1, 0, 0, 0) / 86400, cal::secs(y, 12, 31, 0, 0, 0) / 86400);
        for d in a..=b {
            v.push((d as i128 * 86400 + 86399) * S + 999_999_999);
        }
    }
    // every second of one day
    for s in 0..86400 {
        v.push((cal::secs(2024, 2, 29, 0, 0, 0) as i128 + s) * S + 500_000_000);
    }
    // out of range
    v.extend([-1, -S, -S - 1, -62_167_219_200 * S, (cal::MAX as i128 + 1) * S, (cal::MAX as i128 + 2) * S, i32::MAX as i128 * S, (i32::MAX as i128 + 1) * S, u32::MAX as i128 * S, (u32::MAX as i128 + 1) * S, (i64::MAX / 2) as i128 * S, i64::MIN as i128 / 2 * S]);
    v.sort_unstable();
    v.dedup();
    v
}

fn in_range(t: i128) -> bool {
    (0..(cal::MAX as i128 + 1) * S).contains(&t)
}

/// The URL that accessible_at = `a`, expires = `e` must give: Some((X-Goog-Date, X-Goog-Expires)).
fn want(a: i128, e: i128) -> Option<(String, String)> {
    let d = (e - a).div_euclid(S);
    (in_range(a) && (0..=604800).contains(&d)).then(|| (cal::basic(a.div_euclid(S) as i64), d.to_string()))
}

fn window(u: &UrlCase, url: &str) -> Result<(String, String), String> {
    let q = gcs::query_pairs(gcs::split(url)?.query)?;
    let g = |n: &str| -> Result<String, String> {
        let v: Vec<_> = q.iter().filter(|(k, _)| k == n.as_bytes()).collect();
        if v.len() != 1 {
            return Err(format!("{n} is not there once"));
        }
        String::from_utf8(v[0].1.clone()).map_err(|e| e.to_string())
    };
    let (date, exp, cred) = (g("X-Goog-Date")?, g("X-Goog-Expires")?, g("X-Goog-Credential")?);
    let scope = cred.strip_prefix(&format!("{}/", u.key.identity())).ok_or_else(|| format!("credential {cred:?}"))?;
    let want = format!("{}/{}/storage/goog4_request", date.get(..8).unwrap_or(""), u.region.as_deref().unwrap_or("auto"));
    if scope != want {
        return Err(format!("the credential scope is {scope:?} but X-Goog-Date is {date:?}"));
    }
    Ok((date, exp))
}

fn judge_url(u: &UrlCase, out: &Out<String>, ats: &[i128]) -> Result<(), String> {
    let wants: Vec<_> = ats.iter().map(|a| want(*a, u.expires)).collect();
    match out {
        Out::Ok(url) => {
            let got = window(u, url)?;
            if !wants.contains(&Some(got.clone())) {
                return Err(format!("X-Goog-Date, X-Goog-Expires are {got:?}, not {wants:?}"));
            }
        }
        Out::Err(e) => {
            if !wants.contains(&None) {
                return Err(format!("a valid window was refused: {e}"));
            }
        }
        // a panic or hang is C09's
        _ => {}
    }
    Ok(())
}

const SUB: [i128; 6] = [0, 1, 499_999_999, 500_000_000, 999_999_999, 1_000_000];

/// Lifetimes around every boundary, nanoseconds.
fn lifetimes() -> Vec<i128> {
    let mut v = vec![];
    for s in [0i128, 1, 2, 59, 60, 3599, 3600, 86399, 86400, 86401, 604_799, 604_800, 604_801, 604_802, 1 << 31, 1 << 32, 1 << 40] {
        for n in [-S, -1_000_000, -1, 0, 1, 1_000_000, 500_000_000, 999_999_999] {
            v.push(s * S + n);
        }
    }
    v.extend([-2 * S, -604_800 * S, -(1 << 40) * S]);
    v.sort_unstable();
    v.dedup();
    v
}

pub const STEPS: [i128; 8] = [1, 500_000_000, S, 60 * S, 86_400 * S, -1, -S, -86_400 * S];

/// Base instants of the clock-step sweeps: mid-second, just before a second, minute, day, month and year turn.
pub fn turns() -> Vec<i128> {
    vec![
        crate::exec::NOW,
        cal::secs(2026, 3, 4, 5, 6, 8) as i128 * S - 1,
        cal::secs(2026, 3, 4, 5, 6, 8) as i128 * S,
        cal::secs(2026, 3, 5, 0, 0, 0) as i128 * S - 1,
        cal::secs(2026, 3, 5, 0, 0, 0) as i128 * S,
        cal::secs(2024, 2, 29, 0, 0, 0) as i128 * S - 1,
        cal::secs(2027, 1, 1, 0, 0, 0) as i128 * S - 1,
        cal::MAX as i128 * S,
        2 * 86_400 * S,
    ]
}

pub fn c04(cx: &mut Cx) {
    cx.assume("the system clock is at or after 1970");
    let ts = instants(cx.thorough);
    cx.sweep("instants", &format!("accessible_at at {} calendar boundaries, given or from the clock", ts.len()), ts.len() as u64 * 2, |i, w| {
        init();
        let mut x = Ix(i);
        let explicit = x.flag();
        let t = ts[x.0 as usize];
        let mut u = UrlCase::base();
        u.expires = t + 3600 * S;
        if explicit {
            u.at = Some(t);
        } else {
            if t < 0 {
                return Ok(());
            }
            clock::set(t);
        }
        let out = super::urls::exec(&u, w);
        judge_url(&u, &out, &[t])
    });
    let max = 604_810u64;
    let subs = if cx.thorough { 6 } else { 2 };
    cx.sweep("durations", &format!("every lifetime of 0..={max} whole seconds (plus {subs} sub-second parts)"), (max + 1) * subs, |i, w| {
        init();
        let mut x = Ix(i);
        let sub = [0, 999_999_999, 1, 500_000_000, 499_999_999, 1_000_000][x.n(subs) as usize];
        let mut u = UrlCase::base();
        let at = crate::exec::NOW;
        u.at = Some(at);
        u.expires = at + x.0 as i128 * S + sub;
        let out = super::urls::exec(&u, w);
        judge_url(&u, &out, &[at])
    });
    let lt = lifetimes();
    let bases: Vec<i128> = turns().into_iter().chain([0, 1, -1, -S, 5 * S, (cal::MAX as i128 + 1) * S, cal::MAX as i128 * S + S - 1]).collect();
    cx.sweep("boundaries", &format!("{} accessible times x 6 sub-seconds x {} lifetimes x given/from the clock x key kind", bases.len(), lt.len()), (bases.len() * 6 * lt.len() * 4) as u64, |i, w| {
        init();
        let mut x = Ix(i);
        let explicit = x.flag();
        let rsa = x.flag();
        let a = *x.pick(&bases) + *x.pick(&SUB);
        let mut u = UrlCase::base();
        if rsa {
            u = u.key(Key::rsa());
            // the signature itself is checked elsewhere; an odd lifetime is enough for the slow key
            if x.0 % 3 != 0 {
                return Ok(());
            }
        }
        u.expires = a + *x.pick(&lt);
        if explicit {
            u.at = Some(a);
        } else {
            if a < 0 {
                return Ok(());
            }
            clock::set(a);
        }
        let out = super::urls::exec(&u, w);
        judge_url(&u, &out, &[a])
    });
    // the clock moves between any two reads of it
    let ts = turns();
    let lts: Vec<i128> = vec![0, 1, S - 1, S, 60 * S, 86_400 * S, 604_800 * S, 604_800 * S + S - 1, 604_801 * S, -1];
    cx.sweep("clock-steps", "the clock steps by one of 8 amounts just before its k-th read (k < 6) while a URL without accessible_at is built", (ts.len() * lts.len() * STEPS.len() * 6 * 2) as u64, |i, w| {
        init();
        let mut x = Ix(i);
        let t = *x.pick(&ts);
        let e = t + *x.pick(&lts);
        let step = *x.pick(&STEPS);
        let k = x.n(6) as u32;
        let mut u = UrlCase::base();
        if x.flag() {
            u = u.key(Key::rsa());
        }
        u.expires = e;
        clock::set_step(t, k, step);
        let out = super::urls::exec(&u, w);
        judge_url(&u, &out, &[t, t + step])
    });
}

fn want_form(a: i128, e: i128) -> Option<String> {
    (e > a && in_range(a) && in_range(e)).then(|| cal::rfc3339(e.div_euclid(S) as i64))
}

fn judge_form(out: &Out<crate::exec::Form>, ats: &[i128], e: i128) -> Result<(), String> {
    let wants: Vec<_> = ats.iter().map(|a| want_form(*a, e)).collect();
    match out {
        Out::Ok(f) => {
            let got = form::policy(f)?.expiration;
            if !wants.contains(&Some(got.clone())) {
                return Err(format!("the policy's expiration is {got:?}, not {wants:?}"));
            }
            // the times of the form belong together
            let date = form::get(f, "x-goog-date").unwrap_or("");
            let ok = ats.iter().any(|a| in_range(*a) && cal::basic(a.div_euclid(S) as i64) == date);
            let cred = form::get(f, "x-goog-credential").unwrap_or("");
            if !ok || !cred.contains(&format!("/{}/", date.get(..8).unwrap_or("?"))) {
                return Err(format!("x-goog-date {date:?} and x-goog-credential {cred:?} do not fit the accessible time"));
            }
        }
        Out::Err(e) => {
            if !wants.contains(&None) {
                return Err(format!("a valid window was refused: {e}"));
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn c08(cx: &mut Cx) {
    cx.assume("the system clock is at or after 1970");
    let ts = instants(cx.thorough);
    let run = |at: Option<i128>, e: i128, key: Key, w: &mut crate::fw::W| {
        let mut s = form::base();
        s.push(Set::Sign(Sign { at, expiration: e, ..Sign::base().key(key) }));
        super::forms::exec(&s, w)
    };
    cx.sweep("expirations", &format!("expiration at {} calendar boundaries, accessible 1 ns / 1 s / 10 days before, equal, after", ts.len()), ts.len() as u64 * 5, |i, w| {
        init();
        let mut x = Ix(i);
        let d = *x.pick(&[1, S, 864_000 * S, 0, -1]);
        let e = ts[x.0 as usize];
        let out = run(Some(e - d), e, Key::Blob, w);
        judge_form(&out, &[e - d], e)
    });
    let lt: Vec<i128> = lifetimes().into_iter().chain([1 << 55, 1 << 62]).collect();
    let bases: Vec<i128> = turns().into_iter().chain([0, 1, -1, -S, 5 * S, (cal::MAX as i128 + 1) * S, cal::MAX as i128 * S + S - 1]).collect();
    cx.sweep("boundaries", &format!("{} accessible times x 6 sub-seconds x {} lifetimes x given/from the clock", bases.len(), lt.len()), (bases.len() * 6 * lt.len() * 2) as u64, |i, w| {
        init();
        let mut x = Ix(i);
        let explicit = x.flag();
        let a = *x.pick(&bases) + *x.pick(&SUB);
        let e = a + *x.pick(&lt);
        if !explicit {
            if a < 0 {
                return Ok(());
            }
            clock::set(a);
        }
        let out = run(explicit.then_some(a), e, Key::Blob, w);
        judge_form(&out, &[a], e)
    });
    let ts = turns();
    let lts: Vec<i128> = vec![0, 1, S - 1, S, 60 * S, 86_400 * S, 604_800 * S, 10_000 * 86_400 * S, -1];
    cx.sweep("clock-steps", "the clock steps by one of 8 amounts just before its k-th read (k < 6) while a form without accessible_at is built", (ts.len() * lts.len() * STEPS.len() * 6 * 2) as u64, |i, w| {
        init();
        let mut x = Ix(i);
        let t = *x.pick(&ts);
        let e = t + *x.pick(&lts);
        let step = *x.pick(&STEPS);
        let k = x.n(6) as u32;
        clock::set_step(t, k, step);
        let out = run(None, e, if x.flag() { Key::rsa() } else { Key::Blob }, w);
        judge_form(&out, &[t, t + step], e)
    });
}
