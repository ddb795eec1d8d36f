//! Two operations on two threads, one preempted at every point of its execution (see preempt.rs).
use crate::clock::{self, SEC};
use crate::exec::{kind, Key, Kind, Out, Reply, World, NOW};
use crate::fw::{Cx, Ix, W};
use crate::preempt::{self, End, Fut, Side};
use cloud_storage_signature::{build_signed_url, BuildSignedUrlOptions, HtmlFormData, PolicyDocumentSigningOptions, SigningKey};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cache {
    Cold,
    Warm,
    /// 20 s left
    Stale,
    /// fresh for the first operation, stale for the second, a second later
    Turning,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Scene {
    /// clones of a service account key
    Clones,
    /// service account keys of one identity
    SameIdentity,
    /// the same private key with two identities
    SamePrivateKey,
    /// a service account and a bound token
    Mixed,
    Bound(Cache),
    /// a bound token; for the first operation the email, token or signBlob request fails
    Faulty(Cache, usize),
    /// bound tokens of two metadata servers
    Two,
}

impl Scene {
    fn bound(self) -> bool {
        !matches!(self, Scene::Clones | Scene::SameIdentity | Scene::SamePrivateKey)
    }
}

/// The second before and the second after midnight.
fn instants() -> [i128; 2] {
    let day = (NOW / (86_400 * SEC) + 1) * 86_400 * SEC;
    [day - SEC / 2, day + SEC / 2]
}

static MAKING: Mutex<()> = Mutex::new(());

pub fn bound_key(host: Option<&str>) -> SigningKey {
    let _g = MAKING.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(h) = host {
        std::env::set_var("GCE_METADATA_HOST", h);
    }
    let k = SigningKey::bound_token();
    if host.is_some() {
        std::env::remove_var("GCE_METADATA_HOST");
    }
    k
}

fn world(s: Scene, side: usize) -> World {
    let mut w = World { token: format!("ya29.{}", ["a", "b"][side]), ..World::default() };
    if s == Scene::Two {
        w.email = format!("{}@p.example", ["a", "b"][side]);
    }
    if let (Scene::Faulty(_, n), 0) = (s, side) {
        w.over[n] = Some(Reply::Http(500, vec![], b"a failure".to_vec()));
    }
    w
}

fn keys(s: Scene) -> [SigningKey; 2] {
    let twice = |k: SigningKey| [k.clone(), k];
    let rsa = |k: usize, id: &str| Key::Rsa(k, id.into()).make();
    match s {
        Scene::Clones => twice(rsa(0, "signer@p")),
        Scene::SameIdentity => [rsa(0, "signer@p"), rsa(1, "signer@p")],
        Scene::SamePrivateKey => [rsa(0, "signer@p"), rsa(0, "other@p")],
        Scene::Mixed => [rsa(0, "signer@p"), bound_key(None)],
        Scene::Two => [bound_key(Some("one.example")), bound_key(Some("two.example"))],
        Scene::Bound(c) | Scene::Faulty(c, _) => {
            let k = bound_key(None);
            let [t0, t1] = instants();
            let at = match c {
                Cache::Cold => return twice(k),
                Cache::Warm => t0 - 60 * SEC,
                Cache::Stale => t0 - 3580 * SEC,
                Cache::Turning => t1 - 3570 * SEC,
            };
            let e = preempt::alone(Side { world: World { token: "ya29.old".into(), ..World::default() }, now: at, at: 0, op: op(k.clone(), true, 0, 0, at) });
            assert!(matches!(e.out, Out::Ok(_)), "{:?}", e.out);
            twice(k)
        }
    }
}


/// An URL or a form; the two sides differ in everything.
fn op(key: SigningKey, sign_blob: bool, form: u64, side: usize, now: i128) -> Box<dyn FnOnce() -> Fut + Send> {
    let pick = |a: &str, b: &str| [a, b][side].to_string();
    let end = clock::time(now + [3600, 86_400][side] * SEC);
    let region = [None, Some("asia-northeast1".to_string())][side].clone();
    if form == 1 {
        let b = HtmlFormData::builder()
            .bucket(pick("bucket-a", "bucket-bb"))
            .key(pick("one", "two/\u{e9} \u{1F600}"))
            .content_type(pick("text/plain", "image/png"))
            .x_goog_meta(pick("m", "mm"), pick("1", "2"))
            .policy_document_signing_options(PolicyDocumentSigningOptions { accessible_at: None, expiration: end, region, signing_key: key, use_sign_blob: sign_blob });
        Box::new(move || Box::pin(async move { b.build().await.map(|f| format!("{:?}", f.into_vec())).map_err(|e| super::keys::everything(&e)) }))
    } else {
        let o = BuildSignedUrlOptions {
            bucket_name: pick("bucket-a", "bucket-bb"),
            object_name: pick("one", "two/\u{e9} \u{1F600}"),
            region,
            expires: end,
            http_method: pick("GET", "PUT"),
            accessible_at: None,
            signing_key: key,
            use_sign_blob: sign_blob,
            headers: vec![(pick("x-goog-meta-a", "X-Goog-Meta-B"), pick("1", " 2  3 ")), ("content-type".into(), pick("text/plain", "a/b"))],
            query_parameters: vec![(pick("a", "generation"), pick("b c", "7"))],
        };
        Box::new(move || Box::pin(async move { build_signed_url(o).await.map_err(|e| super::keys::everything(&e)) }))
    }
}

fn side(s: Scene, k: &SigningKey, form: u64, i: usize, at: u64) -> Side {
    let now = instants()[i];
    let blob = s.bound() && !(s == Scene::Mixed && i == 0);
    Side { world: world(s, i), now, at, op: op(k.clone(), blob, form, i, now) }
}

fn tokens(e: &End) -> Vec<String> {
    e.log.iter().flat_map(|r| r.headers.iter().filter(|(k, _)| k == "authorization").map(|(_, v)| String::from_utf8_lossy(v).trim_start_matches("Bearer ").to_string())).collect()
}

fn count(e: &End, k: Kind) -> usize {
    e.log.iter().filter(|r| kind(r) == k).count()
}

/// What must hold of the two ends; each finding with the properties it breaks.
fn judge(s: Scene, ends: &[End; 2], alone: &[Out<String>; 2], probe: &End, want: &Out<String>) -> Vec<(&'static [&'static str], String)> {
    let mut v: Vec<(&'static [&'static str], String)> = vec![];
    let mut failed = false;
    for (i, e) in ends.iter().enumerate() {
        let blob = s.bound() && !(s == Scene::Mixed && i == 0);
        let fault = match (s, i) {
            (Scene::Faulty(_, n), 0) => e.log.iter().any(|r| kind(r) == [Kind::Email, Kind::Token, Kind::SignBlob][n]),
            _ => false,
        };
        failed |= fault && !matches!(s, Scene::Faulty(_, 2));
        let who = ["the first", "the second"][i];
        match &e.out {
            Out::Panic(p) => v.push((&["C12", "C13", "C14", "C15", "C16", "C17"], format!("{who} operation panics: {p}"))),
            Out::Hang => v.push((if blob { &["C16"] } else { &["C12"] }, format!("{who} operation never completes"))),
            Out::Ok(r) if fault => v.push((&["C16"], format!("{who} operation gives {r} although one of its requests failed"))),
            Out::Err(_) if fault => (),
            Out::Err(m) => v.push((if blob { &["C16"] } else { &["C12"] }, format!("{who} operation fails: {m}"))),
            o if *o != alone[i] => v.push((if !blob { &["C12"] } else if s == Scene::Two { &["C15", "C17"] } else { &["C15"] }, format!("{who} operation gives {o:?}, alone it gives {:?}", alone[i]))),
            _ => (),
        }
        if !blob && !e.log.is_empty() {
            v.push((&["C12"], format!("{who} operation, with a service account key, causes the traffic {:?}", e.log)));
        }
        for t in tokens(e) {
            let own = format!("ya29.{}", ["a", "b"][i]);
            if s == Scene::Two && t != own {
                v.push((&["C17"], format!("{who} operation presents {t:?}, its key's token is {own:?}")));
            }
            if t == "ya29.old" && (matches!(s, Scene::Bound(Cache::Stale) | Scene::Faulty(Cache::Stale, _)) || i == 1 && matches!(s, Scene::Bound(Cache::Turning) | Scene::Faulty(Cache::Turning, _))) {
                v.push((&["C13"], format!("{who} operation presents the token that has 30 s or less left")));
            }
        }
        if let Some(r) = e.log.iter().find(|r| kind(r) == Kind::Other) {
            v.push((&["C17"], format!("{who} operation makes a request to {}", r.uri)));
        }
    }
    if s.bound() && !failed {
        let n = |k| (count(&ends[0], k), count(&ends[1], k));
        let (e, t) = (n(Kind::Email), n(Kind::Token));
        let good = match s {
            Scene::Two => e == (1, 1) && t == (1, 1),
            Scene::Mixed => e == (0, 1) && t == (0, 1),
            Scene::Bound(Cache::Warm) | Scene::Faulty(Cache::Warm, _) => e == (0, 0) && t == (0, 0),
            _ => e.0 + e.1 == 1 && t == e,
        };
        if !good {
            v.push((&["C14"], format!("the operations make {} and {} requests for the email, {} and {} for the token", e.0, e.1, t.0, t.1)));
        }
    }
    if probe.out != *want {
        v.push((if s.bound() { &["C16"] } else { &["C12"] }, format!("an operation afterwards gives {:?} instead of {want:?}", probe.out)));
    } else if s.bound() && !failed && (count(probe, Kind::Email) > 0 || count(probe, Kind::Token) > 0) {
        v.push((&["C14"], "an operation afterwards fetches once more".into()));
    }
    v
}

pub fn explore(cx: &mut Cx, scope: Option<bool>) {
    use Cache::*;
    let all = [
        Scene::Clones,
        Scene::SameIdentity,
        Scene::SamePrivateKey,
        Scene::Mixed,
        Scene::Bound(Cold),
        Scene::Bound(Warm),
        Scene::Bound(Stale),
        Scene::Bound(Turning),
        Scene::Faulty(Cold, 0),
        Scene::Faulty(Cold, 1),
        Scene::Faulty(Stale, 1),
        Scene::Faulty(Warm, 2),
        Scene::Two,
    ];
    for s in all.into_iter().filter(|s| scope.is_none_or(|b| b == (s.bound() && *s != Scene::Mixed)) || *s == Scene::Mixed) {
        // what each operation gives alone, and at how many points it can be preempted
        let measure = |form: u64, i: usize| {
            let clean = match s {
                Scene::Faulty(c, _) => Scene::Bound(c),
                s => s,
            };
            std::thread::scope(|sc| {
                sc.spawn(|| {
                    // (the first time on a thread some more things are made)
                    preempt::alone(side(s, &keys(s)[i], form, i, 0));
                    let e = preempt::alone(side(s, &keys(s)[i], form, i, 0));
                    (preempt::alone(side(clean, &keys(clean)[i], form, i, 0)).out, e.points)
                })
                .join()
                .expect("a measurement")
            })
        };
        let m: Vec<Vec<(Out<String>, u64)>> = (0..2).map(|f| (0..2).map(|i| measure(f, i)).collect()).collect();
        let most = |i: usize| m.iter().map(|f| f[i].1).max().unwrap() + 40;
        let (na, nb) = (most(0), most(1));
        let prop = cx.prop.clone();
        let run = |fa: u64, fb: u64, ka: u64, kb: u64, w: &mut W| {
            w.case(|| format!("{s:?}: {} preempted at its {ka}th (de)allocation by {} {}", ["an URL", "a form"][fa as usize], ["an URL", "a form"][fb as usize], if kb > 0 { format!("preempted at its {kb}th") } else { String::new() }));
            let both = |ka: u64, kb: u64| {
                let k = keys(s);
                let r = preempt::duel(side(s, &k[0], fa, 0, ka), side(s, &k[1], fb, 1, kb));
                (k, r)
            };
            thread_local!(static WARM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
            if !WARM.replace(true) {
                both(0, 0);
            }
            let (k, (ends, preemptions, blocked)) = both(ka, kb);
            let probe = preempt::alone(side(s, &k[1], fb, 1, 0));
            w.traces += 1;
            w.steps += 3 + preemptions + ends.iter().map(|e| e.log.len() as u64).sum::<u64>();
            w.class(match preemptions {
                0 => "no preemption",
                1 => "one preemption",
                _ => "two preemptions",
            });
            if blocked > 0 {
                w.class("a thread waited for a lock of the other");
            }
            w.state(&(ka, kb, ends.iter().map(|e| (e.out.class(), e.log.iter().map(|r| (kind(r), r.body.len())).collect::<Vec<_>>())).collect::<Vec<_>>()));
            let want = &m[fb as usize][1].0;
            let found = judge(s, &ends, &[m[fa as usize][0].0.clone(), want.clone()], &probe, want);
            found.into_iter().find(|f| f.0.contains(&prop.as_str())).map_or(Ok(()), |f| Err(f.1))
        };
        let name = format!("{s:?}").to_lowercase().replace([',', '('], "-").replace([')', ' '], "");
        cx.sweep(&format!("preempted-{name}"), &format!("{s:?}: two operations (URL or form) on two threads, the first preempted by the second at each of its {na} (de)allocations"), 4 * (na + 1), |i, w| {
            let mut x = Ix(i);
            let (fa, fb) = (x.n(2), x.n(2));
            run(fa, fb, x.0, 0, w)
        });
        let pairs: u64 = if cx.thorough { 4 } else { 1 };
        if cx.thorough || cx.prop == "C14" && matches!(s, Scene::Bound(Cold | Stale)) {
            cx.sweep(&format!("preempted-twice-{name}"), &format!("{s:?}: the same, the second one preempted as well, at each of its {nb}, {pairs} kinds of pairs"), pairs * (na + 1) * (nb + 1), |i, w| {
                let mut x = Ix(i);
                let p = x.n(pairs);
                let ka = x.n(na + 1);
                run(p % 2, p / 2, ka, x.0, w)
            });
        }
    }
}
