//! The bound-token world: metadata and signBlob servers whose answers, timing and faults are chosen
//! by an explorer, operations of the crate polled by hand, and the monitors of C13-C17.
use crate::clock;
use crate::exec::{self, guarded, kind, record, sign_blob_request, Flag, Form, Kind, Out, Rec, Reply, NOW};
use crate::fw::{hash64, W};
use crate::gcs;
use crate::keys::{blob_signature, Material, Verifier};
use bytes::Bytes;
use cloud_storage_signature::{build_signed_url, BuildSignedUrlOptions, HtmlFormData, PolicyDocumentSigningOptions, SigningKey};
use std::cell::RefCell;
use std::collections::HashSet;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

const S: i128 = clock::SEC;
/// A token with no more than this left must be renewed.
pub const MARGIN: i128 = 30 * S;

// ---------------------------------------------------------------- requests in flight

#[derive(Default)]
struct Slot {
    reply: Option<Reply>,
    /// the head arrives first, the body with a later step
    split: bool,
    waker: Option<Waker>,
    taken: bool,
    body_here: bool,
    body_waker: Option<Waker>,
    body_taken: bool,
    dropped: bool,
}

impl Slot {
    fn finished(&self) -> bool {
        self.taken && (!self.split || self.body_taken)
    }
}

type Shared = Arc<Mutex<Slot>>;

struct Answer(Shared);

impl Future for Answer {
    type Output = Result<http::Response<reqwest::Body>, reqwest::mc::BoxError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.0.lock().unwrap();
        match s.reply.take() {
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(r) => {
                s.taken = true;
                if s.split {
                    if let Reply::Http(status, headers, body) = r {
                        let mut b = http::Response::builder().status(status);
                        for (k, v) in headers {
                            b = b.header(k, http::HeaderValue::from_bytes(&v).unwrap());
                        }
                        let body = SplitBody(self.0.clone(), Some(Bytes::from(body)));
                        return Poll::Ready(Ok(b.body(reqwest::Body::wrap(body)).unwrap()));
                    }
                    s.split = false;
                    return Poll::Ready(r.response());
                }
                Poll::Ready(r.response())
            }
        }
    }
}

impl Drop for Answer {
    fn drop(&mut self) {
        let mut s = self.0.lock().unwrap();
        if !s.taken {
            s.dropped = true;
        }
    }
}

struct SplitBody(Shared, Option<Bytes>);

impl http_body::Body for SplitBody {
    type Data = Bytes;
    type Error = std::io::Error;
    fn poll_frame(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<http_body::Frame<Bytes>, std::io::Error>>> {
        let me = &mut *self;
        let mut s = me.0.lock().unwrap();
        if !s.body_here {
            s.body_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        match me.1.take() {
            Some(b) => Poll::Ready(Some(Ok(http_body::Frame::data(b)))),
            None => {
                s.body_taken = true;
                Poll::Ready(None)
            }
        }
    }
}

impl Drop for SplitBody {
    fn drop(&mut self) {
        let mut s = self.0.lock().unwrap();
        if !s.body_taken {
            s.dropped = true;
        }
    }
}

// ---------------------------------------------------------------- scenarios

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum OpKind {
    Url,
    Form,
    /// a URL with use_sign_blob false: fetches, then fails
    NoSign,
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub name: String,
    /// operations and the keys they use
    pub ops: Vec<(OpKind, usize)>,
    pub keys: usize,
    /// GCE_METADATA_HOST when key k is created (empty: never set); with it, only one worker may run
    pub hosts: Vec<Option<String>>,
    pub max_active: usize,
    /// woken operations are polled before anything but deviations happens
    pub eager: bool,
    /// number of deviations (faults, split bodies, clock steps, rotations, cancellations)
    pub dev: u32,
    /// reported lifetimes an answer may choose freely
    pub lives: Vec<u64>,
    pub faults: usize,
    pub split: bool,
    pub advance: Vec<i128>,
    pub cancel: bool,
    pub rotate: bool,
    /// every email answer names another account
    pub auto_rotate: bool,
    /// all answers of the metadata server are split into head and body
    pub always_split: bool,
    /// one execution per class of executions that differ in the order of independent steps only (not with `eager`)
    pub reduce: bool,
    /// at the end every operation is repeated with the same arguments
    pub repeat: bool,
    /// the services may go down (each request then fails in one of so many ways) and come back
    pub outage: usize,
    /// every choice but the first costs a deviation: all schedules within that many departures from
    /// one order (which starts operations first if true, else each as early as possible in turn)
    pub delay: Option<bool>,
    /// this time passes whenever an operation has ended
    pub pause: i128,
}

impl Scenario {
    pub fn new(name: &str, ops: &[(OpKind, usize)]) -> Self {
        Scenario {
            name: name.into(),
            ops: ops.to_vec(),
            keys: ops.iter().map(|o| o.1 + 1).max().unwrap_or(0),
            hosts: vec![],
            max_active: ops.len(),
            eager: true,
            dev: 0,
            lives: vec![3600],
            faults: 0,
            split: false,
            advance: vec![],
            cancel: false,
            rotate: false,
            auto_rotate: false,
            always_split: false,
            reduce: false,
            repeat: false,
            outage: 0,
            delay: None,
            pause: 0,
        }
    }
    pub fn describe(&self) -> String {
        let mut s = format!(
            "operations {:?} (kind, key) on {} key(s), at most {} at a time, {}; lifetimes {:?}; up to {} deviation(s)",
            self.ops,
            self.keys,
            self.max_active,
            match (self.delay, self.eager) {
                (Some(true), _) => "all started at once, then oldest first, each other choice being a deviation",
                (Some(false), _) => "one after the other, each other choice being a deviation",
                (None, true) => "woken operations polled first",
                (None, false) => "every order of starts, polls and answers",
            },
            self.lives,
            self.dev
        );
        let mut m = vec![];
        if self.faults > 0 {
            m.push(format!("{} faults per request kind", self.faults));
        }
        if self.split {
            m.push("late bodies".into());
        }
        if !self.advance.is_empty() {
            m.push(format!("clock steps of {:?} s", self.advance.iter().map(|a| *a as f64 / S as f64).collect::<Vec<_>>()));
        }
        if self.outage > 0 {
            m.push(format!("outages of all services in {} ways and their ends", self.outage));
        }
        if self.cancel {
            m.push("cancellations".into());
        }
        if self.rotate {
            m.push("account changes".into());
        }
        if !m.is_empty() {
            s.push_str(&format!(" among {}", m.join(", ")));
        }
        if self.reduce {
            s.push_str("; one of each class of executions that differ in the order of independent steps");
        }
        if self.repeat {
            s.push_str("; at the end every operation is repeated with the same arguments");
        }
        if self.pause != 0 {
            s.push_str(&format!("; {} pass after each operation", secs(self.pause)));
        }
        if self.auto_rotate {
            s.push_str("; every email answer names another account");
        }
        if self.always_split {
            s.push_str("; head and body of every answer arrive separately");
        }
        s
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Act {
    Start(usize),
    Poll(usize),
    /// request, lifetime index
    Answer(usize, usize),
    /// head only
    Head(usize, usize),
    Body(usize),
    Fault(usize, usize),
    Advance(usize),
    Rotate,
    Cancel(usize),
    Down(usize),
    Up,
}

// ---------------------------------------------------------------- state and monitors

struct Req {
    op: usize,
    key: usize,
    kind: Kind,
    rec: Rec,
    at: i128,
    slot: Shared,
    answered: bool,
    answered_at: i128,
    body_due: bool,
    faulty: bool,
    /// token requests: the token and its lifetime
    token: Option<(String, i128)>,
    /// email requests
    email: Option<String>,
    /// signBlob requests: account, payload
    target: Option<(String, Vec<u8>)>,
    signature: Option<Vec<u8>>,
    settled: bool,
    finished_step: u32,
}

#[derive(Default, Clone)]
struct Fetch {
    email: Option<usize>,
    token: Option<usize>,
    email_done: bool,
    token_done: bool,
}

/// A metadata fetch that succeeded.
struct Done {
    key: usize,
    email: String,
    token: String,
    issued_at: i128,
    life: i128,
    step: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum St {
    New,
    Active,
    Done,
    Cancelled,
}

struct OpSt {
    kind: OpKind,
    key: usize,
    object: usize,
    st: St,
    started: u32,
    fetch: Option<Fetch>,
    faulty: bool,
    outcome: &'static str,
}

pub struct Ex {
    scn: Rc<Scenario>,
    reqs: Vec<Req>,
    ops: Vec<OpSt>,
    done: Vec<Done>,
    cur: usize,
    step: u32,
    account: u32,
    down: Option<usize>,
    pub viol: Vec<(&'static str, String)>,
    pub counts: Vec<&'static str>,
}

thread_local! {
    static EX: RefCell<Option<Ex>> = const { RefCell::new(None) };
}

fn ex<R>(f: impl FnOnce(&mut Ex) -> R) -> R {
    EX.with(|e| f(e.borrow_mut().as_mut().expect("explorer state")))
}

fn header<'a>(r: &'a Rec, name: &str) -> Vec<&'a [u8]> {
    r.headers.iter().filter(|(k, _)| k == name).map(|(_, v)| v.as_slice()).collect()
}

fn secs(ns: i128) -> String {
    format!("{}.{:09} s", ns.div_euclid(S), ns.rem_euclid(S))
}

impl Ex {
    /// A name of the request that does not depend on the order in which operations run: operation.number.
    fn name(&self, i: usize) -> String {
        format!("{}.{}", self.reqs[i].op, self.nth(i))
    }

    fn nth(&self, i: usize) -> usize {
        self.reqs[..i].iter().filter(|r| r.op == self.reqs[i].op).count()
    }

    /// The same step under the same name in every order of independent steps.
    fn stable(&self, a: Act) -> Act {
        let id = |r: usize| self.reqs[r].op * 1000 + self.nth(r);
        match a {
            Act::Answer(r, l) => Act::Answer(id(r), l),
            Act::Head(r, l) => Act::Head(id(r), l),
            Act::Body(r) => Act::Body(id(r)),
            Act::Fault(r, f) => Act::Fault(id(r), f),
            a => a,
        }
    }

    /// Whether two steps (stable names) lead to the same in both orders: an answer only wakes its own
    /// operation, operations of different keys share nothing, and only answers, polls and starts know the time.
    fn independent(&self, a: Act, b: Act) -> bool {
        use Act::*;
        let op = |a: Act| match a {
            Start(o) | Poll(o) | Cancel(o) => Some((o, false)),
            Answer(r, _) | Head(r, _) | Fault(r, _) | Body(r) => Some((r / 1000, true)),
            Advance(_) | Rotate | Down(_) | Up => None,
        };
        match (op(a), op(b)) {
            (None, None) => a != b && !matches!(a, Down(_) | Up) && !matches!(b, Down(_) | Up),
            (Some((x, xa)), Some((y, ya))) => x != y && (xa || ya || self.ops[x].key != self.ops[y].key),
            _ => matches!((a, b), (Cancel(_), _) | (_, Cancel(_)) | (Rotate, Poll(_) | Start(_) | Body(_)) | (Poll(_) | Start(_) | Body(_), Rotate)),
        }
    }

    fn host(&self, key: usize) -> &str {
        self.scn.hosts.get(key).and_then(|h| h.as_deref()).unwrap_or(exec::METADATA_HOST)
    }

    fn bad(&mut self, prop: &'static str, m: String) {
        self.viol.push((prop, m));
    }

    /// Takes note of answers that the code has consumed and of requests it has dropped.
    fn sync(&mut self) {
        for i in 0..self.reqs.len() {
            if self.reqs[i].settled {
                continue;
            }
            let (finished, dropped) = {
                let s = self.reqs[i].slot.lock().unwrap();
                (s.finished(), s.dropped)
            };
            if !finished && !dropped {
                continue;
            }
            self.reqs[i].settled = true;
            let (op, k, faulty) = (self.reqs[i].op, self.reqs[i].kind, self.reqs[i].faulty);
            // an answer that was received and refused because of its head or status was consumed
            if finished || (dropped && self.reqs[i].slot.lock().unwrap().taken && faulty) {
                self.reqs[i].finished_step = self.step;
                if faulty {
                    self.ops[op].faulty = true;
                }
                if matches!(k, Kind::Email | Kind::Token) {
                    let mine = self.ops[op].fetch.as_ref().is_some_and(|f| f.email == Some(i) || f.token == Some(i));
                    if mine && faulty {
                        self.ops[op].fetch = None;
                        self.counts.push("failed fetch");
                    } else if mine {
                        let f = self.ops[op].fetch.as_mut().unwrap();
                        if k == Kind::Email {
                            f.email_done = true;
                        } else {
                            f.token_done = true;
                        }
                        if f.email_done && f.token_done {
                            let (e, t) = (f.email.unwrap(), f.token.unwrap());
                            self.ops[op].fetch = None;
                            let (token, life) = self.reqs[t].token.clone().unwrap();
                            self.done.push(Done {
                                key: self.reqs[t].key,
                                email: self.reqs[e].email.clone().unwrap(),
                                token,
                                issued_at: self.reqs[t].at,
                                life,
                                step: self.step,
                            });
                        }
                    }
                }
            } else if self.ops[op].fetch.as_ref().is_some_and(|f| f.email == Some(i) || f.token == Some(i)) {
                self.ops[op].fetch = None;
            }
        }
    }

    /// A fetch ends with its operation unless something still works on it.
    fn end_fetch(&mut self, op: usize) {
        if let Some(f) = &self.ops[op].fetch {
            if !f.email.iter().chain(&f.token).any(|&i| !self.reqs[i].settled && self.live(i)) {
                self.ops[op].fetch = None;
            }
        }
    }

    fn latest(&self, key: usize) -> Option<&Done> {
        self.done.iter().rev().find(|d| d.key == key)
    }

    fn on_request(&mut self, rec: Rec) -> Shared {
        self.sync();
        let now = clock::get().now;
        let op = self.cur;
        let key = self.ops[op].key;
        let k = kind(&rec);
        let i = self.reqs.len();
        let mut target = None;
        self.secrets_in_request(&rec, k);
        match k {
            Kind::Email | Kind::Token => {
                self.metadata_request(&rec, k, key);
                if let Some(d) = self.latest(key) {
                    let left = d.issued_at + d.life - now;
                    if left > MARGIN {
                        let m = format!("operation {op} asks the metadata server although the token {:?} of its key has {} left", d.token, secs(left));
                        self.bad("C14", m);
                    } else {
                        self.counts.push("renewal of a stale token");
                    }
                }
                for j in 0..self.ops.len() {
                    if j != op && self.ops[j].key == key && self.ops[j].fetch.is_some() {
                        let m = format!("operation {op} asks the metadata server while operation {j} does so for the same key");
                        self.bad("C14", m);
                    }
                }
                let f = self.ops[op].fetch.get_or_insert_with(Fetch::default);
                let which = if k == Kind::Email { &mut f.email } else { &mut f.token };
                if which.replace(i).is_some() {
                    let m = format!("operation {op} asks twice for the {k:?} in one fetch");
                    self.bad("C14", m);
                }
            }
            Kind::SignBlob => {
                target = sign_blob_request(&rec);
                self.sign_request(&rec, op, key, now);
                if target.is_none() {
                    let m = format!("malformed signBlob request {:?} {:?}", rec.uri, String::from_utf8_lossy(&rec.body));
                    self.bad("C15", m);
                }
            }
            Kind::Other => {
                let m = format!("unexpected request {} {}", rec.method, rec.uri);
                self.bad("C17", m);
            }
        }
        let slot: Shared = Default::default();
        self.reqs.push(Req {
            op,
            key,
            kind: k,
            rec,
            at: now,
            slot: slot.clone(),
            answered: false,
            answered_at: 0,
            body_due: false,
            faulty: false,
            token: None,
            email: None,
            target,
            signature: None,
            settled: false,
            finished_step: u32::MAX,
        });
        slot
    }

    fn metadata_request(&mut self, rec: &Rec, k: Kind, key: usize) {
        let want = format!(
            "http://{}/computeMetadata/v1/instance/service-accounts/default/{}",
            self.host(key),
            if k == Kind::Email { "email" } else { "token" }
        );
        if rec.uri != want {
            let m = format!("metadata request to {:?} instead of {want:?}", rec.uri);
            self.bad("C17", m);
        }
        if rec.method != "GET" || !rec.body.is_empty() {
            self.bad("C17", format!("metadata request with method {} and a body of {} bytes", rec.method, rec.body.len()));
        }
        if header(rec, "metadata-flavor") != [b"Google".as_slice()] {
            self.bad("C17", format!("metadata request without Metadata-Flavor: Google: {:?}", rec.headers));
        }
        if ["authorization", "proxy-authorization", "cookie"].iter().any(|h| !header(rec, h).is_empty()) {
            self.bad("C17", "metadata request with credentials".into());
        }
    }

    fn sign_request(&mut self, rec: &Rec, op: usize, key: usize, now: i128) {
        if rec.method != "POST" || !rec.uri.starts_with("https://iamcredentials.googleapis.com/") {
            self.bad("C17", format!("signBlob request {} {}", rec.method, rec.uri));
        }
        let auth = header(rec, "authorization");
        let token = match auth.as_slice() {
            [a] => std::str::from_utf8(a).ok().and_then(|a| a.strip_prefix("Bearer ")),
            _ => None,
        };
        let Some(token) = token.map(str::to_string) else {
            self.bad("C17", format!("signBlob request with Authorization {auth:?}"));
            return;
        };
        let Some(r) = self.reqs.iter().find(|r| r.token.as_ref().is_some_and(|t| t.0 == token)) else {
            self.bad("C17", format!("signBlob request with {token:?}, which no metadata server issued"));
            return;
        };
        let (rkey, faulty, answered_at, fin) = (r.key, r.faulty, r.answered_at, r.finished_step);
        let life = r.token.as_ref().unwrap().1;
        if rkey != key {
            self.bad("C17", format!("operation {op} of key {key} presents a token that was issued for key {rkey}"));
            return;
        }
        if faulty {
            self.bad("C16", format!("operation {op} presents {token:?}, which came in a faulty answer"));
            return;
        }
        let left = answered_at + life - now;
        if fin == self.step {
            self.counts.push("token presented straight from its answer");
        } else {
            self.counts.push("cached token presented");
            if left <= MARGIN {
                self.bad("C13", format!("operation {op} presents {token:?} with {} left instead of asking for a new one", secs(left)));
            }
        }
        match self.latest(key) {
            Some(d) if d.token == token => (),
            Some(d) => {
                let m = format!("operation {op} presents {token:?} although {:?} is newer", d.token);
                self.bad("C14", m);
            }
            None => self.bad("C16", format!("operation {op} presents {token:?}, whose fetch did not succeed")),
        }
    }

    /// Access tokens appear nowhere but in the authorization of signBlob requests.
    fn secrets_in_request(&mut self, rec: &Rec, k: Kind) {
        let mut places: Vec<(&str, &[u8])> = vec![("target", rec.uri.as_bytes()), ("body", &rec.body)];
        for (n, v) in &rec.headers {
            if n != "authorization" || k != Kind::SignBlob {
                places.push(("headers", v));
            }
        }
        if let Some((p, _)) = places.iter().find(|(_, v)| contains(v, b"ya29.")) {
            let m = format!("an access token appears in the {p} of {} {}", rec.method, rec.uri);
            self.bad("C17", m);
        }
    }

    fn answer(&mut self, i: usize, life: usize, fault: Option<usize>, split: bool) -> Option<Waker> {
        let now = clock::get().now;
        let k = self.reqs[i].kind;
        let fault = fault.or(self.down.map(|f| OUTAGES[f]));
        let split = split && self.down.is_none();
        let host = self.reqs[i].rec.uri.split('/').nth(2).unwrap_or("").to_string();
        let good = match k {
            Kind::Email => {
                let e = match self.scn.auto_rotate {
                    true => format!("acct{}-{}@{host}", self.account, self.name(i)),
                    false => format!("acct{}@{host}", self.account),
                };
                self.reqs[i].email = Some(e.clone());
                Reply::text(&e)
            }
            Kind::Token => {
                let t = format!("ya29.tok{}.{host}", self.name(i));
                let l = self.scn.lives[life];
                self.reqs[i].token = Some((t.clone(), l as i128 * S));
                Reply::json(exec::token_json(&t, &l.to_string()))
            }
            Kind::SignBlob => match &self.reqs[i].target {
                Some((account, payload)) => {
                    let mut sig = blob_signature(account, payload);
                    sig.truncate(32);
                    sig[31] = i as u8;
                    let body = format!(
                        r#"{{"keyId":"0123456789abcdef","signedBlob":"{}"}}"#,
                        base64::Engine::encode(&base64::engine::general_purpose::STANDARD, &sig)
                    );
                    self.reqs[i].signature = Some(sig);
                    Reply::json(body)
                }
                None => Reply::Http(400, vec![], b"bad request".to_vec()),
            },
            Kind::Other => Reply::Http(404, vec![], b"not found".to_vec()),
        };
        let reply = match fault {
            Some(f) => {
                self.reqs[i].faulty = true;
                // what a non-2xx answer says is no access token: the error may quote it
                let good = match (good, self.reqs[i].token.as_mut()) {
                    (Reply::Http(s, h, b), Some(t)) if matches!(fault_name(k, f), "500 with a token" | "300 with a token") => {
                        t.0 = t.0.replace("ya29.", "ya28.");
                        Reply::Http(s, h, String::from_utf8(b).unwrap().replace("ya29.", "ya28.").into_bytes())
                    }
                    (g, _) => g,
                };
                fault_reply(k, f, good)
            }
            None => {
                if matches!(&good, Reply::Http(s, _, _) if *s >= 400) {
                    self.reqs[i].faulty = true;
                }
                good
            }
        };
        self.reqs[i].answered = true;
        self.reqs[i].answered_at = now;
        self.reqs[i].body_due = split;
        let mut s = self.reqs[i].slot.lock().unwrap();
        s.reply = Some(reply);
        s.split = split;
        s.waker.take()
    }

    fn body(&mut self, i: usize) -> Option<Waker> {
        self.reqs[i].body_due = false;
        let mut s = self.reqs[i].slot.lock().unwrap();
        s.body_here = true;
        s.body_waker.take()
    }

    fn live(&self, i: usize) -> bool {
        !self.reqs[i].slot.lock().unwrap().dropped
    }

    fn finish(&mut self, op: usize, out: Out<Res>) {
        self.sync();
        self.ops[op].st = St::Done;
        self.end_fetch(op);
        self.ops[op].outcome = out.class();
        let (kind, key, faulty) = (self.ops[op].kind, self.ops[op].key, self.ops[op].faulty);
        let text = match &out {
            Out::Ok(Res::Url(u)) => u.clone(),
            Out::Ok(Res::Form(f)) => f.iter().map(|(k, v)| format!("{k}={v}\n")).collect(),
            Out::Err(e) => e.clone(),
            Out::Panic(p) => {
                self.bad("C16", format!("operation {op} panicked: {p}"));
                return;
            }
            Out::Hang => return,
        };
        if text.contains("ya29.") {
            self.bad("C17", format!("an access token appears in the result of operation {op}: {text:?}"));
        }
        match out {
            Out::Err(e) => {
                self.counts.push(if faulty { "error after a fault" } else { "error" });
                if !faulty && kind != OpKind::NoSign {
                    self.bad("C16", format!("operation {op} failed although none of its requests did: {e}"));
                }
            }
            Out::Ok(r) => {
                self.counts.push("signed result");
                if kind == OpKind::NoSign {
                    return; // C10's subject
                }
                if faulty {
                    self.bad("C16", format!("operation {op} gave a result although one of its requests failed: {text:?}"));
                }
                match self.judge(op, &r) {
                    Err(m) => self.bad("C15", format!("operation {op}: {m}")),
                    Ok(account) => {
                        let started = self.ops[op].started;
                        let mut c: Vec<&Done> = self.done.iter().filter(|d| d.key == key && d.step >= started).collect();
                        c.extend(self.done.iter().rev().find(|d| d.key == key && d.step < started));
                        if !c.iter().any(|d| d.email == account) {
                            let known = self.done.iter().any(|d| d.key == key && d.email == account);
                            let other = !known && self.done.iter().any(|d| d.key != key && d.email == account);
                            let m = format!("operation {op} of key {key} is signed as {account:?}, which is not the account of {}", if known { "the latest fetch" } else { "any successful fetch of its key" });
                            self.bad(if other { "C17" } else if known { "C14" } else { "C16" }, m);
                        }
                    }
                }
            }
            _ => (),
        }
    }

    /// The result is signed by signBlob, for its own account and data. Returns the account.
    fn judge(&self, op: usize, r: &Res) -> Result<String, String> {
        let own: Vec<(String, Vec<u8>, Vec<u8>)> = self
            .reqs
            .iter()
            .filter(|r| r.op == op && r.kind == Kind::SignBlob && !r.faulty && r.finished_step != u32::MAX)
            .filter_map(|r| Some((r.target.as_ref()?.0.clone(), r.target.as_ref()?.1.clone(), r.signature.clone()?)))
            .collect();
        let of = |credential: &str| -> Result<String, String> {
            let p: Vec<&str> = credential.rsplitn(5, '/').collect();
            match p.as_slice() {
                [_, _, _, _, account] => Ok(account.to_string()),
                _ => Err(format!("malformed credential {credential:?}")),
            }
        };
        let material = Material::Table(own);
        match r {
            Res::Url(u) => {
                let sp = gcs::split(u)?;
                let pairs = gcs::query_pairs(sp.query)?;
                let c = pairs.iter().find(|(k, _)| k == b"X-Goog-Credential").ok_or("no credential")?;
                let account = of(&String::from_utf8_lossy(&c.1))?;
                let case = exec::UrlCase { object: format!("object-{}", self.ops[op].object), ..exec::UrlCase::base() };
                gcs::verify(&case.request(u), &Verifier { identity: account.clone(), material })?;
                if !u.starts_with(&format!("https://storage.googleapis.com/example-bucket/object-{}?", self.ops[op].object)) {
                    return Err(format!("the URL is for another object: {u}"));
                }
                Ok(account)
            }
            Res::Form(f) => {
                let get = |n: &str| crate::form::get(f, n).ok_or(format!("no {n}"));
                let account = of(get("x-goog-credential")?)?;
                let sig = gcs::unhex_lower(get("x-goog-signature")?).ok_or("the signature is not hex")?;
                let v = Verifier { identity: account.clone(), material };
                if !v.verify(get("policy")?.as_bytes(), &sig) {
                    return Err(format!("the form's signature is not the one signBlob made for {account:?} and the policy: {f:?}"));
                }
                if get("key")? != format!("object-{}", self.ops[op].object) {
                    return Err(format!("the form is for another object: {f:?}"));
                }
                Ok(account)
            }
        }
    }

    /// What the operations have seen and given, whatever the order of independent steps.
    fn end(&self) -> u64 {
        let mut v: Vec<u64> = vec![];
        for (o, op) in self.ops.iter().enumerate() {
            v.push(hash64(&op.outcome));
            for r in self.reqs.iter().filter(|r| r.op == o) {
                v.push(hash64(&(&r.rec.uri, header(&r.rec, "authorization"), r.at, r.answered_at, r.faulty, r.finished_step != u32::MAX)));
            }
        }
        for k in 0..self.scn.keys {
            v.push(hash64(&self.done.iter().filter(|d| d.key == k).map(|d| (&d.token, &d.email, d.issued_at)).collect::<Vec<_>>()));
        }
        hash64(&v)
    }

    fn state(&self, flags: &[Arc<Flag>]) -> u64 {
        let mut v: Vec<u64> = vec![];
        for (o, f) in self.ops.iter().zip(flags) {
            v.push(hash64(&(o.st, o.outcome, f.get(), o.faulty, o.fetch.is_some())));
        }
        for (i, r) in self.reqs.iter().enumerate() {
            if !r.settled {
                v.push(hash64(&(r.op, r.kind, r.answered, r.faulty, r.body_due, self.live(i))));
            }
        }
        let t: Vec<i128> = (0..self.scn.keys).map(|k| self.latest(k).map_or(-1, |d| d.issued_at + d.life - clock::get().now)).collect();
        hash64(&(v, t, self.account, self.down))
    }
}

pub fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}

/// Number of faults for a request kind; the first ones are the most different.
pub fn fault_count(k: Kind) -> usize {
    match k {
        Kind::Email => 11,
        Kind::Token => 20,
        Kind::SignBlob => 16,
        Kind::Other => 1,
    }
}

/// The faults of an outage: transport errors, errors with a good body, bodies that break off.
const OUTAGES: [usize; 3] = [0, 1, 4];

pub fn fault_name(k: Kind, f: usize) -> &'static str {
    let v: &[&str] = match k {
        Kind::Email => &["transport error", "500 with the email", "404", "304", "body breaks off", "403", "401", "300 with the email", "302 elsewhere", "503", "429"],
        Kind::Token => &[
            "transport error",
            "500 with a token",
            "truncated JSON",
            "token_type MAC",
            "body breaks off",
            "no expires_in",
            "no access_token",
            "no token_type",
            "expires_in negative",
            "expires_in a string",
            "404",
            "empty body",
            "expires_in null",
            "access_token null",
            "trailing garbage",
            "401",
            "300 with a token",
            "302 elsewhere",
            "503",
            "429",
        ],
        Kind::SignBlob => &[
            "transport error",
            "503 with a signature",
            "truncated JSON",
            "signedBlob not base64",
            "body breaks off",
            "403",
            "no signedBlob",
            "signedBlob a number",
            "signedBlob without padding",
            "empty body",
            "signedBlob in the URL-safe alphabet",
            "401",
            "300 with a signature",
            "307 elsewhere",
            "302 to the same host",
            "429",
        ],
        Kind::Other => &["transport error"],
    };
    v[f]
}

fn fault_reply(k: Kind, f: usize, good: Reply) -> Reply {
    let Reply::Http(_, headers, body) = good else { return Reply::TransportError };
    let text = String::from_utf8(body.clone()).unwrap_or_default();
    let ok = |s: String| Reply::Http(200, vec![], s.into_bytes());
    match fault_name(k, f) {
        "transport error" => Reply::TransportError,
        "500 with the email" | "500 with a token" => Reply::Http(500, headers, body),
        "503 with a signature" => Reply::Http(503, headers, body),
        "body breaks off" => Reply::BodyError(200, body[..body.len() / 2].to_vec()),
        "404" => Reply::Http(404, vec![], b"not found".to_vec()),
        "304" => Reply::Http(304, vec![], vec![]),
        "503" => Reply::Http(503, vec![("retry-after", b"1".to_vec())], b"unavailable".to_vec()),
        "429" => Reply::Http(429, vec![("retry-after", b"0".to_vec())], b"too many requests".to_vec()),
        "401" => Reply::Http(401, vec![], b"{\"error\":{\"code\":401}}".to_vec()),
        "300 with the email" | "300 with a token" | "300 with a signature" => Reply::Http(300, headers, body),
        "302 elsewhere" => Reply::Http(302, vec![("location", b"http://elsewhere.example/computeMetadata/v1/instance/service-accounts/default/email".to_vec())], vec![]),
        "307 elsewhere" => Reply::Http(307, vec![("location", b"https://elsewhere.example/v1/projects/-/serviceAccounts/a:signBlob".to_vec())], vec![]),
        "302 to the same host" => Reply::Http(302, vec![("location", b"http://iamcredentials.googleapis.com:443/v1/projects/-/serviceAccounts/a:signBlob".to_vec())], vec![]),
        "403" => Reply::Http(403, vec![], b"{\"error\":{\"code\":403}}".to_vec()),
        "truncated JSON" => ok(text[..text.len() - 1].to_string()),
        "token_type MAC" => ok(text.replace("Bearer", "MAC")),
        "no expires_in" => ok(text.replace("expires_in", "expires")),
        "no access_token" => ok(text.replace("access_token", "id_token")),
        "no token_type" => ok(text.replace("token_type", "type")),
        "expires_in negative" => ok(text.replace("\"expires_in\":", "\"expires_in\":-")),
        "expires_in a string" => ok(text.replace("\"expires_in\":", "\"expires_in\":\"").replace(",\"token_type", "\",\"token_type")),
        "expires_in null" => ok("{\"access_token\":\"ya29.tokn\",\"expires_in\":null,\"token_type\":\"Bearer\"}".into()),
        "access_token null" => ok("{\"access_token\":null,\"expires_in\":3600,\"token_type\":\"Bearer\"}".into()),
        "trailing garbage" => ok(format!("{text}x")),
        "empty body" => ok(String::new()),
        "signedBlob not base64" => ok("{\"keyId\":\"k\",\"signedBlob\":\"*not base64*\"}".into()),
        "no signedBlob" => ok("{\"keyId\":\"k\"}".into()),
        "signedBlob a number" => ok("{\"keyId\":\"k\",\"signedBlob\":17}".into()),
        "signedBlob without padding" => ok(text.replace('=', "")),
        "signedBlob in the URL-safe alphabet" => ok("{\"keyId\":\"k\",\"signedBlob\":\"-_-_\"}".into()),
        n => unreachable!("{n}"),
    }
}

// ---------------------------------------------------------------- operations

pub enum Res {
    Url(String),
    Form(Form),
}

type Fut = Pin<Box<dyn Future<Output = Result<Res, String>>>>;

pub fn operation(kind: OpKind, key: SigningKey, object: usize) -> Fut {
    match kind {
        OpKind::Url | OpKind::NoSign => {
            let f = build_signed_url(BuildSignedUrlOptions {
                bucket_name: "example-bucket".into(),
                object_name: format!("object-{object}"),
                region: None,
                expires: clock::time(NOW + 3600 * S),
                http_method: "GET".into(),
                accessible_at: Some(clock::time(NOW)),
                signing_key: key,
                use_sign_blob: kind == OpKind::Url,
                headers: vec![],
                query_parameters: vec![],
            });
            Box::pin(async move { f.await.map(Res::Url).map_err(|e| format!("{e} {e:?}")) })
        }
        OpKind::Form => {
            let f = HtmlFormData::builder()
                .bucket("example-bucket")
                .key(format!("object-{object}"))
                .policy_document_signing_options(PolicyDocumentSigningOptions {
                    accessible_at: Some(clock::time(NOW)),
                    expiration: clock::time(NOW + 3600 * S),
                    region: None,
                    signing_key: key,
                    use_sign_blob: true,
                })
                .build();
            Box::pin(async move { f.await.map(|f| Res::Form(f.into_vec())).map_err(|e| format!("{e} {e:?}")) })
        }
    }
}

static ENV: Mutex<()> = Mutex::new(());

/// Creates the keys; with hosts, GCE_METADATA_HOST is set around each creation and something else afterwards.
fn make_keys(scn: &Scenario) -> Result<Vec<SigningKey>, String> {
    if scn.hosts.is_empty() {
        return guarded(|| (0..scn.keys).map(|_| SigningKey::bound_token()).collect());
    }
    let _g = ENV.lock().unwrap();
    let mut v = vec![];
    for k in 0..scn.keys {
        match &scn.hosts[k] {
            Some(h) => std::env::set_var("GCE_METADATA_HOST", h),
            None => std::env::remove_var("GCE_METADATA_HOST"),
        }
        v.push(guarded(SigningKey::bound_token)?);
    }
    std::env::set_var("GCE_METADATA_HOST", "decoy.invalid");
    Ok(v)
}

pub fn install() {
    reqwest::mc::set_transport(Some(Rc::new(|req: http::Request<reqwest::Body>| -> reqwest::mc::Answer {
        let rec = record(&req);
        Box::pin(Answer(ex(|e| e.on_request(rec))))
    })));
}

// ---------------------------------------------------------------- one execution

pub struct Run {
    pub choices: Vec<u16>,
    /// the later alternatives at each choice that have to be tried as well
    pub others: Vec<Vec<u16>>,
    /// the rest is equivalent to executions that are explored anyway
    pub redundant: bool,
    pub acts: Vec<Act>,
    pub viol: Vec<(&'static str, String)>,
    pub diverged: bool,
}

struct System {
    scn: Rc<Scenario>,
    keys: Vec<SigningKey>,
    futs: Vec<Option<Fut>>,
    flags: Vec<Arc<Flag>>,
    spent: u32,
    last: Option<Act>,
}

impl System {
    fn poll(&mut self, op: usize) {
        ex(|e| {
            e.step += 1;
            e.cur = op;
        });
        let flag = self.flags[op].clone();
        flag.take();
        let waker = Waker::from(flag);
        let mut cx = Context::from_waker(&waker);
        let fut = self.futs[op].as_mut().expect("active operation");
        let out = match exec::poll_preempted(fut, &mut cx) {
            Err(p) => Some(Out::Panic(p)),
            Ok(Poll::Pending) => None,
            Ok(Poll::Ready(Ok(r))) => Some(Out::Ok(r)),
            Ok(Poll::Ready(Err(e))) => Some(Out::Err(e)),
        };
        if let Some(out) = out {
            let fut = self.futs[op].take();
            let _ = guarded(move || drop(fut));
            ex(|e| e.finish(op, out));
            if self.scn.pause != 0 {
                clock::advance(self.scn.pause);
            }
        }
        self.settle();
    }

    /// Lets spawned tasks run and takes note of what was consumed.
    fn settle(&mut self) {
        exec::drive();
        ex(|e| e.sync());
    }

    fn start(&mut self, op: usize) {
        let (kind, key, object) = ex(|e| {
            e.ops[op].st = St::Active;
            e.ops[op].started = e.step + 1;
            (e.ops[op].kind, e.ops[op].key, e.ops[op].object)
        });
        let k = self.keys[key].clone();
        match guarded(|| operation(kind, k, object)) {
            Ok(f) => {
                self.futs[op] = Some(f);
                self.poll(op);
            }
            Err(p) => ex(|e| e.finish(op, Out::Panic(p))),
        }
    }

    fn apply(&mut self, a: Act) {
        let scn = self.scn.clone();
        match a {
            Act::Start(o) => self.start(o),
            Act::Poll(o) => self.poll(o),
            Act::Answer(r, l) | Act::Head(r, l) | Act::Fault(r, l) => {
                let w = ex(|e| {
                    e.step += 1;
                    e.cur = e.reqs[r].op;
                    match a {
                        Act::Answer(..) => e.answer(r, l, None, scn.always_split && e.reqs[r].kind != Kind::SignBlob),
                        Act::Head(..) => e.answer(r, l, None, true),
                        _ => e.answer(r, 0, Some(l), false),
                    }
                });
                if let Some(w) = w {
                    w.wake();
                }
                self.settle();
            }
            Act::Body(r) => {
                let w = ex(|e| {
                    e.step += 1;
                    e.cur = e.reqs[r].op;
                    e.body(r)
                });
                if let Some(w) = w {
                    w.wake();
                }
                self.settle();
            }
            Act::Advance(k) => clock::advance(scn.advance[k]),
            Act::Rotate => ex(|e| e.account += 1),
            Act::Down(f) => ex(|e| e.down = Some(f)),
            Act::Up => ex(|e| e.down = None),
            Act::Cancel(o) => {
                ex(|e| {
                    e.step += 1;
                    e.cur = o;
                });
                let fut = self.futs[o].take();
                let r = guarded(move || drop(fut));
                self.settle();
                ex(|e| {
                    e.ops[o].st = St::Cancelled;
                    e.end_fetch(o);
                    if let Err(p) = r {
                        e.bad("C16", format!("dropping operation {o} panicked: {p}"));
                    }
                });
            }
        }
        self.last = Some(a);
    }

    fn enabled(&self, v: &mut Vec<Act>) {
        v.clear();
        let scn = &self.scn;
        let may = self.spent < scn.dev;
        ex(|e| {
            let woken: Vec<usize> = (0..e.ops.len()).filter(|&o| e.ops[o].st == St::Active && self.flags[o].get()).collect();
            let active = e.ops.iter().filter(|o| o.st == St::Active).count();
            v.extend(woken.iter().map(|&o| Act::Poll(o)));
            let open: Vec<usize> = (0..e.reqs.len()).filter(|&i| !e.reqs[i].settled && e.live(i)).collect();
            let free = woken.is_empty() || !scn.eager;
            if free {
                for &i in &open {
                    if e.reqs[i].body_due {
                        v.push(Act::Body(i));
                    } else if !e.reqs[i].answered {
                        let n = if e.reqs[i].kind == Kind::Token { scn.lives.len() } else { 1 };
                        v.extend((0..n).map(|l| Act::Answer(i, l)));
                    }
                }
                if active < scn.max_active {
                    // identical operations are interchangeable
                    for o in 0..e.ops.len() {
                        if e.ops[o].st == St::New
                            && !(0..o).any(|p| e.ops[p].st == St::New && e.ops[p].kind == e.ops[o].kind && e.ops[p].key == e.ops[o].key)
                        {
                            v.push(Act::Start(o));
                        }
                    }
                }
            }
            if scn.delay == Some(true) {
                v.sort_by_key(|a| !matches!(a, Act::Start(_)));
            }
            if v.is_empty() {
                return;
            }
            if !may {
                if scn.delay.is_some() {
                    // lifetimes remain free
                    let n = match v[0] {
                        Act::Answer(r, _) => v.iter().filter(|a| matches!(a, Act::Answer(q, _) if *q == r)).count(),
                        _ => 1,
                    };
                    v.truncate(n);
                }
                return;
            }
            if free {
                for &i in &open {
                    if !e.reqs[i].answered {
                        v.extend((0..scn.faults.min(fault_count(e.reqs[i].kind))).map(|f| Act::Fault(i, f)));
                        if scn.split && !scn.always_split {
                            let n = if e.reqs[i].kind == Kind::Token { scn.lives.len() } else { 1 };
                            v.extend((0..n).map(|l| Act::Head(i, l)));
                        }
                    }
                }
            }
            let after_advance = !scn.reduce && matches!(self.last, Some(Act::Advance(_)));
            if scn.cancel && !after_advance {
                v.extend((0..e.ops.len()).filter(|&o| e.ops[o].st == St::Active).map(Act::Cancel));
            }
            // steps of the clock commute with each other and with a change of the account
            if scn.rotate && !after_advance {
                v.push(Act::Rotate);
            }
            match e.down {
                None => v.extend((0..scn.outage).map(Act::Down)),
                Some(_) => v.push(Act::Up),
            }
            if self.last.is_some() {
                let from = if let (false, Some(Act::Advance(k))) = (scn.reduce, self.last) { k } else { 0 };
                v.extend((from..scn.advance.len()).map(Act::Advance));
            }
        })
    }

    /// One more operation on `key`, all services answering: it must succeed.
    fn probe(&mut self, kind: OpKind, key: usize, object: Option<usize>, what: &str) {
        let op = ex(|e| {
            let object = object.unwrap_or(e.ops.len());
            e.ops.push(OpSt { kind, key, object, st: St::New, started: 0, fetch: None, faulty: false, outcome: "" });
            e.ops.len() - 1
        });
        self.futs.push(None);
        self.flags.push(Flag::new());
        self.start(op);
        for _ in 0..64 {
            if ex(|e| e.ops[op].st == St::Done) {
                break;
            }
            let open = ex(|e| (0..e.reqs.len()).find(|&i| !e.reqs[i].settled && e.live(i) && (!e.reqs[i].answered || e.reqs[i].body_due)));
            match open {
                Some(i) => {
                    let a = if ex(|e| e.reqs[i].body_due) { Act::Body(i) } else { Act::Answer(i, 0) };
                    self.apply(a);
                }
                None if self.flags[op].get() => (),
                None => break,
            }
            if self.flags[op].get() {
                self.poll(op);
            }
        }
        ex(|e| {
            if e.ops[op].outcome != "ok" {
                let m = format!("an operation of key {key} {what} does not succeed: {:?}", e.ops[op].outcome);
                e.bad("C16", m);
            }
        });
    }
}

/// Executes one choice sequence: `prefix`, then the first alternative at every later choice.
pub fn execute(scn: &Rc<Scenario>, prefix: &[u16], w: &mut W) -> Run {
    clock::set(NOW);
    let mut run = Run { choices: vec![], others: vec![], redundant: false, acts: vec![], viol: vec![], diverged: false };
    EX.with(|e| {
        *e.borrow_mut() = Some(Ex {
            scn: scn.clone(),
            reqs: vec![],
            ops: scn
                .ops
                .iter()
                .enumerate()
                .map(|(object, &(kind, key))| OpSt { kind, key, object, st: St::New, started: 0, fetch: None, faulty: false, outcome: "" })
                .collect(),
            done: vec![],
            cur: 0,
            step: 0,
            account: 0,
            down: None,
            viol: vec![],
            counts: vec![],
        })
    });
    let keys = match make_keys(scn) {
        Ok(k) => k,
        Err(p) => {
            run.viol.push(("C16", format!("creating a key panicked: {p}")));
            return run;
        }
    };
    let n = scn.ops.len();
    let mut sys = System {
        scn: scn.clone(),
        keys,
        futs: (0..n).map(|_| None).collect(),
        flags: (0..n).map(|_| Flag::new()).collect(),
        spent: 0,
        last: None,
    };
    if ex(|e| !e.reqs.is_empty()) {
        ex(|e| e.bad("C17", "creating a key causes traffic".into()));
    }
    let mut acts = vec![];
    let mut stable: Vec<Act> = vec![];
    let mut sleep: HashSet<Act> = HashSet::new();
    loop {
        sys.enabled(&mut acts);
        if acts.is_empty() {
            break;
        }
        let at = run.choices.len();
        if scn.reduce {
            stable.clear();
            stable.extend(acts.iter().map(|&a| ex(|e| e.stable(a))));
        } else {
            stable.clone_from(&acts);
        }
        let awake = |i: u16| !sleep.contains(&stable[i as usize]);
        let n_acts = acts.len() as u16;
        let c = match prefix.get(at) {
            Some(&c) if c >= n_acts => {
                run.diverged = true;
                0
            }
            Some(&c) => c,
            None => match (0..n_acts).find(|&i| awake(i)) {
                Some(c) => c,
                None => {
                    run.redundant = true;
                    break;
                }
            },
        };
        let a = acts[c as usize];
        run.choices.push(c);
        run.others.push((c + 1..n_acts).filter(|&i| awake(i)).collect());
        if scn.reduce {
            let me = stable[c as usize];
            sleep.extend(stable[..c as usize].iter().copied().collect::<Vec<_>>());
            sleep.retain(|&b| ex(|e| e.independent(me, b)));
        }
        run.acts.push(a);
        let departs = scn.delay.is_some()
            && match (acts[0], a) {
                (Act::Answer(q, _), Act::Answer(r, _)) => q != r,
                (b, a) => a != b,
            };
        if departs || matches!(a, Act::Head(..) | Act::Fault(..) | Act::Advance(_) | Act::Rotate | Act::Cancel(_) | Act::Down(_) | Act::Up) {
            sys.spent += 1;
        }
        sys.apply(a);
        w.steps += 1;
        // the states of the prefix were counted by the execution that this one branched from
        if at >= prefix.len() {
            let h = ex(|e| e.state(&sys.flags));
            w.states.insert(h);
        }
        if run.choices.len() > 400 + 40 * n {
            ex(|e| e.bad("C16", format!("no end after {} steps", run.choices.len())));
            break;
        }
    }
    if !run.redundant {
        let stuck: Vec<usize> = ex(|e| (0..n).filter(|&o| e.ops[o].st == St::Active).collect());
        if !stuck.is_empty() {
            ex(|e| e.bad("C16", format!("operations {stuck:?} never complete: nothing is left that could wake them")));
        } else {
            ex(|e| e.down = None);
            if scn.repeat {
                for (o, &(kind, key)) in scn.ops.iter().enumerate() {
                    sys.probe(kind, key, Some(o), "after all others");
                }
            } else {
                for k in 0..scn.keys {
                    sys.probe(OpKind::Url, k, None, "after all others");
                }
            }
            clock::advance(2 * 3600 * S);
            for k in 0..scn.keys {
                sys.probe(OpKind::Url, k, None, "two hours later");
            }
        }
    }
    if !scn.hosts.is_empty() {
        std::env::remove_var("GCE_METADATA_HOST");
    }
    for f in sys.futs.iter_mut() {
        let f = f.take();
        let _ = guarded(move || drop(f));
    }
    let e = EX.with(|e| e.borrow_mut().take()).unwrap();
    let end = e.end();
    run.viol.extend(e.viol);
    if crate::net::calls() > 0 {
        run.viol.push(("C17", "a network call that goes round the HTTP client".into()));
    }
    if !run.diverged && !run.redundant {
        w.traces += 1;
        w.finals.insert(end);
        for c in e.counts {
            w.class(c);
        }
    }
    run
}

/// The steps of a run in words.
pub fn explain(scn: &Scenario, run: &Run) -> String {
    let mut s = format!("{}\n", scn.describe());
    for a in &run.acts {
        let l = match a {
            Act::Start(o) => format!("start operation {o} and poll it"),
            Act::Poll(o) => format!("poll operation {o}"),
            Act::Answer(r, l) => format!("answer request {r} (a token: for {} s)", scn.lives[*l]),
            Act::Head(r, l) => format!("answer request {r} (a token: for {} s), the body follows later", scn.lives[*l]),
            Act::Body(r) => format!("the body for request {r} arrives"),
            Act::Fault(r, f) => format!("request {r} fails (fault {f})"),
            Act::Advance(k) => format!("{} pass", secs(scn.advance[*k])),
            Act::Rotate => "the instance gets another default account".into(),
            Act::Cancel(o) => format!("drop operation {o}"),
            Act::Down(f) => format!("all services go down (in way {f})"),
            Act::Up => "the services are back".into(),
        };
        s.push_str("  - ");
        s.push_str(&l);
        s.push('\n');
    }
    s
}

