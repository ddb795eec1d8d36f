//! Runs the crate's public operations under the virtual clock and the mock services.
use crate::clock;
use crate::keys::{blob_signature, Material, Verifier, KEYS};
use bytes::Bytes;
use cloud_storage_signature::{
    build_signed_url, BuildSignedUrlOptions, HtmlFormData, PolicyDocumentSigningOptions, SigningKey,
};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub const NOW: i128 = 1_772_600_767 * clock::SEC + 500_000_000; // 2026-03-04T05:06:07.5Z

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
    Hang,
}

impl<T> Out<T> {
    pub fn class(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "error",
            Out::Panic(_) => "panic",
            Out::Hang => "hang",
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(t) => Some(t),
            _ => None,
        }
    }
}

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
impl Flag {
    pub fn new() -> Arc<Self> {
        Arc::new(Flag(AtomicBool::new(false)))
    }
    pub fn take(&self) -> bool {
        self.0.swap(false, SeqCst)
    }
    pub fn get(&self) -> bool {
        self.0.load(SeqCst)
    }
}

thread_local! {
    static RT: tokio::runtime::Runtime =
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    pub static WORLD: RefCell<World> = RefCell::new(World::default());
    static INSTALLED: Cell<bool> = const { Cell::new(false) };
    static BLOB: RefCell<Option<SigningKey>> = const { RefCell::new(None) };
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
}

pub fn quiet_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_CALL.with(|c| c.get()) {
            PANIC.with(|p| *p.borrow_mut() = info.to_string());
        } else {
            old(info);
        }
    }));
}

/// Lets tasks that the code under test may have spawned run.
pub fn drive() {
    RT.with(|rt| {
        rt.block_on(async {
            for _ in 0..3 {
                tokio::task::yield_now().await
            }
        })
    })
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_CALL.with(|c| c.set(true));
    let r = RT.with(|rt| {
        let _g = rt.enter();
        catch_unwind(AssertUnwindSafe(f))
    });
    IN_CALL.with(|c| c.set(false));
    r.map_err(|_| PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

fn budget_units() -> u32 {
    use tokio::task::coop::poll_proceed;
    static N: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
    *N.get_or_init(|| {
        RT.with(|rt| {
            rt.block_on(std::future::poll_fn(|cx| {
                let mut n = 0;
                while let Poll::Ready(r) = poll_proceed(cx) {
                    r.made_progress();
                    n += 1;
                    if n > 10_000 {
                        break;
                    }
                }
                Poll::Ready(n)
            }))
        })
    })
}

/// Polls as a tokio task whose cooperative budget allows one more step: the second lock that one poll
/// takes is not granted, the future is pending and woken at once. That is where another thread may run
/// between two critical sections of one poll.
pub fn poll_preempted<T>(fut: &mut Pin<Box<dyn Future<Output = T>>>, cx: &mut Context<'_>) -> Result<Poll<T>, String> {
    let n = budget_units();
    IN_CALL.with(|c| c.set(true));
    let r = RT.with(|rt| {
        rt.block_on(async {
            let r = std::future::poll_fn(|tcx| {
                for _ in 1..n {
                    if let Poll::Ready(r) = tokio::task::coop::poll_proceed(tcx) {
                        r.made_progress();
                    }
                }
                Poll::Ready(catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(cx))))
            })
            .await;
            // the wake-up of a preempted future comes when the scheduler goes on
            tokio::task::yield_now().await;
            r
        })
    });
    IN_CALL.with(|c| c.set(false));
    r.map_err(|_| PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

/// Runs a future whose environment always answers; `Hang` when it waits for something that never comes.
pub fn run<T, E: std::fmt::Display>(make: impl FnOnce() -> Pin<Box<dyn Future<Output = Result<T, E>>>>) -> Out<T> {
    let mut fut = match guarded(make) {
        Ok(f) => f,
        Err(p) => return Out::Panic(p),
    };
    let flag = Flag::new();
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    loop {
        let r = match guarded(|| fut.as_mut().poll(&mut cx)) {
            Ok(r) => r,
            Err(p) => {
                let _ = guarded(move || drop(fut));
                return Out::Panic(p);
            }
        };
        match r {
            Poll::Ready(Ok(v)) => {
                let _ = guarded(move || drop(fut));
                return Out::Ok(v);
            }
            Poll::Ready(Err(e)) => {
                return match guarded(|| e.to_string()) {
                    Ok(s) => Out::Err(s),
                    Err(p) => Out::Panic(p),
                }
            }
            Poll::Pending => {
                if !flag.take() {
                    drive();
                    if !flag.take() {
                        let _ = guarded(move || drop(fut));
                        return Out::Hang;
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- mock services

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rec {
    pub method: String,
    pub uri: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
}

pub fn record(req: &http::Request<reqwest::Body>) -> Rec {
    Rec {
        method: req.method().to_string(),
        uri: req.uri().to_string(),
        headers: req.headers().iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect(),
        body: req.body().as_bytes().map(|b| b.to_vec()).unwrap_or_default(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Reply {
    /// status, extra headers, body
    Http(u16, Vec<(&'static str, Vec<u8>)>, Vec<u8>),
    TransportError,
    /// headers arrive, the body breaks off with an error after these bytes
    BodyError(u16, Vec<u8>),
    /// 200, the body in frames of these sizes (repeated; 0: an empty frame), each one after a wait
    Pieces(Vec<usize>, Vec<u8>),
}

struct Pieces {
    left: Bytes,
    sizes: Vec<usize>,
    next: usize,
    waited: bool,
}
impl http_body::Body for Pieces {
    type Data = Bytes;
    type Error = std::io::Error;
    fn poll_frame(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
    ) -> Poll<Option<Result<http_body::Frame<Bytes>, std::io::Error>>> {
        if !std::mem::replace(&mut self.waited, true) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.waited = false;
        if self.left.is_empty() {
            return Poll::Ready(None);
        }
        let n = self.sizes[self.next % self.sizes.len()].min(self.left.len());
        self.next += 1;
        Poll::Ready(Some(Ok(http_body::Frame::data(self.left.split_to(n)))))
    }
}

pub struct Broken(pub Option<Bytes>);
impl http_body::Body for Broken {
    type Data = Bytes;
    type Error = std::io::Error;
    fn poll_frame(
        mut self: Pin<&mut Self>,
        _: &mut Context<'_>,
    ) -> Poll<Option<Result<http_body::Frame<Bytes>, std::io::Error>>> {
        Poll::Ready(Some(match self.0.take() {
            Some(b) if !b.is_empty() => Ok(http_body::Frame::data(b)),
            _ => Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "connection reset")),
        }))
    }
}

impl Reply {
    pub fn json(v: String) -> Reply {
        Reply::Http(200, vec![("content-type", b"application/json".to_vec())], v.into_bytes())
    }
    pub fn text(v: &str) -> Reply {
        Reply::Http(200, vec![("content-type", b"application/text".to_vec())], v.as_bytes().to_vec())
    }
    pub fn response(self) -> Result<http::Response<reqwest::Body>, reqwest::mc::BoxError> {
        match self {
            Reply::TransportError => {
                Err(Box::new(std::io::Error::new(std::io::ErrorKind::ConnectionRefused, "connection refused")))
            }
            Reply::Http(status, headers, body) => {
                let mut b = http::Response::builder().status(status);
                for (k, v) in headers {
                    b = b.header(k, http::HeaderValue::from_bytes(&v).unwrap());
                }
                Ok(b.body(reqwest::Body::from(body)).unwrap())
            }
            Reply::Pieces(sizes, body) => {
                Ok(http::Response::new(reqwest::Body::wrap(Pieces { left: Bytes::from(body), sizes, next: 0, waited: false })))
            }
            Reply::BodyError(status, bytes) => Ok(http::Response::builder()
                .status(status)
                .body(reqwest::Body::wrap(Broken(Some(Bytes::from(bytes)))))
                .unwrap()),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Email,
    Token,
    SignBlob,
    Other,
}

pub const METADATA_HOST: &str = "metadata.google.internal";
pub const BLOB_EMAIL: &str = "blob@p.iam.gserviceaccount.com";

pub fn kind(r: &Rec) -> Kind {
    let path = r.uri.split_once("://").map(|x| x.1).and_then(|x| x.find('/').map(|i| &x[i..])).unwrap_or("");
    match path {
        "/computeMetadata/v1/instance/service-accounts/default/email" => Kind::Email,
        "/computeMetadata/v1/instance/service-accounts/default/token" => Kind::Token,
        p if p.starts_with("/v1/projects/-/serviceAccounts/") && p.ends_with(":signBlob") => Kind::SignBlob,
        _ => Kind::Other,
    }
}

/// The account a signBlob request names and the payload it carries.
pub fn sign_blob_request(r: &Rec) -> Option<(String, Vec<u8>)> {
    let path = r.uri.strip_prefix("https://iamcredentials.googleapis.com/v1/projects/-/serviceAccounts/")?;
    let account = crate::gcs::decode(path.strip_suffix(":signBlob")?).ok()?;
    let account = String::from_utf8(account).ok()?;
    let body: serde_json::Value = serde_json::from_slice(&r.body).ok()?;
    let payload = body.as_object()?.get("payload")?.as_str()?;
    let payload = base64::Engine::decode(&base64::engine::general_purpose::STANDARD, payload).ok()?;
    Some((account, payload))
}

pub fn token_json(token: &str, expires_in: &str) -> String {
    format!(r#"{{"access_token":"{token}","expires_in":{expires_in},"token_type":"Bearer"}}"#)
}

pub fn blob_json(account: &str, payload: &[u8]) -> String {
    format!(
        r#"{{"keyId":"0123456789abcdef","signedBlob":"{}"}}"#,
        base64::Engine::encode(&base64::engine::general_purpose::STANDARD, blob_signature(account, payload))
    )
}

/// Immediate, correct answers (unless overridden per request kind); records all traffic.
pub struct World {
    pub email: String,
    pub token: String,
    pub expires_in: String,
    pub log: Vec<Rec>,
    pub over: [Option<Reply>; 3],
}

impl Default for World {
    fn default() -> Self {
        World {
            email: BLOB_EMAIL.into(),
            token: "ya29.token".into(),
            expires_in: "3600".into(),
            log: vec![],
            over: [None, None, None],
        }
    }
}

fn answer(req: http::Request<reqwest::Body>) -> reqwest::mc::Answer {
    let rec = record(&req);
    let k = kind(&rec);
    let reply = WORLD.with(|w| {
        let mut w = w.borrow_mut();
        w.log.push(rec.clone());
        if let Some(r) = w.over.get(k as usize).and_then(|o| o.clone()) {
            return r;
        }
        match k {
            Kind::Email => Reply::text(&w.email),
            Kind::Token => Reply::json(token_json(&w.token, &w.expires_in)),
            Kind::SignBlob => match sign_blob_request(&rec) {
                Some((account, payload)) => Reply::json(blob_json(&account, &payload)),
                None => Reply::Http(400, vec![], b"bad request".to_vec()),
            },
            Kind::Other => Reply::Http(404, vec![], b"not found".to_vec()),
        }
    });
    Box::pin(async move { reply.response() })
}

/// Installs the mock services and the default time on this thread.
pub fn init() {
    if !INSTALLED.with(|i| i.replace(true)) {
        reqwest::mc::set_transport(Some(Rc::new(answer)));
    }
    WORLD.with(|w| *w.borrow_mut() = World::default());
    clock::set(NOW);
}

pub fn traffic() -> Vec<Rec> {
    WORLD.with(|w| w.borrow().log.clone())
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Key {
    /// index into keys::KEYS, identity
    Rsa(usize, String),
    /// identity, private key text
    Text(String, String),
    Hmac(String, String),
    /// this thread's long-lived bound-token key
    Blob,
    /// a bound-token key made for this call
    FreshBlob,
}

impl Key {
    pub fn rsa() -> Key {
        Key::Rsa(0, "signer@p.iam.gserviceaccount.com".into())
    }
    pub fn make(&self) -> SigningKey {
        match self {
            Key::Rsa(k, id) => SigningKey::service_account(id.clone(), KEYS[*k].pem.to_string()),
            Key::Text(id, pem) => SigningKey::service_account(id.clone(), pem.clone()),
            Key::Hmac(a, b) => SigningKey::hmac(a.clone(), b.clone()),
            Key::Blob => BLOB.with(|b| b.borrow_mut().get_or_insert_with(SigningKey::bound_token).clone()),
            Key::FreshBlob => SigningKey::bound_token(),
        }
    }
    pub fn identity(&self) -> String {
        match self {
            Key::Rsa(_, id) | Key::Text(id, _) | Key::Hmac(id, _) => id.clone(),
            Key::Blob => BLOB_EMAIL.into(),
            Key::FreshBlob => WORLD.with(|w| w.borrow().email.clone()),
        }
    }
    pub fn verifier(&self) -> Verifier {
        Verifier {
            identity: self.identity(),
            material: match self {
                Key::Rsa(k, _) => Material::Rsa(*k),
                _ => Material::Blob,
            },
        }
    }
    pub fn blob(&self) -> bool {
        matches!(self, Key::Blob | Key::FreshBlob)
    }
}

pub type Strs = Vec<(String, String)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct UrlCase {
    pub bucket: String,
    pub object: String,
    pub region: Option<String>,
    /// nanoseconds since 1970
    pub at: Option<i128>,
    pub expires: i128,
    pub method: String,
    pub key: Key,
    pub sign_blob: bool,
    pub headers: Strs,
    pub query: Strs,
}

impl UrlCase {
    pub fn base() -> Self {
        UrlCase {
            bucket: "example-bucket".into(),
            object: "cat-pics/tabby.jpeg".into(),
            region: None,
            at: None,
            expires: NOW + 3600 * clock::SEC,
            method: "GET".into(),
            key: Key::Blob,
            sign_blob: true,
            headers: vec![],
            query: vec![],
        }
    }
    pub fn key(mut self, key: Key) -> Self {
        self.sign_blob = key.blob();
        self.key = key;
        self
    }
    pub fn options(&self) -> BuildSignedUrlOptions {
        BuildSignedUrlOptions {
            bucket_name: self.bucket.clone(),
            object_name: self.object.clone(),
            region: self.region.clone(),
            expires: clock::time(self.expires),
            http_method: self.method.clone(),
            accessible_at: self.at.map(clock::time),
            signing_key: self.key.make(),
            use_sign_blob: self.sign_blob,
            headers: self.headers.clone(),
            query_parameters: self.query.clone(),
        }
    }
    /// Runs build_signed_url under the clock and services installed on this thread.
    pub fn run(&self) -> Out<String> {
        let o = match guarded(|| self.options()) {
            Ok(o) => o,
            Err(p) => return Out::Panic(p),
        };
        run(|| Box::pin(build_signed_url(o)))
    }
    /// The request a client makes with the URL: the signed method and headers, and Host.
    pub fn request(&self, url: &str) -> crate::gcs::Request {
        let mut headers = self.headers.clone();
        if !headers.iter().any(|(k, _)| k.eq_ignore_ascii_case("host")) {
            headers.push(("Host".into(), crate::gcs::HOST.into()));
        }
        crate::gcs::Request { method: self.method.clone(), url: url.into(), headers }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Sign {
    pub at: Option<i128>,
    pub expiration: i128,
    pub region: Option<String>,
    pub key: Key,
    pub sign_blob: bool,
}

impl Sign {
    pub fn base() -> Self {
        Sign { at: None, expiration: NOW + 3600 * clock::SEC, region: None, key: Key::Blob, sign_blob: true }
    }
    pub fn key(mut self, key: Key) -> Self {
        self.sign_blob = key.blob();
        self.key = key;
        self
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Set {
    Acl(String),
    Bucket(String),
    CacheControl(String),
    ContentDisposition(String),
    ContentEncoding(String),
    ContentLength(u64),
    ContentType(String),
    Expires(String),
    Key(String),
    SuccessActionRedirect(String),
    SuccessActionStatus(u16),
    CustomTime(String),
    Meta(String, String),
    Sign(Sign),
}

/// Names of the single-valued fields of a form in their documented order.
pub const ORDER: [&str; 17] = [
    "acl",
    "bucket",
    "Cache-Control",
    "Content-Disposition",
    "Content-Encoding",
    "Content-Length",
    "Content-Type",
    "Expires",
    "key",
    "policy",
    "success_action_redirect",
    "success_action_status",
    "x-goog-algorithm",
    "x-goog-credential",
    "x-goog-custom-time",
    "x-goog-date",
    "x-goog-signature",
];

pub type Form = Vec<(String, String)>;

pub fn run_form(sets: &[Set]) -> Out<Form> {
    let made = guarded(|| {
        let mut b = HtmlFormData::builder();
        for s in sets {
            b = match s.clone() {
                Set::Acl(v) => b.acl(v),
                Set::Bucket(v) => b.bucket(v),
                Set::CacheControl(v) => b.cache_control(v),
                Set::ContentDisposition(v) => b.content_disposition(v),
                Set::ContentEncoding(v) => b.content_encoding(v),
                Set::ContentLength(v) => b.content_length(v),
                Set::ContentType(v) => b.content_type(v),
                Set::Expires(v) => b.expires(v),
                Set::Key(v) => b.key(v),
                Set::SuccessActionRedirect(v) => b.success_action_redirect(v),
                Set::SuccessActionStatus(v) => b.success_action_status(v),
                Set::CustomTime(v) => b.x_goog_custom_time(v),
                Set::Meta(n, v) => b.x_goog_meta(n, v),
                Set::Sign(s) => b.policy_document_signing_options(PolicyDocumentSigningOptions {
                    accessible_at: s.at.map(clock::time),
                    expiration: clock::time(s.expiration),
                    region: s.region.clone(),
                    signing_key: s.key.make(),
                    use_sign_blob: s.sign_blob,
                }),
            };
        }
        b
    });
    match made {
        Err(p) => Out::Panic(p),
        Ok(b) => match run(|| Box::pin(b.build())) {
            Out::Ok(f) => match guarded(|| f.into_vec()) {
                Ok(v) => Out::Ok(v),
                Err(p) => Out::Panic(p),
            },
            Out::Err(e) => Out::Err(e),
            Out::Panic(p) => Out::Panic(p),
            Out::Hang => Out::Hang,
        },
    }
}

/// What the builder holds after the calls: last value of single-valued fields, all metadata.
#[derive(Clone, Debug, Default)]
pub struct Built {
    pub single: std::collections::BTreeMap<&'static str, String>,
    pub meta: Vec<(String, String)>,
    pub sign: Option<Sign>,
}

pub fn built(sets: &[Set]) -> Built {
    let mut b = Built::default();
    for s in sets {
        let (n, v) = match s {
            Set::Acl(v) => ("acl", v.clone()),
            Set::Bucket(v) => ("bucket", v.clone()),
            Set::CacheControl(v) => ("Cache-Control", v.clone()),
            Set::ContentDisposition(v) => ("Content-Disposition", v.clone()),
            Set::ContentEncoding(v) => ("Content-Encoding", v.clone()),
            Set::ContentLength(v) => ("Content-Length", v.to_string()),
            Set::ContentType(v) => ("Content-Type", v.clone()),
            Set::Expires(v) => ("Expires", v.clone()),
            Set::Key(v) => ("key", v.clone()),
            Set::SuccessActionRedirect(v) => ("success_action_redirect", v.clone()),
            Set::SuccessActionStatus(v) => ("success_action_status", v.to_string()),
            Set::CustomTime(v) => ("x-goog-custom-time", v.clone()),
            Set::Meta(n, v) => {
                b.meta.push((n.clone(), v.clone()));
                continue;
            }
            Set::Sign(s) => {
                b.sign = Some(s.clone());
                continue;
            }
        };
        b.single.insert(n, v);
    }
    b
}
