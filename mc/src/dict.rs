//! Words that mean something to some part of the system, or to something near it.
use crate::keys::KEYS;
use std::sync::LazyLock;

pub const PLAIN: &[&str] = &[
    // templates
    "${filename}", "${key}", "$key", "$content-type", "$x-goog-meta-a", "{}", "{0}", "{name}", "%s", "%%", "$$", "\\0", "\\n", "\\u0041", "\\\\", "&amp;", "&#65;",
    // encodings
    "%41", "%2F", "%2f", "%25", "%00", "%0A", "%E3%81%82", "%zz", "+", "%20", "=?utf-8?q?a?=", "xn--eckwd4c7c.jp", "AAAA", "YQ==", "_-", "a=b&c=d", "a;b", "a,b",
    // names of this service
    "storage.googleapis.com", "storage.cloud.google.com", "http://storage.googleapis.com/", "https://", "//", "metadata.google.internal", "169.254.169.254", "goog4_request", "GOOG4-RSA-SHA256", "GOOG4-HMAC-SHA256",
    "AWS4-HMAC-SHA256", "X-Goog-Signature", "x-goog-signature", "X-Goog-Expires", "X-Goog-Date", "X-Amz-Date", "x-goog-resumable", "UNSIGNED-PAYLOAD", "GoogleAccessId", "Signature", "Expires", "policy", "bucket", "key", "acl",
    "file", "eq", "starts-with", "content-length-range", "x-goog-meta-", "x-ignore-", "x-goog-encryption-key", "x-goog-acl", "x-goog-hash", "host", "Host", "content-type", "Content-Length", "Authorization", "public-read", "bucket-owner-full-control",
    "authenticated-read", "example-bucket", "example-object", "google", "goog", "googel", "cat-pics/tabby.jpeg", "bucket_name1", "b", "o", "gs://b/o", "_ah", ".well-known", "upload", "storage", "v1", "auto", "us", "us-central1", "global", "default", "asia",
    // values of headers and parameters
    "text/plain", "application/octet-stream", "multipart/form-data", "application/x-www-form-urlencoded", "text/html; charset=utf-8", "gzip", "identity", "chunked", "*", "*/*", "no-cache", "bytes=0-10", "\"etag\"", "W/\"e\"", "attachment",
    "Mon, 02 Jan 2006 15:04:05 GMT", "2006-01-02T15:04:05Z", "20060102T150405Z", "GET", "PUT", "POST", "start", "Bearer", "generation", "uploads", "prefix", "versions", "cors", "compose", "response-content-type", "userProject", "alt", "media",
    "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "d41d8cd98f00b204e9800998ecf8427e",
    // values of other languages
    "null", "nil", "None", "true", "false", "undefined", "NaN", "0", "-1", "00", "1e3", "+1", "0x10", "18446744073709551616", "1.0", "[]", "[\"a\"]", "{\"a\":\"b\"}", "<script>", "]]>", "';--", "\"", "'", "`id`", "~", "#!", "C:\\", "CON", "index.html",
    // paths
    ".", "..", "/", "/.", "/..", "./", "../", "a/../b", "...", ".git", "..;", "%2e%2e",
    // spaces and controls
    " ", "  ", "\t", "\n", "\r\n", "\u{b}", "\u{85}", "\u{a0}", "\u{3000}", "\u{200b}", "\u{feff}", "\u{202e}", "\u{1b}[0m", "\0",
    // letters that change their form
    "\u{130}", "\u{131}", "\u{df}", "\u{fb01}", "\u{212a}", "\u{17f}", "\u{e9}", "e\u{301}", "\u{1e9b}\u{323}", "\u{ac00}", "\u{1100}\u{1161}", "\u{ff41}", "\u{2215}", "\u{ff0f}", "\u{ff0e}", "\u{1f1ef}\u{1f1f5}", "\u{1f468}\u{200d}\u{1f469}", "\u{10ffff}",
    "\u{5d0}", "\u{3c3}\u{3c2}", "\u{1c5}",
];

/// The words, and each in upper and lower case.
pub static WORDS: LazyLock<Vec<String>> = LazyLock::new(|| {
    let mut v: Vec<String> = vec![];
    for w in PLAIN {
        for x in [w.to_string(), w.to_uppercase(), w.to_lowercase()] {
            if !v.contains(&x) {
                v.push(x);
            }
        }
    }
    v
});

const AROUND: [(&str, &str); 9] = [("", ""), ("a", ""), ("", "a"), ("a/", ""), ("", "/a"), (" ", ""), ("", " "), ("x-", "-x"), ("\"", "\"")];

/// Number of phrases: a word within something, or a word and a plain word.
pub fn phrases() -> u64 {
    WORDS.len() as u64 * (AROUND.len() as u64 + PLAIN.len() as u64)
}

pub fn phrase(i: u64) -> String {
    let n = WORDS.len() as u64;
    let w = &WORDS[(i % n) as usize];
    match (i / n) as usize {
        j if j < AROUND.len() => format!("{}{w}{}", AROUND[j].0, AROUND[j].1),
        j => format!("{w}{}", PLAIN[j - AROUND.len()]),
    }
}

/// Texts that are kept as secrets by someone, for where they do not belong.
pub fn texts() -> Vec<String> {
    let mut v: Vec<String> = KEYS.iter().map(|k| k.pem.to_string()).collect();
    v.extend([crate::keys::RSA1024, crate::keys::EC256, crate::keys::PKCS1].map(String::from));
    v.push(v[0].trim_end().to_string());
    v.push(v[0].replace('\n', "\\n"));
    v.push(v[0].lines().filter(|l| !l.starts_with('-')).collect());
    v.push(serde_json::json!({"type": "service_account", "client_email": "signer@p.iam.gserviceaccount.com", "private_key": KEYS[0].pem}).to_string());
    v.push("signer@p.iam.gserviceaccount.com".into());
    v.push("bGoa+V7g/yqDXvKRqq+JTFn4uQZbPiQJo4pf9RzJ".into());
    v.push("ya29.a0AfH6SMA".into());
    v
}
