//! The bounded spaces of signed-URL option sets that several properties are checked on.
use crate::exec::{Key, Strs, UrlCase};
use crate::fw::{scalar, seq, seq_count, Ix, SCALARS};

pub struct Domain {
    pub name: &'static str,
    pub what: String,
    pub n: u64,
    pub gen: Box<dyn Fn(u64) -> UrlCase + Sync>,
}

/// One representative of every class of character that URL syntax, the canonicalisation rules or
/// the parsers on the way treat differently.
pub const ALPHABET: [&str; 50] = [
    "a", "/", ".", "%", "?", "#", "&", "=", "+", " ", ";", ":", "@", "\\", "~", "-", "_", "0", "2", "F", "E", "A", "!", "$",
    "'", "(", ")", "*", ",", "[", "]", "\"", "<", ">", "^", "`", "{", "|", "}", "\t", "\n", "\r", "\0", "\x7f", "\u{80}",
    "é", "あ", "\u{2028}", "\u{feff}", "😀",
];

/// The reduced alphabet for longer strings.
pub const SMALL: [&str; 14] = ["a", "/", ".", "%", "2", "e", "?", "#", "&", "=", "+", " ", "\\", "é"];

pub fn word(alphabet: &[&str], i: u64) -> String {
    seq(alphabet.len() as u64, i).into_iter().map(|j| alphabet[j]).collect()
}

pub const NAMES: [&str; 16] = [
    "", "a", "a-b", "a+", "a b", "a=b", "a&b", "A", "b", "~", "é", "%41", "a%2Fb", "X-Goog", "x-goog-date", "response-content-disposition",
];
pub const VALUES: [&str; 16] = [
    "", "1", "2", "a b", "a+b", "a/b", "a&b=c", "=", "%", "%20", "é", "~", "'", "a\tb", "\n", "attachment; filename=\"a b.txt\"",
];

pub const HNAMES: [&str; 12] = [
    "Content-Type", "content-type", "x-goog-meta-a", "X-GOOG-META-A", "x-goog-meta-B", "x-goog-acl", "Content-MD5", "a", "z!#$%&'*+-.^_`|~0", "Zz",
    "x-goog-content-sha256", "Accept",
];
pub const HVALUES: [&str; 13] = [
    "text/plain", "", " ", "v", " v", "v ", "a b", "a  b", "a\tb", " \t a \t \t b  c\t", "x,y", "a:b;c=\"d\"", "UNSIGNED-PAYLOAD",
];

fn cross(names: &[&'static str], values: &[&'static str]) -> Vec<(&'static str, &'static str)> {
    names.iter().flat_map(|n| values.iter().map(move |v| (*n, *v))).collect()
}

fn owned(v: &[(&str, &str)]) -> Strs {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn list(pool: &[(&'static str, &'static str)], i: u64) -> Strs {
    seq(pool.len() as u64, i).into_iter().map(|j| (pool[j].0.to_string(), pool[j].1.to_string())).collect()
}

pub const METHODS: [&str; 5] = ["DELETE", "GET", "HEAD", "POST", "PUT"];
const BUCKETS: [&str; 6] = ["example-bucket", "b", "my_bucket.example.com", "b b", "é%", "x/y"];
const OBJECTS: [&str; 8] = ["o", "cat-pics/tabby.jpeg", "", "a b+c?d#e", "100%/../x", "あ/😀.txt", "//a//", "a!'()*,;:@&=$[]"];
const REGIONS: [Option<&str>; 6] = [None, Some("auto"), Some("us-central1"), Some("ASIA"), Some(""), Some("é +/%")];
const IDENTITIES: [&str; 6] = [
    "signer@p.iam.gserviceaccount.com",
    "service_account_name1",
    "a+b c/d%2F@example.com",
    "é@例え.jp",
    "",
    "a&b=c?d#e@x",
];

fn some(s: Option<&str>) -> Option<String> {
    s.map(|s| s.to_string())
}

pub fn domains(thorough: bool) -> Vec<Domain> {
    let mut v: Vec<Domain> = vec![];
    let mut add = |name, what: String, n, gen: Box<dyn Fn(u64) -> UrlCase + Sync>| v.push(Domain { name, what, n, gen });

    // every Unicode scalar value in every text position at once, and alone in the object name
    add(
        "scalars",
        "every Unicode scalar value c: bucket c, object xcy, query (c,c),(xc,cy)".into(),
        SCALARS,
        Box::new(|i| {
            let c = scalar(i);
            let mut u = UrlCase::base();
            u.bucket = format!("b{c}");
            u.object = format!("x{c}y");
            u.query = vec![(c.to_string(), c.to_string()), (format!("x{c}"), format!("{c}y"))];
            u
        }),
    );
    add(
        "scalar-alone",
        "every Unicode scalar value c: object c at the end of the path; bucket c".into(),
        SCALARS,
        Box::new(|i| {
            let c = scalar(i);
            let mut u = UrlCase::base();
            u.bucket = c.to_string();
            u.object = c.to_string();
            u
        }),
    );
    // strings over the full alphabet
    let k = ALPHABET.len() as u64;
    let len = 3;
    add(
        "object-words",
        format!("object: every string of length <= {len} over the {k}-symbol alphabet"),
        seq_count(k, len),
        Box::new(|i| {
            let mut u = UrlCase::base();
            u.object = word(&ALPHABET, i);
            u
        }),
    );
    let len = if thorough { 3 } else { 2 };
    add(
        "bucket-words",
        format!("bucket: every string of length <= {len} over the {k}-symbol alphabet, with objects '', o, ../o"),
        seq_count(k, len) * 3,
        Box::new(|i| {
            let mut x = Ix(i);
            let mut u = UrlCase::base();
            u.object = x.pick(&["", "o", "../o"]).to_string();
            u.bucket = word(&ALPHABET, x.0);
            u
        }),
    );
    let ks = SMALL.len() as u64;
    let len = if thorough { 6 } else { 5 };
    add(
        "object-long-words",
        format!("object: every string of length <= {len} over {ks} URL-significant symbols"),
        seq_count(ks, len),
        Box::new(|i| {
            let mut u = UrlCase::base();
            u.object = word(&SMALL, i);
            u
        }),
    );
    // words that mean something
    let np = crate::dict::phrases();
    add(
        "dictionary",
        format!("{np} phrases of words that mean something: as bucket, object, query name or value, header name or value, region"),
        np * 7,
        Box::new(move |i| {
            let mut x = Ix(i);
            let f = x.n(7);
            let p = crate::dict::phrase(x.0);
            let mut u = UrlCase::base();
            match f {
                0 => u.bucket = p,
                1 => u.object = p,
                2 => u.query = vec![("a".into(), "1".into()), (p, "v".into())],
                3 => u.query = vec![("q".into(), p), ("z".into(), "1".into())],
                4 => u.headers = vec![("m".into(), "1".into()), (p, "v".into())],
                5 => u.headers = vec![("x-goog-meta-a".into(), p)],
                _ => u.region = Some(p),
            }
            u
        }),
    );
    let nw = crate::dict::PLAIN.len() as u64;
    add(
        "dictionary-pairs",
        format!("{nw} x {nw} words as: bucket and object, name and value of a query parameter, two names or values, name and value of a header"),
        nw * nw * 5,
        Box::new(move |i| {
            let mut x = Ix(i);
            let f = x.n(5);
            let [a, b] = [x.n(nw), x.n(nw)].map(|j| crate::dict::PLAIN[j as usize].to_string());
            let mut u = UrlCase::base();
            match f {
                0 => (u.bucket, u.object) = (a, b),
                1 => u.query = vec![(a, b)],
                2 => u.query = vec![(a, "1".into()), (b, "1".into())],
                3 => u.query = vec![("n".into(), a), ("n".into(), b)],
                _ => u.headers = vec![(a, b)],
            }
            u
        }),
    );
    // segments: dots, encoded dots and empties
    let segs = [".", "..", "", "a", "%2e", "%2E%2e", "...", ".a", "..%2f", " ", "a.", "\\", "..\\"];
    let len = if thorough { 5 } else { 4 };
    add(
        "segments",
        format!("object: every path of <= {len} segments out of {}, x 3 buckets", segs.len()),
        seq_count(segs.len() as u64, len) * 3,
        Box::new(move |i| {
            let mut x = Ix(i);
            let mut u = UrlCase::base();
            u.bucket = x.pick(&["b", "", ".."]).to_string();
            u.object = seq(segs.len() as u64, x.0).into_iter().map(|j| segs[j]).collect::<Vec<_>>().join("/");
            u
        }),
    );
    // query words
    let len = if thorough { 3 } else { 2 };
    add(
        "query-words",
        format!("one query parameter (w, v) with w every string of length <= {len} over the alphabet, v of <= 1, and swapped"),
        seq_count(k, len) * seq_count(k, 1) * 2,
        Box::new(move |i| {
            let mut x = Ix(i);
            let swap = x.flag();
            let v = word(&ALPHABET, x.n(seq_count(50, 1)));
            let w = word(&ALPHABET, x.0);
            let mut u = UrlCase::base();
            u.query = vec![if swap { (v, w) } else { (w, v) }];
            u
        }),
    );
    let pool = cross(&NAMES, &VALUES);
    let n = pool.len() as u64;
    add(
        "query-lists",
        format!("every list of <= 2 query parameters out of {n}"),
        seq_count(n, 2),
        Box::new(move |i| {
            let mut u = UrlCase::base();
            u.query = list(&pool, i);
            u
        }),
    );
    let pool3 = if thorough {
        cross(&["", "a", "a-b", "a b", "A", "a%", "b", "X-Goog-Z"], &["", "1", " ", "/", "-", "é"])
    } else {
        cross(&["a", "a-b", "a b", "A"], &["", "1", "/", "é"])
    };
    let n = pool3.len() as u64;
    add(
        "query-triples",
        format!("every list of <= 3 query parameters out of {n}"),
        seq_count(n, 3),
        Box::new(move |i| {
            let mut u = UrlCase::base();
            u.query = list(&pool3, i);
            u
        }),
    );
    // header lists
    let pool = cross(&HNAMES, &HVALUES);
    let n = pool.len() as u64;
    add(
        "header-lists",
        format!("every list of <= 2 headers out of {n}"),
        seq_count(n, 2),
        Box::new(move |i| {
            let mut u = UrlCase::base();
            u.headers = list(&pool, i);
            u
        }),
    );
    let pool3 = if thorough {
        cross(&["a", "A", "Content-Type", "x-goog-meta-a", "z", "x-goog-content-sha256"], &["", "1", " 2  3 ", "x,y", "\t"])
    } else {
        cross(&["a", "A", "Content-Type", "z"], &["1", " 2  3 ", "x,y", ""])
    };
    let n = pool3.len() as u64;
    add(
        "header-triples",
        format!("every list of <= 3 headers out of {n}"),
        seq_count(n, 3),
        Box::new(move |i| {
            let mut u = UrlCase::base();
            u.headers = list(&pool3, i);
            u
        }),
    );
    // header value words
    let hv = [" ", "\t", "a", ",", "\"", ";", ":", "~", "%", "B", "0", "="];
    let len = if thorough { 6 } else { 5 };
    add(
        "header-value-words",
        format!("header value: every string of length <= {len} over {} symbols", hv.len()),
        seq_count(hv.len() as u64, len),
        Box::new(move |i| {
            let mut u = UrlCase::base();
            u.headers = vec![("x-goog-meta-a".into(), word(&hv, i))];
            u
        }),
    );
    add(
        "header-bytes",
        "every ASCII character in a header name and in a header value (alone, first, middle, last), x 4 names".into(),
        128 * 4 * 4 * 2,
        Box::new(|i| {
            let mut x = Ix(i);
            let c = x.n(128) as u8 as char;
            let s = match x.n(4) {
                0 => format!("{c}"),
                1 => format!("{c}b"),
                2 => format!("a{c}b"),
                _ => format!("a{c}"),
            };
            let other = *x.pick(&["x-goog-meta-k", "Content-Type", "k", "Accept"]);
            let mut u = UrlCase::base();
            u.headers = if x.flag() { vec![(other.into(), s)] } else { vec![(s, other.into()), (other.into(), "v".into())] };
            u
        }),
    );
    let hosts = ["storage.googleapis.com", "example.com", " storage.googleapis.com ", "STORAGE.googleapis.com:443", ""];
    add(
        "host-header",
        "an explicit Host header in 4 spellings x 5 values x other headers before/after".into(),
        4 * 5 * 4,
        Box::new(move |i| {
            let mut x = Ix(i);
            let name = x.pick(&["Host", "host", "HOST", "hOsT"]).to_string();
            let value = x.pick(&hosts).to_string();
            let mut u = UrlCase::base();
            u.headers = vec![(name, value)];
            if x.flag() {
                u.headers.insert(0, ("a".into(), "1".into()));
            }
            if x.flag() {
                u.headers.push(("x-host".into(), "2".into()));
            }
            u
        }),
    );
    // sizes
    add(
        "lengths",
        "object lengths 0..=4096; bucket lengths; query value lengths; header value lengths (each 0..=1100)".into(),
        4097 + 3 * 1101,
        Box::new(|i| {
            let mut u = UrlCase::base();
            let i = i as usize;
            if i < 4097 {
                u.object = "a/b c".chars().cycle().take(i).collect();
            } else {
                let (j, l) = ((i - 4097) / 1101, (i - 4097) % 1101);
                let s: String = "a b-%é".chars().cycle().take(l).collect();
                match j {
                    0 => u.bucket = s,
                    1 => u.query = vec![("q".into(), s.clone()), (s, "q".into())],
                    _ => u.headers = vec![("x-goog-meta-a".into(), "a  b".chars().cycle().take(l).collect())],
                }
            }
            u
        }),
    );
    let counts = if thorough { 600 } else { 200 };
    add(
        "counts",
        format!("0..={counts} query parameters, distinct headers, repeated headers"),
        (counts + 1) * 3,
        Box::new(move |i| {
            let mut x = Ix(i);
            let kind = x.n(3);
            let mut u = UrlCase::base();
            for j in 0..x.0 {
                // visit in an order that is not sorted
                let j = (j * 7919) % 1009;
                match kind {
                    0 => u.query.push((format!("k{}", j % 97), format!("v{j}"))),
                    1 => u.headers.push((format!("X-{j}"), format!("v{j}"))),
                    _ => u.headers.push((["x-a", "X-B"][j as usize % 2].into(), format!(" v{j} "))),
                }
            }
            u
        }),
    );
    // product of everything, signed through signBlob
    let hlists: Vec<Strs> = vec![
        vec![],
        owned(&[("Content-Type", "text/plain")]),
        owned(&[("x-goog-meta-reviewer", "jane"), ("X-Goog-Meta-Reviewer", "john")]),
        owned(&[("b", " 1  2 "), ("a", ""), ("B", "x")]),
        owned(&[("x-goog-content-sha256", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")]),
        owned(&[("host", "storage.googleapis.com"), ("Content-MD5", "1B2M2Y8AsgTpgAmY7PhCfg==")]),
    ];
    let qlists: Vec<Strs> = vec![
        vec![],
        owned(&[("generation", "1360887697105000"), ("userProject", "my-project")]),
        owned(&[("a-b", "1"), ("a", "2"), ("a", "1")]),
        owned(&[("response-content-disposition", "attachment; filename=\"あ b.txt\"")]),
        owned(&[("z", ""), ("", "z"), ("A", "/"), ("X-Goog-Z", "1")]),
        owned(&[("x-goog-signature", "q"), ("Y", "%41")]),
    ];
    let (h2, q2) = (hlists.clone(), qlists.clone());
    add(
        "product",
        "methods x buckets x objects x header lists x query lists x regions (5x6x8x6x6x6)".into(),
        5 * 6 * 8 * 6 * 6 * 6,
        Box::new(move |i| {
            let mut x = Ix(i);
            let mut u = UrlCase::base();
            u.method = x.pick(&METHODS).to_string();
            u.bucket = x.pick(&BUCKETS).to_string();
            u.object = x.pick(&OBJECTS).to_string();
            u.headers = x.pick(&h2).clone();
            u.query = x.pick(&q2).clone();
            u.region = some(*x.pick(&REGIONS));
            u
        }),
    );
    // RSA: real signatures
    let nk: u64 = if thorough { 5 } else { 4 };
    add(
        "rsa-product",
        format!("service accounts: {nk} keys (2048..) x identities x regions x methods(2) x objects(3) x headers(2) x queries(2)"),
        nk * 6 * 6 * 2 * 3 * 2 * 2,
        Box::new(move |i| {
            let mut x = Ix(i);
            let mut u = UrlCase::base();
            let k = [0, 1, 2, 3, 4][x.n(nk) as usize];
            u = u.key(Key::Rsa(k, x.pick(&IDENTITIES).to_string()));
            u.region = some(*x.pick(&REGIONS));
            u.method = x.pick(&["GET", "PUT"]).to_string();
            u.object = x.pick(&["o", "a b+c?d#e/é", ""]).to_string();
            u.headers = x.pick(&[hlists[0].clone(), hlists[3].clone()]).clone();
            u.query = x.pick(&[qlists[0].clone(), qlists[4].clone()]).clone();
            u
        }),
    );
    add(
        "rsa-4096",
        "service account with a 4096-bit key x methods x identities".into(),
        5 * 6,
        Box::new(move |i| {
            let mut x = Ix(i);
            let mut u = UrlCase::base().key(Key::Rsa(4, x.pick(&IDENTITIES).to_string()));
            u.method = x.pick(&METHODS).to_string();
            u
        }),
    );
    let len = if thorough { 3 } else { 2 };
    add(
        "rsa-identity-words",
        format!("service account identity and region: every string of length <= {len} over the alphabet"),
        seq_count(k, len) * 2,
        Box::new(move |i| {
            let mut x = Ix(i);
            let r = x.flag();
            let w = word(&ALPHABET, x.0);
            let mut u = UrlCase::base();
            if r {
                u = u.key(Key::rsa());
                u.region = Some(w);
            } else {
                u = u.key(Key::Rsa(0, w));
            }
            u
        }),
    );
    // how many signatures it takes to see one whose leading octet or nibble is zero, etc.
    let m = if thorough { 20000 } else { 4000 };
    add(
        "rsa-many",
        format!("{m} different objects signed with one 2048-bit key (leading zero octets in signatures occur)"),
        m,
        Box::new(|i| {
            let mut u = UrlCase::base().key(Key::rsa());
            u.object = format!("o{i}");
            u
        }),
    );
    v
}
