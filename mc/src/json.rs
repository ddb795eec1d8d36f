//! A small strict JSON parser (RFC 8259), the reference for service account documents.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn parse(s: &str) -> Option<J> {
    let b = s.as_bytes();
    let mut i = 0;
    ws(b, &mut i);
    let v = value(s, &mut i)?;
    ws(b, &mut i);
    (i == b.len()).then_some(v)
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && matches!(b[*i], b' ' | b'\t' | b'\n' | b'\r') {
        *i += 1;
    }
}

fn value(s: &str, i: &mut usize) -> Option<J> {
    let b = s.as_bytes();
    for (w, v) in [("null", J::Null), ("true", J::Bool(true)), ("false", J::Bool(false))] {
        if s[*i..].starts_with(w) {
            *i += w.len();
            return Some(v);
        }
    }
    match *b.get(*i)? {
        b'"' => string(s, i).map(J::Str),
        b'[' => {
            *i += 1;
            let mut v = vec![];
            ws(b, i);
            if b.get(*i) == Some(&b']') {
                *i += 1;
                return Some(J::Arr(v));
            }
            loop {
                ws(b, i);
                v.push(value(s, i)?);
                ws(b, i);
                match *b.get(*i)? {
                    b',' => *i += 1,
                    b']' => {
                        *i += 1;
                        return Some(J::Arr(v));
                    }
                    _ => return None,
                }
            }
        }
        b'{' => {
            *i += 1;
            let mut v = vec![];
            ws(b, i);
            if b.get(*i) == Some(&b'}') {
                *i += 1;
                return Some(J::Obj(v));
            }
            loop {
                ws(b, i);
                let k = string(s, i)?;
                ws(b, i);
                if *b.get(*i)? != b':' {
                    return None;
                }
                *i += 1;
                ws(b, i);
                v.push((k, value(s, i)?));
                ws(b, i);
                match *b.get(*i)? {
                    b',' => *i += 1,
                    b'}' => {
                        *i += 1;
                        return Some(J::Obj(v));
                    }
                    _ => return None,
                }
            }
        }
        _ => number(s, i),
    }
}

fn digits(b: &[u8], i: &mut usize) -> bool {
    let start = *i;
    while b.get(*i).is_some_and(|c| c.is_ascii_digit()) {
        *i += 1;
    }
    *i > start
}

fn number(s: &str, i: &mut usize) -> Option<J> {
    let b = s.as_bytes();
    let start = *i;
    if b.get(*i) == Some(&b'-') {
        *i += 1;
    }
    if b.get(*i) == Some(&b'0') {
        *i += 1;
    } else if !digits(b, i) {
        return None;
    }
    if b.get(*i) == Some(&b'.') {
        *i += 1;
        if !digits(b, i) {
            return None;
        }
    }
    if matches!(b.get(*i), Some(b'e' | b'E')) {
        *i += 1;
        if matches!(b.get(*i), Some(b'+' | b'-')) {
            *i += 1;
        }
        if !digits(b, i) {
            return None;
        }
    }
    Some(J::Num(s[start..*i].to_string()))
}

fn hex4(s: &str, i: &mut usize) -> Option<u32> {
    let h = s.get(*i..*i + 4)?;
    if !h.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    *i += 4;
    u32::from_str_radix(h, 16).ok()
}

fn string(s: &str, i: &mut usize) -> Option<String> {
    let b = s.as_bytes();
    if *b.get(*i)? != b'"' {
        return None;
    }
    *i += 1;
    let mut out = String::new();
    loop {
        let c = s.get(*i..)?.chars().next()?;
        *i += c.len_utf8();
        match c {
            '"' => return Some(out),
            '\\' => {
                let e = *b.get(*i)?;
                *i += 1;
                match e {
                    b'"' => out.push('"'),
                    b'\\' => out.push('\\'),
                    b'/' => out.push('/'),
                    b'b' => out.push('\u{8}'),
                    b'f' => out.push('\u{c}'),
                    b'n' => out.push('\n'),
                    b'r' => out.push('\r'),
                    b't' => out.push('\t'),
                    b'u' => {
                        let mut n = hex4(s, i)?;
                        if (0xD800..0xDC00).contains(&n) {
                            if s.get(*i..*i + 2)? != "\\u" {
                                return None;
                            }
                            *i += 2;
                            let lo = hex4(s, i)?;
                            if !(0xDC00..0xE000).contains(&lo) {
                                return None;
                            }
                            n = 0x10000 + ((n - 0xD800) << 10) + (lo - 0xDC00);
                        }
                        out.push(char::from_u32(n)?);
                    }
                    _ => return None,
                }
            }
            c if (c as u32) < 0x20 => return None,
            c => out.push(c),
        }
    }
}

/// (client_email, private_key) of a service account document, if it is one.
pub fn service_account(text: &[u8]) -> Option<(String, String)> {
    let s = std::str::from_utf8(text).ok()?;
    let J::Obj(o) = parse(s)? else { return None };
    let get = |n: &str| o.iter().rev().find(|(k, _)| k == n).map(|(_, v)| v);
    match (get("client_email"), get("private_key")) {
        (Some(J::Str(a)), Some(J::Str(b))) => Some((a.clone(), b.clone())),
        _ => None,
    }
}

/// A JSON string literal.
pub fn quote(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
