//! Proleptic Gregorian calendar by counting days from 1970-01-01; no shared code with chrono.

fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

/// (year, month, day, hour, minute, second) of a second count since 1970 (years 1970..=9999).
pub fn civil(secs: i64) -> (i64, u32, u32, u32, u32, u32) {
    assert!(secs >= 0);
    let mut days = secs / 86400;
    let rest = secs % 86400;
    // whole 400-year cycles (146097 days), then years, then months
    let mut y = 1970 + 400 * (days / 146097);
    days %= 146097;
    while days >= if leap(y) { 366 } else { 365 } {
        days -= if leap(y) { 366 } else { 365 };
        y += 1;
    }
    let lens = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while days >= lens[m] {
        days -= lens[m];
        m += 1;
    }
    (y, m as u32 + 1, days as u32 + 1, (rest / 3600) as u32, (rest % 3600 / 60) as u32, (rest % 60) as u32)
}

pub fn date(secs: i64) -> String {
    let (y, m, d, ..) = civil(secs);
    format!("{y:04}{m:02}{d:02}")
}

pub fn basic(secs: i64) -> String {
    let (y, m, d, h, mi, s) = civil(secs);
    format!("{y:04}{m:02}{d:02}T{h:02}{mi:02}{s:02}Z")
}

pub fn rfc3339(secs: i64) -> String {
    let (y, m, d, h, mi, s) = civil(secs);
    format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}Z")
}

/// Seconds since 1970 of a UTC civil time, by summing year and month lengths.
pub fn secs(y: i64, mo: u32, d: u32, h: u32, mi: u32, s: u32) -> i64 {
    let mut days = 0;
    for yy in 1970..y {
        days += if leap(yy) { 366 } else { 365 };
    }
    let lens = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    for l in &lens[..mo as usize - 1] {
        days += l;
    }
    days += d as i64 - 1;
    days * 86400 + h as i64 * 3600 + mi as i64 * 60 + s as i64
}

pub const MAX: i64 = 253_402_300_799; // 9999-12-31T23:59:59Z
