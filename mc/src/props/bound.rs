//! C13-C17: bound tokens under every schedule, clock step and fault within the bounds.
use crate::bound::{OpKind, Scenario};
use crate::clock::SEC;
use crate::fw::Cx;

use OpKind::{Form, NoSign, Url};

/// Ages of a one-hour token, around the ones that matter.
const AROUND: [i128; 6] = [15 * SEC, 3555 * SEC, 3570 * SEC - 1, 3570 * SEC, 3570 * SEC + 1, 3600 * SEC];
const AGE: [i128; 2] = [3570 * SEC - 1, 3570 * SEC];

const TWO: [(OpKind, usize); 2] = [(Url, 0), (Form, 0)];
const SAME: [(OpKind, usize); 2] = [(Url, 0), (Url, 0)];
const THREE: [(OpKind, usize); 3] = [(Url, 0), (Url, 0), (Url, 0)];
const MIXED: [(OpKind, usize); 3] = [(Url, 0), (Form, 0), (NoSign, 0)];
const FOUR: [(OpKind, usize); 4] = [(Url, 0), (Url, 0), (Url, 0), (Url, 0)];
const KEYS: [(OpKind, usize); 2] = [(Url, 0), (Url, 1)];
const KEYS3: [(OpKind, usize); 3] = [(Url, 0), (Url, 1), (Form, 0)];
const KEYS4: [(OpKind, usize); 4] = [(Url, 0), (Url, 1), (Form, 0), (Form, 1)];

/// Every order of all steps.
fn full(name: &str, ops: &[(OpKind, usize)]) -> Scenario {
    Scenario { eager: false, ..Scenario::new(name, ops) }
}

/// Every order up to the order of independent steps.
fn red(name: &str, ops: &[(OpKind, usize)]) -> Scenario {
    Scenario { eager: false, reduce: true, ..Scenario::new(name, ops) }
}

/// One operation after another.
fn seq(name: &str, ops: &[(OpKind, usize)]) -> Scenario {
    Scenario { max_active: 1, ..Scenario::new(name, ops) }
}

/// Everything that can go wrong, up to `dev` times.
fn all(dev: u32, faults: usize, x: Scenario) -> Scenario {
    Scenario { dev, faults, cancel: true, rotate: true, split: true, advance: AROUND.to_vec(), ..x }
}

/// The same with two ages only.
fn most(dev: u32, faults: usize, x: Scenario) -> Scenario {
    Scenario { advance: AGE.to_vec(), ..all(dev, faults, x) }
}

fn explore(cx: &mut Cx, v: Vec<Scenario>) {
    for x in v {
        cx.explore(x);
    }
}

fn assume(cx: &mut Cx) {
    cx.assume("steps are polls of an operation, answers (head, body), clock steps, account changes and drops; a poll that takes a second lock is preempted before it, so two critical sections of one poll are two steps");
    cx.assume("the wall clock does not go backwards; the metadata server counts a lifetime from its answer; emails are plain");
    cx.assume("tokio's mutex and reqwest above the transport are trusted to do what they are documented to do");
    cx.assume("scenarios marked so explore one execution per class that differs in the order of independent steps (sleep sets); the reduction is validated against full exploration in the sweeps called 'reduction of'");
}

/// What all five properties are checked on.
fn common(cx: &mut Cx) {
    assume(cx);
    explore(
        cx,
        vec![
            full("two", &TWO),
            Scenario { auto_rotate: true, always_split: true, ..full("two-split-rotate", &TWO) },
            Scenario { lives: vec![3600, 30], auto_rotate: true, ..full("two-lives-rotate", &SAME) },
            Scenario { auto_rotate: true, ..red("three", &THREE) },
            full("keys", &KEYS),
            all(1, 99, full("two-dev1", &TWO)),
            all(1, 99, seq("seq-dev1", &MIXED)),
        ],
    );
    cx.validate_reduction(all(1, 99, full("two-dev1", &TWO)));
    let t = cx.thorough;
    explore(cx, many(t));
}

/// Many operations: all schedules within few departures from one.
fn many(t: bool) -> Vec<Scenario> {
    let d = t as u32;
    let mix = |n: usize, keys: usize| -> Vec<(OpKind, usize)> { (0..n).map(|i| (if i % 3 == 1 { Form } else { Url }, i % keys)).collect() };
    let burst = |x: Scenario| Scenario { delay: Some(true), eager: false, ..x };
    let turn = |pause: i128, x: Scenario| Scenario { delay: Some(false), eager: false, pause, ..x };
    vec![
        burst(all(1 + d, if t { 2 } else { 99 }, full("burst", &mix(10, 1)))),
        burst(Scenario { lives: vec![3600, 30], dev: d, cancel: true, auto_rotate: true, ..full("burst-lives", &mix(7, 1)) }),
        burst(all(1, 2, full("burst-keys", &mix(9, 3)))),
        burst(most(2 + d, 1, full("burst-dev2", &mix(5, 1)))),
        turn(7 * SEC, Scenario { lives: vec![60], ..all(1, 99, full("turns", &mix(16, 1))) }),
        turn(7 * SEC, Scenario { lives: vec![60], ..most(2 + d, 2, full("turns-dev2", &mix(6, 1))) }),
        turn(0, Scenario { outage: 3, dev: 2, ..full("outage", &mix(12, 1)) }),
        turn(7 * SEC, Scenario { lives: vec![60], outage: 3, dev: 2 + d, advance: vec![29 * SEC, 30 * SEC], cancel: true, ..full("outage-turns", &mix(8, 1)) }),
        burst(Scenario { outage: 3, dev: 2, cancel: true, rotate: true, ..full("outage-burst", &mix(6, 1)) }),
        turn(SEC, Scenario { lives: vec![31], ..all(1, 2, full("turns-short", &mix(24, 1))) }),
        turn(20 * SEC, Scenario { lives: vec![3600, 45, 100], auto_rotate: true, always_split: true, dev: d, faults: 3, cancel: true, ..full("turns-lives", &mix(10, 1)) }),
    ]
}

/// A token of each lifetime, aged to just below, at and just above the margin, with delays anywhere.
fn lifetimes(t: bool) -> Vec<Scenario> {
    let mut v: Vec<u64> = (0..=130).collect();
    v.extend([299, 300, 301, 599, 600, 1799, 1800, 3569, 3570, 3571, 3599, 3600, 3601, 7200, 43_200, 86_400, 604_800, 31_536_000, 315_360_000]);
    if !t {
        v.retain(|&l| l <= 3 || (28..=33).contains(&l) || (59..=61).contains(&l) || l == 90 || l == 120 || l >= 300);
    }
    v.into_iter()
        .map(|l| {
            let m = (l as i128 - 30) * SEC;
            let mut a = if l > 30 { vec![m / 2, m - 1, m, m + 1, l as i128 * SEC] } else { vec![1, l as i128 * SEC + 1] };
            a.dedup();
            Scenario {
                lives: vec![l],
                dev: 2,
                advance: a,
                always_split: true,
                ..seq(&format!("lifetime-{l}"), &TWO)
            }
        })
        .collect()
}

pub fn c13(cx: &mut Cx) {
    let t = cx.thorough;
    super::preempt::explore(cx, Some(true));
    common(cx);
    explore(cx, lifetimes(t));
    explore(
        cx,
        vec![
            Scenario { dev: 2, advance: AGE.to_vec(), ..full("two-age2", &SAME) },
            Scenario { dev: 2, advance: AROUND.to_vec(), split: true, ..red("two-ages2", &SAME) },
            Scenario { dev: 1, advance: AGE.to_vec(), ..red("three-age1", &THREE) },
            Scenario { dev: 1, lives: vec![3600, 60], advance: vec![30 * SEC - 1, 30 * SEC, 3570 * SEC], ..red("two-ages-lives", &SAME) },
            Scenario { dev: 1, advance: AGE.to_vec(), ..red("keys-age1", &KEYS3) },
            Scenario { dev: 2, faults: 99, cancel: true, advance: AROUND.to_vec(), ..seq("seq-age-faults", &[(Url, 0), (Form, 0), (Url, 0)]) },
            Scenario { dev: 1, faults: 99, cancel: true, lives: vec![3600, 31, 25], ..seq("seq-lives-faults", &THREE) },
            Scenario { dev: 2, faults: 4, cancel: true, advance: AGE.to_vec(), ..red("two-age-faults", &SAME) },
        ],
    );
    if t {
        explore(
            cx,
            vec![
                Scenario { dev: 3, advance: AROUND.to_vec(), split: true, ..red("two-ages3", &SAME) },
                Scenario { dev: 4, advance: vec![3570 * SEC], ..red("two-age4", &SAME) },
                Scenario { dev: 1, advance: AGE.to_vec(), ..red("four-age1", &FOUR) },
                Scenario { dev: 2, lives: vec![3600, 60], advance: vec![30 * SEC - 1, 30 * SEC, 3570 * SEC], ..red("two-ages2-lives", &SAME) },
                all(3, 2, seq("seq-dev3", &MIXED)),
                Scenario { dev: 2, advance: vec![3570 * SEC], ..red("three-age2", &THREE) },
            ],
        );
    }
}

pub fn c14(cx: &mut Cx) {
    let t = cx.thorough;
    super::preempt::explore(cx, Some(true));
    common(cx);
    explore(
        cx,
        vec![
            Scenario { lives: vec![3600, 30, 31, 0], ..full("two-lives", &SAME) },
            full("three-full", &THREE),
            most(1, 2, red("three-dev1", &THREE)),
            Scenario { dev: 3, cancel: true, faults: 2, ..red("two-cancel3", &SAME) },
            Scenario { dev: 2, cancel: true, ..red("three-cancel2", &THREE) },
            Scenario { lives: vec![3600, 30], ..red("three-lives", &THREE) },
        ],
    );
    if t {
        explore(
            cx,
            vec![
                red("four", &FOUR),
                Scenario { dev: 3, cancel: true, faults: 1, ..red("three-cancel3", &THREE) },
                most(3, 2, red("two-dev3", &SAME)),
                most(2, 1, red("three-dev2", &THREE)),
            ],
        );
    }
}

pub fn c15(cx: &mut Cx) {
    let t = cx.thorough;
    super::services::c15(cx);
    super::preempt::explore(cx, Some(true));
    common(cx);
    explore(
        cx,
        vec![
            Scenario { dev: 2, rotate: true, advance: AGE.to_vec(), ..full("two-rotate2", &TWO) },
            Scenario { dev: 1, advance: vec![3570 * SEC], auto_rotate: true, ..red("three-rotate1", &MIXED) },
            Scenario { lives: vec![3600, 30], auto_rotate: true, ..red("three-lives-rotate", &THREE) },
            Scenario { dev: 2, advance: AGE.to_vec(), auto_rotate: true, split: true, ..red("two-age2-rotate", &TWO) },
            Scenario { repeat: true, ..full("two-repeat", &SAME) },
            Scenario { repeat: true, auto_rotate: true, dev: 1, faults: 99, cancel: true, advance: AGE.to_vec(), ..red("two-repeat-dev1", &TWO) },
            Scenario { dev: 1, faults: 3, cancel: true, auto_rotate: true, ..red("keys-rotate", &KEYS4) },
            all(2, 4, seq("seq-dev2", &MIXED)),
        ],
    );
    if t {
        explore(
            cx,
            vec![
                Scenario { dev: 3, rotate: true, advance: AGE.to_vec(), ..red("two-rotate3", &TWO) },
                Scenario { dev: 2, rotate: true, advance: vec![3570 * SEC], ..red("three-rotate2", &MIXED) },
                Scenario { auto_rotate: true, ..red("four-rotate", &FOUR) },
                all(3, 2, seq("seq-dev3", &MIXED)),
                most(3, 2, red("two-dev3", &TWO)),
            ],
        );
    }
}

pub fn c16(cx: &mut Cx) {
    let t = cx.thorough;
    super::services::c16(cx);
    super::preempt::explore(cx, Some(true));
    common(cx);
    explore(
        cx,
        vec![
            Scenario { dev: 3, faults: 99, cancel: true, ..red("two-faults3", &SAME) },
            most(2, 5, red("two-dev2", &TWO)),
            Scenario { dev: 2, faults: 3, cancel: true, ..red("three-faults2", &THREE) },
            all(2, 99, seq("seq-dev2", &MIXED)),
            Scenario { dev: 2, faults: 99, cancel: true, ..red("keys-faults2", &KEYS3) },
        ],
    );
    if t {
        explore(
            cx,
            vec![
                Scenario { dev: 4, faults: 99, cancel: true, ..red("two-faults4", &SAME) },
                Scenario { dev: 3, faults: 5, cancel: true, ..red("three-faults3", &THREE) },
                Scenario { dev: 4, faults: 6, cancel: true, split: true, ..seq("seq-faults4", &THREE) },
                most(3, 3, red("two-dev3", &SAME)),
                all(3, 3, seq("seq-dev3", &MIXED)),
            ],
        );
    }
}

pub fn c17(cx: &mut Cx) {
    let t = cx.thorough;
    crate::props::keys::secrets(cx);
    super::services::c17(cx);
    super::preempt::explore(cx, Some(true));
    common(cx);
    let h = |v: &[Option<&str>]| v.iter().map(|h| h.map(str::to_string)).collect::<Vec<_>>();
    explore(
        cx,
        vec![
            Scenario { hosts: h(&[Some("h0.example"), Some("h1.example:8080")]), ..full("hosts", &KEYS) },
            Scenario { hosts: h(&[None, Some("169.254.169.254")]), auto_rotate: true, ..red("host-unset", &KEYS3) },
            Scenario { hosts: h(&[Some("h0.example"), Some("h0.example")]), auto_rotate: true, ..red("same-host", &KEYS4) },
            Scenario { hosts: h(&[Some("[::1]:8080"), None]), dev: 1, advance: AGE.to_vec(), faults: 3, cancel: true, ..red("hosts-dev1", &KEYS) },
            Scenario { auto_rotate: true, ..full("keys-rotate", &KEYS) },
            Scenario { dev: 2, faults: 2, cancel: true, rotate: true, advance: vec![3570 * SEC], ..red("keys-dev2", &KEYS) },
            all(1, 99, seq("keys-in-turn", &KEYS4)),
            all(1, 99, red("keys-dev1-all", &KEYS3)),
        ],
    );
    if t {
        explore(
            cx,
            vec![
                most(2, 2, red("keys-dev2-all", &KEYS3)),
                most(1, 2, red("keys-four", &KEYS4)),
                Scenario { auto_rotate: true, ..full("keys-split", &KEYS) },
                Scenario { dev: 1, faults: 1, cancel: true, ..full("keys-full-dev1", &KEYS) },
                Scenario { auto_rotate: true, ..red("keys-three", &[(Url, 0), (Url, 1), (Url, 2), (Form, 0), (Form, 1)]) },
            ],
        );
    }
}
