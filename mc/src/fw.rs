//! Exhaustive sweeps over indexed domains, evidence and violation reports.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Per-thread record of a sweep.
#[derive(Default)]
pub struct W {
    /// calls into the implementation (public API calls, HTTP answers, clock steps)
    pub steps: u64,
    /// complete executions of the implementation compared with the reference
    pub traces: u64,
    pub states: HashSet<u64>,
    /// final states of explored executions
    pub finals: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub describe: bool,
    pub desc: String,
    /// stopped before its end
    pub cut: bool,
}

impl W {
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_default() += 1;
    }
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(hash64(t));
    }
    pub fn case(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            self.desc = f();
        }
    }
}

pub struct Violation {
    pub sweep: String,
    pub index: u64,
    pub choices: Option<Value>,
    pub message: String,
    pub case: String,
    pub reproduced: bool,
}

pub struct Cx {
    pub prop: String,
    pub thorough: bool,
    pub threads: usize,
    pub only: Option<(String, u64, Option<Value>)>,
    pub sweeps: Vec<Value>,
    pub steps: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub samples: Vec<Value>,
    pub assumptions: Vec<String>,
    pub violations: Vec<Violation>,
    /// sweeps and scenarios that were stopped because of the time they took
    pub incomplete: Vec<String>,
    pub t0: Instant,
    /// when the check has to end (ms)
    until: u64,
}

/// What the watchdog looks at: per worker thread, when its current case began (ms, 0 = idle).
/// Executions in which the same choices led to another state.
pub static DIVERGED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub static BUSY: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
pub static CURRENT: Mutex<String> = Mutex::new(String::new());

pub fn real_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

thread_local! {
    pub static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

impl Cx {
    pub fn new(prop: &str, thorough: bool) -> Self {
        Cx {
            prop: prop.to_string(),
            thorough,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
            only: None,
            sweeps: vec![],
            steps: 0,
            traces: 0,
            states: HashSet::new(),
            samples: vec![],
            assumptions: vec![],
            incomplete: vec![],
            until: real_ms() + if thorough { u64::MAX / 4 } else { 720_000 },
            violations: vec![],
            t0: Instant::now(),
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// When a sweep or scenario that begins now is stopped. None comes near on the tree this was written for; a change
    /// of the code may make its steps slower or many more, and then the others have to get their turn.
    fn limit(&self, quick_s: u64) -> u64 {
        self.until.min(real_ms() + if self.thorough { u64::MAX / 4 } else { quick_s * 1000 })
    }

    fn incomplete(&mut self, name: &str, t: Instant, n: u64) {
        println!("INCOMPLETE: {name} was stopped after {:.0} s and {n} executions", t.elapsed().as_secs_f64());
        self.incomplete.push(name.to_string());
    }

    /// Runs `f` on every index of `0..n`.
    pub fn sweep(&mut self, name: &str, what: &str, n: u64, f: impl Fn(u64, &mut W) -> Result<(), String> + Sync) {
        if let Some((s, i, _)) = self.only.clone() {
            if s == name {
                self.replay_one(name, i, &f);
            }
            return;
        }
        if !self.violations.is_empty() {
            return;
        }
        let t = Instant::now();
        *CURRENT.lock().unwrap() = name.to_string();
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX);
        let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 256);
        let limit = self.limit(300);
        let ws: Vec<W> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..self.threads)
                .map(|wid| {
                    let (next, best, found, f) = (&next, &best, &found, &f);
                    sc.spawn(move || {
                        WORKER.with(|x| x.set(wid));
                        let mut w = W::default();
                        loop {
                            let lo = next.fetch_add(chunk, SeqCst);
                            if lo >= n {
                                break;
                            }
                            if real_ms() > limit {
                                w.cut = true;
                                break;
                            }
                            for i in lo..(lo + chunk).min(n) {
                                if i > best.load(SeqCst) {
                                    continue;
                                }
                                BUSY[wid].store(real_ms().max(1), SeqCst);
                                let r = f(i, &mut w);
                                BUSY[wid].store(0, SeqCst);
                                if let Err(m) = r {
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().is_none_or(|(j, _)| i < *j) {
                                        *g = Some((i, m));
                                        best.fetch_min(i, SeqCst);
                                    }
                                }
                            }
                        }
                        w
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let (mut steps, mut traces) = (0, 0);
        let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut states = HashSet::new();
        let complete = !ws.iter().any(|w| w.cut);
        for w in ws {
            steps += w.steps;
            traces += w.traces;
            for (k, v) in w.classes {
                *classes.entry(k).or_default() += v;
            }
            if states.len() < w.states.len() {
                let old = std::mem::replace(&mut states, w.states);
                states.extend(old);
            } else {
                states.extend(w.states);
            }
        }
        self.steps += steps;
        self.traces += traces;
        self.sweeps.push(json!({
            "sweep": name, "domain": what, "cases": n, "exhaustive": complete, "executions": traces, "steps": steps,
            "distinct_results": states.len(), "outcomes": classes,
            "wall_s": (t.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        }));
        if !complete {
            self.incomplete(name, t, traces);
        }
        let salt = hash64(name);
        self.states.extend(states.into_iter().map(|s| s ^ salt));
        let found = found.into_inner().unwrap();
        for i in [0, n / 2, n.saturating_sub(1)] {
            if n > 0 && found.is_none() && self.samples.len() < 24 {
                let (_, w) = self.describe(i, &f);
                self.samples.push(json!({"sweep": name, "index": i, "case": w.desc}));
            }
        }
        if let Some((i, m)) = found {
            let (r, w) = self.describe(i, &f);
            self.violations.push(Violation {
                sweep: name.into(),
                index: i,
                choices: None,
                message: m,
                case: w.desc,
                reproduced: r.is_err(),
            });
        }
    }

    /// Executes every choice sequence of the scenario; `prop` selects the monitors that count.
    pub fn explore(&mut self, scn: crate::bound::Scenario) {
        let name = scn.name.clone();
        if let Some((s, _, choices)) = self.only.clone() {
            if s == name {
                let mut scn = scn;
                let c: Vec<u16> = choices.as_ref().and_then(|c| c["path"].as_array()).map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u16).collect()).unwrap_or_default();
                if let Some(d) = choices.as_ref().and_then(|c| c["deviations"].as_u64()) {
                    scn.dev = d as u32;
                }
                let (run, m) = self.rerun(&scn, &c);
                println!("{}", crate::bound::explain(&scn, &run));
                for v in &run.viol {
                    println!("{}: {}", v.0, v.1);
                }
                if let Some(m) = m {
                    self.violations.push(Violation { sweep: name, index: 0, choices, message: m, case: String::new(), reproduced: true });
                }
            }
            return;
        }
        if !self.violations.is_empty() {
            return;
        }
        let t = Instant::now();
        *CURRENT.lock().unwrap() = name.clone();
        let (w, found, first) = self.search(&scn);
        let complete = !w.cut;
        if !complete {
            self.incomplete(&name, t, w.traces);
        }
        self.steps += w.steps;
        self.traces += w.traces;
        self.sweeps.push(json!({
            "sweep": name, "domain": scn.describe(), "cases": w.traces, "exhaustive": complete, "executions": w.traces, "steps": w.steps,
            "distinct_results": w.states.len(), "outcomes": w.classes,
            "wall_s": (t.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        }));
        if std::env::var_os("MC_PROGRESS").is_some() {
            eprintln!("{name}: {} executions, {:.1} s", w.traces, t.elapsed().as_secs_f64());
        }
        let salt = hash64(&name);
        self.states.extend(w.states.iter().map(|s| s ^ salt));
        if let Some(p) = &first {
            let (run, _) = self.rerun(&scn, p);
            if self.samples.len() < 24 {
                self.samples.push(json!({"scenario": name, "choices": run.choices, "execution": crate::bound::explain(&scn, &run)}));
            }
        }
        if let Some((mut path, mut first_message)) = found {
            // the fewest deviations that show it
            let mut scn = scn;
            let all = scn.dev;
            for d in 0..all {
                scn.dev = d;
                if let (_, Some((p, m)), _) = self.search(&scn) {
                    path = p;
                    first_message = m;
                    break;
                }
                scn.dev = all;
            }
            let (run, m) = self.rerun(&scn, &path);
            self.violations.push(Violation {
                sweep: name,
                index: 0,
                choices: Some(json!({"path": run.choices, "deviations": scn.dev})),
                reproduced: m.is_some(),
                message: m.unwrap_or_else(|| format!("{first_message} (not reproduced when run again: it depends on earlier executions)")),
                case: crate::bound::explain(&scn, &run),
            });
        }
    }

    /// Explores a scenario with and without the reduction; both must end in the same states.
    pub fn validate_reduction(&mut self, scn: crate::bound::Scenario) {
        if self.only.is_some() || !self.violations.is_empty() {
            return;
        }
        let mut a = scn.clone();
        a.reduce = false;
        let mut b = scn;
        b.reduce = true;
        let (full, f1, _) = self.search(&a);
        let (red, f2, _) = self.search(&b);
        if f1.is_some() || f2.is_some() {
            self.explore(a);
            return;
        }
        if full.cut || red.cut {
            let t = Instant::now();
            self.incomplete(&format!("reduction of {}", a.name), t, full.traces + red.traces);
        }
        self.sweeps.push(json!({
            "sweep": format!("reduction of {}", a.name), "domain": a.describe(), "cases": full.traces, "executions": full.traces + red.traces,
            "exhaustive": !full.cut && !red.cut, "steps": full.steps + red.steps,
            "distinct_results": full.finals.len(), "wall_s": 0.0,
            "outcomes": {"executions in full": full.traces, "executions after reduction": red.traces, "final states in full": full.finals.len(),
                "final states after reduction": red.finals.len(), "the same final states": full.finals == red.finals},
        }));
        self.steps += full.steps + red.steps;
        self.traces += full.traces + red.traces;
    }

    fn rerun(&self, scn: &crate::bound::Scenario, path: &[u16]) -> (crate::bound::Run, Option<String>) {
        let prop = self.prop.clone();
        std::thread::scope(|sc| {
            sc.spawn(|| {
                crate::bound::install();
                let run = crate::bound::execute(&std::rc::Rc::new(scn.clone()), path, &mut W::default());
                let m = run.viol.iter().find(|v| v.0 == prop).map(|v| v.1.clone());
                (run, m)
            })
            .join()
            .expect("worker")
        })
    }

    /// Depth-first over all choice sequences: (record, a violating path, a longest path).
    #[allow(clippy::type_complexity)]
    fn search(&self, scn: &crate::bound::Scenario) -> (W, Option<(Vec<u16>, String)>, Option<Vec<u16>>) {
        use std::sync::atomic::{AtomicBool, AtomicUsize};
        let threads = if scn.hosts.is_empty() { self.threads } else { 1 };
        let shared: Mutex<Vec<Vec<u16>>> = Mutex::new(vec![vec![]]);
        let waiting = AtomicUsize::new(1); // length of `shared`
        let busy = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<(Vec<u16>, String)>> = Mutex::new(None);
        let prop = self.prop.as_str();
        let limit = self.limit(100);
        let ws: Vec<(W, Vec<u16>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|wid| {
                    let (shared, waiting, busy, stop, found) = (&shared, &waiting, &busy, &stop, &found);
                    let scn = scn.clone();
                    sc.spawn(move || {
                        let scn = std::rc::Rc::new(scn);
                        crate::bound::install();
                        let mut w = W::default();
                        let mut stack: Vec<Vec<u16>> = vec![];
                        let mut longest: Vec<u16> = vec![];
                        loop {
                            if stack.is_empty() {
                                let mut g = shared.lock().unwrap();
                                if let Some(p) = g.pop() {
                                    waiting.store(g.len(), SeqCst);
                                    busy.fetch_add(1, SeqCst);
                                    stack.push(p);
                                } else if busy.load(SeqCst) == 0 {
                                    break;
                                } else {
                                    drop(g);
                                    std::thread::sleep(std::time::Duration::from_micros(50));
                                    continue;
                                }
                            }
                            while let Some(p) = stack.pop() {
                                if stop.load(SeqCst) {
                                    stack.clear();
                                    break;
                                }
                                if real_ms() > limit {
                                    w.cut = true;
                                    stop.store(true, SeqCst);
                                    continue;
                                }
                                BUSY[wid].store(real_ms().max(1), SeqCst);
                                let run = crate::bound::execute(&scn, &p, &mut w);
                                BUSY[wid].store(0, SeqCst);
                                if run.diverged {
                                    // executions depend on earlier ones: what the monitors say still counts
                                    w.class("diverged");
                                    if DIVERGED.fetch_add(1, SeqCst) == 0 {
                                        eprintln!("the same choices led to another state: {:?} in {}", p, scn.name);
                                    }
                                }
                                if let Some(v) = run.viol.iter().find(|v| v.0 == prop) {
                                    *found.lock().unwrap() = Some((run.choices.clone(), v.1.clone()));
                                    stop.store(true, SeqCst);
                                }
                                for i in p.len()..run.choices.len() {
                                    for &alt in run.others[i].iter().rev() {
                                        let mut q = run.choices[..i].to_vec();
                                        q.push(alt);
                                        stack.push(q);
                                    }
                                }
                                if run.choices.len() > longest.len() {
                                    longest = run.choices;
                                }
                                if stack.len() > 1 && waiting.load(SeqCst) < 2 * threads {
                                    let give: Vec<_> = stack.drain(..stack.len() / 2).collect();
                                    let mut g = shared.lock().unwrap();
                                    g.extend(give);
                                    waiting.store(g.len(), SeqCst);
                                }
                            }
                            busy.fetch_sub(1, SeqCst);
                        }
                        (w, longest)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let mut all = W::default();
        let mut longest = vec![];
        for (w, l) in ws {
            all.steps += w.steps;
            all.traces += w.traces;
            all.cut |= w.cut;
            for (k, v) in w.classes {
                *all.classes.entry(k).or_default() += v;
            }
            all.states.extend(w.states);
            all.finals.extend(w.finals);
            if l.len() > longest.len() {
                longest = l;
            }
        }
        (all, found.into_inner().unwrap(), Some(longest))
    }

    fn describe(&self, i: u64, f: &(impl Fn(u64, &mut W) -> Result<(), String> + Sync)) -> (Result<(), String>, W) {
        std::thread::scope(|sc| {
            sc.spawn(|| {
                let mut w = W { describe: true, ..W::default() };
                BUSY[63].store(real_ms().max(1), SeqCst);
                let r = f(i, &mut w);
                BUSY[63].store(0, SeqCst);
                if w.desc.len() > 1500 {
                    let mut cut = 1500;
                    while !w.desc.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    let total = w.desc.len();
                    w.desc.truncate(cut);
                    w.desc.push_str(&format!("… ({total} bytes)"));
                }
                (r, w)
            })
            .join()
            .expect("worker")
        })
    }

    fn replay_one(&mut self, name: &str, i: u64, f: &(impl Fn(u64, &mut W) -> Result<(), String> + Sync)) {
        let (r, w) = self.describe(i, f);
        println!("replaying {name}[{i}]\ncase: {}", w.desc);
        match r {
            Ok(()) => println!("holds"),
            Err(m) => {
                println!("violated: {m}");
                self.violations.push(Violation {
                    sweep: name.into(),
                    index: i,
                    choices: None,
                    message: m,
                    case: w.desc,
                    reproduced: true,
                });
            }
        }
    }

    pub fn evidence(&self) -> Value {
        let exhaustive = self.violations.is_empty() && self.incomplete.is_empty();
        json!({
            "property": self.prop,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": "model_checking",
            "coverage": {
                "states": self.states.len(),
                "transitions": self.steps,
                "traces_validated_against_impl": self.traces,
                "exhaustive": exhaustive,
                "incomplete": self.incomplete,
                "samples": self.samples,
                "sweeps": self.sweeps,
                "explanation": "states: distinct results (sweeps) or distinct abstract system states (explorer) observed; \
transitions: calls into the implementation, HTTP answers, clock and scheduling steps executed; traces: complete executions of \
the implementation judged by the reference model. Every trace is an execution of the code in /repo, there is no separate model.",
            },
            "assumptions": self.assumptions,
            "wall_s": (self.t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": self.violations.len(),
        })
    }
}

/// Mixed-radix decoder for indices.
pub struct Ix(pub u64);
impl Ix {
    pub fn n(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.n(s.len() as u64) as usize]
    }
    pub fn flag(&mut self) -> bool {
        self.n(2) == 1
    }
}

/// All sequences over `k` symbols with length at most `max`: their number.
pub fn seq_count(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}

/// The `i`-th such sequence (shortest first).
pub fn seq(k: u64, mut i: u64) -> Vec<usize> {
    let mut len = 0;
    while i >= k.pow(len) {
        i -= k.pow(len);
        len += 1;
    }
    (0..len).map(|_| { let r = i % k; i /= k; r as usize }).collect()
}

pub const SCALARS: u64 = 0x110000 - 0x800;
/// The `i`-th Unicode scalar value.
pub fn scalar(i: u64) -> char {
    let c = if i < 0xD800 { i } else { i + 0x800 };
    char::from_u32(c as u32).unwrap()
}
