//! Exhaustive explorer: every member of a finite, stated space is executed on
//! the real code exactly once; nothing is sampled.
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick { q } else { t }
    }
}

/// A finite space of cases.
pub enum Space {
    /// all sequences of tokens up to a length, wrapped in each context
    Tokens { name: String, tokens: Vec<String>, max_len: usize, wraps: Vec<(String, String)> },
    /// an explicitly generated list (model states); `transitions` = edges the generator expanded
    Cases { name: String, cases: Vec<String>, transitions: u64 },
}

pub fn toks(name: &str, tokens: &[&str], max_len: usize) -> Space {
    Space::Tokens {
        name: name.into(),
        tokens: tokens.iter().map(|s| s.to_string()).collect(),
        max_len,
        wraps: vec![(String::new(), String::new())],
    }
}
pub fn toks_in(name: &str, tokens: &[&str], max_len: usize, wraps: &[(&str, &str)]) -> Space {
    Space::Tokens {
        name: name.into(),
        tokens: tokens.iter().map(|s| s.to_string()).collect(),
        max_len,
        wraps: wraps.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
    }
}
pub fn cases(name: &str, cases: Vec<String>) -> Space {
    let n = cases.len() as u64;
    Space::Cases { name: name.into(), cases, transitions: n }
}

/// All the cases of a space (for checks that prepare them at once)
pub fn expand(sp: &Space) -> Vec<String> {
    match sp {
        Space::Cases { cases, .. } => cases.clone(),
        Space::Tokens { tokens, max_len, wraps, .. } => {
            let mut all = vec![];
            let mut level = vec![String::new()];
            for len in 0..=*max_len {
                if len > 0 {
                    level = level.iter().flat_map(|a| tokens.iter().map(move |b| format!("{}{}", a, b))).collect();
                }
                for w in wraps {
                    all.extend(level.iter().map(|m| format!("{}{}{}", w.0, m, w.1)));
                }
            }
            all
        }
    }
}

/// What a successful check observed: `outcome` is a hash of what the code did
/// (used to show that the exploration is not vacuous), `trivial` marks cases
/// in which the property had nothing to constrain.
pub struct Seen {
    pub outcome: u64,
    pub trivial: bool,
}

pub fn seen<T: std::hash::Hash>(t: &T) -> Seen {
    Seen { outcome: h(t), trivial: false }
}
pub fn trivial<T: std::hash::Hash>(t: &T) -> Seen {
    Seen { outcome: h(t), trivial: true }
}

pub fn h<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

pub type Check = Result<Seen, String>;

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn spaces(&self, tier: Tier) -> Vec<Space>;
    fn check(&self, case: &str) -> Check;
    /// how a case is made and what makes one non-trivial
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// upper bound (s) on one case before it counts as non-termination
    fn horizon_s(&self) -> u64 {
        20
    }
}

/// Runs code of the system under test; a panic there is an observation.
pub fn imp<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    IN_IMP.with(|x| x.set(x.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_IMP.with(|x| x.set(x.get() - 1));
    r.map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        format!("{} panicked: {}", what, m)
    })
}
thread_local! { static IN_IMP: std::cell::Cell<u32> = std::cell::Cell::new(0); }
pub fn quiet_panics() {
    let d = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_IMP.with(|x| x.get()) == 0 {
            d(i)
        }
    }));
}

pub const STACK: usize = 64 << 20;

pub struct Known {
    /// (property, case) pairs
    pub set: HashSet<(String, String)>,
}
pub fn load_known(root: &str) -> Known {
    let mut set = HashSet::new();
    let s = fs::read_to_string(format!("{}/known-findings.txt", root)).unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let (p, r) = r.split_once(' ').expect("known-findings: property");
            let r = r.strip_prefix("case=").expect("known-findings: case=");
            let mut it = serde_json::Deserializer::from_str(r).into_iter::<String>();
            let c = it.next().expect("known-findings: json string").expect("known-findings: json string");
            set.insert((p.to_string(), c));
        }
    }
    Known { set }
}
pub fn known_text(root: &str, prop: &str, case: &str) -> String {
    let s = fs::read_to_string(format!("{}/known-findings.txt", root)).unwrap_or_default();
    let needle = format!("known: property={} case={} ", prop, serde_json::to_string(case).unwrap());
    s.lines().find_map(|l| l.strip_prefix(&needle)).unwrap_or("").to_string()
}

const SHARDS: usize = 64;
struct Dedup(Vec<Mutex<HashSet<u64>>>);
impl Dedup {
    fn new() -> Self {
        Dedup((0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect())
    }
    fn insert(&self, x: u64) -> bool {
        self.0[(x % SHARDS as u64) as usize].lock().unwrap().insert(x)
    }
    fn len(&self) -> u64 {
        self.0.iter().map(|m| m.lock().unwrap().len() as u64).sum()
    }
}

pub struct Report {
    pub violations: BTreeMap<(usize, String), String>,
    pub known_hit: BTreeMap<String, String>,
}

/// Slot files let the parent find the case a dying worker was executing.
pub fn slot_dir() -> String {
    std::env::var("VWMC_SLOTS").unwrap_or_default()
}

pub fn run(p: &dyn Prop, tier: Tier, root: &str) -> i32 {
    let t0 = Instant::now();
    let known = load_known(root);
    let spaces = p.spaces(tier);
    let dedup = Dedup::new();
    let outcomes = Dedup::new();
    let evaluated = AtomicU64::new(0);
    let transitions = AtomicU64::new(0);
    let nontrivial = AtomicU64::new(0);
    let report = Mutex::new(Report { violations: BTreeMap::new(), known_hit: BTreeMap::new() });
    let stop = AtomicBool::new(false);
    let samples: Mutex<Vec<serde_json::Value>> = Mutex::new(vec![]);
    let mut per_space = vec![];
    let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let slots = slot_dir();
    let busy: Vec<(AtomicU64, Mutex<String>)> = (0..nthreads).map(|_| (AtomicU64::new(0), Mutex::new(String::new()))).collect();
    let done = AtomicBool::new(false);
    let mut engine_err = false;

    std::thread::scope(|outer| {
        // watchdog: a case that does not come back within the horizon
        outer.spawn(|| {
            while !done.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let now = t0.elapsed().as_millis() as u64 + 1;
                for (since, case) in &busy {
                    let s = since.load(Relaxed);
                    if s != 0 && now.saturating_sub(s) > p.horizon_s() * 1000 {
                        let c = case.lock().unwrap().clone();
                        if since.load(Relaxed) != s {
                            continue;
                        }
                        let path = write_replay(root, p.id(), &c, "does not terminate within the horizon");
                        println!("VIOLATION property={} replay={}", p.id(), path);
                        println!("  case {:?} did not terminate within {} s", c, p.horizon_s());
                        write_evidence(root, p, tier, &serde_json::json!({"evaluations": evaluated.load(Relaxed), "distinct_nontrivial": nontrivial.load(Relaxed), "states": dedup.len(), "transitions": transitions.load(Relaxed), "traces_validated_against_impl": evaluated.load(Relaxed), "rule": p.rule(), "exhaustive": false, "samples": [c]}), 1, t0.elapsed().as_secs_f64());
                        std::io::stdout().flush().ok();
                        std::process::exit(1);
                    }
                }
            }
        });

        for (si, sp) in spaces.iter().enumerate() {
            let before = (evaluated.load(Relaxed), transitions.load(Relaxed));
            let ts = Instant::now();
            let mut phases: Vec<(u64, Box<dyn Fn(u64, &mut String) + Sync>)> = vec![];
            let name;
            match sp {
                Space::Tokens { name: n, tokens, max_len, wraps } => {
                    name = n.clone();
                    let k = tokens.len() as u64;
                    for len in 0..=*max_len {
                        let cnt = k.checked_pow(len as u32).unwrap() * wraps.len() as u64;
                        phases.push((cnt, Box::new(move |mut i, s: &mut String| {
                            s.clear();
                            let w = &wraps[(i % wraps.len() as u64) as usize];
                            i /= wraps.len() as u64;
                            s.push_str(&w.0);
                            for _ in 0..len {
                                s.push_str(&tokens[(i % k) as usize]);
                                i /= k;
                            }
                            s.push_str(&w.1);
                        })));
                    }
                }
                Space::Cases { name: n, cases, .. } => {
                    name = n.clone();
                    phases.push((cases.len() as u64, Box::new(move |i, s: &mut String| {
                        s.clear();
                        s.push_str(&cases[i as usize]);
                    })));
                }
            }
            for (cnt, make) in &phases {
                let next = AtomicU64::new(0);
                let chunk = (*cnt / (nthreads as u64 * 16)).clamp(1, 256);
                let err = AtomicBool::new(false);
                std::thread::scope(|sc| {
                    for t in 0..nthreads {
                        let (next, make, known, dedup, outcomes, evaluated, transitions, nontrivial, report, stop, samples, slots, busy, err) =
                            (&next, make, &known, &dedup, &outcomes, &evaluated, &transitions, &nontrivial, &report, &stop, &samples, &slots, &busy, &err);
                        std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || {
                            let slot = if slots.is_empty() { None } else { fs::OpenOptions::new().create(true).write(true).truncate(false).open(format!("{}/{}", slots, t)).ok() };
                            let mut s = String::new();
                            let mut buf: Vec<u8> = vec![];
                            loop {
                                let a = next.fetch_add(chunk, Relaxed);
                                if a >= *cnt || stop.load(Relaxed) {
                                    break;
                                }
                                for i in a..(a + chunk).min(*cnt) {
                                    make(i, &mut s);
                                    transitions.fetch_add(1, Relaxed);
                                    if !dedup.insert(h(s.as_str())) {
                                        continue;
                                    }
                                    if let Some(f) = &slot {
                                        buf.clear();
                                        buf.extend_from_slice(&(s.len() as u64).to_le_bytes());
                                        buf.extend_from_slice(s.as_bytes());
                                        f.write_all_at(&buf, 0).ok();
                                    }
                                    *busy[t].1.lock().unwrap() = s.clone();
                                    busy[t].0.store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                                    let r = catch_unwind(AssertUnwindSafe(|| p.check(&s)));
                                    busy[t].0.store(0, Relaxed);
                                    evaluated.fetch_add(1, Relaxed);
                                    match r {
                                        Err(_) => {
                                            eprintln!("ENGINE ERROR: the harness itself panicked on {:?}", s);
                                            err.store(true, Relaxed);
                                            stop.store(true, Relaxed);
                                        }
                                        Ok(Ok(o)) => {
                                            if !o.trivial {
                                                nontrivial.fetch_add(1, Relaxed);
                                            }
                                            if outcomes.insert(o.outcome) && !o.trivial {
                                                let mut sm = samples.lock().unwrap();
                                                if sm.len() < 6 + si * 3 && s.len() < 400 {
                                                    sm.push(serde_json::json!(s));
                                                }
                                            }
                                        }
                                        Ok(Err(m)) => {
                                            nontrivial.fetch_add(1, Relaxed);
                                            let mut r = report.lock().unwrap();
                                            if known.set.contains(&(p.id().to_string(), s.clone())) {
                                                r.known_hit.insert(s.clone(), m);
                                            } else {
                                                r.violations.insert((s.len(), s.clone()), m);
                                                if r.violations.len() >= max_viol() {
                                                    stop.store(true, Relaxed);
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }).expect("spawn");
                    }
                });
                if err.load(Relaxed) {
                    engine_err = true;
                }
                if stop.load(Relaxed) {
                    break;
                }
            }
            if let Space::Cases { transitions: tr, cases, .. } = sp {
                transitions.fetch_add(tr.saturating_sub(cases.len() as u64), Relaxed);
            }
            let mut d = serde_json::json!({"space": name, "executed": evaluated.load(Relaxed) - before.0, "generated": transitions.load(Relaxed) - before.1, "wall_s": ts.elapsed().as_secs_f64()});
            if let Space::Tokens { tokens, max_len, wraps, .. } = sp {
                d["alphabet"] = serde_json::json!(tokens);
                d["depth"] = serde_json::json!(max_len);
                d["contexts"] = serde_json::json!(wraps.len());
            }
            per_space.push(d);
            if stop.load(Relaxed) {
                break;
            }
        }
        done.store(true, Relaxed);
    });

    let rep = report.into_inner().unwrap();
    let samples = samples.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    if engine_err {
        return 2;
    }
    for (c, m) in &rep.known_hit {
        let txt = known_text(root, p.id(), c);
        println!("KNOWN-FINDING: property={} {:?}: {} [{}]", p.id(), c, txt, one_line(m));
    }
    let cov = serde_json::json!({
        "states": dedup.len(),
        "transitions": transitions.load(Relaxed),
        "traces_validated_against_impl": evaluated.load(Relaxed),
        "evaluations": evaluated.load(Relaxed),
        "distinct_nontrivial": nontrivial.load(Relaxed),
        "distinct_outcomes": outcomes.len(),
        "rule": p.rule(),
        "exhaustive": !stop.load(Relaxed),
        "spaces": per_space,
        "samples": samples,
        "known_findings_hit": rep.known_hit.keys().collect::<Vec<_>>(),
    });
    write_evidence(root, p, tier, &cov, rep.violations.len(), wall);
    println!("{} {:?}: states={} transitions={} nontrivial={} outcomes={} wall={:.1}s", p.id(), tier, dedup.len(), transitions.load(Relaxed), nontrivial.load(Relaxed), outcomes.len(), wall);
    if rep.violations.is_empty() {
        return 0;
    }
    for (i, ((_, c), m)) in rep.violations.iter().enumerate() {
        if i < show_viol() {
            let path = write_replay(root, p.id(), c, m);
            println!("VIOLATION property={} replay={}", p.id(), path);
            println!("  case {:?}", c);
            println!("  {}", m.replace('\n', "\n  "));
        }
    }
    println!("{} violating cases recorded{}", rep.violations.len(), if stop.load(Relaxed) { " (exploration stopped early)" } else { "" });
    1
}

fn max_viol() -> usize {
    std::env::var("VWMC_MAX").ok().and_then(|x| x.parse().ok()).unwrap_or(200)
}
fn show_viol() -> usize {
    std::env::var("VWMC_SHOW").ok().and_then(|x| x.parse().ok()).unwrap_or(5)
}
pub fn one_line(s: &str) -> String {
    let s = s.replace('\n', " / ");
    if s.chars().count() > 300 { s.chars().take(300).collect::<String>() + "…" } else { s }
}

pub fn write_replay(root: &str, id: &str, case: &str, msg: &str) -> String {
    let dir = format!("{}/replays", root);
    fs::create_dir_all(&dir).ok();
    let path = format!("{}/{}-{:016x}.json", dir, id, h(case));
    fs::write(&path, serde_json::to_string_pretty(&serde_json::json!({"property": id, "case": case, "observed": msg, "how": format!("bash {}/run.sh replay {}", root, path)})).unwrap()).ok();
    path
}

pub fn write_evidence(root: &str, p: &dyn Prop, tier: Tier, cov: &serde_json::Value, violations: usize, wall: f64) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let e = serde_json::json!({
        "property": p.id(),
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": p.assumptions(),
        "violations": violations,
        "wall_s": wall,
    });
    fs::create_dir_all(format!("{}/evidence", root)).ok();
    fs::write(format!("{}/evidence/{}.json", root, p.id()), serde_json::to_string_pretty(&e).unwrap()).expect("write evidence");
}
