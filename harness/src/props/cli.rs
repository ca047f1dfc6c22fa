//! The command line tool as a whole: the real binary, run in scratch
//! directories as an unprivileged user, over enumerated histories, layouts,
//! arguments, crash points and faults. The core library (whose own properties
//! are checked separately) is the oracle for the content of a page.
use super::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::OnceLock;

const NOBODY: u32 = 65534;

fn is_root() -> bool {
    use std::os::unix::fs::MetadataExt;
    static R: OnceLock<bool> = OnceLock::new();
    *R.get_or_init(|| fs::metadata("/proc/self").map(|m| m.uid() == 0).unwrap_or(false))
}
fn own(p: &Path) {
    if is_root() {
        std::os::unix::fs::chown(p, Some(NOBODY), Some(NOBODY)).expect("chown");
    }
}

/// Directory of this process below which every scratch directory lies; holds
/// copies of the binary and of the shim.
struct Base {
    dir: PathBuf,
    bin: PathBuf,
    shim: PathBuf,
}
fn base() -> &'static Base {
    static B: OnceLock<Base> = OnceLock::new();
    B.get_or_init(|| {
        let dir = match std::env::var("VWMC_SLOTS") {
            Ok(s) if !s.is_empty() => PathBuf::from(s).join("cli"),
            _ => PathBuf::from(format!("/dev/shm/vwmc-cli-{}", std::process::id())),
        };
        fs::create_dir_all(&dir).expect("scratch");
        let from = std::env::var("VWMC_CLI").expect("VWMC_CLI: path of the vimwiki binary");
        let shim = std::env::var("VWMC_SHIM").expect("VWMC_SHIM: path of the shim");
        let b = Base { bin: dir.join("vimwiki"), shim: dir.join("shim.so"), dir };
        fs::copy(from, &b.bin).expect("copy the binary");
        fs::copy(shim, &b.shim).expect("copy the shim");
        b
    })
}
/// Removes what `base` made (called at the end of a process that ran cases)
pub fn cleanup() {
    let dir = format!("/dev/shm/vwmc-cli-{}", std::process::id());
    if Path::new(&dir).is_dir() {
        fs::remove_dir_all(dir).ok();
    }
}

pub type Files = BTreeMap<String, Vec<u8>>;

pub struct World {
    pub dir: PathBuf,
}
impl Drop for World {
    fn drop(&mut self) {
        fs::remove_dir_all(&self.dir).ok();
    }
}
pub struct Out {
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
}
impl World {
    pub fn new() -> World {
        static N: AtomicU64 = AtomicU64::new(0);
        let dir = base().dir.join(format!("w{}", N.fetch_add(1, Relaxed)));
        fs::remove_dir_all(&dir).ok();
        fs::create_dir(&dir).expect("scratch");
        own(&dir);
        World { dir }
    }
    pub fn p(&self, rel: &str) -> PathBuf {
        self.dir.join(rel)
    }
    pub fn s(&self, rel: &str) -> String {
        self.p(rel).to_str().unwrap().to_string()
    }
    pub fn mkdir(&self, rel: &str) {
        let mut p = self.dir.clone();
        for c in rel.split('/').filter(|c| !c.is_empty()) {
            p.push(c);
            if !p.is_dir() {
                fs::create_dir(&p).expect("mkdir");
                own(&p);
            }
        }
    }
    pub fn write(&self, rel: &str, b: &[u8]) {
        if let Some((d, _)) = rel.rsplit_once('/') {
            self.mkdir(d);
        }
        let p = self.p(rel);
        fs::write(&p, b).expect("write");
        own(&p);
    }
    pub fn remove(&self, rel: &str) {
        let p = self.p(rel);
        if p.is_dir() {
            fs::remove_dir_all(p).expect("remove");
        } else {
            fs::remove_file(p).ok();
        }
    }
    /// every file below `rel`, by path relative to `rel`
    pub fn files(&self, rel: &str) -> Files {
        fn go(d: &Path, pre: &str, out: &mut Files) {
            for e in fs::read_dir(d).into_iter().flatten().flatten() {
                let n = format!("{}{}", pre, e.file_name().to_string_lossy());
                let t = e.file_type().expect("file type");
                if t.is_dir() {
                    go(&e.path(), &format!("{}/", n), out);
                } else {
                    out.insert(n, fs::read(e.path()).unwrap_or_else(|x| format!("<{}>", x).into_bytes()));
                }
            }
        }
        let mut m = Files::new();
        go(&self.p(rel), "", &mut m);
        m
    }
    pub fn run(&self, args: &[&str]) -> Out {
        self.run_with(args, "")
    }
    /// fault: see shim.c ("" for none)
    pub fn run_with(&self, args: &[&str], fault: &str) -> Out {
        self.run_path(args, fault, "/nonexistent")
    }
    pub fn run_path(&self, args: &[&str], fault: &str, path: &str) -> Out {
        let mut c = Command::new(&base().bin);
        c.args(args)
            .env_clear()
            .env("HOME", self.p("home"))
            .env("PATH", path)
            .env("LD_PRELOAD", &base().shim)
            .env("VW_ROOT", &self.dir)
            .env("VW_FAULT", fault)
            .env("VW_MARK", self.p("mark"))
            .current_dir(&self.dir)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        if is_root() {
            c.uid(NOBODY).gid(NOBODY);
        }
        let o = c.output().expect("run the binary");
        Out { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
    }
    /// whether the fault of the last run took place
    pub fn faulted(&self) -> bool {
        let m = self.p("mark");
        let r = m.exists();
        fs::remove_file(m).ok();
        r
    }
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn describe(&self) -> String {
        format!("exit {:?}, stdout {:?}, stderr {:?}", self.code, one_line(&String::from_utf8_lossy(&self.out)), one_line(&self.err))
    }
}

pub const TEMPLATE: &str = "T%title%|%root_path%|%wiki_path%|%css%|%content%<!--END-->";

#[derive(Clone)]
pub struct W {
    pub path: &'static str,
    pub html: &'static str,
    pub ext: &'static str,
    pub name: Option<&'static str>,
}
pub fn w(path: &'static str, html: &'static str) -> W {
    W { path, html, ext: "wiki", name: None }
}
pub fn toml(world: &World, ws: &[W]) -> String {
    let mut s = String::new();
    for x in ws {
        s.push_str(&format!("[[wikis]]\npath = {:?}\npath_html = {:?}\next = {:?}\n", world.s(x.path), world.s(x.html), x.ext));
        if let Some(n) = x.name {
            s.push_str(&format!("name = {:?}\n", n));
        }
    }
    s.push_str(&format!("[template]\ntext = {:?}\ndir = {:?}\n", TEMPLATE, world.s("tpl")));
    s
}
/// the same configuration for the library
pub fn config(world: &World, ws: &[W]) -> HtmlConfig {
    let mut c = HtmlConfig::default();
    for x in ws {
        let mut k = HtmlWikiConfig::default();
        k.path = world.p(x.path);
        k.path_html = world.p(x.html);
        k.ext = x.ext.into();
        k.name = x.name.map(|n| n.to_string());
        c.wikis.push(k);
    }
    c.template.text = TEMPLATE.into();
    c.template.dir = world.p("tpl");
    c
}
/// what the library makes of a page
pub fn page_html(c: &HtmlConfig, wiki: Option<usize>, file: &Path, text: &str) -> Result<Vec<u8>, String> {
    let mut c = c.clone();
    c.runtime = HtmlRuntimeConfig { wiki_index: wiki, page: file.into() };
    let p = parse(text)?;
    let r = imp("html page", || p.to_html_page(c))?;
    Ok(r.map_err(|e| format!("html page failed: {}", e))?.into_bytes())
}

/// The cells of a table are a map and come in any order
pub fn canon(mut v: serde_json::Value) -> serde_json::Value {
    fn go(v: &mut serde_json::Value) {
        match v {
            serde_json::Value::Array(a) => a.iter_mut().for_each(go),
            serde_json::Value::Object(m) => {
                for (k, x) in m.iter_mut() {
                    go(x);
                    if k == "cells" {
                        if let Some(a) = x.as_array_mut() {
                            a.sort_by_key(|c| c.to_string());
                        }
                    }
                }
            }
            _ => {}
        }
    }
    go(&mut v);
    v
}

pub fn diff(what: &str, got: &Files, want: &Files) -> Result<(), String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Err(format!("{}: {} is missing (there: {:?})", what, k, got.keys().collect::<Vec<_>>())),
            Some(g) if g != v => {
                return Err(format!("{}: {} holds {:?}, expected {:?}", what, k, one_line(&String::from_utf8_lossy(g)), one_line(&String::from_utf8_lossy(v))))
            }
            _ => {}
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            return Err(format!("{}: unexpected file {}", what, k));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P26
// The cache changes nothing but the time a run takes.
pub struct CacheModel;

const TEXTS: [&str; 7] = [
    "%title One\n= A =\n\n[[b]] *x* $y$ `z`\n",
    "%title Two\n= B =\n\n- [X] i\n  - j\n",
    "| a | b |\n|---|---|\n| \\/ | > |\n",
    "{{{c\n\u{1f600} \"q\"\\\n}}}\nt:: d %% e\n",
    "a",
    "a\n",
    "a ",
];

/// replays a history of operations, checking every run of the tool
fn cache_history(case: &str) -> Check {
    let world = World::new();
    let ws = [w("w", "h")];
    let c = config(&world, &ws);
    world.write("c.toml", toml(&world, &ws).as_bytes());
    world.mkdir("w");
    let mut pages: BTreeMap<&str, &str> = BTreeMap::new();
    let mut html = Files::new();
    let mut runs = 0;
    let mut acc: Vec<u64> = vec![];
    let (conf, cache) = (world.s("c.toml"), world.s("cache"));
    for op in case.split_whitespace() {
        let before = world.files("cache");
        match op {
            "E" => {
                for k in before.keys() {
                    world.write(&format!("cache/{}", k), b"");
                }
                continue;
            }
            "H" => {
                for (k, v) in &before {
                    world.write(&format!("cache/{}", k), &v[..v.len() / 2]);
                }
                continue;
            }
            "G" => {
                for k in before.keys() {
                    world.write(&format!("cache/{}", k), b"{\"elements\":3}");
                }
                continue;
            }
            "S" => {
                world.write("cache/0123456789abcdef", b"stray");
                continue;
            }
            _ => {}
        }
        if let Some(name) = op.strip_prefix('-') {
            let f = if name == "a" { "a" } else { "b" };
            pages.remove(f);
            world.remove(&format!("w/{}.wiki", f));
            continue;
        }
        if op.starts_with('a') || op.starts_with('b') {
            let f = if op.starts_with('a') { "a" } else { "b" };
            let t = TEXTS[op[1..].parse::<usize>().unwrap()];
            pages.insert(f, t);
            world.write(&format!("w/{}.wiki", f), t.as_bytes());
            continue;
        }
        // a run of the tool
        runs += 1;
        let mut args = vec!["-c", conf.as_str(), "--cache", cache.as_str()];
        match op {
            "n" | "j" => args.push("--no-cache"),
            "k" => args.push("--no-prune-cache"),
            _ => {}
        }
        args.extend(if op == "i" || op == "j" { &["inspect", "$.wikis[*].files[*]"][..] } else { &["convert"][..] });
        let o = world.run(&args);
        if !o.ok() {
            return Err(format!("the run {:?} failed: {}", args, o.describe()));
        }
        let mut sums = BTreeSet::new();
        if op == "i" || op == "j" {
            let got: serde_json::Value = serde_json::from_slice(&o.out).map_err(|e| format!("inspect printed no JSON: {}", e))?;
            let mut seen = BTreeSet::new();
            for f in got.as_array().ok_or("inspect printed no array")? {
                let path = f["path"].as_str().unwrap_or("?").to_string();
                let name = path.rsplit('/').next().unwrap().trim_end_matches(".wiki").to_string();
                let text = pages.get(name.as_str()).ok_or(format!("inspect lists {}", path))?;
                let want = canon(serde_json::to_value(&parse(text)?).unwrap());
                if canon(f["data"].clone()) != want {
                    return Err(format!("inspect shows {} for {}, expected {}", one_line(&f["data"].to_string()), name, one_line(&want.to_string())));
                }
                sums.insert((f["checksum"].as_str().unwrap_or("?").to_string(), text.to_string()));
                if !seen.insert(name) {
                    return Err(format!("inspect lists {} twice", path));
                }
            }
            if seen.len() != pages.len() {
                return Err(format!("inspect lists {:?} of {:?}", seen, pages.keys()));
            }
            let a: BTreeSet<_> = sums.iter().map(|x| &x.0).collect();
            let b: BTreeSet<_> = sums.iter().map(|x| &x.1).collect();
            if a.len() != sums.len() || b.len() != sums.len() {
                return Err(format!("checksums and texts do not correspond: {:?}", sums));
            }
        } else {
            for (f, t) in &pages {
                html.insert(format!("{}.html", f), page_html(&c, Some(0), &world.p(&format!("w/{}.wiki", f)), t)?);
            }
        }
        diff("output", &world.files("h"), &html)?;
        // the sources are only ever read
        let src: Files = pages.iter().map(|(f, t)| (format!("{}.wiki", f), t.as_bytes().to_vec())).collect();
        diff("sources", &world.files("w"), &src)?;
        // the cache itself
        let after = world.files("cache");
        let texts: BTreeSet<&str> = pages.values().copied().collect();
        let page_of = |v: &[u8]| serde_json::from_slice::<serde_json::Value>(v).ok().map(canon);
        match op {
            "n" | "j" => diff("cache after a run without cache", &after, &before)?,
            "k" => {
                for k in before.keys() {
                    if !after.contains_key(k) {
                        return Err(format!("{} was pruned although told not to", k));
                    }
                }
            }
            _ => {
                if after.len() != texts.len() {
                    return Err(format!("the cache holds {:?} for {} texts", after.keys().collect::<Vec<_>>(), texts.len()));
                }
            }
        }
        if op != "n" && op != "j" {
            let held: Vec<_> = after.values().filter_map(|v| page_of(v)).collect();
            for t in &texts {
                let want = canon(serde_json::to_value(&parse(t)?).unwrap());
                if !held.contains(&want) {
                    return Err(format!("no entry of the cache holds the page of {:?}", t));
                }
            }
            for (s, _) in &sums {
                if !after.contains_key(s) {
                    return Err(format!("the cache has no entry named {}", s));
                }
            }
        }
        acc.push(h(&(op, &after.keys().collect::<Vec<_>>(), &html)));
    }
    if runs == 0 {
        return Ok(trivial(&0));
    }
    Ok(seen(&acc))
}

impl Prop for CacheModel {
    fn id(&self) -> &'static str {
        "P26"
    }
    fn rule(&self) -> &'static str {
        "all histories of page edits (aN/bN write text N, -a/-b delete), cache damage (E empty, H cut, G foreign JSON, S stray file) and runs of the real binary (c convert, k without pruning, n without cache, i inspect, j inspect without cache); non-trivial when the history runs the tool"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["an entry of the cache that parses as a page is taken to be the page its name stands for (nobody forges entries)"]
    }
    fn horizon_s(&self) -> u64 {
        60
    }
    fn spaces(&self, t: Tier) -> Vec<Space> {
        let start = [("a0 b1 ", " c"), ("a0 b0 c ", " i"), ("a2 c a3 ", " k i")];
        let q = ["a0 ", "a1 ", "b1 ", "-a ", "c ", "n ", "k ", "i ", "E ", "H ", "G ", "S "];
        let small = ["a1 ", "a0 ", "-b ", "c ", "k ", "H ", "n "];
        vec![
            toks_in("operations", &q, t.pick(2, 3), &start),
            toks_in("longer histories", &small, t.pick(3, 5), &[("a0 b0 ", " c j")]),
            toks_in("texts that differ little", &["a4 ", "a5 ", "a6 ", "b4 ", "b5 ", "b6 ", "c "], t.pick(2, 4), &[("b4 a5 ", " i c")]),
            toks_in("texts", &["a0 ", "a1 ", "a2 ", "a3 ", "b0 ", "b1 ", "b2 ", "b3 ", "c ", "k "], 3, &[("", " c i")]),
        ]
    }
    fn check(&self, case: &str) -> Check {
        cache_history(case)
    }
}

// ------------------------------------------------------------------ P27
// No crash and no failing write of an earlier run shows in a later run.
pub struct Crash;

/// "<scenario> <command> <fault>"
fn crash_case(case: &str) -> Check {
    let f: Vec<&str> = case.split(' ').collect();
    let (scenario, command, fault) = (f[0], f[1], f[2]);
    let world = World::new();
    let ws = [w("w", "h")];
    let c = config(&world, &ws);
    world.write("c.toml", toml(&world, &ws).as_bytes());
    let (conf, cache) = (world.s("c.toml"), world.s("cache"));
    let common = ["-c", conf.as_str(), "--cache", cache.as_str()];
    let mut pages: BTreeMap<&str, &str> = [("a", TEXTS[0]), ("s/b", TEXTS[1])].into();
    let put = |pages: &BTreeMap<&str, &str>| {
        for (f, t) in pages {
            world.write(&format!("w/{}.wiki", f), t.as_bytes());
        }
    };
    put(&pages);
    let convert: Vec<&str> = common.iter().copied().chain(["convert"]).collect();
    if scenario != "cold" {
        let o = world.run(&convert);
        if !o.ok() {
            return Err(format!("the first run failed: {}", o.describe()));
        }
    }
    if scenario == "edited" {
        pages.insert("a", TEXTS[3]);
        pages.insert("c", TEXTS[2]);
        put(&pages);
    }
    let args: Vec<&str> = match command {
        "convert" => convert.clone(),
        "stdout" => common.iter().copied().chain(["convert", "--stdout"]).collect(),
        "keep" => common.iter().copied().chain(["--no-prune-cache", "convert", "--include-vimwiki-css"]).collect(),
        "inspect" => common.iter().copied().chain(["inspect", "$.wikis[*].files[*].data"]).collect(),
        "index" => common.iter().copied().chain(["inspect", "$.wikis[*].index"]).collect(),
        "file" => common.iter().copied().chain(["inspect", "-o", "out.json", "$.wikis[*].files[*].data"]).collect(),
        _ => unreachable!("command"),
    };
    let src: Files = pages.iter().map(|(f, t)| (format!("{}.wiki", f), t.as_bytes().to_vec())).collect();
    let mut html = Files::new();
    for (f, t) in &pages {
        html.insert(format!("{}.html", f), page_html(&c, Some(0), &world.p(&format!("w/{}.wiki", f)), t)?);
    }
    let mut data: Vec<String> = vec![];
    for t in pages.values() {
        data.push(canon(serde_json::to_value(&parse(t)?).unwrap()).to_string());
    }
    data.sort();
    let verify = |o: &Out, what: &str| -> Result<(), String> {
        match command {
            "convert" | "keep" => {
                let mut got = world.files("h");
                if command == "keep" {
                    got.remove("style.css").ok_or(format!("{}: no style.css", what))?;
                }
                got.retain(|k, _| k != "style.css");
                diff(&format!("output {}", what), &got, &html)
            }
            "stdout" => {
                let text = String::from_utf8_lossy(&o.out).into_owned();
                let mut got: Vec<&str> = text.split_inclusive("<!--END-->\n").collect();
                got.sort();
                let mut want: Vec<String> = html.values().map(|v| String::from_utf8_lossy(v).into_owned() + "\n").collect();
                want.sort();
                if got != want {
                    return Err(format!("printed {}: {:?}, expected {:?}", what, got, want));
                }
                Ok(())
            }
            "index" => match serde_json::from_slice::<Vec<u32>>(&o.out) {
                Ok(v) if v == [0] => Ok(()),
                _ => Err(format!("inspect {} prints {:?}", what, String::from_utf8_lossy(&o.out))),
            },
            _ => {
                let bytes = if command == "file" { fs::read(world.p("out.json")).unwrap_or_default() } else { o.out.clone() };
                let v: Vec<serde_json::Value> = serde_json::from_slice(&bytes).map_err(|e| format!("{}: inspect gave no JSON array ({}): {:?}", what, e, String::from_utf8_lossy(&bytes)))?;
                let mut got: Vec<String> = v.iter().map(|x| canon(x.clone()).to_string()).collect();
                got.sort();
                if got != data {
                    return Err(format!("inspect {}: {:?}, expected {:?}", what, got, data));
                }
                Ok(())
            }
        }
    };
    let outcome;
    if let Some(damage) = fault.strip_prefix('@') {
        // what a crash of the machine can leave of a file written before:
        // a part of it, or its length with the tail never stored
        let (kind, n) = damage.split_at(1);
        let (which, cut) = n.split_once('.').unwrap();
        let entries = world.files("cache");
        let (name, v) = entries.iter().nth(which.parse::<usize>().unwrap()).ok_or("the cache misses an entry")?;
        let cut: usize = cut.parse().unwrap();
        if cut >= v.len() {
            return Ok(trivial(&1));
        }
        let mut d = v[..cut].to_vec();
        if kind == "z" {
            d.resize(v.len(), 0);
        }
        world.write(&format!("cache/{}", name), &d);
        outcome = h(&(command, cut));
    } else {
        let o = world.run_with(&args, fault);
        let hit = world.faulted();
        diff("sources after the fault", &world.files("w"), &src)?;
        if !hit {
            // beyond the last operation: an ordinary run
            if !o.ok() {
                return Err(format!("the run failed: {}", o.describe()));
            }
            verify(&o, "of an ordinary run")?;
            return Ok(trivial(&2));
        }
        match &fault[..1] {
            "s" | "i" => {
                if !o.ok() {
                    return Err(format!("a short or interrupted write made the run fail: {}", o.describe()));
                }
                verify(&o, "after a short or interrupted write")?;
            }
            "e" | "d" => {
                if o.ok() {
                    verify(&o, "of a run that says it succeeded although a write failed")?;
                }
            }
            _ => {
                if o.code != Some(77) {
                    return Err(format!("expected to end at the crash point: {}", o.describe()));
                }
            }
        }
        outcome = h(&(&o.code, world.files("cache").len(), world.files("h").len()));
    }
    let o = world.run(&args);
    if !o.ok() {
        return Err(format!("the run after the fault failed: {}", o.describe()));
    }
    verify(&o, "of the run after the fault")?;
    diff("sources after the next run", &world.files("w"), &src)?;
    if command != "keep" {
        let held = world.files("cache");
        let texts: BTreeSet<_> = pages.values().collect();
        if held.len() != texts.len() {
            return Err(format!("the cache holds {:?} for {} texts", held.keys().collect::<Vec<_>>(), texts.len()));
        }
        for (k, v) in &held {
            if serde_json::from_slice::<serde_json::Value>(v).is_err() {
                return Err(format!("the entry {} of the cache is damaged after the next run", k));
            }
        }
    }
    Ok(seen(&outcome))
}

impl Prop for Crash {
    fn id(&self) -> &'static str {
        "P27"
    }
    fn rule(&self) -> &'static str {
        "every (scenario, command, fault): the n-th operation that changes something (open for writing, write, mkdir, unlink, standard output) of the real binary is the crash point (k before, p half done, a after), fails (e), fails with all after it (d), is short (s) or interrupted (i); @t/@z: every torn length of every cache entry; then the same command runs again without fault; non-trivial when the fault took place"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a crash keeps the operations before it (plus, for entries of the cache, every torn length and zero-filled tail); operations are not reordered",
            "format -i rewrites pages in place without a temporary file; its behaviour at a crash is not claimed",
        ]
    }
    fn horizon_s(&self) -> u64 {
        60
    }
    fn spaces(&self, t: Tier) -> Vec<Space> {
        let mut v = vec![];
        for sc in ["cold", "warm", "edited"] {
            for cmd in ["convert", "stdout", "keep", "inspect", "file", "index"] {
                for mode in ["k", "p", "a", "e", "d", "s", "i"] {
                    for n in 1..=t.pick(12, if cmd == "inspect" { 400 } else { 60 }) {
                        v.push(format!("{} {} {}{}", sc, cmd, mode, n));
                        if ["stdout", "inspect", "index"].contains(&cmd) {
                            v.push(format!("{} {} {}o{}", sc, cmd, mode, n));
                        }
                    }
                }
            }
        }
        let mut torn = vec![];
        for cmd in t.pick(vec!["convert"], vec!["convert", "inspect", "keep", "stdout"]) {
            for which in 0..2 {
                for cut in (0..4000).step_by(t.pick(7, 1)) {
                    for k in ["t", "z"] {
                        torn.push(format!("warm {} @{}{}.{}", cmd, k, which, cut));
                    }
                }
            }
        }
        vec![cases("crash points and faults", v), cases("torn cache entries", torn)]
    }
    fn check(&self, case: &str) -> Check {
        crash_case(case)
    }
}

// ------------------------------------------------------------------ P28
pub struct FormatFiles;

const FMT: [&[u8]; 5] = [
    b"=  A =\nx\n-  i\n   - j\n| a|bb |\n",
    b"= A =\n\nx\n",
    b"",
    b"a\xff\xfeb\n",
    b"%%+ c\nd +%%\n{{{e\n  f\n}}}\n\n\n\n> q\n",
];
const FMT_CONF: [&str; 3] = ["", "[page]\nindent_str = \"\\t\"\nseparate_block_elements = false\n", "[header]\nno_padding = true\n[paragraph]\ntrim_lines = false\n[table]\nno_padding = true\n"];

fn fmt_config(i: usize) -> VimwikiConfig {
    let mut c = VimwikiConfig::default();
    match i {
        1 => {
            c.page.indent_str = "\t".into();
            c.page.separate_block_elements = false;
        }
        2 => {
            c.header.no_padding = true;
            c.paragraph.trim_lines = false;
            c.table.no_padding = true;
        }
        _ => {}
    }
    c
}

fn permutations(v: &[Vec<u8>]) -> Vec<Vec<u8>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut r = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for p in permutations(&rest) {
            r.push([x.clone(), p].concat());
        }
    }
    r
}

/// "<text of a> <text of b> <path set> <i|o> <ext set> <config>"
fn format_case(case: &str) -> Check {
    let f: Vec<usize> = case.split(' ').map(|x| x.parse().unwrap()).collect();
    let world = World::new();
    let mut disk: Files = Files::new();
    disk.insert("f/a.wiki".into(), FMT[f[0]].into());
    disk.insert("f/sub/b.wiki".into(), FMT[f[1]].into());
    disk.insert("f/c.md".into(), FMT[(f[0] + 1) % 3].into());
    disk.insert("f/noext".into(), FMT[0].into());
    disk.insert("g.txt".into(), FMT[0].into());
    disk.insert("f.wiki".into(), FMT[0].into());
    for (i, n) in [".hidden.wiki", ".wiki", "up.WIKI", "A B.wiki", "é.wiki", "d.wiki/in.wiki", "d.wiki/x.md", "-i.wiki", "a.wiki.bak", "awiki"].iter().enumerate() {
        if f[2] > 6 {
            disk.insert(format!("o/{}", n), FMT[(f[0] + f[1] + i) % 3].into());
        }
    }
    for (k, v) in &disk {
        world.write(k, v);
    }
    let paths: &[&str] = [&["f"][..], &["f/a.wiki"], &["f/c.md", "f/sub"], &["f", "f/a.wiki"], &["g.txt"], &["f/a.wiki", "missing"], &["f/noext", "f/../f/a.wiki"], &["o"], &["o/.hidden.wiki", "o/d.wiki"], &["o/A B.wiki", "o/up.WIKI"]][f[2]];
    let exts: &[&str] = [&[][..], &["md"], &["wiki", "md"]][f[4]];
    let mut args: Vec<String> = vec![];
    if f[5] > 0 {
        world.write("c.toml", FMT_CONF[f[5]].as_bytes());
        disk.insert("c.toml".into(), FMT_CONF[f[5]].into());
        args.extend(["-c".into(), world.s("c.toml")]);
    }
    args.push("format".into());
    for e in exts {
        args.push(format!("--ext={}", e));
    }
    if f[3] == 1 {
        args.push("-i".into());
    }
    for p in paths {
        args.push(world.s(p));
    }
    let o = world.run(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    // what is to be formatted, by argument
    let default = ["wiki"];
    let exts = if exts.is_empty() { &default[..] } else { exts };
    let mut groups: Vec<Vec<&str>> = vec![];
    let mut missing = false;
    for p in paths {
        let p = if *p == "f/../f/a.wiki" { "f/a.wiki" } else { p };
        if p == "missing" {
            missing = true;
        } else if disk.contains_key(p) {
            groups.push(vec![disk.get_key_value(p).unwrap().0]);
        } else {
            groups.push(disk.keys().map(|k| k.as_str()).filter(|k| k.starts_with(&format!("{}/", p)) && Path::new(k).extension().map_or(false, |e| exts.contains(&e.to_str().unwrap()))).collect());
        }
    }
    let mut want = disk.clone();
    let mut bad = missing;
    let mut prints: Vec<Vec<Vec<u8>>> = vec![];
    for g in &groups {
        let mut pr = vec![];
        for k in g {
            match std::str::from_utf8(&want[*k]) {
                Err(_) => bad = true,
                Ok(t) => {
                    let t = t.to_string();
                    let p = parse(&t)?;
                    let s = format_with(&p, fmt_config(f[5]))?;
                    if f[3] == 1 {
                        want.insert(k.to_string(), s.into_bytes());
                    } else {
                        pr.push((s + "\n").into_bytes());
                    }
                }
            }
        }
        prints.push(pr);
    }
    let mut got = world.files("");
    got.retain(|k, _| !k.starts_with("home"));
    if bad {
        if o.ok() {
            return Err(format!("an argument could not be processed but the tool exits with 0: {}", o.describe()));
        }
        // every file is as it was or formatted
        for (k, v) in &got {
            if Some(v) != want.get(k) && Some(v) != disk.get(k) {
                return Err(format!("{} holds {:?}", k, String::from_utf8_lossy(v)));
            }
        }
        if got.len() != disk.len() {
            return Err("files appeared or vanished".into());
        }
        return Ok(seen(&(1, &o.code)));
    }
    if !o.ok() {
        return Err(format!("format failed: {}", o.describe()));
    }
    diff("files", &got, &want)?;
    let mut outs: Vec<Vec<u8>> = vec![vec![]];
    if f[3] == 0 {
        for pr in &prints {
            let ps = permutations(pr);
            outs = outs.iter().flat_map(|a| ps.iter().map(move |b| [a.clone(), b.clone()].concat())).collect();
        }
    }
    if !outs.contains(&o.out) {
        return Err(format!("printed {:?}, expected {:?}", String::from_utf8_lossy(&o.out), String::from_utf8_lossy(&outs[0])));
    }
    Ok(seen(&(&o.out, &got)))
}

impl Prop for FormatFiles {
    fn id(&self) -> &'static str {
        "P28"
    }
    fn rule(&self) -> &'static str {
        "all combinations of page texts (one not UTF-8), path arguments (directory, files, both, missing), in place or printed, extension filters and configurations, each run by the real binary; every case is non-trivial"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the order in which the files of one directory are printed is left open"]
    }
    fn spaces(&self, t: Tier) -> Vec<Space> {
        let mut v = vec![];
        for a in 0..5 {
            for b in 0..5 {
                if t == Tier::Quick && a != b && a != 0 && b != 3 {
                    continue;
                }
                for p in 0..10 {
                    for i in 0..2 {
                        for e in 0..3 {
                            for c in 0..3 {
                                v.push(format!("{} {} {} {} {} {}", a, b, p, i, e, c));
                            }
                        }
                    }
                }
            }
        }
        vec![cases("format runs", v)]
    }
    fn check(&self, case: &str) -> Check {
        format_case(case)
    }
}

// ------------------------------------------------------------------ P29
pub struct Convert;

/// The first twelve in all subsets up to a size, the others (odd names) with at most one more
const UNIVERSE: [(&str, &str); 24] = [
    ("w/a.wiki", "= A =\n[[sub/b]] [[/index]] [[wiki0:sub/b]] [[diary:2020-01-01]] {{local:i.png}}\n"),
    ("w/sub/b.wiki", "%title Bee\n* [[../a#A]]\n"),
    ("w/sub/deep/c.d.wiki", "%template t.html\n[[../../a]] [[b.c]] :t:\n"),
    ("w/a.md", "= M =\n[[file:x.txt]]\n"),
    ("w/noext", "n\n"),
    ("w/diary/2020-01-01.wiki", "%date 2020-01-01\n[[diary:2020-01-02]]\n"),
    ("wx/a.wiki", "%nohtml\n[[wiki0:a]] [[wiki1:a#b]]\n"),
    ("loose/x.wiki", "= X =\n[[y]]\n"),
    ("loose/in/z.wiki", "[[../x]]\n"),
    ("loose/y.txt", "t\n"),
    ("w/e.wiki", "%template empty.html\n"),
    ("w/sub/f.wiki", ""),
    ("w/A B.wiki", "[[é]] [[a b]]\n"),
    ("w/é日.wiki", "[[A B]]\n"),
    ("w/up.WIKI", "U\n"),
    ("w/.hidden.wiki", "= H =\n"),
    ("w/.wiki", "dot\n"),
    ("w/sub.wiki", "[[sub/b]]\n"),
    ("w/d.wiki/in.wiki", "[[../a]]\n"),
    ("w/d.wiki/x.md", "m\n"),
    ("w/-i.wiki", "%title -i\n"),
    ("w/a.wiki.wiki", "[[a.wiki]]\n"),
    ("w/a.html", "kept\n"),
    ("w/.d/h.wiki", "[[/a]]\n"),
];
const T_HTML: &str = "<x>%content%%title%</x><!--END-->";

fn layouts() -> Vec<Vec<W>> {
    let mut md = w("w", "h");
    md.ext = "md";
    let mut named = w("w", "h");
    named.name = Some("w");
    vec![
        vec![w("w", "h")],
        vec![named, w("wx", "hx")],
        vec![w("w", "h"), w("w/sub", "out/h2")],
        vec![w("w/sub", "out/h2"), w("w", "h")],
        vec![md, w("wx", "hm")],
        vec![w("w", "w/html"), w("wx", "w/html/wx")],
    ]
}
const MODES: [&str; 8] = ["plain", "stdout", "css", "file", "dir", "missing", "stdout-dir", "css-file"];

/// "<layout> <mode> <files as a bit set>"
fn convert_case(case: &str) -> Check {
    let f: Vec<&str> = case.split(' ').collect();
    let (layout, mode, bits): (usize, &str, u32) = (f[0].parse().unwrap(), f[1], f[2].parse().unwrap());
    let world = World::new();
    let ws = &layouts()[layout];
    let mut c = config(&world, ws);
    world.write("c.toml", toml(&world, ws).as_bytes());
    world.write("tpl/t.html", T_HTML.as_bytes());
    // printed pages are told apart by the end mark
    world.write("tpl/empty.html", if mode.starts_with("stdout") { b"%content%<!--END-->" } else { b"%content%" });
    for x in ws {
        world.mkdir(x.path);
    }
    world.mkdir("loose");
    let files: Vec<(&str, &str)> = UNIVERSE.iter().enumerate().filter(|(i, _)| bits & (1 << i) != 0).map(|(_, x)| *x).collect();
    for (p, t) in &files {
        world.write(p, t.as_bytes());
    }
    let before = world.files("");
    let conf = world.s("c.toml");
    let cache = world.s("cache");
    let mut args: Vec<&str> = vec!["-c", &conf, "--cache", &cache, "convert"];
    let extra: Option<String> = match mode {
        "file" | "css-file" => Some(world.s("loose/x.wiki")),
        "dir" | "stdout-dir" => Some(world.s("loose")),
        "missing" => Some(world.s("nothing")),
        _ => None,
    };
    if mode.starts_with("stdout") {
        args.push("--stdout");
    }
    if mode.starts_with("css") {
        args.push("--include-vimwiki-css");
    }
    if let Some(e) = &extra {
        args.push(e);
    }
    let has_x = files.iter().any(|x| x.0 == "loose/x.wiki");
    let o = world.run(&args);
    let mut got = world.files("");
    got.retain(|k, _| !k.starts_with("cache/"));
    if mode == "missing" || ((mode == "file" || mode == "css-file") && !has_x) {
        if o.ok() {
            return Err(format!("a path that does not exist was accepted: {}", o.describe()));
        }
        diff("files", &got, &before)?;
        return Ok(seen(&(2, &o.code)));
    }
    if !o.ok() {
        return Err(format!("convert failed: {}", o.describe()));
    }
    // expected pages: (output path, content)
    let mut want = before.clone();
    let mut pages: BTreeSet<Vec<u8>> = BTreeSet::new();
    if extra.is_some() {
        // standalone files belong to a temporary wiki with the defaults
        let mut k = HtmlWikiConfig::default();
        k.path = world.p("loose");
        k.path_html = world.p("home/vimwiki_html");
        c.wikis.push(k);
        for (p, t) in &files {
            if let Some(rel) = p.strip_prefix("loose/").and_then(|r| r.strip_suffix(".wiki")) {
                if (mode == "file" || mode == "css-file") && rel != "x" {
                    continue;
                }
                let html = page_html(&c, Some(ws.len()), &world.p(p), t)?;
                pages.insert(html.clone());
                want.insert(format!("home/vimwiki_html/{}.html", rel), html);
            }
        }
    } else {
        for (p, t) in &files {
            // walked by a wiki that contains it and wants its extension;
            // belongs to the deepest wiki that contains it (the last of equals)
            let inside = |x: &W| p.strip_prefix(x.path).map_or(false, |r| r.starts_with('/'));
            let ext = p.rsplit('/').next().unwrap().rsplit_once('.').filter(|x| !x.0.is_empty()).map(|x| x.1);
            if !ws.iter().any(|x| inside(x) && ext == Some(x.ext)) {
                continue;
            }
            let i = ws.iter().enumerate().filter(|(_, x)| inside(x)).max_by_key(|(_, x)| x.path.len()).unwrap().0;
            let html = page_html(&c, Some(i), &world.p(p), t)?;
            pages.insert(html.clone());
            let rel = &p[ws[i].path.len() + 1..];
            let rel = rel.rsplit_once('.').unwrap().0;
            want.insert(format!("{}/{}.html", ws[i].html, rel), html);
        }
    }
    if mode.starts_with("stdout") {
        diff("files (printing only)", &got, &before)?;
        let text = String::from_utf8_lossy(&o.out).into_owned();
        let printed: BTreeSet<Vec<u8>> = text.split_inclusive("<!--END-->\n").map(|x| x.strip_suffix('\n').unwrap_or(x).as_bytes().to_vec()).collect();
        if printed != pages {
            return Err(format!("printed {:?}, expected {:?}", text, pages.iter().map(|v| String::from_utf8_lossy(v).into_owned()).collect::<Vec<_>>()));
        }
        return Ok(seen(&printed));
    }
    if mode.starts_with("css") {
        let roots: Vec<String> = if extra.is_some() { vec!["home/vimwiki_html".into()] } else { ws.iter().map(|x| x.html.to_string()).collect() };
        let mut css = BTreeSet::new();
        for r in roots {
            let k = format!("{}/style.css", r);
            css.insert(got.remove(&k).ok_or(format!("{} was not written", k))?);
        }
        if css.len() != 1 || css.iter().next().unwrap().len() < 100 {
            return Err("the style sheets differ or are empty".into());
        }
    }
    diff("files", &got, &want)?;
    Ok(seen(&want))
}

impl Prop for Convert {
    fn id(&self) -> &'static str {
        "P29"
    }
    fn rule(&self) -> &'static str {
        "all subsets (up to a size) of a universe of page, diary, dotted, foreign and loose files, in each layout of wikis (single, siblings with a common prefix, nested in either order, other extension, output within the wiki) and each way to call convert; every case is non-trivial"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["directories hold no symbolic links", "a page of a configured wiki that is also named as PATH argument is not claimed"]
    }
    fn spaces(&self, t: Tier) -> Vec<Space> {
        let mut v = vec![];
        for l in 0..layouts().len() {
            for m in MODES {
                for i in 12..UNIVERSE.len() {
                    for j in 0..=i {
                        v.push(format!("{} {} {}", l, m, 1u32 << i | 1 << j));
                    }
                }
                for bits in 0u32..1 << 12 {
                    if bits.count_ones() <= t.pick(2, 5) {
                        v.push(format!("{} {} {}", l, m, bits));
                    }
                }
            }
        }
        vec![cases("convert runs", v)]
    }
    fn check(&self, case: &str) -> Check {
        convert_case(case)
    }
}

// ------------------------------------------------------------------ P30
pub struct Include;

/// names of the three wikis
const NAMES: [[Option<&str>; 3]; 5] = [[Some("x"), Some("xy"), Some("X")], [None, None, None], [Some("x"), Some("y"), Some("z")], [Some("x"), None, Some("x")], [Some("y"), Some("x y"), Some("w-2")]];
const INCL: [&str; 8] = ["0", "1", "2", "3", "x", "y", "x y", "w-2"];

/// "<names> <command> <include set>"
fn include_case(case: &str) -> Check {
    let f: Vec<&str> = case.split(' ').collect();
    let (names, command, bits): (usize, &str, u32) = (f[0].parse().unwrap(), f[1], f[2].parse().unwrap());
    let world = World::new();
    let paths = [("v", "hv"), ("v2", "hv2"), ("u", "hu")];
    let ws: Vec<W> = (0..3).map(|i| W { path: paths[i].0, html: paths[i].1, ext: "wiki", name: NAMES[names][i] }).collect();
    let c = config(&world, &ws);
    world.write("c.toml", toml(&world, &ws).as_bytes());
    let mut text = "[[wiki0:a]] [[wiki1:a]] [[wiki2:a]] [[diary:2020-01-01]]\n".to_string();
    for n in NAMES[names].iter().flatten() {
        text.push_str(&format!("[[wn.{}:a]]\n", n));
    }
    let pages = ["a", "s/b"];
    for x in &ws {
        for p in pages {
            world.write(&format!("{}/{}.wiki", x.path, p), format!("= {} =\n{}", x.path, text).as_bytes());
        }
    }
    let incl: Vec<&str> = INCL.iter().enumerate().filter(|(i, _)| bits & (1 << i) != 0).map(|x| *x.1).collect();
    let selected: Vec<usize> = (0..3)
        .filter(|&i| incl.is_empty() || incl.iter().any(|s| s.parse::<usize>() == Ok(i) || NAMES[names][i] == Some(*s)))
        .collect();
    let inc_args: Vec<String> = incl.iter().map(|s| format!("--include={}", s)).collect();
    let conf = world.s("c.toml");
    let cache = world.s("cache");
    let mut args: Vec<&str> = inc_args.iter().map(|s| s.as_str()).collect();
    args.extend(["-c", &conf, "--cache", &cache]);
    match command {
        "inspect" => args.extend(["inspect", "$"]),
        "out" => args.extend(["inspect", "-o", "out.json", "$.wikis[*].index"]),
        "paths" => args.extend(["inspect", "$..path"]),
        _ => args.push("convert"),
    }
    let o = world.run(&args);
    if !o.ok() {
        return Err(format!("the run failed: {}", o.describe()));
    }
    let json = |b: &[u8]| serde_json::from_slice::<serde_json::Value>(b).map_err(|e| format!("inspect gave no JSON: {}", e));
    let mut want_h = Files::new();
    match command {
        "inspect" => {
            let mut v = json(&o.out)?;
            let mut want = vec![];
            for &i in &selected {
                let mut fs: Vec<serde_json::Value> = vec![];
                for p in pages {
                    let t = format!("= {} =\n{}", ws[i].path, text);
                    fs.push(serde_json::json!({"path": world.s(&format!("{}/{}.wiki", ws[i].path, p)), "data": serde_json::to_value(&parse(&t)?).unwrap()}));
                }
                want.push(serde_json::json!({"index": i, "name": NAMES[names][i], "path": world.s(ws[i].path), "files": fs}));
            }
            // order of files and checksums are left open
            if let Some(a) = v[0]["wikis"].as_array_mut() {
                for x in a {
                    if let Some(fs) = x["files"].as_array_mut() {
                        for y in fs.iter_mut() {
                            y.as_object_mut().map(|m| m.remove("checksum"));
                        }
                        fs.sort_by_key(|y| y["path"].to_string());
                    }
                }
            }
            if v != serde_json::json!([{ "wikis": want }]) {
                return Err(format!("inspect shows {}, expected {}", v, serde_json::json!([{ "wikis": want }])));
            }
        }
        "out" => {
            if !o.out.is_empty() {
                return Err(format!("inspect -o prints {:?}", String::from_utf8_lossy(&o.out)));
            }
            let v = json(&fs::read(world.p("out.json")).map_err(|e| format!("no output file: {}", e))?)?;
            if v != serde_json::json!(selected) {
                return Err(format!("the indexes are {}, expected {:?}", v, selected));
            }
        }
        "paths" => {
            let v = json(&o.out)?;
            let got: BTreeSet<String> = v.as_array().ok_or("no array")?.iter().filter_map(|x| x.as_str()).filter(|x| x.starts_with('/')).map(|x| x.to_string()).collect();
            let mut want = BTreeSet::new();
            for &i in &selected {
                want.insert(world.s(ws[i].path));
                for p in pages {
                    want.insert(world.s(&format!("{}/{}.wiki", ws[i].path, p)));
                }
            }
            if got != want {
                return Err(format!("the paths are {:?}, expected {:?}", got, want));
            }
        }
        _ => {
            for &i in &selected {
                for p in pages {
                    let t = format!("= {} =\n{}", ws[i].path, text);
                    want_h.insert(format!("{}/{}.html", ws[i].html, p), page_html(&c, Some(i), &world.p(&format!("{}/{}.wiki", ws[i].path, p)), &t)?);
                }
            }
        }
    }
    let mut got_h = Files::new();
    for x in &ws {
        for (k, v) in world.files(x.html) {
            got_h.insert(format!("{}/{}", x.html, k), v);
        }
    }
    diff("output", &got_h, &want_h)?;
    Ok(seen(&(command, &selected, names)))
}

impl Prop for Include {
    fn id(&self) -> &'static str {
        "P30"
    }
    fn rule(&self) -> &'static str {
        "all sets of --include values (indexes, names, unknown ones) for each naming of three wikis and each of convert, inspect, inspect -o and a recursive path query; every case is non-trivial"
    }
    fn spaces(&self, t: Tier) -> Vec<Space> {
        let mut v = vec![];
        for n in 0..NAMES.len() {
            for c in ["inspect", "convert", "out", "paths"] {
                for bits in 0u32..1 << INCL.len() {
                    if bits.count_ones() <= t.pick(3, 8) {
                        v.push(format!("{} {} {}", n, c, bits));
                    }
                }
            }
        }
        vec![cases("include runs", v)]
    }
    fn check(&self, case: &str) -> Check {
        include_case(case)
    }
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(CacheModel), Box::new(Crash), Box::new(FormatFiles), Box::new(Convert), Box::new(Include)]
}
