//! The compile time macros. Every case of the space becomes one invocation in
//! a generated program, which is compiled (by the real macros) and run; what
//! it yields is compared with what parsing the text at run time yields.
use super::*;
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

pub const MACRO_PROPS: [&str; 2] = ["P31", "P32"];
const PARTS: usize = 8;

/// case: `<suffix>|<variant>|<text>`; variants: `raw` raw literal to the raw
/// macro, `ind` raw literal to the macro that removes indentation, `esc` and
/// `byte` escaped and byte literals to the raw macro, `fmt` / `fmi` the format
/// macros (raw, with indentation removed), `noa` a format macro without arguments
fn split(case: &str) -> (&str, &str, &str) {
    let mut it = case.splitn(3, '|');
    (it.next().unwrap(), it.next().unwrap(), it.next().unwrap())
}

const ARGS: &str = ", \"P0\", 11, \"p2\", 1 + 2, \"p4\", \"p5\", \"p6\", \"p7\", format!(\"{}\", 'e'), \"p9\", \"p10\", xx = \"XX\", x = \"X y\", n1 = 5, n = 7, é = \"E\", _u = 0, nn = 9";

fn invocation(case: &str) -> String {
    let (suffix, variant, text) = split(case);
    let raw = format!("r####\"{}\"####", text);
    let (mac, lit) = match variant {
        "raw" => (format!("{}_raw", suffix), raw),
        "ind" => (suffix.to_string(), raw),
        "esc" => (format!("{}_raw", suffix), format!("{:?}", text)),
        "byte" => (format!("{}_raw", suffix), format!("br####\"{}\"####", text)),
        "fmt" => (format!("{}_raw_format", suffix), raw + ARGS),
        "fmi" => (format!("{}_format", suffix), raw + ARGS),
        "noa" => (format!("{}_raw_format", suffix), raw),
        _ => unreachable!("variant"),
    };
    if suffix == "page" {
        format!("serde_json::to_string(&vimwiki::macros::vimwiki_{}!({})).unwrap()", mac, lit)
    } else {
        format!("let x = vimwiki::macros::vimwiki_{}!({}); serde_json::to_string(&(x.as_inner(), x.region())).unwrap()", mac, lit)
    }
}

/// Compiles and runs one invocation per case; the result of each case is what
/// it printed or the error the compiler reported in it.
pub fn prepare(cases: &[String], root: &str, dir: &str) -> Result<(), String> {
    fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let mut all: Vec<String> = cases.to_vec();
    all.sort();
    all.dedup();
    let mut results = BTreeMap::new();
    // one program of this size takes the compiler about 1 GB for each part
    for batch in all.chunks(12_000) {
        prepare_batch(batch, root, dir, &mut results)?;
    }
    let v: HashMap<&String, &Result<String, String>> = results.iter().collect();
    fs::write(format!("{}/results.json", dir), serde_json::to_string(&v).unwrap()).map_err(|e| e.to_string())
}

fn prepare_batch(cases: &[String], root: &str, dir: &str, results: &mut BTreeMap<String, Result<String, String>>) -> Result<(), String> {
    let mut todo: Vec<String> = cases.to_vec();
    for _round in 0..6 {
        // (first line, case) per part
        let mut lines: Vec<Vec<(usize, usize)>> = vec![];
        for part in 0..PARTS {
            let mut src = String::new();
            let mut at = vec![];
            let mut line = 1;
            let mine: Vec<usize> = (0..todo.len()).filter(|i| i % PARTS == part).collect();
            for &i in &mine {
                at.push((line, i));
                let s = format!("fn f{}() -> String {{ {} }}\n", i, invocation(&todo[i]));
                line += s.matches('\n').count();
                src.push_str(&s);
            }
            at.push((line, usize::MAX));
            src.push_str("static ALL: &[(usize, fn() -> String)] = &[");
            for &i in &mine {
                src.push_str(&format!("({},f{}),", i, i));
            }
            src.push_str("];\n");
            fs::write(format!("{}/part{}.rs", dir, part), src).map_err(|e| e.to_string())?;
            lines.push(at);
        }
        let o = Command::new("cargo")
            .args(["build", "--offline", "--keep-going", "--message-format=json"])
            .current_dir(format!("{}/macros", root))
            .env("CARGO_TARGET_DIR", format!("{}/target/macros", root))
            .env("VWMC_GEN", dir)
            .stdin(Stdio::null())
            .output()
            .map_err(|e| e.to_string())?;
        if o.status.success() {
            for part in 0..PARTS {
                let o = Command::new(format!("{}/target/macros/debug/part{}", root, part)).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
                let text = String::from_utf8_lossy(&o.stdout).into_owned();
                let mut last = None;
                for l in text.lines() {
                    let (i, s): (usize, Result<String, String>) = serde_json::from_str(l).map_err(|e| format!("output of part {}: {}", part, e))?;
                    results.insert(todo[i].clone(), s.map_err(|e| format!("what the macro made panics: {}", e)));
                    last = Some(i);
                }
                if !o.status.success() {
                    // the case after the last one printed ended the program
                    let mine: Vec<usize> = (0..todo.len()).filter(|i| i % PARTS == part).collect();
                    let k = last.map_or(0, |l| mine.iter().position(|x| *x == l).unwrap() + 1);
                    results.insert(todo[mine[k]].clone(), Err(format!("the program ended: {}", String::from_utf8_lossy(&o.stderr))));
                }
            }
            let rest: Vec<String> = todo.iter().filter(|c| !results.contains_key(*c)).cloned().collect();
            if !rest.is_empty() {
                todo = rest;
                continue;
            }
            return Ok(());
        }
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        let mut other = vec![];
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let v: serde_json::Value = match serde_json::from_str(l) {
                Ok(v) => v,
                Err(_) => continue,
            };
            let m = &v["message"];
            if v["reason"] != "compiler-message" || m["level"] != "error" {
                continue;
            }
            let text = m["message"].as_str().unwrap_or("").to_string();
            let mut hit = false;
            let mut spans: Vec<&serde_json::Value> = m["spans"].as_array().map(|a| a.iter().collect()).unwrap_or_default();
            // walk out of macro expansions to the invocation
            let mut k = 0;
            while k < spans.len() {
                let s = spans[k];
                k += 1;
                if s["expansion"].is_object() {
                    spans.push(&s["expansion"]["span"]);
                }
                let f = s["file_name"].as_str().unwrap_or("");
                for part in 0..PARTS {
                    if f.ends_with(&format!("/part{}.rs", part)) && !f.contains("src/bin") {
                        let line = s["line_start"].as_u64().unwrap_or(0) as usize;
                        let at = &lines[part];
                        let p = at.partition_point(|x| x.0 <= line);
                        if p > 0 && at[p - 1].1 != usize::MAX {
                            bad.entry(at[p - 1].1).or_insert(text.clone());
                            hit = true;
                        }
                    }
                }
            }
            if !hit {
                other.push(text);
            }
        }
        if bad.is_empty() {
            return Err(format!("the macros could not be built: {:?} {}", other, String::from_utf8_lossy(&o.stderr).lines().rev().take(20).collect::<Vec<_>>().join("\n")));
        }
        if std::env::var("VWMC_DEBUG").is_ok() {
            eprintln!("round: {} rejected, first {:?}", bad.len(), bad.iter().take(12).map(|(i, m)| (&todo[*i], one_line(m).chars().take(60).collect::<String>())).collect::<Vec<_>>());
        }
        for (i, m) in &bad {
            results.insert(todo[*i].clone(), Err(m.clone()));
        }
        todo = todo.into_iter().enumerate().filter(|(i, _)| !bad.contains_key(i)).map(|x| x.1).collect();
    }
    Err("the macros still fail to compile after six rounds".into())
}

fn result(case: &str) -> &'static Result<String, String> {
    static R: OnceLock<HashMap<String, Result<String, String>>> = OnceLock::new();
    R.get_or_init(|| {
        let dir = std::env::var("VWMC_MACROS").expect("VWMC_MACROS");
        serde_json::from_slice(&fs::read(format!("{}/results.json", dir)).expect("results")).expect("results")
    })
    .get(case)
    .unwrap_or_else(|| panic!("no result for {:?}", case))
}

/// leading and trailing blank lines go; the smallest indentation of the lines
/// that are not blank goes too unless raw
fn cut(text: &str, raw: bool) -> Option<String> {
    let lines: Vec<&str> = text.lines().collect();
    let blank = |l: &&str| l.trim().is_empty();
    if lines.is_empty() {
        return Some(String::new());
    }
    let a = lines.iter().position(|l| !blank(l))?;
    let b = lines.iter().rposition(|l| !blank(l))?;
    let lines = &lines[a..=b];
    if raw {
        return Some(lines.join("\n"));
    }
    let min = lines.iter().filter(|l| !blank(l)).map(|l| l.len() - l.trim_start().len()).min().unwrap_or(0);
    Some(lines.iter().map(|l| l.get(min..).unwrap_or("")).collect::<Vec<_>>().join("\n"))
}

/// Elements such as Text cannot be written together with their region
trait Json {
    fn json(&self) -> serde_json::Value;
}
impl Json for Page<'_> {
    fn json(&self) -> serde_json::Value {
        serde_json::to_value(self).unwrap()
    }
}
impl<T: serde::Serialize + ElementLike> Json for Located<T> {
    fn json(&self) -> serde_json::Value {
        serde_json::to_value((self.as_inner(), self.region())).unwrap()
    }
}

macro_rules! by_suffix {
    ($suffix:expr, $text:expr, $($name:literal => $t:ty),* $(,)?) => {
        match $suffix {
            $($name => {
                let r: Result<Result<$t, _>, String> = imp($name, || Language::from_vimwiki_str($text).parse::<$t>());
                r.map(|r| r.ok().map(|x| x.json()))
            })*
            _ => unreachable!("suffix"),
        }
    };
}
fn at_run_time(suffix: &str, text: &str) -> Result<Option<serde_json::Value>, String> {
    by_suffix!(suffix, text,
        "page" => Page, "block_element" => Located<BlockElement>,
        "inline_element_container" => Located<InlineElementContainer>, "inline_element" => Located<InlineElement>,
        "blockquote" => Located<Blockquote>, "comment" => Located<Comment>, "line_comment" => Located<LineComment>,
        "multi_line_comment" => Located<MultiLineComment>, "definition_list" => Located<DefinitionList>,
        "divider" => Located<Divider>, "header" => Located<Header>, "link" => Located<Link>, "list" => Located<List>,
        "list_item" => Located<ListItem>, "code_inline" => Located<CodeInline>, "math_inline" => Located<MathInline>,
        "math_block" => Located<MathBlock>, "paragraph" => Located<Paragraph>, "placeholder" => Located<Placeholder>,
        "code_block" => Located<CodeBlock>, "table" => Located<Table>, "tags" => Located<Tags>,
        "decorated_text" => Located<DecoratedText>, "keyword" => Located<Keyword>, "text" => Located<Text>,
    )
}
const SUFFIXES: [&str; 25] = [
    "page", "block_element", "inline_element_container", "inline_element", "blockquote", "comment", "line_comment", "multi_line_comment", "definition_list", "divider", "header", "link", "list",
    "list_item", "code_inline", "math_inline", "math_block", "paragraph", "placeholder", "code_block", "table", "tags", "decorated_text", "keyword", "text",
];

enum Arg {
    Str(&'static str),
    Int(usize),
}
fn argument(name: &str) -> Option<Arg> {
    let v = ["P0", "11", "p2", "3", "p4", "p5", "p6", "p7", "e", "p9", "p10"];
    Some(match name {
        "1" => Arg::Int(11),
        "3" => Arg::Int(3),
        "x" => Arg::Str("X y"),
        "xx" => Arg::Str("XX"),
        "é" => Arg::Str("E"),
        "n" => Arg::Int(7),
        "n1" => Arg::Int(5),
        "nn" => Arg::Int(9),
        "_u" => Arg::Int(0),
        k => Arg::Str(v.get(k.parse::<usize>().ok()?)?),
    })
}
/// What format! makes of one argument: [[fill]align][0][width][.precision][?]
fn formatted(name: &str, spec: &str, next: &mut usize) -> Option<String> {
    let number = |name: &str| match argument(name)? {
        Arg::Int(i) => Some(i),
        Arg::Str(_) => None,
    };
    let mut c: Vec<char> = spec.chars().collect();
    let is_align = |c: Option<&char>| matches!(c, Some('<' | '^' | '>'));
    let (mut fill, mut align) = (' ', None);
    if is_align(c.get(1)) {
        fill = c[0];
        align = Some(c[1]);
        c.drain(..2);
    } else if is_align(c.get(0)) {
        align = Some(c.remove(0));
    }
    let zero = c.get(0) == Some(&'0') && c.get(1) != Some(&'$');
    if zero {
        c.remove(0);
    }
    // a number, or the argument named or numbered before a dollar sign
    let count = |c: &mut Vec<char>| -> Option<Option<usize>> {
        let word: String = c.iter().take_while(|c| c.is_alphanumeric() || **c == '_').collect();
        let k = word.chars().count();
        if c.get(k) == Some(&'$') {
            c.drain(..k + 1);
            return Some(Some(number(&word)?));
        }
        let word: String = c.iter().take_while(|c| c.is_ascii_digit()).collect();
        c.drain(..word.len());
        Some(word.parse().ok())
    };
    let width = count(&mut c)?;
    let mut precision = None;
    if c.get(0) == Some(&'.') {
        c.remove(0);
        if c.get(0) == Some(&'*') {
            c.remove(0);
            let k = next.to_string();
            *next += 1;
            precision = Some(number(&k)?);
        } else {
            precision = Some(count(&mut c)??);
        }
    }
    let name = name.trim();
    let name = if name.is_empty() {
        *next += 1;
        (*next - 1).to_string()
    } else {
        name.to_string()
    };
    let debug = c == ['?'];
    assert!(debug || c.is_empty(), "unknown format {:?}", spec);
    let (mut s, right) = match argument(&name)? {
        Arg::Str(s) if debug => return Some(format!("{:?}", s)),
        Arg::Str(s) => (s.chars().take(precision.unwrap_or(usize::MAX)).collect::<String>(), false),
        Arg::Int(i) => (i.to_string(), true),
    };
    let room = width.unwrap_or(0).saturating_sub(s.chars().count());
    let rep = |c: char, n: usize| c.to_string().repeat(n);
    if zero && right {
        s = rep('0', room) + &s;
    } else {
        let left = match align {
            Some('<') => 0,
            Some('>') => room,
            Some('^') => room / 2,
            _ => [0, room][right as usize],
        };
        s = rep(fill, left) + &s + &rep(fill, room - left);
    }
    Some(s)
}
/// What format! makes of one string; None when it would not compile.
/// `next` counts the arguments taken by plain {}.
fn substitute(s: &str, next: &mut usize, args: bool) -> Option<String> {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                out.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                out.push('}');
            }
            '}' => return None,
            '{' => {
                let mut inner = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        '{' => return None,
                        x => inner.push(x),
                    }
                }
                if !args {
                    return None;
                }
                let (name, spec) = match inner.split_once(':') {
                    Some((n, s)) => (n, s),
                    None => (inner.as_str(), ""),
                };
                out.push_str(&formatted(name, spec, next)?);
            }
            c => out.push(c),
        }
    }
    Some(out)
}
fn substitute_all(v: &mut serde_json::Value, next: &mut usize, args: bool) -> bool {
    match v {
        serde_json::Value::String(s) => match substitute(s, next, args) {
            Some(t) => {
                *s = t;
                true
            }
            None => false,
        },
        serde_json::Value::Array(a) => a.iter_mut().all(|x| substitute_all(x, next, args)),
        serde_json::Value::Object(m) => {
            let mut ok = true;
            for (k, x) in m.iter_mut() {
                if k != "type" && k != "uri_ref" {
                    ok = ok && substitute_all(x, next, args);
                }
            }
            ok
        }
        _ => true,
    }
}

fn check(case: &str) -> Check {
    let (suffix, variant, text) = split(case);
    let got = result(case);
    let raw = variant != "ind" && variant != "fmi";
    let want = match cut(text, raw) {
        None => None,
        Some(t) => {
            let mut v = at_run_time(suffix, &t)?;
            if ["fmt", "fmi", "noa"].contains(&variant) {
                let mut next = 0;
                let ok = v.as_mut().map_or(true, |v| substitute_all(v, &mut next, variant != "noa"));
                if !ok {
                    v = None;
                }
            }
            v.map(super::cli::canon)
        }
    };
    match (got, want) {
        (Err(e), None) => Ok(trivial(&e.len())),
        (Err(e), Some(w)) => Err(format!("the macro does not compile ({}); parsed at run time the text is {}", one_line(e), one_line(&w.to_string()))),
        (Ok(g), None) => Err(format!("the macro yields {} for a text that must be rejected", one_line(g))),
        (Ok(g), Some(w)) => {
            let g = super::cli::canon(serde_json::from_str(g).map_err(|e| format!("{}", e))?);
            if g != w {
                return Err(format!("the macro yields\n{}\nexpected\n{}", g, w));
            }
            Ok(seen(&w.to_string()))
        }
    }
}

const PIECES: &[&str] = &[
    "a", "some text", "*b*", "_i_", "*_bi_*", "~~s~~", "^u^", ",,d,,", "`c`", "$m$", "TODO", "FIXME", ":t:u:", "[[l]]", "[[l#a#b|d e]]", "[[wiki1:l|d]]", "[[wn.n:l]]", "[[diary:2021-03-04|d]]", "[[file:a/b.txt]]",
    "[[local:c|{{http://e.x/i.png}}]]", "{{http://e.x/i.png|d|a=\"b\"|class=\"c\"}}", "http://e.x/?q#f", "%% c", "%%+ c +%%", "%%+ c\nd +%%", "= h =", "== h *b* ==", "  === h ===", "----", "- i", "* i\n* j", "1. i\n2. j", "- i\n  - j\n    - [X] k\n- [o] l",
    "a) i\nb) j", "I. i\nII. j", "# i", "- i\n  c\n  {{{\n  x\n  }}}", "|a|b|", "|a|b|\n|---|:-:|\n|\\/|>|", "  | a |", "> q", "> q\n>\n> r", "    q\n    r", "{{{\nx\n}}}", "{{{rust a=\"b\"\n x\n\n y\\\"\n}}}", "{{$\nx\n}}$", "{{$%align%\nx\n y\n}}$", "%title t u",
    "%nohtml", "%template t", "%date 2021-03-04", "%other x", "t:: d", "t::\n:: d\n:: e\nu:: f", "", " ", "\n", "a\nb\n\nc", "é日\u{1F600}", "back\\slash \"q\"", "}", "{x}",
];

pub struct Macros;
impl Prop for Macros {
    fn id(&self) -> &'static str {
        "P31"
    }
    fn rule(&self) -> &'static str {
        "one invocation of the real macros per case, compiled and run: every sequence of tokens as a page, every element macro with every piece (raw and not, escaped and byte literals), every sequence of indented lines; trivial when the text must be rejected and is"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["parsing at run time is right (checked by the other properties)"]
    }
    fn spaces(&self, t: Tier) -> Vec<Space> {
        let page = ["= a =\n", "- b\n", "  - c\n", "|d|>|\n", "> e\n", "{{{k\nf\n}}}\n", "g", "*h*", " ", "\n", ":t:\n", "%title i\n", "j:: k\n", "%% l\n", "[[m#n|o]]", "\\"];
        let lines = ["\n    = a =", "\n      - b", "\n", "\n    c", "\n  ", "\n\t", "\n        d", "\n  e"];
        let mut el = vec![];
        for s in SUFFIXES {
            for p in PIECES {
                for v in ["raw", "ind"] {
                    el.push(format!("{}|{}|{}", s, v, p));
                }
            }
        }
        for p in PIECES {
            el.push(format!("page|esc|{}", p));
            el.push(format!("page|esc|\n  {}\n", p));
            if p.is_ascii() {
                el.push(format!("page|byte|{}", p));
            }
        }
        vec![
            toks_in("pages", &page, t.pick(2, 4), &[("page|raw|", "")]),
            toks_in("pages in escaped literals", &page, t.pick(2, 3), &[("page|esc|", "")]),
            toks_in("indented pages", &lines, t.pick(3, 4), &[("page|ind|", ""), ("page|ind|", "\n  ")]),
            cases("element macros", el),
            cases("one document for every kind of everything", super::api::variants(t).iter().map(|d| format!("page|raw|{}", d)).collect()),
        ]
    }
    fn check(&self, case: &str) -> Check {
        check(case)
    }
}

pub struct FormatMacros;
impl Prop for FormatMacros {
    fn id(&self) -> &'static str {
        "P32"
    }
    fn rule(&self) -> &'static str {
        "one invocation of the real format macros per case, compiled and run: every sequence of tokens that put arguments (by name, number and position, with format specifications) and braces into every kind of element; trivial when the text must be rejected and is"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["plain {} is not used within lists, tables and definition lists (documented as unsupported)", "arguments within addresses of links are not claimed"]
    }
    fn spaces(&self, t: Tier) -> Vec<Space> {
        let any = [
            "{x}", "{0}", "{1:04}", "{n:>4}", "a ", "*{x}*", "`{1}`", "\n= {0} =\n", "\n- {x}\n", "\n|{x}|{n}|\n", "\n{{{\n{x}\n{0:?}\n}}}\n", "[[l|{x}]]", "\n{x}:: {0}\n", "\n%% {x}\n", "\n%title {x}\n", "{{", "}}", "\n{{$\n{n}\n}}$\n", "\n> {x}\n",
        ];
        let order = ["{}", "{} ", "{:>4}", "{0}", "a ", "*{}*", "\n", "\n= {} =\n", "`{}`", "\n\n", "{x}"];
        let bad = ["{11}", "{zz}", "{", "}", "{x}", "{}", "a", "{{", "{:?}"];
        let mut el = vec![];
        for s in SUFFIXES {
            for p in ["{x}", "*{x}*", "_{0}_", "`{x}`", "$ {x} $", ":{x}:", "[[l|{x}]]", "= {x} =", "- {x}", "|{x}|", "> {x}", "{x}:: {n}", "%% {x}", "%%+ {x}\n{0} +%%", "%title {x}", "%o {x}", "{{{r{n} k=\"{x}\"\n{x}\n}}}", "{{$%{x}%\n{x}\n}}$", "1. {x}\n   - {n}", "~~{x}~~", "[[l#{x}]]", "[[diary:2021-03-04#{x}|{0}]]", "TODO"] {
                for v in ["fmt", "fmi"] {
                    el.push(format!("{}|{}|{}", s, v, p));
                }
            }
        }
        // widths and precisions that are arguments, too
        let mut widths = vec![];
        let pre = ["", "{0} ", "{1} ", "{} ", "{n} ", "{3} "];
        for w in ["", "0", "1", "x", "n", "11"] {
            for f in [">1$", ">n$", "n$", "01$", "*^1$", ".1$", ".n$", ".*", ">1$.n$", "$>5", "0>0$", ".0", "08", "-<9.1", "^n$", "1$.*", "x$", "11$", ".zz$", "nn$", ">n1$.3$", "_u$"] {
                for p in &pre[..t.pick(4, 6)] {
                    widths.push(format!("page|fmt|{}a{{{}:{}}}", p, w, f));
                    widths.push(format!("page|fmt|{}*{{{}:{}}}* {{x}}", p, w, f));
                }
            }
        }
        // many arguments, in one text or one element each, and names like each other
        for k in 1..=13 {
            for u in ["{}", "{} ", "*{}* ", "`{}` _{}_ ", "= {} =\n", "{:?}\n\n", "{0}{}", "{}{1}", "{:>3$} "] {
                widths.push(format!("page|fmt|{}", u.repeat(k)));
                widths.push(format!("page|fmi|{}", u.repeat(k)));
            }
        }
        let names = ["x", "xx", "n", "n1", "nn", "é", "_u", "xxx", "u", "n2", "10", "9", "8", "010", "01", " x ", "X"];
        for a in names {
            widths.push(format!("page|fmt|a{{{}}}", a));
            for b in names {
                widths.push(format!("page|fmt|{{{}}}*{{{}}}*", a, b));
                widths.push(format!("page|fmt|{{}} {{{}:>4}} {{{}}} {{}}", a, b));
            }
        }
        vec![
            cases("widths and precisions that are arguments", widths),
            toks_in("pages with arguments", &any, t.pick(2, 3), &[("page|fmt|", "")]),
            toks_in("order of arguments", &order, t.pick(3, 4), &[("page|fmt|", "")]),
            toks_in("wrong arguments", &bad, t.pick(2, 3), &[("page|fmt|", ""), ("page|noa|", "")]),
            cases("element macros", el),
            cases("an argument beside every kind of everything", super::api::variants(t).iter().filter(|d| !d.contains(['{', '}'])).map(|d| format!("page|fmt|{{x}}\n\n{}", d)).collect()),
        ]
    }
    fn check(&self, case: &str) -> Check {
        check(case)
    }
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Macros), Box::new(FormatMacros)]
}
