//! Configuration files: what is read from every set of settings, as TOML and
//! as JSON.
use super::*;
use serde_json::{json, Map, Value};

struct Key {
    sec: &'static str,
    key: &'static str,
    def: Value,
    alts: Vec<Value>,
    wrong: Value,
}
fn flag(sec: &'static str, key: &'static str, def: bool) -> Key {
    Key { sec, key, def: json!(def), alts: vec![json!(!def), json!(def)], wrong: json!("yes") }
}
fn text(sec: &'static str, key: &'static str, def: Value, alts: &[&str]) -> Key {
    Key { sec, key, def, alts: alts.iter().map(|a| json!(a)).collect(), wrong: json!(7) }
}
fn home() -> String {
    std::env::var("HOME").unwrap_or_else(|_| "/root".into())
}
const TEMPLATE_TEXT: &str = "<!DOCTYPE html>\n<html>\n<head>\n<link rel=\"Stylesheet\" type=\"text/css\" href=\"%root_path%%css%\">\n<title>%title%</title>\n<meta http-equiv=\"Content-Type\" content=\"text/html; charset=%encoding%\">\n<meta name=\"viewport\" content=\"width=device-width, initial-scale=1\">\n</head>\n<body>\n%content%\n</body>\n</html>\n";

fn html_keys() -> Vec<Key> {
    vec![
        flag("list", "ignore_newline", true),
        flag("paragraph", "ignore_newline", true),
        text("link", "base_url", json!("https://localhost/"), &["https://example.com/", "http://a.b/c"]),
        flag("link", "canonicalize", false),
        flag("link", "use_ugly_urls", false),
        text("header", "table_of_contents", json!("Contents"), &["Inhalt", ""]),
        text("code", "theme", json!("InspiredGitHub"), &["x", "a b"]),
        text("code", "theme_dir", Value::Null, &["themes", "/t"]),
        flag("code", "server_side", false),
        text("code", "syntax_dir", Value::Null, &["syntaxes", "/s"]),
        flag("comment", "include", false),
        text("template", "name", json!("default"), &["mine", ""]),
        text("template", "ext", json!("tpl"), &["html", ""]),
        text("template", "dir", json!(format!("{}/vimwiki/templates", home())), &["/t/u", "rel"]),
        text("template", "text", json!(TEMPLATE_TEXT), &["<%content%>\n\"\\", ""]),
    ]
}
fn html_values(c: &HtmlConfig) -> Vec<Value> {
    let p = |x: &Option<std::path::PathBuf>| x.as_ref().map(|x| json!(x)).unwrap_or(Value::Null);
    vec![
        json!(c.list.ignore_newline),
        json!(c.paragraph.ignore_newline),
        json!(c.link.base_url.to_string()),
        json!(c.link.canonicalize),
        json!(c.link.use_ugly_urls),
        json!(c.header.table_of_contents),
        json!(c.code.theme),
        p(&c.code.theme_dir),
        json!(c.code.server_side),
        p(&c.code.syntax_dir),
        json!(c.comment.include),
        json!(c.template.name),
        json!(c.template.ext),
        json!(c.template.dir),
        json!(c.template.text),
    ]
}
fn wiki_keys() -> Vec<Key> {
    let h = home();
    vec![
        text("", "path", json!(format!("{}/vimwiki", h)), &["/a/b", "~/w", "$HOME/x/../y", "/a/./b//c/", "/a/b/../../c", "${HOME}", "/", "/ü b"]),
        text("", "path_html", json!(format!("{}/vimwiki_html", h)), &["/h", "~/h/.", "$HOME"]),
        text("", "name", Value::Null, &["n", "a b", ""]),
        text("", "css_name", json!("style.css"), &["x.css", "a/b.css"]),
        text("", "ext", json!("wiki"), &["md", "w.i"]),
        text("", "diary_rel_path", json!("diary"), &["d/e", "."]),
    ]
}
/// what a path in a file of settings stands for
fn expand(v: &Value) -> Value {
    let h = home();
    let mut s = v.as_str().unwrap_or("").replace("${HOME}", &h).replace("$HOME", &h);
    if s == "~" || s.starts_with("~/") {
        s = format!("{}{}", h, &s[1..]);
    }
    let mut out: Vec<&str> = vec![];
    for c in s.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    json!(format!("/{}", out.join("/")))
}
fn wiki_values(w: &HtmlWikiConfig) -> Vec<Value> {
    vec![json!(w.path), json!(w.path_html), w.name.as_ref().map(|n| json!(n)).unwrap_or(Value::Null), json!(w.css_name), json!(w.ext), json!(w.diary_rel_path)]
}
fn format_keys() -> Vec<Key> {
    let ch = |key, def: &str, a: &str| Key { sec: "list.todo", key, def: json!(def), alts: vec![json!(a), json!("é")], wrong: json!("ab") };
    vec![
        text("page", "indent_str", json!("    "), &["\t", ""]),
        flag("page", "separate_block_elements", true),
        flag("blockquote", "prefer_indented_blockquote", false),
        flag("blockquote", "trim_lines", true),
        flag("comment", "no_padding", false),
        flag("comment", "trim_content", true),
        flag("definition_list", "term_on_line_by_itself", false),
        flag("definition_list", "trim_terms", true),
        flag("definition_list", "trim_definitions", true),
        flag("header", "no_padding", false),
        flag("header", "trim_content", true),
        ch("incomplete_char", " ", "_"),
        ch("partially_complete_1_char", ".", "1"),
        ch("partially_complete_2_char", "o", "2"),
        ch("partially_complete_3_char", "O", "3"),
        ch("complete_char", "X", "x"),
        ch("rejected_char", "-", "!"),
        Key { sec: "paragraph", key: "line_wrap_column", def: json!(80), alts: vec![json!(0), json!(120)], wrong: json!("x") },
        flag("paragraph", "no_line_wrap", false),
        flag("paragraph", "trim_lines", true),
        flag("table", "no_padding", false),
    ]
}
fn format_values(c: &VimwikiConfig) -> Vec<Value> {
    let t = &c.list.todo;
    vec![
        json!(c.page.indent_str),
        json!(c.page.separate_block_elements),
        json!(c.blockquote.prefer_indented_blockquote),
        json!(c.blockquote.trim_lines),
        json!(c.comment.no_padding),
        json!(c.comment.trim_content),
        json!(c.definition_list.term_on_line_by_itself),
        json!(c.definition_list.trim_terms),
        json!(c.definition_list.trim_definitions),
        json!(c.header.no_padding),
        json!(c.header.trim_content),
        json!(t.incomplete_char),
        json!(t.partially_complete_1_char),
        json!(t.partially_complete_2_char),
        json!(t.partially_complete_3_char),
        json!(t.complete_char),
        json!(t.rejected_char),
        json!(c.paragraph.line_wrap_column),
        json!(c.paragraph.no_line_wrap),
        json!(c.paragraph.trim_lines),
        json!(c.table.no_padding),
    ]
}

/// settings as TOML; keys in the order given, sections in order
fn toml_text(set: &[(&'static str, &'static str, Value)], head: &str) -> String {
    let mut secs: Vec<&str> = vec![];
    for (s, _, _) in set {
        if !secs.contains(s) {
            secs.push(s);
        }
    }
    let mut out = String::new();
    for s in secs {
        out.push_str(&if s.is_empty() { head.to_string() } else { format!("[{}]\n", s) });
        for (_, k, v) in set.iter().filter(|x| x.0 == s) {
            out.push_str(&format!("{} = {}\n", k, v));
        }
    }
    out
}
fn json_value(set: &[(&'static str, &'static str, Value)]) -> Value {
    let mut root = Map::new();
    for (s, k, v) in set {
        let mut m = &mut root;
        for p in s.split('.').filter(|p| !p.is_empty()) {
            m = m.entry(p).or_insert_with(|| json!({})).as_object_mut().unwrap();
        }
        m.insert(k.to_string(), v.clone());
    }
    Value::Object(root)
}
fn compare(what: &str, keys: &[Key], got: &[Value], want: &[Value]) -> Result<(), String> {
    for (i, k) in keys.iter().enumerate() {
        if got[i] != want[i] {
            return Err(format!("{}: {}.{} is {}, expected {}", what, k.sec, k.key, got[i], want[i]));
        }
    }
    Ok(())
}
fn wanted(keys: &[Key], mask: usize, alt: usize) -> (Vec<(&'static str, &'static str, Value)>, Vec<Value>) {
    let mut set = vec![];
    let mut want = vec![];
    for (i, k) in keys.iter().enumerate() {
        if mask >> i & 1 == 1 {
            let v = k.alts[alt % k.alts.len()].clone();
            want.push(v.clone());
            set.push((k.sec, k.key, v));
        } else {
            want.push(k.def.clone());
        }
    }
    (set, want)
}
fn toml_err<T>(r: Result<T, toml::de::Error>, t: &str) -> Result<T, String> {
    r.map_err(|e| format!("settings not read as TOML: {}\n{}", e, t))
}

fn whole<C, F>(keys: Vec<Key>, values: F, mask: usize, alt: usize) -> Check
where
    C: serde::Serialize + serde::de::DeserializeOwned,
    F: Fn(&C) -> Vec<Value>,
{
    let (set, want) = wanted(&keys, mask, alt);
    let t = toml_text(&set, "");
    let a: C = toml_err(imp("TOML", || toml::from_str(&t))?, &t)?;
    compare("TOML", &keys, &values(&a), &want)?;
    let j = json_value(&set);
    let b: C = imp("JSON", || serde_json::from_value(j.clone()))?.map_err(|e| format!("settings not read as JSON: {}\n{}", e, j))?;
    compare("JSON", &keys, &values(&b), &want)?;
    // written and read back
    let s = imp("serialize", || serde_json::to_string(&a))?.map_err(|e| format!("settings not written as JSON: {}", e))?;
    let c: C = serde_json::from_str(&s).map_err(|e| format!("settings not read back: {}\n{}", e, s))?;
    compare("JSON written and read back", &keys, &values(&c), &want)?;
    let s = imp("serialize", || toml::to_string(&a))?.map_err(|e| format!("settings not written as TOML: {}", e))?;
    let c: C = toml_err(toml::from_str(&s), &s)?;
    compare("TOML written and read back", &keys, &values(&c), &want)?;
    Ok(if mask == 0 { trivial(&0) } else { seen(&(mask, alt)) })
}

fn wiki_want(keys: &[Key], mask: usize, alt: usize) -> (Vec<(&'static str, &'static str, Value)>, Vec<Value>) {
    let (set, mut want) = wanted(keys, mask, alt);
    for i in 0..2 {
        if mask >> i & 1 == 1 {
            want[i] = expand(&want[i]);
        }
    }
    (set, want)
}
/// "<mask>.<alt> <mask>.<alt> ..."
fn wikis(case: &[&str]) -> Check {
    let keys = wiki_keys();
    let mut t = String::new();
    let mut js = vec![];
    let mut wants = vec![];
    for c in case {
        let (m, a) = c.split_once('.').ok_or("bad case")?;
        let (set, want) = wiki_want(&keys, m.parse().map_err(|_| "bad case")?, a.parse().map_err(|_| "bad case")?);
        let x = toml_text(&set, "[[wikis]]\n");
        t.push_str(if x.is_empty() { "[[wikis]]\n" } else { &x });
        js.push(json_value(&set));
        wants.push(want);
    }
    t.push_str("[comment]\ninclude = true\n");
    let a: HtmlConfig = toml_err(imp("TOML", || toml::from_str(&t))?, &t)?;
    let j = json!({"wikis": js, "comment": {"include": true}});
    let b: HtmlConfig = imp("JSON", || serde_json::from_value(j.clone()))?.map_err(|e| format!("settings not read as JSON: {}\n{}", e, j))?;
    let s = toml::to_string(&a).map_err(|e| format!("settings not written as TOML: {}", e))?;
    let c: HtmlConfig = toml_err(toml::from_str(&s), &s)?;
    for (n, x) in [("TOML", a), ("JSON", b), ("TOML written and read back", c)] {
        if x.wikis.len() != wants.len() {
            return Err(format!("{}: {} wikis instead of {}", n, x.wikis.len(), wants.len()));
        }
        for (i, w) in x.wikis.iter().enumerate() {
            compare(&format!("{}: wiki {}", n, i), &keys, &wiki_values(w), &wants[i])?;
        }
        let mut rest: Vec<Value> = html_keys().into_iter().map(|k| k.def).collect();
        rest[10] = json!(true);
        compare(&format!("{} besides wikis", n), &html_keys(), &html_values(&x), &rest)?;
    }
    Ok(seen(&case.join(" ")))
}

const BAD_PATHS: [&str; 6] = ["a", "a/b", "./a", "../a", "", "$NOT_SET_ANYWHERE/x"];
fn wrong(case: &[&str]) -> Check {
    let i: usize = case[1].parse().map_err(|_| "bad case")?;
    let (t, j) = match case[0] {
        "html" | "format" | "wiki" => {
            let keys = match case[0] {
                "html" => html_keys(),
                "format" => format_keys(),
                _ => wiki_keys(),
            };
            let k = &keys[i];
            let set = vec![(k.sec, k.key, k.wrong.clone())];
            (toml_text(&set, "[[wikis]]\n"), if case[0] == "wiki" { json!({"wikis": [json_value(&set)]}) } else { json_value(&set) })
        }
        _ => {
            let set = vec![("", if case[0] == "path" { "path" } else { "path_html" }, json!(BAD_PATHS[i]))];
            (toml_text(&set, "[[wikis]]\n"), json!({"wikis": [json_value(&set)]}))
        }
    };
    let (a, b) = if case[0] == "format" {
        (toml::from_str::<VimwikiConfig>(&t).is_ok(), serde_json::from_value::<VimwikiConfig>(j).is_ok())
    } else {
        (toml::from_str::<HtmlConfig>(&t).is_ok(), serde_json::from_value::<HtmlConfig>(j).is_ok())
    };
    if a || b {
        return Err(format!("taken without an error (TOML {}, JSON {}): {}", a, b, t));
    }
    Ok(seen(&t))
}

pub struct Config;
impl Prop for Config {
    fn id(&self) -> &'static str {
        "P25"
    }
    fn rule(&self) -> &'static str {
        "every set of settings is one file, as TOML and as JSON, with each setting that it names given a value in turn; read, compared setting by setting, written and read back; non-trivial when it names a setting"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["HOME is set; defaults are those of the current version; names of settings that do not exist are not looked at"]
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut v = vec![];
        let mut c = vec![];
        for m in 0..1usize << html_keys().len() {
            for a in 0..2 {
                c.push(format!("html {} {}", m, a));
            }
        }
        v.push(cases("sets of settings for HTML", c));
        let n = format_keys().len();
        let mut c = vec![];
        for m in 0..1usize << n {
            let k = m.count_ones() as usize;
            if k <= tier.pick(3, n) || n - k <= 2 {
                for a in 0..2 {
                    c.push(format!("format {} {}", m, a));
                }
            }
        }
        v.push(cases("sets of settings for vimwiki text", c));
        let mut one = vec![];
        for m in 0..64 {
            for a in 0..tier.pick(8, 24) {
                one.push(format!("{}.{}", m, a));
            }
        }
        let mut c: Vec<String> = vec!["wikis".into()];
        c.extend(one.iter().map(|x| format!("wikis {}", x)));
        let few: Vec<&String> = one.iter().step_by(tier.pick(7, 3)).collect();
        for a in &few {
            for b in &few {
                c.push(format!("wikis {} {}", a, b));
            }
        }
        v.push(cases("lists of wikis", c));
        let mut c = vec![];
        for (n, k) in [("html", html_keys()), ("format", format_keys()), ("wiki", wiki_keys())] {
            c.extend((0..k.len()).map(|i| format!("wrong {} {}", n, i)));
        }
        for k in ["path", "path_html"] {
            c.extend((0..BAD_PATHS.len()).map(|i| format!("wrong {} {}", k, i)));
        }
        v.push(cases("wrong values", c));
        v
    }
    fn check(&self, case: &str) -> Check {
        let f: Vec<&str> = case.split(' ').collect();
        let num = |i: usize| f[i].parse::<usize>().map_err(|_| "bad case".to_string());
        match f[0] {
            "html" => whole::<HtmlConfig, _>(html_keys(), html_values, num(1)?, num(2)?),
            "format" => whole::<VimwikiConfig, _>(format_keys(), format_values, num(1)?, num(2)?),
            "wikis" => wikis(&f[1..]),
            _ => wrong(&f[1..]),
        }
    }
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Config)]
}
