//! HTML output: well-formedness, structure, ids, determinism.
use super::spaces::*;
use super::*;
use crate::dom::{self, Dom};
use crate::tree::Node;
use std::collections::{HashMap, HashSet};

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(P17), Box::new(P18), Box::new(P19), Box::new(P24)]
}

/// Wikis so that every interwiki link of a page leads somewhere
pub fn config_for(t: &Node) -> HtmlConfig {
    let mut c = HtmlConfig::default();
    let mut names: Vec<String> = vec![];
    let mut need = false;
    t.walk(&mut |n| {
        if n.kind == "link" {
            need |= n.get("kind") == Some("indexed");
            if let Some(x) = n.get("name") {
                names.push(x.to_string());
            }
        }
    });
    if !need && names.is_empty() {
        return c;
    }
    for i in 0..16usize.max(names.len()) {
        c.wikis.push(HtmlWikiConfig { path: format!("/w/wiki{}", i).into(), path_html: format!("/w/html{}", i).into(), name: names.get(i).cloned(), ..Default::default() });
    }
    c
}
/// Index of a wiki that is not configured
pub fn missing_wiki(t: &Node) -> bool {
    let mut bad = false;
    t.walk(&mut |n| {
        if n.kind == "link" && n.get("kind") == Some("indexed") {
            bad |= n.get("index").unwrap().parse::<u64>().unwrap() >= 16;
        }
    });
    bad
}

const HOSTILE: &[&str] = &["<", ">", "&", "\"", "'", "<script>", "</p>", "&lt;", "-->", "Q", "`", " "];
const HOSTILE_CONTEXTS: &[(&str, &str)] = &[
    ("", ""), ("= ", " =\n"), ("== a", " ==\n"), ("- ", "\n"), ("- [ ] ", "\n"), ("| ", " |\n"), ("|a|\n|-|\n|", "|\n"), ("> ", "\n"), ("> a\n>\n> ", "\n"), ("a:: ", "\n"), ("", ":: a\n"), ("*", "*"), ("_", "_"), ("~~", "~~"), ("^", "^"), (",,", ",,"), ("`", "`"), ("$", "$"), ("{{{\n", "\n}}}\n"), ("{{{", "\na\n}}}\n"), ("{{{rust k=\"", "\"\na\n}}}\n"), ("{{{rust ", "=\"v\"\na\n}}}\n"),
    ("{{$\n", "\n}}$\n"), ("{{$%", "%\na\n}}$\n"), ("[[", "]]"), ("[[a|", "]]"), ("[[a#", "]]"), ("{{", "}}"), ("{{a|", "}}"), ("{{a|b|k=\"", "\"}}"), ("{{a|b|", "=\"v\"}}"), ("http://a/?", " b"), (":", ":"), (":a:", ":"), ("%% ", "\n"), ("%%+ ", " +%%"), ("%title ", "\n"), ("[[diary:2021-01-01|", "]]"), ("[[a|{{b|", "}}]]"), ("    ", "\n"), ("a\n", "\nb\n"),
];

fn html_spaces(tier: Tier) -> Vec<Space> {
    let mut v = vec![toks_in("hostile text in every context", HOSTILE, tier.pick(2, 3), HOSTILE_CONTEXTS)];
    let mut c = vec![];
    let names = ["src", "alt", "class", "href", "id", "SRC", "Class", "k", "K"];
    for (a, b) in [("{{a.png|d|", "}}"), ("{{a.png||", "}}"), ("[[a|{{b.png|d|", "}}]]"), ("{{{rust ", "\na\n}}}\n"), ("{{{", "\na\n}}}\n"), ("- {{a.png|d|", "}}\n")] {
        for n in 1..=tier.pick(2, 3) {
            for i in 0..names.len().pow(n) {
                let v: Vec<String> = (0..n).map(|j| format!("{}=\"{}\"", names[i / names.len().pow(j) % names.len()], j)).collect();
                c.push(format!("{}{}{}", a, v.join(" "), b));
            }
        }
    }
    v.push(cases("attributes of every name, in any case and number", c));
    v.extend(token_spaces(tier));
    v
}

fn configs(base: &HtmlConfig) -> Vec<(&'static str, HtmlConfig)> {
    let mut a = base.clone();
    a.comment.include = true;
    let mut b = base.clone();
    b.paragraph.ignore_newline = false;
    b.list.ignore_newline = false;
    vec![("default", base.clone()), ("comments included", a), ("line breaks kept", b)]
}

// ---------------------------------------------------------------- P17
pub struct P17;
impl Prop for P17 {
    fn id(&self) -> &'static str {
        "P17"
    }
    fn rule(&self) -> &'static str {
        "every token sequence up to the stated depth is one document, converted under each configuration and read by a strict HTML reader; non-trivial when it yields at least one element"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        html_spaces(tier)
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        let p = parse(&s)?;
        let t = tree::page(&p);
        let base = config_for(&t);
        if missing_wiki(&t) {
            return Ok(trivial(&0));
        }
        let mut first = None;
        for (name, c) in configs(&base) {
            let h = html(&p, c)?;
            if first.as_ref() == Some(&h) {
                continue;
            }
            let d = dom::parse(&h).map_err(|e| format!("[{}] {}\nhtml {:?}", name, e, h))?;
            dom::valid("", &d).map_err(|e| format!("[{}] {}\nhtml {:?}", name, e, h))?;
            first.get_or_insert(h);
        }
        Ok(if t.kids.is_empty() { trivial(&0) } else { seen(&first) })
    }
}

// ---------------------------------------------------------------- P18
/// The model of the conversion: what a page looks like as HTML, without ids
/// and addresses, which have properties of their own.
pub struct Model {
    pub comments: bool,
    pub keep_lines: bool,
}
impl Model {
    pub fn page(&self, t: &Node) -> Vec<Dom> {
        t.kids.iter().flat_map(|b| self.block(b)).collect()
    }
    fn block(&self, n: &Node) -> Vec<Dom> {
        let el = |name: &str, kids| Dom::el(name, &[], kids);
        match n.kind {
            "blockquote" => {
                let groups: Vec<Vec<&str>> = n.text.split(|l| l.is_empty()).filter(|g| !g.is_empty()).map(|g| g.iter().map(|l| l.trim()).collect()).collect();
                let kids = if groups.len() > 1 { groups.iter().map(|g| el("p", vec![Dom::text(g.join(" "))])).collect() } else { vec![Dom::text(n.text.join("\n"))] };
                vec![el("blockquote", kids)]
            }
            "definition_list" => {
                let mut kids = vec![];
                for it in &n.kids {
                    kids.push(el("dt", self.inlines(&it.kids[0].kids)));
                    for d in &it.kids[1].kids {
                        kids.push(el("dd", self.inlines(&d.kids)));
                    }
                }
                vec![el("dl", kids)]
            }
            "divider" => vec![el("hr", vec![])],
            "header" => {
                let l = n.get("level").unwrap();
                let h = format!("h{}", l);
                let kids = self.inlines(&n.kids);
                if l == "1" && display(&n.kids).trim() == "Contents" {
                    vec![Dom::el("div", &[("class", "toc")], vec![el(&h, kids)])]
                } else {
                    vec![Dom::el(&h, &[("class", "header")], vec![el("a", kids)])]
                }
            }
            "list" => {
                let ordered = n.kids.first().map_or(false, |i| is_ordered(i));
                vec![el(if ordered { "ol" } else { "ul" }, n.kids.iter().map(|i| {
                    let class = match i.get("todo") {
                        None => vec![],
                        Some(x) => vec![("class", match x {
                            "Incomplete" => "done0",
                            "PartiallyComplete1" => "done1",
                            "PartiallyComplete2" => "done2",
                            "PartiallyComplete3" => "done3",
                            "Complete" => "done4",
                            "Rejected" => "rejected",
                            _ => "?",
                        })],
                    };
                    Dom::el("li", &class, i.kids.iter().flat_map(|b| self.block(b)).collect())
                }).collect())]
            }
            "math_block" => {
                let (a, b) = match n.get("env") {
                    Some(e) => (format!("\\begin{{{}}}", e), format!("\\end{{{}}}", e)),
                    None => ("\\[".to_string(), "\\]".to_string()),
                };
                let mut s = a;
                s.push('\n');
                for l in &n.text {
                    s.push_str(l);
                    s.push('\n');
                }
                s.push_str(&b);
                vec![Dom::text(s), Dom::text("\n")]
            }
            "paragraph" => {
                let mut kids = vec![];
                for (i, l) in n.kids.iter().enumerate() {
                    if i > 0 {
                        kids.push(if self.keep_lines { el("br", vec![]) } else { Dom::text(" ") });
                    }
                    kids.extend(self.inlines(&l.kids));
                }
                let blank = n.kids.iter().all(|l| l.kids.iter().all(|k| k.kind.ends_with("comment")));
                if blank { kids } else { vec![el("p", kids)] }
            }
            "placeholder" => vec![],
            "code_block" => {
                let mut attrs = vec![];
                for (k, v) in &n.attrs {
                    if k == "lang" {
                        attrs.push(("class", v.as_str()));
                    } else {
                        attrs.push((k.strip_prefix("meta:").unwrap(), v.as_str()));
                    }
                }
                once(&mut attrs);
                vec![el("pre", vec![Dom::el("code", &attrs, vec![Dom::text(n.text.join("\n"))])])]
            }
            "table" => vec![self.table(n)],
            x => panic!("block {}", x),
        }
    }
    fn table(&self, n: &Node) -> Dom {
        let num = |k: &Node, a: &str| k.get(a).unwrap().parse::<usize>().unwrap();
        let (rows, cols) = (num(n, "rows"), num(n, "cols"));
        let cells: HashMap<(usize, usize), &Node> = n.kids.iter().map(|k| ((num(k, "row"), num(k, "col")), k)).collect();
        let kind = |r: usize, c: usize| cells.get(&(r, c)).map_or("none", |k| k.kind);
        // the rows above the first divider are the header
        let divider = (0..rows).find(|&r| {
            let k: Vec<_> = (0..cols).map(|c| kind(r, c)).filter(|k| *k != "none").collect();
            !k.is_empty() && k.iter().all(|k| *k == "align")
        });
        let group = |range: std::ops::Range<usize>, cell: &str| -> Vec<Dom> {
            let mut v = vec![];
            for r in range {
                if !(0..cols).any(|c| kind(r, c) == "cell") {
                    continue;
                }
                let mut kids = vec![];
                for c in 0..cols {
                    if kind(r, c) != "cell" {
                        continue;
                    }
                    let rs = 1 + (r + 1..rows).take_while(|&r| kind(r, c) == "span_above").count();
                    let cs = 1 + (c + 1..cols).take_while(|&c| kind(r, c) == "span_left").count();
                    let (rs, cs) = (rs.to_string(), cs.to_string());
                    let mut a = vec![];
                    if rs != "1" {
                        a.push(("rowspan", rs.as_str()));
                    }
                    if cs != "1" {
                        a.push(("colspan", cs.as_str()));
                    }
                    kids.push(Dom::el(cell, &a, self.inlines(&cells[&(r, c)].kids)));
                }
                v.push(Dom::el("tr", &[], kids));
            }
            v
        };
        let (head, body) = match divider {
            Some(d) => (0..d, d + 1..rows),
            None => (0..0, 0..rows),
        };
        let mut kids = vec![];
        for (name, rows) in [("thead", group(head, "th")), ("tbody", group(body, "td"))] {
            if !rows.is_empty() {
                kids.push(Dom::el(name, &[], rows));
            }
        }
        let class = if n.get("centered") == Some("true") { vec![("class", "center")] } else { vec![] };
        Dom::el("table", &class, kids)
    }
    fn inlines(&self, v: &[Node]) -> Vec<Dom> {
        v.iter().flat_map(|n| self.inline(n)).collect()
    }
    fn inline(&self, n: &Node) -> Vec<Dom> {
        let el = |name: &str, kids| vec![Dom::el(name, &[], kids)];
        match n.kind {
            "text" => vec![Dom::text(&n.text[0])],
            "bold" => el("strong", self.inlines(&n.kids)),
            "italic" => el("em", self.inlines(&n.kids)),
            "strikeout" => el("del", self.inlines(&n.kids)),
            "superscript" => el("sup", el("small", self.inlines(&n.kids))),
            "subscript" => el("sub", el("small", self.inlines(&n.kids))),
            "code" => el("code", vec![Dom::text(&n.text[0])]),
            "math" => vec![Dom::text(format!("\\({}\\)", n.text[0]))],
            "keyword" => {
                let k = n.get("k").unwrap().to_uppercase();
                if k == "TODO" { vec![Dom::el("span", &[("class", "todo")], vec![Dom::text(k)])] } else { vec![Dom::text(k)] }
            }
            "tags" => n.text.iter().map(|t| Dom::el("span", &[("class", "tag")], vec![Dom::text(t)])).collect(),
            "line_comment" if self.comments => vec![Dom::Comment(String::new())],
            "multi_comment" if self.comments => vec![Dom::Comment(String::new())],
            "line_comment" | "multi_comment" => vec![],
            "link" => vec![self.link(n)],
            x => panic!("inline {}", x),
        }
    }
    fn link(&self, n: &Node) -> Dom {
        let props: Vec<(&str, &str)> = n.attrs.iter().filter_map(|(k, v)| k.strip_prefix("prop:").map(|k| (k, v.as_str()))).collect();
        let kind = n.get("kind").unwrap_or("transclusion");
        if kind == "transclusion" {
            let alt = description(n);
            let mut a = vec![("src", "")];
            if let Some(x) = &alt {
                a.push(("alt", x.as_str()));
            }
            a.extend(props);
            once(&mut a);
            a.remove(0);
            return Dom::el("img", &a, vec![]);
        }
        let kids = if let Some(d) = n.kids.first() {
            vec![self.link(d)]
        } else {
            vec![Dom::text(description(n).unwrap_or_else(|| match kind {
                "raw" => n.get("uri").unwrap().to_string(),
                "diary" => format!("diary:{}", n.get("date").unwrap()),
                _ => decoded(n.get("uri").unwrap()),
            }))]
        };
        Dom::el("a", &props, kids)
    }
}
/// Of attributes of the same name (in any case), the first one counts
fn once(a: &mut Vec<(&str, &str)>) {
    let mut names = HashSet::new();
    a.retain(|x| names.insert(x.0.to_ascii_lowercase()));
}
fn is_ordered(i: &Node) -> bool {
    let t = i.get("type").unwrap();
    !(t == "Hyphen" || t == "Asterisk" || t.starts_with("Other"))
}
pub fn decoded(u: &str) -> String {
    let b = u.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let hex = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
        if b[i] == b'%' && i + 2 < b.len() + 0 && hex(b[i + 1]).is_some() && hex(b[i + 2]).is_some() {
            o.push(hex(b[i + 1]).unwrap() * 16 + hex(b[i + 2]).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).to_string()
}
fn description(n: &Node) -> Option<String> {
    if let Some(d) = n.kids.first() {
        return Some(description(d).unwrap_or_else(|| d.get("uri").unwrap().to_string()));
    }
    n.get("desc").map(|x| x.to_string())
}
/// The plain text of inline elements
pub fn display(v: &[Node]) -> String {
    let mut s = String::new();
    for n in v {
        match n.kind {
            "text" | "code" | "math" => s.push_str(&n.text[0]),
            "keyword" => s.push_str(&n.get("k").unwrap().to_uppercase()),
            "tags" => {
                for t in &n.text {
                    s.push(':');
                    s.push_str(t);
                }
                s.push(':');
            }
            "link" => s.push_str(&description(n).unwrap_or_else(|| n.get("uri").unwrap().to_string())),
            "line_comment" => s.push_str(&n.text[0]),
            "multi_comment" => s.push_str(&n.text.join("\n")),
            _ => s.push_str(&display(&n.kids)),
        }
    }
    s
}

/// Leaves out ids, addresses and the empty anchors that carry ids
fn without_ids(v: Vec<Dom>) -> Vec<Dom> {
    let mut out = vec![];
    for d in v {
        match d {
            Dom::El { name, mut attrs, kids } => {
                let id = attrs.iter().any(|a| a.0 == "id");
                let others = attrs.iter().any(|a| a.0 != "id");
                let kids = without_ids(kids);
                if name == "span" && id && !others && kids.is_empty() {
                    continue;
                }
                if name == "div" && id && !others {
                    out.extend(kids);
                    continue;
                }
                if (name == "thead" || name == "tbody") && !kids.iter().any(|k| k.name() == "tr") {
                    continue;
                }
                // ids and addresses come first, properties follow
                if matches!(name.as_str(), "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "strong" | "span") {
                    attrs.retain(|a| a.0 != "id");
                }
                if let Some(f) = attrs.first() {
                    if (name == "a" && f.0 == "href") || (name == "img" && f.0 == "src") {
                        attrs.remove(0);
                    } else if name == "a" || name == "img" {
                        attrs.insert(0, ("no address".into(), "".into()));
                    }
                }
                out.push(Dom::El { name, attrs, kids });
            }
            Dom::Comment(_) => out.push(Dom::Comment(String::new())),
            t => out.push(t),
        }
    }
    out
}

pub struct P18;
impl Prop for P18 {
    fn id(&self) -> &'static str {
        "P18"
    }
    fn rule(&self) -> &'static str {
        "every token sequence up to the stated depth is one document; its HTML, read into a tree, is compared with the tree that a model of the documented conversion makes of the parsed page; non-trivial when it yields at least one element"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut v = html_spaces(tier);
        v.push(table_space(tier));
        v
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        let p = parse(&s)?;
        let t = tree::page(&p);
        let base = config_for(&t);
        if missing_wiki(&t) || t.kids.is_empty() || attrs_clash(&t) {
            return Ok(trivial(&0));
        }
        for (name, c) in configs(&base) {
            let m = Model { comments: c.comment.include, keep_lines: !c.paragraph.ignore_newline };
            let h = html(&p, c)?;
            let d = dom::parse(&h).map_err(|e| format!("[{}] {}\nhtml {:?}", name, e, h))?;
            let got = dom::normal(without_ids(d));
            let want = dom::normal(m.page(&t));
            if got != want {
                return Err(format!("[{}] the HTML is      {}\nit should be {}\nhtml {:?}", name, dom::show(&got), dom::show(&want), h));
            }
        }
        Ok(seen(&t.strip()))
    }
}
/// Properties of a link or a code block that are named like the attribute
/// the converter writes itself
fn attrs_clash(t: &Node) -> bool {
    let mut bad = false;
    t.walk(&mut |n| {
        for (k, _) in &n.attrs {
            if let Some(k) = k.strip_prefix("prop:").or_else(|| k.strip_prefix("meta:")) {
                bad |= k.is_empty() || k.contains(|c: char| !c.is_ascii_alphanumeric()) || matches!(k, "href" | "id") || (k == "src" && n.kind == "code_block");
            }
        }
    });
    bad
}

// ---------------------------------------------------------------- P19
pub struct P19;
pub fn dashed(s: &str) -> String {
    s.to_lowercase().split_whitespace().collect::<Vec<_>>().join("-")
}
impl Prop for P19 {
    fn id(&self) -> &'static str {
        "P19"
    }
    fn rule(&self) -> &'static str {
        "every sequence of headers of all levels (few titles, so that they repeat), bold text, tags and paragraphs up to the stated depth is one document; non-trivial when it has a header, tag or bold text"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let marks = &["= a =\n", "= b =\n", "== a ==\n", "== B c ==\n", "=== a ===\n", "=== c ===\n", "==== a ====\n", "====== b ======\n", "*a*\n\n", ":a:\n\n", "*B c*\n\n", ":d:A:\n\n", "= Contents =\n"];
        vec![
            toks("sections", marks, tier.pick(4, 5)),
            toks("section titles", &["= a =\n", "= *a* _b_ =\n", "== `a` $b$ ==\n", "== A é ==\n", "=== [[a|B]] ===\n", "= a&b<c> =\n", "== TODO a ==\n", "=== a :b: ===\n", "*a _b_*\n\n", "- *a*\n", "|*a*|:b:|\n", "= a \t b =\n", "=== 日本 ===\n", "= Contents =\n"], tier.pick(4, 5)),
        ]
    }
    fn check(&self, case: &str) -> Check {
        let p = parse(case)?;
        let t = tree::page(&p);
        let h = html(&p, HtmlConfig::default())?;
        let d = dom::parse(&h).map_err(|e| format!("{}\nhtml {:?}", e, h))?;
        let fail = |m: String| Err(format!("{}\nhtml {:?}", m, h));
        // ids are unique, and every address within the page leads to one
        let mut ids: HashSet<&str> = HashSet::new();
        let mut dup = None;
        let mut refs = vec![];
        for x in &d {
            x.walk(&mut |x| {
                if let Some(i) = x.attr("id") {
                    if !ids.insert(i) || i.is_empty() {
                        dup = Some(i);
                    }
                }
                if let Some(r) = x.attr("href").and_then(|r| r.strip_prefix('#')) {
                    refs.push(r);
                }
            });
        }
        if let Some(i) = dup {
            return fail(format!("the id {:?} is given twice or empty", i));
        }
        for r in refs {
            if !ids.contains(r) {
                return fail(format!("the address #{} leads nowhere, ids are {:?}", r, ids));
            }
        }
        // what each header, tag and bold text may be reached by
        let mut open: Vec<(usize, String)> = vec![];
        let mut used: HashMap<String, usize> = HashMap::new();
        let mut want: Vec<(String, Option<String>)> = vec![];
        fn marks<'a>(n: &'a Node, f: &mut dyn FnMut(&'a Node, &str)) {
            match n.kind {
                "header" => {
                    f(n, &display(&n.kids));
                    // ids of what is inside come after
                    n.kids.iter().for_each(|k| marks(k, f));
                }
                "bold" => {
                    f(n, &display(&n.kids));
                    n.kids.iter().for_each(|k| marks(k, f));
                }
                "tags" => n.text.iter().for_each(|t| f(n, t)),
                _ => n.kids.iter().for_each(|k| marks(k, f)),
            }
        }
        let mut n_marks = 0;
        marks(&t, &mut |n, text| {
            n_marks += 1;
            let id = dashed(text);
            let mut full = id.clone();
            if n.kind == "header" {
                let level: usize = n.get("level").unwrap().parse().unwrap();
                open.retain(|o| o.0 < level);
                if !open.is_empty() {
                    full = open.iter().map(|o| o.1.as_str()).chain([id.as_str()]).collect::<Vec<_>>().join("-");
                }
                open.push((level, id.clone()));
                if level == 1 && text.trim() == "Contents" {
                    full = id.clone();
                }
            } else if !open.is_empty() {
                full = open.iter().map(|o| o.1.as_str()).chain([id.as_str()]).collect::<Vec<_>>().join("-");
            }
            want.push((id.clone(), if full == id { None } else { Some(full.clone()) }));
            *used.entry(id.clone()).or_default() += 1;
            if full != id {
                *used.entry(full).or_default() += 1;
            }
        });
        // the elements that carry the ids, in document order
        let mut got: Vec<(&str, Option<&str>)> = vec![];
        let mut pending: Option<&str> = None;
        for x in &d {
            x.walk(&mut |x| match (x.name(), x.attr("id")) {
                ("div", Some(i)) => pending = Some(i),
                ("span", Some(i)) if x.attr("class").is_none() => pending = Some(i),
                (_, Some(i)) => got.push((i, pending.take())),
                _ => {}
            });
        }
        if got.len() != want.len() {
            return fail(format!("headers, tags and bold text of the page {:?}, ids {:?}", want, got));
        }
        // the n-th thing of one name is numbered
        let numbered = |i: &str, w: &str| i == w || (used[w] > 1 && i.strip_prefix(w).and_then(|r| r.strip_prefix('-')).map_or(false, |r| r.split('-').all(|x| x.parse::<u32>().is_ok())));
        let mut seen_ids: HashSet<String> = HashSet::new();
        for ((gi, gf), (wi, wf)) in got.iter().zip(&want) {
            let first = seen_ids.insert(wi.clone());
            if !numbered(gi, wi) || (first && gi != wi) {
                return fail(format!("the id {:?} should be {:?}; wanted {:?}, got {:?}", gi, wi, want, got));
            }
            match (gf, wf) {
                (None, None) => {}
                (Some(g), Some(w)) => {
                    let first = seen_ids.insert(w.clone());
                    if !numbered(g, w) || (first && g != w) {
                        return fail(format!("the full id {:?} should be {:?}; wanted {:?}, got {:?}", g, w, want, got));
                    }
                }
                _ => return fail(format!("full ids: wanted {:?}, got {:?}", want, got)),
            }
        }
        // a header's own link is its full id
        for x in &d {
            let mut bad = None;
            let mut outer = None;
            x.walk(&mut |x| {
                if x.name() == "div" {
                    outer = x.attr("id");
                }
                if x.attr("class") == Some("header") {
                    let own = outer.take().or(x.attr("id"));
                    let to = x.kids().first().and_then(|a| a.attr("href")).and_then(|r| r.strip_prefix('#'));
                    if own != to {
                        bad = Some((own, to));
                    }
                }
            });
            if let Some(b) = bad {
                return fail(format!("a header's own link: {:?}", b));
            }
        }
        // and a link to it from anywhere in the page resolves to that id
        let mut chains = vec![];
        let mut open: Vec<(usize, String)> = vec![];
        t.walk(&mut |n| {
            if n.kind == "header" && n.kids.iter().all(|k| k.kind == "text") {
                let level: usize = n.get("level").unwrap().parse().unwrap();
                open.retain(|o| o.0 < level);
                open.push((level, n.kids[0].text[0].trim().to_string()));
                if open.iter().all(|o| !o.1.contains(['&', '<', '>'])) {
                    chains.push(open.iter().map(|o| o.1.clone()).collect::<Vec<_>>());
                }
            } else if n.kind == "header" {
                let level: usize = n.get("level").unwrap().parse().unwrap();
                open.retain(|o| o.0 < level);
                open.push((level, "<".into()));
            }
        });
        for c in chains {
            let src = format!("{}\n[[#{}]]\n", case, c.join("#"));
            let h2 = html(&parse(&src)?, HtmlConfig::default())?;
            let d2 = dom::parse(&h2)?;
            let mut ids: HashSet<String> = HashSet::new();
            let mut last = None;
            for x in &d2 {
                x.walk(&mut |x| {
                    ids.extend(x.attr("id").map(|s| s.to_string()));
                    if x.name() == "a" {
                        last = x.attr("href").map(|s| s.to_string());
                    }
                });
            }
            let to = decoded(last.as_deref().unwrap_or(""));
            if !to.strip_prefix('#').map_or(false, |x| ids.contains(x)) {
                return Err(format!("the link [[#{}]] becomes {:?}, which leads nowhere; ids {:?}", c.join("#"), to, ids));
            }
        }
        Ok(if n_marks == 0 { trivial(&0) } else { seen(&got) })
    }
}

// ---------------------------------------------------------------- P24
pub struct P24;
impl Prop for P24 {
    fn id(&self) -> &'static str {
        "P24"
    }
    fn rule(&self) -> &'static str {
        "every token sequence up to the stated depth is one document, processed three times from the start (with differently seeded hash maps and, the last time, on another thread); non-trivial when it yields at least one element"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut v = token_spaces_minus(tier, 1);
        v.push(toks("attributes", &["{{a||", "[[a|b|", "{{{rust ", "k=\"1\" ", "l=\"2\" ", "m=\"3\" ", "n=\"4\"", "o=\"5\"", "}}", "]]", "\n", "}}}\n"], tier.pick(5, 6)));
        let wide = |n: usize| (0..n).map(|i| format!("k{}=\"{}\"", i, i)).collect::<Vec<_>>().join(" ");
        let mut c = vec![];
        for n in 2..24 {
            c.push(format!("{{{{a||{}}}}}\n", wide(n)));
            c.push(format!("{{{{{{rust {}\nx\n}}}}}}\n", wide(n)));
            c.push(format!("[[a|{{{{b||{}}}}}]]\n", wide(n)));
            c.push("|a|b|c|\n".repeat(n));
            c.push(format!("|{}\n|{}\n", "a|".repeat(n), "b|".repeat(n)));
            c.push("a::\n:: b\n".to_string() + &(0..n).map(|i| format!("t{}:: d\n", i)).collect::<String>());
        }
        v.push(cases("many attributes, cells and terms", c));
        v
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        type Out = (Node, String, String, Vec<Node>);
        let once = || -> Result<Out, String> {
            let p = parse(&s)?;
            let t = tree::page(&p);
            let c = config_for(&t);
            let h = if missing_wiki(&t) { String::new() } else { html(&p, c)? };
            let f = format(&p)?;
            let mut kids = vec![];
            for e in p.elements.iter() {
                kids.extend(imp("into_children", || e.clone().into_inner().into_children())?.iter().map(|x| element(x.as_inner())));
            }
            Ok((t, f, h, kids))
        };
        let a = once()?;
        let b = once()?;
        let diff = |n: &str, a: &Out, b: &Out| -> Result<(), String> {
            if a.0 != b.0 {
                return Err(format!("{}: parsed as {} and as {}", n, a.0.show(), b.0.show()));
            }
            if a.1 != b.1 {
                return Err(format!("{}: formatted as {:?} and as {:?}", n, a.1, b.1));
            }
            if a.2 != b.2 {
                return Err(format!("{}: converted to {:?} and to {:?}", n, a.2, b.2));
            }
            if a.3 != b.3 {
                return Err(format!("{}: children differ", n));
            }
            Ok(())
        };
        diff("the second time", &a, &b)?;
        if h(&s) % 64 == 0 || s.len() > 60 {
            let c = std::thread::scope(|sc| std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, || once()).unwrap().join().unwrap())?;
            diff("on another thread", &a, &c)?;
        }
        Ok(if a.0.kids.is_empty() { trivial(&0) } else { seen(&a.1) })
    }
}
pub fn element(e: &Element) -> Node {
    match e {
        Element::Block(b) => tree::block_inner(b),
        Element::Inline(i) => tree::inline_inner(i),
        Element::InlineBlock(_) => Node::new("inline_block"),
    }
}
