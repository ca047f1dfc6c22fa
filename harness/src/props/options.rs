//! What each option of the vimwiki formatter does (P36): a reference formatter
//! over the generic tree, for every combination of options.
use super::*;
use crate::tree::Node;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(P36)]
}

pub struct P36;

/// One bit per switch
const SWITCHES: [&str; 12] = ["separate", "indented", "quote_trim", "comment_tight", "comment_trim", "term_alone", "term_trim", "def_trim", "header_tight", "header_trim", "para_trim", "table_tight"];
const INDENTS: [&str; 4] = ["    ", "  ", "\t", "   "];
const TODOS: [&str; 3] = [" .oOX-", " 1234x", "abcdef"];

struct Opt {
    bits: usize,
    indent: &'static str,
    todo: Vec<char>,
}
impl Opt {
    fn on(&self, s: &str) -> bool {
        self.bits >> SWITCHES.iter().position(|x| *x == s).expect("switch") & 1 == 1
    }
    fn config(&self) -> VimwikiConfig {
        let mut c = VimwikiConfig::default();
        c.page.indent_str = self.indent.to_string();
        c.page.separate_block_elements = self.on("separate");
        c.blockquote.prefer_indented_blockquote = self.on("indented");
        c.blockquote.trim_lines = self.on("quote_trim");
        c.comment.no_padding = self.on("comment_tight");
        c.comment.trim_content = self.on("comment_trim");
        c.definition_list.term_on_line_by_itself = self.on("term_alone");
        c.definition_list.trim_terms = self.on("term_trim");
        c.definition_list.trim_definitions = self.on("def_trim");
        c.header.no_padding = self.on("header_tight");
        c.header.trim_content = self.on("header_trim");
        c.paragraph.trim_lines = self.on("para_trim");
        c.table.no_padding = self.on("table_tight");
        let t = &mut c.list.todo;
        t.incomplete_char = self.todo[0];
        t.partially_complete_1_char = self.todo[1];
        t.partially_complete_2_char = self.todo[2];
        t.partially_complete_3_char = self.todo[3];
        t.complete_char = self.todo[4];
        t.rejected_char = self.todo[5];
        c
    }
}

fn trim(s: &str, on: bool) -> &str {
    if on { s.trim_matches(|c| matches!(c, ' ' | '\t' | '\r' | '\n')) } else { s }
}

fn inlines(n: &Node, o: &Opt, depth: usize) -> Result<String, String> {
    n.kids.iter().map(|k| inline(k, o, depth)).collect()
}
fn inline(n: &Node, o: &Opt, depth: usize) -> Result<String, String> {
    let text = || n.text.concat();
    let pad = if o.on("comment_tight") { "" } else { " " };
    Ok(match n.kind {
        "text" => text(),
        "bold" => format!("*{}*", inlines(n, o, depth)?),
        "italic" => format!("_{}_", inlines(n, o, depth)?),
        "strikeout" => format!("~~{}~~", inlines(n, o, depth)?),
        "superscript" => format!("^{}^", inlines(n, o, depth)?),
        "subscript" => format!(",,{},,", inlines(n, o, depth)?),
        "keyword" => n.get("k").unwrap_or("").to_uppercase(),
        "code" => format!("`{}`", text()),
        "math" => format!("${}$", text()),
        "tags" => format!(":{}:", n.text.join(":")),
        "line_comment" => format!("%%{}{}", pad, if o.on("comment_trim") { n.text[0].trim() } else { &n.text[0] }),
        "multi_comment" if n.text.len() == 1 || depth == 0 => {
            let l: Vec<&str> = n.text.iter().map(|l| if o.on("comment_trim") { l.trim() } else { l.as_str() }).collect();
            format!("%%+{}{}{}+%%", pad, l.join("\n"), pad)
        }
        "link" if n.kids.is_empty() && n.get("kind") == Some("wiki") => match n.get("desc") {
            Some(d) => format!("[[{}|{}]]", n.get("uri").unwrap_or(""), d),
            None => format!("[[{}]]", n.get("uri").unwrap_or("")),
        },
        k => return Err(format!("no reference for {}", k)),
    })
}

fn block(n: &Node, o: &Opt, depth: usize, out: &mut String) -> Result<(), String> {
    let ind = o.indent.repeat(depth);
    let at_start = |out: &String| out.is_empty() || out.ends_with('\n');
    macro_rules! w { ($($t:tt)*) => {{ if at_start(out) { out.push_str(&ind); } out.push_str(&format!($($t)*)); }} }
    match n.kind {
        "blockquote" => {
            for l in &n.text {
                let l = trim(l, o.on("quote_trim"));
                let l = format!("{}{}", if o.on("indented") { "    " } else { "> " }, l);
                w!("{}\n", if o.on("quote_trim") { l.trim_end() } else { &l });
            }
        }
        "code_block" | "math_block" => {
            let (a, b) = if n.kind == "code_block" { ("{{{", "}}}") } else { ("{{$", "}}$") };
            let mut head: Vec<String> = vec![];
            for (k, v) in &n.attrs {
                head.push(match k.as_str() {
                    "lang" => v.clone(),
                    "env" => format!("%{}%", v),
                    k => format!("{}=\"{}\"", &k[5..], v),
                });
            }
            w!("{}{}\n", a, head.join(" "));
            for l in &n.text {
                w!("{}\n", l);
            }
            w!("{}\n", b);
        }
        "definition_list" => {
            for it in &n.kids {
                let term = inlines(&it.kids[0], o, depth)?;
                w!("{}::", trim(&term, o.on("term_trim")));
                let defs = &it.kids[1].kids;
                if defs.is_empty() || o.on("term_alone") {
                    out.push('\n');
                }
                for (i, d) in defs.iter().enumerate() {
                    let d = inlines(d, o, depth)?;
                    let d = trim(&d, o.on("def_trim"));
                    if i == 0 && !o.on("term_alone") {
                        out.push_str(&format!(" {}\n", d));
                    } else {
                        w!(":: {}\n", d);
                    }
                }
            }
        }
        "divider" => out.push_str("----\n"),
        "placeholder" => out.push_str(&match (n.get("name"), n.text.as_slice()) {
            (Some(k), []) => format!("%{}\n", k),
            (Some(k), t) => format!("%{} {}\n", k, t[0]),
            (None, t) => format!("%{} {}\n", t[0], t[1]),
        }),
        "header" => {
            let c = inlines(n, o, depth)?;
            let m = "=".repeat(n.get("level").and_then(|x| x.parse().ok()).unwrap_or(1));
            let p = if o.on("header_tight") { "" } else { " " };
            let c = trim(&c, o.on("header_trim"));
            out.push_str(&format!("{}{}{}{}{}{}\n", if n.get("centered") == Some("true") { "    " } else { "" }, m, p, c, p, m));
        }
        "paragraph" => {
            for l in &n.kids {
                let c = inlines(l, o, depth)?;
                w!("{}\n", trim(&c, o.on("para_trim")));
            }
        }
        "list" => {
            for (i, it) in n.kids.iter().enumerate() {
                let suffix = match it.get("suffix") {
                    Some("Period") => ".",
                    Some("Paren") => ")",
                    _ => "",
                };
                let ty = match it.get("type") {
                    Some("Hyphen") => "-".to_string(),
                    Some("Asterisk") => "*".to_string(),
                    Some("Pound") => "#".to_string(),
                    Some("Number") => (i + 1).to_string(),
                    Some("LowercaseAlphabet") => ((b'a' + i as u8) as char).to_string(),
                    Some("UppercaseAlphabet") => ((b'A' + i as u8) as char).to_string(),
                    Some("LowercaseRoman") => ["i", "ii", "iii", "iv", "v"][i].to_string(),
                    Some("UppercaseRoman") => ["I", "II", "III", "IV", "V"][i].to_string(),
                    t => return Err(format!("no reference for {:?}", t)),
                };
                let todo = match it.get("todo") {
                    None => String::new(),
                    Some(t) => {
                        let k = ["Incomplete", "PartiallyComplete1", "PartiallyComplete2", "PartiallyComplete3", "Complete", "Rejected"].iter().position(|x| *x == t).ok_or("todo")?;
                        format!("[{}] ", o.todo[k])
                    }
                };
                w!("{}{} {}", ty, suffix, todo);
                for k in &it.kids {
                    block(k, o, depth + 1, out)?;
                }
            }
        }
        "table" => {
            let num = |n: &Node, k: &str| n.get(k).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
            let (rows, cols) = (num(n, "rows"), num(n, "cols"));
            let mut grid: Vec<Vec<Option<String>>> = vec![vec![None; cols]; rows];
            let mut aligns = vec![];
            for c in &n.kids {
                let (r, k) = (num(c, "row"), num(c, "col"));
                let s = match c.kind {
                    "cell" => inlines(c, o, depth)?,
                    "span_left" => ">".into(),
                    "span_above" => "\\/".into(),
                    _ => {
                        aligns.push((r, k, c.get("to").unwrap_or("").to_string()));
                        continue;
                    }
                };
                grid[r][k] = Some(if o.on("table_tight") {
                    s
                } else if s.is_empty() {
                    " ".into()
                } else {
                    let mut s = s;
                    if s.trim_start() == s {
                        s.insert(0, ' ');
                    }
                    if s.trim_end() == s {
                        s.push(' ');
                    }
                    s
                });
            }
            let mut width = vec![0; cols];
            for row in &grid {
                for (c, s) in row.iter().enumerate() {
                    width[c] = width[c].max(s.as_ref().map_or(0, |s| s.chars().count()));
                }
            }
            let least = |a: &str| match a {
                "None" => 1,
                "Left" | "Right" => 2,
                _ => 3,
            };
            for (_, c, a) in &aligns {
                width[*c] = width[*c].max(least(a));
            }
            for (r, c, a) in &aligns {
                let (x, y) = match a.as_str() {
                    "None" => ("", ""),
                    "Left" => (":", ""),
                    "Right" => ("", ":"),
                    _ => (":", ":"),
                };
                grid[*r][*c] = Some(format!("{}{}{}", x, "-".repeat(width[*c] - x.len() - y.len()), y));
            }
            for row in &grid {
                w!("{}|", if n.get("centered") == Some("true") { "    " } else { "" });
                for (c, s) in row.iter().enumerate() {
                    let s = s.as_deref().unwrap_or("");
                    out.push_str(s);
                    out.push_str(&" ".repeat(width[c] - s.chars().count()));
                    out.push('|');
                }
                out.push('\n');
            }
        }
        k => return Err(format!("no reference for {}", k)),
    }
    Ok(())
}

fn reference(p: &Node, o: &Opt) -> Result<String, String> {
    let mut out = String::new();
    for (i, b) in p.kids.iter().enumerate() {
        if i > 0 && o.on("separate") {
            out.push('\n');
        }
        block(b, o, 0, &mut out)?;
    }
    Ok(out)
}

const DOCS: &[&str] = &[
    "> a\n", ">   a  \n", "> a\n>\n> b\n", "    a\n", "      a\n    b\n", "> a\n>   b \n",
    "= a =\n", "==  a  ==\n", "  = a =\n", "===*a* b===\n", "=   `a`   =\n", "====== a ======\n", "= %%+ a +%% =\n",
    "a\n", "  a  \n", "a\n  b \n c\n", "a *b* _c_ ~~d~~ ^e^ ,,f,, `g` $h$\n", "a TODO :b:c: d\n", "[[a]] b [[c|d]]\n", "a %%+b+%% c\n", "a %%+  b  +%% c\n", "%%a\n", "%%   a  \n", "%%+ a\n  b\n+%%\n", "a %% b\n", "*a* %%+é+%%\n",
    "a:: b\n", "a ::  b \n", "a::\n:: b\n:: c\n", "a:: b\n::  c \nd:: e\n", "*a*:: `b`\n", "a::\n", "a:: %%+ b +%%\n",
    "----\n", "-----\n", "%title a b\n", "%nohtml\n", "%template a\n", "%date 2021-02-03\n", "%x a\n",
    "{{{\na\n}}}\n", "{{{rust\n  a\n\n b\n}}}\n", "{{{rust b=\"c\" a=\"d e\"\na\n}}}\n", "{{{k=\"v\"\na\n}}}\n", "{{{\n}}}\n", "{{$\na\n b\n}}$\n", "{{$%align%\na\n}}$\n",
    "|a|\n", "| a|b |\n", "|a|bb|\n|ccc|d|\n", "|a|b|\n|--|:-:|\n|ccccc|d|\n", "|a|b|c|d|\n|-|:-|-:|:-:|\n", "|a|\n|---------|\n|b|\n", "|a|>|c|\n|\\/|b|>|\n", "| | |\n|a|b|\n", "||a|\n", "  |a|b|\n", "|*a*|`b`|[[c|d]]|\n", "|é|b|\n|aa|日本語|\n|--|:-:|\n", "|a|b|\n|c|\n", "|  a  |b  |\n|c|  d|\n",
    "- a\n- b\n", "* a\n* b\n", "# a\n# b\n", "1. a\n2. b\n", "1) a\n2) b\n", "a. a\nb. b\n", "A) a\nB) b\n", "i) a\nii) b\niii) c\niv) d\n", "I. a\nII. b\n",
    "- [ ] a\n- [.] b\n- [o] c\n- [O] d\n- [X] e\n- [-] f\n", "1. [X] a\n2. [o] b\n",
    "- a\n  - b\n    - c\n  - d\n- e\n", "- a\n  b\n  c\n- d\n", "- a\n  * [ ] b\n    c\n    1) d\n", "- a\n  {{{\n  b\n    c\n  }}}\n- d\n", "- a\n  {{$%e%\n  b\n  }}$\n", "- a\n  |b|c|\n  |dd|e|\n", "- a\n  > b\n  > c\n", "1. a\n   b:: c\n   :: d\n", "- a %%+ b +%%\n", "- *a*\n  - `b`\n",
];

impl Prop for P36 {
    fn id(&self) -> &'static str {
        "P36"
    }
    fn rule(&self) -> &'static str {
        "every page of a list (one or more per element, and pairs of pages) under every combination of the twelve switches of the formatter's configuration, with each indentation and set of todo characters; the text is compared with that of a reference formatter over the generic tree; all but the empty page are non-trivial"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["line_wrap_column and no_line_wrap have no effect in this version of the formatter and are left out", "an empty quote line has no indented form; the combination is left out"]
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut docs: Vec<String> = DOCS.iter().map(|s| s.to_string()).collect();
        let n = docs.len();
        if tier == Tier::Quick {
            for i in 0..n {
                docs.push(format!("{}\n{}", DOCS[i], DOCS[(i * 7 + 3) % n]));
            }
        } else {
            for i in 0..n {
                for j in 0..n {
                    docs.push(format!("{}\n{}", DOCS[i], DOCS[j]));
                }
            }
        }
        vec![cases("pages under every configuration", docs)]
    }
    fn horizon_s(&self) -> u64 {
        120
    }
    fn check(&self, case: &str) -> Check {
        let p = parse(case)?;
        let t = tree::page(&p);
        let mut empty_quote_line = false;
        t.walk(&mut |n| empty_quote_line |= n.kind == "blockquote" && n.text.iter().any(|l| l.trim().is_empty()));
        let mut outs = std::collections::HashSet::new();
        for bits in 0..1usize << SWITCHES.len() {
            // indentation and todo characters go through all their values for
            // every combination of the switches that could meet them
            for (i, indent) in INDENTS.iter().enumerate() {
                for (k, todo) in TODOS.iter().enumerate() {
                    if (i > 0 || k > 0) && (!case.contains("- ") && !case.contains("1.") && !case.contains("1)") || bits & 0b1111_1110_0000 != 0 && bits.count_ones() > 3) {
                        continue;
                    }
                    let o = Opt { bits, indent, todo: todo.chars().collect() };
                    if o.on("indented") && empty_quote_line {
                        continue;
                    }
                    let want = reference(&t, &o)?;
                    let got = format_with(&p, o.config())?;
                    if got != want {
                        let on: Vec<&str> = SWITCHES.iter().copied().filter(|s| o.on(s)).collect();
                        return Err(format!("with {:?}, indentation {:?} and todo characters {:?}\nthe page is written as {:?}\ninstead of {:?}", on, indent, todo, got, want));
                    }
                    outs.insert(h(&got));
                }
            }
        }
        let mut v: Vec<_> = outs.into_iter().collect();
        v.sort();
        Ok(if t.kids.is_empty() { trivial(&0) } else { seen(&v) })
    }
}
