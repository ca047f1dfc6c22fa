//! Invariants quantified over every input text.
use super::spaces::*;
use super::*;
use crate::tree::Node;


pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(P01), Box::new(P02), Box::new(P03), Box::new(P04), Box::new(P05), Box::new(P06), Box::new(P07), Box::new(P08)]
}

const TEXT_RULE: &str = "every sequence of alphabet tokens up to the stated depth is one document (an alphabet per language feature; 'Q' is a word); states are distinct documents, transitions are token appends, each executed on the real parser; a document is non-trivial when it yields at least one element";

// ---------------------------------------------------------------- P01
pub struct P01;
impl Prop for P01 {
    fn id(&self) -> &'static str {
        "P01"
    }
    fn rule(&self) -> &'static str {
        TEXT_RULE
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut v = token_spaces(tier);
        v.push(deep_space(tier));
        v
    }
    fn check(&self, case: &str) -> Check {
        let s = expand(case);
        let p = parse(&s)?;
        macro_rules! el {
            ($($t:ty),* $(,)?) => { $( {
                imp(stringify!($t), || { Language::from_vimwiki_str(&s).parse::<$t>().map(|_| ()).map_err(|e| e.to_string().len()) }).map(|_| ())?;
            } )* }
        }
        if s.len() < 200 {
            el!(
                Located<BlockElement>, Located<InlineElementContainer>, Located<InlineElement>, Located<Blockquote>,
                Located<CodeInline>, Located<Comment>, Located<LineComment>, Located<MultiLineComment>,
                Located<DefinitionList>, Located<Divider>, Located<Header>, Located<Link>, Located<List>,
                Located<ListItem>, Located<MathInline>, Located<MathBlock>, Located<Paragraph>, Located<Placeholder>,
                Located<CodeBlock>, Located<Table>, Located<Tags>, Located<Text>, Located<DecoratedText>, Located<Keyword>,
            );
        }
        let t = tree::page(&p);
        Ok(if t.kids.is_empty() { trivial(&0) } else { seen(&t.strip()) })
    }
}

/// `repeat:<n>:<unit>` cases: long repetitions, for termination and stack depth
fn deep_space(tier: Tier) -> Space {
    let mut v = vec![];
    let units = [
        "*", "_", "*_", "~~", "^", ",,", "`", "$", "[[", "]]", "{{", "}}", "{{{", "}}}", "{{{\n", "{{$\n", "|", "|a", "%%+", "+%%", "%%", ":", ":a:", "=", "= a =\n",
        "> ", "> a\n", "    a\n", "a", "a ", "é", " ", "\n", "\r\n", "- a\n", "1. a\n", "a:: b\n", "::", ":: a\n", "|a|\n", "----\n", "%title a\n", "%", "TODO ",
        "[[a]]", "http://a ", "*a* ", "_*a*_ ", "[[a|", "{{a|", "%%+ a\n", "-", "- ", "- - ", "[ ] ", "- [ ] ", "a\n\n", "&", "<",
    ];
    for u in units {
        for n in [16usize, 64, 256, tier.pick(512, 1024)] {
            v.push(format!("repeat:{}:{}", n, u));
        }
    }
    for u in ["- a\n", "1. a\n", "- a\n  b\n", "* [X] a\n", "a) |a|\n", "- a:: b\n", "- > a\n", "- {{{\n", "- a\n  {{{\n  }}}\n", "- - a\n", "- *a\n  a*\n", "- %%+ a\n"] {
        for n in [8usize, 16, 24, tier.pick(32, 64)] {
            for k in [1, 4] {
                v.push(format!("nest:{}:{}:{}", n, k, u));
            }
        }
    }
    cases("long repetitions", v)
}
pub fn expand(case: &str) -> String {
    if let Some(r) = case.strip_prefix("repeat:") {
        if let Some((n, u)) = r.split_once(':') {
            if let Ok(n) = n.parse::<usize>() {
                return u.repeat(n);
            }
        }
    }
    // nest:<n>:<step>:<unit>: the unit once for each level, one step deeper each
    if let Some(r) = case.strip_prefix("nest:") {
        let f: Vec<&str> = r.splitn(3, ':').collect();
        if let (Ok(n), Ok(k), Some(u)) = (f[0].parse::<usize>(), f.get(1).unwrap_or(&"").parse::<usize>(), f.get(2)) {
            return (0..n).map(|i| u.split_inclusive('\n').map(|l| format!("{}{}", " ".repeat(i * k), l)).collect::<String>()).collect();
        }
    }
    case.to_string()
}

// ---------------------------------------------------------------- P02
/// Regions: bounds, character boundaries, containment, order, depth, source
pub struct P02;
impl Prop for P02 {
    fn id(&self) -> &'static str {
        "P02"
    }
    fn rule(&self) -> &'static str {
        TEXT_RULE
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        token_spaces(tier)
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        let p = parse(&s)?;
        let t = tree::page(&p);
        let mut prev = 0;
        for b in &t.kids {
            region_tree(b, &s, 0, s.len(), None)?;
            let (o, l, d) = b.region.unwrap();
            if o < prev {
                return Err(format!("block {} at {}+{} overlaps or precedes the previous block (ends {})", b.kind, o, l, prev));
            }
            if l == 0 {
                return Err(format!("block {} has an empty region", b.kind));
            }
            if d != 0 {
                return Err(format!("top-level block {} has depth {}", b.kind, d));
            }
            prev = o + l;
        }
        Ok(if t.kids.is_empty() { trivial(&0) } else { seen(&t) })
    }
}

fn region_tree(n: &Node, s: &str, lo: usize, hi: usize, depth: Option<u16>) -> Result<(), String> {
    let (lo, hi, depth) = if let Some((o, l, d)) = n.region {
        let src = match s.get(o..o + l) {
            Some(x) => x,
            None => return Err(format!("{} region {}+{} is not a range of the source text (len {}) on character boundaries", n.kind, o, l, s.len())),
        };
        if o < lo || o + l > hi {
            return Err(format!("{} region {}..{} is not inside its parent's {}..{}", n.kind, o, o + l, lo, hi));
        }
        if let Some(pd) = depth {
            // the parts of a definition list item share its depth
            if d < pd || (d == pd && !matches!(n.kind, "term" | "definitions" | "definition")) {
                return Err(format!("{} at depth {} inside an element of depth {}", n.kind, d, pd));
            }
        }
        source_of(n, src)?;
        (o, o + l, Some(d))
    } else {
        (lo, hi, depth)
    };
    let mut prev = lo;
    let mut sib: Option<u16> = None;
    for k in &n.kids {
        region_tree(k, s, lo, hi, depth)?;
        if let Some((o, l, d)) = k.region {
            if o < prev {
                return Err(format!("{} at {}+{} inside {} overlaps or precedes its previous sibling (ends {})", k.kind, o, l, n.kind, prev));
            }
            prev = o + l;
            if *sib.get_or_insert(d) != d {
                return Err(format!("siblings inside {} have depths {} and {}", n.kind, sib.unwrap(), d));
            }
        }
    }
    Ok(())
}

/// The text a region covers is the text the element was read from
fn source_of(n: &Node, src: &str) -> Result<(), String> {
    let want = |ok: bool| -> Result<(), String> {
        if ok {
            Ok(())
        } else {
            Err(format!("{} is located on the text {:?}", n.show(), src))
        }
    };
    let starts = |a: &str| src.starts_with(a);
    match n.kind {
        "text" => want(n.text[0] == src),
        "code" => want(src.len() >= n.text[0].len() + 2 && starts("`") && src.ends_with('`') && src[1..src.len() - 1] == *n.text[0]),
        "math" => want(starts("$") && src.ends_with('$') && src[1..src.len() - 1] == *n.text[0]),
        "bold" | "italic" => want((starts("*") || starts("_")) && (src.ends_with('*') || src.ends_with('_'))),
        "strikeout" => want(starts("~~") && src.ends_with("~~")),
        "superscript" => want(starts("^") && src.ends_with('^')),
        "subscript" => want(starts(",,") && src.ends_with(",,")),
        "keyword" => want(src.to_lowercase() == n.get("k").unwrap().to_lowercase()),
        "tags" => want(starts(":") && src.ends_with(':') && src[1..src.len() - 1].split(':').eq(n.text.iter().map(|x| x.as_str()))),
        "line_comment" => want(starts("%%") && src[2..] == *n.text[0]),
        "multi_comment" => want(starts("%%+") && src.ends_with("+%%") && src[3..src.len() - 3].lines().eq(n.text.iter().map(|x| x.as_str()))),
        "link" => want(match n.get("kind").unwrap() {
            "raw" => !starts("[[") && !starts("{{"),
            "transclusion" => starts("{{") && src.ends_with("}}"),
            _ => starts("[[") && src.ends_with("]]"),
        }),
        "header" => want(src.trim_start().starts_with('=') && src.trim_end().ends_with('=') && !src.trim_end().contains('\n')),
        "divider" => want(src.trim_end() == "-".repeat(src.trim_end().len()) && src.len() >= 4),
        "placeholder" => want(starts("%") && !src.trim_end().contains('\n')),
        "code_block" => want(src.trim_start().starts_with("{{{") && src.trim_end().ends_with("}}}")),
        "math_block" => want(src.trim_start().starts_with("{{$") && src.trim_end().ends_with("}}$")),
        "table" => want(src.trim_start().starts_with('|') && src.trim_end().ends_with('|')),
        "blockquote" => want(n.text.iter().filter(|l| !l.is_empty()).all(|l| src.contains(l.as_str()))),
        "item" => want(!src.trim().is_empty()),
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- P03
/// Nothing the author wrote is dropped, duplicated or moved
pub struct P03;
impl Prop for P03 {
    fn id(&self) -> &'static str {
        "P03"
    }
    fn rule(&self) -> &'static str {
        TEXT_RULE
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        token_spaces(tier)
    }
    fn check(&self, case: &str) -> Check {
        let (s, words) = uniq(case);
        let p = parse(&s)?;
        let t = tree::page(&p);
        let found = words_in(&t);
        let sorted = |v: &[String]| {
            let mut v = v.to_vec();
            v.sort();
            v
        };
        // attributes have no order (they are sorted by name here, which odd white
        // space may be a part of), so what is within them is only to be there
        let odd_name = case.contains("l=\"") && case.chars().any(|c| !c.is_ascii_graphic() && c != ' ' && c != '\n');
        let differs = if odd_name { sorted(&found) != sorted(&words) } else { found != words };
        if differs {
            return Err(format!("words of the document {:?}\nwords of the parsed page {:?}\npage {}", words, found, t.strip().show()));
        }
        Ok(if words.is_empty() { trivial(&0) } else { seen(&t.strip()) })
    }
}
pub fn scan_words(s: &str, out: &mut Vec<String>) {
    let mut cur = String::new();
    for c in s.chars() {
        if c == 'Q' {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            cur.push('Q');
        } else if !cur.is_empty() && LETTERS.contains(&(c as u8)) && c.is_ascii() {
            cur.push(c);
        } else if !cur.is_empty() {
            out.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
}
fn words_in(t: &Node) -> Vec<String> {
    let mut out = vec![];
    t.walk(&mut |n| {
        for (k, v) in &n.attrs {
            scan_words(k, &mut out);
            scan_words(v, &mut out);
        }
        for l in &n.text {
            scan_words(l, &mut out);
        }
    });
    out
}

// ---------------------------------------------------------------- P04 / P05
pub fn vimwiki_configs() -> Vec<(&'static str, VimwikiConfig)> {
    let mut v = vec![("default", VimwikiConfig::default())];
    let mut add = |n, f: &dyn Fn(&mut VimwikiConfig)| {
        let mut c = VimwikiConfig::default();
        f(&mut c);
        v.push((n, c));
    };
    add("indent 2", &|c| c.page.indent_str = "  ".into());
    add("indent 1", &|c| c.page.indent_str = " ".into());
    add("indented blockquote", &|c| c.blockquote.prefer_indented_blockquote = true);
    add("no padding", &|c| {
        c.header.no_padding = true;
        c.table.no_padding = true;
        c.comment.no_padding = true;
    });
    add("no trim", &|c| {
        c.header.trim_content = false;
        c.paragraph.trim_lines = false;
        c.blockquote.trim_lines = false;
        c.definition_list.trim_terms = false;
        c.definition_list.trim_definitions = false;
        c.comment.trim_content = false;
    });
    add("term on its own line", &|c| c.definition_list.term_on_line_by_itself = true);
    v
}

/// The formatter trims the lines of a paragraph, so its input is a page whose
/// paragraph lines have no surrounding white space (and no lone CR).
fn untrimmed(t: &Node, src: &str) -> bool {
    if src.replace("\r\n", "\n").contains('\r') {
        return true;
    }
    // neighbouring blockquotes are one blockquote once they are written alike
    let mut bad = false;
    t.walk(&mut |n| bad |= n.kids.windows(2).any(|w| w[0].kind == "blockquote" && w[1].kind == "blockquote"));
    t.walk(&mut |n| {
        if let ("paragraph", Some((o, l, d))) = (n.kind, n.region) {
            bad |= src[o..o + l].lines().any(|l| l.trim_end() != l || (d == 0 && l.trim_start() != l));
        }
        if let ("cell", Some(k)) = (n.kind, n.kids.first()) {
            // a colon is the start of a tag only after white space
            bad |= k.kind == "text" && k.text[0].starts_with(':');
        }
        if n.kind == "line" {
            if let (Some(a), Some(b)) = (n.kids.first(), n.kids.last()) {
                let ws = |n: &Node, first: bool| {
                    matches!(n.kind, "text" | "line_comment") && (n.text[0].trim().is_empty() || if first { n.text[0].starts_with(char::is_whitespace) } else { n.text[0].ends_with(char::is_whitespace) })
                };
                bad |= ws(a, true) || ws(b, false);
            }
        }
    });
    bad
}

fn indentable(t: &Node) -> bool {
    let mut ok = true;
    t.walk(&mut |n| {
        ok &= n.kind != "item" || n.kids.iter().all(|k| k.kind != "blockquote");
        ok &= n.kind != "blockquote" || n.text.iter().all(|l| l.starts_with('Q') && !l.contains("::"));
    });
    ok
}
/// Without padding a title that begins or ends with '=' runs into its marks,
/// a tag has no space before it, and a comment runs into the text beside it
fn paddable(t: &Node) -> bool {
    let mut ok = true;
    let mut s = vec![];
    t.walk(&mut |n| {
        ok &= !n.kind.ends_with("comment");
        if n.kind == "header" {
            s.clear();
            n.walk(&mut |k| s.extend(k.text.iter().cloned()));
            let c = s.concat();
            ok &= !c.starts_with('=') && !c.ends_with('=');
            ok &= n.kids.iter().all(|k| k.kind != "tags");
        }
    });
    ok
}

/// Collapses white space, which the formatter may rearrange
fn squash(mut n: Node) -> Node {
    n.region = None;
    for (_, v) in n.attrs.iter_mut() {
        *v = v.split_whitespace().collect::<Vec<_>>().join(" ");
    }
    for v in n.text.iter_mut() {
        *v = v.split_whitespace().collect::<Vec<_>>().join(" ");
    }
    n.kids = n.kids.into_iter().map(squash).filter(|k| !(k.kind == "text" && k.text[0].is_empty())).collect();
    if n.kind == "multi_comment" && n.text.iter().all(|l| l.is_empty()) {
        n.text.clear();
    }
    if n.kind == "table" {
        // rows of a table are filled up with empty cells
        n.kids.retain(|k| k.kind != "cell" || !k.kids.is_empty());
    }
    n
}

pub struct P04;
impl Prop for P04 {
    fn id(&self) -> &'static str {
        "P04"
    }
    fn rule(&self) -> &'static str {
        TEXT_RULE
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut v = token_spaces(tier);
        v.push(table_space(tier));
        v
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        let p = parse(&s)?;
        let t = tree::page(&p);
        if untrimmed(&t, &s) {
            return Ok(trivial(&0));
        }
        let want = squash(t.clone());
        let mut outs = vec![];
        for (name, c) in vimwiki_configs() {
            // an indented blockquote has no blank lines and no place in a list
            if name == "indented blockquote" && !indentable(&t) {
                continue;
            }
            if name == "no padding" && !paddable(&t) {
                continue;
            }
            let f = format_with(&p, c)?;
            if outs.contains(&f) {
                continue;
            }
            let p2 = parse(&f).map_err(|e| format!("[{}] formatted text {:?}: {}", name, f, e))?;
            let got = squash(tree::page(&p2));
            if got != want {
                return Err(format!("[{}] formatted text {:?}\nreads back as {}\ninstead of {}", name, f, got.show(), want.show()));
            }
            outs.push(f);
        }
        Ok(if t.kids.is_empty() { trivial(&0) } else { seen(&outs) })
    }
}

pub struct P05;
impl Prop for P05 {
    fn id(&self) -> &'static str {
        "P05"
    }
    fn rule(&self) -> &'static str {
        TEXT_RULE
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut v = token_spaces(tier);
        v.push(table_space(tier));
        v
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        let p = parse(&s)?;
        if untrimmed(&tree::page(&p), &s) {
            return Ok(trivial(&0));
        }
        let f = format(&p)?;
        let p2 = parse(&f)?;
        let f2 = format(&p2)?;
        if f2 != f {
            return Err(format!("formatted {:?}\nformatted again {:?}", f, f2));
        }
        Ok(if p.elements.is_empty() { trivial(&0) } else { seen(&f) })
    }
}

// ---------------------------------------------------------------- P06
pub struct P06;
impl Prop for P06 {
    fn id(&self) -> &'static str {
        "P06"
    }
    fn rule(&self) -> &'static str {
        TEXT_RULE
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        token_spaces(tier)
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        if s.contains('\r') || !s.contains('\n') {
            return Ok(trivial(&0));
        }
        let crlf = s.replace('\n', "\r\n");
        let (a, b) = (parse(&s)?, parse(&crlf)?);
        let (ta, tb) = (tree::page(&a).strip(), tree::page(&b).strip());
        if ta != tb {
            return Err(format!("with LF   {}\nwith CRLF {}", ta.show(), tb.show()));
        }
        if a != b {
            return Err("pages read with LF and CRLF line endings compare unequal".into());
        }
        Ok(if ta.kids.is_empty() { trivial(&0) } else { seen(&ta) })
    }
}

// ---------------------------------------------------------------- P07
pub struct P07;
impl Prop for P07 {
    fn id(&self) -> &'static str {
        "P07"
    }
    fn rule(&self) -> &'static str {
        TEXT_RULE
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        token_spaces(tier)
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        let p = parse(&s)?;
        let t = tree::page(&p);
        let j = imp("serialize", || serde_json::to_string(&p))?.map_err(|e| format!("the page cannot be serialised: {}", e))?;
        let q: Page = imp("deserialize", || {
            // the limit on nesting is the reader's choice
            let mut d = serde_json::Deserializer::from_str(&j);
            d.disable_recursion_limit();
            serde::Deserialize::deserialize(&mut d)
        })?.map_err(|e| format!("the serialised page cannot be read back: {} from {}", e, j))?;
        let tq = tree::page(&q);
        if tq != t {
            return Err(format!("read back {}\ninstead of {}\njson {}", tq.show(), t.show(), j));
        }
        if q != p || !q.strict_eq(&p) {
            return Err("the page read back from JSON is not strictly equal".into());
        }
        let v = imp("serialize", || serde_json::to_value(&q))?.map_err(|e| e.to_string())?;
        let r: Page = imp("deserialize", || serde_json::from_value(v))?.map_err(|e| format!("{}", e))?;
        if tree::page(&r) != t {
            return Err("the page read back from a JSON value differs".into());
        }
        Ok(if t.kids.is_empty() { trivial(&0) } else { seen(&j.len()) })
    }
}

// ---------------------------------------------------------------- P08
pub struct P08;
impl Prop for P08 {
    fn id(&self) -> &'static str {
        "P08"
    }
    fn rule(&self) -> &'static str {
        TEXT_RULE
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        token_spaces(tier)
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        let p = parse(&s)?;
        let t = tree::page(&p);
        let c = imp("clone", || p.clone())?;
        let o = imp("into_owned", || p.clone().into_owned())?;
        let b = imp("to_borrowed", || o.to_borrowed())?;
        let ob = imp("to_borrowed + into_owned", || p.to_borrowed().into_owned())?;
        for (n, q) in [("clone", &c), ("into_owned", &o), ("to_borrowed", &b), ("to_borrowed.into_owned", &ob)] {
            if tree::page(q) != t {
                return Err(format!("{} yields {}\ninstead of {}", n, tree::page(q).show(), t.show()));
            }
            if *q != p || !q.strict_eq(&p) || !p.strict_eq(q) {
                return Err(format!("{} is not strictly equal to the page it was made from", n));
            }
        }
        // moving every element by one byte keeps equality and breaks strict equality
        let mut m = o.clone();
        for e in m.elements.iter_mut() {
            let r = e.region();
            *e = e.clone().take_with_region(Region::new_at_depth(r.offset() + 1, r.len(), r.depth()));
        }
        if m != p {
            return Err("equality depends on regions".into());
        }
        if !m.elements.is_empty() && m.strict_eq(&p) {
            return Err("strict equality ignores regions".into());
        }
        Ok(if t.kids.is_empty() { trivial(&0) } else { seen(&t.strip()) })
    }
}
