//! Reference readers and writers of the language, construct by construct
//! (P10-P16): what is generated or read here never uses the code under test.
use super::*;
use crate::tree::Node;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(P10), Box::new(P11), Box::new(P12), Box::new(P13), Box::new(P14), Box::new(P16)]
}

fn n(kind: &'static str) -> Node {
    Node::new(kind)
}
fn text(s: impl ToString) -> Node {
    n("text").line(s)
}
fn para(lines: &[&str]) -> Node {
    n("paragraph").kids(lines.iter().map(|l| n("line").kid(text(l))))
}
fn blocks(s: &str) -> Result<Vec<Node>, String> {
    Ok(tree::page(&parse(s)?).strip().kids)
}
fn show_all(v: &[Node]) -> String {
    v.iter().map(|n| n.show()).collect::<Vec<_>>().join(", ")
}
fn same(text: &str, got: &[Node], want: &[Node]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{:?} is read as\n{}\ninstead of\n{}", text, show_all(got), show_all(want)))
    }
}

// ---------------------------------------------------------------- P10
pub struct P10;
fn ws(c: char) -> bool {
    c == ' ' || c == '\t'
}
/// (kind, level, centered, content) of a line, as the language states it
fn header_line(l: &str) -> Option<(usize, bool, &str)> {
    let body = l.trim_start_matches(ws);
    let centered = body.len() != l.len();
    let level = body.chars().take_while(|c| *c == '=').count();
    if level == 0 || level > 6 {
        return None;
    }
    let rest = body[level..].trim_end_matches(ws);
    let tail = rest.chars().rev().take_while(|c| *c == '=').count();
    if tail != level || rest.len() <= tail {
        return None;
    }
    let content = rest[..rest.len() - tail].trim_matches(ws);
    if content.is_empty() {
        return None;
    }
    Some((level, centered, content))
}
fn placeholder_line(l: &str) -> Option<Node> {
    let r = l.strip_prefix('%')?;
    let name: &str = &r[..r.find(|c| ws(c) || c == '%').unwrap_or(r.len())];
    let after = &r[name.len()..];
    let value = after.trim_start_matches(ws);
    let p = n("placeholder");
    let given = value.len() < after.len() && value.chars().any(|c| !c.is_whitespace());
    Some(match name {
        "nohtml" if after.chars().all(ws) => p.attr("name", "nohtml"),
        "title" if given => p.attr("name", "title").line(value),
        "template" if given => p.attr("name", "template").line(value),
        "date" if given => {
            let v: Vec<&str> = value.split('-').collect();
            let num = |i: usize, len: usize| v.get(i).filter(|x| x.len() == len && x.chars().all(|c| c.is_ascii_digit())).and_then(|x| x.parse::<u32>().ok());
            let (y, m, d) = (num(0, 4)?, num(1, 2)?, num(2, 2)?);
            let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
            let days = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
            if v.len() != 3 || m < 1 || m > 12 || d < 1 || d > days[m as usize - 1] {
                return None;
            }
            p.attr("name", "date").line(value)
        }
        "" => return None,
        // what merely begins like one of the known names is not defined
        x if ["title", "nohtml", "template", "date"].iter().any(|k| x.starts_with(k)) => return None,
        _ if given => p.attr("other", "true").line(name).line(value),
        _ => return None,
    })
}
fn divider_line(l: &str) -> bool {
    l.len() >= 4 && l.chars().all(|c| c == '-')
}
impl Prop for P10 {
    fn id(&self) -> &'static str {
        "P10"
    }
    fn rule(&self) -> &'static str {
        "every line made of the stated tokens is one case, put in the stated places; a reference reader of lines says what it is; non-trivial when it is a header, divider or placeholder"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut dates = vec![];
        for y in ["2020", "2021", "1900", "2000", "0001", "9999"] {
            for m in 0..=13 {
                for d in [0, 1, 9, 10, 28, 29, 30, 31, 32] {
                    dates.push(format!("%date {}-{:02}-{:02}", y, m, d));
                }
            }
        }
        let mut long = vec![];
        for l in 1..=8 {
            for r in 1..=8 {
                for (a, b) in [("", ""), (" ", " "), ("  ", ""), ("", "\t"), ("\t ", "  ")] {
                    for ind in ["", " ", "    ", "\t"] {
                        for tail in ["", " ", " \t ", "x"] {
                            long.push(format!("{}{}{}a b{}{}{}", ind, "=".repeat(l), a, b, "=".repeat(r), tail));
                        }
                    }
                }
            }
        }
        for k in [1, 3, 4, 5, 20, 79, 80, 81, 300, 1000] {
            for t in ["", " ", "x", "-", "- ", "=", "\t"] {
                long.push(format!("{}{}", "-".repeat(k), t));
                long.push(format!("{}{}", t, "-".repeat(k)));
                long.push(format!("= {}{} =", "a ".repeat(k), t.trim()));
                long.push(format!("%title {}{}", "a ".repeat(k), t));
            }
        }
        // whatever may stand where nothing, a blank or something else should
        // (blanks outside ASCII are left out: whether they are content is not stated)
        for c in (0x20u32..0x250).chain([0xfeff, 0x1f600]).filter_map(char::from_u32).filter(|c| *c == ' ' || !c.is_whitespace()) {
            for l in ["%nohtmlX", "%nohtml X", "%titleX", "%title X", "%title X a", "%title aX", "%templateX", "%template X", "%template aX", "%date X", "%date 2021-03-04X", "%date 2021-03-04 X", "%dateX2021-03-04", "%xX", "%xX a", "%x Xa", "%x aX", "%X a", "X%x a", "= aX =", "= Xa =", "=X=", "=Xa=", "X= a =", "= a =X", "= aX=", "----X", "X----", "--X--"] {
                long.push(l.replace('X', &c.to_string()));
            }
        }
        vec![
            toks("header lines", &["=", "a", " ", "é", "\t", "==="], tier.pick(6, 8)),
            toks("divider lines", &["-", "--", " ", "a", "="], tier.pick(6, 8)),
            toks("placeholder lines", &["%", "title", "nohtml", "template", "date", "x", " ", "\t", "2021-03-04", "é"], tier.pick(4, 6)),
            cases("dates", dates),
            cases("levels and long lines", long),
        ]
    }
    fn check(&self, case: &str) -> Check {
        if case.contains('\n') {
            return Ok(trivial(&0));
        }
        let quote = case.starts_with("    ");
        let want = if let Some((level, centered, content)) = header_line(case) {
            Some(n("header").attr("level", level).attr("centered", centered).kid(text(content)))
        } else if divider_line(case) {
            Some(n("divider"))
        } else {
            placeholder_line(case)
        };
        for (a, b) in [("", ""), ("", "\n"), ("x\n\n", "\n"), ("", "\nx\n"), ("= h =\n", "\n= h =\n"), ("%title t\n----\n", "\n{{{\ny\n}}}\n"), ("x\n\n", "\n\nx\n")] {
            let s = format!("{}{}{}", a, case, b);
            let got = blocks(&s)?;
            match &want {
                Some(w) => {
                    let mut all = blocks(a)?;
                    all.push(w.clone());
                    all.extend(blocks(b.strip_prefix('\n').unwrap_or(b))?);
                    same(&s, &got, &all)?;
                }
                None => {
                    let count = |v: &[Node]| v.iter().filter(|k| matches!(k.kind, "header" | "divider" | "placeholder")).count();
                    if count(&got) != count(&blocks(a)?) + count(&blocks(b)?) && !quote {
                        return Err(format!("{:?}: the line is no header, divider or placeholder, but is read as one: {}", s, show_all(&got)));
                    }
                }
            }
        }
        Ok(match want {
            Some(w) => seen(&w),
            None => trivial(&0),
        })
    }
}

// ---------------------------------------------------------------- P11
pub struct P11;
/// one way of marking the items of a list
struct Family {
    code: char,
    ty: &'static str,
    suffix: &'static str,
    mark: fn(usize) -> String,
}
fn letters(mut i: usize) -> String {
    let mut s = String::new();
    loop {
        s.insert(0, (b'a' + (i % 26) as u8) as char);
        if i < 26 {
            return s;
        }
        i = i / 26 - 1;
    }
}
fn roman(i: usize) -> String {
    let mut k = i + 1;
    let mut s = String::new();
    for (v, r) in [(1000, "m"), (900, "cm"), (500, "d"), (400, "cd"), (100, "c"), (90, "xc"), (50, "l"), (40, "xl"), (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")] {
        while k >= v {
            s.push_str(r);
            k -= v;
        }
    }
    s
}
const FAMILIES: &[Family] = &[
    Family { code: '-', ty: "Hyphen", suffix: "None", mark: |_| "-".into() },
    Family { code: '*', ty: "Asterisk", suffix: "None", mark: |_| "*".into() },
    Family { code: '#', ty: "Pound", suffix: "None", mark: |_| "#".into() },
    Family { code: '1', ty: "Number", suffix: "Period", mark: |i| format!("{}.", i + 1) },
    Family { code: '2', ty: "Number", suffix: "Paren", mark: |i| format!("{})", i + 1) },
    Family { code: 'a', ty: "LowercaseAlphabet", suffix: "Period", mark: |i| format!("{}.", letters(i)) },
    Family { code: 'b', ty: "LowercaseAlphabet", suffix: "Paren", mark: |i| format!("{})", letters(i)) },
    Family { code: 'A', ty: "UppercaseAlphabet", suffix: "Period", mark: |i| format!("{}.", letters(i).to_uppercase()) },
    Family { code: 'B', ty: "UppercaseAlphabet", suffix: "Paren", mark: |i| format!("{})", letters(i).to_uppercase()) },
    Family { code: 'i', ty: "LowercaseRoman", suffix: "Period", mark: |i| format!("{}.", roman(i)) },
    Family { code: 'j', ty: "LowercaseRoman", suffix: "Paren", mark: |i| format!("{})", roman(i)) },
    Family { code: 'I', ty: "UppercaseRoman", suffix: "Period", mark: |i| format!("{}.", roman(i).to_uppercase()) },
    Family { code: 'J', ty: "UppercaseRoman", suffix: "Paren", mark: |i| format!("{})", roman(i).to_uppercase()) },
];
const TODOS: &[(&str, &str)] = &[("", ""), ("[ ] ", "Incomplete"), ("[.] ", "PartiallyComplete1"), ("[o] ", "PartiallyComplete2"), ("[O] ", "PartiallyComplete3"), ("[X] ", "Complete"), ("[-] ", "Rejected")];
/// what an item may contain besides sublists: lines, and the blocks they are
fn item_content(code: char, id: usize) -> (Vec<String>, Vec<Node>) {
    let w = format!("x{}", id);
    match code {
        't' => (vec![w.clone()], vec![para(&[&w])]),
        'l' => (vec![w.clone(), "y z".into()], vec![para(&[&w, "y z"])]),
        'm' => (vec![w.clone(), "y".into(), "z".into()], vec![para(&[&w, "y", "z"])]),
        'b' => (vec![format!("*{}*", w)], vec![n("paragraph").kid(n("line").kid(n("bold").kid(text(&w))))]),
        'q' => (vec![w.clone(), format!("> {}", w)], vec![para(&[&w]), {
            let mut q = n("blockquote");
            q.text.push(w.clone());
            q
        }]),
        'T' => (vec![w.clone(), format!("|{}|b|", w)], vec![para(&[&w]), n("table").attr("centered", false).attr("rows", 1).attr("cols", 2).kid(n("cell").attr("row", 0).attr("col", 0).kid(text(&w))).kid(n("cell").attr("row", 0).attr("col", 1).kid(text("b")))]),
        'L' => (vec![format!("[[{}]]", w)], vec![n("paragraph").kid(n("line").kid(n("link").attr("kind", "wiki").attr("uri", &w)))]),
        _ => unreachable!(),
    }
}
/// A list document is given as items separated by ';': depth, family, todo
/// and content, for example "0-0t;1a1l".
fn list_doc(spec: &str, unit: &str) -> (String, Vec<Node>) {
    #[derive(Clone)]
    struct It {
        depth: usize,
        fam: char,
        todo: usize,
        content: char,
    }
    let items: Vec<It> = spec
        .split(';')
        .map(|x| {
            let c: Vec<char> = x.chars().collect();
            let k = c.len();
            It { depth: c[..k - 3].iter().collect::<String>().parse().unwrap(), fam: c[k - 3], todo: c[k - 2].to_digit(10).unwrap() as usize, content: c[k - 1] }
        })
        .collect();
    let mut out = String::new();
    fn build(items: &[It], at: &mut usize, depth: usize, out: &mut String, unit: &str) -> Vec<Node> {
        // the items from here on that are at this depth or deeper, as lists
        let mut kids: Vec<Node> = vec![];
        let mut pos = 0;
        let mut fam = None;
        let mut items_of: Vec<Node> = vec![];
        while *at < items.len() && items[*at].depth >= depth {
            let it = &items[*at];
            let id = *at;
            let first = fam.get_or_insert_with(|| FAMILIES.iter().find(|f| f.code == it.fam).unwrap());
            let own = FAMILIES.iter().find(|f| f.code == it.fam).unwrap();
            let (lines, mut blocks) = item_content(it.content, id);
            let (ts, tn) = TODOS[it.todo];
            for (i, l) in lines.iter().enumerate() {
                out.push_str(&unit.repeat(depth));
                if i == 0 {
                    out.push_str(&format!("{} {}{}\n", (own.mark)(pos), ts, l));
                } else {
                    out.push_str(&format!("{}{}\n", unit, l));
                }
            }
            let mut node = n("item").attr("type", first.ty).attr("suffix", first.suffix).attr("pos", pos);
            if it.todo > 0 {
                node = node.attr("todo", tn);
            }
            *at += 1;
            if *at < items.len() && items[*at].depth > depth {
                blocks.extend(build(items, at, depth + 1, out, unit));
            }
            items_of.push(node.kids(blocks));
            pos += 1;
        }
        kids.push(n("list").kids(items_of));
        kids
    }
    let mut at = 0;
    let want = build(&items, &mut at, 0, &mut out, unit);
    (out, want)
}
fn shapes(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![0]];
    for _ in 1..n {
        v = v.iter().flat_map(|f| (0..=f.last().unwrap() + 1).map(move |d| f.iter().cloned().chain([d]).collect())).collect();
    }
    v
}
/// Items indented in any way: "~<markers><indents>", one letter per item
const INDENTS: [&str; 8] = ["", " ", "  ", "   ", "    ", "\t", " \t", "     "];
fn irregular(spec: &str) -> (String, Vec<Node>) {
    let mut c = spec.chars();
    let numbered = c.next() == Some('1');
    let ind: Vec<&str> = c.map(|x| INDENTS[x.to_digit(10).unwrap() as usize]).collect();
    let mut out = String::new();
    for (i, d) in ind.iter().enumerate() {
        out.push_str(&format!("{}{} x{}\n", d, if numbered { "1." } else { "-" }, i));
    }
    // an item's lists are made of what follows and is indented further; a
    // list's items are those indented exactly like its first
    fn lists(ind: &[&str], at: &mut usize, outside: Option<usize>, numbered: bool) -> Vec<Node> {
        let mut v = vec![];
        while *at < ind.len() && outside.map_or(true, |o| ind[*at].len() > o) {
            let d = ind[*at].len();
            let mut items = vec![];
            while *at < ind.len() && ind[*at].len() == d {
                let (t, s) = if numbered { ("Number", "Period") } else { ("Hyphen", "None") };
                let item = n("item").attr("type", t).attr("suffix", s).attr("pos", items.len()).kid(para(&[&format!("x{}", at)]));
                *at += 1;
                items.push(item.kids(lists(ind, at, Some(d), numbered)));
            }
            v.push(n("list").kids(items));
        }
        v
    }
    let mut at = 0;
    let want = lists(&ind, &mut at, None, numbered);
    (out, want)
}
impl Prop for P11 {
    fn id(&self) -> &'static str {
        "P11"
    }
    fn rule(&self) -> &'static str {
        "every forest of up to the stated number of items, with every choice of marker per level, todo state and content, is one case (indented by two spaces, four spaces and one); non-trivial always"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let codes: Vec<char> = FAMILIES.iter().map(|f| f.code).collect();
        let contents = ['t', 'l', 'b', 'q', 'T', 'L', 'm'];
        let mut a = vec![];
        // marker per level: all pairs of adjacent levels
        for k in 1..=tier.pick(5, 6) {
            for s in shapes(k) {
                let deep = *s.iter().max().unwrap();
                for f0 in 0..codes.len() {
                    for f1 in 0..if deep > 0 { codes.len() } else { 1 } {
                        if k == 6 && (f0 + f1) % 3 != 0 {
                            continue;
                        }
                        a.push(s.iter().map(|d| format!("{}{}0t", d, codes[match d % 2 { 0 => f0, _ => f1 }])).collect::<Vec<_>>().join(";"));
                    }
                }
            }
        }
        // contents and todo states per item
        let mut b = vec![];
        for k in 1..=tier.pick(3, 4) {
            for s in shapes(k) {
                let m = contents.len() * 2;
                for i in 0..m.pow(k as u32) {
                    let mut i = i;
                    b.push(s.iter().enumerate().map(|(j, d)| {
                        let c = i % m;
                        i /= m;
                        format!("{}{}{}{}", d, codes[(d + c) % 3], if c >= contents.len() { 1 + (j + c) % 6 } else { 0 }, contents[c % contents.len()])
                    }).collect::<Vec<_>>().join(";"));
                }
            }
        }
        // all todo states and families, long lists, deep lists
        let mut c = vec![];
        for f in &codes {
            for t in 0..7 {
                c.push(format!("0{}{}t;0{}{}l;1-{}t", f, t, f, (t + 1) % 7, (t + 2) % 7));
            }
            for k in [7, 8, 9, 10, 11, 12, 19, 20, 26, 27, 28, 30, 40, 53, 100, 260] {
                // 'i' as a letter means a roman numeral only for the first item
                c.push((0..k).map(|_| format!("0{}0t", f)).collect::<Vec<_>>().join(";"));
                if k < 60 {
                    c.push((0..k).map(|i| format!("{}{}0t", if i % 5 == 0 { 0 } else { 1 }, f)).collect::<Vec<_>>().join(";"));
                }
            }
            for k in 1..=7 {
                c.push((0..k).map(|i| format!("{}{}0t", i, f)).chain((0..k).rev().map(|i| format!("{}{}0t", i, f))).collect::<Vec<_>>().join(";"));
            }
        }
        // every sequence of indentations
        let mut d = vec![];
        for m in ["-", "1"] {
            let mut v: Vec<String> = vec![format!("~{}", m)];
            for k in 1..=tier.pick(5, 6) {
                let kinds = if k > 4 { tier.pick(4, 6) } else { INDENTS.len() };
                v = v.iter().filter(|s| s.chars().skip(2).all(|c| (c as usize - '0' as usize) < kinds)).flat_map(|s| (0..kinds).map(move |i| format!("{}{}", s, i))).collect();
                d.extend(v.iter().cloned());
            }
        }
        vec![cases("forests by marker", a), cases("contents", b), cases("states, long and deep lists", c), cases("irregular indentation", d)]
    }
    fn check(&self, case: &str) -> Check {
        if let Some(spec) = case.strip_prefix('~') {
            let (s, want) = irregular(spec);
            same(&s, &blocks(&s)?, &want)?;
            let t = format!("{}end\n", s);
            let mut all = want.clone();
            all.push(para(&["end"]));
            if blocks(&t)?.len() != all.len() {
                return Err(format!("{:?}: the line after the list does not end it", t));
            }
            let f = format(&parse(&s)?)?;
            same(&f, &blocks(&f)?, &want)?;
            return Ok(seen(&case));
        }
        for unit in ["  ", "    ", " "] {
            let (s, want) = list_doc(case, unit);
            if unit != "  " && s.contains("\n    > ") {
                continue;
            }
            same(&s, &blocks(&s)?, &want)?;
            // followed by something else, and indented as a whole
            let t = format!("{}\nend\n", s);
            let mut all = want.clone();
            all.push(para(&["end"]));
            same(&t, &blocks(&t)?, &all)?;
            if unit == "  " {
                let t = format!("= h =\n{}= h =\n", s);
                let hd = n("header").attr("level", 1).attr("centered", false).kid(text("h"));
                let all: Vec<Node> = [hd.clone()].into_iter().chain(want.clone()).chain([hd]).collect();
                same(&t, &blocks(&t)?, &all)?;
                // formatting writes the same list
                let f = format(&parse(&s)?)?;
                let got: Vec<Node> = blocks(&f)?.into_iter().map(trim_cells).collect();
                same(&f, &got, &want)?;
            }
        }
        Ok(seen(&case))
    }
}

// ---------------------------------------------------------------- P12
pub struct P12;
const CELLS: &[(char, &str)] = &[('c', "a"), ('e', " "), ('<', ">"), ('^', "\\/"), ('-', "--"), ('l', ":--"), ('r', "--:"), ('m', ":-:"), ('b', " *b* "), ('n', "-1"), ('g', "> 1"), ('s', " a b "), ('L', " > "), ('A', " \\/ "), ('1', "-"), ('x', "`x`"), ('p', ":-")];
fn cell_node(c: char) -> Node {
    match c {
        'c' => n("cell").kid(text("a")),
        'e' => n("cell"),
        '<' | 'L' => n("span_left"),
        '^' | 'A' => n("span_above"),
        '-' | '1' => n("align").attr("to", "None"),
        'l' | 'p' => n("align").attr("to", "Left"),
        'r' => n("align").attr("to", "Right"),
        'm' => n("align").attr("to", "Center"),
        'b' => n("cell").kid(n("bold").kid(text("b"))),
        'n' => n("cell").kid(text("-1")),
        'g' => n("cell").kid(text("> 1")),
        's' => n("cell").kid(text("a b")),
        'x' => n("cell").kid(n("code").line("x")),
        _ => unreachable!(),
    }
}
fn trim_cells(mut t: Node) -> Node {
    t.kids = t.kids.into_iter().map(trim_cells).collect();
    trim_cell(t)
}
fn trim_cell(mut c: Node) -> Node {
    if c.kind == "cell" {
        if let Some(f) = c.kids.first_mut() {
            if f.kind == "text" {
                f.text[0] = f.text[0].trim_start().to_string();
            }
        }
        if let Some(f) = c.kids.last_mut() {
            if f.kind == "text" {
                f.text[0] = f.text[0].trim_end().to_string();
            }
        }
        c.kids.retain(|k| k.kind != "text" || !k.text[0].is_empty());
    }
    c
}
impl Prop for P12 {
    fn id(&self) -> &'static str {
        "P12"
    }
    fn rule(&self) -> &'static str {
        "every grid of the stated sizes over the stated kinds of cells is one table, with equal or uneven rows; non-trivial when it is a table (not made up of alignment rows only)"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let all: Vec<String> = CELLS.iter().map(|c| c.0.to_string()).collect();
        let all: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
        let few = ["c", "<", "^", "-", "e", "m"];
        // '/' begins a new row
        let mut v = vec![];
        let grid = |cells: &[&str], sizes: &[usize]| -> Vec<String> {
            let total: usize = sizes.iter().sum();
            let m = cells.len();
            (0..m.pow(total as u32)).map(|mut i| {
                sizes.iter().map(|k| (0..*k).map(|_| {
                    let c = cells[i % m];
                    i /= m;
                    c
                }).collect::<String>()).collect::<Vec<_>>().join("/")
            }).collect()
        };
        for (name, cells, sizes) in [
            ("one row", &all[..], vec![vec![1], vec![2], vec![3], vec![4]]),
            ("two rows", &all[..], vec![vec![1, 1], vec![1, 2], vec![2, 1], vec![2, 2]]),
            ("small grids", &few[..], if tier == Tier::Quick { vec![vec![1, 1, 1], vec![2, 2, 2], vec![3, 3], vec![1, 3, 2], vec![1, 1, 1, 1]] } else { vec![vec![1, 1, 1], vec![2, 2, 2], vec![3, 3], vec![1, 3, 2], vec![1, 1, 1, 1], vec![4, 4], vec![2, 2, 2, 2], vec![3, 1, 3], vec![2, 3, 2], vec![1, 1, 1, 1, 1, 1]] }),
        ] {
            v.push(cases(name, sizes.iter().flat_map(|s| grid(cells, s)).collect()));
        }
        v.push(cases("square grids", grid(&["c", "<", "^", "-"][..tier.pick(3, 4)], &[3, 3, 3])));
        let mut big = vec![];
        for r in [2, 5, 9, 10, 11, 17, 30, 64] {
            for c in [1, 2, 5, 9, 10, 11, 16, 33] {
                for (i, p) in ["c", "cb", "c<", "c^", "ce", "cc<<<", "ss^^"].iter().enumerate() {
                    let row = |k: usize| (0..c).map(|j| p.chars().nth((j + k * (i % 2)) % p.len()).unwrap()).collect::<String>();
                    big.push((0..r).map(|k| row(k)).collect::<Vec<_>>().join("/"));
                    big.push((0..r).map(|k| if k == 1 { "-lrm".chars().cycle().take(c).collect() } else { row(k) }).collect::<Vec<_>>().join("/"));
                    for only in [0, r / 2, r - 1] {
                        big.push((0..r).map(|k| if k == only { row(k) } else { "-lrm".chars().cycle().skip(k).take(c).collect() }).collect::<Vec<_>>().join("/"));
                    }
                    big.push((0..r).map(|k| if k == r - 1 { "-".repeat(c) } else { row(k)[..1 + k % c].to_string() }).collect::<Vec<_>>().join("/"));
                }
            }
        }
        v.push(cases("large tables", big));
        v
    }
    fn check(&self, case: &str) -> Check {
        let rows: Vec<Vec<char>> = case.split('/').map(|r| r.chars().collect()).collect();
        let cols = rows.iter().map(|r| r.len()).max().unwrap();
        let raw = |c: char| CELLS.iter().find(|x| x.0 == c).unwrap().1;
        let aligns = |r: &[char]| r.iter().all(|c| "-lrm1p".contains(*c));
        let write = |ind: &str, end: &str| rows.iter().map(|r| format!("{}|{}|{}", ind, r.iter().map(|c| raw(*c)).collect::<Vec<_>>().join("|"), end)).collect::<String>();
        let is_table = !rows.iter().all(|r| aligns(r));
        for (ind, end) in [("", "\n"), ("  ", "\n"), ("\t", "\n"), ("", "\r\n")] {
            let s = write(ind, end);
            let got: Vec<Node> = blocks(&s)?;
            if !is_table {
                if got.iter().any(|b| b.kind == "table") {
                    return Err(format!("{:?} has no content, but is read as {}", s, show_all(&got)));
                }
                continue;
            }
            let mut t = n("table").attr("centered", !ind.is_empty()).attr("rows", rows.len()).attr("cols", cols);
            for (i, r) in rows.iter().enumerate() {
                for (j, c) in r.iter().enumerate() {
                    let mut k = cell_node(*c);
                    k.attrs.extend([("row".into(), i.to_string()), ("col".into(), j.to_string())]);
                    t = t.kid(k);
                }
            }
            let mut got = got;
            for g in got.iter_mut() {
                g.kids = std::mem::take(&mut g.kids).into_iter().map(trim_cell).collect();
            }
            same(&s, &got, &[t])?;
        }
        if !is_table {
            return Ok(trivial(&0));
        }
        // what the table says about itself
        let s = write("", "\n");
        let p = parse(&s)?;
        let table = match p.elements[0].as_inner() {
            BlockElement::Table(t) => t,
            _ => unreachable!(),
        };
        let bad = |m: String| Err(format!("{:?}: {}", s, m));
        let at = |i: usize, j: usize| rows.get(i).and_then(|r| r.get(j)).copied();
        let is_span = |c: Option<char>, k: &str| c.map_or(false, |c| k.contains(c));
        let is_content = |c: char| "cebngsx".contains(c);
        if table.row_cnt() != rows.len() || table.col_cnt() != cols || table.len() != rows.iter().map(|r| r.len()).sum::<usize>() {
            return bad(format!("{} rows, {} columns, {} cells", table.row_cnt(), table.col_cnt(), table.len()));
        }
        let divider = rows.iter().position(|r| aligns(r));
        let r = imp("table", || {
            let heads = table.header_rows().count();
            let body = table.body_rows().count();
            (table.has_header_rows(), table.has_body_rows(), heads, body, table.get_divider_row_index())
        })?;
        let (wh, wb) = match divider {
            Some(d) => (d, rows[d + 1..].iter().filter(|r| !aligns(r)).count()),
            None => (0, rows.len()),
        };
        if r.4 != divider || table.has_divider_row() != divider.is_some() {
            return bad(format!("the divider row is {:?} instead of {:?}", r.4, divider));
        }
        if (r.2, r.0) != (wh, wh > 0) {
            return bad(format!("{} header rows ({}) instead of {}", r.2, r.0, wh));
        }
        if (r.3, r.1) != (wb, wb > 0) {
            return bad(format!("{} body rows ({}) instead of {}", r.3, r.1, wb));
        }
        for i in 0..rows.len() + 1 {
            for j in 0..cols + 1 {
                let want = at(i, j).map(cell_node);
                let got = table.get_cell(i, j).map(|c| c.as_inner());
                if got.is_some() != want.is_some() {
                    return bad(format!("the cell at {},{} is {:?}", i, j, got));
                }
                if at(i, j).map_or(false, is_content) {
                    let rs = 1 + (i + 1..rows.len()).take_while(|i| is_span(at(*i, j), "^A")).count();
                    let cs = 1 + (j + 1..cols).take_while(|j| is_span(at(i, *j), "<L")).count();
                    let g = (imp("rowspan", || table.get_cell_rowspan(i, j))?, imp("colspan", || table.get_cell_colspan(i, j))?);
                    if g != (rs, cs) {
                        return bad(format!("the cell at {},{} spans {:?} instead of {:?}", i, j, g, (rs, cs)));
                    }
                }
            }
        }
        // by row, by column, and all of them, forwards
        let kinds = |v: Vec<&Located<Cell>>| v.iter().map(|c| match c.as_inner() { Cell::Content(_) => 'c', Cell::Span(CellSpan::FromLeft) => '<', Cell::Span(CellSpan::FromAbove) => '^', Cell::Align(_) => '-' }).collect::<String>();
        let simple = |c: char| if is_content(c) { 'c' } else if "<L".contains(c) { '<' } else if "^A".contains(c) { '^' } else { '-' };
        let want: Vec<String> = rows.iter().map(|r| r.iter().map(|c| simple(*c)).collect()).collect();
        let got = imp("rows", || table.rows().map(|r| kinds(r.collect())).collect::<Vec<_>>())?;
        if got != want {
            return bad(format!("its rows are {:?} instead of {:?}", got, want));
        }
        let want: Vec<String> = (0..cols).map(|j| (0..rows.len()).filter_map(|i| at(i, j)).map(simple).collect()).collect();
        let got = imp("columns", || table.columns().map(|r| kinds(r.collect())).collect::<Vec<_>>())?;
        if got != want {
            return bad(format!("its columns are {:?} instead of {:?}", got, want));
        }
        let pick = |it: &mut dyn Iterator<Item = usize>| it.map(|i| rows[i].iter().map(|c| simple(*c)).collect::<String>()).collect::<Vec<_>>();
        let want_h = pick(&mut (0..wh));
        let want_b = pick(&mut (divider.map_or(0, |d| d + 1)..rows.len()).filter(|i| !aligns(&rows[*i])));
        let got = imp("header and body", || (table.header_rows().map(|r| kinds(r.collect())).collect::<Vec<_>>(), table.body_rows().map(|r| kinds(r.collect())).collect::<Vec<_>>()))?;
        if got != (want_h, want_b) {
            return bad(format!("its header and body are {:?}", got));
        }
        for j in 0..cols + 1 {
            let w: String = (0..rows.len()).filter_map(|i| at(i, j)).map(simple).collect();
            let g = imp("column", || kinds(table.column(j).collect()))?;
            if g != w {
                return bad(format!("its column {} is {:?} instead of {:?}", j, g, w));
            }
            // the alignment of a column is what its divider says
            let others = (0..rows.len()).any(|i| Some(i) != divider && at(i, j).map_or(false, |c| "-lrm1p".contains(c)));
            if !others {
                let w = divider.and_then(|d| at(d, j)).map_or("None", |c| match c {
                    'l' | 'p' => "Left",
                    'r' => "Right",
                    'm' => "Center",
                    _ => "None",
                });
                let g = format!("{:?}", imp("alignment", || table.get_column_alignment(j))?);
                if g != w {
                    return bad(format!("its column {} is aligned {} instead of {}", j, g, w));
                }
            }
        }
        if rows.len() * cols <= 16 {
            // what consumes the table agrees
            for i in 0..rows.len() + 1 {
                let w: String = rows.get(i).map_or(String::new(), |r| r.iter().map(|c| simple(*c)).collect());
                let own = |v: Vec<Located<Cell>>| kinds(v.iter().collect());
                let g = imp("row", || (kinds(table.row(i).collect()), own(table.clone().into_row(i).collect())))?;
                if g.0 != w || g.1 != w {
                    return bad(format!("its row {} is {:?} instead of {:?}", i, g, w));
                }
            }
            for j in 0..cols + 1 {
                let w: String = (0..rows.len()).filter_map(|i| at(i, j)).map(simple).collect();
                let g = imp("into_column", || kinds(table.clone().into_column(j).collect::<Vec<_>>().iter().collect()))?;
                if g != w {
                    return bad(format!("its column {} is turned into {:?} instead of {:?}", j, g, w));
                }
            }
            let w: String = rows.iter().flatten().map(|c| simple(*c)).collect();
            let g = imp("into_cells", || kinds(table.clone().into_cells().collect::<Vec<_>>().iter().collect()))?;
            if g != w {
                return bad(format!("its cells are turned into {:?} instead of {:?}", g, w));
            }
        }
        let want: String = rows.iter().flatten().map(|c| simple(*c)).collect();
        let got = imp("cells", || kinds(table.cells().collect()))?;
        if got != want {
            return bad(format!("its cells are {:?} instead of {:?}", got, want));
        }
        Ok(seen(&(want, wh, divider)))
    }
}

// ---------------------------------------------------------------- P13
pub struct P13;
impl Prop for P13 {
    fn id(&self) -> &'static str {
        "P13"
    }
    fn rule(&self) -> &'static str {
        "every sequence of the stated lines as the body of a code block, a math block and both kinds of quotes, under every head, is one case; non-trivial always"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let lines = &["a\n", "  a b  \n", "\n", " \n", "= a =\n", "- a\n", "|a|\n", "*a* %% b\n", "}} }\n", "{{{x\n", "> a\n", "\té日\n", "----\n", "%title a\n", "a }}}\n", "{{$\n", "<b>&amp;</b>\n", "\\\n", "}}\n", "$}}\n"];
        let heads: &[(&str, &str)] = &[("c\u{1}\u{1}\u{1}", ""), ("c\u{1}rust\u{1}\u{1}", ""), ("c\u{1}c++ \u{1}a=\"b\"\u{1}", ""), ("c\u{1}x-y_z.1\u{1} a=\"b c\" d=\"e=f\" g=\"\"\u{1}", ""), ("c\u{1}\u{1} a=\"é\"\u{1}", ""), ("m\u{1}\u{1}\u{1}", ""), ("m\u{1}align\u{1}\u{1}", ""), ("m\u{1}a b*\u{1}\u{1}", ""), ("q\u{1}\u{1}\u{1}", ""), ("i\u{1}\u{1}\u{1}", "")];
        let mut long = vec![];
        for k in [10, 64, 65, 255, 256, 257, 1000, 5000] {
            for h in heads {
                long.push(format!("{}{}", h.0, "a b\n".repeat(k)));
                long.push(format!("{}{}", h.0, "  x\n\n".repeat(k)));
                long.push(format!("{}{}\n", h.0, "long ".repeat(k)));
            }
        }
        // what is indented like the block is not part of its lines
        let mut indented = vec![];
        for (h, open, shut) in [("c", "", ""), ("c", "rust", ""), ("m", "", ""), ("m", "align", "")] {
            for a in 0..7 {
                for b in 0..7 {
                    for l in 0..8 {
                        for m in [0, 1, 3, 4, 9] {
                            for w in ["x", "\u{3000}x", "\u{a0}", "\t\tx y ", "é"] {
                                indented.push(format!("{}{}.{}\u{1}{}\u{1}{}\u{1}{}{}\n{}y\n", h, a, b, open, shut, " ".repeat(l), w, " ".repeat(m)));
                            }
                        }
                    }
                }
            }
        }
        vec![toks_in("bodies under every head", lines, tier.pick(3, 4), heads), cases("long bodies", long), cases("indented blocks", indented)]
    }
    fn check(&self, case: &str) -> Check {
        let f: Vec<&str> = case.splitn(4, '\u{1}').collect();
        let (kind, name, meta, body) = (&f[0][..1], f[1], f[2], f[3]);
        let (open_indent, close_indent) = f[0][1..].split_once('.').map_or((0, 0), |(a, b)| (a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap()));
        let lines: Vec<&str> = body.split_terminator('\n').collect();
        let mut want;
        let s;
        match kind {
            "c" | "m" => {
                let (open, close) = if kind == "c" { (format!("{{{{{{{}{}", name, meta), "}}}") } else if name.is_empty() { ("{{$".to_string(), "}}$") } else { (format!("{{{{$%{}%", name), "}}$") };
                // the body must not end the block
                if lines.iter().any(|l| l.trim().starts_with(close)) {
                    return Ok(trivial(&0));
                }
                want = n(if kind == "c" { "code_block" } else { "math_block" });
                if !name.trim().is_empty() {
                    want = want.attr(if kind == "c" { "lang" } else { "env" }, name.trim());
                }
                let mut rest = meta.trim();
                while let Some((k, r)) = rest.split_once("=\"") {
                    let (v, r) = r.split_once('"').unwrap();
                    want = want.attr(&format!("meta:{}", k.trim()), v);
                    rest = r;
                }
                let cut = open_indent.min(close_indent);
                want.text = lines.iter().map(|l| l[cut.min(l.len() - l.trim_start_matches([' ', '\t']).len())..].to_string()).collect();
                s = format!("{}{}\n{}{}{}\n", " ".repeat(open_indent), open, body, " ".repeat(close_indent), close);
            }
            "q" => {
                // lines after "> " are kept; an empty one separates paragraphs
                if lines.is_empty() || lines.iter().any(|l| l.trim().is_empty()) {
                    return Ok(trivial(&0));
                }
                want = n("blockquote");
                want.text = lines.iter().map(|l| l.to_string()).collect();
                s = lines.iter().map(|l| format!("> {}\n", l)).collect();
            }
            _ => {
                // indented by four spaces or more; what the line begins with must not be a block of its own
                if lines.is_empty() || lines.iter().any(|l| l.trim().is_empty() || ["= a =", "- a", "|a|"].contains(l) || l.starts_with([' ', '\t'])) {
                    return Ok(trivial(&0));
                }
                want = n("blockquote");
                want.text = lines.iter().map(|l| l.trim_end().to_string()).collect();
                s = lines.iter().map(|l| format!("    {}\n", l)).collect();
            }
        }
        let norm = |v: Vec<Node>| -> Vec<Node> {
            v.into_iter().map(|mut b| {
                if kind == "i" && b.kind == "blockquote" {
                    b.text = b.text.iter().map(|l| l.trim_end().to_string()).collect();
                }
                // an empty block is the same as one with an empty line
                if b.kind != "blockquote" && b.text.iter().all(|l| l.is_empty()) && b.text.len() < 2 {
                    b.text.clear();
                }
                b
            }).collect()
        };
        let want = norm(vec![want]);
        same(&s, &norm(blocks(&s)?), &want)?;
        // between other blocks
        let t = format!("= h =\n{}\nend\n", s);
        let mut all = vec![n("header").attr("level", 1).attr("centered", false).kid(text("h"))];
        all.extend(want.clone());
        all.push(para(&["end"]));
        same(&t, &norm(blocks(&t)?), &all)?;
        // without a final line break, and with the other kind
        let t = s.trim_end_matches('\n');
        if !lines.last().map_or(false, |l| l.ends_with(' ')) || kind == "c" || kind == "m" {
            same(t, &norm(blocks(t)?), &want)?;
        }
        let t = s.replace('\n', "\r\n");
        same(&t, &norm(blocks(&t)?), &want)?;
        Ok(seen(&want))
    }
}

// ---------------------------------------------------------------- P14
pub struct P14;
fn deco(kind: &'static str, v: Vec<Node>) -> Node {
    n(kind).kids(v)
}
fn kw(k: &str) -> Node {
    n("keyword").attr("k", k)
}
fn wiki(u: &str) -> Node {
    n("link").attr("kind", "wiki").attr("uri", u)
}
fn tags(v: &[&str]) -> Node {
    let mut t = n("tags");
    t.text = v.iter().map(|s| s.to_string()).collect();
    t
}
/// What is recognised within text: source and meaning
fn pieces() -> Vec<(&'static str, Node)> {
    let mc = |s: &str| {
        let mut c = n("multi_comment");
        c.text.push(s.into());
        c
    };
    vec![
        ("w", text("w")),
        ("é日", text("é日")),
        ("*b c*", deco("bold", vec![text("b c")])),
        ("_i_", deco("italic", vec![text("i")])),
        ("~~s~~", deco("strikeout", vec![text("s")])),
        ("^p^", deco("superscript", vec![text("p")])),
        (",,q,,", deco("subscript", vec![text("q")])),
        ("`c *d* [[e]]`", n("code").line("c *d* [[e]]")),
        ("$m_1 *2* ^3^$", n("math").line("m_1 *2* ^3^")),
        (":t:", tags(&["t"])),
        (":t:u:v:", tags(&["t", "u", "v"])),
        ("TODO", kw("Todo")),
        ("DONE", kw("Done")),
        ("STARTED", kw("Started")),
        ("FIXME", kw("Fixme")),
        ("FIXED", kw("Fixed")),
        ("XXX", kw("Xxx")),
        ("[[x]]", wiki("x")),
        ("[[x|*d*]]", wiki("x").attr("desc", "*d*")),
        ("http://e.c/x", n("link").attr("kind", "raw").attr("uri", "http://e.c/x")),
        ("{{x.png}}", n("link").attr("kind", "transclusion").attr("uri", "x.png")),
        ("%%+c *d*+%%", mc("c *d*")),
        ("*_x_*", deco("bold", vec![deco("italic", vec![text("x")])])),
        ("_*x*_", deco("italic", vec![deco("bold", vec![text("x")])])),
        ("*a _b_ c*", deco("bold", vec![text("a "), deco("italic", vec![text("b")]), text(" c")])),
        ("~~a *b* c~~", deco("strikeout", vec![text("a "), deco("bold", vec![text("b")]), text(" c")])),
        ("*a [[x]] c*", deco("bold", vec![text("a "), wiki("x"), text(" c")])),
        ("_TODO a_", deco("italic", vec![kw("Todo"), text(" a")])),
        ("^,,x,,^", deco("superscript", vec![deco("subscript", vec![text("x")])])),
        ("*a ~~_b_ c~~ d*", deco("bold", vec![text("a "), deco("strikeout", vec![deco("italic", vec![text("b")]), text(" c")]), text(" d")])),
        // what only looks like a mark
        ("* a", text("* a")),
        ("2 _ 3", text("2 _ 3")),
        ("[[x", text("[[x")),
        ("x]]", text("x]]")),
        ("`", text("`")),
        ("$", text("$")),
        ("a:b", text("a:b")),
        (":a", text(":a")),
        ("~~", text("~~")),
        ("100%", text("100%")),
        ("todo", text("todo")),
        ("a/b\\c", text("a/b\\c")),
        ("(a) \"b\" 'c' & <d> #e @f !g ?h ;i =j +k", text("(a) \"b\" 'c' & <d> #e @f !g ?h ;i =j +k")),
        ("{{x", text("{{x")),
    ]
}
/// marks left open in one piece could be closed by those of a later one
fn openers(s: &str) -> &'static [&'static str] {
    match s {
        "* a" => &["*"],
        "2 _ 3" => &["_"],
        "[[x" => &["[[", "]]"],
        "x]]" => &[],
        "`" => &["`"],
        "$" => &["$"],
        "a:b" | ":a" => &[":"],
        "~~" => &["~~"],
        "{{x" => &["{{", "}}"],
        _ => &[],
    }
}
const INLINE_AT: &[(&str, &str, &str)] = &[("p", "", "\n"), ("p2", "first\n", "\nlast\n"), ("h", "== ", " ==\n"), ("l", "- ", "\n"), ("c", "|", "|z|\n"), ("d", "term:: ", "\n"), ("t", "", "::\n:: z\n"), ("l2", "- y\n  1. ", "\n- z\n")];
/// marks and what closes them
const MARKS: [(&str, &str); 10] = [("", ""), ("*", "*"), ("_", "_"), ("~~", "~~"), ("^", "^"), (",,", ",,"), ("`", "`"), ("$", "$"), ("[[", "]]"), ("{{", "}}")];
const BODIES: [&str; 5] = ["", "a", "a b", "a ", "é"];
const TAILS: [&str; 5] = ["", " z", "z", " *z*", "%%"];
/// A comment takes the rest of its line, marks that close what is open included
fn comment_in_marks(f: &[usize]) -> Check {
    let (open, body, close, tail) = (MARKS[f[0]].0, BODIES[f[1]], MARKS[f[2]].1, TAILS[f[3]]);
    let (place, pre, post) = INLINE_AT[f[4]];
    let before = format!("{}{}", open, body);
    // headers, cells and terms end on the line of the comment
    if before.trim().is_empty() || !matches!(place, "p" | "p2" | "l" | "d" | "l2") {
        return Ok(trivial(&0));
    }
    let comment = format!("{}{}", close, tail);
    if comment.starts_with('+') || (place == "l" && before == "* ") {
        return Ok(trivial(&0));
    }
    let doc = format!("{}{}%%{}{}", pre, before, comment, post);
    let t = tree::page(&parse(&doc)?);
    let kind = if place == "d" { "definition" } else { "line" };
    let mut lines: Vec<Node> = vec![];
    t.walk(&mut |n| {
        if n.kind == kind {
            lines.push(n.clone())
        }
    });
    let nth = if matches!(place, "p2" | "l2") { 1 } else { 0 };
    let got: Vec<(String, String)> = lines.get(nth).map(|l| l.kids.iter().map(|k| (k.kind.to_string(), k.text.join("\n").trim().to_string())).collect()).unwrap_or_default();
    let want = vec![("text".to_string(), before.trim().to_string()), ("line_comment".to_string(), comment.trim().to_string())];
    if got != want {
        return Err(format!("{:?} reads as {:?}, expected {:?}", doc, got, want));
    }
    Ok(seen(&(f[0], f[1], f[2])))
}
/// A piece of any size: many tags, long words, code, math, links and comments, and
/// every order in which typefaces may be nested: "<place> <kind> <size>"
const BIG: [&str; 9] = ["tags", "word", "code", "math", "link", "comment", "anchors", "bold words", "nested"];
fn big_piece(f: &[usize]) -> Check {
    let (place, pre, post) = INLINE_AT[f[0]];
    let k = f[2];
    let w = |n: usize| (0..n).map(|i| ["x", "yé", "z9"][i % 3]).collect::<String>();
    let many = |sep: &str| (0..k).map(|i| format!("t{}", i)).collect::<Vec<_>>().join(sep);
    let (src, want) = match BIG[f[1]] {
        "tags" => {
            let mut t = n("tags");
            t.text = (0..k).map(|i| format!("t{}", i)).collect();
            (format!(":{}:", many(":")), t)
        }
        "word" => (w(k), text(&w(k))),
        "code" => (format!("`{}`", w(k)), n("code").line(&w(k))),
        "math" => (format!("${}$", w(k)), n("math").line(&w(k))),
        "link" => (format!("[[{}]]", "x".repeat(k)), wiki(&"x".repeat(k))),
        "comment" => {
            let mut c = n("multi_comment");
            c.text.push(w(k));
            (format!("%%+{}+%%", w(k)), c)
        }
        "anchors" => (format!("[[x#{}]]", many("#")), n("link")),
        "bold words" => (format!("*{}*", many(" ")), deco("bold", vec![text(&many(" "))])),
        _ => {
            // the k-th order of the five typefaces, four or five deep
            const T: [(&str, &str); 5] = [("*", "bold"), ("_", "italic"), ("~~", "strikeout"), ("^", "superscript"), (",,", "subscript")];
            let (mut left, mut i) = (T.to_vec(), k);
            let mut order = vec![];
            while !left.is_empty() {
                order.push(left.remove(i % left.len()));
                i /= left.len() + 1;
            }
            order.truncate(4 + k % 2);
            let (mut s, mut t) = ("w".to_string(), text("w"));
            for (m, kind) in order {
                s = format!("{}{}{}", m, s, m);
                t = deco(kind, vec![t]);
            }
            (s, t)
        }
    };
    if BIG[f[1]] == "tags" && matches!(place, "t" | "d") {
        return Ok(trivial(&0));
    }
    let doc = format!("{}a {} b{}", pre, src, post);
    let t = tree::page(&parse(&doc)?);
    let (kind, nth) = match place {
        "p2" | "l2" => ("line", 1),
        "h" => ("header", 0),
        "c" => ("cell", 0),
        "d" => ("definition", 0),
        "t" => ("term", 0),
        _ => ("line", 0),
    };
    let mut at = vec![];
    t.walk(&mut |n| {
        if n.kind == kind {
            at.push(n.clone())
        }
    });
    let mut got: Vec<Node> = at.get(nth).map(|x| x.kids.iter().map(|k| k.clone().strip()).collect()).unwrap_or_default();
    if let Some(l) = got.last_mut() {
        if l.kind == "text" {
            l.text[0] = l.text[0].trim_end().to_string();
        }
    }
    if BIG[f[1]] == "anchors" {
        if got.len() != 3 || got[1].kind != "link" || !got[1].show().contains(&format!("t{}", k - 1)) {
            return Err(format!("{:?} reads as {}", doc, show_all(&got)));
        }
        return Ok(seen(&(f[0], k)));
    }
    let want = if want.kind == "text" { vec![text(&format!("a {} b", want.text[0]))] } else { vec![text("a "), want, text(" b")] };
    same(&doc, &got, &want)?;
    Ok(seen(&(f[0], f[1], k)))
}
impl Prop for P14 {
    fn id(&self) -> &'static str {
        "P14"
    }
    fn rule(&self) -> &'static str {
        "every sequence of up to the stated number of pieces (typefaces to depth three, code, math, tags, keywords, links, comments, plain text), joined by blanks or punctuation, in every place text may be, is one case; marks that one piece leaves open must not occur in the others; non-trivial always"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let m = pieces().len();
        let idx: Vec<String> = (0..m).map(|i| format!("{};", i)).collect();
        let idx: Vec<&str> = idx.iter().map(|s| s.as_str()).collect();
        let at = |k: usize| (0..k).flat_map(|c| ["0", "1", "2", "3", "4"].map(|s| (format!("{}{}|", c, s), String::new()))).collect::<Vec<_>>();
        let some = |v: &[(String, String)]| -> Vec<(&'static str, &'static str)> { v.iter().map(|(a, b)| (&*Box::leak(a.clone().into_boxed_str()), &*Box::leak(b.clone().into_boxed_str()))).collect() };
        let mut v = vec![toks_in("pairs in every place", &idx, 2, &some(&at(INLINE_AT.len()))), toks_in("triples in paragraphs", &idx, 3, &[("00|", ""), ("01|", "")])];
        if tier == Tier::Thorough {
            v.push(toks_in("triples in every place", &idx, 3, &some(&at(INLINE_AT.len()))));
        }
        let mut long = vec![];
        for k in [5, 10, 33, 100, 400] {
            for i in 0..m {
                long.push(format!("00|{}", format!("{};0;", i).repeat(k)));
                long.push(format!("00|{}", (0..k).map(|j| format!("{};", [i, j % 30][j % 2])).collect::<String>()));
            }
        }
        v.push(cases("long texts", long));
        let mut c = vec![];
        for o in 0..MARKS.len() {
            for b in 0..BODIES.len() {
                for m in 0..MARKS.len() {
                    for t in 0..TAILS.len() {
                        for at in 0..INLINE_AT.len() {
                            c.push(format!("cm|{} {} {} {} {}", o, b, m, t, at));
                        }
                    }
                }
            }
        }
        v.push(cases("a comment before open marks are closed", c));
        let mut c = vec![];
        for at in 0..INLINE_AT.len() {
            for k in 0..BIG.len() {
                let sizes: Vec<usize> = if BIG[k] == "nested" { (0..240).collect() } else { (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1023, 1024, 1025]).collect() };
                for z in sizes {
                    c.push(format!("big|{} {} {}", at, k, z));
                }
            }
        }
        v.push(cases("pieces of any size", c));
        v
    }
    fn check(&self, case: &str) -> Check {
        let (head, seq) = case.split_once('|').unwrap();
        if head == "big" {
            return big_piece(&seq.split(' ').map(|x| x.parse().unwrap()).collect::<Vec<usize>>());
        }
        if head == "cm" {
            return comment_in_marks(&seq.split(' ').map(|x| x.parse().unwrap()).collect::<Vec<usize>>());
        }
        let at: usize = head[..1].parse().unwrap();
        let sep = [" ", ", ", " (", "; = ", "\t"][head[1..].parse::<usize>().unwrap()];
        let all = pieces();
        let ids: Vec<usize> = seq.split_terminator(';').map(|x| x.parse().unwrap()).collect();
        if ids.is_empty() {
            return Ok(trivial(&0));
        }
        for (i, a) in ids.iter().enumerate() {
            for (j, b) in ids.iter().enumerate() {
                let bad = |m: &str| all[*b].0.contains(m) || (m == "[[" && all[*b].0.contains("]]"));
                if i != j && openers(all[*a].0).iter().any(|m| bad(m)) {
                    return Ok(trivial(&0));
                }
            }
        }
        let (place, pre, post) = INLINE_AT[at];
        let mut src = String::new();
        let mut want: Vec<(Node, usize)> = vec![];
        let add_text = |want: &mut Vec<(Node, usize)>, s: &str, o: usize| {
            if let Some((l, _)) = want.last_mut() {
                if l.kind == "text" {
                    l.text[0].push_str(s);
                    return;
                }
            }
            want.push((text(s), o));
        };
        for (k, i) in ids.iter().enumerate() {
            if k > 0 {
                add_text(&mut want, sep, src.len());
                src.push_str(sep);
            }
            let (s, node) = &all[*i];
            if node.kind == "text" {
                add_text(&mut want, s, src.len());
            } else {
                want.push((node.clone(), src.len()));
            }
            src.push_str(s);
        }
        let first = all[ids[0]].0;
        // a line may begin a list, and a tag needs white space around it
        if (first == "* a" && matches!(place, "p" | "p2" | "l" | "l2")) || first.starts_with("%%") || (place == "t" && src.contains("::")) || (src.contains('|') && place == "c") {
            return Ok(trivial(&0));
        }
        if matches!(place, "t" | "d") && src.contains(':') {
            return Ok(trivial(&0));
        }
        let tag = |i: usize| matches!(all[i].1.kind, "tags") || all[i].0.starts_with("http");
        if place == "c" && (tag(ids[0]) || tag(ids[ids.len() - 1])) {
            return Ok(trivial(&0));
        }
        if sep == " (" || sep == ", " || sep == "; = " {
            // these need white space on the one side or the other
            let tight = |i: usize| matches!(all[i].1.kind, "tags") || all[i].0.starts_with("http");
            if ids.iter().any(|i| tight(*i)) {
                return Ok(trivial(&0));
            }
        }
        if ids.iter().any(|i| all[*i].0 == "{{x" || all[*i].0 == "[[x") && seq.len() > 0 && ids.iter().any(|i| all[*i].0 == "x]]") {
            return Ok(trivial(&0));
        }
        let doc = format!("{}{}{}", pre, src, post);
        let t = tree::page(&parse(&doc)?);
        // the inline elements of the place
        let mut got: Vec<Node> = vec![];
        fn find<'a>(t: &'a Node, kind: &str) -> Vec<&'a Node> {
            let mut v = vec![];
            t.walk(&mut |n| {
                if n.kind == kind {
                    v.push(n)
                }
            });
            v
        }
        let (kind, nth) = match place {
            "p" => ("line", 0),
            "p2" => ("line", 1),
            "h" => ("header", 0),
            "l" => ("line", 0),
            "l2" => ("line", 1),
            "c" => ("cell", 0),
            "d" => ("definition", 0),
            _ => ("term", 0),
        };
        if let Some(x) = find(&t, kind).get(nth) {
            got = x.kids.clone();
        }
        // regions tell where each piece is
        let spans: Vec<Option<(usize, usize)>> = got.iter().map(|g| g.region.map(|r| (r.0, r.1))).collect();
        let got: Vec<Node> = got.into_iter().map(|g| g.strip()).collect();
        let wn: Vec<Node> = want.iter().map(|w| w.0.clone()).collect();
        let trim = |mut v: Vec<Node>| {
            if let Some(f) = v.last_mut() {
                if f.kind == "text" {
                    f.text[0] = f.text[0].trim_end().to_string();
                }
            }
            v
        };
        same(&doc, &trim(got), &trim(wn))?;
        for (i, (_, o)) in want.iter().enumerate() {
            let end = want.get(i + 1).map_or(src.len(), |x| x.1);
            if spans[i] != Some((pre.len() + o, end - o)) {
                return Err(format!("{:?}: the piece {:?} is said to be at {:?} instead of {:?}", doc, &src[*o..end], spans[i], (pre.len() + o, end - o)));
            }
        }
        Ok(seen(&(seq, at)))
    }
}

// ---------------------------------------------------------------- P16
pub struct P16;
impl Prop for P16 {
    fn id(&self) -> &'static str {
        "P16"
    }
    fn rule(&self) -> &'static str {
        "every definition list of up to the stated number of terms, each with up to three definitions, on the term's line or below, is one case; non-trivial always"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        // a term: index of its text, then definitions ('+' on the same line)
        let defs = ["+", ".", "+.", "..", "+..", "...", "b", "+l", ".b."];
        let terms = ["0", "1", "2", "3"];
        let t: Vec<String> = terms.iter().flat_map(|t| defs.iter().map(move |d| format!("{}{};", t, d))).collect();
        let t: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
        let mut long = vec![];
        for k in [5, 8, 9, 17, 60, 200] {
            for d in defs {
                long.push(format!("0{};", d).repeat(k));
            }
            long.push(format!("0{};", ".".repeat(k)));
            long.push(format!("0+{};1.;", ".".repeat(k)));
        }
        // every kind of content, alone, on the term's line and after another
        let kinds = "blcwkmgyudqphzitTnr";
        let mut rich = vec![];
        for t in ["0", "4", "5", "6"] {
            for a in kinds.chars() {
                for on_line in ["", "!"] {
                    rich.push(format!("{}{}{};", t, on_line, a));
                    rich.push(format!("{}{}{};0.;", t, on_line, a));
                    for b in kinds.chars() {
                        rich.push(format!("{}{}{}{};", t, on_line, a, b));
                        rich.push(format!("{}{}{}.{};1+;", t, on_line, a, b));
                    }
                }
            }
        }
        vec![toks("terms", &t, tier.pick(3, 4)), cases("contents", rich), cases("long definition lists", long)]
    }
    fn check(&self, case: &str) -> Check {
        let mut s = String::new();
        let mut kids = vec![];
        for (i, t) in case.split_terminator(';').enumerate() {
            let (src, node): (String, Vec<Node>) = match &t[..1] {
                "0" => (format!("t{}", i), vec![text(format!("t{}", i))]),
                "1" => (format!("T {} é", i), vec![text(format!("T {} é", i))]),
                "2" => (format!("*t{}* x", i), vec![deco("bold", vec![text(format!("t{}", i))]), text(" x")]),
                "4" => (format!("a: {}", i), vec![text(format!("a: {}", i))]),
                "5" => ("`c`$m$".into(), vec![n("code").line("c"), n("math").line("m")]),
                "6" => ("a.b) |".into(), vec![text("a.b) |")]),
                _ => (format!("[[t{}]]", i), vec![wiki(&format!("t{}", i))]),
            };
            s.push_str(&src);
            s.push_str("::");
            let mut ds = vec![];
            let mut same_line = false;
            let on_line = t[1..].starts_with('!');
            for (j, d) in t[1..].trim_start_matches('!').chars().enumerate() {
                let (src, node) = match d {
                    'c' => ("a::b".into(), vec![text("a::b")]),
                    'w' => (format!("e:: f{}", j), vec![text(format!("e:: f{}", j))]),
                    'k' => ("`c::d`".into(), vec![n("code").line("c::d")]),
                    'm' => ("$x::y$ z".into(), vec![n("math").line("x::y"), text(" z")]),
                    'g' => (":g:h: v".into(), {
                        let mut t = n("tags");
                        t.text = vec!["g".into(), "h".into()];
                        vec![t, text(" v")]
                    }),
                    'y' => ("TODO x".into(), vec![n("keyword").attr("k", "Todo"), text(" x")]),
                    'u' => ("x:y".into(), vec![text("x:y")]),
                    'd' => ("----".into(), vec![text("----")]),
                    'q' => ("> x".into(), vec![text("> x")]),
                    'p' => ("|a|b|".into(), vec![text("|a|b|")]),
                    'h' => ("= h =".into(), vec![text("= h =")]),
                    'z' => ("- [X] x".into(), vec![text("- [X] x")]),
                    'i' | 't' | 'T' => (format!("i{}", j), vec![text(format!("i{}", j))]),
                    'n' => ("{{{".into(), vec![text("{{{")]),
                    'r' => ("a%b".into(), vec![text("a%b")]),
                    'b' => (format!("*d{}* e", j), vec![deco("bold", vec![text(format!("d{}", j))]), text(" e")]),
                    'l' => (format!("d [[x{}]]", j), vec![text("d "), wiki(&format!("x{}", j))]),
                    _ => (format!("d{} {}", i, j), vec![text(format!("d{} {}", i, j))]),
                };
                if d == '+' || (on_line && j == 0) {
                    s.push_str(&format!(" {}\n", src));
                    same_line = true;
                } else {
                    if j == 0 {
                        s.push('\n');
                    }
                    let (before, after) = match d {
                        'i' => ("  ", " "),
                        't' => ("", "\t"),
                        'T' => ("\t", "   "),
                        _ => ("", " "),
                    };
                    s.push_str(&format!("{}::{}{}\n", before, after, src));
                }
                ds.push(n("definition").kids(node));
            }
            let _ = same_line;
            kids.push(n("term_and_definitions").kid(n("term").kids(node)).kid(n("definitions").kids(ds)));
        }
        if kids.is_empty() {
            return Ok(trivial(&0));
        }
        let want = n("definition_list").kids(kids);
        same(&s, &blocks(&s)?, &[want.clone()])?;
        let t = format!("= h =\n{}\nend\n", s);
        same(&t, &blocks(&t)?, &[n("header").attr("level", 1).attr("centered", false).kid(text("h")), want.clone(), para(&["end"])])?;
        // lookup by term
        let p = parse(&s)?;
        if let BlockElement::DefinitionList(l) = p.elements[0].as_inner() {
            for it in &want.kids {
                let name = super::html::display(&it.kids[0].kids);
                let got = imp("get", || l.get(name.as_str()).map(|d| d.len()))?;
                if it.kids[0].kids.iter().all(|k| k.kind == "text") && got != Some(it.kids[1].kids.len()) {
                    return Err(format!("{:?}: the definitions of {:?} are {:?} instead of {}", s, name, got, it.kids[1].kids.len()));
                }
            }
        }
        Ok(seen(&case))
    }
}
