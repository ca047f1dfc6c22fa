//! The data API of a parsed page: equality and hashing (P33), walking tables
//! (P34), walking elements (P35).
use super::spaces::*;
use super::*;
use crate::tree::Node;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(P33), Box::new(P34), Box::new(P35), Box::new(P37)]
}

// ---------------------------------------------------------------- P33
pub struct P33;

const SEP: char = '\u{1f}';

/// Documents in which neighbours differ in one feature
pub(super) fn variants(tier: Tier) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut inl: Vec<&str> = vec![
        "a", "b", "é", "*a*", "*b*", "_a_", "~~a~~", "^a^", ",,a,,", "*_a_*", "_*a*_", "*a [[a]]*", "*a [[b]]*", "*TODO*", "`a`", "`b`", "$a$", "$b$", "TODO", "DONE", "FIXME",
        ":a:", ":b:", ":a:b:", ":b:a:", "%%+a+%%", "%%+b+%%", "%% a",
        "[[a]]", "[[b]]", "[[a|b]]", "[[a|c]]", "[[a#b]]", "[[a#c]]", "[[a#b#c]]", "[[#b]]", "[[a/]]", "[[/a]]", "[[//a]]", "[[a|{{b}}]]", "[[a|{{c}}]]", "[[a|{{b|c}}]]",
        "[[wiki1:a]]", "[[wiki2:a]]", "[[wiki1:b]]", "[[wn.x:a]]", "[[wn.y:a]]", "[[wn.x:b]]", "[[diary:2021-01-02]]", "[[diary:2021-01-03]]", "[[diary:2021-01-02#a]]", "[[diary:2021-01-02|a]]", "[[file:a]]", "[[local:a]]",
        "http://a.b", "https://a.b", "{{a}}", "{{b}}", "{{a|b}}", "{{a|b|c=\"d\"}}", "{{a|b|c=\"e\"}}", "{{a|b|d=\"d\"}}", "{{a|b|c=\"d\" e=\"f\"}}",
        "a *a*", "*a* a", "a\nb", "a\n*a*", "a b",
    ];
    if tier == Tier::Quick {
        inl.retain(|s| s.len() < 40);
    }
    for i in &inl {
        v.push(format!("{}\n", i));
        if tier == Tier::Thorough || !i.contains('\n') {
            for (a, b) in [("= ", " =\n"), ("- ", "\n"), ("|", "|\n"), ("a:: ", "\n")] {
                if !i.contains('\n') && (tier == Tier::Thorough || a == "|" || a == "- ") {
                    v.push(format!("{}{}{}", a, i, b));
                }
            }
        }
    }
    for s in [
        "", "\n", "----\n", "------\n", "= a =\n", "== a ==\n", " = a =\n", "=== a ===\n", "= a b =\n",
        "%title a\n", "%title b\n", "%template a\n", "%date 2021-01-02\n", "%date 2021-01-03\n", "%nohtml\n", "%x a\n", "%y a\n", "%x b\n",
        "> a\n", "> b\n", "> a\n> b\n", "> a\n> c\n", "    a\n", "    a\n    b\n", "> a\n>\n> b\n",
        "{{{\na\n}}}\n", "{{{\nb\n}}}\n", "{{{\na\nb\n}}}\n", "{{{\n\n}}}\n", "{{{x\na\n}}}\n", "{{{y\na\n}}}\n", "{{{x k=\"v\"\na\n}}}\n", "{{{x k=\"w\"\na\n}}}\n", "{{{x l=\"v\"\na\n}}}\n", "{{{x k=\"v\" l=\"v\"\na\n}}}\n", "{{{k=\"v\"\na\n}}}\n",
        "{{$\na\n}}$\n", "{{$\nb\n}}$\n", "{{$\na\nb\n}}$\n", "{{$%e%\na\n}}$\n", "{{$%f%\na\n}}$\n",
        "- b\n", "* a\n", "# a\n", "1. a\n", "1) a\n", "a. a\n", "a) a\n", "A. a\n", "A) a\n", "i. a\n", "i) a\n", "I. a\n", "I) a\n",
        "- a\n- a\n", "- a\n- b\n", "- a\n  - a\n", "- a\n  - b\n", "- a\n  a\n", "- a\n  * a\n", "1. a\n2. a\n", "- a\n\n- a\n",
        "- [ ] a\n", "- [.] a\n", "- [o] a\n", "- [O] a\n", "- [X] a\n", "- [-] a\n", "1. [ ] a\n",
        "|b|\n", "|a|b|\n", "|a|c|\n", "|b|a|\n", "|a|\n|b|\n", "|a|\n|c|\n", " |a|\n", " |a|b|\n", "|a|>|\n", "|>|a|\n", "|a|\\/|\n", "|\\/|a|\n", "|a|\n|\\/|\n", "|a|\n|>|\n", "|a|\n|--|\n", "|a|\n|:-|\n", "|a|\n|-:|\n", "|a|\n|:-:|\n", "|a|\n|--|\n|b|\n", "|a|\n|:-|\n|b|\n", "| |\n", "|a| |\n", "|a|b|\n|c|\n", "|a|b|\n|c|d|\n", "|a|b|\n|c|e|\n", "|a|b|\n|\\/|c|\n", "|--|\n", "|>|\n", "|\\/|\n", "|*a*|b|\n", "|a|*b*|\n", "|a *a*|\n",
        "a::\n", "b::\n", "a:: a\n:: b\n", "a:: a\n:: c\n", "a:: b\n", "b:: a\n", "a:: a\nb:: a\n", "a:: a\nb:: b\n", "a:: *b*\n", "*a*:: a\n", "a::\n:: a\n", "a::\n:: b\n",
        "a\n\nb\n", "a\n\na\n", "= a =\na\n", "a\n= a =\n", "- a\na\n", "|a|\na\n", "\na\n", "\n\na\n", "\na\n\n", "  a\n", " a\n", "%%+ a\nb +%%\n", "%%+ a\nc +%%\n", "%%+ a\n\nb +%%\n", "- a\n  {{{\n  a\n  }}}\n", "- a\n  {{{\n  b\n  }}}\n", "- a\n  |a|\n", "- a\n  |b|\n",
    ] {
        v.push(s.to_string());
    }
    v.extend(BLOCKS.iter().map(|b| b.replace('Q', "a")));
    if tier == Tier::Thorough {
        for i in INLINES {
            for (a, b) in INLINE_CONTEXTS {
                v.push(format!("{}{}{}", a, i, b).replace('Q', "a"));
            }
        }
        for a in BLOCKS.iter().step_by(2) {
            for b in BLOCKS.iter().step_by(5) {
                v.push(format!("{}{}", a, b).replace('Q', "a"));
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// What plain equality is documented to see: no locations, and of a term or a
/// definition only the text that it displays
fn plain(n: Node) -> Node {
    let mut n = n.strip();
    fn words(n: &Node, o: &mut String) {
        for t in &n.text {
            o.push_str(t);
        }
        n.kids.iter().for_each(|k| words(k, o));
    }
    fn go(n: &mut Node) {
        if n.kind == "term" || n.kind == "definition" {
            let mut s = String::new();
            n.kids.iter().for_each(|k| words(k, &mut s));
            n.kids.clear();
            n.text = vec![s];
        }
        n.kids.iter_mut().for_each(go);
    }
    go(&mut n);
    n
}
/// Whether a term or a definition has parts whose displayed text is not simply
/// the text inside
fn shown_otherwise(n: &Node) -> bool {
    let mut f = false;
    n.walk(&mut |n| {
        if n.kind == "definition_list" {
            n.walk(&mut |n| f |= matches!(n.kind, "link" | "tags" | "multi_comment" | "line_comment" | "keyword"));
        }
    });
    f
}

/// Every element of a page together with what it consists of, places included
/// except its own
fn inside(p: &Page) -> Result<Vec<(Element<'static>, Node)>, String> {
    fn go(e: Element<'static>, o: &mut Vec<(Element<'static>, Node)>) {
        let n = match &e {
            Element::Block(b) => tree::block_inner(b),
            Element::Inline(i) => tree::inline_inner(i),
            Element::InlineBlock(InlineBlockElement::ListItem(i)) => {
                let mut n = tree::list_item(&Located::from(i.to_borrowed()));
                n.region = None;
                n
            }
            Element::InlineBlock(InlineBlockElement::Term(t)) => Node::new("term").kids(t.as_inner().into_iter().map(tree::inline)),
            Element::InlineBlock(InlineBlockElement::Definition(t)) => Node::new("definition").kids(t.as_inner().into_iter().map(tree::inline)),
        };
        o.push((e.clone(), n));
        for c in e.into_children() {
            go(c.into_inner(), o);
        }
    }
    imp("into_children", || {
        let mut o = vec![];
        for b in p.clone().into_owned().into_children() {
            go(Element::from(b.into_inner()), &mut o);
        }
        o
    })
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
/// Hashes of everything hashable in a page, in order
fn hashes(p: &Page) -> Vec<u64> {
    let mut v = vec![];
    for b in &p.elements {
        match b.as_inner() {
            BlockElement::Header(x) => v.push(hash_of(x)),
            BlockElement::Blockquote(x) => v.push(hash_of(x)),
            BlockElement::Divider(x) => v.push(hash_of(x)),
            BlockElement::Placeholder(x) => v.push(hash_of(x)),
            BlockElement::MathBlock(x) => v.push(hash_of(x)),
            BlockElement::Paragraph(x) => v.extend(x.lines.iter().map(hash_of)),
            BlockElement::Table(x) => v.extend(x.cells().map(hash_of)),
            BlockElement::DefinitionList(x) => {
                for it in &x.items {
                    v.push(hash_of(&it.term));
                    v.push(hash_of(&it.definitions));
                }
            }
            _ => {}
        }
    }
    v
}

/// Distinct values of each type that has no place of its own in a text: they
/// are equal exactly to themselves
const VALUES: [&str; 33] = [
    "todo", "attributes", "suffix", "ordered", "unordered", "type", "align", "span", "keyword", "divider", "anchor", "description", "data", "link", "tag", "tags", "placeholder", "code", "math", "comments", "cell", "quote", "list of texts",
    "text", "line comment", "block comment", "decorated", "decorated content", "inline", "container", "header", "paragraph", "item contents",
];
fn distinct<T: PartialEq + StrictEq + std::fmt::Debug>(f: impl Fn() -> Vec<T>) -> Result<usize, String> {
    let (v, w) = (f(), f());
    for (i, a) in v.iter().enumerate() {
        for (j, b) in w.iter().enumerate() {
            let got = (a == b, b == a, a != b, a.strict_eq(b), b.strict_eq(a));
            if got != (i == j, i == j, i != j, i == j, i == j) {
                return Err(format!("{:?} and {:?}: (==, ==, !=, strict_eq, strict_eq) is {:?}", a, b, got));
            }
        }
    }
    Ok(v.len())
}
fn value_case(name: &str) -> Result<usize, String> {
    use std::borrow::Cow;
    use ListItemTodoStatus as T;
    let todo = || vec![T::Incomplete, T::PartiallyComplete1, T::PartiallyComplete2, T::PartiallyComplete3, T::Complete, T::Rejected];
    let ordered = || {
        use OrderedListItemType::*;
        vec![Number, Pound, LowercaseAlphabet, UppercaseAlphabet, LowercaseRoman, UppercaseRoman]
    };
    let unordered = || vec![UnorderedListItemType::Hyphen, UnorderedListItemType::Asterisk, UnorderedListItemType::Other(Cow::from("+")), UnorderedListItemType::Other(Cow::from("-")), UnorderedListItemType::Other(Cow::from("+ "))];
    let links = || {
        ["[[a]]", "[[a|b]]", "[[a#b]]", "[[a#b#c]]", "[[a#b|c]]", "[[#b]]", "[[a|B]]", "[[A]]", "{{a}}", "{{a|b}}", "{{a|b|c=\"d\"}}", "{{a|b|c=\"e\"}}", "{{a|b|d=\"d\"}}", "{{a|b|c=\"d\" d=\"d\"}}", "{{a||c=\"d\"}}", "[[a|{{a}}]]", "[[a|{{b}}]]"]
            .iter()
            .map(|s| Language::from_vimwiki_str(s).parse::<Located<Link>>().unwrap().into_inner().into_owned())
            .collect::<Vec<Link<'static>>>()
    };
    let tag = || ["a", "b", "A", "", "a b"].iter().map(|s| Tag::from(*s)).collect::<Vec<_>>();
    let text = |a: &'static str| Text::from(a);
    let contents = || vec![DecoratedTextContent::Text(text("a")), DecoratedTextContent::Text(text("b")), DecoratedTextContent::Keyword(Keyword::Todo)];
    let decorated = || {
        let mut v = vec![];
        let mut of: Vec<Vec<DecoratedTextContent>> = contents().into_iter().map(|c| vec![c]).collect();
        of.extend([vec![], contents(), contents().into_iter().rev().collect()]);
        for c in of {
            let c = || c.clone().into_iter().map(Located::from).collect::<Vec<_>>();
            v.extend([DecoratedText::Bold(c()), DecoratedText::Italic(c()), DecoratedText::Strikeout(c()), DecoratedText::Superscript(c()), DecoratedText::Subscript(c())]);
        }
        v
    };
    let inlines = || {
        let mut v: Vec<InlineElement> = decorated().into_iter().map(InlineElement::DecoratedText).collect();
        v.extend(links().into_iter().map(InlineElement::Link));
        v.extend([InlineElement::Text(text("a")), InlineElement::Text(text("b")), InlineElement::Keyword(Keyword::Todo), InlineElement::Keyword(Keyword::Done), InlineElement::Code(CodeInline::from("a")), InlineElement::Code(CodeInline::from("b"))]);
        v.extend([InlineElement::Math(MathInline::from("a")), InlineElement::Math(MathInline::from("b")), InlineElement::Tags(Tags::new(tag())), InlineElement::Tags(Tags::new(vec![])), InlineElement::Comment(LineComment::from("a").into()), InlineElement::Comment(MultiLineComment::from("a").into())]);
        v
    };
    let containers = || {
        let l = |v: Vec<InlineElement<'static>>| InlineElementContainer::new(v.into_iter().map(Located::from).collect());
        let mut v: Vec<InlineElementContainer> = inlines().into_iter().map(|i| l(vec![i])).collect();
        v.extend([l(vec![]), l(inlines()), l(inlines().into_iter().rev().collect()), l(vec![InlineElement::Text(text("a")), InlineElement::Text(text("b"))])]);
        v
    };
    match name {
        "todo" => distinct(todo),
        "attributes" => distinct(|| todo().into_iter().map(Some).chain([None]).map(|todo_status| ListItemAttributes { todo_status }).collect()),
        "suffix" => distinct(|| vec![ListItemSuffix::None, ListItemSuffix::Period, ListItemSuffix::Paren]),
        "ordered" => distinct(ordered),
        "unordered" => distinct(unordered),
        "type" => distinct(|| ordered().into_iter().map(ListItemType::Ordered).chain(unordered().into_iter().map(ListItemType::Unordered)).collect()),
        "align" => distinct(|| vec![ColumnAlign::None, ColumnAlign::Left, ColumnAlign::Center, ColumnAlign::Right]),
        "span" => distinct(|| vec![CellSpan::FromAbove, CellSpan::FromLeft]),
        "keyword" => distinct(|| vec![Keyword::Todo, Keyword::Done, Keyword::Started, Keyword::Fixme, Keyword::Fixed, Keyword::Xxx]),
        "divider" => distinct(|| vec![Divider]),
        "anchor" => distinct(|| [&["a"][..], &["b"], &["a", "b"], &["b", "a"], &["a-b"], &["a", ""], &[]].iter().map(|v| Anchor::new(v.iter().map(|s| Cow::from(*s)).collect())).collect()),
        "description" => distinct(|| vec![Description::from("a"), Description::from("b"), Description::try_from_uri_ref_str("a").unwrap(), Description::try_from_uri_ref_str("b").unwrap(), Description::try_from_uri_ref_str("").unwrap()]),
        "data" => distinct(|| links()[..8].iter().map(|l| l.data().clone()).collect()),
        "link" => distinct(links),
        "tag" => distinct(tag),
        "tags" => distinct(|| vec![Tags::new(tag()), Tags::new(tag()[..1].to_vec()), Tags::new(tag()[..2].to_vec()), Tags::new(vec![tag()[1].clone(), tag()[0].clone()]), Tags::new(vec![])]),
        "placeholder" => distinct(|| {
            let d = |d| vendor::chrono::NaiveDate::from_ymd(2021, 3, d);
            let o = |n, v| Placeholder::Other { name: Cow::from(n), value: Cow::from(v) };
            vec![Placeholder::NoHtml, Placeholder::Title(Cow::from("a")), Placeholder::Title(Cow::from("b")), Placeholder::Template(Cow::from("a")), Placeholder::Template(Cow::from("b")), Placeholder::Date(d(1)), Placeholder::Date(d(2)), o("a", "b"), o("b", "a"), o("a", "a"), o("title", "a")]
        }),
        "code" => distinct(|| vec![CodeInline::from("a"), CodeInline::from("b"), CodeInline::from("")]),
        "math" => distinct(|| vec![MathInline::from("a"), MathInline::from("b"), MathInline::from("")]),
        "comments" => distinct(|| vec![Comment::from(LineComment::from("a")), Comment::from(LineComment::from("b")), Comment::from(MultiLineComment::from("a")), Comment::from(MultiLineComment::new(vec![Cow::from("a"), Cow::from("b")])), Comment::from(MultiLineComment::new(vec![]))]),
        "cell" => distinct(|| {
            let c = |s: &'static str| Cell::Content(InlineElementContainer::new(vec![Located::from(InlineElement::Text(text(s)))]));
            vec![c("a"), c("b"), Cell::Content(InlineElementContainer::new(vec![])), Cell::Span(CellSpan::FromAbove), Cell::Span(CellSpan::FromLeft), Cell::Align(ColumnAlign::None), Cell::Align(ColumnAlign::Left), Cell::Align(ColumnAlign::Center), Cell::Align(ColumnAlign::Right)]
        }),
        "quote" => distinct(|| [&["a"][..], &["a", "b"], &["b", "a"], &["a", ""], &[]].iter().map(|v| Blockquote::new(v.iter().map(|s| Cow::from(*s)).collect())).collect()),
        "list of texts" => distinct(|| vec![vec![], vec![text("a")], vec![text("b")], vec![text("a"), text("b")], vec![text("b"), text("a")], vec![text("a"), text("a")], vec![text("a"), text("a"), text("b")]]),
        "text" => distinct(|| vec![text("a"), text("b"), text(""), text("a ")]),
        "line comment" => distinct(|| vec![LineComment::from("a"), LineComment::from("b"), LineComment::from(""), LineComment::from(" a")]),
        "block comment" => distinct(|| [&["a"][..], &["b"], &["a", "b"], &["b", "a"], &["a", ""], &[]].iter().map(|v| MultiLineComment::new(v.iter().map(|s| Cow::from(*s)).collect())).collect()),
        "decorated" => distinct(decorated),
        "decorated content" => distinct(|| {
            let mut v: Vec<DecoratedTextContent> = decorated().into_iter().map(DecoratedTextContent::DecoratedText).collect();
            v.extend(contents());
            v.extend(links().into_iter().map(DecoratedTextContent::Link));
            v.push(DecoratedTextContent::Keyword(Keyword::Xxx));
            v
        }),
        "inline" => distinct(inlines),
        "container" => distinct(containers),
        "header" => distinct(|| containers().into_iter().flat_map(|c| [(1, false), (2, false), (1, true)].iter().map(|(l, m)| Header::new(c.clone(), *l, *m)).collect::<Vec<_>>()).collect()),
        "paragraph" => distinct(|| {
            let c = containers();
            let mut v: Vec<Paragraph> = c.iter().map(|c| Paragraph::new(vec![c.clone()])).collect();
            v.extend([Paragraph::new(vec![]), Paragraph::new(vec![c[0].clone(), c[1].clone()]), Paragraph::new(vec![c[1].clone(), c[0].clone()])]);
            v
        }),
        "item contents" => distinct(|| {
            let b = || {
                let mut v: Vec<BlockElement> = containers().into_iter().map(|c| BlockElement::Paragraph(Paragraph::new(vec![c]))).collect();
                v.push(BlockElement::Divider(Divider));
                v.push(BlockElement::Placeholder(Placeholder::NoHtml));
                v
            };
            let l = |v: Vec<BlockElement<'static>>| v.into_iter().map(Located::from).collect::<ListItemContents>();
            let mut v: Vec<ListItemContents> = b().into_iter().map(|x| l(vec![x])).collect();
            v.extend([l(vec![]), l(b()), l(b().into_iter().rev().collect())]);
            v
        }),
        _ => Err("no such value".into()),
    }
}
impl Prop for P33 {
    fn id(&self) -> &'static str {
        "P33"
    }
    fn rule(&self) -> &'static str {
        "every ordered pair of a list of documents chosen so that for every field of every element two of them differ in it alone; non-trivial when both documents have elements"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["plain equality of terms and definitions is that of the text they display, as their documentation of comparing with strings implies"]
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let docs = variants(tier);
        let mut c = vec![];
        for (i, a) in docs.iter().enumerate() {
            for b in &docs[i..] {
                c.push(format!("{}{}{}", a, SEP, b));
            }
        }
        vec![cases("pairs of documents", c), cases("pairs of values", VALUES.iter().map(|v| format!("value:{}", v)).collect())]
    }
    fn check(&self, case: &str) -> Check {
        if let Some(v) = case.strip_prefix("value:") {
            return Ok(seen(&(v, imp("values", || value_case(v))??)));
        }
        let (a, b) = case.split_once(SEP).ok_or("bad case")?;
        let (p, q) = (parse(a)?, parse(b)?);
        let (s, t) = (tree::page(&p), tree::page(&q));
        let same = s == t;
        for (n, x) in [("a.strict_eq(b)", imp("strict_eq", || p.strict_eq(&q))?), ("b.strict_eq(a)", imp("strict_eq", || q.strict_eq(&p))?)] {
            if x != same {
                return Err(format!("{} is {}\nfor {}\nand {}", n, x, s.show(), t.show()));
            }
        }
        // element by element as well, whatever their number
        for (x, k) in p.elements.iter().zip(&s.kids) {
            for (y, l) in q.elements.iter().zip(&t.kids) {
                let want = k == l;
                if x.strict_eq(y) != want || y.strict_eq(x) != want {
                    return Err(format!("strict equality of elements is {}\nfor {}\nand {}", !want, k.show(), l.show()));
                }
            }
        }
        // and of every kind of element at any depth
        let (x, y) = (inside(&p)?, inside(&q)?);
        for (a, m) in &x {
            for (b, n) in &y {
                if a.strict_eq(b) != (m == n) || b.strict_eq(a) != (m == n) {
                    return Err(format!("strict equality of elements is {}\nfor {}\nand {}", m != n, m.show(), n.show()));
                }
            }
        }
        let (u, w) = (plain(s.clone()), plain(t.clone()));
        let (e, f) = (imp("==", || p == q)?, imp("==", || q == p)?);
        let exact = !shown_otherwise(&s) && !shown_otherwise(&t);
        if e != f || (s.clone().strip() == t.clone().strip() && !e) || (exact && (u == w) != e) {
            return Err(format!("equality is {} and {}\nfor {}\nand {}", e, f, u.show(), w.show()));
        }
        if e && imp("hash", || hashes(&p) != hashes(&q))? {
            return Err(format!("equal elements have different hashes\nfor {}\nand {}", u.show(), w.show()));
        }
        Ok(if s.kids.is_empty() || t.kids.is_empty() { trivial(&0) } else { seen(&(s.strip(), t.strip())) })
    }
}

// ---------------------------------------------------------------- P34
pub struct P34;

/// A table as rows of cell kinds: c content, l span from the left, u span from
/// above, a align, '.' no cell
type Grid = Vec<Vec<char>>;
fn grids(rows: usize, cols: usize, kinds: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    for r in 0..rows {
        if r > 0 {
            v.iter_mut().for_each(|s| s.push('/'));
        }
        for _ in 0..cols {
            v = v.iter().flat_map(|s| kinds.chars().map(move |k| format!("{}{}", s, k))).collect();
        }
    }
    v
}
const ALIGNS: [ColumnAlign; 4] = [ColumnAlign::None, ColumnAlign::Left, ColumnAlign::Center, ColumnAlign::Right];

fn build(g: &Grid) -> Table<'static> {
    let mut cells = vec![];
    for (r, row) in g.iter().enumerate() {
        for (c, k) in row.iter().enumerate() {
            let cell = match k {
                'c' => Cell::Content(InlineElementContainer::new(vec![Located::from(InlineElement::Text(Text::from(format!("r{}c{}", r, c))))])),
                'l' => Cell::Span(CellSpan::FromLeft),
                'u' => Cell::Span(CellSpan::FromAbove),
                'a' => Cell::Align(ALIGNS[(r + c + 1) % 4]),
                _ => continue,
            };
            // the region tells cells apart
            cells.push((CellPos::new(r, c), Located::new(cell, Region::new(r * 100 + c, 1))));
        }
    }
    // construction does not depend on the order in which cells are given
    if cells.len() % 2 == 0 {
        cells.reverse();
    }
    Table::new(cells, false)
}
type At = (usize, usize);
fn at(c: &Located<Cell>) -> At {
    (c.region().offset() / 100, c.region().offset() % 100)
}

/// Runs an iterator to its end; at each of its states compares what it
/// announces (positions, bounds, remaining content) with what is left.
fn run<I, T>(what: &str, it: I, want: &[At], kind: &dyn Fn(At) -> char, pos: impl Fn(&T) -> At, next_at: impl Fn(&I) -> Option<At>, has_content: impl Fn(&I) -> Option<bool>) -> Result<(), String>
where
    I: Iterator<Item = T>,
{
    let mut it = it;
    for i in 0..=want.len() + 1 {
        let left = want.get(i.min(want.len())..).unwrap();
        let (lo, hi) = imp(what, || it.size_hint())?;
        if lo > left.len() || hi.map_or(false, |h| h < left.len()) {
            return Err(format!("{}: size_hint is ({}, {:?}) with {} items left", what, lo, hi, left.len()));
        }
        if let Some(h) = imp(what, || has_content(&it))? {
            let w = left.iter().any(|p| kind(*p) == 'c');
            if h != w {
                return Err(format!("{}: has_content() is {} with {:?} left", what, h, left));
            }
        }
        if let (Some(p), Some(w)) = (imp(what, || next_at(&it))?, left.first()) {
            if p != *w {
                return Err(format!("{}: announces {:?} but {:?} is next", what, p, w));
            }
        }
        let n = imp(what, || it.next())?;
        let n = n.as_ref().map(&pos);
        if n != left.first().copied() {
            return Err(format!("{}: yields {:?} instead of {:?} as item {}", what, n, left.first(), i));
        }
    }
    Ok(())
}

/// Two numbers with a comma between them, white space around either
fn position_case(s: &str) -> Check {
    let number = |x: &str| {
        let x = x.trim();
        let d = x.strip_prefix('+').unwrap_or(x);
        if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        d.parse::<usize>().ok()
    };
    let parts: Vec<&str> = s.split(',').collect();
    let want = match parts[..] {
        [r, c] => number(r).and_then(|r| number(c).map(|c| (r, c))),
        _ => None,
    };
    let got = imp("CellPos::from_str", || s.parse::<CellPos>())?;
    if got.as_ref().ok().map(|p| (p.row, p.col)) != want {
        return Err(format!("the position {:?} is read as {:?}", s, got));
    }
    if let Ok(p) = got {
        if p.to_string() != format!("{},{}", p.row, p.col) || p.to_string().parse::<CellPos>() != Ok(p) {
            return Err(format!("the position {:?} is written as {:?}", p, p.to_string()));
        }
        return Ok(seen(&(p.row, p.col)));
    }
    Ok(trivial(&0))
}
impl Prop for P34 {
    fn id(&self) -> &'static str {
        "P34"
    }
    fn rule(&self) -> &'static str {
        "every table of the stated dimensions over the cell kinds (content, span from the left, span from above, alignment, no cell); each iterator of each table is driven through all of its states; non-trivial when the table has a cell"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let all = "clua.";
        let mut v = vec![];
        let dims: &[(usize, usize, &str)] = &[(0, 0, all), (1, 1, all), (1, 2, all), (2, 1, all), (1, 4, all), (4, 1, all), (2, 2, all), (2, 3, all), (3, 2, all), (3, 3, "ca."), (5, 1, "cu.a"), (1, 5, "cl.a"), (4, 2, "ca.")];
        for (r, c, k) in dims {
            v.push(cases(&format!("{}x{} of {}", r, c, k), grids(*r, *c, k)));
        }
        if tier == Tier::Thorough {
            v.push(cases("3x3 of clua.", grids(3, 3, all)));
            v.push(cases("6x1 of clua.", grids(6, 1, all)));
            v.push(cases("4x3 of ca.", grids(4, 3, "ca.")));
            v.push(cases("3x4 of cl.", grids(3, 4, "cl.")));
            v.push(cases("4x3 of cu.", grids(4, 3, "cu.")));
        }
        v.push(toks_in("positions as text", &["0", "7", "12", ",", " ", "\t", "-", "+", "x", "18446744073709551616", ".", "\n"], tier.pick(4, 5), &[("at ", "")]));
        v
    }
    fn check(&self, case: &str) -> Check {
        if let Some(s) = case.strip_prefix("at ") {
            return position_case(s);
        }
        let g: Grid = case.split('/').map(|r| r.chars().collect()).collect();
        let kind = |p: At| g.get(p.0).and_then(|r| r.get(p.1)).copied().unwrap_or('.');
        let mut all: Vec<At> = vec![];
        for (r, row) in g.iter().enumerate() {
            for c in 0..row.len() {
                if kind((r, c)) != '.' {
                    all.push((r, c));
                }
            }
        }
        let rows = all.iter().map(|p| p.0 + 1).max().unwrap_or(0);
        let cols = all.iter().map(|p| p.1 + 1).max().unwrap_or(0);
        let row = |r: usize| all.iter().copied().filter(|p| p.0 == r).collect::<Vec<_>>();
        let col = |c: usize| all.iter().copied().filter(|p| p.1 == c).collect::<Vec<_>>();
        let t = imp("Table::new", || build(&g))?;
        if (t.row_cnt(), t.col_cnt(), t.len(), t.is_empty()) != (rows, cols, all.len(), all.is_empty()) {
            return Err(format!("counts are {:?}", (t.row_cnt(), t.col_cnt(), t.len(), t.is_empty())));
        }
        let ref_at = |c: &&Located<Cell>| at(c);
        let own_at = |c: &Located<Cell>| at(c);
        run("cells()", t.cells(), &all, &kind, ref_at, |i| Some((CellIter::row(i), CellIter::col(i))), |i| Some(i.has_content()))?;
        run("into_cells()", t.clone().into_cells(), &all, &kind, own_at, |i| Some((CellIter::row(i), CellIter::col(i))), |i| Some(i.has_content()))?;
        run("cells().zip_with_position()", t.cells().zip_with_position(), &all, &kind, |(p, c): &(CellPos, &Located<Cell>)| if (p.row, p.col) == at(c) { at(c) } else { (99, 99) }, |_| None, |_| None)?;
        run("into_cells().zip_with_position()", t.clone().into_cells().zip_with_position(), &all, &kind, |(p, c): &(CellPos, Located<Cell>)| if (p.row, p.col) == at(c) { at(c) } else { (99, 99) }, |_| None, |_| None)?;
        for r in 0..rows + 2 {
            let w = row(r);
            run(&format!("row({})", r), t.row(r), &w, &kind, ref_at, |i| Some((CellIter::row(i), CellIter::col(i))), |i| Some(i.has_content()))?;
            run(&format!("into_row({})", r), t.clone().into_row(r), &w, &kind, own_at, |i| Some((CellIter::row(i), CellIter::col(i))), |i| Some(i.has_content()))?;
        }
        for c in 0..cols + 2 {
            let w = col(c);
            run(&format!("column({})", c), t.column(c), &w, &kind, ref_at, |i| Some((CellIter::row(i), CellIter::col(i))), |i| Some(i.has_content()))?;
            run(&format!("into_column({})", c), t.clone().into_column(c), &w, &kind, own_at, |i| Some((CellIter::row(i), CellIter::col(i))), |i| Some(i.has_content()))?;
            let w: Option<ColumnAlign> = col(c).into_iter().find(|p| kind(*p) == 'a').map(|p| ALIGNS[(p.0 + p.1 + 1) % 4]);
            let got = imp("get_column_alignment", || t.get_column_alignment(c))?;
            if got != w.unwrap_or(ColumnAlign::None) {
                return Err(format!("alignment of column {} is {:?}", c, got));
            }
        }
        // rows, header and body
        let divider = (0..rows).find(|r| !row(*r).is_empty() && row(*r).iter().all(|p| kind(*p) == 'a'));
        let is_div = |r: usize| !row(r).is_empty() && row(r).iter().all(|p| kind(*p) == 'a');
        if imp("get_divider_row_index", || t.get_divider_row_index())? != divider || t.has_divider_row() != divider.is_some() {
            return Err(format!("divider row is {:?} instead of {:?}", t.get_divider_row_index(), divider));
        }
        let header: Vec<usize> = (0..divider.unwrap_or(0)).collect();
        let body: Vec<usize> = (divider.map_or(0, |d| d + 1)..rows).filter(|r| !is_div(*r)).collect();
        let every: Vec<usize> = (0..rows).collect();
        fn rows_of<'t, 'b: 't, I: Iterator<Item = Row<'t, 'b>>>(what: &str, mut it: I, want: &[usize], content: &dyn Fn(usize) -> bool, has: impl Fn(&I) -> bool, row: &dyn Fn(usize) -> Vec<At>) -> Result<(), String> {
            for i in 0..=want.len() + 1 {
                let left = &want[i.min(want.len())..];
                let (lo, hi) = imp(what, || it.size_hint())?;
                if lo > left.len() || hi.map_or(false, |h| h < left.len()) {
                    return Err(format!("{}: size_hint is ({}, {:?}) with {} rows left", what, lo, hi, left.len()));
                }
                if has(&it) != left.iter().any(|r| content(*r)) {
                    return Err(format!("{}: has_content() is {} with rows {:?} left", what, has(&it), left));
                }
                let n = imp(what, || it.next())?;
                match (n, left.first()) {
                    (None, None) => {}
                    (Some(x), Some(w)) => {
                        if CellIter::row(&x) != *w {
                            return Err(format!("{}: yields row {} instead of {}", what, CellIter::row(&x), w));
                        }
                        let c: Vec<At> = x.map(at).collect();
                        if c != row(*w) {
                            return Err(format!("{}: row {} yields cells {:?}", what, w, c));
                        }
                    }
                    (x, w) => return Err(format!("{}: yields {} where row {:?} is next", what, if x.is_some() { "a row" } else { "nothing" }, w)),
                }
            }
            Ok(())
        }
        let content_row = |r: usize| row(r).iter().any(|p| kind(*p) == 'c');
        rows_of("rows()", t.rows(), &every, &content_row, |i| i.has_content(), &row)?;
        rows_of("header_rows()", t.header_rows(), &header, &content_row, |i| i.has_content(), &row)?;
        rows_of("body_rows()", t.body_rows(), &body, &content_row, |i| i.has_content(), &row)?;
        rows_of("Rows::empty()", Rows::empty(&t), &[], &content_row, |i| i.has_content(), &row)?;
        if t.has_header_rows() != !header.is_empty() || t.has_body_rows() != !body.is_empty() {
            return Err("has_header_rows()/has_body_rows() disagree with the rows".into());
        }
        for (r, x) in t.rows().enumerate() {
            if x.is_divider_row() != is_div(r) {
                return Err(format!("is_divider_row() of row {} is {}", r, !is_div(r)));
            }
        }
        {
            let mut it = t.columns();
            for i in 0..=cols + 1 {
                let left = cols - i.min(cols);
                let (lo, hi) = imp("columns()", || it.size_hint())?;
                if lo > left || hi.map_or(false, |h| h < left) {
                    return Err(format!("columns(): size_hint is ({}, {:?}) with {} left", lo, hi, left));
                }
                if it.has_content() != (i..cols).any(|c| col(c).iter().any(|p| kind(*p) == 'c')) {
                    return Err(format!("columns(): has_content() is {} at column {}", it.has_content(), i));
                }
                match imp("columns()", || it.next())? {
                    None if left == 0 => {}
                    Some(x) if left > 0 => {
                        let c: Vec<At> = x.map(at).collect();
                        if c != col(i) {
                            return Err(format!("columns(): column {} yields cells {:?}", i, c));
                        }
                    }
                    x => return Err(format!("columns(): {} at column {} of {}", if x.is_some() { "more" } else { "ends" }, i, cols)),
                }
            }
            if Columns::empty(&t).next().is_some() {
                return Err("Columns::empty() yields a column".into());
            }
        }
        // spans of each cell, there or not
        for r in 0..rows + 1 {
            for c in 0..cols + 1 {
                let k = kind((r, c));
                if t.get_cell(r, c).map(at) != if k == '.' { None } else { Some((r, c)) } {
                    return Err(format!("get_cell({}, {}) is wrong", r, c));
                }
                let (mut down, mut right) = (0, 0);
                if k == 'c' {
                    down = 1 + (r + 1..).take_while(|x| kind((*x, c)) == 'u').count();
                    right = 1 + (c + 1..).take_while(|x| kind((r, *x)) == 'l').count();
                }
                let got = imp("spans", || (t.get_cell_rowspan(r, c), t.get_cell_colspan(r, c)))?;
                if got != (down, right) {
                    return Err(format!("spans of ({}, {}) are {:?} instead of {:?}", r, c, got, (down, right)));
                }
            }
        }
        let m: BTreeMap<At, char> = all.iter().map(|p| (*p, kind(*p))).collect();
        Ok(if all.is_empty() { trivial(&0) } else { seen(&m) })
    }
}

// ---------------------------------------------------------------- P35
pub struct P35;

/// What a node's children are by the documentation: the elements directly
/// inside, in document order
fn expected(n: &Node) -> Node {
    let mut m = n.clone();
    m.kids = vec![];
    fn collect(n: &Node, o: &mut Vec<Node>) {
        for k in &n.kids {
            match k.kind {
                "line" | "term_and_definitions" | "definitions" | "cell" | "span_left" | "span_above" | "align" => collect(k, o),
                "desc_link" => {}
                _ => o.push(expected(k)),
            }
        }
    }
    collect(n, &mut m.kids);
    m
}
fn element(e: Located<Element>) -> Result<Node, String> {
    let r = e.region();
    let mut n = match e.as_inner() {
        Element::Block(b) => tree::block_inner(b).at(r),
        Element::Inline(i) => tree::inline_inner(i).at(r),
        Element::InlineBlock(InlineBlockElement::ListItem(i)) => tree::list_item(&Located::new(i.to_borrowed(), r)),
        Element::InlineBlock(InlineBlockElement::Term(_)) => Node::new("term").at(r),
        Element::InlineBlock(InlineBlockElement::Definition(_)) => Node::new("definition").at(r),
    };
    let (b, i, ib) = (e.as_block_element().is_some(), e.as_inline_element().is_some(), e.as_inline_block_element().is_some());
    let (ob, oi, oib) = (e.as_inner().clone().into_block_element().is_some(), e.as_inner().clone().into_inline_element().is_some(), e.as_inner().clone().into_inline_block_element().is_some());
    if (b, i, ib) != (ob, oi, oib) || [b, i, ib].iter().filter(|x| **x).count() != 1 {
        return Err(format!("an element answers to {:?} and {:?}", (b, i, ib), (ob, oi, oib)));
    }
    let owned = e.as_inner().clone().into_owned();
    if !owned.strict_eq(e.as_inner()) || !owned.to_borrowed().strict_eq(e.as_inner()) {
        return Err("an owned element is not strictly equal to the one it was made from".into());
    }
    n.kids = e.into_inner().into_children().into_iter().map(element).collect::<Result<_, _>>()?;
    Ok(n)
}

impl Prop for P35 {
    fn id(&self) -> &'static str {
        "P35"
    }
    fn rule(&self) -> &'static str {
        "every sequence of alphabet tokens up to the stated depth is one document, whose elements are walked by into_children() from the page down; non-trivial when it has elements"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        token_spaces_minus(tier, 1)
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        let p = parse(&s)?;
        let t = tree::page(&p);
        let want = expected(&t);
        let got = imp("into_children", || -> Result<Node, String> {
            let mut n = Node::new("page");
            n.kids = p.clone().into_children().into_iter().map(|b| element(b.map(Element::from))).collect::<Result<_, _>>()?;
            Ok(n)
        })??;
        if got != want {
            return Err(format!("into_children() yields {}\ninstead of {}", got.show(), want.show()));
        }
        // slices see the same children
        for b in &p.elements {
            if let BlockElement::List(l) = b.as_inner() {
                slices(l)?;
            }
        }
        Ok(if t.kids.is_empty() { trivial(&0) } else { seen(&want.strip()) })
    }
}
fn slices(l: &List) -> Result<(), String> {
    let mut m = l.clone();
    let a: Vec<Node> = l.as_children_slice().iter().map(tree::list_item).collect();
    let b: Vec<Node> = m.as_children_mut_slice().iter().map(tree::list_item).collect();
    if a != tree::list(l).kids || a != b {
        return Err("the slice of a list's children is not its items".into());
    }
    for it in &l.items {
        let mut c = it.contents.clone();
        let a: Vec<Node> = it.contents.as_children_slice().iter().map(tree::block).collect();
        let b: Vec<Node> = c.as_children_mut_slice().iter().map(tree::block).collect();
        if a != tree::list_item(it).kids || a != b {
            return Err("the slice of an item's children is not its contents".into());
        }
        for x in it.contents.iter() {
            if let BlockElement::List(l) = x.as_inner() {
                slices(l)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P37
pub struct P37;
const NOTATIONS: [(&str, OrderedListItemType); 6] = [
    ("1", OrderedListItemType::Number),
    ("#", OrderedListItemType::Pound),
    ("a", OrderedListItemType::LowercaseAlphabet),
    ("A", OrderedListItemType::UppercaseAlphabet),
    ("i", OrderedListItemType::LowercaseRoman),
    ("I", OrderedListItemType::UppercaseRoman),
];
fn numeral(notation: &str, n: usize) -> String {
    match notation {
        "1" => {
            let (mut n, mut s) = (n, vec![]);
            while n > 0 {
                s.insert(0, b'0' + (n % 10) as u8);
                n /= 10;
            }
            String::from_utf8(s).unwrap()
        }
        "#" => "#".into(),
        "a" | "A" => {
            // bijective base 26
            let (mut n, mut s) = (n, vec![]);
            while n > 0 {
                let d = (n - 1) % 26;
                s.insert(0, notation.as_bytes()[0] + d as u8);
                n = (n - 1 - d) / 26;
            }
            String::from_utf8(s).unwrap()
        }
        _ => {
            let mut s = String::new();
            let mut n = n;
            for (v, r) in [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")] {
                while n >= v {
                    s.push_str(r);
                    n -= v;
                }
            }
            if notation == "i" { s.to_ascii_lowercase() } else { s }
        }
    }
}
impl Prop for P37 {
    fn id(&self) -> &'static str {
        "P37"
    }
    fn rule(&self) -> &'static str {
        "every notation, suffix and position in the stated range is one item; its written number is compared with an independent numeral and read back as a list; all are non-trivial"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut pos: Vec<usize> = (0..tier.pick(6_000, 70_000)).collect();
        for p in [26usize.pow(2) + 26, 26usize.pow(3) + 26usize.pow(2) + 26, 32_767, 32_768, 65_535, 65_536, 10_000, 100_000, 475_254, 999_999] {
            pos.extend(p - 3..p + 3);
        }
        let mut c = vec![];
        for (n, _) in NOTATIONS {
            for s in if n == "#" { vec![""] } else { vec![".", ")"] } {
                for p in &pos {
                    c.push(format!("{} {} {}", n, if s.is_empty() { "-" } else { s }, p));
                }
            }
        }
        vec![cases("items", c)]
    }
    fn check(&self, case: &str) -> Check {
        let f: Vec<&str> = case.split(' ').collect();
        let pos: usize = f[2].parse().map_err(|_| "bad case")?;
        let ty = NOTATIONS.iter().find(|x| x.0 == f[0]).ok_or("bad case")?.1;
        let (suffix, sc) = match f[1] {
            "." => (ListItemSuffix::Period, "."),
            ")" => (ListItemSuffix::Paren, ")"),
            _ => (ListItemSuffix::None, ""),
        };
        let want = format!("{}{}", numeral(f[0], pos + 1), sc);
        let text = InlineElementContainer::new(vec![Located::from(InlineElement::Text(Text::from("x")))]);
        let contents = ListItemContents::new(vec![Located::from(BlockElement::from(Paragraph::new(vec![text])))]);
        let item = ListItem::new(ListItemType::Ordered(ty), suffix, pos, contents, Default::default());
        let got = imp("to_prefix", || item.to_prefix())?;
        if got != want {
            return Err(format!("item {} is numbered {:?} instead of {:?}", pos + 1, got, want));
        }
        let s = imp("vimwiki output", || item.to_vimwiki_string(VimwikiConfig::default()))?.map_err(|e| e.to_string())?;
        if s != format!("{} x\n", want) {
            return Err(format!("item {} is written as {:?}", pos + 1, s));
        }
        // read back, an alphabetic numeral of roman letters counts as roman
        let p = parse(&s)?;
        let t = tree::page(&p);
        let roman = |l: &str| numeral(f[0], pos + 1).chars().all(|c| l.contains(c));
        let read = match ty {
            OrderedListItemType::LowercaseAlphabet if roman("ivxlcdm") => OrderedListItemType::LowercaseRoman,
            OrderedListItemType::UppercaseAlphabet if roman("IVXLCDM") => OrderedListItemType::UppercaseRoman,
            t => t,
        };
        let it = t.kids.first().and_then(|l| l.kids.first());
        if it.map(|n| n.get("type") == Some(&format!("{:?}", read)) && n.get("suffix") == Some(&format!("{:?}", suffix))) != Some(true) {
            return Err(format!("{:?} is read as {}", s, t.show()));
        }
        Ok(seen(&(f[0], want)))
    }
}
