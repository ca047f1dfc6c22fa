//! Elements by themselves: what they display, what they convert to and what
//! their accessors answer.
use super::spaces::*;
use super::*;
use crate::tree::Node;

/// The text an inline element displays.
fn shown(n: &Node) -> String {
    match n.kind {
        "text" | "code" | "math" => n.text.concat(),
        "keyword" => n.get("k").unwrap_or("").to_uppercase(),
        "tags" => {
            let mut s = String::new();
            n.text.iter().for_each(|t| {
                s.push(':');
                s.push_str(t)
            });
            s + ":"
        }
        "line_comment" | "multi_comment" => String::new(),
        "link" | "desc_link" => match (n.get("desc"), n.kids.first()) {
            (Some(d), _) => d.to_string(),
            (None, Some(k)) => shown(k),
            (None, None) => n.get(if n.get("kind") == Some("diary") { "date" } else { "uri" }).unwrap_or("").to_string(),
        },
        _ => shown_all(&n.kids),
    }
}
fn shown_all(n: &[Node]) -> String {
    n.iter().map(shown).collect()
}

/// HTML without the ids of the page, which depend on what is before.
fn no_ids(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    loop {
        let i = match [" id=\"", " href=\"#"].iter().filter_map(|k| rest.find(k).map(|i| (i, k.len()))).min() {
            Some(i) => i,
            None => {
                o.push_str(rest);
                // anchors that tags and bold text, or headers, have below headers
                return o.replace("<span id=\"\"></span>", "").replace("<div id=\"\">", "").replace("</div>", "");
            }
        };
        o.push_str(&rest[..i.0 + i.1]);
        rest = &rest[i.0 + i.1..];
        match rest.find('"') {
            Some(j) => rest = &rest[j..],
            None => return o,
        }
    }
}

fn text_config() -> VimwikiConfig {
    let mut c = VimwikiConfig::default();
    c.page.separate_block_elements = false;
    c
}
type Out = Result<String, String>;
fn text_of<T: ToVimwikiString>(x: &T) -> Out {
    imp("vimwiki output", || x.to_vimwiki_string(text_config()))?.map_err(|e| e.to_string())
}
fn html_of<T: ToHtmlString>(x: &T) -> Out {
    imp("html output", || x.to_html_string(HtmlConfig::default()))?.map_err(|e| e.to_string())
}
fn same(what: &str, of: &dyn std::fmt::Debug, got: &str, want: &str) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?} instead of {:?}\nfor {:?}", what, got, want, of))
    }
}

/// One element behind each of its wrappers, owned, borrowed and located.
struct Wrapped {
    text: String,
    html: String,
}
impl Wrapped {
    fn of<T: ToVimwikiString + ToHtmlString>(x: &T) -> Result<Self, String> {
        Ok(Wrapped { text: text_of(x)?, html: html_of(x)? })
    }
    fn agrees<T: ToVimwikiString + ToHtmlString>(&self, what: &str, x: &T, of: &dyn std::fmt::Debug) -> Result<(), String> {
        same(&format!("vimwiki text of the {}", what), of, &text_of(x)?, &self.text)?;
        same(&format!("HTML of the {}", what), of, &html_of(x)?, &self.html)
    }
}

fn walk(e: Located<Element>, f: &mut dyn FnMut(&Located<Element>) -> Result<(), String>) -> Result<(), String> {
    f(&e)?;
    for k in e.into_inner().into_children() {
        walk(k, f)?;
    }
    Ok(())
}
fn elements(p: &Page, f: &mut dyn FnMut(&Located<Element>) -> Result<(), String>) -> Result<(), String> {
    for b in p.elements.clone() {
        walk(b.map(Element::from), f)?;
    }
    Ok(())
}

fn container(c: &InlineElementContainer, what: &str) -> Result<(), String> {
    let nodes: Vec<Node> = c.iter().map(tree::inline).collect();
    let d = imp("display", || c.to_string())?;
    same(what, c, &d, &shown_all(&nodes))?;
    let mut t = String::new();
    let mut h = String::new();
    for e in c {
        t += &text_of(e.as_inner())?;
        h += &html_of(e.as_inner())?;
    }
    same("vimwiki text of inline elements", c, &text_of(c)?, &t)?;
    same("HTML of inline elements", c, &no_ids(&html_of(c)?), &no_ids(&h))
}

pub struct Parts;
impl Prop for Parts {
    fn id(&self) -> &'static str {
        "P40"
    }
    fn rule(&self) -> &'static str {
        "every sequence of alphabet tokens up to the stated depth is one page, all of whose elements are displayed and converted by themselves; non-trivial when the page has elements"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        token_spaces_minus(tier, 1)
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        let p = parse(&s)?;
        // the whole from its parts; parts whose links lead nowhere have no HTML
        let mut text = String::new();
        let mut html: Out = Ok(String::new());
        for b in &p.elements {
            text += &text_of(b.as_inner())?;
            let h = html_of(b.as_inner());
            html = html.and_then(|x: String| Ok(x + &h? + "\n"));
        }
        same("vimwiki text of the page", &s, &text_of(&p)?, &text)?;
        match (html_of(&p), html) {
            (Ok(g), Ok(w)) => same("HTML of the page", &s, &no_ids(&g), &no_ids(&w))?,
            (Err(_), Err(_)) => return Ok(trivial(&0)),
            (g, w) => return Err(format!("HTML of the page is {:?}, of its parts {:?}", g, w)),
        }
        elements(&p, &mut |e| {
            let x = e.as_inner();
            let w = Wrapped::of(x)?;
            w.agrees("borrowed element", &x.to_borrowed(), x)?;
            w.agrees("owned element", &x.clone().into_owned(), x)?;
            macro_rules! each {
                ($e:expr, $t:ident: $($v:ident)*) => {
                    match $e {
                        $($t::$v(y) => {
                            w.agrees(stringify!($t), $e, x)?;
                            w.agrees(stringify!($v), y, x)?;
                        })*
                    }
                };
            }
            match x {
                Element::Block(b) => {
                    each!(b, BlockElement: Blockquote CodeBlock DefinitionList Divider Header List MathBlock Paragraph Placeholder Table);
                    match b {
                        BlockElement::Blockquote(y) => {
                            let d = imp("display", || y.to_string())?;
                            same("display of a blockquote", x, &d, &y.lines.iter().map(|l| format!("{}\n", l)).collect::<String>())?
                        }
                        BlockElement::CodeBlock(y) => {
                            let d = imp("display", || y.to_string())?;
                            same("display of a code block", x, &d, &y.lines.iter().map(|l| l.to_string()).collect::<Vec<_>>().join("\n"))?
                        }
                        BlockElement::MathBlock(y) => {
                            let d = imp("display", || y.to_string())?;
                            same("display of a math block", x, &d, &y.lines.iter().map(|l| l.to_string()).collect::<Vec<_>>().join("\n"))?
                        }
                        BlockElement::Header(y) => {
                            let d = imp("display", || y.to_string())?;
                            same("display of a header", x, &d, &shown_all(&tree::block_inner(b).kids))?;
                            container(&y.content, "display of a header's content")?;
                        }
                        BlockElement::Paragraph(y) => {
                            let d = imp("display", || y.to_string())?;
                            let lines: Vec<String> = tree::block_inner(b).kids.iter().map(|l| shown_all(&l.kids)).collect();
                            same("display of a paragraph", x, &d, &lines.join("\n"))?;
                            for l in y {
                                container(l, "display of a line")?;
                            }
                            // a line is blank if it holds nothing but comments
                            let n = imp("nonblank_lines", || y.nonblank_lines().map(|l| l as *const _).collect::<Vec<_>>())?;
                            let m: Vec<_> = y.lines.iter().filter(|l| l.iter().any(|e| !tree::inline(e).kind.ends_with("comment"))).map(|l| l as *const _).collect();
                            if n != m {
                                return Err(format!("{} of {} lines are said not to be blank, not {}, in {:?}", n.len(), y.lines.len(), m.len(), x));
                            }
                        }
                        BlockElement::DefinitionList(y) => {
                            for it in &y.items {
                                let n: Vec<Node> = it.term.as_inner().as_inner().iter().map(tree::inline).collect();
                                same("display of a term", x, &it.term.to_string(), &shown_all(&n))?;
                                container(it.term.as_inner().as_inner(), "display of a term's content")?;
                                let mut all = String::new();
                                for d in it.definitions.iter() {
                                    let n: Vec<Node> = d.as_inner().as_inner().iter().map(tree::inline).collect();
                                    same("display of a definition", x, &d.to_string(), &shown_all(&n))?;
                                    all += &shown_all(&n);
                                }
                                same("display of the definitions", x, &it.definitions.to_string(), &all)?;
                            }
                        }
                        BlockElement::Table(y) => {
                            for (_, c) in y.as_data() {
                                if let Cell::Content(k) = c.as_inner() {
                                    container(k, "display of a cell")?;
                                }
                            }
                        }
                        BlockElement::List(_) | BlockElement::Divider(_) | BlockElement::Placeholder(_) => {}
                    }
                }
                Element::Inline(i) => {
                    each!(i, InlineElement: Text DecoratedText Keyword Link Tags Code Math Comment);
                    let n = tree::inline_inner(i);
                    let d = imp("display", || i.to_string())?;
                    same("display of an inline element", x, &d, &shown(&n))?;
                    let d = match i {
                        InlineElement::Text(y) => y.to_string(),
                        InlineElement::DecoratedText(y) => {
                            for (c, k) in y.iter().zip(&n.kids) {
                                same("display of decorated content", x, &c.to_string(), &shown(k))?;
                            }
                            y.to_string()
                        }
                        InlineElement::Keyword(y) => y.to_string(),
                        InlineElement::Link(y) => y.to_string(),
                        InlineElement::Tags(y) => y.to_string(),
                        InlineElement::Code(y) => y.to_string(),
                        InlineElement::Math(y) => y.to_string(),
                        InlineElement::Comment(y) => {
                            // a comment by itself does show its text
                            let (a, want) = match y {
                                Comment::Line(z) => (z.to_string(), z.as_str().trim().to_string()),
                                Comment::MultiLine(z) => (z.to_string(), n.text.join("\n")),
                            };
                            same("display of a comment", x, &a, &want)?;
                            same("display of a comment", x, &y.to_string(), &want)?;
                            String::new()
                        }
                    };
                    same("display of an element", x, &d, &shown(&n))?;
                }
                Element::InlineBlock(i) => {
                    each!(i, InlineBlockElement: ListItem Term Definition);
                }
            }
            Ok(())
        })?;
        Ok(if p.elements.is_empty() { trivial(&0) } else { seen(&(&text, tree::page(&p).strip())) })
    }
}

/// The kind an element is, asked of every accessor.
fn kinds(e: &Located<Element>) -> Result<(), String> {
    let x = e.as_inner();
    macro_rules! only {
        ($what:expr, $is:expr, $as:expr) => {
            if $is != $as {
                return Err(format!("{} answers {} for {:?}", $what, $as, x));
            }
        };
    }
    let (b, i, ib) = match x {
        Element::Block(_) => (true, false, false),
        Element::Inline(_) => (false, true, false),
        Element::InlineBlock(_) => (false, false, true),
    };
    only!("as_block_element", b, x.as_block_element().is_some());
    only!("as_inline_element", i, x.as_inline_element().is_some());
    only!("as_inline_block_element", ib, x.as_inline_block_element().is_some());
    only!("into_block_element", b, x.clone().into_block_element().is_some());
    only!("into_inline_element", i, x.clone().into_inline_element().is_some());
    only!("into_inline_block_element", ib, x.clone().into_inline_block_element().is_some());
    if let Element::Block(b) = x {
        let mut n = 0;
        macro_rules! each {
            ($($v:ident $is:ident $as:ident $mut:ident $into:ident;)*) => {
                $(
                    let is = matches!(b, BlockElement::$v(_));
                    n += is as u32;
                    only!(stringify!($is), is, b.$is());
                    only!(stringify!($as), is, b.$as().is_some());
                    only!(stringify!($mut), is, b.clone().$mut().is_some());
                    only!(stringify!($into), is, b.clone().$into().is_some());
                    if let BlockElement::$v(y) = b {
                        // what the accessors give is that very element
                        let all = [
                            b.$as().map(|z| BlockElement::from(z.clone())),
                            b.clone().$mut().map(|z| BlockElement::from(z.clone())),
                            b.clone().$into().map(BlockElement::from),
                            Some(BlockElement::from(y.clone())),
                            Element::from(y.clone()).into_block_element(),
                            Some(Located::<BlockElement>::from(Located::from(y.clone())).into_inner()),
                        ];
                        for z in all.iter() {
                            if !z.as_ref().map_or(false, |z| z.strict_eq(b)) {
                                return Err(format!("{} or a conversion gives {:?}\ninstead of {:?}", stringify!($as), z, b));
                            }
                        }
                    }
                )*
            };
        }
        each!(
            Blockquote is_blockquote as_blockquote as_mut_blockquote into_blockquote;
            CodeBlock is_code_block as_code_block as_mut_code_block into_code_block;
            DefinitionList is_definition_list as_definition_list as_mut_definition_list into_definition_list;
            Divider is_divider as_divider as_mut_divider into_divider;
            Header is_header as_header as_mut_header into_header;
            List is_list as_list as_mut_list into_list;
            MathBlock is_math_block as_math_block as_mut_math_block into_math_block;
            Paragraph is_paragraph as_paragraph as_mut_paragraph into_paragraph;
            Placeholder is_placeholder as_placeholder as_mut_placeholder into_placeholder;
            Table is_table as_table as_mut_table into_table;
        );
        if n != 1 {
            return Err(format!("{:?} is of {} kinds", b, n));
        }
    }
    if let Element::Inline(i) = x {
        if let InlineElement::DecoratedText(d) = i {
            only!("is_bold", matches!(d, DecoratedText::Bold(_)), d.is_bold());
            only!("is_italic", matches!(d, DecoratedText::Italic(_)), d.is_italic());
            only!("is_strikeout", matches!(d, DecoratedText::Strikeout(_)), d.is_strikeout());
            only!("is_superscript", matches!(d, DecoratedText::Superscript(_)), d.is_superscript());
            only!("is_subscript", matches!(d, DecoratedText::Subscript(_)), d.is_subscript());
            for c in d {
                let y = c.as_inner();
                only!("is_text", matches!(y, DecoratedTextContent::Text(_)), y.is_text());
                only!("is_decorated_text", matches!(y, DecoratedTextContent::DecoratedText(_)), y.is_decorated_text());
                only!("is_keyword", matches!(y, DecoratedTextContent::Keyword(_)), y.is_keyword());
                only!("is_link", matches!(y, DecoratedTextContent::Link(_)), y.is_link());
                let want = tree::inline_inner(i).kids.into_iter().zip(d.as_contents_slice()).find(|(_, z)| std::ptr::eq(*z, c)).map(|(n, _)| n.strip());
                for z in [y.to_inline_element(), y.clone().into_inline_element()].iter() {
                    if want.as_ref() != Some(&tree::inline_inner(z).strip()) {
                        return Err(format!("{:?} as inline element is {:?}", y, z));
                    }
                }
            }
        }
        if let InlineElement::Comment(c) = i {
            only!("is_line", matches!(c, Comment::Line(_)), c.is_line());
            only!("is_multi_line", matches!(c, Comment::MultiLine(_)), c.is_multi_line());
        }
        macro_rules! from {
            ($($v:ident)*) => {
                match i {
                    $(InlineElement::$v(y) => {
                        if !InlineElement::from(y.clone()).strict_eq(i) {
                            return Err(format!("made of its content {:?} is different", i));
                        }
                    })*
                }
            };
        }
        from!(Text DecoratedText Keyword Link Tags Code Math Comment);
    }
    Ok(())
}

/// What a region's wrapper does to the region and the element.
fn located(e: &Located<Element>) -> Result<(), String> {
    let r = e.region();
    let bad = |w: &str| Err(format!("{} changes the region or the element of {:?}", w, e));
    if e.depth() != r.depth() {
        return bad("depth");
    }
    if !e.clone().map(|x| x).strict_eq(e) || !e.strict_eq(e.as_inner()) || e.clone() != *e.as_inner() {
        return bad("map");
    }
    if e.as_ref().region() != r || !std::ptr::eq(*e.as_ref().as_inner(), e.as_inner()) {
        return bad("as_ref");
    }
    let mut m = e.clone();
    if m.as_mut().region() != r || !m.as_mut().into_inner().strict_eq(e.as_inner()) || !m.as_mut_inner().strict_eq(e.as_inner()) {
        return bad("as_mut");
    }
    if !m.clone().into_inner().strict_eq(e.as_inner()) {
        return bad("into_inner");
    }
    for o in [0, r.offset(), r.offset() + 7].iter() {
        for l in [0, r.len(), r.len() + 5].iter() {
            for d in [0, r.depth(), r.depth() + 3].iter() {
                let other = Region::new_at_depth(*o, *l, *d);
                let t = e.clone().take_with_region(other);
                if t.region() != other || !t.as_inner().strict_eq(e.as_inner()) || t.strict_eq(e) != (other == r) || t != *e {
                    return bad("take_with_region");
                }
            }
        }
    }
    match e.clone().map(Some).transpose() {
        Some(x) if x.strict_eq(e) => {}
        _ => return bad("transpose"),
    }
    if e.clone().map(|_| None::<Element>).transpose().is_some() {
        return bad("transpose of none");
    }
    let d = Located::from(e.as_inner().clone());
    if d.region() != Region::default() || !d.as_inner().strict_eq(e.as_inner()) {
        return bad("from");
    }
    Ok(())
}

pub struct Accessors;
impl Prop for Accessors {
    fn id(&self) -> &'static str {
        "P41"
    }
    fn rule(&self) -> &'static str {
        "every sequence of alphabet tokens up to the stated depth is one page, each of whose elements is asked for its kind by every accessor; every region up to the stated size in every form that it can be made from, asked for every position; non-trivial when there is an element or the region is not empty"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut v = token_spaces_minus(tier, 1);
        let n = tier.pick(12, 40);
        v.push(cases("region", (0..n).flat_map(move |o| (0..n).map(move |l| format!("\u{1}region {} {}", o, l))).collect()));
        v
    }
    fn check(&self, case: &str) -> Check {
        if let Some(c) = case.strip_prefix("\u{1}region ") {
            let (a, b) = c.split_once(' ').ok_or("case")?;
            let (a, b): (usize, usize) = (a.parse().map_err(|_| "case")?, b.parse().map_err(|_| "case")?);
            return region(a, b);
        }
        let (s, _) = uniq(case);
        let p = parse(&s)?;
        elements(&p, &mut |e| imp("accessors", || kinds(e).and_then(|_| located(e)))?)?;
        // parts of a page
        if p.elements().len() != p.elements.len() || p.clone().into_elements() != p.elements || p.clone().into_iter().collect::<Page>() != p {
            return Err(format!("elements of the page differ by way of access: {:?}", p));
        }
        for (i, b) in p.elements.iter().enumerate() {
            if !p[i].strict_eq(b) {
                return Err(format!("page[{}] is not its element", i));
            }
        }
        Ok(if p.elements.is_empty() { trivial(&0) } else { seen(&tree::page(&p).strip()) })
    }
}

fn region(a: usize, b: usize) -> Check {
    let is = |w: &str, r: Region, o: usize, l: usize, d: u16| {
        if (r.offset(), r.len(), r.depth(), r.is_empty()) != (o, l, d, l == 0) {
            return Err(format!("region made {} of {} and {} is {:?}, not {} bytes from {}", w, a, b, r, l, o));
        }
        for i in 0..o + l + 3 {
            if r.contains(i) != (i >= o && i < o + l) {
                return Err(format!("{:?} says {} that it contains {}", r, r.contains(i), i));
            }
        }
        Ok(())
    };
    imp("region", || {
        is("new", Region::new(a, b), a, b, 0)?;
        is("by a pair", Region::from((a, b)), a, b, 0)?;
        for d in [0u16, 1, 2, u16::MAX].iter().copied() {
            is("at depth", Region::new_at_depth(a, b, d), a, b, d)?;
            is("with depth", Region::new_at_depth(a, b, 9).with_depth(d), a, b, d)?;
        }
        is("by a range", Region::from(a..b), a, b.saturating_sub(a), 0)?;
        is("by an inclusive range", Region::from(a..=b), a, (b + 1).saturating_sub(a), 0)?;
        is("by a range to", Region::from(..b), 0, b, 0)?;
        is("by an inclusive range to", Region::from(..=b), 0, b + 1, 0)?;
        is("by default", Region::default(), 0, 0, 0)?;
        // regions are the same only if all of it is
        for (x, y) in [((a, b, 0), (b, a, 0)), ((a, b, 0), (a, b, 1)), ((a, b, 0), (a, b + 1, 0)), ((a, b, 2), (a + 1, b, 2))].iter() {
            let (r, q) = (Region::new_at_depth(x.0, x.1, x.2), Region::new_at_depth(y.0, y.1, y.2));
            if (r == q) != (x == y) {
                return Err(format!("{:?} == {:?} is {}", r, q, r == q));
            }
        }
        Ok(())
    })??;
    Ok(if b == 0 { trivial(&(a, b)) } else { seen(&(a, b)) })
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Parts), Box::new(Accessors)]
}
