//! Elements parsed by themselves, and what errors say.
use super::spaces::*;
use super::*;
use crate::tree::Node;

fn shift(n: &mut Node, by: usize) {
    if let Some(r) = n.region.as_mut() {
        r.0 -= by;
    }
    n.kids.iter_mut().for_each(|k| shift(k, by));
}

/// The message of an error: pairs of lines, the first of which names a place
/// whose text (up to 100 characters of the line) the second one holds.
fn message(text: &str, e: &ParseError) -> Result<(), String> {
    let m = imp("message of an error", || e.to_string())?;
    let lines: Vec<&str> = m.split('\n').collect();
    let mut i = 0;
    let mut n = 0;
    let bad = |l: &str, why: &str| Err(format!("error message of {:?}: {:?} {}\nin {:?}", text, l, why, m));
    // lines of the text may hold characters that split() does not tell apart
    while i + 1 < lines.len() {
        let head = lines[i];
        let (l, c) = match head.rsplit_once(": Line ").and_then(|(_, p)| p.split_once(", Column ")) {
            Some((l, c)) => (l.parse::<usize>(), c.parse::<usize>()),
            None => return bad(head, "is not the place of an error"),
        };
        let (l, c) = match (l, c) {
            (Ok(l), Ok(c)) if l > 0 && c > 0 => (l, c),
            _ => return bad(head, "has no line and column"),
        };
        // the place
        let rows: Vec<&str> = text.split('\n').collect();
        let row = match rows.get(l - 1) {
            Some(r) => *r,
            None => return bad(head, "is a place after the text"),
        };
        if c - 1 > row.chars().count() {
            return bad(head, "is a column after the line");
        }
        let rest: String = row.chars().skip(c - 1).collect();
        // an error may be about a part of the text that ends within the line
        let want: String = rest.trim_end_matches('\r').chars().take(100).collect();
        let got = lines[i + 1].trim_end_matches('\r');
        if !want.starts_with(got) {
            return bad(lines[i + 1], &format!("is not the text there, which is {:?}", want));
        }
        n += 1;
        i += 2;
    }
    if n == 0 {
        return bad(&m, "says nothing");
    }
    Ok(())
}

macro_rules! each_type {
    ($f:ident) => {
        $f!(Located<BlockElement>, "block element");
        $f!(Located<Blockquote>, "blockquote");
        $f!(Located<CodeBlock>, "code block");
        $f!(Located<DefinitionList>, "definition list");
        $f!(Located<Divider>, "divider");
        $f!(Located<Header>, "header");
        $f!(Located<List>, "list");
        $f!(Located<ListItem>, "list item");
        $f!(Located<MathBlock>, "math block");
        $f!(Located<Paragraph>, "paragraph");
        $f!(Located<Placeholder>, "placeholder");
        $f!(Located<Table>, "table");
        $f!(Located<InlineElementContainer>, "inline elements");
        $f!(Located<InlineElement>, "inline element");
        $f!(Located<CodeInline>, "inline code");
        $f!(Located<MathInline>, "inline math");
        $f!(Located<Comment>, "comment");
        $f!(Located<LineComment>, "line comment");
        $f!(Located<MultiLineComment>, "comment of many lines");
        $f!(Located<Link>, "link");
        $f!(Located<Tags>, "tags");
        $f!(Located<Text>, "text");
        $f!(Located<DecoratedText>, "decorated text");
        $f!(Located<Keyword>, "keyword");
    };
}

/// the element of a page at the start of `text`, by its own parser
fn block_alone(text: &str, b: &BlockElement) -> Result<Node, String> {
    macro_rules! by {
        ($t:ty) => {
            imp("element parser", || Language::from_vimwiki_str(text).parse::<Located<$t>>().map(|x| tree::block(&x.map(BlockElement::from))).map_err(|e| e.to_string()))?
        };
    }
    match b {
        BlockElement::Blockquote(_) => by!(Blockquote),
        BlockElement::CodeBlock(_) => by!(CodeBlock),
        BlockElement::DefinitionList(_) => by!(DefinitionList),
        BlockElement::Divider(_) => by!(Divider),
        BlockElement::Header(_) => by!(Header),
        BlockElement::List(_) => by!(List),
        BlockElement::MathBlock(_) => by!(MathBlock),
        BlockElement::Paragraph(_) => by!(Paragraph),
        BlockElement::Placeholder(_) => by!(Placeholder),
        BlockElement::Table(_) => by!(Table),
    }
    .map_err(|e| format!("{:?} is not read by the parser of its own element: {}", text, one_line(&e)))
}
fn inline_alone(text: &str, b: &InlineElement) -> Result<Node, String> {
    macro_rules! by {
        ($t:ty) => {
            imp("element parser", || Language::from_vimwiki_str(text).parse::<Located<$t>>().map(|x| tree::inline(&x.map(InlineElement::from))).map_err(|e| e.to_string()))?
        };
    }
    match b {
        InlineElement::Text(_) => by!(Text),
        InlineElement::DecoratedText(_) => by!(DecoratedText),
        InlineElement::Keyword(_) => by!(Keyword),
        InlineElement::Link(_) => by!(Link),
        InlineElement::Tags(_) => by!(Tags),
        InlineElement::Code(_) => by!(CodeInline),
        InlineElement::Math(_) => by!(MathInline),
        InlineElement::Comment(_) => by!(Comment),
    }
    .map_err(|e| format!("{:?} is not read by the parser of its own element: {}", text, one_line(&e)))
}

pub struct Single;
impl Prop for Single {
    fn id(&self) -> &'static str {
        "P39"
    }
    fn rule(&self) -> &'static str {
        "every sequence of alphabet tokens up to the stated depth is one text, given to the parser of every element type; every top-level block and every first inline element is parsed again by itself; non-trivial when the page has elements"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        token_spaces_minus(tier, 1)
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        let s = s.as_str();
        // each parser takes every text
        macro_rules! one {
            ($t:ty, $n:expr) => {
                match imp($n, || Language::from_vimwiki_str(s).parse::<$t>())? {
                    Ok(x) => {
                        let r = x.region();
                        if r.offset() + r.len() > s.len() || !s.is_char_boundary(r.offset()) || !s.is_char_boundary(r.offset() + r.len()) {
                            return Err(format!("the {} read from {:?} has the region {:?}", $n, s, r));
                        }
                    }
                    Err(e) => message(s, &e)?,
                }
                for l in [Language::from_markdown_str(s), Language::from_mediawiki_str(s)] {
                    if imp($n, || l.parse::<$t>())?.is_ok() {
                        return Err(format!("{:?} read as a {}", l, $n));
                    }
                }
            };
        }
        each_type!(one);
        // what belongs to a page
        let p = parse(s)?;
        for b in &p.elements {
            let o = b.region().offset();
            if o > 0 && !s[..o].ends_with('\n') {
                continue;
            }
            let rest = &s[o..];
            let mut want = tree::block(b);
            shift(&mut want, o);
            let got = imp("block parser", || Language::from_vimwiki_str(rest).parse::<Located<BlockElement>>().map(|x| tree::block(&x)).map_err(|e| e.to_string()))?
                .map_err(|e| format!("{:?} is read as no block: {}", rest, one_line(&e)))?;
            if got != want {
                return Err(format!("{:?} by itself is read as {}\ninstead of {}", rest, got.show(), want.show()));
            }
            let got = block_alone(rest, b.as_inner())?;
            if got != want {
                return Err(format!("{:?} by its own parser is read as {}\ninstead of {}", rest, got.show(), want.show()));
            }
            if let BlockElement::Paragraph(x) = b.as_inner() {
                if let Some(f) = x.lines.first().and_then(|l| l.iter().next()) {
                    if f.region().offset() == o {
                        let mut want = tree::inline(f);
                        shift(&mut want, o);
                        let mut want2 = want.clone();
                        undepth(&mut want2);
                        let got = imp("inline parser", || Language::from_vimwiki_str(rest).parse::<Located<InlineElement>>().map(|x| tree::inline(&x)).map_err(|e| e.to_string()))?
                            .map_err(|e| format!("{:?} is read as no inline element: {}", rest, one_line(&e)))?;
                        let alone = inline_alone(rest, f.as_inner())?;
                        for (n, mut got) in [("an inline element", got), ("its own element", alone)] {
                            undepth(&mut got);
                            if got != want2 {
                                return Err(format!("{:?} as {} is read as {}\ninstead of {}", rest, n, got.show(), want2.show()));
                            }
                        }
                    }
                }
            }
        }
        Ok(if p.elements.is_empty() { trivial(&0) } else { seen(&tree::page(&p).strip()) })
    }
}
/// how deep an element lies depends on what it is parsed as
fn undepth(n: &mut Node) {
    if let Some(r) = n.region.as_mut() {
        r.2 = 0;
    }
    n.kids.iter_mut().for_each(undepth);
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Single)]
}
