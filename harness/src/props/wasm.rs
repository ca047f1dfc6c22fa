//! The binding for JavaScript: what its objects answer is what the library
//! holds. Its sources are compiled for this machine against stand-ins for the
//! crates that talk to a JavaScript engine (see /wasm).
use super::spaces::*;
use super::*;
use js_sys::{Array, Date, Object};
use std::fmt::Debug;
use vimwiki_wasm as w;
use wasm_bindgen::{JsCast, JsValue};

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(P42), Box::new(P43)]
}

type R = Result<(), String>;
fn eq<T: PartialEq + Debug>(what: &str, got: T, want: T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?} instead of {:?}", what, got, want))
    }
}
fn none<T>(what: &str, x: Option<T>) -> R {
    match x {
        None => Ok(()),
        Some(_) => Err(format!("{} yields something that is not there", what)),
    }
}
fn some<T>(what: &str, x: Option<T>) -> Result<T, String> {
    x.ok_or_else(|| format!("{} yields nothing", what))
}
fn region(r: w::Region, want: Region) -> R {
    eq("region", (r.offset(), r.len(), r.depth(), r.is_empty()), (want.offset(), want.len(), want.depth(), want.len() == 0))
}
/// maps show their entries in any order
fn bag(s: String) -> Vec<char> {
    let mut v: Vec<char> = s.chars().collect();
    v.sort();
    v
}
/// names and values of a JavaScript object, sorted
fn entries(o: Option<Object>) -> Option<Vec<(String, String)>> {
    o.map(|o| {
        let mut v: Vec<_> = Object::entries(&o)
            .iter()
            .map(|e| {
                let e: Array = e.unchecked_into();
                (e.get(0).as_string().unwrap_or_default(), e.get(1).as_string().unwrap_or_default())
            })
            .collect();
        v.sort();
        v
    })
}

/// to_html_str, to_js, to_debug_str
macro_rules! conv {
    ($what:expr, $w:expr, $core:expr) => {{
        let html = $w.to_html_str(&JsValue::UNDEFINED);
        let want = $core.to_html_string(HtmlConfig::default()).map_err(|e| e.to_string());
        eq(&format!("to_html_str of {}", $what), html.map_err(|e| e.as_string().unwrap_or_default()), want)?;
        let js = imp(&format!("to_js of {}", $what), || $w.to_js().__json())?;
        if let Ok(v) = serde_json::to_value(&$core) {
            eq(&format!("to_js of {}", $what), super::cli::canon(js), super::cli::canon(v))?;
        }
    }};
    ($what:expr, $w:expr, $core:expr, $at:expr) => {{
        let html = $w.to_html_str(&JsValue::UNDEFINED);
        let want = $core.to_html_string(HtmlConfig::default()).map_err(|e| e.to_string());
        eq(&format!("to_html_str of {}", $what), html.map_err(|e| e.as_string().unwrap_or_default()), want)?;
        let js = imp(&format!("to_js of {}", $what), || $w.to_js().__json())?;
        // an element that is one string has no place for its region
        let v = serde_json::to_value(&Located::new($core.clone(), $at)).or_else(|_| serde_json::to_value(&$core)).map_err(|e| e.to_string())?;
        eq(&format!("to_js of {}", $what), super::cli::canon(js), super::cli::canon(v))?;
    }};
}
/// children and descendants, as what they say and where
macro_rules! family {
    ($what:expr, $w:expr, $core:expr) => {{
        let kids: Vec<Located<Element>> = $core.to_borrowed().into_children().into_iter().map(|x| x.map(Element::from)).collect();
        same_elements(&format!("children of {}", $what), $w.children(), &kids)?;
        // each level before the next
        let mut all = vec![];
        let mut queue: std::collections::VecDeque<Located<Element>> = kids.into_iter().collect();
        while let Some(e) = queue.pop_front() {
            queue.extend(e.as_inner().clone().into_children());
            all.push(e);
        }
        same_elements(&format!("descendants of {}", $what), $w.descendants(), &all)?;
    }};
}
fn same_elements(what: &str, got: Array, want: &[Located<Element>]) -> R {
    eq(&format!("number of {}", what), got.length() as usize, want.len())?;
    for (i, e) in want.iter().enumerate() {
        let x: w::Element = got.get(i as u32).__into();
        let at = |e: String| format!("{} no. {}: {}", what, i, e);
        region(x.region(), e.region()).map_err(at)?;
        let at = |e: String| format!("{} no. {}: {}", what, i, e);
        eq("element", (x.is_block(), x.is_inline(), x.is_inline_block()), match e.as_inner() {
            Element::Block(_) => (true, false, false),
            Element::Inline(_) => (false, true, false),
            Element::InlineBlock(_) => (false, false, true),
        })
        .map_err(at)?;
        let at = |e: String| format!("{} no. {}: {}", what, i, e);
        eq("element", bag(x.to_debug_str()), bag(format!("{:?}", e))).map_err(at)?;
    }
    Ok(())
}

macro_rules! kinds {
    ($got:expr, $core:expr, $($what:literal $is:ident $into:ident $pat:pat),* $(,)?) => {{
        $(
            let want = matches!($core, $pat);
            eq(concat!("is_", $what), $got().$is(), want)?;
            eq(concat!("into_", $what), $got().$into().is_some(), want)?;
        )*
    }};
}

fn check_page(text: &str, core: &Page) -> R {
    let p = match w::parse_vimwiki_str(text) {
        Ok(p) => p,
        Err(e) => return Err(format!("parse_vimwiki_str fails: {:?}", e)),
    };
    eq("element_cnt", p.element_cnt(), core.elements.len())?;
    for (i, e) in core.elements.iter().enumerate() {
        check_block(&|| p.element_at(i).expect("element"), e).map_err(|m| format!("block {}: {}", i, m))?;
    }
    none("element_at the end", p.element_at(core.elements.len()))?;
    conv!("page", p, *core);
    family!("page", p, core);
    eq("page", bag(p.to_debug_str()), bag(format!("{:?}", core)))?;
    // configurations are read from JavaScript objects
    for (c, json) in configs() {
        let html = p.to_html_str(&JsValue::from_serde(&json).unwrap()).map_err(|e| e.as_string().unwrap_or_default());
        eq(&format!("to_html_str with {}", json), html, core.to_html_string(c).map_err(|e| e.to_string()))?;
    }
    eq("to_html_str(null)", p.to_html_str(&JsValue::NULL).is_ok(), core.to_html_string(HtmlConfig::default()).is_ok())?;
    walk_elements(&p.descendants(), core)
}

/// Every element of the page, as an `Element`
fn walk_elements(got: &Array, core: &Page) -> R {
    let mut queue: std::collections::VecDeque<Located<Element>> = core.to_borrowed().into_children().into_iter().map(|x| x.map(Element::from)).collect();
    let mut i = 0;
    while let Some(e) = queue.pop_front() {
        queue.extend(e.as_inner().clone().into_children());
        let x: w::Element = got.get(i).__into();
        i += 1;
        let at = |m: String| format!("element {:?}: {}", e.as_inner(), m);
        (|| -> R {
            family!("element", x, e.as_inner());
            conv!("element", x, *e.as_inner(), e.region());
            match e.as_inner() {
                Element::Block(b) => {
                    let y = some("into_block", x.into_block())?;
                    region(y.region(), e.region())?;
                    eq("block", bag(y.to_debug_str()), bag(format!("{:?}", Located::new(b.clone(), e.region()))))
                }
                Element::Inline(b) => {
                    let y = some("into_inline", x.into_inline())?;
                    region(y.region(), e.region())?;
                    eq("inline", bag(y.to_debug_str()), bag(format!("{:?}", Located::new(b.clone(), e.region()))))
                }
                Element::InlineBlock(b) => {
                    let y = some("into_inline_block", x.into_inline_block())?;
                    region(y.region(), e.region())?;
                    conv!("inline block", y, *b, e.region());
                    family!("inline block", y, b);
                    eq("is_list_item", y.is_list_item(), matches!(b, InlineBlockElement::ListItem(_)))?;
                    eq("is_term", y.is_term(), matches!(b, InlineBlockElement::Term(_)))?;
                    eq("is_definition", y.is_definition(), matches!(b, InlineBlockElement::Definition(_)))?;
                    match b {
                        InlineBlockElement::ListItem(l) => check_item(some("into_list_item", y.into_list_item())?, &Located::new(l.clone(), e.region())),
                        InlineBlockElement::Term(t) => check_container(&some("into_term", y.into_term())?, t.as_inner()),
                        InlineBlockElement::Definition(t) => check_container(&some("into_definition", y.into_definition())?, t.as_inner()),
                    }
                }
            }
        })()
        .map_err(at)?;
    }
    Ok(())
}

fn configs() -> Vec<(HtmlConfig, serde_json::Value)> {
    ["{}", r#"{"paragraph":{"ignore_newline":false},"list":{"ignore_newline":false}}"#, r#"{"header":{"table_of_contents":"t"},"template":{"text":"[%root_path%|%content%]"}}"#]
        .iter()
        .map(|s| {
            let v: serde_json::Value = serde_json::from_str(s).unwrap();
            (serde_json::from_value(v.clone()).expect("config"), v)
        })
        .collect()
}

fn check_block(got: &dyn Fn() -> w::BlockElement, core: &Located<BlockElement>) -> R {
    let b = got();
    let at = core.region();
    region(b.region(), at)?;
    let c = core.as_inner();
    conv!("block", b, *c, at);
    family!("block", b, c);
    kinds!(got, c,
        "blockquote" is_blockquote into_blockquote BlockElement::Blockquote(_),
        "code_block" is_code_block into_code_block BlockElement::CodeBlock(_),
        "math_block" is_math into_math_block BlockElement::MathBlock(_),
        "definition_list" is_definition_list into_definition_list BlockElement::DefinitionList(_),
        "divider" is_divider into_divider BlockElement::Divider(_),
        "header" is_header into_header BlockElement::Header(_),
        "list" is_list into_list BlockElement::List(_),
        "paragraph" is_paragraph into_paragraph BlockElement::Paragraph(_),
        "placeholder" is_placeholder into_placeholder BlockElement::Placeholder(_),
        "table" is_table into_table BlockElement::Table(_),
    );
    let lines = |n: usize, at: &dyn Fn(usize) -> Option<String>, cnt: usize, want: Vec<String>| -> R {
        eq("line_cnt", cnt, n)?;
        eq("lines", (0..n + 1).map(at).collect::<Vec<_>>(), want.into_iter().map(Some).chain([None]).collect())
    };
    match c {
        BlockElement::Blockquote(c) => {
            let x = b.into_blockquote().unwrap();
            region(x.region(), core.region())?;
            conv!("blockquote", x, *c, at);
            lines(c.lines.len(), &|i| x.line_at(i), x.line_cnt(), c.lines.iter().map(|x| x.to_string()).collect())
        }
        BlockElement::CodeBlock(c) => {
            let x = b.into_code_block().unwrap();
            region(x.region(), core.region())?;
            conv!("code block", x, *c, at);
            eq("language", x.language(), c.language.as_ref().map(|x| x.to_string()))?;
            let mut m: Vec<_> = c.metadata.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            m.sort();
            eq("metadata", entries(x.metadata()), Some(m))?;
            lines(c.lines.len(), &|i| x.line_at(i), x.line_cnt(), c.lines.iter().map(|x| x.to_string()).collect())
        }
        BlockElement::MathBlock(c) => {
            let x = b.into_math_block().unwrap();
            region(x.region(), core.region())?;
            conv!("math block", x, *c, at);
            eq("environment", x.environment(), c.environment.as_ref().map(|x| x.to_string()))?;
            lines(c.lines.len(), &|i| x.line_at(i), x.line_cnt(), c.lines.iter().map(|x| x.to_string()).collect())
        }
        BlockElement::DefinitionList(c) => {
            let x = b.into_definition_list().unwrap();
            region(x.region(), core.region())?;
            conv!("definition list", x, *c, at);
            family!("definition list", x, c);
            let terms: Vec<String> = c.items.iter().map(|i| i.term.as_inner().to_string()).collect();
            eq("terms", x.terms().iter().map(|t| t.as_string().unwrap_or_default()).collect::<Vec<_>>(), terms.clone())?;
            eq("term_cnt", x.term_cnt(), terms.len())?;
            eq("def_cnt", x.def_cnt(), c.items.iter().map(|i| i.definitions.len()).sum())?;
            for t in terms.iter().map(String::as_str).chain(["no such term"]) {
                let want = c.items.iter().find(|i| i.term.as_inner().to_string() == t);
                let got = x.get_def(t);
                eq("whether a term has a definition", got.is_some(), want.is_some())?;
                if let (Some(got), Some(want)) = (got, want) {
                    // one container of all the containers
                    let all: Vec<String> = want.definitions.iter().map(|d| d.as_inner().to_string()).collect();
                    eq("definition", got.to_str(), all.concat())?;
                }
            }
            Ok(())
        }
        BlockElement::Divider(c) => {
            let x = b.into_divider().unwrap();
            region(x.region(), core.region())?;
            conv!("divider", x, *c, at);
            Ok(())
        }
        BlockElement::Header(c) => {
            let x = b.into_header().unwrap();
            region(x.region(), core.region())?;
            conv!("header", x, *c, at);
            family!("header", x, c);
            eq("level", x.level(), c.level)?;
            eq("centered", x.centered(), c.centered)?;
            eq("to_str", x.to_str(), c.content.to_string())?;
            check_container(&x.content(), &c.content)
        }
        BlockElement::List(c) => {
            let x = b.into_list().unwrap();
            region(x.region(), core.region())?;
            conv!("list", x, *c, at);
            family!("list", x, c);
            eq("item_cnt", x.item_cnt(), c.items.len())?;
            for (i, it) in c.items.iter().enumerate() {
                check_item(some("item_at", x.item_at(i))?, it).map_err(|m| format!("item {}: {}", i, m))?;
            }
            none("item_at the end", x.item_at(c.items.len()))
        }
        BlockElement::Paragraph(c) => {
            let x = b.into_paragraph().unwrap();
            region(x.region(), core.region())?;
            conv!("paragraph", x, *c, at);
            family!("paragraph", x, c);
            eq("line_cnt", x.line_cnt(), c.lines.len())?;
            eq("to_str", x.to_str(), c.lines.iter().map(|l| l.to_string()).collect::<Vec<_>>().join("\n"))?;
            for (i, l) in c.lines.iter().enumerate() {
                check_container(&some("line_at", x.line_at(i))?, l).map_err(|m| format!("line {}: {}", i, m))?;
            }
            none("line_at the end", x.line_at(c.lines.len()))
        }
        BlockElement::Placeholder(c) => {
            let x = b.into_placeholder().unwrap();
            region(x.region(), core.region())?;
            conv!("placeholder", x, *c, at);
            let s = |x: &str| Some(x.to_string());
            let (mut title, mut template, mut date, mut name, mut value) = (None, None, None, None, None);
            match c {
                Placeholder::Title(t) => title = s(t),
                Placeholder::Template(t) => template = s(t),
                Placeholder::Date(d) => date = Some(d.to_string()),
                Placeholder::Other { name: n, value: v } => {
                    name = s(n);
                    value = s(v)
                }
                Placeholder::NoHtml => {}
            }
            eq("title", x.title(), title)?;
            eq("template", x.template(), template)?;
            eq("date", x.date().map(|d| format!("{:04}-{:02}-{:02}", d.get_full_year(), d.get_month() + 1, d.get_date())), date)?;
            eq("other_name", x.other_name(), name)?;
            eq("other_value", x.other_value(), value)?;
            eq("is_no_html", x.is_no_html(), matches!(c, Placeholder::NoHtml))
        }
        BlockElement::Table(c) => {
            let x = b.into_table().unwrap();
            region(x.region(), core.region())?;
            conv!("table", x, *c, at);
            family!("table", x, c);
            eq("centered", x.centered(), c.centered)?;
            eq("row_cnt", x.row_cnt(), c.row_cnt())?;
            eq("col_cnt", x.col_cnt(), c.col_cnt())?;
            for r in 0..c.row_cnt() + 1 {
                for k in 0..c.col_cnt() + 1 {
                    let want = c.get_cell(r, k);
                    let got = x.cell_at(r, k);
                    eq(&format!("whether there is a cell at {},{}", r, k), got.is_some(), want.is_some())?;
                    if let (Some(g), Some(want)) = (got, want) {
                        check_cell(&g, want.as_inner()).map_err(|m| format!("cell {},{}: {}", r, k, m))?;
                    }
                }
            }
            Ok(())
        }
    }
}

fn check_cell(g: &w::Cell, c: &Cell) -> R {
    use vimwiki_core::ColumnAlign as A;
    let text = match c {
        Cell::Content(x) => Some(x.to_string()),
        _ => None,
    };
    eq("to_str", g.to_str(), text)?;
    eq("is_span", g.is_span(), matches!(c, Cell::Span(_)))?;
    eq("is_span_from_above", g.is_span_from_above(), matches!(c, Cell::Span(CellSpan::FromAbove)))?;
    eq("is_span_from_left", g.is_span_from_left(), matches!(c, Cell::Span(CellSpan::FromLeft)))?;
    eq("is_align", g.is_align(), matches!(c, Cell::Align(_)))?;
    eq("is_align_left", g.is_align_left(), matches!(c, Cell::Align(A::Left)))?;
    eq("is_align_centered", g.is_align_centered(), matches!(c, Cell::Align(A::Center)))?;
    eq("is_align_right", g.is_align_right(), matches!(c, Cell::Align(A::Right)))?;
    match (c, g.content()) {
        (Cell::Content(x), Some(g)) => check_container(&g, x),
        (Cell::Content(_), None) => Err("content yields nothing".into()),
        (_, g) => none("content", g),
    }
}

fn check_item(x: w::ListItem, core: &Located<ListItem>) -> R {
    let c = core.as_inner();
    let at = core.region();
    region(x.region(), at)?;
    conv!("list item", x, *c, at);
    family!("list item", x, c);
    eq("pos", x.pos(), c.pos)?;
    eq("is_ordered", x.is_ordered(), matches!(c.ty, ListItemType::Ordered(_)))?;
    eq("is_unordered", x.is_unordered(), matches!(c.ty, ListItemType::Unordered(_)))?;
    eq("prefix", x.prefix(), c.ty.to_prefix(c.pos, c.suffix))?;
    eq("suffix", x.suffix().__js(), match c.suffix {
        ListItemSuffix::None => "none",
        ListItemSuffix::Period => "period",
        ListItemSuffix::Paren => "paren",
    })?;
    eq("suffix", x.suffix().to_vimwiki(), Some(c.suffix))?;
    use vimwiki_core::ListItemTodoStatus as T;
    let t = c.attributes.todo_status;
    let a = x.attributes();
    eq("todo_status", a.todo_status().map(|t| t.__js()), t.map(|t| match t {
        T::Incomplete => "incomplete",
        T::PartiallyComplete1 => "partially_complete_1",
        T::PartiallyComplete2 => "partially_complete_2",
        T::PartiallyComplete3 => "partially_complete_3",
        T::Complete => "complete",
        T::Rejected => "rejected",
    }))?;
    eq("todo_status", a.todo_status().map(|t| t.to_vimwiki()), t.map(Some))?;
    eq("is_todo_*", [a.is_todo_incomplete(), a.is_todo_partially_complete_1(), a.is_todo_partially_complete_2(), a.is_todo_partially_complete_3(), a.is_todo_complete(), a.is_todo_rejected()],
        [T::Incomplete, T::PartiallyComplete1, T::PartiallyComplete2, T::PartiallyComplete3, T::Complete, T::Rejected].map(|k| t == Some(k)))?;
    let k = x.contents();
    eq("content_cnt", k.content_cnt(), c.contents.len())?;
    for (i, e) in c.contents.iter().enumerate() {
        check_block(&|| k.content_at(i).expect("content"), e).map_err(|m| format!("content {}: {}", i, m))?;
    }
    none("content_at the end", k.content_at(c.contents.len()))
}

fn check_container(x: &w::InlineElementContainer, c: &InlineElementContainer) -> R {
    conv!("container", x, *c);
    family!("container", x, c);
    eq("element_cnt", x.element_cnt(), c.len())?;
    eq("to_str", x.to_str(), c.to_string())?;
    for (i, e) in c.iter().enumerate() {
        check_inline(&|| x.element_at(i).expect("element"), e).map_err(|m| format!("inline {}: {}", i, m))?;
    }
    none("element_at the end", x.element_at(c.len()))
}

fn check_inline(got: &dyn Fn() -> w::InlineElement, core: &Located<InlineElement>) -> R {
    let b = got();
    let at = core.region();
    region(b.region(), at)?;
    let c = core.as_inner();
    conv!("inline element", b, *c, at);
    family!("inline element", b, c);
    kinds!(got, c,
        "text" is_text into_text InlineElement::Text(_),
        "decorated_text" is_decorated_text into_decorated_text InlineElement::DecoratedText(_),
        "keyword" is_keyword into_keyword InlineElement::Keyword(_),
        "link" is_link into_link InlineElement::Link(_),
        "tags" is_tags into_tags InlineElement::Tags(_),
        "inline_code" is_inline_code into_inline_code InlineElement::Code(_),
        "inline_math" is_inline_math into_inline_math InlineElement::Math(_),
        "comment" is_comment into_comment InlineElement::Comment(_),
    );
    match c {
        InlineElement::Text(c) => {
            let x = b.into_text().unwrap();
            region(x.region(), core.region())?;
            conv!("text", x, *c, at);
            eq("to_str", x.to_str(), c.as_str().to_string())
        }
        InlineElement::DecoratedText(c) => {
            let x = b.into_decorated_text().unwrap();
            region(x.region(), core.region())?;
            check_decorated(&x, c, at)
        }
        InlineElement::Keyword(k) => {
            let x = b.into_keyword().unwrap();
            eq("keyword", x.__js(), match k {
                Keyword::Todo => "TODO",
                Keyword::Done => "DONE",
                Keyword::Started => "STARTED",
                Keyword::Fixme => "FIXME",
                Keyword::Fixed => "FIXED",
                Keyword::Xxx => "XXX",
            })?;
            eq("keyword", x.to_vimwiki(), Some(*k))
        }
        InlineElement::Link(c) => {
            let x = b.into_link().unwrap();
            region(x.region(), core.region())?;
            check_link(&x, c, at)
        }
        InlineElement::Tags(c) => {
            let x = b.into_tags().unwrap();
            region(x.region(), core.region())?;
            conv!("tags", x, *c, at);
            eq("tag_cnt", x.tag_cnt(), c.into_iter().count())?;
            eq("to_str", x.to_str(), c.to_string())?;
            let n = c.into_iter().count();
            eq("tags", (0..n + 1).map(|i| x.tag_at(i).map(|t| t.to_str())).collect::<Vec<_>>(), c.into_iter().map(|t| Some(t.as_str().to_string())).chain([None]).collect())
        }
        InlineElement::Code(c) => {
            let x = b.into_inline_code().unwrap();
            region(x.region(), core.region())?;
            conv!("code", x, *c, at);
            eq("to_str", x.to_str(), c.as_str().to_string())
        }
        InlineElement::Math(c) => {
            let x = b.into_inline_math().unwrap();
            region(x.region(), core.region())?;
            conv!("math", x, *c, at);
            eq("to_str", x.to_str(), c.as_str().to_string())
        }
        InlineElement::Comment(c) => {
            let x = b.into_comment().unwrap();
            region(x.region(), core.region())?;
            conv!("comment", x, *c, at);
            let want: Vec<String> = match c {
                Comment::Line(l) => vec![l.to_string()],
                Comment::MultiLine(l) => l.into_iter().map(|l| l.to_string()).collect(),
            };
            eq("line_cnt", x.line_cnt(), want.len())?;
            eq("to_str", x.to_str(), c.to_string())?;
            eq("lines", (0..want.len() + 1).map(|i| x.line_at(i)).collect::<Vec<_>>(), want.into_iter().map(Some).chain([None]).collect())
        }
    }
}

fn check_decorated(x: &w::DecoratedText, c: &DecoratedText, at: Region) -> R {
    conv!("decorated text", x, *c, at);
    family!("decorated text", x, c);
    eq("is_*", [x.is_bold(), x.is_italic(), x.is_strikeout(), x.is_superscript(), x.is_subscript()], [
        matches!(c, DecoratedText::Bold(_)),
        matches!(c, DecoratedText::Italic(_)),
        matches!(c, DecoratedText::Strikeout(_)),
        matches!(c, DecoratedText::Superscript(_)),
        matches!(c, DecoratedText::Subscript(_)),
    ])?;
    eq("to_str", x.to_str(), c.to_string())?;
    let (DecoratedText::Bold(v) | DecoratedText::Italic(v) | DecoratedText::Strikeout(v) | DecoratedText::Superscript(v) | DecoratedText::Subscript(v)) = c;
    let k = x.contents();
    eq("contents", (k.len(), k.is_empty()), (v.len(), v.is_empty()))?;
    for (i, e) in v.iter().enumerate() {
        let x = some("get", k.get(i))?;
        region(x.region(), e.region())?;
        conv!("decorated content", x, *e.as_inner(), e.region());
        family!("decorated content", x, e.as_inner());
        eq("to_str of content", x.to_str(), e.as_inner().to_string())?;
    }
    none("get at the end", k.get(v.len()))
}

fn check_link(x: &w::Link, c: &Link, at: Region) -> R {
    conv!("link", x, *c, at);
    link_parts(x, c)
}
fn link_parts(x: &w::Link, c: &Link) -> R {
    let d = match c {
        Link::Wiki { data } | Link::IndexedInterWiki { data, .. } | Link::NamedInterWiki { data, .. } | Link::Diary { data, .. } | Link::Raw { data } | Link::Transclusion { data } => data,
    };
    eq("uri", x.uri(), d.uri_ref.to_string())?;
    eq("description", x.description(), d.description.as_ref().map(|d| d.to_string()))?;
    let props = d.properties.as_ref().map(|p| {
        let mut v: Vec<_> = p.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        v.sort();
        v
    });
    eq("properties", entries(x.properties()), props.clone())?;
    for (k, v) in props.iter().flatten() {
        eq("get_property", x.get_property(k), Some(v.clone()))?;
    }
    eq("get_property", x.get_property("no such property"), None)?;
    eq("scheme", x.scheme(), d.uri_ref.scheme().map(|s| s.to_string()))?;
    eq("date", x.date(), match c {
        Link::Diary { date, .. } => Some(date.to_string()),
        _ => None,
    })?;
    eq("wiki_index", x.wiki_index(), match c {
        Link::IndexedInterWiki { index, .. } => Some(*index),
        _ => None,
    })?;
    eq("wiki_name", x.wiki_name(), match c {
        Link::NamedInterWiki { name, .. } => Some(name.to_string()),
        _ => None,
    })
}

pub struct P42;
impl Prop for P42 {
    fn id(&self) -> &'static str {
        "P42"
    }
    fn rule(&self) -> &'static str {
        "parse_vimwiki_str of the binding and the parser of the library on the same text; every object reachable from the page, by every accessor at every index (one past the end too), every cast to every kind, children, descendants, region, to_html_str (also with configurations given as objects), to_js and to_debug_str against the library's element"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the binding's sources run on this machine against stand-ins for wasm-bindgen and js-sys (local time zone UTC); the glue that wasm-bindgen generates is not exercised",
            "the library's elements are right (checked by the other properties)",
        ]
    }
    fn spaces(&self, t: Tier) -> Vec<Space> {
        let mut v = super::api::variants(t);
        for b in BLOCKS {
            v.push(b.replace('Q', "a"));
        }
        for k in ["TODO", "DONE", "STARTED", "FIXME", "FIXED", "XXX"] {
            v.push(format!("{}\n*a {}*\n", k, k));
        }
        for d in ["2021-01-01", "2021-01-31", "2021-02-28", "2020-02-29", "2021-03-04", "2021-12-31", "1999-10-31", "1900-03-01", "2000-06-30"] {
            v.push(format!("%date {}\n[[diary:{}]]\n", d, d));
        }
        // many of everything, all different
        for n in [2, 3, 4, 5, 9, 17, 40] {
            let many = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
            v.push(format!("t::\n{}", many(&|i| format!(":: d{}\n", i))));
            v.push(many(&|i| format!("t{}:: d{}\n:: e{}\n", i, i, i)));
            v.push(format!("- x\n{}", many(&|i| format!("{}- i{}\n{}  c{}\n", " ".repeat(i % 5), i, " ".repeat(i % 5), i))));
            v.push(many(&|i| format!("{} [{}] i{}\n", ["-", "*", "1.", "a)"][n % 4], [" ", ".", "o", "O", "X", "-"][i % 6], i)));
            v.push(format!("- x\n{}", many(&|i| format!("  > q{}\n  p{}\n", i, i))));
            v.push(many(&|r| format!("|{}\n", many(&|c| match (r * n + c) % 7 {
                3 => ">|".into(),
                5 => "\\/|".into(),
                _ if r == 1 => ["-|", ":-|", "-:|", ":-:|"][c % 4].into(),
                _ => format!("c{}.{}|", r, c),
            }))));
            v.push(many(&|i| format!("> q{}\n", i)));
            v.push(format!("{{{{{{l{}\n{}}}}}}}\n", many(&|i| format!(" k{}=\"v{}\"", i, i)), many(&|i| format!("x{}\n", i))));
            v.push(format!("{{{{$%e%\n{}}}}}$\n", many(&|i| format!("x{}\n", i))));
            v.push(many(&|i| format!("l{} *b{}*\n", i, i)));
            v.push(format!("*a {}*\n", many(&|i| format!("w{} [[l{}]] ", i, i)).trim_end()));
            v.push(format!("{}\n", many(&|i| format!("w{} `c{}` $m{}$ ", i, i, i))));
            v.push(format!(":{}\n", many(&|i| format!("t{}:", i))));
            v.push(format!("x %%+ {}+%%\n", many(&|i| format!("c{}\n", i))));
            v.push(format!("{{{{a.png|d|{}}}}}\n", many(&|i| format!("k{}=\"v{}\" ", i, i)).trim_end()));
            v.push(format!("[[a#{}]]\n", many(&|i| format!("b{}#", i)).trim_end_matches('#')));
            v.push(many(&|i| format!("{} h{} {}\n", "=".repeat(i % 6 + 1), i, "=".repeat(i % 6 + 1))));
        }
        for i in ["0", "1", "255", "256", "65535", "65536", "70000", "4294967295"] {
            v.push(format!("[[wiki{}:a]]\n", i));
        }
        let mut s = vec![cases("one document for every kind of everything", v)];
        s.extend(rich_spaces(t, 1));
        s.push(nested_space());
        s.extend(ALPHAS.iter().map(|a| toks(a.name, a.tokens, t.pick(a.depth.0, a.depth.1) - 2)));
        if t == Tier::Thorough {
            s.push(white_space(t));
            s.push(scaled_space(Tier::Quick));
        }
        s
    }
    fn check(&self, case: &str) -> Check {
        let p = parse(case)?;
        let r = imp("binding", || check_page(case, &p));
        wasm_bindgen::__forget_all();
        r??;
        Ok(seen(&crate::tree::page(&p).strip().show()))
    }
}

// ---------------------------------------------------------------- P43
/// Elements made from JavaScript
pub struct P43;

const SEP: char = '\u{1f}';

fn reg(s: &str) -> Option<(usize, usize, u16)> {
    let v: Vec<usize> = s.split(',').filter_map(|x| x.parse().ok()).collect();
    (v.len() == 3).then(|| (v[0], v[1], v[2] as u16))
}

impl Prop for P43 {
    fn id(&self) -> &'static str {
        "P43"
    }
    fn rule(&self) -> &'static str {
        "every constructor of the binding with every combination of texts, addresses, descriptions, anchors, properties, dates and regions: the element says what it was made from, and shows and converts as the library's element made from the same parts"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the binding's sources run on this machine against stand-ins for wasm-bindgen and js-sys (local time zone UTC)"]
    }
    fn spaces(&self, t: Tier) -> Vec<Space> {
        let texts = ["", "a", "a b", " a ", "<&\">", "a\nb", "é\u{1F600}", "*b*", "{{x}}", "%% c", ":t:"];
        let regions = ["", "0,0,0", "3,4,1", "7,0,65535"];
        let uris = ["", "a", "a/b", "/a", "//h/a", "a#b", "#b", "#b#c", "http://a.b/c?d#e", "a%20b", "a b", ":", "%", "é"];
        let mut v = vec![];
        for kind in ["text", "code", "math", "bold", "italic", "strikeout", "superscript", "subscript", "comment", "multicomment", "tag", "cell"] {
            for x in texts {
                for r in regions {
                    v.push([kind, r, x].join("\u{1f}"));
                }
            }
        }
        for n in 0..4usize {
            for i in 0..texts.len().pow(n as u32).min(t.pick(200, 1331)) {
                let mut k = i;
                let v2: Vec<&str> = (0..n)
                    .map(|_| {
                        let x = texts[k % texts.len()];
                        k /= texts.len();
                        x
                    })
                    .collect();
                v.push([&["tags", "1,2,3"][..], &v2].concat().join("\u{1f}"));
            }
        }
        for r in regions {
            for kind in ["wiki", "raw", "indexed", "named", "transclusion"] {
                for u in uris {
                    for d in ["", "d", "d e", "http://a.b/i.png", "a<b", "é"] {
                        if kind == "raw" && !d.is_empty() {
                            continue;
                        }
                        if r.is_empty() || t == Tier::Thorough || d == "d" {
                            v.push([kind, r, u, d].join("\u{1f}"));
                        }
                    }
                }
            }
        }
        for i in ["0", "1", "255", "256", "65535", "65536", "70000", "2147483648", "4294967295"] {
            v.push(["indexed", "", "a", "d", i].join("\u{1f}"));
        }
        for name in ["", "w", "n m", "wiki1", "a:b", "<&>", "é", "7"] {
            v.push(["named", "", "a", "d", name].join("\u{1f}"));
        }
        for r in ["4294967295,4294967295,65535", "65536,70000,256"] {
            v.push(["text", r, "a"].join("\u{1f}"));
        }
        // every day of two years, and some others
        let mut days = vec![];
        for (y, leap) in [(2020, true), (2021, false)] {
            for m in 1..=12u32 {
                let n = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1];
                for d in 1..=n {
                    days.push(format!("{}-{:02}-{:02}", y, m, d));
                }
            }
        }
        days.extend(["1999-12-31", "1970-01-01", "1969-12-31", "1600-02-29", "9999-12-31", "1000-01-01"].iter().map(|s| s.to_string()));
        for d in &days {
            v.push(["diary", "1,2,3", d, "d", ""].join("\u{1f}"));
        }
        for d in &days[..3] {
            for a in ["", "a", "a#b", "a b", "é"] {
                for x in ["", "d", "http://a.b/i.png"] {
                    v.push(["diary", "", d, x, a].join("\u{1f}"));
                }
            }
        }
        // tables: which of the entries is a cell
        for n in 0..t.pick(3, 4) {
            for m in 0..4usize {
                for mask in 0..1u32 << (n * m) {
                    v.push(["table", if mask % 2 == 0 { "" } else { "1,2,3" }, &n.to_string(), &m.to_string(), &mask.to_string()].join("\u{1f}"));
                }
            }
        }
        vec![cases("elements made from parts", v)]
    }
    fn check(&self, case: &str) -> Check {
        let r = imp("binding", || check_made(case));
        wasm_bindgen::__forget_all();
        let seen_ = r??;
        Ok(seen(&seen_))
    }
}

fn check_made(case: &str) -> Result<String, String> {
    let p: Vec<&str> = case.split(SEP).collect();
    let at = reg(p[1]);
    let rg = || at.map(|r| w::Region::new(r.0, r.1, r.2));
    let want_region = match at {
        Some(r) => Region::new_at_depth(r.0, r.1, r.2),
        None => Region::default(),
    };
    if let Some(r) = rg() {
        region(r, want_region)?;
    }
    let s = p[2..].first().copied().unwrap_or("");
    macro_rules! made {
        ($x:expr, $core:expr, $text:expr) => {{
            let (x, core) = ($x, $core);
            region(x.region(), want_region)?;
            eq("to_str", x.to_str(), $text)?;
            conv!(p[0], x, core, want_region);
            Ok(format!("{}{:?}", p[0], core))
        }};
    }
    let dec = |f: fn(Vec<Located<DecoratedTextContent<'static>>>) -> DecoratedText<'static>| f(vec![Located::from(DecoratedTextContent::Text(Text::from(s.to_string())))]);
    let desc = |d: &str| -> Description<'static> {
        use std::convert::TryFrom;
        match vimwiki_core::vendor::uriparse::URIReference::try_from(d) {
            Ok(_) => Description::try_from_uri_ref_str(d).map(|d| d.into_owned()).unwrap_or_else(|_| Description::from(d.to_string())),
            Err(_) => Description::from(d.to_string()),
        }
    };
    match p[0] {
        "text" => made!(w::Text::new(s, rg()), Text::from(s.to_string()), s.to_string()),
        "code" => made!(w::CodeInline::new(s, rg()), CodeInline::new(s.to_string().into()), s.to_string()),
        "math" => made!(w::MathInline::new(s, rg()), MathInline::new(s.to_string().into()), s.to_string()),
        "bold" => made!(w::DecoratedText::new_bold_text(s, rg()), dec(DecoratedText::Bold), s.to_string()),
        "italic" => made!(w::DecoratedText::new_italic_text(s, rg()), dec(DecoratedText::Italic), s.to_string()),
        "strikeout" => made!(w::DecoratedText::new_strikeout_text(s, rg()), dec(DecoratedText::Strikeout), s.to_string()),
        "superscript" => made!(w::DecoratedText::new_superscript_text(s, rg()), dec(DecoratedText::Superscript), s.to_string()),
        "subscript" => made!(w::DecoratedText::new_subscript_text(s, rg()), dec(DecoratedText::Subscript), s.to_string()),
        "comment" | "multicomment" => {
            let multi = p[0] == "multicomment";
            let x = w::Comment::new(s, multi, rg());
            region(x.region(), want_region)?;
            let lines: Vec<String> = if multi { s.split('\n').map(String::from).collect() } else { vec![s.trim().to_string()] };
            eq("line_cnt", x.line_cnt(), lines.len())?;
            eq("lines", (0..=lines.len()).map(|i| x.line_at(i)).collect::<Vec<_>>(), lines.iter().cloned().map(Some).chain([None]).collect())?;
            Ok(format!("{}{:?}", multi, lines))
        }
        "tag" => {
            eq("to_str", w::Tag::new(s).to_str(), s.to_string())?;
            Ok(s.to_string())
        }
        "cell" => {
            let x = w::Cell::new(s, rg()).map_err(|e| format!("{:?}", e))?;
            check_cell(&x, &Cell::Content(InlineElementContainer::new(vec![Located::from(InlineElement::Text(Text::from(s.to_string())))])))?;
            Ok(format!("cell{}", s))
        }
        "tags" => {
            let v = &p[2..];
            let x = w::Tags::new(v.iter().map(|x| JsValue::from_str(x)).collect::<Vec<_>>().into_boxed_slice(), rg()).map_err(|e| format!("{:?}", e))?;
            region(x.region(), want_region)?;
            eq("tag_cnt", x.tag_cnt(), v.len())?;
            eq("tags", (0..=v.len()).map(|i| x.tag_at(i).map(|t| t.to_str())).collect::<Vec<_>>(), v.iter().map(|x| Some(x.to_string())).chain([None]).collect())?;
            Ok(format!("{:?}", v))
        }
        "table" => {
            let (n, m, mask): (usize, usize, u32) = (p[2].parse().unwrap(), p[3].parse().unwrap(), p[4].parse().unwrap());
            let rows = Array::new();
            let mut want: Vec<Vec<String>> = vec![];
            for r in 0..n {
                let row = Array::new();
                let mut wr = vec![];
                for c in 0..m {
                    let name = format!("{}.{}", r, c);
                    if mask >> (r * m + c) & 1 == 0 {
                        row.push(&w::Cell::new(&name, None).map_err(|e| format!("{:?}", e))?.into());
                        wr.push(name);
                    } else {
                        row.push(&JsValue::from_str("no cell"));
                    }
                }
                rows.push(&row);
                want.push(wr);
            }
            let x = w::Table::new(rows, mask % 3 == 0, rg()).map_err(|e| format!("{:?}", e))?;
            region(x.region(), want_region)?;
            eq("centered", x.centered(), mask % 3 == 0)?;
            let cols = want.iter().map(Vec::len).max().unwrap_or(0);
            let full = want.iter().rposition(|r| !r.is_empty()).map_or(0, |i| i + 1);
            eq("row_cnt", x.row_cnt(), full)?;
            eq("col_cnt", x.col_cnt(), cols)?;
            for r in 0..=n {
                for c in 0..=m {
                    let got = x.cell_at(r, c).and_then(|c| c.to_str());
                    eq(&format!("cell {},{}", r, c), got, want.get(r).and_then(|w| w.get(c)).cloned())?;
                }
            }
            Ok(format!("{:?}", want))
        }
        "diary" => {
            let date: chrono::NaiveDate = p[2].parse().unwrap();
            let x = w::Link::new_diary_link(Date::new(&JsValue::from_str(p[2])), p[3], p[4], rg());
            region(x.region(), want_region)?;
            let core = Link::new_diary_link(date, desc(p[3]), Anchor::from_uri_fragment(p[4]));
            eq("date", x.date(), Some(p[2].to_string()))?;
            link_parts(&x, &core)?;
            Ok(format!("{:?}", core))
        }
        kind => {
            use std::convert::TryFrom;
            let uri = vimwiki_core::vendor::uriparse::URIReference::try_from(s).map(|u| u.into_owned());
            let index: u32 = p.get(4).and_then(|x| x.parse().ok()).unwrap_or(7);
            let name = p.get(4).copied().unwrap_or("n m");
            let props = Object::new();
            js_sys::Reflect::set(&props, &"k".into(), &"v w".into()).unwrap();
            js_sys::Reflect::set(&props, &"n".into(), &JsValue::from_f64(1.0)).unwrap();
            js_sys::Reflect::set(&props, &"e".into(), &"".into()).unwrap();
            let x = match kind {
                "wiki" => w::Link::new_wiki_link(s, p[3], rg()),
                "raw" => w::Link::new_raw_link(s, rg()),
                "indexed" => w::Link::new_indexed_interwiki_link(index, s, p[3], rg()),
                "named" => w::Link::new_named_interwiki_link(name, s, p[3], rg()),
                _ => w::Link::new_transclusion_link(s, p[3], &props, rg()),
            };
            let uri = match (uri, &x) {
                (Ok(u), Ok(_)) => u,
                (Err(_), Err(_)) => return Ok("rejected".into()),
                (Err(_), Ok(_)) => return Err("a link is made to an address that is not one".into()),
                (Ok(_), Err(e)) => return Err(format!("the link is rejected: {:?}", e)),
            };
            let core = match kind {
                "wiki" => Link::new_wiki_link(uri, desc(p[3])),
                "raw" => Link::new_raw_link(uri),
                "indexed" => Link::new_indexed_interwiki_link(index, uri, desc(p[3])),
                "named" => Link::new_named_interwiki_link(name.to_string(), uri, desc(p[3])),
                _ => Link::new_transclusion_link(uri, desc(p[3]), [("k".into(), "v w".into()), ("e".into(), "".into())].into_iter().collect::<std::collections::HashMap<_, _>>()),
            };
            let x = x.ok().unwrap();
            region(x.region(), want_region)?;
            link_parts(&x, &core)?;
            Ok(format!("{:?}", core))
        }
    }
}
