//! Generic, owned view of a parsed page: every oracle works on this tree and
//! never on how the crate happens to represent an element.
use vimwiki_core::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Node {
    pub kind: &'static str,
    pub region: Option<(usize, usize, u16)>,
    /// Attributes of the element (level, language, uri, ...), in fixed order
    pub attrs: Vec<(String, String)>,
    /// Verbatim text leafs (text, code lines, ...)
    pub text: Vec<String>,
    pub kids: Vec<Node>,
}

impl Node {
    pub fn new(kind: &'static str) -> Self {
        Node { kind, ..Default::default() }
    }
    pub fn attr(mut self, k: &str, v: impl ToString) -> Self {
        self.attrs.push((k.to_string(), v.to_string()));
        self
    }
    pub fn line(mut self, s: impl ToString) -> Self {
        self.text.push(s.to_string());
        self
    }
    pub fn kid(mut self, n: Node) -> Self {
        self.kids.push(n);
        self
    }
    pub fn kids(mut self, n: impl IntoIterator<Item = Node>) -> Self {
        self.kids.extend(n);
        self
    }
    pub fn at(mut self, r: Region) -> Self {
        self.region = Some((r.offset(), r.len(), r.depth()));
        self
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
    pub fn strip(mut self) -> Self {
        self.region = None;
        self.kids = self.kids.into_iter().map(Node::strip).collect();
        self
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s);
        s
    }
    fn show_into(&self, o: &mut String) {
        o.push_str(self.kind);
        for (k, v) in &self.attrs {
            o.push_str(&format!(" {}={:?}", k, v));
        }
        for t in &self.text {
            o.push_str(&format!(" {:?}", t));
        }
        if !self.kids.is_empty() {
            o.push('(');
            for (i, k) in self.kids.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                k.show_into(o);
            }
            o.push(')');
        }
    }
}

pub fn page(p: &Page) -> Node {
    Node::new("page").kids(p.elements.iter().map(block))
}

pub fn block(b: &Located<BlockElement>) -> Node {
    block_inner(b.as_inner()).at(b.region())
}

pub fn block_inner(b: &BlockElement) -> Node {
    match b {
        BlockElement::Blockquote(x) => {
            let mut n = Node::new("blockquote");
            n.text = x.lines.iter().map(|l| l.to_string()).collect();
            n
        }
        BlockElement::CodeBlock(x) => {
            let mut n = Node::new("code_block");
            if let Some(l) = &x.language {
                n = n.attr("lang", l);
            }
            let mut m: Vec<_> = x.metadata.iter().collect();
            m.sort();
            for (k, v) in m {
                n = n.attr(&format!("meta:{}", k), v);
            }
            n.text = x.lines.iter().map(|l| l.to_string()).collect();
            n
        }
        BlockElement::DefinitionList(x) => Node::new("definition_list").kids(x.items.iter().map(|it| {
            Node::new("term_and_definitions").at(it.region())
                .kid(Node::new("term").at(it.term.region()).kids(it.term.as_inner().as_inner().iter().map(inline)))
                .kid(
                    Node::new("definitions").at(it.definitions.region()).kids(
                        it.definitions.iter().map(|d| {
                            Node::new("definition").at(d.region()).kids(d.as_inner().as_inner().iter().map(inline))
                        }),
                    ),
                )
        })),
        BlockElement::Divider(_) => Node::new("divider"),
        BlockElement::Header(x) => Node::new("header")
            .attr("level", x.level)
            .attr("centered", x.centered)
            .kids(x.content.iter().map(inline)),
        BlockElement::List(x) => list(x),
        BlockElement::MathBlock(x) => {
            let mut n = Node::new("math_block");
            if let Some(e) = &x.environment {
                n = n.attr("env", e);
            }
            n.text = x.lines.iter().map(|l| l.to_string()).collect();
            n
        }
        BlockElement::Paragraph(x) => {
            Node::new("paragraph").kids(x.lines.iter().map(|l| Node::new("line").kids(l.iter().map(inline))))
        }
        BlockElement::Placeholder(x) => match x {
            Placeholder::Title(t) => Node::new("placeholder").attr("name", "title").line(t),
            Placeholder::NoHtml => Node::new("placeholder").attr("name", "nohtml"),
            Placeholder::Template(t) => Node::new("placeholder").attr("name", "template").line(t),
            Placeholder::Date(d) => Node::new("placeholder").attr("name", "date").line(d),
            Placeholder::Other { name, value } => {
                Node::new("placeholder").attr("other", "true").line(name).line(value)
            }
        },
        BlockElement::Table(x) => {
            let mut cells: Vec<_> = x.as_data().iter().collect();
            cells.sort_by_key(|(p, _)| (p.row, p.col));
            Node::new("table")
                .attr("centered", x.centered)
                .attr("rows", x.row_cnt())
                .attr("cols", x.col_cnt())
                .kids(cells.into_iter().map(|(p, c)| {
                    let n = match c.as_inner() {
                        Cell::Content(k) => Node::new("cell").kids(k.iter().map(inline)),
                        Cell::Span(CellSpan::FromLeft) => Node::new("span_left"),
                        Cell::Span(CellSpan::FromAbove) => Node::new("span_above"),
                        Cell::Align(a) => Node::new("align").attr("to", format!("{:?}", a)),
                    };
                    n.attr("row", p.row).attr("col", p.col).at(c.region())
                }))
        }
    }
}

pub fn list(x: &List) -> Node {
    Node::new("list").kids(x.items.iter().map(list_item))
}

pub fn list_item(it: &Located<ListItem>) -> Node {
    let x = it.as_inner();
    let mut n = Node::new("item")
        .attr("type", match &x.ty {
            ListItemType::Ordered(o) => format!("{:?}", o),
            ListItemType::Unordered(UnorderedListItemType::Other(s)) => format!("Other:{}", s),
            ListItemType::Unordered(u) => format!("{:?}", u),
        })
        .attr("suffix", format!("{:?}", x.suffix))
        .attr("pos", x.pos);
    if let Some(t) = &x.attributes.todo_status {
        n = n.attr("todo", format!("{:?}", t));
    }
    n.at(it.region()).kids(x.contents.iter().map(block))
}

pub fn inline(e: &Located<InlineElement>) -> Node {
    inline_inner(e.as_inner()).at(e.region())
}

pub fn inline_inner(e: &InlineElement) -> Node {
    match e {
        InlineElement::Text(t) => Node::new("text").line(t.as_str()),
        InlineElement::DecoratedText(d) => decorated(d),
        InlineElement::Keyword(k) => Node::new("keyword").attr("k", format!("{:?}", k)),
        InlineElement::Link(l) => link(l),
        InlineElement::Tags(t) => {
            let mut n = Node::new("tags");
            n.text = t.into_iter().map(|t| t.as_str().to_string()).collect();
            n
        }
        InlineElement::Code(c) => Node::new("code").line(c.as_str()),
        InlineElement::Math(c) => Node::new("math").line(c.as_str()),
        InlineElement::Comment(Comment::Line(c)) => Node::new("line_comment").line(c.as_str()),
        InlineElement::Comment(Comment::MultiLine(c)) => {
            let mut n = Node::new("multi_comment");
            n.text = c.into_iter().map(|l| l.to_string()).collect();
            n
        }
    }
}

pub fn decorated(d: &DecoratedText) -> Node {
    let (k, v) = match d {
        DecoratedText::Bold(v) => ("bold", v),
        DecoratedText::Italic(v) => ("italic", v),
        DecoratedText::Strikeout(v) => ("strikeout", v),
        DecoratedText::Superscript(v) => ("superscript", v),
        DecoratedText::Subscript(v) => ("subscript", v),
    };
    Node::new(k).kids(v.iter().map(|c| {
        match c.as_inner() {
            DecoratedTextContent::Text(t) => Node::new("text").line(t.as_str()),
            DecoratedTextContent::DecoratedText(d) => decorated(d),
            DecoratedTextContent::Keyword(k) => Node::new("keyword").attr("k", format!("{:?}", k)),
            DecoratedTextContent::Link(l) => link(l),
        }
        .at(c.region())
    }))
}

pub fn link(l: &Link) -> Node {
    let n = Node::new("link");
    let (n, d) = match l {
        Link::Wiki { data } => (n.attr("kind", "wiki"), data),
        Link::IndexedInterWiki { index, data } => (n.attr("kind", "indexed").attr("index", index), data),
        Link::NamedInterWiki { name, data } => (n.attr("kind", "named").attr("name", name), data),
        Link::Diary { date, data } => (n.attr("kind", "diary").attr("date", date), data),
        Link::Raw { data } => (n.attr("kind", "raw"), data),
        Link::Transclusion { data } => (n.attr("kind", "transclusion"), data),
    };
    link_data(n, d)
}

fn link_data(mut n: Node, d: &LinkData) -> Node {
    n = n.attr("uri", d.uri_ref.to_string());
    match &d.description {
        None => {}
        Some(Description::Text(t)) => n = n.attr("desc", t),
        Some(Description::TransclusionLink(x)) => n = n.kid(link_data(Node::new("desc_link"), x)),
    }
    if let Some(p) = &d.properties {
        let mut p: Vec<_> = p.iter().collect();
        p.sort();
        for (k, v) in p {
            n = n.attr(&format!("prop:{}", k), v);
        }
    }
    n
}
