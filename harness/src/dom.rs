//! Strict reader of the HTML subset that the converter may emit.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Dom {
    El { name: String, attrs: Vec<(String, String)>, kids: Vec<Dom> },
    Text(String),
    Comment(String),
}

impl Dom {
    pub fn el(name: &str, attrs: &[(&str, &str)], kids: Vec<Dom>) -> Dom {
        Dom::El { name: name.into(), attrs: attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), kids }
    }
    pub fn text(s: impl ToString) -> Dom {
        Dom::Text(s.to_string())
    }
    pub fn name(&self) -> &str {
        match self {
            Dom::El { name, .. } => name,
            _ => "",
        }
    }
    pub fn kids(&self) -> &[Dom] {
        match self {
            Dom::El { kids, .. } => kids,
            _ => &[],
        }
    }
    pub fn attr(&self, k: &str) -> Option<&str> {
        match self {
            Dom::El { attrs, .. } => attrs.iter().find(|x| x.0 == k).map(|x| x.1.as_str()),
            _ => None,
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Dom)) {
        f(self);
        for k in self.kids() {
            k.walk(f);
        }
    }
    /// concatenated text
    pub fn all_text(&self) -> String {
        let mut s = String::new();
        self.walk(&mut |d| {
            if let Dom::Text(t) = d {
                s.push_str(t)
            }
        });
        s
    }
}

pub fn show(v: &[Dom]) -> String {
    let mut s = String::new();
    for d in v {
        match d {
            Dom::Text(t) => s.push_str(&format!("{:?}", t)),
            Dom::Comment(t) => s.push_str(&format!("<!--{:?}-->", t)),
            Dom::El { name, attrs, kids } => {
                s.push_str(&format!("<{}", name));
                for (k, v) in attrs {
                    s.push_str(&format!(" {}={:?}", k, v));
                }
                s.push('>');
                s.push_str(&show(kids));
                s.push_str(&format!("</{}>", name));
            }
        }
    }
    s
}

const ELEMENTS: &[&str] = &[
    "p", "br", "blockquote", "dl", "dt", "dd", "hr", "div", "h1", "h2", "h3", "h4", "h5", "h6", "a", "ul", "ol", "li", "pre", "code", "table", "thead", "tbody", "tr", "th", "td", "span", "strong", "em", "del", "sup", "sub", "small", "img",
];
const VOID: &[&str] = &["br", "hr", "img"];

fn unescape(s: &str, attr: bool) -> Result<String, String> {
    let mut out = String::new();
    let mut r = s;
    while let Some(i) = r.find('&') {
        out.push_str(&r[..i]);
        r = &r[i..];
        let known = [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", "\""), ("&#x27;", "'"), ("&#39;", "'"), ("&#x60;", "`"), ("&#x2F;", "/")];
        if let Some((e, c)) = known.iter().find(|(e, _)| r.starts_with(e)) {
            out.push_str(c);
            r = &r[e.len()..];
        } else if attr {
            // an ampersand in an address
            out.push('&');
            r = &r[1..];
        } else {
            return Err(format!("'&' is not escaped in {:?}", s));
        }
    }
    out.push_str(r);
    Ok(out)
}

/// Reads a fragment; every deviation from well-formed, escaped HTML is an error
pub fn parse(src: &str) -> Result<Vec<Dom>, String> {
    let mut stack: Vec<(String, Vec<(String, String)>, Vec<Dom>)> = vec![(String::new(), vec![], vec![])];
    let mut r = src;
    while !r.is_empty() {
        if let Some(t) = r.strip_prefix("<!--") {
            let e = t.find("-->").ok_or("a comment is not closed")?;
            stack.last_mut().unwrap().2.push(Dom::Comment(t[..e].to_string()));
            r = &t[e + 3..];
        } else if let Some(t) = r.strip_prefix("</") {
            let e = t.find('>').ok_or("a closing tag is not closed")?;
            let (name, attrs, kids) = stack.pop().unwrap();
            if stack.is_empty() || name != t[..e] {
                return Err(format!("</{}> closes <{}> at {:?}", &t[..e], name, &src[..src.len() - r.len()]));
            }
            stack.last_mut().unwrap().2.push(Dom::El { name, attrs, kids });
            r = &t[e + 1..];
        } else if let Some(t) = r.strip_prefix('<') {
            let e = t.find(|c: char| !c.is_ascii_alphanumeric()).ok_or("'<' at the end")?;
            let name = t[..e].to_string();
            if !ELEMENTS.contains(&name.as_str()) {
                return Err(format!("<{}> is not an element of the output, or '<' is not escaped", name));
            }
            let mut t = &t[e..];
            let mut attrs: Vec<(String, String)> = vec![];
            let void;
            loop {
                if let Some(x) = t.strip_prefix('>') {
                    void = false;
                    t = x;
                    break;
                }
                if let Some(x) = t.strip_prefix(" />") {
                    void = true;
                    t = x;
                    break;
                }
                let x = t.strip_prefix(' ').ok_or_else(|| format!("malformed tag <{} ...{:?}", name, t.chars().take(20).collect::<String>()))?;
                let eq = x.find("=\"").ok_or_else(|| format!("attribute of <{}> is not written as name=\"value\"", name))?;
                let k = &x[..eq];
                if k.contains(['<', '>', '"', '\'']) {
                    return Err(format!("attribute name {:?} of <{}>", k, name));
                }
                let k = unescape(k, true)?;
                let x = &x[eq + 2..];
                let q = x.find('"').ok_or_else(|| format!("attribute {:?} of <{}> is not closed", k, name))?;
                if x[..q].contains(['<', '>']) {
                    return Err(format!("attribute value {:?} of <{}> is not escaped", &x[..q], name));
                }
                if attrs.iter().any(|a| a.0.eq_ignore_ascii_case(&k)) {
                    return Err(format!("attribute {:?} of <{}> is given twice", k, name));
                }
                attrs.push((k, unescape(&x[..q], true)?));
                t = &x[q + 1..];
            }
            if void != VOID.contains(&name.as_str()) {
                return Err(format!("<{}> is {}closed in place", name, if void { "" } else { "not " }));
            }
            if void {
                stack.last_mut().unwrap().2.push(Dom::El { name, attrs, kids: vec![] });
            } else {
                stack.push((name, attrs, vec![]));
            }
            r = t;
        } else {
            let e = r.find('<').unwrap_or(r.len());
            let t = &r[..e];
            if t.contains('>') {
                return Err(format!("'>' is not escaped in {:?}", t));
            }
            stack.last_mut().unwrap().2.push(Dom::Text(unescape(t, false)?));
            r = &r[e..];
        }
    }
    let (name, _, kids) = stack.pop().unwrap();
    if !stack.is_empty() {
        return Err(format!("<{}> is not closed", name));
    }
    Ok(kids)
}

const INLINE: &[&str] = &["a", "span", "strong", "em", "del", "sup", "sub", "small", "img", "code", "br"];

/// Which elements may contain which
pub fn valid(parent: &str, v: &[Dom]) -> Result<(), String> {
    for d in v {
        let n = d.name();
        let ok = match parent {
            "ul" | "ol" => n == "li" || n.is_empty(),
            "dl" => n == "dt" || n == "dd" || n.is_empty(),
            "table" => n == "thead" || n == "tbody" || n.is_empty(),
            "thead" | "tbody" => n == "tr" || n.is_empty(),
            "tr" => n == "td" || n == "th" || n.is_empty(),
            "pre" => n == "code",
            "" | "li" | "div" | "blockquote" => !matches!(n, "li" | "dt" | "dd" | "thead" | "tbody" | "tr" | "td" | "th"),
            _ => n.is_empty() || INLINE.contains(&n),
        };
        if !ok {
            return Err(format!("<{}> inside <{}>", n, parent));
        }
        if let Dom::Text(t) = d {
            if matches!(parent, "ul" | "ol" | "dl" | "table" | "thead" | "tbody" | "tr") && !t.trim().is_empty() {
                return Err(format!("text {:?} directly inside <{}>", t, parent));
            }
        }
        valid(n, d.kids())?;
    }
    Ok(())
}

/// Merges text and collapses white space outside of <pre>
pub fn normal(v: Vec<Dom>) -> Vec<Dom> {
    normal_in("", v, false)
}
fn normal_in(parent: &str, v: Vec<Dom>, pre: bool) -> Vec<Dom> {
    let mut out: Vec<Dom> = vec![];
    for d in v {
        match d {
            Dom::Text(t) => {
                if let Some(Dom::Text(l)) = out.last_mut() {
                    l.push_str(&t);
                } else {
                    out.push(Dom::Text(t));
                }
            }
            Dom::El { name, mut attrs, kids } => {
                attrs.sort();
                let p = pre || name == "pre";
                out.push(Dom::El { kids: normal_in(&name, kids, p), name, attrs });
            }
            c => out.push(c),
        }
    }
    if !pre {
        for d in out.iter_mut() {
            if let Dom::Text(t) = d {
                let mut n = String::new();
                for c in t.chars() {
                    if c.is_ascii_whitespace() {
                        if !n.ends_with(' ') {
                            n.push(' ');
                        }
                    } else {
                        n.push(c);
                    }
                }
                *t = n;
            }
        }
        let block = matches!(parent, "" | "ul" | "ol" | "li" | "dl" | "table" | "thead" | "tbody" | "tr" | "blockquote");
        if block {
            for d in out.iter_mut() {
                if let Dom::Text(t) = d {
                    // white space between math blocks has no meaning
                    *t = t.trim_matches(' ').replace(" \\[", "\\[").replace(" \\begin{", "\\begin{");
                }
            }
        }
    }
    out.retain(|d| !matches!(d, Dom::Text(t) if t.is_empty()));
    out
}
