//! What a link says: every combination of the parts that its text can have.
use super::*;
use std::path::PathBuf;

const KINDS: [&str; 9] = ["wiki", "wiki0:", "wiki12:", "wn.n:", "wn.a b:", "wn.wiki1:", "diary:2021-02-28", "diary:2020-02-29", "transclusion"];
/// text, path (None: the uri has a scheme or an authority), scheme, local
const TARGETS: [(&str, Option<&str>, &str, bool); 36] = [
    ("", Some(""), "", true),
    ("a", Some("a"), "", true),
    ("/a", Some("/a"), "", true),
    ("a/", Some("a/"), "", true),
    ("/", Some("/"), "", true),
    ("a/b", Some("a/b"), "", true),
    ("/a/b.c/", Some("/a/b.c/"), "", true),
    ("a b", Some("a b"), "", true),
    ("a  b c/d e", Some("a  b c/d e"), "", true),
    ("../a", Some("../a"), "", true),
    ("./a/../b", Some("./a/../b"), "", true),
    ("é", Some("é"), "", true),
    ("日本/語 x", Some("日本/語 x"), "", true),
    ("a%20b", Some("a b"), "", true),
    ("a.wiki", Some("a.wiki"), "", true),
    ("a&b'c", Some("a&b'c"), "", true),
    ("a\"b", Some("a\"b"), "", true),
    ("a<b>", Some("a<b>"), "", true),
    ("a`b", Some("a`b"), "", true),
    ("a=b", Some("a=b"), "", true),
    ("A-B_c~d!$()*+,;@", Some("A-B_c~d!$()*+,;@"), "", true),
    ("a?b=c", Some("a"), "", true),
    ("wiki", Some("wiki"), "", true),
    ("file:/x/y", None, "file", true),
    ("file:a.b", None, "file", true),
    ("file:///x", None, "file", true),
    ("local:x/y.z", None, "local", true),
    ("http://h/p?q=1", None, "http", false),
    ("https://h:80/", None, "https", false),
    ("mailto:a@b.c", None, "mailto", false),
    ("ftp://h/a b", None, "ftp", false),
    ("//h/p", None, "", true),
    ("//h/", None, "", true),
    ("?a=1", Some(""), "", true),
    ("/?a=1", Some("/"), "", true),
    ("data:text/plain,x", None, "data", false),
];
const ANCHORS: [&[&str]; 9] = [&[], &["x"], &["x", "y"], &["x y", "z"], &["é"], &["x", "y", "x"], &[""], &["a/b", "?"], &["1.2 Über", "a\"b"]];
const DESCS: [Option<&str>; 10] =
    [None, Some(""), Some("d"), Some(" d e "), Some("é\"<&"), Some("{{u}}"), Some("{{u/v w#x|e|k=\"v\" l=\"w\"}}"), Some("{{u}}x"), Some("a=b"), Some("*b* `c`")];
const PROPS: [&[(&str, &str)]; 8] = [&[], &[("k", "v")], &[("k", "v"), ("j", "w x")], &[("k", "")], &[("a-b", "c=d;é"), ("style", "x: y"), ("class", "z")], &[("k", "{a}&<")],
    &[("k1", "a b c d e f g h i j k l m n o p q r s t u v w x y z a b c d e f g h i j k l m n o p q r s t u v w x y z")],
    &[("a", "1"), ("b", "2"), ("c", "3"), ("d", "4"), ("e", "5"), ("f", "6"), ("g", "7"), ("h", "8"), ("i", "9"), ("j", "10"), ("A", "11"), ("aa", "12")]];

/// "<kind> <target> <anchor> <description> <properties>" as numbers
fn link_case(f: &[usize]) -> Check {
    let (kind, (target, path, scheme, local), anchor, desc, props) = (KINDS[f[0]], TARGETS[f[1]], ANCHORS[f[2]], DESCS[f[3]], PROPS[f[4]]);
    let tail: String = anchor.iter().map(|a| format!("#{}", a)).collect();
    let mut inner = format!("{}{}", target, tail);
    if let Some(d) = desc {
        inner.push_str(&format!("|{}", d));
    }
    if !props.is_empty() {
        inner.push('|');
        inner.push_str(&props.iter().map(|(k, v)| format!("{}=\"{}\"", k, v)).collect::<Vec<_>>().join(" "));
    }
    let text = match kind {
        "wiki" => format!("[[{}]]", inner),
        "transclusion" => format!("{{{{{}}}}}", inner),
        k => format!("[[{}{}]]", k, inner),
    };
    let ctx = format!("x {} y", text);
    let p = parse(&ctx)?;
    let mut links = vec![];
    let mut others = vec![];
    for b in &p.elements {
        match b.as_inner() {
            BlockElement::Paragraph(x) => {
                for l in x.lines.iter() {
                    for e in l.iter() {
                        match e.as_inner() {
                            InlineElement::Link(l) => links.push((l, e.region())),
                            o => others.push(o.to_string()),
                        }
                    }
                }
            }
            _ => return Err(format!("{:?} is no paragraph", ctx)),
        }
    }
    if links.len() != 1 || others != ["x ", " y"] {
        return Err(format!("{:?} has {} links and the texts {:?}", ctx, links.len(), others));
    }
    let (l, r) = links[0];
    if (r.offset(), r.len()) != (2, text.len()) {
        return Err(format!("the link's region is {:?}", r));
    }
    let d = l.data();
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            match ($got, $want) {
                (g, w) => {
                    if g != w {
                        return Err(format!("{:?}: {} is {:?}, expected {:?}", text, $what, g, w));
                    }
                }
            }
        }};
    }
    // kind
    let got = match l {
        Link::Wiki { .. } => "wiki".to_string(),
        Link::IndexedInterWiki { index, .. } => format!("wiki{}:", index),
        Link::NamedInterWiki { name, .. } => format!("wn.{}:", name),
        Link::Diary { date, .. } => format!("diary:{}", date),
        Link::Raw { .. } => "raw".into(),
        Link::Transclusion { .. } => "transclusion".into(),
    };
    same!("kind", got, kind);
    let digits = kind.strip_prefix("wiki").and_then(|k| k.strip_suffix(':')).and_then(|k| k.parse::<u32>().ok());
    same!("index", l.index(), digits);
    same!("name", l.name(), kind.strip_prefix("wn.").and_then(|k| k.strip_suffix(':')));
    same!("date", l.date().map(|d| d.to_string()), kind.strip_prefix("diary:").map(|d| d.to_string()));
    // target
    let whole = format!("{}{}", target.replace("%20", " "), tail);
    same!("decoded uri", d.to_decoded_uri_string(), whole.clone());
    same!("scheme", d.scheme().map(|s| s.to_string()), (!scheme.is_empty()).then(|| scheme.to_string()));
    same!("scheme", l.scheme().map(|s| s.to_string()), (!scheme.is_empty()).then(|| scheme.to_string()));
    same!("is_local", d.is_local(), local);
    same!("is_remote", d.is_remote(), !local);
    same!("is_local_anchor", d.is_local_anchor(), (target.is_empty() || target == "/") && !anchor.is_empty());
    if let Some(p) = path {
        if !p.is_empty() {
            same!("is_path_dir", d.is_path_dir(), p.ends_with('/'));
        }
        let got = d.to_path_buf();
        let got = PathBuf::from(LinkData::decode_uri(got.to_str().ok_or("path is no text")?));
        same!("to_path_buf", got.components().collect::<Vec<_>>(), PathBuf::from(p).components().collect::<Vec<_>>());
    }
    // anchor
    same!("has_anchor", (d.has_anchor(), l.has_anchor()), (!anchor.is_empty(), !anchor.is_empty()));
    for a in [d.to_anchor(), l.to_anchor()] {
        let got = a.map(|a| a.into_iter().map(|x| LinkData::decode_uri(x.as_bytes())).collect::<Vec<String>>());
        same!("to_anchor", got, (!anchor.is_empty()).then(|| anchor.iter().map(|a| a.to_string()).collect::<Vec<_>>()));
    }
    same!("fragment_str", d.fragment_str().is_some(), !anchor.is_empty());
    // description
    let is_link = desc.map_or(false, |d| d.starts_with("{{") && d.ends_with("}}"));
    match (l.description(), desc) {
        (None, None) => {}
        (Some(Description::Text(t)), Some(w)) if !is_link => same!("description", t.as_ref(), w),
        (Some(Description::TransclusionLink(x)), Some(w)) if is_link => {
            let alone = parse(w)?;
            let t = tree::page(&alone).strip();
            let k = &t.kids[0].kids[0].kids[0];
            let mut other = tree::link(&Link::Transclusion { data: (**x).clone() });
            other.region = None;
            same!("link in the description", other.strip().show(), k.show());
        }
        (g, w) => return Err(format!("{:?}: the description is {:?}, expected {:?}", text, g, w)),
    }
    let fallback = l.to_description_or_fallback();
    let want = match (desc, kind) {
        (Some(_), _) => l.description().cloned(),
        (None, "transclusion") => None,
        (None, k) if k.starts_with("diary") => Some(Description::from(k.to_string())),
        _ => Some(Description::from(whole)),
    };
    same!("to_description_or_fallback", fallback, want);
    // properties
    let mut got: Vec<(&str, &str)> = l.properties().into_iter().flatten().map(|(k, v)| (k.as_ref(), v.as_ref())).collect();
    got.sort();
    let mut want = props.to_vec();
    want.sort();
    same!("properties", got, want);
    for (k, v) in props {
        same!("get_property_str", d.get_property_str(k), Some(*v));
    }
    same!("get_property_str of another", d.get_property_str("none"), None);
    // taken apart
    same!("into_data", &l.clone().into_data(), d);
    same!("into_description", l.clone().into_description().as_ref(), l.description());
    same!("into_properties", l.clone().into_properties().as_ref(), l.properties());
    same!("to_borrowed", &l.to_borrowed(), l);
    same!("into_owned", &l.clone().into_owned(), l);
    // made by hand
    if props.is_empty() && anchor.len() < 2 {
        let uri = d.uri_ref.clone();
        let de = l.description().cloned();
        let made = match l {
            Link::Wiki { .. } => Link::new_wiki_link(uri.clone(), de.clone()),
            Link::IndexedInterWiki { index, .. } => Link::new_indexed_interwiki_link(*index, uri.clone(), de.clone()),
            Link::NamedInterWiki { name, .. } => Link::new_named_interwiki_link(name.clone(), uri.clone(), de.clone()),
            Link::Diary { date, .. } => Link::new_diary_link(*date, de.clone(), (!anchor.is_empty()).then(|| Anchor::new(anchor.iter().map(|a| std::borrow::Cow::from(a.to_string())).collect()))),
            Link::Raw { .. } => Link::new_raw_link(uri.clone()),
            Link::Transclusion { .. } => Link::new_transclusion_link(uri.clone(), de.clone(), None),
        };
        // an anchor of a diary link may be encoded in another way
        if kind.starts_with("diary") {
            same!("link made by hand", made.to_anchor().map(|a| a.iter().map(|x| LinkData::decode_uri(x.as_bytes())).collect::<Vec<_>>()), (!anchor.is_empty()).then(|| anchor.iter().map(|a| a.to_string()).collect::<Vec<_>>()));
            same!("date of a link made by hand", made.date(), l.date());
            same!("description of a link made by hand", made.description(), l.description());
        } else {
            same!("link made by hand", &made, l);
            let s = uri.to_string();
            let tried = match l {
                Link::Wiki { .. } => Link::try_new_wiki_link(s.as_str(), de),
                Link::IndexedInterWiki { index, .. } => Link::try_new_indexed_interwiki_link(*index, s.as_str(), de),
                Link::NamedInterWiki { name, .. } => Link::try_new_named_interwiki_link(name.clone(), s.as_str(), de),
                Link::Transclusion { .. } => Link::try_new_transclusion_link(s.as_str(), de, None),
                _ => Link::try_new_raw_link(s.as_str()),
            };
            same!("link tried by hand", tried.map_err(|_| "an error"), Ok::<Link, &str>(l.clone()));
        }
    }
    Ok(seen(&f.to_vec()))
}

const SCHEMES: [&str; 9] = ["http", "https", "ftp", "file", "local", "mailto", "HTTP", "ssh", "x"];
const RESTS: [&str; 10] = ["//h", "//h/p", "//h/p?q=1&r", "//h:80/p#f", "a@b.c", "/x/y", "a%20b", "//h/(p)", "//u:p@h/", "//h/p,q;r'"];
const BEFORE: [&str; 12] = ["", "x ", "x\n", "(", "x", "x\t", "é ", "x y\t\t", "x \t ", "*b* ", "[[p]]\t", "x\r\n"];
const AFTER: [&str; 8] = ["", " y", "\ny", "  y", "\ty", "\r\ny", " *b*", "\t[[p]]"];
fn raw_case(f: &[usize]) -> Check {
    let (s, rest, before, after) = (SCHEMES[f[0]], RESTS[f[1]], BEFORE[f[2]], AFTER[f[3]]);
    let uri = format!("{}:{}", s, rest);
    let text = format!("{}{}{}", before, uri, after);
    let p = parse(&text)?;
    let t = tree::page(&p);
    let mut found = vec![];
    t.walk(&mut |n| {
        if n.kind == "link" && !n.attrs.iter().any(|(k, v)| k == "uri" && v == "p") {
            found.push((n.attrs.clone(), n.region));
        }
    });
    let known = ["http", "https", "ftp", "file", "local", "mailto"].contains(&s.to_lowercase().as_str());
    let free = before != "x" && before != "(";
    if !free {
        // whether a link may follow other text directly is left to P14
        return Ok(trivial(&0));
    }
    let want: usize = known as usize;
    if found.len() != want {
        return Err(format!("{:?} has {} raw links, expected {}", text, found.len(), want));
    }
    if known {
        let attrs = &found[0].0;
        let kind = attrs.iter().any(|(k, v)| k == "kind" && v == "raw");
        let u = attrs.iter().find(|(k, _)| k == "uri").map(|x| x.1.clone()).unwrap_or_default();
        let (o, l, _) = found[0].1.unwrap_or_default();
        if !kind || u.to_lowercase().trim_end_matches('/') != uri.to_lowercase().trim_end_matches('/') || (o, l) != (before.len(), uri.len()) {
            return Err(format!("{:?} is read as {:?}", text, found));
        }
    }
    Ok(seen(&(s, rest, f[2], f[3])))
}

pub struct LinkParts;
impl Prop for LinkParts {
    fn id(&self) -> &'static str {
        "P15"
    }
    fn rule(&self) -> &'static str {
        "every combination of kind, target, anchor, description and properties is one link within a line of text; its data and every accessor are compared with its parts; non-trivial when it is a link"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["text as decoded from percent encoding; properties only where the syntax has them"]
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut c = vec![];
        for (k, kind) in KINDS.iter().enumerate() {
            for t in 0..TARGETS.len() {
                for a in 0..ANCHORS.len() {
                    let diary = kind.starts_with("diary");
                    let plain = *kind == "wiki" || *kind == "transclusion";
                    if diary && t > 0 || !plain && TARGETS[t].1.is_none() || !diary && TARGETS[t].0.is_empty() && a == 0 {
                        continue;
                    }
                    for d in 0..DESCS.len() {
                        // a transclusion ends at the first }}
                        if *kind == "transclusion" && DESCS[d].map_or(false, |d| d.contains("}}")) {
                            continue;
                        }
                        for p in 0..PROPS.len() {
                            if p > 0 && (!plain || DESCS[d].is_none()) {
                                continue;
                            }
                            if tier == Tier::Quick && p > 2 && (a + d + t) % 3 != 0 {
                                continue;
                            }
                            c.push(format!("{} {} {} {} {}", k, t, a, d, p));
                        }
                    }
                }
            }
        }
        let mut r = vec![];
        for s in 0..SCHEMES.len() {
            for x in 0..RESTS.len() {
                for b in 0..BEFORE.len() {
                    for a in 0..AFTER.len() {
                        r.push(format!("raw {} {} {} {}", s, x, b, a));
                    }
                }
            }
        }
        vec![cases("links of all parts", c), cases("raw links", r)]
    }
    fn check(&self, case: &str) -> Check {
        let n = |s: &str| s.split(' ').map(|x| x.parse().unwrap()).collect::<Vec<usize>>();
        match case.strip_prefix("raw ") {
            Some(r) => raw_case(&n(r)),
            None => link_case(&n(case)),
        }
    }
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(LinkParts)]
}
