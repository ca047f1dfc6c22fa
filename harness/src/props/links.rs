//! Where links lead (P20), templates (P21), wikis and paths (P22), todo progress (P23).
use super::html::{dashed, decoded};
use super::*;
use crate::dom;
use std::path::{Component, Path, PathBuf};

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(P20), Box::new(P21), Box::new(P22), Box::new(P23)]
}

/// Absolute path as text without `.` and `..`
fn clean(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
/// What a browser makes of a reference found in the file `base`
fn browse(base: &str, href: &str) -> Result<(String, Option<String>), String> {
    let (path, frag) = match href.split_once('#') {
        Some((a, b)) => (a, Some(decoded(b))),
        None => (href, None),
    };
    let path = path.split('?').next().unwrap();
    if path.is_empty() {
        return Ok((clean(base), frag));
    }
    if path.split('/').next().unwrap().contains(':') {
        return Err(format!("{:?} is not relative", href));
    }
    for c in path.chars() {
        if c <= ' ' || "\"<>\\^`{|}".contains(c) {
            return Err(format!("{:?} has the invalid character {:?}", href, c));
        }
    }
    if path.starts_with("//") {
        return Err(format!("{:?} leads to another host", href));
    }
    let p = decoded(path);
    Ok((if path.starts_with('/') { clean(&p) } else { clean(&format!("{}/../{}", base, p)) }, frag))
}

struct W {
    path: &'static str,
    html: &'static str,
    name: Option<&'static str>,
    ext: &'static str,
    diary: &'static str,
}
const fn w(path: &'static str, html: &'static str, name: Option<&'static str>) -> W {
    W { path, html, name, ext: "wiki", diary: "diary" }
}
const SITES: &[&[W]] = &[
    &[w("/w/one", "/h/one", None), w("/w/two", "/h/two", Some("two"))],
    &[w("/w", "/h", Some("n s")), w("/w/sub", "/h2/x/deep", Some("s.b"))],
    &[W { path: "/w/one", html: "/w/one/html", name: Some("a"), ext: "md", diary: "journal/days" }, w("/w/two", "/w/one/html/two", Some("a"))],
    &[w("/w w/é#1", "/h h/q?a:b", Some("é")), W { path: "/w%41/t", html: "/h h/[t]", name: Some("t"), ext: "wiki", diary: "my diary" }],
    &[w("/w/a", "/h/a", Some("x ")), w("/w/b", "/h/b", Some("x")), w("/w/c", "/h/c", Some("X"))],
    &[w("/w/a", "/out", Some("x")), w("/w/b", "/out", Some("y")), w("/w/c", "/", Some("z"))],
];
const PAGES: &[&str] = &["index", "a/b", "a b/c d", "d/e/f", "x:y/z", "v1.2", "diary/2021-01-02", "é/ü"];
const TARGETS: &[&str] = &["a", "b c", "a/b", "../a", "./a", "../../a", "../../../../a", "é", "v1.2", "a.b/c.d", "a.wiki", "a/", "a/b/", "../", "/a", "/a/b", "/a b/c d", "/v1.2", "/a/", "diary/2021-01-02", "d/y:z", "a/../b", "a//b", "index", "a%20b", "A", "a.md", "a_b-c~d", "a(b)", "a'b", "a&b", "a+b=c", "日本"];
const FILES: &[&str] = &["i.png", "/i.png", "../i.png", "a b/i j.jpg", "noext", "v1.2.png", "/x/y.tar.gz", "é.svg", "./i.png", "a/../i.gif", "../../i.png"];
const ANCHORS: &[&str] = &["", "#h", "#H x", "#a#b", "#é Ü", "#a b#C d#e", "#1.2_3~4", "#tag-x"];
const REMOTE: &[&str] = &["https://a.b/c?d=e#f", "http://a.b/", "mailto:x@y.z", "ftp://a/b", "https://a.b/c.wiki"];

pub struct P20;
impl Prop for P20 {
    fn id(&self) -> &'static str {
        "P20"
    }
    fn rule(&self) -> &'static str {
        "every combination of the stated sites (sets of wikis), pages and links is one case: the page is converted and the address written for the link is resolved as a browser does from the output file; non-trivial when the link leads to another place than the page"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut v = vec![];
        let mut links: Vec<String> = vec![];
        for t in TARGETS {
            for a in ANCHORS {
                links.push(format!("w\t{}\t{}", t, a));
                for p in ["0", "1", "2", "9"] {
                    links.push(format!("i{}\t{}\t{}", p, t, a));
                }
                for n in ["two", "n s", "s.b", "a", "é", "t", "x", "y", "z", "X", "Two", "nobody"] {
                    if tier == Tier::Thorough || a.len() < 3 {
                        links.push(format!("n{}\t{}\t{}", n, t, a));
                    }
                }
            }
        }
        for a in ANCHORS {
            if !a.is_empty() {
                links.push(format!("w\t\t{}", a));
            }
            links.push(format!("i1\t\t{}", a));
            for d in ["2021-01-02", "1999-12-31"] {
                links.push(format!("d\t{}\t{}", d, a));
            }
        }
        for f in FILES {
            for k in ["t", "tfile:", "tlocal:", "ffile:", "flocal:"] {
                links.push(format!("{}\t{}\t", k, f));
            }
        }
        for r in REMOTE {
            links.push(format!("r\t{}\t", r));
            links.push(format!("R\t{}\t", r));
            links.push(format!("t\t{}\t", r));
        }
        let mut c = vec![];
        for s in 0..=SITES.len() {
            for i in 0..SITES.get(s).map_or(1, |x| x.len()) {
                for p in 0..PAGES.len() {
                    for l in &links {
                        c.push(format!("{}\t{}\t{}\t{}", s, i, p, l));
                    }
                }
            }
        }
        v.push(cases("sites x pages x links", c));
        v
    }
    fn check(&self, case: &str) -> Check {
        let f: Vec<&str> = case.split('\t').collect();
        let (s, i, page): (usize, usize, &str) = (f[0].parse().unwrap(), f[1].parse().unwrap(), PAGES[f[2].parse::<usize>().unwrap()]);
        let (kind, target, anchor) = (f[3], f[4], f[5]);
        let mut c = HtmlConfig::default();
        let wikis: &[W] = SITES.get(s).copied().unwrap_or(&[]);
        for w in wikis {
            c.wikis.push(HtmlWikiConfig { path: w.path.into(), path_html: w.html.into(), name: w.name.map(|x| x.to_string()), ext: w.ext.into(), diary_rel_path: w.diary.into(), ..Default::default() });
        }
        // no wiki: the page is a wiki of its own
        let own = HtmlWikiConfig::default_path_html();
        let (root, html_root, ext, diary) = match wikis.get(i) {
            Some(w) => (w.path.to_string(), w.html.to_string(), w.ext, w.diary),
            None => ("/lone".to_string(), own.to_str().unwrap().to_string(), "wiki", "diary"),
        };
        let page_file = format!("{}/{}.{}", root, page, ext);
        c.runtime = HtmlRuntimeConfig { wiki_index: if wikis.is_empty() { None } else { Some(i) }, page: PathBuf::from(&page_file) };
        let within = if wikis.is_empty() { page.rsplit('/').next().unwrap() } else { page };
        let base = format!("{}/{}.html", html_root, within);
        let dir = format!("{}/..", base);
        let md = |p: &str, ext: &str| -> String {
            // the page a target names, as a file of the output
            if p.ends_with('/') {
                format!("{}index.html", p)
            } else {
                format!("{}.html", p.strip_suffix(&format!(".{}", ext)).unwrap_or(p))
            }
        };
        let (src, want): (String, Option<String>) = match &kind[..1] {
            "w" if target.is_empty() => (format!("[[{}]]", anchor), Some(clean(&base))),
            "w" => (format!("[[{}{}]]", target, anchor), Some(if target.starts_with('/') { clean(&format!("{}/{}", html_root, md(&decoded(target), ext))) } else { clean(&format!("{}/{}", dir, md(&decoded(target), ext))) })),
            "i" | "n" => {
                let (src, to) = if &kind[..1] == "i" {
                    (format!("[[wiki{}:{}{}]]", &kind[1..], target, anchor), wikis.get(kind[1..].parse::<usize>().unwrap()))
                } else {
                    (format!("[[wn.{}:{}{}]]", &kind[1..], target, anchor), wikis.iter().find(|w| w.name == Some(&kind[1..])))
                };
                if target.is_empty() {
                    // what an anchor of a wiki means is not defined
                    return Ok(trivial(&0));
                }
                (src, to.map(|w| clean(&format!("{}/{}", w.html, md(&decoded(target), w.ext)))))
            }
            "d" => (format!("[[diary:{}{}]]", target, anchor), Some(clean(&format!("{}/{}/{}.html", html_root, diary, target)))),
            "t" if target.contains("://") || target.starts_with("mailto") => (format!("{{{{{}}}}}", target), Some(target.to_string())),
            "t" | "f" => {
                let src = if &kind[..1] == "t" { format!("{{{{{}{}}}}}", &kind[1..], target) } else { format!("[[{}{}]]", &kind[1..], target) };
                (src, Some(if target.starts_with('/') { clean(&format!("{}/{}", html_root, target)) } else { clean(&format!("{}/{}", dir, target)) }))
            }
            "r" => (format!("[[{}|d]]", target), Some(target.to_string())),
            "R" => (format!("a {} b", target), Some(target.to_string())),
            _ => unreachable!(),
        };
        let text = format!("{}\n", src);
        let p = parse(&text)?;
        let r = imp("html output", || p.to_html_string(c.clone()))?;
        let want = match want {
            None => return if r.is_err() { Ok(seen(&1)) } else { Err(format!("{} leads to a wiki that does not exist, but becomes {:?}", src, r.ok())) },
            Some(w) => w,
        };
        let h = r.map_err(|e| format!("{} in {}: html output failed: {}", src, page_file, e))?;
        let d = dom::parse(&h).map_err(|e| format!("{}\nhtml {:?}", e, h))?;
        let mut got = None;
        for x in &d {
            x.walk(&mut |x| {
                if let Some(a) = x.attr("href").or(x.attr("src")) {
                    got = Some(a.to_string());
                }
            });
        }
        let got = got.ok_or_else(|| format!("{} became no link: {}", src, h))?;
        let remote = matches!(&kind[..1], "r" | "R") || want.contains("://") || want.starts_with("mailto");
        if remote {
            return if got == want { Ok(seen(&got)) } else { Err(format!("{} leads to {:?}", src, got)) };
        }
        let (to, frag) = browse(&base, &got).map_err(|e| format!("{} in {}: {}", src, page_file, e))?;
        if to != want {
            return Err(format!("{} in {} leads from {} by {:?} to {:?} instead of {:?}", src, page_file, base, got, to, want));
        }
        let want_frag = if anchor.is_empty() { None } else { Some(anchor[1..].split('#').map(dashed).collect::<Vec<_>>().join("-")) };
        if frag != want_frag {
            return Err(format!("{} in {} becomes {:?}, so leads to the part {:?} instead of {:?}", src, page_file, got, frag, want_frag));
        }
        Ok(seen(&(got, want)))
    }
}

// ---------------------------------------------------------------- P21
/// Directory with templates, removed at exit of the process that made it
fn template_dir() -> &'static Path {
    static D: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let d = PathBuf::from(format!("{}/target/templates", std::env::var("VWMC_ROOT").unwrap_or("/verif".into())));
        std::fs::create_dir_all(d.join("sub")).unwrap();
        for (n, t) in TEMPLATES {
            let f = d.join(n);
            if std::fs::read_to_string(&f).ok().as_deref() != Some(t) {
                std::fs::write(f, t).unwrap();
            }
        }
        d
    })
}
const TEMPLATES: &[(&str, &str)] = &[("t1", "1[%title%|%content%]"), ("t2.tpl", "2%date%%date%"), ("sub/t3", "%content%3%content%"), ("empty", "")];
pub struct P21;
impl Prop for P21 {
    fn id(&self) -> &'static str {
        "P21"
    }
    fn rule(&self) -> &'static str {
        "every combination of template (all token sequences up to the stated depth), page text (with and without placeholders and hostile titles) and location is one case; non-trivial when the template has a variable"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let bodies = ["", "Q *b*\n", "%title T & <b> \"q\"\nQ\n", "%title %content% %title%\n%content%\n", "%date 2021-03-04\nQ %root_path%\n", "%title a\n%title b\nQ\n", "Q\n%date 2021-03-04\n%date 2022-05-06\n%title late\n", "%nohtml\nQ\n", "%other %title%\nQ\n", "%template t1\n%title x\nQ %title%\n", "%template t2.tpl\n%date 2020-02-29\nQ\n", "%template sub/t3\nQ\n", "%template none\nQ\n", "%template t1\n%template empty\nQ\n", "= %title% =\n", "{{{\n%content%\n}}}\n", "%% %title%\n"];
        let tokens = ["%title%", "%date%", "%root_path%", "%wiki_path%", "%css%", "%encoding%", "%content%", "%", "é", "<a href=\"", "%title", "%foo%", "%TITLE%", " %content% "];
        let places = ["0:/w/one/index.wiki", "0:/w/one/a/b c/d.wiki", "1:/w/two/é/x.y.wiki", "-:/tmp/lone page.wiki"];
        let mut c = vec![];
        let depth = tier.pick(3, 4);
        let mut seqs: Vec<String> = vec![String::new()];
        let mut last: Vec<String> = vec![String::new()];
        for _ in 0..depth {
            let mut n = vec![];
            for s in &last {
                for t in tokens {
                    n.push(format!("{}{}", s, t));
                }
            }
            seqs.extend(n.iter().cloned());
            last = n;
        }
        for (k, s) in seqs.iter().enumerate() {
            for (b, body) in bodies.iter().enumerate() {
                for (l, p) in places.iter().enumerate() {
                    // longer templates meet each body in one place
                    if k < 15 * 14 + 1 || (k + b) % places.len() == l {
                        c.push(format!("{}\u{1}{}\u{1}{}", p, body, s));
                    }
                }
            }
        }
        vec![cases("templates x pages x places", c)]
    }
    fn check(&self, case: &str) -> Check {
        let f: Vec<&str> = case.split('\u{1}').collect();
        let (place, body, template) = (f[0], f[1], f[2]);
        let (idx, file) = place.split_once(':').unwrap();
        let mut c = HtmlConfig::default();
        c.wikis.push(HtmlWikiConfig { path: "/w/one".into(), path_html: "/h/one".into(), css_name: "one.css".into(), ..Default::default() });
        c.wikis.push(HtmlWikiConfig { path: "/w/two".into(), path_html: "/h/two".into(), css_name: "a/two.css".into(), ..Default::default() });
        c.runtime = HtmlRuntimeConfig { wiki_index: idx.parse().ok(), page: file.into() };
        c.template.text = template.to_string();
        c.template.dir = template_dir().to_path_buf();
        let p = parse(body)?;
        let t = tree::page(&p);
        let before = chrono_today();
        let r = imp("html page", || p.to_html_page(c.clone()))?;
        let after = chrono_today();
        // the last placeholder of a kind counts
        let (mut title, mut date, mut tpl) = (None, None, None);
        for k in &t.kids {
            if k.kind == "placeholder" {
                match k.get("name") {
                    Some("title") => title = k.text.first().cloned(),
                    Some("date") => date = k.text.first().cloned(),
                    Some("template") => tpl = k.text.first().cloned(),
                    _ => {}
                }
            }
        }
        let template = match &tpl {
            Some(n) => match TEMPLATES.iter().find(|x| x.0 == n) {
                Some(x) => x.1,
                None => return if r.is_err() { Ok(seen(&1)) } else { Err(format!("the template {:?} does not exist, but the page becomes {:?}", n, r.ok())) },
            },
            None => template,
        };
        let got = r.map_err(|e| format!("html page failed: {}", e))?;
        let (root, css) = match idx {
            "0" => ("/w/one/", "one.css"),
            "1" => ("/w/two/", "a/two.css"),
            _ => ("/tmp/", "style.css"),
        };
        let within = file.strip_prefix(root).unwrap();
        let up = "../".repeat(within.matches('/').count());
        let stem = within.rsplit('/').next().unwrap().strip_suffix(".wiki").unwrap();
        let title = title.unwrap_or(stem.to_string()).replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&#x27;");
        let content = html(&p, c)?;
        let fill = |today: &str| {
            let mut out = String::new();
            let mut i = 0;
            'o: while i < template.len() {
                for (k, v) in [("%title%", title.as_str()), ("%date%", date.as_deref().unwrap_or(today)), ("%root_path%", &up), ("%wiki_path%", within), ("%css%", css), ("%encoding%", "utf-8"), ("%content%", &content)] {
                    if template[i..].starts_with(k) {
                        out.push_str(v);
                        i += k.len();
                        continue 'o;
                    }
                }
                let n = template[i..].chars().next().unwrap();
                out.push(n);
                i += n.len_utf8();
            }
            out
        };
        let unescape = |s: &str| s.replace("&#x27;", "'").replace("&#39;", "'");
        let want = fill(&before);
        if unescape(&got) != unescape(&want) && unescape(&got) != unescape(&fill(&after)) {
            return Err(format!("the page becomes {:?} instead of {:?}", got, want));
        }
        Ok(if got == template { trivial(&got) } else { seen(&got) })
    }
}
/// Today as YYYY-MM-DD, as the C library and not as the code under test sees it
fn chrono_today() -> String {
    chrono::Local::now().format("%Y-%m-%d").to_string()
}

// ---------------------------------------------------------------- P22
pub struct P22;
impl Prop for P22 {
    fn id(&self) -> &'static str {
        "P22"
    }
    fn rule(&self) -> &'static str {
        "every list of up to three wikis over the stated paths and names, with every page path, is one case; non-trivial when some wiki contains the page"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let roots = ["/", "/a", "/a/b", "/a/b/c", "/ab", "/a/bc", "/b", "/a b"];
        let names = ["", "n", "m", "N"];
        let pages = ["/a", "/a/p.wiki", "/a/b/p.wiki", "/a/b/c/p.q.wiki", "/a/b/c/d/e/p", "/ab/p.wiki", "/a/bc/p.wiki", "/p.wiki", "/b/a/p.wiki", "/a b/p q.wiki", "/c/é/p.wiki", "p.wiki", "a/p.wiki", "a/b/p.wiki", "../p.wiki", "./p.wiki"];
        let mut one = vec![];
        for (i, r) in roots.iter().enumerate() {
            for (j, n) in names.iter().enumerate() {
                if tier == Tier::Thorough || (i + j) % 2 == 0 {
                    one.push(format!("{}={}", r, n));
                }
            }
        }
        let mut lists: Vec<String> = vec![String::new()];
        lists.extend(one.iter().cloned());
        for a in &one {
            for b in &one {
                lists.push(format!("{};{}", a, b));
                for c in &one {
                    lists.push(format!("{};{};{}", a, b, c));
                }
            }
        }
        let mut v = vec![];
        for (k, l) in lists.iter().enumerate() {
            for (i, p) in pages.iter().enumerate() {
                if tier == Tier::Thorough || k % 4 == i % 4 || k < 64 {
                    v.push(format!("{}\t{}", l, p));
                }
            }
        }
        vec![cases("wikis x pages", v)]
    }
    fn check(&self, case: &str) -> Check {
        let (l, page) = case.split_once('\t').unwrap();
        let mut c = HtmlConfig::default();
        let mut ws: Vec<(&str, Option<&str>, String)> = vec![];
        for w in l.split(';').filter(|x| !x.is_empty()) {
            let (r, n) = w.split_once('=').unwrap();
            let n = if n.is_empty() { None } else { Some(n) };
            let out = format!("/out{}", ws.len());
            c.wikis.push(HtmlWikiConfig { path: r.into(), path_html: out.clone().into(), name: n.map(|x| x.to_string()), ..Default::default() });
            ws.push((r, n, out));
        }
        let comps = |p: &str| -> Vec<String> { p.split('/').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect() };
        let absolute = page.starts_with('/');
        let inside = |r: &str| absolute && comps(page).starts_with(&comps(r));
        // which wiki has the page
        let found = imp("find_wiki_index_by_path", || c.find_wiki_index_by_path(page))?;
        let best = ws.iter().filter(|w| inside(w.0)).map(|w| comps(w.0).len()).max();
        match (found, best) {
            (None, None) => {}
            (Some(i), Some(b)) if i < ws.len() && inside(ws[i].0) && comps(ws[i].0).len() == b => {}
            _ => return Err(format!("the wiki of {:?} is {:?}", page, found)),
        }
        if c.find_wiki_by_path(page).map(|w| w.path_html.clone()) != found.map(|i| c.wikis[i].path_html.clone()) {
            return Err("find_wiki_by_path disagrees with find_wiki_index_by_path".into());
        }
        for n in ["n", "m", "N", "x", ""] {
            let want = ws.iter().position(|w| w.1 == Some(n));
            let got = imp("find_wiki_index_by_name", || c.find_wiki_index_by_name(n))?;
            if got != want || c.find_wiki_by_name(n).map(|w| w.path_html.clone()) != want.map(|i| c.wikis[i].path_html.clone()) {
                return Err(format!("the wiki of name {:?} is {:?} instead of {:?}", n, got, want));
            }
        }
        for i in 0..4 {
            if c.find_wiki_by_index(i).map(|w| w.path_html.clone()) != ws.get(i).map(|w| PathBuf::from(&w.2)) {
                return Err(format!("the wiki of index {} is {:?}", i, c.find_wiki_by_index(i)));
            }
        }
        // paths of the page in each wiki
        for (i, w) in ws.iter().enumerate() {
            let wiki = &c.wikis[i];
            let rest = comps(page)[if inside(w.0) { comps(w.0).len() } else { 0 }..].to_vec();
            let within = imp("path_within", || wiki.path_within(Path::new(page)).map(|p| p.to_str().unwrap().to_string()))?;
            let want = if inside(w.0) { Some(rest.join("/")) } else { None };
            if within != want {
                return Err(format!("path of {:?} within {:?} is {:?} instead of {:?}", page, w.0, within, want));
            }
            let up = imp("path_to_root", || wiki.path_to_root(page).map(|p| p.to_str().unwrap().to_string()))?;
            let want = if inside(w.0) && !rest.is_empty() { Some(vec![".."; rest.len() - 1].join("/")) } else { None };
            if up != want {
                return Err(format!("path from {:?} to the root {:?} is {:?} instead of {:?}", page, w.0, up, want));
            }
            if rest.is_empty() || page.starts_with('.') {
                continue;
            }
            for ext in ["html", "x"] {
                let out = imp("make_output_path", || wiki.make_output_path(Path::new(page), ext))?;
                let mut want = comps(&w.2);
                want.extend(rest.iter().cloned());
                let last = want.pop().unwrap();
                want.push(format!("{}.{}", last.rsplit_once('.').map_or(last.as_str(), |x| x.0), ext));
                if comps(out.to_str().unwrap()) != want || !out.is_absolute() {
                    return Err(format!("output of {:?} in {:?} is {:?} instead of {:?}", page, w.0, out, want));
                }
            }
        }
        // the page that is converted
        if absolute && comps(page).len() > 1 {
            c.runtime = HtmlRuntimeConfig { wiki_index: found, page: page.into() };
            let root = match found {
                Some(i) => comps(ws[i].0),
                None => comps(page)[..comps(page).len() - 1].to_vec(),
            };
            let rest = comps(page)[root.len()..].to_vec();
            let cur = imp("to_current_wiki", || c.to_current_wiki())?;
            if comps(cur.path.to_str().unwrap()) != root || found.map_or(false, |i| cur.path_html != c.wikis[i].path_html) {
                return Err(format!("the current wiki of {:?} is {:?}", page, cur));
            }
            if c.find_active_wiki().map(|w| w.path_html.clone()) != found.map(|i| c.wikis[i].path_html.clone()) {
                return Err(format!("the active wiki of {:?} is {:?}", page, c.find_active_wiki()));
            }
            if !rest.is_empty() {
                let p = imp("as_active_page_path_within_wiki", || c.as_active_page_path_within_wiki().to_path_buf())?;
                if comps(p.to_str().unwrap()) != rest || p.is_absolute() {
                    return Err(format!("path of {:?} within its wiki is {:?} instead of {:?}", page, p, rest));
                }
                let p = imp("to_active_page_path_to_wiki_root", || c.to_active_page_path_to_wiki_root())?;
                if p.components().count() != rest.len() - 1 || p.components().any(|c| c != Component::ParentDir) {
                    return Err(format!("path of {:?} to its wiki's root is {:?}", page, p));
                }
            }
        }
        Ok(if best.is_some() { seen(&(found, page)) } else { trivial(&0) })
    }
}

// ---------------------------------------------------------------- P23
pub struct P23;
const STATUS: &[&str] = &["", "[ ] ", "[.] ", "[o] ", "[O] ", "[X] ", "[-] "];
/// all forests of n nodes as lists of depths
fn forests(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![0]];
    for _ in 1..n {
        let mut w = vec![];
        for f in v {
            for d in 0..=f.last().unwrap() + 1 {
                let mut g = f.clone();
                g.push(d);
                w.push(g);
            }
        }
        v = w;
    }
    v
}
#[derive(Debug)]
struct Todo {
    status: Option<usize>,
    kids: Vec<Todo>,
}
impl Todo {
    /// in percent, as the documentation states it
    fn progress(&self) -> Option<f64> {
        let v: Vec<f64> = self.kids.iter().filter_map(|k| k.progress()).collect();
        if !v.is_empty() {
            return Some(v.iter().sum::<f64>() / v.len() as f64);
        }
        match self.status {
            Some(i) if i < 5 => Some(i as f64 * 0.25),
            _ => None,
        }
    }
}
fn read_todos(lines: &[(usize, Option<usize>)]) -> Vec<Todo> {
    let mut out = vec![];
    let mut i = 0;
    while i < lines.len() {
        let mut j = i + 1;
        while j < lines.len() && lines[j].0 > lines[i].0 {
            j += 1;
        }
        out.push(Todo { status: lines[i].1, kids: read_todos(&lines[i + 1..j]) });
        i = j;
    }
    out
}
impl Prop for P23 {
    fn id(&self) -> &'static str {
        "P23"
    }
    fn rule(&self) -> &'static str {
        "every forest of up to the stated number of list items with every assignment of todo states is one case (written as vimwiki text); non-trivial when an item has a state"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let mut v = vec![];
        let statuses = |n: usize, m: usize| {
            let mut v: Vec<Vec<usize>> = vec![vec![]];
            for _ in 0..n {
                v = v.iter().flat_map(|x| (0..m).map(move |s| x.iter().cloned().chain([s]).collect())).collect();
            }
            v
        };
        for n in 1..=tier.pick(4, 5) {
            for f in forests(n) {
                for st in statuses(n, STATUS.len()) {
                    v.push(f.iter().zip(&st).map(|(d, s)| format!("{}- {}x\n", "  ".repeat(*d), STATUS[*s])).collect::<String>());
                }
            }
        }
        let mut w = vec![];
        // an item may have several sublists, and text between them
        for (a, b) in [("", ""), ("  - ", "  1. "), ("  - ", "  text\n  - "), ("  # ", "  > q\n  # "), ("  * ", "  - ")] {
            if a.is_empty() {
                continue;
            }
            for st in statuses(5, STATUS.len()) {
                if tier == Tier::Quick && st[4] % 3 != 2 {
                    continue;
                }
                w.push(format!("- {}x\n{}{}x\n{}{}x\n{}{}x\n- {}x\n", STATUS[st[0]], a, STATUS[st[1]], a, STATUS[st[2]], b, STATUS[st[3]], STATUS[st[4]]));
            }
        }
        // many items
        let mut m = vec![];
        for n in [6, 7, 8, 9, 10, 16, 33, 100, 127, 128, 255, 256, 257, 300, 512] {
            for s in 0..STATUS.len() {
                for t in 0..STATUS.len() {
                    m.push(format!("- [ ] x\n{}", (0..n).map(|i| format!("  - {}x\n", STATUS[if i % 3 == 0 { s } else { t }])).collect::<String>()));
                    m.push((0..n.min(10)).map(|i| format!("{}- {}x\n", "  ".repeat(i), STATUS[if i % 3 == 0 { s } else { t }])).collect::<String>());
                }
            }
        }
        for n in tier.pick(&[1000, 4096][..], &[1000, 4096, 32768, 65535, 65536, 65537]) {
            m.push(format!("- [ ] x\n{}", (0..*n).map(|i| format!("  - {}x\n", STATUS[i % STATUS.len()])).collect::<String>()));
        }
        vec![cases("forests of todo items", v), cases("several sublists", w), cases("many items", m)]
    }
    fn check(&self, case: &str) -> Check {
        let mut lines = vec![];
        for l in case.lines() {
            let t = l.trim_start();
            let d = (l.len() - t.len()) / 2;
            let body = ["- ", "* ", "# ", "1. "].iter().find_map(|m| t.strip_prefix(m));
            if let Some(b) = body {
                lines.push((d, STATUS.iter().enumerate().skip(1).find(|(_, s)| b.starts_with(**s)).map(|x| x.0 - 1)));
            }
        }
        let want = read_todos(&lines);
        let p = parse(case)?;
        fn items<'a>(b: impl Iterator<Item = &'a BlockElement<'a>>) -> Vec<&'a ListItem<'a>> {
            b.filter_map(|b| if let BlockElement::List(l) = b { Some(l) } else { None }).flat_map(|l| l.into_iter().map(|i| i.as_inner())).collect()
        }
        fn cmp(got: &[&ListItem], want: &[Todo]) -> Result<(), String> {
            if got.len() != want.len() {
                return Err(format!("{} items instead of {}", got.len(), want.len()));
            }
            for (g, w) in got.iter().zip(want) {
                let p = imp("compute_todo_progress", || g.compute_todo_progress())?;
                let same = match (p, w.progress()) {
                    (None, None) => true,
                    (Some(a), Some(b)) => (a as f64 - b).abs() < 1e-5,
                    _ => false,
                };
                if !same {
                    return Err(format!("the progress of {:?} is {:?} instead of {:?}", w, p, w.progress()));
                }
                let s = w.status;
                let is = [s.is_some(), s == Some(0), matches!(s, Some(1..=3)), s == Some(1), s == Some(2), s == Some(3), s == Some(4), s == Some(5)];
                let got = [g.is_todo(), g.is_todo_incomplete(), g.is_todo_partially_complete(), g.is_todo_partially_complete_1(), g.is_todo_partially_complete_2(), g.is_todo_partially_complete_3(), g.is_todo_complete(), g.is_todo_rejected()];
                if is != got {
                    return Err(format!("the state of {:?} is seen as {:?}", w, got));
                }
                cmp(&items(g.contents.iter().map(|x| x.as_inner())), &w.kids)?;
            }
            Ok(())
        }
        cmp(&items(p.elements.iter().map(|x| x.as_inner())), &want)?;
        // statuses survive formatting, so progress does
        let f = format(&p)?;
        let p2 = parse(&f)?;
        cmp(&items(p2.elements.iter().map(|x| x.as_inner())), &want).map_err(|e| format!("formatted as {:?}: {}", f, e))?;
        let flat: Vec<String> = want.iter().map(|t| format!("{:?}{:?}", t, t.progress())).collect();
        Ok(if lines.iter().any(|l| l.1.is_some()) { seen(&flat) } else { trivial(&flat) })
    }
}
