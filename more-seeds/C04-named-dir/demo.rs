use vimwiki_core::*;
fn main() {
    let mut c = HtmlConfig::default();
    for n in ["a", "b"].iter() {
        c.wikis.push(HtmlWikiConfig { name: Some(n.to_string()), path: format!("/w/{}", n).into(), path_html: format!("/h/{}", n).into(), ..Default::default() });
    }
    c.runtime.wiki_index = Some(0);
    c.runtime.page = "/w/a/p.wiki".into();
    let p: Page = Language::from_vimwiki_str("[[wn.b:dir/]] [[wn.b:/]] [[wn.b:x]]\n").parse().unwrap();
    let h = p.to_html_string(c).unwrap();
    println!("{}", h);
    assert!(h.contains("../b/dir/index.html"));
    assert!(h.contains("../b/x.html"));
}
