
use vimwiki_core as vimwiki;
fn main() {
    let mk = |p: &str| vimwiki::HtmlWikiConfig { path: p.into(), ..Default::default() };
    let c = vimwiki::HtmlConfig { wikis: vec![mk("/home/wikis"), mk("/home/wikis/me")], ..Default::default() };
    assert_eq!(c.find_wiki_index_by_path("/home/wikis/me/c.wiki"), Some(1));
}
