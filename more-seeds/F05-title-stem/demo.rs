use vimwiki::*;
use std::path::PathBuf;
fn main() { let p = Language::from_vimwiki_str("a").parse::<Page>().unwrap();
 let mut c = HtmlConfig { wikis: vec![HtmlWikiConfig { path: PathBuf::from("/w"), path_html: PathBuf::from("/h"), ..Default::default() }], ..Default::default() };
 c.template.text = "%title%".into();
 c.runtime = HtmlRuntimeConfig { wiki_index: Some(0), page: PathBuf::from("/w/v1.2.wiki") };
 assert_eq!(p.to_html_page(c).unwrap(), "v1.2"); }