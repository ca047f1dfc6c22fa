use vimwiki::*;
use std::path::PathBuf;
fn main() { let p = Language::from_vimwiki_str("[[../]]").parse::<Page>().unwrap();
 let mut c = HtmlConfig { wikis: vec![HtmlWikiConfig { path: PathBuf::from("/w"), path_html: PathBuf::from("/h"), ..Default::default() }], ..Default::default() };
 c.runtime = HtmlRuntimeConfig { wiki_index: Some(0), page: PathBuf::from("/w/s/a.wiki") };
 let h = p.to_html_string(c).unwrap(); println!("{}", h); assert!(h.contains("../index.html\"")); }