use vimwiki::*;
fn main() { let p = Language::from_vimwiki_str("====== h ======\n*b*\n").parse::<Page>().unwrap(); let h = p.to_html_string(HtmlConfig::default()).unwrap(); println!("{}", h); assert!(h.contains("id=\"h-b\"")); }