use vimwiki::*;
fn main() { let p = Language::from_vimwiki_str("|a|b|\n|c|>|\n|-|-|\n|d|e|\n").parse::<Page>().unwrap(); let h = p.to_html_string(HtmlConfig::default()).unwrap(); println!("{}", h); assert!(h.contains("<th colspan=\"2\">c")); }