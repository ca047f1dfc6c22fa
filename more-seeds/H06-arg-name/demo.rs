use vimwiki::macros::*;
use vimwiki::*;
fn main() { let t: Page = vimwiki_page_raw_format!("{x} {xy}", xy = "long", x = "short"); assert_eq!(t.to_vimwiki_string(VimwikiConfig::default()).unwrap().trim(), "short long"); }