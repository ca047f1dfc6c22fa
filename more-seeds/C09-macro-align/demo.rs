use vimwiki::macros::*;
use vimwiki::*;
fn main() {
    let t: Located<Table> = vimwiki_table!("|a|b|\n|:--|--:|\n|c|d|");
    let v: Located<Table> = Language::from_vimwiki_str("|a|b|\n|:--|--:|\n|c|d|").parse().unwrap();
    assert!(t == v);
}
