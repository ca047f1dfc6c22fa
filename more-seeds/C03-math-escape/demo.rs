use vimwiki_core::*;
fn main() {
    let p: Page = Language::from_vimwiki_str("{{$\na <b & c\n}}$\n").parse().unwrap();
    let h = p.to_html_string(HtmlConfig::default()).unwrap();
    println!("{}", h);
    assert!(!h.contains("<b"));
}
