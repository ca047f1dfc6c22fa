use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() {
    let a = page("> a\n>\n> b\n"); let b = page("> a\r\n>\r\n> b\r\n");
    assert_eq!(a.elements.len(), 1);
    assert_eq!(a, b);
}