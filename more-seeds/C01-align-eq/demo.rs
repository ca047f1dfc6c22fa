use vimwiki_core::*;
fn main() {
    let a: Page = Language::from_vimwiki_str("|a|b|\n|:--|--|\n|c|d|\n").parse().unwrap();
    let b: Page = Language::from_vimwiki_str("|a|b|\n|--:|--|\n|c|d|\n").parse().unwrap();
    assert!(a != b);
    assert!(a.strict_eq(&a.clone()));
    assert!(!a.strict_eq(&b));
}
