use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() {
    let p = page("  {{{\n\u{a0}x\n\x0cy\n  }}}\n");
    match p.elements[0].as_inner() { BlockElement::CodeBlock(c) => assert_eq!(c.lines, ["\u{a0}x", "\x0cy"]), x => panic!("{:?}", x) }
}