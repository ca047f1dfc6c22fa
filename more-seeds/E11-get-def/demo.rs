use vimwiki_wasm::*;
fn main() {
    let p = parse_vimwiki_str("t:: a\n:: b\n:: c\n").ok().unwrap();
    let l = p.element_at(0).unwrap().into_definition_list().unwrap();
    assert_eq!(l.get_def("t").unwrap().to_str(), "abc");
}