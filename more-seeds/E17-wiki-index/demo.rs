use vimwiki_wasm::*;
fn main() {
    for i in [0u32, 7, 65535, 65536, 70000, u32::MAX] {
        assert_eq!(Link::new_indexed_interwiki_link(i, "a", "d", None).ok().unwrap().wiki_index(), Some(i));
    }
}