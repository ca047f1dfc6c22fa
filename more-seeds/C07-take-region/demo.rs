use vimwiki_core::*;
fn main() {
    let e = Located::new(Text::from("a"), Region::new_at_depth(3, 1, 4));
    assert_eq!(e.clone().take_with_region(Region::new_at_depth(1, 2, 9)).region(), Region::new_at_depth(1, 2, 9));
    assert_eq!(e.take_with_region(Region::new_at_depth(1, 2, 1)).region(), Region::new_at_depth(1, 2, 1));
}
