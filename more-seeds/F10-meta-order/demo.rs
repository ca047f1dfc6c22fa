use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() { let t = "{{{a=\"v\" b=\"v\" c=\"v\" d=\"v\" e=\"v\"\nx\n}}}\n"; let mut k = std::collections::HashSet::new(); for _ in 0..40 { k.insert(page(t).to_vimwiki_string(VimwikiConfig::default()).unwrap()); } assert_eq!(k.len(), 1); }