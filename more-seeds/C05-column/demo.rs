use vimwiki_core::*;
fn main() {
    let mut n = 0;
    for s in ["é = é", "日本\n", "é", "= é", "{{{é\nq", "[[éé|é"].iter() {
        for m in [
            Language::from_vimwiki_str(s).parse::<Located<Header>>().err().map(|e| e.to_string()),
            Language::from_vimwiki_str(s).parse::<Located<CodeBlock>>().err().map(|e| e.to_string()),
            Language::from_vimwiki_str(s).parse::<Located<Link>>().err().map(|e| e.to_string()),
            Language::from_vimwiki_str(s).parse::<Located<List>>().err().map(|e| e.to_string()),
            Language::from_vimwiki_str(s).parse::<Located<DefinitionList>>().err().map(|e| e.to_string()),
        ].iter().flatten() {
            for l in m.lines().filter(|l| l.contains(": Line ")) {
                let (l, c) = l.rsplit_once(": Line ").unwrap().1.split_once(", Column ").unwrap();
                let row = s.split('\n').nth(l.parse::<usize>().unwrap() - 1).unwrap();
                let c: usize = c.parse().unwrap();
                n += 1;
                assert!(c <= row.chars().count() + 1, "{:?}: {}", s, m);
            }
        }
    }
    assert!(n > 5);
}
