//! A page is the sequence of its blocks (P09).
use super::spaces::*;
use super::*;
use crate::tree::Node;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(P09)]
}

pub struct P09;
fn shift(mut n: Node, by: usize) -> Node {
    n.region = n.region.map(|(o, l, d)| (o + by, l, d));
    n.kids = n.kids.into_iter().map(|k| shift(k, by)).collect();
    n
}
/// Whether each block ends where the next begins, without a blank line
fn apart(parts: &[&str]) -> Result<bool, String> {
    for w in parts.windows(2) {
        let (a, b) = (tree::page(&parse(w[0])?), tree::page(&parse(w[1])?));
        let (Some(a), Some(b)) = (a.kids.last(), b.kids.first()) else { return Ok(false) };
        let ok = match a.kind {
            "header" | "divider" | "placeholder" | "code_block" | "math_block" => true,
            "list" => !matches!(b.kind, "list" | "paragraph") && !w[1].starts_with(' '),
            "paragraph" => b.kind != "paragraph" && !w[1].starts_with("    "),
            k => b.kind != k,
        };
        if !ok {
            return Ok(false);
        }
    }
    Ok(true)
}
impl Prop for P09 {
    fn id(&self) -> &'static str {
        "P09"
    }
    fn rule(&self) -> &'static str {
        "every sequence of complete blocks up to the stated length is one document; non-trivial when it has more than one block"
    }
    fn spaces(&self, tier: Tier) -> Vec<Space> {
        let t: Vec<String> = BLOCKS.iter().filter(|b| !b.trim().is_empty()).map(|b| format!("{}\u{1}", b)).collect();
        let t: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
        let mut long = vec![];
        for n in [4usize, 9, 17, 40, 90] {
            for i in 0..t.len() {
                // one block over and over, and all blocks from this one on
                long.push(format!("{}{}", t[i], t[(i + n) % t.len()]).repeat(n / 2));
                long.push((0..n).map(|k| t[(i + k * 7) % t.len()]).collect());
            }
        }
        let few: Vec<&str> = t.iter().step_by(3).copied().collect();
        vec![cases("long documents", long), toks("sequences of few blocks", &few, 3), toks("sequences of blocks", &t, tier.pick(2, 3))]
    }
    fn check(&self, case: &str) -> Check {
        let (s, _) = uniq(case);
        let parts: Vec<&str> = s.split_terminator('\u{1}').collect();
        let mut out = 0;
        let quote = |s: &str| s.starts_with('>');
        let quotes = parts.windows(2).any(|w| quote(w[0]) && quote(w[1]));
        for sep in ["", "\n", "\n\n \n", "\n----\n\n"] {
            // a quote goes on after blank lines
            if quotes && sep.trim().is_empty() {
                continue;
            }
            if sep.is_empty() && !apart(&parts)? {
                continue;
            }
            let text = parts.join(sep);
            let mut want = vec![];
            let mut at = 0;
            for (i, p) in parts.iter().enumerate() {
                if i > 0 {
                    let t = parse(sep)?;
                    want.extend(tree::page(&t).kids.into_iter().map(|k| shift(k, at)));
                    at += sep.len();
                }
                let t = parse(p)?;
                want.extend(tree::page(&t).kids.into_iter().map(|k| shift(k, at)));
                at += p.len();
            }
            let got = tree::page(&parse(&text)?).kids;
            if got != want {
                let strip = |v: &[Node]| v.iter().map(|n| n.clone().strip().show()).collect::<Vec<_>>().join(", ");
                let (a, b) = (strip(&got), strip(&want));
                return Err(if a != b { format!("{:?} is read as\n{}\nbut its parts alone as\n{}", text, a, b) } else { format!("{:?}: regions differ\n{:?}\n{:?}", text, got, want) });
            }
            out = h(&got.len());
        }
        Ok(if parts.len() > 1 { seen(&(out, h(&s))) } else { trivial(&out) })
    }
}
