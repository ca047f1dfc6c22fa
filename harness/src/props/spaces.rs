//! Alphabets of the token spaces shared by the invariants that are quantified
//! over every input text.
use crate::engine::*;

pub struct Alpha {
    pub name: &'static str,
    pub tokens: &'static [&'static str],
    /// depth in the quick and the thorough tier
    pub depth: (usize, usize),
}

/// 'Q' stands for a word (made unique by the checks that need it).
pub const ALPHAS: &[Alpha] = &[
    Alpha { name: "block lines", tokens: &["= Q =\n", "- Q\n", "  - Q\n", "1. Q\n", "|Q|Q|\n", "> Q\n", "    Q\n", "{{{\n", "}}}\n", "{{$\n", "}}$\n", "----\n", "%title Q\n", "Q\n", "\n", "Q:: Q\n", ":: Q\n", "%% Q\n", "%%+ Q\n", "+%%\n", ":Q:\n", "|---|:-:|\n", "  * [X] Q\n"], depth: (3, 4) },
    Alpha { name: "inline marks", tokens: &["*", "_", "~~", "^", ",,", "`", "$", "[[", "]]", "{{", "}}", "|", "%%", "%%+", "+%%", ":", "TODO", " ", "\n", "Q", "é"], depth: (4, 5) },
    Alpha { name: "typefaces", tokens: &["*", "_", "*_", "_*", "~~", "Q", " ", "\n"], depth: (5, 7) },
    Alpha { name: "lists", tokens: &["- ", "* ", "# ", "1. ", "a) ", "i) ", "[ ] ", "[X] ", "  ", "\t", "\n", "Q", "\n\n"], depth: (4, 6) },
    Alpha { name: "list nesting", tokens: &["- Q", "1) Q", "* [o] Q", "\n", "  ", " ", "    ", "Q", "> "], depth: (5, 7) },
    Alpha { name: "tables", tokens: &["|", "-", ":", "\\/", ">", " ", "Q", "\n", "`", "[["], depth: (5, 6) },
    Alpha { name: "table rows", tokens: &["|Q|", "Q|", ">|", "\\/|", "|--|", ":-:|", "---:|", "\n", " ", "| |"], depth: (4, 6) },
    Alpha { name: "fences", tokens: &["{{{", "}}}", "{{$", "}}$", "Q", "k=\"v\"", "%e%", " ", "\n", "  "], depth: (4, 6) },
    Alpha { name: "links", tokens: &["[[", "]]", "{{", "}}", "|", "#", "wiki1:", "wn.n:", "diary:", "2021-01-01", "file:", "//", "/", "Q", " ", "a=\"b\"", "%41"], depth: (4, 5) },
    Alpha { name: "link characters", tokens: &["[[", "]]", "{{", "}}", "diary:2021-01-01", "#", "|", " ", "%", "%41", "%23", "%7C", "%25", "%FF", "^", "<", "\\", "é", "Q", "?", "["], depth: (4, 5) },
    Alpha { name: "raw links", tokens: &["http://", "https://", "www.", "ftp://", "file:", "mailto:", "Q", ".", "/", " ", "*", "\n", "`"], depth: (4, 5) },
    Alpha { name: "headers", tokens: &["=", " ", "Q", "\n", "\t", "*"], depth: (6, 8) },
    Alpha { name: "definitions", tokens: &["::", " ", "\n", "Q", "- ", ":", "\n\n"], depth: (5, 7) },
    Alpha { name: "placeholders", tokens: &["%title", "%nohtml", "%template", "%date", "%Q", "%", "Q", " ", "2021-01-02", "\n"], depth: (4, 6) },
    Alpha { name: "blockquotes", tokens: &[">", " ", "    ", "Q", "\n", "- "], depth: (6, 8) },
    Alpha { name: "comments", tokens: &["%%", "%%+", "+%%", "%", "+", " ", "\n", "Q", "- Q"], depth: (4, 6) },
    Alpha { name: "encoding", tokens: &["\r\n", "\n", "\r", "\t", "é", "日本", "\u{1F600}", "\u{2028}", "\u{a0}", "\u{0}", "Q", "- ", "|", "*"], depth: (4, 5) },
    Alpha { name: "multibyte marks", tokens: &["é", "*", "_", "`", "[[", "]]", "|", "- ", "= ", " =", "> ", ":", "\n", " "], depth: (4, 5) },
];

pub fn token_spaces(tier: Tier) -> Vec<Space> {
    token_spaces_minus(tier, 0)
}
/// `minus` lowers every depth (for checks whose single step is expensive)
pub fn token_spaces_minus(tier: Tier, minus: usize) -> Vec<Space> {
    let mut v = rich_spaces(tier, minus);
    v.push(nested_space());
    v.push(number_space());
    v.push(char_space(tier));
    v.push(detail_space());
    v.push(white_space(tier));
    v.push(scaled_space(tier));
    v.extend(ALPHAS.iter().map(|a| toks(a.name, a.tokens, tier.pick(a.depth.0, a.depth.1) - minus)));
    v
}

pub const LETTERS: &[u8] = b"ABCGHJKLMNRUVWYZ";
/// Every 'Q' of a case becomes a distinct word: QA9, QB9, ... QZ9, QAB9, ...
pub fn uniq(case: &str) -> (String, Vec<String>) {
    let mut out = String::with_capacity(case.len() + 16);
    let mut words = vec![];
    for c in case.chars() {
        if c == 'Q' {
            let mut n = words.len();
            let mut w = String::from("Q");
            loop {
                w.push(LETTERS[n % LETTERS.len()] as char);
                n /= LETTERS.len();
                if n == 0 {
                    break;
                }
            }
            out.push_str(&w);
            out.push('9');
            words.push(w);
        } else {
            out.push(c);
        }
    }
    (out, words)
}

/// One complete block per token
pub const BLOCKS: &[&str] = &[
    "= Q =\n", "== Q Q ==\n", "=== Q ===\n", "==== Q ====\n", "===== Q =====\n", "====== *Q* Q ======\n", "  = Q =\n", " === [[Q]] ===\n", "=Q=\n",
    "Q\n", "Q Q\nQ\n", "Q *Q* _Q_ ~~Q~~\n", "  Q\n", "é日Q\n",
    "- Q\n", "* Q\n", "# Q\n", "1. Q\n", "1) Q\n", "a. Q\n", "A) Q\n", "i. Q\n", "IV) Q\n", "- [ ] Q\n- [.] Q\n- [o] Q\n- [O] Q\n- [X] Q\n- [-] Q\n",
    "- Q\n  - Q\n    - Q\n  - Q\n- Q\n", "1. Q\n   a) Q\n   b) Q\n2. Q\n   Q\n", "- Q\n  Q\n  * Q\n  Q\n- Q\n", "- Q\n  {{{\n  Q\n   Q\n  }}}\n", "- Q\n  |Q|Q|\n  |Q|Q|\n", "- Q\n  > Q\n  > Q\n", "1. Q\n2. Q\n3. Q\n4. Q\n5. Q\n6. Q\n7. Q\n8. Q\n9. Q\n10. Q\n11. Q\n", "i) Q\nii) Q\niii) Q\niv) Q\n", "a. Q\nb. Q\nc. Q\n", "A) Q\nB) Q\n", "I. Q\nII. Q\n", "  - Q\n  - Q\n",
    "|Q|Q|\n", "|Q|Q|\n|--|:-:|\n|Q|*Q*|\n", "|Q|Q|Q|\n|:--|--:|:-:|\n|Q|>|Q|\n|\\/|Q|>|\n", "  |Q|\n  |Q|\n", "|Q|\n|Q|Q|\n", "| |Q|\n|Q| |\n", "|Q|Q|Q|\n|\\/|>|Q|\n|\\/|Q|\\/|\n",
    "> Q\n", "> Q\n> Q\n", "> Q\n>\n> Q\n", "    Q\n    Q\n", ">Q\n",
    "{{{\nQ\n}}}\n", "{{{\n}}}\n", "{{{rust\nQ\n  Q\n\nQ\n}}}\n", "{{{rust a=\"Q\" b=\"Q c\"\nQ\n}}}\n", "{{{ k=\"Q\"\nQ\n}}}\n", "{{$\nQ\n}}$\n", "{{$%align%\nQ\nQ\n}}$\n", "{{{\nQ *Q* %% Q\n= Q =\n- Q\n}}}\n",
    "----\n", "------\n", "%title Q Q\n", "%nohtml\n", "%template Q\n", "%date 2021-03-04\n", "%Q Q\n",
    "Q:: Q\n", "Q::\n:: Q\n:: Q\n", "Q:: Q\n:: Q\nQ:: Q\n", "Q Q:: *Q* Q\nQ::\n:: Q\n",
    "%% Q\n", "%%+ Q +%%\n", "%%+ Q\nQ +%%\n", ":Q:\n", ":Q:Q:\n", "\n", "\n\n",
];

/// One complete inline element per token
pub const INLINES: &[&str] = &[
    "Q", " ", "*Q*", "_Q_", "*_Q_*", "_*Q*_", "~~Q~~", "^Q^", ",,Q,,", "`Q`", "$Q$", "*Q Q*", "*Q [[Q]]*", "_Q TODO_", "~~*Q*~~",
    ":Q:", ":Q:Q:", "TODO", "DONE", "STARTED", "FIXME", "FIXED", "XXX", "STOPPED", "FOR",
    "[[Q]]", "[[Q|Q]]", "[[Q#Q]]", "[[#Q]]", "[[Q/Q]]", "[[Q/]]", "[[/Q]]", "[[Q Q#Q#Q|Q Q]]", "[[../Q]]", "[[Q?Q]]", "[[é]]", "[[Q|{{Q}}]]", "[[Q|{{Q|Q|k=\"Q\"}}]]",
    "[[wiki1:Q]]", "[[wiki2:Q#Q|Q]]", "[[wn.Q Q:Q]]", "[[wn.Q:Q|Q]]", "[[diary:2021-01-02]]", "[[diary:2021-01-02#Q|Q]]", "[[file:Q]]", "[[//Q]]", "[[local:Q|Q]]",
    "http://Q.c/Q", "https://Q.c", "mailto:Q@Q.c", "www.Q.c", "ftp://Q", "file:///Q", "[[https://Q.c/Q?Q=Q#Q|Q]]",
    "{{Q}}", "{{Q|Q}}", "{{Q|Q|k=\"Q\" l=\"Q Q\"}}", "{{https://Q.c/Q.png|Q}}", "{{Q||k=\"Q\"}}",
    "%%+Q+%%", "%%+ Q +%%", "é", "日本", "&", "<Q>", "\"Q\"", "'Q'", "\\", "1.", "Q_Q", "2*3", "a:b", "Q::", "%20", "#Q",
];
pub const INLINE_CONTEXTS: &[(&str, &str)] = &[
    ("", ""), ("Q ", " Q\n"), ("= ", " =\n"), ("- ", "\n"), ("- Q\n  1. ", "\n"), ("|", "|\n"), ("|Q| ", " |Q|\n|--|--|--|\n"), ("Q:: ", "\n"), ("", ":: Q\n"), ("*", "*"), ("> ", "\n"), ("- [X] ", "\n  Q\n"), ("Q\n", "\nQ\n"), ("é", "日"),
];

pub fn rich_spaces(tier: Tier, minus: usize) -> Vec<Space> {
    vec![
        toks("complete blocks", BLOCKS, tier.pick(2, 3) - minus.min(1)),
        toks_in("complete inlines in context", INLINES, tier.pick(2, 2), INLINE_CONTEXTS),
        toks("complete inlines", INLINES, tier.pick(2, 3)),
    ]
}

/// Every complete block (and pairs of some) as content of items at every depth
pub fn nested_space() -> Space {
    let mut v = vec![];
    let inside = |d: usize, step: usize, marker: &str, blocks: &[&str]| {
        let mut s = String::new();
        for i in 0..d {
            s.push_str(&format!("{}{} Q\n", " ".repeat(i * step), marker));
        }
        for b in blocks {
            for l in b.split_inclusive('\n') {
                if !l.trim().is_empty() {
                    s.push_str(&" ".repeat(d * step));
                }
                s.push_str(l);
            }
        }
        s.push_str(&format!("{}{} Q\n", " ".repeat((d / 2) * step), marker));
        s
    };
    for b in BLOCKS {
        for d in 1..=5 {
            for (step, m) in [(2, "-"), (4, "1."), (3, "a)")] {
                v.push(inside(d, step, m, &[b]));
            }
        }
        for c in BLOCKS.iter().step_by(3) {
            v.push(inside(1, 2, "*", &[b, c]));
            v.push(inside(2, 4, "#", &[c, b]));
        }
    }
    cases("blocks within items", v)
}

/// Everything, many times or very long: what only shows beyond some size
pub fn scaled_space(tier: Tier) -> Space {
    let mut v = vec![];
    let sizes: &[usize] = if tier == Tier::Quick { &[12, 33, 101] } else { &[7, 11, 12, 17, 27, 33, 65, 101, 130, 257, 300] };
    for &n in sizes {
        for b in BLOCKS {
            v.push(b.repeat(n));
            v.push(format!("{}\n", b).repeat(n));
        }
        for i in INLINES {
            v.push(format!("{}\n", format!("{} ", i).repeat(n).trim_end()));
            v.push(format!("= {} =\n", format!("{} ", i).repeat(n).trim_end()));
            v.push(format!("Q {}\n", i).repeat(n));
            v.push(format!("- {}\n", i).repeat(n));
            v.push(format!("|{}\n", format!("{}|", i).repeat(n)));
            v.push(format!("|{}|Q|\n", i).repeat(n));
        }
        for m in ["-", "*", "#", "1.", "1)", "a.", "A)", "i)", "I."] {
            let d = n.min(24);
            v.push((0..d).map(|i| format!("{}{} Q\n", "  ".repeat(i), m)).collect());
            v.push((0..d).map(|i| format!("{}{} Q\n{}  Q\n", " ".repeat(i), m, " ".repeat(i))).collect());
            v.push(format!("{} Q\n", m).repeat(n));
            v.push(format!("{} Q\n    - Q\n    - Q\n", m).repeat(n));
        }
        let w = "Q".repeat(n);
        for f in ["= {} =\n", "- {}\n", "|{}|Q|\n|Q|{}|\n", "> {}\n", "{{{{{{\n{}\n}}}}}}\n", "{}:: {}\n", "*{}*\n", "`{}`\n", "[[{}]]\n", "[[{}|{}]]\n", "%title {}\n", "%%+{}+%%\n", ":{}:\n", "{{{{{}}}}}\n"] {
            // one word of n letters, and n words
            let f = f.replace("{{", "\u{1}").replace("}}", "\u{2}");
            let put = |x: &str| f.replace("{}", x).replace('\u{1}', "{").replace('\u{2}', "}");
            v.push(put(&format!("Q{}", "m".repeat(n * 3))));
            v.push(put(&format!("Q{}", "é日".repeat(n))));
            v.push(put(w.replace('Q', "Q ").trim_end()));
        }
    }
    cases("many and long", v)
}

/// White space of every sort at every place of every block
pub fn white_space(tier: Tier) -> Space {
    const SPACES: &[&str] = &[" ", "\t", "\u{a0}", "\u{3000}", "\u{c}", "\u{b}", "\u{85}", "\u{2028}", "\u{200b}", "\u{feff}", "\r", "\n"];
    const AROUND: &[(&str, &str)] = &[
        ("", "Q\n"), ("Q", "Q\n"), ("Q\n", "\nQ\n"), ("Q\n", "Q"), ("Q", ""),
        ("=", "Q =\n"), ("= Q", "=\n"), ("= Q =", "\n"), ("", "= Q =\n"), ("=", "=\n"),
        ("-", "Q\n"), ("- ", "Q\n"), ("- Q", "\n- Q\n"), ("", "- Q\n"), ("- Q\n", "- Q\n"), ("- Q\n", "Q\n"), ("- [X]", "Q\n"), ("- [", "] Q\n"), ("1.", "Q\n"), ("- ", "\n"),
        ("|", "|Q|\n"), ("|", "Q|\n"), ("|Q", "|\n"), ("|Q|", "\n|Q|\n"), ("", "|Q|\n"), ("|Q|\n|", "--|\n"), ("|Q|\n|--", "|\n"), ("|Q|>", "|\n"), ("|Q|\n|\\/", "|\n"),
        (">", "Q\n"), ("> ", "\n"), ("> Q\n", "> Q\n"), ("> Q", "\n> Q\n"), ("    ", "Q\n"), ("    Q\n    ", "\n    Q\n"), ("    Q", "\n"),
        ("", "{{{\nQ\n}}}\n"), ("{{{", "\nQ\n}}}\n"), ("{{{Q", "k=\"Q\"\nQ\n}}}\n"), ("{{{k=\"Q\"", "l=\"Q\"\nQ\n}}}\n"), ("{{{\n", "Q\n}}}\n"), (" {{{\n", "Q\n }}}\n"), ("   {{{\n ", "Q\n   }}}\n"), ("{{{\nQ\n", "}}}\n"), ("{{{\nQ\n}}}", "\n"), ("- Q\n   {{{\n", "Q\n   }}}\n"),
        ("", "{{$\nQ\n}}$\n"), ("{{$", "\nQ\n}}$\n"), ("{{$%Q", "%\nQ\n}}$\n"), (" {{$\n", "Q\n }}$\n"), ("   {{$\n ", "Q\n   }}$\n"), ("{{$\nQ\n", "}}$\n"),
        ("--", "--\n"), ("----", "\n"), ("", "----\n"), ("%title", "Q\n"), ("%title ", "\n"), ("%title Q", "\n"), ("", "%title Q\n"), ("%date", "2021-01-02\n"), ("%date 2021-01-02", "\n"), ("%nohtml", "\n"), ("%Q", "Q\n"), ("%template", "Q\n"),
        ("Q", ":: Q\n"), ("Q::", "Q\n"), ("Q::\n::", "Q\n"), ("Q::\n", ":: Q\n"), ("Q:: Q", "\n:: Q\n"), ("", "Q:: Q\n"), ("Q:: ", "\n"),
        ("%%", "Q\n"), ("%%+", "+%%\n"), ("%%+ Q", "Q +%%\n"), ("Q", "%% Q\n"), ("*", "Q*\n"), ("*Q", "*\n"), ("`", "`\n"), ("`Q", "Q`\n"), ("$", "$\n"), ("Q", ":Q:\n"), (":Q:", "Q\n"), (":", "Q:\n"), ("TODO", "Q\n"), ("Q", "TODO\n"),
        ("[[", "]]\n"), ("[[Q", "Q]]\n"), ("[[Q|", "]]\n"), ("[[Q#", "Q]]\n"), ("[[wn.", ":Q]]\n"), ("[[wiki1:", "Q]]\n"), ("[[diary:2021-01-02", "]]\n"), ("{{", "}}\n"), ("{{Q|Q|k=\"Q\"", "l=\"Q\"}}\n"), ("{{Q|", "|k=\"Q\"}}\n"), ("Q", "http://Q.c\n"), ("http://Q.c", "Q\n"),
    ];
    toks_in("white space of every sort", SPACES, tier.pick(2, 3), AROUND)
}

/// Numbers and dates, possible and impossible, everywhere one may be written
pub fn number_space() -> Space {
    const N: [&str; 22] = [
        "0", "00", "1", "9", "10", "02", "-1", "+5", "1.5", "255", "256", "999", "1000", "65536", "2147483647", "2147483648", "4294967296", "9223372036854775808", "18446744073709551616",
        "999999999999999999999999999999", "٣", "x",
    ];
    const AT: [&str; 24] = [
        "N. a\n", "N) a\nN) b\n", "- [N] a\n", "%date N\n", "{{{N\na\n}}}\n", "{{{a=\"N\"\na\n}}}\n", "{{$%N%\na\n}}$\n", "[[wikiN:a]]\n", "[[wikiN:]]\n", "[[wikiN:#a]]\n", "[[wn.N:a]]\n",
        "[[diary:N]]\n", "[[a#N]]\n", "[[N]]\n", "http://a:N/\n", "http://N/\n", "[[http://a:N|b]]\n", "{{a|N|width=\"N\"}}\n", "|N|-|\n|-|N|\n", "= N =\n", ":N:\n", "N:: N\n", "MMMMMMMMMMN) a\nCMXCIXN. b\n", "a%N\n[[a%N]]\n",
    ];
    const Y: [&str; 12] = ["0", "0000", "1", "0001", "1900", "2000", "2020", "2021", "9999", "10000", "-1", "999999999"];
    const M: [&str; 9] = ["0", "00", "1", "01", "2", "02", "04", "12", "13"];
    const D: [&str; 10] = ["0", "00", "1", "01", "28", "29", "30", "31", "32", "-1"];
    let mut v = vec![];
    for a in AT {
        for n in N {
            v.push(a.replace('N', n));
        }
    }
    for y in Y {
        for m in M {
            for d in D {
                v.push(format!("%date {}-{}-{}\n", y, m, d));
                v.push(format!("[[diary:{}-{}-{}]]\n", y, m, d));
                v.push(format!("a [[diary:{}-{}-{}#b|c]]\n", y, m, d));
            }
        }
    }
    cases("numbers and dates", v)
}

/// Names, languages and values of attributes in any number, lists that follow each
/// other within one item, and long spans of cells
pub fn detail_space() -> Space {
    const NAMES: [&str; 9] = ["a", "A", "aB", "Ab", "é", "É", "data-x", "x_1", "K"];
    const AT: [(&str, &str); 5] = [("{{{", "\nQ\n}}}\n"), ("{{{rust ", "\nQ\n}}}\n"), ("- Q\n   {{{", "\n   Q\n   }}}\n"), ("{{Q|Q|", "}}\n"), ("[[Q|{{Q||", "}}]]\n")];
    let mut v = vec![];
    let write = |a: &(&str, &str), n: &[String]| format!("{}{}{}", a.0, n.iter().enumerate().map(|(i, n)| format!("{}=\"{}\"", n, i)).collect::<Vec<_>>().join(" "), a.1);
    for a in &AT {
        for i in NAMES {
            for j in NAMES {
                for k in NAMES {
                    if i != j && j != k && i != k {
                        v.push(write(a, &[i.into(), j.into(), k.into()]));
                    }
                }
            }
        }
        for n in 1..=40 {
            v.push(write(a, &(0..n).map(|i| format!("k{}", i)).collect::<Vec<_>>()));
            v.push(write(a, &(0..n).rev().map(|i| format!("{}k", ["a", "A"][i % 2].repeat(i / 2 + 1))).collect::<Vec<_>>()));
        }
    }
    for l in ["c++", "c#", "a/b", "a.b", "a,b", "a:b", "a-b", "a_b", ".a", "a&b", "<a>", "a'b", "a;b", "9", "C", "é", "a@b", "(a)", "a%b", "a\\b", "a|b", "a*b*", "rust,ignore", "text/x-c"] {
        for rest in ["", " k=\"Q\"", " class=\"Q\""] {
            v.push(format!("{{{{{{{}{}\nQ\n}}}}}}\n", l, rest));
            v.push(format!("- Q\n   {{{{{{{}{}\n   Q\n   }}}}}}\n", l, rest));
        }
        v.push(format!("{{{{$%{}%\nQ\n}}}}$\n", l));
    }
    // lists within one item, indented less and less
    for n in 2..=7usize {
        for m in [&["-"][..], &["-", "*"], &["1.", "a)", "#"], &["- [X]", "1."]] {
            for (first, between) in [("- Q\n", ""), ("1. Q\n", ""), ("- Q\n  - Q\n", ""), ("- Q\n", "text"), ("- Q\n- Q\n", "sub")] {
                let mut s = String::from(first);
                for i in 0..n {
                    let ind = "  ".repeat(n - i + 2);
                    s.push_str(&format!("{}{} Q\n", ind, m[i % m.len()]));
                    match between {
                        "text" if i % 2 == 0 => s.push_str(&format!("{}Q\n", "  ".repeat(n - i + 1))),
                        "sub" => s.push_str(&format!("{}   * Q\n", ind)),
                        _ => {}
                    }
                }
                v.push(s.clone());
                v.push(format!("{}- Q\n", s));
            }
        }
    }
    // cells that span many rows and columns
    for n in [3, 8, 9, 10, 11, 12, 16, 31, 100] {
        for div in ["", "|--|--|\n", "|:-:|-:|\n"] {
            v.push(format!("|Q|Q|\n{}|Q|Q|\n{}", div, "|\\/|Q|\n".repeat(n)));
            v.push(format!("|Q|Q|\n{}|Q|Q|\n{}|Q|\\/|\n", div, "|Q|\\/|\n".repeat(n)));
            v.push(format!("|Q|Q|\n{}{}", "|\\/|Q|\n".repeat(n), div));
            v.push(format!("|Q|{}Q|\n{}|Q|Q|\n", ">|".repeat(n), div));
            v.push(format!("|Q|Q|\n{}|Q|{}\n", div, ">|".repeat(n)));
            v.push(format!("|Q|{}\n{}{}", ">|".repeat(n), div, format!("|\\/|{}\n", ">|".repeat(n)).repeat(n.min(12))));
        }
    }
    // what ends in marks
    for e in ["=", "==", "-", ":", "::", "*", "_", "`", "$", "|", "%", "%%", "+", ".", ")", "]", "]]", "}", "}}}", ">", "\\", "/", "#", "\"", "'", "&", ";", "!", "?", ",", "~~", "^"] {
        for a in ["%title Q§\n", "%title §\n", "%template Q§\n", "%nohtml §\n", "%Q Q§\n", "%Q§\n", "%date 2021-01-02§\n", "= Q§ =\n", "= § Q =\n", "> Q§\n", "> § Q\n", "- Q§\n", "- § Q\n", "Q§:: Q\n", "Q:: Q§\n", "Q::\n:: § Q\n", "|Q§|Q|\n", "|§ Q|Q|\n", "{{{\n§ Q§\n}}}\n", "{{$\n§ Q§\n}}$\n", "    Q§\n    § Q\n", "Q§\nQ§\n", "§ Q\n§\n"] {
            v.push(a.replace('§', e));
        }
    }
    cases("attributes, lists in a row, long spans and ends", v)
}

/// Every character (thorough: of the Basic Multilingual Plane, and the emoji; quick:
/// Latin letters, punctuation, white space, controls and combining marks) next to every sort of markup
pub fn char_space(tier: Tier) -> Space {
    const PAGES: [&str; 4] = [
        "Y\n\naYb Y *Y* _aY_ ~~Ya~~ ^Y^ ,,Y,, `Y` $Y$ Y*a*Y *_Y_* a :Y: :aYb: YTODO TODOY\n\nY:a:Y %%+Y+%% b\n%%Y\n",
        "[[Y]] [[aYb|cYd]] [[a#Y]] [[a#b#cYd]] [[wn.nY:Y]] [[file:aY|Y]] [[diary:2021-01-02#Y|Y]] {{Y}} {{a|Y}} {{a|b|c=\"Y\"}} http://aYb/Yc http://aY Yhttp://b\n",
        "= Y =\n == aYb ==\n= aY=\n\n----Y\n\n%title Y\n%Y a\n%template aYb\n\nY:: Y\n:: aYb\nYa::\n:: Yb\n\n> Y\n> aY\n\n    Y\n    Ya\n",
        "- Y\n- [Y] a\nY a\n* aYb\n  YY\n  1. Y\nY. a\nY) b\n\n|Y|aYb|Y-|\n|-|:-:|--|\n|Y a|\\/|>|\n{{{Y a=\"Y\"\nY\n aYb\n}}}\n{{$%Y%\nY\n}}$\n",
    ];
    let all: Vec<u32> = match tier {
        Tier::Quick => (0..=0x24f).chain(0x300..=0x36f).chain(0x1680..=0x1680).chain(0x2000..=0x206f).chain(0x3000..=0x303f).chain(0xfe00..=0xfe0f).chain(0xfeff..=0xffff).chain(0x1f600..=0x1f64f).collect(),
        Tier::Thorough => (0..=0xffff).chain(0x1f300..=0x1faff).chain(0xe0000..=0xe01ef).collect(),
    };
    let mut v = vec![];
    for c in all.into_iter().filter_map(char::from_u32) {
        let c = c.to_string();
        for p in PAGES {
            v.push(p.replace('Y', &c));
        }
    }
    cases("every character", v)
}

/// Every table of these sizes of cells with content and spans, with a divider
/// after any number of its rows
pub fn table_space(tier: Tier) -> Space {
    const CELLS: [&str; 3] = ["Q", ">", "\\/"];
    let mut sizes: Vec<&[usize]> = vec![&[2, 2], &[3, 3], &[2, 2, 2], &[1, 2, 3], &[3, 1, 2], &[2, 2, 2, 2]];
    if tier == Tier::Thorough {
        sizes.extend([&[3, 3, 3][..], &[4, 4], &[2, 3, 1, 2]]);
    }
    let mut v = vec![];
    for rows in sizes {
        let n: usize = rows.iter().sum();
        for k in 0..3usize.pow(n as u32) {
            for divider in 0..=rows.len() {
                let (mut s, mut k) = (String::new(), k);
                for (i, r) in rows.iter().enumerate() {
                    if i > 0 && i == divider {
                        s.push_str("|-|\n");
                    }
                    for _ in 0..*r {
                        s.push('|');
                        s.push_str(CELLS[k % 3]);
                        k /= 3;
                    }
                    s.push_str("|\n");
                }
                v.push(s);
            }
        }
    }
    v.dedup();
    cases("tables with spans", v)
}
