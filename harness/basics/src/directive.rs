use comments::{Directive, FormatDirective, parse_comment_directive, parse_special_skip_file};
use vfcommon::{Rng, edits, printable, at, codes, emit, from_codes, guarded, json, read_ndjson};

fn name(d: Option<Directive>) -> &'static str {
    match d {
        None => "none",
        Some(Directive::Format(FormatDirective::Skip)) => "skip",
        Some(Directive::Format(FormatDirective::SkipFile)) => "skip-file",
        Some(Directive::Format(FormatDirective::Table)) => "table",
        #[allow(unreachable_patterns)]
        Some(_) => "other",
    }
}
fn both(text: &str) -> (String, String) {
    let one = |f: fn(&str) -> Option<Directive>| guarded(|| name(f(text)).to_string()).unwrap_or_else(|e| format!("panic: {e}"));
    (one(parse_comment_directive), one(parse_special_skip_file))
}

pub fn replay(file: &str) {
    for case in read_ndjson(file) {
        let text = from_codes(&case["text"]);
        at(&text);
        let (p, s) = both(&text);
        if case["parse"] != p || case["special"] != s {
            emit(&json!({"text": text, "want": [case["parse"], case["special"]], "got": [p, s]}));
        }
    }
}

const PIECES: &[&str] = &[
    "#", "##", "###", "# ", "#' ", "#\t", " ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{3000}", "\u{200b}", "\u{85}", "\u{2028}", "\u{b}",
    "fmt", "fmt:", "Fmt:", "FMT:", "lint", "lint:", "fmt", "skip", "skip", "Skip", "skip file", "skip  file", "skip-file",
    "skip\tfile", "file", "table", "tables", "table!", ":", ":", "::", "：", "Generated by", "Generated  by", "generated by",
    "Generated", "by", "roxygen2", "é", "日本", "skipfile", "align-right", ",", "0", "",
];
const SEEDS: &[&str] = &[
    "# fmt: skip", "#fmt:skip", "# fmt: skip file", "# fmt: table", "# Generated by", "# lint: skip", "#' fmt: skip", "## fmt: table  ",
    "# fmt: skip # fmt: table", "# fmt: skip: file", "# fmt:\u{a0}skip", "#\u{a0}fmt: skip", "# fmt\u{a0}: skip", "#\n# fmt: skip",
    "# Generated by roxygen2: do not edit by hand", "# # fmt: skip", "# Generated by: fmt: skip",
];

/// Everything one edit away from the directives.
pub fn near(all: bool) {
    let chars: Vec<char> = printable().into_iter().chain(['\t', '\n', '\r', '\u{b}', '\u{a0}', '\u{feff}', '：', 'é']).collect();
    let mut rng = Rng::from_env(22);
    for seed in ["# fmt: skip", "# fmt: skip file", "# fmt: table", "# Generated by x"] {
        for text in edits(seed, &chars) {
            if all || rng.chance(1, 2) || text.starts_with("# Ge") || text.len() <= seed.len() {
                at(&text);
                let (p, s) = both(&text);
                emit(&json!({"text": codes(&text), "parse": p, "special": s}));
            }
        }
    }
}

pub fn trace(n: usize) {
    let mut rng = Rng::from_env(21);
    for _ in 0..n {
        let mut text = String::new();
        if rng.chance(1, 2) {
            // A directive with a few edits
            let mut cs: Vec<char> = (*rng.pick(SEEDS)).chars().collect();
            for _ in 0..rng.below(3) {
                let i = rng.below(cs.len() + 1);
                match rng.below(4) {
                    0 if i < cs.len() => {
                        cs.remove(i);
                    }
                    1 if i < cs.len() => {
                        let c = cs[i];
                        cs.insert(i, c);
                    }
                    2 if i + 1 < cs.len() => cs.swap(i, i + 1),
                    _ => {
                        let p: Vec<char> = (*rng.pick(PIECES)).chars().collect();
                        cs.splice(i..i, p);
                    }
                }
            }
            text.extend(cs);
        } else {
            if rng.chance(4, 5) {
                text.push('#');
            }
            for _ in 0..rng.below(8) {
                let p: &str = *rng.pick(PIECES);
                text.push_str(p);
            }
        }
        at(&text);
        let (p, s) = both(&text);
        emit(&json!({"text": codes(&text), "parse": p, "special": s}));
    }
}
