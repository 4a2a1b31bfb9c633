//! Drives crates/biome_ungrammar.
use biome_ungrammar::{Grammar, Rule};
use vfcommon::{Rng, Value, at, codes, emit, from_codes, guarded, json, read_ndjson};

fn rule(g: &Grammar, r: &Rule) -> Value {
    let many = |k: &str, rs: &[Rule]| json!({"k": k, "rules": rs.iter().map(|r| rule(g, r)).collect::<Vec<_>>()});
    match r {
        Rule::Labeled { label, rule: r } => json!({"k": "label", "label": codes(label), "rule": rule(g, r)}),
        Rule::Node(n) => json!({"k": "node", "name": codes(&g[*n].name)}),
        Rule::Token(t) => json!({"k": "token", "name": codes(&g[*t].name)}),
        Rule::Seq(rs) => many("seq", rs),
        Rule::Alt(rs) => many("alt", rs),
        Rule::UnorderedSome(rs) => many("some", rs),
        Rule::UnorderedAll(rs) => many("all", rs),
        Rule::Opt(r) => json!({"k": "opt", "rule": rule(g, r)}),
        Rule::Rep(r) => json!({"k": "rep", "rule": rule(g, r)}),
    }
}

/// `line:column: message` -> kind, what it is about, place.
fn error(text: &str) -> Value {
    let mut loc = json!({"line": 0, "col": 0});
    let mut msg = text;
    let mut parts = text.splitn(3, ':');
    if let (Some(l), Some(c), Some(m)) = (parts.next(), parts.next(), parts.next())
        && let (Ok(l), Ok(c)) = (l.parse::<u64>(), c.parse::<u64>())
    {
        loc = json!({"line": l, "col": c});
        msg = m.strip_prefix(' ').unwrap_or(m);
    }
    let between = |p: &str, s: &str| msg.strip_prefix(p).and_then(|m| m.strip_suffix(s));
    let (kind, arg) = if msg.starts_with("unexpected `&`") {
        ("ampersand", "")
    } else if msg.starts_with("unclosed token literal") {
        ("unclosed", "")
    } else if msg.starts_with("invalid escape") {
        ("escape", "")
    } else if msg.starts_with("unexpected `\\r`") {
        ("carriage return", "")
    } else if let Some(c) = between("unexpected character: `", "`") {
        ("character", c)
    } else if msg.starts_with("unexpected EOF") {
        ("end", "")
    } else if msg.starts_with("unexpected token, expected `=`") {
        ("equals expected", "")
    } else if msg.starts_with("unexpected token, expected `)`") {
        ("parenthesis expected", "")
    } else if msg == "unexpected token" {
        ("token", "")
    } else if msg.starts_with("expected ident") {
        ("identifier expected", "")
    } else if let Some(n) = between("duplicate rule: `", "`") {
        ("duplicate", n)
    } else if msg.contains("must not be a combinator") {
        ("leading combinator", "")
    } else if msg.starts_with("Cannot mix combinators") {
        ("mixed combinators", "")
    } else if let Some(n) = between("Undefined node: ", "") {
        ("undefined", n)
    } else {
        ("other", msg)
    };
    json!({"kind": kind, "arg": codes(arg), "loc": loc})
}

fn read(text: &str) -> Result<Value, String> {
    guarded(|| match text.parse::<Grammar>() {
        Ok(g) => json!({
            "ok": true,
            "nodes": g.iter().map(|n| json!({"name": codes(&g[n].name), "rule": rule(&g, &g[n].rule)})).collect::<Vec<_>>(),
            "tokens": g.tokens().map(|t| codes(&g[t].name)).collect::<Vec<_>>(),
            "err": {"kind": "", "arg": [], "loc": {"line": 0, "col": 0}},
        }),
        Err(e) => json!({"ok": false, "nodes": [], "tokens": [], "err": error(&e.to_string())}),
    })
}

fn replay(file: &str) {
    for case in read_ndjson(file) {
        let text = from_codes(&case["text"]);
        at(&text);
        match read(&text) {
            Ok(got) if got == case["want"] => {}
            Ok(got) => emit(&json!({"text": text, "got": got, "want": case["want"]})),
            Err(e) => emit(&json!({"text": text, "panic": e, "want": case["want"]})),
        }
    }
}

const WORDS: &[&str] = &[
    "A", "B", "Expr", "x_1", "0", "A", "B", "'+'", "'if'", "'\\''", "'\\\\'", "'a b'", "''", "'é'", "'\n'", "=", "=", "*", "?", "(", ")", "(", ")", "|", "||",
    "&&", ":", "|", "a:", "label :",
];
const JUNK: &[&str] = &["&", "/", "'", "\\", "\r", "é", "-", "'\\n'", "\r\n", "#", "\u{0}", "\u{1F600}", "'\\", "|||", "&&&", "[", "\u{a0}", "<"];
const GAPS: &[&str] = &[" ", " ", " ", "", "\n", "\n\n", "\t", "  ", " // note\n", "//\n", "// é = 'x'\n", "//// |", "\n//x"];

/// A well formed rule.
fn some_rule(rng: &mut Rng, depth: usize, out: &mut Vec<String>) {
    let names = ["A", "B", "C", "Name1"];
    let comb = *rng.pick(&["|", "||", "&&"]);
    let n = if depth == 0 { 1 } else { rng.range(1, 3) };
    for i in 0..n {
        if i > 0 {
            out.push(comb.into());
        }
        for _ in 0..rng.range(1, 3) {
            for _ in 0..2 {
                if rng.chance(1, 8) {
                    out.push((*rng.pick(&["lhs", "A", "x"])).into());
                    out.push(":".into());
                }
            }
            match rng.below(if depth == 0 { 4 } else { 6 }) {
                0 | 1 => out.push((*rng.pick(&names)).into()),
                2 | 3 => out.push((*rng.pick(&["'+'", "'if'", "'\\''", "'é\\\\'", "'A'"])).into()),
                _ => {
                    out.push("(".into());
                    some_rule(rng, depth - 1, out);
                    out.push(")".into());
                }
            }
            if rng.chance(1, 3) {
                out.push((*rng.pick(&["?", "*"])).into());
            }
        }
    }
}

fn trace(n: usize) {
    let mut rng = Rng::from_env(51);
    for _ in 0..n {
        let mut words: Vec<String> = vec![];
        if rng.chance(3, 4) {
            let mut names = vec!["A", "B", "C", "Name1"];
            rng.shuffle(&mut names);
            if rng.chance(1, 8) {
                names.pop();
            }
            for name in names {
                words.push(name.into());
                words.push("=".into());
                let depth = rng.below(4);
                some_rule(&mut rng, depth, &mut words);
            }
            // One slip
            if rng.chance(1, 2) {
                let i = rng.below(words.len());
                match rng.below(5) {
                    0 => {
                        words.remove(i);
                    }
                    1 => {
                        let w = words[i].clone();
                        words.insert(i, w);
                    }
                    2 => words.truncate(i),
                    3 => words.insert(i, (*rng.pick(JUNK)).into()),
                    _ => words[i] = (*rng.pick(WORDS)).into(),
                }
            }
        } else {
            for _ in 0..rng.below(14) {
                words.push((*rng.pick(WORDS)).into());
            }
            if rng.chance(1, 3) {
                words.push((*rng.pick(JUNK)).into());
            }
        }
        let mut text = String::new();
        for w in &words {
            let ident = |c: char| c.is_ascii_alphanumeric() || c == '_';
            let gap: &str = *rng.pick(GAPS);
            let glued = text.ends_with(ident) && w.starts_with(ident) && rng.chance(9, 10);
            text.push_str(if glued && gap.is_empty() { " " } else { gap });
            if gap.contains("//") && !gap.ends_with('\n') && rng.chance(9, 10) {
                text.push('\n');
            }
            text.push_str(w);
        }
        if rng.chance(1, 3) {
            let gap: &str = *rng.pick(GAPS);
            text.push_str(gap);
        }
        at(&text);
        emit(&match read(&text) {
            Ok(got) => json!({"text": codes(&text), "panic": false, "got": got}),
            Err(e) => json!({"text": codes(&text), "panic": true, "msg": e}),
        });
    }
}

/// The grammars of the repository, one definition at a time.
fn files(paths: &[String]) {
    for p in paths {
        at(p);
        let text = std::fs::read_to_string(p).unwrap();
        let mut chunk = String::new();
        for block in text.split("\n\n") {
            chunk.push_str(block);
            chunk.push_str("\n\n");
            emit(&match read(&chunk) {
                Ok(got) => json!({"text": codes(&chunk), "panic": false, "got": got}),
                Err(e) => json!({"text": codes(&chunk), "panic": true, "msg": e}),
            });
            if chunk.len() > 1500 {
                chunk.clear();
            }
        }
    }
}

fn main() {
    vfcommon::init(60);
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "replay" => replay(&args[2]),
        "trace" => trace(args[2].parse().unwrap()),
        "files" => files(&args[2..]),
        other => panic!("unknown mode {other}"),
    }
}
