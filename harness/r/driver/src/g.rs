//! Episodes: random programs and what the formatter makes of them.
use crate::generate::{Gen, separate, Style, Writer};
use crate::options::{Choice, run};
use crate::trees;
use serde_json::{Value, json};
use vfcommon::{Rng, at, emit, init};

pub fn lines(v: &Value) -> Value {
    match v.get("text") {
        Some(text) => json!(text.as_str().unwrap().split('\n').collect::<Vec<_>>()),
        None => json!([]),
    }
}

pub fn programs(kind: &str, n: usize, shard: u64) {
    init(60);
    let mut rng = Rng::from_env(shard.wrapping_mul(7919) + kind.len() as u64);
    let mut done = 0;
    while done < n {
        let mut style = Style {
            newline: *rng.pick(&[0, 0, 5, 10, 30]),
            odd: *rng.pick(&[0, 20, 60]),
            comment: 0,
            tidy: 0,
            long: *rng.pick(&[5, 20, 60]),
            multi: false,
            skip: 0,
            table: 0,
        };
        match kind {
            "plain" => style.multi = rng.chance(1, 10),
            "tidy" => style.tidy = *rng.pick(&[20, 50]),
            "skip" => {
                style.tidy = 50;
                style.skip = 50;
                style.table = 20;
            }
            "table" => {
                style.tidy = *rng.pick(&[0, 0, 10]);
                style.skip = 50;
                style.table = 60;
            }
            "comments" => style.comment = *rng.pick(&[10, 30, 100]),
            "ends" => {
                style.multi = rng.chance(1, 3);
                style.tidy = *rng.pick(&[0, 20, 50]);
                style.skip = *rng.pick(&[0, 50]);
                style.table = style.skip;
            }
            "program" | "tree" | "broken" => {
                style.multi = rng.chance(1, 10);
                style.comment = *rng.pick(&[0, 10, 30, 100]);
                if kind == "broken" && rng.chance(1, 4) {
                    (style.comment, style.tidy, style.skip) = (0, 50, 100);
                }
            }
            other => panic!("unknown kind {other}"),
        }
        let mut choice = if style.table > 0 { Choice::naming(&mut rng) } else { Choice::random(&mut rng) };
        let budget = *rng.pick(&[4, 8, 15, 25]);
        let mut program = Gen::new(&mut rng, style, budget).program();
        if style.skip > 0 && kind != "broken" {
            separate(&mut program);
        }
        let mut w = Writer::new(&mut rng, style);
        w.program(&mut program);
        let (text, tokens, comments, spans) = (w.text, w.tokens, w.comments, w.spans);
        if text.len() > 700 {
            continue;
        }
        at(&text);
        if kind == "tree" {
            let read = vfcommon::guarded(|| trees::read(&text));
            let mut ends = vec![0];
            ends.extend(spans.iter().map(|s| s.1));
            let mut starts: Vec<usize> = spans.iter().map(|s| s.0).collect();
            starts.push(text.len());
            let gaps: Vec<Value> = ends.iter().zip(&starts).map(|(e, s)| trees::pieces(&text[*e..*s])).collect();
            let read = match read {
                Ok(r) => json!({"ok": r.ok, "tree": r.tree, "same": r.text == text, "trivia": r.trivia}),
                Err(e) => json!({"ok": false, "panic": e}),
            };
            emit(&json!({"p": program.json(), "text": text, "tokens": tokens, "gaps": gaps, "read": read}));
            done += 1;
            continue;
        }
        let mut ends = vec![];
        let mut text = text;
        if kind == "ends" {
            choice.ending = *rng.pick(&["lf", "crlf", "auto", "auto", "native"]);
            let crlf = *rng.pick(&[0, 10, 50, 90, 100]);
            let mut new = String::new();
            for c in text.chars() {
                if c == '\n' {
                    let one = if rng.chance(crlf, 100) { "crlf" } else { "lf" };
                    new.push_str(if one == "crlf" { "\r" } else { "" });
                    ends.push(one);
                }
                new.push(c);
            }
            text = new;
            at(&text);
        }
        if kind == "broken" {
            emit(&broken(&mut rng, &text, &tokens, &spans, &choice));
            done += 1;
            continue;
        }
        let toml = choice.toml();
        let out = run(&text, &toml);
        let again = match out.get("text") {
            Some(t) => run(t.as_str().unwrap(), &toml),
            None => json!({}),
        };
        let again_read = match out.get("text") {
            Some(t) if ["program", "tidy", "skip", "table"].contains(&kind) => {
                let r = trees::read(t.as_str().unwrap());
                json!({"ok": r.ok, "tree": r.tree, "comments": r.comments})
            }
            _ => json!({"ok": false}),
        };
        emit(&json!({
            "read": again_read,
            "o": choice.json(), "p": program.json(), "text": text, "tokens": tokens, "comments": comments,
            "res": if out.get("text").is_some() { "ok" } else if out.get("error").is_some() { "error" } else { "panic" },
            "out": lines(&out), "ends": ends, "ending": choice.ending, "again": again == out, "then": lines(&again), "toml": toml,
        }));
        done += 1;
    }
}

/// A program with one of its brackets removed, replaced, doubled or moved to the end; or as it is.
fn broken(rng: &mut Rng, text: &str, tokens: &[String], spans: &[(usize, usize)], choice: &Choice) -> Value {
    let all = ["(", ")", "[", "]", "[[", "]]", "{", "}"];
    let at_bracket: Vec<usize> = (0..tokens.len()).filter(|i| all.contains(&tokens[*i].as_str())).collect();
    let mut tokens = tokens.to_vec();
    let mut text = text.to_string();
    let mut how = "none";
    // With one `"` less the last one has no end: all of them count, if no comment has one and no string has a `#`.
    let quoted: Vec<usize> = (0..tokens.len()).filter(|i| tokens[*i].starts_with('"')).collect();
    let plain = !text.contains(['\'', '\\']) && tokens.iter().all(|t| !t.contains('#') && (t.starts_with('"') || !t.contains('"')))
        && text.matches('"').count() == 2 * quoted.len();
    if plain && !quoted.is_empty() && rng.chance(1, 3) {
        how = "quote";
        let i = *rng.pick(&quoted);
        let end = if rng.chance(1, 2) { spans[i].0 } else { spans[i].1 - 1 };
        text.remove(end);
        tokens[i] = "\"".to_string();
    } else if !at_bracket.is_empty() && rng.chance(4, 5) {
        let i = *rng.pick(&at_bracket);
        let range = spans[i].0..spans[i].1;
        how = *rng.pick(&["remove", "replace", "double", "move"]);
        match how {
            "remove" => {
                text.replace_range(range, " ");
                tokens.remove(i);
            }
            "replace" => {
                let new = *rng.pick(&["(", ")", "{", "}"]);
                text.replace_range(range, &format!(" {new} "));
                tokens[i] = new.to_string();
            }
            "double" => {
                let new = if tokens[i].len() == 2 { tokens[i][..1].to_string() } else { tokens[i].clone() };
                text.replace_range(range, &format!(" {new} {} ", tokens[i]));
                tokens.insert(i, new);
            }
            _ => {
                let t = tokens.remove(i);
                text.replace_range(range, " ");
                text.push_str(&format!("\n{t}\n"));
                tokens.push(t);
            }
        }
    }
    at(&text);
    let out = run(&text, &choice.toml());
    let read = match vfcommon::guarded(|| trees::read(&text)) {
        Ok(r) => json!({"ok": r.ok, "tree": r.tree, "same": r.text == text, "error": r.error}),
        Err(e) => json!({"ok": false, "panic": e}),
    };
    json!({
        "how": how, "tokens": tokens, "text": text, "read": read, "out": lines(&out), "error": out.get("error").cloned().unwrap_or(json!("")),
        "res": if out.get("text").is_some() { "ok" } else if out.get("error").is_some() { "error" } else { "panic" },
    })
}

/// Replays what the specification says about texts: `{text, o, out}` and `{text, tree}`; what disagrees is printed.
pub fn replay(path: &str) {
    init(60);
    for case in vfcommon::read_ndjson(path) {
        let text = case["text"].as_str().unwrap();
        at(text);
        if let Some(tree) = case.get("tree") {
            match vfcommon::guarded(|| trees::read(text)) {
                Ok(r) if r.ok && r.text == text && r.tree == *tree => {}
                Ok(r) => emit(&json!({"text": text, "want": tree, "got": r.tree, "ok": r.ok})),
                Err(e) => emit(&json!({"text": text, "panic": e})),
            }
            continue;
        }
        let o = &case["o"];
        let toml = format!(
            "[format]\nline-width = {}\nindent-width = {}\npersistent-line-breaks = {}\nassignment-style = {}\n",
            o["width"], o["indent"], o["persist"], o["assign"]
        );
        let got = run(text, &toml);
        if lines(&got) != case["out"] {
            emit(&json!({"text": text, "toml": toml, "want": case["out"], "got": got}));
            continue;
        }
        let again = run(got["text"].as_str().unwrap(), &toml);
        if again != got {
            emit(&json!({"text": text, "toml": toml, "formatted": got, "again": again}));
        }
    }
}

/// Given programs: `{name, text, toml}`. What is read from them, before and after.
pub fn given(path: &str) {
    init(60);
    for case in vfcommon::read_ndjson(path) {
        let (text, toml) = (case["text"].as_str().unwrap(), case["toml"].as_str().unwrap());
        at(text);
        let read = |text: &str| match vfcommon::guarded(|| trees::read(text)) {
            Ok(r) => json!({"ok": r.ok, "same": r.text == text, "tree": r.tree, "comments": r.comments}),
            Err(e) => json!({"ok": false, "panic": e}),
        };
        let out = run(text, toml);
        let again = out.get("text").map_or(json!({}), |t| run(t.as_str().unwrap(), toml));
        emit(&json!({
            "name": case["name"], "style": case["style"], "text": text.split('\n').collect::<Vec<_>>(),
            "res": if out.get("text").is_some() { "ok" } else if out.get("error").is_some() { "error" } else { "panic" },
            "out": lines(&out), "then": lines(&again), "again": again == out, "before": read(text),
            "read": out.get("text").map_or(json!({"ok": false}), |t| read(t.as_str().unwrap())),
        }));
    }
}
