use crate::settings::{DEFAULT_TABLE, LineEnding};
use std::borrow::Cow;
use vfcommon::{Rng, Value, at, codes, emit, from_codes, guarded, json, read_ndjson};

const OPTIONS: [(&str, LineEnding); 4] =
    [("auto", LineEnding::Auto), ("lf", LineEnding::Lf), ("crlf", LineEnding::Crlf), ("native", LineEnding::Native)];

fn name(e: settings::LineEnding) -> &'static str {
    match e {
        settings::LineEnding::Lf => "lf",
        settings::LineEnding::Crlf => "crlf",
    }
}

fn observe(text: &str) -> Value {
    guarded(|| {
        let reference = line_ending::normalize_ref(text);
        let finals: Vec<Value> = OPTIONS.iter().map(|(o, e)| json!({"option": o, "result": name(e.finalize(text))})).collect();
        json!({
            "text": codes(text), "panic": false,
            "infer": name(line_ending::infer(text)),
            "normalize": codes(&line_ending::normalize(text.to_string())),
            "normalize_ref": codes(&reference),
            "borrowed": matches!(reference, Cow::Borrowed(_)),
            "finals": finals,
        })
    })
    .unwrap_or_else(|e| json!({"text": codes(text), "panic": true, "msg": e}))
}

pub fn replay(file: &str) {
    for case in read_ndjson(file) {
        let text = from_codes(&case["text"]);
        at(&text);
        let got = observe(&text);
        let ok = got["panic"] == false
            && got["infer"] == case["infer"]
            && got["normalize"] == case["normalize"]
            && got["normalize_ref"] == case["normalize"]
            && (0..4).all(|i| got["finals"][i]["result"] == case["finals"][i]);
        if !ok {
            emit(&json!({"text": text, "want": case, "got": got}));
        }
    }
}

pub fn trace(n: usize) {
    let mut rng = Rng::from_env(31);
    const PIECES: &[&str] = &["\r\n", "\n", "\r", "x", "é", "日本", "\u{1F600}", "\u{2028}", "\r\r\n", "\n\r", "x <- 1", " ", "# a", "\u{0}", "\r\n\r\n", "\u{85}"];
    for _ in 0..n {
        let mut text = String::new();
        let k = rng.range(1, PIECES.len());
        let off = rng.below(PIECES.len());
        for _ in 0..rng.below(25) {
            text.push_str(PIECES[(off + rng.below(k)) % PIECES.len()]);
        }
        at(&text);
        emit(&observe(&text));
    }
}

/// The setting as it is written in configuration, and the built-in table functions.
pub fn options() {
    let mut events = vec![json!({"op": "default", "kind": "line-ending", "value": LineEnding::default().to_string().to_lowercase()})];
    for word in ["auto", "lf", "crlf", "native", "Auto", "LF", "CRLF", "cr", "", "unix", "windows", "lf ", "\n"] {
        for notation in ["json", "toml"] {
            let r: Option<LineEnding> = if notation == "json" {
                serde_json::from_value(json!(word)).ok()
            } else {
                let mut t = toml::Table::new();
                t.insert("x".into(), toml::Value::String(word.into()));
                toml::to_string(&t)
                    .ok()
                    .and_then(|s| toml::from_str::<std::collections::BTreeMap<String, LineEnding>>(&s).ok())
                    .and_then(|m| m.into_values().next())
            };
            events.push(match r {
                None => json!({"op": "name", "kind": "line-ending", "notation": notation, "name": word, "accepted": false}),
                Some(v) => json!({"op": "name", "kind": "line-ending", "notation": notation, "name": word, "accepted": true,
                    "shown": v.to_string(), "back": serde_json::to_value(v).unwrap()}),
            });
        }
    }
    emit(&json!({"events": events}));
}

/// Indices into the names of the `names` driver.
pub fn builtin() {
    let ret: Vec<u64> = DEFAULT_TABLE.as_slice().iter().map(|n| match n.as_str() { "fcase" => 11, "tribble" => 16, _ => 9999 }).collect();
    let found = ["fcase", "tribble", "list", "tribbles", "Tribble", ""].map(|n| DEFAULT_TABLE.contains(n));
    let op = if found == [true, true, false, false, false, false] { "builtin" } else { "wrong lookup" };
    emit(&json!({"events": [{"op": op, "names": [16, 11], "ret": ret}]}));
}
