use settings::{AssignmentStyle, IndentStyle, IndentWidth, LineEnding, LineWidth, PersistentLineBreaks};
use std::num::{NonZeroU8, NonZeroU16};
use std::str::FromStr;
use vfcommon::{Rng, Value, at, emit, guarded, json};

#[derive(serde::Deserialize)]
struct Lw {
    x: LineWidth,
}
#[derive(serde::Deserialize)]
struct Iw {
    x: IndentWidth,
}

/// What an accepted width shows to the outside, or why it was rejected.
fn line_forms(r: Result<LineWidth, String>) -> Result<Vec<Value>, String> {
    let w = r?;
    Ok(vec![
        json!(w.value()),
        json!(u16::from(w)),
        json!(NonZeroU16::from(w).get()),
        serde_json::from_str(&w.to_string()).unwrap_or(Value::Null),
        serde_json::from_str(&format!("{w:?}")).unwrap_or(Value::Null),
        serde_json::to_value(w).unwrap_or(Value::Null),
    ])
}
fn indent_forms(r: Result<IndentWidth, String>) -> Result<Vec<Value>, String> {
    let w = r?;
    Ok(vec![
        json!(w.value()),
        json!(u8::from(w)),
        json!(NonZeroU8::from(w).get()),
        serde_json::from_str(&w.to_string()).unwrap_or(Value::Null),
        serde_json::from_str(&format!("{w:?}")).unwrap_or(Value::Null),
        serde_json::to_value(w).unwrap_or(Value::Null),
    ])
}
fn e<T: std::fmt::Display>(e: T) -> String {
    e.to_string()
}
fn width(kind: &str, notation: &str, n: i64) -> Option<Result<Vec<Value>, String>> {
    Some(match (kind, notation) {
        ("line-width", "u16") => line_forms(LineWidth::try_from(u16::try_from(n).ok()?).map_err(e)),
        ("line-width", "nonzero") => line_forms(LineWidth::try_from(NonZeroU16::new(u16::try_from(n).ok()?)?).map_err(e)),
        ("line-width", "toml") => line_forms(toml::from_str::<Lw>(&format!("x = {n}")).map(|w| w.x).map_err(e)),
        ("line-width", "json") => line_forms(serde_json::from_str::<LineWidth>(&n.to_string()).map_err(e)),
        ("indent-width", "u8") => indent_forms(IndentWidth::try_from(u8::try_from(n).ok()?).map_err(e)),
        ("indent-width", "usize") => indent_forms(IndentWidth::try_from(usize::try_from(n).ok()?).map_err(e)),
        ("indent-width", "nonzero") => indent_forms(IndentWidth::try_from(NonZeroU8::new(u8::try_from(n).ok()?)?).map_err(e)),
        ("indent-width", "toml") => indent_forms(toml::from_str::<Iw>(&format!("x = {n}")).map(|w| w.x).map_err(e)),
        ("indent-width", "json") => indent_forms(serde_json::from_str::<IndentWidth>(&n.to_string()).map_err(e)),
        _ => return None,
    })
}
const NOTATIONS: &[(&str, &str, i64)] = &[
    ("line-width", "u16", 65535), ("line-width", "nonzero", 65535), ("line-width", "toml", 70000), ("line-width", "json", 70000),
    ("indent-width", "u8", 255), ("indent-width", "usize", 70000), ("indent-width", "nonzero", 255), ("indent-width", "toml", 70000),
    ("indent-width", "json", 70000),
];
fn limit(kind: &str) -> &'static str {
    if kind == "line-width" { "320" } else { "24" }
}

fn event(kind: &str, notation: &str, n: i64) -> Option<Value> {
    let r = match guarded(|| width(kind, notation, n)) {
        Ok(r) => r?,
        Err(p) => return Some(json!({"op": "panic", "kind": kind, "notation": notation, "n": n, "msg": p})),
    };
    Some(match r {
        Ok(mut forms) => {
            forms.sort_by_key(|f| f.to_string());
            forms.dedup();
            json!({"op": "width", "kind": kind, "notation": notation, "n": n, "accepted": true, "forms": forms})
        }
        // The messages of our types say what is allowed; out of the integer type's range serde answers.
        Err(m) => json!({"op": "width", "kind": kind, "notation": notation, "n": n, "accepted": false,
            "named": !own_message(kind, n) || (m.contains(limit(kind)) && m.contains(&n.to_string()))}),
    })
}
fn own_message(kind: &str, n: i64) -> bool {
    (0..=(if kind == "line-width" { 65535 } else { 255 })).contains(&n)
}

fn named(kind: &str, notation: &str, s: &str) -> Value {
    fn ev<T: std::fmt::Display + std::fmt::Debug + FromStr>(kind: &str, notation: &str, s: &str, r: Option<T>, back: impl Fn(&T) -> Option<String>) -> Value {
        match r {
            None => json!({"op": "name", "kind": kind, "notation": notation, "name": s, "accepted": false}),
            Some(v) => json!({"op": "name", "kind": kind, "notation": notation, "name": s, "accepted": true, "shown": v.to_string(), "back": back(&v).unwrap_or_default()}),
        }
    }
    fn ser<T: serde::Serialize>(v: &T) -> Option<String> {
        serde_json::to_value(v).ok()?.as_str().map(String::from)
    }
    fn de<T: serde::de::DeserializeOwned>(notation: &str, s: &str) -> Option<T> {
        if notation == "json" {
            serde_json::from_value(json!(s)).ok()
        } else {
            let mut t = toml::Table::new();
            t.insert("x".into(), toml::Value::String(s.into()));
            let v: std::collections::BTreeMap<String, T> = toml::from_str(&toml::to_string(&t).ok()?).ok()?;
            v.into_values().next()
        }
    }
    match (kind, notation) {
        ("assignment-style", "text") => ev::<AssignmentStyle>(kind, notation, s, s.parse().ok(), ser),
        ("assignment-style", n) => ev::<AssignmentStyle>(kind, n, s, de(n, s), ser),
        ("indent-style", "text") => ev::<IndentStyle>(kind, notation, s, s.parse().ok(), |v| {
            (v.is_tab() != v.is_space() && v.is_tab() == (*v == IndentStyle::Tab)).then(|| ser(v)).flatten()
        }),
        ("indent-style", n) => ev::<IndentStyle>(kind, n, s, de(n, s), ser),
        // No kebab-case here: its serialized form is not what configuration uses.
        ("persistent-line-breaks", _) => ev::<PersistentLineBreaks>(kind, "text", s, s.parse().ok(), |v| {
            if v.is_respect() == v.is_ignore() {
                return None;
            }
            let again: PersistentLineBreaks = serde_json::from_value(serde_json::to_value(v).ok()?).ok()?;
            if again != *v {
                return None;
            }
            Some(if v.is_respect() { "respect" } else { "ignore" }.into())
        }),
        _ => json!({"op": "panic"}),
    }
}

pub fn trace(n: usize) {
    let mut rng = Rng::from_env(23);
    // Every number, once.
    for (kind, notation, top) in NOTATIONS {
        at(&format!("{kind} {notation} range"));
        let lo = if matches!(*notation, "toml" | "json") { -300 } else { 0 };
        let mut accepted: Vec<[i64; 2]> = vec![];
        let mut wrong = vec![];
        for k in lo..=*top {
            match guarded(|| width(kind, notation, k)) {
                Ok(None) => {}
                Ok(Some(Ok(forms))) => {
                    if forms.iter().any(|f| f != &json!(k)) {
                        wrong.push(k);
                    }
                    match accepted.last_mut() {
                        Some(iv) if iv[1] + 1 == k => iv[1] = k,
                        _ => accepted.push([k, k]),
                    }
                }
                Ok(Some(Err(m))) => {
                    if own_message(kind, k) && !(m.contains(limit(kind)) && m.contains(&k.to_string())) {
                        wrong.push(k);
                    }
                }
                Err(_) => wrong.push(k),
            }
        }
        wrong.truncate(5);
        emit(&json!({"events": [{"op": "range", "kind": kind, "notation": notation, "lo": lo, "hi": top, "accepted": accepted, "wrong": wrong}]}));
    }
    let mut defaults = vec![
        json!({"op": "default", "kind": "line-width", "value": LineWidth::default().value()}),
        json!({"op": "default", "kind": "indent-width", "value": IndentWidth::default().value()}),
    ];
    let d = |k: &str, v: String| json!({"op": "default", "kind": k, "value": v.to_lowercase()});
    defaults.push(d("assignment-style", AssignmentStyle::default().to_string()));
    defaults.push(d("indent-style", IndentStyle::default().to_string()));
    defaults.push(d("persistent-line-breaks", PersistentLineBreaks::default().to_string()));
    emit(&json!({"events": defaults}));
    // The resolved line ending has two values, told apart by what they show.
    emit(&json!({"events": [{"op": "shown", "ret": [LineEnding::Lf.to_string(), LineEnding::Crlf.to_string()]}]}));

    const WORDS: &[&str] = &[
        "arrow", "equal", "preserve", "tab", "space", "respect", "ignore", "Arrow", "Tab", "SPACE", "respect ", " equal", "", "auto", "tabs", "<-", "=",
        "preserv", "spaces", "Respect", "none", "Equal", "Preserve", "Space", "Ignore", "équal",
    ];
    for _ in 0..n {
        at("values");
        let mut events = vec![];
        for _ in 0..rng.range(1, 12) {
            if rng.chance(1, 2) {
                let (kind, notation, top) = *rng.pick(NOTATIONS);
                let n = match rng.below(4) {
                    0 => rng.below(30) as i64,
                    1 => rng.range(300, 340) as i64,
                    2 => *rng.pick(&[0, 1, 2, 24, 25, 80, 255, 256, 257, 280, 319, 320, 321, 344, 576, 65535, 65536, 65537, 65560, 65856, -1]),
                    _ => rng.below(top as usize) as i64,
                };
                events.extend(event(kind, notation, n));
            } else {
                let kind = *rng.pick(&["assignment-style", "indent-style", "persistent-line-breaks"]);
                let notation = *rng.pick(&["text", "json", "toml"]);
                let w = *rng.pick(WORDS);
                events.push(guarded(|| named(kind, notation, w)).unwrap_or_else(|m| json!({"op": "panic", "msg": m, "name": w})));
            }
        }
        emit(&json!({"events": events}));
    }
}
