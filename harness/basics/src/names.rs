use settings::{Skip, SortedStrings, Table};
use vfcommon::{Rng, Value, at, emit, guarded, json};

/// In byte order.
const NAMES: &[&str] = &[
    " ", ".f", "A", "B", "Z", "_", "a", "a.b", "aa", "ab", "fcase", "graveyard", "list", "matrix", "r", "tribble", "tribbles", "z", "z9", "é", "日本",
];
fn ix(s: &str) -> u64 {
    NAMES.iter().position(|n| *n == s).map_or(9999, |i| i as u64 + 1)
}
fn idx(s: &[String]) -> Value {
    s.iter().map(|s| json!(ix(s))).collect()
}
/// Names separated by `, `. None of them holds a comma.
fn shown(s: String) -> Value {
    if s.is_empty() { json!([]) } else { s.split(", ").map(|s| json!(ix(s))).collect() }
}
fn words(ks: &[usize]) -> Vec<String> {
    ks.iter().map(|k| NAMES[*k - 1].to_string()).collect()
}
enum L {
    Sorted(SortedStrings),
    Skip(Skip),
    Table(Table),
}
fn build(flavour: usize, w: Vec<String>) -> L {
    match flavour {
        0 => L::Sorted(SortedStrings::new(w)),
        1 => L::Sorted(serde_json::from_value(json!(w)).unwrap()),
        2 => L::Skip(serde_json::from_value(json!(w)).unwrap()),
        3 => {
            let mut t = toml::Table::new();
            t.insert("x".into(), toml::Value::Array(w.into_iter().map(toml::Value::String).collect()));
            let mut v: std::collections::BTreeMap<String, Skip> = toml::from_str(&toml::to_string(&t).unwrap()).unwrap();
            L::Skip(v.remove("x").unwrap())
        }
        4 => L::Table(serde_json::from_value(json!(w)).unwrap()),
        _ => L::Table(Table::new(w)),
    }
}
impl L {
    fn contains(&self, s: &str) -> bool {
        match self {
            L::Sorted(x) => x.contains(s),
            L::Skip(x) => x.contains(s),
            L::Table(x) => x.contains(s),
        }
    }
    fn show(&self) -> String {
        match self {
            L::Sorted(x) => x.to_string(),
            L::Skip(x) => x.to_string(),
            L::Table(x) => x.to_string(),
        }
    }
    fn same(&self, o: &L) -> bool {
        match (self, o) {
            (L::Sorted(x), L::Sorted(y)) => x == y,
            (L::Skip(x), L::Skip(y)) => x == y,
            (L::Table(x), L::Table(y)) => x == y,
            _ => false,
        }
    }
    fn slice(&self) -> Value {
        match self {
            L::Sorted(x) => idx(x.as_slice()),
            L::Skip(x) => shown(x.to_string()),
            L::Table(x) => idx(x.as_slice()),
        }
    }
}

pub fn trace(n: usize) {
    let mut rng = Rng::from_env(24);
    for _ in 0..n {
        at("names");
        let mut events = vec![];
        let flavour = rng.below(6);
        let pool = rng.range(1, NAMES.len());
        let some = |rng: &mut Rng, m: usize| -> Vec<usize> { (0..rng.below(m + 1)).map(|_| rng.range(1, pool)).collect() };
        let names = some(&mut rng, 9);
        let res = guarded(|| {
            let mut l = build(flavour, words(&names));
            events.push(json!({"op": "new", "flavour": flavour, "names": names, "slice": l.slice()}));
            for _ in 0..rng.range(1, 6) {
                match rng.below(5) {
                    0 => {
                        if let L::Table(t) = &l {
                            let more = some(&mut rng, 5);
                            let m = t.merge(&Table::new(words(&more)));
                            l = L::Table(m);
                            events.push(json!({"op": "merge", "names": more, "slice": l.slice()}));
                        }
                    }
                    1 => events.push(json!({"op": "show", "ret": shown(l.show())})),
                    2 => {
                        let mut other = if rng.chance(1, 2) { names.clone() } else { some(&mut rng, 9) };
                        rng.shuffle(&mut other);
                        let o = build(flavour, words(&other));
                        events.push(json!({"op": "equal", "names": other, "ret": l.same(&o)}));
                    }
                    _ => {
                        let probes: Vec<usize> = (1..=NAMES.len()).collect();
                        let ret: Vec<bool> = NAMES.iter().map(|n| l.contains(n)).collect();
                        events.push(json!({"op": "contains", "probes": probes, "ret": ret}));
                    }
                }
            }
        });
        if let Err(m) = res {
            events.push(json!({"op": "panic", "msg": m}));
        }
        emit(&json!({"events": events}));
    }
}
