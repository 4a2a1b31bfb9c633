use crate::resolve::{PathItem, PathResolver};
use std::path::{Component, Path, PathBuf};
use vfcommon::{Rng, Value, at, emit, guarded, json, read_ndjson};

/// Names in byte order; a component is 2 + its index. 0 is `/`, 1 is `..`.
const NAMES: &[&str] = &[
    " ", "!", "-", "...", ".R", ".air.toml", "0", "A", "B", "R", "a", "a b", "a!", "a-b", "a.R", "a.b", "aa", "ab",
    "b", "b.R", "user", "user.R", "z", "~", "é", "日本",
];

fn comps(p: &Path) -> Vec<u64> {
    p.components()
        .map(|c| match c {
            Component::RootDir => 0,
            Component::ParentDir => 1,
            Component::Normal(s) => match NAMES.iter().position(|n| Path::new(n).as_os_str() == s) {
                Some(i) => i as u64 + 2,
                None => 9999,
            },
            _ => 9998,
        })
        .collect()
}

/// A spelling of the path: redundant separators and `.` do not change the components.
fn spell(p: &[u64], rng: Option<&mut Rng>) -> PathBuf {
    let mut s = String::new();
    let mut noise = rng;
    for (i, c) in p.iter().enumerate() {
        match c {
            0 => s.push('/'),
            c => {
                if i > 0 && !s.ends_with('/') {
                    s.push('/');
                }
                if let Some(rng) = noise.as_deref_mut() {
                    if i > 0 && rng.chance(1, 12) {
                        s.push_str("./");
                    }
                    if i > 0 && rng.chance(1, 12) {
                        s.push('/');
                    }
                }
                s.push_str(if *c == 1 { ".." } else { NAMES[*c as usize - 2] });
            }
        }
    }
    if let Some(rng) = noise {
        if p.len() > 1 && rng.chance(1, 8) {
            s.push('/');
        }
    }
    PathBuf::from(s)
}

fn item(it: &PathItem<u64>) -> Value {
    json!({"path": comps(it.path()), "value": *it.value()})
}
fn items(r: &PathResolver<u64>) -> Value {
    r.items().iter().map(item).collect()
}
fn opt(v: Option<u64>) -> Value {
    v.into_iter().collect()
}
fn path_of(v: &Value) -> Vec<u64> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
}

pub fn replay(file: &str) {
    let mut rng = Rng::from_env(11);
    for case in read_ndjson(file) {
        at("resolver replay");
        let want = &case["items"];
        let mut mismatch = |what: &str, got: Value, want: &Value, q: &Value| {
            if &got != want {
                emit(&json!({"what": what, "items": case["items"], "path": q, "got": got, "want": want}));
            }
        };
        // Build the table in a random order, with detours.
        let build = |rng: &mut Rng| {
            let mut r = PathResolver::new(999u64);
            let mut todo: Vec<(Vec<u64>, u64)> = want
                .as_array()
                .unwrap()
                .iter()
                .map(|it| (path_of(&it["path"]), it["value"].as_u64().unwrap()))
                .collect();
            rng.shuffle(&mut todo);
            for (p, v) in todo {
                if rng.chance(1, 3) {
                    r.add(spell(&p, None), 55);
                    if rng.chance(1, 2) {
                        r.remove(spell(&p, None));
                    }
                }
                r.add(spell(&p, None), v);
            }
            r
        };
        let res = guarded(|| {
            let r = build(&mut rng);
            mismatch("items", items(&r), want, &json!([]));
            for q in case["queries"].as_array().unwrap() {
                let p = spell(&path_of(&q["path"]), None);
                let got: Value = r.resolve(&p).into_iter().map(item).collect();
                mismatch("resolve", got, &q["resolve"], &q["path"]);
                let got: Value = r.matches(&p).map(item).collect();
                mismatch("matches", got, &q["matches"], &q["path"]);
                let want = q["resolve"].get(0).map_or(999, |it| it["value"].as_u64().unwrap());
                mismatch("fallback", json!(*r.resolve_or_fallback(&p)), &json!(want), &q["path"]);
            }
            for a in case["adds"].as_array().unwrap() {
                let mut r = build(&mut rng);
                let old = opt(r.add(spell(&path_of(&a["path"]), None), 7));
                mismatch("add", old, &a["old"], &a["path"]);
                mismatch("added", items(&r), &a["then"], &a["path"]);
            }
            for a in case["removes"].as_array().unwrap() {
                let mut r = build(&mut rng);
                let old = opt(r.remove(spell(&path_of(&a["path"]), None)));
                mismatch("remove", old, &a["old"], &a["path"]);
                mismatch("removed", items(&r), &a["then"], &a["path"]);
            }
        });
        if let Err(e) = res {
            emit(&json!({"what": "panic", "items": case["items"], "got": e}));
        }
    }
}

pub fn trace(n: usize) {
    let mut rng = Rng::from_env(12);
    for _ in 0..n {
        at("resolver trace");
        // A small alphabet, so that paths nest and collide.
        let k = rng.range(1, 5);
        let names: Vec<u64> = (0..k).map(|_| rng.range(2, NAMES.len() + 1) as u64).collect();
        let rooted = rng.chance(5, 6);
        let fallback = 900 + rng.below(50) as u64;
        let mut r = PathResolver::new(fallback);
        let mut known: Vec<Vec<u64>> = vec![];
        let mut gen_path = |rng: &mut Rng, known: &mut Vec<Vec<u64>>| {
            let mut p: Vec<u64> = if !known.is_empty() && rng.chance(2, 3) {
                rng.pick(known).clone()
            } else if rooted || rng.chance(1, 2) {
                vec![0]
            } else {
                vec![]
            };
            for _ in 0..rng.below(4) {
                if !rooted && rng.chance(1, 20) {
                    p.push(1);
                } else {
                    p.push(*rng.pick(&names));
                }
            }
            if rng.chance(1, 10) {
                p.pop();
            }
            if p.is_empty() {
                p.push(if rooted { 0 } else { names[0] });
            }
            known.push(p.clone());
            p
        };
        let mut events = vec![];
        for _ in 0..rng.range(4, 40) {
            let p = gen_path(&mut rng, &mut known);
            let sp = spell(&p, Some(&mut rng));
            let v = rng.below(900) as u64;
            let pick = rng.below(20);
            let ev = guarded(|| {
                let mut e = match pick {
                    0..=6 => {
                        let ret = opt(r.add(sp, v));
                        json!({"op": "add", "path": p, "v": v, "ret": ret})
                    }
                    7..=9 => {
                        let ret = opt(r.remove(&sp));
                        json!({"op": "remove", "path": p, "ret": ret})
                    }
                    10 if v % 8 == 0 => {
                        r.clear();
                        json!({"op": "clear"})
                    }
                    10 | 11 => {
                        let ret: Value = r.matches(sp.clone()).map(item).collect();
                        let mut seen = vec![];
                        for it in r.matches_mut(sp) {
                            seen.push(item(it));
                            *it.value_mut() = v;
                        }
                        // Both flavours see the same items.
                        let ret = if ret == Value::Array(seen) { ret } else { json!([{"path": [9999], "value": 9999}, "matches and matches_mut differ"]) };
                        json!({"op": "overwrite", "path": p, "v": v, "ret": ret})
                    }
                    12 => json!({"op": "len", "ret": r.len(), "empty": r.is_empty()}),
                    13 | 14 => {
                        let ret: Value = r.matches(sp).map(item).collect();
                        json!({"op": "matches", "path": p, "ret": ret})
                    }
                    15 | 16 => json!({"op": "fallback", "path": p, "ret": *r.resolve_or_fallback(&sp)}),
                    _ => {
                        let ret: Value = r.resolve(&sp).into_iter().map(item).collect();
                        json!({"op": "resolve", "path": p, "ret": ret})
                    }
                };
                e["items"] = items(&r);
                e
            });
            match ev {
                Ok(e) => events.push(e),
                Err(e) => {
                    events.push(json!({"op": "panic", "msg": e}));
                    break;
                }
            }
        }
        emit(&json!({"fallback": fallback, "events": events}));
    }
}
