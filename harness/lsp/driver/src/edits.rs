//! Text edits, by themselves and through the protocol.
use crate::docs::{encoding, place, pos_json, pos_of, position, text};
use aether_lsp_utils::diff::diff;
use aether_lsp_utils::proto::{from_proto, to_proto};
use aether_lsp_utils::text_edit::{TextEdit, TextEditBuilder};
use biome_line_index::LineIndex;
use biome_text_size::{TextRange, TextSize};
use settings::LineEnding;
use tower_lsp::lsp_types;
use vfcommon::{Rng, Value, at, codes, emit, from_codes, guarded, json, read_ndjson};

fn bytes(text: &str, k: usize) -> usize {
    text.char_indices().nth(k).map_or(text.len(), |(b, _)| b)
}
fn size(text: &str, k: usize) -> TextSize {
    TextSize::from(bytes(text, k) as u32)
}
/// Number of characters in front of a byte offset, -2 if that is not between characters.
fn chars(text: &str, b: TextSize) -> i64 {
    let b = u32::from(b) as usize;
    if text.is_char_boundary(b) && b <= text.len() { text[..b].chars().count() as i64 } else { -2 }
}
fn builder(text: &str, ops: &[Value]) -> TextEditBuilder {
    let mut b = TextEdit::builder();
    for op in ops {
        let (s, e) = (size(text, op["s"].as_u64().unwrap() as usize), size(text, op["e"].as_u64().unwrap() as usize));
        let ins = from_codes(&op["ins"]);
        if s == e {
            b.insert(s, ins);
        } else if ins.is_empty() {
            b.delete(TextRange::new(s, e));
        } else {
            b.replace(TextRange::new(s, e), ins);
        }
    }
    b
}
fn indels(text: &str, edit: &TextEdit) -> Value {
    edit.iter()
        .map(|i| json!({"s": chars(text, i.delete.start()), "e": chars(text, i.delete.end()), "ins": codes(&i.insert)}))
        .collect()
}
fn applied(text: &str, edit: &TextEdit) -> Value {
    let mut out = text.to_string();
    edit.apply(&mut out);
    codes(&out)
}

fn build(text: &str, ops: &Value) -> Value {
    let ops = ops.as_array().unwrap();
    let got = guarded(|| {
        let b = builder(text, ops);
        let len = text.chars().count();
        let touched: Vec<u8> = (0..=len).map(|o| b.invalidates_offset(size(text, o)) as u8).collect();
        let edit = b.finish();
        let mut new = text.to_string();
        edit.apply(&mut new);
        let mapped: Vec<i64> =
            (0..=len).map(|o| edit.apply_to_offset(size(text, o)).map_or(-1, |o| chars(&new, o))).collect();
        json!({"kind": "build", "panic": false, "text": codes(text), "ops": ops, "indels": indels(text, &edit), "len": edit.len(),
               "empty": edit.is_empty(), "applied": codes(&new), "mapped": mapped, "touched": touched})
    });
    got.unwrap_or_else(|e| json!({"kind": "build", "panic": true, "text": codes(text), "ops": ops, "why": e}))
}

fn edits_json(edits: &[lsp_types::TextEdit]) -> Value {
    edits
        .iter()
        .map(|e| {
            json!({"start": pos_json((e.range.start.line, e.range.start.character)),
                   "end": pos_json((e.range.end.line, e.range.end.character)), "text": codes(&e.new_text)})
        })
        .collect()
}

/// The small cases of MC_Edits.
pub fn replay(path: &str) {
    for case in read_ndjson(path) {
        at(&case.to_string());
        let text = from_codes(&case["text"]);
        let got = build(&text, &case["ops"]);
        let mut ok = !got["panic"].as_bool().unwrap();
        if ok {
            for key in ["indels", "applied", "mapped", "touched"] {
                ok = ok && got[key] == case[key];
            }
        }
        let mut sent = vec![];
        for (enc, endings) in [("utf8", LineEnding::Crlf), ("utf16", LineEnding::Lf)] {
            let got = guarded(|| {
                let edit = builder(&text, case["ops"].as_array().unwrap()).finish();
                let edits = to_proto::text_edit_vec(edit, &LineIndex::new(&text), encoding(enc), endings).unwrap();
                let mut back = text.clone();
                let json = edits_json(&edits);
                from_proto::apply_text_edits(&mut back, edits, &mut LineIndex::new(&text), encoding(enc));
                json!({"edits": json, "back": codes(&back)})
            });
            let got = got.unwrap_or_else(|e| json!({"edits": e, "back": e}));
            ok = ok && got["edits"] == case[enc] && got["back"] == case["applied"];
            sent.push(got);
        }
        if !ok {
            emit(&json!({"case": case, "got": got, "sent": sent}));
        }
    }
}

/// Random edits of a text, no two of which overlap.
fn ops(rng: &mut Rng, text: &[char], most: usize) -> Vec<Value> {
    let mut out: Vec<(usize, usize, String)> = vec![];
    for _ in 0..rng.below(most + 1) {
        let (i, j) = (place(rng, text), place(rng, text));
        let (i, j) = if rng.chance(1, 2) { (i, i) } else { (i.min(j), i.max(j).min(i.min(j) + 6)) };
        let j = if j > 0 && j < text.len() && text[j - 1] == '\r' && text[j] == '\n' { j + 1 } else { j };
        let ins = if i < j && rng.chance(1, 2) { String::new() } else { crate::docs::text(rng, 3, 0) };
        let apart = |(s, e, _): &(usize, usize, String)| {
            if i == j || s == e { (*s >= j || *e <= i) || (*s == i && *e == j) } else { *s >= j || *e <= i }
        };
        if out.iter().all(apart) {
            out.push((i, j, ins));
        }
    }
    out.into_iter().map(|(s, e, ins)| json!({"s": s, "e": e, "ins": codes(&ins)})).collect()
}

fn any_text(rng: &mut Rng, len: usize) -> String {
    text(rng, len, 0)
}
/// A text that is some edits away.
fn near(rng: &mut Rng, left: &str) -> String {
    let mut cs: Vec<char> = left.chars().collect();
    for _ in 0..rng.below(4) {
        let (i, j) = (place(rng, &cs), place(rng, &cs));
        let (i, j) = (i.min(j), i.max(j).min(i.min(j) + 5));
        let new = any_text(rng, 4);
        cs.splice(i..j, new.chars());
    }
    cs.into_iter().collect()
}

pub fn algebra(n: usize, shard: usize) {
    let mut rng = Rng::from_env(41 + 7 * shard as u64);
    for _ in 0..n {
        let left = any_text(&mut rng, 20);
        at(&left);
        let cs: Vec<char> = left.chars().collect();
        match rng.below(3) {
            0 => emit(&build(&left, &Value::Array(ops(&mut rng, &cs, 24)))),
            1 => {
                let (mut a, mut b) = (ops(&mut rng, &cs, 5), ops(&mut rng, &cs, 5));
                // something that is in both
                if rng.chance(1, 2) {
                    let more: Vec<Value> = a.iter().filter(|_| rng.chance(1, 2)).cloned().collect();
                    if rng.chance(2, 3) {
                        b = more;
                    } else {
                        a = a.split_off(a.len() / 2);
                    }
                }
                let got = guarded(|| {
                    let (x, y) = (builder(&left, &a).finish(), builder(&left, &b).finish());
                    let mut u = x.clone();
                    match u.union(y.clone()) {
                        Ok(()) => json!({"ok": true, "indels": indels(&left, &u), "applied": applied(&left, &u)}),
                        Err(kept) => json!({"ok": false, "indels": indels(&left, &u), "kept": indels(&left, &kept)}),
                    }
                });
                let panic = got.is_err();
                let mut v = got.unwrap_or(json!({}));
                v["kind"] = json!("union");
                v["panic"] = json!(panic);
                v["text"] = codes(&left);
                v["a"] = Value::Array(a);
                v["b"] = Value::Array(b);
                emit(&v);
            }
            _ => {
                let right = if rng.chance(1, 4) { any_text(&mut rng, 20) } else { near(&mut rng, &left) };
                dissimilar::GRAIN.set(rng.below(4) as u8);
                let got = guarded(|| {
                    let d = diff(&left, &right);
                    json!({"kind": "diff", "panic": false, "left": codes(&left), "right": codes(&right), "indels": indels(&left, &d),
                           "applied": applied(&left, &d)})
                });
                emit(&got.unwrap_or(json!({"kind": "diff", "panic": true, "left": codes(&left), "right": codes(&right)})));
            }
        }
    }
}

fn send(rng: &mut Rng, enc: &str) -> Value {
    let crlf = rng.below(3);
    let client = text(rng, 20, crlf);
    let left = client.replace("\r\n", "\n");
    let right = near(rng, &left);
    let crlf = client.split_once('\n').is_some_and(|(l, _)| l.ends_with('\r'));
    let endings = if crlf { LineEnding::Crlf } else { LineEnding::Lf };
    dissimilar::GRAIN.set(rng.below(4) as u8);
    let range = rng.chance(1, 3);
    let got = guarded(|| {
        let index = LineIndex::new(&left);
        let (edits, same) = if range {
            // the part in which the two differ
            let (a, b): (Vec<char>, Vec<char>) = (left.chars().collect(), right.chars().collect());
            let pre = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
            let post = a[pre..].iter().rev().zip(b[pre..].iter().rev()).take_while(|(x, y)| x == y).count();
            let r = TextRange::new(size(&left, pre), size(&left, a.len() - post));
            let new: String = b[pre..b.len() - post].iter().collect();
            let edits = to_proto::replace_range_edit(r, new, &index, encoding(enc), endings).unwrap();
            let whole = to_proto::range(r, &index, encoding(enc)).unwrap();
            let same = edits.len() == 1 && edits[0].range == whole
                && from_proto::text_range(whole, &index, encoding(enc)).unwrap() == r;
            (edits, same)
        } else {
            let edits = to_proto::replace_all_edit(&left, &right, &index, encoding(enc), endings).unwrap();
            let changes = to_proto::doc_edit_vec(diff(&left, &right), &index, encoding(enc), endings).unwrap();
            let same = changes.len() == edits.len()
                && changes.iter().zip(&edits).all(|(c, e)| c.range == Some(e.range) && c.text == e.new_text);
            (edits, same)
        };
        json!({"edits": edits_json(&edits), "same": same})
    });
    let panic = got.is_err();
    let mut v = got.unwrap_or(json!({}));
    v["kind"] = json!("send");
    v["panic"] = json!(panic);
    v["enc"] = json!(enc);
    v["client"] = codes(&client);
    v["right"] = codes(&right);
    v["endings"] = json!(if crlf { "crlf" } else { "lf" });
    v
}

fn receive(rng: &mut Rng, enc: &str) -> Value {
    let client = text(rng, 20, 0);
    let cs: Vec<char> = client.chars().collect();
    let mut list = ops(rng, &cs, 8);
    rng.shuffle(&mut list);
    // of those that begin at one place, insertions come first
    list.sort_by_key(|op| (op["s"].as_u64().unwrap(), op["s"] != op["e"]));
    let mut groups: Vec<Vec<Value>> = vec![];
    for op in list {
        match groups.last_mut() {
            Some(g) if g[0]["s"] == op["s"] => g.push(op),
            _ => groups.push(vec![op]),
        }
    }
    // the places come in any order, mixed
    let mut list = vec![];
    while !groups.is_empty() {
        let k = rng.below(groups.len());
        list.push(groups[k].remove(0));
        if groups[k].is_empty() {
            groups.remove(k);
        }
    }
    let edits: Vec<Value> = list
        .iter()
        .map(|op| {
            let ins = from_codes(&op["ins"]);
            let ins = if rng.chance(1, 3) { ins.replace('\n', "\r\n") } else { ins };
            json!({"start": pos_json(position(&cs, enc, op["s"].as_u64().unwrap() as usize)),
                   "end": pos_json(position(&cs, enc, op["e"].as_u64().unwrap() as usize)), "text": codes(&ins)})
        })
        .collect();
    let got = guarded(|| {
        let mut out = client.clone();
        let edits = edits
            .iter()
            .map(|e| lsp_types::TextEdit {
                range: lsp_types::Range { start: pos_of(&e["start"]), end: pos_of(&e["end"]) },
                new_text: from_codes(&e["text"]),
            })
            .collect();
        from_proto::apply_text_edits(&mut out, edits, &mut LineIndex::new(&client), encoding(enc));
        codes(&out)
    });
    let panic = got.is_err();
    json!({"kind": "receive", "panic": panic, "enc": enc, "text": codes(&client), "edits": edits, "applied": got.unwrap_or(json!([]))})
}

fn places(rng: &mut Rng, enc: &str) -> Value {
    let text = text(rng, 12, 0);
    let got = guarded(|| {
        let index = LineIndex::new(&text);
        let at: Vec<Value> = (0..=text.chars().count())
            .map(|k| {
                let p = to_proto::position_from_offset(size(&text, k), &index, encoding(enc)).unwrap();
                let back = from_proto::offset_from_position(p, &index, encoding(enc)).unwrap();
                json!({"offset": k, "line": p.line, "character": p.character, "back": chars(&text, back)})
            })
            .collect();
        let below = lsp_types::Position { line: text.matches('\n').count() as u32 + 1 + rng.below(2) as u32, character: 0 };
        let beyond = from_proto::offset_from_position(below, &index, encoding(enc)).is_err()
            && from_proto::text_range(lsp_types::Range { start: below, end: below }, &index, encoding(enc)).is_err();
        json!({"at": at, "beyond_is_error": beyond})
    });
    let panic = got.is_err();
    let mut v = got.unwrap_or(json!({}));
    v["kind"] = json!("places");
    v["panic"] = json!(panic);
    v["enc"] = json!(enc);
    v["text"] = codes(&text);
    v
}

pub fn protocol(n: usize, shard: usize) {
    let mut rng = Rng::from_env(51 + 7 * shard as u64);
    for _ in 0..n {
        let enc = *rng.pick(&["utf8", "utf16"]);
        at(enc);
        let v = match rng.below(5) {
            0 | 1 => send(&mut rng, enc),
            2 | 3 => receive(&mut rng, enc),
            _ => places(&mut rng, enc),
        };
        emit(&v);
    }
}
