//! Documents and their changes.
use aether_lsp_utils::proto::{PositionEncoding, from_proto, to_proto};
use biome_line_index::WideEncoding;
use biome_text_size::TextSize;
use lsp::documents::Document;
use tower_lsp::lsp_types;
use vfcommon::{Rng, Value, at, codes, emit, from_codes, guarded, json, read_ndjson};

pub fn encoding(name: &str) -> PositionEncoding {
    match name {
        "utf8" => PositionEncoding::Utf8,
        _ => PositionEncoding::Wide(WideEncoding::Utf16),
    }
}

fn units(enc: &str, c: char) -> u32 {
    if enc == "utf8" { c.len_utf8() as u32 } else { c.len_utf16() as u32 }
}

/// The position of the `k`th character.
pub fn position(text: &[char], enc: &str, k: usize) -> (u32, u32) {
    let line = text[..k].iter().filter(|c| **c == '\n').count();
    let start = text[..k].iter().rposition(|c| *c == '\n').map_or(0, |i| i + 1);
    (line as u32, text[start..k].iter().map(|c| units(enc, *c)).sum())
}
pub fn pos_json(p: (u32, u32)) -> Value {
    json!({"line": p.0, "character": p.1})
}
pub fn pos_of(v: &Value) -> lsp_types::Position {
    lsp_types::Position { line: v["line"].as_u64().unwrap() as u32, character: v["character"].as_u64().unwrap() as u32 }
}

/// Random text of a few lines: `crlf` of 0 has no CRs, of 2 no other line ends.
pub fn text(rng: &mut Rng, len: usize, crlf: usize) -> String {
    const PIECES: &[&str] = &["a", "b", " ", "x <- 1", "é", "中", "𐐀", "😀", "# c", "(", ")", "f(x)", "\"s\"", "\u{301}", "'", ";", "\t"];
    let mut out = String::new();
    for _ in 0..rng.below(len + 1) {
        if rng.chance(1, 4) {
            let cr = match crlf {
                0 => false,
                2 => true,
                _ => rng.chance(1, 2),
            };
            out.push_str(if cr { "\r\n" } else { "\n" });
        } else {
            out.push_str(*rng.pick(PIECES));
        }
    }
    out
}

/// A place between two characters, but not within a line end.
pub fn place(rng: &mut Rng, text: &[char]) -> usize {
    let k = rng.below(text.len() + 1);
    if k > 0 && text[k - 1] == '\r' && text.get(k) == Some(&'\n') { k - 1 } else { k }
}

fn change_of(v: &Value) -> lsp_types::TextDocumentContentChangeEvent {
    let full = v["full"].as_bool().unwrap();
    lsp_types::TextDocumentContentChangeEvent {
        range: (!full).then(|| lsp_types::Range { start: pos_of(&v["start"]), end: pos_of(&v["end"]) }),
        range_length: None,
        text: from_codes(&v["text"]),
    }
}

fn endings(doc: &Document) -> &'static str {
    match doc.endings {
        settings::LineEnding::Lf => "lf",
        settings::LineEnding::Crlf => "crlf",
    }
}

fn seen(doc: &Document, enc: &str, rng: &mut Rng) -> Value {
    let contents: Vec<char> = doc.contents.chars().collect();
    let mut probes = vec![];
    for _ in 0..3 {
        let k = rng.below(contents.len() + 1);
        let bytes: usize = contents[..k].iter().map(|c| c.len_utf8()).sum();
        let got = guarded(|| {
            let p = to_proto::position_from_offset(TextSize::from(bytes as u32), &doc.line_index, encoding(enc)).unwrap();
            let back: u32 = from_proto::offset_from_position(p, &doc.line_index, encoding(enc)).unwrap().into();
            let back = doc.contents[..back as usize].chars().count();
            json!({"offset": k, "line": p.line, "character": p.character, "back": back})
        });
        probes.push(got.unwrap_or(json!({"offset": k, "line": 1000000, "character": 0, "back": 0})));
    }
    let fresh = air_r_parser::parse(&doc.contents, Default::default());
    let parsed = doc.parse.has_error() == fresh.has_error()
        && (fresh.has_error() || doc.syntax().to_string() == fresh.syntax().to_string());
    json!({"panic": false, "contents": codes(&doc.contents), "probes": probes, "parsed": parsed, "version": doc.version.unwrap_or(-1)})
}
fn panicked() -> Value {
    json!({"panic": true, "contents": [], "probes": [], "parsed": false, "version": -1})
}

fn apply(doc: Document, changes: &Value, version: i32) -> Option<Document> {
    let changes = changes.as_array().unwrap().iter().map(change_of).collect();
    guarded(move || {
        let mut doc = doc;
        doc.on_did_change(changes, version);
        doc
    })
    .ok()
}

pub fn replay(path: &str) {
    let mut rng = Rng::from_env(31);
    for case in read_ndjson(path) {
        at(&case.to_string());
        let enc = case["enc"].as_str().unwrap();
        let mut doc = Some(Document::new(from_codes(&case["open"]), Some(0), encoding(enc)));
        for (i, changes) in case["notes"].as_array().unwrap().iter().enumerate() {
            doc = doc.and_then(|doc| apply(doc, changes, i as i32 + 1));
        }
        let got = doc.as_ref().map_or(panicked(), |doc| seen(doc, enc, &mut rng));
        if got["contents"] != case["contents"] || !got["parsed"].as_bool().unwrap() {
            emit(&json!({"case": case, "got": got}));
        }
    }
}

/// A change of the client's text, and the text after it.
fn change(rng: &mut Rng, client: &mut Vec<char>, enc: &str, crlf: usize, floor: &mut usize, ordered: bool) -> Value {
    let long = if rng.chance(1, 5) { 8 } else { 2 };
    if !ordered && rng.chance(1, 12) {
        let new = text(rng, 20, crlf);
        *client = new.chars().collect();
        return json!({"full": true, "text": codes(&new)});
    }
    let new = if rng.chance(1, 5) { String::new() } else { text(rng, long, crlf) };
    let (mut i, mut j) = (place(rng, client), place(rng, client));
    if rng.chance(1, 3) {
        j = i;
    }
    if ordered {
        // from the bottom up, as some editors have it
        let at = |k: usize| {
            let k = k.min(*floor);
            if k > 0 && client[k - 1] == '\r' && client.get(k) == Some(&'\n') { k - 1 } else { k }
        };
        (i, j) = (at(i), at(j));
    }
    let (i, j) = (i.min(j), i.max(j));
    *floor = i;
    let v = json!({"full": false, "start": pos_json(position(client, enc, i)), "end": pos_json(position(client, enc, j)),
                   "text": codes(&new)});
    client.splice(i..j, new.chars());
    v
}

pub fn trace(n: usize, shard: usize) {
    let mut rng = Rng::from_env(32 + 7 * shard as u64);
    for _ in 0..n {
        let enc = *rng.pick(&["utf8", "utf16"]);
        let crlf = rng.below(3);
        let open = text(&mut rng, 24, crlf);
        at(&open);
        let mut doc = Document::new(open.clone(), Some(0), encoding(enc));
        let first = seen(&doc, enc, &mut rng);
        let ends = endings(&doc);
        let mut client: Vec<char> = open.chars().collect();
        let (mut notes, mut version) = (vec![], 0);
        for _ in 0..rng.range(1, 4) {
            let batch = if rng.chance(1, 2) { rng.range(2, 6) } else { 1 };
            let ordered = rng.chance(1, 2);
            let mut floor = client.len();
            let changes: Vec<Value> =
                (0..batch).map(|_| change(&mut rng, &mut client, enc, crlf, &mut floor, ordered)).collect();
            let changes = Value::Array(changes);
            version += rng.range(1, 3) as i32;
            match apply(doc.clone(), &changes, version) {
                Some(new) => {
                    doc = new;
                    notes.push(json!({"changes": changes, "version": version, "seen": seen(&doc, enc, &mut rng)}));
                }
                None => {
                    notes.push(json!({"changes": changes, "version": version, "seen": panicked()}));
                    break;
                }
            }
        }
        emit(&json!({"enc": enc, "open": codes(&open), "endings": ends, "seen": first, "notes": notes}));
    }
}
