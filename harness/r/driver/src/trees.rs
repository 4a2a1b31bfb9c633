//! What the parser makes of a text: its tree, its tokens and what is between them.
use air_r_parser::{RParserOptions, parse};
use air_r_syntax::{RSyntaxKind, RSyntaxNode, RSyntaxToken};
use serde_json::{Value, json};

fn token(t: &RSyntaxToken) -> Value {
    json!({"k": "", "s": t.text_trimmed(), "c": []})
}
/// Nodes as they are, except that those of tokens alone are leaves.
pub fn tree(n: &RSyntaxNode) -> Value {
    let kind = format!("{:?}", n.kind());
    let parts: Vec<_> = n.children_with_tokens().filter(|e| e.kind() != RSyntaxKind::EOF).collect();
    if !parts.is_empty() && parts.iter().all(|e| e.as_token().is_some()) {
        let s: String = parts.iter().map(|e| e.as_token().unwrap().text_trimmed().to_string()).collect();
        return json!({"k": kind, "s": s, "c": []});
    }
    let c: Vec<Value> = parts
        .iter()
        .map(|e| match e.as_token() {
            Some(t) => token(t),
            None => tree(e.as_node().unwrap()),
        })
        .collect();
    json!({"k": kind, "s": "", "c": c})
}

pub struct Parsed {
    pub ok: bool,
    pub error: String,
    pub tree: Value,
    pub text: String,
    pub comments: Vec<String>,
    pub trivia: Value,
}
pub fn read(text: &str) -> Parsed {
    let p = parse(text, RParserOptions::default());
    let root = p.syntax();
    let mut comments = vec![];
    let mut trivia: Vec<Value> = vec![];
    let mut of: Option<RSyntaxNode> = None;
    for t in root.descendants_tokens(biome_rowan::Direction::Next) {
        let pieces = |pieces: &[(String, &'static str)]| pieces.iter().map(|(s, k)| json!({"k": k, "s": s})).collect::<Vec<_>>();
        let kind = |p: biome_rowan::SyntaxTriviaPiece<air_r_syntax::RLanguage>| {
            (p.text().to_string(), if p.is_newline() { "newline" } else if p.is_comments() { "comment" } else { "blank" })
        };
        let before: Vec<_> = t.leading_trivia().pieces().map(kind).collect();
        let after: Vec<_> = t.trailing_trivia().pieces().map(kind).collect();
        comments.extend(before.iter().chain(&after).filter(|p| p.1 == "comment").map(|p| p.0.clone()));
        let (b, a) = (pieces(&before), pieces(&after));
        // the tokens of a string are one
        let parent = t.parent().filter(|p| p.kind() == RSyntaxKind::R_STRING_VALUE);
        match trivia.last_mut() {
            Some(last) if parent.is_some() && parent == of && b.is_empty() && last["a"] == json!([]) => {
                *last = json!({"b": last["b"], "t": format!("{}{}", last["t"].as_str().unwrap(), t.text_trimmed()), "a": a});
            }
            _ => trivia.push(json!({"b": b, "t": t.text_trimmed(), "a": a})),
        }
        of = parent;
    }
    let error = p.error().map_or(String::new(), |e| e.to_string());
    Parsed { ok: p.error().is_none(), error, tree: tree(&root), text: root.to_string(), comments, trivia: json!(trivia) }
}

/// A text between tokens, in pieces.
pub fn pieces(gap: &str) -> Value {
    let mut all: Vec<(String, &'static str)> = vec![];
    let mut rest = gap;
    while let Some(c) = rest.chars().next() {
        let (k, n) = match c {
            '\n' => ("newline", 1),
            '#' => ("comment", rest.find('\n').unwrap_or(rest.len())),
            _ => ("blank", rest.find(['\n', '#']).unwrap_or(rest.len())),
        };
        all.push((rest[..n].to_string(), k));
        rest = &rest[n..];
    }
    json!(all.iter().map(|(s, k)| json!({"k": k, "s": s})).collect::<Vec<_>>())
}
