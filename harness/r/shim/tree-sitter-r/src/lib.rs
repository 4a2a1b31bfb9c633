//! Stand-in for `tree-sitter-r`: a recursive-descent parser of R that names its nodes as that grammar does.
use std::collections::BTreeMap;
use tree_sitter::{LanguageFn, RawNode, RawTree};

pub const LANGUAGE: LanguageFn = LanguageFn(parse);

#[derive(Clone, Copy, PartialEq)]
enum Scope {
    Top,
    Brace,
    Paren,
}
struct P<'a> {
    text: &'a str,
    b: &'a [u8],
    at: usize,
    scope: Scope,
    comments: BTreeMap<usize, usize>,
    nodes: Vec<RawNode>,
    depth: usize,
}
struct Bad;
type R<T> = Result<T, Bad>;

const HELP: u8 = 0;
const LEFT_ASSIGN: u8 = 1;
const EQ_ASSIGN: u8 = 2;
const RIGHT_ASSIGN: u8 = 3;
const TILDE: u8 = 4;
const OR: u8 = 5;
const AND: u8 = 6;
const NOT: u8 = 7;
const REL: u8 = 8;
const ADD: u8 = 9;
const MUL: u8 = 10;
const SPECIAL: u8 = 11;
const COLON: u8 = 12;
const SIGN: u8 = 13;
const EXP: u8 = 14;

/// operator text, binding strength, right associative
const OPS: &[(&str, u8, bool)] = &[
    ("->>", RIGHT_ASSIGN, false), ("->", RIGHT_ASSIGN, false),
    ("<<-", LEFT_ASSIGN, true), ("<-", LEFT_ASSIGN, true), (":=", LEFT_ASSIGN, true),
    ("|>", SPECIAL, false), ("||", OR, false), ("&&", AND, false), ("|", OR, false), ("&", AND, false),
    ("==", REL, false), ("!=", REL, false), ("<=", REL, false), (">=", REL, false), ("<", REL, false), (">", REL, false),
    ("=", EQ_ASSIGN, true), ("?", HELP, false), ("~", TILDE, false), ("+", ADD, false), ("-", ADD, false),
    ("**", EXP, true), ("*", MUL, false), ("/", MUL, false), ("^", EXP, true), (":", COLON, false),
];

fn ident_start(c: char) -> bool {
    c.is_alphabetic() || c == '.' || c == '_'
}
fn ident_part(c: char) -> bool {
    c.is_alphanumeric() || c == '.' || c == '_' || c == '\u{b7}'
}

impl<'a> P<'a> {
    fn node(&mut self, kind: &'static str, children: Vec<usize>) -> usize {
        let start = self.nodes[children[0]].start;
        let end = self.nodes[children[children.len() - 1]].end;
        self.raw(kind, true, start, end, children)
    }
    fn raw(&mut self, kind: &'static str, named: bool, start: usize, end: usize, children: Vec<usize>) -> usize {
        self.nodes.push(RawNode { kind, named, field: None, start, end, parent: 0, index: 0, children });
        self.nodes.len() - 1
    }
    fn field(&mut self, id: usize, name: &'static str) -> usize {
        self.nodes[id].field = Some(name);
        id
    }
    fn rest(&self) -> &'a str {
        &self.text[self.at..]
    }
    fn peek(&self) -> u8 {
        self.b.get(self.at).copied().unwrap_or(0)
    }
    fn looking(&self, s: &str) -> bool {
        self.rest().starts_with(s)
    }
    fn keyword(&self, s: &str) -> bool {
        self.looking(s) && !self.text[self.at + s.len()..].chars().next().is_some_and(ident_part)
    }
    /// skips blanks and comments, and line ends when they mean nothing
    fn skip(&mut self, newlines: bool) {
        while self.at < self.b.len() {
            match self.b[self.at] {
                b' ' | b'\t' | b'\x0c' => self.at += 1,
                b'\r' | b'\n' if newlines => self.at += 1,
                b'#' => {
                    let line = self.rest();
                    let mut len = line.find('\n').unwrap_or(line.len());
                    if line[..len].ends_with('\r') {
                        len -= 1;
                    }
                    self.comments.insert(self.at, self.at + len);
                    self.at += len;
                }
                _ => break,
            }
        }
    }
    fn skip_in_scope(&mut self) {
        self.skip(self.scope == Scope::Paren)
    }
    fn leaf(&mut self, kind: &'static str, named: bool, len: usize) -> usize {
        let start = self.at;
        self.at += len;
        self.raw(kind, named, start, start + len, vec![])
    }
    /// a punctuation mark or keyword, after any blanks and line ends
    fn expect(&mut self, s: &'static str, kind: &'static str) -> R<usize> {
        self.skip(true);
        if !self.looking(s) {
            return Err(Bad);
        }
        Ok(self.leaf(kind, kind == "comma", s.len()))
    }
    fn within<T>(&mut self, scope: Scope, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let outer = std::mem::replace(&mut self.scope, scope);
        let res = f(self);
        self.scope = outer;
        res
    }

    fn program(&mut self) -> R<Vec<usize>> {
        let mut list = vec![];
        loop {
            self.separators();
            if self.at == self.b.len() {
                return Ok(list);
            }
            list.push(self.expr(HELP)?);
        }
    }
    fn separators(&mut self) {
        loop {
            self.skip(true);
            if self.peek() != b';' {
                return;
            }
            self.at += 1;
        }
    }

    fn expr(&mut self, min: u8) -> R<usize> {
        self.depth += 1;
        if self.depth > 400 {
            return Err(Bad);
        }
        let res = self.expr_(min);
        self.depth -= 1;
        res
    }
    fn expr_(&mut self, min: u8) -> R<usize> {
        self.skip(true);
        let mut left = self.prefix()?;
        loop {
            let back = self.at;
            self.skip_in_scope();
            let (op, strength, right) = match self.operator() {
                Some(o) if o.1 >= min => o,
                _ => {
                    self.at = back;
                    return Ok(left);
                }
            };
            let kind = if op.starts_with('%') { "special" } else { op };
            let len = if kind == "special" { self.rest()[1..].find('%').unwrap() + 2 } else { op.len() };
            let op = self.leaf(kind, kind == "special", len);
            let value = self.expr(if right { strength } else { strength + 1 })?;
            self.field(left, "lhs");
            self.field(op, "operator");
            self.field(value, "rhs");
            left = self.node("binary_operator", vec![left, op, value]);
        }
    }
    fn operator(&self) -> Option<(&'static str, u8, bool)> {
        if self.peek() == b'%' {
            let end = self.rest()[1..].find(['%', '\n'])?;
            return (self.b[self.at + 1 + end] == b'%').then_some(("%", SPECIAL, false));
        }
        if self.looking("::") {
            return None;
        }
        OPS.iter().find(|o| self.looking(o.0)).copied()
    }

    fn prefix(&mut self) -> R<usize> {
        let unary: Option<(&'static str, u8)> = match self.peek() {
            b'-' => Some(("-", SIGN)),
            b'+' => Some(("+", SIGN)),
            b'!' => Some(("!", NOT)),
            b'~' => Some(("~", TILDE)),
            b'?' => Some(("?", HELP)),
            _ => None,
        };
        if let Some((op, strength)) = unary {
            let op = self.leaf(op, false, 1);
            // an operand binds at least as tightly, so that equal operators to its right stay outside
            let value = self.expr(if strength == NOT { strength } else { strength + 1 })?;
            self.field(op, "operator");
            self.field(value, "rhs");
            return Ok(self.node("unary_operator", vec![op, value]));
        }
        if self.keyword("function") || self.peek() == b'\\' {
            let len = if self.peek() == b'\\' { 1 } else { 8 };
            let kw = self.leaf(if len == 1 { "\\" } else { "function" }, false, len);
            let params = self.parameters()?;
            let body = self.expr(LEFT_ASSIGN)?;
            self.field(kw, "name");
            self.field(params, "parameters");
            self.field(body, "body");
            return Ok(self.node("function_definition", vec![kw, params, body]));
        }
        if self.keyword("if") {
            let kw = self.leaf("if", false, 2);
            let open = self.expect("(", "(")?;
            let cond = self.within(Scope::Paren, |p| p.expr(HELP))?;
            let close = self.expect(")", ")")?;
            let yes = self.expr(LEFT_ASSIGN)?;
            self.field(cond, "condition");
            self.field(yes, "consequence");
            let mut list = vec![kw, open, cond, close, yes];
            let back = self.at;
            self.skip(self.scope != Scope::Top);
            if self.keyword("else") {
                list.push(self.leaf("else", false, 4));
                let no = self.expr(LEFT_ASSIGN)?;
                list.push(self.field(no, "alternative"));
            } else {
                self.at = back;
            }
            return Ok(self.node("if_statement", list));
        }
        if self.keyword("while") {
            let kw = self.leaf("while", false, 5);
            let open = self.expect("(", "(")?;
            let cond = self.within(Scope::Paren, |p| p.expr(HELP))?;
            let close = self.expect(")", ")")?;
            let body = self.expr(LEFT_ASSIGN)?;
            self.field(cond, "condition");
            self.field(body, "body");
            return Ok(self.node("while_statement", vec![kw, open, cond, close, body]));
        }
        if self.keyword("for") {
            let kw = self.leaf("for", false, 3);
            let open = self.expect("(", "(")?;
            self.skip(true);
            let var = self.identifier()?;
            self.skip(true);
            if !self.keyword("in") {
                return Err(Bad);
            }
            let inn = self.leaf("in", false, 2);
            let seq = self.within(Scope::Paren, |p| p.expr(HELP))?;
            let close = self.expect(")", ")")?;
            let body = self.expr(LEFT_ASSIGN)?;
            self.field(var, "variable");
            self.field(seq, "sequence");
            self.field(body, "body");
            return Ok(self.node("for_statement", vec![kw, open, var, inn, seq, close, body]));
        }
        if self.keyword("repeat") {
            let kw = self.leaf("repeat", false, 6);
            let body = self.expr(LEFT_ASSIGN)?;
            self.field(body, "body");
            return Ok(self.node("repeat_statement", vec![kw, body]));
        }
        let primary = self.primary()?;
        self.postfix(primary)
    }

    fn primary(&mut self) -> R<usize> {
        match self.peek() {
            b'{' => {
                let open = self.leaf("{", false, 1);
                let mut list = vec![open];
                self.within(Scope::Brace, |p| {
                    loop {
                        p.separators();
                        if p.peek() == b'}' {
                            return Ok(());
                        }
                        let e = p.expr(HELP)?;
                        list.push(p.field(e, "body"));
                    }
                })?;
                list.push(self.leaf("}", false, 1));
                Ok(self.node("braced_expression", list))
            }
            b'(' => {
                let open = self.leaf("(", false, 1);
                let e = self.within(Scope::Paren, |p| p.expr(HELP))?;
                self.field(e, "body");
                let close = self.expect(")", ")")?;
                Ok(self.node("parenthesized_expression", vec![open, e, close]))
            }
            b'"' | b'\'' => self.string(),
            b'r' | b'R' if matches!(self.b.get(self.at + 1), Some(b'"' | b'\'')) => self.raw_string(),
            b'`' => self.identifier(),
            b'0'..=b'9' => self.number(),
            b'.' if matches!(self.b.get(self.at + 1), Some(b'0'..=b'9')) => self.number(),
            _ => self.word(),
        }
    }
    fn string(&mut self) -> R<usize> {
        let quote = self.peek();
        let open = self.leaf("string_open", true, 1);
        let start = self.at;
        while self.at < self.b.len() && self.peek() != quote {
            self.at += if self.peek() == b'\\' { 2 } else { 1 };
        }
        if self.at >= self.b.len() {
            return Err(Bad);
        }
        self.finish_string(open, start, 1)
    }
    fn finish_string(&mut self, open: usize, start: usize, close: usize) -> R<usize> {
        let mut list = vec![open];
        if start < self.at {
            let content = self.raw("string_content", true, start, self.at, vec![]);
            list.push(self.field(content, "content"));
        }
        list.push(self.leaf("string_close", true, close));
        Ok(self.node("string", list))
    }
    fn raw_string(&mut self) -> R<usize> {
        let quote = self.b[self.at + 1] as char;
        let dashes = self.rest()[2..].bytes().take_while(|b| *b == b'-').count();
        let closer = match self.b.get(self.at + 2 + dashes) {
            Some(b'(') => ')',
            Some(b'[') => ']',
            Some(b'{') => '}',
            _ => return Err(Bad),
        };
        let close = format!("{closer}{}{quote}", "-".repeat(dashes));
        let open = self.leaf("string_open", true, 3 + dashes);
        let start = self.at;
        match self.rest().find(&close) {
            None => Err(Bad),
            Some(len) => {
                self.at += len;
                self.finish_string(open, start, close.len())
            }
        }
    }
    fn number(&mut self) -> R<usize> {
        let rest = self.rest().as_bytes();
        let digits = |mut i: usize, hex: bool| {
            while i < rest.len() && (rest[i].is_ascii_digit() || hex && rest[i].is_ascii_hexdigit()) {
                i += 1;
            }
            i
        };
        let mut i;
        if rest.len() > 2 && rest[0] == b'0' && (rest[1] | 32) == b'x' {
            i = digits(2, true);
            if i == 2 && rest.get(i) != Some(&b'.') {
                return Err(Bad);
            }
            if i < rest.len() && rest[i] == b'.' {
                i = digits(i + 1, true);
            }
            if i < rest.len() && (rest[i] | 32) == b'p' {
                i += 1 + usize::from(i + 1 < rest.len() && matches!(rest[i + 1], b'+' | b'-'));
                i = digits(i, false);
            }
        } else {
            i = digits(0, false);
            if i < rest.len() && rest[i] == b'.' {
                i = digits(i + 1, false);
            }
            if i < rest.len() && (rest[i] | 32) == b'e' {
                i += 1 + usize::from(i + 1 < rest.len() && matches!(rest[i + 1], b'+' | b'-'));
                i = digits(i, false);
            }
        }
        match rest.get(i) {
            Some(b'L') => {
                let start = self.at;
                self.at += i;
                let suffix = self.leaf("L", false, 1);
                Ok(self.raw("integer", true, start, self.at, vec![suffix]))
            }
            Some(b'i') => {
                let start = self.at;
                self.at += i;
                let suffix = self.leaf("i", false, 1);
                Ok(self.raw("complex", true, start, self.at, vec![suffix]))
            }
            _ => Ok(self.leaf("float", true, i)),
        }
    }
    fn word_len(&self) -> R<usize> {
        let rest = self.rest();
        if rest.starts_with('`') {
            let mut i = 1;
            let b = rest.as_bytes();
            while i < b.len() && b[i] != b'`' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            return if i < b.len() { Ok(i + 1) } else { Err(Bad) };
        }
        let mut chars = rest.char_indices();
        match chars.next() {
            Some((_, c)) if ident_start(c) => {}
            _ => return Err(Bad),
        }
        if rest.starts_with('.') && rest[1..].starts_with(|c: char| c.is_ascii_digit()) {
            return Err(Bad);
        }
        Ok(chars.find(|(_, c)| !ident_part(*c)).map_or(rest.len(), |(i, _)| i))
    }
    fn identifier(&mut self) -> R<usize> {
        let len = self.word_len()?;
        if keyword(&self.rest()[..len]).is_some() {
            return Err(Bad);
        }
        Ok(self.leaf("identifier", true, len))
    }
    fn word(&mut self) -> R<usize> {
        let len = self.word_len()?;
        let word = &self.rest()[..len];
        match keyword(word) {
            None => Ok(self.leaf("identifier", true, len)),
            Some("") => Err(Bad),
            Some("na") => {
                let kind = ["NA", "NA_integer_", "NA_real_", "NA_complex_", "NA_character_"].into_iter().find(|k| *k == word).unwrap();
                let inner = self.leaf(kind, false, len);
                Ok(self.node("na", vec![inner]))
            }
            Some(kind) => Ok(self.leaf(kind, true, len)),
        }
    }

    fn postfix(&mut self, mut left: usize) -> R<usize> {
        loop {
            let back = self.at;
            self.skip_in_scope();
            if self.looking("::") {
                let op = if self.looking(":::") { ":::" } else { "::" };
                if !matches!(self.nodes[left].kind, "identifier" | "string" | "dots" | "dot_dot_i") {
                    return Err(Bad);
                }
                let op = self.leaf(op, false, op.len());
                self.field(left, "lhs");
                self.field(op, "operator");
                let mut list = vec![left, op];
                if let Some(rhs) = self.member(&["identifier", "string", "dots", "dot_dot_i"]) {
                    list.push(self.field(rhs, "rhs"));
                }
                left = self.node("namespace_operator", list);
                continue;
            }
            match self.peek() {
                b'$' | b'@' => {
                    let op = if self.peek() == b'$' { "$" } else { "@" };
                    let op = self.leaf(op, false, 1);
                    self.field(left, "lhs");
                    self.field(op, "operator");
                    let mut list = vec![left, op];
                    if let Some(rhs) = self.member(&["identifier", "string", "dots", "dot_dot_i"]) {
                        list.push(self.field(rhs, "rhs"));
                    }
                    left = self.node("extract_operator", list);
                }
                b'(' => left = self.call(left, "call", "(", ")")?,
                b'[' if self.looking("[[") => left = self.call(left, "subset2", "[[", "]]")?,
                b'[' => left = self.call(left, "subset", "[", "]")?,
                _ => {
                    self.at = back;
                    return Ok(left);
                }
            }
        }
    }
    fn member(&mut self, kinds: &[&str]) -> Option<usize> {
        let back = self.at;
        self.skip(true);
        if let Ok(id) = self.primary_leaf()
            && kinds.contains(&self.nodes[id].kind)
        {
            return Some(id);
        }
        self.at = back;
        None
    }
    fn primary_leaf(&mut self) -> R<usize> {
        match self.peek() {
            b'{' | b'(' => Err(Bad),
            _ => self.primary(),
        }
    }
    fn call(&mut self, function: usize, kind: &'static str, open: &'static str, close: &'static str) -> R<usize> {
        let first = self.leaf(open, false, open.len());
        let mut list = vec![first];
        self.within(Scope::Paren, |p| {
            let mut separated = true;
            loop {
                p.skip(true);
                if p.looking(close) {
                    return Ok(());
                }
                if p.peek() == b',' {
                    list.push(p.leaf("comma", true, 1));
                    separated = true;
                    continue;
                }
                if !std::mem::replace(&mut separated, false) {
                    return Err(Bad);
                }
                let arg = p.argument(close)?;
                list.push(p.field(arg, "argument"));
            }
        })?;
        list.push(self.leaf(close, false, close.len()));
        let args = self.node("arguments", list);
        self.field(function, "function");
        self.field(args, "arguments");
        Ok(self.node(kind, vec![function, args]))
    }
    fn argument(&mut self, close: &str) -> R<usize> {
        let back = self.at;
        if let Some(name) = self.member(&["identifier", "string", "dots", "dot_dot_i", "null"]) {
            self.skip(true);
            if self.peek() == b'=' && !self.looking("==") {
                let eq = self.leaf("=", false, 1);
                self.field(name, "name");
                let mut list = vec![name, eq];
                let before = self.at;
                self.skip(true);
                if !self.looking(close) && self.peek() != b',' {
                    let value = self.expr(HELP)?;
                    list.push(self.field(value, "value"));
                } else {
                    self.at = before;
                }
                return Ok(self.node("argument", list));
            }
        }
        self.at = back;
        let value = self.expr(HELP)?;
        self.field(value, "value");
        Ok(self.node("argument", vec![value]))
    }
    fn parameters(&mut self) -> R<usize> {
        let open = self.expect("(", "(")?;
        let mut list = vec![open];
        self.within(Scope::Paren, |p| {
            p.skip(true);
            if p.peek() == b')' {
                return Ok(());
            }
            loop {
                p.skip(true);
                let Some(name) = p.member(&["identifier", "dots", "dot_dot_i"]) else { return Err(Bad) };
                p.field(name, "name");
                let mut one = vec![name];
                p.skip(true);
                if p.peek() == b'=' {
                    one.push(p.leaf("=", false, 1));
                    let value = p.expr(HELP)?;
                    one.push(p.field(value, "default"));
                }
                let one = p.node("parameter", one);
                list.push(p.field(one, "parameter"));
                p.skip(true);
                if p.peek() != b',' {
                    return Ok(());
                }
                list.push(p.leaf("comma", true, 1));
            }
        })?;
        list.push(self.expect(")", ")")?);
        Ok(self.node("parameters", list))
    }
}

/// The node kind of a reserved word, "" when it cannot stand for an expression.
fn keyword(word: &str) -> Option<&'static str> {
    Some(match word {
        "TRUE" => "true",
        "FALSE" => "false",
        "NULL" => "null",
        "Inf" => "inf",
        "NaN" => "nan",
        "NA" | "NA_integer_" | "NA_real_" | "NA_complex_" | "NA_character_" => "na",
        "next" => "next",
        "break" => "break",
        "..." => "dots",
        "function" | "if" | "else" | "for" | "in" | "while" | "repeat" => "",
        _ if word.len() > 2 && word.starts_with("..") && word[2..].bytes().all(|b| b.is_ascii_digit()) => "dot_dot_i",
        _ => return None,
    })
}

fn parse(text: &str) -> RawTree {
    let mut p = P { text, b: text.as_bytes(), at: 0, scope: Scope::Top, comments: BTreeMap::new(), nodes: vec![], depth: 0 };
    let res = p.program();
    let (children, error) = match res {
        Ok(list) => (list, false),
        Err(Bad) => (vec![], true),
    };
    let start = children.first().map_or(0, |c| p.nodes[*c].start);
    let root = p.raw("program", true, start, text.len(), children);
    if !error {
        let comments: Vec<_> = p.comments.iter().map(|(a, b)| (*a, *b)).collect();
        for (start, end) in comments {
            let mut at = root;
            while let Some(inner) = p.nodes[at].children.iter().copied().find(|c| p.nodes[*c].start < start && end < p.nodes[*c].end) {
                at = inner;
            }
            let id = p.raw("comment", true, start, end, vec![]);
            let place = p.nodes[at].children.iter().position(|c| p.nodes[*c].start > start).unwrap_or(p.nodes[at].children.len());
            p.nodes[at].children.insert(place, id);
        }
    }
    let mut todo = vec![root];
    while let Some(id) = todo.pop() {
        let children = p.nodes[id].children.clone();
        for (index, c) in children.iter().enumerate() {
            p.nodes[*c].parent = id;
            p.nodes[*c].index = index;
        }
        todo.extend(children);
    }
    let lines = std::iter::once(0).chain(text.match_indices('\n').map(|(i, _)| i + 1)).collect();
    RawTree { nodes: p.nodes, root, error, lines }
}
