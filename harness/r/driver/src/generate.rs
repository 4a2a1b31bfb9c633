//! Random R programs: a tree, and a text of it with a random layout.
use vfcommon::Rng;
use serde_json::{Value, json};

/// A node of a program. `s` is a text, an operator or a keyword; `nl` counts the line ends before the node's first
/// token, `x` those before the comma that follows an argument, or before the `else` of an `if`.
#[derive(Clone, Debug)]
pub struct Node {
    pub k: &'static str,
    pub s: String,
    pub nl: usize,
    pub x: usize,
    /// the comments right before the first token: (text, line ends before it)
    pub before: Vec<(String, usize)>,
    /// the comment on the same line, after the last token
    pub after: String,
    /// comments at the end of a braced list or of the file
    pub last: Vec<(String, usize)>,
    /// as it is written, where a comment asks for it to be left alone
    pub raw: Option<String>,
    pub c: Vec<Node>,
}
impl Node {
    pub fn new(k: &'static str, s: impl Into<String>, c: Vec<Node>) -> Self {
        Self { k, s: s.into(), nl: 0, x: 0, before: vec![], after: String::new(), last: vec![], raw: None, c }
    }
    pub fn json(&self) -> Value {
        let comments = |list: &[(String, usize)]| list.iter().map(|(s, n)| json!({"s": s, "n": n})).collect::<Vec<_>>();
        let lines: Vec<&str> = if self.k == "str" { self.s.split('\n').collect() } else { vec![] };
        let raw: Vec<&str> = self.raw.as_ref().map_or(vec![], |raw| raw.split('\n').collect());
        json!({
            "ls": lines, "v": raw, "k": self.k, "s": self.s, "nl": self.nl, "x": self.x, "b": comments(&self.before), "a": self.after,
            "z": comments(&self.last), "c": self.c.iter().map(Node::json).collect::<Vec<_>>(),
        })
    }
    fn first(&mut self, nl: usize, before: Vec<(String, usize)>) {
        self.nl = nl;
        if self.k == "arg" || self.k == "stm" {
            self.before = before;
        }
        match self.k {
            "bin" | "ns" | "ext" | "call" | "sub" | "sub2" => self.c[0].first(nl, vec![]),
            "pos" => self.c[0].first(nl, vec![]),
            _ => {}
        }
    }
}

pub const HELP: u8 = 0;
pub const LEFT: u8 = 1;
const NEVER: u8 = 100;

fn strength(op: &str) -> (u8, bool) {
    match op {
        "?" => (HELP, false),
        "<-" | "<<-" | ":=" => (LEFT, true),
        "=" => (2, true),
        "->" | "->>" => (3, false),
        "~" => (4, false),
        "|" | "||" => (5, false),
        "&" | "&&" => (6, false),
        "==" | "!=" | "<" | "<=" | ">" | ">=" => (8, false),
        "+" | "-" => (9, false),
        "*" | "/" => (10, false),
        ":" => (12, false),
        "^" | "**" => (14, true),
        _ => (11, false),
    }
}
fn unary_min(op: &str) -> u8 {
    match op {
        "!" => 7,
        "~" => 5,
        "?" => 1,
        _ => 14,
    }
}
fn operand_min(op: &str) -> u8 {
    let (s, right) = strength(op);
    if op == "==" || s == 8 { 9 } else { s + u8::from(!right) }
}
const ASSIGNMENTS: &[&str] = &["=", "<-", "<<-", ":="];
/// The weakest operator that, written after this node, would be absorbed by it.
fn absorbs(n: &Node) -> u8 {
    match n.k {
        "bin" => operand_min(&n.s).min(absorbs(&n.c[1])),
        "un" => unary_min(&n.s).min(absorbs(&n.c[0])),
        "fun" | "for" | "while" | "rep" | "if" => LEFT.min(absorbs(n.c.last().unwrap())),
        _ => NEVER,
    }
}
/// Ends with an `if` that a following `else` would belong to.
fn open_if(n: &Node) -> bool {
    match n.k {
        "if" => n.c.len() == 2 || open_if(&n.c[2]),
        "bin" | "un" | "fun" | "for" | "while" | "rep" => open_if(n.c.last().unwrap()),
        _ => false,
    }
}
fn starts_with_brace(n: &Node) -> bool {
    match n.k {
        "brace" => true,
        "bin" | "ns" | "ext" | "call" | "sub" | "sub2" => starts_with_brace(&n.c[0]),
        _ => false,
    }
}
fn paren(n: Node) -> Node {
    Node::new("par", "", vec![n])
}
/// As an operand that is parsed with operators of at least `min`.
fn operand(n: Node, min: u8) -> Node {
    if n.k == "bin" && strength(&n.s).0 < min { paren(n) } else { n }
}
pub fn binary(op: &str, left: Node, right: Node) -> Node {
    let (s, _) = strength(op);
    let left = if s >= absorbs(&left) || (s == 8 && left.k == "bin" && strength(&left.s).0 == 8) { paren(left) } else { left };
    let right = operand(right, operand_min(op));
    // How `=` nests with other assignments is nothing to rely on: R and its tree-sitter grammar differ. (`<-` becomes `=`.)
    let mixed = |n: &Node| {
        n.k == "bin" && n.s != op && ASSIGNMENTS.contains(&op) && ASSIGNMENTS.contains(&n.s.as_str())
            && (op == "=" || op == "<-" || n.s == "=")
    };
    let (left, right) = (if mixed(&left) { paren(left) } else { left }, if mixed(&right) { paren(right) } else { right });
    Node::new("bin", op, vec![left, right])
}
/// Assignments in assignments in parentheses: what is left alone keeps its operator, what is around it does not.
pub fn separate(n: &mut Node) {
    let assigns = |n: &Node| n.k == "bin" && ASSIGNMENTS.contains(&n.s.as_str());
    if assigns(n) {
        for i in 0..2 {
            if assigns(&n.c[i]) {
                n.c[i] = paren(n.c[i].clone());
            }
        }
    }
    n.c.iter_mut().for_each(separate);
}
fn unary(op: &str, n: Node) -> Node {
    Node::new("un", op, vec![operand(n, unary_min(op))])
}
fn body(n: Node) -> Node {
    let n = operand(n, LEFT);
    if n.k != "brace" && starts_with_brace(&n) { paren(n) } else { n }
}

#[derive(Clone, Copy)]
pub struct Style {
    /// chance in 100 of a line end where one may be
    pub newline: usize,
    /// chance in 100 of odd spacing
    pub odd: usize,
    /// chance in 1000 of a comment anywhere
    pub comment: usize,
    /// chance in 100 of comments around statements and arguments
    pub tidy: usize,
    /// long names
    pub long: usize,
    /// strings that span lines
    pub multi: bool,
    /// chance in 100 that a comment asks for what follows to be left alone
    pub skip: usize,
    /// chance in 100 that a call is to a function that settings can name
    pub table: usize,
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub style: Style,
    budget: i32,
}
/// strings that span lines
const LINES: &[&str] = &["\"first\n  second\"", "'\n'", "\"one\n\ntwo \n\tthree\"", "'a\nb\n\n\n'", "\"\n  a\n# no comment\n\""];
const SHORT: &[&str] = &["a", "b", "x", "y", "df", "fn", "i", ".x", "n1", "col", "T", "`a b`", "xs"];
const LONG: &[&str] = &[
    "a_rather_long_name", "another.long.name", "some_threshold_value", "the_quick_brown_fox_jumps_over", "data_frame_number_one",
    "compute_something_expensive", "lazyDogLazyDogLazyDog",
];
const LITS: &[&str] = &["1", "2L", "1.5", "1e10", "0x1F", "2i", "TRUE", "FALSE", "NULL", "NA", "NA_character_", "Inf", "NaN", "...", "..1", "next", "break"];
const STRS: &[&str] = &["\"s\"", "'t'", "\"a \\\" b\"", "r\"(raw \")\"", "\"\"", "\"a longer piece of text\"", "'# not a comment'"];
/// functions that settings name
pub const NAMED: &[&str] = &["tribble", "fcase", "matrix", "asis"];
const NUMBERS: &[&str] = &["1", "10", "100", "2.25", "100.5", "1.", ".5", "12L", "3L", "1e3", "0.1234"];
const PIPES: &[&str] = &["|>", "%>%", "%in%", "%||%"];
const ARITH: &[&str] = &["+", "-", "*", "/"];

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, style: Style, budget: i32) -> Self {
        Self { rng, style, budget }
    }
    fn one(&mut self, list: &[&'static str]) -> &'static str {
        list[self.rng.below(list.len())]
    }
    fn name(&mut self) -> Node {
        let s = if self.rng.chance(self.style.long, 100) { self.one(LONG) } else { self.one(SHORT) };
        Node::new("id", s, vec![])
    }
    fn string(&mut self) -> Node {
        if self.style.multi && self.rng.chance(1, 4) {
            return Node::new("str", self.one(LINES), vec![]);
        }
        Node::new("str", self.one(STRS), vec![])
    }
    fn atom(&mut self) -> Node {
        match self.rng.below(10) {
            0..=5 => self.name(),
            6..=7 => Node::new("lit", self.one(LITS), vec![]),
            8 => self.string(),
            _ => Node::new("lit", "1", vec![]),
        }
    }
    pub fn program(&mut self) -> Node {
        let n = if self.style.tidy > 0 && self.rng.chance(1, 20) { 0 } else { 1 + self.rng.below(3) };
        let c = (0..n).map(|_| self.statement()).collect();
        Node::new("root", "", c)
    }
    fn statement(&mut self) -> Node {
        let n = match self.rng.below(10) {
            0..=3 => {
                let op = self.one(&["<-", "<-", "<-", "=", "=", "<<-", "->", ":="]);
                let (l, r) = (self.target(), self.expr());
                binary(op, l, r)
            }
            4 => {
                let (l, r) = (self.target(), self.expr());
                let inner = binary(self.one(&["<-", "=", "<<-"]), l, r);
                let l = self.target();
                binary(self.one(&["=", "<-", "<<-", ":="]), l, inner)
            }
            _ => self.expr(),
        };
        Node::new("stm", "", vec![n])
    }
    fn target(&mut self) -> Node {
        if self.rng.chance(3, 4) { self.name() } else { self.postfix() }
    }
    fn braces(&mut self) -> Node {
        let n = *self.rng.pick(&[0, 1, 1, 1, 2, 2, 3]);
        let c = (0..n).map(|_| self.statement()).collect();
        Node::new("brace", "", c)
    }
    fn body(&mut self) -> Node {
        if self.rng.chance(2, 5) { self.braces() } else { let e = self.value(); body(e) }
    }
    /// An expression in a place where `=` may be an operator.
    fn value(&mut self) -> Node {
        if self.rng.chance(1, 6) {
            let op = self.one(&["<-", "=", "<<-"]);
            let (l, r) = (self.target(), self.expr());
            return binary(op, l, r);
        }
        self.expr()
    }
    pub fn expr(&mut self) -> Node {
        self.budget -= 1;
        if self.budget <= 0 {
            return self.atom();
        }
        match self.rng.below(34) {
            0..=4 => self.atom(),
            5..=10 => self.call("call"),
            11 => self.call("sub"),
            12 => self.call("sub2"),
            13..=15 => self.chain(),
            16 => {
                let op = self.one(&["==", "!=", "<", "<=", ">", ">="]);
                let (l, r) = (self.expr(), self.expr());
                binary(op, l, r)
            }
            17 => {
                let op = self.one(&["<-", "<-", "<<-", "->", "->>", ":=", "~", "~"]);
                let (l, r) = (self.expr(), self.expr());
                binary(op, l, r)
            }
            18 => {
                let op = self.one(&[":", "^", "**", "?"]);
                let (l, r) = (self.expr(), self.expr());
                binary(op, l, r)
            }
            19 => {
                let op = self.one(&["|", "||", "&", "&&"]);
                let (l, r) = (self.expr(), self.expr());
                binary(op, l, r)
            }
            20..=21 => {
                let op = self.one(&["-", "!", "~", "~", "+", "?"]);
                let e = self.expr();
                unary(op, e)
            }
            22 => {
                let e = self.value();
                paren(e)
            }
            23 => self.braces(),
            24..=26 => self.function(),
            27..=28 => {
                let (c, y) = (self.expr(), self.body());
                let mut c = vec![c, y];
                if self.rng.chance(2, 3) {
                    if open_if(&c[1]) {
                        let y = c.pop().unwrap();
                        c.push(paren(y));
                    }
                    c.push(self.body());
                }
                Node::new("if", "", c)
            }
            29 => {
                let (v, s, b) = (self.name(), self.expr(), self.body());
                Node::new("for", "", vec![v, s, b])
            }
            30 => {
                let (c, b) = (self.expr(), self.body());
                Node::new("while", "", vec![c, b])
            }
            31 => {
                let b = self.body();
                Node::new("rep", "", vec![b])
            }
            _ => self.postfix(),
        }
    }
    fn chain(&mut self) -> Node {
        let ops = *self.rng.pick(&[PIPES, ARITH, PIPES, ARITH, &["|>", "+"], &["&&", "||"]]);
        let mut e = self.expr();
        for _ in 0..1 + self.rng.below(3) {
            let op = self.one(ops);
            let r = if self.rng.chance(2, 3) { self.call("call") } else { self.expr() };
            e = binary(op, e, r);
        }
        e
    }
    fn function(&mut self) -> Node {
        let kw = self.one(&["function", "function", "\\"]);
        let n = *self.rng.pick(&[0, 1, 1, 2, 3]);
        let params = (0..n)
            .map(|_| {
                let name = if self.rng.chance(1, 8) { "...".to_string() } else { self.name().s };
                let default = if self.rng.chance(1, 3) { vec![self.expr()] } else { vec![] };
                Node::new("param", name, default)
            })
            .collect();
        let b = self.body();
        Node::new("fun", kw, vec![Node::new("params", "", params), b])
    }
    fn postfix(&mut self) -> Node {
        match self.rng.below(5) {
            0 => {
                let (l, r) = (self.name(), self.name());
                Node::new("ns", self.one(&["::", ":::"]), vec![l, r])
            }
            1..=2 => {
                let (l, r) = (self.callee(), self.name());
                Node::new("ext", self.one(&["$", "@"]), vec![l, r])
            }
            3 => self.call("sub"),
            _ => self.call("sub2"),
        }
    }
    fn callee(&mut self) -> Node {
        self.budget -= 1;
        if self.rng.chance(self.style.table, 100) {
            let f = Node::new("id", self.one(NAMED), vec![]);
            if self.rng.chance(1, 5) {
                let p = self.name();
                return Node::new("ns", self.one(&["::", ":::"]), vec![p, f]);
            }
            return f;
        }
        if self.budget <= 0 {
            return self.name();
        }
        match self.rng.below(12) {
            0..=6 => self.name(),
            7 => self.postfix(),
            8 => self.call("call"),
            9 => {
                let e = self.expr();
                paren(e)
            }
            _ => {
                let (l, r) = (self.name(), self.name());
                Node::new("ns", "::", vec![l, r])
            }
        }
    }
    fn call(&mut self, k: &'static str) -> Node {
        let f = self.callee();
        let n = *self.rng.pick(&[0, 1, 1, 1, 2, 2, 3, 4]);
        let cells = k == "call" && self.rng.chance(self.style.table, 100);
        let mut args: Vec<Node> = if cells {
            (0..2 + self.rng.below(8)).map(|_| self.cell()).collect()
        } else {
            (0..n).map(|_| self.argument()).collect()
        };
        if !cells && self.rng.chance(1, 12) {
            let s = self.string();
            let b = self.braces();
            args = vec![Node::new("pos", "", vec![s]), Node::new("pos", "", vec![b])];
        }
        // a single hole is no argument at all
        if args.len() == 1 && args[0].k == "hole" {
            args.clear();
        }
        let args = args.into_iter().map(|a| Node::new("arg", "", vec![a])).collect();
        Node::new(k, "", vec![f, Node::new("args", "", args)])
    }
    fn cell(&mut self) -> Node {
        let v = match self.rng.below(16) {
            0..=5 => Node::new("lit", self.one(NUMBERS), vec![]),
            6..=7 => {
                let op = self.one(&["-", "-", "+", "!"]);
                unary(op, Node::new("lit", self.one(NUMBERS), vec![]))
            }
            8..=9 => self.string(),
            10 => {
                let n = self.name();
                unary("~", n)
            }
            11 => self.name(),
            12 => Node::new("lit", self.one(LITS), vec![]),
            13 => return self.argument(),
            _ => {
                self.budget = self.budget.min(3);
                self.expr()
            }
        };
        Node::new("pos", "", vec![v])
    }
    fn argument(&mut self) -> Node {
        match self.rng.below(24) {
            0..=1 => Node::new("hole", "", vec![]),
            2..=6 => {
                let (n, v) = (self.name(), self.expr());
                let n = if self.rng.chance(1, 12) { self.one(&["\"s\"", "NULL", "...", "'a b'", "..1"]).to_string() } else { n.s };
                Node::new("named", n, vec![v])
            }
            7 => {
                let n = self.name();
                Node::new("named", n.s, vec![])
            }
            8..=10 => {
                let f = self.function();
                Node::new("pos", "", vec![f])
            }
            11..=12 => {
                let b = self.braces();
                Node::new("pos", "", vec![b])
            }
            13 => {
                let v = self.name();
                let v = Node::new("stm", "", vec![v]);
                let v = Node::new("stm", "", vec![Node::new("brace", "", vec![v])]);
                Node::new("pos", "", vec![Node::new("brace", "", vec![v])])
            }
            _ => {
                let e = self.expr();
                Node::new("pos", "", vec![e])
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Scope {
    Top,
    Brace,
    Paren,
}

/// Writes a program down, choosing its layout, and notes the layout in the tree.
pub struct Writer<'a> {
    rng: &'a mut Rng,
    style: Style,
    pub text: String,
    pub tokens: Vec<String>,
    pub spans: Vec<(usize, usize)>,
    pub comments: Vec<String>,
    scope: Scope,
    nl: usize,
    gap: String,
    before: Vec<(String, usize)>,
    /// a comment ends the line that the text is on
    must_end: bool,
    /// one comment at most, where two of them are not kept apart
    few: bool,
}
fn joins(a: char, b: char) -> bool {
    let word = |c: char| c.is_alphanumeric() || c == '.' || c == '_';
    let op = |c: char| "<>=-+*/^&|!~?:%@$\\".contains(c);
    word(a) && word(b) || op(a) && op(b) || a == '`' && b == '`' || word(a) && (b == '"' || b == '\'')
}
/// `{{ a }}`, or what looks like it
fn curly(n: &Node) -> bool {
    let only = |n: &Node, k: &str| n.c.len() == 1 && n.c[0].c[0].k == k;
    only(n, "brace") && only(&n.c[0].c[0], "id")
}
impl<'a> Writer<'a> {
    pub fn new(rng: &'a mut Rng, style: Style) -> Self {
        Self {
            rng, style, text: String::new(), tokens: vec![], spans: vec![], comments: vec![], scope: Scope::Top, nl: 0, gap: String::new(), before: vec![], must_end: false, few: false,
        }
    }
    fn blank(&mut self) {
        if self.rng.chance(self.style.odd, 100) {
            let s = *self.rng.pick(&["", " ", "  ", "\t", "   "]);
            self.gap.push_str(s);
        } else if !self.gap.ends_with([' ', '\n']) {
            self.gap.push(' ');
        }
    }
    fn newline(&mut self) {
        self.gap.push('\n');
        self.nl += 1;
        self.must_end = false;
    }
    fn comment(&mut self) -> String {
        let text = format!("# c{}", self.comments.len() + 1);
        self.comments.push(text.clone());
        text
    }
    /// A comment that may be a directive.
    fn own(&mut self) -> String {
        if !self.rng.chance(self.style.skip, 100) {
            return self.comment();
        }
        let text = match self.rng.below(8) {
            0..=3 => "# fmt: skip",
            4..=5 => "# fmt: table",
            6 => *self.rng.pick(&["#fmt: skip", "## fmt: skip", "# fmt:skip", "#fmt:table"]),
            _ => *self.rng.pick(&["# fmt: skip now", "# fmt : skip", "# please fmt: skip", "# fmt: tables", "# skip", "# fmt: skip file"]),
        };
        let text = text.to_string();
        self.comments.push(text.clone());
        text
    }
    /// Comments on lines of their own, before what comes next.
    fn comments(&mut self) {
        if self.nl == 0 {
            self.newline();
        }
        for _ in 0..1 + self.rng.below(2) {
            self.indentation();
            let c = self.own();
            self.gap.push_str(&c);
            self.before.push((c, self.nl));
            self.nl = 0;
            self.newline();
            if self.rng.chance(1, 5) {
                self.newline();
            }
        }
    }
    fn indentation(&mut self) {
        if self.rng.chance(self.style.odd, 100) {
            self.gap.push_str("  ");
        }
    }
    /// A comment at the end of the line; what comes next is on another one.
    fn end_of_line(&mut self) -> String {
        let c = self.comment();
        if self.rng.chance(3, 4) {
            self.gap.push(' ');
        }
        self.gap.push_str(&c);
        c
    }
    fn tidily(&mut self, of: usize) -> bool {
        self.rng.chance(self.style.tidy, of)
    }
    /// The text from token number `from` to the last one, if the comments ask for it.
    fn raw(&self, comments: &[(String, usize)], from: usize) -> Option<String> {
        if !comments.iter().any(|c| c.0.contains("fmt")) {
            return None;
        }
        self.written(from)
    }
    fn written(&self, from: usize) -> Option<String> {
        Some(self.text[self.spans[from].0..self.spans.last().unwrap().1].to_string())
    }
    /// A place where blanks may be, and line ends too when `lines`.
    fn gap(&mut self, lines: bool, space: bool) {
        if space {
            self.blank();
        } else if self.rng.chance(self.style.odd, 200) {
            self.gap.push(' ');
        }
        if lines && self.rng.chance(self.style.comment, 1000) {
            let most = if self.few { 1 } else { 2 };
            for _ in 0..1 + self.rng.below(most) {
                if self.rng.chance(1, 2) {
                    self.newline();
                }
                let c = self.comment();
                self.gap.push_str(&c);
                self.before.push((c, self.nl));
                self.nl = 0;
                self.newline();
            }
        }
        if lines && self.rng.chance(self.style.newline, 100) {
            for _ in 0..*self.rng.pick(&[1, 1, 1, 1, 2, 3, 4]) {
                self.newline();
                if self.rng.chance(self.style.odd, 100) {
                    self.gap.push_str("  ");
                }
            }
        }
    }
    fn token(&mut self, s: &str) {
        assert!(!self.must_end, "a token in a comment: {}{}", self.text, self.gap);
        let merge = self.text.chars().next_back().zip(s.chars().next()).is_some_and(|(a, b)| joins(a, b));
        if merge && self.gap.is_empty() {
            self.gap.push(' ');
        }
        let gap = std::mem::take(&mut self.gap);
        self.text.push_str(&gap);
        self.spans.push((self.text.len(), self.text.len() + s.len()));
        self.text.push_str(s);
        self.tokens.push(s.to_string());
        self.nl = 0;
        self.before.clear();
    }
    fn inner(&mut self) -> bool {
        // what is left alone may end up in braces, where it must not depend on the parentheses around it
        self.scope == Scope::Paren && self.style.skip == 0
    }
    pub fn program(&mut self, n: &mut Node) {
        self.list(n);
        if self.rng.chance(4, 5) {
            self.newline();
        }
        let gap = std::mem::take(&mut self.gap);
        self.text.push_str(&gap);
        if self.style.skip > 0 {
            n.raw = Some(self.text.clone());
        }
    }
    fn list(&mut self, n: &mut Node) {
        let brace = n.k == "brace";
        let count = n.c.len();
        for (i, stm) in n.c.iter_mut().enumerate() {
            // after the previous statement on its line
            if i > 0 {
                if !self.must_end && self.rng.chance(1, 12) {
                    self.gap.push(';');
                    if self.rng.chance(1, 2) {
                        self.newline();
                    }
                } else {
                    self.newline();
                }
            }
            if self.tidily(100) {
                if i == 0 && brace && self.rng.chance(1, 4) {
                    // on the line of the brace
                    let c = self.end_of_line();
                    self.before.push((c, 0));
                    self.newline();
                }
                if i == 0 && !brace {
                    self.before_first();
                } else if self.rng.chance(2, 3) || self.nl > 0 {
                    self.comments();
                }
            }
            self.gap(true, true);
            let (nl, before) = (self.nl, self.before.clone());
            stm.first(nl, before.clone());
            let from = self.tokens.len();
            self.node(&mut stm.c[0]);
            stm.raw = self.raw(&before, from);
            if self.tidily(150) {
                stm.after = self.end_of_line();
                self.must_end = true;
            }
            if i + 1 == count && self.tidily(400) {
                stm.last = self.tail(true);
            }
        }
        if count == 0 && brace && self.tidily(150) {
            if self.rng.chance(1, 3) {
                let c = self.end_of_line();
                n.last = vec![(c, 0)];
                self.must_end = true;
            }
            n.last.append(&mut self.tail(true));
        }
        if count == 0 && !brace {
            // empty lines after the comments of a file that has nothing else are kept or not
            n.last = self.tail(false);
            while self.gap.ends_with('\n') {
                self.gap.pop();
            }
            self.must_end = true;
        }
    }
    /// The comments at the start of the file.
    fn before_first(&mut self) {
        if self.rng.chance(1, 4) {
            self.newline();
        }
        for _ in 0..1 + self.rng.below(2) {
            let c = if self.rng.chance(self.style.skip, 600) {
                let c = self.rng.pick(&["# fmt: skip file", "# Generated by a tool: do not edit", "# generated by hand", "#fmt:skip file"]);
                self.comments.push(c.to_string());
                c.to_string()
            } else {
                self.own()
            };
            self.gap.push_str(&c);
            self.before.push((c, self.nl));
            self.nl = 0;
            self.newline();
            if self.rng.chance(1, 5) {
                self.newline();
            }
        }
    }
    /// Comments after which there is only the end of a block or of the file.
    fn tail(&mut self, newline: bool) -> Vec<(String, usize)> {
        if newline {
            self.newline();
        }
        if self.rng.chance(1, 5) {
            self.newline();
        }
        self.must_end = false;
        let mut all = vec![];
        for _ in 0..1 + self.rng.below(2) {
            self.indentation();
            let c = self.comment();
            self.gap.push_str(&c);
            all.push((c, self.nl));
            self.nl = 0;
            self.newline();
            if self.rng.chance(1, 5) {
                self.newline();
            }
        }
        all
    }
    fn node(&mut self, n: &mut Node) {
        n.first(self.nl, self.before.clone());
        match n.k {
            "id" | "lit" | "str" => self.token(&n.s.clone()),
            "bin" => {
                let inner = self.inner();
                self.node(&mut n.c[0]);
                let tight = matches!(n.s.as_str(), ":" | "^" | "**");
                self.gap(inner, !tight);
                self.token(&n.s.clone());
                if !tight && n.s != "?" {
                    if self.tidily(800) {
                        n.after = self.end_of_line();
                        self.newline();
                    }
                    if self.tidily(800) {
                        self.comments();
                    }
                }
                self.few = tight;
                self.gap(true, !tight);
                self.few = false;
                let (before, from) = (self.before.clone(), self.tokens.len());
                self.node(&mut n.c[1]);
                n.c[1].raw = self.raw(&before, from).or(n.c[1].raw.take());
                n.c[1].before = before;
            }
            "un" => {
                self.token(&n.s.clone());
                self.rarely(false);
                self.node(&mut n.c[0]);
            }
            "ns" | "ext" => {
                let inner = self.inner();
                self.node(&mut n.c[0]);
                if inner && n.k == "ext" && self.rng_rare() {
                    self.gap(true, false);
                }
                self.token(&n.s.clone());
                if n.k == "ext" {
                    self.rarely(false);
                }
                self.node(&mut n.c[1]);
            }
            "par" => {
                self.token("(");
                let outer = std::mem::replace(&mut self.scope, Scope::Paren);
                self.gap(true, false);
                self.node(&mut n.c[0]);
                self.gap(true, false);
                self.scope = outer;
                self.token(")");
            }
            "brace" => {
                self.token("{");
                let outer = std::mem::replace(&mut self.scope, Scope::Brace);
                let tidy = self.style.tidy;
                if curly(n) {
                    self.style.tidy = 0;
                }
                self.list(n);
                if self.must_end {
                    self.newline();
                }
                self.gap(true, true);
                self.style.tidy = tidy;
                self.scope = outer;
                self.token("}");
            }
            "fun" => {
                self.token(&n.s.clone());
                self.rarely(false);
                self.token("(");
                let outer = std::mem::replace(&mut self.scope, Scope::Paren);
                let [params, body] = &mut n.c[..] else { unreachable!() };
                let count = params.c.len();
                for (i, p) in params.c.iter_mut().enumerate() {
                    if self.tidily(800) {
                        self.comments();
                    }
                    self.gap(true, i > 0);
                    p.nl = self.nl;
                    p.before = self.before.clone();
                    self.token(&p.s.clone());
                    if !p.c.is_empty() {
                        self.rarely(true);
                        self.token("=");
                        self.rarely(true);
                        self.node(&mut p.c[0]);
                    }
                    if i + 1 < count {
                        self.rarely(false);
                        self.token(",");
                    }
                    if self.tidily(800) {
                        p.after = self.end_of_line();
                        self.newline();
                    }
                }
                self.gap(true, false);
                self.scope = outer;
                self.token(")");
                self.gap(true, true);
                self.node(body);
            }
            "if" => {
                self.token("if");
                self.condition(&mut n.c[0]);
                self.gap(true, true);
                self.node(&mut n.c[1]);
                if n.c.len() == 3 {
                    self.gap(self.scope != Scope::Top, true);
                    n.x = self.nl;
                    self.token("else");
                    self.gap(true, true);
                    self.node(&mut n.c[2]);
                }
            }
            "while" => {
                self.token("while");
                self.condition(&mut n.c[0]);
                self.gap(true, true);
                self.node(&mut n.c[1]);
            }
            "rep" => {
                self.token("repeat");
                self.gap(true, true);
                self.node(&mut n.c[0]);
            }
            "for" => {
                self.token("for");
                self.gap(false, true);
                self.token("(");
                let outer = std::mem::replace(&mut self.scope, Scope::Paren);
                self.rarely(false);
                self.node(&mut n.c[0]);
                self.rarely(true);
                self.token("in");
                self.gap(true, true);
                self.node(&mut n.c[1]);
                self.gap(true, false);
                self.scope = outer;
                self.token(")");
                self.gap(true, true);
                self.node(&mut n.c[2]);
            }
            "call" | "sub" | "sub2" => {
                let inner = self.inner();
                let (open, close) = match n.k {
                    "call" => ("(", ")"),
                    "sub" => ("[", "]"),
                    _ => ("[[", "]]"),
                };
                let start = self.tokens.len();
                self.node(&mut n.c[0]);
                let callee = self.tokens.last().unwrap().clone();
                if inner && self.rng_rare() {
                    // a comment here ends up on a line of its own, where it must not be in braces
                    let comment = std::mem::take(&mut self.style.comment);
                    self.gap(true, false);
                    self.style.comment = comment;
                }
                let first = self.tokens.len();
                self.token(open);
                let outer = std::mem::replace(&mut self.scope, Scope::Paren);
                let count = n.c[1].c.len();
                for (i, a) in n.c[1].c.iter_mut().enumerate() {
                    let hole = a.c[0].k == "hole";
                    if !hole && self.tidily(800) {
                        self.comments();
                    }
                    self.gap(true, i > 0);
                    let (before, from) = (self.before.clone(), self.tokens.len());
                    self.argument(a);
                    if !hole {
                        a.raw = self.raw(&before, from);
                    }
                    if i + 1 < count {
                        let rare = self.rng_rare();
                        self.gap(rare || a.c[0].k == "hole", false);
                        a.x = self.nl;
                        self.token(",");
                    }
                    if !hole && self.tidily(800) {
                        a.after = self.end_of_line();
                        self.newline();
                    }
                }
                self.gap(true, false);
                self.scope = outer;
                self.token(close);
                if n.k == "call" && self.style.table > 0 {
                    if NAMED.contains(&callee.as_str()) {
                        n.raw = self.written(start);
                    }
                    n.c[1].raw = self.written(first);
                }
            }
            other => unreachable!("{other}"),
        }
    }
    fn argument(&mut self, a: &mut Node) {
        a.first(self.nl, self.before.clone());
        let v = &mut a.c[0];
        v.first(self.nl, vec![]);
        match v.k {
            // a hole has no token: what is before the next one belongs to that
            "hole" => {
                a.nl = 0;
                a.before.clear();
                v.nl = 0;
            }
            "pos" => self.node(&mut v.c[0]),
            _ => {
                self.token(&v.s.clone());
                self.rarely(true);
                self.token("=");
                if !v.c.is_empty() {
                    self.rarely(true);
                    self.node(&mut v.c[0]);
                }
            }
        }
    }
    fn condition(&mut self, n: &mut Node) {
        self.gap(false, true);
        self.token("(");
        let outer = std::mem::replace(&mut self.scope, Scope::Paren);
        self.gap(true, false);
        self.node(n);
        self.gap(true, false);
        self.scope = outer;
        self.token(")");
    }
    fn rarely(&mut self, space: bool) {
        let lines = self.rng_rare();
        self.few = true;
        self.gap(lines, space);
        self.few = false;
    }
    fn rng_rare(&mut self) -> bool {
        self.rng.chance(1, 4)
    }
}
