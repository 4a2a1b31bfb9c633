//! Stand-in for `tree-sitter`: read-only concrete syntax trees, made by a hand-written parser.
use std::fmt;

#[derive(Debug, Clone)]
pub struct RawNode {
    pub kind: &'static str,
    pub named: bool,
    pub field: Option<&'static str>,
    pub start: usize,
    pub end: usize,
    pub parent: usize,
    pub index: usize,
    pub children: Vec<usize>,
}
/// What a grammar produces: the arena, its root, and whether the text is in the language.
#[derive(Debug, Clone)]
pub struct RawTree {
    pub nodes: Vec<RawNode>,
    pub root: usize,
    pub error: bool,
    pub lines: Vec<usize>,
}
pub type ParseFn = fn(&str) -> RawTree;

#[derive(Clone, Copy)]
pub struct Language(pub ParseFn);
#[derive(Clone, Copy)]
pub struct LanguageFn(pub ParseFn);
impl From<LanguageFn> for Language {
    fn from(f: LanguageFn) -> Self {
        Language(f.0)
    }
}
impl From<&LanguageFn> for Language {
    fn from(f: &LanguageFn) -> Self {
        Language(f.0)
    }
}
#[derive(Debug)]
pub struct LanguageError;
impl fmt::Display for LanguageError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("incompatible language")
    }
}
impl std::error::Error for LanguageError {}

#[derive(Default)]
pub struct Parser {
    language: Option<Language>,
}
impl Parser {
    pub fn new() -> Self {
        Parser { language: None }
    }
    pub fn set_language(&mut self, language: &Language) -> Result<(), LanguageError> {
        self.language = Some(*language);
        Ok(())
    }
    pub fn parse(&mut self, text: impl AsRef<[u8]>, _old: Option<&Tree>) -> Option<Tree> {
        let text = std::str::from_utf8(text.as_ref()).ok()?;
        Some(Tree { raw: (self.language?.0)(text) })
    }
}
#[derive(Clone)]
pub struct Tree {
    raw: RawTree,
}
impl Tree {
    pub fn root_node(&self) -> Node<'_> {
        Node { tree: self, id: self.raw.root }
    }
    pub fn walk(&self) -> TreeCursor<'_> {
        self.root_node().walk()
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Point {
    pub row: usize,
    pub column: usize,
}
#[derive(Clone, Copy)]
pub struct Node<'tree> {
    tree: &'tree Tree,
    id: usize,
}
impl PartialEq for Node<'_> {
    fn eq(&self, o: &Self) -> bool {
        std::ptr::eq(self.tree, o.tree) && self.id == o.id
    }
}
impl Eq for Node<'_> {}
impl fmt::Debug for Node<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{{Node {} {}..{}}}", self.kind(), self.start_byte(), self.end_byte())
    }
}
impl<'tree> Node<'tree> {
    fn raw(&self) -> &'tree RawNode {
        &self.tree.raw.nodes[self.id]
    }
    fn at(&self, id: usize) -> Node<'tree> {
        Node { tree: self.tree, id }
    }
    pub fn id(&self) -> usize {
        self.id
    }
    pub fn kind(&self) -> &'static str {
        self.raw().kind
    }
    pub fn is_named(&self) -> bool {
        self.raw().named
    }
    pub fn is_extra(&self) -> bool {
        self.raw().kind == "comment"
    }
    pub fn is_error(&self) -> bool {
        self.raw().kind == "ERROR"
    }
    pub fn is_missing(&self) -> bool {
        false
    }
    pub fn has_error(&self) -> bool {
        self.tree.raw.error
    }
    pub fn start_byte(&self) -> usize {
        self.raw().start
    }
    pub fn end_byte(&self) -> usize {
        self.raw().end
    }
    pub fn byte_range(&self) -> std::ops::Range<usize> {
        self.raw().start..self.raw().end
    }
    fn point(&self, byte: usize) -> Point {
        let row = self.tree.raw.lines.partition_point(|start| *start <= byte) - 1;
        Point { row, column: byte - self.tree.raw.lines[row] }
    }
    pub fn start_position(&self) -> Point {
        self.point(self.raw().start)
    }
    pub fn end_position(&self) -> Point {
        self.point(self.raw().end)
    }
    pub fn child_count(&self) -> usize {
        self.raw().children.len()
    }
    pub fn child(&self, i: usize) -> Option<Node<'tree>> {
        self.raw().children.get(i).map(|id| self.at(*id))
    }
    pub fn child_by_field_name(&self, name: &str) -> Option<Node<'tree>> {
        self.raw().children.iter().map(|id| self.at(*id)).find(|n| n.raw().field == Some(name))
    }
    pub fn named_child_count(&self) -> usize {
        self.raw().children.iter().filter(|id| self.at(**id).is_named()).count()
    }
    pub fn named_child(&self, i: usize) -> Option<Node<'tree>> {
        self.raw().children.iter().map(|id| self.at(*id)).filter(|n| n.is_named()).nth(i)
    }
    pub fn parent(&self) -> Option<Node<'tree>> {
        (self.id != self.tree.raw.root).then(|| self.at(self.raw().parent))
    }
    pub fn next_sibling(&self) -> Option<Node<'tree>> {
        self.parent()?.child(self.raw().index + 1)
    }
    pub fn prev_sibling(&self) -> Option<Node<'tree>> {
        self.parent()?.child(self.raw().index.checked_sub(1)?)
    }
    pub fn walk(&self) -> TreeCursor<'tree> {
        TreeCursor { top: self.id, node: *self }
    }
}
#[derive(Clone)]
pub struct TreeCursor<'tree> {
    top: usize,
    node: Node<'tree>,
}
impl<'tree> TreeCursor<'tree> {
    pub fn node(&self) -> Node<'tree> {
        self.node
    }
    pub fn field_name(&self) -> Option<&'static str> {
        self.node.raw().field
    }
    fn go(&mut self, to: Option<Node<'tree>>) -> bool {
        match to {
            Some(n) => {
                self.node = n;
                true
            }
            None => false,
        }
    }
    pub fn goto_first_child(&mut self) -> bool {
        self.go(self.node.child(0))
    }
    pub fn goto_last_child(&mut self) -> bool {
        self.go(self.node.child_count().checked_sub(1).and_then(|i| self.node.child(i)))
    }
    pub fn goto_next_sibling(&mut self) -> bool {
        self.node.id != self.top && self.go(self.node.next_sibling())
    }
    pub fn goto_previous_sibling(&mut self) -> bool {
        self.node.id != self.top && self.go(self.node.prev_sibling())
    }
    pub fn goto_parent(&mut self) -> bool {
        self.node.id != self.top && self.go(self.node.parent())
    }
}
