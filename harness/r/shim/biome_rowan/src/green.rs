//! The position-independent tree.
use crate::RawSyntaxKind;
use biome_text_size::{TextLen, TextSize};
use std::sync::Arc;

#[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub enum TriviaPieceKind {
    Newline,
    Whitespace,
    SingleLineComment,
    MultiLineComment,
    Skipped,
}
impl TriviaPieceKind {
    pub const fn is_newline(&self) -> bool {
        matches!(self, TriviaPieceKind::Newline)
    }
    pub const fn is_whitespace(&self) -> bool {
        matches!(self, TriviaPieceKind::Whitespace)
    }
    pub const fn is_comment(&self) -> bool {
        matches!(self, TriviaPieceKind::SingleLineComment | TriviaPieceKind::MultiLineComment)
    }
    pub const fn is_single_line_comment(&self) -> bool {
        matches!(self, TriviaPieceKind::SingleLineComment)
    }
    pub const fn is_multiline_comment(&self) -> bool {
        matches!(self, TriviaPieceKind::MultiLineComment)
    }
    pub const fn is_skipped(&self) -> bool {
        matches!(self, TriviaPieceKind::Skipped)
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub struct TriviaPiece {
    pub kind: TriviaPieceKind,
    pub length: TextSize,
}
impl TriviaPiece {
    pub fn new<L: Into<TextSize>>(kind: TriviaPieceKind, length: L) -> Self {
        Self { kind, length: length.into() }
    }
    pub fn whitespace<L: Into<TextSize>>(len: L) -> Self {
        Self::new(TriviaPieceKind::Whitespace, len)
    }
    pub fn newline<L: Into<TextSize>>(len: L) -> Self {
        Self::new(TriviaPieceKind::Newline, len)
    }
    pub fn single_line_comment<L: Into<TextSize>>(len: L) -> Self {
        Self::new(TriviaPieceKind::SingleLineComment, len)
    }
    pub fn multi_line_comment<L: Into<TextSize>>(len: L) -> Self {
        Self::new(TriviaPieceKind::MultiLineComment, len)
    }
    pub fn text_len(&self) -> TextSize {
        self.length
    }
    pub fn kind(&self) -> TriviaPieceKind {
        self.kind
    }
}

#[derive(Debug)]
pub struct GreenToken {
    pub kind: RawSyntaxKind,
    pub text: Box<str>,
    pub leading: Vec<TriviaPiece>,
    pub trailing: Vec<TriviaPiece>,
}
impl GreenToken {
    pub fn new(kind: RawSyntaxKind, text: &str, leading: Vec<TriviaPiece>, trailing: Vec<TriviaPiece>) -> Arc<Self> {
        let token = GreenToken { kind, text: text.into(), leading, trailing };
        assert!(token.leading_len() + token.trailing_len() <= token.text_len());
        Arc::new(token)
    }
    pub fn text_len(&self) -> TextSize {
        (&*self.text).text_len()
    }
    pub fn leading_len(&self) -> TextSize {
        self.leading.iter().map(|p| p.length).sum()
    }
    pub fn trailing_len(&self) -> TextSize {
        self.trailing.iter().map(|p| p.length).sum()
    }
}

#[derive(Debug, Clone)]
pub enum GreenElement {
    Node(Arc<GreenNode>),
    Token(Arc<GreenToken>),
}
impl GreenElement {
    pub fn text_len(&self) -> TextSize {
        match self {
            GreenElement::Node(n) => n.len,
            GreenElement::Token(t) => t.text_len(),
        }
    }
    pub fn kind(&self) -> RawSyntaxKind {
        match self {
            GreenElement::Node(n) => n.kind,
            GreenElement::Token(t) => t.kind,
        }
    }
}

#[derive(Debug)]
pub struct GreenNode {
    pub kind: RawSyntaxKind,
    pub slots: Vec<Option<GreenElement>>,
    /// the offset of each slot from the start of the node
    pub at: Vec<TextSize>,
    pub len: TextSize,
}
impl GreenNode {
    pub fn new(kind: RawSyntaxKind, slots: Vec<Option<GreenElement>>) -> Arc<Self> {
        let mut at = Vec::with_capacity(slots.len());
        let mut len = TextSize::from(0);
        for slot in &slots {
            at.push(len);
            if let Some(e) = slot {
                len += e.text_len();
            }
        }
        Arc::new(GreenNode { kind, slots, at, len })
    }
}
impl Drop for GreenNode {
    fn drop(&mut self) {
        // deep trees: unlink iteratively
        let mut todo: Vec<Arc<GreenNode>> = vec![];
        let take = |slots: &mut Vec<Option<GreenElement>>, todo: &mut Vec<Arc<GreenNode>>| {
            for slot in slots.drain(..) {
                if let Some(GreenElement::Node(n)) = slot {
                    todo.push(n);
                }
            }
        };
        take(&mut self.slots, &mut todo);
        while let Some(n) = todo.pop() {
            if let Some(mut n) = Arc::into_inner(n) {
                take(&mut n.slots, &mut todo);
            }
        }
    }
}

/// Shares nothing: only there for the signature.
#[derive(Default, Debug)]
pub struct NodeCache {}
