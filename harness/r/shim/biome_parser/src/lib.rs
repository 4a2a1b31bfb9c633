//! Stand-in for `biome_parser`: parse events and the tree they build.
use biome_rowan::{AstNode, Language, SendNode, SyntaxNode, TextRange};
use std::fmt;

pub mod prelude {
    pub use crate::token_source::Trivia;
    pub use crate::ParseDiagnostic;
    pub use biome_rowan::{TextRange, TextSize, TriviaPieceKind};
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseDiagnostic {
    message: String,
    span: Option<TextRange>,
}
pub trait AsSpan {
    fn as_span(&self) -> Option<TextRange>;
}
impl AsSpan for TextRange {
    fn as_span(&self) -> Option<TextRange> {
        Some(*self)
    }
}
impl AsSpan for Option<TextRange> {
    fn as_span(&self) -> Option<TextRange> {
        *self
    }
}
impl ParseDiagnostic {
    pub fn new(message: impl fmt::Display, span: impl AsSpan) -> Self {
        Self { message: message.to_string(), span: span.as_span() }
    }
    pub fn new_single_node(name: &str, range: TextRange, _: &impl Sized) -> Self {
        Self::new(format!("Expected {name}"), range)
    }
    pub const fn is_error(&self) -> bool {
        true
    }
    pub fn message(&self) -> &str {
        &self.message
    }
    pub fn span(&self) -> Option<TextRange> {
        self.span
    }
}
impl fmt::Display for ParseDiagnostic {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.message)
    }
}

#[derive(Clone, Debug)]
pub struct AnyParse {
    root: SendNode,
    diagnostics: Vec<ParseDiagnostic>,
}
impl AnyParse {
    pub fn new(root: SendNode, diagnostics: Vec<ParseDiagnostic>) -> AnyParse {
        AnyParse { root, diagnostics }
    }
    pub fn syntax<L: Language + 'static>(&self) -> SyntaxNode<L> {
        self.root.clone().into_node().unwrap_or_else(|| panic!("could not downcast root node"))
    }
    pub fn tree<N: AstNode>(&self) -> N
    where
        N::Language: 'static,
    {
        N::unwrap_cast(self.syntax::<N::Language>())
    }
    pub fn diagnostics(&self) -> &[ParseDiagnostic] {
        &self.diagnostics
    }
    pub fn into_diagnostics(self) -> Vec<ParseDiagnostic> {
        self.diagnostics
    }
    pub fn has_errors(&self) -> bool {
        self.diagnostics.iter().any(|d| d.is_error())
    }
}

pub mod token_source {
    use biome_rowan::{TextRange, TextSize, TriviaPieceKind};
    #[derive(Debug, Copy, Clone)]
    pub struct Trivia {
        kind: TriviaPieceKind,
        range: TextRange,
        trailing: bool,
    }
    impl Trivia {
        pub fn new(kind: TriviaPieceKind, range: TextRange, trailing: bool) -> Self {
            Self { kind, range, trailing }
        }
        pub fn kind(&self) -> TriviaPieceKind {
            self.kind
        }
        pub fn len(&self) -> TextSize {
            self.range.len()
        }
        pub fn is_empty(&self) -> bool {
            self.range.is_empty()
        }
        pub fn offset(&self) -> TextSize {
            self.range.start()
        }
        pub fn text_range(&self) -> TextRange {
            self.range
        }
        pub fn trailing(&self) -> bool {
            self.trailing
        }
    }
}

pub mod event {
    use crate::ParseDiagnostic;
    use crate::tree_sink::TreeSink;
    use biome_rowan::{SyntaxKind, TextSize};
    use std::num::NonZeroU32;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Event<K: SyntaxKind> {
        Start { kind: K, forward_parent: Option<NonZeroU32> },
        Finish,
        Token { kind: K, end: TextSize },
    }
    impl<K: SyntaxKind> Event<K> {
        pub fn tombstone() -> Self {
            Event::Start { kind: K::TOMBSTONE, forward_parent: None }
        }
    }
    pub fn process<K: SyntaxKind>(sink: &mut impl TreeSink<Kind = K>, mut events: Vec<Event<K>>, errors: Vec<ParseDiagnostic>) {
        sink.errors(errors);
        let mut forward_parents = Vec::new();
        for i in 0..events.len() {
            match events[i].clone() {
                Event::Start { kind, .. } if kind == K::TOMBSTONE => (),
                Event::Start { kind, forward_parent } => {
                    forward_parents.push(kind);
                    let mut idx = i;
                    let mut fp = forward_parent;
                    while let Some(fwd) = fp {
                        idx += u32::from(fwd) as usize;
                        fp = match std::mem::replace(&mut events[idx], Event::tombstone()) {
                            Event::Start { kind, forward_parent } => {
                                if kind != K::TOMBSTONE {
                                    forward_parents.push(kind);
                                }
                                forward_parent
                            }
                            _ => unreachable!(),
                        };
                    }
                    for kind in forward_parents.drain(..).rev() {
                        sink.start_node(kind);
                    }
                }
                Event::Finish => sink.finish_node(),
                Event::Token { kind, end } => sink.token(kind, end),
            }
        }
    }
}

pub mod tree_sink {
    use crate::ParseDiagnostic;
    use crate::token_source::Trivia;
    use biome_rowan::{Language, NodeCache, SyntaxFactory, SyntaxKind, SyntaxNode, TextRange, TextSize, TreeBuilder, TriviaPiece};
    pub trait TreeSink {
        type Kind: SyntaxKind;
        fn token(&mut self, kind: Self::Kind, end: TextSize);
        fn start_node(&mut self, kind: Self::Kind);
        fn finish_node(&mut self);
        fn errors(&mut self, errors: Vec<ParseDiagnostic>);
    }
    pub struct LosslessTreeSink<'a, L: Language, Factory: SyntaxFactory<Kind = L::Kind>> {
        text: &'a str,
        trivia_list: &'a [Trivia],
        text_pos: TextSize,
        trivia_pos: usize,
        parents_count: usize,
        errors: Vec<ParseDiagnostic>,
        inner: TreeBuilder<'a, L, Factory>,
        needs_eof: bool,
        trivia_pieces: Vec<TriviaPiece>,
    }
    impl<L: Language, Factory: SyntaxFactory<Kind = L::Kind>> TreeSink for LosslessTreeSink<'_, L, Factory> {
        type Kind = L::Kind;
        fn token(&mut self, kind: L::Kind, end: TextSize) {
            self.do_token(kind, end);
        }
        fn start_node(&mut self, kind: L::Kind) {
            self.inner.start_node(kind);
            self.parents_count += 1;
        }
        fn finish_node(&mut self) {
            self.parents_count -= 1;
            if self.parents_count == 0 && self.needs_eof {
                self.do_token(L::Kind::EOF, TextSize::try_from(self.text.len()).unwrap());
            }
            self.inner.finish_node();
        }
        fn errors(&mut self, errors: Vec<ParseDiagnostic>) {
            self.errors = errors;
        }
    }
    impl<'a, L: Language, Factory: SyntaxFactory<Kind = L::Kind>> LosslessTreeSink<'a, L, Factory> {
        pub fn with_cache(text: &'a str, trivia: &'a [Trivia], cache: &'a mut NodeCache) -> Self {
            Self {
                text,
                trivia_list: trivia,
                text_pos: 0.into(),
                trivia_pos: 0,
                parents_count: 0,
                inner: TreeBuilder::with_cache(cache),
                errors: vec![],
                needs_eof: true,
                trivia_pieces: Vec::with_capacity(128),
            }
        }
        pub fn finish(self) -> (SyntaxNode<L>, Vec<ParseDiagnostic>) {
            (self.inner.finish(), self.errors)
        }
        fn do_token(&mut self, kind: L::Kind, token_end: TextSize) {
            if kind == L::Kind::EOF {
                self.needs_eof = false;
            }
            let token_start = self.text_pos;
            self.eat_trivia(false);
            let trailing_start = self.trivia_pieces.len();
            self.text_pos = token_end;
            self.eat_trivia(true);
            let token_range = TextRange::new(token_start, self.text_pos);
            let text = &self.text[token_range];
            let leading = &self.trivia_pieces[0..trailing_start];
            let trailing = &self.trivia_pieces[trailing_start..];
            self.inner.token_with_trivia(kind, text, leading, trailing);
            self.trivia_pieces.clear();
        }
        fn eat_trivia(&mut self, trailing: bool) {
            for trivia in &self.trivia_list[self.trivia_pos..] {
                if trailing != trivia.trailing() || self.text_pos != trivia.offset() {
                    break;
                }
                self.trivia_pieces.push(TriviaPiece::new(trivia.kind(), trivia.len()));
                self.text_pos += trivia.len();
                self.trivia_pos += 1;
            }
        }
    }
}
