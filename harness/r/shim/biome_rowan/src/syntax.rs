//! The tree with positions and parents.
use crate::green::*;
use crate::AstNode;
use biome_text_size::{TextRange, TextSize};
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::iter::{self, FusedIterator};
use std::marker::PhantomData;
use std::ops::RangeBounds;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct RawSyntaxKind(pub u16);

pub trait SyntaxKind: fmt::Debug + PartialEq + Copy {
    const TOMBSTONE: Self;
    const EOF: Self;
    fn is_bogus(&self) -> bool;
    fn to_bogus(&self) -> Self;
    fn to_raw(&self) -> RawSyntaxKind;
    fn from_raw(raw: RawSyntaxKind) -> Self;
    fn is_root(&self) -> bool;
    fn is_list(&self) -> bool;
    fn is_trivia(self) -> bool;
    fn to_string(&self) -> Option<&'static str>;
}

pub trait Language: Sized + Clone + Copy + fmt::Debug + Eq + Ord + Hash {
    type Kind: SyntaxKind;
    type Root: AstNode<Language = Self> + Clone + Eq + fmt::Debug;
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Direction {
    Next,
    Prev,
}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum WalkEvent<T> {
    Enter(T),
    Leave(T),
}
impl<T> WalkEvent<T> {
    pub fn map<F: FnOnce(T) -> U, U>(self, f: F) -> WalkEvent<U> {
        match self {
            WalkEvent::Enter(it) => WalkEvent::Enter(f(it)),
            WalkEvent::Leave(it) => WalkEvent::Leave(f(it)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum TokenAtOffset<T> {
    None,
    Single(T),
    Between(T, T),
}
impl<T> TokenAtOffset<T> {
    pub fn map<F: Fn(T) -> U, U>(self, f: F) -> TokenAtOffset<U> {
        match self {
            TokenAtOffset::None => TokenAtOffset::None,
            TokenAtOffset::Single(it) => TokenAtOffset::Single(f(it)),
            TokenAtOffset::Between(l, r) => TokenAtOffset::Between(f(l), f(r)),
        }
    }
    pub fn right_biased(self) -> Option<T> {
        match self {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(node) => Some(node),
            TokenAtOffset::Between(_, right) => Some(right),
        }
    }
    pub fn left_biased(self) -> Option<T> {
        match self {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(node) => Some(node),
            TokenAtOffset::Between(left, _) => Some(left),
        }
    }
}
impl<T: Clone> Iterator for TokenAtOffset<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match std::mem::replace(self, TokenAtOffset::None) {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(node) => Some(node),
            TokenAtOffset::Between(left, right) => {
                *self = TokenAtOffset::Single(right);
                Some(left)
            }
        }
    }
}

struct NodeData {
    parent: Option<Rc<NodeData>>,
    slot: usize,
    offset: TextSize,
    green: Arc<GreenNode>,
}
struct TokenData {
    parent: Option<Rc<NodeData>>,
    slot: usize,
    offset: TextSize,
    green: Arc<GreenToken>,
}

/// Identifies a node or a token of a tree.
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub struct SyntaxElementKey {
    ptr: usize,
    offset: TextSize,
}

pub struct SyntaxNode<L: Language> {
    data: Rc<NodeData>,
    _p: PhantomData<L>,
}
pub struct SyntaxToken<L: Language> {
    data: Rc<TokenData>,
    _p: PhantomData<L>,
}
impl<L: Language> Clone for SyntaxNode<L> {
    fn clone(&self) -> Self {
        Self { data: self.data.clone(), _p: PhantomData }
    }
}
impl<L: Language> Clone for SyntaxToken<L> {
    fn clone(&self) -> Self {
        Self { data: self.data.clone(), _p: PhantomData }
    }
}
impl<L: Language> PartialEq for SyntaxNode<L> {
    fn eq(&self, o: &Self) -> bool {
        self.key() == o.key()
    }
}
impl<L: Language> Eq for SyntaxNode<L> {}
impl<L: Language> Hash for SyntaxNode<L> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.key().hash(h)
    }
}
impl<L: Language> PartialEq for SyntaxToken<L> {
    fn eq(&self, o: &Self) -> bool {
        self.key() == o.key()
    }
}
impl<L: Language> Eq for SyntaxToken<L> {}
impl<L: Language> Hash for SyntaxToken<L> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.key().hash(h)
    }
}

fn new_child<L: Language>(parent: &Rc<NodeData>, slot: usize) -> Option<SyntaxElement<L>> {
    let offset = parent.offset + parent.green.at[slot];
    Some(match parent.green.slots[slot].as_ref()? {
        GreenElement::Node(g) => SyntaxElement::Node(SyntaxNode {
            data: Rc::new(NodeData { parent: Some(parent.clone()), slot, offset, green: g.clone() }),
            _p: PhantomData,
        }),
        GreenElement::Token(g) => SyntaxElement::Token(SyntaxToken {
            data: Rc::new(TokenData { parent: Some(parent.clone()), slot, offset, green: g.clone() }),
            _p: PhantomData,
        }),
    })
}

impl<L: Language> SyntaxNode<L> {
    pub(crate) fn new_root(green: Arc<GreenNode>) -> Self {
        SyntaxNode { data: Rc::new(NodeData { parent: None, slot: 0, offset: 0.into(), green }), _p: PhantomData }
    }
    pub fn new_detached<I>(kind: L::Kind, slots: I) -> Self
    where
        I: IntoIterator<Item = Option<SyntaxElement<L>>>,
    {
        let slots = slots.into_iter().map(|s| s.map(|e| e.green())).collect();
        Self::new_root(GreenNode::new(kind.to_raw(), slots))
    }
    pub fn key(&self) -> SyntaxElementKey {
        SyntaxElementKey { ptr: Arc::as_ptr(&self.data.green) as usize, offset: self.data.offset }
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(self.data.green.kind)
    }
    pub fn index(&self) -> usize {
        self.data.slot
    }
    pub fn is_root(&self) -> bool {
        self.data.parent.is_none()
    }
    pub fn is_list(&self) -> bool {
        self.kind().is_list()
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        TextRange::at(self.data.offset, self.data.green.len)
    }
    pub fn text_range(&self) -> TextRange {
        self.text_range_with_trivia()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        let range = self.text_range_with_trivia();
        let (mut start, mut end) = (range.start(), range.end());
        if let Some(t) = self.first_token() {
            start += t.data.green.leading_len();
        }
        if let Some(t) = self.last_token() {
            end -= t.data.green.trailing_len();
        }
        TextRange::new(start, end.max(start))
    }
    pub fn text_with_trivia(&self) -> SyntaxNodeText<L> {
        SyntaxNodeText { node: self.clone(), range: self.text_range_with_trivia() }
    }
    pub fn text(&self) -> SyntaxNodeText<L> {
        self.text_with_trivia()
    }
    pub fn text_trimmed(&self) -> SyntaxNodeText<L> {
        SyntaxNodeText { node: self.clone(), range: self.text_trimmed_range() }
    }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.first_token().map(|t| t.leading_trivia())
    }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.last_token().map(|t| t.trailing_trivia())
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        self.data.parent.clone().map(|data| SyntaxNode { data, _p: PhantomData })
    }
    pub fn grand_parent(&self) -> Option<SyntaxNode<L>> {
        self.parent()?.parent()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        iter::successors(Some(self.clone()), SyntaxNode::parent)
    }
    pub(crate) fn slot_count(&self) -> usize {
        self.data.green.slots.len()
    }
    pub fn slots(&self) -> SyntaxSlots<L> {
        SyntaxSlots { node: self.clone(), at: 0, end: self.slot_count() }
    }
    pub fn element_in_slot(&self, slot: u32) -> Option<SyntaxElement<L>> {
        if (slot as usize) < self.slot_count() { new_child(&self.data, slot as usize) } else { None }
    }
    pub fn children(&self) -> SyntaxNodeChildren<L> {
        SyntaxNodeChildren { inner: self.slots() }
    }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren<L> {
        SyntaxElementChildren { inner: self.slots() }
    }
    pub fn tokens(&self) -> impl DoubleEndedIterator<Item = SyntaxToken<L>> + use<L> {
        self.children_with_tokens().filter_map(|e| e.into_token())
    }
    pub fn first_child(&self) -> Option<SyntaxNode<L>> {
        self.children().next()
    }
    pub fn last_child(&self) -> Option<SyntaxNode<L>> {
        self.children().next_back()
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().next()
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().next_back()
    }
    fn sibling_slots(&self, direction: Direction) -> SyntaxSlots<L> {
        sibling_slots(&self.data.parent, self.data.slot, direction)
    }
    pub fn next_sibling(&self) -> Option<SyntaxNode<L>> {
        SyntaxNodeChildren { inner: self.sibling_slots(Direction::Next) }.next()
    }
    pub fn prev_sibling(&self) -> Option<SyntaxNode<L>> {
        SyntaxNodeChildren { inner: self.sibling_slots(Direction::Prev) }.next_back()
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        SyntaxElementChildren { inner: self.sibling_slots(Direction::Next) }.next()
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        SyntaxElementChildren { inner: self.sibling_slots(Direction::Prev) }.next_back()
    }
    pub fn siblings(&self, direction: Direction) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        iter::successors(Some(self.clone()), move |n| match direction {
            Direction::Next => n.next_sibling(),
            Direction::Prev => n.prev_sibling(),
        })
    }
    pub fn siblings_with_tokens(&self, direction: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        let me: SyntaxElement<L> = self.clone().into();
        iter::successors(Some(me), move |n| match direction {
            Direction::Next => n.next_sibling_or_token(),
            Direction::Prev => n.prev_sibling_or_token(),
        })
    }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        self.children_with_tokens().find_map(|e| match e {
            SyntaxElement::Node(n) => n.first_token(),
            SyntaxElement::Token(t) => Some(t),
        })
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        self.children_with_tokens().rev().find_map(|e| match e {
            SyntaxElement::Node(n) => n.last_token(),
            SyntaxElement::Token(t) => Some(t),
        })
    }
    pub fn preorder(&self) -> Preorder<L> {
        Preorder { start: self.clone(), next: Some(WalkEvent::Enter(self.clone())), skip: false }
    }
    pub fn preorder_with_tokens(&self, direction: Direction) -> PreorderWithTokens<L> {
        let me: SyntaxElement<L> = self.clone().into();
        PreorderWithTokens { start: me.clone(), next: Some(WalkEvent::Enter(me)), direction, skip: false }
    }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        self.preorder().filter_map(|e| match e {
            WalkEvent::Enter(n) => Some(n),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn descendants_with_tokens(&self, direction: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        self.preorder_with_tokens(direction).filter_map(|e| match e {
            WalkEvent::Enter(n) => Some(n),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn descendants_tokens(&self, direction: Direction) -> impl Iterator<Item = SyntaxToken<L>> + use<L> {
        self.descendants_with_tokens(direction).filter_map(|e| e.into_token())
    }
    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken<L>> {
        assert!(self.text_range_with_trivia().contains_inclusive(offset), "offset out of range");
        let mut found = self
            .descendants_tokens(Direction::Next)
            .filter(|t| !t.text_range().is_empty() && t.text_range().contains_inclusive(offset));
        match (found.next(), found.next()) {
            (None, _) => TokenAtOffset::None,
            (Some(a), None) => TokenAtOffset::Single(a),
            (Some(a), Some(b)) => TokenAtOffset::Between(a, b),
        }
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement<L> {
        let mut res: SyntaxElement<L> = self.clone().into();
        loop {
            assert!(res.text_range_with_trivia().contains_range(range), "range not contained");
            let next = match &res {
                SyntaxElement::Token(_) => return res,
                SyntaxElement::Node(n) => n.child_or_token_at_range(range),
            };
            match next {
                Some(e) => res = e,
                None => return res,
            }
        }
    }
    pub fn child_or_token_at_range(&self, range: TextRange) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().find(|e| e.text_range_with_trivia().contains_range(range))
    }
    pub fn detach(self) -> Self {
        Self::new_root(self.data.green.clone())
    }
    pub fn clone_subtree(&self) -> Self {
        self.clone().detach()
    }
    fn replace_self(&self, green: Arc<GreenNode>) -> Self {
        match &self.data.parent {
            None => Self::new_root(green),
            Some(parent) => {
                let parent_node: SyntaxNode<L> = SyntaxNode { data: parent.clone(), _p: PhantomData };
                let mut slots = parent.green.slots.clone();
                slots[self.data.slot] = Some(GreenElement::Node(green));
                let parent = parent_node.replace_self(GreenNode::new(parent.green.kind, slots));
                new_child(&parent.data, self.data.slot).unwrap().into_node().unwrap()
            }
        }
    }
    #[must_use = "syntax elements are immutable, the result of update methods must be propagated to have any effect"]
    pub fn splice_slots<R, I>(self, range: R, replace_with: I) -> Self
    where
        R: RangeBounds<usize>,
        I: IntoIterator<Item = Option<SyntaxElement<L>>>,
    {
        let mut slots = self.data.green.slots.clone();
        slots.splice(range, replace_with.into_iter().map(|s| s.map(|e| e.green()))).for_each(drop);
        self.replace_self(GreenNode::new(self.data.green.kind, slots))
    }
    #[must_use]
    pub fn replace_child(self, prev: SyntaxElement<L>, next: SyntaxElement<L>) -> Option<Self> {
        let slot = (0..self.slot_count()).find(|i| self.element_in_slot(*i as u32).as_ref() == Some(&prev))?;
        Some(self.splice_slots(slot..=slot, iter::once(Some(next))))
    }
    pub fn into_list(self) -> SyntaxList<L> {
        SyntaxList { list: self }
    }
    pub fn has_comments_descendants(&self) -> bool {
        self.descendants_tokens(Direction::Next)
            .any(|t| t.has_trailing_comments() || t.has_leading_comments())
    }
    pub fn has_comments_direct(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_comments())
            || self.last_token().is_some_and(|t| t.has_trailing_comments())
    }
    pub fn first_or_last_token_have_comments(&self) -> bool {
        self.first_token_has_comments() || self.last_token_has_comments()
    }
    pub fn first_token_has_comments(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_trailing_comments() || t.has_leading_comments())
    }
    pub fn last_token_has_comments(&self) -> bool {
        self.last_token().is_some_and(|t| t.has_trailing_comments() || t.has_leading_comments())
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.last_token().is_some_and(|t| t.has_trailing_comments())
    }
    pub fn has_leading_comments(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_comments())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_non_whitespace_trivia())
    }
    pub fn has_leading_newline(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_newline())
    }
    pub fn as_send(&self) -> Option<SendNode> {
        self.is_root().then(|| SendNode { green: self.data.green.clone(), language: std::any::type_name::<L>() })
    }
}

fn sibling_slots<L: Language>(parent: &Option<Rc<NodeData>>, slot: usize, direction: Direction) -> SyntaxSlots<L> {
    // with no parent there is nothing to iterate: any node with an empty interval will do
    match parent {
        None => SyntaxSlots { node: SyntaxNode::new_root(GreenNode::new(RawSyntaxKind(0), vec![])), at: 0, end: 0 },
        Some(data) => {
            let node: SyntaxNode<L> = SyntaxNode { data: data.clone(), _p: PhantomData };
            let end = node.slot_count();
            match direction {
                Direction::Next => SyntaxSlots { node, at: slot + 1, end },
                Direction::Prev => SyntaxSlots { node, at: 0, end: slot },
            }
        }
    }
}

impl<L: Language> fmt::Display for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for t in self.descendants_tokens(Direction::Next) {
            f.write_str(t.text())?;
        }
        Ok(())
    }
}
impl<L: Language> Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if !f.alternate() {
            return write!(f, "{:?}@{:?}", self.kind(), self.text_range_with_trivia());
        }
        fn show<L: Language>(e: &SyntaxElement<L>, slot: usize, level: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            for _ in 0..level {
                f.write_str("  ")?;
            }
            match e {
                SyntaxElement::Token(t) => writeln!(f, "{slot}: {t:?}"),
                SyntaxElement::Node(n) => {
                    writeln!(f, "{slot}: {n:?}")?;
                    for (i, s) in n.slots().enumerate() {
                        match s.into_syntax_element() {
                            Some(e) => show(&e, i, level + 1, f)?,
                            None => {
                                for _ in 0..level + 1 {
                                    f.write_str("  ")?;
                                }
                                writeln!(f, "{i}: (empty)")?;
                            }
                        }
                    }
                    Ok(())
                }
            }
        }
        show(&self.clone().into(), 0, 0, f)
    }
}
impl<L: Language> Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}@{:?} {:?} [", self.kind(), self.text_range(), self.text_trimmed())?;
        let mut first = true;
        for piece in self.leading_trivia().pieces() {
            if !first {
                write!(f, ", ")?;
            }
            first = false;
            write!(f, "{piece:?}")?;
        }
        write!(f, "] [")?;
        let mut first = true;
        for piece in self.trailing_trivia().pieces() {
            if !first {
                write!(f, ", ")?;
            }
            first = false;
            write!(f, "{piece:?}")?;
        }
        write!(f, "]")
    }
}
impl<L: Language> fmt::Display for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}

impl<L: Language> SyntaxToken<L> {
    pub fn new_detached<Leading, Trailing>(kind: L::Kind, text: &str, leading: Leading, trailing: Trailing) -> Self
    where
        Leading: IntoIterator<Item = TriviaPiece>,
        Trailing: IntoIterator<Item = TriviaPiece>,
    {
        let green =
            GreenToken::new(kind.to_raw(), text, leading.into_iter().collect(), trailing.into_iter().collect());
        SyntaxToken { data: Rc::new(TokenData { parent: None, slot: 0, offset: 0.into(), green }), _p: PhantomData }
    }
    pub fn key(&self) -> SyntaxElementKey {
        SyntaxElementKey { ptr: Arc::as_ptr(&self.data.green) as usize, offset: self.data.offset }
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(self.data.green.kind)
    }
    pub fn index(&self) -> usize {
        self.data.slot
    }
    pub fn text_range(&self) -> TextRange {
        TextRange::at(self.data.offset, self.data.green.text_len())
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        let r = self.text_range();
        TextRange::new(r.start() + self.data.green.leading_len(), r.end() - self.data.green.trailing_len())
    }
    pub fn text(&self) -> &str {
        &self.data.green.text
    }
    pub fn text_trimmed(&self) -> &str {
        &self.text()[self.text_trimmed_range() - self.data.offset]
    }
    pub fn token_text(&self) -> TokenText {
        TokenText { token: self.data.green.clone(), range: self.text_range() - self.data.offset }
    }
    pub fn token_text_trimmed(&self) -> TokenText {
        TokenText { token: self.data.green.clone(), range: self.text_trimmed_range() - self.data.offset }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        self.data.parent.clone().map(|data| SyntaxNode { data, _p: PhantomData })
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        iter::successors(self.parent(), SyntaxNode::parent)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        SyntaxElementChildren { inner: sibling_slots(&self.data.parent, self.data.slot, Direction::Next) }.next()
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        SyntaxElementChildren { inner: sibling_slots(&self.data.parent, self.data.slot, Direction::Prev) }.next_back()
    }
    pub fn next_token(&self) -> Option<SyntaxToken<L>> {
        let mut at: SyntaxElement<L> = self.clone().into();
        loop {
            while let Some(next) = at.next_sibling_or_token() {
                match &next {
                    SyntaxElement::Token(t) => return Some(t.clone()),
                    SyntaxElement::Node(n) => {
                        if let Some(t) = n.first_token() {
                            return Some(t);
                        }
                    }
                }
                at = next;
            }
            at = at.parent()?.into();
        }
    }
    pub fn prev_token(&self) -> Option<SyntaxToken<L>> {
        let mut at: SyntaxElement<L> = self.clone().into();
        loop {
            while let Some(prev) = at.prev_sibling_or_token() {
                match &prev {
                    SyntaxElement::Token(t) => return Some(t.clone()),
                    SyntaxElement::Node(n) => {
                        if let Some(t) = n.last_token() {
                            return Some(t);
                        }
                    }
                }
                at = prev;
            }
            at = at.parent()?.into();
        }
    }
    pub fn detach(self) -> Self {
        SyntaxToken {
            data: Rc::new(TokenData { parent: None, slot: 0, offset: 0.into(), green: self.data.green.clone() }),
            _p: PhantomData,
        }
    }
    fn with_trivia_pieces(&self, leading: Vec<(TriviaPieceKind, String)>, trailing: Vec<(TriviaPieceKind, String)>) -> Self {
        let mut text = String::new();
        let pieces = |list: Vec<(TriviaPieceKind, String)>, text: &mut String| {
            list.into_iter()
                .map(|(kind, piece)| {
                    text.push_str(&piece);
                    TriviaPiece::new(kind, TextSize::try_from(piece.len()).unwrap())
                })
                .collect::<Vec<_>>()
        };
        let leading = pieces(leading, &mut text);
        text.push_str(self.text_trimmed());
        let trailing = pieces(trailing, &mut text);
        Self::new_detached(self.kind(), &text, leading, trailing)
    }
    fn own(trivia: SyntaxTrivia<L>) -> Vec<(TriviaPieceKind, String)> {
        trivia.pieces().map(|p| (p.kind(), p.text().to_string())).collect()
    }
    pub fn with_leading_trivia<'a, I>(&self, trivia: I) -> Self
    where
        I: IntoIterator<Item = (TriviaPieceKind, &'a str)>,
    {
        self.with_trivia_pieces(
            trivia.into_iter().map(|(k, t)| (k, t.to_string())).collect(),
            Self::own(self.trailing_trivia()),
        )
    }
    pub fn with_trailing_trivia<'a, I>(&self, trivia: I) -> Self
    where
        I: IntoIterator<Item = (TriviaPieceKind, &'a str)>,
    {
        self.with_trivia_pieces(
            Self::own(self.leading_trivia()),
            trivia.into_iter().map(|(k, t)| (k, t.to_string())).collect(),
        )
    }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { token: self.clone(), leading: true }
    }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { token: self.clone(), leading: false }
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.trailing_trivia().pieces().any(|p| p.is_comments())
    }
    pub fn has_leading_comments(&self) -> bool {
        self.leading_trivia().pieces().any(|p| p.is_comments())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.leading_trivia().pieces().any(|p| !p.is_whitespace() && !p.is_newline())
    }
    pub fn has_leading_newline(&self) -> bool {
        self.leading_trivia().pieces().any(|p| p.is_newline())
    }
}

#[derive(Clone)]
pub struct SyntaxTrivia<L: Language> {
    token: SyntaxToken<L>,
    leading: bool,
}
impl<L: Language> SyntaxTrivia<L> {
    fn list(&self) -> &[TriviaPiece] {
        if self.leading { &self.token.data.green.leading } else { &self.token.data.green.trailing }
    }
    pub fn text_range(&self) -> TextRange {
        let r = self.token.text_range();
        if self.leading {
            TextRange::at(r.start(), self.token.data.green.leading_len())
        } else {
            TextRange::new(r.end() - self.token.data.green.trailing_len(), r.end())
        }
    }
    pub fn text(&self) -> &str {
        &self.token.text()[self.text_range() - self.token.data.offset]
    }
    pub fn pieces(&self) -> SyntaxTriviaPieces<L> {
        SyntaxTriviaPieces { trivia: self.clone(), at: 0, end: self.list().len() }
    }
    fn get(&self, i: usize) -> SyntaxTriviaPiece<L> {
        let before: TextSize = self.list()[..i].iter().map(|p| p.length).sum();
        SyntaxTriviaPiece { trivia: self.clone(), offset: self.text_range().start() + before, piece: self.list()[i] }
    }
    pub fn first(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().next()
    }
    pub fn last(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().next_back()
    }
    pub fn is_empty(&self) -> bool {
        self.list().is_empty()
    }
    pub fn len(&self) -> usize {
        self.list().len()
    }
    pub fn has_skipped(&self) -> bool {
        self.pieces().any(|p| p.is_skipped())
    }
}
impl<L: Language> Debug for SyntaxTrivia<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.pieces()).finish()
    }
}
#[derive(Clone)]
pub struct SyntaxTriviaPieces<L: Language> {
    trivia: SyntaxTrivia<L>,
    at: usize,
    end: usize,
}
impl<L: Language> Iterator for SyntaxTriviaPieces<L> {
    type Item = SyntaxTriviaPiece<L>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.at >= self.end {
            return None;
        }
        self.at += 1;
        Some(self.trivia.get(self.at - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.end - self.at, Some(self.end - self.at))
    }
}
impl<L: Language> DoubleEndedIterator for SyntaxTriviaPieces<L> {
    fn next_back(&mut self) -> Option<Self::Item> {
        if self.at >= self.end {
            return None;
        }
        self.end -= 1;
        Some(self.trivia.get(self.end))
    }
}
impl<L: Language> ExactSizeIterator for SyntaxTriviaPieces<L> {}

#[derive(Clone)]
pub struct SyntaxTriviaPiece<L: Language> {
    trivia: SyntaxTrivia<L>,
    offset: TextSize,
    piece: TriviaPiece,
}
impl<L: Language> PartialEq for SyntaxTriviaPiece<L> {
    fn eq(&self, o: &Self) -> bool {
        self.trivia.token == o.trivia.token && self.offset == o.offset && self.piece == o.piece
    }
}
impl<L: Language> Eq for SyntaxTriviaPiece<L> {}
impl<L: Language> Hash for SyntaxTriviaPiece<L> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.trivia.token.hash(h);
        self.offset.hash(h);
    }
}
macro_rules! trivia_kind {
    ($($name:ident),*) => {$(
        #[derive(Clone, PartialEq, Eq, Hash)]
        pub struct $name<L: Language>(SyntaxTriviaPiece<L>);
        impl<L: Language> Debug for $name<L> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                Debug::fmt(&self.0, f)
            }
        }
        impl<L: Language> $name<L> {
            pub fn text(&self) -> &str { self.0.text() }
            pub fn text_len(&self) -> TextSize { self.0.text_len() }
            pub fn text_range(&self) -> TextRange { self.0.text_range() }
            pub fn token(&self) -> SyntaxToken<L> { self.0.token() }
            pub fn as_piece(&self) -> &SyntaxTriviaPiece<L> { &self.0 }
            pub fn into_piece(self) -> SyntaxTriviaPiece<L> { self.0 }
        }
    )*};
}
trivia_kind!(SyntaxTriviaPieceNewline, SyntaxTriviaPieceWhitespace, SyntaxTriviaPieceComments, SyntaxTriviaPieceSkipped);
impl<L: Language> SyntaxTriviaPieceComments<L> {
    pub fn has_newline(&self) -> bool {
        self.0.piece.kind.is_multiline_comment()
    }
}
impl<L: Language> SyntaxTriviaPiece<L> {
    pub fn kind(&self) -> TriviaPieceKind {
        self.piece.kind
    }
    pub fn text(&self) -> &str {
        &self.trivia.token.text()[self.text_range() - self.trivia.token.data.offset]
    }
    pub fn text_len(&self) -> TextSize {
        self.piece.length
    }
    pub fn text_range(&self) -> TextRange {
        TextRange::at(self.offset, self.piece.length)
    }
    pub fn is_newline(&self) -> bool {
        self.piece.kind.is_newline()
    }
    pub fn is_whitespace(&self) -> bool {
        self.piece.kind.is_whitespace()
    }
    pub fn is_comments(&self) -> bool {
        self.piece.kind.is_comment()
    }
    pub fn is_skipped(&self) -> bool {
        self.piece.kind.is_skipped()
    }
    pub fn as_newline(&self) -> Option<SyntaxTriviaPieceNewline<L>> {
        self.is_newline().then(|| SyntaxTriviaPieceNewline(self.clone()))
    }
    pub fn as_whitespace(&self) -> Option<SyntaxTriviaPieceWhitespace<L>> {
        self.is_whitespace().then(|| SyntaxTriviaPieceWhitespace(self.clone()))
    }
    pub fn as_comments(&self) -> Option<SyntaxTriviaPieceComments<L>> {
        self.is_comments().then(|| SyntaxTriviaPieceComments(self.clone()))
    }
    pub fn as_skipped(&self) -> Option<SyntaxTriviaPieceSkipped<L>> {
        self.is_skipped().then(|| SyntaxTriviaPieceSkipped(self.clone()))
    }
    pub fn token(&self) -> SyntaxToken<L> {
        self.trivia.token.clone()
    }
}
impl<L: Language> Debug for SyntaxTriviaPiece<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut text = self.text().to_string();
        if text.len() >= 25
            && let Some(end) = (21..25).find(|i| text.is_char_boundary(*i))
        {
            text = format!("{} ...", &text[..end]);
        }
        match self.piece.kind {
            TriviaPieceKind::Newline => write!(f, "Newline({text:?})"),
            TriviaPieceKind::Whitespace => write!(f, "Whitespace({text:?})"),
            TriviaPieceKind::SingleLineComment | TriviaPieceKind::MultiLineComment => write!(f, "Comments({text:?})"),
            TriviaPieceKind::Skipped => write!(f, "Skipped({text:?})"),
        }
    }
}

/// A piece of the text of a token, independent of the tree.
#[derive(Clone)]
pub struct TokenText {
    token: Arc<GreenToken>,
    range: TextRange,
}
impl TokenText {
    pub fn text(&self) -> &str {
        &self.token.text[self.range]
    }
    pub fn range(&self) -> TextRange {
        self.range
    }
    pub fn len(&self) -> TextSize {
        self.range.len()
    }
    pub fn is_empty(&self) -> bool {
        self.range.is_empty()
    }
    pub fn slice(mut self, range: TextRange) -> TokenText {
        assert!(self.range.len() >= range.end());
        self.range = range + self.range.start();
        self
    }
}
impl std::ops::Deref for TokenText {
    type Target = str;
    fn deref(&self) -> &str {
        self.text()
    }
}
impl AsRef<str> for TokenText {
    fn as_ref(&self) -> &str {
        self.text()
    }
}
impl std::borrow::Borrow<str> for TokenText {
    fn borrow(&self) -> &str {
        self.text()
    }
}
impl PartialEq for TokenText {
    fn eq(&self, o: &Self) -> bool {
        self.text() == o.text()
    }
}
impl Eq for TokenText {}
impl Hash for TokenText {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.text().hash(h)
    }
}
impl PartialEq<str> for TokenText {
    fn eq(&self, o: &str) -> bool {
        self.text() == o
    }
}
impl PartialEq<&str> for TokenText {
    fn eq(&self, o: &&str) -> bool {
        self.text() == *o
    }
}
impl fmt::Display for TokenText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
impl Debug for TokenText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.text())
    }
}

/// The text of a node, as its tokens hold it.
#[derive(Clone)]
pub struct SyntaxNodeText<L: Language> {
    node: SyntaxNode<L>,
    range: TextRange,
}
impl<L: Language> SyntaxNodeText<L> {
    pub fn try_fold_chunks<T, F, E>(&self, init: T, mut f: F) -> Result<T, E>
    where
        F: FnMut(T, &str) -> Result<T, E>,
    {
        let mut acc = init;
        for token in self.node.descendants_tokens(Direction::Next) {
            let range = token.text_range();
            let Some(part) = range.intersect(self.range) else { continue };
            if !part.is_empty() {
                acc = f(acc, &token.text()[part - range.start()])?;
            }
        }
        Ok(acc)
    }
    pub fn for_each_chunk<F: FnMut(&str)>(&self, mut f: F) {
        let _ = self.try_fold_chunks((), |(), chunk| -> Result<(), ()> {
            f(chunk);
            Ok(())
        });
    }
    pub fn into_text(self) -> String {
        self.to_string()
    }
    pub fn len(&self) -> TextSize {
        self.range.len()
    }
    pub fn is_empty(&self) -> bool {
        self.range.is_empty()
    }
    pub fn contains_char(&self, c: char) -> bool {
        self.to_string().contains(c)
    }
    pub fn char_at(&self, offset: TextSize) -> Option<char> {
        self.to_string()[usize::from(offset)..].chars().next()
    }
    pub fn chars(&self) -> impl Iterator<Item = char> + use<L> {
        self.to_string().chars().collect::<Vec<_>>().into_iter()
    }
    pub fn slice<R: std::slice::SliceIndex<str, Output = str>>(&self, range: R) -> String {
        self.to_string()[range].to_string()
    }
}
impl<L: Language> fmt::Display for SyntaxNodeText<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.try_fold_chunks((), |(), chunk| f.write_str(chunk))
    }
}
impl<L: Language> Debug for SyntaxNodeText<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&self.to_string(), f)
    }
}
impl<L: Language> PartialEq<str> for SyntaxNodeText<L> {
    fn eq(&self, o: &str) -> bool {
        self.to_string() == o
    }
}
impl<L: Language> PartialEq<&str> for SyntaxNodeText<L> {
    fn eq(&self, o: &&str) -> bool {
        self.to_string() == *o
    }
}
impl<L: Language> PartialEq for SyntaxNodeText<L> {
    fn eq(&self, o: &Self) -> bool {
        self.to_string() == o.to_string()
    }
}
impl<L: Language> Eq for SyntaxNodeText<L> {}
impl<L: Language> From<SyntaxNodeText<L>> for String {
    fn from(t: SyntaxNodeText<L>) -> String {
        t.to_string()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum NodeOrToken<N, T> {
    Node(N),
    Token(T),
}
impl<N, T> NodeOrToken<N, T> {
    pub fn into_node(self) -> Option<N> {
        match self {
            NodeOrToken::Node(n) => Some(n),
            NodeOrToken::Token(_) => None,
        }
    }
    pub fn into_token(self) -> Option<T> {
        match self {
            NodeOrToken::Node(_) => None,
            NodeOrToken::Token(t) => Some(t),
        }
    }
    pub fn as_node(&self) -> Option<&N> {
        match self {
            NodeOrToken::Node(n) => Some(n),
            NodeOrToken::Token(_) => None,
        }
    }
    pub fn as_token(&self) -> Option<&T> {
        match self {
            NodeOrToken::Node(_) => None,
            NodeOrToken::Token(t) => Some(t),
        }
    }
    pub fn is_node(&self) -> bool {
        matches!(self, NodeOrToken::Node(_))
    }
    pub fn is_token(&self) -> bool {
        matches!(self, NodeOrToken::Token(_))
    }
}
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;
impl<L: Language> NodeOrToken<SyntaxNode<L>, SyntaxToken<L>> {
    pub(crate) fn green(&self) -> GreenElement {
        match self {
            NodeOrToken::Node(n) => GreenElement::Node(n.data.green.clone()),
            NodeOrToken::Token(t) => GreenElement::Token(t.data.green.clone()),
        }
    }
    pub fn key(&self) -> SyntaxElementKey {
        match self {
            NodeOrToken::Node(n) => n.key(),
            NodeOrToken::Token(t) => t.key(),
        }
    }
    pub fn leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        match self {
            NodeOrToken::Node(n) => n.first_leading_trivia(),
            NodeOrToken::Token(t) => Some(t.leading_trivia()),
        }
    }
    pub fn trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        match self {
            NodeOrToken::Node(n) => n.last_trailing_trivia(),
            NodeOrToken::Token(t) => Some(t.trailing_trivia()),
        }
    }
    pub fn text_range(&self) -> TextRange {
        self.text_range_with_trivia()
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        match self {
            NodeOrToken::Node(n) => n.text_range_with_trivia(),
            NodeOrToken::Token(t) => t.text_range(),
        }
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(n) => n.text_trimmed_range(),
            NodeOrToken::Token(t) => t.text_trimmed_range(),
        }
    }
    pub fn index(&self) -> usize {
        match self {
            NodeOrToken::Node(n) => n.index(),
            NodeOrToken::Token(t) => t.index(),
        }
    }
    pub fn kind(&self) -> L::Kind {
        match self {
            NodeOrToken::Node(n) => n.kind(),
            NodeOrToken::Token(t) => t.kind(),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        match self {
            NodeOrToken::Node(n) => n.parent(),
            NodeOrToken::Token(t) => t.parent(),
        }
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        let first = match self {
            NodeOrToken::Node(n) => Some(n.clone()),
            NodeOrToken::Token(t) => t.parent(),
        };
        iter::successors(first, SyntaxNode::parent)
    }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        match self {
            NodeOrToken::Node(n) => n.first_token(),
            NodeOrToken::Token(t) => Some(t.clone()),
        }
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        match self {
            NodeOrToken::Node(n) => n.last_token(),
            NodeOrToken::Token(t) => Some(t.clone()),
        }
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            NodeOrToken::Node(n) => n.next_sibling_or_token(),
            NodeOrToken::Token(t) => t.next_sibling_or_token(),
        }
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            NodeOrToken::Node(n) => n.prev_sibling_or_token(),
            NodeOrToken::Token(t) => t.prev_sibling_or_token(),
        }
    }
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> {
    fn from(n: SyntaxNode<L>) -> Self {
        NodeOrToken::Node(n)
    }
}
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> {
    fn from(t: SyntaxToken<L>) -> Self {
        NodeOrToken::Token(t)
    }
}
impl<L: Language> fmt::Display for SyntaxElement<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            NodeOrToken::Node(n) => fmt::Display::fmt(n, f),
            NodeOrToken::Token(t) => fmt::Display::fmt(t, f),
        }
    }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub enum SyntaxSlot<L: Language> {
    Node(SyntaxNode<L>),
    Token(SyntaxToken<L>),
    Empty { parent: SyntaxNode<L>, index: u32 },
}
impl<L: Language> SyntaxSlot<L> {
    pub fn into_node(self) -> Option<SyntaxNode<L>> {
        match self {
            SyntaxSlot::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn into_token(self) -> Option<SyntaxToken<L>> {
        match self {
            SyntaxSlot::Token(t) => Some(t),
            _ => None,
        }
    }
    pub fn into_syntax_element(self) -> Option<SyntaxElement<L>> {
        match self {
            SyntaxSlot::Node(n) => Some(n.into()),
            SyntaxSlot::Token(t) => Some(t.into()),
            SyntaxSlot::Empty { .. } => None,
        }
    }
    pub fn kind(&self) -> Option<L::Kind> {
        match self {
            SyntaxSlot::Node(n) => Some(n.kind()),
            SyntaxSlot::Token(t) => Some(t.kind()),
            SyntaxSlot::Empty { .. } => None,
        }
    }
}

#[derive(Debug, Clone)]
pub struct SyntaxSlots<L: Language> {
    node: SyntaxNode<L>,
    at: usize,
    end: usize,
}
impl<L: Language> SyntaxSlots<L> {
    fn get(&self, i: usize) -> SyntaxSlot<L> {
        match new_child(&self.node.data, i) {
            Some(NodeOrToken::Node(n)) => SyntaxSlot::Node(n),
            Some(NodeOrToken::Token(t)) => SyntaxSlot::Token(t),
            None => SyntaxSlot::Empty { parent: self.node.clone(), index: i as u32 },
        }
    }
}
impl<L: Language> Iterator for SyntaxSlots<L> {
    type Item = SyntaxSlot<L>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.at >= self.end {
            return None;
        }
        self.at += 1;
        Some(self.get(self.at - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.end.saturating_sub(self.at), Some(self.end.saturating_sub(self.at)))
    }
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.at = self.at.saturating_add(n);
        self.next()
    }
}
impl<L: Language> DoubleEndedIterator for SyntaxSlots<L> {
    fn next_back(&mut self) -> Option<Self::Item> {
        if self.at >= self.end {
            return None;
        }
        self.end -= 1;
        Some(self.get(self.end))
    }
}
impl<L: Language> ExactSizeIterator for SyntaxSlots<L> {}
impl<L: Language> FusedIterator for SyntaxSlots<L> {}

#[derive(Debug, Clone)]
pub struct SyntaxNodeChildren<L: Language> {
    inner: SyntaxSlots<L>,
}
impl<L: Language> Iterator for SyntaxNodeChildren<L> {
    type Item = SyntaxNode<L>;
    fn next(&mut self) -> Option<Self::Item> {
        self.inner.find_map(|s| s.into_node())
    }
}
impl<L: Language> DoubleEndedIterator for SyntaxNodeChildren<L> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.inner.by_ref().rev().find_map(|s| s.into_node())
    }
}
#[derive(Debug, Clone)]
pub struct SyntaxElementChildren<L: Language> {
    inner: SyntaxSlots<L>,
}
impl<L: Language> Default for SyntaxElementChildren<L> {
    fn default() -> Self {
        SyntaxElementChildren { inner: sibling_slots(&None, 0, Direction::Next) }
    }
}
impl<L: Language> Iterator for SyntaxElementChildren<L> {
    type Item = SyntaxElement<L>;
    fn next(&mut self) -> Option<Self::Item> {
        self.inner.find_map(|s| s.into_syntax_element())
    }
}
impl<L: Language> DoubleEndedIterator for SyntaxElementChildren<L> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.inner.by_ref().rev().find_map(|s| s.into_syntax_element())
    }
}

pub struct Preorder<L: Language> {
    start: SyntaxNode<L>,
    next: Option<WalkEvent<SyntaxNode<L>>>,
    skip: bool,
}
impl<L: Language> Preorder<L> {
    pub fn skip_subtree(&mut self) {
        self.skip = true;
    }
    fn step(&mut self) -> Option<WalkEvent<SyntaxNode<L>>> {
        let next = self.next.take();
        self.next = next.as_ref().and_then(|next| {
            Some(match next {
                WalkEvent::Enter(node) => match node.first_child() {
                    Some(child) => WalkEvent::Enter(child),
                    None => WalkEvent::Leave(node.clone()),
                },
                WalkEvent::Leave(node) => {
                    if node == &self.start {
                        return None;
                    }
                    match node.next_sibling() {
                        Some(sibling) => WalkEvent::Enter(sibling),
                        None => WalkEvent::Leave(node.parent()?),
                    }
                }
            })
        });
        next
    }
}
impl<L: Language> Iterator for Preorder<L> {
    type Item = WalkEvent<SyntaxNode<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.skip {
            self.skip = false;
            // as rowan does: leave the parent of the next node to be entered
            self.next = self.next.take().and_then(|next| {
                Some(match next {
                    WalkEvent::Enter(first_child) => WalkEvent::Leave(first_child.parent()?),
                    WalkEvent::Leave(parent) => WalkEvent::Leave(parent),
                })
            });
        }
        self.step()
    }
}
pub struct PreorderWithTokens<L: Language> {
    start: SyntaxElement<L>,
    next: Option<WalkEvent<SyntaxElement<L>>>,
    direction: Direction,
    skip: bool,
}
impl<L: Language> PreorderWithTokens<L> {
    pub fn skip_subtree(&mut self) {
        self.skip = true;
    }
}
impl<L: Language> Iterator for PreorderWithTokens<L> {
    type Item = WalkEvent<SyntaxElement<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.skip {
            self.skip = false;
            self.next = self.next.take().and_then(|next| {
                Some(match next {
                    WalkEvent::Enter(first) => WalkEvent::Leave(first.parent()?.into()),
                    WalkEvent::Leave(parent) => WalkEvent::Leave(parent),
                })
            });
        }
        let next = self.next.take();
        self.next = next.as_ref().and_then(|next| {
            Some(match next {
                WalkEvent::Enter(el) => match el {
                    NodeOrToken::Node(node) => {
                        let child = match self.direction {
                            Direction::Next => node.first_child_or_token(),
                            Direction::Prev => node.last_child_or_token(),
                        };
                        match child {
                            Some(child) => WalkEvent::Enter(child),
                            None => WalkEvent::Leave(el.clone()),
                        }
                    }
                    NodeOrToken::Token(_) => WalkEvent::Leave(el.clone()),
                },
                WalkEvent::Leave(el) if el == &self.start => return None,
                WalkEvent::Leave(el) => {
                    let sibling = match self.direction {
                        Direction::Next => el.next_sibling_or_token(),
                        Direction::Prev => el.prev_sibling_or_token(),
                    };
                    match sibling {
                        Some(sibling) => WalkEvent::Enter(sibling),
                        None => WalkEvent::Leave(el.parent()?.into()),
                    }
                }
            })
        });
        next
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct SyntaxList<L: Language> {
    list: SyntaxNode<L>,
}
impl<L: Language> SyntaxList<L> {
    pub fn iter(&self) -> SyntaxSlots<L> {
        self.list.slots()
    }
    pub fn len(&self) -> usize {
        self.list.slot_count()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn first(&self) -> Option<SyntaxSlot<L>> {
        self.iter().next()
    }
    pub fn last(&self) -> Option<SyntaxSlot<L>> {
        self.iter().next_back()
    }
    pub fn node(&self) -> &SyntaxNode<L> {
        &self.list
    }
    pub fn into_node(self) -> SyntaxNode<L> {
        self.list
    }
}
impl<L: Language> IntoIterator for SyntaxList<L> {
    type Item = SyntaxSlot<L>;
    type IntoIter = SyntaxSlots<L>;
    fn into_iter(self) -> SyntaxSlots<L> {
        self.iter()
    }
}
impl<L: Language> IntoIterator for &SyntaxList<L> {
    type Item = SyntaxSlot<L>;
    type IntoIter = SyntaxSlots<L>;
    fn into_iter(self) -> SyntaxSlots<L> {
        self.iter()
    }
}

#[derive(Clone, Debug)]
pub struct SendNode {
    green: Arc<GreenNode>,
    language: &'static str,
}
impl SendNode {
    pub fn into_node<L: Language>(self) -> Option<SyntaxNode<L>> {
        (self.language == std::any::type_name::<L>()).then(|| SyntaxNode::new_root(self.green))
    }
}

#[cfg(feature = "serde")]
mod ser {
    use super::*;
    use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
    impl<L: Language> Serialize for SyntaxNode<L> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let mut m = s.serialize_map(Some(3))?;
            m.serialize_entry("kind", &format!("{:?}", self.kind()))?;
            let r = self.text_range_with_trivia();
            m.serialize_entry("text_range", &(u32::from(r.start()), u32::from(r.end())))?;
            m.serialize_entry("children", &self.children_with_tokens().collect::<Vec<_>>())?;
            m.end()
        }
    }
    impl<L: Language> Serialize for SyntaxToken<L> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let mut m = s.serialize_map(Some(3))?;
            m.serialize_entry("kind", &format!("{:?}", self.kind()))?;
            let r = self.text_range();
            m.serialize_entry("text_range", &(u32::from(r.start()), u32::from(r.end())))?;
            m.serialize_entry("text", self.text())?;
            m.end()
        }
    }
    impl<L: Language> Serialize for SyntaxElement<L> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            match self {
                NodeOrToken::Node(n) => n.serialize(s),
                NodeOrToken::Token(t) => t.serialize(s),
            }
        }
    }
    impl<L: Language> Serialize for SyntaxList<L> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let mut seq = s.serialize_seq(Some(self.len()))?;
            for e in self.iter() {
                seq.serialize_element(&e.into_syntax_element())?;
            }
            seq.end()
        }
    }
}
