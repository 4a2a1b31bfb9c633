//! Typed views of a tree.
use crate::syntax::*;
use biome_text_size::TextRange;
use std::error::Error;
use std::fmt::{self, Debug, Formatter};
use std::iter::FusedIterator;
use std::marker::PhantomData;

pub struct SyntaxKindSet<L: Language>([u128; 4], PhantomData<L>);
impl<L: Language> Clone for SyntaxKindSet<L> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<L: Language> Copy for SyntaxKindSet<L> {}
impl<L: Language> SyntaxKindSet<L> {
    pub const fn from_raw(kind: RawSyntaxKind) -> Self {
        let mut bits = [0u128; 4];
        bits[(kind.0 / 128) as usize] = 1u128 << (kind.0 % 128);
        Self(bits, PhantomData)
    }
    pub fn of(kind: L::Kind) -> Self {
        Self::from_raw(kind.to_raw())
    }
    pub const fn union(self, o: Self) -> Self {
        Self([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]], PhantomData)
    }
    pub fn matches(self, kind: L::Kind) -> bool {
        let raw = kind.to_raw().0;
        self.0[(raw / 128) as usize] >> (raw % 128) & 1 == 1
    }
    pub fn iter(self) -> impl Iterator<Item = L::Kind> {
        (0..512u16)
            .filter(move |raw| self.0[(*raw / 128) as usize] >> (*raw % 128) & 1 == 1)
            .map(|raw| L::Kind::from_raw(RawSyntaxKind(raw)))
    }
}
impl<L: Language> PartialEq for SyntaxKindSet<L> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<L: Language> Eq for SyntaxKindSet<L> {}
impl<L: Language> Debug for SyntaxKindSet<L> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}

pub trait AstNode: Clone {
    type Language: Language;
    const KIND_SET: SyntaxKindSet<Self::Language>;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(syntax: SyntaxNode<Self::Language>) -> Option<Self>
    where
        Self: Sized;
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language>
    where
        Self: Sized;

    fn cast_ref(syntax: &SyntaxNode<Self::Language>) -> Option<Self>
    where
        Self: Sized,
    {
        if Self::can_cast(syntax.kind()) { Self::cast(syntax.clone()) } else { None }
    }
    fn try_cast(syntax: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>>
    where
        Self: Sized,
    {
        if Self::can_cast(syntax.kind()) { Ok(Self::unwrap_cast(syntax)) } else { Err(syntax) }
    }
    fn try_cast_node<T: AstNode<Language = Self::Language>>(node: T) -> Result<Self, T>
    where
        Self: Sized,
    {
        if Self::can_cast(node.syntax().kind()) { Ok(Self::unwrap_cast(node.into_syntax())) } else { Err(node) }
    }
    fn unwrap_cast(syntax: SyntaxNode<Self::Language>) -> Self
    where
        Self: Sized,
    {
        let kind = syntax.kind();
        Self::cast(syntax)
            .unwrap_or_else(|| panic!("Tried to cast node with kind {kind:?} as `{:?}` but was unable to cast", std::any::type_name::<Self>()))
    }
    fn text(&self) -> String {
        self.syntax().text_trimmed().to_string()
    }
    fn to_trimmed_string(&self) -> String {
        self.syntax().text_trimmed().to_string()
    }
    fn range(&self) -> TextRange {
        self.syntax().text_trimmed_range()
    }
    fn clone_subtree(&self) -> Self
    where
        Self: Sized,
    {
        Self::unwrap_cast(self.syntax().clone_subtree())
    }
    fn detach(self) -> Self
    where
        Self: Sized,
    {
        Self::unwrap_cast(self.into_syntax().detach())
    }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> {
        self.syntax().parent().and_then(T::cast)
    }
}

impl<L: Language> AstNode for SyntaxNode<L> {
    type Language = L;
    const KIND_SET: SyntaxKindSet<L> = SyntaxKindSet([u128::MAX; 4], PhantomData);
    fn can_cast(_: L::Kind) -> bool {
        true
    }
    fn cast(syntax: SyntaxNode<L>) -> Option<Self> {
        Some(syntax)
    }
    fn syntax(&self) -> &SyntaxNode<L> {
        self
    }
    fn into_syntax(self) -> SyntaxNode<L> {
        self
    }
}

/// Where the present children of a node with a dynamic layout are.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct AstNodeSlotMap<const N: usize>(pub [u8; N]);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum SyntaxError {
    MissingRequiredChild,
    UnexpectedBogusNode,
    UnexpectedMetavariable,
}
impl fmt::Display for SyntaxError {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self {
            SyntaxError::MissingRequiredChild => write!(f, "missing required child"),
            SyntaxError::UnexpectedBogusNode => write!(f, "unexpected bogus node"),
            SyntaxError::UnexpectedMetavariable => write!(f, "unexpected metavariable"),
        }
    }
}
impl Error for SyntaxError {}
#[cfg(feature = "serde")]
impl serde::Serialize for SyntaxError {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format!("{self:?}"))
    }
}
pub type SyntaxResult<T> = Result<T, SyntaxError>;

pub trait AstNodeList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;
    fn iter(&self) -> AstNodeListIterator<Self::Language, Self::Node> {
        AstNodeListIterator { inner: self.syntax_list().iter(), ph: PhantomData }
    }
    fn len(&self) -> usize {
        self.syntax_list().len()
    }
    fn first(&self) -> Option<Self::Node> {
        self.iter().next()
    }
    fn last(&self) -> Option<Self::Node> {
        self.iter().next_back()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

#[derive(Debug, Clone)]
pub struct AstNodeListIterator<L: Language, N> {
    inner: SyntaxSlots<L>,
    ph: PhantomData<N>,
}
fn list_node<L: Language, N: AstNode<Language = L>>(slot: SyntaxSlot<L>) -> N {
    match slot {
        SyntaxSlot::Empty { .. } => panic!("Node list must not contain empty slots"),
        SyntaxSlot::Token(t) => panic!("Expected node but found {t:?}"),
        SyntaxSlot::Node(n) => N::unwrap_cast(n),
    }
}
impl<L: Language, N: AstNode<Language = L>> Iterator for AstNodeListIterator<L, N> {
    type Item = N;
    fn next(&mut self) -> Option<N> {
        self.inner.next().map(list_node)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstNodeListIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> FusedIterator for AstNodeListIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator for AstNodeListIterator<L, N> {
    fn next_back(&mut self) -> Option<N> {
        self.inner.next_back().map(list_node)
    }
}

#[derive(Clone)]
pub struct AstSeparatedElement<L: Language, N> {
    node: SyntaxResult<N>,
    trailing_separator: SyntaxResult<Option<SyntaxToken<L>>>,
}
impl<L: Language, N: AstNode<Language = L>> AstSeparatedElement<L, N> {
    pub fn node(&self) -> Result<&N, SyntaxError> {
        self.node.as_ref().map_err(|e| *e)
    }
    pub fn into_node(self) -> SyntaxResult<N> {
        self.node
    }
    pub fn trailing_separator(&self) -> SyntaxResult<Option<&SyntaxToken<L>>> {
        match &self.trailing_separator {
            Ok(Some(t)) => Ok(Some(t)),
            Ok(None) => Ok(None),
            Err(e) => Err(*e),
        }
    }
    pub fn into_trailing_separator(self) -> SyntaxResult<Option<SyntaxToken<L>>> {
        self.trailing_separator
    }
}
impl<L: Language, N: Debug> Debug for AstSeparatedElement<L, N> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match &self.node {
            Ok(node) => Debug::fmt(node, f)?,
            Err(_) => f.write_str("missing element")?,
        };
        match &self.trailing_separator {
            Ok(Some(separator)) => {
                f.write_str(",\n")?;
                Debug::fmt(separator, f)
            }
            Err(_) => f.write_str(",\nmissing separator"),
            Ok(None) => Ok(()),
        }
    }
}

pub trait AstSeparatedList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;
    fn elements(&self) -> AstSeparatedListElementsIterator<Self::Language, Self::Node> {
        AstSeparatedListElementsIterator { slots: self.syntax_list().iter(), ph: PhantomData }
    }
    fn separators(&self) -> AstSeparatorIterator<Self::Language, Self::Node> {
        AstSeparatorIterator { inner: self.elements() }
    }
    fn iter(&self) -> AstSeparatedListNodesIterator<Self::Language, Self::Node> {
        AstSeparatedListNodesIterator { inner: self.elements() }
    }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().next()
    }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().next_back()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn len(&self) -> usize {
        self.syntax_list().len().div_ceil(2)
    }
    fn trailing_separator(&self) -> Option<SyntaxToken<Self::Language>> {
        match self.syntax_list().last()? {
            SyntaxSlot::Token(t) => Some(t),
            _ => None,
        }
    }
}
pub struct AstSeparatorIterator<L: Language, N> {
    inner: AstSeparatedListElementsIterator<L, N>,
}
impl<L: Language, N: AstNode<Language = L>> Iterator for AstSeparatorIterator<L, N> {
    type Item = SyntaxResult<SyntaxToken<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            match self.inner.next()?.into_trailing_separator() {
                Ok(Some(t)) => return Some(Ok(t)),
                Ok(None) => {}
                Err(e) => return Some(Err(e)),
            }
        }
    }
}
#[derive(Debug, Clone)]
pub struct AstSeparatedListElementsIterator<L: Language, N> {
    slots: SyntaxSlots<L>,
    ph: PhantomData<N>,
}
impl<L: Language, N: AstNode<Language = L>> Iterator for AstSeparatedListElementsIterator<L, N> {
    type Item = AstSeparatedElement<L, N>;
    fn next(&mut self) -> Option<Self::Item> {
        let node = match self.slots.next()? {
            SyntaxSlot::Node(n) => Ok(N::unwrap_cast(n)),
            SyntaxSlot::Token(t) => panic!("Malformed list, node expected but found token {t:?} instead."),
            SyntaxSlot::Empty { .. } => Err(SyntaxError::MissingRequiredChild),
        };
        let trailing_separator = match self.slots.next() {
            None => Ok(None),
            Some(SyntaxSlot::Token(t)) => Ok(Some(t)),
            Some(SyntaxSlot::Empty { .. }) => Err(SyntaxError::MissingRequiredChild),
            Some(SyntaxSlot::Node(n)) => panic!("Malformed separated list, separator expected but found node {n:?} instead."),
        };
        Some(AstSeparatedElement { node, trailing_separator })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.slots.len().div_ceil(2);
        (n, Some(n))
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstSeparatedListElementsIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> FusedIterator for AstSeparatedListElementsIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator for AstSeparatedListElementsIterator<L, N> {
    fn next_back(&mut self) -> Option<Self::Item> {
        let slot = self.slots.next_back()?;
        let (trailing_separator, slot) = match slot {
            SyntaxSlot::Node(_) => (Ok(None), Some(slot)),
            SyntaxSlot::Token(t) => (Ok(Some(t)), self.slots.next_back()),
            // with an even number of slots left the last one was a separator
            SyntaxSlot::Empty { .. } => {
                if self.slots.len() % 2 == 1 {
                    (Err(SyntaxError::MissingRequiredChild), self.slots.next_back())
                } else {
                    (Ok(None), Some(slot))
                }
            }
        };
        let node = match slot {
            Some(SyntaxSlot::Node(n)) => Ok(N::unwrap_cast(n)),
            Some(SyntaxSlot::Token(t)) => panic!("Malformed list, node expected but found token {t:?} instead."),
            _ => Err(SyntaxError::MissingRequiredChild),
        };
        Some(AstSeparatedElement { node, trailing_separator })
    }
}
#[derive(Debug, Clone)]
pub struct AstSeparatedListNodesIterator<L: Language, N> {
    inner: AstSeparatedListElementsIterator<L, N>,
}
impl<L: Language, N: AstNode<Language = L>> Iterator for AstSeparatedListNodesIterator<L, N> {
    type Item = SyntaxResult<N>;
    fn next(&mut self) -> Option<Self::Item> {
        self.inner.next().map(|e| e.into_node())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstSeparatedListNodesIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> FusedIterator for AstSeparatedListNodesIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator for AstSeparatedListNodesIterator<L, N> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.inner.next_back().map(|e| e.into_node())
    }
}

pub mod support {
    use super::*;
    pub fn node<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot_index: usize) -> Option<N> {
        match parent.element_in_slot(slot_index as u32)? {
            NodeOrToken::Node(n) => Some(N::unwrap_cast(n)),
            NodeOrToken::Token(t) => panic!("expected a node in the slot {slot_index} but found token {t:?}"),
        }
    }
    pub fn required_node<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot_index: usize) -> SyntaxResult<N> {
        node(parent, slot_index).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub fn elements<L: Language>(parent: &SyntaxNode<L>) -> SyntaxElementChildren<L> {
        parent.children_with_tokens()
    }
    pub fn list<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot_index: usize) -> N {
        required_node(parent, slot_index).unwrap()
    }
    pub fn token<L: Language>(parent: &SyntaxNode<L>, slot_index: usize) -> Option<SyntaxToken<L>> {
        match parent.element_in_slot(slot_index as u32)? {
            NodeOrToken::Token(t) => Some(t),
            NodeOrToken::Node(n) => panic!("expected a token in the slot {slot_index} but found node {n:?}"),
        }
    }
    pub fn required_token<L: Language>(parent: &SyntaxNode<L>, slot_index: usize) -> SyntaxResult<SyntaxToken<L>> {
        token(parent, slot_index).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub struct DebugSyntaxResult<N>(pub SyntaxResult<N>);
    impl<N: Debug> Debug for DebugSyntaxResult<N> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            match &self.0 {
                Ok(node) => Debug::fmt(node, f),
                Err(SyntaxError::MissingRequiredChild) => f.write_str("missing (required)"),
                Err(e) => write!(f, "{e}"),
            }
        }
    }
    pub struct DebugOptionalElement<N>(pub Option<N>);
    impl<N: Debug> Debug for DebugOptionalElement<N> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            match &self.0 {
                Some(node) => Debug::fmt(node, f),
                None => f.write_str("missing (optional)"),
            }
        }
    }
}
