//! Building trees from parse events.
use crate::green::*;
use crate::syntax::*;
use std::fmt;
use std::marker::PhantomData;
use std::sync::Arc;

pub trait SyntaxFactory: fmt::Debug {
    type Kind: SyntaxKind;
    fn make_syntax(kind: Self::Kind, children: ParsedChildren<Self::Kind>) -> RawSyntaxNode<Self::Kind>;

    fn make_node_list_syntax<F>(kind: Self::Kind, children: ParsedChildren<Self::Kind>, can_cast: F) -> RawSyntaxNode<Self::Kind>
    where
        F: Fn(Self::Kind) -> bool,
    {
        let valid = (&children).into_iter().all(|c| can_cast(c.kind()));
        let kind = if valid { kind } else { kind.to_bogus() };
        RawSyntaxNode::new(kind, children.into_iter().map(Some))
    }

    fn make_separated_list_syntax<F>(
        kind: Self::Kind,
        children: ParsedChildren<Self::Kind>,
        can_cast: F,
        separator: Self::Kind,
        allow_trailing: bool,
    ) -> RawSyntaxNode<Self::Kind>
    where
        F: Fn(Self::Kind) -> bool,
    {
        let mut next_node = true;
        let mut slots: Vec<bool> = vec![]; // is there a child in this slot
        let mut valid = true;
        for child in &children {
            let child = child.kind();
            if next_node {
                if can_cast(child) {
                    slots.push(true);
                    next_node = false;
                } else if child == separator {
                    // missing node, then its separator
                    slots.push(false);
                    slots.push(true);
                } else {
                    valid = false;
                    break;
                }
            } else if child == separator {
                slots.push(true);
                next_node = true;
            } else if can_cast(child) {
                // missing separator, then the next node
                slots.push(false);
                slots.push(true);
            } else {
                valid = false;
                break;
            }
        }
        if valid && next_node && !allow_trailing && !slots.is_empty() {
            slots.push(false);
        }
        if !valid {
            return RawSyntaxNode::new(kind.to_bogus(), children.into_iter().map(Some));
        }
        let mut children = children.into_iter();
        let slots: Vec<_> = slots.into_iter().map(|present| if present { children.next() } else { None }).collect();
        RawSyntaxNode::new(kind, slots)
    }
}

#[derive(Debug, Clone)]
pub struct RawSyntaxElement<K> {
    green: GreenElement,
    _p: PhantomData<K>,
}
impl<K: SyntaxKind> RawSyntaxElement<K> {
    pub fn kind(&self) -> K {
        K::from_raw(self.green.kind())
    }
}
#[derive(Debug)]
pub struct ParsedChildren<K> {
    list: Vec<RawSyntaxElement<K>>,
}
impl<K: SyntaxKind> ParsedChildren<K> {
    pub fn len(&self) -> usize {
        self.list.len()
    }
    pub fn is_empty(&self) -> bool {
        self.list.is_empty()
    }
}
impl<K> IntoIterator for ParsedChildren<K> {
    type Item = RawSyntaxElement<K>;
    type IntoIter = std::vec::IntoIter<RawSyntaxElement<K>>;
    fn into_iter(self) -> Self::IntoIter {
        self.list.into_iter()
    }
}
impl<'a, K> IntoIterator for &'a ParsedChildren<K> {
    type Item = &'a RawSyntaxElement<K>;
    type IntoIter = std::slice::Iter<'a, RawSyntaxElement<K>>;
    fn into_iter(self) -> Self::IntoIter {
        self.list.iter()
    }
}
#[derive(Debug)]
pub struct RawSyntaxNode<K> {
    green: Arc<GreenNode>,
    _p: PhantomData<K>,
}
impl<K: SyntaxKind> RawSyntaxNode<K> {
    pub fn new<I>(kind: K, slots: I) -> Self
    where
        I: IntoIterator<Item = Option<RawSyntaxElement<K>>>,
    {
        let slots = slots.into_iter().map(|s| s.map(|e| e.green)).collect();
        RawSyntaxNode { green: GreenNode::new(kind.to_raw(), slots), _p: PhantomData }
    }
    pub fn kind(&self) -> K {
        K::from_raw(self.green.kind)
    }
}
#[derive(Debug)]
pub struct RawNodeSlots<const COUNT: usize> {
    present: [bool; COUNT],
    at: usize,
}
impl<const COUNT: usize> Default for RawNodeSlots<COUNT> {
    fn default() -> Self {
        Self { present: [false; COUNT], at: 0 }
    }
}
impl<const COUNT: usize> RawNodeSlots<COUNT> {
    pub fn next_slot(&mut self) {
        self.at += 1;
    }
    pub fn mark_present(&mut self) {
        self.present[self.at] = true;
    }
    pub fn into_node<K: SyntaxKind>(self, kind: K, children: ParsedChildren<K>) -> RawSyntaxNode<K> {
        let mut children = children.into_iter();
        let slots: Vec<_> = self.present.iter().map(|p| if *p { children.next() } else { None }).collect();
        assert!(children.next().is_none());
        RawSyntaxNode::new(kind, slots)
    }
}

/// Builds a tree from nested starts, tokens and finishes.
pub struct TreeBuilder<'cache, L: Language, S> {
    parents: Vec<(L::Kind, usize)>,
    children: Vec<RawSyntaxElement<L::Kind>>,
    _p: PhantomData<(&'cache (), S)>,
}
impl<L: Language, S: SyntaxFactory<Kind = L::Kind>> Default for TreeBuilder<'static, L, S> {
    fn default() -> Self {
        Self::new()
    }
}
impl<L: Language, S: SyntaxFactory<Kind = L::Kind>> TreeBuilder<'static, L, S> {
    pub fn new() -> Self {
        TreeBuilder { parents: vec![], children: vec![], _p: PhantomData }
    }
}
impl<'cache, L: Language, S: SyntaxFactory<Kind = L::Kind>> TreeBuilder<'cache, L, S> {
    pub fn with_cache(_: &'cache mut NodeCache) -> Self {
        TreeBuilder { parents: vec![], children: vec![], _p: PhantomData }
    }
    pub fn token(&mut self, kind: L::Kind, text: &str) -> &mut Self {
        self.token_with_trivia(kind, text, &[], &[])
    }
    pub fn token_with_trivia(&mut self, kind: L::Kind, text: &str, leading: &[TriviaPiece], trailing: &[TriviaPiece]) -> &mut Self {
        let green = GreenToken::new(kind.to_raw(), text, leading.to_vec(), trailing.to_vec());
        self.children.push(RawSyntaxElement { green: GreenElement::Token(green), _p: PhantomData });
        self
    }
    pub fn start_node(&mut self, kind: L::Kind) -> &mut Self {
        self.parents.push((kind, self.children.len()));
        self
    }
    pub fn finish_node(&mut self) -> &mut Self {
        let (kind, first) = self.parents.pop().unwrap();
        let list = self.children.split_off(first);
        let node = S::make_syntax(kind, ParsedChildren { list });
        self.children.push(RawSyntaxElement { green: GreenElement::Node(node.green), _p: PhantomData });
        self
    }
    pub fn finish(mut self) -> SyntaxNode<L> {
        assert_eq!(self.children.len(), 1);
        assert!(self.parents.is_empty());
        match self.children.pop().unwrap().green {
            GreenElement::Node(green) => SyntaxNode::new_root(green),
            GreenElement::Token(_) => panic!("the root is a token"),
        }
    }
}
