use crate::prelude::*;
use crate::{FormatWithRule, GroupId};
use biome_rowan::{AstNode, AstSeparatedElement, Language, SyntaxResult, SyntaxToken};
use std::iter::{FusedIterator, Peekable};

pub trait FormatSeparatedElementRule<N: AstNode> {
    type Context;
    type FormatNode<'a>: Format<Self::Context>
    where
        N: 'a;
    type FormatSeparator<'a>: Format<Self::Context>
    where
        N: 'a;
    fn format_node<'a>(&self, node: &'a N) -> Self::FormatNode<'a>;
    fn format_separator<'a>(&self, separator: &'a SyntaxToken<N::Language>) -> Self::FormatSeparator<'a>;
}

#[derive(Debug, Copy, Clone, Eq, PartialEq, Default)]
pub enum TrailingSeparator {
    #[default]
    Allowed,
    Disallowed,
    Mandatory,
    Omit,
}
impl TrailingSeparator {
    pub fn is_allowed(&self) -> bool {
        matches!(self, TrailingSeparator::Allowed)
    }
    pub fn is_mandatory(&self) -> bool {
        matches!(self, TrailingSeparator::Mandatory)
    }
}

#[derive(Debug, Default, Copy, Clone)]
pub struct FormatSeparatedOptions {
    trailing_separator: TrailingSeparator,
    group_id: Option<GroupId>,
    nodes_grouped: bool,
}

#[derive(Clone)]
pub struct FormatSeparatedElement<N: AstNode, R> {
    element: AstSeparatedElement<N::Language, N>,
    rule: R,
    is_last: bool,
    separator: &'static str,
    options: FormatSeparatedOptions,
}
impl<N: AstNode, R> FormatSeparatedElement<N, R> {
    pub fn node(&self) -> SyntaxResult<&N> {
        self.element.node()
    }
}
impl<N, R, C> Format<C> for FormatSeparatedElement<N, R>
where
    N: AstNode,
    N::Language: 'static,
    R: FormatSeparatedElementRule<N, Context = C>,
    C: CstFormatContext<Language = N::Language>,
{
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        let node = self.element.node()?;
        let separator = self.element.trailing_separator()?;
        let node = self.rule.format_node(node);
        if self.options.nodes_grouped {
            crate::write!(f, [group(&node)])?;
        } else {
            crate::write!(f, [node])?;
        }
        if let Some(separator) = separator {
            if self.is_last {
                match self.options.trailing_separator {
                    TrailingSeparator::Allowed => {
                        let formatted = self.rule.format_separator(separator);
                        crate::write!(
                            f,
                            [format_only_if_breaks(separator, &formatted)]
                        )?;
                    }
                    TrailingSeparator::Mandatory => {
                        crate::write!(f, [self.rule.format_separator(separator)])?;
                    }
                    TrailingSeparator::Disallowed => {
                        // A trailing separator where the language has none: do not lose it.
                        crate::write!(f, [self.rule.format_separator(separator)])?;
                    }
                    TrailingSeparator::Omit => {
                        crate::write!(f, [format_removed(separator)])?;
                    }
                }
            } else {
                crate::write!(f, [self.rule.format_separator(separator)])?;
            }
        } else if self.is_last {
            match self.options.trailing_separator {
                TrailingSeparator::Allowed => {
                    crate::write!(f, [if_group_breaks(&text(self.separator)).with_group_id(self.options.group_id)])?;
                }
                TrailingSeparator::Mandatory => {
                    text(self.separator).fmt(f)?;
                }
                TrailingSeparator::Omit | TrailingSeparator::Disallowed => {}
            }
        } else {
            return Err(FormatError::SyntaxError);
        }
        Ok(())
    }
}

pub struct FormatSeparatedIter<I: Iterator, N, R> {
    next: std::marker::PhantomData<N>,
    rule: R,
    inner: Peekable<I>,
    separator: &'static str,
    options: FormatSeparatedOptions,
}
impl<I, L, N, R> FormatSeparatedIter<I, N, R>
where
    I: Iterator<Item = AstSeparatedElement<L, N>>,
    L: Language,
{
    pub fn new(inner: I, separator: &'static str, rule: R) -> Self {
        Self { next: std::marker::PhantomData, rule, inner: inner.peekable(), separator, options: FormatSeparatedOptions::default() }
    }
    pub fn nodes_grouped(mut self) -> Self {
        self.options.nodes_grouped = true;
        self
    }
    pub fn with_trailing_separator(mut self, separator: TrailingSeparator) -> Self {
        self.options.trailing_separator = separator;
        self
    }
    pub fn with_group_id(mut self, group_id: Option<GroupId>) -> Self {
        self.options.group_id = group_id;
        self
    }
}
impl<I, N, R, C> Iterator for FormatSeparatedIter<I, N, R>
where
    I: Iterator<Item = AstSeparatedElement<N::Language, N>>,
    N: AstNode,
    R: FormatSeparatedElementRule<N, Context = C> + Clone,
    C: CstFormatContext,
{
    type Item = FormatSeparatedElement<N, R>;
    fn next(&mut self) -> Option<Self::Item> {
        let element = self.inner.next()?;
        let is_last = self.inner.peek().is_none();
        Some(FormatSeparatedElement { element, rule: self.rule.clone(), is_last, separator: self.separator, options: self.options })
    }
}
impl<I, N, R, C> FusedIterator for FormatSeparatedIter<I, N, R>
where
    I: Iterator<Item = AstSeparatedElement<N::Language, N>> + FusedIterator,
    N: AstNode,
    R: FormatSeparatedElementRule<N, Context = C> + Clone,
    C: CstFormatContext,
{
}
#[allow(dead_code)]
fn _uses<C, F: FormatWithRule<C>>(_: F) {}
