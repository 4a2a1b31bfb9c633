use crate::comments::{FormatLeadingComments, FormatTrailingComments};
use crate::format_element::tag::VerbatimKind;
use crate::prelude::*;
use crate::{LINE_TERMINATORS, normalize_newlines};
use biome_rowan::{Direction, Language, SyntaxElement, SyntaxNode};
use biome_text_size::TextSize;

/// Prints a node as it stands in the source.
pub fn format_verbatim_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<'_, L> {
    let length = node.text_range().len();
    FormatVerbatimNode { node, kind: VerbatimKind::Verbatim { length }, format_comments: true }
}
pub fn format_verbatim_skipped<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<'_, L> {
    let length = node.text_range().len();
    FormatVerbatimNode { node, kind: VerbatimKind::Verbatim { length }, format_comments: false }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct FormatVerbatimNode<'node, L: Language> {
    pub(crate) node: &'node SyntaxNode<L>,
    pub(crate) kind: VerbatimKind,
    pub(crate) format_comments: bool,
}
impl<Context: CstFormatContext> Format<Context> for FormatVerbatimNode<'_, Context::Language> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        for element in self.node.descendants_with_tokens(Direction::Next) {
            match element {
                SyntaxElement::Token(token) => f.state_mut().track_token(&token),
                SyntaxElement::Node(node) => {
                    let comments = f.context().comments();
                    comments.mark_suppression_checked(&node);
                    for comment in comments.leading_dangling_trailing_comments(&node) {
                        comment.mark_formatted();
                    }
                }
            }
        }
        let trimmed = self.node.text_trimmed_range();
        f.write_element(FormatElement::Tag(Tag::StartVerbatim(self.kind)))?;
        if self.format_comments {
            let comments = f.context().comments().clone();
            let leading = comments.leading_comments(self.node);
            let outside = leading.partition_point(|comment| comment.piece().text_range().end() <= trimmed.start());
            crate::write!(f, [FormatLeadingComments::Comments(&leading[..outside])])?;
        }
        let source = self.node.text_trimmed().to_string();
        dynamic_text(&normalize_newlines(&source, LINE_TERMINATORS), trimmed.start()).fmt(f)?;
        if self.format_comments {
            let comments = f.context().comments().clone();
            let trailing = comments.trailing_comments(self.node);
            let outside = trailing.partition_point(|comment| comment.piece().text_range().end() <= trimmed.end());
            crate::write!(f, [FormatTrailingComments::Comments(&trailing[outside..])])?;
        }
        f.write_element(FormatElement::Tag(Tag::EndVerbatim))
    }
}
impl<L: Language> FormatVerbatimNode<'_, L> {
    pub fn text_len(&self) -> TextSize {
        self.node.text_range().len()
    }
}

pub fn format_bogus_node<L: Language>(node: &SyntaxNode<L>) -> FormatBogusNode<'_, L> {
    FormatBogusNode { node }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct FormatBogusNode<'node, L: Language> {
    node: &'node SyntaxNode<L>,
}
impl<Context: CstFormatContext> Format<Context> for FormatBogusNode<'_, Context::Language> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        FormatVerbatimNode { node: self.node, kind: VerbatimKind::Bogus, format_comments: true }.fmt(f)
    }
}

pub fn format_suppressed_node<L: Language>(node: &SyntaxNode<L>) -> FormatSuppressedNode<'_, L> {
    FormatSuppressedNode { node }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct FormatSuppressedNode<'node, L: Language> {
    node: &'node SyntaxNode<L>,
}
impl<Context: CstFormatContext> Format<Context> for FormatSuppressedNode<'_, Context::Language> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        crate::write!(
            f,
            [
                expand_parent(),
                FormatVerbatimNode { node: self.node, kind: VerbatimKind::Suppressed, format_comments: true }
            ]
        )
    }
}

pub fn format_or_verbatim<F>(inner: F) -> FormatNodeOrVerbatim<F> {
    FormatNodeOrVerbatim { inner }
}
#[derive(Clone, Debug)]
pub struct FormatNodeOrVerbatim<F> {
    inner: F,
}
impl<F, Context, Item> Format<Context> for FormatNodeOrVerbatim<F>
where
    F: FormatWithRule<Context, Item = Item>,
    Item: biome_rowan::AstNode<Language = Context::Language>,
    Context: CstFormatContext,
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let snapshot = Buffer::snapshot(f);
        match self.inner.fmt(f) {
            Ok(result) => Ok(result),
            Err(FormatError::SyntaxError) => {
                f.restore_snapshot(snapshot);
                format_suppressed_node(self.inner.item().syntax()).fmt(f)
            }
            Err(error) => Err(error),
        }
    }
}
