//! Comments: where they belong, and how they are printed.
use crate::prelude::*;
use crate::{Argument, Arguments, TransformSourceMap};
use biome_rowan::{Direction, Language, SyntaxElementKey, SyntaxKind, SyntaxNode, SyntaxToken, SyntaxTriviaPieceComments, WalkEvent};
use biome_text_size::TextRange;
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt;
use std::rc::Rc;

#[derive(Eq, PartialEq, Ord, PartialOrd, Copy, Clone, Debug)]
pub enum CommentKind {
    InlineBlock,
    Block,
    Line,
}
impl CommentKind {
    pub const fn is_line(&self) -> bool {
        matches!(self, CommentKind::Line)
    }
    pub const fn is_block(&self) -> bool {
        matches!(self, CommentKind::Block)
    }
    pub const fn is_inline_block(&self) -> bool {
        matches!(self, CommentKind::InlineBlock)
    }
    pub const fn is_inline(&self) -> bool {
        matches!(self, CommentKind::InlineBlock)
    }
}

#[derive(Debug, Clone)]
pub struct SourceComment<L: Language> {
    lines_before: u32,
    lines_after: u32,
    piece: SyntaxTriviaPieceComments<L>,
    kind: CommentKind,
    formatted: Cell<bool>,
}
impl<L: Language> SourceComment<L> {
    pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
        &self.piece
    }
    pub fn lines_before(&self) -> u32 {
        self.lines_before
    }
    pub fn lines_after(&self) -> u32 {
        self.lines_after
    }
    pub fn kind(&self) -> CommentKind {
        self.kind
    }
    pub fn mark_formatted(&self) {
        self.formatted.set(true);
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum CommentTextPosition {
    SameLine,
    EndOfLine,
    OwnLine,
}
impl CommentTextPosition {
    pub const fn is_same_line(&self) -> bool {
        matches!(self, CommentTextPosition::SameLine)
    }
    pub const fn is_own_line(&self) -> bool {
        matches!(self, CommentTextPosition::OwnLine)
    }
    pub const fn is_end_of_line(&self) -> bool {
        matches!(self, CommentTextPosition::EndOfLine)
    }
}

#[derive(Debug, Clone)]
pub struct DecoratedComment<L: Language> {
    enclosing: SyntaxNode<L>,
    preceding: Option<SyntaxNode<L>>,
    following: Option<SyntaxNode<L>>,
    following_token: Option<SyntaxToken<L>>,
    text_position: CommentTextPosition,
    lines_before: u32,
    lines_after: u32,
    comment: SyntaxTriviaPieceComments<L>,
    kind: CommentKind,
}
impl<L: Language> DecoratedComment<L> {
    pub fn enclosing_node(&self) -> &SyntaxNode<L> {
        &self.enclosing
    }
    pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
        &self.comment
    }
    pub fn preceding_node(&self) -> Option<&SyntaxNode<L>> {
        self.preceding.as_ref()
    }
    fn take_preceding_node(&mut self) -> Option<SyntaxNode<L>> {
        self.preceding.take()
    }
    pub fn following_node(&self) -> Option<&SyntaxNode<L>> {
        self.following.as_ref()
    }
    fn take_following_node(&mut self) -> Option<SyntaxNode<L>> {
        self.following.take()
    }
    pub fn lines_before(&self) -> u32 {
        self.lines_before
    }
    pub fn lines_after(&self) -> u32 {
        self.lines_after
    }
    pub fn kind(&self) -> CommentKind {
        self.kind
    }
    pub fn text_position(&self) -> CommentTextPosition {
        self.text_position
    }
    pub fn following_token(&self) -> Option<&SyntaxToken<L>> {
        self.following_token.as_ref()
    }
}
impl<L: Language> From<DecoratedComment<L>> for SourceComment<L> {
    fn from(comment: DecoratedComment<L>) -> Self {
        Self {
            lines_before: comment.lines_before,
            lines_after: comment.lines_after,
            piece: comment.comment,
            kind: comment.kind,
            formatted: Cell::new(false),
        }
    }
}

#[derive(Debug)]
pub enum CommentPlacement<L: Language> {
    Leading { node: SyntaxNode<L>, comment: SourceComment<L> },
    Trailing { node: SyntaxNode<L>, comment: SourceComment<L> },
    Dangling { node: SyntaxNode<L>, comment: SourceComment<L> },
    Default(DecoratedComment<L>),
}
impl<L: Language> CommentPlacement<L> {
    pub fn leading(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
        Self::Leading { node, comment: comment.into() }
    }
    pub fn dangling(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
        Self::Dangling { node, comment: comment.into() }
    }
    pub fn trailing(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
        Self::Trailing { node, comment: comment.into() }
    }
    pub fn or_else<F: FnOnce(DecoratedComment<L>) -> CommentPlacement<L>>(self, f: F) -> Self {
        match self {
            CommentPlacement::Default(comment) => f(comment),
            placement => placement,
        }
    }
}

pub trait CommentStyle: Default {
    type Language: Language;
    fn is_suppression(_text: &str) -> bool {
        false
    }
    fn is_global_suppression(_text: &str) -> bool {
        false
    }
    fn get_comment_kind(comment: &SyntaxTriviaPieceComments<Self::Language>) -> CommentKind;
    fn place_comment(&self, comment: DecoratedComment<Self::Language>) -> CommentPlacement<Self::Language> {
        CommentPlacement::Default(comment)
    }
}

struct Parts<L: Language> {
    leading: Vec<SourceComment<L>>,
    dangling: Vec<SourceComment<L>>,
    trailing: Vec<SourceComment<L>>,
}
impl<L: Language> Default for Parts<L> {
    fn default() -> Self {
        Self { leading: Vec::new(), dangling: Vec::new(), trailing: Vec::new() }
    }
}
struct CommentsData<L: Language> {
    map: HashMap<SyntaxElementKey, Parts<L>>,
    root: Option<SyntaxNode<L>>,
}
pub struct Comments<L: Language> {
    data: Rc<CommentsData<L>>,
}
impl<L: Language> Clone for Comments<L> {
    fn clone(&self) -> Self {
        Self { data: self.data.clone() }
    }
}
impl<L: Language> Default for Comments<L> {
    fn default() -> Self {
        Self { data: Rc::new(CommentsData { map: HashMap::new(), root: None }) }
    }
}
impl<L: Language> fmt::Debug for Comments<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        std::write!(f, "Comments({})", self.data.map.len())
    }
}
impl<L: Language> Comments<L> {
    pub fn from_node<Style: CommentStyle<Language = L>>(root: &SyntaxNode<L>, style: &Style, _source_map: Option<&TransformSourceMap>) -> Self {
        let mut builder = Builder {
            style,
            queue: Vec::new(),
            map: HashMap::new(),
            parents: Vec::new(),
            preceding_node: None,
            following_node_index: None,
            last_token: None,
        };
        builder.visit(root);
        Self { data: Rc::new(CommentsData { map: builder.map, root: Some(root.clone()) }) }
    }
    fn parts(&self, node: &SyntaxNode<L>) -> Option<&Parts<L>> {
        let _ = &self.data.root;
        self.data.map.get(&node.key())
    }
    pub fn has_comments(&self, node: &SyntaxNode<L>) -> bool {
        self.parts(node).is_some()
    }
    pub fn has_leading_comments(&self, node: &SyntaxNode<L>) -> bool {
        !self.leading_comments(node).is_empty()
    }
    pub fn has_leading_own_line_comment(&self, node: &SyntaxNode<L>) -> bool {
        self.leading_comments(node).iter().any(|comment| comment.lines_after() > 0)
    }
    pub fn leading_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
        self.parts(node).map_or(&[], |parts| &parts.leading)
    }
    pub fn has_dangling_comments(&self, node: &SyntaxNode<L>) -> bool {
        !self.dangling_comments(node).is_empty()
    }
    pub fn dangling_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
        self.parts(node).map_or(&[], |parts| &parts.dangling)
    }
    pub fn trailing_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
        self.parts(node).map_or(&[], |parts| &parts.trailing)
    }
    pub fn has_trailing_line_comment(&self, node: &SyntaxNode<L>) -> bool {
        self.trailing_comments(node).iter().any(|comment| comment.kind().is_line())
    }
    pub fn has_trailing_own_line_comment(&self, node: &SyntaxNode<L>) -> bool {
        self.trailing_comments(node).iter().any(|comment| comment.lines_before() > 0)
    }
    pub fn has_trailing_comments(&self, node: &SyntaxNode<L>) -> bool {
        !self.trailing_comments(node).is_empty()
    }
    pub fn leading_trailing_comments(&self, node: &SyntaxNode<L>) -> impl Iterator<Item = &SourceComment<L>> {
        self.leading_comments(node).iter().chain(self.trailing_comments(node))
    }
    pub fn leading_dangling_trailing_comments<'a>(&'a self, node: &'a SyntaxNode<L>) -> impl Iterator<Item = &'a SourceComment<L>> + 'a {
        self.leading_comments(node).iter().chain(self.dangling_comments(node)).chain(self.trailing_comments(node))
    }
    pub fn mark_suppression_checked(&self, _node: &SyntaxNode<L>) {}
    pub fn has_skipped(&self, _token: &SyntaxToken<L>) -> bool {
        false
    }
}

struct Builder<'a, S: CommentStyle> {
    style: &'a S,
    queue: Vec<DecoratedComment<S::Language>>,
    map: HashMap<SyntaxElementKey, Parts<S::Language>>,
    parents: Vec<SyntaxNode<S::Language>>,
    preceding_node: Option<SyntaxNode<S::Language>>,
    following_node_index: Option<usize>,
    last_token: Option<SyntaxToken<S::Language>>,
}
impl<S: CommentStyle> Builder<'_, S> {
    fn visit(&mut self, root: &SyntaxNode<S::Language>) {
        for event in root.preorder_with_tokens(Direction::Next) {
            match event {
                WalkEvent::Enter(biome_rowan::SyntaxElement::Node(node)) => self.enter(node),
                WalkEvent::Leave(biome_rowan::SyntaxElement::Node(node)) => self.leave(node),
                WalkEvent::Enter(biome_rowan::SyntaxElement::Token(token)) => self.token(token),
                WalkEvent::Leave(biome_rowan::SyntaxElement::Token(_)) => {}
            }
        }
        self.flush(None);
    }
    fn enter(&mut self, node: SyntaxNode<S::Language>) {
        if node.kind().is_list() {
            return;
        }
        let is_root = matches!(self.following_node_index, Some(0));
        if self.following_node_index.is_none() || is_root {
            self.flush(Some(&node));
            self.following_node_index = Some(self.parents.len());
        }
        self.parents.push(node);
    }
    fn leave(&mut self, node: SyntaxNode<S::Language>) {
        if node.kind().is_list() {
            return;
        }
        self.parents.pop();
        self.following_node_index = None;
        self.flush(None);
        self.preceding_node = Some(node);
    }
    fn enclosing(&self) -> SyntaxNode<S::Language> {
        let node = match self.following_node_index {
            None => self.parents.last(),
            Some(0) => self.parents.first(),
            Some(index) => self.parents.get(index - 1),
        };
        node.cloned().expect("a token is inside the root")
    }
    fn token(&mut self, token: SyntaxToken<S::Language>) {
        let enclosing = self.enclosing();
        let first = self.queue.len();
        let mut lines_before = 0;
        let mut position = CommentTextPosition::SameLine;
        let mut trailing_end = None;
        let mut pieces = Vec::new();
        if let Some(last) = self.last_token.take() {
            pieces.extend(last.trailing_trivia().pieces());
        }
        pieces.extend(token.leading_trivia().pieces());
        for piece in pieces {
            if piece.is_newline() {
                lines_before += 1;
                position = CommentTextPosition::OwnLine;
                trailing_end.get_or_insert(self.queue.len());
            } else if let Some(comment) = piece.as_comments() {
                let kind = S::get_comment_kind(&comment);
                self.queue.push(DecoratedComment {
                    enclosing: enclosing.clone(),
                    preceding: self.preceding_node.clone(),
                    following: None,
                    following_token: Some(token.clone()),
                    text_position: position,
                    lines_before,
                    lines_after: 0,
                    comment,
                    kind,
                });
                lines_before = 0;
            }
        }
        self.last_token = Some(token);
        let mut lines_after = lines_before;
        for comment in self.queue[first..].iter_mut().rev() {
            comment.lines_after = lines_after;
            lines_after = comment.lines_before;
        }
        if let Some(end) = trailing_end {
            for comment in &mut self.queue[first..end] {
                comment.text_position = CommentTextPosition::EndOfLine;
            }
        }
        if let Some(index) = self.following_node_index.take() {
            let following = self.parents[index].clone();
            self.flush(Some(&following));
            self.preceding_node = None;
        }
    }
    fn flush(&mut self, following: Option<&SyntaxNode<S::Language>>) {
        for mut comment in std::mem::take(&mut self.queue) {
            comment.following = following.cloned();
            let placement = self.style.place_comment(comment);
            self.add(placement);
        }
    }
    fn add(&mut self, placement: CommentPlacement<S::Language>) {
        match placement {
            CommentPlacement::Leading { node, comment } => self.map.entry(node.key()).or_default().leading.push(comment),
            CommentPlacement::Trailing { node, comment } => self.map.entry(node.key()).or_default().trailing.push(comment),
            CommentPlacement::Dangling { node, comment } => self.map.entry(node.key()).or_default().dangling.push(comment),
            CommentPlacement::Default(mut comment) => {
                let enclosing = comment.enclosing.clone();
                let placement = match comment.text_position() {
                    CommentTextPosition::EndOfLine => match (comment.take_preceding_node(), comment.take_following_node()) {
                        (Some(preceding), _) => CommentPlacement::trailing(preceding, comment),
                        (None, Some(following)) => CommentPlacement::leading(following, comment),
                        (None, None) => CommentPlacement::dangling(enclosing, comment),
                    },
                    CommentTextPosition::OwnLine => match (comment.take_preceding_node(), comment.take_following_node()) {
                        (_, Some(following)) => CommentPlacement::leading(following, comment),
                        (Some(preceding), None) => CommentPlacement::trailing(preceding, comment),
                        (None, None) => CommentPlacement::dangling(enclosing, comment),
                    },
                    CommentTextPosition::SameLine => match (comment.take_preceding_node(), comment.take_following_node()) {
                        (Some(preceding), Some(following)) => {
                            if preceding.text_range().end() == comment.piece().token().text_range().end() {
                                CommentPlacement::trailing(preceding, comment)
                            } else {
                                CommentPlacement::leading(following, comment)
                            }
                        }
                        (Some(preceding), None) => CommentPlacement::trailing(preceding, comment),
                        (None, Some(following)) => CommentPlacement::leading(following, comment),
                        (None, None) => CommentPlacement::dangling(enclosing, comment),
                    },
                };
                self.add(placement);
            }
        }
    }
}

pub const fn format_leading_comments<L: Language>(node: &SyntaxNode<L>) -> FormatLeadingComments<'_, L> {
    FormatLeadingComments::Node(node)
}
#[derive(Debug, Copy, Clone)]
pub enum FormatLeadingComments<'a, L: Language> {
    Node(&'a SyntaxNode<L>),
    Comments(&'a [SourceComment<L>]),
}
impl<Context: CstFormatContext> Format<Context> for FormatLeadingComments<'_, Context::Language> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let comments = f.context().comments().clone();
        let leading = match self {
            FormatLeadingComments::Node(node) => comments.leading_comments(node),
            FormatLeadingComments::Comments(comments) => comments,
        };
        for comment in leading {
            let content = FormatRefWithRule::new(comment, Context::CommentRule::default());
            crate::write!(f, [content])?;
            match comment.kind() {
                CommentKind::Block | CommentKind::InlineBlock => match comment.lines_after() {
                    0 => crate::write!(f, [space()])?,
                    1 if comment.lines_before() == 0 => crate::write!(f, [soft_line_break_or_space()])?,
                    1 => crate::write!(f, [hard_line_break()])?,
                    _ => crate::write!(f, [empty_line()])?,
                },
                CommentKind::Line => match comment.lines_after() {
                    0 | 1 => crate::write!(f, [hard_line_break()])?,
                    _ => crate::write!(f, [empty_line()])?,
                },
            }
            comment.mark_formatted();
        }
        Ok(())
    }
}

pub const fn format_trailing_comments<L: Language>(node: &SyntaxNode<L>) -> FormatTrailingComments<'_, L> {
    FormatTrailingComments::Node(node)
}
#[derive(Debug, Clone, Copy)]
pub enum FormatTrailingComments<'a, L: Language> {
    Node(&'a SyntaxNode<L>),
    Comments(&'a [SourceComment<L>]),
}
impl<Context: CstFormatContext> Format<Context> for FormatTrailingComments<'_, Context::Language> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let comments = f.context().comments().clone();
        let trailing = match self {
            FormatTrailingComments::Node(node) => comments.trailing_comments(node),
            FormatTrailingComments::Comments(comments) => comments,
        };
        let mut total = 0;
        let mut previous: Option<&SourceComment<Context::Language>> = None;
        for comment in trailing {
            total += comment.lines_before();
            let content = FormatRefWithRule::new(comment, Context::CommentRule::default());
            if total > 0 {
                let after_line = previous.is_some_and(|previous| previous.kind().is_line());
                crate::write!(
                    f,
                    [
                        line_suffix(&format_with(|f: &mut Formatter<Context>| {
                            match comment.lines_before() {
                                0 if after_line => crate::write!(f, [hard_line_break()])?,
                                0 => crate::write!(f, [space()])?,
                                1 => crate::write!(f, [hard_line_break()])?,
                                _ => crate::write!(f, [empty_line()])?,
                            }
                            crate::write!(f, [content])
                        })),
                        expand_parent()
                    ]
                )?;
            } else {
                let content = format_with(|f: &mut Formatter<Context>| crate::write!(f, [space(), content]));
                if comment.kind().is_line() {
                    crate::write!(f, [line_suffix(&content), expand_parent()])?;
                } else {
                    crate::write!(f, [content])?;
                }
            }
            previous = Some(comment);
            comment.mark_formatted();
        }
        Ok(())
    }
}

pub const fn format_dangling_comments<L: Language>(node: &SyntaxNode<L>) -> FormatDanglingComments<'_, L> {
    FormatDanglingComments::Node { node, indent: DanglingIndentMode::None }
}
#[derive(Clone, Copy, Debug)]
pub enum DanglingIndentMode {
    Block,
    Soft,
    None,
}
#[derive(Clone, Copy, Debug)]
pub enum FormatDanglingComments<'a, L: Language> {
    Node { node: &'a SyntaxNode<L>, indent: DanglingIndentMode },
    Comments { comments: &'a [SourceComment<L>], indent: DanglingIndentMode },
}
impl<L: Language> FormatDanglingComments<'_, L> {
    pub fn with_block_indent(self) -> Self {
        self.with_indent_mode(DanglingIndentMode::Block)
    }
    pub fn with_soft_block_indent(self) -> Self {
        self.with_indent_mode(DanglingIndentMode::Soft)
    }
    pub fn with_indent_mode(mut self, mode: DanglingIndentMode) -> Self {
        match &mut self {
            FormatDanglingComments::Node { indent, .. } | FormatDanglingComments::Comments { indent, .. } => *indent = mode,
        }
        self
    }
}
impl<Context: CstFormatContext> Format<Context> for FormatDanglingComments<'_, Context::Language> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let comments = f.context().comments().clone();
        let (dangling, indent) = match self {
            FormatDanglingComments::Node { node, indent } => (comments.dangling_comments(node), indent),
            FormatDanglingComments::Comments { comments, indent } => (*comments, indent),
        };
        if dangling.is_empty() {
            return Ok(());
        }
        let content = format_with(|f: &mut Formatter<Context>| {
            let mut join = f.join_with(soft_line_break_or_space());
            for comment in dangling {
                join.entry(&FormatRefWithRule::new(comment, Context::CommentRule::default()));
                comment.mark_formatted();
            }
            join.finish()?;
            if dangling.last().is_some_and(|comment| comment.kind().is_line()) {
                crate::write!(f, [hard_line_break()])?;
            }
            Ok(())
        });
        match indent {
            DanglingIndentMode::Block => crate::write!(f, [block_indent(&content)]),
            DanglingIndentMode::Soft => crate::write!(f, [group(&soft_block_indent(&content))]),
            DanglingIndentMode::None => crate::write!(f, [content]),
        }
    }
}
#[allow(dead_code)]
fn _range(_: TextRange) {}
#[allow(dead_code)]
fn _args<'a, C>(a: &'a Argument<'a, C>) -> Arguments<'a, C> {
    Arguments::from(a)
}
