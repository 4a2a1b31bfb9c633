use crate::format_element::tag::{Condition, DedentMode, GroupMode};
use crate::format_element::{Align as TagAlign, BestFittingElement, Group as TagGroup, LineMode, PrintMode};
use crate::prelude::*;
use crate::{Argument, Arguments, GroupId, VecBuffer};
use biome_rowan::{Language, SyntaxNode, SyntaxToken, TextLen};
use biome_text_size::{TextRange, TextSize};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use Tag::*;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Line {
    mode: LineMode,
}
pub const fn soft_line_break() -> Line {
    Line { mode: LineMode::Soft }
}
pub const fn hard_line_break() -> Line {
    Line { mode: LineMode::Hard }
}
pub const fn empty_line() -> Line {
    Line { mode: LineMode::Empty }
}
pub const fn soft_line_break_or_space() -> Line {
    Line { mode: LineMode::SoftOrSpace }
}
impl<Context> Format<Context> for Line {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Line(self.mode))
    }
}

pub fn text(text: &'static str) -> StaticText {
    debug_assert!(!text.contains('\r'), "the content '{text}' contains an unsupported '\\r' line terminator");
    StaticText { text }
}
#[derive(Eq, PartialEq, Copy, Clone, Debug)]
pub struct StaticText {
    text: &'static str,
}
impl<Context> Format<Context> for StaticText {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::StaticText { text: self.text })
    }
}
pub fn dynamic_text(text: &str, position: TextSize) -> DynamicText<'_> {
    debug_assert!(!text.contains('\r'), "the content '{text}' contains an unsupported '\\r' line terminator");
    DynamicText { text, position }
}
#[derive(Eq, PartialEq, Clone, Copy, Debug)]
pub struct DynamicText<'a> {
    text: &'a str,
    position: TextSize,
}
impl<Context> Format<Context> for DynamicText<'_> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::DynamicText { text: self.text.into(), source_position: self.position })
    }
}
pub fn syntax_token_cow_slice<'a, L: Language>(text: Cow<'a, str>, token: &'a SyntaxToken<L>, start: TextSize) -> SyntaxTokenCowSlice<'a, L> {
    debug_assert!(!text.contains('\r'), "the content '{text}' contains an unsupported '\\r' line terminator");
    SyntaxTokenCowSlice { text, token, start }
}
pub struct SyntaxTokenCowSlice<'a, L: Language> {
    text: Cow<'a, str>,
    token: &'a SyntaxToken<L>,
    start: TextSize,
}
impl<L: Language, Context> Format<Context> for SyntaxTokenCowSlice<'_, L> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        match &self.text {
            Cow::Borrowed(text) => {
                let range = TextRange::at(self.start, text.text_len());
                debug_assert_eq!(*text, &self.token.text()[range - self.token.text_range().start()]);
                located_token_text(self.token, range).fmt(f)
            }
            Cow::Owned(text) => f.write_element(FormatElement::DynamicText { text: text.clone().into_boxed_str(), source_position: self.start }),
        }
    }
}
pub fn located_token_text<L: Language>(token: &SyntaxToken<L>, range: TextRange) -> LocatedTokenText {
    let relative = range - token.text_range().start();
    let slice = token.token_text().slice(relative);
    debug_assert!(!slice.text().contains('\r'), "the content '{}' contains an unsupported '\\r' line terminator", slice.text());
    LocatedTokenText { text: slice, position: range.start() }
}
pub struct LocatedTokenText {
    text: biome_rowan::TokenText,
    position: TextSize,
}
impl<Context> Format<Context> for LocatedTokenText {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::LocatedTokenText { slice: self.text.clone(), source_position: self.position })
    }
}

pub fn line_suffix<Context>(inner: &impl Format<Context>) -> LineSuffix<'_, Context> {
    LineSuffix { content: Argument::new(inner) }
}
#[derive(Copy, Clone)]
pub struct LineSuffix<'a, Context> {
    content: Argument<'a, Context>,
}
impl<Context> Format<Context> for LineSuffix<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Tag(StartLineSuffix))?;
        Arguments::from(&self.content).fmt(f)?;
        f.write_element(FormatElement::Tag(EndLineSuffix))
    }
}
pub const fn line_suffix_boundary() -> LineSuffixBoundary {
    LineSuffixBoundary
}
#[derive(Copy, Clone, Debug)]
pub struct LineSuffixBoundary;
impl<Context> Format<Context> for LineSuffixBoundary {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::LineSuffixBoundary)
    }
}

pub fn labelled<Context>(label: LabelId, content: &impl Format<Context>) -> FormatLabelled<'_, Context> {
    FormatLabelled { label, content: Argument::new(content) }
}
#[derive(Copy, Clone)]
pub struct FormatLabelled<'a, Context> {
    label: LabelId,
    content: Argument<'a, Context>,
}
impl<Context> Format<Context> for FormatLabelled<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Tag(StartLabelled(self.label)))?;
        Arguments::from(&self.content).fmt(f)?;
        f.write_element(FormatElement::Tag(EndLabelled))
    }
}

pub const fn space() -> Space {
    Space
}
pub const fn hard_space() -> HardSpace {
    HardSpace
}
pub fn maybe_space(should_insert: bool) -> Option<Space> {
    should_insert.then_some(Space)
}
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct Space;
impl<Context> Format<Context> for Space {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Space)
    }
}
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct HardSpace;
impl<Context> Format<Context> for HardSpace {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::HardSpace)
    }
}

pub fn indent<Content: Format<Context>, Context>(content: &Content) -> Indent<'_, Context> {
    Indent { content: Argument::new(content) }
}
#[derive(Copy, Clone)]
pub struct Indent<'a, Context> {
    content: Argument<'a, Context>,
}
impl<Context> Format<Context> for Indent<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Tag(StartIndent))?;
        Arguments::from(&self.content).fmt(f)?;
        f.write_element(FormatElement::Tag(EndIndent))
    }
}
pub fn dedent<Content: Format<Context>, Context>(content: &Content) -> Dedent<'_, Context> {
    Dedent { content: Argument::new(content), mode: DedentMode::Level }
}
pub fn dedent_to_root<Content: Format<Context>, Context>(content: &Content) -> Dedent<'_, Context> {
    Dedent { content: Argument::new(content), mode: DedentMode::Root }
}
#[derive(Copy, Clone)]
pub struct Dedent<'a, Context> {
    content: Argument<'a, Context>,
    mode: DedentMode,
}
impl<Context> Format<Context> for Dedent<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Tag(StartDedent(self.mode)))?;
        Arguments::from(&self.content).fmt(f)?;
        f.write_element(FormatElement::Tag(EndDedent(self.mode)))
    }
}
pub fn align<Content: Format<Context>, Context>(count: u8, content: &Content) -> Align<'_, Context> {
    Align { content: Argument::new(content), count }
}
#[derive(Copy, Clone)]
pub struct Align<'a, Context> {
    content: Argument<'a, Context>,
    count: u8,
}
impl<Context> Format<Context> for Align<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Tag(StartAlign(TagAlign(self.count))))?;
        Arguments::from(&self.content).fmt(f)?;
        f.write_element(FormatElement::Tag(EndAlign))
    }
}

pub fn block_indent<Context>(content: &impl Format<Context>) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::Block }
}
pub fn soft_block_indent<Context>(content: &impl Format<Context>) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::Soft }
}
pub fn soft_block_indent_with_maybe_space<Context>(content: &impl Format<Context>, should_add_space: bool) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: if should_add_space { IndentMode::SoftSpace } else { IndentMode::Soft } }
}
pub fn soft_space_or_block_indent<Context>(content: &impl Format<Context>) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::SoftSpace }
}
pub fn soft_line_indent_or_space<Context>(content: &impl Format<Context>) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::SoftLineOrSpace }
}
pub fn soft_line_indent_or_hard_space<Context>(content: &impl Format<Context>) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::HardSpace }
}
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
enum IndentMode {
    Soft,
    Block,
    SoftSpace,
    SoftLineOrSpace,
    HardSpace,
}
#[derive(Copy, Clone)]
pub struct BlockIndent<'a, Context> {
    content: Argument<'a, Context>,
    mode: IndentMode,
}
impl<Context> Format<Context> for BlockIndent<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let snapshot = f.snapshot();
        f.write_element(FormatElement::Tag(StartIndent))?;
        match self.mode {
            IndentMode::Soft => crate::write!(f, [soft_line_break()])?,
            IndentMode::Block => crate::write!(f, [hard_line_break()])?,
            IndentMode::SoftLineOrSpace | IndentMode::SoftSpace => crate::write!(f, [soft_line_break_or_space()])?,
            IndentMode::HardSpace => crate::write!(f, [hard_space(), soft_line_break()])?,
        }
        let is_empty = {
            let mut recording = f.start_recording();
            recording.write_fmt(Arguments::from(&self.content))?;
            recording.stop().is_empty()
        };
        if is_empty {
            f.restore_snapshot(snapshot);
            return Ok(());
        }
        f.write_element(FormatElement::Tag(EndIndent))?;
        match self.mode {
            IndentMode::Soft => crate::write!(f, [soft_line_break()]),
            IndentMode::Block => crate::write!(f, [hard_line_break()]),
            IndentMode::SoftSpace => crate::write!(f, [soft_line_break_or_space()]),
            IndentMode::SoftLineOrSpace | IndentMode::HardSpace => Ok(()),
        }
    }
}

pub fn group<Context>(content: &impl Format<Context>) -> Group<'_, Context> {
    Group { content: Argument::new(content), group_id: None, should_expand: false }
}
#[derive(Copy, Clone)]
pub struct Group<'a, Context> {
    content: Argument<'a, Context>,
    group_id: Option<GroupId>,
    should_expand: bool,
}
impl<Context> Group<'_, Context> {
    pub fn with_group_id(mut self, group_id: Option<GroupId>) -> Self {
        self.group_id = group_id;
        self
    }
    pub fn should_expand(mut self, should_expand: bool) -> Self {
        self.should_expand = should_expand;
        self
    }
}
impl<Context> Format<Context> for Group<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let mode = if self.should_expand { GroupMode::Expand } else { GroupMode::Flat };
        f.write_element(FormatElement::Tag(StartGroup(TagGroup::new().with_id(self.group_id).with_mode(mode))))?;
        Arguments::from(&self.content).fmt(f)?;
        f.write_element(FormatElement::Tag(EndGroup))
    }
}

pub const fn expand_parent() -> ExpandParent {
    ExpandParent
}
#[derive(Copy, Clone, Debug)]
pub struct ExpandParent;
impl<Context> Format<Context> for ExpandParent {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::ExpandParent)
    }
}

pub fn if_group_breaks<Content: Format<Context>, Context>(content: &Content) -> IfGroupBreaks<'_, Context> {
    IfGroupBreaks { content: Argument::new(content), group_id: None, mode: PrintMode::Expanded }
}
pub fn if_group_fits_on_line<Content: Format<Context>, Context>(content: &Content) -> IfGroupBreaks<'_, Context> {
    IfGroupBreaks { content: Argument::new(content), group_id: None, mode: PrintMode::Flat }
}
#[derive(Copy, Clone)]
pub struct IfGroupBreaks<'a, Context> {
    content: Argument<'a, Context>,
    group_id: Option<GroupId>,
    mode: PrintMode,
}
impl<Context> IfGroupBreaks<'_, Context> {
    pub fn with_group_id(mut self, group_id: Option<GroupId>) -> Self {
        self.group_id = group_id;
        self
    }
}
impl<Context> Format<Context> for IfGroupBreaks<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Tag(StartConditionalContent(Condition::new(self.mode).with_group_id(self.group_id))))?;
        Arguments::from(&self.content).fmt(f)?;
        f.write_element(FormatElement::Tag(EndConditionalContent))
    }
}
pub fn indent_if_group_breaks<Content: Format<Context>, Context>(content: &Content, group_id: GroupId) -> IndentIfGroupBreaks<'_, Context> {
    IndentIfGroupBreaks { group_id, content: Argument::new(content) }
}
#[derive(Copy, Clone)]
pub struct IndentIfGroupBreaks<'a, Context> {
    content: Argument<'a, Context>,
    group_id: GroupId,
}
impl<Context> Format<Context> for IndentIfGroupBreaks<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Tag(StartIndentIfGroupBreaks(self.group_id)))?;
        Arguments::from(&self.content).fmt(f)?;
        f.write_element(FormatElement::Tag(EndIndentIfGroupBreaks(self.group_id)))
    }
}

#[derive(Copy, Clone)]
pub struct FormatWith<Context, T> {
    formatter: T,
    context: PhantomData<Context>,
}
impl<Context, T: Fn(&mut Formatter<Context>) -> FormatResult<()>> Format<Context> for FormatWith<Context, T> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        (self.formatter)(f)
    }
}
pub const fn format_with<Context, T: Fn(&mut Formatter<Context>) -> FormatResult<()>>(formatter: T) -> FormatWith<Context, T> {
    FormatWith { formatter, context: PhantomData }
}
pub struct FormatOnce<T, Context> {
    formatter: Cell<Option<T>>,
    context: PhantomData<Context>,
}
impl<T: FnOnce(&mut Formatter<Context>) -> FormatResult<()>, Context> Format<Context> for FormatOnce<T, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        (self.formatter.take().expect("tried to format a `format_once` more than once"))(f)
    }
}
pub const fn format_once<T: FnOnce(&mut Formatter<Context>) -> FormatResult<()>, Context>(formatter: T) -> FormatOnce<T, Context> {
    FormatOnce { formatter: Cell::new(Some(formatter)), context: PhantomData }
}

pub trait MemoizeFormat<Context> {
    fn memoized(self) -> Memoized<Self, Context>
    where
        Self: Sized + Format<Context>,
    {
        Memoized::new(self)
    }
}
impl<T: Format<Context>, Context> MemoizeFormat<Context> for T {}
#[derive(Debug)]
pub struct Memoized<F, Context> {
    inner: F,
    memory: RefCell<Option<FormatResult<Option<FormatElement>>>>,
    context: PhantomData<Context>,
}
impl<F: Format<Context>, Context> Memoized<F, Context> {
    fn new(inner: F) -> Self {
        Self { inner, memory: RefCell::new(None), context: PhantomData }
    }
    pub fn inspect(&mut self, f: &mut Formatter<Context>) -> FormatResult<&[FormatElement]> {
        let result = self.memory.get_mut().get_or_insert_with(|| f.intern(&self.inner));
        match result.as_ref() {
            Ok(Some(FormatElement::Interned(interned))) => Ok(&**interned),
            Ok(Some(other)) => Ok(std::slice::from_ref(other)),
            Ok(None) => Ok(&[]),
            Err(error) => Err(*error),
        }
    }
}
impl<F: Format<Context>, Context> Format<Context> for Memoized<F, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let mut memory = self.memory.borrow_mut();
        let result = memory.get_or_insert_with(|| f.intern(&self.inner));
        match result {
            Ok(Some(element)) => f.write_element(element.clone()),
            Ok(None) => Ok(()),
            Err(error) => Err(*error),
        }
    }
}

#[must_use = "must eventually call `finish()` on Format builders"]
pub struct JoinBuilder<'fmt, 'buf, Separator, Context> {
    result: FormatResult<()>,
    fmt: &'fmt mut Formatter<'buf, Context>,
    with: Option<Separator>,
    has_elements: bool,
}
impl<'fmt, 'buf, Separator: Format<Context>, Context> JoinBuilder<'fmt, 'buf, Separator, Context> {
    pub(crate) fn new(fmt: &'fmt mut Formatter<'buf, Context>) -> Self {
        Self { result: Ok(()), fmt, has_elements: false, with: None }
    }
    pub(crate) fn with_separator(fmt: &'fmt mut Formatter<'buf, Context>, with: Separator) -> Self {
        Self { result: Ok(()), fmt, has_elements: false, with: Some(with) }
    }
    pub fn entry(&mut self, entry: &dyn Format<Context>) -> &mut Self {
        self.result = self.result.and_then(|_| {
            if let Some(with) = &self.with {
                if self.has_elements {
                    with.fmt(self.fmt)?;
                }
            }
            self.has_elements = true;
            entry.fmt(self.fmt)
        });
        self
    }
    pub fn entries<F: Format<Context>, I: IntoIterator<Item = F>>(&mut self, entries: I) -> &mut Self {
        for entry in entries {
            self.entry(&entry);
        }
        self
    }
    pub fn finish(&mut self) -> FormatResult<()> {
        self.result
    }
}

#[must_use = "must eventually call `finish()` on Format builders"]
pub struct JoinNodesBuilder<'fmt, 'buf, Separator, Context> {
    result: FormatResult<()>,
    separator: Separator,
    fmt: &'fmt mut Formatter<'buf, Context>,
    has_elements: bool,
}
impl<'fmt, 'buf, Separator: Format<Context>, Context> JoinNodesBuilder<'fmt, 'buf, Separator, Context> {
    pub(crate) fn new(separator: Separator, fmt: &'fmt mut Formatter<'buf, Context>) -> Self {
        Self { result: Ok(()), separator, fmt, has_elements: false }
    }
    pub fn entry<L: Language>(&mut self, node: &SyntaxNode<L>, content: &dyn Format<Context>) {
        self.result = self.result.and_then(|_| {
            if self.has_elements {
                if get_lines_before(node) > 1 {
                    crate::write!(self.fmt, [empty_line()])?;
                } else {
                    self.separator.fmt(self.fmt)?;
                }
            }
            self.has_elements = true;
            crate::write!(self.fmt, [content])
        });
    }
    pub fn entry_no_separator(&mut self, content: &dyn Format<Context>) {
        self.result = self.result.and_then(|_| {
            self.has_elements = true;
            crate::write!(self.fmt, [content])
        })
    }
    pub fn entries<L: Language, F: Format<Context>, I: IntoIterator<Item = (SyntaxNode<L>, F)>>(&mut self, entries: I) -> &mut Self {
        for (node, content) in entries {
            self.entry(&node, &content);
        }
        self
    }
    pub fn finish(&mut self) -> FormatResult<()> {
        self.result
    }
}

/// The newlines between a node and what comes before it (a comment, or a token).
pub fn get_lines_before<L: Language>(node: &SyntaxNode<L>) -> usize {
    node.first_token().map_or(0, |token| get_lines_before_token(&token))
}
pub fn get_lines_before_token<L: Language>(token: &SyntaxToken<L>) -> usize {
    token
        .leading_trivia()
        .pieces()
        .take_while(|piece| !(piece.is_comments() || piece.is_skipped()))
        .filter(|piece| piece.is_newline())
        .count()
}

#[must_use = "must eventually call `finish()` on Format builders"]
pub struct FillBuilder<'fmt, 'buf, Context> {
    result: FormatResult<()>,
    fmt: &'fmt mut Formatter<'buf, Context>,
    empty: bool,
}
impl<'a, 'buf, Context> FillBuilder<'a, 'buf, Context> {
    pub(crate) fn new(fmt: &'a mut Formatter<'buf, Context>) -> Self {
        let result = fmt.write_element(FormatElement::Tag(StartFill));
        Self { result, fmt, empty: true }
    }
    pub fn entry(&mut self, separator: &dyn Format<Context>, entry: &dyn Format<Context>) -> &mut Self {
        self.result = self.result.and_then(|_| {
            if self.empty {
                self.empty = false;
            } else {
                self.fmt.write_element(FormatElement::Tag(StartEntry))?;
                separator.fmt(self.fmt)?;
                self.fmt.write_element(FormatElement::Tag(EndEntry))?;
            }
            self.fmt.write_element(FormatElement::Tag(StartEntry))?;
            entry.fmt(self.fmt)?;
            self.fmt.write_element(FormatElement::Tag(EndEntry))
        });
        self
    }
    pub fn finish(&mut self) -> FormatResult<()> {
        self.result.and_then(|_| self.fmt.write_element(FormatElement::Tag(EndFill)))
    }
}

#[derive(Copy, Clone)]
pub struct BestFitting<'a, Context> {
    variants: Arguments<'a, Context>,
}
impl<'a, Context> BestFitting<'a, Context> {
    /// # Safety
    /// There must be at least two variants.
    pub unsafe fn from_arguments_unchecked(variants: Arguments<'a, Context>) -> Self {
        debug_assert!(variants.0.len() >= 2);
        Self { variants }
    }
}
impl<Context> Format<Context> for BestFitting<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let mut formatted = Vec::new();
        for variant in self.variants.items() {
            let mut buffer = VecBuffer::new(f.state_mut());
            buffer.write_element(FormatElement::Tag(StartEntry))?;
            buffer.write_fmt(Arguments::from(variant))?;
            buffer.write_element(FormatElement::Tag(EndEntry))?;
            formatted.push(buffer.into_vec().into_boxed_slice());
        }
        let element = unsafe { FormatElement::BestFitting(BestFittingElement::from_vec_unchecked(formatted)) };
        f.write_element(element)
    }
}
