//! A stand-in for the parts of the `biome_formatter` crate that air uses; the original is not
//! available offline. Its behaviour is validated against air's own formatter snapshots.
pub mod arguments;
pub mod buffer;
pub mod builders;
pub mod comments;
pub mod format_element;
pub mod formatter;
mod macros;
pub mod prelude;
pub mod printer;
pub mod separated;
pub mod token;
pub mod trivia;
pub mod verbatim;

pub use arguments::{Argument, Arguments};
pub use buffer::{Buffer, BufferExtensions, BufferSnapshot, Inspect, PreambleBuffer, Recorded, Recording, RemoveSoftLinesBuffer, VecBuffer};
pub use builders::BestFitting;
pub use format_element::document;
pub use format_element::{FormatElement, GroupId, LINE_TERMINATORS, normalize_newlines};
pub use formatter::{Formatter, FormatterSnapshot};
pub use token::FormatToken;

use biome_rowan::{Language, SyntaxElement, SyntaxError, SyntaxNode, SyntaxResult, SyntaxToken, SyntaxTriviaPiece};
use biome_text_size::{TextRange, TextSize};
use format_element::document::Document;
use printer::{Printer, PrinterOptions};
use std::fmt;
use std::marker::PhantomData;

#[derive(Debug, Default, Eq, PartialEq, Hash, Clone, Copy)]
pub enum IndentStyle {
    #[default]
    Tab,
    Space,
}
impl IndentStyle {
    pub const fn is_tab(&self) -> bool {
        matches!(self, IndentStyle::Tab)
    }
    pub const fn is_space(&self) -> bool {
        matches!(self, IndentStyle::Space)
    }
}
impl fmt::Display for IndentStyle {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            IndentStyle::Tab => "Tab",
            IndentStyle::Space => "Space",
        })
    }
}

#[derive(Debug, Default, Eq, PartialEq, Hash, Clone, Copy)]
pub enum LineEnding {
    #[default]
    Lf,
    Crlf,
    Cr,
}
impl LineEnding {
    pub const fn as_str(&self) -> &'static str {
        match self {
            LineEnding::Lf => "\n",
            LineEnding::Crlf => "\r\n",
            LineEnding::Cr => "\r",
        }
    }
}
impl fmt::Display for LineEnding {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            LineEnding::Lf => "LF",
            LineEnding::Crlf => "CRLF",
            LineEnding::Cr => "CR",
        })
    }
}

macro_rules! bounded {
    ($name:ident, $error:ident, $number:ty, $min:expr, $max:expr, $default:expr) => {
        #[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
        pub struct $name($number);
        impl $name {
            pub const MIN: $number = $min;
            pub const MAX: $number = $max;
            pub fn value(&self) -> $number {
                self.0
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self($default)
            }
        }
        #[derive(Clone, Copy, Debug)]
        pub struct $error(pub $number);
        impl fmt::Display for $error {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                std::write!(f, "{} is out of range", self.0)
            }
        }
        impl std::error::Error for $error {}
        impl TryFrom<$number> for $name {
            type Error = $error;
            fn try_from(value: $number) -> Result<Self, Self::Error> {
                if (Self::MIN..=Self::MAX).contains(&value) { Ok(Self(value)) } else { Err($error(value)) }
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                std::write!(f, "{}", self.0)
            }
        }
    };
}
bounded!(IndentWidth, IndentWidthFromIntError, u8, 0, 24, 2);
bounded!(LineWidth, LineWidthFromIntError, u16, 1, 320, 80);

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
pub struct SourceMarker {
    pub source: TextSize,
    pub dest: TextSize,
}
#[derive(Debug, Clone, Default)]
pub struct TransformSourceMap;

pub trait FormatContext {
    type Options: FormatOptions;
    fn options(&self) -> &Self::Options;
    fn source_map(&self) -> Option<&TransformSourceMap>;
}
pub trait FormatOptions {
    fn indent_style(&self) -> IndentStyle;
    fn indent_width(&self) -> IndentWidth;
    fn line_width(&self) -> LineWidth;
    fn line_ending(&self) -> LineEnding;
    fn as_print_options(&self) -> PrinterOptions;
}
pub trait CstFormatContext: FormatContext {
    type Language: Language;
    type Style: comments::CommentStyle<Language = Self::Language>;
    type CommentRule: FormatRule<comments::SourceComment<Self::Language>, Context = Self> + Default;
    fn comments(&self) -> &comments::Comments<Self::Language>;
}

#[derive(Debug, Clone, Default)]
pub struct SimpleFormatOptions {
    pub indent_style: IndentStyle,
    pub indent_width: IndentWidth,
    pub line_width: LineWidth,
    pub line_ending: LineEnding,
}
impl FormatOptions for SimpleFormatOptions {
    fn indent_style(&self) -> IndentStyle {
        self.indent_style
    }
    fn indent_width(&self) -> IndentWidth {
        self.indent_width
    }
    fn line_width(&self) -> LineWidth {
        self.line_width
    }
    fn line_ending(&self) -> LineEnding {
        self.line_ending
    }
    fn as_print_options(&self) -> PrinterOptions {
        PrinterOptions::from(self)
    }
}
#[derive(Debug, Default, Clone)]
pub struct SimpleFormatContext {
    options: SimpleFormatOptions,
}
impl SimpleFormatContext {
    pub fn new(options: SimpleFormatOptions) -> Self {
        Self { options }
    }
}
impl FormatContext for SimpleFormatContext {
    type Options = SimpleFormatOptions;
    fn options(&self) -> &Self::Options {
        &self.options
    }
    fn source_map(&self) -> Option<&TransformSourceMap> {
        None
    }
}

pub type FormatResult<F> = Result<F, FormatError>;
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub enum FormatError {
    SyntaxError,
    RangeError { input: TextRange, tree: TextRange },
    InvalidDocument(InvalidDocumentError),
    PoorLayout,
}
impl fmt::Display for FormatError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            FormatError::SyntaxError => f.write_str("syntax error"),
            FormatError::RangeError { .. } => f.write_str("formatting range is larger than syntax tree"),
            FormatError::InvalidDocument(error) => std::write!(f, "Invalid document: {error}"),
            FormatError::PoorLayout => f.write_str("Poor layout: The formatter wasn't able to pick a good layout for your document."),
        }
    }
}
impl std::error::Error for FormatError {}
impl From<SyntaxError> for FormatError {
    fn from(_: SyntaxError) -> Self {
        FormatError::SyntaxError
    }
}
impl From<&SyntaxError> for FormatError {
    fn from(_: &SyntaxError) -> Self {
        FormatError::SyntaxError
    }
}
impl From<PrintError> for FormatError {
    fn from(error: PrintError) -> Self {
        match error {
            PrintError::InvalidDocument(error) => FormatError::InvalidDocument(error),
        }
    }
}
#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum InvalidDocumentError {
    Mismatch,
}
impl fmt::Display for InvalidDocumentError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("start and end tags do not match")
    }
}
pub type PrintResult<T> = Result<T, PrintError>;
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum PrintError {
    InvalidDocument(InvalidDocumentError),
}
impl fmt::Display for PrintError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            PrintError::InvalidDocument(error) => std::write!(f, "Invalid document: {error}"),
        }
    }
}
impl std::error::Error for PrintError {}

#[derive(Debug, Clone)]
pub struct Formatted<Context> {
    document: Document,
    context: Context,
}
impl<Context> Formatted<Context> {
    pub fn new(document: Document, context: Context) -> Self {
        Self { document, context }
    }
    pub fn context(&self) -> &Context {
        &self.context
    }
    pub fn document(&self) -> &Document {
        &self.document
    }
    pub fn into_document(self) -> Document {
        self.document
    }
}
impl<Context: FormatContext> Formatted<Context> {
    pub fn print(&self) -> PrintResult<Printed> {
        Printer::new(self.context.options().as_print_options()).print(&self.document)
    }
    pub fn print_with_indent(&self, indent: u16) -> PrintResult<Printed> {
        Printer::new(self.context.options().as_print_options()).print_with_indent(&self.document, indent)
    }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Printed {
    code: String,
    range: Option<TextRange>,
    sourcemap: Vec<SourceMarker>,
    verbatim_ranges: Vec<TextRange>,
}
impl Printed {
    pub fn new(code: String, range: Option<TextRange>, sourcemap: Vec<SourceMarker>, verbatim_ranges: Vec<TextRange>) -> Self {
        Self { code, range, sourcemap, verbatim_ranges }
    }
    pub fn new_empty() -> Self {
        Self::new(String::new(), None, Vec::new(), Vec::new())
    }
    pub fn as_code(&self) -> &str {
        &self.code
    }
    pub fn into_code(self) -> String {
        self.code
    }
    pub fn range(&self) -> Option<TextRange> {
        self.range
    }
    pub fn sourcemap(&self) -> &[SourceMarker] {
        &self.sourcemap
    }
    pub fn into_sourcemap(self) -> Vec<SourceMarker> {
        self.sourcemap
    }
    pub fn verbatim(&self) -> impl Iterator<Item = (TextRange, &str)> {
        self.verbatim_ranges.iter().map(|range| (*range, &self.code[usize::from(range.start())..usize::from(range.end())]))
    }
    pub fn verbatim_ranges(&self) -> &[TextRange] {
        &self.verbatim_ranges
    }
    pub fn take_verbatim_ranges(&mut self) -> Vec<TextRange> {
        std::mem::take(&mut self.verbatim_ranges)
    }
}

pub trait Format<Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()>;
}
impl<T: ?Sized + Format<Context>, Context> Format<Context> for &T {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        Format::fmt(&**self, f)
    }
}
impl<T: ?Sized + Format<Context>, Context> Format<Context> for &mut T {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        Format::fmt(&**self, f)
    }
}
impl<T: Format<Context>, Context> Format<Context> for Option<T> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        match self {
            Some(value) => value.fmt(f),
            None => Ok(()),
        }
    }
}
impl<T: Format<Context>, Context> Format<Context> for SyntaxResult<T> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        match self {
            Ok(value) => value.fmt(f),
            Err(error) => Err(error.into()),
        }
    }
}
impl<Context> Format<Context> for () {
    fn fmt(&self, _: &mut Formatter<Context>) -> FormatResult<()> {
        Ok(())
    }
}

pub trait FormatRule<T> {
    type Context;
    fn fmt(&self, item: &T, f: &mut Formatter<Self::Context>) -> FormatResult<()>;
}
pub trait FormatRuleWithOptions<T>: FormatRule<T> {
    type Options;
    fn with_options(self, options: Self::Options) -> Self;
}
pub trait FormatWithRule<Context>: Format<Context> {
    type Item;
    fn item(&self) -> &Self::Item;
}

#[derive(Copy, Clone, Debug)]
pub struct FormatRefWithRule<'a, T, R: FormatRule<T>> {
    item: &'a T,
    rule: R,
}
impl<'a, T, R: FormatRule<T>> FormatRefWithRule<'a, T, R> {
    pub fn new(item: &'a T, rule: R) -> Self {
        Self { item, rule }
    }
    pub fn rule(&self) -> &R {
        &self.rule
    }
}
impl<T, R, O> FormatRefWithRule<'_, T, R>
where
    R: FormatRuleWithOptions<T, Options = O>,
{
    pub fn with_options(mut self, options: O) -> Self {
        self.rule = self.rule.with_options(options);
        self
    }
}
impl<T, R: FormatRule<T>> FormatWithRule<R::Context> for FormatRefWithRule<'_, T, R> {
    type Item = T;
    fn item(&self) -> &T {
        self.item
    }
}
impl<T, R: FormatRule<T>> Format<R::Context> for FormatRefWithRule<'_, T, R> {
    fn fmt(&self, f: &mut Formatter<R::Context>) -> FormatResult<()> {
        self.rule.fmt(self.item, f)
    }
}

#[derive(Clone, Debug)]
pub struct FormatOwnedWithRule<T, R: FormatRule<T>> {
    item: T,
    rule: R,
}
impl<T, R: FormatRule<T>> FormatOwnedWithRule<T, R> {
    pub fn new(item: T, rule: R) -> Self {
        Self { item, rule }
    }
    pub fn with_item(mut self, item: T) -> Self {
        self.item = item;
        self
    }
    pub fn into_item(self) -> T {
        self.item
    }
}
impl<T, R, O> FormatOwnedWithRule<T, R>
where
    R: FormatRuleWithOptions<T, Options = O>,
{
    pub fn with_options(mut self, options: O) -> Self {
        self.rule = self.rule.with_options(options);
        self
    }
}
impl<T, R: FormatRule<T>> FormatWithRule<R::Context> for FormatOwnedWithRule<T, R> {
    type Item = T;
    fn item(&self) -> &T {
        &self.item
    }
}
impl<T, R: FormatRule<T>> Format<R::Context> for FormatOwnedWithRule<T, R> {
    fn fmt(&self, f: &mut Formatter<R::Context>) -> FormatResult<()> {
        self.rule.fmt(&self.item, f)
    }
}

pub fn write<Context>(output: &mut dyn Buffer<Context = Context>, args: Arguments<Context>) -> FormatResult<()> {
    let mut f = Formatter::new(output);
    f.write_fmt(args)
}
pub fn format<Context: FormatContext>(context: Context, arguments: Arguments<Context>) -> FormatResult<Formatted<Context>> {
    let mut state = FormatState::new(context);
    let mut buffer = VecBuffer::with_capacity(arguments.items().len(), &mut state);
    buffer.write_fmt(arguments)?;
    let mut document = Document::from(buffer.into_vec());
    document.propagate_expand();
    Ok(Formatted::new(document, state.into_context()))
}

pub trait FormatLanguage {
    type SyntaxLanguage: Language;
    type Context: CstFormatContext<Language = Self::SyntaxLanguage>;
    type FormatRule: FormatRule<SyntaxNode<Self::SyntaxLanguage>, Context = Self::Context> + Default;
    fn transform(&self, _root: &SyntaxNode<Self::SyntaxLanguage>) -> Option<(SyntaxNode<Self::SyntaxLanguage>, TransformSourceMap)> {
        None
    }
    fn is_range_formatting_node(&self, _node: &SyntaxNode<Self::SyntaxLanguage>) -> bool {
        true
    }
    fn options(&self) -> &<Self::Context as FormatContext>::Options;
    fn create_context(self, root: &SyntaxNode<Self::SyntaxLanguage>, source_map: Option<TransformSourceMap>) -> Self::Context;
}

pub fn format_node<L: FormatLanguage>(root: &SyntaxNode<L::SyntaxLanguage>, language: L) -> FormatResult<Formatted<L::Context>> {
    let (root, source_map) = match language.transform(root) {
        Some((root, source_map)) => (root, Some(source_map)),
        None => (root.clone(), None),
    };
    let context = language.create_context(&root, source_map);
    let format_node = FormatRefWithRule::new(&root, L::FormatRule::default());
    let mut state = FormatState::new(context);
    let mut buffer = VecBuffer::new(&mut state);
    crate::write!(buffer, [format_node])?;
    let mut document = Document::from(buffer.into_vec());
    document.propagate_expand();
    Ok(Formatted::new(document, state.into_context()))
}

/// Formats one node as if it stood where it does, keeping the indentation of its first line.
pub fn format_sub_tree<L: FormatLanguage>(root: &SyntaxNode<L::SyntaxLanguage>, language: L) -> FormatResult<Printed> {
    let mut initial_indent: Option<u16> = None;
    let mut whitespace: Option<TextSize> = None;
    let options = language.options();
    let (style, width) = (options.indent_style(), options.indent_width());
    if let Some(first) = root.first_token() {
        let mut token = Some(first.clone());
        'outer: while let Some(current) = token {
            let is_first = current == first;
            let mut pieces: Vec<SyntaxTriviaPiece<_>> = Vec::new();
            pieces.extend(current.leading_trivia().pieces());
            if !is_first {
                pieces.extend(current.trailing_trivia().pieces());
            }
            for piece in pieces.into_iter().rev() {
                if piece.is_newline() {
                    break 'outer;
                } else if piece.is_whitespace() {
                    whitespace = Some(piece.text_len());
                }
            }
            token = current.prev_token();
        }
        if let Some(length) = whitespace {
            let length = u32::from(length) as u16;
            initial_indent = Some(match style {
                IndentStyle::Tab => length,
                IndentStyle::Space => length.checked_div(u16::from(width.value())).unwrap_or(0),
            });
        }
    }
    let formatted = format_node(root, language)?;
    let mut printed = formatted.print_with_indent(initial_indent.unwrap_or(0))?;
    let sourcemap = std::mem::take(&mut printed.sourcemap);
    let verbatim = printed.take_verbatim_ranges();
    Ok(Printed::new(printed.into_code(), Some(root.text_range()), sourcemap, verbatim))
}

/// Range formatting as biome does it is not used by air.
pub fn format_range<L: FormatLanguage>(root: &SyntaxNode<L::SyntaxLanguage>, range: TextRange, language: L) -> FormatResult<Printed> {
    let tree = root.text_range_with_trivia();
    if !tree.contains_range(range) {
        return Err(FormatError::RangeError { input: range, tree });
    }
    let covering = match root.covering_element(range) {
        SyntaxElement::Node(node) => node,
        SyntaxElement::Token(token) => token.parent().expect("a token has a parent"),
    };
    format_sub_tree(&covering, language)
}

#[derive(Default, Debug)]
pub struct FormatState<Context> {
    context: Context,
    next_group: std::cell::Cell<u32>,
    tracking_disabled: bool,
}
impl<Context> FormatState<Context> {
    pub fn new(context: Context) -> Self {
        Self { context, next_group: std::cell::Cell::new(0), tracking_disabled: false }
    }
    pub fn into_context(self) -> Context {
        self.context
    }
    pub fn context(&self) -> &Context {
        &self.context
    }
    pub fn context_mut(&mut self) -> &mut Context {
        &mut self.context
    }
    pub fn group_id(&self, _debug_name: &'static str) -> GroupId {
        let id = self.next_group.get() + 1;
        self.next_group.set(id);
        GroupId(id)
    }
    pub fn track_token<L: Language>(&mut self, _token: &SyntaxToken<L>) {}
    pub fn set_token_tracking_disabled(&mut self, disabled: bool) {
        self.tracking_disabled = disabled;
    }
    pub fn is_token_tracking_disabled(&self) -> bool {
        self.tracking_disabled
    }
    pub fn assert_formatted_all_tokens<L: Language>(&self, _root: &SyntaxNode<L>) {}
    pub fn snapshot(&self) -> FormatStateSnapshot {
        FormatStateSnapshot
    }
    pub fn restore_snapshot(&mut self, _snapshot: FormatStateSnapshot) {}
}
pub struct FormatStateSnapshot;

#[allow(dead_code)]
type Unused<T> = PhantomData<T>;
