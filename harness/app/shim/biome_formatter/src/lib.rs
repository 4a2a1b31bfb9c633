//! Stand-in: the types that /repo's settings and error types mention.
use thiserror::Error;

#[derive(Copy, Clone, Debug, Default, Eq, PartialEq)]
pub enum IndentStyle { #[default] Tab, Space }
#[derive(Copy, Clone, Debug, Default, Eq, PartialEq)]
pub enum LineEnding { #[default] Lf, Crlf, Cr }
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct IndentWidth(u8);
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct LineWidth(u16);

impl IndentWidth { pub fn value(&self) -> u8 { self.0 } }
impl LineWidth { pub fn value(&self) -> u16 { self.0 } }
impl TryFrom<u8> for IndentWidth {
    type Error = u8;
    fn try_from(v: u8) -> Result<Self, u8> { if (1..=24).contains(&v) { Ok(Self(v)) } else { Err(v) } }
}
impl TryFrom<u16> for LineWidth {
    type Error = u16;
    fn try_from(v: u16) -> Result<Self, u16> { if (1..=320).contains(&v) { Ok(Self(v)) } else { Err(v) } }
}

#[derive(Debug, Error, Clone, Copy, PartialEq, Eq)]
pub enum FormatError {
    #[error("syntax error")]
    SyntaxError,
}
#[derive(Debug, Error, Clone, Copy, PartialEq, Eq)]
pub enum PrintError {
    #[error("invalid document")]
    InvalidDocument,
}
pub type FormatResult<T> = Result<T, FormatError>;
pub type PrintResult<T> = Result<T, PrintError>;

// What the real `RFormatContext` and `RFormatOptions` are written against.
#[derive(Clone, Debug)]
pub struct TransformSourceMap;
pub trait FormatOptions {
    fn indent_style(&self) -> IndentStyle;
    fn indent_width(&self) -> IndentWidth;
    fn line_width(&self) -> LineWidth;
    fn line_ending(&self) -> LineEnding;
    fn as_print_options(&self) -> printer::PrinterOptions;
}
pub trait FormatContext {
    type Options: FormatOptions;
    fn options(&self) -> &Self::Options;
    fn source_map(&self) -> Option<&TransformSourceMap>;
}
pub trait CstFormatContext: FormatContext {
    type Language;
    type Style;
    type CommentRule;
    fn comments(&self) -> &Comments<Self::Language>;
}
#[derive(Clone, Debug)]
pub struct Comments<L>(std::marker::PhantomData<L>);
pub mod printer {
    #[derive(Clone, Debug)]
    pub struct PrinterOptions {
        pub indent_style: crate::IndentStyle,
        pub indent_width: crate::IndentWidth,
        pub line_width: crate::LineWidth,
        pub line_ending: crate::LineEnding,
    }
    impl<'a, O: crate::FormatOptions> From<&'a O> for PrinterOptions {
        fn from(o: &'a O) -> Self {
            Self {
                indent_style: o.indent_style(),
                indent_width: o.indent_width(),
                line_width: o.line_width(),
                line_ending: o.line_ending(),
            }
        }
    }
}
