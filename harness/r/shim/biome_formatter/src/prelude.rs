pub use crate::buffer::{Buffer, BufferExtensions};
pub use crate::builders::*;
pub use crate::comments::{format_dangling_comments, format_leading_comments, format_trailing_comments};
pub use crate::format_element::document::Document;
pub use crate::format_element::tag::{LabelId, Tag};
pub use crate::format_element::{FormatElement, FormatElements};
pub use crate::formatter::Formatter;
pub use crate::trivia::{format_only_if_breaks, format_removed, format_replaced, format_trailing_comments_of_token};
pub use crate::verbatim::{format_bogus_node, format_or_verbatim, format_suppressed_node, format_verbatim_node, format_verbatim_skipped};
pub use crate::{CstFormatContext, Format, FormatContext, FormatError, FormatOptions, FormatOwnedWithRule, FormatRefWithRule, FormatResult, FormatRule, FormatRuleWithOptions, FormatWithRule};
