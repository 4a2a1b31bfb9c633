//! Stand-in for the formatter, of the toy language. The first line of a formatted text tells the options it was
//! formatted with, the other lines are kept, and all lines end the way the options say.
#![allow(dead_code)]
#[path = "/repo/crates/air_r_formatter/src/context.rs"]
mod real_context;
pub mod context {
    pub use crate::real_context::RFormatOptions;
}
mod comments {
    #[derive(Clone, Debug)]
    pub struct RCommentStyle;
    #[derive(Clone, Debug)]
    pub struct FormatRLeadingComment;
    pub type RComments = biome_formatter::Comments<air_r_syntax::RLanguage>;
}

use biome_formatter::FormatOptions;
use biome_formatter::FormatResult;
use biome_formatter::PrintResult;
use biome_formatter::printer::PrinterOptions;
use context::RFormatOptions;

pub struct Formatted {
    header: String,
    lines: Vec<String>,
    print: PrinterOptions,
}
pub struct Printed(String);

/// Lists of names stand for sets.
fn set(names: String) -> String {
    let mut names: Vec<&str> = names.split(", ").collect();
    names.sort();
    names.dedup();
    names.join(", ")
}

pub fn format_node(options: RFormatOptions, root: &String) -> FormatResult<Formatted> {
    let header = serde_json::json!({
        "width": options.line_width().value(),
        "indent": options.indent_width().value(),
        "tab": options.indent_style() == biome_formatter::IndentStyle::Tab,
        "respect": options.persistent_line_breaks().is_respect(),
        "assign": options.assignment_style().to_string(),
        "skip": options.skip().map(|s| set(s.to_string())),
        "table": options.table().map(|s| set(s.to_string())),
    });
    let mut lines: Vec<String> = root.lines().map(str::to_string).collect();
    if lines.first().is_some_and(|l| l.starts_with("#: ")) {
        lines.remove(0);
    }
    Ok(Formatted { header: format!("#: {header}"), lines, print: options.as_print_options() })
}

impl Formatted {
    pub fn print(&self) -> PrintResult<Printed> {
        let end = match self.print.line_ending {
            biome_formatter::LineEnding::Crlf => "\r\n",
            _ => "\n",
        };
        let mut out = String::new();
        for line in std::iter::once(&self.header).chain(&self.lines) {
            out.push_str(line);
            out.push_str(end);
        }
        Ok(Printed(out))
    }
}
impl Printed {
    pub fn into_code(self) -> String {
        self.0
    }
    pub fn as_code(&self) -> &str {
        &self.0
    }
}
