//! Drives the parts of /repo/crates/workspace that need no git dependency.
#![allow(dead_code, unused_imports)]

#[path = "/repo/crates/workspace/src/file_patterns.rs"]
pub mod file_patterns;
#[path = "/repo/crates/workspace/src/resolve.rs"]
pub mod resolve;
pub mod settings {
    #[path = "/repo/crates/workspace/src/settings/default_exclude_patterns.rs"]
    mod default_exclude_patterns;
    #[path = "/repo/crates/workspace/src/settings/default_include_patterns.rs"]
    mod default_include_patterns;
    #[path = "/repo/crates/workspace/src/settings/default_table.rs"]
    mod default_table;
    #[path = "/repo/crates/workspace/src/settings/exclude_patterns.rs"]
    mod exclude_patterns;
    #[path = "/repo/crates/workspace/src/settings/line_ending.rs"]
    mod line_ending;
    pub use default_exclude_patterns::DefaultExcludePatterns;
    pub use default_include_patterns::DefaultIncludePatterns;
    pub use default_table::*;
    pub use exclude_patterns::ExcludePatterns;
    pub(crate) use line_ending::LineEnding;
}

mod drive_line_ending;
mod drive_patterns;
mod drive_resolver;

fn main() {
    vfcommon::init(60);
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "resolver-replay" => drive_resolver::replay(&args[2]),
        "resolver-trace" => drive_resolver::trace(args[2].parse().unwrap()),
        "line-ending-replay" => drive_line_ending::replay(&args[2]),
        "line-ending-trace" => drive_line_ending::trace(args[2].parse().unwrap()),
        "line-ending-options" => drive_line_ending::options(),
        "table-builtin" => drive_line_ending::builtin(),
        "patterns-replay" => drive_patterns::replay(&args[2]),
        "patterns-trace" => drive_patterns::trace(args[2].parse().unwrap()),
        "patterns-near" => drive_patterns::near(args[2] == "all"),
        "patterns-builtin" => drive_patterns::builtin(args[2].parse().unwrap()),
        other => panic!("unknown mode {other}"),
    }
}
