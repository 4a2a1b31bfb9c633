//! Drives crates/comments, crates/fs and crates/settings.
mod directive;
mod paths;
mod values;
mod names;

fn main() {
    vfcommon::init(60);
    let args: Vec<String> = std::env::args().collect();
    let n = |i: usize| args[i].parse::<usize>().unwrap();
    match args[1].as_str() {
        "directive-replay" => directive::replay(&args[2]),
        "directive-near" => directive::near(args[2] == "all"),
        "directive-trace" => directive::trace(n(2)),
        "paths-replay" => paths::replay(&args[2]),
        "paths-trace" => paths::trace(n(2)),
        "values-trace" => values::trace(n(2)),
        "names-trace" => names::trace(n(2)),
        other => panic!("unknown mode {other}"),
    }
}
