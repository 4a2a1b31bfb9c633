mod docs;
mod edits;
mod logs;
mod range;
mod server;

fn main() {
    vfcommon::init(60);
    let args: Vec<String> = std::env::args().collect();
    let n = |k: usize| args[k].parse::<usize>().unwrap();
    match args[1].as_str() {
        "docs-replay" => docs::replay(&args[2]),
        "docs" => docs::trace(n(2), n(3)),
        "edits-replay" => edits::replay(&args[2]),
        "logs" => logs::trace(n(2), n(3)),
        "logs-replay" => logs::replay(&args[2]),
        "algebra" => edits::algebra(n(2), n(3)),
        "protocol" => edits::protocol(n(2), n(3)),
        "tables" => vfcommon::emit(&vfcommon::json!({"tomls": server::tomls(), "uris": server::uris()})),
        "server" => server::trace(&args[2], n(3), n(4)),
        "server-replay" => server::replay(&args[2]),
        other => panic!("unknown mode {other}"),
    }
}
