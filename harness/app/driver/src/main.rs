//! Drives the real `air` command (over the toy language) in directories of its own, and records what it did.
mod scene;
mod toml;

fn main() {
    vfcommon::init(120);
    std::panic::set_hook(Box::new(|p| eprintln!("{p}")));
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "runs" => scene::runs(&args[2], &args[3], args[4].parse().unwrap(), args[5].parse().unwrap()),
        "toml" => toml::run(&args[2], args[3].parse().unwrap()),
        x => panic!("{x}"),
    }
}
