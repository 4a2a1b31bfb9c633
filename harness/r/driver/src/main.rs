mod g;
mod generate;
mod options;
mod trees;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "tree" => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let p = air_r_parser::parse(&text, air_r_parser::RParserOptions::default());
            println!("## AST\n\n```\n{:#?}\n```\n\n## CST\n\n```\n{:#?}\n```\n", p.tree(), p.syntax());
        }
        "format" => {
            for line in std::io::stdin().lines() {
                let case: options::Case = serde_json::from_str(&line.unwrap()).unwrap();
                println!("{}", options::run(&case.text, &case.toml));
            }
        }
        "replay" => g::replay(&args[2]),
        "given" => g::given(&args[2]),
        // gen KIND N SHARD
        "gen" => g::programs(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap()),
        other => panic!("unknown mode {other}"),
    }
}
