mod cov;
mod expr;
mod gen;
mod mem;
mod model;
mod nat;
mod props;
mod run;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => run::check(&args[1..]),
        Some("work") => run::work(&args[1..]),
        Some("one") => run::one(&args[1..]),
        Some("solo") => run::solo(&args[1..]),
        Some("replay") => run::replay(&args[1..]),
        _ => {
            eprintln!("usage: clarith-verif check|work|one|solo|replay ...");
            2
        }
    };
    std::process::exit(code);
}
