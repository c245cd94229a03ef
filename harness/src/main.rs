mod big;
mod chain;
mod engine;
mod model;
mod props;
mod refm;
mod src;
mod world;

fn main() {
    chain::install();
    let a: Vec<String> = std::env::args().collect();
    let all = props::all();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = &a[2];
            let tier = a.get(3).map(|s| s.as_str()).unwrap_or("quick");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            match all.iter().find(|p| p.id == id) {
                Some(p) => engine::run(p, tier, seed),
                None => { eprintln!("no property {id}"); 2 }
            }
        }
        Some("replay") => engine::replay(&all, &a[2]),
        Some("dictionary") => { println!("{:?}", src::dictionary()); 0 }
        Some("list") => { for p in &all { for s in &p.subs { println!("{} {} {} {}", p.id, s.name, s.quick, s.thorough); } } 0 }
        _ => { eprintln!("usage: tbc-pbt check <id> [quick|thorough] | replay <file> | list"); 2 }
    };
    std::process::exit(code);
}
