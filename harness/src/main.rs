mod checks;
mod dict;
mod dy;
mod fw;
mod gen;
mod model;
mod refp;
mod rng;
mod soup;

#[global_allocator]
static ALLOC: fw::Counting = fw::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match (arg(1), checks::find(arg(2))) {
        ("run", Some(c)) => fw::run(c),
        ("worker", Some(c)) => fw::worker(c, arg(3)),
        ("single", Some(c)) => fw::single(c, u64::from_str_radix(arg(3), 16).unwrap_or(0), arg(4)),
        ("probe", Some(c)) => fw::probe(c, arg(3), arg(4)),
        ("replay", _) => fw::replay(arg(2), checks::find),
        ("literals", _) => {
            dict::print();
            0
        }
        ("list", _) => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mon run|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
