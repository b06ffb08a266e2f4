use ptcheck::engine;
use ptcheck::props;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ps = props();
    let find = |id: &str| -> &'static engine::Prop {
        match ps.iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            }
        }
    };
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let tier = |i: usize| a.get(i).map_or(false, |x| x == "thorough");
    let code = match cmd {
        "list" => {
            for p in &ps {
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(","));
            }
            0
        }
        "run" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
            let th = match a.get(3) {
                Some(x) => x == "thorough",
                None => std::env::var("VERIF_TIER").map_or(false, |v| v == "thorough"),
            };
            engine::run_property(find(&a[2]), seed, th, a.get(4).map(|s| s.as_str()))
        }
        "worker" => {
            engine::worker(find(&a[2]), num(3), num(4), tier(5), a.get(6).map(|s| s.as_str()));
            0
        }
        "one" => {
            engine::one(find(&a[2]), num(3) as usize, num(4), num(5), tier(6));
            0
        }
        "shrink" => {
            engine::shrink_main(find(&a[2]), num(3) as usize, num(4), num(5), tier(6));
            0
        }
        "replay" => engine::replay_main(&ps, &a[2]),
        _ => {
            eprintln!("usage: ptcheck list | run ID [quick|thorough [SUB]] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
