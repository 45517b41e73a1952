mod big;
mod fw;
mod gen;
mod ops;
mod props;
mod rng;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let usage = || -> ! {
        eprintln!("usage: geos-monitors check|worker ID | case ID INDEX | list");
        std::process::exit(2)
    };
    if a.len() < 2 {
        usage();
    }
    let all = props::all();
    if a[1] == "list" {
        for p in &all {
            println!("{}", p.id);
        }
        return;
    }
    if a.len() < 3 {
        usage();
    }
    let p = match all.iter().find(|p| p.id == a[2]) {
        Some(p) => p,
        None => usage(),
    };
    let _ = std::fs::create_dir_all(format!("{}/out", root));
    let code = match a[1].as_str() {
        "check" => fw::supervise(p, &root),
        "worker" => fw::worker(p, &root),
        "case" => match a.get(3).and_then(|s| s.parse().ok()) {
            Some(i) => fw::single(p, i, &root, true),
            None => usage(),
        },
        "some" => {
            let n = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
            fw::some(p, n(3), n(4))
        }
        "note" => fw::note(p, &root, a.get(3).map_or("", |s| s), a.get(4).map_or("0", |s| s)),
        _ => usage(),
    };
    std::process::exit(code);
}
