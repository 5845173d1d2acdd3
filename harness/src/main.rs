#[macro_use]
mod engine;
mod cov;
mod models;
mod pdfp;
mod props;
mod watch;

use engine::*;

fn main() -> std::process::ExitCode {
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {}", id));
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match a(1) {
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        "check" => {
            let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut part = None;
            let mut replay = None;
            let mut scale = 1.0;
            let mut i = 3;
            while i < args.len() {
                match args[i].as_str() {
                    "--tier" => tier = args[i + 1].clone(),
                    "--seed" => seed = args[i + 1].parse().unwrap(),
                    "--part" => part = Some(args[i + 1].clone()),
                    "--replay" => replay = Some(args[i + 1].clone()),
                    "--scale" => scale = args[i + 1].parse().unwrap(),
                    x => panic!("bad argument {}", x),
                }
                i += 2;
            }
            match replay {
                Some(p) => run_replay(&props, &p),
                None => run_check(find(a(2)), &tier, seed, part.as_deref(), scale),
            }
        }
        "worker" => big_stack(|| {
            let props = props::all();
            let p = props.iter().find(|p| p.id == a(2)).unwrap();
            let part = p.parts.iter().find(|x| x.name == a(3)).unwrap();
            let n = |i: usize| a(i).parse::<u64>().unwrap();
            let known = known_findings(p.id).into_iter().map(|k| k.0).collect();
            worker(p, part, &WorkerArgs { seed: n(4), worker: n(5), nworkers: n(6), cases: n(7) }, &known);
            0
        }),
        "one" | "onemut" | "shrink" => big_stack(|| {
            let props = props::all();
            let p = props.iter().find(|p| p.id == a(2)).unwrap();
            let part = p.parts.iter().find(|x| x.name == a(3)).unwrap();
            let text = std::fs::read_to_string(a(4)).unwrap();
            let c: Vec<u64> = text.split(',').filter_map(|x| x.trim().parse().ok()).collect();
            match a(1) {
                "one" => one(part, c),
                "onemut" => one_mutated(part, c),
                _ => shrink(part, c, a(5)),
            }
            0
        }),
        "several" => big_stack(|| {
            let props = props::all();
            let p = props.iter().find(|p| p.id == a(2)).unwrap();
            let part = p.parts.iter().find(|x| x.name == a(3)).unwrap();
            let text = std::fs::read_to_string(a(4)).unwrap();
            let cases = text.lines().map(|l| l.split(',').filter_map(|x| x.trim().parse().ok()).collect()).collect();
            several(part, cases);
            0
        }),
        "index" => big_stack(|| {
            let props = props::all();
            let p = props.iter().find(|p| p.id == a(2)).unwrap();
            let part = p.parts.iter().find(|x| x.name == a(3)).unwrap();
            one_index(p, part, a(4).parse().unwrap(), a(5).parse().unwrap());
            0
        }),
        "bytes" => big_stack(|| props::schedule::bytes_command(a(2))),
        "html" | "xml" => big_stack(|| {
            let b = std::fs::read(a(2)).unwrap();
            let doc = if a(1) == "html" {
                victor::dom::Document::parse_html(&b)
            } else {
                match victor::dom::Document::parse_xml(&b) {
                    Ok(d) => d,
                    Err(e) => {
                        println!("error: {}", e);
                        return 1;
                    }
                }
            };
            let bytes = doc.to_pdf_bytes();
            let pdf = pdfp::parse(&bytes).unwrap();
            for p in pdf.pages().unwrap() {
                println!("page {}x{}", p.width, p.height);
                for i in &p.items {
                    println!("  {}", props::common::show_item(i));
                }
            }
            0
        }),
        _ => {
            eprintln!("usage: vh list | check <ID> [--tier T] [--seed N] [--part P] [--replay F]");
            2
        }
    };
    std::process::exit(code)
}

fn big_stack(f: impl FnOnce() -> i32 + Send) -> i32 {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, f).unwrap().join().unwrap_or(101)
    })
}
