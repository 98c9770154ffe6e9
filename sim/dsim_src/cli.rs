//! The commands, for every simulator.
use crate::{batch, choices, exec, run, seams, shrink};

pub fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

pub fn main() {
    exec::install_panic_hook();
    seams::install();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("one") => {
            let seed = a[3].parse().expect("seed");
            let v = a.get(4).is_some();
            let o = shrink::in_thread(choices::Choices::from_seed(seed), seed, &a[2]);
            show(&o, v);
            0
        }
        Some("scan") => {
            let (lo, hi): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            for s in lo..hi {
                let o = shrink::in_thread(choices::Choices::from_seed(s), s, &a[2]);
                for x in &o.viols {
                    println!("seed {} {:?} {}", s, x.props, x.msg);
                }
            }
            0
        }
        Some("digest") => {
            for s in &a[3..] {
                let seed = s.parse().expect("seed");
                let o = shrink::in_thread(choices::Choices::from_seed(seed), seed, &a[2]);
                println!("{} {:016x}", seed, o.digest());
            }
            0
        }
        Some("worker") => batch::worker(&a),
        Some("check") => batch::check(&a),
        Some("shrink") => shrink::shrink_cmd(&a),
        Some("replay") => shrink::replay_cmd(&a),
        _ => {
            eprintln!("dsim check|replay|one|scan|digest");
            2
        }
    };
    std::process::exit(code);
}

fn show(o: &run::RunOut, v: bool) {
    if v {
        for t in &o.trace {
            println!("{}", t);
        }
        println!("{:#?}", o.stats);
        println!("{} choices {} polls {} us, digest {:016x}", o.choices.len(), o.polls, o.time, o.digest());
    }
    for x in &o.viols {
        println!("{:?} {}", x.props, x.msg);
    }
}
