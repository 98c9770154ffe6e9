//! Search: many seeds in several processes, until the time is used or a violation is found.
use crate::choices::Choices;
use crate::seams;
use crate::shrink;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::Mutex;

fn arg(a: &[String], k: &str) -> String {
    crate::cli::arg(a, k).unwrap_or_else(|| panic!("{} is missing", k))
}

/// A finding recorded in the known-findings file.
#[derive(Clone)]
struct Known {
    property: String,
    class: String,
    contains: String,
    title: String,
}

fn known(path: Option<String>) -> Vec<Known> {
    let text = path.and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines().filter(|l| l.starts_with('{')) {
        let v: Value = serde_json::from_str(l).expect("known findings");
        let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
        out.push(Known { property: s("property"), class: s("class"), contains: s("contains"), title: s("title") });
    }
    out
}

impl Known {
    fn is(&self, prop: &str, msg: &str) -> bool {
        self.property == prop && shrink::class(msg) == self.class && !self.contains.is_empty() && msg.contains(&self.contains)
    }
}

fn say(s: String) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
static STARTED: Mutex<(f64, f64)> = Mutex::new((0.0, 0.0));

/// dsim worker --property P --focus F --start N --stride K --until T [--max M] [--known F]
pub fn worker(a: &[String]) -> i32 {
    let (prop, focus) = (arg(a, "--property"), arg(a, "--focus"));
    let (mut seed, stride): (u64, u64) = (arg(a, "--start").parse().unwrap(), arg(a, "--stride").parse().unwrap());
    let until: f64 = arg(a, "--until").parse().unwrap();
    let max: u64 = crate::cli::arg(a, "--max").map(|m| m.parse().unwrap()).unwrap_or(u64::MAX);
    let kn = known(crate::cli::arg(a, "--known"));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        if CURRENT.load(Ordering::SeqCst) != u64::MAX {
            let (c, r) = *STARTED.lock().unwrap();
            // a run takes milliseconds; this one spins, or waits for something that never comes
            if seams::cpu() - c > 45.0 || seams::real() - r > crate::HANG_AFTER {
                std::process::exit(77);
            }
        }
    });
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut cover: BTreeSet<u64> = BTreeSet::new();
    let mut digests: BTreeSet<u64> = BTreeSet::new();
    let mut orders: BTreeSet<u64> = BTreeSet::new();
    let (mut runs, mut nontrivial, mut us, mut polls, mut choices) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut proof: Vec<(u64, u64)> = vec![];
    let mut sample: Value = Value::Null;
    while runs < max && (runs == 0 || seams::real() < until) {
        say(format!("S {}", seed));
        *STARTED.lock().unwrap() = (seams::cpu(), seams::real());
        CURRENT.store(seed, Ordering::SeqCst);
        let out = shrink::try_in_thread(Choices::from_seed(seed), seed, &focus);
        CURRENT.store(u64::MAX, Ordering::SeqCst);
        runs += 1;
        match out {
            None => say(format!("H {}", seed)),
            Some(o) => {
                let d = o.digest();
                if proof.len() < 3 {
                    proof.push((seed, d));
                }
                let faults = o.stats.iter().any(|(k, _)| k.starts_with("fault."));
                if o.stats.get("op").copied().unwrap_or(0) >= 3 && faults && digests.insert(d) {
                    nontrivial += 1;
                }
                orders.insert(o.order);
                if sample.is_null() && o.trace.len() > 10 {
                    sample = json!({"seed": seed, "choices": o.choices.len(), "trace": o.trace.iter().take(40).map(|t| t.chars().take(200).collect::<String>()).collect::<Vec<_>>()});
                }
                us += o.time;
                polls += o.polls;
                choices += o.choices.len() as u64;
                for (k, v) in &o.stats {
                    *stats.entry(k.clone()).or_insert(0) += v;
                }
                cover.extend(&o.cover);
                for v in o.viols.iter().filter(|v| v.props.contains(&prop.as_str())) {
                    let m: String = v.msg.replace(|c: char| c.is_control(), " ");
                    match kn.iter().find(|k| k.is(&prop, &v.msg)) {
                        Some(k) => say(format!("K {} {}", seed, k.title)),
                        None => {
                            say(format!("V {} {}", seed, m));
                            return 1;
                        }
                    }
                }
            }
        }
        seed += stride;
    }
    say(format!(
        "E {}",
        json!({"runs": runs, "nontrivial": nontrivial, "us": us, "polls": polls, "choices": choices, "stats": stats, "cover": cover, "orders": orders, "proof": proof, "sample": sample})
    ));
    0
}

enum Ev {
    Line(usize, String),
    End(usize),
}

struct Slot {
    child: Child,
    at: u64,
    first: u64,
    done: bool,
    deaths: u32,
}

pub fn check(a: &[String]) -> i32 {
    let t0 = seams::real();
    let prop = arg(a, "--property");
    let focus = crate::cli::arg(a, "--focus").unwrap_or_else(|| prop.clone());
    let tier = arg(a, "--tier");
    let vseed: u64 = arg(a, "--seed").parse().expect("seed");
    let secs: f64 = arg(a, "--secs").parse().unwrap();
    let jobs: usize = arg(a, "--jobs").parse().unwrap();
    let (evidence, replays) = (arg(a, "--evidence"), arg(a, "--replays"));
    let known_file = crate::cli::arg(a, "--known").unwrap_or_default();
    let base = vseed.wrapping_mul(10_000_000) % (1 << 52);
    let until = t0 + secs;
    println!("dsim: property {} seeds from {} (VERIF_SEED={}), {} processes, {} s", prop, base, vseed, jobs, secs);
    let (tx, rx) = mpsc::channel::<Ev>();
    let launch = |i: usize, start: u64| -> Child {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(&["worker", "--property", &prop, "--focus", &focus, "--start", &start.to_string(), "--stride", &jobs.to_string(), "--until", &until.to_string(), "--known", &known_file])
            .stdout(Stdio::piped())
            .spawn()
            .expect("worker");
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        let _ = tx.send(Ev::Line(i, l));
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Ev::End(i));
        });
        c
    };
    let mut slots: Vec<Slot> = (0..jobs)
        .map(|i| {
            let s = base + i as u64;
            Slot { child: launch(i, s), at: s, first: s, done: false, deaths: 0 }
        })
        .collect();
    let mut live = jobs;
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut cover: BTreeSet<u64> = BTreeSet::new();
    let mut orders: BTreeSet<u64> = BTreeSet::new();
    let mut sums: BTreeMap<&str, u64> = BTreeMap::new();
    let mut proof: Vec<(u64, u64)> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut broken: Vec<u64> = vec![];
    let mut died: Vec<(u64, String)> = vec![];
    let mut found: Option<(u64, String, Vec<u64>, Option<String>)> = None;
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    while live > 0 {
        match rx.recv().expect("workers") {
            Ev::Line(i, l) => {
                let (k, rest) = l.split_at(2.min(l.len()));
                match k {
                    "S " => slots[i].at = rest.parse().unwrap_or(0),
                    "H " => broken.push(rest.parse().unwrap_or(0)),
                    "K " => *knowns.entry(rest.split_once(' ').map(|x| x.1).unwrap_or("").to_string()).or_insert(0) += 1,
                    "V " => {
                        let (s, m) = rest.split_once(' ').unwrap();
                        let s: u64 = s.parse().unwrap();
                        if found.is_none() {
                            let prelude = (slots[i].first..s).step_by(jobs).collect();
                            found = Some((s, m.to_string(), prelude, None));
                        }
                        slots[i].done = true;
                    }
                    "E " => {
                        let v: Value = serde_json::from_str(rest).expect("worker report");
                        for k in ["runs", "nontrivial", "us", "polls", "choices"].iter() {
                            *sums.entry(k).or_insert(0) += v[*k].as_u64().unwrap();
                        }
                        for (k, n) in v["stats"].as_object().unwrap() {
                            *stats.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
                        }
                        cover.extend(v["cover"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
                        orders.extend(v["orders"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
                        proof.extend(v["proof"].as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap(), p[1].as_u64().unwrap())));
                        if samples.len() < 2 && !v["sample"].is_null() {
                            samples.push(v["sample"].clone());
                        }
                        slots[i].done = true;
                    }
                    _ => {}
                }
            }
            Ev::End(i) => {
                let status = slots[i].child.wait().expect("worker");
                if !slots[i].done && found.is_none() {
                    let how = if status.code() == Some(77) { "does not finish" } else { "kills the process" };
                    let s = slots[i].at;
                    died.push((s, format!("{} ({})", how, status)));
                    if prop == crate::HANG {
                        let prelude = (slots[i].first..s).step_by(jobs).collect();
                        found = Some((s, format!("an operation {} ({})", how, status), prelude, Some(how.to_string())));
                    } else {
                        slots[i].deaths += 1;
                        if slots[i].deaths < 3 && seams::real() < until {
                            slots[i].at = s + jobs as u64;
                            slots[i].first = slots[i].at;
                            let at = slots[i].at;
                            slots[i].child = launch(i, at);
                            continue;
                        }
                    }
                }
                live -= 1;
            }
        }
        if found.is_some() {
            for s in slots.iter_mut().filter(|s| !s.done) {
                let _ = s.child.kill();
            }
        }
    }
    let searched = seams::real() - t0;
    let runs = sums.get("runs").copied().unwrap_or(0);
    // the same seeds again, in another process
    let mut same = 0;
    let mut differ: Vec<u64> = vec![];
    if found.is_none() && !proof.is_empty() {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(&["digest", &focus]).args(proof.iter().map(|p| p.0.to_string()));
        let o = c.output().expect("digest");
        let again: BTreeMap<u64, u64> = String::from_utf8_lossy(&o.stdout)
            .lines()
            .filter_map(|l| l.split_once(' ').and_then(|(s, d)| Some((s.parse().ok()?, u64::from_str_radix(d, 16).ok()?))))
            .collect();
        for (s, d) in &proof {
            if again.get(s) == Some(d) {
                same += 1
            } else {
                differ.push(*s)
            }
        }
    }
    let mut code = 0;
    let mut violation = Value::Null;
    if let Some((s, m, prelude, dies)) = &found {
        std::fs::create_dir_all(&replays).expect("replay directory");
        let path = format!("{}/{}-{}.json", replays, prop, s);
        let mut c = Command::new(std::env::current_exe().unwrap());
        let p = prelude.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let budget = if tier == "quick" { "40" } else { "240" };
        c.args(&["shrink", "--property", &prop, "--focus", &focus, "--seed", &s.to_string(), "--prelude", &p, "--out", &path, "--secs", budget]);
        if let Some(d) = dies {
            c.args(&["--dies", d]);
        }
        let st = c.status().expect("shrink");
        if !std::path::Path::new(&path).exists() {
            std::fs::write(&path, json!({"property": prop, "focus": focus, "seed": s, "choices": Value::Null, "prelude": [], "class": "", "violation": m}).to_string()).unwrap();
        }
        let d: Value = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
        println!("seed {}: {}", s, m);
        println!("minimised to {} choices: {}", d["choices"].as_array().map(|a| a.len().to_string()).unwrap_or("all".into()), d["violation"].as_str().unwrap_or(""));
        for t in d["trace"].as_array().map(|a| a.as_slice()).unwrap_or(&[]).iter().take(60) {
            println!("  {}", t.as_str().unwrap_or("").chars().take(300).collect::<String>());
        }
        println!("replay in a fresh process: {}", if st.success() { "reproduced" } else { "NOT reproduced" });
        println!("VIOLATION property={} replay={}", prop, path);
        violation = json!({"seed": s, "message": m, "replay": path, "reproduced": st.success()});
        code = 1;
    }
    for (k, n) in &knowns {
        println!("KNOWN-FINDING: property={} {} (seen {} times)", prop, k, n);
    }
    let pick = |p: &str| -> BTreeMap<String, u64> { stats.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.trim_start_matches(p).to_string(), *v)).collect() };
    let rest: BTreeMap<String, u64> = stats.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k.clone(), *v)).collect();
    let rate = if searched > 0.0 { (runs as f64 / searched * 3600.0) as u64 } else { 0 };
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": vseed,
        "level": "exploration",
        "wall_s": seams::real() - t0,
        "violations": if code == 1 { 1 } else { 0 },
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sums.get("nontrivial").copied().unwrap_or(0),
            "rule": "one evaluation is one simulated execution of a generated deployment under one seed; it is non-trivial when at least three library operations ran and at least one fault or forgery was injected, and distinct when the digest of its whole event trace is new in its worker process (workers have disjoint seeds)",
            "samples": samples,
            "seeds_per_hour": rate,
            "simulated_time_s": sums.get("us").copied().unwrap_or(0) as f64 / 1e6,
            "scheduling_steps": sums.get("polls").copied().unwrap_or(0),
            "decisions_drawn": sums.get("choices").copied().unwrap_or(0),
            "distinct_interleavings": orders.len(),
            "distinct_interleavings_measure": "hash of the sequence of task identities polled by the scheduler",
            "distinct_situations": cover.len(),
            "distinct_situations_measure": "abstract operation situation: kind, options, parties' key types and views, injected fault, outcome",
            "faults_injected": pick("fault."),
            "activity": rest,
            "determinism": {"seeds_run_twice": proof.len(), "identical": same, "different": differ},
            "seeds_that_killed_or_hung_a_worker": died,
            "simulator_failures": broken,
            "components_real": crate::REAL,
            "components_stub": crate::STUB,
            "violation": violation,
            "known_findings": knowns,
        },
        "assumptions": ["the askar-crypto stand-in behaves like askar-crypto for the algorithms used (checked against the repository's own test vectors)", "sampling: a clean batch is evidence, not proof"],
    });
    if let Some(d) = std::path::Path::new(&evidence).parent() {
        std::fs::create_dir_all(d).expect("evidence directory");
    }
    std::fs::write(&evidence, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    println!(
        "{}: {} runs ({} distinct non-trivial), {} distinct interleavings, {} situations, {:.1} simulated s, {:.1} s, determinism {}/{}",
        prop,
        runs,
        sums.get("nontrivial").copied().unwrap_or(0),
        orders.len(),
        cover.len(),
        sums.get("us").copied().unwrap_or(0) as f64 / 1e6,
        searched,
        same,
        proof.len()
    );
    if code == 0 && runs > 0 && broken.len() as u64 * 2 > runs {
        eprintln!("the simulator failed in most runs");
        return 2;
    }
    if code == 0 && runs == 0 {
        eprintln!("no run finished");
        return 2;
    }
    code
}
