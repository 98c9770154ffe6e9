//! Replaying and minimising failures.
use crate::choices::Choices;
use crate::run::{run, RunOut};
use crate::seams;
use serde_json::{json, Value};
use std::process::{Command, Stdio};

/// A run in a thread of its own: nothing thread-local survives from one run to the next.
pub fn try_in_thread(ch: Choices, seed: u64, focus: &str) -> Option<RunOut> {
    let f = focus.to_string();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            seams::enter(seed);
            run(ch, seed, &f)
        })
        .expect("thread")
        .join()
        .ok()
}
pub fn in_thread(ch: Choices, seed: u64, focus: &str) -> RunOut {
    try_in_thread(ch, seed, focus).expect("simulator failure")
}

/// What kind of violation it is, without the names of one run.
pub fn class(msg: &str) -> String {
    let m = msg.split_once(' ').map(|x| x.1).unwrap_or(msg);
    let mut s: String = m.chars().filter(|c| !c.is_ascii_digit() && !c.is_control()).take(400).collect();
    if let Some(i) = s.find("panicked") {
        s = s[i..].to_string();
    }
    let mut words: Vec<&str> = s.split_whitespace().collect();
    words.truncate(4);
    words.join(" ")
}

fn hit(o: &RunOut, prop: &str, cls: Option<&str>) -> Option<String> {
    o.viols.iter().filter(|v| v.props.contains(&prop)).map(|v| v.msg.clone()).find(|m| cls.map(|c| class(m) == c).unwrap_or(true))
}

/// How a run in a fresh process ended.
pub enum Fate {
    Violates(String),
    Dies(String),
    Clean,
}

/// Run a replay document in a fresh process, with a limit on its processor time.
pub fn fate(doc: &Value, limit: u64) -> Fate {
    let path = std::env::temp_dir().join(format!("dsim-{}-{}.json", std::process::id(), doc["seed"]));
    std::fs::write(&path, doc.to_string()).expect("scratch file");
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(&["replay", path.to_str().unwrap(), "--inner"]).stdout(Stdio::piped()).stderr(Stdio::null());
    let out = limited(c, limit);
    let _ = std::fs::remove_file(&path);
    match out {
        None => Fate::Dies("does not finish".into()),
        Some(o) => match o.status.code() {
            Some(0) => Fate::Clean,
            Some(1) => Fate::Violates(String::from_utf8_lossy(&o.stdout).trim().to_string()),
            Some(77) => Fate::Dies("does not finish".into()),
            _ => Fate::Dies("kills the process".into()),
        },
    }
}

/// Run with a limit on processor time (exceeding it: `None`).
fn limited(mut c: Command, cpu: u64) -> Option<std::process::Output> {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
    let mut child = c.spawn().expect("run");
    // one that waits for ever uses no processor time
    let end = seams::real() + (30.0 + 4.0 * cpu as f64).min(crate::HANG_AFTER + 30.0);
    while child.try_wait().expect("wait").is_none() {
        if seams::real() > end {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
    let o = child.wait_with_output().expect("output");
    if o.status.signal() == Some(libc::SIGXCPU) || o.status.signal() == Some(libc::SIGKILL) {
        return None;
    }
    Some(o)
}

fn doc(prop: &str, focus: &str, seed: u64, choices: Option<&[u64]>, prelude: &[u64], cls: &str) -> Value {
    json!({"property": prop, "focus": focus, "seed": seed, "choices": choices, "prelude": prelude, "class": cls})
}

/// Executes the document; the message of the violation it was made for, and the run.
fn execute(d: &Value) -> (Option<String>, RunOut) {
    let (focus, seed) = (d["focus"].as_str().unwrap(), d["seed"].as_u64().unwrap());
    let prop = d["property"].as_str().unwrap();
    for p in d["prelude"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
        let s = p.as_u64().unwrap();
        let _ = try_in_thread(Choices::from_seed(s), s, focus);
    }
    let ch = match d["choices"].as_array() {
        Some(a) => Choices::from_script(a.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => Choices::from_seed(seed),
    };
    let o = in_thread(ch, seed, focus);
    let cls = d["class"].as_str().filter(|c| !c.is_empty());
    (hit(&o, prop, cls), o)
}

pub fn replay_cmd(a: &[String]) -> i32 {
    let d: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("replay file");
    let inner = a.iter().any(|x| x == "--inner");
    if inner {
        let (m, o) = execute(&d);
        return match m {
            Some(m) => {
                println!("{:016x} {}", o.digest(), m);
                1
            }
            None => 0,
        };
    }
    if let Some(how) = d["dies"].as_str() {
        return match fate(&d, 60) {
            Fate::Dies(h) => {
                println!("{} ({})", h, how);
                println!("VIOLATION property={} replay={}", d["property"].as_str().unwrap(), a[2]);
                1
            }
            _ => {
                println!("not reproduced");
                0
            }
        };
    }
    let (m, o) = execute(&d);
    for t in &o.trace {
        println!("{}", t);
    }
    match m {
        Some(m) => {
            println!("{}", m);
            if d["digest"].is_string() && d["digest"] != json!(format!("{:016x}", o.digest())) {
                println!("(the event trace differs from the recorded one: the code is not the one recorded)");
            }
            println!("VIOLATION property={} replay={}", d["property"].as_str().unwrap(), a[2]);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

/// dsim shrink --property P --focus F --seed N --prelude a,b,c --out FILE [--dies HOW]
pub fn shrink_cmd(a: &[String]) -> i32 {
    let get = |k: &str| crate::cli::arg(a, k);
    let (prop, focus) = (get("--property").unwrap(), get("--focus").unwrap());
    let seed: u64 = get("--seed").unwrap().parse().unwrap();
    let secs: f64 = get("--secs").map(|s| s.parse().unwrap()).unwrap_or(60.0);
    let prelude: Vec<u64> = get("--prelude").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let out = get("--out").unwrap();
    let deadline = seams::real() + secs;
    let write = |d: &Value| std::fs::write(&out, serde_json::to_string_pretty(d).unwrap() + "\n").expect("replay file");
    if let Some(how) = get("--dies") {
        // the process does not survive: only fresh processes can tell
        let mut d = doc(&prop, &focus, seed, None, &[], "");
        if !matches!(fate(&d, 60), Fate::Dies(_)) {
            d = doc(&prop, &focus, seed, None, &prelude, "");
            if !matches!(fate(&d, 300), Fate::Dies(_)) {
                return 3;
            }
            d["dies"] = json!(how);
            d["violation"] = json!(format!("an operation {}", how));
            write(&d);
            return 0;
        }
        // how many choices matter
        let log = std::env::temp_dir().join(format!("dsim-log-{}", std::process::id()));
        std::env::set_var("DSIM_CHOICE_LOG", &log);
        let _ = fate(&d, 60);
        std::env::remove_var("DSIM_CHOICE_LOG");
        let rec: Vec<u64> = std::fs::read(&log).map(|b| b.chunks_exact(8).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).collect()).unwrap_or_default();
        let _ = std::fs::remove_file(&log);
        let mut best = doc(&prop, &focus, seed, Some(&rec), &[], "");
        if matches!(fate(&best, 30), Fate::Dies(_)) {
            let ok = |c: &[u64]| matches!(fate(&doc(&prop, &focus, seed, Some(c), &[], ""), 20), Fate::Dies(_));
            let m = minimise(rec, deadline, ok);
            best = doc(&prop, &focus, seed, Some(&m), &[], "");
        } else {
            best = d;
        }
        best["dies"] = json!(how);
        best["violation"] = json!(format!("an operation {}", how));
        write(&best);
        return 0;
    }
    let first = try_in_thread(Choices::from_seed(seed), seed, &focus);
    let msg = first.as_ref().and_then(|o| hit(o, &prop, None));
    let (first, msg) = match (first, msg) {
        (Some(f), Some(m)) => (f, m),
        _ => {
            // it depends on what the process did before
            let mut n = 1;
            loop {
                let p = &prelude[prelude.len().saturating_sub(n)..];
                let mut d = doc(&prop, &focus, seed, None, p, "");
                if let Fate::Violates(m) = fate(&d, 600) {
                    d["violation"] = json!(m.split_once(' ').map(|x| x.1).unwrap_or(&m));
                    d["note"] = json!("the failure depends on state the library keeps across runs; the prelude builds it up");
                    write(&d);
                    return 0;
                }
                if n >= prelude.len() {
                    return 3;
                }
                n *= 4;
            }
        }
    };
    let cls = class(&msg);
    let ok = |c: &[u64]| try_in_thread(Choices::from_script(c.to_vec()), seed, &focus).map(|o| hit(&o, &prop, Some(&cls)).is_some()).unwrap_or(false);
    let mut m = if ok(&first.choices) { minimise(first.choices.clone(), deadline, ok) } else { first.choices.clone() };
    for attempt in 0..2 {
        let mut d = doc(&prop, &focus, seed, Some(&m), &[], &cls);
        // a fresh process decides
        if let Fate::Violates(_) = fate(&d, 120) {
            let (msg, o) = execute(&d);
            d["violation"] = json!(msg);
            d["digest"] = json!(format!("{:016x}", o.digest()));
            d["trace"] = json!(o.trace);
            write(&d);
            return 0;
        }
        if attempt == 0 {
            m = first.choices.clone();
        }
    }
    let mut d = doc(&prop, &focus, seed, None, &prelude, "");
    d["violation"] = json!(msg);
    write(&d);
    3
}

/// Shorten, then zero, then lower the choices, as long as the failure stays.
fn minimise(mut c: Vec<u64>, deadline: f64, ok: impl Fn(&[u64]) -> bool) -> Vec<u64> {
    let left = || seams::real() < deadline;
    // the tail is free: missing choices are zero
    let mut step = c.len() / 2;
    while step > 0 && left() {
        if c.len() >= step && ok(&c[..c.len() - step]) {
            let n = c.len() - step;
            c.truncate(n);
        } else {
            step /= 2;
        }
    }
    let mut round = 0;
    loop {
        let before = c.clone();
        let mut size = (c.len() / 2).max(1);
        while left() {
            // delete or zero blocks
            let mut i = 0;
            while i < c.len() && left() {
                let j = (i + size).min(c.len());
                let mut t = c.clone();
                t.drain(i..j);
                if ok(&t) {
                    c = t;
                    continue;
                }
                if c[i..j].iter().any(|x| *x != 0) {
                    let mut t = c.clone();
                    t[i..j].iter_mut().for_each(|x| *x = 0);
                    if ok(&t) {
                        c = t;
                    }
                }
                i = j;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..c.len() {
            if c[i] > 1 && left() {
                for v in [1, c[i] / 2].iter() {
                    let mut t = c.clone();
                    t[i] = *v;
                    if ok(&t) {
                        c = t;
                        break;
                    }
                }
            }
        }
        while c.last() == Some(&0) {
            c.pop();
        }
        round += 1;
        if c == before || round > 6 || !left() {
            return c;
        }
    }
}
