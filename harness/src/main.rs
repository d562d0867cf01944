mod case;
mod documents;
mod engine;
mod invariants;
mod model;
mod obs;
mod odoc;
mod props;

use std::{
    io::Write as _,
    process::{Command, exit},
    time::{Duration, Instant},
};

use case::{Case, Cfg};
use engine::*;
use serde_json::{Value, json};

const VERIF: &str = match option_env!("MC_VERIF") {
    Some(s) => s,
    None => "/verif",
};

fn home() -> String {
    std::env::var("MC_HOME").unwrap_or_else(|_| VERIF.to_owned())
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

fn hang_limit() -> Duration {
    Duration::from_secs(20)
}

fn write_replay(p: &Prop, space: &str, text: &str, cfg: &Cfg, msg: &str) -> String {
    let dir = format!("{}/replays", home());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{:016x}.json", p.id, hash(&format!("{text}\0{}", cfg.name)));
    let v = json!({
        "property": p.id,
        "space": space,
        "text": text,
        "cfg": cfg.name,
        "message": msg,
        "how": format!("cd {} && ./run.sh replay {path}", home()),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
    path
}

fn violation(p: &Prop, space: &str, text: &str, cfg: &Cfg, msg: &str) {
    let path = write_replay(p, space, text, cfg, msg);
    println!("input ({space}, cfg {}): {text:?}", cfg.name);
    println!("{msg}");
    println!("VIOLATION property={} replay={path}", p.id);
    let _ = std::io::stdout().flush();
}

fn evidence(p: &Prop, r: Option<&Report>, samples: Vec<Value>, t0: Instant, violations: u64) {
    let dir = format!("{}/evidence", home());
    let _ = std::fs::create_dir_all(&dir);
    let mut cov = json!({
        "states": r.map_or(0, |r| r.states),
        "transitions": r.map_or(0, |r| r.transitions),
        "traces_validated_against_impl": r.map_or(0, |r| r.execs),
        "samples": samples,
        "rule": "every case of every space is run on the implementation and on the reference model (or invariant); states: distinct canonical outcomes; transitions: steps taken by the reference model or checker",
    });
    if let Some(r) = r {
        cov["cases"] = json!(r.cases);
        cov["cases_in_bounds"] = json!(r.total);
        cov["exhaustive"] = json!(r.cases == r.total);
        cov["spaces"] = json!(
            r.per_space
                .iter()
                .map(|s| json!({"space": s.0, "cases": s.1}))
                .collect::<Vec<_>>()
        );
        if r.capped {
            cov["capped"] = json!("wall time limit reached; spaces are explored in index order");
        }
    }
    let v = json!({
        "property": p.id,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": seed(),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    std::fs::write(
        format!("{dir}/{}.json", p.id),
        serde_json::to_string_pretty(&v).unwrap(),
    )
    .expect("evidence file");
}

/// Called by the watchdog: does not return.
pub fn report_hang(p: &Prop, spaces: &[Space], g: u64) -> ! {
    let (si, li) = locate(spaces, g);
    let mut t = String::new();
    let cfg = spaces[si].text(li, &mut t);
    let msg = format!("no answer within {} s", hang_limit().as_secs());
    violation(p, &spaces[si].name, &t, cfg, &msg);
    evidence(p, None, vec![json!(t)], Instant::now(), 1);
    exit(1)
}

struct Known {
    property: String,
    text: String,
    cfg: String,
    what: String,
    probe: Option<String>,
}

fn known() -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.jsonl", home())) else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter_map(|v| {
            Some(Known {
                property: v.get("property")?.as_str()?.to_owned(),
                text: v.get("text")?.as_str()?.to_owned(),
                cfg: v.get("cfg").and_then(|c| c.as_str()).unwrap_or("base").to_owned(),
                what: v.get("what")?.as_str()?.to_owned(),
                probe: v.get("probe").and_then(|c| c.as_str()).map(str::to_owned),
            })
        })
        .collect()
}

fn worker(p: &Prop, slot_path: &str) -> ! {
    let t0 = Instant::now();
    unsafe {
        let l = libc::rlimit {
            rlim_cur: 20 << 30,
            rlim_max: 20 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    install_panic_hook();
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let slots = SlotFile::map(slot_path, threads);
    let spaces = p.all_spaces(thorough());
    let known: Vec<Known> = known().into_iter().filter(|k| k.property == p.id).collect();
    let max_fail = std::env::var("MC_MAXFAIL")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let lim = Limits {
        threads,
        wall: Duration::from_secs(
            std::env::var("MC_WALL")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(if thorough() { 3 * 3600 } else { 400 }),
        ),
        hang: hang_limit(),
        max_fail,
    };
    let r = explore(p, &spaces, &slots, &lim, &|t, c| {
        known.iter().any(|k| k.probe.is_none() && k.text == t && k.cfg == c.name)
    });
    let mut t = String::new();
    if let Some((g, m)) = r.model_errors.first() {
        let (si, li) = locate(&spaces, *g);
        let cfg = spaces[si].text(li, &mut t);
        println!("MODEL ERROR on {t:?} (cfg {}): {m}", cfg.name);
        exit(2);
    }
    let mut bad = 0;
    for (g, m) in r.failures.iter().take(max_fail) {
        let (si, li) = locate(&spaces, *g);
        let cfg = spaces[si].text(li, &mut t);
        violation(p, &spaces[si].name, &t, cfg, m);
        bad += 1;
    }
    for k in &known {
        if let Some(n) = &k.probe {
            if obs::probe(n) == Some(true) {
                println!("KNOWN-FINDING: property={} {}", p.id, k.what);
            }
            continue;
        }
        let Some(cfg) = props::cfg(&k.cfg) else {
            println!("unknown cfg {} in known_findings.jsonl", k.cfg);
            exit(2);
        };
        if let One::Broken(_) = one(p, &Case::decode(&k.text, cfg)) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }
    // Samples: first, middle and last case of each space.
    let mut samples = vec![];
    for s in &spaces {
        for i in [0, s.size() / 2, s.size() - 1] {
            let cfg = s.text(i, &mut t);
            samples.push(json!({"space": s.name, "index": i, "cfg": cfg.name, "text": t}));
        }
    }
    evidence(p, Some(&r), samples, t0, bad);
    println!(
        "{}: {} of {} cases, {} states, {} transitions, {} executions, {:.1} s{}",
        p.id,
        r.cases,
        r.total,
        r.states,
        r.transitions,
        r.execs,
        t0.elapsed().as_secs_f64(),
        if r.capped { " (capped)" } else { "" }
    );
    exit(if bad > 0 { 1 } else { 0 })
}

fn run(p: &Prop) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let slot_path = format!("{}/target/slots-{}", home(), std::process::id());
    let _ = std::fs::create_dir_all(format!("{}/target", home()));
    let t0 = Instant::now();
    let st = Command::new(&exe)
        .args(["worker", p.id, &slot_path])
        .status()
        .expect("worker");
    let code = match st.code() {
        Some(c @ 0..=2) => c,
        _ => {
            // Ended by a signal or with an odd code: find the case that does it.
            println!("worker ended: {st}");
            let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
            let slots = SlotFile::map(&slot_path, threads);
            let spaces = p.all_spaces(thorough());
            let mut cands: Vec<u64> = (0..threads)
                .map(|i| slots.case(i).load(std::sync::atomic::Ordering::Relaxed))
                .filter(|c| *c != 0)
                .map(|c| c - 1)
                .collect();
            cands.sort();
            let mut code = 2;
            for g in cands {
                let mut ch = Command::new(&exe)
                    .args(["one", p.id, &g.to_string()])
                    .spawn()
                    .expect("worker");
                let t = Instant::now();
                let st = loop {
                    if let Some(s) = ch.try_wait().expect("wait") {
                        break Some(s);
                    }
                    if t.elapsed() > hang_limit() * 2 {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        break None;
                    }
                    std::thread::sleep(Duration::from_millis(10));
                };
                let how = match st {
                    Some(s) if s.code() == Some(0) || s.code() == Some(2) => continue,
                    Some(s) => format!("the process ended: {s}"),
                    None => "no answer".to_owned(),
                };
                let (si, li) = locate(&spaces, g);
                let mut tx = String::new();
                let cfg = spaces[si].text(li, &mut tx);
                violation(p, &spaces[si].name, &tx, cfg, &how);
                evidence(p, None, vec![json!(tx)], t0, 1);
                code = 1;
                break;
            }
            code
        }
    };
    let _ = std::fs::remove_file(&slot_path);
    code
}

fn on_big_stack(f: impl FnOnce() -> i32 + Send) -> i32 {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, f)
            .expect("thread")
            .join()
            .unwrap_or(2)
    })
}

fn single(p: &Prop, text: &str, cfg: &'static Cfg) -> i32 {
    install_panic_hook();
    match one(p, &Case::decode(text, cfg)) {
        One::Fine(..) => {
            println!("{}: holds", p.id);
            0
        }
        One::Broken(m) => {
            println!("{m}\n{}: broken", p.id);
            1
        }
        One::ModelError(m) => {
            println!("MODEL ERROR {m}");
            2
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let find = |id: &str| {
        props::all().into_iter().chain([props::everything()]).find(|p| p.id == id).unwrap_or_else(|| {
            println!("no such property: {id}");
            exit(2)
        })
    };
    let code = match a.as_slice() {
        ["worker", id, slots] => worker(&find(id), slots),
        ["one", id, g] => {
            let p = find(id);
            let spaces = p.all_spaces(thorough());
            let (si, li) = locate(&spaces, g.parse().expect("index"));
            let mut t = String::new();
            let cfg = spaces[si].text(li, &mut t);
            on_big_stack(|| single(&p, &t, cfg))
        }
        ["replay", file] => {
            let v: Value =
                serde_json::from_str(&std::fs::read_to_string(file).expect("file")).expect("json");
            let p = find(v["property"].as_str().expect("property"));
            let cfg = props::cfg(v["cfg"].as_str().expect("cfg")).expect("known cfg");
            let t = v["text"].as_str().expect("text").to_owned();
            println!("input (cfg {}): {t:?}", cfg.name);
            on_big_stack(|| single(&p, &t, cfg))
        }
        // Development: compare everything for the text on stdin.
        ["text", rest @ ..] => {
            let mut t = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("stdin");
            let cfg = props::cfg(rest.first().unwrap_or(&"base")).expect("known cfg");
            on_big_stack(|| {
                let case = Case::decode(&t, cfg);
                for d in obs::run(&case, odoc::ALL) {
                    println!("{}", d.dump(odoc::ALL & !odoc::ENV));
                }
                single(&props::everything(), &t, cfg)
            })
        }
        ["sizes"] => {
            for p in props::all() {
                for th in [false, true] {
                    let s = p.all_spaces(th);
                    let n: u64 = s.iter().map(Space::size).sum();
                    println!("{} {} {n}", p.id, if th { "thorough" } else { "quick" });
                    for s in s {
                        println!("    {:>12} {}", s.size(), s.name);
                    }
                }
            }
            0
        }
        [id] => run(&find(id)),
        _ => {
            println!("usage: mc ID | replay FILE | text [CFG] | sizes");
            2
        }
    };
    exit(code)
}
