//! Conformance harness: executes JSON cases against visqol-rs and records what happened.
//!   vh run  CASES.ndjson OUT.ndjson   one or more events per case, grouped by case
//!   vh files SPEC.json DIR            the signal files of a world for the command line tool
//!   vh one MODE RADIUS REF DEG        one comparison, every number of its outcome
//!   vh info                            which hooks this build has
mod enc;
#[cfg(feature = "probe")]
mod lags;
mod pipe;
mod probe;
mod session;
mod synth;
mod unit;

use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::path::PathBuf;
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("info") => println!("{}", json!({"priv": cfg!(feature = "priv"), "probe": cfg!(feature = "probe")})),
        Some("run") => run(&args[2], &args[3]),
        Some("files") => files(&args[2], &args[3]),
        Some("one") => {
            pipe::install_panic_hook();
            session::one(&args[2], args[3].parse().expect("harness: radius"), &args[4], &args[5])
        }
        _ => {
            eprintln!("usage: vh run CASES OUT | vh info");
            std::process::exit(2)
        }
    }
}

/// writes the files of a world: [{name, kind, sr, ref, deg, ch}]
fn files(spec: &str, dir: &str) {
    let list: Value = serde_json::from_str(&std::fs::read_to_string(spec).expect("harness: spec")).expect("harness: json");
    for f in list.as_array().expect("harness: list") {
        let path = PathBuf::from(dir).join(synth::text(f, "name", ""));
        std::fs::create_dir_all(path.parent().unwrap()).expect("harness: mkdir");
        let sr = synth::int(f, "sr", 8000) as u32;
        match synth::text(f, "kind", "wav") {
            "missing" => {}
            "garbage" => std::fs::write(&path, b"this is not a wav file at all, really not").expect("harness: write"),
            "bits" => {
                let case = json!({"ch": 1, "sr": sr, "bits": 8, "tag": 1, "data": vec![0; 9000]});
                std::fs::write(&path, unit::wav_bytes(&case)).expect("harness: write")
            }
            _ => {
                let x = synth::degrade(sr, &synth::make(sr, &f["ref"]), &f["deg"]);
                synth::write_wav(&path, sr, synth::int(f, "ch", 1) as u16, &x)
            }
        }
    }
}

fn one(case: &Value, dir: &std::path::Path) -> Vec<Value> {
    match synth::text(case, "u", "pipe") {
        "pipe" => pipe::run_case(case, dir),
        "session" => session::run_case(case, dir),
        _ => unit::run_case(case, dir),
    }
}

fn run(cases: &str, out: &str) {
    pipe::install_panic_hook();
    let text = std::fs::File::open(cases).expect("harness: cases");
    let cases: Vec<Value> =
        std::io::BufReader::new(text).lines().map(|l| serde_json::from_str(&l.unwrap()).expect("harness: bad case")).collect();
    let limit = Duration::from_secs(std::env::var("VH_CASE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(90));
    let dir = PathBuf::from(std::env::var("VH_TMP").expect("harness: VH_TMP"));
    let n = cases.len();
    let cases = Arc::new(cases);
    let next = Arc::new(Mutex::new(0usize));
    let started: Arc<Mutex<BTreeMap<usize, Instant>>> = Arc::new(Mutex::new(BTreeMap::new()));
    // cases begun, for the driver to find out which one ended the process
    let marks = Arc::new(Mutex::new(std::fs::File::create(format!("{out}.started")).expect("harness: marks")));
    let (tx, rx) = mpsc::channel::<(usize, Vec<Value>)>();
    let spawn = || {
        let (cases, next, started, tx, dir, marks) = (cases.clone(), next.clone(), started.clone(), tx.clone(), dir.clone(), marks.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || loop {
                let i = {
                    let mut g = next.lock().unwrap();
                    let i = *g;
                    *g += 1;
                    i
                };
                if i >= cases.len() {
                    break;
                }
                started.lock().unwrap().insert(i, Instant::now());
                {
                    let mut m = marks.lock().unwrap();
                    writeln!(m, "{i}").unwrap();
                }
                let evs = one(&cases[i], &dir);
                if started.lock().unwrap().remove(&i).is_none() {
                    break; // given up on
                }
                if tx.send((i, evs)).is_err() {
                    break;
                }
            })
            .unwrap();
    };
    for _ in 0..std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4) {
        spawn();
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("harness: out"));
    let mut write = |i: usize, evs: Vec<Value>| {
        for mut e in evs {
            e["case"] = json!(i + 1);
            writeln!(f, "{e}").unwrap();
        }
        f.flush().unwrap();
    };
    let mut done = 0;
    while done < n {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok((i, evs)) => {
                write(i, evs);
                done += 1;
            }
            Err(_) => {
                let late: Vec<usize> = {
                    let mut g = started.lock().unwrap();
                    let l: Vec<usize> = g.iter().filter(|(_, t)| t.elapsed() > limit).map(|(i, _)| *i).collect();
                    l.iter().for_each(|i| {
                        g.remove(i);
                    });
                    l
                };
                for i in late {
                    write(i, vec![json!({"ev": "Hang", "id": i, "unit": synth::text(&cases[i], "u", "pipe") != "pipe"})]);
                    done += 1;
                    spawn();
                }
            }
        }
    }
    std::process::exit(0)
}
