//! Histories of comparisons over shared managers (public API only).
use crate::compute;
use crate::pipe::*;
use crate::synth::*;
use serde_json::{json, Value};
use std::path::Path;

type Res = (String, Vec<u64>);

/// every number of a result, bit for bit
fn digest(out: Result<Result<visqol_rs::similarity_result::SimilarityResult, Box<dyn std::error::Error>>, String>) -> Res {
    match out {
        Err(p) => (format!("panic {p}"), vec![]),
        Ok(Err(e)) => (format!("err {}", e), vec![]),
        Ok(Ok(r)) => {
            let mut v = vec![r.moslqo, r.vnsim];
            v.extend(&r.fvnsim);
            v.extend(&r.fstdnsim);
            v.extend(&r.fvdegenergy);
            v.extend(&r.center_freq_bands);
            for p in &r.patch_sims {
                v.extend([p.similarity, p.ref_patch_start_time, p.ref_patch_end_time, p.deg_patch_start_time, p.deg_patch_end_time]);
                v.extend(&p.freq_band_means);
                v.extend(&p.freq_band_stddevs);
                v.extend(&p.freq_band_deg_energy);
            }
            (format!("ok {}", r.patch_sims.len()), v.iter().map(|x| x.to_bits()).collect())
        }
    }
}
fn same(a: &Res, b: &Res) -> bool {
    a.0 == b.0
        && a.1.len() == b.1.len()
        && a.1.iter().zip(&b.1).all(|(x, y)| {
            let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
            x == y || (x - y).abs() <= 1e-9 * (1.0 + x.abs()) || (x.is_nan() && y.is_nan())
        })
}

/// `spot` is where "over" puts its copies: the same two paths every time, whatever the pair
fn step(m: &mut AnyManager, how: &str, a: &str, b: &str, spot: &Path) -> (Res, bool) {
    let (mut a, mut b) = (a.to_string(), b.to_string());
    if how == "over" {
        let put = |from: &str, to: &str| {
            let to = spot.join(to);
            let _ = std::fs::remove_file(&to);
            if Path::new(from).exists() {
                std::fs::copy(from, &to).expect("harness: copy");
            }
            to.to_str().unwrap().to_string()
        };
        std::fs::create_dir_all(spot).expect("harness: scratch");
        (a, b) = (put(&a, "over-r.wav"), put(&b, "over-d.wav"));
    }
    let (a, b) = (a.as_str(), b.as_str());
    let (mut r, keep) = step_at(m, how, a, b);
    // errors may name the file
    r.0 = r.0.replace(a, "<reference>").replace(b, "<degraded>");
    (r, keep)
}
fn step_at(m: &mut AnyManager, how: &str, a: &str, b: &str) -> (Res, bool) {
    if how != "compute" {
        (digest(guarded(|| m.run(a, b))), true)
    } else {
        let mut keep = true;
        let out = guarded(|| {
            let mut r = visqol_rs::audio_utils::load_as_mono(a)?;
            let mut d = visqol_rs::audio_utils::load_as_mono(b)?;
            let (r0, d0) = (r.data_matrix.clone(), d.data_matrix.clone());
            let (s0, s1) = (r.sample_rate, d.sample_rate);
            let out = if s0 != s1 { m.run(a, b) } else { compute!(&mut *m, &mut r, &mut d) };
            keep = r0 == r.data_matrix && d0 == d.data_matrix && s0 == r.sample_rate && s1 == d.sample_rate;
            out
        });
        (digest(out), keep)
    }
}

/// `vh one MODE RADIUS REF DEG`: a comparison in a process of its own
pub fn one(mode: &str, radius: usize, a: &str, b: &str) {
    let mut m = AnyManager::new(mode, radius);
    let r = step(&mut m, "run", a, b, Path::new("/nonexistent")).0;
    println!("{}", json!([r.0, r.1.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>()]));
}
fn fresh_process(mode: &str, radius: usize, a: &str, b: &str) -> Res {
    let out = std::process::Command::new(std::env::current_exe().expect("harness: exe"))
        .args(["one", mode, &radius.to_string(), a, b])
        .output()
        .expect("harness: spawn");
    match serde_json::from_slice::<Value>(&out.stdout) {
        Ok(v) => (
            v[0].as_str().unwrap_or("").to_string(),
            v[1].as_array().map(|x| x.iter().map(|h| u64::from_str_radix(h.as_str().unwrap(), 16).unwrap()).collect()).unwrap_or_default(),
        ),
        Err(_) => ("died".to_string(), vec![]),
    }
}

/// {"pairs": [case...], "managers": [{"mode", "radius"}], "steps": [[manager, pair, how], ...], "threads": k}
/// Events: one Fresh per configuration and pair that occurs (what a fresh process gives), one Call per step;
/// equal outcomes carry the same number.
pub fn run_case(case: &Value, dir: &Path) -> Vec<Value> {
    let id = int(case, "id", 0);
    let sub = dir.join(format!("s{id}"));
    std::fs::create_dir_all(&sub).expect("harness: scratch");
    let pairs: Vec<Case> = case["pairs"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let mut p = p.clone();
            p["id"] = json!(i);
            let c = prepare(&p, &sub);
            match text(&p, "break", "") {
                "missing" => std::fs::remove_file(&c.fdeg).expect("harness: rm"),
                "garbage" => std::fs::write(&c.fdeg, b"not a wav file").expect("harness: write"),
                _ => {}
            }
            c
        })
        .collect();
    let confs: Vec<(String, usize)> = case["managers"]
        .as_array()
        .unwrap()
        .iter()
        .map(|m| (text(m, "mode", "speech").to_string(), int(m, "radius", 10) as usize))
        .collect();
    let path = |p: &std::path::PathBuf| p.to_str().unwrap().to_string();
    let steps: Vec<(usize, usize, String)> = case["steps"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| (s[0].as_u64().unwrap() as usize - 1, s[1].as_u64().unwrap() as usize - 1, s[2].as_str().unwrap().to_string()))
        .collect();
    let classes: std::cell::RefCell<Vec<Res>> = Default::default();
    let class = |r: &Res| -> usize {
        let mut c = classes.borrow_mut();
        c.iter().position(|x| same(x, r)).unwrap_or_else(|| {
            c.push(r.clone());
            c.len() - 1
        })
    };
    let key = |m: usize, p: usize| format!("{}/{}/{}", confs[m].0, confs[m].1, p + 1);
    let word = |r: &Res| r.0.split(' ').next().unwrap().to_string();
    let mut evs = vec![json!({"ev": "Session", "id": id, "managers": confs.len(), "pairs": pairs.len(), "steps": steps.len(), "threads": int(case, "threads", 1)})];
    let mut done: std::collections::BTreeSet<String> = Default::default();
    for (m, p, _) in &steps {
        if done.insert(key(*m, *p)) {
            let r = fresh_process(&confs[*m].0, confs[*m].1, &path(&pairs[*p].fref), &path(&pairs[*p].fdeg));
            evs.push(json!({"ev": "Fresh", "key": key(*m, *p), "kind": word(&r), "res": class(&r), "text": r.0.chars().take(120).collect::<String>()}));
        }
    }
    let call = |m: usize, p: usize, how: &str, r: &Res, keep: bool, th: usize| {
        json!({"ev": "Call", "m": m + 1, "p": p + 1, "how": how, "key": key(m, p), "kind": word(r), "text": r.0.chars().take(120).collect::<String>(),
               "res": class(r), "keep": keep, "th": th})
    };
    let threads = int(case, "threads", 1) as usize;
    if threads <= 1 {
        let mut ms: Vec<AnyManager> = confs.iter().map(|(m, r)| AnyManager::new(m, *r)).collect();
        for (m, p, how) in &steps {
            let (r, keep) = step(&mut ms[*m], how, &path(&pairs[*p].fref), &path(&pairs[*p].fdeg), &sub.join("spot"));
            evs.push(call(*m, *p, how, &r, keep, 1));
        }
    } else {
        // every thread plays the whole history, rotated, on managers of its own
        let outs: Vec<Vec<(usize, usize, String, Res, bool, usize)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (steps, confs, pairs, spot) = (&steps, &confs, &pairs, sub.join(format!("spot{t}")));
                    sc.spawn(move || {
                        let mut ms: Vec<AnyManager> = confs.iter().map(|(m, r)| AnyManager::new(m, *r)).collect();
                        let n = steps.len();
                        (0..n)
                            .map(|k| {
                                let (m, p, how) = &steps[(k + t) % n];
                                let (r, keep) = step(&mut ms[*m], how, pairs[*p].fref.to_str().unwrap(), pairs[*p].fdeg.to_str().unwrap(), &spot);
                                (*m, *p, how.clone(), r, keep, t + 1)
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        for (m, p, how, r, keep, t) in outs.into_iter().flatten() {
            evs.push(call(m, p, &how, &r, keep, t));
        }
    }
    evs.push(json!({"ev": "SessionEnd", "id": id, "threads": threads, "steps": steps.len()}));
    let _ = std::fs::remove_dir_all(&sub);
    evs
}
