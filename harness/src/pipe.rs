//! Runs whole comparisons through the public API and records what can be observed.
use crate::enc::*;
use crate::synth::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use visqol_rs::constants::{NUM_BANDS_AUDIO, NUM_BANDS_SPEECH};
use visqol_rs::similarity_result::SimilarityResult;
use visqol_rs::variant::Variant;
use visqol_rs::visqol_manager::VisqolManager;

pub const SIM: f64 = 1e7; // similarities
pub const TIME: f64 = 1e6; // seconds
pub const MOS: f64 = 1e6;
pub const ENERGY: f64 = 1e6;
pub const DB: f64 = 1e4;

thread_local! {
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if loc.starts_with("src/") || msg.starts_with("harness:") {
            eprintln!("HARNESS-ERROR {loc} {msg}");
            std::process::exit(3);
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{loc} {}", msg.chars().take(120).collect::<String>()));
    }));
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub enum AnyManager {
    Speech(VisqolManager<NUM_BANDS_SPEECH>),
    Audio(VisqolManager<NUM_BANDS_AUDIO>),
}
pub fn model_path() -> String {
    std::env::var("VH_MODEL").unwrap_or_else(|_| "/repo/model/libsvm_nu_svr_model.txt".into())
}
/// the driver keeps variants of the default model beside the cases' scratch files
#[allow(dead_code)]
pub fn model_named(name: &str) -> String {
    match name {
        "default" => model_path(),
        n => std::env::var("VH_MODELS").expect("harness: VH_MODELS") + "/" + n + ".txt",
    }
}
impl AnyManager {
    pub fn new(mode: &str, radius: usize) -> Self {
        match mode {
            "audio" => AnyManager::Audio(VisqolManager::new(Variant::Fullband { model_path: model_path() }, radius)),
            "speech" => AnyManager::Speech(VisqolManager::new(Variant::Wideband { use_unscaled_mos_mapping: false }, radius)),
            "unscaled" => AnyManager::Speech(VisqolManager::new(Variant::Wideband { use_unscaled_mos_mapping: true }, radius)),
            m => panic!("harness: mode {m}"),
        }
    }
    pub fn run(&mut self, a: &str, b: &str) -> Result<SimilarityResult, Box<dyn std::error::Error>> {
        match self {
            AnyManager::Speech(m) => m.run(a, b),
            AnyManager::Audio(m) => m.run(a, b),
        }
    }
}
// the signal type is not nameable through the public API, so these are macros
#[macro_export]
macro_rules! compute {
    ($m:expr, $r:expr, $d:expr) => {
        match $m {
            $crate::pipe::AnyManager::Speech(m) => m.compute_results($r, $d),
            $crate::pipe::AnyManager::Audio(m) => m.compute_results($r, $d),
        }
    };
}

/// Plain copies of the public result fields.
pub mod visqol_rs_patch {
    use super::*;
    pub struct P {
        pub means: Vec<f64>,
        pub stds: Vec<f64>,
        pub energy: Vec<f64>,
        pub sim: f64,
        pub rs: f64,
        pub re: f64,
        pub ds: f64,
        pub de: f64,
    }
    pub fn list(ps: &[P]) -> Value { list_with(ps, 0.02) }
    /// `frame`: frame duration in seconds; `nf` is the number of frames a patch spans, rounded up
    pub fn list_with(ps: &[P], frame: f64) -> Value {
        Value::from(
            ps.iter()
                .map(|p| {
                    json!({"nf": q(((p.re - p.rs) / frame).ceil(), 1.0), "sim": q(p.sim, SIM), "rs": q(p.rs, TIME), "re": q(p.re, TIME), "ds": q(p.ds, TIME), "de": q(p.de, TIME),
                           "means": qv(&p.means, SIM), "stds": qv(&p.stds, SIM), "en": qv(&p.energy, ENERGY)})
                })
                .collect::<Vec<_>>(),
        )
    }
}
#[macro_export]
macro_rules! plain {
    ($ps:expr) => {
        $ps.iter()
            .map(|p| $crate::pipe::visqol_rs_patch::P {
                means: p.freq_band_means.clone(),
                stds: p.freq_band_stddevs.clone(),
                energy: p.freq_band_deg_energy.clone(),
                sim: p.similarity,
                rs: p.ref_patch_start_time,
                re: p.ref_patch_end_time,
                ds: p.deg_patch_start_time,
                de: p.deg_patch_end_time,
            })
            .collect::<Vec<_>>()
    };
}

pub fn result_json(r: &SimilarityResult, frame: f64) -> Value {
    json!({"mos": q(r.moslqo, MOS), "mosone": r.moslqo == 1.0, "vnsim": q(r.vnsim, SIM), "fvnsim": qv(&r.fvnsim, SIM), "fstd": qv(&r.fstdnsim, SIM),
           "fen": qv(&r.fvdegenergy, ENERGY), "centers": qv(&r.center_freq_bands, 1e4),
           "patches": visqol_rs_patch::list_with(&plain!(r.patch_sims), frame)})
}

pub fn frame_duration(sr: u32) -> f64 { ((sr as f64 * 0.08).round() * 0.25).floor() / sr as f64 }

pub fn end_event(sr: u32, out: Result<Result<SimilarityResult, Box<dyn std::error::Error>>, String>) -> Value {
    match out {
        Err(p) => json!({"ev": "End", "out": "panic", "text": p}),
        Ok(Err(e)) => json!({"ev": "End", "out": "err", "err": error(e.as_ref())}),
        Ok(Ok(r)) => json!({"ev": "End", "out": "ok", "res": result_json(&r, frame_duration(sr))}),
    }
}

pub struct Case {
    pub sr: u32,
    pub sr_deg: u32,
    pub reference: Vec<f64>,
    pub degraded: Vec<f64>,
    pub fref: PathBuf,
    pub fdeg: PathBuf,
}

pub fn prepare(case: &Value, dir: &Path) -> Case {
    let sr = int(case, "sr", 8000) as u32;
    let sr_deg = int(case, "srdeg", sr as i64) as u32;
    let reference = degrade(sr, &make(sr, &case["ref"]), &case["refops"]);
    let degraded = degrade(sr, &reference, &case["deg"]);
    let id = int(case, "id", 0);
    let ch = int(case, "ch", 1) as u16;
    let chd = int(case, "chdeg", ch as i64) as u16;
    let fref = dir.join(format!("r{id}.wav"));
    let fdeg = dir.join(format!("d{id}.wav"));
    write_wav(&fref, sr, ch, &reference);
    write_wav(&fdeg, sr_deg, chd, &degraded);
    Case { sr, sr_deg, reference, degraded, fref, fdeg }
}

/// mean square of each hop-long chunk of the peak-normalised reference, on the 16-bit scale
fn chunk_power(c: &Case, hop: usize, start: usize) -> Vec<i64> {
    if hop == 0 {
        return vec![];
    }
    let max = c.reference.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let s: Vec<i64> = c
        .reference
        .iter()
        .skip(start)
        .map(|x| {
            let v = ((*x / 32767.0) / (max / 32767.0)) * 32768.0;
            (v as i16) as i64
        })
        .collect();
    s.chunks(hop)
        .filter(|k| k.len() == hop)
        .map(|k| (k.iter().map(|v| v * v).sum::<i64>() / hop as i64).min(2_000_000_000))
        .collect()
}

/// search radius in patches; "rbig" selects values beyond the range of the recipes
pub fn radius_of(case: &Value) -> usize {
    match int(case, "rbig", 0) {
        1 => usize::MAX,
        2 => 4_294_967_297,
        3 => 2_147_483_648,
        4 => 4_294_967_296,
        _ => int(case, "radius", 60).max(0) as usize,
    }
}

pub fn begin_event(case: &Value, c: &Case) -> Value {
    let w = (c.sr as f64 * 0.08).round() as usize;
    let hop = w / 4;
    json!({"ev": "Begin", "id": int(case, "id", 0), "fam": text(case, "fam", ""), "mode": text(case, "mode", "speech"),
           "radius": radius_of(case).min(2_000_000_000), "sr": c.sr, "srdeg": c.sr_deg, "nref": c.reference.len(), "ndeg": c.degraded.len(),
           "win": w, "hop": hop, "power": chunk_power(c, hop, 14),
           "silentdeg": c.degraded.iter().all(|x| *x == 0.0), "silentref": c.reference.iter().all(|x| *x == 0.0),
           "same": c.reference == c.degraded,
           "want": case.get("want").cloned().unwrap_or(json!({})),
           "shift": int(case, "shift", 99_999_999)})
}

/// One comparison: a list of events from Begin to End.
pub fn run_case(case: &Value, dir: &Path) -> Vec<Value> {
    let c = prepare(case, dir);
    let mut evs = vec![begin_event(case, &c)];
    let mode = text(case, "mode", "speech").to_string();
    let radius = radius_of(case);
    let probes = crate::probe::start(case, &c);
    let out = guarded(|| -> Result<SimilarityResult, Box<dyn std::error::Error>> {
        let mut m = AnyManager::new(&mode, radius);
        if let Some(g) = case.get("fgain") {
            // level changes without requantisation go through compute_results
            let mut a = visqol_rs::audio_utils::load_as_mono(c.fref.to_str().unwrap())?;
            let mut b = visqol_rs::audio_utils::load_as_mono(c.fdeg.to_str().unwrap())?;
            let k = num(g, "num", 1.0) / num(g, "den", 1.0);
            b.data_matrix.mapv_inplace(|x| x * k);
            compute!(&mut m, &mut a, &mut b)
        } else {
            m.run(c.fref.to_str().unwrap(), c.fdeg.to_str().unwrap())
        }
    });
    evs.extend(crate::probe::stop(probes));
    evs.push(end_event(c.sr, out));
    let _ = std::fs::remove_file(&c.fref);
    let _ = std::fs::remove_file(&c.fdeg);
    evs
}
