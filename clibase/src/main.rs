//! One comparison with the library the command line tool links:
//!   clibase wideband|unscaled|fullband MODEL RADIUS REF DEG
//! prints {"ok": true, "score": ..., "details": {...}} or {"ok": false, "error": "..."}; a panic leaves nothing on stdout.
use visqol_rs::constants::{NUM_BANDS_AUDIO, NUM_BANDS_SPEECH};
use visqol_rs::variant::Variant;
use visqol_rs::visqol_manager::VisqolManager;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let radius: usize = a[3].parse().expect("radius");
    let r = match a[1].as_str() {
        "fullband" => VisqolManager::<NUM_BANDS_AUDIO>::new(Variant::Fullband { model_path: a[2].clone() }, radius).run(&a[4], &a[5]),
        m => VisqolManager::<NUM_BANDS_SPEECH>::new(Variant::Wideband { use_unscaled_mos_mapping: m == "unscaled" }, radius).run(&a[4], &a[5]),
    };
    match r {
        Ok(r) => println!("{}", serde_json::json!({"ok": true, "score": r.moslqo, "details": serde_json::to_value(&r).expect("json")})),
        Err(e) => println!("{}", serde_json::json!({"ok": false, "error": e.to_string(), "debug": format!("{e:?}")})),
    }
}
