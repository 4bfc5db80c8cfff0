//! Cases for single steps of the algorithm.
use crate::enc::*;
use crate::pipe::guarded;
use crate::synth::*;
use serde_json::{json, Value};
use std::path::Path;

pub fn run_case(case: &Value, dir: &Path) -> Vec<Value> {
    let kind = text(case, "u", "").to_string();
    let r = match kind.as_str() {
        "wav" => wav(case, dir),
        _ => private(&kind, case),
    };
    vec![r]
}

/// A WAV file written byte by byte, so that every field can be chosen.
pub fn wav_bytes(case: &Value) -> Vec<u8> {
    let ch = int(case, "ch", 1) as u16;
    let sr = int(case, "sr", 8000) as u32;
    let bits = int(case, "bits", 16) as u16;
    let tag = int(case, "tag", 1) as u16; // 1 PCM, 3 float, 0xFFFE extensible
    let bytes = (bits as usize).div_ceil(8);
    let mut data: Vec<u8> = vec![];
    for x in ints(&case["data"]) {
        match bytes {
            1 => data.push((x + 128) as u8),
            2 => data.extend_from_slice(&(x as i16).to_le_bytes()),
            3 => data.extend_from_slice(&(x as i32).to_le_bytes()[..3]),
            _ => data.extend_from_slice(&(x as i32).to_le_bytes()),
        }
    }
    let declared = data.len() as i64 + int(case, "declare", 0); // data length in the header relative to the real one
    let mut fmt: Vec<u8> = vec![];
    let block = ch * bytes as u16;
    fmt.extend(tag.to_le_bytes());
    fmt.extend(ch.to_le_bytes());
    fmt.extend(sr.to_le_bytes());
    fmt.extend((sr * block as u32).to_le_bytes());
    fmt.extend(block.to_le_bytes());
    fmt.extend(bits.to_le_bytes());
    if tag == 0xFFFE {
        fmt.extend(22u16.to_le_bytes());
        fmt.extend(bits.to_le_bytes());
        fmt.extend(((1u64 << ch) as u32 - 1).to_le_bytes());
        fmt.extend([1, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71]);
    }
    let mut body: Vec<u8> = b"WAVE".to_vec();
    let chunk = |b: &mut Vec<u8>, id: &[u8], len: u32, d: &[u8]| {
        b.extend(id);
        b.extend(len.to_le_bytes());
        b.extend(d);
        if d.len() % 2 == 1 {
            b.push(0);
        }
    };
    if int(case, "junk", 0) == 1 {
        chunk(&mut body, b"LIST", 10, &[7; 10]);
    }
    if text(case, "break", "") != "nofmt" {
        chunk(&mut body, b"fmt ", fmt.len() as u32, &fmt);
    }
    if int(case, "junk", 0) == 2 {
        chunk(&mut body, b"fact", 4, &[1, 0, 0, 0]);
    }
    if text(case, "break", "") != "nodata" {
        chunk(&mut body, b"data", declared.max(0) as u32, &data);
    }
    if int(case, "junk", 0) == 3 {
        chunk(&mut body, b"LIST", 6, &[9; 6]);
    }
    let mut f: Vec<u8> = if text(case, "break", "") == "noriff" { b"RIFX".to_vec() } else { b"RIFF".to_vec() };
    f.extend((body.len() as u32).to_le_bytes());
    f.extend(body);
    let keep = int(case, "keep", -1);
    if keep >= 0 {
        f.truncate(keep as usize);
    }
    f
}

fn wav(case: &Value, dir: &Path) -> Value {
    let id = int(case, "id", 0);
    let path = dir.join(format!("w{id}{}", text(case, "name", ".wav")));
    match text(case, "break", "") {
        "missing" => {}
        "dir" => std::fs::create_dir_all(&path).expect("harness: dir"),
        "text" => std::fs::write(&path, b"reference,degraded\n").expect("harness: write"),
        "empty" => std::fs::write(&path, b"").expect("harness: write"),
        _ => std::fs::write(&path, wav_bytes(case)).expect("harness: write"),
    }
    let ch = int(case, "ch", 1).max(1);
    let p = path.to_str().unwrap().to_string();
    // reference side, degraded side and the loader itself see the same file
    let out = guarded(|| visqol_rs::audio_utils::load_as_mono(&p));
    let mut e = json!({"ev": "Load", "id": id, "ch": ch, "sr": int(case, "sr", 8000), "bits": int(case, "bits", 16), "tag": int(case, "tag", 1), "in": case["data"],
                       "break": text(case, "break", ""), "declare": int(case, "declare", 0), "keep": int(case, "keep", -1), "fam": text(case, "fam", "")});
    match out {
        Err(t) => {
            e["out"] = json!("panic");
            e["text"] = json!(t);
        }
        Ok(Err(x)) => {
            e["out"] = json!("err");
            e["err"] = error(x.as_ref());
        }
        Ok(Ok(s)) => {
            let k = 32767.0 * ch as f64;
            e["out"] = json!("ok");
            e["rate"] = json!(s.sample_rate);
            e["sum"] = json!(s.data_matrix.iter().map(|x| q(*x, k)).collect::<Vec<_>>());
            e["exact"] = json!(s.data_matrix.iter().all(|x| (x * k - (x * k).round()).abs() < 1e-6));
        }
    }
    // a whole comparison with this file on either side must also end in a value
    if case.get("compare").is_some() {
        let good = dir.join(format!("w{id}-good.wav"));
        let gsr = int(case, "gsr", int(case, "sr", 8000)) as u32;
        let sig = make(gsr, &json!({"n": int(case, "gn", 9600), "parts": [{"k": "noise", "seed": 5, "amp": 9000}]}));
        write_wav(&good, gsr, 1, &sig);
        let g = good.to_str().unwrap().to_string();
        for (name, a, b) in [("asref", &p, &g), ("asdeg", &g, &p)] {
            let r = crate::pipe::end_event(gsr, guarded(|| crate::pipe::AnyManager::new(text(case, "mode", "speech"), 2).run(a, b)));
            e[name] = json!({"out": r["out"], "err": r.get("err").cloned().unwrap_or(json!({"kind": "", "nums": [], "text": r.get("text").cloned().unwrap_or(json!(""))}))});
        }
        e["gsr"] = json!(gsr);
        let _ = std::fs::remove_file(&good);
    }
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&path);
    e
}

#[cfg(not(feature = "priv"))]
fn private(kind: &str, _case: &Value) -> Value { json!({"ev": "Skip", "u": kind}) }

#[cfg(feature = "priv")]
fn private(kind: &str, case: &Value) -> Value {
    let r = guarded(|| on::run(kind, case));
    match r {
        Ok(mut v) => {
            v["id"] = json!(int(case, "id", 0));
            v["fam"] = json!(text(case, "fam", ""));
            v["out"] = v.get("out").cloned().unwrap_or(json!("ok"));
            v
        }
        Err(t) => json!({"ev": kind, "id": int(case, "id", 0), "fam": text(case, "fam", ""), "out": "panic", "text": t, "in": case}),
    }
}

#[cfg(feature = "priv")]
pub use on::{frames_local, smatrix};

#[cfg(feature = "priv")]
mod on {
    use super::*;
    use crate::pipe::*;
    use crate::plain;
    use ndarray::{s, Array1, Array2};
    use visqol_rs::constants::{NUM_BANDS_AUDIO, NUM_BANDS_SPEECH};
    use visqol_rs::verif_hooks::*;

    fn matrix(v: &Value, scale: f64) -> Array2<f64> {
        let rows: Vec<Vec<f64>> = v.as_array().unwrap().iter().map(|r| ints(r).iter().map(|x| *x as f64 / scale).collect()).collect();
        let nc = rows[0].len();
        Array2::from_shape_vec((rows.len(), nc), rows.into_iter().flatten().collect()).unwrap()
    }
    fn signal(v: &Value, sr: u32) -> AudioSignal { AudioSignal::new(&ints(v).iter().map(|x| *x as f64).collect::<Vec<_>>(), sr) }

    pub fn run(kind: &str, case: &Value) -> Value {
        let sr = int(case, "sr", 8000) as u32;
        match kind {
            // the delay with the largest absolute cross-correlation
            "Lag" => {
                let f = |k: &str| ints(&case[k]).iter().map(|x| *x as f64).collect::<Vec<_>>();
                let l = calculate_best_lag(&f("a"), &f("b"));
                json!({"ev": "Lag", "a": case["a"], "b": case["b"], "lag": l.unwrap_or(NAN)})
            }
            "Galign" => {
                let (a, b) = (signal(&case["a"], sr), signal(&case["b"], sr));
                let a0 = a.data_matrix.clone();
                match globally_align(&a, &b) {
                    None => json!({"ev": "Galign", "a": case["a"], "b": case["b"], "out": "none"}),
                    Some((x, lag)) => json!({"ev": "Galign", "a": case["a"], "b": case["b"], "lag": q(lag * sr as f64, 1.0), "res": qv(&x.data_matrix.to_vec(), 1.0),
                        "rate": x.sample_rate, "sr": sr, "keep": a0 == a.data_matrix}),
                }
            }
            "Atrunc" => {
                let (a, b) = (signal(&case["a"], sr), signal(&case["b"], sr));
                match align_and_truncate(&a, &b) {
                    None => json!({"ev": "Atrunc", "a": case["a"], "b": case["b"], "out": "none"}),
                    Some((x, y, lag)) => json!({"ev": "Atrunc", "a": case["a"], "b": case["b"], "lag": q(lag * sr as f64, 1.0), "x": qv(&x.data_matrix.to_vec(), 1.0),
                        "y": qv(&y.data_matrix.to_vec(), 1.0), "sr": sr}),
                }
            }
            // chunks of integer samples -> activity
            "Vad" => {
                let mut v = RmsVad::default();
                let chunks: Vec<Vec<i64>> = case["chunks"].as_array().unwrap().iter().map(ints).collect();
                let unit = int(case, "unit", 1);
                for c in &chunks {
                    let c: Vec<i16> = c.iter().map(|x| (*x * unit) as i16).collect();
                    v.process_chunk(&c);
                }
                let r: Vec<i64> = v.get_vad_results().iter().map(|x| q(*x, 1.0)).collect();
                json!({"ev": "Vad", "chunks": case["chunks"], "unit": unit, "res": r})
            }
            // segmentation of a reference with the given spectrogram length
            "Seg" => {
                let frames = int(case, "frames", 50).max(0) as usize;
                let mode = text(case, "mode", "speech");
                let w = AnalysisWindow::new(sr, 0.25, 0.08);
                let hop = (w.size as f64 * 0.25) as usize;
                let n = w.size + frames.saturating_sub(1) * hop + int(case, "extra", 0) as usize;
                let mut spec = case["ref"].clone();
                spec["n"] = json!(n);
                let sig = AudioSignal::new(&make(sr, &spec).iter().map(|x| x / 32767.0).collect::<Vec<_>>(), sr);
                let s = Array2::<f64>::from_shape_fn((3, frames), |(b, t)| (b * 1000 + t) as f64);
                let pc: Box<dyn PatchCreator> =
                    if mode == "speech" { Box::new(VadPatchCreator::new(30)) } else { Box::new(ImagePatchCreator::new(20)) };
                match pc.create_ref_patch_indices(&s, &sig, &w) {
                    Err(e) => json!({"ev": "Seg", "mode": mode, "frames": frames, "err": error(&e), "out": "err", "power": power(&sig, hop)}),
                    Ok(idx) => {
                        let ps = pc.create_patches_from_indices(&s, &idx);
                        let same = ps.len() == idx.len()
                            && ps.iter().zip(&idx).all(|(p, i)| i + p.ncols() <= frames && p == s.slice(s![.., *i..i + p.ncols()]));
                        json!({"ev": "Seg", "mode": mode, "frames": frames, "idx": idx, "cols": ps.iter().map(|p| p.ncols()).collect::<Vec<_>>(), "same": same, "power": power(&sig, hop)})
                    }
                }
            }
            // noise floor on spectrograms given in 1/100 dB
            "Floor" => {
                let lin = |m: Array2<f64>| m.map(|x| if *x <= -1000.0 { 0.0 } else { 10f64.powf(*x / 10.0) });
                let mut r = Spectrogram::new(lin(matrix(&case["r"], 100.0)), vec![]);
                let mut d = Spectrogram::new(lin(matrix(&case["d"], 100.0)), vec![]);
                prepare_spectrograms_for_comparison(&mut r, &mut d);
                json!({"ev": "Floor", "r": case["r"], "d": case["d"], "outr": qm(&r.data, DB), "outd": qm(&d.data, DB)})
            }
            // patch similarity on values given in 1/scale units
            "Nsim" => {
                let sc = num(case, "scale", 1.0);
                let (mut r, mut d) = (matrix(&case["r"], sc), matrix(&case["d"], sc));
                let (r0, d0) = (r.clone(), d.clone());
                let n = NeurogramSimiliarityIndexMeasure::default();
                let a = n.measure_patch_similarity(&mut r, &mut d);
                let keep = r == r0 && d == d0;
                let b = n.measure_patch_similarity(&mut d, &mut r);
                json!({"ev": "Nsim", "r": case["r"], "d": case["d"], "judge": case["judge"], "scale": int(case, "scale", 1), "sim": q(a.similarity, SIM), "means": qv(&a.freq_band_means, SIM),
                       "stds": qv(&a.freq_band_stddevs, SIM), "en": qv(&a.freq_band_deg_energy, ENERGY), "back": q(b.similarity, SIM), "keep": keep})
            }
            // matching on spectrograms given in small integers
            "Select" => {
                let r = matrix(&case["r"], 1.0);
                let d = matrix(&case["d"], 1.0);
                let p = int(case, "p", 4) as usize;
                let mut idx: Vec<usize> = ints(&case["idx"]).iter().map(|x| *x as usize).collect();
                let mut pats: Vec<Array2<f64>> = idx.iter().map(|i| r.slice(s![.., *i..i + p]).to_owned()).collect();
                let sel = ComparisonPatchesSelector::new(NeurogramSimiliarityIndexMeasure::default());
                let sm = smatrix(&pats, &d);
                let fd = 0.02;
                let mut e = json!({"ev": "Select", "p": p, "idx": case["idx"], "radius": int(case, "radius", 1), "fdeg": d.ncols(), "s": sm});
                match sel.find_most_optimal_deg_patches(&mut pats, &mut idx, &d, fd, int(case, "radius", 1) as i32) {
                    Err(x) => {
                        e["out"] = json!("err");
                        e["err"] = error(&x);
                    }
                    Ok(ps) => {
                        e["out"] = json!("ok");
                        e["res"] = visqol_rs_patch::list(&plain!(ps));
                    }
                }
                e
            }
            // quality mapping of similarity vectors in 1e-7
            "Map" => {
                let v: Vec<f64> = ints(&case["v"]).iter().map(|x| *x as f64 / SIM).collect();
                let scaled = SpeechSimilarityToQualityMapper::new(true).predict_quality(&v);
                let unscaled = SpeechSimilarityToQualityMapper::new(false).predict_quality(&v);
                let name = text(case, "model", "default");
                let svr = if v.len() == NUM_BANDS_AUDIO { SvrSimilarityToQualityMapper::new(&model_named(name)).predict_quality(&v) } else { f64::NAN };
                json!({"ev": "Map", "model": name, "v": case["v"], "scaled": q(scaled, MOS), "unscaled": q(unscaled, MOS), "svr": q(svr, MOS)})
            }
            "Level" => {
                let a = AudioSignal::new(&make(sr, &case["ref"]).iter().map(|x| x / 32767.0).collect::<Vec<_>>(), sr);
                let k = num(case, "num", 1.0) / num(case, "den", 1.0);
                let b0 = degrade(sr, &make(sr, &case["ref"]), &case["deg"]);
                let b = AudioSignal::new(&b0.iter().map(|x| x / 32767.0 * k).collect::<Vec<_>>(), sr);
                let o = scale_to_match_sound_pressure_level(&a, &b);
                let rms = |x: &Array1<f64>| (x.iter().map(|v| v * v).sum::<f64>() / x.len().max(1) as f64).sqrt();
                let (ra, rb, ro) = (rms(&a.data_matrix), rms(&b.data_matrix), rms(&o.data_matrix));
                let g = if rb == 0.0 { 1.0 } else { ro / rb };
                json!({"ev": "Level", "silentdeg": rb == 0.0, "silentref": ra == 0.0, "len": o.len(), "nb": b.len(), "rate": o.sample_rate, "sr": sr,
                       "rmsppb": if ra == 0.0 || rb == 0.0 { if ro == 0.0 {0} else {NAN} } else { q(ro / ra - 1.0, 1e9) },
                       "prop": o.data_matrix.iter().zip(b.data_matrix.iter()).all(|(x, y)| (x - y * g).abs() <= 1e-9 * (1.0 + x.abs()))})
            }
            "Spec" => {
                if text(case, "mode", "speech") == "audio" {
                    spec::<NUM_BANDS_AUDIO>(case, sr)
                } else {
                    spec::<NUM_BANDS_SPEECH>(case, sr)
                }
            }
            k => panic!("harness: unknown unit {k}"),
        }
    }

    /// similarity of every reference patch to every offset of the degraded spectrogram
    pub fn smatrix(patches: &[Array2<f64>], deg: &Array2<f64>) -> Value {
        let nsim = NeurogramSimiliarityIndexMeasure::default();
        Value::from(
            patches
                .iter()
                .map(|p| {
                    (0..deg.ncols())
                        .map(|j| {
                            let mut d = Array2::<f64>::zeros((deg.nrows(), p.ncols()));
                            for c in 0..p.ncols().min(deg.ncols() - j) {
                                d.column_mut(c).assign(&deg.column(j + c));
                            }
                            let r = guarded(|| nsim.measure_patch_similarity(&mut p.clone(), &mut d).similarity);
                            q(r.unwrap_or(f64::NAN), SIM)
                        })
                        .collect::<Vec<_>>()
                })
                .collect::<Vec<_>>(),
        )
    }

    fn power(sig: &AudioSignal, hop: usize) -> Vec<i64> {
        let max = sig.data_matrix.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let s: Vec<i64> = sig.data_matrix.iter().skip(14).map(|x| ((x / max * 32768.0) as i16) as i64).collect();
        s.chunks(hop).filter(|k| k.len() == hop).map(|k| (k.iter().map(|v| v * v).sum::<i64>() / hop as i64).min(2_000_000_000)).collect()
    }

    fn build<const N: usize>(b: &mut GammatoneSpectrogramBuilder<N>, x: &[f64], sr: u32) -> Result<Spectrogram, VisqolError> {
        let w = AnalysisWindow::new(sr, 0.25, 0.08);
        b.build(&AudioSignal::new(x, sr), &w)
    }

    /// Chosen frames of a spectrogram compared with the same samples alone: largest relative deviation in 1e-9.
    pub fn frames_local(audio: bool, sr: u32, x: &[f64], s: &Array2<f64>) -> i64 {
        if audio { local::<NUM_BANDS_AUDIO>(sr, x, s) } else { local::<NUM_BANDS_SPEECH>(sr, x, s) }
    }

    fn local<const N: usize>(sr: u32, x: &[f64], s: &Array2<f64>) -> i64 {
        let w = AnalysisWindow::new(sr, 0.25, 0.08);
        let hop = w.size / 4;
        let n = s.ncols();
        let mut at: Vec<usize> = (0..n).filter(|k| k % 64 == 0 || k % 100 == 0 || k % 37 == 36 || k + 1 == n).collect();
        at.truncate(60);
        let mut worst = 0.0f64;
        for k in at {
            let a = k * hop;
            if a + w.size > x.len() {
                return NAN.abs();
            }
            let mut b = GammatoneSpectrogramBuilder::<N>::new(GammatoneFilterbank::<N>::new(50.0));
            match build(&mut b, &x[a..a + w.size], sr) {
                Ok(o) if o.data.dim() == (s.nrows(), 1) => {
                    let scale = o.data.iter().chain(s.column(k).iter()).cloned().fold(1e-12, f64::max);
                    worst = o.data.iter().zip(s.column(k).iter()).map(|(p, q)| (p - q).abs() / scale).fold(worst, |u, v| if v > u || v.is_nan() { v } else { u });
                }
                _ => return NAN.abs(),
            }
        }
        q(worst, 1e9).abs()
    }

    /// Relations a spectrogram must satisfy, each reported as the largest relative deviation in 1e-9.
    fn spec<const N: usize>(case: &Value, sr: u32) -> Value {
        let fresh = || GammatoneSpectrogramBuilder::<N>::new(GammatoneFilterbank::<N>::new(50.0));
        let x: Vec<f64> = make(sr, &case["ref"]).iter().map(|v| v / 32767.0).collect();
        let w = AnalysisWindow::new(sr, 0.25, 0.08);
        let hop = w.size / 4;
        let mut b = fresh();
        let mut e = json!({"ev": "Spec", "mode": text(case, "mode", "speech"), "n": x.len(), "sr": sr, "bands": N, "win": w.size,
            "silent": x.iter().all(|v| *v == 0.0), "tone": int(case, "tone", 0)});
        let s = match build(&mut b, &x, sr) {
            Err(er) => {
                e["out"] = json!("err");
                e["err"] = error(&er);
                return e;
            }
            Ok(s) => s,
        };
        let peak = s.data.iter().cloned().fold(0.0, f64::max);
        let dev = |a: &Array2<f64>, b: &Array2<f64>| -> i64 {
            if a.dim() != b.dim() {
                return NAN;
            }
            let scale = a.iter().chain(b.iter()).cloned().fold(1e-12, f64::max);
            let d = a.iter().zip(b.iter()).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
            q(d / scale, 1e9)
        };
        e["frames"] = json!(s.data.ncols());
        e["rows"] = json!(s.data.nrows());
        e["centers"] = qv(&s.center_freq_bands, 1e4);
        e["sane"] = json!(s.data.iter().all(|v| v.is_finite() && *v >= 0.0));
        e["zero"] = json!(peak == 0.0);
        e["loudest"] = json!((0..s.data.nrows())
            .max_by(|i, j| s.data.row(*i).sum().partial_cmp(&s.data.row(*j).sum()).unwrap_or(std::cmp::Ordering::Equal))
            .map(|i| i + 1));
        // same builder again
        e["again"] = json!(build(&mut b, &x, sr).map(|t| dev(&s.data, &t.data)).unwrap_or(NAN));
        // every frame on its own
        let mut worst = 0;
        for k in 0..s.data.ncols() {
            let a = k * hop;
            let one = build(&mut fresh(), &x[a..a + w.size], sr);
            match one {
                Ok(o) if o.data.ncols() == 1 => {
                    worst = worst.max(dev(&s.data.slice(s![.., k..k + 1]).to_owned(), &o.data).abs());
                }
                _ => worst = NAN.abs(),
            }
        }
        e["local"] = json!(worst);
        // scaled signal
        let y: Vec<f64> = x.iter().map(|v| v * 0.25).collect();
        e["linear"] = json!(build(&mut fresh(), &y, sr).map(|t| dev(&s.data.map(|v| v * 0.25), &t.data)).unwrap_or(NAN));
        // other levels, far beyond full scale and close to nothing
        for g in [0.001, 0.9, 3.7, 40.0] {
            let y: Vec<f64> = x.iter().map(|v| v * g).collect();
            let d = build(&mut fresh(), &y, sr).map(|t| dev(&s.data.map(|v| v * g), &t.data)).unwrap_or(NAN);
            if d.abs() > e["linear"].as_i64().unwrap_or(0).abs() {
                e["linear"] = json!(d);
            }
        }
        // the same builder after a loud signal of another rate and a rejected one
        let other = if sr == 16000 { 11025 } else { 16000 };
        let loud: Vec<f64> = (0..AnalysisWindow::new(other, 0.25, 0.08).size * 2).map(|i| if i % 5 < 2 { 1.0 } else { -0.7 }).collect();
        let _ = build(&mut b, &loud, other);
        let _ = build(&mut b, &loud[..9], other);
        let after = build(&mut b, &x, sr).map(|t| if t.center_freq_bands == s.center_freq_bands { dev(&s.data, &t.data) } else { NAN }).unwrap_or(NAN);
        if after.abs() > e["again"].as_i64().unwrap_or(0).abs() {
            e["again"] = json!(after);
        }
        // negated signal
        let y: Vec<f64> = x.iter().map(|v| -v).collect();
        e["sign"] = json!(build(&mut fresh(), &y, sr).map(|t| dev(&s.data, &t.data)).unwrap_or(NAN));
        // one hop later
        if x.len() >= w.size + hop {
            let t = build(&mut fresh(), &x[hop..], sr);
            e["shift"] = json!(t.map(|t| dev(&s.data.slice(s![.., 1..]).to_owned(), &t.data)).unwrap_or(NAN));
        } else {
            e["shift"] = json!(0);
        }
        e
    }
}
