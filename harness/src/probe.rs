//! Records the guarded probes of one comparison (empty without the `probe` feature).
use crate::pipe::Case;
use serde_json::Value;

#[cfg(not(feature = "probe"))]
pub fn start(_case: &Value, _c: &Case) -> () {}
#[cfg(not(feature = "probe"))]
pub fn stop(_: ()) -> Vec<Value> { vec![] }

#[cfg(feature = "probe")]
pub use on::*;

#[cfg(feature = "probe")]
mod on {
    use super::*;
    use crate::enc::*;
    use crate::pipe::*;
    use crate::plain;
    use crate::synth::*;
    use ndarray::{s, Array2};
    use serde_json::json;
    use std::cell::RefCell;
    use std::rc::Rc;
    use visqol_rs::verif_hooks::{self as h, Probe};

    pub struct Rec {
        evs: Rc<RefCell<Vec<Value>>>,
    }

    fn rms(x: &ndarray::Array1<f64>) -> f64 { (x.iter().map(|v| v * v).sum::<f64>() / x.len().max(1) as f64).sqrt() }

    pub fn start(case: &Value, c: &Case) -> Rec {
        let evs = Rc::new(RefCell::new(vec![]));
        let out = evs.clone();
        let raw: Vec<f64> = c.degraded.iter().map(|x| x / 32767.0).collect();
        let reference: Vec<f64> = c.reference.iter().map(|x| x / 32767.0).collect();
        let gain = case.get("fgain").map(|g| num(g, "num", 1.0) / num(g, "den", 1.0)).unwrap_or(1.0);
        let reference_signal = reference.clone();
        let ref_rms = rms(&ndarray::Array1::from(reference.clone()));
        let want_s = case.get("smatrix").is_some();
        let want_m = case.get("matrix").is_some();
        let mut aligned: Vec<f64> = vec![];
        let mut matched: Vec<Vec<f64>> = vec![];
        let mut starts: Vec<(f64, f64)> = vec![];
        let mut scaled: Vec<f64> = vec![];
        let audio = text(case, "mode", "speech") == "audio";
        let sr = int(case, "sr", 8000) as u32;
        let mut candidates: Vec<(usize, Vec<f64>)> = vec![];
        let mut built: Option<(Array2<f64>, Array2<f64>)> = None;
        let mut prepared: Option<(Array2<f64>, Array2<f64>)> = None;
        let mut idx: Vec<usize> = vec![];
        h::set_sink(Some(Box::new(move |p: &Probe<'_>| {
            let e = match p {
                Probe::Aligned { deg } => {
                    aligned = deg.data_matrix.to_vec();
                    // which shift of the degraded signal is this?
                    let d = aligned.len() as i64 - raw.len() as i64;
                    let exact = if d >= 0 {
                        aligned[..d as usize].iter().all(|x| *x == 0.0)
                            && aligned[d as usize..].iter().zip(&raw).all(|(a, b)| (a - b * gain).abs() <= 1e-12)
                    } else {
                        aligned.iter().zip(&raw[(-d) as usize..]).all(|(a, b)| (a - b * gain).abs() <= 1e-12)
                    };
                    let scaled: Vec<f64> = raw.iter().map(|x| x * gain).collect();
                    let (gap, far) = crate::lags::judge(&reference, &scaled, d);
                    json!({"ev": "Aligned", "shift": d, "exact": exact, "ndeg": aligned.len(), "gap": q(gap, 1.0), "far": far})
                }
                Probe::Scaled { deg } => {
                    let r = rms(&deg.data_matrix);
                    let silent = aligned.iter().all(|x| *x == 0.0);
                    scaled = deg.data_matrix.to_vec();
                    let k = if silent { 1.0 } else { r / rms(&ndarray::Array1::from(aligned.clone())) };
                    let prop = deg.data_matrix.len() == aligned.len()
                        && deg.data_matrix.iter().zip(&aligned).all(|(a, b)| (a - b * k).abs() <= 1e-9 * (1.0 + a.abs()));
                    json!({"ev": "Scaled", "silent": silent, "prop": prop, "rmsppb": if silent || ref_rms == 0.0 { q(r - ref_rms, 0.0) } else { q(r / ref_rms - 1.0, 1e9) },
                           "refsilent": ref_rms == 0.0, "zero": r == 0.0})
                }
                Probe::Built { reference, degraded } => {
                    built = Some((reference.data.clone(), degraded.data.clone()));
                    let sane = |m: &Array2<f64>| m.iter().all(|x| x.is_finite() && *x >= 0.0);
                    let local = crate::unit::frames_local(audio, sr, &reference_signal, &reference.data).max(crate::unit::frames_local(audio, sr, &scaled, &degraded.data));
                    json!({"ev": "Built", "fref": reference.data.ncols(), "fdeg": degraded.data.ncols(), "bands": reference.data.nrows(), "bandsdeg": degraded.data.nrows(),
                           "sane": sane(&reference.data) && sane(&degraded.data), "local": local})
                }
                Probe::Prepared { reference, degraded } => {
                    prepared = Some((reference.data.clone(), degraded.data.clone()));
                    let m = |a: &Array2<f64>| a.iter().cloned().fold(f64::INFINITY, f64::min);
                    let mut e = json!({"ev": "Prepared", "min": q(m(&reference.data).min(m(&degraded.data)), 1e6),
                        "finite": reference.data.iter().chain(degraded.data.iter()).all(|x| x.is_finite())});
                    if want_m {
                        let (r, d) = built.as_ref().unwrap();
                        let db = |x: &f64| 10.0 * (if *x == 0.0 { f64::EPSILON } else { x.abs() }).log10();
                        e["inr"] = qm(&r.map(db), DB);
                        e["ind"] = qm(&d.map(db), DB);
                        e["outr"] = qm(&reference.data, DB);
                        e["outd"] = qm(&degraded.data, DB);
                    }
                    e
                }
                Probe::Segmented { indices } => {
                    idx = indices.to_vec();
                    json!({"ev": "Segmented", "idx": idx})
                }
                Probe::Cut { patches } => {
                    let spec = &prepared.as_ref().unwrap().0;
                    let same = patches.len() == idx.len()
                        && patches.iter().zip(&idx).all(|(p, i)| {
                            i + p.ncols() <= spec.ncols() && p.nrows() == spec.nrows() && p == spec.slice(s![.., *i..i + p.ncols()])
                        });
                    let mut e = json!({"ev": "Cut", "n": patches.len(), "cols": patches.iter().map(|p| p.ncols()).collect::<Vec<_>>(), "same": same});
                    if want_s {
                        e["s"] = crate::unit::smatrix(patches, &prepared.as_ref().unwrap().1);
                    }
                    e
                }
                Probe::Matched { patches } => {
                    matched = patches.iter().map(values).collect();
                    starts = patches.iter().map(|p| (p.ref_patch_start_time, p.deg_patch_start_time)).collect();
                    candidates.clear();
                    json!({"ev": "Matched", "p": visqol_rs_patch::list(&plain!(patches))})
                }
                Probe::Realigned { patch, result, ref_audio, deg_audio, ref_aligned, deg_aligned, lag_seconds, similarity } => {
                    let lag = (*lag_seconds * ref_audio.sample_rate as f64).round() as i64;
                    let (r, d) = (ref_audio.data_matrix.to_vec(), deg_audio.data_matrix.to_vec());
                    let (x, y) = (ref_aligned.data_matrix.to_vec(), deg_aligned.data_matrix.to_vec());
                    let (gap, far) = crate::lags::judge(&r, &d, lag);
                    candidates.push((*patch, values(result)));
                    json!({"ev": "Realigned", "cmp": matched.get(*patch).map(|o| if *similarity < o[0] { -1 } else if *similarity > o[0] { 1 } else { 0 }), "gap": q(gap, 1.0), "far": far, "i": patch + 1, "nref": r.len(), "ndeg": d.len(), "aref": x.len(), "adeg": y.len(),
                           "refcut": starts.get(*patch).map(|t| is_cut(&reference_signal, &r, t.0 * sr as f64)), "degcut": starts.get(*patch).map(|t| is_cut(&scaled, &d, t.1 * sr as f64)),
                           "lag": q(*lag_seconds * ref_audio.sample_rate as f64, 1.0), "sim": q(*similarity, SIM),
                           "refhead": is_part(&r, &x, 0), "reflag": is_part(&r, &x, lag),
                           "deghead": is_part(&d, &y, 0), "degshift": is_part(&d, &y, -lag)})
                }
                Probe::Refined { patches } => {
                    // whether the values of a patch (similarity, band figures) are those of before, those of its realignment, or both
                    let from = |i: usize, x: &Vec<f64>| {
                        let old = matched.get(i).map(|o| same(o, x)).unwrap_or(false);
                        let new = candidates.iter().any(|(k, c)| *k == i && same(c, x));
                        match (old, new) {
                            (true, true) => "both",
                            (true, false) => "old",
                            (false, true) => "new",
                            _ => "neither",
                        }
                    };
                    let origin: Vec<_> = patches.iter().enumerate().map(|(i, p)| from(i, &values(p))).collect();
                    json!({"ev": "Refined", "p": visqol_rs_patch::list(&plain!(patches)), "from": origin})
                }
            };
            out.borrow_mut().push(e);
        })));
        Rec { evs }
    }

    fn values(p: &h::PatchSimilarityResult) -> Vec<f64> {
        let mut v = vec![p.similarity];
        v.extend(p.freq_band_means.iter());
        v.extend(p.freq_band_stddevs.iter());
        v.extend(p.freq_band_deg_energy.iter());
        v
    }
    fn same(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan())) }

    /// `after` is `before` from sample `from` on (zeros before its first sample), possibly with the tail cut
    fn is_part(before: &[f64], after: &[f64], from: i64) -> bool {
        from + after.len() as i64 <= before.len() as i64
            && after.iter().enumerate().all(|(k, x)| {
                let at = from + k as i64;
                *x == if at < 0 { 0.0 } else { before[at as usize] }
            })
    }

    /// `cut` is the stretch of `whole` that begins at about sample `at`, followed by zeros where it ends
    fn is_cut(whole: &[f64], cut: &[f64], at: f64) -> bool {
        let k = at.round() as i64;
        (k - 1..=k + 1).any(|k| {
            cut.iter().enumerate().all(|(i, x)| {
                let j = k + i as i64;
                let y = if j >= 0 && (j as usize) < whole.len() { whole[j as usize] } else { 0.0 };
                (x - y).abs() <= 1e-9 * (1.0 + y.abs())
            })
        })
    }

    pub fn stop(r: Rec) -> Vec<Value> {
        h::set_sink(None);
        let v = r.evs.borrow().clone();
        v
    }
}
