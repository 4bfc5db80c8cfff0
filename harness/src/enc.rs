//! Encoding of observations for TLC, whose integers have 32 bits.
use serde_json::{json, Value};

pub const NAN: i64 = -2_147_000_000;
pub const LIM: f64 = 2_000_000_000.0;

/// x * scale, rounded; out-of-range values saturate and non-finite ones become NAN.
pub fn q(x: f64, scale: f64) -> i64 {
    if !x.is_finite() {
        NAN
    } else {
        (x * scale).round().clamp(-LIM, LIM) as i64
    }
}
pub fn qv(xs: &[f64], scale: f64) -> Value { Value::from(xs.iter().map(|x| q(*x, scale)).collect::<Vec<_>>()) }
pub fn qm(m: &ndarray::Array2<f64>, scale: f64) -> Value {
    Value::from(m.rows().into_iter().map(|r| r.iter().map(|x| q(*x, scale)).collect::<Vec<_>>()).collect::<Vec<_>>())
}

/// The cause and the values of an error, from its public description.
pub fn error(e: &(dyn std::error::Error + 'static)) -> Value {
    let text = e.to_string();
    let nums: Vec<i64> = {
        let mut v = vec![];
        let mut cur = String::new();
        for c in text.chars().chain(" ".chars()) {
            if c.is_ascii_digit() {
                cur.push(c)
            } else if !cur.is_empty() {
                v.push(cur.parse::<i64>().unwrap_or(i64::MAX).min(2_000_000_000));
                cur.clear()
            }
        }
        v
    };
    let low = text.to_lowercase();
    let kind = if low.contains("sample rates differ") {
        "rates"
    } else if low.contains("too short! found") {
        "samples"
    } else if low.contains("reference spectrum size") {
        "frames"
    } else if low.contains("too short, different, or misaligned") {
        "different"
    } else if low.contains("failed to align") {
        "align"
    } else if low.contains("quantized to 16 bit") {
        "bits"
    } else if low.contains("vad") {
        "vad"
    } else if e.downcast_ref::<std::io::Error>().is_some() || e.downcast_ref::<hound::Error>().is_some() {
        "file"
    } else {
        "other"
    };
    // the two numbers of a bit depth message are the fixed "16" and the found one
    let nums = if kind == "bits" { nums.into_iter().skip(1).collect() } else { nums };
    json!({"kind": kind, "nums": nums, "text": text.chars().take(160).collect::<String>()})
}
