//! Deterministic test signals, described by small JSON recipes (16-bit sample units).
use serde_json::Value;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in [-1, 1)
    pub fn sym(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 52) as f64 - 1.0 }
}

pub fn int(v: &Value, k: &str, d: i64) -> i64 { v.get(k).and_then(|x| x.as_i64()).unwrap_or(d) }
pub fn num(v: &Value, k: &str, d: f64) -> f64 { v.get(k).and_then(|x| x.as_f64()).unwrap_or(d) }
pub fn text<'a>(v: &'a Value, k: &str, d: &'a str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or(d)
}
pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}

fn add(buf: &mut [f64], from: i64, to: i64, mut f: impl FnMut(usize) -> f64) {
    let n = buf.len() as i64;
    let (a, b) = (from.clamp(0, n) as usize, to.clamp(0, n) as usize);
    for i in a..b {
        buf[i] += f(i);
    }
}

/// A recipe is {"n", "parts": [{"k": ...}]}; every part adds to the buffer or reshapes it.
pub fn make(sr: u32, spec: &Value) -> Vec<f64> {
    let n = int(spec, "n", 0).max(0) as usize;
    let mut buf = vec![0.0; n];
    let none = vec![];
    for p in spec.get("parts").and_then(|x| x.as_array()).unwrap_or(&none) {
        let from = int(p, "from", 0);
        let to = int(p, "to", n as i64);
        let amp = num(p, "amp", 8000.0);
        let srf = sr as f64;
        match text(p, "k", "") {
            "noise" => {
                let mut r = Rng::new(int(p, "seed", 1) as u64);
                add(&mut buf, from, to, |_| amp * r.sym());
            }
            "tone" => {
                let f = num(p, "f", 440.0);
                let ph = num(p, "phase", 0.0);
                add(&mut buf, from, to, |i| amp * (2.0 * std::f64::consts::PI * f * i as f64 / srf + ph).sin());
            }
            "chirp" => {
                let f0 = num(p, "f0", 100.0);
                let f1 = num(p, "f1", 3000.0);
                let d = n.max(1) as f64 / srf;
                add(&mut buf, from, to, |i| {
                    let t = i as f64 / srf;
                    amp * (2.0 * std::f64::consts::PI * (f0 * t + (f1 - f0) * t * t / (2.0 * d))).sin()
                });
            }
            // speech-like: several harmonics and noise under a random syllabic envelope
            "speech" => {
                let seed = int(p, "seed", 1) as u64;
                let mut r = Rng::new(seed);
                let f0 = 110.0 + 60.0 * (r.sym() + 1.0);
                let syl = (srf * num(p, "syl", 0.13)) as usize;
                let mut env = vec![];
                while env.len() * syl.max(1) <= n + syl {
                    env.push(0.25 + 0.75 * (r.sym() + 1.0) / 2.0);
                }
                let forms: Vec<f64> = (0..env.len()).map(|_| 300.0 + 1400.0 * (r.sym() + 1.0)).collect();
                add(&mut buf, from, to, |i| {
                    let t = i as f64 / srf;
                    let s = i / syl.max(1);
                    let w = (i % syl.max(1)) as f64 / syl.max(1) as f64;
                    let e = env[s] * (1.0 - w) + env[s + 1] * w;
                    let ff = forms[s] * (1.0 - w) + forms[s + 1] * w;
                    let vib = 1.0 + 0.02 * (2.0 * std::f64::consts::PI * 4.3 * t).sin();
                    let mut x = 0.35 * r.sym();
                    for h in 1..=6 {
                        let f = f0 * h as f64;
                        let g = 1.0 / (1.0 + ((f - ff) / 400.0).powi(2));
                        x += (0.15 + g) * (2.0 * std::f64::consts::PI * f * vib * t).sin() / 2.0;
                    }
                    amp * e * x / 2.5
                });
            }
            // square wave of exact amplitude (RMS = amp) with the given half period
            "square" => {
                let h = int(p, "half", 4).max(1) as usize;
                add(&mut buf, from, to, |i| if (i / h) % 2 == 0 { amp } else { -amp });
            }
            "dc" => add(&mut buf, from, to, |_| amp),
            "pulse" => {
                let at = int(p, "at", 0);
                add(&mut buf, at, at + 1, |_| amp);
            }
            "set" => {
                for (i, x) in ints(&p["data"]).into_iter().enumerate() {
                    let i = i + from.max(0) as usize;
                    if i < n {
                        buf[i] = x as f64;
                    }
                }
            }
            // per-chunk amplitudes: multiplies what is there by a[c] / 1000 in chunk c
            "shape" => {
                let hop = int(p, "hop", 160).max(1);
                let off = int(p, "off", 0);
                for (c, a) in ints(&p["a"]).into_iter().enumerate() {
                    let s = off + c as i64 * hop;
                    for i in s.max(0)..(s + hop).min(n as i64) {
                        buf[i as usize] *= a as f64 / 1000.0;
                    }
                }
            }
            "gate" => gate(&mut buf, p),
            other => panic!("harness: unknown part {other}"),
        }
    }
    quantise(&mut buf);
    buf
}

/// keeps every other block of `half` samples, the others at `low` thousandths
fn gate(x: &mut [f64], p: &Value) {
    let half = int(p, "half", 800).max(1);
    let phase = int(p, "phase", 0);
    let low = num(p, "low", 0.0) / 1000.0;
    for (i, v) in x.iter_mut().enumerate() {
        if (i as i64 / half + phase) % 2 != 0 {
            *v *= low;
        }
    }
}

pub fn quantise(buf: &mut [f64]) { buf.iter_mut().for_each(|x| *x = x.round().clamp(-32768.0, 32767.0)) }

/// Degradations applied in order to a copy of the reference.
pub fn degrade(sr: u32, reference: &[f64], ops: &Value) -> Vec<f64> {
    let mut x = reference.to_vec();
    let none = vec![];
    for o in ops.as_array().unwrap_or(&none) {
        let n = int(o, "n", 0).max(0) as usize;
        match text(o, "op", "") {
            "make" => x = make(sr, &o["sig"]),
            "delay" => {
                let mut y = vec![0.0; n];
                y.extend_from_slice(&x);
                x = y;
            }
            "advance" => x = x[n.min(x.len())..].to_vec(),
            "append" => x.extend(std::iter::repeat(0.0).take(n)),
            "len" => x.resize(n, 0.0),
            "zero" => {
                let l = x.len() as i64;
                let (a, b) = (int(o, "from", 0).clamp(0, l), int(o, "to", l).clamp(0, l));
                if a < b {
                    x[a as usize..b as usize].fill(0.0);
                }
            }
            "cut" => {
                let l = x.len();
                let a = (int(o, "from", 0).max(0) as usize).min(l);
                let b = (a + n).min(l);
                x.drain(a..b);
            }
            "insert" => {
                let a = (int(o, "from", 0).max(0) as usize).min(x.len());
                let tail = x.split_off(a);
                x.extend(std::iter::repeat(0.0).take(n));
                x.extend(tail);
            }
            "noise" => {
                let mut r = Rng::new(int(o, "seed", 7) as u64);
                let amp = num(o, "amp", 500.0);
                let l = x.len() as i64;
                let (a, b) = (int(o, "from", 0).clamp(0, l), int(o, "to", l).clamp(0, l));
                for i in a..b {
                    x[i as usize] += amp * r.sym();
                }
            }
            "gain" => {
                let (a, b) = (num(o, "num", 1.0), num(o, "den", 1.0));
                x.iter_mut().for_each(|v| *v = *v * a / b);
            }
            // a first copy at another level, a pause of n samples, and the signal itself
            "again" => {
                let (a, b) = (num(o, "num", 1.0), num(o, "den", 1.0));
                let mut y: Vec<f64> = x.iter().map(|v| v * a / b).collect();
                y.extend(std::iter::repeat(0.0).take(n));
                y.extend_from_slice(&x);
                x = y;
            }
            "invert" => x.iter_mut().for_each(|v| *v = -*v),
            "reverse" => x.reverse(),
            "clip" => {
                let a = num(o, "amp", 3000.0);
                x.iter_mut().for_each(|v| *v = v.clamp(-a, a));
            }
            "lowpass" => {
                let k = num(o, "k", 4.0).max(1.0);
                let mut s = 0.0;
                x.iter_mut().for_each(|v| {
                    s += (*v - s) / k;
                    *v = s;
                });
            }
            "crush" => {
                let q = num(o, "q", 1024.0);
                x.iter_mut().for_each(|v| *v = (*v / q).round() * q);
            }
            "swap" => {
                // exchange the two blocks [from, from+n) and [from2, from2+n)
                let a = int(o, "from", 0) as usize;
                let b = int(o, "from2", 0) as usize;
                for i in 0..n {
                    if a + i < x.len() && b + i < x.len() {
                        x.swap(a + i, b + i);
                    }
                }
            }
            "dc" => {
                let amp = num(o, "amp", 1000.0);
                x.iter_mut().for_each(|v| *v += amp);
            }
            "gate" => gate(&mut x, o),
            // the level of a stretch
            "level" => {
                let (a, b) = (num(o, "num", 1.0), num(o, "den", 1.0));
                let l = x.len() as i64;
                let (from, to) = (int(o, "from", 0).clamp(0, l), int(o, "to", l).clamp(0, l));
                for i in from..to {
                    x[i as usize] *= a / b;
                }
            }
            other => panic!("harness: unknown degradation {other}"),
        }
    }
    quantise(&mut x);
    x
}

pub fn write_wav(path: &std::path::Path, sr: u32, channels: u16, frames: &[f64]) {
    let spec = hound::WavSpec { channels, sample_rate: sr, bits_per_sample: 16, sample_format: hound::SampleFormat::Int };
    let mut w = hound::WavWriter::create(path, spec).expect("harness: cannot write wav");
    for x in frames {
        for _ in 0..channels {
            w.write_sample(*x as i16).expect("harness: cannot write sample");
        }
    }
    w.finalize().expect("harness: cannot finish wav");
}
