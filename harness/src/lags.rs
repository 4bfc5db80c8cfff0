//! How good a delay is: correlation of amplitude envelopes, computed independently of the code under test.

/// amplitude envelope as spec/Delay.tla defines it, in floating point
pub fn envelope(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    let points = n.next_power_of_two().max(32);
    let mean = x.iter().sum::<f64>() / n as f64;
    let sign = |i: usize| if i % 2 == 0 { 1.0 } else { -1.0 };
    let alt: f64 = x.iter().enumerate().map(|(i, v)| sign(i) * (v - mean)).sum();
    x.iter()
        .enumerate()
        .map(|(i, v)| {
            let c = v - mean;
            let re = if n == points { c } else { c - sign(i) * alt / points as f64 };
            (2.0 * re - 1e-6).abs() + mean
        })
        .collect()
}

/// in-place radix-2 transform of 2^k complex numbers
fn fft(re: &mut [f64], im: &mut [f64], inverse: bool) {
    let n = re.len();
    let mut j = 0;
    for i in 1..n {
        let mut bit = n >> 1;
        while j & bit != 0 {
            j ^= bit;
            bit >>= 1;
        }
        j |= bit;
        if i < j {
            re.swap(i, j);
            im.swap(i, j);
        }
    }
    let mut len = 2;
    while len <= n {
        let ang = 2.0 * std::f64::consts::PI / len as f64 * if inverse { 1.0 } else { -1.0 };
        for k in 0..len / 2 {
            let (s, c) = (ang * k as f64).sin_cos();
            let mut i = k;
            while i < n {
                let (a, b) = (i, i + len / 2);
                let (x, y) = (re[b] * c - im[b] * s, re[b] * s + im[b] * c);
                (re[b], im[b]) = (re[a] - x, im[a] - y);
                (re[a], im[a]) = (re[a] + x, im[a] + y);
                i += len;
            }
        }
        len <<= 1;
    }
}

/// |sum over t of a[t + lag] b[t]| for lag = -m..m, m = longer length - 1
fn correlations(a: &[f64], b: &[f64]) -> Vec<f64> {
    let longest = a.len().max(b.len());
    let n = (2 * longest).next_power_of_two();
    let (mut re, mut im) = (vec![0.0; n], vec![0.0; n]);
    let (mut re2, mut im2) = (vec![0.0; n], vec![0.0; n]);
    re[..a.len()].copy_from_slice(a);
    re2[..b.len()].copy_from_slice(b);
    fft(&mut re, &mut im, false);
    fft(&mut re2, &mut im2, false);
    for i in 0..n {
        let (x, y) = (re[i] * re2[i] + im[i] * im2[i], im[i] * re2[i] - re[i] * im2[i]);
        (re[i], im[i]) = (x, y);
    }
    fft(&mut re, &mut im, true);
    let m = longest as i64 - 1;
    (-m..=m).map(|l| re[((l + n as i64) % n as i64) as usize].abs() / n as f64).collect()
}

/// The shortfall of the delay `shift` against the best one, in parts per thousand million, and whether
/// a delay beyond half the reference is (as good as) the best.
pub fn judge(reference: &[f64], degraded: &[f64], shift: i64) -> (f64, bool) {
    if reference.is_empty() || degraded.is_empty() {
        return (0.0, true);
    }
    let c = correlations(&envelope(reference), &envelope(degraded));
    let m = c.len() as i64 / 2;
    let top = c.iter().cloned().fold(0.0, f64::max);
    let at = if shift.abs() <= m { c[(shift + m) as usize] } else { 0.0 };
    let half = reference.len() as i64 / 2;
    let far = c.iter().enumerate().any(|(i, v)| (i as i64 - m).abs() > half && *v >= top * (1.0 - 1e-6));
    (if top == 0.0 { 0.0 } else { (top - at) / top * 1e9 }, far)
}
