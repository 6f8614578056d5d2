//! A small executable reference model of the fingerprinting algorithm, written independently of
//! the code under test: whole stream in, items out, no incremental state. Every decision that
//! hangs on a floating-point comparison carries a margin; bits decided by less than the margin
//! are "don't care", so neither summation order nor the FFT implementation matters.

use std::f64::consts::PI;

#[derive(Clone, Debug)]
pub struct RefConfig {
    pub classifiers: &'static [(u8, usize, usize, usize, [f64; 3])],
    pub frame_size: usize,
    pub overlap: usize,
    pub coeffs: Vec<f64>,
    pub interpolate: bool,
    /// Threshold of the leading-silence removal, if the configuration asks for it.
    pub silence: Option<u32>,
    pub id: u8,
}

pub const TARGET: u32 = 11025;

// (filter kind, y, height, width, thresholds)
pub const C1: [(u8, usize, usize, usize, [f64; 3]); 16] = [
    (0, 0, 3, 15, [2.10543, 2.45354, 2.69414]),
    (1, 0, 4, 14, [-0.345922, 0.0463746, 0.446251]),
    (1, 4, 4, 11, [-0.392132, 0.0291077, 0.443391]),
    (3, 0, 4, 14, [-0.192851, 0.00583535, 0.204053]),
    (2, 8, 2, 4, [-0.0771619, -0.00991999, 0.0575406]),
    (5, 6, 2, 15, [-0.710437, -0.518954, -0.330402]),
    (1, 9, 2, 16, [-0.353724, -0.0189719, 0.289768]),
    (3, 4, 2, 10, [-0.128418, -0.0285697, 0.0591791]),
    (3, 9, 2, 16, [-0.139052, -0.0228468, 0.0879723]),
    (2, 1, 3, 6, [-0.133562, 0.00669205, 0.155012]),
    (3, 3, 6, 2, [-0.0267, 0.00804829, 0.0459773]),
    (2, 8, 1, 10, [-0.0972417, 0.0152227, 0.129003]),
    (3, 4, 4, 14, [-0.141434, 0.00374515, 0.149935]),
    (5, 4, 2, 15, [-0.64035, -0.466999, -0.285493]),
    (5, 9, 2, 3, [-0.322792, -0.254258, -0.174278]),
    (2, 1, 8, 4, [-0.0741375, -0.00590933, 0.0600357]),
];

pub const C2: [(u8, usize, usize, usize, [f64; 3]); 16] = [
    (0, 4, 3, 15, [1.98215, 2.35817, 2.63523]),
    (4, 4, 6, 15, [-1.03809, -0.651211, -0.282167]),
    (1, 0, 4, 16, [-0.298702, 0.119262, 0.558497]),
    (3, 8, 2, 12, [-0.105439, 0.0153946, 0.135898]),
    (3, 4, 4, 8, [-0.142891, 0.0258736, 0.200632]),
    (4, 0, 3, 5, [-0.826319, -0.590612, -0.368214]),
    (1, 2, 2, 9, [-0.557409, -0.233035, 0.0534525]),
    (2, 7, 3, 4, [-0.0646826, 0.00620476, 0.0784847]),
    (2, 6, 2, 16, [-0.192387, -0.029699, 0.215855]),
    (2, 1, 3, 2, [-0.0397818, -0.00568076, 0.0292026]),
    (5, 10, 1, 15, [-0.53823, -0.369934, -0.190235]),
    (3, 6, 2, 10, [-0.124877, 0.0296483, 0.139239]),
    (2, 1, 1, 14, [-0.101475, 0.0225617, 0.231971]),
    (3, 5, 6, 4, [-0.0799915, -0.00729616, 0.063262]),
    (1, 9, 2, 12, [-0.272556, 0.019424, 0.302559]),
    (3, 4, 2, 14, [-0.164292, -0.0321188, 0.0846339]),
];

pub const MAX_WIDTH: usize = 16;
const COEFFS: [f64; 5] = [0.25, 0.75, 1.0, 0.75, 0.25];

impl RefConfig {
    pub fn preset(i: i64) -> RefConfig {
        let base = RefConfig {
            classifiers: &C2,
            frame_size: 4096,
            overlap: 4096 - 4096 / 3,
            coeffs: COEFFS.to_vec(),
            interpolate: false,
            silence: None,
            id: 1,
        };
        match i.rem_euclid(5) {
            0 => RefConfig { classifiers: &C1, id: 0, ..base },
            1 => base,
            2 => RefConfig { interpolate: true, id: 2, ..base },
            3 => RefConfig { silence: Some(50), id: 3, ..base },
            _ => RefConfig { frame_size: 2048, overlap: 2048 - 1024, id: 4, ..base },
        }
    }
    pub fn step(&self) -> usize {
        self.frame_size - self.overlap
    }
    /// Number of items a stream of `n` samples at the target rate yields.
    pub fn items(&self, n: usize) -> usize {
        if n < self.frame_size {
            return 0;
        }
        let frames = (n - self.frame_size) / self.step() + 1;
        (frames + 1).saturating_sub(self.coeffs.len()).saturating_sub(MAX_WIDTH - 1)
    }
    /// Samples at the target rate that item `k` is computed from: [start, end).
    pub fn item_window(&self, k: usize) -> (usize, usize) {
        let first = k * self.step();
        let last = (k + MAX_WIDTH - 1 + self.coeffs.len() - 1) * self.step() + self.frame_size;
        (first, last)
    }
    pub fn item_span_samples(&self) -> usize {
        self.item_window(0).1
    }
}

/// Averages interleaved frames into one channel (integer average, truncated towards zero).
pub fn downmix(data: &[i16], channels: usize) -> Vec<i16> {
    data.chunks_exact(channels)
        .map(|f| {
            let s: i64 = f.iter().map(|&x| x as i64).sum();
            (s / channels as i64) as i16
        })
        .collect()
}

pub fn scale(mono: &[i16]) -> Vec<f64> {
    mono.iter().map(|&x| x as f64 / 32767.0).collect()
}

/// Resamples the whole stream in a single piece: no seams. `pad` zero frames are appended.
pub fn resample(x: &[f64], rate: u32, pad: usize) -> Vec<f64> {
    use rubato::{
        Resampler, SincFixedIn, SincInterpolationParameters, SincInterpolationType, WindowFunction,
    };
    if rate == TARGET {
        return x.to_vec();
    }
    if x.is_empty() {
        return vec![];
    }
    let mut y = x.to_vec();
    y.resize(x.len() + pad, 0.0);
    let mut r = SincFixedIn::<f64>::new(
        TARGET as f64 / rate as f64,
        1.0,
        SincInterpolationParameters {
            sinc_len: 16,
            f_cutoff: 0.8,
            oversampling_factor: 128,
            interpolation: SincInterpolationType::Nearest,
            window: WindowFunction::Blackman,
        },
        y.len(),
        1,
    )
    .expect("reference resampler");
    let mut out = r.process(&[y], None).expect("reference resampler run");
    out.remove(0)
}

/// Leading-silence removal as in Chromaprint: drop samples until the average magnitude over a
/// 55-sample window exceeds the threshold.
pub fn strip_silence(x: &[f64], threshold: u32) -> &[f64] {
    const W: usize = 55;
    let mut q = std::collections::VecDeque::new();
    let mut sum = 0i64;
    for (i, &v) in x.iter().enumerate() {
        let s = (v * 32767.0).abs().round() as i64;
        q.push_back(s);
        sum += s;
        if q.len() > W {
            sum -= q.pop_front().unwrap();
        }
        if sum / q.len() as i64 > threshold as i64 {
            return &x[i..];
        }
    }
    &[]
}

// ---- FFT (radix-2, with Bluestein for other sizes) ----

#[derive(Clone, Copy)]
struct C(f64, f64);

fn fft_pow2(a: &mut [C], inverse: bool) {
    let n = a.len();
    let mut j = 0;
    for i in 1..n {
        let mut bit = n >> 1;
        while j & bit != 0 {
            j ^= bit;
            bit >>= 1;
        }
        j |= bit;
        if i < j {
            a.swap(i, j);
        }
    }
    let sgn = if inverse { 1.0 } else { -1.0 };
    let tw: Vec<C> = (0..n / 2)
        .map(|k| {
            let w = sgn * 2.0 * PI * k as f64 / n as f64;
            C(w.cos(), w.sin())
        })
        .collect();
    let mut len = 2;
    while len <= n {
        let stride = n / len;
        for s in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let w = tw[k * stride];
                let u = a[s + k];
                let v = a[s + k + len / 2];
                let t = C(v.0 * w.0 - v.1 * w.1, v.0 * w.1 + v.1 * w.0);
                a[s + k] = C(u.0 + t.0, u.1 + t.1);
                a[s + k + len / 2] = C(u.0 - t.0, u.1 - t.1);
            }
        }
        len *= 2;
    }
}

struct PowerSpectrum {
    n: usize,
    window: Vec<f64>,
    // radix-2 tables or Bluestein chirp
    tw: Vec<C>,
    rev: Vec<usize>,
    chirp: Vec<C>,
    chirp_fft: Vec<C>,
}

impl PowerSpectrum {
    fn new(n: usize) -> Self {
        let window = (0..n)
            .map(|i| 0.54 - 0.46 * (2.0 * PI * i as f64 / (n as f64 - 1.0)).cos())
            .collect();
        let mut s =
            PowerSpectrum { n, window, tw: vec![], rev: vec![], chirp: vec![], chirp_fft: vec![] };
        if n.is_power_of_two() {
            s.tw = (0..n / 2)
                .map(|k| {
                    let w = -2.0 * PI * k as f64 / n as f64;
                    C(w.cos(), w.sin())
                })
                .collect();
            let bits = n.trailing_zeros();
            s.rev = (0..n).map(|i| i.reverse_bits() >> (usize::BITS - bits)).collect();
        } else {
            let m = (2 * n - 1).next_power_of_two();
            s.chirp = (0..n)
                .map(|k| {
                    let q = (k as u64 * k as u64) % (2 * n as u64);
                    let w = -PI * q as f64 / n as f64;
                    C(w.cos(), w.sin())
                })
                .collect();
            let mut b = vec![C(0.0, 0.0); m];
            for k in 0..n {
                let c = C(s.chirp[k].0, -s.chirp[k].1);
                b[k] = c;
                if k > 0 {
                    b[m - k] = c;
                }
            }
            fft_pow2(&mut b, false);
            s.chirp_fft = b;
        }
        s
    }
    fn run(&self, x: &[f64]) -> Vec<f64> {
        let n = self.n;
        if !self.tw.is_empty() {
            let mut a: Vec<C> = vec![C(0.0, 0.0); n];
            for i in 0..n {
                a[self.rev[i]] = C(x[i] * self.window[i], 0.0);
            }
            let mut len = 2;
            while len <= n {
                let stride = n / len;
                for s in (0..n).step_by(len) {
                    for k in 0..len / 2 {
                        let w = self.tw[k * stride];
                        let u = a[s + k];
                        let v = a[s + k + len / 2];
                        let t = C(v.0 * w.0 - v.1 * w.1, v.0 * w.1 + v.1 * w.0);
                        a[s + k] = C(u.0 + t.0, u.1 + t.1);
                        a[s + k + len / 2] = C(u.0 - t.0, u.1 - t.1);
                    }
                }
                len *= 2;
            }
            a[..n / 2].iter().map(|c| c.0 * c.0 + c.1 * c.1).collect()
        } else {
            let m = self.chirp_fft.len();
            let mut a = vec![C(0.0, 0.0); m];
            for i in 0..n {
                let v = x[i] * self.window[i];
                a[i] = C(v * self.chirp[i].0, v * self.chirp[i].1);
            }
            fft_pow2(&mut a, false);
            for i in 0..m {
                let (p, q) = (a[i], self.chirp_fft[i]);
                a[i] = C(p.0 * q.0 - p.1 * q.1, p.0 * q.1 + p.1 * q.0);
            }
            fft_pow2(&mut a, true);
            // |chirp| = 1, so the final chirp multiplication does not change magnitudes
            a[..n / 2]
                .iter()
                .map(|c| (c.0 * c.0 + c.1 * c.1) / (m as f64 * m as f64))
                .collect()
        }
    }
}

/// Expected items with a mask of the bits that are decided by more than the margin.
pub struct Expected {
    pub items: Vec<u32>,
    pub mask: Vec<u32>,
}

/// `eps`: margin on classifier values; `row_eps`: relative margin on the silence cut-off.
pub fn fingerprint(x: &[f64], cfg: &RefConfig, eps: f64) -> Expected {
    let n = cfg.frame_size;
    let step = cfg.step();
    let lo = ((n as f64 * 28.0 / TARGET as f64).round() as usize).max(1);
    let hi = ((n as f64 * 3520.0 / TARGET as f64).round() as usize).min(n / 2);
    // pitch class and position inside it, per bin
    let notes: Vec<(usize, f64)> = (0..hi.max(1))
        .map(|i| {
            if i < lo {
                return (0, 0.0);
            }
            let f = i as f64 * TARGET as f64 / n as f64;
            let oct = (f / 27.5).log2();
            let p = 12.0 * (oct - oct.floor());
            (p.floor() as usize, p - p.floor())
        })
        .collect();

    let ps = PowerSpectrum::new(n);
    let mut chroma: Vec<[f64; 12]> = Vec::new();
    let mut at = 0;
    while at + n <= x.len() {
        let e = ps.run(&x[at..at + n]);
        let mut f = [0.0; 12];
        for i in lo..hi {
            let (c, frac) = notes[i];
            if cfg.interpolate {
                let (other, own) = if frac < 0.5 {
                    ((c + 11) % 12, 0.5 + frac)
                } else if frac > 0.5 {
                    ((c + 1) % 12, 1.5 - frac)
                } else {
                    (c, 1.0)
                };
                f[c] += e[i] * own;
                f[other] += e[i] * (1.0 - own);
            } else {
                f[c] += e[i];
            }
        }
        chroma.push(f);
        at += step;
    }

    let len = cfg.coeffs.len();
    let mut rows: Vec<[f64; 12]> = Vec::new();
    let mut shaky: Vec<bool> = Vec::new();
    for r in (len.max(1) - 1)..chroma.len() {
        let mut v = [0.0; 12];
        let mut mag = 0.0f64;
        for (j, c) in cfg.coeffs.iter().enumerate() {
            for b in 0..12 {
                let t = chroma[r + 1 - len + j][b] * c;
                v[b] += t;
                mag = mag.max(t.abs());
            }
        }
        let norm = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        // heavy cancellation or a norm close to the cut-off: do not judge items using this row
        shaky.push((norm - 0.01).abs() < 0.01 * eps.max(1e-9) * 100.0 || norm < mag * 1e-6);
        if norm < 0.01 {
            v = [0.0; 12];
        } else {
            for b in v.iter_mut() {
                *b /= norm;
            }
        }
        rows.push(v);
    }

    let mut items = Vec::new();
    let mut mask = Vec::new();
    if rows.len() >= MAX_WIDTH {
        for k in 0..=(rows.len() - MAX_WIDTH) {
            let w = &rows[k..k + MAX_WIDTH];
            let area = |x1: usize, y1: usize, x2: usize, y2: usize| -> f64 {
                w[x1..x2].iter().map(|r| r[y1..y2].iter().sum::<f64>()).sum()
            };
            let unsure = shaky[k..k + MAX_WIDTH].iter().any(|&b| b);
            let mut bits = 0u32;
            let mut m = 0u32;
            for &(kind, y, h, wd, t) in cfg.classifiers {
                let (a, b) = match kind {
                    0 => (area(0, y, wd, y + h), 0.0),
                    1 => (area(0, y + h / 2, wd, y + h), area(0, y, wd, y + h / 2)),
                    2 => (area(wd / 2, y, wd, y + h), area(0, y, wd / 2, y + h)),
                    3 => (
                        area(0, y + h / 2, wd / 2, y + h) + area(wd / 2, y, wd, y + h / 2),
                        area(0, y, wd / 2, y + h / 2) + area(wd / 2, y + h / 2, wd, y + h),
                    ),
                    4 => (
                        area(0, y + h / 3, wd, y + 2 * (h / 3)),
                        area(0, y, wd, y + h / 3) + area(0, y + 2 * (h / 3), wd, y + h),
                    ),
                    _ => (
                        area(wd / 3, y, 2 * (wd / 3), y + h),
                        area(0, y, wd / 3, y + h) + area(2 * (wd / 3), y, wd, y + h),
                    ),
                };
                let v = ((1.0 + a) / (1.0 + b)).ln();
                let q = t.iter().filter(|&&th| v >= th).count();
                let near = t.iter().any(|&th| (v - th).abs() < eps);
                bits = (bits << 2) | [0u32, 1, 3, 2][q];
                m = (m << 2) | if near || !v.is_finite() { 0 } else { 3 };
            }
            items.push(bits);
            mask.push(if unsure { 0 } else { m });
        }
    }
    Expected { items, mask }
}
