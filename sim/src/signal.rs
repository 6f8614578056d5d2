//! Synthetic microphones: seeded audio sources. A source of n frames is a prefix of the same
//! source with more frames.

use crate::rng::{mix, Rng};

pub const KINDS: i64 = 10;
const MANY: usize = 200;

pub fn kind_name(k: i64) -> &'static str {
    match k.rem_euclid(KINDS) {
        0 => "noise",
        1 => "tones",
        2 => "sweep",
        3 => "silence",
        4 => "near_silence",
        5 => "clipped",
        6 => "impulses",
        7 => "music",
        8 => "mixture",
        _ => "extremes",
    }
}

struct Osc {
    re: f64,
    im: f64,
    cr: f64,
    ci: f64,
    amp: f64,
    decay: f64,
}

impl Osc {
    fn new(freq: f64, rate: f64, amp: f64, decay: f64) -> Osc {
        let w = 2.0 * std::f64::consts::PI * freq / rate;
        Osc { re: 1.0, im: 0.0, cr: w.cos(), ci: w.sin(), amp, decay }
    }
    fn next(&mut self) -> f64 {
        let r = self.re * self.cr - self.im * self.ci;
        let i = self.re * self.ci + self.im * self.cr;
        self.re = r;
        self.im = i;
        self.amp *= self.decay;
        self.im * self.amp
    }
}

struct Chan {
    rng: Rng,
    rate: f64,
    kind: i64,
    cur: i64,
    left: i64,
    osc: Vec<Osc>,
    sweep_phase: f64,
    sweep_freq: f64,
    sweep_k: f64,
    gain: f64,
}

impl Chan {
    fn new(seed: u64, kind: i64, rate: u32) -> Chan {
        Chan {
            rng: Rng::new(seed),
            rate: rate as f64,
            kind: kind.rem_euclid(KINDS),
            cur: kind.rem_euclid(KINDS),
            left: 0,
            osc: vec![],
            sweep_phase: 0.0,
            sweep_freq: 100.0,
            sweep_k: 1.0,
            gain: 1.0,
        }
    }
    fn segment(&mut self) {
        let r = self.rate;
        self.left = ((0.05 + 0.6 * self.rng.f64()) * r) as i64 + 1;
        if self.kind == 8 {
            self.cur = self.rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 7, 1, 0, 9]);
        }
        self.osc.clear();
        let hi = (3600.0f64).min(r * 0.45);
        match self.cur {
            1 | 7 => {
                let n = self.rng.range(1, 4);
                for _ in 0..n {
                    let f = 30.0 * (hi / 30.0).powf(self.rng.f64());
                    let a = 200.0 + 7000.0 * self.rng.f64();
                    let d = if self.cur == 7 { 1.0 - 3.0 * self.rng.f64() / r } else { 1.0 };
                    self.osc.push(Osc::new(f, r, a, d));
                }
            }
            2 => {
                self.sweep_freq = 40.0 + 500.0 * self.rng.f64();
                self.sweep_k = 1.0 + (2.0 + 6.0 * self.rng.f64()) / r;
            }
            5 => {
                self.osc.push(Osc::new(30.0 + (hi - 30.0) * self.rng.f64(), r, 90000.0, 1.0));
            }
            _ => {}
        }
        self.gain = 0.02 + 0.98 * self.rng.f64();
    }
    fn next(&mut self) -> i16 {
        if self.left == 0 {
            self.segment();
        }
        self.left -= 1;
        match self.cur {
            0 => ((self.rng.f64() - 0.5) * 60000.0 * self.gain) as i16,
            1 => self.osc.iter_mut().map(|o| o.next()).sum::<f64>() as i16,
            2 => {
                self.sweep_freq *= self.sweep_k;
                if self.sweep_freq > 3600.0 {
                    self.sweep_freq = 40.0;
                }
                self.sweep_phase += self.sweep_freq / self.rate;
                self.sweep_phase -= self.sweep_phase.floor();
                // cheap parabola-shaped sine
                let p = self.sweep_phase * 2.0 - 1.0;
                (4.0 * p * (1.0 - p.abs()) * 20000.0 * self.gain) as i16
            }
            3 => 0,
            4 => self.rng.range(-3, 3) as i16,
            5 => self.osc[0].next().clamp(-32768.0, 32767.0) as i16,
            6 => {
                if self.rng.chance(1, 900) {
                    self.rng.range(-32768, 32767) as i16
                } else {
                    0
                }
            }
            7 => {
                let t: f64 = self.osc.iter_mut().map(|o| o.next()).sum();
                (t + (self.rng.f64() - 0.5) * 900.0) as i16
            }
            _ => {
                if self.rng.chance(1, 2) {
                    i16::MIN
                } else {
                    i16::MAX
                }
            }
        }
    }
}

/// A microphone: an endless stream of interleaved samples.
pub struct Source {
    src: Vec<Chan>,
    ch: usize,
}

impl Source {
    pub fn new(seed: u64, kind: i64, rate: u32, channels: u32) -> Source {
        let ch = channels.max(1) as usize;
        // Beyond four channels, reuse sources scaled down to stay cheap.
        // Hundreds of channels all hear the same at full scale.
        let real = if ch > MANY { 1 } else { ch.min(4) };
        Source {
            src: (0..real).map(|c| Chan::new(mix(&[seed, c as u64]), kind, rate)).collect(),
            ch,
        }
    }
    pub fn take(&mut self, frames: usize) -> Vec<i16> {
        let real = self.src.len();
        let mut out = Vec::with_capacity(frames * self.ch);
        let mut v = [0i16; 4];
        for _ in 0..frames {
            for (c, s) in self.src.iter_mut().enumerate() {
                v[c] = s.next();
            }
            for c in 0..self.ch {
                let x = v[c % real];
                out.push(if c >= real && self.ch <= MANY { (x as i32 / (1 + (c / real) as i32)) as i16 } else { x });
            }
        }
        out
    }
}

/// Interleaved samples: `frames` frames of `channels` channels.
pub fn generate(seed: u64, kind: i64, rate: u32, channels: u32, frames: usize) -> Vec<i16> {
    Source::new(seed, kind, rate, channels).take(frames)
}
