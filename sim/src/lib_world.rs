//! Worlds made of fingerprinters fed by simulated microphones: C01-C04, C06-C09.

use crate::case::{Case, Report, Violation};
use crate::refmodel::{self, RefConfig, TARGET};
use crate::rng::{mix, Rng, Trace};
use crate::runner::{catching, Tier};
use crate::signal::{kind_name, Source, KINDS};
use rusty_chromaprint::{Configuration, FingerprintCompressor, Fingerprinter};

pub const BUF: i64 = 32768;

// ---------- configurations ----------

pub fn preset(i: i64) -> Configuration {
    match i.rem_euclid(5) {
        0 => Configuration::preset_test1(),
        1 => Configuration::preset_test2(),
        2 => Configuration::preset_test3(),
        3 => Configuration::preset_test4(),
        _ => Configuration::preset_test5(),
    }
}

/// (frame size, overlap) or None for the preset's own.
fn custom_frame(c: &Case) -> Option<(usize, usize)> {
    let fs = c.get("fs");
    if fs <= 0 {
        return None;
    }
    let fs = fs.clamp(16, 8192) as usize;
    Some((fs, (c.get("ov").max(0) as usize).min(fs - 1)))
}

fn custom_coeffs(c: &Case) -> Option<Vec<f64>> {
    let n = c.get("nc");
    if n <= 0 {
        return None;
    }
    let mut r = Rng::new(mix(&[c.get("cs") as u64, 77]));
    Some((0..n.min(8)).map(|_| 0.05 + r.f64()).collect())
}

pub fn config(c: &Case) -> Configuration {
    let mut k = preset(c.get("cfg"));
    if let Some((fs, ov)) = custom_frame(c) {
        k = k.with_frame_size(fs).with_frame_overlap(ov);
    }
    if let Some(v) = custom_coeffs(c) {
        k = k.with_coefficients(v);
    }
    if c.get("interp") != 0 {
        k = k.with_interpolation(c.get("interp") == 1);
    }
    if c.get("id") > 0 {
        k = k.with_id(c.get("id") as u8);
    }
    k
}

pub fn ref_config(c: &Case) -> RefConfig {
    let mut k = RefConfig::preset(c.get("cfg"));
    if let Some((fs, ov)) = custom_frame(c) {
        k.frame_size = fs;
        k.overlap = ov;
    }
    if let Some(v) = custom_coeffs(c) {
        k.coeffs = v;
    }
    if c.get("interp") != 0 {
        k.interpolate = c.get("interp") == 1;
    }
    if c.get("id") > 0 {
        k.id = c.get("id") as u8;
    }
    k
}

/// Picks a configuration; `custom` in 0..=100 is the percentage of non-preset ones.
pub fn gen_config(r: &mut Rng, c: &mut Case, custom: u64) {
    c.set("cfg", r.range(0, 4));
    if r.chance(custom, 100) {
        let fs = match r.weighted(&[3, 2, 2, 1]) {
            0 => r.pick(&[16, 32, 64, 128, 256, 512, 1024, 2048]),
            1 => r.range(16, 600),
            2 => r.pick(&[20, 48, 60, 100, 144, 360, 500, 1000, 3000]),
            _ => r.range(600, 5000),
        };
        let ov = match r.weighted(&[2, 2, 1, 2, 1]) {
            0 => fs / 2,
            1 => fs - fs / 3,
            2 => 0,
            3 => r.range(0, fs - 1),
            _ => fs - r.range(1, 4).min(fs),
        };
        c.set("fs", fs);
        c.set("ov", ov);
        if r.chance(1, 3) {
            c.set("nc", r.range(1, 8));
            c.set("cs", r.range(0, 1 << 20));
        }
        if r.chance(1, 4) {
            c.set("interp", r.range(1, 2));
        }
    }
}

pub fn gen_rate(r: &mut Rng) -> i64 {
    match r.weighted(&[16, 16, 6, 4, 1]) {
        4 => r.log_range(200_000, u32::MAX as i64),
        0 => TARGET as i64,
        1 => r.pick(&[8000, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 192000]),
        2 => r.range(1001, 60000),
        _ => r.pick(&[1001, 1002, 1100, 11024, 11026, 5512, 5513, 33075, 384000]),
    }
}

pub fn gen_channels(r: &mut Rng) -> i64 {
    match r.weighted(&[6, 5, 3, 1]) {
        0 => 1,
        1 => 2,
        2 => r.range(3, 8),
        _ => r.pick(&[12, 16, 32, 100]),
    }
}

pub fn step_ratio(rate: u32) -> f64 {
    rate as f64 / TARGET as f64
}

/// A stream length in frames giving roughly up to `items` items, biased to buffer boundaries.
pub fn gen_frames(r: &mut Rng, k: &RefConfig, rate: u32, items: i64) -> i64 {
    let span = k.item_span_samples() as i64;
    let out = match r.weighted(&[1, 2, 8, 2]) {
        0 => r.range(0, span),
        1 => span + r.range(-3, 3),
        2 => span + r.range(0, items.max(1)) * k.step() as i64 + r.range(0, k.step() as i64),
        _ => span + items * k.step() as i64,
    };
    let mut n = (out.max(0) as f64 * step_ratio(rate)) as i64 + r.range(0, 12);
    if r.chance(1, 3) && n > BUF / 2 {
        // land on or beside a multiple of the internal buffer size
        let m = (n + BUF / 2) / BUF;
        n = m * BUF + r.pick(&[-2, -1, 0, 0, 0, 1, 2, 9, 30, -17]);
    }
    n.max(0)
}

/// Delivery schedule for `total` frames as "d n" (one call) and "rep n k" (k calls of n).
pub fn gen_deliveries(r: &mut Rng, c: &mut Case, total: i64, max_calls: i64) {
    let mut left = total;
    let mut pos = 0i64;
    let mut calls = 0;
    while left > 0 {
        if calls >= max_calls {
            c.op("d", &[left]);
            return;
        }
        let style = r.weighted(&[3, 3, 3, 2, 2, 2, 1]);
        match style {
            0 => {
                // decoder packets
                let n = r.pick(&[1152, 576, 1024, 2048, 4096, 4608, 128, 960]);
                let k = (left / n).min(r.range(1, 40)).max(1);
                let n = n.min(left);
                let k = if n * k > left { 1 } else { k };
                c.op("rep", &[n, k]);
                left -= n * k;
                pos += n * k;
            }
            1 => {
                let n = r.log_range(1, left);
                c.op("d", &[n]);
                left -= n;
                pos += n;
            }
            2 => {
                // up to (or just beside) the next buffer boundary
                let to = BUF - pos % BUF + r.pick(&[0, 0, 0, -1, 1]);
                let n = to.clamp(1, left);
                c.op("d", &[n]);
                left -= n;
                pos += n;
            }
            3 => {
                // a dribble of tiny calls
                let n = r.pick(&[1, 1, 2, 3, 7]);
                let k = (left / n).min(r.range(1, 3000));
                if k > 0 {
                    c.op("rep", &[n, k]);
                    left -= n * k;
                    pos += n * k;
                }
                if left > 0 && k == 0 {
                    c.op("d", &[left]);
                    left = 0;
                }
            }
            4 => {
                // larger than the internal buffer
                let n = (BUF * r.range(1, 3) + r.pick(&[0, 0, -1, 1, 5000])).min(left);
                c.op("d", &[n]);
                left -= n;
                pos += n;
            }
            5 => c.op("rep", &[0, r.range(1, 3)]),
            _ => {
                c.op("d", &[left]);
                pos += left;
                left = 0;
            }
        }
        calls += 1;
    }
}

/// The list of call sizes an op stands for.
pub fn calls_of(op: &crate::case::Op) -> (usize, usize) {
    match op.name.as_str() {
        "d" => (op.arg(0).clamp(0, 1 << 26) as usize, 1),
        "rep" => (op.arg(0).clamp(0, 1 << 26) as usize, op.arg(1).clamp(0, 1 << 24) as usize),
        _ => (0, 0),
    }
}

pub fn rate_of(c: &Case) -> u32 {
    c.get("rate").clamp(1001, u32::MAX as i64) as u32
}
pub fn ch_of(c: &Case) -> u32 {
    c.get("ch").clamp(1, 200_000) as u32
}

pub fn note_setup(rep: &mut Report, c: &Case) {
    rep.hit(&format!("config:{}", if c.get("fs") > 0 { "custom" } else { "preset" }));
    rep.hit(&format!("signal:{}", kind_name(c.get("kind"))));
    let rate = rate_of(c);
    rep.hit(match rate {
        11025 => "rate:native",
        r if r < 11025 => "rate:below",
        r if r <= 48000 => "rate:above",
        _ => "rate:high",
    });
    rep.hit(match ch_of(c) {
        1 => "channels:1",
        2 => "channels:2",
        _ => "channels:many",
    });
}

fn show(fp: &[u32]) -> String {
    let s: Vec<String> = fp.iter().take(4).map(|x| format!("{x:08x}")).collect();
    format!("{} items [{}..]", fp.len(), s.join(" "))
}

pub fn first_diff(a: &[u32], b: &[u32]) -> String {
    let n = a.iter().zip(b).position(|(x, y)| x != y);
    match n {
        Some(i) => format!("{} vs {} items, first difference at item {i}: {:08x} vs {:08x}", a.len(), b.len(), a[i], b[i]),
        None => format!("{} vs {} items, common part equal", a.len(), b.len()),
    }
}

fn started(k: &Configuration, rate: u32, ch: u32) -> Result<Fingerprinter, Violation> {
    let mut f = Fingerprinter::new(k);
    f.start(rate, ch)
        .map_err(|e| Violation::new("start-refused", format!("start({rate}, {ch}) refused: {e}")))?;
    Ok(f)
}

pub fn one_shot(k: &Configuration, rate: u32, ch: u32, data: &[i16]) -> Result<Vec<u32>, Violation> {
    let mut f = started(k, rate, ch)?;
    f.consume(data);
    f.finish();
    Ok(f.fingerprint().to_vec())
}

// ---------- C01 ----------

fn gen_stream(r: &mut Rng, id: &str, custom: u64, items: i64) -> (Case, i64) {
    let mut c = Case::new(id);
    gen_config(r, &mut c, custom);
    c.set("rate", gen_rate(r));
    c.set("ch", gen_channels(r));
    c.set("kind", r.range(0, KINDS - 1));
    c.set("src", r.range(0, 1 << 30));
    let k = ref_config(&c);
    let mut n = gen_frames(r, &k, rate_of(&c), items);
    // keep the volume of samples in hand
    n = n.min(3_000_000 / ch_of(&c) as i64);
    (c, n)
}

pub fn gen_c01(r: &mut Rng, _t: Tier, _i: u64) -> Case {
    let items = r.pick(&[4, 20, 60]);
    let (mut c, n) = gen_stream(r, "C01", 50, items);
    if r.chance(1, 50) {
        // a whole recording in one call, after a little and perhaps before a little
        let ch = ch_of(&c) as i64;
        let most = r.pick(&[1 << 20, 1 << 20, 1 << 21, 1 << 22]) + r.range(0, 1 << 17);
        if ref_config(&c).step() < 600 || rate_of(&c) < 8000 {
            for k in ["fs", "ov"] {
                c.params.remove(k);
            }
            c.set("rate", TARGET as i64);
        }
        let most = if r.chance(1, 30) { (1 << 24) + r.range(0, 1000) } else { most };
        let little = r.range(2, 30_000);
        c.op("d", &[r.pick(&[0, 1, little, little, BUF, BUF + 1])]);
        c.op("d", &[most / ch + 1]);
        c.op("d", &[r.range(0, 9000)]);
        return c;
    }
    gen_deliveries(r, &mut c, n, 400);
    c
}

fn sig_of(c: &Case, extra: &[u64]) -> u64 {
    let mut t = Trace::new();
    t.add(c.get("cfg") as u64);
    t.add(c.get("fs") as u64);
    t.add(c.get("ov") as u64);
    t.add(rate_of(c) as u64);
    t.add(ch_of(c) as u64);
    for op in &c.ops {
        t.add(crate::rng::hash_str(&op.name));
        for a in &op.args {
            t.add(*a as u64);
        }
    }
    for e in extra {
        t.add(*e);
    }
    t.0
}

pub fn run_c01(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    note_setup(&mut rep, c);
    let (rate, ch) = (rate_of(c), ch_of(c));
    let total: usize = c.ops.iter().map(|o| calls_of(o)).map(|(n, k)| n * k).sum();
    let data = Source::new(c.get("src") as u64, c.get("kind"), rate, ch).take(total);
    let k = config(c);
    let want = one_shot(&k, rate, ch, &data)?;
    let mut f = started(&k, rate, ch)?;
    let mut at = 0usize;
    for op in &c.ops {
        let (n, times) = calls_of(op);
        for _ in 0..times {
            f.consume(&data[at * ch as usize..(at + n) * ch as usize]);
            let before = at as i64;
            at += n;
            if n == 0 {
                rep.hit("delivery:empty");
            } else if at as i64 % BUF == 0 {
                rep.hit("delivery:ends-on-buffer-boundary");
            } else if before / BUF != at as i64 / BUF {
                rep.hit("delivery:straddles-buffer-boundary");
            }
            if n as i64 > BUF {
                rep.hit("delivery:larger-than-buffer");
            }
        }
    }
    f.finish();
    let got = f.fingerprint();
    if got != want.as_slice() {
        return Err(Violation::new(
            "delivery-dependent",
            format!("delivered in pieces vs in one call: {}", first_diff(got, &want)),
        ));
    }
    let mut t = Trace::new();
    t.add_items(got);
    rep.trace = t.0;
    rep.signature = sig_of(c, &[]);
    rep.nontrivial = !got.is_empty() && c.ops.len() > 1;
    rep.sim_us = total as u64 * 1_000_000 / rate as u64;
    Ok(rep)
}

// ---------- C02, C03: session histories with a twin ----------

fn gen_history(r: &mut Rng, id: &str, refusals: bool) -> Case {
    let mut c = Case::new(id);
    gen_config(r, &mut c, 60);
    c.set("kind", r.range(0, KINDS - 1));
    c.set("src", r.range(0, 1 << 30));
    let k = ref_config(&c);
    if r.chance(1, 8) {
        c.op("early", &[r.range(0, 50)]);
    }
    let sessions = r.range(if refusals { 1 } else { 2 }, 5);
    let many = if r.chance(1, 40) { gen_many(r, &mut c) } else { 0 };
    let mut rate = gen_rate(r);
    for _ in 0..sessions {
        if refusals && r.chance(1, 3) {
            gen_bad(r, &mut c);
        }
        if r.chance(2, 3) {
            rate = if r.chance(1, 2) { TARGET as i64 } else { gen_rate(r) };
        }
        let ch = if many > 0 { many } else { gen_channels(r).min(8) };
        c.op("start", &[rate, ch]);
        if r.chance(1, 12) {
            c.op("start", &[rate, ch]);
        }
        let items = r.pick(&[2, 8, 25]);
        let mut n = gen_frames(r, &k, rate as u32, items).min(600_000);
        if r.chance(1, 6) {
            n = r.range(0, 5000);
        }
        if many > 0 {
            n = n.min(r.range(1, 2_000_000 / many));
        }
        let mut tmp = Case::new("");
        gen_deliveries(r, &mut tmp, n, 12);
        // abandon some sessions in the middle
        if r.chance(1, 2) {
            let keep = r.below(tmp.ops.len() as u64 + 1) as usize;
            tmp.ops.truncate(keep);
        }
        for op in tmp.ops {
            if refusals && r.chance(1, 4) {
                gen_bad(r, &mut c);
            }
            // keep dribbles short here: every op is followed by a comparison
            c.ops.push(op);
            if r.chance(1, 5) {
                c.op("read", &[]);
            }
        }
        if refusals && r.chance(1, 3) {
            gen_bad(r, &mut c);
        }
        if r.chance(3, 5) {
            c.op("fin", &[]);
            if refusals && r.chance(1, 4) {
                gen_bad(r, &mut c);
            }
            if r.chance(1, 6) {
                c.op("fin", &[]);
            }
        }
    }
    if c.ops.last().map_or(false, |o| o.name != "fin") {
        c.op("fin", &[]);
    }
    c
}

fn gen_bad(r: &mut Rng, c: &mut Case) {
    match r.weighted(&[2, 2, 1, 3]) {
        0 => c.op("bad", &[r.pick(&[0, 1, 999, 1000, 500]), r.range(1, 8)]),
        1 => c.op("bad", &[gen_rate(r), 0]),
        2 => c.op("bad", &[r.pick(&[0, 1000]), 0]),
        _ => c.op("part", &[r.log_range(1, 70000), r.range(1, 7)]),
    }
}

pub fn gen_c02(r: &mut Rng, _t: Tier, _i: u64) -> Case {
    gen_history(r, "C02", false)
}
pub fn gen_c03(r: &mut Rng, _t: Tier, _i: u64) -> Case {
    gen_history(r, "C03", true)
}

pub fn run_history(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    rep.hit(&format!("config:{}", if c.get("fs") > 0 { "custom" } else { "preset" }));
    let k = config(c);
    let mut f = Fingerprinter::new(&k);
    let mut twin = Fingerprinter::new(&k);
    let mut src: Option<Source> = None;
    let (mut rate, mut ch) = (0u32, 0u32);
    let mut session = 0u64;
    let mut fed = 0u64;
    let mut fed_before = false;
    let mut nontrivial = false;
    let mut finished = true;
    let mut t = Trace::new();
    for op in &c.ops {
        match op.name.as_str() {
            "early" => {
                if session == 0 {
                    // outside the contract: whatever happens, a later start must repair it
                    let _ = catching(|| f.consume(&vec![1i16; op.arg(0).clamp(0, 1000) as usize]));
                    rep.hit("fault:consume-before-start");
                }
            }
            "start" => {
                rate = op.arg(0).clamp(1001, u32::MAX as i64) as u32;
                ch = op.arg(1).clamp(1, 200_000) as u32;
                let r = catching(|| f.start(rate, ch));
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => {
                        return Err(Violation::new("start-refused", format!("start({rate},{ch}): {e}")))
                    }
                    Err(p) => return Err(Violation::new("start-panic", format!("start({rate},{ch}): {p}"))),
                }
                twin = started(&k, rate, ch)?;
                if session > 0 && !finished {
                    rep.hit("fault:session-abandoned");
                }
                if fed > 0 {
                    fed_before = true;
                }
                session += 1;
                fed = 0;
                finished = false;
                src = Some(Source::new(
                    mix(&[c.get("src") as u64, session]),
                    c.get("kind") + session as i64 - 1,
                    rate,
                    ch,
                ));
                rep.hit("sessions");
            }
            "d" | "rep" => {
                let Some(s) = src.as_mut() else { continue };
                if finished {
                    continue;
                }
                let (n, times) = calls_of(op);
                for _ in 0..times {
                    let data = s.take(n);
                    if let Err(p) = catching(|| f.consume(&data)) {
                        return Err(Violation::new(
                            "whole-frames-refused",
                            format!("session {session}: consume of {n} frames failed: {p}"),
                        ));
                    }
                    twin.consume(&data);
                    fed += n as u64;
                    rep.sim_us += n as u64 * 1_000_000 / rate as u64;
                }
            }
            "fin" => {
                if session == 0 {
                    continue;
                }
                if let Err(p) = catching(|| f.finish()) {
                    return Err(Violation::new("finish-panic", format!("session {session}: {p}")));
                }
                twin.finish();
                finished = true;
                if fed_before && !twin.fingerprint().is_empty() {
                    nontrivial = true;
                }
            }
            "bad" => {
                let (r, h) = (op.arg(0).clamp(0, u32::MAX as i64) as u32, op.arg(1).clamp(0, 200) as u32);
                if r > 1000 && h > 0 {
                    continue;
                }
                match catching(|| f.start(r, h).is_err()) {
                    Ok(true) => {}
                    Ok(false) => {
                        return Err(Violation::new("bad-start-accepted", format!("start({r},{h}) was accepted")))
                    }
                    Err(p) => {
                        return Err(Violation::new("bad-start-panic", format!("start({r},{h}) panicked: {p}")))
                    }
                }
                rep.hit("fault:refused-start");
                nontrivial |= session > 0;
            }
            "part" => {
                if session == 0 || ch < 2 {
                    continue;
                }
                let len = (op.arg(0).clamp(0, 1 << 20) as usize).min(4_000_000 / ch as usize) * ch as usize
                    + 1
                    + (op.arg(1).max(0) as usize % (ch as usize - 1));
                let junk: Vec<i16> = (0..len).map(|i| (i * 7919 % 65521) as i16).collect();
                if catching(|| f.consume(&junk)).is_ok() {
                    return Err(Violation::new(
                        "partial-frame-accepted",
                        format!("{len} samples accepted with {ch} channels"),
                    ));
                }
                rep.hit("fault:refused-partial-frame");
                nontrivial = true;
            }
            _ => {}
        }
        let (a, b) = (f.fingerprint(), twin.fingerprint());
        if session > 0 && a != b {
            return Err(Violation::new(
                "differs-from-fresh",
                format!(
                    "session {session} ({rate} Hz, {ch} ch) after {op:?}: used vs untouched fingerprinter: {}",
                    first_diff(a, b)
                ),
            ));
        }
        t.add(a.len() as u64);
    }
    t.add_items(f.fingerprint());
    rep.trace = t.0;
    rep.signature = sig_of(c, &[]);
    rep.nontrivial = nontrivial;
    Ok(rep)
}

// ---------- C04 ----------

pub fn gen_c04(r: &mut Rng, _t: Tier, _i: u64) -> Case {
    let items = r.pick(&[4, 25, 80]);
    let (mut c, n) = gen_stream(r, "C04", 55, items);
    let mut tmp = Case::new("");
    gen_deliveries(r, &mut tmp, n, 80);
    let every = r.pick(&[1, 2, 5]);
    for op in tmp.ops {
        if op.name == "rep" && op.arg(0) * op.arg(1) > 2000 && r.chance(1, 2) {
            c.op("live", &op.args);
        } else {
            c.ops.push(op);
        }
        if r.chance(1, every) {
            c.op("read", &[r.range(1, 3)]);
        }
    }
    c.op("fin", &[r.range(1, 3)]);
    c
}

/// Fewest outputs at the target rate once `n` frames went through a stream that holds back at
/// most `held` frames.
fn min_outputs(n: i64, held: i64, rate: u32) -> usize {
    if rate == TARGET {
        return (n - held).max(0) as usize;
    }
    let s = step_ratio(rate);
    (((n - held) as f64 - 10.0 - s.ceil()) / s).floor().max(0.0) as usize
}

fn max_outputs(n: i64, rate: u32) -> usize {
    if rate == TARGET {
        return n as usize;
    }
    (n as f64 / step_ratio(rate)).ceil() as usize
}

pub fn run_c04(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    note_setup(&mut rep, c);
    let (rate, ch) = (rate_of(c), ch_of(c));
    let k = config(c);
    let rk = ref_config(c);
    let mut src = Source::new(c.get("src") as u64, c.get("kind"), rate, ch);
    let mut f = started(&k, rate, ch)?;
    let mut twin = started(&k, rate, ch)?;
    let mut last: Vec<u32> = vec![];
    let mut n_fed = 0i64;
    let mut grown = 0u64;
    let mut t = Trace::new();
    let mut finished = false;
    let mut check = |f: &Fingerprinter, last: &mut Vec<u32>, n_fed: i64, what: &str| -> Result<(), Violation> {
        let now = f.fingerprint();
        if now.len() < last.len() || now[..last.len()] != last[..] {
            return Err(Violation::new(
                "reading-not-extended",
                format!("{what} after {n_fed} frames: earlier reading vs now: {}", first_diff(last, now)),
            ));
        }
        if f.fingerprint() != now {
            return Err(Violation::new("reading-unstable", format!("two readings differ after {n_fed} frames")));
        }
        let held = if what == "finish" { 0 } else { BUF };
        let lo = rk.items(min_outputs(n_fed, held, rate));
        let hi = rk.items(max_outputs(n_fed, rate));
        if now.len() < lo {
            return Err(Violation::new(
                "lags-behind",
                format!("{what} after {n_fed} frames at {rate} Hz: {} items, at least {lo} are due", now.len()),
            ));
        }
        if now.len() > hi {
            return Err(Violation::new(
                "items-from-nowhere",
                format!("{what} after {n_fed} frames at {rate} Hz: {} items, at most {hi} possible", now.len()),
            ));
        }
        if now.len() > last.len() {
            grown += 1;
            last.extend_from_slice(&now[last.len()..]);
        }
        Ok(())
    };
    for op in &c.ops {
        match op.name.as_str() {
            "d" | "rep" | "live" => {
                if finished {
                    continue;
                }
                let (n, times) = if op.name == "live" {
                    (op.arg(0).clamp(0, 1 << 26) as usize, op.arg(1).clamp(0, 1 << 24) as usize)
                } else {
                    calls_of(op)
                };
                for _ in 0..times {
                    let data = src.take(n);
                    f.consume(&data);
                    twin.consume(&data);
                    n_fed += n as i64;
                    if op.name == "live" {
                        rep.hit("readings");
                        check(&f, &mut last, n_fed, "reading")?;
                    }
                }
            }
            "read" => {
                for _ in 0..op.arg(0).clamp(1, 4) {
                    rep.hit("readings");
                    check(&f, &mut last, n_fed, if finished { "finish" } else { "reading" })?;
                }
                t.add_items(f.fingerprint());
            }
            "fin" => {
                let again = finished;
                if !again {
                    f.finish();
                    twin.finish();
                    check(&f, &mut last, n_fed, "finish")?;
                }
                finished = true;
                for _ in (if again { 0 } else { 1 })..op.arg(0).clamp(1, 4) {
                    rep.hit("fault:repeated-finish");
                    let before = f.fingerprint().to_vec();
                    f.finish();
                    if f.fingerprint() != before.as_slice() {
                        return Err(Violation::new(
                            "finish-not-idempotent",
                            format!("finishing again: {}", first_diff(&before, f.fingerprint())),
                        ));
                    }
                }
            }
            _ => {}
        }
    }
    if f.fingerprint() != twin.fingerprint() {
        return Err(Violation::new(
            "reading-interferes",
            format!("with readings vs without: {}", first_diff(f.fingerprint(), twin.fingerprint())),
        ));
    }
    t.add_items(f.fingerprint());
    rep.hit_n("readings-that-grew", grown);
    rep.trace = t.0;
    rep.signature = sig_of(c, &[grown]);
    rep.nontrivial = grown >= 2;
    rep.sim_us = n_fed as u64 * 1_000_000 / rate as u64;
    Ok(rep)
}

// ---------- C06 ----------

/// A microphone array: more channels than fit sixteen bits, or nearly.
fn gen_many(r: &mut Rng, c: &mut Case) -> i64 {
    let fs = r.pick(&[16, 24, 32]);
    c.set("fs", fs);
    c.set("ov", r.pick(&[0, fs / 2, fs / 4]));
    c.set("kind", r.pick(&[5, 5, 9, 0, 1]));
    r.pick(&[255, 256, 257, 1000, 32_768, 65_535, 65_536, 65_537, 66_000, 70_000, 131_072])
}

pub fn gen_c06(r: &mut Rng, t: Tier, _i: u64) -> Case {
    let mut c = Case::new("C06");
    if r.chance(1, 60) {
        c.set("cfg", r.range(0, 2));
        c.set("src", r.range(0, 1 << 30));
        let ch = gen_many(r, &mut c);
        c.set("ch", ch);
        c.set("rate", r.range(1001, 1300));
        let n = r.range(1, 3_000_000 / ch).min(3000);
        gen_deliveries(r, &mut c, n, 20);
        return c;
    }
    let long = r.chance(1, 6);
    if long {
        // small frames: many rows for little audio
        c.set("cfg", r.range(0, 4));
        let fs = r.pick(&[16, 24, 32, 64, 128]);
        c.set("fs", fs);
        c.set("ov", r.pick(&[0, fs / 2, fs / 4]));
        if r.chance(1, 3) {
            c.set("nc", r.range(1, 8));
            c.set("cs", r.range(0, 1 << 20));
        }
        if r.chance(1, 4) {
            c.set("interp", r.range(1, 2));
        }
        c.set("rate", if r.chance(3, 4) { 11025 } else { gen_rate(r) });
        c.set("ch", r.range(1, 2));
    } else {
        gen_config(r, &mut c, 55);
        c.set("rate", gen_rate(r));
        c.set("ch", gen_channels(r));
    }
    c.set("kind", r.range(0, KINDS - 1));
    c.set("src", r.range(0, 1 << 30));
    let k = ref_config(&c);
    let items = if long {
        let top = if t == Tier::Thorough && r.chance(1, 20) { 300_000 } else { 12_000 };
        let top = if r.chance(1, 40) { top.max(70_000) } else { top };
        r.log_range(200, top)
    } else {
        match r.weighted(&[4, 4, 1]) {
            0 => 6,
            1 => 40,
            // past one turn of the 256-row image
            _ => r.range(230, 330),
        }
    };
    let mut n = gen_frames(r, &k, rate_of(&c), items);
    n = n.min(6_000_000 / ch_of(&c) as i64);
    // optional quiet lead-in: matters to configurations that remove leading silence
    if r.chance(1, 4) {
        c.set("lead", r.log_range(1, 60000));
        c.set("leadkind", r.range(3, 4));
    }
    if r.chance(1, 3) {
        gen_deliveries(r, &mut c, n, 60);
    } else {
        c.op("d", &[n]);
    }
    c
}

pub fn run_c06(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    note_setup(&mut rep, c);
    let (rate, ch) = (rate_of(c), ch_of(c));
    let total: usize = c.ops.iter().map(|o| calls_of(o)).map(|(n, k)| n * k).sum();
    let lead = (c.get("lead").max(0) as usize).min(total);
    let mut data = Source::new(c.get("src") as u64, c.get("leadkind"), rate, ch).take(lead);
    data.extend(Source::new(c.get("src") as u64 + 1, c.get("kind"), rate, ch).take(total - lead));
    let k = config(c);
    let rk = ref_config(c);
    let mut f = started(&k, rate, ch)?;
    let mut at = 0;
    for op in &c.ops {
        let (n, times) = calls_of(op);
        for _ in 0..times {
            f.consume(&data[at * ch as usize..(at + n) * ch as usize]);
            at += n;
        }
    }
    f.finish();
    let got = f.fingerprint();

    let mono = refmodel::scale(&refmodel::downmix(&data, ch as usize));
    let native = rate == TARGET;
    let x = refmodel::resample(&mono, rate, 64);
    let eps = if native { 1e-7 } else { 1e-4 };
    let judge = |x: &[f64], lo: usize, hi: usize| -> Result<u64, String> {
        let e = refmodel::fingerprint(x, &rk, eps);
        if got.len() < lo || got.len() > hi {
            return Err(format!(
                "{total} frames at {rate} Hz: {} items, the algorithm gives {}",
                got.len(),
                if lo == hi { format!("{lo}") } else { format!("{lo}..{hi}") }
            ));
        }
        let mut exempt = 0u64;
        for i in 0..got.len() {
            if i >= e.items.len() {
                break;
            }
            exempt += e.mask[i].count_zeros() as u64;
            if (got[i] ^ e.items[i]) & e.mask[i] != 0 {
                return Err(format!(
                    "item {i} of {}: {:08x}, the algorithm gives {:08x} (decided bits {:08x})",
                    got.len(),
                    got[i],
                    e.items[i],
                    e.mask[i]
                ));
            }
        }
        Ok(exempt)
    };
    let full = |x: &[f64]| {
        let (lo, hi) = if native {
            (rk.items(x.len()), rk.items(x.len()))
        } else {
            (rk.items(min_outputs(total as i64, 0, rate)), rk.items(max_outputs(total as i64, rate)))
        };
        judge(x, lo, hi)
    };
    let mut t = Trace::new();
    t.add_items(got);
    let verdict = match rk.silence {
        None => full(&x),
        Some(th) => {
            rep.hit("config:removes-silence");
            // the quiet part ends where the average magnitude first exceeds the threshold; at
            // other rates rounding may move that by a sample, which only native runs can exclude
            let cut = refmodel::strip_silence(&x, th);
            let strict = if native || cut.len() == x.len() {
                let n = cut.len();
                let (lo, hi) = if native {
                    (rk.items(n), rk.items(n))
                } else {
                    (rk.items(n.saturating_sub(70)), rk.items(n))
                };
                judge(cut, lo, hi)
            } else {
                Ok(0)
            };
            match strict {
                Ok(e) => Ok(e),
                Err(m) => {
                    // the listed finding: the fingerprint of the stream with its silence left in
                    if full(&x).is_ok() {
                        rep.known.push(format!("silence-not-removed leading silence was fingerprinted: {m}"));
                        Ok(0)
                    } else {
                        Err(m)
                    }
                }
            }
        }
    };
    match verdict {
        Ok(exempt) => rep.hit_n("bits-exempt", exempt),
        Err(m) => return Err(Violation::new("differs-from-algorithm", m)),
    }
    rep.hit_n("items-checked", got.len() as u64);
    if got.len() > 256 {
        rep.hit("image-wrapped");
    }
    if got.len() > 65536 {
        rep.hit("over-65536-rows");
    }
    if lead > 0 {
        rep.hit("quiet-lead-in");
    }
    rep.trace = t.0;
    rep.signature = sig_of(c, &[t.0]);
    rep.nontrivial = !got.is_empty();
    rep.sim_us = total as u64 * 1_000_000 / rate as u64;
    Ok(rep)
}

// ---------- C07 ----------

pub fn gen_c07(r: &mut Rng, _t: Tier, _i: u64) -> Case {
    let items = r.pick(&[4, 20, 60]);
    let (mut c, n) = gen_stream(r, "C07", 50, items);
    gen_deliveries(r, &mut c, n, 40);
    let cuts = r.range(1, 4);
    for _ in 0..cuts {
        let at = match r.weighted(&[3, 3, 2]) {
            0 => r.range(0, n),
            1 => (r.range(0, (n / BUF).max(0)) * BUF + r.pick(&[0, 1, -1, 2, 8, 16, 17, 31, 40, -9])).clamp(0, n),
            _ => (n - r.log_range(1, 4000)).max(0),
        };
        c.op("cut", &[at]);
    }
    c
}

pub fn run_c07(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    note_setup(&mut rep, c);
    let (rate, ch) = (rate_of(c), ch_of(c));
    let k = config(c);
    let rk = ref_config(c);
    let total: usize = c.ops.iter().map(|o| calls_of(o)).map(|(n, k)| n * k).sum();
    let data = Source::new(c.get("src") as u64, c.get("kind"), rate, ch).take(total);
    let feed = |limit: usize| -> Result<Vec<u32>, Violation> {
        let mut f = started(&k, rate, ch)?;
        let mut at = 0;
        'outer: for op in &c.ops {
            let (n, times) = calls_of(op);
            for _ in 0..times {
                let m = n.min(limit - at);
                f.consume(&data[at * ch as usize..(at + m) * ch as usize]);
                at += m;
                if at == limit {
                    break 'outer;
                }
            }
        }
        f.finish();
        Ok(f.fingerprint().to_vec())
    };
    let whole = feed(total)?;
    let mut t = Trace::new();
    t.add_items(&whole);
    let mut useful = 0;
    for op in c.ops.iter().filter(|o| o.name == "cut") {
        let at = (op.arg(0).max(0) as usize).min(total);
        let part = feed(at)?;
        rep.hit("fault:stream-cut");
        rep.sim_us += at as u64 * 1_000_000 / rate as u64;
        if part.len() > whole.len() || part[..] != whole[..part.len()] {
            return Err(Violation::new(
                "not-a-prefix",
                format!("cut at {at} of {total} frames at {rate} Hz: {}", first_diff(&part, &whole)),
            ));
        }
        let lo = rk.items(min_outputs(at as i64, 0, rate)).min(whole.len());
        let hi = rk.items(max_outputs(at as i64, rate));
        if part.len() < lo || part.len() > hi {
            return Err(Violation::new(
                "wrong-length",
                format!("cut at {at} of {total} frames at {rate} Hz: {} items, {lo}..{hi} expected", part.len()),
            ));
        }
        if !part.is_empty() && part.len() < whole.len() {
            useful += 1;
        }
        t.add_items(&part);
    }
    rep.trace = t.0;
    rep.signature = sig_of(c, &[]);
    rep.nontrivial = useful > 0;
    rep.sim_us += total as u64 * 1_000_000 / rate as u64;
    Ok(rep)
}

// ---------- C08 ----------

pub fn gen_c08(r: &mut Rng, t: Tier, i: u64) -> Case {
    let mut c = Case::new("C08");
    c.set("kind", r.pick(&[0, 1, 3, 6, 8]));
    c.set("src", r.range(0, 1 << 30));
    c.set("ch", r.pick(&[1, 1, 1, 2, 2, 3, 6]));
    c.set("rate", if r.chance(1, 2) { 11025 } else { gen_rate(r) });
    c.set("cfg", r.range(0, 4));
    if i == 3 || (t == Tier::Thorough && i == 4) {
        // more than 2^32 frames into the resampler (at a rate that makes them few samples), or out of it
        let down = i == 3;
        c.set("rate", if down { r.range(50_000_000, 400_000_000) } else { 1001 });
        c.set("ch", 1);
        c.set("fs", if down { 1024 } else { 8192 });
        c.set("ov", 0);
        c.set("loop", 1);
        c.op("rep", &[1 << 20, if down { 4100 } else { 380 }]);
        return c;
    }
    if t == Tier::Thorough && i == 5 {
        // five days of audio at 11025 Hz: past 2^32 samples
        c.set("rate", 11025);
        c.set("ch", 1);
        c.set("fs", 8192);
        c.set("ov", 0);
        c.set("loop", 1);
        c.op("rep", &[1 << 20, 4100]);
        return c;
    }
    if r.chance(3, 4) {
        let fs = r.pick(&[16, 32, 64, 100, 256, 1024]);
        c.set("fs", fs);
        c.set("ov", r.pick(&[0, fs / 2, fs / 4, fs - fs / 3]));
    }
    if r.chance(1, 4) {
        // many short sessions
        let n = r.range(2, 6);
        for _ in 0..n {
            let frames = r.log_range(1, 60_000);
            let times = r.log_range(8, (1_500_000 / frames).clamp(8, 100));
            c.op("cycle", &[frames, times, r.range(0, 1), r.below(3) as i64]);
        }
        if r.chance(1, 2) {
            // very many, very short ones
            c.set("rate", 11025);
            c.ops.truncate(1);
            c.op("cycle", &[r.range(0, 40), r.range(2000, 6000), r.range(0, 1), 0]);
        }
        return c;
    }
    let top = if t == Tier::Thorough { 60_000_000 } else { 6_000_000 };
    let total = r.log_range(400_000, top) / c.get("ch");
    let n = match r.weighted(&[2, 2, 2, 1]) {
        0 => r.pick(&[1152, 4096, 1024]),
        1 => BUF + r.range(-2, 2),
        2 => r.log_range(32, 200_000),
        _ => r.range(100_000, 900_000),
    };
    c.op("rep", &[n, (total / n).max(8)]);
    if r.chance(1, 3) {
        let m = r.log_range(64, 40_000);
        c.op("rep", &[m, (total / 4 / m).max(1)]);
    }
    c
}

pub fn run_c08(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    note_setup(&mut rep, c);
    let (rate, ch) = (rate_of(c), ch_of(c));
    let k = config(c);
    // audio comes from a pool generated once, so that only the fingerprinter allocates
    let max_n = c.ops.iter().map(|o| o.arg(0).clamp(0, 1 << 22) as usize).max().unwrap_or(0);
    let pool_frames = (max_n + 50_000).min(1 << 22).max(max_n);
    let pool = Source::new(c.get("src") as u64, c.get("kind"), rate, ch).take(pool_frames);
    let mut at = 0usize;
    let mut next = |n: usize| -> &[i16] {
        if at + n > pool_frames {
            at = 0;
        }
        let s = &pool[at * ch as usize..(at + n) * ch as usize];
        at += n;
        s
    };
    let base = crate::alloc::live();
    let mut f = started(&k, rate, ch)?;
    let mut fed = 0u64;
    let mut t = Trace::new();
    let cycles = c.ops.iter().any(|o| o.name == "cycle");
    if cycles {
        // memory after the n-th cycle of the same shape must not exceed what earlier ones needed
        let mut needed = 0i64;
        for op in &c.ops {
            if op.name != "cycle" {
                continue;
            }
            let n = op.arg(0).clamp(0, 1 << 22) as usize;
            crate::alloc::reset_peak();
            let mut first = 0i64;
            for j in 0..op.arg(1).clamp(1, 10_000) {
                let r = match op.arg(3) {
                    0 => rate,
                    1 if j % 2 == 1 => TARGET,
                    _ => rate,
                };
                f.start(r, ch).map_err(|e| Violation::new("start-refused", e.to_string()))?;
                f.consume(next(n));
                if op.arg(2) == 1 {
                    f.finish();
                    rep.hit("fault:session-finished");
                } else {
                    rep.hit("fault:session-abandoned");
                }
                fed += n as u64;
                let now = crate::alloc::peak() - base;
                if j <= 3 {
                    first = first.max(now);
                } else if now > first.max(needed) + 32768 {
                    return Err(Violation::new(
                        "memory-grows-with-sessions",
                        format!("session {j} of the same {n} frames: {now} bytes at peak, {first} needed before"),
                    ));
                }
                t.add(f.fingerprint().len() as u64);
            }
            needed = needed.max(first).max(crate::alloc::peak() - base);
        }
        rep.nontrivial = fed > 0;
    } else {
        let total: u64 = c
            .ops
            .iter()
            .map(|o| o.arg(0).clamp(0, 1 << 22) as u64 * o.arg(1).clamp(0, 1 << 24) as u64)
            .sum();
        let mut warm = 0i64; // peak while the stream is young
        let mut young = true;
        crate::alloc::reset_peak();
        for op in &c.ops {
            let (n, times) = (op.arg(0).clamp(0, 1 << 22) as usize, op.arg(1).clamp(0, 1 << 24));
            let mut first = true;
            for _ in 0..times {
                // every delivery size has a working set of its own
                f.consume(next(n));
                fed += n as u64;
                let items = f.fingerprint().len() as i64;
                let used = crate::alloc::peak() - base;
                if young || first {
                    warm = warm.max(used);
                    young = fed < total / 4 || (fed as i64) < 4 * BUF;
                    first = (fed as i64) < 4 * BUF;
                } else if used > warm + 8 * items + 65536 {
                    return Err(Violation::new(
                        "memory-grows",
                        format!(
                            "{used} bytes at peak after {fed} frames ({items} items); {warm} in the first quarter of {total}"
                        ),
                    ));
                }
            }
        }
        f.finish();
        let items = f.fingerprint().len() as i64;
        let rk = ref_config(c);
        let lo = rk.items(min_outputs(fed as i64, 0, rate)) as i64;
        if items < lo {
            return Err(Violation::new(
                "stops-with-age",
                format!("{items} items after {fed} frames at {rate} Hz, {lo} are due"),
            ));
        }
        t.add_items(f.fingerprint());
        rep.hit_n("items", items as u64);
        if items > 65536 {
            rep.hit("over-65536-items");
        }
        rep.nontrivial = items > 16;
    }
    // everything is given back
    let got = f.fingerprint().len();
    drop(f);
    let _ = got;
    let left = crate::alloc::live() - base;
    if left > 262_144 {
        return Err(Violation::new("memory-not-returned", format!("{left} bytes still allocated after drop")));
    }
    rep.trace = t.0;
    rep.signature = sig_of(c, &[]);
    rep.sim_us = (fed as u128 * 1_000_000 / rate as u128) as u64;
    Ok(rep)
}

// ---------- C09 ----------

/// Decoder written from the format description: id, 24-bit count, 3-bit deltas ended by 0 per
/// item (7 means "7 plus the next 5-bit value"), 5-bit extras, each section padded to bytes.
pub fn decompress(b: &[u8]) -> Result<(u8, Vec<u32>), String> {
    if b.len() < 4 {
        return Err(format!("{} bytes: header incomplete", b.len()));
    }
    let n = (b[1] as usize) << 16 | (b[2] as usize) << 8 | b[3] as usize;
    let body = &b[4..];
    let bits = |start: usize, at: usize, w: usize| -> Option<u8> {
        let mut v = 0u8;
        for k in 0..w {
            let p = at * w + k;
            let byte = body.get(start + p / 8)?;
            v |= ((byte >> (p % 8)) & 1) << k;
        }
        Some(v)
    };
    let mut deltas: Vec<u8> = vec![];
    let (mut i, mut zeros, mut sevens) = (0usize, 0usize, 0usize);
    while zeros < n {
        let v = bits(0, i, 3).ok_or_else(|| format!("item {zeros} of {n}: out of bytes"))?;
        i += 1;
        if v == 0 {
            zeros += 1;
        }
        if v == 7 {
            sevens += 1;
        }
        deltas.push(v);
    }
    let normal = (i * 3 + 7) / 8;
    for p in i * 3..normal * 8 {
        if (body[p / 8] >> (p % 8)) & 1 != 0 {
            return Err("padding bits set".into());
        }
    }
    let extra = (sevens * 5 + 7) / 8;
    if body.len() != normal + extra {
        return Err(format!("{} bytes of body, {} expected", body.len(), normal + extra));
    }
    let mut items = vec![];
    let (mut prev, mut bit, mut cur, mut x) = (0u32, 0u32, 0u32, 0usize);
    for d in deltas {
        if d == 0 {
            prev ^= cur;
            items.push(prev);
            bit = 0;
            cur = 0;
            continue;
        }
        let mut step = d as u32;
        if d == 7 {
            step += bits(normal, x, 5).ok_or("out of extra bytes")? as u32;
            x += 1;
        }
        bit += step;
        if bit > 32 {
            return Err(format!("bit {bit} in item {}", items.len()));
        }
        cur |= 1 << (bit - 1);
    }
    Ok((b[0], items))
}

pub fn gen_c09(r: &mut Rng, _t: Tier, _i: u64) -> Case {
    let mut c = Case::new("C09");
    if r.chance(1, 3) {
        // synthetic archive contents
        let len = match r.weighted(&[2, 4, 2, 1]) {
            0 => r.range(0, 9),
            1 => r.log_range(1, 3000),
            2 => r.pick(&[255, 256, 257, 65534, 65535, 65536, 65537]),
            _ => r.log_range(3000, 150_000),
        };
        c.set("cfg", r.range(0, 4));
        c.op("load", &[r.range(0, 7), len, r.range(0, 1 << 30)]);
        for _ in 0..r.range(0, 6) {
            gen_damage(r, &mut c);
        }
    } else {
        gen_config(r, &mut c, 85);
        c.set("rate", if r.chance(3, 4) { 11025 } else { gen_rate(r) });
        c.set("ch", r.range(1, 2));
        c.set("kind", r.range(0, KINDS - 1));
        c.set("src", r.range(0, 1 << 30));
        let k = ref_config(&c);
        let items = r.pick(&[3, 40, 300]);
        let n = gen_frames(r, &k, rate_of(&c), items).min(1_500_000);
        let mut tmp = Case::new("");
        gen_deliveries(r, &mut tmp, n, 30);
        for op in tmp.ops {
            c.ops.push(op);
            c.op("snap", &[r.below(2) as i64]);
            if r.chance(1, 4) {
                gen_damage(r, &mut c);
            }
        }
        c.op("fin", &[]);
    }
    if r.chance(1, 3) {
        c.set("id", r.range(1, 255));
    }
    c
}

fn gen_damage(r: &mut Rng, c: &mut Case) {
    match r.weighted(&[3, 2, 2, 2, 2]) {
        0 => c.op("flip", &[r.range(0, 1 << 20), r.range(0, 31)]),
        1 => c.op("lose", &[r.range(0, 1 << 20), r.log_range(1, 300)]),
        2 => c.op("dup", &[r.range(0, 1 << 20), r.log_range(1, 300)]),
        3 => c.op("set", &[r.range(0, 1 << 20), r.pick(&[0, 0xffff_ffff, 1, 0x8000_0000, 0x7fff_ffff, 0x80, 0x40])]),
        _ => c.op("cutoff", &[r.range(0, 1 << 20)]),
    }
}

/// Storage damage to an archived fingerprint.
pub fn damage(op: &crate::case::Op, a: &mut Vec<u32>) -> bool {
    if a.is_empty() {
        return false;
    }
    let at = op.arg(0).max(0) as usize % a.len();
    match op.name.as_str() {
        "flip" => a[at] ^= 1 << (op.arg(1) & 31),
        "set" => a[at] = op.arg(1) as u32,
        "lose" => {
            let end = (at + op.arg(1).clamp(0, 1 << 20) as usize).min(a.len());
            a.drain(at..end);
        }
        "dup" => {
            let end = (at + op.arg(1).clamp(0, 1 << 20) as usize).min(a.len());
            if a.len() < 300_000 {
                let part = a[at..end].to_vec();
                a.splice(at..at, part);
            }
        }
        "cutoff" => a.truncate(at),
        _ => return false,
    }
    true
}

pub fn synth_items(kind: i64, len: usize, seed: u64) -> Vec<u32> {
    let mut r = Rng::new(mix(&[seed, 9]));
    let mut x = r.next() as u32;
    (0..len)
        .map(|i| match kind.rem_euclid(8) {
            0 => r.next() as u32,
            1 => 0,
            2 => u32::MAX,
            3 => {
                x ^= 1 << r.below(32);
                x
            }
            4 => {
                if i % 2 == 0 {
                    0
                } else {
                    1 << r.below(32)
                }
            }
            5 => {
                if r.chance(1, 9) {
                    x = r.next() as u32
                }
                x
            }
            6 => [0, 0x8000_0000, u32::MAX, 1][i % 4],
            _ => {
                x ^= (1u32 << r.below(32)) | (1u32 << r.below(32)) | (1u32 << r.below(32));
                x
            }
        })
        .collect()
}

pub fn run_c09(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let k = config(c);
    let want_id = ref_config(c).id;
    let mut t = Trace::new();
    let mut src: Option<Source> = None;
    let mut f: Option<Fingerprinter> = None;
    let mut twin: Option<Fingerprinter> = None;
    let mut archive: Vec<u32> = vec![];
    let (rate, ch) = (rate_of(c), ch_of(c));
    let mut checked = 0u64;
    let mut check = |fp: &[u32], rep: &mut Report, t: &mut Trace| -> Result<(), Violation> {
        let z = FingerprintCompressor::from(&k).compress(fp);
        let z2 = FingerprintCompressor::from(&k).compress(fp);
        if z != z2 {
            return Err(Violation::new("not-repeatable", format!("{} compressed twice differs", show(fp))));
        }
        match decompress(&z) {
            Err(m) => return Err(Violation::new("not-decodable", format!("{}: {m}", show(fp)))),
            Ok((id, items)) => {
                if id != want_id || k.id() != want_id {
                    return Err(Violation::new("wrong-id", format!("{id} instead of {want_id}")));
                }
                if items != fp {
                    return Err(Violation::new("wrong-items", format!("decoded vs original: {}", first_diff(&items, fp))));
                }
            }
        }
        t.add_bytes(&z);
        rep.hit("snapshots");
        if fp.len() > 65535 {
            rep.hit("over-65535-items");
        }
        if fp.is_empty() {
            rep.hit("empty-fingerprint");
        }
        checked += fp.len() as u64;
        Ok(())
    };
    for op in &c.ops {
        match op.name.as_str() {
            "load" => {
                archive = synth_items(op.arg(0), op.arg(1).clamp(0, 1 << 20) as usize, op.arg(2) as u64);
                check(&archive, &mut rep, &mut t)?;
            }
            "d" | "rep" => {
                if f.is_none() {
                    f = Some(started(&k, rate, ch)?);
                    twin = Some(started(&k, rate, ch)?);
                    src = Some(Source::new(c.get("src") as u64, c.get("kind"), rate, ch));
                }
                let (n, times) = calls_of(op);
                for _ in 0..times {
                    let data = src.as_mut().unwrap().take(n);
                    f.as_mut().unwrap().consume(&data);
                    twin.as_mut().unwrap().consume(&data);
                    rep.sim_us += n as u64 * 1_000_000 / rate as u64;
                }
            }
            "snap" | "fin" => {
                if let Some(f) = f.as_mut() {
                    if op.name == "fin" {
                        f.finish();
                        twin.as_mut().unwrap().finish();
                    }
                    check(f.fingerprint(), &mut rep, &mut t)?;
                    if op.arg(0) == 1 || op.name == "fin" {
                        archive = f.fingerprint().to_vec();
                    }
                    if f.fingerprint() != twin.as_ref().unwrap().fingerprint() {
                        return Err(Violation::new("stream-disturbed", "compressing changed the stream".into()));
                    }
                }
            }
            _ => {
                if damage(op, &mut archive) {
                    rep.hit(&format!("fault:archive-{}", op.name));
                    check(&archive, &mut rep, &mut t)?;
                }
            }
        }
    }
    check(&archive, &mut rep, &mut t)?;
    rep.hit_n("items-checked", checked);
    rep.trace = t.0;
    rep.signature = t.0;
    rep.nontrivial = checked > 0;
    Ok(rep)
}
