//! C10: two archives holding damaged copies of recordings, and the matcher between them.

use crate::case::{Case, Report, Violation};
use crate::lib_world::{damage, preset, synth_items};
use crate::rng::{mix, Rng, Trace};
use crate::runner::{catching, Tier};
use rusty_chromaprint::{match_fingerprints, Segment};

/// The longest fingerprint that can be indexed.
const MAX_LEN: usize = (1 << 19) - 3;

pub fn gen_c10(r: &mut Rng, _t: Tier, i: u64) -> Case {
    let mut c = Case::new("C10");
    c.set("cfg", r.range(0, 4));
    if i % 700 == 311 {
        // around the limit of what can be indexed
        let n = MAX_LEN as i64 + r.pick(&[-1, 0, 1, 2, 3]);
        let which = r.range(0, 1);
        c.op("base", &[0, r.range(0, 3000), r.range(0, 1 << 30)]);
        c.op("grow", &[which, n]);
        return c;
    }
    // recordings of many hours
    let long = i % 250 == 77;
    let len = match r.weighted(&[1, 4, 3]) {
        _ if long => r.log_range(10_000, 180_000),
        0 => r.range(0, 4),
        1 => r.range(1, 400),
        _ => r.log_range(10, 3000),
    };
    let kind = if long { r.pick(&[0, 7]) } else { r.pick(&[0, 0, 7, 7, 5, 3, 1, 6]) };
    c.op("base", &[kind, len, r.range(0, 1 << 30)]);
    let side = |r: &mut Rng| r.range(0, 1);
    for _ in 0..r.range(0, 10) {
        match r.weighted(&[3, 3, 2, 3, 2, 2, 2]) {
            0 => {
                let s = side(r);
                c.op("front", &[s, r.log_range(1, 400), r.range(0, 1 << 20)])
            }
            1 => {
                let s = side(r);
                c.op("crop", &[s, r.range(0, len), r.log_range(1, len.max(1))])
            }
            2 => c.op("lose", &[side(r), r.range(0, 1 << 20), r.log_range(1, 200)]),
            // a stretch with random bit errors, in 1/64 per bit
            3 => c.op("noise", &[side(r), r.range(0, 1 << 20), r.log_range(1, 400), r.range(1, 32), r.range(0, 1 << 20)]),
            4 => c.op("flip", &[side(r), r.range(0, 1 << 20), r.range(0, 31)]),
            5 => c.op("dup", &[side(r), r.range(0, 1 << 20), r.log_range(1, 200)]),
            _ => c.op("set", &[side(r), r.range(0, 1 << 20), r.pick(&[0, 0xffff_ffff, 0x000f_ffff])]),
        }
    }
    // unrelated audio spliced in, or a second common stretch at another alignment
    if r.chance(1, 4) {
        c.op("splice", &[side(r), r.range(0, 1 << 20), r.log_range(1, 400), r.range(0, 1 << 20)]);
    }
    if r.chance(1, 6) {
        c.op("replace", &[side(r), r.range(0, 7), r.log_range(0.max(1), 500), r.range(0, 1 << 20)]);
    }
    c
}

fn build(c: &Case, rep: &mut Report) -> [Vec<u32>; 2] {
    let mut fp: [Vec<u32>; 2] = [vec![], vec![]];
    for op in &c.ops {
        let s = (op.arg(0) & 1) as usize;
        let mut shifted = op.clone();
        shifted.args.drain(..1.min(op.args.len()));
        match op.name.as_str() {
            "base" => {
                let v = synth_items(op.arg(0), op.arg(1).clamp(0, 200_000) as usize, op.arg(2) as u64);
                fp = [v.clone(), v];
            }
            "front" => {
                let v = synth_items(0, op.arg(1).clamp(0, 5000) as usize, op.arg(2) as u64 + 5);
                fp[s].splice(0..0, v);
                rep.hit("fault:shifted");
            }
            "crop" => {
                let n = fp[s].len();
                let a = (op.arg(1).max(0) as usize).min(n);
                let b = (a + op.arg(2).max(0) as usize).min(n);
                fp[s] = fp[s][a..b].to_vec();
                rep.hit("fault:cropped");
            }
            "noise" => {
                if fp[s].is_empty() {
                    continue;
                }
                let a = op.arg(1).max(0) as usize % fp[s].len();
                let b = (a + op.arg(2).max(0) as usize).min(fp[s].len());
                let mut r = Rng::new(mix(&[op.arg(4) as u64, 3]));
                for x in &mut fp[s][a..b] {
                    for bit in 0..32 {
                        if r.below(64) < op.arg(3).clamp(0, 64) as u64 {
                            *x ^= 1 << bit;
                        }
                    }
                }
                rep.hit("fault:noise-burst");
            }
            "splice" => {
                let n = fp[s].len();
                let a = op.arg(1).max(0) as usize % (n + 1);
                let v = synth_items(0, op.arg(2).clamp(0, 5000) as usize, op.arg(3) as u64 + 6);
                fp[s].splice(a..a, v);
                rep.hit("fault:foreign-audio");
            }
            "replace" => {
                fp[s] = synth_items(op.arg(1), op.arg(2).clamp(0, 20_000) as usize, op.arg(3) as u64 + 7);
                rep.hit("fault:unrelated");
            }
            "grow" => {
                let v = synth_items(0, op.arg(1).clamp(0, 1 << 20) as usize, 99);
                fp[s] = v;
                rep.hit("index-limit");
            }
            _ => {
                if damage(&shifted, &mut fp[s]) {
                    rep.hit(&format!("fault:archive-{}", op.name));
                }
            }
        }
    }
    fp
}

// ---- reference matcher: whole numbers wherever a decision is made ----

/// Agreements per alignment: position in fp1 minus position in fp2.
struct Histogram {
    counts: Vec<u32>,
    zero: i64,
}

impl Histogram {
    fn get(&self, d: i64) -> u32 {
        usize::try_from(d + self.zero).ok().and_then(|i| self.counts.get(i)).copied().unwrap_or(0)
    }
}

fn histogram(a: &[u32], b: &[u32]) -> Histogram {
    let mut by: std::collections::HashMap<u32, Vec<usize>> = Default::default();
    for (j, y) in b.iter().enumerate() {
        by.entry(y >> 20).or_default().push(j);
    }
    let mut h = Histogram { counts: vec![0; a.len() + b.len()], zero: b.len() as i64 };
    for (i, x) in a.iter().enumerate() {
        if let Some(v) = by.get(&(x >> 20)) {
            for &j in v {
                h.counts[i + b.len() - j] += 1;
            }
        }
    }
    h
}

/// Sums over a window of w values around each position, mirrored at the ends.
fn box_sum(v: &[i64], w: i64) -> Vec<i64> {
    let n = v.len() as i64;
    let at = |p: i64| {
        let q = p.rem_euclid(2 * n);
        v[(if q < n { q } else { 2 * n - 1 - q }) as usize]
    };
    (0..n).map(|i| (i - w / 2..i - w / 2 + w).map(at).sum()).collect()
}

struct Expect {
    segments: Vec<(usize, usize, usize, f64)>,
    sure: bool,
}

fn expect_at(a: &[u32], b: &[u32], d: i64) -> Expect {
    let (o1, o2) = (d.max(0) as usize, (-d).max(0) as usize);
    let n = (a.len() - o1).min(b.len() - o2);
    let bits: Vec<i64> = (0..n).map(|i| (a[o1 + i] ^ b[o2 + i]).count_ones() as i64).collect();
    let mut s = bits.clone();
    for w in [15, 15, 17] {
        s = box_sum(&s, w);
    }
    // twice the absolute gradient, times 15*15*17
    let unit = 15 * 15 * 17i64;
    let g: Vec<i64> = (0..n)
        .map(|i| {
            if n == 1 {
                0
            } else if i == 0 {
                2 * (s[1] - s[0]).abs()
            } else if i == n - 1 {
                2 * (s[n - 1] - s[n - 2]).abs()
            } else {
                (s[i + 1] - s[i - 1]).abs()
            }
        })
        .collect();
    let mut sure = true;
    let limit = 0.15 * 2.0 * unit as f64;
    let mut ends: Vec<usize> = vec![];
    for i in 1..n.saturating_sub(1) {
        if (g[i] as f64 - limit).abs() < 1e-3 {
            sure = false;
        }
        if g[i] as f64 > limit - 1e-3 {
            if g[i] == g[i - 1] || g[i] == g[i + 1] {
                // equal neighbours: rounding decides
                sure = false;
            }
            if g[i] >= g[i - 1] && g[i] >= g[i + 1] && ends.last().map_or(true, |&l| l + 1 < i) {
                ends.push(i);
            }
        }
    }
    ends.push(n);
    let mut segments: Vec<(usize, usize, usize, f64)> = vec![];
    let mut begin = 0;
    for end in ends {
        let sum: i64 = bits[begin..end].iter().sum();
        let m = end - begin;
        let score = sum as f64 / m as f64;
        if score < 10.0 {
            let mut merged = false;
            if let Some(l) = segments.last_mut() {
                let diff = (l.3 - score).abs();
                if (diff - 0.7).abs() < 1e-9 {
                    sure = false;
                }
                if diff < 0.7 && l.0 + l.2 == o1 + begin {
                    l.3 = (l.3 * l.2 as f64 + score * m as f64) / (l.2 + m) as f64;
                    l.2 += m;
                    merged = true;
                }
            }
            if !merged {
                segments.push((o1 + begin, o2 + begin, m, score));
            }
        }
        begin = end;
    }
    Expect { segments, sure }
}

fn same(e: &Expect, got: &[Segment]) -> bool {
    e.segments.len() == got.len()
        && e.segments.iter().zip(got).all(|(x, y)| {
            x.0 == y.offset1 && x.1 == y.offset2 && x.2 == y.items_count && (x.3 - y.score).abs() < 1e-9
        })
}

/// What must hold of any answer, and the comparison with the reference.
pub fn judge(a: &[u32], b: &[u32], got: &[Segment], rep: &mut Report) -> Result<(), Violation> {
    let text = |s: &Segment| format!("{}+{} / {} score {:.4}", s.offset1, s.items_count, s.offset2, s.score);
    for (i, s) in got.iter().enumerate() {
        if s.items_count == 0 {
            return Err(Violation::new("empty-segment", text(s)));
        }
        if s.offset1 + s.items_count > a.len() || s.offset2 + s.items_count > b.len() {
            return Err(Violation::new(
                "outside",
                format!("{} of {} / {} items", text(s), a.len(), b.len()),
            ));
        }
        let sum: u32 = (0..s.items_count).map(|k| (a[s.offset1 + k] ^ b[s.offset2 + k]).count_ones()).sum();
        let score = sum as f64 / s.items_count as f64;
        if !((score - s.score).abs() < 1e-6) {
            return Err(Violation::new("wrong-score", format!("{}, really {score:.6}", text(s))));
        }
        if s.score >= 10.0 + 1e-9 {
            return Err(Violation::new("not-similar", text(s)));
        }
        if i > 0 {
            let p = &got[i - 1];
            if p.offset1 + p.items_count > s.offset1 || p.offset2 + p.items_count > s.offset2 {
                return Err(Violation::new("overlap", format!("{} then {}", text(p), text(s))));
            }
            if s.offset1 as i64 - s.offset2 as i64 != p.offset1 as i64 - p.offset2 as i64 {
                return Err(Violation::new("two-alignments", format!("{} then {}", text(p), text(s))));
            }
        }
    }
    let h = histogram(a, b);
    let top = h.counts.iter().copied().max().unwrap_or(0);
    if top < 2 {
        rep.hit("no-common-alignment");
        if !got.is_empty() {
            return Err(Violation::new(
                "match-from-nothing",
                format!("{} reported, but no alignment has two agreements", text(&got[0])),
            ));
        }
        return Ok(());
    }
    let best: Vec<i64> = (0..).zip(&h.counts).filter(|(_, &n)| n == top).map(|(i, _)| i - h.zero).collect();
    if best.len() > 1 {
        rep.hit("tied-alignments");
    }
    if let Some(s) = got.first() {
        let d = s.offset1 as i64 - s.offset2 as i64;
        if !best.contains(&d) {
            return Err(Violation::new(
                "wrong-alignment",
                format!("aligned at {d} ({} agreements), {top} agreements at {}", h.get(d), best[0]),
            ));
        }
    }
    let mut sure = true;
    for &d in best.iter().take(400) {
        let e = expect_at(a, b, d);
        if same(&e, got) {
            rep.hit("equals-reference");
            return Ok(());
        }
        sure &= e.sure;
    }
    if best.len() > 400 || !sure {
        rep.hit("rounding-decides");
        return Ok(());
    }
    let e = expect_at(a, b, best[0]);
    Err(Violation::new(
        "wrong-segments",
        format!(
            "{} and {} items: reported [{}], the algorithm gives {:?}",
            a.len(),
            b.len(),
            got.iter().map(text).collect::<Vec<_>>().join("; "),
            e.segments
        ),
    ))
}

pub fn run_c10(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let [a, b] = build(c, &mut rep);
    let k = preset(c.get("cfg"));
    let mut t = Trace::new();
    for (x, y) in [(&a, &b), (&b, &a)] {
        let r = match catching(|| match_fingerprints(x, y, &k)) {
            Ok(r) => r,
            Err(p) => {
                return Err(Violation::new("panic", format!("{} and {} items: {p}", x.len(), y.len())))
            }
        };
        let too_long = x.len().max(y.len()) > MAX_LEN;
        match r {
            Err(e) => {
                if !too_long {
                    return Err(Violation::new(
                        "refused",
                        format!("{} and {} items: {e}", x.len(), y.len()),
                    ));
                }
                rep.hit("refused-too-long");
            }
            Ok(got) => {
                // what lies just beyond the limit may be served or refused, but not wrongly
                if x.len().max(y.len()) >= 1 << 19 {
                    return Err(Violation::new("accepted-too-long", format!("{} and {} items", x.len(), y.len())));
                }
                judge(x, y, &got, &mut rep)?;
                for s in &got {
                    t.add(s.offset1 as u64);
                    t.add(s.offset2 as u64);
                    t.add(s.items_count as u64);
                    t.add(s.score.to_bits());
                }
                rep.hit_n("segments", got.len() as u64);
                if got.len() > 1 {
                    rep.hit("several-segments");
                }
                rep.nontrivial |= !got.is_empty();
            }
        }
    }
    let mut s = Trace::new();
    s.add_items(&a);
    s.add_items(&b);
    rep.trace = t.0;
    rep.signature = s.0;
    rep.sim_us = (a.len() + b.len()) as u64 * 123_810;
    Ok(rep)
}
