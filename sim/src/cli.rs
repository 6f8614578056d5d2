//! C11-C15 and C18: the real fpcalc and compare binaries on a simulated operating system
//! (shim/shim.c): storage, standard output and the clock follow the case.

use crate::case::{Case, Report, Violation};
use crate::lib_world::{first_diff, one_shot, preset};
use crate::media::{self, Media};
use crate::rng::{mix, Rng, Trace};
use crate::runner::{catching, root, Tier};
use crate::signal;
use base64url::decode as b64;
use rusty_chromaprint::{match_fingerprints, Configuration};
use std::collections::HashMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};

mod base64url {
    /// URL-safe alphabet, no padding.
    pub fn decode(s: &str) -> Result<Vec<u8>, String> {
        let (mut acc, mut n) = (0u32, 0);
        let mut out = vec![];
        for c in s.bytes() {
            let v = match c {
                b'A'..=b'Z' => c - b'A',
                b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52,
                b'-' => 62,
                b'_' => 63,
                _ => return Err(format!("character {:?} in base64", c as char)),
            };
            acc = acc << 6 | v as u32;
            n += 6;
            if n >= 8 {
                n -= 8;
                out.push((acc >> n) as u8);
                acc &= (1 << n) - 1;
            }
        }
        if n == 6 || acc != 0 {
            return Err("left-over base64 bits".into());
        }
        Ok(out)
    }
}

// ---------- running a program ----------

#[derive(Debug, Clone)]
enum Ev {
    /// media, position, bytes got, bytes wanted, heap
    Read(usize, u64, u64, u64, i64),
    ReadErr(usize, u64, i32),
    Open(usize, i32),
    Stat(usize, i32),
    Seek(usize, i32),
    /// bytes taken, bytes offered
    Write(u64, u64),
    WriteErr(i32),
    Clock(i64),
    /// media, bytes delivered, new clock
    Tick(usize, u64, i64),
    Short,
}

struct Run {
    /// Exit status; None when ended by a signal.
    status: Option<i32>,
    out: Vec<u8>,
    err: String,
    ev: Vec<Ev>,
    log: Vec<u8>,
}

impl Run {
    fn failed(&self) -> bool {
        self.status != Some(0)
    }
    fn read_errors(&self) -> usize {
        self.ev.iter().filter(|e| matches!(e, Ev::ReadErr(_, _, x) if *x != EINTR)).count()
    }
    fn how(&self) -> String {
        // without the thread number, which differs from run to run
        let mut e: String = self.err.lines().take(6).collect::<Vec<_>>().join(" / ");
        if let Some((a, b)) = e.split_once("thread 'main' (") {
            e = format!("{a}main thread{}", b.trim_start_matches(|c: char| c.is_ascii_digit() || c == ')'));
        }
        match self.status {
            Some(c) => format!("exit status {c}, stderr: {e}"),
            None => format!("killed by a signal, stderr: {e}"),
        }
    }
}

struct Scratch(PathBuf);

const NAMES: i64 = 8;

fn gen_name(r: &mut Rng) -> i64 {
    if r.chance(2, 3) {
        0
    } else {
        r.range(1, NAMES - 1)
    }
}

impl Scratch {
    fn new() -> Scratch {
        let p = root().join("build/scratch").join(std::process::id().to_string());
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    /// What a file is called says nothing about what is in it.
    fn media(&self, i: usize, m: &Media, name: i64) -> PathBuf {
        let p = self.0.join(match name.rem_euclid(NAMES) {
            1 => OsString::from(format!("m{i}")),
            2 => format!("m{i}.{}", if m.ext == "wav" { "flac" } else { "wav" }).into(),
            3 => format!("M{i}.{}", m.ext.to_uppercase()).into(),
            4 => format!("m{i} - \u{44f}\u{1f3b5}'s \"x\".tar.{}", m.ext).into(),
            5 => {
                let mut b = format!("m{i}").into_bytes();
                b.extend([0xff, 0xfe, b'.', 0xe9]);
                OsString::from_vec(b)
            }
            6 => format!(".{i}").into(),
            7 => format!("m{i}.{}", ["mp3", "ogg", "txt", "m4a", "aac"][m.bytes.len() % 5]).into(),
            _ => format!("m{i}.{}", m.ext).into(),
        });
        std::fs::write(&p, &m.bytes).expect("scratch file");
        p
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        if std::env::var_os("SIMCHECK_KEEP").is_none() {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

fn programs() -> PathBuf {
    root().join("build/cli/release")
}

fn exec(s: &Scratch, prog: &str, args: &[OsString], plan: &[u8], tz: &str, heap: bool) -> Run {
    let (plan_file, log_file) = (s.0.join("plan"), s.0.join("log"));
    std::fs::write(&plan_file, plan).expect("plan");
    let _ = std::fs::remove_file(&log_file);
    let mut cmd = Command::new(programs().join(prog));
    cmd.args(args)
        .env_clear()
        .env("LD_PRELOAD", root().join("build/shim.so"))
        .env("SIMIO_PLAN", &plan_file)
        .env("SIMIO_LOG", &log_file)
        .env("TZ", tz)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let o = cmd.output().unwrap_or_else(|e| panic!("cannot run {prog}: {e}"));
    let log = std::fs::read(&log_file).unwrap_or_default();
    if !o.status.success() && matches!(o.status.code(), Some(97 | 98)) {
        panic!("the shim rejected its plan");
    }
    let mut ev = vec![];
    let mut canon = vec![];
    for l in String::from_utf8_lossy(&log).lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| w.get(i).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
        let u = |i: usize| n(i) as u64;
        let i = |k: usize| n(k) as i32;
        let m = |k: usize| n(k) as usize;
        ev.push(match w[0] {
            "R" => Ev::Read(m(1), u(3), u(4), u(5), if heap { n(6) } else { 0 }),
            "E" => Ev::ReadErr(m(1), u(3), i(4)),
            "O" => Ev::Open(m(1), i(2)),
            "F" => Ev::Stat(m(1), i(2)),
            "S" => Ev::Seek(m(1), i(2)),
            "W" => Ev::Write(u(2), u(3)),
            "X" => Ev::WriteErr(i(2)),
            "C" => Ev::Clock(n(1)),
            "T" => Ev::Tick(m(1), u(2), n(3)),
            _ => Ev::Short,
        });
        // the heap column is exact but not part of the observable behaviour
        canon.extend_from_slice(w[..w.len().min(6)].join(" ").as_bytes());
        canon.push(b'\n');
    }
    Run {
        status: o.status.code(),
        out: o.stdout,
        err: String::from_utf8_lossy(&o.stderr).replace(s.0.to_str().unwrap_or(""), ""),
        ev,
        log: canon,
    }
}

/// Counts what actually happened.
fn account(rep: &mut Report, run: &Run, t: &mut Trace, media: &[&Media]) {
    let mut high = [0u64; 2];
    for e in &run.ev {
        match e {
            Ev::Read(m, pos, got, want, _) => {
                let size = media.get(*m).map_or(u64::MAX, |x| x.bytes.len() as u64);
                high[*m & 1] = high[*m & 1].max(pos + got);
                if got < want && pos + got < size {
                    rep.hit(if *got == 0 { "fault:early-eof" } else { "fault:short-read" });
                }
            }
            Ev::ReadErr(_, pos, e) => {
                rep.hit(&format!("fault:read-errno-{e}"));
                let m = media[0];
                rep.hit(if *pos < m.data {
                    "read error in the header"
                } else if *pos >= m.packets.last().map_or(0, |p| p.0) {
                    "read error after the audio"
                } else {
                    "read error in the audio"
                });
            }
            Ev::Open(_, e) if *e != 0 => rep.hit("fault:open-refused"),
            Ev::Stat(_, e) if *e != 0 => rep.hit("fault:stat-failed"),
            Ev::Seek(_, e) if *e != 0 => rep.hit("fault:seek-failed"),
            Ev::Seek(..) => rep.hit("seeks"),
            Ev::Write(a, b) if a < b => rep.hit("fault:short-write"),
            Ev::WriteErr(e) => rep.hit(&format!("fault:write-errno-{e}")),
            Ev::Tick(..) => rep.hit("fault:clock-moved"),
            Ev::Clock(_) => rep.hit("clock reads"),
            _ => {}
        }
    }
    t.add(run.status.unwrap_or(-1) as u64);
    t.add_bytes(&run.out);
    t.add_bytes(&run.log);
}

// ---------- cases ----------

const TZS: &[&str] = &["UTC", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "", "<-03>3", ":/nonexistent"];

fn rate_of(c: &Case) -> u32 {
    c.get("rate").clamp(1001, 192_000) as u32
}
fn ch_of(c: &Case) -> usize {
    media::channels_in(c.get("box"), c.get("ch").clamp(1, 8) as usize)
}

fn gen_rate(r: &mut Rng) -> i64 {
    match r.weighted(&[6, 3, 3, 3, 2]) {
        0 => r.range(1001, 2400),
        1 => r.pick(&[1152, 2304, 1001, 1024, 1250]),
        2 => r.pick(&[8000, 11025]),
        3 => r.pick(&[22050, 16000, 44100, 48000, 12000, 44100, 48000, 88200, 96000, 192_000]),
        _ => r.log_range(1001, 48000),
    }
}

/// One media file: samples by seed, container, packets.
fn gen_media(r: &mut Rng, c: &mut Case, seconds: f64) {
    let rate = gen_rate(r);
    c.set("rate", rate);
    c.set("ch", r.pick(&[1, 1, 1, 2, 2, 2, 3, 6, 4, 5, 7, 8]));
    c.set("kind", r.pick(&[7, 8, 1, 0, 2, 7, 8, 5, 3]));
    c.set("src", r.range(0, 1 << 30));
    c.set(
        "box",
        match r.range(0, 9) {
            0..=2 => media::FLAC,
            3 => media::MKV,
            _ => r.range(0, media::CONTAINERS - 1),
        },
    );
    c.set("frames", (seconds * rate as f64) as i64);
    if r.chance(1, 4) {
        c.set("before", r.log_range(2, 9000) & !1);
    }
    if r.chance(1, 4) {
        c.set("after", r.log_range(2, 4000) & !1);
    }
    if media::is_flac(c.get("box")) {
        for _ in 0..r.range(1, 5) {
            let b = match r.weighted(&[3, 3, 2, 2]) {
                0 => r.pick(&[192, 576, 1152, 4096, 4608]),
                1 => r.log_range(16, 65535),
                2 => rate * r.range(1, 4) + r.pick(&[-1, 0, 1]),
                _ => r.range(16, 400),
            };
            c.op("block", &[b.clamp(16, 65535)]);
        }
    }
}

fn samples_of(c: &Case) -> Vec<i16> {
    let frames = c.get("frames").clamp(0, 8_000_000) as usize;
    let mut v = signal::generate(c.get("src") as u64, c.get("kind"), rate_of(c), ch_of(c) as u32, frames);
    if media::is_flac(c.get("box")) {
        media::avoid_sync(&mut v);
    }
    v
}

fn media_of(c: &Case, samples: &[i16], announced: u64) -> Media {
    let blocks: Vec<usize> =
        c.ops.iter().filter(|o| o.name == "block").map(|o| o.arg(0).clamp(16, 65535) as usize).collect();
    let damage: Vec<_> = damage_of(c).into_iter().collect();
    media::build(&media::Spec {
        damage: &damage,
        container: c.get("box"),
        rate: rate_of(c),
        channels: ch_of(c),
        samples,
        blocks: &blocks,
        before: c.get("before").clamp(0, 60_000) as usize & !1,
        after: c.get("after").clamp(0, 60_000) as usize & !1,
        announced,
    })
}

/// Damaged blocks, by number; the first damage of a block counts.
fn damage_of(c: &Case) -> Vec<(usize, i64, usize)> {
    let mut v: Vec<(usize, i64, usize)> = vec![];
    if media::is_flac(c.get("box")) {
        for o in c.ops.iter().filter(|o| o.name == "damage") {
            let i = o.arg(0).max(0) as usize;
            if v.iter().all(|d| d.0 != i) {
                v.push((i, o.arg(1).rem_euclid(media::damages_of(c.get("box"))), o.arg(2).clamp(0, 1000) as usize));
            }
        }
    }
    v.sort();
    v
}

/// How the clock starts: seconds since 1970 and some nanoseconds.
fn gen_clock(r: &mut Rng) -> i64 {
    let s = r.pick(&[0, 1, 999_999_999, 1_700_000_000, 1_735_689_599, 2_147_483_646, 4_294_967_295, 1_520_000_000]);
    (s + r.range(0, 100_000)) * 1_000_000_000 + r.range(0, 999_999_999)
}

/// Schedules of how reads are satisfied; none of it is a failure.
fn gen_benign(r: &mut Rng, c: &mut Case, media: i64) {
    if r.chance(1, 2) {
        c.op("cap", &[media, r.pick(&[1, 2, 7, 100, 511, 1000, 1024, 4096, 5000, 30000])]);
    }
    for _ in 0..r.pick(&[0, 0, 1, 3, 8]) {
        c.op("short", &[media, r.log_range(0, 60), r.log_range(1, 4096)]);
    }
    if r.chance(1, 4) {
        c.op("pipe", &[media]);
    }
    if r.chance(1, 12) {
        c.op("stat", &[media, 5]);
    }
    for _ in 0..r.pick(&[0, 0, 0, 2]) {
        c.op("err", &[media, r.log_range(0, 60), EINTR as i64]);
    }
}

/// The plan for the operating system; `tiny` media reads are limited so that runs stay short.
fn plan_of(c: &Case, paths: &[PathBuf], sizes: &[usize], only: &[&str]) -> Vec<u8> {
    let mut p = vec![];
    for (i, f) in paths.iter().enumerate() {
        p.extend(format!("media {i} ").bytes());
        p.extend(f.as_os_str().as_bytes());
        p.push(b'\n');
    }
    let has = |k: &str| only.is_empty() || only.contains(&k);
    for o in &c.ops {
        if !has(&o.name) {
            continue;
        }
        let m = o.arg(0).clamp(0, paths.len() as i64 - 1);
        let (a, b) = (o.arg(1), o.arg(2));
        let line = match o.name.as_str() {
            "cap" => {
                // one byte at a time is only bearable for small files
                let least = (sizes[m as usize] / 20_000) as i64;
                format!("cap {m} {}", a.max(1).max(least))
            }
            "short" => format!("short {m} {} {}", a.max(0), b.max(1)),
            "err" => format!("err {m} {} {}", a.max(0), b),
            "errat" => format!("errat {m} {} {}", a.max(0), b),
            "once" => format!("once {m} {} {}", a.max(0), b),
            "eof" => format!("eof {m} {}", a.max(0)),
            "pipe" => format!("pipe {m}"),
            "open" => format!("open {m} {a}"),
            "stat" => format!("stat {m} {a}"),
            "seek" => format!("seek {m} {a}"),
            "tick" => format!("tick {m} {} {}", a.max(-1), b),
            "wshort" => format!("wshort {} {}", o.arg(0).max(0), a.max(1)),
            "wcap" => format!("wcap {}", o.arg(0).max(16)),
            "werr" => format!("werr {} {} {}", o.arg(0).max(0), a, b),
            _ => continue,
        };
        p.extend(line.bytes());
        p.push(b'\n');
    }
    p.extend(format!("clock {}\nrand {}\n", c.get("clock").max(0), c.get("rand")).bytes());
    p
}

fn tz_of(c: &Case) -> &'static str {
    TZS[c.get("tz").rem_euclid(TZS.len() as i64) as usize]
}

fn gen_env(r: &mut Rng, c: &mut Case) {
    c.set("clock", gen_clock(r));
    c.set("tz", r.range(0, TZS.len() as i64 - 1));
    c.set("rand", r.range(0, 1 << 40));
}

// ---------- fpcalc ----------

fn gen_options(r: &mut Rng, c: &mut Case) {
    c.set("alg", r.pick(&[0, 1, 1, 2, 3, 4]));
    c.set("fmt", r.range(0, 2));
    c.set("raw", r.range(0, 1));
    c.set("signed", r.range(0, 1));
}

fn args_of(c: &Case, file: &PathBuf, ts: bool) -> Vec<OsString> {
    let mut a: Vec<OsString> = vec![];
    let mut push = |s: &str| a.push(s.into());
    push("-a");
    push(&(c.get("alg").rem_euclid(5)).to_string());
    push("-F");
    push(["text", "json", "plain"][c.get("fmt").rem_euclid(3) as usize]);
    if c.get("raw") == 1 {
        push("-R");
    }
    if c.get("signed") == 1 {
        push("-s");
    }
    if c.get("length") >= 0 {
        push("-l");
        push(&c.get("length").to_string());
    }
    if c.get("chunk") > 0 {
        push("-C");
        push(&c.get("chunk").to_string());
    }
    if c.get("overlap") == 1 {
        push("-o");
    }
    if ts {
        push("-T");
    }
    a.push(file.into());
    a
}

#[derive(Debug)]
struct Shown {
    ts: Option<f64>,
    dur: Option<f64>,
    items: Vec<u32>,
}

fn fingerprint_text(c: &Case, fp: &str) -> Result<Vec<u32>, String> {
    if c.get("raw") == 1 {
        if fp.is_empty() {
            return Ok(vec![]);
        }
        return fp
            .split(',')
            .map(|x| {
                if c.get("signed") == 1 {
                    x.parse::<i32>().map(|v| v as u32).map_err(|e| format!("{x:?}: {e}"))
                } else {
                    x.parse::<u32>().map_err(|e| format!("{x:?}: {e}"))
                }
            })
            .collect();
    }
    let (id, items) = crate::lib_world::decompress(&b64(fp)?)?;
    if id as i64 != c.get("alg").rem_euclid(5) {
        return Err(format!("algorithm id {id} in the compressed fingerprint"));
    }
    Ok(items)
}

/// A flat JSON object: string keys; numbers, strings or arrays of numbers as raw text.
fn flat_json(s: &str) -> Result<HashMap<String, String>, String> {
    let b = s.trim();
    let inner = b.strip_prefix('{').and_then(|x| x.strip_suffix('}')).ok_or("not a JSON object")?;
    let mut m = HashMap::new();
    let mut rest = inner.trim();
    while !rest.is_empty() {
        let r = rest.strip_prefix('"').ok_or("key expected")?;
        let (key, r) = r.split_once('"').ok_or("open key")?;
        let r = r.trim_start().strip_prefix(':').ok_or("colon expected")?.trim_start();
        let (val, r) = if let Some(x) = r.strip_prefix('"') {
            let (v, r) = x.split_once('"').ok_or("open string")?;
            if v.contains('\\') {
                return Err("escape in a string".into());
            }
            (format!("\"{v}"), r)
        } else if let Some(x) = r.strip_prefix('[') {
            let (v, r) = x.split_once(']').ok_or("open array")?;
            (format!("[{v}"), r)
        } else {
            let n = r.find([',', ' ']).unwrap_or(r.len());
            (r[..n].to_string(), &r[n..])
        };
        if m.insert(key.to_string(), val).is_some() {
            return Err(format!("key {key} twice"));
        }
        rest = r.trim_start();
        if !rest.is_empty() {
            rest = rest.strip_prefix(',').ok_or("comma expected")?.trim_start();
            if rest.is_empty() {
                return Err("trailing comma".into());
            }
        }
    }
    Ok(m)
}

fn number(s: &str) -> Result<f64, String> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit() || b"+-.eE".contains(&b)) {
        return Err(format!("{s:?} is not a number"));
    }
    s.parse::<f64>().map_err(|e| format!("{s:?}: {e}"))
}

/// Reads fpcalc's output strictly by its format.
fn parse(c: &Case, out: &[u8], ts: bool) -> Result<Vec<Shown>, String> {
    let t = std::str::from_utf8(out).map_err(|e| e.to_string())?;
    if t.is_empty() {
        return Ok(vec![]);
    }
    if !t.ends_with('\n') {
        return Err("the last line is not complete".into());
    }
    let lines: Vec<&str> = t[..t.len() - 1].split('\n').collect();
    let mut v = vec![];
    match c.get("fmt").rem_euclid(3) {
        0 => {
            let mut i = 0;
            while i < lines.len() {
                if !v.is_empty() {
                    if !lines[i].is_empty() {
                        return Err(format!("line {}: results are not separated", i + 1));
                    }
                    i += 1;
                }
                let mut get = |key: &str| -> Result<&str, String> {
                    let l = lines.get(i).ok_or(format!("{key} missing at the end"))?;
                    i += 1;
                    l.strip_prefix(key)
                        .and_then(|x| x.strip_prefix('='))
                        .ok_or(format!("line {i}: {key} expected, found {l:?}"))
                };
                let stamp = if ts { Some(number(get("TIMESTAMP")?)?) } else { None };
                let dur = number(get("DURATION")?)?;
                let items = fingerprint_text(c, get("FINGERPRINT")?)?;
                v.push(Shown { ts: stamp, dur: Some(dur), items });
            }
        }
        1 => {
            for l in lines {
                let m = flat_json(l).map_err(|e| format!("{e} in {l:.60}"))?;
                let want = if c.get("chunk") > 0 { 3 } else { 2 };
                if m.len() != want {
                    return Err(format!("{} keys in a JSON result", m.len()));
                }
                let stamp = if want == 3 {
                    Some(number(m.get("timestamp").ok_or("no timestamp")?)?)
                } else {
                    None
                };
                let dur = number(m.get("duration").ok_or("no duration")?)?;
                let f = m.get("fingerprint").ok_or("no fingerprint")?;
                let f = f
                    .strip_prefix(if c.get("raw") == 1 { '[' } else { '"' })
                    .ok_or("fingerprint of the wrong JSON type")?;
                v.push(Shown { ts: stamp, dur: Some(dur), items: fingerprint_text(c, f)? });
            }
        }
        _ => {
            for l in lines {
                v.push(Shown { ts: None, dur: None, items: fingerprint_text(c, l)? });
            }
        }
    }
    Ok(v)
}

/// What fpcalc has to print for a stream: pieces as (first frame, end frame).
struct Pieces<'a> {
    c: &'a Case,
    m: &'a Media,
    config: Configuration,
    rate: u32,
    cache: HashMap<(usize, usize), Vec<u32>>,
}

impl<'a> Pieces<'a> {
    fn new(c: &'a Case, m: &'a Media) -> Pieces<'a> {
        Pieces { c, m, config: preset(c.get("alg")), rate: rate_of(c), cache: HashMap::new() }
    }
    fn chunk(&self) -> usize {
        (self.c.get("chunk").max(0) as usize).saturating_mul(self.rate as usize)
    }
    fn limit(&self) -> usize {
        let l = if self.c.get("length") < 0 { 120 } else { self.c.get("length") as usize };
        if l == 0 {
            usize::MAX
        } else {
            l.saturating_mul(self.rate as usize)
        }
    }
    /// Lead-in of overlapping pieces, in frames of the input.
    fn lead(&self) -> usize {
        if self.c.get("overlap") == 1 && self.c.get("chunk") > 0 {
            let d = self.config.delay() as u64 * self.rate as u64;
            d.div_ceil(self.config.sample_rate() as u64) as usize
        } else {
            0
        }
    }
    /// Pieces of a stream of `n` frames (before the length limit).
    fn of(&self, n: usize) -> Vec<(usize, usize)> {
        let n = n.min(self.limit());
        let (k, d) = (self.chunk(), self.lead());
        let mut v = vec![];
        if n == 0 {
            return v;
        }
        if k == 0 {
            return vec![(0, n)];
        }
        let mut i = 0;
        loop {
            let end = ((i + 1) * k).saturating_add(d).min(n);
            v.push((i * k, end));
            if end == n {
                return v;
            }
            i += 1;
        }
    }
    fn items(&mut self, p: (usize, usize)) -> Result<&Vec<u32>, Violation> {
        if !self.cache.contains_key(&p) {
            let ch = self.m.channels;
            let data = &self.m.samples[p.0 * ch..p.1 * ch];
            let v = one_shot(&self.config, self.rate, ch as u32, data)?;
            self.cache.insert(p, v);
        }
        Ok(&self.cache[&p])
    }
    /// Checks one printed result against the piece it must be.
    fn check(&mut self, i: usize, s: &Shown, p: (usize, usize), ts: bool) -> Result<(), Violation> {
        let rate = self.rate as f64;
        let text = self.c.get("fmt").rem_euclid(3) == 0;
        if let Some(d) = s.dur {
            let want = (p.1 - p.0) as f64 / rate;
            if (d - want).abs() > if text { 1e-6 } else { 0.005_001 } {
                return Err(Violation::new(
                    "wrong-duration",
                    format!("result {i}: duration {d} printed, frames {}..{} last {want}", p.0, p.1),
                ));
            }
        }
        if let (Some(t), false) = (s.ts, ts) {
            let want = p.0 as f64 / rate;
            if (t - want).abs() > 0.005_001 {
                return Err(Violation::new(
                    "wrong-timestamp",
                    format!("result {i}: timestamp {t} printed, the piece starts at {want}"),
                ));
            }
        }
        let want = self.items(p)?.clone();
        if s.items != want {
            return Err(Violation::new(
                "wrong-fingerprint",
                format!("result {i} (frames {}..{}): {}", p.0, p.1, first_diff(&s.items, &want)),
            ));
        }
        Ok(())
    }
    /// All results of a complete run over `n` frames.
    fn check_all(&mut self, shown: &[Shown], n: usize, ts: bool) -> Result<(), Violation> {
        let want = self.of(n);
        for (i, (s, p)) in shown.iter().zip(&want).enumerate() {
            self.check(i, s, *p, ts)?;
        }
        if shown.len() != want.len() {
            return Err(Violation::new(
                "wrong-count",
                format!("{} results printed, {} expected for {n} frames", shown.len(), want.len()),
            ));
        }
        Ok(())
    }
}

fn malformed(e: String) -> Violation {
    Violation::new("malformed-output", e)
}

fn note(rep: &mut Report, c: &Case, m: &Media) {
    rep.hit(&format!("container:{}", media::container_name(c.get("box"))));
    rep.sim_us += m.frames() as u64 * 1_000_000 / rate_of(c) as u64;
}

// ---------- C11 ----------

fn gen_offset(r: &mut Rng, m: &Media, k: usize) -> i64 {
    let end = m.packets.last().map_or(m.data, |p| p.0) as i64;
    match r.weighted(&[2, 4, 4, 2, 1]) {
        0 => r.range(0, m.data as i64 + 8),
        1 => r.range(m.data as i64, end.max(m.data as i64)),
        2 if !m.packets.is_empty() => {
            let (o, _) = m.packets[r.below(m.packets.len() as u64) as usize];
            o as i64 + r.pick(&[-1, 0, 0, 1])
        }
        3 if k > 0 => {
            let f = (r.range(1, 4) as usize * k).min(m.frames());
            m.offset_of(f) as i64 + r.pick(&[-1, 0, 1])
        }
        _ => end + r.pick(&[-2, -1, 0, 1]),
    }
}

/// Mostly a failing disk; then whatever file systems, network or not, and devices return.
const READ_ERRNOS: &[i64] = &[
    5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 110, 110, 116, 116, 11, 11, 22, 12, 1, 2, 6, 9, 13, 14, 16, 19, 21, 23, 26, 28, 29, 32, 34, 36,
    38, 40, 61, 62, 71, 74, 75, 84, 95, 100, 101, 103, 104, 107, 111, 112, 113, 117, 121, 122, 123, 125, 126,
];
const EINTR: i32 = 4;

/// symphonia cannot read CAF from a source it cannot seek in.
fn needs_seek(c: &Case, media: i64, ext: &str) -> bool {
    ext == "caf"
        && c.ops.iter().any(|o| o.arg(0) == media && matches!(o.name.as_str(), "pipe" | "stat" | "seek"))
}

pub fn gen_c11(r: &mut Rng, t: Tier, _i: u64) -> Case {
    let mut c = Case::new("C11");
    gen_options(r, &mut c);
    gen_env(r, &mut c);
    c.set("name", gen_name(r));
    let max = if t == Tier::Quick { 9.0 } else { 30.0 };
    let secs = if r.chance(1, 6) { r.f64() } else { r.f64() * max };
    gen_media(r, &mut c, secs);
    c.set("length", r.pick(&[-1, 0, 0, 3, 5]));
    if r.chance(1, 3) {
        c.set("chunk", r.range(1, 4));
        c.set("overlap", r.chance(1, 5) as i64);
    }
    gen_benign(r, &mut c, 0);
    let m = media_of(&c, &samples_of(&c), 0);
    let k = (c.get("chunk") * c.get("rate")) as usize;
    match r.weighted(&[2, 3, 3, 3, 3, 1]) {
        0 => {}
        1 => c.op("err", &[0, r.log_range(0, 80), r.pick(READ_ERRNOS)]),
        2 => c.op("errat", &[0, gen_offset(r, &m, k), r.pick(READ_ERRNOS)]),
        3 => c.op("once", &[0, gen_offset(r, &m, k), r.pick(READ_ERRNOS)]),
        4 => {
            let o = gen_offset(r, &m, k);
            c.op("eof", &[0, o]);
            if c.get("fmt") == 2 || c.get("fmt") == 1 {
                c.set("fmt", 0);
            }
        }
        _ => match r.range(0, 2) {
            0 => c.op("open", &[0, r.pick(&[2, 13, 24, 5])]),
            1 => c.op("seek", &[0, r.pick(&[5, 29])]),
            _ => {
                // a storm: several transient errors
                for _ in 0..r.range(2, 6) {
                    c.op("err", &[0, r.log_range(0, 200), 5]);
                }
            }
        },
    }
    c
}

pub fn run_c11(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut t = Trace::new();
    let m = media_of(c, &samples_of(c), 0);
    let s = Scratch::new();
    let path = s.media(0, &m, c.get("name"));
    note(&mut rep, c, &m);
    let run = exec(&s, "fpcalc", &args_of(c, &path, false), &plan_of(c, &[path.clone()], &[m.bytes.len()], &[]), tz_of(c), false);
    account(&mut rep, &run, &mut t, &[&m]);
    let n = m.frames();
    let eof = c.ops.iter().filter(|o| o.name == "eof").map(|o| o.arg(1).max(0) as u64).min();
    let opened = !run.ev.iter().any(|e| matches!(e, Ev::Open(_, x) if *x != 0));
    let seek_fault = c.ops.iter().any(|o| o.name == "seek" && o.arg(1) != 0);
    let errors = run.read_errors();
    let mut pieces = Pieces::new(c, &m);
    let shown = match parse(c, &run.out, false) {
        Ok(x) => x,
        Err(e) => return Err(malformed(format!("{e}; {}", run.how()))),
    };
    if !opened && !run.failed() {
        return Err(Violation::new("open-failure-hidden", "the file could not be opened, exit status 0".into()));
    }
    if run.failed() || !opened {
        // everything printed before the failure must still be right, and complete
        let want = pieces.of(n);
        if shown.len() > want.len() {
            return Err(Violation::new("too-much-output", format!("{} results, at most {}", shown.len(), want.len())));
        }
        for (i, x) in shown.iter().enumerate() {
            pieces.check(i, x, want[i], false)?;
        }
        let excuse =
            errors > 0 || !opened || eof.is_some() || seek_fault || needs_seek(c, 0, m.ext) || m.frames() == 0;
        if !excuse {
            return Err(Violation::new("failed-without-cause", format!("nothing failed, but {}", run.how())));
        }
        rep.hit(if errors > 0 { "failed read reported" } else { "failure reported" });
    } else if let Some(off) = eof.filter(|_| errors == 0) {
        // the file ended early: the durations say which audio was fingerprinted
        let avail = m.frames_before(off);
        let low = avail.saturating_sub(m.max_packet()).min(pieces.limit());
        // a FLAC block ends with a two-byte checksum, which its samples do not need
        let footer = if m.ext == "flac" { 2 } else { 0 };
        let high = m.frames_before(off + footer).min(pieces.limit());
        let k = pieces.chunk();
        let mut got = 0usize;
        for (i, x) in shown.iter().enumerate() {
            let d = x.dur.unwrap_or(0.0);
            let frames = (d * rate_of(c) as f64).round() as usize;
            let start = i * k;
            got = start + frames;
            if got > high {
                return Err(Violation::new(
                    "audio-invented",
                    format!("result {i} claims frames {start}..{got}, the file holds {high}"),
                ));
            }
        }
        if got < low {
            return Err(Violation::new("audio-dropped", format!("{got} frames fingerprinted, {avail} were there")));
        }
        pieces.check_all(&shown, got, false)?;
        rep.hit("ended early");
        t.add(got as u64);
    } else {
        if let Err(v) = pieces.check_all(&shown, n, false) {
            if errors > 0 {
                return Err(Violation::new(
                    "failed-read-hidden",
                    format!("{errors} reads failed, exit status 0, output not that of the file: {}", v.detail),
                ));
            }
            return Err(v);
        }
        rep.hit("complete");
    }
    let interesting = run.ev.iter().any(|e| !matches!(e, Ev::Read(..) | Ev::Open(_, 0) | Ev::Write(..) | Ev::Clock(_)))
        || eof.is_some()
        || c.ops.iter().any(|o| o.name == "cap" || o.name == "short" || o.name == "pipe");
    rep.nontrivial = interesting && (run.failed() || shown.iter().any(|x| !x.items.is_empty()));
    rep.trace = t.0;
    let mut sg = Trace::new();
    sg.add_bytes(&run.log);
    rep.signature = sg.0;
    Ok(rep)
}

// ---------- C12 ----------

pub fn gen_c12(r: &mut Rng, t: Tier, _i: u64) -> Case {
    let mut c = Case::new("C12");
    gen_options(r, &mut c);
    gen_env(r, &mut c);
    c.set("name", gen_name(r));
    gen_media(r, &mut c, 1.0);
    let rate = c.get("rate");
    let k = r.pick(&[1, 1, 2, 3, 3, 4, 5, 8]);
    c.set("chunk", k);
    c.set("overlap", r.chance(1, 3) as i64);
    let max = if t == Tier::Quick { 16 } else { 60 };
    let off = r.range(-2000, 2000);
    let frames = match r.weighted(&[4, 3, 1, 1]) {
        0 => (k * rate * r.range(1, 1.max(max / k))) + r.pick(&[-1, 0, 1, -17, 1152, off]),
        1 => r.range(0, max * rate),
        2 => r.range(0, rate),
        _ => 1152 * r.range(1, 1.max(max * rate / 1152)) + r.pick(&[-1, 0, 1]),
    };
    c.set("frames", frames.max(0));
    c.set(
        "length",
        match r.weighted(&[3, 3, 3]) {
            0 => 0,
            1 => -1,
            _ => r.range(1, max),
        },
    );
    // rates for which chunks end exactly where packets do
    if r.chance(1, 5) && !media::is_flac(c.get("box")) {
        c.set("rate", 1152 * r.range(1, 4));
        c.set("frames", c.get("rate") * r.range(1, max) + r.pick(&[-1, 0, 0, 1]));
    }
    // minutes and hours of it
    if r.chance(1, 60) {
        let any = r.range(1001, 2400);
        let rate = r.pick(&[1001, 1024, 1152, any]);
        c.set("rate", rate);
        c.set("ch", 1);
        c.ops.retain(|o| o.name != "block" || o.arg(0) >= 400);
        let secs = r.log_range(100, if t == Tier::Quick { 4000 } else { 20_000 });
        c.set("frames", secs * rate + r.range(-5, 5));
        c.set("length", r.pick(&[-1, -1, 0, 0, secs - 1, secs, secs / 2 + 1, 120, 600, 3600]));
        c.set("chunk", if r.chance(1, 6) { 0 } else { r.log_range(1.max(secs / 40), secs + 10) });
    }
    // lengths that mean "everything", among them ones whose number of frames does not fit
    if r.chance(1, 15) {
        let huge = |r: &mut Rng, rate: i64| match r.range(0, 3) {
            0 => i64::MAX,
            1 => r.log_range(1 << 20, i64::MAX / 2),
            _ => ((r.range(1, 3) as i128 * (1i128 << 64)) / rate as i128 + r.range(0, 9) as i128)
                .min(i64::MAX as i128) as i64,
        };
        let rate = c.get("rate");
        if r.chance(2, 3) {
            c.set("length", huge(r, rate));
        }
        if r.chance(1, 2) {
            c.set("chunk", huge(r, rate));
        }
    }
    if r.chance(1, 2) {
        gen_benign(r, &mut c, 0);
    }
    c
}

fn sig_fp(c: &Case, run: &Run) -> u64 {
    let mut sg = Trace::new();
    for k in ["alg", "fmt", "raw", "signed", "length", "chunk", "overlap", "rate", "ch", "box", "frames"] {
        sg.add(c.get(k) as u64);
    }
    sg.add_bytes(&run.log);
    sg.0
}

pub fn run_c12(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut t = Trace::new();
    let m = media_of(c, &samples_of(c), 0);
    let s = Scratch::new();
    let path = s.media(0, &m, c.get("name"));
    note(&mut rep, c, &m);
    let run = exec(&s, "fpcalc", &args_of(c, &path, false), &plan_of(c, &[path.clone()], &[m.bytes.len()], &[]), tz_of(c), false);
    account(&mut rep, &run, &mut t, &[&m]);
    if (m.frames() == 0 || needs_seek(c, 0, m.ext)) && run.failed() && run.out.is_empty() {
        // a container without audio may be refused
        rep.hit("empty file refused");
        rep.trace = t.0;
        return Ok(rep);
    }
    if run.failed() {
        return Err(Violation::new("failed-without-cause", run.how()));
    }
    let shown = parse(c, &run.out, false).map_err(malformed)?;
    let mut p = Pieces::new(c, &m);
    let want = p.of(m.frames());
    p.check_all(&shown, m.frames(), false)?;
    let k = p.chunk();
    if k > 0 {
        rep.hit_n("pieces", want.len() as u64);
        if m.max_packet() > k {
            rep.hit("packet longer than a chunk");
        }
        if m.packets.iter().any(|x| x.1 % k == 0 && x.1 < m.frames()) {
            rep.hit("chunk ends with a packet");
        }
        if p.lead() > 0 {
            rep.hit("overlapping pieces");
            if want.last().is_some_and(|x| x.1 - x.0 <= p.lead()) {
                rep.hit("last piece within the lead-in");
            }
        }
        if m.frames() > p.limit() {
            rep.hit("cut by the length limit");
        }
    }
    rep.nontrivial = want.len() > 1 && shown.iter().any(|x| !x.items.is_empty());
    rep.trace = t.0;
    rep.signature = sig_fp(c, &run);
    Ok(rep)
}

// ---------- C13 ----------

pub fn gen_c13(r: &mut Rng, t: Tier, _i: u64) -> Case {
    let mut c = Case::new("C13");
    gen_options(r, &mut c);
    gen_env(r, &mut c);
    c.set("name", gen_name(r));
    let max = if t == Tier::Quick { 14.0 } else { 40.0 };
    let secs = r.f64() * max;
    gen_media(r, &mut c, secs);
    // FLAC packets are large; CAF files are read through before the first packet
    if [media::FLAC, media::MKV, 6, 10].contains(&c.get("box")) {
        c.set("box", r.pick(&[0, 1, 2, 3, 4]));
    }
    c.set("length", r.pick(&[-1, 0, 0, 5]));
    if r.chance(4, 5) {
        c.set("chunk", r.range(1, 4));
        c.set("overlap", r.chance(1, 4) as i64);
    }
    c.set("ts", r.chance(3, 4) as i64);
    c.op("cap", &[0, r.pick(&[200, 512, 1000, 2304, 4096, 8192])]);
    let m = media_of(&c, &samples_of(&c), 0);
    let end = m.bytes.len() as i64;
    let mut jumps = 0;
    let mut now = c.get("clock");
    // the passing of time, slow reads and jumps of the clock
    for _ in 0..r.range(1, 40) {
        let at = match r.weighted(&[4, 2, 2, 1]) {
            0 => r.range(0, end),
            // opening the file takes its time, as it does with a named pipe
            3 => -1,
            1 => m.data as i64 + r.range(-60, 3000),
            _ => {
                let k = (c.get("chunk").max(1) * c.get("rate")) as usize * r.range(1, 4) as usize;
                m.offset_of(k.min(m.frames())) as i64 + r.range(-3000, 9000)
            }
        };
        let mut d = match r.weighted(&[5, 3, 2, 2, 1]) {
            0 => r.range(10_000_000, 900_000_000),
            1 => r.range(1, 120) * 1_000_000_000,
            2 => -r.range(1, 7200) * 1_000_000_000,
            3 => r.pick(&[-1, 1]) * r.range(1, 999_999_999),
            _ => r.pick(&[-1, 1]) * r.range(1, 3000) * 86_400_000_000_000,
        };
        if now + d < 0 {
            d = -d;
        }
        now += d;
        if d < 0 || d > 60_000_000_000 {
            jumps += 1;
        }
        c.op("tick", &[0, at.max(-1), d]);
    }
    c.set("jumps", jumps);
    c
}

pub fn run_c13(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut t = Trace::new();
    let m = media_of(c, &samples_of(c), 0);
    let s = Scratch::new();
    let path = s.media(0, &m, c.get("name"));
    note(&mut rep, c, &m);
    let ts = c.get("ts") == 1;
    // shrinking may have dropped steps: keep the clock after 1970 at all times
    let mut safe = c.clone();
    let mut ticks: Vec<(i64, i64)> = c.ops.iter().filter(|o| o.name == "tick").map(|o| (o.arg(1).max(-1), o.arg(2))).collect();
    ticks.sort_by_key(|x| x.0);
    let mut now = c.get("clock").max(0);
    let mut clean = vec![];
    for (o, d) in ticks {
        let d = if now.saturating_add(d) < 0 || now.saturating_add(d) > 8_000_000_000_000_000_000 { 0 } else { d };
        now += d;
        clean.push((o, d));
    }
    safe.ops.retain(|o| o.name != "tick");
    for (o, d) in clean {
        safe.op("tick", &[0, o, d]);
    }
    let args = args_of(c, &path, ts);
    let run = exec(&s, "fpcalc", &args, &plan_of(&safe, &[path.clone()], &[m.bytes.len()], &[]), tz_of(c), false);
    account(&mut rep, &run, &mut t, &[&m]);
    if run.failed() {
        if m.frames() == 0 {
            rep.trace = t.0;
            return Ok(rep);
        }
        return Err(Violation::new("clock-made-it-fail", run.how()));
    }
    let shown = parse(c, &run.out, ts).map_err(malformed)?;
    let mut p = Pieces::new(c, &m);
    p.check_all(&shown, m.frames(), ts)?;
    if !ts {
        // another time, another clock: the same output
        let mut other = c.clone();
        other.set("clock", 86_400_000_000_000 * 9_000 + 123_456_789);
        other.set("tz", c.get("tz") + 1);
        let plain = plan_of(&other, &[path.clone()], &[m.bytes.len()], &["cap"]);
        let again = exec(&s, "fpcalc", &args, &plain, tz_of(&other), false);
        account(&mut rep, &again, &mut t, &[&m]);
        if again.out != run.out || again.status != run.status {
            return Err(Violation::new(
                "output-depends-on-the-clock",
                format!("{} bytes against {} with another clock, no --ts", run.out.len(), again.out.len()),
            ));
        }
        rep.hit("without --ts");
    } else {
        check_stamps(c, &safe, &m, &p, &run, &shown)?;
        rep.hit("with --ts");
        rep.hit_n("stamps checked", shown.iter().filter(|x| x.ts.is_some()).count() as u64);
    }
    let moved = run.ev.iter().any(|e| matches!(e, Ev::Tick(..)));
    rep.nontrivial = moved && shown.len() > 1 && (!ts || shown.iter().any(|x| x.ts.is_some()));
    rep.trace = t.0;
    rep.signature = sig_fp(c, &run);
    Ok(rep)
}

/// Every printed time must be one the clock showed while the previous piece became complete.
fn check_stamps(c: &Case, plan: &Case, m: &Media, p: &Pieces, run: &Run, shown: &[Shown]) -> Result<(), Violation> {
    // the clock after every delivery: (bytes delivered before, bytes delivered after, clock)
    let mut now = plan.get("clock").max(0);
    let mut hist: Vec<(u64, i64)> = vec![(0, now)];
    // where in it the first sample had arrived: the headers have been read and reading the audio begins
    let mut begun = None;
    let mut high = 0;
    for e in &run.ev {
        match e {
            Ev::Read(_, pos, got, _, _) => {
                if high > m.data && begun.is_none() {
                    begun = Some(hist.len());
                }
                high = high.max(pos + got);
                hist.push((high, now));
            }
            Ev::Tick(_, h, n) => {
                now = *n;
                if high == 0 {
                    // before the first read: reading has not begun
                    hist.clear();
                }
                hist.push((*h, now));
            }
            _ => {}
        }
    }
    let pieces = p.of(m.frames());
    let cap = run.ev.iter().map(|e| if let Ev::Read(_, _, g, _, _) = e { *g } else { 0 }).max().unwrap_or(0);
    let bpf = if m.frames() > 0 { (m.packets.last().unwrap().0 - m.data) / m.frames() as u64 } else { 1 };
    let packet = 1152 * bpf;
    let lead = p.lead() as f64 / p.rate as f64;
    let d = p.lead();
    for (i, x) in shown.iter().enumerate() {
        let Some(ts) = x.ts else { continue };
        // window of delivered bytes in which the clock may have been read
        let (lo, hi) = if i == 0 {
            (0, m.data + packet + 2 * cap)
        } else {
            let end = pieces[i - 1].1;
            let o = m.offset_of(end);
            (o, o + 2 * packet + 2 * cap)
        };
        let mut ok = false;
        let mut seen = vec![];
        let begun = if i > 0 || c.get("box").rem_euclid(media::CONTAINERS) == media::MKV { hist.len() } else { begun.unwrap_or(hist.len()) };
        for (h, n) in &hist[..begun] {
            if *h >= lo && *h <= hi || *h >= lo && seen.is_empty() {
                let mut v = *n as f64 / 1e9;
                if i > 0 && d > 0 {
                    v -= lead;
                }
                seen.push(v);
                ok |= (v - ts).abs() <= 0.005_01;
            }
        }
        if !ok {
            return Err(Violation::new(
                if i == 0 { "first-stamp-wrong" } else { "stamp-wrong" },
                format!(
                    "result {i} of {} is stamped {ts:.2}; the clock showed {:?} then (chunk {}, overlap {})",
                    shown.len(),
                    seen.iter().take(4).map(|v| format!("{v:.2}")).collect::<Vec<_>>(),
                    c.get("chunk"),
                    c.get("overlap")
                ),
            ));
        }
    }
    Ok(())
}

// ---------- C14 ----------

const WRITE_ERRNOS: &[i64] = &[28, 32, 5, 11, 27];

pub fn gen_c14(r: &mut Rng, t: Tier, _i: u64) -> Case {
    let mut c = Case::new("C14");
    gen_options(r, &mut c);
    gen_env(r, &mut c);
    c.set("name", gen_name(r));
    // now and then a result longer than the buffers between the program and its output
    let max = if r.chance(1, 3) || t == Tier::Thorough { 60.0 } else { 12.0 };
    let secs = r.f64() * max;
    gen_media(r, &mut c, secs);
    c.set("frames", c.get("frames").min(200_000));
    c.set("length", r.pick(&[-1, -1, 0, 5]));
    if r.chance(1, 2) {
        c.set("chunk", r.range(1, 5));
        c.set("overlap", r.chance(1, 5) as i64);
    }
    c.set("ts", r.chance(1, 5) as i64);
    // the other presentation of the same audio
    c.set("fmt2", r.range(0, 2));
    c.set("raw2", r.range(0, 1));
    c.set("signed2", r.range(0, 1));
    for _ in 0..r.range(0, 6) {
        // the first few calls carry the result
        let call = if r.chance(1, 2) { r.range(0, 4) } else { r.log_range(0, 30) };
        c.op("wshort", &[call, r.log_range(1, 2000)]);
    }
    if r.chance(1, 3) {
        c.op("wcap", &[r.log_range(16, 4096)]);
    }
    for _ in 0..r.pick(&[0, 0, 1, 4]) {
        // interrupted writes are retried
        c.op("werr", &[r.log_range(0, 30), 4, 1]);
    }
    if r.chance(2, 5) {
        c.op("werr", &[r.log_range(0, 12), r.pick(WRITE_ERRNOS), r.chance(1, 3) as i64]);
    }
    c
}

pub fn run_c14(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut t = Trace::new();
    let m = media_of(c, &samples_of(c), 0);
    let s = Scratch::new();
    let path = s.media(0, &m, c.get("name"));
    note(&mut rep, c, &m);
    let ts = c.get("ts") == 1;
    let sizes = [m.bytes.len()];
    // healthy run of the other presentation, then the faulted run of this one
    let mut c2 = c.clone();
    for k in ["fmt", "raw", "signed"] {
        c2.set(k, c.get(&format!("{k}2")));
    }
    let mut p = Pieces::new(c, &m);
    let mut outs = vec![];
    for case in [&c2, c] {
        let run = exec(&s, "fpcalc", &args_of(case, &path, ts), &plan_of(case, &[path.clone()], &sizes, &["cap"]), tz_of(c), false);
        account(&mut rep, &run, &mut t, &[&m]);
        if m.frames() == 0 && run.failed() {
            rep.trace = t.0;
            return Ok(rep);
        }
        if run.failed() {
            return Err(Violation::new("failed-without-cause", run.how()));
        }
        let shown = parse(case, &run.out, ts).map_err(malformed)?;
        let mut q = Pieces::new(case, &m);
        std::mem::swap(&mut q.cache, &mut p.cache);
        q.check_all(&shown, m.frames(), ts)?;
        std::mem::swap(&mut q.cache, &mut p.cache);
        outs.push(run.out);
        rep.hit(["format:text", "format:json", "format:plain"][case.get("fmt").rem_euclid(3) as usize]);
        rep.nontrivial |= shown.iter().any(|x| !x.items.is_empty());
    }
    let run = exec(&s, "fpcalc", &args_of(c, &path, ts), &plan_of(c, &[path.clone()], &sizes, &[]), tz_of(c), false);
    account(&mut rep, &run, &mut t, &[&m]);
    let refused = run.ev.iter().any(|e| matches!(e, Ev::WriteErr(x) if *x != 4));
    let want = outs.pop().unwrap();
    if !want.starts_with(&run.out) {
        return Err(Violation::new(
            "output-garbled",
            format!("{} bytes came out that are no beginning of the {} expected", run.out.len(), want.len()),
        ));
    }
    if refused {
        if run.status == Some(0) && run.out != want {
            return Err(Violation::new(
                "refused-output-hidden",
                format!("{} of {} bytes written, a write was refused, exit status 0", run.out.len(), want.len()),
            ));
        }
        rep.hit("refusal reported");
    } else {
        if run.failed() {
            return Err(Violation::new("failed-without-cause", format!("partial or interrupted writes: {}", run.how())));
        }
        if run.out != want {
            return Err(Violation::new(
                "output-incomplete",
                format!("{} of {} bytes written, exit status 0", run.out.len(), want.len()),
            ));
        }
    }
    rep.trace = t.0;
    rep.signature = sig_fp(c, &run);
    Ok(rep)
}

// ---------- C15 ----------

pub fn gen_c15(r: &mut Rng, t: Tier, i: u64) -> Case {
    let mut c = Case::new("C15");
    gen_env(r, &mut c);
    c.set("name0", gen_name(r));
    c.set("name1", gen_name(r));
    let max = if t == Tier::Quick { 18.0 } else { 90.0 };
    c.set("kind", r.pick(&[7, 8, 8, 0, 2, 3]));
    c.set("src", r.range(0, 1 << 30));
    c.set("tenths", (10.0 * (3.0 + r.f64() * max)) as i64);
    // the two files: what part of the recording, at which rate, in which container
    for i in 0..2 {
        let rate = gen_rate(r);
        c.op("file", &[
            i,
            rate,
            r.pick(&[1, 1, 2, 2, 3, 4, 6, 8]),
            if r.chance(1, 3) { media::FLAC } else { r.range(0, media::CONTAINERS - 1) },
            if r.chance(1, 2) { 0 } else { r.range(0, 60) },
            if r.chance(1, 2) { 0 } else { r.range(0, 60) },
            r.pick(&[0, 0, 0, 1]),
            r.log_range(16, 20000),
            r.pick(&[0, 0, 100, 3000]),
        ]);
    }
    if i % 200 == 77 {
        // the common part lies more than an hour into one of the recordings
        c.set("kind", r.pick(&[7, 8]));
        c.set("tenths", r.range(200, 400));
        let k = r.range(0, 1);
        for (j, o) in c.ops.iter_mut().filter(|o| o.name == "file").enumerate() {
            o.args[4] = r.pick(&[0, 0, 30]);
            o.args[5] = 0;
            o.args[6] = 0;
            if j as i64 == k {
                o.args[1] = r.range(1001, 1100);
                o.args[2] = 1;
                o.args.push(r.pick(&[3590, 3600, 3700, 4200, 7300]));
            }
        }
        return c;
    }
    if r.chance(1, 4) {
        // two takes of the same length that differ in one stretch
        let (kind, all) = (r.pick(&[7, 8]), c.get("tenths"));
        c.set("kind", kind);
        let same = r.chance(1, 2);
        let rate = gen_rate(r);
        for o in c.ops.iter_mut().filter(|o| o.name == "file") {
            o.args[4] = 0;
            o.args[5] = 0;
            o.args[6] = 0;
            if same {
                o.args[1] = rate;
            }
            if o.args[0] == 1 {
                o.args.extend([0, r.range(0, all), r.range(1, all)]);
            }
        }
    }
    for i in 0..2 {
        if r.chance(1, 2) {
            gen_benign(r, &mut c, i);
        }
    }
    if r.chance(1, 2) {
        let v = files_of(&c);
        let i = r.range(0, 1);
        let m = &v[i as usize].0;
        match r.weighted(&[3, 3, 3, 2, 1]) {
            0 => c.op("err", &[i, r.log_range(0, 80), r.pick(READ_ERRNOS)]),
            1 => c.op("errat", &[i, gen_offset(r, m, 0), r.pick(READ_ERRNOS)]),
            2 => c.op("once", &[i, gen_offset(r, m, 0), r.pick(READ_ERRNOS)]),
            3 => c.op("eof", &[i, gen_offset(r, m, 0)]),
            _ => c.op("open", &[i, r.pick(&[2, 13, 24])]),
        }
    }
    if r.chance(1, 8) {
        c.op("werr", &[r.range(0, 4), r.pick(WRITE_ERRNOS), 0]);
    }
    if r.chance(1, 6) {
        c.op("wshort", &[r.range(0, 4), r.log_range(1, 80)]);
    }
    if r.chance(1, 6) {
        c.op("wcap", &[r.log_range(16, 256)]);
    }
    c
}

const BASE: u32 = 11025;

fn files_of(c: &Case) -> Vec<(Media, u32)> {
    let frames = (c.get("tenths").clamp(0, 3000) * BASE as i64 / 10) as usize;
    let mono = signal::generate(c.get("src") as u64, c.get("kind"), BASE, 1, frames);
    let mut v = vec![];
    let mut ops: Vec<_> = c.ops.iter().filter(|o| o.name == "file").cloned().collect();
    while ops.len() < 2 {
        ops.push(crate::case::Op::new("file", &[0, 11025, 1, 0]));
    }
    for (i, o) in ops.iter().take(2).enumerate() {
        let rate = o.arg(1).clamp(1001, 96_000) as u32;
        let ch = media::channels_in(o.arg(3), o.arg(2).clamp(1, 8) as usize);
        let tenth = |k: i64| (k.max(0) as usize * BASE as usize / 10).min(mono.len());
        let mut part: Vec<i16> = mono[tenth(o.arg(4))..].to_vec();
        let keep = part.len().saturating_sub(o.arg(5).max(0) as usize * BASE as usize / 10);
        part.truncate(keep);
        if o.arg(6) == 1 {
            // another recording in the middle of it
            let at = part.len() / 2;
            let foreign = signal::generate(c.get("src") as u64 + 99, 8, BASE, 1, BASE as usize * 4);
            part.splice(at..at, foreign);
        }
        if o.arg(11) > 0 {
            // a stretch of it replaced by something else of the same length
            let a = tenth(o.arg(10)).min(part.len());
            let n = tenth(o.arg(11)).min(part.len() - a);
            part[a..a + n].copy_from_slice(&signal::generate(c.get("src") as u64 + 77, 8, BASE, 1, n));
        }
        let part = if part.is_empty() { part } else { media::rerate(&part, 1, BASE, rate) };
        let mut part = part;
        if o.arg(9) > 0 {
            // hours of silence before it
            let n = o.arg(9).min(20_000) as usize * rate as usize;
            let mut long = vec![0; n];
            long.append(&mut part);
            part = long;
        }
        let mut samples = media::spread(&part, ch, &mut Rng::new(mix(&[c.get("src") as u64, i as u64])));
        if media::is_flac(o.arg(3)) {
            media::avoid_sync(&mut samples);
        }
        let m = media::build(&media::Spec {
            damage: &[],
            container: o.arg(3),
            rate,
            channels: ch,
            samples: &samples,
            blocks: &[o.arg(7).clamp(16, 65535) as usize, 4096],
            before: o.arg(8).clamp(0, 30_000) as usize & !1,
            after: if o.arg(8) == 100 { 2 } else { 0 },
            announced: 0,
        });
        v.push((m, rate));
    }
    v
}

/// One row of the table: times in seconds and the score.
fn row(l: &str) -> Result<(usize, [f64; 5], f64), String> {
    let w: Vec<&str> = l.split('|').map(|x| x.trim()).collect();
    if w.len() != 5 {
        return Err(format!("{} columns in {l:?}", w.len()));
    }
    let time = |s: &str| -> Result<f64, String> {
        let p: Vec<&str> = s.trim().split(':').collect();
        if p.len() != 3 {
            return Err(format!("time {s:?}"));
        }
        let (m, sec) = (number(p[1])?, number(p[2])?);
        if p[1].len() != 2 || p[2].len() != 5 || m >= 60.0 || sec >= 60.0 {
            return Err(format!("time {s:?}"));
        }
        Ok(number(p[0])? * 3600.0 + m * 60.0 + sec)
    };
    let range = |s: &str| -> Result<(f64, f64), String> {
        let (a, b) = s.split_once("--").ok_or(format!("range {s:?}"))?;
        Ok((time(a)?, time(b)?))
    };
    let (a, b) = range(w[1])?;
    let (x, y) = range(w[2])?;
    Ok((w[0].parse().map_err(|_| format!("row number {:?}", w[0]))?, [a, b, x, y, time(w[3])?], number(w[4])?))
}

pub fn run_c15(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut t = Trace::new();
    let files = files_of(c);
    let s = Scratch::new();
    let paths: Vec<PathBuf> = files.iter().enumerate().map(|(i, f)| s.media(i, &f.0, c.get(["name0", "name1"][i & 1]))).collect();
    let sizes: Vec<usize> = files.iter().map(|f| f.0.bytes.len()).collect();
    let media: Vec<&Media> = files.iter().map(|f| &f.0).collect();
    let args: Vec<OsString> = paths.iter().map(|p| p.into()).collect();
    let run = exec(&s, "compare", &args, &plan_of(c, &paths, &sizes, &[]), tz_of(c), false);
    account(&mut rep, &run, &mut t, &media);
    for f in &files {
        rep.sim_us += f.0.frames() as u64 * 1_000_000 / f.1 as u64;
        rep.hit(&format!("container:{}", f.0.ext));
    }
    let config = Configuration::preset_test1();
    let errors = run.read_errors();
    let opened = !run.ev.iter().any(|e| matches!(e, Ev::Open(_, x) if *x != 0));
    let refused = run.ev.iter().any(|e| matches!(e, Ev::WriteErr(x) if *x != 4));
    let eof = |i: i64| c.ops.iter().filter(|o| o.name == "eof" && o.arg(0) == i).map(|o| o.arg(1).max(0) as u64).min();
    let cut = eof(0).is_some() || eof(1).is_some();
    let empty = files.iter().enumerate().any(|(i, f)| f.0.frames() == 0 || needs_seek(c, i as i64, f.0.ext));
    if run.failed() {
        if !(errors > 0 || !opened || refused || cut || empty) {
            return Err(Violation::new("failed-without-cause", run.how()));
        }
        if !refused && !run.out.is_empty() {
            return Err(Violation::new("table-after-failure", format!("{} bytes printed, {}", run.out.len(), run.how())));
        }
        rep.hit(if errors > 0 { "failed read reported" } else { "failure reported" });
    } else {
        if !opened {
            return Err(Violation::new("open-failure-hidden", "a file could not be opened, exit status 0".into()));
        }
        let out = std::str::from_utf8(&run.out).map_err(|e| malformed(e.to_string()))?;
        let lines: Vec<&str> = out.lines().collect();
        if lines.len() < 2 || !lines[0].contains("File 1") || !lines[1].starts_with('-') || !out.ends_with('\n') {
            let class = if refused { "refused-output-hidden" } else { "malformed-output" };
            return Err(Violation::new(class, "no table heading".into()));
        }
        let rows: Result<Vec<_>, _> = lines[2..].iter().map(|l| row(l)).collect();
        let rows = rows.map_err(malformed)?;
        // which audio can have been compared: for files that end early every whole-packet count
        let mut fps: Vec<Vec<Vec<u32>>> = vec![];
        for (i, (m, rate)) in files.iter().enumerate() {
            let mut counts = vec![m.frames()];
            if let Some(off) = eof(i as i64) {
                let avail = m.frames_before(off);
                counts = vec![avail];
                // the demuxer may keep back the last whole packet before a torn one
                counts.extend(m.packets.iter().filter(|p| p.1 <= avail).rev().take(2).map(|p| p.1));
                // its samples may be there without its checksum
                if m.ext == "flac" {
                    counts.push(m.frames_before(off + 2));
                }
                counts.push(0);
                counts.sort_unstable();
                counts.dedup();
                counts.reverse();
                if avail >= m.frames() {
                    counts.truncate(1);
                }
            }
            let mut v: Vec<Vec<u32>> = vec![];
            for n in counts {
                let before = m.frames_before(eof(i as i64).unwrap_or(u64::MAX));
                if n == 0 && before > 0 && m.packets.first().map(|p| p.1) != Some(before) {
                    continue;
                }
                let fp = one_shot(&config, *rate, m.channels as u32, &m.samples[..n * m.channels])?;
                if !v.contains(&fp) {
                    v.push(fp);
                }
            }
            fps.push(v);
        }
        let mut first: Option<Violation> = None;
        let mut good = false;
        for a in &fps[0] {
            for b in &fps[1] {
                match check_table(&rows, a, b, &config, &mut rep) {
                    Ok(()) => good = true,
                    Err(v) => {
                        first.get_or_insert(v);
                    }
                }
            }
        }
        if !good {
            let v = first.unwrap();
            if errors > 0 {
                return Err(Violation::new(
                    "failed-read-hidden",
                    format!("{errors} reads failed, exit status 0, table not that of the files: {}", v.detail),
                ));
            }
            if refused {
                return Err(Violation::new("refused-output-hidden", v.detail));
            }
            return Err(v);
        }
        rep.hit_n("rows", rows.len() as u64);
        rep.nontrivial = !rows.is_empty();
        rep.hit(if cut { "ended early" } else { "complete" });
    }
    rep.nontrivial |= errors > 0;
    rep.trace = t.0;
    let mut sg = Trace::new();
    sg.add_bytes(&run.log);
    sg.add_bytes(&run.out);
    rep.signature = sg.0;
    Ok(rep)
}

fn check_table(
    rows: &[(usize, [f64; 5], f64)],
    a: &[u32],
    b: &[u32],
    config: &Configuration,
    rep: &mut Report,
) -> Result<(), Violation> {
    let segs = catching(|| match_fingerprints(a, b, config))
        .map_err(|e| Violation::new("matcher-panics", e))?
        .map_err(|e| Violation::new("matcher-refuses", e.to_string()))?;
    let _ = rep;
    if segs.len() != rows.len() {
        return Err(Violation::new(
            "wrong-rows",
            format!("{} rows printed, {} segments match ({} and {} items)", rows.len(), segs.len(), a.len(), b.len()),
        ));
    }
    let item = config.item_duration_in_seconds() as f64;
    for (i, (s, (no, t, score))) in segs.iter().zip(rows).enumerate() {
        let want = [
            s.offset1 as f64 * item,
            (s.offset1 + s.items_count) as f64 * item,
            s.offset2 as f64 * item,
            (s.offset2 + s.items_count) as f64 * item,
            s.items_count as f64 * item,
        ];
        if *no != i + 1 {
            return Err(Violation::new("wrong-rows", format!("row {i} is numbered {no}")));
        }
        for k in 0..5 {
            // hundredths, and single precision on the way
            if (want[k] - t[k]).abs() > 0.0051 + want[k] * 1e-6 {
                return Err(Violation::new("wrong-time", format!("row {i}, time {k}: {} printed, {} expected", t[k], want[k])));
            }
        }
        if (s.score - score).abs() > 0.0051 {
            return Err(Violation::new("wrong-score", format!("row {i}: {score} printed, {} expected", s.score)));
        }
    }
    Ok(())
}

// ---------- C19 ----------

pub fn gen_c19(r: &mut Rng, t: Tier, _i: u64) -> Case {
    let mut c = Case::new("C19");
    gen_options(r, &mut c);
    gen_env(r, &mut c);
    c.set("name", gen_name(r));
    let compare = r.chance(2, 5);
    c.set("compare", compare as i64);
    let max = if t == Tier::Quick { 9.0 } else { 40.0 };
    let secs = if compare { 4.0 + r.f64() * max } else { 0.3 + r.f64() * max };
    gen_media(r, &mut c, secs);
    let rate = c.get("rate");
    c.set("box", r.pick(&[media::FLAC, media::MKV, media::MKV]));
    c.ops.clear();
    for _ in 0..r.range(1, 4) {
        let b = match r.weighted(&[3, 3, 2]) {
            0 => r.pick(&[192, 576, 1152, 4096, 4608]),
            1 => r.log_range(64, 20000),
            _ => rate * r.range(1, 2) + r.pick(&[-1, 0, 1]),
        };
        c.op("block", &[b.clamp(16, 65535)]);
    }
    c.set("length", r.pick(&[-1, 0, 0, 3, 5]));
    if r.chance(1, 2) {
        c.set("chunk", r.range(1, 4));
        c.set("overlap", r.chance(1, 4) as i64);
    }
    if compare {
        c.set("kind", r.pick(&[7, 8, 8]));
        // the other file: seconds of it missing, its place on the command line
        c.set("crop", r.pick(&[0, 0, 1, 3]));
        c.set("second", r.range(0, 1));
    }
    let m = media_of(&c, &samples_of(&c), 0);
    let n = m.packets.len() as i64;
    if n > 2 && r.chance(1, 4) {
        // a scratch: many blocks in a row
        let at = r.range(0, n - 1);
        let kind = r.range(0, media::DAMAGES - 1);
        for i in at..(at + r.log_range(2, 20)).min(n - 1) {
            let kind = if compare { r.range(0, 5) } else { kind };
            c.op("damage", &[i, kind, r.range(0, 99)]);
        }
    } else if n > 0 && !r.chance(1, 20) {
        for _ in 0..r.pick(&[1, 1, 1, 2, 3, 10]) {
            let i = match r.range(0, 5) {
                0 => 0,
                1 => n - 1,
                _ => r.range(0, n - 1),
            };
            let kind = if compare && r.chance(2, 3) { r.range(0, 5) } else { r.range(0, media::DAMAGES - 1) };
            c.op("damage", &[i, kind, r.range(0, 99)]);
        }
    }
    if r.chance(1, 2) {
        gen_benign(r, &mut c, 0);
    }
    c
}

pub fn run_c19(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut t = Trace::new();
    let m = media_of(c, &samples_of(c), 0);
    let s = Scratch::new();
    note(&mut rep, c, &m);
    let n = m.frames();
    let damage: Vec<_> = damage_of(c).into_iter().filter(|d| d.0 < m.packets.len()).collect();
    for d in &damage {
        rep.hit(&format!("fault:damage-{}", media::damage_name(d.1)));
    }
    let start = |i: usize| if i == 0 { 0 } else { m.packets[i - 1].1 };
    let run;
    if c.get("compare") == 1 {
        let crop = (c.get("crop").max(0) as usize * rate_of(c) as usize).min(n);
        let other = media::build(&media::Spec {
            container: 0,
            rate: rate_of(c),
            channels: m.channels,
            samples: &m.samples[crop * m.channels..],
            blocks: &[],
            damage: &[],
            before: 0,
            after: 0,
            announced: 0,
        });
        let place = c.get("second").rem_euclid(2) as usize;
        let pair = if place == 0 { [&m, &other] } else { [&other, &m] };
        let paths: Vec<PathBuf> = pair.iter().enumerate().map(|(i, f)| s.media(i, f, if i == place { c.get("name") } else { 0 })).collect();
        let args: Vec<OsString> = paths.iter().map(|p| p.into()).collect();
        run = exec(&s, "compare", &args, &plan_of(c, &paths, &[pair[0].bytes.len(), pair[1].bytes.len()], &[]), tz_of(c), false);
        account(&mut rep, &run, &mut t, &pair);
        let lost = damage.iter().any(|d| d.1 == media::BAD_LACING);
        if n == 0 || other.frames() == 0 {
            rep.trace = t.0;
            return Ok(rep);
        }
        if run.failed() {
            if !lost {
                return Err(Violation::new("failed-without-cause", run.how()));
            }
            if !run.out.is_empty() {
                return Err(Violation::new("table-after-failure", format!("{} bytes printed, {}", run.out.len(), run.how())));
            }
            rep.hit("damage reported");
            rep.nontrivial = true;
        } else {
            if lost {
                return Err(Violation::new("damage-hidden", "the container is damaged, exit status 0".into()));
            }
            let out = std::str::from_utf8(&run.out).map_err(|e| malformed(e.to_string()))?;
            let lines: Vec<&str> = out.lines().collect();
            if lines.len() < 2 || !lines[0].contains("File 1") || !lines[1].starts_with('-') || !out.ends_with('\n') {
                return Err(Violation::new("malformed-output", "no table heading".into()));
            }
            let rows: Result<Vec<_>, _> = lines[2..].iter().map(|l| row(l)).collect();
            let rows = rows.map_err(malformed)?;
            // everything but the damaged blocks
            let mut left = Vec::with_capacity(m.samples.len());
            for (i, p) in m.packets.iter().enumerate() {
                if damage.iter().all(|d| d.0 != i) {
                    left.extend_from_slice(&m.samples[start(i) * m.channels..p.1 * m.channels]);
                }
            }
            let config = Configuration::preset_test1();
            let fp = one_shot(&config, rate_of(c), m.channels as u32, &left)?;
            let whole = one_shot(&config, rate_of(c), m.channels as u32, &other.samples)?;
            let (a, b) = if place == 0 { (&fp, &whole) } else { (&whole, &fp) };
            check_table(&rows, a, b, &config, &mut rep)?;
            rep.hit("damaged blocks left out");
            rep.hit_n("rows", rows.len() as u64);
            rep.nontrivial = !rows.is_empty() && !damage.is_empty();
        }
    } else {
        let path = s.media(0, &m, c.get("name"));
        run = exec(&s, "fpcalc", &args_of(c, &path, false), &plan_of(c, &[path.clone()], &[m.bytes.len()], &[]), tz_of(c), false);
        account(&mut rep, &run, &mut t, &[&m]);
        let shown = parse(c, &run.out, false).map_err(malformed)?;
        let mut pieces = Pieces::new(c, &m);
        if n == 0 {
            rep.trace = t.0;
            return Ok(rep);
        }
        let first = damage.first().map_or(usize::MAX, |d| start(d.0));
        let limit = pieces.limit().min(n);
        if run.failed() {
            if first > limit || damage.is_empty() {
                return Err(Violation::new("failed-without-cause", run.how()));
            }
            // what was complete before the damage has been printed, and nothing else
            let want = pieces.of(n);
            for (i, x) in shown.iter().enumerate() {
                let Some(p) = want.get(i).copied().filter(|p| p.1 <= first) else {
                    return Err(Violation::new(
                        "damaged-audio-printed",
                        format!("result {i} reaches beyond frame {first}, where the damage is; {}", run.how()),
                    ));
                };
                pieces.check(i, x, p, false)?;
            }
            let due = want.iter().filter(|p| p.1 < first).count();
            if shown.len() < due {
                return Err(Violation::new(
                    "earlier-results-lost",
                    format!("{} results printed, {due} were complete before the damage", shown.len()),
                ));
            }
            rep.hit("damage reported");
            rep.nontrivial = true;
        } else {
            if first < limit {
                return Err(Violation::new(
                    "damage-hidden",
                    format!(
                        "the block at frame {first} of {n} cannot be decoded ({}), exit status 0, {} results",
                        media::damage_name(damage[0].1),
                        shown.len()
                    ),
                ));
            }
            pieces.check_all(&shown, n, false)?;
            rep.hit(if damage.is_empty() { "undamaged" } else { "damage beyond the length limit" });
            rep.nontrivial = !damage.is_empty() && shown.iter().any(|x| !x.items.is_empty());
        }
    }
    rep.trace = t.0;
    let mut sg = Trace::new();
    sg.add_bytes(&run.log);
    sg.add_bytes(&run.out);
    rep.signature = sg.0;
    Ok(rep)
}

// ---------- C18 ----------

pub fn gen_c18(r: &mut Rng, t: Tier, _i: u64) -> Case {
    let mut c = Case::new("C18");
    gen_options(r, &mut c);
    gen_env(r, &mut c);
    c.set("name", gen_name(r));
    gen_media(r, &mut c, 1.0);
    c.ops.clear();
    c.set("box", r.pick(&[0, 1, 2, 3, 7, 8]));
    c.set("before", 0);
    c.set("after", 0);
    c.set("rate", if r.chance(3, 4) { r.range(1001, 3000) } else { r.pick(&[8000, 11025]) });
    c.set("ch", r.pick(&[1, 1, 2]));
    c.set("length", 0);
    c.set("overlap", r.chance(1, 4) as i64);
    c.set("ts", r.range(0, 1));
    // the source repeats itself with this period
    c.set("frames", c.get("rate") * r.range(2, 12) + r.range(0, 1000));
    let hours = if t == Tier::Quick { 900 } else { 7200 };
    c.set("seconds", r.log_range(60, hours));
    c.set("chunk", if r.chance(4, 5) { r.range(1, 9) } else { r.log_range(10, 10.max(c.get("seconds") / 2)) });
    c.op("cap", &[0, r.pick(&[256, 512, 1000, 4096, 32768])]);
    c
}

pub fn run_c18(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut t = Trace::new();
    let rate = rate_of(c);
    let total = c.get("seconds").clamp(1, 100_000) as u64 * rate as u64;
    let period = samples_of(c);
    let ch = ch_of(c);
    if period.len() < 1152 * ch {
        return Ok(rep);
    }
    let m = media_of(c, &period, total);
    let s = Scratch::new();
    let path = s.media(0, &m, c.get("name"));
    let bpf = (m.bytes.len() as u64 - m.data) / m.frames() as u64;
    let size = m.data + total * bpf;
    let mut plan = plan_of(c, &[path.clone()], &[m.bytes.len()], &["cap"]);
    plan.extend(format!("pipe 0\nloop 0 {} {} {size}\n", m.data, m.bytes.len()).bytes());
    let ts = c.get("ts") == 1;
    let run = exec(&s, "fpcalc", &args_of(c, &path, ts), &plan, tz_of(c), true);
    account(&mut rep, &run, &mut t, &[&m]);
    rep.sim_us = total * 1_000_000 / rate as u64;
    if run.failed() {
        return Err(Violation::new("live-stream-failed", run.how()));
    }
    let shown = parse(c, &run.out, ts).map_err(malformed)?;
    // the whole stream, piece by piece
    let mut p = Pieces::new(c, &m);
    let pieces = p.of(total as usize);
    if shown.len() != pieces.len() {
        return Err(Violation::new("wrong-count", format!("{} results, {} expected", shown.len(), pieces.len())));
    }
    let n = m.frames();
    let mut cache: HashMap<(usize, usize), Vec<u32>> = HashMap::new();
    // sampled: the first, the last and some in between (they repeat with the period)
    let step = (pieces.len() / 12).max(1);
    for i in (0..pieces.len()).filter(|i| i % step == 0 || *i + 2 >= pieces.len()) {
        let (a, b) = pieces[i];
        let key = (a % n, b - a);
        if !cache.contains_key(&key) {
            let mut data = Vec::with_capacity((b - a) * ch);
            for f in a..b {
                let f = f % n;
                data.extend_from_slice(&m.samples[f * ch..(f + 1) * ch]);
            }
            cache.insert(key, one_shot(&p.config, rate, ch as u32, &data)?);
        }
        p.cache.insert((a, b), cache[&key].clone());
        p.check(i, &shown[i], (a, b), ts)?;
    }
    // promptness: when the stream has gone on by a packet and two reads, the piece is out
    let sizes: Vec<u64> = run
        .ev
        .iter()
        .filter_map(|e| if let Ev::Write(g, _) = e { Some(*g) } else { None })
        .collect();
    let _ = sizes;
    let mut ends = vec![]; // number of output bytes after which piece i is complete
    let text = String::from_utf8_lossy(&run.out).into_owned();
    let mut at = 0u64;
    for l in text.split_inclusive('\n') {
        at += l.len() as u64;
        let last = match c.get("fmt").rem_euclid(3) {
            0 => l.starts_with("FINGERPRINT="),
            _ => true,
        };
        if last {
            ends.push(at);
        }
    }
    let cap = run.ev.iter().map(|e| if let Ev::Read(_, _, g, _, _) = e { *g } else { 0 }).max().unwrap_or(0);
    let slack = 2 * 1152 * bpf + 2 * cap;
    // buffers reach their full size within some tens of thousands of frames and a few pieces
    let warm = (total / 4).max(200_000).max(3 * (p.chunk() + p.lead()) as u64);
    let (mut out, mut high, mut next) = (0u64, 0u64, 0usize);
    let mut worst = 0u64;
    let mut heap_early = 0i64;
    let mut heap_max = 0i64;
    for e in &run.ev {
        match e {
            Ev::Write(g, _) => {
                out += g;
                while next < ends.len() && ends[next] <= out {
                    next += 1;
                }
            }
            Ev::Read(_, pos, got, _, heap) => {
                high = high.max(pos + got);
                if high < m.data + warm * bpf {
                    heap_early = heap_early.max(*heap);
                } else {
                    heap_max = heap_max.max(*heap);
                }
                if next < pieces.len() && next + 1 < pieces.len() {
                    let due = m.data + pieces[next].1 as u64 * bpf;
                    if *got > 0 && high > due {
                        worst = worst.max(high - due);
                    }
                    if high > due + slack {
                        return Err(Violation::new(
                            "live-result-late",
                            format!(
                                "piece {next} was complete after {due} bytes, {high} bytes have been read and it is not printed"
                            ),
                        ));
                    }
                }
            }
            _ => {}
        }
    }
    // the largest piece holds this many items; nothing else may grow
    if total > 2 * warm {
        rep.hit("heap compared");
    }
    if total > 2 * warm && heap_early > 0 && heap_max > heap_early + 65_536 {
        return Err(Violation::new(
            "live-stream-grows",
            format!("{heap_max} heap bytes late in the stream, {heap_early} in its beginning"),
        ));
    }
    rep.hit_n("pieces", shown.len() as u64);
    rep.nontrivial = shown.len() > 4 && shown.iter().any(|x| !x.items.is_empty());
    t.add(worst);
    rep.trace = t.0;
    rep.signature = sig_fp(c, &run);
    Ok(rep)
}
