//! Runs cases in forked children, finds the first violation, shrinks it, writes the replay file
//! and the evidence.

use crate::case::{Case, Report, Violation};
use crate::rng::{hash_str, mix, Rng};
use crate::sys;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, Tier, u64) -> Case,
    pub run: fn(&Case) -> Result<Report, Violation>,
    /// Cases in the quick tier.
    pub quick: u64,
    /// Wall-clock safety cap of the quick tier and time budget of the thorough tier.
    pub quick_cap_s: u64,
    pub thorough_s: u64,
    /// Wall-clock limit of a single case before it counts as hung.
    pub case_limit_s: u64,
    /// Half of the runs use the library as it is shipped, half with its run-time checks on.
    pub both_builds: bool,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub type Outcome = Result<Report, Violation>;

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

/// Runs a closure, turning a panic into its message.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn encode(o: &Outcome) -> Vec<u8> {
    let mut s = String::new();
    match o {
        Ok(r) => {
            let _ = writeln!(
                s,
                "ok {} {} {} {}",
                r.trace, r.signature, r.sim_us, r.nontrivial as u8
            );
            for (k, v) in &r.counters {
                let _ = writeln!(s, "c {v} {k}");
            }
            if !crate::cov::is_shipped() {
                let _ = writeln!(s, "e {}", crate::cov::hex());
            }
            for k in &r.known {
                let _ = writeln!(s, "k {}", k.replace('\n', " "));
            }
        }
        Err(v) => {
            let _ = writeln!(s, "v {}\t{}", v.class, v.detail.replace('\n', " | "));
        }
    }
    s.push_str("end\n");
    s.into_bytes()
}

fn decode(b: &[u8], status: &str) -> Outcome {
    let t = String::from_utf8_lossy(b);
    if !t.ends_with("end\n") {
        return Err(Violation::new("crash", format!("the process died ({status})")));
    }
    let mut r = Report::default();
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("ok ") {
            let w: Vec<u64> = x.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
            r.trace = w[0];
            r.signature = w[1];
            r.sim_us = w[2];
            r.nontrivial = w[3] != 0;
        } else if let Some(x) = l.strip_prefix("c ") {
            if let Some((n, k)) = x.split_once(' ') {
                r.counters.insert(k.to_string(), n.parse().unwrap_or(0));
            }
        } else if let Some(x) = l.strip_prefix("e ") {
            r.edges = x.bytes().map(|b| (b as char).to_digit(16).unwrap_or(0) as u8).collect();
        } else if let Some(x) = l.strip_prefix("k ") {
            r.known.push(x.to_string());
        } else if let Some(x) = l.strip_prefix("v ") {
            let (c, d) = x.split_once('\t').unwrap_or((x, ""));
            return Err(Violation::new(c, d.to_string()));
        }
    }
    Ok(r)
}

fn run_here(p: &Prop, c: &Case) -> Outcome {
    match catching(|| (p.run)(c)) {
        Ok(o) => o,
        Err(msg) => Err(Violation::new("panic", msg)),
    }
}

struct Flight {
    idx: u64,
    pid: i32,
    fd: i32,
    out: Vec<u8>,
    t0: Instant,
}

/// Runs the cases produced by `next` in forked children, `par` at a time; calls `done` for each.
/// `done` returns false to stop launching further cases (those in flight are still awaited).
fn pool<'a>(
    p: &'a Prop,
    par: usize,
    mut next: impl FnMut() -> Option<(u64, CaseSrc<'a>)>,
    mut done: impl FnMut(u64, Outcome) -> bool,
) {
    let mut flights: Vec<Flight> = vec![];
    let mut open = true;
    let limit = Duration::from_secs(p.case_limit_s);
    loop {
        while open && flights.len() < par {
            let Some((idx, src)) = next() else {
                open = false;
                break;
            };
            let (r, w) = sys::make_pipe().expect("pipe");
            let pid = unsafe { sys::fork() };
            if pid == 0 {
                sys::close_fd(r);
                for f in &flights {
                    sys::close_fd(f.fd);
                }
                sys::child_setup();
                let c = src.make();
                if c.get("ship") == 1 {
                    sys::become_case(&shipped(), c.to_text().as_bytes(), w);
                    unsafe { sys::_exit(9) }
                }
                let o = run_here(p, &c);
                sys::write_all(w, &encode(&o));
                unsafe { sys::_exit(0) }
            }
            sys::close_fd(w);
            if pid < 0 {
                sys::close_fd(r);
                eprintln!("simcheck: fork failed");
                std::process::exit(2);
            }
            flights.push(Flight { idx, pid, fd: r, out: vec![], t0: Instant::now() });
        }
        if flights.is_empty() {
            return;
        }
        let mut fds: Vec<sys::PollFd> = flights
            .iter()
            .map(|f| sys::PollFd { fd: f.fd, events: sys::POLLIN, revents: 0 })
            .collect();
        sys::poll_fds(&mut fds, 200);
        let mut i = 0;
        let mut finished = vec![];
        for (k, f) in flights.iter_mut().enumerate() {
            let mut over = false;
            let mut hung = false;
            if fds[k].revents != 0 {
                let mut buf = [0u8; 16384];
                let n = sys::read_some(f.fd, &mut buf);
                if n > 0 {
                    f.out.extend_from_slice(&buf[..n as usize]);
                } else {
                    over = true;
                }
            } else if f.t0.elapsed() > limit {
                sys::kill_group(f.pid);
                over = true;
                hung = true;
            }
            if over {
                sys::close_fd(f.fd);
                let st = sys::wait_child(f.pid);
                let o = if hung {
                    Err(Violation::new("hang", format!("no end after {} s", p.case_limit_s)))
                } else {
                    decode(&f.out, &st)
                };
                finished.push((k, f.idx, o));
            }
            i += 1;
        }
        let _ = i;
        for (k, idx, o) in finished.into_iter().rev() {
            flights.swap_remove(k);
            if !done(idx, o) {
                open = false;
            }
        }
    }
}

/// The simulator linked with the library as it is shipped, without debug assertions and
/// overflow checks.
fn shipped() -> std::path::PathBuf {
    let exe = std::env::current_exe().unwrap_or_default();
    exe.parent().and_then(|d| d.parent()).map_or_else(Default::default, |d| d.join("shipped/simcheck"))
}

/// Generates run `i` of a check. Every other run of a library property uses the shipped build.
pub fn make_case(p: &Prop, seed: u64, tier: Tier, i: u64) -> Case {
    let mut c = (p.gen)(&mut Rng::new(case_seed(p.id, seed, i)), tier, i);
    if p.both_builds && i >= 8 && i % 2 == 1 {
        c.set("ship", 1);
    }
    c
}

/// The other side of `sys::become_case`.
pub fn case_main(p: &Prop, c: &Case) -> ! {
    let o = run_here(p, c).map(|mut r| {
        r.hit("build:shipped");
        r
    });
    sys::write_all(3, &encode(&o));
    unsafe { sys::_exit(0) }
}

enum CaseSrc<'a> {
    Seed(&'a Prop, u64, Tier, u64),
    Given(Case),
}

impl CaseSrc<'_> {
    fn make(self) -> Case {
        match self {
            CaseSrc::Seed(p, seed, tier, i) => make_case(p, seed, tier, i),
            CaseSrc::Given(c) => c,
        }
    }
}

pub fn case_seed(id: &str, seed: u64, i: u64) -> u64 {
    mix(&[seed, hash_str(id), i])
}

pub fn run_isolated(p: &Prop, c: &Case) -> Outcome {
    let mut out = None;
    let mut once = Some(c.clone());
    pool(p, 1, || once.take().map(|c| (0, CaseSrc::Given(c))), |_, o| {
        out = Some(o);
        true
    });
    out.unwrap()
}

/// Evaluates candidates in parallel, returns the lowest index that violates with `class`.
fn first_failing(p: &Prop, cands: &[Case], class: &str) -> Option<(usize, Violation)> {
    let mut i = 0;
    let mut best: Option<(usize, Violation)> = None;
    let found = std::cell::Cell::new(false);
    pool(
        p,
        8,
        || {
            if found.get() || i >= cands.len() {
                return None;
            }
            i += 1;
            Some(((i - 1) as u64, CaseSrc::Given(cands[i - 1].clone())))
        },
        |k, o| {
            if let Err(v) = o {
                if v.class == class && best.as_ref().map_or(true, |b| (k as usize) < b.0) {
                    best = Some((k as usize, v));
                    found.set(true);
                }
            }
            true
        },
    );
    best
}

fn shrink(p: &Prop, c: &Case, v: &Violation, budget: Duration) -> (Case, Violation, u64) {
    let t0 = Instant::now();
    let mut cur = c.clone();
    let mut viol = v.clone();
    let mut tried = 0u64;
    if v.class == "hang" {
        return (cur, viol, 0);
    }
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        // drop operations, large blocks first
        let mut block = cur.ops.len();
        while block >= 1 && t0.elapsed() < budget {
            let mut cands = vec![];
            let mut at = 0;
            while at < cur.ops.len() {
                let mut n = cur.clone();
                let end = (at + block).min(n.ops.len());
                n.ops.drain(at..end);
                cands.push(n);
                at += block;
            }
            tried += cands.len() as u64;
            if let Some((k, nv)) = first_failing(p, &cands, &viol.class) {
                cur = cands.swap_remove(k);
                viol = nv;
                progress = true;
                block = block.min(cur.ops.len().max(1));
                if cur.ops.is_empty() {
                    break;
                }
            } else {
                block /= 2;
            }
        }
        // simplify numbers
        let mut slots: Vec<(usize, usize)> = vec![];
        for (i, op) in cur.ops.iter().enumerate() {
            for j in 0..op.args.len() {
                slots.push((i, j));
            }
        }
        let simpler = |x: i64| -> Vec<i64> {
            let mut v = vec![];
            for y in [0, 1, x / 2, x - x.signum() * (x.abs() / 8).max(1)] {
                if y != x && !v.contains(&y) && y.abs() < x.abs() {
                    v.push(y);
                }
            }
            v
        };
        let mut spot = 0;
        while spot < slots.len() && t0.elapsed() < budget {
            let (i, j) = slots[spot];
            let mut cands = vec![];
            for y in simpler(cur.ops[i].args[j]) {
                let mut n = cur.clone();
                n.ops[i].args[j] = y;
                cands.push(n);
            }
            tried += cands.len() as u64;
            match first_failing(p, &cands, &viol.class) {
                Some((k, nv)) => {
                    cur = cands.swap_remove(k);
                    viol = nv;
                    progress = true;
                }
                None => spot += 1,
            }
        }
        let keys: Vec<String> = cur.params.keys().cloned().collect();
        let mut spot = 0;
        while spot < keys.len() && t0.elapsed() < budget {
            let k = &keys[spot];
            let mut cands = vec![];
            for y in simpler(cur.params[k]) {
                let mut n = cur.clone();
                n.params.insert(k.clone(), y);
                cands.push(n);
            }
            tried += cands.len() as u64;
            match first_failing(p, &cands, &viol.class) {
                Some((i, nv)) => {
                    cur = cands.swap_remove(i);
                    viol = nv;
                    progress = true;
                }
                None => spot += 1,
            }
        }
    }
    (cur, viol, tried)
}

pub fn root() -> std::path::PathBuf {
    std::env::var_os("SIMCHECK_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

/// Keys of the findings listed for a property.
fn listed(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("known: ") {
            let mut w = x.splitn(3, ' ');
            let (a, b, c) =
                (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
            if a == format!("property={id}") {
                if let Some(k) = b.strip_prefix("key=") {
                    v.push((k.to_string(), c.to_string()));
                }
            }
        }
    }
    v
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

/// Runs a whole check. Returns the exit code.
pub fn check(p: &Prop, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let par = std::env::var("SIMCHECK_JOBS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()).min(16));
    let cap = Duration::from_secs(match tier {
        Tier::Quick => p.quick_cap_s,
        Tier::Thorough => std::env::var("SIMCHECK_THOROUGH_S")
            .ok()
            .and_then(|x| x.parse().ok())
            .unwrap_or(p.thorough_s),
    });
    let max = std::env::var("SIMCHECK_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(
        match tier {
            Tier::Quick => p.quick,
            Tier::Thorough => u64::MAX,
        },
    );
    let known = listed(p.id);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let (mut runs, mut nontrivial, mut sim_us) = (0u64, 0u64, 0u64);
    let mut trace_sum = 0u64;
    let mut best: Option<(u64, Violation)> = None;
    let mut edges: Vec<u8> = vec![];
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut i = 0u64;
    let stop = std::cell::Cell::new(false);
    pool(
        p,
        par,
        || {
            if stop.get() || i >= max || t0.elapsed() > cap {
                return None;
            }
            i += 1;
            Some((i - 1, CaseSrc::Seed(p, seed, tier, i - 1)))
        },
        |idx, o| {
            runs += 1;
            match o {
                Ok(r) => {
                    for (k, v) in &r.counters {
                        *counters.entry(k.clone()).or_insert(0) += v;
                    }
                    edges.resize(edges.len().max(r.edges.len()), 0);
                    for (a, b) in edges.iter_mut().zip(&r.edges) {
                        *a |= b;
                    }
                    sim_us += r.sim_us;
                    trace_sum = trace_sum.wrapping_add(mix(&[idx, r.trace]));
                    if r.nontrivial {
                        nontrivial += 1;
                        sigs.insert(r.signature);
                    }
                    for k in &r.known {
                        let (key, detail) = k.split_once(' ').unwrap_or((k.as_str(), ""));
                        if known.iter().any(|(a, _)| a == key) {
                            let e = known_hits
                                .entry(key.to_string())
                                .or_insert((0, detail.to_string()));
                            e.0 += 1;
                        } else if best.as_ref().map_or(true, |b| idx < b.0) {
                            best = Some((
                                idx,
                                Violation::new(&format!("unlisted:{key}"), detail.to_string()),
                            ));
                            stop.set(true);
                        }
                    }
                }
                Err(v) => {
                    if best.as_ref().map_or(true, |b| idx < b.0) {
                        best = Some((idx, v));
                        stop.set(true);
                    }
                }
            }
            true
        },
    );
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let outdir = root().join("out").join(p.id);
    let mut shrink_note = String::new();
    if let Some((idx, v)) = &best {
        code = 1;
        let c = make_case(p, seed, tier, *idx);
        let unlisted = v.class.starts_with("unlisted:");
        let (sc, sv, tried) = if unlisted {
            (c.clone(), v.clone(), 0)
        } else {
            shrink(p, &c, v, Duration::from_secs(if tier == Tier::Quick { 40 } else { 180 }))
        };
        let _ = std::fs::create_dir_all(&outdir);
        let path = outdir.join(format!("replay-{seed}-{idx}.txt"));
        let mut t = sc.to_text();
        let _ = write!(
            t,
            "# seed {seed} run {idx} case-seed {}\n# violation {}: {}\n# first seen as: {}\n# {} of {} operations left after {} shrinking runs\n",
            case_seed(p.id, seed, *idx),
            sv.class,
            sv.detail,
            v.detail,
            sc.ops.len(),
            c.ops.len(),
            tried
        );
        if std::fs::write(&path, &t).is_err() {
            eprintln!("simcheck: cannot write {}", path.display());
        }
        // the file must reproduce the violation in a fresh process
        let again = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("replay")
            .arg(&path)
            .output();
        let same = again
            .map(|o| String::from_utf8_lossy(&o.stdout).contains(&format!("reproduced {}", sv.class)))
            .unwrap_or(false);
        shrink_note = format!(
            "seed {seed} run {idx}: {}: {} ({} -> {} operations; replay {})",
            sv.class,
            sv.detail,
            c.ops.len(),
            sc.ops.len(),
            if same { "reproduced exactly" } else { "NOT reproduced" }
        );
        println!("{shrink_note}");
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    for (k, (n, d)) in &known_hits {
        let text = known.iter().find(|(a, _)| a == k).map(|x| x.1.as_str()).unwrap_or("");
        println!("KNOWN-FINDING: property={} {k}: {text} (seen in {n} runs, e.g. {d})", p.id);
    }
    // evidence
    let samples: Vec<String> = (0..3u64.min(runs.max(1)))
        .map(|i| {
            let c = make_case(p, seed, tier, i);
            let mut t = c.to_text();
            if t.len() > 1500 {
                let mut cut = 1500;
                while !t.is_char_boundary(cut) {
                    cut -= 1;
                }
                t.truncate(cut);
                t.push_str("...");
            }
            esc(&t)
        })
        .collect();
    let wall = t0.elapsed().as_secs_f64();
    let (faults, probes): (Vec<_>, Vec<_>) =
        counters.iter().partition(|(k, _)| k.starts_with("fault:"));
    let obj = |v: &[(&String, &u64)], strip: &str| {
        v.iter()
            .map(|(k, n)| format!("{}:{}", esc(k.strip_prefix(strip).unwrap_or(k)), n))
            .collect::<Vec<_>>()
            .join(",")
    };
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{runs},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"runs_nontrivial\":{nontrivial},\"seeds_per_hour\":{},\"simulated_seconds\":{:.3},\"simulated_per_wall_second\":{:.1},\"faults_injected\":{{{}}},\"probes\":{{{}}},\"library_edges_covered\":{},\"library_edges\":{},\"trace_digest\":\"{trace_sum:016x}\",\"real_components\":{},\"stub_components\":{},\"known_findings_seen\":{}}},\"assumptions\":{},\"wall_s\":{wall:.2},\"violations\":{}}}\n",
        esc(p.id),
        esc(if tier == Tier::Quick { "quick" } else { "thorough" }),
        sigs.len(),
        esc(p.rule),
        samples.join(","),
        (runs as f64 / search_s.max(0.001) * 3600.0) as u64,
        sim_us as f64 / 1e6,
        sim_us as f64 / 1e6 / search_s.max(0.001),
        obj(&faults, "fault:"),
        obj(&probes, ""),
        edges.iter().map(|x| x.count_ones()).sum::<u32>(),
        crate::cov::edges(),
        list(p.real),
        list(p.stub),
        known_hits.len(),
        list(p.assumptions),
        if code == 1 { 1 } else { 0 },
    );
    let _ = std::fs::create_dir_all(root().join("evidence"));
    if std::fs::write(root().join("evidence").join(format!("{}.json", p.id)), ev).is_err() {
        eprintln!("simcheck: cannot write the evidence file");
        return 2;
    }
    println!(
        "{} {:?} seed {seed}: {runs} runs ({} distinct non-trivial), {:.0} simulated seconds, {:.1} s wall, digest {trace_sum:016x}{}",
        p.id,
        tier,
        sigs.len(),
        sim_us as f64 / 1e6,
        wall,
        if code == 0 { ", no violation" } else { "" }
    );
    if std::env::var_os("SIMCHECK_VERBOSE").is_some() {
        for (k, n) in &counters {
            println!("  {k}: {n}");
        }
    }
    let _ = shrink_note;
    code
}

pub fn replay(p: &Prop, c: &Case) -> i32 {
    match run_isolated(p, c) {
        Ok(r) => {
            for k in &r.known {
                let key = k.split(' ').next().unwrap_or("");
                if !listed(p.id).iter().any(|(a, _)| a == key) {
                    println!("reproduced unlisted:{key}");
                    return 1;
                }
                println!("KNOWN-FINDING: property={} {k}", p.id);
            }
            println!("no violation (trace {:016x})", r.trace);
            0
        }
        Err(v) => {
            println!("reproduced {}: {}", v.class, v.detail);
            1
        }
    }
}

/// Determinism self-test: the same seeds must give the same traces, whatever the parallelism.
pub fn selftest(p: &Prop, n: u64, seed: u64) -> bool {
    let mut all = vec![];
    for par in [8usize, 3] {
        let mut v = vec![0u64; n as usize];
        let mut i = 0;
        pool(
            p,
            par,
            || {
                if i >= n {
                    return None;
                }
                i += 1;
                Some((
                    i - 1,
                    CaseSrc::Seed(p, seed, Tier::Quick, i - 1),
                ))
            },
            |k, o| {
                v[k as usize] = match o {
                    Ok(r) => mix(&[r.trace, r.signature]),
                    Err(e) => hash_str(&(e.class + &e.detail)),
                };
                true
            },
        );
        all.push(v);
    }
    let bad: Vec<usize> = (0..n as usize).filter(|&i| all[0][i] != all[1][i]).collect();
    println!("{}: {} of {n} runs differ between executions {:?}", p.id, bad.len(), &bad[..bad.len().min(5)]);
    bad.is_empty()
}
