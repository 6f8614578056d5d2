//! C05: several threads, each running several sessions of the real library, under a scheduler
//! that decides after how many steps (edges taken in the library, allocations) which thread runs
//! next. Exactly one thread runs at any time; the schedule is part of the case.

use crate::case::{Case, Report, Violation};
use crate::lib_world::{self as lw, first_diff};
use crate::rng::{mix, Rng, Trace};
use crate::runner::{catching, Tier};
use crate::signal::{Source, KINDS};
use crate::{alloc, cov, sys};
use rusty_chromaprint::{match_fingerprints, FingerprintCompressor, Fingerprinter};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

const MAX_T: usize = 8;
/// The running thread (baton); MAX_T means nobody yet.
static CURRENT: AtomicU32 = AtomicU32::new(MAX_T as u32);
static ALIVE: AtomicU32 = AtomicU32::new(0);
static LEFT: AtomicI64 = AtomicI64::new(i64::MAX);
static NEXT_SW: AtomicU32 = AtomicU32::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static BLOCKED: AtomicU32 = AtomicU32::new(0);
static BLOCKS_SEEN: AtomicU64 = AtomicU64::new(0);
static SIG: AtomicU64 = AtomicU64::new(0xcbf2_9ce4_8422_2325);
static mut PLAN: Vec<(i64, u32)> = Vec::new();
/// Preemptions tied to a place in the code: visits of an edge left until one happens there
/// (0 = none), and how long which thread runs then.
static ARMED: [AtomicU32; cov::MAX_EDGES] = [const { AtomicU32::new(0) }; cov::MAX_EDGES];
static mut ARMED_PLAN: Vec<(u32, i64, u32)> = Vec::new();
static PLACED: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ME: Cell<u32> = const { Cell::new(MAX_T as u32) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

#[inline(always)]
unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// The system-call seam: a managed thread that would block on a futex gives up the baton instead
/// (and sees a spurious wake-up).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 202 && ME.try_with(|m| m.get()).unwrap_or(MAX_T as u32) < MAX_T as u32 && !BUSY.get() {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            let w = &*(a as *const AtomicU32);
            if w.load(SeqCst) != c as u32 {
                *__errno_location() = 11;
                return -1;
            }
            BUSY.set(true);
            BLOCKS_SEEN.fetch_add(1, SeqCst);
            if BLOCKED.fetch_add(1, SeqCst) > 20_000 {
                // nobody made a step for ages: they all wait for each other
                sys::_exit(77);
            }
            let me = ME.get();
            let alive = ALIVE.load(SeqCst);
            for k in 1..=MAX_T as u32 {
                let t = (me + k) % MAX_T as u32;
                if alive & (1 << t) != 0 {
                    pass_to(t);
                    break;
                }
            }
            BUSY.set(false);
            return 0;
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if ME.try_with(|m| m.get()).unwrap_or(MAX_T as u32) < MAX_T as u32 && !BUSY.get() {
        LEFT.store(0, SeqCst);
        step(0);
        return 0;
    }
    raw6(24, 0, 0, 0, 0, 0, 0);
    0
}

fn wait_turn(me: u32) {
    loop {
        let c = CURRENT.load(SeqCst);
        if c == me {
            return;
        }
        unsafe {
            raw6(202, CURRENT.as_ptr() as i64, 0 | 128, c as i64, 0, 0, 0);
        }
    }
}

fn hand(t: u32) {
    CURRENT.store(t, SeqCst);
    unsafe {
        raw6(202, CURRENT.as_ptr() as i64, 1 | 128, i32::MAX as i64, 0, 0, 0);
    }
}

fn pass_to(t: u32) {
    let me = ME.get();
    if t == me {
        return;
    }
    SWITCHES.fetch_add(1, SeqCst);
    hand(t);
    wait_turn(me);
}

/// Takes the next entry of the plan; returns the thread to run.
fn consult(me: u32) -> u32 {
    let i = NEXT_SW.fetch_add(1, SeqCst) as usize;
    #[allow(static_mut_refs)]
    let e = unsafe { PLAN.get(i).copied() };
    let Some((steps, t)) = e else {
        LEFT.store(i64::MAX, SeqCst);
        return me;
    };
    LEFT.store(steps, SeqCst);
    living(t, me)
}

/// The first living thread from t on.
fn living(t: u32, me: u32) -> u32 {
    let alive = ALIVE.load(SeqCst);
    for k in 0..MAX_T as u32 {
        let c = (t + k) % MAX_T as u32;
        if alive & (1 << c) != 0 {
            return c;
        }
    }
    me
}

fn note(v: u64) {
    let h = SIG.load(SeqCst);
    SIG.store(mix(&[h, v]), SeqCst);
}

fn step(edge: u32) {
    if BUSY.get() || ME.get() >= MAX_T as u32 {
        return;
    }
    BLOCKED.store(0, SeqCst);
    let a = &ARMED[edge as usize % cov::MAX_EDGES];
    if a.load(SeqCst) > 0 && a.fetch_sub(1, SeqCst) == 1 {
        #[allow(static_mut_refs)]
        let e = unsafe { ARMED_PLAN.iter().find(|e| e.0 == edge).copied() };
        if let Some((_, stay, t)) = e {
            BUSY.set(true);
            let me = ME.get();
            LEFT.store(stay, SeqCst);
            let t = living(t, me);
            if t != me {
                PLACED.fetch_add(1, SeqCst);
                note(1 << 61 | (me as u64) << 40 | (t as u64) << 32 | edge as u64);
            }
            pass_to(t);
            BUSY.set(false);
            return;
        }
    }
    if LEFT.fetch_sub(1, SeqCst) > 0 {
        return;
    }
    BUSY.set(true);
    let me = ME.get();
    let t = consult(me);
    if t != me {
        note((me as u64) << 40 | (t as u64) << 32 | edge as u64);
    }
    pass_to(t);
    BUSY.set(false);
}

fn step_alloc() {
    step(0)
}

// ---------- workload ----------

struct Ses {
    thread: usize,
    case: Case, // configuration and format
    frames: usize,
    piece: usize,
    late: usize,
    restart: bool,
    refused: bool,
}

fn sessions(c: &Case) -> Vec<Ses> {
    c.ops
        .iter()
        .filter(|o| o.name == "ses")
        .take(12)
        .map(|o| {
            let mut k = Case::new("C05");
            for (i, n) in ["cfg", "fs", "ov", "rate", "ch", "kind", "src"].iter().enumerate() {
                k.set(n, o.arg(i + 1));
            }
            Ses {
                thread: o.arg(0).rem_euclid(MAX_T as i64) as usize,
                case: k,
                frames: o.arg(8).clamp(0, 400_000) as usize,
                piece: o.arg(9).clamp(1, 400_000) as usize,
                late: o.arg(10).clamp(0, 50) as usize,
                restart: o.arg(11) & 1 == 1,
                refused: o.arg(11) & 2 == 2,
            }
        })
        .collect()
}

fn ses_data(s: &Ses) -> Vec<i16> {
    Source::new(s.case.get("src") as u64, s.case.get("kind"), lw::rate_of(&s.case), lw::ch_of(&s.case)).take(s.frames)
}

/// What a session leaves behind.
#[derive(Clone, PartialEq, Default)]
struct Result5 {
    fp: Vec<u32>,
    rest: Vec<u8>,
}

fn finish(f: &mut Fingerprinter, s: &Ses) -> Result5 {
    f.finish();
    let fp = f.fingerprint().to_vec();
    let k = lw::config(&s.case);
    let mut rest = FingerprintCompressor::from(&k).compress(&fp);
    // match against a copy that lost its beginning and a few bits
    let mut b: Vec<u32> = fp.iter().skip(fp.len() / 4).copied().collect();
    for (i, x) in b.iter_mut().enumerate() {
        if i % 5 == 0 {
            *x ^= 1 << (i % 32);
        }
    }
    match match_fingerprints(&fp, &b, &k) {
        Ok(v) => {
            for g in v {
                for x in [g.offset1 as u64, g.offset2 as u64, g.items_count as u64, g.score.to_bits()] {
                    rest.extend_from_slice(&x.to_le_bytes());
                }
            }
        }
        Err(_) => rest.push(1),
    }
    Result5 { fp, rest }
}

/// Runs some sessions interleaved piece by piece on the calling thread.
fn run_sessions(ss: &[(usize, &Ses, &[i16])], out: &mut dyn FnMut(usize, Result5)) {
    let mut fs: Vec<Option<Fingerprinter>> = ss.iter().map(|_| None).collect();
    let mut at = vec![0usize; ss.len()];
    let mut done = vec![false; ss.len()];
    let mut round = 0;
    while done.iter().any(|d| !d) {
        for (i, (id, s, data)) in ss.iter().enumerate() {
            if done[i] || round < s.late {
                continue;
            }
            let (rate, ch) = (lw::rate_of(&s.case), lw::ch_of(&s.case));
            if fs[i].is_none() {
                let mut f = Fingerprinter::new(&lw::config(&s.case));
                f.start(rate, ch).unwrap();
                if s.restart {
                    f.consume(&data[..data.len().min(4096 * ch as usize) / ch as usize * ch as usize]);
                    f.start(rate, ch).unwrap();
                }
                fs[i] = Some(f);
                continue;
            }
            let f = fs[i].as_mut().unwrap();
            if at[i] < s.frames {
                if s.refused {
                    // calls that are refused, some by a panic
                    let _ = f.start(500, 1);
                    if ch > 1 {
                        let _ = catching(|| f.consume(&data[..(ch as usize + 1).min(data.len())]));
                    }
                }
                let n = s.piece.min(s.frames - at[i]);
                f.consume(&data[at[i] * ch as usize..(at[i] + n) * ch as usize]);
                at[i] += n;
                let _ = f.fingerprint().len();
            } else {
                let r = finish(f, s);
                out(*id, r);
                done[i] = true;
                fs[i] = None; // dropped in the middle of the others
            }
        }
        round += 1;
    }
}

fn put(out: &mut Vec<u8>, id: usize, r: &Result<Result5, String>) {
    let mut line = |k: &str, b: &[u8]| {
        out.extend_from_slice(format!("{k} {id} {}\n", b.len()).as_bytes());
        out.extend_from_slice(b);
        out.push(b'\n');
    };
    match r {
        Ok(r) => {
            let b: Vec<u8> = r.fp.iter().flat_map(|x| x.to_le_bytes()).collect();
            line("fp", &b);
            line("rest", &r.rest);
        }
        Err(m) => line("panic", m.as_bytes()),
    }
}

static COUNTS: [AtomicU32; cov::MAX_EDGES] = [const { AtomicU32::new(0) }; cov::MAX_EDGES];

fn count_edge(e: u32) {
    let c = &COUNTS[e as usize % cov::MAX_EDGES];
    c.store(c.load(SeqCst).saturating_add(1), SeqCst);
}

fn put_edges(out: &mut Vec<u8>) {
    let b: Vec<u8> = (0..)
        .zip(&COUNTS)
        .map(|(e, c)| (e as u32, c.load(SeqCst)))
        .filter(|x| x.1 > 0)
        .flat_map(|(e, n)| (((e as u64) << 32) | n as u64).to_le_bytes())
        .collect();
    out.extend_from_slice(format!("edges 0 {}\n", b.len()).as_bytes());
    out.extend_from_slice(&b);
    out.push(b'\n');
}

struct Got {
    edges: Vec<(u32, u32)>,
    per: std::collections::BTreeMap<usize, Result<Result5, String>>,
    stats: Vec<u64>,
}

fn parse(mut b: &[u8]) -> Got {
    let mut g = Got { edges: vec![], per: Default::default(), stats: vec![] };
    while let Some(p) = b.iter().position(|&c| c == b'\n') {
        let head = String::from_utf8_lossy(&b[..p]).to_string();
        let w: Vec<&str> = head.split(' ').collect();
        let id: usize = w[1].parse().unwrap_or(0);
        let n: usize = w[2].parse().unwrap_or(0);
        let body = &b[p + 1..p + 1 + n];
        b = &b[p + 2 + n..];
        match w[0] {
            "fp" => {
                let fp = body.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
                g.per.insert(id, Ok(Result5 { fp, rest: vec![] }));
            }
            "rest" => {
                if let Some(Ok(r)) = g.per.get_mut(&id) {
                    r.rest = body.to_vec()
                }
            }
            "panic" => {
                g.per.insert(id, Err(String::from_utf8_lossy(body).to_string()));
            }
            "edges" => {
                g.edges = body
                    .chunks_exact(8)
                    .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                    .map(|x| ((x >> 32) as u32, x as u32))
                    .collect()
            }
            _ => g.stats = body.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect(),
        }
    }
    g
}

pub fn gen_c05(r: &mut Rng, _t: Tier, _i: u64) -> Case {
    let mut c = Case::new("C05");
    let threads = r.pick(&[1, 2, 2, 3, 4]);
    let n = r.range(2.max(threads), 6.max(threads));
    let mut last: Vec<i64> = vec![];
    for s in 0..n {
        let mut k = Case::new("");
        lw::gen_config(r, &mut k, 60);
        k.set("rate", lw::gen_rate(r));
        k.set("ch", lw::gen_channels(r).min(4));
        let rk = lw::ref_config(&k);
        let items = r.pick(&[2, 6, 15]);
        let mut f = lw::gen_frames(r, &rk, lw::rate_of(&k), items).min(150_000);
        if r.chance(1, 6) {
            f = f.min(3000);
        }
        let piece = match r.weighted(&[2, 2, 1]) {
            0 => r.pick(&[1152, 4096, 32768]),
            1 => r.log_range(200, 70_000),
            _ => f.max(1),
        };
        let mut a = vec![
            if s < threads { s } else { r.range(0, threads - 1) },
            k.get("cfg"),
            k.get("fs"),
            k.get("ov"),
            k.get("rate"),
            k.get("ch"),
            r.range(0, KINDS - 1),
            r.range(0, 1 << 30),
            f,
            piece,
            if r.chance(1, 2) { 0 } else { r.range(0, 8) },
            r.range(0, 1) + if r.chance(1, 6) { 2 } else { 0 },
        ];
        if !last.is_empty() && r.chance(1, 3) {
            // same shape as another session, other audio
            let (t, src) = (a[0], a[7]);
            a = last.clone();
            a[0] = t;
            a[7] = src;
            if r.chance(1, 2) {
                // ... or nearly the same shape
                let j = r.pick(&[1usize, 4, 5]);
                a[j] = match j {
                    1 => r.range(0, 4),
                    4 => lw::gen_rate(r),
                    _ => r.range(1, 4),
                };
            }
        }
        // matching takes quadratic time: keep the number of items in bounds
        let mut k = Case::new("");
        for (name, j) in [("cfg", 1), ("fs", 2), ("ov", 3), ("rate", 4), ("ch", 5)] {
            k.set(name, a[j]);
        }
        let rk = lw::ref_config(&k);
        while a[8] > 3000 && rk.items((a[8] * 11025 / lw::rate_of(&k) as i64) as usize) > 1500 {
            a[8] /= 2;
        }
        c.op("ses", &a);
        last = a;
    }
    if threads > 1 {
        let k = r.range(1, 300);
        let mean = r.pick(&[3i64, 30, 300, 3000, 30_000]);
        for _ in 0..k {
            let m = if r.chance(1, 6) { r.pick(&[2, 100, 10_000]) } else { mean };
            c.op("sw", &[r.log_range(1, m * 2), r.range(0, threads - 1)]);
        }
        // ... and at places in the code, however rarely they are passed
        if r.chance(2, 3) {
            for _ in 0..r.pick(&[4, 16, 60]) {
                let stay = r.pick(&[30i64, 3000, 30_000, 200_000]);
                c.op("at", &[r.range(0, 1 << 20), r.log_range(1, 1 << 22) - 1, r.log_range(1, stay), r.range(0, threads - 1)]);
            }
        }
    }
    c
}

pub fn run_c05(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let ss = sessions(c);
    if ss.is_empty() {
        return Ok(rep);
    }
    let data: Vec<Vec<i16>> = ss.iter().map(ses_data).collect();
    // every session alone, each in a process that never saw another
    let mut alone = vec![];
    let mut passed: std::collections::BTreeMap<u32, u32> = Default::default();
    for (i, s) in ss.iter().enumerate() {
        let b = sys::in_fork(60_000, || {
            let mut out = vec![];
            let mut got = None;
            cov::set_hook(Some(count_edge));
            let r = catching(|| run_sessions(&[(i, s, &data[i])], &mut |_, r| got = Some(r)));
            cov::set_hook(None);
            put(&mut out, i, &r.map(|_| got.unwrap()));
            put_edges(&mut out);
            out
        })
        .map_err(|e| Violation::new("solo-crash", format!("session {i} alone: {e}")))?;
        let mut g = parse(&b);
        for (e, n) in g.edges {
            cov::mark(e);
            let p = passed.entry(e).or_default();
            *p = p.saturating_add(n);
        }
        match g.per.remove(&i) {
            Some(Ok(r)) => alone.push(r),
            Some(Err(m)) => return Err(Violation::new("solo-panic", format!("session {i} alone: {m}"))),
            None => return Err(Violation::new("solo-crash", format!("session {i} alone: no result"))),
        }
        rep.sim_us += s.frames as u64 * 1_000_000 / lw::rate_of(&s.case) as u64;
    }
    // all of them together under the scheduler
    let plan: Vec<(i64, u32)> = c
        .ops
        .iter()
        .filter(|o| o.name == "sw")
        .map(|o| (o.arg(0).max(1), o.arg(1).rem_euclid(MAX_T as i64) as u32))
        .collect();
    let passed: Vec<(u32, u32)> = passed.into_iter().collect();
    let places: Vec<(u32, u32, i64, u32)> = c
        .ops
        .iter()
        .filter(|o| o.name == "at" && !passed.is_empty())
        .map(|o| {
            let (edge, count) = passed[o.arg(0).rem_euclid(passed.len() as i64) as usize];
            let visit = 1 + o.arg(1).rem_euclid(count.max(1) as i64) as u32;
            (edge, visit, o.arg(2).max(1), o.arg(3).rem_euclid(MAX_T as i64) as u32)
        })
        .collect();
    let b = sys::in_fork(100_000, || together(&ss, &data, plan, places));
    let b = match b {
        Ok(b) => b,
        Err(e) if e == "exit status 77" => {
            return Err(Violation::new("deadlock", "every thread waits for another".into()))
        }
        Err(e) => return Err(Violation::new("crash", format!("running together: {e}"))),
    };
    let g = parse(&b);
    let mut t = Trace::new();
    for (i, want) in alone.iter().enumerate() {
        match g.per.get(&i) {
            None => return Err(Violation::new("no-result", format!("session {i} has no result"))),
            Some(Err(m)) => {
                return Err(Violation::new("panic", format!("session {i} among others: {m}; alone it works")))
            }
            Some(Ok(r)) => {
                if r.fp != want.fp {
                    return Err(Violation::new(
                        "interference",
                        format!("session {i} among others vs alone: {}", first_diff(&r.fp, &want.fp)),
                    ));
                }
                if r.rest != want.rest {
                    return Err(Violation::new(
                        "interference-derived",
                        format!("session {i}: compressed form or matches differ from those made alone"),
                    ));
                }
                t.add_items(&r.fp);
                t.add_bytes(&r.rest);
            }
        }
    }
    let threads: std::collections::BTreeSet<usize> = ss.iter().map(|s| s.thread).collect();
    rep.hit(&format!("threads:{}", threads.len()));
    rep.hit_n("sessions", ss.len() as u64);
    rep.hit_n("fault:preemption", g.stats.first().copied().unwrap_or(0));
    rep.hit_n("fault:preemption-at-chosen-place", g.stats.get(3).copied().unwrap_or(0));
    rep.hit_n("lock-waits", g.stats.get(1).copied().unwrap_or(0));
    rep.trace = t.0;
    rep.signature = mix(&[g.stats.get(2).copied().unwrap_or(0), lw_sig(c)]);
    rep.nontrivial = ss.len() > 1
        && alone.iter().filter(|r| !r.fp.is_empty()).count() > 1
        && (threads.len() == 1 || g.stats.first().copied().unwrap_or(0) > threads.len() as u64);
    Ok(rep)
}

fn lw_sig(c: &Case) -> u64 {
    let mut t = Trace::new();
    for o in c.ops.iter().filter(|o| o.name == "ses") {
        for a in &o.args {
            t.add(*a as u64)
        }
    }
    t.0
}

fn together(ss: &[Ses], data: &[Vec<i16>], plan: Vec<(i64, u32)>, places: Vec<(u32, u32, i64, u32)>) -> Vec<u8> {
    let threads: std::collections::BTreeSet<usize> = ss.iter().map(|s| s.thread).collect();
    unsafe {
        PLAN = plan;
        ARMED_PLAN = places.iter().map(|p| (p.0, p.2, p.3)).collect();
    }
    for p in places.iter().rev() {
        ARMED[p.0 as usize % cov::MAX_EDGES].store(p.1, SeqCst);
    }
    let results: Mutex<Vec<(usize, Result<Result5, String>)>> = Mutex::new(vec![]);
    let mut mask = 0u32;
    for &t in &threads {
        mask |= 1 << t;
    }
    ALIVE.store(mask, SeqCst);
    let ready = AtomicU32::new(0);
    std::thread::scope(|sc| {
        for &t in &threads {
            let mine: Vec<(usize, &Ses, &[i16])> = ss
                .iter()
                .enumerate()
                .filter(|(_, s)| s.thread == t)
                .map(|(i, s)| (i, s, data[i].as_slice()))
                .collect();
            let (results, ready) = (&results, &ready);
            sc.spawn(move || {
                let me = t as u32;
                ready.fetch_add(1, SeqCst);
                wait_turn(me);
                ME.set(me);
                cov::set_hook(Some(step));
                alloc::set_hook(Some(step_alloc));
                let mut got: Vec<(usize, Result5)> = Vec::with_capacity(16);
                let r = catching(|| run_sessions(&mine, &mut |i, r| got.push((i, r))));
                alloc::set_hook(None);
                cov::set_hook(None);
                BUSY.set(true);
                {
                    let mut all = results.lock().unwrap();
                    let have: Vec<usize> = got.iter().map(|x| x.0).collect();
                    for (i, x) in got {
                        all.push((i, Ok(x)));
                    }
                    if let Err(m) = r {
                        for (i, _, _) in &mine {
                            if !have.contains(i) {
                                all.push((*i, Err(m.clone())));
                            }
                        }
                    }
                }
                // hand the baton to whoever is left
                let alive = ALIVE.fetch_and(!(1 << me), SeqCst) & !(1 << me);
                ME.set(MAX_T as u32);
                if alive != 0 {
                    let t = consult(alive.trailing_zeros());
                    let t = if alive & (1 << t) != 0 { t } else { alive.trailing_zeros() };
                    note(1 << 60 | (me as u64) << 8 | t as u64);
                    hand(t);
                }
            });
        }
        while ready.load(SeqCst) < threads.len() as u32 {
            std::thread::yield_now();
        }
        let first = consult(*threads.iter().next().unwrap() as u32);
        hand(first);
    });
    let mut out = vec![];
    let all = results.into_inner().unwrap();
    for (i, r) in &all {
        put(&mut out, *i, r);
    }
    let st: Vec<u8> = [SWITCHES.load(SeqCst), BLOCKS_SEEN.load(SeqCst), SIG.load(SeqCst), PLACED.load(SeqCst)]
        .iter()
        .flat_map(|x| x.to_le_bytes())
        .collect();
    out.extend_from_slice(format!("stats 0 {}\n", st.len()).as_bytes());
    out.extend_from_slice(&st);
    out.push(b'\n');
    out
}
