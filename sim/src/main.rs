mod alloc;
mod case;
mod cli;
mod conc;
mod cov;
mod lib_world;
mod matcher;
mod media;
mod refmodel;
mod rng;
mod runner;
mod signal;
mod sys;

use runner::{Prop, Tier};

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

const LIB_REAL: &[&str] = &[
    "rusty_chromaprint (whole library, from /repo's working tree)",
    "rubato resampler",
    "rustfft",
];
const LIB_STUB: &[&str] = &[
    "audio source (seeded synthetic microphone)",
    "caller (simulated: every call, its size and its moment come from the case)",
];

const CLI_REAL: &[&str] = &["fpcalc binary (whole program: argument parsing, chrono, symphonia, library)"];
const CLI_STUB: &[&str] = &[
    "storage (open, read, seek, stat of the media files, shim/shim.c)",
    "standard output (write)",
    "clocks and getrandom",
    "media files (written by sim/src/media.rs)",
];
const CLI_ASSUME: &[&str] = &[
    "PCM in WAV, AIFF and CAF, and FLAC with constant and verbatim subframes; lossy codecs are not generated",
    "the expected fingerprints come from the library itself (checked by C01-C09)",
    "a file that ends early is not an error (the format library cannot tell it from the end)",
];

fn props() -> Vec<Prop> {
    use lib_world as l;
    vec![
        Prop {
            id: "C01",
            gen: l::gen_c01,
            run: l::run_c01,
            quick: 6000,
            quick_cap_s: 60,
            thorough_s: 900,
            case_limit_s: 60,
            both_builds: true,
            rule: "A seeded stream (configuration, rate, channels, signal, length biased to multiples of the 32768-frame buffer) delivered by a seeded schedule of calls, compared item for item with one call for everything; non-trivial: more than one delivery operation and at least one item; distinct: hash of configuration, format and delivery schedule.",
            real: LIB_REAL,
            stub: LIB_STUB,
            assumptions: &["deliveries are whole frames; streams of up to 3 million samples per run"],
        },
        Prop {
            id: "C02",
            gen: l::gen_c02,
            run: l::run_history,
            quick: 4000,
            quick_cap_s: 60,
            thorough_s: 900,
            case_limit_s: 60,
            both_builds: true,
            rule: "A seeded history of sessions on one fingerprinter (started at changing rates and channel counts, abandoned or finished anywhere), compared after every operation with a fingerprinter created at the last accepted start; non-trivial: a session that yields items follows one that consumed audio; distinct: hash of the whole history.",
            real: LIB_REAL,
            stub: LIB_STUB,
            assumptions: &["a session ends with finish; consume after finish without start is outside the contract"],
        },
        Prop {
            id: "C03",
            gen: l::gen_c03,
            run: l::run_history,
            quick: 4000,
            quick_cap_s: 60,
            thorough_s: 900,
            case_limit_s: 60,
            both_builds: true,
            rule: "As C02 with refused calls (bad rate, no channels, partial frames) injected at any point of the history; the twin never sees them; non-trivial: at least one refusal inside a running history; distinct: hash of the whole history.",
            real: LIB_REAL,
            stub: LIB_STUB,
            assumptions: &["panics unwind (the default), so a refused consume can be survived"],
        },
        Prop {
            id: "C04",
            gen: l::gen_c04,
            run: l::run_c04,
            quick: 5000,
            quick_cap_s: 60,
            thorough_s: 900,
            case_limit_s: 60,
            both_builds: true,
            rule: "A seeded delivery schedule with readings of the live fingerprint and repeated finishes placed by the seed; checked: every reading extends the previous ones, the lag and item-count bounds, agreement with a twin never read; non-trivial: the reading grew at least twice; distinct: hash of format, schedule and growth.",
            real: LIB_REAL,
            stub: LIB_STUB,
            assumptions: &["lag allowance: 32768 input frames, the resampler's 16-tap window and one step"],
        },
        Prop {
            id: "C05",
            gen: conc::gen_c05,
            run: conc::run_c05,
            quick: 3000,
            quick_cap_s: 70,
            thorough_s: 1200,
            case_limit_s: 180,
            both_builds: true,
            rule: "Two to six sessions on one to four real threads, one running at a time; the case says after how many steps (edges taken in the library, heap operations) which thread runs next; every result compared with the same session alone in a fresh process; non-trivial: at least two sessions with items and, with several threads, more switches than threads; distinct: hash of the sessions and of the sequence of (from, to, code position) switches.",
            real: LIB_REAL,
            stub: &["thread scheduler (baton passing, decided by the case)", "futex waits of managed threads (turned into scheduler decisions)", "audio source"],
            assumptions: &["switches happen at basic-block edges of the library and at heap operations, not inside its dependencies", "sequentially consistent memory: weak-memory reorderings are not simulated"],
        },
        Prop {
            id: "C06",
            gen: l::gen_c06,
            run: l::run_c06,
            quick: 4000,
            quick_cap_s: 80,
            thorough_s: 1200,
            case_limit_s: 120,
            both_builds: true,
            rule: "A seeded stream under a seeded configuration, compared with an independently written whole-stream model of the algorithm (own FFT, no incremental state, margins for rounding); non-trivial: at least one item; distinct: hash of the configuration, format, schedule and resulting items.",
            real: LIB_REAL,
            stub: &["audio source (seeded synthetic microphone)", "oracle: reference model in sim/src/refmodel.rs; at other rates it trusts rubato run once over the whole stream"],
            assumptions: &["smoothing coefficients are non-negative and at most 8; frame sizes 16..8192", "bits whose classifier value lies within 1e-7 (native rate) or 1e-4 (resampled) of a threshold are not judged"],
        },
        Prop {
            id: "C07",
            gen: l::gen_c07,
            run: l::run_c07,
            quick: 4000,
            quick_cap_s: 60,
            thorough_s: 900,
            case_limit_s: 60,
            both_builds: true,
            rule: "A seeded stream and delivery schedule, cut at seeded frames (biased to buffer boundaries and the end) and finished there; compared with the uncut stream; non-trivial: some cut yields a non-empty proper prefix; distinct: hash of format, schedule and cuts.",
            real: LIB_REAL,
            stub: LIB_STUB,
            assumptions: &[],
        },
        Prop {
            id: "C08",
            gen: l::gen_c08,
            run: l::run_c08,
            quick: 700,
            quick_cap_s: 80,
            thorough_s: 1500,
            case_limit_s: 600,
            both_builds: true,
            rule: "Long seeded streams and long histories of sessions; live heap bytes (counted by the harness allocator) after the first quarter may only grow by 8 bytes per item plus 64 KiB, and the items due must be there at the end; non-trivial: more than 16 items or at least one session cycle; distinct: hash of format and schedule.",
            real: LIB_REAL,
            stub: LIB_STUB,
            assumptions: &["heap use is measured through the global allocator of the harness", "arithmetic overflow checks are on"],
        },
        Prop {
            id: "C09",
            gen: l::gen_c09,
            run: l::run_c09,
            quick: 6000,
            quick_cap_s: 60,
            thorough_s: 900,
            case_limit_s: 60,
            both_builds: true,
            rule: "Snapshots of live streams and archived fingerprints with seeded storage damage are compressed and decoded by an independent decoder; non-trivial: at least one item went through; distinct: hash of all compressed bytes.",
            real: LIB_REAL,
            stub: &["audio source", "archive (vector with injected damage)", "oracle: decoder written from the format"],
            assumptions: &["fewer than 2^24 items (the format's own limit)"],
        },
        Prop {
            id: "C10",
            gen: matcher::gen_c10,
            run: matcher::run_c10,
            quick: 20000,
            quick_cap_s: 60,
            thorough_s: 900,
            case_limit_s: 60,
            both_builds: true,
            rule: "Two archived copies of a seeded fingerprint, damaged by a seeded sequence of losses, duplications, crops, foreign audio and bit-error bursts, matched both ways round and compared with an integer reference matcher; non-trivial: at least one segment reported; distinct: hash of both fingerprints.",
            real: LIB_REAL,
            stub: &["archive (vectors with injected damage)", "oracle: reference matcher in whole-number arithmetic"],
            assumptions: &["when two alignments agree equally often either is accepted; where exact ties make rounding decide a cut only the soundness conditions are checked"],
        },
        Prop {
            id: "C11",
            gen: cli::gen_c11,
            run: cli::run_c11,
            quick: 8000,
            quick_cap_s: 100,
            thorough_s: 900,
            case_limit_s: 120,
            both_builds: false,
            rule: "One fpcalc run over a seeded media file under a seeded storage schedule (short reads, unseekable source, early end, transient and persistent errors at chosen calls and bytes, refused open, failing stat and seek); every printed fingerprint is compared with the library's for the audio whose duration is printed; non-trivial: some storage behaviour differed from plain full reads and the run failed or printed items; distinct: hash of the whole event log.",
            real: CLI_REAL,
            stub: CLI_STUB,
            assumptions: CLI_ASSUME,
        },
        Prop {
            id: "C12",
            gen: cli::gen_c12,
            run: cli::run_c12,
            quick: 7000,
            quick_cap_s: 100,
            thorough_s: 900,
            case_limit_s: 120,
            both_builds: false,
            rule: "One fpcalc run over a seeded stream with seeded chunk length, overlap and length limit, packets from 16 to 65535 frames and read sizes from one byte; compared piece by piece with the library's fingerprint of exactly those samples; non-trivial: more than one piece and at least one item; distinct: hash of options, format and event log.",
            real: CLI_REAL,
            stub: CLI_STUB,
            assumptions: CLI_ASSUME,
        },
        Prop {
            id: "C13",
            gen: cli::gen_c13,
            run: cli::run_c13,
            quick: 7000,
            quick_cap_s: 100,
            thorough_s: 900,
            case_limit_s: 120,
            both_builds: false,
            rule: "One fpcalc run while the clock advances, stalls and jumps at seeded bytes of the input; the printed stamps must be times the clock showed when the previous piece became complete, everything else must be what it is under any other clock; non-trivial: the clock moved and more than one result was printed; distinct: hash of options, format and event log.",
            real: CLI_REAL,
            stub: CLI_STUB,
            assumptions: CLI_ASSUME,
        },
        Prop {
            id: "C14",
            gen: cli::gen_c14,
            run: cli::run_c14,
            quick: 4000,
            quick_cap_s: 100,
            thorough_s: 900,
            case_limit_s: 120,
            both_builds: false,
            rule: "Three fpcalc runs over one stream: another presentation, this presentation, and this one with partial, interrupted and refused writes; all parsed strictly and compared item for item; non-trivial: at least one item; distinct: hash of options, format and event log.",
            real: CLI_REAL,
            stub: CLI_STUB,
            assumptions: CLI_ASSUME,
        },
        Prop {
            id: "C15",
            gen: cli::gen_c15,
            run: cli::run_c15,
            quick: 4500,
            quick_cap_s: 100,
            thorough_s: 900,
            case_limit_s: 120,
            both_builds: false,
            rule: "One compare run over two seeded versions of one recording (rates, channels, containers, cuts, inserted audio) under seeded storage schedules; the table is compared with the library's matcher on the library's fingerprints; non-trivial: at least one row printed or a read failed; distinct: hash of the event log and the table.",
            real: &["compare binary (whole program, real argument parsing, symphonia, library)"],
            stub: CLI_STUB,
            assumptions: CLI_ASSUME,
        },
        Prop {
            id: "C18",
            gen: cli::gen_c18,
            run: cli::run_c18,
            quick: 500,
            quick_cap_s: 100,
            thorough_s: 900,
            case_limit_s: 300,
            both_builds: false,
            rule: "One fpcalc run over a live stream of up to hours from an unseekable source; each piece must be printed before more than two packets and two reads beyond it are consumed, and the heap must not grow after the first quarter; non-trivial: more than four pieces with items; distinct: hash of options, format and event log.",
            real: CLI_REAL,
            stub: CLI_STUB,
            assumptions: CLI_ASSUME,
        },
        Prop {
            id: "C19",
            gen: cli::gen_c19,
            run: cli::run_c19,
            quick: 8000,
            quick_cap_s: 100,
            thorough_s: 900,
            case_limit_s: 120,
            both_builds: false,
            rule: "One fpcalc or compare run over a FLAC or Matroska file with seeded blocks made undecodable (reserved or invalid subframes, blocks cut short, emptied or zeroed, bad headers, impossible lacing): fpcalc must print exactly the results complete before the damage and fail, compare must leave out exactly those blocks or, where the container is lost, fail; non-trivial: the damage was met; distinct: hash of system calls and output.",
            real: &["fpcalc and compare binaries (whole programs, real argument parsing, symphonia, library)"],
            stub: CLI_STUB,
            assumptions: &["a bare FLAC block that fails its own checksum is dropped by symphonia's demuxer before either program can know; such damage is not generated", "symphonia decodes the undamaged blocks of the files media.rs writes"],
        },
    ]
}

fn main() {
    runner::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let all = props();
    let find = |id: &str| {
        all.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("simcheck: unknown property {id}");
            std::process::exit(2)
        })
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1u64);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ if args.iter().any(|a| a == "--thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let tier = if args.iter().any(|a| a == "--quick") { Tier::Quick } else { tier };
            runner::check(find(&args[2]), tier, seed)
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| {
                eprintln!("simcheck: {e}");
                std::process::exit(2)
            });
            match case::Case::from_text(&t) {
                Ok(c) => runner::replay(find(&c.property), &c),
                Err(e) => {
                    eprintln!("simcheck: {e}");
                    2
                }
            }
        }
        Some("selftest") => {
            let n = args.get(3).and_then(|x| x.parse().ok()).unwrap_or(100);
            let mut ok = true;
            for p in &all {
                if args.get(2).map_or(true, |x| x == "all" || x == p.id) {
                    ok &= runner::selftest(p, n, seed);
                }
            }
            if ok {
                0
            } else {
                1
            }
        }
        Some("case") => {
            cov::set_shipped();
            let mut t = String::new();
            let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut t);
            match case::Case::from_text(&t) {
                Ok(c) => runner::case_main(find(&c.property), &c),
                Err(_) => 2,
            }
        }
        Some("edges") => {
            println!("{}", cov::edges());
            0
        }
        Some("show") => {
            let i = args[3].parse().unwrap();
            let p = find(&args[2]);
            let c = runner::make_case(p, seed, Tier::Quick, i);
            print!("{}", c.to_text());
            0
        }
        _ => {
            eprintln!("usage: simcheck check ID [--thorough] | replay FILE | selftest ID|all N | show ID N");
            2
        }
    };
    std::process::exit(code);
}
