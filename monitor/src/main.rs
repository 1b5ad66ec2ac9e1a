macro_rules! say {
    ($($x:tt)*) => { crate::say(&format!($($x)*)) };
}
mod codec;
mod hooks;
mod known;

use dlpmon_core::rng::Rng;
use dlpmon_core::scen::{self, episode};
use dlpmon_core::sim::{Found, Pools, Sink, DICT, WORDS};
use dlpmon_core::svm;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const ROOT: &str = "/verif";
const SRC: &str = "/repo/src";

/// Integer literals of the program's source: values worth trying.
fn literals() -> (Vec<u64>, Vec<Vec<u8>>) {
    let mut out = std::collections::BTreeSet::new();
    let mut words = std::collections::BTreeSet::new();
    let mut dirs = vec![std::path::PathBuf::from(SRC)];
    let mut files = vec![];
    while let Some(d) = dirs.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p)
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                files.push(p)
            }
        }
    }
    for f in files {
        let s = std::fs::read_to_string(f).unwrap_or_default();
        let b = s.as_bytes();
        // short strings without blanks, and lists of bytes
        for l in s.lines().filter(|l| !l.trim_start().starts_with("//") && !l.contains("msg!") && !l.contains("use ")) {
            for w in l.split('"').skip(1).step_by(2) {
                if (2..=16).contains(&w.len()) && !w.contains([' ', '{', '\\']) {
                    words.insert(w.as_bytes().to_vec());
                }
            }
            for w in l.split('[').skip(1).filter_map(|x| x.split(']').next()) {
                let num = |t: &str| {
                    let t = t.trim().trim_end_matches("u8").trim_end_matches('_');
                    match t.strip_prefix("0x") {
                        Some(h) => u8::from_str_radix(h, 16).ok(),
                        None => t.parse::<u8>().ok(),
                    }
                };
                let v: Option<Vec<u8>> = w.split(',').filter(|t| !t.trim().is_empty()).map(num).collect();
                if let Some(v) = v.filter(|v| (2..=32).contains(&v.len())) {
                    words.insert(v);
                }
                if let Some((x, n)) = w.split_once(';') {
                    if let (Some(x), Ok(n)) = (num(x), n.trim().parse::<usize>()) {
                        if (2..=32).contains(&n) {
                            words.insert(vec![x; n]);
                        }
                    }
                }
            }
        }
        let mut i = 0;
        while i < b.len() {
            let prev = if i > 0 { b[i - 1] } else { b' ' };
            if b[i].is_ascii_digit() && !(prev.is_ascii_alphanumeric() || prev == b'_' || prev == b'"') {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                let mut t: String = s[i..j].replace('_', "");
                for suf in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128"] {
                    if let Some(x) = t.strip_suffix(suf) {
                        t = x.to_string();
                        break;
                    }
                }
                let v = if let Some(h) = t.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else if let Some(h) = t.strip_prefix("0b") {
                    u64::from_str_radix(h, 2).ok()
                } else {
                    t.parse().ok()
                };
                if let Some(v) = v {
                    out.insert(v);
                }
                i = j;
            } else {
                i += 1;
            }
        }
    }
    // simple arithmetic over the large ones (e.g. 100 * LAMPORTS_PER_SOL, 1 << 20)
    let base: Vec<u64> = out.iter().copied().collect();
    for x in &base {
        if *x < 64 && *x > 1 {
            out.insert(1u64 << x);
        }
    }
    for x in &base {
        for y in &base {
            if *x > 1 && *y > 1 && out.len() < 600 && (*x >= 1000 || *y >= 1000) {
                if let Some(p) = x.checked_mul(*y) {
                    out.insert(p);
                }
            }
        }
    }
    (out.into_iter().collect(), words.into_iter().collect())
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// how many properties there are
const NP: u32 = 36;
struct Opt {
    prop: u32,
    tier: String,
    seed: u64,
    secs: f64,
    min_eps: u64,
    max_eps: u64,
    threads: usize,
    profile: String,
    evidence: bool,
}

fn run_codec(seed: u64, ep: u64, sink: &mut Sink) {
    let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(27_000), ep);
    for _ in 0..200 {
        codec::case(&mut r, sink);
    }
}
fn one(pools: &Pools, seed: u64, ep: u64, prop: u32, sink: &mut Sink) {
    if prop == 27 && ep % 2 == 0 {
        run_codec(seed, ep, sink)
    } else {
        episode(pools, seed, ep, prop, sink)
    }
}
fn setup() {
    let _ = svm::DLP_ENTRY.set(dlp::process_instruction);
    let _ = scen::BUILD.set(hooks::build);
    let _ = scen::PDAS.set(hooks::pdas);
    let (numbers, words) = literals();
    let _ = DICT.set(numbers);
    let _ = WORDS.set(words);
    svm::install();
}

#[derive(Default)]
struct Total {
    evals: u64,
    events: u64,
    txs: u64,
    classes: BTreeMap<String, u64>,
    sample: Vec<String>,
    found: Vec<(u64, Found)>,
    harness: Vec<String>,
}

fn check(o: &Opt) -> i32 {
    let t0 = Instant::now();
    let id = format!("C{:02}", o.prop);
    let pools = Pools::new(o.seed);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let beats: Vec<AtomicU64> = (0..o.threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let curep: Vec<AtomicU64> = (0..o.threads).map(|_| AtomicU64::new(0)).collect();
    let total = Mutex::new(Total::default());
    let mut hang = None;
    std::thread::scope(|sc| {
        for n in 0..o.threads {
            let (pools, next, stop, total, beats, curep, done) = (&pools, &next, &stop, &total, &beats, &curep, &done);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let mut sink = Sink { mask: 1 << o.prop, ..Default::default() };
                    let mut found = vec![];
                    let mut harness = vec![];
                    loop {
                        let ep = next.fetch_add(1, Ordering::SeqCst);
                        let late = t0.elapsed().as_secs_f64() > o.secs;
                        if stop.load(Ordering::SeqCst) || ep >= o.max_eps || (late && ep >= o.min_eps) {
                            break;
                        }
                        beats[n].store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                        curep[n].store(ep, Ordering::SeqCst);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(pools, o.seed, ep, o.prop, &mut sink)));
                        if r.is_err() {
                            harness.push(format!("episode {ep}: the monitor itself panicked"));
                        }
                        if !sink.found.is_empty() {
                            for f in sink.found.drain(..) {
                                found.push((ep, f));
                            }
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    beats[n].store(u64::MAX, Ordering::SeqCst);
                    let mut t = total.lock().unwrap();
                    t.evals += sink.evals;
                    t.events += sink.events;
                    t.txs += sink.txs;
                    let sink = std::mem::take(&mut sink);
                    for (k, v) in sink.classes {
                        *t.classes.entry(k).or_insert(0) += v;
                    }
                    t.sample.extend(sink.sample);
                    t.found.extend(found);
                    t.harness.extend(harness);
                    drop(t);
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog: the program must come back
        while done.load(Ordering::SeqCst) < o.threads as u64 {
            std::thread::sleep(Duration::from_millis(20));
            let now = t0.elapsed().as_millis() as u64;
            for n in 0..o.threads {
                let b = beats[n].load(Ordering::SeqCst);
                if b != u64::MAX && now.saturating_sub(b) > 150_000 {
                    hang = Some(curep[n].load(Ordering::SeqCst));
                }
            }
            if let Some(ep) = hang {
                // cannot unwind a hung thread: report and leave
                let path = write_replay(o, &id, ep, "an episode did not terminate: the program does not return", "");
                say!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
        }
    });
    let mut t = total.into_inner().unwrap();
    let mut known_lines = vec![];
    if o.prop == 26 && t.found.is_empty() {
        let mut sink = Sink { mask: 1 << 26, ..Default::default() };
        for k in known::run(&pools, o.seed, &mut sink) {
            t.evals += 1;
            *t.classes.entry(format!("dead-end:{}:{}", k.id, k.broken)).or_insert(0) += 1;
            if k.broken {
                if known::listed("C26", k.id) {
                    known_lines.push(format!("KNOWN-FINDING: property=C26 id={} {}", k.id, k.what));
                } else {
                    t.found.push((u64::MAX, Found { tags: 1 << 26, what: format!("{}: {}", k.id, k.what), trace: k.trace }));
                }
            }
        }
    }
    for l in &known_lines {
        say!("{l}");
    }
    t.found.sort_by_key(|f| f.0);
    let wall = t0.elapsed().as_secs_f64();
    let eps = next.load(Ordering::SeqCst);
    let nviol = t.found.len();
    if o.evidence {
        let mut s = String::new();
        let mut samples: Vec<String> = t.sample.iter().take(4).cloned().collect();
        let n = t.classes.len();
        for (i, (k, v)) in t.classes.iter().enumerate() {
            if n <= 40 || i % (n / 40 + 1) == 0 {
                samples.push(format!("{k} x{v}"));
            }
        }
        let _ = write!(
            s,
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"program_invocations_observed\":{},\"transactions_executed\":{},\"episodes\":{},\"profile\":{},\"samples\":[{}]}},\"assumptions\":[{},{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
            esc(&id),
            esc(&o.tier),
            o.seed,
            t.evals,
            n,
            esc("Each evaluation is one observed invocation, transition or differential run of the real program to which the oracle of this property applied. Random multi-actor histories are generated from the seed; at each step the property's scenarios (mutated, interleaved, repeated, bundled, donated-to, hostile-callee variants) run from a cloned state. Distinct non-trivial = distinct classes (instruction, branch of the specification taken, outcome, relation of values to their boundaries) among evaluations relevant to this property."),
            t.events,
            t.txs,
            eps,
            esc(&o.profile),
            samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
            esc("program executed natively (not as SBF bytecode); runtime rules come from the Solana 2.2 crates, transaction-level rules are re-implemented in monitor/core/src/svm.rs"),
            esc("account data up to 10 KiB"),
            wall,
            nviol
        );
        let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
        if std::fs::write(format!("{ROOT}/evidence/{id}.json"), s).is_err() {
            eprintln!("cannot write evidence");
            return 2;
        }
    }
    say!(
        "{id} {} seed {}: {} episodes, {} transactions, {} invocations observed, {} evaluations in {} classes, {:.1} s",
        o.tier, o.seed, eps, t.txs, t.events, t.evals, t.classes.len(), wall
    );
    if let Some((ep, f)) = t.found.first() {
        let path = write_replay(o, &id, *ep, &f.what, &f.trace);
        let mut seen: HashMap<String, u32> = HashMap::new();
        for (ep, f) in &t.found {
            let c = seen.entry(f.what.chars().take(60).collect()).or_insert(0);
            *c += 1;
            if *c == 1 {
                say!("  episode {ep}: {}", f.what);
            }
        }
        say!("VIOLATION property={id} replay={path}");
        return 1;
    }
    if !t.harness.is_empty() {
        t.harness.truncate(5);
        eprintln!("monitor error: {:?}", t.harness);
        return 2;
    }
    if t.evals < 100 || t.classes.len() < 5 {
        eprintln!("too little was observed: {} evaluations, {} classes", t.evals, t.classes.len());
        return 2;
    }
    0
}

fn write_replay(o: &Opt, id: &str, ep: u64, what: &str, trace: &str) -> String {
    let dir = format!("{ROOT}/target/replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{}-{ep}.txt", o.seed);
    let _ = std::fs::write(
        &path,
        format!(
            "property {id}\n{what}\n\nreplay: {} replay --property {id} --seed {} --episode {ep}\n\n{trace}\n",
            std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default(),
            o.seed
        ),
    );
    path
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
static OUT: std::sync::OnceLock<Mutex<std::fs::File>> = std::sync::OnceLock::new();
/// The program logs to stdout when run natively: keep that out of our own output.
fn quiet_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    let keep = unsafe { dup(1) };
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    unsafe { dup2(null.as_raw_fd(), 1) };
    let _ = OUT.set(Mutex::new(unsafe { std::fs::File::from_raw_fd(keep) }));
}
pub fn say(s: &str) {
    use std::io::Write;
    let mut f = OUT.get().unwrap().lock().unwrap();
    let _ = writeln!(f, "{s}");
}

fn main() {
    quiet_stdout();
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str, d: u64| get(n).and_then(|x| x.parse().ok()).unwrap_or(d);
    setup();
    let prop: u32 = get("--property").and_then(|p| p.trim_start_matches('C').parse().ok()).unwrap_or(0);
    let seed = num("--seed", std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1));
    let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let profile = std::env::current_exe()
        .ok()
        .and_then(|p| p.parent().and_then(|d| d.file_name()).map(|x| x.to_string_lossy().to_string()))
        .unwrap_or_default();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") if (1..=NP).contains(&prop) => {
            let o = Opt {
                prop,
                seed,
                secs: num("--seconds", if thorough { 420 } else { 40 }) as f64,
                min_eps: num("--min-episodes", if thorough { 4000 } else { 400 }),
                max_eps: num("--max-episodes", u64::MAX),
                threads: num("--threads", std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8)) as usize,
                tier,
                profile,
                evidence: !a.iter().any(|x| x == "--no-evidence"),
            };
            std::process::exit(check(&o));
        }
        Some("replay") => {
            let ep = num("--episode", 0);
            let pools = Pools::new(seed);
            let mut sink = Sink { mask: if a.iter().any(|x| x == "--all") { u64::MAX } else { 1 << prop }, ..Default::default() };
            one(&pools, seed, ep, prop, &mut sink);
            for f in &sink.found {
                say!("== {:b} {}\n{}", f.tags, f.what, f.trace);
            }
            say!("{} transactions, {} deviations", sink.txs, sink.found.len());
            std::process::exit(if sink.found.is_empty() { 0 } else { 1 });
        }
        // every monitor at once (for development)
        Some("all") => {
            let pools = Pools::new(seed);
            let n = num("--episodes", 200);
            let from = num("--from", 0);
            let next = AtomicU64::new(from);
            let counts: Mutex<BTreeMap<String, (u64, u64, u64, String)>> = Mutex::new(BTreeMap::new());
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    sc.spawn(|| loop {
                        let ep = next.fetch_add(1, Ordering::SeqCst);
                        if ep >= from + n {
                            break;
                        }
                        let p = if prop == 0 { (ep % NP as u64 + 1) as u32 } else { prop };
                        let mut sink = Sink { mask: u64::MAX, ..Default::default() };
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&pools, seed, ep, p, &mut sink)));
                        let mut c = counts.lock().unwrap();
                        if r.is_err() {
                            c.entry("monitor panicked".into()).or_insert((0, ep, 0, "monitor panicked".into())).0 += 1;
                        }
                        for f in sink.found {
                            let k: String = f.what.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").chars().take(110).collect();
                            let e = c.entry(k).or_insert((0, ep, f.tags, f.what.clone()));
                            e.0 += 1;
                        }
                    });
                }
            });
            for (_, (n, ep, tags, w)) in counts.into_inner().unwrap() {
                let props: Vec<u32> = (1..=NP).filter(|i| tags >> i & 1 == 1).collect();
                say!("{n:>5}x first ep {ep} prop {:?}: {}", props, w.chars().take(300).collect::<String>());
            }
        }
        _ => {
            eprintln!("usage: dlpmon check|replay|all --property Cnn [--tier quick|thorough] [--seed N]");
            std::process::exit(2);
        }
    }
}
