//! Deterministic simulation of stable-fs with fault injection.
mod alloc;
mod audit;
mod disk;
mod gen;
mod guard;
mod legacy;
mod minimise;
mod model;
mod ops;
mod prng;
mod run;
mod world;

use minimise::{seed_of, Reducer};
use ops::*;
use run::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use world::{Stats, Viol};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

pub const PROPS: [&str; 16] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"];

/// The hash seeds of std's maps come from here: the simulator chooses them.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = HASH_SEED.try_with(|h| h.get()).unwrap_or(1);
    GETRANDOM_CALLS.fetch_add(1, Ordering::Relaxed);
    for i in 0..len {
        unsafe { *buf.add(i) = (prng::mix(seed.wrapping_add(i as u64 / 8)) >> (8 * (i % 8))) as u8 };
    }
    len as isize
}
static GETRANDOM_CALLS: AtomicU64 = AtomicU64::new(0);

pub fn quiet() {}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let was = alloc::inside(false);
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = world::LAST_PANIC.try_with(|l| *l.borrow_mut() = format!("{}: {}", loc, msg));
        if std::env::var("DST_BT").is_ok() {
            eprintln!("{}: {}\n{}", loc, msg, std::backtrace::Backtrace::force_capture());
        }
        alloc::inside(was);
    }));
}

// ---- one run of a property ------------------------------------------------

pub struct Case {
    pub cfg: Config,
    pub steps: Vec<Step>,
    pub out: Outcome,
    pub viol: Option<(usize, Viol)>,
    pub twin: Option<Config>,
    /// reduced already, to decide what the violation is about
    pub minimal: bool,
}

/// everything that one seed means for one property
fn run_seed(prop: &str, seed: u64) -> Result<Case, String> {
    let p = prop.to_string();
    let (_, cfg0) = gen::Gen::new(seed, prop);
    let hs = cfg0.hash_seed;
    let (cfg, out) = on_thread(hs, move || {
        let (mut g, mut cfg) = gen::Gen::new(seed, &p);
        if p == "C07" {
            cfg.bucket = 1;
        }
        let o = execute(&cfg, Source::Gen(&mut g), &Opts { no_raw: p == "C14" || p == "C07", ..Opts::default() });
        (cfg, o)
    })?;
    let steps = out.steps.clone();
    let mut case = Case { cfg: cfg.clone(), steps: steps.clone(), viol: out.viol.clone(), out, twin: None, minimal: false };
    if case.viol.is_none() && prop == "C07" {
        let mut c = cfg.clone();
        c.cycles = cycles_for(&cfg, &steps, seed);
        let o = replay_steps(&c, &steps, Opts::default())?;
        case.viol = o.viol.clone();
        case.out.stats.merge(&o.stats);
        case.out.stats.bump("probe:cycled workload");
        case.cfg = c;
    }
    if case.viol.is_none() && prop == "C14" {
        let t = twin_for(&cfg, &steps);
        if t.fss[0].transient {
            case.out.stats.bump("probe:twin run on transient storage");
        }
        let r = twin(&t, &steps, &case.out.results)?;
        case.out.stats.bump("probe:twin run");
        if r.is_some() {
            case.viol = r;
            case.twin = Some(t);
        }
    }
    Ok(case)
}

fn cycles_for(cfg: &Config, steps: &[Step], seed: u64) -> u32 {
    let f = &cfg.fss[0];
    let base = if f.v1 {
        120
    } else {
        match f.chunk_size.unwrap_or(16384) {
            65536 => 12,
            32768 => 18,
            16384 => 32,
            8192 => 64,
            _ => 120,
        }
    };
    let long = (seed >> 7) % 4 == 0;
    let mut bytes = 0u64;
    for s in steps {
        match &s.op {
            Op::Write { len, .. } => bytes += *len as u64,
            Op::WriteAt { lens, .. } | Op::WriteVec { lens, .. } => bytes += lens.iter().map(|x| *x as u64).sum::<u64>(),
            _ => {}
        }
    }
    if bytes > 3_000_000 {
        (base as u64).min(250_000_000 / bytes).max(3) as u32
    } else if long && steps.len() < 24 && bytes < 60_000 {
        700
    } else {
        base
    }
}

/// does this violation count for the property? `minimal`: no step of the history can be left out
fn attributed(prop: &str, cfg: &Config, steps: &[Step], v: &Viol, minimal: bool) -> Result<bool, String> {
    if v.tags.contains(prop) {
        return Ok(true);
    }
    if ["C02", "C04", "C05", "C12", "C13", "C14"].contains(&prop) && counterfactual(prop, cfg, steps, v)? {
        return Ok(true);
    }
    if minimal {
        return needs_feature(prop, cfg, steps, v);
    }
    Ok(false)
}

/// the shortest history found that shows the same violation, whatever property it belongs to
fn minimal(case: &Case, secs: u64) -> (Config, Vec<Step>, (usize, Viol)) {
    let v0 = case.viol.clone().unwrap();
    let class = kind_class(&v0.1.kind);
    let mut test = move |c: &Config, s: &[Step]| -> Option<(usize, Viol)> {
        let r = replay_steps(c, s, Opts::default()).ok()?.viol?;
        (kind_class(&r.1.kind) == class).then_some(r)
    };
    let (c, s, v, _) = Reducer::run(secs, case.cfg.clone(), case.steps.clone(), v0, &mut test);
    (c, s, v)
}

fn kind_class(k: &str) -> String {
    // context of the observation aside
    k.rsplit(':').next().unwrap_or(k).trim().to_string()
}

fn replay_one(prop: &str, cfg: &Config, twin_cfg: &Option<Config>, steps: &[Step]) -> Result<Option<(usize, Viol)>, String> {
    match twin_cfg {
        None => Ok(replay_steps(cfg, steps, Opts::default())?.viol),
        Some(t) => {
            let a = replay_steps(cfg, steps, Opts::default())?;
            if let Some((i, mut v)) = a.viol {
                // fails in both: no longer a difference
                v.tags.remove("C14");
                return Ok(if prop == "C14" { None } else { Some((i, v)) });
            }
            twin(t, steps, &a.results)
        }
    }
}

fn reduce(prop: &str, case: &Case, secs: u64) -> (Config, Vec<Step>, (usize, Viol), u64) {
    let v0 = case.viol.clone().unwrap();
    let by_tag = v0.1.tags.contains(prop);
    let class = kind_class(&v0.1.kind);
    let p = prop.to_string();
    let twin_cfg = case.twin.clone();
    let by_need = case.minimal;
    let mut test = move |c: &Config, s: &[Step]| -> Option<(usize, Viol)> {
        let r = replay_one(&p, c, &twin_cfg, s).ok()??;
        if by_tag {
            if !r.1.tags.contains(p.as_str()) || (kind_class(&r.1.kind) != class && r.1.kind.contains("trap") != class.contains("trap")) {
                return None;
            }
            Some(r)
        } else {
            if attributed(&p, c, s, &r.1, by_need).ok()? {
                Some(r)
            } else {
                None
            }
        }
    };
    Reducer::run(secs, case.cfg.clone(), case.steps.clone(), v0, &mut test)
}

// ---- evidence ---------------------------------------------------------------

#[derive(Default)]
struct Tally {
    runs: u64,
    steps: u64,
    nontrivial: BTreeSet<u64>,
    stats: Stats,
    samples: Vec<serde_json::Value>,
    others: BTreeMap<String, u64>,
    finals: BTreeSet<u64>,
    configs: BTreeMap<String, u64>,
    examples: BTreeMap<String, (usize, u64, String)>,
}

/// what has to have happened in a run for it to say something about the property
fn trigger(prop: &str, s: &Stats) -> bool {
    let c = |k: &str| s.counters.get(k).copied().unwrap_or(0);
    let wrote = c("ok:write") + c("ok:write_vec") + c("ok:write_vec_with_offset") > 0;
    match prop {
        "C01" => wrote && c("ok:read") + c("ok:read_vec") + c("ok:read_vec_with_offset") > 0,
        "C02" => c("fault:restart") + c("audit:shadow") > 0,
        "C03" => c("ok:open") > 1,
        "C04" => s.counters.keys().any(|k| k.starts_with("refused:")),
        "C05" => s.counters.keys().any(|k| k.starts_with("fault:trap") || k.starts_with("fault:growth")),
        "C06" => c("ok:rename") + c("ok:create_hard_link") > 0,
        "C07" => c("cycles") > 0,
        "C08" => c("ok:open") > 2,
        "C09" => c("ok:mount_memory_file") > 0,
        "C10" => c("ok:open") > 0,
        "C11" => c("op:scan_step") > 0,
        "C12" => wrote,
        "C13" => c("ok:open") > 0,
        "C14" => c("probe:twin run") > 0,
        _ => s.counters.len() > 5,
    }
}

fn trigger_text(prop: &str) -> &'static str {
    match prop {
        "C01" => "bytes were written and read back through the interface",
        "C02" => "the program was restarted or the memory was reopened on a copy",
        "C03" => "at least two objects were opened by name",
        "C04" => "at least one call was refused",
        "C05" => "at least one abort or refused growth was injected",
        "C06" => "a rename or hard link succeeded",
        "C07" => "the workload and its clean-up were repeated",
        "C08" => "at least three descriptors were opened",
        "C09" => "a memory was mounted",
        "C10" => "an object was opened",
        "C11" => "a resumed scan read entries",
        "C12" => "bytes were written next to other memories",
        "C13" => "a file of the old image or a new one was opened",
        "C14" => "the history was executed again under another configuration",
        "C15" => "more than five different events happened",
        _ => "more than five different events happened",
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(prop: &str, tier: &str, base: u64, t: &Tally, wall: f64, violations: u64, note: Option<String>) {
    let sub = |prefix: &str| -> BTreeMap<String, u64> { t.stats.counters.iter().filter(|(k, _)| k.starts_with(prefix)).map(|(k, v)| (k[prefix.len()..].to_string(), *v)).collect() };
    let rest: BTreeMap<String, u64> = t.stats.counters.iter().filter(|(k, _)| !["fault:", "probe:", "ok:", "op:", "refused:", "audit:"].iter().any(|p| k.starts_with(p))).map(|(k, v)| (k.clone(), *v)).collect();
    let hours = wall / 3600.0;
    let v = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": format!("one case is one simulated run: a seed decides configuration, clients, interleaving, arguments, clocks and faults; it is non-trivial if {} and distinct by the hash over every result observed in the run", trigger_text(prop)),
            "samples": t.samples,
            "steps_executed": t.steps,
            "seeds_per_hour": if hours > 0.0 { (t.runs as f64 / hours) as u64 } else { 0 },
            "simulated_time_s": t.stats.sim_ns / 1_000_000_000,
            "faults_injected": sub("fault:"),
            "audits": sub("audit:"),
            "calls_made": sub("op:"),
            "calls_ok": sub("ok:"),
            "calls_refused_by_error": sub("refused:"),
            "reached": sub("probe:"),
            "other_counters": rest,
            "distinct_abstract_states": t.stats.states.len(),
            "distinct_transitions": t.stats.transitions.len(),
            "distinct_final_states": t.finals.len(),
            "state_measure": "hash of the reference model after each step: tree shape, names, sizes, link counts, open descriptors, mounts; a transition is a state with the kind of call and whether it was refused",
            "configurations": t.configs,
            "violations_of_other_properties_seen": t.others,
            "hash_seed_draws": GETRANDOM_CALLS.load(Ordering::Relaxed),
            "real_components": ["stable_fs::fs::FileSystem", "stable_fs::storage::stable::StableStorage", "stable_fs::storage::transient::TransientStorage", "ic_stable_structures memory manager and maps"],
            "simulated_components": ["stable memory (ic_stable_structures::Memory: page-granular copy-on-write, growth limits, traps at any access)", "clock values given by clients", "message boundaries, rollback, restart", "hash seeds (getrandom)", "clients and their schedule", "other owners of virtual memories"],
            "note": note,
        },
        "assumptions": [
            "the platform rolls back memory of an aborted message completely (Internet Computer semantics); partial writes of a committed message are outside the model",
            "the reference model in dst/src/model.rs states the intended behaviour; choices it leaves open are listed in DESIGN.md"
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let dir = std::env::var("DST_OUT").unwrap_or_else(|_| format!("{}/..", env!("CARGO_MANIFEST_DIR")));
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    std::fs::write(format!("{}/evidence/{}.json", dir, prop), serde_json::to_string_pretty(&v).unwrap()).expect("write evidence");
}

fn write_replay(r: &Replay) -> String {
    let dir = std::env::var("DST_OUT").unwrap_or_else(|_| format!("{}/..", env!("CARGO_MANIFEST_DIR")));
    let dir = std::path::PathBuf::from(format!("{}/replays", dir));
    std::fs::create_dir_all(&dir).expect("replay dir");
    let dir = dir.canonicalize().unwrap();
    let f = format!("{}/{}-{:016x}.json", dir.display(), r.property, r.seed);
    std::fs::write(&f, serde_json::to_string_pretty(r).unwrap()).expect("write replay");
    f
}

// ---- known findings -----------------------------------------------------------

/// lines "KNOWN property=<id> kind=<kind>": the violation class that is recorded
fn known(prop: &str) -> Vec<(String, String)> {
    let f = format!("{}/../known-findings.txt", env!("CARGO_MANIFEST_DIR"));
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(f) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").trim_start_matches("property=");
                let k = it.next().unwrap_or("").trim_start_matches("replay=");
                if p == prop {
                    v.push((k.to_string(), it.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    v
}

// ---- check --------------------------------------------------------------------

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    tally: Mutex<Tally>,
    found: Mutex<Vec<(u64, u64, Case)>>,
    errors: Mutex<Vec<String>>,
    looked: Mutex<BTreeSet<String>>,
    current: Vec<Mutex<Option<(Instant, u64)>>>,
    /// which runs are in progress, for the process that looks at this one
    board: Option<std::fs::File>,
}

/// the search runs in a process of its own, so that a crash of the code under test is an observation too
fn check(prop: &str) -> i32 {
    if guard::is_child() {
        return search(prop);
    }
    let t0 = Instant::now();
    let sc = guard::Scratch::new();
    let runs = sc.file("runs");
    let st = std::process::Command::new(std::env::current_exe().unwrap()).args(["check", prop]).env("DST_CHILD", "1").env("DST_CURRENT", &runs).status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("harness error: {}", e);
            return 2;
        }
    };
    let Some(kind) = guard::kind_of(&st) else {
        if st.code().is_none() {
            eprintln!("harness error: the search was ended from outside: {}", st);
        }
        return st.code().unwrap_or(2);
    };
    println!("the search did not survive ({}): {}", st, kind);
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let current: Vec<u64> = std::fs::read(&runs).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|x| *x > 0).map(|x| x - 1).collect();
    let (tx, rx) = std::sync::mpsc::channel();
    for i in current.iter().cloned() {
        let tx = tx.clone();
        let p = prop.to_string();
        std::thread::spawn(move || {
            let seed = seed_of(base, &p, i);
            let _ = tx.send((i, seed, guard::examine(&p, i, seed, Duration::from_secs(40))));
        });
    }
    drop(tx);
    let mut all: Vec<(u64, u64, Replay)> = rx.iter().filter_map(|(i, s, r)| r.map(|r| (i, s, r))).collect();
    all.sort_by_key(|x| (!x.2.tags.iter().any(|t| t == prop), x.0));
    let mut tally = Tally::default();
    tally.runs = current.iter().max().map(|x| x + 1).unwrap_or(0);
    let Some((i, seed, mut rp)) = all.into_iter().next() else {
        write_evidence(prop, &tier, base, &tally, t0.elapsed().as_secs_f64(), 0, Some(format!("the search ended with {}; none of the runs in progress shows it on its own", st)));
        eprintln!("harness error: the search ended with {}; none of the runs in progress shows it on its own", st);
        return 2;
    };
    rp.detail = format!("run {}: {}", i, rp.detail);
    let file = write_replay(&rp);
    println!("violation in run {} (seed {:#x}): {} {:?}", i, seed, rp.kind, rp.tags);
    for (k, s) in rp.steps.iter().enumerate().take(60) {
        println!("  #{} fs{} client{} {:?}", k, s.fs, s.client, s.op);
    }
    let mine = rp.tags.iter().any(|t| t == prop);
    write_evidence(prop, &tier, base, &tally, t0.elapsed().as_secs_f64(), mine as u64, Some(format!("{}: {}; replay {}", rp.kind, rp.detail, file)));
    if mine {
        println!("VIOLATION property={} replay={}", prop, file);
        return 1;
    }
    println!("note: a violation of {:?}, not of {}: {}", rp.tags, prop, file);
    0
}

fn search(prop: &str) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let secs: u64 = std::env::var("DST_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 1500 } else { 45 });
    let workers: usize = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let first: u64 = std::env::var("DST_FIRST").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let max_runs: u64 = std::env::var("DST_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let end = t0 + Duration::from_secs(secs);
    for (file, text) in known(prop) {
        println!("KNOWN-FINDING: property={} {} {}", prop, file, text);
    }
    // the recorded regressions of this property first: cheap, and they must stay quiet
    let sh = Arc::new(Shared {
        next: AtomicU64::new(first),
        stop: AtomicBool::new(false),
        tally: Mutex::new(Tally::default()),
        found: Mutex::new(vec![]),
        errors: Mutex::new(vec![]),
        looked: Mutex::new(BTreeSet::new()),
        current: (0..workers).map(|_| Mutex::new(None)).collect(),
        board: std::env::var("DST_CURRENT").ok().and_then(|f| std::fs::File::create(f).ok()),
    });
    let mut hs = vec![];
    for w in 0..workers {
        let sh = sh.clone();
        let prop = prop.to_string();
        hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || worker(&prop, base, w, first, max_runs, end, &sh)).unwrap());
    }
    // watch for runs that never end
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let old = |c: &Mutex<Option<(Instant, u64)>>| c.lock().unwrap().map(|(t, _)| t.elapsed() > Duration::from_secs(100)).unwrap_or(false);
        if sh.current.iter().any(old) {
            sh.stop.store(true, Ordering::SeqCst);
            if !sh.found.lock().unwrap().is_empty() {
                return report(prop, &tier, base, &sh, t0);
            }
            guard::end_now(guard::HANG);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    for h in hs {
        if h.join().is_err() {
            sh.errors.lock().unwrap().push("worker died".into());
        }
    }
    if !sh.found.lock().unwrap().is_empty() {
        return report(prop, &tier, base, &sh, t0);
    }
    let errs = sh.errors.lock().unwrap().clone();
    let t = sh.tally.lock().unwrap();
    write_evidence(prop, &tier, base, &t, wall, 0, errs.first().cloned());
    if !errs.is_empty() {
        eprintln!("harness error: {}", errs[0]);
        return 2;
    }
    println!("{}: {} runs, {} steps, {} distinct non-trivial, {} states, {:.1} s, no violation", prop, t.runs, t.steps, t.nontrivial.len(), t.stats.states.len(), wall);
    if !t.others.is_empty() {
        println!("violations of other properties seen:");
        for (k, n) in &t.others {
            println!("  {} x {}", n, k);
            if let Some((st, run, d)) = t.examples.get(k.trim_start_matches("* ")) {
                println!("      run {} step {}: {}", run, st, d);
            }
        }
    }
    0
}

fn report(prop: &str, tier: &str, base: u64, sh: &Shared, t0: Instant) -> i32 {
    let mut f = sh.found.lock().unwrap();
    f.sort_by_key(|x| x.0);
    let (i, seed, case) = &f[0];
    let v0 = case.viol.clone().unwrap();
    println!("violation in run {} (seed {:#x}), step {}: {} {:?}", i, seed, v0.0, v0.1.kind, v0.1.tags);
    println!("  {}", v0.1.detail);
    let secs = std::env::var("DST_MIN_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if case.cfg.cycles > 1 { 40 } else { 20 });
    let (cfg, steps, v, tries) = reduce(prop, case, secs);
    println!("reduced from {} to {} steps in {} executions: step {}: {}", case.steps.len(), steps.len(), tries, v.0, v.1.kind);
    println!("  {}", v.1.detail);
    for (k, s) in steps.iter().enumerate() {
        println!("  #{} fs{} client{} {:?}", k, s.fs, s.client, s.op);
        if k > 60 {
            break;
        }
    }
    let file = write_replay(&Replay {
        property: prop.into(),
        seed: *seed,
        profile: prop.into(),
        kind: v.1.kind.clone(),
        tags: v.1.tags.iter().map(|s| s.to_string()).collect(),
        detail: v.1.detail.clone(),
        twin: case.twin.clone(),
        config: cfg,
        steps,
        by_seed: false,
    });
    let t = sh.tally.lock().unwrap();
    write_evidence(prop, tier, base, &t, t0.elapsed().as_secs_f64(), 1, Some(format!("{}: {}", v.1.kind, v.1.detail)));
    println!("VIOLATION property={} replay={}", prop, file);
    1
}

fn worker(prop: &str, base: u64, me: usize, first: u64, max_runs: u64, end: Instant, sh: &Shared) {
    while !sh.stop.load(Ordering::Relaxed) && Instant::now() < end {
        let i = sh.next.fetch_add(1, Ordering::Relaxed);
        if i - first >= max_runs {
            break;
        }
        let seed = seed_of(base, prop, i);
        *sh.current[me].lock().unwrap() = Some((Instant::now(), i));
        if let Some(f) = &sh.board {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(&(i + 1).to_le_bytes(), me as u64 * 8);
        }
        let r = run_seed(prop, seed);
        let slow = sh.current[me].lock().unwrap().take().map(|x| x.0.elapsed().as_secs_f64()).unwrap_or(0.0);
        let mut case = match r {
            Ok(c) => c,
            Err(e) => {
                sh.errors.lock().unwrap().push(format!("run {} (seed {:#x}): {}", i, seed, e));
                sh.stop.store(true, Ordering::SeqCst);
                return;
            }
        };
        let mut mine = false;
        if let Some((_, v)) = &case.viol {
            match attributed(prop, &case.cfg, &case.steps, v, false) {
                Ok(b) => mine = b,
                Err(e) => sh.errors.lock().unwrap().push(format!("run {} counterfactual: {}", i, e)),
            }
            // another kind of violation than those looked at so far: is it about this property all the same?
            let fresh = !mine && case.twin.is_none() && case.cfg.cycles <= 1 && {
                let mut l = sh.looked.lock().unwrap();
                l.len() < 12 && l.insert(format!("{} {:?}", v.kind, v.tags))
            };
            if fresh {
                let (c, s, x) = minimal(&case, 8);
                match attributed(prop, &c, &s, &x.1, true) {
                    Ok(true) => {
                        mine = true;
                        case.cfg = c;
                        case.steps = s;
                        case.viol = Some(x);
                        case.minimal = true;
                    }
                    Ok(false) => {}
                    Err(e) => sh.errors.lock().unwrap().push(format!("run {} counterfactual: {}", i, e)),
                }
            }
        }
        let mut t = sh.tally.lock().unwrap();
        t.runs += 1;
        t.steps += case.steps.len() as u64;
        if slow > 5.0 {
            t.stats.bump("runs slower than 5 s");
        }
        t.stats.merge(&case.out.stats);
        t.finals.insert(case.out.model_hash);
        if trigger(prop, &case.out.stats) {
            t.nontrivial.insert(case.out.log);
        }
        let f = &case.cfg.fss[0];
        let c = if f.transient {
            "transient".to_string()
        } else {
            format!("{}{}{}", if f.own_manager { "own manager, " } else { "" }, if f.v1 { "V1 " } else { "V2 " }, f.chunk_size.map(|c| (c >> 10).to_string() + "K").unwrap_or("default".into()))
        };
        *t.configs.entry(c).or_default() += 1;
        if t.samples.len() < 3 && case.steps.len() <= 60 && trigger(prop, &case.out.stats) {
            let s = serde_json::json!({"run": i, "seed": format!("{:#x}", seed), "config": serde_json::to_value(&case.cfg).unwrap(), "steps": case.steps.iter().take(25).map(|s| format!("fs{} client{} {:?}", s.fs, s.client, s.op)).collect::<Vec<_>>(), "steps_total": case.steps.len()});
            t.samples.push(s);
        }
        if case.viol.is_some() {
            if mine && std::env::var("DST_COLLECT").is_err() {
                drop(t);
                sh.found.lock().unwrap().push((i, seed, case));
                sh.stop.store(true, Ordering::SeqCst);
                return;
            }
            let v = &case.viol.as_ref().unwrap().1;
            let mut k = format!("{} {:?}", v.kind, v.tags);
            if std::env::var("DST_COLLECT").is_ok() {
                let l = Some(i);
                t.examples.entry(k.clone()).or_insert((case.viol.as_ref().unwrap().0, l.unwrap(), v.detail.clone()));
                if mine {
                    k = format!("* {}", k);
                }
            }
            *t.others.entry(k).or_default() += 1;
        }
    }
}

// ---- other commands -------------------------------------------------------------

fn replay(file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let r: Replay = serde_json::from_str(&s).expect("replay file");
    if !guard::is_child() {
        // in a process of its own first: it may not survive, or not end
        let sc = guard::Scratch::new();
        match guard::child(&["replay", file], &sc.file("record"), Duration::from_secs(40)) {
            Ok(Some(k)) => {
                println!("{} {:?}", k, r.tags);
                println!("same as recorded: {}", k == r.kind);
                println!("VIOLATION property={} replay={}", r.property, file);
                return 1;
            }
            Ok(None) => {}
            Err(e) => {
                eprintln!("harness error: exit code {}", e);
                return 2;
            }
        }
    }
    if r.by_seed {
        return match run_seed(&r.profile, r.seed) {
            Ok(c) => {
                println!("ended: {:?}", c.viol);
                0
            }
            Err(e) => {
                eprintln!("harness error: {}", e);
                2
            }
        };
    }
    let o = Opts { trace: std::env::var("DST_TRACE").is_ok(), ..Opts::default() };
    let trace = if o.trace { replay_steps(&r.config, &r.steps, o).map(|x| x.trace).unwrap_or_default() } else { vec![] };
    for t in trace {
        println!("{}", t);
    }
    match replay_one(&r.property, &r.config, &r.twin, &r.steps) {
        Err(e) => {
            eprintln!("harness error: {}", e);
            2
        }
        Ok(None) => {
            println!("no violation");
            0
        }
        Ok(Some((i, v))) => {
            println!("step {}: {} {:?}\n  {}", i, v.kind, v.tags, v.detail);
            match attributed(&r.property, &r.config, &r.steps, &v, true) {
                Ok(true) => {
                    println!("same as recorded: {}", v.kind == r.kind && v.detail == r.detail);
                    println!("VIOLATION property={} replay={}", r.property, file);
                    1
                }
                Ok(false) => {
                    println!("not a violation of {}", r.property);
                    0
                }
                Err(e) => {
                    eprintln!("harness error: {}", e);
                    2
                }
            }
        }
    }
}

fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    for prop in PROPS {
        for i in 0..n {
            let seed = seed_of(77, prop, i);
            let a = run_seed(prop, seed);
            let b = run_seed(prop, seed);
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    if a.out.log != b.out.log || a.steps != b.steps || a.out.results != b.out.results || a.out.model_hash != b.out.model_hash {
                        println!("{} seed {:#x}: two executions differ", prop, seed);
                        bad += 1;
                        continue;
                    }
                    // the recorded steps alone give the same execution
                    if prop != "C07" && prop != "C14" && a.viol.is_none() {
                        match replay_steps(&a.cfg, &a.steps, Opts::default()) {
                            Ok(c) => {
                                if c.log != a.out.log || c.results != a.out.results {
                                    println!("{} seed {:#x}: replay of the steps differs", prop, seed);
                                    bad += 1;
                                }
                            }
                            Err(e) => {
                                println!("{} seed {:#x}: {}", prop, seed, e);
                                bad += 1;
                            }
                        }
                    }
                }
                (a, b) => {
                    println!("{} seed {:#x}: {:?} {:?}", prop, seed, a.err(), b.err());
                    bad += 1;
                }
            }
        }
    }
    println!("selftest: {} seeds of {} properties executed twice, {} differences", n, PROPS.len(), bad);
    (bad > 0) as i32
}

/// images of the current layout, written by the code of the commit that the work started from
fn golden_gen(dir: &str) -> i32 {
    std::fs::create_dir_all(dir).unwrap();
    let mut have: BTreeSet<String> = BTreeSet::new();
    let mut i = 0u64;
    while have.len() < 14 && i < 20000 {
        i += 1;
        let seed = seed_of(4711, "golden", i);
        let dir = dir.to_string();
        let have2 = have.clone();
        let r = on_thread(seed, move || {
            let (mut g, mut cfg) = gen::Gen::new(seed, "golden");
            cfg.bucket = 1;
            cfg.fss[0].start = 10;
            cfg.fss[0].range_len = 10;
            cfg.fss[0].own_manager = false;
            cfg.mems = cfg.mems.iter().map(|_| MemSpec::Separate).collect();
            let mounts = !cfg.mems.is_empty();
            let name = format!("{}-{}{}", if cfg.fss[0].v1 { "v1" } else { "v2" }, cfg.fss[0].chunk_size.map(|c| c.to_string()).unwrap_or("default".into()), if mounts { "-mounted" } else { "" });
            if have2.contains(&name) {
                return None;
            }
            let mut w = world::World::new(cfg).ok()?;
            while let Some(s) = g.next(&mut w) {
                w.step(&s).ok()?;
            }
            let m = &w.insts[0].model;
            let img = w.main.export();
            let files = m.inodes.values().filter(|n| !n.dir && n.size > 0).count();
            let dirs = m.inodes.values().filter(|n| n.dir && !n.entries.is_empty()).count();
            let with_meta = m.inodes.values().any(|n| n.mmeta.is_some());
            let links = m.inodes.values().any(|n| n.nlink > 1);
            if files < 5 || dirs < 3 || !links || with_meta != mounts || img.1.len() > 110 || m.fds.len() > 1 || m.inodes.values().any(|n| n.node.is_none()) {
                return None;
            }
            legacy::save_golden(&format!("{}/{}.json", dir, name), m, img);
            Some(name)
        });
        if let Ok(Some(n)) = r {
            println!("{}", n);
            have.insert(n);
        }
    }
    println!("{} images", have.len());
    0
}

fn main() {
    hook();
    if guard::is_child() {
        guard::enter_child();
        if let Ok(f) = std::env::var("DST_LAST") {
            guard::record_to(f);
        }
    }
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() == 3 && PROPS.contains(&a[2].as_str()) => check(&a[2]),
        Some("replay") if a.len() == 3 => replay(&a[2]),
        Some("golden") if a.len() == 3 => golden_gen(&a[2]),
        Some("selftest") => selftest(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(20)),
        Some("run") if a.len() == 4 => {
            let i: u64 = a[3].parse().unwrap();
            let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            match run_seed(&a[2], seed_of(base, &a[2], i)) {
                Ok(c) => {
                    println!("{} steps, cfg {:?}", c.steps.len(), c.cfg);
                    if std::env::var("DST_TRACE").is_ok() {
                        for (k, s) in c.steps.iter().enumerate() {
                            println!("#{} {:?}", k, s);
                        }
                    }
                    println!("{:?}", c.viol);
                    0
                }
                Err(e) => {
                    println!("harness error {}", e);
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: dst check C01..C16 | replay FILE | selftest [N] | run PROP INDEX");
            2
        }
    };
    std::process::exit(code);
}
