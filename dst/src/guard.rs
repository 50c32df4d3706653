//! Executions that end the process or do not end: the search runs in a child process, and when that dies the
//! runs in progress are executed again, one process each, with a record of how far they came.
use crate::minimise::Reducer;
use crate::ops::*;
use crate::world::Viol;
use std::cell::RefCell;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, ExitStatus};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// the code under test took more memory than any program on the platform has
pub const EXCESS: i32 = 77;
/// a run of the search did not end
pub const HANG: i32 = 78;

extern "C" {
    fn _exit(code: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub fn end_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

pub fn is_child() -> bool {
    std::env::var("DST_CHILD").is_ok()
}

/// a child does not outlive the process that looks at it
pub fn enter_child() {
    unsafe { prctl(1, 9, 0, 0, 0) };
}

// ---- how far an execution came -------------------------------------------------

static RECORD: Mutex<Option<String>> = Mutex::new(None);
thread_local! {
    static OUT: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
}

pub fn record_to(file: String) {
    *RECORD.lock().unwrap() = Some(file);
}

/// a new execution starts: what is in the record is about an earlier one
pub fn begin(cfg: &Config) {
    let r = RECORD.lock().unwrap();
    if let Some(f) = r.as_ref() {
        if let Ok(mut f) = std::fs::File::create(f) {
            let _ = writeln!(f, "{}", serde_json::to_string(cfg).unwrap());
            OUT.with(|o| *o.borrow_mut() = Some(f));
        }
    }
}

pub fn recording() -> bool {
    OUT.with(|o| o.borrow().is_some())
}

pub fn step(st: &Step, tags: &[&str]) {
    OUT.with(|o| {
        if let Some(f) = o.borrow_mut().as_mut() {
            let _ = writeln!(f, "{}", serde_json::to_string(&(st, tags)).unwrap());
        }
    })
}

/// something goes on that is not a step of its own
pub fn tick() {
    OUT.with(|o| {
        if let Some(f) = o.borrow_mut().as_mut() {
            let _ = f.write_all(b"\n");
        }
    })
}

struct Record {
    cfg: Config,
    steps: Vec<Step>,
    tags: Vec<String>,
}

fn read_record(f: &str) -> Option<Record> {
    let s = std::fs::read_to_string(f).ok()?;
    let mut l = s.lines();
    let cfg: Config = serde_json::from_str(l.next()?).ok()?;
    let mut r = Record { cfg, steps: vec![], tags: vec![] };
    for x in l {
        if let Ok((st, tags)) = serde_json::from_str::<(Step, Vec<String>)>(x) {
            r.steps.push(st);
            r.tags = tags;
        }
    }
    Some(r)
}

// ---- one execution in a process of its own ---------------------------------------

pub struct Scratch(pub String);
impl Scratch {
    pub fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("dst-{}-{:x}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos() as u64).unwrap_or(0)));
        let _ = std::fs::create_dir_all(&d);
        Scratch(d.display().to_string())
    }
    pub fn file(&self, n: &str) -> String {
        format!("{}/{}", self.0, n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        for n in ["record", "runs", "try.json"] {
            let _ = std::fs::remove_file(self.file(n));
        }
        let _ = std::fs::remove_dir(&self.0);
    }
}

pub fn kind_of(st: &ExitStatus) -> Option<&'static str> {
    match (st.code(), st.signal()) {
        (Some(EXCESS), _) => Some("unbounded memory"),
        (Some(HANG), _) => Some("endless run"),
        (_, Some(9)) => None,
        (None, Some(_)) => Some("the process crashes"),
        _ => None,
    }
}

/// runs this program with the arguments; a lack of progress for so long counts as an endless run
pub fn child(args: &[&str], rec: &str, patience: Duration) -> Result<Option<&'static str>, i32> {
    let _ = std::fs::remove_file(rec);
    let quiet = || std::process::Stdio::null();
    let mut c = match Command::new(std::env::current_exe().unwrap()).args(args).env("DST_CHILD", "1").env("DST_LAST", rec).stdout(quiet()).stderr(quiet()).spawn() {
        Ok(c) => c,
        Err(_) => return Err(2),
    };
    let mut seen = (0u64, Instant::now());
    loop {
        if let Ok(Some(st)) = c.try_wait() {
            return match kind_of(&st) {
                Some(k) => Ok(Some(k)),
                None => match st.code() {
                    Some(x) if x <= 1 => Ok(None),
                    x => Err(x.unwrap_or(2)),
                },
            };
        }
        let n = std::fs::metadata(rec).map(|m| m.len()).unwrap_or(0);
        if n != seen.0 {
            seen = (n, Instant::now());
        } else if seen.1.elapsed() > patience {
            let _ = c.kill();
            let _ = c.wait();
            return Ok(Some("endless run"));
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

/// the history of a run that ends its process or does not end, reduced
pub fn examine(prop: &str, index: u64, seed: u64, patience: Duration) -> Option<Replay> {
    let sc = Scratch::new();
    let rec = sc.file("record");
    let kind = child(&["run", prop, &index.to_string()], &rec, patience).ok()??;
    let mut r = read_record(&rec)?;
    if r.cfg.cycles > 1 {
        r.tags = vec!["C07".into()];
    }
    for t in ["C15", "C16"] {
        if !r.tags.iter().any(|x| x == t) {
            r.tags.push(t.into());
        }
    }
    let file = sc.file("try.json");
    let mk = |cfg: &Config, steps: &[Step]| Replay {
        property: prop.into(),
        seed,
        profile: prop.into(),
        kind: kind.into(),
        tags: r.tags.clone(),
        detail: format!("{} at step {} of a run of its own", kind, steps.len().saturating_sub(1)),
        twin: None,
        config: cfg.clone(),
        steps: steps.to_vec(),
        by_seed: false,
    };
    let short = if kind == "endless run" { Duration::from_secs(3) } else { Duration::from_secs(20) };
    let rec2 = rec.clone();
    let mut test = |c: &Config, s: &[Step]| -> Option<(usize, Viol)> {
        std::fs::write(&file, serde_json::to_string(&mk(c, s)).unwrap()).ok()?;
        if child(&["replay", &file], &rec2, short).ok()?? != kind {
            return None;
        }
        // the last step taken is still the one
        let x = read_record(&rec2)?;
        if c.cycles <= 1 && x.tags.iter().any(|t| !r.tags.contains(t)) {
            return None;
        }
        let at = if c.cycles > 1 { s.len() } else { x.steps.len() };
        Some((at.saturating_sub(1), Viol::new(kind, &[], String::new())))
    };
    let first = test(&r.cfg, &r.steps);
    let rp = match first {
        Some(v) => {
            let (c, s, _, _) = Reducer::run(60, r.cfg.clone(), r.steps.clone(), v, &mut test);
            mk(&c, &s)
        }
        None => {
            // the steps alone do not show it: keep the seed
            let mut x = mk(&r.cfg, &[]);
            x.by_seed = true;
            x
        }
    };
    Some(rp)
}
