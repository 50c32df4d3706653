//! Execution of one simulated run, and the drivers that combine several runs.
use crate::gen::Gen;
use crate::ops::*;
use crate::world::{Stats, Viol, World};
use std::cell::Cell;
use std::collections::BTreeSet;

thread_local! {
    pub static HASH_SEED: Cell<u64> = const { Cell::new(1) };
}

pub enum Source<'a> {
    Gen(&'a mut Gen),
    Steps(&'a [Step]),
}

#[derive(Default)]
pub struct Outcome {
    pub steps: Vec<Step>,
    pub viol: Option<(usize, Viol)>,
    pub stats: Stats,
    pub results: Vec<(usize, (u64, u64))>,
    pub log: u64,
    pub trace: Vec<String>,
    pub model_hash: u64,
    pub pages: Vec<u64>,
}

pub struct Opts {
    pub trace: bool,
    /// extra live audits between the steps (they warm every cache)
    pub warm: bool,
    pub no_raw: bool,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts { trace: false, warm: false, no_raw: false }
    }
}

pub fn map_fds(op: &mut Op, f: &dyn Fn(FdRef) -> FdRef) {
    use Op::*;
    match op {
        Open { dir, .. } | CreateDirOpen { dir, .. } | Mkdir { dir, .. } | OpenMeta { dir, .. } | NodeMeta { dir, .. } | RemoveFile { dir, .. } | RemoveDir { dir, .. } | RemoveRec { dir, .. } => *dir = f(*dir),
        Close { fd } | Flush { fd } | Advice { fd } | Allocate { fd, .. } | Read { fd, .. } | ReadVec { fd, .. } | ReadAt { fd, .. } | Write { fd, .. } | WriteVec { fd, .. } | WriteAt { fd, .. } | Seek { fd, .. } | Tell { fd } | Meta { fd } | SetMeta { fd, .. } | SetSize { fd, .. } | SetLimit { fd, .. } | SetATime { fd, .. } | SetMTime { fd, .. } | GetStat { fd } | SetStat { fd, .. } | List { fd, .. } | GetEntry { fd, .. } | ScanStart { fd, .. } => *fd = f(*fd),
        Renumber { from, to } => {
            *from = f(*from);
            *to = f(*to);
        }
        Link { odir, ndir, .. } | Rename { odir, ndir, .. } => {
            *odir = f(*odir);
            *ndir = f(*ndir);
        }
        Trap { op, .. } | Refuse { op, .. } => map_fds(op, f),
        _ => {}
    }
}

fn no_raw(f: FdRef) -> FdRef {
    match f {
        FdRef::Raw(n) if n > 3 => FdRef::Slot(900 + (n % 50) as u16),
        x => x,
    }
}

/// must be called on a fresh thread: hash seeds are drawn once per thread
pub fn execute(cfg: &Config, mut src: Source, o: &Opts) -> Outcome {
    let mut out = Outcome::default();
    crate::guard::begin(cfg);
    let mut w = match World::new(cfg.clone()) {
        Ok(w) => w,
        Err(v) => {
            out.viol = Some((0, v));
            return out;
        }
    };
    if o.trace {
        w.trace = Some(vec![]);
    }
    let mut i = 0usize;
    loop {
        let st = match &mut src {
            Source::Gen(g) => match g.next(&mut w) {
                Some(mut s) => {
                    if o.no_raw {
                        map_fds(&mut s.op, &no_raw);
                    }
                    s
                }
                None => break,
            },
            Source::Steps(s) => match s.get(i) {
                Some(s) => s.clone(),
                None => break,
            },
        };
        if matches!(src, Source::Gen(_)) {
            out.steps.push(st.clone());
        }
        if let Some(t) = w.trace.as_mut() {
            t.push(format!("#{} fs{} c{} {:?}", i, st.fs, st.client, st.op));
        }
        let n0 = w.results.len();
        if crate::guard::recording() {
            let tags = w.op_tags((st.fs as usize).min(w.insts.len() - 1), &st.op);
            crate::guard::step(&st, &tags);
        }
        let r = w.step(&st);
        for k in n0..w.results.len() {
            out.results.push((i, w.results[k]));
        }
        if let Err(v) = r {
            out.viol = Some((i, v));
            break;
        }
        // an audit costs as much as there are objects
        let stride = (w.insts[0].model.inodes.len() / 8).max(3);
        if o.warm && i % stride == 1 {
            if let Err(v) = w.step(&Step { fs: st.fs, client: 0, op: Op::AuditLive }) {
                out.viol = Some((i, v));
                break;
            }
        }
        i += 1;
    }
    out.model_hash = w.insts.iter().fold(0, |h, x| h ^ x.model.abstract_hash());
    out.log = w.log;
    if let Some(t) = w.trace.take() {
        out.trace = t;
    }
    out.stats = std::mem::take(&mut w.stats);
    out.stats.add("memory accesses", w.ctl.accesses.get());
    if out.steps.is_empty() {
        if let Source::Steps(s) = src {
            out.steps = s.to_vec();
        }
    }
    // dropping the heap of a file system whose code trapped half-way may trap again
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(w)));
    out
}

pub fn on_thread<R: Send + 'static>(hash_seed: u64, f: impl FnOnce() -> R + Send + 'static) -> Result<R, String> {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            HASH_SEED.with(|h| h.set(hash_seed));
            crate::quiet();
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(r) => Ok(r),
                Err(_) => Err(crate::world::LAST_PANIC.with(|l| l.borrow().clone())),
            }
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| Err("thread died".into()))
}

pub fn replay_steps(cfg: &Config, steps: &[Step], o: Opts) -> Result<Outcome, String> {
    let cfg = cfg.clone();
    let steps = steps.to_vec();
    on_thread(cfg.hash_seed, move || {
        if cfg.cycles > 1 {
            cycles(&cfg, &steps)
        } else {
            execute(&cfg, Source::Steps(&steps), &o)
        }
    })
}

// ---- space reclamation: the same work and its clean-up again and again -----

/// bytes of the heap that the file system holds
fn measure(w: &World) -> (u64, i64) {
    (w.main.pages(), crate::alloc::tagged())
}

pub fn cleanup_steps(w: &World) -> Vec<Step> {
    let m = &w.insts[0].model;
    let mut v = vec![];
    let st = |op: Op| Step { fs: 0, client: 0, op };
    for fd in m.fds.keys() {
        if *fd != 3 {
            v.push(st(Op::Close { fd: FdRef::Raw(*fd) }));
        }
    }
    let paths = m.paths();
    for (i, n) in m.inodes.iter() {
        if n.mount.is_some() {
            v.push(st(Op::Unmount { path: paths[i].clone() }));
        }
    }
    for (k, en) in m.ino(crate::model::ROOT).entries.iter().enumerate() {
        if k % 2 == 0 || m.ino(en.ino).dir {
            v.push(st(Op::RemoveRec { dir: FdRef::Root, path: en.name.clone() }));
        } else {
            v.push(st(Op::RemoveFile { dir: FdRef::Root, path: en.name.clone() }));
        }
    }
    v
}

pub fn cycles(cfg: &Config, steps: &[Step]) -> Outcome {
    let mut out = Outcome::default();
    crate::guard::begin(cfg);
    let mut w = match World::new(cfg.clone()) {
        Ok(w) => w,
        Err(v) => {
            out.viol = Some((0, v));
            return out;
        }
    };
    for st in steps {
        crate::guard::step(st, &["C07"]);
    }
    let n = cfg.cycles as usize;
    let mut marks: Vec<(u64, i64)> = vec![];
    // every cycle starts with the same memories to mount, as far as they can be taken back
    let empty: Vec<_> = w.seps.iter().map(|s| s.as_ref().map(|m| m.snapshot())).collect();
    let mut owned: Vec<u64> = vec![];
    let mut total = n * 2;
    let transient = cfg.fss[0].transient;
    let mut c = 0usize;
    'outer: while c < total {
        let todo: Vec<Step> = steps.to_vec();
        let mut k = 0;
        for st in todo.iter() {
            crate::guard::tick();
            if let Err(v) = w.step(st) {
                out.viol = Some((k, v));
                break 'outer;
            }
            k += 1;
        }
        let clean = cleanup_steps(&w);
        for st in clean.iter() {
            crate::guard::tick();
            if let Err(v) = w.step(st) {
                out.viol = Some((k, v));
                break 'outer;
            }
        }
        let m = &w.insts[0].model;
        if m.ino(crate::model::ROOT).entries.len() > 0 {
            // some client still holds something
            out.stats.bump("cycle not clean");
        }
        w.results.clear();
        w.scans.clear();
        w.insts[0].slots.clear();
        for (i, e) in empty.iter().enumerate() {
            if let (Some(m), Some(e)) = (&w.seps[i], e) {
                m.restore(e);
                w.mems[i] = Default::default();
            }
        }
        owned.push((0..w.mems.len()).map(|i| w.mem_handle(i as u8).size()).sum());
        w.take_commit();
        marks.push(measure(&w));
        c += 1;
        if c == n * 2 {
            // grew between n and 2n: look longer
            let g = growth(&marks, n, 2 * n, transient);
            if g > 0 {
                total = n * 4;
                out.stats.bump("probe:cycles extended");
            }
        }
    }
    if out.viol.is_none() && total == n * 4 {
        let g1 = growth(&marks, n, 2 * n, transient);
        let g2 = growth(&marks, 2 * n, 3 * n, transient);
        let g3 = growth(&marks, 3 * n, 4 * n, transient);
        if owned[n - 1] < owned[4 * n - 1] {
            // not the same work: a memory of another owner has grown from cycle to cycle
            out.stats.bump("probe:cycles with a growing memory");
        } else if g1 > 0 && g2 > 0 && g3 > 0 && g1 + g2 + g3 >= 3 {
            let d = if transient {
                format!("heap bytes held after cycles {},{},{},{}: {:?}", n, 2 * n, 3 * n, 4 * n, [n, 2 * n, 3 * n, 4 * n].map(|x| marks[x - 1].1))
            } else {
                format!("memory pages after cycles {},{},{},{}: {:?}", n, 2 * n, 3 * n, 4 * n, [n, 2 * n, 3 * n, 4 * n].map(|x| marks[x - 1].0))
            };
            out.viol = Some((steps.len().saturating_sub(1), Viol::new("memory keeps growing", &["C07"], format!("the same work and its complete removal repeated: {}", d))));
        }
    }
    out.pages = marks.iter().map(|m| m.0).collect();
    out.model_hash = w.insts[0].model.abstract_hash();
    out.log = w.log;
    out.steps = steps.to_vec();
    out.stats.add("cycles", c as u64);
    let s = std::mem::take(&mut w.stats);
    out.stats.merge(&s);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(w)));
    out
}

/// whole units by which the footprint grew
fn growth(m: &[(u64, i64)], a: usize, b: usize, transient: bool) -> i64 {
    if transient {
        // one small object per cycle is enough to be noticed
        let d = m[b - 1].1 - m[a - 1].1;
        let per = (b - a) as i64;
        if d >= per * 12 {
            1 + d / (per * 48)
        } else {
            0
        }
    } else {
        m[b - 1].0 as i64 - m[a - 1].0 as i64
    }
}

// ---- the same history under another configuration --------------------------

pub fn twin_of(cfg: &Config) -> Config {
    let mut t = cfg.clone();
    let h = crate::prng::mix(cfg.hash_seed ^ 0x7117);
    t.hash_seed = h;
    t.bucket = [1, 4, 16, 128][(h >> 8) as usize % 4];
    for f in t.fss.iter_mut() {
        let all = [4096u32, 8192, 16384, 32768, 65536];
        f.chunk_size = Some(all[(h >> 16) as usize % 5]);
        f.v1 = !f.v1;
        if !f.own_manager && t.mems.iter().all(|m| *m == MemSpec::Separate) && t.cotenants.is_empty() {
            f.start = ((h >> 24) % 240) as u8;
            f.range_len = 10;
        }
    }
    t.audit_failures = false;
    t
}

/// The other configuration of a history: without a restart in it, it may also be kept on the heap.
pub fn twin_for(cfg: &Config, steps: &[Step]) -> Config {
    let mut t = twin_of(cfg);
    let n = steps.len().saturating_sub(2);
    let plain = cfg.base == Base::Fresh && cfg.fss.len() == 1 && !cfg.fss[0].transient && !cfg.fss[0].own_manager && cfg.cotenants.is_empty() && cfg.mems.iter().all(|m| *m == MemSpec::Separate);
    if plain && (t.hash_seed >> 40) % 2 == 0 && !steps[..n].iter().any(|s| matches!(s.op, Op::Restart { .. } | Op::Trap { .. } | Op::Refuse { .. } | Op::BadRange { .. })) {
        t.fss[0].transient = true;
    }
    t
}

pub fn twin(t: &Config, steps: &[Step], a: &[(usize, (u64, u64))]) -> Result<Option<(usize, Viol)>, String> {
    let b = replay_steps(t, steps, Opts { warm: true, ..Opts::default() })?;
    if let Some((i, mut v)) = b.viol {
        v.tags.insert("C14");
        v.kind = format!("only in another configuration: {}", v.kind);
        return Ok(Some((i, v)));
    }
    for (x, y) in a.iter().zip(b.results.iter()) {
        let differs = if t.fss[0].transient { x.1 .1 != y.1 .1 } else { x.1 .0 != y.1 .0 };
        if differs || x.0 != y.0 {
            if std::env::var("DST_TRACE").is_ok() {
                println!("{:?} {:?}", x, y);
            }
            let i = x.0.min(y.0);
            return Ok(Some((i, Viol::new("result depends on the configuration", &["C14"], format!("step {} has another result under the other configuration", i)))));
        }
    }
    if a.len() != b.results.len() {
        let i = steps.len().saturating_sub(1);
        return Ok(Some((i, Viol::new("result depends on the configuration", &["C14"], "another number of results under the other configuration".into()))));
    }
    Ok(None)
}

// ---- attribution by counterfactual re-execution ----------------------------

fn strip(op: &Op) -> Op {
    match op {
        Op::Trap { op, .. } | Op::Refuse { op, .. } => (**op).clone(),
        o => o.clone(),
    }
}

/// does the violation go away when the one thing that the property is about is taken out of the history?
pub fn counterfactual(prop: &str, cfg: &Config, steps: &[Step], v: &Viol) -> Result<bool, String> {
    let clean = |o: Outcome| o.viol.is_none();
    match prop {
        "C02" => {
            let s: Vec<Step> = steps.iter().filter(|s| !matches!(s.op, Op::Restart { .. } | Op::AuditShadow)).cloned().collect();
            if s.len() == steps.len() && !cfg.shadow_every {
                return Ok(false);
            }
            let mut c = cfg.clone();
            c.shadow_every = false;
            Ok(clean(replay_steps(&c, &s, Opts::default())?))
        }
        "C05" => {
            let s: Vec<Step> = steps.iter().filter(|s| !matches!(s.op, Op::MemCap { .. })).map(|s| Step { op: strip(&s.op), ..s.clone() }).collect();
            if s == steps {
                return Ok(false);
            }
            Ok(clean(replay_steps(cfg, &s, Opts::default())?))
        }
        "C04" => {
            // without the calls that failed, audits of failures off
            let mut c = cfg.clone();
            c.audit_failures = false;
            let failed = failed_steps(&c, steps)?;
            let s: Vec<Step> = steps.iter().enumerate().filter(|(i, _)| !failed.contains(i)).map(|x| x.1.clone()).collect();
            if s.len() == steps.len() {
                return Ok(false);
            }
            Ok(clean(replay_steps(&c, &s, Opts::default())?))
        }
        "C12" => {
            if cfg.fss.len() < 2 && cfg.cotenants.is_empty() {
                return Ok(false);
            }
            for k in 0..cfg.fss.len() {
                let mut c = cfg.clone();
                c.fss = vec![cfg.fss[k].clone()];
                c.cotenants = vec![];
                let s: Vec<Step> = steps
                    .iter()
                    .filter(|s| s.fs as usize == k || matches!(s.op, Op::Restart { .. } | Op::AuditLive | Op::AuditShadow))
                    .filter(|s| !matches!(strip(&s.op), Op::CoGrow { .. } | Op::CoWrite { .. } | Op::CoCheck))
                    .map(|s| Step { fs: 0, ..s.clone() })
                    .collect();
                if !clean(replay_steps(&c, &s, Opts::default())?) {
                    return Ok(false);
                }
            }
            Ok(true)
        }
        "C13" => {
            let mut c = cfg.clone();
            match &mut c.base {
                Base::Fresh => return Ok(false),
                Base::Legacy { modern, .. } | Base::Golden { modern, .. } => *modern = true,
            }
            Ok(clean(replay_steps(&c, steps, Opts::default())?))
        }
        "C14" => {
            let _ = v;
            let t = twin_of(cfg);
            Ok(clean(replay_steps(&t, steps, Opts::default())?))
        }
        _ => Ok(false),
    }
}

/// the steps that only the given property is about
fn feature(prop: &str, op: &Op) -> bool {
    use Op::*;
    let op = match op {
        Trap { op, .. } | Refuse { op, .. } => op.as_ref(),
        o => o,
    };
    match prop {
        "C06" => matches!(op, Rename { .. } | Link { .. }),
        "C07" => matches!(op, RemoveFile { .. } | RemoveDir { .. } | RemoveRec { .. } | SetSize { .. } | SetMeta { size: Some(_), .. } | Rename { .. }),
        "C08" => matches!(op, Renumber { .. } | SetStat { .. } | Seek { .. } | Close { .. }),
        "C09" => matches!(op, Mount { .. } | Unmount { .. } | Init { .. } | Store { .. }),
        "C10" => matches!(op, SetMeta { .. } | SetSize { .. } | SetLimit { .. } | SetATime { .. } | SetMTime { .. }),
        "C11" => matches!(op, ScanStart { .. } | ScanStep { .. } | GetEntry { .. } | List { from: Some(_), .. }),
        "C14" => matches!(op, SetChunkType { .. } | SetChunkSize { .. } | Thrash { .. }),
        _ => false,
    }
}

/// In a minimal history every step matters: does it hold a call that the property is about, and is all well
/// without those calls?
pub fn needs_feature(prop: &str, cfg: &Config, steps: &[Step], v: &Viol) -> Result<bool, String> {
    if !steps.iter().any(|s| feature(prop, &s.op)) {
        return Ok(false);
    }
    // sharing space and counting it wrongly show in contents and in traps, not in names or times
    if prop == "C07" && !["C01", "C09", "C15"].iter().any(|t| v.tags.contains(t)) {
        return Ok(false);
    }
    let s: Vec<Step> = steps.iter().filter(|s| !feature(prop, &s.op)).cloned().collect();
    Ok(replay_steps(cfg, &s, Opts::default())?.viol.is_none())
}

/// indices of the steps whose call was refused
fn failed_steps(cfg: &Config, steps: &[Step]) -> Result<BTreeSet<usize>, String> {
    let cfg = cfg.clone();
    let steps = steps.to_vec();
    on_thread(cfg.hash_seed, move || {
        let mut r = BTreeSet::new();
        if let Ok(mut w) = World::new(cfg.clone()) {
            for (i, st) in steps.iter().enumerate() {
                if w.step(st).is_err() {
                    break;
                }
                if w.last_failed {
                    r.insert(i);
                }
            }
        }
        r
    })
}
