//! One simulated world: the real file system(s) over simulated memory, the models, and step execution.
use crate::audit::{audit, Disc, View};
use crate::disk::{stack_pointer, Ctl, InjectedTrap, Runaway, SimMemory, Snapshot, StackUsed, WASM};
use crate::model::*;
use crate::ops::*;
use crate::prng::{fill, mix};
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager};
use ic_stable_structures::Memory;
use stable_fs::error::Error;
use stable_fs::fs::{ChunkSize, ChunkType, DstBuf, Fd, FdFlags, FdStat, FileSystem, OpenFlags, SrcBuf, Whence};
use stable_fs::storage::stable::StableStorage;
use stable_fs::storage::transient::TransientStorage;
use stable_fs::storage::types::{FileType, Metadata, MountedFileSizePolicy};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub tags: BTreeSet<&'static str>,
    pub detail: String,
}

impl Viol {
    pub fn new(kind: &str, tags: &[&'static str], detail: String) -> Viol {
        Viol { kind: kind.to_string(), tags: tags.iter().copied().collect(), detail }
    }
    pub fn from_discs(ctx: &str, d: &[Disc], extra: &[&'static str]) -> Viol {
        let mut tags: BTreeSet<&'static str> = extra.iter().copied().collect();
        let mut det = vec![];
        for x in d.iter() {
            tags.extend(x.tags.iter().copied());
        }
        for x in d.iter().take(6) {
            det.push(format!("{}: {}", x.kind, x.detail));
        }
        if d.len() > 6 {
            det.push(format!("... {} more", d.len() - 6));
        }
        Viol { kind: format!("{}:{}", ctx, d[0].kind), tags, detail: det.join("; ") }
    }
}

pub enum Stop {
    Viol(Viol),
    Fault(Fault),
}

impl From<Viol> for Stop {
    fn from(v: Viol) -> Stop {
        Stop::Viol(v)
    }
}

#[derive(Debug, Clone)]
pub enum Fault {
    Trap,
    Refused,
    #[allow(dead_code)]
    Panic(String),
    Runaway,
    Stack,
    /// the call returned, but did far more than it was asked for
    #[allow(dead_code)]
    Work(String),
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

#[derive(Clone)]
pub struct Scan {
    pub fs: usize,
    pub ino: Ino,
    pub next: u32,
    /// where the scan stands among "." and "..": not begun, the index seen last, done
    pub dots: Dots,
    pub seen: BTreeSet<u64>,
    pub start: BTreeSet<u64>,
}

use stable_fs::storage::types::{DUMMY_DOT_DOT_ENTRY_INDEX as DOT2, DUMMY_DOT_ENTRY_INDEX as DOT};

#[derive(Clone, Copy, PartialEq)]
pub enum Dots {
    Begin,
    At(u32),
    Done,
}

#[derive(Clone, Default)]
pub struct CoModel {
    pub pages: u64,
    pub bytes: crate::disk::Sparse,
}

pub struct Inst {
    pub fs: Option<FileSystem>,
    pub model: Model,
    pub slots: BTreeMap<u16, u32>,
    pub v1: bool,
}

#[derive(Clone)]
struct Commit {
    main: Snapshot,
    seps: Vec<Option<Snapshot>>,
    models: Vec<Model>,
    mems: Vec<MemModel>,
    cot: BTreeMap<u8, CoModel>,
    scans: BTreeMap<u16, Scan>,
    slots: Vec<BTreeMap<u16, u32>>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub transitions: BTreeSet<u64>,
    pub sim_ns: u64,
}

impl Stats {
    pub fn bump(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.counters {
            self.add(k, *v);
        }
        self.states.extend(o.states.iter().copied());
        self.transitions.extend(o.transitions.iter().copied());
        self.sim_ns += o.sim_ns;
    }
}

pub struct World {
    pub cfg: Config,
    pub ctl: Rc<Ctl>,
    pub main: SimMemory,
    pub seps: Vec<Option<SimMemory>>,
    pub mm: Option<MemoryManager<SimMemory>>,
    pub insts: Vec<Inst>,
    pub mems: Vec<MemModel>,
    pub cot: BTreeMap<u8, CoModel>,
    /// the caches were filled once already
    pub caches_filled: bool,
    pub scans: BTreeMap<u16, Scan>,
    commit: Option<Commit>,
    pub capped: bool,
    pub stats: Stats,
    pub log: u64,
    /// results only, independent of configuration (twin runs)
    /// strictly, and without the choice among several errors that would all be right
    pub results: Vec<(u64, u64)>,
    pub nsteps: u64,
    pub last_failed: bool,
    pub max_time: u64,
    pub trace: Option<Vec<String>>,
    pub last_out: String,
    depth: u32,
    /// the call being made and the amount of data it is about, in pages of 4 KiB
    request: u64,
    /// it is about one object only
    local: bool,
    /// the size of the file system before it
    before: u64,
}

type OpRes = Result<(), Stop>;

pub fn err_name(x: &Error) -> String {
    format!("{:?}", x)
}

pub fn stat_of(fflags: u16, rights: u8) -> FdStat {
    let d = FdStat::default();
    let mut base = d.rights_base & !((1 << 1) | (1 << 6));
    if rights & R_READ != 0 {
        base |= 1 << 1;
    }
    if rights & R_WRITE != 0 {
        base |= 1 << 6;
    }
    FdStat { flags: FdFlags::from_bits_truncate(fflags), rights_base: base, rights_inheriting: d.rights_inheriting }
}

pub fn chunk_size_of(s: u32) -> ChunkSize {
    match s {
        4096 => ChunkSize::CHUNK4K,
        8192 => ChunkSize::CHUNK8K,
        16384 => ChunkSize::CHUNK16K,
        32768 => ChunkSize::CHUNK32K,
        _ => ChunkSize::CHUNK64K,
    }
}

pub fn policy_of(p: u8, arg: u64) -> MountedFileSizePolicy {
    match p {
        0 => MountedFileSizePolicy::PreviousOrZero,
        1 => MountedFileSizePolicy::PreviousOrMemoryPages,
        2 => MountedFileSizePolicy::Explicit(arg),
        _ => MountedFileSizePolicy::MemoryPages,
    }
}

pub fn guarded<R>(ctl: &Ctl, f: impl FnOnce() -> R) -> Result<R, Fault> {
    let refused = ctl.refused.get();
    ctl.budget.set(Some(40_000_000));
    ctl.base.set(stack_pointer());
    crate::alloc::mark();
    let was = crate::alloc::inside(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::alloc::inside(was);
    ctl.budget.set(None);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<InjectedTrap>() {
                Err(Fault::Trap)
            } else if p.is::<Runaway>() {
                Err(Fault::Runaway)
            } else if p.is::<StackUsed>() {
                Err(Fault::Stack)
            } else if ctl.refused.get() > refused {
                Err(Fault::Refused)
            } else {
                let msg = LAST_PANIC.with(|l| l.borrow().clone());
                if msg.starts_with("src/") && !msg.starts_with("src/disk.rs") {
                    // a panic of the harness itself
                    std::panic::resume_unwind(p);
                }
                Err(Fault::Panic(msg))
            }
        }
    }
}

pub fn open_storage(c: &FsConfig, main: &SimMemory, mm: Option<&MemoryManager<SimMemory>>, v1: bool, first: bool) -> FileSystem {
    if c.transient {
        return FileSystem::new(Box::new(TransientStorage::new())).expect("open transient");
    }
    let mut fs = if c.own_manager {
        FileSystem::new(Box::new(StableStorage::new(main.clone()))).expect("open")
    } else {
        let st = StableStorage::new_with_memory_manager(mm.unwrap(), c.start..c.start + c.range_len);
        FileSystem::new(Box::new(st)).expect("open")
    };
    if first {
        if let Some(s) = c.chunk_size {
            fs.storage.set_chunk_size(chunk_size_of(s)).expect("set_chunk_size on a new file system");
        }
    }
    fs.storage.set_chunk_type(if v1 { ChunkType::V1 } else { ChunkType::V2 });
    fs
}

impl World {
    pub fn new(cfg: Config) -> Result<World, Viol> {
        let ctl = Rc::new(Ctl::default());
        let main = SimMemory::new(ctl.clone());
        let mut seps = vec![];
        for m in &cfg.mems {
            seps.push(match m {
                MemSpec::Separate => Some(SimMemory::new(ctl.clone())),
                MemSpec::Managed(_) => None,
            });
        }
        let mut w = World {
            ctl,
            main,
            seps,
            mm: None,
            insts: vec![],
            mems: vec![MemModel::default(); cfg.mems.len()],
            cot: cfg.cotenants.iter().map(|c| (*c, CoModel::default())).collect(),
            scans: BTreeMap::new(),
            caches_filled: false,
            commit: None,
            capped: false,
            stats: Stats::default(),
            log: 0,
            results: vec![],
            nsteps: 0,
            last_failed: false,
            max_time: 0,
            trace: None,
            last_out: String::new(),
            depth: 0,
            request: 0,
            local: false,
            before: 0,
            cfg,
        };
        w.boot()?;
        Ok(w)
    }

    fn boot(&mut self) -> Result<(), Viol> {
        // lay out the manager with the configured bucket size
        let mm = MemoryManager::init_with_bucket_size(self.main.clone(), self.cfg.bucket);
        let base = self.cfg.base.clone();
        let mut model0: Option<Model> = None;
        let start = self.cfg.fss[0].start;
        match &base {
            Base::Fresh => {}
            Base::Legacy { seed, modern } => {
                let m = crate::legacy::build(*seed, &mm, start, !*modern, self.cfg.bucket);
                if !*modern {
                    let chunks = mm.get(MemoryId::new(start + 7)).size();
                    if chunks >= 32_000 {
                        self.stats.bump("probe:image with chunk addresses of 2 GiB and more");
                    }
                    if m.inodes.values().any(|n| n.node > Some(255)) {
                        self.stats.bump("probe:image with large node numbers");
                    }
                    if m.inodes.values().any(|n| n.entries.iter().any(|e| e.idx > Some(255))) {
                        self.stats.bump("probe:image with large entry indices");
                    }
                    let mut free = [0u8; 8];
                    mm.get(MemoryId::new(start + 6)).read(16, &mut free);
                    if u64::from_le_bytes(free) > 8000 {
                        self.stats.bump("probe:image with a long list of free chunks");
                    }
                }
                model0 = Some(m);
            }
            Base::Golden { name, modern } => {
                let (m, img) = crate::legacy::golden(name);
                if !*modern {
                    drop(mm);
                    self.main.import(img.0, &img.1);
                    self.cfg.bucket = 1;
                    return self.boot2(MemoryManager::init(self.main.clone()), Some(m), true, false);
                }
                model0 = Some(m);
            }
        }
        let modern = matches!(base, Base::Legacy { modern: true, .. } | Base::Golden { modern: true, .. });
        let seeded = model0.is_some() && !modern;
        self.boot2(mm, model0, seeded, modern)
    }

    fn boot2(&mut self, mm: MemoryManager<SimMemory>, model0: Option<Model>, image: bool, modern: bool) -> Result<(), Viol> {
        // co-tenants write their pattern before the file system exists
        for (id, c) in self.cot.iter_mut() {
            let m = mm.get(MemoryId::new(*id));
            if m.grow(1) < 0 {
                panic!("harness: co-tenant memory");
            }
            let pat = fill(1000 + *id as u64, 3000);
            m.write(77, &pat);
            c.pages = 1;
            c.bytes.write(77, &pat);
        }
        if self.cfg.fss.iter().any(|c| c.own_manager) {
            drop(mm);
        } else {
            self.mm = Some(mm);
        }
        let ctl = self.ctl.clone();
        for k in 0..self.cfg.fss.len() {
            let c = self.cfg.fss[k].clone();
            let image = image && k == 0;
            let r = guarded(&ctl, || {
                let fs = open_storage(&c, &self.main, self.mm.as_ref(), c.v1, !image);
                let root = fs.root_fd();
                let cs = fs.storage.chunk_size() as u32;
                (fs, root, cs)
            });
            let (fs, root, cs) = match r {
                Ok(x) => x,
                Err(f) => return Err(Viol::new("open failed", if image { &["C13"] } else { &["C15", "C02", "C14"] }, format!("opening the file system failed: {:?}", f))),
            };
            let want = if c.transient { 4096 } else { c.chunk_size.unwrap_or(16384) };
            let mut model = Model::new(c.transient, if c.transient { 4096 } else { want });
            if k == 0 && image {
                model = model0.clone().unwrap();
            } else if cs != want {
                return Err(Viol::new("chunk size", &["C14"], format!("chunk size {} instead of {}", cs, want)));
            }
            model.install_root(root);
            self.insts.push(Inst { fs: Some(fs), model, slots: BTreeMap::new(), v1: c.v1 });
        }
        if modern {
            let target = model0.unwrap();
            crate::legacy::build_modern(&mut self.insts[0], &target, &ctl)?;
        }
        self.take_commit();
        Ok(())
    }

    pub fn stable(&self) -> bool {
        !self.cfg.fss[0].transient
    }

    pub fn take_commit(&mut self) {
        self.commit = Some(Commit {
            main: self.main.snapshot(),
            seps: self.seps.iter().map(|s| s.as_ref().map(|m| m.snapshot())).collect(),
            models: self.insts.iter().map(|i| i.model.clone()).collect(),
            mems: self.mems.clone(),
            cot: self.cot.clone(),
            scans: self.scans.clone(),
            slots: self.insts.iter().map(|i| i.slots.clone()).collect(),
        });
    }

    pub fn mem_handle(&self, i: u8) -> Box<dyn Memory> {
        match &self.cfg.mems[i as usize] {
            MemSpec::Managed(id) => Box::new(self.mm.as_ref().expect("manager").get(MemoryId::new(*id))),
            MemSpec::Separate => Box::new(self.seps[i as usize].as_ref().unwrap().clone()),
        }
    }

    fn close_heap(&mut self) {
        for i in self.insts.iter_mut() {
            i.fs = None;
        }
        self.mm = None;
    }

    fn open_heap(&mut self) -> Result<(), Fault> {
        let ctl = self.ctl.clone();
        let own = self.cfg.fss.iter().any(|c| c.own_manager);
        guarded(&ctl, || {
            if !own {
                self.mm = Some(MemoryManager::init(self.main.clone()));
            }
            for k in 0..self.insts.len() {
                let v1 = self.insts[k].v1;
                let fs = open_storage(&self.cfg.fss[k], &self.main, self.mm.as_ref(), v1, false);
                self.insts[k].fs = Some(fs);
            }
        })?;
        for k in 0..self.insts.len() {
            let root = self.insts[k].fs.as_ref().unwrap().root_fd();
            self.insts[k].model.restart();
            self.insts[k].model.install_root(root);
        }
        Ok(())
    }

    /// memory is available again everywhere
    fn lift_caps(&mut self) {
        for s in self.seps.iter().flatten() {
            s.set_capacity(crate::disk::NO_LIMIT);
        }
        self.main.set_capacity(crate::disk::NO_LIMIT);
        self.capped = false;
    }

    fn restart(&mut self) -> OpRes {
        self.lift_caps();
        // the live state, before; this does not disturb anything that survives
        self.audit_live("before restart", &[])?;
        self.close_heap();
        if let Err(f) = self.open_heap() {
            if matches!(f, Fault::Trap | Fault::Refused) {
                return Err(Stop::Fault(f));
            }
            return Err(Viol::new("reopen failed", &["C02", "C15"], format!("{:?}", f)).into());
        }
        for k in 0..self.insts.len() {
            let want = self.insts[k].model.chunk_size;
            let have = self.insts[k].fs.as_ref().unwrap().storage.chunk_size() as u32;
            if want != have {
                return Err(Viol::new("chunk size lost", &["C02", "C14"], format!("chunk size {} after a restart, {} before", have, want)).into());
            }
        }
        self.stats.bump("fault:restart");
        self.audit_live("after restart", &["C02"])?;
        self.take_commit();
        Ok(())
    }

    /// platform rollback of an aborted message; with `heap`, descriptors and mounts are re-established
    fn rollback(&mut self, heap: bool) -> OpRes {
        let c = self.commit.clone().expect("commit");
        self.lift_caps();
        self.close_heap();
        self.ctl.countdown.set(None);
        self.main.restore(&c.main);
        for (s, b) in self.seps.iter().zip(c.seps.iter()) {
            if let (Some(s), Some(b)) = (s, b) {
                s.restore(b);
            }
        }
        for (i, m) in self.insts.iter_mut().zip(c.models.iter()) {
            i.model = m.clone();
        }
        for (i, m) in self.insts.iter_mut().zip(c.slots.iter()) {
            i.slots = m.clone();
        }
        self.mems = c.mems.clone();
        self.cot = c.cot.clone();
        self.scans = c.scans.clone();
        let old: Vec<Model> = c.models.clone();
        if let Err(f) = self.open_heap() {
            return Err(Viol::new("reopen after rollback failed", &["C05", "C02"], format!("{:?}", f)).into());
        }
        self.stats.bump("fault:rollback");
        self.audit_live("after rollback", &["C05"])?;
        if heap {
            for k in 0..self.insts.len() {
                self.restore_heap(k, &old[k])?;
            }
        }
        self.take_commit();
        Ok(())
    }

    fn restore_heap(&mut self, k: usize, old: &Model) -> OpRes {
        let paths = old.paths();
        for (ino, n) in old.inodes.iter() {
            if let Some(m) = n.mount {
                let size = n.mmeta.as_ref().unwrap().size;
                self.op(k, 0, &Op::Mount { path: paths[ino].clone(), mem: m, policy: 2, arg: size })?;
            }
        }
        let mut map: BTreeMap<u32, u32> = BTreeMap::new();
        for (fd, f) in old.fds.iter() {
            if *fd == 3 {
                continue;
            }
            let path = &paths[&f.ino];
            let st = stat_of(f.flags, f.rights);
            let cur = f.cursor;
            let is_dir = f.dir;
            let r = self.call(k, |fs| {
                let root = fs.root_fd();
                let nfd = fs.open(root, path, st, OpenFlags::empty(), 0)?;
                if !is_dir {
                    fs.seek(nfd, if cur <= i64::MAX as u64 { cur as i64 } else { 0 }, Whence::SET)?;
                }
                Ok::<u32, Error>(nfd)
            })?;
            match r {
                Ok(nfd) => {
                    let mut nf = f.clone();
                    if nf.cursor > i64::MAX as u64 {
                        nf.cursor = 0;
                    }
                    self.insts[k].model.install_fd(nfd, nf);
                    map.insert(*fd, nfd);
                }
                Err(x) => {
                    return Err(Viol::new("reopen of a file after rollback failed", &["C05", "C02"], format!("{} -> {:?}", path, x)).into());
                }
            }
        }
        let slots: Vec<(u16, u32)> = self.insts[k].slots.iter().map(|(a, b)| (*a, *b)).collect();
        for (s, fd) in slots {
            match map.get(&fd) {
                Some(n) => {
                    self.insts[k].slots.insert(s, *n);
                }
                None => {
                    self.insts[k].slots.remove(&s);
                }
            }
        }
        Ok(())
    }

    fn call<R>(&mut self, k: usize, f: impl FnOnce(&mut FileSystem) -> R) -> Result<R, Stop> {
        let ctl = self.ctl.clone();
        let fs = self.insts[k].fs.as_mut().expect("file system");
        let (a0, t0) = (ctl.accesses.get(), crate::alloc::taken());
        let r = guarded(&ctl, || f(fs)).map_err(Stop::Fault);
        let (a, t) = (ctl.accesses.get() - a0, crate::alloc::taken() - t0);
        // ten times what any call needs today
        let u = self.request + if self.local { 0 } else { self.insts[k].model.units().max(self.before) };
        if r.is_ok() && (a > (u + 20) * 5_000 || t > (u + 20) * 700_000) {
            return Err(Stop::Fault(Fault::Work(format!("{} memory accesses, {} bytes allocated for {} pages and objects", a, t, u))));
        }
        r
    }

    // ---- audits ------------------------------------------------------

    pub fn audit_live(&mut self, ctx: &str, extra: &[&'static str]) -> OpRes {
        self.lift_caps();
        let saved = self.ctl.countdown.take();
        let mut all = vec![];
        for i in 0..self.mems.len() {
            self.mems[i].pages = self.mem_handle(i as u8).size();
        }
        for k in 0..self.insts.len() {
            let r = {
                let ctl = self.ctl.clone();
                let deep = self.cfg.audit_deep;
                let inst = &mut self.insts[k];
                let fs = inst.fs.as_mut().unwrap();
                let model = &mut inst.model;
                let mems = &self.mems;
                guarded(&ctl, || audit(fs, model, mems, View::Live, deep))
            };
            match r {
                Ok(d) => all.extend(d),
                Err(Fault::Refused) => return Err(Stop::Fault(Fault::Refused)),
                Err(f) => {
                    let mut t = vec!["C15", "C03", "C01"];
                    t.extend_from_slice(extra);
                    return Err(Viol::new(&format!("{}: audit trapped", ctx), &t, format!("{:?}", f)).into());
                }
            }
        }
        self.check_mems(&mut all);
        self.check_cot(&mut all);
        self.ctl.countdown.set(saved);
        self.stats.bump("audit:live");
        if !all.is_empty() {
            return Err(Viol::from_discs(ctx, &all, extra).into());
        }
        Ok(())
    }

    /// open a second file system on a copy of the memory; the live one is not touched
    pub fn audit_shadow(&mut self, ctx: &str, extra: &[&'static str]) -> OpRes {
        if !self.stable() {
            return Ok(());
        }
        let ctl = Rc::new(Ctl::default());
        let snap = self.main.snapshot();
        let copy = SimMemory::from_snapshot(&snap, ctl.clone());
        let own = self.cfg.fss.iter().any(|c| c.own_manager);
        let mut all = vec![];
        for k in 0..self.insts.len() {
            let c = self.cfg.fss[k].clone();
            let deep = self.cfg.audit_deep;
            let mems = &self.mems;
            let inst = &mut self.insts[k];
            let model = &mut inst.model;
            let r = guarded(&ctl, || {
                let mm = if own { None } else { Some(MemoryManager::init(copy.clone())) };
                let mut fs = open_storage(&c, &copy, mm.as_ref(), inst.v1, false);
                let mut d = audit(&mut fs, model, mems, View::Fresh, deep);
                let cs = fs.storage.chunk_size() as u32;
                if cs != model.chunk_size {
                    d.push(Disc::new("chunk size", &["C14"], format!("{} after reopening, {} before", cs, model.chunk_size)));
                }
                d
            });
            match r {
                Ok(d) => all.extend(d),
                Err(f) => {
                    return Err(Viol::new(&format!("{}: reopening on a copy trapped", ctx), &["C02", "C15"], format!("{:?}", f)).into());
                }
            }
        }
        self.stats.bump("audit:shadow");
        if !all.is_empty() {
            // is the live system right?
            let live = self.audit_live(ctx, extra);
            let mut v = Viol::from_discs(ctx, &all, extra);
            match live {
                Ok(()) => {
                    v.tags.insert("C02");
                    v.kind = format!("restart-only {}", v.kind);
                }
                Err(Stop::Viol(l)) => v.tags.extend(l.tags),
                Err(x) => return Err(x),
            }
            return Err(v.into());
        }
        Ok(())
    }

    fn check_mems(&self, out: &mut Vec<Disc>) {
        if self.cfg.mems.is_empty() {
            return;
        }
        for i in 0..self.cfg.mems.len() {
            if let Some(d) = self.check_mem(i as u8) {
                out.push(d);
            }
        }
    }

    fn check_mem(&self, i: u8) -> Option<Disc> {
        let h = self.mem_handle(i);
        let size = h.size() * WASM;
        let m = &self.mems[i as usize].bytes;
        let mut buf = vec![0u8; 4096];
        let total = size / 4096;
        let known: BTreeSet<u64> = m.page_numbers().into_iter().collect();
        let mut pages: BTreeSet<u64> = known.iter().copied().filter(|p| *p < total).collect();
        for p in known.iter() {
            if *p + 1 < total {
                pages.insert(p + 1);
            }
        }
        if total > 0 {
            pages.insert(0);
            pages.insert(total - 1);
        }
        for p in known {
            if p >= total {
                let want = m.get(p * 4096, 4096);
                if want.iter().any(|b| *b != 0) {
                    return Some(Disc::new("mounted memory too small", &["C09"], format!("memory {} has {} bytes, bytes at {} were written", i, size, p * 4096)));
                }
            }
        }
        for p in pages {
            h.read(p * 4096, &mut buf);
            let want = m.get(p * 4096, 4096);
            if buf != want {
                let o = buf.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap();
                return Some(Disc::new("mounted memory content", &["C09"], format!("memory {} at {}: {:#x} instead of {:#x}", i, p * 4096 + o as u64, buf[o], want[o])));
            }
        }
        None
    }

    fn check_cot(&self, out: &mut Vec<Disc>) {
        if self.cot.is_empty() {
            return;
        }
        let copy;
        let mm = match &self.mm {
            Some(m) => m,
            None => {
                let s = SimMemory::from_snapshot(&self.main.snapshot(), Rc::new(Ctl::default()));
                copy = MemoryManager::init(s);
                &copy
            }
        };
        for (id, c) in self.cot.iter() {
            let m = mm.get(MemoryId::new(*id));
            if m.size() != c.pages {
                out.push(Disc::new("co-tenant size", &["C12"], format!("memory id {} has {} pages, its owner made it {}", id, m.size(), c.pages)));
                continue;
            }
            let mut buf = vec![0u8; 4096];
            for p in 0..c.pages * 16 {
                m.read(p * 4096, &mut buf);
                let want = c.bytes.get(p * 4096, 4096);
                if buf != want {
                    let o = buf.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap();
                    out.push(Disc::new("co-tenant content", &["C12"], format!("memory id {} changed at {}: {:#x} instead of {:#x}", id, p * 4096 + o as u64, buf[o], want[o])));
                    break;
                }
            }
        }
        // every index of this manager that nobody was given stays empty
        for id in 0..255u8 {
            if self.cot.contains_key(&id) || self.cfg.mems.iter().any(|m| *m == MemSpec::Managed(id)) {
                continue;
            }
            if self.cfg.fss.iter().any(|f| !f.transient && if f.own_manager { (229..239).contains(&id) } else { id >= f.start && id < f.start + 10 }) {
                continue;
            }
            if mm.get(MemoryId::new(id)).size() != 0 {
                out.push(Disc::new("foreign memory used", &["C12"], format!("memory id {} was grown, it belongs to nobody", id)));
            }
        }
    }

    // ---- steps -------------------------------------------------------

    fn note(&mut self, s: &str) {
        let mut h = self.log;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.log = mix(h);
        self.last_out = s.to_string();
        if let Some(t) = self.trace.as_mut() {
            t.push(s.to_string());
        }
    }

    fn result(&mut self, s: &str) {
        self.result2(s, s);
    }

    fn result2(&mut self, s: &str, lax: &str) {
        let h = |s: &str| s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        self.results.push((h(s), h(lax)));
        self.note(s);
    }

    /// a full step: wrappers, faults, audits
    pub fn step(&mut self, st: &Step) -> Result<(), Viol> {
        let k = (st.fs as usize).min(self.insts.len() - 1);
        self.last_failed = false;
        self.last_out.clear();
        let before_ops = self.results.len();
        let r = self.step_inner(k, st.client, &st.op);
        self.ctl.countdown.set(None);
        match r {
            Ok(()) => {}
            Err(Stop::Viol(v)) => return Err(v),
            Err(Stop::Fault(f)) => {
                let tags = self.op_tags(k, &st.op);
                let mut t = vec!["C15", "C16"];
                t.extend(tags);
                let kind = match &f {
                    Fault::Runaway => "endless work",
                    Fault::Work(_) => "unbounded work",
                    Fault::Stack => "stack overflow",
                    _ => "trap",
                };
                return Err(Viol::new(&format!("{} in {}", kind, st.op.name()), &t, format!("{} with memory available: {:?}", st.op.name(), f)));
            }
        }
        let _ = before_ops;
        if self.last_failed && self.cfg.audit_failures {
            self.to_viol(|w| w.audit_shadow("after failed call", &["C04"]))?;
            self.to_viol(|w| w.audit_live("after failed call", &["C04"]))?;
        } else if self.cfg.shadow_every {
            self.to_viol(|w| w.audit_shadow("reopened on a copy", &[]))?;
        }
        self.nsteps += 1;
        if self.insts[k].model.inodes.len() > 200 && self.nsteps % 16 != 0 {
            return Ok(());
        }
        let ah = self.insts[k].model.abstract_hash();
        self.stats.states.insert(ah);
        self.stats.transitions.insert(mix(ah ^ mix(st.op.name().len() as u64 * 131 + st.op.name().as_bytes()[0] as u64 * 7 + self.last_failed as u64)));
        Ok(())
    }

    fn to_viol(&mut self, f: impl FnOnce(&mut World) -> OpRes) -> Result<(), Viol> {
        match f(self) {
            Ok(()) => Ok(()),
            Err(Stop::Viol(v)) => Err(v),
            Err(Stop::Fault(f)) => Err(Viol::new("trap in audit", &["C15", "C16"], format!("{:?}", f))),
        }
    }

    pub fn op_tags(&self, k: usize, op: &Op) -> Vec<&'static str> {
        use Op::*;
        match op {
            Trap { op, .. } | Refuse { op, .. } => self.op_tags(k, op),
            Rename { .. } | Link { .. } => vec!["C06", "C03"],
            Open { .. } => vec!["C03", "C08"],
            CreateDirOpen { .. } | Mkdir { .. } | RemoveFile { .. } | RemoveDir { .. } | RemoveRec { .. } | OpenMeta { .. } | NodeMeta { .. } | List { .. } => vec!["C03"],
            GetEntry { .. } | ScanStart { .. } | ScanStep { .. } => vec!["C11"],
            Mount { .. } | Unmount { .. } | Init { .. } | Store { .. } => vec!["C09"],
            Close { .. } | Renumber { .. } | GetStat { .. } | SetStat { .. } | Tell { .. } | Seek { .. } => vec!["C08"],
            Read { fd, .. } | ReadVec { fd, .. } | ReadAt { fd, .. } | Write { fd, .. } | WriteVec { fd, .. } | WriteAt { fd, .. } => {
                let m = &self.insts[k].model;
                let n = self.fdnum(k, *fd);
                if m.fds.get(&n).map(|f| !f.dir && m.inodes.get(&f.ino).map(|i| i.mount.is_some()).unwrap_or(false)).unwrap_or(false) {
                    vec!["C09"]
                } else {
                    vec!["C01"]
                }
            }
            SetSize { .. } | SetMeta { size: Some(_), .. } => vec!["C10", "C01"],
            SetMeta { .. } | SetLimit { .. } | SetATime { .. } | SetMTime { .. } | Meta { .. } => vec!["C10"],
            SetChunkSize { .. } | SetChunkType { .. } | Thrash { .. } => vec!["C14"],
            Restart { .. } => vec!["C02"],
            BadRange { .. } | CoCheck | CoGrow { .. } | CoWrite { .. } => vec!["C12"],
            _ => vec![],
        }
    }

    fn step_inner(&mut self, k: usize, client: u8, op: &Op) -> OpRes {
        match op {
            Op::Commit => {
                self.take_commit();
                return Ok(());
            }
            Op::AuditLive => return self.audit_live("audit", &[]),
            Op::AuditShadow => return self.audit_shadow("reopened on a copy", &[]),
            Op::Restart { v1 } => {
                if !self.stable() {
                    return Ok(());
                }
                for i in self.insts.iter_mut() {
                    i.v1 = *v1;
                }
                self.note("restart");
                return self.restart();
            }
            _ => {}
        }
        let (inner, trap, refuse): (&Op, Option<u64>, Option<u64>) = match op {
            Op::Trap { n, op } => (op, Some(*n), None),
            Op::Refuse { extra, op } => (op, None, Some(*extra)),
            o => (o, None, None),
        };
        let stable = self.stable();
        let trap = if stable { trap } else { None };
        let refuse = if stable { refuse } else { None };
        let faulty = trap.is_some() || refuse.is_some() || self.capped;
        if !faulty {
            return self.op(k, client, inner);
        }
        // keep what a failing operation has to leave unchanged
        let keep: (Vec<Model>, Vec<MemModel>, BTreeMap<u8, CoModel>, BTreeMap<u16, Scan>) =
            (self.insts.iter().map(|i| i.model.clone()).collect(), self.mems.clone(), self.cot.clone(), self.scans.clone());
        let refused0 = self.ctl.refused.get();
        if let Some(n) = trap {
            self.ctl.fired.set(false);
            self.ctl.countdown.set(Some(n));
        }
        if let Some(x) = refuse {
            self.main.set_capacity(self.main.pages() + x);
        }
        let r = self.op(k, client, inner);
        self.ctl.countdown.set(None);
        self.main.set_capacity(crate::disk::NO_LIMIT);
        let refused = self.ctl.refused.get() > refused0;
        match r {
            Ok(()) => {
                if refused {
                    self.stats.bump("fault:growth refused, call still succeeded");
                    // everything that was acknowledged must be there
                    self.audit_shadow("after refused growth", &["C05"])?;
                    self.audit_live("after refused growth", &["C05"])?;
                }
                Ok(())
            }
            Err(Stop::Fault(Fault::Trap)) | Err(Stop::Fault(Fault::Refused)) => {
                if refused {
                    self.stats.bump("fault:growth refused, call trapped");
                } else {
                    self.stats.bump("fault:trap at memory access");
                }
                let heap = mix(self.log) % 3 != 0;
                self.note("rollback");
                self.rollback(heap)?;
                // memory is available again
                if heap && !matches!(inner, Op::MemWrite { .. } | Op::MemGrow { .. }) {
                    for s in self.seps.iter().flatten() {
                        s.set_capacity(crate::disk::NO_LIMIT);
                    }
                    self.capped = false;
                    match self.op(k, client, inner) {
                        Err(Stop::Viol(mut v)) => {
                            v.tags.insert("C05");
                            v.kind = format!("retry after rollback: {}", v.kind);
                            return Err(v.into());
                        }
                        Err(Stop::Fault(f)) => {
                            return Err(Viol::new("retry after rollback trapped", &["C05", "C15"], format!("{:?}", f)).into());
                        }
                        Ok(()) => self.stats.bump("probe:retry after rollback succeeded"),
                    }
                }
                Ok(())
            }
            Err(Stop::Viol(v)) if refused && v.kind.starts_with("unexpected error") => {
                // refused as an error: nothing may have changed
                self.stats.bump("fault:growth refused, call failed");
                for (i, m) in self.insts.iter_mut().zip(keep.0) {
                    i.model = m;
                }
                self.mems = keep.1;
                self.cot = keep.2;
                self.scans = keep.3;
                self.audit_shadow("after refused growth", &["C05", "C04"])?;
                self.audit_live("after refused growth", &["C05", "C04"])
            }
            Err(Stop::Viol(mut v)) => {
                if refused || self.ctl.fired.get() && trap.is_some() {
                    v.tags.insert("C05");
                }
                Err(v.into())
            }
            Err(x) => Err(x),
        }
    }

    pub fn fdnum(&self, k: usize, f: FdRef) -> u32 {
        match f {
            FdRef::Root => self.insts[k].fs.as_ref().unwrap().root_fd(),
            FdRef::Raw(n) => n,
            FdRef::Slot(s) => self.insts[k].slots.get(&s).copied().unwrap_or(60000 + s as u32),
        }
    }

    /// compare the outcome of a unit-like call
    fn cmp<T>(&mut self, op: &Op, exp: &Result<(), E>, got: &Result<T, Error>, tags: &[&'static str]) -> OpRes {
        let mut t: Vec<&'static str> = vec!["C16"];
        t.extend_from_slice(tags);
        match (exp, got) {
            (Ok(()), Ok(_)) => {
                self.stats.bump(&format!("ok:{}", op.name()));
                self.result(&format!("{} ok", op.name()));
                Ok(())
            }
            (Err(es), Err(x)) => {
                let n = err_name(x);
                self.last_failed = true;
                self.stats.bump(&format!("refused:{}", n));
                let lax = if es.len() == 1 { format!("{} {}", op.name(), n) } else { "failed".to_string() };
                self.result2(&format!("{} {}", op.name(), n), &lax);
                if !es.is_empty() && !es.contains(n.as_str()) {
                    return Err(Viol::new(&format!("wrong error from {}", op.name()), &["C16"], format!("{:?}: {} but the reasons are {:?}", op, n, es)).into());
                }
                Ok(())
            }
            (Ok(()), Err(x)) => {
                let n = err_name(x);
                match n.as_str() {
                    BADF => t.push("C08"),
                    BUSY => t.push("C08"),
                    DEVBUSY | NODEV => t.push("C09"),
                    FBIG => t.push("C10"),
                    PERM => t.push("C08"),
                    _ => {}
                }
                Err(Viol::new(&format!("unexpected error from {}", op.name()), &t, format!("{:?} returned {} although nothing stands in the way", op, n)).into())
            }
            (Err(es), Ok(_)) => {
                for x in es {
                    match *x {
                        BADF => t.push("C08"),
                        BUSY => t.push("C08"),
                        DEVBUSY | NODEV => t.push("C09"),
                        FBIG => t.push("C10"),
                        NOTEMPTY => t.push("C06"),
                        EXIST => t.push("C03"),
                        _ => {}
                    }
                }
                if matches!(op, Op::Read { .. } | Op::ReadVec { .. } | Op::ReadAt { .. } | Op::Write { .. } | Op::WriteVec { .. } | Op::WriteAt { .. }) && es.contains(PERM) {
                    t.push("C08");
                }
                Err(Viol::new(&format!("unexpected success of {}", op.name()), &t, format!("{:?} succeeded although {:?}", op, es)).into())
            }
        }
    }

    fn new_fd(&mut self, k: usize, slot: u16, fd: Fd, f: MFd) -> OpRes {
        let m = &mut self.insts[k].model;
        if fd <= 3 || m.fds.contains_key(&fd) {
            return Err(Viol::new("descriptor number not unique", &["C08"], format!("open returned descriptor {} which is {}", fd, if fd <= 3 { "reserved" } else { "already open" })).into());
        }
        let ino = f.ino;
        m.install_fd(fd, f);
        self.insts[k].slots.insert(slot, fd);
        // learn or confirm the identity
        self.confirm(k, fd, ino)
    }

    fn confirm(&mut self, k: usize, fd: u32, ino: Ino) -> OpRes {
        let r = self.call(k, |fs| fs.metadata(fd))?;
        let model = &mut self.insts[k].model;
        match r {
            Ok(meta) => {
                let d = crate::audit::cmp_meta(model, ino, &meta, false, "descriptor");
                if !d.is_empty() {
                    return Err(Viol::from_discs("open", &d, &[]).into());
                }
                Ok(())
            }
            Err(x) => Err(Viol::new("unexpected error from metadata", &["C16", "C08"], format!("metadata of the descriptor just opened: {:?}", x)).into()),
        }
    }

    /// the position of a descriptor agrees with the model
    fn check_cursor(&mut self, k: usize, fd: u32, when: &str) -> OpRes {
        let f = match self.insts[k].model.fds.get(&fd) {
            Some(f) if !f.dir => f.clone(),
            _ => return Ok(()),
        };
        let r = self.call(k, |fs| fs.tell(fd))?;
        match r {
            Ok(p) => {
                if let Some(a) = f.alt {
                    if p == a || p == f.cursor {
                        let g = self.insts[k].model.fds.get_mut(&fd).unwrap();
                        g.cursor = p;
                        g.alt = None;
                        return Ok(());
                    }
                }
                if p != f.cursor {
                    return Err(Viol::new("descriptor position", &["C08"], format!("position {} {} instead of {}", p, when, f.cursor)).into());
                }
                Ok(())
            }
            Err(x) => Err(Viol::new("unexpected error from tell", &["C16", "C08"], format!("{:?}", x)).into()),
        }
    }

    fn cmp_bytes(&mut self, k: usize, ino: Ino, op: &Op, off: u64, want: &[u8], got: &[u8]) -> OpRes {
        let mounted = self.insts[k].model.ino(ino).mount.is_some();
        let tag: &'static str = if mounted { "C09" } else { "C01" };
        let at = matches!(op, Op::ReadAt { .. });
        self.result(&format!("{} {} bytes {:x}", op.name(), got.len(), got.iter().fold(7u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))));
        if want == got {
            return Ok(());
        }
        if want.len() != got.len() {
            let t = [tag, "C08"];
            return Err(Viol::new("read length", &t[..if at { 1 } else { 2 }], format!("{:?} at {} returned {} bytes instead of {} (size {})", op, off, got.len(), want.len(), self.insts[k].model.ino(ino).a_size())).into());
        }
        let o = want.iter().zip(got.iter()).position(|(a, b)| a != b).unwrap();
        Err(Viol::new("read content", &[tag], format!("{:?}: byte {} is {:#x} instead of {:#x} (size {})", op, off + o as u64, got[o], want[o], self.insts[k].model.ino(ino).a_size())).into())
    }

    /// a mounted file needs real memory up to its size: simulated memories stay small
    fn too_big_mounted(&self, k: usize, fd: u32, size: u64) -> bool {
        let m = &self.insts[k].model;
        let mounted = m.fds.get(&fd).and_then(|f| m.inodes.get(&f.ino)).map(|i| i.mount.is_some()).unwrap_or(false);
        mounted && size > 64 << 20 && size <= MAX_FILE_SIZE
    }

    fn skip(&mut self) -> OpRes {
        self.note("skip");
        Ok(())
    }

    pub fn op(&mut self, k: usize, client: u8, op: &Op) -> OpRes {
        self.depth += 1;
        let name = op.name();
        self.request = op.pages();
        self.local = op.is_local();
        self.before = self.insts[k].model.units();
        self.stats.bump(&format!("op:{}", name));
        let r = self.op_inner(k, client, op);
        self.depth -= 1;
        r
    }

    fn op_inner(&mut self, k: usize, client: u8, op: &Op) -> OpRes {
        use Op::*;
        match op {
            Open { slot, dir, path, oflags, fflags, rights, t } => {
                self.max_time = self.max_time.max(*t);
                let d = self.fdnum(k, *dir);
                let exp = self.insts[k].model.open(d, path, *oflags, *fflags, *rights, *t);
                let st = stat_of(*fflags, *rights);
                let fl = OpenFlags::from_bits_truncate(*oflags);
                let got = self.call(k, |fs| fs.open(d, path, st, fl, *t))?;
                self.cmp(op, &exp.as_ref().map(|_| ()).map_err(|x| x.clone()), &got, &["C03"])?;
                if let (Ok((f, _)), Ok(fd)) = (exp, got) {
                    self.new_fd(k, *slot, fd, f)?;
                }
                Ok(())
            }
            CreateDirOpen { slot, dir, path, t } => {
                let d = self.fdnum(k, *dir);
                let exp = self.insts[k].model.mkdir(d, path, *t);
                let got = self.call(k, |fs| fs.create_open_directory(d, path, FdStat::default(), *t))?;
                self.cmp(op, &exp.as_ref().map(|_| ()).map_err(|x| x.clone()), &got, &["C03"])?;
                if let (Ok(i), Ok(fd)) = (exp, got) {
                    self.new_fd(k, *slot, fd, MFd { ino: i, dir: true, cursor: 0, alt: None, flags: 0, rights: 3 })?;
                }
                Ok(())
            }
            Mkdir { dir, path, t } => {
                let d = self.fdnum(k, *dir);
                let exp = self.insts[k].model.mkdir(d, path, *t).map(|_| ());
                let got = self.call(k, |fs| fs.mkdir(d, path, FdStat::default(), *t))?;
                self.cmp(op, &exp, &got, &["C03"])
            }
            Close { fd } => {
                let n = self.fdnum(k, *fd);
                let root = self.fdnum(k, FdRef::Root);
                let exp = if n == root {
                    Ok(())
                } else if self.insts[k].model.drop_fd(n).is_some() {
                    Ok(())
                } else {
                    Err(e(&[BADF]))
                };
                let got = self.call(k, |fs| fs.close(n))?;
                self.cmp(op, &exp, &got, &["C08"])
            }
            Flush { fd } => {
                let n = self.fdnum(k, *fd);
                let exp = self.insts[k].model.file_of(n).map(|_| ());
                let got = self.call(k, |fs| fs.flush(n))?;
                self.cmp(op, &exp, &got, &["C08"])
            }
            Advice { fd } => {
                let n = self.fdnum(k, *fd);
                let exp = if n <= 2 && !self.insts[k].model.fds.contains_key(&n) { Ok(()) } else { self.insts[k].model.file_of(n).map(|_| ()) };
                let got = self.call(k, |fs| fs.advice(n, 0, 10, stable_fs::fs::Advice::Normal))?;
                self.cmp(op, &exp, &got, &["C08"])
            }
            Allocate { fd, off, len } => {
                let n = self.fdnum(k, *fd);
                let exp = if n <= 2 && !self.insts[k].model.fds.contains_key(&n) { Ok(()) } else { self.insts[k].model.file_of(n).map(|_| ()) };
                let got = self.call(k, |fs| fs.allocate(n, *off, *len))?;
                self.cmp(op, &exp, &got, &["C08"])
            }
            Renumber { from, to } => {
                let (a, b) = (self.fdnum(k, *from), self.fdnum(k, *to));
                let root = self.fdnum(k, FdRef::Root);
                let m = &self.insts[k].model;
                let either = a == b;
                let mut errs = E::new();
                if !m.fds.contains_key(&a) || a == root || b == root {
                    errs.insert(BADF);
                    errs.insert(INVAL);
                    errs.insert(PERM);
                }
                if let (Some(x), Some(y)) = (m.fds.get(&a), m.fds.get(&b)) {
                    if x.dir != y.dir {
                        errs.insert(BADF);
                    }
                }
                let got = self.call(k, |fs| fs.renumber(a, b))?;
                if either {
                    self.note("renumber self");
                    return Ok(());
                }
                let exp = if errs.is_empty() { Ok(()) } else { Err(errs) };
                self.cmp(op, &exp, &got, &["C08"])?;
                if exp.is_ok() {
                    let m = &mut self.insts[k].model;
                    let f = m.drop_fd(a).unwrap();
                    m.drop_fd(b);
                    let dir = f.dir;
                    m.install_fd(b, f);
                    if let FdRef::Slot(s) = to {
                        self.insts[k].slots.insert(*s, b);
                    } else if let FdRef::Slot(s) = from {
                        self.insts[k].slots.insert(*s, b);
                    }
                    if !dir {
                        self.check_cursor(k, b, "after renumber")?;
                    }
                }
                Ok(())
            }
            Read { fd, len } => {
                let n = self.fdnum(k, *fd);
                let exp = self.can_rw(k, n, R_READ);
                self.check_cursor(k, n, "before read")?;
                let cur = self.insts[k].model.fds.get(&n).map(|f| f.cursor).unwrap_or(0);
                let mut buf = vec![0xEEu8; *len as usize];
                let got = self.call(k, |fs| fs.read(n, &mut buf))?;
                self.cmp(op, &exp.as_ref().map(|_| ()).map_err(|x| x.clone()), &got, &["C01"])?;
                if let (Ok(ino), Ok(r)) = (exp, got) {
                    let want = self.insts[k].model.read(&self.mems, ino, cur, *len as usize);
                    buf.truncate(r as usize);
                    self.cmp_bytes(k, ino, op, cur, &want, &buf)?;
                    self.insts[k].model.fds.get_mut(&n).unwrap().cursor = cur + r;
                    self.check_cursor(k, n, "after read")?;
                }
                Ok(())
            }
            ReadVec { fd, lens } => {
                let n = self.fdnum(k, *fd);
                let exp = self.can_rw(k, n, R_READ);
                self.check_cursor(k, n, "before read")?;
                let cur = self.insts[k].model.fds.get(&n).map(|f| f.cursor).unwrap_or(0);
                let total: usize = lens.iter().map(|x| *x as usize).sum();
                let mut buf = vec![0xEEu8; total];
                let iov = dst_iov(&mut buf, lens);
                let got = self.call(k, |fs| fs.read_vec(n, &iov))?;
                self.cmp(op, &exp.as_ref().map(|_| ()).map_err(|x| x.clone()), &got, &["C01"])?;
                if let (Ok(ino), Ok(r)) = (exp, got) {
                    let want = self.insts[k].model.read(&self.mems, ino, cur, total);
                    buf.truncate(r as usize);
                    self.cmp_bytes(k, ino, op, cur, &want, &buf)?;
                    self.insts[k].model.fds.get_mut(&n).unwrap().cursor = cur + r;
                    self.check_cursor(k, n, "after read")?;
                }
                Ok(())
            }
            ReadAt { fd, lens, off } => {
                let n = self.fdnum(k, *fd);
                let exp = self.can_rw(k, n, R_READ);
                let total: usize = lens.iter().map(|x| *x as usize).sum();
                let mut buf = vec![0xEEu8; total];
                let iov = dst_iov(&mut buf, lens);
                let got = self.call(k, |fs| fs.read_vec_with_offset(n, &iov, *off))?;
                self.cmp(op, &exp.as_ref().map(|_| ()).map_err(|x| x.clone()), &got, &["C01"])?;
                if let (Ok(ino), Ok(r)) = (exp, got) {
                    let want = self.insts[k].model.read(&self.mems, ino, *off, total);
                    buf.truncate(r as usize);
                    self.cmp_bytes(k, ino, op, *off, &want, &buf)?;
                    self.check_cursor(k, n, "after offset read")?;
                }
                Ok(())
            }
            Write { fd, pat, len } => self.do_write(k, op, *fd, *pat, &[*len], None, false),
            WriteVec { fd, pat, lens } => self.do_write(k, op, *fd, *pat, lens, None, true),
            WriteAt { fd, pat, lens, off } => self.do_write(k, op, *fd, *pat, lens, Some(*off), true),
            Seek { fd, delta, whence } => {
                let n = self.fdnum(k, *fd);
                self.check_cursor(k, n, "before seek")?;
                let m = &self.insts[k].model;
                let exp = m.file_of(n).and_then(|f| m.seek(f, *delta, *whence));
                let wh = match whence {
                    0 => Whence::SET,
                    1 => Whence::CUR,
                    _ => Whence::END,
                };
                let got = self.call(k, |fs| fs.seek(n, *delta, wh))?;
                self.cmp(op, &exp.as_ref().map(|_| ()).map_err(|x| x.clone()), &got, &["C08"])?;
                if let (Ok(p), Ok(r)) = (exp, got) {
                    self.result(&format!("pos {}", r));
                    if p != r {
                        return Err(Viol::new("seek position", &["C08"], format!("{:?} returned {} instead of {}", op, r, p)).into());
                    }
                    self.insts[k].model.fds.get_mut(&n).unwrap().cursor = p;
                    self.check_cursor(k, n, "after seek")?;
                }
                Ok(())
            }
            Tell { fd } => {
                let n = self.fdnum(k, *fd);
                let exp = self.insts[k].model.file_of(n).map(|_| ());
                let got = self.call(k, |fs| fs.tell(n))?;
                self.cmp(op, &exp, &got, &["C08"])?;
                self.check_cursor(k, n, "at tell")
            }
            Meta { fd } => {
                let n = self.fdnum(k, *fd);
                let got = self.call(k, |fs| fs.metadata(n))?;
                if n <= 2 && !self.insts[k].model.fds.contains_key(&n) {
                    self.note("meta std");
                    return match got {
                        Ok(_) => Ok(()),
                        Err(x) => Err(Viol::new("unexpected error from metadata", &["C16", "C08"], format!("standard stream: {:?}", x)).into()),
                    };
                }
                let exp = match self.insts[k].model.fds.get(&n) {
                    Some(f) => Ok(f.ino),
                    None => Err(e(&[BADF])),
                };
                self.cmp(op, &exp.as_ref().map(|_| ()).map_err(|x| x.clone()), &got, &["C08", "C10"])?;
                if let (Ok(i), Ok(m)) = (exp, got) {
                    self.cmp_meta(k, i, &m, "metadata")?;
                }
                Ok(())
            }
            OpenMeta { dir, path } => {
                let d = self.fdnum(k, *dir);
                let m = &self.insts[k].model;
                let exp = m.dir_of(d).and_then(|d| m.resolve(d, path));
                let got = self.call(k, |fs| fs.open_metadata(d, path))?;
                self.cmp(op, &exp.as_ref().map(|_| ()).map_err(|x| x.clone()), &got, &["C03"])?;
                if let (Ok(i), Ok(m)) = (exp, got) {
                    self.cmp_meta(k, i, &m, "open_metadata")?;
                }
                Ok(())
            }
            NodeMeta { dir, path } => {
                let d = self.fdnum(k, *dir);
                let m = &self.insts[k].model;
                let i = match m.dir_of(d).and_then(|d| m.resolve(d, path)) {
                    Ok(i) => i,
                    Err(_) => return self.skip(),
                };
                let node = match m.ino(i).node {
                    Some(n) => n,
                    None => return self.skip(),
                };
                // how much is known about node numbers depends on the audits
                // that ran before, so this step is no part of the results
                let keep = self.results.len();
                let got = self.call(k, |fs| fs.metadata_from_node(node))?;
                self.cmp(op, &Ok(()), &got, &["C10"])?;
                self.cmp_meta(k, i, &got.unwrap(), "metadata_from_node")?;
                self.results.truncate(keep);
                Ok(())
            }
            SetMeta { fd, size, times, limit, bad_node } => {
                let n = self.fdnum(k, *fd);
                let i = match self.insts[k].model.fds.get(&n) {
                    Some(f) => f.ino,
                    None => {
                        let got = self.call(k, |fs| fs.set_metadata(n, Metadata::default()))?;
                        return self.cmp(op, &Err(e(&[BADF])), &got, &["C08"]);
                    }
                };
                let cur = self.call(k, |fs| fs.metadata(n))?;
                let mut meta = match cur {
                    Ok(m) => m,
                    Err(_) if n <= 2 => return self.skip(),
                    Err(x) => return Err(Viol::new("unexpected error from metadata", &["C16", "C10"], format!("{:?}", x)).into()),
                };
                if self.too_big_mounted(k, n, size.unwrap_or(0)) {
                    return self.skip();
                }
                let is_dir = self.insts[k].model.ino(i).dir;
                if let (Some(s), false) = (size, is_dir) {
                    meta.size = *s;
                }
                if let Some(t) = times {
                    meta.times.accessed = t[0];
                    meta.times.modified = t[1];
                    meta.times.created = t[2];
                }
                if let (Some(l), false) = (limit, is_dir) {
                    meta.maximum_size_allowed = *l;
                }
                if *bad_node {
                    // changing the identity or the type is refused
                    if mix(n as u64) & 1 == 0 {
                        meta.node += 1;
                    } else {
                        meta.file_type = if is_dir { FileType::RegularFile } else { FileType::Directory };
                    }
                }
                let msize = meta.size;
                let mlimit = meta.maximum_size_allowed;
                let exp: Result<(), E> = if *bad_node {
                    Err(E::new())
                } else if !is_dir && (msize > mlimit.unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE)) {
                    Err(e(&[FBIG, INVAL]))
                } else {
                    Ok(())
                };
                let got = self.call(k, |fs| fs.set_metadata(n, meta))?;
                self.cmp(op, &exp, &got, &["C10"])?;
                if exp.is_ok() {
                    let m = &mut self.insts[k].model;
                    m.allocated = true;
                    if !is_dir {
                        m.set_limit(i, None).ok();
                        m.set_size(i, msize).ok();
                        m.set_limit(i, mlimit).ok();
                    }
                    if let Some(t) = times {
                        *m.ino_mut(i).a_times_mut() = *t;
                    }
                    self.confirm(k, n, i)?;
                }
                Ok(())
            }
            SetSize { fd, size } => {
                let n = self.fdnum(k, *fd);
                if self.too_big_mounted(k, n, *size) {
                    return self.skip();
                }
                let m = &mut self.insts[k].model;
                let exp = match m.file_of(n) {
                    Err(x) => Err(x),
                    Ok(f) if f.rights & R_WRITE == 0 => Err(e(&[INVAL, PERM])),
                    Ok(f) => {
                        let i = f.ino;
                        m.set_size(i, *size)
                    }
                };
                let got = self.call(k, |fs| fs.set_file_size(n, *size))?;
                self.cmp(op, &exp, &got, &["C10"])
            }
            SetLimit { fd, limit } => {
                let n = self.fdnum(k, *fd);
                let m = &mut self.insts[k].model;
                let exp = match m.file_of(n) {
                    Err(x) => Err(x),
                    Ok(f) => {
                        let i = f.ino;
                        m.set_limit(i, Some(*limit))
                    }
                };
                let got = self.call(k, |fs| fs.set_file_size_limit(n, *limit))?;
                self.cmp(op, &exp, &got, &["C10"])
            }
            SetATime { fd, t } => {
                let n = self.fdnum(k, *fd);
                let m = &mut self.insts[k].model;
                let exp = match m.fds.get(&n) {
                    None => Err(e(&[BADF])),
                    Some(f) => {
                        let i = f.ino;
                        m.ino_mut(i).a_times_mut()[0] = *t;
                        m.allocated = true;
                        Ok(())
                    }
                };
                let got = self.call(k, |fs| fs.set_accessed_time(n, *t))?;
                self.cmp(op, &exp, &got, &["C10"])
            }
            SetMTime { fd, t } => {
                let n = self.fdnum(k, *fd);
                let m = &mut self.insts[k].model;
                let exp = match m.fds.get(&n) {
                    None => Err(e(&[BADF])),
                    Some(f) => {
                        let i = f.ino;
                        m.ino_mut(i).a_times_mut()[1] = *t;
                        m.allocated = true;
                        Ok(())
                    }
                };
                let got = self.call(k, |fs| fs.set_modified_time(n, *t))?;
                self.cmp(op, &exp, &got, &["C10"])
            }
            GetStat { fd } => {
                let n = self.fdnum(k, *fd);
                let exp = match self.insts[k].model.fds.get(&n) {
                    None => Err(e(&[BADF])),
                    Some(f) => Ok(f.clone()),
                };
                let got = self.call(k, |fs| fs.get_stat(n))?;
                self.cmp(op, &exp.as_ref().map(|_| ()).map_err(|x| x.clone()), &got, &["C08"])?;
                if let (Ok(f), Ok((ft, st))) = (exp, got) {
                    let want = stat_of(f.flags, f.rights);
                    if (ft == FileType::Directory) != f.dir || st.flags != want.flags || st.rights_base != want.rights_base {
                        return Err(Viol::new("descriptor flags", &["C08"], format!("get_stat({}) {:?} {:?}, expected {:?}", n, ft, st, want)).into());
                    }
                }
                Ok(())
            }
            SetStat { fd, fflags, rights } => {
                let n = self.fdnum(k, *fd);
                let m = &mut self.insts[k].model;
                let st = stat_of(*fflags, *rights);
                let fl = st.flags.bits();
                let exp = match m.fds.get_mut(&n) {
                    None => Err(e(&[BADF])),
                    Some(f) if f.dir && fl & (F_APPEND | F_NONBLOCK) != 0 => Err(e(&[BADF])),
                    Some(f) => {
                        f.flags = fl;
                        f.rights = *rights;
                        Ok(())
                    }
                };
                let got = self.call(k, |fs| fs.set_stat(n, st))?;
                self.cmp(op, &exp, &got, &["C08"])
            }
            RemoveFile { dir, path } => {
                let d = self.fdnum(k, *dir);
                let exp = self.insts[k].model.remove_file(d, path);
                let got = self.call(k, |fs| fs.remove_file(d, path))?;
                self.cmp(op, &exp, &got, &["C03"])
            }
            RemoveDir { dir, path } => {
                let d = self.fdnum(k, *dir);
                let exp = self.insts[k].model.remove_dir(d, path);
                let got = self.call(k, |fs| fs.remove_dir(d, path))?;
                self.cmp(op, &exp, &got, &["C03"])
            }
            RemoveRec { dir, path } => {
                let d = self.fdnum(k, *dir);
                let exp = self.insts[k].model.remove_rec(d, path);
                let got = self.call(k, |fs| fs.remove_recursive(d, path))?;
                self.cmp(op, &exp, &got, &["C03"])
            }
            Link { slot, odir, opath, ndir, npath } => self.do_link(k, op, *slot, *odir, opath, *ndir, npath, false),
            Rename { slot, odir, opath, ndir, npath } => self.do_link(k, op, *slot, *odir, opath, *ndir, npath, true),
            List { fd, from, max } => self.do_list(k, op, *fd, *from, *max),
            GetEntry { fd, idx } => {
                let n = self.fdnum(k, *fd);
                let d = self.insts[k].model.dir_of(n);
                let got = self.call(k, |fs| fs.get_direntry(n, *idx).map(|x| (x.name.to_string(), x.node)))?;
                match d {
                    Err(x) => self.cmp(op, &Err(x), &got, &["C08"]),
                    Ok(d) => {
                        let keep = self.results.len();
                        self.result(&format!("{:?}", got.as_ref().map(|x| x.0.clone()).map_err(|_| ())));
                        let nd = self.insts[k].model.ino(d);
                        let known = nd.entries.iter().all(|x| x.idx.is_some());
                        match nd.entries.iter().find(|x| x.idx == Some(*idx)) {
                            Some(en) => {
                                let name = en.name.clone();
                                let node = self.insts[k].model.ino(en.ino).node;
                                self.cmp(op, &Ok(()), &got, &["C11"])?;
                                self.results.truncate(keep + 1);
                                let (gn, gnode) = got.unwrap();
                                if gn != name || (node.is_some() && node != Some(gnode)) {
                                    return Err(Viol::new("entry by index", &["C11", "C03"], format!("index {} is {:?} node {}, expected {:?} node {:?}", idx, gn, gnode, name, node)).into());
                                }
                                Ok(())
                            }
                            None if known => {
                                self.cmp(op, &Err(e(&[NOENT])), &got, &["C11"])?;
                                self.results.truncate(keep + 1);
                                Ok(())
                            }
                            None => Ok(()),
                        }
                    }
                }
            }
            ScanStart { scan, fd } => {
                let n = self.fdnum(k, *fd);
                if let Ok(d) = self.insts[k].model.dir_of(n) {
                    let start = self.insts[k].model.ino(d).entries.iter().map(|x| x.eid).collect();
                    self.scans.insert(*scan, Scan { fs: k, ino: d, next: 0, dots: if scan % 2 == 1 { Dots::Begin } else { Dots::Done }, seen: BTreeSet::new(), start });
                }
                Ok(())
            }
            ScanStep { scan, n } => self.do_scan(k, *scan, *n),
            Mount { path, mem, policy, arg } => {
                if *mem as usize >= self.mems.len() || (*policy == 2 && *arg > 64 << 20 && *arg <= MAX_FILE_SIZE) {
                    return self.skip();
                }
                let h = self.mem_handle(*mem);
                let pages = h.size();
                let exp = self.insts[k].model.mount(path, *mem, *policy, *arg, pages).map(|_| ());
                let pol = policy_of(*policy, *arg);
                let got = self.call(k, |fs| fs.mount_memory_file(path, h, pol))?;
                self.cmp(op, &exp, &got, &["C09"])
            }
            Unmount { path } => {
                let exp = self.insts[k].model.unmount(path);
                let got = self.call(k, |fs| fs.unmount_memory_file(path))?;
                self.cmp(op, &exp.as_ref().map(|_| ()).map_err(|x| x.clone()), &got, &["C09"])?;
                if let (Ok(m), Ok(b)) = (exp, got) {
                    // the memory handed back is the one that was mounted
                    let h = self.mem_handle(m);
                    if h.size() != b.size() {
                        return Err(Viol::new("unmount returned another memory", &["C09"], format!("{} pages instead of {}", b.size(), h.size())).into());
                    }
                    if h.size() > 0 {
                        let n = (h.size() * WASM).min(256) as usize;
                        let (mut x, mut y) = (vec![0u8; n], vec![0u8; n]);
                        h.read(0, &mut x);
                        b.read(0, &mut y);
                        if x != y {
                            return Err(Viol::new("unmount returned another memory", &["C09"], "different content".to_string()).into());
                        }
                    }
                    if let Some(d) = self.check_mem(m) {
                        return Err(Viol::from_discs("unmount", &[d], &[]).into());
                    }
                }
                Ok(())
            }
            Init { path } | Store { path } => {
                // copying is linear in the size
                if let Ok((i, _)) = self.insts[k].model.mounted(path) {
                    let n = self.insts[k].model.ino(i);
                    if n.size > 6 << 20 || n.a_size() > 6 << 20 {
                        return self.skip();
                    }
                }
                let init = matches!(op, Init { .. });
                let exp = if init { self.insts[k].model.init_mem(&mut self.mems, path) } else { self.insts[k].model.store_mem(&mut self.mems, path) };
                let got = self.call(k, |fs| if init { fs.init_memory_file(path) } else { fs.store_memory_file(path) })?;
                self.cmp(op, &exp.map(|_| ()), &got, &["C09"])
            }
            MemWrite { mem, off, pat, len } => {
                if *mem as usize >= self.mems.len() {
                    return self.skip();
                }
                let h = self.mem_handle(*mem);
                let size = h.size() * WASM;
                if off + *len as u64 > size {
                    return self.skip();
                }
                let d = fill(*pat, *len as usize);
                let ctl = self.ctl.clone();
                guarded(&ctl, || h.write(*off, &d)).map_err(Stop::Fault)?;
                self.mems[*mem as usize].bytes.write(*off, &d);
                self.note("memwrite");
                Ok(())
            }
            MemGrow { mem, pages } => {
                if *mem as usize >= self.mems.len() {
                    return self.skip();
                }
                let h = self.mem_handle(*mem);
                if h.size() > 200 {
                    return self.skip();
                }
                let ctl = self.ctl.clone();
                guarded(&ctl, || h.grow(*pages as u64)).map_err(Stop::Fault)?;
                self.note("memgrow");
                Ok(())
            }
            MemCheck { mem } => {
                if *mem as usize >= self.mems.len() {
                    return self.skip();
                }
                if let Some(d) = self.check_mem(*mem) {
                    return Err(Viol::from_discs("memory", &[d], &[]).into());
                }
                Ok(())
            }
            MemCap { mem, pages } => {
                if let Some(Some(s)) = self.seps.get(*mem as usize) {
                    s.set_capacity(s.pages() + *pages);
                    self.capped = true;
                }
                Ok(())
            }
            SetChunkType { v1 } => {
                self.insts[k].v1 = *v1;
                let v = *v1;
                self.call(k, |fs| fs.storage.set_chunk_type(if v { ChunkType::V1 } else { ChunkType::V2 }))?;
                self.note("chunk type");
                Ok(())
            }
            SetChunkSize { size } => {
                let m = &self.insts[k].model;
                let exp = if m.transient || !m.allocated || m.chunk_size == *size { Ok(()) } else { Err(e(&[INVAL])) };
                let got = self.call(k, |fs| fs.storage.set_chunk_size(chunk_size_of(*size)))?;
                let m = &mut self.insts[k].model;
                if m.legacy && !m.allocated && got.is_err() {
                    // an old image without a single allocation: whether one took place since then is not observable
                    m.allocated = true;
                }
                let m = &self.insts[k].model;
                let exp = if m.legacy && m.allocated && m.chunk_size != *size { Err(e(&[INVAL])) } else { exp };
                if let (Ok(()), false) = (&exp, m_transient(&self.insts[k])) {
                    self.insts[k].model.chunk_size = *size;
                }
                // outcomes depend on the configuration: not part of the twin comparison
                let keep = self.results.len();
                self.cmp(op, &exp, &got, &["C14"])?;
                self.results.truncate(keep);
                self.last_failed = false;
                let have = self.call(k, |fs| fs.storage.chunk_size() as u32)?;
                if have != self.insts[k].model.chunk_size {
                    return Err(Viol::new("chunk size", &["C14"], format!("chunk size {} instead of {}", have, self.insts[k].model.chunk_size)).into());
                }
                Ok(())
            }
            CoGrow { id, pages } => {
                if let (Some(mm), Some(c)) = (&self.mm, self.cot.get_mut(id)) {
                    if c.pages < 40 {
                        let m = mm.get(MemoryId::new(*id));
                        let ctl = self.ctl.clone();
                        guarded(&ctl, || m.grow(*pages as u64)).map_err(Stop::Fault)?;
                        c.pages += *pages as u64;
                    }
                }
                Ok(())
            }
            CoWrite { id, off, pat, len } => {
                if let (Some(mm), Some(c)) = (&self.mm, self.cot.get_mut(id)) {
                    if off + *len as u64 <= c.pages * WASM {
                        let m = mm.get(MemoryId::new(*id));
                        let d = fill(*pat, *len as usize);
                        let ctl = self.ctl.clone();
                        guarded(&ctl, || m.write(*off, &d)).map_err(Stop::Fault)?;
                        c.bytes.write(*off, &d);
                    }
                }
                Ok(())
            }
            CoCheck => {
                let mut d = vec![];
                self.check_cot(&mut d);
                if !d.is_empty() {
                    return Err(Viol::from_discs("co-tenants", &d, &[]).into());
                }
                Ok(())
            }
            BadRange { start, len, end } => {
                if self.mm.is_none() {
                    return self.skip();
                }
                let end = end.unwrap_or_else(|| start.saturating_add(*len));
                let ok = end >= *start && end - *start >= 10 && end <= 254;
                if ok {
                    return self.skip();
                }
                let before = self.main.export();
                let ctl = self.ctl.clone();
                let mm = self.mm.as_ref().unwrap();
                let r = guarded(&ctl, || {
                    let _ = StableStorage::new_with_memory_manager(mm, *start..end);
                });
                match r {
                    // shipped builds do not check the arithmetic, there the range would be accepted
                    Err(Fault::Panic(p)) if p.contains("overflow") => {
                        Err(Viol::new("the check of an index range overflows", &["C12", "C15"], format!("{:?}: {}", op, p)).into())
                    }
                    Err(Fault::Panic(_)) => {
                        if self.main.export() != before {
                            return Err(Viol::new("rejected range was written to", &["C12", "C04"], format!("{:?}", op)).into());
                        }
                        self.note("bad range rejected");
                        Ok(())
                    }
                    Err(x) => Err(Stop::Fault(x)),
                    Ok(()) => Err(Viol::new("unacceptable index range accepted", &["C12", "C16"], format!("{:?}", op)).into()),
                }
            }
            Thrash { kind, n } => self.do_thrash(k, client, *kind, *n),
            Restart { .. } | Commit | Trap { .. } | Refuse { .. } | AuditLive | AuditShadow => self.step_inner(k, client, op),
        }
    }

    fn cmp_meta(&mut self, k: usize, i: Ino, m: &Metadata, how: &str) -> OpRes {
        let d = crate::audit::cmp_meta(&mut self.insts[k].model, i, m, false, how);
        self.result(&format!("meta {} {} {} {:?} {:?}", m.size, m.link_count, m.file_type as u8, m.times, m.maximum_size_allowed));
        if !d.is_empty() {
            return Err(Viol::from_discs(how, &d, &[]).into());
        }
        Ok(())
    }

    fn can_rw(&self, k: usize, fd: u32, right: u8) -> Result<Ino, E> {
        let m = &self.insts[k].model;
        let f = m.file_of(fd)?;
        if f.rights & right == 0 {
            return Err(e(&[PERM]));
        }
        Ok(f.ino)
    }

    #[allow(clippy::too_many_arguments)]
    fn do_write(&mut self, k: usize, op: &Op, fd: FdRef, pat: u64, lens: &[u32], at: Option<u64>, vec: bool) -> OpRes {
        let n = self.fdnum(k, fd);
        let can = self.can_rw(k, n, R_WRITE);
        self.check_cursor(k, n, "before write")?;
        let sum: u64 = lens.iter().map(|x| *x as u64).sum();
        let from = at.unwrap_or_else(|| self.insts[k].model.fds.get(&n).map(|f| f.cursor).unwrap_or(0));
        let mut upto = from;
        for l in lens {
            upto = upto.saturating_add(*l as u64);
            if sum > 0 && self.too_big_mounted(k, n, upto) {
                return self.skip();
            }
        }
        let total: usize = lens.iter().map(|x| *x as usize).sum();
        if total as u64 / 1024 > self.insts[k].model.chunk_size as u64 {
            self.stats.bump("probe:transfer of more than 1024 chunks");
        }
        let data = fill(pat, total);
        let mut exp: Result<(), E> = can.as_ref().map(|_| ()).map_err(|x| x.clone());
        let mut written = 0u64;
        let mut off = 0u64;
        let mut new_cursor = None;
        if let Ok(ino) = can {
            let f = self.insts[k].model.fds[&n].clone();
            let append = f.flags & F_APPEND != 0;
            let size = self.insts[k].model.ino(ino).a_size();
            off = match (append, at) {
                (true, _) => size,
                (false, Some(o)) => o,
                (false, None) => f.cursor,
            };
            let mut pos = 0usize;
            for l in lens {
                let l = *l as usize;
                match off.checked_add(pos as u64) {
                    None if l == 0 => {}
                    None => {
                        exp = Err(e(&[FBIG, INVAL]));
                        break;
                    }
                    Some(o) => match self.insts[k].model.write(&mut self.mems, ino, o, &data[pos..pos + l]) {
                        Ok(w) => {
                            pos += l;
                            written += w;
                        }
                        Err(x) => {
                            exp = Err(x);
                            break;
                        }
                    },
                }
            }
            if exp.is_ok() && at.is_none() {
                new_cursor = Some(off + written);
            }
        }
        let got = if !vec {
            self.call(k, |fs| fs.write(n, &data))?
        } else {
            let iov = src_iov(&data, lens);
            match at {
                None => self.call(k, |fs| fs.write_vec(n, &iov))?,
                Some(o) => self.call(k, |fs| fs.write_vec_with_offset(n, &iov, o))?,
            }
        };
        self.cmp(op, &exp, &got, &["C01"])?;
        if let (Ok(()), Ok(w)) = (&exp, &got) {
            if *w != written {
                let mut t = self.op_tags(k, op);
                if at.is_none() {
                    t.push("C08");
                }
                return Err(Viol::new("write length", &t, format!("{:?} at {} returned {} instead of {}", op, off, w, written)).into());
            }
            if let Some(c) = new_cursor {
                self.insts[k].model.fds.get_mut(&n).unwrap().cursor = c;
            }
        }
        self.check_cursor(k, n, "after write")
    }

    #[allow(clippy::too_many_arguments)]
    fn do_link(&mut self, k: usize, op: &Op, slot: u16, odir: FdRef, opath: &str, ndir: FdRef, npath: &str, rename: bool) -> OpRes {
        let (a, b) = (self.fdnum(k, odir), self.fdnum(k, ndir));
        let exp = self.insts[k].model.link(a, opath, b, npath, rename);
        let got = self.call(k, |fs| if rename { fs.rename(a, opath, b, npath) } else { fs.create_hard_link(a, opath, b, npath) })?;
        if let (Ok((_, RenameOk::Same)), Err(x)) = (&exp, &got) {
            // a refusal that changes nothing is acceptable when both names are the same object and it is mounted
            let n = err_name(x);
            if n == BUSY || n == DEVBUSY {
                self.note("link same refused");
                return Ok(());
            }
        }
        self.cmp(op, &exp.as_ref().map(|_| ()).map_err(|x| x.clone()), &got, &["C06"])?;
        if let (Ok((i, _)), Ok(fd)) = (exp, got) {
            let dir = self.insts[k].model.ino(i).dir;
            self.new_fd(k, slot, fd, MFd { ino: i, dir, cursor: 0, alt: None, flags: 0, rights: 3 })?;
        }
        Ok(())
    }

    /// entries from an index: (index, name, node, type)
    fn list(&mut self, k: usize, fd: u32, from: Option<u32>, max: u32) -> Result<Result<Vec<(u32, String, u64, Option<FileType>)>, Error>, Stop> {
        self.call(k, |fs| {
            let mut v = vec![];
            let r = fs.with_direntries(fd, from, &mut |i, en| {
                v.push((*i, en.name.to_string(), en.node, en.entry_type));
                (v.len() as u32) < max
            });
            r.map(|_| v)
        })
    }

    fn do_list(&mut self, k: usize, op: &Op, fd: FdRef, from: Option<u32>, max: u32) -> OpRes {
        let n = self.fdnum(k, fd);
        let d = self.insts[k].model.dir_of(n);
        let got = self.list(k, n, from, max.max(1))?;
        self.cmp(op, &d.as_ref().map(|_| ()).map_err(|x| x.clone()), &got, &["C03"])?;
        if let (Ok(d), Ok(list)) = (d, got) {
            let mut list = list;
            // "." and ".." come first
            let mut ndots = 0;
            let from = if from.is_none() || from == Some(DOT) || from == Some(DOT2) {
                let node = self.insts[k].model.ino(d).node;
                let dots: Vec<String> = list.iter().take(2).map(|x| x.1.clone()).collect();
                let all: &[&str] = if from == Some(DOT2) { &[".."] } else { &[".", ".."] };
                ndots = all.len();
                let want: Vec<String> = all.iter().take(max.max(1) as usize).map(|s| s.to_string()).collect();
                if dots.len() < want.len() || dots[..want.len()] != want[..] || (ndots == 2 && node.is_some() && Some(list[0].2) != node) {
                    return Err(Viol::new("dot entries", &["C03", "C11"], format!("{:?}", list.iter().take(2).collect::<Vec<_>>())).into());
                }
                list.drain(..list.len().min(ndots));
                None
            } else {
                from
            };
            let room = (max.max(1) as usize).saturating_sub(ndots);
            self.result(&format!("list {:?}", list.iter().map(|x| x.1.as_str()).collect::<Vec<_>>()));
            let dd = crate::audit::cmp_listing(&mut self.insts[k].model, d, &list, from.unwrap_or(0), room);
            if !dd.is_empty() {
                return Err(Viol::from_discs("list", &dd, &[]).into());
            }
        }
        Ok(())
    }

    fn do_scan(&mut self, k: usize, id: u16, n: u32) -> OpRes {
        let sc = match self.scans.get(&id) {
            Some(s) if s.fs == k => s.clone(),
            _ => return self.skip(),
        };
        if !self.insts[k].model.inodes.contains_key(&sc.ino) {
            self.scans.remove(&id);
            return self.skip();
        }
        // a descriptor of the directory, reopened if it is gone
        let have = self.insts[k].model.fds.iter().find(|(_, f)| f.ino == sc.ino).map(|(n, _)| *n);
        let mut opened = None;
        let fd = match have {
            Some(f) => f,
            None => {
                let p = self.insts[k].model.paths()[&sc.ino].clone();
                let r = self.call(k, |fs| {
                    let root = fs.root_fd();
                    fs.open(root, &p, FdStat::default(), OpenFlags::DIRECTORY, 0)
                })?;
                match r {
                    Ok(f) => {
                        opened = Some(f);
                        f
                    }
                    Err(x) => return Err(Viol::new("unexpected error from open", &["C16", "C03"], format!("{:?}: {:?}", p, x)).into()),
                }
            }
        };
        let want = n.max(1);
        let r = match sc.dots {
            Dots::Done => self.list(k, fd, Some(sc.next), want)?,
            Dots::Begin => self.list(k, fd, None, want)?,
            // the index seen last comes again
            Dots::At(i) => self.list(k, fd, Some(i), want + 1)?,
        };
        if let Some(f) = opened {
            let _ = self.call(k, |fs| fs.close(f))?;
        }
        let list = match r {
            Ok(l) => l,
            Err(x) => return Err(Viol::new("unexpected error from with_direntries", &["C16", "C11"], format!("{:?}", x)).into()),
        };
        let mut list = list;
        let mut sc = sc;
        let full = list.len() as u32 >= want + matches!(sc.dots, Dots::At(_)) as u32;
        if sc.dots != Dots::Done {
            let node = self.insts[k].model.ino(sc.ino).node;
            let skip = match sc.dots {
                Dots::Begin => 0,
                Dots::At(i) if i == DOT => 1,
                _ => 2,
            };
            let (names, idxs): (&[&str], &[u32]) = if skip == 2 { (&[".."], &[DOT2]) } else { (&[".", ".."], &[DOT, DOT2]) };
            let m = names.len().min(list.len());
            let good = !list.is_empty() && (0..m).all(|i| list[i].0 == idxs[i] && list[i].1 == names[i] && (idxs[i] != DOT || node.is_none() || node == Some(list[i].2)));
            let short = !full && list.len() < names.len();
            if !good || short {
                let d = format!("a scan at its beginning ({} of \".\" and \"..\" seen) returned {:?}", skip, list.iter().take(3).map(|x| (x.0, &x.1)).collect::<Vec<_>>());
                return Err(Viol::new("directory scan", &["C11"], d).into());
            }
            sc.dots = Dots::At(list[m - 1].0);
            list.drain(..m);
            if !list.is_empty() {
                sc.dots = Dots::Done;
            }
        }
        self.result(&format!("scan {:?}", list.iter().map(|x| x.1.as_str()).collect::<Vec<_>>()));
        let entries = self.insts[k].model.ino(sc.ino).entries.clone();
        for (idx, name, node, _) in list.iter() {
            let bad = |why: &str| -> Stop { Viol::new("directory scan", &["C11"], format!("entry {:?} index {}: {}", name, idx, why)).into() };
            if *idx < sc.next {
                return Err(bad("index before the position of the scan"));
            }
            let en = match entries.iter().find(|x| x.name == *name) {
                Some(en) => en,
                None => return Err(bad("is not in the directory")),
            };
            if let Some(i) = en.idx {
                if i != *idx {
                    return Err(bad(&format!("was at index {} before", i)));
                }
            } else {
                let eid = en.eid;
                let dm = self.insts[k].model.ino_mut(sc.ino);
                if let Some(x) = dm.entries.iter_mut().find(|x| x.eid == eid) {
                    x.idx = Some(*idx);
                }
            }
            if let Some(nn) = self.insts[k].model.ino(en.ino).node {
                if nn != *node {
                    return Err(bad(&format!("node {} instead of {}", node, nn)));
                }
            }
            if !sc.seen.insert(en.eid) {
                return Err(bad("seen twice"));
            }
            sc.next = idx.saturating_add(1);
        }
        if !full {
            // end of the scan: everything that was there all the time was seen
            for en in entries.iter() {
                if sc.start.contains(&en.eid) && !sc.seen.contains(&en.eid) {
                    return Err(Viol::new("directory scan", &["C11"], format!("entry {:?} was there all the time and was never returned", en.name)).into());
                }
            }
            self.stats.bump("probe:scan completed");
            if sc.seen.iter().any(|x| !sc.start.contains(x)) || sc.start.iter().any(|x| !entries.iter().any(|y| y.eid == *x)) {
                self.stats.bump("probe:scan completed over a changed directory");
            }
            self.scans.remove(&id);
        } else {
            self.scans.insert(id, sc);
        }
        Ok(())
    }

    /// push everything else out of one of the internal caches, through the public interface
    fn do_thrash(&mut self, k: usize, client: u8, kind: u8, n: u32) -> OpRes {
        let paths: Vec<(Ino, String)> = self.insts[k].model.paths().into_iter().filter(|x| !x.1.is_empty()).collect();
        match kind {
            0 => {
                // names: many spellings of existing names
                if paths.is_empty() {
                    return self.skip();
                }
                let root = self.fdnum(k, FdRef::Root);
                for i in 0..n {
                    let (ino, p) = &paths[i as usize % paths.len()];
                    let q = format!("{}{}", "./".repeat(1 + i as usize / paths.len()), p);
                    let r = self.call(k, |fs| fs.open_metadata(root, &q))?;
                    match r {
                        Ok(m) => {
                            let d = crate::audit::cmp_meta(&mut self.insts[k].model, *ino, &m, false, "open_metadata");
                            if !d.is_empty() {
                                return Err(Viol::from_discs("lookup", &d, &["C03"]).into());
                            }
                        }
                        Err(x) => return Err(Viol::new("unexpected error from open_metadata", &["C16", "C03"], format!("{:?}: {:?}", q, x)).into()),
                    }
                }
            }
            2 => {
                // metadata: more objects than the cache holds, one object changes all the while
                let root = FdRef::Root;
                let top = format!("many{}", client);
                let (a, slot) = (FdRef::Slot(4010 + client as u16), 4000 + client as u16);
                self.op(k, client, &Op::Mkdir { dir: root, path: top.clone(), t: 3 })?;
                self.op(k, client, &Op::Open { slot: 4010 + client as u16, dir: root, path: format!("{}/anchor", top), oflags: O_CREATE, fflags: 0, rights: 3, t: 4 })?;
                for i in 0..n {
                    let d = format!("{}/d{}", top, i / 40);
                    if i % 40 == 0 {
                        self.op(k, client, &Op::Mkdir { dir: root, path: d.clone(), t: 3 })?;
                    }
                    if i % 3 == 0 {
                        self.op(k, client, &Op::Mkdir { dir: root, path: format!("{}/{}", d, i), t: 3 })?;
                    } else {
                        self.op(k, client, &Op::Open { slot, dir: root, path: format!("{}/{}", d, i), oflags: O_CREATE, fflags: 0, rights: 3, t: 6 })?;
                        self.op(k, client, &Op::Close { fd: FdRef::Slot(slot) })?;
                    }
                    let change = match i % 4 {
                        0 => Op::SetATime { fd: a, t: i as u64 + 10 },
                        1 => Op::Write { fd: a, pat: i as u64 + 1, len: 9 },
                        2 => Op::SetSize { fd: a, size: i as u64 * 3 },
                        _ => Op::SetLimit { fd: a, limit: 1 << 20 | i as u64 },
                    };
                    self.op(k, client, &change)?;
                    self.op(k, client, &Op::Meta { fd: a })?;
                }
                self.op(k, client, &Op::Close { fd: a })?;
                self.op(k, client, &Op::RemoveRec { dir: root, path: top })?;
            }
            3 => {
                // names: a file moves, goes and comes back while the cache fills
                let root = FdRef::Root;
                let top = format!("names{}", client);
                let slot = 4000 + client as u16;
                self.op(k, client, &Op::Mkdir { dir: root, path: top.clone(), t: 3 })?;
                for d in ["a", "b"] {
                    self.op(k, client, &Op::Mkdir { dir: root, path: format!("{}/{}", top, d), t: 3 })?;
                }
                let p = |d: &str| format!("{}/{}/x", top, d);
                self.op(k, client, &Op::Open { slot, dir: root, path: p("a"), oflags: O_CREATE, fflags: 0, rights: 3, t: 6 })?;
                self.op(k, client, &Op::Close { fd: FdRef::Slot(slot) })?;
                let mut at = "a";
                for i in 0..n {
                    let other = if at == "a" { "b" } else { "a" };
                    match i % 5 {
                        0 | 3 => {
                            self.op(k, client, &Op::Rename { slot, odir: root, opath: p(at), ndir: root, npath: p(other) })?;
                            at = other;
                        }
                        1 => self.op(k, client, &Op::RemoveFile { dir: root, path: p(at) })?,
                        2 => {
                            self.op(k, client, &Op::Open { slot, dir: root, path: p(at), oflags: O_CREATE, fflags: 0, rights: 3, t: i as u64 })?;
                            self.op(k, client, &Op::Close { fd: FdRef::Slot(slot) })?;
                        }
                        _ => {
                            let old = format!("{}/{}", top, at);
                            self.op(k, client, &Op::Rename { slot, odir: root, opath: old, ndir: root, npath: format!("{}/z", top) })?;
                            self.op(k, client, &Op::OpenMeta { dir: root, path: p("z") })?;
                            self.op(k, client, &Op::OpenMeta { dir: root, path: p(at) })?;
                            self.op(k, client, &Op::Rename { slot, odir: root, opath: format!("{}/z", top), ndir: root, npath: format!("{}/{}", top, at) })?;
                        }
                    }
                    for d in ["a", "b"] {
                        self.op(k, client, &Op::OpenMeta { dir: root, path: p(d) })?;
                    }
                    self.op(k, client, &Op::Mkdir { dir: root, path: format!("{}/f{}", top, i % 120), t: 3 })?;
                    self.op(k, client, &Op::OpenMeta { dir: root, path: format!("{}/f{}", top, i % 120) })?;
                }
                self.op(k, client, &Op::RemoveRec { dir: root, path: top })?;
            }
            5 => {
                // what the caches hold is bounded: new places and new spellings of names for ever, twice as many
                // of them do not take more memory
                if std::mem::replace(&mut self.caches_filled, true) || self.insts[k].model.transient {
                    return self.skip();
                }
                let name = format!("places{}", client);
                let slot = 4000 + client as u16;
                let fd = FdRef::Slot(slot);
                self.op(k, client, &Op::Open { slot, dir: FdRef::Root, path: name.clone(), oflags: O_CREATE, fflags: 0, rights: 3, t: 5 })?;
                self.op(k, client, &Op::SetSize { fd, size: 1 << 43 })?;
                let (root, num) = (self.fdnum(k, FdRef::Root), self.fdnum(k, fd));
                let mut held = vec![];
                for i in 0..2 * n as u64 {
                    let place = (i * 2654435761) % (1 << 43);
                    let mut b = [9u8; 3];
                    let r = self.call(k, |fs| {
                        let v = [DstBuf { buf: b.as_mut_ptr(), len: 3 }];
                        fs.read_vec_with_offset(num, &v, place)
                    });
                    let r = match r {
                        Err(Stop::Fault(Fault::Work(d))) => return Err(Viol::new("caches keep growing", &["C07", "C15"], d).into()),
                        r => r?,
                    };
                    if r.is_ok() && b != [0; 3] {
                        return Err(Viol::new("content", &["C01"], format!("a place never written of {:?} reads {:?}", name, b)).into());
                    }
                    for j in 0..8u64 {
                        let bits = i * 8 + j;
                        let q: String = (0..20).map(|x| if bits >> x & 1 == 1 { "./" } else { ".//" }).collect::<String>() + &name;
                        self.call(k, |fs| fs.open_metadata(root, &q))?.ok();
                    }
                    if i % n as u64 == n as u64 - 1 {
                        held.push(crate::alloc::tagged());
                    }
                }
                self.op(k, client, &Op::Close { fd })?;
                self.op(k, client, &Op::RemoveFile { dir: FdRef::Root, path: name })?;
                self.stats.bump("probe:bounded caches");
                if held[1] - held[0] > 1 << 20 {
                    return Err(Viol::new("caches keep growing", &["C07"], format!("heap bytes held after looking at {} and {} places and names: {:?}", n, 2 * n, held)).into());
                }
            }
            6 => {
                // a memory of more than 4 GiB (sparse), mounted with every policy
                if self.capped {
                    return self.skip();
                }
                let name = format!("large{}", client);
                let slot = 4000 + client as u16;
                let root = self.fdnum(k, FdRef::Root);
                self.op(k, client, &Op::Open { slot, dir: FdRef::Root, path: name.clone(), oflags: O_CREATE, fflags: 0, rights: 3, t: 5 })?;
                self.op(k, client, &Op::Write { fd: FdRef::Slot(slot), pat: 77, len: 20_000 })?;
                let fd = self.fdnum(k, FdRef::Slot(slot));
                let pages = 65536 + n as u64;
                let mem = SimMemory::new(self.ctl.clone());
                mem.grow(pages);
                let place = (1u64 << 32) + n as u64 * 7;
                let bad = |d: String| -> Stop { Viol::new("large memory", &["C09"], d).into() };
                // (policy, size expected)
                let all = pages * WASM;
                let table = [
                    (MountedFileSizePolicy::MemoryPages, all),
                    (MountedFileSizePolicy::Explicit(place + 50), place + 50),
                    (MountedFileSizePolicy::PreviousOrZero, place + 50),
                    (MountedFileSizePolicy::PreviousOrMemoryPages, place + 50),
                    (MountedFileSizePolicy::MemoryPages, all),
                    (MountedFileSizePolicy::PreviousOrZero, all),
                ];
                for (i, (policy, size)) in table.into_iter().enumerate() {
                    let what = format!("mount {} of a memory of {} pages", i, pages);
                    self.call(k, |fs| fs.mount_memory_file(&name, Box::new(mem.clone()), policy))?.map_err(|e| bad(format!("{}: {:?}", what, e)))?;
                    let m = self.call(k, |fs| fs.open_metadata(root, &name))?.map_err(|e| bad(format!("{}: {:?}", what, e)))?;
                    if m.size != size {
                        return Err(bad(format!("{}: size {} instead of {}", what, m.size, size)));
                    }
                    let at = place + i as u64;
                    mem.write(at, &[i as u8 + 1; 9]);
                    mem.write(at & 0xffff_ffff, &[99; 9]);
                    let mut b = [0u8; 12];
                    let r = self.call(k, |fs| fs.read_vec_with_offset(fd, &[DstBuf { buf: b.as_mut_ptr(), len: 9 }], at))?;
                    if r != Ok(9) || b[..9] != [i as u8 + 1; 9] {
                        return Err(bad(format!("{}: {:?} {:?} read at {}", what, r, b, at)));
                    }
                    let w = [200 + i as u8; 9];
                    let r = self.call(k, |fs| fs.write_vec_with_offset(fd, &[SrcBuf { buf: w.as_ptr(), len: 9 }], at + 20))?;
                    mem.read(at + 20, &mut b);
                    let mut c = [0u8; 9];
                    mem.read(at & 0xffff_ffff, &mut c);
                    if r != Ok(9) || b[..9] != w || c != [99; 9] {
                        return Err(bad(format!("{}: {:?} written at {}, the memory has {:?}", what, r, at + 20, b)));
                    }
                    if self.call(k, |fs| fs.unmount_memory_file(&name))?.is_err() {
                        return Err(bad(format!("{}: unmount refused", what)));
                    }
                }
                if mem.size() != pages {
                    return Err(bad(format!("the memory has {} pages instead of {}", mem.size(), pages)));
                }
                self.op(k, client, &Op::ReadAt { fd: FdRef::Slot(slot), lens: vec![20_001], off: 0 })?;
                self.op(k, client, &Op::Meta { fd: FdRef::Slot(slot) })?;
                self.op(k, client, &Op::Close { fd: FdRef::Slot(slot) })?;
                self.op(k, client, &Op::RemoveFile { dir: FdRef::Root, path: name })?;
                self.stats.bump("probe:memories above 4 GiB");
            }
            7 => {
                // many names and many descriptors of one file
                let root = FdRef::Root;
                let top = format!("same{}", client);
                let slot = 4000 + client as u16;
                let a = FdRef::Slot(slot);
                self.op(k, client, &Op::Mkdir { dir: root, path: top.clone(), t: 3 })?;
                self.op(k, client, &Op::Open { slot, dir: root, path: format!("{}/a", top), oflags: O_CREATE, fflags: 0, rights: 3, t: 4 })?;
                self.op(k, client, &Op::Write { fd: a, pat: 5, len: 5000 })?;
                self.op(k, client, &Op::Close { fd: a })?;
                for i in 0..n as u16 {
                    self.op(k, client, &Op::Link { slot: 5000 + i, odir: root, opath: format!("{}/a", top), ndir: root, npath: format!("{}/l{}", top, i) })?;
                }
                self.op(k, client, &Op::OpenMeta { dir: root, path: format!("{}/a", top) })?;
                for i in 0..n as u16 {
                    self.op(k, client, &Op::RemoveFile { dir: root, path: format!("{}/l{}", top, i) })?;
                }
                self.op(k, client, &Op::OpenMeta { dir: root, path: format!("{}/a", top) })?;
                // open everywhere, the last one protects it
                for i in 0..n as u16 {
                    self.op(k, client, &Op::RemoveFile { dir: root, path: format!("{}/a", top) })?;
                    self.op(k, client, &Op::Close { fd: FdRef::Slot(5000 + i) })?;
                }
                self.op(k, client, &Op::OpenMeta { dir: root, path: format!("{}/a", top) })?;
                self.op(k, client, &Op::RemoveRec { dir: root, path: top })?;
            }
            4 => {
                // pointers: chunks of a file come and go while the cache fills
                let name = format!("holes{}", client);
                let slot = 4000 + client as u16;
                let a = FdRef::Slot(4010 + client as u16);
                self.op(k, client, &Op::Open { slot, dir: FdRef::Root, path: format!("{}.s", name), oflags: O_CREATE, fflags: 0, rights: 3, t: 5 })?;
                self.op(k, client, &Op::SetSize { fd: FdRef::Slot(slot), size: 1 << 36 })?;
                self.op(k, client, &Op::Open { slot: 4010 + client as u16, dir: FdRef::Root, path: name.clone(), oflags: O_CREATE, fflags: 0, rights: 3, t: 5 })?;
                let cs = 16384;
                for i in 0..n as u64 {
                    self.op(k, client, &Op::ReadAt { fd: FdRef::Slot(slot), lens: vec![3], off: i * (1 << 28) / 2 + 17 })?;
                    let c = mix(i) % 12;
                    let off = c * cs + mix(i ^ 5) % cs;
                    match i % 4 {
                        0 | 2 => self.op(k, client, &Op::WriteAt { fd: a, pat: i * 2 + 1, lens: vec![40], off })?,
                        1 => self.op(k, client, &Op::SetSize { fd: a, size: off })?,
                        _ => self.op(k, client, &Op::SetSize { fd: a, size: 12 * cs })?,
                    }
                    self.op(k, client, &Op::ReadAt { fd: a, lens: vec![50], off: off.saturating_sub(5) })?;
                    self.op(k, client, &Op::ReadAt { fd: a, lens: vec![20], off: (mix(i ^ 9) % 12) * cs })?;
                }
                for fd in [a, FdRef::Slot(slot)] {
                    self.op(k, client, &Op::Close { fd })?;
                }
                self.op(k, client, &Op::RemoveFile { dir: FdRef::Root, path: name.clone() })?;
                self.op(k, client, &Op::RemoveFile { dir: FdRef::Root, path: format!("{}.s", name) })?;
            }
            _ => {
                // pointers: touch many places of a huge sparse file
                let name = format!("thrash{}", client);
                let slot = 4000 + client as u16;
                self.op(k, client, &Op::Open { slot, dir: FdRef::Root, path: name, oflags: O_CREATE, fflags: 0, rights: 3, t: 5 })?;
                self.op(k, client, &Op::SetSize { fd: FdRef::Slot(slot), size: 1 << 36 })?;
                for i in 0..n as u64 {
                    self.op(k, client, &Op::ReadAt { fd: FdRef::Slot(slot), lens: vec![3], off: i * (1 << 28) / 2 + 17 })?;
                }
                self.op(k, client, &Op::Close { fd: FdRef::Slot(slot) })?;
            }
        }
        self.stats.bump("probe:cache thrashed");
        Ok(())
    }
}

fn m_transient(i: &Inst) -> bool {
    i.model.transient
}

pub fn dst_iov(buf: &mut [u8], lens: &[u32]) -> Vec<DstBuf> {
    let mut v = vec![];
    let mut pos = 0usize;
    let base = buf.as_mut_ptr();
    for l in lens {
        assert!(pos + *l as usize <= buf.len());
        v.push(DstBuf { buf: unsafe { base.add(pos) }, len: *l as usize });
        pos += *l as usize;
    }
    v
}

pub fn src_iov(buf: &[u8], lens: &[u32]) -> Vec<SrcBuf> {
    let mut v = vec![];
    let mut pos = 0usize;
    let base = buf.as_ptr();
    for l in lens {
        assert!(pos + *l as usize <= buf.len());
        v.push(SrcBuf { buf: unsafe { base.add(pos) }, len: *l as usize });
        pos += *l as usize;
    }
    v
}
