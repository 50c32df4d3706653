//! Seeded generation of configurations and of the operations of several simulated clients.
use crate::disk::WASM;
use crate::model::*;
use crate::ops::*;
use crate::prng::{mix, Rng};
use crate::world::World;
use std::collections::VecDeque;

/// relative weights of the groups of operations
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum G {
    Open,
    Mkdir,
    Close,
    Read,
    Write,
    Seek,
    Size,
    Look,
    Attr,
    Remove,
    Link,
    Rename,
    List,
    Scan,
    Mount,
    MemOwner,
    FdOps,
    Script,
    Chunk,
    Thrash,
    CoTenant,
    Bad,
    N,
}
const NG: usize = G::N as usize;

#[derive(Clone)]
pub struct Prof {
    pub w: [u32; NG],
    /// per mille
    pub trap: u32,
    pub refuse: u32,
    pub restart: u32,
    pub audit: u32,
    pub extreme: u32,
    /// percent
    pub transient: u32,
    pub two: u32,
    pub cot: u32,
    pub mems: u32,
    pub legacy: u32,
    pub shadow_every: u32,
    pub audit_failures: u32,
    pub steps: (u64, u64),
    pub clients: u64,
}

pub fn profile(prop: &str) -> Prof {
    use G::*;
    let mut p = Prof {
        w: [0; NG],
        trap: 4,
        refuse: 4,
        restart: 15,
        audit: 20,
        extreme: 20,
        transient: 20,
        two: 6,
        cot: 10,
        mems: 30,
        legacy: 8,
        shadow_every: 12,
        audit_failures: 15,
        steps: (20, 140),
        clients: 4,
    };
    let base: [(G, u32); 22] = [
        (Open, 14),
        (Mkdir, 5),
        (Close, 5),
        (Read, 8),
        (Write, 16),
        (Seek, 4),
        (Size, 6),
        (Look, 6),
        (Attr, 5),
        (Remove, 6),
        (Link, 3),
        (Rename, 4),
        (List, 3),
        (Scan, 3),
        (Mount, 3),
        (MemOwner, 2),
        (FdOps, 4),
        (Script, 4),
        (Chunk, 1),
        (Thrash, 1),
        (CoTenant, 1),
        (Bad, 3),
    ];
    for (g, v) in base {
        p.w[g as usize] = v;
    }
    let mut set = |l: &[(G, u32)]| {
        for (g, v) in l {
            p.w[*g as usize] = *v;
        }
    };
    match prop {
        "C01" => {
            set(&[(Read, 24), (Write, 40), (Size, 18), (Mkdir, 2), (Rename, 1), (Link, 1), (Mount, 1), (Scan, 0), (List, 0), (Attr, 2), (Chunk, 3), (Remove, 3)]);
            p.extreme = 60;
            p.shadow_every = 5;
            p.legacy = 12;
        }
        "C02" => {
            set(&[(Write, 20), (Size, 8), (Attr, 8), (Chunk, 2)]);
            p.restart = 60;
            p.shadow_every = 60;
            p.transient = 0;
            p.legacy = 10;
            p.trap = 0;
            p.refuse = 0;
        }
        "C03" => {
            set(&[(Open, 20), (Mkdir, 14), (Look, 26), (Remove, 16), (Rename, 9), (Link, 5), (List, 9), (Write, 4), (Size, 1), (Read, 1), (Thrash, 3), (Script, 8)]);
        }
        "C04" => {
            set(&[(Bad, 40), (Rename, 8), (Link, 6), (Remove, 8), (Mount, 5), (Attr, 9), (Size, 8)]);
            p.audit_failures = 100;
            p.extreme = 60;
            p.trap = 0;
            p.refuse = 0;
        }
        "C05" => {
            p.trap = 120;
            p.refuse = 160;
            p.transient = 0;
            p.steps = (15, 90);
            p.shadow_every = 10;
            p.mems = 60;
            set(&[(Mount, 5), (Script, 8)]);
        }
        "C06" => {
            set(&[(Rename, 34), (Link, 24), (Remove, 12), (Open, 18), (Mkdir, 10), (Look, 10), (Mount, 3), (Script, 8), (Write, 10)]);
        }
        "C07" => {
            set(&[(Scan, 0), (Thrash, 0), (CoTenant, 0), (Bad, 6), (Remove, 8), (Size, 10), (Rename, 7), (Chunk, 2), (MemOwner, 1), (Script, 3)]);
            p.trap = 0;
            p.refuse = 0;
            p.restart = 10;
            p.audit = 0;
            p.shadow_every = 0;
            p.audit_failures = 0;
            p.two = 0;
            p.legacy = 0;
            p.transient = 25;
            p.steps = (8, 36);
            p.extreme = 8;
        }
        "C08" => {
            set(&[(FdOps, 36), (Close, 16), (Open, 26), (Seek, 16), (Read, 12), (Write, 16), (Remove, 8), (Rename, 5), (Script, 2), (Link, 3)]);
            p.extreme = 50;
        }
        "C09" => {
            set(&[(Mount, 40), (MemOwner, 12), (Write, 20), (Read, 12), (Size, 10), (Attr, 8), (Remove, 5), (Rename, 5), (Link, 3)]);
            p.mems = 100;
            p.restart = 30;
            p.steps = (20, 120);
        }
        "C10" => {
            set(&[(Attr, 40), (Size, 20), (Look, 16), (Mount, 6), (Link, 4), (Rename, 4)]);
            p.extreme = 60;
            p.mems = 40;
        }
        "C11" => {
            set(&[(Scan, 40), (Open, 18), (Remove, 16), (Mkdir, 8), (Rename, 10), (Link, 6), (List, 8), (Write, 2), (Size, 0), (Read, 0), (Script, 6), (Seek, 0)]);
            p.restart = 25;
        }
        "C12" => {
            set(&[(CoTenant, 20), (Write, 24), (Bad, 5)]);
            p.two = 45;
            p.cot = 100;
            p.transient = 0;
            p.mems = 40;
            p.legacy = 0;
            p.trap = 8;
        }
        "C13" => {
            set(&[(Write, 24), (Read, 16), (Size, 14), (Mount, 6), (Look, 10), (Remove, 8), (Rename, 6), (Open, 20)]);
            p.legacy = 100;
            p.transient = 0;
            p.two = 0;
            p.cot = 0;
            p.mems = 50;
            p.restart = 25;
            p.steps = (5, 80);
            p.shadow_every = 20;
        }
        "C14" => {
            set(&[(Chunk, 6), (Thrash, 3), (Write, 24), (Size, 12), (Read, 14)]);
            p.trap = 0;
            p.refuse = 0;
            p.legacy = 0;
            p.two = 0;
            p.cot = 0;
            p.transient = 0;
            p.shadow_every = 0;
        }
        "golden" => {
            set(&[(Open, 24), (Mkdir, 8), (Write, 30), (Size, 6), (Attr, 8), (Remove, 3), (Link, 3), (Rename, 3), (Thrash, 0), (CoTenant, 0), (Bad, 0), (Script, 0), (Mount, 5)]);
            p.trap = 0;
            p.refuse = 0;
            p.transient = 0;
            p.two = 0;
            p.cot = 0;
            p.legacy = 0;
            p.extreme = 0;
            p.mems = 60;
            p.steps = (30, 90);
        }
        "C15" => {
            p.extreme = 350;
            set(&[(Bad, 20), (Seek, 12), (Size, 12), (Read, 14), (FdOps, 12)]);
            p.trap = 0;
            p.refuse = 0;
        }
        "C16" => {
            p.extreme = 80;
            set(&[(Bad, 30), (Look, 12), (Rename, 9), (Link, 6), (Remove, 10), (FdOps, 8), (Mount, 5)]);
        }
        _ => {}
    }
    p
}

pub struct Client {
    pub script: VecDeque<Op>,
    pub skew: i64,
    pub seq: u64,
}

pub struct Gen {
    pub r: Rng,
    pub p: Prof,
    pub names: Vec<String>,
    pub recent: VecDeque<String>,
    pub clients: Vec<Client>,
    pub clock: u64,
    pub left: u64,
    pub big: u64,
    pub deep: u64,
    pub bulk: u64,
    pub caches: bool,
    /// how many names and descriptors one file gets (once in the run), or pages of a memory above 4 GiB
    pub many: u32,
    pub large_memory: bool,
    pub since_commit: u64,
    pub pat: u64,
    pub slow: Option<usize>,
    tail: VecDeque<Step>,
}

fn pct(r: &mut Rng, p: u32) -> bool {
    r.below(100) < p as u64
}

pub fn gen_config(r: &mut Rng, prop: &str, p: &Prof) -> Config {
    let legacy = pct(r, p.legacy);
    let transient = !legacy && pct(r, p.transient);
    let mut used: Vec<(u32, u32)> = vec![];
    fn take(r: &mut Rng, used: &mut Vec<(u32, u32)>, len: u32) -> Option<u32> {
        for _ in 0..50 {
            let s = match r.below(4) {
                0 => r.below(12) as u32,
                1 => 244 - r.below(12) as u32,
                2 => match used.last() {
                    Some((s, l)) => s + l,
                    None => 10,
                },
                _ => r.below(245) as u32,
            };
            if s + len <= 254 && used.iter().all(|(a, l)| s + len <= *a || a + l <= s) {
                used.push((s, len));
                return Some(s);
            }
        }
        None
    }
    let chunk = |r: &mut Rng| -> Option<u32> {
        if r.chance(1, 3) {
            None
        } else {
            Some(*r.pick(&[4096u32, 8192, 16384, 32768, 65536]))
        }
    };
    let mut fss = vec![];
    let mut base = Base::Fresh;
    let golden = crate::legacy::golden_names();
    if legacy {
        if !golden.is_empty() && r.chance(2, 5) {
            base = Base::Golden { name: r.pick(&golden).clone(), modern: false };
        } else {
            base = Base::Legacy { seed: r.next(), modern: false };
        }
    }
    let two = !legacy && !transient && pct(r, p.two);
    let is_golden = matches!(base, Base::Golden { .. });
    let own = !legacy && !transient && !two && r.chance(1, 7);
    let n = if two { 2 } else { 1 };
    for k in 0..n {
        let range_len = if r.chance(1, 3) { r.range(10, 20) as u32 } else { 10 };
        let (start, range_len) = if is_golden {
            used.push((10, 10));
            (10, 10)
        } else if own {
            used.push((229, 10));
            (229, 10)
        } else {
            match take(r, &mut used, range_len) {
                Some(s) => (s, range_len),
                None => (if k == 0 { 20 } else { 60 }, 10),
            }
        };
        fss.push(FsConfig { transient, own_manager: own, start: start as u8, range_len: range_len as u8, chunk_size: if legacy { None } else { chunk(r) }, v1: r.chance(1, 5) });
    }
    let mut mems = vec![];
    if pct(r, p.mems) {
        for _ in 0..r.range(1, 3) {
            // the footprint of a history must not count what it mounts
            if own || transient || is_golden || prop == "C07" || r.chance(1, 2) {
                mems.push(MemSpec::Separate);
            } else {
                match take(r, &mut used, 1) {
                    Some(s) => mems.push(MemSpec::Managed(s as u8)),
                    None => mems.push(MemSpec::Separate),
                }
            }
        }
    }
    let mut cotenants = vec![];
    if !legacy && !transient && pct(r, p.cot) {
        // next to the file system's range, and anywhere
        let mut cand: Vec<u32> = vec![];
        for f in fss.iter() {
            if f.start > 0 {
                cand.push(f.start as u32 - 1);
            }
            cand.push(f.start as u32 + 10);
        }
        cand.push(r.below(254) as u32);
        cand.push(0);
        cand.push(253);
        for c in cand {
            if c < 254 && r.chance(2, 3) {
                // the file system uses the first ten of its range
                let hits_fs = fss.iter().any(|f| c >= f.start as u32 && c < f.start as u32 + 10);
                let hits_mem = mems.iter().any(|m| *m == MemSpec::Managed(c as u8));
                if !hits_fs && !hits_mem && !cotenants.contains(&(c as u8)) {
                    cotenants.push(c as u8);
                }
            }
        }
    }
    Config {
        fss,
        bucket: if is_golden { 1 } else { *r.pick(&[1u16, 2, 3, 4, 8, 16, 128]) },
        hash_seed: r.next(),
        mems,
        cotenants,
        base,
        shadow_every: pct(r, p.shadow_every),
        audit_failures: pct(r, p.audit_failures),
        audit_deep: r.chance(1, 6),
        cycles: 1,
    }
}

fn legacy_like(cfg: &Config) -> bool {
    cfg.base != Base::Fresh
}

impl Gen {
    pub fn new(seed: u64, prop: &str) -> (Gen, Config) {
        let mut r = Rng::new(seed);
        let mut p = profile(prop);
        let mut cfg = gen_config(&mut r, prop, &p);
        // swarm: some groups are absent or dominant in this run
        for w in p.w.iter_mut() {
            match r.below(6) {
                0 => *w /= 4,
                1 => *w = (*w * 5) / 2,
                _ => {}
            }
        }
        for w in [&mut p.trap, &mut p.refuse, &mut p.restart, &mut p.extreme] {
            match r.below(4) {
                0 => *w = 0,
                1 => *w *= 2,
                _ => {}
            }
        }
        // without a restart the history can be repeated on the transient storage
        if cfg.fss[0].transient || (prop == "C14" && r.chance(1, 3)) {
            p.restart = 0;
        }
        let mut names: Vec<String> = vec![];
        let n = *r.pick(&[2u64, 3, 4, 6, 10, 30]);
        for i in 0..n {
            names.push(match r.below(10) {
                0 => {
                    let l = r.range(250, 255) as usize;
                    let c = (b'a' + (i % 26) as u8) as char;
                    let mut s: String = std::iter::repeat(c).take(l - 1).collect();
                    s.push((b'0' + (i % 10) as u8) as char);
                    s
                }
                1 => format!("имя{}", i),
                2 => format!("...{}", i),
                3 => format!("x y\t{}\u{0}\u{1}", i),
                4 => "n".repeat(i as usize + 1),
                _ => format!("{}", (b'a' + (i % 26) as u8) as char),
            });
        }
        names.dedup();
        let clients = r.range(1, p.clients) as usize;
        let mut left = r.range(p.steps.0, p.steps.1);
        // many objects: sometimes some hundred, rarely more than any cache holds
        let often = matches!(prop, "C11" | "C03");
        let often = if often { 120 } else if matches!(prop, "C14" | "C10" | "C02" | "C04") { 250 } else { 600 };
        let big = match r.below(often) {
            _ if prop == "C07" => 0,
            0 => r.range(1005, 1300),
            1 | 2 => r.range(250, 700),
            3..=5 => r.range(70, 250),
            _ => 0,
        };
        // the caches fill up only while the program runs on
        if big > 1000 && r.chance(3, 4) {
            p.restart = 0;
            p.trap = 0;
            p.refuse = 0;
        }
        let deep = if prop == "C15" && r.chance(1, 120) { r.range(2000, 5000) } else { 0 };
        // much data: transfers of more chunks than are looked up at once, rarely more than the pointer cache holds
        let mem_file = matches!(prop, "C01" | "C07" | "C14" | "C02" | "C15");
        let caches = prop == "C07" && crate::prng::mix(cfg.hash_seed ^ 0xcac4e) % 100 == 0;
        let mut bulk = match r.below(if prop == "C07" { 160 } else if mem_file { 300 } else { 1500 }) {
            _ if legacy_like(&cfg) => 0,
            0 if prop == "C07" && r.chance(2, 3) => r.range(66 << 20, 86 << 20),
            0 if prop == "C14" && r.chance(2, 3) => 0,
            0 => r.range(41 << 20, 46 << 20),
            1..=3 => r.range(4 << 20, 13 << 20),
            _ => 0,
        };
        if bulk > (20 << 20) {
            cfg.fss[0].chunk_size = Some(4096);
            cfg.fss[0].v1 = false;
            left = left.min(40);
        }
        if prop == "C07" && bulk > 0 {
            left = r.range(4, 10);
        }
        if cfg.fss.len() > 1 {
            bulk = 0;
        }
        if big > 0 || deep > 0 || bulk > 0 {
            left += 60 + big / 4;
            cfg.shadow_every = false;
            cfg.audit_failures = false;
        }
        if r.chance(1, 25) && prop != "C07" {
            left *= 4;
        }
        let clients = (0..clients)
            .map(|_| Client {
                script: VecDeque::new(),
                skew: match r.below(4) {
                    0 => r.below(1 << 50) as i64,
                    1 => -(r.below(1 << 40) as i64),
                    _ => 0,
                },
                seq: 0,
            })
            .collect();
        let clock = match r.below(8) {
            0 => 0,
            1 => u64::MAX - r.below(1000),
            _ => 1_700_000_000_000_000_000 + r.below(1 << 50),
        };
        let pat = r.next() >> 1;
        let h = crate::prng::mix(cfg.hash_seed ^ 0x3a9e);
        let many = if matches!(prop, "C06" | "C08" | "C09" | "C10") && h % 40 == 0 { 1 + (h >> 32) as u32 % 320 } else { 0 };
        let g = Gen { many, large_memory: prop == "C09", r, p, names, recent: VecDeque::new(), clients, clock, left, big, deep, bulk, caches, since_commit: 0, pat, slow: None, tail: VecDeque::new() };
        (g, cfg)
    }

    fn time(&mut self, w: &mut World, client: usize) -> u64 {
        match self.r.below(40) {
            0 => 0,
            1 => u64::MAX,
            2 => {
                // the clock jumps back
                self.clock = self.clock.saturating_sub(self.r.below(1 << 45));
                w.stats.bump("fault:clock jumped back");
                self.clock
            }
            3 => {
                let d = self.r.below(1 << 45);
                self.clock = self.clock.saturating_add(d);
                w.stats.sim_ns = w.stats.sim_ns.saturating_add(d);
                w.stats.bump("fault:clock jumped forward");
                self.clock
            }
            _ => {
                let d = self.r.below(2_000_000_000);
                self.clock = self.clock.saturating_add(d);
                w.stats.sim_ns = w.stats.sim_ns.saturating_add(d);
                let s = self.clients[client].skew;
                if s != 0 {
                    w.stats.bump("fault:client clock skewed");
                }
                self.clock.wrapping_add(s as u64)
            }
        }
    }

    fn name(&mut self) -> String {
        if self.r.chance(1, 25) {
            format!("u{}", self.r.below(1000))
        } else {
            self.r.pick(&self.names).clone()
        }
    }

    /// walk down from a directory; stops at a random level
    fn walk(&mut self, m: &Model, from: Ino, want: u8) -> Option<String> {
        // want: 0 any, 1 file, 2 directory
        let mut best = None;
        for _ in 0..4 {
            let mut cur = from;
            let mut path: Vec<&str> = vec![];
            loop {
                let n = m.ino(cur);
                if !n.dir || n.entries.is_empty() {
                    break;
                }
                if !path.is_empty() && self.r.chance(if want == 1 { 1 } else { 4 }, 8) {
                    break;
                }
                let en = &n.entries[self.r.below(n.entries.len() as u64) as usize];
                path.push(&en.name);
                cur = en.ino;
            }
            if path.is_empty() {
                return best;
            }
            let ok = match want {
                1 => !m.ino(cur).dir,
                2 => m.ino(cur).dir,
                _ => true,
            };
            let s = path.join("/");
            if ok {
                return Some(s);
            }
            if want == 2 && path.len() > 1 {
                path.pop();
                return Some(path.join("/"));
            }
            if best.is_none() {
                best = Some(s);
            }
        }
        best
    }

    fn new_path(&mut self, m: &Model, from: Ino) -> String {
        let mut s = String::new();
        if self.r.chance(1, 2) {
            if let Some(d) = self.walk(m, from, 2) {
                s = d;
            }
        }
        let extra = match self.r.below(14) {
            0 => 2,
            1 => 3,
            _ => 1,
        };
        for _ in 0..extra {
            let n = self.name();
            if !s.is_empty() {
                s.push('/');
            }
            s.push_str(&n);
        }
        s
    }

    fn spell(&mut self, p: String) -> String {
        if !self.r.chance(1, 4) {
            return p;
        }
        match self.r.below(9) {
            0 => format!("./{}", p),
            1 => format!("{}/", p),
            2 => p.replacen('/', "//", 1),
            3 => p.replacen('/', "/./", 1),
            4 => {
                let n = self.name();
                format!("{}/../{}", n, p)
            }
            5 => {
                let n = self.name();
                format!("{}/{}/..", p, n)
            }
            6 => format!("{}/.", p),
            7 => format!(".//{}", p),
            _ => {
                // through the parent and back
                match p.rfind('/') {
                    Some(i) => format!("{}/zz/../{}", &p[..i], &p[i + 1..]),
                    None => p,
                }
            }
        }
    }

    fn path(&mut self, m: &Model, from: Ino, want: u8, new_pct: u64) -> String {
        let p = if !self.recent.is_empty() && self.r.chance(1, 7) {
            let i = self.r.below(self.recent.len() as u64) as usize;
            self.recent[i].clone()
        } else if self.r.below(100) < new_pct {
            self.new_path(m, from)
        } else {
            match self.walk(m, from, want) {
                Some(p) => p,
                None => self.new_path(m, from),
            }
        };
        self.spell(p)
    }

    fn remember(&mut self, p: &str) {
        if p.len() < 600 {
            self.recent.push_back(p.to_string());
            if self.recent.len() > 12 {
                self.recent.pop_front();
            }
        }
    }

    fn slots(&self, w: &World, k: usize, dir: bool) -> Vec<u16> {
        let m = &w.insts[k].model;
        w.insts[k].slots.iter().filter(|(s, fd)| **s < 4000 && m.fds.get(fd).map(|f| f.dir == dir).unwrap_or(false)).map(|x| *x.0).collect()
    }

    fn file_fd(&mut self, w: &World, k: usize, client: usize) -> Option<FdRef> {
        let v = self.slots(w, k, false);
        if v.is_empty() {
            return None;
        }
        let own: Vec<u16> = v.iter().copied().filter(|s| (*s / 16) as usize == client).collect();
        if !own.is_empty() && self.r.chance(3, 4) {
            return Some(FdRef::Slot(*self.r.pick(&own)));
        }
        Some(FdRef::Slot(*self.r.pick(&v)))
    }

    fn dir_fd(&mut self, w: &World, k: usize) -> (FdRef, Ino) {
        let v = self.slots(w, k, true);
        if v.is_empty() || self.r.chance(11, 20) {
            return (FdRef::Root, ROOT);
        }
        let s = *self.r.pick(&v);
        let fd = w.insts[k].slots[&s];
        (FdRef::Slot(s), w.insts[k].model.fds[&fd].ino)
    }

    fn any_fd(&mut self, w: &World, k: usize, client: usize) -> FdRef {
        match self.r.below(10) {
            0 => FdRef::Root,
            1 => FdRef::Raw(self.r.below(24) as u32),
            2 => FdRef::Slot((client * 16) as u16 + self.r.below(16) as u16),
            3 | 4 => self.dir_fd(w, k).0,
            _ => self.file_fd(w, k, client).unwrap_or(FdRef::Root),
        }
    }

    fn bad_fd(&mut self, w: &World, k: usize, client: usize) -> FdRef {
        match self.r.below(5) {
            0 => FdRef::Raw(*self.r.pick(&[0u32, 1, 2, 4, 5, 100, u32::MAX, u32::MAX - 1, 1 << 31])),
            1 => FdRef::Slot((client * 16) as u16 + self.r.below(16) as u16),
            2 => self.dir_fd(w, k).0,
            3 => FdRef::Raw(self.r.below(30) as u32),
            _ => self.file_fd(w, k, client).unwrap_or(FdRef::Raw(77)),
        }
    }

    fn slot(&mut self, client: usize) -> u16 {
        (client * 16) as u16 + self.r.below(16) as u16
    }

    fn file_of(&self, w: &World, k: usize, fd: FdRef) -> Option<Ino> {
        let n = w.fdnum(k, fd);
        w.insts[k].model.fds.get(&n).filter(|f| !f.dir).map(|f| f.ino)
    }

    fn chunk_of(&self, w: &World, k: usize) -> u64 {
        let i = &w.insts[k];
        if i.v1 {
            4096
        } else {
            i.model.chunk_size as u64
        }
    }

    fn wobble(&mut self, x: u64) -> u64 {
        match self.r.below(5) {
            0 => x.saturating_sub(1),
            1 => x.saturating_add(1),
            2 => x.saturating_sub(self.r.below(8)),
            3 => x.saturating_add(self.r.below(8)),
            _ => x,
        }
    }

    /// a position in or around a file
    fn offset(&mut self, w: &World, k: usize, ino: Ino) -> u64 {
        let n = w.insts[k].model.ino(ino);
        let size = n.a_size();
        let cs = self.chunk_of(w, k);
        let mounted = n.mount.is_some();
        if self.r.below(1000) < self.p.extreme as u64 {
            if mounted {
                return *self.r.pick(&[MAX_FILE_SIZE + 1, u64::MAX, u64::MAX - 5, 1 << 63]);
            }
            let b = *self.r.pick(&[MAX_FILE_SIZE, MAX_FILE_SIZE - 4096, MAX_FILE_SIZE - 65536, u64::MAX, 1 << 32, 1 << 44, (1 << 32) * 4096, u64::MAX - 20, 1 << 63, MAX_FILE_SIZE - 300]);
            return self.wobble(b);
        }
        match self.r.below(12) {
            0 | 1 if size > 0 => self.r.below(size),
            2 => self.wobble(size),
            3 => size,
            4 | 5 => {
                let c = self.r.range(0, 6) * cs;
                self.wobble(c)
            }
            6 => {
                let c = self.r.range(0, 20) * 4096;
                self.wobble(c)
            }
            7 => 0,
            8 => self.r.below(3 * cs + 10),
            9 => self.r.below(300),
            10 => {
                let c = size - size % cs;
                self.wobble(c)
            }
            _ => {
                if !mounted && self.r.chance(1, 3) {
                    // far away
                    let b = self.r.range(10, 41);
                    let x = self.r.below(1 << b);
                    x
                } else {
                    self.r.below(size.min(1 << 21) + 5000)
                }
            }
        }
    }

    fn length(&mut self, w: &World, k: usize) -> u32 {
        let cs = self.chunk_of(w, k);
        let x = match self.r.below(14) {
            0 => 0,
            1 => 1,
            2 | 3 => {
                let c = cs * self.r.range(1, 2);
                self.wobble(c)
            }
            4 => {
                let c = 4096 * self.r.range(1, 4);
                self.wobble(c)
            }
            5 => self.r.below(4 * cs),
            6 => {
                if self.r.chance(1, 12) {
                    self.r.below(400_000)
                } else {
                    self.r.below(70_000)
                }
            }
            7 | 8 => self.r.below(5000),
            _ => self.r.below(200),
        };
        x.min(600_000) as u32
    }

    fn lens(&mut self, w: &World, k: usize) -> Vec<u32> {
        let n = match self.r.below(6) {
            0 => 0,
            1 => 2,
            2 => 3,
            3 => match self.r.below(60) {
                0 => self.r.range(1000, 1100),
                1..=5 => self.r.range(15, 70),
                _ => 7,
            },
            _ => 1,
        };
        if n > 10 {
            return (0..n).map(|_| self.r.below(60) as u32).collect();
        }
        (0..n).map(|_| if self.r.chance(1, 6) { 0 } else { (self.length(w, k)).min(90_000) }).collect()
    }

    fn newsize(&mut self, w: &World, k: usize, ino: Ino) -> u64 {
        let n = w.insts[k].model.ino(ino);
        let size = n.a_size();
        if self.r.below(1000) < self.p.extreme as u64 {
            let b = *self.r.pick(&[MAX_FILE_SIZE, MAX_FILE_SIZE + 1, u64::MAX, 1 << 44, 1 << 32, 1 << 63, MAX_FILE_SIZE - 4096]);
            return if self.r.chance(1, 2) { b } else { self.wobble(b) };
        }
        let cs = self.chunk_of(w, k);
        match self.r.below(8) {
            0 => 0,
            1 if size > 0 => self.r.below(size),
            2 if size > 0 => {
                let c = (size / cs) * cs;
                self.wobble(c)
            }
            3 => {
                let c = self.r.range(0, 5) * cs;
                self.wobble(c)
            }
            4 => {
                let c = self.r.range(0, 5) * 4096;
                self.wobble(c)
            }
            5 => self.wobble(size),
            6 => size + self.r.below(3 * cs),
            _ => self.r.below(60_000),
        }
    }

    fn pat(&mut self) -> u64 {
        if self.r.chance(1, 15) {
            return 0;
        }
        self.pat += 1;
        mix(self.pat) | 1
    }

    fn rights(&mut self) -> u8 {
        match self.r.below(12) {
            0 => 1,
            1 => 2,
            2 => 0,
            _ => 3,
        }
    }

    fn open_op(&mut self, w: &mut World, k: usize, c: usize) -> Op {
        let (dir, ino) = self.dir_fd(w, k);
        let t = self.time(w, c);
        let m = &w.insts[k].model;
        let create = self.r.chance(3, 5);
        let path = self.path(m, ino, 0, if create { 55 } else { 15 });
        let mut oflags = 0;
        if create {
            oflags |= O_CREATE;
        }
        if self.r.chance(1, 8) {
            oflags |= O_EXCL;
        }
        if self.r.chance(1, 8) {
            oflags |= O_DIRECTORY;
        }
        if self.r.chance(1, 6) {
            oflags |= O_TRUNC;
        }
        let fflags = match self.r.below(8) {
            0 => F_APPEND,
            1 => *self.r.pick(&[2u16, 4, 8, 16, 1 | 4]),
            _ => 0,
        };
        Op::Open { slot: self.slot(c), dir, path, oflags, fflags, rights: self.rights(), t }
    }

    fn extreme(&mut self) -> bool {
        self.r.below(1000) < self.p.extreme as u64
    }

    fn memory(&mut self, w: &World) -> Option<u8> {
        if w.cfg.mems.is_empty() {
            None
        } else {
            Some(self.r.below(w.cfg.mems.len() as u64) as u8)
        }
    }

    fn mounted_path(&mut self, m: &Model) -> Option<String> {
        let v: Vec<Ino> = m.inodes.iter().filter(|(_, n)| n.mount.is_some()).map(|x| *x.0).collect();
        if v.is_empty() {
            return None;
        }
        let i = *self.r.pick(&v);
        let p = m.paths().get(&i).cloned()?;
        Some(if self.r.chance(1, 6) { format!("/{}", p) } else { p })
    }

    fn mount_op(&mut self, w: &World, k: usize) -> Option<Op> {
        let mem = self.memory(w)?;
        let m = &w.insts[k].model;
        let mp = self.mounted_path(m);
        // a memory may be mounted in one place only
        let busy: Vec<u8> = w.insts.iter().flat_map(|i| i.model.inodes.values().filter_map(|n| n.mount)).collect();
        let what = self.r.below(10);
        Some(match (what, mp) {
            (0..=3, Some(p)) if self.r.chance(1, 2) => match self.r.below(3) {
                0 => Op::Unmount { path: p },
                1 => Op::Init { path: p },
                _ => Op::Store { path: p },
            },
            (0, _) => {
                let p = self.path(m, ROOT, 1, 20);
                match self.r.below(3) {
                    0 => Op::Unmount { path: p },
                    1 => Op::Init { path: p },
                    _ => Op::Store { path: p },
                }
            }
            _ => {
                let path = if self.r.chance(1, 12) { self.path(m, ROOT, 0, 40) } else { self.path(m, ROOT, 1, 30) };
                let path = if self.r.chance(1, 8) && !path.starts_with('/') { format!("/{}", path) } else { path };
                let target_mounted = m.resolve(ROOT, path.strip_prefix('/').unwrap_or(&path)).ok().map(|i| m.ino(i).mount.is_some()).unwrap_or(false);
                if busy.contains(&mem) && !target_mounted {
                    return match self.mounted_path(m) {
                        Some(p) => Some(Op::Unmount { path: p }),
                        None => None,
                    };
                }
                let policy = self.r.below(4) as u8;
                let arg = match self.r.below(8) {
                    0 => 0,
                    1 => self.r.range(0, 4) * WASM,
                    2 => u64::MAX,
                    3 if self.extreme() || self.r.chance(1, 6) => MAX_FILE_SIZE - self.r.below(2),
                    _ => self.r.below(200_000),
                };
                Op::Mount { path, mem, policy, arg }
            }
        })
    }

    fn group_op(&mut self, w: &mut World, k: usize, c: usize, g: G) -> Option<Op> {
        use G::*;
        let m = &w.insts[k].model;
        Some(match g {
            Open => self.open_op(w, k, c),
            Mkdir => {
                let (dir, ino) = self.dir_fd(w, k);
                let path = self.path(m, ino, 2, 85);
                let t = self.time(w, c);
                if self.r.chance(1, 3) {
                    Op::CreateDirOpen { slot: self.slot(c), dir, path, t }
                } else {
                    Op::Mkdir { dir, path, t }
                }
            }
            Close => Op::Close { fd: self.any_fd(w, k, c) },
            Read => {
                let fd = self.file_fd(w, k, c)?;
                let ino = self.file_of(w, k, fd)?;
                match self.r.below(4) {
                    0 => Op::Read { fd, len: self.length(w, k) },
                    1 => Op::ReadVec { fd, lens: self.lens(w, k) },
                    _ => {
                        let off = self.offset(w, k, ino);
                        Op::ReadAt { fd, lens: self.lens(w, k), off }
                    }
                }
            }
            Write => {
                let fd = self.file_fd(w, k, c)?;
                let ino = self.file_of(w, k, fd)?;
                let pat = self.pat();
                match self.r.below(4) {
                    0 | 1 => Op::Write { fd, pat, len: self.length(w, k) },
                    2 => Op::WriteVec { fd, pat, lens: self.lens(w, k) },
                    _ => {
                        let off = self.offset(w, k, ino);
                        Op::WriteAt { fd, pat, lens: self.lens(w, k), off }
                    }
                }
            }
            Seek => {
                let fd = self.file_fd(w, k, c)?;
                let ino = self.file_of(w, k, fd)?;
                if self.r.chance(1, 6) {
                    return Some(Op::Tell { fd });
                }
                let whence = self.r.below(3) as u8;
                let delta = if self.extreme() {
                    *self.r.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, -1, i64::MAX - 7])
                } else {
                    let o = self.offset(w, k, ino).min(1 << 45) as i64;
                    match whence {
                        0 => {
                            if self.r.chance(1, 12) {
                                -o - 1
                            } else {
                                o
                            }
                        }
                        1 => {
                            let d = self.r.below(9000) as i64 - 4500;
                            if self.r.chance(1, 4) {
                                o
                            } else {
                                d
                            }
                        }
                        _ => {
                            let s = w.insts[k].model.ino(ino).a_size();
                            match self.r.below(6) {
                                0 => 1,
                                1 => -(s.min(1 << 50) as i64),
                                2 => -(s.min(1 << 50) as i64) - 1,
                                3 => 0,
                                _ => -(self.r.below(s.min(1 << 50) + 1) as i64),
                            }
                        }
                    }
                };
                Op::Seek { fd, delta, whence }
            }
            Size => {
                let fd = self.file_fd(w, k, c)?;
                let ino = self.file_of(w, k, fd)?;
                let size = self.newsize(w, k, ino);
                if self.r.chance(1, 6) {
                    Op::SetMeta { fd, size: Some(size), times: None, limit: None, bad_node: false }
                } else {
                    Op::SetSize { fd, size }
                }
            }
            Look => {
                let (dir, ino) = self.dir_fd(w, k);
                let path = self.path(m, ino, 0, 15);
                match self.r.below(6) {
                    0 => Op::Meta { fd: self.any_fd(w, k, c) },
                    1 => Op::NodeMeta { dir, path },
                    _ => Op::OpenMeta { dir, path },
                }
            }
            Attr => {
                let file = self.file_fd(w, k, c);
                let fd = match file {
                    Some(f) if self.r.chance(4, 5) => f,
                    _ => self.any_fd(w, k, c),
                };
                let t = self.time(w, c);
                match self.r.below(7) {
                    0 => Op::SetATime { fd, t },
                    1 => Op::SetMTime { fd, t },
                    2 | 3 => {
                        let size = self.file_of(w, k, fd).map(|i| w.insts[k].model.ino(i).a_size()).unwrap_or(0);
                        let limit = match self.r.below(7) {
                            0 => size,
                            1 => size.saturating_sub(1),
                            2 => size.saturating_add(1),
                            3 if self.extreme() => *self.r.pick(&[u64::MAX, MAX_FILE_SIZE, MAX_FILE_SIZE + 1, 0]),
                            4 => self.r.below(3000),
                            _ => size.saturating_add(self.r.below(60_000)),
                        };
                        Op::SetLimit { fd, limit }
                    }
                    4 => Op::Meta { fd },
                    _ => {
                        let ino = self.file_of(w, k, fd);
                        let size = match ino {
                            Some(i) if self.r.chance(1, 3) => Some(self.newsize(w, k, i)),
                            _ => None,
                        };
                        let times = if self.r.chance(1, 2) { Some([self.time(w, c), self.time(w, c), self.time(w, c)]) } else { None };
                        let cur = ino.map(|i| w.insts[k].model.ino(i).a_size()).unwrap_or(0);
                        let limit = match self.r.below(5) {
                            0 => Some(None),
                            1 => Some(Some(cur.saturating_add(self.r.below(20_000)))),
                            2 if self.r.chance(1, 2) => Some(Some(self.r.below(20_000))),
                            _ => None,
                        };
                        Op::SetMeta { fd, size, times, limit, bad_node: self.r.chance(1, 12) }
                    }
                }
            }
            Remove => {
                let (dir, ino) = self.dir_fd(w, k);
                let what = self.r.below(8);
                let want = match what {
                    0..=3 => 1,
                    4..=5 => 2,
                    _ => 0,
                };
                let path = self.path(m, ino, want, 8);
                self.remember(&path);
                match what {
                    0..=3 => Op::RemoveFile { dir, path },
                    4..=5 => Op::RemoveDir { dir, path },
                    6 => {
                        if self.r.chance(1, 2) {
                            Op::RemoveRec { dir, path }
                        } else {
                            Op::RemoveFile { dir, path }
                        }
                    }
                    _ => {
                        if self.r.chance(1, 2) {
                            Op::RemoveDir { dir, path }
                        } else {
                            Op::RemoveFile { dir, path }
                        }
                    }
                }
            }
            Link | Rename => {
                let (odir, oino) = self.dir_fd(w, k);
                let (ndir, nino) = self.dir_fd(w, k);
                let want = if g == Link { 1 } else { *self.r.pick(&[0u8, 1, 1, 2]) };
                let opath = self.path(m, oino, want, 6);
                let mut npath = self.path(m, nino, want, 55);
                // into the own subtree
                if self.r.chance(1, 14) && odir == ndir {
                    let n = self.name();
                    npath = format!("{}/{}", opath, n);
                }
                // onto itself
                if self.r.chance(1, 16) && odir == ndir {
                    npath = self.spell(opath.clone());
                }
                self.remember(&opath);
                self.remember(&npath);
                let slot = self.slot(c);
                if g == Link {
                    Op::Link { slot, odir, opath, ndir, npath }
                } else {
                    Op::Rename { slot, odir, opath, ndir, npath }
                }
            }
            List => {
                let (fd, ino) = self.dir_fd(w, k);
                let from = match self.r.below(6) {
                    0 => None,
                    1 => Some(0),
                    2 => {
                        let n = w.insts[k].model.ino(ino);
                        let known: Vec<u32> = n.entries.iter().filter_map(|x| x.idx).collect();
                        if known.is_empty() {
                            Some(1)
                        } else {
                            let i = *self.r.pick(&known);
                            Some(if self.r.chance(1, 2) { i } else { i + 1 })
                        }
                    }
                    3 if self.r.chance(1, 2) => Some(u32::MAX - 5 + self.r.below(2) as u32),
                    3 if self.extreme() => Some(*self.r.pick(&[u32::MAX, u32::MAX - 1, u32::MAX - 4, u32::MAX - 5, u32::MAX - 9, u32::MAX - 10, u32::MAX - 11])),
                    _ => None,
                };
                let max = if self.r.chance(1, 4) { self.r.range(1, 5) as u32 } else { 100_000 };
                let fd = if self.r.chance(1, 20) { self.any_fd(w, k, c) } else { fd };
                Op::List { fd, from, max }
            }
            Scan => {
                let (fd, ino) = self.dir_fd(w, k);
                let scan = (c * 4) as u16 + self.r.below(3) as u16;
                match self.r.below(10) {
                    0 | 1 => Op::ScanStart { scan, fd },
                    2 => {
                        let known: Vec<u32> = m.ino(ino).entries.iter().filter_map(|x| x.idx).collect();
                        let idx = if known.is_empty() || self.r.chance(1, 3) { self.r.below(20) as u32 } else { *self.r.pick(&known) };
                        Op::GetEntry { fd, idx }
                    }
                    _ => {
                        let live: Vec<u16> = w.scans.keys().copied().filter(|s| w.scans[s].fs == k).collect();
                        if live.is_empty() {
                            Op::ScanStart { scan, fd }
                        } else {
                            let s = *self.r.pick(&live);
                            Op::ScanStep { scan: s, n: *self.r.pick(&[1u32, 1, 2, 3, 5, 50]) }
                        }
                    }
                }
            }
            Mount => return self.mount_op(w, k),
            MemOwner => {
                let mem = self.memory(w)?;
                let size = w.mem_handle(mem).size() * WASM;
                match self.r.below(5) {
                    0 => Op::MemGrow { mem, pages: self.r.range(1, 3) as u32 },
                    1 => Op::MemCheck { mem },
                    2 if self.p.refuse > 100 => Op::MemCap { mem, pages: self.r.below(2) },
                    _ => {
                        if size == 0 {
                            Op::MemGrow { mem, pages: 1 }
                        } else {
                            let off = self.r.below(size);
                            let len = self.r.below((size - off).min(3000) + 1) as u32;
                            Op::MemWrite { mem, off, pat: self.pat(), len }
                        }
                    }
                }
            }
            FdOps => {
                let fd = self.any_fd(w, k, c);
                match self.r.below(9) {
                    0..=2 => {
                        let from = if self.r.chance(3, 4) { self.file_fd(w, k, c).unwrap_or(fd) } else { fd };
                        let to = match self.r.below(5) {
                            0 => FdRef::Raw(self.r.below(30) as u32),
                            1 => FdRef::Raw(*self.r.pick(&[u32::MAX, u32::MAX - 1, 1000, 3, 0])),
                            _ => self.any_fd(w, k, c),
                        };
                        Op::Renumber { from, to }
                    }
                    3 => Op::GetStat { fd },
                    4 | 5 => Op::SetStat { fd, fflags: *self.r.pick(&[0u16, 0, 1, 1, 4, 2]), rights: self.rights() },
                    6 => Op::Flush { fd },
                    7 => Op::Advice { fd },
                    _ => Op::Allocate { fd, off: self.r.below(1000), len: self.r.below(1000) },
                }
            }
            Script => {
                self.script(w, k, c);
                return self.clients[c].script.pop_front();
            }
            Chunk => {
                if self.r.chance(1, 2) {
                    Op::SetChunkType { v1: self.r.chance(1, 2) }
                } else {
                    Op::SetChunkSize { size: *self.r.pick(&[4096u32, 8192, 16384, 32768, 65536]) }
                }
            }
            Thrash => {
                match self.r.below(16) {
                    0..=6 => Op::Thrash { kind: 0, n: self.r.range(20, 260) as u32 },
                    7 | 8 => Op::Thrash { kind: 1, n: self.r.range(10, 200) as u32 },
                    9 if self.r.chance(1, 3) => Op::Thrash { kind: 6, n: self.r.range(1, 500) as u32 },
                    9 => Op::Thrash { kind: 7, n: self.r.range(20, 90) as u32 },
                    10 if self.r.chance(1, 5) => Op::Thrash { kind: 2, n: self.r.range(900, 1100) as u32 },
                    10..=12 => Op::Thrash { kind: 3, n: self.r.range(30, 150) as u32 },
                    _ => Op::Thrash { kind: 4, n: self.r.range(20, 120) as u32 },
                }
            }
            CoTenant => {
                if self.r.chance(1, 8) {
                    let (start, len) = *self.r.pick(&[(0u8, 9u8), (10, 0), (245, 10), (250, 4), (100, 5), (246, 9), (245, 10), (244, 11), (254, 1)]);
                    // a range may also be given the wrong way round
                    let end = if self.r.chance(1, 3) { Some(self.r.below(start as u64 + 1) as u8) } else { None };
                    return Some(Op::BadRange { start, len, end });
                }
                if w.cfg.cotenants.is_empty() {
                    return None;
                }
                let id = *self.r.pick(&w.cfg.cotenants);
                match self.r.below(5) {
                    0 => Op::CoCheck,
                    1 => Op::CoGrow { id, pages: self.r.range(1, 3) as u32 },
                    _ => Op::CoWrite { id, off: self.r.below(60_000), pat: self.pat(), len: self.r.below(3000) as u32 },
                }
            }
            Bad => self.bad_op(w, k, c),
            N => unreachable!(),
        })
    }

    fn bad_path(&mut self, m: &Model, from: Ino) -> String {
        match self.r.below(11) {
            0 => "/".to_string(),
            1 => format!("/{}", self.name()),
            2 => "..".to_string(),
            3 => format!("{}/../../x", self.name()),
            4 => "q".repeat(256 + self.r.below(300) as usize),
            5 => {
                // a long part behind parents that do not exist
                let n = self.name();
                let k = *self.r.pick(&[256usize, 257, 1000]);
                let l = "w".repeat(k);
                if self.r.chance(1, 2) {
                    format!("{}/{}/{}", n, n, l)
                } else {
                    format!("newdir{}/{}/tail", self.r.below(50), l)
                }
            }
            6 => String::new(),
            7 => ".".to_string(),
            8 => {
                // through a file
                match self.walk(m, from, 1) {
                    Some(p) => format!("{}/{}", p, self.name()),
                    None => "./.".to_string(),
                }
            }
            9 => match self.walk(m, from, 1) {
                Some(p) => format!("{}/{}/{}", p, self.name(), self.name()),
                None => "a//..//..".to_string(),
            },
            _ => format!("missing{}/{}", self.r.below(9), self.name()),
        }
    }

    fn bad_op(&mut self, w: &mut World, k: usize, c: usize) -> Op {
        let m = &w.insts[k].model;
        let (dir, ino) = self.dir_fd(w, k);
        let dir = if self.r.chance(1, 5) { self.bad_fd(w, k, c) } else { dir };
        let bp = self.bad_path(m, ino);
        let good = self.path(m, ino, 0, 10);
        let t = 5;
        let slot = self.slot(c);
        match self.r.below(20) {
            0 => Op::Open { slot, dir, path: bp, oflags: *self.r.pick(&[0u16, 1, 1, 1, 3, 5, 9]), fflags: 0, rights: 3, t },
            1 => Op::Open { slot, dir, path: good, oflags: O_CREATE | O_EXCL, fflags: 0, rights: 3, t },
            2 => Op::Mkdir { dir, path: if self.r.chance(1, 2) { bp } else { good }, t },
            3 => Op::CreateDirOpen { slot, dir, path: bp, t },
            4 => Op::RemoveFile { dir, path: bp },
            5 => Op::RemoveDir { dir, path: if self.r.chance(1, 2) { bp } else { good } },
            6 => Op::RemoveRec { dir, path: bp },
            7 => Op::Rename { slot, odir: dir, opath: good, ndir: FdRef::Root, npath: bp },
            8 => Op::Rename { slot, odir: dir, opath: bp, ndir: FdRef::Root, npath: good },
            9 => Op::Link { slot, odir: dir, opath: good, ndir: dir, npath: bp },
            10 => {
                // hard link of a directory
                let p = self.walk(m, ROOT, 2).unwrap_or(bp);
                let np = self.path(m, ROOT, 0, 60);
                Op::Link { slot, odir: FdRef::Root, opath: p, ndir: FdRef::Root, npath: np }
            }
            11 => Op::Write { fd: self.bad_fd(w, k, c), pat: 3, len: 10 },
            12 => Op::WriteAt { fd: self.bad_fd(w, k, c), pat: 3, lens: vec![4, 9], off: *self.r.pick(&[0u64, u64::MAX, MAX_FILE_SIZE, MAX_FILE_SIZE - 8]) },
            13 => Op::Read { fd: self.bad_fd(w, k, c), len: 10 },
            14 => {
                let fd = self.file_fd(w, k, c).unwrap_or(FdRef::Raw(8));
                Op::SetMeta { fd, size: Some(*self.r.pick(&[u64::MAX, MAX_FILE_SIZE + 1, 0])), times: Some([1, 2, 3]), limit: Some(Some(self.r.below(2000))), bad_node: self.r.chance(1, 3) }
            }
            15 => Op::SetSize { fd: self.bad_fd(w, k, c), size: *self.r.pick(&[u64::MAX, MAX_FILE_SIZE + 1, 0, 10]) },
            16 => Op::Seek { fd: self.bad_fd(w, k, c), delta: *self.r.pick(&[-1i64, i64::MIN, i64::MAX]), whence: self.r.below(3) as u8 },
            17 => Op::List { fd: self.bad_fd(w, k, c), from: None, max: 10 },
            18 => match self.memory(w) {
                Some(_) => {
                    let p = if self.r.chance(1, 2) { self.walk(m, ROOT, 2).unwrap_or(bp) } else { bp };
                    match self.r.below(3) {
                        0 => Op::Unmount { path: p },
                        1 => Op::Init { path: p },
                        _ => Op::Store { path: p },
                    }
                }
                None => Op::OpenMeta { dir, path: bp },
            },
            _ => Op::Renumber { from: self.bad_fd(w, k, c), to: self.bad_fd(w, k, c) },
        }
    }

    /// the longer activities of a client, interleaved with everybody else's
    fn script(&mut self, w: &mut World, k: usize, c: usize) {
        let base = (c * 16) as u16;
        let (s0, s1) = (base + 12, base + 13);
        self.clients[c].seq += 1;
        let seq = self.clients[c].seq;
        let t = self.time(w, c);
        let mut v: Vec<Op> = vec![];
        let m = &w.insts[k].model;
        let open = |slot, path: &str, oflags, fflags| Op::Open { slot, dir: FdRef::Root, path: path.to_string(), oflags, fflags, rights: 3, t };
        match self.r.below(13) {
            11 if self.p.refuse > 100 && !w.cfg.mems.is_empty() => {
                // a mounted memory that cannot grow, smaller than its file
                let mem = self.r.below(w.cfg.mems.len() as u64) as u8;
                if w.insts.iter().any(|i| i.model.inodes.values().any(|n| n.mount == Some(mem))) {
                    return;
                }
                let path = format!("mem{}", mem);
                let pages = self.r.below(3);
                v.push(Op::MemCap { mem, pages });
                v.push(Op::Mount { path: path.clone(), mem, policy: 2, arg: self.r.below(pages * WASM + 200_000) });
                v.push(open(s0, &path, 0, 0));
                for _ in 0..self.r.range(1, 6) {
                    let off = self.r.below(pages * WASM + 140_000);
                    let len = self.length(w, k).min(40_000);
                    v.push(match self.r.below(5) {
                        0 => Op::WriteAt { fd: FdRef::Slot(s0), pat: self.pat(), lens: vec![len], off },
                        1 => Op::WriteAt { fd: FdRef::Slot(s0), pat: self.pat(), lens: vec![len / 3, len / 3, len / 3], off },
                        2 => Op::SetSize { fd: FdRef::Slot(s0), size: off },
                        _ => Op::ReadAt { fd: FdRef::Slot(s0), lens: vec![len], off },
                    });
                }
                if self.r.chance(1, 2) {
                    v.push(if self.r.chance(1, 2) { Op::Store { path: path.clone() } } else { Op::Init { path: path.clone() } });
                }
                if self.r.chance(1, 2) {
                    v.push(Op::MemCap { mem, pages: 1 << 20 });
                    v.push(Op::ReadAt { fd: FdRef::Slot(s0), lens: vec![30_000], off: self.r.below(100_000) });
                }
                v.push(Op::Unmount { path: path.clone() });
                v.push(Op::Close { fd: FdRef::Slot(s0) });
            }
            11 => {
                // many descriptors or many links
                let n = if self.p.shadow_every == 0 { self.r.range(3, 10) } else if self.r.chance(1, 25) { self.r.range(250, 300) } else { self.r.range(5, 40) };
                let path = format!("farm{}", c);
                v.push(open(s0, &path, O_CREATE, 0));
                v.push(Op::Write { fd: FdRef::Slot(s0), pat: self.pat(), len: 700 });
                if self.r.chance(1, 2) {
                    for i in 0..n {
                        v.push(Op::Link { slot: s1, odir: FdRef::Root, opath: path.clone(), ndir: FdRef::Root, npath: format!("{}.{}", path, i) });
                        v.push(Op::Close { fd: FdRef::Slot(s1) });
                    }
                    v.push(Op::Meta { fd: FdRef::Slot(s0) });
                    v.push(Op::Close { fd: FdRef::Slot(s0) });
                    let keep = self.r.below(n);
                    v.push(Op::RemoveFile { dir: FdRef::Root, path: path.clone() });
                    for i in 0..n {
                        if i != keep {
                            v.push(Op::RemoveFile { dir: FdRef::Root, path: format!("{}.{}", path, i) });
                        }
                    }
                    v.push(open(s0, &format!("{}.{}", path, keep), 0, 0));
                    v.push(Op::Meta { fd: FdRef::Slot(s0) });
                    v.push(Op::ReadAt { fd: FdRef::Slot(s0), lens: vec![900], off: 0 });
                    v.push(Op::Close { fd: FdRef::Slot(s0) });
                    if self.r.chance(2, 3) {
                        v.push(Op::RemoveFile { dir: FdRef::Root, path: format!("{}.{}", path, keep) });
                    }
                } else {
                    // slots of their own, above those of the clients
                    let own = 1000 + (c as u16) * 400;
                    for i in 0..n as u16 {
                        v.push(open(own + i, &path, 0, if i % 3 == 0 { F_APPEND } else { 0 }));
                        if self.r.chance(1, 3) {
                            v.push(Op::Seek { fd: FdRef::Slot(own + i), delta: self.r.below(800) as i64, whence: 0 });
                        }
                        if self.r.chance(1, 6) {
                            let x = self.r.below(i as u64 + 1) as u16;
                            v.push(Op::Close { fd: FdRef::Slot(own + x) });
                        }
                    }
                    v.push(Op::RemoveFile { dir: FdRef::Root, path: path.clone() });
                    let mut order: Vec<u16> = (0..n as u16).collect();
                    for i in (1..order.len()).rev() {
                        order.swap(i, self.r.below(i as u64 + 1) as usize);
                    }
                    for i in order {
                        if self.r.chance(1, 4) {
                            v.push(Op::Write { fd: FdRef::Slot(own + i), pat: self.pat(), len: 30 });
                        }
                        v.push(Op::Close { fd: FdRef::Slot(own + i) });
                    }
                    v.push(Op::RemoveFile { dir: FdRef::Root, path: path.clone() });
                    v.push(Op::Close { fd: FdRef::Slot(s0) });
                    v.push(Op::RemoveFile { dir: FdRef::Root, path });
                }
            }
            0 => {
                // copy a file
                let from = self.path(m, ROOT, 1, 10);
                let to = self.new_path(m, ROOT);
                v.push(open(s0, &from, O_CREATE, 0));
                v.push(open(s1, &to, O_CREATE | O_TRUNC, 0));
                for _ in 0..self.r.range(1, 4) {
                    let len = self.length(w, k);
                    v.push(Op::Read { fd: FdRef::Slot(s0), len });
                    v.push(Op::Write { fd: FdRef::Slot(s1), pat: self.pat(), len });
                }
                v.push(Op::Close { fd: FdRef::Slot(s0) });
                v.push(Op::Close { fd: FdRef::Slot(s1) });
            }
            1 => {
                // atomic replace
                let path = self.path(m, ROOT, 1, 40);
                let tmp = format!("{}.tmp", self.name().chars().take(60).collect::<String>());
                v.push(open(s0, &tmp, O_CREATE | O_TRUNC, 0));
                let len = self.length(w, k);
                v.push(Op::Write { fd: FdRef::Slot(s0), pat: self.pat(), len });
                v.push(Op::Flush { fd: FdRef::Slot(s0) });
                v.push(Op::Close { fd: FdRef::Slot(s0) });
                v.push(Op::Rename { slot: s1, odir: FdRef::Root, opath: tmp, ndir: FdRef::Root, npath: path.clone() });
                v.push(Op::Close { fd: FdRef::Slot(s1) });
                v.push(Op::OpenMeta { dir: FdRef::Root, path });
            }
            2 => {
                // append to a log, rotate it
                let path = format!("log{}", c);
                v.push(open(s0, &path, O_CREATE, F_APPEND));
                for _ in 0..self.r.range(2, 8) {
                    let len = self.length(w, k).min(9000);
                    v.push(Op::Write { fd: FdRef::Slot(s0), pat: self.pat(), len });
                }
                if self.r.chance(1, 2) {
                    v.push(Op::Close { fd: FdRef::Slot(s0) });
                    v.push(Op::Rename { slot: s1, odir: FdRef::Root, opath: path.clone(), ndir: FdRef::Root, npath: format!("log{}.{}", c, seq % 3) });
                    v.push(Op::Close { fd: FdRef::Slot(s1) });
                } else {
                    v.push(Op::Renumber { from: FdRef::Slot(s0), to: FdRef::Slot(s1) });
                    v.push(Op::Close { fd: FdRef::Slot(s0) });
                }
            }
            3 => {
                // a database file: pages at random places of a sparse file
                let path = format!("db{}", c % 2);
                v.push(open(s0, &path, O_CREATE, 0));
                let page = *self.r.pick(&[4096u64, 8192, 1000, 16384]);
                for _ in 0..self.r.range(3, 12) {
                    let off = self.r.below(40) * page;
                    if self.r.chance(2, 3) {
                        v.push(Op::WriteAt { fd: FdRef::Slot(s0), pat: self.pat(), lens: vec![page as u32], off });
                    } else {
                        v.push(Op::ReadAt { fd: FdRef::Slot(s0), lens: vec![page as u32], off });
                    }
                }
                if self.r.chance(1, 2) {
                    let s = self.r.below(40) * page + self.r.below(3);
                    v.push(Op::SetSize { fd: FdRef::Slot(s0), size: s });
                    let s2 = s + self.r.below(100_000);
                    v.push(Op::SetSize { fd: FdRef::Slot(s0), size: s2 });
                    v.push(Op::ReadAt { fd: FdRef::Slot(s0), lens: vec![(s2 - s).min(100_000) as u32 + 20], off: s.saturating_sub(10) });
                }
                v.push(Op::Close { fd: FdRef::Slot(s0) });
            }
            4 => {
                // a tree, removed as a whole
                let top = format!("tree{}_{}", c, seq % 2);
                v.push(Op::Mkdir { dir: FdRef::Root, path: top.clone(), t });
                for _ in 0..self.r.range(2, 9) {
                    let n1 = self.name();
                    let n2 = self.name();
                    match self.r.below(3) {
                        0 => v.push(Op::Mkdir { dir: FdRef::Root, path: format!("{}/{}/{}", top, n1, n2), t }),
                        1 => {
                            v.push(open(s0, &format!("{}/{}", top, n1), O_CREATE, 0));
                            v.push(Op::Write { fd: FdRef::Slot(s0), pat: self.pat(), len: 100 });
                            v.push(Op::Close { fd: FdRef::Slot(s0) });
                        }
                        _ => {
                            v.push(open(s0, &format!("{}/{}/{}", top, n1, n2), O_CREATE, 0));
                            v.push(Op::Close { fd: FdRef::Slot(s0) });
                        }
                    }
                }
                v.push(Op::OpenMeta { dir: FdRef::Root, path: top.clone() });
                v.push(Op::RemoveRec { dir: FdRef::Root, path: top.clone() });
                v.push(Op::OpenMeta { dir: FdRef::Root, path: top });
            }
            5 if !w.cfg.mems.is_empty() => {
                // the life of a mounted memory
                let mem = self.r.below(w.cfg.mems.len() as u64) as u8;
                if w.insts.iter().any(|i| i.model.inodes.values().any(|n| n.mount == Some(mem))) {
                    return;
                }
                let path = format!("mem{}", mem);
                v.push(Op::Mount { path: path.clone(), mem, policy: self.r.below(4) as u8, arg: self.r.below(100_000) });
                if self.r.chance(1, 2) {
                    v.push(Op::Init { path: path.clone() });
                }
                v.push(open(s0, &path, 0, 0));
                for _ in 0..self.r.range(1, 4) {
                    let len = self.length(w, k).min(40_000);
                    v.push(Op::WriteAt { fd: FdRef::Slot(s0), pat: self.pat(), lens: vec![len], off: self.r.below(90_000) });
                }
                v.push(Op::MemCheck { mem });
                if self.r.chance(1, 2) {
                    v.push(Op::Store { path: path.clone() });
                }
                v.push(Op::Unmount { path: path.clone() });
                v.push(Op::ReadAt { fd: FdRef::Slot(s0), lens: vec![5000], off: 0 });
                v.push(Op::Close { fd: FdRef::Slot(s0) });
            }
            6 => {
                // many names for one file
                let path = format!("one{}", c);
                v.push(open(s0, &path, O_CREATE, 0));
                for i in 0..self.r.range(1, 5) {
                    v.push(Op::Link { slot: s1, odir: FdRef::Root, opath: path.clone(), ndir: FdRef::Root, npath: format!("ln{}_{}", c, i) });
                    v.push(Op::Close { fd: FdRef::Slot(s1) });
                }
                v.push(Op::Write { fd: FdRef::Slot(s0), pat: self.pat(), len: 500 });
                v.push(Op::RemoveFile { dir: FdRef::Root, path: path.clone() });
                v.push(Op::Write { fd: FdRef::Slot(s0), pat: self.pat(), len: 500 });
                v.push(Op::Close { fd: FdRef::Slot(s0) });
                for i in 0..5 {
                    if self.r.chance(1, 2) {
                        v.push(Op::RemoveFile { dir: FdRef::Root, path: format!("ln{}_{}", c, i) });
                    }
                }
            }
            7 => {
                // a barrage of calls that fail
                for _ in 0..self.r.range(3, 10) {
                    let o = self.bad_op(w, k, c);
                    v.push(o);
                }
            }
            8 => {
                // remove and create again under the same name, looked up in between
                let path = self.path(m, ROOT, 1, 20);
                for _ in 0..self.r.range(1, 3) {
                    v.push(Op::OpenMeta { dir: FdRef::Root, path: path.clone() });
                    v.push(Op::RemoveFile { dir: FdRef::Root, path: path.clone() });
                    if self.r.chance(1, 2) {
                        v.push(Op::OpenMeta { dir: FdRef::Root, path: path.clone() });
                    }
                    if self.r.chance(1, 4) {
                        v.push(Op::Mkdir { dir: FdRef::Root, path: path.clone(), t });
                        v.push(Op::OpenMeta { dir: FdRef::Root, path: path.clone() });
                        v.push(Op::RemoveDir { dir: FdRef::Root, path: path.clone() });
                    }
                    v.push(open(s0, &path, O_CREATE, 0));
                    let len = self.length(w, k).min(20_000);
                    v.push(Op::Write { fd: FdRef::Slot(s0), pat: self.pat(), len });
                    v.push(Op::Close { fd: FdRef::Slot(s0) });
                }
            }
            9 => {
                // a directory moved around with things inside
                let d = format!("mv{}", c);
                let e = format!("mv{}x", c);
                v.push(Op::Mkdir { dir: FdRef::Root, path: format!("{}/in/deep", d), t });
                v.push(open(s0, &format!("{}/in/f", d), O_CREATE, 0));
                v.push(Op::Write { fd: FdRef::Slot(s0), pat: self.pat(), len: 300 });
                v.push(Op::OpenMeta { dir: FdRef::Root, path: format!("{}/in/f", d) });
                v.push(Op::Rename { slot: s1, odir: FdRef::Root, opath: d.clone(), ndir: FdRef::Root, npath: e.clone() });
                v.push(Op::OpenMeta { dir: FdRef::Root, path: format!("{}/in/f", d) });
                v.push(Op::OpenMeta { dir: FdRef::Root, path: format!("{}/in/f", e) });
                v.push(Op::OpenMeta { dir: FdRef::Slot(s1), path: "in/f".into() });
                v.push(Op::Rename { slot: base + 14, odir: FdRef::Slot(s1), opath: "in".into(), ndir: FdRef::Root, npath: d.clone() });
                v.push(Op::OpenMeta { dir: FdRef::Root, path: format!("{}/f", d) });
                v.push(Op::Close { fd: FdRef::Slot(s0) });
                v.push(Op::Close { fd: FdRef::Slot(s1) });
                v.push(Op::Close { fd: FdRef::Slot(base + 14) });
                v.push(Op::RemoveRec { dir: FdRef::Root, path: e });
                v.push(Op::RemoveRec { dir: FdRef::Root, path: d });
            }
            _ => {
                // scan a directory slowly while others work in it
                let (fd, _) = self.dir_fd(w, k);
                let scan = (c * 4 + 3) as u16;
                v.push(Op::ScanStart { scan, fd });
                for _ in 0..self.r.range(2, 8) {
                    v.push(Op::ScanStep { scan, n: self.r.range(1, 3) as u32 });
                }
                v.push(Op::ScanStep { scan, n: 1000 });
            }
        }
        self.clients[c].script.extend(v);
    }

    fn with_fault(&mut self, w: &World, op: Op) -> Op {
        if w.cfg.fss[0].transient {
            return op;
        }
        let x = self.r.below(1000);
        if x < self.p.trap as u64 {
            let n = match self.r.below(4) {
                0 => self.r.below(6),
                1 => self.r.below(40),
                2 => self.r.below(200),
                _ => self.r.below(1500),
            };
            return Op::Trap { n, op: Box::new(op) };
        }
        if x < (self.p.trap + self.p.refuse) as u64 {
            return Op::Refuse { extra: self.r.below(4).saturating_sub(1), op: Box::new(op) };
        }
        op
    }

    /// many objects, to run over the capacity of every cache
    fn mass(&mut self, w: &mut World, c: usize, n: u64) {
        let t = self.time(w, c);
        let base = (c * 16) as u16;
        let mut script = vec![];
        script.push(Op::Mkdir { dir: FdRef::Root, path: "mass".into(), t });
        for i in 0..n {
            if i % 7 == 0 {
                script.push(Op::Mkdir { dir: FdRef::Root, path: format!("mass/d{}", i), t });
            } else {
                script.push(Op::Open { slot: base + 12, dir: FdRef::Root, path: format!("mass/f{}", i), oflags: O_CREATE, fflags: 0, rights: 3, t });
                if i % 3 == 0 {
                    script.push(Op::Write { fd: FdRef::Slot(base + 12), pat: i * 2 + 1, len: 20 });
                }
                script.push(Op::Close { fd: FdRef::Slot(base + 12) });
            }
        }
        // list it as a whole and in pieces while entries come and go
        let (d, scan) = (FdRef::Slot(base + 13), (c * 4 + 3) as u16);
        let mut v = vec![Op::Open { slot: base + 13, dir: FdRef::Root, path: "mass".into(), oflags: O_DIRECTORY, fflags: 0, rights: 3, t }];
        v.push(Op::List { fd: d, from: None, max: 100_000 });
        v.push(Op::ScanStart { scan, fd: d });
        let step = self.r.range(1 + n / 20, n) as u32;
        let mut done = 0;
        while done < n {
            let i = self.r.below(n);
            match self.r.below(4) {
                0 if i % 7 != 0 => v.push(Op::RemoveFile { dir: d, path: format!("f{}", i) }),
                1 => v.push(Op::Mkdir { dir: d, path: format!("e{}", i), t }),
                2 if i % 7 != 0 => v.push(Op::Rename { slot: base + 12, odir: d, opath: format!("f{}", i), ndir: d, npath: format!("g{}", i) }),
                _ => v.push(Op::OpenMeta { dir: d, path: format!("f{}", i) }),
            }
            v.push(Op::ScanStep { scan, n: step });
            done += step as u64;
        }
        v.push(Op::ScanStep { scan, n: 100_000 });
        if self.r.chance(1, 3) {
            v.push(Op::Close { fd: d });
            v.push(Op::RemoveRec { dir: FdRef::Root, path: "mass".into() });
        }
        script.extend(v);
        self.clients[c].script.extend(script);
    }

    /// much data in one file, moved in large and small pieces
    fn bulk_data(&mut self, w: &mut World, c: usize, total: u64) {
        let t = self.time(w, c);
        let base = (c * 16) as u16;
        let (s0, s1) = (FdRef::Slot(base + 12), FdRef::Slot(base + 13));
        let path = "bulk".to_string();
        let mut v = vec![
            Op::Open { slot: base + 12, dir: FdRef::Root, path: path.clone(), oflags: O_CREATE, fflags: 0, rights: 3, t },
            Op::Open { slot: base + 13, dir: FdRef::Root, path: path.clone(), oflags: O_CREATE, fflags: 0, rights: 3, t },
        ];
        let cs = w.insts[0].model.chunk_size as u64;
        let mut at = if self.r.chance(1, 2) { 0 } else { self.r.below(1 << 36) };
        let first = at;
        let mut left = total;
        while left > 0 {
            let piece = match self.r.below(4) {
                0 => self.r.below(1 << 20),
                1 => cs * self.r.range(1, 1100),
                _ => self.r.range(4 << 20, 9 << 20),
            };
            let piece = piece.min(left).min(9 << 20);
            left -= piece;
            match self.r.below(3) {
                0 => {
                    v.push(Op::Seek { fd: s0, delta: at as i64, whence: 0 });
                    v.push(Op::Write { fd: s0, pat: self.pat(), len: piece as u32 });
                }
                1 => {
                    let a = self.r.below(piece + 1);
                    v.push(Op::WriteAt { fd: s0, pat: self.pat(), lens: vec![a as u32, (piece - a) as u32], off: at });
                }
                _ => v.push(Op::WriteAt { fd: s0, pat: self.pat(), lens: vec![piece as u32], off: at }),
            }
            at += piece;
            if self.r.chance(1, 4) {
                // a gap
                let g = self.r.below(3000) * 4096 + self.r.below(5000);
                at += g;
            }
        }
        let end = at;
        for _ in 0..self.r.range(1, 6) {
            let off = first + self.r.below(end - first + 1);
            let len = self.r.range(1, 12 << 20) as u32;
            match self.r.below(4) {
                0 => v.push(Op::ReadAt { fd: s1, lens: vec![len / 2, len - len / 2], off }),
                1 => {
                    v.push(Op::Seek { fd: s1, delta: off as i64, whence: 0 });
                    v.push(Op::Read { fd: s1, len });
                }
                2 => v.push(Op::WriteAt { fd: s1, pat: self.pat(), lens: vec![(len / 3).min(5 << 20)], off }),
                _ => v.push(Op::ReadAt { fd: s1, lens: vec![100], off }),
            }
            if self.r.chance(1, 5) {
                v.push(Op::SetSize { fd: s1, size: first + self.r.below(end - first + 1) });
            }
        }
        if self.r.chance(1, 3) {
            v.push(Op::SetSize { fd: s0, size: self.r.below(70_000) });
        }
        v.push(Op::Close { fd: s0 });
        v.push(Op::Close { fd: s1 });
        if self.r.chance(1, 2) {
            v.push(Op::RemoveFile { dir: FdRef::Root, path });
        }
        self.clients[c].script.extend(v);
    }

    /// a very deep tree, made and removed before anybody looks
    fn deep_tree(&mut self, w: &mut World, n: u64) {
        let t = self.time(w, 0);
        let path = |n: u64| "deep".to_string() + &"/d".repeat(n as usize);
        let r = FdRef::Root;
        let mut v = vec![Op::Mkdir { dir: r, path: path(n), t }];
        v.push(Op::OpenMeta { dir: r, path: path(n) });
        if self.r.chance(1, 2) {
            v.push(Op::Open { slot: 950, dir: r, path: format!("{}/f", path(n)), oflags: O_CREATE, fflags: 0, rights: 3, t });
            v.push(Op::Write { fd: FdRef::Slot(950), pat: n, len: 100 });
            v.push(Op::Close { fd: FdRef::Slot(950) });
        }
        if self.r.chance(1, 3) {
            v.push(Op::Rename { slot: 950, odir: r, opath: "deep/d".into(), ndir: r, npath: path(n) });
            v.push(Op::Rename { slot: 950, odir: r, opath: path(n / 2), ndir: r, npath: "deep2".into() });
            v.push(Op::Close { fd: FdRef::Slot(950) });
            v.push(Op::RemoveRec { dir: r, path: "deep2".into() });
        }
        v.push(Op::RemoveRec { dir: r, path: "deep".into() });
        v.push(Op::OpenMeta { dir: r, path: "deep".into() });
        v.push(Op::Commit);
        self.tail.extend(v.into_iter().map(|op| Step { fs: 0, client: 0, op }));
    }

    pub fn next(&mut self, w: &mut World) -> Option<Step> {
        if let Some(s) = self.tail.pop_front() {
            return Some(s);
        }
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        if self.left == 0 {
            for op in [Op::AuditLive, Op::AuditShadow, Op::Restart { v1: w.insts[0].v1 }, Op::Commit] {
                self.tail.push_back(Step { fs: 0, client: 0, op });
            }
        }
        let k = if w.insts.len() > 1 { self.r.below(w.insts.len() as u64) as usize } else { 0 };
        let st = |c: usize, op: Op| Some(Step { fs: k as u8, client: c as u8, op });
        // global events
        self.since_commit += 1;
        if self.since_commit > self.r.below(8) {
            self.since_commit = 0;
            self.left += 1;
            return st(0, Op::Commit);
        }
        if self.r.below(1000) < self.p.restart as u64 {
            let v1 = if self.r.chance(1, 10) { self.r.chance(1, 2) } else { w.insts[k].v1 };
            return st(0, Op::Restart { v1 });
        }
        if self.r.below(1000) < self.p.audit as u64 {
            return st(0, if self.r.chance(1, 2) { Op::AuditLive } else { Op::AuditShadow });
        }
        if self.deep > 0 && self.r.chance(1, 6) {
            let n = std::mem::take(&mut self.deep);
            w.stats.bump("probe:deep tree");
            self.deep_tree(w, n);
            return self.tail.pop_front();
        }
        if self.many > 0 && self.r.chance(1, 8) {
            let n = std::mem::take(&mut self.many);
            return Some(Step { fs: 0, client: 0, op: Op::Thrash { kind: if self.large_memory { 6 } else { 7 }, n } });
        }
        if self.caches {
            self.caches = false;
            return Some(Step { fs: 0, client: 0, op: Op::Thrash { kind: 5, n: 2000 } });
        }
        if self.bulk > 0 && self.r.chance(1, 4) {
            let n = std::mem::take(&mut self.bulk);
            let c = self.r.below(self.clients.len() as u64) as usize;
            w.stats.bump(if n > (20 << 20) { "probe:bulk data of more than 40 MB" } else { "probe:bulk data" });
            self.bulk_data(w, c, n);
            if n > (20 << 20) && self.r.chance(if n > (64 << 20) { 9 } else { 5 }, 10) {
                // all of it at once
                let v: Vec<Op> = self.clients[c].script.drain(..).collect();
                self.tail.extend(v.into_iter().map(|op| Step { fs: 0, client: c as u8, op }));
                return self.tail.pop_front();
            }
            self.left += self.clients[c].script.len() as u64;
        }
        if self.big > 0 {
            let n = std::mem::take(&mut self.big);
            let c = self.r.below(self.clients.len() as u64) as usize;
            self.mass(w, c, n);
            self.left += self.clients[c].script.len() as u64;
        }
        // the scheduler: which client runs; a client may stall for a while
        if self.r.chance(1, 30) {
            self.slow = if self.r.chance(1, 2) { Some(self.r.below(self.clients.len() as u64) as usize) } else { None };
        }
        let mut c = self.r.below(self.clients.len() as u64) as usize;
        if self.slow == Some(c) {
            w.stats.bump("fault:client stalled");
            c = (c + 1) % self.clients.len();
        }
        // a client with a script mostly goes on with it; scripts belong to the first file system
        if k == 0 && !self.clients[c].script.is_empty() && self.r.chance(4, 5) {
            let op = self.clients[c].script.pop_front().unwrap();
            let op = self.with_fault(w, op);
            return st(c, op);
        }
        for _ in 0..6 {
            let g = self.r.weighted(&self.p.w);
            let g: G = unsafe { std::mem::transmute::<usize, G>(g) };
            if g == G::Script && k != 0 {
                continue;
            }
            if let Some(op) = self.group_op(w, k, c, g) {
                let op = self.with_fault(w, op);
                return st(c, op);
            }
        }
        let op = self.open_op(w, k, c);
        st(c, op)
    }
}
