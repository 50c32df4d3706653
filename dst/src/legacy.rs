//! Images written by earlier versions: built by hand in the old layout, or recorded from a released version.
//! The layouts here are frozen copies, on purpose independent of the code under test.
use crate::disk::{Ctl, SimMemory, Sparse, PG, WASM};
use crate::model::*;
use crate::prng::{fill, Rng};
use crate::world::{guarded, Inst, Viol};
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager};
use ic_stable_structures::storable::Bound;
use ic_stable_structures::{BTreeMap as StableMap, Cell as StableCell, Memory, Storable};
use serde::{Deserialize, Serialize};
use stable_fs::error::Error;
use stable_fs::fs::{ChunkType, FdStat, OpenFlags, Whence};
use stable_fs::storage::types::{FileType, MountedFileSizePolicy, Times};
use std::borrow::Cow;
use std::collections::BTreeMap;

// ---- frozen layouts -------------------------------------------------------

#[derive(Clone)]
struct Raw(Vec<u8>);
impl Storable for Raw {
    fn to_bytes(&self) -> Cow<'_, [u8]> {
        Cow::Borrowed(&self.0)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.0
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        Raw(b.to_vec())
    }
    const BOUND: Bound = Bound::Unbounded;
}

#[derive(Clone)]
struct Chunk4K(Vec<u8>);
impl Storable for Chunk4K {
    fn to_bytes(&self) -> Cow<'_, [u8]> {
        Cow::Borrowed(&self.0)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.0
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        Chunk4K(b.to_vec())
    }
    const BOUND: Bound = Bound::Bounded { max_size: 4096, is_fixed_size: true };
}

#[derive(Default)]
struct Cbor(Vec<u8>);
impl Cbor {
    fn head(&mut self, major: u8, n: u64) -> &mut Self {
        let m = major << 5;
        match n {
            0..=23 => self.0.push(m | n as u8),
            24..=0xff => self.0.extend([m | 24, n as u8]),
            0x100..=0xffff => {
                self.0.push(m | 25);
                self.0.extend((n as u16).to_be_bytes());
            }
            0x10000..=0xffff_ffff => {
                self.0.push(m | 26);
                self.0.extend((n as u32).to_be_bytes());
            }
            _ => {
                self.0.push(m | 27);
                self.0.extend(n.to_be_bytes());
            }
        }
        self
    }
    fn map(&mut self, n: u64) -> &mut Self {
        self.head(5, n)
    }
    fn text(&mut self, s: &str) -> &mut Self {
        self.head(3, s.len() as u64);
        self.0.extend(s.as_bytes());
        self
    }
    fn bytes(&mut self, b: &[u8]) -> &mut Self {
        self.head(2, b.len() as u64);
        self.0.extend(b);
        self
    }
    fn uint(&mut self, n: u64) -> &mut Self {
        self.head(0, n)
    }
    fn null(&mut self) -> &mut Self {
        self.0.push(0xf6);
        self
    }
}

struct OldMeta {
    node: u64,
    dir: bool,
    nlink: u64,
    size: u64,
    times: [u64; 3],
    chunk: Option<bool>,
    limit: Option<u64>,
    /// 0: before chunk types, 1: before limits, 2: with all fields
    era: u8,
}

fn meta_cbor(m: &OldMeta) -> Raw {
    let mut c = Cbor::default();
    c.map(7 + m.era as u64);
    c.text("node").uint(m.node);
    c.text("file_type").text(if m.dir { "Directory" } else { "RegularFile" });
    c.text("link_count").uint(m.nlink);
    c.text("size").uint(m.size);
    c.text("times").map(3);
    c.text("accessed").uint(m.times[0]);
    c.text("modified").uint(m.times[1]);
    c.text("created").uint(m.times[2]);
    c.text("first_dir_entry");
    if m.dir && m.size > 0 && m.era == 0 {
        c.uint(1);
    } else {
        c.null();
    }
    c.text("last_dir_entry");
    if m.dir && m.size > 0 && m.era == 0 {
        c.uint(1 + m.size);
    } else {
        c.null();
    }
    if m.era >= 1 {
        c.text("chunk_type");
        match m.chunk {
            None => c.null(),
            Some(true) => c.text("V1"),
            Some(false) => c.text("V2"),
        };
    }
    if m.era >= 2 {
        c.text("maximum_size_allowed");
        match m.limit {
            None => c.null(),
            Some(l) => c.uint(l),
        };
    }
    Raw(c.0)
}

fn entry_cbor(name: &str, node: u64, idx: u32, old: bool) -> Raw {
    let mut b = [0u8; 255];
    b[..name.len()].copy_from_slice(name.as_bytes());
    let mut c = Cbor::default();
    c.map(if old { 4 } else { 2 });
    c.text("name").map(2);
    c.text("length").uint(name.len() as u64);
    c.text("bytes").bytes(&b);
    c.text("node").uint(node);
    if old {
        c.text("next_entry").uint(idx as u64 + 1);
        if idx > 1 {
            c.text("prev_entry").uint(idx as u64 - 1);
        } else {
            c.text("prev_entry").null();
        }
    }
    Raw(c.0)
}

#[derive(Clone, Default, PartialEq)]
#[allow(dead_code)]
struct MetadataLegacy {
    pub node: u64,
    pub file_type: FileType,
    pub link_count: u64,
    pub size: u64,
    pub times: Times,
    pub first_dir_entry: Option<u32>,
    pub last_dir_entry: Option<u32>,
    pub chunk_type: Option<ChunkType>,
}

fn grow_to(m: &dyn Memory, end: u64) {
    let have = m.size() * WASM;
    if end > have {
        assert!(m.grow((end - have).div_ceil(WASM)) >= 0, "harness: image memory");
    }
}

// ---- images built by hand -------------------------------------------------

/// The tree is drawn from the seed; with `write_image` it is also laid out in memory.
pub fn build<M: Memory>(seed: u64, mm: &MemoryManager<M>, start: u8, write_image: bool, bucket: u16) -> Model {
    let mut r = Rng::new(seed ^ 0x1e9ac4);
    let chunk_size = *r.pick(&[16384u32, 16384, 4096, 65536]);
    let mut m = Model::new(false, if write_image { chunk_size } else { 16384 });
    let era = r.below(3) as u8;
    let old_entries = era == 0 && r.chance(1, 2);
    // tree
    let mut dirs = vec![ROOT];
    let mut files: Vec<Ino> = vec![];
    let count = r.range(3, 16);
    for k in 0..count {
        let d = *r.pick(&dirs);
        let name = match r.below(8) {
            0 => format!("{}{}", "n".repeat(254 - d.to_string().len().min(3)), k % 10),
            1 => format!("файл{}", k),
            2 => format!("name with space {}", k),
            _ => format!("f{}", k),
        };
        let name = if name.len() > 255 { name[..255].to_string() } else { name };
        if m.ino(d).find(&name).is_some() {
            continue;
        }
        let t = r.below(1 << 40);
        if r.chance(1, 4) {
            let i = m.new_inode(true, t);
            m.ino_mut(i).times = [t, t + r.below(1000), t];
            m.add_entry(d, &name, i);
            dirs.push(i);
        } else if !files.is_empty() && r.chance(1, 6) {
            let i = *r.pick(&files);
            m.ino_mut(i).nlink += 1;
            m.add_entry(d, &name, i);
        } else {
            let i = m.new_inode(false, t);
            m.ino_mut(i).times = [t + r.below(1000), t + r.below(1000), t];
            m.add_entry(d, &name, i);
            files.push(i);
        }
    }
    // one large directory: names that only a search through all entries finds
    let mut wide = Rng::new(seed ^ 0x71de);
    if wide.chance(1, 16) {
        let d = *wide.pick(&dirs);
        let links = files.clone();
        for k in 0..wide.range(60, 150) {
            let name = format!("w{}{}", k, "y".repeat(wide.below(4) as usize));
            if !links.is_empty() && wide.chance(1, 5) {
                let i = *wide.pick(&links);
                m.ino_mut(i).nlink += 1;
                m.add_entry(d, &name, i);
            } else {
                let i = m.new_inode(wide.chance(1, 8), 5 + k);
                m.add_entry(d, &name, i);
                if m.ino(i).dir {
                    dirs.push(i);
                } else {
                    files.push(i);
                }
            }
        }
    }
    // an image that has seen much work before: large node numbers, entry indices and chunk addresses
    let mut aged = Rng::new(seed ^ 0xa6ed);
    let jump = |a: &mut Rng, k: &[u64]| -> u64 { *a.pick(k) - a.below(4) };
    let node_jump = if aged.chance(1, 6) { jump(&mut aged, &[256, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 40]) } else { 0 };
    let node_at = aged.below(8);
    let ptr_jump = if aged.chance(1, 30) && bucket >= 16 { (jump(&mut aged, &[1 << 31, 1 << 32, 1 << 32]) / chunk_size as u64) * chunk_size as u64 } else { 0 };
    let free_more = if aged.chance(1, 30) { *aged.pick(&[500u64, 8170, 8176, 9000]) } else { 0 };
    // indices: increasing, with gaps
    for d in dirs.iter() {
        let mut idx = 1;
        if aged.chance(1, 10) {
            idx = jump(&mut aged, &[256, 1 << 16, 1 << 31, (1 << 32) - 100_000]) as u32;
        }
        for en in m.ino_mut(*d).entries.iter_mut() {
            if r.chance(1, 5) {
                idx += r.range(1, 4) as u32;
            }
            en.idx = Some(idx);
            idx += 1;
        }
    }
    // nodes: increasing, with gaps, not in creation order for a few
    let mut node = 1;
    let all: Vec<Ino> = m.inodes.keys().copied().filter(|x| *x != ROOT).collect();
    for (k, i) in all.iter().enumerate() {
        if k as u64 == node_at {
            node = node.max(node_jump);
        }
        if r.chance(1, 4) {
            node += r.range(1, 5);
        }
        m.ino_mut(*i).node = Some(node);
        node += 1;
    }
    node = node.max(node_jump);
    m.ino_mut(ROOT).node = Some(0);
    if m.ino(ROOT).entries.is_empty() {
        m.ino_mut(ROOT).times = [0; 3];
    }
    // content
    let mut style: BTreeMap<Ino, u8> = BTreeMap::new();
    for i in files.iter() {
        style.insert(*i, r.below(4) as u8);
        let size = match r.below(6) {
            0 => 0,
            1 => r.below(5000),
            2 => r.range(1, 5) * 4096,
            3 => r.range(1, 3) * chunk_size as u64 + r.below(5),
            4 => r.below(200_000),
            _ => r.below(40_000),
        };
        let parts = r.range(1, 4);
        let mut data = Sparse::default();
        if size > 0 {
            for _ in 0..parts {
                let off = r.below(size);
                let len = r.below(size - off + 1).min(30_000) as usize;
                data.write(off, &fill(r.next() | 1, len));
            }
        }
        // a file of the first kind is told apart by its chunks: leave some data at the front
        let n = m.ino_mut(*i);
        n.size = size;
        n.data = data;
        if era >= 2 && r.chance(1, 5) {
            n.limit = Some(size + r.below(100_000));
        }
    }
    // mounted metadata
    let mut journal: Option<Ino> = None;
    let mut mounted: Vec<Ino> = vec![];
    for i in files.iter() {
        if r.chance(1, 5) {
            let size = r.below(150_000);
            let t = r.below(1 << 40);
            let use_journal = journal.is_none() && r.chance(1, 2);
            let n = m.ino_mut(*i);
            let limit = if era >= 2 && !use_journal && r.chance(1, 3) { Some(size + 100_000) } else { None };
            n.mmeta = Some(MMeta { size, times: [t, t + 5, t], limit });
            if use_journal {
                journal = Some(*i);
            } else {
                mounted.push(*i);
            }
        }
    }
    m.legacy = write_image;
    if !write_image {
        for n in m.inodes.values_mut() {
            n.node = None;
            for en in n.entries.iter_mut() {
                en.idx = None;
            }
        }
        m.ino_mut(ROOT).node = Some(0);
        return m;
    }

    // ---- layout
    let id = |k: u8| mm.get(MemoryId::new(start + k));
    let mut header = Cbor::default();
    header.map(2);
    header.text("version").uint(1).text("next_node").uint(node);
    let _ = StableCell::init(id(0), Raw(header.0));

    let mut metas: StableMap<u64, Raw, _> = StableMap::init(id(1));
    let mut dmap: StableMap<(u64, u32), Raw, _> = StableMap::init(id(2));
    let mut v1: StableMap<(u64, u32), Chunk4K, _> = StableMap::init(id(3));
    let mut mmap: StableMap<u64, Raw, _> = StableMap::init(id(4));
    let mut ptrs: StableMap<(u64, u32), u64, _> = StableMap::init(id(5));
    let alloc = id(6);
    let chunks = id(7);
    let mut max_ptr = 0u64;
    let mut free: Vec<u64> = vec![];
    // chunks that were used and freed, and chunks of data that is of no interest here
    for _ in 0..free_more {
        free.push(max_ptr);
        max_ptr += chunk_size as u64;
    }
    if max_ptr > 0 {
        grow_to(&chunks, max_ptr);
        for p in [0, max_ptr / 2 / chunk_size as u64 * chunk_size as u64] {
            chunks.write(p, &fill(98 + p, chunk_size as usize));
        }
    }
    max_ptr = max_ptr.max(ptr_jump);

    for (ino, n) in m.inodes.iter() {
        let node = n.node.unwrap();
        let st = style.get(ino).copied().unwrap_or(0);
        // 0: v1 untyped, 1: v1 typed, 2: v2 untyped, 3: v2 typed
        let v2 = st >= 2;
        let mut size_chunks: Vec<u64> = vec![];
        if !n.dir && n.size > 0 {
            let cs = if v2 { chunk_size as u64 } else { 4096 };
            let mut set: std::collections::BTreeSet<u64> = n.data.page_numbers().iter().map(|p| p * 4096 / cs).collect();
            // without any chunk an untyped file is of the first kind; keep the kinds apart
            if v2 {
                set.insert(0);
            }
            size_chunks = set.into_iter().filter(|c| c * cs < n.size).collect();
            if r.chance(1, 3) {
                // pointers need not be in order
                size_chunks.reverse();
            }
        }
        for c in size_chunks {
            if v2 {
                if r.chance(1, 6) {
                    free.push(max_ptr);
                    // dirty: belonged to another file
                    grow_to(&chunks, max_ptr + chunk_size as u64);
                    chunks.write(max_ptr, &fill(99 + max_ptr, chunk_size as usize));
                    max_ptr += chunk_size as u64;
                }
                let cs = chunk_size as u64;
                let mut d = n.data.get(c * cs, cs as usize);
                let keep = (n.size - c * cs).min(cs) as usize;
                d[keep..].fill(0);
                grow_to(&chunks, max_ptr + cs);
                chunks.write(max_ptr, &d);
                ptrs.insert((node, c as u32), max_ptr);
                max_ptr += cs;
            } else {
                let mut d = n.data.get(c * 4096, 4096);
                let keep = (n.size - c * 4096).min(4096) as usize;
                d[keep..].fill(0);
                v1.insert((node, c as u32), Chunk4K(d));
            }
        }
        let typed = if n.dir || era == 0 {
            None
        } else {
            match st {
                1 => Some(true),
                3 => Some(false),
                _ => None,
            }
        };
        let size = if n.dir { n.entries.len() as u64 } else { n.size };
        let chunk = typed;
        if *ino != ROOT || size > 0 {
            metas.insert(node, meta_cbor(&OldMeta { node, dir: n.dir, nlink: n.nlink, size, times: n.times, chunk, limit: n.limit, era }));
        }
        for en in n.entries.iter() {
            dmap.insert((node, en.idx.unwrap()), entry_cbor(&en.name, m.ino(en.ino).node.unwrap(), en.idx.unwrap(), old_entries));
        }
        if journal == Some(*ino) && r.chance(1, 2) {
            // the record the journal was newer than
            let (size, t) = (r.below(90_000), r.below(1 << 40));
            mmap.insert(node, meta_cbor(&OldMeta { node, dir: false, nlink: n.nlink, size, times: [t, t, t], chunk, limit: None, era }));
        }
        if mounted.contains(ino) {
            let mmeta = n.mmeta.as_ref().unwrap();
            mmap.insert(node, meta_cbor(&OldMeta { node, dir: false, nlink: n.nlink, size: mmeta.size, times: mmeta.times, chunk, limit: mmeta.limit, era }));
        }
    }
    // allocator
    if r.chance(1, 2) {
        free.reverse();
    }
    grow_to(&alloc, ((16 + free.len() as u64) * 8).max(65536));
    let marker: &[u8; 4] = if r.chance(2, 3) { b"ALO1" } else { b"FSA1" };
    alloc.write(0, marker);
    let stored = if max_ptr == 0 && chunk_size == 16384 && r.chance(1, 2) { 0 } else { chunk_size as u64 };
    alloc.write(8, &stored.to_le_bytes());
    alloc.write(16, &(free.len() as u64).to_le_bytes());
    alloc.write(24, &max_ptr.to_le_bytes());
    for (k, p) in free.iter().enumerate() {
        alloc.write((16 + k as u64) * 8, &p.to_le_bytes());
    }
    m.allocated = max_ptr > 0 || journal.is_some();
    // journal
    if let Some(i) = journal {
        let n = m.ino(i);
        let mmeta = n.mmeta.as_ref().unwrap();
        let j = id(8);
        grow_to(&j, 65536);
        j.write(0, b"FSJ1");
        let node = n.node.unwrap();
        j.write(16, &node.to_le_bytes());
        let mut old = MetadataLegacy { node, file_type: FileType::RegularFile, link_count: n.nlink, size: mmeta.size, ..Default::default() };
        old.times = Times { accessed: mmeta.times[0], modified: mmeta.times[1], created: mmeta.times[2] };
        let len = std::mem::size_of::<MetadataLegacy>();
        // the old version wrote the struct as it lay in memory
        let mut raw = vec![0u8; len];
        unsafe { std::ptr::copy_nonoverlapping(&old as *const _ as *const u8, raw.as_mut_ptr(), len) };
        j.write(24, &raw);
    } else if r.chance(1, 3) {
        let j = id(8);
        grow_to(&j, 65536);
        j.write(0, b"FSJ1");
        j.write(16, &u64::MAX.to_le_bytes());
    }
    m
}

/// Build the same tree through the interface.
pub fn build_modern(inst: &mut Inst, target: &Model, ctl: &Ctl) -> Result<(), Viol> {
    let fs = inst.fs.as_mut().unwrap();
    let mut t = target.clone();
    for n in t.inodes.values_mut() {
        n.node = None;
        for en in n.entries.iter_mut() {
            en.idx = None;
        }
    }
    t.ino_mut(ROOT).node = Some(0);
    t.legacy = false;
    t.chunk_size = inst.model.chunk_size;
    t.allocated = true;
    t.fds.clear();
    t.refs.clear();
    t.install_root(fs.root_fd());
    let r = guarded(ctl, || -> Result<(), Error> {
        let root = fs.root_fd();
        let mut placed: BTreeMap<Ino, String> = BTreeMap::new();
        let mut queue = vec![(ROOT, String::new())];
        let mut k = 0;
        while k < queue.len() {
            let (d, base) = queue[k].clone();
            k += 1;
            for en in t.ino(d).entries.iter() {
                let path = if base.is_empty() { en.name.clone() } else { format!("{}/{}", base, en.name) };
                let n = t.ino(en.ino);
                if let Some(p) = placed.get(&en.ino) {
                    let fd = fs.create_hard_link(root, p, root, &path)?;
                    fs.close(fd)?;
                    continue;
                }
                placed.insert(en.ino, path.clone());
                let fd = if n.dir {
                    queue.push((en.ino, path.clone()));
                    fs.create_open_directory(root, &path, FdStat::default(), n.times[2])?
                } else {
                    let fd = fs.open(root, &path, FdStat::default(), OpenFlags::CREATE, n.times[2])?;
                    for p in n.data.page_numbers() {
                        let off = p * PG as u64;
                        if off < n.size {
                            let len = (n.size - off).min(PG as u64) as usize;
                            fs.seek(fd, off as i64, Whence::SET)?;
                            fs.write(fd, &n.data.get(off, len))?;
                        }
                    }
                    fs.set_file_size(fd, n.size)?;
                    if let Some(l) = n.limit {
                        fs.set_file_size_limit(fd, l)?;
                    }
                    if let Some(mm) = &n.mmeta {
                        let mem = SimMemory::new(std::rc::Rc::new(Ctl::default()));
                        fs.mount_memory_file(&path, Box::new(mem), MountedFileSizePolicy::Explicit(mm.size.min(n.limit.unwrap_or(u64::MAX))))?;
                        let mut meta = fs.metadata(fd)?;
                        meta.size = mm.size;
                        meta.maximum_size_allowed = mm.limit;
                        meta.times = Times { accessed: mm.times[0], modified: mm.times[1], created: mm.times[2] };
                        fs.set_metadata(fd, meta)?;
                        fs.unmount_memory_file(&path)?;
                    }
                    fd
                };
                let mut meta = fs.metadata(fd)?;
                meta.times = Times { accessed: n.times[0], modified: n.times[1], created: n.times[2] };
                fs.set_metadata(fd, meta)?;
                fs.close(fd)?;
            }
        }
        let n = t.ino(ROOT);
        if !n.entries.is_empty() {
            let mut meta = fs.metadata(root)?;
            meta.times = Times { accessed: n.times[0], modified: n.times[1], created: n.times[2] };
            fs.set_metadata(root, meta)?;
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(x)) => return Err(Viol::new("building a tree failed", &["C16", "C03", "C01", "C10"], format!("{:?}", x))),
        Err(f) => return Err(Viol::new("building a tree trapped", &["C15", "C03", "C01", "C10"], format!("{:?}", f))),
    }
    inst.model = t;
    Ok(())
}

// ---- recorded images ------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct GEntry {
    name: String,
    ino: usize,
    idx: Option<u32>,
}
#[derive(Serialize, Deserialize)]
struct GNode {
    ino: usize,
    dir: bool,
    nlink: u64,
    size: u64,
    times: [u64; 3],
    limit: Option<u64>,
    node: Option<u64>,
    mmeta: Option<(u64, [u64; 3], Option<u64>)>,
    entries: Vec<GEntry>,
    pages: Vec<(u64, String)>,
}
#[derive(Serialize, Deserialize)]
struct GModel {
    next: usize,
    chunk_size: u32,
    nodes: Vec<GNode>,
    wasm: u64,
    image: Vec<(u64, String)>,
}

/// zero runs as '(n)', other bytes as hex
fn pack(b: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < b.len() {
        let mut z = i;
        while z < b.len() && b[z] == 0 {
            z += 1;
        }
        if z - i >= 4 || z == b.len() && z > i {
            s.push_str(&format!("({})", z - i));
            i = z;
        } else {
            s.push_str(&format!("{:02x}", b[i]));
            i += 1;
        }
    }
    s
}

fn unpack(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'(' {
            let e = s[i..].find(')').unwrap() + i;
            let n: usize = s[i + 1..e].parse().unwrap();
            v.resize(v.len() + n, 0);
            i = e + 1;
        } else {
            v.push(u8::from_str_radix(&s[i..i + 2], 16).unwrap());
            i += 2;
        }
    }
    v
}

pub fn save_golden(file: &str, m: &Model, img: (u64, Vec<(u64, Vec<u8>)>)) {
    let nodes = m
        .inodes
        .iter()
        .map(|(i, n)| GNode {
            ino: *i,
            dir: n.dir,
            nlink: n.nlink,
            size: n.size,
            times: n.times,
            limit: n.limit,
            node: n.node,
            mmeta: n.mmeta.as_ref().map(|x| (x.size, x.times, x.limit)),
            entries: n.entries.iter().map(|x| GEntry { name: x.name.clone(), ino: x.ino, idx: x.idx }).collect(),
            pages: n.data.page_numbers().into_iter().map(|p| (p, pack(&n.data.get(p * 4096, 4096)))).collect(),
        })
        .collect();
    let g = GModel { next: m.next, chunk_size: m.chunk_size, nodes, wasm: img.0, image: img.1.iter().map(|x| (x.0, pack(&x.1))).collect() };
    std::fs::write(file, serde_json::to_string(&g).unwrap()).unwrap();
}

pub fn golden_dir() -> String {
    std::env::var("DST_GOLDEN").unwrap_or_else(|_| format!("{}/golden", env!("CARGO_MANIFEST_DIR")))
}

pub fn golden_names() -> Vec<String> {
    let mut v: Vec<String> = match std::fs::read_dir(golden_dir()) {
        Ok(d) => d.flatten().filter_map(|e| e.file_name().into_string().ok()).filter(|n| n.ends_with(".json")).map(|n| n.trim_end_matches(".json").to_string()).collect(),
        Err(_) => vec![],
    };
    v.sort();
    v
}

pub fn golden(name: &str) -> (Model, (u64, Vec<(u64, Vec<u8>)>)) {
    let s = std::fs::read_to_string(format!("{}/{}.json", golden_dir(), name)).expect("golden image");
    let g: GModel = serde_json::from_str(&s).expect("golden image");
    let mut m = Model::new(false, g.chunk_size);
    m.inodes.clear();
    m.next = g.next;
    for n in g.nodes.iter() {
        let mut x = Inode::new(n.dir, 0);
        x.nlink = n.nlink;
        x.size = n.size;
        x.times = n.times;
        x.limit = n.limit;
        x.node = n.node;
        x.mmeta = n.mmeta.map(|(size, times, limit)| MMeta { size, times, limit });
        for (p, d) in n.pages.iter() {
            x.data.write(p * 4096, &unpack(d));
        }
        m.inodes.insert(n.ino, x);
    }
    for n in g.nodes.iter() {
        for en in n.entries.iter() {
            m.add_entry(n.ino, &en.name, en.ino);
            m.ino_mut(n.ino).entries.last_mut().unwrap().idx = en.idx;
        }
    }
    m.allocated = true;
    (m, (g.wasm, g.image.iter().map(|(p, d)| (*p, unpack(d))).collect()))
}
