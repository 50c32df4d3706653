//! Full comparison of a file system with the reference model, through the public interface only.
use crate::model::*;
use crate::prng::mix;
use crate::world::{err_name, stat_of};
use stable_fs::error::Error;
use stable_fs::fs::{DstBuf, Fd, FdStat, FileSystem, OpenFlags};
use stable_fs::storage::types::{FileType, Metadata};
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq)]
pub enum View {
    /// the running system: mounts and open descriptors count
    Live,
    /// just opened on the memory: no mounts, no descriptors
    Fresh,
}

#[derive(Clone, Debug)]
pub struct Disc {
    pub kind: String,
    pub tags: Vec<&'static str>,
    pub detail: String,
}

impl Disc {
    pub fn new(kind: &str, tags: &[&'static str], detail: String) -> Disc {
        Disc { kind: kind.to_string(), tags: tags.to_vec(), detail }
    }
}

/// Compare reported metadata with the model; learns the identity of an object when it is first seen.
pub fn cmp_meta(model: &mut Model, i: Ino, m: &Metadata, fresh: bool, how: &str) -> Vec<Disc> {
    let mut out = vec![];
    let n = model.ino(i);
    let mounted = !fresh && n.mount.is_some();
    let moved = n.moved;
    match n.node {
        Some(x) => {
            if x != m.node {
                let mut t = vec!["C03"];
                if moved {
                    t.push("C06");
                }
                out.push(Disc::new("identity", &t, format!("{}: node {} instead of {}", how, m.node, x)));
                return out;
            }
        }
        None => {
            if let Some(o) = model.inodes.iter().find(|(k, v)| **k != i && v.node == Some(m.node)) {
                let t = ["C02", "C03", "C06"];
                out.push(Disc::new("identity reused", &t, format!("{}: node {} belongs to another live object ({})", how, m.node, if o.1.dir { "directory" } else { "file" })));
                return out;
            }
            let node = m.node;
            model.ino_mut(i).node = Some(node);
        }
    }
    let n = model.ino(i);
    let want_type = if n.dir { FileType::Directory } else { FileType::RegularFile };
    if m.file_type != want_type {
        out.push(Disc::new("file type", &["C10", "C03"], format!("{}: node {} is {:?} instead of {:?}", how, m.node, m.file_type, want_type)));
    }
    if m.link_count != n.nlink {
        out.push(Disc::new("link count", &["C06", "C10"], format!("{}: node {} has {} links instead of {}", how, m.node, m.link_count, n.nlink)));
    }
    let (size, times, limit) = if fresh {
        (if n.dir { n.entries.len() as u64 } else { n.size }, n.times, n.limit)
    } else {
        (n.a_size(), n.a_times(), n.a_limit())
    };
    if m.size != size {
        let t: &[&'static str] = if n.dir {
            if moved {
                &["C03", "C06"]
            } else {
                &["C03"]
            }
        } else if mounted {
            &["C09", "C10"]
        } else {
            &["C10", "C01"]
        };
        out.push(Disc::new(if n.dir { "entry count" } else { "file size" }, t, format!("{}: node {} reports size {} instead of {}", how, m.node, m.size, size)));
    }
    let got = [m.times.accessed, m.times.modified, m.times.created];
    if got != times {
        let t: &[&'static str] = if mounted { &["C09", "C10"] } else { &["C10"] };
        out.push(Disc::new("times", t, format!("{}: node {} has times {:?} instead of {:?}", how, m.node, got, times)));
    }
    if m.maximum_size_allowed != limit {
        let t: &[&'static str] = if mounted { &["C09", "C10"] } else { &["C10"] };
        out.push(Disc::new("size limit", t, format!("{}: node {} has limit {:?} instead of {:?}", how, m.node, m.maximum_size_allowed, limit)));
    }
    out
}

fn show(s: &str) -> String {
    if s.len() > 40 {
        format!("{:?}..({} bytes)", s.chars().take(20).collect::<String>(), s.len())
    } else {
        format!("{:?}", s)
    }
}

/// A listing from index `from` with room for `room` entries: (index, name, node, type).
pub fn cmp_listing(model: &mut Model, dir: Ino, list: &[(u32, String, u64, Option<FileType>)], from: u32, room: usize) -> Vec<Disc> {
    let mut out = vec![];
    let untyped = model.legacy;
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    let mut last: Option<u32> = None;
    let (mut by_name, mut by_idx) = (HashMap::new(), HashMap::new());
    for (k, x) in model.ino(dir).entries.iter().enumerate() {
        by_name.entry(x.name.clone()).or_insert(k);
        if let Some(i) = x.idx {
            by_idx.insert(i, k);
        }
    }
    let mut nodes: Option<HashMap<u64, Ino>> = None;
    for (idx, name, node, ty) in list {
        let at = by_name.get(name).copied();
        let en = match at {
            Some(k) => model.ino(dir).entries[k].clone(),
            None => {
                let mut t = vec!["C03", "C11"];
                if model.ino(dir).moved {
                    t.push("C06");
                }
                if model.inodes.values().any(|x| x.moved && x.node == Some(*node)) {
                    t.push("C06");
                }
                out.push(Disc::new("listing has an extra name", &t, format!("{} (node {})", show(name), node)));
                continue;
            }
        };
        let t: &[&'static str] = if model.ino(en.ino).moved { &["C03", "C06", "C11"] } else { &["C03", "C11"] };
        if !seen.insert(en.eid) {
            out.push(Disc::new("listing repeats a name", &["C03", "C11"], show(name)));
            continue;
        }
        if last.map(|l| *idx <= l).unwrap_or(false) || *idx < from {
            out.push(Disc::new("listing out of order", &["C11", "C03"], format!("{} at index {} after {:?}, from {}", show(name), idx, last, from)));
        }
        last = Some(*idx);
        match en.idx {
            Some(x) if x != *idx => {
                out.push(Disc::new("entry index changed", &["C11", "C03"], format!("{} at index {}, was at {}", show(name), idx, x)));
            }
            Some(_) => {}
            None => {
                if let Some(o) = by_idx.get(idx) {
                    let o = model.ino(dir).entries[*o].name.clone();
                    out.push(Disc::new("entry index not unique", &["C11", "C03"], format!("{} and {} at {}", show(name), show(&o), idx)));
                }
                let k = at.unwrap();
                model.ino_mut(dir).entries[k].idx = Some(*idx);
                by_idx.insert(*idx, k);
            }
        }
        match model.ino(en.ino).node {
            Some(x) if x != *node => {
                out.push(Disc::new("entry leads to another object", t, format!("{} is node {} instead of {}", show(name), node, x)));
            }
            Some(_) => {}
            None => {
                let known = nodes.get_or_insert_with(|| model.inodes.iter().filter_map(|(k, v)| v.node.map(|n| (n, *k))).collect());
                if *known.entry(*node).or_insert(en.ino) != en.ino {
                    out.push(Disc::new("identity reused", &["C02", "C03", "C06"], format!("{}: node {} belongs to another object", show(name), node)));
                } else {
                    model.ino_mut(en.ino).node = Some(*node);
                }
            }
        }
        let want = if model.ino(en.ino).dir { FileType::Directory } else { FileType::RegularFile };
        if *ty != Some(want) && !(untyped && ty.is_none()) {
            out.push(Disc::new("entry type", t, format!("{} is listed as {:?} instead of {:?}", show(name), ty, want)));
        }
    }
    if list.len() < room {
        for en in model.ino(dir).entries.iter() {
            if !seen.contains(&en.eid) && (from == 0 || en.idx.map(|x| x >= from).unwrap_or(false)) {
                let t: &[&'static str] = if model.ino(en.ino).moved { &["C03", "C06", "C11"] } else { &["C03", "C11"] };
                out.push(Disc::new("listing misses a name", t, show(&en.name)));
            }
        }
    }
    out
}

fn read_at(fs: &mut FileSystem, fd: Fd, off: u64, len: usize) -> Result<Vec<u8>, String> {
    let mut buf = vec![0xEEu8; len];
    let iov = [DstBuf { buf: buf.as_mut_ptr(), len }];
    match fs.read_vec_with_offset(fd, &iov, off) {
        Ok(n) if n as usize <= len => {
            buf.truncate(n as usize);
            Ok(buf)
        }
        Ok(n) => Err(format!("read of {} bytes returned {}", len, n)),
        Err(x) => Err(err_name(&x)),
    }
}

/// content of an open file
fn content(fs: &mut FileSystem, model: &Model, mems: &[MemModel], i: Ino, fd: Fd, view: View, deep: bool, out: &mut Vec<Disc>) {
    let n = model.ino(i);
    let mounted = view == View::Live && n.mount.is_some();
    let tag: &'static str = if mounted { "C09" } else { "C01" };
    let size = if mounted { n.a_size() } else { n.size };
    let want = |off: u64, len: usize| -> Vec<u8> {
        if off >= size {
            return vec![];
        }
        let len = (len as u64).min(size - off) as usize;
        if mounted {
            mems[n.mount.unwrap() as usize].bytes.get(off, len)
        } else {
            n.data.get(off, len)
        }
    };
    let mut ranges: Vec<(u64, usize)> = vec![];
    let whole = if deep { 1 << 20 } else { 128 << 10 };
    if size <= whole {
        ranges.push((0, size as usize + 5));
    } else {
        let pages = if mounted { mems[n.mount.unwrap() as usize].bytes.page_numbers() } else { n.data.page_numbers() };
        let cap = if deep { 400 } else { 40 };
        let step = (pages.len() / cap).max(1);
        let mut k = (mix(model.eid ^ i as u64) % step as u64) as usize;
        while k < pages.len() {
            let o = pages[k] * 4096;
            let a = o.saturating_sub(3);
            ranges.push((a, 4096 + 6));
            k += step;
        }
        ranges.push((0, 300));
        ranges.push((size - size % 65536, 40));
        ranges.push((size.saturating_sub(200), 260));
        ranges.push((mix(model.eid) % size, 200));
        ranges.push((size, 10));
    }
    for (off, mut len) in ranges {
        if mounted {
            // a read through the file makes the memory larger: an audit stays within what is there
            let end = mems[n.mount.unwrap() as usize].pages << 16;
            if off >= end {
                continue;
            }
            len = len.min((end - off) as usize);
        }
        let w = want(off, len);
        match read_at(fs, fd, off, len) {
            Ok(g) => {
                if g.len() != w.len() {
                    out.push(Disc::new("read length", &[tag], format!("node {:?}: {} bytes at {} instead of {} (size {})", n.node, g.len(), off, w.len(), size)));
                    return;
                }
                if let Some(p) = g.iter().zip(w.iter()).position(|(a, b)| a != b) {
                    out.push(Disc::new("content", &[tag], format!("node {:?}: byte {} is {:#x} instead of {:#x} (size {})", n.node, off + p as u64, g[p], w[p], size)));
                    return;
                }
            }
            Err(x) => {
                out.push(Disc::new("read failed", &[tag, "C16"], format!("node {:?} at {}: {}", n.node, off, x)));
                return;
            }
        }
    }
}

fn walk(fs: &mut FileSystem, model: &mut Model, mems: &[MemModel], view: View, deep: bool, dir: Ino, fd: Fd, done: &mut BTreeSet<Ino>, out: &mut Vec<Disc>) {
    let fresh = view == View::Fresh;
    // listing
    let mut list = vec![];
    let r = fs.with_direntries(fd, None, &mut |i, en| {
        list.push((*i, en.name.to_string(), en.node, en.entry_type));
        list.len() < 200_000
    });
    if let Err(x) = r {
        out.push(Disc::new("listing failed", &["C03", "C16"], err_name(&x)));
        return;
    }
    if list.len() < 2 || list[0].1 != "." || list[1].1 != ".." {
        out.push(Disc::new("dot entries", &["C03"], format!("{:?}", list.iter().take(2).map(|x| &x.1).collect::<Vec<_>>())));
        return;
    }
    list.drain(..2);
    out.extend(cmp_listing(model, dir, &list, 0, usize::MAX));
    if out.len() > 20 {
        return;
    }
    let entries = model.ino(dir).entries.clone();
    // with many entries look at a sample
    let step = if deep { 1 } else { (entries.len() / 150).max(1) };
    let mut k = if step > 1 { (mix(model.eid) % step as u64) as usize } else { 0 };
    while k < entries.len() {
        let en = &entries[k];
        k += step;
        let moved = model.ino(en.ino).moved;
        let t: &[&'static str] = if moved { &["C03", "C06", "C16"] } else { &["C03", "C16"] };
        match fs.open_metadata(fd, &en.name) {
            Ok(m) => out.extend(cmp_meta(model, en.ino, &m, fresh, "open_metadata")),
            Err(x) => {
                out.push(Disc::new("lookup failed", t, format!("{}: {}", show(&en.name), err_name(&x))));
                continue;
            }
        }
        if !done.insert(en.ino) {
            continue;
        }
        match fs.open(fd, &en.name, FdStat::default(), OpenFlags::empty(), 0) {
            Ok(f) => {
                match fs.metadata(f) {
                    Ok(m) => out.extend(cmp_meta(model, en.ino, &m, fresh, "metadata")),
                    Err(x) => out.push(Disc::new("metadata failed", &["C10", "C16"], format!("{}: {}", show(&en.name), err_name(&x)))),
                }
                if out.is_empty() {
                    if model.ino(en.ino).dir {
                        walk(fs, model, mems, view, deep, en.ino, f, done, out);
                    } else {
                        content(fs, model, mems, en.ino, f, view, deep, out);
                    }
                }
                if let Err(x) = fs.close(f) {
                    out.push(Disc::new("close failed", &["C08", "C16"], err_name(&x)));
                }
            }
            Err(x) => out.push(Disc::new("open failed", t, format!("{}: {}", show(&en.name), err_name(&x)))),
        }
        if out.len() > 20 {
            return;
        }
    }
}

pub fn audit(fs: &mut FileSystem, model: &mut Model, mems: &[MemModel], view: View, deep: bool) -> Vec<Disc> {
    let mut out = vec![];
    let root = fs.root_fd();
    if root != 3 || fs.root_path() != "/" {
        out.push(Disc::new("root", &["C03", "C08"], format!("descriptor {} path {:?}", root, fs.root_path())));
    }
    let ver = fs.get_storage_version();
    if *model.version.get_or_insert(ver) != ver {
        out.push(Disc::new("storage version changed", &["C02", "C13"], format!("{} instead of {:?}", ver, model.version)));
    }
    if view == View::Live {
        descriptors(fs, model, &mut out);
    }
    match fs.metadata(root) {
        Ok(m) => out.extend(cmp_meta(model, ROOT, &m, view == View::Fresh, "root")),
        Err(x) => out.push(Disc::new("metadata failed", &["C03", "C16"], format!("root: {}", err_name(&x)))),
    }
    let mut done = BTreeSet::new();
    done.insert(ROOT);
    walk(fs, model, mems, view, deep, ROOT, root, &mut done, &mut out);
    if out.is_empty() && model.inodes.values().all(|n| n.node.is_some()) {
        let live: BTreeSet<u64> = model.inodes.values().filter_map(|n| n.node).collect();
        for n in model.gone.iter().filter(|n| !live.contains(n)) {
            match fs.metadata_from_node(*n) {
                Err(Error::NoSuchFileOrDirectory) => {}
                Ok(m) => out.push(Disc::new("a removed object is still there", &["C10", "C03", "C07"], format!("node {}: {:?}", n, m))),
                Err(x) => out.push(Disc::new("metadata failed", &["C10", "C16"], format!("node {}, removed: {}", n, err_name(&x)))),
            }
        }
    }
    out
}

fn descriptors(fs: &mut FileSystem, model: &mut Model, out: &mut Vec<Disc>) {
    let fds: Vec<u32> = model.fds.keys().copied().collect();
    for fd in fds.iter().copied() {
        let f = model.fds[&fd].clone();
        match fs.get_stat(fd) {
            Ok((ft, st)) => {
                let want = stat_of(f.flags, f.rights);
                if fd > 3 && ((ft == FileType::Directory) != f.dir || st.flags != want.flags || st.rights_base != want.rights_base) {
                    out.push(Disc::new("descriptor flags", &["C08"], format!("descriptor {}: {:?} {:?}, expected {:?}", fd, ft, st, want)));
                }
            }
            Err(x) => {
                out.push(Disc::new("descriptor lost", &["C08"], format!("descriptor {}: {}", fd, err_name(&x))));
                continue;
            }
        }
        match fs.metadata(fd) {
            Ok(m) => out.extend(cmp_meta(model, f.ino, &m, false, "descriptor").into_iter().map(|mut d| {
                if d.kind == "identity" {
                    d.tags.push("C08");
                }
                d
            })),
            Err(x) => out.push(Disc::new("metadata failed", &["C08", "C16"], format!("descriptor {}: {}", fd, err_name(&x)))),
        }
        if !f.dir {
            match fs.tell(fd) {
                Ok(p) => {
                    if p == f.cursor {
                    } else if f.alt == Some(p) {
                        let g = model.fds.get_mut(&fd).unwrap();
                        g.cursor = p;
                        g.alt = None;
                    } else {
                        out.push(Disc::new("descriptor position", &["C08"], format!("descriptor {} at {} instead of {}", fd, p, f.cursor)));
                    }
                }
                Err(x) => out.push(Disc::new("tell failed", &["C08", "C16"], err_name(&x))),
            }
        }
    }
    // nothing else is open
    let top = fds.iter().filter(|x| **x < 100_000).max().copied().unwrap_or(3) + 4;
    for fd in 4..top {
        if !model.fds.contains_key(&fd) && fs.get_stat(fd).is_ok() {
            out.push(Disc::new("closed descriptor works", &["C08"], format!("descriptor {}", fd)));
        }
    }
}
