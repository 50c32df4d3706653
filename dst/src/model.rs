//! The reference model: what the file system should be after a history.
use crate::disk::{Sparse, WASM};
use std::collections::{BTreeMap, BTreeSet};

pub type Ino = usize;
pub const ROOT: Ino = 0;
pub const MAX_FILE_SIZE: u64 = (u32::MAX as u64 - 10) * 4096;
pub const MAX_NAME: usize = 255;

// open flags
pub const O_CREATE: u16 = 1;
pub const O_DIRECTORY: u16 = 2;
pub const O_EXCL: u16 = 4;
pub const O_TRUNC: u16 = 8;
// fd flags
pub const F_APPEND: u16 = 1;
pub const F_NONBLOCK: u16 = 4;
pub const R_READ: u8 = 1;
pub const R_WRITE: u8 = 2;

/// The set of errors that name a true reason.
pub type E = BTreeSet<&'static str>;

pub fn e(names: &[&'static str]) -> E {
    names.iter().copied().collect()
}

pub const NOENT: &str = "NoSuchFileOrDirectory";
pub const PERM: &str = "OperationNotPermitted";
pub const BADF: &str = "BadFileDescriptor";
pub const NOTDIR: &str = "NotADirectoryOrSymbolicLink";
pub const EXIST: &str = "FileExists";
pub const INVAL: &str = "InvalidArgument";
pub const TOOLONG: &str = "FilenameTooLong";
pub const BUSY: &str = "TextFileBusy";
pub const DEVBUSY: &str = "DeviceOrResourceBusy";
pub const ISDIR: &str = "IsDirectory";
pub const NOTEMPTY: &str = "DirectoryNotEmpty";
pub const ACCES: &str = "PermissionDenied";
pub const FBIG: &str = "FileTooLarge";
pub const SPIPE: &str = "InvalidSeek";
pub const NODEV: &str = "NoSuchDevice";

#[derive(Clone, Debug)]
pub struct MMeta {
    pub size: u64,
    pub times: [u64; 3],
    pub limit: Option<u64>,
}

#[derive(Clone)]
pub struct Entry {
    pub name: String,
    pub ino: Ino,
    pub idx: Option<u32>,
    pub eid: u64,
}

#[derive(Clone)]
pub struct Inode {
    pub dir: bool,
    pub nlink: u64,
    pub size: u64,
    pub data: Sparse,
    /// accessed, modified, created
    pub times: [u64; 3],
    pub limit: Option<u64>,
    pub entries: Vec<Entry>,
    pub node: Option<u64>,
    pub mount: Option<u8>,
    pub mmeta: Option<MMeta>,
    /// was renamed or linked, or replaced something
    pub moved: bool,
}

#[derive(Clone)]
pub struct MFd {
    pub ino: Ino,
    pub dir: bool,
    pub cursor: u64,
    /// position not determined by the interface (truncating open in append mode)
    pub alt: Option<u64>,
    pub flags: u16,
    pub rights: u8,
}

#[derive(Clone, Default)]
pub struct MemModel {
    pub bytes: Sparse,
    /// pages the memory has (noted before an audit)
    pub pages: u64,
}

#[derive(Clone)]
pub struct Model {
    pub inodes: BTreeMap<Ino, Inode>,
    pub next: Ino,
    pub fds: BTreeMap<u32, MFd>,
    pub refs: BTreeMap<Ino, u32>,
    pub eid: u64,
    pub transient: bool,
    pub chunk_size: u32,
    pub allocated: bool,
    /// node numbers of removed objects must not come back while... they are only required to be unique among live ones
    pub parents: BTreeMap<Ino, Ino>,
    /// came from an image whose entries have no type
    pub legacy: bool,
    pub version: Option<u32>,
    /// nodes of the objects removed last
    pub gone: Vec<u64>,
}

#[derive(Debug, Clone)]
pub enum RenameOk {
    /// nothing to do, both names already refer to the object
    Same,
    Done,
}

/// Lexical path handling of the interface.
pub fn parts(path: &str) -> Result<Vec<&str>, E> {
    if path.starts_with('/') {
        return Err(e(&[PERM]));
    }
    let mut v: Vec<&str> = vec![];
    for p in path.split('/') {
        if p == ".." {
            if v.pop().is_none() {
                return Err(e(&[PERM]));
            }
        } else if p.is_empty() || p == "." {
        } else {
            v.push(p);
        }
    }
    Ok(v)
}

impl Inode {
    pub fn new(dir: bool, t: u64) -> Inode {
        Inode {
            dir,
            nlink: 1,
            size: 0,
            data: Sparse::default(),
            times: [t, t, t],
            limit: None,
            entries: vec![],
            node: None,
            mount: None,
            mmeta: None,
            moved: false,
        }
    }
    pub fn find(&self, name: &str) -> Option<&Entry> {
        self.entries.iter().find(|x| x.name == name)
    }
    pub fn a_size(&self) -> u64 {
        if self.dir {
            self.entries.len() as u64
        } else if self.mount.is_some() {
            self.mmeta.as_ref().unwrap().size
        } else {
            self.size
        }
    }
    pub fn a_limit(&self) -> Option<u64> {
        if self.mount.is_some() {
            self.mmeta.as_ref().unwrap().limit
        } else {
            self.limit
        }
    }
    pub fn a_times(&self) -> [u64; 3] {
        if self.mount.is_some() {
            self.mmeta.as_ref().unwrap().times
        } else {
            self.times
        }
    }
    pub fn a_times_mut(&mut self) -> &mut [u64; 3] {
        if self.mount.is_some() {
            &mut self.mmeta.as_mut().unwrap().times
        } else {
            &mut self.times
        }
    }
    fn set_a_limit(&mut self, l: Option<u64>) {
        if self.mount.is_some() {
            self.mmeta.as_mut().unwrap().limit = l
        } else {
            self.limit = l
        }
    }
    pub fn max_size(&self) -> u64 {
        self.a_limit().unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE)
    }
}

impl Model {
    pub fn new(transient: bool, chunk_size: u32) -> Model {
        let mut inodes = BTreeMap::new();
        inodes.insert(ROOT, Inode::new(true, 0));
        Model {
            inodes,
            next: 1,
            fds: BTreeMap::new(),
            refs: BTreeMap::new(),
            eid: 0,
            transient,
            chunk_size,
            allocated: false,
            parents: BTreeMap::new(),
            legacy: false,
            version: None,
            gone: vec![],
        }
    }

    pub fn ino(&self, i: Ino) -> &Inode {
        &self.inodes[&i]
    }
    pub fn ino_mut(&mut self, i: Ino) -> &mut Inode {
        self.inodes.get_mut(&i).unwrap()
    }

    // ---- descriptors -------------------------------------------------

    pub fn install_root(&mut self, fd: u32) {
        self.install_fd(fd, MFd { ino: ROOT, dir: true, cursor: 0, alt: None, flags: 0, rights: 3 });
    }
    pub fn install_fd(&mut self, fd: u32, f: MFd) {
        *self.refs.entry(f.ino).or_default() += 1;
        self.fds.insert(fd, f);
    }
    pub fn drop_fd(&mut self, fd: u32) -> Option<MFd> {
        let f = self.fds.remove(&fd)?;
        let r = self.refs.get_mut(&f.ino).unwrap();
        *r -= 1;
        if *r == 0 {
            self.refs.remove(&f.ino);
        }
        Some(f)
    }
    pub fn is_open(&self, i: Ino) -> bool {
        self.refs.contains_key(&i)
    }
    pub fn dir_of(&self, fd: u32) -> Result<Ino, E> {
        match self.fds.get(&fd) {
            None => Err(e(&[BADF])),
            Some(f) if !f.dir => Err(e(&[NOTDIR, BADF])),
            Some(f) => Ok(f.ino),
        }
    }
    pub fn file_of(&self, fd: u32) -> Result<&MFd, E> {
        match self.fds.get(&fd) {
            None => Err(e(&[BADF])),
            Some(f) if f.dir => Err(e(&[BADF, ISDIR])),
            Some(f) => Ok(f),
        }
    }
    /// heap is gone
    pub fn restart(&mut self) {
        self.fds.clear();
        self.refs.clear();
        for i in self.inodes.values_mut() {
            i.mount = None;
        }
    }

    // ---- names -------------------------------------------------------

    pub fn lookup(&self, dir: Ino, p: &[&str]) -> Result<Ino, E> {
        let mut cur = dir;
        let mut errs = E::new();
        if p.iter().any(|x| x.len() > MAX_NAME) {
            errs.insert(TOOLONG);
        }
        for part in p {
            let n = self.ino(cur);
            if !n.dir {
                errs.insert(NOENT);
                errs.insert(NOTDIR);
                return Err(errs);
            }
            match n.find(part) {
                Some(en) => cur = en.ino,
                None => {
                    if part.len() <= MAX_NAME {
                        errs.insert(NOENT);
                    }
                    return Err(errs);
                }
            }
        }
        Ok(cur)
    }

    pub fn resolve(&self, dir: Ino, path: &str) -> Result<Ino, E> {
        self.lookup(dir, &parts(path)?)
    }

    /// directories on the existing part of a path, the start included
    fn chain(&self, dir: Ino, p: &[&str]) -> Vec<Ino> {
        let mut v = vec![dir];
        let mut cur = dir;
        for part in p {
            match self.ino(cur).find(part) {
                Some(en) => {
                    cur = en.ino;
                    v.push(cur);
                }
                None => break,
            }
        }
        v
    }

    pub fn is_under(&self, i: Ino, anc: Ino) -> bool {
        let mut cur = i;
        loop {
            if cur == anc {
                return true;
            }
            match self.parents.get(&cur) {
                Some(p) => cur = *p,
                None => return false,
            }
        }
    }

    /// can the path be created (it does not exist)?
    fn can_create(&self, dir: Ino, p: &[&str]) -> Result<(), E> {
        let mut errs = E::new();
        if p.iter().any(|x| x.len() > MAX_NAME) {
            errs.insert(TOOLONG);
        }
        let ch = self.chain(dir, p);
        let last = *ch.last().unwrap();
        if !self.ino(last).dir {
            errs.insert(INVAL);
            errs.insert(NOTDIR);
            errs.insert(NOENT);
        }
        if errs.is_empty() {
            Ok(())
        } else {
            Err(errs)
        }
    }

    pub fn add_entry(&mut self, dir: Ino, name: &str, ino: Ino) {
        self.eid += 1;
        let eid = self.eid;
        self.ino_mut(dir).entries.push(Entry { name: name.to_string(), ino, idx: None, eid });
        if self.ino(ino).dir {
            self.parents.insert(ino, dir);
        }
    }
    fn del_entry(&mut self, dir: Ino, name: &str) {
        let d = self.ino_mut(dir);
        let p = d.entries.iter().position(|x| x.name == name).unwrap();
        d.entries.remove(p);
    }
    pub fn new_inode(&mut self, dir: bool, t: u64) -> Ino {
        let i = self.next;
        self.next += 1;
        self.inodes.insert(i, Inode::new(dir, t));
        self.allocated = true;
        i
    }
    /// create missing directories on the path except the last part; returns the directory of the last part
    fn make_parents(&mut self, dir: Ino, p: &[&str], t: u64) -> Ino {
        let mut cur = dir;
        for part in &p[..p.len() - 1] {
            let next = self.ino(cur).find(part).map(|x| x.ino);
            cur = match next {
                Some(i) => i,
                None => {
                    let i = self.new_inode(true, t);
                    self.add_entry(cur, part, i);
                    i
                }
            };
        }
        cur
    }
    /// the path does not exist
    pub fn create(&mut self, dir: Ino, p: &[&str], is_dir: bool, t: u64) -> Result<Ino, E> {
        self.can_create(dir, p)?;
        let d = self.make_parents(dir, p, t);
        let i = self.new_inode(is_dir, t);
        self.add_entry(d, p.last().unwrap(), i);
        Ok(i)
    }

    pub fn open(&mut self, dirfd: u32, path: &str, oflags: u16, fflags: u16, rights: u8, t: u64) -> Result<(MFd, bool), E> {
        let dir = self.dir_of(dirfd).map_err(|mut x| {
            if let Err(y) = parts(path) {
                x.extend(y)
            }
            x
        })?;
        let p = parts(path)?;
        match self.lookup(dir, &p) {
            Ok(i) => {
                if oflags & O_CREATE != 0 && oflags & O_EXCL != 0 {
                    return Err(e(&[EXIST]));
                }
                Ok((self.open_existing(i, oflags, fflags, rights)?, false))
            }
            Err(x) => {
                if oflags & O_CREATE == 0 {
                    return Err(x);
                }
                let is_dir = oflags & O_DIRECTORY != 0;
                let i = self.create(dir, &p, is_dir, t)?;
                Ok((MFd { ino: i, dir: is_dir, cursor: 0, alt: None, flags: fflags, rights }, true))
            }
        }
    }

    pub fn open_existing(&mut self, i: Ino, oflags: u16, fflags: u16, rights: u8) -> Result<MFd, E> {
        let n = self.ino(i);
        if n.dir {
            return Ok(MFd { ino: i, dir: true, cursor: 0, alt: None, flags: fflags, rights });
        }
        if oflags & O_DIRECTORY != 0 {
            return Err(e(&[PERM, NOTDIR]));
        }
        let old = n.a_size();
        let mut cursor = if fflags & F_APPEND != 0 { old } else { 0 };
        let mut alt = None;
        if oflags & O_TRUNC != 0 {
            self.set_size(i, 0)?;
            if cursor != 0 {
                alt = Some(cursor);
                cursor = 0;
            }
        }
        Ok(MFd { ino: i, dir: false, cursor, alt, flags: fflags, rights })
    }

    pub fn mkdir(&mut self, dirfd: u32, path: &str, t: u64) -> Result<Ino, E> {
        let dir = self.dir_of(dirfd)?;
        let p = parts(path)?;
        match self.lookup(dir, &p) {
            Ok(_) => Err(e(&[EXIST])),
            Err(_) => self.create(dir, &p, true, t),
        }
    }

    /// what there is: objects, names and pages of data
    pub fn units(&self) -> u64 {
        self.inodes.values().map(|n| 1 + n.entries.len() + n.data.page_count() + if n.mount.is_some() || n.mmeta.is_some() { (n.a_size() / 4096).min(1 << 20) as usize } else { 0 }).sum::<usize>() as u64
    }

    fn free_if_unlinked(&mut self, i: Ino) {
        if self.ino(i).nlink == 0 {
            if let Some(n) = self.inodes.remove(&i).and_then(|x| x.node) {
                if self.gone.len() == 24 {
                    self.gone.remove(0);
                }
                self.gone.push(n);
            }
            self.parents.remove(&i);
        }
    }

    /// reasons not to unlink this object
    fn unlink_reasons(&self, i: Ino) -> E {
        let mut errs = E::new();
        let n = self.ino(i);
        if n.mount.is_some() {
            errs.insert(BUSY);
            errs.insert(DEVBUSY);
        }
        if n.nlink == 1 && self.is_open(i) {
            errs.insert(BUSY);
        }
        errs
    }

    pub fn remove_file(&mut self, dirfd: u32, path: &str) -> Result<(), E> {
        let dir = self.dir_of(dirfd)?;
        self.remove_at(dir, path, false)
    }
    pub fn remove_dir(&mut self, dirfd: u32, path: &str) -> Result<(), E> {
        let dir = self.dir_of(dirfd)?;
        self.remove_at(dir, path, true)
    }

    fn remove_at(&mut self, dir: Ino, path: &str, want_dir: bool) -> Result<(), E> {
        let p = parts(path)?;
        let i = self.lookup(dir, &p)?;
        let n = self.ino(i);
        let mut errs = E::new();
        if n.dir && !want_dir {
            errs.insert(ISDIR);
        }
        if !n.dir && want_dir {
            errs.insert(NOTDIR);
        }
        if n.dir && !n.entries.is_empty() {
            errs.insert(NOTEMPTY);
        }
        errs.extend(self.unlink_reasons(i));
        if p.is_empty() {
            errs.insert(INVAL);
            errs.insert(BUSY);
        }
        if !errs.is_empty() {
            return Err(errs);
        }
        let ch = self.chain(dir, &p);
        let d = ch[ch.len() - 2];
        self.del_entry(d, p.last().unwrap());
        self.ino_mut(i).nlink -= 1;
        self.free_if_unlinked(i);
        Ok(())
    }

    /// partial removal on failure is part of the contract
    pub fn remove_rec(&mut self, dirfd: u32, path: &str) -> Result<(), E> {
        let dir = self.dir_of(dirfd)?;
        self.remove_rec_at(dir, path)
    }
    fn remove_rec_at(&mut self, dir: Ino, path: &str) -> Result<(), E> {
        let p = parts(path)?;
        let i = self.lookup(dir, &p)?;
        if !self.ino(i).dir {
            return self.remove_at(dir, path, false);
        }
        let kids: Vec<String> = self.ino(i).entries.iter().map(|x| x.name.clone()).collect();
        let mut failed: Option<E> = None;
        for k in kids {
            if let Err(x) = self.remove_rec_at(i, &k) {
                failed = Some(x);
                break;
            }
        }
        match self.remove_at(dir, path, true) {
            Ok(()) => Ok(()),
            Err(mut x) => {
                if let Some(f) = failed {
                    x.extend(f);
                }
                Err(x)
            }
        }
    }

    pub fn link(&mut self, ofd: u32, opath: &str, nfd: u32, npath: &str, rename: bool) -> Result<(Ino, RenameOk), E> {
        let sdir = self.dir_of(ofd)?;
        let ddir = self.dir_of(nfd)?;
        let sp = parts(opath)?;
        let src = self.lookup(sdir, &sp)?;
        let src_is_dir = self.ino(src).dir;
        let mut errs = E::new();
        if sp.is_empty() {
            errs.insert(INVAL);
            errs.insert(BUSY);
            errs.insert(PERM);
        }
        if !rename && src_is_dir {
            errs.insert(PERM);
        }
        let dp = match parts(npath) {
            Ok(p) => p,
            Err(x) => {
                errs.extend(x);
                return Err(errs);
            }
        };
        if rename && src_is_dir {
            // into its own subtree
            let dst = self.lookup(ddir, &dp).ok();
            let ch = self.chain(ddir, &dp);
            let parent = if dst.is_some() && ch.len() >= 2 { ch[ch.len() - 2] } else { *ch.last().unwrap() };
            if self.is_under(parent, src) && dst != Some(src) {
                errs.insert(INVAL);
            }
        }
        match self.lookup(ddir, &dp) {
            Ok(dst) => {
                if dst == src {
                    if dp.is_empty() {
                        errs.insert(INVAL);
                        errs.insert(BUSY);
                    }
                    if errs.is_empty() {
                        return Ok((src, RenameOk::Same));
                    }
                    return Err(errs);
                }
                let d = self.ino(dst);
                if d.dir != src_is_dir {
                    if d.dir {
                        errs.insert(ACCES);
                        errs.insert(ISDIR);
                    } else {
                        errs.insert(NOTDIR);
                    }
                }
                if d.dir && !d.entries.is_empty() {
                    errs.insert(NOTEMPTY);
                }
                errs.extend(self.unlink_reasons(dst));
                if dp.is_empty() {
                    errs.insert(INVAL);
                    errs.insert(BUSY);
                }
                if rename && self.ino(src).mount.is_some() {
                    errs.insert(BUSY);
                    errs.insert(DEVBUSY);
                }
                if !errs.is_empty() {
                    return Err(errs);
                }
                let ch = self.chain(ddir, &dp);
                let pd = ch[ch.len() - 2];
                self.del_entry(pd, dp.last().unwrap());
                self.ino_mut(dst).nlink -= 1;
                self.ino_mut(dst).moved = true;
                self.free_if_unlinked(dst);
            }
            Err(_) => {
                if let Err(x) = self.can_create(ddir, &dp) {
                    errs.extend(x);
                }
                if rename && self.ino(src).mount.is_some() {
                    errs.insert(BUSY);
                    errs.insert(DEVBUSY);
                }
                if !errs.is_empty() {
                    return Err(errs);
                }
            }
        }
        let t = self.ino(src).a_times()[2];
        // the source entry's own directory, before anything moves
        let sch = self.chain(sdir, &sp);
        let sd = sch[sch.len() - 2];
        let pd = self.make_parents(ddir, &dp, t);
        if rename {
            self.del_entry(sd, sp.last().unwrap());
        } else {
            self.ino_mut(src).nlink += 1;
        }
        self.ino_mut(src).moved = true;
        self.add_entry(pd, dp.last().unwrap(), src);
        self.allocated = true;
        Ok((src, RenameOk::Done))
    }

    // ---- content -----------------------------------------------------

    pub fn set_size(&mut self, i: Ino, size: u64) -> Result<(), E> {
        let n = self.ino_mut(i);
        if size > n.max_size() {
            return Err(e(&[FBIG, INVAL]));
        }
        if n.mount.is_some() {
            n.mmeta.as_mut().unwrap().size = size;
        } else {
            if size < n.size {
                n.data.truncate(size);
            }
            n.size = size;
        }
        Ok(())
    }

    pub fn set_limit(&mut self, i: Ino, limit: Option<u64>) -> Result<(), E> {
        let n = self.ino_mut(i);
        if let Some(l) = limit {
            if n.a_size() > l {
                return Err(e(&[FBIG, INVAL]));
            }
        }
        n.set_a_limit(limit);
        Ok(())
    }

    pub fn can_write(&self, i: Ino, off: u64, len: u64) -> Result<(), E> {
        if len == 0 {
            return Ok(());
        }
        let n = self.ino(i);
        match off.checked_add(len) {
            Some(end) if end <= n.max_size() => Ok(()),
            _ => Err(e(&[FBIG, INVAL])),
        }
    }

    pub fn write(&mut self, mems: &mut [MemModel], i: Ino, off: u64, buf: &[u8]) -> Result<u64, E> {
        self.can_write(i, off, buf.len() as u64)?;
        if buf.is_empty() {
            return Ok(0);
        }
        let end = off + buf.len() as u64;
        let n = self.ino_mut(i);
        match n.mount {
            Some(m) => {
                mems[m as usize].bytes.write(off, buf);
                let mm = n.mmeta.as_mut().unwrap();
                mm.size = mm.size.max(end);
            }
            None => {
                n.data.write(off, buf);
                n.size = n.size.max(end);
            }
        }
        Ok(buf.len() as u64)
    }

    pub fn read(&self, mems: &[MemModel], i: Ino, off: u64, len: usize) -> Vec<u8> {
        let n = self.ino(i);
        let size = n.a_size();
        if off >= size {
            return vec![];
        }
        let len = (len as u64).min(size - off) as usize;
        match n.mount {
            Some(m) => mems[m as usize].bytes.get(off, len),
            None => n.data.get(off, len),
        }
    }

    pub fn seek(&self, f: &MFd, delta: i64, whence: u8) -> Result<u64, E> {
        let size = self.ino(f.ino).a_size();
        match whence {
            0 => {
                if delta < 0 {
                    Err(e(&[INVAL, SPIPE]))
                } else {
                    Ok(delta as u64)
                }
            }
            1 => {
                let r = f.cursor as i128 + delta as i128;
                if r < 0 || r > u64::MAX as i128 {
                    Err(e(&[INVAL, SPIPE]))
                } else {
                    Ok(r as u64)
                }
            }
            _ => {
                if delta > 0 || (delta.unsigned_abs()) > size {
                    Err(e(&[SPIPE, INVAL]))
                } else {
                    Ok(size - delta.unsigned_abs())
                }
            }
        }
    }

    // ---- mounts ------------------------------------------------------

    /// `mem_pages`: current size of the memory
    pub fn mount(&mut self, path: &str, mem: u8, policy: u8, arg: u64, mem_pages: u64) -> Result<Ino, E> {
        let path = path.strip_prefix('/').unwrap_or(path);
        let big = policy == 2 && arg > MAX_FILE_SIZE;
        let widen = |mut x: E| {
            if big {
                x.extend([FBIG, INVAL]);
            }
            x
        };
        let p = parts(path).map_err(widen)?;
        let i = match self.lookup(ROOT, &p) {
            Ok(i) => i,
            Err(_) => {
                self.can_create(ROOT, &p).map_err(widen)?;
                let size = match policy {
                    0 => 0,
                    2 => arg,
                    _ => mem_pages * WASM,
                };
                if size > MAX_FILE_SIZE {
                    return Err(e(&[FBIG, INVAL]));
                }
                self.create(ROOT, &p, false, 0)?
            }
        };
        let n = self.ino_mut(i);
        let mut errs = E::new();
        if n.dir {
            errs.extend([BADF, ISDIR]);
        }
        if n.mount.is_some() {
            errs.extend([DEVBUSY, BUSY]);
        }
        if policy == 2 && arg > MAX_FILE_SIZE {
            errs.extend([FBIG, INVAL]);
        }
        if !errs.is_empty() {
            return Err(errs);
        }
        let mut mm = match &n.mmeta {
            Some(m) => m.clone(),
            None => MMeta { size: 0, times: n.times, limit: n.limit },
        };
        let old = n.mmeta.as_ref().map(|m| m.size);
        let cur = mem_pages * WASM;
        let size = match policy {
            0 => match old {
                Some(o) if o <= cur => o,
                _ => 0,
            },
            1 => match old {
                Some(o) if o <= cur => o,
                _ => cur,
            },
            2 => arg,
            _ => cur,
        };
        if size > mm.limit.unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE) {
            return Err(e(&[FBIG, INVAL]));
        }
        mm.size = size;
        n.mmeta = Some(mm);
        n.mount = Some(mem);
        Ok(i)
    }

    pub fn mounted(&self, path: &str) -> Result<(Ino, u8), E> {
        let path = path.strip_prefix('/').unwrap_or(path);
        let i = self.resolve(ROOT, path)?;
        let n = self.ino(i);
        if n.dir {
            return Err(e(&[BADF, ISDIR]));
        }
        match n.mount {
            Some(m) => Ok((i, m)),
            None => Err(e(&[NODEV])),
        }
    }

    pub fn unmount(&mut self, path: &str) -> Result<u8, E> {
        let (i, m) = self.mounted(path)?;
        self.ino_mut(i).mount = None;
        Ok(m)
    }

    pub fn init_mem(&mut self, mems: &mut [MemModel], path: &str) -> Result<Ino, E> {
        let (i, m) = self.mounted(path)?;
        let n = self.ino_mut(i);
        mems[m as usize].bytes.overlay(&n.data, n.size);
        n.mmeta = Some(MMeta { size: n.size, times: n.times, limit: n.limit });
        Ok(i)
    }

    pub fn store_mem(&mut self, mems: &mut [MemModel], path: &str) -> Result<Ino, E> {
        let (i, m) = self.mounted(path)?;
        let n = self.ino_mut(i);
        let mm = n.mmeta.clone().unwrap();
        n.data = mems[m as usize].bytes.prefix(mm.size);
        n.size = mm.size;
        n.times = mm.times;
        n.limit = mm.limit;
        Ok(i)
    }

    // ---- helpers -----------------------------------------------------

    /// some path from the root to every object
    pub fn paths(&self) -> BTreeMap<Ino, String> {
        let mut r = BTreeMap::new();
        let mut stack = vec![(ROOT, String::new())];
        while let Some((i, p)) = stack.pop() {
            r.entry(i).or_insert_with(|| p.clone());
            let n = self.ino(i);
            if n.dir {
                for en in n.entries.iter().rev() {
                    let q = if p.is_empty() { en.name.clone() } else { format!("{}/{}", p, en.name) };
                    stack.push((en.ino, q));
                }
            }
        }
        r
    }

    /// a hash of the abstract state (shape, sizes by class, open objects, mounts), for coverage
    pub fn abstract_hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut add = |x: u64| {
            h ^= x;
            h = h.wrapping_mul(0x100000001b3);
        };
        let mut stack = vec![ROOT];
        while let Some(i) = stack.pop() {
            let n = self.ino(i);
            let s = n.size;
            let class = if n.dir { 100 + (n.entries.len() as u64).min(40) } else { (64 - s.leading_zeros() as u64) * 4 + if s % 4096 == 0 { 1 } else { 0 } };
            add(class);
            add(n.nlink * 16 + n.mount.is_some() as u64 * 4 + n.mmeta.is_some() as u64 * 2 + self.is_open(i) as u64);
            add((n.data.page_count() as u64).min(64));
            add(n.limit.is_some() as u64);
            for en in n.entries.iter() {
                stack.push(en.ino);
            }
            add(7777);
        }
        h
    }
}
