//! The simulated memory under the file system: the `Memory` seam the code already has.
use ic_stable_structures::Memory;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub const PG: usize = 4096;
pub const WASM: u64 = 65536;

type Page = Option<Rc<[u8; PG]>>;
/// pages are shared in groups, a snapshot copies one pointer per group
const GROUP: usize = 256;
type Group = Option<Rc<Vec<Page>>>;

fn page(groups: &[Group], n: usize) -> &Page {
    match &groups[n / GROUP] {
        Some(g) => &g[n % GROUP],
        None => &None,
    }
}
fn page_mut(groups: &mut [Group], n: usize) -> &mut Page {
    let g = groups[n / GROUP].get_or_insert_with(|| Rc::new(vec![None; GROUP]));
    &mut Rc::make_mut(g)[n % GROUP]
}
fn groups_of(wasm: u64) -> usize {
    (wasm as usize * 16).div_ceil(GROUP)
}

/// Payload of an injected trap.
pub struct InjectedTrap;
/// Payload of the runaway guard.
pub struct Runaway;
/// Payload of the stack guard: a call may use as much stack as a WebAssembly program has.
#[allow(dead_code)]
pub struct StackUsed(pub usize);
pub const STACK: usize = 1 << 20;

#[derive(Default)]
pub struct Ctl {
    /// trap when this many more accesses have happened
    pub countdown: Cell<Option<u64>>,
    pub fired: Cell<bool>,
    pub refused: Cell<u64>,
    pub accesses: Cell<u64>,
    pub budget: Cell<Option<u64>>,
    /// where the stack stood when the call began
    pub base: Cell<usize>,
}

#[inline(never)]
pub fn stack_pointer() -> usize {
    let x = 0u8;
    std::hint::black_box(&x as *const u8 as usize)
}

impl Ctl {
    fn touch(&self) {
        self.accesses.set(self.accesses.get() + 1);
        if let Some(b) = self.budget.get() {
            if b == 0 {
                std::panic::panic_any(Runaway);
            }
            self.budget.set(Some(b - 1));
            let used = self.base.get().saturating_sub(stack_pointer());
            if used > STACK {
                std::panic::panic_any(StackUsed(used));
            }
        }
        // only calls of the code under test are aborted, never the harness's own accesses
        let armed = self.budget.get().and(self.countdown.get());
        if let Some(n) = armed {
            if n == 0 {
                self.countdown.set(None);
                self.fired.set(true);
                std::panic::panic_any(InjectedTrap);
            }
            self.countdown.set(Some(n - 1));
        }
    }
}

#[derive(Clone)]
pub struct Snapshot {
    groups: Vec<Group>,
    wasm: u64,
}

struct Inner {
    groups: Vec<Group>,
    wasm: u64,
    capacity: u64,
}

#[derive(Clone)]
pub struct SimMemory {
    inner: Rc<RefCell<Inner>>,
    ctl: Rc<Ctl>,
}

pub const NO_LIMIT: u64 = 1 << 22; // 256 GiB of address space, sparse

impl SimMemory {
    pub fn new(ctl: Rc<Ctl>) -> Self {
        SimMemory {
            inner: Rc::new(RefCell::new(Inner { groups: vec![], wasm: 0, capacity: NO_LIMIT })),
            ctl,
        }
    }
    pub fn from_snapshot(s: &Snapshot, ctl: Rc<Ctl>) -> Self {
        let m = Self::new(ctl);
        m.restore(s);
        m
    }
    pub fn snapshot(&self) -> Snapshot {
        let i = self.inner.borrow();
        Snapshot { groups: i.groups.clone(), wasm: i.wasm }
    }
    pub fn restore(&self, s: &Snapshot) {
        let mut i = self.inner.borrow_mut();
        i.groups = s.groups.clone();
        i.wasm = s.wasm;
    }
    pub fn set_capacity(&self, pages: u64) {
        self.inner.borrow_mut().capacity = pages;
    }
    pub fn pages(&self) -> u64 {
        self.inner.borrow().wasm
    }
    /// sparse image: (4K page number, bytes) of non-zero pages
    pub fn export(&self) -> (u64, Vec<(u64, Vec<u8>)>) {
        let i = self.inner.borrow();
        let mut v = vec![];
        for (k, g) in i.groups.iter().enumerate() {
            for (n, p) in g.iter().flat_map(|g| g.iter()).enumerate() {
                if let Some(p) = p {
                    if p.iter().any(|b| *b != 0) {
                        v.push(((k * GROUP + n) as u64, p.to_vec()));
                    }
                }
            }
        }
        (i.wasm, v)
    }
    pub fn import(&self, wasm: u64, pages: &[(u64, Vec<u8>)]) {
        let mut i = self.inner.borrow_mut();
        i.wasm = wasm;
        i.groups = vec![None; groups_of(wasm)];
        for (n, b) in pages {
            let mut a = [0u8; PG];
            a.copy_from_slice(b);
            *page_mut(&mut i.groups, *n as usize) = Some(Rc::new(a));
        }
    }
}

impl Memory for SimMemory {
    fn size(&self) -> u64 {
        self.inner.borrow().wasm
    }
    fn grow(&self, pages: u64) -> i64 {
        self.ctl.touch();
        let mut i = self.inner.borrow_mut();
        let old = i.wasm;
        if old.checked_add(pages).map(|n| n > i.capacity).unwrap_or(true) {
            self.ctl.refused.set(self.ctl.refused.get() + 1);
            return -1;
        }
        i.wasm += pages;
        let n = groups_of(i.wasm);
        // the memory itself is not heap of the code under test
        let was = crate::alloc::inside(false);
        i.groups.resize(n, None);
        crate::alloc::inside(was);
        old as i64
    }
    fn read(&self, offset: u64, dst: &mut [u8]) {
        self.ctl.touch();
        let i = self.inner.borrow();
        let end = offset.checked_add(dst.len() as u64).expect("memory: read out of bounds");
        if end > i.wasm * WASM {
            drop(i);
            panic!("memory: read out of bounds");
        }
        let mut done = 0usize;
        while done < dst.len() {
            let a = offset as usize + done;
            let (p, o) = (a / PG, a % PG);
            let n = (PG - o).min(dst.len() - done);
            match page(&i.groups, p) {
                Some(pg) => dst[done..done + n].copy_from_slice(&pg[o..o + n]),
                None => dst[done..done + n].fill(0),
            }
            done += n;
        }
    }
    fn write(&self, offset: u64, src: &[u8]) {
        self.ctl.touch();
        let mut i = self.inner.borrow_mut();
        let end = offset.checked_add(src.len() as u64).expect("memory: write out of bounds");
        if end > i.wasm * WASM {
            drop(i);
            panic!("memory: write out of bounds");
        }
        let was = crate::alloc::inside(false);
        let mut done = 0usize;
        while done < src.len() {
            let a = offset as usize + done;
            let (p, o) = (a / PG, a % PG);
            let n = (PG - o).min(src.len() - done);
            let pg = page_mut(&mut i.groups, p).get_or_insert_with(|| Rc::new([0u8; PG]));
            Rc::make_mut(pg)[o..o + n].copy_from_slice(&src[done..done + n]);
            done += n;
        }
        crate::alloc::inside(was);
    }
}

/// Sparse byte string used by the reference model.
#[derive(Clone, Default)]
pub struct Sparse {
    pages: std::collections::BTreeMap<u64, Rc<[u8; PG]>>,
}

impl Sparse {
    pub fn write(&mut self, off: u64, src: &[u8]) {
        let mut done = 0usize;
        while done < src.len() {
            let a = off + done as u64;
            let (p, o) = (a / PG as u64, (a % PG as u64) as usize);
            let n = (PG - o).min(src.len() - done);
            let pg = self.pages.entry(p).or_insert_with(|| Rc::new([0u8; PG]));
            Rc::make_mut(pg)[o..o + n].copy_from_slice(&src[done..done + n]);
            done += n;
        }
    }
    pub fn read(&self, off: u64, dst: &mut [u8]) {
        let mut done = 0usize;
        while done < dst.len() {
            let a = off + done as u64;
            let (p, o) = (a / PG as u64, (a % PG as u64) as usize);
            let n = (PG - o).min(dst.len() - done);
            match self.pages.get(&p) {
                Some(pg) => dst[done..done + n].copy_from_slice(&pg[o..o + n]),
                None => dst[done..done + n].fill(0),
            }
            done += n;
        }
    }
    pub fn get(&self, off: u64, len: usize) -> Vec<u8> {
        let mut v = vec![0u8; len];
        self.read(off, &mut v);
        v
    }
    /// drop everything at and above `size`
    pub fn truncate(&mut self, size: u64) {
        let p = size / PG as u64;
        let o = (size % PG as u64) as usize;
        self.pages.split_off(&(p + 1));
        if o == 0 {
            self.pages.remove(&p);
        } else if let Some(pg) = self.pages.get_mut(&p) {
            Rc::make_mut(pg)[o..].fill(0);
        }
    }
    pub fn page_numbers(&self) -> Vec<u64> {
        self.pages.keys().copied().collect()
    }
    pub fn page_count(&self) -> usize {
        self.pages.len()
    }
    /// bytes 0..size copied
    pub fn prefix(&self, size: u64) -> Sparse {
        let mut s = self.clone();
        s.truncate(size);
        s
    }
    /// overwrite 0..size of self with other
    pub fn overlay(&mut self, other: &Sparse, size: u64) {
        // clear 0..size
        let last = size / PG as u64;
        let o = (size % PG as u64) as usize;
        let keys: Vec<u64> = self.pages.range(..last).map(|x| *x.0).collect();
        for k in keys {
            self.pages.remove(&k);
        }
        if o > 0 {
            if let Some(pg) = self.pages.get_mut(&last) {
                Rc::make_mut(pg)[..o].fill(0);
            }
        }
        for (p, pg) in other.pages.iter() {
            let start = p * PG as u64;
            if start >= size {
                break;
            }
            let n = ((size - start) as usize).min(PG);
            self.write(start, &pg[..n]);
        }
    }
}
