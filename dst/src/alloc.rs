//! A counting allocator: how many bytes allocated inside the code under test are still held.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static HELD: Cell<i64> = const { Cell::new(0) };
    static TAKEN: Cell<u64> = const { Cell::new(0) };
    static FLOOR: Cell<i64> = const { Cell::new(0) };
}

/// more than this held by one call of the code under test: no run of a program on the platform survives that
const LIMIT: i64 = 1 << 30;
/// bytes allocated so far inside the code under test, freed ones included
pub fn taken() -> u64 {
    TAKEN.try_with(|h| h.get()).unwrap_or(0)
}
/// what is held now does not count for the limit
pub fn mark() {
    let _ = FLOOR.try_with(|f| f.set(tagged()));
}

pub struct Counting;

pub fn inside(on: bool) -> bool {
    INSIDE.try_with(|i| i.replace(on)).unwrap_or(false)
}
pub fn tagged() -> i64 {
    HELD.try_with(|h| h.get()).unwrap_or(0)
}

fn head(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let tag = INSIDE.try_with(|i| i.get()).unwrap_or(false);
        if tag {
            let _ = TAKEN.try_with(|x| x.set(x.get() + l.size() as u64));
            let now = HELD.try_with(|x| x.get()).unwrap_or(0) + l.size() as i64;
            if now - FLOOR.try_with(|x| x.get()).unwrap_or(0) > LIMIT {
                crate::guard::end_now(crate::guard::EXCESS);
            }
        }
        let h = head(&l);
        let Ok(big) = Layout::from_size_align(l.size() + h, h) else { return std::ptr::null_mut() };
        let p = System.alloc(big);
        if p.is_null() {
            return p;
        }
        if tag {
            let _ = HELD.try_with(|x| x.set(x.get() + l.size() as i64));
        }
        let q = p.add(h);
        *(q.sub(8) as *mut u64) = tag as u64;
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let h = head(&l);
        let tag = *(q.sub(8) as *const u64);
        if tag == 1 {
            let _ = HELD.try_with(|x| x.set(x.get() - l.size() as i64));
        }
        System.dealloc(q.sub(h), Layout::from_size_align_unchecked(l.size() + h, h));
    }
}
