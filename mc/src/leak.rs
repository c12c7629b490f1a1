//! The heap, watched: which blocks an endpoint holds, and what is in them when they are given back.
//! Only blocks used by the code under test count; the environment's own are marked as quiet.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, Ordering};

const W: usize = 8;
/// every run of eight bytes of some byte strings
pub struct Runs {
    set: HashSet<u64>,
    quick: Vec<u64>,
}
impl Runs {
    pub fn new() -> Self {
        Runs { set: HashSet::new(), quick: vec![0; 1024] }
    }
    fn slot(x: u64) -> (usize, u64) {
        let h = x.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 48;
        ((h >> 6) as usize & 1023, 1 << (h & 63))
    }
    pub fn add(&mut self, b: &[u8]) {
        for w in b.windows(W) {
            // runs with little in them (zeros, counters) mean nothing
            if (0..W).filter(|i| w[..*i].contains(&w[*i])).count() > 3 {
                continue;
            }
            let x = u64::from_le_bytes(w.try_into().unwrap());
            let (i, m) = Self::slot(x);
            self.quick[i] |= m;
            self.set.insert(x);
        }
    }
    pub fn clear(&mut self) {
        if !self.set.is_empty() {
            self.set.clear();
            self.quick.iter_mut().for_each(|x| *x = 0);
        }
    }
    pub fn find(&self, b: &[u8]) -> Option<usize> {
        if self.set.is_empty() {
            return None;
        }
        let mut x = 0u64;
        for (i, c) in b.iter().enumerate() {
            x = x >> 8 | (*c as u64) << 56;
            let (k, m) = Self::slot(x);
            if self.quick[k] & m != 0 && i + 1 >= W && self.set.contains(&x) {
                return Some(i + 1 - W);
            }
        }
        None
    }
}
/// block header; blocks of an endpoint are on a list of the thread that allocated them
#[repr(C)]
struct Head {
    prev: *mut Head,
    next: *mut Head,
    size: usize,
    /// 0: not on a list; else the endpoint
    who: u8,
}
const H: usize = 32;
/// larger blocks are contexts and other things without secrets of their own
const MAX: usize = 16384;

static ACTIVE: AtomicBool = AtomicBool::new(false);
thread_local! {
    static MODE: Cell<u8> = const { Cell::new(0) };
    static LIST: Cell<*mut Head> = const { Cell::new(std::ptr::null_mut()) };
    static WATCH: RefCell<Option<Runs>> = const { RefCell::new(None) };
    static FREED: RefCell<Vec<(u8, usize, usize)>> = const { RefCell::new(vec![]) };
}
pub struct Heap;
fn small(l: &Layout) -> bool {
    l.align() <= 16
}
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !small(&l) {
            return System.alloc(l);
        }
        let on = ACTIVE.load(Ordering::Relaxed);
        let full = Layout::from_size_align_unchecked(l.size() + H, 16);
        // when watching, nothing of earlier contents shows
        let p = if on { System.alloc_zeroed(full) } else { System.alloc(full) } as *mut Head;
        if p.is_null() {
            return p as *mut u8;
        }
        let mode = if on { MODE.try_with(|m| m.get()).unwrap_or(0) } else { 0 };
        *p = Head { prev: std::ptr::null_mut(), next: std::ptr::null_mut(), size: l.size(), who: mode };
        if mode != 0 {
            LIST.with(|h| {
                let n = h.get();
                (*p).next = n;
                if !n.is_null() {
                    (*n).prev = p;
                }
                h.set(p);
            });
        }
        (p as *mut u8).add(H)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        if !small(&l) {
            return System.dealloc(q, l);
        }
        let p = q.sub(H) as *mut Head;
        if ACTIVE.load(Ordering::Relaxed) {
            let mode = MODE.try_with(|m| m.get()).unwrap_or(0);
            if mode != 0 && l.size() >= W && l.size() <= MAX {
                let b = std::slice::from_raw_parts(q, l.size());
                let hit = WATCH.try_with(|w| w.try_borrow().ok().and_then(|w| w.as_ref().and_then(|w| w.find(b)))).ok().flatten();
                if let Some(i) = hit {
                    MODE.with(|m| m.set(0));
                    FREED.with(|f| f.borrow_mut().push((mode, l.size(), i)));
                    MODE.with(|m| m.set(mode));
                }
            }
        }
        if (*p).who != 0 {
            let _ = LIST.try_with(|h| {
                let (a, b) = ((*p).prev, (*p).next);
                if a.is_null() {
                    h.set(b);
                } else {
                    (*a).next = b;
                }
                if !b.is_null() {
                    (*b).prev = a;
                }
            });
        }
        System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(l.size() + H, 16))
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

/// which endpoint runs now (0: none)
pub fn mode(m: u8) -> u8 {
    MODE.with(|x| x.replace(m))
}
pub struct Quiet(u8);
pub fn quiet() -> Quiet {
    Quiet(mode(0))
}
impl Drop for Quiet {
    fn drop(&mut self) {
        mode(self.0);
    }
}
/// for this thread, from here on: watch for nothing, forget everything
pub fn reset() {
    let _q = quiet();
    let _ = WATCH.try_with(|w| {
        if let Some(w) = w.borrow_mut().as_mut() {
            w.clear()
        }
    });
    let _ = FREED.try_with(|f| f.borrow_mut().clear());
    mode(0);
    std::mem::forget(_q);
}
pub fn activate() {
    ACTIVE.store(true, Ordering::SeqCst);
}
pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}
/// a secret came into being
pub fn note(s: &[u8]) {
    if active() {
        let _q = quiet();
        WATCH.with(|w| w.borrow_mut().get_or_insert_with(Runs::new).add(s));
    }
}
/// blocks given back with a secret in them: (endpoint, size, where)
pub fn freed() -> Vec<(u8, usize, usize)> {
    FREED.with(|f| std::mem::take(&mut *f.borrow_mut()))
}
/// a block the endpoint holds that has one of these in it: (size, where)
pub fn held(who: u8, r: &Runs) -> Option<(usize, usize)> {
    let _q = quiet();
    let mut p = LIST.with(|h| h.get());
    while !p.is_null() {
        let h = unsafe { &*p };
        if h.who == who && h.size >= W && h.size <= MAX {
            let b = unsafe { std::slice::from_raw_parts((p as *const u8).add(H), h.size) };
            if let Some(i) = r.find(b) {
                return Some((h.size, i));
            }
        }
        p = h.next;
    }
    None
}
/// how many blocks the endpoint holds
pub fn blocks(who: u8) -> usize {
    let mut p = LIST.with(|h| h.get());
    let mut n = 0;
    while !p.is_null() {
        let h = unsafe { &*p };
        n += (h.who == who) as usize;
        p = h.next;
    }
    n
}
