//! The allocator under the real code.  Memory allocated while the real system runs is set apart: every
//! block carries a header and guard bytes, freed blocks are poisoned and kept until the run is over, and
//! what is still allocated when the session has been dropped is examined.  It can also scatter addresses.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Sim;

const PLAIN: u64 = 0x9A11_B10C_0000_0001;
const LIVE: u64 = 0x9A11_B10C_11FE_0002;
const FREED: u64 = 0x9A11_B10C_DEAD_0003;
const GUARD: u8 = 0xA7;
const POISON: u8 = 0xDD;
const TAIL: usize = 16;

/// precedes the user's memory of a tracked block; the last two words are common to both kinds of block
#[repr(C)]
struct Head { prev: *mut Head, next: *mut Head, size: usize, align: usize, base: *mut u8, total: usize, serial: u64, _pad: u64, magic: u64, pre: u64 }
const HEAD: usize = std::mem::size_of::<Head>();

static ON: AtomicBool = AtomicBool::new(false);
static IN_REAL: AtomicBool = AtomicBool::new(false);
static SCATTER: AtomicU64 = AtomicU64::new(0);
static SERIAL: AtomicU64 = AtomicU64::new(0);
static LIVE_LIST: AtomicUsize = AtomicUsize::new(0);
static FREE_LIST: AtomicUsize = AtomicUsize::new(0);
static QUARANTINE: AtomicUsize = AtomicUsize::new(0);
/// the first thing that went wrong: 1 released twice, 2 written beyond its end, 3 written after release, 4 not a block
static BAD: AtomicU64 = AtomicU64::new(0);
static BAD_SIZE: AtomicUsize = AtomicUsize::new(0);
static OWNER: AtomicU64 = AtomicU64::new(0);

thread_local! { static ME: u8 = const { 0 }; }
fn thread() -> u64 { ME.try_with(|m| m as *const u8 as u64).unwrap_or(1) }

fn bad(kind: u64, size: usize) { if BAD.compare_exchange(0, kind, Relaxed, Relaxed).is_ok() { BAD_SIZE.store(size, Relaxed) } }

unsafe fn tracked(layout: Layout) -> *mut u8 {
    let s = SERIAL.fetch_add(1, Relaxed);
    let seed = SCATTER.load(Relaxed);
    let pad = if seed == 0 { 0 } else { ((crate::rng::mix(seed ^ s) >> 7) as usize % 97) * 16 };
    let align = layout.align().max(16);
    let total = layout.size() + HEAD + align + pad + TAIL;
    let base = System.alloc(Layout::from_size_align_unchecked(total, 16));
    if base.is_null() { return base }
    let user = (base as usize + HEAD + pad + align - 1) & !(align - 1);
    let h = (user - HEAD) as *mut Head;
    let next = LIVE_LIST.load(Relaxed) as *mut Head;
    *h = Head { prev: std::ptr::null_mut(), next, size: layout.size(), align: layout.align(), base, total, serial: s, _pad: 0, magic: LIVE, pre: 0 };
    if !next.is_null() { (*next).prev = h }
    LIVE_LIST.store(h as usize, Relaxed);
    std::ptr::write_bytes((user + layout.size()) as *mut u8, GUARD, TAIL);
    user as *mut u8
}
unsafe fn guard_ok(h: *mut Head) -> bool { let p = (h as usize + HEAD + (*h).size) as *const u8; (0..TAIL).all(|i| *p.add(i) == GUARD) }
unsafe fn unlink(h: *mut Head) {
    let (p, n) = ((*h).prev, (*h).next);
    if p.is_null() { LIVE_LIST.store(n as usize, Relaxed) } else { (*p).next = n }
    if !n.is_null() { (*n).prev = p }
}
unsafe fn release(ptr: *mut u8) {
    let h = (ptr as usize - HEAD) as *mut Head;
    if !guard_ok(h) { bad(2, (*h).size) }
    unlink(h);
    if !ON.load(Relaxed) || QUARANTINE.load(Relaxed) > 256 << 20 { System.dealloc((*h).base, Layout::from_size_align_unchecked((*h).total, 16)); return }
    (*h).magic = FREED;
    std::ptr::write_bytes(ptr, POISON, (*h).size);
    QUARANTINE.fetch_add((*h).total, Relaxed);
    (*h).next = FREE_LIST.load(Relaxed) as *mut Head;
    FREE_LIST.store(h as usize, Relaxed);
}

// a single request no machine can fulfil ('x' * max_int): the run is outside of what is studied here
extern "C" { fn _exit(code: i32) -> !; }
unsafe impl GlobalAlloc for Sim {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() > 1 << 36 { _exit(77) }
        if IN_REAL.load(Relaxed) && OWNER.load(Relaxed) == thread() { return tracked(layout) }
        let pre = layout.align().max(16);
        let p = System.alloc(Layout::from_size_align_unchecked(layout.size() + pre, pre));
        if p.is_null() { return p }
        let u = p.add(pre);
        *(u.sub(16) as *mut u64) = PLAIN;
        *(u.sub(8) as *mut u64) = pre as u64;
        u
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        match *(ptr.sub(16) as *const u64) {
            PLAIN => { let pre = layout.align().max(16); *(ptr.sub(16) as *mut u64) = 0; System.dealloc(ptr.sub(pre), Layout::from_size_align_unchecked(layout.size() + pre, pre)) }
            LIVE => { let h = (ptr as usize - HEAD) as *mut Head; if (*h).size != layout.size() || (*h).align != layout.align() { bad(5, layout.size()) } release(ptr) }
            FREED => bad(1, layout.size()),
            _ => bad(4, layout.size()),
        }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        if *(ptr.sub(16) as *const u64) == PLAIN && !IN_REAL.load(Relaxed) {
            let pre = layout.align().max(16);
            let p = System.realloc(ptr.sub(pre), Layout::from_size_align_unchecked(layout.size() + pre, pre), new + pre);
            return if p.is_null() { p } else { p.add(pre) }
        }
        // always moved: what still points to the old place is found out
        let p = self.alloc(Layout::from_size_align_unchecked(new, layout.align()));
        if !p.is_null() { std::ptr::copy_nonoverlapping(ptr, p, layout.size().min(new)); self.dealloc(ptr, layout) }
        p
    }
}

/// while it lives, allocations belong to the real system
pub struct Scope(bool);
pub fn real() -> Scope { Scope(if ON.load(Relaxed) || SCATTER.load(Relaxed) != 0 { IN_REAL.swap(true, Relaxed) } else { IN_REAL.load(Relaxed) }) }
/// while it lives, they belong to the simulator
pub fn sim() -> Scope { Scope(IN_REAL.swap(false, Relaxed)) }
impl Drop for Scope { fn drop(&mut self) { IN_REAL.store(self.0, Relaxed) } }

pub fn start() { finish(false); OWNER.store(thread(), Relaxed); BAD.store(0, Relaxed); ON.store(true, Relaxed); }
pub fn scatter(seed: u64) { OWNER.store(thread(), Relaxed); SCATTER.store(seed, Relaxed) }

/// how many blocks of the real system are allocated now
pub fn live() -> usize { let mut n = 0; unsafe { let mut h = LIVE_LIST.load(Relaxed) as *mut Head; while !h.is_null() { n += 1; h = (*h).next } } n }

pub struct Report { pub problem: Option<String>, pub blocks: u64, pub cyclic: usize }
/// Ends tracking: what went wrong, and whether anything that no cycle holds is still allocated.
pub fn finish(leaks: bool) -> Report {
    IN_REAL.store(false, Relaxed); ON.store(false, Relaxed);
    let mut problem = None;
    let (mut cyclic, blocks) = (0, SERIAL.swap(0, Relaxed));
    unsafe {
        let mut h = FREE_LIST.swap(0, Relaxed) as *mut Head;
        while !h.is_null() {
            let n = (*h).next;
            let p = (h as usize + HEAD) as *const u8;
            if (0..(*h).size).any(|i| *p.add(i) != POISON) || !guard_ok(h) { bad(3, (*h).size) }
            (*h).magic = 0;
            System.dealloc((*h).base, Layout::from_size_align_unchecked((*h).total, 16));
            h = n;
        }
        QUARANTINE.store(0, Relaxed);
        let mut live: BTreeMap<usize, usize> = BTreeMap::new();
        let mut h = LIVE_LIST.swap(0, Relaxed) as *mut Head;
        while !h.is_null() {
            let n = (*h).next;
            if !guard_ok(h) { bad(2, (*h).size) }
            live.insert(h as usize + HEAD, (*h).size);
            // it is not examined again, and may be released whenever its owner likes
            (*h).prev = h; (*h).next = h;
            h = n;
        }
        for (a, _) in &live { let h = (a - HEAD) as *mut Head; detach(h) }
        if leaks && !live.is_empty() {
            let idx: Vec<(usize, usize)> = live.iter().map(|(a, s)| (*a, *s)).collect();
            let find = |w: usize| -> Option<usize> { let i = idx.partition_point(|x| x.0 <= w); if i == 0 { return None } let (a, s) = idx[i - 1]; if w < a + s.max(1) { Some(i - 1) } else { None } };
            let out: Vec<Vec<usize>> = idx.iter().enumerate().map(|(me, (a, s))| { let mut v = vec![]; for k in 0..s / 8 { let w = *((a + 8 * k) as *const usize); if let Some(j) = find(w) { let _ = me; v.push(j) } } v }).collect();
            // strongly connected parts: a block that no cycle leads to has been forgotten
            let held = held_by_cycles(&out);
            cyclic = held.iter().filter(|x| **x).count();
            let lost: Vec<usize> = (0..idx.len()).filter(|i| !held[*i]).collect();
            if !lost.is_empty() { problem = Some(format!("{} of {} blocks allocated by the real system remain after the session was dropped although no cycle holds them (sizes {:?})", lost.len(), blocks, lost.iter().take(6).map(|i| idx[*i].1).collect::<Vec<_>>())) }
        }
    }
    let b = BAD.swap(0, Relaxed);
    if b != 0 { problem = Some(format!("memory: a block of {} bytes was {}", BAD_SIZE.load(Relaxed), match b { 1 => "released twice", 2 => "written beyond its end", 3 => "written after it was released", 4 => "released that was never allocated", _ => "released with another size than it was allocated with" })) }
    Report { problem, blocks, cyclic }
}
/// afterwards the block is in no list; `unlink` of it does nothing
unsafe fn detach(h: *mut Head) { (*h).prev = h; (*h).next = h; }

fn held_by_cycles(out: &[Vec<usize>]) -> Vec<bool> {
    let n = out.len();
    // repeatedly remove blocks nothing points to; what they lead to and no cycle does is lost too
    let mut into = vec![0usize; n];
    for v in out { for j in v { into[*j] += 1 } }
    let mut held = vec![true; n];
    let mut work: Vec<usize> = (0..n).filter(|i| into[*i] == 0).collect();
    while let Some(i) = work.pop() { held[i] = false; for j in &out[i] { into[*j] -= 1; if into[*j] == 0 { work.push(*j) } } }
    held
}
