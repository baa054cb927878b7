//! A checking allocator: guard zones on both sides, exact layout on release, poisoned contents,
//! quarantine of released blocks, live-block accounting per thread.
//!
//! A binary opts in with `#[global_allocator] static A: mc::alloc::Guard = mc::alloc::Guard;`.
//! Faults are recorded (never raised inside the allocator) and read with `fault()`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// Bytes of guard on each side of a block.
pub const GUARD: usize = 256;
const HEAD: usize = 64;
const LIVE: u64 = 0x4c49_5645_b10c_a11c;
const DEAD: u64 = 0xdead_b10c_f4ee_d000;
const QLEN: usize = 32;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    poison: u8,
    tracked: bool,
    serial: u64,
}

pub struct Guard;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static POISON: Cell<u8> = const { Cell::new(0xA5) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static PEAK_BYTES: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREED: Cell<u64> = const { Cell::new(0) };
    static FAULT: Cell<Option<&'static str>> = const { Cell::new(None) };
    static QUAR: Cell<[(usize, usize, usize); QLEN]> = const { Cell::new([(0, 0, 0); QLEN]) };
    static QPOS: Cell<usize> = const { Cell::new(0) };
}
/// Faults in threads that are not tracking (must not happen either).
pub static STRAY: AtomicBool = AtomicBool::new(false);

fn fail(m: &'static str) {
    if ON.with(|c| c.get()) {
        FAULT.with(|f| {
            if f.get().is_none() {
                f.set(Some(m))
            }
        });
    } else {
        STRAY.store(true, Relaxed);
    }
}

fn lead(align: usize) -> usize {
    let a = align.max(16);
    (HEAD + GUARD + a - 1) / a * a
}

unsafe fn total(size: usize, align: usize) -> Layout {
    Layout::from_size_align_unchecked(lead(align) + size + GUARD, align.max(16))
}

/// Is the range filled with b?
unsafe fn filled(p: *const u8, n: usize, b: u8) -> bool {
    let s = std::slice::from_raw_parts(p, n);
    let w = u128::from_le_bytes([b; 16]);
    let ch = s.chunks_exact(16);
    let r = ch.remainder();
    ch.fold(true, |ok, c| ok & (u128::from_le_bytes(c.try_into().unwrap()) == w)) && r.iter().all(|x| *x == b)
}

unsafe fn check_guards(p: *const u8, h: &Head) {
    let before = lead(h.align) - HEAD;
    if !filled(p.sub(before), before, h.poison ^ 0x0F) {
        fail("bytes before an allocation were overwritten");
    }
    if !filled(p.add(h.size), GUARD, h.poison ^ 0x0F) {
        fail("bytes past the end of an allocation were overwritten");
    }
}

unsafe fn head(p: *mut u8, align: usize) -> *mut Head {
    p.sub(lead(align)) as *mut Head
}

/// Give a quarantined block back, checking that it was not touched.
unsafe fn evict(p: usize, size: usize, align: usize) {
    let p = p as *mut u8;
    let h = head(p, align);
    if (*h).magic != DEAD {
        fail("a released block's header was overwritten");
    }
    if !filled(p, size, (*h).poison ^ 0xF0) {
        fail("a released block was written");
    }
    check_guards(p, &*h);
    System.dealloc(h as *mut u8, total(size, align));
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (size, align) = (l.size(), l.align());
        if size > isize::MAX as usize - 4 * GUARD - align {
            return std::ptr::null_mut();
        }
        let base = System.alloc(total(size, align));
        if base.is_null() {
            return base;
        }
        let p = base.add(lead(align));
        let on = ON.with(|c| c.get());
        let poison = POISON.with(|c| c.get());
        if on {
            LIVE_BLOCKS.with(|c| c.set(c.get() + 1));
            let b = LIVE_BYTES.with(|c| {
                c.set(c.get() + size as i64);
                c.get()
            });
            PEAK_BYTES.with(|c| c.set(c.get().max(b)));
        }
        let serial = ALLOCS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        (base as *mut Head).write(Head { magic: LIVE, size, align, poison, tracked: on, serial });
        std::ptr::write_bytes(base.add(HEAD), poison ^ 0x0F, lead(align) - HEAD);
        std::ptr::write_bytes(p.add(size), poison ^ 0x0F, GUARD);
        if on {
            std::ptr::write_bytes(p, poison, size);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (size, align) = (l.size(), l.align());
        let h = head(p, align);
        let m = (*h).magic;
        if m == DEAD {
            fail("a block was released twice");
            return;
        }
        if m != LIVE {
            fail("a block was released with a wrong alignment, or one that was never allocated");
            return;
        }
        if (*h).align != align || (*h).size != size {
            fail("a block was released with a layout it was not allocated with");
            return;
        }
        check_guards(p, &*h);
        if (*h).tracked {
            LIVE_BLOCKS.with(|c| c.set(c.get() - 1));
            LIVE_BYTES.with(|c| c.set(c.get() - size as i64));
            FREED.with(|c| c.set(c.get() + size as u64));
        }
        (*h).magic = DEAD;
        if ON.with(|c| c.get()) && size <= 1 << 16 {
            std::ptr::write_bytes(p, (*h).poison ^ 0xF0, size);
            let pos = QPOS.with(|c| c.get());
            // Cell<[..]> is accessed through its pointer: no copy, no destructor, no re-entrancy.
            let old = QUAR.with(|q| {
                let e = &mut (*q.as_ptr())[pos];
                std::mem::replace(e, (p as usize, size, align))
            });
            QPOS.with(|c| c.set((pos + 1) % QLEN));
            if old.0 != 0 {
                evict(old.0, old.1, old.2);
            }
        } else {
            System.dealloc(h as *mut u8, total(size, align));
        }
    }
    // realloc: the default moves every time, so stale pointers are always stale.
}

/// Start tracking on this thread with a poison byte.
pub fn start(poison: u8) {
    POISON.with(|c| c.set(poison));
    FAULT.with(|f| f.set(None));
    LIVE_BLOCKS.with(|c| c.set(0));
    LIVE_BYTES.with(|c| c.set(0));
    PEAK_BYTES.with(|c| c.set(0));
    FREED.with(|c| c.set(0));
    ON.with(|c| c.set(true));
}

/// What tracking observed.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Seen {
    pub blocks: i64,
    pub bytes: i64,
    pub peak: i64,
    pub freed: u64,
    pub fault: Option<&'static str>,
}

pub fn look() -> Seen {
    Seen {
        blocks: LIVE_BLOCKS.with(|c| c.get()),
        bytes: LIVE_BYTES.with(|c| c.get()),
        peak: PEAK_BYTES.with(|c| c.get()),
        freed: FREED.with(|c| c.get()),
        fault: FAULT.with(|f| f.get()),
    }
}

/// Pause or resume (the harness's own allocations are not counted).
pub fn pause(on: bool) {
    ON.with(|c| c.set(on));
}

/// Stop tracking: every quarantined block is checked and released.
pub fn stop() -> Seen {
    for k in 0..QLEN {
        let old = QUAR.with(|q| unsafe { std::mem::replace(&mut (*q.as_ptr())[k], (0, 0, 0)) });
        if old.0 != 0 {
            unsafe { evict(old.0, old.1, old.2) };
        }
    }
    ON.with(|c| c.set(false));
    look()
}

/// Bytes released while f runs.
pub fn freed_by(f: impl FnOnce()) -> u64 {
    let a = FREED.with(|c| c.get());
    f();
    FREED.with(|c| c.get()) - a
}
