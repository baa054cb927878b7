//! Instruction-level schedules. One thread runs an operation one processor instruction at a time (trap
//! flag); at every instruction it can be preempted in favour of another thread.
//!
//! An operation that writes to no memory shared between threads (static data, the shared values) is
//! independent of every other one: all its schedules are equivalent and one of them is enough. Whether it
//! writes is observed after every instruction. Where something is written, the other thread's operation is
//! run at every instruction, each in a forked copy of the process.
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
    fn usleep(us: u32) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [usize; 128 / size_of::<usize>()],
    flags: i32,
    restorer: usize,
}

const ARENA: usize = 192 << 20;
const MAXREG: usize = 16;
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Off,
    /// Watch for writes to shared memory.
    Watch,
    /// Run the other thread at every instruction.
    Explore,
}
/// Everything the machinery itself writes, on pages of its own.
#[repr(C, align(4096))]
struct State {
    on: AtomicBool,
    base: AtomicUsize,
    next: AtomicUsize,
    mode: UnsafeCell<Mode>,
    regions: UnsafeCell<[(usize, usize, usize); MAXREG]>,
    nreg: UnsafeCell<usize>,
    steps: AtomicUsize,
    writes: AtomicUsize,
    explored: AtomicUsize,
    bad_at: AtomicUsize,
    bad: AtomicI32,
    limit: AtomicUsize,
    deadline: UnsafeCell<Option<std::time::Instant>>,
    child: AtomicBool,
    other_done: AtomicBool,
    other: UnsafeCell<Option<*const (dyn Fn() -> bool + Sync)>>,
    other_ok: AtomicBool,
    handle: UnsafeCell<Option<std::thread::JoinHandle<()>>>,
    pad: [u8; 4096],
}
unsafe impl Sync for State {}
static S: State = State {
    on: AtomicBool::new(false),
    base: AtomicUsize::new(0),
    next: AtomicUsize::new(0),
    mode: UnsafeCell::new(Mode::Off),
    regions: UnsafeCell::new([(0, 0, 0); MAXREG]),
    nreg: UnsafeCell::new(0),
    steps: AtomicUsize::new(0),
    writes: AtomicUsize::new(0),
    explored: AtomicUsize::new(0),
    bad_at: AtomicUsize::new(0),
    bad: AtomicI32::new(0),
    limit: AtomicUsize::new(0),
    deadline: UnsafeCell::new(None),
    child: AtomicBool::new(false),
    other_done: AtomicBool::new(false),
    other: UnsafeCell::new(None),
    other_ok: AtomicBool::new(false),
    handle: UnsafeCell::new(None),
    pad: [0; 4096],
};

/// From here on memory comes from an arena: no lock of the C library can be held by a stopped thread, and
/// what existed before an operation is known.
pub fn enter() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), ARENA, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        S.base.store(p as usize, SeqCst);
        S.next.store(p as usize, SeqCst);
        S.on.store(true, SeqCst);
    }
}
/// Memory from the arena, when it is in use.
#[inline]
pub fn alloc(l: std::alloc::Layout) -> Option<*mut u8> {
    if !S.on.load(Relaxed) {
        return None;
    }
    let n = l.size() + l.align() + 64;
    let at = S.next.fetch_add(n, SeqCst);
    if at + n > S.base.load(Relaxed) + ARENA {
        return Some(std::ptr::null_mut());
    }
    Some(at.next_multiple_of(l.align()) as *mut u8)
}
/// Does the memory belong to the arena?
#[inline]
pub fn owns(p: *mut u8) -> bool {
    S.on.load(Relaxed) && (S.base.load(Relaxed)..S.base.load(Relaxed) + ARENA).contains(&(p as usize))
}

/// Notes the memory shared at this moment: the writable data of the program and the arena so far.
pub fn snapshot() {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let exe = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let mut r: Vec<(usize, usize)> = vec![];
    let mut after_exe = false;
    let mine = (&S as *const State as usize, &S as *const State as usize + size_of::<State>());
    let here = &r as *const _ as usize;
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = f[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let of_exe = f.get(5) == Some(&exe.as_str());
        // The zero-initialised data follow the program's file mapping.
        let bss = f.len() == 5 && after_exe && r.last().is_some_and(|x| x.1 == a || mine.1 == a);
        if f[1].starts_with("rw") && (of_exe || bss) && !(a..b).contains(&here) {
            let mut cut = vec![(a, b)];
            if mine.0 < b && mine.1 > a {
                cut = vec![(a, mine.0.max(a)), (mine.1.min(b), b)];
            }
            r.extend(cut.into_iter().filter(|x| x.1 > x.0));
        }
        after_exe = of_exe || bss;
    }
    let base = S.base.load(Relaxed);
    r.push((base, S.next.load(Relaxed)));
    assert!(r.len() > 1 && r.len() <= MAXREG, "writable data not found");
    // (The copies are made after the end of the arena part has been fixed.)
    let copies: Vec<Vec<u8>> =
        r.iter().map(|&(a, b)| unsafe { std::slice::from_raw_parts(a as *const u8, b - a).to_vec() }).collect();
    unsafe {
        for (k, (&(a, b), c)) in r.iter().zip(&copies).enumerate() {
            (*S.regions.get())[k] = (a, b - a, c.as_ptr() as usize);
        }
        *S.nreg.get() = r.len();
    }
    std::mem::forget(copies);
}
/// Bytes watched.
pub fn watched() -> usize {
    unsafe { (&*S.regions.get())[..*S.nreg.get()].iter().map(|r| r.1).sum() }
}
/// Does shared memory differ from the snapshot (which is then brought up to date)?
fn changed() -> bool {
    let mut any = false;
    unsafe {
        for &(a, n, c) in &(&*S.regions.get())[..*S.nreg.get()] {
            if memcmp(a as *const u8, c as *const u8, n) != 0 {
                any = true;
                std::ptr::copy_nonoverlapping(a as *const u8, c as *mut u8, n);
            }
        }
    }
    any
}

#[cfg(target_arch = "x86_64")]
const EFLAGS: usize = 176;
#[cfg(target_arch = "x86")]
const EFLAGS: usize = 84;
const TF: usize = 0x100;

extern "C" fn on_trap(_: i32, _: *mut u8, uc: *mut u8) {
    unsafe {
        let flags = uc.add(EFLAGS) as *mut usize;
        let n = S.steps.fetch_add(1, Relaxed);
        match *S.mode.get() {
            Mode::Off => *flags &= !TF,
            Mode::Watch => {
                if changed() {
                    S.writes.fetch_add(1, Relaxed);
                }
            }
            Mode::Explore => {
                if S.explored.load(Relaxed) >= S.limit.load(Relaxed) || S.bad.load(Relaxed) != 0 || (*S.deadline.get()).is_some_and(|d| std::time::Instant::now() >= d) {
                    return;
                }
                S.explored.fetch_add(1, Relaxed);
                let pid = fork();
                if pid == 0 {
                    alarm(30);
                    *flags &= !TF;
                    *S.mode.get() = Mode::Off;
                    S.child.store(true, SeqCst);
                    start_other();
                    return;
                }
                let mut st = 0;
                while waitpid(pid, &mut st, 0) != pid {}
                if st != 0 {
                    S.bad.store(st, Relaxed);
                    S.bad_at.store(n, Relaxed);
                }
            }
        }
    }
}
/// Runs the other thread until it is done, or waits for this one.
fn start_other() {
    unsafe {
        let f = (*S.other.get()).unwrap() as *const (dyn Fn() -> bool + Sync);
        let f: &'static (dyn Fn() -> bool + Sync) = std::mem::transmute(f);
        let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            let ok = f();
            S.other_ok.store(ok, SeqCst);
            S.other_done.store(true, SeqCst);
        });
        *S.handle.get() = Some(h.unwrap());
        for k in 0..4000 {
            if S.other_done.load(SeqCst) {
                break;
            }
            if k > 20 {
                usleep(100);
            } else {
                std::thread::yield_now();
            }
        }
    }
}

#[inline(never)]
fn flag(on: bool) {
    unsafe {
        #[cfg(target_arch = "x86_64")]
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
        #[cfg(target_arch = "x86")]
        if on {
            std::arch::asm!("pushfd", "or dword ptr [esp], 0x100", "popfd");
        } else {
            std::arch::asm!("pushfd", "and dword ptr [esp], -257", "popfd");
        }
    }
}
fn install() {
    let a = SigAction { handler: on_trap as *const () as usize, mask: [0; 128 / size_of::<usize>()], flags: 4, restorer: 0 };
    assert!(unsafe { sigaction(5, &a, std::ptr::null_mut()) } == 0);
}

/// Runs f step by step; returns its outcome, the number of instructions and the number of them that wrote
/// to shared memory.
pub fn watch<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    install();
    changed();
    S.steps.store(0, SeqCst);
    S.writes.store(0, SeqCst);
    unsafe { *S.mode.get() = Mode::Watch };
    flag(true);
    let r = f();
    flag(false);
    unsafe { *S.mode.get() = Mode::Off };
    (r, S.steps.load(SeqCst), S.writes.load(SeqCst))
}
/// Does f, run at full speed, leave shared memory changed?
pub fn leaves_changed(f: impl FnOnce()) -> bool {
    changed();
    f();
    changed()
}
/// Runs f step by step; before every instruction, in a forked process, the other operation runs to its end
/// in a thread of its own (or until it has to wait) and f goes on after it. Both say whether their outcome
/// was right. Returns the schedules explored and the first bad one (instruction, wait status).
pub fn explore(f: impl FnOnce() -> bool, after: impl FnOnce() -> bool, other: &(dyn Fn() -> bool + Sync), limit: usize, deadline: std::time::Instant) -> (usize, Option<(usize, i32)>) {
    install();
    S.steps.store(0, SeqCst);
    S.explored.store(0, SeqCst);
    S.bad.store(0, SeqCst);
    S.limit.store(limit, SeqCst);
    S.other_done.store(false, SeqCst);
    unsafe {
        *S.other.get() = Some(std::mem::transmute::<*const (dyn Fn() -> bool + Sync + '_), *const (dyn Fn() -> bool + Sync + 'static)>(other));
        *S.deadline.get() = Some(deadline);
        *S.mode.get() = Mode::Explore;
    }
    flag(true);
    let ok = f();
    flag(false);
    if S.child.load(SeqCst) {
        let h = unsafe { (*S.handle.get()).take() };
        let joined = h.is_none_or(|h| h.join().is_ok());
        unsafe { _exit(if !ok { 1 } else if !joined || !S.other_ok.load(SeqCst) { 2 } else if !after() { 3 } else { 0 }) }
    }
    unsafe { *S.mode.get() = Mode::Off };
    let bad = S.bad.load(SeqCst);
    (S.explored.load(SeqCst), (bad != 0).then(|| (S.bad_at.load(SeqCst), bad)))
}
/// Runs f in a forked process that reports through its output and exit status.
pub fn forked(f: impl FnOnce()) -> i32 {
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    unsafe {
        let pid = fork();
        if pid == 0 {
            f();
            std::io::stdout().flush().unwrap();
            _exit(0)
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        st
    }
}

/// Memory that forked processes write for their parent.
pub fn common(n: usize) -> &'static [AtomicU64] {
    unsafe {
        let p = mmap(std::ptr::null_mut(), n * 8, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        std::slice::from_raw_parts(p as *const AtomicU64, n)
    }
}
