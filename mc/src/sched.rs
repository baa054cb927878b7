//! A controlled scheduler: real threads of which one runs at a time; the running one can be switched at
//! scheduling points only (allocator calls, callbacks into the harness). All schedules with at most a
//! given number of preemptions are enumerated by depth-first search over the choices.
use std::cell::Cell;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

/// Most choices followed in one execution.
const CAP: usize = 1 << 14;
pub const MAXT: usize = 3;

#[derive(Clone, Copy)]
struct Choice {
    /// The thread that ran up to this point, if it can go on.
    cur: Option<u8>,
    enabled: u8,
    chosen: u8,
}
struct St {
    cur: usize,
    alive: u8,
    steps: u64,
    trace: Vec<Choice>,
    prefix: Vec<u8>,
    /// No longer controlled: a thread was blocked by something else.
    free: bool,
}
pub struct Sched {
    m: Mutex<St>,
    cv: [Condvar; MAXT],
}

thread_local! {
    static ME: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) };
}

impl Sched {
    fn choose(&self, st: &mut St, cur: Option<usize>) -> usize {
        let default = match cur {
            Some(t) => t,
            None => st.alive.trailing_zeros() as usize,
        };
        let k = st.trace.len();
        if k >= CAP {
            return default;
        }
        let c = match st.prefix.get(k) {
            Some(&c) if st.alive & 1 << c != 0 => c as usize,
            _ => default,
        };
        st.trace.push(Choice { cur: cur.map(|x| x as u8), enabled: st.alive, chosen: c as u8 });
        c
    }
    fn wait(&self, me: usize) {
        let mut st = self.m.lock().unwrap();
        while st.cur != me && !st.free {
            let before = st.steps;
            let (s, t) = self.cv[me].wait_timeout(st, Duration::from_millis(500)).unwrap();
            st = s;
            if t.timed_out() && st.steps == before && st.cur != me {
                // The running thread makes no progress: it waits for a lock that a stopped thread holds.
                st.free = true;
                for c in &self.cv {
                    c.notify_all();
                }
            }
        }
    }
    fn at_point(&self, me: usize) {
        let mut st = self.m.lock().unwrap();
        if st.free {
            return;
        }
        st.steps += 1;
        let c = self.choose(&mut st, Some(me));
        if c != me {
            st.cur = c;
            self.cv[c].notify_all();
            drop(st);
            self.wait(me);
        }
    }
    fn finish(&self, me: usize) {
        let mut st = self.m.lock().unwrap();
        st.alive &= !(1 << me);
        st.steps += 1;
        if st.alive != 0 && !st.free {
            let c = self.choose(&mut st, None);
            st.cur = c;
            self.cv[c].notify_all();
        }
    }
}

/// A scheduling point (nothing on threads that are not controlled).
#[inline]
pub fn point() {
    let (s, me) = ME.with(|c| c.get());
    if !s.is_null() {
        unsafe { &*s }.at_point(me)
    }
}

extern "C" {
    fn sched_getaffinity(pid: i32, size: usize, set: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, set: *const u64) -> i32;
}
/// Keeps this thread and those it starts on one processor: handing over is cheap there.
pub fn settle() {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local! {
        static DONE: Cell<bool> = const { Cell::new(false) };
    }
    if DONE.with(|d| d.replace(true)) {
        return;
    }
    let mut set = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, 128, set.as_mut_ptr()) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| set[i / 64] >> (i % 64) & 1 == 1).collect();
        if let Some(&c) = cpus.get(NEXT.fetch_add(1, Ordering::Relaxed) % cpus.len().max(1)) {
            let mut one = [0u64; 16];
            one[c / 64] = 1 << (c % 64);
            sched_setaffinity(0, 128, one.as_ptr());
        }
    }
}

#[derive(Default, Clone, Copy)]
pub struct Explored {
    pub schedules: u64,
    pub choices: u64,
    pub uncontrolled: u64,
    pub capped: bool,
}

/// Runs the programs (one per thread) under every schedule with at most `bound` preemptions; `check` sees
/// the outcomes of each schedule and stops the search by returning false.
pub fn explore<T: Send>(
    programs: &[&(dyn Fn() -> T + Sync)],
    bound: usize,
    cap: u64,
    check: &mut dyn FnMut(&[u8], Vec<T>) -> bool,
) -> Explored {
    settle();
    let mut e = Explored::default();
    let mut todo: Vec<Vec<u8>> = vec![vec![]];
    while let Some(prefix) = todo.pop() {
        if e.schedules >= cap {
            e.capped = true;
            break;
        }
        let depth = prefix.len();
        let s = Sched {
            m: Mutex::new(St {
                cur: usize::MAX,
                alive: (1 << programs.len()) - 1,
                steps: 0,
                trace: Vec::with_capacity(CAP),
                prefix,
                free: false,
            }),
            cv: [const { Condvar::new() }; MAXT],
        };
        {
            let mut st = s.m.lock().unwrap();
            let c = s.choose(&mut st, None);
            st.cur = c;
        }
        let out: Vec<T> = std::thread::scope(|sc| {
            let hs: Vec<_> = programs
                .iter()
                .enumerate()
                .map(|(t, p)| {
                    let s = &s;
                    std::thread::Builder::new()
                        .stack_size(1 << 20)
                        .spawn_scoped(sc, move || {
                            s.wait(t);
                            ME.with(|c| c.set((s, t)));
                            let r = p();
                            ME.with(|c| c.set((std::ptr::null(), 0)));
                            s.finish(t);
                            r
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let st = s.m.into_inner().unwrap();
        e.schedules += 1;
        e.choices += st.trace.len() as u64;
        let chosen: Vec<u8> = st.trace.iter().map(|c| c.chosen).collect();
        let go = check(&chosen, out);
        if st.free {
            e.uncontrolled += 1;
            if e.uncontrolled > 5 {
                e.capped = true;
                break;
            }
        }
        if !go {
            break;
        }
        let mut used = 0;
        for (i, c) in st.trace.iter().enumerate() {
            if i >= depth {
                let cost = c.cur.is_some() as usize;
                if used + cost <= bound {
                    for a in 0..programs.len() as u8 {
                        if a != c.chosen && c.enabled & 1 << a != 0 {
                            let mut p = chosen[..i].to_vec();
                            p.push(a);
                            todo.push(p);
                        }
                    }
                }
            }
            if c.cur.is_some_and(|x| x != c.chosen) {
                used += 1;
            }
        }
    }
    e
}
