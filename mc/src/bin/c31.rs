//! C31: a failed allocation is reported. Every allocation of every operation is made to fail, each in a
//! process of its own; the only accepted outcomes are the standard allocation-error abort, an ordinary
//! panic, and the right result.
use ibig::{ModuloRing, UBig};
use mc::alloc::{self, Guard};
use mc::mem::{self, *};
use mc::*;
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;

thread_local! {
    /// Allocations still allowed (None: not counting); negative ones fail.
    static LEFT: Cell<Option<i64>> = const { Cell::new(None) };
    /// Fail every later allocation too.
    static PERSIST: Cell<bool> = const { Cell::new(false) };
    /// Sizes of the allocations seen while counting.
    static SIZES: Cell<[u64; MAXPTS]> = const { Cell::new([0; MAXPTS]) };
    static SEEN: Cell<usize> = const { Cell::new(0) };
}
const MAXPTS: usize = 1 << 16;

struct Failing;
unsafe impl GlobalAlloc for Failing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if let Some(n) = LEFT.with(|c| c.get()) {
            LEFT.with(|c| c.set(Some(n - 1)));
            let seen = SEEN.with(|c| {
                c.set(c.get() + 1);
                c.get() - 1
            });
            if seen < MAXPTS {
                SIZES.with(|s| (*s.as_ptr())[seen] = l.size() as u64);
            }
            if n == 0 || n < 0 && PERSIST.with(|c| c.get()) {
                return std::ptr::null_mut();
            }
        }
        Guard.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        Guard.dealloc(p, l)
    }
}
#[global_allocator]
static A: Failing = Failing;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn pipe(fd: *mut i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(a: i32) -> i32;
    fn read(a: i32, p: *mut u8, n: usize) -> isize;
    fn fcntl(a: i32, c: i32, v: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn setrlimit(r: i32, l: *const [std::ffi::c_ulong; 2]) -> i32;
}

const SAME: i32 = 10;
const OTHER: i32 = 11;
const PANIC: i32 = 12;
const INTERNAL: i32 = 13;
const FAULT: i32 = 14;
const LEAK: i32 = 15;
const CHANGED: i32 = 16;

/// One run of the operation on fresh operands; allocations are counted from the moment the operands exist.
fn once(na: &Nat, nb: &Nat, f: &mem::F, left: i64, persist: bool, poison: u8) -> (Result<u64, String>, alloc::Seen, bool) {
    alloc::start(poison);
    let intact;
    let r = {
        let (x, y) = (to_u(na), to_u(nb));
        let mut d = Dig(1);
        SEEN.with(|c| c.set(0));
        PERSIST.with(|c| c.set(persist));
        LEFT.with(|c| c.set(Some(left)));
        let r = call(|| f(&mut d, &x, &y));
        LEFT.with(|c| c.set(None));
        intact = x.to_le_bytes() == na.le() && y.to_le_bytes() == nb.le();
        r.map(|_| d.0)
    };
    alloc::pause(false);
    let s = r.as_ref().map(|x| *x).map_err(|e| e.to_string());
    alloc::pause(true);
    drop(r);
    (s, alloc::stop(), intact)
}

/// Fails allocation k in a child process; returns the wait status and what it wrote to stderr.
fn child(na: &Nat, nb: &Nat, f: &mem::F, k: usize, persist: bool, poison: u8, want: &Result<u64, String>) -> (i32, String) {
    unsafe {
        let mut fd = [0i32; 2];
        assert!(pipe(fd.as_mut_ptr()) == 0);
        fcntl(fd[0], 4, 0o4000); // F_SETFL, O_NONBLOCK
        fcntl(fd[1], 4, 0o4000);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            dup2(fd[1], 2);
            alarm(60);
            let (r, s, intact) = once(na, nb, f, k as i64, persist, poison);
            let code = match &r {
                _ if s.fault.is_some() => FAULT,
                _ if s.blocks != 0 => LEAK,
                _ if !intact => CHANGED,
                _ if r == *want => SAME,
                Ok(_) => OTHER,
                Err(m) if m.contains("internal error") || m.contains("index out of") || m.contains("unwrap") || m.contains("assertion") || m.contains("overflow") => INTERNAL,
                Err(_) => PANIC,
            };
            if let Err(m) = &r {
                eprint!("{m}");
            }
            _exit(code)
        }
        close(fd[1]);
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        let mut buf = [0u8; 400];
        let n = read(fd[0], buf.as_mut_ptr(), 400).max(0) as usize;
        close(fd[0]);
        (st, String::from_utf8_lossy(&buf[..n]).into_owned())
    }
}

/// An operation by name and the lengths of its operands.
fn find(name: &str, la: usize, lb: usize, k: usize) -> (mem::F, Nat, Nat) {
    if let Some(e) = name.strip_prefix("pow-") {
        let e: usize = e.parse().unwrap();
        let f: mem::F = Box::new(move |d, a, _| {
            d.u(&a.pow(e));
            d.i(&(-ibig::IBig::from(a)).pow(e))
        });
        return (f, contents(la, k), contents(lb, 0));
    }
    if let Some((_, f)) = unary().into_iter().find(|x| x.0 == name) {
        return (f, contents(la, k), contents(lb, 1));
    }
    (all().into_iter().find(|x| x.0 == name).unwrap().1, contents(la, k), contents(lb, (k + 1) % 4))
}

/// Runs in a process of its own with one thread (so that the forked children start from a known state):
/// enumerates the failures and prints one line for each.
fn serve(args: &[String]) -> ! {
    let n: Vec<usize> = args[1..].iter().map(|x| x.parse().unwrap()).collect();
    let (f, na, nb) = find(&args[0], n[0], n[1], n[2]);
    std::panic::set_hook(Box::new(|_| {}));
    let (want, s, _) = once(&na, &nb, &f, i64::MAX, false, 0xA5);
    let n = SEEN.with(|c| c.get());
    let sizes: Vec<u64> = SIZES.with(|c| unsafe { (&(*c.as_ptr()))[..n.min(MAXPTS)].to_vec() });
    println!("{n} {}", s.fault.unwrap_or("-"));
    for k in 0..n.min(MAXPTS) {
        // The second kind of failure only differs where the operation goes on after the first.
        for (persist, poison) in [(false, 0xA5u8), (true, 0x00)] {
            let (st, text) = child(&na, &nb, &f, k, persist, poison, &want);
            println!("{k} {} {} {st} {text:?}", sizes[k], persist as u8);
        }
    }
    std::process::exit(0)
}

fn points(ctx: &mut Ctx, name: &str, la: usize, lb: usize, k: usize) {
    let what = format!("{name} of {la} and {lb} words, contents {k}");
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--server", name, &la.to_string(), &lb.to_string(), &k.to_string()])
        .output()
        .unwrap();
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut lines = text.lines();
    let mut n = 0;
    ctx.state(|| format!("{what}: no failure"), |c| {
        c.ok(out.status.success(), || format!("the operation fails with memory available: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr)));
        if let Some((a, b)) = lines.next().and_then(|l| l.split_once(' ')) {
            n = a.parse().unwrap();
            c.ok(b == "-", || format!("memory fault without a failure: {b}"));
            c.ok(n <= MAXPTS, || "too many allocations to enumerate".into());
        }
    });
    let mut got = 0;
    for l in lines {
        let p: Vec<&str> = l.splitn(5, ' ').collect();
        let (at, size, persist, st, text) = (p[0], p[1], p[2] == "1", p[3].parse::<i32>().unwrap(), p[4]);
        got += 1;
        let mut kind = "";
        ctx.state(
            || format!("{what}, allocation {at} of {n} ({size} bytes) fails{}", if persist { " and all later ones" } else { "" }),
            |c| {
                let (sig, code) = (st & 0x7f, st >> 8 & 0xff);
                c.note(what.as_bytes());
                c.note(at.as_bytes());
                c.note(&[sig as u8, code as u8]);
                let bad = match (sig, code) {
                    // The standard report names the size that could not be had.
                    (6, _) if text.contains("memory allocation of") && (persist || text.contains(&format!("of {size} bytes"))) => {
                        kind = "reported by the allocation-error abort";
                        ""
                    }
                    (6, _) => "aborted, but not by an error for this allocation",
                    (0, SAME) => {
                        kind = "right result";
                        ""
                    }
                    (0, PANIC) => {
                        kind = "reported by a panic that leaves every operand as it was";
                        ""
                    }
                    (0, OTHER) => "a wrong result was returned",
                    (0, FAULT) => "memory fault after a failed allocation",
                    (0, LEAK) => "memory leaked after a failed allocation",
                    (0, CHANGED) => "an operand changed its value",
                    (0, INTERNAL) => "internal failure",
                    (14, _) => "hangs",
                    _ => "the process died",
                };
                c.ok(bad.is_empty(), || format!("{bad} (signal {sig}, exit code {code}): {text}"));
            },
        );
        if !kind.is_empty() {
            *ctx.counters.entry(kind.to_string()).or_default() += 1;
        }
    }
    ctx.state(|| format!("{what}: every allocation made to fail"), |c| {
        c.ok(got == 2 * n.min(MAXPTS), || format!("the enumeration ended early: {got} of {}", 2 * n));
    });
}

/// In-place operations whose failure is caught: the variable must still hold a valid number.
fn caught() -> Vec<(&'static str, mem::F)> {
    fn go(d: &mut Dig, x: &mut UBig, f: &mut dyn FnMut(&mut UBig)) {
        match call(|| f(x)) {
            Ok(()) => d.u(x),
            Err(m) => {
                LEFT.with(|c| c.set(None)); // memory is available again
                let y = UBig::from_le_bytes(&x.to_le_bytes());
                assert!(y == *x && &*x + UBig::from(1u8) - UBig::from(1u8) == y && y.to_string() == x.to_string(), "internal error: invalid number after {m}");
                *x += UBig::from(1u8);
                assert!(*x == y + 1u8, "internal error: invalid number after {m}");
                panic!("{m}")
            }
        }
    }
    vec![
        ("in-place-mul", Box::new(|d, a, b| go(d, &mut a.clone(), &mut |x| *x *= b))),
        ("in-place-div", Box::new(|d, a, b| go(d, &mut a.clone(), &mut |x| *x /= b + 1u8))),
        ("in-place-rem", Box::new(|d, a, b| go(d, &mut a.clone(), &mut |x| *x %= b + 1u8))),
        ("in-place-add", Box::new(|d, a, b| go(d, &mut a.clone(), &mut |x| *x += b))),
        ("in-place-xor", Box::new(|d, a, b| go(d, &mut a.clone(), &mut |x| *x ^= b))),
        ("in-place-shl", Box::new(|d, a, b| go(d, &mut a.clone(), &mut |x| *x <<= b.bit_len()))),
        ("in-place-set", Box::new(|d, a, b| go(d, &mut a.clone(), &mut |x| x.set_bit(a.bit_len() + b.bit_len())))),
        ("in-place-clone-from", Box::new(|d, a, b| go(d, &mut a.clone(), &mut |x| x.clone_from(b)))),
        ("in-place-ring", Box::new(|d, a, b| {
            let r = ModuloRing::new(&(b + 2u8));
            let mut x = r.from(a);
            let y = r.from(a + 7u8);
            let mut failed = None;
            for k in 0..5 {
                let e = call(|| match k {
                    0 => x *= &y,
                    1 => x += &y,
                    2 => x = x.pow(b),
                    3 => x /= r.from(1u8),
                    _ => x.clone_from(&(-&y)),
                });
                if let Err(m) = e {
                    LEFT.with(|c| c.set(None));
                    let v = x.residue();
                    assert!(v < b + 2u8 && x == r.from(&v) && (&x - &x).residue() == UBig::from(0u8), "internal error: invalid element after {m}");
                    failed = Some(m);
                }
            }
            if let Some(m) = failed {
                panic!("{m}")
            }
            d.u(&x.residue());
        })),
    ]
}

fn all() -> Vec<(&'static str, mem::F)> {
    let mut v = binary();
    v.extend(caught());
    v
}

fn main() {
    unsafe {
        setrlimit(4, &[0, 0]); // no core files
        std::env::set_var("RUST_BACKTRACE", "0");
    }
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "--server" {
        serve(&args[2..]);
    }
    mc::main("C31", |tier| {
        let mut v = vec![];
        let mut add = |name: String, la: usize, lb: usize| {
            for k in 0..tier.pick(2, 4) {
                let name = name.clone();
                v.push(block(format!("{name}-{la}-{lb}-{k}"), move |ctx| points(ctx, &name, la, lb, k)));
            }
        };
        let small = [(0usize, 0usize), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (4, 4), (9, 3), (3, 9), (12, 12)];
        let large = [(26usize, 25usize), (50, 25), (70, 34), (66, 65), (200, 3), (200, 194), (3, 200)];
        let more = [(5usize, 5usize), (8, 7), (31, 30), (33, 33), (48, 49), (97, 33), (130, 64), (400, 200), (600, 580)];
        for (name, _) in all() {
            let heavy = matches!(name, "extgcd" | "gcd" | "ringpow");
            let mut sz = small.to_vec();
            sz.extend(large.iter().filter(|x| tier.thorough() || !heavy || x.0.max(x.1) <= 50 && (name != "ringpow" || x.0 < 30)));
            if tier.thorough() {
                sz.extend(more.iter().filter(|x| !heavy || x.0.max(x.1) <= 100));
            }
            for (la, lb) in sz {
                if !(name.starts_with("ring") && lb == 0) {
                    add(name.to_string(), la, lb);
                }
            }
        }
        for (name, _) in unary() {
            for l in tier.pick(vec![0usize, 1, 2, 3, 8, 34, 66], vec![0, 1, 2, 3, 4, 5, 8, 13, 34, 66, 130, 260]) {
                add(name.to_string(), l, (l / 2).max(1));
            }
        }
        for l in 1..=tier.pick(3, 6) {
            for e in [2usize, 3, 7, 10, 33] {
                add(format!("pow-{e}"), l, l);
            }
        }
        v
    });
}
