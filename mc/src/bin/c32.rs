//! C32: numbers and rings may be shared between threads. Every pair of reading operations runs in two
//! threads under a controlled scheduler; every schedule up to a preemption bound is executed.
use ibig::{IBig, Modulo, ModuloRing, UBig};
use mc::mem::{contents, Dig};
use mc::{sched, steps};
use mc::share::*;
use mc::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// Every call of the allocator is a scheduling point.
struct Points;
unsafe impl GlobalAlloc for Points {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if let Some(p) = steps::alloc(l) {
            return p;
        }
        sched::point();
        let p = System.alloc(l);
        // Fresh memory is the same in every schedule.
        if !p.is_null() {
            std::ptr::write_bytes(p, 0xA5, l.size().min(1 << 12));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if steps::owns(p) {
            return;
        }
        System.dealloc(p, l);
        sched::point();
    }
}
#[global_allocator]
static A: Points = Points;

/// Does the type promise to be shareable? (Asked without requiring it.)
struct Probe<T>(PhantomData<T>);
trait Not {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T> Not for &Probe<T> {}
trait IsSend {
    fn send(&self) -> bool {
        true
    }
}
trait IsSync {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: Send> IsSend for Probe<T> {}
impl<T: Sync> IsSync for Probe<T> {}

fn shapes() -> Vec<(usize, usize, usize, usize)> {
    // words of a, of b, of the modulus; contents
    vec![(1, 1, 1, 1), (3, 2, 2, 0), (3, 3, 1, 1), (40, 20, 5, 1), (18, 40, 3, 0), (72, 34, 2, 1)]
}

fn with<R>(shape: (usize, usize, usize, usize), f: impl FnOnce(&Force<Shared>) -> R) -> R {
    let (la, lb, lm, k) = shape;
    let m = contents(lm, (k + 1) % 4).add(&Nat::from_u(1 + (k as u128 & 1)));
    let ring = ModuloRing::new(&to_u(&m));
    let v = Force(Shared::new(&contents(la, k), &contents(lb, (k + 1) % 4), &ring));
    f(&v)
}
fn run(op: &Op, v: &Force<Shared>, flip: bool) -> Result<u64, String> {
    let mut d = Dig(1);
    call(|| (op.1)(&mut d, &v.0.view(flip))).map(|_| d.0)
}

fn pair(ctx: &mut Ctx, shape: (usize, usize, usize, usize), names: &[&[Op]], bound: usize, cap: u64) {
    let what = format!("{} on {shape:?}", names.iter().map(|p| p.iter().map(|o| o.0).collect::<Vec<_>>().join(";")).collect::<Vec<_>>().join(" | "));
    with(shape, |v| {
        let want: Vec<Vec<Result<u64, String>>> = names.iter().enumerate().map(|(t, p)| p.iter().map(|o| run(o, v, t == 1)).collect()).collect();
        let before = v.0.all();
        let programs: Vec<Box<dyn Fn() -> Vec<Result<u64, String>> + Sync + '_>> = names
            .iter()
            .enumerate()
            .map(|(t, p)| {
                let p: Vec<Op> = p.to_vec();
                Box::new(move || p.iter().map(|o| run(o, v, t == 1)).collect()) as Box<dyn Fn() -> _ + Sync>
            })
            .collect();
        let refs: Vec<&(dyn Fn() -> Vec<Result<u64, String>> + Sync)> = programs.iter().map(|b| &**b).collect();
        let e = sched::explore(&refs, bound, cap, &mut |schedule, got| {
            let mut good = true;
            ctx.state(|| format!("{what}, schedule {}", brief(schedule)), |c| {
                good &= c.ok(got == want, || format!("outcomes {got:?}, alone {want:?}"));
                good &= c.ok(v.0.all() == before, || "a shared value changed".into());
                c.note(what.as_bytes());
                c.note(schedule);
            });
            good && !ctx.stopped()
        });
        *ctx.counters.entry("schedules".into()).or_default() += e.schedules;
        *ctx.counters.entry("scheduling choices".into()).or_default() += e.choices;
        *ctx.counters.entry("schedules not controlled to the end".into()).or_default() += e.uncontrolled;
        *ctx.counters.entry("programs whose schedules were cut off".into()).or_default() += e.capped as u64;
        *ctx.counters.entry("programs".into()).or_default() += 1;
    })
}
/// In a process of its own (with no other thread): operation `i` step by step on fresh values.
fn serve(args: &[String]) -> ! {
    use std::sync::atomic::Ordering::SeqCst;
    let n: Vec<usize> = args.iter().map(|x| x.parse().unwrap()).collect();
    let ((la, lb, lm, k), i, limit, budget, pass) = (all_shapes()[n[0]], n[1], n[2], n[3], n[4]);
    let t0 = std::time::Instant::now();
    std::panic::set_hook(Box::new(|_| {}));
    steps::enter();
    let m = contents(lm, (k + 1) % 4).add(&Nat::from_u(1 + (k as u128 & 1)));
    let ring: &'static ModuloRing = Box::leak(Box::new(ModuloRing::new(&to_u(&m))));
    let v: &'static Force<Shared> = Box::leak(Box::new(Force(Shared::new(&contents(la, k), &contents(lb, (k + 1) % 4), ring))));
    let ops: &'static Vec<Op> = Box::leak(Box::new(ops()));
    steps::snapshot();
    // Outcomes alone and whether anything shared is different afterwards, each in a fresh copy.
    let page = steps::common(ops.len() * 8);
    let alone = |o: usize, f: usize| {
        let c = &page[(2 * o + f) * 4..];
        steps::forked(|| {
            let mut r = Err(String::new());
            let net = steps::leaves_changed(|| r = run(&ops[o], v, f == 1));
            if let Ok(x) = r {
                c[1].store(x, SeqCst);
                c[2].store(net as u64, SeqCst);
                c[0].store(1, SeqCst);
            }
        });
        if c[0].load(SeqCst) == 1 { Some((c[1].load(SeqCst), c[2].load(SeqCst) == 1)) } else { None }
    };
    let table: Vec<[Option<(u64, bool)>; 2]> = (0..ops.len()).map(|o| [alone(o, 0), alone(o, 1)]).collect();
    for f in 0..2 {
        let Some((want, _)) = table[i][f] else {
            println!("P {f}");
            continue;
        };
        let c = &page[(2 * i + f) * 4..];
        c[3].store(0, SeqCst);
        let st = steps::forked(|| {
            let mut d = Dig(1);
            let ((), n, w) = steps::watch(|| (ops[i].1)(&mut d, &v.0.view(f == 1)));
            c[1].store(n as u64, SeqCst);
            c[2].store(w as u64, SeqCst);
            c[3].store(1 + (d.0 == want) as u64, SeqCst);
        });
        let writes = c[2].load(SeqCst);
        println!("D {f} {} {writes} {} {st} {}", c[1].load(SeqCst), c[3].load(SeqCst), steps::watched());
        // Everything that may depend on it.
        let mut others: Vec<(usize, usize)> = vec![(i, f), (i, 1 - f)];
        if pass == 2 {
            others = (0..ops.len()).filter(|o| *o != i).flat_map(|o| [(o, 0), (o, 1)]).collect();
        }
        for (o, g) in others {
            let Some((other_want, other_net)) = table[o][g] else { continue };
            if writes == 0 && !other_net {
                continue;
            }
            // With nothing done before, after the operation itself, after the other one.
            for warm in 0..3 {
                if t0.elapsed().as_secs() as usize >= budget {
                    println!("CUT");
                    break;
                }
                let c = &page[(2 * i + f) * 4..];
                let st = steps::forked(|| {
                    let _ = match warm {
                        1 => run(&ops[i], v, f == 1),
                        2 => run(&ops[o], v, g == 1),
                        _ => Ok(0),
                    };
                    let other = || run(&ops[o], v, g == 1) == Ok(other_want);
                    let mut d = Dig(1);
                    let (n, bad) = steps::explore(
                        || {
                            (ops[i].1)(&mut d, &v.0.view(f == 1));
                            d.0 == want
                        },
                        // (When both are done, each once more.)
                        || run(&ops[i], v, f == 1) == Ok(want) && other(),
                        &other,
                        limit,
                        t0 + std::time::Duration::from_secs(budget as u64),
                    );
                    c[0].store(n as u64, SeqCst);
                    c[1].store(bad.map_or(0, |b| b.0 as u64), SeqCst);
                    c[2].store(bad.map_or(0, |b| b.1 as u64), SeqCst);
                });
                println!("E {f} {} {g} {warm} {} {} {} {st}", ops[o].0, c[0].load(SeqCst), c[1].load(SeqCst), c[2].load(SeqCst));
                if c[2].load(SeqCst) != 0 {
                    println!("END");
                    std::process::exit(0);
                }
            }
        }
    }
    println!("END");
    std::process::exit(0)
}
fn all_shapes() -> Vec<(usize, usize, usize, usize)> {
    let mut s = shapes();
    s.extend([(2, 2, 3, 3), (5, 9, 4, 2), (26, 33, 8, 0), (9, 5, 2, 3)]);
    s
}

static START: std::sync::LazyLock<std::time::Instant> = std::sync::LazyLock::new(std::time::Instant::now);

/// A violation was found: later explorations are left out.
static FOUND: AtomicBool = AtomicBool::new(false);

/// Some operation writes to shared memory (the first pass tells).
static WROTE: AtomicBool = AtomicBool::new(false);

fn instructions(ctx: &mut Ctx, shape: usize, i: usize, budget: usize, pass: usize) {
    let name = ops()[i].0;
    if pass == 2 && (FOUND.load(Relaxed) || !WROTE.load(Relaxed)) {
        return;
    }
    let budget = budget.saturating_sub(START.elapsed().as_secs() as usize).min(budget / 3);
    let budget = if FOUND.load(Relaxed) { 0 } else { budget };
    let what = format!("{name} on {:?}, instruction by instruction", all_shapes()[shape]);
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--steps", &shape.to_string(), &i.to_string(), "20000", &budget.to_string(), &pass.to_string()])
        .output()
        .unwrap();
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut ended = false;
    if pass == 2 && !text.contains("\nE") {
        // Nothing that depends on it: already counted in the first pass.
        return;
    }
    for l in text.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        match p[0] {
            "D" => ctx.state(|| format!("{what}: alone, view {}", p[1]), |c| {
                c.note(what.as_bytes());
                c.note(p[1].as_bytes());
                c.ok(p[4] == "2" && p[5] == "0", || format!("the outcome depends on being interrupted: {l}"));
            }),
            "E" => ctx.state(|| format!("{what}, view {}: {} (view {}) in another thread at every instruction, warm-up {}", p[1], p[2], p[3], p[4]), |c| {
                c.note(l.as_bytes());
                c.ok(p[7] == "0" && p[8] == "0", || format!("preempted at instruction {}: wrong outcome (status {}; 256 the interrupted thread's, 512 the other's, 768 a later operation's)", p[6], p[7]));
            }),
            "P" => *ctx.counters.entry("panicking operations, not stepped".into()).or_default() += 1,
            "CUT" => *ctx.counters.entry("searches cut off by time".into()).or_default() += 1,
            "END" => ended = true,
            _ => {}
        }
        if p[0] == "D" {
            if p[3] != "0" {
                WROTE.store(true, Relaxed);
            }
            *ctx.counters.entry("instructions after which shared memory was compared".into()).or_default() += p[2].parse::<u64>().unwrap();
            *ctx.counters.entry("instructions that wrote to shared memory".into()).or_default() += p[3].parse::<u64>().unwrap();
        }
        if p[0] == "E" {
            if p[7] != "0" {
                FOUND.store(true, Relaxed);
            }
            *ctx.counters.entry("preemptions explored at single instructions".into()).or_default() += p[5].parse::<u64>().unwrap();
        }
    }
    ctx.state(|| format!("{what}: the search ended"), |c| {
        c.ok(ended, || format!("{:?} {text} {}", out.status, String::from_utf8_lossy(&out.stderr)));
    });
}
/// Run-length form of a schedule.
fn brief(s: &[u8]) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        let j = (i..s.len()).take_while(|j| s[*j] == s[i]).count();
        out += &format!("{}x{j} ", s[i]);
        i += j;
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "--steps" {
        serve(&args[2..]);
    }
    mc::main("C32", |tier| {
        let mut v = vec![];
        for pass in 1..3 {
            for s in 0..all_shapes().len() {
                for i in 0..ops().len() {
                    if s < 2 || tier.thorough() || s % 2 == 0 {
                        v.push(block(format!("steps{pass}-{}-{s}", ops()[i].0), move |ctx| instructions(ctx, s, i, tier.pick(90, 600), pass)));
                    }
                }
            }
        }
        v.push(block("promises", |ctx| {
            macro_rules! t {
                ($($t:ty),*) => {$(
                    ctx.state(|| stringify!($t).to_string(), |c| {
                        c.ok((&Probe::<$t>(PhantomData)).send(), || "not Send".into());
                        c.ok((&Probe::<$t>(PhantomData)).sync(), || "not Sync".into());
                        c.note(stringify!($t).as_bytes());
                    });
                )*};
            }
            t!(UBig, IBig, ModuloRing, Modulo<'static>, ibig::error::ParseError, ibig::error::OutOfBoundsError);
            ctx.state(|| "the question itself".into(), |c| {
                c.ok(!(&Probe::<std::cell::Cell<u8>>(PhantomData)).sync(), || "a Cell would count as shareable".into());
            });
        }));
        let n = ops().len();
        for (si, shape) in shapes().into_iter().enumerate() {
            for i in 0..n {
                for j in i..n {
                    let o = ops();
                    v.push(block(format!("{}-{}-{si}", o[i].0, o[j].0), move |ctx| {
                        let o = ops();
                        let deep = tier.thorough() && si == 1;
                        pair(ctx, shape, &[&o[i..=i], &o[j..=j]], if deep { 2 } else { 1 }, tier.pick(2000, 6000));
                        // Two operations each.
                        for step in if tier.thorough() { 1..n } else { 7..9 } {
                            if si >= 2 && !(tier.thorough() && step % 6 == 1) {
                                continue;
                            }
                            let (k, l) = ((i + step) % n, (j + 11 + step) % n);
                            pair(ctx, shape, &[&[o[i], o[k]], &[o[j], o[l]]], 1, 2000);
                        }
                        if i == j && (si == 1 || tier.thorough()) {
                            pair(ctx, shape, &[&o[i..=i], &o[i..=i], &o[i..=i]], if deep { 2 } else { 1 }, 20000);
                        }
                    }));
                }
            }
        }
        v
    });
}
