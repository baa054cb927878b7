//! Exploration driver: runs enumerated blocks in parallel, catches panics, watches for hangs,
//! records violations and coverage counts.
use crate::model::{of_i, of_u, Int, Nat};
use ibig::{IBig, UBig};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, Once, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

pub struct Block {
    pub name: String,
    pub f: Box<dyn Fn(&mut Ctx) + Send + Sync>,
}

pub fn block(name: impl Into<String>, f: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Block {
    Block { name: name.into(), f: Box::new(f) }
}

static STOP: AtomicBool = AtomicBool::new(false);
const MAX_VIOL: usize = 12;

/// Per-block exploration context.
pub struct Ctx {
    pub name: String,
    /// Enumerated points (operand tuples, sequences, environment answers).
    pub states: u64,
    /// Implementation operations executed and compared with the model.
    pub ops: u64,
    /// Points at which a documented panic was expected and observed.
    pub panics: u64,
    pub samples: Vec<String>,
    pub viol: Vec<String>,
    /// Free-form named counters.
    pub counters: std::collections::BTreeMap<String, u64>,
    /// Result digests, for comparison between configurations.
    pub digests: Vec<(String, u64)>,
    slot: usize,
}

/// Collector inside one state.
pub struct Chk {
    fp: u64,
    last: u64,
    nfp: u32,
    pub ops: u64,
    pub panics: u64,
    pub fail: Option<String>,
}

/// Bitmap of outcome fingerprints: the number of set bits is a lower bound on the number of distinct
/// outcomes observed.
const FP_BITS: usize = 1 << 27;
static FPS: OnceLock<Vec<AtomicU64>> = OnceLock::new();

fn fp_map() -> &'static [AtomicU64] {
    FPS.get_or_init(|| (0..FP_BITS / 64).map(|_| AtomicU64::new(0)).collect())
}

impl Chk {
    /// Mix an expected outcome into the state's fingerprint (the first few only).
    #[inline]
    pub fn note(&mut self, b: &[u8]) {
        if self.nfp >= 4 {
            return;
        }
        let mut h = (b.len() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let n = b.len();
        let parts: [&[u8]; 2] = if n > 96 { [&b[..48], &b[n - 48..]] } else { [b, &[]] };
        for p in parts {
            for ch in p.chunks(8) {
                let mut x = [0u8; 8];
                x[..ch.len()].copy_from_slice(ch);
                h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0xff51_afd7_ed55_8ccd);
                h ^= h >> 32;
            }
        }
        if h == self.last {
            return;
        }
        self.last = h;
        self.nfp += 1;
        self.fp = ((self.fp ^ h).wrapping_mul(0x9FB2_1C65_1E98_DF25) ^ (h >> 29)) | 1;
    }
    #[inline]
    pub fn ok(&mut self, cond: bool, what: impl FnOnce() -> String) -> bool {
        self.ops += 1;
        if !cond && self.fail.is_none() {
            self.fail = Some(what());
        }
        cond
    }
    pub fn u(&mut self, op: &str, got: &UBig, want: &Nat) -> bool {
        self.ops += 1;
        let w = want.le();
        self.note(&w);
        let g = got.to_le_bytes();
        if g != w && self.fail.is_none() {
            self.fail = Some(format!("{}: got {} want {}", op, of_u(got).hex(), want.hex()));
        }
        g == w
    }
    pub fn i(&mut self, op: &str, got: &IBig, want: &Int) -> bool {
        self.ops += 1;
        if self.nfp < 4 {
            self.note(&want.mag.le());
            self.note(&[want.neg as u8]);
        }
        let g = of_i(got);
        let ok = g == *want;
        if !ok && self.fail.is_none() {
            self.fail = Some(format!("{}: got {} want {}", op, g.hex(), want.hex()));
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, op: &str, got: T, want: T) -> bool {
        self.ops += 1;
        if self.nfp < 4 {
            self.note(format!("{:?}", want).as_bytes());
        }
        if got != want && self.fail.is_none() {
            self.fail = Some(format!("{}: got {:?} want {:?}", op, got, want));
        }
        got == want
    }
    /// The closure must panic.
    pub fn panics<T>(&mut self, op: &str, f: impl FnOnce() -> T) -> Option<String> {
        self.ops += 1;
        self.panics += 1;
        match call(f) {
            Err(m) => Some(m),
            Ok(_) => {
                if self.fail.is_none() {
                    self.fail = Some(format!("{}: expected a panic, returned normally", op));
                }
                None
            }
        }
    }
    /// The closure must panic with a message containing `sub`.
    pub fn panics_with<T>(&mut self, op: &str, sub: &str, f: impl FnOnce() -> T) {
        if let Some(m) = self.panics(op, f) {
            if !m.contains(sub) && self.fail.is_none() {
                self.fail = Some(format!("{}: panicked with {:?}, expected {:?}", op, m, sub));
            }
        }
    }
}

/// Call f, turning a panic into Err(message).
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        }
    })
}

static PROGRESS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

impl Ctx {
    pub fn stopped(&self) -> bool {
        STOP.load(Relaxed)
    }
    /// Run one enumerated point.
    #[inline]
    pub fn state(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Chk)) {
        if STOP.load(Relaxed) {
            return;
        }
        PROGRESS[self.slot].fetch_add(1, Relaxed);
        self.states += 1;
        if self.states == 1 || (self.states == 1000 && self.samples.len() < 3) {
            self.samples.push(desc());
        }
        let mut c = Chk { fp: 0, last: 0, nfp: 0, ops: 0, panics: 0, fail: None };
        let r = call(|| f(&mut c));
        if c.fp != 0 {
            let b = (c.fp >> 1) as usize % FP_BITS;
            let (w, m) = (&fp_map()[b / 64], 1u64 << (b % 64));
            if w.load(Relaxed) & m == 0 {
                w.fetch_or(m, Relaxed);
            }
        }
        self.ops += c.ops;
        self.panics += c.panics;
        let fail = match (r, c.fail) {
            (_, Some(m)) => Some(m),
            (Err(m), None) => Some(format!("unexpected panic: {}", m)),
            (Ok(()), None) => None,
        };
        if let Some(m) = fail {
            let mut d = desc();
            if d.len() > 6000 {
                let mut k = 6000;
                while !d.is_char_boundary(k) {
                    k -= 1;
                }
                d.truncate(k);
                d.push_str("...(truncated; replay regenerates it)");
            }
            let mut m = m;
            if m.len() > 3000 {
                let mut k = 3000;
                while !m.is_char_boundary(k) {
                    k -= 1;
                }
                m.truncate(k);
            }
            self.viol.push(format!("{} => {}", d, m));
            if VIOLS.fetch_add(1, Relaxed) + 1 >= MAX_VIOL {
                STOP.store(true, Relaxed);
            }
        }
    }
    pub fn tick(&self) {
        PROGRESS[self.slot].fetch_add(1, Relaxed);
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }
}

static VIOLS: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    pub static QUIET: Cell<bool> = const { Cell::new(true) };
}

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

static HOOK: Once = Once::new();

/// Program entry: parses arguments, explores, writes a JSON report.
pub fn main(id: &str, blocks: impl FnOnce(Tier) -> Vec<Block>) {
    let mut tier = Tier::Quick;
    let mut threads = 2usize;
    let mut out = None;
    let mut only = None;
    let mut hang = 120u64;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => {
                tier = if it.next().unwrap() == "thorough" { Tier::Thorough } else { Tier::Quick }
            }
            "--threads" => threads = it.next().unwrap().parse().unwrap(),
            "--out" => out = it.next(),
            "--block" => only = it.next(),
            "--hang" => hang = it.next().unwrap().parse().unwrap(),
            _ => panic!("bad argument {}", a),
        }
    }
    HOOK.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    let t0 = Instant::now();
    crate::model::selfcheck();
    let blocks: Vec<Block> = blocks(tier)
        .into_iter()
        .filter(|b| only.as_ref().map_or(true, |o| *o == b.name))
        .collect();
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<(usize, Ctx, f64)>> = Mutex::new(Vec::new());
    let current: Mutex<Vec<Option<String>>> = Mutex::new(vec![None; threads]);
    let finished = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, done, blocks, current, finished) =
                (&next, &done, &blocks, &current, &finished);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= blocks.len() || STOP.load(Relaxed) {
                            break;
                        }
                        let mut c = Ctx {
                            name: blocks[i].name.clone(),
                            states: 0,
                            ops: 0,
                            panics: 0,
                            samples: vec![],
                            viol: vec![],
                            counters: Default::default(),
                            digests: vec![],
                            slot: t,
                        };
                        current.lock().unwrap()[t] = Some(blocks[i].name.clone());
                        eprintln!("START {}", blocks[i].name);
                        let b0 = Instant::now();
                        // A panic that escapes here is the driver's own: report it as an error.
                        let r = call(|| (blocks[i].f)(&mut c));
                        if let Err(m) = r {
                            eprintln!("DRIVER PANIC in block {}: {}", blocks[i].name, m);
                            c.viol.push(format!("DRIVER: panic outside a state: {}", m));
                        }
                        eprintln!("END {}", blocks[i].name);
                        let el = b0.elapsed().as_secs_f64();
                        if verbose {
                            eprintln!("{:40} {:8} states {:9} ops {:.2}s", c.name, c.states, c.ops, el);
                        }
                        current.lock().unwrap()[t] = None;
                        done.lock().unwrap().push((i, c, el));
                    }
                    finished.fetch_add(1, Relaxed);
                })
                .unwrap();
        }
        // Watchdog.
        let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); threads];
        while finished.load(Relaxed) < threads {
            std::thread::sleep(Duration::from_millis(20));
            for t in 0..threads {
                let p = PROGRESS[t].load(Relaxed);
                if p != last[t].0 || current.lock().unwrap()[t].is_none() {
                    last[t] = (p, Instant::now());
                } else if last[t].1.elapsed().as_secs() > hang {
                    let b = current.lock().unwrap()[t].clone().unwrap();
                    eprintln!("HANG {}", b);
                    std::process::exit(9);
                }
            }
        }
    });
    let mut res = done.into_inner().unwrap();
    res.sort_by_key(|r| r.0);
    let mut j = String::new();
    j.push_str(&format!("{{\"id\":{},\"word_bits\":{},", esc(id), crate::W));
    let sum = |f: &dyn Fn(&Ctx) -> u64| res.iter().map(|r| f(&r.1)).sum::<u64>();
    j.push_str(&format!(
        "\"blocks\":{},\"states\":{},\"ops\":{},\"panics\":{},\"distinct\":{},\"wall\":{:.2},",
        res.len(),
        sum(&|c| c.states),
        sum(&|c| c.ops),
        sum(&|c| c.panics),
        fp_map().iter().map(|w| w.load(Relaxed).count_ones() as u64).sum::<u64>(),
        t0.elapsed().as_secs_f64()
    ));
    j.push_str("\"violations\":[");
    let mut first = true;
    for (_, c, _) in &res {
        for v in &c.viol {
            if !first {
                j.push(',');
            }
            first = false;
            j.push_str(&format!("{{\"block\":{},\"msg\":{}}}", esc(&c.name), esc(v)));
        }
    }
    j.push_str("],\"samples\":[");
    let mut k = 0;
    let step = (res.len() / 4).max(1);
    for (n, (_, c, _)) in res.iter().enumerate() {
        if n % step == 0 && k < 5 && !c.samples.is_empty() {
            if k > 0 {
                j.push(',');
            }
            k += 1;
            let s: String = c.samples[c.samples.len() - 1].chars().take(400).collect();
            j.push_str(&esc(&format!("{}: {}", c.name, s)));
        }
    }
    j.push_str("],\"counters\":{");
    let mut all = std::collections::BTreeMap::new();
    for (_, c, _) in &res {
        for (k, v) in &c.counters {
            *all.entry(k.clone()).or_insert(0) += v;
        }
    }
    j.push_str(&all.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"digests\":[");
    let mut d = vec![];
    for (_, c, _) in &res {
        for (k, v) in &c.digests {
            d.push(format!("[{},\"{:016x}\"]", esc(&format!("{}/{}", c.name, k)), v));
        }
    }
    j.push_str(&d.join(","));
    j.push_str("]}");
    match out {
        Some(o) => std::fs::write(o, j).unwrap(),
        None => println!("{}", j),
    }
    if verbose {
        eprintln!("total {:.2}s", t0.elapsed().as_secs_f64());
    }
}

/// All ownership forms of a binary operator with an assigning form.
#[macro_export]
macro_rules! forms {
    ($c:expr, $a:expr, $b:expr, $op:tt, $opa:tt, $chk:ident, $want:expr) => {{
        let (a, b) = ($a, $b);
        $c.$chk(concat!("&a", stringify!($op), "&b"), &(a $op b), $want);
        $c.$chk(concat!("a", stringify!($op), "&b"), &(a.clone() $op b), $want);
        $c.$chk(concat!("&a", stringify!($op), "b"), &(a $op b.clone()), $want);
        $c.$chk(concat!("a", stringify!($op), "b"), &(a.clone() $op b.clone()), $want);
        let mut x = a.clone();
        x $opa b;
        $c.$chk(concat!("a", stringify!($opa), "&b"), &x, $want);
        let mut x = a.clone();
        x $opa b.clone();
        $c.$chk(concat!("a", stringify!($opa), "b"), &x, $want);
    }};
}

/// All ownership forms of a binary method.
#[macro_export]
macro_rules! mforms {
    ($c:expr, $a:expr, $b:expr, $m:ident, $chk:ident, $want:expr) => {{
        let (a, b) = ($a, $b);
        $c.$chk(concat!("&a.", stringify!($m), "(&b)"), &a.$m(b), $want);
        $c.$chk(concat!("a.", stringify!($m), "(&b)"), &a.clone().$m(b), $want);
        $c.$chk(concat!("&a.", stringify!($m), "(b)"), &a.$m(b.clone()), $want);
        $c.$chk(concat!("a.", stringify!($m), "(b)"), &a.clone().$m(b.clone()), $want);
    }};
}

pub fn d2(a: &Nat, b: &Nat) -> String {
    format!("a={} b={}", a.hex(), b.hex())
}
pub fn d2i(a: &Int, b: &Int) -> String {
    format!("a={} b={}", a.hex(), b.hex())
}
