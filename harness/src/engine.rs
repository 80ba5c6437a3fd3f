//! Generated-input search: choice sequences, fixed-work runs, shrinking, replay, evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;

// ------------------------------------------------------------------ choice source

pub struct Src {
    replay: Option<Vec<u64>>,
    pos: usize,
    st: u64,
    pub rec: Vec<u64>,
}

fn splitmix(st: &mut u64) -> u64 {
    *st = st.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *st;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.rotate_left(32) ^ 0xD6E8_FEB8_6659_FD93;
    splitmix(&mut s).wrapping_add(splitmix(&mut s) ^ b)
}

impl Src {
    pub fn seeded(seed: u64) -> Self {
        Src { replay: None, pos: 0, st: seed, rec: Vec::new() }
    }
    pub fn replayed(v: Vec<u64>) -> Self {
        Src { replay: Some(v), pos: 0, st: 0, rec: Vec::new() }
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0) % n,
            None => ((splitmix(&mut self.st) as u128 * n as u128) >> 64) as u64,
        };
        self.pos += 1;
        self.rec.push(v);
        if self.rec.len() > 200_000 {
            panic!("harness: runaway generator");
        }
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    /// `bits` raw bits
    pub fn bits(&mut self, bits: u32) -> u64 {
        if bits >= 64 {
            let v = match &self.replay {
                Some(r) => r.get(self.pos).copied().unwrap_or(0),
                None => splitmix(&mut self.st),
            };
            self.pos += 1;
            self.rec.push(v);
            v
        } else {
            self.below(1u64 << bits)
        }
    }
    /// true with probability num/den; the simplest choice is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// a number the code under test mentions, or one next to it; the choice is recorded by value
    pub fn hint(&mut self) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0),
            None => {
                let d = crate::hints::dictionary();
                let r = splitmix(&mut self.st);
                let d = if r & 4 != 0 && !d.new.is_empty() { &d.new } else { &d.all };
                match d.len() as u64 {
                    0 => r >> 40,
                    n => d[((r >> 8) % n) as usize].wrapping_add([0, 0, 0, 0, 0, 0, 1, u64::MAX][(r >> 60) as usize & 7]),
                }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// small-biased length in 0..=max
    pub fn len_biased(&mut self, max: usize) -> usize {
        match self.us(4) {
            0 => self.us(max.min(3) + 1),
            1 => self.us(max.min(16) + 1),
            2 => self.us(max.min(40) + 1),
            _ => self.us(max + 1),
        }
    }
    /// interesting value of the given width
    pub fn val(&mut self, bits: u32) -> u64 {
        let m = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.us(7) {
            6 => self.hint() & m,
            0 => *self.pick(&[0, 1, 2, 3]) & m,
            1 => m - (*self.pick(&[0u64, 1, 2]) & m),
            2 => 1u64 << self.us(bits.max(1) as usize),
            3 => m ^ (1u64 << self.us(bits.max(1) as usize)),
            _ => self.bits(bits),
        }
    }
    pub fn word(&mut self) -> u32 {
        match self.us(4) {
            0 => self.val(32) as u32,
            1 => *self.pick(&[0u32, u32::MAX, 0xA5A5_A5A5, 0x7F7F_7F7F]),
            _ => self.bits(32) as u32,
        }
    }
}

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub struct Ctx {
    pub s: Src,
    pub idx: u64,
    trace: Option<Vec<String>>,
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
    /// part of the case identity that is not drawn (e.g. the message type picked by index)
    pub key: u64,
}

impl Ctx {
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f());
        }
    }
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    /// marks the case as non-trivial by the property's stated rule
    pub fn hit(&mut self, tag: &'static str) {
        self.nontrivial = true;
        self.tags.push(tag);
    }
    pub fn tag(&mut self, tag: &'static str) {
        self.tags.push(tag);
    }
}

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::engine::fail($sig, format!($($arg)*));
        }
    };
}

/// Assert equality with a uniform message.
#[macro_export]
macro_rules! same {
    ($got:expr, $want:expr, $sig:expr, $($arg:tt)*) => {{
        let g = &$got;
        let w = &$want;
        if g != w {
            return $crate::engine::fail($sig, format!("{}: expected {:?}, got {:?}", format!($($arg)*), w, g));
        }
    }};
}

pub type CaseFn = fn(&mut Ctx) -> R;

#[derive(Clone)]
pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// if true the case index enumerates a finite space of exactly `thorough` (or `quick`) points
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

// ------------------------------------------------------------------ panic capture

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn normalise(s: &str) -> String {
    let mut out = String::new();
    let mut in_digits = false;
    for c in s.chars().take(160) {
        if c.is_ascii_digit() {
            if !in_digits {
                out.push('#');
            }
            in_digits = true;
        } else {
            in_digits = false;
            out.push(if c.is_control() { ' ' } else { c });
        }
    }
    out
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let (file, line) = info
                .location()
                .map(|l| (l.file().to_string(), l.line()))
                .unwrap_or(("?".into(), 0));
            let short = match file.rfind("/src/") {
                Some(i) => {
                    let pre = &file[..i];
                    let krate = pre.rsplit('/').next().unwrap_or("");
                    format!("{}/{}", krate, &file[i + 5..])
                }
                None => file.clone(),
            };
            LAST_PANIC.with(|p| {
                *p.borrow_mut() = Some((
                    format!("panic:{}:{}", short, normalise(&msg)),
                    format!("panicked at {}:{}: {}", file, line, msg),
                ))
            });
        } else {
            old(info)
        }
    }));
}

/// Run a library call that is allowed to panic only if the property says so.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| {
        let (sig, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        Fail { sig, msg }
    })
}

pub struct Outcome {
    pub res: R,
    pub rec: Vec<u64>,
    pub trace: Vec<String>,
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
    pub key: u64,
}

pub fn run_case(f: CaseFn, s: Src, idx: u64, trace: bool) -> Outcome {
    let mut ctx = Ctx { s, idx, trace: if trace { Some(vec![]) } else { None }, nontrivial: false, tags: vec![], key: 0 };
    let res = match guard(|| f(&mut ctx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    Outcome {
        res,
        rec: std::mem::take(&mut ctx.s.rec),
        trace: ctx.trace.take().unwrap_or_default(),
        nontrivial: ctx.nontrivial,
        key: ctx.key,
        tags: std::mem::take(&mut ctx.tags),
    }
}

// ------------------------------------------------------------------ allocator

pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
const LIVE_CAP: i64 = 2 << 30;

unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}

#[inline]
fn count(n: i64) {
    let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if v > LIVE_CAP {
            c.set(i64::MIN / 2);
            hang_from_alloc();
        }
    });
}

pub fn allocs() -> u64 {
    ALLOCS.with(|c| c.get())
}
/// number of heap allocations made by f on this thread
pub fn alloc_count<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let a = allocs();
    let r = f();
    (r, allocs() - a)
}

// ------------------------------------------------------------------ watchdog

extern "C" {
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
}
fn cpu_of(clk: i32) -> f64 {
    let mut ts = [0i64; 2];
    unsafe {
        if clock_gettime(clk, &mut ts) != 0 {
            return 0.0;
        }
    }
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

const MAXT: usize = 64;
struct Slot {
    clk: AtomicU64,   // clock id + 1<<40, 0 = idle
    count: AtomicU64, // executions started on this thread
    sub: AtomicU64,
    idx: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot { clk: AtomicU64::new(0), count: AtomicU64::new(0), sub: AtomicU64::new(0), idx: AtomicU64::new(0) };
static SLOTS: [Slot; MAXT] = [SLOT0; MAXT];
static STOP_DOG: AtomicBool = AtomicBool::new(false);
thread_local! { static MYSLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }

struct RunInfo {
    prop: String,
    seed: u64,
    subs: Vec<&'static str>,
    best: Option<String>, // replay path of the failure being shrunk
}
static INFO: Mutex<Option<RunInfo>> = Mutex::new(None);

pub fn hang_limit() -> f64 {
    std::env::var("VERIF_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(20.0)
}

fn report_hang(slot: usize, why: &str) -> ! {
    let g = INFO.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(i) = g.as_ref() {
        let path = match &i.best {
            Some(p) => p.clone(),
            None => {
                let sub = i.subs.get(SLOTS[slot].sub.load(SeqCst) as usize).copied().unwrap_or("?");
                let idx = SLOTS[slot].idx.load(SeqCst);
                let path = format!("{}/{}-{}-nonterminating.replay", replay_dir(), i.prop, sub);
                let _ = std::fs::write(
                    &path,
                    format!("property={}\nsubcheck={}\nindex={}\nseed={}\nsig={}\nmode=seeded\n", i.prop, sub, idx, i.seed, why),
                );
                path
            }
        };
        println!("non-termination: {why}");
        println!("VIOLATION property={} replay={}", i.prop, path);
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

fn hang_from_alloc() {
    let slot = MYSLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    if slot != usize::MAX {
        report_hang(slot, "a single case holds more than 2 GiB of heap");
    }
}

fn watchdog() {
    let lim = hang_limit();
    let mut seen = vec![(0u64, 0.0f64, 0u64); MAXT];
    while !STOP_DOG.load(SeqCst) {
        std::thread::sleep(std::time::Duration::from_millis(100));
        for (i, s) in SLOTS.iter().enumerate() {
            let c = s.clk.load(SeqCst);
            if c == 0 {
                continue;
            }
            let clk = (c & 0xFFFF_FFFF) as u32 as i32;
            let n = s.count.load(SeqCst);
            let t = cpu_of(clk);
            if seen[i].0 != n || seen[i].2 != c {
                seen[i] = (n, t, c);
            } else if t - seen[i].1 > lim {
                report_hang(i, &format!("one case used more than {lim} s of CPU"));
            }
        }
    }
}

// Progress is mirrored into a shared file mapping so that the parent process can tell which case
// was running when the library brings the whole process down (stack overflow, abort).
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub fn map_progress(path: &str) {
    use std::os::fd::AsRawFd;
    if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(path) {
        let p = unsafe { mmap(std::ptr::null_mut(), MAXT * 16, 3, 1, f.as_raw_fd(), 0) };
        if p as isize != -1 {
            PROGRESS.store(p as u64, SeqCst);
        }
    }
}
fn progress(slot: usize, sub: u64, idx: u64) {
    let p = PROGRESS.load(Relaxed) as *mut u64;
    if !p.is_null() && slot < MAXT {
        unsafe {
            p.add(slot * 2).write_volatile(sub);
            p.add(slot * 2 + 1).write_volatile(idx);
        }
    }
}
/// run the check in a child process; if that is killed by a signal, find the case that does it
pub fn supervise(props: &[Prop], id: &str, seed: u64, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let file = format!("{}/.progress-{}-{}", replay_dir(), id, std::process::id());
    let _ = std::fs::write(&file, vec![0u8; MAXT * 16]);
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).args(&args[1..]).env("VERIF_PROGRESS", &file).status();
    let slots = std::fs::read(&file).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("harness: cannot start: {e}");
            return 2;
        }
    };
    let Some(sig) = st.signal() else { return st.code().unwrap_or(2) };
    if sig == 9 || sig == 15 || sig == 2 {
        eprintln!("harness: stopped by signal {sig}");
        return 2;
    }
    let prop = props.iter().find(|p| p.id == id).unwrap();
    for s in slots.chunks(16) {
        let sub = u64::from_le_bytes(s[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(s[8..].try_into().unwrap());
        if sub == 0 {
            continue;
        }
        let Some(sub) = prop.subs.get(sub as usize - 1) else { continue };
        let path = format!("{}/{}-{}-killed.replay", replay_dir(), id, sub.name);
        let _ = std::fs::write(&path, format!("property={}\nsubcheck={}\nindex={}\nseed={}\nsig=killed by signal {}\nmode=seeded\n", id, sub.name, idx, seed, sig));
        let r = std::process::Command::new(&exe).args(["replay", &path]).stdout(std::process::Stdio::null()).status();
        if r.map(|r| r.signal().is_some()).unwrap_or(false) {
            println!("[{id}] {}: the process is killed by signal {sig}", sub.name);
            println!("VIOLATION property={id} replay={path}");
            return 1;
        }
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("harness: killed by signal {sig}, not reproducible from the cases that were running");
    2
}

fn enter_slot(i: usize) {
    let mut clk = 0i32;
    unsafe {
        pthread_getcpuclockid(pthread_self(), &mut clk);
    }
    MYSLOT.with(|s| s.set(i));
    SLOTS[i].clk.store((clk as u32 as u64) | (1 << 40), SeqCst);
}
fn leave_slot(i: usize) {
    SLOTS[i].clk.store(0, SeqCst);
    progress(i, 0, 0);
    MYSLOT.with(|s| s.set(usize::MAX));
}
fn tick(sub: usize, idx: u64) {
    let i = MYSLOT.with(|s| s.get());
    if i != usize::MAX {
        SLOTS[i].count.fetch_add(1, Relaxed);
        SLOTS[i].sub.store(sub as u64, Relaxed);
        SLOTS[i].idx.store(idx, Relaxed);
        progress(i, sub as u64 + 1, idx);
    }
    LIVE.with(|c| c.set(0));
}

// ------------------------------------------------------------------ paths

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
pub fn replay_dir() -> String {
    let d = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&d);
    d
}

// ------------------------------------------------------------------ known findings

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub what: String,
}
/// lines: `finding: property=<id> sig=<exact signature> | <what fails>`
pub fn known_findings() -> Vec<Known> {
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", root())) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((p, r)) = r.split_once(" sig=") {
                    if let Some((s, w)) = r.split_once(" | ") {
                        out.push(Known { prop: p.into(), sig: s.into(), what: w.into() });
                    }
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------ running

fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_str(prop)), mix(hash_str(sub), idx))
}

struct Found {
    idx: u64,
    rec: Vec<u64>,
    fail: Fail,
}

struct SubStats {
    name: &'static str,
    evals: u64,
    nontrivial: u64,
    distinct: u64,
    tags: BTreeMap<&'static str, u64>,
    known: BTreeMap<String, u64>,
    wall: f64,
}

/// Shrink a failing choice list keeping the signature.
fn shrink(f: CaseFn, subi: usize, idx: u64, rec: Vec<u64>, sig: &str) -> (Vec<u64>, u64) {
    let mut best = rec;
    let mut runs = 0u64;
    let fails = |v: &[u64], runs: &mut u64| -> Option<Vec<u64>> {
        *runs += 1;
        tick(subi, idx);
        let o = run_case(f, Src::replayed(v.to_vec()), idx, false);
        match o.res {
            Err(e) if e.sig == sig => Some(o.rec),
            _ => None,
        }
    };
    let key = |v: &Vec<u64>| (v.len(), v.iter().map(|x| 64 - x.leading_zeros() as u64).sum::<u64>());
    const MAX: u64 = 6000;
    loop {
        let before = key(&best);
        // delete spans
        let mut w = (best.len() / 2).max(1);
        while w >= 1 {
            let mut i = 0;
            while i + w <= best.len() && runs < MAX {
                let mut c = best.clone();
                c.drain(i..i + w);
                match fails(&c, &mut runs) {
                    Some(r) if key(&r) < key(&best) => best = r,
                    _ => i += w,
                }
            }
            if w == 1 {
                break;
            }
            w /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() && runs < MAX {
            let v = best[i];
            if v != 0 {
                let mut lo = 0u64; // smallest untested
                let mut hi = v;
                let mut c = best.clone();
                c[i] = 0;
                if let Some(r) = fails(&c, &mut runs) {
                    if key(&r) < key(&best) || r.get(i) == Some(&0) && r.len() <= best.len() {
                        best = r;
                        i += 1;
                        continue;
                    }
                }
                // binary search downwards
                let mut steps = 0;
                while lo + 1 < hi && steps < 24 && runs < MAX {
                    steps += 1;
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = mid;
                    match fails(&c, &mut runs) {
                        Some(r) if r.len() <= best.len() => {
                            best = r;
                            hi = mid;
                        }
                        _ => lo = mid,
                    }
                }
            }
            i += 1;
        }
        if key(&best) >= before || runs >= MAX {
            break;
        }
    }
    (best, runs)
}

fn write_replay(prop: &str, sub: &str, idx: u64, seed: u64, rec: &[u64], f: CaseFn, fl: &Fail) -> String {
    let path = format!("{}/{}-{}-{:016x}.replay", replay_dir(), prop, sub, hash_str(&fl.sig));
    let o = run_case(f, Src::replayed(rec.to_vec()), idx, true);
    let mut t = String::new();
    let _ = writeln!(t, "property={prop}\nsubcheck={sub}\nindex={idx}\nseed={seed}\nsig={}\nmode=choices", fl.sig);
    let _ = writeln!(t, "choices={}", rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let _ = writeln!(t, "# failure: {}", fl.msg.replace('\n', " "));
    for l in &o.trace {
        let _ = writeln!(t, "# {}", l.replace('\n', " "));
    }
    let _ = std::fs::write(&path, t);
    path
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let get = |k: &str| {
        t.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|s| s.to_string())).unwrap_or_default()
    };
    let (p, s) = (get("property"), get("subcheck"));
    let idx: u64 = get("index").parse().unwrap_or(0);
    let Some(prop) = props.iter().find(|x| x.id == p) else {
        eprintln!("unknown property {p}");
        return 2;
    };
    let Some(sub) = prop.subs.iter().find(|x| x.name == s) else {
        eprintln!("unknown subcheck {s}");
        return 2;
    };
    let src = if get("mode") == "choices" {
        Src::replayed(get("choices").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
    } else {
        Src::seeded(case_seed(get("seed").parse().unwrap_or(1), &p, &s, idx))
    };
    *INFO.lock().unwrap() = Some(RunInfo { prop: p.clone(), seed: 0, subs: vec![sub.name], best: Some(path.into()) });
    std::thread::spawn(watchdog);
    enter_slot(0);
    tick(0, idx);
    let o = run_case(sub.f, src, idx, true);
    leave_slot(0);
    for l in &o.trace {
        println!("  {l}");
    }
    match o.res {
        Ok(()) => {
            println!("replay: property holds on this input");
            0
        }
        Err(f) => {
            println!("sig: {}\nfailure: {}", f.sig, f.msg);
            println!("VIOLATION property={p} replay={path}");
            1
        }
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Extra {
    pub json: Vec<(String, String)>,
}

pub fn run_prop(prop: &Prop, thorough: bool, seed: u64, only: Option<&str>, scale: f64) -> i32 {
    let t0 = std::time::Instant::now();
    let known: Vec<Known> = known_findings().into_iter().filter(|k| k.prop == prop.id).collect();
    let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 8);
    *INFO.lock().unwrap() = Some(RunInfo {
        prop: prop.id.into(),
        seed,
        subs: prop.subs.iter().map(|s| s.name).collect(),
        best: None,
    });
    STOP_DOG.store(false, SeqCst);
    let dog = std::thread::spawn(watchdog);
    let mut stats: Vec<SubStats> = vec![];
    let mut violations: Vec<(String, String, String)> = vec![]; // sig, path, msg
    let mut samples: Vec<String> = vec![];
    let mut known_hit: BTreeMap<String, (u64, String)> = BTreeMap::new();

    for (si, sub) in prop.subs.iter().enumerate() {
        if let Some(o) = only {
            if o != sub.name {
                continue;
            }
        }
        let ts = std::time::Instant::now();
        let n = ((if thorough { sub.thorough } else { sub.quick }) as f64 * scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let min_bad = AtomicU64::new(u64::MAX);
        let found: Mutex<Option<Found>> = Mutex::new(None);
        let merged: Mutex<(SubStats, HashSet<u64>, Vec<u64>)> = Mutex::new((
            SubStats { name: sub.name, evals: 0, nontrivial: 0, distinct: 0, tags: BTreeMap::new(), known: BTreeMap::new(), wall: 0.0 },
            HashSet::new(),
            vec![],
        ));
        let knownsig: HashSet<&str> = known.iter().map(|k| k.sig.as_str()).collect();
        std::thread::scope(|sc| {
            for th in 0..nthreads {
                let (next, min_bad, found, merged, knownsig) = (&next, &min_bad, &found, &merged, &knownsig);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        enter_slot(th);
                        let mut evals = 0u64;
                        let mut nontriv = 0u64;
                        let mut set = HashSet::new();
                        let mut tags: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut kn: BTreeMap<String, u64> = BTreeMap::new();
                        let mut early: Vec<u64> = vec![];
                        const CH: u64 = 32;
                        loop {
                            let a = next.fetch_add(CH, SeqCst);
                            if a >= n || a > min_bad.load(SeqCst) {
                                break;
                            }
                            for idx in a..(a + CH).min(n) {
                                if idx > min_bad.load(Relaxed) {
                                    break;
                                }
                                tick(si, idx);
                                let o = run_case(sub.f, Src::seeded(case_seed(seed, prop.id, sub.name, idx)), idx, false);
                                evals += 1;
                                for t in &o.tags {
                                    *tags.entry(t).or_insert(0) += 1;
                                }
                                if o.nontrivial {
                                    nontriv += 1;
                                    let mut h = mix(o.key, 0x1234);
                                    for c in &o.rec {
                                        h = (h ^ c).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23);
                                    }
                                    // enumerating checks draw nothing: the index is the case
                                    if o.rec.is_empty() {
                                        h ^= mix(idx, 77);
                                    }
                                    if set.len() < 4_000_000 {
                                        set.insert(h);
                                    }
                                    if early.len() < 2 {
                                        early.push(idx);
                                    }
                                }
                                if let Err(f) = o.res {
                                    if knownsig.contains(f.sig.as_str()) {
                                        *kn.entry(f.sig).or_insert(0) += 1;
                                        continue;
                                    }
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().map(|x| idx < x.idx).unwrap_or(true) {
                                        min_bad.fetch_min(idx, SeqCst);
                                        *g = Some(Found { idx, rec: o.rec, fail: f });
                                    }
                                }
                            }
                        }
                        leave_slot(th);
                        let mut m = merged.lock().unwrap();
                        m.0.evals += evals;
                        m.0.nontrivial += nontriv;
                        for (k, v) in tags {
                            *m.0.tags.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in kn {
                            *m.0.known.entry(k).or_insert(0) += v;
                        }
                        if m.1.len() < 20_000_000 {
                            m.1.extend(set);
                        }
                        m.2.extend(early);
                    })
                    .unwrap();
            }
        });
        let (mut st, set, mut early) = merged.into_inner().unwrap();
        st.distinct = set.len() as u64;
        early.sort();
        enter_slot(0);
        for idx in early.iter().take(2) {
            tick(si, *idx);
            let o = run_case(sub.f, Src::seeded(case_seed(seed, prop.id, sub.name, *idx)), *idx, true);
            let mut s = format!("{}#{}: {}", sub.name, idx, o.trace.join("; "));
            if s.len() > 700 {
                let mut e = 700;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push_str(" ...");
            }
            samples.push(s);
        }
        for (k, v) in &st.known {
            let e = known_hit.entry(k.clone()).or_insert((0, String::new()));
            e.0 += v;
        }
        if let Some(fd) = found.into_inner().unwrap() {
            let path0 = write_replay(prop.id, sub.name, fd.idx, seed, &fd.rec, sub.f, &fd.fail);
            INFO.lock().unwrap().as_mut().unwrap().best = Some(path0);
            let (rec, _) = shrink(sub.f, si, fd.idx, fd.rec.clone(), &fd.fail.sig);
            tick(si, fd.idx);
            let o = run_case(sub.f, Src::replayed(rec.clone()), fd.idx, false);
            let (rec, fl) = match o.res {
                Err(e) if e.sig == fd.fail.sig => (rec, e),
                _ => (fd.rec, fd.fail),
            };
            let path = write_replay(prop.id, sub.name, fd.idx, seed, &rec, sub.f, &fl);
            INFO.lock().unwrap().as_mut().unwrap().best = None;
            println!("[{}] {}: {} :: {}", prop.id, sub.name, fl.sig, fl.msg);
            println!("VIOLATION property={} replay={}", prop.id, path);
            violations.push((fl.sig, path, fl.msg));
        }
        leave_slot(0);
        st.wall = ts.elapsed().as_secs_f64();
        stats.push(st);
    }
    STOP_DOG.store(true, SeqCst);
    let _ = dog.join();

    for k in &known {
        if known_hit.contains_key(&k.sig) {
            println!("KNOWN-FINDING: property={} {}", prop.id, k.what);
        }
    }

    let evals: u64 = stats.iter().map(|s| s.evals).sum();
    let distinct: u64 = stats.iter().map(|s| s.distinct).sum();
    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        jstr(prop.id),
        jstr(if thorough { "thorough" } else { "quick" }),
        seed,
        evals,
        distinct,
        jstr(prop.rule)
    );
    let _ = write!(j, "  \"samples\": [{}],\n", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   "));
    let subs: Vec<String> = stats
        .iter()
        .map(|s| {
            format!(
                "{{\"name\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.2},\"tags\":{{{}}}}}",
                jstr(s.name),
                s.evals,
                s.nontrivial,
                s.distinct,
                s.wall,
                s.tags.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let _ = write!(j, "  \"subchecks\": [{}]\n }},\n", subs.join(",\n   "));
    let _ = write!(
        j,
        " \"assumptions\": [\"harness built with debug assertions and overflow checks from /repo's working tree\", \"generated inputs are bounded in length as DESIGN.md says\"],\n"
    );
    let _ = write!(
        j,
        " \"known_findings_hit\": [{}],\n",
        known_hit.iter().map(|(k, v)| format!("{{\"sig\":{},\"count\":{}}}", jstr(k), v.0)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        j,
        " \"violations\": {},\n \"violation_replays\": [{}],\n \"wall_s\": {:.2}\n}}\n",
        violations.len(),
        violations.iter().map(|v| jstr(&v.1)).collect::<Vec<_>>().join(","),
        wall
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", root(), prop.id), j);
    println!(
        "[{}] {} cases, {} distinct non-trivial, {} violation(s), {:.1}s",
        prop.id,
        evals,
        distinct,
        violations.len(),
        wall
    );
    for s in &stats {
        println!(
            "    {:28} {:>9} cases {:>9} nontrivial {:6.2}s  {}",
            s.name,
            s.evals,
            s.nontrivial,
            s.wall,
            s.tags.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
        );
    }
    if violations.is_empty() {
        0
    } else {
        1
    }
}
