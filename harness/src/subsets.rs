//! C21: the library built with a subset of its features, with and without the standard library,
//! answers as the full build does for what the subset contains. The probes (../subsets) are the
//! same program built against each configuration.
use crate::engine::*;
use crate::hist::*;
use crate::model::*;
use crate::props_a::*;
use crate::types::*;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Mutex, OnceLock};

const NAMES: [&str; 10] =
    ["channel-voice1", "channel-voice2", "flex-data", "sysex7", "sysex8", "system-common", "ump-stream", "utility", "ci", "std"];
const MODULES: [&str; 8] =
    ["channel_voice1", "channel_voice2", "flex_data", "sysex7", "sysex8", "system_common", "ump_stream", "utility"];
const S7: u32 = 1 << 3;
const CI: u32 = 1 << 8;
const STD: u32 = 1 << 9;
const ALL: u32 = 0x1FF;
const FULL: u32 = ALL | STD;
const SEP: char = '\u{1}';

fn has(mask: u32, module: &str) -> bool {
    MODULES.iter().position(|m| *m == module).map(|i| mask >> i & 1 == 1).unwrap_or(false)
}
fn show(mask: u32) -> String {
    let v: Vec<&str> = (0..10).filter(|i| mask >> i & 1 == 1).map(|i| NAMES[i]).collect();
    if v.is_empty() { "no features".into() } else { v.join("+") }
}
/// the configurations looked at; the quick tier takes the first `QUICK` of them
fn configs() -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    let mut add = |m: u32| {
        let m = if m & CI != 0 { m | S7 } else { m };
        if m != FULL && !v.contains(&m) {
            v.push(m)
        }
    };
    add(0);
    add(STD);
    add(ALL);
    for i in 0..9 {
        add(1 << i);
        add(1 << i | STD);
    }
    for i in 0..9 {
        add(FULL & !(1 << i));
        add(ALL & !(1 << i));
    }
    // sysex7 off means ci off
    add(FULL & !(S7 | CI));
    add(ALL & !(S7 | CI));
    for i in 0..8 {
        for j in i + 1..8 {
            add(1 << i | 1 << j);
        }
    }
    let mut s = Src::seeded(2026);
    for i in 0..8 {
        for j in i + 1..8 {
            add(1 << i | 1 << j | STD);
            add(FULL & !(1 << i | 1 << j | CI));
        }
    }
    for _ in 0..140 {
        add(s.bits(10) as u32);
    }
    v
}
fn quick_count() -> usize {
    // none ×2, all, singles ×18, minus one ×17 (taking out sysex7 takes ci too), pairs 28
    let c = configs();
    c.iter().position(|m| *m == (1 | 2 | STD)).unwrap()
}

pub fn count(thorough: bool) -> u64 {
    if thorough { configs().len() as u64 } else { quick_count() as u64 }
}

// ---------------------------------------------------------------- builds

fn crate_dir() -> String {
    // next to the harness, wherever that was built from
    format!("{}/../subsets", env!("CARGO_MANIFEST_DIR"))
}
fn out_dir() -> String {
    format!("{}/target", crate_dir())
}
fn bin(mask: u32) -> String {
    format!("{}/bin/{:03x}", out_dir(), mask)
}
fn cargo(dir: &str, args: &[&str]) -> (bool, String) {
    let o = Command::new("cargo")
        .args(args)
        .current_dir(crate_dir())
        .env("CARGO_TARGET_DIR", dir)
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TERM_COLOR", "never")
        .env("CARGO_BUILD_JOBS", "2")
        .stdin(Stdio::null())
        .output();
    match o {
        Ok(o) => (o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned()),
        Err(e) => (false, format!("cannot run cargo: {e}")),
    }
}
enum Built {
    Yes,
    /// the library (or the probe against it) does not compile so
    Broken(String),
    /// no verdict
    Unknown(String),
}
fn build(worker: &str, mask: u32) -> Built {
    let path = bin(mask);
    if std::path::Path::new(&path).exists() {
        return Built::Yes;
    }
    if let Ok(e) = std::fs::read_to_string(format!("{path}.err")) {
        return Built::Broken(e);
    }
    let f: Vec<&str> = (0..10).filter(|i| mask >> i & 1 == 1).map(|i| NAMES[i]).collect();
    let (ok, log) = cargo(worker, &["build", "--offline", "--no-default-features", "--features", &f.join(",")]);
    if ok {
        let tmp = format!("{path}.tmp");
        let r = std::fs::copy(format!("{worker}/debug/subsets"), &tmp).and_then(|_| std::fs::rename(&tmp, &path));
        return match r {
            Ok(()) => Built::Yes,
            Err(e) => Built::Unknown(format!("cannot copy the probe: {e}")),
        };
    }
    let first: Vec<&str> = log.lines().skip_while(|l| !l.starts_with("error")).take(8).collect();
    if log.contains("could not compile `midi2`") || log.contains("could not compile `subsets`") {
        let e = first.join(" ");
        let _ = std::fs::write(format!("{path}.err"), &e);
        Built::Broken(e)
    } else {
        Built::Unknown(log)
    }
}

/// the probe of the full build, from /repo as it is now; Err: no verdict
pub fn full() -> Result<(), String> {
    let out = out_dir();
    std::fs::create_dir_all(format!("{out}/bin")).map_err(|e| e.to_string())?;
    let sum = Command::new("bash")
        .arg("-c")
        .arg("cd /repo && { find Cargo.toml midi2 midi2_proc -path '*/target' -prune -o -type f \\( -name '*.rs' -o -name Cargo.toml \\) -print0; find \"$0\"/src \"$0\"/Cargo.toml \"$0\"/../harness/src -type f -print0; } | sort -z | xargs -0 sha256sum | sha256sum")
        .arg(crate_dir())
        .output()
        .map_err(|e| e.to_string())?;
    let now = String::from_utf8_lossy(&sum.stdout).into_owned();
    let stamp = format!("{out}/stamp");
    let w0 = format!("{out}/w0");
    if std::fs::read_to_string(&stamp).ok().as_deref() != Some(now.as_str()) {
        // cargo decides by modification time, we by content
        let _ = std::fs::remove_dir_all(format!("{out}/bin"));
        std::fs::create_dir_all(format!("{out}/bin")).map_err(|e| e.to_string())?;
        cargo(&w0, &["clean", "--offline", "-p", "midi2", "-p", "midi2_proc", "-p", "subsets"]);
    }
    match build(&w0, FULL) {
        Built::Yes => {}
        Built::Broken(e) | Built::Unknown(e) => return Err(format!("the full probe does not build: {e}")),
    }
    std::fs::write(&stamp, &now).map_err(|e| e.to_string())?;
    Ok(())
}
pub fn prepare(thorough: bool) -> Result<(), String> {
    full()?;
    let (out, w0) = (out_dir(), format!("{}/w0", out_dir()));
    let mut todo = configs();
    todo.truncate(if thorough { todo.len() } else { quick_count() });
    todo.retain(|m| !std::path::Path::new(&bin(*m)).exists());
    if todo.is_empty() {
        return Ok(());
    }
    let n = todo.len().min(8);
    let next = Mutex::new(todo.into_iter());
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for i in 0..n {
            let (next, bad, w0) = (&next, &bad, &w0);
            let out = &out;
            sc.spawn(move || {
                let w = format!("{out}/v{i}");
                let _ = std::fs::remove_dir_all(&w);
                // start from what w0 has of the dependencies
                let _ = Command::new("cp").args(["-a", w0, &w]).status();
                loop {
                    let m = next.lock().unwrap().next();
                    let Some(m) = m else { break };
                    if let Built::Unknown(e) = build(&w, m) {
                        *bad.lock().unwrap() = Some(format!("{}: {e}", show(m)));
                        break;
                    }
                    // only the last build's products are kept
                    let _ = Command::new("bash")
                        .arg("-c")
                        .arg("rm -f \"$0\"/debug/deps/*midi2-* \"$0\"/debug/deps/subsets-* \"$0\"/debug/subsets")
                        .arg(&w)
                        .status();
                }
                let _ = std::fs::remove_dir_all(&w);
            });
        }
    });
    match bad.into_inner().unwrap() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- probes

struct Proc {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
    left: Vec<u8>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
#[repr(C)]
struct Poll {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn poll(p: *mut Poll, n: u64, ms: i32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
enum Ask {
    Answer(String),
    Died,
}
fn spawn(mask: u32) -> std::io::Result<Proc> {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(bin(mask));
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            let l = [4u64 << 30, 4u64 << 30];
            setrlimit(9, &l);
            Ok(())
        });
    }
    let mut child = c.spawn()?;
    let (to, from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
    Ok(Proc { child, to, from, left: vec![] })
}
impl Proc {
    fn ask(&mut self, q: &str) -> Option<String> {
        self.to.write_all(q.as_bytes()).and_then(|_| self.to.write_all(b"\n")).and_then(|_| self.to.flush()).ok()?;
        let mut buf = [0u8; 1 << 16];
        loop {
            if let Some(i) = self.left.iter().position(|b| *b == b'\n') {
                let l: Vec<u8> = self.left.drain(..=i).collect();
                return Some(String::from_utf8_lossy(&l[..i]).into_owned());
            }
            let mut p = Poll { fd: self.from.as_raw_fd(), events: 1, revents: 0 };
            if unsafe { poll(&mut p, 1, 60_000) } <= 0 {
                return None;
            }
            match self.from.read(&mut buf) {
                Ok(n) if n > 0 => self.left.extend_from_slice(&buf[..n]),
                _ => return None,
            }
        }
    }
}
static POOL: OnceLock<Vec<Mutex<Option<Proc>>>> = OnceLock::new();
thread_local! {
    static REFERENCE: std::cell::RefCell<Option<Proc>> = const { std::cell::RefCell::new(None) };
}
fn put(slot: &mut Option<Proc>, mask: u32, q: &str) -> Ask {
    if slot.is_none() {
        match spawn(mask) {
            Ok(p) => *slot = Some(p),
            Err(e) => {
                eprintln!("harness: cannot start a probe: {e}");
                std::process::exit(2);
            }
        }
    }
    match slot.as_mut().unwrap().ask(q) {
        Some(a) => Ask::Answer(a),
        None => {
            *slot = None;
            Ask::Died
        }
    }
}
fn ask(mask: u32, q: &str) -> Ask {
    if mask == FULL {
        return REFERENCE.with(|r| put(&mut r.borrow_mut(), mask, q));
    }
    let pool = POOL.get_or_init(|| (0..1024).map(|_| Mutex::new(None)).collect());
    let mut g = pool[mask as usize].lock().unwrap_or_else(|e| e.into_inner());
    put(&mut g, mask, q)
}

// ---------------------------------------------------------------- cases

fn hexs<U: Un>(d: &[U]) -> String {
    if d.is_empty() {
        return "-".into();
    }
    d.iter().map(|x| format!("{:x}", x.to32())).collect::<Vec<_>>().join(",")
}
static ACTIVE: OnceLock<usize> = OnceLock::new();
pub fn activate(thorough: bool) {
    let _ = ACTIVE.set(if thorough { configs().len() } else { quick_count() });
}
fn config(c: &mut Ctx, module: &str) -> u32 {
    static LIST: OnceLock<Vec<u32>> = OnceLock::new();
    let l = LIST.get_or_init(configs);
    let n = *ACTIVE.get_or_init(|| l.len());
    let mut i = c.s.us(n);
    // usually one in which there is something to see
    if c.s.chance(7, 8) {
        while !has(l[i], module) {
            i = (i + 1) % n;
        }
    }
    c.note(|| format!("built with {}", show(l[i])));
    l[i]
}
/// a run has built what it uses before; a replay builds what it needs
fn ready(mask: u32) -> bool {
    static ONE: Mutex<()> = Mutex::new(());
    let _g = ONE.lock().unwrap_or_else(|e| e.into_inner());
    match build(&format!("{}/w0", out_dir()), mask) {
        Built::Yes => true,
        Built::Broken(_) => false,
        Built::Unknown(e) => {
            eprintln!("harness: {e}");
            std::process::exit(2);
        }
    }
}
fn module_of<U: Un>(d: &[U]) -> &'static str {
    let Some(x) = d.first() else { return "" };
    let x = x.to32();
    if U::BITS == 8 {
        match x {
            0xF0 => "sysex7",
            0xF1.. => "system_common",
            0x80.. => "channel_voice1",
            _ => "",
        }
    } else {
        match x >> 28 {
            0 => "utility",
            1 => "system_common",
            2 => "channel_voice1",
            3 => "sysex7",
            4 => "channel_voice2",
            5 => "sysex8",
            0xD => "flex_data",
            0xF => "ump_stream",
            _ => "",
        }
    }
}

pub fn c21_builds(c: &mut Ctx) -> R {
    let l = configs();
    let m = l[c.idx as usize % ACTIVE.get().copied().unwrap_or(l.len())];
    c.key = m as u64;
    c.note(|| show(m));
    if ready(m) {
        c.hit("built");
        return Ok(());
    }
    let e = std::fs::read_to_string(format!("{}.err", bin(m))).unwrap_or_default();
    fail(format!("build:{}", show(m)), format!("with {} the library does not compile: {e}", show(m)))
}

/// ask the reference and the subset; None: nothing to compare
fn both(c: &mut Ctx, m: u32, q: &str) -> Result<Option<(String, String)>, Fail> {
    if m & ALL == 0 || !ready(m) {
        // without any family there is nothing to ask; what does not build is another check's
        c.tag("not asked");
        return Ok(None);
    }
    let want = match ask(FULL, q) {
        Ask::Answer(a) if !a.starts_with("PANIC") => a,
        _ => {
            c.tag("the full build panics or dies");
            return Ok(None);
        }
    };
    match ask(m, q) {
        Ask::Answer(got) => Ok(Some((want, got))),
        Ask::Died => fail("subset-died", format!("built with {}, the library kills the process or hangs on {q}", show(m))),
    }
}

pub fn c21_parse<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let s = k.spec();
    let (d, _) = gen_input::<U>(c, s);
    let d = &d[..d.len().min(60)];
    c.note(|| hx(d));
    let m = config(c, s.name.split("::").next().unwrap());
    let cap = c.s.us(70);
    let Some((want, got)) = both(c, m, &format!("{} {cap} {}", if U::BITS == 8 { "p" } else { "P" }, hexs(d)))? else { return Ok(()) };
    let here = has(m, module_of(d));
    let expected: Vec<&str> = want
        .split(SEP)
        .filter(|o| {
            let key = o.split('=').next().unwrap_or("");
            match key {
                "" => false,
                "all" | "moved" => here,
                "discovery1" | "discovery2" => m & CI != 0,
                _ => {
                    let k = key.split_once(':').map(|(a, b)| if MODULES.contains(&a) { a } else { b }).unwrap_or(key);
                    has(m, k)
                }
            }
        })
        .collect();
    let got: Vec<&str> = got.split(SEP).filter(|o| !o.is_empty()).collect();
    if !expected.is_empty() {
        c.hit("accepted");
    }
    for i in 0..expected.len().max(got.len()) {
        let (e, g) = (expected.get(i).copied().unwrap_or("nothing"), got.get(i).copied().unwrap_or("nothing"));
        if e != g {
            let key = |x: &str| x.split('=').next().unwrap_or("").chars().take(60).collect::<String>();
            return fail(
                format!("parse:{}", key(if e == "nothing" { g } else { e })),
                format!("{} built with {}: the full build observes {e}, this one {g}", hx(d), show(m)),
            );
        }
    }
    Ok(())
}

fn op_text(o: &Op) -> String {
    match o {
        Op::Set(i, r) => format!("s{i}:{r}"),
        Op::Edit(Edit::Text(t)) => format!("t{}", hexs(t.as_bytes())),
        Op::Edit(Edit::Set(f)) => format!("S{}", hexs(&f.bytes)),
        Op::Edit(Edit::Append(f)) => format!("A{}", hexs(&f.bytes)),
        Op::Edit(Edit::AppendByte(b)) => format!("b{b}"),
        Op::Edit(Edit::Insert(f, i)) => format!("I{i}:{}", hexs(&f.bytes)),
        Op::Edit(Edit::Splice(f, a, b, _)) => format!("X{a}:{b}:{}", hexs(&f.bytes)),
        Op::Edit(Edit::SetByte(b, i)) => format!("y{i}:{b}"),
    }
}
pub fn c21_edit<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let s = k.spec();
    let module = s.name.split("::").next().unwrap();
    let (start, mut len) = if c.s.chance(1, 3) {
        let g = gen_valid::<U>(&mut c.s, s, Style::Wild, 40);
        (hexs(&g.units), g.content.len())
    } else {
        ("new".into(), 0)
    };
    let mut model = M::<U>::fresh(s);
    model.content = vec![0; len];
    let mut ops = vec![];
    for _ in 0..1 + c.s.us(6) {
        let Some(mut o) = gen_op(&mut c.s, s, len, 60) else { break };
        if let Op::Edit(e) = &mut o {
            if let Edit::Splice(_, _, _, k) = e {
                *k = RangeKind::HalfOpen;
            }
            let v = model.apply(e);
            len = v.len();
            model.content = v;
        }
        ops.push(op_text(&o));
    }
    let cap = c.s.us(40);
    let m = config(c, module);
    let q = format!("{} {} {cap} {start} {}", if U::BITS == 8 { "e" } else { "E" }, s.name, ops.join(" "));
    c.note(|| q.clone());
    let Some((want, got)) = both(c, m, q.trim_end())? else { return Ok(()) };
    if !has(m, module) {
        same!(got, "absent", format!("present:{}", s.name), "{} built with {}", s.name, show(m));
        return Ok(());
    }
    if want != "rejected" {
        c.hit("edited");
    }
    let (a, b): (Vec<&str>, Vec<&str>) = (want.split(SEP).collect(), got.split(SEP).collect());
    ensure!(a.len() == b.len(), format!("edit:{}", s.name), "built with {}: the full build observes {want}, this one {got}", show(m));
    for (i, (a, b)) in a.iter().zip(&b).enumerate() {
        if *a == "PANIC" {
            c.tag("the full build panics or dies");
            continue;
        }
        ensure!(
            a == b,
            format!("edit:{}", s.name),
            "{q} in buffer {} built with {}: the full build observes {a}, this one {b}",
            ["fixed", "growable", "array"][i.min(2)],
            show(m)
        );
    }
    Ok(())
}
