//! Choice-stream based property testing: every generated value is decoded from a stream of
//! bounded integers.  A stream is either random (a pure function of VERIF_SEED, property,
//! sub-check and case index) or replayed; shrinking edits the stream.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) { return Err(format!($($arg)*)); }
    };
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Source of choices.
pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// mutation mode: a base stream replayed with random edits
    mutate: bool,
    /// large mode: the first length drawn in the case is one of `LARGE` up to this; 0 = off
    pub big: usize,
    /// large mode after that draw: further choices are a function of one recorded seed
    hashed: bool,
}

/// lengths around which code changes its behaviour, if it does
const LARGE: [usize; 14] = [1000, 1024, 2048, 4096, 5000, 8192, 10_000, 16_384, 20_000, 32_768, 40_000, 50_000, 65_536, 70_000];

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: seed, replay: None, pos: 0, rec: Vec::new(), mutate: false, big: 0, hashed: false }
    }
    pub fn replay(v: Vec<u64>) -> Src {
        Src { rng: 0, replay: Some(v), pos: 0, rec: Vec::new(), mutate: false, big: 0, hashed: false }
    }
    pub fn mutated(v: Vec<u64>, seed: u64) -> Src {
        Src { rng: seed, replay: Some(v), pos: 0, rec: Vec::new(), mutate: true, big: 0, hashed: false }
    }
    /// A length: usually below n, now and then several times that, rarely some hundreds.
    pub fn size(&mut self, n: usize) -> usize {
        if self.big > 0 && !self.hashed {
            let k = LARGE.iter().filter(|&&t| t <= self.big).count();
            let t = LARGE[self.below(k)] + self.below(4);
            self.rng = self.draw(0);
            self.hashed = true;
            return t - 1;
        }
        if self.hashed {
            return self.below(n);
        }
        match self.below(96) {
            95 => self.below(n.max(1) * 6),
            94 if self.below(8) == 7 => 120 + self.below(600),
            _ => self.below(n),
        }
    }
    /// A value in [0, n) (all 64 bits when n == 0). 0 is the "simplest" value.
    pub fn draw(&mut self, n: u64) -> u64 {
        if self.hashed {
            let z = splitmix(&mut self.rng);
            return if n == 0 { z } else { ((z as u128 * n as u128) >> 64) as u64 };
        }
        let v = match &self.replay {
            Some(r) => {
                if self.pos < r.len() {
                    let x = r[self.pos];
                    if self.mutate && splitmix(&mut self.rng) % 16 == 0 {
                        let z = splitmix(&mut self.rng);
                        if n == 0 { z } else { z % n }
                    } else if n != 0 && x >= n {
                        n - 1
                    } else {
                        x
                    }
                } else if self.mutate {
                    let z = splitmix(&mut self.rng);
                    if n == 0 { z } else { z % n }
                } else {
                    0
                }
            }
            None => {
                let z = splitmix(&mut self.rng);
                if n == 0 { z } else { ((z as u128 * n as u128) >> 64) as u64 }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// integer in [lo, hi], shrinking towards lo
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    /// integer in [-m, m], shrinking towards 0
    pub fn sint(&mut self, m: i64) -> i64 {
        let v = self.draw(2 * m as u64 + 1) as i64;
        if v % 2 == 1 { (v + 1) / 2 } else { -(v / 2) }
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// true with probability num/den, shrinking towards false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.draw(1 << 53) as f64) / (1u64 << 53) as f64
    }
}

#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub render: bool,
    pub shown: String,
    pub known: Option<&'static str>,
    pub checks: u64,
}

impl Case {
    /// Render the generated input (only evaluated when a sample or replay is wanted).
    pub fn show<F: FnOnce() -> String>(&mut self, f: F) {
        if self.render {
            if !self.shown.is_empty() {
                self.shown.push_str(" | ");
            }
            self.shown.push_str(&f());
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// label if
    pub fn lab(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
}

pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub f: fn(&mut Src, &mut Case) -> Res,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {} at {}", msg, loc));
    }));
}

/// Result of running one case.
pub fn run_case(sub: &Sub, src: &mut Src, render: bool) -> (Res, Case) {
    let mut case = Case { render, ..Default::default() };
    let r = catch_unwind(AssertUnwindSafe(|| (sub.f)(src, &mut case)));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    };
    (r, case)
}

fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    let mut x = seed ^ hash_str(prop).rotate_left(17) ^ hash_str(sub).rotate_left(41);
    let a = splitmix(&mut x);
    let mut y = a ^ idx.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut y)
}

fn json_escape(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 8);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

/// Shrink a failing stream; returns the smallest failing stream found.
pub fn shrink(sub: &Sub, stream: Vec<u64>, budget: usize) -> Vec<u64> {
    let mut best = stream;
    let mut tries = 0usize;
    let t0 = Instant::now();
    let fails = |v: &Vec<u64>, tries: &mut usize| -> Option<Vec<u64>> {
        *tries += 1;
        if t0.elapsed() > Duration::from_secs(60) {
            *tries = budget;
        }
        let mut s = Src::replay(v.clone());
        let (r, _) = run_case(sub, &mut s, false);
        if r.is_err() {
            Some(s.rec)
        } else {
            None
        }
    };
    let better = |a: &Vec<u64>, b: &Vec<u64>| -> bool { a.len() < b.len() || (a.len() == b.len() && a < b) };
    let mut improved = true;
    while improved && tries < budget && t0.elapsed() < Duration::from_secs(40) {
        improved = false;
        // delete chunks
        for k in [32usize, 16, 8, 5, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= k && tries < budget {
                i -= 1;
                if i + k > best.len() {
                    continue;
                }
                let mut c = best.clone();
                c.drain(i..i + k);
                if let Some(r) = fails(&c, &mut tries) {
                    if better(&r, &best) {
                        best = r;
                        improved = true;
                        i = i.min(best.len());
                        continue;
                    }
                }
                // deletion combined with a smaller count before it
                if i > 0 && best[i - 1] > 0 {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    c[i - 1] -= 1;
                    if let Some(r) = fails(&c, &mut tries) {
                        if better(&r, &best) {
                            best = r;
                            improved = true;
                            i = i.min(best.len());
                        }
                    }
                }
            }
        }
        // zero blocks
        for k in [8usize, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() && tries < budget {
                if best[i..i + k].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + k] {
                        *x = 0;
                    }
                    if let Some(r) = fails(&c, &mut tries) {
                        if better(&r, &best) {
                            best = r;
                            improved = true;
                        }
                    }
                }
                i += k;
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.len() && tries < budget {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if let Some(r) = fails(&c, &mut tries) {
                    if better(&r, &best) {
                        best = r;
                        improved = true;
                        i += 1;
                        continue;
                    }
                }
                // binary search downwards
                let (mut lo, mut hi) = (0u64, best[i]);
                while hi - lo > 1 && tries < budget {
                    let mid = lo + (hi - lo) / 2;
                    if i >= best.len() {
                        break;
                    }
                    let mut c = best.clone();
                    c[i] = mid;
                    match fails(&c, &mut tries) {
                        Some(r) if better(&r, &best) => {
                            best = r;
                            improved = true;
                            hi = mid;
                        }
                        _ => lo = mid,
                    }
                }
                for d in [1u64, 2] {
                    if i < best.len() && best[i] >= d {
                        let mut c = best.clone();
                        c[i] -= d;
                        if let Some(r) = fails(&c, &mut tries) {
                            if better(&r, &best) {
                                best = r;
                                improved = true;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}

struct SubStats {
    name: &'static str,
    rule: &'static str,
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    failure: Option<(u64, Vec<u64>, String)>,
    known: BTreeMap<&'static str, u64>,
}

fn hash_stream(v: &[u64]) -> u64 {
    let mut h = 0x1234567u64;
    for &x in v {
        h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}

fn tid() -> i32 {
    // /proc/thread-self -> <pid>/task/<tid>
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().to_string()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(-1)
}

fn thread_cpu_ticks(tid: i32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// CPU seconds after which a single case (normally microseconds) counts as non-terminating.
const HANG_CPU_S: u64 = 20;

/// per thread and sub-check; bounds memory in deep runs (the reported number is then a lower bound)
const DISTINCT_CAP: usize = 2_000_000;

struct Slot {
    tid: AtomicUsize,
    sub: AtomicUsize,
    idx: AtomicU64,
    serial: AtomicU64,
    active: AtomicBool,
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("GV_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn load_known(prop: &str) -> HashSet<String> {
    // lines of the form: finding: property=<id> sig=<signature> <description>
    let mut s = HashSet::new();
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.split_whitespace();
                if it.next() == Some(&format!("property={}", prop)[..]) {
                    if let Some(sig) = it.next().and_then(|x| x.strip_prefix("sig=")) {
                        s.insert(sig.to_string());
                    }
                }
            }
        }
    }
    s
}

fn write_replay(prop: &str, sub: &Sub, seed: u64, idx: u64, stream: Option<&[u64]>, shown: &str, msg: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}.json", prop, sub.name.replace(|c: char| !c.is_ascii_alphanumeric(), "_")));
    let st = match stream {
        Some(v) => format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        None => "null".into(),
    };
    let t = format!(
        "{{\"property\":\"{}\",\"sub\":\"{}\",\"seed\":{},\"index\":{},\n\"stream\":{},\n\"input\":\"{}\",\n\"message\":\"{}\"}}\n",
        prop, sub.name, seed, idx, st, json_escape(shown), json_escape(msg)
    );
    let _ = std::fs::write(&p, t);
    p
}

fn field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    let key = format!("\"{}\":", k);
    let i = t.find(&key)? + key.len();
    Some(&t[i..])
}

fn read_replay(p: &str) -> Option<(String, u64, u64, Option<Vec<u64>>)> {
    let t = std::fs::read_to_string(p).ok()?;
    let sub = field(&t, "sub")?.trim_start_matches('"').split('"').next()?.to_string();
    let num = |k: &str| -> Option<u64> {
        field(&t, k)?.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
    };
    let st = field(&t, "stream")?;
    let stream = if st.starts_with('[') {
        let e = st.find(']')?;
        Some(st[1..e].split(',').filter_map(|x| x.trim().parse().ok()).collect())
    } else {
        None
    };
    Some((sub, num("seed")?, num("index")?, stream))
}

/// Entry point of every check binary.
/// long texts are shown in part; the replay file has them in full
fn cut(t: &str) -> String {
    if t.chars().count() <= 1500 { t.to_string() } else { format!("{} ...", t.chars().take(1500).collect::<String>()) }
}

pub fn main(prop: &'static str, rule: &'static str, assumptions: &[&str], subs: &'static [Sub]) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay_cmd(prop, subs, &args[2]),
        Some("worker") => {
            let tier = args.get(2).cloned().unwrap_or("quick".into());
            let only = args.get(3).cloned();
            worker(prop, rule, assumptions, subs, &tier, seed, only);
        }
        Some("case") => {
            // case SUB INDEX : run a single generated case
            let sub = subs.iter().find(|s| s.name == args[2]).expect("sub");
            let idx: u64 = args[3].parse().unwrap();
            let mut src = Src::random(case_seed(seed, prop, sub.name, idx));
            let (r, c) = run_case(sub, &mut src, true);
            println!("{} -> {:?}", c.shown, r);
            std::process::exit(if r.is_ok() { 0 } else { 1 });
        }
        t => {
            let tier = t.unwrap_or("quick").to_string();
            supervise(prop, subs, &tier, seed, args.get(2).cloned());
        }
    }
}

fn replay_cmd(prop: &str, subs: &'static [Sub], file: &str) {
    let (sub, seed, idx, stream) = read_replay(file).expect("unreadable replay file");
    let sub = subs.iter().find(|s| s.name == sub).expect("unknown sub-check");
    let mut src = match stream {
        Some(v) => Src::replay(v),
        None => Src::random(case_seed(seed, prop, sub.name, idx)),
    };
    let (r, c) = run_case(sub, &mut src, true);
    println!("input: {}", c.shown);
    match r {
        Ok(()) => println!("passes"),
        Err(m) => {
            println!("fails: {}", m);
            println!("VIOLATION property={} replay={}", prop, file);
            std::process::exit(1);
        }
    }
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
/// the cases in flight, in a shared file mapping: they survive the death of the process
struct Crumbs(*mut u64);
unsafe impl Sync for Crumbs {}
impl Crumbs {
    fn open(p: &str, n: usize) -> Option<Crumbs> {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().create(true).read(true).write(true).truncate(true).open(p).ok()?;
        f.set_len(n as u64 * 24).ok()?;
        // PROT_READ | PROT_WRITE, MAP_SHARED
        let a = unsafe { mmap(std::ptr::null_mut(), n * 24, 3, 1, f.as_raw_fd(), 0) };
        if a as isize == -1 {
            None
        } else {
            Some(Crumbs(a as *mut u64))
        }
    }
    fn put(&self, slot: usize, sub: u64, idx: u64) {
        unsafe {
            let q = self.0.add(slot * 3);
            std::ptr::write_volatile(q, sub);
            std::ptr::write_volatile(q.add(1), idx);
            std::ptr::write_volatile(q.add(2), 1);
        }
    }
}

fn crumbs_path(prop: &str) -> PathBuf {
    std::env::temp_dir().join(format!("gv-{}-{}.crumbs", prop, std::process::id()))
}

/// Parent process: runs the worker; a worker that dies (abort, stack or memory exhaustion) is
/// diagnosed by replaying, one by one, the cases that were in flight.
fn supervise(prop: &'static str, subs: &'static [Sub], tier: &str, seed: u64, only: Option<String>) {
    let exe = std::env::current_exe().unwrap();
    let crumbs = crumbs_path(prop);
    let mut cmd = std::process::Command::new(&exe);
    cmd.arg("worker").arg(tier);
    if let Some(o) = &only {
        cmd.arg(o);
    }
    cmd.env("GV_CRUMBS", &crumbs);
    let st = cmd.status().expect("cannot start worker");
    let code = st.code();
    if code == Some(0) || code == Some(1) {
        let _ = std::fs::remove_file(&crumbs);
        std::process::exit(code.unwrap());
    }
    // died or hung (exit 3): look at the crumbs
    let data = std::fs::read(&crumbs).unwrap_or_default();
    let _ = std::fs::remove_file(&crumbs);
    let mut seen = HashSet::new();
    for rec in data.chunks(24) {
        if rec.len() < 24 {
            break;
        }
        let u = |i: usize| u64::from_le_bytes(rec[i * 8..i * 8 + 8].try_into().unwrap());
        if u(2) != 1 {
            continue;
        }
        let (si, idx) = (u(0) as usize, u(1));
        if si >= subs.len() || !seen.insert((si, idx)) {
            continue;
        }
        let sub = &subs[si];
        let mut dies = 0;
        for _ in 0..2 {
            let st = std::process::Command::new("sh")
                .arg("-c")
                .arg(format!(
                    "ulimit -t {} -v 6000000; exec '{}' case '{}' {}",
                    HANG_CPU_S,
                    exe.display(),
                    sub.name,
                    idx
                ))
                .env("VERIF_SEED", seed.to_string())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .expect("sh");
            // 0: passes, 1: ordinary failure (the worker would have reported it)
            if st.code() != Some(0) && st.code() != Some(1) {
                dies += 1;
            }
        }
        if dies == 2 {
            let msg = format!(
                "the call neither returns nor panics: it aborts the process, exhausts memory, or is still running after {} s of CPU time (confirmed twice by re-running this case alone)",
                HANG_CPU_S
            );
            let p = write_replay(prop, sub, seed, idx, None, "(see: replay regenerates it from seed and index)", &msg);
            println!("{} / {}: {}", prop, sub.name, msg);
            println!("VIOLATION property={} replay={}", prop, p.display());
            std::process::exit(1);
        }
    }
    eprintln!("worker ended with {:?}; not reproducible on a single case", st);
    std::process::exit(2);
}

/// multiplies every sub-check's base count so that a quick run takes about ten seconds on eight cores
fn quick_factor(prop: &str) -> u64 {
    match prop {
        "P01" => 6,
        "P02" => 8,
        "P03" => 9,
        "P04" => 4,
        "P05" => 10,
        "P06" => 6,
        "P07" => 5,
        "P08" => 6,
        "P09" => 10,
        "P10" => 4,
        "P11" => 7,
        "P12" => 12,
        "P13" => 3,
        "P14" => 7,
        "P15" => 13,
        "P16" => 9,
        "P17" => 8,
        "P18" => 13,
        "P19" => 10,
        "P20" => 10,
        "P21" => 21,
        "P22" => 44,
        "P23" => 44,
        "P24" => 18,
        "P25" => 16,
        "P26" => 30,
        "P27" => 56,
        "P28" => 8,
        "P29" => 14,
        "P30" => 40,
        "P31" => 50,
        "P32" => 44,
        "P33" => 32,
        _ => 1,
    }
}

fn worker(
    prop: &'static str,
    rule: &'static str,
    assumptions: &[&str],
    subs: &'static [Sub],
    tier: &str,
    seed: u64,
    only: Option<String>,
) {
    let t0 = Instant::now();
    let factor: u64 = std::env::var("GV_FACTOR")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { 25 } else { 1 } * quick_factor(prop));
    let nthreads: usize = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8);
    let known = load_known(prop);
    let slots: Vec<Slot> = (0..nthreads)
        .map(|_| Slot {
            tid: AtomicUsize::new(0),
            sub: AtomicUsize::new(0),
            idx: AtomicU64::new(0),
            serial: AtomicU64::new(0),
            active: AtomicBool::new(false),
        })
        .collect();
    let slots = &slots;
    let crumbs: Option<Crumbs> = std::env::var("GV_CRUMBS").ok().and_then(|p| Crumbs::open(&p, nthreads));
    let crumbs = &crumbs;
    let done = AtomicBool::new(false);
    let mut all: Vec<SubStats> = Vec::new();
    std::thread::scope(|sc| {
        // watchdog: measures CPU time (not wall-clock) spent inside a single case
        let done_ref = &done;
        sc.spawn(move || {
            let mut last: Vec<(u64, u64)> = vec![(u64::MAX, 0); nthreads];
            while !done_ref.load(Ordering::Relaxed) {
                for _ in 0..10 {
                    std::thread::sleep(Duration::from_millis(50));
                    if done_ref.load(Ordering::Relaxed) {
                        return;
                    }
                }
                for (i, s) in slots.iter().enumerate() {
                    if !s.active.load(Ordering::Relaxed) {
                        continue;
                    }
                    let ser = s.serial.load(Ordering::Relaxed);
                    let cpu = thread_cpu_ticks(s.tid.load(Ordering::Relaxed) as i32).unwrap_or(0);
                    if last[i].0 != ser {
                        last[i] = (ser, cpu);
                    } else if cpu.saturating_sub(last[i].1) > HANG_CPU_S * 100 {
                        eprintln!("case {} of sub-check {} seems not to terminate", s.idx.load(Ordering::Relaxed), subs[s.sub.load(Ordering::Relaxed)].name);
                        std::process::exit(3);
                    }
                }
            }
        });
        for (si, sub) in subs.iter().enumerate() {
            if let Some(o) = &only {
                if o != sub.name {
                    continue;
                }
            }
            let total = sub.quick * factor;
            const CHUNK: u64 = 256;
            let next = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let merged: Mutex<SubStats> = Mutex::new(SubStats {
                name: sub.name,
                rule: sub.rule,
                evals: 0,
                nontrivial: 0,
                distinct: HashSet::new(),
                labels: BTreeMap::new(),
                samples: Vec::new(),
                failure: None,
                known: BTreeMap::new(),
            });
            std::thread::scope(|wsc| {
            for ti in 0..nthreads {
                let (next, stop, merged, known) = (&next, &stop, &merged, &known);
                wsc.spawn(move || {
                    slots[ti].tid.store(tid() as usize, Ordering::Relaxed);
                    slots[ti].sub.store(si, Ordering::Relaxed);
                    let mut evals = 0u64;
                    let mut nt = 0u64;
                    let mut distinct = HashSet::new();
                    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut kn: BTreeMap<&'static str, u64> = BTreeMap::new();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let c = next.fetch_add(CHUNK, Ordering::Relaxed);
                        if c >= total {
                            break;
                        }
                        for idx in c..(c + CHUNK).min(total) {
                            slots[ti].idx.store(idx, Ordering::Relaxed);
                            slots[ti].serial.fetch_add(1, Ordering::Relaxed);
                            slots[ti].active.store(true, Ordering::Relaxed);
                            if let Some(f) = crumbs {
                                f.put(ti, si as u64, idx);
                            }
                            let mut src = Src::random(case_seed(seed, prop, sub.name, idx));
                            let (r, case) = run_case(sub, &mut src, false);
                            evals += 1;
                            if case.nontrivial {
                                nt += 1;
                                if distinct.len() < DISTINCT_CAP {
                                    distinct.insert(hash_stream(&src.rec));
                                }
                            }
                            for l in case.labels {
                                *labels.entry(l).or_insert(0) += 1;
                            }
                            if let Err(m) = r {
                                if let Some(k) = case.known {
                                    if known.contains(k) {
                                        *kn.entry(k).or_insert(0) += 1;
                                        continue;
                                    }
                                }
                                stop.store(true, Ordering::Relaxed);
                                let mut g = merged.lock().unwrap();
                                if g.failure.as_ref().map(|f| idx < f.0).unwrap_or(true) {
                                    g.failure = Some((idx, src.rec, m));
                                }
                                break;
                            }
                        }
                    }
                    slots[ti].active.store(false, Ordering::Relaxed);
                    let mut g = merged.lock().unwrap();
                    g.evals += evals;
                    g.nontrivial += nt;
                    g.distinct.extend(distinct);
                    for (k, v) in labels {
                        *g.labels.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in kn {
                        *g.known.entry(k).or_insert(0) += v;
                    }
                });
            }
            });
            let mut st = merged.into_inner().unwrap();
            // samples: the first few non-trivial cases, re-generated with rendering on
            if st.failure.is_none() {
                let mut i = 0;
                while st.samples.len() < 3 && i < total.min(3000) {
                    let mut src = Src::random(case_seed(seed, prop, sub.name, i));
                    let (_, c) = run_case(sub, &mut src, true);
                    if c.nontrivial && !c.shown.is_empty() {
                        let mut s = c.shown;
                        if s.len() > 700 {
                            let mut e = 700;
                            while !s.is_char_boundary(e) {
                                e -= 1;
                            }
                            s.truncate(e);
                            s.push_str("...");
                        }
                        st.samples.push(format!("{}: {}", sub.name, s));
                    }
                    i += 1;
                }
            }
            all.push(st);
        }
        done.store(true, Ordering::Relaxed);
    });

    let mut violations = 0;
    for st in &all {
        for (k, n) in &st.known {
            println!("KNOWN-FINDING: property={} {} ({} generated cases)", prop, k, n);
        }
        if st.failure.is_some() {
            violations += 1;
        }
    }
    // evidence
    let evals: u64 = all.iter().map(|s| s.evals).sum();
    let dn: usize = all.iter().map(|s| s.distinct.len()).sum();
    let mut samples: Vec<String> = vec![];
    for k in 0..3 {
        for s in &all {
            if let Some(x) = s.samples.get(k) {
                if samples.len() < 24 {
                    samples.push(x.clone());
                }
            }
        }
    }
    let mut subj = String::new();
    for (i, s) in all.iter().enumerate() {
        if i > 0 {
            subj.push_str(",\n");
        }
        let labs = s
            .labels
            .iter()
            .map(|(k, v)| format!("\"{}\":{}", json_escape(k), v))
            .collect::<Vec<_>>()
            .join(",");
        let _ = write!(
            subj,
            "    {{\"name\":\"{}\",\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"rule\":\"{}\",\"classes\":{{{}}}}}",
            s.name, s.evals, s.nontrivial, s.distinct.len(), json_escape(s.rule), labs
        );
    }
    let q = |v: &[String]| v.iter().map(|s| format!("\"{}\"", json_escape(s))).collect::<Vec<_>>().join(",\n    ");
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n  \"property\":\"{}\",\n  \"tier\":\"{}\",\n  \"seed\":{},\n  \"level\":\"exploration\",\n  \"coverage\":{{\n   \"evaluations\":{},\n   \"distinct_nontrivial\":{},\n   \"rule\":\"{}\",\n   \"samples\":[{}],\n   \"subchecks\":[\n{}\n   ]\n  }},\n  \"assumptions\":[{}],\n  \"violations\":{},\n  \"wall_s\":{:.3}\n}}\n",
        prop,
        if tier == "thorough" { "thorough" } else { "quick" },
        seed,
        evals,
        dn,
        json_escape(rule),
        q(&samples),
        subj,
        q(&assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        violations,
        wall
    );
    if only.is_none() {
        let d = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&d);
        if std::fs::write(Path::new(&d).join(format!("{}.json", prop)), ev).is_err() {
            eprintln!("cannot write evidence");
            std::process::exit(2);
        }
    }
    for st in &all {
        if let Some((idx, stream, msg)) = &st.failure {
            let sub = subs.iter().find(|s| s.name == st.name).unwrap();
            let p0 = write_replay(prop, sub, seed, *idx, Some(stream), "", msg);
            // shrinking may itself run into a non-terminating input: report the unshrunk case then
            let finished = AtomicBool::new(false);
            std::thread::scope(|sc| {
                let fin = &finished;
                let p0 = &p0;
                sc.spawn(move || {
                    for _ in 0..1200 {
                        std::thread::sleep(Duration::from_millis(100));
                        if fin.load(Ordering::Relaxed) {
                            return;
                        }
                    }
                    println!("{} / {}: case {}: {} (not shrunk)", prop, sub.name, idx, msg);
                    println!("VIOLATION property={} replay={}", prop, p0.display());
                    std::process::exit(1);
                });
                let small = shrink(sub, stream.clone(), 20000);
                let mut s = Src::replay(small.clone());
                let (r, c) = run_case(sub, &mut s, true);
                let (small, shown, m) = match r {
                    Err(m) => (small, c.shown, m),
                    Ok(()) => (stream.clone(), String::new(), msg.clone()),
                };
                finished.store(true, Ordering::Relaxed);
                let p = write_replay(prop, sub, seed, *idx, Some(&small), &shown, &m);
                println!("{} / {}: case {}: {}", prop, st.name, idx, cut(&m));
                println!("  input: {}", cut(&shown));
                println!("VIOLATION property={} replay={}", prop, p.display());
            });
        }
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
        prop, tier, evals, dn, violations, wall
    );
    if std::env::var("GV_STATS").is_ok() {
        for s in &all {
            println!("  {:<28} {:>9} cases {:>8} nontrivial  {:?}", s.name, s.evals, s.nontrivial, s.labels);
        }
    }
    std::process::exit(if violations > 0 { 1 } else { 0 });
}
