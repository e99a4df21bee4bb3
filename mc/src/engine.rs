//! Exhaustive exploration of finite, indexed spaces of behaviours.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub struct Rec {
    pub transitions: u64,
    pub traces: u64,
    pub states: Vec<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub want: bool,
    pub sample: Option<String>,
}

impl Rec {
    pub fn new() -> Rec {
        Rec {
            transitions: 0,
            traces: 0,
            states: Vec::new(),
            classes: BTreeMap::new(),
            want: false,
            sample: None,
        }
    }
    /// an operation of the implementation was executed
    #[inline]
    pub fn op(&mut self, n: u64) {
        self.transitions += n;
    }
    /// a model trace was compared with the implementation
    #[inline]
    pub fn trace(&mut self, n: u64) {
        self.traces += n;
    }
    /// a state of the model was visited
    #[inline]
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
    }
    #[inline]
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

#[derive(Clone, Copy)]
pub struct Hash(pub u64);

impl Hash {
    pub fn new() -> Hash {
        Hash(0x9e3779b97f4a7c15)
    }
    #[inline]
    pub fn u(self, v: u64) -> Hash {
        let x = (self.0 ^ v).wrapping_mul(0xff51afd7ed558ccd);
        Hash((x ^ (x >> 32)).wrapping_mul(0xc4ceb9fe1a85ec53) ^ (x >> 29))
    }
    #[inline]
    pub fn f(self, v: f64) -> Hash {
        self.u(v.to_bits())
    }
    pub fn s(self, v: &[u8]) -> Hash {
        let mut h = self.u(v.len() as u64);
        for c in v.chunks(8) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            h = h.u(u64::from_le_bytes(b));
        }
        h
    }
}

type Run = Box<dyn Fn(u64, &mut Rec) -> Result<(), String> + Send + Sync>;

pub struct Space {
    pub name: &'static str,
    pub size: u64,
    pub run: Run,
    /// largest number of threads; a single thread visits the indices in order
    pub threads: usize,
}

impl Space {
    pub fn on_threads(mut self, n: usize) -> Space {
        self.threads = n.max(1);
        self
    }
}

pub fn space(
    name: &'static str,
    size: u64,
    run: impl Fn(u64, &mut Rec) -> Result<(), String> + Send + Sync + 'static,
) -> Space {
    Space { name, size, run: Box::new(run), threads: SLOTS }
}

pub fn product(radices: &[usize]) -> u64 {
    radices.iter().map(|r| *r as u64).product()
}

/// mixed radix digits of an index, most significant first
pub fn digits<const N: usize>(mut index: u64, radices: [usize; N]) -> [usize; N] {
    let mut d = [0; N];
    for k in (0..N).rev() {
        d[k] = (index % radices[k] as u64) as usize;
        index /= radices[k] as u64;
    }
    d
}

thread_local! {
    static GUARDED: Cell<bool> = const { Cell::new(false) };
    static MESSAGE: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if GUARDED.with(|g| g.get()) {
            MESSAGE.with(|m| *m.borrow_mut() = format!("{info}"));
        } else {
            eprintln!("ENGINE-ERROR: {info}");
            std::process::exit(2);
        }
    }));
}

/// runs code of the implementation; a panic becomes an Err with its message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(before));
    r.map_err(|_| MESSAGE.with(|m| m.borrow().clone()))
}

pub struct Violation {
    pub space: &'static str,
    pub index: u64,
    pub message: String,
}

#[derive(Default)]
pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub points: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub spaces: Vec<(String, u64, f64)>,
    pub violation: Option<Violation>,
}

const SLOTS: usize = 64;
static SLOT_INDEX: [AtomicU64; SLOTS] = [const { AtomicU64::new(u64::MAX) }; SLOTS];
static SLOT_START: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
pub static CURRENT: Mutex<&'static str> = Mutex::new("");

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SLOTS)
    })
}

/// A per-case time limit far above what any case needs. Elapsed time is CPU-independent wall time, so the
/// limit is generous; a case which does not return is reported as a hang of the implementation.
pub const CASE_LIMIT_S: u64 = 40;

pub fn start_watchdog(on_hang: impl Fn(&'static str, u64) + Send + 'static, total_limit_s: u64) {
    let begin = Instant::now();
    BEGIN.set(begin).ok();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let now = begin.elapsed().as_millis() as u64;
        for s in 0..SLOTS {
            let i = SLOT_INDEX[s].load(Acquire);
            let st = SLOT_START[s].load(Acquire);
            if i != u64::MAX && now > st + CASE_LIMIT_S * 1000 && SLOT_INDEX[s].load(Acquire) == i {
                let name = *CURRENT.lock().unwrap();
                on_hang(name, i);
            }
        }
        if now > total_limit_s * 1000 {
            eprintln!("ENGINE-ERROR: wall limit of {total_limit_s} s exceeded");
            std::process::exit(3);
        }
    });
}

static BEGIN: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

/// file which names the cases in flight, so that a killed process can be attributed
static CRUMBS: Mutex<Option<std::fs::File>> = Mutex::new(None);
static CRUMB_MAP: std::sync::atomic::AtomicPtr<u64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

pub fn open_crumbs(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len(4096).unwrap();
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    CRUMB_MAP.store(p as *mut u64, SeqCst);
    *CRUMBS.lock().unwrap() = Some(f);
}

/// layout: slot k at word k (index + 1), space number at word 100
fn crumb(word: usize, v: u64) {
    let p = CRUMB_MAP.load(Relaxed);
    if !p.is_null() {
        unsafe { p.add(word).write_volatile(v) };
    }
}

/// runs one case; a panic of the implementation outside a guarded call is a violation too
pub fn run_case(sp: &Space, index: u64, rec: &mut Rec) -> Result<(), String> {
    match guard(|| (sp.run)(index, rec)) {
        Ok(r) => r,
        Err(p) if p.contains("/repo/src/") || p.contains("/registry/src/") => Err(format!("panicked: {p}")),
        Err(p) => {
            eprintln!("ENGINE-ERROR: {p}");
            std::process::exit(2);
        }
    }
}

pub fn explore(spaces: &[Space], report: &mut Report) {
    // for development: print every failing point instead of stopping at the first
    let keep_going = std::env::var_os("MC_KEEP_GOING").is_some();
    for (number, sp) in spaces.iter().enumerate() {
        *CURRENT.lock().unwrap() = sp.name;
        crumb(100, number as u64);
        let t0 = Instant::now();
        let n = threads().min(sp.threads);
        let next = AtomicU64::new(0);
        let limit = AtomicU64::new(u64::MAX);
        let chunk = (sp.size / (n as u64 * 64)).clamp(1, 4096);
        let wanted = [0, sp.size / 3, sp.size * 2 / 3, sp.size.saturating_sub(1)];
        let found: Mutex<Option<Violation>> = Mutex::new(None);
        let merged: Mutex<(Vec<Vec<u64>>, Vec<(u64, String)>)> = Mutex::new((Vec::new(), Vec::new()));
        let report_lock = Mutex::new(&mut *report);
        std::thread::scope(|scope| {
            for slot in 0..n {
                let (next, limit, found, merged, report_lock) =
                    (&next, &limit, &found, &merged, &report_lock);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(scope, move || {
                        let mut rec = Rec::new();
                        let mut points = 0;
                        let mut samples = Vec::new();
                        loop {
                            let lo = next.fetch_add(chunk, SeqCst);
                            if lo >= sp.size || lo >= limit.load(SeqCst) {
                                break;
                            }
                            for i in lo..(lo + chunk).min(sp.size) {
                                if i >= limit.load(Relaxed) {
                                    break;
                                }
                                if let Some(b) = BEGIN.get() {
                                    SLOT_START[slot].store(b.elapsed().as_millis() as u64, Release);
                                }
                                SLOT_INDEX[slot].store(i, Release);
                                crumb(slot, i + 1);
                                rec.want = wanted.contains(&i);
                                rec.sample = None;
                                let r = run_case(sp, i, &mut rec);
                                SLOT_INDEX[slot].store(u64::MAX, Release);
                                crumb(slot, 0);
                                points += 1;
                                if let Some(s) = rec.sample.take() {
                                    samples.push((i, s));
                                }
                                if let Err(message) = r {
                                    if keep_going {
                                        println!("{}[{}] {}", sp.name, i, message);
                                        continue;
                                    }
                                    let mut f = found.lock().unwrap();
                                    if f.as_ref().map_or(true, |v| i < v.index) {
                                        *f = Some(Violation { space: sp.name, index: i, message });
                                        limit.fetch_min(i, SeqCst);
                                    }
                                }
                            }
                        }
                        let mut states = std::mem::take(&mut rec.states);
                        states.sort_unstable();
                        states.dedup();
                        let mut m = merged.lock().unwrap();
                        m.0.push(states);
                        m.1.extend(samples);
                        let mut r = report_lock.lock().unwrap();
                        r.transitions += rec.transitions;
                        r.traces += rec.traces;
                        r.points += points;
                        for (c, k) in rec.classes {
                            *r.classes.entry(format!("{}:{}", sp.name, c)).or_insert(0) += k;
                        }
                    })
                    .unwrap();
            }
        });
        let (parts, mut samples) = merged.into_inner().unwrap();
        let mut all: Vec<u64> = parts.concat();
        all.sort_unstable();
        all.dedup();
        report.states += all.len() as u64;
        samples.sort();
        report.samples.extend(samples.into_iter().map(|(i, s)| format!("{}[{}]: {}", sp.name, i, s)));
        report.spaces.push((sp.name.to_string(), sp.size, t0.elapsed().as_secs_f64()));
        if let Some(v) = found.into_inner().unwrap() {
            report.violation = Some(v);
            return;
        }
    }
}

pub fn json_string(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
