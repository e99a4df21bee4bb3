//! C21: results depend on the arguments of a call only.
//!
//! Histories: all sequences of a few calls in one process, against each call in a process of its own.
//! Schedules: one thread is stopped before each of its machine instructions (trap flag) while another
//! thread makes a call from beginning to end.
use crate::engine::*;
use crate::orb::{build, template, zoo};
use crate::refm::Elems;
use crate::txt;
use sgp4::{Constants, Elements, MinutesSinceEpoch};
use std::cell::{Cell, RefCell};
use std::hint::black_box;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

const ORBITS: usize = 15;
const TIMES: [f64; 2] = [100.0, -3000.5];

struct World {
    orbits: Vec<Elems>,
    built: Vec<Option<Constants>>,
    lines: Vec<(txt::Line, txt::Line)>,
    bad: txt::Line,
    two: String,
    three: String,
    json: String,
    bad_json: String,
    elements: Option<Elements>,
}

/// shared between threads whatever the library says; a space of its own checks what it says
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}

/// what the library returned
enum Out {
    Tle(Result<Elements, sgp4::TleError>),
    Tles(Result<Vec<Elements>, sgp4::TleError>),
    Json(Result<Elements, String>),
    Predicted(Result<sgp4::Prediction, sgp4::Error>),
    Several(Vec<Result<sgp4::Prediction, sgp4::Error>>, f64),
    Floats([f64; 6]),
    Text(String),
}

fn bytes(out: &Out) -> String {
    fn p(r: &Result<sgp4::Prediction, sgp4::Error>) -> String {
        match r {
            Ok(x) => x.position.iter().chain(&x.velocity).map(|v| format!("{:016x}", v.to_bits())).collect(),
            Err(e) => format!("{e:?} {e}"),
        }
    }
    match out {
        Out::Tle(r) => match r {
            Ok(x) => format!("{x:?}"),
            Err(e) => format!("{e:?} {e}"),
        },
        Out::Tles(r) => match r {
            Ok(x) => format!("{x:?}"),
            Err(e) => format!("{e:?} {e}"),
        },
        Out::Json(r) => format!("{r:?}"),
        Out::Predicted(r) => p(r),
        Out::Several(r, t) => format!("{} {t:?}", r.iter().map(p).collect::<Vec<_>>().join(" ")),
        Out::Floats(f) => f.iter().map(|v| format!("{:016x}", v.to_bits())).collect(),
        Out::Text(s) => s.clone(),
    }
}

const PROPAGATE: usize = 11;
const INITIALISE: usize = PROPAGATE + 2 * ORBITS;
const OTHER: usize = INITIALISE + ORBITS;
pub const OPS: usize = OTHER + 10;

fn name(op: usize) -> String {
    match op {
        0 | 1 | 2 => format!("parse TLE {op}"),
        3 => "parse a TLE with a bad checksum".into(),
        4 => "parse 2LEs".into(),
        5 => "parse 3LEs with a bad record".into(),
        6 => "decode an OMM".into(),
        7 => "decode a bad OMM".into(),
        k if k >= OPS => neighbour(k - OPS).0.clone(),
        8 => "parse short lines".into(),
        9 => "parse crossed lines".into(),
        10 => "serialise and decode elements".into(),
        k if k < INITIALISE => format!("propagate orbit {} to {}", (k - PROPAGATE) / 2, TIMES[(k - PROPAGATE) % 2]),
        k if k < OTHER => format!("initialise orbit {} and propagate", k - INITIALISE),
        k => ["from elements", "from elements AFSPC", "diverging orbit", "re-used state", "refused state", "conversions", "sidereal time", "impossible elements", "infinite time", "serialised constants"][k - OTHER].into(),
    }
}

/// ops which panic by design cannot be stepped
fn steppable(op: usize) -> bool {
    op != OTHER + 4
}

impl World {
    /// what one operation needs, or everything
    fn new(only: Option<usize>) -> Result<World, String> {
        let orbits = zoo();
        assert!(orbits.len() == ORBITS);
        let mut built = Vec::new();
        for (k, el) in orbits.iter().enumerate() {
            let needed = match only {
                None => true,
                Some(op) => (op >= PROPAGATE && op < INITIALISE && (op - PROPAGATE) / 2 == k) || (op >= OTHER + 3 && op <= OTHER + 4 && k == 9) || (op == OTHER + 8 && k == 12) || (op == OTHER + 9 && k == 10),
            };
            built.push(if needed { Some(build(el)?) } else { None });
        }
        let lines = txt::bases();
        let mut bad = lines[0].0;
        bad[68] = b'1';
        let s = |l: &[u8]| String::from_utf8(l.to_vec()).unwrap();
        let two = format!("{}\n{}\n{}\n{}\n", s(&lines[0].0), s(&lines[0].1), s(&lines[1].0), s(&lines[1].1));
        let three = format!("A\r\n{}\r\n{}\r\nB\r\n{}\r\n{}\r\n", s(&lines[0].0), s(&lines[0].1), s(&bad), s(&lines[0].1));
        let json = txt::omm(&txt::OMM);
        let mut o = txt::OMM;
        o[9].1 = "256";
        let needed = only.map_or(true, |op| op == 10 || (op >= OTHER && op <= OTHER + 2) || op == OTHER + 5);
        Ok(World { orbits, built, lines, bad, two, three, json, bad_json: txt::omm(&o), elements: if needed { Some(template()) } else { None } })
    }

    fn constants(&self, k: usize) -> &Constants {
        self.built[k].as_ref().unwrap()
    }

    #[inline(never)]
    fn call(&self, op: usize) -> Out {
        if op >= OPS {
            return neighbour(op - OPS).1.call();
        }
        match op {
            0 | 1 | 2 => Out::Tle(Elements::from_tle(None, &self.lines[op].0, &self.lines[op].1)),
            3 => Out::Tle(Elements::from_tle(Some("name".into()), &self.bad, &self.lines[0].1)),
            4 => Out::Tles(sgp4::parse_2les(&self.two)),
            5 => Out::Tles(sgp4::parse_3les(&self.three)),
            6 => Out::Json(serde_json::from_str(&self.json).map_err(|e| e.to_string())),
            7 => Out::Json(serde_json::from_str(&self.bad_json).map_err(|e| e.to_string())),
            8 => Out::Tle(Elements::from_tle(None, &self.lines[0].0[..68], &self.lines[0].1)),
            9 => Out::Tle(Elements::from_tle(None, &self.lines[0].0, &self.lines[1].1)),
            10 => {
                let text = serde_json::to_string(self.elements.as_ref().unwrap()).unwrap_or_default();
                Out::Json(serde_json::from_str(&text).map_err(|e| e.to_string()))
            }
            k if k < INITIALISE => {
                let c = self.constants((k - PROPAGATE) / 2);
                let t = TIMES[(k - PROPAGATE) % 2];
                Out::Predicted(if k % 2 == 0 { c.propagate(MinutesSinceEpoch(t)) } else { c.propagate_afspc_compatibility_mode(MinutesSinceEpoch(t)) })
            }
            k if k < OTHER => match build(&self.orbits[k - INITIALISE]) {
                Ok(c) => Out::Predicted(c.propagate(MinutesSinceEpoch(1440.0))),
                Err(e) => Out::Text(e),
            },
            k => match k - OTHER {
                0 => match Constants::from_elements(self.elements.as_ref().unwrap()) {
                    Ok(c) => Out::Predicted(c.propagate(MinutesSinceEpoch(77.0))),
                    Err(e) => Out::Text(format!("{e:?}")),
                },
                1 => match Constants::from_elements_afspc_compatibility_mode(self.elements.as_ref().unwrap()) {
                    Ok(c) => Out::Predicted(c.propagate_afspc_compatibility_mode(MinutesSinceEpoch(77.0))),
                    Err(e) => Out::Text(format!("{e:?}")),
                },
                2 => {
                    let mut x = self.elements.clone_fields();
                    x.drag_term = 0.5;
                    match Constants::from_elements(&x) {
                        Ok(c) => Out::Predicted(c.propagate(MinutesSinceEpoch(100_000.0))),
                        Err(e) => Out::Text(format!("{e:?}")),
                    }
                }
                3 => {
                    let c = self.constants(9);
                    let mut s = c.initial_state();
                    let r = [1000.0, 5000.0, 5000.0].iter().map(|t| c.propagate_from_state(MinutesSinceEpoch(*t), s.as_mut(), false)).collect();
                    Out::Several(r, s.map_or(0.0, |s| s.t()))
                }
                4 => {
                    // going back towards epoch with the same state is refused
                    let c = self.constants(9);
                    let mut s = c.initial_state();
                    let a = c.propagate_from_state(MinutesSinceEpoch(5000.0), s.as_mut(), false);
                    let b = guard(|| c.propagate_from_state(MinutesSinceEpoch(-5000.0), s.as_mut(), false));
                    match b {
                        Ok(b) => Out::Several(vec![a, b], 0.0),
                        Err(_) => Out::Several(vec![a], 1.0),
                    }
                }
                5 => {
                    let x = self.elements.as_ref().unwrap();
                    let d = x.minutes_since_epoch_to_datetime(&MinutesSinceEpoch(123456.789));
                    let m = d.as_ref().ok().and_then(|d| x.datetime_to_minutes_since_epoch(d).ok()).map_or(-1.0, |m| m.0);
                    Out::Floats([x.epoch(), x.epoch_afspc_compatibility_mode(), m, d.map_or(0.0, |d| d.and_utc().timestamp_micros() as f64), 0.0, 0.0])
                }
                6 => Out::Floats([sgp4::iau_epoch_to_sidereal_time(8.5), sgp4::afspc_epoch_to_sidereal_time(8.5), sgp4::iau_epoch_to_sidereal_time(-31.0), sgp4::afspc_epoch_to_sidereal_time(-31.0), 0.0, 0.0]),
                7 => Out::Text(format!("{:?}", sgp4::Orbit::from_kozai_elements(&sgp4::WGS84, 1.0, 1.0, 0.1, 1.0, 1.0, -0.05).map(|o| o.mean_motion))),
                8 => Out::Predicted(self.constants(12).propagate(MinutesSinceEpoch(f64::INFINITY))),
                _ => {
                    let text = serde_json::to_string(self.constants(10)).unwrap_or_default();
                    match serde_json::from_str::<Constants>(&text) {
                        Ok(c) => Out::Predicted(c.propagate(MinutesSinceEpoch(4000.0))),
                        Err(e) => Out::Text(e.to_string()),
                    }
                }
            },
        }
    }
}

trait CloneFields {
    fn clone_fields(&self) -> Elements;
}
impl CloneFields for Option<Elements> {
    // elements need not be cloneable
    fn clone_fields(&self) -> Elements {
        let x = self.as_ref().unwrap();
        let mut y = template();
        y.datetime = x.datetime;
        y
    }
}

/// one operation in a fresh process
pub fn alone(op: usize) -> String {
    match World::new(Some(op)) {
        Ok(w) => match guard(|| bytes(&w.call(op))) {
            Ok(s) => s,
            Err(p) => format!("panicked: {}", p.lines().next().unwrap_or("")),
        },
        Err(e) => e,
    }
}

fn now(w: &World, op: usize) -> String {
    match guard(|| bytes(&w.call(op))) {
        Ok(s) => s,
        Err(p) => format!("panicked: {}", p.lines().next().unwrap_or("")),
    }
}

static WORLD: OnceLock<Shared<Result<World, String>>> = OnceLock::new();
static ALONE: OnceLock<Vec<String>> = OnceLock::new();

fn world() -> Result<&'static World, String> {
    WORLD.get_or_init(|| Shared(World::new(None))).0.as_ref().map_err(|e| e.clone())
}

fn baselines() -> &'static [String] {
    ALONE.get_or_init(|| {
        let exe = std::env::current_exe().unwrap();
        let all: Vec<usize> = (0..OPS + neighbours().1.len()).collect();
        let mut out = Vec::new();
        for some in all.chunks(64) {
            let kids: Vec<_> = some.iter().map(|k| std::process::Command::new(&exe).arg("op").arg(k.to_string()).stdout(std::process::Stdio::piped()).spawn().unwrap()).collect();
            for k in kids {
                let o = k.wait_with_output().unwrap();
                if !o.status.success() {
                    eprintln!("ENGINE-ERROR: a call on its own ended with {}", o.status);
                    std::process::exit(2);
                }
                out.push(String::from_utf8_lossy(&o.stdout).trim_end_matches('\n').to_string());
            }
        }
        out
    })
}

// ------------------------------------------------------------------------------------------------ neighbours

/// a call that differs from the others of its group in one argument
enum Neighbour {
    Orbit(Elems, f64, bool),
    Kozai(Elems),
    Tle(txt::Line, txt::Line),
    Omm(String),
    Sidereal(f64),
    Date(chrono::NaiveDateTime, f64),
}
use sgp4::chrono;

impl Neighbour {
    fn call(&self) -> Out {
        match self {
            Neighbour::Orbit(el, t, afspc) => match build(el) {
                Ok(c) => Out::Predicted(if *afspc { c.propagate_afspc_compatibility_mode(MinutesSinceEpoch(*t)) } else { c.propagate(MinutesSinceEpoch(*t)) }),
                Err(e) => Out::Text(e),
            },
            Neighbour::Kozai(el) => {
                let o = sgp4::Orbit::from_kozai_elements(&crate::agree::geopotential(&el.geo), el.i, el.node, el.e, el.argp, el.m, el.n);
                Out::Text(match o {
                    Ok(o) => [o.inclination, o.right_ascension, o.eccentricity, o.argument_of_perigee, o.mean_anomaly, o.mean_motion].iter().map(|v| format!("{:016x}", v.to_bits())).collect(),
                    Err(e) => format!("{e:?}"),
                })
            }
            Neighbour::Tle(a, b) => Out::Tle(Elements::from_tle(None, a, b)),
            Neighbour::Omm(s) => match serde_json::from_str::<Elements>(s) {
                Ok(x) => {
                    let mut o = format!("{x:?} {:?} {:?}", x.epoch().to_bits(), x.epoch_afspc_compatibility_mode().to_bits());
                    for c in [Constants::from_elements(&x), Constants::from_elements_afspc_compatibility_mode(&x)] {
                        match c {
                            Ok(c) => o.push_str(&bytes(&Out::Predicted(c.propagate(MinutesSinceEpoch(300.0))))),
                            Err(e) => o.push_str(&format!("{e:?}")),
                        }
                    }
                    Out::Text(o)
                }
                Err(e) => Out::Text(e.to_string()),
            },
            Neighbour::Sidereal(y) => Out::Floats([sgp4::iau_epoch_to_sidereal_time(*y), sgp4::afspc_epoch_to_sidereal_time(*y), 0.0, 0.0, 0.0, 0.0]),
            Neighbour::Date(d, m) => {
                let mut x = template();
                x.datetime = *d;
                let to = x.minutes_since_epoch_to_datetime(&MinutesSinceEpoch(*m)).map(|d| format!("{d}"));
                let later = *d + chrono::Duration::nanoseconds((*m * 1e9) as i64);
                let back = x.datetime_to_minutes_since_epoch(&later).map(|m| m.0.to_bits());
                Out::Text(format!("{to:?} {back:?} {:x} {:x}", sgp4::julian_years_since_j2000(d).to_bits(), sgp4::julian_years_since_j2000_afspc_compatibility_mode(d).to_bits()))
            }
        }
    }
}

/// groups of calls, and the calls: each group is a call and what it becomes when one argument changes slightly or a lot
fn neighbours() -> &'static (Vec<(usize, usize)>, Vec<(String, Neighbour)>) {
    static ALL: OnceLock<(Vec<(usize, usize)>, Vec<(String, Neighbour)>)> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut groups = Vec::new();
        let mut v: Vec<(String, Neighbour)> = Vec::new();
        let moved = |x: f64| [x * (1.0 + 1e-10) + 1e-13, x * 1.01 + 0.001, -x];
        let orbits = zoo();
        for k in [0, 1, 2, 5, 7, 8, 9, 11, 12, 14] {
            let base = orbits[k];
            let start = v.len();
            let mut add = |what: String, el: Elems, t: f64, afspc: bool| v.push((format!("orbit {k} {what}"), Neighbour::Orbit(el, t, afspc)));
            let t = 1500.25;
            add("itself".into(), base, t, false);
            add("AFSPC".into(), base, t, true);
            for x in moved(t) {
                add(format!("t={x}"), base, x, false);
            }
            for f in 0..14 {
                for (j, scale) in [1.0 + 1e-10, 1.003].iter().enumerate() {
                    let mut el = base;
                    let place = [&mut el.geo.ae, &mut el.geo.ke, &mut el.geo.j2, &mut el.geo.j3, &mut el.geo.j4, &mut el.theta, &mut el.epoch, &mut el.bstar, &mut el.i, &mut el.node, &mut el.e, &mut el.argp, &mut el.m, &mut el.n];
                    let [ae, ke, j2, j3, j4, theta, epoch, bstar, i, node, e, argp, m, n] = place;
                    let x = [ae, ke, j2, j3, j4, theta, epoch, bstar, i, node, e, argp, m, n].into_iter().nth(f).unwrap();
                    *x = *x * scale + if *x == 0.0 { 1e-5 * (j + 1) as f64 } else { 0.0 };
                    let names = ["ae", "ke", "j2", "j3", "j4", "sidereal time", "epoch", "drag", "inclination", "node", "eccentricity", "perigee", "anomaly", "motion"];
                    add(format!("{} x {scale}", names[f]), el, t, false);
                }
            }
            groups.push((start, v.len()));
        }
        for k in [0, 9] {
            let base = orbits[k];
            let start = v.len();
            for f in 0..9 {
                for scale in [1.0, 1.0 + 1e-10, 1.01] {
                    let mut el = base;
                    let x = match f {
                        0 => &mut el.geo.ke,
                        1 => &mut el.geo.j2,
                        2 => &mut el.i,
                        3 => &mut el.node,
                        4 => &mut el.e,
                        5 => &mut el.argp,
                        6 => &mut el.m,
                        7 => &mut el.n,
                        _ => &mut el.geo.ae,
                    };
                    *x *= scale;
                    v.push((format!("Kozai elements of orbit {k}, argument {f} x {scale}"), Neighbour::Kozai(el)));
                }
            }
            groups.push((start, v.len()));
        }
        // two-line elements, one character of each field changed
        let start = v.len();
        for (a, b) in txt::bases() {
            v.push(("a TLE".into(), Neighbour::Tle(a, b)));
        }
        let (a, b) = txt::bases()[0];
        for (line, column) in [(0, 7), (0, 10), (0, 13), (0, 14), (0, 18), (0, 19), (0, 22), (0, 26), (0, 31), (0, 33), (0, 41), (0, 50), (0, 58), (0, 60), (0, 67), (1, 10), (1, 15), (1, 19), (1, 24), (1, 28), (1, 32), (1, 36), (1, 41), (1, 45), (1, 50), (1, 53), (1, 62), (1, 66)] {
            let mut l = [a, b];
            let c = &mut l[line][column];
            *c = match *c {
                b'0'..=b'8' => *c + 1,
                b'9' => b'0',
                b'U' => b'C',
                b'A'..=b'Y' => *c + 1,
                b'-' => b' ',
                c => c,
            };
            for l in &mut l {
                l[68] = b'0' + txt::checksum(l);
            }
            v.push((format!("a TLE with line {} column {column} changed", line + 1), Neighbour::Tle(l[0], l[1])));
        }
        groups.push((start, v.len()));
        let start = v.len();
        v.push(("an OMM".into(), Neighbour::Omm(txt::omm(&txt::OMM))));
        let other = [
            "\"NOAA 1\"", "\"2001-001B\"", "\"2008-09-20T12:25:40.104193\"", "15.72125392", "0.0006704", "51.6417", "247.4628", "130.537", "325.0289", "1", "\"C\"", "25545", "293", "56354", "-0.000011607", "-0.00002183", "1",
        ];
        let far = ["null", "null", "\"1998-09-20T12:25:40\"", "2.0056", "0.7", "10.5", "47", "0", "5", "2", "\"S\"", "5", "2", "3", "0.1", "0.5", "0.25"];
        for f in 0..17 {
            for other in [other[f], far[f]] {
                let mut o = txt::OMM;
                o[f].1 = other;
                v.push((format!("an OMM with {} changed to {other}", o[f].0), Neighbour::Omm(txt::omm(&o))));
            }
        }
        groups.push((start, v.len()));
        let start = v.len();
        for y in [0.0, 1e-9, 1e-6, 0.002, 1.0, 8.5, 8.5 + 1e-12, 8.6, -8.5, -31.0, 31.0, 55.0] {
            v.push((format!("sidereal times at {y}"), Neighbour::Sidereal(y)));
        }
        groups.push((start, v.len()));
        let start = v.len();
        let day = |y, m, d| chrono::NaiveDate::from_ymd_opt(y, m, d).unwrap().and_hms_nano_opt(12, 25, 40, 104_192_000).unwrap();
        let base = day(2008, 9, 20);
        for d in [base, base + chrono::Duration::nanoseconds(1), base + chrono::Duration::microseconds(1), base + chrono::Duration::milliseconds(1), base + chrono::Duration::seconds(1), base + chrono::Duration::days(1), day(2009, 9, 20), day(2008, 10, 20), day(1972, 9, 20)] {
            v.push((format!("conversions from {d}"), Neighbour::Date(d, 77.7)));
        }
        for m in [77.70000001, 78.7, -77.7, 0.0] {
            v.push((format!("conversions of {m} minutes"), Neighbour::Date(base, m)));
        }
        groups.push((start, v.len()));
        (groups, v)
    })
}

fn neighbour(k: usize) -> &'static (String, Neighbour) {
    &neighbours().1[k]
}

// ------------------------------------------------------------------------------------------------ stepping

struct Ctl {
    count: AtomicU64,
    /// stop before this instruction, or before every one (0), or never (MAX)
    target: u64,
    limit: u64,
    link: Arc<Link>,
}

/// between a stepped thread and the thread that runs in between
struct Link {
    go: AtomicU64,
    done: AtomicU64,
    op: AtomicU64,
    quit: AtomicBool,
    /// the other thread did not finish: it waits for the stepped one
    blocked: AtomicBool,
    wrong: Mutex<Option<String>>,
}

thread_local! {
    static CTL: Cell<*const Ctl> = const { Cell::new(std::ptr::null()) };
    static HELPER: RefCell<Option<Helper>> = const { RefCell::new(None) };
}

struct Helper {
    link: Arc<Link>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Drop for Helper {
    fn drop(&mut self) {
        self.link.quit.store(true, SeqCst);
        if !self.link.blocked.load(SeqCst) {
            if let Some(t) = self.thread.take() {
                let _ = t.join();
            }
        }
    }
}

fn helper() -> Arc<Link> {
    HELPER.with(|h| {
        let mut h = h.borrow_mut();
        if let Some(h) = &*h {
            return h.link.clone();
        }
        let link = Arc::new(Link { go: AtomicU64::new(0), done: AtomicU64::new(0), op: AtomicU64::new(0), quit: AtomicBool::new(false), blocked: AtomicBool::new(false), wrong: Mutex::new(None) });
        let l = link.clone();
        let thread = std::thread::spawn(move || {
            let w = world().unwrap();
            let mut seen = 0;
            let mut idle = 0u32;
            while !l.quit.load(Relaxed) {
                let g = l.go.load(Acquire);
                if g == seen {
                    idle += 1;
                    if idle > 20_000 {
                        std::thread::sleep(Duration::from_micros(50));
                    } else {
                        std::hint::spin_loop();
                    }
                    continue;
                }
                idle = 0;
                let op = l.op.load(Relaxed) as usize;
                let r = now(w, op);
                if r != baselines()[op] {
                    let mut wrong = l.wrong.lock().unwrap();
                    if wrong.is_none() {
                        *wrong = Some(r);
                    }
                }
                seen = g;
                l.done.store(g, Release);
            }
        });
        *h = Some(Helper { link: link.clone(), thread: Some(thread) });
        link
    })
}

extern "C" fn trap(_: libc::c_int, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    const TF: i64 = 0x100;
    let uc = unsafe { &mut *(uc as *mut libc::ucontext_t) };
    let flags = &mut uc.uc_mcontext.gregs[libc::REG_EFL as usize];
    let ctl = CTL.with(|c| c.get());
    if ctl.is_null() {
        *flags &= !TF;
        return;
    }
    let ctl = unsafe { &*ctl };
    let n = ctl.count.fetch_add(1, Relaxed) + 1;
    if n > ctl.limit {
        *flags &= !TF;
        return;
    }
    if ctl.target == 0 || n == ctl.target {
        let g = ctl.link.go.fetch_add(1, AcqRel) + 1;
        let mut spins = 0u32;
        let mut since: Option<Instant> = None;
        while ctl.link.done.load(Acquire) != g {
            std::hint::spin_loop();
            spins += 1;
            if spins % 4096 == 0 {
                unsafe { libc::sched_yield() };
                let s = *since.get_or_insert_with(Instant::now);
                if s.elapsed() > Duration::from_millis(500) {
                    // it waits for this thread, as with a lock: let this one go on
                    *flags &= !TF;
                    return;
                }
            }
        }
        if n == ctl.target {
            *flags &= !TF;
        }
    }
}

fn install() {
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = trap as extern "C" fn(libc::c_int, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    });
}

#[inline(never)]
fn stepped(w: &World, op: usize) -> Out {
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    let out = black_box(w).call(black_box(op));
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq");
    }
    out
}

/// runs one call with another one in between; returns what the first gave and the number of instructions
fn interleave(w: &World, a: usize, b: usize, target: u64, limit: u64) -> Result<(String, u64, u64, bool), String> {
    install();
    let link = helper();
    link.op.store(b as u64, Relaxed);
    let before = link.go.load(Acquire);
    let ctl = Ctl { count: AtomicU64::new(0), target, limit, link: link.clone() };
    CTL.with(|c| c.set(&ctl));
    let out = guard(|| stepped(w, a));
    CTL.with(|c| c.set(std::ptr::null()));
    let out = match out {
        Ok(o) => bytes(&o),
        Err(p) => format!("panicked: {p}"),
    };
    let after = link.go.load(Acquire);
    let begin = Instant::now();
    let mut late = false;
    while link.done.load(Acquire) != after {
        late = true;
        std::thread::yield_now();
        if begin.elapsed() > Duration::from_secs(20) {
            link.blocked.store(true, SeqCst);
            return Err(format!("{:?} never returns when {:?} is stopped at instruction {} and continued", name(b), name(a), ctl.count.load(Relaxed)));
        }
    }
    if let Some(r) = link.wrong.lock().unwrap().take() {
        return Err(format!("{:?}, run while {:?} was stopped, gave {r} instead of {}", name(b), name(a), baselines()[b]));
    }
    Ok((out, ctl.count.load(Relaxed), after - before, late))
}

// ------------------------------------------------------------------------------------------------ the check

struct Sharing<T>(PhantomData<T>);
trait NotShared {
    const SHARED: bool = false;
}
impl<T> NotShared for T {}
impl<T: Send + Sync> Sharing<T> {
    const SHARED: bool = true;
}

pub fn c21(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    baselines();
    v.push(space("sharing", 2, |ix, rec| {
        rec.op(1);
        rec.state(ix);
        rec.class("shareable");
        let (what, shared) = [("constants", <Sharing<Constants>>::SHARED), ("elements", <Sharing<Elements>>::SHARED)][ix as usize];
        if !shared {
            return Err(format!("{what} cannot be shared between threads"));
        }
        Ok(())
    }));
    let depth = if thorough { 4 } else { 3 };
    // in the fourth place, a few calls only
    let last = [0usize, 3, 6, PROPAGATE, PROPAGATE + 9 * 2 + 1, PROPAGATE + 13 * 2, INITIALISE + 5, OTHER + 4];
    let radix = move |d: usize| if d < 3 { OPS } else { last.len() };
    let size: u64 = (0..depth).map(|d| radix(d) as u64).product();
    v.push(
        space("histories", size, move |ix, rec| {
            let w = world()?;
            let base = baselines();
            let (mut k, mut h) = (ix, Hash::new());
            let mut path = Vec::new();
            for d in 0..depth {
                let q = (k % radix(d) as u64) as usize;
                k /= radix(d) as u64;
                let op = if d < 3 { q } else { last[q] };
                path.push(op);
                h = h.u(op as u64);
                rec.state(h.0);
                let r = now(w, op);
                rec.op(1);
                if r != base[op] {
                    let names: Vec<String> = path.iter().map(|p| name(*p)).collect();
                    return Err(format!("after {names:?} the last call gave {r}, in a process of its own it gives {}", base[op]));
                }
            }
            rec.trace(1);
            rec.class("same");
            rec.sample(|| format!("{:?}", path.iter().map(|p| name(*p)).collect::<Vec<_>>()));
            Ok(())
        })
        .on_threads(1),
    );
    // calls which differ in one argument, after each other
    let pairs: Vec<(usize, usize)> = neighbours().0.iter().flat_map(|(a, b)| (*a..*b).flat_map(|j| (*a..*b).map(move |k| (j, k)))).collect();
    v.push(
        space("neighbours", pairs.len() as u64, move |ix, rec| {
            let w = world()?;
            let (a, b) = pairs[ix as usize];
            for (op, after) in [(OPS + a, None), (OPS + b, Some(OPS + a))] {
                let r = now(w, op);
                rec.op(1);
                rec.state(Hash::new().s(r.as_bytes()).0);
                if r != baselines()[op] {
                    return Err(format!("after {:?}, {:?} gave {r}, in a process of its own it gives {}", after.map(name), name(op), baselines()[op]));
                }
            }
            rec.trace(1);
            rec.class("same");
            rec.sample(|| format!("{:?} then {:?}", name(OPS + a), name(OPS + b)));
            Ok(())
        })
        .on_threads(1),
    );
    // many repetitions of one call
    v.push(
        space("repetitions", OPS as u64, move |ix, rec| {
            let w = world()?;
            let n = 66_000;
            for k in 0..n {
                let r = now(w, ix as usize);
                rec.op(1);
                if r != baselines()[ix as usize] {
                    return Err(format!("call {k} of {:?} gave {r}, in a process of its own it gives {}", name(ix as usize), baselines()[ix as usize]));
                }
            }
            rec.state(ix);
            rec.trace(1);
            rec.class("same");
            Ok(())
        })
        .on_threads(1),
    );
    // constants serialise to the same text before and after being used
    v.push(space("unmodified", ORBITS as u64, |ix, rec| {
        let w = world()?;
        let c = w.constants(ix as usize);
        let show = || guard(|| serde_json::to_string(c).map_err(|e| e.to_string())).map_err(|p| format!("panicked: {p}"))?;
        let before = show()?;
        for t in [0.0, 1.0, -1.0, 719.0, 720.0, 721.0, -1e4, 1e5, f64::NAN, f64::INFINITY] {
            let _ = guard(|| (c.propagate(MinutesSinceEpoch(t)).is_ok(), c.propagate_afspc_compatibility_mode(MinutesSinceEpoch(t)).is_ok())).map_err(|p| format!("panicked: {p}"))?;
            rec.op(2);
            let after = show()?;
            if before != after {
                return Err(format!("propagation to {t} changed the constants of orbit {ix}: {before} became {after}"));
            }
        }
        rec.state(ix);
        rec.trace(1);
        rec.class("same");
        Ok(())
    }));
    // schedules do not depend on the arithmetic: the quick tier explores them on one build
    if cfg!(feature = "libm") && !thorough {
        return v;
    }
    // a call in between at every instruction
    let some: Vec<usize> = if thorough {
        (0..OPS).filter(|k| steppable(*k)).collect()
    } else {
        let mut s = vec![0, 1, 3, 5, 6, 10];
        s.extend([0, 1, 3, 6, 9, 10, 12, 13].map(|o| PROPAGATE + 2 * o + o % 2));
        s.extend([INITIALISE + 1, INITIALISE + 5, INITIALISE + 9, OTHER, OTHER + 1, OTHER + 2, OTHER + 3, OTHER + 5, OTHER + 6]);
        s
    };
    let pairs = threads() / 2;
    {
        let some = some.clone();
        let n = some.len();
        v.push(
            space("interrupted-everywhere", (n * n) as u64, move |ix, rec| {
                let w = world()?;
                let (a, b) = (some[ix as usize / n], some[ix as usize % n]);
                let (r, steps, switches, late) = interleave(w, a, b, 0, if thorough { 200_000 } else { 20_000 })?;
                rec.op(1 + switches);
                rec.trace(1);
                rec.state(Hash::new().u(a as u64).u(b as u64).u(steps).0);
                rec.class(if late { "waited" } else { "same" });
                rec.sample(|| format!("{:?} with {:?} in between {switches} times", name(a), name(b)));
                if r != baselines()[a] {
                    return Err(format!("{:?} gave {r} with {:?} in between its instructions, instead of {}", name(a), name(b), baselines()[a]));
                }
                Ok(())
            })
            .on_threads(pairs),
        );
    }
    // a call in between once, at each single instruction
    {
        let first: Vec<usize> = if thorough { vec![0, PROPAGATE, PROPAGATE + 3, PROPAGATE + 12, PROPAGATE + 24, OTHER + 6, OTHER + 5] } else { vec![PROPAGATE, OTHER + 6] };
        let second: Vec<usize> = if thorough { vec![0, 6, PROPAGATE, PROPAGATE + 3, PROPAGATE + 24, INITIALISE + 9, OTHER + 5] } else { vec![PROPAGATE + 2, INITIALISE + 9] };
        let most: u64 = if thorough { 12_000 } else { 2_500 };
        let (na, nb) = (first.len() as u64, second.len() as u64);
        v.push(
            space("interrupted-once", na * nb * most, move |ix, rec| {
                let w = world()?;
                let (pair, k) = (ix / most, ix % most + 1);
                let (a, b) = (first[(pair / nb) as usize], second[(pair % nb) as usize]);
                let (r, steps, switches, late) = interleave(w, a, b, k, u64::MAX)?;
                rec.op(1 + switches);
                rec.trace(1);
                if switches > 0 {
                    rec.state(Hash::new().u(a as u64).u(b as u64).u(steps).0);
                }
                rec.class(if late { "waited" } else if switches > 0 { "same" } else { "over-before" });
                rec.sample(|| format!("{:?} with {:?} in between at instruction {k}", name(a), name(b)));
                if r != baselines()[a] {
                    return Err(format!("{:?} gave {r} with {:?} in between at instruction {k}, instead of {}", name(a), name(b), baselines()[a]));
                }
                Ok(())
            })
            .on_threads(pairs),
        );
    }
    v
}
