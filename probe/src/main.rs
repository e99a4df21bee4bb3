//! Prints what one feature combination of the library computes, one line per case, and compares two such files.
//!
//!     probe run TIER OUT
//!     probe compare A B      (exit 1 and a message at the first difference)
//!
//! A token `~` means that the feature combination has no such result.
use sgp4::chrono::{DateTime, NaiveDateTime};
use sgp4::{Constants, Elements, Geopotential, MinutesSinceEpoch, Orbit, Prediction};
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn words(s: &str) -> String {
    s.replace(' ', "_").replace('\n', "_")
}

fn tle(a: &[u8], b: &[u8]) -> Option<Result<Elements, sgp4::TleError>> {
    #[cfg(feature = "alloc")]
    return guarded(|| Elements::from_tle(None, a, b));
    #[cfg(not(feature = "alloc"))]
    return guarded(|| Elements::from_tle(a, b));
}

#[cfg(feature = "alloc")]
fn texts(x: &Elements) -> (String, String) {
    (words(&format!("{:?}", x.object_name)), words(&format!("{:?}", x.international_designator)))
}
#[cfg(not(feature = "alloc"))]
fn texts(_: &Elements) -> (String, String) {
    ("~".into(), "~".into())
}

fn elements(x: &Elements) -> String {
    let (n, d) = texts(x);
    format!(
        "{n} {d} {} {:?} {} {:?} {:?} {:?} {} {} {} {:?} {:?} {:?} {:?} {:?} {:?}",
        x.norad_id,
        x.classification,
        words(&format!("{}", x.datetime)),
        x.mean_motion_dot,
        x.mean_motion_ddot,
        x.drag_term,
        x.ephemeris_type,
        x.element_set_number,
        x.revolution_number,
        x.inclination,
        x.right_ascension,
        x.eccentricity,
        x.argument_of_perigee,
        x.mean_anomaly,
        x.mean_motion
    )
}

fn prediction(p: Option<Result<Prediction, sgp4::Error>>) -> String {
    match p {
        None => "panicked".into(),
        Some(Err(e)) => {
            // kind and values, as numbers that may differ by rounding
            let s = format!("{e:?}");
            s.replace(['{', '}', ','], " ").split_whitespace().collect::<Vec<_>>().join(" ")
        }
        Some(Ok(p)) => format!("{:?} {:?} {:?} {:?} {:?} {:?}", p.position[0], p.position[1], p.position[2], p.velocity[0], p.velocity[1], p.velocity[2]),
    }
}

struct Case {
    name: &'static str,
    geo: usize,
    epoch: f64,
    theta: f64,
    drag: f64,
    i: f64,
    o: f64,
    e: f64,
    w: f64,
    m: f64,
    n: f64,
}

fn geo(k: usize) -> Geopotential {
    if k == 0 { sgp4::WGS72 } else { sgp4::WGS84 }
}

fn theta(_: f64) -> f64 {
    THETA.with(|t| t.get())
}
thread_local! {
    static THETA: std::cell::Cell<f64> = const { std::cell::Cell::new(0.0) };
}

fn constants(c: &Case) -> Option<Result<Constants, String>> {
    THETA.with(|t| t.set(c.theta));
    guarded(|| {
        Constants::new(
            geo(c.geo),
            theta,
            c.epoch,
            c.drag,
            Orbit { inclination: c.i, right_ascension: c.o, eccentricity: c.e, argument_of_perigee: c.w, mean_anomaly: c.m, mean_motion: c.n },
        )
        .map_err(|e| format!("{e:?}"))
    })
}

fn orbits(thorough: bool) -> Vec<Case> {
    let mut v = Vec::new();
    // kind, inclinations, eccentricity, mean motion, drag
    let kinds: [(&'static str, &[f64], f64, f64, f64); 15] = [
        ("elliptic", &[0.9, 1.7, 0.02], 0.01, 0.0675, 1e-4),
        ("circular", &[1.0, 3.1], 5e-5, 0.0635, 3e-5),
        ("low", &[0.5, 2.0], 0.1, 0.0605, 2e-4),
        ("very-low", &[1.1], 0.3, 0.0421, 1e-5),
        ("no-drag", &[1.5707963, 0.0], 0.002, 0.0664, 0.0),
        ("decaying", &[0.8], 0.02, 0.069, 0.05),
        ("deep", &[1.0, 2.5], 0.3, 0.02, 1e-4),
        ("equatorial", &[0.0, 0.03, 3.12], 0.01, 0.0065, 0.0),
        ("lyddane", &[0.15, 0.19, 0.21], 0.2, 0.012, 1e-5),
        ("far", &[2.2, 0.6], 0.6, 0.0015, 0.0),
        ("half-day", &[1.1, 1.2, 0.1], 0.69, 8.75e-3, 1e-4),
        ("half-day-round", &[1.2], 0.55, 8.72e-3, 0.0),
        ("half-day-flat", &[1.0], 0.72, 9.1e-3, 0.0),
        ("day", &[0.01, 0.3, 1.1], 0.0003, 4.375e-3, 0.0),
        ("day-elliptic", &[1.1], 0.4, 4.6e-3, 1e-5),
    ];
    let angles: &[(f64, f64, f64)] = &[(1.0, 2.0, 3.0), (-1.0, -2.0, -3.0), (5.0, -0.3, 6.2), (-5.5, 7.0, -6.0), (0.0, 0.0, 0.0), (12.0, -12.0, 20.0)];
    let stamps: &[(f64, f64)] = if thorough { &[(6.5, 1.0), (-22.5, 4.0), (0.0, 0.0), (20.1, 6.28), (-45.0, 3.0)] } else { &[(6.5, 1.0), (-22.5, 4.0)] };
    for (name, is, e, n, drag) in kinds {
        for &i in is {
            for &(o, w, m) in angles {
                for &(epoch, theta) in stamps {
                    for geo in 0..2 {
                        v.push(Case { name, geo, epoch, theta, drag, i, o, e, w, m, n });
                    }
                }
            }
        }
    }
    v
}

const TIMES: [f64; 24] = [
    0.0, 1.0, -1.0, 90.5, -90.5, 360.0, 719.0, 720.0, 721.0, -719.0, -720.0, -721.0, 1440.0, -1440.0, 4320.25, -4320.25, 10000.0, -10000.0, 50000.0, -50000.0, 1e6, -1e6, f64::INFINITY, f64::NAN,
];

fn run(thorough: bool, path: &str) -> std::io::Result<()> {
    let mut out = std::io::BufWriter::new(std::fs::File::create(path)?);
    // propagation, both modes, and from states
    for c in orbits(thorough) {
        let built = constants(&c);
        let label = format!("predict {} {} {} {} {} {} {} {}", c.name, c.geo, c.epoch, c.theta, c.i, c.o, c.w, c.m);
        match &built {
            None => writeln!(out, "{label} | panicked")?,
            Some(Err(e)) => writeln!(out, "{label} | {}", words(e))?,
            Some(Ok(k)) => {
                for t in TIMES {
                    writeln!(out, "{label} at {t} | {} {}", prediction(guarded(|| k.propagate(MinutesSinceEpoch(t)))), prediction(guarded(|| k.propagate_afspc_compatibility_mode(MinutesSinceEpoch(t)))))?;
                }
                for forward in [1.0, -1.0] {
                    let mut s = k.initial_state();
                    for t in [100.0, 800.0, 800.0, 5000.0, 30000.0] {
                        let p = prediction(guarded(|| k.propagate_from_state(MinutesSinceEpoch(t * forward), s.as_mut(), false)));
                        writeln!(out, "{label} state at {} | {} {:?}", t * forward, p, s.as_ref().map_or(0.0, |s| s.t()))?;
                    }
                }
            }
        }
    }
    // one parameter at a time, over its whole range and both signs
    for c in orbits(false).iter().filter(|c| c.geo == 0 && c.o == 1.0 && c.epoch == 6.5 && c.name != "decaying") {
        for q in 0..7 {
            let count = if thorough { 1000 } else { 200 };
            for k in 0..count {
                let x = (k as f64 + 0.37) / count as f64;
                let (mut d, mut t) = (Case { ..*c }, 1234.5);
                match q {
                    0 => d.i = x * 3.14,
                    1 => d.o = (x - 0.5) * 40.0,
                    2 => d.w = (x - 0.5) * 40.0,
                    3 => d.m = (x - 0.5) * 40.0,
                    4 => d.epoch = (x - 0.5) * 200.0,
                    5 => d.theta = (x - 0.5) * 40.0,
                    _ => t = (2.0 * x - 1.0).powi(3) * 1e5,
                }
                let s = match constants(&d) {
                    None => "panicked".into(),
                    Some(Err(e)) => words(&e),
                    Some(Ok(k)) => format!("{} {}", prediction(guarded(|| k.propagate(MinutesSinceEpoch(t)))), prediction(guarded(|| k.propagate_afspc_compatibility_mode(MinutesSinceEpoch(-t))))),
                };
                writeln!(out, "line {} {} {q} {k} | {s}", d.name, c.i)?;
            }
        }
    }
    // initialisation errors
    for e in [-1.0, -1e-300, -0.0, 0.0, 0.5, 0.999999, 1.0, 2.0, f64::NAN, f64::INFINITY] {
        for n in [-1.0, -0.0, 0.0, 1e-5, 0.004, 0.06, 1.0, 1e3, f64::NAN] {
            for i in [0.0, -1.0, 1.0, 3.2] {
                let o = guarded(|| Orbit::from_kozai_elements(&sgp4::WGS84, i, 1.0, e, 2.0, 3.0, n).map(|o| o.mean_motion).map_err(|e| format!("{e:?}")));
                let s = match o {
                    None => "panicked".to_string(),
                    Some(Ok(x)) => format!("{x:?}"),
                    Some(Err(e)) => words(&e),
                };
                writeln!(out, "kozai {e} {n} {i} | {s}")?;
            }
        }
    }
    // epochs, sidereal times, conversions
    let base = tle(LINE1, LINE2).and_then(|r| r.ok());
    let at = |s: i64, n: u32| -> NaiveDateTime { DateTime::from_timestamp(s, n).unwrap().naive_utc() };
    let mut day = -20 * 366 * 86400;
    while day < 90 * 366 * 86400 {
        for (s, n) in [(0, 0), (43200, 0), (86399, 999_999_999), (12345, 678_900_000)] {
            let d = at(day + s, n);
            let (a, b) = (sgp4::julian_years_since_j2000(&d), sgp4::julian_years_since_j2000_afspc_compatibility_mode(&d));
            let (p, q, r) = (sgp4::iau_epoch_to_sidereal_time(a), sgp4::afspc_epoch_to_sidereal_time(a), sgp4::afspc_epoch_to_sidereal_time(b));
            let m = base.as_ref().and_then(|x| guarded(|| x.datetime_to_minutes_since_epoch(&d).map(|m| m.0).ok())).flatten();
            let back = match (&base, m) {
                (Some(x), Some(m)) => guarded(|| x.minutes_since_epoch_to_datetime(&MinutesSinceEpoch(m)).map(|d| words(&d.to_string())).unwrap_or("error".into())),
                _ => None,
            };
            // angles near a turn are compared through their sine and cosine, and by the range they are in
            writeln!(
                out,
                "date {} | {a:?} {b:?} {:?} {:?} {:?} {:?} {:?} {:?} {} {} {m:?} {back:?}",
                words(&d.to_string()),
                p.sin(),
                p.cos(),
                q.sin(),
                q.cos(),
                r.sin(),
                r.cos(),
                (-1e-9..7.0).contains(&p),
                (-1e-9..7.0).contains(&q)
            )?;
        }
        day += if thorough { 86400 } else { 86400 * 5 };
    }
    for m in [0.0, 1.0, -1.0, 0.5e-10, 1e5, -1e7, 1e8, 1.5e8, 1.6e8, -1.6e8, 1e300, f64::NAN, f64::INFINITY] {
        let r = base.as_ref().map(|x| guarded(|| x.minutes_since_epoch_to_datetime(&MinutesSinceEpoch(m)).map(|d| words(&d.to_string())).unwrap_or("error".into())));
        writeln!(out, "minutes {m} | {r:?}")?;
    }
    // parsing: every byte of the two lines
    let bytes: Vec<u8> = if thorough { (0..=255).collect() } else { (0..=255).step_by(3).chain([b' ', b'-', b'+', b'.', b'0', b'5', b'9', b'e', b'n']).collect() };
    for line in 0..2 {
        for p in 0..69 {
            for &c in &bytes {
                for fix in [false, true] {
                    let (mut a, mut b) = (*LINE1, *LINE2);
                    let l = if line == 0 { &mut a } else { &mut b };
                    l[p] = c;
                    if fix && p < 68 {
                        l[68] = checksum(l);
                    }
                    // without alloc the designator is neither kept nor checked
                    let designator = line == 0 && (9..17).contains(&p);
                    let s = match tle(&a, &b) {
                        None => "panicked".to_string(),
                        Some(Ok(x)) => elements(&x),
                        Some(Err(e)) => words(&format!("{e:?} {e}")),
                    };
                    let s = if designator && cfg!(not(feature = "alloc")) { "~".to_string() } else { s };
                    writeln!(out, "tle {line} {p} {c} {fix} | {s}")?;
                }
            }
        }
    }
    // whole fields
    const WORDS: [&str; 12] = ["nan", "inf", "1e999", "", "-", "+1", "-0", ".5", "1e5", "-1", "99999999", "\t1"];
    const FIELDS: [(usize, usize, usize); 18] = [
        (0, 2, 7), (0, 7, 8), (0, 18, 20), (0, 20, 32), (0, 33, 43), (0, 44, 50), (0, 50, 52), (0, 53, 59), (0, 59, 61), (0, 62, 63), (0, 64, 68), (1, 8, 16), (1, 17, 25), (1, 26, 33), (1, 34, 42), (1, 43, 51), (1, 52, 63), (1, 63, 68),
    ];
    for (line, s, e) in FIELDS {
        for w in WORDS {
            let (mut a, mut b) = (*LINE1, *LINE2);
            let l = if line == 0 { &mut a } else { &mut b };
            let w = &w.as_bytes()[..w.len().min(e - s)];
            l[s..e].fill(b' ');
            l[e - w.len()..e].copy_from_slice(w);
            l[68] = checksum(l);
            let t = match tle(&a, &b) {
                None => "panicked".to_string(),
                Some(Ok(x)) => elements(&x),
                Some(Err(e)) => words(&format!("{e:?} {e}")),
            };
            writeln!(out, "field {line} {s} {} | {t}", words(&String::from_utf8_lossy(w)))?;
        }
    }
    // every two-digit year in both places, every day of some years, designators of every length
    let shown = |a: &[u8; 69], b: &[u8; 69]| match tle(a, b) {
        None => "panicked".to_string(),
        Some(Ok(x)) => elements(&x),
        Some(Err(e)) => words(&format!("{e:?} {e}")),
    };
    for y in 0..100 {
        for (k, d) in ["067A  ", "001AAA", "999ZZ ", "1     ", "      "].iter().enumerate() {
            let mut a = *LINE1;
            a[9..11].copy_from_slice(format!("{y:02}").as_bytes());
            a[11..17].copy_from_slice(d.as_bytes());
            a[68] = checksum(&a);
            writeln!(out, "launch {y} {k} | {}", if cfg!(feature = "alloc") { shown(&a, LINE2) } else { "~".to_string() })?;
        }
        for day in 0..=367 {
            let mut a = *LINE1;
            a[18..20].copy_from_slice(format!("{y:02}").as_bytes());
            a[20..32].copy_from_slice(format!("{day:03}.{:08}", (day * 271828183usize + y * 31415926) % 100000000).as_bytes());
            a[68] = checksum(&a);
            writeln!(out, "day {y} {day} | {}", shown(&a, LINE2))?;
        }
    }
    // every field over its range
    for (f, (line, s, e)) in FIELDS.iter().enumerate() {
        for k in 0..if thorough { 5000usize } else { 1000 } {
            let (mut a, mut b) = (*LINE1, *LINE2);
            let w = match f {
                0 | 2 | 9 | 10 | 17 => format!("{:>1$}", (k * 104729) % 10usize.pow((e - s) as u32), e - s),
                1 => ["U", "C", "S", "u", " "][k % 5].to_string(),
                3 => format!("{:3}.{:08}", 1 + k % 366, (k * 7654321) % 100000000),
                4 => format!("{}.{:08}", [" ", "-", "+"][k % 3], (k * 7654321) % 100000000),
                5 | 7 => format!("{}{:05}", [" ", "-", "+"][k % 3], (k * 7654321) % 100000),
                6 | 8 => format!("{}{}", ["-", "+"][k % 2], (k / 2) % 10),
                13 => format!("{:07}", (k * 7654321) % 10000000),
                16 => format!("{:2}.{:08}", k % 18, (k * 7654321) % 100000000),
                _ => format!("{:3}.{:04}", k % 361, (k * 7919) % 10000),
            };
            let l = if *line == 0 { &mut a } else { &mut b };
            l[*s..*e].copy_from_slice(w.as_bytes());
            if f == 0 {
                b[2..7].copy_from_slice(w.as_bytes());
            }
            (a[68], b[68]) = (checksum(&a), checksum(&b));
            writeln!(out, "range {line} {s} {k} | {}", shown(&a, &b))?;
        }
    }
    // element sets from TLEs through to predictions
    for y in (0..100).step_by(if thorough { 1 } else { 3 }) {
        for d in ["001.00000000", "059.99999999", "264.51782528", "365.50000000"] {
            for (n, e) in [("15.72125391", "0006703"), (" 2.00563995", "6900000"), (" 1.00273790", "0001000"), (" 4.00000000", "2000000"), ("16.90000000", "0100000")] {
                for i in ["  0.0100", " 51.6416", " 98.7000", "179.9000"] {
                    let (mut a, mut b) = (*LINE1, *LINE2);
                    a[18..20].copy_from_slice(format!("{y:02}").as_bytes());
                    a[20..32].copy_from_slice(d.as_bytes());
                    b[8..16].copy_from_slice(i.as_bytes());
                    b[26..33].copy_from_slice(e.as_bytes());
                    b[52..63].copy_from_slice(n.as_bytes());
                    a[68] = checksum(&a);
                    b[68] = checksum(&b);
                    let mut s = String::new();
                    if let Some(Ok(x)) = tle(&a, &b) {
                        for afspc in [false, true] {
                            let c = guarded(|| if afspc { Constants::from_elements_afspc_compatibility_mode(&x).map_err(|e| format!("{e:?}")) } else { Constants::from_elements(&x).map_err(|e| format!("{e:?}")) });
                            match c {
                                None => s.push_str("panicked "),
                                Some(Err(e)) => write!(s, "{} ", words(&e)).unwrap(),
                                Some(Ok(c)) => {
                                    for t in [0.0, 720.5, -2000.0] {
                                        write!(s, "{} ", prediction(guarded(|| if afspc { c.propagate_afspc_compatibility_mode(MinutesSinceEpoch(t)) } else { c.propagate(MinutesSinceEpoch(t)) }))).unwrap();
                                    }
                                }
                            }
                        }
                    } else {
                        s.push_str("refused");
                    }
                    writeln!(out, "chain {y} {d} {} {} | {s}", words(n), words(i))?;
                }
            }
        }
    }
    several(&mut out)?;
    omms(&mut out)?;
    out.flush()
}

#[cfg(feature = "alloc")]
fn several(out: &mut impl Write) -> std::io::Result<()> {
    let (a, b) = (std::str::from_utf8(LINE1).unwrap(), std::str::from_utf8(LINE2).unwrap());
    for end in ["\n", "\r\n"] {
        for (k, lines) in [vec![a, b], vec![a, b, a, b], vec!["N", a, b], vec!["N", a, b, "", a, b], vec![b, a], vec![], vec![a], vec!["N", a, b, "M", b, b]].into_iter().enumerate() {
            let text = lines.join(end);
            for three in [false, true] {
                let r = guarded(|| if three { sgp4::parse_3les(&text) } else { sgp4::parse_2les(&text) });
                let s = match r {
                    None => "panicked".to_string(),
                    Some(Ok(x)) => x.iter().map(elements).collect::<Vec<_>>().join(" "),
                    Some(Err(e)) => words(&format!("{e:?} {e}")),
                };
                writeln!(out, "several {} {k} {three} | {s}", end.len())?;
            }
        }
    }
    Ok(())
}
#[cfg(not(feature = "alloc"))]
fn several(out: &mut impl Write) -> std::io::Result<()> {
    for end in 1..3 {
        for k in 0..8 {
            for three in [false, true] {
                writeln!(out, "several {end} {k} {three} | ~")?;
            }
        }
    }
    Ok(())
}

#[cfg_attr(not(feature = "serde"), allow(dead_code))]
const OMM: [(&str, &str); 17] = [
    ("OBJECT_NAME", "\"ISS\""), ("OBJECT_ID", "\"1998-067A\""), ("EPOCH", "\"2020-07-12T01:19:07.402656\""), ("MEAN_MOTION", "15.49560532"), ("ECCENTRICITY", "0.0001771"), ("INCLINATION", "51.6435"), ("RA_OF_ASC_NODE", "225.4004"), ("ARG_OF_PERICENTER", "44.9625"), ("MEAN_ANOMALY", "5.1087"), ("EPHEMERIS_TYPE", "0"),
    ("CLASSIFICATION_TYPE", "\"U\""), ("NORAD_CAT_ID", "25544"), ("ELEMENT_SET_NO", "999"), ("REV_AT_EPOCH", "23587"), ("BSTAR", "0.0049645"), ("MEAN_MOTION_DOT", "0.00289036"), ("MEAN_MOTION_DDOT", "0"),
];
const JSON: [&str; 32] = ["-0.0", "1.0", "18446744073709551615", "18446744073709551616", "\"18446744073709551615\"", "\"+7\"", "\" 7\"", "\"7 \"", "\"\"", "\"-1\"", "\"0.25\"", "0.1", "\"0.1\"", "{}", "\"U\"", "\"2000-02-29T23:59:59.999999999\"", "0", "1", "-1", "255", "256", "0.5", "1e300", "\"5\"", "\"256\"", "\"nan\"", "\"inf\"", "\"x\"", "null", "true", "[]", "\"1e5\""];

#[cfg(feature = "serde")]
fn omms(out: &mut impl Write) -> std::io::Result<()> {
    for f in 0..17 {
        for w in JSON {
            let mut o = OMM;
            o[f].1 = w;
            let text = format!("{{{}}}", o.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
            let s = match guarded(|| serde_json::from_str::<Elements>(&text)) {
                None => "panicked".to_string(),
                Some(Ok(x)) => elements(&x),
                Some(Err(_)) => "refused".to_string(),
            };
            writeln!(out, "omm {f} {} | {s}", words(w))?;
        }
    }
    // constants through serialisation
    for c in orbits(false).iter().step_by(7) {
        let s = match constants(c) {
            Some(Ok(k)) => {
                let text = serde_json::to_string(&k).unwrap_or_default();
                match guarded(|| serde_json::from_str::<Constants>(&text)) {
                    Some(Ok(k)) => prediction(guarded(|| k.propagate(MinutesSinceEpoch(1500.0)))),
                    Some(Err(e)) => words(&e.to_string()),
                    None => "panicked".into(),
                }
            }
            _ => "none".into(),
        };
        writeln!(out, "serialised {} {} {} | {s}", c.name, c.i, c.o)?;
    }
    Ok(())
}
#[cfg(not(feature = "serde"))]
fn omms(out: &mut impl Write) -> std::io::Result<()> {
    for f in 0..17 {
        for w in JSON {
            writeln!(out, "omm {f} {} | ~", words(w))?;
        }
    }
    for c in orbits(false).iter().step_by(7) {
        writeln!(out, "serialised {} {} {} | ~", c.name, c.i, c.o)?;
    }
    Ok(())
}

const LINE1: &[u8; 69] = b"1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927";
const LINE2: &[u8; 69] = b"2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537";

fn checksum(line: &[u8]) -> u8 {
    let s: u32 = line[..68].iter().map(|c| if c.is_ascii_digit() { (c - b'0') as u32 } else { (*c == b'-') as u32 }).sum();
    b'0' + (s % 10) as u8
}

/// tokens are equal, or numbers that differ by accumulated rounding only
fn same(a: &str, b: &str) -> bool {
    if a == b || a == "~" || b == "~" {
        return true;
    }
    match (a.parse::<f64>(), b.parse::<f64>()) {
        (Ok(x), Ok(y)) => (x.is_nan() && y.is_nan()) || (x - y).abs() <= 1e-6 * (1.0 + x.abs().min(y.abs())),
        _ => false,
    }
}

fn compare(a: &str, b: &str) -> std::io::Result<i32> {
    let (fa, fb) = (std::fs::File::open(a)?, std::fs::File::open(b)?);
    let (mut la, mut lb) = (std::io::BufReader::new(fa).lines(), std::io::BufReader::new(fb).lines());
    let (mut compared, mut absent, mut rounded) = (0u64, 0u64, 0u64);
    loop {
        let (x, y) = match (la.next().transpose()?, lb.next().transpose()?) {
            (None, None) => break,
            (Some(x), Some(y)) => (x, y),
            _ => {
                println!("different number of cases");
                return Ok(2);
            }
        };
        let ((kx, vx), (ky, vy)) = (x.split_once(" | ").unwrap_or((&x, "")), y.split_once(" | ").unwrap_or((&y, "")));
        if kx != ky {
            println!("cases out of step: {kx} and {ky}");
            return Ok(2);
        }
        compared += 1;
        if vx == "~" || vy == "~" {
            absent += 1;
            continue;
        }
        if vx == vy {
            continue;
        }
        let (tx, ty): (Vec<_>, Vec<_>) = (vx.split(' ').collect(), vy.split(' ').collect());
        if tx.len() != ty.len() || !tx.iter().zip(&ty).all(|(p, q)| same(p, q)) {
            println!("{kx}: {vx} and {vy}");
            return Ok(1);
        }
        rounded += 1;
    }
    println!("{compared} {absent} {rounded}");
    Ok(0)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let arg = |k: usize| args.get(k).map(|s| s.as_str()).unwrap_or("");
    let r = match arg(1) {
        "run" => run(arg(2) == "thorough", arg(3)).map(|()| 0),
        "compare" => compare(arg(2), arg(3)),
        _ => Ok(2),
    };
    std::process::exit(r.unwrap_or_else(|e| {
        eprintln!("{e}");
        2
    }));
}
