//! C23: what errors print
use crate::engine::*;
use crate::txt::{base, located, text, Card};
use sgp4::{chrono, Elements, MinutesSinceEpoch};

/// the numbers of a text with their places
fn numbers(s: &str) -> Vec<(usize, f64)> {
    let part = |c: char| c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+';
    let mut v = Vec::new();
    let mut start = None;
    for (k, c) in s.char_indices().chain([(s.len(), ' ')]) {
        match (part(c), start) {
            (true, None) => start = Some(k),
            (false, Some(from)) => {
                if let Ok(x) = s[from..k].trim_end_matches('.').parse::<f64>() {
                    v.push((from, x));
                }
                start = None;
            }
            _ => (),
        }
    }
    v
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// the text states the value, and next to the word (if it has that word)
fn states(s: &str, value: f64, after: Option<&str>, before: Option<&str>) -> Result<(), String> {
    let found = numbers(s);
    if !found.iter().any(|(_, x)| same(*x, value)) {
        return Err(format!("{value:?} is not in {s:?}"));
    }
    if let Some(k) = after.and_then(|w| s.find(w)) {
        if let Some((_, x)) = found.iter().find(|(p, _)| *p > k) {
            if !same(*x, value) {
                return Err(format!("{x:?} in place of {value:?} in {s:?}"));
            }
        }
    }
    if let Some(k) = before.and_then(|w| s.find(w)) {
        if let Some((_, x)) = found.iter().rev().find(|(p, _)| *p < k) {
            if !same(*x, value) {
                return Err(format!("{x:?} in place of {value:?} in {s:?}"));
            }
        }
    }
    Ok(())
}

fn shown(e: impl std::fmt::Display) -> Result<String, String> {
    guard(|| format!("{e}")).map_err(|p| format!("printing panicked: {p}"))
}

fn propagation(kind: usize, e: f64, t: f64) -> sgp4::Error {
    match kind {
        0 => sgp4::Error::OutOfRangeEccentricity { eccentricity: e, t },
        1 => sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity: e, t },
        _ => sgp4::Error::NegativeSemiLatusRectum { t },
    }
}

fn check_propagation(kind: usize, e: f64, t: f64, rec: &mut Rec) -> Result<(), String> {
    let s = shown(propagation(kind, e, t))?;
    rec.op(1);
    rec.trace(1);
    rec.state(Hash::new().s(s.as_bytes()).0);
    rec.class(["eccentricity", "perturbed-eccentricity", "semi-latus-rectum"][kind]);
    rec.sample(|| s.clone());
    states(&s, t, None, Some("minute"))?;
    if kind < 2 {
        states(&s, e, Some("eccentricity"), None)?;
    }
    for other in 0..3 {
        if other != kind && shown(propagation(other, e, t))? == s {
            return Err(format!("two kinds of errors print {s:?}"));
        }
    }
    Ok(())
}

fn check_epoch(e: f64, rec: &mut Rec) -> Result<(), String> {
    let inner = sgp4::OutOfRangeEpochEccentricity(e);
    let s = shown(&inner)?;
    rec.op(2);
    rec.trace(1);
    rec.state(Hash::new().s(s.as_bytes()).0);
    rec.class("epoch-eccentricity");
    rec.sample(|| s.clone());
    states(&s, e, Some("eccentricity"), None)?;
    let outer = shown(sgp4::ElementsError::from(inner))?;
    if outer != s {
        return Err(format!("{s:?} prints as {outer:?} when wrapped"));
    }
    Ok(())
}

/// a date as it is usually printed
fn place(s: &str, d: &chrono::NaiveDateTime) -> Option<usize> {
    [format!("{d}"), format!("{d:?}")].iter().find_map(|w| {
        // the digits of a longer text do not count
        s.match_indices(w.as_str()).find(|(k, _)| !s[k + w.len()..].starts_with(|c: char| c.is_ascii_digit() || c == '.')).map(|(k, _)| k)
    })
}

fn special() -> Vec<f64> {
    let mut v = vec![0.0, 1.0, 1.5, -0.001, 0.1, 1.0 / 3.0, 1e-6, 1e-300, 5e-324, 720.0, 1440.0, 1e9, 1e15, 1e16, 1e21, 1e300, f64::MAX, f64::NAN, f64::INFINITY, 4503599627370497.5, 0.30000000000000004, 123456.789];
    v.extend(v.clone().iter().map(|x| -x));
    v
}

const KINDS: [&str; 11] = ["length", "first-character", "space", "mismatch", "classification", "checksum", "integer", "float", "assumed-decimal", "date", "string"];

/// lines with one defect of a kind (None if the kind does not apply to the line)
fn broken(kind: usize, line: usize) -> Option<(Vec<u8>, Vec<u8>)> {
    let (mut c, _): (Card, _) = base();
    match (kind, line) {
        (3, 0) => c.norad2 = text("25545"),
        (4, 0) => c.class = b'X',
        (6, 0) => c.norad1 = text("2554A"),
        (6, _) => c.norad2 = text("2554A"),
        (7, 0) => c.dot = text("-.0000218A"),
        (7, _) => c.inclination = text(" 51.641A"),
        (8, 0) => c.drag = text("-1160A-4"),
        (8, _) => c.eccentricity = text("000670A"),
        (9, 0) => c.day = text("400.51782528"),
        (10, 0) => c.designator[3] = 0xff,
        (3 | 4 | 9 | 10, _) => return None,
        _ => (),
    }
    let (a, b) = c.lines();
    let mut pair = [a.to_vec(), b.to_vec()];
    let l = &mut pair[line];
    match kind {
        0 => {
            l.pop();
        }
        1 => l[0] = b'3',
        2 => l[if line == 0 { 8 } else { 7 }] = b'_',
        5 => l[68] = b'0' + (l[68] - b'0' + 1) % 10,
        _ => (),
    }
    if kind == 1 || kind == 2 {
        l[68] = crate::txt::checksum(l);
    }
    let [a, b] = pair;
    Some((a, b))
}

/// the text without line and columns
fn wording(s: &str) -> String {
    s.replace("line 1", "line").replace("line 2", "line").chars().filter(|c| !c.is_ascii_digit()).collect()
}

pub fn c23(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    {
        let s = special();
        let r = [3, s.len(), s.len()];
        v.push(space("propagation-pairs", product(&r), move |ix, rec| {
            let [k, e, t] = digits(ix, r);
            check_propagation(k, s[e], s[t], rec)
        }));
    }
    {
        // every magnitude, in either place
        let mants: Vec<u64> = if thorough { (0..52).flat_map(|b| [1u64 << b, (1 << b) - 1, (1 << 52) - (1 << b)]).collect() } else { vec![0, 1, (1 << 52) - 1, 0x5555555555555, 0x123456789abcd, 1 << 51] };
        let r = [3, 2048, mants.len(), 2, 2];
        v.push(space("propagation-magnitudes", product(&r), move |ix, rec| {
            let [k, p, m, sign, which] = digits(ix, r);
            let x = f64::from_bits((sign as u64) << 63 | (p as u64) << 52 | mants[m]);
            if which == 0 {
                check_propagation(k, x, -1234.5, rec)
            } else {
                check_propagation(k, 1.25, x, rec)
            }
        }));
    }
    {
        let r = [2048, 6, 2];
        v.push(space("epoch-eccentricities", product(&r), move |ix, rec| {
            let [p, m, sign] = digits(ix, r);
            check_epoch(f64::from_bits((sign as u64) << 63 | (p as u64) << 52 | [0, 1, (1 << 52) - 1, 0x5555555555555, 0x123456789abcd, 1 << 51][m]), rec)
        }));
    }
    v.push(space("element-errors", 1, |ix, rec| {
        let kozai = [sgp4::KozaiElementsError::NegativeKozaiMeanMotion, sgp4::KozaiElementsError::NegativeBrouwerMeanMotion];
        let mut texts = vec![shown(sgp4::OutOfRangeEpochEccentricity(1.0))?];
        for k in kozai {
            let inner = shown(&k)?;
            let outer = shown(sgp4::ElementsError::from(k))?;
            if inner != outer {
                return Err(format!("{inner:?} prints as {outer:?} when wrapped"));
            }
            texts.push(inner);
        }
        rec.op(3);
        rec.trace(1);
        rec.state(ix);
        rec.class("distinct");
        rec.sample(|| format!("{texts:?}"));
        for a in 0..3 {
            for b in 0..a {
                if texts[a] == texts[b] {
                    return Err(format!("two kinds of errors print {:?}", texts[a]));
                }
            }
        }
        Ok(())
    }));
    {
        // refused elements print the value they were given
        let s = special();
        let r = [s.len(), 2, 2];
        v.push(space("refused-elements", product(&r), move |ix, rec| {
            let [e, m, afspc] = digits(ix, r);
            let mut x = crate::orb::template();
            x.eccentricity = s[e];
            x.mean_motion *= [1.0, -1.0][m];
            let made = guard(|| if afspc == 1 { sgp4::Constants::from_elements_afspc_compatibility_mode(&x) } else { sgp4::Constants::from_elements(&x) }).map_err(|p| format!("panicked: {p}; {x:?}"))?;
            rec.op(1);
            rec.trace(1);
            rec.state(ix);
            match made {
                Ok(_) => rec.class("accepted"),
                Err(error) => {
                    let outer = shown(&error)?;
                    rec.class("refused");
                    rec.sample(|| outer.clone());
                    let inner = match &error {
                        sgp4::ElementsError::KozaiElementsError(k) => shown(k)?,
                        sgp4::ElementsError::OutOfRangeEpochEccentricity(k) => {
                            states(&outer, s[e], Some("eccentricity"), None)?;
                            shown(k)?
                        }
                    };
                    if inner != outer {
                        return Err(format!("{inner:?} prints as {outer:?} when wrapped"));
                    }
                }
            }
            Ok(())
        }));
    }
    {
        // dates too far apart
        let es = crate::tim::epochs14();
        let r = [es.len(), es.len(), 40, 11];
        v.push(space("dates", product(&r), move |ix, rec| {
            let [e, f, days, part] = digits(ix, r);
            let mut x = crate::orb::template();
            x.datetime = es[e];
            let off = chrono::Duration::days(days as i64 * 37) + chrono::Duration::nanoseconds([0, 1, 10, 999_999_999, 1_000, 500_000_000, 120_000_000, 1_000_000, 59_000_000_000, 3_600_000_000_000, 123_456_789][part]);
            let Some(when) = es[f].checked_add_signed(off) else {
                rec.class("no-such-date");
                return Ok(());
            };
            let got = guard(|| x.datetime_to_minutes_since_epoch(&when)).map_err(|p| format!("panicked: {p}; {} {when}", x.datetime))?;
            rec.op(1);
            let Err(error) = got else {
                rec.class("converted");
                return Ok(());
            };
            let s = shown(error)?;
            rec.trace(1);
            rec.state(Hash::new().s(s.as_bytes()).0);
            rec.class("too-far");
            rec.sample(|| s.clone());
            let (Some(a), Some(b)) = (place(&s, &when), place(&s, &x.datetime)) else {
                return Err(format!("{when} or {} is missing in {s:?}", x.datetime));
            };
            if s.contains(" - ") && a > b {
                return Err(format!("{s:?} for {when} since {}", x.datetime));
            }
            Ok(())
        }));
    }
    {
        // minutes too large, and sums which are no date
        let es = crate::tim::epochs14();
        let r = [es.len(), 2048, 6, 2];
        v.push(space("minutes", product(&r), move |ix, rec| {
            let [e, p, m, sign] = digits(ix, r);
            let t = f64::from_bits((sign as u64) << 63 | (p as u64) << 52 | [0, 1, (1 << 52) - 1, 0x5555555555555, 0x123456789abcd, 1 << 51][m]);
            let mut x = crate::orb::template();
            x.datetime = es[e];
            let got = guard(|| x.minutes_since_epoch_to_datetime(&MinutesSinceEpoch(t))).map_err(|p| format!("panicked: {p}; {} {t:?}", x.datetime))?;
            rec.op(1);
            let Err(error) = got else {
                rec.class("converted");
                return Ok(());
            };
            let s = shown(&error)?;
            rec.trace(1);
            rec.state(Hash::new().s(s.as_bytes()).0);
            rec.sample(|| s.clone());
            use sgp4::MinutesSinceEpochToDatetimeError::*;
            match error {
                MinutesToNanoseconds(held) => {
                    rec.class("too-many-minutes");
                    if !same(held, t) {
                        return Err(format!("{t:?} minutes reported as {held:?}"));
                    }
                    states(&s, t, None, None)
                }
                Add { datetime, duration } => {
                    rec.class("no-such-sum");
                    if datetime != x.datetime || (duration.num_seconds() as f64 - t * 60.0).abs() > 2.0 + 1e-12 * (t * 60.0).abs() {
                        return Err(format!("{} plus {t:?} minutes reported as {datetime} plus {duration}", x.datetime));
                    }
                    let (Some(a), Some(b)) = (place(&s, &datetime), s.find(&format!("{duration}"))) else {
                        return Err(format!("{datetime} or {duration} is missing in {s:?}"));
                    };
                    if s.contains(" + ") && a > b {
                        return Err(format!("{s:?} for {datetime} plus {duration}"));
                    }
                    Ok(())
                }
            }
        }));
    }
    {
        // pairs of malformed TLEs: same wording exactly for the same kind of defect
        let r = [KINDS.len(), 2, KINDS.len(), 2];
        v.push(space("tle-kinds", product(&r), move |ix, rec| {
            let [k, a, l, b] = digits(ix, r);
            let (Some((p, q)), Some((s, t))) = (broken(k, a), broken(l, b)) else {
                rec.class("not-applicable");
                return Ok(());
            };
            let error = |p: &[u8], q: &[u8]| match guard(|| Elements::from_tle(None, p, q).map_err(|e| (format!("{e}"), located(&e)))) {
                Err(m) => Err(format!("panicked: {m}; {p:?} {q:?}")),
                Ok(Ok(x)) => Err(format!("malformed lines accepted: {x:?}")),
                Ok(Err(e)) => Ok(e),
            };
            let (first, (_, line, columns)) = error(&p, &q)?;
            let (second, _) = error(&s, &t)?;
            rec.op(2);
            rec.trace(1);
            rec.state(ix);
            rec.class(if k == l { "same-kind" } else { "different-kinds" });
            rec.sample(|| format!("{first:?} {second:?}"));
            if k != 3 && (line != Some(["Line1", "Line2"][a]) || columns.is_none()) {
                return Err(format!("{first:?} for a defect on line {}", a + 1));
            }
            // where the defect is (a wrong length and an impossible date have no place of their own)
            let at = match (k, a) {
                (1, _) => 0..1,
                (2, 0) => 8..9,
                (2, _) => 7..8,
                (3, _) => 2..7,
                (4, _) => 7..8,
                (5, _) => 68..69,
                (6, _) => 6..7,
                (7, 0) => 42..43,
                (7, _) => 15..16,
                (8, 0) => 58..59,
                (8, _) => 32..33,
                (10, _) => 12..13,
                _ => 0..0,
            };
            if columns.is_some_and(|(from, to)| at.start < from || at.end > to) && !at.is_empty() {
                return Err(format!("{first:?} for a defect at {at:?}"));
            }
            if (wording(&first) == wording(&second)) != (k == l) {
                return Err(format!("{} and {} print {first:?} and {second:?}", KINDS[k], KINDS[l]));
            }
            Ok(())
        }));
    }
    v
}
