//! Checks on OMM decoding, epochs, conversions between minutes and dates, and sidereal time.
use crate::engine::*;
use crate::refm;
use crate::txt::{self, days_from_civil, epoch_error, finite, omm, JSON_VALUES, OMM};
use sgp4::chrono::{self, Datelike, Timelike};
use sgp4::{Elements, MinutesSinceEpoch};

const PI2: f64 = 2.0 * std::f64::consts::PI;

// ------------------------------------------------------------------------------------------------ C12

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Float,
    Long,
    Byte,
}

/// numeric OMM fields: position in the table and kind
const NUMERIC: [(usize, Kind); 13] = [
    (3, Kind::Float), (4, Kind::Float), (5, Kind::Float), (6, Kind::Float), (7, Kind::Float), (8, Kind::Float), (14, Kind::Float), (15, Kind::Float), (16, Kind::Float), (9, Kind::Byte), (11, Kind::Long), (12, Kind::Long), (13, Kind::Long),
];

fn float_of(x: &Elements, f: usize) -> f64 {
    match f {
        3 => x.mean_motion,
        4 => x.eccentricity,
        5 => x.inclination,
        6 => x.right_ascension,
        7 => x.argument_of_perigee,
        8 => x.mean_anomaly,
        14 => x.drag_term,
        15 => x.mean_motion_dot,
        _ => x.mean_motion_ddot,
    }
}

fn long_of(x: &Elements, f: usize) -> u64 {
    match f {
        9 => x.ephemeris_type as u64,
        11 => x.norad_id,
        12 => x.element_set_number,
        _ => x.revolution_number,
    }
}

fn decode(text: &str) -> Result<Result<Elements, String>, String> {
    guard(|| serde_json::from_str::<Elements>(text).map_err(|e| e.to_string())).map_err(|p| format!("panicked: {p}; {text}"))
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-15 * b.abs().max(1e-300)
}

/// every field but one is what the table says
fn others(x: &Elements, except: usize) -> Option<String> {
    for (f, k) in NUMERIC {
        if f == except {
            continue;
        }
        let v = OMM[f].1;
        let bad = match k {
            Kind::Float => !close(float_of(x, f), v.parse().unwrap()),
            _ => long_of(x, f) != v.parse::<u64>().unwrap(),
        };
        if bad {
            return Some(format!("{} is not {v} in {x:?}", OMM[f].0));
        }
    }
    if except != 0 && x.object_name.as_deref() != Some("ISS (ZARYA)") {
        return Some(format!("name in {x:?}"));
    }
    if except != 1 && x.international_designator.as_deref() != Some("1998-067A") {
        return Some(format!("designator in {x:?}"));
    }
    if except != 10 && txt::class_of(&x.classification) != 'U' {
        return Some(format!("classification in {x:?}"));
    }
    if except != 2 && epoch_error(x, (2008, 264, 44_740_104_192_000)) != 0 {
        return Some(format!("epoch in {x:?}"));
    }
    None
}

enum Want {
    Value(f64, u64),
    MayRefuse(f64, u64),
    Refuse,
}

/// what a JSON value (its text) means for a field
fn meaning(kind: Kind, json: &str) -> Want {
    let quoted = json.len() >= 2 && json.starts_with('"');
    let t = json.trim_matches('"');
    let json_number = serde_json::from_str::<serde_json::Number>(t).is_ok();
    if !quoted && !json_number {
        return Want::Refuse;
    }
    match kind {
        Kind::Float => match t.parse::<f64>() {
            Ok(v) if v.is_finite() => {
                if json_number { Want::Value(v, 0) } else { Want::MayRefuse(v, 0) }
            }
            // surrounding blanks or other spellings of a finite number may be tolerated
            _ => match t.trim().parse::<f64>() {
                Ok(v) if v.is_finite() => Want::MayRefuse(v, 0),
                _ => Want::Refuse,
            },
        },
        Kind::Long | Kind::Byte => {
            let max = if kind == Kind::Byte { 255 } else { u64::MAX };
            if !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit()) {
                return match t.parse::<u64>() {
                    Ok(v) if v <= max => Want::Value(0.0, v),
                    _ => Want::Refuse,
                };
            }
            // other spellings of an integer may be tolerated
            match t.trim().parse::<f64>() {
                Ok(v) if v >= 0.0 && v.fract() == 0.0 && v <= max as f64 && v < 9e15 => Want::MayRefuse(0.0, v as u64),
                _ => Want::Refuse,
            }
        }
    }
}

fn numeric(f: usize, kind: Kind, json: &str, rec: &mut Rec) -> Result<(), String> {
    let mut o = OMM;
    o[f].1 = json;
    let text = omm(&o);
    let r = decode(&text)?;
    rec.op(1);
    rec.trace(1);
    rec.state(Hash::new().u(f as u64).s(json.as_bytes()).0);
    rec.sample(|| format!("{}: {json} -> {:?}", OMM[f].0, r.as_ref().map(|x| if kind == Kind::Float { float_of(x, f).to_string() } else { long_of(x, f).to_string() })));
    let (must, fv, lv) = match meaning(kind, json) {
        Want::Refuse => {
            rec.class("refused");
            return match r {
                Ok(x) => Err(format!("{} = {json} is accepted as {x:?}", OMM[f].0)),
                Err(_) => Ok(()),
            };
        }
        Want::Value(v, u) => (true, v, u),
        Want::MayRefuse(v, u) => (false, v, u),
    };
    match r {
        Err(e) if must => Err(format!("{} = {json} is refused: {e}", OMM[f].0)),
        Err(_) => {
            rec.class("tolerated-spelling-refused");
            Ok(())
        }
        Ok(x) => {
            rec.class("read");
            let good = if kind == Kind::Float { close(float_of(&x, f), fv) } else { long_of(&x, f) == lv };
            if !good || !finite(&x) {
                return Err(format!("{} = {json} is read as {x:?}", OMM[f].0));
            }
            match others(&x, f) {
                Some(d) => Err(format!("with {} = {json}: {d}", OMM[f].0)),
                None => Ok(()),
            }
        }
    }
}

fn elements_differ(a: &Elements, b: &Elements) -> Option<String> {
    let same = a.object_name == b.object_name
        && a.international_designator == b.international_designator
        && txt::class_of(&a.classification) == txt::class_of(&b.classification)
        && (a.datetime.and_utc().timestamp() as i128 * 1_000_000_000 + a.datetime.nanosecond() as i128 - b.datetime.and_utc().timestamp() as i128 * 1_000_000_000 - b.datetime.nanosecond() as i128).abs() <= 5
        && NUMERIC.iter().all(|(f, k)| if *k == Kind::Float { close(float_of(a, *f), float_of(b, *f)) } else { long_of(a, *f) == long_of(b, *f) });
    if same { None } else { Some(format!("{a:?} is not {b:?}")) }
}

const ROUND_FLOATS: [f64; 14] = [0.0, -0.0, 1.0, -1.5, 0.1, 1.0 / 3.0, 1e-300, 5e-324, -1e300, f64::MAX, 1e15, 123456789.12345679, -2.182e-5, 4503599627370497.5];
const ROUND_LONGS: [u64; 12] = [0, 1, 9, 255, 256, 65535, 65536, 99999, u32::MAX as u64 + 1, (1 << 53) + 1, i64::MAX as u64 + 1, u64::MAX];
const ROUND_DATES: [(i32, u32, u32, u32); 16] = [
    (2008, 264, 44740, 104192000), (2008, 264, 44740, 1), (2008, 264, 44740, 999_999_999), (2008, 264, 44740, 120_000_000), (2008, 264, 44740, 1_000), (2008, 264, 0, 0), (2008, 264, 86399, 999_999_999), (2008, 264, 60, 0),
    (2008, 264, 3600, 0), (2000, 366, 43200, 0), (1999, 365, 86399, 500_000), (1957, 277, 1, 0), (1, 1, 0, 0), (9999, 365, 0, 0), (2100, 59, 1, 123_456_789), (1900, 60, 86340, 10),
];
const ROUND_FIELDS: usize = 17;
const ROUND_VALUES: usize = 16;

/// sets a field to one of a few values
fn set_field(x: &mut Elements, field: usize, k: usize) {
    let (float, long) = (ROUND_FLOATS[k % ROUND_FLOATS.len()], ROUND_LONGS[k % ROUND_LONGS.len()]);
    let text = [None, Some(""), Some("A"), Some(" padded "), Some("Ünïcode 衛星"), Some("\"\\/\t\n\u{0}"), Some("null"), Some("0")][k % 8].map(|s| s.to_string());
    match field {
        0 => x.object_name = text,
        1 => x.international_designator = text,
        2 => {
            let (y, d, seconds, nanos) = ROUND_DATES[k % ROUND_DATES.len()];
            x.datetime = chrono::NaiveDate::from_yo_opt(y, d).unwrap().and_time(chrono::NaiveTime::from_num_seconds_from_midnight_opt(seconds, nanos).unwrap());
        }
        3 => x.mean_motion = float,
        4 => x.eccentricity = float,
        5 => x.inclination = float,
        6 => x.right_ascension = float,
        7 => x.argument_of_perigee = float,
        8 => x.mean_anomaly = float,
        9 => x.ephemeris_type = long.min(255) as u8,
        10 => x.classification = [sgp4::Classification::Unclassified, sgp4::Classification::Classified, sgp4::Classification::Secret][k % 3].clone(),
        11 => x.norad_id = long,
        12 => x.element_set_number = long,
        13 => x.revolution_number = long,
        14 => x.drag_term = float,
        15 => x.mean_motion_dot = float,
        _ => x.mean_motion_ddot = float,
    }
}

/// elements of which two fields are set to extreme values, serialised and read back in three ways
pub fn serialised_elements() -> Space {
    let r = [ROUND_FIELDS, ROUND_FIELDS, ROUND_VALUES, ROUND_VALUES, 3];
    space("serialised-elements", product(&r), move |ix, rec| {
        let [f, g, k, l, way] = digits(ix, r);
        if g < f {
            return Ok(());
        }
        let mut x = crate::orb::template();
        set_field(&mut x, f, k);
        set_field(&mut x, g, l);
        let y: Elements = guard(|| match way {
            0 => serde_json::from_value(serde_json::to_value(&x)?),
            1 => serde_json::from_str(&serde_json::to_string(&x)?),
            _ => serde_json::from_slice(&serde_json::to_vec_pretty(&x)?),
        })
        .map_err(|p| format!("panicked: {p}; {x:?}"))?
        .map_err(|e| format!("round trip refused: {e}; {x:?}"))?;
        rec.op(2);
        rec.trace(1);
        rec.state(ix);
        rec.class("round-trip");
        let exact = way > 0 || NUMERIC.iter().all(|(f, k)| *k != Kind::Float || float_of(&x, *f).to_bits() == float_of(&y, *f).to_bits());
        match elements_differ(&x, &y) {
            None if exact && x.datetime == y.datetime => Ok(()),
            _ => Err(format!("{x:?} is read back as {y:?}")),
        }
    })
}

/// a JSON string literal
fn quote(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub fn c12(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    {
        let r = [NUMERIC.len(), JSON_VALUES.len(), 2];
        v.push(space("value-kinds", product(&r), move |ix, rec| {
            let [f, w, quoted] = digits(ix, r);
            let (f, kind) = NUMERIC[f];
            let t = JSON_VALUES[w];
            if quoted == 1 {
                // the same characters in a string
                if t.contains(['"', '\\', '{', '[']) {
                    return Ok(());
                }
                return numeric(f, kind, &format!("\"{t}\""), rec);
            }
            numeric(f, kind, t, rec)
        }));
    }
    v.push(space("bytes", 70_000 * 2, |ix, rec| {
        let k = ix / 2;
        numeric(9, Kind::Byte, &if ix % 2 == 0 { format!("{k}") } else { format!("\"{k}\"") }, rec)
    }));
    {
        let n = if thorough { 1_000_000 } else { 100_000 };
        let r = [n as usize, 3, 2];
        v.push(space("integers", product(&r), move |ix, rec| {
            let [k, f, q] = digits(ix, r);
            let f = [11, 12, 13][f];
            numeric(f, Kind::Long, &if q == 0 { format!("{k}") } else { format!("\"{k}\"") }, rec)
        }));
        let r = [130, 5, 4, 2, 2];
        v.push(space("powers-of-two", product(&r), move |ix, rec| {
            let [k, d, f, q, s] = digits(ix, r);
            let f = [9, 11, 12, 13][f];
            let x = 1u128 << (k % 70);
            let t = format!("{}{}", if s == 1 { "-" } else { "" }, (x + d as u128).saturating_sub(2));
            numeric(f, if f == 9 { Kind::Byte } else { Kind::Long }, &if q == 0 { t } else { format!("\"{t}\"") }, rec)
        }));
    }
    {
        // decimals as published: sign, 0 to 8 decimals, exponents
        let n = if thorough { 400_000 } else { 40_000 };
        let r = [n, 9, 2, 2];
        v.push(space("decimals", product(&r), move |ix, rec| {
            let [k, f, q, s] = digits(ix, r);
            let (f, kind) = NUMERIC[f];
            let k = k as u64 * 7919;
            let t = match k % 4 {
                0 => format!("{}.{:04}", k % 360, k % 10_000),
                1 => format!("0.{:08}", k % 100_000_000),
                2 => format!("{}.{:05}E-{}", k % 10, k % 100_000, k % 12),
                _ => format!("{}e{}", k, k % 300),
            };
            let t = if s == 1 { format!("-{t}") } else { t };
            numeric(f, kind, &if q == 0 { t } else { format!("\"{t}\"") }, rec)
        }));
    }
    // number and string forms in every combination of fields
    v.push(space("forms", 1 << 13, |ix, rec| {
        let quoted: Vec<String> = OMM.iter().map(|(_, t)| format!("\"{t}\"")).collect();
        let mut o = OMM;
        for (k, (f, _)) in NUMERIC.iter().enumerate() {
            if ix >> k & 1 == 1 {
                o[*f].1 = &quoted[*f];
            }
        }
        let text = omm(&o);
        let r = decode(&text)?;
        rec.op(1);
        rec.trace(1);
        rec.state(ix);
        rec.class("read");
        match r {
            Err(e) => Err(format!("refused: {e}; {text}")),
            Ok(x) => match others(&x, usize::MAX) {
                Some(d) => Err(format!("{d}; {text}")),
                None => Ok(()),
            },
        }
    }));
    // order of fields, missing fields, extra fields
    {
        let r = [17, 17];
        v.push(space("field-order", product(&r), move |ix, rec| {
            let [a, b] = digits(ix, r);
            let mut o = OMM.to_vec();
            o.swap(a, b);
            o.rotate_left((a + b) % 17);
            let text = omm(&o);
            let r = decode(&text)?;
            rec.op(1);
            rec.trace(1);
            rec.state(Hash::new().s(text.as_bytes()).0);
            rec.class("read");
            match r {
                Err(e) => Err(format!("refused: {e}; {text}")),
                Ok(x) => others(&x, usize::MAX).map_or(Ok(()), |d| Err(format!("{d}; {text}"))),
            }
        }));
        v.push(space("missing-fields", 17, move |ix, rec| {
            let mut o = OMM.to_vec();
            o.remove(ix as usize);
            let text = omm(&o);
            let r = decode(&text)?;
            rec.op(1);
            rec.trace(1);
            rec.state(ix);
            match r {
                Err(_) if ix < 2 => {
                    rec.class("refused");
                    Ok(())
                }
                Ok(x) if ix < 2 => {
                    rec.class("absent");
                    let gone = if ix == 0 { x.object_name.is_none() } else { x.international_designator.is_none() };
                    if gone { others(&x, ix as usize).map_or(Ok(()), Err) } else { Err(format!("a missing text became {x:?}")) }
                }
                Err(_) => {
                    rec.class("refused");
                    Ok(())
                }
                Ok(x) => Err(format!("a missing {} is accepted as {x:?}", OMM[ix as usize].0)),
            }
        }));
        const EXTRA: [&str; 48] = [
            "object_name", "international_designator", "norad_id", "classification", "datetime", "mean_motion_dot", "mean_motion_ddot", "drag_term", "element_set_number", "inclination", "right_ascension", "eccentricity", "argument_of_perigee", "mean_anomaly",
            "revolution_number", "ephemeris_type", "Epoch", "epoch", "Bstar", "bstar", "B_STAR", "BSTAR ", " BSTAR", "NORAD_CAT_NO", "norad_cat_id", "noradCatId", "meanMotion", "RAAN", "raOfAscNode", "object_id", "INTLDES", "OBJECT_NUMBER", "SATNAME", "NAME",
            "CCSDS_OMM_VERS", "COMMENT", "CREATION_DATE", "ORIGINATOR", "CENTER_NAME", "REF_FRAME", "TIME_SYSTEM", "MEAN_ELEMENT_THEORY", "SEMIMAJOR_AXIS", "PERIOD", "TLE_LINE1", "mean_motion", "EPOCH2", "",
        ];
        const VALUES: [&str; 8] = ["\"2.0\"", "null", "1.5", "[1,2,{\"EPOCH\":3}]", "{\"MEAN_MOTION\":1}", "true", "\"\"", "-1e300"];
        let r = [EXTRA.len(), VALUES.len(), 18];
        v.push(space("extra-fields", product(&r), move |ix, rec| {
            let [e, w, p] = digits(ix, r);
            let mut o = OMM.to_vec();
            o.insert(p, (EXTRA[e], VALUES[w]));
            let text = omm(&o);
            let r = decode(&text)?;
            rec.op(1);
            rec.trace(1);
            rec.state(Hash::new().s(text.as_bytes()).0);
            rec.class("read");
            match r {
                Err(e) => Err(format!("refused: {e}; {text}")),
                Ok(x) => others(&x, usize::MAX).map_or(Ok(()), |d| Err(format!("{d}; {text}"))),
            }
        }));
    }
    // texts
    {
        let texts: Vec<String> = vec![
            "".into(), "ISS (ZARYA)".into(), " padded ".into(), "Ünïcode 衛星".into(), "quote\" back\\slash\ttab\nnewline".into(), "\u{0}".into(), "5".into(), "null".into(), "x".repeat(5000), "1998-067A".into(),
        ];
        let n = texts.len() + 1;
        let r = [2, n + txt::names() as usize];
        v.push(space("texts", product(&r), move |ix, rec| {
            let [f, w] = digits(ix, r);
            let name = if w < n {
                texts.get(w).cloned()
            } else {
                match txt::name((w - n) as u64) {
                    None => return Ok(()),
                    name => name,
                }
            };
            let json = name.as_ref().map_or("null".to_string(), |name| quote(name));
            let mut o = OMM;
            o[f].1 = &json;
            let r = decode(&omm(&o))?;
            rec.op(1);
            rec.trace(1);
            rec.state(ix);
            rec.class("read");
            let x = r.map_err(|e| format!("{} = {json} is refused: {e}", OMM[f].0))?;
            let got = if f == 0 { &x.object_name } else { &x.international_designator };
            if *got != name {
                return Err(format!("{} = {json} is read as {got:?}", OMM[f].0));
            }
            others(&x, f).map_or(Ok(()), Err)
        }));
        // every one-byte and some longer classifications
        v.push(space("classifications", 128 + JSON_VALUES.len() as u64, |ix, rec| {
            let json = if ix < 128 { quote(&(ix as u8 as char).to_string()) } else { JSON_VALUES[ix as usize - 128].to_string() };
            let mut o = OMM;
            o[10].1 = &json;
            let r = decode(&omm(&o))?;
            rec.op(1);
            rec.trace(1);
            rec.state(ix);
            let want = ["\"U\"", "\"C\"", "\"S\""].iter().find(|w| **w == json).map(|w| w.as_bytes()[1] as char);
            rec.class(if want.is_some() { "read" } else { "refused" });
            match (want, r) {
                (None, Err(_)) => Ok(()),
                (None, Ok(x)) => Err(format!("classification {json} is read as {:?}", x.classification)),
                (Some(_), Err(e)) => Err(format!("classification {json} is refused: {e}")),
                (Some(w), Ok(x)) => if txt::class_of(&x.classification) == w { others(&x, 10).map_or(Ok(()), Err) } else { Err(format!("classification {json} is read as {:?}", x.classification)) },
            }
        }));
    }
    // epochs: every day of a century, several times of day and numbers of decimals
    {
        const TIMES: [(&str, u64); 10] = [
            ("00:00:00", 0), ("00:00:00.000001", 1_000), ("12:00:00", 43_200_000_000_000), ("23:59:59", 86_399_000_000_000), ("23:59:59.999999", 86_399_999_999_000), ("23:59:59.999999999", 86_399_999_999_999), ("12:25:40.104192", 44_740_104_192_000), ("01:02:03.4", 3_723_400_000_000), ("06:30:00.000000001", 23_400_000_000_001), ("17:08:09.500", 61_689_500_000_000),
        ];
        let first = days_from_civil(1957, 1, 1);
        let last = days_from_civil(2057, 1, 1);
        let r = [(last - first) as usize, TIMES.len()];
        v.push(space("epochs", product(&r), move |ix, rec| {
            let [d, t] = digits(ix, r);
            let date = chrono::DateTime::from_timestamp((first + d as i64) * 86400, 0).unwrap().naive_utc();
            let mut o = OMM;
            let json = format!("\"{:04}-{:02}-{:02}T{}\"", date.year(), date.month(), date.day(), TIMES[t].0);
            o[2].1 = &json;
            let r = decode(&omm(&o))?;
            rec.op(1);
            rec.trace(1);
            rec.state(ix);
            rec.class("read");
            let x = r.map_err(|e| format!("epoch {json} is refused: {e}"))?;
            let ord = (first + d as i64 - days_from_civil(date.year(), 1, 1)) as u32 + 1;
            if epoch_error(&x, (date.year(), ord, TIMES[t].1)) != 0 {
                return Err(format!("epoch {json} is read as {}", x.datetime));
            }
            others(&x, 2).map_or(Ok(()), Err)
        }));
    }
    v.push(serialised_elements());
    // the same values stated by a TLE, by an OMM, and after a round trip
    v.push(space("tle-omm-round-trip", 1 << 16, |ix, rec| {
        let (mut c, _) = txt::base();
        let b = |k: u32| ix >> k & 1 == 1;
        let mut o: Vec<(&str, String)> = OMM.iter().map(|(k, t)| (*k, t.to_string())).collect();
        o[0].1 = "null".into();
        macro_rules! alt {
            ($k:expr, $field:ident, $text:expr, $at:expr, $value:expr) => {
                if b($k) {
                    c.$field = txt::text($text);
                    o[$at].1 = $value.to_string();
                }
            };
        }
        alt!(0, norad1, "00005", 11, "5");
        if b(0) {
            c.norad2 = txt::text("    5");
        }
        if b(1) {
            c.class = b'C';
            o[10].1 = "\"C\"".into();
        }
        alt!(2, designator, "57001ABC", 1, "\"1957-001ABC\"");
        // half a day has an exact time
        alt!(3, day, "366.50000000", 2, "\"2008-12-31T12:00:00\"");
        alt!(4, dot, "+.99999999", 15, "\"0.99999999\"");
        alt!(5, ddot, "-98765+3", 16, "-987.65");
        alt!(6, drag, "+99999-9", 14, "9.9999e-10");
        if b(7) {
            c.ephemeris = b'7';
            o[9].1 = "\"7\"".into();
        }
        alt!(8, set, "9999", 12, "9999");
        alt!(9, inclination, "179.9999", 5, "179.9999");
        alt!(10, node, "  0.0001", 6, "\"0.0001\"");
        alt!(11, eccentricity, "9999999", 4, "0.9999999");
        alt!(12, perigee, "  9.8765", 7, "9.8765");
        alt!(13, anomaly, "359.9999", 8, "359.9999");
        alt!(14, motion, " 1.00273790", 3, "1.0027379");
        alt!(15, revolution, "    7", 13, "7");
        let (l1, l2) = c.lines();
        let x = guard(|| Elements::from_tle(None, &l1, &l2)).map_err(|p| format!("panicked: {p}"))?.map_err(|e| format!("{e}"))?;
        let f: Vec<(&str, &str)> = o.iter().map(|(k, t)| (*k, t.as_str())).collect();
        let text = omm(&f);
        let y = decode(&text)?.map_err(|e| format!("{e}; {text}"))?;
        rec.op(4);
        rec.trace(2);
        rec.state(ix);
        rec.class("same");
        if let Some(d) = elements_differ(&x, &y) {
            return Err(format!("TLE and OMM differ: {d}; {text}"));
        }
        for e in [&x, &y] {
            let text = guard(|| serde_json::to_string(e)).map_err(|p| format!("panicked: {p}"))?.map_err(|e| format!("{e}"))?;
            let z = decode(&text)?.map_err(|e| format!("{e}; {text}"))?;
            if let Some(d) = elements_differ(e, &z) {
                return Err(format!("round trip: {d}; {text}"));
            }
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C13

fn datetime(day: i64, ns: u64) -> chrono::NaiveDateTime {
    chrono::DateTime::from_timestamp(day * 86400 + (ns / 1_000_000_000) as i64, (ns % 1_000_000_000) as u32).unwrap().naive_utc()
}

/// what rounding can do to an epoch: the standard expression is exact to a few units of the last digit of the result
fn epoch_rounding(years: f64) -> f64 {
    2e-15 + 1e-15 * years.abs()
}

pub fn c13(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let first = days_from_civil(1900, 3, 1);
    let last = days_from_civil(2100, 2, 28);
    let noon2000 = days_from_civil(2000, 1, 1);
    let times: Vec<u64> = {
        let mut t = vec![0, 1, 999_999_999, 43_199_999_999_999, 43_200_000_000_000, 43_200_000_000_001, 86_399_999_999_999, 44_740_104_192_000];
        let step = if thorough { 60 } else { 3600 };
        for k in 0..86400 / step {
            t.push(k * step * 1_000_000_000 + (k * 7919 % 1_000_000_000) * 997 % 1_000_000_000);
        }
        t
    };
    let r = [(last - first + 1) as usize, times.len()];
    v.push(space("dates", product(&r), move |ix, rec| {
        let [d, t] = digits(ix, r);
        let day = first + d as i64;
        let when = datetime(day, times[t]);
        let (a, b) = guard(|| (sgp4::julian_years_since_j2000(&when), sgp4::julian_years_since_j2000_afspc_compatibility_mode(&when))).map_err(|p| format!("panicked: {p} for {when}"))?;
        rec.op(2);
        rec.trace(2);
        if t == 0 {
            rec.state(ix);
        }
        rec.class(if day < noon2000 { "before-2000" } else { "after-2000" });
        let exact = ((day - noon2000) as f64 + (times[t] as f64 - 43_200e9) / 86_400e9) / 365.25;
        rec.sample(|| format!("{when}: {a} {b}"));
        if !((a - exact).abs() <= epoch_rounding(exact)) {
            return Err(format!("{when} is {exact} years from J2000, the standard expression gives {a}"));
        }
        if !((b - exact).abs() <= 4e-12) {
            return Err(format!("{when} is {exact} years from J2000, the AFSPC expression gives {b}"));
        }
        Ok(())
    }));
    // the methods of an element set use the same expressions
    {
        let r = [(last - first + 1) as usize / 7, 4];
        v.push(space("element-epochs", product(&r), move |ix, rec| {
            let [d, t] = digits(ix, r);
            let day = first + d as i64 * 7;
            let mut x = crate::orb::template();
            x.datetime = datetime(day, [0, 43_200_000_000_000, 44_740_104_192_000, 86_399_999_999_999][t]);
            let (a, b) = guard(|| (x.epoch(), x.epoch_afspc_compatibility_mode())).map_err(|p| format!("panicked: {p} for {}", x.datetime))?;
            rec.op(2);
            rec.trace(2);
            rec.state(ix);
            rec.class("same");
            let exact = ((day - noon2000) as f64 + ([0.0, 43_200e9, 44_740_104_192_000.0, 86_399_999_999_999.0][t] - 43_200e9) / 86_400e9) / 365.25;
            if !((a - exact).abs() <= epoch_rounding(exact) && (b - exact).abs() <= 4e-12) {
                return Err(format!("epoch of {} is {exact}, got {a} and {b}", x.datetime));
            }
            Ok(())
        }));
    }
    // every year a date can have
    {
        let (lo, hi) = (chrono::NaiveDate::MIN.year(), chrono::NaiveDate::MAX.year());
        let r = [(hi - lo + 1) as usize, if thorough { 12 } else { 3 }, 2];
        v.push(space("any-date", product(&r), move |ix, rec| {
            let [y, m, e] = digits(ix, r);
            let m = if r[1] == 12 { m + 1 } else { [1, 2, 12][m] };
            let year = lo + y as i32;
            let date = if e == 0 { chrono::NaiveDate::from_ymd_opt(year, m as u32, 1) } else { chrono::NaiveDate::from_ymd_opt(year, m as u32, 28) };
            let Some(date) = date else {
                rec.class("no-such-day");
                return Ok(());
            };
            let when = if e == 0 { date.and_hms_nano_opt(0, 0, 0, 0) } else { date.and_hms_nano_opt(23, 59, 59, 1_999_999_999) }.unwrap();
            let (a, b) = guard(|| (sgp4::julian_years_since_j2000(&when), sgp4::julian_years_since_j2000_afspc_compatibility_mode(&when))).map_err(|p| format!("panicked: {p} for {when}"))?;
            rec.op(2);
            rec.trace(1);
            rec.state(Hash::new().f(a).f(b).0);
            rec.class(if year <= 0 { "before-christ" } else { "after-christ" });
            // both keep the calendar to within its century days: one in 100 years
            let exact = (days_from_civil(year, m as u32, date.day()) - noon2000) as f64 / 365.25;
            let slack = (year.abs() as f64 / 100.0 + 30.0) / 365.25;
            if !((a - exact).abs() <= slack && (b - exact).abs() <= slack) {
                return Err(format!("{when} is {exact} years from J2000, got {a} and {b}"));
            }
            if !((a - b).abs() <= 1e-9) {
                return Err(format!("the expressions disagree for {when}: {a} and {b}"));
            }
            Ok(())
        }));
    }
    // TLE epochs: every year and day
    {
        const FRACTIONS: [u64; 6] = [0, 1, 25_000_000, 50_000_000, 51_782_528, 99_999_999];
        let r = [100, 368, 6];
        v.push(space("tle-days", product(&r), move |ix, rec| {
            let [y, d, f] = digits(ix, r);
            let year = if y < 57 { 2000 + y as i32 } else { 1900 + y as i32 };
            let length = days_from_civil(year + 1, 1, 1) - days_from_civil(year, 1, 1);
            let (mut c, _) = txt::base();
            c.year = txt::text(&format!("{y:02}"));
            c.day = txt::text(&format!("{d:03}.{:08}", FRACTIONS[f]));
            let (a, b) = c.lines();
            let x = guard(|| Elements::from_tle(None, &a, &b)).map_err(|p| format!("panicked: {p}"))?;
            rec.op(1);
            rec.trace(1);
            rec.state(ix);
            let exists = d >= 1 && d as i64 <= length;
            rec.class(if exists { "read" } else { "refused" });
            match x {
                Err(_) if !exists => Ok(()),
                Err(e) => Err(format!("day {d} of {year} is refused: {e}")),
                Ok(x) if !exists => Err(format!("day {d} of {year} is read as {}", x.datetime)),
                Ok(x) => {
                    if epoch_error(&x, (year, d as u32, FRACTIONS[f] * 864_000)).abs() > 5 {
                        return Err(format!("day {d}.{:08} of {year} is read as {}", FRACTIONS[f], x.datetime));
                    }
                    // and the epoch in years follows
                    let exact = ((days_from_civil(year, 1, 1) + d as i64 - 1 - noon2000) as f64 + FRACTIONS[f] as f64 / 1e8 - 0.5) / 365.25;
                    let (p, q) = (x.epoch(), x.epoch_afspc_compatibility_mode());
                    rec.op(2);
                    if !((p - exact).abs() <= epoch_rounding(exact) && (q - exact).abs() <= 4e-12) {
                        return Err(format!("day {d}.{:08} of {year} is {exact} years from J2000, got {p} and {q}", FRACTIONS[f]));
                    }
                    Ok(())
                }
            }
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------------ C14

fn nanos(a: &chrono::NaiveDateTime) -> i128 {
    let u = a.and_utc();
    u.timestamp() as i128 * 1_000_000_000 + u.timestamp_subsec_nanos() as i128
}

fn from_nanos(n: i128) -> Option<chrono::NaiveDateTime> {
    let s = n.div_euclid(1_000_000_000);
    chrono::DateTime::from_timestamp(i64::try_from(s).ok()?, n.rem_euclid(1_000_000_000) as u32).map(|d| d.naive_utc())
}

pub fn epochs14() -> Vec<chrono::NaiveDateTime> {
    let mut v: Vec<chrono::NaiveDateTime> = [(2008, 9, 20), (1957, 1, 1), (1969, 12, 31), (1970, 1, 1), (2000, 2, 29), (2056, 12, 31), (1677, 9, 21), (2262, 4, 11), (1, 1, 1), (-1, 12, 31)]
        .iter()
        .flat_map(|(y, m, d)| {
            let d = days_from_civil(*y, *m, *d);
            [datetime(d, 0), datetime(d, 44_740_104_192_001)]
        })
        .collect();
    v.push(chrono::NaiveDateTime::MIN);
    v.push(chrono::NaiveDateTime::MAX.with_nanosecond(999_999_999).unwrap());
    v
}

fn difference14(x: &Elements, when: &chrono::NaiveDateTime, rec: &mut Rec) -> Result<(), String> {
    let ctx = || format!("epoch {}, date {when}", x.datetime);
    let ns = nanos(when) - nanos(&x.datetime);
    let r = guard(|| x.datetime_to_minutes_since_epoch(when).map(|m| m.0).map_err(|e| format!("{e} {e:?}"))).map_err(|p| format!("panicked: {p}; {}", ctx()))?;
    rec.op(1);
    let exact = ns as f64 / 60e9;
    rec.sample(|| format!("{}: {r:?}", ctx()));
    match r {
        Err(_) => {
            rec.class("not-representable");
            rec.trace(1);
            if i64::try_from(ns).is_ok() {
                return Err(format!("refused although the difference is {ns} ns; {}", ctx()));
            }
            Ok(())
        }
        Ok(m) => {
            rec.class(if ns < 0 { "before" } else { "after" });
            rec.state(m.to_bits());
            if !((m - exact).abs() <= 4e-16 * exact.abs()) {
                return Err(format!("{m} minutes instead of {exact}; {}", ctx()));
            }
            // and back
            let b = guard(|| x.minutes_since_epoch_to_datetime(&MinutesSinceEpoch(m)).map_err(|e| format!("{e} {e:?}"))).map_err(|p| format!("panicked: {p}; {}", ctx()))?;
            rec.op(1);
            rec.trace(1);
            let slack = 5e-16 * ns.abs() as f64;
            match b {
                Err(e) => {
                    // only the precision of the minutes may push a date out of range
                    let (p, q) = (ns - slack as i128 - 1, ns + slack as i128 + 1);
                    let edge = |n: i128| i64::try_from(n).is_err() || from_nanos(nanos(&x.datetime) + n).is_none();
                    if !edge(p) && !edge(q) {
                        return Err(format!("{m} minutes do not convert back: {e}; {}", ctx()));
                    }
                    Ok(())
                }
                Ok(d) => {
                    let off = (nanos(&d) - nanos(when)).abs() as f64;
                    let allowed = if ns.abs() < 864_000_000_000_000 { 0.0 } else { slack + 1.0 };
                    if off > allowed {
                        return Err(format!("{m} minutes convert back to {d}; {}", ctx()));
                    }
                    Ok(())
                }
            }
        }
    }
}

/// m * 60e9 rounded down and up, and the distance above the floor, exactly (None if far out of range)
fn product14(m: f64) -> Option<(i128, f64)> {
    if !m.is_finite() || m.abs() > 1e12 {
        return None;
    }
    let bits = m.to_bits();
    let e = (bits >> 52 & 0x7ff) as i32;
    let mant = if e == 0 { (bits & ((1 << 52) - 1)) as i128 } else { (bits & ((1 << 52) - 1) | 1 << 52) as i128 };
    let e = e.max(1) - 1075;
    let p = mant * 60_000_000_000i128 * if m < 0.0 { -1 } else { 1 };
    if e >= 0 {
        return Some((p << e, 0.0));
    }
    if e < -100 {
        return Some((if p < 0 { -1 } else { 0 }, if p < 0 { 1.0 } else { 0.0 }));
    }
    let fl = p >> -e;
    Some((fl, (p - (fl << -e)) as f64 / 2f64.powi(-e)))
}

fn sum14(x: &Elements, m: f64, rec: &mut Rec) -> Result<(), String> {
    let ctx = || format!("epoch {}, {m:?} minutes", x.datetime);
    let r = guard(|| x.minutes_since_epoch_to_datetime(&MinutesSinceEpoch(m)).map_err(|e| format!("{e} {e:?}"))).map_err(|p| format!("panicked: {p}; {}", ctx()))?;
    rec.op(1);
    rec.trace(1);
    rec.sample(|| format!("{}: {r:?}", ctx()));
    let Some((fl, frac)) = product14(m) else {
        rec.class(if m.is_finite() { "far-out-of-range" } else { "not-finite" });
        return match r {
            Ok(d) => Err(format!("accepted as {d}; {}", ctx())),
            Err(_) => Ok(()),
        };
    };
    let slack = 2.3e-16 * fl.abs() as f64;
    match r {
        Ok(d) => {
            rec.class("converted");
            let got = nanos(&d) - nanos(&x.datetime);
            rec.state(Hash::new().u(got as u64).u(nanos(&x.datetime) as u64).0);
            let off = ((got - fl) as f64 - frac).abs();
            if off > 0.5 + slack + 1e-9 {
                return Err(format!("converted to {d}, which is {off} ns off; {}", ctx()));
            }
            Ok(())
        }
        Err(e) => {
            rec.class("not-representable");
            let edge = |n: i128| i64::try_from(n).is_err() || from_nanos(nanos(&x.datetime) + n).is_none();
            if !edge(fl - slack as i128 - 1) && !edge(fl + slack as i128 + 2) {
                return Err(format!("refused: {e}; {}", ctx()));
            }
            Ok(())
        }
    }
}

pub fn c14(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    const UNITS: [i128; 11] = [
        1, 1_000, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000, 2_592_000_000_000_000, 31_557_600_000_000_000, 3_155_760_000_000_000_000, 7,
    ];
    let es = epochs14();
    {
        let es = es.clone();
        let n = if thorough { 2000 } else { 300 };
        let r = [es.len(), UNITS.len(), n, 2, 3];
        v.push(space("differences", product(&r), move |ix, rec| {
            let [e, u, k, s, d] = digits(ix, r);
            let mut x = crate::orb::template();
            x.datetime = es[e];
            let off = (k as i128 * UNITS[u] + d as i128 - 1) * if s == 1 { -1 } else { 1 };
            match from_nanos(nanos(&x.datetime) + off) {
                None => {
                    rec.class("no-such-date");
                    Ok(())
                }
                Some(when) => difference14(&x, &when, rec),
            }
        }));
    }
    {
        // every day of 1957-2056 at some times from one epoch
        let first = days_from_civil(1957, 1, 1);
        let r = [36525, if thorough { 288 } else { 24 }];
        v.push(space("days", product(&r), move |ix, rec| {
            let [d, t] = digits(ix, r);
            let x = crate::orb::template();
            let when = datetime(first + d as i64, t as u64 * (86_400_000_000_000 / r[1] as u64) + (ix * 7919) % 1_000_000_007);
            difference14(&x, &when, rec)
        }));
    }
    {
        // around the limits of representable differences and dates
        let es = es.clone();
        let r = [es.len(), es.len(), 4001];
        v.push(space("limits", product(&r), move |ix, rec| {
            let [e, f, k] = digits(ix, r);
            let mut x = crate::orb::template();
            x.datetime = es[e];
            let k = k as i128 - 2000;
            // far dates: the other epochs; near the limits of 64-bit nanoseconds
            let base = match f % 3 {
                0 => nanos(&es[f]) - nanos(&x.datetime),
                1 => i64::MAX as i128,
                _ => i64::MIN as i128,
            };
            match from_nanos(nanos(&x.datetime) + base + k) {
                None => {
                    rec.class("no-such-date");
                    Ok(())
                }
                Some(when) => difference14(&x, &when, rec),
            }
        }));
    }
    {
        // minutes of every magnitude
        let es = es.clone();
        let mants: Vec<u64> = {
            let mut m: Vec<u64> = (0..52).map(|b| 1u64 << b).collect();
            m.extend((0..52).map(|b| (1u64 << b) - 1));
            m.extend([0, (1 << 52) - 1, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x123456789abcd]);
            m
        };
        let r = [es.len(), 2048, mants.len(), 2];
        v.push(space("magnitudes", product(&r), move |ix, rec| {
            let [e, p, m, s] = digits(ix, r);
            let bits = (s as u64) << 63 | (p as u64) << 52 | mants[m];
            let mut x = crate::orb::template();
            x.datetime = es[e];
            sum14(&x, f64::from_bits(bits), rec)
        }));
    }
    {
        // fractions of nanoseconds: thousandths around whole nanoseconds
        let es = es.clone();
        let r = [es.len(), 12, if thorough { 20_001 } else { 2_001 }];
        v.push(space("fractions", product(&r), move |ix, rec| {
            let [e, s, k] = digits(ix, r);
            let start = [0.0, 1e3, -1e3, 60e9, -60e9, 3.6e12, 86.4e12, -86.4e12, 1e15, 1.5e9, -7.0, 1e12][s];
            let mut x = crate::orb::template();
            x.datetime = es[e];
            let ns = start + (k as f64 - 1000.0) / 1000.0;
            sum14(&x, ns / 60e9, rec)
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------------ C15

fn turn(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(PI2);
    d.min(PI2 - d)
}

pub fn c15(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    fn check(y: f64, rec: &mut Rec) -> Result<(), String> {
        let (a, b) = guard(|| (sgp4::iau_epoch_to_sidereal_time(y), sgp4::afspc_epoch_to_sidereal_time(y))).map_err(|p| format!("panicked: {p} for {y:?}"))?;
        rec.op(2);
        rec.trace(2);
        rec.sample(|| format!("{y} years: {a} {b}"));
        let (ra, rb) = (refm::gst_iau(y), refm::gst_afspc(y));
        for (name, x, r) in [("IAU", a, ra), ("AFSPC", b, rb)] {
            if !(x >= 0.0 && x <= PI2) {
                return Err(format!("{name} angle {x} is not in [0, 2π] at {y:?} years"));
            }
            if !(turn(x, r) <= 2e-9 * (1.0 + y.abs() / 60.0)) {
                return Err(format!("{name} angle is {x} instead of {r} at {y:?} years"));
            }
        }
        if (-50.0..=61.0).contains(&y) && !(turn(a, b) <= 1e-3 * PI2 / 360.0) {
            return Err(format!("IAU angle {a} and AFSPC angle {b} differ at {y:?} years"));
        }
        Ok(())
    }
    // whole days and times of day, 1950 to 2060
    let first = days_from_civil(1950, 1, 1) - days_from_civil(2000, 1, 1);
    let last = days_from_civil(2060, 12, 31) - days_from_civil(2000, 1, 1);
    let per = if thorough { 1440 } else { 96 };
    let r = [(last - first) as usize, per];
    v.push(space("times", product(&r), move |ix, rec| {
        let [d, t] = digits(ix, r);
        let days = (first + d as i64) as f64 - 0.5 + t as f64 / per as f64;
        if t == 0 {
            rec.state(ix);
        }
        rec.class(if days < -10957.5 { "before-1970" } else if days < 0.0 { "before-2000" } else { "after-2000" });
        check(days / 365.25, rec)?;
        // one mean solar day later the angle has advanced by one turn and 3 min 56 s
        if t % 8 == 0 {
            let step = |f: fn(f64) -> f64, h: f64| guard(|| (f((days + h) / 365.25) - f(days / 365.25)).rem_euclid(PI2)).map_err(|p| format!("panicked: {p}"));
            for h in [1.0 / 86400.0, 1.0 / 24.0, 1.0] {
                for f in [sgp4::iau_epoch_to_sidereal_time as fn(f64) -> f64, sgp4::afspc_epoch_to_sidereal_time] {
                    let a = step(f, h)?;
                    rec.op(2);
                    if turn(a, PI2 * 1.00273790935 * h) > 5e-9 {
                        return Err(format!("the angle advances by {a} in {h} days at day {days} from J2000"));
                    }
                }
            }
        }
        Ok(())
    }));
    // around midnights and noons
    let r = [(last - first) as usize, 2, 25];
    v.push(space("midnights", product(&r), move |ix, rec| {
        let [d, h, k] = digits(ix, r);
        let e = [0.0, 1e-12, 1e-11, 1e-10, 1e-9, 5e-9, 9e-9, 1e-8, 1.1e-8, 2e-8, 1e-7, 1e-6, 1e-5][if k > 12 { k - 12 } else { k }];
        let days = (first + d as i64) as f64 - 0.5 * h as f64 + if k > 12 { -e } else { e };
        rec.class("near");
        if k == 0 {
            rec.state(ix);
        }
        check(days / 365.25, rec)
    }));
    // a thousand years either way, where the higher powers weigh
    let r = [365_250 * 2 / 5, if thorough { 24 } else { 3 }];
    v.push(space("millennia", product(&r), move |ix, rec| {
        let [d, t] = digits(ix, r);
        let days = d as f64 * 5.0 - 365_250.0 + t as f64 / r[1] as f64 + 0.1;
        rec.class(if days < 0.0 { "far-before" } else { "far-after" });
        rec.state(ix);
        check(days / 365.25, rec)
    }));
    // from dates, through the epoch expressions
    let r = [(last - first) as usize, 4];
    v.push(space("from-dates", product(&r), move |ix, rec| {
        let [d, t] = digits(ix, r);
        let when = datetime(days_from_civil(2000, 1, 1) + first + d as i64, [0, 21_600_000_000_000, 43_200_000_000_000, 86_399_999_999_999][t]);
        let (a, b) = guard(|| (sgp4::julian_years_since_j2000(&when), sgp4::julian_years_since_j2000_afspc_compatibility_mode(&when))).map_err(|p| format!("panicked: {p}"))?;
        rec.op(2);
        rec.state(ix);
        rec.class("date");
        check(a, rec)?;
        check(b, rec)
    }));
    // any floats: no panic, one turn
    let r = [2048, 64, 2];
    v.push(space("any-float", product(&r), move |ix, rec| {
        let [e, m, s] = digits(ix, r);
        let y = f64::from_bits((s as u64) << 63 | (e as u64) << 52 | (1u64 << 52).wrapping_sub(1) >> m.min(52));
        let (a, b) = guard(|| (sgp4::iau_epoch_to_sidereal_time(y), sgp4::afspc_epoch_to_sidereal_time(y))).map_err(|p| format!("panicked: {p} for {y:?}"))?;
        rec.op(2);
        rec.trace(1);
        rec.state(Hash::new().f(a).f(b).0);
        rec.class("returned");
        if y.abs() < 1e3 && !(a >= 0.0 && a <= PI2 && b >= 0.0 && b <= PI2) {
            return Err(format!("angles {a} and {b} at {y:?} years"));
        }
        Ok(())
    }));
    v
}
