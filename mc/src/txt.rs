//! Checks on TLE parsing: well-formed and corrupted lines, totality, multi-record texts.
use crate::engine::*;
use sgp4::Elements;

// ------------------------------------------------------------------------------------------------ a TLE writer

/// the text of every field of a TLE, as it appears in its columns
#[derive(Clone)]
pub struct Card {
    pub norad1: [u8; 5],
    pub norad2: [u8; 5],
    pub class: u8,
    pub designator: [u8; 8],
    pub year: [u8; 2],
    pub day: [u8; 12],
    pub dot: [u8; 10],
    pub ddot: [u8; 8],
    pub drag: [u8; 8],
    pub ephemeris: u8,
    pub set: [u8; 4],
    pub inclination: [u8; 8],
    pub node: [u8; 8],
    pub eccentricity: [u8; 7],
    pub perigee: [u8; 8],
    pub anomaly: [u8; 8],
    pub motion: [u8; 11],
    pub revolution: [u8; 5],
}

pub fn text<const N: usize>(s: &str) -> [u8; N] {
    let b = s.as_bytes();
    assert!(b.len() == N, "{s:?} does not fit {N} columns");
    let mut a = [0; N];
    a.copy_from_slice(b);
    a
}

/// digits of a number, padded on the left
pub fn number<const N: usize>(mut v: u64, pad: u8) -> [u8; N] {
    let mut a = [pad; N];
    let mut k = N;
    loop {
        k -= 1;
        a[k] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 || k == 0 {
            break;
        }
    }
    a
}

/// fixed point number with D decimals, blank padded
pub fn fixed<const N: usize>(v: u64, decimals: usize) -> [u8; N] {
    let mut a = [b' '; N];
    let mut v = v;
    for k in (N - decimals..N).rev() {
        a[k] = b'0' + (v % 10) as u8;
        v /= 10;
    }
    a[N - decimals - 1] = b'.';
    let mut k = N - decimals - 1;
    loop {
        k -= 1;
        a[k] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 || k == 0 {
            break;
        }
    }
    a
}

pub fn checksum(line: &[u8]) -> u8 {
    let mut s = 0u32;
    for c in line.iter().take(68) {
        match c {
            b'0'..=b'9' => s += (c - b'0') as u32,
            b'-' => s += 1,
            _ => {}
        }
    }
    b'0' + (s % 10) as u8
}

pub type Line = [u8; 69];

impl Card {
    pub fn lines(&self) -> (Line, Line) {
        let (mut a, mut b) = ([b' '; 69], [b' '; 69]);
        a[0] = b'1';
        a[2..7].copy_from_slice(&self.norad1);
        a[7] = self.class;
        a[9..17].copy_from_slice(&self.designator);
        a[18..20].copy_from_slice(&self.year);
        a[20..32].copy_from_slice(&self.day);
        a[33..43].copy_from_slice(&self.dot);
        a[44..52].copy_from_slice(&self.ddot);
        a[53..61].copy_from_slice(&self.drag);
        a[62] = self.ephemeris;
        a[64..68].copy_from_slice(&self.set);
        b[0] = b'2';
        b[2..7].copy_from_slice(&self.norad2);
        b[8..16].copy_from_slice(&self.inclination);
        b[17..25].copy_from_slice(&self.node);
        b[26..33].copy_from_slice(&self.eccentricity);
        b[34..42].copy_from_slice(&self.perigee);
        b[43..51].copy_from_slice(&self.anomaly);
        b[52..63].copy_from_slice(&self.motion);
        b[63..68].copy_from_slice(&self.revolution);
        a[68] = checksum(&a);
        b[68] = checksum(&b);
        (a, b)
    }
}

pub fn show(line: &[u8]) -> String {
    line.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect()
}

/// what the columns of a card say
#[derive(Clone, Debug)]
pub struct Says {
    pub norad: u64,
    pub class: char,
    pub designator: Option<String>,
    /// year, day of year, nanoseconds within the day
    pub epoch: (i32, u32, u64),
    pub dot: f64,
    pub ddot: f64,
    pub drag: f64,
    pub ephemeris: u8,
    pub set: u64,
    pub inclination: f64,
    pub node: f64,
    pub eccentricity: f64,
    pub perigee: f64,
    pub anomaly: f64,
    pub motion: f64,
    pub revolution: u64,
}

pub fn base() -> (Card, Says) {
    (
        Card {
            norad1: text("25544"),
            norad2: text("25544"),
            class: b'U',
            designator: text("98067A  "),
            year: text("08"),
            day: text("264.51782528"),
            dot: text("-.00002182"),
            ddot: text(" 00000-0"),
            drag: text("-11606-4"),
            ephemeris: b'0',
            set: text(" 292"),
            inclination: text(" 51.6416"),
            node: text("247.4627"),
            eccentricity: text("0006703"),
            perigee: text("130.5360"),
            anomaly: text("325.0288"),
            motion: text("15.72125391"),
            revolution: text("56353"),
        },
        Says {
            norad: 25544,
            class: 'U',
            designator: Some("1998-067A".into()),
            epoch: (2008, 264, 51782528 * 864_000),
            dot: -0.00002182,
            ddot: 0.0,
            drag: -0.11606e-4,
            ephemeris: 0,
            set: 292,
            inclination: 51.6416,
            node: 247.4627,
            eccentricity: 0.0006703,
            perigee: 130.5360,
            anomaly: 325.0288,
            motion: 15.72125391,
            revolution: 56353,
        },
    )
}

fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-15 * b.abs()
}

pub fn class_of(c: &sgp4::Classification) -> char {
    match c {
        sgp4::Classification::Unclassified => 'U',
        sgp4::Classification::Classified => 'C',
        sgp4::Classification::Secret => 'S',
    }
}

/// nanoseconds from the start of the given year and day to the elements' epoch
pub fn epoch_error(x: &Elements, (y, d, ns): (i32, u32, u64)) -> i128 {
    let start = days_from_civil(y, 1, 1) + d as i64 - 1;
    let utc = x.datetime.and_utc();
    let got = utc.timestamp() as i128 * 1_000_000_000 + utc.timestamp_subsec_nanos() as i128;
    got - (start as i128 * 86_400_000_000_000 + ns as i128)
}

/// days since 1970-01-01 of a date of the proleptic Gregorian calendar
pub fn days_from_civil(y: i32, m: u32, d: u32) -> i64 {
    let y = y as i64 - (m <= 2) as i64;
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let mp = (m as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

/// number of fields compared by `difference`
const FIELDS: u64 = 16;

pub fn difference(x: &Elements, s: &Says) -> Option<String> {
    let f = |name: &str, a: f64, b: f64| if near(a, b) { None } else { Some(format!("{name} is {a:?} instead of {b:?}")) };
    let u = |name: &str, a: u64, b: u64| if a == b { None } else { Some(format!("{name} is {a} instead of {b}")) };
    u("catalogue number", x.norad_id, s.norad)
        .or_else(|| (class_of(&x.classification) != s.class).then(|| format!("classification is {:?} instead of {}", x.classification, s.class)))
        .or_else(|| (x.international_designator != s.designator).then(|| format!("designator is {:?} instead of {:?}", x.international_designator, s.designator)))
        .or_else(|| {
            // a day of year held as a 64-bit float resolves 5 ns
            (epoch_error(x, s.epoch).abs() > 5).then(|| format!("epoch is {} instead of {:?} (year, day, ns)", x.datetime, s.epoch))
        })
        .or_else(|| f("mean motion derivative", x.mean_motion_dot, s.dot))
        .or_else(|| f("mean motion second derivative", x.mean_motion_ddot, s.ddot))
        .or_else(|| f("drag term", x.drag_term, s.drag))
        .or_else(|| u("ephemeris type", x.ephemeris_type as u64, s.ephemeris as u64))
        .or_else(|| u("element set number", x.element_set_number, s.set))
        .or_else(|| f("inclination", x.inclination, s.inclination))
        .or_else(|| f("right ascension", x.right_ascension, s.node))
        .or_else(|| f("eccentricity", x.eccentricity, s.eccentricity))
        .or_else(|| f("argument of perigee", x.argument_of_perigee, s.perigee))
        .or_else(|| f("mean anomaly", x.mean_anomaly, s.anomaly))
        .or_else(|| f("mean motion", x.mean_motion, s.motion))
        .or_else(|| u("revolution number", x.revolution_number, s.revolution))
}

fn read(card: &Card, says: &Says, rec: &mut Rec) -> Result<(), String> {
    let (a, b) = card.lines();
    let x = guard(|| Elements::from_tle(None, &a, &b)).map_err(|p| format!("panicked: {p}; {:?} {:?}", show(&a), show(&b)))?;
    rec.trace(1);
    rec.sample(|| format!("{} | {}", show(&a), show(&b)));
    match x {
        Err(e) => Err(format!("a well-formed TLE is refused: {e}; {:?} {:?}", show(&a), show(&b))),
        Ok(x) => match difference(&x, says) {
            Some(d) => Err(format!("{d}; {:?} {:?}", show(&a), show(&b))),
            None => {
                // a step of the reader is one field read as written
                rec.op(FIELDS);
                rec.state(Hash::new().s(&a).s(&b).0);
                Ok(())
            }
        },
    }
}

fn days_in(y: i32) -> u32 {
    if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 366 } else { 365 }
}

fn century(yy: u64) -> i32 {
    if yy < 57 { 2000 + yy as i32 } else { 1900 + yy as i32 }
}

/// sign, mantissa and exponent in the notation with an assumed decimal point
fn assumed(k: u64) -> ([u8; 8], f64) {
    let (sign, k) = (k % 3, k / 3);
    let (esign, k) = (k % 2, k / 2);
    let (e, m) = (k % 10, k / 10);
    let mut a = [b' '; 8];
    a[0] = [b' ', b'-', b'+'][sign as usize];
    a[1..6].copy_from_slice(&number::<5>(m, b'0'));
    a[6] = [b'-', b'+'][esign as usize];
    a[7] = b'0' + e as u8;
    let v: f64 = format!("{}{}e{}{}", if sign == 1 { "-" } else { "" }, m, if esign == 0 { "-" } else { "" }, e)
        .parse::<f64>()
        .unwrap()
        / 1e5;
    (a, v)
}
const ASSUMED: u64 = 3 * 2 * 10 * 100_000;

/// eight decimals after the point: every upper half with some lower halves and the other way round
fn eight(k: u64) -> u64 {
    const SOME: [u64; 12] = [0, 1, 5000, 9999, 1234, 4999, 5001, 9998, 10, 100, 8765, 7];
    let (k, s) = (k / 12, k % 12);
    if k < 10_000 { k * 10_000 + SOME[s as usize] } else { SOME[s as usize] * 10_000 + (k - 10_000) }
}
const EIGHT: u64 = 20_000 * 12;

pub fn c07(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    v.push(space("catalogue-numbers", 100_000 * 3, |ix, rec| {
        let (mut c, mut s) = base();
        let (k, pad) = (ix / 3, ix % 3);
        c.norad1 = number(k, [b'0', b' ', b'0'][pad as usize]);
        c.norad2 = number(k, [b'0', b' ', b' '][pad as usize]);
        s.norad = k;
        rec.class("read");
        read(&c, &s, rec)
    }));
    v.push(space("designators", 100 * 1000 * 7 * 2 + 1, |ix, rec| {
        let (mut c, mut s) = base();
        if ix == 1_400_000 {
            c.designator = [b' '; 8];
            s.designator = None;
            rec.class("blank");
            return read(&c, &s, rec);
        }
        let [y, n, p, pad] = digits(ix, [100, 1000, 7, 2]);
        let piece = ["A  ", "B  ", "Z  ", "AB ", "ZZZ", "ABC", "   "][p];
        // the launch number is padded with zeros or with leading blanks
        let number = if pad == 0 { format!("{n:03}") } else { format!("{n:3}") };
        c.designator = text(&format!("{y:02}{number}{piece}"));
        s.designator = Some(format!("{}-{}{}", century(y as u64), number.trim_start(), piece.trim()));
        rec.class(if y < 57 { "after-2000" } else { "before-2000" });
        read(&c, &s, rec)
    }));
    const FRACTIONS: [u64; 20] = [
        0, 1, 2, 99_999_999, 99_999_998, 50_000_000, 49_999_999, 50_000_001, 51_782_528, 11_111_111, 12_345_678, 87_654_321, 33_333_333, 66_666_667, 4_166_667, 1_157, 1_158, 25_000_000, 75_000_000, 95_833_333,
    ];
    v.push(space("epoch-days", 100 * 366 * 20 * 2, |ix, rec| {
        let [y, d, f, pad] = digits(ix, [100, 366, 20, 2]);
        let year = century(y as u64);
        if d as u32 + 1 > days_in(year) {
            rec.class("no-such-day");
            return Ok(());
        }
        let (mut c, mut s) = base();
        c.year = text(&format!("{y:02}"));
        c.day = if pad == 0 { text(&format!("{:03}.{:08}", d + 1, FRACTIONS[f])) } else { text(&format!("{:3}.{:08}", d + 1, FRACTIONS[f])) };
        s.epoch = (year, d as u32 + 1, FRACTIONS[f] * 864_000);
        rec.class("read");
        read(&c, &s, rec)
    }));
    let days = [(1u64, "01"), (366, "20"), (200, "57"), (31, "56"), (9, "99")];
    if thorough {
        v.push(space("epoch-fractions", 100_000_000, |ix, rec| {
            let (mut c, mut s) = base();
            c.day = text(&format!("{:03}.{:08}", 1 + ix % 366, ix));
            s.epoch.1 = (1 + ix % 366) as u32;
            s.epoch.2 = ix * 864_000;
            let (a, b) = c.lines();
            let x = guard(|| Elements::from_tle(None, &a, &b)).map_err(|p| format!("panicked: {p}; {:?}", show(&a)))?.map_err(|e| format!("{e}; {:?}", show(&a)))?;
            rec.op(1);
            rec.trace(1);
            if ix % 100 == 0 {
                rec.state(ix);
            }
            match difference(&x, &s) {
                Some(d) => Err(format!("{d}; {:?}", show(&a))),
                None => Ok(()),
            }
        }));
    }
    v.push(space("epoch-fractions-split", EIGHT * 5, move |ix, rec| {
        let (mut c, mut s) = base();
        let (d, y) = days[(ix % 5) as usize];
        let f = eight(ix / 5);
        c.year = text(y);
        c.day = text(&format!("{d:03}.{f:08}"));
        s.epoch = (century(y.parse().unwrap()), d as u32, f * 864_000);
        rec.class("read");
        read(&c, &s, rec)
    }));
    v.push(space("mean-motion-derivatives", EIGHT * 4, |ix, rec| {
        let (mut c, mut s) = base();
        let f = eight(ix / 4);
        let sign = [" ", "-", "+", "0"][(ix % 4) as usize];
        c.dot = text(&format!("{sign}.{f:08}"));
        s.dot = if ix % 4 == 1 { -(f as f64 / 1e8) } else { f as f64 / 1e8 };
        rec.class(["blank", "minus", "plus", "zero"][(ix % 4) as usize]);
        read(&c, &s, rec)
    }));
    v.push(space("assumed-decimals", ASSUMED, |ix, rec| {
        let (mut c, mut s) = base();
        (c.drag, s.drag) = assumed(ix);
        (c.ddot, s.ddot) = assumed((ix * 7 + 1_234_567) % ASSUMED);
        rec.class(["blank", "minus", "plus"][(ix % 3) as usize]);
        read(&c, &s, rec)
    }));
    v.push(space("counters", 100_000 * 2 * 3, |ix, rec| {
        let [k, pad, class] = digits(ix, [100_000, 2, 3]);
        let (mut c, mut s) = base();
        let p = [b'0', b' '][pad];
        c.revolution = number(k as u64, p);
        s.revolution = k as u64;
        c.set = number(k as u64 % 10_000, p);
        s.set = k as u64 % 10_000;
        c.ephemeris = b'0' + (k % 10) as u8;
        s.ephemeris = (k % 10) as u8;
        c.class = [b'U', b'C', b'S'][class];
        s.class = ['U', 'C', 'S'][class];
        rec.class(["U", "C", "S"][class]);
        read(&c, &s, rec)
    }));
    v.push(space("angles", 3_600_001, |ix, rec| {
        let (mut c, mut s) = base();
        let at = |k: u64| k % 3_600_001;
        let (i, o, w, m) = (ix % 1_800_001, at(ix), at(ix * 7 + 11), at(ix * 13 + 1_000_003));
        c.inclination = fixed(i, 4);
        c.node = fixed(o, 4);
        c.perigee = fixed(w, 4);
        c.anomaly = fixed(m, 4);
        (s.inclination, s.node, s.perigee, s.anomaly) = (i as f64 / 1e4, o as f64 / 1e4, w as f64 / 1e4, m as f64 / 1e4);
        if ix % 3 == 0 {
            // zero padded instead of blank padded
            for f in [&mut c.inclination, &mut c.node, &mut c.perigee, &mut c.anomaly] {
                f.iter_mut().filter(|c| **c == b' ').for_each(|c| *c = b'0');
            }
        }
        rec.class(if ix % 3 == 0 { "zero-padded" } else { "blank-padded" });
        read(&c, &s, rec)
    }));
    v.push(space("eccentricities", 10_000_000, |ix, rec| {
        let (mut c, mut s) = base();
        c.eccentricity = number(ix, b'0');
        s.eccentricity = ix as f64 / 1e7;
        rec.class("read");
        read(&c, &s, rec)
    }));
    v.push(space("mean-motions", EIGHT * 19, |ix, rec| {
        let (mut c, mut s) = base();
        let n = (ix % 19) * 100_000_000 + eight(ix / 19);
        c.motion = fixed(n, 8);
        s.motion = n as f64 / 1e8;
        rec.class("read");
        read(&c, &s, rec)
    }));
    // neighbouring fields together: two texts per field, every combination
    v.push(space("combinations", 1 << 17, |ix, rec| {
        let (mut c, mut s) = base();
        let b = |k: u32| ix >> k & 1 == 1;
        if b(0) {
            (c.norad1, c.norad2, s.norad) = (text("00005"), text("    5"), 5);
        }
        if b(1) {
            (c.class, s.class) = (b'S', 'S');
        }
        if b(2) {
            (c.designator, s.designator) = (text("57001ABC"), Some("1957-001ABC".into()));
        }
        if b(3) {
            (c.year, s.epoch.0) = (text("57"), 1957);
        }
        if b(4) {
            (c.day, s.epoch.1, s.epoch.2) = (text("  9.00000001"), 9, 864_000);
        }
        if b(5) {
            (c.dot, s.dot) = (text("+.99999999"), 0.99999999);
        }
        if b(6) {
            (c.ddot, s.ddot) = (text("-98765+3"), -987.65);
        }
        if b(7) {
            (c.drag, s.drag) = (text("+99999-9"), 0.99999e-9);
        }
        if b(8) {
            (c.ephemeris, s.ephemeris) = (b'7', 7);
        }
        if b(9) {
            (c.set, s.set) = (text("9999"), 9999);
        }
        if b(10) {
            (c.inclination, s.inclination) = (text("179.9999"), 179.9999);
        }
        if b(11) {
            (c.node, s.node) = (text("  0.0001"), 0.0001);
        }
        if b(12) {
            (c.eccentricity, s.eccentricity) = (text("9999999"), 0.9999999);
        }
        if b(13) {
            (c.perigee, s.perigee) = (text("  9.8765"), 9.8765);
        }
        if b(14) {
            (c.anomaly, s.anomaly) = (text("359.9999"), 359.9999);
        }
        if b(15) {
            (c.motion, s.motion) = (text(" 1.00273790"), 1.0027379);
        }
        if b(16) {
            (c.revolution, s.revolution) = (text("    7"), 7);
        }
        rec.class("read");
        read(&c, &s, rec)
    }));
    let fixed: Vec<Option<String>> = vec![
        None, Some("".into()), Some("ISS (ZARYA)".into()), Some(" leading and trailing  ".into()), Some("0 VANGUARD 1".into()), Some("Ünïcode 衛星\n".into()), Some("x".repeat(100_000)),
    ];
    v.push(space("names", fixed.len() as u64 + names(), move |ix, rec| {
        let (a, b) = base().0.lines();
        let name = match fixed.get(ix as usize) {
            Some(name) => name.clone(),
            None => match name(ix - fixed.len() as u64) {
                Some(name) => Some(name),
                None => return Ok(()),
            },
        };
        let x = guard(|| Elements::from_tle(name.clone(), &a, &b)).map_err(|p| format!("panicked: {p}"))?.map_err(|e| format!("{e}"))?;
        rec.op(1);
        rec.trace(1);
        rec.state(ix);
        rec.class("kept");
        if x.object_name != name {
            return Err(format!("object name {name:?} became {:?}", x.object_name));
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------------------------------------ names

const NAME_LETTERS: [char; 10] = ['0', ' ', '1', '2', '#', '\t', 'A', '-', 'é', '"'];
const NAME_FILLS: [&str; 6] = ["A", " ", "é", "衛", "🛰", "aé衛🛰 "];
const NAME_LONGEST: u64 = 300;

/// how many names `name` enumerates: every character of the basic plane alone and in three places of a
/// longer name, all words of up to five letters, names of all lengths, and every two printable characters
/// alone, before, within and after a longer name
pub fn names() -> u64 {
    let l = NAME_LETTERS.len() as u64;
    4 * 95 * 95 + 4 * 0x10000 + (1 + l + l.pow(2) + l.pow(3) + l.pow(4) + l.pow(5)) + NAME_FILLS.len() as u64 * NAME_LONGEST
}

/// None for indices that are not characters
pub fn name(ix: u64) -> Option<String> {
    if ix < 4 * 0x10000 {
        let c = char::from_u32((ix / 4) as u32)?;
        return Some(match ix % 4 {
            0 => format!("{c}"),
            1 => format!("{c}SAT 1"),
            2 => format!("SAT{c}1"),
            _ => format!("SAT 1{c}"),
        });
    }
    let mut k = ix - 4 * 0x10000;
    if k < 4 * 95 * 95 {
        let (a, b) = ((b' ' + (k / 4 % 95) as u8) as char, (b' ' + (k / 4 / 95) as u8) as char);
        return Some(match k % 4 {
            0 => format!("{a}{b}"),
            1 => format!("{a}{b}COSMOS 2251 DEB"),
            2 => format!("COSMOS{a}{b}2251"),
            _ => format!("COSMOS 2251{a}{b}"),
        });
    }
    k -= 4 * 95 * 95;
    let l = NAME_LETTERS.len() as u64;
    for d in 0..=5 {
        if k < l.pow(d) {
            return Some((0..d).map(|j| NAME_LETTERS[(k / l.pow(j) % l) as usize]).collect());
        }
        k -= l.pow(d);
    }
    let fill = NAME_FILLS[(k / NAME_LONGEST) as usize];
    Some(fill.chars().cycle().take((k % NAME_LONGEST) as usize).collect())
}

// ------------------------------------------------------------------------------------------------ C08: a model of validity

#[derive(Clone, Debug)]
pub struct Defect {
    what: &'static [&'static str],
    line: &'static str,
    start: usize,
    end: usize,
}

/// how a field is judged
enum Judged<T> {
    /// well-formed
    Good(T),
    /// tolerated spellings: may be refused; if accepted, it must have this value when there is one
    Either(Option<T>),
    Bad,
}

pub struct Model {
    /// defects which must lead to a refusal
    pub bad: Vec<Defect>,
    /// spellings which may be refused
    pub either: Vec<Defect>,
    /// values of the fields, where they are known
    norad: Option<u64>,
    class: Option<char>,
    designator: Option<Option<String>>,
    epoch: Option<(i32, u32, u64)>,
    floats: Vec<(&'static str, f64)>,
    ints: Vec<(&'static str, u64)>,
}

fn blank(c: u8) -> bool {
    c.is_ascii_whitespace()
}

fn integer(f: &[u8]) -> Judged<u64> {
    let s: Vec<u8> = f.to_vec();
    let lead = s.iter().take_while(|c| blank(**c)).count();
    let plain_lead = s[..lead].iter().all(|c| *c == b' ');
    let rest = &s[lead..];
    if !rest.is_empty() && rest.iter().all(|c| c.is_ascii_digit()) {
        let v = std::str::from_utf8(rest).unwrap().parse().unwrap();
        return if plain_lead { Judged::Good(v) } else { Judged::Either(Some(v)) };
    }
    // a plus sign, a minus zero or trailing blanks may be tolerated
    let t = std::str::from_utf8(rest).map(|t| t.trim()).unwrap_or("?");
    if let Ok(v) = t.parse::<u64>() {
        return Judged::Either(Some(v));
    }
    if let Some(z) = t.strip_prefix('-') {
        if !z.is_empty() && z.bytes().all(|c| c == b'0') {
            return Judged::Either(Some(0));
        }
    }
    Judged::Bad
}

/// exact value of a decimal without exponent, through its correctly rounded reading
fn decimal(f: &[u8]) -> Judged<f64> {
    let lead = f.iter().take_while(|c| blank(**c)).count();
    let plain_lead = f[..lead].iter().all(|c| *c == b' ');
    let Ok(t) = std::str::from_utf8(&f[lead..]) else { return Judged::Bad };
    let unsigned = t.strip_prefix(['-', '+']).unwrap_or(t);
    let digits = unsigned.bytes().filter(|c| c.is_ascii_digit()).count();
    let points = unsigned.bytes().filter(|c| *c == b'.').count();
    if digits > 0 && points <= 1 && digits + points == unsigned.len() {
        let v = t.parse().unwrap();
        return if plain_lead { Judged::Good(v) } else { Judged::Either(Some(v)) };
    }
    match t.trim().parse::<f64>() {
        Ok(v) if v.is_finite() && digits > 0 => Judged::Either(Some(v)),
        _ => Judged::Bad,
    }
}

/// sign and digits with an assumed decimal point
fn mantissa(f: &[u8], signed: bool) -> Judged<f64> {
    let (sign, rest) = match f[0] {
        b' ' if signed => (1.0, &f[1..]),
        b'-' if signed => (-1.0, &f[1..]),
        b'+' if signed => (1.0, &f[1..]),
        _ => (1.0, f),
    };
    if rest.iter().all(|c| c.is_ascii_digit()) {
        let v: f64 = format!("0.{}", std::str::from_utf8(rest).unwrap()).parse().unwrap();
        return Judged::Good(sign * v);
    }
    let allowed = f.iter().all(|c| c.is_ascii_digit() || blank(*c) || matches!(c, b'+' | b'-' | b'.' | b'e' | b'E'));
    if allowed && f.iter().any(|c| c.is_ascii_digit()) { Judged::Either(None) } else { Judged::Bad }
}

fn exponent(f: &[u8]) -> Judged<i32> {
    if (f[0] == b'-' || f[0] == b'+') && f[1].is_ascii_digit() {
        let e = (f[1] - b'0') as i32;
        return Judged::Good(if f[0] == b'-' { -e } else { e });
    }
    if f.iter().all(|c| c.is_ascii_digit()) {
        return Judged::Either(Some(((f[0] - b'0') * 10 + f[1] - b'0') as i32));
    }
    let allowed = f.iter().all(|c| c.is_ascii_digit() || blank(*c) || matches!(c, b'+' | b'-'));
    if allowed && f.iter().any(|c| c.is_ascii_digit()) { Judged::Either(None) } else { Judged::Bad }
}

fn two_digits(f: &[u8]) -> Judged<u64> {
    if f.iter().all(|c| c.is_ascii_digit()) {
        return Judged::Good(((f[0] - b'0') * 10 + f[1] - b'0') as u64);
    }
    let allowed = f.iter().all(|c| c.is_ascii_digit() || blank(*c) || *c == b'+');
    if allowed && f.iter().any(|c| c.is_ascii_digit()) { Judged::Either(None) } else { Judged::Bad }
}

const FLOAT: &[&str] = &["ExpectedFloat"];
const ASSUMED_KINDS: &[&str] = &["ExpectedFloatWithAssumedDecimalPoint", "FloatWithAssumedDecimalPointTooLong", "ExpectedFloat"];
const INTEGER: &[&str] = &["ExpectedInteger"];
const EPOCH_YEAR: &[&str] = &["ExpectedFloat", "ExpectedInteger", "FromYoOptFailed"];
const EPOCH_DAY: &[&str] = &["ExpectedFloat", "FromYoOptFailed", "FromNumSecondsFromMidnightFailed"];

pub fn judge(a: &[u8], b: &[u8]) -> Model {
    let mut m = Model { bad: vec![], either: vec![], norad: None, class: None, designator: None, epoch: None, floats: vec![], ints: vec![] };
    let bad = |m: &mut Model, what, line, start, end| m.bad.push(Defect { what, line, start, end });
    for (line, l) in [("Line1", a), ("Line2", b)] {
        if l.len() != 69 {
            bad(&mut m, &["BadLength"], line, 0, l.len());
        }
    }
    if !m.bad.is_empty() {
        // nothing else is defined; the first character may be reported all the same
        for (line, l, c) in [("Line1", a, b'1'), ("Line2", b, b'2')] {
            if !l.is_empty() && l[0] != c {
                bad(&mut m, &["BadFirstCharacter"], line, 0, 1);
            }
        }
        return m;
    }
    for (line, l, c) in [("Line1", a, b'1'), ("Line2", b, b'2')] {
        if l[0] != c {
            bad(&mut m, &["BadFirstCharacter"], line, 0, 1);
        }
        if l[68] != checksum(l) {
            bad(&mut m, &["BadChecksum"], line, 68, 69);
        }
    }
    for k in [1, 8, 17, 32, 43, 52, 61, 63] {
        if a[k] != b' ' {
            bad(&mut m, &["ExpectedSpace"], "Line1", k, k + 1);
        }
    }
    for k in [1, 7, 16, 25, 33, 42, 51] {
        if b[k] != b' ' {
            bad(&mut m, &["ExpectedSpace"], "Line2", k, k + 1);
        }
    }
    let mut ids = [None, None];
    for (k, (line, l)) in [("Line1", a), ("Line2", b)].into_iter().enumerate() {
        match integer(&l[2..7]) {
            Judged::Good(v) => ids[k] = Some(v),
            Judged::Either(v) => {
                ids[k] = v;
                m.either.push(Defect { what: INTEGER, line, start: 2, end: 7 });
            }
            Judged::Bad => bad(&mut m, INTEGER, line, 2, 7),
        }
    }
    if let [Some(p), Some(q)] = ids {
        if p != q {
            bad(&mut m, &["NoradIdMismatch"], "Both", 2, 7);
        } else {
            m.norad = Some(p);
        }
    }
    match a[7] {
        b'U' | b'C' | b'S' => m.class = Some(a[7] as char),
        _ => bad(&mut m, &["UnknownClassification"], "Line1", 7, 8),
    }
    // designator
    let d = &a[9..17];
    if d.iter().all(|c| blank(*c)) {
        m.designator = Some(None);
    } else {
        let year = two_digits(&d[..2]);
        let rest = std::str::from_utf8(&d[2..]);
        let printable = d[2..].iter().all(|c| *c == b' ' || c.is_ascii_graphic());
        match (&year, rest) {
            (Judged::Good(y), Ok(r)) if printable => m.designator = Some(Some(format!("{}-{}", century(*y), r.trim()))),
            (Judged::Bad, _) => bad(&mut m, INTEGER, "Line1", 9, 11),
            (Judged::Either(_), _) => m.either.push(Defect { what: INTEGER, line: "Line1", start: 9, end: 11 }),
            _ => {}
        }
        if rest.is_err() {
            bad(&mut m, &["ExpectedString"], "Line1", 11, 17);
        } else if !printable {
            m.either.push(Defect { what: &["ExpectedString"], line: "Line1", start: 11, end: 17 });
        }
    }
    // epoch
    let year = two_digits(&a[18..20]);
    let day = decimal(&a[20..32]);
    match &year {
        Judged::Bad => bad(&mut m, EPOCH_YEAR, "Line1", 18, 20),
        Judged::Either(_) => m.either.push(Defect { what: EPOCH_YEAR, line: "Line1", start: 18, end: 20 }),
        _ => {}
    }
    match &day {
        Judged::Bad => {
            for (s, e) in [(18, 20), (20, 32), (18, 32)] {
                bad(&mut m, EPOCH_DAY, "Line1", s, e);
            }
        }
        Judged::Either(_) => m.either.push(Defect { what: EPOCH_DAY, line: "Line1", start: 20, end: 32 }),
        _ => {}
    }
    if let Judged::Good(v) | Judged::Either(Some(v)) = day {
        let limit = match year {
            Judged::Good(y) => days_in(century(y)) as f64,
            _ => 366.0,
        };
        if !(v >= 1.0 && v < limit + 1.0) {
            bad(&mut m, EPOCH_DAY, "Line1", 18, 20);
            bad(&mut m, EPOCH_DAY, "Line1", 20, 32);
            bad(&mut m, EPOCH_DAY, "Line1", 18, 32);
        } else if let (Judged::Good(y), Judged::Good(_)) = (&year, &day) {
            // whole days and nanoseconds from the digits
            let t = std::str::from_utf8(&a[20..32]).unwrap().trim_start().trim_start_matches('+');
            let (whole, frac) = t.split_once('.').unwrap_or((t, ""));
            let mut ns: u128 = 0;
            for c in frac.bytes() {
                ns = ns * 10 + (c - b'0') as u128;
            }
            let ns = (ns * 86_400_000_000_000 + 10u128.pow(frac.len() as u32) / 2) / 10u128.pow(frac.len() as u32);
            m.epoch = Some((century(*y), whole.parse().unwrap_or(0), ns as u64));
            if ns + 10 > 86_400_000_000_000 {
                m.either.push(Defect { what: EPOCH_DAY, line: "Line1", start: 20, end: 32 });
            }
        }
    }
    let float = |m: &mut Model, name: &'static str, line, l: &[u8], start: usize, end: usize| match decimal(&l[start..end]) {
        Judged::Good(v) => m.floats.push((name, v)),
        Judged::Either(v) => {
            m.floats.extend(v.map(|v| (name, v)));
            m.either.push(Defect { what: FLOAT, line, start, end });
        }
        Judged::Bad => m.bad.push(Defect { what: FLOAT, line, start, end }),
    };
    float(&mut m, "dot", "Line1", a, 33, 43);
    float(&mut m, "inclination", "Line2", b, 8, 16);
    float(&mut m, "node", "Line2", b, 17, 25);
    float(&mut m, "perigee", "Line2", b, 34, 42);
    float(&mut m, "anomaly", "Line2", b, 43, 51);
    float(&mut m, "motion", "Line2", b, 52, 63);
    for (name, start) in [("ddot", 44), ("drag", 53)] {
        let (x, e) = (mantissa(&a[start..start + 6], true), exponent(&a[start + 6..start + 8]));
        let (mut sure, mut value) = (true, None);
        match x {
            Judged::Good(v) => value = Some(v),
            Judged::Either(_) => {
                sure = false;
                m.either.push(Defect { what: ASSUMED_KINDS, line: "Line1", start, end: start + 6 });
            }
            Judged::Bad => m.bad.push(Defect { what: ASSUMED_KINDS, line: "Line1", start, end: start + 6 }),
        }
        match e {
            Judged::Good(e) => {
                if let (Some(v), true) = (value, sure) {
                    m.floats.push((name, v * 10f64.powi(e)));
                }
            }
            Judged::Either(e) => {
                m.either.push(Defect { what: ASSUMED_KINDS, line: "Line1", start: start + 6, end: start + 8 });
                if let (Some(v), Some(e), true) = (value, e, sure) {
                    m.floats.push((name, v * 10f64.powi(e)));
                }
            }
            Judged::Bad => m.bad.push(Defect { what: ASSUMED_KINDS, line: "Line1", start: start + 6, end: start + 8 }),
        }
    }
    match mantissa(&b[26..33], false) {
        Judged::Good(v) => m.floats.push(("eccentricity", v)),
        Judged::Either(_) => m.either.push(Defect { what: ASSUMED_KINDS, line: "Line2", start: 26, end: 33 }),
        Judged::Bad => m.bad.push(Defect { what: ASSUMED_KINDS, line: "Line2", start: 26, end: 33 }),
    }
    for (name, line, l, start, end) in [("ephemeris", "Line1", a, 62, 63), ("set", "Line1", a, 64, 68), ("revolution", "Line2", b, 63, 68)] {
        match integer(&l[start..end]) {
            Judged::Good(v) => m.ints.push((name, v)),
            Judged::Either(v) => {
                m.ints.extend(v.map(|v| (name, v)));
                m.either.push(Defect { what: INTEGER, line, start, end });
            }
            Judged::Bad => m.bad.push(Defect { what: INTEGER, line, start, end }),
        }
    }
    m
}

/// kind, line and columns of an error, from what it prints
pub fn located(e: &sgp4::TleError) -> (Option<String>, Option<&'static str>, Option<(usize, usize)>) {
    let debug = format!("{e:?}");
    let field = |name: &str| {
        let k = debug.find(&format!("{name}: "))? + name.len() + 2;
        let s: String = debug[k..].chars().take_while(|c| c.is_alphanumeric()).collect();
        (!s.is_empty()).then_some(s)
    };
    let what = field("what");
    let shown = format!("{e}");
    let line = if shown.contains("line 1") {
        Some("Line1")
    } else if shown.contains("line 2") {
        Some("Line2")
    } else if shown.contains("lines") {
        Some("Both")
    } else {
        None
    };
    let columns = shown.split_once("between characters ").and_then(|(_, r)| {
        let (s, e) = r.split_once(" and ")?;
        Some((s.trim().parse().ok()?, e.trim().parse().ok()?))
    });
    (what, line, columns)
}

pub fn finite(x: &Elements) -> bool {
    [
        x.mean_motion_dot, x.mean_motion_ddot, x.drag_term, x.inclination, x.right_ascension, x.eccentricity, x.argument_of_perigee, x.mean_anomaly, x.mean_motion,
    ]
    .iter()
    .all(|v| v.is_finite())
}

/// parses a pair of lines and compares the outcome with the model
fn decide(a: &[u8], b: &[u8], rec: &mut Rec) -> Result<(), String> {
    let ctx = || format!("{:?} {:?}", show(a), show(b));
    let r = guard(|| Elements::from_tle(None, a, b)).map_err(|p| format!("panicked: {p}; {}", ctx()))?;
    rec.op(1);
    rec.trace(1);
    let m = judge(a, b);
    rec.state(Hash::new().s(a).s(b).0);
    rec.sample(|| format!("{} -> {r:?}", ctx()));
    match r {
        Ok(x) => {
            if let Some(d) = m.bad.first() {
                return Err(format!("accepted although {d:?}; {}", ctx()));
            }
            rec.class("accepted");
            if !finite(&x) {
                return Err(format!("accepted with a non-finite value: {x:?}; {}", ctx()));
            }
            let floats = |n: &str| match n {
                "dot" => x.mean_motion_dot,
                "ddot" => x.mean_motion_ddot,
                "drag" => x.drag_term,
                "inclination" => x.inclination,
                "node" => x.right_ascension,
                "eccentricity" => x.eccentricity,
                "perigee" => x.argument_of_perigee,
                "anomaly" => x.mean_anomaly,
                _ => x.mean_motion,
            };
            for (n, v) in &m.floats {
                if !near(floats(n), *v) {
                    return Err(format!("{n} read as {:?} instead of {v:?}; {}", floats(n), ctx()));
                }
            }
            for (n, v) in &m.ints {
                let g = match *n {
                    "ephemeris" => x.ephemeris_type as u64,
                    "set" => x.element_set_number,
                    _ => x.revolution_number,
                };
                if g != *v {
                    return Err(format!("{n} read as {g} instead of {v}; {}", ctx()));
                }
            }
            if m.norad.is_some_and(|v| v != x.norad_id) || m.class.is_some_and(|c| c != class_of(&x.classification)) || m.designator.as_ref().is_some_and(|d| *d != x.international_designator) {
                return Err(format!("identity read as {} {:?} {:?}; {}", x.norad_id, x.classification, x.international_designator, ctx()));
            }
            if let Some(e) = m.epoch {
                if epoch_error(&x, e).abs() > 5 {
                    return Err(format!("epoch read as {} instead of {e:?}; {}", x.datetime, ctx()));
                }
            }
            Ok(())
        }
        Err(e) => {
            if m.bad.is_empty() && m.either.is_empty() {
                return Err(format!("a well-formed TLE is refused: {e}; {}", ctx()));
            }
            rec.class(if m.bad.is_empty() { "refused-tolerated-spelling" } else { "refused" });
            let (what, line, columns) = located(&e);
            let fits = |d: &Defect| {
                what.as_ref().map_or(true, |w| d.what.contains(&w.as_str())) && line.map_or(true, |l| l == d.line) && columns.map_or(true, |c| c == (d.start, d.end))
            };
            if !m.bad.iter().chain(&m.either).any(fits) {
                return Err(format!("refused with {e:?} ({e}), but the defects are {:?} {:?}; {}", m.bad, m.either, ctx()));
            }
            Ok(())
        }
    }
}

pub fn bases() -> Vec<(Line, Line)> {
    let mut v = Vec::new();
    let (c, _) = base();
    v.push(c.lines());
    let mut d = c.clone();
    d.norad1 = text("00005");
    d.norad2 = text("    5");
    d.class = b'C';
    d.designator = [b' '; 8];
    d.year = text("57");
    d.day = text("001.00000000");
    d.dot = text(" .00000023");
    d.ddot = text("-12345-6");
    d.drag = text(" 28098+1");
    d.ephemeris = b'3';
    d.set = text("   0");
    d.inclination = text("  0.0000");
    d.node = text("  9.9999");
    d.eccentricity = text("0000000");
    d.perigee = text("  0.0000");
    d.anomaly = text("359.9999");
    d.motion = text(" 1.00273790");
    d.revolution = text("    0");
    v.push(d.lines());
    let mut e = c.clone();
    e.norad1 = text("99999");
    e.norad2 = text("99999");
    e.class = b'S';
    e.designator = text("00999ZZZ");
    e.year = text("20");
    e.day = text("366.99999999");
    e.dot = text("+.12345678");
    e.ddot = text("+98765+9");
    e.drag = text("+00001-9");
    e.set = text("9999");
    e.inclination = text("180.0000");
    e.eccentricity = text("9999999");
    e.revolution = text("99999");
    v.push(e.lines());
    v
}

fn repair(l: &mut [u8]) {
    if l.len() == 69 {
        l[68] = checksum(l);
    }
}

pub const FIELDS1: [(usize, usize); 12] = [(2, 7), (7, 8), (9, 11), (11, 17), (18, 20), (20, 32), (33, 43), (44, 50), (50, 52), (53, 59), (59, 61), (62, 68)];
pub const FIELDS2: [(usize, usize); 8] = [(2, 7), (8, 16), (17, 25), (26, 33), (34, 42), (43, 51), (52, 63), (63, 68)];

// every word of five characters of numbers, in every field, at its right end, at its left end and
// before zeros, checksum repaired
fn short_words(judge: fn(&[u8], &[u8], &mut Rec) -> Result<(), String>) -> Space {
    const LETTERS: [u8; 8] = [b' ', b'0', b'3', b'9', b'-', b'+', b'.', b'e'];
    let all = bases();
    let r = [20, 3, 8, 8, 8, 8, 8];
    space("short-words", product(&r), move |ix, rec| {
        let [f, align, a, b, c, d, g] = digits(ix, r);
        let (mut x, mut y) = all[0];
        let (line, (s, e)) = if f < 12 { (&mut x, FIELDS1[f]) } else { (&mut y, FIELDS2[f - 12]) };
        let word = [LETTERS[a], LETTERS[b], LETTERS[c], LETTERS[d], LETTERS[g]];
        let n = word.len().min(e - s);
        if (n < 5 && (align > 0 || word[n..].iter().any(|&x| x != b' '))) || (n == e - s && align > 0) {
            return Ok(());
        }
        line[s..e].fill(if align == 2 { b'0' } else { b' ' });
        let at = if align == 0 { e - n } else { s };
        line[at..at + n].copy_from_slice(&word[..n]);
        repair(line);
        judge(&x, &y, rec)
    })
}

pub fn c08(thorough: bool) -> Vec<Space> {
    let mut v = vec![short_words(decide)];
    let all = bases();
    let nb = all.len();
    {
        let all = all.clone();
        let r = [nb, 2, 69, 256, 2];
        v.push(space("single-bytes", product(&r), move |ix, rec| {
            let [b, l, p, c, fix] = digits(ix, r);
            let (mut x, mut y) = all[b];
            let line = if l == 0 { &mut x } else { &mut y };
            let before = line[p];
            line[p] = c as u8;
            if fix == 1 && p < 68 {
                repair(line);
            }
            // a changed digit is always noticed
            if fix == 0 && before.is_ascii_digit() && (c as u8).is_ascii_digit() && before != c as u8 {
                let r = guard(|| Elements::from_tle(None, &x, &y)).map_err(|p| format!("panicked: {p}; {:?} {:?}", show(&x), show(&y)))?;
                rec.op(1);
                if r.is_ok() {
                    return Err(format!("a changed digit is accepted; {:?} {:?}", show(&x), show(&y)));
                }
            }
            decide(&x, &y, rec)
        }));
    }
    // both lines changed at once: order and attribution of errors
    {
        let all = all.clone();
        const BYTES: [u8; 4] = [b'7', b'x', b' ', b'-'];
        let r = [69, 69, 4, 4, 2];
        v.push(space("both-lines", product(&r), move |ix, rec| {
            let [p, q, c, d, fix] = digits(ix, r);
            let (mut x, mut y) = all[0];
            x[p] = BYTES[c];
            y[q] = BYTES[d];
            if fix == 1 {
                repair(&mut x);
                repair(&mut y);
            }
            decide(&x, &y, rec)
        }));
    }
    // two bytes of one line, checksum repaired
    {
        let all = all.clone();
        const BYTES: [u8; 16] = [b'0', b'1', b'9', b' ', b'-', b'+', b'.', b'e', b'E', b'n', b'a', b'i', b'f', b'\t', 0xc3, 0xa9];
        let nbytes = if thorough { 16 } else { 10 };
        const SOME: [u8; 10] = [b'0', b'9', b' ', b'-', b'+', b'.', b'e', b'n', b'\t', 0xc3];
        let pick = move |k: usize| if nbytes == 16 { BYTES[k] } else { SOME[k] };
        let r = [if thorough { nb } else { 1 }, 2, 68, 68, nbytes, nbytes];
        v.push(space("byte-pairs", product(&r), move |ix, rec| {
            let [b, l, p, q, c, d] = digits(ix, r);
            if q <= p {
                return Ok(());
            }
            let (mut x, mut y) = all[if thorough { b } else { 0 }];
            let line = if l == 0 { &mut x } else { &mut y };
            line[p] = pick(c);
            line[q] = pick(d);
            repair(line);
            decide(&x, &y, rec)
        }));
    }
    // the complete domain of two-byte fields
    {
        let all = all.clone();
        let places: [usize; 4] = [9, 18, 50, 59];
        let r = [4, 256, 256];
        v.push(space("two-byte-fields", product(&r), move |ix, rec| {
            let [f, c, d] = digits(ix, r);
            let (mut x, y) = all[0];
            x[places[f]] = c as u8;
            x[places[f] + 1] = d as u8;
            repair(&mut x);
            decide(&x, &y, rec)
        }));
    }
    // fields written anew, right-aligned and left-aligned, checksum repaired
    {
        let all = all.clone();
        const WORDS: [&str; 44] = [
            "nan", "NaN", "inf", "-inf", "+inf", "infinity", "1e999", "-1e999", "9e308", "1e9", "1e99", "1e-9", "", "-", "+", ".", "-.", "+.", "e", "e5", "1e", "0x1", "1_0", "-0", "+0", "00", "-1", "+1", "1.", ".1", "-.1", "+.1", "1 1", "1,1", "--1", "1-1", "1.1.1", "é", "\t1", "1\t", "367.0",
            "366.5", "0.5", "99999",
        ];
        let r = [20, WORDS.len(), 3, nb];
        v.push(space("rewritten-fields", product(&r), move |ix, rec| {
            let [f, w, align, b] = digits(ix, r);
            let (mut x, mut y) = all[b];
            let (line, (s, e)) = if f < 12 { (&mut x, FIELDS1[f]) } else { (&mut y, FIELDS2[f - 12]) };
            let mut word = WORDS[w].as_bytes();
            if word.len() > e - s {
                word = &word[..e - s];
            }
            line[s..e].fill(if align == 2 { b'0' } else { b' ' });
            if align == 1 {
                line[s..s + word.len()].copy_from_slice(word);
            } else {
                line[e - word.len()..e].copy_from_slice(word);
            }
            repair(line);
            decide(&x, &y, rec)
        }));
    }
    // every year with day numbers around the ends of the year
    {
        let all = all.clone();
        const DAYS: [&str; 14] = [
            "000.00000000", "000.99999999", "001.00000000", "365.00000000", "365.99999999", "366.00000000", "366.99999999", "367.00000000", "999.99999999", "  0.50000000", "-01.50000000", " -1.50000000", "1.9999999999", "9.9999999999",
        ];
        let r = [100, DAYS.len()];
        v.push(space("epoch-limits", product(&r), move |ix, rec| {
            let [y, d] = digits(ix, r);
            let (mut x, z) = all[0];
            x[18..20].copy_from_slice(&number::<2>(y as u64, b'0'));
            x[20..32].copy_from_slice(DAYS[d].as_bytes());
            repair(&mut x);
            decide(&x, &z, rec)
        }));
    }
    // lengths
    {
        let all = all.clone();
        let r = [80, 80, 3];
        v.push(space("lengths", product(&r), move |ix, rec| {
            let [p, q, how] = digits(ix, r);
            let (x, y) = all[0];
            let cut = |l: &[u8], n: usize| -> Vec<u8> {
                let mut o = l.to_vec();
                o.resize(n, [b' ', b'0', 0xff][how]);
                o
            };
            decide(&cut(&x, p), &cut(&y, q), rec)
        }));
    }
    // lines of different sets, swapped and repeated lines
    {
        let all = all.clone();
        let mut lines: Vec<Vec<u8>> = all.iter().flat_map(|(a, b)| [a.to_vec(), b.to_vec()]).collect();
        let (mut a, mut b) = all[0];
        a[2..7].copy_from_slice(b"25545");
        repair(&mut a);
        b[2..7].copy_from_slice(b"25534");
        repair(&mut b);
        lines.push(a.to_vec());
        lines.push(b.to_vec());
        lines.push(Vec::new());
        let n = lines.len();
        let r = [n, n];
        v.push(space("mixed-lines", product(&r), move |ix, rec| {
            let [p, q] = digits(ix, r);
            decide(&lines[p], &lines[q], rec)
        }));
    }
    // every pair of catalogue numbers that differ in one or two digits
    {
        let all = all.clone();
        let r = [5, 5, 10, 10];
        v.push(space("catalogue-mismatch", product(&r), move |ix, rec| {
            let [p, q, c, d] = digits(ix, r);
            let (x, mut y) = all[0];
            y[2 + p] = b'0' + c as u8;
            y[2 + q] = b'0' + d as u8;
            repair(&mut y);
            decide(&x, &y, rec)
        }));
    }
    // some catalogue numbers on line 1 against all of them on line 2, and the other way round
    {
        let all = all.clone();
        const NUMBERS: [&str; 12] = ["00000", "    0", "00001", "00256", "  255", "10000", "25544", "34464", "65535", "65536", "99999", "09999"];
        let r = [NUMBERS.len(), 100_000, 2];
        v.push(space("catalogue-pairs", product(&r), move |ix, rec| {
            let [p, n, l] = digits(ix, r);
            let (mut x, mut y) = all[p % all.len()];
            let number = format!("{n:05}");
            let (first, second) = if l == 0 { (NUMBERS[p], &number[..]) } else { (&number[..], NUMBERS[p]) };
            x[2..7].copy_from_slice(first.as_bytes());
            y[2..7].copy_from_slice(second.as_bytes());
            repair(&mut x);
            repair(&mut y);
            decide(&x, &y, rec)
        }));
    }
    // every sum of digits from almost nothing to the largest one, against every check digit
    {
        const LOW: [&[u8; 68]; 2] = [
            b"1 00000U 57001A   57001.00000000 -.00000000 -00000-0 -00000-0 0 0000",
            b"2 00000 000.0000 000.0000 0000000 000.0000 000.0000 00.0000000000000",
        ];
        const HIGH: [&[u8; 68]; 2] = [
            b"1 99999U 99999A   99365.99999999 -.99999999 -99999-9 -99999-9 9 9999",
            b"2 99999 179.9999 359.9999 9999999 359.9999 359.9999 17.9999999999999",
        ];
        let mut lines = Vec::new();
        for l in 0..2 {
            for rightwards in [true, false] {
                let mut line = *LOW[l];
                lines.push((l, line));
                for k in 0..68 {
                    let p = if rightwards { k } else { 67 - k };
                    while line[p] < HIGH[l][p] {
                        line[p] += 1;
                        lines.push((l, line));
                    }
                }
            }
        }
        let r = [lines.len(), 10, 2];
        v.push(space("digit-sums", product(&r), move |ix, rec| {
            let [k, check, other] = digits(ix, r);
            let (l, text) = lines[k];
            let (mut line, mut partner) = ([b'0' + check as u8; 69], [b'0'; 69]);
            line[..68].copy_from_slice(&text);
            partner[..68].copy_from_slice([LOW, HIGH][other][1 - l]);
            partner[2..7].copy_from_slice(&text[2..7]);
            repair(&mut partner);
            if l == 0 { decide(&line, &partner, rec) } else { decide(&partner, &line, rec) }
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------------ C09

fn total_tle(a: &[u8], b: &[u8], rec: &mut Rec) -> Result<(), String> {
    let ctx = || format!("{:?} {:?}", show(a), show(b));
    let r = guard(|| {
        let r = Elements::from_tle(None, a, b);
        let shown = match &r {
            Ok(x) => format!("{x:?}"),
            Err(e) => format!("{e:?} {e}"),
        };
        (r, shown)
    })
    .map_err(|p| format!("panicked: {p}; {}", ctx()))?;
    rec.op(2);
    rec.trace(1);
    match &r.0 {
        Ok(x) => {
            rec.class("elements");
            if !finite(x) {
                return Err(format!("non-finite value in {x:?}; {}", ctx()));
            }
        }
        Err(_) => rec.class("error"),
    }
    rec.state(Hash::new().s(r.1.as_bytes()).0);
    rec.sample(|| format!("{} -> {}", ctx(), r.1));
    Ok(())
}

fn total_text(s: &str, rec: &mut Rec) -> Result<(), String> {
    for three in [false, true] {
        let r = guard(|| {
            let r = if three { sgp4::parse_3les(s) } else { sgp4::parse_2les(s) };
            let shown = match &r {
                Ok(x) => format!("{x:?}"),
                Err(e) => format!("{e:?} {e}"),
            };
            (r, shown)
        })
        .map_err(|p| format!("panicked: {p}; {s:?}"))?;
        rec.op(2);
        rec.trace(1);
        match &r.0 {
            Ok(x) => {
                rec.class(if x.is_empty() { "empty" } else { "elements" });
                if x.iter().any(|x| !finite(x)) {
                    return Err(format!("non-finite value in {x:?}; {s:?}"));
                }
            }
            Err(_) => rec.class("error"),
        }
        rec.state(Hash::new().u(three as u64).s(r.1.as_bytes()).0);
        rec.sample(|| format!("{s:?} -> {}", r.1));
    }
    Ok(())
}

fn total_json(s: &[u8], rec: &mut Rec) -> Result<(), String> {
    let ctx = || show(s);
    let r = guard(|| {
        let r = serde_json::from_slice::<Elements>(s);
        let shown = match &r {
            Ok(x) => format!("{x:?} {}", serde_json::to_string(x).unwrap_or_default()),
            Err(e) => format!("{e:?} {e}"),
        };
        (r, shown)
    })
    .map_err(|p| format!("panicked: {p}; {}", ctx()))?;
    rec.op(2);
    rec.trace(1);
    match &r.0 {
        Ok(x) => {
            rec.class("elements");
            if !finite(x) {
                return Err(format!("non-finite value in {x:?}; {}", ctx()));
            }
        }
        Err(_) => rec.class("error"),
    }
    rec.state(Hash::new().s(r.1.as_bytes()).0);
    rec.sample(|| format!("{} -> {}", ctx(), r.1));
    Ok(())
}

pub const OMM: [(&str, &str); 17] = [
    ("OBJECT_NAME", "\"ISS (ZARYA)\""),
    ("OBJECT_ID", "\"1998-067A\""),
    ("EPOCH", "\"2008-09-20T12:25:40.104192\""),
    ("MEAN_MOTION", "15.72125391"),
    ("ECCENTRICITY", "0.0006703"),
    ("INCLINATION", "51.6416"),
    ("RA_OF_ASC_NODE", "247.4627"),
    ("ARG_OF_PERICENTER", "130.536"),
    ("MEAN_ANOMALY", "325.0288"),
    ("EPHEMERIS_TYPE", "0"),
    ("CLASSIFICATION_TYPE", "\"U\""),
    ("NORAD_CAT_ID", "25544"),
    ("ELEMENT_SET_NO", "292"),
    ("REV_AT_EPOCH", "56353"),
    ("BSTAR", "-0.000011606"),
    ("MEAN_MOTION_DOT", "-0.00002182"),
    ("MEAN_MOTION_DDOT", "0"),
];

pub fn omm(values: &[(&str, &str)]) -> String {
    let f: Vec<String> = values.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    format!("{{{}}}", f.join(","))
}

pub const JSON_VALUES: [&str; 64] = [
    "0", "-0", "1", "-1", "255", "256", "257", "511", "65536", "4294967295", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "0.5", "-0.0", "1.0", "1e0", "1e2", "1e308", "1e309", "-1e309", "1e-400", "1e99999", "0.1", "null", "true",
    "false", "[]", "[1]", "{}", "{\"a\":1}", "\"\"", "\"0\"", "\"-0\"", "\"5\"", "\"+5\"", "\" 5\"", "\"5 \"", "\"255\"", "\"256\"", "\"-1\"", "\"1.5\"", "\"1e5\"", "\"1e999\"", "\"-1e999\"", "\"nan\"", "\"NaN\"", "\"inf\"", "\"-inf\"", "\"infinity\"",
    "\"-Infinity\"", "\"0x10\"", "\"1_000\"", "\"é\"", "\"\\u0000\"", "\"18446744073709551616\"", "\"2020-01-01T00:00:00\"", "\"2020-13-01T00:00:00\"", "\"2020-02-30T25:00:00\"", "\"262143-12-31T23:59:59.999999999\"", "\"+999999-01-01T00:00:00\"", "\"U\"", "\"u\"",
    "\"X\"",
];

pub fn c09(thorough: bool) -> Vec<Space> {
    let mut v = vec![short_words(total_tle)];
    let all = bases();
    const FILL: [&[u8]; 8] = [b" ", b"1", b"2", b"\0", b"\xff", "é".as_bytes(), "衛".as_bytes(), b"-"];
    {
        let r = [80, 80, FILL.len(), FILL.len()];
        v.push(space("filled-lines", product(&r), move |ix, rec| {
            let [p, q, f, g] = digits(ix, r);
            let line = |n: usize, f: usize, first: u8| -> Vec<u8> {
                let mut l: Vec<u8> = FILL[f].iter().cycle().take(n).cloned().collect();
                if f % 2 == 0 && n > 0 {
                    l[0] = first;
                }
                l
            };
            total_tle(&line(p, f, b'1'), &line(q, g, b'2'), rec)
        }));
    }
    {
        // texts with any name line
        let (x, y) = all[0];
        let lines = format!("{}\n{}\n", String::from_utf8_lossy(&x), String::from_utf8_lossy(&y));
        v.push(space("name-lines", names() * 2, move |ix, rec| {
            let Some(name) = name(ix / 2) else {
                return Ok(());
            };
            total_text(&if ix % 2 == 0 { format!("{name}\n{lines}{name}\r\n{lines}") } else { format!("{lines}{name}") }, rec)
        }));
        v.push(space("json-names", names() * 2, move |ix, rec| {
            let Some(name) = name(ix / 2) else {
                return Ok(());
            };
            let text = format!("{{{}}}", OMM.iter().enumerate().map(|(k, (n, v))| if k == (ix % 2) as usize { format!("\"{n}\":{}", serde_json::to_string(&name).unwrap()) } else { format!("\"{n}\":{v}") }).collect::<Vec<_>>().join(","));
            total_json(text.as_bytes(), rec)
        }));
    }
    {
        // one byte anywhere, any value; the checksum byte also any value of a few
        let all = all.clone();
        const SUMS: [u8; 6] = [b'0', b'9', b'/', b':', 0, 0xff];
        let r = [3, 2, 69, 256, 8];
        v.push(space("changed-bytes", product(&r), move |ix, rec| {
            let [b, l, p, c, s] = digits(ix, r);
            let (mut x, mut y) = all[b];
            let line = if l == 0 { &mut x } else { &mut y };
            line[p] = c as u8;
            match s {
                0 => {}
                1 => {
                    if p < 68 {
                        repair(line);
                    }
                }
                s => {
                    if p < 68 {
                        line[68] = SUMS[s - 2];
                    }
                }
            }
            total_tle(&x, &y, rec)
        }));
    }
    {
        // runs of one byte inside a line with a right checksum
        let all = all.clone();
        const BYTES: [u8; 20] = [b' ', b'0', b'9', b'-', b'+', b'.', b'e', b'E', b'n', b'N', b'i', 0, 0x7f, 0x80, 0xc3, 0xa9, 0xff, b'\n', b'\t', b'_'];
        let r = [3, 2, 68, 12, BYTES.len()];
        v.push(space("byte-runs", product(&r), move |ix, rec| {
            let [b, l, p, n, c] = digits(ix, r);
            let (mut x, mut y) = all[b];
            let line = if l == 0 { &mut x } else { &mut y };
            let e = (p + n + 1).min(68);
            line[p..e].fill(BYTES[c]);
            // keep the separators so that the fields are reached
            let seps: &[usize] = if l == 0 { &[1, 8, 17, 32, 43, 52, 61, 63] } else { &[1, 7, 16, 25, 33, 42, 51] };
            for s in seps {
                line[*s] = b' ';
            }
            line[0] = [b'1', b'2'][l];
            repair(line);
            total_tle(&x, &y, rec)
        }));
    }
    {
        // the same words as for corrupted fields, in two fields at once
        let all = all.clone();
        const WORDS: [&str; 16] = ["nan", "inf", "-inf", "infinity", "1e999", "9e308", "9e9", "-", "+", ".", "", "-0", "99e99", "é", "1e-99", "+nan"];
        let r = [20, 20, WORDS.len(), WORDS.len(), 2];
        v.push(space("field-pairs", product(&r), move |ix, rec| {
            let [f, g, w, z, b] = digits(ix, r);
            if g <= f {
                return Ok(());
            }
            let (mut x, mut y) = all[b];
            for (f, w) in [(f, w), (g, z)] {
                let (line, (s, e)) = if f < 12 { (&mut x, FIELDS1[f]) } else { (&mut y, FIELDS2[f - 12]) };
                let word = WORDS[w].as_bytes();
                let n = word.len().min(e - s);
                line[s..e].fill(b' ');
                line[e - n..e].copy_from_slice(&word[..n]);
                repair(line);
            }
            total_tle(&x, &y, rec)
        }));
    }
    {
        // all short texts
        const ALPHABET: [&str; 8] = ["1", "2", " ", "\n", "\r", "é", "\0", "\u{2028}"];
        let depth = if thorough { 7 } else { 5 };
        let size: u64 = (0..=depth).map(|d| 8u64.pow(d)).sum();
        v.push(space("short-texts", size, move |ix, rec| {
            let (mut k, mut d) = (ix, 0);
            while k >= 8u64.pow(d) {
                k -= 8u64.pow(d);
                d += 1;
            }
            let mut s = String::new();
            for _ in 0..d {
                s.push_str(ALPHABET[(k % 8) as usize]);
                k /= 8;
            }
            total_text(&s, rec)
        }));
    }
    {
        // texts made of lines
        let (a, b) = all[0];
        let (a, b) = (String::from_utf8(a.to_vec()).unwrap(), String::from_utf8(b.to_vec()).unwrap());
        let words: Vec<String> = vec![a.clone(), b.clone(), "".into(), "NAME".into(), " ".into(), a[..68].into(), format!("{b} "), format!("{}é", &a[..67]), "\r".into(), "1".into()];
        let n = words.len();
        let depth = if thorough { 5 } else { 4 };
        let size: u64 = (0..=depth).map(|d| (n as u64).pow(d)).sum::<u64>() * 3;
        v.push(space("line-texts", size, move |ix, rec| {
            let end = ["\n", "\r\n", "\r"][(ix % 3) as usize];
            let (mut k, mut d) = (ix / 3, 0);
            while k >= (n as u64).pow(d) {
                k -= (n as u64).pow(d);
                d += 1;
            }
            let mut s = String::new();
            for _ in 0..d {
                s.push_str(&words[(k % n as u64) as usize]);
                s.push_str(end);
                k /= n as u64;
            }
            total_text(&s, rec)
        }));
    }
    {
        let r = [17, JSON_VALUES.len()];
        v.push(space("json-values", product(&r), move |ix, rec| {
            let [f, w] = digits(ix, r);
            let mut o = OMM;
            o[f].1 = JSON_VALUES[w];
            total_json(omm(&o).as_bytes(), rec)
        }));
        let r = [17, 17, JSON_VALUES.len(), if thorough { JSON_VALUES.len() } else { 8 }];
        v.push(space("json-value-pairs", product(&r), move |ix, rec| {
            let [f, g, w, z] = digits(ix, r);
            if g <= f {
                return Ok(());
            }
            let mut o = OMM;
            o[f].1 = JSON_VALUES[w];
            o[g].1 = JSON_VALUES[if r[3] == 8 { z * 8 + 3 } else { z }];
            total_json(omm(&o).as_bytes(), rec)
        }));
    }
    {
        // truncated and changed JSON
        let text = omm(&OMM).into_bytes();
        let n = text.len();
        let r = [n, 257];
        v.push(space("json-bytes", product(&r), move |ix, rec| {
            let [p, c] = digits(ix, r);
            if c == 256 {
                return total_json(&text[..p], rec);
            }
            let mut t = text.clone();
            t[p] = c as u8;
            total_json(&t, rec)
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------------ C11

fn printed(r: &Result<Vec<Elements>, sgp4::TleError>) -> String {
    match r {
        Ok(x) => format!("Ok {x:?}"),
        Err(e) => format!("Err {e:?}"),
    }
}

const ENDS: usize = 5;
const VALID_RECORDS: usize = 3;
const NAMES: [&str; 5] = ["ISS (ZARYA)", "0 VANGUARD 1            ", "", "  Ünïcode 衛星", "1 25544U looks like a line"];

/// parses a text made of the records chosen, all called the same or by various names, and each record on its own
fn whole(records: &[(String, String)], chosen: &[usize], called: Option<&str>, three: bool, style: usize, rec: &mut Rec) -> Result<(), String> {
    let mut lines: Vec<&str> = Vec::new();
    let mut expected: Result<Vec<Elements>, sgp4::TleError> = Ok(Vec::new());
    for (j, which) in chosen.iter().enumerate() {
        let (a, b) = &records[*which];
        let name = called.unwrap_or(NAMES[(which + j) % NAMES.len()]);
        if three {
            lines.push(name);
        }
        lines.push(a);
        lines.push(b);
        if let Ok(list) = &mut expected {
            let one = guard(|| Elements::from_tle(if three { Some(name.to_string()) } else { None }, a.as_bytes(), b.as_bytes())).map_err(|p| format!("panicked: {p}"))?;
            rec.op(1);
            match one {
                Ok(x) => list.push(x),
                Err(e) => expected = Err(e),
            }
        }
    }
    if chosen.iter().all(|w| *w < VALID_RECORDS) && expected.is_err() {
        return Err(format!("a valid record is refused: {}", printed(&expected)));
    }
    let last = lines.len().saturating_sub(1);
    let mut text = String::new();
    for (k, l) in lines.iter().enumerate() {
        text.push_str(l);
        text.push_str(match style {
            0 => "\n",
            1 => "\r\n",
            // an empty last line needs its line end to exist
            2 => if k == last && !l.is_empty() { "" } else { "\n" },
            3 => if k == last && !l.is_empty() { "" } else { "\r\n" },
            _ => if k % 2 == 0 { "\n" } else { "\r\n" },
        });
    }
    let shown = || if text.len() > 2000 { format!("{} records, {:?}...", chosen.len(), text.chars().take(400).collect::<String>()) } else { format!("{text:?}") };
    let got = guard(|| if three { sgp4::parse_3les(&text) } else { sgp4::parse_2les(&text) }).map_err(|p| format!("panicked: {p}; {}", shown()))?;
    rec.op(1);
    rec.trace(1);
    rec.state(Hash::new().s(text.as_bytes()).u(three as u64).0);
    rec.class(match &got {
        Ok(x) if x.is_empty() => "empty",
        Ok(_) => "elements",
        Err(_) => "error",
    });
    let function = if three { "parse_3les" } else { "parse_2les" };
    if let (Ok(g), Ok(e)) = (&got, &expected) {
        if g.len() != e.len() {
            return Err(format!("{function} gives {} elements for {} records; {}", g.len(), e.len(), shown()));
        }
    }
    let (g, e) = (printed(&got), printed(&expected));
    rec.sample(|| format!("{} -> {:.600}", shown(), g));
    if g != e {
        return Err(format!("{function} gives {g:.900}, the records one by one give {e:.900}; {}", shown()));
    }
    if let Ok(list) = &got {
        for (j, x) in list.iter().enumerate() {
            let want = if three { Some(lines[3 * j]) } else { None };
            if x.object_name.as_deref() != want {
                return Err(format!("name {want:?} became {:?}; {}", x.object_name, shown()));
            }
        }
    }
    Ok(())
}

pub fn c11(thorough: bool) -> Vec<Space> {
    let all = bases();
    let s = |l: &[u8]| String::from_utf8(l.to_vec()).unwrap();
    let mut records: Vec<(String, String)> = all.iter().map(|(a, b)| (s(a), s(b))).collect();
    // defective records, each with its own error
    let (a, b) = records[0].clone();
    let mut bad = a.clone();
    bad.replace_range(68..69, "0");
    records.push((bad, b.clone()));
    let mut bad = b.clone();
    bad.replace_range(25..26, "x");
    records.push((a.clone(), bad));
    records.push((a.clone(), b[..60].to_string()));
    records.push((String::new(), String::new()));
    records.push((b.clone(), a.clone()));
    let n = records.len();
    let records = std::sync::Arc::new(records);
    let depth = if thorough { 6 } else { 5 };
    let sizes: Vec<u64> = (0..=depth).map(|d| (n as u64).pow(d)).collect();
    let total: u64 = sizes.iter().sum();
    let mut v = Vec::new();
    {
        let records = records.clone();
        v.push(space("record-sequences", total * ENDS as u64 * 2, move |ix, rec| {
            let (mut k, mut d) = (ix / 2 / ENDS as u64, 0);
            while k >= sizes[d] {
                k -= sizes[d];
                d += 1;
            }
            let chosen: Vec<usize> = (0..d).map(|j| (k / (n as u64).pow(j as u32) % n as u64) as usize).collect();
            whole(&records, &chosen, None, ix % 2 == 1, (ix / 2 % ENDS as u64) as usize, rec)
        }));
    }
    // long texts with one defective record at every position, or none
    {
        let records = records.clone();
        let longest = if thorough { 150 } else { 60 };
        let r = [longest + 1, longest + 2, n - VALID_RECORDS, ENDS, 2];
        v.push(space("long-texts", product(&r), move |ix, rec| {
            let [len, at, kind, style, three] = digits(ix, r);
            if at > len {
                return Ok(());
            }
            let chosen: Vec<usize> = (0..len).map(|j| if j == at { VALID_RECORDS + kind } else { j % VALID_RECORDS }).collect();
            if at == len && kind > 0 {
                return Ok(());
            }
            whole(&records, &chosen, None, three == 1, style, rec)
        }));
    }
    // every name
    {
        let records = records.clone();
        v.push(space("names", names() * ENDS as u64, move |ix, rec| {
            let style = (ix % ENDS as u64) as usize;
            let Some(name) = name(ix / ENDS as u64) else {
                return Ok(());
            };
            // a line feed ends the name, and so does the carriage return before it
            if name.contains('\n') || name.ends_with('\r') {
                return Ok(());
            }
            whole(&records, &[0, 1, 2], Some(&name), true, style, rec)
        }));
    }
    // names that look like lines of a record: each line itself, its prefixes, and one longer
    {
        let records = records.clone();
        let r = [VALID_RECORDS, 2, 71, VALID_RECORDS, ENDS];
        v.push(space("line-names", product(&r), move |ix, rec| {
            let [of, line, length, first, style] = digits(ix, r);
            let mut name = if line == 0 { records[of].0.clone() } else { records[of].1.clone() };
            name.push('7');
            if !name.is_char_boundary(length.min(name.len())) {
                return Ok(());
            }
            name.truncate(length);
            whole(&records, &[first, (first + 1) % VALID_RECORDS, of], Some(&name), true, style, rec)
        }));
    }
    // one character inserted, replaced or removed anywhere in one line of one record
    {
        let records = records.clone();
        const CHARACTERS: [&str; 20] = [" ", "\t", "0", "1", "2", "9", "-", "+", ".", "#", "/", "A", "\"", "\0", "\u{b}", "\u{c}", "é", "\u{a0}", "\u{2028}", "\u{feff}"];
        let r = [3, 3, 2, 70, 2 * CHARACTERS.len() + 1, 2, 2];
        v.push(space("changed-records", product(&r), move |ix, rec| {
            let [at, base, line, p, change, style, three] = digits(ix, r);
            let mut edited = [records[base].0.clone(), records[base].1.clone()];
            let text = &mut edited[line];
            let end = if change < CHARACTERS.len() { p } else { p + 1 };
            if end > text.len() {
                return Ok(());
            }
            let by = if change < 2 * CHARACTERS.len() { CHARACTERS[change % CHARACTERS.len()] } else { "" };
            text.replace_range(p..end, by);
            let mut all: Vec<(String, String)> = records[..VALID_RECORDS].to_vec();
            let [first, second] = edited;
            all.push((first, second));
            let mut chosen = [0, 1, 2];
            chosen[at] = VALID_RECORDS;
            whole(&all, &chosen, None, three == 1, style, rec)
        }));
    }
    // lengths around powers of two and of ten
    {
        let mut lengths: Vec<usize> = (6..=if thorough { 17 } else { 15 }).flat_map(|p| [(1 << p) - 1, 1 << p, (1 << p) + 1]).collect();
        lengths.extend([99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001]);
        let r = [lengths.len(), 3, 2, 2];
        v.push(space("longer-texts", product(&r), move |ix, rec| {
            let [l, bad, style, three] = digits(ix, r);
            let len = lengths[l];
            let mut chosen: Vec<usize> = (0..len).map(|j| j % VALID_RECORDS).collect();
            if bad > 0 {
                chosen[[len - 1, len / 2][bad - 1]] = VALID_RECORDS;
            }
            whole(&records, &chosen, None, three == 1, style, rec)
        }));
    }
    v
}
