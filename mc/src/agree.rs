//! Comparison of the implementation with the reference model, with a tolerance that follows
//! the conditioning of each point.

use crate::engine::guard;
use crate::refm::{Elems, Geo, Out, Sat, Tape};

pub fn geopotential(g: &Geo) -> sgp4::Geopotential {
    sgp4::Geopotential { ae: g.ae, ke: g.ke, j2: g.j2, j3: g.j3, j4: g.j4 }
}

pub fn orbit(el: &Elems) -> sgp4::Orbit {
    sgp4::Orbit {
        inclination: el.i,
        right_ascension: el.node,
        eccentricity: el.e,
        argument_of_perigee: el.argp,
        mean_anomaly: el.m,
        mean_motion: el.n,
    }
}

pub fn constants(el: &Elems) -> Result<Result<sgp4::Constants, f64>, String> {
    // the sidereal time at the epoch, at its usual rate: only the epoch itself gives the right angle
    let (theta, epoch) = (el.theta, el.epoch);
    let sidereal = move |x: f64| if x.is_finite() && epoch.is_finite() { theta + 2301.2 * (x - epoch) } else { theta };
    guard(|| {
        sgp4::Constants::new(geopotential(&el.geo), sidereal, el.epoch, el.bstar, orbit(el)).map_err(|e| e.0)
    })
    .map_err(|p| format!("Constants::new panicked: {p}; {el:?}"))
}

#[derive(Clone, Debug)]
pub enum Got {
    Ok([f64; 3], [f64; 3]),
    Ecc(f64, f64),
    PertEcc(f64, f64),
    SemiLatus(f64),
    Panic(String),
}

impl Got {
    pub fn class(&self) -> &'static str {
        match self {
            Got::Ok(..) => "prediction",
            Got::Ecc(..) => "eccentricity-error",
            Got::PertEcc(..) => "perturbed-eccentricity-error",
            Got::SemiLatus(..) => "semi-latus-rectum-error",
            Got::Panic(..) => "panic",
        }
    }
    /// bitwise equality
    pub fn same(&self, o: &Got) -> bool {
        let b = |x: &[f64; 3], y: &[f64; 3]| (0..3).all(|k| x[k].to_bits() == y[k].to_bits());
        match (self, o) {
            (Got::Ok(p, v), Got::Ok(q, w)) => b(p, q) && b(v, w),
            (Got::Ecc(e, t), Got::Ecc(f, u)) | (Got::PertEcc(e, t), Got::PertEcc(f, u)) => {
                e.to_bits() == f.to_bits() && t.to_bits() == u.to_bits()
            }
            (Got::SemiLatus(t), Got::SemiLatus(u)) => t.to_bits() == u.to_bits(),
            (Got::Panic(_), Got::Panic(_)) => true,
            _ => false,
        }
    }
    pub fn hash(&self) -> u64 {
        use crate::engine::Hash;
        let h = Hash::new();
        match self {
            Got::Ok(p, v) => h.u(1).f(p[0]).f(p[1]).f(p[2]).f(v[0]).f(v[1]).f(v[2]),
            Got::Ecc(e, t) => h.u(2).f(*e).f(*t),
            Got::PertEcc(e, t) => h.u(3).f(*e).f(*t),
            Got::SemiLatus(t) => h.u(4).f(*t),
            Got::Panic(_) => h.u(5),
        }
        .0
    }
}

pub fn got(r: Result<Result<sgp4::Prediction, sgp4::Error>, String>) -> Got {
    match r {
        Ok(Ok(p)) => Got::Ok(p.position, p.velocity),
        Ok(Err(sgp4::Error::OutOfRangeEccentricity { eccentricity, t })) => Got::Ecc(eccentricity, t),
        Ok(Err(sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t })) => {
            Got::PertEcc(eccentricity, t)
        }
        Ok(Err(sgp4::Error::NegativeSemiLatusRectum { t })) => Got::SemiLatus(t),
        Err(p) => Got::Panic(p),
    }
}

pub fn propagate(c: &sgp4::Constants, t: f64, afspc: bool) -> Got {
    got(guard(|| {
        if afspc {
            c.propagate_afspc_compatibility_mode(sgp4::MinutesSinceEpoch(t))
        } else {
            c.propagate(sgp4::MinutesSinceEpoch(t))
        }
    }))
}

pub fn from_state(c: &sgp4::Constants, t: f64, state: Option<&mut sgp4::ResonanceState>, afspc: bool) -> Got {
    got(guard(|| c.propagate_from_state(sgp4::MinutesSinceEpoch(t), state, afspc)))
}

/// base tolerances: position in km, velocity in km/s
pub const BASE_R: f64 = 1.0e-6;
pub const BASE_V: f64 = 1.0e-9;

pub struct Model {
    pub el: Elems,
    pub sat: Sat,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Close,
    Conditioned,
    Tie,
    Undefined,
    Chaotic,
}

impl Verdict {
    pub fn class(&self) -> &'static str {
        match self {
            Verdict::Close => "agrees",
            Verdict::Conditioned => "agrees-ill-conditioned",
            Verdict::Tie => "agrees-threshold-tie",
            Verdict::Undefined => "model-undefined",
            Verdict::Chaotic => "model-chaotic",
        }
    }
}

fn diff3(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    let d = (a[0] - b[0]).abs().max((a[1] - b[1]).abs()).max((a[2] - b[2]).abs());
    if a.iter().chain(b).any(|x| x.is_nan()) {
        f64::INFINITY
    } else {
        d
    }
}

fn defined(o: &Out) -> bool {
    match o {
        Out::Ok(p, v) => p.iter().chain(v).all(|x| x.is_finite()),
        Out::Ecc(e) | Out::PertEcc(e) => e.is_finite(),
        Out::SemiLatus => true,
    }
}

fn kind(o: &Out) -> u8 {
    match o {
        Out::Ok(..) => 0,
        Out::Ecc(_) => 1,
        Out::PertEcc(_) => 2,
        Out::SemiLatus => 3,
    }
}

/// (position or eccentricity difference, velocity difference); None if of different kinds
fn delta(a: &Out, b: &Out) -> Option<(f64, f64)> {
    match (a, b) {
        (Out::Ok(p, v), Out::Ok(q, w)) => Some((diff3(p, q), diff3(v, w))),
        (Out::Ecc(e), Out::Ecc(f)) | (Out::PertEcc(e), Out::PertEcc(f)) => Some(((e - f).abs(), 0.0)),
        (Out::SemiLatus, Out::SemiLatus) => Some((0.0, 0.0)),
        _ => None,
    }
}

fn scale(o: &Out) -> (f64, f64) {
    match o {
        Out::Ok(p, v) => (
            BASE_R + 1e-13 * p.iter().fold(0.0f64, |a, b| a.max(b.abs())),
            BASE_V + 1e-13 * v.iter().fold(0.0f64, |a, b| a.max(b.abs())),
        ),
        Out::Ecc(e) | Out::PertEcc(e) => (1e-12 * (1.0 + e.abs()), 1.0),
        Out::SemiLatus => (1.0, 1.0),
    }
}

pub fn as_out(g: &Got, t: f64) -> Result<Out, String> {
    let same = |x: f64| x.to_bits() == t.to_bits() || (x.is_nan() && t.is_nan());
    match g {
        Got::Ok(p, v) => Ok(Out::Ok(*p, *v)),
        Got::Ecc(e, u) if same(*u) => Ok(Out::Ecc(*e)),
        Got::PertEcc(e, u) if same(*u) => Ok(Out::PertEcc(*e)),
        Got::SemiLatus(u) if same(*u) => Ok(Out::SemiLatus),
        Got::Panic(m) => Err(format!("panicked: {m}")),
        g => Err(format!("error carries a time other than {t:?}: {g:?}")),
    }
}

const DELTA: f64 = 4.0e-15;
const GAIN: f64 = 40.0;

impl Model {
    pub fn new(el: Elems) -> Model {
        let mut init = Tape::default();
        let sat = Sat::new(el, &mut init);
        Model { el, sat }
    }

    pub fn expect(&self, t: f64, afspc: bool) -> Out {
        self.sat.at(t, afspc, &mut Tape::default())
    }

    /// decides whether `g` is what the equations give at t
    pub fn check(&self, t: f64, afspc: bool, g: &Got) -> Result<Verdict, String> {
        let actual = as_out(g, t).map_err(|m| self.describe(t, afspc, &m))?;
        let mut tape = Tape::default();
        let expected = self.sat.at(t, afspc, &mut tape);
        if !defined(&expected) {
            // the equations have no value here: only the absence of a prediction can be right, which
            // is what the totality check decides
            return Ok(Verdict::Undefined);
        }
        if let Some((r, v)) = delta(&expected, &actual) {
            let (sr, sv) = scale(&expected);
            if r <= sr && v <= sv {
                return Ok(Verdict::Close);
            }
        }
        self.slow(t, afspc, &actual, &expected)
    }

    /// whether the equations still have no value when an input moves within rounding
    pub fn undefined_around(&self, t: f64, afspc: bool) -> bool {
        (0..11).all(|k| {
            [1.0, -1.0].iter().all(|sign| {
                let (el, u) = nudged(&self.el, t, k, *sign);
                !defined(&evaluate_tape(&el, u, afspc, &[]).0)
            })
        })
    }

    fn describe(&self, t: f64, afspc: bool, m: &str) -> String {
        format!("{m}; t={t:?} afspc={afspc} kind={:?} {:?}", self.sat.kind, self.el)
    }

    /// follows every path that rounding may take: decisions closer to their threshold than rounding moves them
    fn slow(&self, t: f64, afspc: bool, actual: &Out, expected: &Out) -> Result<Verdict, String> {
        let mut best = String::new();
        let mut chaotic = false;
        let mut work: Vec<Vec<i64>> = vec![Vec::new()];
        let mut done = 0;
        while let Some(prefix) = work.pop() {
            done += 1;
            if done > 64 {
                break;
            }
            let mut tape = Tape::replay(prefix.clone());
            let sat = Sat::new(self.el, &mut tape);
            let out = sat.at(t, afspc, &mut tape);
            let full: Vec<i64> = tape.entries.iter().map(|e| e.taken).collect();
            let (tol, moves, angle) = self.sensitivity(t, afspc, &full, &out);
            for (k, e) in tape.entries.iter().enumerate().skip(prefix.len()) {
                if !(e.margin >= 1e-9 + GAIN * moves.get(k).copied().unwrap_or(0.0)) || e.margin.is_infinite() {
                    let mut turned = full[..k].to_vec();
                    turned.push(e.alt);
                    work.push(turned);
                }
            }
            let flipped = !prefix.is_empty();
            if !defined(&out) {
                // a decision within rounding of its threshold, with no value on the other side
                chaotic |= flipped;
                continue;
            }
            let Some(tol) = tol else {
                chaotic = true;
                continue;
            };
            // so many turns, or so close to a singularity, that no digit is left
            chaotic |= !(GAIN * angle < 0.05);
            chaotic |= match &out {
                Out::Ok(p, _) => GAIN * tol.0 > 0.01 * p.iter().fold(0.0f64, |a, b| a.max(b.abs())),
                Out::Ecc(e) | Out::PertEcc(e) => GAIN * tol.0 > 0.01 * (1.0 + e.abs()),
                Out::SemiLatus => false,
            };
            if let Some((r, v)) = delta(&out, actual) {
                let (sr, sv) = scale(&out);
                if r <= sr + GAIN * tol.0 && v <= sv + GAIN * tol.1 {
                    return Ok(if flipped { Verdict::Tie } else { Verdict::Conditioned });
                }
                if best.is_empty() {
                    best = format!("differs by {r:e} (allowed {:e}), {v:e} (allowed {:e})", sr + GAIN * tol.0, sv + GAIN * tol.1);
                }
            }
        }
        if chaotic {
            return Ok(Verdict::Chaotic);
        }
        Err(self.describe(t, afspc, &format!("expected {expected:?}, got {actual:?}; {best}")))
    }

    /// how far the answer and each decision margin move under input changes of a few units in the last place,
    /// along the given decisions, and how far the angles do; no distance if the kind of answer itself is not stable
    fn sensitivity(&self, t: f64, afspc: bool, forced: &[i64], out: &Out) -> (Option<(f64, f64)>, Vec<f64>, f64) {
        let mut sum = Some((0.0, 0.0));
        let mut angle = 0.0f64;
        let (_, reference, angles) = evaluate_tape(&self.el, t, afspc, forced);
        let mut moves = vec![0.0f64; reference.len()];
        for k in 0..11 {
            for sign in [1.0, -1.0] {
                let (el, u) = nudged(&self.el, t, k, sign);
                // input thresholds are exact: do not cross them
                if class_of(&el) != class_of(&self.el) {
                    continue;
                }
                let (o, entries, turned) = evaluate_tape(&el, u, afspc, forced);
                if kind(&o) == kind(out) {
                    angle = angle.max(diff3(&angles, &turned));
                }
                for (m, (a, b)) in moves.iter_mut().zip(entries.iter().zip(&reference)) {
                    let d = (a - b).abs();
                    *m = m.max(if d.is_nan() { f64::INFINITY } else { d });
                }
                if kind(&o) != kind(out) || !defined(&o) {
                    sum = None;
                } else if let (Some(s), Some(x)) = (sum.as_mut(), delta(&o, out)) {
                    s.0 += x.0;
                    s.1 += x.1;
                }
            }
        }
        (sum, moves, angle)
    }
}

/// an input moved by a few units in the last place
fn nudged(el: &Elems, t: f64, k: usize, sign: f64) -> (Elems, f64) {
    let (mut el, mut u) = (*el, t);
    let d = |x: f64| x + sign * DELTA * (x.abs() + 1e-3);
    match k {
        0 => el.i = d(el.i),
        1 => el.node = d(el.node),
        2 => el.e = (el.e * (1.0 + sign * DELTA)).clamp(0.0, 1.0 - 1e-16),
        3 => el.argp = d(el.argp),
        4 => el.m = d(el.m),
        5 => el.n *= 1.0 + sign * DELTA,
        6 => u *= 1.0 + sign * DELTA,
        7 => el.theta = d(el.theta),
        8 => el.epoch = d(el.epoch),
        9 => el.bstar *= 1.0 + sign * DELTA,
        _ => el.geo.ke *= 1.0 + sign * DELTA,
    }
    (el, u)
}

/// the direct input thresholds
fn class_of(el: &Elems) -> [bool; 11] {
    use crate::refm::{PI, TAU};
    [
        el.n > TAU / 225.0,
        el.n < 0.0052359877,
        el.n > 0.0034906585,
        el.n >= 8.26e-3,
        el.n <= 9.24e-3,
        el.e >= 0.5,
        el.e <= 0.65,
        el.e < 0.7,
        el.e > 0.715,
        el.e > 1.0e-4,
        el.i < 5.2359877e-2 || el.i > PI - 5.2359877e-2,
    ]
}

fn evaluate_tape(el: &Elems, t: f64, afspc: bool, forced: &[i64]) -> (Out, Vec<f64>, [f64; 3]) {
    let mut tape = Tape::replay(forced.to_vec());
    let sat = Sat::new(*el, &mut tape);
    let o = sat.at(t, afspc, &mut tape);
    (o, tape.entries.iter().map(|e| e.margin).collect(), tape.angles)
}
