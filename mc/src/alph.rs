//! Alphabets shared by the checks.
use crate::refm::{Elems, Geo, PI, TAU, WGS72, WGS84};

/// a geopotential unlike any Earth model, to tell a hard-coded constant from a supplied one
pub const ODD: Geo = Geo { ae: 6400.0, ke: 0.0741, j2: 0.0021, j3: 4.0e-6, j4: 3.0e-6 };
pub const GEOS: [Geo; 3] = [WGS72, WGS84, ODD];

pub fn up(x: f64) -> f64 {
    f64::from_bits(x.to_bits() + 1)
}
pub fn down(x: f64) -> f64 {
    f64::from_bits(x.to_bits() - 1)
}

/// mean motion of an orbit with the given perigee altitude (km) and eccentricity
pub fn n_of_perigee(geo: &Geo, perigee: f64, e: f64) -> f64 {
    let a = (1.0 + perigee / geo.ae) / (1.0 - e);
    geo.ke / a.powf(1.5)
}


pub const NEAR_LIMIT: f64 = TAU / 225.0;

/// (node, argument of perigee, mean anomaly): angles of all quadrants, axes included
pub const ANGLES: [(f64, f64, f64); 12] = [
    (0.0, 0.0, 0.0),
    (0.6, 1.1, 2.0),
    (2.1, 2.6, 0.4),
    (3.9, 4.4, 5.1),
    (5.6, 5.9, 3.6),
    (1.5707963267948966, 1.5707963267948966, 3.141592653589793),
    (6.2, 0.3, 1.5707963267948966),
    (3.141592653589793, 6.1, 4.71238898038469),
    (4.71238898038469, 3.3, 6.25),
    (1.0, 3.141592653589793, 2.9),
    (2.7, 0.05, 4.0),
    (0.05, 5.0, 0.9),
];

pub fn elems(geo: Geo, i: f64, e: f64, n: f64, (node, argp, m): (f64, f64, f64)) -> Elems {
    Elems { geo, theta: 1.3, epoch: 7.25, bstar: 0.0, i, node, e, argp, m, n }
}

pub const INCLINATIONS: [f64; 13] = [
    0.0,
    1e-4,
    0.05,
    0.6,
    1.1065383,
    1.4,
    PI / 2.0,
    1.9,
    2.6,
    3.09,
    PI - 2.2e-6,
    PI - 1.0e-6,
    PI,
];
