//! C01, C02, C03: agreement with the published equations.
use crate::agree::{constants, propagate, Got, Model, Verdict};
use crate::alph::*;
use crate::engine::*;
use crate::refm::{Elems, Kind, PI, TAU, WGS72};

/// initialises, propagates to every time in both modes and compares
pub fn compare(el: Elems, times: &[f64], modes: &[bool], rec: &mut Rec) -> Result<(), String> {
    let model = Model::new(el);
    let c = match constants(&el)? {
        Ok(c) => c,
        Err(x) => return Err(format!("refused with eccentricity {x:?}: {el:?}")),
    };
    rec.op(1);
    for &t in times {
        for &afspc in modes {
            let g = propagate(&c, t, afspc);
            rec.op(1);
            let v = model.check(t, afspc, &g)?;
            rec.trace(1);
            rec.state(Hash(g.hash()).f(t).u(afspc as u64).f(el.i).f(el.n).0);
            rec.class(v.class());
            rec.class(g.class());
            rec.sample(|| format!("{:?} t={t} afspc={afspc} {el:?} -> {g:?}", model.sat.kind));
            if let (Verdict::Undefined, Got::Ok(p, _)) = (v, &g) {
                if p.iter().all(|x| x.is_finite()) && model.undefined_around(t, afspc) {
                    return Err(format!("a finite prediction where the equations have no value: t={t} {el:?} {g:?}"));
                }
            }
        }
    }
    Ok(())
}

const BOTH: [bool; 2] = [false, true];

/// sets one of ten parameters to the point x of its range
fn vary(el: &mut Elems, t: &mut f64, q: usize, x: f64, motions: (f64, f64)) {
    match q {
        0 => el.i = x * PI,
        1 => el.e = x * x * 0.98,
        2 => el.n = motions.0 + x * (motions.1 - motions.0),
        3 => el.argp = (2.0 * x - 0.5) * TAU,
        4 => el.m = (2.0 * x - 0.5) * TAU,
        5 => el.node = (2.0 * x - 0.5) * TAU,
        6 => *t = (2.0 * x - 1.0).powi(3) * 1.0e6,
        7 => el.bstar = (2.0 * x - 1.0).powi(5) * 0.1,
        8 => el.epoch = 5.0 + (2.0 * x - 1.0) * 50.0 + (2.0 * x - 1.0).powi(5) * 250.0,
        _ => el.theta = (2.0 * x - 0.5) * TAU,
    }
}

/// every pair of parameters over a square grid, around each of the given orbits
fn planes(bases: Vec<(Elems, f64, (f64, f64))>, parameters: usize, side: usize, modes: &'static [bool]) -> Space {
    let mut pairs = Vec::new();
    for a in 0..parameters {
        for b in a + 1..parameters {
            pairs.push((a, b));
        }
    }
    let r = [bases.len(), pairs.len(), side, side];
    space("planes", product(&r), move |ix, rec| {
        let [o, q, x, y] = digits(ix, r);
        let (mut el, mut t, motions) = bases[o];
        // the two ends of a range and the points between them, off the round values
        let at = |k: usize| (k as f64 + 0.37 * (k > 0 && k + 1 < side) as u8 as f64) / (side - 1) as f64;
        vary(&mut el, &mut t, pairs[q].0, at(x), motions);
        vary(&mut el, &mut t, pairs[q].1, at(y), motions);
        compare(el, &[t], modes, rec)
    })
}

/// every parameter finely, around each of the given orbits
fn parameter_lines(bases: Vec<(Elems, f64, (f64, f64))>, parameters: usize, count: usize, modes: &'static [bool]) -> Space {
    let r = [bases.len(), parameters, count];
    space("parameter-lines", product(&r), move |ix, rec| {
        let [o, q, k] = digits(ix, r);
        let (mut el, mut t, motions) = bases[o];
        vary(&mut el, &mut t, q, (k as f64 + 0.43) / count as f64, motions);
        compare(el, &[t], modes, rec)
    })
}

/// inclinations below 0 and above a half turn, at a few times
fn turned_inclinations(bases: Vec<(Elems, f64, (f64, f64))>, count: usize, modes: &'static [bool]) -> Space {
    let r = [bases.len(), 2, count, 4];
    space("turned-inclinations", product(&r), move |ix, rec| {
        let [o, above, k, j] = digits(ix, r);
        let (mut el, t, _) = bases[o];
        let x = (k as f64 + 0.43) / count as f64 * TAU;
        el.i = if above == 0 { -x } else { PI + x };
        compare(el, &[[t, 0.0, -1000.0, 1.0e5][j]], modes, rec)
    })
}

/// evenly spaced times either way of epoch
fn even_times(orbits: Vec<Elems>, step: f64, last: f64, modes: &'static [bool]) -> Space {
    let count = (2.0 * last / step) as usize;
    let r = [orbits.len(), count];
    space("even-times", product(&r), move |ix, rec| {
        let [o, k] = digits(ix, r);
        compare(orbits[o], &[(k as f64 + 0.31) * step - last], modes, rec)
    })
}

/// every three parameters over a cubic grid, around each of the given orbits
fn cubes(bases: Vec<(Elems, f64, (f64, f64))>, parameters: usize, side: usize, modes: &'static [bool]) -> Space {
    let mut triples = Vec::new();
    for a in 0..parameters {
        for b in a + 1..parameters {
            for c in b + 1..parameters {
                triples.push([a, b, c]);
            }
        }
    }
    let r = [bases.len(), triples.len(), side, side, side];
    space("cubes", product(&r), move |ix, rec| {
        let [o, q, x, y, z] = digits(ix, r);
        let (mut el, mut t, motions) = bases[o];
        for (p, k) in triples[q].iter().zip([x, y, z]) {
            vary(&mut el, &mut t, *p, (k as f64 + 0.61) / (side as f64 + 0.22), motions);
        }
        compare(el, &[t], modes, rec)
    })
}

/// times from a second to two thousand years either way
fn far_times(orbits: Vec<Elems>, per_decade: usize, last: f64, modes: &'static [bool]) -> Space {
    let decades = (last / 0.01).log10();
    let count = (decades * per_decade as f64) as usize;
    let r = [2, orbits.len(), count];
    space("time-decades", product(&r), move |ix, rec| {
        let [s, o, k] = digits(ix, r);
        let t = 0.01 * 10f64.powf((k + 1) as f64 / per_decade as f64);
        compare(orbits[o], &[if s == 0 { t } else { -t }], modes, rec)
    })
}

/// other planets: each constant of the geopotential scaled, and the odd zonal terms with either sign
fn geopotentials(orbits: Vec<(Elems, Vec<f64>)>, count: usize, modes: &'static [bool]) -> Space {
    let r = [orbits.len(), 5, count];
    space("geopotentials", product(&r), move |ix, rec| {
        let [o, q, k] = digits(ix, r);
        let (mut el, times) = orbits[o].clone();
        let x = 2.0 * k as f64 / (count - 1) as f64 - 1.0;
        match q {
            0 => el.geo.ae *= 1.0 + 0.3 * x,
            1 => {
                // the orbit keeps its size
                el.geo.ke *= 1.0 + 0.3 * x;
                el.n *= 1.0 + 0.3 * x;
            }
            2 => el.geo.j2 *= 1.001 + x,
            3 => el.geo.j3 *= 3.0 * x,
            _ => el.geo.j4 *= 3.0 * x,
        }
        compare(el, &times, modes, rec)
    })
}

/// angles of many turns either way, far epochs and, when asked, motions of orbits below the surface
fn unusual(orbits: Vec<(Elems, Vec<f64>)>, count: usize, fast: bool, modes: &'static [bool]) -> Space {
    let r = [orbits.len(), 6, 2, count];
    space("unusual", product(&r), move |ix, rec| {
        let [o, q, s, k] = digits(ix, r);
        let (mut el, times) = orbits[o].clone();
        let x = (k as f64 + 0.5) / count as f64;
        let sign = if s == 0 { 1.0 } else { -1.0 };
        let angle = sign * 10f64.powf(0.5 + 5.0 * x);
        match q {
            0 => el.node = angle,
            1 => el.argp = angle,
            2 => el.m = angle,
            3 => el.theta = angle,
            4 => el.epoch = sign * 10f64.powf(3.5 * x),
            _ if fast && s == 0 => el.n = 0.07 + 0.4 * x * x,
            _ => return Ok(()),
        }
        compare(el, &times, modes, rec)
    })
}

fn kind_class(k: Kind) -> &'static str {
    match k {
        Kind::Near => "near-earth",
        Kind::NearSimple => "near-earth-simple-drag",
        Kind::Deep => "deep",
        Kind::Day => "resonant-24h",
        Kind::HalfDay => "resonant-12h",
    }
}

pub fn c01(thorough: bool) -> Vec<Space> {
    let es: Vec<f64> = if thorough {
        vec![0.0, 1e-7, 1e-6, 5e-5, down(1e-4), 1e-4, up(1e-4), 1.1e-4, 1e-3, 0.01, 0.03, 0.1, 0.2, 0.3, 0.4, 0.45]
    } else {
        vec![0.0, 5e-5, 1e-4, up(1e-4), 0.0015, 0.02, 0.1, 0.3, 0.45]
    };
    let perigees: Vec<f64> = vec![
        -50.0, 20.0, 97.999, 98.001, 125.0, 155.999, 156.001, 190.0, 219.999, 220.001, 290.0, 500.0, 900.0, 2000.0, 4500.0,
    ];
    let drags = [0.0, 2e-5, -3e-5, 4e-4, 0.02, -0.1];
    let times: Vec<f64> = if thorough {
        vec![0.0, 0.5, -0.5, 30.0, -47.0, 360.0, 1440.0, -1440.0, 4321.0, 20000.0, -20000.0, 1e5, 3e5, 1e6, -1e6]
    } else {
        vec![0.0, 17.0, -47.0, 1440.0, -2880.0, 20000.0, 3e5]
    };
    let angles: Vec<_> = if thorough {
        let mut a = ANGLES.to_vec();
        for j in 0..24 {
            let x = j as f64 * 0.261799;
            a.push((TAU - x, (x * 5.0 + 0.1) % TAU, (x * 7.0 + 0.2) % TAU));
        }
        a
    } else {
        ANGLES[..5].to_vec()
    };
    let r = [GEOS.len(), es.len(), perigees.len(), INCLINATIONS.len(), drags.len(), angles.len()];
    let grid = {
        let times = times.clone();
        let es = es.clone();
        space("perigee-bands", product(&r), move |ix, rec| {
            let [g, e, p, i, d, a] = digits(ix, r);
            let geo = GEOS[g];
            let n = n_of_perigee(&geo, perigees[p], es[e]);
            if n <= NEAR_LIMIT {
                rec.class("skipped-not-near-earth");
                return Ok(());
            }
            let mut el = elems(geo, INCLINATIONS[i], es[e], n, angles[a]);
            el.bstar = drags[d];
            let model_kind = Model::new(el).sat.kind;
            rec.class(kind_class(model_kind));
            compare(el, &times, if thorough || d == 1 { &BOTH } else { &BOTH[..1] }, rec)
        })
    };
    // the boundary with deep space, from above
    let ns = [up(NEAR_LIMIT), NEAR_LIMIT * (1.0 + 1e-9), 0.0281, 0.03, 0.04, 0.06, 0.0744, 0.08];
    let es2 = [0.0, 9e-5, 2e-4, 0.05, 0.2, 0.35, 0.6, 0.9, 0.99, 0.9999, down(1.0)];
    let r2 = [3, ns.len(), es2.len(), INCLINATIONS.len(), drags.len(), ANGLES.len()];
    let edge = {
        let times = times.clone();
        space("mean-motion-edge", product(&r2), move |ix, rec| {
            let [g, n, e, i, d, a] = digits(ix, r2);
            let mut el = elems(GEOS[g], INCLINATIONS[i], es2[e], ns[n], ANGLES[a]);
            el.bstar = drags[d];
            compare(el, &times, &BOTH[..1], rec)
        })
    };
    // dense in time over several revolutions
    let step = if thorough { 0.25 } else { 1.0 };
    let count = (3000.0 / step) as usize;
    let dense_orbits: Vec<Elems> = {
        let mut v = Vec::new();
        for (geo, i, e, p, b) in [
            (WGS72, 0.9, 0.001, 420.0, 1e-4),
            (GEOS[1], 1.7, 0.2, 230.0, 5e-4),
            (GEOS[1], 0.01, 0.0, 600.0, 1e-5),
            (WGS72, PI, 0.05, 300.0, 1e-4),
            (GEOS[2], 2.2, 0.4, 150.0, 1e-4),
            (WGS72, 0.3, 5e-5, 200.0, 1e-3),
        ] {
            let mut el = elems(geo, i, e, n_of_perigee(&geo, p, e), (1.0, 2.0, 3.0));
            el.bstar = b;
            v.push(el);
        }
        v
    };
    let r3 = [dense_orbits.len(), count];
    let dense = space("dense-times", product(&r3), move |ix, rec| {
        let [o, k] = digits(ix, r3);
        let t = (k as f64 - count as f64 / 2.0) * step;
        compare(dense_orbits[o], &[t], &BOTH, rec)
    });
    // one parameter at a time, finely, around a low and a high orbit
    let fine = if thorough { 20000 } else { 2000 };
    let r4 = [4, 6, fine];
    let lines = space("fine-lines", product(&r4), move |ix, rec| {
        let [o, q, k] = digits(ix, r4);
        let x = k as f64 / fine as f64;
        let geo = [WGS72, GEOS[1], WGS72, GEOS[1]][o];
        let (e, p) = [(0.02, 250.0), (0.003, 700.0), (0.15, 180.0), (0.0, 500.0)][o];
        let mut el = elems(geo, 0.8, e, n_of_perigee(&geo, p, e), (1.0, 2.0, 3.0));
        el.bstar = 1e-4;
        match q {
            0 => el.i = x * PI,
            1 => {
                el.e = x * 0.9;
            }
            2 => el.n = NEAR_LIMIT * (1.0 + 1e-9) + x * (0.075 - NEAR_LIMIT),
            3 => el.argp = x * TAU,
            4 => el.m = x * TAU,
            _ => el.node = x * TAU,
        }
        compare(el, &[0.0, 333.3, -1200.0, 9000.0], &BOTH[..1], rec)
    });
    // pairs of parameters
    let mut bases = Vec::new();
    for (geo, i, e, p, b, t) in [(WGS72, 0.9, 0.01, 400.0, 1e-4, 1000.0), (GEOS[1], 1.8, 0.12, 210.0, -2e-4, -3000.0), (GEOS[1], 0.05, 7e-5, 1200.0, 3e-3, 50.0), (ODD, 2.9, 0.3, 150.0, 1e-5, 7000.0), (WGS72, 1.1, 0.001, 100.0, 5e-4, 300.0), (GEOS[1], PI - 0.01, 2e-4, 800.0, 1e-2, -900.0), (WGS72, 0.4, 0.4, 90.0, 0.0, 20000.0), (ODD, 1.5, 0.05, 215.0, -1e-3, 0.0)] {
        let mut el = elems(geo, i, e, n_of_perigee(&geo, p, e), (1.0, 2.0, 3.0));
        el.bstar = b;
        bases.push((el, t, (up(NEAR_LIMIT), 0.076)));
    }
    let calm: Vec<Elems> = (0..12)
        .map(|k| {
            let (geo, i, e, p) = [(WGS72, 0.9, 0.001, 420.0), (GEOS[1], 1.7, 0.2, 230.0), (GEOS[1], 0.01, 0.0, 600.0), (WGS72, PI, 0.05, 300.0)][k / 3];
            let mut el = elems(geo, i, e, n_of_perigee(&geo, p, e), (1.0, 2.0, 3.0));
            el.bstar = [0.0, 1e-9, -1e-7][k % 3];
            el
        })
        .collect();
    let worlds: Vec<_> = calm.iter().map(|el| (Elems { bstar: 1e-4, ..*el }, vec![0.0, 100.0, -3000.0, 1e5])).collect();
    let unusual = unusual(worlds.clone(), if thorough { 20000 } else { 2000 }, true, &BOTH[..1]);
    let decades = far_times(calm, if thorough { 2000 } else { 500 }, 1e9, &BOTH[..1]);
    let worlds = geopotentials(worlds, if thorough { 10000 } else { 2000 }, &BOTH[..1]);
    let turned = turned_inclinations(bases.clone(), if thorough { 10000 } else { 1000 }, &BOTH);
    let plines = parameter_lines(bases.clone(), 8, if thorough { 30000 } else { 5000 }, &BOTH[..1]);
    let cubes = cubes(bases.clone(), 8, if thorough { 60 } else { 30 }, &BOTH[..1]);
    let planes = planes(bases, 8, if thorough { 500 } else { 250 }, &BOTH[..1]);
    vec![edge, dense, lines, plines, turned, decades, worlds, unusual, planes, cubes, grid]
}

pub fn c02(thorough: bool) -> Vec<Space> {
    // inclinations around the near-equatorial and Lyddane thresholds
    let near_eq = 5.2359877e-2;
    let mut incs = vec![
        0.0, 1e-6, 0.02, down(near_eq), near_eq, up(near_eq), 0.1, 0.185, 0.195, 0.199, 0.1999, 0.2, 0.2001, 0.2005, 0.205, 0.22,
        0.5, 1.0, 1.1065, PI / 2.0, 1.9, 2.5, 3.0, PI - up(near_eq), PI - near_eq, up(PI - near_eq), down(PI - near_eq), 3.1, PI - 1e-6, PI,
    ];
    if thorough {
        for k in 0..40 {
            incs.push(0.19 + 0.0005 * k as f64);
        }
    }
    let ns: Vec<f64> = vec![
        NEAR_LIMIT,
        down(NEAR_LIMIT),
        0.02,
        0.012,
        up(9.24e-3),
        9.3e-3,
        down(8.26e-3),
        0.0065,
        up(0.0052359877),
        0.0052359877,
        down(0.0034906585),
        0.0034906585,
        0.002,
        0.0005,
        // in the 12 h band but below the eccentricity threshold
        0.0087,
    ];
    let es: Vec<f64> = vec![0.0, 1e-5, 0.003, 0.1, 0.3, down(0.5), 0.6, 0.75, 0.9];
    let epochs: Vec<f64> = if thorough {
        (0..16).map(|k| -43.0 + 6.3 * k as f64).collect()
    } else {
        vec![-42.7, -20.03, 0.0, 6.48, 20.5, 56.9]
    };
    let times: Vec<f64> = if thorough {
        vec![0.0, 1.0, -1.0, 720.0, -720.0, 5000.0, -5000.0, 43200.0, 2e5, -2e5, 1e6, 5e6]
    } else {
        vec![0.0, -700.0, 3000.0, -43200.0, 4e5]
    };
    let na = if thorough { ANGLES.len() } else { 4 };
    let r = [incs.len(), ns.len(), es.len(), epochs.len(), na, 2];
    let grid = {
        let (incs, ns, es, epochs, times) = (incs.clone(), ns.clone(), es.clone(), epochs.clone(), times.clone());
        space("grid", product(&r), move |ix, rec| {
            let [i, n, e, ep, a, d] = digits(ix, r);
            let geo = GEOS[(i + n + e + a + d) % 3];
            let mut el = elems(geo, incs[i], es[e], ns[n], ANGLES[a]);
            el.epoch = epochs[ep];
            el.bstar = [0.0, 3e-4][d];
            let m = Model::new(el);
            if m.sat.kind != Kind::Deep {
                rec.class("skipped-resonant");
                return Ok(());
            }
            compare(el, &times, &BOTH, rec)
        })
    };
    // Lyddane: nodes of every sign and quadrant and beyond a turn, so that the node reduction matters
    let nodes: Vec<f64> = {
        let mut v = vec![0.0, -1e-3, 1e-3, TAU, TAU - 1e-3, TAU + 1e-3, -TAU, -TAU + 0.01, PI, -PI];
        let k = if thorough { 96 } else { 24 };
        for j in 0..k {
            v.push(-7.0 + 21.0 * j as f64 / k as f64);
        }
        v
    };
    let linc = [0.0, 1e-5, 0.001, 0.01, 0.03, 0.06, 0.1, 0.15, 0.19, 0.1995, 0.2005];
    let ln = [0.02, 0.0065, 0.0015, 0.0087];
    let lt: Vec<f64> = if thorough {
        vec![0.0, 60.0, 1440.0, -1440.0, 20000.0, -20000.0, 2e5, -2e5, 1e6, -1e6]
    } else {
        vec![0.0, 1440.0, -20000.0, 5e5, -5e5]
    };
    let r2 = [nodes.len(), linc.len(), ln.len(), 3, 4, 2];
    let lyddane = space("lyddane-nodes", product(&r2), move |ix, rec| {
        let [o, i, n, e, ep, a] = digits(ix, r2);
        let mut el = elems(GEOS[(o + i) % 2], linc[i], [0.001, 0.2, 0.49][e], ln[n], [(0.0, 0.4, 1.0), (0.0, 3.0, 5.0)][a]);
        el.node = nodes[o];
        el.epoch = [-30.2, 3.3, 6.6, 33.1][ep];
        compare(el, &lt, &BOTH, rec)
    });
    // the epoch drives the third-body geometry: every ~9 days over a century
    let steps = if thorough { 40000 } else { 4000 };
    let r3 = [steps, 3];
    let epochs_line = space("epoch-line", product(&r3), move |ix, rec| {
        let [k, o] = digits(ix, r3);
        let (i, e, n) = [(1.1, 0.7, 0.0065), (0.05, 0.01, 0.0061), (2.0, 0.3, 0.02)][o];
        let mut el = elems(GEOS[o % 2], i, e, n, (1.0, 2.0, 3.0));
        el.epoch = -43.0 + 100.0 * k as f64 / steps as f64;
        compare(el, &[0.0, 1440.0, -1e5], &BOTH, rec)
    });
    let fine = if thorough { 20000 } else { 2000 };
    let r4 = [3, 6, fine];
    let lines = space("fine-lines", product(&r4), move |ix, rec| {
        let [o, q, k] = digits(ix, r4);
        let x = k as f64 / fine as f64;
        let (i, e, n) = [(1.1, 0.3, 0.0065), (0.08, 0.01, 0.0061), (0.2, 0.3, 0.02)][o];
        let mut el = elems(GEOS[o % 2], i, e, n, (1.0, 2.0, 3.0));
        el.bstar = 1e-4;
        match q {
            0 => el.i = x * PI,
            1 => el.e = x * 0.95,
            2 => el.n = 0.0095 + x * (NEAR_LIMIT - 0.0095),
            3 => el.argp = x * TAU,
            4 => el.m = x * TAU,
            _ => el.node = (x * 4.0 - 2.0) * TAU,
        }
        compare(el, &[0.0, 800.0, -12000.0, 2e5], &BOTH, rec)
    });
    let _ = es;
    let mut bases = Vec::new();
    for (geo, i, e, n, b, t) in [(WGS72, 1.1, 0.3, 0.0065, 1e-4, 4000.0), (GEOS[1], 0.15, 0.01, 0.02, 0.0, -1e5), (GEOS[1], 2.4, 0.7, 0.012, -1e-4, 2e4), (ODD, 0.02, 0.1, 0.003, 1e-5, 3e5), (WGS72, 0.21, 0.45, 0.0088, 0.0, -3e5), (GEOS[1], 3.1, 0.9, 0.0015, 0.0, 1000.0)] {
        let mut el = elems(geo, i, e, n, (1.0, 2.0, 3.0));
        el.bstar = b;
        bases.push((el, t, (0.0004, NEAR_LIMIT)));
    }
    let calm: Vec<Elems> = [(WGS72, 1.1, 0.3, 0.0065), (GEOS[1], 0.15, 0.01, 0.02), (GEOS[1], 2.4, 0.7, 0.012), (WGS72, 0.02, 0.1, 0.003), (GEOS[1], 1.1, 0.05, 0.0087), (WGS72, 3.1, 0.5, 0.0065)]
        .iter()
        .map(|&(geo, i, e, n)| elems(geo, i, e, n, (1.0, 2.0, 3.0)))
        .collect();
    let worlds: Vec<_> = calm.iter().map(|el| (*el, vec![0.0, 3000.0, -40000.0])).collect();
    let unusual = unusual(worlds.clone(), if thorough { 20000 } else { 2000 }, false, &BOTH);
    let even = even_times(calm.clone(), if thorough { 1.7 } else { 17.3 }, 60000.0, &BOTH[..1]);
    let decades = far_times(calm, if thorough { 2000 } else { 500 }, 1e9, &BOTH);
    let worlds = geopotentials(worlds, if thorough { 10000 } else { 2000 }, &BOTH);
    let turned = turned_inclinations(bases.clone(), if thorough { 10000 } else { 1000 }, &BOTH);
    let plines = parameter_lines(bases.clone(), 9, if thorough { 30000 } else { 5000 }, &BOTH[..1]);
    let cubes = cubes(bases.clone(), 9, if thorough { 40 } else { 24 }, &BOTH);
    let planes = planes(bases, 9, if thorough { 400 } else { 150 }, &BOTH);
    vec![lyddane, epochs_line, lines, plines, turned, even, decades, worlds, unusual, planes, cubes, grid]
}

pub fn c03(thorough: bool) -> Vec<Space> {
    let half_n: Vec<f64> = vec![8.26e-3, up(8.26e-3), 8.5e-3, 8.7266e-3, 8.75e-3, 9.0e-3, down(9.24e-3), 9.24e-3];
    let half_e: Vec<f64> = vec![
        0.5, up(0.5), 0.55, 0.62, down(0.65), 0.65, up(0.65), 0.67, down(0.7), 0.7, up(0.7), 0.71, down(0.715), 0.715, up(0.715), 0.72, 0.74, 0.8, 0.9,
    ];
    let incs: Vec<f64> = vec![0.0, 0.04, 0.0524, 0.12, 0.199, 0.2, 0.21, 0.6, 1.1, 1.1065, PI / 2.0, 2.0, 2.7, 3.1, PI];
    let times: Vec<f64> = if thorough {
        vec![
            0.0, 1.0, -1.0, down(720.0), 720.0, up(720.0), -720.0, up(-720.0), down(-720.0), 1439.9, 1440.0, 1440.1, -1440.0, 7200.0, -7200.0, 7201.0, 43200.0, -43200.0, 5e5, -5e5, 2e6,
        ]
    } else {
        vec![0.0, 100.0, -100.0, 720.0, -720.0, 725.0, -1500.0, 7200.0, -43200.0, 1e5]
    };
    let na = if thorough { 12 } else { 5 };
    let thetas = [0.0, 1.3, 4.0, -2.0];
    let r = [half_n.len(), half_e.len(), incs.len(), na, 4];
    let half = {
        let (times, incs) = (times.clone(), incs.clone());
        space("half-day", product(&r), move |ix, rec| {
            let [n, e, i, a, th] = digits(ix, r);
            let mut el = elems(GEOS[(n + e + i) % 3], incs[i], half_e[e], half_n[n], ANGLES[a]);
            el.theta = thetas[th];
            el.bstar = [0.0, 2e-4][(a + th) % 2];
            el.epoch = [6.48, -12.0, 31.7][(a + i) % 3];
            if Model::new(el).sat.kind != Kind::HalfDay {
                return Err(format!("reference does not classify as 12 h: {el:?}"));
            }
            compare(el, &times, &BOTH, rec)
        })
    };
    let day_n: Vec<f64> = vec![
        up(0.0034906585), 0.0035, 0.0040, 0.00436, 0.004375269, 0.00439, 0.0047, 0.0052, down(0.0052359877),
    ];
    let day_e: Vec<f64> = vec![0.0, 1e-4, 0.002, 0.05, 0.25, 0.5, 0.68, 0.8];
    let r2 = [day_n.len(), day_e.len(), incs.len(), na, 4];
    let day = {
        let (times, incs) = (times.clone(), incs.clone());
        space("one-day", product(&r2), move |ix, rec| {
            let [n, e, i, a, th] = digits(ix, r2);
            let mut el = elems(GEOS[(n + e + i) % 3], incs[i], day_e[e], day_n[n], ANGLES[a]);
            el.theta = thetas[th];
            el.bstar = [0.0, 2e-4][(a + th) % 2];
            el.epoch = [6.48, -12.0, 31.7][(a + i) % 3];
            if Model::new(el).sat.kind != Kind::Day {
                return Err(format!("reference does not classify as 24 h: {el:?}"));
            }
            compare(el, &times, &BOTH, rec)
        })
    };
    // fine lines through mean motion and eccentricity, across every band edge
    let fine = if thorough { 30000 } else { 3000 };
    let r3 = [4, fine];
    let lines = space("band-lines", product(&r3), move |ix, rec| {
        let [q, k] = digits(ix, r3);
        let x = k as f64 / (fine - 1) as f64;
        let el = match q {
            0 => elems(WGS72, 1.1, 0.72, 0.0080 + 0.0015 * x, (1.0, 4.6, 0.3)),
            1 => elems(GEOS[1], 0.9, 0.01, 0.0033 + 0.0021 * x, (1.0, 2.0, 3.0)),
            2 => elems(WGS72, 1.1, 0.45 + 0.5 * x, 8.75e-3, (1.0, 4.6, 0.3)),
            _ => elems(GEOS[1], x * PI, 0.6, 8.72e-3, (1.0, 4.6, 0.3)),
        };
        compare(el, &[0.0, 777.0, -3000.0, 30000.0], &BOTH, rec)
    });
    // every number of integration steps in both directions
    let steps = if thorough { 3000 } else { 400 };
    let r4 = [2, 6, steps, 5];
    let orbits = [
        elems(WGS72, 1.1, 0.69, 8.75e-3, (4.8, 4.6, 0.35)),
        elems(GEOS[1], 1.2, 0.55, 8.72e-3, (1.0, 1.6, 5.35)),
        elems(WGS72, 0.4, 0.712, 9.1e-3, (3.0, 5.6, 2.35)),
        elems(WGS72, 0.01, 0.0003, 4.375e-3, (1.0, 0.2, 3.0)),
        elems(GEOS[1], 0.3, 0.01, 4.36e-3, (5.0, 4.2, 1.0)),
        elems(GEOS[2], 1.1, 0.4, 4.6e-3, (2.0, 4.7, 0.1)),
    ];
    let ladder = space("step-ladder", product(&r4), move |ix, rec| {
        let [s, o, k, f] = digits(ix, r4);
        let base = 720.0 * k as f64;
        let t = [base, if k > 0 { down(base) } else { 1e-9 }, up(base), base + 1.0, base + 359.5][f];
        compare(orbits[o], &[if s == 0 { t } else { -t }], &BOTH[..1], rec)
    });
    // decades either way
    let far = if thorough { 4000 } else { 300 };
    let r5 = [2, 6, far];
    let distant = space("far-times", product(&r5), move |ix, rec| {
        let [s, o, k] = digits(ix, r5);
        let t = 720.0 * (steps as f64 + (k as f64 * (200.0 / far as f64)).powi(2)).floor() + [0.0, 1.0, 400.0][k % 3];
        compare(orbits[o], &[if s == 0 { t } else { -t }], &BOTH[..1], rec)
    });
    let mut bases = Vec::new();
    for (geo, i, e, n, angles, b, t) in [
        (WGS72, 1.1, 0.69, 8.75e-3, (4.8, 4.6, 0.35), 1e-4, 4000.0),
        (GEOS[1], 0.15, 0.55, 8.72e-3, (1.0, 1.6, 5.35), 0.0, -9000.0),
        (GEOS[1], 0.01, 0.0003, 4.375e-3, (1.0, 0.2, 3.0), 1e-5, 2000.0),
        (ODD, 1.2, 0.4, 4.6e-3, (2.0, 4.7, 0.1), 0.0, -300.0),
    ] {
        let mut el = elems(geo, i, e, n, angles);
        el.bstar = b;
        bases.push((el, t, if n > 0.006 { (8.2e-3, 9.3e-3) } else { (3.4e-3, 5.3e-3) }));
    }
    let worlds: Vec<_> = orbits.iter().map(|el| (*el, vec![0.0, 3000.0, -20000.0])).collect();
    let unusual = unusual(worlds.clone(), if thorough { 10000 } else { 1000 }, false, &BOTH);
    let even = even_times(orbits.to_vec(), if thorough { 1.7 } else { 17.3 }, 30000.0, &BOTH[..1]);
    let turned = turned_inclinations(bases.clone(), if thorough { 10000 } else { 1000 }, &BOTH);
    let plines = parameter_lines(bases.clone(), 10, if thorough { 10000 } else { 2000 }, &BOTH[..1]);
    let decades = far_times(orbits.to_vec(), if thorough { 200 } else { 50 }, 2e7, &BOTH[..1]);
    let worlds = geopotentials(worlds, if thorough { 10000 } else { 1000 }, &BOTH[..1]);
    let cubes = cubes(bases.clone(), 10, if thorough { 24 } else { 14 }, &BOTH);
    let planes = planes(bases, 10, if thorough { 250 } else { 100 }, &BOTH);
    vec![ladder, distant, lines, plines, turned, even, decades, worlds, unusual, planes, cubes, half, day]
}
