//! Checks on composition, divergence, serialisation and symmetries.
use crate::agree::*;
use crate::alph::*;
use crate::engine::*;
use crate::orb::{build, close, equivalent, template, zoo};
use crate::refm::{self, Elems, Kind, Out, PI, TAU, WGS72, WGS84};
use sgp4::chrono::{NaiveDate, NaiveDateTime};
use sgp4::{Constants, Elements};

// ------------------------------------------------------------------------------------------------ C17

fn datetime(y: i32, doy: u32, seconds: u32, nanos: u32) -> NaiveDateTime {
    use sgp4::chrono::NaiveTime;
    NaiveDate::from_yo_opt(y, doy).unwrap().and_time(NaiveTime::from_num_seconds_from_midnight_opt(seconds, nanos).unwrap())
}

/// the documented recipe, through the public functions
fn by_hand(x: &Elements, afspc: bool) -> Result<Constants, String> {
    let (geo, sidereal, epoch): (_, fn(f64) -> f64, _) = if afspc {
        (sgp4::WGS72, sgp4::afspc_epoch_to_sidereal_time, sgp4::julian_years_since_j2000_afspc_compatibility_mode(&x.datetime))
    } else {
        (sgp4::WGS84, sgp4::iau_epoch_to_sidereal_time, sgp4::julian_years_since_j2000(&x.datetime))
    };
    let orbit = sgp4::Orbit::from_kozai_elements(
        &geo,
        x.inclination * (PI / 180.0),
        x.right_ascension * (PI / 180.0),
        x.eccentricity,
        x.argument_of_perigee * (PI / 180.0),
        x.mean_anomaly * (PI / 180.0),
        x.mean_motion * (PI / 720.0),
    )
    .map_err(|e| format!("{e:?}"))?;
    Constants::new(geo, sidereal, epoch, x.drag_term, orbit).map_err(|e| format!("{e:?}"))
}

/// the same elements for the reference model
pub fn model_of(x: &Elements, afspc: bool) -> Model {
    let geo = if afspc { WGS72 } else { WGS84 };
    let epoch = if afspc { x.epoch_afspc_compatibility_mode() } else { x.epoch() };
    let rad = PI / 180.0;
    Model::new(Elems {
        geo,
        theta: if afspc { refm::gst_afspc(epoch) } else { refm::gst_iau(epoch) },
        epoch,
        bstar: x.drag_term,
        i: x.inclination * rad,
        node: x.right_ascension * rad,
        e: x.eccentricity,
        argp: x.argument_of_perigee * rad,
        m: x.mean_anomaly * rad,
        n: refm::brouwer(&geo, x.inclination * rad, x.eccentricity, x.mean_motion * (PI / 720.0)),
    })
}

/// names of the kinds found in catalogues
const UNUSED: [&str; 14] = [
    "", "X", "ISS (ZARYA)", "FENGYUN 1C DEB", "SL-8 R/B", "STARLINK-1007", "GPS BIIR-2  (PRN 13)", "MOLNIYA 1-36", "OBJECT A", "TBA - TO BE ASSIGNED", "INTELSAT 901", "[+] COSMOS 2251 DEB", "0 VANGUARD 1", "TEST",
];

pub fn c17(thorough: bool) -> Vec<Space> {
    let motions: Vec<(f64, f64)> = vec![
        // revolutions per day, eccentricity
        (15.72125391, 0.0006703), (16.2, 0.00005), (14.1, 0.05), (11.0, 0.2), (6.4, 0.3), (6.39, 0.01), (4.0, 0.5), (2.00613, 0.7), (2.0061, 0.55), (1.0027, 0.0002),
        (1.0, 0.3), (0.5, 0.6), (2.5, 0.75), (12.3, 0.0),
    ];
    let incs = [0.0, 0.05, 3.0, 8.0, 28.5, 51.6416, 63.4, 98.7, 144.0, 179.99, 180.0];
    let angles = [
        (0.0, 0.0, 0.0), (247.4627, 130.536, 325.0288), (10.0, 250.0, 100.0), (359.9999, 359.9999, 359.9999), (-45.0, -10.0, -120.0), (180.0, 90.0, 270.0), (400.0, 725.0, 361.0),
    ];
    let dates: Vec<NaiveDateTime> = vec![
        datetime(2008, 264, 44740, 104192000), datetime(1957, 277, 0, 0), datetime(1999, 365, 86399, 999_999_999), datetime(2000, 1, 43200, 0), datetime(2020, 366, 12345, 678),
        datetime(2056, 366, 86399, 0), datetime(1980, 60, 3600, 500_000_000),
        // so far away that the two sidereal times part
        datetime(1003, 200, 3600, 0), datetime(1600, 60, 86399, 999_999_999), datetime(1888, 366, 43200, 0), datetime(2200, 1, 1, 0), datetime(2990, 300, 50000, 1),
    ];
    let drags = [0.0, -0.0, -0.11606e-4, 1e-4, 0.01, -0.3];
    let times: Vec<f64> = if thorough {
        vec![0.0, 17.3, -17.3, 719.0, 1440.0, -1440.0, 20160.0, -20160.0, 144000.0]
    } else {
        vec![0.0, 17.3, 360.5, -1440.0, 1440.0, 40320.0]
    };
    let r = [motions.len(), incs.len(), angles.len(), dates.len(), drags.len()];
    let recipe = space("recipe", product(&r), move |ix, rec| {
        let [m, i, a, d, b] = digits(ix, r);
        let mut x = template();
        x.mean_motion = motions[m].0;
        x.eccentricity = motions[m].1;
        x.inclination = incs[i];
        (x.right_ascension, x.argument_of_perigee, x.mean_anomaly) = angles[a];
        x.datetime = dates[d];
        x.drag_term = drags[b];
        for afspc in [false, true] {
            let c = guard(|| if afspc { Constants::from_elements_afspc_compatibility_mode(&x) } else { Constants::from_elements(&x) })
                .map_err(|p| format!("panicked: {p}"))?
                .map_err(|e| format!("refused: {e:?}; {x:?}"))?;
            let hand = guard(|| by_hand(&x, afspc)).map_err(|p| format!("panicked: {p}"))?.map_err(|e| format!("refused by hand: {e}; {x:?}"))?;
            let model = model_of(&x, afspc);
            rec.op(4);
            for &t in &times {
                for mode in [false, true] {
                    let g = propagate(&c, t, mode);
                    let h = propagate(&hand, t, mode);
                    rec.op(2);
                    let v = model.check(t, mode, &g)?;
                    // a reassociated unit conversion moves ill-conditioned points: then both must be
                    // within what rounding explains
                    if !equivalent(&g, &h) {
                        model.check(t, mode, &h).map_err(|m| format!("built from elements (afspc={afspc}): {g:?}, by hand: {h:?}; {m}"))?;
                        rec.class("rounded-by-hand");
                    }
                    rec.trace(1);
                    rec.class(v.class());
                    rec.state(Hash::new().u(ix).f(t).u(afspc as u64 * 2 + mode as u64).0);
                    rec.sample(|| format!("afspc={afspc} t={t} {x:?} -> {g:?}"));
                }
            }
        }
        Ok(())
    });
    // one field at a time, finely
    let bases: Vec<(f64, f64, f64)> = vec![(15.5, 0.001, 51.6), (6.0, 0.3, 20.0), (2.006, 0.7, 63.0), (1.0027, 0.0003, 2.0), (11.0, 0.2, 8.0), (3.0, 0.1, 1.0)];
    let fine = if thorough { 20000 } else { 2000 };
    let r0 = [bases.len(), 9, fine, 2];
    let lines = {
        let bases = bases.clone();
        space("lines", product(&r0), move |ix, rec| {
            let [k, q, j, a] = digits(ix, r0);
            let afspc = a == 1;
            let u = j as f64 / (fine - 1) as f64;
            let mut x = template();
            (x.mean_motion, x.eccentricity, x.inclination) = bases[k];
            match q {
                0 => x.inclination = 180.0 * u,
                1 => x.right_ascension = 1080.0 * u - 540.0,
                2 => x.argument_of_perigee = 1080.0 * u - 540.0,
                3 => x.mean_anomaly = 1080.0 * u - 540.0,
                4 => x.eccentricity = 0.95 * u * u,
                5 => x.mean_motion *= 0.9 + 0.2 * u,
                6 => x.drag_term = (2.0 * u - 1.0).powi(5),
                7 => x.drag_term = 10f64.powf(14.0 * u - 12.0) * if j % 2 == 0 { 1.0 } else { -1.0 },
                _ => x.datetime = datetime(1300 + (j % 1400) as i32, 1 + (j * 7 % 365) as u32, (j * 86399 / fine) as u32, (j * 499_999) as u32 % 1_000_000_000),
            }
            let c = guard(|| if afspc { Constants::from_elements_afspc_compatibility_mode(&x) } else { Constants::from_elements(&x) })
                .map_err(|p| format!("panicked: {p}"))?
                .map_err(|e| format!("refused: {e:?}; {x:?}"))?;
            let model = model_of(&x, afspc);
            rec.op(1);
            for t in [0.0, 777.7, -5000.0] {
                let g = propagate(&c, t, afspc);
                rec.op(1);
                let v = model.check(t, afspc, &g)?;
                rec.trace(1);
                rec.class(v.class());
                rec.state(Hash::new().u(ix).f(t).0);
            }
            Ok(())
        })
    };
    // angles of any number of degrees
    let beyond = {
        const DEGREES: [f64; 16] = [-725.0, -400.0, -270.0, -170.0, -98.7, -51.6, -10.0, -1.0, 190.0, 200.0, 270.0, 300.0, 359.0, 400.0, 725.0, 3600.5];
        let bases = bases.clone();
        let r = [bases.len(), 4, 4, DEGREES.len(), DEGREES.len(), 2];
        space("degrees", product(&r), move |ix, rec| {
            let [k, p, q, d, e, a] = digits(ix, r);
            let afspc = a == 1;
            let mut x = template();
            (x.mean_motion, x.eccentricity, x.inclination) = bases[k];
            for (field, value) in [(p, DEGREES[d]), (q, DEGREES[e])] {
                *[&mut x.inclination, &mut x.right_ascension, &mut x.argument_of_perigee, &mut x.mean_anomaly][field] = value;
            }
            let c = guard(|| if afspc { Constants::from_elements_afspc_compatibility_mode(&x) } else { Constants::from_elements(&x) })
                .map_err(|p| format!("panicked: {p}"))?
                .map_err(|e| format!("refused: {e:?}; {x:?}"))?;
            let hand = guard(|| by_hand(&x, afspc)).map_err(|p| format!("panicked: {p}"))?.map_err(|e| format!("refused by hand: {e}; {x:?}"))?;
            rec.op(2);
            for t in [0.0, 777.7, -5000.0] {
                for mode in [false, true] {
                    let (g, h) = (propagate(&c, t, mode), propagate(&hand, t, mode));
                    rec.op(2);
                    rec.trace(1);
                    rec.class("same");
                    rec.state(Hash::new().u(ix).f(t).u(mode as u64).0);
                    if !close(&g, &h, 1e-4, 1e-6) {
                        return Err(format!("built from elements (afspc={afspc}): {g:?}, by hand: {h:?} at t={t}; {x:?}"));
                    }
                }
            }
            Ok(())
        })
    };
    // fields that the propagator does not use
    let bases: Vec<(f64, f64, f64)> = vec![(15.5, 0.001, 51.6), (6.0, 0.3, 20.0), (2.006, 0.7, 63.0), (1.0027, 0.0003, 2.0)];
    let changes = UNUSED.len() + 18;
    let r2 = [bases.len(), changes, changes, 2, 4];
    let unused = {
        let bases = bases.clone();
        space("unused-fields", product(&r2), move |ix, rec| {
            let [k, f, g, a, b] = digits(ix, r2);
            let mut x = template();
            (x.mean_motion, x.eccentricity, x.inclination) = bases[k];
            x.drag_term = [x.drag_term, 0.0, -0.0, -0.02][b];
            let base = x.clone();
            // two fields at once
            for f in [f, g] {
                match f {
                    0 => x.object_name = None,
                    1 => x.international_designator = None,
                    2 => x.norad_id = 1,
                    3 => x.classification = sgp4::Classification::Secret,
                    4 => x.mean_motion_dot = 1e3,
                    5 => x.mean_motion_dot = f64::NAN,
                    6 => x.mean_motion_ddot = -1e3,
                    7 => x.mean_motion_ddot = f64::INFINITY,
                    8 => x.element_set_number = u64::MAX,
                    9 => x.revolution_number = u64::MAX,
                    10 => x.ephemeris_type = 4,
                    11 => x.ephemeris_type = 2,
                    12 => x.norad_id = u64::MAX,
                    13 => x.classification = sgp4::Classification::Classified,
                    14 => x.revolution_number = 0,
                    15 => x.element_set_number = 0,
                    16 => x.mean_motion_dot = 0.0,
                    17 => x.mean_motion_ddot = 1e-5,
                    _ => x.object_name = Some(UNUSED[f - 18].into()),
                }
            }
            for t in [0.0, 100.0, -3000.0, 50000.0] {
                let mut got = Vec::new();
                for y in [&base, &x] {
                    let c = guard(|| if a == 0 { Constants::from_elements(y) } else { Constants::from_elements_afspc_compatibility_mode(y) })
                        .map_err(|p| format!("panicked: {p}"))?
                        .map_err(|e| format!("refused: {e:?}; {y:?}"))?;
                    got.push(propagate(&c, t, a == 1));
                    rec.op(2);
                }
                rec.trace(1);
                rec.state(Hash::new().u(ix).f(t).0);
                rec.class("unaffected");
                if !equivalent(&got[0], &got[1]) {
                    return Err(format!("field changes {f} and {g} influence the prediction at t={t}: {got:?}; {x:?}"));
                }
            }
            Ok(())
        })
    };
    // their whole ranges, two at a time
    let counts: [u64; 6] = [100_000, 100_000, 10_000, 256, 2001, 2001];
    let total: u64 = counts.iter().sum();
    let r3 = [bases.len(), total as usize, 2, 2];
    let ranges = space("unused-ranges", product(&r3), move |ix, rec| {
        let [k, v, a, b] = digits(ix, r3);
        let mut x = template();
        (x.mean_motion, x.eccentricity, x.inclination) = bases[k];
        if b == 1 {
            x.drag_term = 0.0;
        }
        let base = x.clone();
        let (mut f, mut v) = (0, v as u64);
        while v >= counts[f] {
            v -= counts[f];
            f += 1;
        }
        match f {
            0 => x.norad_id = v,
            1 => x.revolution_number = v,
            2 => x.element_set_number = v,
            3 => x.ephemeris_type = v as u8,
            4 => x.mean_motion_dot = (v as f64 - 1000.0) * 1e-3,
            _ => x.mean_motion_ddot = (v as f64 - 1000.0) * 1e-3,
        }
        x.classification = [sgp4::Classification::Unclassified, sgp4::Classification::Classified, sgp4::Classification::Secret][v as usize % 3].clone();
        let mut got = Vec::new();
        for y in [&base, &x] {
            let c = guard(|| if a == 0 { Constants::from_elements(y) } else { Constants::from_elements_afspc_compatibility_mode(y) })
                .map_err(|p| format!("panicked: {p}"))?
                .map_err(|e| format!("refused: {e:?}; {y:?}"))?;
            got.push(propagate(&c, 1500.0, a == 1));
            rec.op(2);
        }
        rec.trace(1);
        rec.state(Hash::new().u(ix).0);
        rec.class("unaffected");
        if !equivalent(&got[0], &got[1]) {
            return Err(format!("an unused field influences the prediction: {got:?}; {x:?}"));
        }
        Ok(())
    });
    // the published coefficients themselves
    let models = space("models", 10, |ix, rec| {
        let (name, ours, theirs) = if ix < 5 { ("WGS84", WGS84, sgp4::WGS84) } else { ("WGS72", WGS72, sgp4::WGS72) };
        let k = (ix % 5) as usize;
        let a = [ours.ae, ours.ke, ours.j2, ours.j3, ours.j4][k];
        let b = [theirs.ae, theirs.ke, theirs.j2, theirs.j3, theirs.j4][k];
        rec.op(1);
        rec.trace(1);
        rec.state(Hash::new().u(ix).f(b).0);
        rec.class("coefficient");
        if (a - b).abs() > 1e-14 * a.abs() || b.is_nan() {
            return Err(format!("coefficient {k} of {name} is {b:?}, published as {a:?}"));
        }
        Ok(())
    });
    vec![recipe, lines, beyond, unused, ranges, models]
}

// ------------------------------------------------------------------------------------------------ C18

fn kind_of(o: &Out) -> u8 {
    match o {
        Out::Ok(..) => 0,
        Out::Ecc(_) => 1,
        Out::PertEcc(_) => 2,
        Out::SemiLatus => 3,
    }
}

fn at(c: &Constants, model: &Model, t: f64, afspc: bool, rec: &mut Rec) -> Result<(), String> {
    let g = propagate(c, t, afspc);
    let v = model.check(t, afspc, &g)?;
    rec.op(1);
    rec.trace(1);
    rec.class(g.class());
    rec.class(v.class());
    rec.state(Hash::new().u(g.hash()).f(t).f(model.el.e).f(model.el.bstar).0);
    rec.sample(|| format!("t={t:?} {:?} -> {g:?}", model.el));
    Ok(())
}

/// checks a list of times and both sides of every change of outcome between them
fn boundaries(el: &Elems, times: &[f64], afspc: bool, rec: &mut Rec) -> Result<(), String> {
    let model = Model::new(*el);
    let c = build(el)?;
    rec.op(1);
    let kinds: Vec<u8> = times.iter().map(|t| kind_of(&model.expect(*t, afspc))).collect();
    for (k, t) in times.iter().enumerate() {
        at(&c, &model, *t, afspc, rec)?;
        if k + 1 < times.len() && kinds[k] != kinds[k + 1] {
            let (mut lo, mut hi) = (times[k], times[k + 1]);
            for _ in 0..60 {
                let mid = 0.5 * (lo + hi);
                if mid == lo || mid == hi {
                    break;
                }
                if kind_of(&model.expect(mid, afspc)) == kinds[k] {
                    lo = mid;
                } else {
                    hi = mid;
                }
            }
            rec.class("change-of-outcome");
            for d in [0.0, 1e-9, 1e-7, 1e-5, 1e-3, 0.1, 1.0] {
                let s = d * (1.0 + 1e-6 * lo.abs()) * (hi - lo).signum();
                at(&c, &model, lo - s, afspc, rec)?;
                at(&c, &model, hi + s, afspc, rec)?;
            }
        }
    }
    Ok(())
}

pub fn c18(thorough: bool) -> Vec<Space> {
    let q = if thorough { 61 } else { 15 };
    let ladder = move |span: f64| -> Vec<f64> { (0..q).map(|k| span * (k as f64 - (q / 2) as f64) / (q / 2) as f64).collect() };
    // drag driven divergence
    let es = vec![0.0, 1e-8, 5e-7, 1e-6, 2e-6, 5e-5, 2e-4, 0.001, 0.01, 0.1, 0.3, 0.7];
    let perigees = vec![100.0, 160.0, 230.0, 400.0, 900.0];
    let bs = vec![1e-4, 0.01, 0.5, -0.5, 20.0, -20.0, 1e3];
    let incs = vec![0.0, 0.4, 1.2, 2.2, 3.1];
    let spans = vec![1440.0, 40000.0, 1e6, 5e7];
    let r = [es.len(), perigees.len(), bs.len(), incs.len(), spans.len()];
    let near = {
        let (es, bs, incs, spans) = (es.clone(), bs.clone(), incs.clone(), spans.clone());
        space("near-earth", product(&r), move |ix, rec| {
            let [e, p, b, i, s] = digits(ix, r);
            let geo = GEOS[(e + i) % 3];
            let n = n_of_perigee(&geo, perigees[p], es[e]);
            if n <= NEAR_LIMIT {
                return Ok(());
            }
            let mut el = elems(geo, incs[i], es[e], n, ANGLES[(e + p + i) % 12]);
            el.bstar = bs[b];
            boundaries(&el, &ladder(spans[s]), s % 2 == 1, rec)
        })
    };
    let ns = vec![NEAR_LIMIT, 0.02, 0.012, 0.0087, 0.006, 0.0044, 0.0015];
    let es2 = vec![0.0, 1e-7, 1e-6, 2e-5, 3e-4, 0.002, 0.05, 0.4, 0.6, 0.75, 0.85];
    let bs2 = vec![0.0, 0.1, -0.1, 50.0, -50.0, 1e5, -1e5, 1e9];
    let r2 = [ns.len(), es2.len(), bs2.len(), incs.len(), spans.len()];
    let deep = {
        let (incs, spans) = (incs.clone(), spans.clone());
        space("deep-space", product(&r2), move |ix, rec| {
            let [n, e, b, i, s] = digits(ix, r2);
            let mut el = elems(GEOS[(e + b) % 2], incs[i], es2[e], ns[n], ANGLES[(e + b + i) % 12]);
            el.bstar = bs2[b];
            el.epoch = [-20.0, 7.25, 31.0][(n + i) % 3];
            if s == 3 && Model::new(el).sat.kind != Kind::Deep {
                return Ok(()); // too many integration steps
            }
            boundaries(&el, &ladder(spans[s]), (b + i) % 2 == 1, rec)
        })
    };
    // third-body driven: eccentricities next to 0 and 1
    let es3 = vec![
        0.0, 1e-9, 3e-7, 9.99e-7, 1e-6, 1.1e-6, 1e-5, 5e-5, 1e-4, 3e-4, 0.001, 0.9, 0.95, 0.98, 0.99, 0.995, 0.998, 0.999, 0.9995, 0.9999, 0.99999, 0.999999, down(1.0),
    ];
    let ns3 = vec![NEAR_LIMIT, 0.02, 0.012, 0.0088, 0.0087, 0.006, 0.0044, 0.0015, 0.0004, 0.0001];
    let incs3 = vec![0.0, 0.1, 0.19, 0.21, 0.8, 1.1, PI / 2.0, 2.2, 3.0, PI];
    let na = if thorough { 12 } else { 3 };
    let r3 = [es3.len(), ns3.len(), incs3.len(), na, spans.len()];
    let spans = vec![1440.0, 40000.0, if thorough { 1e6 } else { 2e5 }, 5e6];
    let extreme = space("third-body", product(&r3), move |ix, rec| {
        let [e, n, i, a, s] = digits(ix, r3);
        let mut el = elems(GEOS[(e + n) % 2], incs3[i], es3[e], ns3[n], ANGLES[(a * 4 + e + n) % 12]);
        el.epoch = [-20.0, 7.25, 31.0, 50.0][(n + i + a) % 4];
        el.bstar = [0.0, 1e-3][(e + i) % 2];
        if s == 3 && Model::new(el).sat.kind != Kind::Deep {
            return Ok(()); // too many integration steps
        }
        boundaries(&el, &ladder(spans[s]), (a + i) % 2 == 1, rec)
    });
    vec![near, deep, extreme]
}

// ------------------------------------------------------------------------------------------------ C20

fn leaves(v: &serde_json::Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        serde_json::Value::Object(m) => {
            for (k, w) in m {
                path.push(k.clone());
                out.push(path.clone());
                leaves(w, path, out);
                path.pop();
            }
        }
        serde_json::Value::Array(a) => {
            for (k, w) in a.iter().enumerate() {
                path.push(format!("{k}"));
                out.push(path.clone());
                leaves(w, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn at_path<'a>(mut v: &'a mut serde_json::Value, path: &[String]) -> &'a mut serde_json::Value {
    for p in path {
        v = match v {
            serde_json::Value::Object(m) => m.get_mut(p).unwrap(),
            serde_json::Value::Array(a) => &mut a[p.parse::<usize>().unwrap()],
            _ => unreachable!(),
        };
    }
    v
}

fn remove(v: &mut serde_json::Value, path: &[String]) {
    let (last, front) = path.split_last().unwrap();
    match at_path(v, front) {
        serde_json::Value::Object(m) => {
            m.remove(last);
        }
        serde_json::Value::Array(a) => {
            a.remove(last.parse().unwrap());
        }
        _ => unreachable!(),
    }
}

pub fn c20(thorough: bool) -> Vec<Space> {
    let times: Vec<f64> = if thorough {
        vec![0.0, 1.0, -1.0, 359.0, 720.0, -720.0, 1441.0, -5000.0, 5000.0, 40000.0, -40000.0, 3e5]
    } else {
        vec![0.0, 1.0, -1.0, 720.0, -1441.0, 40000.0]
    };
    // every kind of orbit in several sizes and shapes
    let mut orbits = zoo();
    for geo in GEOS {
        for (k, i) in INCLINATIONS.iter().enumerate() {
            for e in [0.0, 5e-5, 0.001, 0.1, 0.3, 0.55, 0.7] {
                for p in [90.0, 150.0, 215.0, 300.0, 2000.0, 5000.0, 12000.0, 20000.0] {
                    let mut el = elems(geo, *i, e, n_of_perigee(&geo, p, e), ANGLES[k % 12]);
                    el.bstar = [0.0, 1e-4, -1e-5][k % 3];
                    el.epoch = -30.0 + 6.0 * k as f64;
                    orbits.push(el);
                }
                for n in [4.375e-3, 8.72e-3] {
                    orbits.push(elems(geo, *i, e, n, ANGLES[k % 12]));
                }
            }
        }
    }
    let r = [orbits.len(), 3];
    let round = {
        let orbits = orbits.clone();
        space("constants-round-trip", product(&r), move |ix, rec| {
            let [o, way] = digits(ix, r);
            let el = orbits[o];
            let c = build(&el)?;
            let back: Constants = guard(|| match way {
                0 => serde_json::from_value(serde_json::to_value(&c)?),
                1 => serde_json::from_str(&serde_json::to_string(&c)?),
                _ => serde_json::from_slice(&serde_json::to_vec_pretty(&c)?),
            })
            .map_err(|p| format!("serialisation panicked: {p}; {el:?}"))?
            .map_err(|e| format!("round trip refused: {e}; {el:?}"))?;
            rec.op(3);
            let kind = Model::new(el).sat.kind;
            for &t in &times {
                for afspc in [false, true] {
                    let (a, b) = (propagate(&c, t, afspc), propagate(&back, t, afspc));
                    rec.op(2);
                    // a JSON text loses up to a unit in the last place
                    let fine = if way == 0 { equivalent(&a, &b) } else { close(&a, &b, 1e-4, 1e-7) || Model::new(el).check(t, afspc, &b).is_ok() };
                    if !fine {
                        return Err(format!("t={t} afspc={afspc}: {a:?} before and {b:?} after the round trip; {el:?}"));
                    }
                    rec.trace(1);
                    rec.state(Hash::new().u(ix).f(t).u(afspc as u64).0);
                }
            }
            // from states
            let (mut s, mut u) = (c.initial_state(), back.initial_state());
            if s.is_some() != u.is_some() {
                return Err(format!("resonance lost or gained in the round trip: {el:?}"));
            }
            for &t in times.iter().filter(|t| **t >= 0.0) {
                let (a, b) = (from_state(&c, t, s.as_mut(), false), from_state(&back, t, u.as_mut(), false));
                rec.op(2);
                let fine = if way == 0 { equivalent(&a, &b) } else { close(&a, &b, 1e-4, 1e-7) || Model::new(el).check(t, false, &b).is_ok() };
                if !fine {
                    return Err(format!("from states at t={t}: {a:?} before and {b:?} after the round trip; {el:?}"));
                }
            }
            rec.class(match kind {
                Kind::Near => "near-earth",
                Kind::NearSimple => "near-earth-simple-drag",
                Kind::Deep => "deep-space",
                Kind::Day => "24h-resonant",
                Kind::HalfDay => "12h-resonant",
            });
            rec.sample(|| serde_json::to_string(&c).unwrap_or_default());
            Ok(())
        })
    };
    // one orbit of every kind: every field is needed
    let picks: Vec<Elems> = zoo();
    let r2 = [picks.len()];
    let removal = space("missing-fields", product(&r2), move |ix, rec| {
        let [o] = digits(ix, r2);
        let el = picks[o];
        let c = build(&el)?;
        let v = guard(|| serde_json::to_value(&c)).map_err(|p| format!("panicked: {p}"))?.map_err(|e| format!("{e}"))?;
        let mut paths = Vec::new();
        leaves(&v, &mut Vec::new(), &mut paths);
        if paths.len() < 10 {
            return Err(format!("the serialised constants hold only {} fields: {v}", paths.len()));
        }
        for p in &paths {
            for how in 0..2 {
                let mut w = v.clone();
                if how == 0 {
                    remove(&mut w, p);
                } else {
                    *at_path(&mut w, p) = serde_json::Value::Null;
                }
                let b = guard(|| serde_json::from_value::<Constants>(w.clone())).map_err(|m| format!("panicked: {m}"))?;
                rec.op(1);
                rec.trace(1);
                rec.state(Hash::new().u(ix).u(how).s(p.join("/").as_bytes()).0);
                // a part that says that something is absent may be absent: nothing is made up then
                if let Ok(b) = b {
                    for t in [0.0, 1.0, -1.0, 359.0, 725.0, -5000.0, 40000.0] {
                        for afspc in [false, true] {
                            if !equivalent(&propagate(&c, t, afspc), &propagate(&b, t, afspc)) {
                                return Err(format!("accepted although {} was {}: {w}", p.join("/"), if how == 0 { "removed" } else { "nulled" }));
                            }
                        }
                    }
                    rec.class("nothing-made-up");
                    continue;
                }
                rec.class("refused");
            }
        }
        rec.sample(|| format!("{} positions in {v}", paths.len()));
        Ok(())
    });
    // the small public types
    let values = [0.0, -0.0, 1.0, -1.5, 0.1, 1e-300, -1e300, 6378.137, 5e-324, f64::MAX, 1.0 / 3.0];
    let nv = values.len();
    let r3 = [nv, nv, nv, 3];
    let small = space("orbits-geopotentials-predictions", product(&r3), move |ix, rec| {
        let [a, b, c, which] = digits(ix, r3);
        let (x, y, z) = (values[a], values[b], values[c]);
        // distinct positions get distinct combinations
        let f = [x, y, z, values[(a + 3) % nv], values[(b + 5) % nv], values[(c + 7) % nv]];
        let (v, back): (serde_json::Value, Vec<f64>) = guard(|| -> Result<_, serde_json::Error> {
            Ok(match which {
                0 => {
                    let o = sgp4::Orbit { inclination: f[0], right_ascension: f[1], eccentricity: f[2], argument_of_perigee: f[3], mean_anomaly: f[4], mean_motion: f[5] };
                    let v = serde_json::to_value(&o)?;
                    let o: sgp4::Orbit = serde_json::from_value(v.clone())?;
                    (v, vec![o.inclination, o.right_ascension, o.eccentricity, o.argument_of_perigee, o.mean_anomaly, o.mean_motion])
                }
                1 => {
                    let o = sgp4::Geopotential { ae: f[0], ke: f[1], j2: f[2], j3: f[3], j4: f[4] };
                    let v = serde_json::to_value(o)?;
                    let o: sgp4::Geopotential = serde_json::from_value(v.clone())?;
                    (v, vec![o.ae, o.ke, o.j2, o.j3, o.j4, f[5]])
                }
                _ => {
                    let o = sgp4::Prediction { position: [f[0], f[1], f[2]], velocity: [f[3], f[4], f[5]] };
                    let v = serde_json::to_value(&o)?;
                    let o: sgp4::Prediction = serde_json::from_value(v.clone())?;
                    (v, o.position.iter().chain(&o.velocity).cloned().collect())
                }
            })
        })
        .map_err(|p| format!("panicked: {p}"))?
        .map_err(|e| format!("refused: {e}"))?;
        rec.op(2);
        rec.trace(1);
        rec.state(Hash::new().u(ix).0);
        rec.class(["orbit", "geopotential", "prediction"][which]);
        if back.iter().zip(&f).any(|(p, q)| p.to_bits() != q.to_bits()) {
            return Err(format!("fields {f:?} came back as {back:?} through {v}"));
        }
        if a == 2 && b == 3 {
            let mut paths = Vec::new();
            leaves(&v, &mut Vec::new(), &mut paths);
            for p in &paths {
                let mut w = v.clone();
                remove(&mut w, p);
                let accepted = guard(|| match which {
                    0 => serde_json::from_value::<sgp4::Orbit>(w.clone()).is_ok(),
                    1 => serde_json::from_value::<sgp4::Geopotential>(w.clone()).is_ok(),
                    _ => serde_json::from_value::<sgp4::Prediction>(w.clone()).is_ok(),
                })
                .map_err(|p| format!("panicked: {p}"))?;
                rec.op(1);
                if accepted {
                    return Err(format!("accepted although {} was removed: {w}", p.join("/")));
                }
            }
        }
        rec.sample(|| format!("{v}"));
        Ok(())
    });
    vec![round, removal, small, crate::tim::serialised_elements()]
}

// ------------------------------------------------------------------------------------------------ C22

fn spread(a: &Out, b: &Out) -> (f64, f64) {
    match (a, b) {
        (Out::Ok(p, v), Out::Ok(q, w)) => {
            let d = |x: &[f64; 3], y: &[f64; 3]| (0..3).fold(0.0f64, |m, k| m.max((x[k] - y[k]).abs()));
            (d(p, q), d(v, w))
        }
        _ => (0.0, 0.0),
    }
}

/// `a` and `b` describe the same motion
fn same_motion(a: &Got, b: &Got, allow: (f64, f64)) -> bool {
    match (a, b) {
        (Got::Ok(p, v), Got::Ok(q, w)) => {
            let d = |x: &[f64; 3], y: &[f64; 3]| (0..3).fold(0.0f64, |m, k| m.max((x[k] - y[k]).abs()));
            d(p, q) <= allow.0 && d(v, w) <= allow.1
        }
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}

pub fn c22(thorough: bool) -> Vec<Space> {
    let mut orbits = zoo();
    let pairs = [(0.066, 0.001), (0.06, 0.05), (0.0282, 0.3), (0.02, 0.1), (0.011, 0.4), (0.00875, 0.6), (0.00872, 0.72), (0.004375, 0.001), (0.0045, 0.3), (0.002, 0.5), (0.072, 0.0), (0.05, 0.15), (0.035, 0.3)];
    for (k, i) in [0.0, 0.001, 0.1, 0.19, 0.21, 0.26, 0.5, 0.8, 1.1, 1.4, PI / 2.0, 1.8, 2.0, 2.5, 3.0, PI].iter().enumerate() {
        for (n, e) in pairs {
            for a in 0..12 {
                let mut el = elems(GEOS[k % 3], *i, e, n, ANGLES[(a + k) % 12]);
                el.bstar = [0.0, 1e-5, 1e-4][a % 3];
                el.epoch = [7.25, -31.0, 42.0][(a + k) % 3];
                el.theta = 0.5 * k as f64;
                orbits.push(el);
            }
        }
    }
    let times: Vec<f64> = if thorough {
        vec![0.0, 1.0, -1.0, 33.0, 100.0, -100.0, 360.0, -360.0, 720.0, -720.0, 1500.0, -1500.0, 3000.0, -3000.0, 20000.0, -20000.0]
    } else {
        vec![0.0, 33.0, -100.0, 1500.0, -1500.0, 20000.0]
    };
    let turns: [f64; 12] = [1.0, -1.0, 2.0, -2.0, 3.0, 7.0, -7.0, 20.0, -20.0, 100.0, -200.0, 1000.0];
    let r = [orbits.len(), 3, turns.len()];
    let whole = {
        let (orbits, times) = (orbits.clone(), times.clone());
        space("whole-turns", product(&r), move |ix, rec| {
            let [o, which, k] = digits(ix, r);
            let el = orbits[o];
            let mut turned = el;
            let d = TAU * turns[k];
            match which {
                0 => turned.m += d,
                1 => turned.argp += d,
                _ => turned.node += d,
            }
            let (c, u) = (build(&el)?, build(&turned)?);
            let (mc, mu) = (Model::new(el), Model::new(turned));
            rec.op(2);
            let near = matches!(mc.sat.kind, Kind::Near | Kind::NearSimple);
            // integrating to the far times takes too long
            let far: &[f64] = if mc.sat.resonant() { &[] } else { &[2.5e6, -2.5e6] };
            for &t in times.iter().chain(far) {
                for afspc in [false, true] {
                    let (a, b) = (propagate(&c, t, afspc), propagate(&u, t, afspc));
                    rec.op(2);
                    let claimed = afspc || near || which != 2 || el.i > 0.25;
                    if !claimed {
                        rec.class("not-claimed");
                        continue;
                    }
                    let (ea, eb) = (mc.expect(t, afspc), mu.expect(t, afspc));
                    let s = spread(&ea, &eb);
                    rec.class(if s.0 > 1e-4 { "turned-ill-conditioned" } else { "turned" });
                    rec.trace(1);
                    rec.state(Hash::new().u(ix).f(t).u(afspc as u64).0);
                    let allow = (1e-6 + 40.0 * s.0, 1e-9 + 40.0 * s.1);
                    let tie = kind_of(&ea) != kind_of(&eb);
                    if !tie && !same_motion(&a, &b, allow) {
                        return Err(format!(
                            "{} whole turns of the {} change the prediction at t={t} afspc={afspc}: {a:?} {b:?} (allowed {allow:?}); {el:?}",
                            turns[k],
                            ["mean anomaly", "argument of perigee", "node"][which]
                        ));
                    }
                }
            }
            rec.sample(|| format!("{} turns of element {which}: {el:?}", turns[k]));
            Ok(())
        })
    };
    let near: Vec<Elems> = orbits.iter().filter(|el| el.n > NEAR_LIMIT).cloned().collect();
    let mut rotations = vec![1e-3, 0.5, PI / 2.0, 2.0, PI, 4.0, 6.0, -0.7, -3.0, 20.0];
    let steps = if thorough { 720 } else { 72 };
    rotations.extend((-steps..=steps).map(|k| TAU * k as f64 / steps as f64 + 1e-9));
    let r2 = [near.len(), rotations.len()];
    let times: Vec<f64> = times.into_iter().chain([2.5e6, -2.5e6]).collect();
    let rotate = {
        let (near, times) = (near.clone(), times.clone());
        space("node-rotations", product(&r2), move |ix, rec| {
            let [o, k] = digits(ix, r2);
            let el = near[o];
            let mut turned = el;
            turned.node += rotations[k];
            let (c, u) = (build(&el)?, build(&turned)?);
            let angle = turned.node - el.node;
            let (sn, cs) = angle.sin_cos();
            rec.op(2);
            for &t in &times {
                for afspc in [false, true] {
                    let (a, b) = (propagate(&c, t, afspc), propagate(&u, t, afspc));
                    rec.op(2);
                    rec.trace(1);
                    rec.class(a.class());
                    rec.state(Hash::new().u(ix).f(t).u(afspc as u64).0);
                    let rotated = match &a {
                        Got::Ok(p, v) => {
                            let rot = |x: &[f64; 3]| [cs * x[0] - sn * x[1], sn * x[0] + cs * x[1], x[2]];
                            Got::Ok(rot(p), rot(v))
                        }
                        g => g.clone(),
                    };
                    if !same_motion(&rotated, &b, (1e-5, 1e-8)) {
                        return Err(format!("turning the node by {angle} does not turn the prediction at t={t}: {a:?} {b:?}; {el:?}"));
                    }
                }
            }
            Ok(())
        })
    };
    let mut others = vec![(-43.0, 0.0), (0.0, 3.0), (56.9, 6.2), (7.25, 5.0)];
    let steps = if thorough { 400 } else { 40 };
    others.extend((0..steps).map(|k| (-43.0 + 100.0 * k as f64 / steps as f64, TAU * ((k * 7) % steps) as f64 / steps as f64)));
    let r3 = [near.len(), others.len()];
    let epochs = space("epoch-independence", product(&r3), move |ix, rec| {
        let [o, k] = digits(ix, r3);
        let el = near[o];
        let mut moved = el;
        (moved.epoch, moved.theta) = others[k];
        let (c, u) = (build(&el)?, build(&moved)?);
        rec.op(2);
        for &t in &times {
            for afspc in [false, true] {
                let (a, b) = (propagate(&c, t, afspc), propagate(&u, t, afspc));
                rec.op(2);
                rec.trace(1);
                rec.class(a.class());
                rec.state(Hash::new().u(ix).f(t).u(afspc as u64).0);
                if !equivalent(&a, &b) {
                    return Err(format!("a near-earth prediction at t={t} depends on the epoch: {a:?} {b:?}; {el:?} {moved:?}"));
                }
            }
        }
        Ok(())
    });
    vec![whole, rotate, epochs]
}

// ------------------------------------------------------------------------------------------------ C25

/// the reflection y -> -y of a motion run backwards
fn mirrored(g: &Got) -> Got {
    match g {
        Got::Ok(p, v) => Got::Ok([p[0], -p[1], p[2]], [-v[0], v[1], -v[2]]),
        Got::Ecc(e, t) => Got::Ecc(*e, -t),
        Got::PertEcc(e, t) => Got::PertEcc(*e, -t),
        Got::SemiLatus(t) => Got::SemiLatus(-t),
        g => g.clone(),
    }
}

fn scaled(g: &Got, r: f64, v: f64) -> Got {
    match g {
        Got::Ok(p, w) => Got::Ok(p.map(|x| x * r), w.map(|x| x * v)),
        g => g.clone(),
    }
}

/// unperturbed motion on the ellipse of the elements, position in km and velocity in km/s
fn ellipse(el: &Elems, t: f64) -> ([f64; 3], [f64; 3]) {
    let a = (el.geo.ke / el.n).powf(2.0 / 3.0) * el.geo.ae;
    let m = el.m + el.n * t;
    let m = m - TAU * (m / TAU).round();
    // bisection of the monotone E - e sin E = M
    let (mut lo, mut hi) = (m - 1.0, m + 1.0);
    for _ in 0..80 {
        let mid = 0.5 * (lo + hi);
        if mid - el.e * mid.sin() < m {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    let (se, ce) = (0.5 * (lo + hi)).sin_cos();
    let b = (1.0 - el.e * el.e).sqrt();
    let rate = el.n / 60.0 / (1.0 - el.e * ce);
    let (x, y) = (a * (ce - el.e), a * b * se);
    let (vx, vy) = (-a * se * rate, a * b * ce * rate);
    let (so, co) = el.argp.sin_cos();
    let (sn, cn) = el.node.sin_cos();
    let (si, ci) = el.i.sin_cos();
    let turn = |x: f64, y: f64| {
        let (u, w) = (co * x - so * y, so * x + co * y);
        [cn * u - sn * ci * w, sn * u + cn * ci * w, si * w]
    };
    (turn(x, y), turn(vx, vy))
}

pub fn c25(thorough: bool) -> Vec<Space> {
    let mut orbits = Vec::new();
    let steps = if thorough { 62 } else { 31 };
    let mut inclinations: Vec<f64> = (0..=steps).map(|k| 3.1 * k as f64 / steps as f64).collect();
    inclinations.extend([1e-6, 1e-3, 1.107, PI / 2.0, 2.034]);
    let mut pairs: Vec<(f64, f64)> = vec![(0.02, 0.1), (0.011, 0.4), (0.00875, 0.6), (0.004375, 0.001), (0.0045, 0.3), (0.002, 0.5)];
    for n in [up(NEAR_LIMIT), 0.0285, 0.031, 0.035, 0.04, 0.045, 0.05, 0.055, 0.06, 0.063, 0.066, 0.069, 0.072] {
        for e in [0.0, 1e-5, 1e-3, 0.02, 0.1, 0.3, 0.5, 0.7] {
            // perigees that are not far below the surface
            if (WGS72.ke / n).powf(2.0 / 3.0) * (1.0 - e) > 0.9 {
                pairs.push((n, e));
            }
        }
    }
    for (k, i) in inclinations.iter().enumerate() {
        for &(n, e) in &pairs {
            for a in 0..12 {
                let mut el = elems(GEOS[(k + a) % 3], *i, e, n, ANGLES[a]);
                el.bstar = 0.0;
                el.epoch = [7.25, -31.0, 42.0][(a + k) % 3];
                el.theta = 0.5 * k as f64;
                orbits.push(el);
            }
        }
    }
    let times: Vec<f64> = if thorough {
        (0..40).map(|k| 37.0 * k as f64).chain((0..40).map(|k| 2500.0 * k as f64)).chain([1e6, 1e7, 4.4e7, 6e7]).collect()
    } else {
        vec![0.0, 1.0, 17.0, 33.0, 60.0, 95.0, 100.0, 250.0, 1440.0, 20000.0, 1e5, 1e6, 6e7]
    };
    let near: Vec<Elems> = orbits.iter().filter(|el| el.n > NEAR_LIMIT).cloned().collect();
    // rounding of the angles that grow with time
    let allow = |el: &Elems, t: f64, r: f64| (r * (1.0 + 1e-5 * el.n * t.abs()), 1e-3 * r * (1.0 + 1e-5 * el.n * t.abs()));
    let planes = [PI, -PI, 3.0 * PI];
    let r = [near.len(), planes.len(), times.len()];
    let mirror = {
        let (near, times) = (near.clone(), times.clone());
        space("mirrored", product(&r), move |ix, rec| {
            let [o, k, j] = digits(ix, r);
            let el = near[o];
            let mut other = el;
            other.node = planes[k] - el.node;
            other.argp = planes[(k + o) % 3] - el.argp;
            other.m = -el.m;
            let (c, u) = (build(&el)?, build(&other)?);
            rec.op(2);
            for t in [times[j], -times[j]] {
                for afspc in [false, true] {
                    let (a, b) = (propagate(&c, t, afspc), propagate(&u, -t, afspc));
                    rec.op(2);
                    rec.trace(1);
                    rec.class(a.class());
                    rec.state(Hash::new().u(ix).f(t).u(afspc as u64).0);
                    if !same_motion(&mirrored(&a), &b, allow(&el, t, 1e-5)) {
                        return Err(format!("the mirrored orbit does not move backwards at t={t}: {a:?} {b:?}; {el:?} {other:?}"));
                    }
                }
            }
            Ok(())
        })
    };
    let mut factors: Vec<f64> = vec![0.5, 2.0, 0.01, 100.0, 0.3, 1.0 / 6378.135, 6378.135 / 6378.137, 1.1, 10.0];
    if thorough {
        factors.extend((1..40).map(|k| 0.05 * k as f64));
    }
    let r = [orbits.len(), factors.len()];
    let radius = {
        let times: Vec<f64> = times.iter().cloned().filter(|t| *t <= 1e5).collect();
        let factors = factors.clone();
        space("radius-scaled", product(&r), move |ix, rec| {
            let [o, k] = digits(ix, r);
            let el = orbits[o];
            let f = factors[k];
            let mut other = el;
            other.geo.ae *= f;
            let (c, u) = (build(&el)?, build(&other)?);
            rec.op(2);
            for &t in times.iter().flat_map(|t| [*t, -t]).collect::<Vec<f64>>().iter() {
                let (a, b) = (propagate(&c, t, false), propagate(&u, t, false));
                rec.op(2);
                rec.trace(1);
                rec.class(a.class());
                rec.state(Hash::new().u(ix).f(t).0);
                if !same_motion(&a, &scaled(&b, 1.0 / f, 1.0 / f), (1e-6, 1e-9)) {
                    return Err(format!("an Earth radius {f} times as large does not scale the prediction at t={t}: {a:?} {b:?}; {el:?}"));
                }
            }
            Ok(())
        })
    };
    let r = [near.len(), factors.len()];
    let clock = {
        let (near, times) = (near.clone(), times.clone());
        space("clock-scaled", product(&r), move |ix, rec| {
            let [o, k] = digits(ix, r);
            let el = near[o];
            let f = factors[k];
            let mut other = el;
            other.geo.ke *= f;
            other.n *= f;
            if other.n <= NEAR_LIMIT * 1.001 {
                rec.class("not-near-earth");
                return Ok(());
            }
            let (c, u) = (build(&el)?, build(&other)?);
            rec.op(2);
            for &t in times.iter().flat_map(|t| [*t, -t]).collect::<Vec<f64>>().iter() {
                let (a, b) = (propagate(&c, t, false), propagate(&u, t / f, false));
                rec.op(2);
                rec.trace(1);
                rec.class(a.class());
                rec.state(Hash::new().u(ix).f(t).0);
                if !same_motion(&a, &scaled(&b, 1.0, 1.0 / f), allow(&el, t, 1e-5)) {
                    return Err(format!("a clock {f} times as fast changes the motion at t={t}: {a:?} {b:?}; {el:?}"));
                }
            }
            Ok(())
        })
    };
    // reflections at the equator (turning the field over) and of the direction of motion
    let drags = [0.0, 1e-5, -1e-5, 1e-4];
    let short: Vec<f64> = times.iter().cloned().filter(|t| *t <= 1440.0).collect();
    let r = [near.len(), 2, drags.len()];
    let turned_over = {
        let near = near.clone();
        space("turned-over", product(&r), move |ix, rec| {
            let [o, which, d] = digits(ix, r);
            let mut el = near[o];
            el.bstar = drags[d];
            let mut other = el;
            let (sx, sy, sz);
            if which == 0 {
                other.geo.j3 = -el.geo.j3;
                other.node += PI;
                other.argp += PI;
                (sx, sy, sz) = (1.0, 1.0, -1.0);
            } else {
                el.geo.j3 = 0.0;
                other.geo.j3 = 0.0;
                other.i = PI - el.i;
                other.node = -el.node;
                (sx, sy, sz) = (1.0, -1.0, 1.0);
            }
            let (c, u) = (build(&el)?, build(&other)?);
            rec.op(2);
            for &t in short.iter().flat_map(|t| [*t, -t]).collect::<Vec<f64>>().iter() {
                let (a, b) = (propagate(&c, t, false), propagate(&u, t, false));
                rec.op(2);
                rec.trace(1);
                rec.class(a.class());
                rec.state(Hash::new().u(ix).f(t).0);
                let image = match &a {
                    Got::Ok(p, v) => Got::Ok([sx * p[0], sy * p[1], sz * p[2]], [sx * v[0], sy * v[1], sz * v[2]]),
                    g => g.clone(),
                };
                if !same_motion(&image, &b, (1e-5, 1e-8)) {
                    return Err(format!(
                        "{} does not reflect the prediction at t={t}: {a:?} {b:?}; {el:?} {other:?}",
                        ["turning the field over", "moving the other way round"][which]
                    ));
                }
            }
            Ok(())
        })
    };
    // a sphere: almost no oblateness, nothing of higher order
    let r = [near.len(), 2, times.len()];
    let sphere = space("sphere", product(&r), move |ix, rec| {
        let [o, k, j] = digits(ix, r);
        let mut el = near[o];
        // smaller eccentricities are rounded up by the equations
        el.e = el.e.max(1e-6);
        (el.geo.j2, el.geo.j3, el.geo.j4) = ([1e-14, 1e-17][k], 0.0, 0.0);
        let c = build(&el)?;
        rec.op(1);
        for t in [times[j], -times[j]] {
            for afspc in [false, true] {
                let a = propagate(&c, t, afspc);
                rec.op(1);
                rec.trace(1);
                rec.class(a.class());
                rec.state(Hash::new().u(ix).f(t).u(afspc as u64).0);
                let (p, v) = ellipse(&el, t);
                if !same_motion(&a, &Got::Ok(p, v), allow(&el, t, 1e-4)) {
                    return Err(format!("around a sphere the motion at t={t} is {a:?}, not on the ellipse ({p:?} {v:?}); {el:?}"));
                }
            }
        }
        Ok(())
    });
    vec![mirror, radius, clock, turned_over, sphere]
}
