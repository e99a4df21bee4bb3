//! Checks on propagation that relate calls of the implementation to each other and to the model.
use crate::agree::*;
use crate::alph::*;
use crate::engine::*;
use crate::refm::{self, Elems, Kind, Out, PI, WGS72, WGS84};
use sgp4::{Constants, ResonanceState};

pub fn build(el: &Elems) -> Result<Constants, String> {
    constants(el)?.map_err(|x| format!("refused with eccentricity {x:?}: {el:?}"))
}

/// equal up to the last few bits
pub fn equivalent(a: &Got, b: &Got) -> bool {
    close(a, b, 1e-8, 1e-11)
}

pub fn close(a: &Got, b: &Got, tr: f64, tv: f64) -> bool {
    let near = |x: &[f64; 3], y: &[f64; 3], tol: f64| {
        let s = x.iter().fold(1.0f64, |m, v| m.max(v.abs() * 1e-4));
        (0..3).all(|k| x[k].to_bits() == y[k].to_bits() || (x[k] - y[k]).abs() <= tol * s)
    };
    match (a, b) {
        (Got::Ok(p, v), Got::Ok(q, w)) => near(p, q, tr) && near(v, w, tv),
        (Got::Ecc(e, t), Got::Ecc(f, u)) | (Got::PertEcc(e, t), Got::PertEcc(f, u)) => {
            t.to_bits() == u.to_bits() && (e.to_bits() == f.to_bits() || (e - f).abs() <= 1e-12 * (1.0 + e.abs()))
        }
        _ => a.same(b),
    }
}

/// orbits of every kind, for checks that need a few representative ones
pub fn zoo() -> Vec<Elems> {
    let mut v = Vec::new();
    let mut push = |geo, i, e, n, a, bstar: f64, epoch: f64, theta: f64| {
        let mut el = elems(geo, i, e, n, a);
        el.bstar = bstar;
        el.epoch = epoch;
        el.theta = theta;
        v.push(el);
    };
    // near-earth: elliptic, circular, low perigee, very low perigee, retrograde
    push(WGS72, 0.9, 0.01, n_of_perigee(&WGS72, 400.0, 0.01), (1.0, 2.0, 3.0), 1e-4, 6.5, 1.0);
    push(WGS84, 1.7, 5e-5, n_of_perigee(&WGS84, 700.0, 5e-5), (4.0, 0.5, 6.0), 3e-5, 20.5, 2.0);
    push(WGS72, 0.5, 0.1, n_of_perigee(&WGS72, 180.0, 0.1), (2.0, 5.0, 1.0), 2e-4, -10.0, 5.0);
    push(WGS84, 1.1, 0.3, n_of_perigee(&WGS84, 120.0, 0.3), (0.0, 0.0, 0.0), 1e-5, 3.0, 3.0);
    push(WGS84, PI, 0.002, n_of_perigee(&WGS84, 500.0, 0.002), (0.2, 0.1, 4.0), 0.0, 3.0, 3.0);
    // deep space, non resonant: ordinary, near-equatorial, Lyddane, long period
    push(WGS72, 1.0, 0.3, 0.02, (1.0, 2.0, 3.0), 1e-4, 6.5, 1.0);
    push(WGS84, 0.03, 0.01, 0.0065, (5.0, 2.0, 3.0), 0.0, 16.5, 1.0);
    push(WGS84, 0.15, 0.2, 0.012, (-2.0, 0.3, 2.0), 1e-5, 10.5, 1.0);
    push(WGS72, 2.2, 0.6, 0.0015, (3.0, 4.0, 5.0), 0.0, -22.5, 4.0);
    // 12 h resonant
    push(WGS72, 1.1, 0.69, 8.75e-3, (4.8, 4.6, 0.35), 1e-4, 6.48, 1.0);
    push(WGS84, 1.2, 0.55, 8.72e-3, (1.0, 1.6, 5.35), 0.0, 20.1, 4.5);
    push(WGS84, 0.1, 0.712, 9.1e-3, (3.0, 5.6, 2.35), 0.0, 11.0, 2.5);
    // 24 h resonant
    push(WGS72, 0.01, 0.0003, 4.375e-3, (1.0, 0.2, 3.0), 0.0, 6.5, 1.0);
    push(WGS84, 0.3, 0.01, 4.36e-3, (5.0, 4.2, 1.0), 0.0, 25.3, 5.5);
    push(WGS84, 1.1, 0.4, 4.6e-3, (2.0, 4.7, 0.1), 1e-5, -5.0, 0.5);
    v
}

// ------------------------------------------------------------------------------------------------ C04

fn multiple_of_720(t: f64) -> bool {
    t % 720.0 == 0.0
}

struct Walk<'a> {
    c: &'a Constants,
    times: &'a [f64],
    fresh: &'a [[Got; 2]],
    depth: usize,
    el: &'a Elems,
}

impl Walk<'_> {
    /// every continuation of `path`; monotone: (largest accepted |t|, side of epoch)
    fn visit(
        &self,
        state: &ResonanceState,
        path: &mut Vec<(usize, bool)>,
        far: f64,
        side: i8,
        rec: &mut Rec,
    ) -> Result<(), String> {
        if path.len() == self.depth {
            rec.trace(1);
            return Ok(());
        }
        for (k, &t) in self.times.iter().enumerate() {
            // both modes share a state: alternate them along the path
            let afspc = (k + path.len()) % 2 == 1;
            let before = state.t();
            let mut s = *state;
            let g = from_state(self.c, t, Some(&mut s), afspc);
            rec.op(1);
            path.push((k, afspc));
            let fail = |m: &str| {
                let p: Vec<f64> = path.iter().map(|(k, _)| self.times[*k]).collect();
                Err(format!("{m}; sequence of times {p:?}, integrator at {before:?} then {:?}; got {g:?}, fresh {:?}; {:?}", s.t(), self.fresh[k][afspc as usize], self.el))
            };
            let this_side = if t > 0.0 { 1 } else if t < 0.0 { -1 } else { 0 };
            let monotone = t.abs() >= far && (side == 0 || this_side == 0 || side == this_side);
            match &g {
                Got::Panic(_) => {
                    rec.class("refused");
                    if monotone {
                        return fail("a monotone sequence is refused");
                    }
                    if s.t().to_bits() != before.to_bits() {
                        return fail("a refused call moved the state");
                    }
                    // the refused call must leave no trace
                    self.visit(&s, path, far, side, rec)?;
                }
                _ => {
                    rec.class(if monotone { "monotone-answered" } else { "non-monotone-answered" });
                    rec.class(g.class());
                    if !equivalent(&g, &self.fresh[k][afspc as usize]) {
                        return fail("differs from a fresh propagation");
                    }
                    let at = s.t();
                    if !multiple_of_720(at) || at.abs() > t.abs() || at * t < 0.0 {
                        return fail("integrator time is not a whole number of steps within the requested time");
                    }
                    if monotone && at.abs() < before.abs() {
                        return fail("integrator time moved back");
                    }
                    rec.state(Hash::new().f(self.el.n).f(self.el.e).f(at).f(t).u(path.len() as u64).f(far).0);
                    let far = far.max(t.abs());
                    let side = if this_side == 0 { side } else { this_side };
                    self.visit(&s, path, far, side, rec)?;
                }
            }
            path.pop();
        }
        Ok(())
    }
}

pub fn c04(thorough: bool) -> Vec<Space> {
    let mut orbits: Vec<Elems> = zoo().into_iter().filter(|el| Model::new(*el).sat.resonant()).collect();
    // band edges
    orbits.push(elems(WGS84, 1.1, 0.5, 8.26e-3, (1.0, 2.0, 3.0)));
    orbits.push(elems(WGS72, 0.4, 0.1, up(0.0034906585), (1.0, 2.0, 3.0)));
    // heavy drag: some of the times end in an error
    for k in [0usize, 1, 3, 5] {
        for sign in [1.0, -1.0] {
            let mut el = orbits[k];
            el.bstar = sign;
            while matches!(Model::new(el).expect(30000.0, false), Out::Ok(..))
                && matches!(Model::new(el).expect(-30000.0, false), Out::Ok(..))
                && el.bstar.abs() < 1e15
            {
                el.bstar *= 2.0;
            }
            orbits.push(el);
        }
    }
    let alphabet: Vec<f64> = vec![
        0.0, 1.0, 719.999, 720.0, 720.001, 1440.0, 2000.0, 7300.0, 30000.0, -0.0, -1.0, -719.999, -720.0, -1440.0, -2000.0, -7300.0, -30000.0,
    ];
    let depth = if thorough { 5 } else { 4 };
    let n = alphabet.len();
    let r = [orbits.len(), n, 2];
    let seq = {
        let (orbits, alphabet) = (orbits.clone(), alphabet.clone());
        space("call-sequences", product(&r), move |ix, rec| {
            let [o, first, mode] = digits(ix, r);
            let el = orbits[o];
            let c = build(&el)?;
            let fresh: Vec<[Got; 2]> =
                alphabet.iter().map(|t| [propagate(&c, *t, false), propagate(&c, *t, true)]).collect();
            rec.op(1 + 2 * n as u64);
            let Some(s0) = c.initial_state() else {
                return Err(format!("no state for a resonant orbit: {el:?}"));
            };
            if s0.t() != 0.0 {
                return Err(format!("the initial state is at {}: {el:?}", s0.t()));
            }
            let mut s = s0;
            let t = alphabet[first];
            let g = from_state(&c, t, Some(&mut s), mode == 1);
            rec.op(1);
            if !equivalent(&g, &fresh[first][mode]) {
                return Err(format!("first call to t={t:?} differs from a fresh propagation: {g:?} {:?} {el:?}", fresh[first][mode]));
            }
            if !multiple_of_720(s.t()) || s.t().abs() > t.abs() || s.t() * t < 0.0 {
                return Err(format!("after t={t:?} the integrator is at {:?}: {el:?}", s.t()));
            }
            rec.class(g.class());
            rec.sample(|| format!("first t={t} then all continuations of depth {}: {el:?}", depth - 1));
            let w = Walk { c: &c, times: &alphabet, fresh: &fresh, depth: depth - 1, el: &el };
            let side = if t > 0.0 { 1 } else if t < 0.0 { -1 } else { 0 };
            let mut path = Vec::new();
            w.visit(&s, &mut path, t.abs(), side, rec).map_err(|m| format!("after a first call to {t:?}: {m}"))
        })
    };
    // long monotone ladders in both directions, with steps of every residue
    let strides: Vec<f64> = vec![1.0, 90.0, 359.0, 360.0, 719.0, 720.0, 721.0, 1000.0, 1440.0, 2161.5, 7199.9, 10080.0];
    let rungs = if thorough { 400 } else { 60 };
    let r2 = [orbits.len(), strides.len(), 2];
    let ladder = {
        let orbits = orbits.clone();
        space("ladders", product(&r2), move |ix, rec| {
            let [o, s, d] = digits(ix, r2);
            let el = orbits[o];
            let c = build(&el)?;
            let mut state = c.initial_state();
            let sign = [1.0, -1.0][d];
            for k in 0..rungs {
                let t = sign * strides[s] * k as f64;
                let afspc = k % 3 == 1;
                let g = from_state(&c, t, state.as_mut(), afspc);
                let f = propagate(&c, t, afspc);
                rec.op(2);
                if !equivalent(&g, &f) {
                    return Err(format!("rung {k} of stride {} differs from fresh: {g:?} {f:?} {el:?}", strides[s]));
                }
                rec.class(g.class());
                let at = state.as_ref().map(|s| s.t()).unwrap_or(0.0);
                if !multiple_of_720(at) || at.abs() > t.abs() || at * t < 0.0 {
                    return Err(format!("rung t={t}: integrator at {at}: {el:?}"));
                }
                rec.state(Hash::new().u(o as u64).f(t).f(at).0);
            }
            rec.trace(1);
            Ok(())
        })
    };
    // two jumps of any size, up to decades
    let jumps: Vec<f64> = {
        let mut v = vec![0.0];
        let per = if thorough { 6 } else { 3 };
        for k in 0..=(7 * per) {
            v.push(10f64.powf(k as f64 / per as f64));
        }
        v
    };
    let r4 = [orbits.len(), jumps.len(), jumps.len(), 2, 2];
    let leaps = {
        let orbits = orbits.clone();
        space("leaps", product(&r4), move |ix, rec| {
            let [o, a, b, d, mode] = digits(ix, r4);
            let el = orbits[o];
            let c = build(&el)?;
            let mut state = c.initial_state();
            let sign = [1.0, -1.0][d];
            for t in [jumps[a], jumps[a] + jumps[b]] {
                let g = from_state(&c, sign * t, state.as_mut(), mode == 1);
                let f = propagate(&c, sign * t, mode == 1);
                rec.op(2);
                if !equivalent(&g, &f) {
                    return Err(format!("leaps to {} and on by {} in direction {sign}: {g:?} {f:?} {el:?}", jumps[a], jumps[b]));
                }
                rec.class(g.class());
                let at = state.as_ref().map(|s| s.t()).unwrap_or(0.0);
                if !multiple_of_720(at) || at.abs() > t || at * sign < 0.0 {
                    return Err(format!("after a leap to {t} the integrator is at {at}: {el:?}"));
                }
                rec.state(Hash::new().u(o as u64).f(t).f(at).0);
            }
            rec.trace(1);
            Ok(())
        })
    };
    // a century, in one leap or in several
    let marks = [1.0e7, 2.36e7, 4.7e7, 65536.0 * 720.0, 65537.0 * 720.0, 6.0e7];
    // the last mark is always visited, after at most one other stop (any stops in the thorough tier)
    let most = if thorough { 6 } else { 2 };
    let routes: Vec<u32> = (0..1u32 << marks.len()).filter(|m| m >> (marks.len() - 1) == 1 && m.count_ones() <= most).collect();
    let r5 = [orbits.len(), routes.len(), 2];
    let centuries = {
        let orbits = orbits.clone();
        space("centuries", product(&r5), move |ix, rec| {
            let [o, route, d] = digits(ix, r5);
            let stops = routes[route];
            let el = orbits[o];
            let c = build(&el)?;
            let sign = [1.0, -1.0][d];
            let mut state = c.initial_state();
            for t in (0..marks.len()).filter(|k| stops >> k & 1 == 1).map(|k| marks[k]) {
                let g = from_state(&c, sign * t, state.as_mut(), d == 1);
                let f = propagate(&c, sign * t, d == 1);
                rec.op(2);
                if !equivalent(&g, &f) {
                    return Err(format!("leap to {} with stops {stops:b}: {g:?} {f:?} {el:?}", sign * t));
                }
                rec.class(g.class());
                let at = state.as_ref().map(|s| s.t()).unwrap_or(0.0);
                if !multiple_of_720(at) || at.abs() > t || at * sign < 0.0 || (at == 0.0 && state.is_some()) {
                    return Err(format!("after a leap to {t} the integrator is at {at}: {el:?}"));
                }
                rec.state(Hash::new().u(o as u64).f(t).f(at).0);
            }
            rec.trace(1);
            Ok(())
        })
    };
    // a state exists exactly for resonant orbits
    let ns: Vec<f64> = vec![
        0.06, up(NEAR_LIMIT), NEAR_LIMIT, 0.02, up(9.24e-3), 9.24e-3, 9.0e-3, 8.26e-3, down(8.26e-3), 0.006, 0.0052359877, down(0.0052359877), 0.0044,
        up(0.0034906585), 0.0034906585, down(0.0034906585), 0.001,
    ];
    let es = [0.0, 0.1, down(0.5), 0.5, up(0.5), 0.7, 0.9];
    let incs = [0.0, 0.1, 1.0, 2.0, PI];
    let r3 = [ns.len(), es.len(), incs.len(), 3];
    let exists = space("state-exists", product(&r3), move |ix, rec| {
        let [n, e, i, g] = digits(ix, r3);
        let el = elems(GEOS[g], incs[i], es[e], ns[n], ANGLES[1]);
        let c = build(&el)?;
        rec.op(2);
        let want = Model::new(el).sat.resonant();
        let has = c.initial_state().is_some();
        rec.trace(1);
        rec.state(Hash::new().f(el.n).f(el.e).f(el.i).u(has as u64).0);
        rec.class(if has { "resonant" } else { "not-resonant" });
        if want != has {
            return Err(format!("initial_state is {} for {el:?}", if has { "Some" } else { "None" }));
        }
        if !has {
            for t in [0.0, 100.0, -5000.0] {
                for afspc in [false, true] {
                    let g = from_state(&c, t, None, afspc);
                    let f = propagate(&c, t, afspc);
                    rec.op(2);
                    if !equivalent(&g, &f) {
                        return Err(format!("stateless propagation differs: {g:?} {f:?} {el:?}"));
                    }
                }
            }
        }
        Ok(())
    });
    vec![exists, ladder, leaps, centuries, seq]
}

// ------------------------------------------------------------------------------------------------ C05

fn ok(g: Got) -> Option<([f64; 3], [f64; 3])> {
    match g {
        Got::Ok(p, v) => Some((p, v)),
        _ => None,
    }
}

fn norm(v: &[f64; 3]) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}

fn seam(c: &Constants, el: &Elems, t: f64, eps: f64, afspc: bool, rec: &mut Rec) -> Result<(), String> {
    let mut g = Vec::new();
    for u in [t - eps, t, t + eps] {
        let x = propagate(c, u, afspc);
        rec.op(1);
        if let Got::Panic(m) = &x {
            return Err(format!("panicked at t={u}: {m}"));
        }
        match ok(x) {
            Some(x) => g.push((u, x)),
            None => {
                rec.class("diverged");
                return Ok(());
            }
        }
    }
    rec.trace(1);
    rec.state(Hash::new().f(el.n).f(el.e).f(el.i).f(el.m).f(t).f(eps).0);
    for w in g.windows(2) {
        let ((u0, (p, v)), (u1, (q, x))) = (w[0], w[1]);
        let dt = (u1 - u0) * 60.0;
        let mut miss = [0.0; 3];
        for k in 0..3 {
            miss[k] = q[k] - p[k] - 0.5 * (v[k] + x[k]) * dt;
        }
        let speed = norm(&v).max(norm(&x));
        let tol = 0.01 * speed * dt.abs() + 2e-6 + 1e-9 * (el.n * t).abs();
        if norm(&miss) > tol {
            return Err(format!(
                "between t={u0:?} and t={u1:?} the position moves by {:?} km but the velocity accounts for all but {:e} km of it (allowed {tol:e}); {el:?}",
                [q[0] - p[0], q[1] - p[1], q[2] - p[2]],
                norm(&miss)
            ));
        }
    }
    rec.class("continuous");
    Ok(())
}

/// sixth differences of equally spaced positions: small where the motion is smooth, ten times a jump at a jump
fn roughest(x: &[[f64; 3]]) -> usize {
    let norm = |j: usize| {
        (0..3)
            .map(|k| {
                let w = |m: usize| x[j + m][k];
                (w(0) - 6.0 * w(1) + 15.0 * w(2) - 20.0 * w(3) + 15.0 * w(4) - 6.0 * w(5) + w(6)).powi(2)
            })
            .sum::<f64>()
    };
    let mut best = (0, -1.0);
    for j in 0..x.len() - 6 {
        let d = norm(j);
        if d > best.1 {
            best = (j, d);
        }
    }
    best.0
}

/// samples `count` positions from `start` on, and looks closer and closer where they are least smooth
fn smooth(c: &Constants, el: &Elems, start: f64, h: f64, count: usize, rec: &mut Rec) -> Result<(), String> {
    let mut base = c.initial_state();
    from_state(c, start - 10.0 * h, base.as_mut(), false);
    let at = |t: f64| {
        let mut s = base;
        match from_state(c, t, s.as_mut(), false) {
            Got::Ok(p, v) => Ok(Some((p, v))),
            Got::Panic(m) => Err(format!("panicked at t={t}: {m}; {el:?}")),
            _ => Ok(None),
        }
    };
    let mut running = base;
    let mut x = Vec::with_capacity(count);
    for k in 0..count {
        let g = from_state(c, start + h * k as f64, running.as_mut(), false);
        rec.op(1);
        match g {
            Got::Ok(p, _) => x.push(p),
            Got::Panic(m) => return Err(format!("panicked at t={}: {m}; {el:?}", start + h * k as f64)),
            _ => {
                rec.class("diverged");
                return Ok(());
            }
        }
    }
    let m = roughest(&x);
    let (mut a, mut b) = (start + h * (m + 2) as f64, start + h * (m + 4) as f64);
    while (b - a).abs() > 1e-6 {
        let d = (b - a) / 12.0;
        let mut y = Vec::with_capacity(19);
        for k in 0..19 {
            match at(a + d * (k as f64 - 3.0))? {
                Some((p, _)) => y.push(p),
                None => return Ok(()),
            }
        }
        rec.op(19);
        let m = roughest(&y) as f64;
        (a, b) = (a + d * (m - 1.0), a + d * (m + 1.0));
    }
    if let (Some((p, v)), Some((q, w))) = (at(a)?, at(b)?) {
        rec.op(2);
        rec.trace(1);
        rec.class("smooth");
        rec.state(Hash::new().f(a).f(p[0]).f(q[0]).0);
        let size = |z: &[f64; 3]| (z[0] * z[0] + z[1] * z[1] + z[2] * z[2]).sqrt();
        let moved = size(&[p[0] - q[0], p[1] - q[1], p[2] - q[2]]);
        let noise = 1e-6 + 1e-14 * (1.0 + el.n * a.abs()) * size(&p);
        let allowed = 120.0 * size(&v).max(size(&w)) * (b - a).abs() + noise;
        if moved > allowed {
            return Err(format!("between t={a} and t={b} the position moves by {moved} km (at most {allowed} expected); {el:?}"));
        }
    }
    Ok(())
}

pub fn c05(thorough: bool) -> Vec<Space> {
    let incs = [0.3, 0.7, 1.1, 1.1065, PI / 2.0, 1.9, 2.6];
    let mut orbits = Vec::new();
    for (k, i) in incs.iter().enumerate() {
        for (n, e) in [
            (8.75e-3, 0.5), (8.72e-3, 0.66), (8.5e-3, 0.72), (9.2e-3, 0.74), (4.375e-3, 0.001), (4.36e-3, 0.2), (4.9e-3, 0.6), (3.6e-3, 0.05),
            (0.02, 0.3), (0.0065, 0.6), (0.0012, 0.1), (NEAR_LIMIT, 0.1),
        ] {
            for a in [1, 4, 7] {
                let mut el = elems(GEOS[k % 2], *i, e, n, ANGLES[a]);
                el.theta = 0.7 * k as f64;
                el.epoch = -20.0 + 9.0 * k as f64;
                el.bstar = [0.0, 1e-5][k % 2];
                orbits.push(el);
            }
        }
        for (p, e) in [(230.0, 0.001), (500.0, 0.0), (800.0, 0.02), (300.0, 0.2), (215.0, 0.01), (1500.0, 1e-4)] {
            for a in [2, 5] {
                let mut el = elems(GEOS[k % 2], *i, e, n_of_perigee(&GEOS[k % 2], p, e), ANGLES[a]);
                el.bstar = 1e-5;
                orbits.push(el);
            }
        }
    }
    let steps: usize = if thorough { 400 } else { 100 };
    let r = [orbits.len(), 2 * steps + 1, 2];
    let seams = {
        let orbits = orbits.clone();
        space("step-boundaries", product(&r), move |ix, rec| {
            let [o, k, q] = digits(ix, r);
            let c = build(&orbits[o])?;
            let t = (k as f64 - steps as f64) * [720.0, 360.0][q];
            rec.sample(|| format!("t={t} {:?}", orbits[o]));
            for eps in [1e-9, 1e-6, 1e-3] {
                for afspc in [false, true] {
                    seam(&c, &orbits[o], t, eps, afspc, rec)?;
                }
            }
            Ok(())
        })
    };
    let count = if thorough { 40000 } else { 12000 };
    let stride = if thorough { 1 } else { 3 };
    let picks: Vec<Elems> = orbits.iter().step_by(stride).cloned().collect();
    let r2 = [picks.len(), count];
    let sweep = space("time-sweep", product(&r2), move |ix, rec| {
        let [o, k] = digits(ix, r2);
        let c = build(&picks[o])?;
        let t = (k as f64 - count as f64 / 2.0) * 0.2;
        seam(&c, &picks[o], t, 0.1, false, rec)
    });
    // years without a gap: (elements, step, number of chunks either way)
    let chunk = 4096;
    let span = if thorough { 3e7 } else { 5e6 };
    let mut long = Vec::new();
    let mut chunks = Vec::new();
    for (k, (n, e)) in [
        (0.066, 0.001), (0.0625, 0.01), (0.05, 0.05), (0.035, 0.02), (up(NEAR_LIMIT), 0.1), (0.045, 0.2),
        (0.02, 0.05), (0.0065, 0.1), (0.012, 0.3), (0.002, 0.01), (4.375e-3, 0.001), (4.36e-3, 0.2), (3.6e-3, 0.05), (8.75e-3, 0.55), (8.72e-3, 0.66), (NEAR_LIMIT, 2e-5),
    ].iter().enumerate()
    {
        for a in 0..if thorough { 4 } else { 1 } {
            let mut el = elems(GEOS[k % 2], [0.9, 1.6, 0.5, 2.3][(k + a) % 4], *e, *n, ANGLES[(k + 3 * a) % 12]);
            el.theta = 0.7 * k as f64;
            el.epoch = -20.0 + 4.0 * k as f64;
            el.bstar = if *e == 2e-5 { 10.0 } else { [0.0, 1e-9][(k + a) % 2] };
            // not a whole number of minutes, and finer for longer ellipses
            let h = 1.0037 * (2.0 * PI / n) / (60.0 * (1.0 + 6.0 * e));
            // (the sun and the moon may turn deep-space planes below 0.2 rad later on)
            let span = if *n > NEAR_LIMIT { span } else { 5e6 };
            let each = (span / (h * chunk as f64)).ceil() as usize;
            for j in 0..each {
                chunks.push((long.len(), j, 1.0));
                chunks.push((long.len(), j, -1.0));
            }
            long.push((el, h));
        }
    }
    let years = space("years", chunks.len() as u64, move |ix, rec| {
        let (o, j, sign) = chunks[ix as usize];
        let (el, h) = long[o];
        let c = build(&el)?;
        rec.op(1);
        // chunks overlap a little
        smooth(&c, &el, sign * h * (11 + j * (chunk - 8)) as f64, sign * h, chunk, rec)
    });
    vec![seams, sweep, years]
}

// ------------------------------------------------------------------------------------------------ C06

pub fn c06(thorough: bool) -> Vec<Space> {
    let nodes: Vec<f64> = vec![0.0, -1e-6, 0.5, 2.0, 3.5, 5.0, 6.28, 7.0, 13.0, 250.0, 5000.0, -0.5, -2.0, -4.0, -6.28, -8.0, -20.0, -110.0, -3000.0];
    let incs: Vec<f64> = vec![0.0, 0.001, 0.04, 0.06, 0.12, 0.18, 0.198, 0.1999, 0.2, 0.2001, 0.202, 0.25, 0.3, 0.9, PI / 2.0, 2.5, 3.0, 3.12, PI];
    let ns: Vec<f64> = vec![0.065, 0.04, up(NEAR_LIMIT), NEAR_LIMIT, 0.015, 0.0087, 0.0061, 0.0044, 0.002];
    let es: Vec<f64> = vec![0.0, 0.001, 0.05, 0.3, 0.6, 0.72, 0.92];
    let mut times: Vec<f64> = vec![0.0, 1.0, -1.0, 719.0, 720.0, -720.0, 5000.0, -5000.0, 60000.0, -60000.0, 5e5, -5e5];
    if thorough {
        for k in 1..12 {
            times.extend([k as f64 * 97.3, k as f64 * -1234.5, k as f64 * 33333.0]);
        }
    }
    let na = if thorough { 12 } else { 6 };
    let r = [nodes.len(), incs.len(), ns.len(), es.len(), na];
    vec![space("modes", product(&r), move |ix, rec| {
        let [o, i, n, e, a] = digits(ix, r);
        let mut el = elems(GEOS[(o + i) % 2], incs[i], es[e], ns[n], ANGLES[a]);
        el.node = nodes[o];
        el.epoch = [-30.0, 7.7, 22.0, 41.0, 0.0, 50.0][(o + e + a) % 6];
        el.bstar = [0.0, 1e-4, 0.5][(i + e) % 3];
        let model = Model::new(el);
        let near = matches!(model.sat.kind, Kind::Near | Kind::NearSimple);
        let c = build(&el)?;
        rec.op(1);
        // integrating to the far times takes too long
        let far: &[f64] = if model.sat.resonant() { &[] } else { &[2.5e6, -2.5e6, 6e7, -6e7] };
        for &t in times.iter().chain(far) {
            let mut both = Vec::new();
            for afspc in [false, true] {
                let g = propagate(&c, t, afspc);
                let s = from_state(&c, t, c.initial_state().as_mut(), afspc);
                rec.op(2);
                if !equivalent(&g, &s) {
                    return Err(format!("the convenience method (afspc={afspc}) differs from state-based propagation at t={t}: {g:?} {s:?} {el:?}"));
                }
                model.check(t, afspc, &g)?;
                rec.trace(1);
                both.push(g);
            }
            rec.state(Hash::new().u(ix).f(t).u(both[0].hash()).u(both[1].hash()).0);
            // (the sun and the moon turn the planes of very long orbits further)
            let inclined = near || (el.i >= 0.25 && el.e < 0.9 && t.abs() <= 60000.0);
            if inclined && !equivalent(&both[0], &both[1]) {
                return Err(format!("modes differ at t={t} although the orbit is not low-inclination deep-space: {both:?} {el:?}"));
            }
            rec.class(if both[0].same(&both[1]) { "modes-equal" } else { "modes-differ" });
            rec.sample(|| format!("t={t} {el:?} -> {both:?}"));
        }
        Ok(())
    })]
}

// ------------------------------------------------------------------------------------------------ C10

fn total(el: &Elems, times: &[f64], rec: &mut Rec) -> Result<(), String> {
    let c = match constants(el)? {
        Ok(c) => c,
        Err(_) => {
            rec.class("refused");
            return Ok(());
        }
    };
    rec.op(1);
    for &t in times {
        for afspc in [false, true] {
            let g = propagate(&c, t, afspc);
            rec.op(1);
            rec.trace(1);
            rec.class(g.class());
            rec.state(Hash(g.hash()).f(t).0);
            match &g {
                Got::Ok(p, v) => {
                    if !p.iter().chain(v).all(|x| x.is_finite()) {
                        return Err(format!("non-finite prediction at t={t:?} afspc={afspc}: {g:?} {el:?}"));
                    }
                    if !t.is_finite() {
                        return Err(format!("prediction for t={t:?}: {g:?} {el:?}"));
                    }
                }
                Got::Panic(m) => return Err(format!("panicked at t={t:?} afspc={afspc}: {m}; {el:?}")),
                _ => {}
            }
            rec.sample(|| format!("t={t:?} {el:?} -> {g:?}"));
        }
    }
    Ok(())
}

pub fn c10(thorough: bool) -> Vec<Space> {
    let inf = f64::INFINITY;
    let nan = f64::NAN;
    let mut out = Vec::new();
    // orbits of every kind, times of every magnitude
    let mut times = vec![0.0, -0.0, nan, -nan, inf, -inf, f64::MIN_POSITIVE, 5e-324, -5e-324];
    for k in -3..=if thorough { 9 } else { 8 } {
        let x = 10f64.powi(k);
        times.extend([x, -x, 3.7 * x / 10.0, -3.7 * x / 10.0]);
    }
    let far = [9.9e8, -9.9e8, 1e9, -1e9];
    if !thorough {
        times.retain(|t| t.abs() <= 1e7 || !t.is_finite());
    }
    let mut orbits = zoo();
    for geo in GEOS {
        for n in [1e-5, 2e-4, 0.0035, 0.00437, 0.0052, 0.0083, 0.0087, 0.0092, 0.015, NEAR_LIMIT, up(NEAR_LIMIT), 0.03, 0.05, 0.07, 0.08, 0.1] {
            for e in [0.0, 1e-4, 0.1, 0.5, 0.65, 0.7, 0.72, 0.9, 0.99, down(1.0)] {
                for i in [0.0, 0.04, 0.15, 0.2, 1.0, PI / 2.0, 3.0, PI] {
                    let mut el = elems(geo, i, e, n, ANGLES[((n * 1e4) as usize + (e * 10.0) as usize) % 12]);
                    el.bstar = [0.0, 1e-4, -1e-3, 0.3, 1e3, -1e3][orbits.len() % 6];
                    orbits.push(el);
                }
            }
        }
    }
    {
        let times = times.clone();
        let orbits = orbits.clone();
        out.push(space("ordinary-orbits", orbits.len() as u64, move |ix, rec| total(&orbits[ix as usize], &times, rec)));
    }
    // resonant orbits to the far end of the claimed range
    {
        let res: Vec<Elems> = zoo().into_iter().filter(|el| Model::new(*el).sat.resonant()).collect();
        let ts: Vec<f64> = if thorough { far.to_vec() } else { vec![1e9, -1e9] };
        let r = [res.len(), ts.len()];
        out.push(space("far-times", product(&r), move |ix, rec| {
            let [o, t] = digits(ix, r);
            let c = build(&res[o])?;
            let g = propagate(&c, ts[t], false);
            rec.op(2);
            rec.trace(1);
            rec.state(g.hash());
            rec.class(g.class());
            match &g {
                Got::Ok(p, v) if !p.iter().chain(v).all(|x| x.is_finite()) => Err(format!("non-finite at t={}: {g:?} {:?}", ts[t], res[o])),
                Got::Panic(m) => Err(format!("panicked at {}: {m}", ts[t])),
                _ => Ok(()),
            }
        }));
    }
    // resonant integration from extreme but accepted coefficients: the integrated mean motion may leave the positive range
    {
        let bands = [8.26e-3, 8.7e-3, 9.24e-3, 0.0034907, 0.0044, 0.0052];
        let es = [0.0, 0.3, 0.5, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.95, 0.97, 0.99, 0.999, 0.99999, down(1.0)];
        let incs = [0.0, 0.1, 0.3, 0.8, 1.1, 1.57, 2.1, 2.8, PI];
        let ts = [720.0, -720.0, 1e4, -1e4, 3e5, -3e5];
        let r = [bands.len(), es.len(), incs.len(), 12, 4, 3];
        out.push(space("resonant-extremes", product(&r), move |ix, rec| {
            let [b, e, i, a, th, g] = digits(ix, r);
            let mut el = elems(GEOS[g], incs[i], es[e], bands[b], ANGLES[a]);
            el.theta = th as f64 * 1.6;
            total(&el, &ts, rec)
        }));
    }
    // any floating-point value anywhere: nothing may panic or hang; finite inputs give finite predictions
    {
        let vals = [0.0, 1.0, -1.0, 1e-300, 1e300, -1e300, 1e10, inf, -inf, nan, f64::MIN_POSITIVE, f64::MAX];
        let bases = [zoo()[0], zoo()[3], zoo()[5], zoo()[7], zoo()[9], zoo()[12]];
        let fields = 14;
        let ts = [0.0, 1.0, -1.0, 5000.0, -5000.0, 1e6, nan, inf];
        let set = move |el: &mut Elems, f: usize, v: f64| match f {
            0 => el.i = v,
            1 => el.node = v,
            2 => el.e = v,
            3 => el.argp = v,
            4 => el.m = v,
            5 => el.n = v,
            6 => el.theta = v,
            7 => el.epoch = v,
            8 => el.bstar = v,
            9 => el.geo.ae = v,
            10 => el.geo.ke = v,
            11 => el.geo.j2 = v,
            12 => el.geo.j3 = v,
            _ => el.geo.j4 = v,
        };
        let r = [bases.len(), fields, vals.len(), fields, vals.len()];
        out.push(space("any-floats", product(&r), move |ix, rec| {
            let [b, f, v, g, w] = digits(ix, r);
            if g < f {
                return Ok(());
            }
            let mut el = bases[b];
            set(&mut el, f, vals[v]);
            set(&mut el, g, vals[w]);
            let c = match constants(&el)? {
                Ok(c) => c,
                Err(_) => {
                    rec.class("refused");
                    return Ok(());
                }
            };
            rec.op(1);
            for &t in &ts {
                let got = propagate(&c, t, f % 2 == 0);
                rec.op(1);
                rec.trace(1);
                rec.class(got.class());
                if let Got::Panic(m) = &got {
                    return Err(format!("panicked at t={t:?}: {m}; {el:?}"));
                }
                if let Got::Ok(p, x) = &got {
                    let earthly = f < 9 && g < 9;
                    let finite = vals[v].abs() <= 1e6 && vals[w].abs() <= 1e6;
                    if earthly && finite && !p.iter().chain(x).all(|x| x.is_finite()) {
                        return Err(format!("non-finite prediction t={t:?}: {got:?}; {el:?}"));
                    }
                }
            }
            rec.state(Hash::new().u(ix).0);
            Ok(())
        }));
    }
    out
}

// ------------------------------------------------------------------------------------------------ C16

pub fn c16(thorough: bool) -> Vec<Space> {
    let inf = f64::INFINITY;
    let nan = f64::NAN;
    // eccentricities: everything around the two limits, both signs, non-finite values
    let es: Vec<f64> = vec![
        0.0, -0.0, 5e-324, -5e-324, 1e-300, -1e-300, 1e-16, -1e-16, -1e-9, 1e-7, 9.9e-5, 1e-4, 1e-3, 0.01, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 0.999,
        0.9999999, down(1.0), down(down(1.0)), 1.0, up(1.0), 1.0000001, 1.5, 2.0, 10.0, 1e300, -0.001, -0.1, -1.0, -2.0, inf, -inf, nan, -nan,
    ]
    .into_iter()
    .chain((-100..=1100).map(|k| k as f64 / 1000.0))
    .chain((-1074..=1023).flat_map(|p| [2f64.powi(p), -2f64.powi(p), 1.0 - 2f64.powi(p), 1.0 + 2f64.powi(p)]))
    .collect();
    let ns: Vec<f64> = vec![5e-324, 1e-300, 1e-9, 0.001, 0.0044, 0.0087, NEAR_LIMIT, up(NEAR_LIMIT), 0.05, 0.07, 0.1, 1.0, 10.0, 1e300];
    let r = [es.len(), ns.len(), INCLINATIONS.len(), 3];
    let new = {
        let es = es.clone();
        space("initialisation", product(&r), move |ix, rec| {
            let [e, n, i, g] = digits(ix, r);
            let mut el = elems(GEOS[g], INCLINATIONS[i], es[e], ns[n], ANGLES[(e + i) % 12]);
            el.bstar = [0.0, 1e-4, -1e-3, 0.1][(e + n) % 4];
            let valid = el.e >= 0.0 && el.e < 1.0;
            let c = constants(&el)?;
            rec.op(1);
            rec.trace(1);
            rec.state(Hash::new().u(el.e.to_bits()).u(c.is_ok() as u64).0);
            match (valid, &c) {
                (true, Ok(_)) => rec.class("accepted"),
                (false, Err(x)) if x.to_bits() == el.e.to_bits() || (x.is_nan() && el.e.is_nan()) => rec.class("refused"),
                (false, Err(x)) => return Err(format!("refused, but reporting {x:?}: {el:?}")),
                (v, _) => return Err(format!("eccentricity {:?} is {}valid but was {}: {el:?}", el.e, if v { "" } else { "in" }, if v { "refused" } else { "accepted" })),
            }
            rec.sample(|| format!("{el:?} -> accepted={}", c.is_ok()));
            Ok(())
        })
    };
    // Kozai mean motions, of which high values give a negative recovered motion for some inclinations
    let mut kozai: Vec<f64> = vec![0.0, -0.0, -5e-324, 5e-324, -1e-9, -0.05, -1e300, -inf, 1e-12, 1e-5, 0.0005];
    let k = if thorough { 4000 } else { 800 };
    for j in 0..k {
        kozai.push(0.001 + 0.1 * j as f64 / k as f64);
    }
    for j in 0..60 {
        kozai.push(0.1 * 1.2f64.powi(j));
    }
    let kes = {
        let mut v = vec![0.0, 1e-4, 0.05, 0.3, 0.6, 0.8, 0.9, 0.95, 0.99, 0.999, -0.3, 1.5, -2.0, nan];
        v.extend((1..if thorough { 100 } else { 20 }).map(|k| k as f64 / if thorough { 100.0 } else { 20.0 }));
        v
    };
    let incs = {
        let mut v = INCLINATIONS.to_vec();
        v.extend([0.9553166181245093, 0.95, 0.96, 2.18]);
        v.extend((0..=if thorough { 180 } else { 36 }).map(|k| PI * k as f64 / if thorough { 180.0 } else { 36.0 }));
        v
    };
    // elements of any value are passed through
    let odd: Vec<f64> = vec![0.0, -0.0, 1e-300, -1e-9, 0.1, -0.1, 1.0, 3.0, PI, up(PI), 2.0 * PI, up(2.0 * PI), -2.0 * PI, 7.0, 100.0, -100.0, 1e6, -1e15, 1e300];
    let r4 = [4, odd.len(), 4, odd.len(), 3, 3];
    let through = {
        let odd = odd.clone();
        space("passed-through", product(&r4), move |ix, rec| {
            let [f, a, h, b, g, n] = digits(ix, r4);
            let mut w = [1.1, 2.0, 3.0, 4.0];
            w[f] = odd[a];
            w[h] = odd[b];
            let (geo, nk) = (GEOS[g], [0.06, 0.02, 0.0044][n]);
            let got = guard(|| sgp4::Orbit::from_kozai_elements(&geopotential(&geo), w[0], w[1], 0.01, w[2], w[3], nk)).map_err(|p| format!("from_kozai_elements panicked: {p}"))?;
            rec.op(1);
            rec.trace(1);
            rec.class("recovered");
            let Ok(o) = got else {
                return Err(format!("refused: {w:?} n={nk}: {got:?}"));
            };
            rec.state(Hash::new().f(o.inclination).f(o.right_ascension).f(o.argument_of_perigee).f(o.mean_anomaly).f(o.mean_motion).0);
            let same = |x: f64, y: f64| x.to_bits() == y.to_bits();
            if !same(o.inclination, w[0]) || !same(o.right_ascension, w[1]) || !same(o.argument_of_perigee, w[2]) || !same(o.mean_anomaly, w[3]) || !same(o.eccentricity, 0.01) {
                return Err(format!("an element was changed: {w:?} became {o:?}"));
            }
            let want = refm::brouwer(&geo, w[0], 0.01, nk);
            // the cosine of a huge angle still has all its digits
            if !((o.mean_motion - want).abs() <= 1e-12 * want) {
                return Err(format!("Brouwer motion {} instead of {want}: {w:?} n={nk}", o.mean_motion));
            }
            rec.sample(|| format!("{w:?} -> {o:?}"));
            Ok(())
        })
    };
    let r2 = [kozai.len(), kes.len(), incs.len(), 3];
    let recover = space("kozai", product(&r2), move |ix, rec| {
        let [n, e, i, g] = digits(ix, r2);
        let geo = GEOS[g];
        let (node, argp, m) = ANGLES[(n + e) % 12];
        let nk = kozai[n];
        let got = guard(|| sgp4::Orbit::from_kozai_elements(&geopotential(&geo), incs[i], node, kes[e], argp, m, nk))
            .map_err(|p| format!("from_kozai_elements panicked: {p}"))?;
        rec.op(1);
        rec.state(match &got {
            Ok(o) => Hash::new().f(o.mean_motion).0,
            Err(e) => Hash::new().s(format!("{e:?}").as_bytes()).0,
        });
        let want = refm::brouwer(&geo, incs[i], kes[e], nk);
        let ctx = || format!("geo {geo:?} i={:?} e={:?} n={nk:?}: got {got:?}, expected Brouwer motion {want:?}", incs[i], kes[e]);
        match &got {
            Err(sgp4::KozaiElementsError::NegativeKozaiMeanMotion) => {
                rec.class("negative-kozai");
                if nk > 0.0 {
                    return Err(format!("positive mean motion refused: {}", ctx()));
                }
            }
            Err(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion) => {
                rec.class("negative-brouwer");
                // a motion that is not a number is neither zero nor negative
                if nk <= 0.0 || want > 1e-9 * nk || want.is_nan() {
                    return Err(format!("wrong refusal: {}", ctx()));
                }
            }
            Ok(o) => {
                rec.class("recovered");
                rec.trace(1);
                if nk <= 0.0 || want < -1e-9 * nk {
                    return Err(format!("accepted: {}", ctx()));
                }
                let same = |a: f64, b: f64| a.to_bits() == b.to_bits();
                if !same(o.inclination, incs[i]) || !same(o.right_ascension, node) || !same(o.eccentricity, kes[e]) || !same(o.argument_of_perigee, argp) || !same(o.mean_anomaly, m) {
                    return Err(format!("an element was changed: {}", ctx()));
                }
                // conditioning of n / (1 + d): d may come close to -1 or be huge
                let tol = {
                    let mut t = 1e-12 * want.abs();
                    for f in [1.0 + 1e-14, 1.0 - 1e-14] {
                        t += 30.0 * (refm::brouwer(&geo, incs[i], kes[e], nk * f) - want).abs();
                        t += 30.0 * (refm::brouwer(&geo, incs[i] * f, kes[e], nk) - want).abs();
                        t += 30.0 * (refm::brouwer(&geo, incs[i], kes[e] * f, nk) - want).abs();
                    }
                    t
                };
                if !((o.mean_motion - want).abs() <= tol) && !(want.is_nan() && !o.mean_motion.is_finite()) {
                    return Err(format!("wrong Brouwer mean motion (allowed {tol:e}): {}", ctx()));
                }
            }
        }
        rec.sample(ctx);
        Ok(())
    });
    // the smallest motions, which are recovered as exactly zero when the divisor is large
    let r5 = [3, 400, 7];
    let vanishing = space("vanishing", product(&r5), move |ix, rec| {
        let [n, e, i] = digits(ix, r5);
        let nk = 5e-324 * (n + 1) as f64;
        let geo = refm::Geo { ke: nk, ..GEOS[0] };
        let (e, inc) = (0.96 + 0.0001 * e as f64, 0.1 * i as f64);
        // the same divisor with a motion of ordinary size
        let divisor = 1.0 / refm::brouwer(&refm::Geo { ke: 1.0, ..geo }, inc, e, 1.0);
        let got = guard(|| sgp4::Orbit::from_kozai_elements(&geopotential(&geo), inc, 1.0, e, 2.0, 3.0, nk)).map_err(|p| format!("from_kozai_elements panicked: {p}"))?;
        rec.op(1);
        rec.state(ix);
        if divisor < 4.0 * (n + 1) as f64 {
            return Ok(());
        }
        rec.trace(1);
        rec.class("zero-brouwer");
        match got {
            Err(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion) => Ok(()),
            _ => Err(format!("Kozai motion {nk:e} divided by {divisor} is zero, but gives {got:?}; i={inc} e={e}")),
        }
    });
    // through the element set constructors
    let ies: Vec<f64> = es.into_iter().collect();
    let mms = [0.0, -0.0, -1.0, -1e-9, 1e-9, 0.5, 1.0, 2.0, 7.0, 15.5, 16.9, 40.0, 300.0, 1000.0, 5000.0];
    let degs = [0.0, 10.0, 54.0, 90.0, 120.0, 180.0, -30.0, 200.0, 400.0];
    let r3 = [ies.len(), mms.len(), degs.len()];
    let elements = space("element-sets", product(&r3), move |ix, rec| {
        let [e, n, i] = digits(ix, r3);
        let mut x = template();
        x.eccentricity = ies[e];
        x.mean_motion = mms[n];
        x.inclination = degs[i];
        for afspc in [false, true] {
            let geo = if afspc { WGS72 } else { WGS84 };
            let got = guard(|| if afspc { Constants::from_elements_afspc_compatibility_mode(&x) } else { Constants::from_elements(&x) })
                .map_err(|p| format!("panicked: {p}; {x:?}"))?;
            rec.op(1);
            rec.trace(1);
            let nk = x.mean_motion * (PI / 720.0);
            let want = refm::brouwer(&geo, x.inclination * (PI / 180.0), x.eccentricity, nk);
            let valid = x.eccentricity >= 0.0 && x.eccentricity < 1.0;
            let c = match &got {
                Ok(_) => "accepted",
                Err(sgp4::ElementsError::OutOfRangeEpochEccentricity(_)) => "refused-eccentricity",
                Err(sgp4::ElementsError::KozaiElementsError(sgp4::KozaiElementsError::NegativeKozaiMeanMotion)) => "refused-kozai",
                Err(sgp4::ElementsError::KozaiElementsError(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion)) => "refused-brouwer",
            };
            rec.class(c);
            rec.state(Hash::new().s(c.as_bytes()).f(want).f(x.eccentricity).0);
            let tie = want.abs() < 1e-9 * nk.abs();
            let lost = want.is_nan();
            let right = match c {
                "accepted" => valid && nk > 0.0 && (want > 0.0 || tie || lost),
                "refused-kozai" => nk <= 0.0,
                "refused-brouwer" => nk > 0.0 && (want <= 0.0 || tie),
                _ => !valid && nk > 0.0 && (want > 0.0 || tie || lost),
            };
            // when several conditions fail any of them may be reported
            let right = right || (c == "refused-eccentricity" && !valid);
            if !right {
                return Err(format!("{c} with e={:?}, Kozai motion {nk:?}, Brouwer motion {want:?}: {got:?}", x.eccentricity));
            }
            if let Err(sgp4::ElementsError::OutOfRangeEpochEccentricity(v)) = &got {
                if v.0.to_bits() != x.eccentricity.to_bits() && !(v.0.is_nan() && x.eccentricity.is_nan()) {
                    return Err(format!("error carries {:?} instead of {:?}", v.0, x.eccentricity));
                }
            }
            rec.sample(|| format!("e={} n={} i={} afspc={afspc}: {c}", x.eccentricity, x.mean_motion, x.inclination));
        }
        Ok(())
    });
    vec![new, recover, vanishing, through, elements]
}

pub fn template() -> sgp4::Elements {
    sgp4::Elements::from_tle(
        None,
        b"1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927",
        b"2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537",
    )
    .expect("template")
}

// ------------------------------------------------------------------------------------------------ C24

fn bits(el: &sgp4::Elements) -> Vec<u64> {
    [
        el.mean_motion_dot,
        el.mean_motion_ddot,
        el.drag_term,
        el.inclination,
        el.right_ascension,
        el.eccentricity,
        el.argument_of_perigee,
        el.mean_anomaly,
        el.mean_motion,
    ]
    .iter()
    .map(|x| x.to_bits())
    .chain([el.norad_id, el.revolution_number, el.element_set_number, el.ephemeris_type as u64])
    .collect()
}

pub fn c24(thorough: bool) -> Vec<Space> {
    let mut orbits = zoo();
    let pairs = [
        (0.066, 0.001), (0.06, 0.05), (0.0282, 0.3), (0.02, 0.1), (0.011, 0.4), (0.00875, 0.6), (0.00872, 0.72),
        (0.00826, 0.5), (0.00825, 0.5), (0.00924, 0.5), (0.00925, 0.5), (0.00875, 0.4999), (0.0034906585, 0.01),
        (0.0034906584, 0.01), (0.0052359877, 0.2), (0.0052359878, 0.2), (0.004375, 0.001), (0.0045, 0.3), (0.002, 0.5),
        (0.05, 0.15), (NEAR_LIMIT, 0.1), (up(NEAR_LIMIT), 0.1), (0.0043, 0.99), (0.0087, 0.999),
    ];
    for (k, i) in [0.0, 0.1, 0.19, 0.21, 0.8, 1.4, 2.5, PI].iter().enumerate() {
        for (n, e) in pairs {
            for drag in [0.0, 1e-4, 1e-2] {
                let mut el = elems(GEOS[k % 3], *i, e, n, ANGLES[(k * 5) % 12]);
                el.bstar = drag;
                el.epoch = [7.25, -31.0, 42.0][k % 3];
                el.theta = 0.5 * k as f64;
                orbits.push(el);
            }
        }
    }
    // the states handed over come from these, untouched or moved on
    let donors: Vec<Elems> = zoo().into_iter().filter(|el| Model::new(*el).sat.resonant()).collect();
    let moved = [0.0, 1.0, 719.0, 720.0, -720.0, 5000.0, -5000.0];
    let mut times = vec![0.0, -0.0, 1.0, -1.0, 719.0, 720.0, -720.0, 1440.0, 5000.0, -5000.0, 2e5, -2e5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX];
    if thorough {
        times.extend((-60..=60).map(|k| 97.0 * k as f64));
    }
    let r = [orbits.len(), donors.len(), moved.len()];
    let misuse = {
        let (orbits, times, donors) = (orbits.clone(), times.clone(), donors.clone());
        space("misuse", product(&r), move |ix, rec| {
            let [o, d, m] = digits(ix, r);
            let el = orbits[o];
            let c = build(&el)?;
            let donor = build(&donors[d])?;
            rec.op(2);
            let Some(mut given) = donor.initial_state() else {
                return Err(format!("no state for a resonant orbit: {:?}", donors[d]));
            };
            from_state(&donor, moved[m], Some(&mut given), false);
            let resonant = c.initial_state().is_some();
            // what the state is worth, before and after it has been refused
            let on = moved[m] * 3.0;
            let mut s = given;
            let worth = from_state(&donor, on, Some(&mut s), false);
            for &t in &times {
                for afspc in [false, true] {
                    let before = given.t();
                    let g = from_state(&c, t, if resonant { None } else { Some(&mut given) }, afspc);
                    rec.op(1);
                    rec.trace(1);
                    rec.state(Hash::new().u(ix).f(t).u(afspc as u64).0);
                    match &g {
                        Got::Panic(_) => rec.class(if resonant { "missing-refused" } else { "superfluous-refused" }),
                        Got::Ok(..) => {
                            return Err(format!(
                                "a propagation with a {} state gives a prediction at t={t} afspc={afspc}: {g:?}; {el:?}",
                                if resonant { "missing" } else { "superfluous" }
                            ))
                        }
                        e => {
                            rec.class("error-first");
                            let far = resonant && t.is_finite() && t.abs() > 1e6;
                            if !far && !e.same(&propagate(&c, t, afspc)) {
                                return Err(format!("a propagation with a wrong state is not refused at t={t} afspc={afspc}: {g:?}; {el:?}"));
                            }
                        }
                    }
                    if given.t().to_bits() != before.to_bits() {
                        return Err(format!("a refused state moved from {before} to {} at t={t} afspc={afspc}; {el:?}", given.t()));
                    }
                }
            }
            let mut s = given;
            let after = from_state(&donor, on, Some(&mut s), false);
            rec.op(2);
            if !worth.same(&after) {
                return Err(format!("a state refused by another orbit has changed: {worth:?} then {after:?}; {:?}, {el:?}", donors[d]));
            }
            // the refusals leave the constants usable
            for t in [0.0, 100.0, -1500.0] {
                let (a, b) = (propagate(&c, t, false), from_state(&c, t, c.initial_state().as_mut(), false));
                rec.op(2);
                if !a.same(&b) || matches!(a, Got::Panic(_)) {
                    return Err(format!("after a refusal the right kind of state gives {b:?} instead of {a:?} at t={t}; {el:?}"));
                }
            }
            Ok(())
        })
    };
    // copies of states
    let all: Vec<Elems> = orbits.iter().filter(|el| Model::new(**el).sat.resonant()).cloned().collect();
    let stops: Vec<f64> = if thorough {
        vec![0.0, 1.0, 359.0, 719.0, 720.0, 721.0, 1439.0, 1440.0, 2000.0, 5000.0, 7200.0, 20000.0, 60000.0, 1e5]
    } else {
        vec![0.0, 1.0, 719.0, 720.0, 721.0, 1440.0, 2000.0, 5000.0, 20000.0]
    };
    let r = [all.len(), 2, 2, stops.len(), stops.len()];
    let states = {
        let stops = stops.clone();
        space("copied-states", product(&r), move |ix, rec| {
            let [o, sign, mode, j, k] = digits(ix, r);
            let el = all[o];
            let sign = [1.0, -1.0][sign];
            let afspc = mode == 1;
            let (first, then) = (sign * stops[j.min(k)], sign * stops[j.max(k)]);
            let c = build(&el)?;
            let copy = c.clone();
            rec.op(1);
            let mut lone = c.initial_state().ok_or_else(|| format!("no state: {el:?}"))?;
            from_state(&c, first, Some(&mut lone), afspc);
            let straight = from_state(&c, then, Some(&mut lone), afspc);
            let mut original = c.initial_state().ok_or_else(|| format!("no state: {el:?}"))?;
            from_state(&c, first, Some(&mut original), afspc);
            #[allow(clippy::clone_on_copy)]
            let mut cloned = original.clone();
            let mut assigned = original;
            rec.op(5);
            rec.state(Hash::new().u(o as u64).u(mode as u64).f(first).f(then).0);
            if cloned.t().to_bits() != original.t().to_bits() || assigned.t().to_bits() != original.t().to_bits() {
                return Err(format!("copies of a state at {} stand at {} and {}; {el:?}", original.t(), cloned.t(), assigned.t()));
            }
            // the copies far ahead first, the original afterwards
            let a = from_state(&c, then, Some(&mut cloned), afspc);
            from_state(&c, sign * 70000.0, Some(&mut cloned), afspc);
            let b = from_state(&copy, then, Some(&mut assigned), afspc);
            let x = from_state(&c, then, Some(&mut original), afspc);
            rec.op(4);
            for (name, g) in [("a clone of the state", &a), ("a copy of the state with cloned constants", &b), ("the original of copied states", &x)] {
                rec.trace(1);
                rec.class(g.class());
                if !g.same(&straight) {
                    return Err(format!("{name} gives {g:?} at {then} after {first}, not {straight:?}; {el:?}"));
                }
            }
            Ok(())
        })
    };
    // copies of constants, orbits, elements, geopotentials, predictions and errors
    let r = [orbits.len(), stops.len(), 4];
    let values = space("copied-values", product(&r), move |ix, rec| {
        let [o, k, mode] = digits(ix, r);
        let el = orbits[o];
        let afspc = mode % 2 == 1;
        let t = if mode < 2 { stops[k] } else { -stops[k] };
        let c = build(&el)?;
        let copy = c.clone();
        let orb = orbit(&el);
        #[allow(clippy::redundant_clone)]
        let again = orb.clone();
        let geo = geopotential(&el.geo).clone();
        let theta = el.theta;
        let rebuilt = guard(|| Constants::new(geo, |_| theta, el.epoch, el.bstar, again).map_err(|e| e.clone().0))
            .map_err(|p| format!("building from copies panicked: {p}; {el:?}"))?
            .map_err(|e| format!("refused when built from copies: {e}; {el:?}"))?;
        rec.op(3);
        let a = propagate(&c, t, afspc);
        rec.state(Hash::new().u(o as u64).f(t).u(afspc as u64).0);
        for (name, g) in [
            ("cloned constants", propagate(&copy, t, afspc)),
            ("constants built from a cloned orbit and geopotential", propagate(&rebuilt, t, afspc)),
            (
                "a cloned result",
                got(guard(|| {
                    let r = if afspc {
                        c.propagate_afspc_compatibility_mode(sgp4::MinutesSinceEpoch(t))
                    } else {
                        c.propagate(sgp4::MinutesSinceEpoch(t))
                    };
                    #[allow(clippy::redundant_clone)]
                    match &r {
                        Ok(p) => Ok(p.clone()),
                        Err(e) => Err(e.clone()),
                    }
                })),
            ),
        ] {
            rec.op(1);
            rec.trace(1);
            rec.class(g.class());
            if !g.same(&a) {
                return Err(format!("{name} gives {g:?} at t={t} afspc={afspc}, not {a:?}; {el:?}"));
            }
        }
        let mut x = template();
        x.inclination = el.i.to_degrees();
        x.right_ascension = el.node.to_degrees();
        x.eccentricity = el.e;
        x.argument_of_perigee = el.argp.to_degrees();
        x.mean_anomaly = el.m.to_degrees();
        x.mean_motion = el.n * 720.0 / PI;
        x.drag_term = el.bstar;
        x.object_name = Some(format!("object {ix}"));
        let y = x.clone();
        rec.op(1);
        if bits(&x) != bits(&y)
            || x.object_name != y.object_name
            || x.international_designator != y.international_designator
            || x.datetime != y.datetime
            || std::mem::discriminant(&x.classification) != std::mem::discriminant(&y.classification)
        {
            return Err(format!("cloned elements differ: {x:?} {y:?}"));
        }
        Ok(())
    });
    vec![misuse, states, values]
}
