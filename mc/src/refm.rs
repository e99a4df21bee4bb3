//! Reference model of SGP4/SDP4, written in the formulation of the published
//! "Revisiting Spacetrack Report #3" code (initl / dscom / dsinit / dpper / dspace / sgp4),
//! not in the formulation of the crate under test.
//!
//! Every comparison on a computed quantity goes through a `Tape`, which records the decision and how
//! far from the threshold it was. Replaying a tape pins the branches, which is how the numerical
//! sensitivity of a point is measured, and flipping an entry yields the other legal answer
//! when rounding may push an implementation to the other side of a threshold.

pub const TAU: f64 = 2.0 * core::f64::consts::PI;
pub const PI: f64 = core::f64::consts::PI;
const X2O3: f64 = 2.0 / 3.0;

#[derive(Clone, Copy, Debug)]
pub struct Geo {
    pub ae: f64,
    pub ke: f64,
    pub j2: f64,
    pub j3: f64,
    pub j4: f64,
}

pub const WGS72: Geo = Geo {
    ae: 6378.135,
    ke: 0.07436691613317342,
    j2: 0.001082616,
    j3: -0.00000253881,
    j4: -0.00000165597,
};

pub const WGS84: Geo = Geo {
    ae: 6378.137,
    ke: 0.07436685316871385,
    j2: 0.00108262998905,
    j3: -0.00000253215306,
    j4: -0.00000161098761,
};

/// Inputs of an initialisation, as the public API takes them (Brouwer mean motion).
#[derive(Clone, Copy, Debug)]
pub struct Elems {
    pub geo: Geo,
    /// sidereal time at epoch, rad
    pub theta: f64,
    /// years since J2000
    pub epoch: f64,
    pub bstar: f64,
    pub i: f64,
    pub node: f64,
    pub e: f64,
    pub argp: f64,
    pub m: f64,
    pub n: f64,
}

#[derive(Clone, Copy, Debug)]
pub struct Entry {
    pub taken: i64,
    pub alt: i64,
    pub margin: f64,
}

#[derive(Default, Clone, Debug)]
pub struct Tape {
    pub entries: Vec<Entry>,
    pub forced: Vec<i64>,
    pub pos: usize,
    /// the unreduced argument of perigee, node and mean anomaly handed to Kepler's equation
    pub angles: [f64; 3],
}

impl Tape {
    pub fn replay(forced: Vec<i64>) -> Tape {
        Tape { forced, ..Tape::default() }
    }
    fn choose(&mut self, taken: i64, alt: i64, margin: f64) -> i64 {
        let v = if self.pos < self.forced.len() { self.forced[self.pos] } else { taken };
        self.entries.push(Entry { taken: v, alt: if v == taken { alt } else { taken }, margin });
        self.pos += 1;
        v
    }
    /// a < b, with a margin relative to scale
    fn lt(&mut self, a: f64, b: f64, scale: f64) -> bool {
        let c = a < b;
        let margin = if a.is_nan() || b.is_nan() { f64::INFINITY } else { (a - b).abs() / scale };
        self.choose(c as i64, !c as i64, margin) == 1
    }
    /// x reduced into ]-2π, 2π[ with the sign of x, as C's fmod
    fn rem_tau(&mut self, x: f64) -> f64 {
        let q = x / TAU;
        if !q.is_finite() || q.abs() > 1e15 {
            return x % TAU;
        }
        let k = q.trunc();
        let up = (k + 1.0 - q).abs();
        let down = (q - (k - 1.0)).abs();
        let here = (q - k).abs();
        // nearest discontinuity of trunc: non-zero integers
        let (alt, margin) = if k == 0.0 {
            if q >= 0.0 { (1.0, up) } else { (-1.0, down) }
        } else if here < 0.5 {
            (k - k.signum(), here)
        } else {
            (k + k.signum(), 1.0 - here)
        };
        let k = self.choose(k as i64, alt as i64, margin) as f64;
        if k == q.trunc() { x % TAU } else { x - k * TAU }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Near,
    NearSimple,
    Deep,
    Day,
    HalfDay,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Body {
    pub e2: f64,
    pub e3: f64,
    pub i2: f64,
    pub i3: f64,
    pub l2: f64,
    pub l3: f64,
    pub l4: f64,
    pub gh2: f64,
    pub gh3: f64,
    pub gh4: f64,
    pub h2: f64,
    pub h3: f64,
    pub zmo: f64,
    edot: f64,
    idot: f64,
    ldot: f64,
    ghdot: f64,
    hdot: f64,
}

#[derive(Clone, Debug)]
pub struct Sat {
    pub el: Elems,
    pub kind: Kind,
    pub ao: f64,
    con41: f64,
    x1mth2: f64,
    x7thm1: f64,
    pub cc1: f64,
    pub cc4: f64,
    cc5: f64,
    d2: f64,
    d3: f64,
    d4: f64,
    eta: f64,
    delmo: f64,
    sinmao: f64,
    omgcof: f64,
    xmcof: f64,
    t2cof: f64,
    t3cof: f64,
    t4cof: f64,
    t5cof: f64,
    nodecf: f64,
    mdot: f64,
    argpdot: f64,
    nodedot: f64,
    xlcof: f64,
    aycof: f64,
    sun: Body,
    moon: Body,
    dedt: f64,
    didt: f64,
    dmdt: f64,
    domdt: f64,
    dnodt: f64,
    xlamo: f64,
    xfact: f64,
    del: [f64; 3],
    d: [f64; 10],
}

const ZES: f64 = 0.01675;
const ZEL: f64 = 0.05490;
const ZNS: f64 = 1.19459e-5;
const ZNL: f64 = 1.5835218e-4;
const RPTIM: f64 = 4.37526908801129966e-3;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Ok([f64; 3], [f64; 3]),
    Ecc(f64),
    PertEcc(f64),
    SemiLatus,
}

/// un-Kozai the mean motion (initl)
pub fn brouwer(geo: &Geo, i: f64, e: f64, no_kozai: f64) -> f64 {
    let cosio2 = i.cos() * i.cos();
    let omeosq = 1.0 - e * e;
    let rteosq = omeosq.sqrt();
    let ak = (geo.ke / no_kozai).powf(X2O3);
    let d1 = 0.75 * geo.j2 * (3.0 * cosio2 - 1.0) / (rteosq * omeosq);
    let del = d1 / (ak * ak);
    let adel = ak * (1.0 - del * del - del * (1.0 / 3.0 + 134.0 * del * del / 81.0));
    no_kozai / (1.0 + d1 / (adel * adel))
}

/// IAU-82 Greenwich sidereal time (gstime), years since J2000
pub fn gst_iau(epoch: f64) -> f64 {
    let tut1 = epoch / 100.0;
    let secs = 67310.54841
        + tut1 * (876600.0 * 3600.0 + 8640184.812866 + tut1 * (0.093104 + tut1 * -6.2e-6));
    (secs / 240.0 * (PI / 180.0)).rem_euclid(TAU)
}

/// AFSPC sidereal time, years since J2000
pub fn gst_afspc(epoch: f64) -> f64 {
    let ts70 = epoch * 365.25 + 10958.5;
    let ds70 = (ts70 + 1.0e-8).floor();
    let tfrac = ts70 - ds70;
    let c1 = 1.72027916940703639e-2;
    (1.7321343856509374 + c1 * ds70 + (c1 + TAU) * tfrac + ts70 * ts70 * 5.07551419432269442e-15)
        .rem_euclid(TAU)
}

#[allow(clippy::too_many_arguments)]
fn third_body(
    el: &Elems,
    zcosg: f64,
    zsing: f64,
    zcosi: f64,
    zsini: f64,
    zcosh: f64,
    zsinh: f64,
    cc: f64,
    ze: f64,
    zn: f64,
    zmo: f64,
) -> Body {
    let em = el.e;
    let emsq = em * em;
    let betasq = 1.0 - emsq;
    let rtemsq = betasq.sqrt();
    let (sinim, cosim) = el.i.sin_cos();
    let (sinomm, cosomm) = el.argp.sin_cos();
    let a1 = zcosg * zcosh + zsing * zcosi * zsinh;
    let a3 = -zsing * zcosh + zcosg * zcosi * zsinh;
    let a7 = -zcosg * zsinh + zsing * zcosi * zcosh;
    let a8 = zsing * zsini;
    let a9 = zsing * zsinh + zcosg * zcosi * zcosh;
    let a10 = zcosg * zsini;
    let a2 = cosim * a7 + sinim * a8;
    let a4 = cosim * a9 + sinim * a10;
    let a5 = -sinim * a7 + cosim * a8;
    let a6 = -sinim * a9 + cosim * a10;
    let x1 = a1 * cosomm + a2 * sinomm;
    let x2 = a3 * cosomm + a4 * sinomm;
    let x3 = -a1 * sinomm + a2 * cosomm;
    let x4 = -a3 * sinomm + a4 * cosomm;
    let x5 = a5 * sinomm;
    let x6 = a6 * sinomm;
    let x7 = a5 * cosomm;
    let x8 = a6 * cosomm;
    let z31 = 12.0 * x1 * x1 - 3.0 * x3 * x3;
    let z32 = 24.0 * x1 * x2 - 6.0 * x3 * x4;
    let z33 = 12.0 * x2 * x2 - 3.0 * x4 * x4;
    let z1 = 3.0 * (a1 * a1 + a2 * a2) + z31 * emsq;
    let z2 = 6.0 * (a1 * a3 + a2 * a4) + z32 * emsq;
    let z3 = 3.0 * (a3 * a3 + a4 * a4) + z33 * emsq;
    let z11 = -6.0 * a1 * a5 + emsq * (-24.0 * x1 * x7 - 6.0 * x3 * x5);
    let z12 =
        -6.0 * (a1 * a6 + a3 * a5) + emsq * (-24.0 * (x2 * x7 + x1 * x8) - 6.0 * (x3 * x6 + x4 * x5));
    let z13 = -6.0 * a3 * a6 + emsq * (-24.0 * x2 * x8 - 6.0 * x4 * x6);
    let z21 = 6.0 * a2 * a5 + emsq * (24.0 * x1 * x5 - 6.0 * x3 * x7);
    let z22 =
        6.0 * (a4 * a5 + a2 * a6) + emsq * (24.0 * (x2 * x5 + x1 * x6) - 6.0 * (x4 * x7 + x3 * x8));
    let z23 = 6.0 * a4 * a6 + emsq * (24.0 * x2 * x6 - 6.0 * x4 * x8);
    let z1 = z1 + z1 + betasq * z31;
    let z2 = z2 + z2 + betasq * z32;
    let z3 = z3 + z3 + betasq * z33;
    let s3 = cc / el.n;
    let s2 = -0.5 * s3 / rtemsq;
    let s4 = s3 * rtemsq;
    let s1 = -15.0 * em * s4;
    let s5 = x1 * x3 + x2 * x4;
    let s6 = x2 * x3 + x1 * x4;
    let s7 = x2 * x4 - x1 * x3;
    // direct input threshold, not a computed one
    let hdot = if el.i < 5.2359877e-2 || el.i > PI - 5.2359877e-2 {
        0.0
    } else {
        -zn * s2 * (z21 + z23) / sinim
    };
    Body {
        e2: 2.0 * s1 * s6,
        e3: 2.0 * s1 * s7,
        i2: 2.0 * s2 * z12,
        i3: 2.0 * s2 * (z13 - z11),
        l2: -2.0 * s3 * z2,
        l3: -2.0 * s3 * (z3 - z1),
        l4: -2.0 * s3 * (-21.0 - 9.0 * emsq) * ze,
        gh2: 2.0 * s4 * z32,
        gh3: 2.0 * s4 * (z33 - z31),
        gh4: -18.0 * s4 * ze,
        h2: -2.0 * s2 * z22,
        h3: -2.0 * s2 * (z23 - z21),
        zmo,
        edot: s1 * zn * s5,
        idot: s2 * zn * (z11 + z13),
        ldot: -zn * s3 * (z1 + z3 - 14.0 - 6.0 * emsq),
        ghdot: s4 * zn * (z31 + z33 - 6.0),
        hdot,
    }
}

impl Body {
    /// (pe, pinc, pl, pgh, ph)
    fn periodics(&self, ze: f64, zn: f64, t: f64) -> (f64, f64, f64, f64, f64) {
        let zm = self.zmo + zn * t;
        let zf = zm + 2.0 * ze * zm.sin();
        let sinzf = zf.sin();
        let f2 = 0.5 * sinzf * sinzf - 0.25;
        let f3 = -0.5 * sinzf * zf.cos();
        (
            self.e2 * f2 + self.e3 * f3,
            self.i2 * f2 + self.i3 * f3,
            self.l2 * f2 + self.l3 * f3 + self.l4 * sinzf,
            self.gh2 * f2 + self.gh3 * f3 + self.gh4 * sinzf,
            self.h2 * f2 + self.h3 * f3,
        )
    }
}

impl Sat {
    /// sgp4init; the caller guarantees 0 <= e < 1
    pub fn new(el: Elems, tape: &mut Tape) -> Sat {
        let g = el.geo;
        let (eo, no) = (el.e, el.n);
        let cosio = el.i.cos();
        let sinio = el.i.sin();
        let cosio2 = cosio * cosio;
        let eccsq = eo * eo;
        let omeosq = 1.0 - eccsq;
        let rteosq = omeosq.sqrt();
        let ao = (g.ke / no).powf(X2O3);
        let con42 = 1.0 - 5.0 * cosio2;
        let con41 = -con42 - cosio2 - cosio2;
        let po = ao * omeosq;
        let posq = po * po;
        let rp = ao * (1.0 - eo);
        let perige = (rp - 1.0) * g.ae;
        // both thresholds are continuous in perige
        let sfour_km = if perige < 156.0 { if perige < 98.0 { 20.0 } else { perige - 78.0 } } else { 78.0 };
        let qzms24 = ((120.0 - sfour_km) / g.ae).powi(4);
        let sfour = sfour_km / g.ae + 1.0;
        let pinvsq = 1.0 / posq;
        let tsi = 1.0 / (ao - sfour);
        let eta = ao * eo * tsi;
        let etasq = eta * eta;
        let eeta = eo * eta;
        let psisq = (1.0 - etasq).abs();
        let coef = qzms24 * tsi.powi(4);
        let coef1 = coef / psisq.powf(3.5);
        let cc2 = coef1
            * no
            * (ao * (1.0 + 1.5 * etasq + eeta * (4.0 + etasq))
                + 0.375 * g.j2 * tsi / psisq * con41 * (8.0 + 3.0 * etasq * (8.0 + etasq)));
        let cc1 = el.bstar * cc2;
        let x1mth2 = 1.0 - cosio2;
        let cc4 = el.bstar
            * 2.0
            * no
            * coef1
            * ao
            * omeosq
            * (eta * (2.0 + 0.5 * etasq) + eo * (0.5 + 2.0 * etasq)
                - g.j2 * tsi / (ao * psisq)
                    * (-3.0 * con41 * (1.0 - 2.0 * eeta + etasq * (1.5 - 0.5 * eeta))
                        + 0.75 * x1mth2 * (2.0 * etasq - eeta * (1.0 + etasq)) * (2.0 * el.argp).cos()));
        let cosio4 = cosio2 * cosio2;
        let temp1 = 1.5 * g.j2 * pinvsq * no;
        let temp2 = 0.5 * temp1 * g.j2 * pinvsq;
        let temp3 = -0.46875 * g.j4 * pinvsq * pinvsq * no;
        let mdot = no
            + 0.5 * temp1 * rteosq * con41
            + 0.0625 * temp2 * rteosq * (13.0 - 78.0 * cosio2 + 137.0 * cosio4);
        let argpdot = -0.5 * temp1 * con42
            + 0.0625 * temp2 * (7.0 - 114.0 * cosio2 + 395.0 * cosio4)
            + temp3 * (3.0 - 36.0 * cosio2 + 49.0 * cosio4);
        let xhdot1 = -temp1 * cosio;
        let nodedot = xhdot1
            + (0.5 * temp2 * (4.0 - 19.0 * cosio2) + 2.0 * temp3 * (3.0 - 7.0 * cosio2)) * cosio;
        let nodecf = 3.5 * omeosq * xhdot1 * cc1;
        let t2cof = 1.5 * cc1;
        let j3oj2 = g.j3 / g.j2;
        let big = !tape.lt((cosio + 1.0).abs(), 1.5e-12, 1e-3);
        let xlcof = if big && (cosio + 1.0).abs() > 1.5e-12 {
            -0.25 * j3oj2 * sinio * (3.0 + 5.0 * cosio) / (1.0 + cosio)
        } else {
            -0.25 * j3oj2 * sinio * (3.0 + 5.0 * cosio) / 1.5e-12
        };
        let aycof = -0.5 * j3oj2 * sinio;
        let mut sat = Sat {
            el,
            kind: Kind::NearSimple,
            ao,
            con41,
            x1mth2,
            x7thm1: 7.0 * cosio2 - 1.0,
            cc1,
            cc4,
            cc5: 0.0,
            d2: 0.0,
            d3: 0.0,
            d4: 0.0,
            eta,
            delmo: 0.0,
            sinmao: el.m.sin(),
            omgcof: 0.0,
            xmcof: 0.0,
            t2cof,
            t3cof: 0.0,
            t4cof: 0.0,
            t5cof: 0.0,
            nodecf,
            mdot,
            argpdot,
            nodedot,
            xlcof,
            aycof,
            sun: Body::default(),
            moon: Body::default(),
            dedt: 0.0,
            didt: 0.0,
            dmdt: 0.0,
            domdt: 0.0,
            dnodt: 0.0,
            xlamo: 0.0,
            xfact: 0.0,
            del: [0.0; 3],
            d: [0.0; 10],
        };
        // period: direct input threshold
        if no > TAU / 225.0 {
            if !tape.lt(rp, 220.0 / g.ae + 1.0, 1.0) {
                sat.kind = Kind::Near;
                let cc1sq = cc1 * cc1;
                sat.d2 = 4.0 * ao * tsi * cc1sq;
                let temp = sat.d2 * tsi * cc1 / 3.0;
                sat.d3 = (17.0 * ao + sfour) * temp;
                sat.d4 = 0.5 * temp * ao * tsi * (221.0 * ao + 31.0 * sfour) * cc1;
                sat.t3cof = sat.d2 + 2.0 * cc1sq;
                sat.t4cof = 0.25 * (3.0 * sat.d3 + cc1 * (12.0 * sat.d2 + 10.0 * cc1sq));
                sat.t5cof = 0.2
                    * (3.0 * sat.d4
                        + 12.0 * cc1 * sat.d3
                        + 6.0 * sat.d2 * sat.d2
                        + 15.0 * cc1sq * (2.0 * sat.d2 + cc1sq));
                sat.cc5 = el.bstar * 2.0 * coef1 * ao * omeosq * (1.0 + 2.75 * (etasq + eeta) + eeta * etasq);
                sat.delmo = (1.0 + eta * el.m.cos()).powi(3);
                if eo > 1.0e-4 {
                    let cc3 = -2.0 * coef * tsi * j3oj2 * no * sinio / eo;
                    sat.omgcof = el.bstar * cc3 * el.argp.cos();
                    sat.xmcof = -X2O3 * coef * el.bstar / eeta;
                }
            }
            return sat;
        }
        sat.kind = Kind::Deep;
        let day = el.epoch * 365.25 + 36525.0;
        let (snodm, cnodm) = el.node.sin_cos();
        let xnodce = (4.5236020 - 9.2422029e-4 * day) % TAU;
        let (stem, ctem) = xnodce.sin_cos();
        let zcosil = 0.91375164 - 0.03568096 * ctem;
        let zsinil = (1.0 - zcosil * zcosil).sqrt();
        let zsinhl = 0.089683511 * stem / zsinil;
        let zcoshl = (1.0 - zsinhl * zsinhl).sqrt();
        let gam = 5.8351514 + 0.0019443680 * day;
        let zx = (0.39785416 * stem / zsinil).atan2(zcoshl * ctem + 0.91744867 * zsinhl * stem);
        let zx = gam + zx - xnodce;
        sat.sun = third_body(
            &el,
            0.1945905,
            -0.98088458,
            0.91744867,
            0.39785416,
            cnodm,
            snodm,
            2.9864797e-6,
            ZES,
            ZNS,
            (6.2565837 + 0.017201977 * day) % TAU,
        );
        sat.moon = third_body(
            &el,
            zx.cos(),
            zx.sin(),
            zcosil,
            zsinil,
            zcoshl * cnodm + zsinhl * snodm,
            snodm * zcoshl - cnodm * zsinhl,
            4.7968065e-7,
            ZEL,
            ZNL,
            (4.7199672 + 0.22997150 * day - gam) % TAU,
        );
        let (s, l) = (sat.sun, sat.moon);
        sat.dedt = s.edot + l.edot;
        sat.didt = s.idot + l.idot;
        sat.dmdt = s.ldot + l.ldot;
        sat.domdt = s.ghdot + l.ghdot - cosio * (s.hdot + l.hdot);
        sat.dnodt = s.hdot + l.hdot;
        let aonv = (no / g.ke).powf(X2O3);
        let theta = el.theta;
        let em = eo;
        let emsq = eccsq;
        if no < 0.0052359877 && no > 0.0034906585 {
            sat.kind = Kind::Day;
            let g200 = 1.0 + emsq * (-2.5 + 0.8125 * emsq);
            let g310 = 1.0 + 2.0 * emsq;
            let g300 = 1.0 + emsq * (-6.0 + 6.60937 * emsq);
            let f220 = 0.75 * (1.0 + cosio) * (1.0 + cosio);
            let f311 = 0.9375 * sinio * sinio * (1.0 + 3.0 * cosio) - 0.75 * (1.0 + cosio);
            let f330 = 1.875 * (1.0 + cosio).powi(3);
            let del1 = 3.0 * no * no * aonv * aonv;
            sat.del = [
                del1 * f311 * g310 * 2.1460748e-6 * aonv,
                2.0 * del1 * f220 * g200 * 1.7891679e-6,
                3.0 * del1 * f330 * g300 * 2.2123015e-7 * aonv,
            ];
            sat.xlamo = (el.m + el.node + el.argp - theta) % TAU;
            sat.xfact =
                mdot + argpdot + nodedot - RPTIM + sat.dmdt + sat.domdt + sat.dnodt - no;
        } else if no >= 8.26e-3 && no <= 9.24e-3 && em >= 0.5 {
            sat.kind = Kind::HalfDay;
            let eoc = em * emsq;
            let p = |c: [f64; 4]| c[0] + c[1] * em + c[2] * emsq + c[3] * eoc;
            let g201 = -0.306 - (em - 0.64) * 0.440;
            let (g211, g310, g322, g410, g422, g520);
            if em <= 0.65 {
                g211 = p([3.616, -13.2470, 16.2900, 0.0]);
                g310 = p([-19.302, 117.3900, -228.4190, 156.5910]);
                g322 = p([-18.9068, 109.7927, -214.6334, 146.5816]);
                g410 = p([-41.122, 242.6940, -471.0940, 313.9530]);
                g422 = p([-146.407, 841.8800, -1629.014, 1083.4350]);
                g520 = p([-532.114, 3017.977, -5740.032, 3708.2760]);
            } else {
                g211 = p([-72.099, 331.819, -508.738, 266.724]);
                g310 = p([-346.844, 1582.851, -2415.925, 1246.113]);
                g322 = p([-342.585, 1554.908, -2366.899, 1215.972]);
                g410 = p([-1052.797, 4758.686, -7193.992, 3651.957]);
                g422 = p([-3581.690, 16178.110, -24462.770, 12422.520]);
                g520 = if em > 0.715 {
                    p([-5149.66, 29936.92, -54087.36, 31324.56])
                } else {
                    p([1464.74, -4664.75, 3763.64, 0.0])
                };
            }
            let (g533, g521, g532);
            if em < 0.7 {
                g533 = p([-919.22770, 4988.6100, -9064.7700, 5542.21]);
                g521 = p([-822.71072, 4568.6173, -8491.4146, 5337.524]);
                g532 = p([-853.66600, 4690.2500, -8624.7700, 5341.4]);
            } else {
                g533 = p([-37995.780, 161616.52, -229838.20, 109377.94]);
                g521 = p([-51752.104, 218913.95, -309468.16, 146349.42]);
                g532 = p([-40023.880, 170470.89, -242699.48, 115605.82]);
            }
            let sini2 = sinio * sinio;
            let f220 = 0.75 * (1.0 + 2.0 * cosio + cosio2);
            let f221 = 1.5 * sini2;
            let f321 = 1.875 * sinio * (1.0 - 2.0 * cosio - 3.0 * cosio2);
            let f322 = -1.875 * sinio * (1.0 + 2.0 * cosio - 3.0 * cosio2);
            let f441 = 35.0 * sini2 * f220;
            let f442 = 39.3750 * sini2 * sini2;
            let f522 = 9.84375
                * sinio
                * (sini2 * (1.0 - 2.0 * cosio - 5.0 * cosio2)
                    + 0.33333333 * (-2.0 + 4.0 * cosio + 6.0 * cosio2));
            let f523 = sinio
                * (4.92187512 * sini2 * (-2.0 - 4.0 * cosio + 10.0 * cosio2)
                    + 6.56250012 * (1.0 + 2.0 * cosio - 3.0 * cosio2));
            let f542 = 29.53125
                * sinio
                * (2.0 - 8.0 * cosio + cosio2 * (-12.0 + 8.0 * cosio + 10.0 * cosio2));
            let f543 = 29.53125
                * sinio
                * (-2.0 - 8.0 * cosio + cosio2 * (12.0 + 8.0 * cosio - 10.0 * cosio2));
            let t22 = 3.0 * no * no * aonv * aonv;
            let t32 = t22 * aonv;
            let t44 = t32 * aonv;
            let t52 = t44 * aonv;
            let (r22, r32, r44, r52, r54) =
                (1.7891679e-6, 3.7393792e-7, 7.3636953e-9, 1.1428639e-7, 2.1765803e-9);
            sat.d = [
                t22 * r22 * f220 * g201,
                t22 * r22 * f221 * g211,
                t32 * r32 * f321 * g310,
                t32 * r32 * f322 * g322,
                2.0 * t44 * r44 * f441 * g410,
                2.0 * t44 * r44 * f442 * g422,
                t52 * r52 * f522 * g520,
                t52 * r52 * f523 * g532,
                2.0 * t52 * r54 * f542 * g521,
                2.0 * t52 * r54 * f543 * g533,
            ];
            sat.xlamo = (el.m + el.node + el.node - theta - theta) % TAU;
            sat.xfact = mdot + sat.dmdt + 2.0 * (nodedot + sat.dnodt - RPTIM) - no;
        }
        sat
    }

    fn rates(&self, atime: f64, xli: f64, xni: f64) -> (f64, f64, f64) {
        let xldot = xni + self.xfact;
        if self.kind == Kind::Day {
            let [d1, d2, d3] = self.del;
            let (a, b, c) = (xli - 0.13130908, 2.0 * (xli - 2.8843198), 3.0 * (xli - 0.37448087));
            (
                d1 * a.sin() + d2 * b.sin() + d3 * c.sin(),
                xldot,
                xldot * (d1 * a.cos() + 2.0 * d2 * b.cos() + 3.0 * d3 * c.cos()),
            )
        } else {
            let w = self.el.argp + self.argpdot * atime;
            let (g22, g32, g44, g52, g54) = (5.7686396, 0.95240898, 1.8014998, 1.0508330, 4.4108898);
            // (multiple of w, multiple of lambda, phase)
            let terms = [
                (2.0, 1.0, g22),
                (0.0, 1.0, g22),
                (1.0, 1.0, g32),
                (-1.0, 1.0, g32),
                (2.0, 2.0, g44),
                (0.0, 2.0, g44),
                (1.0, 1.0, g52),
                (-1.0, 1.0, g52),
                (1.0, 2.0, g54),
                (-1.0, 2.0, g54),
            ];
            let (mut xndt, mut xnddt) = (0.0, 0.0);
            for (d, (kw, kl, g)) in self.d.iter().zip(terms) {
                let (s, c) = (kw * w + kl * xli - g).sin_cos();
                xndt += d * s;
                xnddt += kl * d * c;
            }
            (xndt, xldot, xnddt * xldot)
        }
    }

    pub fn resonant(&self) -> bool {
        matches!(self.kind, Kind::Day | Kind::HalfDay)
    }

    /// sgp4: the prediction at t minutes
    pub fn at(&self, t: f64, afspc: bool, tape: &mut Tape) -> Out {
        let el = &self.el;
        let g = &el.geo;
        let t2 = t * t;
        let xmdf = el.m + self.mdot * t;
        let argpdf = el.argp + self.argpdot * t;
        let nodedf = el.node + self.nodedot * t;
        let mut argpm = argpdf;
        let mut mm = xmdf;
        let mut nodem = nodedf + self.nodecf * t2;
        let mut tempa = 1.0 - self.cc1 * t;
        let mut tempe = self.cc4 * t;
        let mut templ = self.t2cof * t2;
        if self.kind == Kind::Near {
            let t3 = t2 * t;
            let t4 = t3 * t;
            let delomg = self.omgcof * t;
            let delm = self.xmcof * ((1.0 + self.eta * xmdf.cos()).powi(3) - self.delmo);
            mm = xmdf + (delomg + delm);
            argpm = argpdf - (delomg + delm);
            tempa = tempa - self.d2 * t2 - self.d3 * t3 - self.d4 * t4;
            tempe += self.cc5 * (mm.sin() - self.sinmao);
            templ += self.t3cof * t3 + t4 * (self.t4cof + t * self.t5cof);
        }
        let mut nm = el.n;
        let mut em = el.e;
        let mut inclm = el.i;
        let deep = matches!(self.kind, Kind::Deep | Kind::Day | Kind::HalfDay);
        if deep {
            em += self.dedt * t;
            inclm += self.didt * t;
            argpm += self.domdt * t;
            nodem += self.dnodt * t;
            mm += self.dmdt * t;
            if self.resonant() {
                let theta = (el.theta + t * RPTIM) % TAU;
                let delt = if t > 0.0 { 720.0 } else { -720.0 };
                let (mut atime, mut xli, mut xni) = (0.0, self.xlamo, el.n);
                loop {
                    let (xndt, xldot, xnddt) = self.rates(atime, xli, xni);
                    let ft = t - atime;
                    if !(ft.abs() >= 720.0) {
                        nm = xni + xndt * ft + xnddt * ft * ft * 0.5;
                        let xl = xli + xldot * ft + xndt * ft * ft * 0.5;
                        mm = if self.kind == Kind::Day {
                            xl - nodem - argpm + theta
                        } else {
                            xl - 2.0 * nodem + 2.0 * theta
                        };
                        break;
                    }
                    xli += xldot * delt + xndt * 259200.0;
                    xni += xndt * delt + xnddt * 259200.0;
                    atime += delt;
                }
            }
        }
        let am = (g.ke / nm).powf(X2O3) * tempa * tempa;
        let nm = g.ke / am.powf(1.5);
        em -= tempe;
        // both are range checks on a computed value; NaN is outside
        let below_one = tape.lt(em, 1.0, 1.0);
        let too_low = tape.lt(em, -0.001, 1.0);
        if !below_one || too_low {
            return Out::Ecc(em);
        }
        let mut ep = if em < 1.0e-6 { 1.0e-6 } else { em };
        mm += el.n * templ;
        let mut inclp = inclm;
        let mut nodep = nodem;
        let mut argpp = argpm;
        let mut mp = mm;
        let (mut con41, mut x1mth2, mut x7thm1, mut aycof, mut xlcof) =
            (self.con41, self.x1mth2, self.x7thm1, self.aycof, self.xlcof);
        if deep {
            let (ses, sis, sls, sghs, shs) = self.sun.periodics(ZES, ZNS, t);
            let (sel, sil, sll, sghl, shl) = self.moon.periodics(ZEL, ZNL, t);
            let (pe, pinc, pl, pgh, ph) = (ses + sel, sis + sil, sls + sll, sghs + sghl, shs + shl);
            inclp += pinc;
            ep += pe;
            let (sinip, cosip) = inclp.sin_cos();
            if !tape.lt(inclp, 0.2, 1.0) {
                argpp += pgh - cosip * (ph / sinip);
                nodep += ph / sinip;
                mp += pl;
            } else {
                let (sinop, cosop) = nodep.sin_cos();
                let alfdp = sinip * sinop + (ph * cosop + pinc * cosip * sinop);
                let betdp = sinip * cosop + (-ph * sinop + pinc * cosip * cosop);
                let mut xnoh = tape.rem_tau(nodep);
                if afspc {
                    let neg = tape.lt(xnoh, 0.0, 1.0);
                    if neg {
                        xnoh += TAU;
                    }
                }
                let mut node = alfdp.atan2(betdp);
                // choose the turn of node which lies within half a turn of xnoh
                let turns = (xnoh - node) / TAU;
                let k = turns.round();
                let margin = 0.5 - (turns - k).abs();
                let alt = if turns >= k { k + 1.0 } else { k - 1.0 };
                let k = if k.is_finite() { tape.choose(k as i64, alt as i64, margin) as f64 } else { k };
                node += k * TAU;
                argpp = argpp + pgh + cosip * (xnoh - node) - pinc * xnoh * sinip;
                mp += pl;
                nodep = node;
            }
            let neg = tape.lt(ep, 0.0, 1.0);
            let big = tape.lt(1.0, ep, 1.0);
            if neg || big || ep.is_nan() {
                return Out::PertEcc(ep);
            }
            let cosisq = cosip * cosip;
            con41 = 3.0 * cosisq - 1.0;
            x1mth2 = 1.0 - cosisq;
            x7thm1 = 7.0 * cosisq - 1.0;
            let j3oj2 = g.j3 / g.j2;
            aycof = -0.5 * j3oj2 * sinip;
            let big = !tape.lt((cosip + 1.0).abs(), 1.5e-12, 1e-3);
            xlcof = if big && (cosip + 1.0).abs() > 1.5e-12 {
                -0.25 * j3oj2 * sinip * (3.0 + 5.0 * cosip) / (1.0 + cosip)
            } else {
                -0.25 * j3oj2 * sinip * (3.0 + 5.0 * cosip) / 1.5e-12
            };
        }
        tape.angles = [argpp, nodep, mp];
        let axnl = ep * argpp.cos();
        let temp = 1.0 / (am * (1.0 - ep * ep));
        let aynl = ep * argpp.sin() + temp * aycof;
        let u = (mp + argpp + temp * xlcof * axnl) % TAU;
        let mut eo1 = u;
        for _ in 0..10 {
            let (s, c) = eo1.sin_cos();
            let mut tem5 = (u - aynl * c + axnl * s - eo1) / (1.0 - c * axnl - s * aynl);
            if tem5.abs() < 1.0e-12 {
                break;
            }
            tem5 = tem5.clamp(-0.95, 0.95);
            eo1 += tem5;
        }
        let (sineo1, coseo1) = eo1.sin_cos();
        let ecose = axnl * coseo1 + aynl * sineo1;
        let esine = axnl * sineo1 - aynl * coseo1;
        let el2 = axnl * axnl + aynl * aynl;
        let pl = am * (1.0 - el2);
        if tape.lt(1.0 - el2, 0.0, 1.0) {
            return Out::SemiLatus;
        }
        let rl = am * (1.0 - ecose);
        let rdotl = am.sqrt() * esine / rl;
        let rvdotl = pl.sqrt() / rl;
        let betal = (1.0 - el2).sqrt();
        let temp = esine / (1.0 + betal);
        let sinu = am / rl * (sineo1 - aynl - axnl * temp);
        let cosu = am / rl * (coseo1 - axnl + aynl * temp);
        let mut su = sinu.atan2(cosu);
        let sin2u = (cosu + cosu) * sinu;
        let cos2u = 1.0 - 2.0 * sinu * sinu;
        let temp = 1.0 / pl;
        let temp1 = 0.5 * g.j2 * temp;
        let temp2 = temp1 * temp;
        let (sinip, cosip) = inclp.sin_cos();
        let mrt = rl * (1.0 - 1.5 * temp2 * betal * con41) + 0.5 * temp1 * x1mth2 * cos2u;
        su -= 0.25 * temp2 * x7thm1 * sin2u;
        let xnode = nodep + 1.5 * temp2 * cosip * sin2u;
        let xinc = inclp + 1.5 * temp2 * cosip * sinip * cos2u;
        let mvt = rdotl - nm * temp1 * x1mth2 * sin2u / g.ke;
        let rvdot = rvdotl + nm * temp1 * (x1mth2 * cos2u + 1.5 * con41) / g.ke;
        let (sinsu, cossu) = su.sin_cos();
        let (snod, cnod) = xnode.sin_cos();
        let (sini, cosi) = xinc.sin_cos();
        let (xmx, xmy) = (-snod * cosi, cnod * cosi);
        let ux = xmx * sinsu + cnod * cossu;
        let uy = xmy * sinsu + snod * cossu;
        let uz = sini * sinsu;
        let vx = xmx * cossu - cnod * sinsu;
        let vy = xmy * cossu - snod * sinsu;
        let vz = sini * cossu;
        let vk = g.ae * g.ke / 60.0;
        Out::Ok(
            [mrt * ux * g.ae, mrt * uy * g.ae, mrt * uz * g.ae],
            [(mvt * ux + rvdot * vx) * vk, (mvt * uy + rvdot * vy) * vk, (mvt * uz + rvdot * vz) * vk],
        )
    }
}
