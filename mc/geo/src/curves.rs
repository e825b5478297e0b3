//! Segments, circles and arcs: reference geometry, and the properties C02, C05, C06, C07.
use crate::common::*;
use crate::work;
use mccore::Stop;
use rcgal::algorithm::intersection::segment_2_segment_2::*;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use std::f64::consts::PI;

pub type F2 = (f64, f64);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Curve {
    Seg(F2, F2),
    Circle(F2, f64),
    /// counter-clockwise from the first angle to the second (radians)
    Arc(F2, f64, f64, f64),
}
use Curve::*;

/// A similarity of the plane (turn, scale, shift), applied to a whole scene.
#[derive(Clone, Copy, Debug)]
pub struct Sim {
    pub name: &'static str,
    pub scale: f64,
    pub rot: f64,
    pub t: F2,
}
pub const SIM_ID: Sim = Sim { name: "id", scale: 1.0, rot: 0.0, t: (0.0, 0.0) };
pub const SIM_SHIFT: Sim = Sim { name: "shift(-7.25,3.5)", scale: 1.0, rot: 0.0, t: (-7.25, 3.5) };
pub const SIM_TENTH: Sim = Sim { name: "scale0.1-shift(0.3,-0.7)", scale: 0.1, rot: 0.0, t: (0.3, -0.7) };
pub const SIM_BIG: Sim = Sim { name: "scale7-shift(11.3,-20.9)", scale: 7.0, rot: 0.0, t: (11.3, -20.9) };
pub const SIM_QUARTER: Sim = Sim { name: "quarter-turn", scale: 1.0, rot: PI / 2.0, t: (0.0, 0.0) };
pub const SIM_HALF: Sim = Sim { name: "half-turn-shift(1,2)", scale: 1.0, rot: PI, t: (1.0, 2.0) };
pub const SIM_IRR: Sim = Sim { name: "rot0.5rad-scale1.3-shift(0.7,-0.3)", scale: 1.3, rot: 0.5, t: (0.7, -0.3) };
pub const SIM_IRR2: Sim = Sim { name: "rot4rad-scale0.37-shift(-2.1,5.3)", scale: 0.37, rot: 4.0, t: (-2.1, 5.3) };
pub const SIM_KILO: Sim = Sim { name: "scale1000-shift(700,-300)", scale: 1000.0, rot: 0.0, t: (700.0, -300.0) };
pub const SIM_AWAY: Sim = Sim { name: "shift(-10000,20000)", scale: 1.0, rot: 0.0, t: (-10000.0, 20000.0) };
pub const SIM_TURNED: Sim = Sim { name: "rot1rad-scale300-shift(123,-45)", scale: 300.0, rot: 1.0, t: (123.0, -45.0) };
pub const SIM_SMALL: Sim = Sim { name: "scale2^-8", scale: 1.0 / 256.0, rot: 0.0, t: (0.0, 0.0) };

/// turned by less than the tolerance
pub const SIM_LEAN: Sim = Sim { name: "turned by 6e-13-scale3-shift(1.7,-0.9)", scale: 3.0, rot: 6e-13, t: (1.7, -0.9) };
pub const SIM_LEAN_BACK: Sim = Sim { name: "turned by a quarter and -4e-13", scale: 1.0, rot: PI / 2.0 - 4e-13, t: (0.0, 0.0) };

impl Sim {
    pub fn p(&self, p: F2) -> F2 {
        let (c, s) = if self.rot == 0.0 {
            (1.0, 0.0)
        } else if self.rot == PI / 2.0 {
            (0.0, 1.0)
        } else if self.rot == PI {
            (-1.0, 0.0)
        } else {
            (self.rot.cos(), self.rot.sin())
        };
        (self.scale * (c * p.0 - s * p.1) + self.t.0, self.scale * (s * p.0 + c * p.1) + self.t.1)
    }
    pub fn curve(&self, c: Curve) -> Curve {
        match c {
            Seg(a, b) => Seg(self.p(a), self.p(b)),
            Circle(m, r) => Circle(self.p(m), r * self.scale),
            Arc(m, r, a, b) => {
                let mut a2 = a + self.rot;
                let mut b2 = b + self.rot;
                while self.rot != 0.0 && a2 >= 2.0 * PI - 1e-12 {
                    a2 -= 2.0 * PI;
                    b2 -= 2.0 * PI;
                }
                Arc(self.p(m), r * self.scale, a2.max(0.0), b2)
            }
        }
    }
}

// ---------------------------------------------------------------------------------------
// reference

/// Outcome "too close to call": the scene is skipped and counted.
pub struct Ambiguous;
type A<T> = Result<T, Ambiguous>;

const LO: f64 = 1e-8;
const HI: f64 = 1e-5;
thread_local! {
    /// what counts as zero, and what as clearly not zero
    static BOUNDS: std::cell::Cell<(f64, f64)> = const { std::cell::Cell::new((LO, HI)) };
}
/// For scenes with features a few thousand tolerances apart.
fn closely<X>(lo: f64, f: impl FnOnce() -> X) -> X {
    within(lo, 5e-9, f)
}
fn within<X>(lo: f64, hi: f64, f: impl FnOnce() -> X) -> X {
    BOUNDS.with(|b| b.set((lo, hi)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    BOUNDS.with(|b| b.set((LO, HI)));
    r.unwrap_or_else(|e| std::panic::resume_unwind(e))
}

/// sign of a quantity that the scene makes either zero or clearly non-zero
fn sgn(x: f64) -> A<i32> {
    let (lo, hi) = BOUNDS.with(|b| b.get());
    if x.abs() < lo {
        Ok(0)
    } else if x.abs() < hi {
        Err(Ambiguous)
    } else {
        Ok(if x > 0.0 { 1 } else { -1 })
    }
}

fn sub(a: F2, b: F2) -> F2 {
    (a.0 - b.0, a.1 - b.1)
}
fn dot(a: F2, b: F2) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
fn crs(a: F2, b: F2) -> f64 {
    a.0 * b.1 - a.1 * b.0
}
pub fn dist(a: F2, b: F2) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
fn lerp(a: F2, b: F2, t: f64) -> F2 {
    (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t)
}
/// x reduced to [0, 2 pi)
fn turn(x: f64) -> f64 {
    x.rem_euclid(2.0 * PI)
}

/// Is the direction of p from m within the range of the arc (ends included)?
fn in_range(m: F2, p: F2, a: f64, b: f64) -> A<bool> {
    if (b - a - 2.0 * PI).abs() < LO {
        return Ok(true);
    }
    let th = (p.1 - m.1).atan2(p.0 - m.0);
    let d = turn(th - a);
    if sgn(d)? == 0 || sgn(2.0 * PI - d)? == 0 {
        return Ok(true);
    }
    Ok(sgn(b - a - d)? >= 0)
}

pub fn on(c: &Curve, p: F2) -> A<bool> {
    match *c {
        Seg(a, b) => {
            let l = dist(a, b);
            let h = crs(sub(b, a), sub(p, a)) / l;
            let t = dot(sub(b, a), sub(p, a)) / l;
            Ok(sgn(h)? == 0 && sgn(t)? >= 0 && sgn(l - t)? >= 0)
        }
        Circle(m, r) => Ok(sgn(dist(m, p) - r)? == 0),
        Arc(m, r, a, b) => Ok(sgn(dist(m, p) - r)? == 0 && in_range(m, p, a, b)?),
    }
}

fn seg_circle(a: F2, b: F2, m: F2, r: f64) -> A<Vec<F2>> {
    let l = dist(a, b);
    let u = ((b.0 - a.0) / l, (b.1 - a.1) / l);
    let tf = dot(u, sub(m, a));
    let h = crs(u, sub(m, a)).abs();
    let mut ts = vec![];
    match sgn(h - r)? {
        1 => {}
        0 => ts.push(tf),
        _ => {
            let w = ((r - h) * (r + h)).sqrt();
            ts.push(tf - w);
            ts.push(tf + w);
        }
    }
    let mut v = vec![];
    for t in ts {
        if sgn(t)? >= 0 && sgn(l - t)? >= 0 {
            v.push(lerp(a, b, t / l));
        }
    }
    Ok(v)
}

fn circle_circle(m: F2, r: f64, n: F2, s: f64) -> A<Vec<F2>> {
    let d = dist(m, n);
    if sgn(d)? == 0 {
        sgn(r - s)?;
        return Ok(vec![]);
    }
    let u = ((n.0 - m.0) / d, (n.1 - m.1) / d);
    let along = |t: f64, w: f64| (m.0 + u.0 * t - u.1 * w, m.1 + u.1 * t + u.0 * w);
    if sgn(d - r - s)? > 0 || sgn(d - (r - s).abs())? < 0 {
        return Ok(vec![]);
    }
    if sgn(d - r - s)? == 0 {
        return Ok(vec![along(r, 0.0)]);
    }
    if sgn(d - (r - s).abs())? == 0 {
        return Ok(vec![along(if r > s { r } else { -r }, 0.0)]);
    }
    let t = (d * d + (r - s) * (r + s)) / (2.0 * d);
    let w = ((r - t) * (r + t)).max(0.0).sqrt();
    Ok(vec![along(t, w), along(t, -w)])
}

fn seg_seg(a: F2, b: F2, c: F2, d: F2) -> A<Vec<F2>> {
    let (l, k) = (dist(a, b), dist(c, d));
    let (r, s) = (sub(b, a), sub(d, c));
    let den = crs(r, s) / (l * k);
    if sgn(den)? != 0 {
        let t = crs(sub(c, a), s) / crs(r, s);
        let u = crs(sub(c, a), r) / crs(r, s);
        if sgn(t * l)? >= 0 && sgn((1.0 - t) * l)? >= 0 && sgn(u * k)? >= 0 && sgn((1.0 - u) * k)? >= 0 {
            return Ok(vec![lerp(a, b, t)]);
        }
        return Ok(vec![]);
    }
    let mut v = vec![];
    for p in [a, b] {
        if on(&Seg(c, d), p)? {
            v.push(p);
        }
    }
    for p in [c, d] {
        if on(&Seg(a, b), p)? {
            v.push(p);
        }
    }
    Ok(dedup(v))
}

pub fn dedup(v: Vec<F2>) -> Vec<F2> {
    let mut w: Vec<F2> = vec![];
    for p in v {
        if !w.iter().any(|q| dist(*q, p) < LO) {
            w.push(p);
        }
    }
    w
}

pub fn ends(c: &Curve) -> Vec<F2> {
    match *c {
        Seg(a, b) => vec![a, b],
        Circle(..) => vec![],
        Arc(m, r, a, b) => vec![(m.0 + r * a.cos(), m.1 + r * a.sin()), (m.0 + r * b.cos(), m.1 + r * b.sin())],
    }
}

fn support(c: &Curve) -> Option<(F2, f64)> {
    match *c {
        Seg(..) => None,
        Circle(m, r) | Arc(m, r, _, _) => Some((m, r)),
    }
}

pub fn same_support(a: &Curve, b: &Curve) -> A<bool> {
    match (support(a), support(b)) {
        (Some((m, r)), Some((n, s))) => Ok(sgn(dist(m, n))? == 0 && sgn(r - s)? == 0),
        _ => Ok(false),
    }
}

/// The points the pairwise operations have to return.
pub fn meets(a: &Curve, b: &Curve) -> A<Vec<F2>> {
    if same_support(a, b)? {
        return match (a, b) {
            (Arc(..), Arc(..)) => {
                let mut v = vec![];
                for (x, y) in [(a, b), (b, a)] {
                    for p in ends(x) {
                        if on(y, p)? {
                            v.push(p);
                        }
                    }
                }
                Ok(dedup(v))
            }
            _ => Ok(vec![]),
        };
    }
    let raw = match (a, b) {
        (Seg(p, q), Seg(r, s)) => return seg_seg(*p, *q, *r, *s),
        (Seg(p, q), c) | (c, Seg(p, q)) => {
            let (m, r) = support(c).unwrap();
            seg_circle(*p, *q, m, r)?
        }
        _ => {
            let ((m, r), (n, s)) = (support(a).unwrap(), support(b).unwrap());
            circle_circle(m, r, n, s)?
        }
    };
    let mut v = vec![];
    for p in raw {
        let mut ok = true;
        for c in [a, b] {
            if let Arc(m, _, x, y) = *c {
                ok &= in_range(m, p, x, y)?;
            }
        }
        if ok {
            v.push(p);
        }
    }
    Ok(v)
}

// ---------------------------------------------------------------------------------------
// implementation under test

pub fn i_seg<T: Num>(a: F2, b: F2) -> LineSegment2<T> {
    LineSegment2::new(pt(a), pt(b))
}
pub fn i_circle<T: Num>(m: F2, r: f64) -> CircleSegment2<T> {
    CircleSegment2::new(pt(m), n(r))
}
pub fn i_arc<T: Num>(m: F2, r: f64, a: f64, b: f64) -> ArcSegment2<T> {
    ArcSegment2::new(i_circle(m, r), n(a), n(b))
}

#[macro_export]
macro_rules! with_curve {
    ($c:expr, $t:ty, |$x:ident| $body:expr) => {
        match *$c {
            $crate::curves::Curve::Seg(p, q) => {
                let $x = &$crate::curves::i_seg::<$t>(p, q);
                $body
            }
            $crate::curves::Curve::Circle(m, r) => {
                let $x = &$crate::curves::i_circle::<$t>(m, r);
                $body
            }
            $crate::curves::Curve::Arc(m, r, a, b) => {
                let $x = &$crate::curves::i_arc::<$t>(m, r, a, b);
                $body
            }
        }
    };
}

pub fn i_meets<T: Num>(a: &Curve, b: &Curve) -> Vec<Point2<T>> {
    with_curve!(a, T, |x| with_curve!(b, T, |y| segment_2_segment_2_intersection::<T>(x, y)))
}
pub fn i_hit<T: Num>(a: &Curve, b: &Curve) -> bool {
    with_curve!(a, T, |x| with_curve!(b, T, |y| is_segment_2_segment_2_intersected::<T>(x, y)))
}
pub fn i_push(s: &mut SweepSegment2Intersection<f64>, c: &Curve) {
    with_curve!(c, f64, |x| s.push_segment(x))
}
pub fn i_sweep(cs: &[Curve]) -> Vec<Point2<f64>> {
    let mut s = SweepSegment2Intersection::<f64>::new();
    for c in cs {
        i_push(&mut s, c);
    }
    s.intersection()
}

pub fn clear<T>(cx: &mut Cx, x: A<T>) -> Result<T, Stop> {
    x.map_err(|_| {
        cx.outcome("skipped: too close to call");
        Stop::Prune
    })
}

/// Compare the answer of a sweep with the reference for a set of curves.
pub fn check_sweep(cx: &mut Cx, cs: &[Curve], got: &[Point2<f64>]) -> R {
    let mut want: Vec<F2> = vec![];
    for i in 0..cs.len() {
        for j in i + 1..cs.len() {
            let m = meets(&cs[i], &cs[j]);
            want.extend(clear(cx, m)?);
        }
    }
    let want = dedup(want);
    for (i, w) in want.iter().enumerate() {
        if want[..i].iter().any(|v| dist(*v, *w) < HI) {
            let r: A<()> = Err(Ambiguous);
            clear(cx, r)?;
        }
    }
    cx.outcome(match want.len() {
        0 => "no required point",
        1 => "1 required point",
        2..=3 => "2-3 required points",
        _ => "4+ required points",
    });
    let got = xys(got);
    for (i, g) in got.iter().enumerate() {
        ensure!(g.0.is_finite() && g.1.is_finite(), "finite", "non-finite point in {got:?}");
        for h in &got[i + 1..] {
            ensure!(dist(*g, *h) > 1e-7, "twice", "point returned twice: {g:?} and {h:?}");
        }
        let mut k = 0;
        for c in cs {
            let o = on(c, *g);
            if clear(cx, o)? {
                k += 1;
            }
        }
        ensure!(k >= 2, "spurious", "returned point {g:?} lies on {k} of the curves; got {got:?}");
    }
    for w in &want {
        ensure!(got.iter().any(|g| dist(*g, *w) < 1e-7), "missing", "missing point {w:?}; got {got:?}, required {want:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------
// alphabets

/// integer points on a circle of radius 5, by angle
pub const FIVE: [P; 12] = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)];

pub fn angle_of(p: P) -> f64 {
    turn((p.1 as f64).atan2(p.0 as f64))
}
pub fn fp(p: P) -> F2 {
    (p.0 as f64, p.1 as f64)
}
/// counter-clockwise arc of radius 5 around m between two of its lattice points (i == j: full turn)
pub fn arc5(m: P, i: usize, j: usize) -> Curve {
    let a = angle_of(FIVE[i]);
    let mut b = angle_of(FIVE[j]);
    if b <= a + 1e-12 {
        b += 2.0 * PI;
    }
    Arc(fp(m), 5.0, a, b)
}
/// arc with angles in units of pi / 4
pub fn arc8(m: P, r: f64, i: i32, k: i32) -> Curve {
    Arc(fp(m), r, i as f64 * PI / 4.0, (i + k) as f64 * PI / 4.0)
}

/// Curves of a small scene: unit and double circles on a 3x3 grid, arcs and segments.
pub fn small_segs() -> Vec<Curve> {
    let g = exact_grid(-1, 1);
    let mut v = vec![];
    for i in 0..g.len() {
        for j in i + 1..g.len() {
            v.push(Seg(fp(g[i]), fp(g[j])));
        }
    }
    for (a, b) in [((-2, 0), (2, 0)), ((0, -2), (0, 2)), ((1, -2), (1, 2)), ((-2, -1), (2, -1)), ((-2, -2), (2, 2)), ((-2, 1), (2, 0)), ((-1, -2), (0, 2)), ((0, 0), (3, 1))] {
        v.push(Seg(fp(a), fp(b)));
    }
    v
}
pub fn exact_grid(lo: i64, hi: i64) -> Vec<P> {
    (lo..=hi).flat_map(|y| (lo..=hi).map(move |x| (x, y))).collect()
}
pub fn small_circles() -> Vec<Curve> {
    let mut v = vec![];
    for m in exact_grid(-1, 1) {
        for r in [1.0, 2.0, 0.5] {
            v.push(Circle(fp(m), r));
        }
    }
    v
}
pub fn small_arcs() -> Vec<Curve> {
    let mut v = vec![];
    for m in [(0, 0), (1, 0), (0, 1), (-1, -1)] {
        for r in [1.0, 2.0] {
            for i in 0..8 {
                for k in [1, 2, 3, 4, 6, 8] {
                    if m == (0, 0) || k % 2 == 0 {
                        v.push(arc8(m, r, i, k));
                    }
                }
            }
        }
    }
    v
}

/// arcs of radius 5 with lattice ends, circles of radius 5 and segments through lattice points
pub fn five_arcs(step: usize) -> Vec<Curve> {
    let mut v = vec![];
    for m in [(0, 0), (6, 0), (0, 8), (3, 4), (5, 5)] {
        for i in (0..12).step_by(step) {
            for j in 0..12 {
                v.push(arc5(m, i, j));
            }
        }
    }
    v
}
pub fn five_circles() -> Vec<Curve> {
    let mut v = vec![];
    for m in [(0, 0), (6, 0), (0, 8), (3, 4), (5, 5), (10, 0), (-6, -8), (1, 0), (0, -3), (2, 0)] {
        for r in [5.0, 3.0, 2.0, 10.0, 4.0, 1.0] {
            v.push(Circle(fp(m), r));
        }
    }
    v
}
pub fn five_segs() -> Vec<Curve> {
    let mut v = vec![];
    for i in 0..12 {
        for j in 0..i {
            v.push(Seg(fp(FIVE[i]), fp(FIVE[j])));
        }
        let p = FIVE[i];
        // radial, tangent (both ways) and outside segments
        v.push(Seg((0.0, 0.0), fp((2 * p.0, 2 * p.1))));
        v.push(Seg(fp(p), fp((2 * p.0, 2 * p.1))));
        v.push(Seg((0.0, 0.0), fp(p)));
        v.push(Seg(fp((p.0 - p.1, p.1 + p.0)), fp((p.0 + p.1, p.1 - p.0))));
        v.push(Seg(fp((p.0 - p.1, p.1 + p.0)), fp(p)));
        v.push(Seg(fp((p.0 - p.1, p.1 + p.0)), fp((p.0 - 2 * p.1, p.1 + 2 * p.0))));
        v.push(Seg(fp((-2 * p.0, -2 * p.1)), fp((2 * p.0 + 1, 2 * p.1))));
    }
    v
}

/// all segments between points of a w x w lattice
pub fn lattice_segs(w: i64) -> Vec<Curve> {
    grid_segs(w, w).into_iter().map(|(a, b)| Seg(fp(a), fp(b))).collect()
}
/// all circles around points of a w x w lattice through another
pub fn lattice_circles(w: i64) -> Vec<Curve> {
    let g = grid(w, w);
    let mut v = vec![];
    for m in &g {
        let mut k: Vec<i64> = g.iter().map(|p| (p.0 - m.0).pow(2) + (p.1 - m.1).pow(2)).filter(|k| *k > 0).collect();
        k.sort();
        k.dedup();
        v.extend(k.into_iter().map(|k| Circle(fp(*m), (k as f64).sqrt())));
    }
    v
}
/// all arcs around points of a w x w lattice from one of its points to another
pub fn lattice_arcs(w: i64) -> Vec<Curve> {
    let g = grid(w, w);
    let mut v = vec![];
    for m in &g {
        let off = |p: &P| (p.0 - m.0, p.1 - m.1);
        let d2 = |p: &P| off(p).0.pow(2) + off(p).1.pow(2);
        for p in &g {
            for q in &g {
                if d2(p) > 0 && d2(p) == d2(q) {
                    let a = angle_of(off(p));
                    let b = angle_of(off(q));
                    v.push(Arc(fp(*m), (d2(p) as f64).sqrt(), a, if b <= a + 1e-12 { b + 2.0 * PI } else { b }));
                }
            }
        }
    }
    v
}

pub fn lattice(w: i64) -> Vec<Curve> {
    [lattice_segs(w), lattice_circles(w), lattice_arcs(w)].concat()
}

const SIMS_ALL: &[Sim] = &[SIM_ID, SIM_SHIFT, SIM_TENTH, SIM_BIG, SIM_QUARTER, SIM_HALF, SIM_IRR, SIM_IRR2];
/// small and large scales, far away, turned by less than the tolerance
pub const SIMS_WIDE: &[Sim] = &[SIM_KILO, SIM_AWAY, SIM_TURNED, SIM_SMALL, SIM_LEAN, SIM_LEAN_BACK];
/// exact in single precision too
const SIMS_EXACT: &[Sim] = &[SIM_ID, SIM_SHIFT, SIM_QUARTER, SIM_HALF];
const SIMS_SOME: &[Sim] = &[SIM_ID, SIM_IRR];
const SIMS_ONE: &[Sim] = &[SIM_ID];

fn pair_family(
    name: &'static str,
    xs: Vec<Curve>,
    ys: Vec<Curve>,
    sims: &'static [Sim],
    check: fn(&mut Cx, &Curve, &Curve) -> R,
) -> Family {
    family(name, format!("all {} x {} ordered pairs of curves, under {} similarities", xs.len(), ys.len(), sims.len()), move |cx| {
        let s = cx.pick_from(sims);
        let a = s.curve(cx.pick_from(&xs));
        let b = s.curve(cx.pick_from(&ys));
        cx.note(|| format!("{a:?} and {b:?}"));
        check(cx, &a, &b)
    })
}

fn pair_points_in<T: Num>(cx: &mut Cx, a: &Curve, b: &Curve, tol: f64) -> R {
    let w = meets(a, b);
    let want = clear(cx, w)?;
    cx.outcome(match want.len() {
        0 => "disjoint",
        1 => "1 point",
        2 => "2 points",
        _ => "3+ points",
    });
    let turned = |c: &Curve| match *c {
        Seg(p, q) => Seg(q, p),
        c => c,
    };
    // as given, swapped, and with segments the other way round
    for (how, x, y) in [("", a, b), (" (swapped)", b, a), (" (segments reversed)", &turned(a), &turned(b))] {
        let got = cx.call("segment_2_segment_2_intersection", || i_meets::<T>(x, y))?;
        let hit = cx.call("is_segment_2_segment_2_intersected", || i_hit::<T>(x, y))?;
        exact::same_points(&xys(&got), &want, tol).or_else(|e| fail("points", format!("{e}{how}")))?;
        ensure!(hit == !want.is_empty(), "predicate", "intersected={hit}{how} but the common points are {want:?}");
    }
    Ok(())
}
fn pair_points(cx: &mut Cx, a: &Curve, b: &Curve) -> R {
    pair_points_in::<f64>(cx, a, b, 1e-7)
}
fn pair_points32(cx: &mut Cx, a: &Curve, b: &Curve) -> R {
    pair_points_in::<f32>(cx, a, b, 1e-3)
}

/// The second curve displaced, or its radius changed, by a fraction of the tolerance: touching
/// curves still touch, and coincident ones still coincide.
fn pair_displaced<T: Num>(name: &'static str, xs: Vec<Curve>, ys: Vec<Curve>, sims: &'static [Sim], q: f64, tol: f64) -> Family {
    family(name, format!("all {} x {} ordered pairs of curves, the second displaced by {q:e} in one of 4 directions or grown or shrunk by as much, {} similarities, {}", xs.len(), ys.len(), sims.len(), T::NAME), move |cx| {
        let s = cx.pick_from(sims);
        let a = s.curve(cx.pick_from(&xs));
        let b = s.curve(cx.pick_from(&ys));
        let how = cx.pick(6);
        let d = [(q, 0.0), (-q, q), (0.0, -q), (-q, 0.0), (0.0, 0.0), (0.0, 0.0)][how];
        let g = [0.0, 0.0, 0.0, 0.0, q, -q][how];
        let mv = |p: F2| (p.0 + d.0, p.1 + d.1);
        let b2 = match b {
            Seg(..) if how > 3 => return Err(Stop::Prune),
            Seg(p, q) => Seg(mv(p), mv(q)),
            Circle(m, r) => Circle(mv(m), r + g),
            Arc(m, r, u, v) => Arc(mv(m), r + g, u, v),
        };
        cx.note(|| format!("{a:?} and {b:?} displaced {d:?} grown {g:e}, {}", T::NAME));
        let w = meets(&a, &b);
        let want = clear(cx, w)?;
        cx.outcome(match want.len() {
            0 => "disjoint",
            1 => "1 point",
            2 => "2 points",
            _ => "3+ points",
        });
        for (how, x, y) in [("", &a, &b2), (" (swapped)", &b2, &a)] {
            let got = cx.call("segment_2_segment_2_intersection", || i_meets::<T>(x, y))?;
            let hit = cx.call("is_segment_2_segment_2_intersected", || i_hit::<T>(x, y))?;
            exact::same_points(&xys(&got), &want, tol).or_else(|e| fail("points", format!("{e}{how}")))?;
            ensure!(hit == !want.is_empty(), "predicate", "intersected={hit}{how} but the common points are {want:?}");
        }
        Ok(())
    })
}

/// some ten thousand tolerances across: answers are scaled up again to be compared
const MICRO: f64 = 1.0 / 1048576.0;
fn micro(c: &Curve) -> Curve {
    Sim { name: "scale2^-20", scale: MICRO, rot: 0.0, t: (0.0, 0.0) }.curve(*c)
}
fn magnified(v: &[Point2<f64>]) -> Vec<Point2<f64>> {
    v.iter().map(|p| Point2::new(p.x() / MICRO, p.y() / MICRO)).collect()
}
fn pair_micro(name: &'static str, xs: Vec<Curve>, ys: Vec<Curve>) -> Family {
    family(name, format!("all {} x {} ordered pairs of curves, 2^20 times smaller", xs.len(), ys.len()), move |cx| {
        let (a, b) = (cx.pick_from(&xs), cx.pick_from(&ys));
        cx.note(|| format!("{a:?} and {b:?}, 2^20 times smaller"));
        let w = within(LO, 1e-3, || meets(&a, &b));
        let want = clear(cx, w)?;
        cx.outcome(match want.len() {
            0 => "disjoint",
            1 => "1 point",
            2 => "2 points",
            _ => "3+ points",
        });
        let (x, y) = (micro(&a), micro(&b));
        for (how, x, y) in [("", &x, &y), (" (swapped)", &y, &x)] {
            let got = cx.call("segment_2_segment_2_intersection", || i_meets::<f64>(x, y))?;
            let hit = cx.call("is_segment_2_segment_2_intersected", || i_hit::<f64>(x, y))?;
            exact::same_points(&xys(&magnified(&got)), &want, 1e-7).or_else(|e| fail("points", format!("{e}{how}")))?;
            ensure!(hit == !want.is_empty(), "predicate", "intersected={hit}{how} but the common points are {want:?}");
        }
        Ok(())
    })
}
fn sweep_micro(name: &'static str, pool: Vec<Curve>, k: usize) -> Family {
    family(name, format!("all {k}-subsets of a pool of {} curves, 2^20 times smaller", pool.len()), move |cx| {
        let cs: Vec<Curve> = pick_subset(cx, pool.len(), k).iter().map(|i| pool[*i]).collect();
        cx.note(|| format!("{cs:?}, 2^20 times smaller"));
        let got = cx.call("sweep", || i_sweep(&cs.iter().map(micro).collect::<Vec<_>>()))?;
        within(LO, 1e-3, || check_sweep(cx, &cs, &magnified(&got)))
    })
}

/// every n-th curve from the k-th on
pub fn thin(v: Vec<Curve>, n: usize, k: usize) -> Vec<Curve> {
    v.into_iter().skip(k).step_by(n).collect()
}
/// The same curves a little bigger, smaller, and beside their place: almost tangent, almost ending
/// on one another.
fn nudged(v: Vec<Curve>) -> Vec<Curve> {
    let e = 2.4e-7;
    let mv = |c: Curve, d: F2| match c {
        Seg(a, b) => Seg((a.0 + d.0, a.1 + d.1), (b.0 + d.0, b.1 + d.1)),
        Circle(m, r) => Circle((m.0 + d.0, m.1 + d.1), r),
        Arc(m, r, a, b) => Arc((m.0 + d.0, m.1 + d.1), r, a, b),
    };
    let grow = |c: Curve, k: f64| match c {
        Seg(a, b) => {
            let l = dist(a, b);
            Seg(lerp(a, b, -k * e / l), lerp(a, b, 1.0 + k * e / l))
        }
        Circle(m, r) => Circle(m, r + k * e),
        Arc(m, r, a, b) => Arc(m, r + k * e, a, b),
    };
    let wide = |c: Curve, k: f64| match c {
        Arc(m, r, a, b) if (b - a - 2.0 * PI).abs() > 1e-3 && a > 1e-3 => Arc(m, r, a - k * e, b + k * e),
        c => c,
    };
    v.into_iter().flat_map(|c| [c, mv(c, (e, 0.0)), mv(c, (0.0, -e)), mv(c, (-0.6 * e, 0.8 * e)), grow(c, 1.0), grow(c, -1.0), wide(c, 1.0), wide(c, -1.0)]).fold(vec![], |mut v, c| {
        if !v.contains(&c) {
            v.push(c);
        }
        v
    })
}
const SIMS_NEAR: &[Sim] = &[SIM_ID, SIM_SHIFT, SIM_QUARTER, SIM_IRR];
/// Does an end miss the other curve by less than the tolerance?
fn near_miss(a: &Curve, b: &Curve) -> A<()> {
    let w = meets(a, b)?;
    let miss = |x, y| ends(x).iter().any(|e| off(y, *e) < 5e-9 && !w.iter().any(|p| dist(*p, *e) < 1e-10));
    if !same_support(a, b)? && (miss(a, b) || miss(b, a)) {
        return Err(Ambiguous);
    }
    Ok(())
}
fn pair_points_near(cx: &mut Cx, a: &Curve, b: &Curve) -> R {
    closely(1e-11, || {
        let w = near_miss(a, b);
        clear(cx, w)?;
        pair_points_in::<f64>(cx, a, b, 2e-8)
    })
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        explanation: "Every ordered pair of a segment and a circle, and of two circles, from pools rich in tangency, end contacts and common circles (lattice positions; radius 5 with Pythagorean points), under similarities that turn, scale and shift them; as given, swapped and with the segment reversed. The points and the predicate are compared with an independent closed-form computation.",
        assumptions: &["features of a pair either coincide or are separated by far more than the tolerance; pairs too close to call are skipped and counted", "single precision only where the coordinates are exact"],
        families: |t| {
            let mut v = vec![
                pair_family("small-segment-circle-f32", small_segs(), small_circles(), SIMS_EXACT, pair_points32),
                pair_family("small-circle-circle-f32", small_circles(), small_circles(), SIMS_EXACT, pair_points32),
                pair_family("five-segment-circle-f32", five_segs(), five_circles(), SIMS_EXACT, pair_points32),
                pair_family("five-circle-circle-f32", five_circles(), five_circles(), SIMS_EXACT, pair_points32),
                pair_family("small-segment-circle", small_segs(), small_circles(), SIMS_ALL, pair_points),
                pair_family("small-circle-circle", small_circles(), small_circles(), SIMS_ALL, pair_points),
                pair_family("five-segment-circle", five_segs(), five_circles(), SIMS_ALL, pair_points),
                pair_family("five-circle-circle", five_circles(), five_circles(), SIMS_ALL, pair_points),
                pair_micro("small-segment-circle-micro", small_segs(), small_circles()),
                pair_micro("small-circle-circle-micro", small_circles(), small_circles()),
                pair_micro("five-segment-circle-micro", five_segs(), five_circles()),
                pair_micro("five-circle-circle-micro", five_circles(), five_circles()),
                pair_family("lattice-segment-circle", lattice_segs(4), lattice_circles(4), SIMS_ALL, pair_points),
                pair_family("lattice-circle-circle", lattice_circles(4), lattice_circles(4), SIMS_ALL, pair_points),
                pair_family("lattice-segment-circle-wide", lattice_segs(4), lattice_circles(4), SIMS_WIDE, pair_points),
                pair_displaced::<f64>("displaced-segment-circle", small_segs(), small_circles(), SIMS_SOME, 1.5e-12, 1e-7),
                pair_displaced::<f64>("displaced-circle-segment", small_circles(), small_segs(), SIMS_ONE, 1.5e-12, 1e-7),
                pair_displaced::<f64>("displaced-circle-circle", small_circles(), small_circles(), SIMS_SOME, 1.5e-12, 1e-7),
                pair_displaced::<f64>("displaced-five-segment-circle", five_segs(), five_circles(), SIMS_SOME, 1.5e-12, 1e-7),
                pair_displaced::<f64>("displaced-five-circle-circle", five_circles(), five_circles(), SIMS_SOME, 1.5e-12, 1e-7),
                pair_family("small-segment-circle-wide", small_segs(), small_circles(), SIMS_WIDE, pair_points),
                pair_family("small-circle-circle-wide", small_circles(), small_circles(), SIMS_WIDE, pair_points),
                pair_family("five-segment-circle-wide", five_segs(), five_circles(), SIMS_WIDE, pair_points),
                pair_family("five-circle-circle-wide", five_circles(), five_circles(), SIMS_WIDE, pair_points),
                pair_family("near-five-segment-circle", nudged(five_segs()), nudged(five_circles()), SIMS_NEAR, pair_points_near),
                pair_family("near-five-circle-circle", nudged(five_circles()), nudged(five_circles()), SIMS_NEAR, pair_points_near),
                pair_family("near-small-segment-circle", nudged(small_segs()), nudged(small_circles()), SIMS_NEAR, pair_points_near),
                pair_family("near-small-circle-circle", nudged(small_circles()), nudged(small_circles()), SIMS_NEAR, pair_points_near),
            ];
            if t == Tier::Thorough {
                v.extend([
                    pair_family("lattice-segment-circle-6x6", lattice_segs(6), lattice_circles(6), SIMS_ALL, pair_points),
                    pair_family("lattice-circle-circle-6x6", lattice_circles(6), lattice_circles(6), SIMS_ALL, pair_points),
                    pair_family("lattice-segment-circle-5x5-wide", lattice_segs(5), lattice_circles(5), SIMS_WIDE, pair_points),
                    pair_family("lattice-circle-circle-5x5-wide", lattice_circles(5), lattice_circles(5), SIMS_WIDE, pair_points),
                    pair_displaced::<f64>("displaced-lattice-segment-circle", lattice_segs(5), lattice_circles(5), SIMS_SOME, 1.5e-12, 1e-7),
                    pair_displaced::<f64>("displaced-lattice-circle-circle", lattice_circles(5), lattice_circles(5), SIMS_SOME, 1.5e-12, 1e-7),
                    pair_micro("lattice-segment-circle-micro", lattice_segs(5), lattice_circles(5)),
                    pair_micro("lattice-circle-circle-micro", lattice_circles(5), lattice_circles(5)),
                ]);
            }
            v
        },
    }
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        explanation: "Every ordered pair of an arc and a segment, circle or arc from pools rich in tangency, end contacts, common circles and abutting arcs, under similarities that turn, scale and shift them, and with the angles written in every turn; as given, swapped and with the segment reversed. The points and the predicate are compared with an independent closed-form computation.",
        assumptions: &["single precision only for quarter-turn arcs at exact coordinates; features of a pair either coincide or are separated by far more than the tolerance; pairs too close to call are skipped and counted"],
        families: |t| {
            let mut v = vec![
                pair_family("small-segment-arc-f32", small_segs(), small_arcs(), SIMS_EXACT, pair_points32),
                pair_family("small-circle-arc-f32", small_circles(), small_arcs(), SIMS_EXACT, pair_points32),
                pair_family("small-arc-arc-f32", small_arcs(), small_arcs(), SIMS_EXACT, pair_points32),
                pair_family("small-segment-arc", small_segs(), small_arcs(), SIMS_ALL, pair_points),
                pair_family("small-circle-arc", small_circles(), small_arcs(), SIMS_ALL, pair_points),
                pair_family("small-arc-arc", small_arcs(), small_arcs(), SIMS_SOME, pair_points),
                pair_family("five-segment-arc", five_segs(), five_arcs(1), SIMS_SOME, pair_points),
                pair_family("five-circle-arc", five_circles(), five_arcs(1), SIMS_SOME, pair_points),
                pair_family("five-arc-arc", five_arcs(1), five_arcs(1), SIMS_SOME, pair_points),
                pair_micro("small-segment-arc-micro", small_segs(), small_arcs()),
                pair_micro("small-circle-arc-micro", small_circles(), small_arcs()),
                pair_micro("small-arc-arc-micro", small_arcs(), small_arcs()),
                pair_micro("five-segment-arc-micro", five_segs(), five_arcs(2)),
                pair_micro("five-circle-arc-micro", five_circles(), five_arcs(2)),
                pair_family("lattice-segment-arc", lattice_segs(4), lattice_arcs(4), SIMS_SOME, pair_points),
                pair_family("lattice-circle-arc", lattice_circles(4), lattice_arcs(4), SIMS_SOME, pair_points),
                pair_family("lattice-arc-arc", lattice_arcs(4), lattice_arcs(4), SIMS_ONE, pair_points),
                pair_displaced::<f64>("displaced-segment-arc", small_segs(), small_arcs(), SIMS_SOME, 1.5e-12, 1e-7),
                pair_displaced::<f64>("displaced-circle-arc", small_circles(), small_arcs(), SIMS_SOME, 1.5e-12, 1e-7),
                pair_displaced::<f64>("displaced-arc-arc", small_arcs(), small_arcs(), SIMS_ONE, 1.5e-12, 1e-7),
                pair_displaced::<f64>("displaced-five-segment-arc", five_segs(), five_arcs(2), SIMS_ONE, 1.5e-12, 1e-7),
                pair_displaced::<f64>("displaced-five-circle-arc", five_circles(), five_arcs(2), SIMS_ONE, 1.5e-12, 1e-7),
                pair_displaced::<f64>("displaced-five-arc-arc", thin(five_arcs(1), 5, 0), thin(five_arcs(1), 3, 1), SIMS_ONE, 1.5e-12, 1e-7),
                pair_family("small-segment-arc-wide", small_segs(), small_arcs(), SIMS_WIDE, pair_points),
                pair_family("small-circle-arc-wide", small_circles(), small_arcs(), SIMS_WIDE, pair_points),
                pair_family("small-arc-arc-wide", small_arcs(), small_arcs(), SIMS_WIDE, pair_points),
                pair_family("five-segment-arc-wide", five_segs(), five_arcs(2), SIMS_WIDE, pair_points),
                pair_family("five-circle-arc-wide", five_circles(), five_arcs(2), SIMS_WIDE, pair_points),
                pair_written("written-segment-arc", small_segs(), small_arcs()),
                pair_written("written-circle-arc", small_circles(), small_arcs()),
                pair_written("written-arc-arc", small_arcs(), small_arcs()),
                pair_family("near-small-segment-arc", small_segs(), nudged(small_arcs()), SIMS_NEAR, pair_points_near),
                pair_family("near-small-circle-arc", small_circles(), nudged(small_arcs()), SIMS_NEAR, pair_points_near),
                pair_family("near-small-arc-arc", small_arcs(), nudged(thin(small_arcs(), 2, 0)), SIMS_ONE, pair_points_near),
                pair_family("near-five-segment-arc", five_segs(), nudged(five_arcs(3)), SIMS_SOME, pair_points_near),
                pair_family("near-five-circle-arc", five_circles(), nudged(five_arcs(3)), SIMS_SOME, pair_points_near),
                pair_family("near-five-arc-arc", five_arcs(3), nudged(five_arcs(3)), SIMS_SOME, pair_points_near),
                pair_family("five-arc-arc-wide", five_arcs(2), five_arcs(3), SIMS_WIDE, pair_points),
            ];
            if t == Tier::Thorough {
                v.extend([
                    pair_family("lattice-segment-arc-5x5", lattice_segs(5), lattice_arcs(5), SIMS_SOME, pair_points),
                    pair_family("lattice-circle-arc-5x5", lattice_circles(5), lattice_arcs(5), SIMS_SOME, pair_points),
                    pair_family("lattice-arc-arc-5x5", lattice_arcs(5), lattice_arcs(5), SIMS_SOME, pair_points),
                    pair_family("lattice-arc-arc-4x4-all", lattice_arcs(4), lattice_arcs(4), SIMS_ALL, pair_points),
                    pair_family("lattice-segment-arc-wide", lattice_segs(4), lattice_arcs(4), SIMS_WIDE, pair_points),
                    pair_family("lattice-arc-arc-wide", lattice_arcs(4), lattice_arcs(4), SIMS_WIDE, pair_points),
                    pair_displaced::<f64>("displaced-lattice-segment-arc", lattice_segs(4), lattice_arcs(4), SIMS_SOME, 1.5e-12, 1e-7),
                    pair_displaced::<f64>("displaced-lattice-arc-arc", lattice_arcs(4), lattice_arcs(4), SIMS_SOME, 1.5e-12, 1e-7),
                    pair_micro("lattice-arc-arc-micro", lattice_arcs(4), lattice_arcs(4)),
                ]);
            }
            v
        },
    }
}

/// The same arc with its angles written in other turns, the end possibly below the start.
fn written(c: Curve, w: usize) -> Curve {
    let full = 2.0 * PI;
    match c {
        Arc(m, r, a, b) if (b - a - full).abs() > 1e-6 => match w {
            1 => Arc(m, r, turn(a + 1e-13), turn(b + 1e-13)),
            2 => Arc(m, r, a - full, b - full),
            3 => Arc(m, r, a, b - full),
            4 => Arc(m, r, a + 2.0 * full, b + 3.0 * full),
            5 => Arc(m, r, a - 3.0 * full, b - 4.0 * full),
            _ => c,
        },
        _ => c,
    }
}
const WRITINGS: usize = 6;

fn pair_written(name: &'static str, xs: Vec<Curve>, ys: Vec<Curve>) -> Family {
    family(name, format!("all pairs from pools of {} and {} curves with the angles of the arcs written in {WRITINGS} ways (other turns, end below start)", xs.len(), ys.len()), move |cx| {
        let (a, b) = (cx.pick_from(&xs), cx.pick_from(&ys));
        let w = cx.pick(WRITINGS);
        let (x, y) = (written(a, w), written(b, w));
        cx.note(|| format!("{x:?} {y:?}"));
        let want = meets(&a, &b);
        let want = clear(cx, want)?;
        let got = xys(&cx.call("segment_2_segment_2_intersection", || i_meets::<f64>(&x, &y))?);
        cx.outcome(if want.is_empty() { "no point" } else { "some point" });
        exact::same_points(&got, &want, 1e-7).or_else(|e| fail("points", e))
    })
}
fn sweep_written(name: &'static str, pool: Vec<Curve>, k: usize) -> Family {
    family(name, format!("all {k}-subsets of a pool of {} curves with the angles of the arcs written in {WRITINGS} ways (other turns, end below start)", pool.len()), move |cx| {
        let w = cx.pick(WRITINGS);
        let idx = pick_subset(cx, pool.len(), k);
        let cs: Vec<Curve> = idx.iter().map(|i| pool[*i]).collect();
        let ws: Vec<Curve> = cs.iter().map(|c| written(*c, w)).collect();
        cx.note(|| format!("{ws:?}"));
        let got = cx.call("sweep", || i_sweep(&ws))?;
        check_sweep(cx, &cs, &got)
    })
}

fn sweep_family(name: &'static str, pool: Vec<Curve>, k: usize, sims: &'static [Sim]) -> Family {
    family(name, format!("all {k}-subsets of a pool of {} curves, under {} similarities", pool.len(), sims.len()), move |cx| {
        let s = cx.pick_from(sims);
        let idx = pick_subset(cx, pool.len(), k);
        let cs: Vec<Curve> = idx.iter().map(|i| s.curve(pool[*i])).collect();
        cx.note(|| format!("{cs:?}"));
        let got = cx.call("sweep", || i_sweep(&cs))?;
        check_sweep(cx, &cs, &got)
    })
}

fn displaced(c: Curve, d: F2) -> Curve {
    let mv = |p: F2| (p.0 + d.0, p.1 + d.1);
    match c {
        Seg(p, q) => Seg(mv(p), mv(q)),
        Circle(m, r) => Circle(mv(m), r),
        Arc(m, r, u, v) => Arc(mv(m), r, u, v),
    }
}
/// Every curve but the first displaced by a fraction of the tolerance.
fn sweep_displaced(name: &'static str, pool: Vec<Curve>, k: usize, sims: &'static [Sim]) -> Family {
    family(name, format!("all {k}-subsets of a pool of {} curves, all but the first displaced by up to 1.5e-12 in one of 3 directions, under {} similarities", pool.len(), sims.len()), move |cx| {
        let s = cx.pick_from(sims);
        let cs: Vec<Curve> = pick_subset(cx, pool.len(), k).iter().map(|i| s.curve(pool[*i])).collect();
        let q = 1.5e-12;
        let ds: Vec<Curve> = cs.iter().enumerate().map(|(i, c)| if i == 0 { *c } else { displaced(*c, cx.pick_from(&[(q, -q), (-q, 0.0), (0.0, q)])) }).collect();
        cx.note(|| format!("{ds:?}"));
        let got = cx.call("sweep", || i_sweep(&ds))?;
        check_sweep(cx, &cs, &got)
    })
}

/// unit vector along a curve at one of its points
fn direction(c: &Curve, p: F2) -> F2 {
    let d = match *c {
        Seg(a, b) => sub(b, a),
        Circle(m, _) | Arc(m, ..) => (m.1 - p.1, p.0 - m.0),
    };
    let l = d.0.hypot(d.1);
    (d.0 / l, d.1 / l)
}
/// Sets in which each curve but the first may be a little bigger, smaller, or beside its place.
fn sweep_near(name: &'static str, plain: Vec<Curve>, pool: Vec<Curve>, k: usize, sims: &'static [Sim]) -> Family {
    let pool = nudged(pool);
    family(name, format!("one of {} curves and {} more out of {}, almost tangent or almost ending on one another, under {} similarities; scenes in which an end on another curve (with more than two curves: any point to visit) is just above or below another point, or in which curves cross at less than 1e-4 radians, are left out", plain.len(), k - 1, pool.len(), sims.len()), move |cx| {
        let s = cx.pick_from(sims);
        let mut cs = vec![s.curve(cx.pick_from(&plain))];
        cs.extend(pick_subset(cx, pool.len(), k - 1).iter().map(|i| s.curve(pool[*i])));
        cx.note(|| format!("{cs:?}"));
        let got = cx.call("sweep", || i_sweep(&cs))?;
        closely(1.5e-15, || {
            let mut at: Vec<F2> = cs.iter().flat_map(ends).collect();
            let mut touch: Vec<F2> = vec![];
            for c in &cs {
                if let Some((m, r)) = support(c) {
                    at.extend([(m.0 - r, m.1), (m.0 + r, m.1)]);
                }
            }
            for i in 0..k {
                for j in 0..i {
                    let w = near_miss(&cs[i], &cs[j]);
                    clear(cx, w)?;
                    let w = meets(&cs[i], &cs[j]).unwrap_or_default();
                    let angle = |p: &F2| (crs(direction(&cs[i], *p), direction(&cs[j], *p))).abs();
                    if w.iter().any(|p| angle(p) > 1e-8 && angle(p) < 1e-4) {
                        clear(cx, Err::<(), _>(Ambiguous))?;
                    }
                    touch.extend(ends(&cs[i]).into_iter().chain(ends(&cs[j])).filter(|e| w.iter().any(|p| dist(*e, *p) < 1e-10)));
                    if w.iter().any(|p| at.iter().any(|q| dist(*p, *q) > 1e-11 && dist(*p, *q) < 1e-7)) {
                        clear(cx, Err::<(), _>(Ambiguous))?;
                    }
                    at.extend(w);
                }
            }
            if k > 2 {
                touch = at.clone();
            }
            let tie = |p: &F2, q: &F2| (p.0 - q.0).abs() < 1e-9 && (p.1 - q.1).abs() > 1e-10 && (p.1 - q.1).abs() < 1e-4;
            if touch.iter().any(|p| at.iter().any(|q| tie(p, q))) {
                clear(cx, Err::<(), _>(Ambiguous))?;
            }
            Ok(())
        })?;
        closely(1e-9, || check_sweep(cx, &cs, &got))
    })
}

/// Different curves with the same two end points: chords, and upper and lower arcs of many circles,
/// with curves that cut them.
pub fn lenses() -> Vec<Curve> {
    let mut v = vec![];
    for (h, y) in [(4.0, 3.0f64), (1.0, 0.0)] {
        v.push(Seg((-h, y), (h, y)));
        for c in [0.0, -9.0, 3.0, 4.5, 8.0, -2.0] {
            let r = (h * h + (y - c) * (y - c)).sqrt();
            let (e, w) = (turn((y - c).atan2(h)), turn((y - c).atan2(-h)));
            v.push(Arc((0.0, c), r, e, if w > e { w } else { w + 2.0 * PI }));
            v.push(Arc((0.0, c), r, w, if e > w { e } else { e + 2.0 * PI }));
        }
    }
    for (a, b) in [((-3.0, 2.0), (-2.99, 6.0)), ((-4.5, 2.5), (4.5, 4.5)), ((0.5, -6.0), (0.5, 14.0)), ((2.0, 5.0), (4.0, 1.0)), ((-0.5, -1.5), (0.5, 1.0))] {
        v.push(Seg(a, b));
    }
    v.push(Circle((0.5, 1.0), 3.0));
    v.push(Circle((-2.0, 4.0), 1.3));
    v
}

/// a mixed pool: lines, circles, and arcs of shared circles, in general and special position
pub fn mixed() -> Vec<Curve> {
    let mut v = vec![];
    for (i, c) in small_segs().into_iter().enumerate() {
        if i % 2 == 0 || i >= 36 {
            v.push(c);
        }
    }
    for m in [(0, 0), (1, 0), (0, 1), (-1, -1)] {
        for r in [1.0, 2.0] {
            v.push(Circle(fp(m), r));
        }
    }
    for (m, r) in [((0, 0), 1.0), ((1, 0), 1.0), ((0, 1), 2.0)] {
        for (i, k) in [(0, 4), (4, 4), (0, 2), (2, 4), (6, 4), (1, 6), (5, 6), (3, 2), (7, 2)] {
            v.push(arc8(m, r, i, k));
        }
    }
    v
}
pub fn mixed_small() -> Vec<Curve> {
    mixed().into_iter().enumerate().filter(|(i, _)| i % 3 != 1).map(|(_, c)| c).collect()
}

/// Parameterised large scenes (see work.rs): every kind, every size, optionally reversed.
fn tangle_family(name: &'static str, max: usize, sims: &'static [Sim]) -> Family {
    family(name, format!("{} kinds of tangles of 2 to {} curves, forwards and backwards, under {} similarities", work::TANGLES, max + 1, sims.len()), move |cx| {
        let s = cx.pick_from(sims);
        let kind = cx.pick(work::TANGLES);
        let n = 2 + cx.pick(max);
        let mut cs: Vec<Curve> = work::tangle(kind, n).into_iter().map(|c| s.curve(c)).collect();
        if cx.flag() {
            cs.reverse();
        }
        cx.note(|| format!("tangle {kind} of {n} curves: {cs:?}"));
        let got = cx.call("sweep", || i_sweep(&cs))?;
        check_sweep(cx, &cs, &got)
    })
}

/// Segments, circles and arcs whose positions and sizes step through small ranges in strides.
pub fn modular_curves(n: usize, m: usize, [a, b, c, d]: [usize; 4]) -> Vec<Curve> {
    (0..n)
        .map(|i| {
            let p = ((i * a % m) as f64, ((i * i * b + i) % m) as f64);
            match (i + d) % 3 {
                0 => {
                    let q = (((i * c + 1) % m) as f64, ((i * i * d + 3 * i + 2) % m) as f64);
                    if p == q { Seg(p, (q.0 + 2.0, q.1 + 1.0)) } else { Seg(p, q) }
                }
                1 => Circle(p, 1.0 + ((i * c + d) % 4) as f64),
                _ => arc8((p.0 as i64, p.1 as i64), 1.0 + ((i * d + c) % 4) as f64, ((i * c + a) % 8) as i32, 1 + ((i * b + i) % 8) as i32),
            }
        })
        .collect()
}
fn modular_family(name: &'static str, n: usize, m: usize, strides: &'static [usize], sims: &'static [Sim]) -> Family {
    family(name, format!("{n} segments, circles and arcs whose positions step through an {m}x{m} lattice modulo {m}, every combination of four strides out of {strides:?}, under {} similarities", sims.len()), move |cx| {
        let k = std::array::from_fn(|_| cx.pick_from(strides));
        let s = cx.pick_from(sims);
        let cs: Vec<Curve> = modular_curves(n, m, k).into_iter().map(|c| s.curve(c)).collect();
        cx.note(|| format!("{cs:?}"));
        let got = cx.call("sweep", || i_sweep(&cs))?;
        check_sweep(cx, &cs, &got)
    })
}

/// Many curves abreast, and many through one point that meet again elsewhere.
fn crowd_family(name: &'static str, ns: &'static [usize], sims: &'static [Sim]) -> Family {
    family(name, format!("{ns:?} circles or arcs through one point with centres around it or along two lines, segments side by side under an arc or a circle, or rings of one centre across a beam of lines; each with a few more curves across or not, under {} similarities", sims.len()), move |cx| {
        let s = cx.pick_from(sims);
        let n = cx.pick_from(ns);
        let kind = cx.pick(5);
        let more = cx.flag();
        let mut cs: Vec<Curve> = match kind {
            // circles through the origin, centres on two lines
            0 => (0..n).map(|i| { let c = if i % 2 == 0 { ((i + 2) as f64, 1.0) } else { (1.0, -((i + 2) as f64)) }; Circle(c, c.0.hypot(c.1)) }).collect(),
            // arcs of three eighths through the origin
            1 => (0..n).map(|i| { let a = i as f64 * 2.4; let r = 2.0 + i as f64 * 0.37; let c = (r * a.cos(), r * a.sin()); Arc(c, r, a + PI - 0.9, a + PI + 1.1) }).collect(),
            // an arc over segments side by side
            2 => (0..n).map(|i| Seg((-20.0 + 0.1 * i as f64, i as f64), (20.0, i as f64 + if i % 3 == 0 { 0.5 } else { 0.0 }))).chain([Arc((0.0, n as f64 / 2.0), 9.0, 0.3, 4.0)]).collect(),
            // a circle over them
            3 => (0..n).map(|i| Seg((-20.0 + 0.1 * i as f64, 1.5 * i as f64), (21.0, 1.5 * i as f64))).chain([Circle((0.25, n as f64 * 0.7), 7.3)]).collect(),
            // rings and beams
            _ => (0..n).map(|i| Circle((0.0, 0.0), 1.0 + i as f64)).chain((0..3).map(|i| Seg((-0.5 * n as f64 - 1.3, i as f64), (n as f64 + 2.7, 3.0 * i as f64 + 1.0)))).collect(),
        };
        if more {
            cs.push(Seg((-30.0, -7.1), (30.0, 11.3)));
            cs.push(Circle((3.7, 1.9), 5.3));
        }
        let cs: Vec<Curve> = cs.into_iter().map(|c| s.curve(c)).collect();
        cx.note(|| format!("kind {kind}: {cs:?}"));
        let got = cx.call("sweep", || i_sweep(&cs))?;
        check_sweep(cx, &cs, &got)
    })
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        explanation: "Exhaustive enumeration of whole scenes of segments, circles and counter-clockwise arcs, each run through the real sweep. The reference is an independent all-pairs computation; every returned point must lie on two of the curves, no point may come twice, and every isolated meeting point (and overlap end of arcs of one circle) must be returned. Scenes are all k-subsets of pools full of coincidences (tangencies, shared end points, common circles, curves through one point, verticals at the sides of circles) and parameterised tangles of many curves, repeated under similarities of the plane.",
        assumptions: &["double precision", "distinct features of a scene are separated by far more than the tolerance (scenes in which the reference finds a distance between 1e-8 and 1e-5 are skipped and counted)", "arcs span at most a full turn; angles are within a few turns of 0"],
        families: |t| {
            let cat = |v: Vec<Vec<Curve>>| v.concat();
            let all_small = || cat(vec![small_segs(), small_circles(), small_arcs()]);
            let thin = |v: Vec<Curve>, n: usize, k: usize| -> Vec<Curve> { v.into_iter().skip(k).step_by(n).collect() };
            let mut v = vec![
                sweep_family("small-k2", all_small(), 2, SIMS_ALL),
                sweep_family("five-k2", cat(vec![five_segs(), five_circles(), five_arcs(1)]), 2, SIMS_SOME),
                sweep_near("near-small-k2", all_small(), thin(all_small(), 2, 1), 2, SIMS_SOME),
                sweep_near("near-five-k2", thin(cat(vec![five_segs(), five_circles(), five_arcs(2)]), 2, 0), thin(cat(vec![five_segs(), five_circles(), five_arcs(3)]), 4, 1), 2, SIMS_SOME),
                sweep_near("near-small-k3", thin(all_small(), 16, 3), thin(all_small(), 24, 5), 3, SIMS_ONE),
                sweep_family("general-k2", general(), 2, SIMS_ALL),
                sweep_family("general-k3", general(), 3, SIMS_SOME),
                sweep_family("small-circles-k3", small_circles(), 3, SIMS_ALL),
                sweep_family("mixed-k3", mixed(), 3, SIMS_ALL),
                sweep_family("lenses-k3", lenses(), 3, SIMS_SOME),
                sweep_family("lenses-k4", lenses(), 4, SIMS_ONE),
                modular_family("modular-5", 6, 5, &[0, 1, 2, 3, 4], SIMS_ALL),
                modular_family("modular-11", 12, 11, &[1, 2, 3, 5, 8], SIMS_SOME),
                modular_family("modular-17", 24, 17, &[1, 4, 9], SIMS_ALL),
                crowd_family("crowds", &[5, 12, 25], SIMS_SOME),
                crowd_family("crowds-50", &[50], SIMS_ONE),
                modular_family("modular-11-wide", 12, 11, &[1, 2, 7], SIMS_WIDE),
                tangle_family("tangles", 12, SIMS_SOME),
                tangle_family("tangles-wide", 12, SIMS_WIDE),
                sweep_family("lattice-k2", lattice(4), 2, SIMS_SOME),
                sweep_family("lattice-k3", thin(lattice(4), 6, 1), 3, SIMS_ONE),
                sweep_family("lattice-3x3-k3", thin(lattice(3), 2, 0), 3, SIMS_ONE),
                sweep_displaced("displaced-small-k2", all_small(), 2, SIMS_ONE),
                sweep_displaced("displaced-five-k2", thin(cat(vec![five_segs(), five_circles(), five_arcs(2)]), 2, 0), 2, SIMS_ONE),
                sweep_displaced("displaced-general-k3", general(), 3, SIMS_ONE),
                sweep_displaced("displaced-mixed-k3", mixed(), 3, SIMS_SOME),
                sweep_displaced("displaced-lenses-k3", lenses(), 3, SIMS_ONE),
                sweep_micro("small-k2-micro", all_small(), 2),
                sweep_micro("five-k2-micro", cat(vec![five_segs(), five_circles(), five_arcs(1)]), 2),
                sweep_micro("general-k3-micro", general(), 3),
                sweep_micro("mixed-k3-micro", mixed(), 3),
                sweep_family("small-k2-wide", all_small(), 2, SIMS_WIDE),
                sweep_family("five-k2-wide", cat(vec![five_segs(), five_circles(), five_arcs(1)]), 2, SIMS_WIDE),
                sweep_family("general-k3-wide", general(), 3, SIMS_WIDE),
                sweep_family("mixed-k3-wide", mixed(), 3, SIMS_WIDE),
                sweep_family("small-k3", thin(all_small(), 3, 1), 3, SIMS_ONE),
                sweep_family("five-k3", thin(cat(vec![five_segs(), five_circles(), five_arcs(2)]), 4, 0), 3, SIMS_ONE),
                sweep_family("mixed-k4", mixed_small(), 4, SIMS_SOME),
                sweep_written("written-k2", all_small(), 2),
                sweep_written("written-mixed-k3", mixed_small(), 3),
            ];
            if t == Tier::Thorough {
                v.extend([
                    sweep_family("general-k3-all-maps", general(), 3, SIMS_ALL),
                    sweep_family("general-k4", general(), 4, SIMS_SOME),
                    sweep_family("lattice-5x5-k2", lattice(5), 2, SIMS_ONE),
                    sweep_family("lattice-3x3-k3-all", lattice(3), 3, SIMS_SOME),
                    sweep_family("lattice-k3-more", thin(lattice(4), 3, 1), 3, SIMS_ONE),
                    sweep_family("lattice-3x3-k4", thin(lattice(3), 4, 1), 4, SIMS_ONE),
                    sweep_displaced("displaced-lattice-k2", lattice(4), 2, SIMS_ONE),
                    tangle_family("larger-tangles", 24, SIMS_ALL),
                    modular_family("modular-7-all", 9, 7, &[0, 1, 2, 3, 4, 5, 6], SIMS_ALL),
                    modular_family("modular-11-all", 12, 11, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], SIMS_SOME),
                    modular_family("modular-31", 40, 31, &[1, 4, 9, 17, 26], SIMS_SOME),
                    sweep_family("lenses-k5", lenses(), 5, SIMS_ONE),
                    sweep_family("lenses-k4-all-maps", lenses(), 4, SIMS_ALL),
                    sweep_family("small-circles-k4", small_circles(), 4, SIMS_SOME),
                    sweep_family("mixed-k4-all", mixed(), 4, SIMS_SOME),
                    sweep_family("mixed-k5", mixed_small(), 5, SIMS_SOME),
                    sweep_family("small-k3-half", thin(all_small(), 2, 0), 3, SIMS_ALL),
                    sweep_family("five-k3-more", thin(cat(vec![five_segs(), five_circles(), five_arcs(2)]), 3, 0), 3, SIMS_SOME),
                    sweep_family("small-k3-all", all_small(), 3, SIMS_ONE),
                ]);
            }
            v
        },
    }
}

// ---------------------------------------------------------------------------------------
// C07

fn degenerate() -> Vec<Curve> {
    [(0, 0), (1, 0), (0, 2), (5, 0), (3, 4), (7, 7)].iter().map(|p| Seg(fp(*p), fp(*p))).collect()
}
/// curves in no special position at all
pub fn general() -> Vec<Curve> {
    let mut v = vec![];
    let q = |i: usize| {
        let x = (i as f64 * 0.754877666246693 + 0.17) % 1.0;
        let y = (i as f64 * 0.569840290998053 + 0.41) % 1.0;
        (x * 8.0 - 4.0, y * 8.0 - 4.0)
    };
    for i in 0..12 {
        v.push(Seg(q(i), q(i + 20)));
        v.push(Circle(q(i + 40), 0.7 + 0.31 * i as f64));
        let a = (i as f64 * 1.37) % 6.0;
        v.push(Arc(q(i + 60), 0.9 + 0.27 * i as f64, a, a + 0.4 + 0.45 * i as f64));
    }
    v
}

/// distance of a point from a curve
fn off(c: &Curve, g: F2) -> f64 {
    match *c {
        Seg(p, q) if p == q => dist(p, g),
        Seg(p, q) => {
            let l = dist(p, q);
            let t = (dot(sub(q, p), sub(g, p)) / (l * l)).clamp(0.0, 1.0);
            dist(lerp(p, q, t), g)
        }
        Circle(m, r) => (dist(m, g) - r).abs(),
        Arc(m, r, x, y) => {
            let th = turn((g.1 - m.1).atan2(g.0 - m.0) - x);
            if th <= y - x {
                (dist(m, g) - r).abs()
            } else {
                ends(c).iter().map(|e| dist(*e, g)).fold(f64::MAX, f64::min)
            }
        }
    }
}
/// Symmetric, total, self-consistent, and every point on both curves; no reference for the set itself.
fn consistent<T: Num>(cx: &mut Cx, a: &Curve, b: &Curve, tol: f64, near: f64) -> R {
    let ab = cx.call("segment_2_segment_2_intersection", || i_meets::<T>(a, b))?;
    let ba = cx.call("segment_2_segment_2_intersection (swapped)", || i_meets::<T>(b, a))?;
    let hit = cx.call("is_segment_2_segment_2_intersected", || i_hit::<T>(a, b))?;
    let rev = cx.call("is_segment_2_segment_2_intersected (swapped)", || i_hit::<T>(b, a))?;
    let (ab, ba) = (xys(&ab), xys(&ba));
    ensure!(hit == rev, "symmetry", "intersected={hit} but swapped {rev}");
    ensure!(hit == !ab.is_empty(), "predicate", "intersected={hit} but the points are {ab:?}");
    if near < 1e-8 {
        // several common points may lie within the allowance of one another
        let each = |v: &[F2], w: &[F2]| v.iter().all(|p| w.iter().any(|q| dist(*p, *q) < tol));
        ensure!(each(&ab, &ba) && each(&ba, &ab), "symmetry", "points {ab:?}, swapped {ba:?}");
    } else {
        exact::same_points(&dedup(ba), &dedup(ab.clone()), tol).or_else(|e| fail("symmetry", format!("swapped: {e}")))?;
    }
    cx.outcome(if hit { "intersecting" } else { "not intersecting" });
    for g in &ab {
        for c in [a, b] {
            let off = off(c, *g);
            ensure!(off <= near, "on both", "returned point {g:?} is {off:e} away from {c:?}");
        }
    }
    Ok(())
}

fn consistent64(cx: &mut Cx, a: &Curve, b: &Curve) -> R {
    consistent::<f64>(cx, a, b, 1e-6, 1e-6)
}

/// without the segments of no length
fn plain(v: Vec<Curve>) -> Vec<Curve> {
    v.into_iter().filter(|c| !matches!(c, Seg(a, b) if a == b)).collect()
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        explanation: "Exhaustive enumeration of ordered pairs of curves of every kind; both operations are run in both argument orders on the real code and compared with each other and with the distance of each returned point from both curves.",
        assumptions: &["double precision; features of a pair are either coincident or separated by far more than the tolerance"],
        families: |t| {
            let small = || [small_segs(), small_circles(), small_arcs(), degenerate()].concat();
            let five = || [five_segs(), five_circles(), five_arcs(1), degenerate()].concat();
            let mut v = vec![
                pair_family("small", small(), small(), SIMS_SOME, consistent64),
                pair_family("five", five(), five(), SIMS_SOME, consistent64),
                pair_family("general", general(), general(), SIMS_ALL, consistent64),
                pair_family("lattice", lattice(4), lattice(4), SIMS_ONE, consistent64),
                pair_family("small-wide", small(), small(), SIMS_WIDE, consistent64),
                pair_family("five-wide", five(), five(), SIMS_WIDE, consistent64),
                pair_family("near-small", plain(small()), nudged(plain(small())), SIMS_NEAR, |cx, a, b| consistent::<f64>(cx, a, b, 1e-6, 1e-9)),
                pair_family("near-five", plain(five()), nudged(plain(five())), SIMS_NEAR, |cx, a, b| consistent::<f64>(cx, a, b, 1e-6, 1e-9)),
                pair_family("small-f32", small(), small(), SIMS_EXACT, |cx, a, b| consistent::<f32>(cx, a, b, 1e-3, 1e-3)),
            ];
            if t == Tier::Thorough {
                v.push(pair_family("small-all-maps", small(), small(), SIMS_ALL, consistent64));
                v.push(pair_family("five-all-maps", five(), five(), SIMS_ALL, consistent64));
                v.push(pair_family("mixed-sizes", five(), small(), SIMS_ALL, consistent64));
                v.push(pair_family("lattice-all-maps", lattice(4), lattice(4), SIMS_ALL, consistent64));
                v.push(pair_family("lattice-5x5", lattice(5), lattice(5), SIMS_SOME, consistent64));
            }
            v
        },
    }
}
