//! C25: work stays polynomial.  The operations are run on a user-defined number type that counts
//! every arithmetic step, comparison and root, so "how much work" is an exact, reproducible number.
use crate::areas::{structured, structured_all};
use crate::common::*;
use crate::curves::{fp, i_meets, mixed, Curve};
use crate::with_curve;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::algorithm::location::point_2_polygon_2::locate_point_2_polygon_2;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::number_type::DefaultNumberValueTrait;
use std::cell::Cell;
use std::fmt;
use std::ops::*;

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
#[derive(Clone, Copy, Debug)]
pub struct Counted(f64);

const OVER: &str = "work limit exceeded";
fn step<T>(x: T) -> T {
    STEPS.with(|s| {
        let n = s.get() + 1;
        s.set(n);
        if n > LIMIT.with(|l| l.get()) {
            LIMIT.with(|l| l.set(u64::MAX));
            std::panic::panic_any(OVER);
        }
    });
    x
}
/// Runs f within a budget; the number of steps it took, or None when it went over.
fn measured<T>(cx: &mut Cx, what: &'static str, limit: u64, f: impl FnOnce() -> T) -> Result<(T, u64), mccore::Stop> {
    STEPS.with(|s| s.set(0));
    LIMIT.with(|l| l.set(limit));
    let r = cx.call_may_panic(f);
    let spent = STEPS.with(|s| s.get());
    LIMIT.with(|l| l.set(u64::MAX));
    match r {
        Some(v) => Ok((v, spent)),
        None if spent > limit => fail("work", format!("{what} needs more than {limit} arithmetic steps")),
        None => fail("panic", format!("{what} panicked")),
    }
}

macro_rules! op {
    ($tr:ident, $f:ident, $e:tt) => {
        impl $tr for Counted {
            type Output = Counted;
            fn $f(self, o: Counted) -> Counted {
                step(Counted(self.0 $e o.0))
            }
        }
    };
}
op!(Add, add, +);
op!(Sub, sub, -);
op!(Mul, mul, *);
op!(Div, div, /);
impl Neg for Counted {
    type Output = Counted;
    fn neg(self) -> Counted {
        step(Counted(-self.0))
    }
}
impl PartialEq for Counted {
    fn eq(&self, o: &Counted) -> bool {
        step(self.0 == o.0)
    }
}
impl PartialOrd for Counted {
    fn partial_cmp(&self, o: &Counted) -> Option<std::cmp::Ordering> {
        step(self.0.partial_cmp(&o.0))
    }
}
impl fmt::Display for Counted {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl DefaultNumberValueTrait for Counted {
    fn default() -> Self {
        Counted(0.0)
    }
    fn default_eps() -> Self {
        Counted(<f64 as DefaultNumberValueTrait>::default_eps())
    }
    fn zero() -> Self {
        Counted(0.0)
    }
    fn from_f64(v: f64) -> Self {
        Counted(v)
    }
    fn pi() -> Self {
        Counted(std::f64::consts::PI)
    }
}
impl NumberType for Counted {
    fn equals(self, o: Self) -> bool {
        step(NumberType::equals(self.0, o.0))
    }
    fn sqrt(self) -> Self {
        step(Counted(self.0.sqrt()))
    }
    fn abs(self) -> Self {
        step(Counted(self.0.abs()))
    }
    fn sin(self) -> Self {
        step(Counted(self.0.sin()))
    }
    fn cos(self) -> Self {
        step(Counted(self.0.cos()))
    }
    fn acos(self) -> Self {
        step(Counted(self.0.acos()))
    }
    fn atan(self) -> Self {
        step(Counted(self.0.atan()))
    }
    fn atan2(self, o: Self) -> Self {
        step(Counted(self.0.atan2(o.0)))
    }
}
impl Num for Counted {
    const NAME: &'static str = "counted";
    fn f(self) -> f64 {
        self.0
    }
}

fn log2(n: u64) -> u64 {
    64 - (n + 1).leading_zeros() as u64
}
fn ratio(cx: &mut Cx, spent: u64, limit: u64) {
    cx.outcome(match spent * 100 / limit.max(1) {
        0..=4 => "up to 5% of the allowance",
        5..=9 => "5-10% of the allowance",
        10..=19 => "10-20% of the allowance",
        20..=49 => "20-50% of the allowance",
        _ => "over half the allowance",
    });
}

/// pieces of curves the sweep works on
fn pieces(cs: &[Curve]) -> u64 {
    cs.iter().map(|c| match c {
        Curve::Seg(..) => 1,
        _ => 3,
    }).sum()
}

fn sweep_work(cx: &mut Cx, cs: &[Curve], points: u64) -> R {
    let n = pieces(cs);
    // every event looks at all pieces and sorts them
    let limit = 200 * (2 * n + points + 2) * (n + 2) * log2(n);
    let (got, spent) = measured(cx, "the sweep", limit, || {
        let mut s = SweepSegment2Intersection::<Counted>::new();
        for c in cs {
            with_curve!(c, Counted, |x| s.push_segment(x));
        }
        s.intersection().len() as u64
    })?;
    ratio(cx, spent, limit);
    cx.note(|| format!("{n} pieces, {got} points, {spent} steps, allowance {limit}"));
    Ok(())
}

/// number of meeting points, from all pairs (an upper bound is enough here)
fn meeting_points(cs: &[Curve]) -> u64 {
    let mut k = 0;
    for i in 0..cs.len() {
        for j in i + 1..cs.len() {
            k += i_meets::<f64>(&cs[i], &cs[j]).len() as u64;
        }
    }
    k
}

/// n curves that all meet one another, in several ways
pub fn tangle(kind: usize, n: usize) -> Vec<Curve> {
    let nn = n as f64;
    (0..n)
        .map(|i| {
            let x = i as f64;
            match kind {
                // lines in general position, every two of them cross
                0 => Curve::Seg((0.0, x + 0.01 * x * x), (20.0, nn - x)),
                // lines through one point
                1 => Curve::Seg((-10.0, x - nn / 2.0), (10.0, nn / 2.0 - x)),
                // circles shifted along a line
                2 => Curve::Circle((0.37 * x, 0.0), 10.0),
                // circles of different sizes around a ring
                3 => Curve::Circle(((x * 0.7).cos() * 2.0, (x * 0.7).sin() * 2.0), 5.0 + 0.1 * x),
                // arcs crossing a bundle of lines
                4 if i % 2 == 0 => Curve::Arc((0.3 * x, 0.2 * x), 8.0, 0.3, 5.0),
                4 => Curve::Seg((-12.0, x * 0.9 - 4.0), (15.0, 5.0 - x * 0.8)),
                // grid of lines cut by diagonals
                5 => match i % 3 {
                    0 => Curve::Seg((0.0, x), (30.0, x)),
                    1 => Curve::Seg((x, -1.0), (x, 31.0)),
                    _ => Curve::Seg((0.3, x - 8.0), (30.3, 31.0 - x)),
                },
                // upper halves of concentric and shifted circles
                6 => Curve::Arc((if i % 2 == 0 { 0.0 } else { 1.5 }, 0.0), 1.0 + 0.4 * x, 0.1, 3.0),
                // overlapping collinear segments on two lines
                _ => {
                    if i % 2 == 0 {
                        Curve::Seg((x, x), (x + 7.0, x + 7.0))
                    } else {
                        Curve::Seg((x, 9.0 - x), (x + 8.0, 1.0 - x))
                    }
                }
            }
        })
        .collect()
}
pub const TANGLES: usize = 8;

fn tangles(name: &'static str, max: usize) -> Family {
    family(name, format!("{TANGLES} kinds of tangles (mutually crossing lines, pencils, circles, arcs, grids, overlaps) of 1 to {max} curves"), move |cx| {
        let kind = cx.pick(TANGLES);
        let n = 1 + cx.pick(max);
        let cs = tangle(kind, n);
        cx.note(|| format!("tangle {kind} of {n} curves"));
        let k = meeting_points(&cs);
        sweep_work(cx, &cs, k)
    })
}
fn small_scenes(name: &'static str, pool: Vec<Curve>, k: usize) -> Family {
    family(name, format!("all {k}-subsets of {} curves", pool.len()), move |cx| {
        let cs: Vec<Curve> = pick_subset(cx, pool.len(), k).iter().map(|i| pool[*i]).collect();
        cx.note(|| format!("{cs:?}"));
        let m = meeting_points(&cs);
        sweep_work(cx, &cs, m)
    })
}
fn segment_scenes(name: &'static str, w: i64, h: i64, k: usize) -> Family {
    let pool: Vec<Curve> = grid_segs(w, h).into_iter().map(|(a, b)| Curve::Seg(fp(a), fp(b))).collect();
    small_scenes(name, pool, k)
}

fn polygon_work(cx: &mut Cx, v: &[P]) -> R {
    let n = v.len() as u64;
    let make = || Polygon2::<Counted>::new(v.iter().map(|p| pt(fp(*p))).collect());
    let pol = make();
    let linear = 200 * (n + 2);
    let p = pt::<Counted>((1.5, 1.25));
    let (_, s) = measured(cx, "locate_point_2_polygon_2", linear, || locate_point_2_polygon_2(&p, &pol))?;
    ratio(cx, s, linear);
    measured(cx, "area", linear, || pol.area())?;
    measured(cx, "is_convex", linear, || pol.is_convex())?;
    let limit = 200 * (3 * n + 2) * (n + 2) * log2(n);
    measured(cx, "is_simple", limit, || pol.is_simple())?;
    // quadratically many ear tests, each linear
    let cubic = limit + 200 * (n + 2) * (n + 2) * (n + 2);
    let (_, s) = measured(cx, "earcut_2", cubic, || earcut_2(make()))?;
    ratio(cx, s, cubic);
    let sorting = 200 * (n + 2) * log2(n);
    let pts: Vec<_> = v.iter().map(|p| pt::<Counted>(fp(*p))).collect();
    let (_, s) = measured(cx, "convex_hull", sorting, || ConvexHull2::new(pts).convex_hull())?;
    ratio(cx, s, sorting);
    Ok(())
}
fn polygons(name: &'static str, ks: &[i64]) -> Family {
    let s = structured_all(ks);
    family(name, format!("{} structured polygons with up to {} vertices, both directions", s.len(), s.iter().map(|x| x.1.len()).max().unwrap()), move |cx| {
        let i = cx.pick(s.len());
        let mut v = s[i].1.clone();
        if cx.flag() {
            v.reverse();
        }
        cx.note(|| format!("{} {v:?}", s[i].0));
        polygon_work(cx, &v)
    })
}
fn pair_work(name: &'static str, pool: Vec<Curve>) -> Family {
    family(name, format!("all ordered pairs of {} curves", pool.len()), move |cx| {
        let (a, b) = (cx.pick_from(&pool), cx.pick_from(&pool));
        cx.note(|| format!("{a:?} {b:?}"));
        let (_, s) = measured(cx, "segment_2_segment_2_intersection", 2000, || i_meets::<Counted>(&a, &b))?;
        ratio(cx, s, 2000);
        Ok(())
    })
}

/// disjoint segments, most of them alive at once
fn disjoint(kind: usize, n: usize) -> Vec<Curve> {
    (0..n).map(|i| {
        let x = i as f64;
        let len = n as f64;
        match kind {
            0 => Curve::Seg((0.1 * x, x), (len + 0.1 * x, x + 0.5)),
            // the shorter the higher
            1 => Curve::Seg((x, x), (3.0 * len - x, x)),
            // rays around the origin
            2 => Curve::Seg(((1.0 + 0.01 * x) * (6.2 * x / len).cos(), (1.0 + 0.01 * x) * (6.2 * x / len).sin()), (9.0 * (6.2 * x / len).cos(), 9.0 * (6.2 * x / len).sin())),
            // one behind the other
            3 => Curve::Seg((2.0 * x, 0.0), (2.0 * x + 1.0, x)),
            // uprights
            4 => Curve::Seg((x, 0.0), (x, 10.0 + x)),
            // a chain, every end on the next start
            _ => Curve::Seg((x, (i % 2) as f64), (x + 1.0, ((i + 1) % 2) as f64)),
        }
    }).collect()
}
fn disjoint_family(name: &'static str, sizes: &'static [usize]) -> Family {
    family(name, format!("six kinds of {sizes:?} segments that do not cross (staggered, nested, radial, in a row, upright, a chain), in three orders of insertion: the sweep takes near-linear work per event"), move |cx| {
        let kind = cx.pick(6);
        let n = cx.pick_from(sizes);
        let cs = shuffled(cx, &disjoint(kind, n));
        cx.note(|| format!("kind {kind}, {n} segments"));
        sweep_work(cx, &cs, if kind == 5 { n as u64 } else { 0 })
    })
}
/// as given, backwards, or scattered
fn shuffled<X: Clone>(cx: &mut Cx, v: &[X]) -> Vec<X> {
    let n = v.len();
    match cx.pick(3) {
        0 => v.to_vec(),
        1 => v.iter().rev().cloned().collect(),
        _ => {
            let mut step = (n * 5 / 8) | 1;
            let gcd = |mut a: usize, mut b: usize| {
                while b != 0 {
                    (a, b) = (b, a % b);
                }
                a
            };
            while gcd(step, n) != 1 {
                step += 2;
            }
            (0..n).map(|i| v[i * step % n].clone()).collect()
        }
    }
}
fn hull_family(name: &'static str, sizes: &'static [usize]) -> Family {
    family(name, format!("six kinds of {sizes:?} points (a parabola, a column, a row, a lattice, one point repeated, a ring), in three orders: the hull takes n log n work"), move |cx| {
        let kind = cx.pick(6);
        let n = cx.pick_from(sizes);
        let v: Vec<(f64, f64)> = (0..n).map(|i| {
            let x = i as f64;
            match kind {
                0 => (x, x * x / 64.0),
                1 => (3.0, x),
                2 => (x, 3.0),
                3 => ((i % 64) as f64, (i / 64) as f64),
                4 => (1.0, 2.0),
                _ => (1e3 * (6.28 * x / n as f64).cos(), 1e3 * (6.28 * x / n as f64).sin()),
            }
        }).collect();
        let v = shuffled(cx, &v);
        cx.note(|| format!("kind {kind}, {n} points"));
        let n = n as u64;
        let limit = 200 * (n + 2) * log2(n);
        let pts: Vec<_> = v.iter().map(|p| pt::<Counted>(*p)).collect();
        let (_, s) = measured(cx, "convex_hull", limit, || ConvexHull2::new(pts).convex_hull())?;
        ratio(cx, s, limit);
        Ok(())
    })
}
fn large_polygons(name: &'static str, ks: &'static [i64]) -> Family {
    let s: Vec<_> = ks.iter().flat_map(|k| structured(*k)).collect();
    family(name, format!("{} structured polygons with up to {} vertices, both directions: location, area, convexity (linear), simplicity (a sweep)", s.len(), s.iter().map(|x| x.1.len()).max().unwrap()), move |cx| {
        let i = cx.pick(s.len());
        let mut v = s[i].1.clone();
        if cx.flag() {
            v.reverse();
        }
        cx.note(|| format!("{} of {} vertices", s[i].0, v.len()));
        let n = v.len() as u64;
        let pol = Polygon2::<Counted>::new(v.iter().map(|p| pt(fp(*p))).collect());
        let linear = 200 * (n + 2);
        for q in [(1.5, 1.25), (-100.0, 3.0), fp(v[0]), (fp(v[0]).0 + 0.5, fp(v[0]).1)] {
            let p = pt::<Counted>(q);
            let (_, s) = measured(cx, "locate_point_2_polygon_2", linear, || locate_point_2_polygon_2(&p, &pol))?;
            ratio(cx, s, linear);
        }
        measured(cx, "area", linear, || pol.area())?;
        measured(cx, "is_convex", linear, || pol.is_convex())?;
        let limit = 200 * (3 * n + 2) * (n + 2) * log2(n);
        let (_, s) = measured(cx, "is_simple", limit, || pol.is_simple())?;
        ratio(cx, s, limit);
        Ok(())
    })
}

/// finite angles of every magnitude
fn angle_work(name: &'static str, exps: &'static [i32]) -> Family {
    family(name, format!("arcs with both angles of the form +-m*2^e, m in {{1, 1.5, 1.9}}, e from {exps:?}: construction, split, side and location"), move |cx| {
        use rcgal::algorithm::location::point_2_arc_segment_2::locate_point_2_arc_segment_2;
        let angle = |cx: &mut Cx| {
            let e = cx.pick_from(exps);
            let m = cx.pick_from(&[1.0, -1.0, 1.5, -1.5, 1.9, -1.9]);
            m * 2f64.powi(e)
        };
        let (a, b) = (angle(cx), angle(cx));
        cx.note(|| format!("arc from {a:e} to {b:e}"));
        let limit = 1_000_000;
        let (_, s) = measured(cx, "an arc", limit, || {
            let arc = ArcSegment2::<Counted>::new(CircleSegment2::new(pt((0.0, 0.0)), Counted(1.0)), Counted(a), Counted(b));
            let v = arc.monotone();
            let top = arc.is_top();
            (v.len(), top, locate_point_2_arc_segment_2(&pt((1.0, 0.0)), &arc))
        })?;
        ratio(cx, s, limit);
        Ok(())
    })
}

/// n places in a chain whose neighbours are a fraction of the tolerance apart: no order of them that
/// goes by the tolerance is transitive
fn crowd(cx: &mut Cx, sizes: &'static [usize]) -> (usize, f64, impl Fn(usize) -> f64, impl Fn(usize) -> f64) {
    let n = cx.pick_from(sizes);
    let gap = cx.pick_from(&[0.03, 0.3, 0.6, 0.9, 1.3]) * 1e-10;
    let mul = cx.pick_from(&[1, 3, 7, 11, 13]);
    // how far the places are apart in the other direction
    let span = cx.pick_from(&[1.0, 1e-10, 3.1e-11]);
    let chain = move |i: usize| ((i * mul) % n) as f64 * gap;
    let other = move |i: usize| {
        let k = (i * mul) % n;
        ((k * k * 5 + 3 * k) % n) as f64 * span
    };
    cx.note(|| format!("{n} places {gap:e} apart, {span:e} apart across, every {mul}th"));
    (n, gap, chain, other)
}
fn crowded_points(name: &'static str, sizes: &'static [usize]) -> Family {
    family(name, format!("{sizes:?} points in a chain at 0.03 to 1.3 of the tolerance, at distances of 1, of the tolerance and below it in the other direction, in five orders, along x and along y: the hull, and location, area, convexity and simplicity of the polygon through them, return within their allowance"), move |cx| {
        let (n, _, chain, other) = crowd(cx, sizes);
        let across = cx.flag();
        let at: Vec<(f64, f64)> = (0..n).map(|i| if across { (other(i), chain(i)) } else { (chain(i), other(i)) }).collect();
        let n = n as u64;
        let limit = 200 * (n + 2) * log2(n);
        let pts: Vec<_> = at.iter().map(|p| pt::<Counted>(*p)).collect();
        let (_, s) = measured(cx, "convex_hull", limit, || ConvexHull2::new(pts.clone()).convex_hull())?;
        ratio(cx, s, limit);
        let pol = Polygon2::<Counted>::new(pts);
        let linear = 200 * (n + 2);
        measured(cx, "locate_point_2_polygon_2", linear, || locate_point_2_polygon_2(&pt((0.0, 1.0)), &pol))?;
        measured(cx, "area", linear, || pol.area())?;
        measured(cx, "is_convex", linear, || pol.is_convex())?;
        let cs: Vec<Curve> = (0..at.len()).map(|i| Curve::Seg(at[i], at[(i + 1) % at.len()])).collect();
        let m = meeting_points(&cs);
        let limit = 200 * (2 * n + 4 * (m + n) + 2) * (n + 2) * log2(n);
        let (_, s) = measured(cx, "is_simple", limit, || pol.is_simple())?;
        ratio(cx, s, limit);
        Ok(())
    })
}
fn crowded_curves(name: &'static str, sizes: &'static [usize]) -> Family {
    family(name, format!("{sizes:?} curves whose places are in a chain at 0.03 to 1.3 of the tolerance: fans from such places, pencils to such places, parallels, uprights, circles of such centres, of such radii, arcs: the sweep returns within its allowance"), move |cx| {
        let kind = cx.pick(8);
        let (n, gap, chain, other) = crowd(cx, sizes);
        let cs: Vec<Curve> = (0..n).map(|i| {
            let (c, o) = (chain(i), other(i));
            match kind {
                0 => Curve::Seg((-1.0, c), (1.0 + i as f64, o)),
                1 => Curve::Seg((c, 0.0), (1.0 + o, 2.0 + i as f64)),
                2 => Curve::Seg((-3.0, c), (3.0, c)),
                3 => Curve::Seg((c, o - 1.0), (c, o + 1.0)),
                4 => Curve::Seg((c, o), (o + 2.0, c)),
                5 => Curve::Circle((c, o), 3.0),
                6 => Curve::Circle((0.0, 0.0), 1.0 + c + 0.25 * gap),
                _ => Curve::Arc((c, o), 2.0, 0.5 + c, 4.0 - c),
            }
        }).collect();
        let m = meeting_points(&cs);
        cx.note(|| format!("kind {kind}"));
        // points apart by fractions of the tolerance may each be found more than once
        sweep_work(cx, &cs, 4 * (m + n as u64))
    })
}

pub fn c25() -> Property {
    Property {
        id: "C25",
        explanation: "The operations run on a number type that counts every arithmetic step; every scene of the small families and every size of the parameterised ones is executed and its exact step count compared with a generous polynomial allowance (sweep: events x pieces x log pieces; triangulation: cubic; hull: n log n; location, area, convexity: linear; pairs and arcs with finite angles of any magnitude: constant). Running over the allowance stops the operation and is a violation.",
        assumptions: &["the constant of each allowance leaves a factor of at least four above the present implementation"],
        families: |t| {
            let mut v = vec![
                pair_work("pairs", mixed()),
                segment_scenes("segments-3x3-k3", 3, 3, 3),
                small_scenes("mixed-k3", mixed().into_iter().step_by(2).collect(), 3),
                tangles("tangles", 24),
                polygons("polygons", &[1, 2, 3, 5, 8, 12]),
                disjoint_family("disjoint-segments", &[50, 200, 700]),
                hull_family("large-hulls", &[100, 1000, 8000]),
                large_polygons("large-polygons", &[60, 200]),
                crowded_points("crowded-points", &[4, 10, 25, 50, 100]),
                crowded_curves("crowded-curves", &[4, 10, 25, 50]),
                angle_work("angles", &[-3, 0, 1, 3, 8, 20, 40, 53, 54, 60, 100, 300, 1000, 1023]),
            ];
            if t == Tier::Thorough {
                v.extend([
                    segment_scenes("segments-3x3-k4", 3, 3, 4),
                    segment_scenes("segments-4x4-k3", 4, 4, 3),
                    small_scenes("mixed-k3-all", mixed(), 3),
                    tangles("larger-tangles", 60),
                    disjoint_family("more-disjoint-segments", &[100, 400, 1500]),
                    crowded_points("more-crowded-points", &[7, 18, 35, 70, 150, 250]),
                    crowded_curves("more-crowded-curves", &[7, 17, 35, 80, 130]),
                    hull_family("larger-hulls", &[30_000, 100_000]),
                    large_polygons("still-larger-polygons", &[400]),
                    polygons("larger-polygons", &[16, 20, 30, 40]),
                ]);
            }
            v
        },
    }
}
