//! C22: the JavaScript binding layer of /repo/src/wasm (compiled for the host with a
//! `wasm_bindgen` attribute that does nothing) against the native operations.
#![allow(dead_code)]
pub use rcgal::{algorithm, kernel};

#[path = "../../geo/src/areas.rs"]
mod areas;
#[path = "../../geo/src/common.rs"]
mod common;
#[path = "../../geo/src/curves.rs"]
mod curves;
#[path = "../../geo/src/work.rs"]
mod work;
#[allow(unused_imports)]
mod wasm;

use areas::{polys_upto, structured_all};
use common::*;
use curves::{dist, exact_grid, five_arcs, five_circles, five_segs, fp, i_arc, i_circle, i_seg, mixed, small_arcs, small_circles, small_segs, Curve, F2};
use mccore::Stop;
use rcgal::algorithm as na;
use rcgal::kernel::segment_2::Segment2 as _;
use rcgal::kernel::util_enum::Segment2Type;
use wasm::algorithm as wa;
use wasm::kernel as wk;

type WP = wk::point_2::Point2;
type WS = wk::segment_2::Segment2;

fn wp(p: F2) -> WP {
    WP::new(p.0, p.1)
}
fn w_line(a: F2, b: F2) -> wk::line_segment_2::LineSegment2 {
    wk::line_segment_2::LineSegment2::new(wp(a), wp(b))
}
fn w_circle(m: F2, r: f64) -> wk::circle_segment_2::CircleSegment2 {
    wk::circle_segment_2::CircleSegment2::new(wp(m), r)
}
fn w_arc(m: F2, r: f64, a: f64, b: f64) -> wk::arc_segment_2::ArcSegment2 {
    wk::arc_segment_2::ArcSegment2::new(w_circle(m, r), a, b)
}
/// `extra`: also fill the fields of the other kinds, as a JavaScript caller may
fn w_curve(c: &Curve, extra: bool) -> WS {
    let x = extra;
    let (l, o, a) = (w_line((7.0, 8.0), (9.0, -8.0)), w_circle((1.5, 0.5), 2.5), w_arc((0.5, 0.5), 1.5, 0.1, 2.0));
    match *c {
        Curve::Seg(p, q) => WS::new(Segment2Type::LineSegment2, Some(w_line(p, q)), x.then_some(o), x.then_some(a)),
        Curve::Circle(m, r) => WS::new(Segment2Type::CircleSegment2, x.then_some(l), Some(w_circle(m, r)), x.then_some(a)),
        Curve::Arc(m, r, s, t) => WS::new(Segment2Type::ArcSegment2, x.then_some(l), x.then_some(o), Some(w_arc(m, r, s, t))),
    }
}

fn same_f(label: &str, got: f64, want: f64) -> R {
    ensure!(got.to_bits() == want.to_bits() || got == want || got.is_nan() && want.is_nan(), label, "binding gives {got}, native {want}");
    Ok(())
}
fn same_p(label: &str, got: &WP, want: &Point2<f64>) -> R {
    same_f(label, got.x(), want.x())?;
    same_f(label, got.y(), want.y())
}
fn same_ps(label: &str, got: &[WP], want: &[Point2<f64>]) -> R {
    ensure!(got.len() == want.len(), label, "binding gives {} points, native {}", got.len(), want.len());
    for (g, w) in got.iter().zip(want) {
        same_p(label, g, w)?;
    }
    Ok(())
}
fn same_lines(label: &str, got: &[wk::line_segment_2::LineSegment2], want: &[LineSegment2<f64>]) -> R {
    ensure!(got.len() == want.len(), label, "binding gives {} edges, native {}", got.len(), want.len());
    for (g, w) in got.iter().zip(want) {
        same_p(label, &g.source(), &w.source())?;
        same_p(label, &g.target(), &w.target())?;
        ensure!(g.segment_type() == w.segment_type(), label, "kind {:?}", g.segment_type());
    }
    Ok(())
}
fn same<T: PartialEq + std::fmt::Debug>(label: &str, got: T, want: T) -> R {
    ensure!(got == want, label, "binding gives {got:?}, native {want:?}");
    Ok(())
}
/// Both sides return or both panic.
fn both<A, B>(cx: &mut Cx, label: &str, w: impl FnOnce() -> A, n: impl FnOnce() -> B) -> Result<Option<(A, B)>, Stop> {
    match (cx.call_may_panic(w), cx.call_may_panic(n)) {
        (Some(a), Some(b)) => Ok(Some((a, b))),
        (None, None) => Ok(None),
        (a, _) => fail(label, format!("the binding {}, the native operation {}", if a.is_some() { "returns" } else { "panics" }, if a.is_some() { "panics" } else { "returns" })),
    }
}

fn meet_family(name: &'static str, xs: Vec<Curve>, ys: Vec<Curve>) -> Family {
    family(name, format!("all {} x {} ordered pairs of curves of every kind, as tagged values with and without the other fields filled", xs.len(), ys.len()), move |cx| {
        let a = cx.pick_from(&xs);
        let b = cx.pick_from(&ys);
        let extra = cx.flag();
        cx.note(|| format!("{a:?} and {b:?}, other fields filled={extra}"));
        let (wa_, wb_) = (w_curve(&a, extra), w_curve(&b, extra));
        if let Some((g, w)) = both(cx, "is_segment_2_segment_2_intersected", || wa::intersection::segment_2_segment_2::is_segment_2_segment_2_intersected(&wa_, &wb_), || curves::i_hit::<f64>(&a, &b))? {
            same("is_segment_2_segment_2_intersected", g, w)?;
        }
        if let Some((g, w)) = both(cx, "segment_2_segment_2_intersection", || wa::intersection::segment_2_segment_2::segment_2_segment_2_intersection(&wa_, &wb_), || curves::i_meets::<f64>(&a, &b))? {
            cx.outcome(if w.is_empty() { "no points" } else { "points" });
            same_ps("segment_2_segment_2_intersection", &g, &w)?;
        }
        Ok(())
    })
}

fn sweep_family(name: &'static str, pool: Vec<Curve>, k: usize) -> Family {
    family(name, format!("all {k}-subsets of {} curves of every kind pushed in both orders, asked in between and twice at the end", pool.len()), move |cx| {
        let mut idx = pick_subset(cx, pool.len(), k);
        if cx.flag() {
            idx.reverse();
        }
        cx.note(|| format!("{:?}", idx.iter().map(|i| pool[*i]).collect::<Vec<_>>()));
        let mut w = wa::intersection::sweep_segment_2_intersection::SweepSegment2Intersection::new();
        let mut s = na::intersection::sweep_segment_2_intersection::SweepSegment2Intersection::<f64>::new();
        for (j, i) in idx.iter().enumerate() {
            let t = w_curve(&pool[*i], false);
            cx.call("push_segment", || w.push_segment(&t))?;
            curves::i_push(&mut s, &pool[*i]);
            if j + 1 == k || j == 0 {
                same_ps("sweep", &cx.call("intersection", || w.intersection())?, &s.intersection())?;
            }
        }
        let want = s.intersection();
        cx.outcome(if want.is_empty() { "no points" } else { "points" });
        same_ps("sweep again", &cx.call("intersection", || w.intersection())?, &want)
    })
}

/// larger scenes and point sets
fn large_family(name: &'static str, ns: &'static [usize], strides: &'static [usize]) -> Family {
    family(name, format!("sweeps of {ns:?} curves and hulls of as many points (and rings) that step through small ranges, every combination of four strides out of {strides:?}"), move |cx| {
        let n = cx.pick_from(ns);
        let k: [usize; 4] = std::array::from_fn(|_| cx.pick_from(strides));
        cx.note(|| format!("{n} curves and points in steps of {k:?}"));
        let mut w = wa::intersection::sweep_segment_2_intersection::SweepSegment2Intersection::new();
        let mut s = na::intersection::sweep_segment_2_intersection::SweepSegment2Intersection::<f64>::new();
        for c in curves::modular_curves(n, 11, k) {
            let t = w_curve(&c, false);
            cx.call("push_segment", || w.push_segment(&t))?;
            curves::i_push(&mut s, &c);
        }
        let want = s.intersection();
        cx.outcome(if want.len() > 50 { "over 50 points" } else { "up to 50 points" });
        same_ps("sweep", &cx.call("intersection", || w.intersection())?, &want)?;
        let m = (3 * n + 1) as i64;
        let pts: Vec<P> = (0..n as i64)
            .map(|i| {
                let (x, y) = ((i * k[0] as i64) % m, (i * i * k[1] as i64 + i) % m);
                if k[2] == k[3] { (i, i * i) } else { (x, y) }
            })
            .collect();
        let mut w = wa::convex_hull::convex_hull_2::ConvexHull2::new(pts.iter().map(|p| wp(fp(*p))).collect());
        let mut n = na::convex_hull::convex_hull_2::ConvexHull2::<f64>::new(pts.iter().map(|p| mp(&exact::ID, *p)).collect());
        if let Some((g, x)) = both(cx, "convex_hull", || w.convex_hull(), || n.convex_hull())? {
            cx.outcome(if x.len() > 16 { "hull of more than 16 points" } else { "hull of up to 16 points" });
            same_ps("convex_hull", &g, &x)?;
        }
        Ok(())
    })
}

/// constructors, accessors and point operations of a curve
fn curve_family(name: &'static str, cs: Vec<Curve>, ps: Vec<F2>) -> Family {
    family(name, format!("accessors of {} curves and location and projection of {} points against each", cs.len(), ps.len()), move |cx| {
        let c = cx.pick_from(&cs);
        let p = cx.pick_from(&ps);
        cx.note(|| format!("{c:?} and point {p:?}"));
        curve_case(cx, &c, p)
    })
}
fn curve_case(cx: &mut Cx, c: &Curve, p: F2) -> R {
    let (x, np) = (wp(p), pt::<f64>(p));
    match *c {
        Curve::Seg(a, b) => {
            let (w, n) = (w_line(a, b), i_seg::<f64>(a, b));
            same_lines("accessors", &[w], &[n])?;
            same("is_point_2_on_line_segment_2", cx.call("on", || wa::location::point_2_line_segment_2::is_point_2_on_line_segment_2(&x, &w))?, na::location::point_2_line_segment_2::is_point_2_on_line_segment_2(&np, &n))?;
            let l = na::location::point_2_line_segment_2::locate_point_2_line_segment_2(&np, &n);
            cx.outcome(match l {
                na::location::location_enum::Point2Segment2Location::On => "on",
                _ => "off",
            });
            same("locate_point_2_line_segment_2", cx.call("locate", || wa::location::point_2_line_segment_2::locate_point_2_line_segment_2(&x, &w))?, l)?;
            let g = cx.call("project", || wa::projection::point_2_line_segment_2::point_2_project_line_segment_2(&x, &w))?;
            let n = na::projection::point_2_line_segment_2::point_2_project_line_segment_2(&np, &n);
            same("projection", g.is_some(), n.is_some())?;
            if let (Some(g), Some(n)) = (g, n) {
                same_p("projection", &g, &n)?;
            }
            Ok(())
        }
        Curve::Circle(m, r) => {
            let (w, n) = (w_circle(m, r), i_circle::<f64>(m, r));
            same_p("centre", &w.center(), &n.center())?;
            same_f("radius", w.radius(), n.radius())?;
            same("kind", w.segment_type(), n.segment_type())?;
            same("is_point_2_on_circle_segment_2", cx.call("on", || wa::location::point_2_circle_segment_2::is_point_2_on_circle_segment_2(&x, &w))?, na::location::point_2_circle_segment_2::is_point_2_on_circle_segment_2(&np, &n))?;
            same("locate_point_2_circle_segment_2", cx.call("locate", || wa::location::point_2_circle_segment_2::locate_point_2_circle_segment_2(&x, &w))?, na::location::point_2_circle_segment_2::locate_point_2_circle_segment_2(&np, &n))
        }
        Curve::Arc(m, r, s, t) => {
            let (w, n) = (w_arc(m, r, s, t), i_arc::<f64>(m, r, s, t));
            same_p("centre", &w.center(), &n.center())?;
            same_f("radius", w.radius(), n.radius())?;
            same_p("source", &w.source(), &n.source())?;
            same_p("target", &w.target(), &n.target())?;
            same_f("source angle", w.source_radian(), n.source_radian())?;
            same_f("target angle", w.target_radian(), n.target_radian())?;
            same("kind", w.segment_type(), n.segment_type())?;
            same("is_point_2_on_arc_segment_2", cx.call("on", || wa::location::point_2_arc_segment_2::is_point_2_on_arc_segment_2(&x, &w))?, na::location::point_2_arc_segment_2::is_point_2_on_arc_segment_2(&np, &n))?;
            same("locate_point_2_arc_segment_2", cx.call("locate", || wa::location::point_2_arc_segment_2::locate_point_2_arc_segment_2(&x, &w))?, na::location::point_2_arc_segment_2::locate_point_2_arc_segment_2(&np, &n))
        }
    }
}

/// arcs between multiples of pi/4 starting anywhere within three turns, either way round
fn two_turn_arcs() -> Vec<Curve> {
    let u = std::f64::consts::PI / 4.0;
    (0..24).flat_map(|i| (-2i32..=9).map(move |k| Curve::Arc((0.5, -1.0), 2.0, i as f64 * u, (i as f64 + k as f64) * u))).collect()
}

fn w_poly(v: &[F2]) -> wk::polygon_2::Polygon2 {
    wk::polygon_2::Polygon2::new(v.iter().map(|p| wp(*p)).collect())
}
fn n_poly(v: &[F2]) -> Polygon2<f64> {
    Polygon2::new(v.iter().map(|p| pt(*p)).collect())
}

fn poly_case(cx: &mut Cx, v: &[P], q: P) -> R {
    let v: Vec<F2> = v.iter().map(|p| fp(*p)).collect();
    poly_case_at(cx, &v, fp(q))
}
fn poly_case_at(cx: &mut Cx, v: &[F2], q: F2) -> R {
    let w = w_poly(v);
    let n = n_poly(v);
    same_ps("vertices", &cx.call("vertices", || w.vertices())?, &n.vertices())?;
    same_lines("edges", &cx.call("edges", || w.edges())?, &n.edges())?;
    same_f("area", cx.call("area", || w.area())?, n.area())?;
    if let Some((g, x)) = both(cx, "is_simple", || w.is_simple(), || n.is_simple())? {
        same("is_simple", g, x)?;
    }
    if let Some((g, x)) = both(cx, "is_convex", || w.is_convex(), || n.is_convex())? {
        same("is_convex", g, x)?;
    }
    let (x, np) = (wp(q), pt::<f64>(q));
    if let Some((g, x)) = both(cx, "locate_point_2_polygon_2", || wa::location::point_2_polygon_2::locate_point_2_polygon_2(&x, &w), || na::location::point_2_polygon_2::locate_point_2_polygon_2(&np, &n))? {
        same("locate_point_2_polygon_2", g, x)?;
    }
    if v.len() < 3 {
        return Ok(());
    }
    match both(cx, "earcut", || wa::triangulation::earcut_2::earcut(w_poly(v)), || na::triangulation::earcut_2::earcut_2(n_poly(v)))? {
        Some((g, x)) => {
            cx.outcome("triangulated");
            let g: Vec<Vec<usize>> = g.iter().map(|t| vec![t.a, t.b, t.c]).collect();
            same("earcut", g, x)
        }
        None => {
            cx.outcome("rejected");
            Ok(())
        }
    }
}

fn poly_seq(name: &'static str, w: i64, h: i64, k: usize) -> Family {
    let g = grid(w, h);
    family(name, format!("all sequences of {k} vertices on a {w}x{h} grid (simple or not)"), move |cx| {
        let v: Vec<P> = (0..k).map(|_| cx.pick_from(&g)).collect();
        let q = v.first().copied().unwrap_or((0, 0));
        cx.note(|| format!("{v:?} point {q:?}"));
        poly_case(cx, &v, (q.0, q.1 + 1))
    })
}
fn poly_simple(name: &'static str, polys: Vec<Vec<P>>, q: Vec<P>) -> Family {
    family(name, format!("{} simple polygons with {} points each", polys.len(), q.len()), move |cx| {
        let v = &polys[cx.pick(polys.len())];
        let q = cx.pick_from(&q);
        cx.note(|| format!("{v:?} point {q:?}"));
        poly_case(cx, v, q)
    })
}

/// Lattice points displaced by about the tolerance.
const OFF: [F2; 8] = [(0.0, 0.0), (5e-11, 0.0), (0.0, -9e-11), (6e-11, 6e-11), (8e-11, -8e-11), (-1.5e-10, 0.0), (0.0, 3e-10), (2e-9, -2e-9)];
fn off(p: F2, d: F2) -> F2 {
    (p.0 + d.0, p.1 + d.1)
}
/// curves whose ends, centres and sizes are off by about the tolerance
fn curves_off() -> Vec<Curve> {
    let mut v = vec![];
    for d in OFF {
        v.push(Curve::Seg(off((0.0, 0.0), d), (2.0, 1.0)));
        v.push(Curve::Seg((0.0, 0.0), off((2.0, 0.0), d)));
        v.push(Curve::Seg((1.0, -1.0), off((1.0, 0.0), d)));
        v.push(Curve::Circle(off((0.0, 0.0), d), 1.0));
        v.push(Curve::Circle((2.0, 0.0), 1.0 + d.0));
        v.push(Curve::Arc(off((0.0, 0.0), d), 1.0, d.1, std::f64::consts::PI));
        v.push(Curve::Arc((2.0, 0.0), 1.0 + d.1, 1.0 + d.0, std::f64::consts::PI - d.1));
        v.push(Curve::Arc((0.0, 0.0), 1.0, 1.0, 1.0 + 2.0 * std::f64::consts::PI + d.0 + d.1));
    }
    v
}
fn points_off() -> Vec<F2> {
    let at: [F2; 8] = [(0.0, 0.0), (2.0, 0.0), (1.0, 0.0), (2.0, 1.0), (1.0, 0.5), (0.0, 1.0), (-1.0, 0.0), (1.0, -1.0)];
    at.iter().flat_map(|p| OFF.iter().map(|d| off(*p, *d))).collect()
}
/// polygons with vertices displaced by about the tolerance
fn poly_off(name: &'static str, polys: Vec<Vec<P>>) -> Family {
    family(name, format!("{} lattice polygons with one of their first four vertices displaced by one of {OFF:?}, and every vertex or the middle of every edge, displaced likewise, as the point", polys.len()), move |cx| {
        let lattice = &polys[cx.pick(polys.len())];
        let mut v: Vec<F2> = lattice.iter().map(|p| fp(*p)).collect();
        let i = cx.pick(v.len().min(4));
        v[i] = off(v[i], cx.pick_from(&OFF));
        let j = cx.pick(v.len());
        let (a, b) = (v[j], v[(j + 1) % v.len()]);
        let q = if cx.flag() { a } else { ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0) };
        let q = off(q, cx.pick_from(&OFF));
        cx.note(|| format!("{v:?} point {q:?}"));
        poly_case_at(cx, &v, q)
    })
}
fn hulls_off(name: &'static str, at: &'static [F2], k: usize) -> Family {
    let g: Vec<F2> = at.iter().flat_map(|p| OFF.iter().map(|d| off(*p, *d))).chain([(f64::NAN, 0.0), (0.0, f64::NAN), (f64::INFINITY, 1.0)]).collect();
    family(name, format!("all sequences of {k} points out of {}: lattice points displaced by about the tolerance, not-a-number and infinite coordinates; hull asked twice", g.len()), move |cx| {
        let v: Vec<F2> = (0..k).map(|_| cx.pick_from(&g)).collect();
        cx.note(|| format!("{v:?}"));
        let mut w = wa::convex_hull::convex_hull_2::ConvexHull2::new(v.iter().map(|p| wp(*p)).collect());
        let mut n = na::convex_hull::convex_hull_2::ConvexHull2::<f64>::new(v.iter().map(|p| pt(*p)).collect());
        for _ in 0..2 {
            match both(cx, "convex_hull", || w.convex_hull(), || n.convex_hull())? {
                Some((g, x)) => {
                    cx.outcome("compared");
                    same_ps("convex_hull", &g, &x)?;
                }
                None => {
                    cx.outcome("both panic");
                    return Ok(());
                }
            }
        }
        Ok(())
    })
}
/// point and vector operations on raw coordinates
fn values_off(name: &'static str) -> Family {
    let at: [F2; 6] = [(0.0, 0.0), (1.0, 0.0), (-0.75, 2.0), (1e4, -1e4), (1e-5, 1e-5), (-1.0, -0.0)];
    let odd: [F2; 7] = [(f64::NAN, 0.0), (1.0, f64::NAN), (f64::INFINITY, 1.0), (1.0, f64::NEG_INFINITY), (1e200, -1e200), (1e-300, 0.0), (-0.0, 0.0)];
    let g: Vec<F2> = at.iter().flat_map(|p| OFF.iter().map(|d| off(*p, *d))).chain(odd).collect();
    family(name, format!("all pairs of {} points and vectors: displaced by about the tolerance, huge, tiny, infinite and not-a-number; triples with 5 more points for turns", g.len()), move |cx| {
        let (a, b) = (cx.pick_from(&g), cx.pick_from(&g));
        let c = cx.pick_from(&[(0.0, 0.0), (1.0, 0.0), (2.0, 5e-11), (1e4, 1e-10), (-3.0, -3.0 - 1e-10)]);
        cx.note(|| format!("{a:?} {b:?} {c:?}"));
        value_case(cx, a, b, c)
    })
}
/// the points in which segments of lattice points meet, displaced by about the tolerance
fn projections_off(name: &'static str) -> Family {
    let ends: Vec<F2> = [(0.0, 0.0), (3.0, 1.0), (0.0, 2.0), (-100.0, 50.0), (1e-4, 1e-4)].into();
    family(name, format!("all segments between {ends:?}, and points at multiples of 1/4 of their length, displaced by one of {OFF:?} times 1 or 30: location and projection"), move |cx| {
        let (a, b) = (cx.pick_from(&ends), cx.pick_from(&ends));
        let t = cx.pick(7) as f64 * 0.25 - 0.25;
        let d = cx.pick_from(&OFF);
        let k = if cx.flag() { 30.0 } else { 1.0 };
        let p = off((a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)), (k * d.0, k * d.1));
        cx.note(|| format!("segment {a:?} {b:?} and point {p:?}"));
        curve_case(cx, &Curve::Seg(a, b), p)
    })
}

fn triangles(name: &'static str, w: i64) -> Family {
    let g: Vec<F2> = grid(w, w).into_iter().map(fp).collect();
    family(name, format!("all triangles and points of a {w}x{w} grid"), move |cx| {
        let t: Vec<F2> = (0..3).map(|_| cx.pick_from(&g)).collect();
        let q = cx.pick_from(&g);
        triangle_case(cx, &t, q)
    })
}
fn triangles_off(name: &'static str) -> Family {
    let g: Vec<F2> = [(0.0, 0.0), (2.0, 1.0), (1.0, 2.0)].iter().flat_map(|p| OFF.iter().map(|d| off(*p, *d))).collect();
    let q = [(0.0, 0.0), (1.0, 0.5), (1.0, 1.0), (1.0, 0.5 + 1e-10), (1.0 - 1e-10, 2.0), (2.0 + 7e-11, 1.0)];
    family(name, format!("all triangles of {} lattice points displaced by about the tolerance, and the points {q:?}", g.len()), move |cx| {
        let t: Vec<F2> = (0..3).map(|_| cx.pick_from(&g)).collect();
        let q = cx.pick_from(&q);
        triangle_case(cx, &t, q)
    })
}
fn triangle_case(cx: &mut Cx, t: &[F2], q: F2) -> R {
    cx.note(|| format!("{t:?} point {q:?}"));
    let c: Vec<Point2<f64>> = t.iter().map(|p| pt(*p)).collect();
    let Some((mut w, mut n)) = both(cx, "Triangle2::new", || wk::triangle_2::Triangle2::new(wp(t[0]), wp(t[1]), wp(t[2])), || Triangle2::new(c[0], c[1], c[2]))? else { return Ok(()) };
    for round in 0..2 {
        same_ps("corners", &[w.a(), w.b(), w.c()], &[n.a(), n.b(), n.c()])?;
        same_ps("vertices", &w.vertices(), &n.vertices())?;
        same_lines("edges", &w.edges(), &n.edges())?;
        same("orientation", w.orientation(), n.orientation())?;
        same_f("area", w.area(), n.area())?;
        let (x, np) = (wp(q), pt::<f64>(q));
        if let Some((g, x)) = both(cx, "locate_point_2_triangle_2", || wa::location::point_2_triangle_2::locate_point_2_triangle_2(&x, &w), || na::location::point_2_triangle_2::locate_point_2_triangle_2(&np, &n))? {
            same("locate_point_2_triangle_2", g, x)?;
        }
        if round == 0 {
            w.reverse_orientation();
            n.reverse_orientation();
        }
    }
    cx.outcome("compared");
    Ok(())
}

fn hulls(name: &'static str, w: i64, k: usize) -> Family {
    let g = grid(w, w);
    family(name, format!("all sequences of {k} points of a {w}x{w} grid, hull asked twice"), move |cx| {
        let v: Vec<P> = (0..k).map(|_| cx.pick_from(&g)).collect();
        cx.note(|| format!("{v:?}"));
        let mut w = wa::convex_hull::convex_hull_2::ConvexHull2::new(v.iter().map(|p| wp(fp(*p))).collect());
        let mut n = na::convex_hull::convex_hull_2::ConvexHull2::<f64>::new(v.iter().map(|p| mp(&exact::ID, *p)).collect());
        for _ in 0..2 {
            if let Some((g, x)) = both(cx, "convex_hull", || w.convex_hull(), || n.convex_hull())? {
                same_ps("convex_hull", &g, &x)?;
            }
        }
        cx.outcome("compared");
        Ok(())
    })
}

fn values(name: &'static str, r: i64, scale: f64) -> Family {
    let g: Vec<P> = exact_grid(-r, r);
    family(name, format!("all pairs of points and vectors with components in {scale} * [-{r}, {r}], all triples for turns"), move |cx| {
        let (a, b) = (cx.pick_from(&g), cx.pick_from(&g));
        let c = cx.pick_from(&[(0, 0), (1, 2), (-2, 1), (r, -r)]);
        let s = |p: P| (p.0 as f64 * scale, p.1 as f64 * scale);
        let (a, b, c) = (s(a), s(b), s(c));
        cx.note(|| format!("{a:?} {b:?} {c:?}"));
        value_case(cx, a, b, c)
    })
}
fn value_case(cx: &mut Cx, a: F2, b: F2, c: F2) -> R {
    let (wa_, wb_, wc_) = (wp(a), wp(b), wp(c));
    let (na_, nb_, nc_) = (pt::<f64>(a), pt::<f64>(b), pt::<f64>(c));
    same_p("point", &wa_, &na_)?;
    same("equals", cx.call("equals", || wa_.equals(&wb_))?, na_.equals(&nb_))?;
    same_f("distance", cx.call("distance", || wa_.distance(&wb_))?, na_.distance(&nb_))?;
    same("turn", cx.call("turn", || WP::turn(&wa_, &wb_, &wc_))?, Point2::turn(&na_, &nb_, &nc_))?;
    let (u, v) = (wa_.get_vector(), wk::vector_2::Vector2::new(b.0, b.1));
    let (nu, nv) = (na_.get_vector(), Vector2::new(b.0, b.1));
    for (w, n) in [(&u, &nu), (&v, &nv)] {
        same_f("vector x", w.x(), n.x())?;
        same_f("vector y", w.y(), n.y())?;
        same_f("length", cx.call("length", || w.length())?, n.length())?;
        let (w, n) = (cx.call("normalize", || w.normalize())?, n.normalize());
        same_f("unit x", w.x(), n.x())?;
        same_f("unit y", w.y(), n.y())?;
    }
    same_f("dot", cx.call("dot", || u.dot(&v))?, nu.dot(&nv))?;
    same_f("cross", cx.call("cross", || u.cross(&v))?, nu.cross(&nv))?;
    same_f("radian_to", cx.call("radian_to", || u.radian_to(&v))?, nu.radian_to(&nv))?;
    let d = dist(a, b);
    cx.outcome(if d == 0.0 { "equal points" } else { "different points" });
    Ok(())
}

fn c22() -> Property {
    Property {
        id: "C22",
        explanation: "The sources of the binding layer are compiled for the host with an attribute macro that erases the wasm_bindgen markers; every constructor, accessor and operation is run over exhaustively enumerated arguments and compared bit by bit with the native operation.",
        assumptions: &["the code generated by wasm-bindgen itself (value passing between JavaScript and wasm) is trusted"],
        families: |t| {
            let small = [small_segs(), small_circles(), small_arcs()].concat();
            let five: Vec<Curve> = [five_segs(), five_circles(), five_arcs(3)].concat();
            let deep = t == Tier::Thorough;
            let pts: Vec<F2> = exact_grid(-2, 2).into_iter().map(fp).chain([(0.5, 0.25), (5.0, 0.0), (3.0, 4.0), (-4.0, 3.0)]).collect();
            let mut v = vec![
                meet_family("meets", small.clone(), small.clone()),
                meet_family("meets-five", five.clone(), five.clone()),
                sweep_family("sweeps-3", mixed(), 3),
                large_family("large-scenes", &[12, 24, 40], &[1, 3, 5]),
                curve_family("arcs-two-turns", two_turn_arcs(), pts.clone()),
                curve_family("curves", [small, five.clone()].concat(), pts),
                poly_seq("polygons-0", 3, 3, 0),
                poly_seq("polygons-1", 3, 3, 1),
                poly_seq("polygons-2", 3, 3, 2),
                poly_seq("polygons-3", 3, 3, 3),
                poly_seq("polygons-4", 3, 3, 4),
                poly_seq("polygons-5", 3, 3, 5),
                poly_simple("simple-polygons", [polys_upto(3, 3, 3, 7), structured_all(&[2, 3, 5, 8]).into_iter().map(|x| x.1).collect()].concat(), vec![(1, 1), (0, 0), (2, 1)]),
                triangles("triangles", 3),
                triangles_off("triangles-off"),
                hulls("hulls-4", 3, 4),
                hulls("hulls-5", 3, 5),
                curve_family("curves-off", curves_off(), points_off()),
                meet_family("meets-off", curves_off(), curves_off()),
                projections_off("projections-off"),
                poly_off("polygons-off", [polys_upto(3, 3, 3, 5), structured_all(&[2]).into_iter().map(|x| x.1).collect()].concat()),
                poly_simple("large-polygons", structured_all(&[40, 75]).into_iter().map(|x| x.1).collect(), vec![(1, 1)]),
                hulls_off("hulls-off", &[(0.0, 0.0), (2.0, 1.0), (1.0, 0.5)], 3),
                hulls_off("hulls-off-4", &[(0.0, 0.0)], 4),
                values_off("values-off"),
                values("values", 4, 1.0),
                values("values-scaled", 3, 0.3),
            ];
            if deep {
                v.push(meet_family("meets-all", [five.clone(), mixed()].concat(), [five_arcs(1), five_circles()].concat()));
                v.push(sweep_family("sweeps-4", curves::mixed_small(), 4));
                v.push(poly_seq("polygons-6", 3, 3, 6));
                v.push(poly_simple("simple-polygons-4x3", polys_upto(4, 3, 3, 8), exact_grid(0, 3)));
                v.push(triangles("triangles-5", 5));
                v.push(hulls("hulls-6", 3, 6));
                v.push(values("values-9", 9, 0.7));
            }
            v
        },
    }
}

fn main() {
    mccore::main_with(&[c22()])
}
