//! C08, C09, C13: straight lines, rays and segments: intersections, sides, projections.
use crate::common::*;
use exact::*;
use rcgal::algorithm::intersection::{line_2_line_2::*, line_2_ray_2::*, line_segment_2_ray_2::*};
use rcgal::algorithm::location::{location_enum::*, point_2_line_2::*, point_2_line_segment_2::*, point_2_ray_2::*};
use rcgal::algorithm::projection::{point_2_line_2::*, point_2_line_segment_2::*};

/// The same line handed over in different ways.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LineForm {
    Points,
    Reversed,
    /// integer coefficients computed from the mapped points
    Coefficients,
    /// the negated coefficients, halved
    Halved,
    /// the integer coefficients times a small and a large power of two
    Tiny,
    Huge,
}
const FORMS: &[LineForm] = &[LineForm::Points, LineForm::Reversed, LineForm::Coefficients, LineForm::Halved, LineForm::Tiny, LineForm::Huge];
const SCALED: &[LineForm] = &[LineForm::Points, LineForm::Tiny, LineForm::Huge];
const TWO_FORMS: &[LineForm] = &[LineForm::Points, LineForm::Coefficients];

/// 2^-40
const TINY: f64 = 1.0 / 1099511627776.0;

pub fn line<T: Num>(m: &Map, p: P, q: P, form: LineForm) -> Line2<T> {
    let ((x1, y1), (x2, y2)) = (m.p(p), m.p(q));
    let (a, b) = (y1 - y2, x2 - x1);
    let c = -(a * x1 + b * y1);
    match form {
        LineForm::Points => Line2::from_points(&mp(m, p), &mp(m, q)),
        LineForm::Reversed => Line2::from_points(&mp(m, q), &mp(m, p)),
        LineForm::Coefficients => Line2::new(n(a), n(b), n(c)),
        LineForm::Halved => Line2::new(n(-a / 2.0), n(-b / 2.0), n(-c / 2.0)),
        LineForm::Tiny => Line2::new(n(a * TINY), n(b * TINY), n(c * TINY)),
        LineForm::Huge => Line2::new(n(-a / TINY), n(-b / TINY), n(-c / TINY)),
    }
}
/// ray from o in the direction of d (both lattice vectors), mapped
pub fn ray<T: Num>(m: &Map, o: P, d: P) -> Ray2<T> {
    ray_len(m, o, d, 1.0)
}
/// the same with its direction vector scaled by a power of two
fn ray_len<T: Num>(m: &Map, o: P, d: P, len: f64) -> Ray2<T> {
    let (dx, dy) = (m.a * d.0 as f64 + m.b * d.1 as f64, m.c * d.0 as f64 + m.d * d.1 as f64);
    Ray2::new(mp(m, o), Vector2::new(n(dx * len), n(dy * len)))
}
fn directions(r: i64) -> Vec<P> {
    let mut v: Vec<P> = (-r..=r).flat_map(|y| (-r..=r).map(move |x| (x, y))).filter(|p| *p != (0, 0)).collect();
    v.sort_by_key(|p| (p.0.abs() + p.1.abs(), *p));
    v
}
fn add(a: P, b: P) -> P {
    (a.0 + b.0, a.1 + b.1)
}
fn tol<T: Num>(m: &Map) -> f64 {
    let s = m.a.abs().max(m.b.abs()).max(m.c.abs()).max(m.d.abs()).max(m.e.abs()).max(m.f.abs()).max(1.0);
    if T::NAME == "f32" {
        2e-5 * s
    } else if m.fine() {
        2e-11
    } else if m.scale() < 1e-6 && m.a.abs() < 1e-6 {
        5e-8
    } else {
        1e-8 * s
    }
}
/// tolerance for a point at w: in clusters lines meet at small angles, far away
fn tol_at<T: Num>(m: &Map, w: Option<(f64, f64)>) -> f64 {
    let d = w.map_or(0.0, |w| w.0.abs().max(w.1.abs()));
    tol::<T>(m) + if m.scale() < 1e-6 && !m.fine() { 1e-12 * d * d } else { 0.0 }
}
fn near(a: (f64, f64), b: (f64, f64), t: f64) -> bool {
    (a.0 - b.0).abs() <= t && (a.1 - b.1).abs() <= t
}

/// common point of the lines through p,q and r,s
fn cross_lines(p: P, q: P, r: P, s: P) -> Option<QP> {
    let (d, e) = (sub(q, p), sub(s, r));
    let den = cross(d, e);
    if den == 0 {
        return None;
    }
    let t = Q::new(cross(sub(r, p), e), den);
    Some((Q::int(p.0).add(Q::int(d.0).mul(t)), Q::int(p.1).add(Q::int(d.1).mul(t))))
}
/// is the common point of the line p q and the line of the ray on the ray?
fn ahead(p: P, q: P, o: P, d: P) -> bool {
    let l = sub(q, p);
    let den = cross(l, d);
    let num = cross(sub(o, p), d);
    (dot(sub(p, o), d) * den + dot(l, d) * num) * den.signum() >= 0
}
/// is the common point of the line p q and the line of the ray between p and q?
fn between(p: P, q: P, o: P, d: P) -> bool {
    let den = cross(sub(q, p), d);
    let num = cross(sub(o, p), d) * den.signum();
    num >= 0 && num <= den.abs()
}
fn on_ray(p: P, o: P, d: P) -> bool {
    let v = sub(p, o);
    cross(d, v) == 0 && dot(d, v) >= 0
}

fn opt_point<T: Num>(label: &str, got: Option<Point2<T>>, want: Option<(f64, f64)>, t: f64) -> R {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => {
            ensure!(near(xy(&g), w, t), label, "got {:?}, want {w:?}", xy(&g));
            Ok(())
        }
        (g, w) => fail(label, format!("got {:?}, want {w:?}", g.map(|g| xy(&g)))),
    }
}

fn line_line<T: Num>(cx: &mut Cx, g: &[P], maps: &[Map], forms: &[LineForm]) -> R {
    let m = cx.pick_from(maps);
    let fa = cx.pick_from(forms);
    let fb = cx.pick_from(forms);
    let (p, q) = (cx.pick_from(g), cx.pick_from(g));
    if p == q || too_short(&m, p, q) || taken_for_upright(&m, p, q) {
        return Err(mccore::Stop::Prune);
    }
    let (r, s) = (cx.pick_from(g), cx.pick_from(g));
    if r == s || too_short(&m, r, s) || taken_for_upright(&m, r, s) || unclear(&m, &[p, q, r, s]) || barely_parallel(&m, sub(q, p), sub(s, r)) {
        return Err(mccore::Stop::Prune);
    }
    cx.note(|| format!("{} map={} line {p:?}-{q:?} as {fa:?} and line {r:?}-{s:?} as {fb:?}", T::NAME, m.name));
    let (a, b) = (line::<T>(&m, p, q, fa), line::<T>(&m, r, s, fb));
    let want = cross_lines(p, q, r, s).map(|x| m.q(x));
    cx.outcome(if want.is_some() { "crossing" } else { "parallel" });
    let got = cx.call("line_2_line_2_intersection", || line_2_line_2_intersection(&a, &b))?;
    let hit = cx.call("is_line_2_line_2_intersected", || is_line_2_line_2_intersected(&a, &b))?;
    ensure!(hit == want.is_some(), "predicate", "intersected={hit}, want {want:?}");
    opt_point("point", got, want, tol_at::<T>(&m, want))
}

fn line_ray<T: Num>(cx: &mut Cx, g: &[P], os: &[P], ds: &[P], maps: &[Map], forms: &[LineForm]) -> R {
    let m = cx.pick_from(maps);
    let f = cx.pick_from(forms);
    let (p, q) = (cx.pick_from(g), cx.pick_from(g));
    if p == q || too_short(&m, p, q) || taken_for_upright(&m, p, q) {
        return Err(mccore::Stop::Prune);
    }
    let o = cx.pick_from(os);
    let d = cx.pick_from(ds);
    if unclear(&m, &[p, q, o, add(o, d)]) || barely_parallel(&m, sub(q, p), d) {
        return Err(mccore::Stop::Prune);
    }
    let len = cx.pick_from(&lens::<T>(&m));
    cx.note(|| format!("{} map={} line {p:?}-{q:?} as {f:?}, ray from {o:?} along {d:?} scaled by {len:e}", T::NAME, m.name));
    let l = line::<T>(&m, p, q, f);
    let r = ray_len::<T>(&m, o, d, len);
    let c = cross_lines(p, q, o, add(o, d));
    cx.outcome(match c {
        None => "parallel",
        Some(x) if x == qp(o) => "at the origin",
        Some(_) if ahead(p, q, o, d) => "ahead",
        _ => "behind",
    });
    let want = c.filter(|_| ahead(p, q, o, d)).map(|x| m.q(x));
    let got = cx.call("line_2_ray_2_intersection", || line_2_ray_2_intersection(&l, &r))?;
    let hit = cx.call("is_line_2_ray_2_intersected", || is_line_2_ray_2_intersected(&l, &r))?;
    ensure!(hit == want.is_some(), "predicate", "intersected={hit}, want {want:?}");
    opt_point("point", got, want, tol_at::<T>(&m, want))
}

fn seg_ray<T: Num>(cx: &mut Cx, g: &[P], os: &[P], ds: &[P], maps: &[Map]) -> R {
    let m = cx.pick_from(maps);
    let (p, q) = (cx.pick_from(g), cx.pick_from(g));
    if p == q || too_short(&m, p, q) {
        return Err(mccore::Stop::Prune);
    }
    let o = cx.pick_from(os);
    let d = cx.pick_from(ds);
    if unclear(&m, &[p, q, o, add(o, d)]) || barely_parallel(&m, sub(q, p), d) {
        return Err(mccore::Stop::Prune);
    }
    let len = cx.pick_from(&lens::<T>(&m));
    cx.note(|| format!("{} map={} segment {p:?}-{q:?}, ray from {o:?} along {d:?} scaled by {len:e}", T::NAME, m.name));
    let s = seg::<T>(&m, (p, q));
    let r = ray_len::<T>(&m, o, d, len);
    let mut want: Vec<(f64, f64)> = vec![];
    let touch;
    match cross_lines(p, q, o, add(o, d)) {
        Some(x) => {
            touch = between(p, q, o, d) && ahead(p, q, o, d);
            if touch {
                want.push(m.q(x));
            }
            cx.outcome(if touch { "crossing" } else { "apart" });
        }
        None => {
            for e in [p, q] {
                if on_ray(e, o, d) {
                    want.push(m.p(e));
                }
            }
            touch = !want.is_empty();
            cx.outcome(match want.len() {
                0 => "parallel apart",
                1 => "along, one end",
                _ => "along, both ends",
            });
        }
    }
    let got = cx.call("line_segment_2_ray_2_intersection", || line_segment_2_ray_2_intersection(&s, &r))?;
    let hit = cx.call("is_line_segment_2_ray_2_intersected", || is_line_segment_2_ray_2_intersected(&s, &r))?;
    check_points("points", &got, &want, tol::<T>(&m))?;
    ensure!(hit == touch, "predicate", "intersected={hit}, contact={touch}");
    Ok(())
}

/// lengths of direction vectors: as given, very short (but above the tolerance), very long
fn lens<T: Num>(m: &Map) -> [f64; 3] {
    if m.scale() < 0.01 {
        return [1.0, 1.0 / 16.0, 65536.0];
    }
    if T::NAME == "f32" {
        [1.0, 1.0 / 65536.0, 65536.0]
    } else {
        [1.0, 1.0 / 536870912.0, 536870912.0]
    }
}

fn near_directions() -> Vec<P> {
    let u = NEAR_UNIT;
    vec![(u, 0), (u, 1), (u, -1), (-u, 0), (0, u), (1, u), (0, -u), (-1, -u), (u, u), (u, u + 1), (-u, -u), (u, -u), (2 * u, u), (2 * u, u - 1)]
}

const EXACT: &[Map] = &[ID, EIGHTH, HALF_NEG, ROT34, MIRROR];
const LINE_MAPS: &[Map] = &[ID, EIGHTH, HALF_NEG, X12, FAR, ROT34, SHEAR, MIRROR, TENTH, ROT_IRR];
const F32_MAPS: &[Map] = &[ID, EIGHTH];
const ONE: &[Map] = &[ID];

pub fn c08() -> Property {
    Property {
        id: "C08",
        explanation: "Every pair of lines through lattice points (in six coefficient forms), every line and ray, and every segment and ray of a small lattice, mapped to several coordinate systems, is intersected on the real code and compared with exact rational arithmetic.",
        assumptions: &[
            "segments have positive length, ray directions and line normals are not zero",
            "two segments touching a ray only inside the collinear overlap that contains no segment end on the ray cannot occur (the ray is unbounded ahead)",
        ],
        families: |t| {
            let deep = t == Tier::Thorough;
            let g3 = grid(3, 3);
            let g4 = grid(4, 4);
            let g5 = grid(5, 5);
            let mut v = vec![];
            let g = g3.clone();
            v.push(family("line-line-3x3", "4 points of a 3x3 lattice x 6x6 forms x 10 maps", move |cx| line_line::<f64>(cx, &g, LINE_MAPS, FORMS)));
            let g = g4.clone();
            v.push(family("line-line-4x4", "4 points of a 4x4 lattice x 2x2 forms x 5 maps", move |cx| line_line::<f64>(cx, &g, EXACT, TWO_FORMS)));
            let g = g3.clone();
            v.push(family("line-line-f32", "4 points of a 3x3 lattice x 3x3 forms, f32", move |cx| line_line::<f32>(cx, &g, F32_MAPS, SCALED)));
            let (g, o, d) = (g3.clone(), g3.clone(), directions(2));
            v.push(family("line-ray-3x3", "line through 2 points of 3x3, origin in 3x3, 24 directions of 3 lengths, 3 forms, 10 maps", move |cx| {
                line_ray::<f64>(cx, &g, &o, &d, LINE_MAPS, SCALED)
            }));
            let (g, o, d) = (g3.clone(), g3.clone(), directions(1));
            v.push(family("line-ray-f32", "line through 2 points of 3x3, origin in 3x3, 8 directions of 3 lengths, f32", move |cx| {
                line_ray::<f32>(cx, &g, &o, &d, F32_MAPS, TWO_FORMS)
            }));
            let (g, o, d) = (g3.clone(), g5.iter().map(|p| (p.0 - 1, p.1 - 1)).collect::<Vec<_>>(), directions(2));
            v.push(family("segment-ray-3x3", "segment of 3x3, origin in the surrounding 5x5, 24 directions of 3 lengths, 10 maps", move |cx| {
                seg_ray::<f64>(cx, &g, &o, &d, LINE_MAPS)
            }));
            let (g, o, d) = (g3.clone(), g3.clone(), directions(1));
            v.push(family("segment-ray-f32", "segment of 3x3, origin in 3x3, 8 directions of 3 lengths, f32", move |cx| seg_ray::<f32>(cx, &g, &o, &d, F32_MAPS)));
            let g = g3.clone();
            v.push(family("line-line-wide", "4 points of a 3x3 lattice x 2x2 forms x 15 small, large and slightly turned maps", move |cx| line_line::<f64>(cx, &g, WIDE, TWO_FORMS)));
            let (g, o, d) = (g3.clone(), g3.clone(), directions(2));
            v.push(family("line-ray-wide", "line through 2 points of 3x3, origin in 3x3, 24 directions of 3 lengths, 2 forms, 15 small, large and slightly turned maps", move |cx| line_ray::<f64>(cx, &g, &o, &d, WIDE, TWO_FORMS)));
            let (g, o, d) = (g3.clone(), g3.clone(), directions(2));
            v.push(family("segment-ray-wide", "segment of 3x3, origin in 3x3, 24 directions of 3 lengths, 15 small, large and slightly turned maps", move |cx| seg_ray::<f64>(cx, &g, &o, &d, WIDE)));
            let g = clusters(&grid(3, 3), OFFSETS2);
            v.push(family("line-line-near", "4 points of a 3x3 lattice or 2.4e-7 beside one x 2x2 forms x 2 maps", move |cx| line_line::<f64>(cx, &g, NEARS, TWO_FORMS)));
            let (g, d) = (clusters(&grid(3, 2), OFFSETS3), near_directions());
            v.push(family("line-ray-near", "line through 2 points of a 3x2 lattice or 2.4e-7 beside one, origin likewise, 14 directions of 3 lengths, 2 forms, 2 maps", move |cx| line_ray::<f64>(cx, &g, &g, &d, NEARS, TWO_FORMS)));
            let g = clusters_at(64, &grid(2, 2), OFFSETS3);
            v.push(family("line-line-slanted", "4 points of a lattice of spacing 64 or 1 beside one x 2x2 forms x 3 maps turning by less than the tolerance per unit", move |cx| line_line::<f64>(cx, &g, SLANTED, TWO_FORMS)));
            let (g, d) = (clusters_at(64, &grid(2, 2), OFFSETS3), directions(2));
            v.push(family("line-ray-slanted", "line through 2 points of a lattice of spacing 64 or 1 beside one, origin likewise, 24 directions of 3 lengths, 2 forms, 3 maps turning by less than the tolerance per unit", move |cx| line_ray::<f64>(cx, &g, &g, &d, SLANTED, TWO_FORMS)));
            let (g, d) = (clusters_at(64, &grid(2, 2), OFFSETS3), directions(2));
            v.push(family("segment-ray-slanted", "segment between 2 points of a lattice of spacing 64 or 1 beside one, origin likewise, 24 directions of 3 lengths, 3 maps turning by less than the tolerance per unit", move |cx| seg_ray::<f64>(cx, &g, &g, &d, SLANTED)));
            let (g, d) = (clusters(&grid(3, 2), OFFSETS3), near_directions());
            v.push(family("segment-ray-near", "segment between 2 points of a 3x2 lattice or 2.4e-7 beside one, origin likewise, 14 directions of 3 lengths, 2 maps", move |cx| seg_ray::<f64>(cx, &g, &g, &d, NEARS)));
            {
                let g = g4.clone();
                v.push(family("line-line-4x4-all", "4 points of 4x4 x 6x6 forms x 10 maps", move |cx| line_line::<f64>(cx, &g, LINE_MAPS, FORMS)));
                let g = g5.clone();
                v.push(family("line-line-5x5", "4 points of a 5x5 lattice x 2x2 forms x 1 map", move |cx| line_line::<f64>(cx, &g, ONE, TWO_FORMS)));
                let (g, o, d) = (g4.clone(), g5.clone(), directions(3));
                v.push(family("line-ray-4x4", "line of 4x4, origin in 5x5, 48 directions of 3 lengths, 2 forms, 5 maps", move |cx| line_ray::<f64>(cx, &g, &o, &d, EXACT, TWO_FORMS)));
                let (g, o, d) = (g4.clone(), g5.clone(), directions(3));
                v.push(family("segment-ray-4x4", "segment of 4x4, origin in 5x5, 48 directions of 3 lengths, 10 maps", move |cx| seg_ray::<f64>(cx, &g, &o, &d, LINE_MAPS)));
            }
            if deep {
                let g = g5.clone();
                v.push(family("line-line-5x5-all", "4 points of 5x5 x 6x6 forms x 10 maps", move |cx| line_line::<f64>(cx, &g, LINE_MAPS, FORMS)));
                let g = grid(6, 5);
                v.push(family("line-line-6x5-f32", "4 points of 6x5 x 3x3 forms x exact maps, f32", move |cx| line_line::<f32>(cx, &g, F32_MAPS, SCALED)));
                let (g, o, d) = (g5.clone(), grid(6, 6), directions(4));
                v.push(family("line-ray-5x5", "line of 5x5, origin in 6x6, 80 directions of 3 lengths, 3 forms, 10 maps", move |cx| line_ray::<f64>(cx, &g, &o, &d, LINE_MAPS, SCALED)));
                let (g, o, d) = (grid(6, 6), grid(6, 6), directions(4));
                v.push(family("segment-ray-6x6", "segment of 6x6, origin in 6x6, 80 directions of 3 lengths, 10 maps", move |cx| seg_ray::<f64>(cx, &g, &o, &d, LINE_MAPS)));
                let (g, o, d) = (g4.clone(), g4.clone(), directions(3));
                v.push(family("segment-ray-4x4-wide", "segment of 4x4, origin in 4x4, 48 directions of 3 lengths, 15 small, large and slightly turned maps", move |cx| seg_ray::<f64>(cx, &g, &o, &d, WIDE)));
            }
            v
        },
    }
}

fn flip(m: &Map, o: i128) -> i128 {
    if m.flips() {
        -o
    } else {
        o
    }
}

fn loc_seg<T: Num>(cx: &mut Cx, g: &[P], maps: &[Map]) -> R {
    use Point2Segment2Location::*;
    let m = cx.pick_from(maps);
    let (a, b, p) = (cx.pick_from(g), cx.pick_from(g), cx.pick_from(g));
    if a != b && too_short(&m, a, b) || unclear(&m, &[a, b, p]) {
        return Err(mccore::Stop::Prune);
    }
    cx.note(|| format!("{} map={} segment {a:?}-{b:?} point {p:?}", T::NAME, m.name));
    let s = seg::<T>(&m, (a, b));
    let r = seg::<T>(&m, (b, a));
    let x = mp::<T>(&m.aside(), p);
    let got = cx.call("locate_point_2_line_segment_2", || locate_point_2_line_segment_2(&x, &s))?;
    let back = cx.call("locate_point_2_line_segment_2 (reversed)", || locate_point_2_line_segment_2(&x, &r))?;
    let is = cx.call("is_point_2_on_line_segment_2", || is_point_2_on_line_segment_2(&x, &s))?;
    let on = on_seg(p, a, b);
    ensure!(is == on, "is_on", "is_on={is}, want {on}");
    if a == b {
        cx.outcome("zero-length segment");
        ensure!((got == On) == on, "zero", "located {got:?}, on={on}");
        return Ok(());
    }
    let o = flip(&m, orient(a, b, p));
    let want = if on {
        On
    } else if o > 0 {
        Left
    } else if o < 0 {
        Right
    } else {
        Collinear
    };
    cx.outcome(match want {
        On => "on",
        Left => "left",
        Right => "right",
        Collinear => "collinear",
    });
    ensure!(got == want, "location", "located {got:?}, want {want:?}");
    let wback = match want {
        Left => Right,
        Right => Left,
        w => w,
    };
    ensure!(back == wback, "reversed", "located {back:?} on the reversed segment, want {wback:?}");
    Ok(())
}

fn loc_ray<T: Num>(cx: &mut Cx, g: &[P], ds: &[P], maps: &[Map]) -> R {
    use Point2Ray2Location::*;
    let m = cx.pick_from(maps);
    let (o, d, p) = (cx.pick_from(g), cx.pick_from(ds), cx.pick_from(g));
    if unclear(&m, &[o, add(o, d), p]) {
        return Err(mccore::Stop::Prune);
    }
    let len = cx.pick_from(&lens::<T>(&m));
    cx.note(|| format!("{} map={} ray from {o:?} along {d:?} scaled by {len:e} point {p:?}", T::NAME, m.name));
    let r = ray_len::<T>(&m, o, d, len);
    let x = mp::<T>(&m.aside(), p);
    let got = cx.call("locate_point_2_ray_2", || locate_point_2_ray_2(&x, &r))?;
    let is = cx.call("is_point_2_on_ray_2", || is_point_2_on_ray_2(&x, &r))?;
    let c = flip(&m, cross(d, sub(p, o)));
    let want = if on_ray(p, o, d) {
        On
    } else if c > 0 {
        Left
    } else if c < 0 {
        Right
    } else {
        Collinear
    };
    cx.outcome(match want {
        On => "on",
        Left => "left",
        Right => "right",
        Collinear => "behind",
    });
    ensure!(got == want, "location", "located {got:?}, want {want:?}");
    ensure!(is == (want == On), "is_on", "is_on={is}, want {want:?}");
    Ok(())
}

fn loc_line<T: Num>(cx: &mut Cx, g: &[P], maps: &[Map], forms: &[LineForm]) -> R {
    let m = cx.pick_from(maps);
    let f = cx.pick_from(forms);
    let (a, b, p) = (cx.pick_from(g), cx.pick_from(g), cx.pick_from(g));
    if a == b || too_short(&m, a, b) || taken_for_upright(&m, a, b) || unclear(&m, &[a, b, p]) {
        return Err(mccore::Stop::Prune);
    }
    cx.note(|| format!("{} map={} line {a:?}-{b:?} as {f:?} point {p:?}", T::NAME, m.name));
    let l = line::<T>(&m, a, b, f);
    let x = mp::<T>(&m.aside(), p);
    let got = cx.call("locate_point_2_line_2", || locate_point_2_line_2(&x, &l))?;
    let is = cx.call("is_point_2_on_line_2", || is_point_2_on_line_2(&x, &l))?;
    let on = orient(a, b, p) == 0;
    cx.outcome(if on { "on" } else { "not on" });
    ensure!((got == Point2Line2Location::On) == on, "location", "located {got:?}, on={on}");
    ensure!(is == on, "is_on", "is_on={is}, on={on}");
    Ok(())
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        explanation: "Every point against every segment (zero-length ones included), ray and line of a small lattice, mapped to several coordinate systems, is located on the real code and compared with the exact side.",
        assumptions: &["f32 is explored on coordinate systems whose lattice coordinates keep the rounding error below its tolerance"],
        families: |t| {
            let deep = t == Tier::Thorough;
            let g5 = grid(5, 5);
            let g4 = grid(4, 4);
            let g3 = grid(3, 3);
            let mut v = vec![];
            let g = g5.clone();
            v.push(family("segment-5x5", "3 points of 5x5 x 10 maps", move |cx| loc_seg::<f64>(cx, &g, LINE_MAPS)));
            let g = g5.clone();
            v.push(family("segment-5x5-f32", "3 points of 5x5 x exact maps, f32", move |cx| loc_seg::<f32>(cx, &g, EXACT)));
            let (g, d) = (g5.clone(), directions(3));
            v.push(family("ray-5x5", "origin and point of 5x5, 48 directions of 3 lengths, 10 maps", move |cx| loc_ray::<f64>(cx, &g, &d, LINE_MAPS)));
            let (g, d) = (g3.clone(), directions(2));
            v.push(family("ray-3x3-f32", "origin and point of 3x3, 24 directions of 3 lengths, f32", move |cx| loc_ray::<f32>(cx, &g, &d, F32_MAPS)));
            let g = g5.clone();
            v.push(family("line-5x5", "3 points of 5x5 x 6 forms x 10 maps", move |cx| loc_line::<f64>(cx, &g, LINE_MAPS, FORMS)));
            let g = g3.clone();
            v.push(family("line-3x3-f32", "3 points of 3x3 x 6 forms, f32", move |cx| loc_line::<f32>(cx, &g, F32_MAPS, FORMS)));
            let g = g4.clone();
            v.push(family("segment-4x4-wide", "3 points of 4x4 x 15 small, large and slightly turned maps", move |cx| loc_seg::<f64>(cx, &g, WIDE)));
            let (g, d) = (g4.clone(), directions(2));
            v.push(family("ray-4x4-wide", "origin and point of 4x4, 24 directions of 3 lengths, 15 small, large and slightly turned maps", move |cx| loc_ray::<f64>(cx, &g, &d, WIDE)));
            let g = g4;
            v.push(family("line-4x4-wide", "3 points of 4x4 x 6 forms x 15 small, large and slightly turned maps", move |cx| loc_line::<f64>(cx, &g, WIDE, FORMS)));
            let g = clusters(&grid(3, 3), OFFSETS5);
            v.push(family("segment-near", "3 points of a 3x3 lattice or 2.4e-7 beside one x 2 maps", move |cx| loc_seg::<f64>(cx, &g, NEARS)));
            let (g, d) = (clusters(&grid(3, 3), OFFSETS5), near_directions());
            v.push(family("ray-near", "origin and point of a 3x3 lattice or 2.4e-7 beside one, 14 directions of 3 lengths, 2 maps", move |cx| loc_ray::<f64>(cx, &g, &d, NEARS)));
            let g = clusters(&grid(3, 3), OFFSETS5);
            v.push(family("line-near", "3 points of a 3x3 lattice or 2.4e-7 beside one x 6 forms x 2 maps", move |cx| loc_line::<f64>(cx, &g, NEARS, FORMS)));
            let g = clusters_at(64, &grid(3, 3), OFFSETS3);
            v.push(family("segment-slanted", "3 points of a lattice of spacing 64 or 1 beside one x 3 maps turning by less than the tolerance per unit", move |cx| loc_seg::<f64>(cx, &g, SLANTED)));
            let (g, d) = (clusters_at(64, &grid(3, 3), OFFSETS3), directions(2));
            v.push(family("ray-slanted", "origin and point of a lattice of spacing 64 or 1 beside one, 24 directions of 3 lengths, 3 maps turning by less than the tolerance per unit", move |cx| loc_ray::<f64>(cx, &g, &d, SLANTED)));
            let g = clusters_at(64, &grid(3, 3), OFFSETS3);
            v.push(family("line-slanted", "3 points of a lattice of spacing 64 or 1 beside one x 6 forms x 3 maps turning by less than the tolerance per unit", move |cx| loc_line::<f64>(cx, &g, SLANTED, FORMS)));
            let g = clusters_at(CRISPS.unit, &grid(3, 3), OFFSETS5);
            v.push(family("segment-crisp", "3 points of a lattice of spacing 512 or 1.5e-8 beside one x 2 maps", move |cx| loc_seg::<f64>(cx, &g, CRISPS.maps)));
            let (g, d) = (clusters_at(CRISPS.unit, &grid(3, 3), OFFSETS5), clusters_at(CRISPS.unit, &directions(1), OFFSETS3));
            v.push(family("ray-crisp", "origin and point of a lattice of spacing 512 or 1.5e-8 beside one, 24 directions of 3 lengths, 2 maps", move |cx| loc_ray::<f64>(cx, &g, &d, CRISPS.maps)));
            let g = clusters_at(CRISPS.unit, &grid(3, 3), OFFSETS5);
            v.push(family("line-crisp", "3 points of a lattice of spacing 512 or 1.5e-8 beside one x 6 forms x 2 maps", move |cx| loc_line::<f64>(cx, &g, CRISPS.maps, FORMS)));
            {
                let g = grid(9, 8);
                v.push(family("segment-9x8", "3 points of 9x8 x 10 maps", move |cx| loc_seg::<f64>(cx, &g, LINE_MAPS)));
                let g = grid(9, 8);
                v.push(family("segment-9x8-f32", "3 points of 9x8, f32", move |cx| loc_seg::<f32>(cx, &g, EXACT)));
                let (g, d) = (grid(9, 8), directions(5));
                v.push(family("ray-9x8", "origin and point of 9x8, 120 directions, 10 maps", move |cx| loc_ray::<f64>(cx, &g, &d, LINE_MAPS)));
                let g = grid(9, 8);
                v.push(family("line-9x8", "3 points of 9x8 x 6 forms x 10 maps", move |cx| loc_line::<f64>(cx, &g, LINE_MAPS, FORMS)));
            }
            if deep {
                let g = grid(16, 16);
                v.push(family("segment-16x16", "3 points of 16x16 x 10 maps", move |cx| loc_seg::<f64>(cx, &g, LINE_MAPS)));
                let g = grid(12, 12);
                v.push(family("segment-12x12-wide", "3 points of 12x12 x 11 small, large and slightly turned maps", move |cx| loc_seg::<f64>(cx, &g, STIFF)));
                let (g, d) = (grid(12, 12), directions(9));
                v.push(family("ray-12x12", "origin and point of 12x12, 360 directions, 10 maps", move |cx| loc_ray::<f64>(cx, &g, &d, LINE_MAPS)));
                let g = grid(14, 12);
                v.push(family("line-14x12", "3 points of 14x12 x 6 forms x 10 maps", move |cx| loc_line::<f64>(cx, &g, LINE_MAPS, FORMS)));
            }
            v
        },
    }
}

/// foot of the perpendicular from p on the line a b, with its parameter
fn foot(p: P, a: P, b: P) -> (QP, Q) {
    let v = sub(b, a);
    let t = Q::new(dot(sub(p, a), v), dot(v, v));
    ((Q::int(a.0).add(Q::int(v.0).mul(t)), Q::int(a.1).add(Q::int(v.1).mul(t))), t)
}

fn project<T: Num>(cx: &mut Cx, g: &[P], maps: &[Map], forms: &[LineForm]) -> R {
    let m = cx.pick_from(maps);
    let (a, b, p) = (cx.pick_from(g), cx.pick_from(g), cx.pick_from(g));
    if a == b || too_short(&m, a, b) || unclear(&m, &[a, b, p]) {
        return Err(mccore::Stop::Prune);
    }
    cx.note(|| format!("{} map={} line/segment {a:?}-{b:?} point {p:?}", T::NAME, m.name));
    let (f, t) = foot(p, a, b);
    let (v, len) = (sub(b, a), (dot(sub(b, a), sub(b, a)) as f64).sqrt());
    if m.scale() < 1e-6 && [a, b].iter().any(|e| matches!(dot(sub(p, *e), v).abs() as f64 / len, x if x > 0.0 && x < 0.02)) {
        return Err(mccore::Stop::Prune);
    }
    let want = m.q(f);
    let x = mp::<T>(&m.aside(), p);
    // lines and segments from one cluster to another are known much better than those within one
    let tol = if m.scale() < 1e-6 && m.a.abs() < 1e-6 && !m.fine() && !exact::same_cluster(a, b) { 2e-9 } else { tol::<T>(&m) };
    let slanted = SLANTED.iter().any(|s| s.name == m.name);
    let tol = if slanted { 5e-10 } else { tol };
    for form in forms.iter().filter(|_| !taken_for_upright(&m, a, b)) {
        let l = line::<T>(&m, a, b, *form);
        let got = cx.call("point_2_project_line_2", || point_2_project_line_2(&x, &l))?;
        ensure!(near(xy(&got), want, tol), "line", "foot {:?} on the line as {form:?}, want {want:?}", xy(&got));
    }
    let inside = t >= Q::int(0) && t <= Q::int(1);
    cx.outcome(if t == Q::int(0) || t == Q::int(1) {
        "foot at an end"
    } else if inside {
        "foot within"
    } else {
        "foot beyond"
    });
    let s = seg::<T>(&m, (a, b));
    let got = cx.call("point_2_project_line_segment_2", || point_2_project_line_segment_2(&x, &s))?;
    opt_point("segment", got, inside.then_some(want), tol)
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        explanation: "Every point projected on every line (in six coefficient forms) and segment of a lattice, mapped by similarities, compared with the exact foot of the perpendicular.",
        assumptions: &["segments have positive length, line normals are not zero"],
        families: |t| {
            // similarities only: the foot of a perpendicular is not affine-invariant
            const SIM: &[Map] = &[ID, EIGHTH, HALF_NEG, X12, FAR, ROT34, MIRROR, TENTH, ROT_IRR];
            let mut v = vec![];
            let g = grid(5, 5);
            v.push(family("project-5x5", "3 points of 5x5 x 6 forms x 9 similarities", move |cx| project::<f64>(cx, &g, SIM, FORMS)));
            let g = grid(3, 3);
            v.push(family("project-3x3-f32", "3 points of 3x3 x 6 forms, f32", move |cx| project::<f32>(cx, &g, F32_MAPS, FORMS)));
            let g = grid(4, 4);
            v.push(family("project-4x4-wide", "3 points of 4x4 x 6 forms x 15 small, large and slightly turned maps", move |cx| project::<f64>(cx, &g, WIDE, FORMS)));
            let g = clusters(&grid(3, 3), OFFSETS5);
            v.push(family("project-near", "3 points of a 3x3 lattice or 2.4e-7 beside one x 6 forms x 2 maps", move |cx| project::<f64>(cx, &g, NEARS, FORMS)));
            let g = clusters_at(64, &grid(3, 3), OFFSETS3);
            v.push(family("project-slanted", "3 points of a lattice of spacing 64 or 1 beside one x 6 forms x 3 maps turning by less than the tolerance per unit", move |cx| project::<f64>(cx, &g, SLANTED, FORMS)));
            let g = clusters_at(CRISPS.unit, &grid(3, 3), OFFSETS5);
            v.push(family("project-crisp", "3 points of a lattice of spacing 512 or 1.5e-8 beside one x 6 forms x 2 maps", move |cx| project::<f64>(cx, &g, CRISPS.maps, FORMS)));
            {
                let g = grid(9, 8);
                v.push(family("project-9x8", "3 points of 9x8 x 6 forms x 9 similarities", move |cx| project::<f64>(cx, &g, SIM, FORMS)));
            }
            if t == Tier::Thorough {
                let g = grid(18, 16);
                v.push(family("project-18x16", "3 points of 18x16 x 6 forms x 9 similarities", move |cx| project::<f64>(cx, &g, SIM, FORMS)));
                let g = grid(10, 10);
                v.push(family("project-10x10-wide", "3 points of 10x10 x 6 forms x 11 small, large and slightly turned maps", move |cx| project::<f64>(cx, &g, STIFF, FORMS)));
            }
            v
        },
    }
}
