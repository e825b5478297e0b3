//! C11, C12, C14..C18: triangles, polygons, hulls, triangulation.
use crate::common::*;
use exact::*;
use mccore::Stop;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::location::{location_enum::*, point_2_polygon_2::*, point_2_triangle_2::*};
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::util_enum::{Orientation, TurnDirection};

const EXACT: &[Map] = &[ID, EIGHTH, HALF_NEG, X12, FAR, HUGE, ROT34, SHEAR, MIRROR];
const ALL: &[Map] = &[ID, EIGHTH, HALF_NEG, X12, FAR, ROT34, SHEAR, MIRROR, TENTH, ROT_IRR];
const SOME: &[Map] = &[ID, HALF_NEG, SHEAR, MIRROR, ROT_IRR];
const TWO: &[Map] = &[ID, ROT_IRR];
const ONE: &[Map] = &[ID];

pub fn poly<T: Num>(m: &Map, v: &[P]) -> Polygon2<T> {
    Polygon2::new(v.iter().map(|p| mp(m, *p)).collect())
}
fn loc_name(l: Loc) -> &'static str {
    match l {
        Loc::On => "on",
        Loc::In => "inside",
        Loc::Out => "outside",
    }
}

// ------------------------------------------------------------------ simple polygons

/// All simple polygons with n vertices among the points, as cyclic sequences starting at their
/// smallest vertex (both directions appear).
pub fn simple_polys(pts: &[P], n: usize) -> Vec<Vec<P>> {
    fn grow(pts: &[P], n: usize, first: usize, used: &mut Vec<usize>, out: &mut Vec<Vec<P>>) {
        if used.len() == n {
            let v: Vec<P> = used.iter().map(|i| pts[*i]).collect();
            if is_simple(&v) {
                out.push(v);
            }
            return;
        }
        for i in first + 1..pts.len() {
            if used.contains(&i) {
                continue;
            }
            // the new edge must not meet the chain before its last vertex
            let (a, b) = (pts[*used.last().unwrap()], pts[i]);
            let k = used.len();
            let mut ok = true;
            for w in 0..k.saturating_sub(1) {
                let (c, d) = (pts[used[w]], pts[used[w + 1]]);
                let m = seg_seg(a, b, c, d);
                let allowed = if w + 2 == k { Meet::Point(qp(a)) } else { Meet::None };
                if m != allowed {
                    ok = false;
                    break;
                }
            }
            if ok {
                used.push(i);
                grow(pts, n, first, used, out);
                used.pop();
            }
        }
    }
    let mut out = vec![];
    for first in 0..pts.len() {
        grow(pts, n, first, &mut vec![first], &mut out);
    }
    out
}
pub fn polys_upto(w: i64, h: i64, lo: usize, hi: usize) -> Vec<Vec<P>> {
    let g = grid(w, h);
    (lo..=hi).flat_map(|n| simple_polys(&g, n)).collect()
}

/// Larger polygons of known shapes, parametrised by size.
pub fn structured(k: i64) -> Vec<(&'static str, Vec<P>)> {
    let mut v: Vec<(&'static str, Vec<P>)> = vec![];
    // comb: k teeth pointing down from a bar
    let mut c = vec![];
    for i in 0..k {
        c.push((4 * i, 0));
        c.push((4 * i + 2, 0));
        if i + 1 < k {
            c.push((4 * i + 2, 6));
            c.push((4 * i + 4, 6));
        }
    }
    c.push((4 * (k - 1) + 2, 10));
    c.push((0, 10));
    v.push(("comb", c));
    // saw: triangular teeth
    let mut s = vec![];
    for i in 0..k {
        s.push((4 * i, 0));
        s.push((4 * i + 2, 6));
    }
    s.push((4 * k, 0));
    s.push((4 * k, 8));
    s.push((0, 8));
    v.push(("saw", s));
    // staircase
    let mut st = vec![(0, 0)];
    for i in 0..k {
        st.push((2 * k - 2 * i, 2 * i));
        st.push((2 * k - 2 * i, 2 * i + 2));
    }
    st.push((0, 2 * k));
    v.push(("staircase", st));
    // double zigzag band (every vertex reflex or convex alternately)
    let mut z = vec![];
    for i in 0..=k {
        z.push((2 * i, if i % 2 == 0 { 0 } else { 4 }));
    }
    for i in (0..=k).rev() {
        z.push((2 * i, if i % 2 == 0 { 2 } else { 6 }));
    }
    v.push(("zigzag band", z));
    // rectangular spiral of width 2
    let mut outer = vec![];
    let mut inner = vec![];
    let (mut x, mut y) = (0i64, 0i64);
    let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
    let mut len = 4 * k + 4;
    outer.push((x, y));
    inner.push((x, y + 2));
    for i in 0..k + 1 {
        let d = dirs[(i % 4) as usize];
        x += d.0 * len;
        y += d.1 * len;
        if i == k {
            outer.push((x, y));
            let nrm = (-d.1 * 2, d.0 * 2);
            inner.push((x + nrm.0, y + nrm.1));
        } else {
            let nd = dirs[((i + 1) % 4) as usize];
            outer.push((x, y));
            // the inner corner is two to the left of both directions
            inner.push((x - d.0 * 2 + nd.0 * 2, y - d.1 * 2 + nd.1 * 2));
        }
        if i % 2 == 1 || i == 0 {
            len -= 4;
        }
        if len < 4 {
            break;
        }
    }
    inner.reverse();
    outer.extend(inner);
    v.push(("spiral", outer));
    // star with k spikes: alternating far and near lattice points
    let ring: Vec<P> = vec![(12, 0), (12, 4), (10, 10), (4, 12), (0, 12), (-4, 12), (-10, 10), (-12, 4), (-12, 0), (-12, -4), (-10, -10), (-4, -12), (0, -12), (4, -12), (10, -10), (12, -4)];
    let mut r = vec![];
    for (i, p) in ring.iter().enumerate() {
        if (i as i64) % 2 == 0 {
            r.push(*p);
        } else if (i as i64) < 2 * k {
            r.push((p.0 / 4, p.1 / 4));
        }
    }
    v.push(("star", r));
    // polygon with many collinear vertices
    let mut q = vec![];
    for i in 0..k {
        q.push((2 * i, 0));
    }
    for i in 0..k {
        q.push((2 * k, 2 * i));
    }
    for i in 0..k {
        q.push((2 * k - 2 * i, 2 * k));
    }
    for i in 0..k {
        q.push((0, 2 * k - 2 * i));
    }
    v.push(("subdivided square", q));
    v
}
pub fn structured_all(ks: &[i64]) -> Vec<(&'static str, Vec<P>)> {
    ks.iter().flat_map(|k| structured(*k)).filter(|(_, v)| is_simple(v)).collect()
}

/// Convex lattice polygon with an edge along every direction (x, y) with |x|, |y| up to r.
pub fn convex_ring(r: i64) -> Vec<P> {
    fn gcd(a: i64, b: i64) -> i64 {
        if b == 0 {
            a.abs()
        } else {
            gcd(b, a % b)
        }
    }
    let mut d: Vec<P> = (-r..=r).flat_map(|x| (-r..=r).map(move |y| (x, y))).filter(|d| gcd(d.0, d.1) == 1).collect();
    around(&mut d);
    let mut p = (0, 0);
    d.iter()
        .map(|d| {
            p = (p.0 + d.0, p.1 + d.1);
            p
        })
        .collect()
}
/// sort by angle around the origin, exactly
fn around(v: &mut [P]) {
    let half = |p: &P| p.1 < 0 || p.1 == 0 && p.0 < 0;
    v.sort_by(|a, b| half(a).cmp(&half(b)).then_with(|| cross(*b, *a).cmp(&0)));
}
/// Irregular simple polygons of any size: two chains with modular heights, and modular points
/// taken in order around the origin.
pub fn modular_polys(ns: &[i64], seeds: i64) -> Vec<Vec<P>> {
    let mut out: Vec<Vec<P>> = vec![];
    for n in ns {
        for a in 1..=seeds {
            let p = [7, 11, 13, 17, 23][a as usize % 5];
            let mut chain: Vec<P> = (0..n / 2).map(|i| (2 * i, -1 - (a * i * i + 3 * i) % p)).collect();
            chain.extend((0..n - n / 2).rev().map(|i| (2 * i - 1, 1 + ((a + 2) * i * i + i) % p)));
            out.push(chain);
            let q = 2 * n + 1;
            let mut star: Vec<P> = (1..3 * n).map(|i| ((i * (a + 1) * 7) % q - n, (i * i * (a + 3)) % q - n)).filter(|p| *p != (0, 0)).collect();
            around(&mut star);
            star.dedup_by(|x, y| cross(*x, *y) == 0 && x.0 * y.0 + x.1 * y.1 > 0);
            // every so many, so that n remain
            let k = star.len() as i64;
            if k >= *n {
                out.push((0..*n).map(|i| star[(i * k / n) as usize]).collect());
            }
        }
    }
    out.retain(|v| is_simple(v));
    out
}
/// the larger polygons for the quick tier
fn large_polys() -> Vec<Vec<P>> {
    let mut v = modular_polys(&[8, 12, 16, 20, 28, 40, 55, 70, 100, 150], 8);
    v.extend([convex_ring(3), convex_ring(5)]);
    v.extend(structured(20).into_iter().map(|x| x.1).filter(|v| is_simple(v)));
    v
}
fn sizes(v: &[Vec<P>]) -> String {
    format!("{} polygons of {} to {} vertices (irregular chains, stars, convex rings, combs, spirals)", v.len(), v.iter().map(|v| v.len()).min().unwrap(), v.iter().map(|v| v.len()).max().unwrap())
}
/// some start vertices: the first, one in the middle, the last
fn started(cx: &mut Cx, v: &[P]) -> Vec<P> {
    let mut w = v.to_vec();
    if cx.flag() {
        w.reverse();
    }
    let n = w.len();
    w.rotate_left([0, n / 3, n - 1][cx.pick(3)]);
    w
}

/// simple polygons whose vertices come in clusters, without nearly straight or nearly touching parts
fn near_polys(sc: &Scale, base: &[P], offsets: &[P], lo: usize, hi: usize) -> Vec<Vec<P>> {
    let g = clusters_at(sc.unit, base, offsets);
    (lo..=hi).flat_map(|n| simple_polys(&g, n)).filter(|v| well_off(v)).collect()
}
/// does some edge stay within one cluster of an inexact map?
fn short_edge(m: &Map, v: &[P]) -> bool {
    (0..v.len()).any(|i| too_short(m, v[i], v[(i + 1) % v.len()]))
}
/// rotation and direction of a cyclic sequence
fn turned(cx: &mut Cx, v: &[P], rotations: bool, directions: bool) -> Vec<P> {
    let mut w = v.to_vec();
    if directions && cx.flag() {
        w.reverse();
    }
    if rotations {
        let r = cx.pick(w.len());
        w.rotate_left(r);
    }
    w
}

// ------------------------------------------------------------------ C11

fn tri_case<T: Num>(cx: &mut Cx, m: &Map, t: [P; 3], p: P) -> R {
    if orient(t[0], t[1], t[2]) == 0 {
        return Err(Stop::Prune);
    }
    cx.note(|| format!("{} map={} triangle {t:?} point {p:?}", T::NAME, m.name));
    let tri = Triangle2::new(mp::<T>(m, t[0]), mp(m, t[1]), mp(m, t[2]));
    let want = locate(p, &t);
    cx.outcome(loc_name(want));
    let x = mp::<T>(&m.aside(), p);
    let got = cx.call("locate_point_2_triangle_2", || locate_point_2_triangle_2(&x, &tri))?;
    let name = |l| match l {
        Point2Triangle2Location::On => Loc::On,
        Point2Triangle2Location::Inside => Loc::In,
        Point2Triangle2Location::Outside => Loc::Out,
    };
    let got = name(got);
    ensure!(got == want, "location", "located {}, want {}", loc_name(got), loc_name(want));
    // reversing the nominal orientation moves no point
    let mut rev = tri.clone();
    for turn in 1..=2 {
        cx.call("reverse_orientation", || rev.reverse_orientation())?;
        let got = name(cx.call("locate_point_2_triangle_2", || locate_point_2_triangle_2(&x, &rev))?);
        ensure!(got == want, "reversed", "located {} after {turn} orientation reversals, want {}", loc_name(got), loc_name(want));
    }
    Ok(())
}

fn tri_family<T: Num>(name: &'static str, g: Vec<P>, q: Vec<P>, maps: &'static [Map]) -> Family {
    family(
        name,
        format!("all ordered triangles of {} lattice points, all {} points, {} maps, {}", g.len(), q.len(), maps.len(), T::NAME),
        move |cx| {
            let m = cx.pick_from(maps);
            let t = [cx.pick_from(&g), cx.pick_from(&g), cx.pick_from(&g)];
            if orient(t[0], t[1], t[2]) == 0 {
                return Err(Stop::Prune);
            }
            let p = cx.pick_from(&q);
            tri_case::<T>(cx, &m, t, p)
        },
    )
}

/// vertices and points in clusters 2.4e-7 across
fn tri_near(name: &'static str, sc: &'static Scale, base: Vec<P>, offsets: &[P], around: &[P]) -> Family {
    let g = clusters_at(sc.unit, &base, offsets);
    let q = clusters_at(sc.unit, &base, around);
    family(
        name,
        format!("all ordered triangles of {} points, all {} points, both in clusters {} across on a lattice, 2 maps; triples nearly on a common line without being on it are left out", g.len(), q.len(), sc.what),
        move |cx| {
            let m = cx.pick_from(sc.maps);
            let t = [cx.pick_from(&g), cx.pick_from(&g), cx.pick_from(&g)];
            if orient(t[0], t[1], t[2]) == 0 || unclear(&m, &t) {
                return Err(Stop::Prune);
            }
            let p = cx.pick_from(&q);
            if unclear(&m, &[t[0], t[1], t[2], p]) || (0..3).any(|i| too_short(&m, t[i], t[(i + 1) % 3])) {
                return Err(Stop::Prune);
            }
            tri_case::<f64>(cx, &m, t, p)
        },
    )
}

/// the coarse lattice (even points) and the fine one around it
fn coarse(w: i64, h: i64) -> Vec<P> {
    grid(w, h).into_iter().map(|p| (2 * p.0, 2 * p.1)).collect()
}
fn fine(w: i64, h: i64) -> Vec<P> {
    (-1..2 * h).flat_map(|y| (-1..2 * w).map(move |x| (x, y))).collect()
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        explanation: "Every non-degenerate triangle of a lattice in every vertex order, against every point of a lattice twice as fine, located on the real code and compared with exact arithmetic.",
        assumptions: &["f32 is explored on coordinate systems that f32 represents exactly"],
        families: |t| {
            let mut v = vec![
                tri_family::<f64>("triangle-3x3", coarse(3, 3), fine(3, 3), ALL),
                tri_family::<f32>("triangle-3x3-f32", coarse(3, 3), fine(3, 3), EXACT),
                tri_family::<f64>("triangle-4x4", coarse(4, 4), fine(4, 4), SOME),
                tri_family::<f64>("triangle-3x3-wide", coarse(3, 3), fine(3, 3), WIDE),
                tri_family::<f64>("triangle-4x4-loose", coarse(4, 4), fine(4, 4), LOOSES),
                tri_family::<f32>("triangle-3x3-loose-f32", coarse(3, 3), fine(3, 3), LOOSES_32),
                tri_family::<f64>("triangle-5x5", grid(5, 5), grid(5, 5), ONE),
                tri_near("near-3x3", CLOSE, grid(3, 3), OFFSETS2, OFFSETS3),
                tri_near("near-2x2", CLOSE, grid(2, 2), OFFSETS5, OFFSETS5),
                tri_near("slanted-3x3", SLANTS, grid(3, 3), OFFSETS2, OFFSETS3),
                tri_near("crisp-3x3", CRISPS, grid(3, 3), OFFSETS2, OFFSETS3),
                tri_near("crisp-2x2", CRISPS, grid(2, 2), OFFSETS5, OFFSETS5),
            ];
            {
                v.push(tri_family::<f64>("triangle-4x4-all", coarse(4, 4), fine(4, 4), ALL));
                v.push(tri_family::<f32>("triangle-4x4-f32", coarse(4, 4), fine(4, 4), EXACT));
                v.push(tri_family::<f64>("triangle-6x5", coarse(6, 5), fine(6, 5), TWO));
            }
            if t == Tier::Thorough {
                v.push(tri_family::<f64>("triangle-6x6-all", coarse(6, 6), fine(6, 6), ALL));
                v.push(tri_family::<f64>("triangle-5x5-wide", coarse(5, 5), fine(5, 5), WIDE));
                v.push(tri_family::<f32>("triangle-6x5-f32", coarse(6, 5), fine(6, 5), EXACT));
                v.push(tri_family::<f64>("triangle-9x9", grid(9, 9), grid(9, 9), TWO));
                v.push(tri_near("near-4x3", CLOSE, grid(4, 3), OFFSETS3, OFFSETS5));
            }
            v
        },
    }
}

// ------------------------------------------------------------------ C12

fn poly_loc<T: Num>(cx: &mut Cx, m: &Map, v: &[P], p: P) -> R {
    cx.note(|| format!("{} map={} polygon {v:?} point {p:?}", T::NAME, m.name));
    let want = locate(p, v);
    cx.outcome(loc_name(want));
    let x = mp::<T>(&m.aside(), p);
    let pol = poly::<T>(m, v);
    let got = cx.call("locate_point_2_polygon_2", || locate_point_2_polygon_2(&x, &pol))?;
    let on = cx.call("is_point_2_on_polygon_2", || is_point_2_on_polygon_2(&x, &pol))?;
    let inside = cx.call("is_point_2_inside_polygon_2", || is_point_2_inside_polygon_2(&x, &pol))?;
    let outside = cx.call("is_point_2_outside_polygon_2", || is_point_2_outside_polygon_2(&x, &pol))?;
    let got = match got {
        Point2Polygon2Location::On => Loc::On,
        Point2Polygon2Location::Inside => Loc::In,
        Point2Polygon2Location::Outside => Loc::Out,
    };
    ensure!(got == want, "location", "located {}, want {}", loc_name(got), loc_name(want));
    ensure!(
        (on, inside, outside) == (want == Loc::On, want == Loc::In, want == Loc::Out),
        "predicates",
        "on={on} inside={inside} outside={outside}, want {}",
        loc_name(want)
    );
    Ok(())
}

fn poly_loc_family<T: Num>(name: &'static str, polys: Vec<Vec<P>>, q: Vec<P>, maps: &'static [Map], rot: bool) -> Family {
    let polys: Vec<Vec<P>> = polys.iter().map(|v| v.iter().map(|p| (2 * p.0, 2 * p.1)).collect()).collect();
    family(
        name,
        format!("{} simple polygons{}, {} points, {} maps, {}", polys.len(), if rot { " from every start vertex" } else { "" }, q.len(), maps.len(), T::NAME),
        move |cx| {
            let m = cx.pick_from(maps);
            let i = cx.pick(polys.len());
            let v = turned(cx, &polys[i], rot, false);
            let p = cx.pick_from(&q);
            poly_loc::<T>(cx, &m, &v, p)
        },
    )
}
fn large_loc_family(name: &'static str, maps: &'static [Map]) -> Family {
    let s: Vec<Vec<P>> = large_polys();
    family(name, format!("{}, both directions, located: every vertex, points beside it and between it and others, {} maps", sizes(&s), maps.len()), move |cx| {
        let m = cx.pick_from(maps);
        let i = cx.pick(s.len());
        let v: Vec<P> = s[i].iter().map(|p| (2 * p.0, 2 * p.1)).collect();
        let v = if cx.flag() { v.into_iter().rev().collect() } else { v };
        let n = v.len();
        let j = cx.pick(n);
        let p = match cx.pick(7) {
            0 => v[j],
            1 => (v[j].0 + 1, v[j].1),
            2 => (v[j].0 - 1, v[j].1),
            3 => (v[j].0, v[j].1 + 1),
            4 => (v[j].0, v[j].1 - 1),
            k => {
                let w = v[(j + if k == 5 { 1 } else { n / 2 }) % n];
                ((v[j].0 + w.0) / 2, (v[j].1 + w.1) / 2)
            }
        };
        poly_loc::<f64>(cx, &m, &v, p)
    })
}
fn structured_loc_family<T: Num>(name: &'static str, ks: &[i64], maps: &'static [Map], rot: bool) -> Family {
    let s = structured_all(ks);
    family(
        name,
        format!("{} structured polygons (combs, saws, stairs, bands, spirals, stars) with up to {} vertices, both directions, every lattice point around them, {} maps, {}", s.len(), s.iter().map(|x| x.1.len()).max().unwrap(), maps.len(), T::NAME),
        move |cx| {
            let m = cx.pick_from(maps);
            let i = cx.pick(s.len());
            let v = turned(cx, &s[i].1, rot, true);
            let (x0, x1) = (v.iter().map(|p| p.0).min().unwrap() - 1, v.iter().map(|p| p.0).max().unwrap() + 1);
            let (y0, y1) = (v.iter().map(|p| p.1).min().unwrap() - 1, v.iter().map(|p| p.1).max().unwrap() + 1);
            let p = (x0 + cx.pick((x1 - x0 + 1) as usize) as i64, y0 + cx.pick((y1 - y0 + 1) as usize) as i64);
            poly_loc::<T>(cx, &m, &v, p)
        },
    )
}

fn poly_near(name: &'static str, sc: &'static Scale, base: Vec<P>, offsets: &[P], around: &[P], hi: usize) -> Family {
    let polys = near_polys(sc, &base, offsets, 3, hi);
    let q = clusters_at(sc.unit, &base, around);
    family(
        name,
        format!("{} simple polygons and {} points in clusters {} across on a lattice, 2 maps; points nearly on the line of an edge without being on it are left out", polys.len(), q.len(), sc.what),
        move |cx| {
            let m = cx.pick_from(sc.maps);
            let i = cx.pick(polys.len());
            let v = &polys[i];
            let p = cx.pick_from(&q);
            let mut all = v.clone();
            all.push(p);
            if short_edge(&m, v) || unclear(&m, &all) {
                return Err(Stop::Prune);
            }
            poly_loc::<f64>(cx, &m, v, p)
        },
    )
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        explanation: "Every simple polygon of a small lattice (both directions) against every point of a lattice twice as fine, and structured polygons of up to several dozen vertices against every lattice point around them; compared with exact arithmetic.",
        assumptions: &["polygons are simple"],
        families: |t| {
            let mut v = vec![
                poly_loc_family::<f64>("simple-3x3-n3to5", polys_upto(3, 3, 3, 5), fine(3, 3), ALL, true),
                poly_loc_family::<f64>("simple-3x3-n6to8", polys_upto(3, 3, 6, 8), fine(3, 3), SOME, false),
                poly_loc_family::<f32>("simple-3x3-f32", polys_upto(3, 3, 3, 6), fine(3, 3), EXACT, false),
                poly_loc_family::<f64>("simple-4x4-n3to5", polys_upto(4, 4, 3, 5), fine(4, 4), TWO, false),
                poly_loc_family::<f64>("simple-3x3-wide", polys_upto(3, 3, 3, 5), fine(3, 3), WIDE, false),
                poly_near("near-2x2", CLOSE, grid(2, 2), OFFSETS3, OFFSETS5, 5),
                poly_near("near-3x2", CLOSE, grid(3, 2), OFFSETS2, OFFSETS3, 5),
                poly_near("slanted-3x2", SLANTS, grid(3, 2), OFFSETS2, OFFSETS3, 4),
                poly_near("crisp-2x2", CRISPS, grid(2, 2), OFFSETS3, OFFSETS5, 5),
                poly_near("crisp-3x2", CRISPS, grid(3, 2), OFFSETS2, OFFSETS3, 5),
                structured_loc_family::<f64>("structured", &[1, 2, 3, 5], SOME, false),
                structured_loc_family::<f64>("structured-loose", &[1, 2, 3, 5], LOOSES, false),
                poly_loc_family::<f64>("simple-3x3-loose", polys_upto(3, 3, 6, 7), fine(3, 3), LOOSES, false),
                poly_loc_family::<f32>("simple-3x3-loose-f32", polys_upto(3, 3, 3, 5), fine(3, 3), LOOSES_32, false),
                structured_loc_family::<f64>("structured-wide", &[1, 3], WIDE, false),
                structured_loc_family::<f64>("structured-rotated", &[2, 3], ONE, true),
                large_loc_family("large", SOME),
            ];
            {
                v.push(poly_loc_family::<f64>("simple-4x4-n6", polys_upto(4, 4, 6, 6), fine(4, 4), ONE, false));
                v.push(structured_loc_family::<f64>("structured-large", &[6, 8, 10, 12], TWO, false));
                v.push(structured_loc_family::<f32>("structured-f32", &[1, 2, 3, 5], ONE, false));
            }
            if t == Tier::Thorough {
                v.push(poly_loc_family::<f64>("simple-4x3-n7", polys_upto(4, 3, 7, 7), fine(4, 3), SOME, false));
                v.push(poly_loc_family::<f64>("simple-4x4-n6-loose", polys_upto(4, 4, 6, 6), fine(4, 4), LOOSES, false));
                v.push(poly_loc_family::<f64>("simple-4x4-n7", polys_upto(4, 4, 7, 7), fine(4, 4), ONE, false));
                v.push(poly_loc_family::<f64>("simple-3x3-wide-all", polys_upto(3, 3, 3, 9), fine(3, 3), WIDE, false));
                v.push(poly_loc_family::<f64>("simple-5x5-n3to5", polys_upto(5, 5, 3, 5), fine(5, 5), ONE, false));
                v.push(structured_loc_family::<f64>("structured-larger", &[15, 20, 25], SOME, false));
                v.push(poly_near("near-3x3-n5", CLOSE, grid(3, 3), OFFSETS2, OFFSETS3, 5));
            }
            v
        },
    }
}

// ------------------------------------------------------------------ C14

fn hull_case<T: Num>(cx: &mut Cx, m: &Map, pts: &[P]) -> R {
    cx.note(|| format!("{} map={} points {pts:?}", T::NAME, m.name));
    // the reference hull in the mapped coordinates (the maps are exact)
    let unit = if m.scale() < 0.01 { m.scale() } else { 0.125 };
    let q: Vec<P> = pts
        .iter()
        .map(|p| {
            let (x, y) = m.p(*p);
            ((x / unit) as i64, (y / unit) as i64)
        })
        .collect();
    let want: Vec<(f64, f64)> = hull(&q).iter().map(|p| (p.0 as f64 * unit, p.1 as f64 * unit)).collect();
    cx.outcome(match want.len() {
        0 => "empty",
        1 => "one point",
        2 => "two points",
        3 => "triangle",
        4 => "quadrilateral",
        _ => "5+ corners",
    });
    let given: Vec<Point2<T>> = pts.iter().map(|p| mp(m, *p)).collect();
    let mut h = cx.call("ConvexHull2::new", || ConvexHull2::<T>::new(given))?;
    let got = cx.call("convex_hull", || h.convex_hull())?;
    let again = cx.call("convex_hull (again)", || h.convex_hull())?;
    ensure!(xys(&got) == want, "hull", "hull {:?}, want {want:?}", xys(&got));
    ensure!(xys(&again) == want, "again", "second answer {:?}, want {want:?}", xys(&again));
    Ok(())
}

fn hull_seq<T: Num>(name: &'static str, g: Vec<P>, k: usize, maps: &'static [Map]) -> Family {
    family(name, format!("all sequences of {k} of {} lattice points (repetition allowed), {} maps, {}", g.len(), maps.len(), T::NAME), move |cx| {
        let m = cx.pick_from(maps);
        let p: Vec<P> = (0..k).map(|_| cx.pick_from(&g)).collect();
        hull_case::<T>(cx, &m, &p)
    })
}
/// modular point sets with many ties, and rings with points strewn inside
fn hull_large<T: Num>(name: &'static str, maps: &'static [Map], ns: &'static [i64]) -> Family {
    family(name, format!("modular point sets and convex rings with points inside, {ns:?} points, 6 widths, 12 multipliers, 3 orders, {} maps, {}", maps.len(), T::NAME), move |cx| {
        let m = cx.pick_from(maps);
        let n = cx.pick_from(ns);
        let w = [3, 5, 8, 13, 29, 101][cx.pick(6)];
        let a = 1 + cx.pick(12) as i64;
        let mut v: Vec<P> = (0..n).map(|i| ((a * i * i + 5 * i) % w, (i * (a + 1) + i * i / 3) % (w + 2))).collect();
        match cx.pick(4) {
            0 => {}
            1 => v.reverse(),
            2 => v.sort(),
            _ => {
                let r = convex_ring(1 + a % 5);
                for (i, p) in v.iter_mut().enumerate() {
                    let (q, s) = (r[i % r.len()], r[(i * 7 + 1) % r.len()]);
                    *p = if i % 3 == 2 { (q.0 + s.0, q.1 + s.1) } else { (2 * q.0, 2 * q.1) };
                }
            }
        }
        hull_case::<T>(cx, &m, &v)
    })
}
fn hull_subsets<T: Num>(name: &'static str, g: Vec<P>, maps: &'static [Map], orders: usize) -> Family {
    family(name, format!("all subsets of {} lattice points, in {orders} input orders, {} maps, {}", g.len(), maps.len(), T::NAME), move |cx| {
        let m = cx.pick_from(maps);
        let o = cx.pick(orders);
        let mut p: Vec<P> = g.iter().filter(|_| cx.flag()).copied().collect();
        match o {
            1 => p.reverse(),
            2 => p.sort_by_key(|q| (q.0 * 7 + q.1 * 5) % 11),
            3 => {
                let c = p.clone();
                p.extend(c);
            }
            _ => {}
        }
        hull_case::<T>(cx, &m, &p)
    })
}

/// The lattice squeezed in x or in y until neighbours are half a tolerance apart in that direction.
/// Points closer than the tolerance to another one are left out of the question.
fn hull_squeezed(cx: &mut Cx, pts: &[P], across: bool) -> R {
    const U: f64 = 1.0 / (1u64 << 34) as f64;
    let at = |p: P| if across { (p.0 as f64, p.1 as f64 * U) } else { (p.0 as f64 * U, p.1 as f64) };
    for (i, p) in pts.iter().enumerate() {
        for q in &pts[..i] {
            let (a, b) = (at(*p), at(*q));
            if p != q && (a.0 - b.0).hypot(a.1 - b.1) < 2e-10 {
                return Err(mccore::Stop::Prune);
            }
        }
    }
    cx.note(|| format!("squeezed in {}: {pts:?}", if across { "y" } else { "x" }));
    let want: Vec<(f64, f64)> = hull(pts).iter().map(|p| at(*p)).collect();
    let mut h = cx.call("ConvexHull2::new", || ConvexHull2::<f64>::new(pts.iter().map(|p| pt(at(*p))).collect()))?;
    let got = cx.call("convex_hull", || h.convex_hull())?;
    let again = cx.call("convex_hull (again)", || h.convex_hull())?;
    cx.outcome(if want.len() > 2 { "three or more corners" } else { "less than three corners" });
    ensure!(xys(&got) == want, "hull", "hull {:?}, want {want:?}", xys(&got));
    ensure!(xys(&again) == want, "again", "second answer {:?}, want {want:?}", xys(&again));
    Ok(())
}
fn hull_squeezed_seq(name: &'static str, w: i64, h: i64, k: usize) -> Family {
    let g = grid(w, h);
    family(name, format!("all sequences of {k} points of a {w}x{h} lattice (repetition allowed) squeezed in x or in y to a spacing of 5.8e-11; scenes with different points closer than the tolerance are left out"), move |cx| {
        let across = cx.flag();
        let p: Vec<P> = (0..k).map(|_| cx.pick_from(&g)).collect();
        hull_squeezed(cx, &p, across)
    })
}
fn hull_squeezed_large(name: &'static str, ns: &'static [i64]) -> Family {
    family(name, format!("{ns:?} points in different rows, 12 multipliers for their column and 6 for their row, in a row of columns 5.8e-11 apart; squeezed in x or in y"), move |cx| {
        let across = cx.flag();
        let n = cx.pick_from(ns);
        let (a, b) = (1 + cx.pick(12) as i64, 1 + cx.pick(6) as i64);
        // n is prime: every row once
        let p: Vec<P> = (0..n).map(|i| ((i * i * a + 3 * i) % (2 * n), i * b % n)).map(|p| if across { (p.1, p.0) } else { p }).collect();
        hull_squeezed(cx, &p, across)
    })
}
/// Points given several times, a fraction of the tolerance apart: each corner is answered once.
fn hull_loose(name: &'static str, g: Vec<P>, orders: usize) -> Family {
    const D: [(f64, f64); 4] = [(0.0, 0.0), (2e-11, 1e-11), (-1e-11, 2e-11), (1e-11, -2e-11)];
    family(name, format!("all subsets of {} lattice points of which none lies within an edge of the hull, each point given 1 to 3 times, displaced by {D:?} (4 patterns), in {orders} input orders; the corners compared up to the tolerance", g.len()), move |cx| {
        let o = cx.pick(orders);
        let pattern = cx.pick(4);
        let p: Vec<P> = g.iter().filter(|_| cx.flag()).copied().collect();
        let corners = hull(&p);
        let edge = |q: &P| (0..corners.len()).any(|i| exact::on_seg(*q, corners[i], corners[(i + 1) % corners.len()]));
        if corners.len() < 3 && p.len() > corners.len() || corners.len() > 2 && p.iter().any(|q| !corners.contains(q) && edge(q)) {
            return Err(mccore::Stop::Prune);
        }
        let mut v: Vec<(f64, f64)> = vec![];
        for (i, q) in p.iter().enumerate() {
            for k in 0..1 + (i + pattern) % 3 {
                let d = D[(i * (1 + pattern) + k) % 4];
                v.push((q.0 as f64 + d.0, q.1 as f64 + d.1));
            }
        }
        match o {
            1 => v.reverse(),
            2 => v.sort_by_key(|q| ((q.0 * 7.0 + q.1 * 5.0).round() as i64 % 11, (q.0 * 1e12) as i64 % 3)),
            _ => {}
        }
        cx.note(|| format!("{v:?}"));
        let mut h = cx.call("ConvexHull2::new", || ConvexHull2::<f64>::new(v.iter().map(|p| pt(*p)).collect()))?;
        let got = cx.call("convex_hull", || h.convex_hull())?;
        let again = cx.call("convex_hull (again)", || h.convex_hull())?;
        ensure!(xys(&again) == xys(&got), "again", "second answer {:?}, first {:?}", xys(&again), xys(&got));
        let near: Vec<P> = got.iter().map(|p| (p.x().round() as i64, p.y().round() as i64)).collect();
        ensure!(got.iter().zip(&near).all(|(p, q)| (p.x() - q.0 as f64).abs() < 1e-10 && (p.y() - q.1 as f64).abs() < 1e-10), "hull", "corners {:?} are off", xys(&got));
        // the first corner: of several with the least x, up to the tolerance, any may come first
        let turned = (0..corners.len().max(1)).any(|k| {
            let mut c = corners.clone();
            if !c.is_empty() {
                c.rotate_left(k);
            }
            c == near && (c.is_empty() || c[0].0 == corners[0].0)
        });
        ensure!(turned, "hull", "hull {:?}, want the corners {corners:?}", xys(&got));
        cx.outcome(match corners.len() {
            0..=2 => "less than three corners",
            3 => "triangle",
            _ => "four or more corners",
        });
        Ok(())
    })
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        explanation: "Every sequence of up to five (thorough: six) lattice points and every subset of a lattice, in several input orders and with duplicates; the returned cycle is compared with an independent gift-wrapping hull.",
        assumptions: &["coordinates are such that the coordinate products are exact (the hull uses an exact zero test)"],
        families: |t| {
            let g3 = grid(3, 3);
            let mut v = vec![
                hull_seq::<f64>("sequences-k0", g3.clone(), 0, ONE),
                hull_seq::<f64>("sequences-k1", g3.clone(), 1, EXACT),
                hull_seq::<f64>("sequences-k2", g3.clone(), 2, EXACT),
                hull_seq::<f64>("sequences-k3", g3.clone(), 3, EXACT),
                hull_seq::<f64>("sequences-k4", g3.clone(), 4, EXACT),
                hull_seq::<f64>("sequences-k5", g3.clone(), 5, ONE),
                hull_seq::<f32>("sequences-k4-f32", g3.clone(), 4, EXACT),
                hull_subsets::<f64>("subsets-4x4", grid(4, 4), EXACT, 4),
                hull_subsets::<f64>("subsets-5x3", grid(5, 3), SOME_EXACT, 4),
                hull_subsets::<f32>("subsets-4x4-f32", grid(4, 4), ONE, 2),
                hull_seq::<f64>("sequences-near-k4", clusters(&grid(2, 2), OFFSETS3), 4, NEAR_ONLY),
                hull_subsets::<f64>("subsets-near", clusters(&grid(3, 2), OFFSETS2), NEAR_ONLY, 4),
                hull_subsets::<f64>("subsets-near-2x2", clusters(&grid(2, 2), OFFSETS3), NEAR_ONLY, 4),
                hull_seq::<f64>("sequences-k4-scales", g3.clone(), 4, SCALES),
                hull_seq::<f32>("sequences-k4-scales-f32", g3.clone(), 4, SCALES32),
                hull_subsets::<f64>("subsets-4x4-scales", grid(4, 4), SCALES, 2),
                hull_squeezed_seq("squeezed-4x4-k3", 4, 4, 3),
                hull_squeezed_seq("squeezed-4x5-k4", 4, 5, 4),
                hull_squeezed_seq("squeezed-4x4-k5", 4, 4, 5),
                hull_squeezed_large("squeezed-large", &[11, 23, 53, 101, 211, 401]),
                hull_loose("loose-4x4", grid(4, 4), 3),
                hull_loose("loose-7x2", grid(7, 2), 3),
                hull_large::<f64>("large", EXACT, &[6, 9, 14, 20, 33, 64, 130, 300]),
                hull_large::<f32>("large-f32", SOME_EXACT, &[6, 14, 33, 130]),
            ];
            if t == Tier::Thorough {
                v.push(hull_seq::<f64>("sequences-k6", g3.clone(), 6, TWO_EXACT));
                v.push(hull_seq::<f64>("sequences-4x4-k5", grid(4, 4), 5, TWO_EXACT));
                v.push(hull_subsets::<f64>("subsets-5x4", grid(5, 4), TWO_EXACT, 2));
                v.push(hull_subsets::<f64>("subsets-rings", ring_points(), TWO_EXACT, 2));
            }
            v
        },
    }
}
const NEAR_ONLY: &[Map] = &[NEAR];
const SOME_EXACT: &[Map] = &[ID, SHEAR, MIRROR];
const TWO_EXACT: &[Map] = &[ID, SHEAR];
/// two nested convex rings and a centre
fn ring_points() -> Vec<P> {
    let mut v = vec![(0, 0)];
    for p in [(2, 1), (1, 2), (-1, 2), (-2, 1), (-2, -1), (-1, -2), (1, -2), (2, -1)] {
        v.push(p);
        v.push((2 * p.0, 2 * p.1));
    }
    v.extend([(4, 0), (0, 4), (-4, 0)]);
    v
}

// ------------------------------------------------------------------ C15

fn earcut_case<T: Num>(cx: &mut Cx, m: &Map, v: &[P]) -> R {
    cx.note(|| format!("{} map={} polygon {v:?}", T::NAME, m.name));
    let pol = poly::<T>(m, v);
    cx.outcome(if area2(v) > 0 { "counter-clockwise" } else { "clockwise" });
    let tris = cx.call("earcut_2", || earcut_2(pol))?;
    check_tiling(v, &tris)
}

pub fn check_tiling(v: &[P], tris: &[Vec<usize>]) -> R {
    let n = v.len();
    ensure!(tris.len() == n - 2, "count", "{} triangles for {n} vertices: {tris:?}", tris.len());
    let mut area = 0i128;
    let mut ts: Vec<[P; 3]> = vec![];
    for t in tris {
        ensure!(t.len() == 3, "triple", "not a triple: {t:?}");
        ensure!(t.iter().all(|i| *i < n), "index", "vertex index out of range: {t:?}");
        ensure!(t[0] != t[1] && t[1] != t[2] && t[0] != t[2], "index", "repeated vertex in {t:?}");
        let c = [v[t[0]], v[t[1]], v[t[2]]];
        area += orient(c[0], c[1], c[2]).abs();
        ts.push(c);
    }
    // total area and pairwise disjoint interiors; with every triangle inside the polygon this is a tiling
    ensure!(area == area2(v).abs(), "area", "triangle areas add up to {area}/2, polygon area is {}/2: {tris:?}", area2(v).abs());
    for i in 0..ts.len() {
        for j in i + 1..ts.len() {
            ensure!(!tri_overlap(ts[i], ts[j]), "overlap", "triangles {:?} and {:?} overlap", tris[i], tris[j]);
        }
        // no polygon edge passes through the interior of a triangle, and its centroid is not outside
        let s = ts[i];
        for k in 0..n {
            let (a, b) = (v[k], v[(k + 1) % n]);
            ensure!(!enters(a, b, s), "outside", "edge {a:?}-{b:?} passes through triangle {:?}", tris[i]);
        }
        if orient(s[0], s[1], s[2]) != 0 {
            let c3 = (s[0].0 + s[1].0 + s[2].0, s[0].1 + s[1].1 + s[2].1);
            let v3: Vec<P> = v.iter().map(|p| (3 * p.0, 3 * p.1)).collect();
            ensure!(locate(c3, &v3) == Loc::In, "outside", "triangle {:?} lies outside the polygon", tris[i]);
        }
    }
    Ok(())
}

/// does the segment a b pass through the open interior of the triangle?
fn enters(a: P, b: P, t: [P; 3]) -> bool {
    let o = orient(t[0], t[1], t[2]);
    if o == 0 {
        return false;
    }
    let t = if o < 0 { [t[0], t[2], t[1]] } else { t };
    // clip the segment with the three half planes: parameters with strictly positive orientation
    let (mut lo, mut hi) = (Q::int(0), Q::int(1));
    for i in 0..3 {
        let (p, q) = (t[i], t[(i + 1) % 3]);
        let fa = orient(p, q, a);
        let fb = orient(p, q, b);
        if fa <= 0 && fb <= 0 {
            return false;
        }
        if fa != fb {
            let r = Q::new(fa, fa - fb);
            if fb > fa {
                if r > lo {
                    lo = r;
                }
            } else if r < hi {
                hi = r;
            }
        }
    }
    lo < hi
}

fn earcut_family<T: Num>(name: &'static str, polys: Vec<Vec<P>>, maps: &'static [Map], rot: bool) -> Family {
    family(
        name,
        format!("{} simple polygons{}, {} maps, {}", polys.len(), if rot { " from every start vertex" } else { "" }, maps.len(), T::NAME),
        move |cx| {
            let m = cx.pick_from(maps);
            let i = cx.pick(polys.len());
            let v = turned(cx, &polys[i], rot, false);
            earcut_case::<T>(cx, &m, &v)
        },
    )
}
fn earcut_near(name: &'static str, sc: &'static Scale, base: Vec<P>, offsets: &[P], hi: usize) -> Family {
    let polys = near_polys(sc, &base, offsets, 3, hi);
    family(name, format!("{} simple polygons with vertices in clusters {} across on a lattice, every start vertex, 2 maps", polys.len(), sc.what), move |cx| {
        let m = cx.pick_from(sc.maps);
        let i = cx.pick(polys.len());
        if short_edge(&m, &polys[i]) {
            return Err(Stop::Prune);
        }
        let v = turned(cx, &polys[i], true, false);
        earcut_case::<f64>(cx, &m, &v)
    })
}
fn earcut_large(name: &'static str, maps: &'static [Map]) -> Family {
    let s = large_polys();
    family(name, format!("{}, both directions, three start vertices, {} maps", sizes(&s), maps.len()), move |cx| {
        let m = cx.pick_from(maps);
        let i = cx.pick(s.len());
        let v = started(cx, &s[i]);
        earcut_case::<f64>(cx, &m, &v)
    })
}
fn earcut_structured(name: &'static str, ks: &[i64], maps: &'static [Map]) -> Family {
    let s = structured_all(ks);
    family(
        name,
        format!("{} structured polygons with up to {} vertices, both directions, every start vertex, {} maps", s.len(), s.iter().map(|x| x.1.len()).max().unwrap(), maps.len()),
        move |cx| {
            let m = cx.pick_from(maps);
            let i = cx.pick(s.len());
            let v = turned(cx, &s[i].1, true, true);
            earcut_case::<f64>(cx, &m, &v)
        },
    )
}
fn reject_family(name: &'static str, g: Vec<P>, k: usize, maps: &'static [Map]) -> Family {
    family(name, format!("all sequences of {k} of {} lattice points that are not simple polygons, {} maps", g.len(), maps.len()), move |cx| {
        let m = cx.pick_from(maps);
        let v: Vec<P> = (0..k).map(|_| cx.pick_from(&g)).collect();
        if is_simple(&v) {
            return Err(Stop::Prune);
        }
        cx.note(|| format!("map={} polygon {v:?}", m.name));
        cx.outcome("not simple");
        let r = cx.call_may_panic(|| earcut_2(poly::<f64>(&m, &v)));
        ensure!(r.is_none(), "accepted", "polygon that is not simple was triangulated: {r:?}");
        Ok(())
    })
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        explanation: "Every simple polygon of a small lattice from every start vertex in both directions, plus structured polygons of several dozen vertices, is triangulated on the real code; the triangles must be n-2 valid triples, inside, pairwise disjoint, with the polygon's area. Every non-simple vertex sequence must be rejected.",
        assumptions: &["three or more vertices"],
        families: |t| {
            let mut v = vec![
                earcut_family::<f64>("simple-3x3-n3to6", polys_upto(3, 3, 3, 6), ALL, true),
                earcut_family::<f64>("simple-3x3-n7to9", polys_upto(3, 3, 7, 9), SOME, true),
                earcut_family::<f32>("simple-3x3-f32", polys_upto(3, 3, 3, 6), ONE, true),
                earcut_family::<f64>("simple-4x4-n3to5", polys_upto(4, 4, 3, 5), TWO, true),
                earcut_near("near-2x2", CLOSE, grid(2, 2), OFFSETS3, 6),
                earcut_near("near-3x2", CLOSE, grid(3, 2), OFFSETS2, 6),
                earcut_near("slanted-3x2", SLANTS, grid(3, 2), OFFSETS2, 6),
                earcut_near("crisp-2x2", CRISPS, grid(2, 2), OFFSETS3, 6),
                earcut_near("crisp-3x2", CRISPS, grid(3, 2), OFFSETS2, 6),
                earcut_structured("structured", &[1, 2, 3, 4, 5], SOME),
                earcut_family::<f64>("simple-3x3-wide", polys_upto(3, 3, 3, 6), WIDE, false),
                earcut_structured("structured-wide", &[1, 3], WIDE),
                earcut_large("large", SOME),
                earcut_family::<f64>("simple-3x3-loose", polys_upto(3, 3, 3, 8), LOOSES, false),
                earcut_family::<f32>("simple-3x3-loose-f32", polys_upto(3, 3, 3, 6), LOOSES_32, false),
                earcut_family::<f64>("simple-4x4-loose", polys_upto(4, 4, 3, 5), LOOSES, false),
                earcut_structured("structured-loose", &[1, 2, 3, 4, 5], LOOSES),
                reject_family("reject-3x3-n3", grid(3, 3), 3, ALL),
                reject_family("reject-3x3-n4", grid(3, 3), 4, TWO),
                reject_family("reject-3x3-n5", grid(3, 3), 5, ONE),
                reject_family("reject-3x3-n4-loose", grid(3, 3), 4, LOOSES),
            ];
            if t == Tier::Thorough {
                v.push(reject_family("reject-3x3-n6", grid(3, 3), 6, ONE));
                v.push(earcut_structured("structured-large", &[6, 7, 8, 10], TWO));
                v.push(earcut_family::<f64>("simple-4x4-n6", polys_upto(4, 4, 6, 6), TWO, false));
                v.push(earcut_family::<f64>("simple-4x3-n7", polys_upto(4, 3, 7, 7), TWO, false));
                v.push(earcut_family::<f64>("simple-4x3-n8", polys_upto(4, 3, 8, 8), ONE, false));
                v.push(earcut_family::<f64>("simple-5x5-n4to5", polys_upto(5, 5, 4, 5), ONE, false));
            }
            v
        },
    }
}

// ------------------------------------------------------------------ C16

fn simple_case<T: Num>(cx: &mut Cx, m: &Map, v: &[P]) -> R {
    cx.note(|| format!("{} map={} polygon {v:?}", T::NAME, m.name));
    let want = is_simple(v);
    cx.outcome(if want { "simple" } else { "not simple" });
    let pol = poly::<T>(m, v);
    let got = cx.call("is_simple", || pol.is_simple())?;
    ensure!(got == want, "simple", "is_simple={got}, want {want}");
    Ok(())
}
fn simple_seq<T: Num>(name: &'static str, g: Vec<P>, k: usize, maps: &'static [Map]) -> Family {
    family(name, format!("all sequences of {k} of {} lattice points (repetition allowed), {} maps, {}", g.len(), maps.len(), T::NAME), move |cx| {
        let m = cx.pick_from(maps);
        let v: Vec<P> = (0..k).map(|_| cx.pick_from(&g)).collect();
        simple_case::<T>(cx, &m, &v)
    })
}
fn simple_near(name: &'static str, sc: &'static Scale, base: Vec<P>, offsets: &[P], k: usize) -> Family {
    let g = clusters_at(sc.unit, &base, offsets);
    family(name, format!("all sequences of {k} of {} points in clusters {} across on a lattice, 2 maps; sequences with parts nearer to one another than the tolerance are left out", g.len(), sc.what), move |cx| {
        let m = cx.pick_from(sc.maps);
        let v: Vec<P> = (0..k).map(|_| cx.pick_from(&g)).collect();
        let edges: Vec<(P, P)> = (0..k).map(|i| (v[i], v[(i + 1) % k])).collect();
        if short_edge(&m, &v) || unclear(&m, &v) || unclear_scene(&m, &edges) {
            return Err(Stop::Prune);
        }
        simple_case::<f64>(cx, &m, &v)
    })
}
/// structured polygons with one vertex moved anywhere near: almost all become slightly wrong
fn simple_moved(name: &'static str, ks: &[i64], r: i64, maps: &'static [Map]) -> Family {
    let s = structured_all(ks);
    family(name, format!("{} structured polygons with one vertex moved by up to {r} in each coordinate, {} maps", s.len(), maps.len()), move |cx| {
        let m = cx.pick_from(maps);
        let i = cx.pick(s.len());
        let mut v = s[i].1.clone();
        let j = cx.pick(v.len());
        let w = 2 * r as usize + 1;
        v[j].0 += [0, 1, -1, 2, -2, 3, -3, 4, -4][cx.pick(w)];
        v[j].1 += [0, 1, -1, 2, -2, 3, -3, 4, -4][cx.pick(w)];
        simple_case::<f64>(cx, &m, &v)
    })
}

/// large polygons as they are, or with one vertex moved by a little or onto another
fn simple_large(name: &'static str, lo: usize, hi: usize, maps: &'static [Map]) -> Family {
    let s: Vec<Vec<P>> = large_polys().into_iter().filter(|v| v.len() >= lo && v.len() <= hi).collect();
    family(name, format!("{}, whole or with every single vertex moved a step, or far, or onto another vertex or the middle of an edge, {} maps", sizes(&s), maps.len()), move |cx| {
        let m = cx.pick_from(maps);
        let i = cx.pick(s.len());
        let mut v: Vec<P> = s[i].iter().map(|p| (2 * p.0, 2 * p.1)).collect();
        let n = v.len();
        let j = cx.pick(n + 1);
        if j < n {
            let (w, x) = (v[(j + n / 2) % n], v[(j + n / 2 + 1) % n]);
            v[j] = match cx.pick(7) {
                0 => (v[j].0 + 2, v[j].1),
                1 => (v[j].0 - 1, v[j].1 + 3),
                2 => (v[j].0, -v[j].1),
                3 => w,
                4 => ((w.0 + x.0) / 2, (w.1 + x.1) / 2),
                5 => v[(j + 2) % n],
                _ => (v[j].0 + 1, v[j].1 - 9),
            };
        }
        simple_case::<f64>(cx, &m, &v)
    })
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        explanation: "Every closed vertex sequence of a small lattice (repeated vertices included; all start vertices and directions occur) and structured polygons with every single-vertex displacement, decided on the real code and compared with the exact pairwise edge test.",
        assumptions: &["at least three vertices"],
        families: |t| {
            let g3 = grid(3, 3);
            let mut v = vec![
                simple_seq::<f64>("sequences-3x3-n3", g3.clone(), 3, ALL),
                simple_seq::<f64>("sequences-3x3-n4", g3.clone(), 4, ALL),
                simple_seq::<f64>("sequences-3x3-n5", g3.clone(), 5, TWO),
                simple_seq::<f64>("sequences-4x4-n4", grid(4, 4), 4, TWO),
                simple_seq::<f32>("sequences-3x3-n4-f32", g3.clone(), 4, ONE),
                simple_seq::<f64>("sequences-3x3-n6", g3.clone(), 6, ONE),
                simple_near("near-2x2-n4", CLOSE, grid(2, 2), OFFSETS3, 4),
                simple_near("near-3x2-n4", CLOSE, grid(3, 2), OFFSETS2, 4),
                simple_near("near-2x2-n5", CLOSE, grid(2, 2), OFFSETS2, 5),
                simple_near("slanted-3x2-n4", SLANTS, grid(3, 2), OFFSETS3, 4),
                simple_near("crisp-2x2-n4", CRISPS, grid(2, 2), OFFSETS3, 4),
                simple_near("crisp-3x2-n4", CRISPS, grid(3, 2), OFFSETS2, 4),
                simple_moved("structured-moved", &[1, 2, 3], 2, TWO),
                simple_seq::<f64>("sequences-3x3-n4-wide", g3.clone(), 4, WIDE),
                simple_moved("structured-moved-wide", &[1, 2], 1, WIDE),
                simple_large("large", 0, 72, TWO),
                simple_seq::<f64>("sequences-3x3-n5-loose", g3.clone(), 5, LOOSES),
                simple_seq::<f64>("sequences-4x4-n4-loose", grid(4, 4), 4, LOOSES),
                simple_seq::<f32>("sequences-3x3-n4-loose-f32", g3.clone(), 4, LOOSES_32),
                simple_moved("structured-moved-loose", &[1, 2, 3], 2, LOOSES),
                simple_large("large-loose", 0, 40, LOOSES),
            ];
            if t == Tier::Thorough {
                v.push(simple_seq::<f64>("sequences-3x3-n5-all", g3.clone(), 5, ALL));
                v.push(simple_seq::<f64>("sequences-4x4-n5", grid(4, 4), 5, TWO));
                v.push(simple_seq::<f64>("sequences-3x3-n7", g3.clone(), 7, ONE));
                v.push(simple_large("larger", 73, 200, TWO));
                v.push(simple_moved("structured-moved-far", &[2, 3, 4, 5, 6], 4, ONE));
            }
            v
        },
    }
}

// ------------------------------------------------------------------ C17

fn measure_case<T: Num>(cx: &mut Cx, m: &Map, v: &[P]) -> R {
    let tol = if T::NAME == "f32" { 1e-2 } else { 1e-7 };
    cx.note(|| format!("{} map={} polygon {v:?}", T::NAME, m.name));
    let pol = poly::<T>(m, v);
    let want = if v.len() < 3 { 0.0 } else { area2(v) as f64 / 2.0 * m.det() };
    cx.outcome(if want > 0.0 {
        "positive area"
    } else if want < 0.0 {
        "negative area"
    } else {
        "zero area"
    });
    let got = cx.call("area", || pol.area())?.f();
    let exact = m.exact && m.e.abs() < 1000.0;
    if exact {
        ensure!(got == want, "area", "area {got}, want {want}");
    } else {
        ensure!((got - want).abs() <= tol * (1.0 + want.abs()), "area", "area {got}, want {want}");
    }
    let vs: Vec<(f64, f64)> = v.iter().map(|p| xy(&mp::<T>(m, *p))).collect();
    let gv = cx.call("vertices", || pol.vertices())?;
    ensure!(xys(&gv) == vs, "vertices", "vertices {:?}, want {vs:?}", xys(&gv));
    let ge = cx.call("edges", || pol.edges())?;
    let ge: Vec<_> = ge.iter().map(|e| (xy(&e.source()), xy(&e.target()))).collect();
    let we: Vec<_> = (0..v.len()).map(|i| (vs[i], vs[(i + 1) % vs.len()])).collect();
    ensure!(ge == we, "edges", "edges {ge:?}, want {we:?}");
    Ok(())
}
fn measure_seq<T: Num>(name: &'static str, g: Vec<P>, k: usize, maps: &'static [Map]) -> Family {
    family(name, format!("all sequences of {k} of {} lattice points, {} maps, {}", g.len(), maps.len(), T::NAME), move |cx| {
        let m = cx.pick_from(maps);
        let v: Vec<P> = (0..k).map(|_| cx.pick_from(&g)).collect();
        measure_case::<T>(cx, &m, &v)
    })
}
fn triangle_measures<T: Num>(name: &'static str, g: Vec<P>, maps: &'static [Map]) -> Family {
    family(name, format!("all ordered triangles of {} lattice points (flat ones included), {} maps, {}", g.len(), maps.len(), T::NAME), move |cx| {
        let m = cx.pick_from(maps);
        let p = [cx.pick_from(&g), cx.pick_from(&g), cx.pick_from(&g)];
        triangle_measure::<T>(cx, &m, p)
    })
}
fn triangle_measure<T: Num>(cx: &mut Cx, m: &Map, p: [P; 3]) -> R {
    cx.note(|| format!("{} map={} triangle {p:?}", T::NAME, m.name));
    let c = [mp::<T>(m, p[0]), mp(m, p[1]), mp(m, p[2])];
    let mut t = cx.call("Triangle2::new", || Triangle2::new(c[0], c[1], c[2]))?;
    let v: Vec<_> = c.iter().map(xy).collect();
    ensure!(xys(&t.vertices()) == v && xys(&[t.a(), t.b(), t.c()]) == v, "vertices", "vertices {:?}", xys(&t.vertices()));
    let e: Vec<_> = t.edges().iter().map(|e| (xy(&e.source()), xy(&e.target()))).collect();
    ensure!(e == vec![(v[0], v[1]), (v[1], v[2]), (v[2], v[0])], "edges", "edges {e:?}");
    let want = orient(p[0], p[1], p[2]) as f64 / 2.0 * m.det();
    if !m.exact && want == 0.0 {
        return Ok(());
    }
    let ccw = want > 0.0;
    cx.outcome(if ccw {
        "counter-clockwise"
    } else if want < 0.0 {
        "clockwise"
    } else {
        "flat"
    });
    let o = cx.call("orientation", || t.orientation())?;
    ensure!((o == Orientation::CounterClockwise) == ccw, "orientation", "orientation {o:?}, want counter-clockwise={ccw}");
    let tol = 1e-9 * (1.0 + want.abs());
    let a = cx.call("area", || t.area())?.f();
    ensure!((a - want).abs() <= if m.exact { 0.0 } else { tol }, "area", "area {a}, want {want}");
    for turn in 1..=3 {
        cx.call("reverse_orientation", || t.reverse_orientation())?;
        let odd = turn % 2 == 1;
        let (o2, a2) = (t.orientation(), t.area().f());
        ensure!((o2 == o) != odd, "reverse", "orientation {o2:?} after {turn} reversals of {o:?}");
        let w2 = if odd { -a } else { a };
        ensure!(a2 == w2, "reverse", "area {a2} after {turn} reversals of {a}");
        ensure!(xys(&t.vertices()) == v, "reverse", "vertices changed");
    }
    Ok(())
}
fn triangle_near(name: &'static str, g: Vec<P>) -> Family {
    let all: Vec<[P; 3]> = g.iter().flat_map(|a| g.iter().flat_map(|b| g.iter().map(|c| [*a, *b, *c]).collect::<Vec<_>>()).collect::<Vec<_>>()).filter(|t| well_off(t)).collect();
    family(name, format!("{} ordered triangles of points in clusters 2.4e-7 across: those not flatter than the tolerance", all.len()), move |cx| {
        let t = cx.pick_from(&all);
        triangle_measure::<f64>(cx, &NEAR, t)
    })
}
fn measure_large(name: &'static str, maps: &'static [Map]) -> Family {
    let s = large_polys();
    family(name, format!("{}, both directions, three start vertices, {} maps", sizes(&s), maps.len()), move |cx| {
        let m = cx.pick_from(maps);
        let i = cx.pick(s.len());
        let v = started(cx, &s[i]);
        measure_case::<f64>(cx, &m, &v)
    })
}
fn measure_structured(name: &'static str, ks: &[i64], maps: &'static [Map]) -> Family {
    let s = structured_all(ks);
    family(name, format!("{} structured polygons, both directions, every start vertex, {} maps", s.len(), maps.len()), move |cx| {
        let m = cx.pick_from(maps);
        let i = cx.pick(s.len());
        let v = turned(cx, &s[i].1, true, true);
        measure_case::<f64>(cx, &m, &v)
    })
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        explanation: "Every vertex sequence of up to five (thorough: six) lattice points, self-crossing ones included, structured polygons, and every lattice triangle: area, edges, vertices, orientation and its reversal compared with exact integer arithmetic (bit for bit where the coordinates are exact).",
        assumptions: &["flat triangles have no left turn, so they count as clockwise"],
        families: |t| {
            let g3 = grid(3, 3);
            let g4 = grid(4, 4);
            let mut v = vec![
                measure_seq::<f64>("sequences-n1", g3.clone(), 1, ALL),
                measure_seq::<f64>("sequences-n2", g3.clone(), 2, ALL),
                measure_seq::<f64>("sequences-n3", g3.clone(), 3, ALL),
                measure_seq::<f64>("sequences-n4", g3.clone(), 4, ALL),
                measure_seq::<f64>("sequences-n5", g3.clone(), 5, SOME),
                measure_seq::<f32>("sequences-n4-f32", g3.clone(), 4, F32),
                measure_structured("structured", &[1, 2, 3, 5], SOME),
                measure_large("large", ALL),
                triangle_measures::<f64>("triangles", g4.clone(), ALL),
                triangle_measures::<f32>("triangles-f32", g4.clone(), F32),
                measure_seq::<f64>("sequences-n4-scales", g3.clone(), 4, SCALES),
                measure_seq::<f32>("sequences-n3-scales-f32", g3.clone(), 3, SCALES32),
                triangle_measures::<f64>("triangles-scales", g4.clone(), SCALES),
                measure_seq::<f64>("sequences-near-n4", clusters(&grid(2, 2), OFFSETS3), 4, NEAR_ONLY),
                measure_seq::<f64>("sequences-near-n3", clusters(&grid(3, 2), OFFSETS3), 3, NEAR_ONLY),
                triangle_near("triangles-near", clusters(&grid(2, 2), OFFSETS5)),
                triangle_measures::<f32>("triangles-scales-f32", g3.clone(), SCALES32),
            ];
            {
                v.push(measure_seq::<f64>("sequences-n6", g3.clone(), 6, SOME));
                v.push(measure_seq::<f64>("sequences-4x4-n5", g4.clone(), 5, TWO));
                v.push(measure_structured("structured-large", &[6, 8, 10, 12], SOME));
                v.push(triangle_measures::<f64>("triangles-6x6", grid(6, 6), ALL));
            }
            if t == Tier::Thorough {
                v.push(measure_seq::<f64>("sequences-n7", g3.clone(), 7, TWO));
                v.push(measure_seq::<f64>("sequences-n6-all", g3.clone(), 6, ALL));
                v.push(measure_seq::<f64>("sequences-5x5-n5", grid(5, 5), 5, ONE));
                v.push(triangle_measures::<f64>("triangles-12x12", grid(12, 12), ALL));
            }
            v
        },
    }
}
const SCALES: &[Map] = &[TINY, SMALL, BIG];
const SCALES32: &[Map] = &[SMALL, BIG];
const LARGE: &[Map] = &[BIG];
const F32: &[Map] = &[ID, EIGHTH, HALF_NEG, MIRROR];

// ------------------------------------------------------------------ C18

fn convex_case<T: Num>(cx: &mut Cx, m: &Map, v: &[P]) -> R {
    cx.note(|| format!("{} map={} polygon {v:?}", T::NAME, m.name));
    let want = is_convex(v);
    cx.outcome(if want { "convex" } else { "not convex" });
    let pol = poly::<T>(m, v);
    let got = cx.call("is_convex", || pol.is_convex())?;
    ensure!(got == want, "convex", "is_convex={got}, want {want}");
    Ok(())
}
fn convex_family<T: Num>(name: &'static str, polys: Vec<Vec<P>>, maps: &'static [Map]) -> Family {
    family(name, format!("{} simple polygons from every start vertex, {} maps, {}", polys.len(), maps.len(), T::NAME), move |cx| {
        let m = cx.pick_from(maps);
        let i = cx.pick(polys.len());
        let v = turned(cx, &polys[i], true, false);
        convex_case::<T>(cx, &m, &v)
    })
}
fn turn_family<T: Num>(name: &'static str, g: Vec<P>, maps: &'static [Map]) -> Family {
    family(name, format!("all triples of {} lattice points, {} maps, {}", g.len(), maps.len(), T::NAME), move |cx| {
        let m = cx.pick_from(maps);
        let p = [cx.pick_from(&g), cx.pick_from(&g), cx.pick_from(&g)];
        if unclear(&m, &p) || short_edge(&m, &p) {
            return Err(Stop::Prune);
        }
        cx.note(|| format!("{} map={} turn of {p:?}", T::NAME, m.name));
        let c = [mp::<T>(&m, p[0]), mp(&m, p[1]), mp(&m, p[2])];
        let mut o = orient(p[0], p[1], p[2]);
        if m.flips() {
            o = -o;
        }
        for (a, b, d, s) in [(0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (1, 0, 2, -1), (0, 2, 1, -1), (2, 1, 0, -1)] {
            let want = match (o * s).signum() {
                1 => TurnDirection::Left,
                -1 => TurnDirection::Right,
                _ => TurnDirection::Collinear,
            };
            let got = cx.call("turn", || Point2::turn(&c[a], &c[b], &c[d]))?;
            ensure!(got == want, "turn", "turn of points {a},{b},{d} is {got:?}, want {want:?}");
        }
        cx.outcome(match o.signum() {
            1 => "left",
            -1 => "right",
            _ => "collinear",
        });
        Ok(())
    })
}
fn convex_near(name: &'static str, sc: &'static Scale, base: Vec<P>, offsets: &[P], hi: usize) -> Family {
    let polys = near_polys(sc, &base, offsets, 3, hi);
    family(name, format!("{} simple polygons with vertices in clusters {} across on a lattice, every start vertex, 2 maps", polys.len(), sc.what), move |cx| {
        let m = cx.pick_from(sc.maps);
        let i = cx.pick(polys.len());
        if short_edge(&m, &polys[i]) {
            return Err(Stop::Prune);
        }
        let v = turned(cx, &polys[i], true, false);
        convex_case::<f64>(cx, &m, &v)
    })
}
/// large convex rings with each vertex as it is, pulled in (to between its neighbours, or further)
/// or straightened; and other large polygons
fn convex_large(name: &'static str, maps: &'static [Map]) -> Family {
    let s = large_polys();
    let rings: Vec<Vec<P>> = [2, 3, 4, 5].iter().map(|r| convex_ring(*r).into_iter().map(|p| (4 * p.0, 4 * p.1)).collect()).collect();
    family(name, format!("{}; convex rings of up to {} vertices, each vertex as it is, straightened, pulled in a little or far; both directions, three start vertices, {} maps", sizes(&s), rings[3].len(), maps.len()), move |cx| {
        let m = cx.pick_from(maps);
        let k = cx.pick(s.len() + 4);
        let mut v = if k < s.len() { s[k].clone() } else { rings[k - s.len()].clone() };
        if k >= s.len() {
            let n = v.len();
            let j = cx.pick(n);
            let (a, b, c) = (v[(j + n - 1) % n], v[j], v[(j + 1) % n]);
            let mid = ((a.0 + c.0) / 2, (a.1 + c.1) / 2);
            match cx.pick(4) {
                0 => {}
                1 => v[j] = mid,
                2 => v[j] = (3 * mid.0 - 2 * b.0, 3 * mid.1 - 2 * b.1),
                _ => v[j] = ((b.0 + 3 * mid.0) / 4, (b.1 + 3 * mid.1) / 4),
            }
            if !is_simple(&v) {
                return Err(Stop::Prune);
            }
        }
        let v = started(cx, &v);
        convex_case::<f64>(cx, &m, &v)
    })
}
fn convex_structured(name: &'static str, ks: &[i64], maps: &'static [Map]) -> Family {
    let mut s: Vec<Vec<P>> = structured_all(ks).into_iter().map(|x| x.1).collect();
    // convex polygons with many vertices, each with one vertex pulled in
    let ring: Vec<P> = vec![(12, 0), (11, 4), (8, 8), (4, 11), (0, 12), (-4, 11), (-8, 8), (-11, 4), (-12, 0), (-11, -4), (-8, -8), (-4, -11), (0, -12), (4, -11), (8, -8), (11, -4)];
    s.push(ring.clone());
    for i in 0..ring.len() {
        let mut r = ring.clone();
        r[i] = (r[i].0 / 2, r[i].1 / 2);
        s.push(r);
        // exactly straight at i: the midpoint of its neighbours
        let mut r: Vec<P> = ring.iter().map(|p| (2 * p.0, 2 * p.1)).collect();
        let (a, b) = (ring[(i + 15) % 16], ring[(i + 1) % 16]);
        r[i] = (a.0 + b.0, a.1 + b.1);
        s.push(r);
    }
    family(name, format!("{} structured polygons (convex rings with one vertex pulled in or straightened among them), both directions, every start vertex, {} maps", s.len(), maps.len()), move |cx| {
        let m = cx.pick_from(maps);
        let i = cx.pick(s.len());
        let v = turned(cx, &s[i], true, true);
        convex_case::<f64>(cx, &m, &v)
    })
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        explanation: "Every simple lattice polygon from every start vertex in both directions, convex rings with single vertices pulled in or straightened, and every triple of lattice points in all six orders, compared with exact integer arithmetic.",
        assumptions: &["polygons are simple"],
        families: |t| {
            let mut v = vec![
                convex_family::<f64>("simple-3x3-n3to6", polys_upto(3, 3, 3, 6), ALL),
                convex_family::<f64>("simple-3x3-n7to9", polys_upto(3, 3, 7, 9), SOME),
                convex_family::<f32>("simple-3x3-f32", polys_upto(3, 3, 3, 6), EXACT),
                convex_family::<f64>("simple-4x4-n3to5", polys_upto(4, 4, 3, 5), ALL),
                convex_structured("structured", &[1, 2, 3, 5, 8], ALL),
                convex_large("large", ALL),
                convex_family::<f64>("simple-3x3-loose", polys_upto(3, 3, 3, 7), LOOSES),
                convex_family::<f64>("simple-4x4-loose", polys_upto(4, 4, 3, 5), LOOSES),
                turn_family::<f64>("turn-5x5-loose", grid(5, 5), LOOSES),
                turn_family::<f32>("turn-3x3-loose-f32", grid(3, 3), LOOSES_32),
                convex_family::<f32>("simple-3x3-loose-f32", polys_upto(3, 3, 3, 6), LOOSES_32),
                convex_structured("structured-loose", &[1, 2, 3, 5, 8], LOOSES),
                turn_family::<f64>("turn-5x5", grid(5, 5), ALL),
                turn_family::<f32>("turn-5x5-f32", grid(5, 5), EXACT),
                turn_family::<f64>("turn-4x4-wide", grid(4, 4), WIDE),
                turn_family::<f64>("turn-near-3x3", clusters(&grid(3, 3), OFFSETS3), NEARS),
                turn_family::<f64>("turn-near-2x2", clusters(&grid(2, 2), OFFSETS5), NEARS),
                turn_family::<f64>("turn-crisp-3x3", clusters_at(CRISPS.unit, &grid(3, 3), OFFSETS5), CRISPS.maps),
                convex_near("near-2x2", CLOSE, grid(2, 2), OFFSETS3, 5),
                convex_near("near-3x2", CLOSE, grid(3, 2), OFFSETS2, 5),
                turn_family::<f64>("turn-slanted", clusters_at(64, &grid(3, 3), OFFSETS3), SLANTED),
                convex_near("slanted-3x2", SLANTS, grid(3, 2), OFFSETS2, 5),
                convex_near("crisp-2x2", CRISPS, grid(2, 2), OFFSETS3, 5),
                convex_near("crisp-3x2", CRISPS, grid(3, 2), OFFSETS2, 5),
                convex_family::<f64>("simple-3x3-wide", polys_upto(3, 3, 3, 6), WIDE),
                turn_family::<f64>("turn-4x4-large", grid(4, 4), LARGE),
                turn_family::<f32>("turn-4x4-large-f32", grid(4, 4), LARGE),
                convex_family::<f64>("simple-3x3-large", polys_upto(3, 3, 3, 5), LARGE),
            ];
            {
                v.push(convex_family::<f64>("simple-4x4-n6", polys_upto(4, 4, 6, 6), SOME));
                v.push(turn_family::<f64>("turn-8x8", grid(8, 8), ALL));
            }
            if t == Tier::Thorough {
                v.push(turn_family::<f64>("turn-16x16", grid(16, 16), ALL));
                v.push(turn_family::<f64>("turn-10x10-wide", grid(10, 10), STIFF));
                v.push(convex_family::<f64>("simple-4x4-n7", polys_upto(4, 4, 7, 7), TWO));
                v.push(convex_family::<f64>("simple-4x3-n8", polys_upto(4, 3, 7, 8), SOME));
                v.push(convex_family::<f64>("simple-5x5-n3to5", polys_upto(5, 5, 3, 5), SOME));
                v.push(convex_family::<f64>("simple-4x4-n6-wide", polys_upto(4, 4, 3, 6), WIDE));
            }
            v
        },
    }
}
