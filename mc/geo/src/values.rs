//! C20, C24: values (points, vectors, lines) and half-edge records.
use crate::common::*;
use mccore::Stop;
use rcgal::kernel::segment_2::Segment2;
use rcgal::kernel::{edge_2::Edge2, util_enum::Edge2Type, vertex_2::Vertex2};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::f64::consts::PI;
use std::rc::Rc;

// ---------------------------------------------------------------------------------------
// C20

/// A point named by its cluster (lattice position) and its displacement within the cluster.
#[derive(Clone, Copy, Debug)]
struct Jit {
    at: P,
    dx: i64,
    dy: i64,
}
fn pick_jit(cx: &mut Cx, g: &[P]) -> Jit {
    let at = cx.pick_from(g);
    Jit { at, dx: cx.pick(3) as i64 - 1, dy: cx.pick(3) as i64 - 1 }
}
fn place<T: Num>(m: &Map, j: Jit) -> (f64, f64) {
    let (x, y) = m.p(j.at);
    // a tenth of the tolerance of the number type
    let e = if T::NAME == "f32" { 1e-7 } else { 1e-11 };
    (x + j.dx as f64 * e, y + j.dy as f64 * e)
}
/// larger x first, then larger y
fn want_order(a: P, b: P) -> Ordering {
    b.0.cmp(&a.0).then(b.1.cmp(&a.1))
}

trait Ordered: Ord + PartialEq {}
impl<X: Ord + PartialEq> Ordered for X {}

fn compare_pair<X: Ordered>(cx: &mut Cx, what: &str, a: &X, b: &X, want: Ordering) -> R {
    let c = cx.call("cmp", || a.cmp(b))?;
    ensure!(c == want, "order", "{what}: cmp gives {c:?}, want {want:?}");
    let p = cx.call("partial_cmp", || a.partial_cmp(b))?;
    ensure!(p == Some(want), "order", "{what}: partial_cmp gives {p:?}, want {want:?}");
    let e = cx.call("eq", || a == b)?;
    ensure!(e == (want == Ordering::Equal), "equality", "{what}: equal={e}, want {want:?}");
    let (lt, gt) = (a < b, a > b);
    ensure!(lt == (want == Ordering::Less) && gt == (want == Ordering::Greater), "order", "{what}: <={lt} >={gt}, want {want:?}");
    Ok(())
}

fn order_family<T: Num>(name: &'static str, maps: &'static [Map], w: i64) -> Family {
    let g = grid(w, w);
    family(name, format!("{}: all ordered pairs of points out of {} lattice positions x 9 displacements by a tenth of the tolerance, {} maps, as points and as vertices", T::NAME, g.len(), maps.len()), move |cx| {
        let m = cx.pick_from(maps);
        let (a, b) = (pick_jit(cx, &g), pick_jit(cx, &g));
        let (pa, pb) = (place::<T>(&m, a), place::<T>(&m, b));
        cx.note(|| format!("{} {pa:?} and {pb:?}", T::NAME));
        let want = want_order_mapped(&m, a.at, b.at);
        cx.outcome(match want {
            Ordering::Less => "before",
            Ordering::Equal => "equal",
            Ordering::Greater => "after",
        });
        compare_pair(cx, "points", &pt::<T>(pa), &pt::<T>(pb), want)?;
        let d = cx.call("distance", || pt::<T>(pa).distance(&pt::<T>(pb)))?.f();
        let wd = (pa.0 - pb.0).hypot(pa.1 - pb.1);
        let tol = if T::NAME == "f32" { 1e-5 } else { 1e-9 };
        ensure!((d - wd).abs() < tol * (1.0 + wd), "distance", "distance {d}, want {wd}");
        let eq = cx.call("equals", || pt::<T>(pa).equals(&pt::<T>(pb)))?;
        ensure!(eq == (want == Ordering::Equal), "equality", "equals={eq}, want {want:?}");
        let va = Vertex2::<T>::new(n(pa.0), n(pa.1));
        let vb = Vertex2::<T>::new(n(pb.0), n(pb.1));
        compare_pair(cx, "vertices", &va, &vb, want)?;
        let eq = cx.call("equals", || va.equals(&vb))?;
        ensure!(eq == (want == Ordering::Equal), "equality", "vertex equals={eq}, want {want:?}");
        let p = cx.call("to_point", || va.to_point())?;
        let t = pt::<T>(pa);
        ensure!(p.x().f() == t.x().f() && p.y().f() == t.y().f(), "to_point", "{p:?} of a vertex at {t:?}");
        ensure!(va.x().f() == t.x().f() && va.y().f() == t.y().f(), "accessors", "vertex coordinates ({}, {})", va.x(), va.y());
        Ok(())
    })
}
fn want_order_mapped(m: &Map, a: P, b: P) -> Ordering {
    if a == b {
        return Ordering::Equal;
    }
    let (pa, pb) = (m.p(a), m.p(b));
    if (pa.0 - pb.0).abs() < 1e-4 {
        pb.1.partial_cmp(&pa.1).unwrap()
    } else {
        pb.0.partial_cmp(&pa.0).unwrap()
    }
}

/// sorting k jittered points gives the reference order, whatever order they come in
fn sort_family(name: &'static str, w: i64, k: usize) -> Family {
    let g = grid(w, w);
    family(name, format!("all sequences of {k} out of {} lattice positions x 3 displacements: transitivity, sorting, maximum", g.len()), move |cx| {
        let js: Vec<Jit> = (0..k)
            .map(|_| {
                let at = cx.pick_from(&g);
                let d = cx.pick_from(&[(0, 0), (1, -1), (-1, 1)]);
                Jit { at, dx: d.0, dy: d.1 }
            })
            .collect();
        cx.note(|| format!("{js:?}"));
        let ps: Vec<Point2<f64>> = js.iter().map(|j| pt(place::<f64>(&exact::ID, *j))).collect();
        let mut s = ps.clone();
        cx.call("sort", || s.sort())?;
        let mut want: Vec<P> = js.iter().map(|j| j.at).collect();
        want.sort_by(|a, b| want_order(*a, *b));
        let got: Vec<P> = s.iter().map(|p| (p.x().round() as i64, p.y().round() as i64)).collect();
        ensure!(got == want, "sort", "sorted {got:?}, want {want:?}");
        let max = cx.call("max", || *ps.iter().max().unwrap())?;
        let low = js.iter().map(|j| j.at).min().unwrap();
        ensure!((max.x().round() as i64, max.y().round() as i64) == low, "max", "maximum {max:?}, want {low:?}");
        cx.outcome("sorted");
        Ok(())
    })
}

fn vector_family<T: Num>(name: &'static str, r: i64, scale: f64) -> Family {
    let side = (2 * r + 1) as usize;
    let tol = if T::NAME == "f32" { 3e-6 } else { 1e-12 };
    family(name, format!("{}: all ordered pairs of vectors with components in {scale} * [-{r}, {r}]", T::NAME), move |cx| {
        let mut v = [0i64; 4];
        for x in v.iter_mut() {
            *x = cx.pick(side) as i64 - r;
        }
        let [ax, ay, bx, by] = v.map(|x| x as f64 * scale);
        cx.note(|| format!("{} ({ax}, {ay}) and ({bx}, {by})", T::NAME));
        let (a, b) = (Vector2::<T>::new(n(ax), n(ay)), Vector2::<T>::new(n(bx), n(by)));
        let (la, lb) = (ax.hypot(ay), bx.hypot(by));
        let size = 1.0 + la * lb + la + lb;
        let near = |got: T, want: f64, what: &str| -> R {
            ensure!((got.f() - want).abs() <= tol * size, "algebra", "{what} = {got}, want {want}");
            Ok(())
        };
        near(cx.call("dot", || a.dot(&b))?, ax * bx + ay * by, "dot")?;
        near(cx.call("cross", || a.cross(&b))?, ax * by - ay * bx, "cross")?;
        near(cx.call("length", || a.length())?, la, "length")?;
        let s = cx.call("add", || a + b)?;
        near(s.x(), ax + bx, "sum x")?;
        near(s.y(), ay + by, "sum y")?;
        let d = cx.call("sub", || a - b)?;
        near(d.x(), ax - bx, "difference x")?;
        near(d.y(), ay - by, "difference y")?;
        let k = 0.5 * v[2] as f64 + 0.25;
        let mlt = cx.call("mul", || a * n(k))?;
        near(mlt.x(), ax * k, "multiple x")?;
        near(mlt.y(), ay * k, "multiple y")?;
        let dv = cx.call("div", || a / n(k))?;
        near(dv.x(), ax / k, "quotient x")?;
        near(dv.y(), ay / k, "quotient y")?;
        let (pa, pb) = (pt::<T>((ax, ay)), pt::<T>((bx, by)));
        let dp = cx.call("point difference", || pa - pb)?;
        near(dp.x(), ax - bx, "point difference x")?;
        near(dp.y(), ay - by, "point difference y")?;
        let sp = cx.call("point sum", || pa + pb)?;
        near(sp.x(), ax + bx, "point sum x")?;
        near(sp.y(), ay + by, "point sum y")?;
        let gv = cx.call("get_vector", || pa.get_vector())?;
        near(gv.x(), ax, "vector x of a point")?;
        near(gv.y(), ay, "vector y of a point")?;
        near(cx.call("distance", || pa.distance(&pb))?, (ax - bx).hypot(ay - by), "distance")?;
        let e = cx.call("vector eq", || a == b)?;
        ensure!(e == (v[0] == v[2] && v[1] == v[3]), "equality", "vectors equal={e}");
        if (v[0], v[1]) == (0, 0) {
            let u = cx.call("normalize", || a.normalize())?;
            ensure!(u.x().f() == 0.0 && u.y().f() == 0.0, "algebra", "the zero vector normalises to {u:?}");
        }
        if (v[0], v[1]) != (0, 0) {
            let u = cx.call("normalize", || a.normalize())?;
            near(u.x(), ax / la, "unit x")?;
            near(u.y(), ay / la, "unit y")?;
            if (v[2], v[3]) != (0, 0) {
                // sums of a few radians are rounded to 5e-7 in f32
                let t = if T::NAME == "f32" { 4e-6 } else { 1e-9 };
                let th = cx.call("radian_to", || a.radian_to(&b))?.f();
                let want = (by.atan2(bx) - ay.atan2(ax)).rem_euclid(2.0 * PI);
                let off = (th - want).rem_euclid(2.0 * PI);
                let off = off.min(2.0 * PI - off);
                ensure!(off < t && th >= 0.0 && th < 2.0 * PI + t, "angle", "radian_to = {th}, want {want}");
                let parallel = v[0] * v[3] == v[1] * v[2];
                let det = v[0] * v[3] - v[1] * v[2];
                let dot = v[0] * v[2] + v[1] * v[3];
                cx.outcome(if parallel { "parallel" } else { "turning" });
                // exact quadrant of the turning angle
                let ok = if parallel {
                    if dot > 0 { th < t || th > 2.0 * PI - t } else { (th - PI).abs() < t }
                } else if det > 0 {
                    th > 0.0 && th < PI && (th < PI / 2.0 + t) == (dot >= 0)
                } else {
                    th > PI && th < 2.0 * PI && (th > 1.5 * PI - t) == (dot >= 0)
                };
                ensure!(ok, "angle", "radian_to = {th}, det {det}, dot {dot}");
            }
        }
        Ok(())
    })
}

/// very short and very long vectors keep their direction
fn normalize_family() -> Family {
    family("normalize-lengths", "48 directions x lengths 1e-7 .. 1e7, both float types", |cx| {
        let i = cx.pick(48);
        let l = cx.pick_from(&[1.0, 1e-3, 1e-5, 1e-7, 1e3, 1e7, 0.3]);
        let single = cx.flag();
        if single && l < 1e-5 {
            return Err(Stop::Prune);
        }
        let th = i as f64 * PI / 24.0;
        let (x, y) = (l * th.cos(), l * th.sin());
        cx.note(|| format!("({x}, {y}) f32={single}"));
        let (ux, uy) = if single {
            let u = cx.call("normalize", || Vector2::<f32>::new(x as f32, y as f32).normalize())?;
            (u.x() as f64, u.y() as f64)
        } else {
            let u = cx.call("normalize", || Vector2::<f64>::new(x, y).normalize())?;
            (u.x(), u.y())
        };
        cx.outcome("normalized");
        ensure!((ux - th.cos()).abs() < 1e-5 && (uy - th.sin()).abs() < 1e-5, "unit", "unit vector ({ux}, {uy})");
        Ok(())
    })
}

/// line and segment equality
fn line_family(name: &'static str, w: i64, maps: &'static [Map]) -> Family {
    let g = grid(w, w);
    family(name, format!("all pairs of point pairs of a {w}x{w} grid, as lines and as directed segments, {} maps", maps.len()), move |cx| {
        let m = cx.pick_from(maps);
        let (p, q, r, s) = (cx.pick_from(&g), cx.pick_from(&g), cx.pick_from(&g), cx.pick_from(&g));
        if p == q || r == s {
            return Err(Stop::Prune);
        }
        cx.note(|| format!("map={} {p:?}-{q:?} and {r:?}-{s:?}", m.name));
        let same = exact::orient(p, q, r) == 0 && exact::orient(p, q, s) == 0;
        let (a, b) = (Line2::<f64>::from_points(&mp(&m, p), &mp(&m, q)), Line2::<f64>::from_points(&mp(&m, r), &mp(&m, s)));
        let e = cx.call("line eq", || a == b)?;
        ensure!(e == same, "line equality", "equal={e}, want {same}");
        cx.outcome(if same { "same line" } else { "different lines" });
        let (x1, y1) = m.p(p);
        let v = a.a() * x1 + a.b() * y1 + a.c();
        let (x2, y2) = m.p(q);
        let w = a.a() * x2 + a.b() * y2 + a.c();
        ensure!(v.abs() < 1e-7 && w.abs() < 1e-7, "line through points", "the equation gives {v} and {w} on its own points");
        let k = Line2::new(a.a() * -3.0, a.b() * -3.0, a.c() * -3.0);
        let e = cx.call("line eq", || k == b)?;
        ensure!(e == same, "line equality", "with multiplied coefficients: equal={e}, want {same}");
        let (sa, sb) = (seg::<f64>(&m, (p, q)), seg::<f64>(&m, (r, s)));
        let e = cx.call("segment eq", || sa == sb)?;
        ensure!(e == ((p, q) == (r, s)), "segment equality", "equal={e}");
        ensure!(xy(&sa.source()) == m.p(p) && xy(&sa.target()) == m.p(q), "accessors", "{sa:?}");
        Ok(())
    })
}

/// arc equality: same circle and same ends
fn arc_family() -> Family {
    family("arc-equality", "all pairs of arcs: 3 circles x 8 starts x 8 spans", |cx| {
        let mut d = vec![];
        for _ in 0..2 {
            let c = cx.pick(3);
            let i = cx.pick(8);
            let k = 1 + cx.pick(8);
            d.push((c, i, k));
        }
        cx.note(|| format!("{d:?}"));
        let arcs: Vec<ArcSegment2<f64>> = d
            .iter()
            .map(|(c, i, k)| {
                let (m, r) = [((0.0, 0.0), 1.0), ((0.0, 0.0), 2.0), ((1.0, 0.0), 1.0)][*c];
                crate::curves::i_arc(m, r, *i as f64 * PI / 4.0, (i + k) as f64 * PI / 4.0)
            })
            .collect();
        let e = cx.call("arc eq", || arcs[0] == arcs[1])?;
        cx.outcome(if d[0] == d[1] { "same" } else { "different" });
        ensure!(e == (d[0] == d[1]), "arc equality", "equal={e}");
        Ok(())
    })
}

/// what "equal" means: one coordinate is moved by half the tolerance (still equal) or by twice the
/// tolerance or more (different)
fn tolerance_family<T: Num>(name: &'static str, bases: &'static [f64]) -> Family {
    family(name, format!("{}: points, vertices, vectors, segments and arcs at coordinates {bases:?} against themselves with one coordinate moved by 0, 0.5, 2, 10, 1000 or 10^5 tolerances to either side, in both argument orders", T::NAME), move |cx| {
        let eps = if T::NAME == "f32" { 1e-6 } else { 1e-10 };
        let kind = cx.pick(5);
        let coords = [2, 2, 2, 4, 5][kind];
        let mut v = [0.0; 5];
        let base = cx.pick(bases.len());
        for (i, x) in v.iter_mut().enumerate() {
            *x = bases[(base + i) % bases.len()];
        }
        let which = cx.pick(coords);
        let k = cx.pick_from(&[0.0, 0.5, 2.0, 10.0, 1e3, 1e5]) * if cx.flag() { -1.0 } else { 1.0 };
        if kind == 4 {
            if which == 2 && k.abs() == 0.5 {
                // radii may be compared exactly
                return Err(Stop::Prune);
            }
            // a radius, and angles of less than a turn
            v[2] = 1.0 + v[2].abs();
            v[3] = 0.5 + 0.125 * base as f64;
            v[4] = 2.5 + 0.125 * base as f64;
        }
        let mut w = v;
        w[which] += k * eps;
        let same = k.abs() < 1.0;
        cx.note(|| format!("{} kind {kind} {:?} and {:?}", T::NAME, &v[..coords], &w[..coords]));
        cx.outcome(if same { "equal" } else { "different" });
        let check = |e: bool, f: bool| -> R {
            ensure!(e == same && f == same, "tolerance", "equal={e}, the other way round {f}, want {same}");
            Ok(())
        };
        let point = |v: &[f64]| pt::<T>((v[0], v[1]));
        match kind {
            0 | 1 => {
                let (a, b) = (point(&v), point(&w));
                let want = if same { Ordering::Equal } else if which == 0 { w[0].partial_cmp(&v[0]).unwrap() } else { w[1].partial_cmp(&v[1]).unwrap() };
                if kind == 0 {
                    compare_pair(cx, "points", &a, &b, want)?;
                    compare_pair(cx, "points", &b, &a, want.reverse())
                } else {
                    let (a, b) = (Vertex2::<T>::new(a.x(), a.y()), Vertex2::<T>::new(b.x(), b.y()));
                    compare_pair(cx, "vertices", &a, &b, want)?;
                    compare_pair(cx, "vertices", &b, &a, want.reverse())
                }
            }
            2 => {
                let (a, b) = (Vector2::<T>::new(n(v[0]), n(v[1])), Vector2::<T>::new(n(w[0]), n(w[1])));
                check(cx.call("vector eq", || a == b)?, cx.call("vector eq", || b == a)?)
            }
            3 => {
                let make = |v: &[f64]| LineSegment2::<T>::new(point(v), point(&v[2..]));
                let (a, b) = (make(&v), make(&w));
                check(cx.call("segment eq", || a == b)?, cx.call("segment eq", || b == a)?)
            }
            _ => {
                let make = |v: &[f64]| crate::curves::i_arc::<T>((v[0], v[1]), v[2], v[3], v[4]);
                let (a, b) = (make(&v), make(&w));
                check(cx.call("arc eq", || a == b)?, cx.call("arc eq", || b == a)?)
            }
        }
    })
}

/// Pairs of points and vertices a few tenths of the tolerance to a few tolerances apart, in both
/// coordinates at once and on both sides of the base: equal exactly when closer than the
/// tolerance, and ordered exactly when unequal.
fn diagonal_family<T: Num>(name: &'static str, bases: &'static [f64]) -> Family {
    const K: [f64; 9] = [-3.0, -1.5, -0.8, -0.4, 0.0, 0.4, 0.8, 1.5, 3.0];
    family(name, format!("{}: points and vertices at coordinates {bases:?}, both moved by {K:?} tolerances in x and in y; distances within a tenth of the tolerance are left out", T::NAME), move |cx| {
        let eps = if T::NAME == "f32" { 1e-6 } else { 1e-10 };
        let (bx, by) = (cx.pick_from(bases), cx.pick_from(bases));
        let mut at = || (T::from_f64(bx + eps * cx.pick_from(&K)), T::from_f64(by + eps * cx.pick_from(&K)));
        let (a, b) = (at(), at());
        let (dx, dy) = ((b.0.f() - a.0.f()) / eps, (b.1.f() - a.1.f()) / eps);
        let vertex = cx.flag();
        let close = |d: f64| (d.abs() - 1.0).abs() < 0.1;
        if close(dx) || close(dy) || close(dx.hypot(dy)) {
            return Err(Stop::Prune);
        }
        cx.note(|| format!("{} vertex={vertex} base ({bx}, {by}), {a:?} and {b:?}, apart ({dx}, {dy}) tolerances", T::NAME));
        let equal = dx.hypot(dy) < 1.0;
        let want = if equal {
            Some(Ordering::Equal)
        } else if dx.abs() > 1.0 {
            dx.partial_cmp(&0.0)
        } else if dx.abs() < 1e-3 {
            dy.partial_cmp(&0.0)
        } else {
            // about the same x: either coordinate may decide
            None
        };
        cx.outcome(match (equal, want) {
            (true, _) => "equal",
            (_, None) => "different, about the same x",
            _ => "different",
        });
        let (p, q) = (Point2::<T>::new(a.0, a.1), Point2::<T>::new(b.0, b.1));
        let (v, w) = (Vertex2::<T>::new(a.0, a.1), Vertex2::<T>::new(b.0, b.1));
        let c = cx.call("cmp", || if vertex { v.cmp(&w) } else { p.cmp(&q) })?;
        let d = cx.call("cmp", || if vertex { w.cmp(&v) } else { q.cmp(&p) })?;
        let e = cx.call("eq", || if vertex { v == w } else { p == q })?;
        let g = cx.call("equals", || if vertex { w.equals(&v) } else { q.equals(&p) })?;
        ensure!(e == equal && g == equal, "equality", "equal={e}, the other way round {g}, want {equal}");
        ensure!((c == Ordering::Equal) == e && d == c.reverse(), "consistency", "equal={e}, ordered {c:?} and the other way round {d:?}");
        ensure!(want.is_none_or(|w| w == c), "order", "ordered {c:?}, want {want:?}");
        Ok(())
    })
}

/// vectors almost in the same or in the opposite direction
fn angle_family(name: &'static str) -> Family {
    const D: [f64; 15] = [0.0, 1e-3, -1e-3, 1e-6, -1e-6, 1e-8, -1e-8, 1e-10, -1e-10, 1e-11, -1e-11, 1e-13, -1e-13, 1e-15, -1e-15];
    family(name, format!("48 directions, a second vector turned from them by a multiple of a quarter turn and by {D:?} more, 3 lengths each"), |cx| {
        let th = cx.pick(48) as f64 * PI / 24.0;
        let turn = cx.pick(4) as f64 * PI / 2.0 + cx.pick_from(&D);
        let (l, k) = (cx.pick_from(&[1.0, 1e-3, 1e3]), cx.pick_from(&[1.0, 1e-3, 1e3]));
        cx.note(|| format!("lengths {l} and {k}, direction {th}, turned by {turn}"));
        let a = Vector2::<f64>::new(l * th.cos(), l * th.sin());
        let b = Vector2::<f64>::new(k * (th + turn).cos(), k * (th + turn).sin());
        let got = cx.call("radian_to", || a.radian_to(&b))?;
        ensure!(got >= 0.0 && got <= 2.0 * PI + 1e-12, "angle range", "radian_to = {got}");
        let off = (got - turn).rem_euclid(2.0 * PI);
        let off = off.min(2.0 * PI - off);
        ensure!(off < 1e-12, "angle", "radian_to = {got}, want {turn}");
        cx.outcome("turned");
        Ok(())
    })
}

/// the coefficients of a line in any scale and sign
fn scaled_lines<T: Num>(name: &'static str, w: i64) -> Family {
    let g = grid(w, w);
    family(name, format!("all pairs of point pairs of a {w}x{w} grid as lines, the coefficients of the second multiplied by +-2^k, k in -40..40, {}", T::NAME), move |cx| {
        let (p, q, r, s) = (cx.pick_from(&g), cx.pick_from(&g), cx.pick_from(&g), cx.pick_from(&g));
        if p == q || r == s {
            return Err(Stop::Prune);
        }
        let k = 2f64.powi(cx.pick(11) as i32 * 8 - 40) * if cx.flag() { -1.0 } else { 1.0 };
        cx.note(|| format!("{p:?}-{q:?} and {k} times {r:?}-{s:?}"));
        let same = exact::orient(p, q, r) == 0 && exact::orient(p, q, s) == 0;
        let coeff = |p: P, q: P| ((q.1 - p.1) as f64, (p.0 - q.0) as f64, (p.1 * (q.0 - p.0) - p.0 * (q.1 - p.1)) as f64);
        let ((a, b, c), (d, e, f)) = (coeff(p, q), coeff(r, s));
        let (x, y) = (Line2::<T>::new(n(a), n(b), n(c)), Line2::<T>::new(n(k * d), n(k * e), n(k * f)));
        let (e, f) = (cx.call("line eq", || x == y)?, cx.call("line eq", || y == x)?);
        cx.outcome(if same { "same line" } else { "different lines" });
        ensure!(e == same && f == same, "line equality", "equal={e}, the other way round {f}, want {same}");
        Ok(())
    })
}

const MAPS: &[Map] = &[exact::ID, exact::EIGHTH, exact::X12, exact::SHEAR, exact::MIRROR, exact::TENTH, exact::ROT_IRR];
const MAPS32: &[Map] = &[exact::ID, exact::EIGHTH, exact::MIRROR];
const LMAPS: &[Map] = &[exact::ID, exact::EIGHTH, exact::SHEAR, exact::TENTH];

pub fn c20() -> Property {
    Property {
        id: "C20",
        explanation: "Exhaustive enumeration of pairs and sequences of points (lattice positions times displacements below the tolerance), of vector pairs on integer lattices, and of line and arc pairs; the reference uses integer lattice positions.",
        assumptions: &["two points are at the same position up to a fraction of the tolerance or apart by far more than the tolerance"],
        families: |t| {
            let mut v = vec![
                order_family::<f64>("order-f64", MAPS, 3),
                order_family::<f32>("order-f32", MAPS32, 3),
                sort_family("sort-3", 3, 3),
                vector_family::<f64>("vectors-f64", 6, 1.0),
                vector_family::<f64>("vectors-f64-scaled", 4, 0.37),
                vector_family::<f32>("vectors-f32", 6, 1.0),
                normalize_family(),
                tolerance_family::<f64>("tolerance-f64", &[0.0, 1.0, -1.0, 0.5, 3.0, 1000.0, -1000.0]),
                tolerance_family::<f32>("tolerance-f32", &[0.0, 1.0, -1.0, 0.5, -0.75]),
                diagonal_family::<f64>("diagonal-f64", &[0.0, 1.0, -1.0, 0.5, 3.0, 100.0, -1000.0]),
                diagonal_family::<f32>("diagonal-f32", &[0.0, 0.5, -0.75]),
                angle_family("angles-near"),
                scaled_lines::<f64>("scaled-lines", 3),
                scaled_lines::<f32>("scaled-lines-f32", 3),
                line_family("lines", 4, LMAPS),
                arc_family(),
            ];
            {
                v.extend([
                    order_family::<f64>("order-f64-5x5", MAPS, 5),
                    sort_family("sort-4", 3, 4),
                    sort_family("sort-5", 2, 5),
                    vector_family::<f64>("vectors-f64-15", 15, 1.0),
                    vector_family::<f32>("vectors-f32-12", 12, 0.5),
                    line_family("lines-5x5", 5, MAPS),
                ]);
            }
            if t == Tier::Thorough {
                v.extend([
                    order_family::<f64>("order-f64-10x10", MAPS, 10),
                    order_family::<f32>("order-f32-8x8", MAPS32, 8),
                    sort_family("sort-4-more", 4, 4),
                    sort_family("sort-6", 2, 6),
                    vector_family::<f64>("vectors-f64-40", 40, 1.0),
                    vector_family::<f64>("vectors-f64-scaled-25", 25, 0.37),
                    line_family("lines-8x8", 8, MAPS),
                ]);
            }
            v
        },
    }
}

// ---------------------------------------------------------------------------------------
// C24

type V = Rc<RefCell<Vertex2<f64>>>;
type E = Rc<RefCell<Edge2<f64>>>;

/// reference state: vertices have positions and lists of edges, edges have ends and links
struct Model {
    at: Vec<P>,
    lists: Vec<Vec<usize>>,
    ends: Vec<(usize, usize)>,
    links: Vec<[Option<usize>; 3]>,
    arc: Vec<bool>,
}
struct World {
    v: Vec<V>,
    e: Vec<E>,
}

impl Drop for World {
    /// unlink everything, so that exploring many histories does not pile up reference cycles
    fn drop(&mut self) {
        let dv: V = Rc::new(RefCell::new(Vertex2::new(0.0, 0.0)));
        let de: E = Rc::new(RefCell::new(Edge2::new_segment(dv.clone(), dv.clone())));
        for e in &self.e {
            if let Ok(mut e) = e.try_borrow_mut() {
                e.set_source(dv.clone());
                e.set_target(dv.clone());
                e.set_twin(de.clone());
                e.set_next(de.clone());
                e.set_prev(de.clone());
            }
        }
    }
}

fn observe(cx: &mut Cx, w: &World, m: &Model) -> R {
    for (i, e) in w.e.iter().enumerate() {
        let e = e.borrow();
        let (s, t) = m.ends[i];
        ensure!(Rc::ptr_eq(&e.source(), &w.v[s]), "source", "source of edge {i} is not vertex {s}");
        ensure!(Rc::ptr_eq(&e.target(), &w.v[t]), "target", "target of edge {i} is not vertex {t}");
        for (k, got) in [e.twin(), e.next(), e.prev()].into_iter().enumerate() {
            let name = ["twin", "next", "prev"][k];
            match (got, m.links[i][k]) {
                (None, None) => {}
                (Some(g), Some(x)) if Rc::ptr_eq(&g, &w.e[x]) => {}
                (g, x) => return fail(name, format!("{name} of edge {i} is set={}, want {x:?}", g.is_some())),
            }
        }
        ensure!(e.face().is_none(), "face", "edge {i} has a face nobody set");
        let kind = if m.arc[i] { Edge2Type::Arc } else { Edge2Type::Segment };
        ensure!(e.edge_type() == kind, "kind", "edge {i} has kind {:?}", e.edge_type());
        if !m.arc[i] {
            let g = cx.call("to_segment", || e.to_segment())?;
            let (a, b) = (m.at[s], m.at[t]);
            ensure!(xy(&g.source()) == (a.0 as f64, a.1 as f64) && xy(&g.target()) == (b.0 as f64, b.1 as f64), "to_segment", "edge {i} gives {g:?}, want {a:?} to {b:?}");
        }
    }
    for (i, v) in w.v.iter().enumerate() {
        let v = v.borrow();
        ensure!((v.x(), v.y()) == (m.at[i].0 as f64, m.at[i].1 as f64), "vertex", "vertex {i} moved to ({}, {})", v.x(), v.y());
        let got: Vec<Option<usize>> = v.edges().iter().map(|e| w.e.iter().position(|x| Rc::ptr_eq(x, e))).collect();
        let want: Vec<Option<usize>> = m.lists[i].iter().map(|x| Some(*x)).collect();
        ensure!(got == want, "edges", "vertex {i} lists {got:?}, want {want:?}");
    }
    for i in 0..w.e.len() {
        for j in 0..w.e.len() {
            if m.arc[i] && m.arc[j] {
                continue;
            }
            let want = !m.arc[i] && !m.arc[j] && ends_at(m, i) == ends_at(m, j);
            let got = cx.call("edge eq", || *w.e[i].borrow() == *w.e[j].borrow())?;
            ensure!(got == want, "edge equality", "edges {i} and {j}: equal={got}, want {want}");
        }
    }
    Ok(())
}
fn ends_at(m: &Model, i: usize) -> (P, P) {
    (m.at[m.ends[i].0], m.at[m.ends[i].1])
}

/// All histories of a given length.  `ops`: which groups of operations take part.
fn records(name: &'static str, at: Vec<P>, init: Vec<(usize, usize, bool)>, len: usize, ops: &'static str) -> Family {
    let (nv, ne) = (at.len(), init.len());
    family(name, format!("all histories of {len} operations out of {{{ops}}} on {nv} vertices at {at:?} and {ne} edges {init:?} (source, target, is_arc), every accessor compared after every operation"), move |cx| {
        let v: Vec<V> = at.iter().map(|p| Rc::new(RefCell::new(Vertex2::new(p.0 as f64, p.1 as f64)))).collect();
        let e: Vec<E> = init
            .iter()
            .map(|(s, t, arc)| {
                let (s, t) = (v[*s].clone(), v[*t].clone());
                Rc::new(RefCell::new(if *arc { Edge2::new_arc(s, t) } else { Edge2::new_segment(s, t) }))
            })
            .collect();
        let w = World { v, e };
        let mut m = Model {
            at: at.clone(),
            lists: vec![vec![]; nv],
            ends: init.iter().map(|x| (x.0, x.1)).collect(),
            links: vec![[None; 3]; ne],
            arc: init.iter().map(|x| x.2).collect(),
        };
        observe(cx, &w, &m)?;
        let groups: Vec<&str> = ops.split(' ').collect();
        for _ in 0..len {
            let op = cx.pick_from(&groups);
            let i = cx.pick(ne);
            match op {
                "source" | "target" => {
                    let x = cx.pick(nv);
                    cx.note(|| format!("set_{op} of edge {i} to vertex {x}"));
                    let h = w.v[x].clone();
                    if op == "source" {
                        cx.call("set_source", || w.e[i].borrow_mut().set_source(h))?;
                        m.ends[i].0 = x;
                    } else {
                        cx.call("set_target", || w.e[i].borrow_mut().set_target(h))?;
                        m.ends[i].1 = x;
                    }
                }
                "twin" | "next" | "prev" => {
                    let x = cx.pick(ne);
                    cx.note(|| format!("set_{op} of edge {i} to edge {x}"));
                    let h = w.e[x].clone();
                    let k = match op {
                        "twin" => {
                            cx.call("set_twin", || w.e[i].borrow_mut().set_twin(h))?;
                            0
                        }
                        "next" => {
                            cx.call("set_next", || w.e[i].borrow_mut().set_next(h))?;
                            1
                        }
                        _ => {
                            cx.call("set_prev", || w.e[i].borrow_mut().set_prev(h))?;
                            2
                        }
                    };
                    m.links[i][k] = Some(x);
                }
                "add" => {
                    let x = cx.pick(nv);
                    cx.note(|| format!("add edge {i} to vertex {x}"));
                    cx.call("add_edge", || w.v[x].borrow_mut().add_edge(w.e[i].clone()))?;
                    m.lists[x].push(i);
                }
                "remove" => {
                    let x = cx.pick(nv);
                    if m.arc[i] && m.lists[x].iter().any(|j| m.arc[*j]) {
                        return Err(Stop::Prune);
                    }
                    cx.note(|| format!("remove edge {i} from vertex {x}"));
                    let before = m.lists[x].len();
                    let gone: Vec<usize> = (0..ne).filter(|j| !m.arc[i] && !m.arc[*j] && ends_at(&m, i) == ends_at(&m, *j)).collect();
                    m.lists[x].retain(|j| !gone.contains(j));
                    cx.outcome(match before - m.lists[x].len() {
                        0 => "remove nothing",
                        1 => "remove one",
                        _ => "remove several",
                    });
                    cx.call("remove_edge", || w.v[x].borrow_mut().remove_edge(w.e[i].clone()))?;
                }
                _ => unreachable!(),
            }
            observe(cx, &w, &m)?;
        }
        Ok(())
    })
}

/// Long edge lists: `k` edges around one vertex, added in one of several orders, two of them
/// removed, one added again.
fn long_lists(name: &'static str, most: usize) -> Family {
    family(name, format!("vertices with 5 to {most}, 24, 50 or 90 edges to distinct neighbours, added forwards, backwards or from both sides in turn, every third one twice or not; every two edges (of the largest: out of six) removed and the first added again; every accessor compared at the end of each step, the list after every addition"), move |cx| {
        let k = [5 + cx.pick(most - 1)].map(|k| if k <= most { k } else { [24, 50, 90][k - most - 1] })[0];
        let v: Vec<V> = (0..=k as i64).map(|i| Rc::new(RefCell::new(Vertex2::new(i as f64, (i * i % 7) as f64)))).collect();
        let e: Vec<E> = (0..k).map(|i| Rc::new(RefCell::new(Edge2::new_segment(v[0].clone(), v[i + 1].clone())))).collect();
        let w = World { v, e };
        let mut m = Model {
            at: (0..=k as i64).map(|i| (i, i * i % 7)).collect(),
            lists: vec![vec![]; k + 1],
            ends: (0..k).map(|i| (0, i + 1)).collect(),
            links: vec![[None; 3]; k],
            arc: vec![false; k],
        };
        let order = cx.pick(3);
        let twice = cx.flag();
        let ends = [0, 1, k / 3, k / 2, k - 2, k - 1];
        let (i, j) = if k <= most { (cx.pick(k), cx.pick(k)) } else { (cx.pick_from(&ends), cx.pick_from(&ends)) };
        cx.note(|| format!("{k} edges, order {order}, twice={twice}, remove {i} and {j}, add {i}"));
        for n in 0..k {
            let x = match order {
                0 => n,
                1 => k - 1 - n,
                _ => if n % 2 == 0 { n / 2 } else { k - 1 - n / 2 },
            };
            for _ in 0..if twice && x % 3 == 0 { 2 } else { 1 } {
                cx.call("add_edge", || w.v[0].borrow_mut().add_edge(w.e[x].clone()))?;
                m.lists[0].push(x);
                let got: Vec<Option<usize>> = w.v[0].borrow().edges().iter().map(|e| w.e.iter().position(|x| Rc::ptr_eq(x, e))).collect();
                ensure!(got == m.lists[0].iter().map(|x| Some(*x)).collect::<Vec<_>>(), "edges", "after adding: {got:?}, want {:?}", m.lists[0]);
            }
        }
        for x in [i, j] {
            cx.call("remove_edge", || w.v[0].borrow_mut().remove_edge(w.e[x].clone()))?;
            m.lists[0].retain(|y| *y != x);
            observe(cx, &w, &m)?;
        }
        cx.call("add_edge", || w.v[0].borrow_mut().add_edge(w.e[i].clone()))?;
        m.lists[0].push(i);
        cx.outcome(if i == j { "one removed" } else { "two removed" });
        observe(cx, &w, &m)
    })
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        explanation: "Exhaustive exploration of operation histories on small half-edge structures; after every operation every accessor of every record is compared with a reference model.",
        assumptions: &["straight edges for comparison and removal (arc edges only keep their records)"],
        families: |t| {
            let two = vec![(0, 0), (1, 2), (0, 0)];
            let deep = t == Tier::Thorough;
            vec![
                records("lists", two.clone(), vec![(0, 1, false), (1, 0, false), (2, 1, false)], if deep { 5 } else { 4 }, "add remove"),
                records("links", vec![(0, 0), (1, 2)], vec![(0, 1, false), (1, 0, false)], if deep { 5 } else { 4 }, "twin next prev"),
                records("ends", two.clone(), vec![(0, 1, false), (1, 2, false)], if deep { 5 } else { 4 }, "source target"),
                records("everything", vec![(0, 0), (1, 2)], vec![(0, 1, false), (1, 0, false)], if deep { 5 } else { 4 }, "add remove source target twin next prev"),
                records("edited-lists", two, vec![(0, 1, false), (0, 1, false)], if deep { 5 } else { 4 }, "add remove source target"),
                records("linked-lists", vec![(0, 0), (1, 2)], vec![(0, 1, false), (0, 1, false)], if deep { 5 } else { 4 }, "add remove twin next prev"),
                long_lists("long-lists", if deep { 24 } else { 14 }),
                records("arc-kinds", vec![(0, 0), (1, 2)], vec![(0, 1, true), (0, 1, false)], if deep { 4 } else { 3 }, "add remove source target twin next prev"),
            ]
        },
    }
}
