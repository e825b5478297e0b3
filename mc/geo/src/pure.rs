//! C23: operations are repeatable, leave their arguments alone, are silent and retain nothing.
use crate::areas::{poly, structured};
use crate::common::*;
use crate::curves::*;
use crate::with_curve;
use mccore::alloc::live;
use mccore::Stop;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::algorithm::intersection::{line_2_line_2::*, line_2_ray_2::*, line_segment_2_ray_2::*, segment_2_segment_2::*};
use rcgal::algorithm::location::{
    point_2_arc_segment_2::*, point_2_circle_segment_2::*, point_2_line_2::*, point_2_line_segment_2::*, point_2_polygon_2::*, point_2_ray_2::*, point_2_triangle_2::*,
};
use rcgal::algorithm::projection::{point_2_line_2::*, point_2_line_segment_2::*};
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::segment_2::Segment2;
use std::fmt::Write as _;
use std::io::Write as _;

/// One use of the library with fixed arguments.
#[derive(Clone, Debug)]
pub enum Op {
    Meet(Curve, Curve),
    Sweep(Vec<Curve>),
    Point(Curve, F2),
    Hull(Vec<P>),
    Polygon(Vec<P>, P),
    Earcut(Vec<P>),
    Triangle([P; 3], P),
    Lines([P; 4], P),
    Monotone(Curve),
}

fn bits(o: &mut String, x: f64) {
    let _ = write!(o, "{:x},", x.to_bits());
}
fn put(o: &mut String, ps: &[Point2<f64>]) {
    for p in ps {
        bits(o, p.x());
        bits(o, p.y());
    }
    o.push(';');
}
fn put_curve(o: &mut String, s: &impl Segment2<f64>) {
    use rcgal::kernel::util_enum::Segment2Type::*;
    match s.segment_type() {
        LineSegment2 => put(o, &[s.source(), s.target()]),
        CircleSegment2 => {
            put(o, &[s.center()]);
            bits(o, s.radius())
        }
        ArcSegment2 => {
            put(o, &[s.center()]);
            bits(o, s.radius());
            bits(o, s.source_radian());
            bits(o, s.target_radian());
        }
    }
}

/// Run the operation; the answer bit by bit, or the name of an argument that changed.
fn run(op: &Op) -> Result<String, String> {
    let mut o = String::new();
    let mut before = String::new();
    let mut after = String::new();
    match op {
        Op::Meet(a, b) => with_curve!(a, f64, |x| with_curve!(b, f64, |y| {
            put_curve(&mut before, x);
            put_curve(&mut before, y);
            put(&mut o, &segment_2_segment_2_intersection::<f64>(x, y));
            let _ = write!(o, "{}", is_segment_2_segment_2_intersected::<f64>(x, y));
            put_curve(&mut after, x);
            put_curve(&mut after, y);
        })),
        Op::Sweep(cs) => {
            let mut s = SweepSegment2Intersection::<f64>::new();
            for c in cs {
                with_curve!(c, f64, |x| {
                    put_curve(&mut before, x);
                    s.push_segment(x);
                    put_curve(&mut after, x);
                });
            }
            put(&mut o, &s.intersection());
            put(&mut o, &s.intersection());
        }
        Op::Point(c, p) => {
            let p = pt::<f64>(*p);
            put(&mut before, &[p]);
            match *c {
                Curve::Seg(a, b) => {
                    let s = i_seg::<f64>(a, b);
                    put_curve(&mut before, &s);
                    let _ = write!(o, "{:?}{}", locate_point_2_line_segment_2(&p, &s), is_point_2_on_line_segment_2(&p, &s));
                    if a != b {
                        if let Some(q) = point_2_project_line_segment_2(&p, &s) {
                            put(&mut o, &[q]);
                        }
                    }
                    put(&mut after, &[p]);
                    put_curve(&mut after, &s);
                }
                Curve::Circle(m, r) => {
                    let s = i_circle::<f64>(m, r);
                    put_curve(&mut before, &s);
                    let _ = write!(o, "{:?}{}", locate_point_2_circle_segment_2(&p, &s), is_point_2_on_circle_segment_2(&p, &s));
                    put(&mut after, &[p]);
                    put_curve(&mut after, &s);
                }
                Curve::Arc(m, r, a, b) => {
                    let s = i_arc::<f64>(m, r, a, b);
                    put_curve(&mut before, &s);
                    let _ = write!(o, "{:?}{}", locate_point_2_arc_segment_2(&p, &s), is_point_2_on_arc_segment_2(&p, &s));
                    put(&mut after, &[p]);
                    put_curve(&mut after, &s);
                }
            }
        }
        Op::Hull(ps) => {
            let mut h = ConvexHull2::<f64>::new(ps.iter().map(|p| mp(&exact::ID, *p)).collect());
            put(&mut o, &h.convex_hull());
            put(&mut o, &h.convex_hull());
        }
        Op::Polygon(v, p) => {
            let g = poly::<f64>(&exact::ID, v);
            let q = mp::<f64>(&exact::ID, *p);
            put(&mut before, &g.vertices());
            bits(&mut o, g.area());
            let _ = write!(o, "{}{}", g.is_simple(), g.is_convex());
            for e in g.edges() {
                put_curve(&mut o, &e);
            }
            let _ = write!(
                o,
                "{:?}{}{}{}",
                locate_point_2_polygon_2(&q, &g),
                is_point_2_on_polygon_2(&q, &g),
                is_point_2_inside_polygon_2(&q, &g),
                is_point_2_outside_polygon_2(&q, &g)
            );
            put(&mut after, &g.vertices());
        }
        Op::Earcut(v) => {
            let _ = write!(o, "{:?}", earcut_2(poly::<f64>(&exact::ID, v)));
        }
        Op::Triangle(t, p) => {
            let [a, b, c] = t.map(|p| mp::<f64>(&exact::ID, p));
            let mut t = Triangle2::new(a, b, c);
            put(&mut before, &t.vertices());
            let _ = write!(o, "{:?}{:?}", locate_point_2_triangle_2(&mp::<f64>(&exact::ID, *p), &t), t.orientation());
            bits(&mut o, t.area());
            for e in t.edges() {
                put_curve(&mut o, &e);
            }
            put(&mut after, &t.vertices());
            t.reverse_orientation();
            put(&mut o, &t.vertices());
        }
        Op::Lines([p, q, r, s], x) => {
            let [p, q, r, s, x] = [p, q, r, s, x].map(|p| mp::<f64>(&exact::ID, *p));
            let (l, k) = (Line2::from_points(&p, &q), Line2::from_points(&r, &s));
            let ray = Ray2::new(r, s - r);
            let seg = LineSegment2::new(p, q);
            let look = |o: &mut String| {
                for v in [l.a(), l.b(), l.c(), k.a(), k.b(), k.c(), ray.direction().x(), ray.direction().y()] {
                    bits(o, v);
                }
                put(o, &[ray.origin(), x]);
                put_curve(o, &seg);
            };
            look(&mut before);
            let _ = write!(o, "{}{}{}", is_line_2_line_2_intersected(&l, &k), is_line_2_ray_2_intersected(&l, &ray), is_line_segment_2_ray_2_intersected(&seg, &ray));
            if let Some(m) = line_2_line_2_intersection(&l, &k) {
                put(&mut o, &[m]);
            }
            let _ = write!(o, "{:?}", line_2_ray_2_intersection(&l, &ray));
            let _ = write!(o, "{:?}", line_segment_2_ray_2_intersection(&seg, &ray));
            let _ = write!(o, "{:?}{:?}", locate_point_2_line_2(&x, &l), locate_point_2_ray_2(&x, &ray));
            put(&mut o, &[point_2_project_line_2(&x, &l)]);
            look(&mut after);
        }
        Op::Monotone(c) => match *c {
            Curve::Arc(m, r, a, b) => {
                let arc = i_arc::<f64>(m, r, a, b);
                for p in arc.monotone() {
                    put_curve(&mut o, &p);
                }
                let _ = write!(o, "{}", arc.is_top());
            }
            Curve::Circle(m, r) => {
                for p in i_circle::<f64>(m, r).monotone() {
                    put_curve(&mut o, &p);
                }
            }
            Curve::Seg(..) => {}
        },
    }
    if before != after {
        return Err(format!("an argument changed: {before} became {after}"));
    }
    Ok(o)
}

fn output_len() -> u64 {
    let _ = std::io::stdout().flush();
    match std::env::var("MC_STDOUT").ok().and_then(|p| std::fs::metadata(p).ok()) {
        Some(m) => m.len(),
        None => 0,
    }
}

fn once(cx: &mut Cx, op: &Op) -> Result<String, Stop> {
    match cx.call("operation", || run(op))? {
        Ok(s) => Ok(s),
        Err(e) => fail("arguments", e),
    }
}

fn describe(op: &Op) -> String {
    format!("{op:?}")
}

/// the operations one after another, twice: same answer, same memory, nothing written
fn sequence(cx: &mut Cx, ops: &[&Op]) -> R {
    cx.note(|| ops.iter().map(|o| describe(o)).collect::<Vec<_>>().join(" then "));
    let out = output_len();
    for op in ops {
        drop(once(cx, op)?); // anything initialised once and for all is not a leak
    }
    let start = live();
    let mut first: Vec<String> = vec![];
    for op in ops {
        first.push(once(cx, op)?);
    }
    for (i, op) in ops.iter().enumerate() {
        let held = live();
        let again = once(cx, op)?;
        ensure!(again == first[i], "repeat", "{} answered {} first and {again} later", describe(op), first[i]);
        drop(again);
        let now = live();
        ensure!(now == held, "memory", "{} retains {} bytes", describe(op), now - held);
    }
    drop(first);
    let now = live();
    ensure!(now == start, "memory", "{} bytes retained", now - start);
    let now = output_len();
    ensure!(now == out, "output", "{} bytes written to standard output or error", now - out);
    cx.outcome("same answer, nothing retained");
    Ok(())
}

/// operations of every kind
fn catalogue() -> Vec<Op> {
    let mut v = vec![];
    let polys: Vec<Vec<P>> = structured(3).into_iter().map(|x| x.1).collect();
    for (i, p) in polys.iter().enumerate() {
        if i < 12 {
            v.push(Op::Earcut(p.clone()));
            v.push(Op::Polygon(p.clone(), p[0]));
        }
    }
    let m = mixed();
    for i in (0..m.len()).step_by(9) {
        let j = (i * 7 + 3) % m.len();
        v.push(Op::Meet(m[i], m[j]));
        v.push(Op::Sweep(vec![m[i], m[j], m[(i * 5 + 11) % m.len()], m[(i * 3 + 29) % m.len()]]));
        v.push(Op::Point(m[i], (0.0, 1.0)));
        v.push(Op::Monotone(m[i]));
    }
    for ps in [vec![], vec![(0, 0)], vec![(1, 1), (0, 0), (2, 2), (1, 0)], grid(3, 3), vec![(0, 0), (5, 1), (3, 3), (0, 4), (2, 2), (5, 1)]] {
        v.push(Op::Hull(ps));
    }
    v.push(Op::Triangle([(0, 0), (4, 0), (0, 3)], (1, 1)));
    v.push(Op::Triangle([(0, 0), (0, 3), (4, 0)], (2, 0)));
    v.push(Op::Lines([(0, 0), (4, 4), (0, 4), (4, 0)], (3, 1)));
    v.push(Op::Lines([(0, 0), (4, 0), (1, 0), (3, 0)], (2, 2)));
    v.push(Op::Lines([(0, 0), (0, 4), (1, 0), (1, 3)], (2, 2)));
    v
}

fn histories(name: &'static str, k: usize, keep: usize) -> Family {
    let cat: Vec<Op> = catalogue().into_iter().step_by(keep).collect();
    family(name, format!("all sequences of {k} operations out of a catalogue of {} covering every public operation, each repeated afterwards", cat.len()), move |cx| {
        let ops: Vec<&Op> = (0..k).map(|_| cx.pick(cat.len())).collect::<Vec<_>>().into_iter().map(|i| &cat[i]).collect();
        sequence(cx, &ops)
    })
    .solo()
}

fn each(name: &'static str, bound: &'static str, ops: Vec<Op>) -> Family {
    let n = ops.len();
    family(name, format!("each of {n} operations run twice: {bound}"), move |cx| {
        let i = cx.pick(n.div_ceil(64));
        let j = i * 64 + cx.pick(64.min(n - i * 64));
        sequence(cx, &[&ops[j]])
    })
    .solo()
}

fn scenes(t: Tier) -> Vec<Family> {
    let deep = t == Tier::Thorough;
    let polys = crate::areas::polys_upto(3, if deep { 4 } else { 3 }, 3, if deep { 7 } else { 6 });
    let mut tri = vec![];
    let mut pol = vec![];
    for p in &polys {
        tri.push(Op::Earcut(p.clone()));
        pol.push(Op::Polygon(p.clone(), (1, 1)));
    }
    for s in crate::areas::structured_all(&[2, 3, 5, 8]) {
        tri.push(Op::Earcut(s.1.clone()));
        pol.push(Op::Polygon(s.1, (2, 1)));
    }
    let mut hulls = vec![];
    let g = grid(3, 3);
    for mask in 0..512u32 {
        let ps: Vec<P> = (0..9).filter(|i| mask >> i & 1 == 1).map(|i| g[i]).collect();
        hulls.push(Op::Hull(ps.clone()));
        let mut rev = ps;
        rev.reverse();
        hulls.push(Op::Hull(rev));
    }
    let all = [small_segs(), small_circles(), small_arcs()].concat();
    let step = if deep { 1 } else { 3 };
    let mut meets = vec![];
    let mut points = vec![];
    for a in all.iter() {
        for b in all.iter().step_by(step) {
            meets.push(Op::Meet(*a, *b));
        }
        for p in exact_grid(-2, 2) {
            points.push(Op::Point(*a, fp(p)));
        }
        points.push(Op::Monotone(*a));
    }
    let mut sweeps = vec![];
    let m = mixed();
    for i in 0..m.len() {
        for j in 0..i {
            for k in (0..j).step_by(step) {
                sweeps.push(Op::Sweep(vec![m[i], m[j], m[k]]));
            }
        }
    }
    let mut lines = vec![];
    for p in &g {
        for q in &g {
            for r in &g {
                for s in &g {
                    if p != q && r != s {
                        lines.push(Op::Lines([*p, *q, *r, *s], (1, 2)));
                    }
                }
            }
        }
    }
    let mut tris = vec![];
    for p in &g {
        for q in &g {
            for r in &g {
                for x in &g {
                    if exact::orient(*p, *q, *r) != 0 {
                        tris.push(Op::Triangle([*p, *q, *r], *x));
                    }
                }
            }
        }
    }
    vec![
        each("triangulations", "all simple polygons of a small grid and structured ones", tri),
        each("polygons", "all simple polygons of a small grid and structured ones", pol),
        each("hulls", "all subsets of a 3x3 grid, both orders", hulls),
        each("meets", "pairs of small curves", meets),
        each("points", "small curves with 25 points each", points),
        each("sweeps", "3-subsets of the mixed pool", sweeps),
        each("lines", "pairs of point pairs of a 3x3 grid", lines),
        each("triangles", "triangles and points of a 3x3 grid", tris),
    ]
}

pub fn c23() -> Property {
    Property {
        id: "C23",
        explanation: "Exhaustive exploration of operation sequences from a catalogue that covers every public operation, and of every scene of small enumerations run twice; answers are compared bit by bit, the bytes held by the thread and the length of the process's standard output and error are compared before and after.",
        assumptions: &["reference cycles that a user builds from graph vertices and edges are outside the claim", "operations that reject their input by a panic are not measured"],
        families: |t| {
            let mut v = vec![histories("pairs", 2, 1)];
            if t == Tier::Thorough {
                v.push(histories("triples", 3, 2));
            } else {
                v.push(histories("triples", 3, 5));
            }
            v.extend(scenes(t));
            v
        },
    }
}
