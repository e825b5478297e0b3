pub use mccore::exact::{self, Map, P, QP};
pub use mccore::{ensure, fail, family, Cx, Family, Property, Tier, R};
pub use rcgal::kernel::{
    arc_segment_2::ArcSegment2, circle_segment_2::CircleSegment2, line_2::Line2, line_segment_2::LineSegment2,
    number_type::NumberType, point_2::Point2, polygon_2::Polygon2, ray_2::Ray2, segment_2::Segment2,
    triangle_2::Triangle2, vector_2::Vector2,
};

/// small and large coordinates: spacings from 2^-27 to 1300, offsets to 20000, turns below the tolerance
pub const LEANS: &[Map] = &[exact::LEAN, exact::LEAN_BACK, exact::QUARTER_OFF];
pub const WIDE: &[Map] = &[exact::HUGE, exact::KILO, exact::AWAY, exact::ROT_BIG, exact::SMALL, exact::TINY, exact::SPECK, exact::IRR_KILO, exact::LEAN, exact::LEAN_BACK, exact::QUARTER_OFF, exact::LOOSE, exact::LOOSE_2, exact::LOOSE_SOME, exact::LOOSE_TURNED];
/// the same without displacements, which grow beyond the ends of short segments on large lattices
pub const STIFF: &[Map] = &[exact::HUGE, exact::KILO, exact::AWAY, exact::ROT_BIG, exact::SMALL, exact::TINY, exact::SPECK, exact::IRR_KILO, exact::LEAN, exact::LEAN_BACK, exact::QUARTER_OFF];
pub const LOOSES: &[Map] = &[exact::LOOSE, exact::LOOSE_2, exact::LOOSE_SOME, exact::LOOSE_TURNED];

pub const LOOSES_32: &[Map] = &[exact::LOOSE_32, exact::LOOSE_32B];
pub const NEARS: &[Map] = &[exact::NEAR, exact::NEAR_TURNED];
/// Points in clusters: their distance in lattice units, the maps and what they do.
pub struct Scale {
    pub unit: i64,
    pub maps: &'static [Map],
    pub what: &'static str,
}
/// clusters 1 apart
pub const CLOSE: &Scale = &Scale { unit: exact::NEAR_UNIT, maps: NEARS, what: "2.4e-7" };
/// clusters 512 apart
pub const CRISPS: &Scale = &Scale { unit: exact::CRISP_UNIT, maps: &[exact::CRISP, exact::CRISP_TURNED], what: "1.5e-8 (512 apart)" };
/// upright and level but for less than the tolerance per unit
pub const SLANTED: &[Map] = &[exact::SLANT, exact::SLANT_BACK, exact::SLANT_OFF];
/// clusters 64 apart of points 1 apart, turned by less than the tolerance per unit
pub const SLANTS: &Scale = &Scale { unit: 64, maps: SLANTED, what: "1 (64 apart, turned by 6e-11)" };
/// Line through two points of one cluster of an inexact map: its direction is not known well
/// enough to say on which side points of other clusters are.
pub fn too_short(m: &Map, p: P, q: P) -> bool {
    !m.exact && m.scale() < 1e-6 && exact::same_cluster(p, q)
}
/// Line of a slightly turned map through points so near each other that they lie upright or level
/// within the tolerance: built from them, the line may be taken for upright or level.
pub fn taken_for_upright(m: &Map, p: P, q: P) -> bool {
    let (a, b) = (m.p(p), m.p(q));
    let snapped = |d: f64| d != 0.0 && d.abs() < 2e-10;
    SLANTED.iter().any(|s| s.name == m.name) && p != q && (snapped(a.0 - b.0) || snapped(a.1 - b.1))
}
/// Points in clusters of which some are off a line by less than the tolerance.
pub fn unclear(m: &Map, v: &[P]) -> bool {
    m.scale() < 1e-6 && m.a.abs() < 1e-6 && !exact::well_off(v)
}
/// Directions in clusters of points that differ by less than the tolerance.
pub fn barely_parallel(m: &Map, u: P, v: P) -> bool {
    let c = exact::cross(u, v).abs() as f64;
    if SLANTED.iter().any(|s| s.name == m.name) {
        return c != 0.0 && c < 0.002 * (u.0 as f64).hypot(u.1 as f64) * (v.0 as f64).hypot(v.1 as f64);
    }
    m.scale() < 1e-6 && m.a.abs() < 1e-6 && c != 0.0 && c < 2e-8 * (u.0 as f64).hypot(u.1 as f64) * (v.0 as f64).hypot(v.1 as f64)
}
pub const OFFSETS2: &[P] = &[(0, 0), (1, -1)];
pub const OFFSETS3: &[P] = &[(0, 0), (1, 0), (0, 1)];
pub const OFFSETS5: &[P] = &[(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1)];

/// The two supported number types.
pub trait Num: NumberType + 'static {
    const NAME: &'static str;
    fn f(self) -> f64;
}
impl Num for f64 {
    const NAME: &'static str = "f64";
    fn f(self) -> f64 {
        self
    }
}
impl Num for f32 {
    const NAME: &'static str = "f32";
    fn f(self) -> f64 {
        self as f64
    }
}

pub fn n<T: Num>(x: f64) -> T {
    T::from_f64(x)
}
pub fn pt<T: Num>(p: (f64, f64)) -> Point2<T> {
    Point2::new(n(p.0), n(p.1))
}
pub fn mp<T: Num>(m: &Map, p: P) -> Point2<T> {
    pt(m.p(p))
}
pub fn seg<T: Num>(m: &Map, s: (P, P)) -> LineSegment2<T> {
    LineSegment2::new(mp(m, s.0), mp(m, s.1))
}
pub fn xy<T: Num>(p: &Point2<T>) -> (f64, f64) {
    (p.x().f(), p.y().f())
}
pub fn xys<T: Num>(v: &[Point2<T>]) -> Vec<(f64, f64)> {
    v.iter().map(xy).collect()
}
pub fn maps_q(m: &Map, v: &[QP]) -> Vec<(f64, f64)> {
    v.iter().map(|p| m.q(*p)).collect()
}

/// All points of a w x h grid, row by row.
pub fn grid(w: i64, h: i64) -> Vec<P> {
    (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).collect()
}
/// All undirected positive-length segments between grid points (shortest first).
pub fn grid_segs(w: i64, h: i64) -> Vec<(P, P)> {
    let g = grid(w, h);
    let mut v = vec![];
    for i in 0..g.len() {
        for j in i + 1..g.len() {
            v.push((g[i], g[j]));
        }
    }
    v
}

/// Strictly increasing index sequence of length k below n (a k-subset), simplest first.
pub fn pick_subset(cx: &mut Cx, n: usize, k: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(k);
    let mut lo = 0;
    for i in 0..k {
        let hi = n - (k - i); // inclusive
        let c = lo + cx.pick(hi - lo + 1);
        v.push(c);
        lo = c + 1;
    }
    v
}
/// Non-decreasing index sequence (a k-multiset).
pub fn pick_multiset(cx: &mut Cx, n: usize, k: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(k);
    let mut lo = 0;
    for _ in 0..k {
        let c = lo + cx.pick(n - lo);
        v.push(c);
        lo = c;
    }
    v
}

/// A permutation of 0..k.
pub fn pick_perm(cx: &mut Cx, k: usize) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..k).collect();
    let mut v = vec![];
    while !rest.is_empty() {
        let i = cx.pick(rest.len());
        v.push(rest.remove(i));
    }
    v
}

pub fn check_points<T: Num>(label: &str, got: &[Point2<T>], want: &[(f64, f64)], tol: f64) -> R {
    mccore::exact::same_points(&xys(got), want, tol).or_else(|e| fail(label, e))
}

/// Is some relation of segments between clustered points decided by less than the tolerance?
pub fn unclear_scene(m: &Map, s: &[(P, P)]) -> bool {
    let mut ends: Vec<P> = s.iter().flat_map(|s| [s.0, s.1]).collect();
    ends.sort();
    ends.dedup();
    let parallel = s.iter().enumerate().any(|(i, a)| s[..i].iter().any(|b| barely_parallel(m, exact::sub(a.1, a.0), exact::sub(b.1, b.0)) || sharp_crossing(*a, *b)));
    parallel || unclear(m, &ends) || nearly_met(s) || s.len() > 2 && nearly_above(s)
}
/// Do the segments meet at so small an angle that rounding moves the point by more than the
/// tolerance? Shared end points are exact and do not count.
fn sharp_crossing(a: (P, P), b: (P, P)) -> bool {
    let (u, v) = (exact::sub(a.1, a.0), exact::sub(b.1, b.0));
    let c = exact::cross(u, v).abs() as f64;
    let shared = [a.0, a.1].iter().any(|p| [b.0, b.1].contains(p));
    c != 0.0 && c < 1e-4 * (u.0 as f64).hypot(u.1 as f64) * (v.0 as f64).hypot(v.1 as f64) && !shared && exact::seg_seg(a.0, a.1, b.0, b.1) != exact::Meet::None
}
/// Do two points the sweep visits differ in x, but by less than the tolerance?
pub fn nearly_above(segs: &[(P, P)]) -> bool {
    let mut xs: Vec<exact::Q> = exact::all_meets(segs).iter().map(|p| p.0).chain(segs.iter().flat_map(|s| [exact::Q::int(s.0 .0), exact::Q::int(s.1 .0)])).collect();
    xs.sort();
    xs.windows(2).any(|w| w[0] != w[1] && (w[1].f() - w[0].f()).abs() < 0.02)
}
/// Is some meeting point off a segment by less than the tolerance (but not on it)?
pub fn nearly_met(segs: &[(P, P)]) -> bool {
    exact::all_meets(segs).iter().any(|p| {
        let p = (p.0.f(), p.1.f());
        segs.iter().any(|s| {
            let (v, w) = ((s.1 .0 as f64 - s.0 .0 as f64, s.1 .1 as f64 - s.0 .1 as f64), (p.0 - s.0 .0 as f64, p.1 - s.0 .1 as f64));
            let off = (v.0 * w.1 - v.1 * w.0).abs() / v.0.hypot(v.1);
            off > 1e-6 && off < 0.02
        })
    })
}
