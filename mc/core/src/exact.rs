//! Exact reference geometry on integer points (i128 rationals), independent of the crate
//! under test, plus a tolerance-classified f64 layer for circles.

pub type I = i64;
pub type P = (I, I);

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

/// Rational number, always reduced with a positive denominator (so `Eq` is value equality).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0);
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: I) -> Q {
        Q { n: n as i128, d: 1 }
    }
    pub fn f(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn add(self, o: Q) -> Q {
        Q::new(self.n * o.d + o.n * self.d, self.d * o.d)
    }
    pub fn sub(self, o: Q) -> Q {
        Q::new(self.n * o.d - o.n * self.d, self.d * o.d)
    }
    pub fn mul(self, o: Q) -> Q {
        Q::new(self.n * o.n, self.d * o.d)
    }
    pub fn div(self, o: Q) -> Q {
        Q::new(self.n * o.d, self.d * o.n)
    }
    pub fn sign(self) -> i32 {
        self.n.signum() as i32
    }
}

impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> std::cmp::Ordering {
        (self.n * o.d).cmp(&(o.n * self.d))
    }
}

pub type QP = (Q, Q);

pub fn qp(p: P) -> QP {
    (Q::int(p.0), Q::int(p.1))
}

pub fn cross(a: P, b: P) -> i128 {
    a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128
}
pub fn dot(a: P, b: P) -> i128 {
    a.0 as i128 * b.0 as i128 + a.1 as i128 * b.1 as i128
}
pub fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}

/// twice the signed area of a,b,c
pub fn orient(a: P, b: P, c: P) -> i128 {
    cross(sub(b, a), sub(c, a))
}

pub fn on_seg(p: P, a: P, b: P) -> bool {
    orient(a, b, p) == 0 && dot(sub(p, a), sub(p, b)) <= 0
}

pub fn q_on_seg(p: QP, a: P, b: P) -> bool {
    let (ax, ay, bx, by) = (Q::int(a.0), Q::int(a.1), Q::int(b.0), Q::int(b.1));
    let c = bx.sub(ax).mul(p.1.sub(ay)).sub(by.sub(ay).mul(p.0.sub(ax)));
    if c.n != 0 {
        return false;
    }
    let d = p.0.sub(ax).mul(p.0.sub(bx)).add(p.1.sub(ay).mul(p.1.sub(by)));
    d.n <= 0
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Meet {
    None,
    Point(QP),
    /// collinear overlap of positive length between these two end points
    Overlap(P, P),
}

pub fn seg_seg(a: P, b: P, c: P, d: P) -> Meet {
    let r = sub(b, a);
    let s = sub(d, c);
    let den = cross(r, s);
    if den != 0 {
        let ac = sub(c, a);
        let t = Q::new(cross(ac, s), den);
        let u = Q::new(cross(ac, r), den);
        let one = Q::int(1);
        let zero = Q::int(0);
        if t < zero || t > one || u < zero || u > one {
            return Meet::None;
        }
        let x = Q::int(a.0).add(Q::int(r.0).mul(t));
        let y = Q::int(a.1).add(Q::int(r.1).mul(t));
        return Meet::Point((x, y));
    }
    // parallel or degenerate: the common part, if any, is spanned by end points
    let mut pts: Vec<P> = vec![];
    for p in [a, b] {
        if on_seg(p, c, d) {
            pts.push(p);
        }
    }
    for p in [c, d] {
        if on_seg(p, a, b) {
            pts.push(p);
        }
    }
    pts.sort();
    pts.dedup();
    match pts.len() {
        0 => Meet::None,
        1 => Meet::Point(qp(pts[0])),
        _ => Meet::Overlap(pts[0], pts[pts.len() - 1]),
    }
}

pub fn meet_points(m: Meet) -> Vec<QP> {
    match m {
        Meet::None => vec![],
        Meet::Point(p) => vec![p],
        Meet::Overlap(p, q) => vec![qp(p), qp(q)],
    }
}

/// All points where two of the segments cross or touch, plus the ends of overlaps; sorted, distinct.
pub fn all_meets(segs: &[(P, P)]) -> Vec<QP> {
    let mut v = vec![];
    for i in 0..segs.len() {
        for j in i + 1..segs.len() {
            v.extend(meet_points(seg_seg(segs[i].0, segs[i].1, segs[j].0, segs[j].1)));
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn area2(v: &[P]) -> i128 {
    let n = v.len();
    (0..n).map(|i| cross(v[i], v[(i + 1) % n])).sum()
}

/// Simple closed polygon (n >= 3): positive edges, neighbours share only their vertex, others disjoint.
pub fn is_simple(v: &[P]) -> bool {
    let n = v.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        if v[i] == v[(i + 1) % n] {
            return false;
        }
    }
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        for j in i + 1..n {
            let (c, d) = (v[j], v[(j + 1) % n]);
            let m = seg_seg(a, b, c, d);
            if j == i + 1 && (j + 1) % n == i {
                // two edges sharing both ends (n == 2), impossible for n >= 3
                return false;
            } else if j == i + 1 {
                if m != Meet::Point(qp(b)) {
                    return false;
                }
            } else if (j + 1) % n == i {
                if m != Meet::Point(qp(a)) {
                    return false;
                }
            } else if m != Meet::None {
                return false;
            }
        }
    }
    true
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Loc {
    On,
    In,
    Out,
}

/// Location in a simple polygon, by boundary test then crossing number.
pub fn locate(p: P, v: &[P]) -> Loc {
    let n = v.len();
    let mut inside = false;
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        if on_seg(p, a, b) {
            return Loc::On;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            let o = orient(a, b, p);
            if (b.1 > a.1) == (o > 0) {
                inside = !inside;
            }
        }
    }
    if inside {
        Loc::In
    } else {
        Loc::Out
    }
}

pub fn is_convex(v: &[P]) -> bool {
    let n = v.len();
    let (mut l, mut r) = (false, false);
    for i in 0..n {
        let o = orient(v[i], v[(i + 1) % n], v[(i + 2) % n]);
        l |= o > 0;
        r |= o < 0;
    }
    !(l && r)
}

/// Extreme points counter-clockwise from the lexicographically smallest (brute force definition:
/// a point is extreme when it is not in the hull of the others, decided by supporting lines).
pub fn hull(pts: &[P]) -> Vec<P> {
    let mut s: Vec<P> = pts.to_vec();
    s.sort();
    s.dedup();
    if s.len() <= 2 {
        return s;
    }
    // gift wrapping, keeping the farthest of collinear candidates
    let start = s[0];
    let mut h = vec![start];
    let mut cur = start;
    loop {
        let mut best: Option<P> = None;
        for &q in &s {
            if q == cur {
                continue;
            }
            best = Some(match best {
                None => q,
                Some(b) => {
                    let o = orient(cur, b, q);
                    let far = dot(sub(q, cur), sub(q, cur)) > dot(sub(b, cur), sub(b, cur));
                    if o < 0 || (o == 0 && far) {
                        q
                    } else {
                        b
                    }
                }
            });
        }
        let b = best.unwrap();
        if b == start {
            break;
        }
        h.push(b);
        cur = b;
        assert!(h.len() <= s.len(), "gift wrapping does not close");
    }
    h
}

/// Do the interiors of two non-degenerate triangles overlap? (separating axis over edges, exact)
pub fn tri_overlap(t: [P; 3], u: [P; 3]) -> bool {
    let ccw = |t: [P; 3]| if orient(t[0], t[1], t[2]) < 0 { [t[0], t[2], t[1]] } else { t };
    let (t, u) = (ccw(t), ccw(u));
    if orient(t[0], t[1], t[2]) == 0 || orient(u[0], u[1], u[2]) == 0 {
        return false;
    }
    for (x, y) in [(t, u), (u, t)] {
        for i in 0..3 {
            let (a, b) = (x[i], x[(i + 1) % 3]);
            if y.iter().all(|&p| orient(a, b, p) <= 0) {
                return false;
            }
        }
    }
    true
}

// ---------------------------------------------------------------------------------------
// plane maps: integer scene -> coordinates handed to the implementation

#[derive(Clone, Copy, Debug)]
pub struct Map {
    pub name: &'static str,
    pub a: f64,
    pub b: f64,
    pub c: f64,
    pub d: f64,
    pub e: f64,
    pub f: f64,
    /// images of small integer points are exact
    pub exact: bool,
    /// lattice points are displaced by up to this much in each coordinate, each in its own way
    pub jitter: f64,
    pub salt: u64,
}

impl Map {
    pub const fn id() -> Map {
        Map { name: "id", a: 1.0, b: 0.0, c: 0.0, d: 1.0, e: 0.0, f: 0.0, exact: true, jitter: 0.0, salt: 0 }
    }
    pub const fn new(name: &'static str, m: [f64; 6], exact: bool) -> Map {
        Map { name, a: m[0], b: m[1], c: m[2], d: m[3], e: m[4], f: m[5], exact, jitter: 0.0, salt: 0 }
    }
    pub const fn jittered(name: &'static str, m: [f64; 6], jitter: f64, salt: u64) -> Map {
        Map { name, a: m[0], b: m[1], c: m[2], d: m[3], e: m[4], f: m[5], exact: false, jitter, salt }
    }
    pub fn xy(&self, x: f64, y: f64) -> (f64, f64) {
        (self.a * x + self.b * y + self.e, self.c * x + self.d * y + self.f)
    }
    pub fn p(&self, p: P) -> (f64, f64) {
        let (x, y) = self.xy(p.0 as f64, p.1 as f64);
        if self.jitter == 0.0 {
            return (x, y);
        }
        let h = (p.0.wrapping_mul(0x9e3779b97f4a7c15u64 as i64) ^ (self.salt.wrapping_mul(0x94d049bb133111eb)) as i64 ^ p.1.wrapping_mul(0xc2b2ae3d27d4eb4fu64 as i64)) as u64;
        let h = (h ^ h >> 29).wrapping_mul(0xbf58476d1ce4e5b9) >> 32;
        (x + self.jitter * ((h % 3) as f64 - 1.0), y + self.jitter * ((h / 3 % 3) as f64 - 1.0))
    }
    /// the same map displacing points in another way
    pub fn aside(&self) -> Map {
        Map { salt: self.salt + 100, ..*self }
    }
    pub fn q(&self, p: QP) -> (f64, f64) {
        self.xy(p.0.f(), p.1.f())
    }
    pub fn det(&self) -> f64 {
        self.a * self.d - self.b * self.c
    }
    /// linear scale, meaningful for similarities
    pub fn scale(&self) -> f64 {
        self.det().abs().sqrt()
    }
    /// Small coordinates that are powers of two: results are known far better than the tolerance.
    pub fn fine(&self) -> bool {
        self.exact && self.e == 0.0 && self.f == 0.0 && (self.a == TINY.a || self.a == SPECK.a)
    }
    pub fn flips(&self) -> bool {
        self.det() < 0.0
    }
}

pub const ID: Map = Map::id();
pub const EIGHTH: Map = Map::new("scale1/8-shift", [0.125, 0.0, 0.0, 0.125, -0.25, 0.375], true);
pub const HALF_NEG: Map = Map::new("scale1/2-shift(-1.25,0.5)", [0.5, 0.0, 0.0, 0.5, -1.25, 0.5], true);
pub const X12: Map = Map::new("scale12-shift(-31,17)", [12.0, 0.0, 0.0, 12.0, -31.0, 17.0], true);
pub const FAR: Map = Map::new("shift(96,-89)", [1.0, 0.0, 0.0, 1.0, 96.0, -89.0], true);
pub const HUGE: Map = Map::new("scale64-shift(-9000,12000)", [64.0, 0.0, 0.0, 64.0, -9000.0, 12000.0], true);
pub const ROT34: Map = Map::new("rot(3,4)", [3.0, -4.0, 4.0, 3.0, -2.0, 1.0], true);
pub const SHEAR: Map = Map::new("shear(2,1;1,1)-shift(-3,-5)", [2.0, 1.0, 1.0, 1.0, -3.0, -5.0], true);
pub const MIRROR: Map = Map::new("mirror-shift(2.5,-0.5)", [-1.0, 0.0, 0.0, 1.0, 2.5, -0.5], true);
/// exact powers of two, for operations whose answer does not depend on the tolerance
pub const TINY: Map = Map::new("scale2^-20", [9.5367431640625e-7, 0.0, 0.0, 9.5367431640625e-7, 0.0, 0.0], true);
/// only some 75 tolerances apart
pub const SPECK: Map = Map::new("scale2^-27", [7.450580596923828e-9, 0.0, 0.0, 7.450580596923828e-9, 0.0, 0.0], true);
pub const SMALL: Map = Map::new("scale2^-12", [2.44140625e-4, 0.0, 0.0, 2.44140625e-4, 0.0, 0.0], true);
pub const BIG: Map = Map::new("scale2^20", [1048576.0, 0.0, 0.0, 1048576.0, 0.0, 0.0], true);
/// larger coordinates
pub const KILO: Map = Map::new("scale1000-shift(-1500,700)", [1000.0, 0.0, 0.0, 1000.0, -1500.0, 700.0], true);
pub const AWAY: Map = Map::new("shift(-10000,20000)", [1.0, 0.0, 0.0, 1.0, -10000.0, 20000.0], true);
pub const ROT_BIG: Map = Map::new("rot(119,120)", [119.0, -120.0, 120.0, 119.0, 31.0, -77.0], true);
pub const IRR_KILO: Map = Map::new("rot0.5rad-scale1300-shift(700,-300)", [1140.8573305, -623.2532002, 623.2532002, 1140.8573305, 700.0, -300.0], false);
/// turned by much less than the tolerance: uprights and levels stay so within the tolerance only
pub const LEAN: Map = Map::new("turned by 4e-13-shift(0.3,-0.7)", [1.0, -4e-13, 4e-13, 1.0, 0.3, -0.7], false);
pub const LEAN_BACK: Map = Map::new("turned by -1e-12-scale3-shift(-7.1,2.9)", [3.0, 3e-12, -3e-12, 3.0, -7.1, 2.9], false);
/// turned by less than the tolerance to each unit, but by much more over long distances
pub const SLANT: Map = Map::new("turned by 2^-34", [1.0, -5.820766091346741e-11, 5.820766091346741e-11, 1.0, 0.0, 0.0], true);
pub const SLANT_BACK: Map = Map::new("turned by -2^-34", [1.0, 5.820766091346741e-11, -5.820766091346741e-11, 1.0, 0.0, 0.0], true);
pub const SLANT_OFF: Map = Map::new("turned by 8e-11-shift(0.3,-0.7)", [1.0, -8e-11, 8e-11, 1.0, 0.3, -0.7], false);
/// a quarter turn by way of a sine and a cosine
pub const QUARTER_OFF: Map = Map::new("quarter-turn with a cosine of 6.1e-17", [6.123233995736766e-17, -1.0, 1.0, 6.123233995736766e-17, 0.0, 0.0], false);
/// lattice points off by a small fraction of the tolerance: what should touch does so within the tolerance only
pub const LOOSE: Map = Map::jittered("each point off by up to 4e-12", [1.0, 0.0, 0.0, 1.0, 0.0, 0.0], 4e-12, 0);
pub const LOOSE_2: Map = Map::jittered("each point off by up to 8e-12", [1.0, 0.0, 0.0, 1.0, 0.0, 0.0], 8e-12, 1);
pub const LOOSE_SOME: Map = Map::jittered("each point off by up to 1e-14", [1.0, 0.0, 0.0, 1.0, 0.0, 0.0], 1e-14, 2);
pub const LOOSE_TURNED: Map = Map::jittered("rot(3,4)-each point off by up to 4e-12", [3.0, -4.0, 4.0, 3.0, -2.0, 1.0], 4e-12, 3);
/// the same for single precision
pub const LOOSE_32: Map = Map::jittered("each point off by up to 1.2e-7", [1.0, 0.0, 0.0, 1.0, -1.0, -1.0], 1.2e-7, 4);
pub const LOOSE_32B: Map = Map::jittered("each point off by up to 6e-8", [0.5, 0.0, 0.0, 0.5, 0.0, -0.5], 6e-8, 5);
pub const TENTH: Map = Map::new("scale0.1-shift(0.3,-0.7)", [0.1, 0.0, 0.0, 0.1, 0.3, -0.7], false);
/// rotation by 0.5 rad scaled by 1.3
pub const ROT_IRR: Map = Map::new(
    "rot0.5rad-scale1.3-shift(0.7,-0.3)",
    [1.1408573305, -0.6232532002, 0.6232532002, 1.1408573305, 0.7, -0.3],
    false,
);

/// Lattices whose points come in clusters: NEAR_UNIT apart between clusters, 1 within them. The
/// maps bring the clusters to distance 1 and make features about 2.4e-7 apart.
pub const NEAR_UNIT: I = 1 << 22;
pub const NEAR: Map = Map::new("clusters-scale2^-22", [2.384185791015625e-7, 0.0, 0.0, 2.384185791015625e-7, 0.0, 0.0], true);
pub const NEAR_TURNED: Map = Map::new(
    "clusters-rot0.5rad-scale1.3*2^-22-shift(0.7,-0.3)",
    [2.7200157892704e-7, -1.48595142e-7, 1.48595142e-7, 2.7200157892704e-7, 0.7, -0.3],
    false,
);
/// The same with clusters 512 apart and features 1.5e-8 (150 tolerances) apart.
pub const CRISP_UNIT: I = 1 << 35;
pub const CRISP: Map = Map::new("clusters-scale2^-26", [1.4901161193847656e-8, 0.0, 0.0, 1.4901161193847656e-8, 0.0, 0.0], true);
pub const CRISP_TURNED: Map = Map::new(
    "clusters-rot0.5rad-scale1.3*2^-26-shift(0.7,-0.3)",
    [1.70000986829525e-8, -9.2871982e-9, 9.2871982e-9, 1.70000986829525e-8, 0.7, -0.3],
    false,
);
/// every base point moved by every offset
pub fn clusters(base: &[P], offsets: &[P]) -> Vec<P> {
    clusters_at(NEAR_UNIT, base, offsets)
}
pub fn clusters_at(unit: I, base: &[P], offsets: &[P]) -> Vec<P> {
    base.iter().flat_map(|p| offsets.iter().map(move |o| (p.0 * unit + o.0, p.1 * unit + o.1))).collect()
}
/// Is every point either on the line through any two others or far off it compared with the
/// tolerance (0.05 units, 1e-8 or 7e-10 when mapped)?
pub fn well_off(v: &[P]) -> bool {
    let n = v.len();
    (0..n).all(|i| (0..i).all(|j| (0..j).all(|k| tri_clear(v[i], v[j], v[k]))))
}
fn tri_clear(a: P, b: P, c: P) -> bool {
    let o = orient(a, b, c).abs() as f64;
    let len = |p: P, q: P| ((p.0 - q.0) as f64).hypot((p.1 - q.1) as f64);
    o == 0.0 || o > 0.05 * len(a, b).max(len(b, c)).max(len(a, c))
}
/// do the two points belong to one cluster?
pub fn same_cluster(p: P, q: P) -> bool {
    (p.0 - q.0).abs() < NEAR_UNIT / 2 && (p.1 - q.1).abs() < NEAR_UNIT / 2
}

/// Compare an unordered list of returned points with the expected set.
pub fn same_points(got: &[(f64, f64)], want: &[(f64, f64)], tol: f64) -> Result<(), String> {
    for (i, g) in got.iter().enumerate() {
        if !(g.0.is_finite() && g.1.is_finite()) {
            return Err(format!("non-finite point {g:?} in {got:?}"));
        }
        for h in &got[i + 1..] {
            if (g.0 - h.0).hypot(g.1 - h.1) <= tol {
                return Err(format!("point returned twice: {g:?} and {h:?} in {got:?}"));
            }
        }
    }
    for w in want {
        if !got.iter().any(|g| (g.0 - w.0).hypot(g.1 - w.1) <= tol) {
            return Err(format!("missing point {w:?}; got {got:?}, want {want:?}"));
        }
    }
    for g in got {
        if !want.iter().any(|w| (g.0 - w.0).hypot(g.1 - w.1) <= tol) {
            return Err(format!("unexpected point {g:?}; got {got:?}, want {want:?}"));
        }
    }
    Ok(())
}
