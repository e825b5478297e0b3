//! C01, C03, C04: straight segments, pairwise and by sweep.
use crate::common::*;
use exact::*;
use rcgal::algorithm::intersection::segment_2_segment_2::*;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;

fn sweep_case(cx: &mut Cx, m: &Map, segs: &[(P, P)]) -> R {
    sweep_case_with(cx, m, segs, &[])
}
/// The ends of the segments displaced by the given vectors (not at all where there is none).
fn sweep_case_with(cx: &mut Cx, m: &Map, segs: &[(P, P)], d: &[[(f64, f64); 2]]) -> R {
    cx.note(|| format!("map={} segments={segs:?}{}", m.name, if d.is_empty() { String::new() } else { format!(" displaced {d:?}") }));
    let want = maps_q(m, &all_meets(segs));
    // in clusters of points 2.4e-7 apart crossings at small angles are less well known
    let tol = if m.fine() { 2e-11 } else if m.scale() < 5e-8 { 1.4e-9 } else if m.scale() < 1e-6 { 2e-8 } else { (1e-7 * m.scale()).clamp(1e-9, 1e-7) };
    if !apart(&want, 10.0 * tol) || m.scale() < 1e-8 && (nearly_above(segs) || nearly_met(segs)) {
        return Err(mccore::Stop::Prune);
    }
    let got = cx.call("sweep", || {
        let mut s = SweepSegment2Intersection::<f64>::new();
        for (i, g) in segs.iter().enumerate() {
            let d = d.get(i).copied().unwrap_or([(0.0, 0.0); 2]);
            let off = |p: P, d: (f64, f64)| { let p = m.p(p); pt::<f64>((p.0 + d.0, p.1 + d.1)) };
            s.push_segment(&LineSegment2::new(off(g.0, d[0]), off(g.1, d[1])));
        }
        s.intersection()
    })?;
    cx.outcome(match want.len() {
        0 => "no meeting point",
        1 => "1 point",
        2..=3 => "2-3 points",
        _ => "4+ points",
    });
    check_points("points", &got, &want, tol)
}

/// No two of the points are within `gap` of each other.
fn apart(points: &[(f64, f64)], gap: f64) -> bool {
    let mut v = points.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.iter().enumerate().all(|(i, p)| v[i + 1..].iter().take_while(|q| q.0 - p.0 <= gap).all(|q| (q.1 - p.1).abs() > gap))
}

/// Two segments that cross at such a small angle that rounding of the coordinates alone moves
/// the crossing by more than the tolerance of the library.
fn grazing(segs: &[(P, P)]) -> bool {
    segs.iter().enumerate().any(|(i, a)| {
        segs[i + 1..].iter().any(|b| {
            let (u, v) = ((a.1 .0 - a.0 .0, a.1 .1 - a.0 .1), (b.1 .0 - b.0 .0, b.1 .1 - b.0 .1));
            let cross = (u.0 as f64 * v.1 as f64 - u.1 as f64 * v.0 as f64).abs();
            cross != 0.0 && cross < 2e-3 * (u.0 as f64).hypot(u.1 as f64) * (v.0 as f64).hypot(v.1 as f64) && matches!(seg_seg(a.0, a.1, b.0, b.1), Meet::Point(_))
        })
    })
}

/// k-multisets of the straight segments on a small grid, mapped by every map of the list.
fn grid_family(name: &'static str, w: i64, h: i64, k: usize, repeats: bool, maps: &'static [Map]) -> Family {
    let segs = grid_segs(w, h);
    let what = if repeats { "multisets (repetition allowed)" } else { "sets" };
    family(
        name,
        format!("all {k}-{what} of the {} segments between points of a {w}x{h} grid, under {} coordinate maps", segs.len(), maps.len()),
        move |cx| {
            let m = cx.pick_from(maps);
            let idx = if repeats { pick_multiset(cx, segs.len(), k) } else { pick_subset(cx, segs.len(), k) };
            let s: Vec<_> = idx.iter().map(|i| segs[*i]).collect();
            sweep_case(cx, &m, &s)
        },
    )
}

/// k-sets of segments between points that come in clusters
fn near_family(name: &'static str, sc: &'static Scale, base: Vec<P>, offsets: &[P], k: usize) -> Family {
    let g = exact::clusters_at(sc.unit, &base, offsets);
    let segs: Vec<(P, P)> = (0..g.len()).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| (g[j], g[i])).filter(|s| !exact::same_cluster(s.0, s.1)).collect();
    family(
        name,
        format!("all {k}-sets of the {} segments between {} lattice points or points {} beside them, under 2 coordinate maps; segments that cross at an angle below 1e-4 radians, and scenes in which two meeting points are closer than ten times their tolerance, are left out{}", segs.len(), base.len(), sc.what, if k > 2 { ", as are scenes in which two points to visit differ in x by less than the tolerance" } else { "" }),
        move |cx| {
            let m = cx.pick_from(sc.maps);
            let s: Vec<_> = pick_subset(cx, segs.len(), k).iter().map(|i| segs[*i]).collect();
            if unclear_scene(&m, &s) {
                return Err(mccore::Stop::Prune);
            }
            sweep_case(cx, &m, &s)
        },
    )
}
/// Segments between lattice points, the ends displaced by a fraction of the tolerance: whatever
/// coincided or touched still does.
fn displaced_family(name: &'static str, w: i64, h: i64, k: usize, dirs: &'static [(f64, f64)], maps: &'static [Map]) -> Family {
    let segs = grid_segs(w, h);
    family(
        name,
        format!("all {k}-multisets of the {} segments between points of a {w}x{h} grid, each end displaced by one of {dirs:?} (those of the first segment not at all), under {} coordinate maps", segs.len(), maps.len()),
        move |cx| {
            let m = cx.pick_from(maps);
            let s: Vec<_> = pick_multiset(cx, segs.len(), k).iter().map(|i| segs[*i]).collect();
            let d: Vec<_> = (0..k).map(|i| if i == 0 { [(0.0, 0.0); 2] } else { [cx.pick_from(dirs), cx.pick_from(dirs)] }).collect();
            sweep_case_with(cx, &m, &s, &d)
        },
    )
}
const Q: f64 = 1.5e-11;
const DIRS5: &[(f64, f64)] = &[(0.0, 0.0), (Q, Q), (-Q, Q), (0.0, -Q), (Q, 0.0)];
const DIRS3: &[(f64, f64)] = &[(0.0, 0.0), (Q, -Q), (-Q, 0.0)];
/// Every subset of a fixed pool of segments chosen to interact in many ways.
fn pool_family(name: &'static str, pool: Vec<(P, P)>, maps: &'static [Map]) -> Family {
    family(
        name,
        format!("all 2^{} subsets of the pool {pool:?}, under {} coordinate maps", pool.len(), maps.len()),
        move |cx| {
            let m = cx.pick_from(maps);
            let s: Vec<_> = pool.iter().filter(|_| cx.flag()).copied().collect();
            sweep_case(cx, &m, &s)
        },
    )
}

/// verticals, horizontals and diagonals of a 5x5 lattice
fn lattice_pool() -> Vec<(P, P)> {
    let mut v = vec![];
    for i in 0..5 {
        v.push(((i, 0), (i, 4)));
        v.push(((0, i), (4, i)));
    }
    v.extend([((0, 0), (4, 4)), ((0, 4), (4, 0)), ((0, 2), (2, 4)), ((2, 0), (4, 2)), ((0, 1), (4, 3)), ((1, 4), (3, 0))]);
    v
}
/// stars through two centres, one above the other
fn star_pool() -> Vec<(P, P)> {
    vec![
        ((0, 3), (6, 3)), ((0, 0), (6, 6)), ((0, 6), (6, 0)), ((3, 0), (3, 9)), ((1, 3), (3, 3)), ((3, 3), (5, 7)),
        ((0, 2), (6, 4)), ((0, 4), (6, 2)), ((0, 6), (6, 6)), ((1, 2), (5, 10)), ((1, 10), (5, 2)), ((3, 6), (7, 6)),
        ((2, 6), (4, 6)), ((0, 9), (6, 3)),
    ]
}
/// collinear chains and overlaps on two lines, cut by transversals
fn overlap_pool() -> Vec<(P, P)> {
    vec![
        ((0, 0), (4, 2)), ((2, 1), (6, 3)), ((4, 2), (8, 4)), ((6, 3), (10, 5)), ((0, 0), (10, 5)), ((2, 1), (4, 2)),
        ((5, 0), (5, 6)), ((5, 2), (5, 3)), ((5, 1), (5, 9)), ((0, 5), (10, 0)), ((3, 0), (7, 6)), ((4, 2), (4, 8)),
        ((1, 4), (9, 4)), ((0, 3), (8, 3)),
    ]
}
/// nearly parallel long segments with many crossings
fn zigzag_pool() -> Vec<(P, P)> {
    vec![
        ((0, 0), (12, 1)), ((0, 1), (12, 0)), ((0, 2), (12, 1)), ((0, 1), (12, 2)), ((0, 3), (12, 0)), ((0, 0), (12, 3)),
        ((1, 0), (11, 3)), ((2, 3), (3, 0)), ((3, 0), (4, 3)), ((4, 3), (5, 0)), ((5, 0), (6, 3)), ((6, 3), (6, 0)),
        ((6, 0), (7, 3)), ((7, 3), (12, 2)),
    ]
}

const ALL_MAPS: &[Map] = &[ID, EIGHTH, HALF_NEG, X12, FAR, ROT34, SHEAR, MIRROR, TENTH, ROT_IRR];
const SOME_MAPS: &[Map] = &[ID, SHEAR, ROT_IRR];
const ONE_MAP: &[Map] = &[ID];

/// Scenes with many segments at once: h staggered horizontals, v staggered verticals, d parallel
/// rising and e parallel falling diagonals, s spokes from one centre.
fn crowd_family(name: &'static str, counts: &'static [[usize; 5]], maps: &'static [Map]) -> Family {
    let width: [usize; 5] = std::array::from_fn(|i| counts.iter().map(|c| c[i]).max().unwrap());
    family(
        name,
        format!(
            "{} large scenes (up to {width:?} staggered horizontals, verticals, rising, falling diagonals, spokes), every combination of start offset, pushed forwards or backwards, under {} coordinate maps",
            counts.len(),
            maps.len()
        ),
        move |cx| {
            let c = cx.pick_from(counts);
            let m = cx.pick_from(maps);
            let off = cx.pick(5) as i64;
            let back = cx.flag();
            let mut s: Vec<(P, P)> = vec![];
            for i in 0..c[0] as i64 {
                s.push(((((i + off) * 3) % 7, 2 * i), (14 + (i * 5 + off) % 11, 2 * i)));
            }
            for i in 0..c[1] as i64 {
                s.push(((1 + 2 * i, (i * 4 + off) % 5), (1 + 2 * i, 9 + (i * 3) % 13)));
            }
            for i in 0..c[2] as i64 {
                s.push(((i % 3, 3 * i - 4 + off), (12 + i % 4, 3 * i + 6 + off)));
            }
            for i in 0..c[3] as i64 {
                s.push(((off + i % 2, 3 * i + 9), (16, 3 * i - 5)));
            }
            for i in 0..c[4] as i64 {
                s.push(((8, 8 + off), (8 + (i * 7) % 17 - 8, 8 + off + (i * 5) % 13 - 6)));
            }
            s.retain(|g| g.0 != g.1);
            if back {
                s.reverse();
            }
            sweep_case(cx, &m, &s)
        },
    )
}

/// Segments with ends that step through a lattice modulo m in strides: many kinds of large scenes.
pub fn modular_segs(n: i64, m: i64, [a, b, c, d]: [i64; 4]) -> Vec<(P, P)> {
    (0..n)
        .map(|i| (((i * a) % m, (i * i * b + i) % m), ((i * c + 1) % m, (i * i * d + 3 * i + 2) % m)))
        .filter(|g| g.0 != g.1)
        .collect()
}
fn modular_family(name: &'static str, n: i64, m: i64, strides: &'static [i64], maps: &'static [Map]) -> Family {
    family(
        name,
        format!("{n} segments whose ends step through an {m}x{m} lattice modulo {m}, every combination of four strides out of {strides:?}, under {} coordinate maps", maps.len()),
        move |cx| {
            let k = std::array::from_fn(|_| cx.pick_from(strides));
            let map = cx.pick_from(maps);
            sweep_case(cx, &map, &modular_segs(n, m, k))
        },
    )
}

/// Strands from one side to the other that change places: many segments abreast, many crossings.
fn braid_family(name: &'static str, ns: &'static [i64], strides: &'static [i64], maps: &'static [Map]) -> Family {
    family(
        name,
        format!("{ns:?} (primes) segments side by side, from (0, 2i) to (n, 2j) with i to j a multiple or an inverse or a square modulo n or in steps of {strides:?}, with or without a segment across their middle and one up their side, under {} coordinate maps", maps.len()),
        move |cx| {
            let map = cx.pick_from(maps);
            let n = cx.pick_from(ns);
            let (kind, k) = (cx.pick(3), cx.pick_from(strides));
            let to = |i: i64| match kind {
                0 => i * k % n,
                1 => (i * i + k * i) % n,
                _ => (0..n).find(|j| i * j % n == 1).unwrap_or(0) * k % n,
            };
            let mut s: Vec<(P, P)> = (0..n).map(|i| ((0, 2 * i), (n, 2 * to(i)))).collect();
            if cx.flag() {
                s.push(((-1, n), (n + 1, n)));
                s.push(((0, 0), (0, 2 * n)));
            }
            sweep_case(cx, &map, &s)
        },
    )
}

const MILLI: Map = Map::new("scale0.001", [0.001, 0.0, 0.0, 0.001, 0.0, 0.0], false);
const MILLI_TURNED: Map = Map::new("scale0.001-quarter-turn", [0.0, -0.001, 0.001, 0.0, 0.0, 0.0], false);
const MILLI_MIRRORED: Map = Map::new("scale0.001-mirrored", [-0.001, 0.0, 0.0, 0.001, 0.0, 0.0], false);

/// nearly upright segments among flat and slanted ones; coordinates in thousandths
fn steep_family(name: &'static str, xs: &'static [i64], dxs: &'static [i64], heights: &'static [i64], k: usize) -> Family {
    family(
        name,
        format!("one segment of height {heights:?} leaning by {dxs:?} at x in {xs:?} (thousandths), and all {k}-subsets of 13 others (flat, slanted, upright, leaning) through, from and beside it, under 3 coordinate maps; segments that cross at less than 0.002 radians are left out"),
        move |cx| {
            let m = cx.pick_from(&[MILLI, MILLI_TURNED, MILLI_MIRRORED]);
            let (x, dx, h) = (cx.pick_from(xs), cx.pick_from(dxs), cx.pick_from(heights));
            let y = -h / 2;
            let steep = ((x, y), (x + dx, y + h));
            let mid = ((2 * x + dx) / 2, 0);
            let pool = [
                ((x - 500_000, y + h / 4), (x + 400_000, y + h / 4)),
                ((x - 500_000, y), (x + 500_000, y + h / 2)),
                ((x - 300_000, y + h), (x + 700_000, y + h / 10)),
                // from its ends
                ((x, y), (x + 300_000, y + h / 3)),
                ((x + dx, y + h), (x - 400_000, y + h / 2)),
                // ending on it when dx is even
                (mid, (x + 900_000, 40_000)),
                (mid, (x - 900_000, 70_000)),
                // upright ones and leaning ones
                ((x - 2_000, y - 5_000), (x - 2_000, y + h)),
                ((x + dx + 2_000, y), (x + dx + 2_000, y + 2 * h)),
                ((x - 3 * dx, y), (x + 4 * dx, y + h)),
                ((x + dx, y - 3_000), (x, y + h + 3_000)),
                ((x + 2 * dx, y), (x + 3 * dx, y + h)),
                ((x - 1_000_000, y - 9_000), (x + 1_000_000, y + h + 11_000)),
            ];
            let mut s: Vec<(P, P)> = pick_subset(cx, pool.len(), k).iter().map(|i| pool[*i]).collect();
            s.insert(0, steep);
            if grazing(&s) {
                return Err(mccore::Stop::Prune);
            }
            sweep_case(cx, &m, &s)
        },
    )
}

const CROWDS: &[[usize; 5]] = &[
    [0, 0, 0, 0, 5],
    [0, 0, 0, 0, 16],
    [3, 3, 0, 0, 0],
    [8, 8, 0, 0, 0],
    [12, 2, 0, 0, 0],
    [2, 8, 0, 0, 0],
    [6, 0, 4, 0, 0],
    [6, 0, 0, 4, 0],
    [0, 6, 5, 0, 0],
    [0, 6, 0, 5, 0],
    [0, 0, 6, 6, 0],
    [0, 0, 8, 2, 3],
    [5, 5, 3, 3, 0],
    [9, 1, 1, 1, 7],
    [4, 4, 4, 4, 6],
    [12, 0, 1, 0, 0],
    [20, 1, 0, 0, 0],
    [20, 0, 0, 1, 4],
];
const CROWDS_MORE: &[[usize; 5]] = &[
    [12, 8, 0, 0, 0],
    [12, 8, 4, 4, 9],
    [20, 8, 0, 0, 16],
    [0, 8, 12, 0, 0],
    [20, 3, 3, 3, 3],
    [1, 1, 12, 12, 1],
    [0, 0, 0, 20, 0],
    [30, 1, 1, 1, 0],
    [25, 0, 5, 0, 10],
    [7, 7, 7, 7, 7],
    [16, 8, 8, 8, 16],
];

pub fn c01() -> Property {
    Property {
        id: "C01",
        explanation: "Exhaustive enumeration of whole scenes of straight segments, each run through the real sweep and compared point by point with an exact rational brute-force reference (all pairs). Small scenes are all k-sets or k-multisets of the segments of a small integer grid (so every coincidence is present: shared ends, T-junctions, verticals, collinear overlap, several segments through one point, repeated segments); larger ones are all subsets of pools chosen to interact and parameterised crowds of up to 70 segments. Each is repeated under coordinate maps (shifts, scalings, shears, mirror, rational and irrational rotation, inexact decimals).",
        assumptions: &["double precision", "segments of positive length whose features are coincident or separated by far more than 1e-10", "coordinates up to about 10^4 in magnitude"],
        families: |t| {
            let mut v = vec![
                grid_family("grid3x3-k2", 3, 3, 2, true, ALL_MAPS),
                grid_family("grid3x3-k3", 3, 3, 3, true, ALL_MAPS),
                grid_family("grid3x3-k4", 3, 3, 4, true, SOME_MAPS),
                grid_family("grid4x4-k2", 4, 4, 2, true, ALL_MAPS),
                grid_family("grid4x4-k3", 4, 4, 3, false, SOME_MAPS),
                grid_family("grid3x3-k5", 3, 3, 5, false, ONE_MAP),
                grid_family("grid5x4-k3", 5, 4, 3, false, ONE_MAP),
                grid_family("grid3x3-k3-wide", 3, 3, 3, true, WIDE),
                grid_family("grid4x4-k2-wide", 4, 4, 2, true, WIDE),
                grid_family("grid3x3-k2-lean", 3, 3, 2, true, LEANS),
                grid_family("grid3x3-k3-lean", 3, 3, 3, true, LEANS),
                grid_family("grid4x4-k2-lean", 4, 4, 2, true, LEANS),
                grid_family("grid3x3-k4-lean", 3, 3, 4, false, LEANS),
                near_family("near-k2", CLOSE, grid(3, 3), OFFSETS3, 2),
                near_family("crisp-k2", CRISPS, grid(3, 3), OFFSETS3, 2),
                near_family("near-k3", CLOSE, grid(2, 2), OFFSETS3, 3),
                near_family("near-3x2-k3", CLOSE, grid(3, 2), OFFSETS2, 3),
                crowd_family("crowds-lean", CROWDS, LEANS),
                crowd_family("crowds", CROWDS, ALL_MAPS),
                crowd_family("crowds-wide", CROWDS, WIDE),
                steep_family("steep", &[0, 712_345, -9_000_000], &[10_000, -1_000, 100, -2], &[10_000, 2_000_000, 16_000_000], 2),
                steep_family("steep-3", &[712_344, -9_000_000], &[-10_000, 2], &[8_000_000], 3),
                modular_family("modular-7", 8, 7, &[0, 1, 2, 3, 4, 5, 6], SOME_MAPS),
                modular_family("modular-13", 16, 13, &[1, 2, 3, 5, 8, 11], SOME_MAPS),
                modular_family("modular-31", 40, 31, &[1, 4, 9, 17, 26], ONE_MAP),
                braid_family("braids", &[11, 23, 41], &[1, 2, 5, 9], SOME_MAPS),
                braid_family("braids-61", &[61], &[3, 7, 60], ONE_MAP),
                modular_family("modular-23-wide", 20, 23, &[1, 6, 14], WIDE),
                displaced_family("displaced-3x3-k2", 3, 3, 2, DIRS5, SOME_MAPS),
                displaced_family("displaced-4x4-k2", 4, 4, 2, DIRS5, ONE_MAP),
                displaced_family("displaced-3x3-k3", 3, 3, 3, DIRS5, ONE_MAP),
                grid_family("grid3x3-k4-loose", 3, 3, 4, true, LOOSES),
                grid_family("grid4x4-k3-loose", 4, 4, 3, false, LOOSES),
                pool_family("pool-star-loose", star_pool(), LOOSES),
                pool_family("pool-overlap-loose", overlap_pool(), LOOSES),
                crowd_family("crowds-loose", CROWDS, LOOSES),
                modular_family("modular-13-loose", 16, 13, &[1, 2, 5, 8], LOOSES),
                displaced_family("displaced-2x2-k4", 2, 2, 4, DIRS3, ONE_MAP),
                pool_family("pool-lattice", lattice_pool(), ONE_MAP),
                pool_family("pool-lattice-lean", lattice_pool(), &[exact::LEAN]),
                pool_family("pool-overlap-lean", overlap_pool(), LEANS),
                modular_family("modular-13-lean", 16, 13, &[1, 2, 5, 8], LEANS),
                pool_family("pool-star", star_pool(), SOME_MAPS),
                pool_family("pool-overlap", overlap_pool(), SOME_MAPS),
                pool_family("pool-zigzag", zigzag_pool(), SOME_MAPS),
            ];
            if t == Tier::Thorough {
                v.extend([
                    grid_family("grid3x3-k4-all-maps", 3, 3, 4, true, ALL_MAPS),
                    grid_family("grid4x4-k3-all-maps", 4, 4, 3, true, ALL_MAPS),
                    pool_family("pool-lattice-maps", lattice_pool(), SOME_MAPS),
                    pool_family("pool-star-all-maps", star_pool(), ALL_MAPS),
                    pool_family("pool-overlap-all-maps", overlap_pool(), ALL_MAPS),
                    pool_family("pool-zigzag-all-maps", zigzag_pool(), ALL_MAPS),
                    crowd_family("larger-crowds", CROWDS_MORE, ALL_MAPS),
                    modular_family("modular-13-all-maps", 16, 13, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], SOME_MAPS),
                    modular_family("modular-31-wide", 40, 31, &[1, 4, 9, 17, 26], STIFF),
                    modular_family("modular-53", 120, 53, &[1, 19, 34], SOME_MAPS),
                    steep_family("steep-4", &[0, 123, 712_345, -9_000_000], &[10_000, -10_000, 1_000, -1_000, 100, -2, 2], &[10_000, 2_000_000, 16_000_000], 4),
                    grid_family("grid7x2-k4", 7, 2, 4, false, ONE_MAP),
                    grid_family("grid2x7-k4", 2, 7, 4, false, ONE_MAP),
                    grid_family("grid3x3-k6", 3, 3, 6, false, ONE_MAP),
                    grid_family("grid4x4-k4", 4, 4, 4, false, ONE_MAP),
                ]);
            }
            v
        },
    }
}

/// Every ordered pair of directed (possibly zero-length) segments between points of a grid.
fn pair_family<T: Num>(name: &'static str, w: i64, h: i64, maps: &'static [Map], tol: f64) -> Family {
    let g = grid(w, h);
    family(
        name,
        format!("all ordered pairs of directed segments, zero-length ones included, between points of a {w}x{h} grid, under {} coordinate maps, {}", maps.len(), T::NAME),
        move |cx| {
            let m = cx.pick_from(maps);
            let p: Vec<P> = (0..4).map(|_| cx.pick_from(&g)).collect();
            let (a, b) = ((p[0], p[1]), (p[2], p[3]));
            pair_case::<T>(cx, &m, a, b, if m.fine() { 2e-11 } else { (tol * m.scale()).clamp(1e-2 * tol, tol) })
        },
    )
}
fn pair_near(name: &'static str, sc: &'static Scale, base: Vec<P>, offsets: &[P]) -> Family {
    let g = exact::clusters_at(sc.unit, &base, offsets);
    family(
        name,
        format!("all ordered pairs of directed segments, zero-length ones included, between {} lattice points or points {} beside them, under 2 coordinate maps", base.len(), sc.what),
        move |cx| {
            let m = cx.pick_from(sc.maps);
            let p: Vec<P> = (0..4).map(|_| cx.pick_from(&g)).collect();
            let (a, b) = ((p[0], p[1]), (p[2], p[3]));
            if unclear(&m, &p) || barely_parallel(&m, exact::sub(a.1, a.0), exact::sub(b.1, b.0)) || a.0 != a.1 && too_short(&m, a.0, a.1) || b.0 != b.1 && too_short(&m, b.0, b.1) {
                return Err(mccore::Stop::Prune);
            }
            pair_case::<f64>(cx, &m, a, b, if sc.unit == CRISPS.unit { 5e-9 } else { 2e-8 })
        },
    )
}
/// The second segment displaced, each end on its own, by a fraction of the tolerance: contacts
/// stay contacts, coincident ends stay coincident and overlaps stay overlaps.
fn pair_displaced<T: Num>(name: &'static str, w: i64, h: i64, maps: &'static [Map], q: f64, tol: f64) -> Family {
    let g = grid(w, h);
    family(
        name,
        format!("all ordered pairs of directed segments, zero-length ones included, between points of a {w}x{h} grid, each end of the second displaced by up to {q:e} in 5 directions (both alike when it has no length), under {} coordinate maps, {}", maps.len(), T::NAME),
        move |cx| {
            let m = cx.pick_from(maps);
            let p: Vec<P> = (0..4).map(|_| cx.pick_from(&g)).collect();
            let d = [(0.0, 0.0), (q, q), (-q, q), (0.0, -q), (q, 0.0)];
            let d0 = cx.pick_from(&d);
            let d1 = if p[2] == p[3] { d0 } else { cx.pick_from(&d) };
            pair_case_with::<T>(cx, &m, (p[0], p[1]), (p[2], p[3]), tol, [d0, d1])
        },
    )
}
fn pair_case<T: Num>(cx: &mut Cx, m: &Map, a: (P, P), b: (P, P), tol: f64) -> R {
    pair_case_with::<T>(cx, m, a, b, tol, [(0.0, 0.0); 2])
}
fn pair_case_with<T: Num>(cx: &mut Cx, m: &Map, a: (P, P), b: (P, P), tol: f64, d: [(f64, f64); 2]) -> R {
            cx.note(|| format!("{} map={} a={a:?} b={b:?}{}", T::NAME, m.name, if d == [(0.0, 0.0); 2] { String::new() } else { format!(" b displaced {d:?}") }));
            let meet = seg_seg(a.0, a.1, b.0, b.1);
            let want = maps_q(m, &meet_points(meet));
            cx.outcome(match (&meet, a.0 == a.1 || b.0 == b.1) {
                (Meet::None, false) => "disjoint",
                (Meet::None, true) => "disjoint, zero length",
                (Meet::Point(_), false) => "one point",
                (Meet::Point(_), true) => "one point, zero length",
                (Meet::Overlap(..), _) => "overlap",
            });
            let sa = seg::<T>(m, a);
            let off = |p: P, d: (f64, f64)| { let p = m.p(p); pt::<T>((p.0 + d.0, p.1 + d.1)) };
            let sb = LineSegment2::new(off(b.0, d[0]), off(b.1, d[1]));
            let hit = cx.call("intersected", || is_segment_2_segment_2_intersected(&sa, &sb))?;
            let got = cx.call("intersection", || segment_2_segment_2_intersection(&sa, &sb))?;
            ensure!(hit == !want.is_empty(), "predicate", "intersected={hit}, want {want:?}");
            check_points("points", &got, &want, tol)
}

const F32_MAPS: &[Map] = &[ID, EIGHTH, HALF_NEG, SHEAR, MIRROR, ROT34];

pub fn c04() -> Property {
    Property {
        id: "C04",
        explanation: "Exhaustive enumeration of ordered pairs of directed straight segments between points of a small integer grid (zero-length ones included; enumerating ordered pairs of directed segments covers both argument orders and both directions), both operations run on the real code and compared with an exact rational reference.",
        assumptions: &["features of a pair are coincident or separated by far more than the tolerance; single precision only with exactly representable small coordinates"],
        families: |t| {
            let mut v = vec![
                pair_family::<f64>("grid4x4", 4, 4, ALL_MAPS, 1e-7),
                pair_family::<f64>("grid5x5", 5, 5, ONE_MAP, 1e-7),
                pair_family::<f32>("grid4x4-f32", 4, 4, F32_MAPS, 1e-3),
                pair_family::<f64>("grid4x4-wide", 4, 4, WIDE, 1e-7),
                pair_near("near-3x3", CLOSE, grid(3, 3), OFFSETS2),
                pair_near("near-2x2", CLOSE, grid(2, 2), OFFSETS5),
                pair_near("crisp-2x2", CRISPS, grid(2, 2), OFFSETS5),
                pair_near("crisp-3x2", CRISPS, grid(3, 2), OFFSETS3),
                pair_near("crisp-3x3", CRISPS, grid(3, 3), OFFSETS2),
                pair_displaced::<f64>("displaced-3x3", 3, 3, &[ID, ROT34, HALF_NEG], 1.5e-11, 1e-7),
                pair_displaced::<f32>("displaced-3x3-f32", 3, 3, &[ID], 1.5e-7, 1e-3),
                pair_family::<f64>("grid5x5-loose", 5, 5, LOOSES, 1e-7),
                pair_family::<f32>("grid3x3-loose-f32", 3, 3, LOOSES_32, 1e-3),
                pair_displaced::<f64>("displaced-4x2", 4, 2, &[ID], 1.5e-11, 1e-7),
                pair_family::<f64>("grid9x2", 9, 2, ALL_MAPS, 1e-7),
                pair_family::<f64>("grid2x9", 2, 9, ALL_MAPS, 1e-7),
            ];
            v.extend([
                pair_family::<f64>("grid5x5-all-maps", 5, 5, ALL_MAPS, 1e-7),
                pair_family::<f64>("grid7x4", 7, 4, ALL_MAPS, 1e-7),
                pair_family::<f64>("grid4x7", 4, 7, ALL_MAPS, 1e-7),
                pair_family::<f64>("grid6x6", 6, 6, SOME_MAPS, 1e-7),
                pair_family::<f32>("grid5x5-f32", 5, 5, F32_MAPS, 1e-3),
                pair_family::<f64>("grid7x7", 7, 7, ONE_MAP, 1e-7),
                pair_displaced::<f64>("displaced-4x4", 4, 4, &[ID, SHEAR], 8e-12, 1e-7),
            ]);
            if t == Tier::Thorough {
                v.extend([
                    pair_family::<f64>("grid6x6-all-maps", 6, 6, ALL_MAPS, 1e-7),
                    pair_family::<f64>("grid6x6-wide", 6, 6, WIDE, 1e-7),
                    pair_family::<f64>("grid8x8", 8, 8, SOME_MAPS, 1e-7),
                    pair_family::<f64>("grid9x9", 9, 9, ONE_MAP, 1e-7),
                    pair_family::<f64>("grid13x5", 13, 5, SOME_MAPS, 1e-7),
                    pair_family::<f64>("grid5x13", 5, 13, SOME_MAPS, 1e-7),
                    pair_family::<f32>("grid7x7-f32", 7, 7, F32_MAPS, 1e-3),
                    pair_displaced::<f64>("displaced-5x5", 5, 5, &[ID, SHEAR, ROT34], 4e-12, 1e-7),
                    pair_near("near-4x4", CLOSE, grid(4, 4), OFFSETS3),
                    pair_near("near-3x3-more", CLOSE, grid(3, 3), OFFSETS5),
                ]);
            }
            v
        },
    }
}
