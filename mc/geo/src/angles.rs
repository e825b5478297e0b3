//! C10, C19: points against circles and arcs; monotone pieces of arcs.
use crate::common::*;
use crate::curves::*;
use mccore::Stop;
use rcgal::algorithm::location::{location_enum::*, point_2_arc_segment_2::*, point_2_circle_segment_2::*};
use std::f64::consts::PI;

// ---------------------------------------------------------------------------------------
// C10

fn circle_case<T: Num>(cx: &mut Cx, maps: &[Map], centres: &[P], radii: &[i64], half: i64) -> R {
    let m = cx.pick_from(maps);
    let c = cx.pick_from(centres);
    let r = cx.pick_from(radii);
    let (dx, dy) = (cx.pick((2 * half + 1) as usize) as i64 - half, cx.pick((2 * half + 1) as usize) as i64 - half);
    let p = (c.0 + dx, c.1 + dy);
    cx.note(|| format!("{} map={} circle {c:?} radius {r}, point {p:?}", T::NAME, m.name));
    let circle = i_circle::<T>(m.p(c), r as f64 * m.scale());
    let q = mp::<T>(&m, p);
    let want = match (dx * dx + dy * dy).cmp(&(r * r)) {
        std::cmp::Ordering::Equal => Point2Circle2Location::On,
        std::cmp::Ordering::Less => Point2Circle2Location::Inside,
        std::cmp::Ordering::Greater => Point2Circle2Location::Outside,
    };
    let got = cx.call("locate_point_2_circle_segment_2", || locate_point_2_circle_segment_2(&q, &circle))?;
    let on = cx.call("is_point_2_on_circle_segment_2", || is_point_2_on_circle_segment_2(&q, &circle))?;
    cx.outcome(match want {
        Point2Circle2Location::On => "on",
        Point2Circle2Location::Inside => "inside",
        Point2Circle2Location::Outside => "outside",
    });
    ensure!(got == want, "location", "located {got:?}, want {want:?}");
    ensure!(on == (want == Point2Circle2Location::On), "predicate", "on={on}, want {want:?}");
    Ok(())
}

/// points a small multiple of the tolerance away from the circle
fn circle_tolerance(cx: &mut Cx) -> R {
    let c = cx.pick_from(&[(0.0, 0.0), (3.25, -7.5), (-40.0, 11.0)]);
    let r = cx.pick_from(&[5.0, 0.5, 13.0, 0.01, 100.0, 1500.0, 1e-6]);
    let i = cx.pick(24);
    let off: f64 = cx.pick_from(&[0.0, 2e-11, -2e-11, 1e-8, -1e-8, 1e-3, -1e-3]);
    if off.abs() > r {
        return Err(Stop::Prune);
    }
    let th = i as f64 * PI / 12.0;
    let p = (c.0 + (r + off) * th.cos(), c.1 + (r + off) * th.sin());
    cx.note(|| format!("circle {c:?} radius {r}, point {p:?} at distance {off:e} from it"));
    let circle = i_circle::<f64>(c, r);
    let want = if off.abs() < 1e-10 {
        Point2Circle2Location::On
    } else if off < 0.0 {
        Point2Circle2Location::Inside
    } else {
        Point2Circle2Location::Outside
    };
    let got = cx.call("locate_point_2_circle_segment_2", || locate_point_2_circle_segment_2(&pt::<f64>(p), &circle))?;
    cx.outcome(if want == Point2Circle2Location::On { "within tolerance" } else { "beyond tolerance" });
    ensure!(got == want, "location", "located {got:?}, want {want:?}");
    Ok(())
}

/// an arc with its angles moved by whole turns
fn turned(m: F2, r: f64, a: f64, b: f64, ka: i32, kb: i32) -> ArcSegment2<f64> {
    i_arc(m, r, a + 2.0 * PI * ka as f64, b + 2.0 * PI * kb as f64)
}

fn arc_location(cx: &mut Cx, arc: &ArcSegment2<f64>, p: F2, want: bool) -> R {
    let q = pt::<f64>(p);
    let got = cx.call("locate_point_2_arc_segment_2", || locate_point_2_arc_segment_2(&q, arc))?;
    let on = cx.call("is_point_2_on_arc_segment_2", || is_point_2_on_arc_segment_2(&q, arc))?;
    cx.outcome(if want { "on" } else { "not on" });
    ensure!((got == Point2ArcSegment2Location::On) == want, "location", "located {got:?}, want on={want}");
    ensure!(on == want, "predicate", "on={on}, want {want}");
    Ok(())
}

/// Arcs from i to j sectors of a divided turn, points at all (half-)sectors and several radii.
fn sector_family(name: &'static str, div: usize, sims: &'static [Sim], turns: &'static [i32]) -> Family {
    family(
        name,
        format!(
            "all arcs between two of {div} equally spaced directions (including coinciding ones: full circle), each end moved by any of {turns:?} whole turns, radius 1 and 5, points at {} directions on, inside and outside the radius, under {} similarities",
            2 * div,
            sims.len()
        ),
        move |cx| {
            let s = cx.pick_from(sims);
            let r = cx.pick_from(&[1.0, 5.0]);
            let i = cx.pick(div);
            let j = cx.pick(div);
            let (ka, kb) = (cx.pick_from(turns), cx.pick_from(turns));
            let d = cx.pick(2 * div);
            let off = cx.pick_from(&[0.0, -0.25, 0.25, 1e-6, -1e-6]);
            let unit = 2.0 * PI / div as f64;
            let rr = r * s.scale;
            let m = s.p((0.5, -0.25));
            let dir = s.rot + d as f64 * unit / 2.0;
            let p = (m.0 + (rr + off) * dir.cos(), m.1 + (rr + off) * dir.sin());
            let span = (j + div - i) % div;
            let at = (d + 2 * div - 2 * i) % (2 * div);
            let want = off == 0.0 && (span == 0 || at <= 2 * span);
            cx.note(|| format!("arc around {m:?} radius {rr} from {i} to {j} of {div} sectors (turned by {}), ends moved by {ka} and {kb} turns, point in direction {}/{} at distance {off} from the circle", s.rot, d, 2 * div));
            let arc = turned(m, rr, s.rot + i as f64 * unit, s.rot + j as f64 * unit, ka, kb);
            arc_location(cx, &arc, p, want)
        },
    )
}

/// Points beside the ends of arcs, and beside the arcs: displaced along or across the circle by
/// less than the tolerance, or by more.
fn beside_ends(name: &'static str, div: i64, off: &'static [f64], radii: &'static [f64]) -> Family {
    const ALONG: &[f64] = &[0.0, 2e-11, -2e-11, 1e-8, -1e-8, 1e-6, -1e-6, 1e-4, -1e-4];
    const ACROSS: &[f64] = &[0.0, 2e-11, -2e-11, 1e-8, -1e-8, 1e-5, -1e-5];
    family(name, format!("all arcs between angles within 1e-2 of multiples of 2pi/{div} (off by {off:?}), radii {radii:?}; points displaced from each end along the circle by {ALONG:?} and across it by {ACROSS:?}"), move |cx| {
        let u = 2.0 * PI / div as f64;
        let (c, r) = ((0.25, -0.75), cx.pick_from(radii));
        let (i, j) = (cx.pick(div as usize) as f64, cx.pick(div as usize) as f64);
        let (a, b) = (i * u + cx.pick_from(off), j * u + cx.pick_from(off));
        let whole = a == b;
        let span = if whole { 2.0 * PI } else { (b - a).rem_euclid(2.0 * PI) };
        let at_target = cx.flag();
        let (along, across) = (cx.pick_from(ALONG), cx.pick_from(ACROSS));
        if span * r < 1e-5f64.min(1e-2 * r) || (2.0 * PI - span) * r < 1e-3f64.min(along.abs() + 1e-2 * r) && !whole || along.abs() > r || across.abs() > r {
            return Err(Stop::Prune);
        }
        let th = if at_target { b } else { a } + along / r;
        let inward = if at_target { -along } else { along };
        let want = across.abs() < 1e-10 && (whole || inward > -1e-10 && inward < span * r + 1e-10);
        let p = (c.0 + (r + across) * th.cos(), c.1 + (r + across) * th.sin());
        cx.note(|| format!("arc around {c:?} radius {r} from {a} to {b}, point {along:e} along and {across:e} across from its {}", if at_target { "target" } else { "source" }));
        let arc = i_arc::<f64>(c, r, a, b);
        arc_location(cx, &arc, p, want)
    })
}
/// arcs with lattice ends, every lattice point of the neighbourhood
fn lattice_family() -> Family {
    family("lattice-arcs", "all 144 arcs of radius 5 between lattice directions, 2 centres, all lattice points within 7 of the centre", |cx| {
        let m = cx.pick_from(&[(0, 0), (7, -11)]);
        let (i, j) = (cx.pick(12), cx.pick(12));
        let (dx, dy) = (cx.pick(15) as i64 - 7, cx.pick(15) as i64 - 7);
        let at = FIVE.iter().position(|q| *q == (dx, dy));
        let want = at.is_some_and(|d| i == j || (d + 12 - i) % 12 <= (j + 12 - i) % 12);
        let Curve::Arc(c, r, a, b) = arc5(m, i, j) else { unreachable!() };
        cx.note(|| format!("arc around {m:?} from {:?} to {:?}, point offset ({dx}, {dy})", FIVE[i], FIVE[j]));
        arc_location(cx, &i_arc(c, r, a, b), fp((m.0 + dx, m.1 + dy)), want)
    })
}

/// All arcs between points of a lattice, against all points of the lattice.
fn lattice_arc_points(name: &'static str, w: i64, sims: &'static [Sim]) -> Family {
    let g = grid(w, w);
    let mut arcs = vec![];
    for m in &g {
        for p in &g {
            for q in &g {
                let (u, v) = (exact::sub(*p, *m), exact::sub(*q, *m));
                if u != (0, 0) && exact::dot(u, u) == exact::dot(v, v) {
                    arcs.push((*m, u, v));
                }
            }
        }
    }
    family(name, format!("all {} arcs around points of a {w}x{w} lattice from one of its points to another, all its points, {} similarities", arcs.len(), sims.len()), move |cx| {
        let s = cx.pick_from(sims);
        let (m, u, v) = cx.pick_from(&arcs);
        let p = cx.pick_from(&g);
        let z = exact::sub(p, m);
        // counter-clockwise from u to v, by the half planes and sides of the directions
        let before = |a: P, b: P| {
            // is a met no later than b when turning counter-clockwise from u?
            let key = |d: P| {
                let (c, e) = (exact::cross(u, d), exact::dot(u, d));
                if c == 0 && e > 0 { 0 } else if c > 0 { 1 } else if c == 0 { 2 } else { 3 }
            };
            let (i, j) = (key(a), key(b));
            i < j || i == j && exact::cross(a, b) >= 0
        };
        let want = exact::dot(z, z) == exact::dot(u, u) && (u == v || before(z, v));
        let (a, b) = (angle_of(u), angle_of(v));
        let arc = s.curve(Curve::Arc(fp(m), (exact::dot(u, u) as f64).sqrt(), a, if b <= a + 1e-12 { b + 2.0 * PI } else { b }));
        let Curve::Arc(c, r, a, b) = arc else { unreachable!() };
        cx.note(|| format!("{} arc around {m:?} from offset {u:?} to {v:?}, point {p:?}", s.name));
        arc_location(cx, &i_arc(c, r, a, b), s.p(fp(p)), want)
    })
}

const CIRCLE_MAPS: &[Map] = &[exact::ID, exact::EIGHTH, exact::X12, exact::FAR, exact::MIRROR, exact::ROT34];
const CIRCLE_MAPS32: &[Map] = &[exact::ID, exact::EIGHTH, exact::MIRROR];
const IDS: &[Sim] = &[SIM_ID];
const SIMS: &[Sim] = &[SIM_ID, SIM_SHIFT, SIM_IRR, SIM_IRR2];

pub fn c10() -> Property {
    Property {
        id: "C10",
        explanation: "Exhaustive enumeration of circles, arcs and points on lattices and regular divisions of the turn; the reference decides by integer arithmetic on the lattice or on sector numbers.",
        assumptions: &["double precision for arcs; points are on the curve or off it by more than the tolerance", "angles moved by at most about a thousand whole turns"],
        families: |t| {
            let deep = t == Tier::Thorough;
            let half = if deep { 70 } else { 14 };
            let radii: Vec<i64> = if deep { (1..=65).collect() } else { (1..=13).collect() };
            let r2 = radii.clone();
            let centres = [(0, 0), (2, -3), (-5, 7)];
            let mut v = vec![
                family("circle-lattice-f64", format!("3 centres, radii {radii:?}, all lattice points within {half}, {} maps", CIRCLE_MAPS.len()), move |cx| {
                    circle_case::<f64>(cx, CIRCLE_MAPS, &centres, &radii, half)
                }),
                family("circle-lattice-f32", format!("3 centres, radii {r2:?}, all lattice points within {half}, {} maps", CIRCLE_MAPS32.len()), move |cx| {
                    circle_case::<f32>(cx, CIRCLE_MAPS32, &centres, &r2, half)
                }),
                family("circle-tolerance", "3 centres, 7 radii from 1e-6 to 1500, 24 directions, 7 distances from the circle", circle_tolerance),
                lattice_family(),
                sector_family("sectors-8", 8, SIMS, &[0, 1, -1, 2]),
                sector_family("sectors-12", 12, IDS, &[0, 1, 3, -2]),
                sector_family("sectors-far-turns", 8, IDS, &[0, 100, -77, 1001]),
                beside_ends("beside-ends", 8, &[0.0, 1e-2, -1e-2, 1e-4, -1e-4, 1e-6, -1e-6], &[1.0, 20.0, 0.05, 1000.0, 0.001, 10000.0]),
                beside_ends("beside-ends-24", 24, &[0.0], &[1.0, 5.0, 0.05, 1000.0]),
                beside_ends("beside-ends-micro", 8, &[0.0, 0.1, -0.1, 0.02, -0.02], &[1e-4, 1e-5, 1e-6, 2e-7]),
                sector_family("sectors-8-wide", 8, SIMS_WIDE, &[0, 1, -1]),
            ];
            {
                v.push(lattice_arc_points("lattice-arcs-5x5", 5, SIMS));
                v.push(sector_family("sectors-7", 7, SIMS, &[0, 1, -1, 2, 5]));
                v.push(sector_family("sectors-24", 24, SIMS, &[0, 1, -1, 2, 3]));
            }
            if deep {
                v.push(lattice_arc_points("lattice-arcs-9x9", 9, SIMS));
                v.push(lattice_arc_points("lattice-arcs-7x7-wide", 7, SIMS_WIDE));
                v.push(sector_family("sectors-60", 60, SIMS, &[0, 1, -1, 7]));
                v.push(sector_family("sectors-11-far", 11, SIMS, &[0, 1, -1, 2, 3, 50, -999]));
                v.push(beside_ends("beside-ends-100", 100, &[0.0, 1e-3, -1e-3, 1e-5], &[1.0, 5.0, 0.05, 1000.0, 33.0]));
            }
            v
        },
    }
}

// ---------------------------------------------------------------------------------------
// C19

/// The pieces follow one another, start and end with the original, and each stays in one half.
fn pieces(cx: &mut Cx, c: F2, r: f64, a: f64, b: f64, got: &[ArcSegment2<f64>]) -> R {
    use rcgal::kernel::segment_2::Segment2;
    ensure!(!got.is_empty(), "pieces", "no pieces");
    let full = 2.0 * PI;
    // angles of the pieces may be given in any turn: unwrap them one after another
    let mut at = a;
    let mut sum = 0.0;
    for (i, g) in got.iter().enumerate() {
        let (s, t) = (g.source_radian(), g.target_radian());
        ensure!(dist(xy(&g.center()), c) < 1e-9 && (g.radius() - r).abs() < 1e-9, "circle", "piece {i} is on another circle: {g:?}");
        ensure!(s.is_finite() && t.is_finite() && t > s - 1e-9, "piece", "piece {i} runs from {s} to {t}");
        let gap = (s - at).rem_euclid(full);
        ensure!(gap < 1e-8 || gap > full - 1e-8, "chain", "piece {i} starts at {s}, the previous part ends at {at}");
        ensure!(t - s > 1e-9, "piece", "piece {i} is empty: {s} to {t}");
        ensure!(t - s < PI + 1e-8, "half", "piece {i} spans {} > pi", t - s);
        let s0 = s.rem_euclid(full);
        let s0 = if s0 > full - 1e-8 { 0.0 } else { s0 };
        let t0 = s0 + (t - s);
        let top = t0 < PI + 1e-8;
        let bottom = s0 > PI - 1e-8 && t0 < full + 1e-8;
        ensure!(top || bottom, "half", "piece {i} from {s} to {t} is in neither half");
        let it = cx.call("is_top", || g.is_top())?;
        ensure!(it == top, "is_top", "piece {i} from {s} to {t}: is_top={it}");
        at = t;
        sum += t - s;
    }
    ensure!((sum - (b - a)).abs() < 1e-7, "cover", "the pieces add up to {sum}, the arc spans {}", b - a);
    let gap = (at - b).rem_euclid(full);
    ensure!(gap < 1e-8 || gap > full - 1e-8, "chain", "the pieces end at {at}, the arc at {b}");
    cx.outcome(match got.len() {
        1 => "1 piece",
        2 => "2 pieces",
        _ => "3+ pieces",
    });
    Ok(())
}

fn arc_case(cx: &mut Cx, c: F2, r: f64, a: f64, b: f64) -> R {
    use rcgal::kernel::segment_2::Segment2;
    cx.note(|| format!("arc around {c:?} radius {r} from {a} to {b}"));
    let arc = cx.call("ArcSegment2::new", || i_arc::<f64>(c, r, a, b))?;
    let end = |t: f64| (c.0 + r * t.cos(), c.1 + r * t.sin());
    let (s, t) = (xy(&arc.source()), xy(&arc.target()));
    ensure!(dist(s, end(a)) < 1e-8, "source", "source {s:?}, want {:?}", end(a));
    ensure!(dist(t, end(b)) < 1e-8, "target", "target {t:?}, want {:?}", end(b));
    let got = cx.call("monotone", || arc.monotone())?;
    pieces(cx, c, r, a, b, &got)?;
    // top: in the upper half of some turn
    let a0 = a.rem_euclid(2.0 * PI);
    let a0 = if a0 > 2.0 * PI - 1e-9 { 0.0 } else { a0 };
    let top = a0 + (b - a) < PI + 1e-9;
    let it = cx.call("is_top", || arc.is_top())?;
    ensure!(it == top, "is_top", "is_top={it}, want {top}");
    Ok(())
}

fn grid_arcs(name: &'static str, div: usize) -> Family {
    family(name, format!("all arcs starting at k*2pi/{div} in the first turn and spanning 1..{div} such steps, and starting in the second turn while ending within 4 pi; 3 circles"), move |cx| {
        let (c, r) = cx.pick_from(&[((0.0, 0.0), 1.0), ((-3.5, 2.25), 5.0), ((60.0, -41.0), 0.3)]);
        let i = cx.pick(2 * div);
        let k = 1 + cx.pick(div);
        if i + k > 2 * div {
            return Err(Stop::Prune);
        }
        let u = 2.0 * PI / div as f64;
        arc_case(cx, c, r, i as f64 * u, (i + k) as f64 * u)
    })
}

fn shifted_arcs(name: &'static str, div: usize, phase: f64) -> Family {
    family(name, format!("all arcs starting at {phase} + k*2pi/{div} within two turns and spanning 1..{div} steps (half steps included) ending within 4 pi"), move |cx| {
        let i = cx.pick(2 * div);
        let k = 1 + cx.pick(2 * div);
        let u = 2.0 * PI / div as f64;
        let a = phase + i as f64 * u;
        let b = a + k as f64 * u / 2.0;
        if b > 4.0 * PI + 1e-12 {
            return Err(Stop::Prune);
        }
        arc_case(cx, (0.25, -0.75), 2.0, a, b)
    })
}

/// both ends a few units in the last place, or a fraction of the tolerance, off a cut angle
fn rounded_arcs() -> Family {
    family("rounded-ends", "all arcs between multiples of pi/4 within two turns, each end off by 0, +-1, +-2 units in the last place or +-2e-11", |cx| {
        let i = cx.pick(16);
        let k = 1 + cx.pick(8);
        if i + k > 16 {
            return Err(Stop::Prune);
        }
        let off = |cx: &mut Cx, x: f64| -> f64 {
            let o = cx.pick(7);
            match o {
                0 => x,
                1 => f64::from_bits(x.to_bits() + 1),
                2 => f64::from_bits(x.to_bits() + 2),
                3 => x + 2e-11,
                _ if x == 0.0 => x,
                4 => f64::from_bits(x.to_bits() - 1),
                5 => f64::from_bits(x.to_bits() - 2),
                _ => x - 2e-11,
            }
        };
        let a = off(cx, i as f64 * PI / 4.0);
        let b = off(cx, (i + k) as f64 * PI / 4.0);
        arc_case(cx, (0.25, -0.75), 2.0, a, b)
    })
}

fn lattice_arcs() -> Family {
    family("lattice-arcs", "all 144 arcs between lattice directions of a radius-5 circle, in the first and second turn", |cx| {
        let (i, j) = (cx.pick(12), cx.pick(12));
        let later = cx.flag();
        let Curve::Arc(c, r, mut a, mut b) = arc5((1, 2), i, j) else { unreachable!() };
        if later {
            a += 2.0 * PI;
            b += 2.0 * PI;
            if b > 4.0 * PI + 1e-12 {
                return Err(Stop::Prune);
            }
        }
        arc_case(cx, c, r, a, b)
    })
}

fn circle_arcs() -> Family {
    family("circles", "27 circles: the two halves; coinciding angles (48 directions, 3 turns): the full circle", |cx| {
        let c = fp(cx.pick_from(&exact_grid(-1, 1)));
        let r = cx.pick_from(&[1.0, 5.0, 0.125]);
        if cx.flag() {
            let i = cx.pick(48);
            let k = cx.pick(2);
            let a = i as f64 * PI / 24.0 + 2.0 * PI * k as f64;
            cx.note(|| format!("arc around {c:?} radius {r} from {a} to {a}"));
            let arc = cx.call("ArcSegment2::new", || i_arc::<f64>(c, r, a, a))?;
            let got = cx.call("monotone", || arc.monotone())?;
            use rcgal::kernel::segment_2::Segment2;
            let s = arc.source_radian();
            ensure!((arc.target_radian() - s - 2.0 * PI).abs() < 1e-9, "full", "coinciding angles give {s} to {}", arc.target_radian());
            return pieces(cx, c, r, s, s + 2.0 * PI, &got);
        }
        cx.note(|| format!("circle around {c:?} radius {r}"));
        let circle = i_circle::<f64>(c, r);
        let got = cx.call("monotone", || circle.monotone())?;
        ensure!(got.len() == 2, "pieces", "{} pieces of a circle", got.len());
        use rcgal::kernel::segment_2::Segment2;
        let s = got[0].source_radian();
        pieces(cx, c, r, s, s + 2.0 * PI, &got)
    })
}

/// Angles written in any turn, the end possibly below the start.
fn wound_arcs(name: &'static str, div: i64, lo: i64, hi: i64) -> Family {
    family(name, format!("all arcs with both angles multiples of 2pi/{div} from {lo} to {hi} turns, in any order (negative, beyond 4 pi, end below start, coinciding)"), move |cx| {
        use rcgal::kernel::segment_2::Segment2;
        let n = ((hi - lo) * div + 1) as usize;
        let u = 2.0 * PI / div as f64;
        let (i, j) = (cx.pick(n) as i64 + lo * div, cx.pick(n) as i64 + lo * div);
        // beyond 4 pi an angle is taken 4 pi back; an arc of more than a turn is out of scope
        let back = |k: i64| if k > 2 * div { k - 2 * div * ((k - 1) / (2 * div)) } else { k };
        if back(i) >= 0 && back(j) - back(i) > div {
            return Err(Stop::Prune);
        }
        let (c, r) = ((0.25, -0.75), 2.0);
        let (a, b) = (i as f64 * u, j as f64 * u);
        cx.note(|| format!("arc around {c:?} radius {r} from {a} to {b} ({i} and {j} of {div} parts)"));
        let arc = cx.call("ArcSegment2::new", || i_arc::<f64>(c, r, a, b))?;
        let got = cx.call("monotone", || arc.monotone())?;
        let (a0, span) = if back(i) == back(j) { (0, div) } else { (i.rem_euclid(div), (j - i - 1).rem_euclid(div) + 1) };
        cx.outcome(if j < i { "end below start" } else { "end above start" });
        let end = |k: i64| (c.0 + r * (k as f64 * u).cos(), c.1 + r * (k as f64 * u).sin());
        ensure!(dist(xy(&arc.source()), end(a0)) < 1e-8, "source", "source {:?}, want {:?}", arc.source(), end(a0));
        ensure!(dist(xy(&arc.target()), end(a0 + span)) < 1e-8, "target", "target {:?}, want {:?}", arc.target(), end(a0 + span));
        pieces(cx, c, r, a0 as f64 * u, (a0 + span) as f64 * u, &got)?;
        let it = cx.call("is_top", || arc.is_top())?;
        ensure!(it == (2 * (a0 + span) <= div), "is_top", "is_top={it}");
        Ok(())
    })
}

/// single precision, first turn only
/// Angles beside the cuts and beside one another, in whatever turns they are given.
fn nudged_arcs(name: &'static str, div: i64, lo: i64, hi: i64, off: &'static [f64]) -> Family {
    family(name, format!("all arcs with both angles within 1e-3 of multiples of 2pi/{div} from {lo} to {hi} turns, off by {off:?}, in any order; radii 2 and 1000"), move |cx| {
        use rcgal::kernel::segment_2::Segment2;
        let n = ((hi - lo) * div + 1) as usize;
        let u = 2.0 * PI / div as f64;
        let (c, r) = ((0.25, -0.75), cx.pick_from(&[2.0, 1000.0]));
        let (i, j) = (cx.pick(n) as i64 + lo * div, cx.pick(n) as i64 + lo * div);
        let (oi, oj) = (cx.pick_from(off), cx.pick_from(off));
        // beyond 4 pi an angle is taken 4 pi back
        let back = |k: i64, o: f64| if k > 2 * div || k == 2 * div && o > 0.0 { k - 2 * div * ((k - if o > 0.0 { 0 } else { 1 }) / (2 * div)) } else { k };
        let (bi, bj) = (back(i, oi), back(j, oj));
        let ahead = |k: i64, o: f64| k as f64 * u + o;
        if ahead(bi, oi) > -1e-9 && (bj - bi > div || bj - bi == div && oj > oi) {
            return Err(Stop::Prune);
        }
        let (a, b) = (ahead(i, oi), ahead(j, oj));
        cx.note(|| format!("arc around {c:?} radius {r} from {a} to {b} ({i} and {j} of {div} parts, off by {oi} and {oj})"));
        let arc = cx.call("ArcSegment2::new", || i_arc::<f64>(c, r, a, b))?;
        let got = cx.call("monotone", || arc.monotone())?;
        let whole = bi == bj && oi == oj;
        let a0 = if whole { 0.0 } else { ahead(i.rem_euclid(div), oi).rem_euclid(2.0 * PI) };
        let a0 = if a0 > 2.0 * PI - 1e-9 { 0.0 } else { a0 };
        // how far it goes: more than nothing, a turn at most
        let d = (j - i).rem_euclid(div);
        let span = if d == 0 && oj <= oi { 2.0 * PI + (oj - oi) } else { ahead(d, oj - oi) };
        let span = if whole { 2.0 * PI } else { span };
        cx.outcome(match got.len() {
            1 => "1 piece",
            2 => "2 pieces",
            _ => "3+ pieces",
        });
        let end = |t: f64| (c.0 + r * t.cos(), c.1 + r * t.sin());
        ensure!(dist(xy(&arc.source()), end(a0)) < 1e-8, "source", "source {:?}, want {:?}", arc.source(), end(a0));
        ensure!(dist(xy(&arc.target()), end(a0 + span)) < 1e-8, "target", "target {:?}, want {:?}", arc.target(), end(a0 + span));
        pieces(cx, c, r, a0, a0 + span, &got)?;
        let it = cx.call("is_top", || arc.is_top())?;
        ensure!(it == (a0 + span < PI + 1e-9), "is_top", "is_top={it}");
        Ok(())
    })
}
fn single_arcs() -> Family {
    family("f32-arcs", "single precision: all arcs between multiples of pi/12 within the first turn", |cx| {
        use rcgal::kernel::segment_2::Segment2;
        let i = cx.pick(24);
        let k = 1 + cx.pick(24);
        if i + k > 24 {
            return Err(Stop::Prune);
        }
        let (a, b) = (i as f64 * PI / 12.0, (i + k) as f64 * PI / 12.0);
        cx.note(|| format!("f32 arc from {a} to {b}"));
        let arc = i_arc::<f32>((0.0, 0.0), 2.0, a, b);
        let got = cx.call("monotone", || arc.monotone())?;
        let want: usize = if i < 12 && i + k > 12 { 2 } else { 1 };
        cx.outcome(if want == 1 { "1 piece" } else { "2 pieces" });
        ensure!(got.len() == want, "pieces", "{} pieces, want {want}: {got:?}", got.len());
        let mut at = a;
        for g in &got {
            ensure!((g.source_radian() as f64 - at).abs() < 1e-5, "chain", "{got:?}");
            at = g.target_radian() as f64;
        }
        ensure!((at - b).abs() < 1e-5, "chain", "{got:?}");
        let it = cx.call("is_top", || arc.is_top())?;
        ensure!(it == (i + k <= 12), "is_top", "is_top={it}");
        Ok(())
    })
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        explanation: "Exhaustive enumeration of arcs whose ends lie on regular divisions of the turn (including every multiple of pi), on lattice directions and on shifted divisions; the pieces are checked to chain, cover and stay in one half.",
        assumptions: &["cut angles and arc ends are equal or differ by far more than the tolerance", "single precision only within the first turn"],
        families: |t| {
            let mut v = vec![rounded_arcs(), grid_arcs("division-8", 8), grid_arcs("division-48", 48), shifted_arcs("shifted-12", 12, 0.1), lattice_arcs(), circle_arcs(), single_arcs(), wound_arcs("wound-8", 8, -3, 5), wound_arcs("wound-12", 12, -2, 4), nudged_arcs("nudged-4", 4, -2, 4, &[0.0, 1e-3, -1e-3, 1e-5, -1e-5, 1e-7, -1e-7]), nudged_arcs("nudged-2", 2, -3, 7, &[0.0, 1e-2, -1e-2, 1e-3, -1e-3, 3e-5, -3e-5, 1e-6, -1e-6, 4e-8, -4e-8]), grid_arcs("division-360", 360), shifted_arcs("shifted-100", 100, 0.017), wound_arcs("wound-24", 24, -3, 5), shifted_arcs("close-to-cut", 24, 1e-6)];
            {
                v.push(wound_arcs("wound-60", 60, -5, 7));
                v.push(nudged_arcs("nudged-8", 8, -3, 5, &[0.0, 1e-2, -1e-2, 1e-3, -1e-3, 3e-5, -3e-5, 1e-6, -1e-6, 4e-8, -4e-8]));
                v.push(shifted_arcs("close-to-cut-64", 64, 1e-7));
                v.push(grid_arcs("division-1001", 1001));
            }
            if t == Tier::Thorough {
                v.push(wound_arcs("wound-240", 240, -6, 8));
                v.push(nudged_arcs("nudged-24", 24, -3, 5, &[0.0, 1e-2, -1e-2, 1e-4, -1e-4, 1e-6, -1e-6, 4e-8, -4e-8]));
                v.push(grid_arcs("division-2310", 2310));
                v.push(shifted_arcs("close-to-cut-720", 720, 3e-7));
            }
            v
        },
    }
}
