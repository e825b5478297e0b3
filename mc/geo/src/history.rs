//! C03: the answer of a sweep depends on the set of curves pushed and on nothing else.
use crate::common::*;
use crate::curves::*;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use Curve::*;

type Pts = Vec<(f64, f64)>;

fn ask(s: &mut SweepSegment2Intersection<f64>) -> Pts {
    xys(&s.intersection())
}
fn fresh(cs: &[Curve]) -> Pts {
    xys(&i_sweep(cs))
}
fn flip(c: Curve) -> Curve {
    match c {
        Seg(a, b) => Seg(b, a),
        c => c,
    }
}
/// same points in the same order
fn same(label: &str, what: &str, got: &Pts, want: &Pts) -> R {
    let ok = got.len() == want.len() && got.iter().zip(want).all(|(a, b)| dist(*a, *b) < 1e-7);
    ensure!(ok, label, "{what}: {got:?} but {want:?} before");
    Ok(())
}
/// larger x first, then larger y; equal within the tolerance counts as equal
fn ordered(v: &Pts) -> R {
    for w in v.windows(2) {
        let (a, b) = (w[0], w[1]);
        let ok = if (a.0 - b.0).abs() < 1e-9 { a.1 > b.1 } else { a.0 > b.0 };
        ensure!(ok, "order", "{a:?} is returned before {b:?} in {v:?}");
    }
    Ok(())
}

/// Every sequence of pushes (from an alphabet) and queries up to a length, on one sweep object.
fn histories(name: &'static str, alphabet: Vec<Curve>, len: usize, sims: &'static [Sim]) -> Family {
    family(name, format!("all sequences of {len} operations out of push of one of {} curves (repeats allowed) and query, ending with two queries, under {} similarities", alphabet.len(), sims.len()), move |cx| {
        let sim = cx.pick_from(sims);
        let mut s = SweepSegment2Intersection::<f64>::new();
        let mut pushed: Vec<Curve> = vec![];
        for i in 0..len {
            let op = cx.pick(alphabet.len() + 1);
            if op == alphabet.len() {
                cx.note(|| "query".to_string());
                let got = cx.call("intersection", || ask(&mut s))?;
                let want = cx.call("sweep of a fresh object", || fresh(&pushed))?;
                same("history", "a sweep that was asked before", &got, &want)?;
                cx.outcome("query between pushes");
            } else {
                let c = sim.curve(alphabet[op]);
                cx.note(|| format!("push {c:?}"));
                cx.call("push_segment", || i_push(&mut s, &c))?;
                pushed.push(c);
            }
            let _ = i;
        }
        let got = cx.call("intersection", || ask(&mut s))?;
        let want = cx.call("sweep of a fresh object", || fresh(&pushed))?;
        same("history", "a sweep that was asked before", &got, &want)?;
        let again = cx.call("intersection", || ask(&mut s))?;
        same("again", "asked again", &again, &got)?;
        ordered(&got)?;
        cx.outcome(if got.is_empty() { "no points" } else { "some points" });
        check_sweep(cx, &pushed, &s.intersection())
    })
}

/// Every k-subset of a pool: all push orders and all directions of the straight segments.
fn presentations(name: &'static str, pool: Vec<Curve>, k: usize, sims: &'static [Sim]) -> Family {
    family(name, format!("all {k}-subsets of a pool of {} curves, in all {k}! push orders and all directions of their segments, under {} similarities", pool.len(), sims.len()), move |cx| {
        let sim = cx.pick_from(sims);
        let idx = pick_subset(cx, pool.len(), k);
        let base: Vec<Curve> = idx.iter().map(|i| sim.curve(pool[*i])).collect();
        let perm = pick_perm(cx, k);
        let mut cs = vec![];
        for i in perm {
            let c = base[i];
            cs.push(if matches!(c, Seg(..)) && cx.flag() { flip(c) } else { c });
        }
        cx.note(|| format!("{base:?} given as {cs:?}"));
        let want = cx.call("sweep", || fresh(&base))?;
        let got = cx.call("sweep", || fresh(&cs))?;
        cx.outcome(if want.is_empty() { "no points" } else { "some points" });
        ordered(&got)?;
        same("presentation", "given in another order or direction", &got, &want)
    })
}

/// Larger scenes on one sweep object: every combination of four strides, push order, direction of
/// the segments and rhythm of the queries; each answer is compared with that of a fresh sweep
/// given the same curves in their first order and directions.
fn long_histories(name: &'static str, n: usize, m: usize, strides: &'static [usize], sims: &'static [Sim]) -> Family {
    family(name, format!("{n} segments, circles and arcs whose positions step through an {m}x{m} lattice, every combination of four strides out of {strides:?}, 4 push orders, 3 ways to direct the segments and 5 rhythms of queries, under {} similarities", sims.len()), move |cx| {
        let k = std::array::from_fn(|_| cx.pick_from(strides));
        let sim = cx.pick_from(sims);
        let base: Vec<Curve> = modular_curves(n, m, k).into_iter().map(|c| sim.curve(c)).collect();
        let order = cx.pick(4);
        let direct = cx.pick(3);
        let rhythm = cx.pick(5);
        let idx: Vec<usize> = match order {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
            _ => (0..n / 2).flat_map(|i| [i, n - 1 - i]).chain((n % 2 == 1).then_some(n / 2)).collect(),
        };
        cx.note(|| format!("order {idx:?} directions {direct} rhythm {rhythm} of {base:?}"));
        let want = cx.call("sweep of a fresh object", || i_sweep(&base))?;
        check_sweep(cx, &base, &want)?;
        let want = xys(&want);
        let mut s = SweepSegment2Intersection::<f64>::new();
        let mut pushed = vec![];
        for (j, i) in idx.into_iter().enumerate() {
            let flipped = matches!(base[i], Seg(..)) && (direct == 1 || direct == 2 && j % 2 == 0);
            let c = if flipped { flip(base[i]) } else { base[i] };
            cx.call("push_segment", || i_push(&mut s, &c))?;
            pushed.push(base[i]);
            let times = match rhythm {
                0 => 0,
                1 => 1,
                2 => (j % 3 == 2) as usize,
                3 => 2 * (j == n / 2) as usize,
                _ => (j + 1 == n) as usize,
            };
            for _ in 0..times {
                let got = cx.call("intersection", || ask(&mut s))?;
                let fresh = cx.call("sweep of a fresh object", || fresh(&pushed))?;
                same("history", "a sweep that was asked before", &got, &fresh)?;
            }
        }
        let got = cx.call("intersection", || ask(&mut s))?;
        same("presentation", "given in another order or direction, asked between", &got, &want)?;
        let again = cx.call("intersection", || ask(&mut s))?;
        same("again", "asked again", &again, &got)?;
        ordered(&got)
    })
}

/// every n-th element, starting at the k-th
fn seg_alphabet() -> Vec<Curve> {
    [((0, 0), (4, 4)), ((0, 4), (4, 0)), ((2, 0), (2, 4)), ((0, 2), (4, 2)), ((1, 1), (3, 3)), ((4, 4), (0, 0)), ((2, 2), (5, 3)), ((0, 4), (0, 0))]
        .iter()
        .map(|(a, b)| Seg(fp(*a), fp(*b)))
        .collect()
}
fn curve_alphabet() -> Vec<Curve> {
    vec![
        Circle((0.0, 0.0), 5.0),
        Seg((-6.0, 0.0), (6.0, 0.0)),
        arc5((0, 0), 1, 8),
        arc5((6, 0), 3, 9),
        Seg((5.0, 0.0), (0.0, 5.0)),
        Circle((2.0, 0.0), 3.0),
        arc5((0, 0), 10, 4),
    ]
}

const IDS: &[Sim] = &[SIM_ID];
const TWO: &[Sim] = &[SIM_ID, SIM_IRR];

pub fn c03() -> Property {
    Property {
        id: "C03",
        explanation: "Exhaustive exploration of operation histories on one sweep object (push / query interleavings) and of presentations of one scene (push orders, segment directions) on the real sweep.",
        assumptions: &["double precision; distinct features of a scene are separated by far more than the tolerance"],
        families: |t| {
            let mut v = vec![
                histories("segment-histories", seg_alphabet(), 4, TWO),
                histories("curve-histories", curve_alphabet(), 4, TWO),
                presentations("segments-k3", thin(small_segs(), 1, 0), 3, IDS),
                presentations("mixed-k2", mixed(), 2, TWO),
                presentations("mixed-k3", thin(mixed(), 2, 0), 3, IDS),
                presentations("five-k2", [thin(five_segs(), 2, 0), thin(five_circles(), 2, 0), thin(five_arcs(1), 5, 0)].concat(), 2, TWO),
                long_histories("long-11", 12, 11, &[1, 3, 8], IDS),
                long_histories("long-17", 24, 17, &[1, 4], TWO),
                long_histories("long-11-wide", 12, 11, &[2, 7], SIMS_WIDE),
            ];
            if t == Tier::Thorough {
                v.extend([
                    long_histories("long-7-all", 8, 7, &[0, 1, 2, 3, 4, 5, 6], TWO),
                    long_histories("long-11-more", 12, 11, &[1, 2, 3, 5, 8], TWO),
                    long_histories("long-31", 45, 31, &[1, 4, 9], TWO),
                    histories("segment-histories-6", seg_alphabet(), 6, IDS),
                    histories("curve-histories-6", curve_alphabet(), 6, IDS),
                    presentations("mixed-k3-all", mixed(), 3, TWO),
                    presentations("segments-k4", thin(small_segs(), 2, 0), 4, IDS),
                    presentations("mixed-k4", thin(mixed(), 4, 0), 4, IDS),
                ]);
            }
            v
        },
    }
}
