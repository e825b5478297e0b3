//! C21: the internal containers against reference models (built with --cfg rcgal_verif).
use mccore::alloc::live;
use mccore::{ensure, fail, family, Cx, Family, Property, Tier, R};
use rcgal::data_structure::avl_tree::{AVLTree, AVLTreeOption};
use rcgal::data_structure::circular_doubly_linked_list::{CircularDoubleLinkedList, ListNode};
use rcgal::data_structure::priority_queue::PriorityQueue;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::rc::Rc;

#[global_allocator]
static ALLOCATOR: mccore::alloc::Counting = mccore::alloc::Counting;

thread_local! {
    static COMPARISONS: Cell<u64> = const { Cell::new(0) };
    /// at most 64 identities: no allocation of its own
    static TOUCHED: RefCell<([u32; 64], usize)> = const { RefCell::new(([0; 64], 0)) };
    static NEXT: Cell<u32> = const { Cell::new(0) };
}

/// A key with an identity: its comparisons are counted and the keys taking part are recorded.
#[derive(Clone, Copy, Debug)]
struct Key(u32, u32);
fn key(v: u32) -> Key {
    Key(v, NEXT.with(|n| n.replace(n.get() + 1)))
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> Ordering {
        COMPARISONS.with(|c| c.set(c.get() + 1));
        TOUCHED.with(|t| {
            let (ids, n) = &mut *t.borrow_mut();
            for id in [self.1, o.1] {
                if *n < ids.len() && !ids[..*n].contains(&id) {
                    ids[*n] = id;
                    *n += 1;
                }
            }
        });
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Key {}

/// the number of comparisons an operation makes, and with how many stored elements
fn counted<T>(probe: Key, f: impl FnOnce() -> T) -> (T, u64, usize) {
    COMPARISONS.with(|c| c.set(0));
    TOUCHED.with(|t| t.borrow_mut().1 = 0);
    let v = f();
    (v, COMPARISONS.with(|c| c.get()), TOUCHED.with(|t| {
        let (ids, n) = &*t.borrow();
        ids[..*n].iter().filter(|id| **id != probe.1).count()
    }))
}

/// A generous logarithmic bound on comparisons: a few per level.
fn allowed(n: usize) -> u64 {
    (4.0 * (1.45 * ((n + 2) as f64).log2() + 1.0)) as u64 + 4
}

/// the number of levels of the highest AVL tree with n nodes
fn levels(n: usize) -> usize {
    let (mut h, mut at, mut next) = (0, 0, 1);
    while next <= n {
        (at, next) = (next, at + next + 1);
        h += 1;
    }
    h
}

struct Tree {
    t: AVLTree<Key>,
    dup: bool,
    /// sorted contents
    model: Vec<u32>,
}

impl Tree {
    fn new(dup: bool) -> Tree {
        let o = if dup { AVLTreeOption::SameNodeInsertRight } else { AVLTreeOption::DisableSameNode };
        Tree { t: AVLTree::new(o), dup, model: vec![] }
    }
    fn cost(what: &str, n: usize, comparisons: u64, elements: usize) -> R {
        ensure!(comparisons <= allowed(n), "comparisons", "{what} with {n} elements takes {comparisons} comparisons");
        ensure!(elements <= levels(n), "depth", "{what} with {n} elements compares with {elements} of them, a balanced tree has at most {} levels", levels(n));
        Ok(())
    }
    fn insert(&mut self, cx: &mut Cx, v: u32) -> R {
        let (n, k) = (self.model.len(), key(v));
        let ((), c, e) = cx.call("insert", || counted(k, || self.t.insert(k)))?;
        Self::cost("inserting", n, c, e)?;
        let i = self.model.partition_point(|x| *x < v);
        if self.dup || self.model.get(i) != Some(&v) {
            self.model.insert(i, v);
        }
        Ok(())
    }
    fn delete(&mut self, cx: &mut Cx, v: u32) -> R {
        let (n, k) = (self.model.len(), key(v));
        let ((), c, e) = cx.call("delete", || counted(k, || self.t.delete(k)))?;
        Self::cost("deleting", n, c, e)?;
        let i = self.model.partition_point(|x| *x < v);
        if self.model.get(i) == Some(&v) {
            self.model.remove(i);
            cx.outcome("deleted");
        } else {
            cx.outcome("nothing to delete");
        }
        Ok(())
    }
    /// Asks for every element: inserting it once more in set mode changes nothing and walks to it.
    fn depths(&mut self, cx: &mut Cx) -> R {
        if !self.dup {
            for v in self.model.clone() {
                self.insert(cx, v)?;
            }
        }
        Ok(())
    }
    fn check(&self, cx: &mut Cx) -> R {
        let got = cx.call("mid_order_traversal", || self.t.mid_order_traversal())?;
        let ok = got.len() == self.model.len() && got.iter().zip(&self.model).all(|(a, b)| a.0 == *b);
        ensure!(ok, "contents", "listed {:?}, want {:?}", got.iter().map(|k| k.0).collect::<Vec<_>>(), self.model);
        Ok(())
    }
}

/// all histories of insert, delete and clear
fn histories(name: &'static str, keys: usize, len: usize) -> Family {
    family(name, format!("all sequences of {len} operations out of insert k, delete k (k < {keys}) and clear, in set and in duplicate mode, contents compared after every operation"), move |cx| {
        let mut t = Tree::new(cx.flag());
        cx.note(|| format!("duplicates={}", t.dup));
        for _ in 0..len {
            let op = cx.pick(2 * keys + 1);
            if op == 2 * keys {
                cx.note(|| "clear".into());
                cx.call("clear", || t.t.clear())?;
                t.model.clear();
            } else if op < keys {
                cx.note(|| format!("insert {op}"));
                t.insert(cx, op as u32)?;
            } else {
                cx.note(|| format!("delete {}", op - keys));
                t.delete(cx, (op - keys) as u32)?;
            }
            t.check(cx)?;
            t.depths(cx)?;
        }
        Ok(())
    })
}

/// every insertion order of n distinct keys, then every way to delete k of them in sequence
fn permutations(name: &'static str, n: usize, k: usize) -> Family {
    family(name, format!("all {n}! insertion orders of {n} keys, each followed by all deletions of {k} keys in sequence, then one reinsertion"), move |cx| {
        let mut rest: Vec<u32> = (0..n as u32).collect();
        let mut order = vec![];
        while !rest.is_empty() {
            let i = cx.pick(rest.len());
            order.push(rest.remove(i));
        }
        let mut gone: Vec<u32> = (0..n as u32).collect();
        let mut dels = vec![];
        for _ in 0..k {
            let i = cx.pick(gone.len());
            dels.push(gone.remove(i));
        }
        cx.note(|| format!("insert {order:?} delete {dels:?}"));
        let mut t = Tree::new(false);
        for x in &order {
            t.insert(cx, *x)?;
        }
        t.check(cx)?;
        t.depths(cx)?;
        for x in &dels {
            t.delete(cx, *x)?;
            t.check(cx)?;
            t.depths(cx)?;
        }
        if let Some(x) = dels.first() {
            t.insert(cx, *x)?;
            t.check(cx)?;
        }
        Ok(())
    })
}

/// A shape of a binary tree: a node with its two subtrees.
#[derive(Clone)]
enum Shape {
    None,
    Node(Rc<Shape>, Rc<Shape>),
}
/// all shapes of n nodes and height h in which the heights of sisters differ by at most one
fn shapes(n: usize, h: usize) -> Vec<Rc<Shape>> {
    if n == 0 || h == 0 {
        return if n == 0 && h == 0 { vec![Rc::new(Shape::None)] } else { vec![] };
    }
    let mut all = vec![];
    for (a, b) in [(1, 1), (1, 2), (2, 1)] {
        if h < a || h < b {
            continue;
        }
        for left in 0..n {
            let (l, r) = (shapes(left, h - a), shapes(n - 1 - left, h - b));
            for x in &l {
                for y in &r {
                    all.push(Rc::new(Shape::Node(x.clone(), y.clone())));
                }
            }
        }
    }
    all
}
/// the smallest shape of height h, its higher subtree on the left, on the right or alternating
fn smallest(h: usize, side: usize) -> Rc<Shape> {
    if h == 0 {
        return Rc::new(Shape::None);
    }
    let (high, low) = (smallest(h - 1, side), smallest(h.max(2) - 2, side));
    let left = match side {
        0 => true,
        1 => false,
        _ => h % 2 == 0,
    };
    Rc::new(if left { Shape::Node(high, low) } else { Shape::Node(low, high) })
}
/// the keys of a shape in the order of their levels: inserted in this order they form this shape
fn by_levels(s: &Shape) -> Vec<u32> {
    fn walk(s: &Shape, depth: usize, next: &mut u32, at: &mut Vec<(usize, u32)>) {
        if let Shape::Node(l, r) = s {
            walk(l, depth + 1, next, at);
            at.push((depth, *next));
            *next += 1;
            walk(r, depth + 1, next, at);
        }
    }
    let mut at = vec![];
    walk(s, 0, &mut 0, &mut at);
    at.sort();
    at.into_iter().map(|x| x.1).collect()
}

/// every balanced shape (or only the smallest of each height), then all deletions of k keys
fn balanced(name: &'static str, text: &str, orders: Vec<Vec<u32>>, k: usize) -> Family {
    family(name, format!("{text} ({} shapes), built without a rotation, each followed by all deletions of {k} keys in sequence", orders.len()), move |cx| {
        let ins = &orders[cx.pick(orders.len())];
        let mut gone = ins.clone();
        gone.sort();
        let dels: Vec<u32> = (0..k.min(ins.len())).map(|_| gone.remove(cx.pick(gone.len()))).collect();
        cx.note(|| format!("insert {ins:?} delete {dels:?}"));
        let mut t = Tree::new(false);
        for x in ins {
            t.insert(cx, *x)?;
        }
        for x in &dels {
            t.delete(cx, *x)?;
            t.check(cx)?;
            t.depths(cx)?;
        }
        Ok(())
    })
}
fn all_balanced(name: &'static str, from: usize, to: usize, k: usize) -> Family {
    let orders = (from..=to).flat_map(|n| (1..=levels(n)).flat_map(move |h| shapes(n, h))).map(|s| by_levels(&s)).collect();
    balanced(name, &format!("all height-balanced trees of {from} to {to} nodes"), orders, k)
}
fn leanest(name: &'static str, from: usize, to: usize, k: usize) -> Family {
    let orders = (from..=to).flat_map(|h| (0..3).map(move |s| by_levels(&smallest(h, s)))).collect();
    balanced(name, &format!("the smallest height-balanced trees of {from} to {to} levels, leaning left, right or alternating"), orders, k)
}

/// every multiset insertion sequence, then deletions of one value until it is gone
fn duplicates(name: &'static str, keys: usize, n: usize) -> Family {
    family(name, format!("all sequences of {n} insertions of {keys} values in duplicate mode, then all pairs of values deleted alternately until absent"), move |cx| {
        let seq: Vec<u32> = (0..n).map(|_| cx.pick(keys) as u32).collect();
        let (a, b) = (cx.pick(keys) as u32, cx.pick(keys) as u32);
        cx.note(|| format!("insert {seq:?}, delete {a} and {b} alternately"));
        let mut t = Tree::new(true);
        for x in &seq {
            t.insert(cx, *x)?;
        }
        t.check(cx)?;
        while t.model.contains(&a) || t.model.contains(&b) {
            t.delete(cx, a)?;
            t.check(cx)?;
            t.delete(cx, b)?;
            t.check(cx)?;
        }
        Ok(())
    })
}

/// Recursively built orders on 2^levels keys: at each level a block is its lower half then its
/// upper half, the other way round, or the two interleaved from either side.
fn order(levels: &[usize]) -> Vec<u32> {
    let Some((c, rest)) = levels.split_first() else { return vec![0] };
    let half = order(rest);
    let n = half.len() as u32;
    let low = half.clone();
    let high: Vec<u32> = half.iter().map(|x| x + n).collect();
    let mirrored: Vec<u32> = half.iter().rev().map(|x| x + n).collect();
    match c {
        0 => [low, high].concat(),
        1 => [high, low].concat(),
        2 => low.iter().zip(&high).flat_map(|(a, b)| [*a, *b]).collect(),
        _ => low.iter().zip(&mirrored).flat_map(|(a, b)| [*b, *a]).collect(),
    }
}

/// large trees: the cost of every operation stays logarithmic
fn growth(name: &'static str, levels: usize, dup: usize) -> Family {
    family(name, format!("all 4^{levels} recursively built insertion orders of {} keys (each key {dup} time(s)), all of them deleted again in one of 4 orders", 1 << levels), move |cx| {
        let c: Vec<usize> = (0..levels).map(|_| cx.pick(4)).collect();
        let d = cx.pick(4);
        cx.note(|| format!("levels {c:?}, deletion order {d}"));
        let ins = order(&c);
        let mut t = Tree::new(dup > 1);
        for _ in 0..dup {
            for x in &ins {
                t.insert(cx, *x)?;
            }
        }
        t.check(cx)?;
        t.depths(cx)?;
        let mut del = ins;
        match d {
            0 => del.sort(),
            1 => del.sort_by(|a, b| b.cmp(a)),
            2 => {}
            _ => del.reverse(),
        }
        for (i, x) in del.iter().enumerate() {
            for _ in 0..dup {
                t.delete(cx, *x)?;
            }
            if i == del.len() / 2 {
                t.check(cx)?;
                t.depths(cx)?;
                for y in &del[..i / 2] {
                    t.insert(cx, *y)?;
                }
                t.check(cx)?;
                for y in &del[..i / 2] {
                    t.delete(cx, *y)?;
                }
            }
        }
        t.check(cx)?;
        cx.outcome("emptied");
        Ok(())
    })
}

/// trees of hundreds of elements, filled and partly emptied in steps
fn stepped(name: &'static str, sizes: &'static [usize], strides: &'static [usize], dup: bool) -> Family {
    family(name, format!("{sizes:?} keys inserted in steps of {strides:?} modulo 1021 (or 29 if values may be equal: {dup}), upwards or downwards, every second, all but 3 or all of them deleted in other steps, inserted again"), move |cx| {
        let n = cx.pick_from(sizes);
        let (a, b) = (cx.pick_from(strides), cx.pick_from(strides));
        let (up, keep) = (cx.flag(), cx.pick_from(&[n / 2, 3, 0]));
        cx.note(|| format!("{n} keys in steps of {a}, upwards={up}, down to {keep} in steps of {b}, the same again"));
        let p = if dup { 29 } else { 1021 };
        let key = |i: usize, step: usize| {
            let k = (i * step % p) as i64;
            if up { k } else { -k }
        };
        let mut t = Tree::new(dup);
        for i in 0..n {
            t.insert(cx, key(i, a) as _)?;
        }
        t.check(cx)?;
        t.depths(cx)?;
        let mut left: Vec<usize> = (0..n).collect();
        let mut at = 0;
        while left.len() > keep {
            at = (at + b) % left.len();
            let i = left.remove(at);
            t.delete(cx, key(i, a) as _)?;
        }
        t.check(cx)?;
        t.depths(cx)?;
        for i in 0..n / 2 {
            t.insert(cx, key(i, b) as _)?;
        }
        t.check(cx)?;
        t.depths(cx)?;
        cx.outcome(if keep > 0 { "some left" } else { "emptied" });
        Ok(())
    })
}

/// a dropped or cleared tree releases its nodes
fn tree_memory(name: &'static str, keys: usize, len: usize) -> Family {
    family(name, format!("all sequences of {len} insertions and deletions of {keys} values: memory after clearing and dropping"), move |cx| {
        let dup = cx.flag();
        let ops: Vec<usize> = (0..len).map(|_| cx.pick(2 * keys)).collect();
        let clear = cx.flag();
        cx.note(|| format!("duplicates={dup} operations {ops:?} (below {keys}: insert, others: delete), clear={clear}"));
        let start = live();
        cx.call("tree operations", || {
            let o = if dup { AVLTreeOption::SameNodeInsertRight } else { AVLTreeOption::DisableSameNode };
            let mut t: AVLTree<Key> = AVLTree::new(o);
            for op in &ops {
                if *op < keys {
                    t.insert(key(*op as u32))
                } else {
                    t.delete(key((*op - keys) as u32))
                }
            }
            if clear {
                t.clear();
            }
        })?;
        let held = live() - start;
        ensure!(held == 0, "memory", "{held} bytes stay allocated after everything is dropped");
        cx.outcome("released");
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------
// all reachable states of a small tree

thread_local! {
    /// the rank of every key ever made: it moves as keys come in between
    static RANKS: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
}
/// A key that stands for "the i-th of the keys present": prints and compares by its rank.
#[derive(Clone, Copy)]
struct Ranked(u32);
impl Ranked {
    fn rank(self) -> u32 {
        RANKS.with(|r| r.borrow()[self.0 as usize])
    }
}
impl std::fmt::Debug for Ranked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.rank())
    }
}
impl Ord for Ranked {
    fn cmp(&self, o: &Ranked) -> Ordering {
        COMPARISONS.with(|c| c.set(c.get() + 1));
        TOUCHED.with(|t| {
            let (ids, n) = &mut *t.borrow_mut();
            for id in [self.0, o.0] {
                if *n < ids.len() && !ids[..*n].contains(&id) {
                    ids[*n] = id;
                    *n += 1;
                }
            }
        });
        self.rank().cmp(&o.rank())
    }
}
impl PartialOrd for Ranked {
    fn partial_cmp(&self, o: &Ranked) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for Ranked {
    fn eq(&self, o: &Ranked) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Ranked {}

#[derive(Clone, Copy, Debug)]
enum Step {
    /// a new value below the g-th of the values present
    InsertBelow(usize),
    /// the g-th of the values present once more
    InsertEqual(usize),
    Delete(usize),
    /// a value below the g-th that is not there
    DeleteBelow(usize),
}
/// A tree with its reference: how often each value is present, in their order.
struct Abstract {
    t: AVLTree<Ranked>,
    dup: bool,
    counts: Vec<(u32, usize)>,
}
impl Abstract {
    fn new(dup: bool) -> Abstract {
        RANKS.with(|r| r.borrow_mut().clear());
        let o = if dup { AVLTreeOption::SameNodeInsertRight } else { AVLTreeOption::DisableSameNode };
        Abstract { t: AVLTree::new(o), dup, counts: vec![] }
    }
    fn len(&self) -> usize {
        self.counts.iter().map(|c| c.1).sum()
    }
    /// a key in front of (or equal to) the g-th value; every rank is doubled to leave gaps
    fn key(&mut self, g: usize, equal: bool, stays: bool) -> Ranked {
        RANKS.with(|r| {
            let r = &mut *r.borrow_mut();
            let at = |r: &Vec<u32>, c: &(u32, usize)| r[c.0 as usize];
            let rank = if equal {
                at(r, &self.counts[g])
            } else {
                let low = if g == 0 { 0 } else { at(r, &self.counts[g - 1]) + 1 };
                if stays {
                    // make room: the ranks from g on move up by two
                    if let Some(from) = self.counts.get(g).map(|c| at(r, c)) {
                        r.iter_mut().filter(|x| **x >= from).for_each(|x| *x += 2);
                    }
                }
                // odd ranks are for values that are absent
                if stays { low | 1 } else { low }
            };
            r.push(rank);
            Ranked(r.len() as u32 - 1)
        })
    }
    fn step(&mut self, s: Step, checked: bool) -> R {
        let n = self.len();
        let (k, insert) = match s {
            Step::InsertBelow(g) => (self.key(g, false, true), true),
            Step::InsertEqual(g) => (self.key(g, true, true), true),
            Step::Delete(g) => (self.key(g, true, false), false),
            Step::DeleteBelow(g) => (self.key(g, false, false), false),
        };
        COMPARISONS.with(|c| c.set(0));
        TOUCHED.with(|t| t.borrow_mut().1 = 0);
        if insert {
            self.t.insert(k)
        } else {
            self.t.delete(k)
        }
        if checked {
            let comparisons = COMPARISONS.with(|c| c.get());
            let elements = TOUCHED.with(|t| {
                let (ids, n) = &*t.borrow();
                ids[..*n].iter().filter(|id| **id != k.0).count()
            });
            Tree::cost(if insert { "inserting" } else { "deleting" }, n, comparisons, elements)?;
        }
        match s {
            Step::InsertBelow(g) => self.counts.insert(g, (k.0, 1)),
            Step::InsertEqual(g) if self.dup => self.counts[g].1 += 1,
            Step::Delete(g) => {
                self.counts[g].1 -= 1;
                if self.counts[g].1 == 0 {
                    self.counts.remove(g);
                }
            }
            _ => {}
        }
        // ranks 1, 3, 5 .. for the values present
        RANKS.with(|r| {
            let r = &mut *r.borrow_mut();
            let now: Vec<u32> = self.counts.iter().map(|c| r[c.0 as usize]).collect();
            for x in r.iter_mut() {
                match now.binary_search(x) {
                    Ok(i) => *x = 2 * i as u32 + 1,
                    // gone: it must not be met again
                    Err(_) => *x = u32::MAX / 2,
                }
            }
        });
        Ok(())
    }
    fn listed(&self) -> R {
        let got: Vec<u32> = self.t.mid_order_traversal().into_iter().map(|k| k.rank()).collect();
        let want: Vec<u32> = self.counts.iter().enumerate().flat_map(|(i, c)| std::iter::repeat_n(2 * i as u32 + 1, c.1)).collect();
        ensure!(got == want, "contents", "listed (by rank) {got:?}, want {want:?}");
        Ok(())
    }
}

const MOST_STATES: usize = 300_000;
/// Every state a tree of at most n elements can get into, by histories of every length.
fn reachable(name: &'static str, sizes: [usize; 2]) -> Family {
    family(name, format!("every reachable state (shape, cached heights and equal values) of a tree with at most {} elements in set mode and {} in duplicate mode, by breadth-first search to the end: from each of them every insertion (between any two values, or equal to one) and every deletion (of any value, or of an absent one)", sizes[0], sizes[1]), move |cx| {
        let dup = cx.flag();
        let most = sizes[dup as usize];
        cx.note(|| format!("duplicates={dup}"));
        let mut seen = std::collections::HashSet::new();
        let mut queue: std::collections::VecDeque<Vec<Step>> = [vec![]].into();
        seen.insert(format!("{:?}", Abstract::new(dup).t));
        let (mut transitions, mut calls) = (0u64, 0u64);
        while let Some(history) = queue.pop_front() {
            cx.alive();
            let build = || -> Result<Abstract, mccore::Stop> {
                let mut a = Abstract::new(dup);
                for s in &history {
                    a.step(*s, false)?;
                }
                Ok(a)
            };
            let values = build()?.counts.len();
            let room = build()?.len() < most;
            let mut steps = vec![];
            for g in 0..=values {
                if room {
                    steps.push(Step::InsertBelow(g));
                }
                steps.push(Step::DeleteBelow(g));
                if g < values {
                    if room || !dup {
                        steps.push(Step::InsertEqual(g));
                    }
                    steps.push(Step::Delete(g));
                }
            }
            for s in steps {
                transitions += 1;
                calls += history.len() as u64 + 1;
                let r = cx.call("a history", || -> Result<(String, usize), mccore::Stop> {
                    let mut a = build()?;
                    a.step(s, true)?;
                    a.listed()?;
                    Ok((format!("{:?}", a.t), a.len()))
                });
                let (state, _) = match r.and_then(|x| x) {
                    Ok(x) => x,
                    Err(e) => {
                        cx.note(|| format!("history (g: the g-th value present): {history:?}, then {s:?}"));
                        return Err(e);
                    }
                };
                // far more states than a balanced tree has: enough of them were seen
                if seen.len() < MOST_STATES && seen.insert(state) {
                    let mut h = history.clone();
                    h.push(s);
                    queue.push_back(h);
                }
            }
        }
        cx.add_calls(calls);
        cx.searched(seen.len() as u64, transitions);
        cx.outcome(if seen.len() < MOST_STATES { "closed" } else { "stopped at the limit of states" });
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------
// circular list

type Node = Rc<RefCell<ListNode<u32>>>;

struct Ring {
    list: CircularDoubleLinkedList<u32>,
    /// handles and values in ring order, head first
    model: Vec<(Node, u32)>,
}

impl Ring {
    fn check(&self, cx: &mut Cx) -> R {
        let n = self.model.len();
        let len = cx.call("len", || self.list.len())?;
        ensure!(len == n, "length", "length {len}, want {n}");
        let (head, tail) = cx.call("head and tail", || (self.list.head(), self.list.tail()))?;
        if n == 0 {
            ensure!(head.is_none(), "ends", "an empty list has a head");
            ensure!(tail.is_none(), "ends", "an empty list has a tail");
            cx.outcome("empty");
            return Ok(());
        }
        cx.outcome(match n {
            1 => "one node",
            2 => "two nodes",
            _ => "three or more nodes",
        });
        let (Some(head), Some(tail)) = (head, tail) else { return fail("ends", format!("a list of {n} nodes has no head or no tail")) };
        ensure!(Rc::ptr_eq(&head, &self.model[0].0), "head", "head is {}, want {}", head.borrow().data, self.model[0].1);
        ensure!(Rc::ptr_eq(&tail, &self.model[n - 1].0), "tail", "tail is {}, want {}", tail.borrow().data, self.model[n - 1].1);
        let mut at = head;
        for i in 0..n {
            ensure!(Rc::ptr_eq(&at, &self.model[i].0) && at.borrow().data == self.model[i].1, "forward", "node {i} of the forward walk is {}, want {}", at.borrow().data, self.model[i].1);
            let Some(next) = at.borrow().next.clone() else { return fail("forward", format!("node {i} has no successor")) };
            at = next;
        }
        ensure!(Rc::ptr_eq(&at, &self.model[0].0), "forward", "the forward walk does not close after {n} steps");
        let mut at = tail;
        for i in (0..n).rev() {
            ensure!(Rc::ptr_eq(&at, &self.model[i].0), "backward", "node {i} of the backward walk is {}, want {}", at.borrow().data, self.model[i].1);
            let Some(prev) = at.borrow().prev.clone() else { return fail("backward", format!("node {i} has no predecessor")) };
            at = prev;
        }
        ensure!(Rc::ptr_eq(&at, &self.model[n - 1].0), "backward", "the backward walk does not close after {n} steps");
        Ok(())
    }
}

/// long rings: grown one way, taken apart another, grown again
fn long_rings(name: &'static str, sizes: &'static [usize], strides: &'static [usize]) -> Family {
    family(name, format!("rings grown to {sizes:?} nodes, each new one after the tail, the head, the middle or the last but one, or in steps of {strides:?}; a third, all but one or all of the nodes deleted from the tail, the head, the middle or in steps; grown again to the same size; compared in both directions after every 1 to 9 operations"), move |cx| {
        let most = cx.pick_from(sizes);
        let (g, d) = (cx.pick(4 + strides.len()), cx.pick(4 + strides.len()));
        let down = [most - most / 3, 1, 0][cx.pick(3)];
        cx.note(|| format!("to {most} nodes by way {g}, down to {down} by way {d}, up again"));
        let at = |way: usize, step: usize, n: usize| match way {
            0 => n - 1,
            1 => 0,
            2 => n / 2,
            3 => n.saturating_sub(2),
            k => (step * strides[k - 4]) % n,
        };
        let mut r = Ring { list: CircularDoubleLinkedList::new(), model: Vec::with_capacity(most + 1) };
        let mut next = 0u32;
        let every = 1 + most / 20;
        for phase in 0..3 {
            let goal = if phase == 1 { down } else { most };
            while r.model.len() != goal {
                let n = r.model.len();
                if phase == 1 {
                    let (h, _) = r.model.remove(at(d, next as usize, n));
                    cx.call("delete", || r.list.delete(Some(h)))?;
                } else {
                    let i = if n == 0 { 0 } else { at(g, next as usize, n) };
                    let after = r.model.get(i).map(|x| x.0.clone());
                    let h = cx.call("insert", || r.list.insert(after, next))?;
                    r.model.insert(if n == 0 { 0 } else { i + 1 }, (h, next));
                }
                next += 1;
                let len = cx.call("len", || r.list.len())?;
                ensure!(len == r.model.len(), "length", "length {len}, want {}", r.model.len());
                if next as usize % every == 0 {
                    r.check(cx)?;
                }
            }
            r.check(cx)?;
        }
        Ok(())
    })
}

fn rings(name: &'static str, len: usize, most: usize) -> Family {
    family(name, format!("all sequences of {len} operations: insert after any node (or into the empty list), delete any node, delete nothing; at most {most} nodes; ring compared in both directions after every operation, memory after dropping"), move |cx| {
        let mut r = Ring { list: CircularDoubleLinkedList::new(), model: Vec::with_capacity(most + 1) };
        let mut next = 0u32;
        for _ in 0..len {
            let n = r.model.len();
            let ins = if n == 0 { 1 } else if n < most { n } else { 0 };
            let op = cx.pick(ins + n + 1);
            if op < ins {
                let after = if n == 0 { None } else { Some(r.model[op].0.clone()) };
                cx.note(|| format!("insert {next} after {:?}", after.as_ref().map(|x| x.borrow().data)));
                let h = cx.call("insert", || r.list.insert(after, next))?;
                ensure!(h.borrow().data == next, "insert", "the new node holds {}", h.borrow().data);
                r.model.insert(if n == 0 { 0 } else { op + 1 }, (h, next));
                next += 1;
            } else if op < ins + n {
                let (h, v) = r.model.remove(op - ins);
                cx.note(|| format!("delete {v}"));
                cx.call("delete", || r.list.delete(Some(h)))?;
            } else {
                cx.note(|| "delete nothing".into());
                cx.call("delete", || r.list.delete(None))?;
            }
            r.check(cx)?;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------
// priority queue

fn queues(name: &'static str, keys: usize, len: usize) -> Family {
    family(name, format!("all sequences of {len} operations out of push k (k < {keys}), pop and clear, then popped until empty"), move |cx| {
        let mut q: PriorityQueue<u32> = PriorityQueue::new();
        let mut model: Vec<u32> = vec![];
        for _ in 0..len {
            let op = cx.pick(keys + 2);
            if op < keys {
                cx.note(|| format!("push {op}"));
                cx.call("push", || q.push(op as u32))?;
                let i = model.partition_point(|x| *x < op as u32);
                model.insert(i, op as u32);
            } else if op == keys {
                cx.note(|| "pop".into());
                let got = cx.call("pop", || q.pop())?;
                let want = model.pop();
                cx.outcome(if want.is_some() { "popped" } else { "popped nothing" });
                ensure!(got == want, "pop", "popped {got:?}, want {want:?}");
            } else {
                cx.note(|| "clear".into());
                cx.call("clear", || q.clear())?;
                model.clear();
            }
            let e = cx.call("is_empty", || q.is_empty())?;
            ensure!(e == model.is_empty(), "is_empty", "is_empty={e} with {} elements", model.len());
        }
        loop {
            let got = cx.call("pop", || q.pop())?;
            let want = model.pop();
            ensure!(got == want, "pop", "popped {got:?}, want {want:?}");
            if want.is_none() {
                return Ok(());
            }
        }
    })
}

/// long queues: filled in steps, partly emptied, cleared or not, filled again
fn long_queues(name: &'static str, sizes: &'static [usize], strides: &'static [usize]) -> Family {
    family(name, format!("queues filled with {sizes:?} keys in steps of {strides:?} modulo 31 or 1009, a third, all but one or none of them popped, cleared or not, filled again in other steps, popped until empty"), move |cx| {
        let n = cx.pick_from(sizes);
        let (a, b) = (cx.pick_from(strides), cx.pick_from(strides));
        let p = cx.pick_from(&[31, 1009]);
        let gone = [0, n / 3, n - 1][cx.pick(3)];
        let clear = cx.flag();
        cx.note(|| format!("{n} keys in steps of {a} modulo {p}, {gone} popped, cleared: {clear}, {n} more in steps of {b}"));
        let mut q: PriorityQueue<u32> = PriorityQueue::new();
        let mut model: Vec<u32> = vec![];
        for (round, step) in [a, b].into_iter().enumerate() {
            for i in 0..n {
                let k = (i * step % p) as u32;
                cx.call("push", || q.push(k))?;
                model.push(k);
            }
            model.sort();
            for _ in 0..if round == 0 { gone } else { model.len() } {
                let got = cx.call("pop", || q.pop())?;
                let want = model.pop();
                ensure!(got == want, "pop", "popped {got:?}, want {want:?}");
            }
            if round == 0 && clear {
                cx.call("clear", || q.clear())?;
                model.clear();
            }
            let e = cx.call("is_empty", || q.is_empty())?;
            ensure!(e == model.is_empty(), "is_empty", "is_empty={e} with {} elements", model.len());
        }
        cx.outcome("emptied");
        let got = cx.call("pop", || q.pop())?;
        ensure!(got.is_none(), "pop", "popped {got:?} from an empty queue");
        Ok(())
    })
}

/// the same for rings: build, edit and drop; nothing stays allocated
fn ring_memory(name: &'static str, len: usize, most: usize) -> Family {
    family(name, format!("all sequences of {len} insertions and deletions with at most {most} nodes: memory after dropping"), move |cx| {
        let mut ops = Vec::with_capacity(len);
        let mut n = 0;
        for _ in 0..len {
            let ins = if n == 0 { 1 } else if n < most { n } else { 0 };
            let op = cx.pick(ins + n);
            let del = op >= ins;
            ops.push((del, if del { op - ins } else { op }));
            n = if del { n - 1 } else { n + 1 };
        }
        cx.note(|| format!("(delete, position): {ops:?}"));
        let start = live();
        cx.call("list operations", || {
            let mut list = CircularDoubleLinkedList::<u32>::new();
            let mut nodes: Vec<Node> = Vec::with_capacity(most + 1);
            for (del, i) in &ops {
                if *del {
                    let h = nodes.remove(*i);
                    list.delete(Some(h));
                } else {
                    let after = nodes.get(*i).cloned();
                    let h = list.insert(after, 7);
                    let at = if nodes.is_empty() { 0 } else { i + 1 };
                    nodes.insert(at, h);
                }
            }
            drop(nodes);
        })?;
        let held = live() - start;
        ensure!(held == 0, "memory", "{held} bytes stay allocated after everything is dropped");
        cx.outcome("released");
        Ok(())
    })
}

fn c21() -> Property {
    Property {
        id: "C21",
        explanation: "Exhaustive exploration of operation histories of the balanced tree (both modes), the circular list and the priority queue against reference containers, with the number of comparisons counted and memory accounted for.",
        assumptions: &["inserting without a position is done only on an empty circular list, as its callers do", "a node handle is not used after its deletion"],
        families: |t| {
            let mut v = vec![
                histories("tree-histories", 3, 6),
                histories("tree-histories-5-keys", 5, 5),
                permutations("tree-permutations-7", 7, 2),
                all_balanced("tree-shapes-12", 1, 12, 3),
                all_balanced("tree-shapes-16", 13, 16, 2),
                leanest("tree-leanest", 5, 8, 2),
                duplicates("tree-duplicates", 3, 7),
                reachable("tree-states", [14, 8]),
                growth("tree-growth-64", 6, 1),
                growth("tree-growth-32-twice", 5, 3),
                tree_memory("tree-memory", 3, 5),
                rings("ring-histories", 8, 6),
                ring_memory("ring-memory", 7, 4),
                queues("queue-histories", 3, 7),
                long_rings("rings-long", &[12, 33, 70, 200], &[3, 7, 19]),
                long_queues("queues-long", &[20, 50, 130, 400], &[1, 7, 29, 500, 1008]),
                stepped("tree-stepped", &[40, 150, 700, 1020], &[1, 2, 33, 145, 610, 1020], false),
                stepped("tree-stepped-equal", &[40, 150, 700], &[1, 2, 12, 28], true),
            ];
            if t == Tier::Thorough {
                v.extend([
                    histories("tree-histories-deep", 4, 7),
                    permutations("tree-permutations-8", 8, 3),
                    permutations("tree-permutations-9", 9, 1),
                    all_balanced("tree-shapes-15-deep", 13, 15, 3),
                    all_balanced("tree-shapes-20", 17, 20, 2),
                    reachable("tree-states-deep", [17, 10]),
                    leanest("tree-leanest-deep", 4, 6, 4),
                    leanest("tree-leanest-high", 9, 10, 2),
                    duplicates("tree-duplicates-deep", 3, 11),
                    growth("tree-growth-256", 8, 1),
                    growth("tree-growth-128-twice", 7, 2),
                    rings("ring-histories-deep", 10, 6),
                    queues("queue-histories-deep", 4, 9),
                ]);
            }
            v
        },
    }
}

fn main() {
    mccore::main_with(&[c21()])
}
