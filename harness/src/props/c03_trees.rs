use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;
use std::collections::{BTreeSet, LinkedList};

#[derive(Clone)]
struct Item {
    id: usize,
    lo: V3,
    hi: V3,
    /// inner parts that really collide (None: the bounding box does)
    parts: Option<Vec<(V3, V3)>>,
}
fn bb3(lo: &V3, hi: &V3) -> BoundingBox3D {
    BoundingBox3D::new(&p3(lo), &p3(hi)).expect("valid box")
}
fn bb2(lo: &V3, hi: &V3) -> BoundingBox2D {
    BoundingBox2D::new(&Point2D::new(lo[0], lo[1]), &Point2D::new(hi[0], hi[1])).expect("valid box")
}
impl HasBoundingBox3DMaybe for Item {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        Some(bb3(&self.lo, &self.hi))
    }
}
impl HasBoundingBox3D for Item {
    fn bounding_box(&self) -> BoundingBox3D {
        bb3(&self.lo, &self.hi)
    }
}
#[derive(Clone)]
struct Item2(Item);
impl HasBoundingBox2DMaybe for Item2 {
    fn bounding_box_maybe(&self) -> Option<BoundingBox2D> {
        Some(bb2(&self.0.lo, &self.0.hi))
    }
}
impl HasBoundingBox2D for Item2 {
    fn bounding_box(&self) -> BoundingBox2D {
        bb2(&self.0.lo, &self.0.hi)
    }
}
impl HasColliders3D for Item {
    fn has_additional_colliders(&self) -> bool {
        self.parts.is_some()
    }
    fn with_colliders(&self, f: &mut dyn FnMut(&Collider3D)) {
        if let Some(ps) = &self.parts {
            for (lo, hi) in ps {
                f(&Collider3D::AABB(bb3(lo, hi)));
            }
        }
    }
}

fn overlap(a: (&V3, &V3), b: (&V3, &V3), dims: usize) -> bool {
    (0..dims).all(|i| a.0[i] < b.1[i] && b.0[i] < a.1[i])
}

fn gen_box(s: &mut Src, g: &Grid, kind: usize) -> (V3, V3) {
    let a = g.v3(s);
    let small = Grid { range: 2, ..*g };
    let mut b = a;
    for i in 0..3 {
        b[i] += match kind {
            0 => small.ext(s),
            1 => g.ext(s),
            _ => if s.chance(1, 3) { g.ext(s) } else { small.ext(s) },
        };
    }
    (a, b)
}
fn gen_items(s: &mut Src, g: &Grid, max: usize, parts: bool) -> Vec<Item> {
    let kind = s.weighted(&[3, 1, 3]);
    let raw = s.list(0, max, |s| {
        let (lo, hi) = gen_box(s, g, kind);
        let parts = if parts && s.chance(2, 3) {
            // sub-boxes inside the item's own box (in eighths, exact)
            let n = s.usize(0, 3);
            Some((0..n).map(|_| {
                let mut plo = lo;
                let mut phi = hi;
                for i in 0..3 {
                    let e = (hi[i] - lo[i]) / 8.0;
                    let a = s.usize(0, 7);
                    let b = s.usize(a + 1, 8);
                    plo[i] = lo[i] + e * a as f64;
                    phi[i] = lo[i] + e * b as f64;
                }
                (plo, phi)
            }).collect())
        } else {
            None
        };
        Item { id: 0, lo, hi, parts }
    });
    raw.into_iter().enumerate().map(|(id, it)| Item { id, ..it }).collect()
}
/// a value that is often exactly on a box boundary or the centre of everything
fn gen_value(s: &mut Src, g: &Grid, items: &[Item], d: usize) -> f64 {
    if items.is_empty() || s.chance(1, 3) {
        return g.c(s);
    }
    let it = s.pick(items).clone();
    match s.below(4) {
        0 => it.lo[d],
        1 => it.hi[d],
        2 => it.lo[d] + (it.hi[d] - it.lo[d]) / 2.0,
        _ => {
            let lo = items.iter().map(|i| i.lo[d]).fold(f64::INFINITY, f64::min);
            let hi = items.iter().map(|i| i.hi[d]).fold(f64::NEG_INFINITY, f64::max);
            lo + (hi - lo) / 2.0
        }
    }
}
fn gen_query_box(s: &mut Src, g: &Grid, items: &[Item]) -> (V3, V3) {
    if !items.is_empty() && s.bool() {
        let mut lo = [0.0; 3];
        let mut hi = [0.0; 3];
        for d in 0..3 {
            let a = gen_value(s, g, items, d);
            let b = gen_value(s, g, items, d);
            lo[d] = a.min(b);
            hi[d] = if a == b { a + g.ext(s) } else { a.max(b) };
        }
        (lo, hi)
    } else {
        let k = s.below(3);
        gen_box(s, g, k)
    }
}
/// what is only compared also works with coordinates that are rounded
fn gen_grid(s: &mut Src) -> Grid {
    if s.chance(1, 5) { Grid { range: 30, div: 10.0, off: 0.0, fine: 0.0 } } else { Grid::gen(s) }
}
/// some objects of very different size
fn shrink_some(s: &mut Src, items: &mut [Item]) {
    if s.chance(1, 5) {
        for it in items.iter_mut() {
            if s.bool() {
                let f = 10f64.powi(-(s.below(25) as i32));
                let to_zero = s.chance(1, 3);
                for d in 0..3 {
                    let e = (it.hi[d] - it.lo[d]) * f;
                    if to_zero {
                        it.lo[d] = 0.0;
                    }
                    it.hi[d] = (it.lo[d] + e).max(next_up(it.lo[d]));
                }
            }
        }
    }
}
fn params(s: &mut Src) -> (usize, usize) {
    (s.usize(0, 8), match s.weighted(&[3, 3, 1]) { 0 => s.usize(0, 2), 1 => s.usize(1, 6), _ => 1000 })
}
fn want<F: Fn(&Item) -> bool>(items: &[Item], f: F) -> BTreeSet<usize> {
    items.iter().filter(|i| f(i)).map(|i| i.id).collect()
}
fn same(what: &str, got: &BTreeSet<usize>, want: &BTreeSet<usize>) -> Res {
    ensure!(want.is_subset(got), &format!("{} misses", what), "{}: reported {:?}, exhaustive scan finds {:?}", what, got, want);
    ensure!(got.is_subset(want), &format!("{} invents", what), "{}: reported {:?}, exhaustive scan finds {:?}", what, got, want);
    Ok(())
}
fn describe(items: &[Item]) -> String {
    items.iter().map(|i| format!("{:?}..{:?}{}", i.lo, i.hi, i.parts.as_ref().map(|p| format!(" parts {:?}", p)).unwrap_or_default())).collect::<Vec<_>>().join(" | ")
}

fn tree3(s: &mut Src, c: &mut Ctx) -> Res {
    let g = gen_grid(s);
    let mut items = gen_items(s, &g, 24, false);
    shrink_some(s, &mut items);
    let (depth, bucket) = params(s);
    c.desc(|| format!("maxdepth={} bucket={} items: {}", depth, bucket, describe(&items)));
    let t = no_panic("AABBTree3D::new", || AABBTree3D::new(items.clone(), depth, bucket))?;
    ensure!(matches!(t, AABBTree3D::Empty) == items.is_empty(), "empty", "tree of {} items: empty={}", items.len(), matches!(t, AABBTree3D::Empty));
    let split = matches!(t, AABBTree3D::Branch(_));
    c.label_if(split, "tree with branches");
    c.nontrivial(split);
    for _ in 0..3 {
        let (lo, hi) = gen_query_box(s, &g, &items);
        let q = bb3(&lo, &hi);
        let w = want(&items, |i| overlap((&i.lo, &i.hi), (&lo, &hi), 3));
        c.label_if(!w.is_empty() && w.len() < items.len(), "partial answer");
        let mut r = Vec::new();
        t.bb_colliding(&q, &mut r);
        same("bb_colliding", &r.iter().map(|i| i.id).collect(), &w)?;
        let mut ids = BTreeSet::new();
        t.for_each_collision_candidate(&q, &mut |i| { ids.insert(i.id); });
        same("for_each_collision_candidate", &ids, &w)?;
        for d in 0..3 {
            let x = gen_value(s, &g, &items, d);
            let mut r = Vec::new();
            match d {
                0 => t.bb_crossing_x_value(x, &mut r),
                1 => t.bb_crossing_y_value(x, &mut r),
                _ => t.bb_crossing_z_value(x, &mut r),
            }
            same(["bb_crossing_x_value", "bb_crossing_y_value", "bb_crossing_z_value"][d], &r.iter().map(|i| i.id).collect(), &want(&items, |i| i.lo[d] < x && x < i.hi[d]))?;
        }
    }
    // any: finds each single element, and reports nothing for an unsatisfiable question
    for it in &items {
        ensure!(t.any(&|x: &Item| x.id == it.id), "any misses", "any() does not find item {}", it.id);
    }
    ensure!(!t.any(&|x: &Item| x.id >= items.len()), "any invents", "any() found an item that does not exist");
    let t2 = t.clone();
    ensure!(items.iter().all(|it| t2.any(&|x: &Item| x.id == it.id)), "clone", "clone lost items");
    Ok(())
}

fn tree2(s: &mut Src, c: &mut Ctx) -> Res {
    let g = gen_grid(s);
    let mut items = gen_items(s, &g, 24, false);
    shrink_some(s, &mut items);
    let (depth, bucket) = params(s);
    c.desc(|| format!("maxdepth={} bucket={} items: {}", depth, bucket, describe(&items)));
    let t = no_panic("AABBTree2D::new", || AABBTree2D::new(items.iter().cloned().map(Item2).collect(), depth, bucket))?;
    ensure!(matches!(t, AABBTree2D::Empty) == items.is_empty(), "empty", "tree of {} items: empty={}", items.len(), matches!(t, AABBTree2D::Empty));
    c.nontrivial(matches!(t, AABBTree2D::Branch(_)));
    for _ in 0..3 {
        let (lo, hi) = gen_query_box(s, &g, &items);
        let q = bb2(&lo, &hi);
        let w = want(&items, |i| overlap((&i.lo, &i.hi), (&lo, &hi), 2));
        c.label_if(!w.is_empty() && w.len() < items.len(), "partial answer");
        let mut r = Vec::new();
        t.bb_colliding(&q, &mut r);
        same("bb_colliding", &r.iter().map(|i| i.0.id).collect(), &w)?;
        let mut ids = BTreeSet::new();
        t.for_each_collision_candidate(&q, &mut |i| { ids.insert(i.0.id); });
        same("for_each_collision_candidate", &ids, &w)?;
        for d in 0..2 {
            let x = gen_value(s, &g, &items, d);
            let mut r = Vec::new();
            match d {
                0 => t.bb_crossing_x_value(x, &mut r),
                _ => t.bb_crossing_y_value(x, &mut r),
            }
            same(["bb_crossing_x_value", "bb_crossing_y_value"][d], &r.iter().map(|i| i.0.id).collect(), &want(&items, |i| i.lo[d] < x && x < i.hi[d]))?;
        }
    }
    for it in &items {
        ensure!(t.any(&|x: &Item2| x.0.id == it.id), "any misses", "any() does not find item {}", it.id);
    }
    ensure!(!t.any(&|x: &Item2| x.0.id >= items.len()), "any invents", "any() found an item that does not exist");
    Ok(())
}

/// parameter interval in which the line is inside the box; None if never (f64, used only away from boundaries)
pub fn slab(anchor: &V3, dir: &V3, lo: &V3, hi: &V3) -> Option<(f64, f64)> {
    let (mut t0, mut t1) = (f64::NEG_INFINITY, f64::INFINITY);
    for d in 0..3 {
        if dir[d] == 0.0 {
            if anchor[d] < lo[d] || anchor[d] > hi[d] {
                return None;
            }
            continue;
        }
        let (a, b) = ((lo[d] - anchor[d]) / dir[d], (hi[d] - anchor[d]) / dir[d]);
        t0 = t0.max(a.min(b));
        t1 = t1.min(a.max(b));
    }
    if t0 <= t1 { Some((t0, t1)) } else { None }
}
pub fn grow(lo: &V3, hi: &V3, e: f64) -> (V3, V3) {
    let mut a = *lo;
    let mut b = *hi;
    for d in 0..3 {
        let m = e.max(-(hi[d] - lo[d]) / 2.0);
        a[d] -= m;
        b[d] += m;
    }
    (a, b)
}
/// Some(true): the ray surely meets the box in front of its anchor; Some(false): surely not; None: too close to call
pub fn ray_hits_box(anchor: &V3, dir: &V3, lo: &V3, hi: &V3) -> Option<bool> {
    let e = 1e-8 * mag(&[lo, hi, anchor]);
    let (a, b) = grow(lo, hi, -e);
    if let Some((_, t1)) = slab(anchor, dir, &a, &b) {
        if t1 > e {
            return Some(true);
        }
    }
    let (a, b) = grow(lo, hi, e);
    match slab(anchor, dir, &a, &b) {
        None => Some(false),
        Some((_, t1)) if t1 < -e => Some(false),
        _ => None,
    }
}
pub fn gen_dir(s: &mut Src, anchor: &V3, targets: &[V3]) -> V3 {
    loop {
        let d: V3 = match s.weighted(&[4, 2, 1]) {
            0 if !targets.is_empty() => sub3(s.pick(targets), anchor),
            1 => {
                let mut d = [0.0; 3];
                d[s.below(3)] = if s.bool() { 1.0 } else { -1.0 };
                d
            }
            _ => [s.int(-4, 4) as f64, s.int(-4, 4) as f64, s.int(-4, 4) as f64],
        };
        if d != [0.0; 3] {
            return d;
        }
        if s.record.len() > 100_000 { return [1.0, 0.0, 0.0]; }
        if s.exhausted() { return [1.0, 0.0, 0.0]; }
    }
}

fn lines(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let items = gen_items(s, &g, 24, false);
    let (depth, bucket) = params(s);
    let t = no_panic("AABBTree3D::new", || AABBTree3D::new(items.clone(), depth, bucket))?;
    let centers: Vec<V3> = items.iter().map(|i| mul3(&add3(&i.lo, &i.hi), 0.5)).collect();
    for _ in 0..3 {
        let anchor = if !centers.is_empty() && s.chance(1, 6) { *s.pick(&centers) } else { g.v3(s) };
        let dir = gen_dir(s, &anchor, &centers);
        c.desc(|| format!("maxdepth={} bucket={} anchor={:?} dir={:?} items: {}", depth, bucket, anchor, dir, describe(&items)));
        let n = Norm3D::new(p3(&dir)).map_err(|_| Fail { sig: "norm".into(), msg: format!("no Norm3D for {:?}", dir) })?;
        let nd = v3(&n);
        let line = Line3D::new(p3(&anchor), n);
        let mut ids = BTreeSet::new();
        t.for_each_intersection_candidate(&line, &mut |i| { ids.insert(i.id); });
        let mut some = false;
        for i in &items {
            match ray_hits_box(&anchor, &nd, &i.lo, &i.hi) {
                Some(true) => {
                    some = true;
                    ensure!(ids.contains(&i.id), "intersection candidate misses", "line {:?} {:?} hits item {} ({:?}..{:?}), reported only {:?}", anchor, nd, i.id, i.lo, i.hi, ids)
                }
                Some(false) => ensure!(!ids.contains(&i.id), "intersection candidate invents", "line {:?} {:?} does not hit item {} ({:?}..{:?}) but it is reported", anchor, nd, i.id, i.lo, i.hi),
                None => (),
            }
        }
        c.nontrivial(some && matches!(t, AABBTree3D::Branch(_)));
    }
    Ok(())
}

fn collides(a: &Item, b: &Item) -> bool {
    let pa: Vec<(V3, V3)> = a.parts.clone().unwrap_or_else(|| vec![(a.lo, a.hi)]);
    let pb: Vec<(V3, V3)> = b.parts.clone().unwrap_or_else(|| vec![(b.lo, b.hi)]);
    pa.iter().any(|x| pb.iter().any(|y| overlap((&x.0, &x.1), (&y.0, &y.1), 3)))
}

fn containers(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let items = gen_items(s, &g, 16, true);
    let (depth, bucket) = params(s);
    let t = no_panic("AABBTree3D::new", || AABBTree3D::new(items.clone(), depth, bucket))?;
    let v: Vec<Item> = items.clone();
    let vd = wrapped(&items);
    let ll: LinkedList<Item> = items.iter().cloned().collect();
    for _ in 0..3 {
        let mut other = gen_items(s, &g, 1, true).pop().unwrap_or(Item { id: 0, lo: [0.0; 3], hi: [1.0; 3], parts: None });
        if s.bool() {
            let (lo, hi) = gen_query_box(s, &g, &items);
            other = Item { id: 0, lo, hi, parts: None };
        }
        c.desc(|| format!("maxdepth={} bucket={} other: {} items: {}", depth, bucket, describe(std::slice::from_ref(&other)), describe(&items)));
        let w_col = items.iter().any(|i| collides(i, &other));
        let w_bb = items.iter().any(|i| overlap((&i.lo, &i.hi), (&other.lo, &other.hi), 3));
        c.nontrivial(w_bb && items.len() >= 2);
        c.label_if(w_bb && !w_col, "boxes overlap, parts do not");
        c.label_if(w_col, "collision");
        for (name, got_col, got_bb) in [
            ("AABBTree3D", t.any_element_collides_with_collider(&other), t.any_element_collides_with_bounding(&other)),
            ("Vec", v.any_element_collides_with_collider(&other), v.any_element_collides_with_bounding(&other)),
            ("VecDeque", vd.any_element_collides_with_collider(&other), vd.any_element_collides_with_bounding(&other)),
            ("LinkedList", ll.any_element_collides_with_collider(&other), ll.any_element_collides_with_bounding(&other)),
        ] {
            ensure!(got_col == w_col, &format!("{} collider", name), "{}: any_element_collides_with_collider={} expected {}", name, got_col, w_col);
            ensure!(got_bb == w_bb, &format!("{} bounding", name), "{}: any_element_collides_with_bounding={} expected {}", name, got_bb, w_bb);
        }
        for i in &items {
            ensure!(i.collides_with(&other) == collides(i, &other), "HasColliders3D::collides_with", "item {} collides_with other: {}", i.id, i.collides_with(&other));
            ensure!(other.collides_with(i) == collides(i, &other), "HasColliders3D::collides_with", "other collides_with item {}: {}", i.id, other.collides_with(i));
        }
    }
    Ok(())
}

/// the spatial clustering on the x/y plane
fn cluster(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let items = gen_items(s, &g, 16, false);
    let (mut nx, mut ny) = (s.usize(1, 24) as u16, s.usize(1, 24) as u16);
    if s.huge {
        // many cells along one axis
        nx = *s.pick(&[255, 256, 257, 1000, 32768, 40000, 65534, 65535]);
        ny = s.usize(1, 2) as u16;
        if s.bool() {
            std::mem::swap(&mut nx, &mut ny);
        }
    }
    c.desc(|| format!("{}x{} cells, items: {}", nx, ny, describe(&items)));
    let cl = match no_panic("Cluster::new", || Cluster::new(items.clone(), nx, ny))? {
        Ok(cl) => cl,
        Err(_) => {
            ensure!(items.is_empty(), "cluster refuses", "Cluster::new refused {} items", items.len());
            return Ok(());
        }
    };
    ensure!(!items.is_empty(), "cluster of nothing", "Cluster::new accepted no items");
    for _ in 0..6 {
        let (x, y) = (gen_value(s, &g, &items, 0), gen_value(s, &g, &items, 1));
        let mut seen: Vec<usize> = vec![];
        cl.for_each_candidate(x, y, &mut |i| seen.push(i.id));
        let w = want(&items, |i| i.lo[0] <= x && x <= i.hi[0] && i.lo[1] <= y && y <= i.hi[1]);
        c.nontrivial(w.len() >= 2);
        c.label_if(seen.len() < items.len(), "narrowed down");
        for id in &w {
            ensure!(seen.contains(id), "cluster candidate misses", "item {} covers ({}, {}) but is not a candidate ({:?})", id, x, y, seen);
        }
        // a candidate reaches the cell of the query, thus is at most a cell away
        let at = [x, y];
        let n_cells = [nx, ny];
        let ext = |d: usize| {
            let lo = items[..].iter().map(|i| i.lo[d]).fold(f64::INFINITY, f64::min);
            let hi = items[..].iter().map(|i| i.hi[d]).fold(f64::NEG_INFINITY, f64::max);
            (lo, hi)
        };
        let (ex, ey) = (ext(0), ext(1));
        if ex.0 <= x && x <= ex.1 && ey.0 <= y && y <= ey.1 {
            for id in &seen {
                for d in 0..2 {
                    let (lo, hi) = ext(d);
                    let cell = (hi - lo) / n_cells[d] as f64;
                    let i = &items[*id];
                    let gap = (i.lo[d] - at[d]).max(at[d] - i.hi[d]);
                    ensure!(gap <= cell * (1.0 + 1e-6), "cluster candidate far away", "item {} is {} away from ({}, {}) along axis {}, cells measure {}", id, gap, x, y, d, cell);
                }
            }
            c.label("query inside");
        }
        let n: usize = seen.len();
        seen.sort();
        seen.dedup();
        ensure!(seen.len() == n && seen.last().map_or(true, |i| *i < items.len()), "cluster candidate repeated", "candidates {:?} (of {} reported)", seen, n);
    }
    Ok(())
}

/// more boxes than one or two bytes count, and as deep as users build trees of them
fn big(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid { range: 1 << 12, div: 8.0, off: *s.pick(&[0.0, 4096.0, -1e6]), fine: 0.0 };
    let n = many_n(s);
    let mut r = Rng::new(s.draw(1 << 30));
    let size = 1 + s.draw(12);
    // not few different places: what straddles every split would be copied over and over
    let kind = s.below(2);
    let items: Vec<Item> = many3_of(s, &g, n, kind)
        .into_iter()
        .enumerate()
        .map(|(id, lo)| {
            let mut e = || (1 + r.next() % size) as f64 / 8.0;
            Item { id, lo, hi: [lo[0] + e(), lo[1] + e(), lo[2] + e()], parts: None }
        })
        .collect();
    // 2D overlaps more, objects straddling every split are copied
    let (d3, d2) = (s.usize(1, 20), s.usize(1, 14));
    let (b3, b2) = (s.usize(0, 30), s.usize(1, 60));
    c.desc(|| format!("{} boxes up to {}/8 wide on {:?}, maxdepth {} and {}, bucket {} and {}", n, size, g, d3, d2, b3, b2));
    c.nontrivial(true);
    c.label_if(n > 65536, "more than 65536 boxes");
    let t3 = no_panic("AABBTree3D::new", || AABBTree3D::new(items.clone(), d3, b3))?;
    let t2 = no_panic("AABBTree2D::new", || AABBTree2D::new(items.iter().cloned().map(Item2).collect(), d2, b2))?;
    let check = |what: &str, mut got: Vec<usize>, w: &BTreeSet<usize>| -> Res {
        got.sort();
        got.dedup();
        ensure!(w.iter().eq(got[..].iter()), &format!("{} of many", what), "{}: {} of {} boxes reported, exhaustive scan finds {}", what, got.len(), n, w.len());
        Ok(())
    };
    for _ in 0..3 {
        let lo = if s.bool() { s.pick(&items).lo } else { g.v3(s) };
        let wide = Grid { range: 40, ..g };
        let (lo, hi) = (lo, add3(&lo, &[wide.ext(s), wide.ext(s), g.ext(s)]));
        let mut v3 = Vec::new();
        t3.bb_colliding(&bb3(&lo, &hi), &mut v3);
        check("bb_colliding 3D", v3[..].iter().map(|i| i.id).collect(), &want(&items, |i| overlap((&i.lo, &i.hi), (&lo, &hi), 3)))?;
        let mut v2 = Vec::new();
        t2.bb_colliding(&bb2(&lo, &hi), &mut v2);
        let w2 = want(&items, |i| overlap((&i.lo, &i.hi), (&lo, &hi), 2));
        check("bb_colliding 2D", v2[..].iter().map(|i| i.0.id).collect(), &w2)?;
        let mut ids = vec![];
        t2.for_each_collision_candidate(&bb2(&lo, &hi), &mut |i| ids.push(i.0.id));
        check("for_each_collision_candidate 2D", ids, &w2)?;
        for d in 0..3 {
            let x = if s.bool() { s.pick(&items).lo[d] + 0.0625 } else { g.c(s) };
            let w = want(&items, |i| i.lo[d] < x && x < i.hi[d]);
            let mut v3 = Vec::new();
            match d {
                0 => t3.bb_crossing_x_value(x, &mut v3),
                1 => t3.bb_crossing_y_value(x, &mut v3),
                _ => t3.bb_crossing_z_value(x, &mut v3),
            }
            check("bb_crossing 3D", v3[..].iter().map(|i| i.id).collect(), &w)?;
            let mut v2 = Vec::new();
            match d {
                0 => t2.bb_crossing_x_value(x, &mut v2),
                1 => t2.bb_crossing_y_value(x, &mut v2),
                _ => continue,
            }
            check("bb_crossing 2D", v2[..].iter().map(|i| i.0.id).collect(), &w)?;
        }
        let k = s.below(n);
        ensure!(t3.any(&|x: &Item| x.id == k) && t2.any(&|x: &Item2| x.0.id == k), "any misses", "any() does not find item {} of {}", k, n);
    }
    if s.bool() {
        let (nx, ny) = (s.usize(1, 1000) as u16, s.usize(1, 1000) as u16);
        let cl = Cluster::new(items.clone(), nx, ny).map_err(|_| Fail { sig: "cluster refuses".into(), msg: format!("Cluster::new refused {} items", n) })?;
        for _ in 0..20 {
            let i = s.pick(&items);
            let (x, y) = (i.lo[0], i.hi[1]);
            let mut seen = BTreeSet::new();
            cl.for_each_candidate(x, y, &mut |i| { seen.insert(i.id); });
            let w = want(&items, |i| i.lo[0] <= x && x <= i.hi[0] && i.lo[1] <= y && y <= i.hi[1]);
            ensure!(w.is_subset(&seen), "cluster candidate misses", "{} boxes, {}x{} cells: {:?} cover ({}, {}) but are no candidates", n, nx, ny, w.difference(&seen).collect::<Vec<_>>(), x, y);
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "A case is up to 24 boxes (large ones 1200, a few 70000) (small, large or mixed, many touching because of the coarse grid), a maximum depth 0..8, a bucket size, and several queries biased to box boundaries and split planes. Non-trivial: the tree has at least one branch (containers: at least two items and an overlapping query; lines: the tree has a branch and some item is surely hit).",
        assumptions: &["boxes are valid and finite, maximum depth at most 8, with many small boxes 20 (a tree without a bound on depth may not terminate and is outside the claim)", "lines closer than 1e-8 (relative) to a box edge are not judged"],
        subs: vec![sub("tree3", 400_000, tree3).large(50), sub("tree2", 400_000, tree2).large(50), sub("lines", 400_000, lines).large(50), sub("containers", 400_000, containers).large(50), sub("cluster", 200_000, cluster).large(50), sub("cluster-fine", 100, cluster).huge(), sub("big", 40, big)],
    }
}
