use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;

fn gen(s: &mut Src, max: usize) -> Vec<V3> {
    let g = Grid::gen(s);
    let mut pts = points3(s, &g, 2, max);
    // deep trees: neighbours that only separate after many halvings
    if s.chance(1, 4) {
        let base = *s.pick(&pts);
        let k = s.usize(1, 40);
        let e = (2.0f64).powi(-(k as i32)) ;
        let mut q = base;
        q[s.below(3)] += e;
        pts.push(q);
        if s.bool() {
            let mut q = [0.0, 0.0, 0.0];
            q[s.below(3)] = (2.0f64).powi(-(s.usize(1, 300) as i32));
            pts.push(q);
            pts.push([0.0, 0.0, 0.0]);
        }
    }
    // coordinates that cannot be halved exactly, direct neighbours among them
    if s.chance(1, 5) {
        let f = *s.pick(&[0.1, 1.0 / 3.0, 1e-7, 1e5 / 7.0]);
        for p in pts.iter_mut() {
            for x in p.iter_mut() {
                *x *= f;
            }
        }
        for _ in 0..s.below(4) {
            let mut q = *s.pick(&pts);
            for _ in 0..1 + s.below(3) {
                let i = s.below(3);
                for _ in 0..1 + s.below(3) {
                    q[i] = if s.bool() { next_up(q[i]) } else { -next_up(-q[i]) };
                }
            }
            pts.push(q);
        }
    }
    // make it non-degenerate
    let lo = |i: usize| pts.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min);
    let hi = |i: usize| pts.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max);
    let mut corner = pts[0];
    let mut need = false;
    for i in 0..3 {
        if lo(i) == hi(i) {
            corner[i] += g.ext(s);
            need = true;
        }
    }
    if need {
        pts.push(corner);
    }
    pts
}

/// a tree of the points, sometimes one that held others before, was refused points, or is a copy
fn tree(s: &mut Src, pts: &[V3]) -> Option<OcTree<Point3D>> {
    let mut t: OcTree<Point3D> = OcTree::default();
    let past = s.weighted(&[8, 1, 1, 1]);
    if past == 1 || past == 2 {
        t.build(pc3(&gen(s, 12))).ok()?;
    }
    if past == 2 {
        let _ = t.build(pc3(&[]));
    }
    t.build(pc3(pts)).ok()?;
    if past == 3 {
        let u = t.clone();
        t.build(pc3(&gen(s, 12))).ok()?;
        return Some(u);
    }
    Some(t)
}

fn bounds(pts: &[V3]) -> (V3, V3) {
    let (mut a, mut b) = (pts[0], pts[0]);
    for p in pts {
        for i in 0..3 {
            a[i] = a[i].min(p[i]);
            b[i] = b[i].max(p[i]);
        }
    }
    (a, b)
}

fn content(s: &mut Src, c: &mut Ctx) -> Res {
    let pts = gen(s, 60);
    c.desc(|| format!("{:?}", pts));
    let mut want = sorted_keys3(&pts);
    let n_all = want.len();
    want.dedup();
    c.nontrivial(want.len() >= 3);
    c.label_if(want.len() < n_all, "with duplicates");
    let t: OcTree<Point3D> = OcTree::default();
    ensure!(t.size() == 0 && t.to_pointcloud().len() == 0, "empty tree", "a fresh tree is not empty");
    let t = match tree(s, &pts) {
        Some(t) => t,
        None => return fail("build", "build failed".to_string()),
    };
    let back: Vec<V3> = t.to_pointcloud().data.iter().map(v3).collect();
    let got = sorted_keys3(&back);
    ensure!(got == want, "content", "octree holds {:?}, distinct input is {} points", back, want.len());
    ensure!(t.size() == want.len(), "size", "size {} but {} distinct points", t.size(), want.len());
    Ok(())
}

fn degenerate(s: &mut Src, c: &mut Ctx) -> Res {
    // clouds without a bounding box are refused, not half-built
    let g = Grid::gen(s);
    let axis = s.below(3);
    let f = g.c(s);
    let pts = s.list(0, 10, |s| {
        let mut p = g.v3(s);
        p[axis] = f;
        p
    });
    c.desc(|| format!("{:?}", pts));
    c.nontrivial(pts.len() > 1);
    let mut t: OcTree<Point3D> = OcTree::default();
    let r = t.build(pc3(&pts));
    if r.is_ok() {
        // an implementation may accept flat clouds, but then it must hold them
        let back: Vec<V3> = t.to_pointcloud().data.iter().map(v3).collect();
        let mut want = sorted_keys3(&pts);
        want.dedup();
        ensure!(sorted_keys3(&back) == want, "degenerate content", "accepted a flat cloud but holds {:?} of {:?}", back, pts);
    }
    Ok(())
}

fn depth(s: &mut Src, c: &mut Ctx) -> Res {
    let pts = gen(s, 60);
    let mut keys = sorted_keys3(&pts);
    keys.dedup();
    let (lo, hi) = bounds(&pts);
    let t = match tree(s, &pts) {
        Some(t) => t,
        None => return fail("build", "build failed".to_string()),
    };
    let m = match s.weighted(&[5, 1, 1]) {
        0 => s.usize(0, 6) as i64,
        1 => s.usize(7, 127) as i64,
        _ => -(s.usize(1, 128) as i64),
    } as i8;
    c.desc(|| format!("points={:?} maxdepth={}", pts, m));
    let got: Vec<V3> = t.collect(m).data.iter().map(v3).collect();
    if m < 0 {
        ensure!(sorted_keys3(&got) == keys, "collect unlimited", "collect({}) returned {:?}, expected all {} points", m, got, keys.len());
        return Ok(());
    }
    c.nontrivial(got.len() < keys.len());
    ensure!(got.len() <= keys.len(), "collect too many", "collect({}) returned {} points, the tree holds {}", m, got.len(), keys.len());
    ensure!(got.len() as f64 <= 8f64.powi(m as i32 + 2), "collect count", "collect({}) returned {} points, more than cells", m, got.len());
    // every point is represented within the size of the cells of that depth, and nothing else is returned
    let scale = (2.0f64).powi(-(m as i32 + 2));
    let near = |a: &V3, b: &V3| (0..3).all(|i| (a[i] - b[i]).abs() <= (hi[i] - lo[i]) * scale + 1e-9 * (1.0 + a[i].abs()));
    for p in &pts {
        ensure!(got.iter().any(|q| near(p, q)), "collect loses a cell", "collect({}): {:?} has no representative in {:?}", m, p, got);
    }
    for q in &got {
        ensure!(pts.iter().any(|p| near(p, q)), "collect invents", "collect({}): {:?} represents no input point", m, q);
        ensure!((0..3).all(|i| q[i] >= lo[i] - 1e-9 * (1.0 + lo[i].abs()) && q[i] <= hi[i] + 1e-9 * (1.0 + hi[i].abs())), "collect outside", "{:?} lies outside the cloud's box", q);
    }
    if m < 127 {
        let deeper = t.collect(m + 1).len();
        ensure!(deeper >= got.len(), "collect monotone", "collect({}) gives {} points but collect({}) only {}", m, got.len(), m as i32 + 1, deeper);
    }
    // points that are alone in their cell come back unchanged
    let mid = |i: usize| lo[i] + (hi[i] - lo[i]) / 2.0;
    for (k, p) in pts.iter().enumerate() {
        let ambiguous = |q: &V3| (0..3).any(|i| q[i] == mid(i) || (q[i] - mid(i)).abs() < 1e-12 * lo[i].abs().max(hi[i].abs()));
        if ambiguous(p) {
            continue;
        }
        let oct = |q: &V3| [q[0] > mid(0), q[1] > mid(1), q[2] > mid(2)];
        if pts.iter().enumerate().all(|(j, q)| j == k || (oct(q) != oct(p) && !ambiguous(q))) {
            ensure!(got.iter().any(|q| key3(q) == key3(p)), "collect single", "{:?} is alone in its octant but collect({}) does not return it", p, m);
        }
    }
    Ok(())
}

/// more points than one or two bytes count
fn big(s: &mut Src, c: &mut Ctx) -> Res {
    let g = wide(s);
    let n = many_n(s);
    let mut pts = many3(s, &g, n);
    let k = g.off + (g.range + 1) as f64 / g.div;
    pts.push([k, k, k]);
    pts.push([2.0 * g.off - k, 2.0 * g.off - k, 2.0 * g.off - k]);
    c.desc(|| format!("{} points on {:?}", n + 2, g));
    let mut keys = sorted_keys3(&pts);
    keys.dedup();
    c.nontrivial(true);
    c.label_if(keys.len() > 65536, "more than 65536 distinct points");
    let mut t: OcTree<Point3D> = OcTree::default();
    ensure!(t.build(pc3(&pts)).is_ok(), "build", "build failed");
    let back: Vec<V3> = t.to_pointcloud().data.iter().map(v3).collect();
    ensure!(sorted_keys3(&back) == keys, "content", "octree holds {} points, distinct input is {} points", back.len(), keys.len());
    ensure!(t.size() == keys.len(), "size", "size {} but {} distinct points", t.size(), keys.len());
    let mut before = 0;
    for m in [1, 3, 5, 8, 12, 127, -1].iter() {
        let got: Vec<V3> = t.collect(*m).data.iter().map(v3).collect();
        ensure!(got.len() >= before && got.len() <= keys.len(), "collect count", "collect({}) returned {} points, less deep {}, the tree holds {}", m, got.len(), before, keys.len());
        before = got.len();
    }
    ensure!(before == keys.len(), "collect unlimited", "collect(-1) returned {} of {} points", before, keys.len());
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "A case is a generated point cloud with a non-degenerate bounding box (points on the box and on every cell boundary are the rule on these grids; a quarter contain point pairs that separate only after up to 300 halvings), or a flat cloud for the refusal check. Non-trivial: at least 3 distinct points; for depth-limited collection: the limit actually merges points. A few cases have up to 70000 points.",
        assumptions: &["coordinates are finite"],
        subs: vec![sub("content", 400_000, content).large(50), sub("degenerate", 50_000, degenerate).large(50), sub("depth", 400_000, depth).large(50), sub("big", 16, big)],
    }
}
