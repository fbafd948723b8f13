use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;

/// a tree of the points, sometimes one that held others before, was refused points, or is a copy
fn build(s: &mut Src, g: &Grid, pts: &[V3]) -> KdTree<Point3D> {
    let mut t = KdTree::default();
    let past = if pts.is_empty() { 0 } else { s.weighted(&[8, 1, 1, 1]) };
    if past == 1 || past == 2 {
        let other = points3(s, g, 1, 12);
        let _ = t.build(pc3(&other));
    }
    if past == 2 {
        let _ = t.build(pc3(&[]));
    }
    let _ = t.build(pc3(pts));
    if past == 3 {
        let u = t.clone();
        let _ = t.build(pc3(&points3(s, g, 1, 12)));
        return u;
    }
    t
}

fn query(s: &mut Src, g: &Grid, pts: &[V3]) -> V3 {
    match s.weighted(&[3, 2, 2]) {
        0 => g.v3(s),
        1 if !pts.is_empty() => *s.pick(pts),
        _ => {
            if pts.is_empty() {
                return g.v3(s);
            }
            let mut p = *s.pick(pts);
            p[s.below(3)] = g.c(s);
            p
        }
    }
}

fn contents(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let pts = points3(s, &g, 0, 80);
    c.desc(|| format!("{:?}", pts));
    c.nontrivial(pts.len() >= 3);
    let mut t: KdTree<Point3D> = KdTree::default();
    ensure!(t.size() == 0 && t.to_pointcloud().len() == 0, "empty tree", "a fresh tree is not empty");
    let r = t.build(pc3(&pts));
    if pts.is_empty() {
        ensure!(r.is_err(), "empty build", "building from no points must be refused");
        return Ok(());
    }
    ensure!(r.is_ok(), "build", "build failed on {} points", pts.len());
    ensure!(t.size() == pts.len(), "size", "size {} for {} points", t.size(), pts.len());
    let back: Vec<V3> = t.to_pointcloud().data.iter().map(v3).collect();
    ensure!(sorted_keys3(&back) == sorted_keys3(&pts), "content", "tree content {:?} differs from {:?}", back, pts);
    // rebuilding replaces the content
    let other = points3(s, &g, 1, 10);
    ensure!(t.build(pc3(&other)).is_ok(), "rebuild", "rebuild failed");
    let back: Vec<V3> = t.to_pointcloud().data.iter().map(v3).collect();
    ensure!(sorted_keys3(&back) == sorted_keys3(&other), "rebuild content", "rebuilt tree holds {:?}, expected {:?}", back, other);
    Ok(())
}

fn knearest(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let pts = points3(s, &g, 0, 60);
    let q = query(s, &g, &pts);
    let n = match s.weighted(&[4, 3, 1]) {
        0 => s.usize(0, 5),
        1 => s.usize(0, 20),
        _ => s.usize(0, 70),
    };
    c.desc(|| format!("points={:?} search={:?} n={}", pts, q, n));
    c.nontrivial(n >= 1 && pts.len() > n);
    c.label_if(n >= 2 && pts.len() > n, "several neighbours of a larger set");
    let t = build(s, &g, &pts);
    let mut res: Vec<Point3D> = Vec::new();
    t.knearest(&p3(&q), n, &mut res);
    let res: Vec<V3> = res.iter().map(v3).collect();
    let want = n.min(pts.len());
    ensure!(res.len() == want, "knearest count", "knearest n={} over {} points returned {}", n, pts.len(), res.len());
    // drawn from the set, with multiplicity
    let mut pool = sorted_keys3(&pts);
    for r in &res {
        match pool.binary_search(&key3(r)) {
            Ok(i) => {
                pool.remove(i);
            }
            Err(_) => return fail("knearest invented", format!("{:?} returned but not (that often) in the set", r)),
        }
    }
    let mut got: Vec<f64> = res.iter().map(|r| d2(r, &q)).collect();
    got.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut all: Vec<f64> = pts.iter().map(|r| d2(r, &q)).collect();
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ensure!(got[..] == all[..want], "knearest wrong", "squared distances {:?}, exhaustive search gives {:?}", got, &all[..want]);
    let near = t.nearest(&p3(&q)).map(|p| v3(&p));
    match (near, all.first()) {
        (None, None) => {}
        (Some(p), Some(d)) => ensure!(d2(&p, &q) == *d && pts.iter().any(|x| key3(x) == key3(&p)), "nearest wrong", "nearest {:?} at squared distance {}, best is {}", p, d2(&p, &q), d),
        (a, b) => return fail("nearest presence", format!("nearest {:?}, exhaustive {:?}", a, b)),
    }
    Ok(())
}

fn in_sphere(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let pts = points3(s, &g, 0, 80);
    let q = query(s, &g, &pts);
    // radius: free, or exactly reaching one of the points' axis distances
    let r = if s.bool() || pts.is_empty() { g.ext(s) } else {
        let p = *s.pick(&pts);
        let i = s.below(3);
        (p[i] - q[i]).abs()
    };
    let r = if r > 0.0 { r } else { g.ext(s) };
    let t = build(s, &g, &pts);
    let rad = Positive::new(r).unwrap();
    c.desc(|| format!("points={:?} centre={:?} radius={}", pts, q, r));
    let mut res: Vec<Point3D> = Vec::new();
    // results are appended to what the vector holds
    let held = if s.chance(1, 8) { points3(s, &g, 1, 3) } else { vec![] };
    res.extend(held.iter().map(p3));
    t.in_sphere(&Sphere { center: p3(&q), radius: rad }, &mut res);
    ensure!(res.len() >= held.len() && res.iter().zip(&held).all(|(a, b)| v3(a) == *b), "result replaced", "the vector held {:?} before in_sphere, now {:?}", held, res);
    res.drain(..held.len());
    let want: Vec<V3> = pts.iter().filter(|p| d2(p, &q) <= r * r).cloned().collect();
    let got: Vec<V3> = res.iter().map(v3).collect();
    c.nontrivial(!want.is_empty() && want.len() < pts.len());
    c.label_if(pts.iter().any(|p| d2(p, &q) == r * r), "point exactly on the sphere");
    ensure!(sorted_keys3(&got) == sorted_keys3(&want), "in_sphere", "in_sphere returned {:?}, exhaustive scan {:?}", got, want);
    Ok(())
}

fn in_box(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let pts = points3(s, &g, 0, 80);
    let q = query(s, &g, &pts);
    let mut sz = [0.0; 3];
    for i in 0..3 {
        sz[i] = if s.bool() || pts.is_empty() { g.ext(s) } else {
            let p = *s.pick(&pts);
            let d = 2.0 * (p[i] - q[i]).abs();
            if d > 0.0 { d } else { g.ext(s) }
        };
    }
    let t = build(s, &g, &pts);
    let pos = |x: f64| Positive::new(x).unwrap();
    let b = Box3D { center: p3(&q), size_x: pos(sz[0]), size_y: pos(sz[1]), size_z: pos(sz[2]) };
    c.desc(|| format!("points={:?} box centre={:?} sizes={:?}", pts, q, sz));
    let mut res: Vec<Point3D> = Vec::new();
    let held = if s.chance(1, 8) { points3(s, &g, 1, 3) } else { vec![] };
    res.extend(held.iter().map(p3));
    t.in_box(&b, &mut res);
    ensure!(res.len() >= held.len() && res.iter().zip(&held).all(|(a, b)| v3(a) == *b), "result replaced", "the vector held {:?} before in_box, now {:?}", held, res);
    res.drain(..held.len());
    let want: Vec<V3> = pts.iter().filter(|p| (0..3).all(|i| 2.0 * (p[i] - q[i]).abs() <= sz[i])).cloned().collect();
    let got: Vec<V3> = res.iter().map(v3).collect();
    c.nontrivial(!want.is_empty() && want.len() < pts.len());
    c.label_if(pts.iter().any(|p| (0..3).all(|i| 2.0 * (p[i] - q[i]).abs() <= sz[i]) && (0..3).any(|i| 2.0 * (p[i] - q[i]).abs() == sz[i])), "point exactly on a face");
    ensure!(sorted_keys3(&got) == sorted_keys3(&want), "in_box", "in_box returned {:?}, exhaustive scan {:?}", got, want);
    Ok(())
}

/// more points than one or two bytes count
fn big(s: &mut Src, c: &mut Ctx) -> Res {
    let g = wide(s);
    let n = many_n(s);
    let pts = many3(s, &g, n);
    let t = build(s, &g, &pts);
    c.nontrivial(true);
    c.label_if(n > 65536, "more than 65536 points");
    ensure!(t.size() == n, "size", "size {} for {} points", t.size(), n);
    let back: Vec<V3> = t.to_pointcloud().data.iter().map(v3).collect();
    ensure!(sorted_keys3(&back) == sorted_keys3(&pts), "content", "tree content of {} points differs", n);
    for _ in 0..3 {
        let q = query(s, &g, &pts);
        let mut dist: Vec<f64> = pts.iter().map(|p| d2(p, &q)).collect();
        dist.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let r2 = dist[s.below(n)];
        let want: Vec<V3> = pts.iter().filter(|p| d2(p, &q) <= r2).cloned().collect();
        // a radius whose square lies between the distances
        let r = r2.sqrt() * (1.0 + 1e-12);
        if r > 0.0 && pts.iter().all(|p| (d2(p, &q) <= r2) == (d2(p, &q) <= r * r)) {
            let mut res: Vec<Point3D> = Vec::new();
            t.in_sphere(&Sphere { center: p3(&q), radius: Positive::new(r).unwrap() }, &mut res);
            let got: Vec<V3> = res.iter().map(v3).collect();
            ensure!(sorted_keys3(&got) == sorted_keys3(&want), "in_sphere", "{} points, around {:?} radius {}: {} found, {} by exhaustive scan", n, q, r, got.len(), want.len());
        }
        let e = [2.0 * g.ext(s), 2.0 * g.ext(s), 2.0 * g.ext(s)];
        let pos = |x: f64| Positive::new(x).unwrap();
        let mut res: Vec<Point3D> = Vec::new();
        t.in_box(&Box3D { center: p3(&q), size_x: pos(e[0]), size_y: pos(e[1]), size_z: pos(e[2]) }, &mut res);
        let got: Vec<V3> = res.iter().map(v3).collect();
        let want: Vec<V3> = pts.iter().filter(|p| (0..3).all(|i| 2.0 * (p[i] - q[i]).abs() <= e[i])).cloned().collect();
        ensure!(sorted_keys3(&got) == sorted_keys3(&want), "in_box", "{} points, around {:?} sizes {:?}: {} found, {} by exhaustive scan", n, q, e, got.len(), want.len());
        let k = if s.bool() { s.usize(1, 300) } else { s.usize(1, 8) };
        let mut res: Vec<Point3D> = Vec::new();
        t.knearest(&p3(&q), k, &mut res);
        let mut got: Vec<f64> = res.iter().map(|r| d2(&v3(r), &q)).collect();
        got.sort_by(|a, b| a.partial_cmp(b).unwrap());
        ensure!(got[..] == dist[..k.min(n)], "knearest wrong", "{} of {} points near {:?}: squared distances {:?}", k, n, q, got);
    }
    c.desc(|| format!("{} points on {:?}", n, g));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "A case is a generated point set (general, planar, linear, clustered or duplicate-heavy layouts on dyadic grids) plus a query biased to set members and aligned positions; non-trivial when the query separates the set (some points in, some out; for k-nearest: 1 <= n < number of points; for content: at least 3 points). A few cases have up to 70000 points. Distinct = distinct choice sequences.",
        assumptions: &["coordinates are finite", "the result vector handed to knearest is empty"],
        subs: vec![sub("contents", 200_000, contents).large(50), sub("knearest", 600_000, knearest).large(50), sub("in_sphere", 600_000, in_sphere).large(50), sub("in_box", 600_000, in_box).large(50), sub("big", 16, big)],
    }
}
