use super::c07_topology::{gen_manifold, strip};
use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;
use std::collections::{BTreeMap, BTreeSet};

type Ids = Vec<usize>;
type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Ids>;
type MD = Mesh3D<Point3D, PointCloud3D<Point3D>, DynamicPrecisionIndexVec>;
type K3 = [u64; 3];

fn build(v: &[V3], f: &[[usize; 3]]) -> M {
    let ids: Ids = f.concat();
    Mesh3D::from((pc3(v), ids))
}
fn verts<X: IsMesh<Point3D, Face3>>(m: &X) -> Vec<V3> {
    (0..m.num_vertices()).map(|i| v3(&m.vertex(VId(i)).unwrap())).collect()
}
fn faces<X: IsMesh<Point3D, Face3>>(m: &X) -> Vec<[usize; 3]> {
    (0..m.num_faces()).map(|i| m.face_vertex_ids(FId(i)).unwrap()).map(|f| [f.a.0, f.b.0, f.c.0]).collect()
}
/// rotation of a corner list that starts with its smallest corner; keeps the orientation
fn cyc<T: Copy + Ord>(f: [T; 3]) -> [T; 3] {
    let (a, b, c) = ([f[0], f[1], f[2]], [f[1], f[2], f[0]], [f[2], f[0], f[1]]);
    a.min(b).min(c)
}
fn counted<T: Ord>(it: impl Iterator<Item = T>) -> BTreeMap<T, usize> {
    let mut m = BTreeMap::new();
    for x in it {
        *m.entry(x).or_insert(0) += 1;
    }
    m
}
fn any_points(s: &mut Src, n: usize) -> Vec<V3> {
    let g = Grid::gen(s);
    let flat = s.chance(1, 6);
    if n > 5000 {
        return many3(s, &Grid { range: 800, div: 8.0, off: 0.0, fine: 0.0 }, n);
    }
    (0..n)
        .map(|_| {
            let mut p = g.v3(s);
            if flat {
                p[2] = 0.0;
            }
            p
        })
        .collect()
}
fn set(f: &[usize; 3]) -> [usize; 3] {
    let mut f = *f;
    f.sort();
    f
}

fn unify(s: &mut Src, c: &mut Ctx) -> Res {
    let many = std::mem::take(&mut s.huge);
    let orientable = many || s.chance(3, 4);
    let (n, mut fs) = if many {
        let (n, f, _) = strip(s);
        (n, f)
    } else if orientable {
        gen_manifold(s)
    } else {
        let n = s.usize(3, 9);
        (n, gen_faces(s, n, 20))
    };
    let mut flipped = 0;
    let mut r = Rng::new(s.draw(1 << 30));
    for f in &mut fs {
        if if many { r.next() % 2 == 0 } else { s.chance(1, 2) } {
            f.swap(1, 2);
            flipped += 1;
        }
    }
    let pts = any_points(s, n);
    c.desc(|| format!("{} vertices {:?}, faces {:?}", n, &pts[..pts.len().min(20)], &fs[..fs.len().min(60)]));
    let m = build(&pts, &fs);
    let r: M = match no_panic("unify_faces", || unify_faces(&m))? {
        Ok(r) => r,
        Err(e) => return fail("unify refused", format!("unify_faces failed with {:?}", e)),
    };
    ensure!(verts(&r) == pts, "unify vertices", "vertices changed from {:?} to {:?}", pts, verts(&r));
    let rf = faces(&r);
    ensure!(counted(rf.iter().map(set)) == counted(fs.iter().map(set)), "unify faces", "faces changed from {:?} to {:?}", fs, rf);
    let dirs = |fs: &[[usize; 3]]| counted(fs.iter().flat_map(|f| vec![(f[0], f[1]), (f[1], f[2]), (f[2], f[0])]));
    let before = dirs(&fs);
    c.nontrivial(orientable && before.values().any(|n| *n > 1));
    c.label_if(orientable && flipped == 0, "already unified");
    c.label_if(!orientable, "face soup");
    if orientable {
        let after = dirs(&rf);
        if let Some((e, k)) = after.iter().find(|(_, k)| **k > 1) {
            return fail("neighbours disagree", format!("{} faces run along edge {:?} in the same direction; faces {:?} became {:?}", k, e, fs, rf));
        }
    }
    Ok(())
}

/// faces over few positions, with repeated vertices, repeated faces and degenerate faces
fn dirty(s: &mut Src) -> (Vec<V3>, Vec<[usize; 3]>) {
    let g = if s.bool() { Grid { range: 1, div: 1.0, off: 0.0, fine: 0.0 } } else { Grid::gen(s) };
    let many = s.huge;
    let mut pts: Vec<V3> = if many { let g = wide(s); points3(s, &g, 3, 14) } else { s.list(3, 14, |s| {
        let mut p = g.v3(s);
        for x in p.iter_mut() {
            if *x == 0.0 && s.chance(1, 4) {
                *x = -0.0;
            }
        }
        p
    }) };
    for _ in 0..s.below(4) {
        let p = *s.pick(&pts);
        pts.push(p);
    }
    let n = pts.len();
    let mut fs: Vec<[usize; 3]> = s.list(0, 20, |s| if s.chance(1, 8) { [s.below(n), s.below(n), s.below(n)] } else { gen_face(s, n) });
    if many {
        let mut r = Rng::new(s.draw(1 << 30));
        let mut one = || (r.next() % n as u64) as usize;
        fs = (0..many_n(s)).map(|i| if i % 3 == 0 { [i % n, (i + 1) % n, (i + 2) % n] } else { [one(), one(), one()] }).collect();
    }
    for _ in 0..s.below(4) {
        if !fs.is_empty() {
            let f = *s.pick(&fs);
            fs.push(match s.below(3) {
                0 => f,
                1 => [f[1], f[2], f[0]],
                _ => [f[0], f[2], f[1]],
            });
        }
    }
    (pts, fs)
}

fn heal(s: &mut Src, c: &mut Ctx) -> Res {
    let (pts, fs) = dirty(s);
    c.desc(|| format!("vertices {:?}, faces {:?}", pts, fs));
    let m = build(&pts, &fs);
    let r: M = match no_panic("heal_mesh", || heal_mesh(&m))? {
        Ok(r) => r,
        Err(e) => return fail("heal refused", format!("heal_mesh failed with {:?}", e)),
    };
    let key = |f: &[usize; 3], p: &[V3]| cyc([key3(&p[f[0]]), key3(&p[f[1]]), key3(&p[f[2]])]);
    let want: BTreeSet<[K3; 3]> = fs.iter().map(|f| key(f, &pts)).filter(|k| k[0] != k[1] && k[1] != k[2] && k[0] != k[2]).collect();
    let (rv, rf) = (verts(&r), faces(&r));
    let got = counted(rf.iter().map(|f| key(f, &rv)));
    c.nontrivial(want.len() < fs.len() && !want.is_empty());
    for (k, n) in &got {
        ensure!(want.contains(k), "heal invents a face", "face {:?} of the result is not a face of the input {:?}", show(k), fs);
        ensure!(*n == 1, "heal keeps duplicates", "face {:?} occurs {} times after healing", show(k), n);
    }
    for k in &want {
        ensure!(got.contains_key(k), "heal loses a face", "face {:?} is gone", show(k));
    }
    let all: BTreeSet<K3> = pts.iter().map(key3).collect();
    let rk: BTreeSet<K3> = rv.iter().map(key3).collect();
    ensure!(rk.is_subset(&all), "heal invents a vertex", "vertices {:?} from {:?}", rv, pts);
    ensure!(rk.len() == rv.len(), "heal keeps equal vertices", "vertices {:?}", rv);
    // healing a healed mesh changes nothing
    let r2: M = heal_mesh(&r).map_err(|e| Fail { sig: "heal twice".into(), msg: format!("{:?}", e) })?;
    ensure!(faces(&r2).len() == rf.len(), "heal twice", "{} faces, then {}", rf.len(), r2.num_faces());
    Ok(())
}
fn show(k: &[K3; 3]) -> Vec<V3> {
    k.iter().map(|x| [f64::from_bits(x[0]), f64::from_bits(x[1]), f64::from_bits(x[2])]).collect()
}

fn cluster(s: &mut Src, c: &mut Ctx) -> Res {
    let unit = *s.pick(&[1.0, 1.0, 1.0, 1.0 / 1073741824.0, 1073741824.0]);
    let size = unit * *s.pick(&[1.0, 0.5, 2.0, 0.25, 1.0, 0.5, 2.0, 0.25, 1.0 / 1048576.0]);
    // at times beside the borders of the cells
    let fine = if s.chance(1, 4) { unit / 4194304.0 } else { 0.0 };
    let g = match s.below(3) {
        0 => Grid { range: 16, div: 4.0 / unit, off: 0.0, fine },
        1 => Grid { range: 64, div: 32.0 / unit, off: 0.0, fine },
        _ => Grid { range: 40, div: 8.0 / unit, off: 512.0 * unit, fine },
    };
    let base: Vec<V3> = (0..1 + s.below(4)).map(|_| g.v3(s)).collect();
    let small = Grid { range: 4, div: 32.0 / size, off: 0.0, fine: 0.0 };
    let many = s.huge;
    let pts: Vec<V3> = if many { points3(s, &g, 3, 16) } else { s.list(3, 16, |s| if s.bool() { g.v3(s) } else { let b = *s.pick(&base); add3(&b, &small.v3(s)) }) };
    let fs = if many {
        let (mut r, n) = (Rng::new(s.draw(1 << 30)), pts.len());
        (0..many_n(s)).map(|i| { let (a, d) = (r.next() as usize % n, 1 + r.next() as usize % (n - 2)); if i % 2 == 0 { [a, (a + d) % n, (a + d + 1) % n] } else { [a, (a + 1) % n, (a + 2) % n] } }).collect()
    } else {
        gen_faces(s, pts.len(), 20)
    };
    c.desc(|| format!("cluster size {}, vertices {:?}, faces {:?}", size, pts, fs));
    let m = build(&pts, &fs);
    let lo: V3 = [0, 1, 2].map(|k| pts.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min));
    let hi: V3 = [0, 1, 2].map(|k| pts.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max));
    let too_big = (0..3).any(|k| (hi[k] - lo[k]) / size < 2.0);
    let r: M = match no_panic("cluster_vertices", || cluster_vertices(&m, size))? {
        Ok(r) => r,
        Err(e) => {
            ensure!(too_big, "cluster refused", "cluster_vertices failed with {:?} although the mesh spans {:?}", e, sub3(&hi, &lo));
            return Ok(());
        }
    };
    ensure!(!too_big, "cluster accepted", "clustered although the mesh spans only {:?} with cluster size {}", sub3(&hi, &lo), size);
    let cell = |p: &V3| [((p[0] - lo[0]) / size).floor() as i64, ((p[1] - lo[1]) / size).floor() as i64, ((p[2] - lo[2]) / size).floor() as i64];
    let (rv, rf) = (verts(&r), faces(&r));
    let input: BTreeSet<K3> = pts.iter().map(key3).collect();
    let mut cells = BTreeMap::new();
    for v in &rv {
        ensure!(input.contains(&key3(v)), "cluster invents a vertex", "vertex {:?}", v);
        ensure!(cells.insert(cell(v), *v).is_none(), "cluster leaves neighbours", "two vertices in the cell of {:?}", v);
    }
    // every face with its corners in three different cells survives, with corners inside those cells; others vanish
    let fc = |f: &[usize; 3], p: &[V3]| cyc([cell(&p[f[0]]), cell(&p[f[1]]), cell(&p[f[2]])]);
    let want: BTreeSet<_> = fs.iter().map(|f| fc(f, &pts)).filter(|k| k[0] != k[1] && k[1] != k[2] && k[0] != k[2]).collect();
    let got = counted(rf.iter().map(|f| fc(f, &rv)));
    for (k, n) in &got {
        ensure!(want.contains(k), "cluster invents a face", "a face spans cells {:?}", k);
        ensure!(*n == 1, "cluster keeps duplicates", "{} faces span cells {:?}", n, k);
    }
    for k in &want {
        ensure!(got.contains_key(k), "cluster loses a face", "no face spans cells {:?}", k);
    }
    let merged = rv.len() < fs.concat().iter().collect::<BTreeSet<_>>().len();
    c.nontrivial(merged && !want.is_empty());
    Ok(())
}

fn subdivision(s: &mut Src, c: &mut Ctx) -> Res {
    let (n, fs) = if s.huge {
        let (n, f, _) = strip(s);
        (n, f)
    } else if s.bool() {
        gen_manifold(s)
    } else {
        let n = s.usize(3, 9);
        (n, gen_faces(s, n, 16))
    };
    let pts = any_points(s, n);
    c.desc(|| format!("vertices {:?}, faces {:?}", pts, fs));
    let m = build(&pts, &fs);
    if s.bool() {
        let r: M = subdivide::linear(&m).map_err(|e| Fail { sig: "subdivide refused".into(), msg: format!("{:?}", e) })?;
        sub_check(c, &pts, &fs, &r)
    } else {
        let r: MD = subdivide::linear(&m).map_err(|e| Fail { sig: "subdivide refused".into(), msg: format!("{:?}", e) })?;
        sub_check(c, &pts, &fs, &r)
    }
}
fn sub_check<X: IsMesh<Point3D, Face3>>(c: &mut Ctx, pts: &[V3], fs: &[[usize; 3]], r: &X) -> Res {
    let (rv, rf) = (verts(r), faces(r));
    ensure!(rv.len() >= pts.len() && rv[..pts.len()] == *pts, "subdivide vertices", "original vertices changed");
    let edges: BTreeSet<(usize, usize)> = fs.iter().flat_map(|f| vec![(f[0], f[1]), (f[1], f[2]), (f[2], f[0])]).map(|(a, b)| (a.min(b), a.max(b))).collect();
    c.nontrivial(edges.len() < 3 * fs.len());
    ensure!(rv.len() == pts.len() + edges.len(), "subdivide vertex count", "{} vertices from {} with {} edges", rv.len(), pts.len(), edges.len());
    ensure!(rf.len() == 4 * fs.len(), "subdivide face count", "{} faces from {}", rf.len(), fs.len());
    let mid = |a: V3, b: V3| mul3(&add3(&a, &b), 0.5);
    let mut want = vec![];
    for f in fs {
        let (p, q, r) = (pts[f[0]], pts[f[1]], pts[f[2]]);
        let (pq, qr, rp) = (mid(p, q), mid(q, r), mid(r, p));
        for t in [[p, pq, rp], [pq, q, qr], [pq, qr, rp], [rp, qr, r]].iter() {
            want.push(cyc([key3(&t[0]), key3(&t[1]), key3(&t[2])]));
        }
    }
    let got = rf.iter().map(|f| cyc([key3(&rv[f[0]]), key3(&rv[f[1]]), key3(&rv[f[2]])]));
    let (want, got) = (counted(want.into_iter()), counted(got));
    for (k, n) in &want {
        ensure!(got.get(k) == Some(n), "subdivide faces", "face {:?} occurs {:?} times, expected {}", show(k), got.get(k), n);
    }
    // faces that met along an edge still do: every directed edge of the input became two, opposed as before
    let before = counted(fs.iter().flat_map(|f| vec![(f[0], f[1]), (f[1], f[2]), (f[2], f[0])]));
    let after = counted(rf.iter().flat_map(|f| vec![(f[0], f[1]), (f[1], f[2]), (f[2], f[0])]));
    let open = |d: &BTreeMap<(usize, usize), usize>| d.iter().map(|((a, b), n)| (*n as i64 - d.get(&(*b, *a)).cloned().unwrap_or(0) as i64).max(0)).sum::<i64>();
    ensure!(open(&after) == 2 * open(&before), "subdivide boundary", "{} unmatched edges became {}", open(&before), open(&after));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "A case is a mesh (orientable or a face soup, with randomly flipped faces; or with repeated vertices, repeated and degenerate faces; or with vertices clustered around a few places). Non-trivial: unify has neighbours that disagree, heal has something to remove and something to keep, clustering merged vertices and kept a face, subdivision has a shared edge.",
        assumptions: &["faces of meshes given to unify are judged for agreement only if the mesh is orientable with at most two faces per edge", "coordinates are dyadic, so midpoints and cells are exact", "cluster cells are aligned to the minimum of the bounding box"],
        subs: vec![sub("unify", 300_000, unify).large(50), sub("heal", 400_000, heal).large(50), sub("cluster", 400_000, cluster).large(50), sub("subdivision", 200_000, subdivision).large(50), sub("unify-many", 16, unify).huge(), sub("heal-many", 16, heal).huge(), sub("cluster-many", 16, cluster).huge(), sub("subdivision-many", 16, subdivision).huge()],
    }
}
