use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;

type Tri = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;

fn tri(v: &[V3], f: &[[usize; 3]]) -> Tri {
    let mut m = Tri::default();
    for p in v {
        m.add_vertex(p3(p));
    }
    for x in f {
        m.try_add_connection(VId(x[0]), VId(x[1]), VId(x[2])).unwrap();
    }
    m
}
fn flat(v: &V3) -> V3 {
    [v[0], v[1], 0.0]
}
fn dist(a: &V3, b: &V3) -> f64 {
    d2(a, b).sqrt()
}
fn scale_of(v: &[V3]) -> f64 {
    v[..].iter().flat_map(|p| p[..].iter().map(|x| x.abs()).collect::<Vec<_>>()).fold(0.0, f64::max)
}
/// general numbers, no dyadic grid
fn real(s: &mut Src) -> f64 {
    match s.weighted(&[4, 3, 1]) {
        0 => s.int(-1000, 1000) as f64 / 8.0,
        1 => s.int(-1_000_000, 1_000_000) as f64 / 7919.0,
        _ => s.int(-1000, 1000) as f64 * 10f64.powi(s.int(-9, 9) as i32),
    }
}
fn real3(s: &mut Src) -> V3 {
    [real(s), real(s), real(s)]
}
fn unit(s: &mut Src) -> (Norm3D, V3) {
    loop {
        let v = [s.int(-9, 9) as f64, s.int(-9, 9) as f64, s.int(-9, 9) as f64];
        if v == [0.0; 3] {
            if s.exhausted() {
                return (Norm3D::norm_x(), [1.0, 0.0, 0.0]);
            }
            continue;
        }
        return (Norm3D::new(p3(&v)).unwrap(), mul3(&v, 1.0 / len3(&v)));
    }
}
fn near3(a: &V3, b: &V3, tol: f64) -> bool {
    (0..3).all(|i| a[i] == b[i] || (a[i] - b[i]).abs() <= tol)
}
fn pts(s: &mut Src, min: usize, max: usize) -> Vec<V3> {
    if s.huge || s.bool() {
        let g = Grid::gen(s);
        points3(s, &g, min, max)
    } else {
        s.list(min, max, real3)
    }
}

fn lengths(s: &mut Src, c: &mut Ctx) -> Res {
    let v = pts(s, 0, 30);
    let n = v.len();
    let f: Vec<V3> = v[..].iter().map(flat).collect();
    let open = |v: &[V3]| v.windows(2).map(|w| dist(&w[0], &w[1])).sum::<f64>();
    let closed = |v: &[V3]| open(v) + if n > 0 { dist(&v[n - 1], &v[0]) } else { 0.0 };
    let c3 = pc3(&v);
    let c2 = pc2(&v[..].iter().map(|p| [p[0], p[1]]).collect::<Vec<_>>());
    for (what, got, want) in [
        ("PointCloud3D", c3.length(), open(&v)),
        ("PointCloud2D", c2.length(), open(&f)),
        ("Polygon3D", Polygon3D::from(c3.clone()).length(), closed(&v)),
        ("Polygon2D", Polygon2D::from(c2.clone()).length(), closed(&f)),
    ] {
        ensure!((got - want).abs() <= 1e-12 * want, format!("length of {}", what), "{:?} has length {}, got {}", v, want, got);
    }
    if n >= 2 {
        let (a, b) = (s.below(n), s.below(n));
        let seg = LineSegment3D::new(p3(&v[a]), p3(&v[b]));
        let seg2 = LineSegment2D::new(p2(&[v[a][0], v[a][1]]), p2(&[v[b][0], v[b][1]]));
        for (what, got, want) in [("LineSegment3D", seg.length(), dist(&v[a], &v[b])), ("LineSegment2D", seg2.length(), dist(&f[a], &f[b]))] {
            ensure!((got - want).abs() <= 1e-12 * want, format!("length of {}", what), "{:?} {:?}: {} instead of {}", v[a], v[b], got, want);
        }
        let m = [v[a][0] / 2.0 + v[b][0] / 2.0, v[a][1] / 2.0 + v[b][1] / 2.0, v[a][2] / 2.0 + v[b][2] / 2.0];
        let tol = 1e-15 * 4.0 * scale_of(&[v[a], v[b]]);
        let g3 = seg.center_of_gravity().map(|p| v3(&p));
        ensure!(g3.map_or(false, |g| near3(&g, &m, tol)), "centre of gravity of LineSegment3D", "{:?} {:?}: {:?}", v[a], v[b], g3);
        let g2 = seg2.center_of_gravity().map(|p| [p.x(), p.y(), 0.0]);
        ensure!(g2.map_or(false, |g| near3(&g, &flat(&m), tol)), "centre of gravity of LineSegment2D", "{:?} {:?}: {:?}", v[a], v[b], g2);
        let q3 = v3(&center_3d(&p3(&v[a]), &p3(&v[b])));
        let q2 = center_2d(&pt2(&v[a]), &pt2(&v[b]));
        ensure!(near3(&q3, &m, tol) && near3(&[q2.x(), q2.y(), 0.0], &flat(&m), tol), "centre of two points", "{:?} {:?}: {:?} {:?}", v[a], v[b], q3, q2);
        let (h3, h2) = (v3(&<Point3D as IsBuildable3D>::center(&p3(&v[a]), &p3(&v[b]))), <Point2D as IsBuildable2D>::center(&pt2(&v[a]), &pt2(&v[b])));
        ensure!(near3(&h3, &m, tol) && near3(&[h2.x(), h2.y(), 0.0], &flat(&m), tol), "centre of two points", "{:?} {:?}: {:?} {:?}", v[a], v[b], h3, h2);
        let k = v3(&conn(&p3(&v[a]), &p3(&v[b])));
        ensure!(k == sub3(&v[b], &v[a]), "connection", "{:?} {:?}: {:?}", v[a], v[b], k);
    }
    c.nontrivial(n >= 3);
    c.label_if(n == 0, "empty");
    c.label_if(n == 1, "one point");
    c.desc(|| format!("{} points, length {}, closed {}: {:?}", n, open(&v), closed(&v), &v[..n.min(6)]));
    Ok(())
}
fn pt2(v: &V3) -> Point2D {
    Point2D::new(v[0], v[1])
}

fn gravity(s: &mut Src, c: &mut Ctx) -> Res {
    let v = pts(s, 0, 30);
    let n = v.len();
    let mut m = [0.0; 3];
    for d in 0..3 {
        m[d] = v[..].iter().map(|p| p[d] / n as f64).sum();
    }
    let tol = 1e-14 * (n as f64 + 1.0) * scale_of(&v);
    let c3 = pc3(&v);
    let c2 = pc2(&v[..].iter().map(|p| [p[0], p[1]]).collect::<Vec<_>>());
    let faces = if n >= 3 { gen_faces(s, n, 6) } else { vec![] };
    let mesh = tri(&v, &faces);
    let up = |p: Option<Point2D>| p.map(|p| [p.x(), p.y(), 0.0]);
    for (what, got, want) in [
        ("PointCloud3D", c3.center_of_gravity().map(|p| v3(&p)), m),
        ("PointCloud2D", up(c2.center_of_gravity()), flat(&m)),
        ("Polygon3D", Polygon3D::from(c3.clone()).center_of_gravity().map(|p| v3(&p)), m),
        ("Polygon2D", up(Polygon2D::from(c2.clone()).center_of_gravity()), flat(&m)),
        ("Mesh3D", mesh.center_of_gravity().map(|p| v3(&p)), m),
        ("SearchableMesh", SearchableMesh::<_, _, Vec<usize>>::new(mesh.clone()).center_of_gravity().map(|p| v3(&p)), m),
    ] {
        match got {
            None => ensure!(n == 0, format!("no centre of gravity of {}", what), "{:?}", v),
            Some(g) => {
                ensure!(n > 0, format!("centre of gravity of an empty {}", what), "{:?}", g);
                ensure!(near3(&g, &want, tol), format!("centre of gravity of {}", what), "{:?} has {:?}, got {:?}", v, want, g);
            }
        }
    }
    c.nontrivial(n >= 3);
    c.label_if(n == 0, "empty");
    c.desc(|| format!("{} points, centre {:?}", n, m));
    Ok(())
}

fn project(s: &mut Src, c: &mut Ctx) -> Res {
    let o = real3(s);
    let (u, uv) = unit(s);
    let (v, vv) = unit(s);
    let p = real3(s);
    let plane = <Plane3D<Point3D, Norm3D> as IsPlane3D<Point3D, Norm3D>>::new(p3(&o), u.clone(), v.clone());
    ensure!(plane.origin() == p3(&o) && plane.u() == u && plane.v() == v, "plane parts", "{:?}", plane);
    let q: Point2D = project_point_on_plane(&plane, &p3(&p));
    let rel = sub3(&p, &o);
    let want = [dot3(&uv, &rel), dot3(&vv, &rel)];
    let tol = 1e-14 * 4.0 * (scale_of(&[rel]) + scale_of(&[p, o]));
    ensure!((q.x() - want[0]).abs() <= tol && (q.y() - want[1]).abs() <= tol, "projection", "{:?} onto {:?} {:?} {:?}: {:?} instead of {:?}", p, o, uv, vv, q, want);
    let z: Point2D = project_point_on_plane(&plane, &p3(&o));
    ensure!(v2(&z) == [0.0, 0.0], "projection of the origin", "{:?}", z);
    let d = Plane3D::<Point3D, Norm3D>::default();
    let e: Point2D = project_point_on_plane(&d, &p3(&p));
    ensure!(v2(&e) == [p[0], p[1]], "projection onto the default plane", "{:?} gives {:?}", p, e);
    // moving the point along the normal of the plane changes nothing
    let n = cross3(&uv, &vv);
    let k = s.int(-8, 8) as f64;
    let r: Point2D = project_point_on_plane(&plane, &p3(&add3(&p, &mul3(&n, k))));
    ensure!((r.x() - q.x()).abs() <= tol + 1e-13 && (r.y() - q.y()).abs() <= tol + 1e-13, "projection depends on the distance to the plane", "{:?} + {} * {:?}", p, k, n);
    let f: Point2D = p3(&p).transform_to_2d();
    let h: Point3D = Point2D::new(p[0], p[1]).transform_to_3d(k);
    ensure!(v2(&f) == [p[0], p[1]] && v3(&h) == [p[0], p[1], k], "2D and 3D", "{:?} {:?}", f, h);
    c.nontrivial(rel != [0.0; 3] && n != [0.0; 3]);
    c.desc(|| format!("{:?} onto plane at {:?} along {:?} and {:?}", p, o, uv, vv));
    Ok(())
}

fn extrusion(s: &mut Src, c: &mut Ctx) -> Res {
    let v = pts(s, 0, 20);
    let dir = real3(s);
    let flatp: Vec<Point2D> = v[..].iter().map(pt2).collect();
    let (a, b) = extrude(&flatp, &p3(&dir));
    let a: Vec<V3> = a.data[..].iter().map(v3).collect();
    let b: Vec<V3> = b.data[..].iter().map(v3).collect();
    ensure!(a == v[..].iter().map(flat).collect::<Vec<_>>(), "extrusion start", "{:?} along {:?}: {:?}", v, dir, a);
    ensure!(b == v[..].iter().map(|p| add3(&flat(p), &dir)).collect::<Vec<_>>(), "extrusion end", "{:?} along {:?}: {:?}", v, dir, b);
    c.nontrivial(v.len() > 1 && dir != [0.0; 3]);
    c.desc(|| format!("{} points along {:?}", v.len(), dir));
    Ok(())
}

trait Shape: HasBoundingBox3DMaybe + IsMovable3D + IsMatrix4Transformable {
    fn list(&self) -> Vec<V3>;
}
impl Shape for PointCloud3D<Point3D> {
    fn list(&self) -> Vec<V3> {
        self.data[..].iter().map(v3).collect()
    }
}
impl Shape for Polygon3D<Point3D> {
    fn list(&self) -> Vec<V3> {
        (0..self.num_vertices()).map(|i| v3(&self.vertex(VId(i)).unwrap())).collect()
    }
}
impl Shape for LineSegment3D {
    fn list(&self) -> Vec<V3> {
        vec![v3(&self.start), v3(&self.end)]
    }
}
impl Shape for Tri {
    fn list(&self) -> Vec<V3> {
        (0..self.num_vertices()).map(|i| v3(&self.vertex(VId(i)).unwrap())).collect()
    }
}
fn bounds(v: &[V3]) -> Option<(V3, V3)> {
    let (mut lo, mut hi) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
    for p in v {
        for d in 0..3 {
            lo[d] = lo[d].min(p[d]);
            hi[d] = hi[d].max(p[d]);
        }
    }
    if (0..3).all(|d| lo[d] < hi[d]) {
        Some((lo, hi))
    } else {
        None
    }
}
fn resize<T: Shape>(s: &mut Src, c: &mut Ctx, mut x: T, what: &str) -> Res {
    let v = x.list();
    let b = bounds(&v);
    let size = [1.0 + s.draw(4000) as f64 / 64.0, 1.0 + s.draw(4000) as f64 / 7.0, (1 + s.draw(60)) as f64];
    let recentre = s.bool();
    if recentre {
        no_panic("center", || center(&mut x))?;
    } else {
        no_panic("set_size", || set_size(&mut x, [Positive::new(size[0]).unwrap(), Positive::new(size[1]).unwrap(), Positive::new(size[2]).unwrap()]))?;
    }
    let w = x.list();
    ensure!(w.len() == v.len(), format!("{} lost points", what), "{} of {}", w.len(), v.len());
    match b {
        None => ensure!(w == v, format!("{} without bounding box changed", what), "{:?} becomes {:?}", v, w),
        Some((lo, hi)) => {
            let mx = scale_of(&v);
            for d in 0..3 {
                let ext = hi[d] - lo[d];
                let (tol, ratio) = if recentre { (1e-14 * mx, 1.0) } else { (1e-14 * (mx / ext * size[d] + size[d]), size[d] / ext) };
                let wlo = w[..].iter().map(|p| p[d]).fold(f64::INFINITY, f64::min);
                let whi = w[..].iter().map(|p| p[d]).fold(f64::NEG_INFINITY, f64::max);
                if recentre {
                    ensure!((wlo + whi).abs() <= 4.0 * tol, format!("{} not centred", what), "{:?} becomes {:?}", v, w);
                } else {
                    ensure!((whi - wlo - size[d]).abs() <= 8.0 * tol, format!("{} has the wrong size", what), "{:?} sized to {:?} becomes {:?}", v, size, w);
                }
                for i in 0..v.len() {
                    ensure!(((w[i][d] - wlo) - (v[i][d] - lo[d]) * ratio).abs() <= 8.0 * tol, format!("{} changes its shape", what), "{:?} becomes {:?}", v, w);
                }
            }
        }
    }
    c.nontrivial(b.is_some());
    c.label_if(b.is_none(), "no bounding box");
    c.label_if(recentre, "recentre");
    c.desc(|| format!("{} of {} points within {:?}, {}", what, v.len(), b, if recentre { "centred".to_string() } else { format!("sized to {:?}", size) }));
    Ok(())
}
fn sizes(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let k = s.below(4);
    let v = if k == 2 { vec![g.v3(s), g.v3(s)] } else { points3(s, &g, 0, 12) };
    match k {
        0 => resize(s, c, pc3(&v), "PointCloud3D"),
        1 => resize(s, c, Polygon3D::from(pc3(&v)), "Polygon3D"),
        2 => {
            // a segment is no cloud, but moves and scales the same way
            resize(s, c, LineSegment3D::new(p3(&v[0]), p3(&v[1])), "LineSegment3D")
        }
        _ => {
            let f = if v.len() >= 3 { gen_faces(s, v.len(), 5) } else { vec![] };
            resize(s, c, tri(&v, &f), "Mesh3D")
        }
    }
}

/// scaling of a shape keeps the centre of its bounding box and multiplies its size
fn scaling(s: &mut Src, c: &mut Ctx) -> Res {
    let v = pts(s, 2, 12);
    let f = *s.pick(&[2.0, 0.5, 3.0, 0.1, 10.0, 1.0]);
    let pf = Positive::new(f).unwrap();
    let k = s.below(4);
    let v = if k == 2 { v[..2].to_vec() } else { v };
    let w = match k {
        0 => {
            let mut x = pc3(&v);
            x.scale(pf);
            x.list()
        }
        1 => {
            let mut x = Polygon3D::from(pc3(&v));
            x.scale(pf);
            x.list()
        }
        2 => {
            let mut x = LineSegment3D::new(p3(&v[0]), p3(&v[1]));
            x.scale(pf);
            x.list()
        }
        _ => {
            let mut x = tri(&v, &[]);
            x.scale(pf);
            x.list()
        }
    };
    ensure!(w.len() == v.len(), "scaling lost points", "{} of {}", w.len(), v.len());
    if let Some((lo, hi)) = bounds(&v) {
        let tol = 1e-14 * scale_of(&v) * (1.0 + f) * 8.0;
        for i in 0..v.len() {
            for d in 0..3 {
                let m = lo[d] + (hi[d] - lo[d]) / 2.0;
                ensure!((w[i][d] - (m + f * (v[i][d] - m))).abs() <= tol, "scaling about the centre", "{:?} scaled by {} about {} gives {:?}", v[i], f, m, w[i]);
            }
        }
        c.nontrivial(f != 1.0);
    } else {
        ensure!(w == v, "scaling without bounding box", "{:?} by {}: {:?}", v, f, w);
    }
    c.desc(|| format!("{:?} scaled by {}", v, f));
    Ok(())
}

fn normals(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let v = points3(s, &g, 3, 12);
    let faces = gen_faces(s, v.len(), 16);
    let m = tri(&v, &faces);
    let got: Vec<V3> = normals_of_mesh(&m)[..].iter().map(v3).collect();
    ensure!(got.len() == v.len(), "one normal per vertex", "{} for {}", got.len(), v.len());
    let mut sum = vec![[0.0; 3]; v.len()];
    let mut flats = false;
    for f in &faces {
        let n = cross3(&sub3(&v[f[1]], &v[f[0]]), &sub3(&v[f[2]], &v[f[0]]));
        let n = if n == [0.0; 3] {
            flats = true;
            [0.0, 0.0, 1.0]
        } else {
            mul3(&n, 1.0 / len3(&n))
        };
        let h = normal_of_face(&p3(&v[f[0]]), &p3(&v[f[1]]), &p3(&v[f[2]]));
        ensure!(near3(&v3(&h), &n, 1e-12), "normal of a face", "{:?}: {:?} instead of {:?}", f, h, n);
        for i in 0..3 {
            sum[f[i]] = add3(&sum[f[i]], &n);
        }
    }
    let mut judged = 0;
    for i in 0..v.len() {
        ensure!((len3(&got[i]) - 1.0).abs() < 1e-12, "vertex normal is no unit vector", "{:?}", got[i]);
        let l = len3(&sum[i]);
        if !faces[..].iter().any(|f| f.contains(&i)) {
            ensure!(got[i] == [0.0, 0.0, 1.0], "normal of an isolated vertex", "{:?}", got[i]);
        } else if l > 1e-6 {
            let want = mul3(&sum[i], 1.0 / l);
            ensure!(near3(&got[i], &want, 1e-8), "vertex normal", "vertex {} of {:?} {:?}: {:?} instead of {:?}", i, v, faces, got[i], want);
            judged += 1;
        }
    }
    c.nontrivial(judged >= 3 && faces.len() >= 2);
    c.label_if(flats, "degenerate face");
    c.desc(|| format!("{} vertices, faces {:?}", v.len(), faces));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "lengths, gravity: at least three points; project: point off the origin, directions not parallel; extrusion: two points, actual direction; sizes: a bounding box exists; scaling: factor other than 1; normals: three judged vertices and two faces",
        assumptions: &["clouds with a flat bounding box have none in this library and are left as they are by centre, set_size and scale", "normals whose contributions cancel out have no direction to judge"],
        subs: vec![
            sub("lengths", 300_000, lengths).large(50),
            sub("lengths-many", 16, lengths).huge(),
            sub("gravity-many", 16, gravity).huge(),
            sub("extrusion-many", 16, extrusion).huge(),
            sub("sizes-many", 16, sizes).huge(),
            sub("scaling-many", 16, scaling).huge(),
            sub("normals-many", 16, normals).huge(),
            sub("gravity", 300_000, gravity).large(50),
            sub("project", 300_000, project).large(50),
            sub("extrusion", 100_000, extrusion).large(50),
            sub("sizes", 300_000, sizes).large(50),
            sub("scaling", 200_000, scaling).large(50),
            sub("normals", 200_000, normals).large(50),
        ],
    }
}
