use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;

type M = Vec<Vec<f64>>;
fn m3(m: &Matrix3) -> M {
    m.data.iter().map(|r| r.to_vec()).collect()
}
fn m4(m: &Matrix4) -> M {
    m.data.iter().map(|r| r.to_vec()).collect()
}
fn to3(m: &M) -> Matrix3 {
    let mut r = Matrix3::zeroes();
    for i in 0..3 {
        for j in 0..3 {
            r.data[i][j] = m[i][j];
        }
    }
    r
}
fn to4(m: &M) -> Matrix4 {
    let mut r = Matrix4::zeroes();
    for i in 0..4 {
        for j in 0..4 {
            r.data[i][j] = m[i][j];
        }
    }
    r
}
fn ident(n: usize) -> M {
    (0..n).map(|i| (0..n).map(|j| (i == j) as u8 as f64).collect()).collect()
}
fn mul(a: &M, b: &M) -> M {
    let n = a.len();
    let mut r = vec![vec![0.0; n]; n];
    for i in 0..n {
        for k in 0..n {
            for j in 0..n {
                r[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    r
}
/// affine application
fn app(m: &M, v: &[f64]) -> Vec<f64> {
    let d = m.len() - 1;
    (0..d).map(|i| (0..d).map(|j| m[i][j] * v[j]).sum::<f64>() + m[i][d]).collect()
}
fn near(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x - y).abs() <= tol)
}
fn near_m(a: &M, b: &M, tol: f64) -> bool {
    a.iter().zip(b).all(|(x, y)| near(x, y, tol))
}
fn gen_m(s: &mut Src, n: usize, affine: bool, wide: bool) -> M {
    let div = if wide { *s.pick(&[1.0, 2.0, 4.0, 4.0, 1099511627776.0, 1.0 / 1073741824.0]) } else { *s.pick(&[1.0, 2.0, 4.0]) };
    let sparse = s.chance(1, 3);
    let mut m: M = (0..n).map(|_| (0..n).map(|_| if sparse && s.bool() { 0.0 } else { s.int(-16, 16) as f64 / div }).collect()).collect();
    if affine {
        for j in 0..n {
            m[n - 1][j] = (j == n - 1) as u8 as f64;
        }
    }
    m
}

/// exact arithmetic on small dyadic entries
fn algebra(s: &mut Src, c: &mut Ctx) -> Res {
    let n = 3 + s.below(2);
    let (a, b, d) = (gen_m(s, n, false, true), gen_m(s, n, false, true), gen_m(s, n, false, true));
    let k = s.int(-16, 16) as f64 / *s.pick(&[4.0, 3.0, 1e9, 1e-9]);
    c.desc(|| format!("{:?} * {:?}", a, b));
    c.nontrivial(mul(&a, &b) != mul(&b, &a));
    let ab = mul(&a, &b);
    let scaled: M = a.iter().map(|r| r.iter().map(|x| x * k).collect()).collect();
    macro_rules! check {
        ($to:ident, $from:ident, $ty:ident) => {{
            let (x, y, z) = ($to(&a), $to(&b), $to(&d));
            ensure!($from(&(&x * &y)) == ab, "product", "&a * &b: {:?} * {:?} = {:?}", a, b, &x * &y);
            ensure!($from(&(x.clone() * y.clone())) == ab, "product", "a * b: {:?} * {:?} = {:?}", a, b, x * y);
            ensure!($from(&(x.clone() * &y)) == ab, "product", "a * &b: {:?} * {:?} = {:?}", a, b, x * &y);
            ensure!($from(&(&x * &y * &z)) == $from(&(&x * &(&y * &z))), "associativity", "{:?} {:?} {:?}", a, b, d);
            ensure!($from(&(&x * k)) == scaled && $from(&(x.clone() * k)) == scaled, "scalar product", "{:?} * {}", a, k);
            ensure!($from(&$ty::identity()) == ident(n) && $from(&$ty::default()) == ident(n), "identity", "{:?}", $ty::identity());
            ensure!($from(&$ty::zeroes()).iter().flatten().all(|x| *x == 0.0), "zeroes", "{:?}", $ty::zeroes());
            ensure!(&x * &$ty::identity() == x && &$ty::identity() * &x == x, "identity", "{:?}", a);
            ensure!((x == y) == (a == b) && x.partial_cmp(&y) == a.partial_cmp(&b) && x.clone() == x, "comparison", "{:?} {:?}", a, b);
        }};
    }
    if n == 3 {
        check!(to3, m3, Matrix3)
    } else {
        check!(to4, m4, Matrix4)
    }
    Ok(())
}

const PLAIN: Grid = Grid { range: 64, div: 4.0, off: 0.0, fine: 0.0 };
fn gen_points(s: &mut Src, g: &Grid, d: usize, max: usize) -> Vec<Vec<f64>> {
    points3(s, g, 0, max).into_iter().map(|p| p[..d].to_vec()).collect()
}
fn q2(v: &[f64]) -> Point2D {
    Point2D::new(v[0], v[1])
}
fn q3(v: &[f64]) -> Point3D {
    Point3D::new(v[0], v[1], v[2])
}

trait Shape: Clone + PartialEq + std::fmt::Debug {
    type Mat;
    fn build(p: &[Vec<f64>]) -> Self;
    fn coords(&self) -> Vec<Vec<f64>>;
    fn mat(m: &M) -> Self::Mat;
    fn by_value(&self, m: &Self::Mat) -> Self;
    fn in_place(&mut self, m: &Self::Mat);
}
macro_rules! shape {
    ($t:ty, $m:ty, $to:ident, $tr:ident, $build:expr, $coords:expr) => {
        impl Shape for $t {
            type Mat = $m;
            fn build(p: &[Vec<f64>]) -> Self {
                let f: fn(&[Vec<f64>]) -> Self = $build;
                f(p)
            }
            fn coords(&self) -> Vec<Vec<f64>> {
                let f: fn(&Self) -> Vec<Vec<f64>> = $coords;
                f(self)
            }
            fn mat(m: &M) -> $m {
                $to(m)
            }
            fn by_value(&self, m: &$m) -> Self {
                $tr::transformed(self, m)
            }
            fn in_place(&mut self, m: &$m) {
                $tr::transform(self, m)
            }
        }
    };
}
fn c2(p: &Point2D) -> Vec<f64> {
    vec![p.x, p.y]
}
fn c3(p: &Point3D) -> Vec<f64> {
    vec![p.x, p.y, p.z]
}
shape!(Point2D, Matrix3, to3, IsMatrix3Transformable, |p| q2(&p[0]), |x| vec![c2(x)]);
shape!(Point3D, Matrix4, to4, IsMatrix4Transformable, |p| q3(&p[0]), |x| vec![c3(x)]);
shape!(LineSegment2D, Matrix3, to3, IsMatrix3Transformable, |p| LineSegment2D::new(q2(&p[0]), q2(&p[1])), |x| vec![c2(&x.start), c2(&x.end)]);
shape!(LineSegment3D, Matrix4, to4, IsMatrix4Transformable, |p| LineSegment3D::new(q3(&p[0]), q3(&p[1])), |x| vec![c3(&x.start), c3(&x.end)]);
shape!(PointCloud2D<Point2D>, Matrix3, to3, IsMatrix3Transformable, |p| p.iter().map(|x| q2(x)).collect::<Vec<_>>().into(), |x| x.data.iter().map(c2).collect());
shape!(PointCloud3D<Point3D>, Matrix4, to4, IsMatrix4Transformable, |p| p.iter().map(|x| q3(x)).collect::<Vec<_>>().into(), |x| x.data.iter().map(c3).collect());
shape!(
    Polygon2D<Point2D>, Matrix3, to3, IsMatrix3Transformable,
    |p| { let mut r = Polygon2D::default(); for x in p { r.add_vertex(q2(x)); } r },
    |x| (0..x.num_vertices()).map(|i| c2(&x.vertex(VId(i)).unwrap())).collect()
);
shape!(
    Polygon3D<Point3D>, Matrix4, to4, IsMatrix4Transformable,
    |p| { let mut r = Polygon3D::default(); for x in p { r.add_vertex(q3(x)); } r },
    |x| (0..x.num_vertices()).map(|i| c3(&x.vertex(VId(i)).unwrap())).collect()
);
#[derive(Clone, Debug, PartialEq)]
struct Tri(Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>);
shape!(
    Tri, Matrix4, to4, TriTransform,
    |p| {
        let mut m = Mesh3D::default();
        for x in p {
            m.add_vertex(q3(x));
        }
        for i in 2..p.len() {
            m.try_add_connection(VId(i - 2), VId(i), VId(i - 1)).unwrap();
        }
        Tri(m)
    },
    |x| {
        for i in 0..x.0.num_faces() {
            assert_eq!(x.0.face_vertex_ids(FId(i)).map(|f| [f.a.0, f.b.0, f.c.0]), Some([i, i + 2, i + 1]), "transforming a mesh changes its faces");
        }
        (0..x.0.num_vertices()).map(|i| c3(&x.0.vertex(VId(i)).unwrap())).collect()
    }
);
struct TriTransform;
impl TriTransform {
    fn transformed(x: &Tri, m: &Matrix4) -> Tri {
        Tri(x.0.transformed(m))
    }
    fn transform(x: &mut Tri, m: &Matrix4) {
        x.0.transform(m)
    }
}

fn shape<S: Shape>(s: &mut Src, c: &mut Ctx, what: &'static str, d: usize, fixed: usize) -> Res {
    // entries or coordinates are far from one, not both: everything stays exact
    let wide = s.bool();
    let g = if wide { PLAIN } else { Grid::gen(s) };
    let mut pts = gen_points(s, &g, d, 20);
    if fixed > 0 {
        while pts.len() < fixed {
            pts.push(vec![s.int(-9, 9) as f64; d]);
        }
        pts.truncate(fixed);
    }
    let (a, b) = (gen_m(s, d + 1, true, wide), gen_m(s, d + 1, true, wide));
    c.label(what);
    c.desc(|| format!("{} {:?} by {:?}", what, pts, a));
    c.nontrivial(!pts.is_empty() && a != ident(d + 1));
    let x = S::build(&pts);
    let y = no_panic("transformed", || x.by_value(&S::mat(&a)))?;
    let want: Vec<Vec<f64>> = pts.iter().map(|p| app(&a, p)).collect();
    ensure!(y.coords() == want, "transformed", "{} {:?} by {:?} is {:?}", what, pts, a, y.coords());
    ensure!(x.coords() == pts, "transformed alters its source", "{} {:?} became {:?}", what, pts, x.coords());
    let mut z = x.clone();
    z.in_place(&S::mat(&a));
    ensure!(z == y, "transform and transformed differ", "{} {:?} by {:?}: {:?} and {:?}", what, pts, a, z, y);
    ensure!(x.by_value(&S::mat(&ident(d + 1))) == x, "identity changes", "{} {:?}", what, pts);
    // any last row: a container does what its points do
    let pr = gen_m(s, d + 1, false, wide);
    let single: Vec<Vec<f64>> = match d {
        2 => pts.iter().map(|p| v2(&q2(p).transformed(&to3(&pr))).to_vec()).collect(),
        _ => pts.iter().map(|p| v3(&q3(p).transformed(&to4(&pr))).to_vec()).collect(),
    };
    let mut z = x.clone();
    z.in_place(&S::mat(&pr));
    ensure!(z.coords() == single && x.by_value(&S::mat(&pr)) == z, "not point by point", "{} {:?} by {:?} is {:?}, the points become {:?}", what, pts, pr, z.coords(), single);
    // first b, then a
    let ba = x.by_value(&S::mat(&b)).by_value(&S::mat(&a));
    let once = x.by_value(&S::mat(&mul(&a, &b)));
    ensure!(ba.coords() == once.coords(), "product is not the factors in turn", "{} {:?} by {:?} and {:?}: {:?} and {:?}", what, pts, b, a, ba.coords(), once.coords());
    Ok(())
}
fn shapes(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(9) {
        0 => shape::<PointCloud2D<Point2D>>(s, c, "PointCloud2D", 2, 0),
        1 => shape::<PointCloud3D<Point3D>>(s, c, "PointCloud3D", 3, 0),
        2 => shape::<Polygon2D<Point2D>>(s, c, "Polygon2D", 2, 0),
        3 => shape::<Polygon3D<Point3D>>(s, c, "Polygon3D", 3, 0),
        4 => shape::<LineSegment2D>(s, c, "LineSegment2D", 2, 2),
        5 => shape::<LineSegment3D>(s, c, "LineSegment3D", 3, 2),
        6 => shape::<Point2D>(s, c, "Point2D", 2, 1),
        7 => shape::<Point3D>(s, c, "Point3D", 3, 1),
        _ => shape::<Tri>(s, c, "Mesh3D", 3, 0),
    }
}

fn many(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(5) {
        0 => shape::<PointCloud2D<Point2D>>(s, c, "PointCloud2D", 2, 0),
        1 => shape::<PointCloud3D<Point3D>>(s, c, "PointCloud3D", 3, 0),
        2 => shape::<Polygon2D<Point2D>>(s, c, "Polygon2D", 2, 0),
        3 => shape::<Polygon3D<Point3D>>(s, c, "Polygon3D", 3, 0),
        _ => shape::<Tri>(s, c, "Mesh3D", 3, 0),
    }
}

fn angle(s: &mut Src) -> f64 {
    match s.weighted(&[8, 8, 8, 1, 1]) {
        0 => s.int(-8, 8) as f64 * std::f64::consts::PI / 4.0,
        1 => s.int(-700, 700) as f64 / 100.0,
        2 => s.int(-3, 3) as f64,
        // many turns, hardly a turn
        3 => s.int(-700, 700) as f64 * 123456.75,
        _ => s.int(-700, 700) as f64 / 3e11,
    }
}
fn rot(axis: usize, r: f64) -> M {
    // right-handed rotation about a coordinate axis
    let mut m = ident(4);
    let (i, j) = ((axis + 1) % 3, (axis + 2) % 3);
    m[i][i] = r.cos();
    m[j][j] = r.cos();
    m[i][j] = -r.sin();
    m[j][i] = r.sin();
    m
}

fn motions(s: &mut Src, c: &mut Ctx) -> Res {
    let g = if s.bool() { PLAIN } else { Grid::gen(s) };
    let p = g.v3(s);
    let t = g.v3(s);
    let (x, y, z) = (angle(s), angle(s), angle(s));
    c.desc(|| format!("{:?} by {:?}, angles {} {} {}", p, t, x, y, z));
    c.nontrivial(p != [0.0; 3] && t != [0.0; 3] && x != 0.0);
    // exact ones
    let q = p2(&[p[0], p[1]]);
    let mut w = v2(&q.transformed(&Matrix3::translation(t[0], t[1])));
    ensure!(w == [p[0] + t[0], p[1] + t[1]], "translation", "2D {:?} by {:?} is {:?}", p, t, w);
    w = v2(&q.transformed(&Matrix3::scale(t[0], t[1])));
    ensure!(w == [p[0] * t[0], p[1] * t[1]], "scale", "2D {:?} by {:?} is {:?}", p, t, w);
    let r = p3(&p);
    let mut u = v3(&r.transformed(&Matrix4::translation(t[0], t[1], t[2])));
    ensure!(u == add3(&p, &t), "translation", "3D {:?} by {:?} is {:?}", p, t, u);
    u = v3(&r.transformed(&Matrix4::scale(t[0], t[1], t[2])));
    ensure!(u == [p[0] * t[0], p[1] * t[1], p[2] * t[2]], "scale", "3D {:?} by {:?} is {:?}", p, t, u);
    // lines and rays move along, their direction stays
    let dir = [1.0 + t[1].abs(), p[0], t[2]];
    if let (Ok(d3), Ok(d2)) = (Norm3D::new(p3(&dir)), Norm2D::new(p2(&[dir[0], dir[1]]))) {
        let mut l = Line3D::new(r.clone(), d3.clone());
        let mut y = Ray3D::new(l.clone());
        l.move_by(t[0], t[1], t[2]);
        y.move_by(t[0], t[1], t[2]);
        ensure!(l.anchor == p3(&add3(&p, &t)) && l.dir == d3, "line moved", "{:?} by {:?} is {:?}", p, t, l);
        ensure!(y.line == l, "ray moved", "{:?} by {:?} is {:?}", p, t, y);
        let mut l = Line2D::new(q.clone(), d2.clone());
        let mut y = Ray2D::new(l.clone());
        l.move_by(t[0], t[1]);
        y.move_by(t[0], t[1]);
        ensure!(l.anchor == p2(&[p[0] + t[0], p[1] + t[1]]) && l.dir == d2, "line moved", "{:?} by {:?} is {:?}", p, t, l);
        ensure!(y.line == l, "ray moved", "{:?} by {:?} is {:?}", p, t, y);
    }
    // rotations
    let tol = 1e-13 * len3(&p);
    w = v2(&q.transformed(&Matrix3::rotation(Rad(x))));
    let want = [p[0] * x.cos() - p[1] * x.sin(), p[0] * x.sin() + p[1] * x.cos()];
    ensure!(near(&w, &want, tol), "rotation 2D", "{:?} by {} is {:?}, expected {:?}", p, x, w, want);
    let full = m4(&Matrix4::rotation(Rad(x), Rad(y), Rad(z)));
    let want = mul(&mul(&rot(0, x), &rot(1, y)), &rot(2, z));
    ensure!(near_m(&full, &want, 1e-13), "rotation 3D", "by {} {} {} is {:?}, expected {:?}", x, y, z, full, want);
    let axis = if s.chance(1, 3) { let mut a = [0.0; 3]; a[s.below(3)] = if s.bool() { 1.0 } else { -1.0 }; a } else { g.v3(s) };
    if len3(&axis) > 0.0 {
        let n = Norm3D::new(p3(&axis)).map_err(|_| Fail { sig: "axis refused".into(), msg: format!("{:?}", axis) })?;
        let m = Matrix4::rotation_axis(&n, Rad(x));
        let got = v3(&r.transformed(&m));
        // Rodrigues
        let k = mul3(&axis, 1.0 / len3(&axis));
        let kxp = cross3(&k, &p);
        let kdp = dot3(&k, &p) * (1.0 - x.cos());
        let want = [0, 1, 2].map(|i| p[i] * x.cos() + kxp[i] * x.sin() + k[i] * kdp);
        ensure!(near(&got, &want, tol), "rotation about axis", "{:?} about {:?} by {} is {:?}, expected {:?}", p, axis, x, got, want);
        let m = m4(&m);
        ensure!(m[3] == [0.0, 0.0, 0.0, 1.0] && (0..3).all(|i| m[i][3] == 0.0), "rotation about axis", "moves: {:?}", m);
    }
    Ok(())
}

fn look_at(s: &mut Src, c: &mut Ctx) -> Res {
    let g = if s.bool() { PLAIN } else { Grid::gen(s) };
    let t = g.v3(s);
    let t = if s.chance(1, 3) { mul3(&t, *s.pick(&[1e-3, 1e3, 0.1, 7.0])) } else { t };
    let up = g.v3(s);
    if len3(&up) == 0.0 {
        return Ok(());
    }
    c.desc(|| format!("target {:?} up {:?}", t, up));
    let n = Norm3D::new(p3(&up)).map_err(|_| Fail { sig: "axis refused".into(), msg: format!("{:?}", up) })?;
    let r = Matrix4::look_at(&p3(&t), &n);
    if len3(&t) == 0.0 {
        ensure!(r.is_err(), "look at without direction", "up {:?}", up);
        return Ok(());
    }
    let (nt, nu) = (mul3(&t, 1.0 / len3(&t)), mul3(&up, 1.0 / len3(&up)));
    let side = len3(&cross3(&nu, &nt));
    if side < 1e-6 {
        // no side direction
        return Ok(());
    }
    c.nontrivial(side < 0.999);
    let m = match r {
        Ok(m) => m,
        Err(e) => return fail("look at refused", format!("target {:?} up {:?}: {:?}", t, up, e)),
    };
    let tol = 1e-12 / side;
    // the target lies ahead, up stays up, distances stay
    let got = v3(&p3(&t).transformed(&m));
    ensure!(near(&got, &[0.0, 0.0, len3(&t)], tol * len3(&t)), "look at target", "target {:?} up {:?}: the target is seen at {:?}", t, up, got);
    let got = v3(&p3(&nu).transformed(&m));
    ensure!(near(&got, &[0.0, side, dot3(&nu, &nt)], tol), "look at up", "target {:?} up {:?}: up is seen as {:?}", t, up, got);
    let p = g.v3(s);
    let q = v3(&p3(&p).transformed(&m));
    // right of the view: up x forward
    let want = [dot3(&p, &cross3(&nu, &nt)) / side, (dot3(&p, &nu) - dot3(&nu, &nt) * dot3(&p, &nt)) / side, dot3(&p, &nt)];
    ensure!(near(&q, &want, 10.0 * tol * len3(&p)), "look at", "target {:?} up {:?}: {:?} is seen at {:?}, expected {:?}", t, up, p, q, want);
    let m = m4(&m);
    ensure!(m[3] == [0.0, 0.0, 0.0, 1.0] && (0..3).all(|i| m[i][3] == 0.0), "look at", "moves: {:?}", m);
    Ok(())
}

fn perspective(s: &mut Src, c: &mut Ctx) -> Res {
    let near_plane = *s.pick(&[1.0, 0.1, 0.5, 2.0, 10.0, 0.01, 3e-11, 7e6]) * (1 + s.below(4)) as f64;
    let far_plane = near_plane * (1.0 + *s.pick(&[1.0, 0.5, 9.0, 100.0, 1e4]) * (1 + s.below(8)) as f64);
    let half = match s.weighted(&[8, 1, 1]) {
        0 => (1 + s.below(89)) as f64 * std::f64::consts::PI / 180.0,
        // hardly opened, as wide as a half space
        1 => (1 + s.below(89)) as f64 * 1e-9 / 7.0,
        _ => std::f64::consts::PI / 2.0 - (1 + s.below(89)) as f64 * 1e-9,
    };
    c.desc(|| format!("close {} away {} half angle {}", near_plane, far_plane, half));
    let m = m4(&Matrix4::perspective(near_plane, far_plane, Rad(2.0 * half)));
    // corners and inner points of the frustum: (u, v, depth) in [-1, 1] of the field of view
    let t = *s.pick(&[0.0, 1.0, 0.5, 0.25]);
    let z = near_plane + t * (far_plane - near_plane);
    let (u, v) = (s.int(-4, 4) as f64 / 4.0, s.int(-4, 4) as f64 / 4.0);
    let x = [u * z * half.tan(), v * z * half.tan(), z, 1.0];
    let h: Vec<f64> = (0..4).map(|i| (0..4).map(|j| m[i][j] * x[j]).sum()).collect();
    ensure!(near(&h[3..], &[z], 1e-12 * z), "perspective", "close {} away {} half angle {}: {:?} becomes {:?}, divided by something else than its depth", near_plane, far_plane, half, x, h);
    let got = [h[0] / h[3], h[1] / h[3], h[2] / h[3]];
    // the depth runs from -1 to 1 with 1/z
    let depth = ((far_plane + near_plane) - 2.0 * far_plane * near_plane / z) / (far_plane - near_plane);
    let tol = 1e-11 * (1.0 + far_plane / (far_plane - near_plane));
    ensure!(near(&got, &[u, v, depth], tol), "perspective", "close {} away {} half angle {}: {:?} becomes {:?}, expected {:?}", near_plane, far_plane, half, x, got, [u, v, depth]);
    if t == 0.0 || t == 1.0 {
        ensure!(near(&got[2..], &[2.0 * t - 1.0], tol), "perspective planes", "close {} away {}: depth {} becomes {}", near_plane, far_plane, z, got[2]);
    }
    c.nontrivial(u != 0.0 && v != 0.0);
    Ok(())
}

fn pipes(s: &mut Src, c: &mut Ctx) -> Res {
    let three = s.bool();
    let div = *s.pick(&[4.0, 4.0, 3.0, 1e4, 7e10, 1e-7 / 3.0]);
    let steps = s.list(1, 12, |s| (s.below(if three { 13 } else { 6 }), s.int(-12, 12) as f64 / div, s.int(-12, 12) as f64 / div, s.int(-12, 12) as f64 / div));
    c.desc(|| format!("{}D {:?}", if three { 3 } else { 2 }, steps));
    let mut on = std::collections::BTreeSet::new();
    // one matrix is the result itself; a product may be taken in any order
    let close_to = |got: &M, want: &M, parts: &[M]| {
        if parts[..].iter().filter(|m| **m != ident(m.len())).count() <= 1 {
            return got == want;
        }
        let abs = |m: &M| -> M { m.iter().map(|r| r.iter().map(|x| x.abs()).collect()).collect() };
        let bound = parts[..].iter().fold(ident(want.len()), |acc, m| mul(&acc, &abs(m)));
        (0..want.len()).all(|i| near_m(&vec![got[i].clone()], &vec![want[i].clone()], 0.0) || (0..want.len()).all(|j| (got[i][j] - want[i][j]).abs() <= 1e-13 * bound[i][j]))
    };
    if !three {
        let mut pipe = Matrix3Pipe::default();
        let (mut t, mut r, mut sc) = (ident(3), ident(3), ident(3));
        for (k, x, y, _) in &steps {
            match k {
                0 => { pipe.add_translation(*x, *y); t = m3(&Matrix3::translation(*x, *y)); on.insert(0); }
                1 => { pipe.add_rotation(Rad(*x)); r = m3(&Matrix3::rotation(Rad(*x))); on.insert(1); }
                2 => { pipe.add_scale(*x, *y); sc = m3(&Matrix3::scale(*x, *y)); on.insert(2); }
                3 => { pipe.remove_translation(); t = ident(3); on.remove(&0); }
                4 => { pipe.remove_rotation(); r = ident(3); on.remove(&1); }
                _ => { pipe.remove_scale(); sc = ident(3); on.remove(&2); }
            }
            let want = mul(&mul(&t, &r), &sc);
            let got = m3(&pipe.result());
            ensure!(close_to(&got, &want, &[t.clone(), r.clone(), sc.clone()]), "pipe", "after {:?} result is {:?}, expected {:?}", steps, got, want);
        }
        c.nontrivial(on.len() >= 2);
        return Ok(());
    }
    let mut pipe = Matrix4Pipe::default();
    // scale, rotation, translation, camera translation, look at, perspective: applied in this order
    let mut m: Vec<M> = vec![ident(4); 6];
    for (k, x, y, z) in &steps {
        let (x, y, z) = (*x, *y, *z);
        let n = Norm3D::new(Point3D::new(x, y, z + 0.125)).unwrap();
        match k {
            0 => { pipe.add_scale(x, y, z); m[0] = m4(&Matrix4::scale(x, y, z)); on.insert(0); }
            1 => { pipe.add_rotation(Rad(x), Rad(y), Rad(z)); m[1] = m4(&Matrix4::rotation(Rad(x), Rad(y), Rad(z))); on.insert(1); }
            2 => { pipe.add_rotation_axis(&n, Rad(y)); m[1] = m4(&Matrix4::rotation_axis(&n, Rad(y))); on.insert(1); }
            3 => { pipe.add_translation(x, y, z); m[2] = m4(&Matrix4::translation(x, y, z)); on.insert(2); }
            4 => { pipe.add_camera_translation(x, y, z); m[3] = m4(&Matrix4::translation(-x, -y, -z)); on.insert(3); }
            5 => {
                let target = Point3D::new(y, z, x);
                let r = pipe.add_look_at(&target, &n);
                match Matrix4::look_at(&target, &n) {
                    Ok(l) => { ensure!(r.is_ok(), "look at refused", "{:?}", target); m[4] = m4(&l); on.insert(4); }
                    Err(_) => ensure!(r.is_err(), "look at accepted", "{:?}", target),
                }
            }
            6 => { pipe.add_perspective(1.0 + x.abs(), 9.0 + y, Rad(0.5 + z.abs() / 4.0)); m[5] = m4(&Matrix4::perspective(1.0 + x.abs(), 9.0 + y, Rad(0.5 + z.abs() / 4.0))); on.insert(5); }
            7 => { pipe.remove_scale(); m[0] = ident(4); on.remove(&0); }
            8 => { pipe.remove_rotation(); m[1] = ident(4); on.remove(&1); }
            9 => { pipe.remove_translation(); m[2] = ident(4); on.remove(&2); }
            10 => { pipe.remove_camera_translation(); m[3] = ident(4); on.remove(&3); }
            11 => { pipe.remove_look_at(); m[4] = ident(4); on.remove(&4); }
            _ => { pipe.remove_perspective(); m[5] = ident(4); on.remove(&5); }
        }
        let want = m.iter().fold(ident(4), |acc, x| mul(x, &acc));
        let got = m4(&pipe.result());
        if want.iter().flatten().all(|x| x.is_finite()) {
            let parts: Vec<M> = m[..].iter().rev().cloned().collect();
            ensure!(close_to(&got, &want, &parts), "pipe", "after {:?} result is {:?}, expected {:?}", steps, got, want);
        }
    }
    c.nontrivial(on.len() >= 2);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "algebra: the factors do not commute; shapes: there are points and the matrix is not the identity; motions: nothing is zero; look-at: up is not orthogonal to the target; pipes: two or more steps are in effect",
        assumptions: &["entries are small dyadic numbers, so that products are exact", "rotations are compared up to 1e-12; a pipe with one step in effect exactly, with more up to 1e-13 of what the product's terms add up to"],
        subs: vec![sub("algebra", 200_000, algebra), sub("shapes", 400_000, shapes), sub("many", 12, many).huge(), sub("motions", 200_000, motions), sub("pipes", 200_000, pipes), sub("look-at", 200_000, look_at), sub("perspective", 200_000, perspective)],
    }
}
