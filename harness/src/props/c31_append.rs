//! C31: loading into a target that holds something already appends to it
use super::c24_decode::name;
use super::c25_robust::mutate;
use super::common::*;
use super::iofmt::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::io::*;
use rust_3d::*;

/// what a target holds: points, faces, normals
#[derive(Clone, Debug, Default, PartialEq)]
struct Held {
    points: Vec<V3>,
    faces: Vec<[usize; 3]>,
    normals: Vec<V3>,
}
type Loaded = (Held, Option<String>);
type Load = fn(&Held, &mut Chunked) -> Loaded;

fn text<T, E: std::fmt::Debug>(r: std::result::Result<T, E>) -> Option<String> {
    r.err().map(|e| format!("{:?}", e))
}
fn p3(v: &V3) -> Point3D {
    Point3D::new(v[0], v[1], v[2])
}
macro_rules! points {
    ($f:path) => {
        |h, r| {
            let mut v: Vec<Point3D> = h.points[..].iter().map(p3).collect();
            let e = text($f(r, &mut v));
            (Held { points: v[..].iter().map(v3).collect(), ..h.clone() }, e)
        }
    };
}
macro_rules! cloud {
    ($f:path) => {
        |h, r| {
            let mut v: PointCloud3D<Point3D> = PointCloud3D::new();
            for p in &h.points {
                v.push(p3(p));
            }
            let e = text($f(r, &mut v));
            (Held { points: v.data[..].iter().map(v3).collect(), ..h.clone() }, e)
        }
    };
}
fn xy(h: &Held, r: &mut Chunked) -> Loaded {
    let mut v: PointCloud2D<Point2D> = PointCloud2D::new();
    for p in &h.points {
        v.push(Point2D::new(p[0], p[1]));
    }
    let e = text(load_xy(r, &mut v));
    let n = h.points.len();
    (Held { points: v.data[..].iter().enumerate().map(|(i, p)| [p.x(), p.y(), if i < n { h.points[i][2] } else { 0.0 }]).collect(), ..h.clone() }, e)
}
fn fill<M: Default + IsFaceEditableMesh<Point3D, Face3> + IsVertexEditableMesh<Point3D, Face3>>(h: &Held) -> M {
    let mut m = M::default();
    for p in &h.points {
        m.add_vertex(p3(p));
    }
    for f in &h.faces {
        m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).expect("face of added vertices");
    }
    m
}
fn content<M: IsMesh<Point3D, Face3>>(m: &M, h: &Held) -> Held {
    let mut o = Held { normals: h.normals.clone(), ..Held::default() };
    for i in 0..m.num_vertices() {
        o.points.push(v3(&m.vertex(VId(i)).expect("vertex below num_vertices")));
    }
    for i in 0..m.num_faces() {
        let f = m.face_vertex_ids(FId(i)).expect("face below num_faces");
        o.faces.push([f.a.0, f.b.0, f.c.0]);
    }
    o
}
macro_rules! mesh {
    ($f:path, $m:ty) => {
        |h, r| {
            let mut m: $m = fill(h);
            let e = text($f(r, &mut m));
            (content(&m, h), e)
        }
    };
}
macro_rules! stl {
    ($f:path, $m:ty) => {
        |h, r| {
            let mut m: $m = fill(h);
            let mut n: Vec<Point3D> = h.normals[..].iter().map(p3).collect();
            let e = text($f(r, StlFormat::Auto, &mut m, &mut n));
            let mut o = content(&m, h);
            o.normals = n[..].iter().map(v3).collect();
            (o, e)
        }
    };
}
fn triplets(h: &Held, r: &mut Chunked) -> Loaded {
    let mut v: Vec<Point3D> = h.points[..].iter().map(p3).collect();
    let mut n: Vec<Point3D> = h.normals[..].iter().map(p3).collect();
    let e = text(load_stl_triplets(r, StlFormat::Auto, &mut v, &mut n));
    (Held { points: v[..].iter().map(v3).collect(), normals: n[..].iter().map(v3).collect(), ..h.clone() }, e)
}
fn either_mesh(h: &Held, r: &mut Chunked) -> Loaded {
    let mut m: Mesh = fill(h);
    let mut v: Vec<Point3D> = Vec::new();
    match load_ply_either(r, &mut m, &mut v) {
        Ok(MeshOrPoints::Points) => (content(&m, h), Some("points".into())),
        e => (content(&m, h), text(e)),
    }
}
fn either_points(h: &Held, r: &mut Chunked) -> Loaded {
    let mut m = Mesh::default();
    let mut v: Vec<Point3D> = h.points[..].iter().map(p3).collect();
    let e = match load_ply_either(r, &mut m, &mut v) {
        Ok(MeshOrPoints::Mesh) => Some("mesh".into()),
        e => text(e),
    };
    (Held { points: v[..].iter().map(v3).collect(), ..h.clone() }, e)
}

static LOADS: &[(&str, Fmt, Load)] = &[
    ("load_xy", Fmt::Xy, xy),
    ("load_xyz", Fmt::Xyz, points!(load_xyz)),
    ("load_xyz (cloud)", Fmt::Xyz, cloud!(load_xyz)),
    ("load_pts", Fmt::Pts, points!(load_pts)),
    ("load_pts (cloud)", Fmt::Pts, cloud!(load_pts)),
    ("load_ptx", Fmt::Ptx, points!(load_ptx)),
    ("load_gcode_points", Fmt::Gcode, points!(load_gcode_points)),
    ("load_psl", Fmt::Psl, points!(load_psl)),
    ("load_las", Fmt::Las, points!(load_las)),
    ("load_las (cloud)", Fmt::Las, cloud!(load_las)),
    ("load_obj_points", Fmt::Obj, points!(load_obj_points)),
    ("load_obj_mesh", Fmt::Obj, mesh!(load_obj_mesh, Mesh)),
    ("load_obj_mesh (dynamic)", Fmt::Obj, mesh!(load_obj_mesh, MeshD)),
    ("load_off_points", Fmt::Off, points!(load_off_points)),
    ("load_off_mesh", Fmt::Off, mesh!(load_off_mesh, Mesh)),
    ("load_off_mesh (u32)", Fmt::Off, mesh!(load_off_mesh, MeshU)),
    ("load_ply_points", Fmt::Ply, points!(load_ply_points)),
    ("load_ply_mesh", Fmt::Ply, mesh!(load_ply_mesh, Mesh)),
    ("load_ply_mesh (dynamic)", Fmt::Ply, mesh!(load_ply_mesh, MeshD)),
    ("load_ply_either (mesh)", Fmt::Ply, either_mesh),
    ("load_ply_either (points)", Fmt::Ply, either_points),
    ("load_stl_triplets", Fmt::Stl, triplets),
    ("load_stl_mesh_duped", Fmt::Stl, stl!(load_stl_mesh_duped, Mesh)),
    ("load_stl_mesh_unique", Fmt::Stl, stl!(load_stl_mesh_unique, MeshD)),
];

fn case(s: &mut Src, ctx: &mut Ctx, fmts: &[Fmt]) -> Res {
    let fmt = *s.pick(fmts);
    let (many_in_file, many_held) = if s.huge { (s.chance(1, 2), s.chance(2, 3)) } else { (false, false) };
    let f = if many_in_file { gen_many(s, fmt) } else { gen(s, fmt) };
    ctx.label(name(fmt));
    let mut b = f.bytes.clone();
    if s.chance(1, 4) {
        mutate(s, &mut b);
        ctx.label("damaged");
    }
    let mut h = Held::default();
    // some of them also in the file
    let there: Vec<V3> = f.points.iter().copied().chain(f.tris.iter().flat_map(|t| [t[0], t[1], t[2]])).collect();
    h.points = s.list(1, 6, |s| if !there.is_empty() && s.bool() { *s.pick(&there) } else { [s.int(-3, 3) as f64, s.int(-3, 3) as f64, s.int(-3, 3) as f64] });
    if many_held {
        let n = many_n(s);
        h.points = many3(s, &Grid { range: 800, div: 8.0, off: 0.0, fine: 0.0 }, n);
    }
    h.points.retain(|p| p.iter().all(|x| x.is_finite()));
    let n = h.points.len();
    if n >= 3 {
        h.faces = s.list(0, 3, |s| {
            let a = s.below(n);
            let d = 1 + s.below(n - 2);
            [a, (a + d) % n, (a + d + 1) % n]
        });
    }
    h.normals = s.list(0, 3, |s| [s.int(-3, 3) as f64, 0.0, 1.0]);
    let mut c = Chunked::gen(s, &b);
    ctx.desc(|| format!("{:?} into {:?}: \"{}\"", fmt, h, show(&b)));
    for (n, _, load) in LOADS.iter().filter(|l| l.1 == fmt) {
        c.rewind();
        let (alone, e1) = no_panic(n, || load(&Held::default(), &mut c))?;
        c.rewind();
        let (got, e2) = no_panic(n, || load(&h, &mut c))?;
        ensure!(e1 == e2, format!("other result: {}", n), "{}: {:?} into an empty target, {:?} into {:?}", n, e1, e2, h);
        fn head<T: PartialEq + std::fmt::Debug>(n: &str, what: &str, old: &[T], got: &[T]) -> Res {
            ensure!(got.len() >= old.len() && &got[..old.len()] == old, format!("{} changed: {}", what, n), "{}: the target held the {} {:?}, then {:?}", n, what, old, got);
            Ok(())
        }
        head(n, "points", &h.points, &got.points)?;
        head(n, "faces", &h.faces, &got.faces)?;
        head(n, "normals", &h.normals, &got.normals)?;
        let k = h.points.len();
        let faces: Vec<[usize; 3]> = got.faces[h.faces.len()..].iter().map(|f| [f[0].wrapping_sub(k), f[1].wrapping_sub(k), f[2].wrapping_sub(k)]).collect();
        let pts = &got.points[k..];
        ensure!(pts.len() == alone.points.len() && pts.iter().zip(&alone.points).all(|(a, b)| same3(a, b)), format!("other points: {}", n), "{}: adds {:?}, alone the file holds {:?}", n, pts, alone.points);
        ensure!(faces == alone.faces, format!("other faces: {}", n), "{}: adds faces {:?} (of the added vertices), alone the file holds {:?}", n, faces, alone.faces);
        let nn = &got.normals[h.normals.len()..];
        ensure!(nn.len() == alone.normals.len() && nn.iter().zip(&alone.normals).all(|(a, b)| same3(a, b)), format!("other normals: {}", n), "{}: adds {:?}, alone the file holds {:?}", n, nn, alone.normals);
        ctx.nontrivial(k > 0 && alone.points.len() >= 2);
        ctx.label_if(k > 0 && !alone.faces.is_empty(), "faces added");
    }
    Ok(())
}
fn clouds(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, &[Fmt::Xy, Fmt::Xyz, Fmt::Pts, Fmt::Ptx, Fmt::Gcode, Fmt::Psl, Fmt::Las])
}
fn meshes(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, &[Fmt::Obj, Fmt::Off, Fmt::Ply, Fmt::Stl])
}

pub fn prop() -> Prop {
    Prop {
        id: "C31",
        rule: "a file of at least two points loaded into a target holding at least one",
        assumptions: &["one file and one target per case"],
        subs: vec![sub("clouds", 300_000, clouds).large(100), sub("meshes", 500_000, meshes).large(100), sub("clouds-many", 60, clouds).huge(), sub("meshes-many", 60, meshes).huge()],
    }
}
