use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;
use std::collections::VecDeque;

/// a coordinate that every vertex container stores exactly
fn coord(s: &mut Src) -> f64 {
    s.int(-4000, 4000) as f64 / 8.0
}
fn vert(s: &mut Src) -> V3 {
    [coord(s), coord(s), coord(s)]
}

#[derive(Clone, Default)]
struct Model {
    v: Vec<V3>,
    f: Vec<[usize; 3]>,
}

fn compare<ID: IsDataContainer<Point3D>, IC: IsIndexContainer>(m: &Mesh3D<Point3D, ID, IC>, model: &Model, lo: usize, what: &str) -> Res {
    ensure!(m.num_vertices() == model.v.len(), "vertex count", "{}: {} vertices, expected {}", what, m.num_vertices(), model.v.len());
    ensure!(m.num_faces() == model.f.len(), "face count", "{}: {} faces, expected {}", what, m.num_faces(), model.f.len());
    // vertices 0..lo are only the preloaded mass and sampled
    let n = model.v.len();
    let mut i = 0;
    while i < n {
        let v = m.vertex(VId(i)).map(|p| v3(&p));
        ensure!(v == Some(model.v[i]), "vertex", "{}: vertex {} is {:?}, expected {:?}", what, i, v, model.v[i]);
        i += if i + 1 < lo { (lo / 50).max(1).min(lo - 1 - i) } else { 1 };
    }
    for (i, f) in model.f.iter().enumerate() {
        let ids = m.face_vertex_ids(FId(i));
        ensure!(ids == Some(Face3::new(VId(f[0]), VId(f[1]), VId(f[2]))), "face ids", "{}: face {} is {:?}, expected {:?}", what, i, ids, f);
        let p = m.face_vertices(FId(i)).map(|p| [v3(&p[0]), v3(&p[1]), v3(&p[2])]);
        let w = [model.v[f[0]], model.v[f[1]], model.v[f[2]]];
        ensure!(p == Some(w), "face vertices", "{}: face {} has corners {:?}, expected {:?}", what, i, p, w);
        let (a, b) = (sub3(&w[1], &w[0]), sub3(&w[2], &w[0]));
        let n = cross3(&a, &b);
        let l = len3(&n);
        match m.face_normal(FId(i)) {
            Ok(got) => {
                let g = [got.x(), got.y(), got.z()];
                ensure!(l > 0.0 && (0..3).all(|k| (g[k] - n[k] / l).abs() < 1e-9), "face normal", "{}: normal of face {} is {:?}, expected {:?}/{}", what, i, g, n, l);
            }
            Err(_) => ensure!(l == 0.0, "face normal", "{}: face {} has no normal, expected {:?}", what, i, n),
        }
    }
    for k in [0usize, 1, 7, 1 << 40] {
        ensure!(m.vertex(VId(n + k)).is_none(), "vertex out of range", "{}: vertex {} exists, there are {}", what, n + k, n);
        ensure!(m.face_vertex_ids(FId(model.f.len() + k)).is_none() && m.face_vertices(FId(model.f.len() + k)).is_none() && m.face_normal(FId(model.f.len() + k)).is_err(), "face out of range", "{}: face {} exists, there are {}", what, model.f.len() + k, model.f.len());
    }
    Ok(())
}

fn run<ID, IC>(s: &mut Src, c: &mut Ctx, name: &'static str) -> Res
where
    ID: IsDataContainer<Point3D> + Default + Clone,
    IC: IsIndexContainer,
{
    let mut m: Mesh3D<Point3D, ID, IC> = Default::default();
    let mut model = Model::default();
    let many = std::mem::take(&mut s.huge);
    let preload = match s.weighted(&[30, 8, 1]) {
        _ if many => many_n(s),
        0 => 0,
        1 => 250 + s.below(8),
        _ => 65530 + s.below(8),
    };
    for i in 0..preload {
        let v = [i as f64, (i % 16) as f64 / 2.0, (i % 1000) as f64 / 4.0];
        model.v.push(v);
        m.add_vertex(p3(&v));
    }
    // as many faces, too
    if many && preload > 5 {
        let (k, a) = (many_n(s), 1 + s.below(1000));
        for i in 0..k {
            let f = [i * a % preload, (i * a + 1) % preload, (i * a + 3) % preload];
            model.f.push(f);
            let id = m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2]));
            ensure!(matches!(id, Ok(x) if x == FId(i)), "connection id", "{:?} for face {} {:?} of {} vertices", id.ok(), i, f, preload);
        }
    }
    c.label_if(preload > 0, "preloaded");
    c.label_if(model.f.len() > 65536, "more than 65536 faces");
    c.desc(|| format!("{} preload {}, {} faces", name, preload, model.f.len()));
    let (mut edits, mut refused) = (0, 0);
    let ops = s.list(1, 40, |s| s.weighted(&[4, 3, 5, 2, 1, 1, 1, 1]));
    for op in ops {
        match op {
            0 => {
                let v = vert(s);
                let id = m.add_vertex(p3(&v));
                ensure!(id == VId(model.v.len()), "add_vertex id", "id {:?}, expected {}", id, model.v.len());
                model.v.push(v);
                c.desc(|| format!("add_vertex {:?}", v));
            }
            1 => {
                let (a, b, d) = (vert(s), vert(s), vert(s));
                let id = m.add_face(p3(&a), p3(&b), p3(&d));
                ensure!(id == FId(model.f.len()), "add_face id", "id {:?}, expected {}", id, model.f.len());
                let n = model.v.len();
                model.v.extend([a, b, d].iter());
                model.f.push([n, n + 1, n + 2]);
                c.desc(|| format!("add_face {:?} {:?} {:?}", a, b, d));
            }
            2 => {
                let n = model.v.len();
                let near = n.saturating_sub(8);
                let pick = |s: &mut Src| match s.weighted(&[4, 3, 1, 1]) {
                    0 if n > 0 => s.below(n),
                    1 if n > 0 => near + s.below(n - near),
                    2 => n + s.below(3),
                    3 => *s.pick(&[n, usize::MAX, 1 << 32, n + (1 << 16), n + (1 << 8)]),
                    _ => 0,
                };
                let f = [pick(s), pick(s), pick(s)];
                let ok = f.iter().all(|i| *i < n) && f[0] != f[1] && f[1] != f[2] && f[0] != f[2];
                let r = m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2]));
                c.desc(|| format!("try_add_connection {:?}", f));
                match r {
                    Ok(id) => {
                        ensure!(ok, "bad connection accepted", "{:?} accepted with {} vertices", f, n);
                        ensure!(id == FId(model.f.len()), "connection id", "id {:?}, expected {}", id, model.f.len());
                        model.f.push(f);
                        edits += 1;
                        c.label_if(f.iter().any(|i| *i > 255), "index above 255");
                        c.label_if(f.iter().any(|i| *i > 65535), "index above 65535");
                    }
                    Err(_) => {
                        ensure!(!ok, "good connection refused", "{:?} refused with {} vertices", f, n);
                        refused += 1;
                    }
                }
            }
            3 => {
                let n = model.v.len();
                let i = if s.chance(1, 4) { n + s.below(3) } else { s.below(n.max(1)) };
                let v = vert(s);
                c.desc(|| format!("change_vertex {} {:?}", i, v));
                match m.change_vertex(VId(i), p3(&v)) {
                    Ok(()) => {
                        ensure!(i < n, "change of missing vertex accepted", "{} of {}", i, n);
                        model.v[i] = v;
                        edits += 1;
                    }
                    Err(_) => {
                        ensure!(i >= n, "change of vertex refused", "{} of {}", i, n);
                        refused += 1;
                    }
                }
            }
            4 => {
                let (a, b) = (s.below(100), s.below(100));
                m.reserve_vertices(a);
                m.reserve_faces(b);
                c.desc(|| format!("reserve {} {}", a, b));
            }
            5 => {
                let parts: (ID, IC) = m.into();
                m = Mesh3D::from(parts);
                c.desc(|| "into/from".to_string());
            }
            6 => {
                // a clone is independent
                let saved = m.clone();
                let n = model.v.len();
                m.add_face(Point3D::new(1.0, 2.0, 3.0), Point3D::new(3.0, 2.0, 1.0), Point3D::new(0.0, 0.0, 1.0));
                if n > 0 {
                    m.change_vertex(VId(0), Point3D::new(0.5, 0.5, 0.5)).ok();
                }
                m = saved;
                c.desc(|| "clone".to_string());
            }
            _ => compare(&m, &model, preload, name)?,
        }
    }
    compare(&m, &model, preload, name)?;
    c.nontrivial(edits >= 1 && model.f.len() >= 2);
    c.label_if(refused > 0, "with refused edits");
    // the same vertices seen through a searchable mesh
    if (preload < 1000 || many) && s.chance(1, 2) {
        let before = model.f.clone();
        let mut sm: SearchableMesh<Mesh3D<Point3D, ID, IC>, Point3D, IC> = SearchableMesh::new(m);
        for step in s.list(0, 6, |s| s.weighted(&[4, 2, 1, 1])) {
            let n = model.v.len();
            let v = vert(s);
            match step {
                0 => {
                    // likely the newest one, or one behind
                    let i = if s.chance(1, 3) { (n + s.below(3)).saturating_sub(1) } else { s.below(n + 2) };
                    match sm.change_vertex(VId(i), p3(&v)) {
                        Ok(()) => {
                            ensure!(i < n, "SearchableMesh change of missing vertex accepted", "{} of {}", i, n);
                            model.v[i] = v;
                        }
                        Err(_) => ensure!(i >= n, "SearchableMesh change of vertex refused", "{} of {}", i, n),
                    }
                }
                1 => {
                    ensure!(sm.add_vertex(p3(&v)) == VId(n), "SearchableMesh add_vertex id", "wrong id");
                    model.v.push(v);
                }
                2 => sm.reserve_vertices(s.below(5)),
                _ => {
                    let parts: (Mesh3D<Point3D, ID, IC>, HalfEdge<IC>) = sm.into();
                    sm = SearchableMesh::from(parts);
                }
            }
        }
        compare(sm.mesh(), &model, preload, "SearchableMesh")?;
        ensure!(sm.num_vertices() == model.v.len() && sm.num_faces() == before.len(), "SearchableMesh counts", "{} {}", sm.num_vertices(), sm.num_faces());
        for i in 0..model.v.len() {
            ensure!(sm.vertex(VId(i)).map(|p| v3(&p)) == Some(model.v[i]), "SearchableMesh vertex", "vertex {}", i);
        }
        for (i, f) in before.iter().enumerate() {
            let tails = sm.edges_of_face(FId(i)).map(|(a, b, c)| [sm.edge_tail(a), sm.edge_tail(b), sm.edge_tail(c)]);
            ensure!(tails == Some([Some(VId(f[0])), Some(VId(f[1])), Some(VId(f[2]))]), "SearchableMesh edges", "face {} {:?} has edges from {:?}", i, f, tails);
            ensure!(sm.face_vertices(FId(i)).map(|p| [v3(&p[0]), v3(&p[1]), v3(&p[2])]) == Some([model.v[f[0]], model.v[f[1]], model.v[f[2]]]), "SearchableMesh face", "face {}", i);
        }
    }
    Ok(())
}

fn history(s: &mut Src, c: &mut Ctx) -> Res {
    macro_rules! ics {
        ($id:ty, $n:expr, $s:expr, $c:expr) => {
            match $s.below(3) {
                0 => run::<$id, Vec<usize>>($s, $c, concat!($n, "/Vec<usize>")),
                1 => run::<$id, U32IndexVec>($s, $c, concat!($n, "/U32IndexVec")),
                _ => run::<$id, DynamicPrecisionIndexVec>($s, $c, concat!($n, "/DynamicPrecisionIndexVec")),
            }
        };
    }
    match s.below(4) {
        0 => ics!(Vec<Point3D>, "Vec", s, c),
        1 => ics!(VecDeque<Point3D>, "VecDeque", s, c),
        2 => ics!(PointCloud3D<Point3D>, "PointCloud3D", s, c),
        _ => ics!(PointCloud3Df32<Point3D>, "PointCloud3Df32", s, c),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "A case is a vertex container, an index container, 0 / about 250 / about 65530 preloaded vertices and up to 40 edits (add vertex, add face, connect with good, repeated and missing ids, change vertex, reserve, take apart and reassemble, clone, compare). Non-trivial: at least two faces and one accepted connection or change.",
        assumptions: &["coordinates are representable as f32, so that the lossy f32 container stores them exactly"],
        subs: vec![sub("history", 400_000, history).large(50), sub("many", 16, history).huge()],
    }
}
