use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

type F = [usize; 3];

/// faces in which every directed edge occurs at most once (manifold = at most one face on each side of an edge)
pub fn gen_manifold(s: &mut Src) -> (usize, Vec<F>) {
    let mut faces: Vec<F> = vec![];
    let mut n;
    match s.weighted(&[5, 3, 2, 1]) {
        0 => {
            n = s.usize(3, 12);
            faces = gen_faces(s, n, 24);
        }
        1 => {
            // grid patch, maybe wrapped to a tube or torus, with holes and isolated vertices
            let (w, h) = if s.chance(1, 20) { (s.usize(2, 14), s.usize(2, 14)) } else { (s.usize(1, 5), s.usize(1, 5)) };
            let (wrap_x, wrap_y) = (w >= 3 && s.bool(), h >= 3 && s.bool());
            let (nx, ny) = (if wrap_x { w } else { w + 1 }, if wrap_y { h } else { h + 1 });
            n = nx * ny;
            let id = |x: usize, y: usize| (y % ny) * nx + x % nx;
            let hole = s.chance(1, 2);
            for y in 0..h {
                for x in 0..w {
                    let (a, b, c, d) = (id(x, y), id(x + 1, y), id(x + 1, y + 1), id(x, y + 1));
                    if hole && s.chance(1, 5) {
                        continue;
                    }
                    if s.bool() {
                        faces.push([a, b, c]);
                        faces.push([a, c, d]);
                    } else {
                        faces.push([a, b, d]);
                        faces.push([b, c, d]);
                    }
                }
            }
        }
        2 => {
            // a couple of tetrahedra
            let k = s.usize(1, 4);
            n = 4 * k;
            for t in 0..k {
                let o = 4 * t;
                faces.extend([[o, o + 1, o + 2], [o, o + 3, o + 1], [o + 1, o + 3, o + 2], [o, o + 2, o + 3]].iter());
            }
        }
        _ => {
            // fan around one vertex, closed or open
            let k = s.usize(3, 100);
            n = k + 1;
            let closed = s.bool();
            for i in 0..k {
                if i + 1 == k && !closed {
                    break;
                }
                faces.push([0, 1 + i, 1 + (i + 1) % k]);
            }
        }
    }
    // keep only faces that do not repeat a directed edge
    let mut used: BTreeSet<(usize, usize)> = BTreeSet::new();
    faces.retain(|f| {
        let e = [(f[0], f[1]), (f[1], f[2]), (f[2], f[0])];
        if f[0] == f[1] || f[1] == f[2] || f[0] == f[2] || e.iter().any(|x| used.contains(x)) {
            return false;
        }
        used.extend(e.iter());
        true
    });
    // isolated vertices, renumbering, rotation of corners, order of faces
    n += s.usize(0, 3);
    if s.chance(1, 2) {
        let mut perm: Vec<usize> = (0..n).collect();
        s.shuffle(&mut perm);
        for f in &mut faces {
            for v in f.iter_mut() {
                *v = perm[*v];
            }
        }
    }
    if s.chance(1, 2) {
        s.shuffle(&mut faces);
        for f in &mut faces {
            let r = s.below(3);
            *f = [f[r], f[(r + 1) % 3], f[(r + 2) % 3]];
        }
    }
    (n, faces)
}

type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
fn mesh(n: usize, faces: &[F]) -> M {
    let mut m = M::default();
    for i in 0..n {
        m.add_vertex(Point3D::new(i as f64, (i * i % 7) as f64, 0.5));
    }
    for f in faces {
        m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).expect("valid connection");
    }
    m
}
/// what a result holds already: nothing, something foreign, or ids close to those asked for
fn held(k: usize, want: &[usize], total: usize) -> Vec<usize> {
    let near = *want.get(k / 7 % want.len().max(1)).unwrap_or(&0);
    match k % 7 {
        0 => vec![],
        1 => vec![987654],
        2 => vec![near],
        3 => vec![near + 1],
        4 => vec![near + 2, near.saturating_sub(1)],
        5 => want.iter().rev().cloned().collect(),
        _ => vec![k % total.max(1), 0, k % total.max(1)],
    }
}

/// an appending query: what was held stays in front, followed by what is wanted in any order
fn appends<T: Clone + PartialEq + std::fmt::Debug>(what: &'static str, who: usize, held: Vec<usize>, want: &[usize], mk: fn(usize) -> T, un: fn(&T) -> usize, f: &mut dyn FnMut(&mut Vec<T>) -> bool) -> Res {
    let mut r: Vec<T> = held[..].iter().map(|x| mk(*x)).collect();
    let k = r.len();
    ensure!(f(&mut r), format!("{} refused", what), "refused for {}", who);
    let got: Vec<usize> = r[..].iter().map(un).collect();
    let mut new = got[k.min(got.len())..].to_vec();
    new.sort();
    let mut want = want.to_vec();
    want.sort();
    ensure!(got.len() >= k && got[..k] == held[..] && new == want, what, "{}: {:?} appended to {:?}, expected {:?}", who, got, held, want);
    Ok(())
}
fn check<IC: IsIndexContainer>(n: usize, faces: &[F], manifold: bool, salt: usize) -> Res {
    let m = mesh(n, faces);
    let he: HalfEdge<IC> = no_panic("HalfEdge::new", || HalfEdge::new(&m))?;
    let sm: SearchableMesh<M, Point3D, IC> = no_panic("SearchableMesh::new", || SearchableMesh::new(m))?;
    let ne = 3 * faces.len();
    let tail = |e: usize| faces[e / 3][e % 3];
    let head = |e: usize| faces[e / 3][(e % 3 + 1) % 3];
    let mut by_dir: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
    let mut out: Vec<Vec<usize>> = vec![vec![]; n];
    let mut inn: Vec<Vec<usize>> = vec![vec![]; n];
    for e in 0..ne {
        by_dir.entry((tail(e), head(e))).or_default().push(e);
        out[tail(e)].push(e);
        inn[head(e)].push(e);
    }
    let mut with: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, f) in faces.iter().enumerate() {
        for v in f {
            with[*v].push(i);
        }
    }
    ensure!(sm.num_edges() == ne && sm.num_faces() == faces.len() && sm.num_vertices() == n, "counts", "edges {} faces {} vertices {}", sm.num_edges(), sm.num_faces(), sm.num_vertices());
    for e in 0..ne {
        let id = EId(e);
        let (next, prev) = (e / 3 * 3 + (e + 1) % 3, e / 3 * 3 + (e + 2) % 3);
        ensure!(sm.edge_tail(id) == Some(VId(tail(e))) && he.tail(id) == Some(VId(tail(e))), "tail", "tail of edge {} is {:?}, expected {}", e, sm.edge_tail(id), tail(e));
        ensure!(sm.edge_head(id) == Some(VId(head(e))), "head", "head of edge {} is {:?}, expected {}", e, sm.edge_head(id), head(e));
        ensure!(sm.edge_next(id) == Some(EId(next)) && he.next(id) == Some(EId(next)), "next", "next of edge {} is {:?}, expected {}", e, sm.edge_next(id), next);
        ensure!(sm.edge_prev(id) == Some(EId(prev)) && he.prev(id) == Some(EId(prev)), "prev", "prev of edge {} is {:?}, expected {}", e, sm.edge_prev(id), prev);
        ensure!(sm.edge_face(id) == Some(FId(e / 3)) && he.face(id) == Some(FId(e / 3)), "face", "face of edge {} is {:?}, expected {}", e, sm.edge_face(id), e / 3);
        let opp = by_dir.get(&(head(e), tail(e)));
        let t = sm.edge_twin(id);
        ensure!(t == he.twin(id), "twin", "SearchableMesh says {:?}, HalfEdge {:?}", t, he.twin(id));
        match (t, opp) {
            (None, None) => (),
            (Some(t), Some(o)) => {
                ensure!(o.contains(&t.0), "twin", "twin of edge {} ({}->{}) is {}, expected {:?}", e, tail(e), head(e), t.0, o);
                if manifold {
                    ensure!(sm.edge_twin(t) == Some(id), "twin of twin", "twin of twin of {} is {:?}", e, sm.edge_twin(t));
                }
            }
            (t, o) => return fail("twin", format!("twin of edge {} ({}->{}) is {:?}, expected {:?}", e, tail(e), head(e), t, o)),
        }
        ensure!(he.ensure_edge_id(id).is_ok(), "ensure_edge_id", "edge {} refused", e);
    }
    let mut cache = vec![EId(12345)];
    for v in 0..n {
        let id = VId(v);
        // results are appended
        let h = |k: usize, want: &[usize], total: usize| held(salt + 13 * v + k, want, total);
        let mut all = out[v].clone();
        all.extend(inn[v][..].iter());
        let w = &with[v];
        appends("edges originating", v, h(0, &out[v], ne), &out[v], EId, |e| e.0, &mut |r| sm.edges_originating_from_vertex(id, r).is_ok())?;
        appends("edges ending", v, h(1, &inn[v], ne), &inn[v], EId, |e| e.0, &mut |r| sm.edges_ending_at_vertex(id, &mut cache, r).is_ok())?;
        appends("edges of vertex", v, h(2, &all, ne), &all, EId, |e| e.0, &mut |r| sm.edges_of_vertex(id, &mut cache, r).is_ok())?;
        appends("faces of vertex", v, h(3, w, faces.len()), w, FId, |f| f.0, &mut |r| sm.faces_of_vertex(id, &mut cache, r).is_ok())?;
        appends("edges originating", v, h(4, &out[v], ne), &out[v], EId, |e| e.0, &mut |r| he.edges_originating(id, r).is_ok())?;
        appends("edges ending", v, h(5, &inn[v], ne), &inn[v], EId, |e| e.0, &mut |r| he.edges_ending(id, &mut cache, r).is_ok())?;
        appends("edges of vertex", v, h(6, &all, ne), &all, EId, |e| e.0, &mut |r| he.edges_all(id, &mut cache, r).is_ok())?;
        appends("faces of vertex", v, h(7, w, faces.len()), w, FId, |f| f.0, &mut |r| he.faces(id, &mut cache, r).is_ok())?;
        ensure!(he.ensure_vertex_id(id).is_ok(), "ensure_vertex_id", "vertex {} refused", v);
    }
    for f in 0..faces.len() {
        let id = FId(f);
        ensure!(sm.edges_of_face(id) == Some((EId(3 * f), EId(3 * f + 1), EId(3 * f + 2))), "edges of face", "face {}: {:?}", f, sm.edges_of_face(id));
        let want: Vec<usize> = faces[f].iter().flat_map(|v| with[*v][..].iter().cloned()).filter(|g| *g != f).collect::<BTreeSet<usize>>().into_iter().collect();
        // sorted and without repetition together with what was held
        let before = held(salt + 11 * f, &want, faces.len());
        let mut r: Vec<FId> = before[..].iter().map(|x| FId(*x)).collect();
        let want: Vec<usize> = want.into_iter().chain(before.into_iter().filter(|g| *g != f)).collect::<BTreeSet<usize>>().into_iter().collect();
        ensure!(sm.face_vertex_neighbours(id, &mut cache, &mut r).is_ok(), "face vertex neighbours refused", "face {} refused", f);
        let got: Vec<usize> = r.iter().map(|g| g.0).filter(|g| *g != f).collect();
        ensure!(got == want, "face vertex neighbours", "face {}: {:?}, expected {:?} (sorted, without repetition)", f, got, want);
        if manifold {
            let mut want: Vec<usize> = vec![];
            for k in 0..3 {
                if let Some(o) = by_dir.get(&(head(3 * f + k), tail(3 * f + k))) {
                    want.push(o[0] / 3);
                }
            }
            appends("face edge neighbours", f, held(salt + 17 * f, &want, faces.len()), &want, FId, |f| f.0, &mut |r| sm.face_edge_neighbours(id, r).is_ok())?;
        }
        ensure!(sm.face_vertex_ids(id) == Some(Face3::new(VId(faces[f][0]), VId(faces[f][1]), VId(faces[f][2]))), "face ids", "face {}: {:?}", f, sm.face_vertex_ids(id));
        let mut vids = vec![];
        Face3::new(VId(faces[f][0]), VId(faces[f][1]), VId(faces[f][2])).for_each_vid(&mut |v| vids.push(v.0));
        ensure!(vids == faces[f], "for_each_vid", "face {}: {:?}", f, vids);
        ensure!(sm.ensure_face_id(id).is_ok(), "ensure_face_id", "face {} refused", f);
    }
    ensure!(sm.num_edges() == ne, "number of edges", "{} instead of {}", sm.num_edges(), ne);
    // ids out of range
    for k in [0usize, 1, 2, 100, usize::MAX - n.max(ne)] {
        let e = EId(ne + k);
        ensure!(sm.edge_tail(e).is_none() && sm.edge_head(e).is_none() && sm.edge_next(e).is_none() && sm.edge_prev(e).is_none() && sm.edge_twin(e).is_none() && sm.edge_face(e).is_none(), "edge out of range", "edge {} of {} answers", e.0, ne);
        let v = VId(n + k);
        let mut r = vec![EId(k % 3); k % 3];
        ensure!(sm.edges_originating_from_vertex(v, &mut r).is_err() && sm.edges_ending_at_vertex(v, &mut cache, &mut r).is_err() && sm.edges_of_vertex(v, &mut cache, &mut r).is_err() && he.edges_originating(v, &mut r).is_err() && he.edges_ending(v, &mut cache, &mut r).is_err() && he.edges_all(v, &mut cache, &mut r).is_err() && r == vec![EId(k % 3); k % 3], "vertex out of range", "vertex {} of {} answers", v.0, n);
        let mut fs = vec![];
        ensure!(sm.faces_of_vertex(v, &mut cache, &mut fs).is_err() && he.faces(v, &mut cache, &mut fs).is_err(), "vertex out of range", "vertex {} of {} answers", v.0, n);
        if k < 1000 {
            let f = FId(faces.len() + k);
            ensure!(sm.edges_of_face(f).is_none() && sm.face_edge_neighbours(f, &mut fs).is_err() && sm.face_vertex_neighbours(f, &mut cache, &mut fs).is_err(), "face out of range", "face {} of {} answers", f.0, faces.len());
        }
    }
    // taking the structure apart and putting it together again changes nothing
    let (m2, he2): (M, HalfEdge<IC>) = sm.clone().into();
    let sm2: SearchableMesh<M, Point3D, IC> = std::convert::From::from((m2, he2));
    for e in 0..ne {
        ensure!(sm2.edge_twin(EId(e)) == sm.edge_twin(EId(e)) && sm2.edge_tail(EId(e)) == sm.edge_tail(EId(e)), "into/from", "edge {} changed", e);
    }
    Ok(())
}

fn run(s: &mut Src, c: &mut Ctx, n: usize, faces: &[F], manifold: bool) -> Res {
    let mut dirs: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for f in faces {
        for k in 0..3 {
            *dirs.entry((f[k], f[(k + 1) % 3])).or_insert(0) += 1;
        }
    }
    let twins = dirs.keys().filter(|(a, b)| dirs.contains_key(&(*b, *a))).count();
    c.nontrivial(twins > 0);
    c.label_if(twins > 0 && twins == dirs.len(), "closed");
    c.label_if(twins > 0 && twins < dirs.len(), "with boundary");
    c.label_if(faces.iter().flatten().collect::<BTreeSet<_>>().len() < n, "isolated vertices");
    c.label_if(faces.len() * 3 > 255, "more than 255 edges");
    let salt = s.below(1000);
    match s.below(3) {
        0 => check::<Vec<usize>>(n, faces, manifold, salt),
        1 => check::<U32IndexVec>(n, faces, manifold, salt),
        _ => check::<DynamicPrecisionIndexVec>(n, faces, manifold, salt),
    }
}
fn manifold(s: &mut Src, c: &mut Ctx) -> Res {
    let (n, faces) = gen_manifold(s);
    c.desc(|| format!("{} vertices, faces {:?}", n, faces));
    run(s, c, n, &faces, true)
}
fn soup(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.usize(3, 8);
    let faces = gen_faces(s, n, 16);
    c.desc(|| format!("{} vertices, faces {:?}", n, faces));
    run(s, c, n, &faces, false)
}

/// a strip with more vertices or edges than one or two bytes can count
pub fn strip(s: &mut Src) -> (usize, Vec<F>, String) {
    let w = match s.below(4) {
        // 6w edges, at least w + 1 vertices
        0 => 40 + s.below(8),
        1 => 10919 + s.below(8),
        2 => 32765 + s.below(6),
        _ => s.usize(10, 40000),
    };
    let closed = s.bool();
    // every third face missing at times, numbered in jumps
    let n = 2 * (w + 1 - closed as usize);
    let (jump, shift) = (*s.pick(&[1, 7, 10007, 65537]), s.below(n));
    let jump = if (n as u64) % jump == 0 { 1 } else { jump as usize };
    let holes = if s.bool() { 0 } else { 2 + s.below(5) };
    let id = |x: usize, y: usize| ((2 * (x % (n / 2)) + y) * jump + shift) % n;
    let mut faces = vec![];
    for x in 0..w {
        if holes > 0 && x % holes == 1 {
            continue;
        }
        let (a, b, d, e) = (id(x, 0), id(x + 1, 0), id(x + 1, 1), id(x, 1));
        faces.push([a, b, d]);
        faces.push([a, d, e]);
    }
    (n, faces, format!("strip of {} squares, {}, numbered in steps of {} from {}, every {}th missing", w, if closed { "closed" } else { "open" }, jump, shift, holes))
}
fn big(s: &mut Src, c: &mut Ctx) -> Res {
    let (n, faces, what) = strip(s);
    c.desc(|| what);
    c.label_if(n > 65536, "more than 65536 vertices");
    c.label_if(3 * faces.len() > 65536, "more than 65536 edges");
    run(s, c, n, &faces, true)
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "A case is a mesh (random faces without repeated directed edges, grid patches, tubes and tori with holes, tetrahedra, fans of up to 100 faces, strips of up to 80000 faces; renumbered, with isolated vertices) or an arbitrary face soup, looked at through one of three index containers; every id and a range of invalid ids is queried, with results that already hold some ids. Non-trivial: at least one edge has a twin.",
        assumptions: &["for face soups with repeated directed edges any opposite edge is accepted as twin"],
        subs: vec![sub("manifold", 300_000, manifold).large(50), sub("soup", 200_000, soup).large(50), sub("big", 24, big)],
    }
}
