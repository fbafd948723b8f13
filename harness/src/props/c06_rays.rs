use super::c03_trees::{gen_dir, ray_hits_box, slab};
use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;

fn mk_line(anchor: &V3, dir: &V3) -> Option<(Line3D, V3)> {
    let n = Norm3D::new(p3(dir)).ok()?;
    let nd = v3(&n);
    Some((Line3D::new(p3(anchor), n), nd))
}
fn near3(a: &V3, b: &V3, scale: f64) -> bool {
    len3(&sub3(a, b)) <= 1e-9 * scale
}
fn line_box(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let lo = g.v3(s);
    let hi = [lo[0] + g.ext(s), lo[1] + g.ext(s), lo[2] + g.ext(s)];
    let frac = |s: &mut Src| {
        let mut p = lo;
        for i in 0..3 {
            p[i] += (hi[i] - lo[i]) * s.below(17) as f64 / 16.0;
        }
        p
    };
    let target = frac(s);
    let anchor = match s.weighted(&[5, 2]) { 0 => g.v3(s), _ => frac(s) };
    let dir = gen_dir(s, &anchor, &[target]);
    c.desc(|| format!("anchor={:?} dir={:?} box={:?}..{:?}", anchor, dir, lo, hi));
    let (line, nd) = match mk_line(&anchor, &dir) { Some(x) => x, None => return Ok(()) };
    let bb = BoundingBox3D::new(&p3(&lo), &p3(&hi)).expect("valid box");
    let got = intersection(&line, &bb);
    match ray_hits_box(&anchor, &nd, &lo, &hi) {
        None => {
            c.label("too close to call");
            Ok(())
        }
        Some(false) => {
            c.label("miss");
            ensure!(got.is_none(), "line/box invents", "no hit exists but {:?} is reported", got);
            Ok(())
        }
        Some(true) => {
            c.label("hit");
            c.nontrivial(true);
            let p = match got {
                Some(p) => v3(&p),
                None => return fail("line/box misses", "the line hits the box in front of its anchor but none is reported"),
            };
            let sc = mag(&[&anchor, &lo, &hi]);
            let (t0, t1) = match slab(&anchor, &nd, &lo, &hi) { Some(x) => x, None => return Ok(()) };
            let e0 = add3(&anchor, &mul3(&nd, t0));
            let e1 = add3(&anchor, &mul3(&nd, t1));
            let outside = t0 > 0.0;
            c.label_if(!outside, "anchor inside");
            let ok = near3(&p, &e0, sc) || (!outside && near3(&p, &e1, sc));
            ensure!(ok, "line/box wrong point", "reported {:?}, the line enters at {:?} and leaves at {:?}", p, e0, e1);
            Ok(())
        }
    }
}

/// as above with every axis scaled by its own power of two, so directions come close to parallel to the faces
fn scaled_box(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let mut lo = g.v3(s);
    let mut hi = [lo[0] + g.ext(s), lo[1] + g.ext(s), lo[2] + g.ext(s)];
    let mut anchor = g.v3(s);
    let mut target = lo;
    for i in 0..3 {
        target[i] += (hi[i] - lo[i]) * s.below(17) as f64 / 16.0;
    }
    let mut dir = match s.weighted(&[4, 1]) { 0 => sub3(&target, &anchor), _ => [s.int(-4, 4) as f64, s.int(-4, 4) as f64, s.int(-4, 4) as f64] };
    for i in 0..3 {
        let f = 2f64.powi(s.int(-40, 40) as i32);
        for v in [&mut lo, &mut hi, &mut anchor, &mut dir] {
            v[i] *= f;
        }
    }
    c.desc(|| format!("anchor={:?} dir={:?} box={:?}..{:?}", anchor, dir, lo, hi));
    let (line, nd) = match mk_line(&anchor, &dir) { Some(x) => x, None => return Ok(()) };
    let bb = match BoundingBox3D::new(&p3(&lo), &p3(&hi)) { Ok(b) => b, Err(_) => return fail("box refused", "minimum below maximum") };
    // the rounding of an axis depends on the numbers of that axis only
    let e: Vec<f64> = (0..3).map(|d| mag(&[&[lo[d]; 3], &[hi[d]; 3], &[anchor[d]; 3]])).map(|m| 1e-9 * m).collect();
    let grown = |f: f64| {
        let (mut a, mut b) = (lo, hi);
        for d in 0..3 {
            a[d] -= f * e[d];
            b[d] += f * e[d];
            if a[d] > b[d] {
                return None;
            }
        }
        slab(&anchor, &nd, &a, &b)
    };
    let got = intersection(&line, &bb);
    match (grown(-1.0), grown(1.0)) {
        (Some((_, t1)), Some((t0, _))) if t1 > 0.0 => {
            c.label("hit");
            c.nontrivial((0..3).any(|d| nd[d] != 0.0 && nd[d].abs() < 1e-6));
            let p = match got { Some(p) => v3(&p), None => return fail("line/box misses", "the line hits the box in front of its anchor but none is reported") };
            if t0 > 0.0 {
                let on = |d: usize| (p[d] - lo[d]).abs() <= e[d] || (p[d] - hi[d]).abs() <= e[d];
                let within = |d: usize| p[d] >= lo[d] - 4.0 * e[d] && p[d] <= hi[d] + 4.0 * e[d];
                ensure!((0..3).all(within), "line/box wrong point", "{:?} is not on the box", p);
                ensure!((0..3).any(on), "line/box wrong point", "{:?} is not on the surface of the box", p);
                let t = slab(&anchor, &nd, &lo, &hi).map(|t| t.0);
                if let Some(t) = t {
                    let w = add3(&anchor, &mul3(&nd, t));
                    ensure!((0..3).all(|d| (p[d] - w[d]).abs() <= 4.0 * e[d]), "line/box wrong point", "{:?}, but the line enters at {:?}", p, w);
                }
            }
            Ok(())
        }
        (_, None) => {
            c.label("miss");
            ensure!(got.is_none(), "line/box invents", "no hit exists but {:?} is reported", got);
            Ok(())
        }
        (_, Some((_, t1))) if t1 < 0.0 => {
            c.label("behind");
            ensure!(got.is_none(), "line/box invents", "the box is behind the anchor but {:?} is reported", got);
            Ok(())
        }
        _ => Ok(()),
    }
}

/// Some(Some(p)): surely hit at p; Some(None): surely not hit; None: too close to call
fn ray_tri(a: &V3, nd: &V3, t: &[V3; 3]) -> Option<Option<V3>> {
    let sc = mag(&[a, &t[0], &t[1], &t[2]]);
    let e1 = sub3(&t[1], &t[0]);
    let e2 = sub3(&t[2], &t[0]);
    let n = cross3(&e1, &e2);
    let l = len3(&n);
    let longest = len3(&e1).max(len3(&e2)).max(len3(&sub3(&t[2], &t[1])));
    if l <= 1e-6 * longest * longest || longest == 0.0 {
        return None;
    }
    let nn = mul3(&n, 1.0 / l);
    let b = dot3(&nn, nd);
    if b.abs() < 1e-9 {
        return None;
    }
    let r = dot3(&nn, &sub3(&t[0], a)) / b;
    let q = l / (longest * longest);
    let eps = (1e-7f64).min(1e-11 / q) * sc / b.abs();
    if r < -eps {
        return Some(None);
    }
    let p = add3(a, &mul3(nd, r));
    // signed distances to the edges, inside positive
    let mut m = f64::INFINITY;
    for k in 0..3 {
        let e = sub3(&t[(k + 1) % 3], &t[k]);
        let inward = cross3(&nn, &e);
        m = m.min(dot3(&inward, &sub3(&p, &t[k])) / len3(&e));
    }
    if m < -eps {
        return Some(None);
    }
    if r < eps || m < eps {
        return None;
    }
    Some(Some(p))
}
/// at small angles the hit point is only known along the ray
fn on_line(p: &V3, w: &V3, a: &V3, nd: &V3, t: &[V3; 3], sc: f64) -> bool {
    let n = cross3(&sub3(&t[1], &t[0]), &sub3(&t[2], &t[0]));
    let b = dot3(&n, nd).abs() / len3(&n);
    len3(&cross3(nd, &sub3(p, a))) <= 1e-9 * sc && len3(&sub3(p, w)) <= 1e-9 * sc / b
}
fn gen_tri(s: &mut Src, g: &Grid) -> [V3; 3] {
    [g.v3(s), g.v3(s), g.v3(s)]
}
fn bary(s: &mut Src, t: &[V3; 3]) -> V3 {
    let u = s.below(9) as f64 / 16.0;
    let v = s.below(9) as f64 / 16.0;
    add3(&add3(&mul3(&t[0], u), &mul3(&t[1], v)), &mul3(&t[2], 1.0 - u - v))
}

fn ray_triangle(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let t = gen_tri(s, &g);
    let mut anchor = g.v3(s);
    let target = bary(s, &t);
    let mut dir = gen_dir(s, &anchor, &[target]);
    if s.chance(1, 4) {
        // nearly in the plane of the triangle
        let (u, v) = (s.int(-8, 8) as f64, s.int(-8, 8) as f64);
        let n = cross3(&sub3(&t[1], &t[0]), &sub3(&t[2], &t[0]));
        let l = len3(&n);
        if l > 0.0 {
            anchor = add3(&t[0], &add3(&mul3(&sub3(&t[1], &t[0]), u), &mul3(&sub3(&t[2], &t[0]), v)));
            let longest = len3(&sub3(&t[1], &t[0])).max(len3(&sub3(&t[2], &t[0])));
            let h = longest / l * 2f64.powi(-(s.below(28) as i32)) * if s.bool() { 1.0 } else { -1.0 };
            anchor = add3(&anchor, &mul3(&n, h));
            let d = sub3(&target, &anchor);
            if d != [0.0; 3] {
                dir = d;
            }
            c.label("small angle");
        }
    }
    c.desc(|| format!("anchor={:?} dir={:?} triangle={:?}", anchor, dir, t));
    let (line, nd) = match mk_line(&anchor, &dir) { Some(x) => x, None => return Ok(()) };
    let ray = Ray3D::new(line);
    let want = match ray_tri(&anchor, &nd, &t) {
        None => {
            c.label("too close to call");
            return Ok(());
        }
        Some(w) => w,
    };
    c.nontrivial(want.is_some());
    c.label(if want.is_some() { "hit" } else { "miss" });
    let sc = mag(&[&anchor, &t[0], &t[1], &t[2]]);
    // every rotation and orientation of the corner list describes the same triangle
    for o in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]] {
        let got = intersection_ray_triangle(&ray, &p3(&t[o[0]]), &p3(&t[o[1]]), &p3(&t[o[2]]));
        match (&got, &want) {
            (None, None) => (),
            (Some(p), Some(w)) => ensure!(near3(&v3(p), w, sc * 10.0) || on_line(&v3(p), w, &anchor, &nd, &t, sc), "ray/triangle wrong point", "order {:?}: reported {:?}, hit lies at {:?}", o, v3(p), w),
            (None, Some(w)) => return fail("ray/triangle misses", format!("order {:?}: hit at {:?} not reported", o, w)),
            (Some(p), None) => return fail("ray/triangle invents", format!("order {:?}: reported {:?} but the ray misses", o, v3(p))),
        }
    }
    Ok(())
}

fn ray_mesh(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let huge = s.huge;
    s.huge &= s.bool();
    let verts = points3(s, &g, 3, 12);
    let mut faces = gen_faces(s, verts.len(), 20);
    if huge {
        let n = many_n(s);
        let mut r = Rng::new(s.draw(1 << 30));
        let m = verts.len() as u64;
        for _ in 0..n {
            let (a, d) = (r.next() % m, 1 + r.next() % (m - 1));
            let e = (d + r.next() % (m - 2)) % (m - 1) + 1;
            faces.push([a as usize, ((a + d) % m) as usize, ((a + e) % m) as usize]);
        }
        s.shuffle(&mut faces);
    }
    let faces = faces;
    let mut m: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = Mesh3D::default();
    for v in &verts {
        m.add_vertex(p3(v));
    }
    for f in &faces {
        if m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).is_err() {
            return fail("add connection", format!("valid connection {:?} refused", f));
        }
    }
    let anchor = g.v3(s);
    let targets: Vec<V3> = if faces.is_empty() { vec![] } else {
        let f = *s.pick(&faces);
        vec![bary(s, &[verts[f[0]], verts[f[1]], verts[f[2]]])]
    };
    let dir = gen_dir(s, &anchor, &targets);
    c.desc(|| format!("anchor={:?} dir={:?} verts={:?} faces={:?} ({})", anchor, dir, verts, &faces[..faces.len().min(300)], faces.len()));
    let (line, nd) = match mk_line(&anchor, &dir) { Some(x) => x, None => return Ok(()) };
    let ray = Ray3D::new(line);
    let mut sure: Vec<(V3, [V3; 3])> = vec![];
    let mut open = 0;
    for f in &faces {
        let t = [verts[f[0]], verts[f[1]], verts[f[2]]];
        match ray_tri(&anchor, &nd, &t) {
            None => open += 1,
            Some(Some(p)) => sure.push((p, t)),
            Some(None) => (),
        }
    }
    let mut got: Vec<Point3D> = vec![Point3D::new(7.0, 7.0, 7.0)];
    collect_intersections_ray_mesh(&ray, &m, &mut got);
    ensure!(got[0] == Point3D::new(7.0, 7.0, 7.0), "ray/mesh overwrites", "results collected earlier were overwritten");
    let got: Vec<V3> = got[1..].iter().map(v3).collect();
    c.nontrivial(!sure.is_empty());
    c.label_if(sure.len() > 1, "several hits");
    ensure!(got.len() >= sure.len() && got.len() <= sure.len() + open, "ray/mesh count", "{} intersections reported, {} faces are surely hit and {} too close to call", got.len(), sure.len(), open);
    let sc = 10.0 * mag(&verts.iter().chain(Some(&anchor)).collect::<Vec<_>>());
    let mut used = vec![false; got.len()];
    let mut first = 0;
    for (w, t) in &sure {
        while first < used.len() && used[first] {
            first += 1;
        }
        match (first..got.len()).find(|i| !used[*i] && (near3(&got[*i], w, sc) || on_line(&got[*i], w, &anchor, &nd, t, sc))) {
            Some(i) => used[i] = true,
            None => return fail("ray/mesh misses", format!("hit {:?} is not among {:?}", w, got)),
        }
    }
    Ok(())
}

struct Item {
    id: usize,
    b: Option<(V3, V3)>,
}
impl HasBoundingBox3DMaybe for Item {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        self.b.and_then(|(lo, hi)| BoundingBox3D::new(&p3(&lo), &p3(&hi)).ok())
    }
}

fn closest(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let small = Grid { range: 4, ..g };
    let item = |s: &mut Src| {
        let lo = g.v3(s);
        let gg = if s.bool() { small } else { g };
        let hi = [lo[0] + gg.ext(s), lo[1] + gg.ext(s), lo[2] + gg.ext(s)];
        Item { id: 0, b: if s.chance(1, 10) { None } else { Some((lo, hi)) } }
    };
    let mut items: Vec<Item> = if s.huge {
        let n = many_n(s);
        let mut r = Src::random(s.draw(1 << 30), 1.0);
        (0..n)
            .map(|_| {
                r.record.clear();
                item(&mut r)
            })
            .collect()
    } else {
        s.list(0, 12, item)
    };
    for (i, x) in items.iter_mut().enumerate() {
        x.id = i;
    }
    let anchor = g.v3(s);
    let centers: Vec<V3> = items.iter().filter_map(|i| i.b.map(|(a, b)| mul3(&add3(&a, &b), 0.5))).collect();
    let dir = gen_dir(s, &anchor, &centers);
    let (line, nd) = match mk_line(&anchor, &dir) { Some(x) => x, None => return Ok(()) };
    // boxes holding the anchor have no well defined entry in front of the ray: leave them out
    for i in &mut items {
        if let Some((lo, hi)) = i.b {
            let e = 1e-3;
            if (0..3).all(|d| anchor[d] >= lo[d] - e && anchor[d] <= hi[d] + e) {
                i.b = None;
            }
        }
    }
    let ray = Ray3D::new(line);
    c.desc(|| format!("anchor={:?} dir={:?} boxes={:?} ({})", anchor, dir, items.iter().take(300).map(|i| i.b).collect::<Vec<_>>(), items.len()));
    // (id, sure, distance of entry)
    let mut hits: Vec<(usize, bool, f64)> = vec![];
    for i in &items {
        if let Some((lo, hi)) = i.b {
            let t0 = || slab(&anchor, &nd, &lo, &hi).map(|t| t.0);
            match ray_hits_box(&anchor, &nd, &lo, &hi) {
                Some(true) => { if let Some(t) = t0() { hits.push((i.id, true, t)) } }
                Some(false) => (),
                None => hits.push((i.id, false, t0().unwrap_or(f64::NAN))),
            }
        }
    }
    let sure: Vec<_> = hits.iter().filter(|h| h.1).collect();
    c.nontrivial(sure.len() >= 2);
    c.label_if(sure.is_empty(), "no sure hit");
    let best = sure.iter().map(|h| h.2).fold(f64::INFINITY, f64::min);
    let corners: Vec<V3> = items.iter().filter_map(|i| i.b).flat_map(|b| vec![b.0, b.1]).collect();
    let sc = mag(&corners[..].iter().chain(Some(&anchor)).collect::<Vec<_>>());
    let judge = |name: &str, got: Option<(V3, usize)>| -> Res {
        match got {
            None => ensure!(sure.is_empty(), &format!("{} misses", name), "{}: none reported, but {:?} are hit", name, sure),
            Some((p, id)) => {
                let h = match hits.iter().find(|h| h.0 == id) {
                    Some(h) => h,
                    None => return fail(&format!("{} invents", name), format!("{}: item {} is not hit", name, id)),
                };
                let d = len3(&sub3(&p, &anchor));
                ensure!(d <= best + 1e-8 * sc, &format!("{} not closest", name), "{}: item {} at distance {}, but the nearest hit is at {}", name, id, d, best);
                if h.1 {
                    ensure!((d - h.2).abs() <= 1e-8 * sc, &format!("{} wrong point", name), "{}: item {} reported at {:?} (distance {}), entered at distance {}", name, id, p, d, h.2);
                }
            }
        }
        Ok(())
    };
    judge("closest_intersecting", closest_intersecting(&ray, items.iter()).map(|(p, i)| (v3(&p), i.id)))?;
    judge("index_closest_intersecting", index_closest_intersecting(&ray, items.iter()).map(|(p, i)| (v3(&p), i)))?;
    let mut its: Vec<Item> = items.iter().map(|i| Item { id: i.id, b: i.b }).collect();
    judge("closest_intersecting_mut", closest_intersecting_mut(&ray, its.iter_mut()).map(|(p, i)| (v3(&p), i.id)))?;
    let mut seen: Vec<(V3, usize)> = vec![];
    for_each_intersecting(&ray, its.iter_mut(), &mut |p: &Point3D, i: &mut Item| seen.push((v3(p), i.id)));
    let mut visits = vec![(0, f64::NAN); items.len()];
    for x in &seen {
        visits[x.1].0 += 1;
        if visits[x.1].0 == 1 {
            visits[x.1].1 = len3(&sub3(&x.0, &anchor));
        }
    }
    let mut hit = vec![false; items.len()];
    for h in &hits {
        hit[h.0] = true;
        let n = visits[h.0].0;
        ensure!(n == 1 || (!h.1 && n == 0), "for_each_intersecting misses", "item {} visited {} times", h.0, n);
        if h.1 {
            let d = visits[h.0].1;
            ensure!((d - h.2).abs() <= 1e-8 * sc, "for_each_intersecting wrong point", "item {}: distance {} expected {}", h.0, d, h.2);
        }
    }
    for x in &seen {
        ensure!(hit[x.1], "for_each_intersecting invents", "item {} is not hit", x.1);
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "A case is a line or ray (aimed at a point of the target, along an axis, or free) with a box, a triangle in all six corner orders, a mesh of up to 20 (or 70000) faces, or a list of up to 12 (or 70000) boxes. Non-trivial: something is surely hit (closest: at least two boxes are).",
        assumptions: &["hits closer than about 1e-6 to an edge, rays within 1e-6 of a triangle's plane and degenerate triangles are not judged", "for a line anchored inside a box either crossing of the surface is accepted"],
        subs: vec![sub("line_box", 600_000, line_box).large(50), sub("scaled_box", 300_000, scaled_box), sub("ray_triangle", 600_000, ray_triangle).large(50), sub("ray_mesh", 200_000, ray_mesh).large(50), sub("closest", 300_000, closest).large(50), sub("ray_mesh-many", 60, ray_mesh).huge(), sub("closest-many", 100, closest).huge()],
    }
}
