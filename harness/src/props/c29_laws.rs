use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// parameters an object is made of: the model
type Key = Vec<f64>;

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// keys for sets of models, -0.0 is 0.0
fn bits(k: &Key) -> Vec<u64> {
    k.iter().map(|x| (x + 0.0).to_bits()).collect()
}

//------------------------------------------------------------------------------
// the laws

fn laws_eq<T: PartialEq + Clone + Debug>(c: &mut Ctx, what: &str, l: &[(T, Key)]) -> Res {
    c.desc(|| format!("{} {:?}", what, l));
    let mut equal = 0;
    let mut different = 0;
    for (i, (a, ka)) in l.iter().enumerate() {
        ensure!(a.clone() == *a && !(a.clone() != *a), format!("clone: {}", what), "{}: {:?} is not equal to its clone", what, a);
        for (j, (b, kb)) in l.iter().enumerate() {
            ensure!((a == b) == (ka == kb), format!("equality: {}", what), "{}: {:?} == {:?} is {}, made of {:?} and {:?}", what, a, b, a == b, ka, kb);
            ensure!((a != b) != (a == b), format!("inequality: {}", what), "{}: {:?} {:?} == is {}, != is {}", what, a, b, a == b, a != b);
            if i < j {
                if ka == kb { equal += 1 } else { different += 1 }
            }
        }
    }
    c.nontrivial(different > 0);
    c.label_if(equal > 0, "equal objects");
    let close = |a: &Key, b: &Key| a.len() == b.len() && a.iter().zip(b).filter(|(x, y)| x != y).count() == 1;
    c.label_if(l.iter().any(|a| l.iter().any(|b| close(&a.1, &b.1))), "objects differing in one parameter");
    Ok(())
}
fn laws_hash<T: Eq + Hash + Debug>(what: &str, l: &[(T, Key)]) -> Res {
    for (a, ka) in l {
        for (b, kb) in l {
            ensure!(ka != kb || hash(a) == hash(b), format!("hash: {}", what), "{}: {:?} and {:?} are equal, but hash differently", what, a, b);
        }
    }
    let set: HashSet<&T> = l.iter().map(|x| &x.0).collect();
    let model: HashSet<Vec<u64>> = l.iter().map(|x| bits(&x.1)).collect();
    ensure!(set.len() == model.len(), format!("hash set: {}", what), "{}: {} of {} different objects kept", what, set.len(), model.len());
    for x in l {
        ensure!(set.contains(&x.0), format!("hash set: {}", what), "{}: {:?} not found", what, x.0);
    }
    Ok(())
}
fn laws_partial<T: PartialOrd + Debug>(what: &str, l: &[(T, Key)]) -> Res {
    for (a, _) in l {
        for (b, _) in l {
            let o = a.partial_cmp(b);
            ensure!(o.is_some(), format!("comparability: {}", what), "{}: {:?} and {:?}, finite, can't be compared", what, a, b);
            ensure!((o == Some(Ordering::Equal)) == (a == b), format!("partial order and equality: {}", what), "{}: {:?} {:?} compare as {:?}, == is {}", what, a, b, o, a == b);
            ensure!(b.partial_cmp(a) == o.map(|x| x.reverse()), format!("antisymmetry: {}", what), "{}: {:?} {:?} compare as {:?} and, the other way, {:?}", what, a, b, o, b.partial_cmp(a));
            let ops = (a < b, a <= b, a > b, a >= b);
            let w = (o == Some(Ordering::Less), o != Some(Ordering::Greater), o == Some(Ordering::Greater), o != Some(Ordering::Less));
            ensure!(ops == w, format!("operators: {}", what), "{}: {:?} {:?} compare as {:?}, < <= > >= are {:?}", what, a, b, o, ops);
            for (d, _) in l {
                ensure!(!(a <= b && b <= d) || a <= d, format!("transitivity: {}", what), "{}: {:?} <= {:?} <= {:?}", what, a, b, d);
            }
        }
    }
    Ok(())
}
fn laws_ord<T: Ord + Debug + Clone>(what: &str, l: &[(T, Key)]) -> Res {
    for (a, _) in l {
        for (b, _) in l {
            let o = a.cmp(b);
            ensure!(Some(o) == a.partial_cmp(b), format!("order and partial order: {}", what), "{}: {:?} {:?} cmp is {:?}, partial_cmp {:?}", what, a, b, o, a.partial_cmp(b));
            ensure!((o == Ordering::Equal) == (a == b), format!("order and equality: {}", what), "{}: {:?} {:?} cmp is {:?}, == is {}", what, a, b, o, a == b);
            let (min, max) = if o == Ordering::Greater { (b, a) } else { (a, b) };
            ensure!(a.clone().min(b.clone()) == *min && a.clone().max(b.clone()) == *max, format!("min and max: {}", what), "{}: {:?} {:?}", what, a, b);
        }
    }
    let set: BTreeSet<&T> = l.iter().map(|x| &x.0).collect();
    let model: BTreeSet<Vec<u64>> = l.iter().map(|x| bits(&x.1)).collect();
    ensure!(set.len() == model.len(), format!("ordered set: {}", what), "{}: {} of {} different objects kept in a BTreeSet of {:?}", what, set.len(), model.len(), l);
    for x in l {
        ensure!(set.contains(&x.0), format!("ordered set: {}", what), "{}: {:?} not found", what, x.0);
    }
    let mut v: Vec<&(T, Key)> = l.iter().collect();
    v.sort_by(|x, y| x.0.cmp(&y.0));
    for w in v.windows(2) {
        ensure!(w[0].0 <= w[1].0, format!("sorting: {}", what), "{}: {:?} {:?}", what, w[0].0, w[1].0);
    }
    // equal objects end up next to each other, so that dedup works
    v.dedup_by(|x, y| x.0 == y.0);
    ensure!(v.len() == model.len(), format!("sort and dedup: {}", what), "{}: {} of {} different objects left", what, v.len(), model.len());
    Ok(())
}

//------------------------------------------------------------------------------
// objects: some values of few parameters, often copies of another with little changed

/// `signed` coordinates followed by `pos` positive values
fn params(s: &mut Src, signed: usize, pos: usize) -> Vec<Key> {
    fn signed_value(s: &mut Src) -> f64 {
        match s.weighted(&[6, 2, 1]) {
        0 => *s.pick(&[0.0, -0.0, 1.0, -1.0, 2.0]),
        1 => s.int(-9, 9) as f64 / 4.0,
        _ => *s.pick(&[1e-300, -1e-300, 1e300, 0.1, 0.30000000000000004, 0.3, f64::MIN_POSITIVE, f64::MAX]),
        }
    }
    fn pos_value(s: &mut Src) -> f64 {
        *s.pick(&[1.0, 2.0, 0.5, 0.25, 4.0, 1e-300, 1e300])
    }
    let mut l: Vec<Key> = Vec::new();
    let n = 2 + s.below(7);
    for _ in 0..n {
        let k = if l.is_empty() || s.chance(1, 3) {
            (0..signed + pos).map(|i| if i < signed { signed_value(s) } else { pos_value(s) }).collect()
        } else {
            let mut k: Key = s.pick(&l).clone();
            match s.below(5) {
                // nearly the same
                4 if signed + pos > 0 => {
                    let i = s.below(signed + pos);
                    let x = k[i];
                    let d = *s.pick(&[f64::EPSILON, 1e-13, 1e-10, 1e-9, 1e-7, 1e-5]);
                    let y = if x == 0.0 { if i < signed { d } else { 1.0 } } else { x * (1.0 + d) };
                    if y.is_finite() {
                        k[i] = y;
                    }
                }
                // the same, once more
                0 => (),
                // the sign of one zero
                1 => {
                    let z: Vec<usize> = (0..signed).filter(|i| k[*i] == 0.0).collect();
                    if !z.is_empty() {
                        let i = *s.pick(&z);
                        k[i] = -k[i];
                    }
                }
                // two coordinates swapped: the same distance from the origin
                2 if signed > 1 => {
                    let (i, j) = (s.below(signed), s.below(signed));
                    k.swap(i, j);
                }
                _ if signed + pos > 0 => {
                    let i = s.below(signed + pos);
                    k[i] = if i < signed { signed_value(s) } else { pos_value(s) };
                }
                _ => (),
            }
            k
        };
        l.push(k);
    }
    l
}
fn pos(x: f64) -> Positive {
    Positive::new(x).unwrap()
}
fn pt3(k: &[f64]) -> Point3D {
    Point3D::new(k[0], k[1], k[2])
}
fn pt2(k: &[f64]) -> Point2D {
    Point2D::new(k[0], k[1])
}
/// directions are compared by what can be read of them
fn n3(k: &[f64]) -> Norm3D {
    Norm3D::new(pt3(k)).unwrap_or_else(|_| Norm3D::norm_x())
}
fn n2(k: &[f64]) -> Norm2D {
    Norm2D::new(pt2(k)).unwrap_or_else(|_| Norm2D::norm_x())
}
fn make<T>(l: Vec<Key>, f: impl Fn(&[f64]) -> T) -> Vec<(T, Key)> {
    l.into_iter().map(|k| (f(&k), k)).collect()
}
fn make_key<T>(l: Vec<Key>, f: impl Fn(&[f64]) -> (T, Key)) -> Vec<(T, Key)> {
    l.into_iter().map(|k| f(&k)).collect()
}
fn all<T: Ord + Hash + Clone + Debug>(c: &mut Ctx, what: &'static str, l: Vec<(T, Key)>) -> Res {
    c.label(what);
    laws_eq(c, what, &l)?;
    laws_hash(what, &l)?;
    laws_partial(what, &l)?;
    laws_ord(what, &l)
}
/// equality, hash and a partial order
fn unordered<T: Eq + Hash + PartialOrd + Clone + Debug>(c: &mut Ctx, what: &'static str, l: Vec<(T, Key)>) -> Res {
    c.label(what);
    laws_eq(c, what, &l)?;
    laws_hash(what, &l)?;
    laws_partial(what, &l)
}
/// equality and a partial order
fn partial<T: PartialOrd + Clone + Debug>(c: &mut Ctx, what: &'static str, l: Vec<(T, Key)>) -> Res {
    c.label(what);
    laws_eq(c, what, &l)?;
    laws_partial(what, &l)
}

fn b3(k: &[f64]) -> Box3D {
    Box3D { center: pt3(k), size_x: pos(k[3]), size_y: pos(k[4]), size_z: pos(k[5]) }
}
fn b2(k: &[f64]) -> Box2D {
    Box2D { center: pt2(k), size_x: pos(k[2]), size_y: pos(k[3]) }
}
fn sp(k: &[f64]) -> Sphere {
    Sphere { center: pt3(k), radius: pos(k[3]) }
}
fn ci(k: &[f64]) -> Circle {
    Circle { center: pt2(k), radius: pos(k[2]) }
}
/// min and max of a box: the second corner lies beyond the first
fn box_keys(s: &mut Src, dim: usize) -> Vec<Key> {
    let small = |x: f64| if x.abs() > 1e15 || (x != 0.0 && x.abs() < 1e-15) { 3.0 } else { x };
    params(s, dim, dim)
        .into_iter()
        .map(|k| {
            let mut r: Key = k[..dim].iter().map(|x| small(*x)).collect();
            for i in 0..dim {
                let e = k[dim + i];
                r.push(r[i] + if e > 1e15 { 8.0 } else if e < 1e-15 { 16.0 } else { e });
            }
            r
        })
        .collect()
}

fn primitives(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(18) {
        0 => { let l = params(s, 3, 0); all(c, "Point3D", make(l, pt3)) }
        1 => { let l = params(s, 2, 0); all(c, "Point2D", make(l, pt2)) }
        2 => { let l = params(s, 3, 0); all(c, "Norm3D", make_key(l, |k| { let n = n3(k); let key = v3(&n).to_vec(); (n, key) })) }
        3 => { let l = params(s, 2, 0); all(c, "Norm2D", make_key(l, |k| { let n = n2(k); let key = v2(&n).to_vec(); (n, key) })) }
        4 => { let l = params(s, 3, 3); all(c, "Box3D", make(l, b3)) }
        5 => { let l = params(s, 2, 2); all(c, "Box2D", make(l, b2)) }
        6 => { let l = params(s, 3, 1); all(c, "Sphere", make(l, sp)) }
        7 => { let l = params(s, 2, 1); all(c, "Circle", make(l, ci)) }
        8 => { let l = params(s, 3, 3); all(c, "FilterBox3D", make(l, |k| FilterBox3D::new(b3(k)))) }
        9 => { let l = params(s, 2, 2); all(c, "FilterBox2D", make(l, |k| FilterBox2D::new(b2(k)))) }
        10 => { let l = params(s, 3, 1); all(c, "FilterSphere", make(l, |k| FilterSphere::new(sp(k)))) }
        11 => { let l = params(s, 2, 1); all(c, "FilterCircle", make(l, |k| FilterCircle::new(ci(k)))) }
        12 => { let l = box_keys(s, 3); all(c, "BoundingBox3D", make(l, |k| BoundingBox3D::new(&pt3(k), &pt3(&k[3..])).unwrap())) }
        13 => { let l = box_keys(s, 2); all(c, "BoundingBox2D", make(l, |k| BoundingBox2D::new(&pt2(k), &pt2(&k[2..])).unwrap())) }
        14 => { let l = params(s, 0, 1); unordered(c, "Positive", make(l, |k| pos(k[0]))) }
        15 => { let l = params(s, 1, 0).into_iter().map(|k| vec![if k[0] == 0.0 { k[0] } else { k[0].abs() }]).collect(); unordered(c, "NonNegative", make(l, |k| NonNegative::new(k[0]).unwrap())) }
        16 => {
            let l = params(s, 3, 0).into_iter().map(|k| k.iter().map(|x| (x.abs() * 50.0).min(255.0).floor()).collect()).collect();
            all(c, "Rgb", make(l, |k| Rgb::new(k[0] as u8, k[1] as u8, k[2] as u8)))
        }
        _ => {
            let l = params(s, 3, 0).into_iter().map(|k| k.iter().map(|x| (x.abs() * 4.0).min(9.0).floor()).collect()).collect();
            all(c, "Face3", make(l, |k| Face3::new(VId(k[0] as usize), VId(k[1] as usize), VId(k[2] as usize))))
        }
    }
}
/// key of a point and a direction
fn anchored3(k: &[f64]) -> (Line3D, Key) {
    let d = n3(&k[3..]);
    let mut key = k[..3].to_vec();
    key.extend(v3(&d).to_vec());
    (Line3D::new(pt3(k), d), key)
}
fn anchored2(k: &[f64]) -> (Line2D, Key) {
    let d = n2(&k[2..]);
    let mut key = k[..2].to_vec();
    key.extend(v2(&d).to_vec());
    (Line2D::new(pt2(k), d), key)
}
fn lines(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(9) {
        0 => { let l = params(s, 6, 0); all(c, "Line3D", make_key(l, anchored3)) }
        1 => { let l = params(s, 4, 0); all(c, "Line2D", make_key(l, anchored2)) }
        2 => { let l = params(s, 6, 0); all(c, "Ray3D", make_key(l, |k| { let (l, k) = anchored3(k); (Ray3D::new(l), k) })) }
        3 => { let l = params(s, 4, 0); all(c, "Ray2D", make_key(l, |k| { let (l, k) = anchored2(k); (Ray2D::new(l), k) })) }
        4 => { let l = params(s, 6, 0); unordered(c, "LineSegment3D", make(l, |k| LineSegment3D::new(pt3(k), pt3(&k[3..])))) }
        5 => { let l = params(s, 4, 0); unordered(c, "LineSegment2D", make(l, |k| LineSegment2D::new(pt2(k), pt2(&k[2..])))) }
        6 => {
            let l = params(s, 9, 0);
            all(c, "Plane3D", make_key(l, |k| {
                let (u, v) = (n3(&k[3..]), n3(&k[6..]));
                let mut key = k[..3].to_vec();
                key.extend(v3(&u).to_vec());
                key.extend(v3(&v).to_vec());
                (Plane3D::new(pt3(k), u, v), key)
            }))
        }
        7 => {
            let l = params(s, 16, 0);
            partial(c, "Matrix4", make(l, |k| {
                let mut m = Matrix4::identity();
                for i in 0..16 { m.data[i / 4][i % 4] = k[i]; }
                m
            }))
        }
        _ => {
            let l = params(s, 9, 0);
            partial(c, "Matrix3", make(l, |k| {
                let mut m = Matrix3::identity();
                for i in 0..9 { m.data[i / 3][i % 3] = k[i]; }
                m
            }))
        }
    }
}
/// lists of parameters of different lengths: whole groups are taken off the end
fn lists(s: &mut Src, dim: usize) -> Vec<Key> {
    let n = 1 + s.below(3);
    // behind what all of them have in common
    let before: Key = if s.huge {
        let m = many_n(s);
        (0..m * dim).map(|i| (i % 251) as f64).collect()
    } else if s.chance(1, 25) {
        let m = s.usize(1, 300);
        (0..m * dim).map(|i| (i % 17) as f64).collect()
    } else {
        vec![]
    };
    params(s, n * dim, 0)
        .into_iter()
        .map(|mut k| {
            if s.chance(1, 3) {
                k.truncate(s.below(n + 1) * dim);
            }
            if before.is_empty() { k } else { [&before[..], &k[..]].concat() }
        })
        .collect()
}
fn cloud3(k: &[f64]) -> PointCloud3D<Point3D> {
    let mut c = PointCloud3D::new();
    for p in k.chunks(3) { c.push(pt3(p)); }
    c
}
fn cloud2(k: &[f64]) -> PointCloud2D<Point2D> {
    let mut c = PointCloud2D::new();
    for p in k.chunks(2) { c.push(pt2(p)); }
    c
}
/// all points used by faces of the first vertices
fn meshes<IC: IsIndexContainer>(s: &mut Src) -> Vec<(Mesh3D<Point3D, PointCloud3D<Point3D>, IC>, Key)> {
    let ks: Vec<Key> = lists(s, 3);
    let faces: Vec<Vec<usize>> = vec![vec![], vec![0, 1, 2], vec![1, 0, 2], vec![0, 0, 0], vec![0, 1, 2, 2, 1, 0]];
    ks.into_iter()
        .map(|k| {
            let mut m = Mesh3D::default();
            for p in k.chunks(3) { m.add_vertex(pt3(p)); }
            let mut key = vec![k.len() as f64];
            key.extend(&k);
            for f in s.pick(&faces).chunks(3) {
                if f.iter().all(|i| *i < k.len() / 3) && m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).is_ok() {
                    key.extend(f.iter().map(|x| *x as f64));
                }
            }
            (m, key)
        })
        .collect()
}
fn containers(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(8) {
        0 => { let l = lists(s, 3); all(c, "PointCloud3D", make(l, cloud3)) }
        1 => { let l = lists(s, 2); all(c, "PointCloud2D", make(l, cloud2)) }
        2 => { let l = lists(s, 3); all(c, "Polygon3D", make(l, |k| { Polygon3D::from(cloud3(k)) })) }
        3 => { let l = lists(s, 2); all(c, "Polygon2D", make(l, |k| { Polygon2D::from(cloud2(k)) })) }
        4 => {
            let l: Vec<Key> = lists(s, 3).into_iter().map(|k| k.iter().map(|x| (*x as f32) as f64).map(|x| if x.is_finite() { x } else { 7.0 }).collect()).collect();
            partial(c, "PointCloud3Df32", make(l, |k| {
                let mut p: PointCloud3Df32<Point3D> = PointCloud3Df32::default();
                for v in k.chunks(3) { IsPushable::push(&mut p, pt3(v)); }
                p
            }))
        }
        5 => { let l = meshes::<Vec<usize>>(s); all(c, "Mesh3D", l) }
        6 => {
            let l = params(s, 3, 0).into_iter().map(|k| k.iter().map(|x| (x.abs() * 4.0).min(9.0).floor()).collect()).collect();
            all(c, "ids", make(l, |k: &[f64]| (VId(k[0] as usize), EId(k[1] as usize), FId(k[2] as usize))))
        }
        _ => {
            let l = lists(s, 3);
            c.label("view");
            all(c, "PointCloud3D of boxes", make(l, |k| {
                let mut c = PointCloud3D::new();
                for p in cloud3(k).data { c.push(Sphere { center: p, radius: pos(1.0) }); }
                c
            }))
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        rule: "at least two of the generated objects differ",
        assumptions: &["finite parameters; -0.0 and 0.0 are the same value", "directions are compared by the components which can be read of them"],
        subs: vec![sub("primitives", 300_000, primitives), sub("lines", 200_000, lines), sub("containers", 200_000, containers), sub("containers-many", 20, containers).huge()],
    }
}
