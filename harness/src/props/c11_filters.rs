use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;
use std::rc::Rc;

/// a filter of any shape, usable inside the generic combinators
pub struct W<T>(pub Rc<dyn IsFilter<T>>);
impl<T> Clone for W<T> {
    fn clone(&self) -> Self {
        W(self.0.clone())
    }
}
impl<T> IsFilter<T> for W<T> {
    fn is_allowed(&self, x: &T) -> bool {
        self.0.is_allowed(x)
    }
}
/// filter, its meaning and its description
pub struct Tree<T> {
    pub f: W<T>,
    pub want: Rc<dyn Fn(&V3) -> bool>,
    pub text: String,
    pub leaves: usize,
    /// places on and next to the surface of the parts
    pub spots: Vec<V3>,
}
impl<T> Clone for Tree<T> {
    fn clone(&self) -> Self {
        Tree { f: self.f.clone(), want: self.want.clone(), text: self.text.clone(), leaves: self.leaves, spots: self.spots.clone() }
    }
}

pub trait Space: Sized + 'static {
    fn pt(v: &V3) -> Self;
    fn shape(s: &mut Src, g: &Grid) -> Tree<Self>;
}

fn leaf<T: 'static>(f: impl IsFilter<T> + 'static, want: impl Fn(&V3) -> bool + 'static, text: String) -> Tree<T> {
    Tree { f: W(Rc::new(f)), want: Rc::new(want), text, leaves: 1, spots: vec![] }
}
impl<T> Tree<T> {
    fn with(mut self, spots: Vec<V3>) -> Self {
        self.spots = spots;
        self
    }
}
/// on a sphere or the face of a box, or next to it by 1/4096 of its size
fn near_surface(s: &mut Src, g: &Grid, ctr: &V3, half: &V3) -> Vec<V3> {
    if !s.chance(1, 3) {
        return vec![];
    }
    // squares stay exact
    let room = g.fine == 0.0 && g.range <= 800;
    (0..2).map(|_| {
        let k = s.below(3);
        let d = if room { s.int(-1, 1) as f64 / 4096.0 } else { 0.0 };
        let mut p = *ctr;
        p[k] += half[k] * (1.0 + d) * if s.bool() { 1.0 } else { -1.0 };
        p
    }).collect()
}
fn pos(x: f64) -> Positive {
    Positive::new(x).unwrap()
}
const FACTORS: [f64; 4] = [0.5, 2.0, 4.0, 0.25];

impl Space for Point3D {
    fn pt(v: &V3) -> Self {
        p3(v)
    }
    fn shape(s: &mut Src, g: &Grid) -> Tree<Self> {
        let mut ctr = g.v3(s);
        let mut sz = [g.ext(s), g.ext(s), g.ext(s)];
        match s.below(3) {
            0 => {
                let mut f = if s.bool() {
                    let (lo, hi) = ([0, 1, 2].map(|k| ctr[k] - sz[k] / 2.0), [0, 1, 2].map(|k| ctr[k] + sz[k] / 2.0));
                    <FilterBox3D as From<BoundingBox3D>>::from(BoundingBox3D::new(&p3(&lo), &p3(&hi)).unwrap())
                } else {
                    FilterBox3D::new(Box3D { center: p3(&ctr), size_x: pos(sz[0]), size_y: pos(sz[1]), size_z: pos(sz[2]) })
                };
                modify3(s, g, &mut f, &mut ctr, &mut sz);
                let t = format!("box3d(center {:?}, size {:?})", ctr, sz);
                leaf(f, move |p| (0..3).all(|k| (p[k] - ctr[k]).abs() * 2.0 <= sz[k]), t).with(near_surface(s, g, &ctr, &mul3(&sz, 0.5)))
            }
            1 => {
                let mut f = FilterSphere::new(Sphere { center: p3(&ctr), radius: pos(sz[0]) });
                modify3(s, g, &mut f, &mut ctr, &mut sz);
                let r = sz[0];
                leaf(f, move |p| d2(p, &ctr) <= r * r, format!("sphere(center {:?}, radius {:?})", ctr, r)).with(near_surface(s, g, &ctr, &[r; 3]))
            }
            _ => {
                let pts = points3(s, g, 0, 12);
                let mut t = KdTree::default();
                t.build(pc3(&pts)).ok();
                let n = s.below(5);
                let mut f = FilterOutlier3D::new(t, pos(sz[0]), n);
                if s.chance(1, 3) {
                    let k = *s.pick(&FACTORS);
                    f.scale(pos(k));
                    sz[0] *= k;
                }
                let r = sz[0];
                let text = format!("outlier(at least {} of {:?} within {})", n, pts, r);
                let spots = match pts.get(0) { Some(q) => near_surface(s, g, q, &[r; 3]), None => vec![] };
                leaf(f, move |p| pts.iter().filter(|q| d2(p, q) <= r * r).count() >= n, text).with(spots)
            }
        }
    }
}
/// the editing operations the shape filters offer
fn modify3<F: IsEditable3D + IsScalable>(s: &mut Src, g: &Grid, f: &mut F, ctr: &mut V3, sz: &mut V3) {
    if s.chance(1, 3) {
        let k = *s.pick(&FACTORS);
        f.scale(pos(k));
        *sz = mul3(sz, k);
    }
    if s.chance(1, 3) {
        let v = g.v3(s);
        match s.below(3) {
            0 => {
                f.set_x(v[0]);
                f.set_y(v[1]);
                f.set_z(v[2]);
            }
            1 => {
                for k in 0..3 {
                    f.set_position(k, v[k]).unwrap();
                }
            }
            _ => {
                let k = s.below(3);
                let mut w = *ctr;
                w[k] = v[k];
                f.set_position(k, v[k]).unwrap();
                *ctr = w;
                return;
            }
        }
        *ctr = v;
    }
}
fn modify2<F: IsEditable2D + IsScalable>(s: &mut Src, g: &Grid, f: &mut F, ctr: &mut V3, sz: &mut V3) {
    if s.chance(1, 3) {
        let k = *s.pick(&FACTORS);
        f.scale(pos(k));
        *sz = mul3(sz, k);
    }
    if s.chance(1, 3) {
        let v = g.v3(s);
        if s.bool() {
            f.set_x(v[0]);
            f.set_y(v[1]);
        } else {
            f.set_position(0, v[0]).unwrap();
            f.set_position(1, v[1]).unwrap();
        }
        *ctr = v;
    }
}

impl Space for Point2D {
    fn pt(v: &V3) -> Self {
        Point2D::new(v[0], v[1])
    }
    fn shape(s: &mut Src, g: &Grid) -> Tree<Self> {
        let mut ctr = g.v3(s);
        let mut sz = [g.ext(s), g.ext(s), 1.0];
        match s.below(2) {
            0 => {
                let mut f = if s.bool() {
                    let (lo, hi) = ([0, 1].map(|k| ctr[k] - sz[k] / 2.0), [0, 1].map(|k| ctr[k] + sz[k] / 2.0));
                    <FilterBox2D as From<BoundingBox2D>>::from(BoundingBox2D::new(&p2(&lo), &p2(&hi)).unwrap())
                } else {
                    FilterBox2D::new(Box2D { center: Point2D::new(ctr[0], ctr[1]), size_x: pos(sz[0]), size_y: pos(sz[1]) })
                };
                modify2(s, g, &mut f, &mut ctr, &mut sz);
                let t = format!("box2d(center {:?}, size {:?})", &ctr[..2], &sz[..2]);
                leaf(f, move |p| (0..2).all(|k| (p[k] - ctr[k]).abs() * 2.0 <= sz[k]), t).with(near_surface(s, g, &ctr, &mul3(&sz, 0.5)))
            }
            _ => {
                let mut f = FilterCircle::new(Circle { center: Point2D::new(ctr[0], ctr[1]), radius: pos(sz[0]) });
                modify2(s, g, &mut f, &mut ctr, &mut sz);
                let r = sz[0];
                leaf(f, move |p| (p[0] - ctr[0]).powi(2) + (p[1] - ctr[1]).powi(2) <= r * r, format!("circle(center {:?}, radius {:?})", &ctr[..2], r)).with(near_surface(s, g, &ctr, &[r; 3]))
            }
        }
    }
}

/// a closure as a filter
struct Probe<T>(Rc<dyn Fn(&T) -> bool>);
impl<T> IsFilter<T> for Probe<T> {
    fn is_allowed(&self, x: &T) -> bool {
        (self.0)(x)
    }
}

pub fn gen_tree<T: Space>(s: &mut Src, g: &Grid, depth: usize) -> Tree<T> {
    let k = if depth == 0 { s.weighted(&[6, 1, 1]) } else { s.weighted(&[6, 1, 1, 3, 3, 3, 3, 2, 2, 3]) };
    match k {
        0 => T::shape(s, g),
        1 => leaf(FilterAllow::new(), |_| true, "allow".into()),
        2 => leaf(FilterDeny::new(), |_| false, "deny".into()),
        3 | 4 | 5 | 9 => {
            let (a, b) = (gen_tree::<T>(s, g, depth - 1), gen_tree::<T>(s, g, depth - 1));
            let (wa, wb) = (a.want.clone(), b.want.clone());
            let leaves = a.leaves + b.leaves;
            let spots = [a.spots, b.spots].concat();
            let (f, want, name): (Rc<dyn IsFilter<T>>, Rc<dyn Fn(&V3) -> bool>, &str) = match k {
                3 => (Rc::new(FilterAND::new(a.f, b.f)), Rc::new(move |p| { let (x, y) = (wa(p), wb(p)); x && y }), "and"),
                4 => (Rc::new(FilterOR::new(a.f, b.f)), Rc::new(move |p| { let (x, y) = (wa(p), wb(p)); x || y }), "or"),
                5 => (Rc::new(FilterXOR::new(a.f, b.f)), Rc::new(move |p| wa(p) != wb(p)), "xor"),
                _ => (Rc::new(FilterOuterInner::new(a.f, b.f)), Rc::new(move |p| { let (x, y) = (wa(p), wb(p)); x && !y }), "outer_inner"),
            };
            Tree { f: W(f), want, text: format!("{}({}, {})", name, a.text, b.text), leaves, spots }
        }
        6 => {
            let a = gen_tree::<T>(s, g, depth - 1);
            let wa = a.want.clone();
            Tree { f: W(Rc::new(FilterNegate::new(a.f))), want: Rc::new(move |p| !wa(p)), text: format!("not({})", a.text), leaves: a.leaves, spots: a.spots }
        }
        _ => {
            let parts: Vec<Tree<T>> = (0..s.below(4)).map(|_| gen_tree::<T>(s, g, depth - 1)).collect();
            let text = parts.iter().map(|p| p.text.clone()).collect::<Vec<_>>().join(", ");
            let leaves = parts.iter().map(|p| p.leaves).sum();
            let spots = parts.iter().flat_map(|p| p.spots.clone()).collect();
            let wants: Vec<_> = parts.iter().map(|p| p.want.clone()).collect();
            if k == 7 {
                let mut f = FilterAll::new();
                f.filters = parts.into_iter().map(|p| Box::new(p.f) as Box<dyn IsFilter<T>>).collect();
                Tree { f: W(Rc::new(f)), want: Rc::new(move |p| wants.iter().filter(|w| !w(p)).count() == 0), text: format!("all({})", text), leaves, spots }
            } else {
                let mut f = FilterAny::new();
                f.filters = parts.into_iter().map(|p| Box::new(p.f) as Box<dyn IsFilter<T>>).collect();
                Tree { f: W(Rc::new(f)), want: Rc::new(move |p| wants.iter().filter(|w| w(p)).count() > 0), text: format!("any({})", text), leaves, spots }
            }
        }
    }
}

fn trees<T: Space>(s: &mut Src, c: &mut Ctx) -> Res {
    let g = if s.bool() { Grid { range: 4, div: 1.0, off: 0.0, fine: 0.0 } } else { Grid::gen(s) };
    let t = gen_tree::<T>(s, &g, 4);
    let mut pts: Vec<V3> = (0..12).map(|_| g.v3(s)).collect();
    pts.extend(&t.spots[..t.spots.len().min(8)]);
    c.desc(|| format!("{} on {:?}", t.text, pts));
    let (mut yes, mut no) = (0, 0);
    for p in &pts {
        let w = (t.want)(p);
        if w { yes += 1 } else { no += 1 }
        for round in 0..2 {
            let got = t.f.is_allowed(&T::pt(p));
            ensure!(got == w, "answer", "{:?} allowed: {}, expected {} (asked {} times)", p, got, w, round + 1);
        }
    }
    c.nontrivial(t.leaves >= 2 && yes > 0 && no > 0);
    c.label_if(t.leaves >= 4, "four or more parts");
    Ok(())
}
fn trees2(s: &mut Src, c: &mut Ctx) -> Res {
    trees::<Point2D>(s, c)
}
fn trees3(s: &mut Src, c: &mut Ctx) -> Res {
    trees::<Point3D>(s, c)
}

/// all truth values of the parts, without geometry: catches combinators that depend on evaluation order
fn truth(s: &mut Src, c: &mut Ctx) -> Res {
    let n = if s.huge { many_n(s) } else { s.usize(1, 5) };
    let masks: Vec<u32> = if s.huge {
        // all but few of them alike
        let base = s.draw(255) as u32;
        let mut m = vec![base; n];
        for _ in 0..1 + s.below(3) {
            let k = s.below(n);
            m[k] = s.draw(255) as u32;
        }
        m
    } else {
        (0..n).map(|_| s.draw(255) as u32).collect()
    };
    c.nontrivial(masks.iter().any(|m| *m != masks[0]));
    c.desc(|| format!("{} parts over the elements 0..8, accepting {:?}", n, &masks[..n.min(300)]));
    let probe = |m: u32| Probe::<u32>(Rc::new(move |x: &u32| m >> *x & 1 == 1));
    let (a, b) = (masks[0], masks[n - 1]);
    let mut all = FilterAll::new();
    let mut any = FilterAny::new();
    for m in &masks {
        all.filters.push(Box::new(probe(*m)));
        any.filters.push(Box::new(probe(*m)));
    }
    for x in 0..8u32 {
        let bit = |m: u32| m >> x & 1 == 1;
        let got = [
            FilterAND::new(probe(a), probe(b)).is_allowed(&x),
            FilterOR::new(probe(a), probe(b)).is_allowed(&x),
            FilterXOR::new(probe(a), probe(b)).is_allowed(&x),
            FilterNegate::new(probe(a)).is_allowed(&x),
            FilterOuterInner::new(probe(a), probe(b)).is_allowed(&x),
            all.is_allowed(&x),
            any.is_allowed(&x),
            IsFilter::<u32>::is_allowed(&FilterAllow::new(), &x),
            IsFilter::<u32>::is_allowed(&FilterDeny::new(), &x),
        ];
        let want = [
            bit(a) & bit(b),
            bit(a) | bit(b),
            bit(a) ^ bit(b),
            !bit(a),
            bit(a) & !bit(b),
            bit(masks.iter().fold(255, |x, y| x & y)),
            bit(masks.iter().fold(0, |x, y| x | y)),
            true,
            false,
        ];
        let names = ["AND", "OR", "XOR", "Negate", "OuterInner", "All", "Any", "Allow", "Deny"];
        for k in 0..9 {
            ensure!(got[k] == want[k], names[k], "{} on element {} is {}, expected {}", names[k], x, got[k], want[k]);
        }
    }
    Ok(())
}

/// neighbours among many points, more than one of two bytes
fn outlier_many(s: &mut Src, c: &mut Ctx) -> Res {
    let g = if s.bool() { Grid { range: 4, div: 1.0, off: 0.0, fine: 0.0 } } else { wide(s) };
    let n = many_n(s);
    let pts = many3(s, &g, n);
    let r = s.usize(1, 4 * g.range as usize) as f64 / g.div / 2.0;
    let mut asked: Vec<V3> = (0..6).map(|_| if s.bool() { *s.pick(&pts) } else { g.v3(s) }).collect();
    let counts: Vec<usize> = asked.iter().map(|p| pts.iter().filter(|q| d2(p, q) <= r * r).count()).collect();
    let min = match s.below(3) {
        0 => s.below(n + 1),
        _ => *s.pick(&counts) + s.below(2),
    };
    let mut t = KdTree::default();
    t.build(pc3(&pts)).ok();
    let f = FilterOutlier3D::new(t, pos(r), min);
    asked.extend(asked.clone());
    c.desc(|| format!("outlier filter: at least {} of {} points within {}, asked about {:?} having {:?}", min, n, r, asked, counts));
    c.nontrivial(counts[..].iter().any(|x| *x >= min) && counts[..].iter().any(|x| *x < min));
    for (i, p) in asked.iter().enumerate() {
        let (got, want) = (f.is_allowed(&p3(p)), counts[i % counts.len()] >= min);
        ensure!(got == want, "outlier", "{:?} with {} neighbours allowed: {}, at least {} wanted", p, counts[i % counts.len()], got, min);
    }
    Ok(())
}

struct Field(Vec<(V3, V3)>);
impl Field {
    fn at(&self, p: &V3) -> V3 {
        self.0.iter().min_by(|a, b| d2(&a.0, p).partial_cmp(&d2(&b.0, p)).unwrap()).unwrap().1
    }
}
impl IsDirectionField3D for Field {
    fn direction_at<P>(&self, p: &P) -> Norm3D
    where
        P: Is3D,
    {
        Norm3D::new(p3(&self.at(&[p.x(), p.y(), p.z()]))).unwrap()
    }
}
impl IsDirectionField2D for Field {
    fn direction_at<P>(&self, p: &P) -> Norm2D
    where
        P: Is2D,
    {
        let d = self.at(&[p.x(), p.y(), 0.0]);
        Norm2D::new(Point2D::new(d[0], d[1])).unwrap()
    }
}
fn direction(s: &mut Src, c: &mut Ctx) -> Res {
    let d3 = s.bool();
    let dir = |s: &mut Src| -> V3 {
        let g = Grid { range: 4, div: 1.0, off: 0.0, fine: 0.0 };
        let mut d = g.v3(s);
        if !d3 {
            d[2] = 0.0;
        }
        if len3(&d) == 0.0 { [1.0, 0.0, 0.0] } else { d }
    };
    let g = Grid { range: 3, div: 1.0, off: 0.0, fine: 0.0 };
    let mut field = vec![];
    for _ in 0..1 + s.below(4) {
        let mut p = g.v3(s);
        if !d3 {
            p[2] = 0.0;
        }
        field.push((p, dir(s)));
    }
    let field = Field(field);
    let mut p = g.v3(s);
    if !d3 {
        p[2] = 0.0;
    }
    let e = field.at(&p);
    let n = match s.below(4) {
        0 => mul3(&e, s.usize(1, 7) as f64 / 2.0),
        1 => mul3(&e, -1.0),
        _ => dir(s),
    };
    let angle = len3(&cross3(&e, &n)).atan2(dot3(&e, &n));
    // acos loses half of the digits near 0 and pi
    let mid = 0.01 < angle && angle < 3.13;
    let eps = if mid && s.bool() { angle + s.int(-9, 9) as f64 * 1e-9 } else { s.usize(0, 36) as f64 * 0.1 };
    c.nontrivial(angle > 0.0);
    c.label_if(angle < 1e-9, "same direction");
    c.desc(|| format!("{} field direction {:?}, asked direction {:?} (angle {}), tolerance {}", if d3 { "3D" } else { "2D" }, e, n, angle, eps));
    if (angle - eps).abs() < if mid { 1e-12 } else { 1e-6 } {
        return Ok(());
    }
    let got = if d3 {
        let f = FilterDirectionField3D::new(field, Rad(eps));
        f.is_allowed(&(p3(&p), Norm3D::new(p3(&n)).unwrap()))
    } else {
        let f = FilterDirectionField2D::new(field, Rad(eps));
        f.is_allowed(&(Point2D::new(p[0], p[1]), Norm2D::new(Point2D::new(n[0], n[1])).unwrap()))
    };
    ensure!(got == (angle <= eps), if d3 { "direction field 3d" } else { "direction field 2d" }, "direction {:?} at an angle of {} to the field is allowed: {}, tolerance {}", n, angle, got, eps);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "A case is a filter tree (boxes, circles, spheres, outlier filters, allow, deny under and/or/xor/not/outer-inner/all/any, up to four levels; shapes also moved and scaled) asked about 12 points on the same grid and up to 8 on the surface of a part or next to it, or boolean parts (up to 70000) with arbitrary truth tables, an outlier filter over up to 70000 points, or a direction field with a direction and a tolerance. Non-trivial: at least two parts and both answers occur (direction: not parallel).",
        assumptions: &["coordinates are dyadic, so boundary points are decided exactly", "angles within 1e-12 of the tolerance (1e-6 near parallel) are not judged"],
        subs: vec![sub("trees2", 400_000, trees2).large(50), sub("trees3", 400_000, trees3).large(50), sub("truth", 200_000, truth).large(50), sub("direction", 400_000, direction).large(50), sub("truth-many", 100, truth).huge(), sub("outlier-many", 60, outlier_many).huge()],
    }
}
