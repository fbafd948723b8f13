use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;

/// dimension-generic view of BoundingBox2D / BoundingBox3D
trait BB: Clone + PartialEq + std::fmt::Debug + IsMovableAny {
    const D: usize;
    fn mk(lo: &V3, hi: &V3) -> Option<Self>;
    fn from_pts(p: &[V3], by_ref: bool) -> Option<Self>;
    fn lo(&self) -> V3;
    fn hi(&self) -> V3;
    fn contains_p(&self, p: &V3) -> bool;
    fn inside(&self, o: &Self) -> bool;
    fn has_in(&self, o: &Self) -> bool;
    fn coll(&self, o: &Self) -> bool;
    fn cross(&self, d: usize, x: f64) -> bool;
    fn sz(&self) -> V3;
    fn sz_each(&self) -> V3;
    fn ctr(&self) -> V3;
    fn pos(&self) -> V3;
    fn corner_pts(&self) -> Vec<V3>;
    fn dist_p(&self, p: &V3) -> (f64, f64);
    fn dist_b(&self, o: &Self) -> (f64, f64);
    fn scaled(&self, f: f64) -> Self;
    fn consumed(&self, o: &Self) -> Self;
    fn combined(&self, o: &Self) -> Self;
    fn self_bb(&self) -> (Self, Option<Self>);
    fn nd(&self, d: usize) -> Option<f64>;
    fn to_box_bb(&self) -> Vec<(Self, Self)>;
}
trait IsMovableAny {
    fn mv(&mut self, v: &V3);
}
impl IsMovableAny for BoundingBox2D {
    fn mv(&mut self, v: &V3) {
        self.move_by(v[0], v[1])
    }
}
impl IsMovableAny for BoundingBox3D {
    fn mv(&mut self, v: &V3) {
        self.move_by(v[0], v[1], v[2])
    }
}
fn q2(v: &V3) -> Point2D {
    Point2D::new(v[0], v[1])
}
fn e2<P: Is2D>(p: &P) -> V3 {
    [p.x(), p.y(), 0.0]
}
fn pos(f: f64) -> Positive {
    Positive::new(f).expect("positive")
}
impl BB for BoundingBox2D {
    const D: usize = 2;
    fn mk(lo: &V3, hi: &V3) -> Option<Self> {
        BoundingBox2D::new(&q2(lo), &q2(hi)).ok()
    }
    fn from_pts(p: &[V3], by_ref: bool) -> Option<Self> {
        let v: Vec<Point2D> = p.iter().map(q2).collect();
        if by_ref { BoundingBox2D::from_iterator(v.iter()).ok() } else { BoundingBox2D::from_into_iterator(v).ok() }
    }
    fn lo(&self) -> V3 {
        e2(&self.min_p())
    }
    fn hi(&self) -> V3 {
        e2(&self.max_p())
    }
    fn contains_p(&self, p: &V3) -> bool {
        self.contains(&q2(p))
    }
    fn inside(&self, o: &Self) -> bool {
        self.is_inside(o)
    }
    fn has_in(&self, o: &Self) -> bool {
        self.has_inside(o)
    }
    fn coll(&self, o: &Self) -> bool {
        self.collides_with(o)
    }
    fn cross(&self, d: usize, x: f64) -> bool {
        if d == 0 { self.crossing_x_value(x) } else { self.crossing_y_value(x) }
    }
    fn sz(&self) -> V3 {
        let s = self.sizes();
        [*s[0], *s[1], 0.0]
    }
    fn sz_each(&self) -> V3 {
        [*self.size_x(), *self.size_y(), 0.0]
    }
    fn ctr(&self) -> V3 {
        e2(&self.center_bb())
    }
    fn pos(&self) -> V3 {
        e2(self)
    }
    fn corner_pts(&self) -> Vec<V3> {
        self.corners().iter().map(e2).collect()
    }
    fn dist_p(&self, p: &V3) -> (f64, f64) {
        (*self.distance(&q2(p)), *self.sqr_distance(&q2(p)))
    }
    fn dist_b(&self, o: &Self) -> (f64, f64) {
        (*HasDistanceTo::distance(self, o), *HasDistanceTo::sqr_distance(self, o))
    }
    fn scaled(&self, f: f64) -> Self {
        let mut x = self.clone();
        x.scale(pos(f));
        x
    }
    fn consumed(&self, o: &Self) -> Self {
        let mut x = self.clone();
        x.consume(o.clone());
        x
    }
    fn combined(&self, o: &Self) -> Self {
        self.combine(o)
    }
    fn self_bb(&self) -> (Self, Option<Self>) {
        (self.bounding_box(), self.bounding_box_maybe())
    }
    fn nd(&self, d: usize) -> Option<f64> {
        self.position_nd(d)
    }
    fn to_box_bb(&self) -> Vec<(Self, Self)> {
        let b: Box2D = std::convert::From::from(self.clone());
        let f: FilterBox2D = std::convert::From::from(self.clone());
        let minmax = BoundingBox2D::new(&b.min_p(), &b.max_p()).expect("box has extent");
        vec![(b.bounding_box(), minmax), (f.bounding_box(), f.bounding_box_maybe().expect("box has a bounding box"))]
    }
}
impl BB for BoundingBox3D {
    const D: usize = 3;
    fn mk(lo: &V3, hi: &V3) -> Option<Self> {
        BoundingBox3D::new(&p3(lo), &p3(hi)).ok()
    }
    fn from_pts(p: &[V3], by_ref: bool) -> Option<Self> {
        let v: Vec<Point3D> = p.iter().map(p3).collect();
        if by_ref { BoundingBox3D::from_iterator(v.iter()).ok() } else { BoundingBox3D::from_into_iterator(v).ok() }
    }
    fn lo(&self) -> V3 {
        v3(&self.min_p())
    }
    fn hi(&self) -> V3 {
        v3(&self.max_p())
    }
    fn contains_p(&self, p: &V3) -> bool {
        self.contains(&p3(p))
    }
    fn inside(&self, o: &Self) -> bool {
        self.is_inside(o)
    }
    fn has_in(&self, o: &Self) -> bool {
        self.has_inside(o)
    }
    fn coll(&self, o: &Self) -> bool {
        self.collides_with(o)
    }
    fn cross(&self, d: usize, x: f64) -> bool {
        match d {
            0 => self.crossing_x_value(x),
            1 => self.crossing_y_value(x),
            _ => self.crossing_z_value(x),
        }
    }
    fn sz(&self) -> V3 {
        let s = self.sizes();
        [*s[0], *s[1], *s[2]]
    }
    fn sz_each(&self) -> V3 {
        [*self.size_x(), *self.size_y(), *self.size_z()]
    }
    fn ctr(&self) -> V3 {
        v3(&self.center_bb())
    }
    fn pos(&self) -> V3 {
        v3(self)
    }
    fn corner_pts(&self) -> Vec<V3> {
        self.corners().iter().map(v3).collect()
    }
    fn dist_p(&self, p: &V3) -> (f64, f64) {
        (*self.distance(&p3(p)), *self.sqr_distance(&p3(p)))
    }
    fn dist_b(&self, o: &Self) -> (f64, f64) {
        (*HasDistanceTo::distance(self, o), *HasDistanceTo::sqr_distance(self, o))
    }
    fn scaled(&self, f: f64) -> Self {
        let mut x = self.clone();
        x.scale(pos(f));
        x
    }
    fn consumed(&self, o: &Self) -> Self {
        let mut x = self.clone();
        x.consume(o.clone());
        x
    }
    fn combined(&self, o: &Self) -> Self {
        self.combine(o)
    }
    fn self_bb(&self) -> (Self, Option<Self>) {
        (self.bounding_box(), self.bounding_box_maybe())
    }
    fn nd(&self, d: usize) -> Option<f64> {
        self.position_nd(d)
    }
    fn to_box_bb(&self) -> Vec<(Self, Self)> {
        let b: Box3D = std::convert::From::from(self.clone());
        let f: FilterBox3D = std::convert::From::from(self.clone());
        let u = BoxUnaligned3D::new_from_bb(self);
        let minmax = BoundingBox3D::new(&b.min_p(), &b.max_p()).expect("box has extent");
        vec![
            (b.bounding_box(), minmax),
            (f.bounding_box(), f.bounding_box_maybe().expect("box has a bounding box")),
            (u.bounding_box(), u.bounding_box_maybe().expect("box has a bounding box")),
        ]
    }
}

fn ext_of(d: usize, pts: &[V3]) -> Option<(V3, V3)> {
    if pts.len() < 2 {
        return None;
    }
    let (mut a, mut b) = (pts[0], pts[0]);
    for p in pts {
        for i in 0..d {
            a[i] = a[i].min(p[i]);
            b[i] = b[i].max(p[i]);
        }
    }
    for i in d..3 {
        a[i] = 0.0;
        b[i] = 0.0;
    }
    if (0..d).any(|i| a[i] == b[i]) { None } else { Some((a, b)) }
}
fn eqb<B: BB>(b: &B, w: &(V3, V3)) -> bool {
    key3(&b.lo()) == key3(&w.0) && key3(&b.hi()) == key3(&w.1)
}
fn closeb<B: BB>(b: &B, w: &(V3, V3)) -> bool {
    let s = (0..3).map(|i| w.0[i].abs().max(w.1[i].abs())).fold(0.0, f64::max);
    (0..3).all(|i| (b.lo()[i] - w.0[i]).abs() <= 1e-9 * s && (b.hi()[i] - w.1[i]).abs() <= 1e-9 * s)
}

fn construct<B: BB>(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    // new
    let mut a = g.v3(s);
    let mut b = g.v3(s);
    if B::D == 2 {
        a[2] = 0.0;
        b[2] = 0.0;
    }
    if s.chance(2, 3) {
        for i in 0..3 {
            let (x, y) = (a[i].min(b[i]), a[i].max(b[i]));
            a[i] = x;
            b[i] = y;
        }
    }
    let ok = (0..B::D).all(|i| a[i] < b[i]);
    c.desc(|| format!("{}D new({:?}, {:?})", B::D, a, b));
    match (B::mk(&a, &b), ok) {
        (Some(x), true) => ensure!(eqb(&x, &(a, b)), "new changes", "new({:?},{:?}) gives {:?}", a, b, x),
        (None, false) => (),
        (r, _) => return fail("new accepts/refuses", format!("new({:?},{:?}): accepted={} expected {}", a, b, r.is_some(), ok)),
    }
    // from points
    let mut pts = points3(s, &g, 0, 12);
    if B::D == 2 {
        for p in &mut pts {
            p[2] = 0.0;
        }
    }
    c.desc(|| format!("points {:?}", pts));
    let want = ext_of(B::D, &pts);
    c.nontrivial(want.is_some() && pts.len() > 2);
    c.label_if(want.is_none(), "no box");
    for by_ref in [true, false] {
        match (B::from_pts(&pts, by_ref), &want) {
            (Some(x), Some(w)) => ensure!(eqb(&x, w), "from points not tight", "from {:?} gives {:?}..{:?}, tight is {:?}", pts, x.lo(), x.hi(), w),
            (None, None) => (),
            (r, _) => return fail("from points accepts/refuses", format!("from {:?}: {:?}, expected {:?}", pts, r.map(|x| (x.lo(), x.hi())), want)),
        }
    }
    Ok(())
}

fn gen_pair<B: BB>(s: &mut Src, g: &Grid) -> ((V3, V3), (V3, V3)) {
    let small = Grid { range: 3, ..*g };
    let gg = if s.bool() { small } else { *g };
    let one = |s: &mut Src| {
        let mut a = gg.v3(s);
        let mut b = a;
        for i in 0..3 {
            b[i] += gg.ext(s);
        }
        if B::D == 2 {
            a[2] = 0.0;
            b[2] = 0.0;
        }
        (a, b)
    };
    let a = one(s);
    let mut b = one(s);
    // share boundaries, nest, touch
    for i in 0..B::D {
        match s.weighted(&[4, 1, 1, 1, 1]) {
            1 => { let e = b.1[i] - b.0[i]; b.0[i] = a.1[i]; b.1[i] = a.1[i] + e; }
            2 => { let e = b.1[i] - b.0[i]; b.0[i] = a.0[i]; b.1[i] = a.0[i] + e; }
            3 => { let e = (a.1[i] - a.0[i]) / 4.0; b.0[i] = a.0[i] + e; b.1[i] = a.1[i] - e; }
            4 => { b.0[i] = a.0[i]; b.1[i] = a.1[i]; }
            _ => (),
        }
    }
    if s.bool() { (a, b) } else { (b, a) }
}

fn relations<B: BB>(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let ((al, ah), (bl, bh)) = gen_pair::<B>(s, &g);
    c.desc(|| format!("{}D a={:?}..{:?} b={:?}..{:?}", B::D, al, ah, bl, bh));
    let (a, b) = match (B::mk(&al, &ah), B::mk(&bl, &bh)) {
        (Some(a), Some(b)) => (a, b),
        _ => return fail("new refuses valid", format!("{:?} {:?}", (al, ah), (bl, bh))),
    };
    let n = B::D;
    let overlap = (0..n).all(|i| al[i] < bh[i] && bl[i] < ah[i]);
    let inside = (0..n).all(|i| al[i] > bl[i] && ah[i] < bh[i]);
    c.nontrivial(overlap);
    c.label_if(inside, "a inside b");
    c.label_if(!overlap && (0..n).all(|i| al[i] <= bh[i] && bl[i] <= ah[i]), "touching");
    ensure!(a.coll(&b) == overlap, "collides_with", "collides_with={} interval overlap={}", a.coll(&b), overlap);
    ensure!(b.coll(&a) == overlap, "collides_with", "swapped collides_with={} interval overlap={}", b.coll(&a), overlap);
    ensure!(a.inside(&b) == inside, "is_inside", "is_inside={} expected {}", a.inside(&b), inside);
    ensure!(b.has_in(&a) == inside, "has_inside", "has_inside={} expected {}", b.has_in(&a), inside);
    // merge
    let mut ml = al;
    let mut mh = ah;
    for i in 0..n {
        ml[i] = al[i].min(bl[i]);
        mh[i] = ah[i].max(bh[i]);
    }
    ensure!(eqb(&a.combined(&b), &(ml, mh)), "combine", "combine gives {:?}, expected {:?}", a.combined(&b), (ml, mh));
    ensure!(eqb(&b.combined(&a), &(ml, mh)), "combine", "combine (swapped) gives {:?}, expected {:?}", b.combined(&a), (ml, mh));
    ensure!(eqb(&a.consumed(&b), &(ml, mh)), "consume", "consume gives {:?}, expected {:?}", a.consumed(&b), (ml, mh));
    ensure!(eqb(&b.consumed(&a), &(ml, mh)), "consume", "consume (swapped) gives {:?}, expected {:?}", b.consumed(&a), (ml, mh));
    // box-box distance
    let gap: f64 = (0..n).map(|i| (bl[i] - ah[i]).max(al[i] - bh[i]).max(0.0)).map(|d| d * d).sum();
    for (x, y) in [(&a, &b), (&b, &a)] {
        let (d, q) = x.dist_b(y);
        ensure!(close(q, gap, 1e-12), "box sqr_distance", "sqr_distance={} expected {}", q, gap);
        ensure!(close(d, gap.sqrt(), 1e-12), "box distance", "distance={} expected {}", d, gap.sqrt());
    }
    // sizes, centre, corners, position
    let size = sub3(&ah, &al);
    ensure!(key3(&a.sz()) == key3(&size) && key3(&a.sz_each()) == key3(&size), "sizes", "sizes {:?} {:?} expected {:?}", a.sz(), a.sz_each(), size);
    let mid = mul3(&add3(&al, &ah), 0.5);
    ensure!(key3(&a.ctr()) == key3(&mid), "center_bb", "centre {:?} expected {:?}", a.ctr(), mid);
    ensure!(key3(&a.pos()) == key3(&mid), "position", "position {:?} expected the centre {:?}", a.pos(), mid);
    for d in 0..5 {
        let w = if d < n { Some(mid[d]) } else { None };
        ensure!(a.nd(d) == w, "position_nd", "position_nd({})={:?} expected {:?}", d, a.nd(d), w);
    }
    let mut corners = vec![];
    for m in 0..1usize << n {
        let mut p = al;
        for i in 0..n {
            if m >> i & 1 == 1 {
                p[i] = ah[i];
            }
        }
        corners.push(p);
    }
    ensure!(sorted_keys3(&a.corner_pts()) == sorted_keys3(&corners), "corners", "corners {:?} expected {:?}", a.corner_pts(), corners);
    let (sb, sm) = a.self_bb();
    ensure!(sb == a && sm.as_ref() == Some(&a), "own bounding box", "bounding box of the box is {:?} / {:?}", sb, sm);
    // scale and move
    let f = gen_factor(s, &g);
    let mut w = (al, ah);
    for i in 0..n {
        w.0[i] = mid[i] - f * size[i] / 2.0;
        w.1[i] = mid[i] + f * size[i] / 2.0;
    }
    ensure!(closeb(&a.scaled(f), &w), "scale", "scale by {} gives {:?}, expected {:?}", f, a.scaled(f), w);
    let v = g.v3(s);
    let mut m = a.clone();
    m.mv(&v);
    let mut w = (al, ah);
    for i in 0..n {
        w.0[i] += v[i];
        w.1[i] += v[i];
    }
    ensure!(eqb(&m, &w), "move_by", "move by {:?} gives {:?}, expected {:?}", v, m, w);
    // conversion to boxes keeps the extent
    for (k, (x, y)) in a.to_box_bb().into_iter().enumerate() {
        ensure!(closeb(&x, &(al, ah)) && closeb(&y, &(al, ah)), "box from bounding box", "conversion {} gives {:?} / {:?}", k, x, y);
    }
    Ok(())
}

fn points<B: BB>(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let ((al, ah), _) = gen_pair::<B>(s, &g);
    let n = B::D;
    let mut p = g.v3(s);
    for i in 0..n {
        match s.weighted(&[3, 3, 1, 1]) {
            1 => p[i] = al[i] + (ah[i] - al[i]) * s.below(9) as f64 / 8.0,
            2 => p[i] = al[i],
            3 => p[i] = ah[i],
            _ => (),
        }
    }
    if n == 2 {
        p[2] = 0.0;
    }
    c.desc(|| format!("{}D box {:?}..{:?} point {:?}", n, al, ah, p));
    let a = match B::mk(&al, &ah) {
        Some(a) => a,
        None => return fail("new refuses valid", format!("{:?}", (al, ah))),
    };
    let inside = (0..n).all(|i| al[i] < p[i] && p[i] < ah[i]);
    c.nontrivial((0..n).all(|i| al[i] <= p[i] && p[i] <= ah[i]));
    c.label_if(inside, "inside");
    ensure!(a.contains_p(&p) == inside, "contains", "contains={} expected {}", a.contains_p(&p), inside);
    for d in 0..n {
        let w = al[d] < p[d] && p[d] < ah[d];
        ensure!(a.cross(d, p[d]) == w, "crossing value", "crossing axis {} at {}: {} expected {}", d, p[d], a.cross(d, p[d]), w);
    }
    let q: f64 = (0..n).map(|i| (al[i] - p[i]).max(p[i] - ah[i]).max(0.0)).map(|d| d * d).sum();
    let (dd, qq) = a.dist_p(&p);
    ensure!(close(qq, q, 1e-12), "point sqr_distance", "sqr_distance={} expected {}", qq, q);
    ensure!(close(dd, q.sqrt(), 1e-12), "point distance", "distance={} expected {}", dd, q.sqrt());
    Ok(())
}

/// coordinates so large that sums of two leave the range of numbers, decimal ones and ones of very different size
fn wild<B: BB>(s: &mut Src, c: &mut Ctx) -> Res {
    let n = B::D;
    let mode = s.below(3);
    let unit = if mode == 0 { 2f64.powi(1020) } else { 1.0 };
    let mut seen: Vec<f64> = vec![];
    let mut coord = |s: &mut Src| -> f64 {
        if !seen.is_empty() && s.chance(1, 3) {
            return *s.pick(&seen);
        }
        let k = s.int(-15, 15) as f64;
        let x = match mode {
            0 => k * unit,
            1 => k / 10.0,
            _ => k * 10f64.powi(-(s.below(25) as i32)),
        };
        seen.push(x);
        x
    };
    let mut one = |s: &mut Src| {
        let (mut a, mut b) = ([0.0; 3], [0.0; 3]);
        for i in 0..n {
            let (x, y) = (coord(s), coord(s));
            a[i] = x.min(y);
            b[i] = x.max(y);
            if (b[i] - a[i]).is_infinite() {
                // an extent which is a number
                if b[i] > 15.0 * unit - a[i] { a[i] = 0.0 } else { b[i] = 0.0 }
            }
            if a[i] == b[i] {
                if a[i] > 0.0 { a[i] = 0.0 } else { b[i] = a[i] / 2.0 + unit }
            }
        }
        (a, b)
    };
    let (al, ah) = one(s);
    let (bl, bh) = one(s);
    let mut p = [0.0; 3];
    for i in 0..n {
        p[i] = coord(s);
    }
    c.desc(|| format!("{}D a={:?}..{:?} b={:?}..{:?} p={:?}", n, al, ah, bl, bh, p));
    c.label(["sums overflow", "decimal", "mixed magnitudes"][mode]);
    let (a, b) = match (B::mk(&al, &ah), B::from_pts(&[bh, bl], s.bool())) {
        (Some(a), Some(b)) => (a, b),
        _ => return fail("new refuses valid", format!("{:?} {:?}", (al, ah), (bl, bh))),
    };
    ensure!(eqb(&a, &(al, ah)) && eqb(&b, &(bl, bh)), "new changes", "{:?} {:?}", a, b);
    let overlap = (0..n).all(|i| al[i] < bh[i] && bl[i] < ah[i]);
    let inside = (0..n).all(|i| al[i] > bl[i] && ah[i] < bh[i]);
    c.nontrivial((0..n).all(|i| al[i] <= bh[i] && bl[i] <= ah[i]));
    c.label_if(overlap, "overlap");
    ensure!(a.coll(&b) == overlap && b.coll(&a) == overlap, "collides_with", "collides_with={}/{} interval overlap={}", a.coll(&b), b.coll(&a), overlap);
    ensure!(a.inside(&b) == inside && b.has_in(&a) == inside, "is_inside", "is_inside={} has_inside={} expected {}", a.inside(&b), b.has_in(&a), inside);
    let contains = (0..n).all(|i| al[i] < p[i] && p[i] < ah[i]);
    ensure!(a.contains_p(&p) == contains, "contains", "contains={} expected {}", a.contains_p(&p), contains);
    let (mut ml, mut mh) = (al, ah);
    let (mut mid, mut size) = ([0.0; 3], [0.0; 3]);
    for i in 0..n {
        ml[i] = al[i].min(bl[i]);
        mh[i] = ah[i].max(bh[i]);
        mid[i] = al[i] / 2.0 + ah[i] / 2.0;
        size[i] = ah[i] - al[i];
    }
    for m in [a.combined(&b), b.combined(&a), a.consumed(&b), b.consumed(&a)] {
        ensure!(eqb(&m, &(ml, mh)), "combine", "combine gives {:?}, expected {:?}", m, (ml, mh));
    }
    ensure!(key3(&a.sz()) == key3(&size) && key3(&a.sz_each()) == key3(&size), "sizes", "sizes {:?} {:?} expected {:?}", a.sz(), a.sz_each(), size);
    let near = |x: &V3| (0..n).all(|i| (x[i] - mid[i]).abs() <= 1e-14 * al[i].abs().max(ah[i].abs()));
    ensure!(near(&a.ctr()), "center_bb", "centre {:?} expected {:?}", a.ctr(), mid);
    ensure!(near(&a.pos()), "position", "position {:?} expected the centre {:?}", a.pos(), mid);
    for d in 0..n {
        ensure!(a.nd(d) == Some(a.pos()[d]), "position_nd", "position_nd({})={:?} expected {}", d, a.nd(d), a.pos()[d]);
        ensure!(a.cross(d, p[d]) == (al[d] < p[d] && p[d] < ah[d]), "crossing value", "crossing axis {} at {}: {}", d, p[d], a.cross(d, p[d]));
    }
    let mut corners = vec![];
    for m in 0..1usize << n {
        let mut p = al;
        for i in 0..n {
            if m >> i & 1 == 1 {
                p[i] = ah[i];
            }
        }
        corners.push(p);
    }
    ensure!(sorted_keys3(&a.corner_pts()) == sorted_keys3(&corners), "corners", "corners {:?} expected {:?}", a.corner_pts(), corners);
    // shrinking about the centre
    let f = *s.pick(&[1.0, 0.5, 0.25]);
    let w = a.scaled(f);
    for i in 0..n {
        let (l, h) = (mid[i] - f * (size[i] / 2.0), mid[i] + f * (size[i] / 2.0));
        ensure!((w.lo()[i] - l).abs() <= 1e-9 * unit * 15.0 && (w.hi()[i] - h).abs() <= 1e-9 * unit * 15.0, "scale", "scale by {} gives {:?}, expected {}..{} along {}", f, w, l, h, i);
    }
    Ok(())
}

type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;

fn judge3(what: &str, got: Option<BoundingBox3D>, want: &Option<(V3, V3)>, exact: bool) -> Res {
    match (&got, want) {
        (None, None) => Ok(()),
        (Some(b), Some(w)) if (exact && eqb(b, w)) || (!exact && closeb(b, w)) => Ok(()),
        _ => fail(&format!("box of {}", what), format!("{}: bounding box {:?}, tight one is {:?}", what, got.map(|b| (b.lo(), b.hi())), want)),
    }
}
fn judge2(what: &str, got: Option<BoundingBox2D>, want: &Option<(V3, V3)>, exact: bool) -> Res {
    match (&got, want) {
        (None, None) => Ok(()),
        (Some(b), Some(w)) if (exact && eqb(b, w)) || (!exact && closeb(b, w)) => Ok(()),
        _ => fail(&format!("box of {}", what), format!("{}: bounding box {:?}, tight one is {:?}", what, got.map(|b| (b.lo(), b.hi())), want)),
    }
}
fn scaled(w: &Option<(V3, V3)>, f: f64) -> Option<(V3, V3)> {
    w.map(|(a, b)| {
        let c = mul3(&add3(&a, &b), 0.5);
        let e = mul3(&sub3(&b, &a), 0.5 * f);
        (sub3(&c, &e), add3(&c, &e))
    })
}
fn moved(w: &Option<(V3, V3)>, v: &V3) -> Option<(V3, V3)> {
    w.map(|(a, b)| (add3(&a, v), add3(&b, v)))
}

fn shapes3(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let pts = points3(s, &g, 0, 10);
    let f = gen_factor(s, &g);
    let fp = pos(f);
    let v = g.v3(s);
    c.desc(|| format!("points {:?}, scale {}, move {:?}", pts, f, v));
    let w = ext_of(3, &pts);
    c.nontrivial(w.is_some());
    let ws = scaled(&w, f);
    let wm = moved(&w, &v);
    let pc = pc3(&pts);
    macro_rules! pointy {
        ($name:expr, $make:expr, $scale:tt) => {{
            let x = $make;
            judge3($name, x.bounding_box_maybe(), &w, true)?;
            let mut y = $make;
            y.move_by(v[0], v[1], v[2]);
            judge3(concat!($name, " moved"), y.bounding_box_maybe(), &wm, true)?;
            pointy!(@s $name, $make, $scale);
        }};
        (@s $name:expr, $make:expr, true) => {{
            if w.is_some() {
                let mut y = $make;
                y.scale(fp);
                judge3(concat!($name, " scaled"), y.bounding_box_maybe(), &ws, false)?;
            }
        }};
        (@s $name:expr, $make:expr, false) => {};
    }
    pointy!("PointCloud3D", pc.clone(), true);
    pointy!("Polygon3D", { let p: Polygon3D<Point3D> = std::convert::From::from(pc.clone()); p }, true);
    pointy!("Mesh3D", { let mut m = M::default(); for p in &pts { m.add_vertex(p3(p)); } m }, true);
    let single = pts.iter().all(|p| (0..3).all(|i| is_f32(p[i]) && is_f32(v[i]) && is_f32(p[i] + v[i])));
    if single {
        pointy!("PointCloud3Df32", { let mut q: PointCloud3Df32<Point3D> = PointCloud3Df32::new(); for p in &pts { q.push(p3(p)); } q }, false);
    }
    {
        let mut m = M::default();
        for p in &pts {
            m.add_vertex(p3(p));
        }
        let mut sm: SearchableMesh<M, Point3D, Vec<usize>> = SearchableMesh::new(m);
        judge3("SearchableMesh", sm.bounding_box_maybe(), &w, true)?;
        if w.is_some() {
            sm.scale(fp);
            judge3("SearchableMesh scaled", sm.bounding_box_maybe(), &ws, false)?;
        }
    }
    if let [a, b, ..] = pts[..] {
        let two = [a, b];
        let w = ext_of(3, &two);
        let mk = || LineSegment3D::new(p3(&a), p3(&b));
        judge3("LineSegment3D", mk().bounding_box_maybe(), &w, true)?;
        let mut x = mk();
        x.move_by(v[0], v[1], v[2]);
        judge3("LineSegment3D moved", x.bounding_box_maybe(), &moved(&w, &v), true)?;
        if w.is_some() {
            let mut x = mk();
            x.scale(fp);
            judge3("LineSegment3D scaled", x.bounding_box_maybe(), &scaled(&w, f), false)?;
        }
    }
    if let [a, b, d, ..] = pts[..] {
        let w = ext_of(3, &[a, b, d]);
        let t = TriFace3D::new(p3(&a), p3(&b), p3(&d)).ok();
        judge3("TriFace3D", t.as_ref().map(|t| t.bounding_box()), &w, true)?;
        if let Some(t) = t {
            judge3("TriFace3D maybe", t.bounding_box_maybe(), &w, true)?;
            ensure!([v3(t.a()), v3(t.b()), v3(t.c())] == [a, b, d], "TriFace3D corners", "corners {:?} {:?} {:?}", t.a(), t.b(), t.c());
            let col = Collider3D::Face(t);
            judge3("Collider3D::Face", Some(col.bounding_box()), &w, true)?;
        }
    }
    let conv = HasBoundingBox3DConverted::new(pc.clone());
    ensure!(conv.is_some() == w.is_some(), "HasBoundingBox3DConverted", "Converted::new accepted={} for a cloud with box {:?}", conv.is_some(), w);
    if let Some(x) = conv {
        judge3("HasBoundingBox3DConverted", Some(x.bounding_box()), &w, true)?;
        judge3("HasBoundingBox3DConverted maybe", x.bounding_box_maybe(), &w, true)?;
        ensure!(x.get().len() == pts.len(), "HasBoundingBox3DConverted", "get() has {} of {} points", x.get().len(), pts.len());
    }
    Ok(())
}

fn shapes2(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let mut pts = points3(s, &g, 0, 10);
    for p in &mut pts {
        p[2] = 0.0;
    }
    let f = gen_factor(s, &g);
    let fp = pos(f);
    let mut v = g.v3(s);
    v[2] = 0.0;
    c.desc(|| format!("points {:?}, scale {}, move {:?}", pts, f, v));
    let w = ext_of(2, &pts);
    c.nontrivial(w.is_some());
    let ws = scaled(&w, f);
    let wm = moved(&w, &v);
    let p2s: Vec<V2> = pts.iter().map(|p| [p[0], p[1]]).collect();
    let pc = pc2(&p2s);
    let poly = || {
        let p: Polygon2D<Point2D> = std::convert::From::from(pc.clone());
        p
    };
    judge2("PointCloud2D", pc.bounding_box_maybe(), &w, true)?;
    judge2("Polygon2D", poly().bounding_box_maybe(), &w, true)?;
    let mut y = pc.clone();
    y.move_by(v[0], v[1]);
    judge2("PointCloud2D moved", y.bounding_box_maybe(), &wm, true)?;
    let mut y = poly();
    y.move_by(v[0], v[1]);
    judge2("Polygon2D moved", y.bounding_box_maybe(), &wm, true)?;
    if w.is_some() {
        let mut y = pc.clone();
        y.scale(fp);
        judge2("PointCloud2D scaled", y.bounding_box_maybe(), &ws, false)?;
        let mut y = poly();
        y.scale(fp);
        judge2("Polygon2D scaled", y.bounding_box_maybe(), &ws, false)?;
    }
    if let [a, b, ..] = pts[..] {
        let w = ext_of(2, &[a, b]);
        let mk = || LineSegment2D::new(q2(&a), q2(&b));
        judge2("LineSegment2D", mk().bounding_box_maybe(), &w, true)?;
        let mut x = mk();
        x.move_by(v[0], v[1]);
        judge2("LineSegment2D moved", x.bounding_box_maybe(), &moved(&w, &v), true)?;
        if w.is_some() {
            let mut x = mk();
            x.scale(fp);
            judge2("LineSegment2D scaled", x.bounding_box_maybe(), &scaled(&w, f), false)?;
        }
    }
    let conv = HasBoundingBox2DConverted::new(pc.clone());
    ensure!(conv.is_some() == w.is_some(), "HasBoundingBox2DConverted", "Converted::new accepted={} for a cloud with box {:?}", conv.is_some(), w);
    if let Some(x) = conv {
        judge2("HasBoundingBox2DConverted", Some(x.bounding_box()), &w, true)?;
        judge2("HasBoundingBox2DConverted maybe", x.bounding_box_maybe(), &w, true)?;
    }
    Ok(())
}

/// boxes, circles, spheres and the filters made from them
fn solids(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let ctr = g.v3(s);
    let e = [g.ext(s), g.ext(s), g.ext(s)];
    let r = g.ext(s);
    let f = gen_factor(s, &g);
    let fp = pos(f);
    let v = g.v3(s);
    c.nontrivial(e[0] != e[1] && e[1] != e[2]);
    let h = mul3(&e, 0.5);
    let wb = Some((sub3(&ctr, &h), add3(&ctr, &h)));
    let ws = Some((sub3(&ctr, &[r; 3]), add3(&ctr, &[r; 3])));
    let flat = |w: &Option<(V3, V3)>| w.map(|(a, b)| ([a[0], a[1], 0.0], [b[0], b[1], 0.0]));
    c.desc(|| format!("centre {:?} sizes {:?} radius {} scale {} move {:?}", ctr, e, r, f, v));
    let b3 = Box3D { center: p3(&ctr), size_x: pos(e[0]), size_y: pos(e[1]), size_z: pos(e[2]) };
    let b2 = Box2D { center: q2(&ctr), size_x: pos(e[0]), size_y: pos(e[1]) };
    let sp = Sphere { center: p3(&ctr), radius: pos(r) };
    let ci = Circle { center: q2(&ctr), radius: pos(r) };
    macro_rules! solid {
        ($j:ident, $name:expr, $x:expr, $w:expr, $flat:expr) => {{
            let w = if $flat { flat(&$w) } else { $w };
            let mut x = $x;
            $j($name, Some(x.bounding_box()), &w, true)?;
            $j(concat!($name, " maybe"), x.bounding_box_maybe(), &w, true)?;
            x.scale(fp);
            $j(concat!($name, " scaled"), Some(x.bounding_box()), &scaled(&w, f), false)?;
        }};
    }
    solid!(judge3, "Box3D", b3.clone(), wb, false);
    solid!(judge3, "FilterBox3D", FilterBox3D::new(b3.clone()), wb, false);
    solid!(judge3, "Sphere", sp.clone(), ws, false);
    solid!(judge3, "FilterSphere", FilterSphere::new(sp.clone()), ws, false);
    solid!(judge2, "Box2D", b2.clone(), wb, true);
    solid!(judge2, "FilterBox2D", FilterBox2D::new(b2.clone()), wb, true);
    solid!(judge2, "Circle", ci.clone(), ws, true);
    solid!(judge2, "FilterCircle", FilterCircle::new(ci.clone()), ws, true);
    let mut x = b3.clone();
    ensure!(key3(&v3(&x.min_p())) == key3(&wb.unwrap().0) && key3(&v3(&x.max_p())) == key3(&wb.unwrap().1), "Box3D min_p/max_p", "{:?} {:?}", x.min_p(), x.max_p());
    ensure!(x.sizes().iter().map(|p| **p).collect::<Vec<f64>>() == e.to_vec(), "Box3D sizes", "{:?}", x.sizes());
    x.move_by(v[0], v[1], v[2]);
    judge3("Box3D moved", Some(x.bounding_box()), &moved(&wb, &v), true)?;
    let mut x = b2.clone();
    ensure!(x.sizes().iter().map(|p| **p).collect::<Vec<f64>>() == e[..2].to_vec(), "Box2D sizes", "{:?}", x.sizes());
    x.move_by(v[0], v[1]);
    judge2("Box2D moved", Some(x.bounding_box()), &flat(&moved(&wb, &v)), true)?;
    // the position of a solid is its centre
    for (name, got) in [("Box3D", v3(&b3)), ("FilterBox3D", v3(&FilterBox3D::new(b3.clone()))), ("Sphere", v3(&sp)), ("FilterSphere", v3(&FilterSphere::new(sp.clone())))] {
        ensure!(key3(&got) == key3(&ctr), &format!("position of {}", name), "{} at {:?} reports position {:?}", name, ctr, got);
    }
    for (name, got) in [("Box2D", v2(&b2)), ("FilterBox2D", v2(&FilterBox2D::new(b2.clone()))), ("Circle", v2(&ci)), ("FilterCircle", v2(&FilterCircle::new(ci.clone())))] {
        ensure!(got == [ctr[0], ctr[1]], &format!("position of {}", name), "{} at {:?} reports position {:?}", name, ctr, got);
    }
    // rotated box: extent along each axis is the sum of the projected half edges
    let phi = match s.below(3) { 0 => s.int(-8, 8) as f64 * std::f64::consts::FRAC_PI_4, _ => s.int(-600, 600) as f64 / 100.0 };
    let mut u = BoxUnaligned3D::new_from_z_rotation(&p3(&ctr), [pos(e[0]), pos(e[1]), pos(e[2])], phi);
    let (yd, zd) = (v3(&u.y_dir), v3(&u.z_dir));
    ensure!(close(yd[0], phi.sin(), 1e-9) && close(yd[1], phi.cos(), 1e-9) && yd[2] == 0.0 && zd == [0.0, 0.0, 1.0], "BoxUnaligned3D rotation", "rotated by {} about z the box has y direction {:?} and z direction {:?}", phi, yd, zd);
    ensure!(key3(&v3(&u.center)) == key3(&ctr) && (0..3).all(|i| *u.size[i] == e[i]), "BoxUnaligned3D rotation", "centre {:?} or sizes lost by new_from_z_rotation", v3(&u.center));
    if s.bool() {
        // any orientation
        let (y, z) = gen_frame(s);
        u = BoxUnaligned3D { center: p3(&ctr), y_dir: Norm3D::new(p3(&y)).expect("direction"), z_dir: Norm3D::new(p3(&z)).expect("direction"), size: [pos(e[0]), pos(e[1]), pos(e[2])] };
        c.desc(|| format!("y direction {:?} z direction {:?}", y, z));
        c.label("general orientation");
    }
    let dirs = [v3(&u.x_dir()), v3(&u.y_dir), v3(&u.z_dir)];
    for i in 0..3 {
        for j in 0..3 {
            let w = if i == j { 1.0 } else { 0.0 };
            ensure!((dot3(&dirs[i], &dirs[j]) - w).abs() < 1e-9, "BoxUnaligned3D axes", "axes {:?} are not orthonormal", dirs);
        }
    }
    let mut half = [0.0; 3];
    for i in 0..3 {
        for k in 0..3 {
            half[i] += dirs[k][i].abs() * e[k] / 2.0;
        }
    }
    let w = Some((sub3(&ctr, &half), add3(&ctr, &half)));
    c.desc(|| format!("rotation {}", phi));
    judge3("BoxUnaligned3D", Some(u.bounding_box()), &w, false)?;
    let mut x = u.clone();
    x.move_by(v[0], v[1], v[2]);
    judge3("BoxUnaligned3D moved", Some(x.bounding_box()), &moved(&w, &v), false)?;
    let mut pts: Vec<V3> = vec![];
    u.for_each_point(&mut |p: &Point3D| pts.push(v3(p)));
    // the corners are the eight sums of half edges
    let mut want: Vec<V3> = vec![];
    for m in 0..8 {
        let mut p = ctr;
        for k in 0..3 {
            p = add3(&p, &mul3(&dirs[k], if m >> k & 1 == 0 { 0.5 } else { -0.5 } * e[k]));
        }
        want.push(p);
    }
    let tol = 1e-9 * (len3(&e) + len3(&ctr));
    ensure!(want.iter().all(|w| pts[..].iter().any(|p| len3(&sub3(p, w)) <= tol)), "BoxUnaligned3D corners", "corner points {:?} instead of {:?}", pts, want);
    let ext = ext_of(3, &pts);
    ensure!(ext.is_some() && pts.len() == 8, "BoxUnaligned3D corners", "corner points {:?}", pts);
    judge3("BoxUnaligned3D corner points", Some(u.bounding_box()), &ext, false)?;
    let col = Collider3D::Box3(u);
    judge3("Collider3D::Box3", Some(col.bounding_box()), &w, false)?;
    judge3("Collider3D::AABB", Collider3D::AABB(b3.bounding_box()).bounding_box_maybe(), &wb, true)?;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "A case is a point set, a pair of boxes (sharing or touching boundaries in about half of the cases), a box and a point, or a shape, on an exact dyadic grid. Non-trivial: the pair overlaps; the point is in or on the box; the point set or shape has a box (more than two points for construction).",
        assumptions: &["coordinates are finite, no NaN", "scaled and rotated shapes are judged with 1e-9 relative tolerance, everything else exactly"],
        subs: vec![
            sub("construct2", 200_000, construct::<BoundingBox2D>).large(50),
            sub("construct3", 200_000, construct::<BoundingBox3D>).large(50),
            sub("relations2", 600_000, relations::<BoundingBox2D>).large(50),
            sub("relations3", 600_000, relations::<BoundingBox3D>).large(50),
            sub("wild2", 100_000, wild::<BoundingBox2D>),
            sub("wild3", 100_000, wild::<BoundingBox3D>),
            sub("points2", 600_000, points::<BoundingBox2D>).large(50),
            sub("points3", 600_000, points::<BoundingBox3D>).large(50),
            sub("shapes2", 300_000, shapes2).large(50),
            sub("shapes3", 300_000, shapes3).large(50),
            sub("points2-many", 16, points::<BoundingBox2D>).huge(),
            sub("points3-many", 16, points::<BoundingBox3D>).huge(),
            sub("shapes2-many", 16, shapes2).huge(),
            sub("shapes3-many", 16, shapes3).huge(),
            sub("solids", 300_000, solids).large(50),
        ],
    }
}
