use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;
use std::collections::{LinkedList, VecDeque};

/// one edit; every container supports some of them
#[derive(Clone, Debug)]
enum Op {
    Push(V3),
    PushD(V3),
    Reserve(usize),
    Insert(usize, V3),
    SetD(usize, V3),
    SetIndex(usize, V3),
    AddVertex(V3),
    ChangeVertex(usize, V3),
    Move(V3),
    Scale(f64),
    /// affine matrix: rows of a linear part and a translation
    Transform([V3; 3], V3, bool),
    Sort(usize, bool),
    AppendRa(Vec<V3>, bool),
    Consume(Vec<V3>),
    Combine(Vec<V3>),
    ForEach(V3),
    RoundTripVec,
    Clone,
}
/// what an edit did
enum Done {
    Unsupported,
    Ok,
    Refused,
    Id(usize),
}

trait Target: Sized + Clone {
    const NAME: &'static str;
    const DIM: usize;
    fn make(v: &[V3]) -> Self;
    fn list(&self) -> Vec<V3>;
    fn apply(&mut self, op: &Op) -> Result<Done>;
    /// further ways of reading, compared against the list of points
    fn read(&self, _want: &[V3]) -> std::result::Result<(), Fail> {
        Ok(())
    }
}
fn r(x: Result<()>) -> Result<Done> {
    Ok(if x.is_ok() { Done::Ok } else { Done::Refused })
}
/// calls which have no way to refuse other than panicking
fn p(f: impl FnOnce()) -> Result<Done> {
    Ok(if caught(f).is_ok() { Done::Ok } else { Done::Refused })
}
fn m4(l: &[V3; 3], t: &V3) -> Matrix4 {
    let mut m = Matrix4::identity();
    for i in 0..3 {
        for j in 0..3 {
            m.data[i][j] = l[i][j];
        }
        m.data[i][3] = t[i];
    }
    m
}
fn m3(l: &[V3; 3], t: &V3) -> Matrix3 {
    let mut m = Matrix3::identity();
    for i in 0..2 {
        for j in 0..2 {
            m.data[i][j] = l[i][j];
        }
        m.data[i][2] = t[i];
    }
    m
}
fn pt3(v: &V3) -> Point3D {
    p3(v)
}
fn pt2(v: &V3) -> Point2D {
    Point2D::new(v[0], v[1])
}
fn un3(p: &Point3D) -> V3 {
    v3(p)
}
fn un2(p: &Point2D) -> V3 {
    [p.x(), p.y(), 0.0]
}
fn same(a: &[V3], b: &[V3]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}
fn len_of<T, RA: IsRandomAccessible<T>>(x: &RA) -> usize {
    x.len()
}
fn ins<T, RA: IsRandomInsertible<T>>(x: &mut RA, i: usize, v: T) -> Result<()> {
    IsRandomInsertible::insert(x, i, v)
}
fn push<T, RA: IsPushable<T>>(x: &mut RA, v: T) {
    IsPushable::push(x, v)
}
fn reserve<T, RA: IsPushable<T>>(x: &mut RA, n: usize) {
    IsPushable::reserve(x, n)
}

macro_rules! cloud {
    ($t:ty, $p:ty, $dim:expr, $name:expr, $pt:ident, $un:ident, $mat:ident, $sort:expr, $mv:expr, $pc:ident) => {
        impl Target for $t {
            const NAME: &'static str = $name;
            const DIM: usize = $dim;
            fn make(v: &[V3]) -> Self {
                let mut c = <$t>::with_capacity(v.len() / 2);
                for x in v {
                    c.push($pt(x));
                }
                c
            }
            fn list(&self) -> Vec<V3> {
                self.data[..].iter().map($un).collect()
            }
            fn apply(&mut self, op: &Op) -> Result<Done> {
                match op {
                    Op::Push(v) => push(self, $pt(v)),
                    Op::PushD(v) => self.push_d($pt(v)),
                    Op::Reserve(n) => {
                        reserve(self, *n);
                        self.reserve_d(*n);
                        self.reserve_vertices(*n)
                    }
                    Op::Insert(i, v) => return r(ins(self, *i, $pt(v))),
                    Op::SetD(i, v) => return p(|| self.set_d(*i, $pt(v))),
                    Op::SetIndex(i, v) => return p(|| self[*i] = $pt(v)),
                    Op::Move(v) => $mv(self, v),
                    Op::Scale(f) => self.scale(Positive::new(*f).unwrap()),
                    Op::Transform(l, t, inplace) => {
                        if *inplace {
                            self.transform(&$mat(l, t))
                        } else {
                            *self = self.transformed(&$mat(l, t))
                        }
                    }
                    Op::Sort(d, by_dim) => {
                        if *by_dim || *d >= $dim {
                            return r(self.sort_dim(*d));
                        }
                        $sort(self, *d)
                    }
                    Op::AppendRa(v, dq) => {
                        if *dq {
                            self.append_ra(&wrapped(&v[..].iter().map($pt).collect::<Vec<_>>()))
                        } else {
                            self.append_ra(&v[..].iter().map($pt).collect::<Vec<_>>())
                        }
                    }
                    Op::Consume(v) => self.consume(<$t>::make(v)),
                    Op::Combine(v) => *self = self.combine(&<$t>::make(v)),
                    Op::ForEach(v) => self.for_each_point(|p| {
                        p.set_x(p.x() + v[0]);
                        p.set_y(p.y() + v[1]);
                        if $dim == 3 {
                            let mut q = $un(p);
                            q[2] += v[2];
                            *p = $pt(&q);
                        }
                    }),
                    Op::RoundTripVec => {
                        let v: Vec<$p> = self.clone().into();
                        *self = <$t>::from(v);
                    }
                    Op::Clone => *self = self.clone(),
                    _ => return Ok(Done::Unsupported),
                }
                Ok(Done::Ok)
            }
            fn read(&self, want: &[V3]) -> std::result::Result<(), Fail> {
                let n = want.len();
                ensure!(len_of(self) == n && self.len_d() == n, concat!($name, " length"), "{} {} instead of {}", len_of(self), self.len_d(), n);
                for i in 0..n {
                    ensure!($un(&self[i]) == want[i], concat!($name, " index"), "[{}] is {:?} instead of {:?}", i, $un(&self[i]), want[i]);
                    ensure!(self.get_d(i).map(|x| $un(&x)) == Some(want[i]), concat!($name, " get"), "{} is {:?} instead of {:?}", i, self.get_d(i), want[i]);
                }
                ensure!(self.get_d(n).is_none() && self.get_d(n + 7).is_none(), concat!($name, " get past the end"), "{} elements", n);
                let text = self.to_str();
                let back = <$t>::parse(&text);
                if n > 0 {
                    ensure!(back.as_ref().ok() == Some(self), concat!($name, " text"), "{:?} becomes {:?}", text, back);
                } else {
                    ensure!(text.is_empty() && back.is_err(), concat!($name, " empty text"), "{:?} {:?}", text, back);
                }
                let copy = <$t>::make(want);
                ensure!(copy == *self, concat!($name, " equality"), "{:?} {:?}", copy, self);
                ensure!(format!("{}", self).lines().count() == n, concat!($name, " display"), "{} lines instead of {}", format!("{}", self).lines().count(), n);
                Ok(())
            }
        }
    };
}
cloud!(PointCloud3D<Point3D>, Point3D, 3, "PointCloud3D", pt3, un3, m4,
    |c: &mut PointCloud3D<Point3D>, d: usize| match d { 0 => c.sort_x(), 1 => c.sort_y(), _ => c.sort_z() },
    |c: &mut PointCloud3D<Point3D>, v: &V3| c.move_by(v[0], v[1], v[2]), pc3);
cloud!(PointCloud2D<Point2D>, Point2D, 2, "PointCloud2D", pt2, un2, m3,
    |c: &mut PointCloud2D<Point2D>, d: usize| match d { 0 => c.sort_x(), _ => c.sort_y() },
    |c: &mut PointCloud2D<Point2D>, v: &V3| c.move_by(v[0], v[1]), pc2);

impl Target for PointCloud3Df32<Point3D> {
    const NAME: &'static str = "PointCloud3Df32";
    const DIM: usize = 3;
    fn make(v: &[V3]) -> Self {
        let mut c = Self::with_capacity(v.len() / 2);
        for x in v {
            push(&mut c, pt3(x));
        }
        c
    }
    fn list(&self) -> Vec<V3> {
        self.data[..].chunks(3).map(|c| [c[0] as f64, c[1] as f64, c[2] as f64]).collect()
    }
    fn apply(&mut self, op: &Op) -> Result<Done> {
        match op {
            Op::Push(v) => push(self, pt3(v)),
            Op::PushD(v) => self.push_d(pt3(v)),
            Op::Reserve(n) => {
                reserve(self, *n);
                self.reserve_d(*n)
            }
            Op::SetD(i, v) => return p(|| self.set_d(*i, pt3(v))),
            Op::Move(v) => self.move_by(v[0], v[1], v[2]),
            Op::RoundTripVec => {
                let v: Vec<f32> = self.clone().into();
                *self = Self::from(v);
            }
            Op::Clone => *self = self.clone(),
            _ => return Ok(Done::Unsupported),
        }
        Ok(Done::Ok)
    }
    fn read(&self, want: &[V3]) -> std::result::Result<(), Fail> {
        let n = want.len();
        ensure!(self.data.len() == 3 * n && self.len_d() == n, "PointCloud3Df32 length", "{} {} instead of {}", self.data.len(), self.len_d(), n);
        for i in 0..n {
            ensure!(self.get_d(i).map(|x| un3(&x)) == Some(want[i]), "PointCloud3Df32 get", "{} is {:?} instead of {:?}", i, self.get_d(i), want[i]);
        }
        ensure!(self.get_d(n).is_none(), "PointCloud3Df32 get past the end", "{} elements", n);
        Ok(())
    }
}

macro_rules! std_list {
    ($t:ty, $p:ty, $dim:expr, $name:expr, $pt:ident, $un:ident, $mv:expr) => {
        impl Target for $t {
            const NAME: &'static str = $name;
            const DIM: usize = $dim;
            fn make(v: &[V3]) -> Self {
                wrapped(&v[..].iter().map($pt).collect::<Vec<$p>>()).into()
            }
            fn list(&self) -> Vec<V3> {
                (0..len_of::<$p, _>(self)).map(|i| $un(&self[i])).collect()
            }
            fn apply(&mut self, op: &Op) -> Result<Done> {
                match op {
                    Op::Push(v) => push(self, $pt(v)),
                    Op::PushD(v) => self.push_d($pt(v)),
                    Op::Reserve(n) => {
                        reserve::<$p, _>(self, *n);
                        self.reserve_d(*n)
                    }
                    Op::Insert(i, v) => return r(ins(self, *i, $pt(v))),
                    Op::SetD(i, v) => return p(|| self.set_d(*i, $pt(v))),
                    Op::SetIndex(i, v) => return p(|| self[*i] = $pt(v)),
                    Op::Move(v) => $mv(self, v),
                    Op::Clone => *self = self.clone(),
                    _ => return Ok(Done::Unsupported),
                }
                Ok(Done::Ok)
            }
            fn read(&self, want: &[V3]) -> std::result::Result<(), Fail> {
                let n = want.len();
                ensure!(len_of::<$p, _>(self) == n && self.len_d() == n, concat!($name, " length"), "{} {} instead of {}", len_of::<$p, _>(self), self.len_d(), n);
                for i in 0..n {
                    ensure!(self.get_d(i).map(|x| $un(&x)) == Some(want[i]), concat!($name, " get"), "{} is {:?} instead of {:?}", i, self.get_d(i), want[i]);
                }
                ensure!(self.get_d(n).is_none(), concat!($name, " get past the end"), "{} elements", n);
                Ok(())
            }
        }
    };
}
std_list!(Vec<Point3D>, Point3D, 3, "Vec<Point3D>", pt3, un3, |c: &mut Vec<Point3D>, v: &V3| IsMovable3D::move_by(c, v[0], v[1], v[2]));
std_list!(Vec<Point2D>, Point2D, 2, "Vec<Point2D>", pt2, un2, |c: &mut Vec<Point2D>, v: &V3| IsMovable2D::move_by(c, v[0], v[1]));
std_list!(VecDeque<Point3D>, Point3D, 3, "VecDeque<Point3D>", pt3, un3, |c: &mut VecDeque<Point3D>, v: &V3| IsMovable3D::move_by(c, v[0], v[1], v[2]));
std_list!(VecDeque<Point2D>, Point2D, 2, "VecDeque<Point2D>", pt2, un2, |c: &mut VecDeque<Point2D>, v: &V3| IsMovable2D::move_by(c, v[0], v[1]));

macro_rules! linked {
    ($p:ty, $dim:expr, $name:expr, $pt:ident, $un:ident, $mv:expr) => {
        impl Target for LinkedList<$p> {
            const NAME: &'static str = $name;
            const DIM: usize = $dim;
            fn make(v: &[V3]) -> Self {
                v[..].iter().map($pt).collect()
            }
            fn list(&self) -> Vec<V3> {
                self.iter().map($un).collect()
            }
            fn apply(&mut self, op: &Op) -> Result<Done> {
                match op {
                    Op::Push(v) => self.push_back($pt(v)),
                    Op::Move(v) => $mv(self, v),
                    _ => return Ok(Done::Unsupported),
                }
                Ok(Done::Ok)
            }
        }
    };
}
linked!(Point3D, 3, "LinkedList<Point3D>", pt3, un3, |c: &mut LinkedList<Point3D>, v: &V3| IsMovable3D::move_by(c, v[0], v[1], v[2]));
linked!(Point2D, 2, "LinkedList<Point2D>", pt2, un2, |c: &mut LinkedList<Point2D>, v: &V3| IsMovable2D::move_by(c, v[0], v[1]));

macro_rules! polygon {
    ($t:ty, $pc:ty, $p:ty, $dim:expr, $name:expr, $pt:ident, $un:ident, $mat:ident, $mv:expr) => {
        impl Target for $t {
            const NAME: &'static str = $name;
            const DIM: usize = $dim;
            fn make(v: &[V3]) -> Self {
                <$t>::from(<$pc>::make(v))
            }
            fn list(&self) -> Vec<V3> {
                (0..self.num_vertices()).map(|i| self.vertex(VId(i)).map(|p| $un(&p)).unwrap_or([f64::NAN; 3])).collect()
            }
            fn apply(&mut self, op: &Op) -> Result<Done> {
                match op {
                    Op::AddVertex(v) => return Ok(Done::Id(self.add_vertex($pt(v)).0)),
                    Op::ChangeVertex(i, v) => return r(self.change_vertex(VId(*i), $pt(v))),
                    Op::Move(v) => $mv(self, v),
                    Op::Scale(f) => self.scale(Positive::new(*f).unwrap()),
                    Op::Transform(l, t, inplace) => {
                        if *inplace {
                            self.transform(&$mat(l, t))
                        } else {
                            *self = self.transformed(&$mat(l, t))
                        }
                    }
                    Op::Clone => *self = self.clone(),
                    _ => return Ok(Done::Unsupported),
                }
                Ok(Done::Ok)
            }
            fn read(&self, want: &[V3]) -> std::result::Result<(), Fail> {
                let n = want.len();
                ensure!(self.num_vertices() == n && self.num_segments() == n, concat!($name, " counts"), "{} vertices, {} segments for {} points", self.num_vertices(), self.num_segments(), n);
                for i in 0..n {
                    let j = (i + 1) % n;
                    let ids = self.segment_vertex_ids(SId(i));
                    ensure!(ids == Some((VId(i), VId(j))), concat!($name, " segment ids"), "segment {} of {} is {:?}", i, n, ids);
                    let vs = self.segment_vertices(SId(i)).map(|(a, b)| ($un(&a), $un(&b)));
                    ensure!(vs == Some((want[i], want[j])), concat!($name, " segment"), "segment {} is {:?}", i, vs);
                }
                for k in [n, n + 3] {
                    ensure!(self.vertex(VId(k)).is_none() && self.segment_vertex_ids(SId(k)).is_none() && self.segment_vertices(SId(k)).is_none(), concat!($name, " past the end"), "{} of {} vertices", k, n);
                }
                Ok(())
            }
        }
    };
}
polygon!(Polygon3D<Point3D>, PointCloud3D<Point3D>, Point3D, 3, "Polygon3D", pt3, un3, m4, |c: &mut Polygon3D<Point3D>, v: &V3| c.move_by(v[0], v[1], v[2]));
polygon!(Polygon2D<Point2D>, PointCloud2D<Point2D>, Point2D, 2, "Polygon2D", pt2, un2, m3, |c: &mut Polygon2D<Point2D>, v: &V3| c.move_by(v[0], v[1]));

//------------------------------------------------------------------------------

struct Budget {
    mats: usize,
    scales: usize,
}
fn small(s: &mut Src, g: &Grid) -> V3 {
    g.v3(s)
}
fn gen_op(s: &mut Src, g: &Grid, n: usize, b: &mut Budget) -> Op {
    // positions in range, at the end, and past it
    let pos = |s: &mut Src| match s.weighted(&[6, 2, 1, 1]) {
        0 if n > 65536 && s.bool() => s.usize(65536, n - 1),
        0 => s.below(n.max(1)),
        1 => n,
        2 => n + 1,
        _ => n + s.below(20),
    };
    loop {
        return match s.weighted(&[5, 3, 1, 5, 4, 4, 4, 4, 3, 2, 2, 3, 2, 1, 1, 1, 1, 1]) {
            0 => Op::Push(small(s, g)),
            1 => Op::PushD(small(s, g)),
            2 => Op::Reserve(s.below(30)),
            3 => Op::Insert(pos(s), small(s, g)),
            4 => Op::SetD(pos(s), small(s, g)),
            5 => Op::SetIndex(pos(s), small(s, g)),
            6 => Op::AddVertex(small(s, g)),
            7 => Op::ChangeVertex(pos(s), small(s, g)),
            8 => Op::Move(small(s, g)),
            9 if b.scales > 0 => {
                b.scales -= 1;
                Op::Scale(*s.pick(&[2.0, 0.5, 1.0, 4.0, 0.25, 3.0, 1.5]))
            }
            10 if b.mats > 0 => {
                b.mats -= 1;
                let mut l = [[0.0; 3]; 3];
                for r in l.iter_mut() {
                    for x in r.iter_mut() {
                        *x = s.int(-2, 2) as f64;
                    }
                }
                Op::Transform(l, small(s, g), s.bool())
            }
            9 | 10 => Op::Clone,
            11 => Op::Sort(s.weighted(&[3, 3, 3, 1]), s.bool()),
            12 => Op::AppendRa(s.list(0, 4, |s| g.v3(s)), s.bool()),
            13 => Op::Consume(s.list(0, 4, |s| g.v3(s))),
            14 => Op::Combine(s.list(0, 4, |s| g.v3(s))),
            15 => Op::ForEach(small(s, g)),
            16 => Op::RoundTripVec,
            _ => Op::Clone,
        };
    }
}

/// the list after the edit; None: refused. Sort is judged by the caller.
fn model(m: &[V3], op: &Op, dim: usize, fix: &dyn Fn(&V3) -> V3) -> Option<Vec<V3>> {
    let mut v = m.to_vec();
    match op {
        Op::Push(p) | Op::PushD(p) | Op::AddVertex(p) => v.push(fix(p)),
        Op::Insert(i, p) => {
            if *i > v.len() {
                return None;
            }
            v.insert(*i, fix(p))
        }
        Op::SetD(i, p) | Op::SetIndex(i, p) | Op::ChangeVertex(i, p) => *v.get_mut(*i)? = fix(p),
        Op::Move(p) | Op::ForEach(p) => {
            let p = fix(p);
            for x in v.iter_mut() {
                *x = add3(x, &p);
            }
        }
        Op::Scale(f) => {
            // about the centre of the bounding box; without one nothing is scaled
            let mut c = [0.0; 3];
            for d in 0..dim {
                let lo = v[..].iter().map(|p| p[d]).fold(f64::INFINITY, f64::min);
                let hi = v[..].iter().map(|p| p[d]).fold(f64::NEG_INFINITY, f64::max);
                if !(lo < hi) {
                    return Some(v);
                }
                c[d] = (lo + hi) / 2.0;
            }
            for x in v.iter_mut() {
                for d in 0..dim {
                    x[d] = c[d] + f * (x[d] - c[d]);
                }
            }
        }
        Op::Transform(l, t, _) => {
            for x in v.iter_mut() {
                let mut y = [0.0; 3];
                for i in 0..dim {
                    y[i] = (0..dim).map(|j| l[i][j] * x[j]).sum::<f64>() + t[i];
                }
                *x = y;
            }
        }
        Op::AppendRa(o, _) | Op::Consume(o) | Op::Combine(o) => v.extend(o[..].iter().map(fix)),
        Op::Sort(d, _) => {
            if *d >= dim {
                return None;
            }
        }
        Op::Reserve(_) | Op::RoundTripVec | Op::Clone => {}
    }
    Some(v)
}

fn history<T: Target>(s: &mut Src, c: &mut Ctx) -> Res {
    let f32s = T::NAME == "PointCloud3Df32";
    // all edits keep to multiples of one unit, of any size
    let unit = *s.pick(&[1.0, 1.0, 1.0, 1.0 / 1073741824.0, 1073741824.0]);
    let g = if f32s { Grid { range: 80, div: 8.0 * unit, off: 0.0, fine: 0.0 } } else { *s.pick(&[Grid { range: 3, div: unit, off: 0.0, fine: 0.0 }, Grid { range: 40, div: 8.0 * unit, off: 0.0, fine: 0.0 }, Grid { range: 3, div: unit, off: 0.0, fine: 1.0 / unit / 4194304.0 }]) };
    let dim = T::DIM;
    let fix = move |v: &V3| if dim == 2 { [v[0], v[1], 0.0] } else { *v };
    let start: Vec<V3> = if s.huge { points3(s, &g, 0, 12)[..].iter().map(&fix).collect() } else { s.list(0, 12, |s| fix(&g.v3(s))) };
    let mut m = start.clone();
    let mut t = T::make(&start);
    let mut b = Budget { mats: 4, scales: 4 };
    let mut log: Vec<String> = vec![];
    let (mut changed, mut kinds) = (0, std::collections::BTreeSet::new());
    let steps = 1 + s.below(24);
    for _ in 0..steps {
        let op = gen_op(s, &g, m.len(), &mut b);
        let before = t.clone();
        let done = no_panic(T::NAME, || t.apply(&op))?.unwrap_or(Done::Refused);
        if let Done::Unsupported = done {
            continue;
        }
        log.push(format!("{:?}", op));
        let kind = format!("{:?}", op).split(|x: char| !x.is_alphanumeric()).next().unwrap().to_string();
        let sig = |what: &str| format!("{} {} {}", T::NAME, kind, what);
        let got = t.list();
        match (model(&m, &op, dim, &fix), &done) {
            (None, Done::Refused) => {
                ensure!(same(&got, &m), sig("changed although refused"), "{} {:?} on {:?}: refused, but now {:?}", T::NAME, op, m, got);
                c.label("refused");
            }
            (None, _) => return fail(&sig("accepted"), format!("{} {:?} accepted on {} points", T::NAME, op, m.len())),
            (Some(_), Done::Refused) => return fail(&sig("refused"), format!("{} {:?} refused on {} points", T::NAME, op, m.len())),
            (Some(want), done) => {
                if let Done::Id(i) = done {
                    ensure!(*i == m.len(), sig("id"), "{} for the {}th vertex", i, m.len());
                }
                if let Op::Sort(d, _) = op {
                    ensure!(sorted_keys3(&got) == sorted_keys3(&want), sig("lost points"), "{:?} becomes {:?}", want, got);
                    ensure!(got.windows(2).all(|w| w[0][d] <= w[1][d]), sig("not ordered"), "{:?} sorted by {}: {:?}", want, d, got);
                    m = got;
                } else {
                    ensure!(same(&got, &want), sig("differs from the list"), "{} {:?} on {:?}\n  gives {:?}\n  not   {:?}", T::NAME, op, m, got, want);
                    m = want;
                }
                changed += 1;
                kinds.insert(kind.clone());
            }
        }
        t.read(&m)?;
        // what was there before is untouched by edits of the copy
        if s.chance(1, 6) {
            t = before;
            m = t.list();
            log.push("undo".into());
        }
    }
    c.nontrivial(changed >= 3 && kinds.len() >= 2);
    c.desc(|| format!("{} from {} points: {}", T::NAME, start.len(), log.join(", ")));
    Ok(())
}

fn clouds(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(3) {
        0 => history::<PointCloud3D<Point3D>>(s, c),
        1 => history::<PointCloud2D<Point2D>>(s, c),
        _ => history::<PointCloud3Df32<Point3D>>(s, c),
    }
}
fn std_containers(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(6) {
        0 => history::<Vec<Point3D>>(s, c),
        1 => history::<Vec<Point2D>>(s, c),
        2 => history::<VecDeque<Point3D>>(s, c),
        3 => history::<VecDeque<Point2D>>(s, c),
        4 => history::<LinkedList<Point3D>>(s, c),
        _ => history::<LinkedList<Point2D>>(s, c),
    }
}
fn polygons(s: &mut Src, c: &mut Ctx) -> Res {
    if s.bool() {
        history::<Polygon3D<Point3D>>(s, c)
    } else {
        history::<Polygon2D<Point2D>>(s, c)
    }
}

/// sorting large clouds of arbitrary numbers
fn sorting(s: &mut Src, c: &mut Ctx) -> Res {
    let wide = s.bool();
    let few = s.bool();
    let many = if s.huge { let big = Grid { range: 800, div: 8.0, off: 0.0, fine: 0.0 }; points3(s, &big, 0, 200) } else { vec![] };
    let v: Vec<V3> = if many.len() > 0 { many } else { s.list(0, 200, |s| {
        let f = |s: &mut Src| if few { s.int(-2, 2) as f64 } else if wide { f64::from_bits(s.draw(u64::MAX)) } else { s.int(-1_000_000, 1_000_000) as f64 / 7.0 };
        let mut p = [f(s), f(s), f(s)];
        for x in p.iter_mut() {
            if x.is_nan() {
                *x = 1.5;
            }
        }
        p
    }) };
    let d = s.below(3);
    let mut a = pc3(&v);
    let mut b = a.clone();
    no_panic("sort", || match d {
        0 => a.sort_x(),
        1 => a.sort_y(),
        _ => a.sort_z(),
    })?;
    let got: Vec<V3> = a.data[..].iter().map(v3).collect();
    ensure!(sorted_keys3(&got) == sorted_keys3(&v), "sorting 3D lost points", "{:?} becomes {:?}", v, got);
    ensure!(got.windows(2).all(|w| w[0][d] <= w[1][d]), "sorting 3D not ordered", "by {}: {:?}", d, got);
    // ties are ordered by the following axes
    let key = |p: &V3| [p[d], p[(d + 1) % 3], p[(d + 2) % 3]];
    ensure!(got.windows(2).all(|w| key(&w[0]) <= key(&w[1])), "sorting 3D ties", "by {}: {:?}", d, got);
    ensure!(b.sort_dim(d).is_ok() && b.data[..].iter().map(|p| p.position_nd(d).unwrap()).collect::<Vec<_>>() == got[..].iter().map(|p| p[d]).collect::<Vec<_>>(), "sort_dim 3D", "by {}", d);
    let v2s: Vec<V2> = v[..].iter().map(|p| [p[0], p[1]]).collect();
    let mut e = pc2(&v2s);
    let d = d % 2;
    no_panic("sort 2D", || if d == 0 { e.sort_x() } else { e.sort_y() })?;
    let got: Vec<V2> = e.data[..].iter().map(v2).collect();
    let (mut x, mut y): (Vec<_>, Vec<_>) = (got[..].iter().map(key2).collect(), v2s[..].iter().map(key2).collect());
    x.sort();
    y.sort();
    ensure!(x == y, "sorting 2D lost points", "{:?} becomes {:?}", v2s, got);
    ensure!(got.windows(2).all(|w| w[0][d] <= w[1][d]), "sorting 2D not ordered", "by {}: {:?}", d, got);
    ensure!(got.windows(2).all(|w| [w[0][d], w[0][1 - d]] <= [w[1][d], w[1][1 - d]]), "sorting 2D ties", "by {}: {:?}", d, got);
    ensure!(<PointCloud3D<Point3D> as IsSortableND>::n_dimensions() == 3 && <PointCloud2D<Point2D> as IsSortableND>::n_dimensions() == 2, "dimensions", "");
    c.nontrivial(v.len() > 2);
    c.label_if(few, "ties");
    c.desc(|| format!("{} points by {}: {:?}", v.len(), d, &v[..v.len().min(5)]));
    Ok(())
}

/// elements which are no points move as well
fn moves(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let v: Vec<(V3, V3)> = if s.huge { points3(s, &g, 0, 8)[..].iter().map(|p| (*p, [p[1], p[2], p[0]])).collect() } else { s.list(0, 8, |s| (g.v3(s), g.v3(s))) };
    let m = g.v3(s);
    let seg: Vec<LineSegment3D> = v[..].iter().map(|(a, b)| LineSegment3D::new(p3(a), p3(b))).collect();
    let seg2: Vec<LineSegment2D> = v[..].iter().map(|(a, b)| LineSegment2D::new(pt2(a), pt2(b))).collect();
    let (mut a, mut b, mut d) = (seg.clone(), wrapped(&seg), seg[..].iter().cloned().collect::<LinkedList<_>>());
    let (mut a2, mut b2, mut d2) = (seg2.clone(), wrapped(&seg2), seg2[..].iter().cloned().collect::<LinkedList<_>>());
    IsMovable3D::move_by(&mut a, m[0], m[1], m[2]);
    IsMovable3D::move_by(&mut b, m[0], m[1], m[2]);
    IsMovable3D::move_by(&mut d, m[0], m[1], m[2]);
    IsMovable2D::move_by(&mut a2, m[0], m[1]);
    IsMovable2D::move_by(&mut b2, m[0], m[1]);
    IsMovable2D::move_by(&mut d2, m[0], m[1]);
    let want: Vec<LineSegment3D> = v[..].iter().map(|(a, b)| LineSegment3D::new(p3(&add3(a, &m)), p3(&add3(b, &m)))).collect();
    let want2: Vec<LineSegment2D> = v[..].iter().map(|(a, b)| LineSegment2D::new(pt2(&add3(a, &m)), pt2(&add3(b, &m)))).collect();
    ensure!(a == want, "Vec of segments move", "{:?} by {:?}: {:?}", v, m, a);
    ensure!(b.into_iter().collect::<Vec<_>>() == want, "VecDeque of segments move", "{:?} by {:?}", v, m);
    ensure!(d.into_iter().collect::<Vec<_>>() == want, "LinkedList of segments move", "{:?} by {:?}", v, m);
    ensure!(a2 == want2, "Vec of 2D segments move", "{:?} by {:?}: {:?}", v, m, a2);
    ensure!(b2.into_iter().collect::<Vec<_>>() == want2, "VecDeque of 2D segments move", "{:?} by {:?}", v, m);
    ensure!(d2.into_iter().collect::<Vec<_>>() == want2, "LinkedList of 2D segments move", "{:?} by {:?}", v, m);
    c.nontrivial(v.len() > 1 && m != [0.0; 3]);
    c.desc(|| format!("{:?} moved by {:?}", v, m));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "history: at least three accepted edits of at least two kinds; sorting: more than two points; moves: at least two elements and an actual move",
        assumptions: &["coordinates and edits are dyadic so that every container can hold the result exactly", "positions that cannot be refused by a result (set_d, indexing) are refused by a panic"],
        subs: vec![sub("clouds", 400_000, clouds).large(50), sub("std", 400_000, std_containers).large(50), sub("polygons", 200_000, polygons).large(50), sub("sorting", 200_000, sorting).large(50), sub("moves", 100_000, moves).large(50), sub("clouds-many", 120, clouds).huge(), sub("std-many", 80, std_containers).huge(), sub("polygons-many", 60, polygons).huge(), sub("sorting-many", 60, sorting).huge(), sub("moves-many", 40, moves).huge()],
    }
}
