use super::c11_filters::{gen_tree, Space, Tree, W};
use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;
use std::collections::{BTreeSet, HashSet, LinkedList, VecDeque};
use std::rc::Rc;

type Sel = BTreeSet<usize>;
fn sel(v: &View, n: usize) -> Sel {
    match v {
        View::Full => (0..n).collect(),
        View::Restricted(i) => i.iter().cloned().filter(|i| *i < n).collect(),
    }
}
fn restricted(s: &Sel) -> View {
    View::Restricted(s.iter().cloned().collect::<HashSet<_>>())
}
fn gen_sel(s: &mut Src, n: usize) -> Sel {
    match s.below(3) {
        0 => (0..n).filter(|_| s.chance(1, 2)).collect(),
        1 => (0..n).filter(|_| s.chance(1, 8)).collect(),
        _ => (0..n).filter(|_| s.chance(7, 8)).collect(),
    }
}

/// a filter of collections together with its meaning: which of the selected elements stay selected
struct RaTree<RA, T> {
    f: Rc<dyn IsFilterRandomAccessible<RA, T>>,
    want: Rc<dyn Fn(&V3) -> bool>,
    text: String,
    parts: usize,
    /// drops positions that do not exist
    cleans: bool,
}
struct RW<RA, T>(Rc<dyn IsFilterRandomAccessible<RA, T>>);
impl<RA, T> IsFilterRandomAccessible<RA, T> for RW<RA, T>
where
    RA: IsRandomAccessible<T>,
{
    fn filter(&self, ra: &RA, view: &mut View) {
        self.0.filter(ra, view)
    }
}

fn gen_ra<T: Space, RA: IsRandomAccessible<T> + 'static>(s: &mut Src, g: &Grid, depth: usize) -> RaTree<RA, T> {
    match if depth == 0 { 0 } else { s.weighted(&[3, 2, 2]) } {
        0 => {
            let t: Tree<T> = gen_tree(s, g, 1);
            RaTree { f: Rc::new(FilterRandomAccessible::<W<T>, T>::new(t.f)), want: t.want, text: t.text, parts: 1, cleans: true }
        }
        k => {
            let n = if k == 1 { s.below(4) } else { 1 + s.below(3) };
            let parts: Vec<RaTree<RA, T>> = (0..n).map(|_| gen_ra(s, g, depth - 1)).collect();
            let text = parts.iter().map(|p| p.text.clone()).collect::<Vec<_>>().join(", ");
            let count = parts.iter().map(|p| p.parts).sum();
            let cleans = if k == 1 { parts.iter().any(|p| p.cleans) } else { parts.iter().all(|p| p.cleans) };
            let wants: Vec<_> = parts.iter().map(|p| p.want.clone()).collect();
            let filters = parts.into_iter().map(|p| Box::new(RW(p.f)) as Box<dyn IsFilterRandomAccessible<RA, T>>).collect();
            if k == 1 {
                let f = FilterAllRandomAccessible { filters };
                RaTree { f: Rc::new(f), want: Rc::new(move |p| wants.iter().all(|w| w(p))), text: format!("ra_all({})", text), parts: count, cleans }
            } else {
                let f = FilterAnyRandomAccessible { filters };
                RaTree { f: Rc::new(f), want: Rc::new(move |p| wants.iter().any(|w| w(p))), text: format!("ra_any({})", text), parts: count, cleans }
            }
        }
    }
}

/// containers with a view
trait Coll: Sized + Clone {
    fn make(v: &[V3]) -> Self;
    fn list(&self) -> Vec<V3>;
}
macro_rules! coll {
    ($t:ty, $p:ty, $make:expr, $list:expr) => {
        impl Coll for $t {
            fn make(v: &[V3]) -> Self {
                let f: fn(Vec<$p>) -> $t = $make;
                f(v.iter().map(|p| <$p as Space>::pt(p)).collect())
            }
            fn list(&self) -> Vec<V3> {
                let f: fn(&$t) -> Vec<V3> = $list;
                f(self)
            }
        }
    };
}
fn l2(p: &Point2D) -> V3 {
    [p.x(), p.y(), 0.0]
}
coll!(Vec<Point3D>, Point3D, |v| v, |c| c.iter().map(v3).collect());
coll!(VecDeque<Point3D>, Point3D, |v| wrapped(&v), |c| c.iter().map(v3).collect());
coll!(LinkedList<Point3D>, Point3D, |v| v.into_iter().collect(), |c| c.iter().map(v3).collect());
coll!(PointCloud3D<Point3D>, Point3D, |v| v.into(), |c| c.data.iter().map(v3).collect());
coll!(PointCloud2D<Point2D>, Point2D, |v| v.into(), |c| c.data.iter().map(l2).collect());
coll!(Vec<Point2D>, Point2D, |v| v, |c| c.iter().map(l2).collect());

fn build<C: Coll + IsViewBuildable>(c: &C, all: &[V3], view: &View, what: &str) -> Res {
    let n = all.len();
    let bad = match view {
        View::Full => false,
        View::Restricted(i) => i.iter().any(|i| *i >= n),
    };
    let want: Vec<V3> = sel(view, n).into_iter().map(|i| all[i]).collect();
    let made = no_panic("from_view", || c.from_view(view))?;
    let mut applied = C::make(all);
    let r = no_panic("apply_view", || applied.apply_view(view))?;
    ensure!(c.list() == all, "from_view alters its source", "{}: source changed", what);
    if bad {
        ensure!(made.is_none() && r.is_err(), "invalid view accepted", "{}: view {:?} on {} elements", what, view, n);
        ensure!(applied.list() == all, "refused view alters the collection", "{}: {:?} became {:?}", what, all, applied.list());
        return Ok(());
    }
    ensure!(r.is_ok(), "view refused", "{}: apply_view of {:?} on {} elements: {:?}", what, view, n, r);
    ensure!(applied.list() == want, "apply_view", "{}: view {:?} of {:?} gives {:?}, expected {:?}", what, view, all, applied.list(), want);
    match made {
        None => return fail("view refused", format!("{}: from_view of {:?} on {} elements", what, view, n)),
        Some(m) => ensure!(m.list() == want, "from_view", "{}: view {:?} of {:?} gives {:?}, expected {:?}", what, view, all, m.list(), want),
    }
    Ok(())
}

fn history<T: Space, C>(s: &mut Src, c: &mut Ctx, flat: bool, what: &'static str) -> Res
where
    C: Coll + IsViewBuildable + IsRandomAccessible<T> + 'static,
{
    let g = if s.bool() { Grid { range: 3, div: 1.0, off: 0.0, fine: 0.0 } } else { Grid::gen(s) };
    let mut pts = points3(s, &g, 0, 40);
    if flat {
        for p in &mut pts {
            p[2] = 0.0;
        }
    }
    let mut ra = C::make(&pts);
    let mut view = View::Full;
    let mut model: Sel = (0..pts.len()).collect();
    c.desc(|| format!("{} of {:?}", what, pts));
    let steps = s.list(1, 8, |s| s.weighted(&[6, 2, 2, 1]));
    let mut narrowed = 0;
    for step in steps {
        let n = pts.len();
        match step {
            0 => {
                let t = gen_ra::<T, C>(s, &g, 2);
                c.desc(|| format!("filter {}", t.text));
                let before = model.len();
                model.retain(|i| (t.want)(&pts[*i]));
                narrowed += (model.len() < before && !model.is_empty()) as usize;
                c.label_if(t.parts >= 2, "conjunction or disjunction");
                let shown = format!("{:?}", view);
                no_panic("filter", || t.f.filter(&ra, &mut view))?;
                ensure!(sel(&view, n) == model, "filter", "filter {} turned view {} of {:?} into {:?}, expected {:?}", t.text, shown, pts, view, model);
                if let (true, View::Restricted(i)) = (t.cleans, &view) {
                    ensure!(i.iter().all(|i| *i < n), "filter keeps missing positions", "filter {} of {} points turned view {} into {:?}", t.text, n, shown, view);
                }
                ensure!(ra.list() == pts, "filter alters the collection", "now {:?}", ra.list());
            }
            1 => {
                // a different view to continue with, possibly with positions that do not exist
                model = gen_sel(s, n);
                let mut idx: HashSet<usize> = model.iter().cloned().collect();
                if s.chance(1, 3) {
                    idx.insert(n + s.below(3));
                }
                view = View::Restricted(idx);
                c.desc(|| format!("view {:?}", model));
            }
            2 => {
                let other = if s.chance(1, 5) { View::Full } else { restricted(&gen_sel(s, n)) };
                c.desc(|| format!("union {:?}", other));
                model.extend(sel(&other, n));
                view.union(other);
                ensure!(sel(&view, n) == model, "union", "union is {:?}, expected {:?}", view, model);
            }
            _ => {
                build(&ra, &pts, &view, what)?;
                if ra.apply_view(&view).is_ok() {
                    pts = model.iter().map(|i| pts[*i]).collect();
                    view = View::Full;
                    model = (0..pts.len()).collect();
                    c.desc(|| "apply".to_string());
                }
            }
        }
    }
    c.nontrivial(narrowed >= 1);
    build(&ra, &pts, &view, what)
}
fn histories(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(5) {
        0 => history::<Point3D, Vec<Point3D>>(s, c, false, "Vec<Point3D>"),
        1 => history::<Point3D, VecDeque<Point3D>>(s, c, false, "VecDeque<Point3D>"),
        2 => history::<Point3D, PointCloud3D<Point3D>>(s, c, false, "PointCloud3D"),
        3 => history::<Point2D, PointCloud2D<Point2D>>(s, c, true, "PointCloud2D"),
        _ => history::<Point2D, Vec<Point2D>>(s, c, true, "Vec<Point2D>"),
    }
}

fn views(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid { range: 3, div: 1.0, off: 0.0, fine: 0.0 };
    let flat: Vec<V3> = points3(s, &g, 0, 30);
    let n = flat.len();
    let view = match s.weighted(&[1, 5, 2]) {
        0 => View::Full,
        1 => restricted(&gen_sel(s, n)),
        _ => {
            let mut i: HashSet<usize> = gen_sel(s, n).into_iter().collect();
            i.insert(n + *s.pick(&[0, 1, 5, 1 << 40]));
            View::Restricted(i)
        }
    };
    c.desc(|| format!("{} elements, view {:?}", n, view));
    let k = sel(&view, n).len();
    c.nontrivial(k > 0 && k < n);
    match s.below(5) {
        0 => build(&<Vec<Point3D>>::make(&flat), &flat, &view, "Vec"),
        1 => build(&<VecDeque<Point3D>>::make(&flat), &flat, &view, "VecDeque"),
        2 => build(&<LinkedList<Point3D>>::make(&flat), &flat, &view, "LinkedList"),
        3 => build(&<PointCloud3D<Point3D>>::make(&flat), &flat, &view, "PointCloud3D"),
        _ => {
            let flat: Vec<V3> = flat.iter().map(|p| [p[0], p[1], 0.0]).collect();
            build(&<PointCloud2D<Point2D>>::make(&flat), &flat, &view, "PointCloud2D")
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "A case is a collection (five types) of up to 40 points and up to 8 steps: apply a filter of collections (single, nested conjunctions and disjunctions of geometric filters), replace the view (also by one naming missing positions), merge views, build from or apply the view. Non-trivial: a filter removed something and left something; for views: a proper non-empty selection.",
        assumptions: &["a disjunction has at least one part", "views are compared by what they select, not by how they store it"],
        subs: vec![sub("histories", 400_000, histories).large(50), sub("views", 400_000, views).large(50), sub("histories-many", 80, histories).huge(), sub("views-many", 60, views).huge()],
    }
}
