use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::{interpolate_bezier, interpolate_cosine, interpolation_linear, ErrorKind, PointCloud2D, Point2D};
use std::f64::consts::PI;

type Out = rust_3d::Result<PointCloud2D<Point2D>>;

fn scale(base: &[V2]) -> f64 {
    base.iter().fold(1.0f64, |m, p| m.max(p[0].abs()).max(p[1].abs()))
}
fn count(s: &mut Src) -> usize {
    if std::mem::take(&mut s.huge) {
        return many_n(s);
    }
    match s.weighted(&[1, 1, 1, 6, 2]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3 + s.below(40),
        _ => 3 + s.below(400),
    }
}
fn path(s: &mut Src, max: usize) -> Vec<V2> {
    let g = Grid::gen(s);
    // either the path or the samples are many
    let many_samples = s.huge && (max <= 30 || s.bool());
    s.huge &= !many_samples;
    let mut v = points2(s, &g, 0, if many_samples { 6 } else { max });
    s.huge = many_samples;
    if s.chance(1, 4) && v.len() > 1 {
        // a stretch without length
        let i = s.below(v.len());
        let p = v[i];
        for _ in 0..1 + s.below(3) {
            v.insert(i, p);
        }
    }
    if s.chance(1, 2) {
        let f = *s.pick(&[0.1, 1.0 / 3.0, 0.7, 1e-3, 1e3 / 7.0]);
        for p in &mut v {
            p[0] *= f;
            p[1] *= f;
        }
    }
    v
}
fn refusal(base: &[V2], r: &Out, what: &str) -> Result<bool, Fail> {
    if base.len() < 2 {
        ensure!(matches!(r, Err(ErrorKind::TooFewPoints)), "too short a path accepted", "{} of {:?}", what, base);
        return Ok(true);
    }
    Ok(false)
}

fn bezier(s: &mut Src, c: &mut Ctx) -> Res {
    let max = if !s.huge && s.chance(1, 10) { 200 } else { 30 };
    let base = path(s, max);
    let many = s.huge;
    let n = count(s).min(if many { 100_000 } else { 4000 / base.len().max(1) + 3 });
    c.desc(|| format!("{} samples of {:?}", n, base));
    let r = no_panic("interpolate_bezier", || interpolate_bezier(&pc2(&base), n))?;
    if refusal(&base, &r, "bezier")? {
        return Ok(());
    }
    let out: Vec<V2> = match r {
        Ok(x) => x.data.iter().map(v2).collect(),
        Err(e) => return fail("refused", format!("bezier {:?} of {:?}", e, base)),
    };
    ensure!(out.len() == n, "number of points", "{} instead of {} bezier points of {:?}", out.len(), n, base);
    c.nontrivial(base.len() >= 3 && n >= 2);
    c.label_if(base.len() > 21, "more than 21 base points");
    let tol = 1e-11 * scale(&base) * base.len() as f64;
    for (i, o) in out.iter().enumerate() {
        // de Casteljau
        let t = i as f64 / n as f64;
        let mut w = base.clone();
        while w.len() > 1 {
            w = w.windows(2).map(|p| [p[0][0] * (1.0 - t) + p[1][0] * t, p[0][1] * (1.0 - t) + p[1][1] * t]).collect();
        }
        let d = (w[0][0] - o[0]).hypot(w[0][1] - o[1]);
        ensure!(d <= tol, "not on the bezier curve", "sample {} of {} is {:?}, the curve is at {:?}; base {:?}", i, n, o, w[0], base);
    }
    Ok(())
}

fn arc_len(s: &mut Src, c: &mut Ctx, cosine: bool) -> Res {
    let base = path(s, 40);
    let n = count(s);
    let what = if cosine { "cosine" } else { "linear" };
    c.desc(|| format!("{} samples of {:?}", n, base));
    let r = if cosine {
        no_panic("interpolate_cosine", || interpolate_cosine(&pc2(&base), n))?
    } else {
        no_panic("interpolation_linear", || interpolation_linear(&pc2(&base), n))?
    };
    if refusal(&base, &r, what)? {
        return Ok(());
    }
    let out: Vec<V2> = match r {
        Ok(x) => x.data.iter().map(v2).collect(),
        Err(e) => return fail("refused", format!("{} {:?} of {:?}", what, e, base)),
    };
    ensure!(out.len() == n, "number of points", "{} instead of {} {} points of {:?}", out.len(), n, what, base);
    let seg: Vec<f64> = base.windows(2).map(|w| (w[1][0] - w[0][0]).hypot(w[1][1] - w[0][1])).collect();
    let total: f64 = seg.iter().sum();
    c.nontrivial(base.len() >= 3 && n >= 3 && total > 0.0);
    c.label_if(seg.iter().any(|l| *l == 0.0), "repeated base points");
    c.label_if(total == 0.0, "path without length");
    let tol = 1e-11 * (scale(&base) + total);
    for (i, o) in out.iter().enumerate() {
        let mut rest = if n > 1 { total * (i as f64 / (n - 1) as f64) } else { 0.0 };
        let mut want = *base.last().unwrap();
        if i == 0 {
            want = base[0];
        } else if i + 1 < n {
            for (k, l) in seg.iter().enumerate() {
                if rest <= *l && *l > 0.0 {
                    let f = rest / l;
                    let e = if cosine { (1.0 - (f * PI).cos()) / 2.0 } else { f };
                    want = [base[k][0] + f * (base[k + 1][0] - base[k][0]), base[k][1] + e * (base[k + 1][1] - base[k][1])];
                    break;
                }
                rest -= l;
            }
        }
        let d = (want[0] - o[0]).hypot(want[1] - o[1]);
        ensure!(d <= tol, "not on the curve", "{} sample {} of {} is {:?}, expected {:?}; base {:?}", what, i, n, o, want, base);
    }
    Ok(())
}
fn linear(s: &mut Src, c: &mut Ctx) -> Res {
    arc_len(s, c, false)
}
fn cosine(s: &mut Src, c: &mut Ctx) -> Res {
    arc_len(s, c, true)
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "at least three base points and at least three samples (two for Bezier) of a path with length",
        assumptions: &["positions are compared with a slack of 1e-11 of the extent"],
        subs: vec![sub("bezier", 60_000, bezier).large(50), sub("linear", 200_000, linear).large(50), sub("cosine", 200_000, cosine).large(50), sub("bezier-many", 24, bezier).huge(), sub("linear-many", 24, linear).huge(), sub("cosine-many", 24, cosine).huge()],
    }
}
