use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;
use std::f64::consts::PI;

fn pos(s: &mut Src) -> f64 {
    match s.below(3) {
        0 => (1 + s.draw(40)) as f64 / 4.0,
        1 => (1 + s.draw(1000)) as f64 / 7.0,
        _ => 10f64.powi(s.int(-12, 12) as i32),
    }
}
fn angle(s: &mut Src) -> f64 {
    match s.weighted(&[5, 5, 5, 1]) {
        0 => s.int(-8, 8) as f64 * PI / 4.0,
        1 => s.int(-1000, 1000) as f64 / 90.0,
        2 => s.int(-3, 3) as f64,
        _ => s.int(-1000, 1000) as f64 * 10f64.powi(s.int(-12, 6) as i32) / 7.0,
    }
}
fn count(s: &mut Src) -> usize {
    if std::mem::take(&mut s.huge) {
        return many_n(s);
    }
    match s.weighted(&[1, 1, 1, 7]) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => 3 + s.below(60),
    }
}

fn shapes(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let ctr = g.v2(s);
    let cp = p2(&ctr);
    let n = count(s);
    let (a, b) = (pos(s), pos(s));
    let (pa, pb) = (Positive::new(a).unwrap(), Positive::new(b).unwrap());
    let (start, end) = (angle(s), angle(s));
    let kind = s.below(4);
    let r = a / 2.0;
    let at = |i: usize, from: f64, to: f64| if n > 1 { from + (to - from) * (i as f64) / ((n - 1) as f64) } else { from };
    let (what, got, want): (&str, PointCloud2D<Point2D>, Vec<V2>) = match kind {
        0 => (
            "rectangle",
            no_panic("rectangle", || rectangle(&cp, pa, pb))?,
            vec![[-a / 2.0, -b / 2.0], [a / 2.0, -b / 2.0], [a / 2.0, b / 2.0], [-a / 2.0, b / 2.0]],
        ),
        1 => (
            "involute",
            no_panic("involut_circle", || involut_circle(&cp, n, pa, Rad(start), Rad(end)))?,
            (0..n).map(|i| at(i, start, end)).map(|t| [r * (t.cos() + t * t.sin()), r * (t.sin() - t * t.cos())]).collect(),
        ),
        2 => (
            "arc",
            no_panic("arc", || arc(&cp, n, pa, Rad(start), Rad(end)))?,
            (0..n).map(|i| at(i, start, end)).map(|t| [r * t.cos(), r * t.sin()]).collect(),
        ),
        _ => (
            "ellipse",
            no_panic("ellipse", || ellipse(&cp, n, pa, pb))?,
            (0..n).map(|i| at(i, 0.0, 2.0 * PI)).map(|t| [a * t.cos(), b * t.sin()]).collect(),
        ),
    };
    c.label(match kind { 0 => "rectangle", 1 => "involute", 2 => "arc", _ => "ellipse" });
    c.desc(|| format!("{} n {} centre {:?} a {} b {} from {} to {}", what, n, ctr, a, b, start, end));
    c.nontrivial(kind == 0 && a != b || n >= 3 && (kind == 3 || start != end));
    let got: Vec<V2> = got.data.iter().map(v2).collect();
    ensure!(got.len() == want.len(), "number of points", "{}: {} points instead of {}", what, got.len(), want.len());
    let turn = start.abs().max(end.abs());
    let size = a.max(b) * (1.0 + turn);
    // an angle has a relative error, an involute is as large as its angle
    let tol = 1e-12 * (size + ctr[0].abs() + ctr[1].abs()) + if kind == 1 { 1e-15 * a * turn * turn } else { 0.0 };
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        let w = [ctr[0] + w[0], ctr[1] + w[1]];
        let d = (g[0] - w[0]).hypot(g[1] - w[1]);
        ensure!(d <= tol, "point off the shape", "{} point {} of {} is {:?}, expected {:?} (centre {:?} a {} b {} from {} to {})", what, i, n, g, w, ctr, a, b, start, end);
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "three or more points (a rectangle: unequal sides) and, where there are angles, unequal ones",
        assumptions: &["positions are compared with a slack of 1e-12 of the shape's size and distance from the origin"],
        subs: vec![sub("shapes", 600_000, shapes).large(50), sub("many", 32, shapes).huge()],
    }
}
