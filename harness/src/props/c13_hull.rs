use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;
use std::collections::HashSet;

fn ccw(a: &V2, b: &V2, c: &V2) -> f64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}

/// layouts which are hard for hull algorithms, all on a dyadic grid so that `ccw` is exact
fn layout(s: &mut Src) -> (Vec<V2>, &'static str) {
    if s.huge {
        let g = wide(s);
        return (points2(s, &g, 0, 60), "many");
    }
    let g = Grid::gen(s);
    match s.weighted(&[5, 2, 2, 2, 2, 1]) {
        0 => (points2(s, &g, 0, 60), "mixed"),
        1 => {
            // a line, in any direction
            let (o, dx, dy) = (g.v2(s), s.int(-3, 3) as f64, s.int(-3, 3) as f64);
            (s.list(0, 20, |s| { let k = s.int(-9, 9) as f64; [o[0] + k * dx, o[1] + k * dy] }), "line")
        }
        2 => {
            // the border of a box, so nearly everything is on the hull but no vertex of it
            let (o, w, h) = (g.v2(s), 1 + s.draw(6) as i64, 1 + s.draw(6) as i64);
            let v = s.list(0, 40, |s| {
                let (x, y) = (s.draw(w as u64) as f64, s.draw(h as u64) as f64);
                match s.below(4) {
                    0 => [o[0] + x, o[1]],
                    1 => [o[0] + x, o[1] + h as f64],
                    2 => [o[0], o[1] + y],
                    _ => [o[0] + w as f64, o[1] + y],
                }
            });
            (v, "box border")
        }
        3 => {
            // points of a parabola, every one a vertex
            let v = s.list(0, 40, |s| { let x = s.int(-60, 60) as f64; [x, x * x] });
            (v, "parabola")
        }
        4 => {
            let small = Grid { range: 2, div: 1.0, off: 0.0, fine: 0.0 };
            (s.list(0, 40, |s| small.v2(s)), "dense")
        }
        _ => {
            // few columns, many ties in x
            let v = s.list(0, 30, |s| [s.int(-1, 1) as f64, s.int(-9, 9) as f64]);
            (v, "columns")
        }
    }
}

fn check(pts: &[V2], hull: &[V2], tol: f64) -> Res {
    let keys: HashSet<_> = pts.iter().map(key2).collect();
    for h in hull {
        ensure!(keys.contains(&key2(h)), "vertex is no input point", "{:?} of hull {:?} of {:?}", h, hull, pts);
    }
    let seen: HashSet<_> = hull.iter().map(key2).collect();
    ensure!(seen.len() == hull.len(), "repeated vertex", "hull {:?} of {:?}", hull, pts);
    ensure!(hull.len() >= keys.len().min(2), "too few vertices", "hull {:?} of {:?}", hull, pts);
    if hull.len() == 2 {
        let (a, b) = (hull[0], hull[1]);
        for p in pts {
            ensure!(ccw(&a, &b, p).abs() <= tol, "point outside", "{:?} is not on the segment {:?} {:?}", p, a, b);
            let t = (p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1]);
            let l = (b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1]);
            ensure!(t >= -tol && t <= l + tol, "point outside", "{:?} is beyond the segment {:?} {:?}", p, a, b);
        }
    }
    if hull.len() >= 3 {
        let n = hull.len();
        let dir = ccw(&hull[0], &hull[1], &hull[2]).signum();
        for i in 0..n {
            let (a, b, c) = (hull[i], hull[(i + 1) % n], hull[(i + 2) % n]);
            let t = ccw(&a, &b, &c) * dir;
            ensure!(t > 0.0 || tol > 0.0 && t >= -tol, "turning direction", "no {} turn at {:?} {:?} {:?} of hull {:?} of {:?}", if dir > 0.0 { "left" } else { "right" }, a, b, c, hull, pts);
            for p in pts {
                ensure!(ccw(&a, &b, p) * dir >= -tol, "point outside", "{:?} is outside of edge {:?} {:?} of hull {:?} of {:?}", p, a, b, hull, pts);
            }
        }
    }
    Ok(())
}

fn exact(s: &mut Src, c: &mut Ctx) -> Res {
    let (mut pts, what) = layout(s);
    c.label(what);
    match s.weighted(&[8, 1, 1, 1]) {
        0 => (),
        1 => {
            // far from the origin, the differences stay the same
            let o = [(1u64 << s.below(48)) as f64, (1u64 << s.below(48)) as f64];
            let o = [if s.bool() { o[0] } else { -o[0] }, if s.bool() { o[1] } else { -o[1] }];
            if pts.iter().all(|p| (0..2).all(|d| p[d] + o[d] - o[d] == p[d])) {
                for p in &mut pts {
                    *p = [p[0] + o[0], p[1] + o[1]];
                }
                c.label("far away");
            }
        }
        k => {
            // every axis by its own power of two (only lengths change, no turn); or both by the same
            let f = [s.int(-120, 120) as i32, s.int(-120, 120) as i32];
            for p in &mut pts {
                *p = [p[0] * 2f64.powi(f[0]), p[1] * 2f64.powi(f[if k == 2 { 0 } else { 1 }])];
            }
            c.label("scaled");
        }
    }
    c.desc(|| format!("{:?}", pts));
    let hull: Vec<V2> = no_panic("convex_hull_2d", || convex_hull_2d(&pc2(&pts)))?.iter().map(|p: &Point2D| v2(p)).collect();
    check(&pts, &hull, 0.0)?;
    let distinct: HashSet<_> = pts.iter().map(key2).collect();
    c.label_if(distinct.len() < pts.len(), "repeated points");
    c.label_if(hull.len() < 3 && distinct.len() >= 3, "collinear");
    c.label_if(hull.len() >= 3 && pts.iter().any(|p| !hull.contains(p) && (0..hull.len()).any(|i| ccw(&hull[i], &hull[(i + 1) % hull.len()], p) == 0.0)), "points on hull edges");
    c.nontrivial(distinct.len() > hull.len() && hull.len() >= 2 || hull.len() >= 5);
    // other containers, other order, hull of the hull
    let mut order = pts.clone();
    s.shuffle(&mut order);
    let other: Vec<V2> = match s.below(3) {
        0 => convex_hull_2d(&order.iter().map(p2).collect::<Vec<Point2D>>()).iter().map(|p: &Point2D| v2(p)).collect(),
        1 => convex_hull_2d(&wrapped(&order.iter().map(p2).collect::<Vec<Point2D>>())).iter().map(|p: &Point2D| v2(p)).collect(),
        _ => convex_hull_2d(&pc2(&hull)).iter().map(|p: &Point2D| v2(p)).collect(),
    };
    ensure!(other.iter().map(key2).collect::<HashSet<_>>() == hull.iter().map(key2).collect::<HashSet<_>>() && other.len() == hull.len(), "hull depends on order", "{:?} and {:?} for {:?}", hull, other, pts);
    Ok(())
}

/// arbitrary coordinates, judged up to rounding
fn floats(s: &mut Src, c: &mut Ctx) -> Res {
    let scale = *s.pick(&[1.0, 1e-6, 1e6, 1e-3]);
    let kind = s.below(3);
    let pts: Vec<V2> = s.list(0, 80, |s| {
        let t = s.draw(1 << 40) as f64 / (1u64 << 40) as f64;
        let u = s.draw(1 << 40) as f64 / (1u64 << 40) as f64;
        match kind {
            0 => [scale * (2.0 * t - 1.0), scale * (2.0 * u - 1.0)],
            1 => [scale * (t * 6.3).cos(), scale * (t * 6.3).sin()],
            _ => [scale * t, scale * t * 0.3 + scale * 0.1],
        }
    });
    c.desc(|| format!("{:?}", pts));
    let hull: Vec<V2> = no_panic("convex_hull_2d", || convex_hull_2d(&pc2(&pts)))?.iter().map(|p: &Point2D| v2(p)).collect();
    if kind == 2 {
        // nearly collinear, only containment up to rounding is meaningful
        for p in &pts {
            let far = hull.iter().any(|h| h[0] <= p[0]) && hull.iter().any(|h| h[0] >= p[0]);
            ensure!(far, "point outside", "{:?} is not within the extent of hull {:?} of {:?}", p, hull, pts);
        }
        return Ok(());
    }
    c.nontrivial(hull.len() >= 3 && hull.len() < pts.len() || hull.len() >= 5);
    check(&pts, &hull, 1e-12 * scale * scale)
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "some distinct input point is not a hull vertex, or the hull has five or more vertices",
        assumptions: &["sub exact: coordinates on a dyadic grid, the orientation test is exact", "sub floats: containment up to 1e-12 of the squared extent"],
        subs: vec![sub("exact", 600_000, exact).large(50), sub("floats", 100_000, floats).large(50), sub("many", 16, exact).huge()],
    }
}
