use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::douglas_peucker_2d;
use std::collections::HashMap;

/// distance to the segment, written independently: nearest of the ends and, if its foot is inside, the perpendicular
fn seg_dist(p: &V2, a: &V2, b: &V2) -> f64 {
    let da = (p[0] - a[0]).hypot(p[1] - a[1]);
    let db = (p[0] - b[0]).hypot(p[1] - b[1]);
    let (ux, uy) = (b[0] - a[0], b[1] - a[1]);
    let l = ux.hypot(uy);
    let mut d = da.min(db);
    if l > 0.0 {
        let along = ((p[0] - a[0]) * ux + (p[1] - a[1]) * uy) / l;
        if along >= 0.0 && along <= l {
            d = d.min(((p[0] - a[0]) * uy - (p[1] - a[1]) * ux).abs() / l);
        }
    }
    d
}

/// reference: Some(kept indices), None if a decision is too close to call
fn reference(p: &[V2], lo: usize, hi: usize, eps: f64, tol: f64, kept: &mut Vec<usize>) -> Option<()> {
    if hi <= lo + 1 {
        return Some(());
    }
    let mut d: Vec<(f64, usize)> = (lo + 1..hi).map(|i| (seg_dist(&p[i], &p[lo], &p[hi]), i)).collect();
    d.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    if (d[0].0 - eps).abs() < tol {
        return None;
    }
    if d[0].0 < eps {
        return Some(());
    }
    if d.len() > 1 && d[0].0 - d[1].0 < tol {
        return None;
    }
    let m = d[0].1;
    reference(p, lo, m, eps, tol, kept)?;
    kept.push(m);
    reference(p, m, hi, eps, tol, kept)
}

/// can `out` be read as an in-order subsequence of `p` with both ends, every skipped point within eps of its own segment?
fn embeds(p: &[V2], out: &[V2], eps: f64) -> Result<(), String> {
    let n = p.len();
    if out.first() != p.first() || out.last() != p.last() {
        return Err("ends differ".into());
    }
    let mut places: HashMap<[u64; 2], Vec<usize>> = HashMap::new();
    for (i, x) in p.iter().enumerate() {
        places.entry(key2(x)).or_default().push(i);
    }
    let mut reach: Vec<usize> = vec![0];
    let mut why = String::new();
    for k in 1..out.len() {
        let mut next = vec![];
        for &i in places.get(&key2(&out[k])).map(|x| &x[..]).unwrap_or(&[]) {
            if k == out.len() - 1 && i != n - 1 {
                continue;
            }
            for &f in reach.iter().filter(|f| **f < i) {
                match (f + 1..i).find(|m| seg_dist(&p[*m], &out[k - 1], &out[k]) > eps) {
                    None => {
                        next.push(i);
                        break;
                    }
                    Some(m) => why = format!("point {} {:?} is {} off the segment {:?} {:?}", m, p[m], seg_dist(&p[m], &out[k - 1], &out[k]), out[k - 1], out[k]),
                }
            }
        }
        if next.is_empty() {
            return Err(if why.is_empty() { format!("{:?} does not follow", out[k]) } else { why });
        }
        reach = next;
    }
    if reach.contains(&(n - 1)) { Ok(()) } else { Err("last point not reached".into()) }
}

fn polyline(s: &mut Src) -> (Vec<V2>, &'static str) {
    if std::mem::take(&mut s.huge) {
        let (n, mut r) = (many_n(s), Rng::new(s.draw(1 << 30)));
        let (mut at, along) = ([0.0, 0.0], s.below(2) as u64 * 5);
        let mut step = |m: u64| (r.next() % (m + 8)) as f64 / 8.0 - 0.5 + 1.0 / 16.0;
        return ((0..n).map(|_| { at = [at[0] + step(along), at[1] + step(0)]; at }).collect(), "many");
    }
    let g = Grid::gen(s);
    match s.weighted(&[3, 3, 2, 2, 2, 1]) {
        0 => (points2(s, &g, 0, 40), "mixed"),
        1 => {
            let mut at = g.v2(s);
            (s.list(0, 60, |s| { at[0] += s.int(-4, 8) as f64 / 8.0; at[1] += s.int(-6, 6) as f64 / 8.0; at }), "walk")
        }
        2 => {
            // vertical with noise, runs back and forth
            let x = g.c(s);
            (s.list(0, 30, |s| [x + if s.chance(1, 3) { s.int(-3, 3) as f64 / 4.0 } else { 0.0 }, s.int(-20, 20) as f64 / 2.0]), "vertical")
        }
        3 => {
            let mut v = s.list(1, 30, |s| g.v2(s));
            let f = v[0];
            v.push(f);
            (v, "closed")
        }
        4 => {
            // a straight line in any direction with overshooting ends
            let (o, dx, dy) = (g.v2(s), s.int(-3, 3) as f64, s.int(-3, 3) as f64);
            (s.list(0, 20, |s| { let k = s.int(-9, 9) as f64; [o[0] + k * dx, o[1] + k * dy] }), "line")
        }
        _ => {
            let small = Grid { range: 2, div: 1.0, off: 0.0, fine: 0.0 };
            (s.list(0, 40, |s| small.v2(s)), "dense")
        }
    }
}

fn simplify(s: &mut Src, c: &mut Ctx) -> Res {
    let (pts, what) = polyline(s);
    c.label(what);
    let mut extent = 0.0f64;
    for p in &pts {
        extent = extent.max((p[0] - pts[0][0]).abs()).max((p[1] - pts[0][1]).abs());
    }
    let eps = match s.weighted(&[1, 3, 6, 1, 3]) {
        0 => 0.0,
        1 => s.draw(64) as f64 / 16.0 + 0.013,
        2 => extent * (1.0 + s.draw(40) as f64) / 97.0,
        3 => s.draw(200) as f64,
        _ => {
            // just below or above what decides the first split
            let far = pts.iter().map(|p| seg_dist(p, &pts[0], &pts[pts.len() - 1])).fold(0.0, f64::max);
            far * (1.0 + s.int(-3, 3) as f64 * 1e-8)
        }
    };
    c.desc(|| format!("eps {} {:?}", eps, pts));
    let dp = |v: &[V2], eps: f64| -> Result<Vec<V2>, Fail> {
        Ok(no_panic("douglas_peucker_2d", || douglas_peucker_2d(pc2(v), eps))?.data.iter().map(v2).collect())
    };
    let out = dp(&pts, eps)?;
    if pts.len() <= 2 {
        ensure!(out == pts, "short line changed", "{:?} became {:?}", pts, out);
        return Ok(());
    }
    let scale = pts.iter().fold(0.0f64, |m, p| m.max(p[0].abs()).max(p[1].abs()));
    let tol = (1e-9 * scale).max(f64::MIN_POSITIVE);
    ensure!(out.len() >= 2, "too few points", "eps {}: {:?} became {:?}", eps, pts, out);
    if let Err(e) = embeds(&pts, &out, eps + tol) {
        return fail("not a simplification within tolerance", format!("{}; eps {}: {:?} became {:?}", e, eps, pts, out));
    }
    c.nontrivial(out.len() > 2 && out.len() < pts.len());
    c.label_if(out.len() > 2 && pts[0] == *pts.last().unwrap(), "closed and split");
    let mut kept = vec![0];
    if reference(&pts, 0, pts.len() - 1, eps, tol, &mut kept).is_some() {
        kept.push(pts.len() - 1);
        let want: Vec<V2> = kept.iter().map(|i| pts[*i]).collect();
        c.label("compared to reference");
        ensure!(out == want, "differs from farthest point splitting", "eps {}: {:?} became {:?}, expected {:?}", eps, pts, out, want);
        ensure!(dp(&out, eps)? == out, "not idempotent", "eps {}: {:?} simplified again", eps, out);
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "the line has been split and at least one point was dropped",
        assumptions: &["finite coordinates and a tolerance of at least zero", "distances are compared with a slack of 1e-9 of the largest coordinate"],
        subs: vec![sub("simplify", 600_000, simplify).large(50), sub("many", 16, simplify).huge()],
    }
}
