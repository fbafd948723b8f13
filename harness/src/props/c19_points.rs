use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// finite, up to 1e100 in magnitude, so that no square overflows or vanishes
fn coord(s: &mut Src) -> f64 {
    match s.weighted(&[4, 3, 2, 1, 1]) {
        0 => s.int(-40, 40) as f64 / 4.0,
        1 => s.int(-100000, 100000) as f64 / 773.0,
        2 => s.int(-999, 999) as f64 / 7.0 * 10f64.powi(s.int(-12, 12) as i32),
        3 => s.int(-999, 999) as f64 * 10f64.powi(s.int(-90, 90) as i32),
        _ => *s.pick(&[0.0, -0.0]),
    }
}
fn vec3(s: &mut Src) -> V3 {
    if s.chance(1, 2) {
        let g = Grid::gen(s);
        g.v3(s)
    } else {
        [coord(s), coord(s), coord(s)]
    }
}

//------------------------------------------------------------------------------
// arithmetic

fn arithmetic(s: &mut Src, c: &mut Ctx) -> Res {
    let (a, b) = (vec3(s), vec3(s));
    let k = match s.below(3) { 0 => s.int(-64, 64) as f64 / 8.0, 1 => s.int(-999, 999) as f64 / 7.0, _ => 2f64.powi(s.int(-40, 40) as i32) };
    c.desc(|| format!("{:?} {:?} {}", a, b, k));
    // sums of products may be added in any order
    let (la, lb) = (len3(&a), len3(&b));
    let dust = 1e-15 * la * lb;
    let mids = 1e-15 * (la + lb);
    c.nontrivial(a != b && len3(&a) > 0.0 && len3(&b) > 0.0);
    let (p, q) = (p3(&a), p3(&b));
    let w = [a[0] + b[0], a[1] + b[1], a[2] + b[2]];
    for (what, got) in vec![("p + q", p.clone() + q.clone()), ("&p + &q", &p + &q), ("&p + q", &p + q.clone()), ("add", add(&p, &q))] {
        ensure!(v3(&got) == w, "addition", "3D {} of {:?} {:?} is {:?}", what, a, b, got);
    }
    let w = sub3(&a, &b);
    for (what, got) in vec![("p - q", p.clone() - q.clone()), ("&p - &q", &p - &q), ("&p - q", &p - q.clone()), ("conn", conn(&q, &p))] {
        ensure!(v3(&got) == w, "subtraction", "3D {} of {:?} {:?} is {:?}", what, a, b, got);
    }
    let w = mul3(&a, k);
    ensure!(v3(&(&p * k)) == w && v3(&(p.clone() * k)) == w, "multiplication", "3D {:?} * {} is {:?}", a, k, &p * k);
    ensure!(v3(&-&p) == mul3(&a, -1.0) && v3(&-p.clone()) == mul3(&a, -1.0), "negation", "3D {:?}", a);
    if k != 0.0 {
        let w = [a[0] / k, a[1] / k, a[2] / k];
        ensure!(near(&v3(&(&p / k)), &w, 1e-15) && near(&v3(&(p.clone() / k)), &w, 1e-15), "division", "3D {:?} / {} is {:?}", a, k, &p / k);
    }
    ensure!((p.dot(&q) - dot3(&a, &b)).abs() <= dust, "dot product", "3D {:?} {:?} is {}", a, b, p.dot(&q));
    let (got, want) = (v3(&cross(&p, &q)), cross3(&a, &b));
    ensure!((0..3).all(|i| (got[i] - want[i]).abs() <= dust), "cross product", "3D {:?} {:?} is {:?}", a, b, cross(&p, &q));
    ensure!((*p.abs() - la).abs() <= 1e-14 * la, "length", "3D {:?} is {}", a, *p.abs());
    let mid = mul3(&[a[0] + b[0], a[1] + b[1], a[2] + b[2]], 0.5);
    let at = |x: &V3| (0..3).all(|i| (x[i] - mid[i]).abs() <= mids);
    ensure!(at(&v3(&p.center(&q))) && at(&v3(&center_3d(&p, &q))), "centre", "3D {:?} {:?} is {:?} {:?}", a, b, p.center(&q), center_3d(&p, &q));
    ensure!(p.xyz() == a && Is3D::xy(&p) == [a[0], a[1]] && p.xz() == [a[0], a[2]] && p.yz() == [a[1], a[2]], "components", "3D {:?}", a);
    for d in 0..3 {
        ensure!(p.position_nd(d) == Some(a[d]), "position_nd", "3D {:?}", a);
        ensure!(matches!(dimension_dist(&p, &q, d as i8), Ok(x) if x == (a[d] - b[d]).abs()), "dimension_dist", "{:?} {:?} {}", a, b, d);
        ensure!(matches!(dimension_compare(&p, &q, d as i8), Ok(x) if Some(x) == a[d].partial_cmp(&b[d])), "dimension_compare", "{:?} {:?} {}", a, b, d);
    }
    ensure!(p.position_nd(3).is_none() && dimension_dist(&p, &q, 3).is_err() && dimension_compare(&p, &q, 3).is_err() && dimension_dist(&p, &q, -1).is_err() && dimension_compare(&p, &q, -1).is_err(), "dimension out of range accepted", "{:?}", a);
    ensure!(min64(a[0], a[1]) == a[0].min(a[1]) && max64(a[0], a[1]) == a[0].max(a[1]) && max_f64(a[0], a[1]) == a[0].max(a[1]) && max_f64_3(a[0], a[1], a[2]) == a[0].max(a[1]).max(a[2]), "min/max", "{:?}", a);

    let boxed = Box::new(p.clone());
    ensure!(v3(&boxed) == a && <Box<Point3D> as IsND>::n_dimensions() == 3 && (0..4).all(|d| IsND::position_nd(&boxed, d) == p.position_nd(d)), "boxed point", "3D {:?}", a);
    ensure!(dist_3d(&boxed, &q) == dist_3d(&p, &q), "boxed point", "3D {:?}", a);

    let (e, f) = ([a[0], a[1]], [b[0], b[1]]);
    let boxed = Box::new(p2(&e));
    ensure!(v2(&boxed) == e && <Box<Point2D> as IsND>::n_dimensions() == 2 && (0..3).all(|d| IsND::position_nd(&boxed, d) == p2(&e).position_nd(d)), "boxed point", "2D {:?}", e);
    let (p, q) = (p2(&e), p2(&f));
    let w = [e[0] + f[0], e[1] + f[1]];
    for (what, got) in vec![("p + q", p.clone() + q.clone()), ("&p + &q", &p + &q), ("&p + q", &p + q.clone())] {
        ensure!(v2(&got) == w, "addition", "2D {} of {:?} {:?} is {:?}", what, e, f, got);
    }
    let w = [e[0] - f[0], e[1] - f[1]];
    for (what, got) in vec![("p - q", p.clone() - q.clone()), ("&p - &q", &p - &q), ("&p - q", &p - q.clone())] {
        ensure!(v2(&got) == w, "subtraction", "2D {} of {:?} {:?} is {:?}", what, e, f, got);
    }
    let w = [e[0] * k, e[1] * k];
    ensure!(v2(&(&p * k)) == w && v2(&(p.clone() * k)) == w, "multiplication", "2D {:?} * {}", e, k);
    ensure!(v2(&-&p) == [-e[0], -e[1]] && v2(&-p.clone()) == [-e[0], -e[1]], "negation", "2D {:?}", e);
    if k != 0.0 {
        let w = [e[0] / k, e[1] / k];
        ensure!(near(&v2(&(&p / k)), &w, 1e-15) && near(&v2(&(p.clone() / k)), &w, 1e-15), "division", "2D {:?} / {}", e, k);
    }
    let want = e[0] * f[0] + e[1] * f[1];
    ensure!((p.dot(&q) - want).abs() <= dust, "dot product", "2D {:?} {:?} is {}", e, f, p.dot(&q));
    let want = e[0] * f[1] - e[1] * f[0];
    ensure!((p.cross(&q) - want).abs() <= dust, "cross product", "2D {:?} {:?} is {}", e, f, p.cross(&q));
    let want = e[0].hypot(e[1]);
    ensure!((*p.abs() - want).abs() <= 1e-14 * want, "length", "2D {:?} is {}", e, *p.abs());
    let mid = [(e[0] + f[0]) / 2.0, (e[1] + f[1]) / 2.0];
    let at = |x: &V2| (0..2).all(|i| (x[i] - mid[i]).abs() <= mids);
    ensure!(at(&v2(&p.center(&q))) && at(&v2(&center_2d(&p, &q))), "centre", "2D {:?} {:?}", e, f);
    ensure!(p.xy() == e && p.position_nd(0) == Some(e[0]) && p.position_nd(1) == Some(e[1]) && p.position_nd(2).is_none(), "components", "2D {:?}", e);
    let want = (f[1] - e[1]).atan2(f[0] - e[0]);
    ensure!(close(p.rad_to(&q).0, want, 1e-14), "angle", "2D {:?} {:?} is {}, expected {}", e, f, p.rad_to(&q).0, want);
    Ok(())
}
fn near(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.iter().zip(b).all(|(x, y)| x == y || (x - y).abs() <= tol * x.abs().max(y.abs()))
}

fn angles(s: &mut Src, c: &mut Ctx) -> Res {
    let a = [coord(s), coord(s), coord(s)];
    let b = match s.weighted(&[4, 2, 1]) {
        0 => [coord(s), coord(s), coord(s)],
        1 => { let k = (1 + s.draw(50)) as f64 / 7.0 * if s.bool() { -1.0 } else { 1.0 }; mul3(&a, k) }
        _ => { let k = 10f64.powi(s.int(-9, 9) as i32); add3(&mul3(&a, k), &[k * 1e-6, 0.0, 0.0]) }
    };
    c.desc(|| format!("{:?} {:?}", a, b));
    // reference on vectors scaled to unit range, atan2 form is accurate for every angle
    let na = a.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let nb = b.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let r = no_panic("rad_to", || p3(&a).rad_to(&p3(&b)))?;
    let n = no_panic("normalized", || p3(&a).normalized())?;
    let n2 = no_panic("normalized", || IsBuildable2D::normalized(&p2(&[a[0], a[1]])))?;
    let m2 = a[0].abs().max(a[1].abs());
    ensure!(n.is_ok() == (na > 0.0) && n2.is_ok() == (m2 > 0.0), "normalized refuses exactly the zero vector", "{:?}: {:?} {:?}", a, n, n2);
    if let Ok(n) = n {
        let u = mul3(&a, 1.0 / na);
        let l = len3(&u);
        ensure!((0..3).all(|i| (v3(&n)[i] - u[i] / l).abs() < 1e-12), "normalized", "{:?} is {:?}", a, n);
    }
    if let Ok(n) = n2 {
        let l = (a[0] / m2).hypot(a[1] / m2);
        ensure!((n.x - a[0] / m2 / l).abs() < 1e-12 && (n.y - a[1] / m2 / l).abs() < 1e-12, "normalized", "2D {:?} is {:?}", a, n);
    }
    if na == 0.0 || nb == 0.0 {
        ensure!(r.is_err(), "angle to a zero vector", "{:?} {:?} is {:?}", a, b, r.map(|x| x.0));
        return Ok(());
    }
    c.nontrivial(true);
    let (u, v) = (mul3(&a, 1.0 / na), mul3(&b, 1.0 / nb));
    let want = len3(&cross3(&u, &v)).atan2(dot3(&u, &v));
    match r {
        Err(e) => return fail("angle refused", format!("{:?} {:?}: {:?}", a, b, e)),
        // acos loses half of the digits near 0 and pi
        Ok(r) => ensure!((r.0 - want).abs() < 1e-7, "angle", "3D {:?} {:?} is {}, expected {}", a, b, r.0, want),
    }
    Ok(())
}

fn distances(s: &mut Src, c: &mut Ctx) -> Res {
    let (a, b) = (vec3(s), vec3(s));
    c.desc(|| format!("{:?} {:?}", a, b));
    c.nontrivial(a != b);
    let want = d2(&a, &b);
    let want2 = d2(&[a[0], a[1], 0.0], &[b[0], b[1], 0.0]);
    let (p, q, e, f) = (p3(&a), p3(&b), p2(&[a[0], a[1]]), p2(&[b[0], b[1]]));
    let ok = |x: f64, y: f64| x == y || (x - y).abs() <= 1e-14 * x.abs().max(y.abs());
    let sp = Sphere { center: q.clone(), radius: Positive::one() };
    let bx = Box3D { center: q.clone(), size_x: Positive::one(), size_y: Positive::one(), size_z: Positive::one() };
    let dy3: &dyn Is3D = &p;
    let dy2: &dyn Is2D = &e;
    for (what, got) in vec![
        ("sqr_dist_3d", sqr_dist_3d(&p, &q)), ("sqr_dist_3d to a sphere", sqr_dist_3d(&p, &sp)), ("sqr_dist_3d from a box", sqr_dist_3d(&bx, &p)),
        ("sqr_dist_nd", sqr_dist_nd(&p, &q).unwrap_or(f64::NAN)), ("sqr_dist_nd to a sphere", sqr_dist_nd(&p, &sp).unwrap_or(f64::NAN)),
        ("HasDistanceTo", *dy3.sqr_distance(&q)),
    ] {
        ensure!(ok(got, want), "squared distance", "{} of {:?} {:?} is {:e}, expected {:e}", what, a, b, got, want);
    }
    for (what, got) in vec![("dist_3d", dist_3d(&p, &q)), ("dist_nd", dist_nd(&p, &q).unwrap_or(f64::NAN)), ("HasDistanceTo", *dy3.distance(&q))] {
        ensure!(ok(got, want.sqrt()), "distance", "{} of {:?} {:?} is {:e}, expected {:e}", what, a, b, got, want.sqrt());
    }
    for (what, got) in vec![("sqr_dist_2d", sqr_dist_2d(&e, &f)), ("sqr_dist_nd", sqr_dist_nd(&e, &f).unwrap_or(f64::NAN)), ("HasDistanceTo", *dy2.sqr_distance(&f))] {
        ensure!(ok(got, want2), "squared distance", "2D {} of {:?} {:?} is {:e}, expected {:e}", what, a, b, got, want2);
    }
    for (what, got) in vec![("dist_2d", dist_2d(&e, &f)), ("dist_nd", dist_nd(&e, &f).unwrap_or(f64::NAN)), ("HasDistanceTo", *dy2.distance(&f))] {
        ensure!(ok(got, want2.sqrt()), "distance", "2D {} of {:?} {:?} is {:e}, expected {:e}", what, a, b, got, want2.sqrt());
    }
    ensure!(dist_3d(&p, &q) == dist_3d(&q, &p) && dist_2d(&e, &f) == dist_2d(&f, &e), "symmetry", "{:?} {:?}", a, b);
    ensure!(dist_3d(&p, &p) == 0.0 && dist_2d(&e, &e) == 0.0, "distance to itself", "{:?}", a);
    ensure!(dist_nd(&p, &f).is_err() && sqr_dist_nd(&e, &q).is_err(), "distance between dimensions accepted", "{:?} {:?}", a, b);
    // equality and hash
    ensure!((p == q) == (a == b) && (e == f) == (a[0] == b[0] && a[1] == b[1]), "equality", "{:?} {:?}", a, b);
    let z = p3(&[a[0] + 0.0, a[1] + 0.0, a[2] + 0.0]);
    ensure!(p == z && hash(&p) == hash(&z), "equal points hash differently", "{:?} {:?}", p, z);
    let z = p2(&[a[0] + 0.0, a[1] + 0.0]);
    ensure!(e == z && hash(&e) == hash(&z), "equal points hash differently", "{:?} {:?}", e, z);
    if p != q && hash(&p) == hash(&q) {
        return fail("different points hash equally", format!("{:?} {:?}", p, q));
    }
    Ok(())
}

//------------------------------------------------------------------------------
// text

fn any_finite(s: &mut Src) -> f64 {
    match s.weighted(&[3, 2, 3]) {
        0 => coord(s),
        1 => *s.pick(&[0.0, -0.0, 5e-324, -5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 0.1, 1.0 / 3.0]),
        _ => {
            let x = f64::from_bits(s.draw(u64::MAX));
            if x.is_finite() { x } else { 1.5 }
        }
    }
}
fn text(s: &mut Src, c: &mut Ctx) -> Res {
    let a = [any_finite(s), any_finite(s), any_finite(s)];
    let (p, q) = (p3(&a), p2(&[a[0], a[1]]));
    let (t3, t2) = (p.to_str(), q.to_str());
    c.desc(|| t3.clone());
    c.nontrivial(a.iter().any(|x| x.fract() != 0.0));
    let same3 = |r: rust_3d::Result<Point3D>| matches!(r, Ok(r) if r.x.to_bits() == a[0].to_bits() && r.y.to_bits() == a[1].to_bits() && r.z.to_bits() == a[2].to_bits());
    let same2 = |r: rust_3d::Result<Point2D>| matches!(r, Ok(r) if r.x.to_bits() == a[0].to_bits() && r.y.to_bits() == a[1].to_bits());
    ensure!(same3(Point3D::parse(&t3)), "text round trip", "3D {:?} as {:?}", a, t3);
    ensure!(same2(Point2D::parse(&t2)), "text round trip", "2D {:?} as {:?}", a, t2);
    // additional blanks do not matter
    let blank = |s: &mut Src| " ".repeat(s.below(4));
    let words: Vec<String> = a.iter().map(|x| if s.bool() { format!("{}", x) } else { format!("{:e}", x) }).collect();
    let spaced = |s: &mut Src, w: &[String]| {
        let mut t = blank(s);
        for (i, x) in w.iter().enumerate() {
            if i > 0 {
                t.push(' ');
            }
            t += &blank(s);
            t += x;
        }
        t + &blank(s)
    };
    let t = spaced(s, &words);
    ensure!(same3(no_panic("parse", || Point3D::parse(&t))?), "text with blanks", "3D {:?}", t);
    let t = spaced(s, &words[..2]);
    ensure!(same2(no_panic("parse", || Point2D::parse(&t))?), "text with blanks", "2D {:?}", t);
    // wrong number of words, words which are no numbers
    let mut bad: Vec<String> = words.clone();
    let k = match s.below(4) {
        0 => { bad.push("1".into()); "a word too many" }
        1 => { bad.pop(); "a word too few" }
        2 => { let i = s.below(3); bad[i] = s.pick(&["x", "1,5", "--1", "1.2.3", "1e", "\u{fc}", "0x10", "1_000"]).to_string(); "no number" }
        _ => { bad.clear(); "no word" }
    };
    let t = spaced(s, &bad);
    ensure!(no_panic("parse", || Point3D::parse(&t))?.is_err(), "malformed text accepted", "3D {} {:?}", k, t);
    let mut bad: Vec<String> = words[..2].to_vec();
    match s.below(3) {
        0 => bad.push("1".into()),
        1 => { bad.pop(); }
        _ => { let i = s.below(2); bad[i] = "1,5".into(); }
    }
    let t = spaced(s, &bad);
    ensure!(no_panic("parse", || Point2D::parse(&t))?.is_err(), "malformed text accepted", "2D {:?}", t);
    Ok(())
}

//------------------------------------------------------------------------------
// everything with an editable position: histories against a coordinate array

fn edits3<P: IsEditable3D + IsBuildable3D + IsBuildableND>(s: &mut Src, c: &mut Ctx, what: &'static str) -> Res {
    let g = if s.bool() { Grid { range: 80, div: 8.0, off: 0.0, fine: 0.0 } } else { Grid::gen(s) };
    let mut m = g.v3(s);
    let mut p = if s.bool() { P::new(m[0], m[1], m[2]) } else { match P::new_nd(&m) { Ok(p) => p, Err(e) => return fail("new_nd refused", format!("{} {:?}", what, e)) } };
    ensure!(P::new_nd(&m[..2]).is_err() && P::new_nd(&[1.0; 4]).is_err() && P::new_nd(&[]).is_err(), "wrong number of coordinates accepted", "{}", what);
    ensure!(v3(&P::zero()) == [0.0; 3] && v3(&P::zero_nd()) == [0.0; 3] && P::n_dimensions() == 3, "zero", "{}", what);
    c.label(what);
    c.desc(|| format!("{} {:?}", what, m));
    let steps = s.list(1, 10, |s| s.below(12));
    c.nontrivial(steps.len() >= 2);
    for k in steps {
        let o = g.v3(s);
        let q = p3(&o);
        c.desc(|| format!("step {} {:?}", k, o));
        let mut big = m.iter().chain(&o).fold(0.0, |a: f64, x| a.max(x.abs()));
        match k {
            0 => { p.set_x(o[0]); m[0] = o[0]; }
            1 => { p.set_y(o[1]); m[1] = o[1]; }
            2 => { p.set_z(o[2]); m[2] = o[2]; }
            3 => { p.set_xyz(o[0], o[1], o[2]); m = o; }
            4 => { p.set_xy(o[0], o[1]); m[0] = o[0]; m[1] = o[1]; }
            5 => { p.set_xz(o[0], o[2]); m[0] = o[0]; m[2] = o[2]; }
            6 => { p.set_yz(o[1], o[2]); m[1] = o[1]; m[2] = o[2]; }
            7 => {
                let d = s.below(5);
                let r = p.set_position(d, o[0]);
                ensure!(r.is_ok() == (d < 3), "set_position", "{} dimension {} gives {:?}", what, d, r);
                if d < 3 { m[d] = o[0]; }
            }
            8 => match s.below(3) {
                0 => { IsBuildable3D::from(&mut p, &q); m = o; }
                1 => { ensure!(p.from_nd(q).is_ok(), "from_nd refused", "{}", what); m = o; }
                _ => ensure!(p.from_nd(p2(&[o[0], o[1]])).is_err(), "from_nd of another dimension", "{}", what),
            },
            9 => {
                if s.bool() { IsEditable3D::add(&mut p, &q); m = add3(&m, &o); } else { p.subtract(&q); m = sub3(&m, &o); }
            }
            10 => { let f = if s.bool() { s.int(-8, 8) as f64 / 4.0 } else { -gen_factor(s, &g) }; if m.iter().all(|x| x.abs() < 1e30) { p.scale_pos(f); m = mul3(&m, f); } }
            _ => {
                let f = gen_factor(s, &g);
                if m.iter().all(|x| x.abs() < 1e30) {
                    // the difference to the point is multiplied and taken back
                    big = f.max(1.0) * m.iter().chain(&o).fold(0.0, |a: f64, x| a.max(x.abs()));
                    p.increase_distance_to_by(&q, Positive::new(f).unwrap());
                    m = [0, 1, 2].map(|i| o[i] + f * (m[i] - o[i]));
                }
            }
        }
        let got = v3(&p);
        ensure!((0..3).all(|i| (got[i] - m[i]).abs() <= 1e-12 * big.max(m[i].abs())), "position after an edit", "{} step {} with {:?} gives {:?}, expected {:?}", what, k, o, got, m);
        ensure!((0..3).all(|i| p.position_nd(i) == Some(got[i])) && p.position_nd(3).is_none(), "position_nd", "{} {:?}", what, got);
        m = got;
    }
    let o = g.v3(s);
    let (n, ce) = (P::new_from(&p3(&o)), p.center(&p3(&o)));
    ensure!(v3(&n) == o, "new_from", "{} {:?}", what, v3(&n));
    ensure!((0..3).all(|i| (v3(&ce)[i] - (m[i] + o[i]) / 2.0).abs() <= 1e-15 * (m[i].abs() + o[i].abs())), "centre", "{} {:?} {:?} is {:?}", what, m, o, v3(&ce));
    let mut buf = vec![7.0; s.below(3)];
    match p.center_nd(&p3(&o), &mut buf) {
        Ok(x) => ensure!(v3(&x) == v3(&ce), "center_nd", "{} {:?} {:?} is {:?}", what, m, o, v3(&x)),
        Err(e) => return fail("center_nd refused", format!("{} {:?}", what, e)),
    }
    ensure!(p.center_nd(&p2(&[o[0], o[1]]), &mut buf).is_err(), "center_nd of another dimension", "{}", what);
    Ok(())
}

fn edits2<P: IsEditable2D + IsBuildable2D>(s: &mut Src, c: &mut Ctx, what: &'static str) -> Res {
    let g = if s.bool() { Grid { range: 80, div: 8.0, off: 0.0, fine: 0.0 } } else { Grid::gen(s) };
    let mut m = g.v2(s);
    let mut p = if s.bool() { P::new(m[0], m[1]) } else { match P::new_nd(&m) { Ok(p) => p, Err(e) => return fail("new_nd refused", format!("{} {:?}", what, e)) } };
    ensure!(P::new_nd(&m[..1]).is_err() && P::new_nd(&[1.0; 3]).is_err() && P::new_nd(&[]).is_err(), "wrong number of coordinates accepted", "{}", what);
    ensure!(v2(&P::zero()) == [0.0; 2] && v2(&P::zero_nd()) == [0.0; 2] && P::n_dimensions() == 2, "zero", "{}", what);
    c.label(what);
    c.desc(|| format!("{} {:?}", what, m));
    let steps = s.list(1, 10, |s| s.below(9));
    c.nontrivial(steps.len() >= 2);
    for k in steps {
        let o = g.v2(s);
        let q = p2(&o);
        c.desc(|| format!("step {} {:?}", k, o));
        let mut big = m.iter().chain(&o).fold(0.0, |a: f64, x| a.max(x.abs()));
        match k {
            0 => { p.set_x(o[0]); m[0] = o[0]; }
            1 => { p.set_y(o[1]); m[1] = o[1]; }
            2 => { p.set_xy(o[0], o[1]); m = o; }
            3 => {
                let d = s.below(4);
                let r = p.set_position(d, o[0]);
                ensure!(r.is_ok() == (d < 2), "set_position", "{} dimension {} gives {:?}", what, d, r);
                if d < 2 { m[d] = o[0]; }
            }
            4 => match s.below(3) {
                0 => { IsBuildable2D::from(&mut p, &q); m = o; }
                1 => { ensure!(p.from_nd(q).is_ok(), "from_nd refused", "{}", what); m = o; }
                _ => ensure!(p.from_nd(p3(&[o[0], o[1], 1.0])).is_err(), "from_nd of another dimension", "{}", what),
            },
            5 => {
                if s.bool() { IsEditable2D::add(&mut p, &q); m = [m[0] + o[0], m[1] + o[1]]; } else { p.subtract(&q); m = [m[0] - o[0], m[1] - o[1]]; }
            }
            6 => { let f = if s.bool() { s.int(-8, 8) as f64 / 4.0 } else { -gen_factor(s, &g) }; if m.iter().all(|x| x.abs() < 1e30) { p.scale_pos(f); m = [m[0] * f, m[1] * f]; } }
            7 => {
                let f = gen_factor(s, &g);
                if m.iter().all(|x| x.abs() < 1e30) {
                    // the difference to the point is multiplied and taken back
                    big = f.max(1.0) * m.iter().chain(&o).fold(0.0, |a: f64, x| a.max(x.abs()));
                    p.increase_distance_to_by(&q, Positive::new(f).unwrap());
                    m = [0, 1].map(|i| o[i] + f * (m[i] - o[i]));
                }
            }
            _ => {
                let r = s.int(-40, 40) as f64 / 6.0;
                p.rotate(Rad(r), &q);
                let (x, y) = (m[0] - o[0], m[1] - o[1]);
                m = [o[0] + x * r.cos() - y * r.sin(), o[1] + x * r.sin() + y * r.cos()];
            }
        }
        let got = v2(&p);
        ensure!((0..2).all(|i| (got[i] - m[i]).abs() <= 1e-11 * big.max(m[i].abs())), "position after an edit", "{} step {} with {:?} gives {:?}, expected {:?}", what, k, o, got, m);
        ensure!((0..2).all(|i| p.position_nd(i) == Some(got[i])) && p.position_nd(2).is_none(), "position_nd", "{} {:?}", what, got);
        m = got;
    }
    let o = g.v2(s);
    let (n, ce) = (P::new_from(&p2(&o)), p.center(&p2(&o)));
    ensure!(v2(&n) == o, "new_from", "{} {:?}", what, v2(&n));
    ensure!((0..2).all(|i| (v2(&ce)[i] - (m[i] + o[i]) / 2.0).abs() <= 1e-15 * (m[i].abs() + o[i].abs())), "centre", "{} {:?} {:?} is {:?}", what, m, o, v2(&ce));
    let mut buf = vec![7.0; s.below(3)];
    match p.center_nd(&p2(&o), &mut buf) {
        Ok(x) => ensure!(v2(&x) == v2(&ce), "center_nd", "{} {:?} {:?} is {:?}", what, m, o, v2(&x)),
        Err(e) => return fail("center_nd refused", format!("{} {:?}", what, e)),
    }
    ensure!(p.center_nd(&p3(&[o[0], o[1], 0.0]), &mut buf).is_err(), "center_nd of another dimension", "{}", what);
    Ok(())
}
fn edits(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(10) {
        0 => edits3::<Point3D>(s, c, "Point3D"),
        1 => edits2::<Point2D>(s, c, "Point2D"),
        2 => edits3::<Sphere>(s, c, "Sphere"),
        3 => edits3::<FilterSphere>(s, c, "FilterSphere"),
        4 => edits3::<Box3D>(s, c, "Box3D"),
        5 => edits3::<FilterBox3D>(s, c, "FilterBox3D"),
        6 => edits2::<Circle>(s, c, "Circle"),
        7 => edits2::<FilterCircle>(s, c, "FilterCircle"),
        8 => edits2::<Box2D>(s, c, "Box2D"),
        _ => edits2::<FilterBox2D>(s, c, "FilterBox2D"),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "arithmetic and distances: the points differ and are not zero; angles: both vectors have length; text: a coordinate has a fraction; edits: two or more edits",
        assumptions: &["coordinates of zero or a magnitude of 1e-90 to 1e93, so that squares stay in the range of f64 (text: every finite f64)", "angles are compared up to 1e-7, the accuracy of acos"],
        subs: vec![sub("arithmetic", 300_000, arithmetic), sub("angles", 200_000, angles), sub("distances", 200_000, distances), sub("text", 200_000, text), sub("edits", 300_000, edits)],
    }
}
