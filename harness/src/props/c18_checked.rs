use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn any_f64(s: &mut Src) -> f64 {
    match s.weighted(&[4, 3, 2, 2, 2, 1]) {
        0 => s.int(-20, 20) as f64 / 4.0,
        1 => s.int(-1000, 1000) as f64 / 7.0 * 10f64.powi(s.int(-3, 3) as i32),
        2 => *s.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN]),
        3 => *s.pick(&[f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, f64::EPSILON]),
        4 => (1.0 + s.draw(1000) as f64 / 1000.0) * 10f64.powi(s.int(-308, 307) as i32) * if s.bool() { -1.0 } else { 1.0 },
        _ => f64::from_bits(s.draw(u64::MAX)),
    }
}
fn h<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn construct(s: &mut Src, c: &mut Ctx) -> Res {
    let x = any_f64(s);
    c.desc(|| format!("{:e}", x));
    c.nontrivial(x.is_nan() || x == 0.0 || x < 0.0 || x.is_infinite() || x.abs() < 1e-300);
    let p = Positive::new(x);
    let n = NonNegative::new(x);
    ensure!(p.is_some() == (x > 0.0), "Positive accepts exactly x > 0", "Positive::new({:e}) is {:?}", x, p);
    ensure!(n.is_some() == (x >= 0.0), "NonNegative accepts exactly x >= 0", "NonNegative::new({:e}) is {:?}", x, n);
    if let Some(p) = p {
        let f: f64 = p.into();
        ensure!(*p == x && f == x && *p.as_ref() == x, "value changed", "Positive::new({:e}) holds {:e}", x, *p);
        ensure!(p.to_string() == x.to_string(), "text", "{} and {}", p, x);
        ensure!(*p.sqrt() == x.sqrt(), "sqrt", "of {:e} is {:e}", x, *p.sqrt());
        ensure!(*NonNegative::from(p) == x, "conversion", "NonNegative::from({:e})", x);
    }
    if let Some(n) = n {
        let f: f64 = n.into();
        ensure!(*n == x && f == x && *n.as_ref() == x, "value changed", "NonNegative::new({:e}) holds {:e}", x, *n);
        ensure!(n.to_string() == x.abs().to_string(), "text", "{} and {}", n, x);
        ensure!(*n.sqrt() == x.sqrt(), "sqrt", "of {:e} is {:e}", x, *n.sqrt());
    }
    let y = any_f64(s);
    if let (Some(a), Some(b)) = (Positive::new(x), Positive::new(y)) {
        ensure!((a == b) == (x == y) && a.partial_cmp(&b) == x.partial_cmp(&y), "comparison", "Positive {:e} {:e}", x, y);
        ensure!(a != b || h(&a) == h(&b), "hash", "Positive {:e} {:e}", x, y);
    }
    if let (Some(a), Some(b)) = (NonNegative::new(x), NonNegative::new(y)) {
        ensure!((a == b) == (x == y) && a.partial_cmp(&b) == x.partial_cmp(&y), "comparison", "NonNegative {:e} {:e}", x, y);
        ensure!(a != b || h(&a) == h(&b), "hash", "NonNegative {:e} {:e}", x, y);
    }
    ensure!(*Positive::default() == 1.0 && *Positive::one() == 1.0 && *NonNegative::default() == 0.0 && *NonNegative::zero() == 0.0 && *NonNegative::one() == 1.0, "constants", "");
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Num {
    P(Positive),
    N(NonNegative),
}
impl Num {
    fn v(&self) -> f64 {
        match self {
            Num::P(p) => **p,
            Num::N(n) => **n,
        }
    }
    fn valid(&self) -> bool {
        match self {
            Num::P(p) => **p > 0.0,
            Num::N(n) => **n >= 0.0,
        }
    }
}
/// every operation the types offer; None where the combination does not exist
fn apply(op: usize, a: Num, b: Num) -> Option<(Num, f64, &'static str)> {
    use Num::*;
    let (x, y) = (a.v(), b.v());
    Some(match (op, a, b) {
        (0, P(a), P(b)) => (P(a + b), x + y, "Positive + Positive"),
        (0, P(a), N(b)) => (P(a + b), x + y, "Positive + NonNegative"),
        (0, N(a), N(b)) => (N(a + b), x + y, "NonNegative + NonNegative"),
        (0, N(a), P(b)) => (N(a + b), x + y, "NonNegative + Positive"),
        (1, P(mut a), P(b)) => { a += b; (P(a), x + y, "Positive += Positive") }
        (1, P(mut a), N(b)) => { a += b; (P(a), x + y, "Positive += NonNegative") }
        (1, N(mut a), N(b)) => { a += b; (N(a), x + y, "NonNegative += NonNegative") }
        (1, N(mut a), P(b)) => { a += b; (N(a), x + y, "NonNegative += Positive") }
        (2, P(a), P(b)) => (P(a * b), x * y, "Positive * Positive"),
        (2, P(a), N(b)) => (N(a * b), x * y, "Positive * NonNegative"),
        (2, N(a), N(b)) => (N(a * b), x * y, "NonNegative * NonNegative"),
        (2, N(a), P(b)) => (N(a * b), x * y, "NonNegative * Positive"),
        (3, P(mut a), P(b)) => { a *= b; (P(a), x * y, "Positive *= Positive") }
        (3, N(mut a), N(b)) => { a *= b; (N(a), x * y, "NonNegative *= NonNegative") }
        (3, N(mut a), P(b)) => { a *= b; (N(a), x * y, "NonNegative *= Positive") }
        (4, P(a), P(b)) => (N(a / b), x / y, "Positive / Positive"),
        (4, P(a), N(b)) => (N(a / b), x / y, "Positive / NonNegative"),
        (4, N(a), N(b)) => (N(a / b), x / y, "NonNegative / NonNegative"),
        (4, N(a), P(b)) => (N(a / b), x / y, "NonNegative / Positive"),
        (5, N(mut a), N(b)) => { a /= b; (N(a), x / y, "NonNegative /= NonNegative") }
        (5, N(mut a), P(b)) => { a /= b; (N(a), x / y, "NonNegative /= Positive") }
        (6, P(a), _) => (P(a.sqrt()), x.sqrt(), "Positive sqrt"),
        (6, N(a), _) => (N(a.sqrt()), x.sqrt(), "NonNegative sqrt"),
        (7, P(a), _) => (N(a.into()), x, "NonNegative from Positive"),
        _ => return None,
    })
}
fn expected(op: usize, a: Num, b: Num) -> (f64, bool) {
    let (x, y) = (a.v(), b.v());
    let r = match op {
        0 | 1 => x + y,
        2 | 3 => x * y,
        4 | 5 => x / y,
        6 => x.sqrt(),
        _ => x,
    };
    // does the result have to be strictly positive?
    let strict = match (op, a, b) {
        (0, Num::P(_), _) | (1, Num::P(_), _) | (6, Num::P(_), _) | (2, Num::P(_), Num::P(_)) | (3, Num::P(_), Num::P(_)) => true,
        _ => false,
    };
    (r, if strict { r > 0.0 } else { r >= 0.0 })
}
fn gen_num(s: &mut Src) -> Num {
    for _ in 0..20 {
        let x = any_f64(s).abs();
        if s.bool() {
            if let Some(p) = Positive::new(x) {
                return Num::P(p);
            }
        } else if let Some(n) = NonNegative::new(if s.chance(1, 10) { -0.0 } else { x }) {
            return Num::N(n);
        }
    }
    Num::P(Positive::one())
}

fn histories(s: &mut Src, c: &mut Ctx) -> Res {
    let mut vals: Vec<Num> = (0..2 + s.below(3)).map(|_| gen_num(s)).collect();
    c.desc(|| format!("{:?}", vals));
    let steps = s.list(1, 14, |s| (s.below(8), s.draw(1 << 30) as usize, s.draw(1 << 30) as usize, s.chance(1, 6)));
    let mut done = 0;
    for (op, i, j, fresh) in steps {
        if fresh {
            let n = gen_num(s);
            vals.push(n);
            continue;
        }
        let (a, b) = (vals[i % vals.len()], vals[j % vals.len()]);
        let (r, ok) = expected(op, a, b);
        if !ok {
            // ordinary arithmetic leaves the type here, see sub undefined
            c.label("undefined operation skipped");
            continue;
        }
        match no_panic("arithmetic", || apply(op, a, b))? {
            None => continue,
            Some((got, _, name)) => {
                c.desc(|| format!("{} of {:?} {:?}", name, a, b));
                ensure!(got.valid(), "invalid value held", "{} of {:?} and {:?} holds {:e}", name, a, b, got.v());
                ensure!(got.v() == r, "differs from ordinary arithmetic", "{} of {:?} and {:?} is {:e} instead of {:e}", name, a, b, got.v(), r);
                vals.push(got);
                done += 1;
            }
        }
    }
    c.nontrivial(done >= 2);
    Ok(())
}

/// operations whose ordinary result is no valid value may panic, but must not produce an invalid value
fn undefined(s: &mut Src, c: &mut Ctx) -> Res {
    let tiny = |s: &mut Src| (1.0 + s.draw(100) as f64) * 10f64.powi(s.int(-320, -160) as i32).max(5e-324);
    let (op, a, b, why) = match s.below(4) {
        0 => (4 + s.below(2), 0.0, 0.0, "0/0"),
        1 => (4 + s.below(2), f64::INFINITY, f64::INFINITY, "inf/inf"),
        2 => (2 + s.below(2), if s.bool() { 0.0 } else { f64::INFINITY }, 0.0, "inf*0"),
        _ => (2 + s.below(2), tiny(s), tiny(s), "underflow"),
    };
    let b = if why == "inf*0" && a == 0.0 { f64::INFINITY } else { b };
    let (pa, pb) = (Positive::new(a), Positive::new(b));
    let as_p = s.bool();
    let (a, b) = match (pa, pb, as_p) {
        (Some(a), Some(b), true) => (Num::P(a), Num::P(b)),
        (Some(a), _, true) => (Num::P(a), Num::N(NonNegative::new(b).unwrap())),
        (_, Some(b), true) => (Num::N(NonNegative::new(a).unwrap()), Num::P(b)),
        _ => (Num::N(NonNegative::new(a).unwrap()), Num::N(NonNegative::new(b).unwrap())),
    };
    c.desc(|| format!("{} with {:?} {:?}", why, a, b));
    if let Ok(Some((got, _, name))) = caught(|| apply(op, a, b)) {
        c.nontrivial(true);
        if !got.valid() {
            let ty = match got { Num::P(_) => "Positive", Num::N(_) => "NonNegative" };
            let val = if got.v().is_nan() { "NaN" } else if got.v() == 0.0 { "zero" } else { "a negative value" };
            return fail(&format!("{} holds {} after {}", ty, val, why), format!("{} of {:?} and {:?} holds {:e}", name, a, b, got.v()));
        }
        let (r, ok) = expected(op, a, b);
        if ok {
            ensure!(got.v() == r, "differs from ordinary arithmetic", "{} of {:?} and {:?} is {:e} instead of {:e}", name, a, b, got.v(), r);
        }
    }
    Ok(())
}

fn comp(s: &mut Src, e: i32) -> f64 {
    match s.weighted(&[2, 2, 4, 1]) {
        0 => 0.0,
        1 => s.int(-4, 4) as f64 * 10f64.powi(e),
        2 => s.int(-10000, 10000) as f64 / 1234.0 * 10f64.powi(e),
        _ => any_f64(s),
    }
}
fn unit(s: &mut Src, c: &mut Ctx) -> Res {
    let e = match s.weighted(&[3, 1, 1, 1]) {
        0 => 0,
        1 => s.int(-20, 20) as i32,
        2 => s.int(-307, -150) as i32,
        _ => s.int(150, 304) as i32,
    };
    let three = s.bool();
    let mut v = vec![comp(s, e), comp(s, e)];
    if three {
        v.push(comp(s, e));
    }
    c.desc(|| format!("{:?}", v));
    let (r, neg, scaled): (Option<Vec<f64>>, Vec<f64>, Vec<f64>) = if three {
        match no_panic("Norm3D::new", || Norm3D::new(Point3D::new(v[0], v[1], v[2])))? {
            Ok(n) => {
                let (m, k) = (-&n, &n * 2.0);
                ensure!(-n.clone() == m && n.clone() * 2.0 == k, "negation and scaling by value", "{:?}", n);
                ensure!(Norm3D::n_dimensions() == 3 && n.position_nd(0) == Some(n.x()) && n.position_nd(2) == Some(n.z()) && n.position_nd(1) == Some(n.y()) && n.position_nd(3).is_none(), "position_nd", "{:?}", n);
                (Some(v3(&n).to_vec()), v3(&m).to_vec(), v3(&k).to_vec())
            }
            Err(_) => (None, vec![], vec![]),
        }
    } else {
        match no_panic("Norm2D::new", || Norm2D::new(Point2D::new(v[0], v[1])))? {
            Ok(n) => {
                let (m, k) = (-&n, &n * 2.0);
                ensure!(-n.clone() == m && n.clone() * 2.0 == k, "negation and scaling by value", "{:?}", n);
                ensure!(Norm2D::n_dimensions() == 2 && n.position_nd(0) == Some(n.x()) && n.position_nd(1) == Some(n.y()) && n.position_nd(2).is_none(), "position_nd", "{:?}", n);
                (Some(v2(&n).to_vec()), v2(&m).to_vec(), v2(&k).to_vec())
            }
            Err(_) => (None, vec![], vec![]),
        }
    };
    let valid = v.iter().all(|x| x.is_finite()) && v.iter().any(|x| *x != 0.0);
    let m = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    c.nontrivial(!valid || v.iter().filter(|x| **x != 0.0).count() >= 2);
    c.label_if(m > 1e154, "square overflows");
    c.label_if(m > 0.0 && m < 1e-154, "square underflows");
    match r {
        None => {
            ensure!(!valid, "vector refused", "unit vector of {:?}", v);
            c.label("refused");
        }
        Some(u) => {
            if v.iter().all(|x| *x == 0.0) {
                return fail("zero vector accepted", format!("{:?} gives {:?}", v, u));
            }
            if v.iter().all(|x| x.is_finite()) {
                let l = u.iter().map(|x| x * x).sum::<f64>().sqrt();
                ensure!((l - 1.0).abs() <= 1e-12, "length is not one", "{:?} gives {:?} of length {}", v, u, l);
                let w: Vec<f64> = v.iter().map(|x| x / m).collect();
                let wl = w.iter().map(|x| x * x).sum::<f64>().sqrt();
                for i in 0..u.len() {
                    ensure!((u[i] - w[i] / wl).abs() <= 1e-12, "direction", "{:?} gives {:?}", v, u);
                    ensure!(neg[i] == -u[i], "negation", "{:?} of {:?}", neg, u);
                    ensure!(scaled[i] == 2.0 * u[i], "scaling", "{:?} of {:?}", scaled, u);
                }
            } else {
                ensure!(u.iter().all(|x| x.is_finite()) && (u.iter().map(|x| x * x).sum::<f64>().sqrt() - 1.0).abs() <= 1e-12, "length is not one", "{:?} gives {:?}", v, u);
            }
        }
    }
    let ax: [(V3, V3); 6] = [
        (v3(&Norm3D::norm_x()), [1.0, 0.0, 0.0]), (v3(&Norm3D::norm_y()), [0.0, 1.0, 0.0]), (v3(&Norm3D::norm_z()), [0.0, 0.0, 1.0]),
        (v3(&Norm3D::norm_x_neg()), [-1.0, 0.0, 0.0]), (v3(&Norm3D::norm_y_neg()), [0.0, -1.0, 0.0]), (v3(&Norm3D::norm_z_neg()), [0.0, 0.0, -1.0]),
    ];
    ensure!(ax.iter().all(|(a, b)| a == b), "axes", "{:?}", ax);
    let ax: [(V2, V2); 4] = [(v2(&Norm2D::norm_x()), [1.0, 0.0]), (v2(&Norm2D::norm_y()), [0.0, 1.0]), (v2(&Norm2D::norm_x_neg()), [-1.0, 0.0]), (v2(&Norm2D::norm_y_neg()), [0.0, -1.0])];
    ensure!(ax.iter().all(|(a, b)| a == b), "axes", "{:?}", ax);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "construct: the value is zero, negative, NaN, infinite or tiny; histories: two or more operations applied; undefined: the operation returned; unit: two or more non-zero components or a vector that must be refused",
        assumptions: &["operations whose ordinary result is no valid value (0/0, inf*0, inf/inf, underflow) are judged separately, a panic there counts as refusal"],
        subs: vec![sub("construct", 400_000, construct), sub("histories", 400_000, histories), sub("undefined", 50_000, undefined), sub("unit", 400_000, unit)],
    }
}
