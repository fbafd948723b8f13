use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;

/// some values, or many of them
fn initial(s: &mut Src, max: usize) -> Vec<usize> {
    if !s.huge {
        return s.list(0, 8, |s| value(s, max));
    }
    let n = many_n(s);
    let top = value(s, max).max(1);
    let mut r = Rng::new(s.draw(1 << 30));
    let mut v: Vec<usize> = (0..n).map(|_| (r.next() % (top as u64)) as usize).collect();
    // a single larger one
    if s.bool() {
        let i = s.below(n);
        v[i] = value(s, max);
    }
    v
}
const M32: usize = u32::MAX as usize;
fn value(s: &mut Src, max: usize) -> usize {
    let v = match s.weighted(&[4, 3, 3, 2, 2]) {
        0 => s.below(256),
        1 => 250 + s.below(12),
        2 => 65530 + s.below(12),
        3 => M32 - 6 + s.below(12),
        _ => s.draw(u64::MAX) as usize >> s.below(64),
    };
    if v > max { v % (max + 1) } else { v }
}

fn all<IC: IsIndexContainer>(ic: &IC, model: &[usize], what: &str) -> Res {
    ensure!(ic.len() == model.len(), "length", "{}: length {}, expected {}", what, ic.len(), model.len());
    for (i, x) in model.iter().enumerate() {
        ensure!(ic.get(i) == *x, "element", "{}: element {} is {}, expected {} (all: {:?})", what, i, ic.get(i), x, model);
    }
    let it: Vec<usize> = ic.iter().collect();
    ensure!(it == model, "iterator", "{}: iterator yields {:?}, expected {:?}", what, it, model);
    for k in [0usize, 1, 1000, usize::MAX - model.len()] {
        if let Ok(x) = caught(|| ic.get(model.len() + k)) {
            return fail("out of range", format!("{}: element {} of {} is {}", what, model.len() + k, model.len(), x));
        }
    }
    Ok(())
}

/// operations every index container offers; `extra` may do container specific checks and edits
fn run<IC: IsIndexContainer>(s: &mut Src, c: &mut Ctx, name: &'static str, max: usize, start: (IC, Vec<usize>), extra: &mut dyn FnMut(&mut Src, &mut IC, &mut Vec<usize>, &mut Ctx) -> Res) -> Res {
    let (mut ic, mut model) = start;
    c.desc(|| format!("{} from {:?} ({} values)", name, &model[..model.len().min(300)], model.len()));
    all(&ic, &model, name)?;
    let ops = s.list(1, 40, |s| s.weighted(&[6, 4, 1, 1, 1, 1, 3]));
    let mut widened = false;
    for op in ops {
        let top = model[..].iter().max().cloned().unwrap_or(0);
        match op {
            0 => {
                let v = value(s, max);
                widened |= !model.is_empty() && (top < 256 && v > 255 || top < 65536 && v > 65535 || top <= M32 && v > M32);
                ic.push(v);
                model.push(v);
                c.desc(|| format!("push {}", v));
            }
            1 => {
                let v = value(s, max);
                if s.chance(1, 8) || model.is_empty() {
                    let i = model.len() + s.below(3);
                    c.desc(|| format!("set {} {} (out of range)", i, v));
                    ensure!(caught(|| ic.set(i, v)).is_err(), "set out of range", "set({}, {}) on {} elements succeeded", i, v, model.len());
                } else {
                    let i = s.below(model.len());
                    c.desc(|| format!("set {} {}", i, v));
                    widened |= top < 256 && v > 255 || top < 65536 && v > 65535 || top <= M32 && v > M32;
                    ic.set(i, v);
                    model[i] = v;
                }
            }
            2 => {
                let v = value(s, max);
                c.desc(|| format!("ensure_supported {}", v));
                ic.ensure_supported(v);
            }
            3 => {
                let n = s.below(200);
                c.desc(|| format!("reserve {}", n));
                ic.reserve(n);
            }
            4 => {
                c.desc(|| "clone".to_string());
                let mut o = ic.clone();
                all(&o, &model, "clone")?;
                let v = value(s, max);
                o.push(v);
                if s.bool() {
                    // edit the copy, the original must not notice
                    all(&ic, &model, name)?;
                } else {
                    std::mem::swap(&mut ic, &mut o);
                    model.push(v);
                    all(&o, &model[..model.len() - 1], "clone source")?;
                }
            }
            5 => {
                let (n, x) = (s.below(50), value(s, max));
                for e in [IC::with_capacity(n), IC::with_support_for(x), IC::with_capacity_and_support_for(n, x)].iter_mut() {
                    all(e, &[], "fresh")?;
                    e.push(x);
                    e.push(1);
                    all(e, &[x, 1], "fresh")?;
                }
            }
            _ => extra(s, &mut ic, &mut model, c)?,
        }
        all(&ic, &model, name)?;
    }
    c.nontrivial(widened);
    c.label_if(widened, "crossed a precision limit");
    c.label_if(model[..].iter().any(|x| *x > M32), "above u32");
    Ok(())
}

type D = DynamicPrecisionIndexVec;
fn dynamic(s: &mut Src, c: &mut Ctx) -> Res {
    let start: (D, Vec<usize>) = match s.below(7) {
        0 => (D::new(), vec![]),
        1 => (D::default(), vec![]),
        2 => {
            let v: Vec<u8> = initial(s, 255)[..].iter().map(|x| *x as u8).collect();
            let m = v.iter().map(|x| *x as usize).collect();
            (if s.bool() { D::from(&v) } else { D::from(v) }, m)
        }
        3 => {
            let v: Vec<u16> = initial(s, 65535)[..].iter().map(|x| *x as u16).collect();
            let m = v.iter().map(|x| *x as usize).collect();
            (if s.bool() { D::from(&v) } else { D::from(v) }, m)
        }
        4 => {
            let v: Vec<u32> = initial(s, M32)[..].iter().map(|x| *x as u32).collect();
            let m = v.iter().map(|x| *x as usize).collect();
            (if s.bool() { D::from(&v) } else { D::from(v) }, m)
        }
        5 => {
            let v: Vec<usize> = initial(s, usize::MAX);
            let m = v.clone();
            (if s.bool() { D::from(&v) } else { D::from(v) }, m)
        }
        _ => {
            let v = value(s, usize::MAX);
            (D::with_capacity_and_support_for(s.below(20), v), vec![])
        }
    };
    run(s, c, "DynamicPrecisionIndexVec", usize::MAX, start, &mut |s, ic, model, c| {
        let direct = |ic: &mut D, model: &[usize], what: &str| -> Res {
            let mut some = 0;
            let w: Vec<usize>;
            let views: [Option<Vec<usize>>; 4] = [
                ic.get_u8().map(|v| v.iter().map(|x| *x as usize).collect()),
                ic.get_u16().map(|v| v.iter().map(|x| *x as usize).collect()),
                ic.get_u32().map(|v| v.iter().map(|x| *x as usize).collect()),
                ic.get_usize().map(|v| v.iter().map(|x| x as usize).collect()),
            ];
            w = model.to_vec();
            for v in views.iter() {
                if let Some(v) = v {
                    some += 1;
                    ensure!(*v == w, "inner storage", "{}: {:?}, expected {:?}", what, v, w);
                }
            }
            ensure!(some == 1, "inner storage", "{} of the four precisions are available", some);
            Ok(())
        };
        direct(ic, model, "storage")?;
        match s.below(4) {
            0 => {
                c.desc(|| "get_usize_upgraded".to_string());
                let v = ic.get_usize_upgraded().clone();
                ensure!(v == *model, "get_usize_upgraded", "{:?}, expected {:?}", v, model);
            }
            1 => {
                let x = value(s, usize::MAX);
                c.desc(|| format!("get_usize_upgraded_mut push {}", x));
                let v = ic.get_usize_upgraded_mut();
                ensure!(v == model, "get_usize_upgraded_mut", "{:?}, expected {:?}", v, model);
                v.push(x);
                model.push(x);
                ensure!(ic.get_usize().is_some(), "get_usize_upgraded_mut", "precision is not usize afterwards");
            }
            _ => {
                // write through whatever precision is in use
                let x = s.below(256);
                c.desc(|| format!("push {} into the inner storage", x));
                if let Some(v) = ic.get_u8_mut() {
                    v.push(x as u8);
                } else if let Some(v) = ic.get_u16_mut() {
                    v.push(x as u16);
                } else if let Some(v) = ic.get_u32_mut() {
                    v.push(x as u32);
                } else if let Some(v) = ic.get_usize_mut() {
                    v.push(x);
                } else {
                    return fail("inner storage", "no precision available for writing");
                }
                model.push(x);
            }
        }
        direct(ic, model, "storage")
    })
}
fn plain(s: &mut Src, c: &mut Ctx) -> Res {
    let init = initial(s, M32);
    match s.below(2) {
        0 => {
            let mut ic = U32IndexVec::default();
            for x in &init[..] {
                ic.push(*x);
            }
            run(s, c, "U32IndexVec", M32, (ic, init), &mut |_, ic, model, _| {
                let d: Vec<usize> = ic.data.iter().map(|x| *x as usize).collect();
                ensure!(d == *model, "data", "{:?}, expected {:?}", d, model);
                Ok(())
            })
        }
        _ => run(s, c, "Vec<usize>", usize::MAX, (init.clone(), init), &mut |_, _, _, _| Ok(())),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "A case is an index container built empty or from a list of u8/u16/u32/usize values and up to 40 operations (push, set, out-of-range set, ensure_supported, reserve, clone, fresh constructors, direct access to the inner storage) with values around 255, 65535 and u32::MAX; everything stored is compared after every operation. Non-trivial: a stored list was widened across a precision limit.",
        assumptions: &["U32IndexVec is used with values up to u32::MAX, as its documentation demands", "an access outside the stored length panics, as for Vec"],
        subs: vec![sub("dynamic", 120_000, dynamic).large(300), sub("plain", 80_000, plain).large(300), sub("dynamic-many", 120, dynamic).huge(), sub("plain-many", 60, plain).huge()],
    }
}
