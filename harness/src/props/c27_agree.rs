//! C27: readers of one file agree with each other
use super::c24_decode::{check_unique, name};
use super::c25_robust::mutate;
use super::common::*;
use super::iofmt::*;
use crate::engine::*;
use crate::ensure;

fn same_points(a: &Reader, x: &Out, b: &Reader, y: &Out) -> Res {
    if let Some(i) = diff(&x.points, &y.points, same3) {
        return fail(&format!("points: {} / {}", a.name, b.name), format!("point {}: {} says {:?} (of {}, {:?}), {} says {:?} (of {}, {:?})", i, a.name, x.points.get(i), x.points.len(), x.err, b.name, y.points.get(i), y.points.len(), y.err));
    }
    Ok(())
}
fn same_faces(a: &Reader, x: &Out, b: &Reader, y: &Out) -> Res {
    if let Some(i) = diff(&x.faces, &y.faces, |a, b| a == b) {
        return fail(&format!("faces: {} / {}", a.name, b.name), format!("face {}: {} says {:?} (of {}, {:?}), {} says {:?} (of {}, {:?})", i, a.name, x.faces.get(i), x.faces.len(), x.err, b.name, y.faces.get(i), y.faces.len(), y.err));
    }
    Ok(())
}
fn same_tris(a: &Reader, x: &Out, b: &Reader, y: &Out) -> Res {
    if let Some(i) = diff(&x.tris, &y.tris, same_tri) {
        return fail(&format!("triangles: {} / {}", a.name, b.name), format!("triangle {}: {} says {:?} (of {}, {:?}), {} says {:?} (of {}, {:?})", i, a.name, x.tris.get(i), x.tris.len(), x.err, b.name, y.tris.get(i), y.tris.len(), y.err));
    }
    Ok(())
}
fn same_end(a: &Reader, x: &Out, b: &Reader, y: &Out) -> Res {
    ensure!(x.err.is_some() == y.err.is_some(), format!("outcome: {} / {}", a.name, b.name), "{}: {:?}, {}: {:?}", a.name, x.err, b.name, y.err);
    Ok(())
}

fn case(s: &mut Src, ctx: &mut Ctx, fmts: &[Fmt]) -> Res {
    let fmt = *s.pick(fmts);
    let mut f = if s.huge { gen_many(s, fmt) } else { gen(s, fmt) };
    let damaged = s.chance(2, 3);
    if damaged {
        mutate(s, &mut f.bytes);
    }
    ctx.label(name(fmt));
    let mut c = Chunked::gen(s, &f.bytes);
    ctx.desc(|| format!("{:?}{}: \"{}\"", fmt, if damaged { " damaged" } else { "" }, show(&f.bytes)));

    let mut list: Vec<&Reader> = readers(fmt).collect();
    let mut n_auto = list.len();
    if fmt == Fmt::Stl {
        // what auto detection has to choose
        list.extend(STL_EXPLICIT[if f.bytes.starts_with(b"solid") { 0 } else { 1 }]);
        n_auto = list.len();
    }
    let mut out: Vec<Out> = vec![];
    for r in &list {
        c.rewind();
        out.push(no_panic(r.name, || (r.run)(&mut c))?);
    }
    // chunking does not matter
    {
        let i = s.below(list.len());
        let mut whole = Chunked::new(&f.bytes, vec![]);
        let o = no_panic(list[i].name, || (list[i].run)(&mut whole))?;
        same_points(list[i], &out[i], list[i], &o)?;
        same_faces(list[i], &out[i], list[i], &o)?;
        same_tris(list[i], &out[i], list[i], &o)?;
        same_end(list[i], &out[i], list[i], &o)?;
    }
    let first = |w: What, iter: bool| list.iter().position(|r| r.what == w && r.iter == iter);
    let some = out.iter().any(|o| o.points.len() + o.tris.len() >= 2);
    ctx.nontrivial(some && list.len() >= 2);
    ctx.label_if(out.iter().any(|o| o.err.is_some()), "an error");
    ctx.label_if(out.iter().all(|o| o.err.is_none()), "all succeed");
    ctx.label_if(damaged && some && out.iter().all(|o| o.err.is_none()), "damaged, all succeed");

    // points only
    let p0 = first(What::Points, false);
    if let Some(p) = p0 {
        for i in 0..list.len() {
            if list[i].what == What::Points && i != p {
                same_points(list[p], &out[p], list[i], &out[i])?;
                same_end(list[p], &out[p], list[i], &out[i])?;
            }
        }
    }
    // meshes
    if let (Some(m), Some(it)) = (first(What::Mesh, false), first(What::Mesh, true)) {
        for i in 0..list.len() {
            if list[i].what == What::Mesh && !list[i].iter && i != m {
                same_points(list[m], &out[m], list[i], &out[i])?;
                same_faces(list[m], &out[m], list[i], &out[i])?;
                same_end(list[m], &out[m], list[i], &out[i])?;
            }
        }
        // the iterator does not know which faces are valid
        if out[m].err.is_none() {
            ensure!(out[it].err.is_none(), format!("outcome: {} / {}", list[m].name, list[it].name), "{} succeeds, {}: {:?}", list[m].name, list[it].name, out[it].err);
            same_points(list[m], &out[m], list[it], &out[it])?;
            same_faces(list[m], &out[m], list[it], &out[it])?;
        } else {
            let (a, b) = (&out[m].faces, &out[it].faces);
            ensure!(a.len() <= b.len() && a[..] == b[..a.len()], format!("faces: {} / {}", list[m].name, list[it].name), "{} {:?} before its error, {} {:?}", list[m].name, a, list[it].name, b);
            if out[it].err.is_some() && out[m].faces.len() == out[it].faces.len() {
                same_points(list[m], &out[m], list[it], &out[it])?;
            }
        }
        // a file readable as mesh is readable as points
        let p = p0.unwrap();
        if out[m].err.is_none() {
            same_end(list[m], &out[m], list[p], &out[p])?;
            same_points(list[m], &out[m], list[p], &out[p])?;
        }
        if let Some(e) = first(What::Either, false) {
            let (oe, om, op) = (&out[e], &out[m], &out[p]);
            if om.err.is_none() {
                same_end(list[m], om, list[e], oe)?;
                ensure!(oe.was_mesh, "not loaded as mesh", "{} loads points only", list[e].name);
                same_points(list[m], om, list[e], oe)?;
                same_faces(list[m], om, list[e], oe)?;
            } else if oe.err.is_none() {
                ensure!(!oe.was_mesh, "loaded as mesh", "{} loads a mesh that {} refuses: {:?}", list[e].name, list[m].name, om.err);
                same_end(list[p], op, list[e], oe)?;
                same_points(list[p], op, list[e], oe)?;
            }
        }
    }
    // triangles
    if let Some(t) = first(What::Tris, false) {
        for i in 0..n_auto {
            match list[i].what {
                What::Tris => same_tris(list[t], &out[t], list[i], &out[i])?,
                What::Unique => check_unique(list[i].name, &out[t].tris, &out[i])?,
                _ => {}
            }
            same_end(list[t], &out[t], list[i], &out[i])?;
            if list[i].name.contains("duped") {
                let flat: Vec<V3> = out[t].tris.iter().flat_map(|t| t[..3].to_vec()).collect();
                ensure!(diff(&flat, &out[i].points, same3).is_none(), "vertices of the duplicating loader", "{:?} for {:?}", out[i].points, flat);
            }
        }
    }
    Ok(())
}

fn points(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, &[Fmt::Xy, Fmt::Xyz, Fmt::Pts, Fmt::Ptx, Fmt::Gcode, Fmt::Psl, Fmt::Las])
}
fn obj_off(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, &[Fmt::Obj, Fmt::Off])
}
fn ply(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, &[Fmt::Ply])
}
fn stl(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, &[Fmt::Stl])
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "a valid or damaged file out of which at least two points or triangles are delivered",
        assumptions: &["incremental mesh iterators deliver faces without knowing whether they are valid, loading a mesh may refuse what they deliver"],
        subs: vec![sub("points", 240_000, points).large(300), sub("obj-off", 240_000, obj_off).large(300), sub("ply", 240_000, ply).large(300), sub("stl", 180_000, stl).large(300), sub("points-many", 60, points).huge(), sub("obj-off-many", 40, obj_off).huge(), sub("ply-many", 40, ply).huge(), sub("stl-many", 40, stl).huge()],
    }
}
