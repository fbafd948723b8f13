//! C24: readers decode every valid file of their format
use super::common::*;
use super::iofmt::*;
use crate::engine::*;
use crate::ensure;

/// result of a reader against what the file describes
fn check(f: &File, r: &Reader, o: &Out) -> Res {
    let n = r.name;
    if !f.mesh && r.what == What::Mesh {
        ensure!(o.err.is_some(), format!("mesh out of a file without usable faces: {}", n), "{} succeeded: {} faces", n, o.faces.len());
        return Ok(());
    }
    ensure!(o.err.is_none(), format!("valid file refused by {}", n), "{}: {} after {} points, {} faces, {} triangles", n, o.err.as_ref().unwrap(), o.points.len(), o.faces.len(), o.tris.len());
    ensure!(!o.unfused, format!("not fused: {}", n), "{} delivers after its end", n);
    let with_points = matches!(r.what, What::Points | What::Mesh | What::Either);
    if with_points {
        if let Some(i) = diff(&o.points, &f.points, same3) {
            return fail(&format!("points differ: {}", n), format!("{}: point {} is {:?}, file says {:?} ({} of {})", n, i, o.points.get(i), f.points.get(i), o.points.len(), f.points.len()));
        }
    }
    let with_faces = r.what == What::Mesh || (r.what == What::Either && f.mesh);
    if with_faces {
        if let Some(i) = diff(&o.faces, &f.faces, |a, b| a == b) {
            return fail(&format!("faces differ: {}", n), format!("{}: face {} is {:?}, file says {:?} ({} of {})", n, i, o.faces.get(i), f.faces.get(i), o.faces.len(), f.faces.len()));
        }
    }
    if r.what == What::Either {
        ensure!(o.was_mesh == f.mesh, format!("mesh or points: {}", n), "{}: loaded as mesh {}", n, o.was_mesh);
    }
    if r.what == What::Tris {
        if let Some(i) = diff(&o.tris, &f.tris, same_tri) {
            return fail(&format!("triangles differ: {}", n), format!("{}: triangle {} is {:?}, file says {:?} ({} of {})", n, i, o.tris.get(i), f.tris.get(i), o.tris.len(), f.tris.len()));
        }
    }
    if r.what == What::Unique {
        check_unique(n, &f.tris, o)?;
    }
    if r.iter {
        // an iterator passes on the announced numbers
        let got: Vec<usize> = o.announced.iter().map(|a| a.0).collect();
        let exp: Vec<usize> = f.announced.iter().map(|a| a.0).collect();
        ensure!(got[..] == exp[..], format!("announced differ: {}", n), "{}: announced {:?}, file says {:?}", n, got, exp);
        if r.what == What::Mesh {
            ensure!(o.announced == f.announced, format!("announced differ: {}", n), "{}: announced {:?}, file says {:?}", n, o.announced, f.announced);
        }
    }
    Ok(())
}

/// a mesh with shared vertices: the spanning triangles, vertices in order of first appearance without repetition
pub fn check_unique(n: &str, tris: &[[V3; 4]], o: &Out) -> Res {
    let exp = spanning(tris);
    // equal positions might differ in the sign of zero
    let eq = |a: &V3, b: &V3| (0..3).all(|d| a[d] == b[d] || same(a[d], b[d]));
    if let Some(i) = diff(&o.tris, &exp, |a, b| (0..3).all(|k| eq(&a[k], &b[k])) && same3(&a[3], &b[3])) {
        return fail(&format!("triangles differ: {}", n), format!("{}: triangle {} is {:?}, file says {:?} ({} of {})", n, i, o.tris.get(i), exp.get(i), o.tris.len(), exp.len()));
    }
    let mut vs: Vec<V3> = vec![];
    let mut seen = std::collections::HashSet::new();
    for t in tris {
        for p in t[..3].iter() {
            // a number that is none equals nothing
            if p.iter().any(|x| x.is_nan()) || seen.insert(key3(p)) {
                vs.push(*p);
            }
        }
    }
    if let Some(i) = diff(&o.points, &vs, eq) {
        return fail(&format!("vertices differ: {}", n), format!("{}: vertex {} is {:?}, expected {:?} ({} of {})", n, i, o.points.get(i), vs.get(i), o.points.len(), vs.len()));
    }
    Ok(())
}

fn case(s: &mut Src, ctx: &mut Ctx, fmts: &[Fmt]) -> Res {
    let fmt = *s.pick(fmts);
    let f = gen(s, fmt);
    judge(s, ctx, fmt, f)
}
/// more elements than one or two bytes can count
fn many_vertices(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fmt = *s.pick(&[Fmt::Ply, Fmt::Ply, Fmt::Ply, Fmt::Off, Fmt::Obj, Fmt::Stl, Fmt::Las, Fmt::Psl, Fmt::Pts, Fmt::Ptx, Fmt::Xy, Fmt::Xyz, Fmt::Gcode]);
    let f = gen_many(s, fmt);
    let n = f.points.len().max(f.tris.len());
    ctx.label_if(n > 32768, "more than 32768");
    ctx.label_if(n > 65536, "more than 65536");
    judge(s, ctx, fmt, f)
}
fn judge(s: &mut Src, ctx: &mut Ctx, fmt: Fmt, f: File) -> Res {
    ctx.label(name(fmt));
    ctx.nontrivial(f.points.len() + f.tris.len() >= 2 && f.extras >= 1);
    ctx.label_if(!f.faces.is_empty() || !f.tris.is_empty(), "with faces");
    let mut c = Chunked::gen(s, &f.bytes);
    ctx.desc(|| format!("{:?} chunks {:?} interrupted every {}: \"{}\"", fmt, c.chunks, c.hiccup, show(&f.bytes)));
    for r in readers(fmt) {
        c.rewind();
        let o = no_panic(r.name, || (r.run)(&mut c))?;
        check(&f, r, &o)?;
    }
    if fmt == Fmt::Stl {
        for r in STL_EXPLICIT[f.stl_binary as usize] {
            c.rewind();
            let o = no_panic(r.name, || (r.run)(&mut c))?;
            check(&f, r, &o)?;
        }
    }
    Ok(())
}
pub fn name(f: Fmt) -> &'static str {
    match f {
        Fmt::Xy => "xy",
        Fmt::Xyz => "xyz",
        Fmt::Pts => "pts",
        Fmt::Ptx => "ptx",
        Fmt::Gcode => "gcode",
        Fmt::Psl => "psl",
        Fmt::Las => "las",
        Fmt::Obj => "obj",
        Fmt::Off => "off",
        Fmt::Ply => "ply",
        Fmt::Stl => "stl",
    }
}

fn delimited(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, &[Fmt::Xy, Fmt::Xyz, Fmt::Pts, Fmt::Ptx])
}
fn gcode(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, &[Fmt::Gcode])
}
fn scans(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, &[Fmt::Psl, Fmt::Las])
}
fn obj_off(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, &[Fmt::Obj, Fmt::Off])
}
fn ply(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, &[Fmt::Ply])
}
fn stl(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, &[Fmt::Stl])
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "a generated valid file describing at least two elements and using at least one optional feature of its format (line endings, comments, extra columns or properties, property order or type, several blocks, missing final newline, ...)",
        assumptions: &["files are generated from a description of the format and hold their content next to it; xy and xyz use one single-byte delimiter per file and no blank lines", "PLY coordinates are float or double; PLY faces are triangles", "OFF counts stand on their own line; OBJ indices are positive", "one solid per ASCII STL file, binary STL headers do not start with \"solid\""],
        subs: vec![sub("delimited", 180_000, delimited).large(300), sub("gcode", 120_000, gcode).large(300), sub("scans", 120_000, scans).large(300), sub("obj-off", 120_000, obj_off).large(300), sub("ply", 180_000, ply).large(300), sub("stl", 120_000, stl).large(300), sub("many-vertices", 400, many_vertices)],
    }
}
