//! C32: a file contradicting its format is refused
use super::c24_decode::name;
use super::common::*;
use super::iofmt::*;
use crate::engine::*;
use crate::ensure;

/// which readers have to notice
#[derive(Clone, Copy, PartialEq, Debug)]
enum Who {
    /// every reader
    All,
    /// everything that delivers faces or triangles
    Meshes,
    /// what builds a mesh
    Loaders,
}

struct Bad {
    what: &'static str,
    who: Who,
    /// what lies before
    points: Vec<V3>,
    faces: Vec<[usize; 3]>,
    tris: Vec<[V3; 4]>,
    bytes: Vec<u8>,
    stl_binary: bool,
}

fn value(s: &mut Src) -> f64 {
    s.int(-400, 400) as f64 / 8.0
}
/// a list of elements made of words, with many of them from a single draw
fn elements<T>(s: &mut Src, min: usize, max: usize, f: impl Fn(&mut Src) -> T) -> Vec<T> {
    if !s.huge {
        return s.list(min, max, f);
    }
    let n = match s.below(5) {
        0 | 1 => s.usize(min, max),
        2 => s.usize(250, 5000),
        _ => many_n(s),
    };
    let mut r = Src::random(s.draw(1 << 30), 1.0);
    (0..n)
        .map(|_| {
            r.record.clear();
            f(&mut r)
        })
        .collect()
}
fn verts(s: &mut Src) -> Vec<V3> {
    elements(s, 3, 12, |s| [value(s), value(s), value(s)])
}
fn faces_of(s: &mut Src, n: usize) -> Vec<[usize; 3]> {
    elements(s, 1, 8, |s| {
        let d = distinct(s, n, 3);
        [d[0], d[1], d[2]]
    })
}
fn nl(s: &mut Src) -> &'static str {
    if s.chance(1, 4) { "\r\n" } else { "\n" }
}
fn join(l: &[String], nl: &str) -> Vec<u8> {
    l.iter().map(|x| format!("{}{}", x, nl)).collect::<String>().into_bytes()
}
fn coords(p: &[f64]) -> String {
    p.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(" ")
}

/// what is no number
const NO_NUMBER: [&str; 14] = ["nope", "1.2.3", "--5", "1e", "0x10", "?", "12a", "e5", "\u{e9}", "1_000", "1,5", "+-3", "5-", "."];
/// one of the words first..first+n is no number any more (tails of obj indices stay)
fn garble(s: &mut Src, line: &mut String, first: usize, n: usize, whole: bool) {
    let mut w: Vec<String> = line.split(' ').map(|x| x.to_string()).collect();
    let k = first + s.below(n);
    let tail = w[k].find('/').map(|i| w[k][i..].to_string()).unwrap_or_default();
    let bad = match s.below(4) {
        0 if whole => format!("{}.5", w[k].trim_end_matches(&tail[..])),
        1 => format!("{}{}", w[k].trim_end_matches(&tail[..]), s.pick(&["a", "..", "-", "_", "\u{e9}", "x1"])),
        _ => s.pick(&NO_NUMBER).to_string(),
    };
    w[k] = bad + &tail;
    *line = w.join(" ");
}
fn ply(s: &mut Src) -> Bad {
    let v = verts(s);
    let n = v.len();
    let f = faces_of(s, n);
    let mut kind = s.below(3);
    let tp = if s.bool() { "float" } else { "double" };
    const INTS: [&str; 6] = ["char", "uchar", "short", "ushort", "int", "uint"];
    let tc = s.below(6);
    // has to hold every index used
    let lo = if n + 100 > 65535 { 4 } else if n + 100 > 32767 { 3 } else if n + 100 > 255 { 2 } else if n + 100 > 127 { 1 } else { 0 };
    let mut ti = lo + s.below(6 - lo);
    let mut h: Vec<String> = vec![
        "ply".into(),
        ["format ascii 1.0", "format binary_little_endian 1.0", "format binary_big_endian 1.0"][kind].into(),
        format!("element vertex {}", n),
        format!("property {} x", tp),
        format!("property {} y", tp),
        format!("property {} z", tp),
        format!("element face {}", f.len()),
        String::new(),
        "end_header".into(),
    ];
    let mut corners: Vec<Vec<i64>> = f.iter().map(|x| x.iter().map(|i| *i as i64).collect()).collect();
    let k = s.below(f.len());
    let mut in_body = false;
    let axis = s.below(3);
    let (mut bad_vertex, mut bad_face) = (None, false);
    let (what, who) = match s.below(19) {
        0 => {
            h[0] = s.pick(&["plx", "PLY2", "pl", "ply2", "OFF", "solid", "format", "element vertex 3"]).to_string();
            ("no start", Who::All)
        }
        1 => {
            h.remove(0);
            ("no start", Who::All)
        }
        2 => {
            h[1] = s.pick(&["format ascii 2.0", "format binary 1.0", "format binary_middle_endian 1.0", "format", "format utf8 1.0", "ascii 1.0", "format binary_little_endian 1.1"]).to_string();
            ("unknown format", Who::All)
        }
        3 => {
            h.remove(1);
            ("no format", Who::All)
        }
        4 => {
            h.remove(2);
            ("no vertex element", Who::All)
        }
        5 => {
            h[2] = s.pick(&["element vertex", "element vertex -3", "element vertex 2.5", "element vertex many", "element vertex 99999999999999999999999"]).to_string();
            ("vertex count", Who::All)
        }
        6 => {
            h.remove(3 + axis);
            ("missing coordinate", Who::All)
        }
        7 => {
            h[3 + axis] = format!("property {} {}", tp, ["x", "y", "z"][(axis + 1 + s.below(2)) % 3]);
            ("coordinate declared twice", Who::All)
        }
        8 => {
            h[3 + axis] = format!("property {} {}", s.pick(&["floaty", "flaot32", "bool", "int64", "string", "list"]), ["x", "y", "z"][axis]);
            ("unknown type", Who::All)
        }
        9 => {
            let i = 2 + s.below(5);
            h.insert(i, s.pick(&["nonsense 1 2", "element", "endheader", "vertex 3", "end_header now", "proper float w"]).to_string());
            ("unknown header line", Who::All)
        }
        10 => {
            h.insert(2, "property float confidence".to_string());
            ("property outside of elements", Who::All)
        }
        11 => {
            h[6] = s.pick(&["element face", "element face -1", "element face 0.5", "element face some"]).to_string();
            ("face count", Who::Meshes)
        }
        12 => {
            h[7] = ["property list uchar float vertex_indices", "property list double int vertex_indices", "property list uchar flaot vertex_index", "property list uchar vertex_indices"][s.below(4)].to_string();
            ("face types", Who::Meshes)
        }
        13 | 14 => {
            in_body = true;
            if s.bool() {
                corners[k].pop();
            } else {
                for i in 0..1 + s.below(3) {
                    corners[k].push((i % n) as i64);
                }
            }
            ("face without three corners", Who::Meshes)
        }
        15 => {
            in_body = true;
            ti = [0, 2, 2, 4, 4, 4][ti];
            corners[k][axis] = -(1 + s.below(100) as i64);
            ("negative vertex", Who::Meshes)
        }
        17 => {
            kind = 0;
            bad_vertex = Some(s.below(n));
            ("coordinate is no number", Who::All)
        }
        18 => {
            kind = 0;
            in_body = true;
            bad_face = true;
            ("corner is no number", Who::Meshes)
        }
        _ => {
            in_body = true;
            corners[k][axis] = (n + if s.bool() { 0 } else { s.below(100) }) as i64;
            ("missing vertex", Who::Loaders)
        }
    };
    for l in h.iter_mut() {
        if l.is_empty() {
            *l = format!("property list {} {} {}", INTS[tc], INTS[ti], s.pick(&["vertex_indices", "vertex_index"]));
        }
    }
    if bad_face || bad_vertex.is_some() {
        h[1] = "format ascii 1.0".into();
    }
    if s.chance(1, 3) {
        let i = 1 + s.below(h.len() - 1);
        h.insert(i, "comment made by hand".to_string());
    }
    let e = nl(s);
    let mut b = join(&h, e);
    if kind == 0 {
        let mut l: Vec<String> = v.iter().map(|p| coords(p)).collect();
        if let Some(j) = bad_vertex {
            garble(s, &mut l[j], 0, 3, false);
        }
        for c in corners[..].iter() {
            l.push(format!("{} {}", c.len(), c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
        }
        if bad_face {
            garble(s, &mut l[n + k], 0, 4, true);
        }
        b.extend(join(&l, e));
    } else {
        for p in v.iter() {
            for x in p {
                put(&mut b, kind == 2, if tp == "float" { 6 } else { 7 }, *x, 0);
            }
        }
        for c in corners[..].iter() {
            put(&mut b, kind == 2, tc, 0.0, c.len() as u64);
            for x in c {
                put(&mut b, kind == 2, ti, 0.0, *x as u64);
            }
        }
    }
    Bad { what, who, points: if in_body { v } else { v[..bad_vertex.unwrap_or(0)].to_vec() }, faces: if in_body { f[..k].to_vec() } else { vec![] }, tris: vec![], bytes: b, stl_binary: false }
}

fn off(s: &mut Src) -> Bad {
    let v = verts(s);
    let n = v.len();
    let f = faces_of(s, n);
    let k = s.below(f.len());
    let j = s.below(n);
    let axis = s.below(3);
    let mut vl: Vec<String> = v.iter().map(|p| coords(p)).collect();
    let mut fl: Vec<String> = f.iter().map(|x| format!("3 {} {} {}", x[0], x[1], x[2])).collect();
    let mut counts = format!("{} {} 0", n, f.len());
    let (mut np, mut nf) = (n, k);
    let (what, who) = match s.below(8) {
        6 => {
            garble(s, &mut vl[j], 0, 3, false);
            np = j;
            nf = 0;
            ("coordinate is no number", Who::All)
        }
        7 => {
            garble(s, &mut fl[k], 0, 4, true);
            ("corner is no number", Who::Meshes)
        }
        0 => {
            let mut ids: Vec<String> = f[k].iter().map(|x| x.to_string()).collect();
            if s.bool() { ids.truncate(2) } else { ids.push(((f[k][2] + 1) % n).to_string()) }
            fl[k] = format!("{} {}", ids.len(), ids.join(" "));
            ("face without three corners", Who::Meshes)
        }
        1 => {
            let mut x = f[k];
            x[axis] = n + if s.bool() { 0 } else { s.below(1000) };
            fl[k] = format!("3 {} {} {}", x[0], x[1], x[2]);
            ("missing vertex", Who::Loaders)
        }
        2 => {
            let mut x: Vec<i64> = f[k].iter().map(|x| *x as i64).collect();
            x[axis] = -1 - s.below(9) as i64;
            fl[k] = format!("3 {} {} {}", x[0], x[1], x[2]);
            ("negative vertex", Who::Meshes)
        }
        3 => {
            vl[j] = coords(&v[j][..1 + s.below(2)]);
            np = j;
            nf = 0;
            ("vertex without three coordinates", Who::All)
        }
        4 => {
            fl[k] = s.pick(&["3", "3 0", "3 0 1"]).to_string();
            ("face without three corners", Who::Meshes)
        }
        _ => {
            counts = s.pick(&["-3 1 0", "3.5 1 0", "x 1 0", "OFF"]).to_string();
            np = 0;
            nf = 0;
            ("vertex count", Who::All)
        }
    };
    let mut l = vec![];
    l.push("OFF".to_string());
    if s.chance(1, 3) {
        l.push("# by hand".to_string());
    }
    l.push(counts);
    l.extend(vl);
    l.extend(fl);
    Bad { what, who, points: v[..np].to_vec(), faces: f[..nf].to_vec(), tris: vec![], bytes: join(&l, nl(s)), stl_binary: false }
}

fn obj(s: &mut Src) -> Bad {
    let v = verts(s);
    let n = v.len();
    let f = faces_of(s, n);
    let k = s.below(f.len());
    let j = s.below(n);
    let axis = s.below(3);
    let tail = *s.pick(&["", "/1", "/1/2", "//2"]);
    let line = |x: &[usize]| format!("f {}", x.iter().map(|i| format!("{}{}", i + 1, tail)).collect::<Vec<_>>().join(" "));
    let mut vl: Vec<String> = v.iter().map(|p| format!("v {}", coords(p))).collect();
    let mut fl: Vec<String> = f.iter().map(|x| line(x)).collect();
    let (mut np, mut nf) = (n, k);
    let (what, who) = match s.below(6) {
        4 => {
            garble(s, &mut vl[j], 1, 3, false);
            np = j;
            nf = 0;
            ("coordinate is no number", Who::All)
        }
        5 => {
            garble(s, &mut fl[k], 1, 3, true);
            ("corner is no number", Who::Meshes)
        }
        0 => {
            fl[k] = line(&f[k][..s.below(3)]);
            ("face without three corners", Who::Meshes)
        }
        1 => {
            let mut x = f[k];
            x[axis] = n + if s.bool() { 0 } else { s.below(1000) };
            fl[k] = line(&x);
            ("missing vertex", Who::Loaders)
        }
        2 => {
            let mut x: Vec<String> = f[k].iter().map(|i| format!("{}{}", i + 1, tail)).collect();
            x[axis] = format!("0{}", tail);
            fl[k] = format!("f {}", x.join(" "));
            ("vertex zero", Who::Meshes)
        }
        _ => {
            vl[j] = format!("v {}", coords(&v[j][..s.below(3)]));
            np = j;
            nf = 0;
            ("vertex without three coordinates", Who::All)
        }
    };
    let mut l = vl;
    if s.chance(1, 3) {
        l.push("# by hand".to_string());
    }
    l.extend(fl);
    Bad { what, who, points: v[..np].to_vec(), faces: f[..nf].to_vec(), tris: vec![], bytes: join(&l, nl(s)), stl_binary: false }
}

fn stl(s: &mut Src) -> Bad {
    let tris: Vec<[V3; 4]> = elements(s, 1, 6, |s| {
        let mut p = || [value(s), value(s), value(s)];
        [p(), p(), p(), [0.0, 0.0, 1.0]]
    });
    let k = s.below(tris.len());
    let mut l: Vec<String> = vec!["solid box".into()];
    for (i, t) in tris.iter().enumerate() {
        let mut x: Vec<String> = vec!["facet normal 0 0 1".into(), "outer loop".into()];
        for p in t[..3].iter() {
            x.push(format!("vertex {}", coords(p)));
        }
        x.push("endloop".into());
        x.push("endfacet".into());
        if i == k {
            match s.below(6) {
                5 => {
                    let j = 2 + s.below(3);
                    garble(s, &mut x[j], 1, 3, false);
                }
                0 => {
                    x.remove(s.below(7));
                }
                1 => {
                    let j = 2 + s.below(3);
                    let c = x[j].clone();
                    x.insert(j, c);
                }
                2 => {
                    let j = 2 + s.below(3);
                    x[j] = format!("vertex {}", coords(&t[j - 2][..s.below(3)]));
                }
                3 => {
                    // two lines swapped
                    let (a, b) = *s.pick(&[(0, 1), (1, 2), (4, 5), (5, 6), (1, 5)]);
                    x.swap(a, b);
                }
                _ => {
                    let j = *s.pick(&[0usize, 1, 5, 6]);
                    x[j] = s.pick(&["face normal 0 0 1", "inner loop", "end", "loop"]).to_string();
                }
            }
        }
        l.extend(x);
    }
    l.push("endsolid box".into());
    Bad { what: "facet", who: Who::All, points: vec![], faces: vec![], tris: tris[..k].to_vec(), bytes: join(&l, nl(s)), stl_binary: false }
}

fn las(s: &mut Src) -> Bad {
    let f = gen(s, Fmt::Las);
    let mut b = f.bytes;
    let what = match s.below(4) {
        0 => {
            b[24] = s.usize(2, 255) as u8;
            "unknown version"
        }
        1 => {
            b[25] = s.usize(5, 255) as u8;
            "unknown version"
        }
        2 => {
            b[104] = s.usize(11, 255) as u8;
            "unknown point format"
        }
        _ => {
            b[105] = s.below(12) as u8;
            b[106] = 0;
            "record too short for a point"
        }
    };
    Bad { what, who: Who::All, points: vec![], faces: vec![], tris: vec![], bytes: b, stl_binary: false }
}

/// rows of numbers: one of them has too few
fn rows(s: &mut Src, fmt: Fmt) -> Bad {
    let dim = if fmt == Fmt::Xy { 2 } else { 3 };
    let v: Vec<V3> = elements(s, 1, 12, |s| [value(s), value(s), if dim == 2 { 0.0 } else { value(s) }]);
    let extra = s.below(3);
    let row = |p: &V3, n: usize| {
        let mut x: Vec<String> = p[..n].iter().map(|x| x.to_string()).collect();
        if n == dim {
            for i in 0..extra {
                x.push(i.to_string());
            }
        }
        x.join(" ")
    };
    let k = s.below(v.len());
    let mut l: Vec<String> = v.iter().map(|p| row(p, dim)).collect();
    let few = s.bool();
    if few {
        l[k] = row(&v[k], 1 + s.below(dim - 1));
    } else {
        garble(s, &mut l[k], 0, dim, false);
    }
    if fmt == Fmt::Pts {
        l.insert(0, v.len().to_string());
    }
    if fmt == Fmt::Ptx {
        let h = [v.len().to_string(), "1".into(), "0 0 0".into(), "1 0 0".into(), "0 1 0".into(), "0 0 1".into(), "1 0 0 0".into(), "0 1 0 0".into(), "0 0 1 0".into(), "0 0 0 1".into()];
        l.splice(0..0, h.iter().cloned());
    }
    Bad { what: if few { "point without all coordinates" } else { "coordinate is no number" }, who: Who::All, points: v[..k].to_vec(), faces: vec![], tris: vec![], bytes: join(&l, nl(s)), stl_binary: false }
}

/// moves: one of them has a word without number
fn gcode(s: &mut Src) -> Bad {
    let mut at = [0.0; 3];
    let (mut points, mut l) = (vec![], vec![]);
    let moves: Vec<(usize, Vec<(usize, f64)>)> = elements(s, 1, 12, |s| {
        let n = s.usize(1, 3);
        let d = distinct(s, 3, n);
        (s.below(5), d[..].iter().map(|d| (*d, value(s))).collect())
    });
    let k = s.below(moves.len());
    for (i, (cmd, words)) in moves[..].iter().enumerate() {
        let mut x: Vec<String> = vec![["G0", "G1", "G2", "G3", "G92"][*cmd].into()];
        for (d, v) in words {
            x.push(format!("{}{}", ["X", "Y", "Z"][*d], v));
            at[*d] = *v;
        }
        if i == k {
            let j = 1 + s.below(words.len());
            x[j] = format!("{}{}", &x[j][..1], s.pick(&NO_NUMBER));
        } else if i < k {
            points.push(at);
        }
        if s.chance(1, 4) {
            x.push("F1500".into());
        }
        l.push(x.join(" "));
        if s.chance(1, 6) {
            l.push("; comment".into());
        }
    }
    Bad { what: "coordinate is no number", who: Who::All, points, faces: vec![], tris: vec![], bytes: join(&l, nl(s)), stl_binary: false }
}

fn judge(s: &mut Src, ctx: &mut Ctx, fmt: Fmt, b: Bad) -> Res {
    ctx.label(name(fmt));
    ctx.label(b.what);
    ctx.nontrivial(b.points.len() + b.tris.len() >= 1 || matches!(fmt, Fmt::Ply | Fmt::Las));
    ctx.desc(|| format!("{:?} with {}: \"{}\"", fmt, b.what, show(&b.bytes)));
    let mut c = Chunked::gen(s, &b.bytes);
    let mut list: Vec<&Reader> = readers(fmt).collect();
    if fmt == Fmt::Stl {
        list.extend(STL_EXPLICIT[b.stl_binary as usize]);
    }
    for r in list {
        let mesh = r.what != What::Points;
        let need = match b.who {
            Who::All => true,
            Who::Meshes => mesh,
            Who::Loaders => mesh && !r.iter,
        };
        if !need {
            continue;
        }
        c.rewind();
        let o = no_panic(r.name, || (r.run)(&mut c))?;
        ensure!(o.err.is_some(), format!("{} accepted: {}", b.what, r.name), "{} succeeds with {} points, {} faces, {} triangles", r.name, o.points.len(), o.faces.len(), o.tris.len());
        ensure!(!o.unfused, format!("not fused: {}", r.name), "{} delivers after its end", r.name);
        match r.what {
            What::Points | What::Mesh | What::Either => {
                ensure!(o.points.len() <= b.points.len() && diff(&o.points, &b.points[..o.points.len()], same3).is_none(), format!("content before {}: {}", b.what, r.name), "{}: points {:?} delivered, {:?} lie before", r.name, o.points, b.points);
                ensure!(o.faces.len() <= b.faces.len() && o.faces[..] == b.faces[..o.faces.len()], format!("content before {}: {}", b.what, r.name), "{}: faces {:?} delivered, {:?} lie before", r.name, o.faces, b.faces);
            }
            What::Tris => ensure!(o.tris.len() <= b.tris.len() && diff(&o.tris, &b.tris[..o.tris.len()], same_tri).is_none(), format!("content before {}: {}", b.what, r.name), "{}: triangles {:?} delivered, {:?} lie before", r.name, o.tris, b.tris),
            What::Unique => ensure!(o.tris.len() <= b.tris.len(), format!("content before {}: {}", b.what, r.name), "{}: {} triangles delivered, {} lie before", r.name, o.tris.len(), b.tris.len()),
        }
    }
    Ok(())
}

fn ply_case(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = ply(s);
    judge(s, ctx, Fmt::Ply, b)
}
fn other(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fmt = *s.pick(&[Fmt::Off, Fmt::Obj, Fmt::Stl, Fmt::Las]);
    let b = match fmt {
        Fmt::Off => off(s),
        Fmt::Obj => obj(s),
        Fmt::Stl => stl(s),
        _ => las(s),
    };
    judge(s, ctx, fmt, b)
}
fn delimited(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fmt = *s.pick(&[Fmt::Xy, Fmt::Xyz, Fmt::Pts, Fmt::Ptx, Fmt::Gcode]);
    let b = if fmt == Fmt::Gcode { gcode(s) } else { rows(s, fmt) };
    judge(s, ctx, fmt, b)
}

pub fn prop() -> Prop {
    Prop {
        id: "C32",
        rule: "a file with one contradiction after at least one element, or a PLY or LAS file (contradictions in the header, or within the body)",
        assumptions: &["PLY and OFF faces other than triangles, PLY header lines other than vertex and face elements and their properties, LAS versions above 1.4 and point formats above 10 are not supported", "an index iterator does not know the number of vertices, what builds a mesh does"],
        subs: vec![sub("ply", 250_000, ply_case).large(50), sub("mesh-las", 250_000, other).large(50), sub("rows", 120_000, delimited).large(50), sub("ply-many", 300, ply_case).huge(), sub("mesh-many", 120, other).huge(), sub("rows-many", 150, delimited).huge()],
    }
}
