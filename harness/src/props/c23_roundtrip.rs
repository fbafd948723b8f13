//! C23: saving and loading gives back the same content
use super::common::*;
use super::iofmt::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::io::*;
use rust_3d::*;
use std::io::Write;

//------------------------------------------------------------------------------
// sinks

/// takes only parts, interrupts, and fails from some offset on
pub struct Sink {
    pub got: Vec<u8>,
    chunks: Vec<usize>,
    hiccup: usize,
    calls: usize,
    fail_at: Option<usize>,
    zero: bool,
}
impl Sink {
    fn gen(s: &mut Src) -> Sink {
        let chunks = match s.below(3) {
            0 => vec![1 + s.below(16)],
            1 => s.list(1, 6, |s| 1 + s.below(60)),
            _ => vec![1],
        };
        Sink { got: vec![], chunks, hiccup: if s.bool() { 2 + s.below(4) } else { 0 }, calls: 0, fail_at: None, zero: false }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.hiccup > 0 && self.calls % self.hiccup == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "injected interruption"));
        }
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = self.chunks[self.calls % self.chunks.len()].min(b.len());
        if let Some(f) = self.fail_at {
            n = n.min(f - self.got.len().min(f));
            if n == 0 {
                if self.zero {
                    return Ok(0);
                }
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected write failure"));
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// saves into memory, into a partial sink and into a failing one
fn save_all(s: &mut Src, what: &str, f: &dyn Fn(&mut dyn Write) -> std::result::Result<(), String>) -> std::result::Result<Vec<u8>, Fail> {
    let mut full: Vec<u8> = vec![];
    let r = no_panic(what, || f(&mut full))?;
    ensure!(r.is_ok(), format!("{} fails", what), "{}: {:?} writing into memory", what, r);
    let mut part = Sink::gen(s);
    let r = no_panic(what, || f(&mut part))?;
    ensure!(r.is_ok(), format!("{} fails", what), "{}: {:?} into a sink taking parts {:?}, interrupting every {}", what, r, part.chunks, part.hiccup);
    ensure!(part.got == full, format!("{} depends on the sink", what), "{}: {} bytes into memory, {} into a sink taking parts {:?}: {} / {}", what, full.len(), part.got.len(), part.chunks, show(&full), show(&part.got));
    if !full.is_empty() {
        let mut bad = Sink::gen(s);
        let at = if s.bool() { s.draw(full.len() as u64 - 1) as usize } else { full.len() - 1 - s.below(full.len().min(20)) };
        bad.fail_at = Some(at);
        bad.zero = s.bool();
        let r = no_panic(what, || f(&mut bad))?;
        ensure!(r.is_err(), format!("{} hides a failing sink", what), "{} succeeds though the sink fails after {} of {} bytes", what, at, full.len());
        ensure!(bad.got[..] == full[..bad.got.len()], format!("{} wrote something else", what), "{} into a failing sink: {}", what, show(&bad.got));
    }
    Ok(full)
}
fn e<T, E: std::fmt::Debug>(r: std::result::Result<T, E>) -> std::result::Result<(), String> {
    r.map(|_| ()).map_err(|e| format!("{:?}", e))
}
/// Write for &mut dyn
struct Dyn<'a>(&'a mut dyn Write);
impl<'a> Write for Dyn<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}

//------------------------------------------------------------------------------

fn value(s: &mut Src) -> f64 {
    let x = match s.weighted(&[4, 4, 3, 1, 1]) {
        0 => s.int(-9, 9) as f64,
        1 => s.int(-100000, 100000) as f64 / 1000.0,
        2 => f64::from_bits(s.draw(u64::MAX)),
        3 => *s.pick(&[-0.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, 1e-310, 0.1, 1.0 / 3.0, 1e21, 1e-7, 123456789.123456789]),
        _ => s.int(-1000, 1000) as f64 * 1e18,
    };
    if x.is_finite() { x } else { 0.3 }
}
fn vertex(s: &mut Src) -> V3 {
    [value(s), value(s), value(s)]
}
fn run(c: &mut Chunked, r: &Reader) -> std::result::Result<Out, Fail> {
    c.rewind();
    no_panic(r.name, || (r.run)(c))
}

fn xy(s: &mut Src, ctx: &mut Ctx) -> Res {
    let flat = s.bool();
    let v: Vec<V3> = if s.huge {
        many(s).0[..].iter().map(|p| if flat { [p[0], p[1], 0.0] } else { *p }).collect()
    } else {
        s.list(0, 40, |s| if flat { [value(s), value(s), 0.0] } else { vertex(s) })
    };
    let dc = *s.pick(&[" ", ";", ",", "\t", "  ", ";;"]);
    let dp = *s.pick(&["\n", "\r\n"]);
    let cloud = s.bool();
    ctx.nontrivial(v.len() >= 2);
    ctx.desc(|| format!("{} points {:?} separated by {:?} {:?}, as cloud {}", if flat { "2D" } else { "3D" }, v, dc, dp, cloud));
    let (fmt, name) = if flat { (Fmt::Xy, "save_xy") } else { (Fmt::Xyz, "save_xyz") };
    let bytes = save_all(s, name, &|w: &mut dyn Write| {
        let mut w = Dyn(w);
        match (flat, cloud) {
            (true, false) => e(save_xy(&mut w, &v.iter().map(|p| p2(&[p[0], p[1]])).collect::<Vec<_>>(), dc, dp)),
            (true, true) => e(save_xy(&mut w, &pc2(&v.iter().map(|p| [p[0], p[1]]).collect::<Vec<_>>()), dc, dp)),
            (false, false) => e(save_xyz(&mut w, &v.iter().map(p3).collect::<Vec<_>>(), dc, dp)),
            (false, true) => e(save_xyz(&mut w, &pc3(&v), dc, dp)),
        }
    })?;
    let mut c = Chunked::gen(s, &bytes);
    for r in readers(fmt) {
        let o = run(&mut c, r)?;
        ensure!(o.err.is_none(), format!("{} refuses {}", r.name, name), "{}: {:?} for {}", r.name, o.err, show(&bytes));
        if let Some(i) = diff(&o.points, &v, same3) {
            return fail(&format!("{} after {}", r.name, name), format!("point {}: {:?} loaded, {:?} saved ({} of {}); {}", i, o.points.get(i), v.get(i), o.points.len(), v.len(), show(&bytes)));
        }
    }
    Ok(())
}

fn add<M: IsFaceEditableMesh<Point3D, Face3> + IsVertexEditableMesh<Point3D, Face3>>(m: &mut M, v: &[V3], f: &[[usize; 3]]) {
    for p in v {
        m.add_vertex(p3(p));
    }
    for x in f {
        m.try_add_connection(VId(x[0]), VId(x[1]), VId(x[2])).expect("valid face");
    }
}

/// takes the written PLY apart without any of the library's code
fn decode_ply(b: &[u8], binary: bool, p64: bool, colored: bool, nv: usize, nf: usize) -> Option<(Vec<V3>, Vec<[u8; 3]>, Vec<[usize; 3]>)> {
    let end = b.windows(11).position(|w| w == b"end_header\n")? + 11;
    let head = std::str::from_utf8(&b[..end]).ok()?;
    let mut exp: Vec<String> = vec!["ply".into()];
    exp.push(if binary { "format binary_big_endian 1.0".into() } else { "format ascii 1.0".into() });
    exp.push(format!("element vertex {}", nv));
    let t = if p64 { "double" } else { "float" };
    for c in ["x", "y", "z"] {
        exp.push(format!("property {} {}", t, c));
    }
    if colored {
        for c in ["red", "green", "blue"] {
            exp.push(format!("property uchar {}", c));
        }
    }
    exp.push(format!("element face {}", nf));
    exp.push("property list uchar uint vertex_indices".into());
    exp.push("end_header".into());
    let got: Vec<String> = head.lines().filter(|l| !l.starts_with("comment")).map(|l| l.replace("uint8", "uchar").replace("uint32", "uint")).collect();
    if got != exp {
        return None;
    }
    let (mut vs, mut cs, mut fs) = (vec![], vec![], vec![]);
    if binary {
        let mut p = end;
        let mut take = |n: usize| -> Option<&[u8]> {
            let r = b.get(p..p + n)?;
            p += n;
            Some(r)
        };
        for _ in 0..nv {
            let mut v = [0.0; 3];
            for x in v.iter_mut() {
                *x = if p64 { f64::from_be_bytes(take(8)?.try_into().ok()?) } else { f32::from_be_bytes(take(4)?.try_into().ok()?) as f64 };
            }
            vs.push(v);
            if colored {
                let c = take(3)?;
                cs.push([c[0], c[1], c[2]]);
            }
        }
        for _ in 0..nf {
            if take(1)? != [3] {
                return None;
            }
            let mut f = [0; 3];
            for x in f.iter_mut() {
                *x = u32::from_be_bytes(take(4)?.try_into().ok()?) as usize;
            }
            fs.push(f);
        }
        if p != b.len() {
            return None;
        }
    } else {
        let mut lines = std::str::from_utf8(&b[end..]).ok()?.lines();
        for _ in 0..nv {
            let w: Vec<&str> = lines.next()?.split(' ').collect();
            if w.len() != if colored { 6 } else { 3 } {
                return None;
            }
            vs.push([w[0].parse().ok()?, w[1].parse().ok()?, w[2].parse().ok()?]);
            if colored {
                cs.push([w[3].parse().ok()?, w[4].parse().ok()?, w[5].parse().ok()?]);
            }
        }
        for _ in 0..nf {
            let w: Vec<&str> = lines.next()?.split(' ').collect();
            if w.len() != 4 || w[0] != "3" {
                return None;
            }
            fs.push([w[1].parse().ok()?, w[2].parse().ok()?, w[3].parse().ok()?]);
        }
        if lines.next().is_some() {
            return None;
        }
    }
    Some((vs, cs, fs))
}

fn ply(s: &mut Src, ctx: &mut Ctx) -> Res {
    let v: Vec<V3> = s.list(0, 40, vertex);
    let f = if v.len() >= 3 { gen_faces(s, v.len(), 40) } else { vec![] };
    ply_case(s, ctx, v, f)
}

/// more vertices than one or two bytes can count
fn ply_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (v, f) = many(s);
    ply_case(s, ctx, v, f)
}

fn ply_case(s: &mut Src, ctx: &mut Ctx, v: Vec<V3>, f: Vec<[usize; 3]>) -> Res {
    let binary = s.bool();
    let p64 = binary && s.bool();
    let colored = s.bool();
    let kind = s.below(3);
    let wrong = colored && s.chance(1, 8);
    let mut colors: Vec<Rgb> = vec![];
    if colored {
        for _ in 0..v.len() {
            colors.push(Rgb::new(s.draw(255) as u8, s.draw(255) as u8, s.draw(255) as u8));
        }
        if wrong {
            if s.bool() || colors.is_empty() {
                colors.push(Rgb::new(1, 2, 3));
            } else {
                let n = s.below(colors.len());
                colors.truncate(n);
            }
        }
    }
    ctx.nontrivial(v.len() >= 3 && !f.is_empty());
    ctx.label_if(colored, "colored");
    ctx.label_if(binary, "binary");
    ctx.desc(|| format!("binary {} 64 bit {} {} vertices {:?} faces {:?} colors {:?}", binary, p64, v.len(), &v[..v.len().min(40)], f, &colors[..colors.len().min(40)]));
    let (mut m0, mut m1, mut m2) = (Mesh::default(), MeshD::default(), MeshU::default());
    match kind {
        0 => add(&mut m0, &v, &f),
        1 => add(&mut m1, &v, &f),
        _ => add(&mut m2, &v, &f),
    }
    let save = |w: &mut dyn Write| {
        let mut w = Dyn(w);
        let p = if p64 { Precision::P64 } else { Precision::P32 };
        macro_rules! save {
            ($m:ident) => {
                match (binary, colored) {
                    (false, false) => e(save_ply_ascii(&mut w, &$m)),
                    (false, true) => e(save_ply_ascii_colored(&mut w, &$m, &colors)),
                    (true, false) => e(save_ply_binary(&mut w, &$m, &p)),
                    (true, true) => e(save_ply_binary_colored(&mut w, &$m, &p, &colors)),
                }
            };
        }
        match kind {
            0 => save!(m0),
            1 => save!(m1),
            _ => save!(m2),
        }
    };
    let name = match (binary, colored) {
        (false, false) => "save_ply_ascii",
        (false, true) => "save_ply_ascii_colored",
        (true, false) => "save_ply_binary",
        (true, true) => "save_ply_binary_colored",
    };
    if wrong {
        let mut out: Vec<u8> = vec![];
        let r = no_panic(name, || save(&mut out))?;
        ensure!(r.is_err(), format!("{} accepts a wrong number of colors", name), "{} colors for {} vertices", colors.len(), v.len());
        return Ok(());
    }
    let bytes = save_all(s, name, &save)?;
    // rounded to what the format stores
    let exp: Vec<V3> = if binary && !p64 { v.iter().map(|p| [p[0] as f32 as f64, p[1] as f32 as f64, p[2] as f32 as f64]).collect() } else { v.clone() };
    match decode_ply(&bytes, binary, p64, colored, v.len(), f.len()) {
        None => return fail(&format!("{} malformed", name), format!("{} writes {}", name, show(&bytes))),
        Some((dv, dc, df)) => {
            let c: Vec<[u8; 3]> = colors.iter().map(|c| [c.r, c.g, c.b]).collect();
            ensure!(dc == c, format!("colors of {}", name), "{:?} written, {:?} given", &dc[..dc.len().min(40)], &c[..c.len().min(40)]);
            if let Some(i) = diff(&dv, &exp, same3) {
                return fail(&format!("vertices of {}", name), format!("vertex {}: {:?} written, {:?} given", i, dv.get(i), exp.get(i)));
            }
            ensure!(df == f, format!("faces of {}", name), "{:?} written, {:?} given", df, f);
        }
    }
    let mut c = Chunked::gen(s, &bytes);
    for r in readers(Fmt::Ply) {
        let o = run(&mut c, r)?;
        ensure!(o.err.is_none(), format!("{} refuses {}", r.name, name), "{}: {:?} for {}", r.name, o.err, show(&bytes));
        if let Some(i) = diff(&o.points, &exp, same3) {
            return fail(&format!("{} after {}", r.name, name), format!("vertex {}: {:?} loaded, {:?} saved ({} of {}); {}", i, o.points.get(i), exp.get(i), o.points.len(), exp.len(), show(&bytes)));
        }
        if r.what != What::Points {
            ensure!(o.faces == f, format!("faces: {} after {}", r.name, name), "{:?} loaded, {:?} saved", o.faces, f);
        }
    }
    Ok(())
}

fn stl(s: &mut Src, ctx: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let exotic = s.chance(1, 4);
    let (v, f) = if s.huge {
        many(s)
    } else {
        let v: Vec<V3> = s.list(0, 30, |s| if exotic { vertex(s) } else { g.v3(s) });
        let f = if v.len() >= 3 { gen_faces(s, v.len(), 30) } else { vec![] };
        (v, f)
    };
    ctx.nontrivial(f.len() >= 2);
    ctx.desc(|| format!("vertices {:?} faces {:?}", v, f));
    let mut m = Mesh::default();
    add(&mut m, &v, &f);
    let bytes = save_all(s, "save_stl_ascii", &|w: &mut dyn Write| e(save_stl_ascii(&mut Dyn(w), &m)))?;
    let mut tris: Vec<[V3; 4]> = vec![];
    for (i, x) in f.iter().enumerate() {
        let n = match m.face_normal(FId(i)) {
            Ok(n) => v3(&n),
            Err(_) => [0.0; 3],
        };
        tris.push([v[x[0]], v[x[1]], v[x[2]], n]);
        // on the grid the direction is known
        if !exotic {
            let c = cross3(&sub3(&v[x[1]], &v[x[0]]), &sub3(&v[x[2]], &v[x[0]]));
            let l = len3(&c);
            let exp = if l > 0.0 { mul3(&c, 1.0 / l) } else { [0.0; 3] };
            ensure!((0..3).all(|d| close(exp[d].abs(), n[d].abs(), 1e-9)), "normal written", "normal {:?} for {:?}", n, tris[i]);
            ensure!(dot3(&exp, &n) >= 0.0, "normal reversed", "normal {:?} for {:?}", n, tris[i]);
        }
    }
    // the text itself follows the format
    let text = String::from_utf8_lossy(&bytes).to_string();
    let mut words: Vec<Vec<&str>> = text.lines().map(|l| l.split_whitespace().collect()).collect();
    ensure!(text.ends_with('\n') && words.len() == 2 + 7 * f.len(), "stl text", "{} lines for {} faces: {}", words.len(), f.len(), show(&bytes));
    ensure!(words[0][0] == "solid", "stl text", "starts with {:?}", words[0]);
    let last = words.pop().unwrap_or_default();
    ensure!(last.first() == Some(&"endsolid") && last[1..] == words[0][1..], "stl text", "{:?} is closed by {:?}", words[0], last);
    for (i, w) in words[1..].chunks(7).enumerate() {
        let numbers = |w: &[&str]| -> Option<V3> {
            let v: Vec<f64> = w.iter().filter_map(|x| x.parse().ok()).collect();
            if v.len() == 3 && w.len() == 3 { Some([v[0], v[1], v[2]]) } else { None }
        };
        let ok = w[0].len() == 5 && w[0][..2] == ["facet", "normal"] && w[1] == ["outer", "loop"] && w[2..5].iter().all(|x| x[0] == "vertex") && w[5] == ["endloop"] && w[6] == ["endfacet"];
        ensure!(ok, "stl text", "facet {} is written as {:?}", i, w);
        let got = [numbers(&w[2][1..]), numbers(&w[3][1..]), numbers(&w[4][1..]), numbers(&w[0][2..])];
        ensure!((0..4).all(|k| got[k].map_or(false, |x| same3(&x, &tris[i][k]))), "stl text", "facet {} {:?} is written as {:?}", i, tris[i], w);
    }
    let mut c = Chunked::gen(s, &bytes);
    for r in readers(Fmt::Stl).chain(STL_EXPLICIT[0]) {
        let o = run(&mut c, r)?;
        ensure!(o.err.is_none(), format!("{} refuses save_stl_ascii", r.name), "{}: {:?} for {}", r.name, o.err, show(&bytes));
        if r.what == What::Tris {
            if let Some(i) = diff(&o.tris, &tris, same_tri) {
                return fail(&format!("{} after save_stl_ascii", r.name), format!("triangle {}: {:?} loaded, {:?} saved ({} of {}); {}", i, o.tris.get(i), tris.get(i), o.tris.len(), tris.len(), show(&bytes)));
            }
        } else {
            super::c24_decode::check_unique(r.name, &tris, &o)?;
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "at least two points, respectively a mesh with faces",
        assumptions: &["coordinates are finite; xy and xyz are separated by repetitions of a single-byte delimiter and newlines", "the sink reports interruptions as such, everything else it reports is final"],
        subs: vec![sub("xy-xyz", 120_000, xy).large(300), sub("ply", 160_000, ply).large(300), sub("ply-many", 240, ply_many), sub("stl", 100_000, stl).large(300), sub("xy-xyz-many", 80, xy).huge(), sub("stl-many", 100, stl).huge()],
    }
}
