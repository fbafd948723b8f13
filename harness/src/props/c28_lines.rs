//! C28: load errors of text files name the line they're about
use super::c24_decode::name;
use super::common::*;
use super::iofmt::*;
use crate::engine::*;
use crate::ensure;

const TEXT: [Fmt; 9] = [Fmt::Xy, Fmt::Xyz, Fmt::Pts, Fmt::Ptx, Fmt::Gcode, Fmt::Obj, Fmt::Off, Fmt::Ply, Fmt::Stl];
/// never a number, nor a keyword
const JUNK: [&str; 10] = ["nope", "1.2.3", "--5", "1e", "0x10", "?", "12a", "e5", "\u{e9}", "1_000"];

/// (start, end without line ending) of all lines
fn lines(b: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut a = 0;
    for (i, c) in b.iter().enumerate() {
        if *c == b'\n' {
            out.push((a, i));
            a = i + 1;
        }
    }
    if a < b.len() {
        out.push((a, b.len()));
    }
    out
}
fn line_of(l: &[(usize, usize)], x: usize) -> usize {
    l.iter().position(|(a, b)| *a <= x && x <= *b).expect("within the file")
}
/// words of a line
fn words(b: &[u8], (a, e): (usize, usize)) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut i = a;
    while i < e {
        if b[i].is_ascii_whitespace() {
            i += 1;
            continue;
        }
        let s = i;
        while i < e && !b[i].is_ascii_whitespace() {
            i += 1;
        }
        out.push((s, i));
    }
    out
}
/// does the error name this line?
fn names(err: &str, n: usize, text: &[u8]) -> bool {
    let t = String::from_utf8_lossy(text).to_string();
    [&t[..], t.trim_end(), t.trim_start(), t.trim()].iter().any(|t| err.starts_with(&format!("Line({}, {:?}, ", n, t)))
}

/// one line can't be parsed
fn broken(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fmt = *s.pick(&TEXT);
    let f = if s.huge { gen_many(s, fmt) } else { gen(s, fmt) };
    ctx.label(name(fmt));
    if !f.text {
        ctx.label("binary");
        return Ok(());
    }
    let ls = lines(&f.bytes);
    // where to break: (word to replace, concerns points, concerns meshes)
    let mut spots: Vec<((usize, usize), bool, bool)> = vec![];
    match fmt {
        Fmt::Stl => {
            for l in &ls[1.min(ls.len())..] {
                let w = words(&f.bytes, *l);
                if w.is_empty() || f.bytes[w[0].0..].starts_with(b"endsolid") {
                    continue;
                }
                let vertex = f.bytes[w[0].0..].starts_with(b"vertex");
                spots.push((if vertex { w[w.len().min(4) - 1] } else { w[0] }, false, true));
            }
        }
        _ => {
            spots.extend(f.pspans[..].iter().map(|x| (*x, true, true)));
            spots.extend(f.fspans[..].iter().map(|x| (*x, false, true)));
        }
    }
    let elements = spots.len();
    // announcements
    spots.extend(f.heads[..].iter().map(|x| (*x, true, true)));
    let mut vertex = false;
    for l in &ls {
        let w = words(&f.bytes, *l);
        let word = |i: usize| if i < w.len() { &f.bytes[w[i].0..w[i].1] } else { &[] };
        if w.is_empty() || word(0).starts_with(b"#") || word(0).starts_with(b"OFF") {
            continue;
        }
        if fmt == Fmt::Pts || fmt == Fmt::Off {
            spots.push((w[0], true, true));
            if fmt == Fmt::Off && w.len() > 1 {
                spots.push((w[1], false, true));
            }
            break;
        }
        if fmt != Fmt::Ply || word(0) == b"end_header" {
            break;
        }
        match (word(0), word(1)) {
            (b"format", _) => spots.push((w[1], true, true)),
            (b"element", x) => {
                vertex = x == b"vertex";
                if vertex || x == b"face" {
                    spots.push((w[2], vertex, true));
                }
            }
            (b"property", _) if vertex && w.len() == 3 => spots.push((w[1], true, true)),
            _ => (),
        }
    }
    if spots.is_empty() {
        return Ok(());
    }
    let i = if s.huge && spots.len() > elements && s.bool() { s.usize(elements, spots.len() - 1) } else { s.below(spots.len()) };
    let head = i >= elements;
    judge(s, ctx, fmt, &f, spots[i], head)
}
/// far down a long file
fn long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fmt = *s.pick(&TEXT);
    let f = gen_many(s, fmt);
    ctx.label(name(fmt));
    if !f.text {
        ctx.label("binary");
        return Ok(());
    }
    let in_faces = !f.faces.is_empty() && s.chance(1, 3);
    let of = if in_faces { &f.fspans } else { &f.pspans };
    let k = of.len() - 1 - if s.bool() { s.below(of.len().min(9)) } else { s.below(of.len()) };
    let spot = (of[k], !in_faces && fmt != Fmt::Stl, true);
    judge(s, ctx, fmt, &f, spot, false)
}
fn judge(s: &mut Src, ctx: &mut Ctx, fmt: Fmt, f: &File, (at, points, meshes): ((usize, usize), bool, bool), head: bool) -> Res {
    let mut junk = s.pick(&JUNK).to_string();
    if fmt == Fmt::Gcode {
        junk = format!("{}{}", f.bytes[at.0] as char, junk);
    }
    let mut b = f.bytes[..at.0].to_vec();
    b.extend_from_slice(junk.as_bytes());
    b.extend_from_slice(&f.bytes[at.1..]);
    let bl = lines(&b);
    let n = line_of(&bl, at.0);
    let text = &b[bl[n].0..bl[n].1];
    // what comes before the line
    let before = |sp: &[(usize, usize)]| sp.iter().filter(|x| x.1 <= bl[n].0).count();
    let (np, nf) = (before(&f.pspans), before(&f.fspans));
    ctx.label_if(head, "announcement broken");
    ctx.label_if(n > 65536, "after more than 65536 lines");
    ctx.nontrivial(n > 0 && np + nf > 0);
    let mut c = Chunked::gen(s, &b);
    ctx.desc(|| format!("{:?} with line {} broken: \"{}\" in \"{}\"", fmt, n + 1, show(text), show(&b)));
    let mut lists: Vec<&Reader> = readers(fmt).collect();
    if fmt == Fmt::Stl {
        lists.extend(STL_EXPLICIT[0]);
    }
    for r in lists {
        let as_mesh = match r.what {
            What::Points => false,
            What::Either => f.mesh,
            _ => true,
        };
        if (as_mesh && !f.mesh) || !(if as_mesh { meshes } else { points }) {
            continue;
        }
        c.rewind();
        let o = no_panic(r.name, || (r.run)(&mut c))?;
        let e = match &o.err {
            None => return fail(&format!("broken line accepted: {}", r.name), format!("{} accepts line {} \"{}\"", r.name, n + 1, show(text))),
            Some(e) => e,
        };

        {
            ensure!(names(e, n + 1, text) || (head && e.starts_with(&format!("Index({}, ", n + 1))), format!("wrong line named: {}", r.name), "{}: line {} \"{}\" is broken, but the error is {}", r.name, n + 1, show(text), e);
        }
        match r.what {
            What::Points | What::Mesh | What::Either => {
                ensure!(o.points.len() == np && diff(&o.points, &f.points[..np], same3).is_none(), format!("content before the error: {}", r.name), "{}: {} points delivered, {} lie before the broken line {}", r.name, o.points.len(), np, n + 1);
                if as_mesh {
                    ensure!(o.faces[..] == f.faces[..nf], format!("content before the error: {}", r.name), "{}: {} faces delivered, {} lie before the broken line {}", r.name, o.faces.len(), nf, n + 1);
                }
            }
            What::Tris => ensure!(o.tris.len() == nf && diff(&o.tris, &f.tris[..nf], same_tri).is_none(), format!("content before the error: {}", r.name), "{}: {} triangles delivered, {} lie before the broken line {}", r.name, o.tris.len(), nf, n + 1),
            What::Unique => (),
        }
    }
    Ok(())
}

/// the file ends, or reading fails, too early: the number of lines read so far is named
fn early(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fmt = *s.pick(&TEXT);
    let f = if s.huge { gen_many(s, fmt) } else { gen(s, fmt) };
    ctx.label(name(fmt));
    if !f.text {
        ctx.label("binary");
        return Ok(());
    }
    let failing = s.bool();
    let ls = lines(&f.bytes);
    if ls.is_empty() {
        return Ok(());
    }
    // at the start of a line or anywhere
    let cut = match s.weighted(&[2, 1, 1]) {
        0 => s.below(f.bytes.len()),
        1 => s.pick(&ls).0,
        _ => ls[ls.len() - 1 - s.below(ls.len().min(8))].0,
    };
    let mut c = if failing { Chunked::gen(s, &f.bytes) } else { Chunked::gen(s, &f.bytes[..cut]) };
    if failing {
        c.fail_at = Some(cut);
    }
    let n = if failing { f.bytes[..cut].iter().filter(|x| **x == b'\n').count() } else { lines(&f.bytes[..cut]).len() };
    ctx.desc(|| format!("{:?} {} at {}, {} lines read: \"{}\"", fmt, if failing { "reads fail" } else { "truncated" }, cut, n, show(&f.bytes)));
    let mut lists: Vec<&Reader> = readers(fmt).collect();
    if fmt == Fmt::Stl {
        lists.extend(STL_EXPLICIT[0]);
    }
    for r in lists {
        c.rewind();
        let o = no_panic(r.name, || (r.run)(&mut c))?;
        if let Some(e) = &o.err {
            if e.starts_with("Index(") {
                ctx.nontrivial(n > 1);
                ctx.label("an error with a line number");
                ensure!(e.starts_with(&format!("Index({}, ", n)), format!("wrong line counted: {}", r.name), "{}: {} lines could be read, but the error is {}", r.name, n, e);
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "broken: a text file with one of its words replaced so that the line can't be parsed, neither on the first line nor before the first element; early: an error carrying a line number after at least two lines",
        assumptions: &["errors about announcements may give the number of the line only", "lines are counted from one", "the text of the line is compared without white space at its ends", "an unparsable facet normal of an ASCII STL is no error, its normal is replaced"],
        subs: vec![sub("broken", 300_000, broken).large(100), sub("long", 300, long), sub("early", 300_000, early).large(100), sub("broken-many", 250, broken).huge(), sub("early-many", 250, early).huge()],
    }
}
