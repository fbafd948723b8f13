//! C26: truncated or failing input is never reported as a complete load
use super::c24_decode::name;
use super::common::*;
use super::iofmt::*;
use crate::engine::*;
use crate::ensure;

fn in_ranges(r: &[(usize, usize)], x: usize) -> bool {
    r.iter().any(|(a, b)| *a <= x && x <= *b)
}
/// number of elements complete within the first `cut` bytes
fn complete(spans: &[(usize, usize)], cut: usize) -> usize {
    spans.iter().take_while(|s| s.1 <= cut).count()
}

/// `got` must be the start of `exp`, with up to `n` elements (plus a single altered one)
fn prefix<T: std::fmt::Debug>(what: &str, r: &Reader, got: &[T], exp: &[T], n: usize, altered: bool, eq: impl Fn(&T, &T) -> bool) -> Res {
    for i in 0..got.len().min(n) {
        ensure!(eq(&got[i], &exp[i]), format!("altered {}: {}", what, r.name), "{}: {} {} is {:?}, file says {:?}", r.name, what, i, got[i], exp[i]);
    }
    let most = n + altered as usize;
    ensure!(got.len() <= most, format!("invented {}: {}", what, r.name), "{}: delivers {} {}s, only {} can be known", r.name, got.len(), what, most);
    Ok(())
}

fn check(f: &File, r: &Reader, o: &Out, cut: usize, failing: bool) -> Res {
    ensure!(!o.unfused, format!("not fused: {}", r.name), "{} delivers after its end", r.name);
    let as_mesh = match r.what {
        What::Points => false,
        What::Either => f.mesh,
        _ => true,
    };
    if as_mesh && !f.mesh {
        ensure!(o.err.is_some(), format!("no error: {}", r.name), "{} succeeded without faces", r.name);
        return Ok(());
    }
    let must = if as_mesh { &f.must_mesh } else { &f.must_points };
    let spans = if as_mesh && !f.fspans.is_empty() { &f.fspans } else { &f.pspans };
    let last = spans.last().map(|s| s.1).unwrap_or(0);
    let must_fail = if failing {
        // an ASCII STL ends with endsolid, whatever follows isn't read
        let last = if r.fmt == Fmt::Stl { f.bytes.windows(8).rposition(|w| w == b"endsolid").unwrap_or(0) + 8 } else { last };
        f.to_eof || in_ranges(must, cut) || (f.text && cut <= last)
    } else {
        in_ranges(must, cut)
    };
    let what = if failing { "failing read" } else { "truncated" };
    ensure!(
        !must_fail || o.err.is_some(),
        format!("{} not reported: {}", what, r.name),
        "{} at {} of {}: {} succeeds with {} points, {} faces, {} triangles of {}, {}, {}",
        what, cut, f.bytes.len(), r.name, o.points.len(), o.faces.len(), o.tris.len(), f.points.len(), f.faces.len(), f.tris.len()
    );
    let altered = f.text && !failing;
    let (np, nf) = (complete(&f.pspans, cut), complete(&f.fspans, cut));
    match r.what {
        What::Points | What::Mesh | What::Either => {
            prefix("point", r, &o.points, &f.points, np, altered, same3)?;
            prefix("face", r, &o.faces, &f.faces, nf, altered, |a, b| a == b)?;
            if o.err.is_none() {
                ensure!(o.points.len() >= np, format!("lost points: {}", r.name), "{} at {}: {} succeeds with {} of {} points", what, cut, r.name, o.points.len(), np);
                ensure!(!as_mesh || o.faces.len() >= nf, format!("lost faces: {}", r.name), "{} at {}: {} succeeds with {} of {} faces", what, cut, r.name, o.faces.len(), nf);
            }
        }
        What::Tris => {
            prefix("triangle", r, &o.tris, &f.tris, nf, false, same_tri)?;
            if o.err.is_none() {
                ensure!(o.tris.len() == nf, format!("lost triangles: {}", r.name), "{} at {}: {} succeeds with {} of {} triangles", what, cut, r.name, o.tris.len(), nf);
            }
        }
        What::Unique => {
            let exp = spanning(&f.tris[..nf]);
            // equal positions might differ in the sign of zero
            let eq = |a: &V3, b: &V3| (0..3).all(|d| a[d] == b[d] || same(a[d], b[d]));
            prefix("triangle", r, &o.tris, &exp, exp.len(), false, |a, b| (0..4).all(|k| eq(&a[k], &b[k])))?;
            if o.err.is_none() {
                ensure!(o.tris.len() == exp.len(), format!("lost triangles: {}", r.name), "{} at {}: {} succeeds with {} of {} triangles", what, cut, r.name, o.tris.len(), exp.len());
            }
        }
    }
    Ok(())
}

fn case(s: &mut Src, ctx: &mut Ctx, failing: bool) -> Res {
    let fmt = *s.pick(&FMTS);
    let f = if s.huge { gen_many(s, fmt) } else { gen(s, fmt) };
    ctx.label(name(fmt));
    let len = f.bytes.len();
    // anywhere, or close to a place that matters
    let cut = match s.below(4) {
        0 | 1 => s.draw(len as u64) as usize,
        2 => len - s.below(len.min(12) + 1),
        _ => {
            let mut marks: Vec<usize> = vec![];
            for x in f.pspans.iter().chain(&f.fspans).chain(&f.must_points).chain(&f.must_mesh) {
                marks.push(x.0);
                marks.push(x.1);
            }
            if marks.is_empty() {
                s.draw(len as u64) as usize
            } else {
                let m = *s.pick(&marks);
                (m + s.below(3)).saturating_sub(1).min(len)
            }
        }
    };
    ctx.nontrivial(f.points.len() + f.tris.len() >= 2 && cut > 0 && cut < len);
    let mut c = if failing { Chunked::gen(s, &f.bytes) } else { Chunked::gen(s, &f.bytes[..cut]) };
    if failing {
        c.fail_at = Some(cut);
    }
    ctx.desc(|| format!("{:?} {} at {} of {}: \"{}\"", fmt, if failing { "reads fail" } else { "truncated" }, cut, len, show(&f.bytes)));
    let mut lists: Vec<&Reader> = readers(fmt).collect();
    if fmt == Fmt::Stl {
        lists.extend(STL_EXPLICIT[f.stl_binary as usize]);
    }
    let (mut ok, mut bad) = (false, false);
    for r in lists {
        c.rewind();
        let o = no_panic(r.name, || (r.run)(&mut c))?;
        ok |= o.err.is_none();
        bad |= o.err.is_some();
        check(&f, r, &o, cut, failing)?;
    }
    ctx.label_if(bad, "a reader reports an error");
    ctx.label_if(ok, "a reader succeeds");
    Ok(())
}

fn truncated(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, false)
}
fn failing(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, true)
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "a valid file of at least two elements cut, or with reads failing, strictly inside of it",
        assumptions: &["formats not announcing their number of elements (xy, xyz, gcode, obj, ASCII STL between facets) can't be recognised as truncated at the boundary of an element", "a truncated text file might end within a number, which then is read as a shorter one: the last element may differ", "an ASCII STL cut exactly between two facets is accepted"],
        subs: vec![sub("truncated", 600_000, truncated).large(300), sub("failing-read", 600_000, failing).large(300), sub("truncated-many", 200, truncated).huge(), sub("failing-read-many", 200, failing).huge()],
    }
}
