//! C30: the end of a file iterator, or its error, is final
use super::c24_decode::name;
use super::c25_robust::mutate;
use super::common::*;
use super::iofmt::*;
use crate::engine::*;
use crate::ensure;

fn case(s: &mut Src, ctx: &mut Ctx, error: bool) -> Res {
    let fmt = *s.pick(&FMTS);
    let f = if s.huge { gen_many(s, fmt) } else { gen(s, fmt) };
    ctx.label(name(fmt));
    let mut b = f.bytes.clone();
    let damaged = s.chance(1, 3);
    if damaged {
        mutate(s, &mut b);
        ctx.label("damaged");
    }
    // ends of lines and elements, or anywhere
    let mut marks: Vec<usize> = f.pspans.iter().chain(&f.fspans).chain(&f.must_points).chain(&f.must_mesh).flat_map(|x| [x.0, x.1, x.1 + 1]).collect();
    marks.extend(b.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1));
    let mut at: Vec<usize> = s.list(1, 4, |s| if marks.is_empty() || s.chance(1, 3) { s.draw(b.len() as u64) as usize } else { *s.pick(&marks) });
    at.retain(|x| *x <= b.len());
    at.sort();
    let mut c = Chunked::gen(s, &b);
    c.stops = at.iter().map(|x| (*x, error || s.chance(1, 8))).collect();
    ctx.desc(|| format!("{:?}, reads {} at {:?} of {}: \"{}\"", fmt, if error { "fail once" } else { "pause" }, at, b.len(), show(&b)));
    let mut lists: Vec<&Reader> = readers(fmt).filter(|r| r.iter).collect();
    if fmt == Fmt::Stl {
        lists.extend(STL_EXPLICIT[f.stl_binary as usize].iter().filter(|r| r.iter));
    }
    for r in lists {
        c.rewind();
        let o = no_panic(r.name, || (r.run)(&mut c))?;
        ensure!(!o.unfused, format!("not fused: {}", r.name), "{} delivered {} points, {} faces, {} triangles, then {:?}, then something after that", r.name, o.points.len(), o.faces.len(), o.tris.len(), o.err);
        let more = c.pos < b.len();
        ctx.nontrivial(c.next_stop > 0 && more && o.points.len() + o.tris.len() > 0);
        ctx.label_if(o.err.is_some(), "ends with an error");
        ctx.label_if(o.err.is_none() && more, "ends before the data");
    }
    Ok(())
}

fn paused(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, false)
}
fn recovering(s: &mut Src, ctx: &mut Ctx) -> Res {
    case(s, ctx, true)
}

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        rule: "an iterator that delivered something before the reader reported an end or a failure, with data left behind it",
        assumptions: &["after its end or first error an iterator is asked six more times"],
        subs: vec![sub("paused", 500_000, paused).large(100), sub("recovering", 500_000, recovering).large(100), sub("paused-many", 100, paused).huge(), sub("recovering-many", 100, recovering).huge()],
    }
}
