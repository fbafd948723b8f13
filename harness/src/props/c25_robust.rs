//! C25: no input makes a reader crash or hang
use super::c24_decode::name;
use super::common::*;
use super::iofmt::*;
use crate::alloc::peak;
use crate::engine::*;
use crate::ensure;

const WORDS: [&str; 113] = [
    "0", "1", "2", "3", "4", "-1", "-0", "0.5", "1e5", "1e999", "-1e-400", "nan", "NaN", "inf", "-inf", "+", "-", ".", "e", "1.2.3", "1e", "e5", "0x10", "255", "256", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "1000000000", "1000000001", "340282366920938463463374607431768211456", "12345678901234567890", "6148914691236517206",
    "OFF", "off", "#", "# x", "v", "vn", "vt", "vp", "f", "o", "s", "1/2/3", "1//2", "/", "//", "1/", "-1/2", "0/1",
    "solid", "endsolid", "facet", "facet normal", "outer loop", "vertex", "endloop", "endfacet",
    "ply", "format ascii 1.0", "format binary_little_endian 1.0", "format binary_big_endian 1.0", "element vertex", "element face", "element edge", "property float x", "property float y", "property float z", "property double x", "property double y", "property double z", "property uchar red", "property int8", "property list uchar int vertex_indices", "property list float float vertex_indices", "property list", "property", "element", "comment", "end_header", "format",
    "G0", "G1", "G2", "G3", "G90", "G91", "G92", "G", "X", "Y1", "Z-2.5", "E1", "X1Y2Z3", "X1.5e3", ";", "(", "LASF", "M104", "\u{0}", "\u{7f}", "\u{fc}", "\u{20ac}", "%",
];
const SEPS: [&str; 9] = [" ", "\n", "  ", "\t", "\r\n", ";", ",", "", "\r"];

/// bytes of interest within binary data
fn number(s: &mut Src, big: bool) -> Vec<u8> {
    let v = *s.pick(&[0i64, 1, 2, 3, -1, 127, 128, 255, 256, 32767, 65535, 1_000_000_000, 1_000_000_001, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, i64::MAX, i64::MIN]);
    let mut b: Vec<u8> = match s.below(4) {
        0 => (v as i8).to_le_bytes().to_vec(),
        1 => (v as i16).to_le_bytes().to_vec(),
        2 => (v as i32).to_le_bytes().to_vec(),
        _ => v.to_le_bytes().to_vec(),
    };
    if big {
        b.reverse();
    }
    b
}
fn word(s: &mut Src) -> Vec<u8> {
    if s.chance(1, 4) {
        format!("{}", s.int(-20, 300)).into_bytes()
    } else {
        s.pick(&WORDS).as_bytes().to_vec()
    }
}

/// offsets of words
fn words(b: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut a = None;
    for i in 0..=b.len() {
        let space = i == b.len() || matches!(b[i], b' ' | b'\n' | b'\r' | b'\t' | b';' | b',');
        match (space, a) {
            (false, None) => a = Some(i),
            (true, Some(x)) => {
                out.push((x, i));
                a = None;
            }
            _ => {}
        }
    }
    out
}

/// damages a file
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) -> usize {
    let ops = s.list(1, 6, |s| s.draw(u32::MAX as u64));
    for op in ops[..].iter() {
        let mut at = (*op as usize) % (b.len() + 1);
        if s.bool() {
            at %= 400; // headers matter most
        }
        at = at.min(b.len());
        let left = b.len() - at;
        match s.below(13) {
            0 if left > 0 => b[at] ^= 1 << s.below(8),
            1 if left > 0 => b[at] = s.draw(255) as u8,
            2 => {
                let n = s.below(left.min(20) + 1);
                b.drain(at..at + n);
            }
            3 => {
                let n = s.below(left.min(40) + 1);
                let x = b[at..at + n].to_vec();
                b.splice(at..at, x);
            }
            4 => {
                let w = word(s);
                b.splice(at..at, w);
            }
            5 | 6 | 7 => {
                // replace a word
                let ws = words(b);
                if !ws.is_empty() {
                    let (x, y) = ws[(*op as usize) % ws.len()];
                    let w = word(s);
                    b.splice(x..y, w);
                }
            }
            8 => {
                let big = s.bool();
                let w = number(s, big);
                for (i, x) in w.iter().enumerate() {
                    if at + i < b.len() {
                        b[at + i] = *x;
                    }
                }
            }
            9 => b.truncate(at),
            10 => {
                let sep = s.pick(&SEPS).as_bytes().to_vec();
                b.splice(at..at, sep);
            }
            11 => {
                // a whole line removed or doubled
                let start = b[..at].iter().rposition(|c| *c == b'\n').map(|x| x + 1).unwrap_or(0);
                let end = b[at..].iter().position(|c| *c == b'\n').map(|x| at + x + 1).unwrap_or(b.len());
                if s.bool() {
                    b.drain(start..end);
                } else {
                    let x = b[start..end].to_vec();
                    b.splice(start..start, x);
                }
            }
            _ => {
                // a part moved
                let n = s.below(left.min(60) + 1);
                let x: Vec<u8> = b.drain(at..at + n).collect();
                let to = s.draw(b.len() as u64) as usize;
                b.splice(to..to, x);
            }
        }
    }
    ops.len()
}

/// what holds for whatever bytes
pub fn check(r: &Reader, o: &Out, len: usize, mem: usize) -> Res {
    ensure!(!o.unfused, format!("not fused: {}", r.name), "{} delivers something after its end or an error", r.name);
    let limit = 200_000_000 + 400 * len;
    ensure!(mem <= limit, format!("memory: {}", r.name), "{} requests {} bytes for an input of {}", r.name, mem, len);
    let n = o.points.len().max(o.faces.len()).max(o.tris.len());
    ensure!(n <= len, format!("more elements than bytes: {}", r.name), "{} delivers {} elements out of {} bytes", r.name, n, len);
    if let Some(e) = &o.err {
        ensure!(!e.starts_with("NORMALS") && !e.starts_with("MIXED"), format!("inconsistent: {}", r.name), "{}: {}", r.name, e);
    }
    if o.was_mesh {
        for (i, f) in o.faces.iter().enumerate() {
            ensure!(f.iter().all(|v| *v < o.points.len()) && f[0] != f[1] && f[0] != f[2] && f[1] != f[2], format!("invalid face: {}", r.name), "{}: face {} is {:?} with {} vertices", r.name, i, f, o.points.len());
        }
    }
    Ok(())
}

fn run_all(s: &mut Src, ctx: &mut Ctx, b: &[u8], fmt: Option<Fmt>) -> Res {
    let mut c = Chunked::gen(s, b);
    let mut delivered = false;
    let mut list: Vec<&Reader> = READERS.iter().filter(|r| fmt.is_none() || Some(r.fmt) == fmt).collect();
    if fmt.is_none() || fmt == Some(Fmt::Stl) {
        list.extend(STL_EXPLICIT[0]);
        list.extend(STL_EXPLICIT[1]);
    }
    for r in list {
        c.rewind();
        let (o, mem) = peak(|| no_panic(r.name, || (r.run)(&mut c)));
        let o = o?;
        delivered |= o.points.len() + o.faces.len() + o.tris.len() > 0;
        check(r, &o, b.len(), mem)?;
    }
    ctx.label_if(delivered, "something delivered");
    ctx.nontrivial(delivered);
    Ok(())
}

fn damaged(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fmt = *s.pick(&FMTS);
    let mut f = if s.huge { gen_many(s, fmt) } else { gen(s, fmt) };
    mutate(s, &mut f.bytes);
    ctx.label(name(fmt));
    ctx.desc(|| format!("{:?}: \"{}\"", fmt, show(&f.bytes)));
    run_all(s, ctx, &f.bytes, Some(fmt))
}
fn foreign(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fmt = *s.pick(&FMTS);
    let mut f = gen(s, fmt);
    if s.bool() {
        mutate(s, &mut f.bytes);
    }
    ctx.desc(|| format!("{:?}: \"{}\"", fmt, show(&f.bytes)));
    run_all(s, ctx, &f.bytes, None)
}
fn soup(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b: Vec<u8> = vec![];
    if s.chance(1, 3) {
        b.extend_from_slice(s.pick(&["ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 2\nproperty list uchar int vertex_indices\nend_header\n", "ply\nformat ascii 1.0\n", "ply\nformat binary_big_endian 1.0\nelement vertex 2\n", "OFF\n", "OFF\n3 1 0\n", "solid\n", "solid x\nfacet normal 0 0 1\nouter loop\n", "3\n", "2\n2\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n", "G91\n", "v 0 0 0\nv 1 1 1\nv 2 2 3\n"]).as_bytes());
    }
    for (w, sep) in s.list(0, 60, |s| (word(s), *s.pick(&SEPS))) {
        b.extend(w);
        b.extend_from_slice(sep.as_bytes());
    }
    ctx.desc(|| format!("\"{}\"", show(&b)));
    run_all(s, ctx, &b, None)
}
fn bytes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.weighted(&[3, 3, 1]);
    let len = match n {
        0 => s.below(30),
        1 => s.below(300),
        _ => 3000 + s.below(3000),
    };
    let kind = s.below(3);
    let mut b = vec![];
    for _ in 0..len {
        b.push(match kind {
            0 => s.draw(255) as u8,
            1 => *s.pick(b"0123456789 \n\t.-e;/vfG#"),
            _ => *s.pick(&[0u8, 1, 3, 255, 127, 128]),
        });
    }
    ctx.desc(|| format!("\"{}\"", show(&b)));
    run_all(s, ctx, &b, None)
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "bytes out of which at least one reader delivers at least one element",
        assumptions: &["streams end: reading past their end keeps delivering nothing", "memory: at most 200 MB plus 400 times the length of the input are requested at any time (readers reserve for up to a million announced elements)"],
        subs: vec![sub("damaged", 600_000, damaged).large(300), sub("foreign", 120_000, foreign).large(300), sub("soup", 180_000, soup).large(300), sub("bytes", 90_000, bytes).large(300), sub("damaged-many", 150, damaged).huge()],
    }
}
