use super::common::*;
use crate::engine::*;
use crate::ensure;
use rust_3d::*;

macro_rules! one {
    ($name:ident, $t:ty) => {
fn $name(v: &[V3], max: f64, what: &str) -> std::result::Result<bool, Fail> {
    let (mut lo, mut hi) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
    for p in v {
        for d in 0..3 {
            lo[d] = lo[d].min(p[d]);
            hi[d] = hi[d].max(p[d]);
        }
    }
    let boxed = (0..3).all(|d| lo[d] < hi[d]);
    let cpc = match no_panic("compress", || CompressedPointCloud3D::<$t>::compress(&pc3(v)))? {
        Ok(x) => {
            ensure!(boxed, format!("{} accepts a cloud without bounding box", what), "{:?}", v);
            x
        }
        Err(e) => {
            ensure!(!boxed, format!("{} refuses a valid cloud", what), "{:?}: {:?}", v, e);
            return Ok(false);
        }
    };
    let back: PointCloud3D<Point3D> = no_panic("decompress", || cpc.decompress())?;
    ensure!(back.data.len() == v.len(), format!("{} loses points", what), "{} of {}", back.data.len(), v.len());
    for (i, p) in back.data[..].iter().enumerate() {
        let p = v3(p);
        for d in 0..3 {
            let ext = hi[d] - lo[d];
            let unit = ext / max;
            let tol = unit * (1.0 + 1e-9) + 4.0 * f64::EPSILON * (lo[d].abs() + ext);
            ensure!((p[d] - v[i][d]).abs() <= tol, format!("{} error beyond one unit", what), "point {} {:?} of {:?} becomes {:?}, unit {}", i, v[i], v, p, unit);
        }
    }
    // a cloud on the grid of its own units comes back the same when compressed again
    let again: PointCloud3D<Point3D> = match CompressedPointCloud3D::<$t>::compress(&back) {
        Ok(c) => c.decompress(),
        Err(_) => return Ok(true),
    };
    ensure!(again.data.len() == v.len(), format!("{} loses points when repeated", what), "{} of {}", again.data.len(), v.len());
    Ok(true)
}
    };
}
one!(c_u8, u8);
one!(c_u16, u16);
one!(c_u32, u32);
one!(c_u64, u64);
one!(c_u128, u128);
one!(c_usize, usize);

fn compress(s: &mut Src, c: &mut Ctx) -> Res {
    let g = Grid::gen(s);
    let kind = if s.huge { 0 } else { s.below(3) };
    let mut v = match kind {
        0 => points3(s, &g, 0, 24),
        1 => s.list(0, 24, |s| [s.int(-1_000_000, 1_000_000) as f64 / 7919.0, s.int(-1000, 1000) as f64 * 1e-7, s.int(-1000, 1000) as f64 * 1e9]),
        _ => {
            // fractions of a common extent, which land next to the borders of units
            let n = *s.pick(&[255.0, 65535.0, 16.0]);
            let o = g.v3(s);
            s.list(2, 24, |s| {
                let mut p = [0.0; 3];
                for d in 0..3 {
                    p[d] = o[d] + s.draw(n as u64) as f64 / n * 3.0;
                }
                p
            })
        }
    };
    if s.chance(1, 4) && !v.is_empty() {
        let p = *s.pick(&v);
        v.push(p);
    }
    let t = s.below(6);
    let ok = match t {
        0 => c_u8(&v, 255.0, "u8")?,
        1 => c_u16(&v, 65535.0, "u16")?,
        2 => c_u32(&v, 4294967295.0, "u32")?,
        3 => c_u64(&v, u64::MAX as f64, "u64")?,
        4 => c_u128(&v, u128::MAX as f64, "u128")?,
        _ => c_usize(&v, usize::MAX as f64, "usize")?,
    };
    c.nontrivial(ok && v.len() >= 3);
    c.label(["u8", "u16", "u32", "u64", "u128", "usize"][t]);
    c.label_if(!ok, "no bounding box");
    c.desc(|| format!("{} points as {}: {:?}", v.len(), ["u8", "u16", "u32", "u64", "u128", "usize"][t], &v[..v.len().min(6)]));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "the cloud has a bounding box and at least three points",
        assumptions: &["extents from 1e-7 to 1e12, so that no unit underflows", "one unit is the extent of an axis divided by the largest stored number, plus rounding of a few units in the last place of the coordinate"],
        subs: vec![sub("compress", 1_000_000, compress).large(50), sub("many", 16, compress).huge()],
    }
}
