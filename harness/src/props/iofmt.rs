//! Generators of valid files per format with what they describe, and all readers under one interface
use super::common::*;
use crate::engine::*;
use rust_3d::io::*;
use rust_3d::*;

pub type Mesh = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
pub type MeshD = Mesh3D<Point3D, PointCloud3D<Point3D>, DynamicPrecisionIndexVec>;
pub type MeshU = Mesh3D<Point3D, PointCloud3D<Point3D>, U32IndexVec>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    Xy,
    Xyz,
    Pts,
    Ptx,
    Gcode,
    Psl,
    Las,
    Obj,
    Off,
    Ply,
    Stl,
}
pub const FMTS: [Fmt; 11] = [Fmt::Xy, Fmt::Xyz, Fmt::Pts, Fmt::Ptx, Fmt::Gcode, Fmt::Psl, Fmt::Las, Fmt::Obj, Fmt::Off, Fmt::Ply, Fmt::Stl];

/// What a file describes
#[derive(Clone, Debug, Default)]
pub struct File {
    pub bytes: Vec<u8>,
    pub points: Vec<V3>,
    pub faces: Vec<[usize; 3]>,
    pub tris: Vec<[V3; 4]>,
    /// (start of the last required token, its end) per point / face / triangle; cut up to start: missing, cut from end on: complete
    pub pspans: Vec<(usize, usize)>,
    pub fspans: Vec<(usize, usize)>,
    /// inclusive ranges of lengths at which a truncated file is missing announced content
    pub must_points: Vec<(usize, usize)>,
    pub must_mesh: Vec<(usize, usize)>,
    /// announced numbers of points and faces
    pub announced: Vec<(usize, usize)>,
    /// readers read to the very end
    pub to_eof: bool,
    /// elements are separated by lines
    pub text: bool,
    /// mesh readers apply
    pub mesh: bool,
    /// everything needed is contained in so many bytes
    pub stl_binary: bool,
    pub extras: u32,
    /// words of announcements which must be numbers (ptx)
    pub heads: Vec<(usize, usize)>,
}

impl File {
    fn spans(&mut self) -> impl Iterator<Item = &mut (usize, usize)> {
        self.pspans.iter_mut().chain(self.fspans.iter_mut()).chain(self.heads.iter_mut())
    }
    /// more text at the start of a line
    fn insert(&mut self, at: usize, text: &[u8]) {
        let k = text.len();
        for x in self.spans() {
            if x.0 >= at {
                *x = (x.0 + k, x.1 + k);
            }
        }
        for x in self.must_points.iter_mut().chain(self.must_mesh.iter_mut()) {
            x.0 += if x.0 > at { k } else { 0 };
            x.1 += if x.1 > at { k } else { 0 };
        }
        self.bytes.splice(at..at, text.iter().cloned());
    }
    /// another file of points behind this one
    fn append(&mut self, mut o: File) {
        if !self.bytes.is_empty() && !self.bytes.ends_with(b"\n") {
            self.bytes.push(b'\n');
        }
        let k = self.bytes.len();
        for x in o.spans() {
            *x = (x.0 + k, x.1 + k);
        }
        self.pspans.extend(&o.pspans[..]);
        self.heads.extend(&o.heads[..]);
        self.must_points.extend(o.must_points[..].iter().map(|x| (x.0 + k, x.1 + k)));
        self.announced.extend(&o.announced[..]);
        self.points.extend(&o.points[..]);
        self.bytes.extend(&o.bytes[..]);
        self.extras += o.extras;
    }
}
/// what else makes a file long
fn lengthen(s: &mut Src, fmt: Fmt, mut f: File) -> File {
    match fmt {
        Fmt::Pts | Fmt::Ptx => {
            let few = if fmt == Fmt::Pts { gen_pts(s) } else { gen_ptx(s) };
            match s.below(3) {
                0 => f.append(few),
                1 => {
                    let last = std::mem::replace(&mut f, few);
                    f.append(last);
                }
                _ => (),
            }
        }
        Fmt::Gcode => {
            if s.bool() {
                f.insert(0, b"G90\n");
                let last = std::mem::replace(&mut f, gen_gcode(s));
                f.append(last);
            }
        }
        _ => (),
    }
    let mark: &[u8] = match fmt {
        Fmt::Gcode => b";",
        Fmt::Obj | Fmt::Off => b"#",
        Fmt::Ply => b"comment",
        _ => return f,
    };
    if s.chance(1, 2) {
        return f;
    }
    // many remarks or a long one
    let mut text = vec![];
    for _ in 0..if s.bool() { big_count(s) } else { 1 } {
        text.extend(mark);
        text.extend(b" 3 0 1 2");
        text.push(b'\n');
    }
    if s.bool() {
        text.pop();
        for _ in 0..big_count(s) {
            text.extend(b" 7");
        }
        text.push(b'\n');
    }
    let after = |at: usize, b: &[u8]| b[at..].iter().position(|x| *x == b'\n').map_or(b.len(), |i| at + i + 1);
    let at = match fmt {
        Fmt::Ply => {
            let mut at = 0;
            for _ in 0..1 + s.below(6) {
                at = after(at, &f.bytes);
            }
            at
        }
        Fmt::Off if s.bool() => after(0, &f.bytes),
        _ => {
            let all = if s.bool() && !f.fspans.is_empty() { &f.fspans } else { &f.pspans };
            if all.is_empty() { 0 } else { after(s.pick(all).1, &f.bytes) }
        }
    };
    f.insert(at, &text);
    f
}

//------------------------------------------------------------------------------
// writing text

pub struct W {
    pub b: Vec<u8>,
    nl: &'static [u8],
    trail: bool,
    wide: bool,
    pub extras: u32,
}
impl W {
    fn new(s: &mut Src) -> W {
        let nl: &'static [u8] = if s.chance(1, 3) { b"\r\n" } else { b"\n" };
        let trail = s.chance(1, 5);
        let wide = s.chance(1, 4);
        let mut w = W { b: vec![], nl, trail, wide, extras: 0 };
        w.extras += (nl.len() == 2) as u32 + trail as u32 + wide as u32;
        w
    }
    fn tok(&mut self, t: &str) -> (usize, usize) {
        let a = self.b.len();
        self.b.extend_from_slice(t.as_bytes());
        (a, self.b.len())
    }
    fn sep(&mut self, s: &mut Src) {
        if self.wide {
            for _ in 0..1 + s.below(3) {
                let c = if s.bool() { b'\t' } else { b' ' };
                self.b.push(c);
            }
        } else {
            self.b.push(b' ');
        }
    }
    fn lead(&mut self, s: &mut Src) {
        if self.wide && s.chance(1, 3) {
            self.sep(s);
        }
    }
    fn eol(&mut self, s: &mut Src) {
        if self.trail && s.chance(1, 3) {
            for _ in 0..1 + s.below(3) {
                let c = if s.bool() { b'\t' } else { b' ' };
                self.b.push(c);
            }
        }
        let nl = self.nl;
        self.b.extend_from_slice(nl);
    }
    /// line without trailing white space
    fn line(&mut self, t: &str) {
        self.b.extend_from_slice(t.as_bytes());
        let nl = self.nl;
        self.b.extend_from_slice(nl);
    }
    fn blanks(&mut self, s: &mut Src) {
        if s.chance(1, 8) {
            self.extras += 1;
            for _ in 0..1 + s.below(2) {
                self.eol(s);
            }
        }
    }
    fn nums(&mut self, s: &mut Src, v: &[String]) -> Vec<(usize, usize)> {
        let mut out = vec![];
        for (i, t) in v.iter().enumerate() {
            if i > 0 {
                self.sep(s);
            }
            out.push(self.tok(t));
        }
        out
    }
    /// maybe drop the last newline
    fn finish(mut self, s: &mut Src) -> (Vec<u8>, u32) {
        if s.chance(1, 3) && self.b.ends_with(self.nl) {
            let n = self.b.len() - self.nl.len();
            self.b.truncate(n);
            self.extras += 1;
        }
        (self.b, self.extras)
    }
}

/// textual number and its value
pub fn num(s: &mut Src) -> (String, f64) {
    let t = match s.weighted(&[6, 5, 3, 3, 1, 1, 1, 1, 1]) {
        0 => format!("{}", s.int(-999, 999)),
        1 => format!("{}", s.int(-99999, 99999) as f64 / 1000.0),
        2 => format!("{:e}", s.int(-99999, 99999) as f64 * 1e-9),
        3 => {
            let x = f64::from_bits(s.draw(u64::MAX));
            if x.is_finite() { format!("{:e}", x) } else { "0.1".to_string() }
        }
        4 => format!("+{}", s.below(100) as f64 / 8.0),
        5 => format!(".{}", s.below(1000)),
        6 => format!("{}.", s.below(1000)),
        7 => format!("00{}.50", s.below(100)),
        _ => (*s.pick(&["-0", "-0.0", "1E5", "1e-310", "1.7976931348623157e308", "4.9e-324", "123456789012345678901234567890", "0.1e+2"])).to_string(),
    };
    let v: f64 = t.parse().expect("generated number");
    (t, v)
}
fn nums3(s: &mut Src) -> (Vec<String>, V3) {
    let (a, b, c) = (num(s), num(s), num(s));
    (vec![a.0, b.0, c.0], [a.1, b.1, c.1])
}
fn more_words(s: &mut Src, v: &mut Vec<String>, max: usize) -> u32 {
    if s.chance(1, 3) {
        for _ in 0..1 + s.below(max) {
            let t = if s.bool() { format!("{}", s.below(256)) } else { num(s).0 };
            v.push(t);
        }
        1
    } else {
        0
    }
}
const NAMES: [&str; 6] = ["", "part", "v 1 2 3", "1 2 3", "endloop", "OFF"];

//------------------------------------------------------------------------------
// formats

/// delimiter separated, dim 2 or 3
fn gen_delim(s: &mut Src, dim: usize) -> File {
    let mut w = W::new(s);
    w.trail = false;
    let delim = *s.pick(&[b' ', b';', b',', b'\t']);
    let multi = s.chance(1, 5);
    let extra = if s.chance(1, 3) { 1 + s.below(3) } else { 0 };
    w.extras += multi as u32 + extra as u32;
    let n = s.list(0, 40, |_| ()).len();
    let mut f = File { text: true, to_eof: true, ..File::default() };
    for _ in 0..n {
        let mut p = [0.0; 3];
        let mut last = (0, 0);
        if multi && delim != b'\t' && s.chance(1, 4) {
            w.b.push(delim);
        }
        for k in 0..dim + extra {
            if k > 0 {
                for _ in 0..if multi { 1 + s.below(3) } else { 1 } {
                    w.b.push(delim);
                }
            }
            let (t, v) = num(s);
            let sp = w.tok(&t);
            if k < dim {
                p[k] = v;
                last = sp;
            }
        }
        w.line("");
        f.points.push(p);
        f.pspans.push(last);
    }
    let (b, x) = w.finish(s);
    f.bytes = b;
    f.extras = x;
    f
}

fn gen_pts(s: &mut Src) -> File {
    let mut w = W::new(s);
    let mut f = File { text: true, to_eof: true, ..File::default() };
    let blocks = 1 + if s.chance(1, 3) { s.below(3) } else { 0 };
    w.extras += (blocks > 1) as u32;
    for _ in 0..blocks {
        w.blanks(s);
        let n = s.list(0, 20, |_| ()).len();
        w.lead(s);
        let start = w.tok(&n.to_string()).0;
        w.eol(s);
        f.announced.push((n, 0));
        let mut need = start;
        for _ in 0..n {
            w.blanks(s);
            w.lead(s);
            let (mut t, p) = nums3(s);
            w.extras += more_words(s, &mut t, 4);
            let sp = w.nums(s, &t);
            w.eol(s);
            f.points.push(p);
            f.pspans.push(sp[2]);
            need = sp[2].0;
        }
        if n > 0 {
            f.must_points.push((start + 1, need));
        }
    }
    w.blanks(s);
    let (b, x) = w.finish(s);
    f.bytes = b;
    f.extras = x;
    f
}

/// number exactly representable with few bits, of any size
fn small(s: &mut Src, unit: f64) -> f64 {
    s.int(-64, 64) as f64 / 8.0 * unit
}

fn gen_ptx(s: &mut Src) -> File {
    let mut w = W::new(s);
    let mut f = File { text: true, to_eof: true, ..File::default() };
    let scans = s.usize(0, 2) + s.below(2);
    w.extras += (scans > 1) as u32;
    for _ in 0..scans {
        let (rows, cols) = (s.usize(0, 5), s.usize(0, 5));
        let sp = w.tok(&cols.to_string());
        let start = sp.0;
        f.heads.push(sp);
        w.eol(s);
        f.heads.push(w.tok(&rows.to_string()));
        w.eol(s);
        for _ in 0..4 {
            let (t, _) = nums3(s);
            w.nums(s, &t);
            w.eol(s);
        }
        let mut m = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]];
        // powers of two, single precision or decimals cut off lose something
        let unit = *s.pick(&[1.0, 1.0, 1.0, 1073741824.0, 1.0 / 1099511627776.0]);
        // a full mantissa: fine fractions of what is large, taken on by the matrix when points are coarse
        let fine = s.chance(1, 4);
        let mut general = false;
        let exact = match s.below(4) {
            0 => false,
            1 => {
                for k in 0..3 {
                    m[3][k] = small(s, unit) + if fine { s.int(-64, 64) as f64 * unit / 1073741824.0 } else { 0.0 };
                }
                true
            }
            2 => {
                // rotation by 90 degrees and translation
                let o = *s.pick(&[[0, 1, 2], [1, 0, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1]]);
                for r in 0..3 {
                    for c in 0..3 {
                        m[r][c] = 0.0;
                    }
                    m[r][o[r]] = if s.bool() { -1.0 } else { 1.0 };
                    m[3][r] = small(s, unit);
                }
                true
            }
            _ => {
                general = true;
                for r in 0..4 {
                    for c in 0..3 {
                        m[r][c] = small(s, if r == 3 { unit * 8.0 } else { unit }) + if fine { s.int(-64, 64) as f64 * unit / 1073741824.0 } else { 0.0 };
                    }
                }
                true
            }
        };
        w.extras += exact as u32;
        let mut need = start;
        for r in 0..4 {
            let t: Vec<String> = m[r].iter().map(|x| format!("{}", x)).collect();
            let sp = w.nums(s, &t);
            need = sp[3].0;
            f.heads.extend(&sp);
            w.eol(s);
        }
        f.announced.push((rows * cols, 0));
        for _ in 0..rows * cols {
            w.lead(s);
            let (mut t, mut p) = if exact {
                // the sums stay exact
                let u = if general { 1.0 } else { unit.min(1.0) };
                let p = [small(s, u), small(s, u), small(s, u)];
                (p.iter().map(|x| format!("{}", x)).collect(), p)
            } else {
                nums3(s)
            };
            w.extras += more_words(s, &mut t, 4);
            let sp = w.nums(s, &t);
            w.eol(s);
            if exact {
                // row vector times matrix
                let q = p;
                for c in 0..3 {
                    p[c] = q[0] * m[0][c] + q[1] * m[1][c] + q[2] * m[2][c] + m[3][c];
                }
            }
            f.points.push(p);
            f.pspans.push(sp[2]);
            need = sp[2].0;
        }
        f.must_points.push((start + 1, need));
    }
    let (b, x) = w.finish(s);
    f.bytes = b;
    f.extras = x;
    f
}

fn gen_gcode(s: &mut Src) -> File {
    let mut w = W::new(s);
    let mut f = File { text: true, to_eof: true, ..File::default() };
    let n = s.list(0, 40, |_| ()).len();
    let mut pos = [0.0f64; 3];
    let mut rel = false;
    for _ in 0..n {
        w.blanks(s);
        match s.weighted(&[10, 2, 2, 2, 3, 2]) {
            0 | 3 => {
                let set = s.chance(1, 8);
                let cmd = if set { "G92" } else { *s.pick(&["G1", "G0", "G2", "G3", "G1"]) };
                w.lead(s);
                w.tok(cmd);
                let mut words: Vec<(usize, String, f64)> = vec![];
                for d in 0..3 {
                    if s.chance(2, 3) {
                        let (t, v) = num(s);
                        words.push((d, t, v));
                    }
                }
                if s.chance(1, 3) {
                    words.push((3, format!("{}", s.below(3000)), 0.0));
                }
                if s.chance(1, 3) {
                    words.push((4, format!("{}", s.below(100) as f64 / 7.0), 0.0));
                }
                s.shuffle(&mut words);
                let mut last = (0, 0);
                let mut any = false;
                for (d, t, v) in &words {
                    w.sep(s);
                    let l = ["X", "Y", "Z", "F", "E"][*d];
                    let a = w.tok(l).0;
                    let e = w.tok(t).1;
                    if *d < 3 {
                        any = true;
                        last = (a, e);
                        if rel && !set {
                            pos[*d] += v;
                        } else {
                            pos[*d] = *v;
                        }
                    }
                }
                if s.chance(1, 5) {
                    w.extras += 1;
                    if s.bool() {
                        w.sep(s);
                    }
                    w.tok("; X9 comment Y8");
                }
                w.eol(s);
                if any {
                    f.points.push(pos);
                    f.pspans.push(last);
                }
            }
            1 => {
                w.tok("G90");
                rel = false;
                w.extras += 1;
                if s.bool() {
                    w.tok(*s.pick(&[" ; absolute", ";absolute", " "]));
                }
                w.eol(s);
            }
            2 => {
                w.tok("G91");
                rel = true;
                w.extras += 1;
                if s.bool() {
                    w.tok(*s.pick(&[" ; relative", ";relative", " "]));
                }
                w.eol(s);
            }
            4 => {
                w.extras += 1;
                w.tok(*s.pick(&["; G1 X1 Y2", "M104 S200", "M82", "G21", "G4 P100", "T0", "G17 ; XY", "M117 G1 X5", "(note)", ";", "N", "%"]));
                w.eol(s);
            }
            _ => {
                w.tok("G1 F1500");
                w.eol(s);
            }
        }
    }
    let (b, x) = w.finish(s);
    f.bytes = b;
    f.extras = x;
    f
}

fn le32(b: &mut Vec<u8>, x: i32) {
    b.extend_from_slice(&x.to_le_bytes());
}
fn junk(s: &mut Src, b: &mut Vec<u8>, n: usize) {
    let x = s.draw(u64::MAX);
    let mut r = x | 1;
    for i in 0..n {
        if x == 0 {
            b.push(0);
        } else {
            r = r.wrapping_mul(6364136223846793005).wrapping_add(i as u64 | 1);
            b.push((r >> 33) as u8);
        }
    }
}
fn float(s: &mut Src) -> f32 {
    match s.weighted(&[5, 3, 1]) {
        0 => s.int(-1000, 1000) as f32 / 8.0,
        1 => s.int(-1000000, 1000000) as f32 * 1.1e-3,
        _ => f32::from_bits(s.draw(u32::MAX as u64) as u32),
    }
}

fn gen_psl(s: &mut Src, long: bool) -> File {
    let mut f = File::default();
    let mut b = vec![];
    junk(s, &mut b, 4);
    le32(&mut b, 3);
    junk(s, &mut b, 128);
    let passes = s.below(4);
    le32(&mut b, passes as i32);
    le32(&mut b, s.below(2) as i32);
    junk(s, &mut b, 368);
    f.extras += (passes > 1) as u32;
    for _ in 0..passes {
        let lines = s.below(4);
        le32(&mut b, lines as i32);
        junk(s, &mut b, 4 + 56);
        f.extras += (lines > 1) as u32;
        for _ in 0..lines {
            let n = s.list(0, 12, |_| ()).len();
            let total = if long && n > 0 { n.max(big_count(s)) } else { n };
            le32(&mut b, total as i32);
            junk(s, &mut b, 12 + 48);
            let (first, points) = (b.len(), f.points.len());
            for _ in 0..n {
                let p = [float(s), float(s), float(s)];
                for x in p.iter() {
                    b.extend_from_slice(&x.to_le_bytes());
                }
                f.points.push([p[0] as f64, p[1] as f64, p[2] as f64]);
                f.pspans.push((b.len() - 1, b.len()));
            }
            for i in n..total {
                let at = first + i % n * 12;
                b.extend_from_within(at..at + 12);
                f.points.push(f.points[points + i % n]);
                f.pspans.push((b.len() - 1, b.len()));
            }
        }
    }
    f.must_points.push((0, b.len() - 1));
    if s.chance(1, 4) {
        let n = s.below(40);
        junk(s, &mut b, n);
        f.extras += 1;
    }
    f.bytes = b;
    f
}

fn gen_las(s: &mut Src, long: bool) -> File {
    let mut f = File::default();
    let minor = s.below(5);
    let hdr = match minor {
        0 | 1 | 2 => 227,
        3 => 235,
        _ => 375,
    };
    let user = if s.chance(1, 4) { s.below(20) } else { 0 };
    let vlr = if s.chance(1, 3) { s.below(200) } else { 0 };
    let fmt = s.below(match minor {
        0 | 1 => 2,
        2 => 4,
        3 => 6,
        _ => 11,
    });
    let extra = if s.chance(1, 3) { s.below(9) } else { 0 };
    let reclen = [20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67][fmt] + extra;
    let n = s.list(0, 40, |_| ()).len();
    let total = if long && n > 0 { n.max(big_count(s)) } else { n };
    let legacy = minor < 4 || (fmt < 6 && s.bool());
    let mut scale = [0.0f64; 3];
    let mut off = [0.0f64; 3];
    for d in 0..3 {
        scale[d] = *s.pick(&[1.0, 0.01, 0.001, 1e-7, 3e-11, 0.25, -0.5, 100.0, 7e6 / 3.0]);
        off[d] = *s.pick(&[0.0, 500000.0, -0.125, 1e-3, -4000000.5, 1.0 / 3e10]);
    }
    f.extras += (user > 0) as u32 + (vlr > 0) as u32 + (extra > 0) as u32 + (hdr < 375) as u32 + (!legacy) as u32;
    let mut b = vec![];
    b.extend_from_slice(b"LASF");
    junk(s, &mut b, 20);
    b.push(1);
    b.push(minor as u8);
    junk(s, &mut b, 64 + 4);
    b.extend_from_slice(&((hdr + user) as u16).to_le_bytes());
    b.extend_from_slice(&((hdr + user + vlr) as u32).to_le_bytes());
    b.extend_from_slice(&0u32.to_le_bytes());
    b.push(fmt as u8);
    b.extend_from_slice(&(reclen as u16).to_le_bytes());
    b.extend_from_slice(&(if legacy { total as u32 } else { 0 }).to_le_bytes());
    junk(s, &mut b, 20);
    for x in scale.iter().chain(off.iter()) {
        b.extend_from_slice(&x.to_le_bytes());
    }
    junk(s, &mut b, 48);
    if hdr >= 235 {
        junk(s, &mut b, 8);
    }
    if hdr >= 375 {
        junk(s, &mut b, 12);
        b.extend_from_slice(&(total as u64).to_le_bytes());
        junk(s, &mut b, 120);
    }
    assert!(b.len() == hdr);
    let need = b.len();
    junk(s, &mut b, user + vlr);
    f.announced.push((total, 0));
    f.must_points.push((0, need - 1));
    let first = b.len();
    for _ in 0..n {
        let raw = if s.chance(1, 6) {
            [s.draw(u32::MAX as u64) as u32 as i32, s.draw(u32::MAX as u64) as u32 as i32, i32::MIN]
        } else {
            [s.int(-100000, 100000) as i32, s.int(-1000, 1000) as i32, s.int(-9, 9) as i32]
        };
        let mut p = [0.0; 3];
        for d in 0..3 {
            le32(&mut b, raw[d]);
            p[d] = off[d] + (raw[d] as f64 * scale[d]);
        }
        junk(s, &mut b, reclen - 12);
        f.points.push(p);
        f.pspans.push((b.len() - 1, b.len()));
    }
    for i in n..total {
        let at = first + i % n * reclen;
        b.extend_from_within(at..at + reclen);
        f.points.push(f.points[i % n]);
        f.pspans.push((b.len() - 1, b.len()));
    }
    if n > 0 {
        f.must_points.push((need, b.len() - 1));
    }
    if s.chance(1, 4) {
        let n = s.below(60);
        junk(s, &mut b, n);
        f.extras += 1;
    }
    f.bytes = b;
    f
}

/// k distinct ids below n (k <= n)
pub fn distinct(s: &mut Src, n: usize, k: usize) -> Vec<usize> {
    let mut out: Vec<usize> = vec![];
    while out.len() < k {
        let mut x = s.below(n);
        while out[..].iter().any(|y| *y == x) {
            x = (x + 1) % n;
        }
        out.push(x);
    }
    out
}

/// around the limits of one and two bytes
fn big_count(s: &mut Src) -> usize {
    match s.below(5) {
        0 => 127 + s.below(4),
        1 => 255 + s.below(4),
        2 => 32767 + s.below(4),
        3 => 65535 + s.below(4),
        _ => s.usize(300, 80000),
    }
}
/// vertices around the limits of one and two bytes and faces using the last ones
pub fn many(s: &mut Src) -> (Vec<V3>, Vec<[usize; 3]>) {
    let n = big_count(s);
    let base: Vec<V3> = s.list(3, 7, |s| [s.int(-999, 999) as f64 / 8.0, s.int(-999, 999) as f64, s.int(-9, 9) as f64 / 4.0]);
    let v = (0..n).map(|i| add3(&base[i % base.len()], &[(i / 256) as f64, 0.0, (i % 256) as f64])).collect();
    let mut f = s.list(1, 12, |s| {
        let k = match s.below(3) {
            0 => s.below(n.min(12)),
            1 => n - 1 - s.below(n.min(12)),
            _ => s.below(n),
        };
        let mut ids = distinct(s, n, 2);
        for x in ids.iter_mut() {
            if s.bool() {
                *x = n - 1 - *x % 16;
            }
        }
        let mut f = [k, ids[0], ids[1]];
        for i in 1..3 {
            while f[..i].contains(&f[i]) {
                f[i] = (f[i] + 1) % n;
            }
        }
        f
    });
    // and as many faces, made from a single draw
    if s.chance(1, 3) {
        let nf = big_count(s);
        let mut r = Rng::new(s.draw(1 << 30));
        let m = n as u64;
        for _ in 0..nf {
            let (a, d) = (r.next() % m, 1 + r.next() % (m - 1));
            let e = (d + 1 + r.next() % (m - 2) - 1) % (m - 1) + 1;
            f.push([a as usize, ((a + d) % m) as usize, ((a + e) % m) as usize]);
        }
    }
    (v, f)
}

/// a valid file with many elements
pub fn gen_many(s: &mut Src, fmt: Fmt) -> File {
    let f = gen_long(s, fmt);
    lengthen(s, fmt, f)
}
fn gen_long(s: &mut Src, fmt: Fmt) -> File {
    use std::io::Write;
    match fmt {
        Fmt::Las => return gen_las(s, true),
        Fmt::Psl => return gen_psl(s, true),
        _ => (),
    }
    let (v, faces) = many(s);
    let n = v.len();
    let mut b: Vec<u8> = vec![];
    let meshes = matches!(fmt, Fmt::Obj | Fmt::Off | Fmt::Ply | Fmt::Stl);
    let mut f = File { mesh: meshes, text: true, extras: 1, ..File::default() };
    // the last number of a line written before
    let last = |b: &[u8]| {
        let e = b.len() - 1;
        (b[..e].iter().rposition(|c| b" XYZ".contains(c)).map_or(0, |i| if b[i] == b' ' { i + 1 } else { i }), e)
    };
    let mut ply = 0;
    let (mut ti, mut tp) = (0, 0);
    match fmt {
        Fmt::Pts => {
            let _ = writeln!(b, "{}", n);
            f.announced = vec![(n, 0)];
        }
        Fmt::Ptx => {
            let _ = writeln!(b, "{}\n1\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1", n);
            f.announced = vec![(n, 0)];
        }
        Fmt::Off => {
            let _ = writeln!(b, "OFF\n{} {} 0", n, faces.len());
            f.announced = vec![(n, faces.len())];
        }
        Fmt::Ply => {
            ply = s.below(3);
            let lo = if n > 65536 { 4 } else if n > 32768 { 3 } else if n > 256 { 2 } else if n > 128 { 1 } else { 0 };
            ti = lo + s.below(6 - lo);
            tp = 6 + s.below(2);
            let _ = writeln!(b, "ply\nformat {} 1.0\nelement vertex {}", ["ascii", "binary_little_endian", "binary_big_endian"][ply], n);
            for c in ["x", "y", "z"] {
                let _ = writeln!(b, "property {} {}", PLY_TYPES[tp].0, c);
            }
            let _ = writeln!(b, "element face {}\nproperty list uchar {} vertex_indices\nend_header", faces.len(), PLY_TYPES[ti].0);
            f.announced = vec![(n, faces.len())];
            f.text = ply == 0;
        }
        Fmt::Stl => {
            if s.bool() {
                let name = if s.bool() { "many ".repeat(big_count(s)) } else { "many".to_string() };
                let _ = writeln!(b, "solid {}", name);
            } else {
                f.text = false;
                f.stl_binary = true;
                b = vec![b' '; 80];
                b.extend_from_slice(&(n as u32).to_le_bytes());
                f.announced = vec![(n, n)];
            }
        }
        _ => (),
    }
    for (i, p) in v.iter().enumerate() {
        let start = b.len();
        match fmt {
            Fmt::Stl => {
                let t = [*p, v[(i + 1) % n], v[(i + 2) % n], [0.0, 0.0, 1.0]];
                if f.text {
                    let _ = write!(b, "facet normal 0 0 1\nouter loop\n");
                    for q in t[..3].iter() {
                        let _ = writeln!(b, "vertex {} {} {}", q[0], q[1], q[2]);
                    }
                    f.pspans.push(last(&b));
                    let _ = write!(b, "endloop\nendfacet\n");
                } else {
                    for k in [3, 0, 1, 2] {
                        for x in t[k] {
                            b.extend_from_slice(&(x as f32).to_le_bytes());
                        }
                    }
                    b.extend_from_slice(&[0, 0]);
                }
                let e = b.len() - f.text as usize;
                f.fspans.push((e - 1, e));
                if f.text {
                    f.must_mesh.push((start + 1, e - 1));
                }
                f.tris.push(t);
                continue;
            }
            Fmt::Ply if ply > 0 => {
                for x in p {
                    put(&mut b, ply == 2, tp, *x, 0);
                }
            }
            Fmt::Gcode => drop(writeln!(b, "G1 X{} Y{} Z{}", p[0], p[1], p[2])),
            Fmt::Obj => drop(writeln!(b, "v {} {} {}", p[0], p[1], p[2])),
            Fmt::Ptx => drop(writeln!(b, "{} {} {} 0.5", p[0], p[1], p[2])),
            Fmt::Xy => drop(writeln!(b, "{} {}", p[0], p[1])),
            _ => drop(writeln!(b, "{} {} {}", p[0], p[1], p[2])),
        }
        f.points.push(if fmt == Fmt::Xy { [p[0], p[1], 0.0] } else { *p });
        if fmt == Fmt::Ptx {
            let (a, e) = last(&b[..b.len() - 4]);
            f.pspans.push((a, e));
        } else if f.text {
            f.pspans.push(last(&b));
        } else {
            f.pspans.push((b.len() - 1, b.len()));
        }
    }
    if fmt == Fmt::Stl {
        if f.text {
            let _ = writeln!(b, "endsolid many");
        }
    } else if meshes {
        for x in faces[..].iter() {
            match fmt {
                Fmt::Obj => drop(writeln!(b, "f {} {} {}", x[0] + 1, x[1] + 1, x[2] + 1)),
                Fmt::Ply if ply > 0 => {
                    b.push(3);
                    for i in x {
                        put(&mut b, ply == 2, ti, 0.0, *i as u64);
                    }
                }
                _ => drop(writeln!(b, "3 {} {} {}", x[0], x[1], x[2])),
            }
            f.fspans.push(if f.text { last(&b) } else { (b.len() - 1, b.len()) });
        }
        f.faces = faces;
    }
    let need = |x: &[(usize, usize)]| x.last().map_or(0, |x| x.0);
    let (p, m) = (need(&f.pspans), need(&f.fspans));
    match fmt {
        Fmt::Pts | Fmt::Ptx => f.must_points.push((1, p)),
        Fmt::Off | Fmt::Ply => {
            f.must_points.push((0, p));
            f.must_mesh.push((0, m));
        }
        Fmt::Stl if !f.text => f.must_mesh.push((0, m)),
        _ => (),
    }
    f.to_eof = matches!(fmt, Fmt::Xy | Fmt::Xyz | Fmt::Pts | Fmt::Ptx | Fmt::Gcode | Fmt::Obj);
    f.bytes = b;
    f
}

fn gen_obj(s: &mut Src) -> File {
    let mut w = W::new(s);
    let mut f = File { text: true, to_eof: true, mesh: true, ..File::default() };
    let n = s.list(0, 50, |_| ()).len();
    let ordered = s.bool();
    for i in 0..n {
        w.blanks(s);
        let faces = if ordered { i > n / 2 } else { s.chance(2, 5) };
        if s.chance(1, 8) {
            w.extras += 1;
            let name = *s.pick(&NAMES);
            match s.below(8) {
                0 => w.tok(&format!("# {}", name)),
                1 => w.tok("vn 0 0 1"),
                2 => w.tok("vt 0.5 0.5"),
                3 => w.tok(&format!("o {}", name)),
                4 => w.tok("s off"),
                5 => w.tok("usemtl steel"),
                6 => w.tok("vp 0.3"),
                _ => w.tok("fo 1 2 3"),
            };
            w.eol(s);
        } else if faces && f.points.len() >= 3 {
            let k = if s.chance(1, 5) { s.usize(3, 6.min(f.points.len())) } else { 3 };
            w.extras += (k > 3) as u32;
            let ids = distinct(s, f.points.len(), k);
            w.lead(s);
            w.tok("f");
            let style = s.below(4);
            w.extras += (style > 0) as u32;
            let mut sp = vec![];
            for i in ids[..].iter() {
                w.sep(s);
                let a = w.tok(&(i + 1).to_string());
                match style {
                    1 => w.tok("/7"),
                    2 => w.tok("/7/8"),
                    3 => w.tok("//8"),
                    _ => (0, 0),
                };
                sp.push(a);
            }
            w.eol(s);
            for j in 2..k {
                f.faces.push([ids[0], ids[j - 1], ids[j]]);
                f.fspans.push(sp[j]);
            }
        } else {
            w.lead(s);
            w.tok("v");
            w.sep(s);
            let (mut t, p) = nums3(s);
            w.extras += more_words(s, &mut t, 3);
            let sp = w.nums(s, &t);
            w.eol(s);
            f.points.push(p);
            f.pspans.push(sp[2]);
        }
    }
    let (b, x) = w.finish(s);
    f.bytes = b;
    f.extras = x;
    f
}

fn gen_off(s: &mut Src) -> File {
    let mut w = W::new(s);
    let mut f = File { text: true, mesh: true, ..File::default() };
    let n = s.list(0, 30, |_| ()).len();
    let m = if n >= 3 { s.list(0, 30, |_| ()).len() } else { 0 };
    fn comment(w: &mut W, s: &mut Src) {
        w.blanks(s);
        if s.chance(1, 10) {
            w.extras += 1;
            let t = format!("# {}", s.pick(&NAMES));
            w.tok(&t);
            w.eol(s);
        }
    }
    if s.chance(1, 10) {
        comment(&mut w, s);
    }
    if !s.chance(1, 10) {
        w.tok("OFF");
        w.eol(s);
    }
    comment(&mut w, s);
    w.lead(s);
    let mut t = vec![n.to_string(), m.to_string()];
    if !s.chance(1, 8) {
        t.push(s.below(100).to_string());
    }
    let c = w.nums(s, &t);
    w.eol(s);
    f.announced.push((n, m));
    let (mut need_p, mut need_m) = (c[0].0, c[1].0);
    for _ in 0..n {
        comment(&mut w, s);
        w.lead(s);
        let (mut t, p) = nums3(s);
        w.extras += more_words(s, &mut t, 4);
        let sp = w.nums(s, &t);
        w.eol(s);
        f.points.push(p);
        f.pspans.push(sp[2]);
        need_p = sp[2].0;
        need_m = sp[2].0;
    }
    for _ in 0..m {
        comment(&mut w, s);
        w.lead(s);
        let ids = distinct(s, n, 3);
        let mut t = vec!["3".to_string()];
        for i in ids[..].iter() {
            t.push(i.to_string());
        }
        w.extras += more_words(s, &mut t, 4);
        let sp = w.nums(s, &t);
        w.eol(s);
        f.faces.push([ids[0], ids[1], ids[2]]);
        f.fspans.push(sp[3]);
        need_m = sp[3].0;
    }
    if s.chance(1, 6) {
        // content after the announced faces
        w.extras += 1;
        let t = *s.pick(&["# end", "3 0 1 2", "trailing words", ""]);
        w.tok(t);
        w.eol(s);
    }
    f.must_points.push((0, need_p));
    f.must_mesh.push((0, need_m));
    let (b, x) = w.finish(s);
    f.bytes = b;
    f.extras = x;
    f
}

const PLY_TYPES: [(&str, &str, usize); 8] = [("char", "int8", 1), ("uchar", "uint8", 1), ("short", "int16", 2), ("ushort", "uint16", 2), ("int", "int32", 4), ("uint", "uint32", 4), ("float", "float32", 4), ("double", "float64", 8)];
pub fn put(b: &mut Vec<u8>, big: bool, t: usize, v: f64, i: u64) {
    let mut x: Vec<u8> = match t {
        0 | 1 => vec![i as u8],
        2 | 3 => (i as u16).to_be_bytes().to_vec(),
        4 | 5 => (i as u32).to_be_bytes().to_vec(),
        6 => (v as f32).to_be_bytes().to_vec(),
        _ => v.to_be_bytes().to_vec(),
    };
    if !big {
        x.reverse();
    }
    b.extend(x);
}

fn gen_ply(s: &mut Src) -> File {
    let mut w = W::new(s);
    let kind = s.below(3); // ascii, little, big
    let mut f = File { text: kind == 0, ..File::default() };
    let n = s.list(0, 30, |_| ()).len();
    let with_faces = !s.chance(1, 5);
    let m = if n >= 3 && with_faces { s.list(0, 30, |_| ()).len() } else { 0 };
    fn remark(w: &mut W, s: &mut Src) {
        if s.chance(1, 8) {
            w.extras += 1;
            let t = *s.pick(&["comment made by hand", "comment", "obj_info x y z", "comment element face 7", "comment end_header"]);
            w.tok(t);
            w.eol(s);
        }
    }
    w.tok("ply");
    w.eol(s);
    remark(&mut w, s);
    w.tok(["format ascii 1.0", "format binary_little_endian 1.0", "format binary_big_endian 1.0"][kind]);
    w.eol(s);
    remark(&mut w, s);
    w.tok(&format!("element vertex {}", n));
    w.eol(s);
    // (property type, coordinate)
    let mut order = [0usize, 1, 2];
    if s.chance(1, 3) {
        s.shuffle(&mut order);
        w.extras += 1;
    }
    let mut props: Vec<(usize, Option<usize>)> = vec![];
    let same = s.bool();
    let ty = 6 + s.below(2);
    let others = s.chance(1, 2);
    for k in 0..4 {
        if others {
            for _ in 0..if s.chance(1, 2) { s.below(3) } else { 0 } {
                props.push((s.below(8), None));
                w.extras += 1;
            }
        }
        if k < 3 {
            props.push((if same { ty } else { 6 + s.below(2) }, Some(order[k])));
        }
    }
    fn tname(s: &mut Src, t: usize) -> &'static str {
        if s.chance(1, 4) { PLY_TYPES[t].1 } else { PLY_TYPES[t].0 }
    }
    let other_names = ["nx", "red", "confidence", "s", "intensity", "alpha"];
    for (t, c) in &props {
        remark(&mut w, s);
        let name = match c {
            Some(c) => ["x", "y", "z"][*c],
            None => *s.pick(&other_names),
        };
        let line = format!("property {} {}", tname(s, *t), name);
        w.tok(&line);
        w.eol(s);
    }
    // faces
    let mut fbefore: Vec<usize> = vec![];
    let mut fafter: Vec<usize> = vec![];
    let mut list_after = false;
    let mut list_foreign = false;
    let (mut tc, mut ti) = (1, 5);
    if with_faces {
        f.mesh = true;
        remark(&mut w, s);
        w.tok(&format!("element face {}", m));
        w.eol(s);
        if s.chance(1, 4) {
            fbefore = s.list(0, 2, |s| s.below(8));
            fafter = s.list(0, 2, |s| s.below(8));
        }
        if s.chance(1, 10) {
            if kind == 0 {
                list_after = true;
            } else {
                list_foreign = true;
                f.mesh = false;
            }
        }
        w.extras += !fbefore.is_empty() as u32 + !fafter.is_empty() as u32 + list_after as u32 + list_foreign as u32;
        for t in fbefore[..].iter() {
            let l = format!("property {} flags", tname(s, *t));
            w.tok(&l);
            w.eol(s);
        }
        if s.chance(1, 2) {
            tc = s.below(6);
            // the type has to hold the largest index
            let lo = if n > 32768 { 4 } else if n > 256 { 2 } else if n > 128 { 1 } else { 0 };
            ti = lo + s.below(6 - lo);
        }
        let l = format!("property list {} {} {}", tname(s, tc), tname(s, ti), s.pick(&["vertex_indices", "vertex_index"]));
        w.tok(&l);
        w.eol(s);
        for t in fafter[..].iter() {
            let l = format!("property {} group", tname(s, *t));
            w.tok(&l);
            w.eol(s);
        }
        if list_after || list_foreign {
            w.tok("property list uchar float texcoord");
            w.eol(s);
        }
    }
    remark(&mut w, s);
    let e = w.tok("end_header");
    w.eol(s);
    f.announced.push((n, m));
    let (mut need_p, mut need_m) = (e.1 - 1, e.1 - 1);
    for _ in 0..n {
        let mut p = [0.0; 3];
        let mut sp = (0, 0);
        for (k, (t, c)) in props.iter().enumerate() {
            if kind == 0 {
                if k > 0 {
                    w.sep(s);
                } else {
                    w.lead(s);
                }
                let (x, v) = if c.is_some() || *t >= 6 { num(s) } else { (s.below(100).to_string(), 0.0) };
                let q = w.tok(&x);
                if let Some(c) = c {
                    p[*c] = v;
                    sp = q;
                }
            } else {
                let i = s.draw(255);
                match c {
                    Some(c) => {
                        let v = if *t == 6 { float(s) as f64 } else { f64_value(s) };
                        put(&mut w.b, kind == 2, *t, v, 0);
                        p[*c] = v;
                    }
                    None => put(&mut w.b, kind == 2, *t, i as f64 * 1.5, i),
                }
            }
        }
        if kind == 0 {
            w.eol(s);
        } else {
            sp = (w.b.len() - 1, w.b.len());
        }
        f.points.push(p);
        f.pspans.push(sp);
        need_p = sp.0;
        need_m = sp.0;
    }
    for _ in 0..m {
        let ids = distinct(s, n, 3);
        let mut sp = (0, 0);
        let scalar = |w: &mut W, s: &mut Src, t: usize, first: bool| {
            let i = s.draw(200);
            if kind == 0 {
                if first {
                    w.lead(s);
                } else {
                    w.sep(s);
                }
                w.tok(&i.to_string());
            } else {
                put(&mut w.b, kind == 2, t, i as f64, i);
            }
        };
        for (k, t) in fbefore[..].iter().enumerate() {
            scalar(&mut w, s, *t, k == 0);
        }
        if kind == 0 {
            if fbefore.is_empty() {
                w.lead(s);
            } else {
                w.sep(s);
            }
            w.tok("3");
            for i in ids[..].iter() {
                w.sep(s);
                sp = w.tok(&i.to_string());
            }
        } else {
            put(&mut w.b, kind == 2, tc, 0.0, 3);
            for i in ids[..].iter() {
                put(&mut w.b, kind == 2, ti, 0.0, *i as u64);
            }
        }
        for t in fafter[..].iter() {
            scalar(&mut w, s, *t, false);
        }
        if list_after {
            let l = [" 2 0.5 0.5", " 0"][s.below(2)];
            w.tok(l);
        }
        if list_foreign {
            put(&mut w.b, kind == 2, 1, 0.0, 1);
            put(&mut w.b, kind == 2, 6, 0.5, 0);
        }
        if kind == 0 {
            w.eol(s);
        } else {
            sp = (w.b.len() - 1, w.b.len());
        }
        f.faces.push([ids[0], ids[1], ids[2]]);
        f.fspans.push(sp);
        need_m = sp.0;
    }
    f.must_points.push((0, need_p));
    f.must_mesh.push((0, need_m));
    if kind == 0 {
        let (b, x) = w.finish(s);
        f.bytes = b;
        f.extras = x;
    } else {
        if s.chance(1, 5) {
            let k = s.below(30);
            junk(s, &mut w.b, k);
            w.extras += 1;
        }
        f.extras = w.extras;
        f.bytes = w.b;
    }
    f
}
fn f64_value(s: &mut Src) -> f64 {
    match s.weighted(&[4, 3, 1]) {
        0 => s.int(-1000, 1000) as f64 / 8.0,
        1 => s.int(-1_000_000_000, 1_000_000_000) as f64 * 1.1e-3,
        _ => f64::from_bits(s.draw(u64::MAX)),
    }
}

fn gen_stl(s: &mut Src) -> File {
    let ascii = s.bool();
    let pool: Vec<V3> = if s.chance(1, 2) {
        s.list(3, 8, |s| [s.int(-3, 3) as f64, s.int(-3, 3) as f64 / 4.0, s.int(-3, 3) as f64])
    } else {
        vec![]
    };
    let n = s.list(0, 25, |_| ()).len();
    if ascii {
        let mut w = W::new(s);
        let mut f = File { text: true, mesh: true, ..File::default() };
        let name = *s.pick(&NAMES);
        w.tok("solid");
        if !name.is_empty() {
            w.tok(" ");
            w.tok(name);
        }
        w.eol(s);
        let indent = s.bool();
        for _ in 0..n {
            let mut t: [V3; 4] = [[0.0; 3]; 4];
            let start = w.b.len();
            if indent {
                w.tok("  ");
            }
            w.tok("facet normal ");
            let (x, v) = nums3(s);
            w.nums(s, &x);
            t[3] = v;
            w.eol(s);
            w.tok(if indent { "    outer loop" } else { "outer loop" });
            w.eol(s);
            for k in 0..3 {
                w.tok(if indent { "\t  vertex" } else { "vertex" });
                w.sep(s);
                let (x, v) = if pool.is_empty() {
                    nums3(s)
                } else {
                    let p = *s.pick(&pool);
                    (p.iter().map(|x| format!("{}", x)).collect(), p)
                };
                w.nums(s, &x);
                t[k] = v;
                w.eol(s);
            }
            w.tok(if indent { "    endloop" } else { "endloop" });
            w.eol(s);
            if indent {
                w.tok("  ");
            }
            let e = w.tok("endfacet");
            w.eol(s);
            f.tris.push(t);
            f.fspans.push((e.1 - 1, e.1));
            f.must_mesh.push((start + 1, e.1 - 1));
        }
        w.tok("endsolid");
        if s.bool() && !name.is_empty() {
            w.tok(" ");
            w.tok(name);
        }
        w.eol(s);
        let (b, x) = w.finish(s);
        f.bytes = b;
        f.extras = x;
        f
    } else {
        let mut f = File { mesh: true, stl_binary: true, ..File::default() };
        let mut b = vec![];
        junk(s, &mut b, 80);
        if b.starts_with(b"solid") {
            b[0] = b'S';
        }
        b.extend_from_slice(&(n as u32).to_le_bytes());
        f.announced.push((n, n));
        let mut need = b.len() - 1;
        for _ in 0..n {
            let mut t: [V3; 4] = [[0.0; 3]; 4];
            for k in [3usize, 0, 1, 2] {
                let p = if k == 3 || pool.is_empty() {
                    [float(s), float(s), float(s)]
                } else {
                    let p = *s.pick(&pool);
                    [p[0] as f32, p[1] as f32, p[2] as f32]
                };
                for x in p.iter() {
                    b.extend_from_slice(&x.to_le_bytes());
                }
                t[k] = [p[0] as f64, p[1] as f64, p[2] as f64];
            }
            junk(s, &mut b, 2);
            need = b.len() - 1;
            f.tris.push(t);
            f.fspans.push((need, need + 1));
        }
        f.must_mesh.push((0, need));
        if s.chance(1, 5) {
            let k = s.below(40);
            junk(s, &mut b, k);
            f.extras += 1;
        }
        f.bytes = b;
        f
    }
}

pub fn gen(s: &mut Src, fmt: Fmt) -> File {
    match fmt {
        Fmt::Xy => gen_delim(s, 2),
        Fmt::Xyz => gen_delim(s, 3),
        Fmt::Pts => gen_pts(s),
        Fmt::Ptx => gen_ptx(s),
        Fmt::Gcode => gen_gcode(s),
        Fmt::Psl => gen_psl(s, false),
        Fmt::Las => gen_las(s, false),
        Fmt::Obj => gen_obj(s),
        Fmt::Off => gen_off(s),
        Fmt::Ply => gen_ply(s),
        Fmt::Stl => gen_stl(s),
    }
}

//------------------------------------------------------------------------------
// readers

#[derive(Clone, Debug, Default)]
pub struct Out {
    pub points: Vec<V3>,
    pub faces: Vec<[usize; 3]>,
    pub tris: Vec<[V3; 4]>,
    pub announced: Vec<(usize, usize)>,
    pub err: Option<String>,
    /// delivered something after the end or an error
    pub unfused: bool,
    pub was_mesh: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What {
    /// fills points
    Points,
    /// fills points and faces
    Mesh,
    /// fills tris (points: the vertices of the mesh if there is one)
    Tris,
    /// as Tris, without triangles using a vertex twice
    Unique,
    /// Mesh or Points
    Either,
}

pub type RunFn = fn(&mut Chunked) -> Out;
pub struct Reader {
    pub name: &'static str,
    pub fmt: Fmt,
    pub what: What,
    pub iter: bool,
    pub run: RunFn,
}

fn err<T, E: std::fmt::Debug>(r: &std::result::Result<T, E>) -> Option<String> {
    match r {
        Ok(_) => None,
        Err(e) => Some(format!("{:?}", e)),
    }
}

macro_rules! load_points {
    ($f:path) => {
        |r| {
            let mut v: Vec<Point3D> = Vec::new();
            let e = $f(r, &mut v);
            Out { points: v[..].iter().map(v3).collect(), err: err(&e), ..Out::default() }
        }
    };
}
macro_rules! load_cloud {
    ($f:path) => {
        |r| {
            let mut v: PointCloud3D<Point3D> = PointCloud3D::new();
            let e = $f(r, &mut v);
            Out { points: v.data[..].iter().map(v3).collect(), err: err(&e), ..Out::default() }
        }
    };
}
fn mesh_out<M: IsMesh<Point3D, Face3>>(m: &M, e: Option<String>) -> Out {
    let mut o = Out { err: e, was_mesh: true, ..Out::default() };
    for i in 0..m.num_vertices() {
        o.points.push(v3(&m.vertex(VId(i)).expect("vertex below num_vertices")));
    }
    for i in 0..m.num_faces() {
        let f = m.face_vertex_ids(FId(i)).expect("face below num_faces");
        o.faces.push([f.a.0, f.b.0, f.c.0]);
    }
    o
}
macro_rules! load_mesh {
    ($f:path, $m:ty) => {
        |r| {
            let mut m = <$m>::default();
            let e = $f(r, &mut m);
            mesh_out(&m, err(&e))
        }
    };
}

/// drains an iterator; `item` stores the Ok content
macro_rules! drain {
    ($it:expr, $o:ident, $ok:pat => $body:expr) => {{
        let mut it = $it;
        loop {
            match it.next() {
                None => break,
                Some(Ok($ok)) => $body,
                Some(Err(e)) => {
                    $o.err = Some(format!("{:?}", e));
                    break;
                }
            }
            if $o.points.len() + $o.faces.len() + $o.tris.len() > 10_000_000 {
                panic!("iterator does not end");
            }
        }
        for _ in 0..6 {
            if it.next().is_some() {
                $o.unfused = true;
            }
        }
    }};
}
macro_rules! iter_plain {
    ($it:ident) => {
        |r| {
            let mut o = Out::default();
            drain!($it::<Point3D, _>::new(r), o, p => o.points.push(v3(&p)));
            o
        }
    };
}
macro_rules! iter_reserve {
    ($it:ident) => {
        |r| {
            let mut o = Out::default();
            drain!($it::<Point3D, _>::new(r), o, p => match p {
                DataReserve::Reserve(n) => o.announced.push((n, 0)),
                DataReserve::Data(p) => o.points.push(v3(&p)),
            });
            o
        }
    };
}
macro_rules! iter_try_reserve {
    ($it:ident) => {
        |r| {
            let mut o = Out::default();
            match $it::<Point3D, _>::new(r) {
                Err(e) => o.err = Some(format!("{:?}", e)),
                Ok(it) => drain!(it, o, p => match p {
                    DataReserve::Reserve(n) => o.announced.push((n, 0)),
                    DataReserve::Data(p) => o.points.push(v3(&p)),
                }),
            }
            o
        }
    };
}
fn face_item(o: &mut Out, p: FaceDataReserve<Point3D>) {
    match p {
        FaceDataReserve::ReserveDataFaces(n, m) => o.announced.push((n, m)),
        FaceDataReserve::Data(p) => o.points.push(v3(&p)),
        FaceDataReserve::Face(f) => o.faces.push(f),
    }
}

fn stl_unique<M>(r: &mut Chunked, f: StlFormat) -> Out
where
    M: Default + IsFaceEditableMesh<Point3D, Face3> + IsVertexEditableMesh<Point3D, Face3>,
{
    let mut m = M::default();
    let mut n: Vec<Point3D> = Vec::new();
    let e = load_stl_mesh_unique(r, f, &mut m, &mut n);
    stl_mesh(mesh_out(&m, err(&e)), n)
}
fn stl_duped<M>(r: &mut Chunked, f: StlFormat) -> Out
where
    M: Default + IsFaceEditableMesh<Point3D, Face3> + IsVertexEditableMesh<Point3D, Face3>,
{
    let mut m = M::default();
    let mut n: Vec<Point3D> = Vec::new();
    let e = load_stl_mesh_duped(r, f, &mut m, &mut n);
    stl_mesh(mesh_out(&m, err(&e)), n)
}
fn stl_mesh(mut o: Out, n: Vec<Point3D>) -> Out {
    if n.len() != o.faces.len() {
        o.err = Some(format!("NORMALS: {} normals for {} faces", n.len(), o.faces.len()));
        return o;
    }
    for (i, f) in o.faces.iter().enumerate() {
        o.tris.push([o.points[f[0]], o.points[f[1]], o.points[f[2]], v3(&n[i])]);
    }
    o
}
fn stl_triplets(r: &mut Chunked, f: StlFormat) -> Out {
    let (mut v, mut n): (Vec<Point3D>, Vec<Point3D>) = (Vec::new(), Vec::new());
    let e = load_stl_triplets(r, f, &mut v, &mut n);
    let mut o = Out { err: err(&e), ..Out::default() };
    if v.len() != 3 * n.len() {
        o.err = Some(format!("NORMALS: {} normals for {} points", n.len(), v.len()));
        return o;
    }
    for i in 0..n.len() {
        o.tris.push([v3(&v[3 * i]), v3(&v[3 * i + 1]), v3(&v[3 * i + 2]), v3(&n[i])]);
    }
    o
}
fn stl_iter(r: &mut Chunked, f: StlFormat) -> Out {
    let mut o = Out::default();
    match StlIterator::<Point3D, _>::new(r, f) {
        Err(e) => o.err = Some(format!("{:?}", e)),
        Ok(it) => drain!(it, o, p => match p {
            DataReserve::Reserve(n) => o.announced.push((n, n)),
            DataReserve::Data(t) => o.tris.push([v3(&t.a), v3(&t.b), v3(&t.c), v3(&t.n)]),
        }),
    }
    o
}
fn ply_either(r: &mut Chunked) -> Out {
    let mut m = Mesh::default();
    let mut v: Vec<Point3D> = Vec::new();
    match load_ply_either(r, &mut m, &mut v) {
        Ok(MeshOrPoints::Mesh) if v.is_empty() => mesh_out(&m, None),
        Ok(MeshOrPoints::Points) if m.num_vertices() == 0 => Out { points: v[..].iter().map(v3).collect(), ..Out::default() },
        Ok(_) => Out { err: Some("MIXED: filled both targets".to_string()), ..Out::default() },
        Err(e) => {
            if v.is_empty() {
                mesh_out(&m, Some(format!("{:?}", e)))
            } else {
                Out { points: v[..].iter().map(v3).collect(), err: Some(format!("{:?}", e)), ..Out::default() }
            }
        }
    }
}
fn xy_load(r: &mut Chunked) -> Out {
    let mut v: Vec<Point2D> = Vec::new();
    let e = load_xy(r, &mut v);
    Out { points: v[..].iter().map(|p| [p.x(), p.y(), 0.0]).collect(), err: err(&e), ..Out::default() }
}
fn xy_cloud(r: &mut Chunked) -> Out {
    let mut v: PointCloud2D<Point2D> = PointCloud2D::new();
    let e = load_xy(r, &mut v);
    Out { points: v.data[..].iter().map(|p| [p.x(), p.y(), 0.0]).collect(), err: err(&e), ..Out::default() }
}
fn xy_iter(r: &mut Chunked) -> Out {
    let mut o = Out::default();
    drain!(XyIterator::<Point2D, _>::new(r), o, p => o.points.push([p.x(), p.y(), 0.0]));
    o
}

macro_rules! rd {
    ($name:expr, $fmt:ident, $what:ident, $iter:expr, $run:expr) => {
        Reader { name: $name, fmt: Fmt::$fmt, what: What::$what, iter: $iter, run: $run }
    };
}
pub static READERS: &[Reader] = &[
    rd!("load_xy", Xy, Points, false, xy_load),
    rd!("load_xy (cloud)", Xy, Points, false, xy_cloud),
    rd!("XyIterator", Xy, Points, true, xy_iter),
    rd!("load_xyz", Xyz, Points, false, load_points!(load_xyz)),
    rd!("load_xyz (cloud)", Xyz, Points, false, load_cloud!(load_xyz)),
    rd!("XyzIterator", Xyz, Points, true, iter_plain!(XyzIterator)),
    rd!("load_pts", Pts, Points, false, load_points!(load_pts)),
    rd!("load_pts (cloud)", Pts, Points, false, load_cloud!(load_pts)),
    rd!("PtsIterator", Pts, Points, true, iter_reserve!(PtsIterator)),
    rd!("load_ptx", Ptx, Points, false, load_points!(load_ptx)),
    rd!("PtxIterator", Ptx, Points, true, iter_reserve!(PtxIterator)),
    rd!("load_gcode_points", Gcode, Points, false, load_points!(load_gcode_points)),
    rd!("GcodeIterator", Gcode, Points, true, iter_plain!(GcodeIterator)),
    rd!("load_psl", Psl, Points, false, load_points!(load_psl)),
    rd!("PslIterator", Psl, Points, true, iter_plain!(PslIterator)),
    rd!("load_las", Las, Points, false, load_points!(load_las)),
    rd!("load_las (cloud)", Las, Points, false, load_cloud!(load_las)),
    rd!("LasIterator", Las, Points, true, iter_try_reserve!(LasIterator)),
    rd!("load_obj_points", Obj, Points, false, load_points!(load_obj_points)),
    rd!("ObjPointsIterator", Obj, Points, true, iter_plain!(ObjPointsIterator)),
    rd!("load_obj_mesh", Obj, Mesh, false, load_mesh!(load_obj_mesh, Mesh)),
    rd!("load_obj_mesh (dynamic)", Obj, Mesh, false, load_mesh!(load_obj_mesh, MeshD)),
    rd!("ObjMeshIterator", Obj, Mesh, true, |r| {
        let mut o = Out::default();
        drain!(ObjMeshIterator::<Point3D, _>::new(r), o, p => face_item(&mut o, p.into()));
        o
    }),
    rd!("load_off_points", Off, Points, false, load_points!(load_off_points)),
    rd!("OffPointsIterator", Off, Points, true, iter_reserve!(OffPointsIterator)),
    rd!("load_off_mesh", Off, Mesh, false, load_mesh!(load_off_mesh, Mesh)),
    rd!("load_off_mesh (dynamic)", Off, Mesh, false, load_mesh!(load_off_mesh, MeshD)),
    rd!("OffMeshIterator", Off, Mesh, true, |r| {
        let mut o = Out::default();
        drain!(OffMeshIterator::<Point3D, _>::new(r), o, p => face_item(&mut o, p));
        o
    }),
    rd!("load_ply_points", Ply, Points, false, load_points!(load_ply_points)),
    rd!("PlyPointsIterator", Ply, Points, true, iter_try_reserve!(PlyPointsIterator)),
    rd!("load_ply_mesh", Ply, Mesh, false, load_mesh!(load_ply_mesh, Mesh)),
    rd!("load_ply_mesh (u32)", Ply, Mesh, false, load_mesh!(load_ply_mesh, MeshU)),
    rd!("PlyMeshIterator", Ply, Mesh, true, |r| {
        let mut o = Out::default();
        match PlyMeshIterator::<Point3D, _>::new(r) {
            Err(e) => o.err = Some(format!("{:?}", e)),
            Ok(it) => drain!(it, o, p => face_item(&mut o, p)),
        }
        o
    }),
    rd!("load_ply_either", Ply, Either, false, ply_either),
    rd!("load_stl_triplets", Stl, Tris, false, |r| stl_triplets(r, StlFormat::Auto)),
    rd!("StlIterator", Stl, Tris, true, |r| stl_iter(r, StlFormat::Auto)),
    rd!("load_stl_mesh_duped", Stl, Tris, false, |r| stl_duped::<Mesh>(r, StlFormat::Auto)),
    rd!("load_stl_mesh_unique", Stl, Unique, false, |r| stl_unique::<Mesh>(r, StlFormat::Auto)),
    rd!("load_stl_mesh_unique (dynamic)", Stl, Unique, false, |r| stl_unique::<MeshD>(r, StlFormat::Auto)),
];
/// STL readers told the format: ASCII, binary
pub static STL_EXPLICIT: [&[Reader]; 2] = [
    &[
        rd!("load_stl_triplets Ascii", Stl, Tris, false, |r| stl_triplets(r, StlFormat::Ascii)),
        rd!("StlIterator Ascii", Stl, Tris, true, |r| stl_iter(r, StlFormat::Ascii)),
        rd!("load_stl_mesh_duped Ascii", Stl, Tris, false, |r| stl_duped::<MeshU>(r, StlFormat::Ascii)),
        rd!("load_stl_mesh_unique Ascii", Stl, Unique, false, |r| stl_unique::<MeshU>(r, StlFormat::Ascii)),
    ],
    &[
        rd!("load_stl_triplets Binary", Stl, Tris, false, |r| stl_triplets(r, StlFormat::Binary)),
        rd!("StlIterator Binary", Stl, Tris, true, |r| stl_iter(r, StlFormat::Binary)),
        rd!("load_stl_mesh_duped Binary", Stl, Tris, false, |r| stl_duped::<MeshU>(r, StlFormat::Binary)),
        rd!("load_stl_mesh_unique Binary", Stl, Unique, false, |r| stl_unique::<MeshU>(r, StlFormat::Binary)),
    ],
];

pub fn readers(f: Fmt) -> impl Iterator<Item = &'static Reader> {
    READERS.iter().filter(move |r| r.fmt == f)
}

//------------------------------------------------------------------------------
// comparing

/// identical up to the payload of NaNs
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
pub fn same3(a: &V3, b: &V3) -> bool {
    (0..3).all(|d| same(a[d], b[d]))
}
pub fn same_tri(a: &[V3; 4], b: &[V3; 4]) -> bool {
    (0..4).all(|k| same3(&a[k], &b[k]))
}
/// first position at which the lists differ
pub fn diff<T>(a: &[T], b: &[T], eq: impl Fn(&T, &T) -> bool) -> Option<usize> {
    for i in 0..a.len().max(b.len()) {
        if i >= a.len() || i >= b.len() || !eq(&a[i], &b[i]) {
            return Some(i);
        }
    }
    None
}
/// printable start of a file
pub fn show(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.iter().take(700) {
        match c {
            b'\n' => o.push_str("\\n"),
            b'\r' => o.push_str("\\r"),
            b'\t' => o.push_str("\\t"),
            0x20..=0x7e => o.push(*c as char),
            c => o.push_str(&format!("\\x{:02x}", c)),
        }
    }
    if b.len() > 700 {
        o.push_str(&format!("... ({} bytes)", b.len()));
    }
    o
}
/// triangles whose corners are three different points
pub fn spanning(t: &[[V3; 4]]) -> Vec<[V3; 4]> {
    let eq = |a: &V3, b: &V3| p3(a) == p3(b);
    t.iter().copied().filter(|t| !eq(&t[0], &t[1]) && !eq(&t[0], &t[2]) && !eq(&t[1], &t[2])).collect()
}
