//! Shared generators. Coordinates are dyadic (k/8, k/4, ...) so that sums, differences,
//! products of two and comparisons are exact in f64 and oracles need no tolerance.
use crate::engine::*;
use rust_3d::*;

pub type V3 = [f64; 3];
pub type V2 = [f64; 2];

pub fn p3(v: &V3) -> Point3D {
    Point3D::new(v[0], v[1], v[2])
}
pub fn p2(v: &V2) -> Point2D {
    Point2D::new(v[0], v[1])
}
pub fn v3<P: Is3D>(p: &P) -> V3 {
    [p.x(), p.y(), p.z()]
}
pub fn v2<P: Is2D>(p: &P) -> V2 {
    [p.x(), p.y()]
}
pub fn pc3(v: &[V3]) -> PointCloud3D<Point3D> {
    let mut pc = PointCloud3D::new();
    for x in v {
        pc.push(p3(x));
    }
    pc
}
pub fn pc2(v: &[V2]) -> PointCloud2D<Point2D> {
    let mut pc = PointCloud2D::new();
    for x in v {
        pc.push(p2(x));
    }
    pc
}
/// order-independent exact key (treats -0.0 as 0.0)
pub fn key3(v: &V3) -> [u64; 3] {
    [(v[0] + 0.0).to_bits(), (v[1] + 0.0).to_bits(), (v[2] + 0.0).to_bits()]
}
pub fn key2(v: &V2) -> [u64; 2] {
    [(v[0] + 0.0).to_bits(), (v[1] + 0.0).to_bits()]
}
pub fn sorted_keys3(v: &[V3]) -> Vec<[u64; 3]> {
    let mut k: Vec<_> = v.iter().map(key3).collect();
    k.sort();
    k
}
pub fn d2(a: &V3, b: &V3) -> f64 {
    let (x, y, z) = (a[0] - b[0], a[1] - b[1], a[2] - b[2]);
    x * x + y * y + z * z
}
pub fn sub3(a: &V3, b: &V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add3(a: &V3, b: &V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn dot3(a: &V3, b: &V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross3(a: &V3, b: &V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn len3(a: &V3) -> f64 {
    dot3(a, a).sqrt()
}
pub fn mul3(a: &V3, f: f64) -> V3 {
    [a[0] * f, a[1] * f, a[2] * f]
}
pub fn norm(v: &V3) -> V3 {
    mul3(v, 1.0 / len3(v))
}
/// y and z directions of a random orthonormal frame
pub fn gen_frame(s: &mut Src) -> (V3, V3) {
    // rows of a rotation: pick a z direction and make y orthogonal to it
    let z = loop {
        let z = [s.int(-4, 4) as f64, s.int(-4, 4) as f64, s.int(-4, 4) as f64];
        if z != [0.0; 3] { break norm(&z); }
        if s.exhausted() { break [0.0, 0.0, 1.0]; }
    };
    loop {
        let t = [s.int(-4, 4) as f64, s.int(-4, 4) as f64, s.int(-4, 4) as f64];
        let y = sub3(&t, &mul3(&z, dot3(&t, &z)));
        if len3(&y) > 0.1 { return (norm(&y), z); }
        if s.exhausted() { return ([0.0, 1.0, 0.0], [0.0, 0.0, 1.0]); }
    }
}
/// the largest distance along an axis, and far from the origin what rounding the coordinates themselves costs
pub fn mag(vs: &[&V3]) -> f64 {
    let spread = (0..3).map(|d| {
        let (a, b) = vs.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), v| (a.min(v[d]), b.max(v[d])));
        b - a
    });
    spread.fold(0.0, f64::max) + 1e-5 * vs.iter().flat_map(|v| v.iter()).fold(0.0, |m: f64, x| m.max(x.abs()))
}

/// relative/absolute closeness
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

/// How coordinates of one case are drawn
#[derive(Clone, Copy, Debug)]
pub struct Grid {
    pub range: i64,
    pub div: f64,
    pub off: f64,
    /// added to some coordinates, needs more digits than single precision has
    pub fine: f64,
}
impl Grid {
    pub fn gen(s: &mut Src) -> Grid {
        let g = |range, div, off, fine| Grid { range, div, off, fine };
        match s.weighted(&[12, 12, 12, 4, 4, 2, 2, 2, 5, 3]) {
            0 => g(3, 1.0, 0.0, 0.0),
            1 => g(16, 4.0, 0.0, 0.0),
            2 => g(800, 8.0, 0.0, 0.0),
            3 => g(64, 16.0, 4096.0, 0.0),
            4 => g(32, 32.0, -1024.0, 0.0),
            // tiny, huge, spread
            5 => g(16, 1099511627776.0, 0.0, 0.0),
            6 => g(16, 1.0 / 1073741824.0, 0.0, 0.0),
            7 => g(1 << 19, 4.0, 0.0, 0.0),
            // 25 bits: products of two and sums of these are still exact
            8 => g(7, 1.0, 0.0, 1.0 / 4194304.0),
            _ => Grid::far(),
        }
    }
    /// sums and differences are exact, products of coordinates (other than of their differences) are not
    fn far() -> Grid {
        Grid { range: 64, div: 16.0, off: 268435456.0, fine: 0.0 }
    }
    pub fn c(&self, s: &mut Src) -> f64 {
        let x = self.off + s.int(-self.range, self.range) as f64 / self.div;
        if self.fine != 0.0 && s.chance(1, 2) { x + self.fine } else { x }
    }
    pub fn v3(&self, s: &mut Src) -> V3 {
        [self.c(s), self.c(s), self.c(s)]
    }
    pub fn v2(&self, s: &mut Src) -> V2 {
        [self.c(s), self.c(s)]
    }
    /// a strictly positive extent on the same grid
    pub fn ext(&self, s: &mut Src) -> f64 {
        let x = (1 + s.draw(2 * self.range as u64)) as f64 / self.div;
        if self.fine != 0.0 && s.chance(1, 2) { x + self.fine } else { x }
    }
}

/// a positive factor: mostly quarters, else a power of two far from one, a decimal or one close to one;
/// away from the origin not so small that it makes shapes on this grid collapse
pub fn gen_factor(s: &mut Src, g: &Grid) -> f64 {
    let f: f64 = match s.weighted(&[6, 1, 1, 1]) {
        0 => (1 + s.below(16)) as f64 / 4.0,
        1 => 2f64.powi(s.int(-24, 24) as i32),
        2 => (1 + s.below(10_000)) as f64 / 1000.0,
        _ => 1.0 + s.int(-9, 9) as f64 / 1073741824.0,
    };
    if g.off == 0.0 { f } else { f.max(1.0 / 1024.0) }
}
/// single precision holds it exactly
pub fn is_f32(x: f64) -> bool {
    x as f32 as f64 == x
}

/// the next larger number
pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}

/// a point set with one of several layouts (general, planar, axis line, clustered, duplicated)
pub fn points3(s: &mut Src, g: &Grid, min: usize, max: usize) -> Vec<V3> {
    if std::mem::take(&mut s.huge) {
        let n = many_n(s);
        return many3(s, g, n);
    }
    let kind = s.weighted(&[6, 1, 1, 1, 2]);
    let f = g.v3(s);
    let axis = s.below(3);
    let mut v: Vec<V3> = match kind {
        0 => s.list(min, max, |s| g.v3(s)),
        1 => s.list(min, max, |s| {
            let mut p = g.v3(s);
            p[axis] = f[axis];
            p
        }),
        2 => s.list(min, max, |s| {
            let mut p = f;
            p[axis] = g.c(s);
            p
        }),
        3 => {
            let g2 = Grid { range: 2, ..*g };
            let far = g.v3(s).map(|x| x - g.off);
            s.list(min, max, |s| {
                let p = g2.v3(s);
                if s.bool() { add3(&p, &far) } else { p }
            })
        }
        _ => {
            let base: Vec<V3> = (0..1 + s.below(4)).map(|_| g.v3(s)).collect();
            s.list(min, max, |s| if s.bool() { *s.pick(&base) } else { g.v3(s) })
        }
    };
    if s.chance(1, 8) {
        s.shuffle(&mut v);
    }
    v
}
/// a number of elements, mostly close to or above what one or two bytes count
pub fn many_n(s: &mut Src) -> usize {
    match s.weighted(&[1, 2, 3, 1]) {
        0 => s.usize(250, 262),
        1 => s.usize(65530, 65542),
        2 => s.usize(65543, 70000),
        _ => s.usize(3, 5000),
    }
}
/// that many points, made from few draws (general, ascending, few different ones)
pub fn many3(s: &mut Src, g: &Grid, n: usize) -> Vec<V3> {
    let kind = s.below(3);
    many3_of(s, g, n, kind)
}
pub fn many3_of(s: &mut Src, g: &Grid, n: usize, kind: usize) -> Vec<V3> {
    let mut r = Rng::new(s.draw(1 << 30));
    let few = 1 + s.below(40) as u64;
    let k = 2 * g.range as u64 + 1;
    (0..n)
        .map(|i| {
            let mut x = |d: usize| {
                let (a, fine) = (r.next(), r.next() % 2 == 0);
                let a = match kind {
                    0 => a % k,
                    1 if d == 0 => i as u64 * k / n as u64,
                    1 => a % k,
                    _ => a % few % k,
                };
                g.off + (a as i64 - g.range) as f64 / g.div + if fine { g.fine } else { 0.0 }
            };
            [x(0), x(1), x(2)]
        })
        .collect()
}
/// a grid with enough positions for many points
pub fn wide(s: &mut Src) -> Grid {
    match s.below(4) {
        0 => Grid { range: 40, div: 1.0, off: 0.0, fine: 0.0 },
        1 => Grid { range: 800, div: 8.0, off: 0.0, fine: 0.0 },
        2 => Grid { range: 1 << 19, div: 4.0, off: 0.0, fine: 0.0 },
        _ => Grid::gen(s),
    }
}
pub fn points2(s: &mut Src, g: &Grid, min: usize, max: usize) -> Vec<V2> {
    points3(s, g, min, max).into_iter().map(|p| [p[0], p[1]]).collect()
}

/// adversarial BufRead/Read: delivers chunk sizes from a list, cyclically
pub struct Chunked<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunks: Vec<usize>,
    pub i: usize,
    /// fail every read at or after this offset
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub eof_reads: usize,
    /// every so many calls are interrupted (0: none)
    pub hiccup: usize,
    pub calls: usize,
    /// offsets (ascending) at which a single read fails (true) or reports the end (false), to go on afterwards
    pub stops: Vec<(usize, bool)>,
    pub next_stop: usize,
}
impl<'a> Chunked<'a> {
    /// random chunk sizes and interruptions
    pub fn gen(s: &mut Src, data: &'a [u8]) -> Self {
        let chunks = match s.below(4) {
            0 => vec![],
            1 => vec![1],
            2 => vec![1 + s.below(16)],
            _ => s.list(1, 6, |s| 1 + s.below(40)),
        };
        let mut c = Chunked::new(data, chunks);
        if s.chance(1, 4) {
            c.hiccup = 2 + s.below(4);
        }
        c
    }
    /// back to the start
    pub fn rewind(&mut self) {
        *self = Chunked { data: self.data, chunks: std::mem::take(&mut self.chunks), stops: std::mem::take(&mut self.stops), fail_at: self.fail_at, hiccup: self.hiccup, ..Chunked::new(self.data, vec![]) };
    }
    pub fn new(data: &'a [u8], chunks: Vec<usize>) -> Self {
        Chunked { data, pos: 0, chunks, i: 0, fail_at: None, failed: false, eof_reads: 0, hiccup: 0, calls: 0, stops: vec![], next_stop: 0 }
    }
    /// of a kind depending on the place
    fn failure(&self) -> std::io::Error {
        use std::io::ErrorKind::*;
        const KINDS: [std::io::ErrorKind; 9] = [Other, UnexpectedEof, BrokenPipe, ConnectionReset, TimedOut, WouldBlock, InvalidData, PermissionDenied, NotFound];
        std::io::Error::new(KINDS[(self.pos + self.data.len()) % KINDS.len()], "injected read failure")
    }
    fn avail(&mut self) -> std::io::Result<usize> {
        if self.hiccup > 0 {
            self.calls += 1;
            if self.calls % self.hiccup == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "injected interruption"));
            }
        }
        let mut end = match self.fail_at {
            Some(f) => f.min(self.data.len()),
            None => self.data.len(),
        };
        if let Some(&(at, error)) = self.stops.get(self.next_stop) {
            if self.pos >= at {
                self.next_stop += 1;
                return if error { Err(self.failure()) } else { Ok(0) };
            }
            end = end.min(at);
        }
        if self.pos >= end {
            if self.fail_at.is_some() {
                self.failed = true;
                self.eof_reads += 1;
                if self.eof_reads > 100_000 {
                    panic!("reader keeps reading a failing stream");
                }
                return Err(self.failure());
            }
            self.eof_reads += 1;
            if self.eof_reads > 100_000 {
                panic!("reader keeps reading past the end of the stream");
            }
            return Ok(0);
        }
        let c = if self.chunks.is_empty() { usize::MAX } else { self.chunks[self.i % self.chunks.len()].max(1) };
        Ok(c.min(end - self.pos))
    }
}
impl<'a> std::io::Read for Chunked<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.avail()?.min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.i += 1;
        Ok(n)
    }
}
impl<'a> std::io::BufRead for Chunked<'a> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let n = self.avail()?;
        Ok(&self.data[self.pos..self.pos + n])
    }
    fn consume(&mut self, amt: usize) {
        self.pos += amt;
        if amt > 0 {
            self.i += 1;
        }
    }
}
impl<'a> std::io::Seek for Chunked<'a> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            std::io::SeekFrom::Start(x) => x as i64,
            std::io::SeekFrom::End(x) => self.data.len() as i64 + x,
            std::io::SeekFrom::Current(x) => self.pos as i64 + x,
        };
        if n < 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "negative seek"));
        }
        self.pos = (n as usize).min(self.data.len());
        Ok(n as u64)
    }
}
/// up to `max` faces with three distinct corners each, out of `n` >= 3 vertices
pub fn gen_faces(s: &mut Src, n: usize, max: usize) -> Vec<[usize; 3]> {
    s.list(0, max, |s| gen_face(s, n))
}
pub fn gen_face(s: &mut Src, n: usize) -> [usize; 3] {
    let a = s.below(n);
    let b = (a + 1 + s.below(n - 1)) % n;
    let mut c = s.below(n - 2);
    for x in [a.min(b), a.max(b)] {
        if c >= x {
            c += 1;
        }
    }
    [a, b, c]
}

/// a deque whose elements wrap around in memory
pub fn wrapped<T: Clone>(v: &[T]) -> std::collections::VecDeque<T> {
    let mut d = std::collections::VecDeque::with_capacity(v.len());
    let k = v.len() / 3;
    for x in &v[k..] {
        d.push_back(x.clone());
    }
    for x in v[..k].iter().rev() {
        d.push_front(x.clone());
    }
    d
}
