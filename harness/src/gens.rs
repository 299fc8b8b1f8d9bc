//! Shared structured generators.

use crate::engine::Src;
use crate::exact::*;
use geos_rs::verif_api::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Reg {
    /// integers in [-4,4]: many coincidences
    Small,
    /// integers in [-1000,1000]
    Mid,
    /// multiples of 1/4 in [-25,25]
    Quarter,
    /// small integers around a large offset
    Offset(i64),
    /// integers of a spread around offsets of about 2^k, different on the axes
    Far(i64, i64),
    /// integers up to 2^bits times 2^k
    Grid { bits: u32, k: i32 },
    /// the points of a small grid under an integer matrix of determinant 1 with large entries:
    /// and a shift: all geometry is exact, and lines that are far apart in the grid become nearly parallel
    Shear([i64; 6]),
    /// small integers plus a few steps of 2^-k: points very close to, but not at, vertices and edges
    Fine(i32),
    /// five neighbouring values at an edge of the number format
    Table(usize),
    /// reals in [-s,s]
    Real(f64),
    /// reals whose binary exponent varies in [-e,e]
    Mixed(i32),
}

impl Reg {
    /// Regimes in which every coordinate difference is exactly representable.
    pub fn exact(s: &mut Src) -> Reg {
        match s.below(10) {
            9 => Reg::Fine(s.range(3, 45) as i32),
            0 | 1 => Reg::Small,
            8 => Reg::shear(s),
            2 => Reg::Mid,
            3 => Reg::Quarter,
            4 => Reg::Offset(1i64 << s.range(20, 50)),
            5 => Reg::Grid { bits: 52, k: s.sint(100) as i32 },
            6 => Reg::Grid { bits: 26 + s.below(26) as u32, k: s.sint(60) as i32 },
            _ => Reg::Grid { bits: 8 + s.below(18) as u32, k: s.sint(40) as i32 },
        }
    }
    pub fn any(s: &mut Src) -> Reg {
        match s.below(12) {
            0..=6 => Reg::exact(s),
            7 | 8 => Reg::Real(1.0),
            9 => Reg::Real(1000.0),
            10 => Reg::Real(2f64.powi(s.sint(60) as i32)),
            _ => Reg::Mixed(s.range(3, 40) as i32),
        }
    }
    /// moderate magnitudes only (for tolerance-based oracles)
    pub fn tame(s: &mut Src) -> Reg {
        match s.below(7) {
            0 | 1 => Reg::Small,
            2 => Reg::Mid,
            3 => Reg::Quarter,
            4 => Reg::Real(1.0),
            5 => Reg::Real(100.0),
            _ => Reg::Grid { bits: 10 + s.below(20) as u32, k: s.sint(20) as i32 },
        }
    }
    /// a product of elementary matrices, up to a random size, sometimes far from the origin
    pub fn shear(s: &mut Src) -> Reg {
        let bits = s.range(4, 46);
        let off = if s.chance(1, 3) { s.range(30, 51) } else { 0 };
        Reg::shear_of(s, bits, off)
    }
    pub fn shear_of(s: &mut Src, bits: i64, off: i64) -> Reg {
        let lim = 1i64 << bits;
        let mut m = [1i64, 0, 0, 1];
        for i in 0..60 {
            let k = 1 + if s.chance(1, 4) { s.range(0, 60) } else { s.range(0, 2) };
            let n = if i % 2 == 0 { [m[0] + k * m[2], m[1] + k * m[3], m[2], m[3]] } else { [m[0], m[1], m[2] + k * m[0], m[3] + k * m[1]] };
            if n.iter().any(|v| v.abs() > lim) {
                break;
            }
            m = n;
        }
        if s.bool() {
            m = [-m[0], -m[1], m[2], m[3]];
        }
        let o = if off == 0 { (0, 0) } else { (s.sint(1 << off), s.sint(1 << off)) };
        Reg::Shear([m[0], m[1], m[2], m[3], o.0, o.1])
    }
    pub fn is_exact(&self) -> bool {
        !matches!(self, Reg::Real(_) | Reg::Mixed(_))
    }
    pub fn num(&self, s: &mut Src) -> f64 {
        match *self {
            Reg::Small => s.sint(4) as f64,
            Reg::Shear(m) => (s.sint(4) * m[0] + s.sint(4) * m[1] + m[4]) as f64,
            Reg::Mid => s.sint(1000) as f64,
            Reg::Table(i) => TABLES[i][s.below(5)],
            Reg::Fine(k) => s.sint(4) as f64 + if s.bool() { 0.0 } else { s.sint(2) as f64 * 2f64.powi(-k) },
            Reg::Quarter => s.sint(100) as f64 / 4.0,
            Reg::Offset(o) => (o + s.sint(20)) as f64,
            Reg::Far(k, m) => ((1i64 << k) + s.sint(m)) as f64,
            Reg::Grid { bits, k } => s.sint(1i64 << bits) as f64 * 2f64.powi(k),
            Reg::Real(m) => (s.unit() * 2.0 - 1.0) * m,
            Reg::Mixed(e) => {
                let k = s.sint(e as i64) as i32;
                (s.unit() * 2.0 - 1.0) * 2f64.powi(k)
            }
        }
    }
    pub fn pt(&self, s: &mut Src) -> Coordinate {
        if let Reg::Shear(m) = *self {
            let (u, v) = (s.sint(4), s.sint(4));
            return Coordinate::new_xy((u * m[0] + v * m[1] + m[4]) as f64, (u * m[2] + v * m[3] + m[5]) as f64);
        }
        if let Reg::Far(k, m) = *self {
            let (a, b) = (1i64 << k, [1i64 << k, -(1i64 << (k / 2)), 3 << (k - 1)][(k % 3) as usize]);
            return Coordinate::new_xy((a + s.sint(m)) as f64, (b + s.sint(m)) as f64);
        }
        if let Reg::Offset(o) = *self {
            // the two axes get different offsets
            let w = match o.trailing_zeros() % 3 {
                0 => -o,
                1 => 2 * o,
                _ => o / 1024,
            };
            let (u, v) = (s.sint(20), s.sint(20));
            return Coordinate::new_xy((o + u) as f64, (w + v) as f64);
        }
        let x = self.num(s);
        let y = self.num(s);
        Coordinate::new_xy(x, y)
    }
    /// grid step of an exact regime
    pub fn step(&self) -> f64 {
        match *self {
            Reg::Quarter => 0.25,
            Reg::Fine(k) => 2f64.powi(-k),
            Reg::Grid { k, .. } => 2f64.powi(k),
            _ => 1.0,
        }
    }
    /// largest |v| that keeps differences exact
    pub fn limit(&self) -> f64 {
        match *self {
            Reg::Grid { k, .. } => 2f64.powi(k + 52),
            Reg::Quarter => 2f64.powi(50),
            Reg::Fine(k) => 2f64.powi(52 - k),
            Reg::Shear(_) => 2f64.powi(53),
            _ => 2f64.powi(52),
        }
    }
    /// snap a value to the regime's grid
    pub fn snap(&self, v: f64) -> f64 {
        if self.is_exact() {
            let st = self.step();
            let r = (v / st).round() * st;
            r.clamp(-self.limit(), self.limit())
        } else {
            v
        }
    }
}

/// increasing values: subnormals, neighbours of one, of a large and of a small power of two, opposite extremes
pub const TABLES: [[f64; 5]; 6] = [
    [-1e-323, -5e-324, 0.0, 5e-324, 1e-323],
    [1.0 - f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 1.0, 1.0 + f64::EPSILON, 1.0 + 2.0 * f64::EPSILON],
    [1e300, 1.0000000000000002e300, 1.0000000000000003e300, 1.0000000000000005e300, 1.0000000000000006e300],
    [-2.2250738585072014e-308, -1e-310, 0.0, 1e-310, 2.2250738585072014e-308],
    [-1e-12, -1e-13, 0.0, 1e-13, 1e-12],
    [f64::NEG_INFINITY, -f64::MAX, 0.0, f64::MAX, f64::INFINITY],
];
pub fn c2(x: f64, y: f64) -> Coordinate {
    Coordinate::new_xy(x, y)
}

/// usually 1, otherwise a power of two by which a whole case can be multiplied without rounding
pub fn rescale(s: &mut Src) -> f64 {
    if s.chance(1, 4) { 2f64.powi(s.sint(100) as i32) } else { 1.0 }
}
/// as far as squares of the ordinates allow
pub fn rescale_wide(s: &mut Src) -> f64 {
    if s.chance(1, 30) { 2f64.powi(s.sint(440) as i32) } else { rescale(s) }
}
pub fn scale_by(v: &mut [&mut Coordinate], k: f64) {
    for p in v.iter_mut() {
        p.x *= k;
        p.y *= k;
    }
}

/// three points, biased towards (near-)collinear configurations
pub fn triple(s: &mut Src, r: Reg) -> (Coordinate, Coordinate, Coordinate) {
    let a = r.pt(s);
    let b = if s.chance(1, 16) { a } else { r.pt(s) };
    let c = near_line(s, r, &a, &b);
    (a, b, c)
}

/// a point which is often on, or next to, the line a-b
pub fn near_line(s: &mut Src, r: Reg, a: &Coordinate, b: &Coordinate) -> Coordinate {
    match s.below(6) {
        0 | 1 => r.pt(s),
        2 => {
            if s.bool() {
                *a
            } else {
                *b
            }
        }
        3 => {
            // integer combination
            let t = s.sint(3) as f64;
            c2(r.snap(a.x + t * (b.x - a.x)), r.snap(a.y + t * (b.y - a.y)))
        }
        4 => {
            let t = s.unit() * 3.0 - 1.0;
            c2(r.snap(a.x + t * (b.x - a.x)), r.snap(a.y + t * (b.y - a.y)))
        }
        _ => {
            let t = [0.5, 0.25, 2.0, -1.0, 0.75][s.below(5)];
            let mut x = r.snap(a.x + t * (b.x - a.x));
            let mut y = r.snap(a.y + t * (b.y - a.y));
            let dx = s.sint(2) as f64;
            let dy = s.sint(2) as f64;
            if r.is_exact() {
                x = r.snap(x + dx * r.step());
                y = r.snap(y + dy * r.step());
            } else {
                x += dx * ulp(x);
                y += dy * ulp(y);
            }
            c2(x, y)
        }
    }
}

/// closed ring (first == last) of n distinct-ish vertices, arbitrary (possibly self-crossing)
pub fn any_ring(s: &mut Src, r: Reg, max: usize) -> Vec<Coordinate> {
    let n = 3 + s.size(max.max(4) - 3);
    let mut v: Vec<Coordinate> = Vec::new();
    for _ in 0..n {
        let p = if !v.is_empty() && s.chance(1, 8) { v[v.len() - 1] } else { r.pt(s) };
        v.push(p);
    }
    let f = v[0];
    v.push(f);
    v
}

/// Simple (non self-intersecting) closed ring on integer coordinates, built by star-shaped
/// or staircase construction; returns (ring, is_ccw).
pub fn simple_ring(s: &mut Src, max: usize) -> (Vec<Coordinate>, bool) {
    let mut v: Vec<(i64, i64)> = Vec::new();
    match s.below(4) {
        0 => {
            // x-monotone polygon: lower and upper chains
            let n = 2 + s.size(max.max(3));
            let mut x = s.sint(5);
            let mut low = vec![];
            let mut upp = vec![];
            for i in 0..n {
                let lo = s.sint(6);
                let hi = lo + 1 + s.range(0, 6);
                low.push((x, lo));
                upp.push((x, hi));
                let _ = i;
                x += 1 + s.range(0, 4);
            }
            v.extend(low);
            upp.reverse();
            v.extend(upp);
        }
        1 => {
            // star shaped around an interior point, vertices on directions sorted by angle
            let dirs: [(i64, i64); 16] = [
                (1, 0), (2, 1), (1, 1), (1, 2), (0, 1), (-1, 2), (-1, 1), (-2, 1),
                (-1, 0), (-2, -1), (-1, -1), (-1, -2), (0, -1), (1, -2), (1, -1), (2, -1),
            ];
            let (cx, cy) = (s.sint(20), s.sint(20));
            let mut any = 0;
            for (i, d) in dirs.iter().enumerate() {
                let forced = i % 4 == 0; // keeps gaps below 180 degrees
                if forced || s.bool() {
                    let k = 1 + s.range(0, 8);
                    v.push((cx + d.0 * k, cy + d.1 * k));
                    any += 1;
                }
            }
            let _ = any;
        }
        2 => {
            // triangle
            loop {
                let a = (s.sint(9), s.sint(9));
                let b = (s.sint(9), s.sint(9));
                let c = (s.sint(9), s.sint(9));
                let d = (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0);
                if d > 0 {
                    v = vec![a, b, c];
                    break;
                } else if d < 0 {
                    v = vec![a, c, b];
                    break;
                }
                // degenerate draw: fall back to a fixed triangle offset (keeps shrinking total)
                v = vec![(a.0, a.1), (a.0 + 2, a.1), (a.0, a.1 + 1)];
                break;
            }
        }
        _ => {
            // histogram with a flat or stepped top: many horizontal edges
            let n = 1 + s.size(max.max(3));
            let base = s.sint(5);
            let mut x = s.sint(5);
            let x0 = x;
            let mut top = vec![];
            for _ in 0..n {
                let h = base + 1 + s.range(0, 4);
                let w = 1 + s.range(0, 3);
                top.push((x, h));
                top.push((x + w, h));
                x += w;
            }
            v.push((x0, base));
            v.push((x, base));
            top.reverse();
            v.extend(top);
        }
    }
    // v is counter-clockwise
    let mut w: Vec<(i64, i64)> = Vec::new();
    for p in v {
        if w.last() != Some(&p) {
            w.push(p);
        }
    }
    // rotate the start vertex
    let k = s.below(w.len());
    w.rotate_left(k);
    let ccw = s.bool();
    if !ccw {
        w.reverse();
    }
    // optionally repeat vertices
    let mut out: Vec<(i64, i64)> = Vec::new();
    let rep = s.chance(1, 3);
    for p in &w {
        out.push(*p);
        if rep && s.chance(1, 3) {
            out.push(*p);
            if s.chance(1, 3) {
                out.push(*p);
            }
        }
    }
    out.push(w[0]);
    // occasionally scaled / shifted, exactly
    let (sc, ox, oy) = match s.below(4) {
        0 | 1 => (1.0, 0.0, 0.0),
        2 => (2f64.powi(s.sint(30) as i32), 0.0, 0.0),
        _ => (1.0, (s.sint(1 << 40)) as f64, (s.sint(1 << 40)) as f64),
    };
    (out.iter().map(|p| c2(p.0 as f64 * sc + ox, p.1 as f64 * sc + oy)).collect(), ccw)
}

pub fn fc(c: &Coordinate) -> String {
    if c.z.is_nan() && c.m.is_nan() {
        format!("({:?},{:?})", c.x, c.y)
    } else {
        format!("({:?},{:?},z={:?},m={:?})", c.x, c.y, c.z, c.m)
    }
}
pub fn fcs(v: &[Coordinate]) -> String {
    format!("[{}]", v.iter().map(fc).collect::<Vec<_>>().join(" "))
}

/// values at the edges of the number format
pub fn special(s: &mut Src) -> f64 {
    let v = [0.0, f64::INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 2f64.powi(60), 2f64.powi(-60)][s.below(9)];
    if s.bool() { -v } else { v }
}
/// the same stored number: bit for bit, except that all NaN count as one
pub fn stored(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
pub fn stored_c(a: &Coordinate, b: &Coordinate) -> bool {
    stored(a.x, b.x) && stored(a.y, b.y) && stored(a.z, b.z) && stored(a.m, b.m)
}
pub fn stored_cs(a: &[Coordinate], b: &[Coordinate]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| stored_c(x, y))
}

/// numeric equality, NaN equal to itself
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
pub fn same_c(a: &Coordinate, b: &Coordinate) -> bool {
    same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z) && same(a.m, b.m)
}
pub fn same_cs(a: &[Coordinate], b: &[Coordinate]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_c(x, y))
}

/// f64 as an exact rational-friendly wrapper
pub fn dy(x: f64) -> Dy {
    Dy::f(x)
}
