//! Geometry objects next to their model: nested coordinate lists.
use crate::ck;
use crate::engine::*;
use crate::exact::*;
use crate::g::*;
use crate::gens::*;
use crate::geo::*;
use crate::seqs::{Kind, KINDS};

pub type Ring = Vec<Coordinate>;
type PM = PrecisionModel;

/// give planar coordinates the further ordinates of a kind; a closed list stays closed
pub fn deco(s: &mut Src, v: &mut [Coordinate], k: Kind) {
    let n = v.len();
    if k == (2, 0) {
        return;
    }
    let t = s.sint(40) as f64;
    for (i, c) in v.iter_mut().enumerate() {
        let u = t + i as f64 / 4.0;
        match k {
            (3, 0) => c.z = u,
            (3, 1) => c.m = u,
            _ => {
                c.z = u;
                c.m = -u;
            }
        }
    }
    if n > 1 && v[0].equals_2d(&v[n - 1]) {
        v[n - 1] = v[0];
    }
}
/// now and then every ring gets the same factors on x and on y, where that is exact: values that need many bits,
/// large or small ones, the shape and all orientations unchanged
pub fn stretch(s: &mut Src, rings: &mut [&mut Ring]) {
    if !s.chance(1, 4) {
        return;
    }
    let mut f = |s: &mut Src| {
        let odd = match s.below(3) { 0 => 1.0, 1 => 715827883.0, _ => (1 + 2 * s.below(1 << 20)) as f64 };
        odd * 2f64.powi(s.sint(60) as i32)
    };
    let f = [f(s), f(s)];
    let exact = |a: f64, d: f64| Dy::f(a * d).eq(&(&Dy::f(a) * &Dy::f(d)));
    if rings.iter().all(|r| r.iter().all(|p| exact(p.x, f[0]) && exact(p.y, f[1]))) {
        for p in rings.iter_mut().flat_map(|r| r.iter_mut()) {
            p.x *= f[0];
            p.y *= f[1];
        }
    }
}
/// multiples of a quarter (up to 2^20) mapped by one strictly increasing function: to neighbouring numbers of the
/// format, or by a power of two, which is returned
pub fn warp(s: &mut Src, ms: &mut [Mo], nonlinear: bool) -> f64 {
    let mut all: Vec<&mut Coordinate> = ms.iter_mut().flat_map(|m| m.parts.iter_mut()).flatten().flatten().collect();
    warp_points(s, &mut all, nonlinear)
}
pub fn warp_points(s: &mut Src, all: &mut [&mut Coordinate], nonlinear: bool) -> f64 {
    let what = s.below(8);
    if what == 0 {
        let f = 2f64.powi(s.sint(400) as i32);
        for p in all {
            p.x *= f;
            p.y *= f;
        }
        return f;
    }
    if what == 1 && nonlinear {
        let mut base = |s: &mut Src| (s.pick(&[0.0f64, 1.0, 0.1, 1e10, 1e-300, 1e300, 123456.789]).to_bits(), s.bool());
        let (a, b) = (base(s), base(s));
        let f = |v: f64, b: (u64, bool)| {
            let n = (4.0 * v) as i64 + (1 << 23);
            if b.1 { f64::from_bits(b.0 + n as u64) } else { -f64::from_bits(b.0 + ((1 << 24) - n) as u64) }
        };
        for p in all {
            p.x = f(p.x, a);
            p.y = f(p.y, b);
        }
        return 0.0;
    }
    1.0
}
pub fn kind(s: &mut Src) -> Kind {
    if s.bool() { (2, 0) } else { KINDS[s.below(4)] }
}
/// a simple closed ring without repeated points, as generated orientation
pub fn clean_ring(s: &mut Src, max: usize) -> (Ring, bool) {
    let (mut r, ccw) = simple_ring(s, max);
    r.dedup_by(|a, b| a.equals_2d(b));
    (r, ccw)
}
/// a ring of a polygon: mostly simple, sometimes arbitrary; anywhere in the plane
pub fn ring(s: &mut Src, k: Kind) -> Ring {
    let mut r = if s.chance(1, 6) { any_ring(s, Reg::Small, 8) } else { clean_ring(s, 8).0 };
    let (dx, dy) = (s.sint(3) as f64, s.sint(3) as f64);
    for p in r.iter_mut() {
        p.x += dx;
        p.y += dy;
    }
    deco(s, &mut r, k);
    r
}
pub fn line(s: &mut Src, k: Kind) -> Ring {
    let n = match s.below(6) { 0 => 0, 1 => 2, _ => 2 + s.size(6) };
    let mut v: Ring = (0..n).map(|_| Reg::Small.pt(s)).collect();
    if n > 2 && s.chance(1, 3) {
        v[n - 1] = v[0];
    }
    if n > 3 && s.chance(1, 6) {
        // palindromic
        for i in 0..n / 2 {
            v[n - 1 - i] = v[i];
        }
    }
    deco(s, &mut v, k);
    // ends that meet in the plane and differ in the further ordinates
    if n > 1 && k != (2, 0) && v[0].equals_2d(&v[n - 1]) && s.chance(1, 3) {
        let d = 1.0 + s.below(3) as f64;
        v[n - 1].z += d;
        v[n - 1].m += d;
    }
    v
}
pub fn pm(s: &mut Src) -> Option<PM> {
    match s.below(5) {
        0 => Some(PM::default()),
        1 => Some(PM::new_with_scale(s.pick(&[1.0, 2.0, 10.0]))),
        2 => Some(PM::new_with_scale(-4.0)),
        _ => None,
    }
}

pub fn mk_ring(s: &mut Src, v: &Ring) -> LinearRing {
    let q = || CoordinateArraySequenceFactory::create_from_coordinates(v);
    match s.below(4) {
        0 => LinearRing::new_with_coordinate_array_sequence(&q()),
        1 => GeometryFactory::create_linear_ring_with_coordinates(v),
        2 => {
            if v.is_empty() {
                GeometryFactory::create_linear_ring()
            } else {
                GeometryFactory::create_linear_ring_with_coordinate_array_sequence(&q())
            }
        }
        _ => LinearRing::new_with_coordinates(v),
    }
}
pub fn mk_line(s: &mut Src, v: &Ring) -> LineString {
    let q = || CoordinateArraySequenceFactory::create_from_coordinates(v);
    match s.below(4) {
        0 => GeometryFactory::create_line_string_coordinates(v),
        1 => GeometryFactory::create_line_string_coordinate_array_sequence(&q()),
        2 => {
            let mut l = GeometryFactory::create_line_string();
            l.init(q());
            l
        }
        _ => LineString::new_from_coordinate_sequence(q()),
    }
}
pub fn mk_point(s: &mut Src, v: &Ring, m: Option<PM>) -> Point {
    match v.first() {
        None => {
            if s.bool() { Point::default() } else { GeometryFactory::create_point() }
        }
        Some(c) => match s.below(4) {
            _ if m.is_some() => Point::new_with_coordinate(c, m),
            0 => GeometryFactory::create_point_from_coordinate(c),
            1 => GeometryFactory::create_point_from_coordinate_array_sequence(&CoordinateArraySequenceFactory::create_from_coordinates(v)),
            2 => Point::new_with_coordinate_seq(&CoordinateArraySequenceFactory::create_from_coordinates(v)),
            _ => Point::new_with_coordinate(c, None),
        },
    }
}
pub fn mk_poly(s: &mut Src, v: &[Ring], m: Option<PM>) -> Polygon {
    let shell = mk_ring(s, &v[0]);
    let holes: Vec<LinearRing> = v[1..].iter().map(|h| mk_ring(s, h)).collect();
    match (m, holes.is_empty()) {
        (Some(m), true) if s.bool() => Polygon::new_with_linear_ring_precision_model(&shell, m),
        (Some(m), _) => Polygon::new_with_linear_ring_vec_precision_model(&shell, &holes, m),
        (None, true) => match s.below(5) {
            0 => GeometryFactory::create_polygon_with_coordinates(&v[0]),
            1 => GeometryFactory::create_polygon_with_coordinate_array_sequence(&CoordinateArraySequenceFactory::create_from_coordinates(&v[0])),
            2 => GeometryFactory::create_polygon_with_linear_ring(&shell),
            3 => Polygon::new_with_linear_ring(&shell),
            _ => Polygon::new_with_linear_ring_vec(&shell, &holes),
        },
        (None, false) => {
            if s.bool() { GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes) } else { Polygon::new_with_linear_ring_vec(&shell, &holes) }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    Point,
    Line,
    Ring,
    MultiPoint,
    MultiLine,
    Polygon,
    MultiPolygon,
}
pub const TYPES: [Ty; 7] = [Ty::Point, Ty::Line, Ty::Ring, Ty::MultiPoint, Ty::MultiLine, Ty::Polygon, Ty::MultiPolygon];

/// what an object holds
#[derive(Clone)]
pub struct Mo {
    pub ty: Ty,
    /// members, each a list of rings / lines / points
    pub parts: Vec<Vec<Ring>>,
    pub pm: Option<PM>,
}
pub enum Ob {
    Point(Point),
    Line(LineString),
    Ring(LinearRing),
    MultiPoint(MultiPoint),
    MultiLine(MultiLineString),
    Polygon(Polygon),
    MultiPolygon(MultiPolygon),
}

fn poly_model(s: &mut Src, k: Kind) -> Vec<Ring> {
    if s.chance(1, 8) {
        return vec![vec![]];
    }
    let n = 1 + if s.bool() { 0 } else if s.chance(1, 10) { s.size(16) } else { s.size(4) };
    let mut v: Vec<Ring> = (0..n).map(|_| ring(s, k)).collect();
    // holes that are empty, or copies of another ring
    for i in 1..n {
        match s.below(16) {
            0 => v[i].clear(),
            1 => {
                let j = s.below(i);
                v[i] = v[j].clone();
                if s.bool() {
                    v[i].reverse();
                }
            }
            _ => {}
        }
    }
    v
}
pub fn model(s: &mut Src, ty: Ty) -> Mo {
    let k = kind(s);
    let n = if s.chance(1, 8) { 0 } else if s.chance(1, 12) { 1 + s.size(14) } else { 1 + s.size(3) };
    let parts = match ty {
        Ty::Point => vec![vec![line(s, k).into_iter().take(1).collect()]],
        Ty::Line => vec![vec![line(s, k)]],
        Ty::Ring => vec![vec![if s.chance(1, 8) { vec![] } else { ring(s, k) }]],
        Ty::MultiPoint => (0..n).map(|_| vec![line(s, k).into_iter().take(1).collect()]).collect(),
        Ty::MultiLine => (0..n).map(|_| vec![line(s, k)]).collect(),
        Ty::Polygon => vec![poly_model(s, k)],
        Ty::MultiPolygon => (0..n).map(|_| poly_model(s, k)).collect(),
    };
    let mut parts: Vec<Vec<Ring>> = parts;
    // members that repeat an earlier one
    for i in 1..parts.len() {
        if s.chance(1, 12) {
            let j = s.below(i);
            parts[i] = parts[j].clone();
        }
    }
    // several empty members in front or at the end
    if parts.len() > 1 && s.chance(1, 6) {
        let j = s.below(parts.len());
        let back = s.bool();
        let l = parts.len();
        for i in 0..=j {
            parts[if back { l - 1 - i } else { i }] = vec![vec![]];
        }
    }
    let mut all: Vec<&mut Ring> = parts.iter_mut().flatten().collect();
    stretch(s, &mut all);
    let m = pm(s);
    let m = match ty {
        Ty::Line | Ty::Ring => None,
        Ty::Point if parts[0][0].is_empty() => None,
        _ => m,
    };
    Mo { ty, parts, pm: m }
}
pub fn build(s: &mut Src, m: &Mo) -> Ob {
    match m.ty {
        Ty::Point => Ob::Point(mk_point(s, &m.parts[0][0], m.pm)),
        Ty::Line => Ob::Line(mk_line(s, &m.parts[0][0])),
        Ty::Ring => Ob::Ring(mk_ring(s, &m.parts[0][0])),
        Ty::MultiPoint => {
            let v: Vec<Point> = m.parts.iter().map(|p| mk_point(s, &p[0], None)).collect();
            let flat: Ring = m.parts.iter().flat_map(|p| p[0].clone()).collect();
            Ob::MultiPoint(match m.pm {
                Some(q) => MultiPoint::new_with_points_precision_model(&v, q),
                None => match s.below(4) {
                    0 => GeometryFactory::create_multi_point_from_points(&v),
                    1 if flat.len() == v.len() => GeometryFactory::create_multi_point_with_coordinates(&flat),
                    2 if flat.len() == v.len() => GeometryFactory::create_multi_point_from_coordinate_array_sequence(&CoordinateArraySequenceFactory::create_from_coordinates(&flat)),
                    _ => MultiPoint::new_with_points(&v),
                },
            })
        }
        Ty::MultiLine => {
            let v: Vec<LineString> = m.parts.iter().map(|p| mk_line(s, &p[0])).collect();
            Ob::MultiLine(match m.pm {
                Some(q) => MultiLineString::new_with_line_strings_precision_model(&v, q),
                None => MultiLineString::new_with_line_strings(&v),
            })
        }
        Ty::Polygon => Ob::Polygon(mk_poly(s, &m.parts[0], m.pm)),
        Ty::MultiPolygon => {
            let v: Vec<Polygon> = m.parts.iter().map(|p| mk_poly(s, p, None)).collect();
            Ob::MultiPolygon(match m.pm {
                Some(q) => MultiPolygon::new_with_polygons_precision_model(&v, q),
                None => if s.bool() { GeometryFactory::create_multi_polygon(&v) } else { MultiPolygon::new_with_polygons(&v) },
            })
        }
    }
}
/// always the same construction
pub fn plain(m: &Mo) -> Ob {
    build(&mut Src::replay(vec![]), m)
}
pub fn fm(m: &Mo) -> String {
    let t: Vec<String> = m.parts.iter().map(|p| p.iter().map(|r| fcs(r)).collect::<Vec<_>>().join("/")).collect();
    format!("{:?}{} {{{}}}", m.ty, m.pm.map_or(String::new(), |p| format!("({})", p)), t.join("; "))
}
impl Mo {
    pub fn reversed(&self) -> Mo {
        let mut m = self.clone();
        match m.ty {
            Ty::Point | Ty::MultiPoint => {}
            _ => {
                for r in m.parts.iter_mut().flatten() {
                    r.reverse();
                }
            }
        }
        if m.ty == Ty::MultiLine {
            m.parts.reverse();
        }
        m
    }
    pub fn coords(&self) -> Ring {
        self.parts.iter().flatten().flatten().cloned().collect()
    }
    /// coordinates that decide the extent: polygons by their shells
    pub fn extent(&self) -> Option<(f64, f64, f64, f64)> {
        let area = matches!(self.ty, Ty::Polygon | Ty::MultiPolygon);
        let v: Ring = self.parts.iter().flat_map(|p| p.iter().take(if area { 1 } else { p.len() })).flatten().cloned().collect();
        if v.is_empty() {
            return None;
        }
        let f = |g: fn(&Coordinate) -> f64, lo: bool| v.iter().map(g).fold(if lo { f64::INFINITY } else { f64::NEG_INFINITY }, if lo { f64::min } else { f64::max });
        Some((f(|c| c.x, true), f(|c| c.x, false), f(|c| c.y, true), f(|c| c.y, false)))
    }
    pub fn is_empty(&self) -> bool {
        match self.ty {
            Ty::Polygon | Ty::MultiPolygon => self.parts.iter().all(|p| p[0].is_empty()),
            _ => self.coords().is_empty(),
        }
    }
    /// exact enclosed area: shells minus holes
    pub fn area(&self) -> Dy {
        let mut a = Dy::zero();
        for p in &self.parts {
            for (i, r) in p.iter().enumerate() {
                let v = area2(r).abs().scale2(-1);
                a = if i == 0 { a + v } else { a - v };
            }
        }
        a
    }
    /// all rings' extents added: what an area may be wrong by, relatively
    pub fn gross(&self) -> f64 {
        self.parts.iter().flatten().filter(|r| r.len() > 2).map(|r| {
            let f = |g: fn(&Coordinate) -> f64| r.iter().map(|p| (g(p) - g(&r[0])).abs()).fold(0.0, f64::max);
            r.len() as f64 * f(|c| c.x) * f(|c| c.y)
        }).sum()
    }
    /// sum of the lengths of all rings / lines
    pub fn length(&self) -> f64 {
        self.parts.iter().flatten().map(|r| r.windows(2).map(|w| f64::hypot(w[1].x - w[0].x, w[1].y - w[0].y)).sum::<f64>()).sum()
    }
}
pub fn env_is(e: &Envelope, w: Option<(f64, f64, f64, f64)>) -> bool {
    match w {
        None => e.is_null(),
        Some(w) => !e.is_null() && (e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()) == w,
    }
}
fn ring_is(r: &LinearRing, v: &Ring) -> bool {
    same_cs(&r.get_coordinates(), v)
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12 * b.abs()
}

/// an object holds exactly what its model says
pub fn observe(o: &mut Ob, m: &Mo, when: &str) -> Res {
    let all = m.coords();
    let coords = |v: Vec<Coordinate>| -> Res {
        ck!(same_cs(&v, &all), "{}: coordinates {} instead of {}", when, fcs(&v), fcs(&all));
        Ok(())
    };
    let env = |e: Envelope| -> Res {
        ck!(env_is(&e, m.extent()), "{}: envelope {} of {}", when, e, fm(m));
        Ok(())
    };
    let count = |n: usize, e: bool| -> Res {
        ck!(n == all.len(), "{}: {} points in {}", when, n, fm(m));
        ck!(e == m.is_empty(), "{}: empty {} for {}", when, e, fm(m));
        Ok(())
    };
    let cent = |p: Point, q: Point| -> Res {
        let (p, q) = (p.get_coordinate(), q.get_coordinate());
        let eq = match (&p, &q) { (None, None) => true, (Some(a), Some(b)) => same(a.x, b.x) && same(a.y, b.y), _ => false };
        ck!(eq, "{}: centroid {:?}, a fresh object has {:?} ({})", when, p.map(|c| fc(&c)), q.map(|c| fc(&c)), fm(m));
        Ok(())
    };
    match (o, plain(m)) {
        (Ob::Point(g), Ob::Point(w)) => {
            coords(g.get_coordinates())?;
            count(g.get_num_points(), g.is_empty())?;
            let c = g.get_coordinate();
            ck!(c.is_some() == !all.is_empty() && c.is_none_or(|c| same_c(&c, &all[0])), "{}: coordinate {:?} of {}", when, c.map(|c| fc(&c)), fm(m));
            ck!(g.get_x() == all.first().map(|c| c.x) && g.get_y() == all.first().map(|c| c.y), "{}: x {:?} y {:?} of {}", when, g.get_x(), g.get_y(), fm(m));
            ck!(same_cs(&g.get_coordinate_sequence().to_coordinate_array(), &all), "{}: sequence of {}", when, fm(m));
            ck!(g.equals_exact(&w, 0.0) && w.equals_exact(g, 0.0), "{}: not equal to a fresh {}", when, fm(m));
            env(g.get_envelope_internal())?;
            env(g.compute_envelope_internal())
        }
        (Ob::Line(g), Ob::Line(w)) => {
            coords(g.get_coordinates())?;
            coords(g.get_coordinate_sequence().to_coordinate_array())?;
            coords((0..all.len()).map(|i| g.get_coordinate_n(i)).collect())?;
            coords((0..all.len()).map(|i| g.get_point_n(i).get_coordinate().unwrap()).collect())?;
            count(g.get_num_points(), g.is_empty())?;
            let end = |p: Option<Point>, c: Option<&Coordinate>| p.is_some() == c.is_some() && c.is_none_or(|c| same_c(&p.unwrap().get_coordinate().unwrap(), c));
            ck!(end(g.get_start_point(), all.first()) && end(g.get_end_point(), all.last()), "{}: ends of {}", when, fm(m));
            ck!(g.get_coordinate().is_some() == !all.is_empty() && g.get_coordinate().is_none_or(|c| same_c(&c, &all[0])), "{}: first coordinate of {}", when, fm(m));
            ck!(near(g.get_length(), m.length()), "{}: length {:?} of {}", when, g.get_length(), fm(m));
            ck!(g.equals_exact(&w, 0.0) && g.compare_to(&w) == 0, "{}: not equal to a fresh {}", when, fm(m));
            env(g.compute_envelope_internal())
        }
        (Ob::Ring(g), Ob::Ring(w)) => {
            coords(g.get_coordinates())?;
            coords(g.get_coordinate_array_sequence().to_coordinate_array())?;
            coords((0..all.len()).map(|i| g.get_coordinate_at_index(i)).collect())?;
            count(g.get_num_points(), g.is_empty())?;
            ck!(g.get_coordinate().is_some() == !all.is_empty() && g.get_coordinate().is_none_or(|c| same_c(&c, &all[0])), "{}: first coordinate of {}", when, fm(m));
            ck!(near(g.get_length(), m.length()), "{}: length {:?} of {}", when, g.get_length(), fm(m));
            ck!(g.equals_exact(&w, 0.0) && g.compare_to_same_class(&w) == 0, "{}: not equal to a fresh {}", when, fm(m));
            env(g.get_envelope_internal())?;
            env(g.compute_envelope_internal())
        }
        (Ob::MultiPoint(g), Ob::MultiPoint(w)) => {
            coords(g.get_coordinates())?;
            count(g.get_num_points(), g.is_empty())?;
            for (i, p) in m.parts.iter().enumerate() {
                let q = g.get_point_at_index(i);
                ck!(q.is_some_and(|q| same_cs(&q.get_coordinates(), &p[0])), "{}: member {} of {}", when, i, fm(m));
                let q = g.get_coordinate(i);
                ck!(q.is_some() == !p[0].is_empty() && q.is_none_or(|q| same_c(&q, &p[0][0])), "{}: coordinate of member {} of {}", when, i, fm(m));
            }
            ck!(g.get_point_at_index(m.parts.len()).is_none(), "{}: a member too many in {}", when, fm(m));
            let q = g.get_precision_model();
            ck!(q.is_some() == m.pm.is_some() && q.is_none_or(|q| q.equals(m.pm.unwrap())), "{}: precision model of {}", when, fm(m));
            ck!(g.equals_exact(w, 0.0), "{}: not equal to a fresh {}", when, fm(m));
            env(g.get_envelope_internal())
        }
        (Ob::MultiLine(g), Ob::MultiLine(w)) => {
            ck!(g.equals_exact(&w, 0.0) && w.equals_exact(g, 0.0), "{}: not equal to a fresh {}", when, fm(m));
            ck!(g.is_empty() == m.is_empty(), "{}: empty {} for {}", when, g.is_empty(), fm(m));
            Ok(())
        }
        (Ob::Polygon(g), Ob::Polygon(w)) => {
            coords(g.get_coordinates())?;
            count(g.get_num_points(), g.is_empty())?;
            ck!(g.get_num_interior_ring() == m.parts[0].len() - 1, "{}: {} holes in {}", when, g.get_num_interior_ring(), fm(m));
            ck!(ring_is(&g.get_exterior_ring(), &m.parts[0][0]), "{}: shell {} of {}", when, fcs(&g.get_exterior_ring().get_coordinates()), fm(m));
            for (i, h) in m.parts[0][1..].iter().enumerate() {
                ck!(ring_is(&g.get_interior_ring_n(i), h), "{}: hole {} is {} in {}", when, i, fcs(&g.get_interior_ring_n(i).get_coordinates()), fm(m));
            }
            let c = g.get_coordinate();
            ck!(c.is_some() == !all.is_empty() && c.is_none_or(|c| same_c(&c, &all[0])), "{}: first coordinate of {}", when, fm(m));
            ck!(g.equals_exact(&w, 0.0) && w.equals_exact(g, 0.0) && g.compare_to(&w) == 0, "{}: not equal to a fresh {}", when, fm(m));
            ck!((g.get_area() - m.area().to_f64()).abs() <= 1e-12 * m.gross(), "{}: area {:?} of {}", when, g.get_area(), fm(m));
            ck!(near(g.get_length(), m.length()), "{}: length {:?} of {}", when, g.get_length(), fm(m));
            cent(g.get_centroid(), w.get_centroid())?;
            env(g.get_envelope_internal())?;
            env(g.compute_envelope_internal())
        }
        (Ob::MultiPolygon(g), Ob::MultiPolygon(w)) => {
            ck!(g.get_num_polygons() == m.parts.len() && g.is_empty() == m.is_empty(), "{}: {} members, empty {} in {}", when, g.get_num_polygons(), g.is_empty(), fm(m));
            for (i, p) in m.parts.iter().enumerate() {
                let mut q = Ob::Polygon(g.get_polygon_at_index(i));
                observe(&mut q, &Mo { ty: Ty::Polygon, parts: vec![p.clone()], pm: None }, &format!("{} (member {})", when, i))?;
            }
            ck!((g.get_area() - m.area().to_f64()).abs() <= 1e-12 * m.gross(), "{}: area {:?} of {}", when, g.get_area(), fm(m));
            cent(g.get_centroid(), w.get_centroid())?;
            ck!(g.equals_exact(w, 0.0), "{}: not equal to a fresh {}", when, fm(m));
            Ok(())
        }
        _ => Err("object of another type".into()),
    }
}
