//! P15: equality and ordering of coordinates and coordinate sequences.
use gv::g::*;
use gv::*;
use std::cmp::Ordering;

fn num(s: &mut Src) -> f64 {
    match s.below(4) {
        0 | 1 => s.sint(2) as f64,
        2 => s.pick(&[0.0, -0.0, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, 5e-324, 0.1, f64::MAX, f64::MIN]),
        _ => Reg::any(s).num(s),
    }
}
fn sgn(o: Ordering) -> i32 {
    o as i32
}

/// a height or measure
fn hgt(s: &mut Src) -> f64 {
    if s.chance(1, 4) { Reg::any(s).num(s) } else { s.sint(2) as f64 }
}
fn coord(s: &mut Src) -> Coordinate {
    let (x, y) = (num(s), num(s));
    match s.below(4) {
        0 => Coordinate::new_xy(x, y),
        1 => Coordinate::new_xyz(x, y, hgt(s)),
        2 => Coordinate::new_xym(x, y, hgt(s)),
        _ => Coordinate::new_xyzm(x, y, hgt(s), hgt(s)),
    }
}
fn vary(s: &mut Src, a: &Coordinate) -> Coordinate {
    let mut b = *a;
    match s.below(7) {
        0 => b.x = num(s),
        1 => b.y = num(s),
        2 => b.z = if s.bool() { f64::NAN } else { hgt(s) },
        3 => b.m = if s.bool() { f64::NAN } else { hgt(s) },
        4 => b.x = next_up(b.x),
        5 => b.y = next_down(b.y),
        _ => {}
    }
    if b.x.is_nan() { b.x = 1.0; }
    if b.y.is_nan() { b.y = 1.0; }
    b
}

fn coords(s: &mut Src, c: &mut Case) -> Res {
    let a = coord(s);
    let b = if s.bool() { vary(s, &a) } else { coord(s) };
    let d = if s.bool() { vary(s, &b) } else { coord(s) };
    c.show(|| format!("{} {} {}", fc(&a), fc(&b), fc(&d)));
    let cmp = |p: &Coordinate, q: &Coordinate| sgn(p.x.partial_cmp(&q.x).unwrap().then(p.y.partial_cmp(&q.y).unwrap()));
    let (ab, bd, ad) = (cmp(&a, &b), cmp(&b, &d), cmp(&a, &d));
    c.nontrivial_if(ab != 0);
    c.lab(ab == 0, "equal in the plane");
    ck!(a.compare_to(&b) == ab && b.compare_to(&a) == -ab, "compare_to {} / {}, expected {}", a.compare_to(&b), b.compare_to(&a), ab);
    if a.compare_to(&b) <= 0 && b.compare_to(&d) <= 0 {
        ck!(a.compare_to(&d) <= 0 && ad <= 0, "compare_to is not transitive");
    }
    let _ = bd;
    ck!(a.equals_2d(&b) == (ab == 0) && b.equals_2d(&a) == (ab == 0), "equals_2d {} / {}, compare {}", a.equals_2d(&b), b.equals_2d(&a), ab);
    let e3 = ab == 0 && same(a.z, b.z);
    ck!(a.equals_3d(&b) == e3 && b.equals_3d(&a) == e3, "equals_3d {}, expected {}", a.equals_3d(&b), e3);
    ck!(a.equals_3d(&a) && a.equals_2d(&a) && a.compare_to(&a) == 0, "not equal to itself");
    ck!(Coordinates::equal(&a, &b, 0.0) == (ab == 0), "Coordinates::equal with no tolerance");
    if [a.x, a.y, b.x, b.y].iter().all(|v| v.is_finite() && v.abs() < 1e150) {
        let dx = &Dy::f(a.x) - &Dy::f(b.x);
        let dy_ = &Dy::f(a.y) - &Dy::f(b.y);
        let q = Rt::dy(&dx.sq() + &dy_.sq());
        let v = a.distance(&b);
        ck!(near_sqrt(v, &q, 4e-16 * v + 1e-300) && v == b.distance(&a) && (v == 0.0) == (ab == 0), "distance {:?} / {:?}, exactly sqrt {:?}", v, b.distance(&a), q.approx());
        let (az, bz) = (if a.z.is_nan() { 0.0 } else { a.z }, if b.z.is_nan() { 0.0 } else { b.z });
        let (p, q3) = (Coordinate::new_xyz(a.x, a.y, az), Coordinate::new_xyz(b.x, b.y, bz));
        let big = a.x.abs().max(a.y.abs()).max(b.x.abs()).max(b.y.abs());
        if (dx.to_f64() == 0.0 || dx.to_f64().abs() > 1e-140) && az.abs() < 1e150 && bz.abs() < 1e150 {
            let dz = &Dy::f(az) - &Dy::f(bz);
            let q = Rt::dy(&(&dx.sq() + &dy_.sq()) + &dz.sq());
            let v = p.distance_3d(&q3);
            ck!(near_sqrt(v, &q, 1e-15 * v + 1e-150) , "distance_3d {:?}, exactly sqrt {:?} ({:e})", v, q.approx(), big);
            ck!(v == q3.distance_3d(&p), "distance_3d is not symmetric");
        }
        // tolerant comparison
        let t = match s.below(4) {
            0 => 0.0,
            1 => dx.to_f64().abs(),
            2 => s.sint(4).abs() as f64,
            _ => s.unit() * 4.0,
        };
        let fx = (a.x - b.x).abs() <= t;
        let fy = (a.y - b.y).abs() <= t;
        ck!(a.equals_2d_with_tolerance(&b, t) == (fx && fy) && b.equals_2d_with_tolerance(&a, t) == (fx && fy), "equals_2d_with_tolerance({:?}) {}", t, a.equals_2d_with_tolerance(&b, t));
        ck!(NumberUtil::equals_with_tolerance(a.x, b.x, t) == fx, "equals_with_tolerance");
        if t > 1e-300 {
            let e = Coordinates::equal(&a, &b, t);
            let dd = Rt::f(t).sq();
            let exact = Rt::dy(&dx.sq() + &dy_.sq());
            // decided when the distance is not within rounding of the tolerance
            if exact.le(&dd.mul(&Rt::f(1.0 - 1e-14))) {
                ck!(e, "Coordinates::equal denies {:?} <= {:?}", v, t);
            } else if dd.mul(&Rt::f(1.0 + 1e-14)).le(&exact) {
                ck!(!e, "Coordinates::equal accepts {:?} > {:?}", v, t);
            }
        }
        if !a.z.is_nan() && !b.z.is_nan() {
            let fz = (a.z - b.z).abs() <= t;
            ck!(a.equal_in_z(&b, t) == fz && a.equal_in_coordinate_z(&b, t) == fz, "equal_in_z({:?})", t);
        } else {
            ck!(!a.equal_in_z(&b, t), "equal_in_z with a missing z");
        }
    }
    // accessors
    let o = |p: &Coordinate, i: i32| p.get_ordinate(i);
    ck!(o(&a, 0) == Some(a.x) && o(&a, 1) == Some(a.y) && o(&a, 2).map_or(false, |z| same(z, a.z)), "get_ordinate");
    ck!(a.get_x() == a.x && a.get_y() == a.y && same(a.get_z(), a.z) && same(a.get_m(), a.m), "getters");
    // kinds by which ordinates are defined; an undefined x or y belongs to none
    {
        let mut q = a;
        match s.below(6) {
            0 => q.x = f64::NAN,
            1 => q.y = f64::NAN,
            _ => {}
        }
        let xy = !q.x.is_nan() && !q.y.is_nan();
        let (z, m) = (!q.z.is_nan(), !q.m.is_nan());
        ck!((q.is_xy(), q.is_xym(), q.is_xyzm()) == (xy && !z && !m, xy && !z && m, xy && z && m), "kind of {}: {:?}", fc(&q), (q.is_xy(), q.is_xym(), q.is_xyzm()));
    }
    let i = s.below(3) as i32;
    let v = num(s);
    let mut w = a;
    w.set_ordinate(i, v);
    let mut k = a;
    match i {
        0 => k.x = v,
        1 => k.y = v,
        _ => k.z = v,
    }
    ck!(same_c(&w, &k), "set_ordinate({}) gave {}", i, fc(&w));
    let mut w = Coordinate::new_xyzm(1.0, 2.0, 3.0, 4.0);
    w.set_x(a.x);
    w.set_y(a.y);
    w.set_z(a.z);
    w.set_m(a.m);
    ck!(same_c(&w, &a), "setters gave {}", fc(&w));
    let mut w = Coordinate::new_xyzm(1.0, 2.0, 3.0, 4.0);
    w.set_coordinate(&a);
    ck!(w.equals_3d(&a), "set_coordinate gave {}", fc(&w));
    ck!(same_c(&Coordinate::from_coordinate(&a), &a), "from_coordinate gave {}", fc(&Coordinate::from_coordinate(&a)));
    ck!(a.is_valid() == (a.x.is_finite() && a.y.is_finite()), "is_valid {}", a.is_valid());
    let (xy, xym, xyzm) = (a.z.is_nan() && a.m.is_nan(), a.z.is_nan() && !a.m.is_nan(), !a.z.is_nan() && !a.m.is_nan());
    ck!(a.is_xy() == xy && a.is_xym() == xym && a.is_xyzm() == xyzm, "kind of {}", fc(&a));
    let dm = if xy { (2, 0) } else if xym { (3, 1) } else if xyzm { (4, 1) } else { (3, 0) };
    ck!((Coordinates::dimension(&a), Coordinates::measures(&a)) == dm, "dimension {} measures {} of {}", Coordinates::dimension(&a), Coordinates::measures(&a), fc(&a));
    Ok(())
}

fn seq(v: &Vec<Coordinate>, d: usize, m: usize) -> CoordinateArraySequence {
    CoordinateArraySequence::new_with_coordinates_dimension_measures(v.clone(), d as i32, m as i32)
}
const KINDS: [(usize, usize); 4] = [(2, 0), (3, 0), (3, 1), (4, 1)];

fn pts(s: &mut Src, k: (usize, usize), n: usize) -> Vec<Coordinate> {
    let mut z = |s: &mut Src| if s.chance(1, 6) { f64::NAN } else { s.sint(1) as f64 };
    (0..n)
        .map(|_| {
            let (x, y) = (s.sint(1) as f64, s.sint(1) as f64);
            match k {
                (2, 0) => Coordinate::new_xy(x, y),
                (3, 0) => Coordinate::new_xyz(x, y, z(s)),
                (3, 1) => Coordinate::new_xym(x, y, z(s)),
                _ => Coordinate::new_xyzm(x, y, z(s), z(s)),
            }
        })
        .collect()
}
/// the ordinates of a coordinate in storage order
fn ords(p: &Coordinate, k: (usize, usize)) -> Vec<f64> {
    match k {
        (2, 0) => vec![p.x, p.y],
        (3, 0) => vec![p.x, p.y, p.z],
        (3, 1) => vec![p.x, p.y, p.m],
        _ => vec![p.x, p.y, p.z, p.m],
    }
}
fn fcmp(a: f64, b: f64) -> i32 {
    match (a.is_nan(), b.is_nan()) {
        (true, true) => 0,
        (true, false) => -1,
        (false, true) => 1,
        _ => sgn(a.partial_cmp(&b).unwrap()),
    }
}
fn want(a: &[Coordinate], ka: (usize, usize), b: &[Coordinate], kb: (usize, usize), limit: Option<usize>) -> i32 {
    let mut d = ka.0.min(kb.0);
    match limit {
        Some(l) if l <= d => d = l,
        _ => {
            if ka.0 != kb.0 {
                return if ka.0 < kb.0 { -1 } else { 1 };
            }
        }
    }
    for (p, q) in a.iter().zip(b) {
        for (x, y) in ords(p, ka).iter().zip(ords(q, kb).iter()).take(d) {
            let v = fcmp(*x, *y);
            if v != 0 {
                return v;
            }
        }
    }
    sgn(a.len().cmp(&b.len()))
}

fn sequences(s: &mut Src, c: &mut Case) -> Res {
    // one comparator is a total preorder; its value is given by dimension, ordinates, length
    let ka = KINDS[s.below(4)];
    let kb = if s.chance(2, 3) { ka } else { KINDS[s.below(4)] };
    let kc = if s.chance(2, 3) { ka } else { KINDS[s.below(4)] };
    // Z against M is not an order of like with like
    let clash = |p: (usize, usize), q: (usize, usize)| p.1 != q.1 && p.0 == 3 && q.0 == 3;
    if clash(ka, kb) || clash(ka, kc) || clash(kb, kc) {
        c.label("Z against M (skipped)");
        return Ok(());
    }
    let n = s.size(4);
    let a = pts(s, ka, n);
    let mk = |s: &mut Src, base: &Vec<Coordinate>, kbase: (usize, usize), k: (usize, usize)| {
        if k == kbase && s.bool() {
            let mut v = base.clone();
            if !v.is_empty() {
                let i = s.below(v.len());
                match s.below(4) {
                    0 => v[i] = pts(s, k, 1)[0],
                    1 => { v.truncate(i); }
                    2 => v.push(pts(s, k, 1)[0]),
                    _ => {}
                }
            }
            v
        } else {
            let n = s.size(4);
            pts(s, k, n)
        }
    };
    let b = mk(s, &a, ka, kb);
    let d = mk(s, &b, kb, kc);
    let limit = if s.bool() { None } else { Some(s.below(6)) };
    c.show(|| format!("limit {:?}: {:?}{} {:?}{} {:?}{}", limit, ka, fcs(&a), kb, fcs(&b), kc, fcs(&d)));
    let cmp = match limit {
        None => CoordinateSequenceComparator::default(),
        Some(l) => CoordinateSequenceComparator::new_with_dimension_limit(l as i32),
    };
    let (sa, sb, sd) = (seq(&a, ka.0, ka.1), seq(&b, kb.0, kb.1), seq(&d, kc.0, kc.1));
    let f = |p: &CoordinateArraySequence, q: &CoordinateArraySequence| cmp.compare_coordinate_array_sequence(p, q);
    let w = want(&a, ka, &b, kb, limit);
    c.nontrivial_if(w != 0 && !a.is_empty() && !b.is_empty());
    c.lab(w == 0, "equal");
    c.lab(ka != kb, "different dimensions");
    ck!(f(&sa, &sb) == w && f(&sb, &sa) == -w, "compare {} / {}, expected {}", f(&sa, &sb), f(&sb, &sa), w);
    ck!(f(&sa, &sa) == 0, "not equal to itself");
    if !a.is_empty() && !b.is_empty() {
        let (i, l) = (s.below(a.len().min(b.len())), 1 + s.below(ka.0.min(kb.0)));
        let g = CoordinateSequenceComparator::compare_coordinate(&sa, &sb, i as i32, l as i32);
        let o = |p: &Coordinate, k: (usize, usize)| gv::seqs::from_coord(p, k)[..l].to_vec();
        let w = o(&a[i], ka).iter().zip(&o(&b[i], kb)).map(|(x, y)| fcmp(*x, *y)).find(|&v| v != 0).unwrap_or(0);
        ck!(g == w, "first {} ordinates of points {}: {}, expected {}", l, i, g, w);
    }
    // transitivity (within one effective dimension)
    let eff = |p: (usize, usize), q: (usize, usize)| limit.map_or(false, |l| l <= p.0.min(q.0));
    if eff(ka, kb) == eff(kb, kc) && eff(kb, kc) == eff(ka, kc) && f(&sa, &sb) <= 0 && f(&sb, &sd) <= 0 {
        ck!(f(&sa, &sd) <= 0, "not transitive");
    }
    Ok(())
}

fn ordinates(s: &mut Src, c: &mut Case) -> Res {
    let mut v = |s: &mut Src| if s.chance(1, 5) { f64::NAN } else { num(s) };
    let (a, b) = (v(s), v(s));
    c.show(|| format!("{:?} {:?}", a, b));
    c.nontrivial_if(a != b);
    let w = fcmp(a, b);
    ck!(CoordinateSequenceComparator::compare_f64(a, b) == w && CoordinateSequenceComparator::compare_f64(b, a) == -w, "compare_f64 {}, expected {}", CoordinateSequenceComparator::compare_f64(a, b), w);
    Ok(())
}

fn creation(s: &mut Src, c: &mut Case) -> Res {
    let i = s.below(4);
    let (d, m) = KINDS[i];
    c.show(|| format!("dimension {} measures {}", d, m));
    c.nontrivial_if(true);
    let p = Coordinates::create_dim_measures(d as i32, m as i32);
    let z0 = if (d, m) == (4, 1) { !p.z.is_nan() && p.z == 0.0 } else { p.z.is_nan() };
    ck!(p.x == 0.0 && p.y == 0.0 && z0 && (m == 1) == (p.m == 0.0), "create_dim_measures({}, {}) = {}", d, m, fc(&p));
    if m == 1 {
        // measured coordinates know their shape
        ck!(Coordinates::dimension(&p) == d as i32 && Coordinates::measures(&p) == 1, "shape of {}", fc(&p));
    }
    let q = Coordinates::create_dim(d as i32);
    ck!(q.x == 0.0 && q.y == 0.0, "create_dim({}) = {}", d, fc(&q));
    let (x, y, z, w) = (num(s), num(s), num(s), num(s));
    let e = |p: Coordinate, z: f64, m: f64| same_c(&p, &{ let mut q = Coordinate::default(); q.x = x; q.y = y; q.z = z; q.m = m; q });
    let n = f64::NAN;
    ck!(e(Coordinate::new_xy(x, y), n, n) && e(Coordinate::new_coordinatexy(x, y), n, n) && e(Coordinate::new_xyz(x, y, z), z, n)
        && e(Coordinate::new_xym(x, y, w), n, w) && e(Coordinate::new_coordinatexym(x, y, w), n, w)
        && e(Coordinate::new_xyzm(x, y, z, w), z, w) && e(Coordinate::new_coordinatexyzm(x, y, z, w), z, w), "constructors");
    ck!(same_c(&Coordinate::default(), &Coordinate::new_xy(0.0, 0.0)) && same_c(&Coordinate::new_coordinatexy_default(), &Coordinate::new_xy(0.0, 0.0))
        && same_c(&Coordinate::new_coordinatexym_default(), &Coordinate::new_xym(0.0, 0.0, 0.0))
        && same_c(&Coordinate::new_coordinatexyzm_default(), &Coordinate::new_xyzm(0.0, 0.0, 0.0, 0.0)), "default constructors");
    Ok(())
}

fn large_sequences(s: &mut Src, c: &mut Case) -> Res {
    s.big = 20_000;
    sequences(s, c)
}

static SUBS: &[Sub] = &[
    Sub { name: "coords", rule: "planar positions differ", quick: 300_000, f: coords },
    Sub { name: "sequences", rule: "two non-empty sequences that differ", quick: 300_000, f: sequences },
    Sub { name: "ordinates", rule: "ordinates differ", quick: 50_000, f: ordinates },
    Sub { name: "creation", rule: "every case", quick: 20_000, f: creation },
    Sub { name: "large sequences", rule: "two non-empty sequences that differ", quick: 60, f: large_sequences },
];
fn main() {
    gv::main(
        "P15",
        "pairs and triples of coordinates (2D, Z, M, ZM; coinciding, adjacent, infinite) and of sequences sharing prefixes; oracle: lexicographic reference order with NaN smallest, exact distances",
        &["x and y are never NaN; sequences with Z are not compared with sequences with M only"],
        SUBS,
    );
}
