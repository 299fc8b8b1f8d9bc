//! P26: vector algebra.
use gv::g::*;
use gv::*;
use std::f64::consts::PI;
type V = Vector2D;
type W = Vector3D;

fn num(s: &mut Src) -> f64 {
    match s.below(3) {
        0 => s.sint(4) as f64,
        1 => s.sint(4000) as f64 / 4.0,
        _ => s.sint(1 << 25) as f64,
    }
}
/// x w - y u = 1 or close to it
fn neighbour(s: &mut Src) -> ((f64, f64), (f64, f64)) {
    let r = { let bits = s.range(4, 50); Reg::shear_of(s, bits, 0) };
    let Reg::Shear(m) = r else { unreachable!() };
    let (k, l) = (s.sint(1) as i64, s.sint(1) as i64);
    ((m[0] as f64, m[1] as f64), ((m[2] + k * m[0]) as f64, (m[3] + k * m[1] + l) as f64))
}
fn pair(s: &mut Src) -> ((f64, f64), (f64, f64)) {
    let (x, y) = (num(s), num(s));
    match s.below(7) {
        0 => ((x, y), (x, y)),
        1 => ((x, y), (-y, x)),
        2 => ((x, y), (2.0 * x, 2.0 * y)),
        3 => ((x, y), (-x, -y)),
        4 => neighbour(s),
        _ => ((x, y), (num(s), num(s))),
    }
}
/// a unit: powers of two in a wide range
fn unit(s: &mut Src) -> f64 {
    if s.chance(3, 4) { 1.0 } else { f64::powi(2.0, s.sint(400) as i32) }
}
fn mk(s: &mut Src, x: f64, y: f64, h: f64) -> V {
    match s.below(7) {
        0 => V::new_from_xy(x, y),
        1 => V::create_from_xy(x, y),
        2 => V::new_from_coordinate(&Coordinate::new_xyzm(x, y, 7.0, 8.0)),
        3 => V::create_from_coodinate(&c2(x, y)),
        4 => V::new_from_vector_2d(&V::new_from_xy(x, y)),
        5 => V::create_from_vector_2d(&V::new_from_xy(x, y)),
        _ => {
            let (u, v) = (s.sint(100) as f64 * h, s.sint(100) as f64 * h);
            let (p, q) = (c2(u, v), c2(u + x, v + y));
            if s.bool() { V::new_from_coordinate_from_to(&p, &q) } else { V::create_from_coordinate_from_to(&p, &q) }
        }
    }
}
fn is(v: &V, x: f64, y: f64) -> bool {
    v.get_x() == x && v.get_y() == y
}
fn fv(v: &V) -> String {
    format!("[{:?} {:?}]", v.get_x(), v.get_y())
}

fn algebra(s: &mut Src, c: &mut Case) -> Res {
    let ((x, y), (u, w)) = pair(s);
    let h = unit(s);
    let (x, y, u, w) = (x * h, y * h, u * h, w * h);
    let (a, b) = (mk(s, x, y, h), mk(s, u, w, h));
    c.show(|| format!("{} {}", fv(&a), fv(&b)));
    ck!(is(&a, x, y) && a.get_component(0) == x && a.get_component(1) == y, "components of ({:?}, {:?}) are {}", x, y, fv(&a));
    ck!(is(&V::default(), 0.0, 0.0), "zero vector {}", fv(&V::default()));
    ck!(is(&a.add(&b), x + u, y + w) && is(&b.add(&a), x + u, y + w), "sum {}", fv(&a.add(&b)));
    ck!(is(&a.subtract(&b), x - u, y - w), "difference {}", fv(&a.subtract(&b)));
    ck!(is(&a.negate(), -x, -y), "negative {}", fv(&a.negate()));
    let d = s.pick(&[0.5, -2.0, 4.0, 3.0, -0.25]);
    ck!(is(&a.multiply(d), x * d, y * d) && is(&a.divide(d), x / d, y / d), "scaled by {:?}: {} {}", d, fv(&a.multiply(d)), fv(&a.divide(d)));
    let dot = &(&Dy::f(x) * &Dy::f(u)) + &(&Dy::f(y) * &Dy::f(w));
    let t = 1e-15 * (x.abs() + y.abs()) * (u.abs() + w.abs());
    ck!(Rt::dy(dot.clone()).near(a.dot(&b), t), "dot product {:?}", a.dot(&b));
    let sq = &Dy::f(x).sq() + &Dy::f(y).sq();
    ck!(Rt::dy(sq.clone()).near(a.length_squared(), 2.0 * ulp(a.length_squared())), "squared length {:?}", a.length_squared());
    ck!(near_sqrt(a.length(), &Rt::dy(sq.clone()), 2.0 * ulp(a.length())), "length {:?}", a.length());
    let ds = &(Dy::f(x) - Dy::f(u)).sq() + &(Dy::f(y) - Dy::f(w)).sq();
    let g = a.distance(&b);
    ck!(near_sqrt(g, &Rt::dy(ds), 2.0 * ulp(g)) && b.distance(&a) == g, "distance {:?}", g);
    let f = s.pick(&[0.0, 0.25, 0.5, 1.0, 0.75, -0.5, 1.5, 3.0, -4.0]);
    let ws = a.weighted_sum(&b, f);
    let l = 1e-15 * (x.abs() + u.abs() + y.abs() + w.abs()) * (1.0 + f.abs());
    ck!((ws.get_x() - (f * x + (1.0 - f) * u)).abs() <= l && (ws.get_y() - (f * y + (1.0 - f) * w)).abs() <= l, "weighted sum at {:?} is {}", f, fv(&ws));
    let av = a.average(&b);
    ck!((av.get_x() - (x + u) / 2.0).abs() <= l && (av.get_y() - (y + w) / 2.0).abs() <= l, "average {}", fv(&av));
    let n = a.normalize();
    if x == 0.0 && y == 0.0 {
        ck!(is(&n, 0.0, 0.0), "unit vector of zero is {}", fv(&n));
    } else {
        ck!((n.length() - 1.0).abs() <= 1e-15 * 4.0 && (n.get_x() * y - n.get_y() * x).abs() <= 1e-15 * 4.0 * a.length() && n.dot(&a) > 0.0, "unit vector {} of {}", fv(&n), fv(&a));
    }
    let cross = &(&Dy::f(x) * &Dy::f(w)) - &(&Dy::f(y) * &Dy::f(u));
    ck!(a.is_parallel(&b) == cross.is_zero() && b.is_parallel(&a) == cross.is_zero(), "parallel: {}", a.is_parallel(&b));
    ck!(a.equals(&b) == (x == u && y == w) && a.equals(&a), "equality of {} and {}: {}", fv(&a), fv(&b), a.equals(&b));
    let p = a.translate(&c2(u, w));
    ck!(p.x == x + u && p.y == y + w, "translation gives {}", fc(&p));
    let p = a.to_coordinate();
    ck!(p.x == x && p.y == y, "coordinate {}", fc(&p));
    ck!(a.to_string() == format!("[{}, {}]", x, y), "text {}", a.to_string());
    c.lab(cross.is_zero(), "parallel");
    c.lab(dot.is_zero(), "perpendicular");
    c.nontrivial_if(!sq.is_zero() && (u, w) != (0.0, 0.0));
    Ok(())
}

fn turning(s: &mut Src, c: &mut Case) -> Res {
    let ((x, y), (u, w)) = pair(s);
    let h = unit(s);
    let (x, y, u, w) = (x * h, y * h, u * h, w * h);
    let (a, b) = (mk(s, x, y, h), mk(s, u, w, h));
    let k = match s.below(3) { 0 => s.sint(9) as i32, 1 => s.sint(1000) as i32, _ => s.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, i32::MIN + 2, i32::MIN + 3, i32::MAX - 1]) };
    let t = (s.unit() - 0.5) * 20.0;
    c.show(|| format!("{} {} quarters {} angle {:?}", fv(&a), fv(&b), k, t));
    let q = a.rotate_by_quarter_circle(k);
    let w4 = match (k as i64).rem_euclid(4) { 0 => (x, y), 1 => (-y, x), 2 => (-x, -y), _ => (y, -x) };
    ck!(q.is_some_and(|q| is(&q, w4.0, w4.1)), "{} turned by {} quarters is {}", fv(&a), k, q.map_or("none".into(), |q| fv(&q)));
    let l = a.length();
    let r = a.rotate(t);
    ck!((r.length() - l).abs() <= 1e-14 * l, "rotation changes the length {:?} to {:?}", l, r.length());
    ck!((r.get_x() - (x * t.cos() - y * t.sin())).abs() <= 1e-14 * l && (r.get_y() - (x * t.sin() + y * t.cos())).abs() <= 1e-14 * l, "{} rotated by {:?} is {}", fv(&a), t, fv(&r));
    let back = r.rotate(-t);
    ck!((back.get_x() - x).abs() <= 1e-14 * l && (back.get_y() - y).abs() <= 1e-14 * l, "{} rotated there and back is {}", fv(&a), fv(&back));
    if l == 0.0 {
        return Ok(());
    }
    let g = a.angle();
    ck!((-PI..=PI).contains(&g) && (g.cos() * l - x).abs() <= 1e-14 * l && (g.sin() * l - y).abs() <= 1e-14 * l, "angle {:?} of {}", g, fv(&a));
    if (u, w) == (0.0, 0.0) {
        return Ok(());
    }
    let m = l * b.length();
    let (dot, cross) = (x * u + y * w, x * w - y * u);
    let e = a.angle_vector_2d(&b);
    ck!((0.0..=PI).contains(&e) && (e.cos() * m - dot).abs() <= 1e-14 * m && (e.sin() * m - cross.abs()).abs() <= 1e-14 * m, "angle {:?} between {} and {}", e, fv(&a), fv(&b));
    let e = a.angle_to(&b);
    ck!(e > -PI && e <= PI && (e.cos() * m - dot).abs() <= 1e-14 * m && (e.sin() * m - cross).abs() <= 1e-14 * m, "angle {:?} from {} to {}", e, fv(&a), fv(&b));
    c.lab(k < 0, "negative quarters");
    c.nontrivial_if(k.rem_euclid(4) != 0);
    Ok(())
}

fn solid(s: &mut Src, c: &mut Case) -> Res {
    let h = unit(s);
    let mut p = || Coordinate::new_xyz(num(s) * h, num(s) * h, num(s) * h);
    let (a, b, d, e) = (p(), p(), p(), p());
    let b = if s.chance(1, 6) { a } else { b };
    let a = if s.chance(1, 20) { Coordinate::new_xyz(0.0, 0.0, 0.0) } else { a };
    c.show(|| fcs(&[a, b, d, e]));
    let is = |v: &W, x: f64, y: f64, z: f64| v.get_x() == x && v.get_y() == y && v.get_z() == z;
    let mk = |k: usize, q: &Coordinate| match k {
        0 => W::new_from_coordinate(q),
        1 => W::create_from_coordinate(q),
        2 => W::new_from_xyz(q.x, q.y, q.z),
        3 => W::create_from_xyz(q.x, q.y, q.z),
        _ => W::new_from_to_coordinates(&Coordinate::new_xyz(h, 2.0 * h, 3.0 * h), &Coordinate::new_xyz(q.x + h, q.y + 2.0 * h, q.z + 3.0 * h)),
    };
    let (v, w) = (mk(s.below(5), &a), mk(s.below(5), &b));
    ck!(is(&v, a.x, a.y, a.z), "components of {}: {}", fc(&a), v.to_string());
    ck!(v.to_string() == format!("[{}, {}, {}]", a.x, a.y, a.z), "text {}", v.to_string());
    ck!(is(&v.add(&w), a.x + b.x, a.y + b.y, a.z + b.z), "sum {}", v.add(&w).to_string());
    ck!(is(&v.subtract(&w), a.x - b.x, a.y - b.y, a.z - b.z), "difference {}", v.subtract(&w).to_string());
    let k = s.pick(&[2.0, -4.0, 3.0, 0.5]);
    ck!(is(&v.divide(k), a.x / k, a.y / k, a.z / k), "quotient {}", v.divide(k).to_string());
    let f = W::new_from_to_coordinates(&a, &b);
    ck!(is(&f, b.x - a.x, b.y - a.y, b.z - a.z), "vector from {} to {}: {}", fc(&a), fc(&b), f.to_string());
    let dt = |p: &gv::geo::V, q: &gv::geo::V| Rt::dy(vdot(p, q));
    let mag = |p: &Coordinate, q: &Coordinate| (p.x.abs() + p.y.abs() + p.z.abs()) * (q.x.abs() + q.y.abs() + q.z.abs());
    let w1 = dt(&v3(&a), &v3(&b));
    let t = 1e-15 * mag(&a, &b);
    ck!(w1.near(v.dot(&w), t) && w1.near(W::dot_2(&a, &b), t), "dot products {:?} {:?}", v.dot(&w), W::dot_2(&a, &b));
    let w4 = dt(&vsub(&v3(&b), &v3(&a)), &vsub(&v3(&e), &v3(&d)));
    let g = W::dot_4(&a, &b, &d, &e);
    ck!(w4.near(g, 1e-14 * (mag(&a, &d) + mag(&a, &e) + mag(&b, &d) + mag(&b, &e))), "dot product of differences {:?}, exactly {:e}", g, w4.approx());
    let sq = dt(&v3(&a), &v3(&a));
    for l in [v.length(), W::length_of_coordinate(&a)] {
        ck!(near_sqrt(l, &sq, 4.0 * ulp(l)), "length {:?} of {}", l, fc(&a));
    }
    let n = v.normalize();
    let l = v.length();
    if l == 0.0 {
        ck!(is(&n, 0.0, 0.0, 0.0), "unit vector of zero {}", n.to_string());
    } else {
        let q = W::normalize_coordinate(&a);
        for (x, y, z) in [(n.get_x(), n.get_y(), n.get_z()), (q.x, q.y, q.z)] {
            ck!((x * l - a.x).abs() <= 4e-15 * l && (y * l - a.y).abs() <= 4e-15 * l && (z * l - a.z).abs() <= 4e-15 * l, "unit vector ({:?} {:?} {:?}) of {}", x, y, z, fc(&a));
        }
    }
    let eq = (a.x, a.y, a.z) == (b.x, b.y, b.z);
    ck!(v.equals(&w) == eq && w.equals(&v) == eq, "equality of {} and {}: {}", fc(&a), fc(&b), v.equals(&w));
    let z = mk(2, &Coordinate::new_xyz(a.x, a.y, a.z + h));
    ck!(!v.equals(&z), "{} equals {}", v.to_string(), z.to_string());
    c.lab(eq, "equal");
    c.nontrivial_if(l != 0.0);
    Ok(())
}

/// any finite or infinite component
fn wide(s: &mut Src) -> f64 {
    match s.below(3) {
        0 => special(s),
        1 => num(s) * f64::powi(2.0, s.sint(900) as i32),
        _ => num(s),
    }
}
/// equal to v or just not
fn close_to(s: &mut Src, v: f64) -> f64 {
    match s.below(6) {
        0 => wide(s),
        1 => next_up(v),
        2 => next_down(v),
        3 => v * (1.0 + f64::powi(2.0, -(s.range(20, 52) as i32))),
        _ => v,
    }
}
fn extremes(s: &mut Src, c: &mut Case) -> Res {
    let (x, y, z) = (wide(s), wide(s), wide(s));
    let (u, v, w) = (close_to(s, x), close_to(s, y), close_to(s, z));
    c.show(|| format!("[{:?} {:?} {:?}] [{:?} {:?} {:?}]", x, y, z, u, v, w));
    let (a, b) = (V::new_from_xy(x, y), V::new_from_coordinate(&Coordinate::new_xyz(u, v, w)));
    let (p, q) = (W::new_from_xyz(x, y, z), W::new_from_coordinate(&Coordinate::new_xyz(u, v, w)));
    let is2 = |r: V, e: (f64, f64)| same(r.get_x(), e.0) && same(r.get_y(), e.1);
    let is3 = |r: W, e: (f64, f64, f64)| same(r.get_x(), e.0) && same(r.get_y(), e.1) && same(r.get_z(), e.2);
    ck!(is2(a, (x, y)) && is2(b, (u, v)) && is3(W::new_from_xyz(x, y, z), (x, y, z)), "components");
    ck!(a.equals(&b) == (x == u && y == v) && b.equals(&a) == a.equals(&b), "2D equality: {}", a.equals(&b));
    ck!(p.equals(&q) == (x == u && y == v && z == w) && q.equals(&p) == p.equals(&q), "3D equality: {}", p.equals(&q));
    ck!(is2(a.add(&b), (x + u, y + v)) && is3(p.add(&q), (x + u, y + v, z + w)), "sums {} {}", fv(&a.add(&b)), p.add(&q).to_string());
    ck!(is2(a.subtract(&b), (x - u, y - v)) && is3(p.subtract(&q), (x - u, y - v, z - w)), "differences {} {}", fv(&a.subtract(&b)), p.subtract(&q).to_string());
    let (o, e) = (Coordinate::new_xyz(x, y, z), Coordinate::new_xyz(u, v, w));
    ck!(is2(V::create_from_coordinate_from_to(&o, &e), (u - x, v - y)) && is3(W::new_from_to_coordinates(&o, &e), (u - x, v - y, w - z)), "vectors between points");
    // a missing height stays missing
    let (o2, e2) = (Coordinate::new_xym(x, y, z), c2(u, v));
    for (o, e) in [(o2, e), (o, e2), (o2, e2)] {
        ck!(is3(W::new_from_to_coordinates(&o, &e), (u - x, v - y, f64::NAN)), "vector from {} to {}: {}", fc(&o), fc(&e), W::new_from_to_coordinates(&o, &e).to_string());
    }
    ck!(is3(W::new_from_coordinate(&o2), (x, y, f64::NAN)) && is3(W::create_from_coordinate(&e2), (u, v, f64::NAN)), "vectors of points without height");
    ck!(W::dot_2(&o, &e2).is_nan() && W::length_of_coordinate(&e2).is_nan() && W::dot_4(&o, &e2, &o, &e).is_nan(), "products without height");
    ck!(is2(a.negate(), (-x, -y)), "negative {}", fv(&a.negate()));
    let d = s.pick(&[2.0, -0.5, 4.0, 1024.0]);
    ck!(is2(a.multiply(d), (x * d, y * d)) && is2(a.divide(d), (x / d, y / d)) && is3(p.divide(d), (x / d, y / d, z / d)), "scaled by {:?}: {} {} {}", d, fv(&a.multiply(d)), fv(&a.divide(d)), p.divide(d).to_string());
    let t = a.translate(&c2(u, v));
    ck!(same(t.x, x + u) && same(t.y, y + v), "translation {}", fc(&t));
    let k = s.sint(6) as i32;
    let e = match k.rem_euclid(4) { 0 => (x, y), 1 => (-y, x), 2 => (-x, -y), _ => (y, -x) };
    ck!(is2(a.rotate_by_quarter_circle(k).unwrap(), e), "turned by {} quarters", k);
    // lengths neither overflow nor vanish on the way
    let ok = |v: f64| (1e-280..1e300).contains(&v.abs());
    let sq = |x: f64, y: f64| Rt::dy(&Dy::f(x).sq() + &Dy::f(y).sq());
    if ok(x) && ok(y) {
        ck!(near_sqrt(a.length(), &sq(x, y), 2.0 * ulp(a.length())), "length {:?}", a.length());
        c.label("length");
    }
    let (dx, dy) = (u - x, v - y);
    if ok(dx) && ok(dy) {
        let g = a.distance(&b);
        ck!(near_sqrt(g, &sq(dx, dy), 2.0 * ulp(g)) && b.distance(&a) == g, "distance {:?}", g);
        c.label("distance");
    }
    c.lab(p.equals(&q), "equal");
    c.nontrivial_if(!p.equals(&q));
    Ok(())
}

fn main() {
    gv::main(
        "P26",
        "2D and 3D vectors with integer or quarter components up to 2^25 (nearly parallel ones up to 2^50), also scaled by 2^-400 to 2^400, components at the edges of the number format and neighbouring ones, parallel and perpendicular pairs, all quarter-turn counts of an i32, angles in [-10, 10]",
        &["relative tolerances of about 1e-15 for rounded results"],
        &[
            Sub { name: "2D algebra", rule: "both vectors are not zero", quick: 60_000, f: algebra },
            Sub { name: "2D rotation and angles", rule: "the quarter turn is not a full turn", quick: 60_000, f: turning },
            Sub { name: "extreme and nearly equal components", rule: "the vectors differ", quick: 30_000, f: extremes },
            Sub { name: "3D algebra", rule: "the vector is not zero", quick: 40_000, f: solid },
        ],
    );
}
