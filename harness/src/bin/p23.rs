//! P23: angles.
use gv::g::*;
use gv::*;
use std::f64::consts::PI;

/// small-integer vectors around an offset: differences, dot and cross products are exact
fn regime(s: &mut Src) -> Reg {
    match s.below(5) {
        0 | 1 => Reg::Small,
        2 => Reg::Mid,
        // larger differences around a very large offset
        3 => Reg::Far(s.range(10, 51), s.pick(&[200, 2000, 1 << 20])),
        _ => Reg::Offset(1i64 << s.range(10, 45)),
    }
}
fn vec(a: &Coordinate, b: &Coordinate) -> (f64, f64) {
    (b.x - a.x, b.y - a.y)
}
/// of integers up to 2^25: exact
fn dot(u: (f64, f64), v: (f64, f64)) -> f64 {
    u.0 * v.0 + u.1 * v.1
}
fn cross(u: (f64, f64), v: (f64, f64)) -> f64 {
    u.0 * v.1 - u.1 * v.0
}
fn len(u: (f64, f64)) -> f64 {
    f64::hypot(u.0, u.1)
}
const T: f64 = 1e-14;
/// the angle t has the given cosine and sine (each times l)
fn at(t: f64, cos: f64, sin: f64, l: f64) -> bool {
    (t.cos() * l - cos).abs() <= T * l && (t.sin() * l - sin).abs() <= T * l
}
fn pts(s: &mut Src) -> (Coordinate, Coordinate, Coordinate) {
    let (mut a, mut t, mut b) = pts_unit(s);
    let k = rescale(s);
    scale_by(&mut [&mut a, &mut t, &mut b], k);
    (a, t, b)
}
fn pts_unit(s: &mut Src) -> (Coordinate, Coordinate, Coordinate) {
    let r = regime(s);
    let tail = r.pt(s);
    let a = r.pt(s);
    let b = match s.below(7) {
        0 => c2(tail.x - (a.x - tail.x), tail.y - (a.y - tail.y)),
        1 => c2(tail.x - (a.y - tail.y), tail.y + (a.x - tail.x)),
        2 => c2(tail.x + 2.0 * (a.x - tail.x), tail.y + 2.0 * (a.y - tail.y)),
        3 => a,
        // next to perpendicular
        4 => c2(tail.x - (a.y - tail.y) + s.sint(1) as f64, tail.y + (a.x - tail.x) + s.sint(1) as f64),
        _ => r.pt(s),
    };
    (a, tail, b)
}

fn direction(s: &mut Src, c: &mut Case) -> Res {
    let (a, t, _) = pts(s);
    c.show(|| format!("{} -> {}", fc(&t), fc(&a)));
    let u = vec(&t, &a);
    if u == (0.0, 0.0) {
        return Ok(());
    }
    let g = Angle::angle_coordinates(&t, &a);
    ck!((-PI..=PI).contains(&g), "angle {:?} out of range", g);
    ck!(at(g, u.0, u.1, len(u)), "direction of {:?} is {:?}", u, g);
    let h = Angle::angle_coordinate(&c2(u.0, u.1));
    ck!(h == g, "direction of {:?} from the origin is {:?}, between points {:?}", u, h, g);
    let l = LineSegment::new_from_coordinates(&t, &a);
    ck!(l.angle() == g, "direction of the segment is {:?}, of its points {:?}", l.angle(), g);
    if u.0 == 0.0 || u.1 == 0.0 {
        let w = if u.1 == 0.0 { if u.0 > 0.0 { 0.0 } else { PI } } else { PI / 2.0 * u.1.signum() };
        ck!(g == w, "direction of {:?} is {:?}", u, g);
    }
    c.lab(u.0 == 0.0 || u.1 == 0.0, "axis parallel");
    c.nontrivial_if(true);
    Ok(())
}

fn between(s: &mut Src, c: &mut Case) -> Res {
    let (a, t, b) = pts(s);
    c.show(|| format!("tips {} {} tail {}", fc(&a), fc(&b), fc(&t)));
    let (u, v) = (vec(&t, &a), vec(&t, &b));
    let (d, x) = (dot(u, v), cross(u, v));
    ck!(Angle::is_acute(&a, &t, &b) == (d > 0.0), "acute: {} for scalar product {:?}", d <= 0.0, d);
    ck!(Angle::is_obtuse(&a, &t, &b) == (d < 0.0), "obtuse: {} for scalar product {:?}", d >= 0.0, d);
    if u == (0.0, 0.0) || v == (0.0, 0.0) {
        return Ok(());
    }
    let l = len(u) * len(v);
    let g = Angle::angle_between(&a, &t, &b);
    ck!((0.0..=PI).contains(&g) && at(g, d, x.abs(), l), "angle between {:?} and {:?}: {:?}", u, v, g);
    ck!(Angle::angle_between(&b, &t, &a) == g, "angle between is not symmetric");
    let o = Angle::angle_between_oriented(&a, &t, &b);
    ck!(o > -PI && o <= PI && at(o, d, x, l), "oriented angle between {:?} and {:?}: {:?}", u, v, o);
    // interior angle: anticlockwise from the first to the second
    let i = Angle::interior_angle(&a, &t, &b);
    ck!((0.0..2.0 * PI).contains(&i) && at(i, d, x, l), "angle from {:?} to {:?}: {:?}", u, v, i);
    let bi = Angle::bisector(&a, &t, &b);
    ck!(bi > -PI && bi <= PI, "bisector {:?} out of range", bi);
    let w = (bi.cos(), bi.sin());
    if x == 0.0 && d < 0.0 {
        ck!(dot(w, u).abs() <= T * len(u), "bisector {:?} of opposite directions {:?}", bi, u);
    } else {
        let m = (u.0 / len(u) + v.0 / len(v), u.1 / len(u) + v.1 / len(v));
        ck!(cross(w, m).abs() <= 4.0 * T && dot(w, m) > 0.0, "bisector {:?} of {:?} and {:?}", bi, u, v);
    }
    // turn
    let (g1, g2) = (Angle::angle_coordinates(&t, &a), Angle::angle_coordinates(&t, &b));
    let turn = Angle::get_turn(g1, g2);
    if x.abs() > 1e-9 * l {
        ck!(turn == if x > 0.0 { 1 } else { -1 }, "turn from {:?} to {:?} is {}", u, v, turn);
        let k = 2.0 * PI * s.sint(3) as f64;
        ck!(Angle::get_turn(g1 + k, g2) == turn, "turn changes when an angle is moved by {:?}", k);
    }
    if g1 == g2 {
        ck!(turn == 0, "turn between equal angles {:?} is {}", g1, turn);
    }
    ck!(Angle::COUNTERCLOCKWISE == 1 && Angle::CLOCKWISE == -1 && Angle::NONE == 0, "turn constants");
    c.lab(x == 0.0 && d < 0.0, "opposite");
    c.lab(d == 0.0, "perpendicular");
    c.lab(x < 0.0, "clockwise");
    c.nontrivial_if(true);
    Ok(())
}

/// the interior angles of a clockwise polygon sum to (n-2) pi
fn polygon(s: &mut Src, c: &mut Case) -> Res {
    let (mut p, ccw) = simple_ring(s, 12);
    if ccw {
        p.reverse();
    }
    p.pop();
    p.dedup_by(|a, b| a.equals_2d(b));
    if p.len() > 1 && p[0].equals_2d(&p[p.len() - 1]) {
        p.pop();
    }
    let n = p.len();
    let k = s.below(n);
    p.rotate_left(k);
    c.show(|| fcs(&p));
    let mut sum = 0.0;
    for i in 0..n {
        sum += Angle::interior_angle(&p[(i + n - 1) % n], &p[i], &p[(i + 1) % n]);
    }
    let w = (n as f64 - 2.0) * PI;
    ck!((sum - w).abs() <= 1e-9, "interior angles sum to {:?} instead of {:?}", sum, w);
    c.nontrivial_if(n > 3);
    Ok(())
}

fn number(s: &mut Src) -> f64 {
    match s.below(6) {
        5 => (s.unit() - 0.5) * 2f64.powi(s.range(-60, 12) as i32),
        0 => PI * s.sint(20) as f64 / 2.0,
        1 => {
            let v = PI * s.sint(20) as f64 / 2.0;
            if s.bool() { next_up(v) } else { next_down(v) }
        }
        2 => s.sint(60) as f64 / 8.0,
        3 => (s.unit() - 0.5) * 2.0 * PI,
        _ => (s.unit() - 0.5) * 200.0,
    }
}

fn normalizing(s: &mut Src, c: &mut Case) -> Res {
    let a = number(s);
    c.show(|| format!("{:?}", a));
    let t = 1e-14 * (1.0 + a.abs()) * (1.0 + a.abs() / 100.0);
    let n = Angle::normalize(a);
    ck!(n > -PI && n <= PI, "normalize({:?}) = {:?}", a, n);
    ck!((n.cos() - a.cos()).abs() <= t && (n.sin() - a.sin()).abs() <= t, "normalize({:?}) = {:?} is another direction", a, n);
    ck!(!(a > -PI && a <= PI) || n == a, "normalize changes {:?} to {:?}", a, n);
    let p = Angle::normalize_positive(a);
    ck!((0.0..2.0 * PI).contains(&p), "normalize_positive({:?}) = {:?}", a, p);
    ck!((p.cos() - a.cos()).abs() <= t && (p.sin() - a.sin()).abs() <= t, "normalize_positive({:?}) = {:?} is another direction", a, p);
    ck!(!(0.0..2.0 * PI).contains(&a) || p == a, "normalize_positive changes {:?} to {:?}", a, p);
    // difference of two normalized angles
    let b = Angle::normalize(number(s));
    let d = Angle::diff(n, b);
    ck!((0.0..=PI).contains(&d) && Angle::diff(b, n) == d, "diff({:?}, {:?}) = {:?}", n, b, d);
    ck!((d.cos() - (n - b).cos()).abs() <= 4.0 * T && (d.sin() - (n - b).sin().abs()).abs() <= 4.0 * T, "diff({:?}, {:?}) = {:?}", n, b, d);
    // the shorter way between two normalized angles, however close
    let b = match s.below(4) {
        0 => next_up(n),
        1 => n + n * 2f64.powi(-(s.range(1, 50) as i32)),
        _ => b,
    };
    let e = b - n;
    if e.abs() < 3.14 || e.abs() > 3.15 && e.abs() < 6.28 {
        let w = if e == 0.0 { 0 } else if (e > 0.0) == (e.abs() < 3.145) { 1 } else { -1 };
        ck!(Angle::get_turn(n, b) == w, "turn from {:?} to {:?} is {}, expected {}", n, b, Angle::get_turn(n, b), w);
        c.lab(e.abs() < 1e-9, "nearly equal angles");
    }
    // degrees
    let wide = 1i64 << s.range(2, 40);
    let most = if s.chance(1, 4) { wide } else { 4000 };
    let k = s.sint(most) as f64 / 4.0;
    let r = Angle::to_radians(k);
    ck!((r - k * (PI / 180.0)).abs() <= 1e-15 * k.abs(), "{:?} degrees = {:?}", k, r);
    let q = Angle::to_degrees(r);
    ck!((q - k).abs() <= 1e-15 * k.abs(), "{:?} degrees -> {:?} -> {:?}", k, r, q);
    let q = Angle::to_degrees(a);
    ck!((q * PI / 180.0 - a).abs() <= 1e-15 * a.abs(), "{:?} radians = {:?} degrees", a, q);
    ck!(Angle::PI_TIMES_2 == 2.0 * PI && Angle::PI_OVER_2 == PI / 2.0 && Angle::PI_OVER_4 == PI / 4.0, "constants");
    c.lab(n != a, "normalize changes it");
    c.lab(p != a, "normalize_positive changes it");
    c.nontrivial_if(n != a || p != a);
    Ok(())
}

fn snapping(s: &mut Src, c: &mut Case) -> Res {
    let k = s.sint(8);
    let exact = s.bool();
    let a = if exact { k as f64 * (PI / 2.0) } else { number(s) };
    let p = Reg::Quarter.pt(s);
    let d = s.sint(100) as f64 / 4.0;
    c.show(|| format!("angle {:?} from {} distance {:?}", a, fc(&p), d));
    let (sn, cs) = (Angle::sin_snap(a), Angle::cos_snap(a));
    ck!((sn - a.sin()).abs() < 5e-16 && (cs - a.cos()).abs() < 5e-16, "snapped sine {:?} cosine {:?} of {:?}", sn, cs, a);
    if a.sin().abs() > 1e-15 {
        ck!(sn == a.sin(), "sine of {:?} snapped to {:?}", a, sn);
    }
    if a.cos().abs() > 1e-15 {
        ck!(cs == a.cos(), "cosine of {:?} snapped to {:?}", a, cs);
    }
    let q = Angle::project(&p, a, d);
    if exact {
        let w = match (k + 8) % 4 {
            0 => (1.0, 0.0),
            1 => (0.0, 1.0),
            3 => (0.0, -1.0),
            _ => (-1.0, 0.0),
        };
        ck!((sn, cs) == (w.1, w.0), "sine {:?} cosine {:?} of a right angle multiple {}", sn, cs, k);
        ck!(q.x == p.x + d * w.0 && q.y == p.y + d * w.1, "projected to {}", fc(&q));
    }
    ck!((q.x - p.x - d * a.cos()).abs() <= 1e-13 && (q.y - p.y - d * a.sin()).abs() <= 1e-13, "{} projected by {:?} at {:?} to {}", fc(&p), d, a, fc(&q));
    c.lab(exact, "right angle multiple");
    c.nontrivial_if(d != 0.0);
    Ok(())
}

fn main() {
    gv::main(
        "P23",
        "directions with exact integer components (also around offsets up to 2^51), clockwise simple polygons up to 12 vertices, angles in [-100, 100] including neighbours of multiples of pi/2",
        &["tolerances of 1e-14 relative against exact scalar and cross products"],
        &[
            Sub { name: "direction", rule: "distinct points", quick: 30_000, f: direction },
            Sub { name: "angle between directions", rule: "both directions are defined", quick: 60_000, f: between },
            Sub { name: "interior angle sum", rule: "more than three vertices", quick: 15_000, f: polygon },
            Sub { name: "normalization, difference, degrees", rule: "some normalization changes the angle", quick: 60_000, f: normalizing },
            Sub { name: "snapping and projection", rule: "distance not zero", quick: 30_000, f: snapping },
        ],
    );
}
