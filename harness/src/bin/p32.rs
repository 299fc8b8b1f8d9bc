//! P32: numeric helpers, quadrants, half-planes, positions and locations.
use gv::g::*;
use gv::*;

fn num(s: &mut Src) -> f64 {
    match s.below(5) {
        0 | 1 => s.sint(3) as f64,
        2 => s.pick(&[0.0, -0.0, 1e300, -1e300, f64::MIN_POSITIVE, 5e-324, 0.5, -0.5, f64::MAX, f64::INFINITY, f64::NEG_INFINITY]),
        _ => Reg::any(s).num(s),
    }
}
fn int(s: &mut Src) -> i32 {
    match s.below(4) {
        0 | 1 => s.sint(9) as i32,
        2 => s.pick(&[0, 1, -1, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 1 << 16, -(1 << 16)]),
        _ => s.draw(1 << 32) as u32 as i32,
    }
}

fn ranges(s: &mut Src, c: &mut Case) -> Res {
    let (x, a, b) = (num(s), num(s), num(s));
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    let v = num(s);
    c.show(|| format!("{:?} {:?} {:?} {:?}", x, lo, hi, v));
    let w = MathUtil::clamp_f64(x, lo, hi);
    let e = if x < lo { lo } else if x > hi { hi } else { x };
    ck!(w == e, "clamp {:?}, expected {:?}", w, e);
    let (i, k, l) = (int(s), int(s), int(s));
    let (k, l) = (k.min(l), k.max(l));
    ck!(MathUtil::clamp_i32(i, k, l) == i.max(k).min(l), "clamp {} to {}..{} gives {}", i, k, l, MathUtil::clamp_i32(i, k, l));
    ck!(MathUtil::clamp_max(i, l) == i.min(l), "clamp {} to at most {} gives {}", i, l, MathUtil::clamp_max(i, l));
    // extrema, in every argument order
    let q = [x, a, b, v];
    let m4 = q.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let n4 = q.iter().cloned().fold(f64::INFINITY, f64::min);
    let m3 = x.max(a).max(b);
    for p in [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1]] {
        let t = p.map(|i| q[i]);
        ck!(MathUtil::max_4(t[0], t[1], t[2], t[3]) == m4, "max_4 of {:?} is {:?}", t, MathUtil::max_4(t[0], t[1], t[2], t[3]));
        ck!(MathUtil::min(t[0], t[1], t[2], t[3]) == n4, "min of {:?} is {:?}", t, MathUtil::min(t[0], t[1], t[2], t[3]));
    }
    for t in [[x, a, b], [a, x, b], [b, a, x], [a, b, x]] {
        ck!(MathUtil::max_3(t[0], t[1], t[2]) == m3, "max_3 of {:?} is {:?}", t, MathUtil::max_3(t[0], t[1], t[2]));
    }
    if x.abs() < 1e300 && v.abs() < 1e300 {
        let m = MathUtil::average(x, v);
        ck!(m == MathUtil::average(v, x), "average is not symmetric");
        let d = (Rt::f(x).add(&Rt::f(v))).div(&Rt::f(2.0));
        ck!(d.near(m, m.abs() * 3e-16 + 1e-320), "average {:?} of {:?} and {:?}", m, x, v);
    }
    c.nontrivial_if(e != x);
    Ok(())
}

/// equality of numbers within a tolerance; the difference is exact here, or far from the tolerance
fn within(s: &mut Src, c: &mut Case) -> Res {
    let k = s.sint(60) as i32;
    let (i, j, t) = (s.sint(40), s.sint(40), s.sint(45));
    let f = |v: i64| v as f64 * 2f64.powi(k);
    c.show(|| format!("{} and {} within {}, times 2^{}", i, j, t, k));
    let e = (i - j).abs() <= t;
    ck!(NumberUtil::equals_with_tolerance(f(i), f(j), f(t)) == e, "equal within the tolerance: {}", !e);
    ck!(NumberUtil::equals_with_tolerance(f(j), f(i), f(t)) == e, "exchanged: {}", !e);
    let (x, y, z) = (Reg::any(s).num(s), Reg::any(s).num(s), Reg::any(s).num(s).abs());
    let d = Rt::f(x).sub(&Rt::f(y)).abs();
    let slack = Rt::f(d.approx() * 1e-15);
    if d.sub(&Rt::f(z)).abs().cmp(&slack) == std::cmp::Ordering::Greater || x == y {
        let e = d.cmp(&Rt::f(z)) != std::cmp::Ordering::Greater;
        ck!(NumberUtil::equals_with_tolerance(x, y, z) == e, "{:?} and {:?} equal within {:?}: {}", x, y, z, !e);
        ck!(NumberUtil::equals_with_tolerance(x, x, 0.0), "{:?} does not equal itself", x);
    }
    c.lab((i - j).abs() == t, "exactly the tolerance apart");
    c.nontrivial_if(i != j && t >= 0);
    Ok(())
}

fn integers(s: &mut Src, c: &mut Case) -> Res {
    let n = int(s);
    let d = match s.below(3) { 0 => 1 + s.below(7) as i32, 1 => int(s).saturating_abs().max(1), _ => 1 + (s.draw(1 << 31) as i64).min(i32::MAX as i64 - 1) as i32 };
    c.show(|| format!("{} / {}", n, d));
    let w = (n as i64).div_euclid(d as i64) + (n as i64).rem_euclid(d as i64).min(1);
    ck!(MathUtil::ceil(n, d) as i64 == w, "ceil({} / {}) = {}, expected {}", n, d, MathUtil::ceil(n, d), w);
    if n != i32::MIN {
        let r = MathUtil::wrap(n, d);
        ck!(r >= 0 && r <= d && (r as i64 - n as i64) % d as i64 == 0, "wrap({}, {}) = {}", n, d, r);
        let e = if n >= 0 { n as i64 % d as i64 } else { d as i64 - (-(n as i64)) % d as i64 };
        ck!(r as i64 == e, "wrap({}, {}) = {}, expected {}", n, d, r, e);
    }
    c.lab(n < 0, "negative");
    c.nontrivial_if((n as i64) % (d as i64) != 0);
    Ok(())
}

fn sequences(s: &mut Src, c: &mut Case) -> Res {
    // a shuffle is a permutation
    let n = s.below(40);
    let v = MathUtil::shuffle(n);
    c.show(|| format!("shuffle of {}", n));
    let mut w = v.clone();
    w.sort();
    ck!(w == (0..n as i32).collect::<Vec<_>>(), "shuffle({}) = {:?}", n, v);
    // the recurrence stays in the unit interval and advances by alpha modulo 1
    let alpha = match s.below(3) { 0 => s.unit(), 1 => s.unit() * 5.0, _ => s.pick(&[0.25, 0.5, 0.75, 1.0, 2.0, 2.5]) };
    let golden = (5f64.sqrt() - 1.0) / 2.0;
    let mut x = s.unit();
    let mut y = x;
    for i in 0..1 + s.below(20) {
        let z = MathUtil::quasirandom_curr_alpha(x, alpha);
        ck!(z >= 0.0 && z < 1.0, "{:?} after {:?} with {:?}", z, x, alpha);
        let k = (Rt::f(x).add(&Rt::f(alpha)).sub(&Rt::f(z))).approx();
        ck!((k - k.round()).abs() <= 1e-15 * (1.0 + alpha), "step {}: {:?} after {:?} with {:?}", i, z, x, alpha);
        x = z;
        // a start beyond the unit interval, and large steps
        let far = match s.below(4) { 0 => 1.0, 1 => 1e3, 2 => 1e9, _ => 1e12 } * s.unit();
        let big = alpha * s.pick(&[1.0, 1e3, 4e9, 1e12]);
        for (u, v) in [(far, alpha), (x, big), (far, big)] {
            let z = MathUtil::quasirandom_curr_alpha(u, v);
            ck!(z >= 0.0 && z < 1.0, "{:?} after {:?} with {:?}", z, u, v);
            let k = (Rt::f(u).add(&Rt::f(v)).sub(&Rt::f(z))).approx();
            ck!((k - k.round()).abs() <= 1e-15 * (1.0 + u + v), "{:?} after {:?} with {:?}", z, u, v);
        }
        let z = MathUtil::quasirandom_curr(y);
        let k = z - y - golden;
        ck!(z >= 0.0 && z < 1.0 && (k - k.round()).abs() <= 1e-15, "golden step {}: {:?} after {:?}", i, z, y);
        y = z;
    }
    c.nontrivial_if(n > 1);
    Ok(())
}

/// repeated shuffles of few items reach every order (missing one by chance: below 1e-15)
fn all_orders(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + s.below(4);
    let total = [1, 1, 2, 6, 24][n];
    c.show(|| format!("{} items", n));
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..1000 {
        seen.insert(MathUtil::shuffle(n));
    }
    ck!(seen.len() == total, "1000 shuffles of {} items reach {} of {} orders", n, seen.len(), total);
    c.nontrivial_if(n > 1);
    Ok(())
}

/// NE 0, NW 1, SW 2, SE 3; axes belong to the side that contains zero
fn quad(dx: f64, dy: f64) -> i32 {
    match (dx >= 0.0, dy >= 0.0) {
        (true, true) => 0,
        (false, true) => 1,
        (false, false) => 2,
        (true, false) => 3,
    }
}
fn quadrants(s: &mut Src, c: &mut Case) -> Res {
    let reg = Reg::any(s);
    let mut p = reg.pt(s);
    if s.chance(1, 8) {
        p = c2(num(s), num(s));
    }
    let q = match s.below(5) {
        4 => c2(if s.bool() { p.x } else { num(s) }, if s.bool() { p.y } else { num(s) }),
        0 => c2(p.x, reg.num(s)),
        1 => c2(reg.num(s), p.y),
        2 => c2(if s.bool() { next_up(p.x) } else { next_down(p.x) }, if s.bool() { next_up(p.y) } else { p.y }),
        _ => reg.pt(s),
    };
    let (dx, dy) = (num(s), num(s));
    c.show(|| format!("{} {} / {:?} {:?}", fc(&p), fc(&q), dx, dy));
    let w = if p.x == q.x && p.y == q.y { -1 } else { quad(if q.x >= p.x { 1.0 } else { -1.0 }, if q.y >= p.y { 1.0 } else { -1.0 }) };
    ck!(Quadrant::quadrant_coordinates(&p, &q) == w, "from point to point {}, expected {}", Quadrant::quadrant_coordinates(&p, &q), w);
    let v = if dx == 0.0 && dy == 0.0 { -1 } else { quad(dx, dy) };
    ck!(Quadrant::quadrant_xy(dx, dy) == v, "of the vector {}, expected {}", Quadrant::quadrant_xy(dx, dy), v);
    // turning by half a turn leads to the opposite quadrant (off the axes)
    if dx != 0.0 && dy != 0.0 {
        ck!(Quadrant::is_opposite(v, Quadrant::quadrant_xy(-dx, -dy)), "half a turn from {}", v);
        let n = Quadrant::quadrant_xy(-dy, dx);
        ck!(n == (v + 1) % 4 && !Quadrant::is_opposite(v, n), "a quarter turn from {} leads to {}", v, n);
    }
    // relations between quadrants; north {0,1} west {1,2} south {2,3} east {3,0}
    let (a, b) = (s.below(4) as i32, s.below(4) as i32);
    ck!(Quadrant::is_opposite(a, b) == ((a - b).abs() == 2), "opposite {} {}", a, b);
    ck!(Quadrant::is_northern(a) == (a < 2), "northern {}", a);
    let inside = |q: i32, h: i32| q == h || q == (h + 1) % 4;
    ck!(Quadrant::is_in_half_plane(a, b) == inside(a, b), "quadrant {} in half-plane {}: {}", a, b, Quadrant::is_in_half_plane(a, b));
    let h = Quadrant::common_half_plane(a, b);
    if (a - b).abs() == 2 {
        ck!(h == -1, "common half-plane of opposite {} {} is {}", a, b, h);
    } else {
        ck!(inside(a, h) && inside(b, h) && (a != b || h == a), "common half-plane of {} {} is {}", a, b, h);
        ck!(Quadrant::is_in_half_plane(a, h) && Quadrant::is_in_half_plane(b, h), "{} and {} in their common half-plane {}", a, b, h);
    }
    // positions and locations
    let pos = s.sint(4) as i32;
    let o = match pos { 1 => 2, 2 => 1, p => p };
    ck!(Position::opposite(pos) == o, "position opposite to {} is {}", pos, Position::opposite(pos));
    let loc = s.sint(5) as i32;
    let l = match loc { -1 => Some('-'), 0 => Some('i'), 1 => Some('b'), 2 => Some('e'), _ => None };
    ck!(Location::to_location_symbol(loc) == l, "symbol of location {} is {:?}", loc, Location::to_location_symbol(loc));
    ck!((Position::ON, Position::LEFT, Position::RIGHT) == (0, 1, 2) && (Location::NONE, Location::INTERIOR, Location::BOUNDARY, Location::EXTERIOR) == (-1, 0, 1, 2), "codes");
    c.nontrivial_if(w >= 0 && v >= 0);
    Ok(())
}

fn main() {
    gv::main(
        "P32",
        "doubles including signed zeros, infinities and extremes, i32 including both ends, vectors and point pairs on, next to and off the axes, all pairs of quadrants",
        &["no NaN", "integer division with positive denominators, wrapping of every index but the smallest integer"],
        &[
            Sub { name: "clamping, extrema, average", rule: "clamping changes the value", quick: 60_000, f: ranges },
            Sub { name: "equality within a tolerance", rule: "the numbers differ and the tolerance is not negative", quick: 20_000, f: within },
            Sub { name: "integer division and wrapping", rule: "the division leaves a remainder", quick: 60_000, f: integers },
            Sub { name: "shuffles and quasi-random steps", rule: "at least two items", quick: 20_000, f: sequences },
            Sub { name: "shuffles reach every order", rule: "at least two items", quick: 100, f: all_orders },
            Sub { name: "quadrants, positions, locations", rule: "both vectors are not zero", quick: 60_000, f: quadrants },
        ],
    );
}
