//! P04: computed intersection points of two segments.
use gv::g::*;
use gv::*;

fn o(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> i32 {
    orient(a.x, a.y, b.x, b.y, c.x, c.y)
}
fn inbox(p: &Coordinate, a: &Coordinate, b: &Coordinate) -> bool {
    p.x >= a.x.min(b.x) && p.x <= a.x.max(b.x) && p.y >= a.y.min(b.y) && p.y <= a.y.max(b.y)
}

/// exact crossing point of two non-parallel lines and a bound on the double-double error of it
fn exact_cross(a: &Coordinate, b: &Coordinate, p: &Coordinate, q: &Coordinate) -> (Rt, Rt, Rt, Rt) {
    let f = |v: f64| Dy::f(v);
    let px = &f(a.y) - &f(b.y);
    let py = &f(b.x) - &f(a.x);
    let pw = &(&f(a.x) * &f(b.y)) - &(&f(b.x) * &f(a.y));
    let pwm = &(&f(a.x) * &f(b.y)).abs() + &(&f(b.x) * &f(a.y)).abs();
    let qx = &f(p.y) - &f(q.y);
    let qy = &f(q.x) - &f(p.x);
    let qw = &(&f(p.x) * &f(q.y)) - &(&f(q.x) * &f(p.y));
    let qwm = &(&f(p.x) * &f(q.y)).abs() + &(&f(q.x) * &f(p.y)).abs();
    let x = &(&py * &qw) - &(&qy * &pw);
    let y = &(&qx * &pw) - &(&px * &qw);
    let w = &(&px * &qy) - &(&qx * &py);
    let wm = &(&px * &qy).abs() + &(&qx * &py).abs();
    let xm = &(&py.abs() * &qwm) + &(&qy.abs() * &pwm);
    let ym = &(&qx.abs() * &pwm) + &(&px.abs() * &qwm);
    let X = Rt::new(x, w.clone());
    let Y = Rt::new(y, w.clone());
    let aw = w.abs();
    let e = Dy::pow2(-96);
    // |dx| <= e*(xm + |X| wm) / |w|
    let tx = Rt::new(&xm * &e, aw.clone()).add(&X.abs().mul(&Rt::new(&wm * &e, aw.clone())));
    let ty = Rt::new(&ym * &e, aw.clone()).add(&Y.abs().mul(&Rt::new(&wm * &e, aw)));
    (X, Y, tx, ty)
}

fn crossing(s: &mut Src, r: Reg) -> Option<[Coordinate; 4]> {
    for _ in 0..6 {
        let a = r.pt(s);
        let b = r.pt(s);
        let c = near_line(s, r, &a, &b);
        let m = near_line(s, r, &a, &b);
        let d = match s.below(3) {
            0 => r.pt(s),
            1 => c2(r.snap(2.0 * m.x - c.x), r.snap(2.0 * m.y - c.y)),
            _ => near_line(s, r, &a, &b),
        };
        if o(&a, &b, &c) * o(&a, &b, &d) < 0 && o(&c, &d, &a) * o(&c, &d, &b) < 0 {
            return Some([a, b, c, d]);
        }
    }
    None
}

fn proper(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::exact(s);
    let v = crossing(s, r);
    check_proper(s, c, r, v)
}
/// segments with full-precision ordinates, nearly parallel: the formula may fail and is replaced
fn nearly_parallel(s: &mut Src, c: &mut Case) -> Res {
    let k = s.below(40) as i32;
    // the second kind has more significant bits than double-double arithmetic can hold
    let r = if s.bool() { Reg::Real(2f64.powi(k)) } else { Reg::Mixed(k + 2) };
    let mut v = None;
    for _ in 0..6 {
        let (a, b) = (r.pt(s), r.pt(s));
        let mut on = |s: &mut Src| {
            let t = match s.below(3) { 0 => s.unit(), 1 => s.unit() * 3.0 - 1.0, _ => s.below(2) as f64 };
            let mut p = c2(a.x + t * (b.x - a.x), a.y + t * (b.y - a.y));
            for _ in 0..s.below(3) {
                // (no subnormal numbers)
                if p.x == 0.0 || p.y == 0.0 {
                    continue;
                }
                match s.below(4) { 0 => p.x = next_up(p.x), 1 => p.x = next_down(p.x), 2 => p.y = next_up(p.y), _ => p.y = next_down(p.y) }
            }
            p
        };
        let (p, q) = (on(s), on(s));
        if o(&a, &b, &p) * o(&a, &b, &q) < 0 && o(&p, &q, &a) * o(&p, &q, &b) < 0 {
            v = Some([a, b, p, q]);
            break;
        }
    }
    check_proper(s, c, r, v)
}
/// integer segments far from the origin whose lines are nearly parallel: the formula loses the crossing,
/// but the distances of the end points are still well resolved
fn sheared(s: &mut Src, c: &mut Case) -> Res {
    let bits = s.range(6, 24);
    let Reg::Shear(mut m) = Reg::shear_of(s, bits, 0) else { unreachable!() };
    // the largest integers that doubles hold: all differences are exact
    for k in 4..6 {
        m[k] = (1i64 << 53) - (1i64 << 30) - s.range(0, 1 << 51);
        if s.bool() {
            m[k] = -m[k];
        }
    }
    let r = Reg::Shear(m);
    let v = crossing(s, r);
    check_proper(s, c, r, v)
}
fn check_proper(_s: &mut Src, c: &mut Case, r: Reg, v: Option<[Coordinate; 4]>) -> Res {
    let [a, b, p, q] = match v {
        Some(v) => v,
        None => {
            c.label("not a proper crossing (skipped)");
            return Ok(());
        }
    };
    c.show(|| format!("{:?} {} {} x {} {}", r, fc(&a), fc(&b), fc(&p), fc(&q)));
    let (x, y, tx, ty) = exact_cross(&a, &b, &p, &q);
    let mut li = RobustLineIntersector::default();
    li.compute_intersection_4(&a, &b, &p, &q);
    if !r.is_exact() && !li.has_intersection() {
        c.label("orientation not resolved (skipped)");
        return Ok(());
    }
    ck!(li.has_intersection(), "crossing segments reported disjoint");
    let g = li.get_intersection(0);
    // accuracy
    let ux = 2.0 * ulp(x.approx());
    let uy = 2.0 * ulp(y.approx());
    let tight = tx.le(&Rt::f(ux / 32.0)) && ty.le(&Rt::f(uy / 32.0));
    c.lab(tight, "accurate to one ulp");
    c.lab(!tight, "ill-conditioned: wider bound");
    c.nontrivial_if(tight || matches!(r, Reg::Real(_) | Reg::Shear(_)));
    if tight {
        ck!(inbox(&g, &a, &b) && inbox(&g, &p, &q), "{} is outside the envelope of a segment", fc(&g));
        ck!(x.near(g.x, ux) && y.near(g.y, uy), "crossing computed as {}, exactly ({:e}, {:e})", fc(&g), x.approx(), y.approx());
        let i = Intersection::intersection(&a, &b, &p, &q);
        ck!(i.is_some() && x.near(i.unwrap().x, ux) && y.near(i.unwrap().y, uy), "line intersection {:?}", i.map(|v| fc(&v)));
    } else {
        // inside the envelopes, or one of the end points
        let e = [a, b, p, q].iter().any(|v| v.equals_2d(&g));
        ck!(e || (inbox(&g, &a, &b) && inbox(&g, &p, &q)), "{} is neither an end point nor inside both envelopes", fc(&g));
        // near the crossing, or the end point nearest to the other segment
        let good = |v: &Rt, e: f64, t: &Rt, u: f64| v.sub(&Rt::f(e)).abs().le(&t.mul(&Rt::f(16.0)).add(&Rt::f(u)));
        let close = good(&x, g.x, &tx, ux) && good(&y, g.y, &ty, uy);
        let dist = |u: &Coordinate, v: &Coordinate, w: &Coordinate| d2_point_seg(&v2(u), &v2(v), &v2(w)).approx().sqrt();
        let ends = [(&a, dist(&a, &p, &q)), (&b, dist(&b, &p, &q)), (&p, dist(&p, &a, &b)), (&q, dist(&q, &a, &b))];
        let least = ends.iter().map(|e| e.1).fold(f64::INFINITY, f64::min);
        let (_, big) = span(&[a, b, p, q]);
        let nearest = ends.iter().any(|(v, d)| v.equals_2d(&g) && *d <= least * (1.0 + 1e-9) + 2e-15 * big);
        let replaced = !(inbox(&g, &a, &b) && inbox(&g, &p, &q));
        c.lab(e, "replaced by an end point");
        ck!(!replaced || nearest, "{} is not the end point nearest to the other segment ({:?})", fc(&g), ends.map(|e| e.1));
        ck!(close || nearest, "{} is neither near the crossing ({:e}, {:e}) nor the end point nearest to the other segment ({:?})", fc(&g), x.approx(), y.approx(), ends.map(|e| e.1));
    }
    ck!(g.z.is_nan(), "z appears from nowhere: {}", fc(&g));
    // the same crossing whatever the argument order
    for v in [[b, a, p, q], [a, b, q, p], [p, q, a, b], [q, p, b, a]] {
        let mut l2 = RobustLineIntersector::default();
        l2.compute_intersection_4(&v[0], &v[1], &v[2], &v[3]);
        let h = l2.get_intersection(0);
        if tight {
            ck!((h.x - g.x).abs() <= 2.0 * ux && (h.y - g.y).abs() <= 2.0 * uy, "argument order moves the point from {} to {}", fc(&g), fc(&h));
        }
    }
    Ok(())
}

/// the surrogate for lost crossings, asked directly: the end point nearest to the other segment
fn surrogate(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::any(s);
    let a = r.pt(s);
    let b = r.pt(s);
    let p = near_line(s, r, &a, &b);
    let q = near_line(s, r, &a, &b);
    c.show(|| format!("{:?} {} {} x {} {}", r, fc(&a), fc(&b), fc(&p), fc(&q)));
    let mut li = RobustLineIntersector::default();
    let g = li.nearest_endpoint(&a, &b, &p, &q);
    let dist = |u: &Coordinate, v: &Coordinate, w: &Coordinate| d2_point_seg(&v2(u), &v2(v), &v2(w)).approx().sqrt();
    let ends = [(a, dist(&a, &p, &q)), (b, dist(&b, &p, &q)), (p, dist(&p, &a, &b)), (q, dist(&q, &a, &b))];
    let least = ends.iter().map(|e| e.1).fold(f64::INFINITY, f64::min);
    let (_, big) = span(&[a, b, p, q]);
    let t = least * (1.0 + 1e-9) + 4e-15 * big;
    let near = ends.iter().filter(|(_, d)| *d <= t).count();
    c.nontrivial_if(near < 4);
    c.lab(near == 1, "one nearest end point");
    ck!(ends.iter().any(|(v, d)| v.equals_2d(&g) && *d <= t), "{} is not the end point nearest to the other segment ({:?})", fc(&g), ends.map(|e| e.1));
    // which points lie in the envelopes of both segments
    li.compute_intersection_4(&a, &b, &p, &q);
    for v in [a, b, p, q, c2(a.x, p.y), c2(q.x, b.y), r.pt(s)] {
        let w = inbox(&v, &a, &b) && inbox(&v, &p, &q);
        ck!(li.is_in_segment_envelopes(&v) == w, "is_in_segment_envelopes({}) is not {}", fc(&v), w);
    }
    Ok(())
}

fn zval(s: &mut Src) -> f64 {
    match s.below(12) {
        0..=3 => f64::NAN,
        4 => 0.0,
        5 => 7.0 + s.sint(9) as f64 * 0.001,
        6 => 1000.0 + s.unit(),
        7 => s.sint(9) as f64 * 1e-5,
        _ => s.sint(20) as f64,
    }
}
fn with_z(s: &mut Src, p: &Coordinate) -> Coordinate {
    let z = zval(s);
    let mut q = *p;
    q.z = z;
    q
}
/// z of p on segment a-b (ends may lack z)
fn interp(p: &Coordinate, a: &Coordinate, b: &Coordinate) -> f64 {
    if a.z.is_nan() {
        return b.z;
    }
    if b.z.is_nan() {
        return a.z;
    }
    if p.equals_2d(a) {
        return a.z;
    }
    if p.equals_2d(b) {
        return b.z;
    }
    let l = (b.x - a.x).hypot(b.y - a.y);
    let t = (p.x - a.x).hypot(p.y - a.y) / l;
    a.z + t * (b.z - a.z)
}
/// a factor for all heights of a case
fn zfactor(s: &mut Src) -> f64 {
    if s.chance(1, 4) { 2f64.powi(s.sint(600) as i32) } else { 1.0 }
}
fn nearz(a: f64, b: f64, k: f64) -> bool {
    (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (a.abs() + b.abs()) + 1e-12 * k
}

/// touching and overlapping segments: the points are exact copies of end points
fn touching(s: &mut Src, c: &mut Case) -> Res {
    let r = match s.below(3) {
        0 => Reg::Small,
        1 => Reg::Mid,
        _ => Reg::exact(s),
    };
    let a0 = r.pt(s);
    let b0 = r.pt(s);
    let p0 = near_line(s, r, &a0, &b0);
    let q0 = match s.below(3) {
        0 => r.pt(s),
        1 => near_line(s, r, &a0, &b0),
        _ => near_line(s, r, &a0, &p0),
    };
    if a0.equals_2d(&b0) || p0.equals_2d(&q0) {
        c.label("degenerate (skipped)");
        return Ok(());
    }
    let (mut a, mut b, mut p, mut q) = (with_z(s, &a0), with_z(s, &b0), with_z(s, &p0), with_z(s, &q0));
    let zk = zfactor(s);
    for v in [&mut a, &mut b, &mut p, &mut q] {
        v.z *= zk;
    }
    let (a, b, p, q) = (a, b, p, q);
    c.show(|| format!("{} {} x {} {}", fc(&a), fc(&b), fc(&p), fc(&q)));
    let on = |v: &Coordinate, x: &Coordinate, y: &Coordinate| o(x, y, v) == 0 && inbox(v, x, y);
    let mut li = RobustLineIntersector::default();
    let code = li.compute_intersect(&a, &b, &p, &q);
    // end points lying on the other segment, with the z they should carry
    let mut ends: Vec<(Coordinate, f64)> = vec![];
    for (v, x, y) in [(&a, &p, &q), (&b, &p, &q), (&p, &a, &b), (&q, &a, &b)] {
        if on(v, x, y) {
            let z = if v.z.is_nan() { interp(v, x, y) } else { v.z };
            ends.push((*v, z));
        }
    }
    // an end common to both segments carries the z of the first one, if that has one
    let common: Vec<(Coordinate, f64)> = [&a, &b].into_iter().flat_map(|u| [&p, &q].into_iter().filter(move |v| v.equals_2d(u)).map(move |v| (*u, if u.z.is_nan() { v.z } else { u.z }))).collect();
    let collinear = o(&a, &b, &p) == 0 && o(&a, &b, &q) == 0;
    let mut distinct: Vec<Coordinate> = vec![];
    for (e, _) in &ends {
        if !distinct.iter().any(|d| d.equals_2d(e)) {
            distinct.push(*e);
        }
    }
    if distinct.is_empty() {
        c.label("no touching (skipped)");
        return Ok(());
    }
    c.lab(collinear && distinct.len() == 2, "overlap");
    c.lab(collinear && distinct.len() == 1, "collinear, touching at an end");
    c.lab(!collinear, "touch");
    c.nontrivial_if(true);
    ck!(code == distinct.len() as i32, "code {} for {} distinct common end points", code, distinct.len());
    let mut got: Vec<Coordinate> = (0..code as usize).map(|i| li.get_intersection(i)).collect();
    for g in &got {
        let mut cand: Vec<f64> = ends.iter().filter(|(e, _)| e.equals_2d(g)).map(|(_, z)| *z).collect();
        ck!(!cand.is_empty(), "{} is not a copy of an end point", fc(g));
        let at: Vec<&Coordinate> = [&a, &b, &p, &q].into_iter().filter(|v| v.equals_2d(g)).collect();
        if !collinear && at.len() > 1 && at.iter().all(|v| v.z.is_nan()) {
            // a shared end point without z: nothing is interpolated
            cand.push(f64::NAN);
        }
        if let (false, Some((_, z))) = (collinear, common.iter().find(|(u, _)| u.equals_2d(g))) {
            c.label("common end");
            ck!(same(g.z, *z), "z of the common end {} should be {:?}", fc(g), z);
        } else if cand.len() == 1 && r.limit() < 1e9 {
            ck!(nearz(g.z, cand[0], zk), "z of {} should be {:?}", fc(g), cand[0]);
        } else if r.limit() < 1e9 {
            ck!(cand.iter().any(|z| nearz(g.z, *z, zk)), "z of {} should be one of {:?}", fc(g), cand);
        }
    }
    if got.len() == 2 {
        ck!(!got[0].equals_2d(&got[1]), "the two ends of the overlap coincide");
    }
    // symmetric as a set of positions
    let key = |v: &mut Vec<Coordinate>| v.sort_by(|x, y| x.compare_to(y).cmp(&0));
    key(&mut got);
    for v in [[b, a, p, q], [p, q, a, b], [q, p, b, a]] {
        let mut l2 = RobustLineIntersector::default();
        let k = l2.compute_intersect(&v[0], &v[1], &v[2], &v[3]);
        let mut h: Vec<Coordinate> = (0..k as usize).map(|i| l2.get_intersection(i)).collect();
        key(&mut h);
        ck!(h.len() == got.len() && h.iter().zip(&got).all(|(x, y)| x.equals_2d(y)), "argument order changes the result: {} and {}", fcs(&got), fcs(&h));
    }
    Ok(())
}

/// z of a proper crossing is the mean of the values interpolated on both segments
fn proper_z(s: &mut Src, c: &mut Case) -> Res {
    let r = if s.bool() { Reg::Small } else { Reg::Mid };
    let v = match crossing(s, r) {
        Some(v) => v,
        None => {
            c.label("not a proper crossing (skipped)");
            return Ok(());
        }
    };
    let (mut a, mut b, mut p, mut q) = (with_z(s, &v[0]), with_z(s, &v[1]), with_z(s, &v[2]), with_z(s, &v[3]));
    let zk = zfactor(s);
    for v in [&mut a, &mut b, &mut p, &mut q] {
        v.z *= zk;
    }
    let (a, b, p, q) = (a, b, p, q);
    c.show(|| format!("{} {} x {} {}", fc(&a), fc(&b), fc(&p), fc(&q)));
    let mut li = RobustLineIntersector::default();
    li.compute_intersection_4(&a, &b, &p, &q);
    let g = li.get_intersection(0);
    let (z1, z2) = (interp(&g, &a, &b), interp(&g, &p, &q));
    let want = if z1.is_nan() { z2 } else if z2.is_nan() { z1 } else { (z1 + z2) / 2.0 };
    c.nontrivial_if(!want.is_nan());
    c.lab(!z1.is_nan() && !z2.is_nan(), "both segments have z");
    ck!(nearz(g.z, want, zk), "z of the crossing {} should be {:?}", fc(&g), want);
    // argument order
    let mut l2 = RobustLineIntersector::default();
    l2.compute_intersection_4(&q, &p, &a, &b);
    ck!(nearz(l2.get_intersection(0).z, g.z, zk), "argument order changes z: {:?} and {:?}", g.z, l2.get_intersection(0).z);
    Ok(())
}

/// a precision model rounds computed (proper) crossings, and only them
fn precision(s: &mut Src, c: &mut Case) -> Res {
    let r = match s.below(3) {
        0 => Reg::Mid,
        1 => Reg::Quarter,
        _ => Reg::Real(100.0),
    };
    let scale = [1.0, 10.0, 100.0, 2.0, 0.1][s.below(5)];
    let mut pm = match s.below(4) {
        0 => PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle),
        1 => PrecisionModel::default(),
        _ => PrecisionModel::new_with_scale(scale),
    };
    let a = r.pt(s);
    let b = r.pt(s);
    let p = near_line(s, r, &a, &b);
    let q = if s.bool() { r.pt(s) } else { c2(a.x + b.x - p.x, a.y + b.y - p.y) };
    c.show(|| format!("scale {} {} {} x {} {}", scale, fc(&a), fc(&b), fc(&p), fc(&q)));
    let mut plain = RobustLineIntersector::default();
    let code = plain.compute_intersect(&a, &b, &p, &q);
    plain.compute_intersection_4(&a, &b, &p, &q);
    // an intersector that may have been used before, with these or other segments and another precision model
    let mut li = RobustLineIntersector::default();
    for _ in 0..s.below(4) {
        if s.chance(1, 2) {
            li.set_precision_model(PrecisionModel::new_with_scale([1.0, 10.0, 100.0, 2.0, 0.1][s.below(5)]));
        }
        let other = r.pt(s);
        match s.below(4) {
            0 | 1 => li.compute_intersection_4(&a, &b, &p, &q),
            2 => li.compute_intersection_4(&p, &q, &a, &b),
            _ => li.compute_intersection_4(&a, &b, &p, &other),
        }
    }
    li.set_precision_model(pm);
    let code2 = li.compute_intersect(&a, &b, &p, &q);
    li.compute_intersection_4(&a, &b, &p, &q);
    ck!(code == code2, "the precision model changes the code from {} to {}", code, code2);
    let proper = o(&a, &b, &p) * o(&a, &b, &q) < 0 && o(&p, &q, &a) * o(&p, &q, &b) < 0;
    c.nontrivial_if(proper);
    for i in 0..code as usize {
        let mut w = plain.get_intersection(i);
        if proper {
            pm.make_precise_coordinate(&mut w);
        } else if !r.is_exact() {
            continue;
        }
        let g = li.get_intersection(i);
        ck!(g.equals_2d(&w), "point {} is {} instead of {}", i, fc(&g), fc(&w));
    }
    Ok(())
}

/// one intersector run over the pairs of segments of two polylines reports what a fresh one reports for each pair
fn chains(s: &mut Src, c: &mut Case) -> Res {
    let r = match s.below(3) {
        0 => Reg::Small,
        1 => Reg::Mid,
        _ => Reg::Real(100.0),
    };
    let mut line = |n: usize| -> Vec<Coordinate> {
        (0..n).map(|i| { let p = r.pt(s); Coordinate::new_xyz(p.x, p.y, if s.chance(1, 4) { f64::NAN } else { i as f64 }) }).collect()
    };
    let (k, l) = (line(4), line(5));
    c.show(|| format!("{} x {}", fcs(&k), fcs(&l)));
    let pm = if s.chance(1, 3) { Some(PrecisionModel::new_with_scale([1.0, 10.0, 0.5][s.below(3)])) } else { None };
    let new = || {
        let mut li = RobustLineIntersector::default();
        if let Some(pm) = pm {
            li.set_precision_model(pm);
        }
        li
    };
    let mut li = new();
    let back = s.bool();
    let mut hits = 0;
    for i in 1..k.len() {
        for j in 1..l.len() {
            let (a, b, p, q) = if back { (l[j - 1], l[j], k[i], k[i - 1]) } else { (k[i - 1], k[i], l[j - 1], l[j]) };
            let mut fresh = new();
            let code = fresh.compute_intersect(&a, &b, &p, &q) as usize;
            fresh = new();
            fresh.compute_intersection_4(&a, &b, &p, &q);
            li.compute_intersection_4(&a, &b, &p, &q);
            ck!(li.has_intersection() == (code > 0), "segments {} and {}: {} on a used intersector", i, j, li.has_intersection());
            for t in 0..code {
                let (u, v) = (li.get_intersection(t), fresh.get_intersection(t));
                ck!(same_c(&u, &v), "segments {} and {}: point {} is {} on a used intersector, {} on a fresh one", i, j, t, fc(&u), fc(&v));
            }
            hits += code;
        }
    }
    c.nontrivial_if(hits > 1);
    Ok(())
}

static SUBS: &[Sub] = &[
    Sub { name: "proper", rule: "proper crossing whose double-double error bound is far below one ulp", quick: 200_000, f: proper },
    Sub { name: "nearly parallel", rule: "proper crossing of full-precision segments", quick: 150_000, f: nearly_parallel },
    Sub { name: "sheared", rule: "proper crossing whose error bound is above one ulp", quick: 100_000, f: sheared },
    Sub { name: "surrogate", rule: "some end point is further from the other segment than another", quick: 100_000, f: surrogate },
    Sub { name: "touching", rule: "an end point of one segment lies on the other", quick: 250_000, f: touching },
    Sub { name: "proper_z", rule: "proper crossing with at least one z value", quick: 200_000, f: proper_z },
    Sub { name: "chains", rule: "at least two intersections", quick: 60_000, f: chains },
    Sub { name: "precision", rule: "proper crossing", quick: 200_000, f: precision },
];
fn main() {
    gv::main(
        "P04",
        "crossing, touching and overlapping segment pairs with and without z; oracle: exact rational crossing with a rigorous double-double error bound",
        &["coordinate differences exactly representable for the classification; one-ulp accuracy asserted where the error bound of the double-double formula allows it"],
        SUBS,
    );
}
