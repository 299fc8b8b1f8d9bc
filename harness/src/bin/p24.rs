//! P24: line segments.
use gv::g::*;
use gv::*;

fn regime(s: &mut Src) -> Reg {
    match s.below(6) {
        0 | 1 => Reg::Small,
        2 => Reg::Mid,
        3 => Reg::Quarter,
        4 => Reg::Offset(1i64 << s.range(10, 35)),
        _ => Reg::Real(100.0),
    }
}
fn mk(s: &mut Src, a: &Coordinate, b: &Coordinate) -> LineSegment {
    match s.below(4) {
        0 => LineSegment::new_from_xy(a.x, a.y, b.x, b.y),
        1 => LineSegment::new_from_line_segment(&LineSegment::new_from_coordinates(a, b)),
        2 => {
            let mut l = LineSegment::default();
            if s.bool() {
                l.set_coordinates(a, b);
            } else {
                l.set_coordinates_from_line_segment(LineSegment::new_from_coordinates(a, b));
            }
            l
        }
        _ => LineSegment::new_from_coordinates(a, b),
    }
}
fn tol(v: &[Coordinate]) -> f64 {
    let (m, d) = span(v);
    1e-13 * d + 8.0 * ulp(m)
}
fn cmp(a: &Coordinate, b: &Coordinate) -> i32 {
    if (a.x, a.y) < (b.x, b.y) { -1 } else { ((a.x, a.y) > (b.x, b.y)) as i32 }
}
fn ft(l: &LineSegment) -> String {
    format!("{}-{}", fc(&l.p0), fc(&l.p1))
}

fn basics(s: &mut Src, c: &mut Case) -> Res {
    let r = if s.bool() { Reg::Small } else { regime(s) };
    let (mut a, mut b) = (r.pt(s), r.pt(s));
    let mut d = match s.below(4) { 0 => a, 1 => b, _ => r.pt(s) };
    let mut e = match s.below(4) { 0 => a, 1 => b, _ => r.pt(s) };
    let f = rescale(s);
    scale_by(&mut [&mut a, &mut b, &mut d, &mut e], f);
    // ends that agree in an ordinate, or nearly do
    let b0 = b;
    for (p, q) in [(&mut b, a), (&mut d, a), (&mut e, b0)] {
        for i in 0..2 {
            if s.chance(1, 12) {
                let w = if i == 0 { q.x } else { q.y };
                let v = match s.below(4) { 0 => next_up(w), 1 => next_down(w), 2 => w + w * 2f64.powi(-(s.range(20, 50) as i32)), _ => w };
                if i == 0 { p.x = v } else { p.y = v }
            }
        }
    }
    let l = mk(s, &a, &b);
    let k = mk(s, &d, &e);
    c.show(|| format!("{} and {}", ft(&l), ft(&k)));
    ck!(same_c(&l.p0, &a) && same_c(&l.p1, &b), "endpoints of {}", ft(&l));
    ck!(same_c(&l.get_coordinate(0), &a) && same_c(&l.get_coordinate(1), &b), "coordinates of {}", ft(&l));
    ck!((l.min_x(), l.max_x(), l.min_y(), l.max_y()) == (a.x.min(b.x), a.x.max(b.x), a.y.min(b.y), a.y.max(b.y)), "{}: bounds", ft(&l));
    ck!(l.is_horizontal() == (a.y == b.y) && l.is_vertical() == (a.x == b.x), "{}: horizontal {} vertical {}", ft(&l), l.is_horizontal(), l.is_vertical());
    let q = (Dy::f(a.x) - Dy::f(b.x)).sq() + (Dy::f(a.y) - Dy::f(b.y)).sq();
    ck!(near_sqrt(l.get_length(), &Rt::dy(q), 1e-14 * l.get_length() + 1e-300), "{}: length {:?}", ft(&l), l.get_length());
    let m = l.mid_point();
    for (v, p, q) in [(m.x, a.x, b.x), (m.y, a.y, b.y)] {
        let w = (Dy::f(p) + Dy::f(q)).scale2(-1);
        ck!(Rt::dy(w).near(v, 2.0 * ulp(p.abs().max(q.abs()))), "{}: midpoint {}", ft(&l), fc(&m));
    }
    ck!(same_c(&m, &LineSegment::mid_point_coordinates(&a, &b)), "{}: two midpoints", ft(&l));
    let mut rev = l;
    rev.reverse();
    ck!(same_c(&rev.p0, &b) && same_c(&rev.p1, &a), "{} reversed is {}", ft(&l), ft(&rev));
    let mut n = l;
    n.normalize();
    ck!(cmp(&n.p0, &n.p1) <= 0 && n.equals_topo(&l), "{} normalized is {}", ft(&l), ft(&n));
    let mut n2 = rev;
    n2.normalize();
    ck!(n.equals(&n2), "{} and its reverse normalize to {} and {}", ft(&l), ft(&n), ft(&n2));
    // equality and order
    let e2 = |p: &Coordinate, q: &Coordinate| p.x == q.x && p.y == q.y;
    let eq = e2(&a, &d) && e2(&b, &e);
    ck!(l.equals(&k) == eq && k.equals(&l) == eq, "{} equals {}: {}", ft(&l), ft(&k), l.equals(&k));
    let et = eq || (e2(&a, &e) && e2(&b, &d));
    ck!(l.equals_topo(&k) == et && k.equals_topo(&l) == et, "{} topologically equals {}: {}", ft(&l), ft(&k), l.equals_topo(&k));
    let w = if cmp(&a, &d) != 0 { cmp(&a, &d) } else { cmp(&b, &e) };
    ck!(l.compare_to(&k).signum() == w && k.compare_to(&l).signum() == -w, "{} compared with {}: {}", ft(&l), ft(&k), l.compare_to(&k));
    // assignment keeps the receiver's other ordinates out of it
    let mut t = LineSegment::new_from_coordinates(&Coordinate::new_xyzm(1.0, 2.0, 3.0, 4.0), &Coordinate::new_xyzm(5.0, 6.0, 7.0, 8.0));
    t.set_coordinates_from_line_segment(k);
    ck!(t.equals(&k), "assigning {} gives {}", ft(&k), ft(&t));
    // whatever the receiver was before, the same ends in the other order included
    for from in [l, rev, n, k, LineSegment::new_from_coordinates(&a, &a)] {
        for to in [l, rev, n, k] {
            let (mut t, mut u) = (from, from);
            t.set_coordinates_from_line_segment(to);
            u.set_coordinates(&to.p0, &to.p1);
            ck!(t.equals(&to) && u.equals(&to), "{} assigned to {} gives {} or {}", ft(&to), ft(&from), ft(&t), ft(&u));
        }
    }
    c.lab(et && !eq, "reversed");
    c.lab(eq, "equal");
    c.nontrivial_if(!e2(&a, &b));
    Ok(())
}

fn sides(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::exact(s);
    let (a, b, p) = triple(s, r);
    let q = near_line(s, r, &a, &b);
    let l = mk(s, &a, &b);
    let k = mk(s, &p, &q);
    c.show(|| format!("{:?} line {} segment {}", r, ft(&l), ft(&k)));
    let (o0, o1) = (o3(&a, &b, &p), o3(&a, &b, &q));
    ck!(l.orientation_index_coordinate(&p) == o0, "{} of {}: {}", fc(&p), ft(&l), l.orientation_index_coordinate(&p));
    let w = if o0 * o1 < 0 { 0 } else { o0 + o1 };
    let g = l.orientation_index_line_segment(&k);
    ck!(g == w.signum(), "{} against {}: {}, endpoints are at {} and {}", ft(&k), ft(&l), g, o0, o1);
    c.lab(o0 * o1 < 0, "crosses");
    c.lab(o0 * o1 == 0 && o0 != o1, "touches the line");
    c.lab(o0 == 0 && o1 == 0, "on the line");
    c.nontrivial_if(!a.equals_2d(&b));
    // distance to the segment
    if !matches!(r, Reg::Grid { .. } | Reg::Offset(_)) || matches!(r, Reg::Offset(o) if o < 1 << 40) {
        let e = d2_point_seg(&v2(&p), &v2(&a), &v2(&b));
        let d = l.distance_coordinate(&p);
        ck!(d >= 0.0 && near_sqrt(d, &e, tol(&[a, b, p])), "{} from {}: {:?}, exactly sqrt({:?})", fc(&p), ft(&l), d, e.approx());
    }
    // signed perpendicular distance
    if !matches!(r, Reg::Grid { .. } | Reg::Offset(_)) || matches!(r, Reg::Offset(o) if o < 1 << 40) {
        let t = tol(&[a, b, p]);
        if a.equals_2d(&b) {
            let e = d2_point_seg(&v2(&p), &v2(&a), &v2(&b));
            ck!(near_sqrt(l.distance_perpendicular(&p), &e, t) && l.distance_perpendicular_oriented(&p).abs() == l.distance_perpendicular(&p), "zero-length {}: distance of {}", ft(&l), fc(&p));
        } else {
            let e = d2_point_line(&v2(&p), &v2(&a), &v2(&b));
            let v = l.distance_perpendicular(&p);
            ck!(v >= 0.0 && near_sqrt(v, &e, t), "{} from the line of {}: {:?}", fc(&p), ft(&l), v);
            let v = l.distance_perpendicular_oriented(&p);
            ck!(near_sqrt(v.abs(), &e, t), "{} from the line of {}: {:?}", fc(&p), ft(&l), v);
            // products of the differences are exact, so the sign is
            let resolved = span(&[a, b, p]).1 / r.step() < 6.0e7;
            ck!(!resolved || if o0 == 0 { v == 0.0 } else { (v > 0.0) == (o0 > 0) && v != 0.0 }, "{} is {} of {} but its signed distance is {:?}", fc(&p), if o0 > 0 { "left" } else if o0 < 0 { "right" } else { "on the line" }, ft(&l), v);
        }
    }
    Ok(())
}

/// exact projection factor
fn factor(a: &Coordinate, b: &Coordinate, p: &Coordinate) -> Rt {
    let d = vsub(&v2(b), &v2(a));
    Rt::new(vdot(&vsub(&v2(p), &v2(a)), &d), vdot(&d, &d))
}
/// exact point a + f (b - a) close to q
fn near_at(q: &Coordinate, a: &Coordinate, b: &Coordinate, f: &Rt, t: f64) -> bool {
    let at = |u: f64, v: f64| Rt::f(u).add(&f.mul(&Rt::f(v).sub(&Rt::f(u))));
    at(a.x, b.x).near(q.x, t) && at(a.y, b.y).near(q.y, t)
}

fn projecting(s: &mut Src, c: &mut Case) -> Res {
    let r = regime(s);
    let (mut a, mut b, mut p) = triple(s, r);
    let mut p2 = near_line(s, r, &a, &b);
    if r == Reg::Small && s.chance(1, 10) {
        // far out in relation to the segment
        let f = 2f64.powi(s.range(8, 40) as i32);
        scale_by(&mut [&mut p2], f);
        c.label("far out");
    }
    let k = rescale(s);
    scale_by(&mut [&mut a, &mut b, &mut p, &mut p2], k);
    let l = mk(s, &a, &b);
    c.show(|| format!("{:?} {} on {}", r, fc(&p), ft(&l)));
    let got = l.projection_factor(&p);
    let e2 = |p: &Coordinate, q: &Coordinate| p.x == q.x && p.y == q.y;
    if e2(&a, &b) {
        let at = e2(&p, &a);
        ck!(if at { got == 0.0 } else { got.is_nan() }, "factor of {} on a zero-length segment: {:?}", fc(&p), got);
        ck!(l.segment_fraction(&p) == if at { 0.0 } else { 1.0 }, "fraction of {} on a zero-length segment: {:?}", fc(&p), l.segment_fraction(&p));
        let q = l.closest_point(&p);
        ck!(e2(&q, &a), "closest point of zero-length {} is {}", ft(&l), fc(&q));
        return Ok(());
    }
    let f = factor(&a, &b, &p);
    let (m, d) = span(&[a, b, p]);
    let len = l.get_length();
    // products are rounded relative to |ap||ab|; differences relative to the ordinates
    let ft_ = 1e-15 * 8.0 * (d / len) + if r.is_exact() { 0.0 } else { 4.0 * ulp(m) * (1.0 + d / len) / len };
    ck!(f.near(got, ft_), "factor of {} on {}: {:?}, exactly {:e}", fc(&p), ft(&l), got, f.approx());
    if e2(&p, &a) || e2(&p, &b) {
        ck!(got == e2(&p, &b) as i32 as f64, "factor of an endpoint {:?}", got);
    }
    let fr = l.segment_fraction(&p);
    ck!(fr == got.clamp(0.0, 1.0), "fraction {:?} for factor {:?}", fr, got);
    let t = tol(&[a, b, p]) * 4.0;
    let z = Coordinate::new_xyzm(p.x, p.y, 5.0, 6.0);
    for (n, q) in [("projection", l.project_coordinate(&z)), ("projection with factor", l.project_coordinate_with_projection_factor(&z, got))] {
        ck!(near_at(&q, &a, &b, &f, t), "{} of {} on {} is {}", n, fc(&p), ft(&l), fc(&q));
        ck!(q.z == 5.0 && q.m == 6.0, "{} drops other ordinates: {}", n, fc(&q));
    }
    if e2(&p, &a) || e2(&p, &b) {
        ck!(e2(&l.project_coordinate(&p), &p), "projection moves the endpoint {}", fc(&p));
    }
    // closest point
    let g = if f.sign() < 0 { Rt::f(0.0) } else if Rt::f(1.0).lt(&f) { Rt::f(1.0) } else { f.clone() };
    let q = l.closest_point(&p);
    ck!(near_at(&q, &a, &b, &g, t), "closest point to {} on {} is {}", fc(&p), ft(&l), fc(&q));
    if f.sign() <= 0 && r.is_exact() {
        ck!(e2(&q, &a), "closest point to {} on {} is {} instead of its start", fc(&p), ft(&l), fc(&q));
    }
    if Rt::f(1.0).le(&f) && r.is_exact() {
        ck!(e2(&q, &b), "closest point to {} on {} is {} instead of its end", fc(&p), ft(&l), fc(&q));
    }
    // segment projected onto the segment
    let f2 = factor(&a, &b, &p2);
    let (p, p2, f, f2) = if s.bool() { (p2, p, f2, f.clone()) } else { (p, p2, f.clone(), f2) };
    let k = mk(s, &p, &p2);
    if r.is_exact() && !matches!(r, Reg::Offset(_)) {
        let one = Rt::f(1.0);
        let none = (one.le(&f) && one.le(&f2)) || (f.sign() <= 0 && f2.sign() <= 0);
        let got = l.project_line_segment(&k);
        ck!(got.is_none() == none, "projection of {} on {}: none = {}", ft(&k), ft(&l), got.is_none());
        if let Some(h) = got {
            let cl = |f: &Rt| f.max(&Rt::f(0.0)).min(&one);
            let t = t.max(tol(&[a, b, p, p2]) * 4.0);
            ck!(near_at(&h.p0, &a, &b, &cl(&f), t) && near_at(&h.p1, &a, &b, &cl(&f2), t), "projection of {} on {} is {}", ft(&k), ft(&l), ft(&h));
            c.label("segment projects");
            // clamped ends are the endpoints themselves
            for (f, q) in [(&f, &h.p0), (&f2, &h.p1)] {
                ck!(!(f.sign() < 0) || e2(q, &a), "clamped end {} is not {}", fc(q), fc(&a));
                ck!(!one.lt(f) || e2(q, &b), "clamped end {} is not {}", fc(q), fc(&b));
            }
        } else {
            c.label("segment projects to nothing");
        }
    }
    c.lab(f.sign() < 0, "before the start");
    c.lab(Rt::f(1.0).lt(&f), "past the end");
    c.nontrivial_if(f.sign() > 0 && f.lt(&Rt::f(1.0)));
    Ok(())
}

fn along(s: &mut Src, c: &mut Case) -> Res {
    let r = match s.below(4) { 0 | 1 => Reg::Small, 2 => Reg::Quarter, _ => Reg::Mid };
    let (mut a, mut b, mut p) = (r.pt(s), r.pt(s), r.pt(s));
    let sc = rescale(s);
    scale_by(&mut [&mut a, &mut b, &mut p], sc);
    let l = mk(s, &a, &b);
    let f = match s.below(3) { 0 => s.sint(8) as f64 / 4.0, 1 => s.unit(), _ => s.pick(&[0.0, 1.0, 0.5]) };
    let o = match s.below(8) {
        0 | 1 => 0.0,
        2..=4 => s.sint(40) as f64 / 4.0,
        5 => s.sint(9) as f64 * 2f64.powi(s.sint(30) as i32),
        _ => (s.unit() - 0.5) * 20.0,
    } * sc;
    c.show(|| format!("{} fraction {:?} offset {:?}", ft(&l), f, o));
    let t = 1e-12 * (sc + span(&[a, b]).1 + o.abs()) + 8.0 * ulp(span(&[a, b]).0);
    let q = l.point_along(f);
    ck!(near_at(&q, &a, &b, &Rt::f(f), t), "point at {:?} of {} is {}", f, ft(&l), fc(&q));
    if f == 0.0 {
        ck!(q.equals_2d(&a), "point at 0 of {} is {}", ft(&l), fc(&q));
    }
    if f == 1.0 {
        ck!(q.equals_2d(&b), "point at 1 of {} is {}", ft(&l), fc(&q));
    }
    if a.equals_2d(&b) {
        if o == 0.0 {
            let h = l.point_along_offset(f, o);
            ck!(h.equals_2d(&q), "no offset gives {}", fc(&h));
        }
        return Ok(());
    }
    let h = l.point_along_offset(f, o);
    // component along and across the segment
    let (ux, uy) = (b.x - a.x, b.y - a.y);
    let n = f64::hypot(ux, uy);
    let (vx, vy) = (h.x - a.x, h.y - a.y);
    ck!(((vx * ux + vy * uy) / n - f * n).abs() <= t, "offset point {} of {} lies at the wrong fraction", fc(&h), ft(&l));
    ck!(((ux * vy - uy * vx) / n - o).abs() <= t, "offset point {} of {} is not {:?} to the left", fc(&h), ft(&l), o);
    if o == 0.0 {
        ck!(h.equals_2d(&q), "no offset gives {} instead of {}", fc(&h), fc(&q));
    }
    if o.abs() > 1e-6 * sc {
        ck!(o3(&a, &b, &h) == if o > 0.0 { 1 } else { -1 }, "offset {:?} of {} to {} is on the wrong side", o, ft(&l), fc(&h));
    }
    let k = l.offset(o);
    let (h0, h1) = (l.point_along_offset(0.0, o), l.point_along_offset(1.0, o));
    ck!(k.p0.distance(&h0) <= t && k.p1.distance(&h1) <= t, "{} offset by {:?} is {}", ft(&l), o, ft(&k));
    c.lab(o < 0.0, "to the right");
    c.lab(!(0.0..=1.0).contains(&f), "beyond the segment");
    c.nontrivial_if(o != 0.0);
    // reflection
    let z = Coordinate::new_xyzm(p.x, p.y, 5.0, 6.0);
    let w = l.reflect(&z);
    let g = factor(&a, &b, &p);
    let two = Rt::f(2.0);
    let ex = |u: f64, v: f64, p: f64| two.mul(&Rt::f(u).add(&g.mul(&Rt::f(v).sub(&Rt::f(u))))).sub(&Rt::f(p));
    let d = span(&[a, b, p]);
    let t = 1e-13 * (d.0 + d.1) * (1.0 + d.0 / n);
    ck!(ex(a.x, b.x, p.x).near(w.x, t) && ex(a.y, b.y, p.y).near(w.y, t), "{} reflected in {} is {}", fc(&p), ft(&l), fc(&w));
    ck!(w.z == 5.0 && w.m == 6.0, "reflection drops other ordinates: {}", fc(&w));
    Ok(())
}

fn nearest(s: &mut Src, c: &mut Case) -> Res {
    let r = regime(s);
    let a = r.pt(s);
    let b = if s.chance(1, 16) { a } else { r.pt(s) };
    let p = near_line(s, r, &a, &b);
    let q = match s.below(4) {
        0 => near_line(s, r, &a, &b),
        1 => c2(r.snap(p.x + (b.x - a.x)), r.snap(p.y + (b.y - a.y))),
        _ => r.pt(s),
    };
    let (mut a, mut b, mut p, mut q) = (a, b, p, q);
    let sc = rescale(s);
    scale_by(&mut [&mut a, &mut b, &mut p, &mut q], sc);
    let (l, k) = (mk(s, &a, &b), mk(s, &p, &q));
    c.show(|| format!("{:?} {} / {}", r, ft(&l), ft(&k)));
    let t = 4.0 * tol(&[a, b, p, q]);
    let meet = seg_meet(&a, &b, &p, &q);
    c.lab(meet, "meet");
    c.lab(a.equals_2d(&b) || p.equals_2d(&q), "zero length");
    c.nontrivial_if(!a.equals_2d(&b) && !p.equals_2d(&q));
    let e = if meet { Rt::dy(Dy::zero()) } else { d2_seg_seg(&v2(&a), &v2(&b), &v2(&p), &v2(&q)) };
    let d = l.distance_line_segment(&k);
    ck!(near_sqrt(d, &e, t), "distance {:?}, exactly sqrt({:e})", d, e.approx());
    if !r.is_exact() && ![(&a, &b, &p), (&a, &b, &q), (&p, &q, &a), (&p, &q, &b)].iter().all(|v| dd_decides(v.0, v.1, v.2)) {
        // the orientation predicate makes no promise there
        c.label("contact below double-double resolution (skipped)");
        return Ok(());
    }
    let x = l.intersection(&k);
    ck!(x.is_some() == meet, "intersection reported {}, the segments {}meet", x.is_some(), if meet { "" } else { "do not " });
    if let Some(x) = x {
        let far = |u: &Coordinate, v: &Coordinate| near_sqrt(0.0, &d2_point_seg(&v2(&x), &v2(u), &v2(v)), t);
        ck!(far(&a, &b) && far(&p, &q), "intersection {} is not on both segments", fc(&x));
    }
    for (l, k) in [(&l, &k), (&k, &l)] {
        let v = l.closest_points(k);
        ck!(v.len() == 2, "{} closest points", v.len());
        ck!(near_sqrt(0.0, &d2_point_seg(&v2(&v[0]), &v2(&l.p0), &v2(&l.p1)), t), "{} is not on {}", fc(&v[0]), ft(l));
        ck!(near_sqrt(0.0, &d2_point_seg(&v2(&v[1]), &v2(&k.p0), &v2(&k.p1)), t), "{} is not on {}", fc(&v[1]), ft(k));
        ck!(near_sqrt(v[0].distance(&v[1]), &e, 2.0 * t), "closest points {} are {:?} apart, the segments exactly sqrt({:e})", fcs(&v), v[0].distance(&v[1]), e.approx());
        ck!(!meet || v[0].equals_2d(&v[1]), "closest points of meeting segments {}", fcs(&v));
    }
    // infinite lines
    if !a.equals_2d(&b) && !p.equals_2d(&q) && matches!(r, Reg::Small | Reg::Quarter | Reg::Mid) {
        let den = (b.x - a.x) * (q.y - p.y) - (b.y - a.y) * (q.x - p.x);
        let x = l.line_intersection(k);
        ck!(x.is_some() == (den != 0.0), "lines of {} and {}: intersection {}", ft(&l), ft(&k), x.is_some());
        if let Some(x) = x {
            // exact parameter on l
            let f = Rt::new(Dy::f((p.x - a.x) * (q.y - p.y) - (p.y - a.y) * (q.x - p.x)), Dy::f(den));
            let m = sc + x.x.abs().max(x.y.abs());
            ck!(near_at(&x, &a, &b, &f, 1e-9 * m), "lines of {} and {} meet at {}", ft(&l), ft(&k), fc(&x));
        }
    }
    Ok(())
}

fn main() {
    gv::main(
        "P24",
        "segments with integer, quarter, offset (2^10..2^35) and real endpoints, zero-length included; points on, near and off the line; fractions in [-2, 2], offsets up to 10",
        &["tolerances of 1e-13 relative to the extent plus a few units in the last place of the largest ordinate", "side and emptiness decisions asserted where differences are exact"],
        &[
            Sub { name: "construction, order, reversal", rule: "the segment has a length", quick: 40_000, f: basics },
            Sub { name: "sides", rule: "the segment has a length", quick: 40_000, f: sides },
            Sub { name: "projection and closest point", rule: "the foot lies inside the segment", quick: 40_000, f: projecting },
            Sub { name: "points along, offset, reflection", rule: "the offset is not zero", quick: 40_000, f: along },
            Sub { name: "nearest points of two segments", rule: "both segments have a length", quick: 30_000, f: nearest },
        ],
    );
}
