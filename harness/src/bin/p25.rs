//! P25: triangle centres, measures and interpolation.
use gv::g::*;
use gv::*;

fn regime(s: &mut Src) -> Reg {
    match s.below(6) {
        0 | 1 => Reg::Small,
        2 => Reg::Mid,
        3 => Reg::Quarter,
        4 => Reg::Far(s.range(10, 50), s.pick(&[50, 2000])),
        _ => Reg::Offset(1i64 << s.range(10, 30)),
    }
}
fn tri(s: &mut Src) -> (Reg, f64, [Coordinate; 3]) {
    let r = regime(s);
    let a = r.pt(s);
    let b = r.pt(s);
    let c = match s.below(6) {
        0 => near_line(s, r, &a, &b),
        // right angle at b
        1 => c2(b.x - (a.y - b.y), b.y + (a.x - b.x)),
        // isosceles
        2 => c2(2.0 * b.x - a.x, a.y),
        _ => r.pt(s),
    };
    let mut t = [a, b, c];
    let k = rescale(s);
    for p in t.iter_mut() {
        scale_by(&mut [p], k);
    }
    (r, k, t)
}
fn d2(p: &Coordinate, q: &Coordinate) -> Dy {
    let d = vsub(&v2(p), &v2(q));
    vdot(&d, &d)
}
fn det(t: &[Coordinate; 3]) -> Dy {
    orient_det(t[0].x, t[0].y, t[1].x, t[1].y, t[2].x, t[2].y)
}
fn obj(t: &[Coordinate; 3]) -> Triangle {
    Triangle::new(&t[0], &t[1], &t[2])
}

fn measures(s: &mut Src, c: &mut Case) -> Res {
    let (_, k, t) = tri(s);
    c.show(|| fcs(&t));
    let o = obj(&t);
    let [a, b, e] = t;
    let d = det(&t);
    let ar = Rt::new(d.clone(), Dy::int(2));
    let atol = 1e-15 * span(&t).1.powi(2);
    for (n, v) in [("area", o.area()), ("area of vertices", Triangle::area_coordinates(&a, &b, &e))] {
        ck!(ar.abs().near(v, atol), "{} {:?} of {}, exactly {:e}", n, v, fcs(&t), ar.abs().approx());
    }
    for (n, v) in [("signed area", o.signed_area()), ("signed area of vertices", Triangle::signed_area_coordinates(&a, &b, &e))] {
        ck!(ar.near(-v, atol), "{} {:?} of {}, clockwise area is {:e}", n, v, fcs(&t), -ar.approx());
    }
    let ccw = d.sign() > 0;
    ck!(o.is_ccw() == ccw && Triangle::is_ccw_coordinates(&a, &b, &e) == ccw, "{} anticlockwise: {}", fcs(&t), o.is_ccw());
    let dot = |p: &Coordinate, q: &Coordinate, r: &Coordinate| vdot(&vsub(&v2(p), &v2(q)), &vsub(&v2(r), &v2(q))).sign();
    let angles = [dot(&a, &b, &e), dot(&b, &e, &a), dot(&e, &a, &b)];
    let acute = angles.iter().all(|&v| v > 0);
    ck!(o.is_acute() == acute && Triangle::is_acute_coordinates(&a, &b, &e) == acute, "{} acute: {}", fcs(&t), o.is_acute());
    let sides = [d2(&a, &b), d2(&b, &e), d2(&e, &a)];
    let lens: Vec<f64> = sides.iter().map(|q| q.to_f64().sqrt()).collect();
    let per = lens.iter().sum::<f64>();
    for v in [o.length(), Triangle::length_coordinates(&a, &b, &e)] {
        ck!((v - per).abs() <= 1e-14 * per, "perimeter {:?} of {}, sides {:?}", v, fcs(&t), lens);
    }
    let mx = sides.iter().fold(Dy::zero(), |m, q| Dy::max(&m, q));
    for v in [o.longest_side_length(), Triangle::longest_side_length_coordinates(&a, &b, &e)] {
        ck!(near_sqrt(v, &Rt::dy(mx.clone()), 4.0 * ulp(v)), "longest side {:?} of {}, sides {:?}", v, fcs(&t), lens);
    }
    let third = |u: f64, v: f64, w: f64| Rt::new(Dy::f(u) + Dy::f(v) + Dy::f(w), Dy::int(3));
    let m = span(&t).0;
    for q in [o.centroid(), Triangle::centroid_coordinates(&a, &b, &e)] {
        ck!(third(a.x, b.x, e.x).near(q.x, 4.0 * ulp(m)) && third(a.y, b.y, e.y).near(q.y, 4.0 * ulp(m)), "centroid {} of {}", fc(&q), fcs(&t));
    }
    ck!(Triangle::det_f64(b.x - a.x, b.y - a.y, e.x - a.x, e.y - a.y) == d.to_f64(), "determinant");
    c.lab(acute, "acute");
    c.lab(angles.contains(&0), "right");
    c.lab(angles.iter().any(|&v| v < 0), "obtuse");
    c.lab(d.is_zero(), "flat");
    c.lab(k > 1e15, "huge");
    c.lab(k < 1e-15, "tiny");
    c.nontrivial_if(!d.is_zero());
    Ok(())
}

fn containment(s: &mut Src, c: &mut Case) -> Res {
    let (r, k, t) = if s.chance(1, 4) {
        let r = Reg::exact(s);
        let (a, b, e) = triple(s, r);
        (r, 1.0, [a, b, e])
    } else {
        tri(s)
    };
    if det(&t).is_zero() {
        return Ok(());
    }
    // the point is chosen in the unscaled picture
    let mut t = t;
    for p in t.iter_mut() {
        scale_by(&mut [p], 1.0 / k);
    }
    let [mut a, mut b, mut e] = t;
    let i = s.below(3);
    let mut p = match s.below(3) {
        0 => near_line(s, r, &t[i], &t[(i + 1) % 3]),
        1 => {
            let (u, v) = (s.unit(), s.unit());
            c2(r.snap(a.x + u * (b.x - a.x) + v * (e.x - a.x)), r.snap(a.y + u * (b.y - a.y) + v * (e.y - a.y)))
        }
        _ => r.pt(s),
    };
    scale_by(&mut [&mut a, &mut b, &mut e, &mut p], k);
    c.show(|| format!("{} in {}", fc(&p), fcs(&[a, b, e])));
    let o = [o3(&a, &b, &p), o3(&b, &e, &p), o3(&e, &a, &p)];
    let w = !(o.contains(&1) && o.contains(&-1));
    for q in [[a, b, e], [b, e, a], [e, b, a], [a, e, b]] {
        let g = Triangle::intersects_coordinates(&q[0], &q[1], &q[2], &p);
        ck!(g == w, "{} in {}: {}, sides {:?}", fc(&p), fcs(&q), g, o);
    }
    c.lab(w, "inside or on");
    c.lab(w && o.contains(&0), "on the boundary");
    c.lab(!w && o.contains(&0), "on an extended side");
    c.nontrivial_if(true);
    Ok(())
}

fn circum(s: &mut Src, c: &mut Case) -> Res {
    let (r, sc, t) = tri(s);
    let [a, b, e] = t;
    c.show(|| fcs(&t));
    let o = obj(&t);
    let d = det(&t);
    let rad = [o.circumradius(), Triangle::circumradius_coordinates(&a, &b, &e)];
    if d.is_zero() {
        ck!(rad[0] == f64::INFINITY && rad[1] == f64::INFINITY, "circumradius {:?} of flat {}", rad, fcs(&t));
        return Ok(());
    }
    c.nontrivial_if(true);
    // R^2 = (abc)^2 / (16 area^2)
    let r2 = Rt::new(&(&d2(&a, &b) * &d2(&b, &e)) * &d2(&e, &a), d.sq().scale2(2));
    for v in rad {
        ck!(near_sqrt(v, &r2, 1e-14 * v), "circumradius {:?} of {}, exactly sqrt({:e})", v, fcs(&t), r2.approx());
    }
    // exact centre relative to e
    let (ax, ay) = (Dy::f(a.x) - Dy::f(e.x), Dy::f(a.y) - Dy::f(e.y));
    let (bx, by) = (Dy::f(b.x) - Dy::f(e.x), Dy::f(b.y) - Dy::f(e.y));
    let (qa, qb) = (&(&ax * &ax) + &(&ay * &ay), &(&bx * &bx) + &(&by * &by));
    let den = (&(&ax * &by) - &(&ay * &bx)).scale2(1);
    let ux = Rt::new(&(&by * &qa) - &(&ay * &qb), den.clone());
    let uy = Rt::new(&(&ax * &qb) - &(&bx * &qa), den);
    let (wx, wy) = (ux.add(&Rt::f(e.x)), uy.add(&Rt::f(e.y)));
    let m = span(&t).0.max(ux.approx().abs()).max(uy.approx().abs());
    let at = |q: &Coordinate, tol: f64| wx.near(q.x, tol) && wy.near(q.y, tol);
    for q in [o.circumcentre(), Triangle::circumcentre_coordinates(&a, &b, &e)] {
        ck!(at(&q, 1e-14 * m), "circumcentre {} of {}, exactly ({:e}, {:e})", fc(&q), fcs(&t), wx.approx(), wy.approx());
    }
    let q = Triangle::circumcentre_dd_coordinates(&a, &b, &e);
    let close = |w: &Rt, v: f64| w.near(v, ulp(v).max(m * 1e-28));
    ck!(close(&wx, q.x) && close(&wy, q.y), "extended-precision circumcentre {} of {}, exactly ({:e}, {:e})", fc(&q), fcs(&t), wx.approx(), wy.approx());
    // perpendicular bisectors meet in it
    if !matches!(r, Reg::Offset(_) | Reg::Far(..)) {
        let k = [(a, b), (b, e), (e, a)];
        let i = s.below(3);
        let (l1, l2) = (k[i], k[(i + 1) % 3]);
        let h = HCoordinate::new_with_hcoordinates(&Triangle::perpendicular_bisector_coordinates(&l1.0, &l1.1), &Triangle::perpendicular_bisector_coordinates(&l2.0, &l2.1));
        let p = h.get_coordinate();
        ck!(at(&p, 1e-10 * (sc + m)), "perpendicular bisectors of {} meet at {}", fcs(&t), fc(&p));
    }
    c.lab(matches!(r, Reg::Offset(_) | Reg::Far(..)), "far from the origin");
    Ok(())
}

/// the extended-precision centre in any regime: reals, mixed magnitudes, thin triangles
fn circum_dd(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::any(s);
    let t = { let (a, b, e) = triple(s, r); [a, b, e] };
    let [a, b, e] = t;
    c.show(|| fcs(&t));
    let d = det(&t);
    if d.is_zero() {
        return Ok(());
    }
    c.nontrivial_if(true);
    let (ax, ay) = (Dy::f(a.x) - Dy::f(e.x), Dy::f(a.y) - Dy::f(e.y));
    let (bx, by) = (Dy::f(b.x) - Dy::f(e.x), Dy::f(b.y) - Dy::f(e.y));
    let (qa, qb) = (&(&ax * &ax) + &(&ay * &ay), &(&bx * &bx) + &(&by * &by));
    let den = (&(&ax * &by) - &(&ay * &bx)).scale2(1);
    let ux = Rt::new(&(&by * &qa) - &(&ay * &qb), den.clone());
    let uy = Rt::new(&(&ax * &qb) - &(&bx * &qa), den.clone());
    let (wx, wy) = (ux.add(&Rt::f(e.x)), uy.add(&Rt::f(e.y)));
    // what an evaluation with about 100 bits can lose
    let ap = |d: &Dy| d.to_f64().abs();
    let (axf, ayf, bxf, byf, da) = (ap(&ax), ap(&ay), ap(&bx), ap(&by), ap(&den));
    let rel = 2.0 * (axf * byf + ayf * bxf) / da;
    let grow = |n: f64, u: f64| f64::powi(2.0, -99) * (n / da + u * (1.0 + rel));
    let gx = grow(byf * ap(&qa) + ayf * ap(&qb), ux.approx().abs());
    let gy = grow(axf * ap(&qb) + bxf * ap(&qa), uy.approx().abs());
    let q = Triangle::circumcentre_dd_coordinates(&a, &b, &e);
    ck!(wx.near(q.x, ulp(q.x) + gx) && wy.near(q.y, ulp(q.y) + gy), "extended-precision circumcentre {} of {}, exactly ({:e}, {:e}), allowed {:e} {:e}", fc(&q), fcs(&t), wx.approx(), wy.approx(), gx, gy);
    c.lab(rel > 1e6, "thin");
    c.lab(!r.is_exact(), "rounded differences");
    Ok(())
}

fn bisectors(s: &mut Src, c: &mut Case) -> Res {
    let (r, k, mut t) = tri(s);
    if r == Reg::Small && k == 1.0 && s.chance(1, 4) {
        // as large or small as squared lengths allow
        let k = 2f64.powi(480 - s.below(986) as i32);
        for p in t.iter_mut() {
            scale_by(&mut [p], k);
        }
    }
    let [a, b, e] = t;
    c.show(|| fcs(&t));
    let o = obj(&t);
    if det(&t).is_zero() {
        return Ok(());
    }
    c.nontrivial_if(true);
    let (m, d) = span(&t);
    let tol = 1e-13 * d + 16.0 * ulp(m);
    let per = a.distance(&b) + b.distance(&e) + e.distance(&a);
    let r = det(&t).abs().to_f64() / per;
    let ccw = det(&t).sign() > 0;
    for q in [o.in_centre(), Triangle::in_centre_coordinates(&a, &b, &e)] {
        for i in 0..3 {
            let (u, v) = (t[i], t[(i + 1) % 3]);
            let x = orient_det(u.x, u.y, v.x, v.y, q.x, q.y).to_f64() / u.distance(&v) * if ccw { 1.0 } else { -1.0 };
            ck!((x - r).abs() <= 8.0 * tol, "incentre {} of {} is {:?} inside side {}, the inradius is {:?}", fc(&q), fcs(&t), x, i, r);
        }
    }
    // angle bisector from b cuts a-e in the ratio |ab| : |be|
    let q = Triangle::angle_bisector_coordinates(&a, &b, &e);
    ck!(near_sqrt(0.0, &d2_point_seg(&v2(&q), &v2(&a), &v2(&e)), tol), "bisector foot {} is not on {} {}", fc(&q), fc(&a), fc(&e));
    let (x, y) = (a.distance(&q) * b.distance(&e), q.distance(&e) * a.distance(&b));
    ck!((x - y).abs() <= 8.0 * tol * d, "bisector foot {} of {} has the wrong ratio", fc(&q), fcs(&t));
    Ok(())
}

fn solid(s: &mut Src, c: &mut Case) -> Res {
    let (reg, sc, mut t) = tri(s);
    for p in t.iter_mut() {
        p.z = s.sint(40) as f64 / 4.0 * sc;
    }
    let [a, b, e] = t;
    c.show(|| fcs(&t));
    let o = obj(&t);
    let (u, v) = (vsub(&v3(&b), &v3(&a)), vsub(&v3(&e), &v3(&a)));
    let x = vec![&(&u[1] * &v[2]) - &(&u[2] * &v[1]), &(&u[2] * &v[0]) - &(&u[0] * &v[2]), &(&u[0] * &v[1]) - &(&u[1] * &v[0])];
    let n = vdot(&x, &x).scale2(-2);
    for w in [o.area_3d(), Triangle::area_3d_coordinates(&a, &b, &e)] {
        ck!(near_sqrt(w, &Rt::dy(n.clone()), 1e-13 * w), "3D area {:?} of {}", w, fcs(&t));
    }
    if x[2].is_zero() {
        return Ok(());
    }
    c.nontrivial_if(!x[0].is_zero() || !x[1].is_zero());
    // z of the plane: n . (p - a) = 0
    let i = s.below(4);
    let p = if i < 3 { t[i] } else { let mut p = reg.pt(s); scale_by(&mut [&mut p], sc); p };
    let w = vsub(&v2(&p), &v2(&a));
    let z = Rt::dy(Dy::f(a.z)).sub(&Rt::new(&(&x[0] * &w[0]) + &(&x[1] * &w[1]), x[2].clone()));
    let grow = (sc + span(&[a, b, e, p]).1).powi(2) / x[2].abs().to_f64();
    for g in [o.interpolate_z(&p), Triangle::interpolate_z_coordinates(&p, &a, &b, &e)] {
        ck!(z.near(g, 1e-13 * sc * (1.0 + grow)), "z {:?} at {} in {}, exactly {:e}", g, fc(&p), fcs(&t), z.approx());
    }
    c.lab(i < 3, "at a vertex");
    Ok(())
}

fn main() {
    gv::main(
        "P25",
        "triangles with integer or quarter vertices, also around offsets up to 2^50 and multiplied by powers of two up to 2^100 either way (containment also with 52-bit coordinates and needle-thin triangles); right, isosceles, flat and arbitrary; points on, near and off the sides; for the extended-precision circumcentre also reals, mixed magnitudes and thin triangles",
        &["exact rational centres and measures; tolerances relative to the extent", "containment is asserted for triangles with non-zero area"],
        &[
            Sub { name: "measures and classification", rule: "the area is not zero", quick: 40_000, f: measures },
            Sub { name: "point in triangle", rule: "the area is not zero", quick: 40_000, f: containment },
            Sub { name: "circumcircle", rule: "the area is not zero", quick: 20_000, f: circum },
            Sub { name: "extended-precision circumcentre", rule: "the area is not zero", quick: 20_000, f: circum_dd },
            Sub { name: "incentre and angle bisector", rule: "the area is not zero", quick: 30_000, f: bisectors },
            Sub { name: "3D area and interpolation", rule: "the plane is tilted", quick: 30_000, f: solid },
        ],
    );
}
