//! P05: intersection of lines, and of a line with a segment.
use gv::g::*;
use gv::*;

fn o(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> i32 {
    orient(a.x, a.y, b.x, b.y, c.x, c.y)
}
/// exact crossing of the lines a-b and p-q, and w (None when parallel)
fn cross(a: &Coordinate, b: &Coordinate, p: &Coordinate, q: &Coordinate) -> Option<(Rt, Rt, f64)> {
    let f = |v: f64| Dy::f(v);
    let px = &f(a.y) - &f(b.y);
    let py = &f(b.x) - &f(a.x);
    let pw = &(&f(a.x) * &f(b.y)) - &(&f(b.x) * &f(a.y));
    let qx = &f(p.y) - &f(q.y);
    let qy = &f(q.x) - &f(p.x);
    let qw = &(&f(p.x) * &f(q.y)) - &(&f(q.x) * &f(p.y));
    let w = &(&px * &qy) - &(&qx * &py);
    if w.is_zero() {
        return None;
    }
    let x = &(&py * &qw) - &(&qy * &pw);
    let y = &(&qx * &pw) - &(&px * &qw);
    let wf = w.to_f64().abs();
    Some((Rt::new(x, w.clone()), Rt::new(y, w), wf))
}
fn span(v: &[Coordinate]) -> (f64, f64) {
    // (largest magnitude, largest difference)
    let m = v.iter().fold(0f64, |m, p| m.max(p.x.abs()).max(p.y.abs()));
    let mut d = 0f64;
    for p in v {
        for q in v {
            d = d.max((p.x - q.x).abs()).max((p.y - q.y).abs());
        }
    }
    (m, d)
}

fn lines4(s: &mut Src, r: Reg) -> [Coordinate; 4] {
    let a = r.pt(s);
    let b = if s.chance(1, 20) { a } else { r.pt(s) };
    let p = near_line(s, r, &a, &b);
    let q = match s.below(4) {
        0 => near_line(s, r, &a, &b),
        1 => {
            let k = s.sint(2) as f64;
            c2(r.snap(p.x + k * (b.x - a.x)), r.snap(p.y + k * (b.y - a.y)))
        }
        _ => r.pt(s),
    };
    [a, b, p, q]
}
fn regime(s: &mut Src) -> Reg {
    match s.below(5) {
        0 | 1 => Reg::Small,
        2 => Reg::Mid,
        3 => Reg::Quarter,
        _ => Reg::Offset(1i64 << s.range(10, 48)),
    }
}

fn lines(s: &mut Src, c: &mut Case) -> Res {
    let r = regime(s);
    let v = lines4(s, r);
    let [a, b, p, q] = v;
    c.show(|| format!("{:?} {} {} x {} {}", r, fc(&a), fc(&b), fc(&p), fc(&q)));
    let (m, d) = span(&v);
    let e = cross(&a, &b, &p, &q);
    c.lab(e.is_none(), "parallel or degenerate");
    c.nontrivial_if(e.is_some());
    let dd = Intersection::intersection(&a, &b, &p, &q);
    let dd2 = CGAlgorithmsDD::intersection(&a, &b, &p, &q);
    let fp = Intersection::intersection_fp(&a, &b, &p, &q);
    let hc = HCoordinate::intersection(&a, &b, &p, &q);
    let h4 = HCoordinate::new_with_coordinates_4(&a, &b, &p, &q).get_coordinate();
    let hh = HCoordinate::new_with_hcoordinates(&HCoordinate::new_with_coordinates(&a, &b), &HCoordinate::new_with_coordinates(&p, &q)).get_coordinate();
    match e {
        None => {
            for (n, i) in [("Intersection", dd), ("CGAlgorithmsDD", dd2), ("HCoordinate", hc), ("Intersection fp", fp)] {
                ck!(i.is_none(), "{} of parallel lines gives {}", n, fc(&i.unwrap()));
            }
            ck!(h4.x.is_nan() && h4.y.is_nan() && hh.x.is_nan() && hh.y.is_nan(), "homogeneous intersection of parallel lines is {} / {}", fc(&h4), fc(&hh));
        }
        Some((x, y, w)) => {
            let xa = x.approx().abs().max(y.approx().abs());
            let t_dd = 4.0 * ulp(xa);
            let eps = 2f64.powi(-50);
            // plain doubles: rounding of the numerators and of w
            let t_h = eps * (8.0 * d * m * m + xa * 4.0 * d * d) / w + 8.0 * ulp(xa);
            // after moving the origin to the middle of the common envelope
            let md = d * 2.0;
            let off = (x.approx() - a.x).abs().max((y.approx() - a.y).abs()) + md;
            let t_f = eps * (8.0 * d * md * md + off * 4.0 * d * d) / w + 2.0 * ulp(xa);
            for (n, i, t) in [("Intersection", dd, t_dd), ("CGAlgorithmsDD", dd2, t_dd), ("HCoordinate", hc, t_h), ("Intersection fp", fp, t_f), ("HCoordinate of 4 points", Some(h4), t_h), ("HCoordinate of two lines", Some(hh), t_h)] {
                ck!(i.is_some(), "{} finds no intersection of non-parallel lines", n);
                let g = i.unwrap();
                ck!(x.near(g.x, t) && y.near(g.y, t), "{} = {}, exactly ({:e}, {:e}), tolerance {:e}", n, fc(&g), x.approx(), y.approx(), t);
                ck!(g.z.is_nan(), "{}: z appears from nowhere", n);
            }
        }
    }
    Ok(())
}

/// short pieces of lines far apart from each other and from their crossing
fn far(s: &mut Src, c: &mut Case) -> Res {
    let k = 1i64 << s.range(4, 24);
    let h = 2f64.powi(s.sint(60) as i32);
    let (ox, oy) = (s.sint(k), s.sint(k));
    let pt = |s: &mut Src, far: bool| {
        let (x, y) = (s.sint(8), s.sint(8));
        if far { c2((x + ox) as f64 * h, (y + oy) as f64 * h) } else { c2(x as f64 * h, y as f64 * h) }
    };
    let (a, b) = (pt(s, false), pt(s, false));
    let (p, q) = (pt(s, true), pt(s, true));
    c.show(|| format!("{} {} x {} {}", fc(&a), fc(&b), fc(&p), fc(&q)));
    let e = cross(&a, &b, &p, &q);
    c.lab(e.is_none(), "parallel or degenerate");
    c.nontrivial_if(e.is_some() && k > 1000);
    // all products of the plain-double formulas are below 2^53 steps, so that only the final division rounds
    let r = [
        ("Intersection", Intersection::intersection(&a, &b, &p, &q)),
        ("CGAlgorithmsDD", CGAlgorithmsDD::intersection(&a, &b, &p, &q)),
        ("HCoordinate", HCoordinate::intersection(&a, &b, &p, &q)),
        ("Intersection fp", Intersection::intersection_fp(&a, &b, &p, &q)),
        ("HCoordinate of two lines", Some(HCoordinate::new_with_hcoordinates(&HCoordinate::new_with_coordinates(&a, &b), &HCoordinate::new_with_coordinates(&p, &q)).get_coordinate())),
    ];
    for (n, g) in r {
        let g = g.filter(|g| !(g.x.is_nan() && g.y.is_nan()));
        match &e {
            None => ck!(g.is_none(), "{} of parallel lines gives {}", n, fc(&g.unwrap())),
            Some((x, y, _)) => {
                ck!(g.is_some(), "{} finds no intersection of non-parallel lines", n);
                let g = g.unwrap();
                let t = 8.0 * ulp(x.approx().abs().max(y.approx().abs()).max(k as f64 * 2.0 * h));
                ck!(x.near(g.x, t) && y.near(g.y, t), "{} = {}, exactly ({:e}, {:e})", n, fc(&g), x.approx(), y.approx());
            }
        }
    }
    Ok(())
}

/// well-conditioned lines with real coordinates, far from the origin
fn real(s: &mut Src, c: &mut Case) -> Res {
    let off = if s.bool() { (0.0, 0.0) } else { ((s.unit() - 0.5) * 2e6, (s.unit() - 0.5) * 2e6) };
    let r = Reg::Real(100.0);
    let v: Vec<Coordinate> = (0..4).map(|_| { let p = r.pt(s); c2(p.x + off.0, p.y + off.1) }).collect();
    let [a, b, p, q] = [v[0], v[1], v[2], v[3]];
    c.show(|| fcs(&v));
    let (x, y, w) = match cross(&a, &b, &p, &q) {
        Some(t) => t,
        None => return Ok(()),
    };
    let l = a.distance(&b) * p.distance(&q);
    if w < 0.05 * l || l < 100.0 {
        c.label("nearly parallel or short (skipped)");
        return Ok(());
    }
    let (m, _) = span(&v);
    c.nontrivial_if(off.0 != 0.0);
    let xa = x.approx().abs().max(y.approx().abs()).max(m);
    for (n, i, t) in [
        ("Intersection", Intersection::intersection(&a, &b, &p, &q), 4.0 * ulp(xa)),
        ("Intersection fp", Intersection::intersection_fp(&a, &b, &p, &q), 1e-8 * (1.0 + m * 1e-4)),
        ("LineSegment::line_intersection", LineSegment::new_from_coordinates(&a, &b).line_intersection(LineSegment::new_from_coordinates(&p, &q)), 4.0 * ulp(xa)),
    ] {
        ck!(i.is_some(), "{} finds no intersection", n);
        let g = i.unwrap();
        ck!(x.near(g.x, t) && y.near(g.y, t), "{} = {}, exactly ({:e}, {:e})", n, fc(&g), x.approx(), y.approx());
    }
    Ok(())
}

fn line_segment(s: &mut Src, c: &mut Case) -> Res {
    let r = if s.chance(1, 4) { Reg::exact(s) } else { regime(s) };
    let [mut a, mut b, mut p, mut q] = lines4(s, r);
    if s.bool() {
        for v in [&mut a, &mut b, &mut p, &mut q] {
            if s.bool() {
                v.z = s.sint(9) as f64;
            }
            if s.chance(1, 3) {
                v.m = s.sint(9) as f64;
            }
        }
    }
    c.show(|| format!("{:?} line {} {} segment {} {}", r, fc(&a), fc(&b), fc(&p), fc(&q)));
    if a.equals_2d(&b) {
        c.label("degenerate line (skipped)");
        return Ok(());
    }
    let (o1, o2) = (o(&a, &b, &p), o(&a, &b, &q));
    let g = Intersection::line_segment(&a, &b, &p, &q);
    c.lab(o1 * o2 > 0, "no intersection");
    c.lab(o1 == 0 || o2 == 0, "end point on the line");
    c.nontrivial_if(o1 * o2 <= 0);
    if o1 * o2 > 0 {
        ck!(g.is_none(), "segment on one side of the line, but the intersection is {}", fc(&g.unwrap()));
        return Ok(());
    }
    ck!(g.is_some(), "no intersection although the segment meets the line");
    let g = g.unwrap();
    if o1 == 0 {
        ck!(same_c(&g, &p), "first end point is on the line, but the result is {}", fc(&g));
    } else if o2 == 0 {
        ck!(same_c(&g, &q), "second end point is on the line, but the result is {}", fc(&g));
    } else if r.limit() < 2f64.powi(53) && regime_tame(r) {
        let (x, y, _) = cross(&a, &b, &p, &q).ok_or("harness")?;
        ck!(x.near(g.x, 4.0 * ulp(x.approx())) && y.near(g.y, 4.0 * ulp(y.approx())), "intersection {}, exactly ({:e}, {:e})", fc(&g), x.approx(), y.approx());
    }
    // direction of the line does not matter
    let h = Intersection::line_segment(&b, &a, &p, &q);
    ck!(h.is_some() && (h.unwrap().x - g.x).abs() <= 1e-9 * (1.0 + g.x.abs()) , "reversing the line gives {:?}", h.map(|v| fc(&v)));
    Ok(())
}
fn regime_tame(r: Reg) -> bool {
    !matches!(r, Reg::Grid { .. } | Reg::Fine(_)) && !matches!(r, Reg::Offset(o) if o > (1 << 31))
}

fn homogeneous(s: &mut Src, c: &mut Case) -> Res {
    let kk = [rescale(s), rescale(s)];
    let (x, y) = (s.sint(1000) as f64 * kk[0], s.sint(1000) as f64 * kk[0]);
    let w = s.sint(64) as f64 * kk[1];
    c.show(|| format!("{} {} {}", x, y, w));
    c.nontrivial_if(w != 0.0);
    // one scale for all three, out to where the weight is subnormal
    let f = if s.bool() { 1.0 } else { let e = s.below(2090) as i32 - 1074; if e < -1000 { 2f64.powi(-1000) * 2f64.powi(e + 1000) } else { 2f64.powi(e.min(1000)) } };
    let (hx, hy, hw) = (s.sint(1000) as f64 * f, s.sint(1000) as f64 * f, s.sint(64) as f64 * f);
    let g = HCoordinate::new_with_xyw(hx, hy, hw);
    for (v, n) in [(g.get_x(), hx), (g.get_y(), hy)] {
        let e = n / hw;
        ck!(if e.is_finite() { v == e } else { v.is_nan() }, "({:e}, {:e}, {:e}) is ({:e}, {:e})", hx, hy, hw, g.get_x(), g.get_y());
    }
    let h = HCoordinate::new_with_xyw(x, y, w);
    if w != 0.0 {
        ck!(h.get_x() == x / w && h.get_y() == y / w, "({}, {}, {}) is ({}, {})", x, y, w, h.get_x(), h.get_y());
        let p = h.get_coordinate();
        ck!(p.x == x / w && p.y == y / w, "get_coordinate {}", fc(&p));
    } else {
        ck!(h.get_x().is_nan() && h.get_y().is_nan(), "infinite point represented as ({}, {})", h.get_x(), h.get_y());
    }
    let p = HCoordinate::new_with_xy(x, y).get_coordinate();
    let q = HCoordinate::new_with_coordinate(&c2(x, y)).get_coordinate();
    ck!(p.x == x && p.y == y && q.x == x && q.y == y, "point {} {} represented as {} {}", x, y, fc(&p), fc(&q));
    // the line through two points, and the meet of two lines, are the same construction
    let a = HCoordinate::new_with_xy(x, y);
    let b = HCoordinate::new_with_xy(w, x + 1.0);
    let l1 = HCoordinate::new_with_hcoordinates(&a, &b);
    let l2 = HCoordinate::new_with_coordinates(&c2(x, y), &c2(w, x + 1.0));
    ck!(same(l1.get_x(), l2.get_x()) && same(l1.get_y(), l2.get_y()), "line through two points differs");
    Ok(())
}

static SUBS: &[Sub] = &[
    Sub { name: "lines", rule: "lines not parallel", quick: 250_000, f: lines },
    Sub { name: "real", rule: "real coordinates away from the origin", quick: 100_000, f: real },
    Sub { name: "far", rule: "lines not parallel, pieces more than a thousand steps apart", quick: 100_000, f: far },
    Sub { name: "line_segment", rule: "segment meets the line", quick: 250_000, f: line_segment },
    Sub { name: "homogeneous", rule: "finite point", quick: 100_000, f: homogeneous },
];
fn main() {
    gv::main(
        "P05",
        "pairs of lines (and line / segment) on integer grids and real coordinates, including parallel, identical and degenerate ones; oracle: exact rational intersection with error bounds derived per formula",
        &["finding no intersection for parallel lines is asserted on grids where the plain-double determinant is exact"],
        SUBS,
    );
}
