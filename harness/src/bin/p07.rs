//! P07: planar distances.
use gv::g::*;
use gv::*;

fn regime(s: &mut Src) -> Reg {
    match s.below(7) {
        0 | 1 => Reg::Small,
        2 => Reg::Mid,
        3 => Reg::Quarter,
        4 => Reg::Offset(1i64 << s.range(10, 40)),
        5 => Reg::Real(1.0),
        _ => Reg::Real(1000.0),
    }
}
fn tol(v: &[Coordinate]) -> f64 {
    let (m, d) = span(v);
    1e-13 * d + 8.0 * ulp(m)
}

fn point_segment(s: &mut Src, c: &mut Case) -> Res {
    let r = regime(s);
    let (mut a, mut b, mut p) = triple(s, r);
    if r == Reg::Small && s.chance(1, 3) {
        // a point very close to an end, before or past it, or beside the segment
        let q = if s.bool() { a } else { b };
        let f = 2f64.powi(-(s.range(1, 40) as i32));
        p = if s.bool() { c2(q.x + f * (b.x - a.x), q.y + f * (b.y - a.y)) } else { c2(q.x + f * s.sint(4) as f64, q.y + f * s.sint(4) as f64) };
        if s.bool() {
            p = c2(q.x - (p.x - q.x), q.y - (p.y - q.y));
        }
    }
    let k = rescale_wide(s);
    scale_by(&mut [&mut a, &mut b, &mut p], k);
    c.show(|| format!("{:?} p={} a={} b={}", r, fc(&p), fc(&a), fc(&b)));
    let e = d2_point_seg(&v2(&p), &v2(&a), &v2(&b));
    let t = tol(&[a, b, p]);
    let l = LineSegment::new_from_coordinates(&a, &b);
    let inner = {
        let f = l.projection_factor(&p);
        f > 0.0 && f < 1.0
    };
    c.lab(inner, "perpendicular foot inside");
    c.lab(e.sign() == 0, "zero distance");
    c.lab(a.equals_2d(&b), "zero-length segment");
    c.nontrivial_if(inner || e.sign() == 0);
    for (n, v) in [
        ("point_to_segment(p,a,b)", Distance::point_to_segment(&p, &a, &b)),
        ("point_to_segment(p,b,a)", Distance::point_to_segment(&p, &b, &a)),
        ("LineSegment::distance", l.distance_coordinate(&p)),
        ("point_to_segment_string", Distance::point_to_segment_string(&p, &vec![a, b])),
        ("segment_to_segment(p,p,a,b)", Distance::segment_to_segment(&p, &p, &a, &b)),
        ("segment_to_segment(a,b,p,p)", Distance::segment_to_segment(&a, &b, &p, &p)),
    ] {
        ck!(near_sqrt(v, &e, t) && v >= 0.0, "{} = {:?}, exactly sqrt({:e})", n, v, e.approx());
        ck!(!r.is_exact() || (v == 0.0) == (e.sign() == 0), "{} = {:?} but the exact distance is {}zero", n, v, if e.sign() == 0 { "" } else { "not " });
    }
    // translation by an exactly representable vector
    if matches!(r, Reg::Mid | Reg::Quarter) {
        let (dx, dy_) = (s.sint(1000) as f64 * k, s.sint(1000) as f64 * k);
        let m = |q: &Coordinate| c2(q.x + dx, q.y + dy_);
        ck!(Distance::point_to_segment(&m(&p), &m(&a), &m(&b)) == Distance::point_to_segment(&p, &a, &b), "translation changes the distance");
    }
    Ok(())
}

fn segment_segment(s: &mut Src, c: &mut Case) -> Res {
    let r = regime(s);
    let mut a = r.pt(s);
    let mut b = if s.chance(1, 16) { a } else { r.pt(s) };
    let mut p = near_line(s, r, &a, &b);
    let mut q = match s.below(5) {
        0 => near_line(s, r, &a, &b),
        1 => c2(r.snap(p.x + (b.x - a.x)), r.snap(p.y + (b.y - a.y))),
        2 => p,
        _ => r.pt(s),
    };
    let k = rescale_wide(s);
    scale_by(&mut [&mut a, &mut b, &mut p, &mut q], k);
    c.show(|| format!("{:?} {} {} / {} {}", r, fc(&a), fc(&b), fc(&p), fc(&q)));
    let t = tol(&[a, b, p, q]);
    let meet = seg_meet(&a, &b, &p, &q);
    let e = if meet { Rt::dy(Dy::zero()) } else {
        let (a, b, p, q) = (v2(&a), v2(&b), v2(&p), v2(&q));
        d2_point_seg(&a, &p, &q).min(&d2_point_seg(&b, &p, &q)).min(&d2_point_seg(&p, &a, &b)).min(&d2_point_seg(&q, &a, &b))
    };
    let overlap = Envelope::intersects_4(&a, &b, &p, &q);
    c.lab(meet, "segments meet");
    c.lab(!meet && overlap, "disjoint with overlapping envelopes");
    c.nontrivial_if(overlap);
    for v in [[a, b, p, q], [b, a, p, q], [a, b, q, p], [p, q, a, b], [q, p, b, a]] {
        let d = Distance::segment_to_segment(&v[0], &v[1], &v[2], &v[3]);
        ck!(near_sqrt(d, &e, t) && d >= 0.0, "distance of {} - {} and {} - {} = {:?}, exactly sqrt({:e})", fc(&v[0]), fc(&v[1]), fc(&v[2]), fc(&v[3]), d, e.approx());
        ck!(!matches!(r, Reg::Small | Reg::Mid | Reg::Quarter) || (d == 0.0) == meet, "distance {:?} but the segments {}meet", d, if meet { "" } else { "do not " });
    }
    let d = LineSegment::new_from_coordinates(&a, &b).distance_line_segment(&LineSegment::new_from_coordinates(&p, &q));
    ck!(near_sqrt(d, &e, t), "LineSegment distance {:?}", d);
    Ok(())
}

fn string(s: &mut Src, c: &mut Case) -> Res {
    let r = regime(s);
    let n = s.size(8);
    let mut l: Vec<Coordinate> = vec![];
    for _ in 0..n {
        let q = if !l.is_empty() && s.chance(1, 6) { l[l.len() - 1] } else { r.pt(s) };
        l.push(q);
    }
    let mut p = if n >= 2 {
        let i = s.below(n - 1);
        near_line(s, r, &l[i], &l[i + 1])
    } else { r.pt(s) };
    let k = rescale_wide(s);
    scale_by(&mut l.iter_mut().chain([&mut p]).collect::<Vec<_>>(), k);
    c.show(|| format!("{:?} p={} line={}", r, fc(&p), fcs(&l)));
    c.nontrivial_if(n >= 3);
    let d = Distance::point_to_segment_string(&p, &l);
    if n == 0 {
        ck!(d.is_nan(), "distance to an empty line is {:?}", d);
        return Ok(());
    }
    let mut e = d2_point_seg(&v2(&p), &v2(&l[0]), &v2(&l[0]));
    for w in l.windows(2) {
        e = e.min(&d2_point_seg(&v2(&p), &v2(&w[0]), &v2(&w[1])));
    }
    let mut all = l.clone();
    all.push(p);
    ck!(near_sqrt(d, &e, tol(&all)), "distance {:?}, exactly sqrt({:e})", d, e.approx());
    ck!(!r.is_exact() || (d == 0.0) == (e.sign() == 0), "distance {:?} but the point is {}on the line", d, if e.sign() == 0 { "" } else { "not " });
    let mut rev = l.clone();
    rev.reverse();
    ck!(near_sqrt(Distance::point_to_segment_string(&p, &rev), &e, tol(&all)), "distance to the reversed line");
    Ok(())
}

fn line(s: &mut Src, c: &mut Case) -> Res {
    let mut r = regime(s);
    let (mut a, mut b, mut p) = triple(s, r);
    if s.chance(1, 6) {
        // a point very far from a short base
        r = Reg::Small;
        a = r.pt(s);
        b = r.pt(s);
        let k = s.range(10, 45) as i32;
        p = c2(s.sint(20) as f64 * 2f64.powi(k), s.sint(20) as f64 * 2f64.powi(k));
    }
    let k = rescale_wide(s);
    scale_by(&mut [&mut a, &mut b, &mut p], k);
    c.show(|| format!("{:?} p={} a={} b={}", r, fc(&p), fc(&a), fc(&b)));
    let l = LineSegment::new_from_coordinates(&a, &b);
    let t = tol(&[a, b, p]);
    if a.equals_2d(&b) {
        let e = d2_point_seg(&v2(&p), &v2(&a), &v2(&a));
        ck!(near_sqrt(l.distance_perpendicular(&p), &e, t), "distance to a zero-length line {:?}", l.distance_perpendicular(&p));
        ck!(near_sqrt(l.distance_perpendicular_oriented(&p), &e, t), "oriented distance to a zero-length line {:?}", l.distance_perpendicular_oriented(&p));
        return Ok(());
    }
    // a very short base makes the perpendicular distance ill-conditioned in plain doubles
    if !r.is_exact() && a.distance(&b) < 1e-3 * (k + p.distance(&a)) {
        c.label("short base (skipped)");
        return Ok(());
    }
    let t = if r.is_exact() { t } else { t * 1e4 };
    let e = d2_point_line(&v2(&p), &v2(&a), &v2(&b));
    let o = o3(&a, &b, &p);
    c.nontrivial_if(true);
    c.lab(o == 0, "on the line");
    for (n, v) in [
        ("point_to_line_perpendicular", Distance::point_to_line_perpendicular(&p, &a, &b)),
        ("point_to_line_perpendicular (reversed)", Distance::point_to_line_perpendicular(&p, &b, &a)),
        ("distance_perpendicular", l.distance_perpendicular(&p)),
    ] {
        ck!(near_sqrt(v, &e, t) && v >= 0.0, "{} = {:?}, exactly sqrt({:e})", n, v, e.approx());
    }
    let sg = Distance::point_to_line_perpendicular_signed(&p, &a, &b);
    ck!(near_sqrt(sg.abs(), &e, t), "signed distance {:?}, exactly +-sqrt({:e})", sg, e.approx());
    let sr = Distance::point_to_line_perpendicular_signed(&p, &b, &a);
    let or = l.distance_perpendicular_oriented(&p);
    ck!(near_sqrt(or.abs(), &e, t), "oriented distance {:?}, exactly +-sqrt({:e})", or, e.approx());
    if r.is_exact() {
        let sign = |v: f64| if v > 0.0 { 1 } else if v < 0.0 { -1 } else { 0 };
        ck!(sign(or) == o, "oriented distance {:?} but the exact side is {}", or, o);
        ck!(sign(sg) == -sign(sr) && sign(sg).abs() == o.abs(), "signed distances {:?} and {:?} (reversed), side {}", sg, sr, o);
        ck!(sign(sg) == -o, "signed distance {:?}, side {}", sg, o);
    }
    Ok(())
}

fn points(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::any(s);
    let (a, b, p) = triple(s, r);
    c.show(|| format!("{:?} {} {} {}", r, fc(&a), fc(&b), fc(&p)));
    c.nontrivial_if(!a.equals_2d(&b));
    let e = { let d = vsub(&v2(&a), &v2(&b)); Rt::dy(vdot(&d, &d)) };
    let d = a.distance(&b);
    let (m, _) = span(&[a, b]);
    let t = if r.is_exact() { 4.0 * ulp(d) } else { 4.0 * ulp(d) + 2.0 * ulp(m) };
    ck!(near_sqrt(d, &e, t), "distance {:?}, exactly sqrt({:e})", d, e.approx());
    ck!(b.distance(&a) == d, "distance is not symmetric");
    ck!((d == 0.0) == a.equals_2d(&b), "distance {:?}", d);
    ck!(a.distance(&p) <= (d + b.distance(&p)) * (1.0 + 1e-14) + 2.0 * ulp(m.max(p.x.abs()).max(p.y.abs())), "triangle inequality");
    // z does not take part
    let z = Coordinate::new_xyz(a.x, a.y, 5.0);
    ck!(z.distance(&b) == d, "planar distance depends on z");
    let len = LineSegment::new_from_coordinates(&a, &b).get_length();
    ck!(len == d, "segment length {:?}, distance of its end points {:?}", len, d);
    Ok(())
}

fn large_string(s: &mut Src, c: &mut Case) -> Res {
    s.big = 5_000;
    string(s, c)
}

static SUBS: &[Sub] = &[
    Sub { name: "point_segment", rule: "perpendicular foot inside the segment, or zero distance", quick: 200_000, f: point_segment },
    Sub { name: "segment_segment", rule: "overlapping envelopes", quick: 150_000, f: segment_segment },
    Sub { name: "string", rule: "at least two segments", quick: 100_000, f: string },
    Sub { name: "line", rule: "line of non-zero length", quick: 150_000, f: line },
    Sub { name: "points", rule: "distinct points", quick: 150_000, f: points },
    Sub { name: "large string", rule: "at least two segments", quick: 60, f: large_string },
];
fn main() {
    gv::main(
        "P07",
        "points, segments and polylines biased to collinear, touching, parallel and degenerate configurations; oracle: exact rational squared distance, zero exactly when touching",
        &["relative tolerance 1e-13 of the extent plus a few ulps; zero/non-zero decided exactly on exactly representable grids"],
        SUBS,
    );
}
