//! P09: areas and lengths.
use gv::g::*;
use gv::*;

fn seq(v: &Vec<Coordinate>, d: i32, m: i32) -> CoordinateArraySequence {
    CoordinateArraySequence::new_with_coordinates_dimension_measures(v.clone(), d, m)
}

fn ring_area(s: &mut Src, c: &mut Case) -> Res {
    // integer rings: every product and sum is exact, so the result is exact
    let r = match s.below(5) {
        0 => Reg::Small,
        1 => Reg::Mid,
        2 => Reg::Quarter,
        3 => Reg::Offset(1 << s.range(10, 49)),
        _ => Reg::Offset(1 << 20),
    };
    let mut ring = any_ring(s, r, 14);
    if s.chance(1, 12) {
        let n = s.below(3);
        ring.truncate(n);
    }
    let zs = s.bool();
    if zs {
        for p in ring.iter_mut() {
            p.z = s.sint(5) as f64;
        }
    }
    let k = rescale_wide(s);
    scale_by(&mut ring.iter_mut().collect::<Vec<_>>(), k);
    c.show(|| format!("{:?} {}", r, fcs(&ring)));
    // shoelace relative to the first point; fewer than three points have no area
    let want = if ring.len() < 3 { 0.0 } else {
        let mut closed = ring.clone();
        let f = closed[0];
        closed.push(f);
        -area2(&closed).to_f64() / 2.0
    };
    c.nontrivial_if(want != 0.0);
    for (n, v) in [
        ("of_ring_signed_vec", Area::of_ring_signed_vec(&ring)),
        ("of_ring_signed_coordinate_sequence", Area::of_ring_signed_coordinate_sequence(&seq(&ring, 2, 0))),
        ("of_ring_signed_coordinate_sequence 3D", Area::of_ring_signed_coordinate_sequence(&seq(&ring, 3, 0))),
        ("of_ring_signed_coordinate_sequence XYM", Area::of_ring_signed_coordinate_sequence(&seq(&ring, 3, 1))),
    ] {
        ck!(v == want, "{} = {:?}, exactly {:?}", n, v, want);
    }
    ck!(Area::of_ring_vec(&ring) == want.abs() && Area::of_ring_coordinate_sequence(&seq(&ring, 2, 0)) == want.abs(),
        "unsigned areas {:?} and {:?}, exactly {:?}", Area::of_ring_vec(&ring), Area::of_ring_coordinate_sequence(&seq(&ring, 2, 0)), want.abs());
    if ring.len() >= 3 {
        let mut rev = ring.clone();
        rev.reverse();
        ck!(Area::of_ring_signed_vec(&rev) == -want, "the reversed ring has area {:?}, not {:?}", Area::of_ring_signed_vec(&rev), -want);
        if ring[0].equals_2d(&ring[ring.len() - 1]) {
            let n = ring.len() - 1;
            let k = s.below(n);
            let mut rot = ring[..n].to_vec();
            rot.rotate_left(k);
            let f = rot[0];
            rot.push(f);
            ck!(Area::of_ring_signed_vec(&rot) == want, "the area depends on the start point");
        }
        let tr: Vec<Coordinate> = ring.iter().map(|p| c2(p.x + 1000.0 * k, p.y - 77.0 * k)).collect();
        ck!(Area::of_ring_signed_vec(&tr) == want, "translation changes the area to {:?}", Area::of_ring_signed_vec(&tr));
    }
    Ok(())
}

fn simple_area(s: &mut Src, c: &mut Case) -> Res {
    let max = 2 + s.below(10);
    let (ring, ccw) = simple_ring(s, max);
    let (m, _) = span(&ring);
    if m > 1e9 {
        c.label("far from the origin (skipped)");
        return Ok(());
    }
    c.show(|| format!("ccw={} {}", ccw, fcs(&ring)));
    c.nontrivial_if(true);
    let a = Area::of_ring_signed_vec(&ring);
    ck!((a < 0.0) == ccw && a != 0.0, "signed area {:?} of a {} ring (clockwise rings are positive)", a, if ccw { "counter-clockwise" } else { "clockwise" });
    ck!(Area::of_ring_vec(&ring) == (area2(&ring).to_f64() / 2.0).abs(), "area {:?}", Area::of_ring_vec(&ring));
    Ok(())
}

fn real_area(s: &mut Src, c: &mut Case) -> Res {
    let m = [1.0, 100.0, 1e6][s.below(3)];
    let mut ring = any_ring(s, Reg::Real(m), 12);
    let k = rescale_wide(s);
    scale_by(&mut ring.iter_mut().collect::<Vec<_>>(), k);
    c.show(|| fcs(&ring));
    c.nontrivial_if(true);
    let want = Rt::new(-&area2(&ring), Dy::int(2));
    let v = Area::of_ring_signed_vec(&ring);
    let w = Area::of_ring_signed_coordinate_sequence(&seq(&ring, 2, 0));
    let t = 1e-13 * m * m * k * k;
    ck!(want.near(v, t) && want.near(w, t), "areas {:?} and {:?}, exactly {:?}", v, w, want.approx());
    Ok(())
}

fn length(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::tame(s);
    let n = s.size(12);
    let mut l: Vec<Coordinate> = vec![];
    for _ in 0..n {
        let q = if !l.is_empty() && s.chance(1, 6) { l[l.len() - 1] } else { r.pt(s) };
        l.push(q);
    }
    let k = rescale_wide(s);
    scale_by(&mut l.iter_mut().collect::<Vec<_>>(), k);
    c.show(|| format!("{:?} {}", r, fcs(&l)));
    c.nontrivial_if(n >= 3);
    let (m, _) = span(&l);
    // interval sum of the exact segment lengths
    let mut want = 0.0;
    for w in l.windows(2) {
        let d = vsub(&v2(&w[0]), &v2(&w[1]));
        want += vdot(&d, &d).to_f64().sqrt();
    }
    let t = 1e-14 * (want + m) * (n as f64 + 1.0);
    for (k, q) in [("2D", seq(&l, 2, 0)), ("3D", seq(&l, 3, 0)), ("XYM", seq(&l, 3, 1)), ("XYZM", seq(&l, 4, 1))] {
        let v = Length::of_line(&q);
        ck!((v - want).abs() <= t, "length ({}) {:?}, expected {:?}", k, v, want);
    }
    let mut rev = l.clone();
    rev.reverse();
    ck!((Length::of_line(&seq(&rev, 2, 0)) - want).abs() <= t, "length of the reversed line");
    if n >= 2 {
        let k = 1 + s.below(n - 1);
        let a = Length::of_line(&seq(&l[..k + 1].to_vec(), 2, 0));
        let b = Length::of_line(&seq(&l[k..].to_vec(), 2, 0));
        ck!((a + b - want).abs() <= t, "length is not additive: {:?} + {:?} and {:?}", a, b, want);
        ck!(Length::of_line(&seq(&l, 2, 0)) >= l[0].distance(&l[n - 1]) - t, "line shorter than the distance of its ends");
    } else {
        ck!(Length::of_line(&seq(&l, 2, 0)) == 0.0, "length of {} points", n);
    }
    Ok(())
}

fn large_ring_area(s: &mut Src, c: &mut Case) -> Res {
    s.big = 70_000;
    ring_area(s, c)
}
fn large_length(s: &mut Src, c: &mut Case) -> Res {
    s.big = 5_000;
    length(s, c)
}

fn polygons(s: &mut Src, c: &mut Case) -> Res {
    // areas and lengths of whole polygons: the shell less every hole, and all rings together
    let r = if s.bool() { Reg::Small } else { Reg::Quarter };
    let n = if s.chance(1, 4) { s.size(5) } else { s.size(2) };
    let mut geos: Vec<Polygon> = vec![];
    let mut total = 0.0;
    let mut shown = vec![];
    for _ in 0..n {
        let k = if s.chance(1, 8) { s.size(20) } else { s.size(4) };
        let mut rings: Vec<Vec<Coordinate>> = vec![];
        for i in 0..=k {
            let copy = i > 1 && s.chance(1, 8);
            let mut v = if copy { rings[s.below(i)].clone() } else { any_ring(s, r, 6) };
            if v.len() < 4 || !v[0].equals_2d(&v[v.len() - 1]) {
                v = vec![];
            }
            if i == 0 && v.is_empty() {
                v = vec![c2(0., 0.), c2(5., 1.), c2(2., 7.), c2(0., 0.)];
            }
            if s.chance(1, 3) {
                let z = s.sint(9) as f64;
                v.iter_mut().for_each(|p| p.z = z);
            }
            rings.push(v);
        }
        let a = |v: &Vec<Coordinate>| area2(v).abs().to_f64() / 2.0;
        let area = a(&rings[0]) - rings[1..].iter().map(a).sum::<f64>();
        let len: f64 = rings.iter().map(|v| v.windows(2).map(|w| f64::hypot(w[0].x - w[1].x, w[0].y - w[1].y)).sum::<f64>()).sum();
        let mut lr: Vec<LinearRing> = rings.iter().map(|v| GeometryFactory::create_linear_ring_with_coordinates(v)).collect();
        let shell = lr.remove(0);
        for (v, l) in rings[1..].iter().zip(lr.iter()) {
            let want: f64 = v.windows(2).map(|w| f64::hypot(w[0].x - w[1].x, w[0].y - w[1].y)).sum();
            ck!((l.get_length() - want).abs() <= 1e-12 * (want + 1.0), "LinearRing::get_length {:?} of {}, expected {:?}", l.get_length(), fcs(v), want);
        }
        let g = GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &lr);
        let t = || rings.iter().map(|v| fcs(v)).collect::<Vec<_>>().join(" ");
        ck!(g.get_area() == area, "Polygon::get_area {:?} of {}, exactly {:?}", g.get_area(), t(), area);
        ck!((g.get_length() - len).abs() <= 1e-12 * (len + 1.0), "Polygon::get_length {:?} of {}, expected {:?}", g.get_length(), t(), len);
        ck!(g.reverse().get_area() == area && g.copy().get_area() == area, "area {:?}, reversed {:?}, copied {:?}: {}", area, g.reverse().get_area(), g.copy().get_area(), t());
        shown.push(t());
        c.nontrivial_if(k > 0);
        total += area;
        geos.push(g);
    }
    c.show(|| shown.join(" / "));
    let m = GeometryFactory::create_multi_polygon(&geos);
    ck!(m.get_area() == total, "MultiPolygon::get_area {:?} of {}, exactly {:?}", m.get_area(), shown.join(" / "), total);
    Ok(())
}

static SUBS: &[Sub] = &[
    Sub { name: "ring_area", rule: "non-zero area", quick: 200_000, f: ring_area },
    Sub { name: "simple_area", rule: "not far from the origin", quick: 200_000, f: simple_area },
    Sub { name: "real_area", rule: "every case", quick: 100_000, f: real_area },
    Sub { name: "length", rule: "at least two segments", quick: 200_000, f: length },
    Sub { name: "large ring area", rule: "non-zero area", quick: 40, f: large_ring_area },
    Sub { name: "large length", rule: "at least two segments", quick: 60, f: large_length },
    Sub { name: "polygons", rule: "a polygon with holes", quick: 30_000, f: polygons },
];
fn main() {
    gv::main(
        "P09",
        "rings and polylines on integer grids and real coordinates, including too short, repeated and self-crossing ones, polygons of up to twenty holes and multi-polygons; oracle: exact shoelace sum, exact on integer grids",
        &["real coordinates: tolerance 1e-13 of the squared extent; lengths 1e-14 relative"],
        SUBS,
    );
}
