//! P08: distances in space.
use gv::g::*;
use gv::*;

fn num(s: &mut Src, k: usize) -> f64 {
    match k {
        0 => s.sint(3) as f64,
        1 => s.sint(100) as f64,
        2 => s.sint(1000) as f64,
        _ => s.sint(80) as f64 / 4.0,
    }
}
fn pt(s: &mut Src, k: usize) -> Coordinate {
    let (x, y, z) = (num(s, k), num(s, k), num(s, k));
    Coordinate::new_xyz(x, y, z)
}
fn along(a: &Coordinate, b: &Coordinate, t: f64) -> Coordinate {
    Coordinate::new_xyz(a.x + t * (b.x - a.x), a.y + t * (b.y - a.y), a.z + t * (b.z - a.z))
}
fn near(s: &mut Src, k: usize, a: &Coordinate, b: &Coordinate) -> Coordinate {
    match s.below(5) {
        0 | 1 => pt(s, k),
        2 => if s.bool() { *a } else { *b },
        _ => along(a, b, [0.5, 2.0, -1.0, 0.25, 3.0][s.below(5)]),
    }
}
fn tol(v: &[Coordinate]) -> f64 {
    let mut m: f64 = 1.0;
    for p in v {
        m = m.max(p.x.abs()).max(p.y.abs()).max(p.z.abs());
    }
    1e-11 * m
}

/// extent of a set of points
fn ext(v: &[&Coordinate]) -> f64 {
    let mut m: f64 = 0.0;
    for p in v {
        for q in v {
            m = m.max((p.x - q.x).abs()).max((p.y - q.y).abs()).max((p.z - q.z).abs());
        }
    }
    m
}
fn scale3(v: &mut [&mut Coordinate], k: f64) {
    for p in v.iter_mut() {
        p.x *= k;
        p.y *= k;
        p.z *= k;
    }
}
fn point_segment(s: &mut Src, c: &mut Case) -> Res {
    let k = s.below(4);
    let mut a = pt(s, k);
    let mut b = if s.chance(1, 12) { a } else { pt(s, k) };
    let mut p = near(s, k, &a, &b);
    if s.chance(1, 4) {
        // a very long segment, and a point near one of its ends
        let m = 2f64.powi(s.range(8, 32) as i32);
        b = Coordinate::new_xyz(a.x + b.x * m, a.y + b.y * m, a.z + b.z * m);
        let d = pt(s, k);
        if s.bool() {
            p = Coordinate::new_xyz(b.x + d.x, b.y + d.y, b.z + d.z);
        }
        c.label("long segment");
    }
    let k = rescale(s);
    scale3(&mut [&mut a, &mut b, &mut p], k);
    c.show(|| format!("p={} a={} b={}", fc(&p), fc(&a), fc(&b)));
    let e = d2_point_seg(&v3(&p), &v3(&a), &v3(&b));
    let ab = vsub(&v3(&b), &v3(&a));
    let t = vdot(&vsub(&v3(&p), &v3(&a)), &ab);
    let inner = t.sign() > 0 && t.lt(&vdot(&ab, &ab));
    c.lab(inner, "perpendicular foot inside");
    c.lab(e.sign() == 0, "zero distance");
    c.lab(a.equals_3d(&b), "zero-length segment");
    c.nontrivial_if(inner || e.sign() == 0);
    for (n, v) in [
        ("distance_point_segment(p,a,b)", CGAlgorithms3D::distance_point_segment(&p, &a, &b)),
        ("distance_point_segment(p,b,a)", CGAlgorithms3D::distance_point_segment(&p, &b, &a)),
        ("distance_segment_segment(p,p,a,b)", CGAlgorithms3D::distance_segment_segment(&p, &p, &a, &b)),
        ("distance_segment_segment(a,b,p,p)", CGAlgorithms3D::distance_segment_segment(&a, &b, &p, &p)),
    ] {
        ck!(near_sqrt(v, &e, 1e-13 * ext(&[&a, &b, &p])) && v >= 0.0, "{} = {:?}, exactly sqrt({:e})", n, v, e.approx());
    }
    Ok(())
}

fn segment_segment(s: &mut Src, c: &mut Case) -> Res {
    let k = s.below(4);
    let a = pt(s, k);
    let b = if s.chance(1, 12) { a } else { pt(s, k) };
    let mut p = near(s, k, &a, &b);
    let q = match s.below(8) {
        5 | 6 | 7 => {
            // a segment whose middle is close to the middle of a-b
            let m = along(&a, &b, [0.5, 0.25, 0.75][s.below(3)]);
            let d = Coordinate::new_xyz(num(s, 0), num(s, 0), num(s, 0));
            let v = pt(s, k);
            p = Coordinate::new_xyz(m.x + d.x + v.x, m.y + d.y + v.y, m.z + d.z + v.z);
            Coordinate::new_xyz(m.x + d.x - v.x, m.y + d.y - v.y, m.z + d.z - v.z)
        }
        0 => near(s, k, &a, &b),
        1 => Coordinate::new_xyz(p.x + (b.x - a.x), p.y + (b.y - a.y), p.z + (b.z - a.z)),
        2 => if s.chance(1, 3) { p } else { Coordinate::new_xyz(p.x - 2.0 * (b.x - a.x), p.y - 2.0 * (b.y - a.y), p.z - 2.0 * (b.z - a.z)) },
        _ => pt(s, k),
    };
    c.show(|| format!("{} {} / {} {}", fc(&a), fc(&b), fc(&p), fc(&q)));
    let (va, vb, vp, vq) = (v3(&a), v3(&b), v3(&p), v3(&q));
    let e = d2_seg_seg(&va, &vb, &vp, &vq);
    let ends = d2_point_seg(&va, &vp, &vq).min(&d2_point_seg(&vb, &vp, &vq)).min(&d2_point_seg(&vp, &va, &vb)).min(&d2_point_seg(&vq, &va, &vb));
    let inner = e.lt(&ends);
    let (u, v) = (vsub(&vb, &va), vsub(&vq, &vp));
    let par = (&(&vdot(&u, &u) * &vdot(&v, &v)) - &vdot(&u, &v).sq()).is_zero();
    c.lab(inner, "closest points inside both segments");
    c.lab(par, "parallel or degenerate");
    c.lab(e.sign() == 0, "zero distance");
    c.nontrivial_if(inner || par || e.sign() == 0);
    for w in [[a, b, p, q], [b, a, p, q], [a, b, q, p], [p, q, a, b], [q, p, b, a]] {
        let d = CGAlgorithms3D::distance_segment_segment(&w[0], &w[1], &w[2], &w[3]);
        ck!(near_sqrt(d, &e, tol(&w)) && d >= 0.0, "distance of {} - {} and {} - {} = {:?}, exactly sqrt({:e})", fc(&w[0]), fc(&w[1]), fc(&w[2]), fc(&w[3]), d, e.approx());
    }
    Ok(())
}

/// segments whose directions differ by a small angle: the tolerance follows from the conditioning of the formula
fn nearly_parallel(s: &mut Src, c: &mut Case) -> Res {
    let l = 1i64 << s.range(4, 20);
    let u = [s.sint(l), s.sint(l), s.sint(l)];
    let d = [s.sint(3), s.sint(3), s.sint(3)];
    let f = [1, 1, 2, -1][s.below(4)];
    let v = [f * u[0] + d[0], f * u[1] + d[1], f * u[2] + d[2]];
    // a common point of the lines, then a small shift
    let (tu, tv) = (s.range(0, 8), s.range(0, 8));
    let w = [s.sint(3), s.sint(3), s.sint(3)];
    let at = |u: &[i64; 3], t: i64, w: &[i64; 3]| Coordinate::new_xyz((u[0] * t + 8 * w[0]) as f64 / 8.0, (u[1] * t + 8 * w[1]) as f64 / 8.0, (u[2] * t + 8 * w[2]) as f64 / 8.0);
    let (mut a, mut b) = (at(&u, -tu, &[0; 3]), at(&u, 8 - tu, &[0; 3]));
    let (mut p, mut q) = (at(&v, -tv, &w), at(&v, 8 - tv, &w));
    let k = rescale(s);
    scale3(&mut [&mut a, &mut b, &mut p, &mut q], k);
    c.show(|| format!("{} {} / {} {}", fc(&a), fc(&b), fc(&p), fc(&q)));
    let (va, vb, vp, vq) = (v3(&a), v3(&b), v3(&p), v3(&q));
    let e = d2_seg_seg(&va, &vb, &vp, &vq);
    let (du, dv, dw) = (vsub(&vb, &va), vsub(&vq, &vp), vsub(&va, &vp));
    let (uu, vv) = (vdot(&du, &du), vdot(&dv, &dv));
    let den = &(&uu * &vv) - &vdot(&du, &dv).sq();
    let (nu, nv, nw) = (uu.to_f64().sqrt(), vv.to_f64().sqrt(), vdot(&dw, &dw).to_f64().sqrt());
    let m = ext(&[&a, &b, &p, &q]);
    let mut t = 1e-13 * m;
    if den.sign() > 0 {
        // how far the parameters, times the lengths, can be off; at the minimum that counts squared
        let cond = 2f64.powi(-50) * (nu * nv) * (nu * nv) / den.to_f64();
        if cond > 1e-3 {
            c.label("angle not resolved (skipped)");
            return Ok(());
        }
        let far = cond * (4.0 * nw + nu + nv);
        let x = e.approx();
        t += (x + far * far).sqrt() - x.sqrt();
    } else if nu > 0.0 && nv > 0.0 {
        // only a determinant computed as zero leads to the right formula
        if !(uu.to_f64() * vv.to_f64() / k.powi(4) < 2f64.powi(53)) {
            c.label("parallel, but not exactly (skipped)");
            return Ok(());
        }
    }
    let ends = d2_point_seg(&va, &vp, &vq).min(&d2_point_seg(&vb, &vp, &vq)).min(&d2_point_seg(&vp, &va, &vb)).min(&d2_point_seg(&vq, &va, &vb));
    c.nontrivial_if(e.lt(&ends));
    c.lab(t > 1e-6 * e.approx().sqrt(), "wide tolerance");
    for w in [[a, b, p, q], [b, a, p, q], [a, b, q, p], [p, q, a, b], [q, p, b, a]] {
        let d = CGAlgorithms3D::distance_segment_segment(&w[0], &w[1], &w[2], &w[3]);
        ck!(near_sqrt(d, &e, t) && d >= 0.0, "distance of {} - {} and {} - {} = {:?}, exactly sqrt({:e}), tolerance {:e}", fc(&w[0]), fc(&w[1]), fc(&w[2]), fc(&w[3]), d, e.approx(), t);
    }
    Ok(())
}

fn points(s: &mut Src, c: &mut Case) -> Res {
    let k = s.below(4);
    let mut a = pt(s, k);
    let mut b = if s.chance(1, 8) { a } else { pt(s, k) };
    let no_z = s.below(4);
    if no_z == 2 { a.z = f64::NAN }
    if no_z == 3 { b.z = f64::NAN }
    c.show(|| format!("{} {}", fc(&a), fc(&b)));
    c.nontrivial_if(true);
    let d = CGAlgorithms3D::distance(&a, &b);
    let e = if no_z >= 2 { let v = vsub(&v2(&a), &v2(&b)); vdot(&v, &v) } else { let v = vsub(&v3(&a), &v3(&b)); vdot(&v, &v) };
    ck!(near_sqrt(d, &Rt::dy(e.clone()), 1e-12 * (1.0 + d)), "distance {:?}, exactly sqrt({:e})", d, e.to_f64());
    ck!(CGAlgorithms3D::distance(&b, &a) == d, "distance is not symmetric");
    if no_z < 2 {
        ck!((a.distance_3d(&b) - d).abs() <= 1e-12 * (1.0 + d), "Coordinate::distance_3d = {:?}, CGAlgorithms3D = {:?}", a.distance_3d(&b), d);
        ck!(a.distance_3d(&b) == b.distance_3d(&a), "distance_3d is not symmetric");
        // with equal z it is the planar distance
        let b2 = Coordinate::new_xyz(b.x, b.y, a.z);
        ck!((CGAlgorithms3D::distance(&a, &b2) - a.distance(&b)).abs() <= 1e-12 * (1.0 + d), "equal z: not the planar distance");
    }
    Ok(())
}

fn planar(s: &mut Src, c: &mut Case) -> Res {
    // segments in one horizontal plane: the planar distance
    let k = s.below(4);
    let z = num(s, k);
    let r = Reg::Small;
    let a = r.pt(s);
    let b = r.pt(s);
    let p = near_line(s, r, &a, &b);
    let q = if s.bool() { r.pt(s) } else { near_line(s, r, &a, &b) };
    let l = |v: &Coordinate| Coordinate::new_xyz(v.x, v.y, z);
    c.show(|| format!("z={} {} {} / {} {}", z, fc(&a), fc(&b), fc(&p), fc(&q)));
    c.nontrivial_if(seg_meet(&a, &b, &p, &q));
    let d2 = Distance::segment_to_segment(&a, &b, &p, &q);
    let d3 = CGAlgorithms3D::distance_segment_segment(&l(&a), &l(&b), &l(&p), &l(&q));
    ck!((d2 - d3).abs() <= 1e-11, "planar distance {:?}, spatial distance {:?}", d2, d3);
    let d2 = Distance::point_to_segment(&p, &a, &b);
    let d3 = CGAlgorithms3D::distance_point_segment(&l(&p), &l(&a), &l(&b));
    ck!((d2 - d3).abs() <= 1e-11, "planar distance {:?}, spatial distance {:?}", d2, d3);
    Ok(())
}

static SUBS: &[Sub] = &[
    Sub { name: "point_segment", rule: "perpendicular foot inside the segment, or zero distance", quick: 150_000, f: point_segment },
    Sub { name: "segment_segment", rule: "closest points inside both segments, parallel, or zero distance", quick: 150_000, f: segment_segment },
    Sub { name: "nearly_parallel", rule: "closest points inside both segments", quick: 100_000, f: nearly_parallel },
    Sub { name: "points", rule: "every case", quick: 100_000, f: points },
    Sub { name: "planar", rule: "segments meet", quick: 100_000, f: planar },
];
fn main() {
    gv::main(
        "P08",
        "points and segments on integer lattices in space, biased to parallel, collinear, touching and degenerate pairs; oracle: exact rational minimum over both parameters",
        &["lattice coordinates, some cases multiplied by powers of two; tolerance 1e-11 (points and segments: 1e-13) of the magnitude, plus the conditioning of the formula for nearly parallel segments"],
        SUBS,
    );
}
