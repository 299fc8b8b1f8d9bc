//! P02: ring orientation.
use gv::g::*;
use gv::*;

fn seq(ring: &Vec<Coordinate>, dim: i32, meas: i32) -> CoordinateArraySequence {
    CoordinateArraySequence::new_with_coordinates_dimension_measures(ring.clone(), dim, meas)
}

fn det_area2(ring: &[Coordinate]) -> Dy {
    let mut a = Dy::zero();
    for w in ring.windows(2) {
        a = &a + &(&(&dy(w[0].x) * &dy(w[1].y)) - &(&dy(w[1].x) * &dy(w[0].y)));
    }
    a
}

/// many vertices on one level: repetitions of a vertex, or points inside a horizontal or vertical edge
fn crowd(s: &mut Src, ring: &mut Vec<Coordinate>) {
    let hi = ring.iter().map(|p| p.y).fold(f64::NEG_INFINITY, f64::max);
    let n = ring.len();
    let start = s.below(n - 1);
    let i = if s.chance(3, 4) { (0..n - 1).map(|k| (start + k) % (n - 1)).find(|k| ring[*k].y == hi).unwrap() } else { start };
    let (a, b) = (ring[i], ring[i + 1]);
    let k = 1 + s.size(24);
    let mut ins = vec![a; k];
    if a.y == b.y || a.x == b.x {
        // rounding keeps the points on the edge and in order
        for j in 0..k {
            let t = (j + 1) as f64 / (k + 1) as f64;
            ins[j] = if a.y == b.y { c2(a.x + t * (b.x - a.x), a.y) } else { c2(a.x, a.y + t * (b.y - a.y)) };
        }
    }
    ring.splice(i + 1..i + 1, ins);
}

fn simple(s: &mut Src, c: &mut Case) -> Res {
    let max = 2 + s.below(14);
    let (mut ring, ccw) = simple_ring(s, max);
    if s.chance(1, 4) {
        crowd(s, &mut ring);
    }
    c.show(|| format!("ccw={} ring={}", ccw, fcs(&ring)));
    let n = ring.len();
    let rep = ring.windows(2).any(|w| w[0].equals_2d(&w[1]));
    let hi = ring.iter().map(|p| p.y).fold(f64::NEG_INFINITY, f64::max);
    let flat = ring.windows(2).any(|w| w[0].y == hi && w[1].y == hi && w[0].x != w[1].x);
    c.lab(rep, "repeated points");
    c.lab(flat, "flat top");
    c.lab(ring[0].y == hi, "starts at a highest vertex");
    c.nontrivial_if(rep || flat || n > 5 || ring[0].y == hi);
    let a2 = det_area2(&ring).sign();
    if a2 == 0 || (a2 > 0) != ccw {
        return Err("harness: construction and exact area disagree".into());
    }
    for (name, v) in [
        ("is_ccw_vec", Orientation::is_ccw_vec(&ring)),
        ("is_ccw_coordinate_array_sequence 2D", Orientation::is_ccw_coordinate_array_sequence(&seq(&ring, 2, 0))),
        ("is_ccw_coordinate_array_sequence 3D", Orientation::is_ccw_coordinate_array_sequence(&seq(&ring, 3, 0))),
        ("is_ccw_coordinate_array_sequence XYM", Orientation::is_ccw_coordinate_array_sequence(&seq(&ring, 3, 1))),
    ] {
        ck!(v == ccw, "{} = {} for a ring that is {}counter-clockwise: {}", name, v, if ccw { "" } else { "not " }, fcs(&ring));
    }
    // reversal flips
    let mut rev = ring.clone();
    rev.reverse();
    ck!(Orientation::is_ccw_vec(&rev) == !ccw, "the reversed ring has the same orientation: {}", fcs(&ring));
    // independent of the start vertex
    let k = s.below(n - 1);
    let mut rot = ring[..n - 1].to_vec();
    rot.rotate_left(k);
    let f = rot[0];
    rot.push(f);
    ck!(Orientation::is_ccw_vec(&rot) == ccw, "orientation depends on the start vertex ({}): {}", k, fcs(&ring));
    // measures, z and mirror images
    let mir: Vec<Coordinate> = ring.iter().map(|p| Coordinate::new_xyz(-p.x, p.y, 7.0)).collect();
    ck!(Orientation::is_ccw_vec(&mir) == !ccw, "the mirrored ring has the same orientation: {}", fcs(&ring));
    Ok(())
}

/// a simple ring under a linear map that makes its edges nearly parallel
fn sheared(s: &mut Src, c: &mut Case) -> Res {
    let (ring, ccw) = simple_ring(s, 8);
    let (m, _) = span(&ring);
    let Reg::Shear(k) = Reg::shear(s) else { unreachable!() };
    let big = k.iter().map(|v| v.abs()).max().unwrap() as f64;
    if ring.iter().any(|p| p.x.fract() != 0.0 || p.y.fract() != 0.0) || 2.0 * m * big > 2f64.powi(51) {
        c.label("too large (skipped)");
        return Ok(());
    }
    let map = |p: &Coordinate| {
        let (x, y) = (p.x as i64, p.y as i64);
        c2((k[0] * x + k[1] * y) as f64, (k[2] * x + k[3] * y) as f64)
    };
    let ring: Vec<Coordinate> = ring.iter().map(map).collect();
    let ccw = if k[0] as i128 * k[3] as i128 - k[1] as i128 * k[2] as i128 > 0 { ccw } else { !ccw };
    c.show(|| format!("ccw={} ring={}", ccw, fcs(&ring)));
    c.nontrivial_if(big > 1e6);
    ck!(Orientation::is_ccw_vec(&ring) == ccw, "is_ccw_vec is not {}: {}", ccw, fcs(&ring));
    ck!(Orientation::is_ccw_coordinate_array_sequence(&seq(&ring, 2, 0)) == ccw, "is_ccw_coordinate_array_sequence is not {}: {}", ccw, fcs(&ring));
    Ok(())
}

fn area_sign(s: &mut Src, c: &mut Case) -> Res {
    // signed area version: any closed ring on small integers, area exact in doubles
    let r = match s.below(3) {
        0 => Reg::Small,
        1 => Reg::Mid,
        _ => Reg::Quarter,
    };
    let ring = if s.bool() { any_ring(s, r, 10) } else { let (v, _) = simple_ring(s, 8); if v.iter().any(|p| p.x.abs() > 1e6) { any_ring(s, r, 6) } else { v } };
    c.show(|| fcs(&ring));
    let a2 = det_area2(&ring).sign();
    c.nontrivial_if(a2 != 0 && ring.len() > 4);
    let v = Orientation::is_ccw_area_vec(&ring);
    ck!(v == (a2 > 0), "is_ccw_area_vec = {} but the exact doubled area has sign {}: {}", v, a2, fcs(&ring));
    Ok(())
}

fn degenerate(s: &mut Src, c: &mut Case) -> Res {
    // documented default: fewer than 4 points, or flat, is not counter-clockwise; never panics
    let r = Reg::exact(s);
    match s.below(3) {
        0 => {
            let n = s.below(4);
            let mut v: Vec<Coordinate> = (0..n).map(|_| r.pt(s)).collect();
            if n > 1 && s.bool() {
                let f = v[0];
                v[n - 1] = f;
            }
            c.show(|| fcs(&v));
            c.nontrivial_if(n >= 2);
            ck!(!Orientation::is_ccw_vec(&v), "ring of {} points reported counter-clockwise: {}", n, fcs(&v));
            ck!(!Orientation::is_ccw_coordinate_array_sequence(&seq(&v, 2, 0)), "sequence of {} points reported counter-clockwise", n);
            ck!(!Orientation::is_ccw_area_vec(&v) || n == 3, "area orientation of {} points", n);
        }
        1 => {
            // flat: horizontal, vertical spike A-B-A..., or a single repeated point
            let a = r.pt(s);
            let k = s.below(3);
            let n = 3 + s.below(6);
            let mut v: Vec<Coordinate> = vec![];
            for _ in 0..n {
                let q = r.pt(s);
                v.push(match k {
                    0 => c2(q.x, a.y),
                    1 => c2(a.x, a.y),
                    _ => a,
                });
            }
            let f = v[0];
            v.push(f);
            c.show(|| fcs(&v));
            c.nontrivial_if(true);
            ck!(!Orientation::is_ccw_vec(&v), "flat ring reported counter-clockwise: {}", fcs(&v));
        }
        _ => {
            // A-B-A spikes of four or more points
            let a = r.pt(s);
            let b = r.pt(s);
            let mut v = vec![a];
            for _ in 0..(1 + s.below(2)) {
                v.push(a);
            }
            for _ in 0..(1 + s.below(3)) {
                v.push(b);
            }
            v.push(a);
            c.show(|| fcs(&v));
            c.nontrivial_if(!a.equals_2d(&b));
            ck!(!Orientation::is_ccw_vec(&v), "spike A-B-A reported counter-clockwise: {}", fcs(&v));
        }
    }
    Ok(())
}

fn large_simple(s: &mut Src, c: &mut Case) -> Res {
    s.big = 70_000;
    simple(s, c)
}
fn large_area_sign(s: &mut Src, c: &mut Case) -> Res {
    s.big = 70_000;
    area_sign(s, c)
}

static SUBS: &[Sub] = &[
    Sub { name: "simple", rule: "ring with repeated points, a flat top, more than four vertices, or starting at a highest vertex", quick: 300_000, f: simple },
    Sub { name: "sheared", rule: "matrix entries above a million", quick: 100_000, f: sheared },
    Sub { name: "area_sign", rule: "non-zero area and more than three vertices", quick: 300_000, f: area_sign },
    Sub { name: "degenerate", rule: "at least two points", quick: 200_000, f: degenerate },
    Sub { name: "large simple", rule: "ring with repeated points, a flat top, more than four vertices, or starting at a highest vertex", quick: 60, f: large_simple },
    Sub { name: "large area sign", rule: "non-zero area and more than three vertices", quick: 60, f: large_area_sign },
];
fn main() {
    gv::main(
        "P02",
        "simple rings built by monotone-chain, star, triangle and histogram constructions with known orientation, rotated, reversed, with repeated vertices; flat and too-short rings",
        &["no claim for self-crossing rings; coordinates are integers (scaled by powers of two or shifted exactly)"],
        SUBS,
    );
}
