//! Exact rational geometry used as oracle.
use crate::exact::*;
use crate::dy;
use crate::g::Coordinate;

pub fn o3(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> i32 {
    orient(a.x, a.y, b.x, b.y, c.x, c.y)
}
pub fn inbox(p: &Coordinate, a: &Coordinate, b: &Coordinate) -> bool {
    p.x >= a.x.min(b.x) && p.x <= a.x.max(b.x) && p.y >= a.y.min(b.y) && p.y <= a.y.max(b.y)
}
pub fn on_seg(p: &Coordinate, a: &Coordinate, b: &Coordinate) -> bool {
    inbox(p, a, b) && o3(a, b, p) == 0
}
pub fn seg_meet(a: &Coordinate, b: &Coordinate, c: &Coordinate, d: &Coordinate) -> bool {
    if on_seg(c, a, b) || on_seg(d, a, b) || on_seg(a, c, d) || on_seg(b, c, d) {
        return true;
    }
    o3(a, b, c) * o3(a, b, d) < 0 && o3(c, d, a) * o3(c, d, b) < 0
}

/// vector of exact numbers (2 or 3 components)
pub type V = Vec<Dy>;
pub fn v2(p: &Coordinate) -> V {
    vec![Dy::f(p.x), Dy::f(p.y)]
}
pub fn v3(p: &Coordinate) -> V {
    vec![Dy::f(p.x), Dy::f(p.y), Dy::f(p.z)]
}
pub fn vsub(a: &V, b: &V) -> V {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
pub fn vdot(a: &V, b: &V) -> Dy {
    a.iter().zip(b).fold(Dy::zero(), |s, (x, y)| &s + &(x * y))
}
/// exact squared distance of a point to a segment
pub fn d2_point_seg(p: &V, a: &V, b: &V) -> Rt {
    let ab = vsub(b, a);
    let ap = vsub(p, a);
    let l2 = vdot(&ab, &ab);
    let t = vdot(&ap, &ab);
    let ap2 = vdot(&ap, &ap);
    if l2.is_zero() || t.sign() <= 0 {
        return Rt::dy(ap2);
    }
    if l2.le(&t) {
        let bp = vsub(p, b);
        return Rt::dy(vdot(&bp, &bp));
    }
    // |ap|^2 - t^2 / l2
    Rt::new(&(&ap2 * &l2) - &t.sq(), l2)
}
/// exact squared distance of a point to a line (a != b)
pub fn d2_point_line(p: &V, a: &V, b: &V) -> Rt {
    let ab = vsub(b, a);
    let ap = vsub(p, a);
    let l2 = vdot(&ab, &ab);
    let t = vdot(&ap, &ab);
    Rt::new(&(&vdot(&ap, &ap) * &l2) - &t.sq(), l2)
}
/// exact squared distance of two segments in any dimension
pub fn d2_seg_seg(a: &V, b: &V, c: &V, d: &V) -> Rt {
    let mut best = d2_point_seg(a, c, d)
        .min(&d2_point_seg(b, c, d))
        .min(&d2_point_seg(c, a, b))
        .min(&d2_point_seg(d, a, b));
    let u = vsub(b, a);
    let v = vsub(d, c);
    let w = vsub(a, c);
    let (uu, uv, vv, uw, vw) = (vdot(&u, &u), vdot(&u, &v), vdot(&v, &v), vdot(&u, &w), vdot(&v, &w));
    let den = &(&uu * &vv) - &uv.sq();
    if den.sign() > 0 {
        let sn = &(&uv * &vw) - &(&vv * &uw);
        let tn = &(&uu * &vw) - &(&uv * &uw);
        if sn.sign() >= 0 && sn.le(&den) && tn.sign() >= 0 && tn.le(&den) {
            // w + s u - t v
            let mut q = Dy::zero();
            for i in 0..u.len() {
                let x = &(&(&w[i] * &den) + &(&sn * &u[i])) - &(&tn * &v[i]);
                q = &q + &x.sq();
            }
            best = best.min(&Rt::new(q, den.sq()));
        }
    }
    best
}
/// largest magnitude and largest coordinate difference of a set of points
pub fn span(v: &[Coordinate]) -> (f64, f64) {
    let m = v.iter().fold(0f64, |m, p| m.max(p.x.abs()).max(p.y.abs()));
    let mut d = 0f64;
    for p in v {
        for q in v {
            d = d.max((p.x - q.x).abs()).max((p.y - q.y).abs());
        }
    }
    (m, d)
}
/// doubled signed area (positive counter-clockwise) of a closed ring
pub fn area2(ring: &[Coordinate]) -> Dy {
    let mut a = Dy::zero();
    for w in ring.windows(2) {
        a = &a + &(&(&Dy::f(w[0].x) * &Dy::f(w[1].y)) - &(&Dy::f(w[1].x) * &Dy::f(w[0].y)));
    }
    a
}

/// the orientation of the triple is decided within double-double resolution whatever the evaluation order
/// (or the ordinate differences are exact)
pub fn dd_decides(p: &Coordinate, q: &Coordinate, t: &Coordinate) -> bool {
    if p.equals_2d(q) || p.equals_2d(t) || q.equals_2d(t) {
        return true;
    }
    let (ax, ay) = (dy(p.x), dy(p.y));
    let l = &(&dy(q.x) - &ax) * &(&dy(t.y) - &ay);
    let r = &(&dy(q.y) - &ay) * &(&dy(t.x) - &ax);
    let det = &l - &r;
    (l.is_zero() && r.is_zero()) || !det.abs().le(&(&l.abs() + &r.abs()).scale2(-90))
}
