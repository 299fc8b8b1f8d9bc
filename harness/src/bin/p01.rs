//! P01: the orientation predicate is the exact sign of the determinant.
use gv::g::*;
use gv::*;

fn all_index(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> Vec<(&'static str, i32)> {
    vec![
        ("Orientation::index", Orientation::index(a, b, c)),
        ("CGAlgorithmsDD coordinates", CGAlgorithmsDD::orientation_index_coordinates(a, b, c)),
        ("CGAlgorithmsDD xy", CGAlgorithmsDD::orientation_index_xy(a.x, a.y, b.x, b.y, c.x, c.y)),
        (
            "LineSegment::orientation_index",
            LineSegment::new_from_coordinates(a, b).orientation_index_coordinate(c),
        ),
    ]
}

fn exact_sign(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::exact(s);
    let (p, q, t) = triple(s, r);
    c.show(|| format!("{:?} p1={} p2={} q={}", r, fc(&p), fc(&q), fc(&t)));
    let want = orient(p.x, p.y, q.x, q.y, t.x, t.y);
    let naive = (q.x - p.x) * (t.y - p.y) - (q.y - p.y) * (t.x - p.x);
    let ns = if naive > 0. { 1 } else if naive < 0. { -1 } else { 0 };
    c.lab(want == 0, "collinear");
    c.lab(ns != want, "naive double arithmetic is wrong");
    c.nontrivial_if(want == 0 || CGAlgorithmsDD::orientation_index_filter(p.x, p.y, q.x, q.y, t.x, t.y) > 1 || ns != want);
    for (n, v) in all_index(&p, &q, &t) {
        ck!(v == want, "{}({}, {}, {}) = {}, exact sign is {}", n, fc(&p), fc(&q), fc(&t), v, want);
    }
    let names = match want {
        1 => [Orientation::COUNTERCLOCKWISE, Orientation::LEFT],
        -1 => [Orientation::CLOCKWISE, Orientation::RIGHT],
        _ => [Orientation::COLLINEAR, Orientation::STRAIGHT],
    };
    ck!(names == [want; 2], "sign {} is named {:?}", want, names);
    Ok(())
}

fn general_sign(s: &mut Src, c: &mut Case) -> Res {
    let r = match s.below(3) {
        0 => Reg::Real(1.0),
        1 => Reg::Real(2f64.powi(s.sint(100) as i32)),
        _ => Reg::Mixed(s.range(2, 60) as i32),
    };
    let (p, q, t) = triple(s, r);
    c.show(|| format!("{:?} p1={} p2={} q={}", r, fc(&p), fc(&q), fc(&t)));
    let (ax, ay) = (dy(p.x), dy(p.y));
    let l = &(&dy(q.x) - &ax) * &(&dy(t.y) - &ay);
    let rr = &(&dy(q.y) - &ay) * &(&dy(t.x) - &ax);
    let det = &l - &rr;
    let want = det.sign();
    // beyond double-double resolution the code makes no promise
    let bound = (&l.abs() + &rr.abs()).scale2(-90);
    if want != 0 && det.abs().le(&bound) {
        c.label("below double-double resolution (skipped)");
        return Ok(());
    }
    if want == 0 && !(l.is_zero() && rr.is_zero()) && !(p.equals_2d(&t) || q.equals_2d(&t) || p.equals_2d(&q)) {
        c.label("exactly collinear, inexact differences (skipped)");
        return Ok(());
    }
    c.nontrivial_if(det.abs().le(&(&l.abs() + &rr.abs()).scale2(-20)) || want == 0);
    for (n, v) in all_index(&p, &q, &t) {
        ck!(v == want, "{}({}, {}, {}) = {}, exact sign is {}", n, fc(&p), fc(&q), fc(&t), v, want);
    }
    Ok(())
}

fn symmetry(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::exact(s);
    let (p, q, t) = triple(s, r);
    c.show(|| format!("{:?} p1={} p2={} q={}", r, fc(&p), fc(&q), fc(&t)));
    let o = Orientation::index(&p, &q, &t);
    c.nontrivial_if(CGAlgorithmsDD::orientation_index_filter(p.x, p.y, q.x, q.y, t.x, t.y) > 1 || o == 0);
    for (n, v, k) in [
        ("(q,t,p)", Orientation::index(&q, &t, &p), 1),
        ("(t,p,q)", Orientation::index(&t, &p, &q), 1),
        ("(q,p,t)", Orientation::index(&q, &p, &t), -1),
        ("(p,t,q)", Orientation::index(&p, &t, &q), -1),
        ("(t,q,p)", Orientation::index(&t, &q, &p), -1),
    ] {
        ck!(v == k * o, "index(p,q,t) = {} but index{} = {}", o, n, v);
    }
    ck!(o >= -1 && o <= 1, "index out of range: {}", o);
    Ok(())
}

fn filter_sound(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::any(s);
    let (p, q, t) = triple(s, r);
    c.show(|| format!("{:?} {} {} {}", r, fc(&p), fc(&q), fc(&t)));
    let f = CGAlgorithmsDD::orientation_index_filter(p.x, p.y, q.x, q.y, t.x, t.y);
    let want = orient(p.x, p.y, q.x, q.y, t.x, t.y);
    c.lab(f > 1, "filter undecided");
    c.nontrivial_if(f <= 1 && want != 0);
    ck!(f <= 1 || f == 2, "filter code {}", f);
    ck!(f > 1 || f == want, "filter answers {} but the exact sign is {}", f, want);
    Ok(())
}

fn det2x2(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::any(s);
    let a = r.num(s);
    let b = r.num(s);
    let (x, y) = match s.below(3) {
        0 => (r.num(s), r.num(s)),
        1 => {
            let k = s.sint(5) as f64;
            (a * k, b * k)
        }
        _ => {
            let k = 1.0 + s.unit();
            (a * k, b * k + s.sint(2) as f64 * ulp(b * k))
        }
    };
    c.show(|| format!("det({:?},{:?};{:?},{:?})", a, b, x, y));
    let want = (&(&dy(a) * &dy(y)) - &(&dy(b) * &dy(x))).sign();
    let naive = a * y - b * x;
    c.nontrivial_if(want == 0 || (naive.abs() <= 1e-12 * (a * y).abs()));
    let v = CGAlgorithmsDD::sign_of_det2x2_f64(a, b, x, y);
    ck!(v == want, "sign_of_det2x2_f64 = {}, exact {}", v, want);
    let d = |v: f64| DD::value_of_f64(v);
    let v = CGAlgorithmsDD::sign_of_det2x_2dd(&d(a), &d(b), &d(x), &d(y));
    ck!(v == want, "sign_of_det2x_2dd = {}, exact {}", v, want);
    ck!(CGAlgorithmsDD::signum(a) == dy(a).sign(), "signum({:?})", a);
    Ok(())
}

static SUBS: &[Sub] = &[
    Sub { name: "exact_sign", rule: "collinear, undecided by the double filter, or wrong in plain doubles", quick: 500_000, f: exact_sign },
    Sub { name: "general_sign", rule: "determinant at least 2^20 times smaller than its terms, or zero", quick: 200_000, f: general_sign },
    Sub { name: "symmetry", rule: "collinear or undecided by the double filter", quick: 200_000, f: symmetry },
    Sub { name: "filter_sound", rule: "filter decides a non-zero sign", quick: 200_000, f: filter_sound },
    Sub { name: "det2x2", rule: "determinant zero or cancelling to 1e-12", quick: 200_000, f: det2x2 },
];
fn main() {
    gv::main(
        "P01",
        "point triples drawn from grid / offset / 53-bit / real regimes with a bias to near-collinear; non-trivial: exactly collinear or not decidable in plain doubles",
        &["coordinate differences exactly representable, or determinant above double-double resolution; exponents within +-2^160"],
        SUBS,
    );
}
