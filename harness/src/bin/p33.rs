//! P33: textual forms carry every ordinate exactly and in order.
use gv::g::*;
use gv::seqs::KINDS;
use gv::*;

fn num(s: &mut Src) -> f64 {
    match s.below(5) {
        0 | 1 => s.sint(9) as f64,
        2 => s.pick(&[0.0, -0.0, 0.1, 1e300, -1e-300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, f64::MAX, 1.0 / 3.0]),
        _ => Reg::any(s).num(s),
    }
}
/// the numbers in a text; everything else must match the frame
fn parse(t: &str, open: &str, close: &str, seps: &[&str]) -> Option<Vec<f64>> {
    let mut body = t.strip_prefix(open)?.strip_suffix(close)?;
    let mut v = vec![];
    for sep in seps {
        let (a, b) = body.split_once(sep)?;
        v.push(a.parse().ok()?);
        body = b;
    }
    v.push(body.parse().ok()?);
    Some(v)
}
fn same_all(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y) && (x.is_nan() || x.is_sign_negative() == y.is_sign_negative()))
}

fn values(s: &mut Src, c: &mut Case) -> Res {
    let (x, y, z, m) = (num(s), num(s), num(s), num(s));
    c.show(|| format!("{:?} {:?} {:?} {:?}", x, y, z, m));
    c.nontrivial_if(x != y && y != z && x != z);
    let p = match s.below(4) {
        0 => Coordinate::new_xy(x, y),
        1 => Coordinate::new_xyz(x, y, z),
        2 => Coordinate::new_xym(x, y, m),
        _ => Coordinate::new_xyzm(x, y, z, m),
    };
    let t = format!("{}", p);
    let r = parse(&t, "(", ")", &[", ", ", "]);
    ck!(r.as_ref().is_some_and(|r| same_all(r, &[x, y, p.z])), "coordinate {} reads {}", fc(&p), t);
    ck!(p.to_string() == t, "to_string and format disagree");
    let t = Vector2D::new_from_xy(x, y).to_string();
    ck!(parse(&t, "[", "]", &[", "]).is_some_and(|r| same_all(&r, &[x, y])), "vector {:?} {:?} reads {}", x, y, t);
    let t = Vector3D::new_from_xyz(x, y, z).to_string();
    ck!(parse(&t, "[", "]", &[", ", ", "]).is_some_and(|r| same_all(&r, &[x, y, z])), "vector {:?} {:?} {:?} reads {}", x, y, z, t);
    if [x, y, z, m].iter().all(|v| v.is_finite()) {
        let e = Envelope::new_xy(x, y, z, m);
        let t = format!("{}", e);
        let w = [e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()];
        ck!(parse(&t, "Env[", "]", &[" : ", ", ", " : "]).is_some_and(|r| same_all(&r, &w)), "box {:?} reads {}", w, t);
    }
    Ok(())
}

fn sequences(s: &mut Src, c: &mut Case) -> Res {
    let k = KINDS[s.below(4)];
    let n = s.size(6);
    let v: Vec<Coordinate> = (0..n)
        .map(|_| {
            let (x, y) = (num(s), num(s));
            match k {
                (2, 0) => Coordinate::new_xy(x, y),
                (3, 0) => Coordinate::new_xyz(x, y, num(s)),
                (3, 1) => Coordinate::new_xym(x, y, num(s)),
                _ => {
                    let z = num(s);
                    Coordinate::new_xyzm(x, y, z, num(s))
                }
            }
        })
        .collect();
    c.show(|| fcs(&v));
    c.nontrivial_if(n > 1);
    let q = CoordinateArraySequence::new_with_coordinates_dimension_measures(v.clone(), k.0 as i32, k.1 as i32);
    let t = format!("{}", q);
    let w = format!("({})", v.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(", "));
    ck!(t == w, "sequence of {} points reads {} instead of {}", n, t, w);
    Ok(())
}
fn large_sequences(s: &mut Src, c: &mut Case) -> Res {
    s.big = 5_000;
    sequences(s, c)
}

fn main() {
    gv::main(
        "P33",
        "coordinates, vectors, boxes and sequences of every shape with signed zeros, extremes, infinities and missing ordinates",
        &["the coordinate form shows x, y and z only"],
        &[
            Sub { name: "coordinates, vectors, boxes", rule: "three different ordinates", quick: 60_000, f: values },
            Sub { name: "sequences", rule: "at least two points", quick: 40_000, f: sequences },
            Sub { name: "large sequences", rule: "at least two points", quick: 60, f: large_sequences },
        ],
    );
}
