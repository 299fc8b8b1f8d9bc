//! P30: exact equality of geometries, and their total order.
use gv::g::*;
use gv::objs::*;
use gv::*;
use std::cmp::Ordering;

fn equals(a: &Ob, b: &Ob, t: f64) -> bool {
    match (a, b) {
        (Ob::Point(a), Ob::Point(b)) => a.equals_exact(b, t),
        (Ob::Line(a), Ob::Line(b)) => a.equals_exact(b, t),
        (Ob::Ring(a), Ob::Ring(b)) => a.equals_exact(b, t),
        (Ob::MultiPoint(a), Ob::MultiPoint(b)) => a.equals_exact(b.copy(), t),
        (Ob::MultiLine(a), Ob::MultiLine(b)) => a.equals_exact(b, t),
        (Ob::Polygon(a), Ob::Polygon(b)) => a.equals_exact(b, t),
        (Ob::MultiPolygon(a), Ob::MultiPolygon(b)) => a.equals_exact(b.copy(), t),
        _ => unreachable!(),
    }
}
/// the largest squared distance of corresponding vertices, None if the structures differ
fn gap(a: &Mo, b: &Mo) -> Option<f64> {
    let mut w = 0.0f64;
    if a.parts.len() != b.parts.len() {
        return None;
    }
    for (p, q) in a.parts.iter().zip(&b.parts) {
        if p.len() != q.len() {
            return None;
        }
        for (r, t) in p.iter().zip(q) {
            if r.len() != t.len() {
                return None;
            }
            for (u, v) in r.iter().zip(t) {
                w = w.max((u.x - v.x) * (u.x - v.x) + (u.y - v.y) * (u.y - v.y));
            }
        }
    }
    Some(w)
}
/// a slightly different model of the same type
fn vary(s: &mut Src, m: &Mo) -> (Mo, &'static str) {
    let mut v = m.clone();
    let spots: Vec<(usize, usize, usize)> = (0..v.parts.len())
        .flat_map(|i| (0..v.parts[i].len()).map(move |j| (i, j)).collect::<Vec<_>>())
        .flat_map(|(i, j)| (0..m.parts[i][j].len()).map(move |k| (i, j, k)).collect::<Vec<_>>())
        .collect();
    let d = s.pick(&[(3.0, 4.0), (0.0, 5.0), (-5.0, 0.0), (1.0, 0.0), (0.0, -1.0), (-4.0, 3.0), (1.0, 1.0), (0.0, 0.25), (0.75, 1.0), (2.0, -1.0)]);
    let op = s.below(9);
    let what = match op {
        _ if spots.is_empty() => {
            match m.ty {
                Ty::MultiPoint | Ty::MultiLine | Ty::MultiPolygon => {
                    v.parts.push(vec![vec![]]);
                    "member"
                }
                _ => {
                    v.parts[0][0].push(c2(1.0, 2.0));
                    "not empty"
                }
            }
        }
        0 | 1 | 2 | 3 => {
            let (i, j, k) = spots[s.below(spots.len())];
            let p = &mut v.parts[i][j][k];
            p.x += d.0;
            p.y += d.1;
            "vertex"
        }
        4 => {
            // every vertex
            for &(i, j, k) in &spots {
                let p = &mut v.parts[i][j][k];
                p.x += d.0;
                p.y += d.1;
            }
            "shift"
        }
        5 => {
            for &(i, j, k) in &spots {
                let p = &mut v.parts[i][j][k];
                if !p.z.is_nan() {
                    p.z += 1.0;
                }
                if !p.m.is_nan() {
                    p.m -= 1.0;
                }
            }
            "ordinates"
        }
        6 => {
            let (i, j, k) = spots[s.below(spots.len())];
            if m.ty != Ty::Point && m.ty != Ty::MultiPoint {
                let p = v.parts[i][j][k];
                if s.bool() {
                    v.parts[i][j].insert(k, p);
                } else {
                    v.parts[i][j].remove(k);
                }
            } else {
                v.parts[i][j].clear();
            }
            "points"
        }
        7 => {
            match m.ty {
                Ty::MultiPoint | Ty::MultiLine | Ty::MultiPolygon => {
                    let i = s.below(v.parts.len());
                    if s.bool() {
                        v.parts.remove(i);
                    } else {
                        let p = v.parts[i].clone();
                        v.parts.insert(i, p);
                    }
                }
                Ty::Polygon => {
                    let n = v.parts[0].len();
                    if n > 1 && s.bool() {
                        v.parts[0].remove(1 + s.below(n - 1));
                    } else {
                        let r = v.parts[0][n - 1].clone();
                        v.parts[0].push(r);
                    }
                }
                _ => v.parts[0][0].clear(),
            }
            "members"
        }
        _ => {
            let (i, j, _) = spots[s.below(spots.len())];
            v.parts[i][j].reverse();
            "order"
        }
    };
    (v, what)
}
fn small(s: &mut Src, ty: Ty) -> Mo {
    // integer vertices so that distances are exact
    let mut m = model(s, ty);
    // (large, small and close values come from the warp of the finished case)
    for c in m.parts.iter_mut().flatten().flatten() {
        c.x = c.x.clamp(-1e6, 1e6).round();
        c.y = c.y.clamp(-1e6, 1e6).round();
    }
    m
}
fn valid(m: &Mo) -> bool {
    // an empty polygon has no holes
    !matches!(m.ty, Ty::Polygon | Ty::MultiPolygon) || m.parts.iter().all(|p| !p[0].is_empty() || p.len() == 1)
}

fn equality(s: &mut Src, c: &mut Case) -> Res {
    let ty = TYPES[s.below(7)];
    let a = small(s, ty);
    let (mut b, mut what) = if s.chance(5, 6) { vary(s, &a) } else { (a.clone(), "same") };
    if !valid(&b) {
        b = a.clone();
        what = "same";
    }
    let t = s.pick(&[0.0, 0.0, 5.0, 1.0, 0.25, 1.25, 0.5, 4.75, 5.25, 1.5, 1e-9, 2.25]);
    // just below and above the distance as well
    let t = t * s.pick(&[1.0, 1.0, 1.0, 1.0 - 1e-12, 1.0 + 1e-12]);
    let g = gap(&a, &b);
    let w = g.is_some_and(|g| if t == 0.0 { g == 0.0 } else { g.sqrt() <= t });
    let mut ab = [a, b];
    let f = warp(s, &mut ab, t == 0.0);
    let t = t * f;
    let [a, b] = ab;
    c.show(|| format!("tolerance {}: {} and {}", t, fm(&a), fm(&b)));
    let (x, y) = (build(s, &a), build(s, &b));
    ck!(equals(&x, &y, t) == w, "equal {} after {} change, expected {}", equals(&x, &y, t), what, w);
    ck!(equals(&y, &x, t) == w, "not symmetric after {} change: {}", what, equals(&y, &x, t));
    ck!(equals(&x, &x, t) && equals(&x, &x, 0.0), "not equal to itself");
    // a larger tolerance accepts no less
    if w {
        ck!(equals(&x, &y, t + 1.0) && equals(&x, &y, t * 1.5), "equal within {} but not within {} or {}", t, t + 1.0, t * 1.5);
    }
    c.label(what);
    c.lab(w, "equal");
    c.nontrivial_if(what != "same" && !a.is_empty());
    Ok(())
}

fn cxy(a: &Coordinate, b: &Coordinate) -> Ordering {
    a.x.partial_cmp(&b.x).unwrap().then(a.y.partial_cmp(&b.y).unwrap())
}
fn lex(a: &Ring, b: &Ring) -> Ordering {
    for (p, q) in a.iter().zip(b) {
        let o = cxy(p, q);
        if o != Ordering::Equal {
            return o;
        }
    }
    a.len().cmp(&b.len())
}
/// the order of rings, lines and polygons: by shell, then hole by hole, then by number
fn want(a: &Mo, b: &Mo) -> i32 {
    for (p, q) in a.parts[0].iter().zip(&b.parts[0]) {
        let o = lex(p, q);
        if o != Ordering::Equal {
            return o as i32;
        }
    }
    a.parts[0].len().cmp(&b.parts[0].len()) as i32
}
fn order(a: &Ob, b: &Ob) -> i32 {
    match (a, b) {
        (Ob::Line(a), Ob::Line(b)) => a.compare_to(b).signum(),
        (Ob::Ring(a), Ob::Ring(b)) => a.compare_to_same_class(b).signum(),
        (Ob::Polygon(a), Ob::Polygon(b)) => a.compare_to(b).signum(),
        (Ob::Point(a), Ob::Point(b)) => a.compare_to_same_class(b, &CoordinateSequenceComparator::new_with_dimension_limit(2)).signum(),
        _ => unreachable!(),
    }
}
fn ordering(s: &mut Src, c: &mut Case) -> Res {
    let ty = s.pick(&[Ty::Line, Ty::Ring, Ty::Polygon, Ty::Polygon, Ty::Point]);
    let mut ms = vec![small(s, ty)];
    while ms.len() < 3 {
        let m = if s.chance(3, 4) { vary(s, &ms[ms.len() - 1]).0 } else { small(s, ty) };
        let m = if valid(&m) { m } else { ms[0].clone() };
        ms.push(m);
    }
    warp(s, &mut ms, true);
    c.show(|| ms.iter().map(fm).collect::<Vec<_>>().join(" ; "));
    let os: Vec<Ob> = ms.iter().map(|m| build(s, m)).collect();
    let mut signs = [[0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let v = order(&os[i], &os[j]);
            let w = want(&ms[i], &ms[j]);
            ck!(v == w, "{} against {} gives {}, expected {}", i, j, v, w);
            ck!((v == 0) == equals(&os[i], &os[j], 0.0), "{} against {}: order {} but equal {}", i, j, v, equals(&os[i], &os[j], 0.0));
            signs[i][j] = v;
        }
    }
    for (i, j, k) in [(0, 1, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0), (1, 0, 2), (0, 2, 1)] {
        if signs[i][j] <= 0 && signs[j][k] <= 0 {
            ck!(signs[i][k] <= 0, "not transitive");
        }
    }
    c.lab(ty == Ty::Polygon, "polygon");
    c.lab(signs[0][1] == 0, "equal");
    c.nontrivial_if(signs[0][1] != 0 && !ms[0].is_empty());
    Ok(())
}

fn seq(r: &Ring) -> CoordinateArraySequence {
    CoordinateArraySequenceFactory::create_from_coordinates(r)
}
/// order under a comparator: the comparator's verdict on the coordinate sequences, shell first
fn by_comparator(s: &mut Src, c: &mut Case) -> Res {
    let ty = s.pick(&[Ty::Line, Ty::Ring, Ty::Polygon, Ty::Polygon, Ty::Point]);
    let a = small(s, ty);
    let mut b = vary(s, &a).0;
    if !valid(&b) {
        b = a.clone();
    }
    let mut ab = [a, b];
    warp(s, &mut ab, true);
    let [a, b] = ab;
    let limit = s.pick(&[None, None, Some(1), Some(2), Some(3), Some(4)]);
    let cmp = match limit {
        None => CoordinateSequenceComparator::default(),
        Some(l) => CoordinateSequenceComparator::new_with_dimension_limit(l),
    };
    c.show(|| format!("limit {:?}: {} and {}", limit, fm(&a), fm(&b)));
    let rings = |a: &Mo, b: &Mo| -> i32 {
        for (p, q) in a.parts[0].iter().zip(&b.parts[0]) {
            let v = cmp.compare_coordinate_array_sequence(&seq(p), &seq(q));
            if v != 0 {
                return v;
            }
        }
        a.parts[0].len().cmp(&b.parts[0].len()) as i32
    };
    let (x, y) = (build(s, &a), build(s, &b));
    let f = |x: &Ob, y: &Ob| match (x, y) {
        (Ob::Line(a), Ob::Line(b)) => a.compare_to_with_comparator(b, &cmp),
        (Ob::Ring(a), Ob::Ring(b)) => a.compare_to_same_class_with_comparator(b, &cmp),
        (Ob::Polygon(a), Ob::Polygon(b)) => a.compare_to_with_comparator(b, &cmp),
        (Ob::Point(a), Ob::Point(b)) => a.compare_to_same_class(b, &cmp),
        _ => unreachable!(),
    };
    // the sign of the reference order in the plane decides where it is not a tie
    let w = rings(&a, &b);
    ck!(f(&x, &y).signum() == w.signum(), "{} instead of {}", f(&x, &y), w);
    ck!(f(&y, &x).signum() == rings(&b, &a).signum(), "{} instead of {} the other way round", f(&y, &x), rings(&b, &a));
    ck!(f(&x, &x) == 0, "not equal to itself");
    if limit == Some(2) {
        ck!(f(&x, &y).signum() == want(&a, &b), "in the plane {} instead of {}", f(&x, &y), want(&a, &b));
    }
    c.lab(w == 0, "equal");
    c.nontrivial_if(w != 0 && !a.is_empty());
    Ok(())
}

fn large_equality(s: &mut Src, c: &mut Case) -> Res {
    s.big = 20_000;
    equality(s, c)
}
fn large_ordering(s: &mut Src, c: &mut Case) -> Res {
    s.big = 20_000;
    ordering(s, c)
}

fn main() {
    gv::main(
        "P30",
        "pairs and triples of geometries of every type, one derived from the other by moving vertices by exactly known distances, changing z and m, adding or removing points, rings and members, reversing; tolerances at and around the distances",
        &["integer vertices up to a million", "an empty polygon has no holes"],
        &[
            Sub { name: "exact equality", rule: "the second geometry differs from a non-empty first one", quick: 80_000, f: equality },
            Sub { name: "total order", rule: "the first two differ", quick: 60_000, f: ordering },
            Sub { name: "order by comparator", rule: "the comparator tells them apart", quick: 40_000, f: by_comparator },
            Sub { name: "large equality", rule: "the second geometry differs from a non-empty first one", quick: 60, f: large_equality },
            Sub { name: "large ordering", rule: "the first two differ", quick: 60, f: large_ordering },
        ],
    );
}
