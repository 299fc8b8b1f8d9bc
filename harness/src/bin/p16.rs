//! P16: operations on coordinate arrays agree with a plain list model.
use gv::g::*;
use gv::*;

type V = Vec<Coordinate>;

fn num(s: &mut Src) -> f64 {
    s.sint(2) as f64
}
/// coordinates with many repetitions; optionally closed, palindromic, invalid
fn arr(s: &mut Src, max: usize) -> V {
    let n = s.size(max + 1);
    let wide = s.chance(1, 4);
    let mut v: V = vec![];
    for i in 0..n {
        if i > 0 && s.chance(1, 4) {
            v.push(v[s.below(i)]);
            continue;
        }
        let (x, y) = if wide { (s.sint(100) as f64, s.sint(100) as f64) } else { (num(s), num(s)) };
        v.push(match s.below(5) {
            1 => Coordinate::new_xyz(x, y, num(s)),
            2 => Coordinate::new_xym(x, y, num(s)),
            3 => Coordinate::new_xyzm(x, y, num(s), num(s)),
            _ => c2(x, y),
        });
    }
    match s.below(8) {
        0 | 1 if !v.is_empty() => v.push(v[0]),
        2 => {
            let mut w = v.clone();
            w.reverse();
            if s.bool() && !w.is_empty() {
                w.remove(0);
            }
            v.extend(w);
            // but for one point, mostly close to the middle
            if !v.is_empty() && s.bool() {
                let m = (v.len() - 1) / 2;
                let i = if s.bool() { s.below(v.len()) } else { m - s.below(m.min(3) + 1) };
                v[i].x += s.sint(1) as f64;
            }
        }
        _ => {}
    }
    // large and small numbers, and neighbours in the format
    gv::objs::warp_points(s, &mut v.iter_mut().collect::<Vec<_>>(), true);
    v
}
fn eq2(a: &Coordinate, b: &Coordinate) -> bool {
    a.x == b.x && a.y == b.y
}
fn key(p: &Coordinate) -> (f64, f64) {
    (p.x, p.y)
}
fn cmp(a: &Coordinate, b: &Coordinate) -> i32 {
    key(a).partial_cmp(&key(b)).unwrap() as i32
}
fn sh(v: &V) -> String {
    fcs(v)
}

fn queries(s: &mut Src, c: &mut Case) -> Res {
    let a = arr(s, 8);
    let b = match s.below(4) {
        0 => a.clone(),
        1 => {
            let mut b = a.clone();
            b.reverse();
            b
        }
        2 => {
            let mut b = a.clone();
            if !b.is_empty() {
                let i = s.below(b.len());
                match s.below(3) {
                    0 => b[i].x += 1.0,
                    1 => b.truncate(i),
                    _ => b[i].z = 9.0,
                }
            }
            b
        }
        _ => arr(s, 8),
    };
    c.show(|| format!("{} / {}", sh(&a), sh(&b)));
    c.nontrivial_if(a.len() >= 2);
    // equality and order
    let e = a.len() == b.len() && a.iter().zip(&b).all(|(p, q)| eq2(p, q));
    c.lab(e, "equal");
    ck!(CoordinateArrays::equals(&a, &b) == e && CoordinateArrays::equals(&b, &a) == e, "equals, expected {}", e);
    let o = a.iter().zip(&b).map(|(p, q)| cmp(p, q)).find(|v| *v != 0).unwrap_or(a.len().cmp(&b.len()) as i32);
    ck!(CoordinateArrays::compare(&a, &b).signum() == o && CoordinateArrays::compare(&b, &a).signum() == -o, "compare {} / {}, expected {}", CoordinateArrays::compare(&a, &b), CoordinateArrays::compare(&b, &a), o);
    if a.len() == b.len() {
        let r = a.iter().zip(b.iter().rev()).all(|(p, q)| eq2(p, q));
        c.lab(r, "reversed");
        ck!(CoordinateArrays::is_equal_reversed(&a, &b) == r, "is_equal_reversed, expected {}", r);
    }
    // direction: sign of the first difference between the two ends, 1 for palindromes
    let d = a.iter().zip(a.iter().rev()).map(|(p, q)| cmp(p, q)).find(|v| *v != 0).unwrap_or(1);
    ck!(CoordinateArrays::increasing_direction(&a) == d, "increasing_direction {}, expected {}", CoordinateArrays::increasing_direction(&a), d);
    // search
    let q = if a.is_empty() || s.bool() { c2(num(s), num(s)) } else { a[s.below(a.len())] };
    let i = a.iter().position(|p| eq2(p, &q)).map_or(-1, |i| i as i32);
    ck!(CoordinateArrays::index_of(&q, &a) == i, "index_of {} is {}, expected {}", fc(&q), CoordinateArrays::index_of(&q, &a), i);
    let n = a.iter().find(|p| !b.iter().any(|r| eq2(p, r))).cloned();
    match (CoordinateArrays::pt_not_in_list(&a, &b), n) {
        (None, None) => {}
        (Some(p), Some(r)) => ck!(same_c(&p, &r), "pt_not_in_list {}, expected {}", fc(&p), fc(&r)),
        (p, r) => return Err(format!("pt_not_in_list {:?}, expected {:?}", p.map(|p| fc(&p)), r.map(|p| fc(&p)))),
    }
    let mut m: Option<Coordinate> = None;
    for p in &a {
        if m.map_or(true, |m| cmp(p, &m) < 0) {
            m = Some(*p);
        }
    }
    match (CoordinateArrays::min_coordinate(&a), m) {
        (None, None) => {}
        (Some(p), Some(r)) => ck!(same_c(&p, &r), "min_coordinate {}, expected {}", fc(&p), fc(&r)),
        (p, r) => return Err(format!("min_coordinate {:?}, expected {:?}", p.map(|p| fc(&p)), r.map(|p| fc(&p)))),
    }
    let ring = a.len() >= 4 && eq2(&a[0], &a[a.len() - 1]);
    ck!(CoordinateArrays::is_ring(&a) == ring, "is_ring, expected {}", ring);
    // dimension and measures are the largest present
    let dims = |v: &V| if v.is_empty() { (3, 0) } else {
        v.iter().fold((0, 0), |(d, m), p| {
            let (z, w) = (!p.z.is_nan(), !p.m.is_nan());
            let (pd, pm) = match (z, w) { (false, false) => (2, 0), (true, false) => (3, 0), (false, true) => (3, 1), _ => (4, 1) };
            (pd.max(d), pm.max(m))
        })
    };
    ck!((CoordinateArrays::dimension(&a), CoordinateArrays::measures(&a)) == dims(&a), "dimension {} measures {}, expected {:?}", CoordinateArrays::dimension(&a), CoordinateArrays::measures(&a), dims(&a));
    // envelope and clipping
    let env = CoordinateArrays::envelope(&a);
    ck!(env.is_null() == a.is_empty(), "envelope of {} coordinates null: {}", a.len(), env.is_null());
    for p in &a {
        ck!(env.covers_coordinate(p), "{} outside the envelope", fc(p));
    }
    if !a.is_empty() {
        let f = |g: fn(f64, f64) -> f64, h: fn(&Coordinate) -> f64| a.iter().map(h).fold(h(&a[0]), g);
        ck!(env.get_min_x() == f(f64::min, |p| p.x) && env.get_max_x() == f(f64::max, |p| p.x) && env.get_min_y() == f(f64::min, |p| p.y) && env.get_max_y() == f(f64::max, |p| p.y), "envelope {}", env);
    }
    let (p, r) = (c2(num(s), num(s)), c2(num(s), num(s)));
    let clip = if s.chance(1, 8) { Envelope::default() } else { Envelope::new_coordinates(&p, &r) };
    let w: V = a.iter().filter(|t| !clip.is_null() && inbox(t, &p, &r)).cloned().collect();
    let g = CoordinateArrays::intersection(&a, &clip);
    ck!(same_cs(&g, &w), "intersection with {}: {}, expected {}", clip, sh(&g), sh(&w));
    Ok(())
}

fn edits(s: &mut Src, c: &mut Case) -> Res {
    let mut a = arr(s, 9);
    if s.chance(1, 3) {
        for p in a.iter_mut() {
            if s.chance(1, 4) {
                match s.below(3) {
                    0 => p.x = f64::NAN,
                    1 => p.y = f64::INFINITY,
                    _ => p.y = f64::NAN,
                }
            }
        }
    }
    c.show(|| sh(&a));
    c.nontrivial_if(a.len() >= 2);
    let valid = |p: &Coordinate| p.x.is_finite() && p.y.is_finite();
    let all_valid = a.iter().all(valid);
    let rep = a.windows(2).any(|w| eq2(&w[0], &w[1]));
    c.lab(rep, "repeated");
    c.lab(!all_valid, "invalid");
    ck!(CoordinateArrays::has_repeated_points(&a) == rep, "has_repeated_points, expected {}", rep);
    ck!(CoordinateArrays::has_repeated_or_invalid_points(&a) == (rep || !all_valid), "has_repeated_or_invalid_points, expected {}", rep || !all_valid);
    let dedup = |v: &V| {
        let mut w: V = vec![];
        for p in v {
            if w.last().map_or(true, |l| !eq2(l, p)) {
                w.push(*p);
            }
        }
        w
    };
    let g = CoordinateArrays::remove_repeated_points(&a);
    ck!(same_cs(&g, &dedup(&a)), "remove_repeated_points {}, expected {}", sh(&g), sh(&dedup(&a)));
    let ok: V = a.iter().filter(|p| valid(p)).cloned().collect();
    let g = CoordinateArrays::remove_repeated_or_invalid_points(&a);
    ck!(same_cs(&g, &dedup(&ok)), "remove_repeated_or_invalid_points {}, expected {}", sh(&g), sh(&dedup(&ok)));
    ck!(!CoordinateArrays::has_repeated_or_invalid_points(&g), "repetition remains");
    let n = s.size(10);
    let g = CoordinateArrays::at_least_n_coordinates_or_nothing(n, &a);
    let w = if a.len() >= n { a.clone() } else { vec![] };
    ck!(same_cs(&g, &w), "at_least_n_coordinates_or_nothing({}) {}", n, sh(&g));
    // extraction of an inclusive range, clamped
    let (i, j) = (s.below(12), s.below(12));
    let w: V = a.iter().enumerate().filter(|(k, _)| *k >= i && *k <= j).map(|(_, p)| *p).collect();
    let g = CoordinateArrays::extract(&a, i, j);
    ck!(same_cs(&g, &w), "extract({}, {}) {}, expected {}", i, j, sh(&g), sh(&w));
    // copies
    let g = CoordinateArrays::copy_deep(&a);
    ck!(same_cs(&g, &a), "copy_deep {}", sh(&g));
    if !a.is_empty() {
        let mut dst: V = (0..12).map(|k| c2(100.0 + k as f64, 0.0)).collect();
        let (ss, ds) = (s.below(a.len()), s.below(12));
        let len = s.below((a.len() - ss).min(12 - ds) + 1);
        // what is overwritten may coincide in the plane with what replaces it
        for k in 0..len {
            if s.chance(1, 3) {
                dst[ds + k].x = a[ss + k].x;
                dst[ds + k].y = a[ss + k].y;
            }
        }
        let mut w = dst.clone();
        for k in 0..len {
            w[ds + k] = a[ss + k];
        }
        CoordinateArrays::copy_deep_to(&a, ss, &mut dst, ds, len);
        ck!(same_cs(&dst, &w), "copy_deep_to({}, {}, {}) {}, expected {}", ss, ds, len, sh(&dst), sh(&w));
    }
    Ok(())
}

fn scrolling(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + s.size(8);
    let mut a: V = (0..n).map(|i| if s.chance(1, 5) && i > 0 { c2(0.0, 0.0) } else { Coordinate::new_xyz(i as f64, num(s), i as f64) }).collect();
    if s.bool() {
        a.push(a[0]);
    }
    let ring = a.len() >= 4 && eq2(&a[0], &a[a.len() - 1]);
    c.lab(ring, "ring");
    let i = s.below(a.len());
    c.show(|| format!("index {} of {}", i, sh(&a)));
    c.nontrivial_if(i > 0);
    let rot = |v: &V, i: usize, ring: bool| -> V {
        if i == 0 {
            return v.clone();
        }
        if ring {
            let mut w = v[..v.len() - 1].to_vec();
            let k = i % w.len();
            w.rotate_left(k);
            w.push(w[0]);
            w
        } else {
            let mut w = v.clone();
            w.rotate_left(i);
            w
        }
    };
    let mut g = a.clone();
    CoordinateArrays::scroll_index(&mut g, i);
    ck!(same_cs(&g, &rot(&a, i, ring)), "scroll_index({}) {}, expected {}", i, sh(&g), sh(&rot(&a, i, ring)));
    let mut g = a.clone();
    CoordinateArrays::scroll_index_ensure_ring(&mut g, i, false);
    ck!(same_cs(&g, &rot(&a, i, false)), "scroll_index_ensure_ring({}, false) {}", i, sh(&g));
    if a.len() >= 2 {
        let mut g = a.clone();
        CoordinateArrays::scroll_index_ensure_ring(&mut g, i, true);
        ck!(same_cs(&g, &rot(&a, i, true)), "scroll_index_ensure_ring({}, true) {}, expected {}", i, sh(&g), sh(&rot(&a, i, true)));
    }
    if s.chance(1, 4) {
        // near neighbours in the plane
        let h = [1e-9, 1e-13, 5e-324][s.below(3)];
        for p in a.iter_mut() {
            p.x *= h;
            p.y *= h;
        }
    }
    let f = if s.chance(1, 4) { c2(77.0, 77.0) } else { a[i] };
    let k = a.iter().position(|p| eq2(p, &f));
    let mut g = a.clone();
    CoordinateArrays::scroll_coordinate(&mut g, &f);
    let w = match k {
        Some(k) => rot(&a, k, ring),
        None => a.clone(),
    };
    ck!(same_cs(&g, &w), "scroll_coordinate({}) {}, expected {}", fc(&f), sh(&g), sh(&w));
    Ok(())
}

fn consistency(s: &mut Src, c: &mut Case) -> Res {
    let a = arr(s, 6);
    c.show(|| sh(&a));
    c.nontrivial_if(a.len() >= 2);
    let mut g = a.clone();
    CoordinateArrays::enforce_consistency(&mut g);
    ck!(g.len() == a.len(), "enforce_consistency changed the length");
    for (p, q) in a.iter().zip(&g) {
        ck!(eq2(p, q), "enforce_consistency moved {} to {}", fc(p), fc(q));
        ck!(p.z.is_nan() || q.z == p.z, "enforce_consistency lost the z of {}: {}", fc(p), fc(q));
        ck!(p.m.is_nan() || q.m == p.m, "enforce_consistency lost the m of {}: {}", fc(p), fc(q));
    }
    let has_m = a.iter().any(|p| !p.m.is_nan());
    for q in &g {
        if has_m && a.len() > 1 {
            ck!(!q.m.is_nan(), "{} has no measure although others do", fc(q));
        }
    }
    if g.len() > 1 {
        let mut h = g.clone();
        CoordinateArrays::enforce_consistency(&mut h);
        ck!(h.iter().zip(&g).all(|(p, q)| eq2(p, q) && (q.m.is_nan() || p.m == q.m) && (q.z.is_nan() || p.z == q.z)), "enforcing twice changes {} to {}", sh(&g), sh(&h));
    }
    let (d, m) = [(2, 0), (3, 0), (3, 1), (4, 1)][s.below(4)];
    let g = CoordinateArrays::enforce_consistency_dim_measures(&a, d, m);
    ck!(g.len() == a.len(), "the length changed");
    for (p, q) in a.iter().zip(&g) {
        ck!(eq2(p, q), "enforce_consistency_dim_measures moved {} to {}", fc(p), fc(q));
        ck!(if d - m == 2 { q.z.is_nan() } else { same(q.z, p.z) }, "({}, {}) z of {} became {}", d, m, fc(p), fc(q));
        ck!(if m == 0 { q.m.is_nan() } else if p.m.is_nan() { !q.m.is_nan() } else { q.m == p.m }, "({}, {}) m of {} became {}", d, m, fc(p), fc(q));
    }
    Ok(())
}

fn large_queries(s: &mut Src, c: &mut Case) -> Res {
    s.big = 5_000;
    queries(s, c)
}
fn large_edits(s: &mut Src, c: &mut Case) -> Res {
    s.big = 5_000;
    edits(s, c)
}
fn large_scrolling(s: &mut Src, c: &mut Case) -> Res {
    s.big = 70_000;
    scrolling(s, c)
}

static SUBS: &[Sub] = &[
    Sub { name: "queries", rule: "at least two coordinates", quick: 250_000, f: queries },
    Sub { name: "edits", rule: "at least two coordinates", quick: 250_000, f: edits },
    Sub { name: "scrolling", rule: "index after the start", quick: 250_000, f: scrolling },
    Sub { name: "consistency", rule: "at least two coordinates", quick: 200_000, f: consistency },
    Sub { name: "large queries", rule: "at least two coordinates", quick: 60, f: large_queries },
    Sub { name: "large edits", rule: "at least two coordinates", quick: 60, f: large_edits },
    Sub { name: "large scrolling", rule: "index after the start", quick: 60, f: large_scrolling },
];
fn main() {
    gv::main(
        "P16",
        "coordinate arrays with repetitions, closed, palindromic, mixed-dimension and with invalid members; oracle: direct list model",
        &["scrolling of rings needs at least two coordinates; extraction ranges are inclusive and clamped"],
        SUBS,
    );
}
