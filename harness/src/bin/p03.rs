//! P03: segment / segment and point / segment intersection classification.
use gv::g::*;
use gv::*;

fn o(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> i32 {
    orient(a.x, a.y, b.x, b.y, c.x, c.y)
}
fn inbox(p: &Coordinate, a: &Coordinate, b: &Coordinate) -> bool {
    p.x >= a.x.min(b.x) && p.x <= a.x.max(b.x) && p.y >= a.y.min(b.y) && p.y <= a.y.max(b.y)
}
fn lt(a: &Coordinate, b: &Coordinate) -> bool {
    a.x < b.x || (a.x == b.x && a.y < b.y)
}
/// exact classification: 0 disjoint, 1 single point, 2 a segment in common
fn classify(a: &Coordinate, b: &Coordinate, c: &Coordinate, d: &Coordinate) -> i32 {
    let (o1, o2, o3, o4) = (o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b));
    if o1 == 0 && o2 == 0 && o3 == 0 && o4 == 0 {
        // all on one line (or two distinct points): order along the line
        let (a, b) = if lt(b, a) { (b, a) } else { (a, b) };
        let (c, d) = if lt(d, c) { (d, c) } else { (c, d) };
        let lo = if lt(a, c) { c } else { a };
        let hi = if lt(b, d) { b } else { d };
        if lt(hi, lo) {
            return 0;
        }
        return if lt(lo, hi) { 2 } else { 1 };
    }
    let on = (o1 == 0 && inbox(c, a, b)) || (o2 == 0 && inbox(d, a, b)) || (o3 == 0 && inbox(a, c, d)) || (o4 == 0 && inbox(b, c, d));
    if on || (o1 * o2 < 0 && o3 * o4 < 0) { 1 } else { 0 }
}

fn seg2(s: &mut Src, r: Reg, a: &Coordinate, b: &Coordinate) -> (Coordinate, Coordinate) {
    let c = near_line(s, r, a, b);
    let d = match s.below(4) {
        0 => near_line(s, r, a, b),
        1 => r.pt(s),
        2 => {
            // reflect through a point of a-b: a crossing close to it
            let m = near_line(s, r, a, b);
            c2(r.snap(2.0 * m.x - c.x), r.snap(2.0 * m.y - c.y))
        }
        _ => {
            // parallel translate
            c2(r.snap(c.x + (b.x - a.x)), r.snap(c.y + (b.y - a.y)))
        }
    };
    (c, d)
}

fn codes(p: &[Coordinate; 4]) -> (i32, bool) {
    let mut li = RobustLineIntersector::default();
    let code = li.compute_intersect(&p[0], &p[1], &p[2], &p[3]);
    let mut li = RobustLineIntersector::default();
    li.compute_intersection_4(&p[0], &p[1], &p[2], &p[3]);
    (code, li.has_intersection())
}

fn pair(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::exact(s);
    let a = r.pt(s);
    let b = if s.chance(1, 24) { a } else { r.pt(s) };
    let (p, q) = seg2(s, r, &a, &b);
    c.show(|| format!("{:?} {} {} x {} {}", r, fc(&a), fc(&b), fc(&p), fc(&q)));
    let want = classify(&a, &b, &p, &q);
    let degen = a.equals_2d(&b) || p.equals_2d(&q);
    let touching = o(&a, &b, &p) == 0 || o(&a, &b, &q) == 0 || o(&p, &q, &a) == 0 || o(&p, &q, &b) == 0;
    c.lab(want == 0, "disjoint");
    c.lab(want == 1 && touching, "touch in a point");
    c.lab(want == 1 && !touching, "cross");
    c.lab(want == 2, "overlap");
    c.lab(degen, "degenerate segment");
    c.nontrivial_if(want > 0 || touching);
    let all = [
        [a, b, p, q], [b, a, p, q], [a, b, q, p], [b, a, q, p],
        [p, q, a, b], [q, p, a, b], [p, q, b, a], [q, p, b, a],
    ];
    for v in &all {
        let (code, has) = codes(v);
        ck!(has == (want > 0), "has_intersection = {} for {} - {} and {} - {}, exactly {}", has, fc(&v[0]), fc(&v[1]), fc(&v[2]), fc(&v[3]), want > 0);
        ck!((code > 0) == has && (0..=2).contains(&code), "code {} but has_intersection {}", code, has);
        if !degen {
            ck!(code == want, "code {} for {} - {} and {} - {}, exactly {}", code, fc(&v[0]), fc(&v[1]), fc(&v[2]), fc(&v[3]), want);
        }
    }
    Ok(())
}

fn point(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::exact(s);
    let (a, b, p) = triple(s, r);
    c.show(|| format!("{:?} p={} on {} {}", r, fc(&p), fc(&a), fc(&b)));
    let want = o(&a, &b, &p) == 0 && inbox(&p, &a, &b);
    c.lab(want, "on the segment");
    c.nontrivial_if(o(&a, &b, &p) == 0 && !p.equals_2d(&a) && !p.equals_2d(&b));
    for (x, y) in [(a, b), (b, a)] {
        let mut li = RobustLineIntersector::default();
        li.compute_intersection_3(&p, &x, &y);
        ck!(li.has_intersection() == want, "point {} on segment {} - {}: {}, exactly {}", fc(&p), fc(&x), fc(&y), li.has_intersection(), want);
    }
    Ok(())
}

/// one intersector used for a history of calls answers like a fresh one
fn reuse(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::exact(s);
    let mut li = RobustLineIntersector::default();
    let n = 2 + s.below(6);
    let mut hits = 0;
    // queries in a row often share points
    let mut last: Vec<Coordinate> = vec![];
    for k in 0..n {
        let keep = |s: &mut Src, p: Coordinate, last: &Vec<Coordinate>| if !last.is_empty() && s.chance(1, 4) { last[s.below(last.len())] } else { p };
        let (a, b) = (r.pt(s), r.pt(s));
        let (a, b) = (keep(s, a, &last), keep(s, b, &last));
        if s.chance(1, 3) {
            let p = near_line(s, r, &a, &b);
            c.show(|| format!("point {} on {} {}", fc(&p), fc(&a), fc(&b)));
            li.compute_intersection_3(&p, &a, &b);
            let w = o(&a, &b, &p) == 0 && inbox(&p, &a, &b);
            ck!(li.has_intersection() == w, "call {}: point test answers {} instead of {}", k, li.has_intersection(), w);
            hits += w as i32;
        } else {
            let (p, q) = seg2(s, r, &a, &b);
            let (p, q) = (keep(s, p, &last), keep(s, q, &last));
            last = vec![a, b, p, q];
            c.show(|| format!("segments {} {} x {} {}", fc(&a), fc(&b), fc(&p), fc(&q)));
            li.compute_intersection_4(&a, &b, &p, &q);
            let w = classify(&a, &b, &p, &q) > 0;
            ck!(li.has_intersection() == w, "call {}: segment test answers {} instead of {}", k, li.has_intersection(), w);
            let mut fresh = RobustLineIntersector::default();
            let code = fresh.compute_intersect(&a, &b, &p, &q);
            let mut fresh = RobustLineIntersector::default();
            fresh.compute_intersection_4(&a, &b, &p, &q);
            for i in 0..code as usize {
                ck!(same_c(&fresh.get_intersection(i), &li.get_intersection(i)),
                    "call {}: point {} is {} on a used intersector, {} on a fresh one", k, i, fc(&li.get_intersection(i)), fc(&fresh.get_intersection(i)));
            }
            hits += w as i32;
        }
    }
    c.nontrivial_if(hits > 0 && hits < n as i32);
    Ok(())
}

static SUBS: &[Sub] = &[
    Sub { name: "pair", rule: "segments meet, or an endpoint lies on the other line", quick: 300_000, f: pair },
    Sub { name: "point", rule: "collinear and not an endpoint", quick: 300_000, f: point },
    Sub { name: "reuse", rule: "history with both hits and misses", quick: 100_000, f: reuse },
];
fn main() {
    gv::main(
        "P03",
        "segment pairs on exactly representable grids biased to touching, overlapping, parallel and degenerate configurations, in all eight argument orders; oracle: exact rational classification",
        &["coordinate differences exactly representable; for a zero-length segment only the existence of an intersection is asserted"],
        SUBS,
    );
}
