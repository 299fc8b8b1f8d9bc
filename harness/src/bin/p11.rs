//! P11: envelopes behave as closed axis-parallel boxes (with a null box).
use gv::g::*;
use gv::*;

/// model: None is the null envelope; (minx, maxx, miny, maxy)
type M = Option<(f64, f64, f64, f64)>;

fn st(e: &Envelope) -> M {
    if e.is_null() { None } else { Some((e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y())) }
}
fn hull(m: M, x: f64, y: f64) -> M {
    Some(match m {
        None => (x, x, y, y),
        Some((a, b, c, d)) => (a.min(x), b.max(x), c.min(y), d.max(y)),
    })
}
fn join(m: M, o: M) -> M {
    match o {
        None => m,
        Some((a, b, c, d)) => hull(hull(m, a, c), b, d),
    }
}
fn meet(m: M, o: M) -> M {
    let (p, q) = (m?, o?);
    let r = (p.0.max(q.0), p.1.min(q.1), p.2.max(q.2), p.3.min(q.3));
    if r.0 <= r.1 && r.2 <= r.3 { Some(r) } else { None }
}
fn covers(m: M, o: M) -> bool {
    match (m, o) {
        (Some(p), Some(q)) => p.0 <= q.0 && q.1 <= p.1 && p.2 <= q.2 && q.3 <= p.3,
        _ => false,
    }
}
fn has(m: M, x: f64, y: f64) -> bool {
    m.map_or(false, |p| p.0 <= x && x <= p.1 && p.2 <= y && y <= p.3)
}
fn bx(a: &Coordinate, b: &Coordinate) -> M {
    Some((a.x.min(b.x), a.x.max(b.x), a.y.min(b.y), a.y.max(b.y)))
}

fn num(s: &mut Src, r: Reg) -> f64 {
    if s.chance(1, 10) {
        return [0.0, -0.0, 1.0, -1.0][s.below(4)];
    }
    match r {
        // with unbounded ordinates
        Reg::Grid { bits: 1, k: 0 } if s.chance(1, 4) => [f64::INFINITY, f64::NEG_INFINITY][s.below(2)],
        _ => r.num(s),
    }
}
fn pt(s: &mut Src, r: Reg) -> Coordinate {
    let x = num(s, r);
    c2(x, num(s, r))
}
fn reg(s: &mut Src) -> Reg {
    match s.below(16) {
        0..=7 => Reg::Small,
        // magnitudes whose squares overflow or vanish
        9 | 10 => Reg::Table(s.below(5)),
        8 => Reg::Real(2f64.powi(s.sint(900) as i32)),
        _ => Reg::any(s),
    }
}

/// an envelope built by some constructor, together with its model
fn make(s: &mut Src, r: Reg) -> (Envelope, M) {
    match s.below(7) {
        0 => {
            let e = Envelope::default();
            (e, None)
        }
        1 => {
            let p = pt(s, r);
            (Envelope::new_coordinate(&p), bx(&p, &p))
        }
        2 => {
            let (p, q) = (pt(s, r), pt(s, r));
            (Envelope::new_coordinates(&p, &q), bx(&p, &q))
        }
        3 | 4 => {
            let (p, q) = (pt(s, r), pt(s, r));
            (Envelope::new_xy(p.x, q.x, p.y, q.y), bx(&p, &q))
        }
        5 => {
            let (p, q) = (pt(s, r), pt(s, r));
            let e = Envelope::new_coordinates(&p, &q);
            (Envelope::new_envelope(&e), bx(&p, &q))
        }
        _ => {
            let n = s.below(4);
            let mut e = Envelope::default();
            let mut m = None;
            for _ in 0..n {
                let p = pt(s, r);
                e.expand_to_include_coordinate(&p);
                m = hull(m, p.x, p.y);
            }
            (e, m)
        }
    }
}

fn observe(e: &Envelope, m: M, when: &str) -> Res {
    ck!(e.is_null() == m.is_none(), "{}: is_null {} but the model is {:?}", when, e.is_null(), m);
    ck!(st(e) == m, "{}: {:?}, model {:?}", when, st(e), m);
    let (w, h) = m.map_or((0.0, 0.0), |p| (p.1 - p.0, p.3 - p.2));
    ck!(e.get_width() == w && e.get_height() == h, "{}: width {:?} height {:?}, model {:?}", when, e.get_width(), e.get_height(), m);
    ck!(same(e.get_area(), w * h) && e.min_extent() == w.min(h) && e.max_extent() == w.max(h),
        "{}: area {:?} min_extent {:?} max_extent {:?}, model {:?}", when, e.get_area(), e.min_extent(), e.max_extent(), m);
    let d = w.hypot(h);
    ck!((e.get_diameter() - d).abs() <= 4.0 * ulp(d), "{}: diameter {:?}, model {:?}", when, e.get_diameter(), m);
    match (e.centre(), m) {
        (None, None) => {}
        (Some(c), Some(p)) => {
            let (x, y) = ((p.0 + p.1) / 2.0, (p.2 + p.3) / 2.0);
            ck!((c.x - x).abs() <= ulp(x) + f64::MIN_POSITIVE && (c.y - y).abs() <= ulp(y) + f64::MIN_POSITIVE, "{}: centre {} of {:?}", when, fc(&c), m);
        }
        (c, _) => return Err(format!("{}: centre {:?} of {:?}", when, c.map(|c| fc(&c)), m)),
    }
    Ok(())
}

fn history(s: &mut Src, c: &mut Case) -> Res {
    let r = reg(s);
    let (mut e, mut m) = make(s, r);
    observe(&e, m, "constructed")?;
    let n = 1 + s.size(12);
    let mut log = vec![format!("start {:?}", m)];
    let mut changes = 0;
    let mut res = Ok(());
    for _ in 0..n {
        let before = m;
        let what;
        match s.below(12) {
            0 | 1 => {
                let p = pt(s, r);
                what = format!("expand_to_include_coordinate{}", fc(&p));
                e.expand_to_include_coordinate(&p);
                m = hull(m, p.x, p.y);
            }
            2 => {
                let p = pt(s, r);
                what = format!("expand_to_include_xy{}", fc(&p));
                e.expand_to_include_xy(p.x, p.y);
                m = hull(m, p.x, p.y);
            }
            3 | 4 => {
                let (o, om) = make(s, r);
                what = format!("expand_to_include_envelope {:?}", om);
                e.expand_to_include_envelope(&o);
                m = join(m, om);
            }
            5 => {
                let d = num(s, r);
                what = format!("expand_by({:?})", d);
                e.expand_by(d);
                m = m.and_then(|p| {
                    let q = (p.0 - d, p.1 + d, p.2 - d, p.3 + d);
                    if q.0 > q.1 || q.2 > q.3 { None } else { Some(q) }
                });
            }
            6 => {
                let (d, f) = (num(s, r), num(s, r));
                what = format!("expand_by_delta_xy({:?},{:?})", d, f);
                e.expand_by_delta_xy(d, f);
                m = m.and_then(|p| {
                    let q = (p.0 - d, p.1 + d, p.2 - f, p.3 + f);
                    if q.0 > q.1 || q.2 > q.3 { None } else { Some(q) }
                });
            }
            7 => {
                let (d, f) = (num(s, r), num(s, r));
                what = format!("translate({:?},{:?})", d, f);
                e.translate(d, f);
                m = m.map(|p| (p.0 + d, p.1 + d, p.2 + f, p.3 + f));
            }
            8 => {
                let (o, om) = make(s, r);
                what = format!("intersection_envelope {:?}", om);
                e = e.intersection_envelope(&o);
                m = meet(m, om);
            }
            9 => {
                what = "set_to_null".to_string();
                e.set_to_null();
                m = None;
            }
            10 => {
                let (o, om) = make(s, r);
                what = format!("init {:?}", om);
                e.init(&o);
                m = om;
            }
            _ => {
                what = "copy".to_string();
                let mut q = e.copy();
                // the copy is independent
                std::mem::swap(&mut q, &mut e);
                q.expand_to_include_xy(1e9, 1e9);
            }
        }
        if m != before {
            changes += 1;
        }
        log.push(what.clone());
        res = observe(&e, m, &what);
        if res.is_err() {
            break;
        }
    }
    c.show(|| log.join("; "));
    c.nontrivial_if(changes >= 2);
    res
}

fn relations(s: &mut Src, c: &mut Case) -> Res {
    let r = if s.chance(1, 10) { Reg::Grid { bits: 1, k: 0 } } else { reg(s) };
    let (e, m) = make(s, r);
    let (mut f, mut n) = make(s, r);
    if let (Some(p), true) = (m, s.chance(1, 3)) {
        // nested, touching or equal boxes
        let k = s.below(4);
        let a = c2([p.0, p.1, p.0, p.0][k], [p.2, p.3, p.2, p.3][k]);
        let b = if s.bool() { pt(s, r) } else { c2(p.1, p.3) };
        f = Envelope::new_coordinates(&a, &b);
        n = bx(&a, &b);
    }
    let p = match (m, s.below(3)) {
        (Some(q), 0) => c2(if s.bool() { q.0 } else { q.1 }, if s.bool() { q.2 } else { q.3 }),
        _ => pt(s, r),
    };
    c.show(|| format!("{:?} {:?} point {}", m, n, fc(&p)));
    let i = meet(m, n);
    c.nontrivial_if(m.is_some() && n.is_some());
    c.lab(i.is_some(), "meet");
    c.lab(covers(m, n) || covers(n, m), "nested");
    let b = i.is_some();
    ck!(e.intersects_envelope(&f) == b && f.intersects_envelope(&e) == b, "intersects_envelope: {} / {}, expected {}", e.intersects_envelope(&f), f.intersects_envelope(&e), b);
    ck!(e.overlaps_envelope(&f) == b && e.disjoint_envelope(&f) != b, "overlaps {} disjoint {} while intersecting is {}", e.overlaps_envelope(&f), e.disjoint_envelope(&f), b);
    ck!(st(&e.intersection_envelope(&f)) == i && st(&f.intersection_envelope(&e)) == i, "intersection {:?} / {:?}, expected {:?}", st(&e.intersection_envelope(&f)), st(&f.intersection_envelope(&e)), i);
    let v = covers(m, n);
    ck!(e.covers_envelope(&f) == v && e.contains_envelope(&f) == v, "covers {} contains {}, expected {}", e.covers_envelope(&f), e.contains_envelope(&f), v);
    ck!(e.contains_properly(&f) == (v && m != n), "contains_properly {}, covers {} equal {}", e.contains_properly(&f), v, m == n);
    ck!(e.equals(&f) == (m == n) && f.equals(&e) == (m == n), "equals {} / {} for {:?} and {:?}", e.equals(&f), f.equals(&e), m, n);
    ck!(e.equals(&e) && e.equals(&e.copy()), "not equal to itself or its copy");
    let h = has(m, p.x, p.y);
    for (k, g) in [
        ("covers_xy", e.covers_xy(p.x, p.y)),
        ("covers_coordinate", e.covers_coordinate(&p)),
        ("contains_xy", e.contains_xy(p.x, p.y)),
        ("contains_coordinate", e.contains_coordinate(&p)),
        ("intersects_xy", e.intersects_xy(p.x, p.y)),
        ("intersects_coordinate", e.intersects_coordinate(&p)),
        ("overlaps_xy", e.overlaps_xy(p.x, p.y)),
        ("overlaps_coordinate", e.overlaps_coordinate(&p)),
    ] {
        ck!(g == h, "{} is {}, expected {}", k, g, h);
    }
    // hull of both
    let mut u = e.copy();
    u.expand_to_include_envelope(&f);
    ck!(st(&u) == join(m, n), "union {:?}, expected {:?}", st(&u), join(m, n));
    // distance
    let finite = |m: M| m.map_or(true, |p| [p.0, p.1, p.2, p.3].iter().all(|v| v.is_finite()));
    c.lab(!finite(m) || !finite(n), "unbounded");
    if let (Some(a), Some(d), true) = (m, n, finite(m) && finite(n)) {
        let gap = |l0: f64, h0: f64, l1: f64, h1: f64| if h0 < l1 { &Dy::f(l1) - &Dy::f(h0) } else if h1 < l0 { &Dy::f(l0) - &Dy::f(h1) } else { Dy::zero() };
        let gx = gap(a.0, a.1, d.0, d.1);
        let gy = gap(a.2, a.3, d.2, d.3);
        let q = Rt::dy(&gx.sq() + &gy.sq());
        for v in [e.distance_envelope(&f), f.distance_envelope(&e)] {
            ck!((v == 0.0) == b, "distance {:?} of {} boxes", v, if b { "meeting" } else { "disjoint" });
            ck!(near_sqrt(v, &q, 4e-16 * v + 4.0 * f64::MIN_POSITIVE), "distance {:?}, exactly sqrt of {:?}", v, q.approx());
        }
    }
    // ordering
    let key = |m: M| m.map(|p| [p.0, p.2, p.1, p.3]);
    let o = match (key(m), key(n)) {
        (None, None) => 0,
        (None, _) => -1,
        (_, None) => 1,
        (Some(a), Some(b)) => a.iter().zip(b.iter()).map(|(x, y)| if x < y { -1 } else if x > y { 1 } else { 0 }).find(|v| *v != 0).unwrap_or(0),
    };
    ck!(e.compare_to_envelope(&f).signum() == o && f.compare_to_envelope(&e).signum() == -o, "compare {} / {}, expected {}", e.compare_to_envelope(&f), f.compare_to_envelope(&e), o);
    Ok(())
}

fn segments(s: &mut Src, c: &mut Case) -> Res {
    // static box tests on segment extents
    let r = reg(s);
    let (a, b, p, q) = (pt(s, r), pt(s, r), pt(s, r), pt(s, r));
    let (a, b) = if s.chance(1, 8) { (a, a) } else { (a, b) };
    let p = match s.below(4) {
        0 => c2(a.x, b.y),
        1 => c2(b.x, p.y),
        _ => p,
    };
    c.show(|| format!("{} {} / {} {}", fc(&a), fc(&b), fc(&p), fc(&q)));
    let (m, n) = (bx(&a, &b), bx(&p, &q));
    let w = meet(m, n).is_some();
    c.nontrivial_if(!a.equals_2d(&b));
    c.lab(w, "meet");
    for (x, y) in [(&a, &b), (&b, &a)] {
        let g = Envelope::intersects_3(x, y, &p);
        ck!(g == has(m, p.x, p.y), "point {} in the box of {} {}: {}", fc(&p), fc(x), fc(y), g);
        for (u, v) in [(&p, &q), (&q, &p)] {
            let g = Envelope::intersects_4(x, y, u, v);
            let k = Envelope::intersects_4(u, v, x, y);
            ck!(g == w && k == w, "boxes intersect: {} / {}, expected {}", g, k, w);
        }
        let e = Envelope::new_coordinates(&p, &q);
        ck!(e.intersects_coordinate_ab(x, y) == w, "intersects_coordinate_ab {}, expected {}", e.intersects_coordinate_ab(x, y), w);
        ck!(!Envelope::default().intersects_coordinate_ab(x, y), "the null envelope intersects a segment");
    }
    Ok(())
}

fn large_history(s: &mut Src, c: &mut Case) -> Res {
    s.big = 5_000;
    history(s, c)
}

static SUBS: &[Sub] = &[
    Sub { name: "history", rule: "at least two operations changed the envelope", quick: 300_000, f: history },
    Sub { name: "relations", rule: "both envelopes non-null", quick: 500_000, f: relations },
    Sub { name: "segments", rule: "first segment not a point", quick: 400_000, f: segments },
    Sub { name: "long history", rule: "at least two operations changed the envelope", quick: 60, f: large_history },
];
fn main() {
    gv::main(
        "P11",
        "histories of envelope operations and pairs of envelopes (null, point, flat, nested, touching) over integer and real coordinates; oracle: interval model with a null element",
        &["no NaN ordinates; infinite ones only in the relations, where nothing is subtracted"],
        SUBS,
    );
}
