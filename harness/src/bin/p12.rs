//! P12: octagonal envelopes.
use gv::g::*;
use gv::*;

/// model: extents of x, y, x+y, x-y
type M = Option<[f64; 8]>;

fn st(e: &OctagonalEnvelope) -> M {
    if e.is_null() {
        None
    } else {
        Some([e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y(), e.get_min_a(), e.get_max_a(), e.get_min_b(), e.get_max_b()])
    }
}
fn of(p: &Coordinate) -> M {
    let (a, b) = (p.x + p.y, p.x - p.y);
    Some([p.x, p.x, p.y, p.y, a, a, b, b])
}
fn join(m: M, o: M) -> M {
    match (m, o) {
        (None, o) => o,
        (m, None) => m,
        (Some(p), Some(q)) => {
            let mut r = [0.0; 8];
            for i in 0..4 {
                r[2 * i] = p[2 * i].min(q[2 * i]);
                r[2 * i + 1] = p[2 * i + 1].max(q[2 * i + 1]);
            }
            Some(r)
        }
    }
}
fn all(v: &[Coordinate]) -> M {
    v.iter().fold(None, |m, p| join(m, of(p)))
}
fn pts(s: &mut Src, r: Rg, max: usize) -> Vec<Coordinate> {
    let n = s.size(max + 1);
    (0..n).map(|_| r.pt(s)).collect()
}
fn line(v: &[Coordinate]) -> CoordinateArraySequence {
    CoordinateArraySequence::new_with_coordinates_dimension_measures(v.to_vec(), 2, 0)
}
fn corners(a: &Coordinate, b: &Coordinate) -> [Coordinate; 4] {
    [c2(a.x, a.y), c2(a.x, b.y), c2(b.x, a.y), c2(b.x, b.y)]
}

/// ordinates of a regime, the axes scaled apart
#[derive(Clone, Copy)]
struct Rg(Reg, f64, f64);
impl Rg {
    fn pt(&self, s: &mut Src) -> Coordinate {
        let p = self.0.pt(s);
        c2(p.x * self.1, p.y * self.2)
    }
    fn num(&self, s: &mut Src) -> f64 {
        self.0.num(s) * if s.bool() { self.1 } else { self.2 }
    }
}
fn reg(s: &mut Src) -> Rg {
    let k = if s.chance(1, 4) { (2f64.powi(s.sint(60) as i32), 2f64.powi(s.sint(60) as i32)) } else { (1.0, 1.0) };
    let r = match s.below(16) {
        0..=7 => Reg::Small,
        8 => Reg::Real(2f64.powi(s.sint(900) as i32)),
        9 => Reg::Table([0, 1, 3, 4][s.below(4)]),
        _ => Reg::any(s),
    };
    if matches!(r, Reg::Real(m) if m > 1e200) { Rg(r, 1.0, 1.0) } else { Rg(r, k.0, k.1) }
}
fn make(s: &mut Src, r: Rg) -> (OctagonalEnvelope, M) {
    match s.below(8) {
        0 => (OctagonalEnvelope::default(), None),
        1 => {
            let p = r.pt(s);
            (OctagonalEnvelope::new_with_coordinate(&p), of(&p))
        }
        2 => {
            let (p, q) = (r.pt(s), r.pt(s));
            (OctagonalEnvelope::new_with_coordinates(&p, &q), all(&[p, q]))
        }
        3 => {
            if s.chance(1, 6) {
                (OctagonalEnvelope::new_with_envelope(&Envelope::default()), None)
            } else {
                let (p, q) = (r.pt(s), r.pt(s));
                (OctagonalEnvelope::new_with_envelope(&Envelope::new_coordinates(&p, &q)), all(&corners(&p, &q)))
            }
        }
        4 => {
            let v = pts(s, r, 5);
            let mut e = OctagonalEnvelope::default();
            for p in &v {
                e.expand_to_include_coordinate(p);
            }
            (OctagonalEnvelope::new_with_octagonal_envelope(&e), all(&v))
        }
        _ => {
            let mut v = pts(s, r, 5);
            if v.len() == 1 {
                let p = v[0];
                v.push(p);
            }
            (OctagonalEnvelope::new_with_line_string(&LineString::new_from_coordinate_sequence(line(&v))), all(&v))
        }
    }
}

fn observe(e: &OctagonalEnvelope, m: M, when: &str) -> Res {
    ck!(e.is_null() == m.is_none(), "{}: is_null {}, model {:?}", when, e.is_null(), m);
    ck!(st(e) == m, "{}: {:?}, model {:?}", when, st(e), m);
    ck!(e.is_valid(), "{}: invalid", when);
    Ok(())
}

fn history(s: &mut Src, c: &mut Case) -> Res {
    let r = reg(s);
    let (mut e, mut m) = make(s, r);
    let mut log = vec![format!("start {:?}", m)];
    observe(&e, m, "constructed")?;
    let n = 1 + s.size(10);
    let mut changes = 0;
    let mut res = Ok(());
    for _ in 0..n {
        let before = m;
        let what;
        match s.below(8) {
            0 => {
                let p = r.pt(s);
                what = format!("expand_to_include_coordinate{}", fc(&p));
                e.expand_to_include_coordinate(&p);
                m = join(m, of(&p));
            }
            1 => {
                let p = r.pt(s);
                what = format!("expand_to_include_xy{}", fc(&p));
                e.expand_to_include_xy(p.x, p.y);
                m = join(m, of(&p));
            }
            2 => {
                let v = pts(s, r, 4);
                what = format!("expand_to_include_coordinate_array_sequence{}", fcs(&v));
                e.expand_to_include_coordinate_array_sequence(&line(&v));
                m = join(m, all(&v));
            }
            3 => {
                let (o, om) = make(s, r);
                what = format!("expand_to_include_octagonal_envelope {:?}", om);
                e.expand_to_include_octagonal_envelope(&o);
                m = join(m, om);
            }
            4 => {
                if s.chance(1, 5) {
                    what = "expand_to_include_envelope null".to_string();
                    e.expand_to_include_envelope(&Envelope::default());
                } else {
                    let (p, q) = (r.pt(s), r.pt(s));
                    what = format!("expand_to_include_envelope {} {}", fc(&p), fc(&q));
                    e.expand_to_include_envelope(&Envelope::new_coordinates(&p, &q));
                    m = join(m, all(&corners(&p, &q)));
                }
            }
            5 | 6 => {
                let d = if s.bool() { r.num(s).abs() } else { r.num(s) };
                what = format!("expand_by_distance({:?})", d);
                e.expand_by_distance(d);
                // the diagonal extents move by sqrt(2) times as much; allow for rounding
                let k = std::f64::consts::SQRT_2 * d;
                let got = st(&e);
                if let Some(p) = m {
                    let q = [p[0] - d, p[1] + d, p[2] - d, p[3] + d, p[4] - k, p[5] + k, p[6] - k, p[7] + k];
                    let tol = |i: usize| 4.0 * (ulp(q[i]) + ulp(k) + ulp(p[i]));
                    let slack = (0..4).map(|i| (q[2 * i + 1] - q[2 * i]) + tol(2 * i) + tol(2 * i + 1)).fold(f64::INFINITY, f64::min);
                    let firm = (0..4).map(|i| (q[2 * i + 1] - q[2 * i]) - tol(2 * i) - tol(2 * i + 1)).fold(f64::INFINITY, f64::min);
                    match got {
                        None => ck!(firm < 0.0, "{}: collapsed, expected {:?}", what, q),
                        Some(g) => {
                            ck!(slack >= 0.0, "{}: {:?} although nothing is left of {:?}", what, g, p);
                            for i in 0..8 {
                                ck!((g[i] - q[i]).abs() <= tol(i), "{}: extents {:?}, expected {:?}", what, g, q);
                            }
                            for i in 0..4 {
                                // the axis extents are plain sums
                                ck!(g[i] == q[i], "{}: extents {:?}, expected {:?}", what, g, q);
                            }
                        }
                    }
                } else {
                    ck!(got.is_none(), "{}: the null envelope became {:?}", what, got);
                }
                m = got;
            }
            _ => {
                what = "set_to_null".to_string();
                e.set_to_null();
                m = None;
            }
        }
        if m != before {
            changes += 1;
        }
        log.push(what.clone());
        res = observe(&e, m, &what);
        if res.is_err() {
            break;
        }
    }
    c.show(|| log.join("; "));
    c.nontrivial_if(changes >= 2);
    res
}

fn relations(s: &mut Src, c: &mut Case) -> Res {
    let r = reg(s);
    let (mut e, m) = make(s, r);
    let (f, n) = make(s, r);
    let p = r.pt(s);
    let join_first = s.chance(1, 3);
    let m = if join_first {
        e.expand_to_include_octagonal_envelope(&f);
        join(m, n)
    } else {
        m
    };
    c.show(|| format!("{:?} / {:?} / {}", m, n, fc(&p)));
    c.nontrivial_if(m.is_some() && n.is_some());
    ck!(st(&e) == m && st(&f) == n, "{:?} {:?}, model {:?} {:?}", st(&e), st(&f), m, n);
    let (meet, cov) = match (m, n) {
        (Some(a), Some(b)) => (
            (0..4).all(|i| a[2 * i] <= b[2 * i + 1] && b[2 * i] <= a[2 * i + 1]),
            (0..4).all(|i| a[2 * i] <= b[2 * i] && b[2 * i + 1] <= a[2 * i + 1]),
        ),
        _ => (false, false),
    };
    c.lab(meet, "meet");
    c.lab(cov, "contain");
    ck!(e.intersects_octagonal_envelope(&f) == meet && f.intersects_octagonal_envelope(&e) == meet,
        "intersects {} / {}, expected {}", e.intersects_octagonal_envelope(&f), f.intersects_octagonal_envelope(&e), meet);
    ck!(e.contains_octagonal_envelope(&f) == cov, "contains {}, expected {}", e.contains_octagonal_envelope(&f), cov);
    let q = of(&p).unwrap();
    let has = m.map_or(false, |a| (0..4).all(|i| a[2 * i] <= q[2 * i] && q[2 * i + 1] <= a[2 * i + 1]));
    c.lab(has, "point inside");
    ck!(e.intersects_coordinate(&p) == has, "intersects_coordinate {}, expected {}", e.intersects_coordinate(&p), has);
    // whatever was included is inside
    let v = pts(s, r, 6);
    let mut k = OctagonalEnvelope::default();
    k.expand_to_include_coordinate_array_sequence(&line(&v));
    for x in &v {
        ck!(k.intersects_coordinate(x) && k.contains_octagonal_envelope(&OctagonalEnvelope::new_with_coordinate(x)), "{} was included but is outside", fc(x));
    }
    // each boundary can be attained separately: a point just off one of the eight sides
    if let Some(a) = m {
        if r.0 == Reg::Small && r.1 == 1.0 && r.2 == 1.0 {
            for (i, d) in [(0, -1.0), (1, 1.0), (2, -1.0), (3, 1.0), (4, -1.0), (5, 1.0), (6, -1.0), (7, 1.0)] {
                let mid = ((a[0] + a[1]) / 2.0, (a[2] + a[3]) / 2.0);
                let x = match i {
                    0 | 1 => c2(a[i] + d, mid.1),
                    2 | 3 => c2(mid.0, a[i] + d),
                    4 | 5 => { let t = (a[i] + d - mid.0 - mid.1) / 2.0; c2(mid.0 + t, mid.1 + t) }
                    _ => { let t = (a[i] + d - mid.0 + mid.1) / 2.0; c2(mid.0 + t, mid.1 - t) }
                };
                ck!(!e.intersects_coordinate(&x), "{} lies outside {:?} but is reported inside", fc(&x), a);
                let o = OctagonalEnvelope::new_with_coordinate(&x);
                ck!(!e.intersects_octagonal_envelope(&o) && !o.intersects_octagonal_envelope(&e) && !e.contains_octagonal_envelope(&o), "{} lies outside {:?} but its envelope meets it", fc(&x), a);
            }
        }
    }
    Ok(())
}

fn large_history(s: &mut Src, c: &mut Case) -> Res {
    s.big = 5_000;
    history(s, c)
}

static SUBS: &[Sub] = &[
    Sub { name: "history", rule: "at least two operations changed the envelope", quick: 300_000, f: history },
    Sub { name: "relations", rule: "both envelopes non-null", quick: 300_000, f: relations },
    Sub { name: "long history", rule: "at least two operations changed the envelope", quick: 60, f: large_history },
];
fn main() {
    gv::main(
        "P12",
        "histories and pairs of octagonal envelopes built from points, boxes, lines and each other; oracle: extents of x, y, x+y and x-y with a null element",
        &["no NaN or infinite ordinates; expansion by a distance is compared to within rounding on the diagonal sides"],
        SUBS,
    );
}
