//! P18: array-backed coordinate sequences store what they are given and own it.
use gv::g::*;
use gv::seqs::*;
use gv::*;
type A = CoordinateArraySequence;

/// a sequence built by one of the constructors, with its model
fn build(s: &mut Src) -> (A, Vec<Ords>, Kind, String) {
    let k = KINDS[s.below(4)];
    let n = s.size(6);
    let mut m = ords(s, k, n, 3);
    let way = s.below(9);
    // constructors that infer the shape see it in the coordinates
    if matches!(way, 1 | 2 | 6) {
        for o in m.iter_mut() {
            for v in o.iter_mut() {
                if v.is_nan() {
                    *v = 5.0;
                }
            }
        }
    }
    let cs = to_coords(&m, k);
    let (d, e) = (k.0 as i32, k.1 as i32);
    let inferred = if n == 0 { (3, 0) } else { k };
    let zero = |kk: Kind| -> Vec<Ords> {
        let z = Coordinates::create_dim_measures(kk.0 as i32, kk.1 as i32);
        vec![from_coord(&z, kk); n]
    };
    match way {
        0 => (A::new_with_coordinates_dimension_measures(cs, d, e), m, k, "coordinates, dimension, measures".into()),
        1 => (A::new_with_coordinates(&cs), m, inferred, "coordinates".into()),
        2 => {
            let kk = if n == 0 { (k.0, 0) } else { k };
            (A::new_with_coordinates_dimension(cs, d), m, kk, "coordinates, dimension".into())
        }
        3 => (A::new_with_size(n), zero((3, 0)), (3, 0), "size".into()),
        4 => {
            let kk = if k.1 == 1 { (3, 0) } else { k };
            (A::new_with_size_dimension(n, kk.0 as i32), zero(kk), kk, "size, dimension".into())
        }
        5 => (A::new_with_size_dimension_measures(n, d, e), zero(k), k, "size, dimension, measures".into()),
        6 => (CoordinateArraySequenceFactory::create_from_coordinates(&cs), m, inferred, "factory coordinates".into()),
        7 => {
            let src = A::new_with_coordinates_dimension_measures(cs, d, e);
            let q = if s.bool() { A::new_from_coordinate_array_sequence(&src) } else { CoordinateArraySequenceFactory::create_from_coordinate_array_sequence(&src) };
            (q, m, k, "sequence".into())
        }
        _ => {
            if s.bool() {
                let kk = if k.1 == 1 { (3, 0) } else { k };
                (CoordinateArraySequenceFactory::create_with_size_dimension(n, kk.0 as i32), zero(kk), kk, "factory size, dimension".into())
            } else {
                (CoordinateArraySequenceFactory::create_with_size_dimension_measures(n, d, e), zero(k), k, "factory size, dimension, measures".into())
            }
        }
    }
}

fn full(q: &A, m: &[Ords], k: Kind, when: &str) -> Res {
    observe(q, m, k, when)?;
    ck!(q.has_z() == (k.0 - k.1 > 2) && q.has_m() == (k.1 > 0), "{}: has_z {} has_m {} of {:?}", when, q.has_z(), q.has_m(), k);
    for (i, o) in m.iter().enumerate() {
        let p = to_coord(o, k);
        ck!(stored(q.get_x(i), p.x) && stored(q.get_y(i), p.y), "{}: x {:?} y {:?} of {}", when, q.get_x(i), q.get_y(i), fc(&p));
        ck!(stored(q.get_z(i), p.z) && stored(q.get_m(i), p.m), "{}: z {:?} m {:?} of {}", when, q.get_z(i), q.get_m(i), fc(&p));
        ck!(stored_c(&q.get_coordinate_copy(i), &p) && stored_c(&q.get_coordinate_index(i), &p), "{}: coordinate {} of {}", when, i, fc(&p));
        let mut t = Coordinate::new_xyzm(71.0, 72.0, 73.0, 74.0);
        q.get_coordinate_index_coordinate(i, &mut t);
        ck!(stored(t.x, p.x) && stored(t.y, p.y) && stored(t.z, p.z), "{}: get_coordinate_index_coordinate gave {} for {}", when, fc(&t), fc(&p));
        // into one already at the same place
        let mut t = Coordinate::new_xyzm(p.x, p.y, 73.0, 74.0);
        q.get_coordinate_index_coordinate(i, &mut t);
        ck!(stored(t.x, p.x) && stored(t.y, p.y) && stored(t.z, p.z), "{}: get_coordinate_index_coordinate onto the same place gave {} for {}", when, fc(&t), fc(&p));
    }
    // bounds
    let mut e = Envelope::default();
    q.expand_envelope(&mut e);
    ck!(e.is_null() == m.is_empty(), "{}: bounds null {}", when, e.is_null());
    if !m.is_empty() {
        let lo = |d: usize| m.iter().map(|o| o[d]).fold(f64::INFINITY, f64::min);
        let hi = |d: usize| m.iter().map(|o| o[d]).fold(f64::NEG_INFINITY, f64::max);
        ck!((e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()) == (lo(0), hi(0), lo(1), hi(1)), "{}: bounds {}", when, e);
        let mut e = Envelope::new_xy(-50.0, -49.0, 60.0, 61.0);
        q.expand_envelope(&mut e);
        ck!((e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()) == (lo(0).min(-50.0), hi(0).max(-49.0), lo(1).min(60.0), hi(1).max(61.0)), "{}: expanded bounds {}", when, e);
        // starting from the bounds of some of the points
        let step = (m.len() / 6).max(1);
        for i in (0..m.len()).step_by(step) {
            let mut e = Envelope::new_xy(m[i][0], m[(i * 2) % m.len()][0], m[i][1], m[(i * 2) % m.len()][1]);
            q.expand_envelope(&mut e);
            ck!((e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()) == (lo(0), hi(0), lo(1), hi(1)), "{}: bounds from those of points {} and {}: {}", when, i, (i * 2) % m.len(), e);
        }
    }
    let z = q.create_coordinate_default();
    let w = A::create_coordinate(k.0 as i32, k.1 as i32);
    ck!(same_c(&z, &w) && z.x == 0.0 && z.y == 0.0, "{}: default coordinate {}", when, fc(&z));
    Ok(())
}

fn history(s: &mut Src, c: &mut Case) -> Res {
    let (q, m, k, how) = build(s);
    let mut log = vec![format!("built from {} {:?} {:?}", how, k, m)];
    let mut all = vec![(q, m)];
    let mut res = full(&all[0].0, &all[0].1, k, "built");
    let n = s.below(10);
    let mut edits = 0;
    for _ in 0..n {
        if res.is_err() {
            break;
        }
        let i = s.below(all.len());
        match s.below(6) {
            0 | 1 | 2 | 3 => {
                let len = all[i].1.len();
                if len == 0 {
                    continue;
                }
                let (j, d) = (s.below(len), s.below(k.0));
                let v = edit_value(s, d, 40);
                log.push(format!("set ordinate {} of {} to {:?} in sequence {}", d, j, v, i));
                all[i].0.set_ordinate(j, d as i32, v);
                all[i].1[j][d] = v;
                edits += 1;
            }
            4 => {
                log.push(format!("copy sequence {}", i));
                let t = match s.below(3) {
                    0 => all[i].0.copy(),
                    1 => all[i].0.clone(),
                    _ => A::new_from_coordinate_array_sequence(&all[i].0),
                };
                let w = all[i].1.clone();
                all.push((t, w));
            }
            _ => {
                // an extracted array is the caller's own
                let mut v = all[i].0.to_coordinate_array();
                for p in v.iter_mut() {
                    p.x = 99.0;
                }
                log.push(format!("extract and edit the array of {}", i));
            }
        }
        for (j, (q, m)) in all.iter().enumerate() {
            res = full(q, m, k, &format!("sequence {} after {}", j, log.last().unwrap()));
            if res.is_err() {
                break;
            }
        }
    }
    c.show(|| log.join("; "));
    c.nontrivial_if(edits >= 1 && !all[0].1.is_empty());
    c.lab(all.len() > 1, "copied");
    res
}

/// the factory clips shapes it cannot store: at most three spatial ordinates, at least two, at most one measure
fn factory(s: &mut Src, c: &mut Case) -> Res {
    type F = CoordinateArraySequenceFactory;
    let (n, d, e) = (s.below(4), s.below(8) as i32, s.below(4) as i32);
    c.show(|| format!("size {} dimension {} measures {}", n, d, e));
    c.nontrivial_if(n > 0);
    let q = F::create_with_size_dimension(n, d);
    ck!((q.size() as i32, q.get_dimension(), q.get_measures()) == (n as i32, d.clamp(2, 3), 0), "dimension {} became {} with {} measures", d, q.get_dimension(), q.get_measures());
    // the sequence itself takes any number of measures its dimension has room for
    if d >= e + 2 {
        let q = A::new_with_size_dimension_measures(n, d, e);
        ck!((q.size(), q.get_dimension(), q.get_measures()) == (n, d, e), "{} points of {} and {} measures became {} of {} and {}", n, d, e, q.size(), q.get_dimension(), q.get_measures());
        ck!(q.has_z() == (d - e > 2) && q.has_m() == (e > 0), "dimension {} measures {}: has_z {} has_m {}", d, e, q.has_z(), q.has_m());
    }
    let q = F::create_with_size_dimension_measures(n, d, e);
    let (sp, me) = ((d - e).clamp(2, 3), e.min(1));
    ck!((q.size() as i32, q.get_dimension(), q.get_measures()) == (n as i32, sp + me, me), "dimension {} measures {} became {} {}", d, e, q.get_dimension(), q.get_measures());
    ck!(q.has_z() == (sp == 3) && q.has_m() == (me == 1), "has_z {} has_m {}", q.has_z(), q.has_m());
    // what was clipped can hold what its shape says
    let mut q = q;
    for i in 0..n {
        for t in 0..(sp + me) {
            q.set_ordinate(i, t, (10 * i as i32 + t) as f64 + 0.5);
        }
    }
    let m: Vec<Ords> = (0..n).map(|i| (0..(sp + me) as usize).map(|t| (10 * i + t) as f64 + 0.5).collect()).collect();
    observe(&q, &m, ((sp + me) as usize, me as usize), "filled")
}

fn large_history(s: &mut Src, c: &mut Case) -> Res {
    s.big = 70_000;
    history(s, c)
}

static SUBS: &[Sub] = &[
    Sub { name: "history", rule: "at least one ordinate was set", quick: 400_000, f: history },
    Sub { name: "factory shapes", rule: "not empty", quick: 2_000, f: factory },
    Sub { name: "large history", rule: "at least one ordinate was set", quick: 40, f: large_history },
];
fn main() {
    gv::main(
        "P18",
        "array sequences of every shape built through every constructor and factory call, then ordinate edits, copies and extracted arrays; oracle: ordinate-matrix model per copy",
        &["shapes XY, XYZ, XYM and XYZM; sized construction with dimension only is used for two and three dimensions"],
        SUBS,
    );
}
