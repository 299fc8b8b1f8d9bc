//! P19: packed coordinate sequences store what they are given, own it, and agree with array sequences.
use gv::g::*;
use gv::seqs::*;
use gv::*;
type P = PackedCoordinateSequenceDouble;
type A = CoordinateArraySequence;

fn build(s: &mut Src) -> (P, Vec<Ords>, Kind, String) {
    let k = KINDS[s.below(4)];
    let n = s.size(6);
    let mut m = ords(s, k, n, 3);
    let way = s.below(8);
    if way == 2 {
        for o in m.iter_mut() {
            for v in o.iter_mut() {
                if v.is_nan() {
                    *v = 5.0;
                }
            }
        }
    }
    let mut cs = to_coords(&m, k);
    if way == 2 && n > 1 && s.bool() {
        // the first coordinate decides the shape; later ones may have more ordinates, or less
        let p = 1 + s.below(n - 1);
        for i in p..n {
            if s.bool() {
                if cs[i].z.is_nan() && k == (2, 0) { cs[i].z = 60.0 + i as f64; }
                if k.1 == 0 { cs[i].m = 70.0 + i as f64; }
            } else if k == (3, 0) {
                cs[i].z = f64::NAN;
                m[i][2] = f64::NAN;
            }
        }
    }
    if matches!(way, 1 | 3 | 4) && s.bool() {
        // coordinates may carry more ordinates than the sequence keeps
        for (i, p) in cs.iter_mut().enumerate() {
            if p.z.is_nan() && s.bool() && (k == (3, 1) || k == (2, 0)) {
                p.z = 60.0 + i as f64;
            }
            if k.1 == 0 && s.bool() {
                p.m = 70.0 + i as f64;
            }
        }
    }
    let raw: Vec<f64> = m.iter().flatten().cloned().collect();
    let (d, e) = (k.0 as i32, k.1 as i32);
    let plain = if k == (3, 1) { (3, 0) } else { k };
    // reading measures as a third dimension
    match way {
        0 => (P::new_f64_with_coordinates_dimension_measures(&raw, d, e), m, k, "raw".into()),
        1 => (P::new_coordinates_with_dimension_measures(&cs, d, e), m, k, "coordinates, dimension, measures".into()),
        2 => (PackedCoordinateSequenceFactory::create_double_from_coordinates(&cs), m, if n == 0 { (3, 0) } else { k }, "factory coordinates".into()),
        3 => {
            let m2 = cs.iter().map(|p| from_coord(p, plain)).collect();
            (P::new_coordinates_with_dimension(&cs, plain.0 as i32), m2, plain, "coordinates, dimension".into())
        }
        4 => {
            let m2 = cs.iter().map(|p| from_coord(p, (3, 0))).collect();
            (P::new_with_coordinates(&cs), m2, (3, 0), "coordinates".into())
        }
        5 => (PackedCoordinateSequenceFactory::create_double_coordinate_dimension_measures(&raw, d, e), m, k, "factory raw".into()),
        6 if k.1 == 0 => (PackedCoordinateSequenceFactory::create_double_coordinates_dimension(&raw, d), m, k, "factory raw, dimension".into()),
        _ => {
            // sized: filled ordinate by ordinate
            let mut q = match s.below(3) {
                0 => PackedCoordinateSequenceFactory::create_with_size_dimension_measures(n, d, e),
                1 if k != (3, 1) => PackedCoordinateSequenceFactory::create_with_size_dimension(n, d),
                _ => P::new_with_size_dimension_measures(n, d, e),
            };
            for (i, o) in m.iter().enumerate() {
                for (j, v) in o.iter().enumerate() {
                    q.set_ordinate(i, j as i32, *v);
                }
            }
            (q, m, k, "size, then filled".into())
        }
    }
}

fn full(q: &P, m: &[Ords], k: Kind, when: &str) -> Res {
    observe(q, m, k, when)?;
    let raw: Vec<f64> = m.iter().flatten().cloned().collect();
    let got = q.get_raw_coordinates();
    ck!(got.len() == raw.len() && got.iter().zip(&raw).all(|(a, b)| stored(*a, *b)), "{}: raw {:?}, model {:?}", when, got, raw);
    let mut starts = vec![Envelope::default(), Envelope::new_xy(-50.0, -49.0, 60.0, 61.0)];
    let step = (m.len() / 6).max(1);
    for i in (0..m.len()).step_by(step) {
        let j = (i * 2) % m.len();
        starts.push(Envelope::new_xy(m[i][0], m[j][0], m[i][1], m[j][1]));
    }
    for start in starts {
        let e = q.expand_envelope(&start);
        let mut w = start;
        for o in m {
            w.expand_to_include_xy(o[0], o[1]);
        }
        ck!(e.equals(&w), "{}: bounds {}, expected {}", when, e, w);
    }
    Ok(())
}

fn history(s: &mut Src, c: &mut Case) -> Res {
    let (q, m, k, how) = build(s);
    let mut log = vec![format!("built from {} {:?} {:?}", how, k, m)];
    let mut all = vec![(q, m)];
    let mut res = full(&all[0].0, &all[0].1, k, "built");
    let n = s.below(10);
    let mut edits = 0;
    for _ in 0..n {
        if res.is_err() {
            break;
        }
        let i = s.below(all.len());
        match s.below(6) {
            0 | 1 | 2 | 3 => {
                let len = all[i].1.len();
                if len == 0 {
                    continue;
                }
                let (j, d) = (s.below(len), s.below(k.0));
                let v = edit_value(s, d, 40);
                log.push(format!("set ordinate {} of {} to {:?} in sequence {}", d, j, v, i));
                all[i].0.set_ordinate(j, d as i32, v);
                all[i].1[j][d] = v;
                edits += 1;
            }
            4 => {
                log.push(format!("copy sequence {}", i));
                let t = if s.bool() { all[i].0.copy() } else { all[i].0.clone() };
                let w = all[i].1.clone();
                all.push((t, w));
            }
            _ => {
                let mut v = all[i].0.get_raw_coordinates();
                for p in v.iter_mut() {
                    *p = 99.0;
                }
                let mut v = all[i].0.to_coordinate_array();
                for p in v.iter_mut() {
                    p.x = 99.0;
                }
                log.push(format!("extract and edit the arrays of {}", i));
            }
        }
        for (j, (q, m)) in all.iter().enumerate() {
            res = full(q, m, k, &format!("sequence {} after {}", j, log.last().unwrap()));
            if res.is_err() {
                break;
            }
        }
    }
    c.show(|| log.join("; "));
    c.nontrivial_if(edits >= 1 && !all[0].1.is_empty());
    c.lab(all.len() > 1, "copied");
    res
}

fn differential(s: &mut Src, c: &mut Case) -> Res {
    // the same history on both storages
    let k = KINDS[s.below(4)];
    let n = 1 + s.size(6);
    let m = ords(s, k, n, 2);
    let mut a = A::make(&m, k);
    let mut p = P::make(&m, k);
    let mut log = vec![format!("{:?} {:?}", k, m)];
    let steps = 1 + s.below(8);
    let mut res = Ok(());
    for _ in 0..steps {
        let n = SeqLike::len(&a);
        match s.below(6) {
            0 | 1 => {
                let (i, d) = (s.below(n), s.below(k.0));
                let v = edit_value(s, d, 36);
                log.push(format!("set {} {} {:?}", i, d, v));
                a.set(i, d, v);
                p.set(i, d, v);
            }
            2 => {
                log.push("reverse".into());
                a.reverse();
                p.reverse();
            }
            3 => {
                let i = s.below(n);
                log.push(format!("scroll {}", i));
                a.scroll(i);
                p.scroll(i);
            }
            4 => {
                let (i, j) = (s.below(n), s.below(n));
                log.push(format!("swap {} {}", i, j));
                a.swap(i, j);
                p.swap(i, j);
            }
            _ => {
                if n < 12 {
                    log.push("ensure_valid_ring".into());
                    a = a.ensure_valid_ring();
                    p = p.ensure_valid_ring();
                }
            }
        }
        if !stored_cs(&a.array(), &p.array()) {
            res = Err(format!("after {}: array {} but packed {}", log.last().unwrap(), fcs(&a.array()), fcs(&p.array())));
            break;
        }
    }
    c.show(|| log.join("; "));
    c.nontrivial_if(n >= 2);
    res?;
    ck!(a.is_ring() == p.is_ring() && a.min_index() == p.min_index(), "ring {} {} minimum {} {}", a.is_ring(), p.is_ring(), a.min_index(), p.min_index());
    Ok(())
}

/// sequences of the base type hold no points; their shape is what there is to observe
fn shapes(s: &mut Src, c: &mut Case) -> Res {
    let (d, e) = (s.below(6) as i32, s.below(4) as i32);
    c.show(|| format!("dimension {} measures {}", d, e));
    c.nontrivial_if(d - e >= 2);
    let q = match PackedCoordinateSequence::new_with_dimension_measures(d, e) {
        None => {
            ck!(d - e < 2, "no sequence with dimension {} and {} measures", d, e);
            return Ok(());
        }
        Some(q) => q,
    };
    ck!(d - e >= 2, "a sequence with dimension {} and {} measures", d, e);
    let look = |q: &PackedCoordinateSequence, when: &str| -> Res {
        ck!((q.get_dimension(), q.get_measures(), q.size()) == (d, e, 0), "{}: dimension {} measures {} size {}", when, q.get_dimension(), q.get_measures(), q.size());
        ck!(q.has_z() == (d - e > 2) && q.has_m() == (e > 0), "{}: has_z {} has_m {}", when, q.has_z(), q.has_m());
        ck!(q.to_coordinate_array().is_empty(), "{}: coordinates of nothing", when);
        Ok(())
    };
    look(&q, "made")?;
    look(&q.clone(), "cloned")?;
    for (how, t) in [("copied", q.copy()), ("rebuilt by the factory", PackedCoordinateSequenceFactory::create_double_from_coordinate_sequence(&q))] {
        for (how2, u) in [("", t.clone()), (" and copied again", t.copy())] {
            ck!((u.get_dimension(), u.get_measures(), u.size()) == (d, e, 0), "{}{}: dimension {} measures {} size {}", how, how2, u.get_dimension(), u.get_measures(), u.size());
            ck!(u.get_raw_coordinates().is_empty() && u.to_coordinate_array().is_empty(), "{}{}: coordinates of nothing", how, how2);
        }
    }
    look(&q, "after copies")
}

fn large_history(s: &mut Src, c: &mut Case) -> Res {
    s.big = 70_000;
    history(s, c)
}

static SUBS: &[Sub] = &[
    Sub { name: "history", rule: "at least one ordinate was set", quick: 300_000, f: history },
    Sub { name: "differential", rule: "at least two coordinates", quick: 200_000, f: differential },
    Sub { name: "shapes of empty sequences", rule: "a spatial part of at least two", quick: 2_000, f: shapes },
    Sub { name: "large history", rule: "at least one ordinate was set", quick: 40, f: large_history },
];
fn main() {
    gv::main(
        "P19",
        "packed sequences of every shape built through every constructor and factory call, then ordinate edits and copies; oracle: ordinate-matrix model, and the array sequence under the same history",
        &["sized packed sequences are filled before they are read"],
        SUBS,
    );
}
