//! P28: geometry objects own their data; copies and reversals are faithful.
use gv::g::*;
use gv::objs::*;
use gv::seqs::KINDS;
use gv::*;

fn history(s: &mut Src, c: &mut Case) -> Res {
    let ty = TYPES[s.below(7)];
    let m = model(s, ty);
    let mut obs = vec![build(s, &m)];
    let mut ms = vec![m];
    let mut log = vec![format!("0 = {}", fm(&ms[0]))];
    let mut res = observe(&mut obs[0], &ms[0], "built");
    let steps = 1 + s.below(6);
    let mut done = 0;
    for _ in 0..steps {
        if res.is_err() {
            break;
        }
        let i = s.below(obs.len());
        let (o, m) = (&mut obs[i], ms[i].clone());
        let op = s.below(8);
        let (new, nm, what) = match (op, o) {
            // read the cached extent only
            (0, o) => {
                let e = match o {
                    Ob::Point(g) => Some(g.get_envelope_internal()),
                    Ob::Ring(g) => Some(g.get_envelope_internal()),
                    Ob::MultiPoint(g) => Some(g.get_envelope_internal()),
                    Ob::Polygon(g) => Some(g.get_envelope_internal()),
                    _ => None,
                };
                if e.is_some_and(|e| !env_is(&e, m.extent())) {
                    res = Err(format!("envelope of {}", fm(&m)));
                }
                (None, m, "extent")
            }
            (1 | 2, o) => (
                Some(match o {
                    Ob::Point(g) => Ob::Point(if op == 1 { g.copy() } else { g.clone() }),
                    Ob::Line(g) => Ob::Line(if op == 1 { g.copy() } else { g.clone() }),
                    Ob::Ring(g) => Ob::Ring(if op == 1 { g.copy() } else { g.clone() }),
                    Ob::MultiPoint(g) => Ob::MultiPoint(g.copy()),
                    Ob::MultiLine(g) => Ob::MultiLine(g.copy_internal()),
                    Ob::Polygon(g) => Ob::Polygon(if op == 1 { g.copy() } else { g.clone() }),
                    Ob::MultiPolygon(g) => Ob::MultiPolygon(if op == 1 { g.copy() } else { g.clone() }),
                }),
                m,
                "copy",
            ),
            (3 | 4 | 5, o) => (
                Some(match o {
                    Ob::Point(g) => Ob::Point(g.reverse()),
                    Ob::Line(g) => Ob::Line(g.reverse()),
                    Ob::Ring(g) => Ob::Ring(g.reverse()),
                    Ob::MultiPoint(g) => Ob::MultiPoint(g.reverse()),
                    Ob::MultiLine(g) => Ob::MultiLine(g.reverse()),
                    Ob::Polygon(g) => Ob::Polygon(g.reverse()),
                    Ob::MultiPolygon(g) => Ob::MultiPolygon(g.reverse()),
                }),
                m.reversed(),
                "reversal",
            ),
            // part of an object as an object of its own
            (6, Ob::Polygon(g)) => {
                let k = s.below(m.parts[0].len());
                let r = if k == 0 { g.get_exterior_ring() } else { g.get_interior_ring_n(k - 1) };
                (Some(Ob::Ring(r)), Mo { ty: Ty::Ring, parts: vec![vec![m.parts[0][k].clone()]], pm: None }, "ring")
            }
            (6, Ob::MultiPolygon(g)) if !m.parts.is_empty() => {
                let k = s.below(m.parts.len());
                (Some(Ob::Polygon(g.get_polygon_at_index(k))), Mo { ty: Ty::Polygon, parts: vec![m.parts[k].clone()], pm: None }, "member")
            }
            (6, Ob::MultiPoint(g)) if !m.parts.is_empty() => {
                let k = s.below(m.parts.len());
                match g.get_point_at_index(k) {
                    Some(p) => (Some(Ob::Point(p)), Mo { ty: Ty::Point, parts: vec![m.parts[k].clone()], pm: None }, "member"),
                    None => {
                        res = Err(format!("no member {} in {}", k, fm(&m)));
                        (None, m, "member")
                    }
                }
            }
            // in-place changes must not reach the other objects
            (_, Ob::Line(g)) => {
                let kd = kind(s);
                let v = line(s, kd);
                g.init(CoordinateArraySequenceFactory::create_from_coordinates(&v));
                ms[i].parts = vec![vec![v]];
                log.push(format!("{} becomes {}", i, fm(&ms[i])));
                (None, m, "new points")
            }
            (_, Ob::Polygon(g)) => {
                g.self_normalize();
                // the shape of the result is another property's business: here only that the others keep theirs
                let mut v: Vec<Ring> = vec![g.get_exterior_ring().get_coordinates()];
                for k in 0..g.get_num_interior_ring() {
                    v.push(g.get_interior_ring_n(k).get_coordinates());
                }
                ms[i].parts = vec![v];
                log.push(format!("{} is normalized", i));
                (None, m, "normalization")
            }
            (_, _) => (None, m, "nothing"),
        };
        if res.is_err() {
            break;
        }
        if what == "new points" || what == "normalization" {
            done += 1;
        }
        if let Some(n) = new {
            log.push(format!("{} = {} of {}", obs.len(), what, i));
            obs.push(n);
            ms.push(nm);
            done += 1;
            c.label(match what { "copy" => "copy", "reversal" => "reversal", _ => "part" });
        }
        for j in 0..obs.len() {
            // the newest object is always looked at; the others from time to time, so that caches stay cold
            if j == i || j + 1 == obs.len() || s.chance(1, 3) {
                res = observe(&mut obs[j], &ms[j], &format!("object {} after {} of {}", j, what, i));
                if res.is_err() {
                    break;
                }
            }
        }
    }
    if res.is_ok() {
        for j in 0..obs.len() {
            res = observe(&mut obs[j], &ms[j], &format!("object {} in the end", j));
            if res.is_err() {
                break;
            }
        }
    }
    c.show(|| log.join("; "));
    c.lab(ms[0].parts.len() > 1, "several members");
    c.lab(ms[0].is_empty(), "empty");
    c.lab(ms[0].pm.is_some(), "precision model");
    c.nontrivial_if(done > 0 && !ms[0].is_empty());
    res
}

/// what an object was built from may change afterwards
fn sources(s: &mut Src, c: &mut Case) -> Res {
    let k = kind(s);
    let v = line(s, k);
    c.show(|| fcs(&v));
    // the declared shape may be larger than what the points carry
    let d = KINDS[s.below(4)];
    let d = if d.0 - d.1 < k.0 - k.1 || d.1 < k.1 { k } else { d };
    let q = CoordinateArraySequence::new_with_coordinates_dimension_measures(v.clone(), d.0 as i32, d.1 as i32);
    let mut w = q.copy();
    let shape = |q: &CoordinateArraySequence| (q.get_dimension() as usize, q.get_measures() as usize);
    ck!(shape(&w) == d, "copy of a sequence of shape {:?} has shape {:?}", d, shape(&w));
    let r = LinearRing::new_with_coordinate_array_sequence(&w);
    let l = GeometryFactory::create_line_string_coordinate_array_sequence(&w);
    let mp = GeometryFactory::create_multi_point_from_coordinate_array_sequence(&w);
    let p = GeometryFactory::create_polygon_with_coordinate_array_sequence(&w);
    let mut l2 = GeometryFactory::create_line_string();
    l2.init(w.copy());
    let l3 = LineString::new_from_coordinate_sequence(w.copy());
    for g in [&l, &l2, &l3, &l.copy(), &l.clone(), &l.reverse()] {
        ck!(shape(&g.get_coordinate_sequence()) == d, "line of shape {:?} has shape {:?}", d, shape(&g.get_coordinate_sequence()));
    }
    for g in [&r, &r.copy(), &r.clone(), &r.reverse()] {
        ck!(shape(&g.get_coordinate_array_sequence()) == d, "ring of shape {:?} has shape {:?}", d, shape(&g.get_coordinate_array_sequence()));
    }
    for g in [p.get_exterior_ring(), p.copy().get_exterior_ring(), p.reverse().get_exterior_ring()] {
        ck!(shape(&g.get_coordinate_array_sequence()) == d, "shell of shape {:?} has shape {:?}", d, shape(&g.get_coordinate_array_sequence()));
    }
    c.lab(d != k, "declared shape larger");
    for i in 0..v.len() {
        w.set_ordinate(i, 0, 99.0 + i as f64);
        w.set_ordinate(i, 1, -99.0);
    }
    let mut t = r.get_coordinate_array_sequence();
    let mut u = l.get_coordinate_sequence();
    for i in 0..v.len() {
        t.set_ordinate(i, 0, 77.0);
        u.set_ordinate(i, 1, 78.0);
    }
    ck!(same_cs(&r.get_coordinates(), &v), "ring changed with its source to {}", fcs(&r.get_coordinates()));
    ck!(same_cs(&l.get_coordinates(), &v), "line changed with its source to {}", fcs(&l.get_coordinates()));
    // rings that are not closed keep all their points and cover them
    let back: Ring = v.iter().rev().copied().collect();
    let hole = LinearRing::new_with_coordinates(&v);
    let mut shelled = Polygon::new_with_linear_ring_vec(&LinearRing::new_with_coordinates(&clean_ring(s, 5).0), &vec![hole.copy(), hole]);
    let mut rb = r.reverse();
    let h = shelled.reverse();
    ck!(same_cs(&rb.get_coordinates(), &back), "reversed ring {}", fcs(&rb.get_coordinates()));
    ck!(h.get_num_interior_ring() == 2 && (0..2).all(|i| same_cs(&h.get_interior_ring_n(i).get_coordinates(), &back)), "holes of the reversed polygon");
    ck!(same_cs(&p.reverse().get_exterior_ring().get_coordinates(), &back), "reversed shell {}", fcs(&p.reverse().get_coordinates()));
    let x = Mo { ty: Ty::Ring, parts: vec![vec![v.clone()]], pm: None }.extent();
    let (mut r, mut p) = (r, p);
    ck!(env_is(&r.get_envelope_internal(), x) && env_is(&rb.get_envelope_internal(), x), "envelope of a ring {}, reversed {}", r.get_envelope_internal(), rb.get_envelope_internal());
    ck!(env_is(&p.get_envelope_internal(), x) && env_is(&p.reverse().get_envelope_internal(), x), "envelope of a polygon {}", p.get_envelope_internal());
    let _ = shelled.get_envelope_internal();
    ck!(same_cs(&mp.get_coordinates(), &v), "multipoint changed with its source to {}", fcs(&mp.get_coordinates()));
    ck!(same_cs(&p.get_exterior_ring().get_coordinates(), &v), "polygon changed with its source to {}", fcs(&p.get_coordinates()));
    c.nontrivial_if(!v.is_empty());
    Ok(())
}

fn large_history(s: &mut Src, c: &mut Case) -> Res {
    s.big = 5_000;
    history(s, c)
}

fn main() {
    gv::main(
        "P28",
        "histories of up to six copies, reversals, part extractions, re-initializations and normalizations over all seven geometry types, with and without z, m and precision models, empty members included",
        &["multi line strings are observed through exact equality, emptiness and closedness only (no other accessor exists)"],
        &[
            Sub { name: "object history", rule: "a non-empty object and at least one derived or changed object", quick: 60_000, f: history },
            Sub { name: "independence of sources", rule: "at least one coordinate", quick: 15_000, f: sources },
            Sub { name: "large history", rule: "a non-empty object and at least one derived or changed object", quick: 6, f: large_history },
        ],
    );
}
