//! P29: normalization brings geometries into a canonical form.
use gv::g::*;
use gv::objs::*;
use gv::*;
use std::cmp::Ordering;

fn xy(a: &Coordinate, b: &Coordinate) -> Ordering {
    a.x.partial_cmp(&b.x).unwrap().then(a.y.partial_cmp(&b.y).unwrap())
}
fn lex(a: &[Coordinate], b: &[Coordinate]) -> Ordering {
    for (p, q) in a.iter().zip(b) {
        let o = xy(p, q);
        if o != Ordering::Equal {
            return o;
        }
    }
    a.len().cmp(&b.len())
}
/// a ring (closed) scrolled to begin at its k-th vertex
fn scroll(r: &Ring, k: usize) -> Ring {
    let n = r.len() - 1;
    (0..=n).map(|i| r[(i + k) % n]).collect()
}
/// the canonical form of a simple ring without repeated vertices
fn canon(r: &Ring, clockwise: bool) -> Ring {
    let k = (0..r.len() - 1).min_by(|&i, &j| xy(&r[i], &r[j])).unwrap();
    let mut v = scroll(r, k);
    if (area2(&v).sign() < 0) != clockwise {
        v.reverse();
    }
    v
}
/// move a ring where that is exact
fn shift(r: &mut Ring, dx: f64, dy: f64) {
    let ok = |a: f64, d: f64| Dy::f(a + d).eq(&(&Dy::f(a) + &Dy::f(d)));
    if r.iter().all(|p| ok(p.x, dx) && ok(p.y, dy)) {
        for p in r.iter_mut() {
            p.x += dx;
            p.y += dy;
        }
    }
}
fn good(s: &mut Src, k: gv::seqs::Kind) -> Ring {
    let mut r = clean_ring(s, 10).0;
    let (dx, dy) = (s.sint(6) as f64, s.sint(6) as f64);
    shift(&mut r, dx, dy);
    if s.chance(1, 4) {
        for p in r.iter_mut() {
            p.x = -p.x;
        }
    }
    deco(s, &mut r, k);
    r
}
fn holes_of(p: &Polygon) -> Vec<Ring> {
    (0..p.get_num_interior_ring()).map(|i| p.get_interior_ring_n(i).get_coordinates()).collect()
}

fn polygon(s: &mut Src, c: &mut Case) -> Res {
    let k = kind(s);
    let n = s.size(5);
    let mut rings = vec![good(s, k)];
    for _ in 0..n {
        let r = if rings.len() > 1 && s.chance(1, 4) {
            if s.bool() {
                // another hole with the same smallest vertex
                let mut r = good(s, k);
                let (p, q) = (canon(&rings[1], false)[0], canon(&r, false)[0]);
                shift(&mut r, p.x - q.x, p.y - q.y);
                r
            } else {
                // the same hole with a further vertex on one edge
                let mut r = rings[1].clone();
                let j = s.below(r.len() - 1);
                let mut m = r[j];
                m.x = (m.x + r[j + 1].x) / 2.0;
                m.y = (m.y + r[j + 1].y) / 2.0;
                let (p, q) = (Dy::f(m.x).scale2(1), Dy::f(m.y).scale2(1));
                if p.eq(&(&Dy::f(r[j].x) + &Dy::f(r[j + 1].x))) && q.eq(&(&Dy::f(r[j].y) + &Dy::f(r[j + 1].y))) {
                    r.insert(j + 1, m);
                }
                r
            }
        } else {
            good(s, k)
        };
        rings.push(r);
    }
    stretch(s, &mut rings.iter_mut().collect::<Vec<_>>());
    c.show(|| rings.iter().map(|r| fcs(r)).collect::<Vec<_>>().join(" / "));
    let m = pm(s);
    let mut p = mk_poly(s, &rings, m);
    let (area, len) = (p.get_area(), p.get_length());
    let warm = s.bool();
    let env = p.copy().get_envelope_internal();
    if warm {
        let _ = p.get_envelope_internal();
    }
    let before = p.copy();
    p.self_normalize();
    let shell = p.get_exterior_ring().get_coordinates();
    let hs = holes_of(&p);
    let ws = canon(&rings[0], true);
    ck!(same_cs(&shell, &ws), "shell {} instead of {}", fcs(&shell), fcs(&ws));
    let mut wh: Vec<Ring> = rings[1..].iter().map(|r| canon(r, false)).collect();
    wh.sort_by(|a, b| lex(a, b));
    ck!(hs.len() == wh.len(), "{} holes instead of {}", hs.len(), wh.len());
    for (a, b) in hs.iter().zip(&wh) {
        ck!(lex(a, b) == Ordering::Equal, "holes {} instead of {}", hs.iter().map(|r| fcs(r)).collect::<Vec<_>>().join(" / "), wh.iter().map(|r| fcs(r)).collect::<Vec<_>>().join(" / "));
    }
    // every hole keeps its further ordinates
    let mut left = wh.clone();
    for h in &hs {
        match left.iter().position(|r| same_cs(r, h)) {
            Some(i) => {
                left.remove(i);
            }
            None => return Err(format!("hole {} lost ordinates", fcs(h))),
        }
    }
    ck!((p.get_area() - area).abs() <= 1e-13 * len * len && (p.get_length() - len).abs() <= 1e-12 * len, "area {:?} -> {:?}, length {:?} -> {:?}", area, p.get_area(), len, p.get_length());
    ck!(p.get_envelope_internal().equals(&env), "extent {} after normalization, {} before", p.get_envelope_internal(), env);
    ck!(p.get_num_points() == before.get_num_points(), "number of points changed");
    ck!(same_cs(&before.get_exterior_ring().get_coordinates(), &rings[0]), "a copy was normalized too");
    // idempotent
    let mut q = p.copy();
    q.self_normalize();
    ck!(same_cs(&q.get_coordinates(), &p.get_coordinates()), "normalizing twice: {} then {}", fcs(&p.get_coordinates()), fcs(&q.get_coordinates()));
    // independent of where rings start, how they run and how holes are listed
    let mut v: Vec<Ring> = rings.clone();
    for r in v.iter_mut() {
        let k = s.below(r.len() - 1);
        *r = scroll(r, k);
        if s.bool() {
            r.reverse();
        }
    }
    for i in (2..v.len()).rev() {
        let j = 1 + s.below(i);
        v.swap(i, j);
    }
    let mut q = mk_poly(s, &v, None);
    q.self_normalize();
    ck!(q.equals_exact(&p, 0.0) && p.equals_exact(&q, 0.0) && p.compare_to(&q) == 0, "normal form {} and {} of the same polygon", fcs(&p.get_coordinates()), fcs(&q.get_coordinates()));
    c.lab(rings.len() > 2, "several holes");
    c.lab(warm, "extent cached before");
    c.nontrivial_if(!same_cs(&before.get_coordinates(), &p.get_coordinates()));
    Ok(())
}

/// a single ring on request, in either direction
fn single(s: &mut Src, c: &mut Case) -> Res {
    let k = kind(s);
    let simple = s.chance(3, 4);
    let mut r = if simple { good(s, k) } else { ring(s, k) };
    if r.len() < 4 || r[0].compare_to(&r[r.len() - 1]) != 0 {
        r = good(s, k);
    }
    stretch(s, &mut [&mut r]);
    let repeated = r.windows(2).any(|w| w[0].equals_2d(&w[1]));
    let cw = s.bool();
    c.show(|| format!("{} {}", if cw { "cw" } else { "ccw" }, fcs(&r)));
    let shell = mk_ring(s, &r);
    let p = mk_poly(s, &vec![r.clone()], None);
    let out = p.normalized(&shell, cw).get_coordinates();
    let mut inplace = shell.copy();
    Polygon::normalize(&mut inplace, cw);
    ck!(same_cs(&inplace.get_coordinates(), &out), "in place {} otherwise {}", fcs(&inplace.get_coordinates()), fcs(&out));
    ck!(same_cs(&shell.get_coordinates(), &r), "the ring itself changed to {}", fcs(&shell.get_coordinates()));
    ck!(same_cs(&p.get_exterior_ring().get_coordinates(), &r), "the polygon changed");
    if simple && !repeated {
        let w = canon(&r, cw);
        ck!(same_cs(&out, &w), "{} instead of {}", fcs(&out), fcs(&w));
    }
    // any ring: starts and ends at a smallest vertex and keeps the cyclic order
    ck!(out.len() == r.len() && out[0].equals_2d(&out[out.len() - 1]), "{} is not a ring", fcs(&out));
    ck!(out.iter().all(|q| xy(&out[0], q) != Ordering::Greater), "{} does not start at its smallest vertex", fcs(&out));
    let mut rev = out.clone();
    rev.reverse();
    let n = r.len() - 1;
    let found = (0..n).any(|k| {
        let t = scroll(&r, k);
        t.iter().zip(&out).all(|(a, b)| a.equals_2d(b)) || t.iter().zip(&rev).all(|(a, b)| a.equals_2d(b))
    });
    ck!(found, "{} is not a rotation of {}", fcs(&out), fcs(&r));
    c.lab(!simple, "arbitrary ring");
    c.lab(repeated, "repeated vertices");
    c.nontrivial_if(!same_cs(&out, &r));
    Ok(())
}

fn lines(s: &mut Src, c: &mut Case) -> Res {
    let k = kind(s);
    let n = s.size(8);
    let mut v: Ring = (0..n).map(|_| if s.bool() { c2(s.below(2) as f64, s.below(2) as f64) } else { Reg::any(s).pt(s) }).collect();
    if s.chance(1, 2) {
        // symmetric up to a few vertices
        for i in 0..n / 2 {
            v[n - 1 - i] = v[i];
        }
        if n > 1 && s.bool() {
            let i = s.below(n);
            v[i].y += 1.0;
        }
    }
    deco(s, &mut v, k);
    c.show(|| fcs(&v));
    let mut rev = v.clone();
    rev.reverse();
    let w = if lex(&v, &rev) == Ordering::Greater { &rev } else { &v };
    let mut l = mk_line(s, &v);
    let other = l.copy();
    l.normalize();
    let out = l.get_coordinates();
    ck!(same_cs(&out, w), "{} instead of {}", fcs(&out), fcs(w));
    ck!(same_cs(&other.get_coordinates(), &v), "a copy was normalized too");
    let mut r = mk_line(s, &rev);
    r.normalize();
    ck!(r.equals_exact(&l, 0.0) && r.compare_to(&l) == 0, "the reversed line normalizes to {}, the line to {}", fcs(&r.get_coordinates()), fcs(&out));
    l.normalize();
    ck!(same_cs(&l.get_coordinates(), &out), "normalizing twice");
    c.lab(lex(&v, &rev) == Ordering::Equal, "symmetric");
    c.nontrivial_if(!same_cs(&out, &v));
    Ok(())
}

fn large_lines(s: &mut Src, c: &mut Case) -> Res {
    s.big = 70_000;
    lines(s, c)
}

fn main() {
    gv::main(
        "P29",
        "polygons with up to five simple rings (integer vertices, any start, any direction, shared vertices, z and m), arbitrary closed rings, lines up to eight vertices biased to symmetric ones",
        &["rings have at least three distinct vertices", "the exact canonical form is asserted for simple rings without repeated vertices; for others start, closure and cyclic order"],
        &[
            Sub { name: "polygon", rule: "normalization changes the polygon", quick: 40_000, f: polygon },
            Sub { name: "single ring", rule: "normalization changes the ring", quick: 60_000, f: single },
            Sub { name: "line string", rule: "normalization reverses the line", quick: 60_000, f: lines },
            Sub { name: "large lines", rule: "normalization reverses the line", quick: 60, f: large_lines },
        ],
    );
}
