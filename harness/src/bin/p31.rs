//! P31: structural predicates of geometries: rectangles, closedness, dimensions, vertices, type names.
use gv::g::*;
use gv::objs::*;
use gv::*;

/// definition: five points, axis-parallel sides in turn, a proper box
fn is_rect(rings: &[Ring]) -> bool {
    if rings.len() != 1 || rings[0].len() != 5 {
        return false;
    }
    let r = &rings[0];
    let e = |i: usize| (r[i + 1].x - r[i].x, r[i + 1].y - r[i].y);
    let v: Vec<(f64, f64)> = (0..4).map(e).collect();
    let h = |d: (f64, f64)| d.1 == 0.0 && d.0 != 0.0;
    let u = |d: (f64, f64)| d.0 == 0.0 && d.1 != 0.0;
    let closed = r[0].x == r[4].x && r[0].y == r[4].y;
    let alt = (h(v[0]) && u(v[1]) && h(v[2]) && u(v[3])) || (u(v[0]) && h(v[1]) && u(v[2]) && h(v[3]));
    // opposite sides cancel
    closed && alt && v[0].0 == -v[2].0 && v[0].1 == -v[2].1 && v[1].0 == -v[3].0 && v[1].1 == -v[3].1
}
fn rectangles(s: &mut Src, c: &mut Case) -> Res {
    let reg = Reg::any(s);
    let (p, q) = (reg.pt(s), reg.pt(s));
    let mut r: Ring = vec![p, c2(q.x, p.y), q, c2(p.x, q.y)];
    let k = s.below(4);
    r.rotate_left(k);
    if s.bool() {
        r.reverse();
    }
    let what = s.below(10);
    match what {
        0 => {
            // one vertex elsewhere
            let i = s.below(4);
            r[i] = reg.pt(s);
        }
        1 => {
            let i = s.below(4);
            r[i].x = if s.bool() { next_up(r[i].x) } else { p.x };
        }
        2 => {
            let i = s.below(3);
            r.swap(i, i + 1);
        }
        3 => {
            // a further vertex on a side
            let i = s.below(4);
            let j = (i + 1) % 4;
            let m = c2((r[i].x + r[j].x) / 2.0, (r[i].y + r[j].y) / 2.0);
            r.insert(i + 1, m);
        }
        4 => {
            let i = s.below(4);
            r.remove(i);
        }
        5 => {
            // tilted square, corners at mid-sides of the box
            r = vec![c2(0.0, 1.0), c2(1.0, 0.0), c2(2.0, 1.0), c2(1.0, 2.0)];
        }
        6 => {
            // a corner repeated; with four or five points altogether
            let i = s.below(4);
            let p = r[i];
            if s.bool() {
                r.insert(i, p);
                let j = s.below(5);
                if s.bool() && r.len() > 4 && j != i {
                    r.remove(j);
                }
            } else {
                r[(i + 1) % 4] = p;
            }
        }
        7 => {
            // two distinct corners only
            let i = s.below(4);
            r[(i + 2) % 4] = r[i];
        }
        _ => {}
    }
    // an outline left open, its last point repeated instead
    let f = if what == 8 && s.bool() { r[r.len() - 1] } else { r[0] };
    r.push(f);
    let kd = kind(s);
    let mut rings = vec![r];
    if s.chance(1, 8) {
        rings.push(clean_ring(s, 6).0);
    }
    if s.chance(1, 30) {
        rings = vec![vec![]];
    }
    deco(s, &mut rings[0], kd);
    // zeros of either sign
    if s.chance(1, 3) {
        for p in rings[0].iter_mut() {
            if p.x == 0.0 && s.bool() { p.x = -p.x; }
            if p.y == 0.0 && s.bool() { p.y = -p.y; }
        }
    }
    c.show(|| rings.iter().map(|r| fcs(r)).collect::<Vec<_>>().join(" / "));
    let m = pm(s);
    let mut g = mk_poly(s, &rings, m);
    if s.bool() {
        let _ = g.get_envelope_internal();
    }
    let spike = rings[0].windows(2).all(|w| !(w[0].x == w[1].x && w[0].y == w[1].y));
    if rings[0].len() == 5 && spike && area2(&rings[0]).is_zero() {
        c.label("spikes only (skipped)");
        return Ok(());
    }
    let w = is_rect(&rings);
    ck!(g.is_rectangle() == w, "is_rectangle {}", g.is_rectangle());
    ck!(g.reverse().is_rectangle() == w && g.copy().is_rectangle() == w, "copy or reversal disagrees");
    // the shift by a power of two keeps the answer, so does exchanging x and y
    let t: Vec<Ring> = rings.iter().map(|r| r.iter().map(|p| c2(p.y * 2.0, p.x * 2.0)).collect()).collect();
    ck!(mk_poly(s, &t, None).is_rectangle() == w, "transposed and doubled: {}", !w);
    c.lab(w, "rectangle");
    c.lab(rings.len() > 1, "with a hole");
    c.nontrivial_if(w || what < 8);
    Ok(())
}

fn closed(r: &Ring) -> bool {
    !r.is_empty() && r[0].x == r[r.len() - 1].x && r[0].y == r[r.len() - 1].y
}
fn predicates(s: &mut Src, c: &mut Case) -> Res {
    let ty = TYPES[s.below(7)];
    let mut m = model(s, ty);
    // lines that are closed but for one unit in the last place
    for r in m.parts.iter_mut().flatten() {
        if matches!(ty, Ty::Line | Ty::MultiLine) && r.len() > 1 && s.chance(1, 2) {
            let n = r.len();
            r[n - 1].x = r[0].x;
            r[n - 1].y = r[0].y;
            if s.chance(1, 4) {
                r[n - 1].y = next_up(r[0].y);
            }
        }
    }
    // rings left open, or open with their first point repeated
    if ty == Ty::Ring {
        for r in m.parts.iter_mut().flatten() {
            if r.len() > 2 && s.chance(1, 3) {
                r.pop();
                if s.bool() {
                    let f = r[0];
                    r.insert(1, f);
                }
            }
        }
    }
    // lines of a single coordinate
    if matches!(ty, Ty::Line | Ty::MultiLine) {
        for r in m.parts.iter_mut().flatten() {
            if r.len() > 1 && s.chance(1, 12) {
                r.truncate(1);
            }
        }
    }
    c.show(|| fm(&m));
    let all: Vec<&Ring> = m.parts.iter().flatten().collect();
    let mut o = build(s, &m);
    c.nontrivial_if(!m.is_empty());
    match &mut o {
        Ob::Point(g) => {
            ck!(g.is_empty() == m.is_empty(), "empty: {}", g.is_empty());
            ck!(Point::get_dimension() == 0 && Point::get_boundary_dimension() == -1, "dimension of points");
            ck!(g.is_simple(), "a point is not simple");
            ck!(g.get_geometry_type() == "Point" && Point::get_type_code() == 0, "type {}", g.get_geometry_type());
        }
        Ob::Line(g) => {
            let w = closed(all[0]);
            ck!(g.is_closed() == w && g.is_ring() == w, "closed {} ring {}", g.is_closed(), g.is_ring());
            ck!(g.reverse().is_closed() == w, "reversal closed {}", !w);
            ck!(g.is_empty() == m.is_empty(), "empty: {}", g.is_empty());
            ck!(g.get_dimension() == 1 && g.get_boundary_dimension() == if w { -1 } else { 0 }, "boundary dimension {}", g.get_boundary_dimension());
            ck!(g.get_geometry_type() == "LineString" && LineString::get_type_code() == 2, "type {}", g.get_geometry_type());
            // vertices
            let mut p = if all[0].is_empty() || s.bool() { Reg::Small.pt(s) } else { all[0][s.below(all[0].len())] };
            if s.chance(1, 4) {
                p.x = next_up(p.x);
            }
            p.z = 17.0;
            let v = all[0].iter().any(|q| q.x == p.x && q.y == p.y);
            ck!(g.is_coordinate(&p) == v, "{} a vertex: {}", fc(&p), g.is_coordinate(&p));
            c.lab(w, "closed line");
            c.lab(v, "vertex");
        }
        Ob::Ring(g) => {
            let w = all[0].is_empty() || closed(all[0]);
            ck!(g.is_closed() == w, "closed {}", g.is_closed());
            ck!(g.is_empty() == m.is_empty(), "empty: {}", g.is_empty());
            ck!(g.get_boundary_dimension() == -1, "boundary dimension {}", g.get_boundary_dimension());
            ck!(g.get_geometry_type() == "LinearRing" && g.get_type_code() == 3, "type {}", g.get_geometry_type());
        }
        Ob::MultiPoint(g) => {
            ck!(g.is_empty() == m.is_empty(), "empty: {}", g.is_empty());
            ck!(g.get_dimension() == 0 && g.get_boundary_dimension() == -1, "dimensions");
            ck!((-3..5).all(|d| g.has_dimension(d) == (d == 0)), "has_dimension");
            ck!(g.get_geometry_type() == "MultiPoint" && MultiPoint::get_type_code() == 1, "type {}", g.get_geometry_type());
        }
        Ob::MultiLine(g) => {
            ck!(g.is_empty() == m.is_empty(), "empty: {}", g.is_empty());
            let w = !m.is_empty() && all.iter().all(|r| closed(r));
            ck!(g.is_closed() == w, "closed {}", g.is_closed());
            ck!(g.get_dimension() == 1 && g.get_boundary_dimension() == if w { -1 } else { 0 }, "boundary dimension {}", g.get_boundary_dimension());
            ck!((-3..5).all(|d| g.has_dimension(d) == (d == 1)), "has_dimension");
            ck!(g.get_geometry_type() == "MultiLineString" && MultiLineString::get_type_code() == 4, "type {}", g.get_geometry_type());
            c.lab(w, "all lines closed");
            c.lab(!w && all.iter().any(|r| closed(r)), "some lines closed");
        }
        Ob::Polygon(g) => {
            ck!(g.is_empty() == m.is_empty(), "empty: {}", g.is_empty());
            ck!(g.get_dimension() == 2 && g.get_boundary_dimension() == 1, "dimensions");
            ck!(g.get_geometry_type() == "Polygon" && Polygon::get_type_code() == 5, "type {}", g.get_geometry_type());
        }
        Ob::MultiPolygon(g) => {
            ck!(g.is_empty() == m.is_empty(), "empty: {}", g.is_empty());
            ck!(g.get_dimension() == 2 && g.get_boundary_dimension() == 1, "dimensions");
            ck!((-3..5).all(|d| g.has_dimension(d) == (d == 2)), "has_dimension");
            ck!(g.get_geometry_type() == "MultiPolygon" && g.get_type_code() == 6, "type {}", g.get_geometry_type());
        }
    }
    Ok(())
}

fn large_predicates(s: &mut Src, c: &mut Case) -> Res {
    s.big = 20_000;
    predicates(s, c)
}

fn main() {
    gv::main(
        "P31",
        "polygons that are axis-parallel boxes or nearly so (moved, swapped, inserted and removed vertices, holes), geometries of every type with closed, almost closed and empty members",
        &["five-point rings that run to and fro without area or repeated corners are not asked whether they are rectangles", "LineString::is_ring means closed here"],
        &[
            Sub { name: "rectangles", rule: "a rectangle or a mutated one", quick: 80_000, f: rectangles },
            Sub { name: "closedness, dimensions, vertices", rule: "a non-empty geometry", quick: 60_000, f: predicates },
            Sub { name: "large predicates", rule: "a non-empty geometry", quick: 60, f: large_predicates },
        ],
    );
}
