//! P06: point location in rings and on lines.
use gv::g::*;
use gv::*;

fn on_seg(p: &Coordinate, a: &Coordinate, b: &Coordinate) -> bool {
    p.x >= a.x.min(b.x) && p.x <= a.x.max(b.x) && p.y >= a.y.min(b.y) && p.y <= a.y.max(b.y)
        && orient(a.x, a.y, b.x, b.y, p.x, p.y) == 0
}
fn on_line(p: &Coordinate, l: &[Coordinate]) -> bool {
    l.windows(2).any(|w| on_seg(p, &w[0], &w[1]))
}
/// even-odd location by an exact downward ray
fn locate(p: &Coordinate, ring: &[Coordinate]) -> i32 {
    if on_line(p, ring) {
        return Location::BOUNDARY;
    }
    let mut cr = 0;
    for w in ring.windows(2) {
        let (a, b) = if w[0].x <= w[1].x { (w[0], w[1]) } else { (w[1], w[0]) };
        if a.x <= p.x && p.x < b.x && orient(a.x, a.y, b.x, b.y, p.x, p.y) > 0 {
            // p is above the edge (left of a->b going right)
            cr += 1;
        }
    }
    if cr % 2 == 1 { Location::INTERIOR } else { Location::EXTERIOR }
}

fn query(s: &mut Src, r: Reg, ring: &[Coordinate]) -> Coordinate {
    match s.below(8) {
        0 => r.pt(s),
        6 | 7 => {
            let (a, b, d) = (ring[s.below(ring.len())], ring[s.below(ring.len())], ring[s.below(ring.len())]);
            c2(r.snap(a.x / 2.0 + b.x / 4.0 + d.x / 4.0), r.snap(a.y / 2.0 + b.y / 4.0 + d.y / 4.0))
        }
        1 => ring[s.below(ring.len())],
        2 => {
            // aligned with vertices in x and y
            let a = ring[s.below(ring.len())];
            let b = ring[s.below(ring.len())];
            c2(a.x, b.y)
        }
        3 => {
            let a = ring[s.below(ring.len())];
            let q = r.pt(s);
            if s.bool() { c2(q.x, a.y) } else { c2(a.x, q.y) }
        }
        _ => {
            let i = s.below(ring.len() - 1);
            near_line(s, r, &ring[i], &ring[i + 1])
        }
    }
}

fn packed(ring: &[Coordinate], dim: usize) -> PackedCoordinateSequenceDouble {
    let mut v = vec![];
    for p in ring {
        v.push(p.x);
        v.push(p.y);
        for _ in 2..dim {
            v.push(9.0);
        }
    }
    PackedCoordinateSequenceDouble::new_f64_with_coordinates_dimension_measures(&v, dim as i32, 0)
}

fn check(p: &Coordinate, ring: &Vec<Coordinate>, c: &mut Case) -> Res {
    let want = locate(p, ring);
    c.lab(want == Location::BOUNDARY, "boundary");
    c.lab(want == Location::INTERIOR, "interior");
    c.lab(ring.iter().any(|q| q.y == p.y), "level with a vertex");
    c.nontrivial_if(want != Location::EXTERIOR || ring.iter().any(|q| q.y == p.y));
    let arr = |d: i32, m: i32| CoordinateArraySequence::new_with_coordinates_dimension_measures(ring.clone(), d, m);
    for (n, v) in [
        ("PointLocation::locate_in_ring", PointLocation::locate_in_ring(p, ring)),
        ("RayCrossingCounter vec", RayCrossingCounter::locate_point_in_ring_vec(p, ring)),
        ("RayCrossingCounter array sequence 2D", RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(p, &arr(2, 0))),
        ("RayCrossingCounter array sequence XYM", RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(p, &arr(3, 1))),
        ("RayCrossingCounter packed 2D", RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(p, &packed(ring, 2))),
        ("RayCrossingCounter packed 3D", RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(p, &packed(ring, 3))),
    ] {
        ck!(v == want, "{} = {}, exact even-odd location is {} for {} in {}", n, v, want, fc(p), fcs(ring));
    }
    ck!(PointLocation::is_in_ring(p, ring) == (want != Location::EXTERIOR), "is_in_ring({}, {})", fc(p), fcs(ring));
    let b = want == Location::BOUNDARY;
    ck!(PointLocation::is_on_line_coordinates(p, ring) == b, "is_on_line({}, {}) is not {}", fc(p), fcs(ring), b);
    ck!(PointLocation::is_on_line_coordinate_array_sequence(p, &arr(3, 0)) == b, "is_on_line(sequence) is not {} for {}", b, fc(p));
    Ok(())
}

fn any(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::exact(s);
    let ring = any_ring(s, r, 12);
    let p = query(s, r, &ring);
    c.show(|| format!("{:?} p={} ring={}", r, fc(&p), fcs(&ring)));
    check(&p, &ring, c)
}

fn simple(s: &mut Src, c: &mut Case) -> Res {
    let (ring, _) = simple_ring(s, 12);
    // regime of the ring: integers on the ring's own grid
    let i = s.below(ring.len() - 1);
    let r = Reg::Quarter;
    let p = match s.below(7) {
        4 | 5 | 6 => {
            // midpoints of vertices, on half the ring's grid
            let a = ring[s.below(ring.len())];
            let b = ring[s.below(ring.len())];
            c2((a.x + b.x) / 2.0, (a.y + b.y) / 2.0)
        }
        0 => ring[i],
        1 => {
            let j = s.below(ring.len());
            c2(ring[i].x, ring[j].y)
        }
        2 => c2((ring[i].x + ring[i + 1].x) / 2.0, (ring[i].y + ring[i + 1].y) / 2.0),
        _ => {
            let q = r.pt(s);
            c2(ring[i].x + q.x.round(), ring[i].y + q.y.round())
        }
    };
    c.show(|| format!("p={} ring={}", fc(&p), fcs(&ring)));
    check(&p, &ring, c)
}

fn counter(s: &mut Src, c: &mut Case) -> Res {
    // the incremental interface: segments in any order and direction give the same answer
    let r = Reg::exact(s);
    let ring = any_ring(s, r, 8);
    let p = query(s, r, &ring);
    // further rings (holes, other shells) may be counted in between
    let mut rings = vec![ring.clone()];
    while rings.len() < 4 && s.chance(1, 3) {
        rings.push(any_ring(s, r, 6));
    }
    let segs: Vec<(Coordinate, Coordinate)> = rings.iter().flat_map(|r| r.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>()).collect();
    let mut order: Vec<usize> = (0..segs.len()).collect();
    for i in (1..order.len()).rev() {
        let j = s.below(i + 1);
        order.swap(i, j);
    }
    let flip = s.bool(); // one direction for the whole ring: the class relies on chained segments
    c.show(|| format!("p={} rings={} order={:?} flip={}", fc(&p), rings.iter().map(|r| fcs(r)).collect::<Vec<_>>().join(" / "), order, flip));
    // even-odd over all of them
    let each: Vec<i32> = rings.iter().map(|r| locate(&p, r)).collect();
    let want = if each.contains(&Location::BOUNDARY) {
        Location::BOUNDARY
    } else if each.iter().filter(|l| **l == Location::INTERIOR).count() % 2 == 1 {
        Location::INTERIOR
    } else {
        Location::EXTERIOR
    };
    c.lab(rings.len() > 1, "several rings");
    c.nontrivial_if(want != Location::EXTERIOR);
    let mut k = RayCrossingCounter::new_with_coordinate(&p);
    let (mut crossed, mut on) = (0, false);
    for i in order.iter() {
        let (a, b) = segs[*i];
        if flip { k.count_segment(&b, &a) } else { k.count_segment(&a, &b) }
        let (lo, up) = if a.y <= b.y { (a, b) } else { (b, a) };
        if lo.y <= p.y && p.y < up.y && orient(lo.x, lo.y, up.x, up.y, p.x, p.y) > 0 {
            crossed += 1;
        }
        ck!(!on || k.is_on_segment(), "no longer on a segment after segment {}", i);
        on = k.is_on_segment();
        if want != Location::BOUNDARY {
            ck!(k.get_count() == crossed, "{} crossings counted instead of {} after segment {}", k.get_count(), crossed, i);
        }
    }
    ck!(k.get_location() == want, "segments counted in another order or direction locate {} instead of {}", k.get_location(), want);
    ck!(k.is_on_segment() == (want == Location::BOUNDARY), "is_on_segment = {}", k.is_on_segment());
    ck!(k.is_point_in_polygon() == (want != Location::EXTERIOR), "is_point_in_polygon = {}", k.is_point_in_polygon());
    Ok(())
}

fn segment(s: &mut Src, c: &mut Case) -> Res {
    let r = Reg::exact(s);
    let (a, b, p) = triple(s, r);
    c.show(|| format!("{:?} p={} a={} b={}", r, fc(&p), fc(&a), fc(&b)));
    let w = on_seg(&p, &a, &b);
    c.lab(w, "on the segment");
    c.nontrivial_if(orient(a.x, a.y, b.x, b.y, p.x, p.y) == 0 && !p.equals_2d(&a) && !p.equals_2d(&b));
    let v = PointLocation::is_on_segment(&p, &a, &b);
    ck!(v == w, "is_on_segment({}, {}, {}) = {}", fc(&p), fc(&a), fc(&b), v);
    ck!(PointLocation::is_on_segment(&p, &b, &a) == w, "is_on_segment is not symmetric in the segment's endpoints");
    // the same segment given to a crossing counter (which leaves a falling start to the segment before it)
    for (u, v) in [(&a, &b), (&b, &a)] {
        if p.equals_2d(u) && v.y < u.y {
            continue;
        }
        let mut k = RayCrossingCounter::new_with_coordinate(&p);
        k.count_segment(u, v);
        ck!(k.is_on_segment() == w, "a single segment counted: is_on_segment({}, {}, {}) = {}", fc(&p), fc(u), fc(v), k.is_on_segment());
    }
    // z and m do not matter
    let z = |q: &Coordinate, k: f64| Coordinate::new_xyz(q.x, q.y, k);
    ck!(PointLocation::is_on_segment(&z(&p, 1.0), &z(&a, 2.0), &z(&b, f64::NAN)) == w, "is_on_segment depends on z");
    Ok(())
}

fn line(s: &mut Src, c: &mut Case) -> Res {
    // open lines, also empty and single-point ones (which contain no segment)
    let r = Reg::exact(s);
    let n = s.below(7);
    let l: Vec<Coordinate> = (0..n).map(|_| r.pt(s)).collect();
    let p = if n == 0 { r.pt(s) } else if n == 1 { near_line(s, r, &l[0], &l[0]) } else { query(s, r, &l) };
    c.show(|| format!("{:?} p={} line={}", r, fc(&p), fcs(&l)));
    let w = on_line(&p, &l);
    c.lab(w, "on the line");
    c.nontrivial_if(w);
    ck!(PointLocation::is_on_line_coordinates(&p, &l) == w, "is_on_line({}, {}) is not {}", fc(&p), fcs(&l), w);
    let q = CoordinateArraySequence::new_with_coordinates_dimension_measures(l.clone(), 2, 0);
    ck!(PointLocation::is_on_line_coordinate_array_sequence(&p, &q) == w, "is_on_line on the sequence is not {}", w);
    Ok(())
}

fn large_any(s: &mut Src, c: &mut Case) -> Res {
    s.big = 20_000;
    any(s, c)
}
fn large_simple(s: &mut Src, c: &mut Case) -> Res {
    s.big = 20_000;
    simple(s, c)
}
fn large_line(s: &mut Src, c: &mut Case) -> Res {
    s.big = 20_000;
    line(s, c)
}

static SUBS: &[Sub] = &[
    Sub { name: "any", rule: "not exterior, or level with a vertex", quick: 300_000, f: any },
    Sub { name: "simple", rule: "not exterior, or level with a vertex", quick: 200_000, f: simple },
    Sub { name: "counter", rule: "not exterior", quick: 200_000, f: counter },
    Sub { name: "segment", rule: "collinear and not an endpoint", quick: 400_000, f: segment },
    Sub { name: "line", rule: "on the line", quick: 200_000, f: line },
    Sub { name: "large any", rule: "not exterior, or level with a vertex", quick: 60, f: large_any },
    Sub { name: "large simple", rule: "not exterior, or level with a vertex", quick: 60, f: large_simple },
    Sub { name: "large line", rule: "on the line", quick: 60, f: large_line },
];
fn main() {
    gv::main(
        "P06",
        "rings on exactly representable grids, query points biased to vertices, edges and vertex-aligned rays; oracle: exact even-odd rule with a ray in another direction",
        &["coordinate differences exactly representable"],
        SUBS,
    );
}
