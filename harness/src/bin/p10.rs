//! P10: centroids.
use gv::g::*;
use gv::*;

type Poly = (Vec<Coordinate>, Vec<Vec<Coordinate>>);

/// exact area-weighted centroid; None when the total area is zero. (x, y, total, sum of |areas|)
fn exact_area_centroid(ps: &[Poly]) -> Option<(Rt, Rt, f64, f64)> {
    let mut tot = Dy::zero();
    let mut sx = Dy::zero();
    let mut sy = Dy::zero();
    let mut abs = 0.0;
    let mut add = |ring: &Vec<Coordinate>, sg: i64, base: &Coordinate| {
        let mut a = Dy::zero();
        let mut mx = Dy::zero();
        let mut my = Dy::zero();
        for w in ring.windows(2) {
            let (x0, y0, x1, y1) = (Dy::f(w[0].x), Dy::f(w[0].y), Dy::f(w[1].x), Dy::f(w[1].y));
            let k = &(&x0 * &y1) - &(&x1 * &y0);
            mx = &mx + &(&(&x0 + &x1) * &k);
            my = &my + &(&(&y0 + &y1) * &k);
            a = &a + &k;
        }
        // orient the ring positively, whatever its direction
        let f = Dy::int(if a.sign() < 0 { -sg } else { sg });
        // what cancels numerically: the triangles of every edge with the base point
        for w in ring.windows(2) {
            abs += ((w[0].x - base.x) * (w[1].y - base.y) - (w[1].x - base.x) * (w[0].y - base.y)).abs();
        }
        tot = &tot + &(&f * &a);
        sx = &sx + &(&f * &mx);
        sy = &sy + &(&f * &my);
    };
    for (sh, hs) in ps {
        let base = if sh.is_empty() { c2(0.0, 0.0) } else { sh[0] };
        add(sh, 1, &base);
        for h in hs {
            add(h, -1, &base);
        }
    }
    if tot.is_zero() {
        return None;
    }
    let d = &tot * &Dy::int(3);
    Some((Rt::new(sx, d.clone()), Rt::new(sy, d), tot.to_f64(), abs))
}

/// fallbacks: lines by length, then points
fn low_dim(rings: &[&Vec<Coordinate>]) -> Option<(f64, f64)> {
    let (mut l, mut x, mut y) = (0.0, 0.0, 0.0);
    let (mut n, mut px, mut py) = (0.0, 0.0, 0.0);
    for r in rings {
        let mut own = 0.0;
        for w in r.windows(2) {
            let d = vsub(&v2(&w[0]), &v2(&w[1]));
            let len = vdot(&d, &d).to_f64().sqrt();
            own += len;
            x += len * (w[0].x + w[1].x) / 2.0;
            y += len * (w[0].y + w[1].y) / 2.0;
        }
        l += own;
        if own == 0.0 && !r.is_empty() {
            n += 1.0;
            px += r[0].x;
            py += r[0].y;
        }
    }
    if l > 0.0 {
        Some((x / l, y / l))
    } else if n > 0.0 {
        Some((px / n, py / n))
    } else {
        None
    }
}

fn mk(p: &Poly, pm: Option<PrecisionModel>) -> Polygon {
    let sh = LinearRing::new_with_coordinates(&p.0);
    let hs: Vec<LinearRing> = p.1.iter().map(LinearRing::new_with_coordinates).collect();
    match pm {
        Some(m) => Polygon::new_with_linear_ring_vec_precision_model(&sh, &hs, m),
        None => Polygon::new_with_linear_ring_vec(&sh, &hs),
    }
}

fn flat_ring(s: &mut Src) -> Vec<Coordinate> {
    // a closed ring without area: collinear or a single repeated point
    let a = (s.sint(9), s.sint(9));
    let d = if s.chance(1, 3) { (0, 0) } else { (s.sint(4), s.sint(4)) };
    let n = 3 + s.below(3);
    let mut v: Vec<Coordinate> = (0..n)
        .map(|_| {
            let t = s.sint(3);
            c2((a.0 + t * d.0) as f64, (a.1 + t * d.1) as f64)
        })
        .collect();
    let f = v[0];
    v.push(f);
    v
}

/// move a ring to the shell's start and scale it, by a power of two, to a similar size
fn fit(h: &Vec<Coordinate>, sh: &Vec<Coordinate>) -> Vec<Coordinate> {
    let (_, d) = span(h);
    let (_, e) = span(sh);
    let k = if d == 0.0 { 1.0 } else { 2f64.powi((e.log2().floor() - d.log2().floor()) as i32) };
    h.iter().map(|p| c2(sh[0].x + (p.x - h[0].x) * k, sh[0].y + (p.y - h[0].y) * k)).collect()
}

fn gen_poly(s: &mut Src, flat: bool) -> Poly {
    if flat {
        let sh = flat_ring(s);
        let k = s.below(3);
        return (sh, (0..k).map(|_| flat_ring(s)).collect());
    }
    let max = 2 + s.below(8);
    let sh = simple_ring(s, max).0;
    let k = if s.bool() { s.below(3) } else { 0 };
    let hs = (0..k)
        .map(|_| match s.below(5) {
            0 => {
                let h = flat_ring(s);
                fit(&h, &sh)
            }
            1 => {
                // the shell itself shrunk towards its first vertex, possibly reversed
                let f = sh[0];
                let mut h: Vec<Coordinate> = sh.iter().map(|p| c2(f.x + (p.x - f.x) / 4.0, f.y + (p.y - f.y) / 4.0)).collect();
                if s.bool() {
                    h.reverse();
                }
                h
            }
            _ => {
                let (h, _) = simple_ring(s, 3);
                fit(&h, &sh)
            }
        })
        .collect();
    (sh, hs)
}

fn ok(got: Option<Coordinate>, ps: &[Poly], what: &str, c: &mut Case) -> Res {
    let all: Vec<&Vec<Coordinate>> = ps.iter().flat_map(|p| std::iter::once(&p.0).chain(p.1.iter())).collect();
    let pts: Vec<Coordinate> = all.iter().flat_map(|r| r.iter().cloned()).collect();
    let (m, _) = span(&pts);
    match exact_area_centroid(ps) {
        Some((x, y, tot, abs)) => {
            let t = 1e-13 * m * (abs / tot.abs()) * (1.0 + pts.len() as f64 / 8.0);
            if !(t < 1e-3 * (1.0 + m)) {
                c.label("cancelling (skipped)");
                return Ok(());
            }
            let g = match got {
                Some(g) => g,
                None => return Err(format!("{}: no centroid", what)),
            };
            ck!(x.near(g.x, t) && y.near(g.y, t), "{}: centroid {} but exactly ({:?},{:?}) (tolerance {:e})", what, fc(&g), x.approx(), y.approx(), t);
        }
        None => {
            if !all.iter().all(|r| area2(r).is_zero()) && !(m < 1e6 && pts.iter().all(|p| (p.x * 64.0).fract() == 0.0 && (p.y * 64.0).fract() == 0.0)) {
                // shell and holes cancel exactly, but not necessarily in floating point
                c.label("cancelling (skipped)");
                return Ok(());
            }
            c.label("no area");
            let w = low_dim(&all);
            let t = 1e-12 * (1.0 + m);
            match (got, w) {
                (None, None) => {}
                (Some(g), Some(w)) => ck!((g.x - w.0).abs() <= t && (g.y - w.1).abs() <= t, "{}: centroid {} of an area-less polygon, expected {:?}", what, fc(&g), w),
                (g, w) => return Err(format!("{}: centroid {:?}, expected {:?}", what, g.map(|g| fc(&g)), w)),
            }
        }
    }
    Ok(())
}

fn polygon(s: &mut Src, c: &mut Case) -> Res {
    let flat = s.chance(1, 5);
    let p = gen_poly(s, flat);
    c.show(|| format!("shell {} holes [{}]", fcs(&p.0), p.1.iter().map(|h| fcs(h)).collect::<Vec<_>>().join(", ")));
    c.nontrivial_if(!flat);
    c.lab(!p.1.is_empty(), "with holes");
    let g = mk(&p, None);
    ok(Centroid::get_centroid_from_polygon(&g), &[p.clone()], "get_centroid_from_polygon", c)?;
    ok(Centroid::new_from_polygon(&g).get_centroid(), &[p.clone()], "new_from_polygon", c)?;
    ok(g.get_centroid().get_coordinate(), &[p.clone()], "Polygon::get_centroid", c)?;
    // polygon area agrees with the exact rings
    let mut want = area2(&p.0).abs().to_f64() / 2.0;
    for h in &p.1 {
        want -= area2(h).abs().to_f64() / 2.0;
    }
    let (m, d) = span(&p.0);
    if m < 1e7 && d > 1e-6 {
        ck!((g.get_area() - want).abs() <= 1e-9 * (1.0 + d * d), "Polygon::get_area {:?}, exactly {:?}", g.get_area(), want);
    }
    let mut len = 0.0;
    for r in std::iter::once(&p.0).chain(p.1.iter()) {
        for w in r.windows(2) {
            let e = vsub(&v2(&w[0]), &v2(&w[1]));
            len += vdot(&e, &e).to_f64().sqrt();
        }
    }
    ck!((g.get_length() - len).abs() <= 1e-12 * (len + m), "Polygon::get_length {:?}, expected {:?}", g.get_length(), len);
    // reversing any ring changes nothing but rounding
    let mut q = p.clone();
    q.0.reverse();
    for h in q.1.iter_mut() {
        if s.bool() {
            h.reverse();
        }
    }
    ok(mk(&q, None).get_centroid().get_coordinate(), &[q], "reversed rings", c)
}

fn convex_inside(s: &mut Src, c: &mut Case) -> Res {
    // the centroid of a triangle is the mean of its corners; that of any ring lies in its bounding box
    let (r, _) = simple_ring(s, 8);
    let (m, _) = span(&r);
    c.show(|| fcs(&r));
    c.nontrivial_if(true);
    let g = mk(&(r.clone(), vec![]), None);
    let q = g.get_centroid().get_coordinate();
    let q = match q {
        Some(q) => q,
        None => return Err("no centroid".into()),
    };
    let t = 1e-13 * m;
    let xs: Vec<f64> = r.iter().map(|p| p.x).collect();
    let ys: Vec<f64> = r.iter().map(|p| p.y).collect();
    let lo = |v: &[f64]| v.iter().cloned().fold(f64::INFINITY, f64::min);
    let hi = |v: &[f64]| v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    ck!(q.x >= lo(&xs) - t && q.x <= hi(&xs) + t && q.y >= lo(&ys) - t && q.y <= hi(&ys) + t, "centroid {} outside the bounding box", fc(&q));
    Ok(())
}

fn multi(s: &mut Src, c: &mut Case) -> Res {
    let n = s.size(5);
    let mut ps: Vec<Poly> = vec![];
    let mut geos = vec![];
    for _ in 0..n {
        match s.below(6) {
            0 => {
                let p = gen_poly(s, true);
                geos.push(mk(&p, None));
                ps.push(p);
            }
            1 => {
                // an empty component contributes nothing
                geos.push(mk(&(vec![], vec![]), None));
                c.label("empty component");
            }
            _ => {
                let p = gen_poly(s, false);
                let (m, d) = span(&p.0);
                let p = if m > 1e6 || d < 1e-2 || d > 1e6 { (vec![c2(0., 0.), c2(3., 0.), c2(0., 3.), c2(0., 0.)], vec![]) } else { p };
                geos.push(mk(&p, None));
                ps.push(p);
            }
        }
    }
    c.show(|| format!("{}", ps.iter().map(|p| format!("<{} / {}>", fcs(&p.0), p.1.len())).collect::<Vec<_>>().join(" ")));
    c.nontrivial_if(ps.len() >= 2);
    let g = MultiPolygon::new_with_polygons(&geos);
    ok(Centroid::get_centroid_from_multi_polygon(&g), &ps, "get_centroid_from_multi_polygon", c)?;
    ok(Centroid::new_from_multi_polygon(&g).get_centroid(), &ps, "new_from_multi_polygon", c)?;
    let a = g.get_centroid().get_coordinate();
    let a = match a {
        Some(p) if p.x.is_nan() => None,
        x => x,
    };
    ok(a, &ps, "MultiPolygon::get_centroid", c)?;
    let mut want = 0.0;
    for p in &ps {
        want += area2(&p.0).abs().to_f64() / 2.0;
        for h in &p.1 {
            want -= area2(h).abs().to_f64() / 2.0;
        }
    }
    let all: Vec<Coordinate> = ps.iter().flat_map(|p| p.0.iter().cloned()).collect();
    let (m, _) = span(&all);
    ck!((g.get_area() - want).abs() <= 1e-9 * (1.0 + m * m), "MultiPolygon::get_area {:?}, exactly {:?}", g.get_area(), want);
    Ok(())
}

fn lines_points(s: &mut Src, c: &mut Case) -> Res {
    let r = if s.chance(1, 4) { Reg::Far(s.range(10, 40), 1 << s.range(2, 9)) } else { Reg::tame(s) };
    let n = s.size(9);
    let mut l: Vec<Coordinate> = vec![];
    for _ in 0..n {
        let p = if !l.is_empty() && s.chance(1, 5) { l[0] } else { r.pt(s) };
        l.push(p);
    }
    if s.chance(1, 8) {
        let f = r.pt(s);
        l = vec![f; n];
    }
    let k = rescale_wide(s);
    scale_by(&mut l.iter_mut().collect::<Vec<_>>(), k);
    c.show(|| format!("{:?} {}", r, fcs(&l)));
    c.nontrivial_if(n >= 3);
    if n != 1 {
        let ls = LineString::new_from_coordinate_sequence(CoordinateArraySequence::new_with_coordinates_dimension_measures(l.clone(), 2, 0));
        let got = Centroid::new_from_line_string(&ls).get_centroid();
        let w = low_dim(&[&l]);
        let (m, _) = span(&l);
        let t = 1e-13 * m * (n as f64 + 1.0);
        match (got, w) {
            (None, None) => {}
            (Some(g), Some(w)) => ck!((g.x - w.0).abs() <= t && (g.y - w.1).abs() <= t, "line centroid {}, expected {:?}", fc(&g), w),
            (g, w) => return Err(format!("line centroid {:?}, expected {:?}", g.map(|g| fc(&g)), w)),
        }
    }
    if let Some(p) = l.first() {
        let pt = Point::new_with_coordinate(p, None);
        for (k, got) in [("get_centroid_from_point", Centroid::get_centroid_from_point(&pt)), ("new_from_point", Centroid::new_from_point(&pt).get_centroid())] {
            ck!(got.map_or(false, |g| g.x == p.x && g.y == p.y), "{}: {:?}", k, got.map(|g| fc(&g)));
        }
    }
    Ok(())
}

fn incremental(s: &mut Src, c: &mut Case) -> Res {
    // mixed additions in any order: the highest dimension wins, additions accumulate
    let n = 1 + s.size(6);
    let mut cen = Centroid::default();
    let mut polys: Vec<Poly> = vec![];
    let mut lines: Vec<Vec<Coordinate>> = vec![];
    let mut pts: Vec<Coordinate> = vec![];
    let mut txt = vec![];
    ck!(cen.get_centroid().is_none(), "a new accumulator has a centroid");
    for _ in 0..n {
        match s.below(5) {
            0 => {
                let p = Reg::Mid.pt(s);
                txt.push(format!("point {}", fc(&p)));
                cen.add_point(&p);
                pts.push(p);
            }
            1 | 2 => {
                let k = s.below(5);
                let l: Vec<Coordinate> = (0..k).map(|_| Reg::Small.pt(s)).collect();
                txt.push(format!("line {}", fcs(&l)));
                cen.add_line_segments(&l);
                lines.push(l);
            }
            _ => {
                let flat = s.bool();
                let p = gen_poly(s, flat);
                let (m, d) = span(&p.0);
                if m > 1e6 || (!flat && d < 1e-2) {
                    continue;
                }
                txt.push(format!("polygon {} / {} holes", fcs(&p.0), p.1.len()));
                cen.add_polygon(&mk(&p, None));
                polys.push(p);
            }
        }
    }
    c.show(|| txt.join("; "));
    c.nontrivial_if(n >= 2);
    let got = cen.get_centroid();
    if exact_area_centroid(&polys).is_some() {
        return ok(got, &polys, "mixed", c);
    }
    // lower dimensions
    let mut all: Vec<&Vec<Coordinate>> = polys.iter().flat_map(|p| std::iter::once(&p.0).chain(p.1.iter())).collect();
    all.extend(lines.iter());
    let singles: Vec<Vec<Coordinate>> = pts.iter().map(|p| vec![*p]).collect();
    all.extend(singles.iter());
    let w = low_dim(&all);
    match (got, w) {
        (None, None) => {}
        (Some(g), Some(w)) => ck!((g.x - w.0).abs() <= 1e-9 && (g.y - w.1).abs() <= 1e-9, "centroid {}, expected {:?}", fc(&g), w),
        (g, w) => return Err(format!("centroid {:?}, expected {:?}", g.map(|g| fc(&g)), w)),
    }
    Ok(())
}

fn rounded(s: &mut Src, c: &mut Case) -> Res {
    // a polygon with a precision model has its centroid on that grid
    let (r, _) = simple_ring(s, 6);
    let (m, d) = span(&r);
    if m > 1e6 || d > 1e6 || d < 1.0 {
        return Ok(());
    }
    let sc = [1.0, 10.0, 100.0, 2.0, 0.5][s.below(5)];
    c.show(|| format!("scale {:?} {}", sc, fcs(&r)));
    c.nontrivial_if(true);
    let pm = PrecisionModel::new_with_scale(sc);
    let p = mk(&(r.clone(), vec![]), Some(pm));
    let mp = MultiPolygon::new_with_polygons_precision_model(&vec![mk(&(r.clone(), vec![]), None)], pm);
    let (x, y, _, _) = match exact_area_centroid(&[(r, vec![])]) {
        Some(v) => v,
        None => return Ok(()),
    };
    for (k, g) in [("polygon", p.get_centroid()), ("multi-polygon", mp.get_centroid())] {
        let g = match g.get_coordinate() {
            Some(g) => g,
            None => return Err(format!("{}: no centroid", k)),
        };
        for (v, w) in [(g.x, &x), (g.y, &y)] {
            let n = v * sc;
            ck!((n - n.round()).abs() <= 1e-6, "{}: centroid {} is off the grid of scale {:?}", k, fc(&g), sc);
            ck!((v - w.approx()).abs() <= 0.5 / sc + 1e-6, "{}: centroid {} too far from ({:?},{:?})", k, fc(&g), x.approx(), y.approx());
        }
    }
    // single precision: the nearest f32; full precision: unchanged
    let (f, d) = (PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle), PrecisionModel::default());
    let ring = p.get_exterior_ring().get_coordinates();
    let plain = mk(&(ring.clone(), vec![]), None);
    let one = |pm: PrecisionModel| mk(&(ring.clone(), vec![]), Some(pm)).get_centroid().get_coordinate();
    let many = |pm: PrecisionModel| MultiPolygon::new_with_polygons_precision_model(&vec![plain.copy()], pm).get_centroid().get_coordinate();
    let w = match plain.get_centroid().get_coordinate() {
        Some(w) => w,
        None => return Err("no centroid".into()),
    };
    for (k, g, h) in [("polygon", one(f), one(d)), ("multi-polygon", many(f), many(d))] {
        match (g, h) {
            (Some(g), Some(h)) => {
                ck!(same(h.x, w.x) && same(h.y, w.y), "{}: centroid {} in full precision, {} without a model", k, fc(&h), fc(&w));
                ck!(g.x == w.x as f32 as f64 && g.y == w.y as f32 as f64, "{}: centroid {} in single precision, {} in full", k, fc(&g), fc(&w));
            }
            _ => return Err(format!("{}: no centroid", k)),
        }
    }
    Ok(())
}

/// any length outweighs any number of points, however short it is
fn short_lines(s: &mut Src, c: &mut Case) -> Res {
    let k = 2f64.powi(-(s.range(0, 400) as i32));
    let mut rings: Vec<Vec<Coordinate>> = vec![];
    let mut lines: Vec<Vec<Coordinate>> = vec![];
    for _ in 0..1 + s.below(4) {
        if s.chance(2, 3) {
            let p = Reg::Small.pt(s);
            rings.push(vec![p; 4]);
        } else {
            let mut l = flat_ring(s);
            scale_by(&mut l.iter_mut().collect::<Vec<_>>(), k);
            lines.push(l.clone());
            rings.push(l);
        }
    }
    c.show(|| rings.iter().map(|r| fcs(r)).collect::<Vec<_>>().join(" / "));
    let all: Vec<&Vec<Coordinate>> = rings.iter().collect();
    let w = match low_dim(&all) {
        Some(w) => w,
        None => return Ok(()),
    };
    let long = lines.iter().any(|l| l.iter().any(|p| p.x != l[0].x || p.y != l[0].y));
    let t = 1e-12 * if long { 40.0 * k } else { 10.0 };
    c.lab(long && k < 1e-9, "short length");
    c.nontrivial_if(long && lines.len() < rings.len());
    let polys: Vec<Polygon> = rings.iter().map(|r| mk(&(r.clone(), vec![]), None)).collect();
    let g = MultiPolygon::new_with_polygons(&polys);
    let mut parts = Centroid::default();
    for r in &rings {
        if r.iter().all(|p| p.x == r[0].x && p.y == r[0].y) && s.bool() {
            parts.add_point(&r[0]);
        } else {
            parts.add_line_segments(r);
        }
    }
    for (k, g) in [
        ("multi-polygon", Centroid::get_centroid_from_multi_polygon(&g)),
        ("MultiPolygon::get_centroid", g.get_centroid().get_coordinate()),
        ("parts", parts.get_centroid()),
    ] {
        match g {
            Some(g) => ck!((g.x - w.0).abs() <= t && (g.y - w.1).abs() <= t, "{}: centroid {}, expected {:?}", k, fc(&g), w),
            None => return Err(format!("{}: no centroid", k)),
        }
    }
    Ok(())
}

fn large_polygon(s: &mut Src, c: &mut Case) -> Res {
    s.big = 5_000;
    polygon(s, c)
}
fn large_multi(s: &mut Src, c: &mut Case) -> Res {
    s.big = 2_048;
    multi(s, c)
}
fn large_lines_points(s: &mut Src, c: &mut Case) -> Res {
    s.big = 20_000;
    lines_points(s, c)
}

static SUBS: &[Sub] = &[
    Sub { name: "polygon", rule: "shell with area", quick: 100_000, f: polygon },
    Sub { name: "convex_inside", rule: "every case", quick: 60_000, f: convex_inside },
    Sub { name: "multi", rule: "at least two non-empty components", quick: 60_000, f: multi },
    Sub { name: "lines_points", rule: "at least two segments", quick: 100_000, f: lines_points },
    Sub { name: "incremental", rule: "at least two additions", quick: 60_000, f: incremental },
    Sub { name: "short_lines", rule: "lines with length among points", quick: 60_000, f: short_lines },
    Sub { name: "rounded", rule: "polygon on a moderate grid", quick: 40_000, f: rounded },
    Sub { name: "large polygon", rule: "shell with area", quick: 10, f: large_polygon },
    Sub { name: "large multi", rule: "at least two non-empty components", quick: 5, f: large_multi },
    Sub { name: "large lines", rule: "at least two segments", quick: 20, f: large_lines_points },
];
fn main() {
    gv::main(
        "P10",
        "polygons with holes, multi-polygons, lines, points and mixed accumulations on integer grids; oracle: exact rational area-weighted centroid, then length- and count-weighted means",
        &["shells and holes are simple rings or area-less; tolerance scales with cancellation between shell and holes"],
        SUBS,
    );
}
