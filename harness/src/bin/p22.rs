//! P22: precision models round to the nearest representable value.
use gv::g::*;
use gv::*;
type PM = PrecisionModel;
type T = PrecisionModelType;

/// the grid step as an exact dyadic when it is one
fn scale_of(s: &mut Src) -> (f64, bool) {
    let wide = s.chance(1, 4);
    match s.below(5) {
        0 => (f64::powi(2.0, s.sint(if wide { 60 } else { 20 }) as i32), true),
        1 => (f64::powi(10.0, s.sint(if wide { 18 } else { 8 }) as i32), false),
        2 => ((1 + s.below(5000)) as f64, false),
        3 => (1.0 / (1 + s.below(5000)) as f64, false),
        _ => ((1.0 + s.unit()) * f64::powi(2.0, s.sint(20) as i32), false),
    }
}
/// step > 0; model built with a scale factor or with a grid size; plus whether products by the scale are exact
struct Fixed {
    pm: PM,
    grid: bool,
    f: f64,
    exact: bool,
}
fn fixed(s: &mut Src) -> Fixed {
    let (f, exact) = scale_of(s);
    let grid = s.bool();
    let signed = if grid { -f } else { f };
    let mut pm = match s.below(4) {
        0 | 1 => PM::new_with_scale(signed),
        2 => {
            let mut p = PM::new_with_type(T::Fixed);
            p.set_scale(signed);
            p
        }
        _ => {
            // the scale in force is the last one set
            let (o, _) = scale_of(s);
            let mut p = PM::new_with_scale(if s.bool() { o } else { -o });
            p.set_scale(signed);
            p
        }
    };
    if s.chance(1, 4) {
        pm = PM::from_precision_model(pm);
    }
    Fixed { pm, grid, f, exact }
}
impl Fixed {
    fn at(&self, k: f64) -> f64 {
        if self.grid { k * self.f } else { k / self.f }
    }
    fn units(&self, v: f64) -> f64 {
        if self.grid { v / self.f } else { v * self.f }
    }
    fn text(&self) -> String {
        format!("{} {:?}", if self.grid { "grid size" } else { "scale" }, self.f)
    }
}

fn fixed_value(s: &mut Src, c: &mut Case) -> Res {
    let mut p = fixed(s);
    let k = match s.below(3) {
        0 => s.sint(20),
        1 => s.sint(1_000_000),
        _ => s.sint(1 << 40),
    } as f64;
    // a point on the grid, a tie, near a tie, or anywhere
    let (mode, off) = match s.below(5) {
        0 => ("grid point", 0.0),
        1 => ("tie", 0.5),
        2 => ("near a tie", 0.5 + s.sint(3) as f64 * 2e-4),
        3 => ("near a grid point", s.sint(3) as f64 * 2e-4),
        _ => ("anywhere", s.unit()),
    };
    let v = p.at(k + off);
    c.show(|| format!("{} value {:?} ({})", p.text(), v, mode));
    c.label(mode);
    let r = p.pm.make_precise(v);
    let u = p.units(v);
    let got = p.units(r).round();
    let tol = 1e-15 * (1.0 + u.abs());
    // (a) a grid value
    ck!(r == p.at(got), "{}: {:?} rounds to {:?}, not a grid value", p.text(), v, r);
    // (b) the nearest one
    ck!((u - got).abs() <= 0.5 + 2.0 * tol, "{}: {:?} rounds to {:?}, not nearest", p.text(), v, r);
    // (c) ties go up
    if p.exact {
        let w = (u + 0.5).floor();
        ck!(got == w, "{}: {:?} rounds to {:?} instead of {:?}", p.text(), v, r, p.at(w));
        c.lab((u - u.floor()) == 0.5, "exact tie");
        c.lab((u - u.floor()) == 0.5 && u < 0.0, "negative tie");
    }
    // (d) idempotent
    let r2 = p.pm.make_precise(r);
    ck!(r2 == r, "{}: {:?} rounds to {:?}, which rounds to {:?}", p.text(), v, r, r2);
    if mode == "grid point" {
        ck!(r == v, "{}: grid value {:?} moves to {:?}", p.text(), v, r);
    }
    // (e) monotone
    let w = v + p.at(s.unit() * s.pick(&[0.01, 1.0, 3.0]));
    let rw = p.pm.make_precise(w);
    ck!(rw >= r, "{}: {:?} < {:?} round to {:?} > {:?}", p.text(), v, w, r, rw);
    // (f) translation by a whole number of steps when exact
    if p.exact {
        let j = s.sint(100) as f64;
        let t = p.pm.make_precise(v + p.at(j));
        ck!(t == r + p.at(j), "{}: rounding {:?} does not commute with moving by {} steps", p.text(), v, j);
    }
    // (g) beyond 2^53 steps every number is its own nearest grid value, up to the last bits
    let e = 53 + s.below(900) as i32;
    let big = p.at((1.0 + s.unit().abs()) * 2f64.powi(e) * if s.bool() { 1.0 } else { -1.0 });
    let rb = p.pm.make_precise(big);
    if p.exact {
        ck!(rb == big, "{}: {:?} is a whole number of steps, but becomes {:?}", p.text(), big, rb);
    } else {
        ck!((rb / big - 1.0).abs() < 1e-15, "{}: {:?} becomes {:?}", p.text(), big, rb);
    }
    ck!(p.pm.make_precise(f64::NAN).is_nan(), "NaN became {:?}", p.pm.make_precise(f64::NAN));
    c.nontrivial_if(off != 0.0);
    Ok(())
}

fn accessors(s: &mut Src, c: &mut Case) -> Res {
    let p = fixed(s);
    c.show(|| p.text());
    let (sc, gr) = if p.grid { (1.0 / p.f, p.f) } else { (p.f, 1.0 / p.f) };
    ck!(p.pm.get_scale() == sc, "{}: scale reads {:?}", p.text(), p.pm.get_scale());
    ck!(p.pm.grid_size() == gr, "{}: grid size reads {:?}", p.text(), p.pm.grid_size());
    ck!(!p.pm.is_floating() && p.pm.get_type() == T::Fixed, "{}: not fixed", p.text());
    ck!(format!("{}", p.pm) == format!("Fixed (Scale={})", sc), "{}: prints {}", p.text(), p.pm);
    let lg = sc.log10();
    let d = p.pm.get_maximum_significant_digits();
    if (lg - lg.round()).abs() > 1e-9 {
        ck!(d == 1 + lg.ceil() as i32, "{}: {} significant digits", p.text(), d);
    } else {
        ck!(d == 1 + lg.round() as i32 || d == 2 + lg.round() as i32, "{}: {} significant digits", p.text(), d);
    }
    let mut q = fixed(s);
    if s.chance(1, 4) {
        // nearly the same scale
        q.f = if s.bool() { next_up(p.f) } else { p.f * (1.0 + 1e-10 * s.unit()) };
        q.grid = p.grid;
        q.pm = PM::new_with_scale(if q.grid { -q.f } else { q.f });
    }
    ck!(p.pm.equals(q.pm) == (p.pm.get_scale() == q.pm.get_scale()), "{} equals {}: {}", p.text(), q.text(), p.pm.equals(q.pm));
    ck!(p.pm.equals(PM::from_precision_model(p.pm)), "{}: copy differs", p.text());
    let mut all = vec![p.pm, q.pm, PM::default(), PM::new_with_type(T::Floating), PM::new_with_type(T::FloatingSingle), PM::new_with_type(T::Fixed)];
    let digits = |m: &PM| m.get_maximum_significant_digits();
    ck!(digits(&all[2]) == 16 && digits(&all[3]) == 16 && digits(&all[4]) == 6 && digits(&all[5]) == 1, "significant digits of the standard models");
    for i in 0..all.len() {
        for j in 0..all.len() {
            let w = (digits(&all[i]) - digits(&all[j])).signum();
            ck!(all[i].compare_to(&all[j]).signum() == w, "comparison of {} with {}: {}", all[i], all[j], all[i].compare_to(&all[j]));
            let fl = |k: usize| match k { 2 | 3 => 0, 4 => 1, _ => 2 };
            let eq = fl(i) == fl(j) && (fl(i) != 2 || all[i].get_scale() == all[j].get_scale());
            ck!(all[i].equals(all[j]) == eq, "equality of {} with {}: {}", all[i], all[j], !eq);
        }
    }
    for k in [2, 3, 4] {
        ck!(all[k].is_floating() && all[k].grid_size().is_nan(), "{} floating", all[k]);
    }
    ck!(!all[5].is_floating() && all[5].get_scale() == 1.0 && all[5].grid_size() == 1.0, "standard fixed model");
    ck!(format!("{} {}", all[2], all[4]) == "Floating Floating-Single", "names {} {}", all[2], all[4]);
    let _ = all.pop();
    c.nontrivial_if(sc != 1.0);
    Ok(())
}

fn floating(s: &mut Src, c: &mut Case) -> Res {
    let mut f = if s.bool() { PM::default() } else { PM::new_with_type(T::Floating) };
    let mut g = PM::new_with_type(T::FloatingSingle);
    let v = match s.below(3) {
        0 => f64::from_bits(s.draw(0)),
        1 => {
            // around the midpoint of two neighbouring single-precision values
            let a = f32::from_bits((s.below(0x7f00_0000)) as u32);
            let b = f32::from_bits(a.to_bits() + 1);
            let m = (a as f64 + b as f64) / 2.0;
            let m = match s.below(3) { 0 => m, 1 => next_up(m), _ => next_down(m) };
            if s.bool() { m } else { -m }
        }
        _ => (s.unit() - 0.5) * f64::powi(10.0, s.sint(30) as i32),
    };
    if v.is_nan() {
        return Ok(());
    }
    c.show(|| format!("{:?}", v));
    ck!(f.make_precise(v) == v, "floating model changes {:?} to {:?}", v, f.make_precise(v));
    let r = g.make_precise(v);
    let single = |x: f64| x.is_infinite() || (x as f32) as f64 == x;
    ck!(single(r), "{:?} rounds to {:?}, not a single-precision value", v, r);
    ck!(g.make_precise(r) == r, "{:?} rounds to {:?}, not stable", v, r);
    if r.is_finite() && v.is_finite() {
        // neighbours in single precision are no nearer
        let b = (r as f32).to_bits();
        for n in [b.wrapping_add(1), b.wrapping_sub(1)] {
            let n = f32::from_bits(n) as f64;
            if n.is_finite() && (n - r).abs() < 1e38 && r != 0.0 {
                let (dn, dr) = ((&Dy::f(n) - &Dy::f(v)).abs(), (&Dy::f(r) - &Dy::f(v)).abs());
                ck!(dr.le(&dn), "{:?} rounds to {:?} although {:?} is nearer", v, r, n);
            }
        }
        if r == 0.0 {
            ck!(v.abs() <= f32::from_bits(1) as f64 / 2.0, "{:?} rounds to zero", v);
        }
    }
    c.nontrivial_if(r != v);
    Ok(())
}

fn coordinates(s: &mut Src, c: &mut Case) -> Res {
    let mut p = match s.below(4) {
        0 => PM::default(),
        1 => PM::new_with_type(T::FloatingSingle),
        _ => fixed(s).pm,
    };
    let mut v = || {
        if s.chance(1, 8) { f64::NAN } else { (s.unit() - 0.5) * f64::powi(10.0, s.range(0, 7) as i32) }
    };
    let a = Coordinate::new_xyzm(v(), v(), v(), v());
    c.show(|| format!("{} {}", p, fc(&a)));
    let mut b = Coordinate::new_xyzm(a.x, a.y, a.z, a.m);
    p.make_precise_coordinate(&mut b);
    let (x, y) = (p.make_precise(a.x), p.make_precise(a.y));
    ck!(same(b.x, x) && same(b.y, y), "{}: {} becomes {}, its ordinates round to {:?} {:?}", p, fc(&a), fc(&b), x, y);
    ck!(same(b.z, a.z) && same(b.m, a.m), "{}: {} becomes {}", p, fc(&a), fc(&b));
    c.nontrivial_if(!same(b.x, a.x) || !same(b.y, a.y));
    Ok(())
}

/// rounding depends on the model and the value alone, whatever the model rounded, compared or printed before
fn history(s: &mut Src, c: &mut Case) -> Res {
    let fresh = match s.below(4) {
        0 => PM::default(),
        1 => PM::new_with_type(T::FloatingSingle),
        _ => fixed(s).pm,
    };
    let mut used = fresh;
    let step = if fresh.is_floating() { 0.1 } else { fresh.grid_size() };
    let pool: Vec<f64> = (0..1 + s.below(4)).map(|_| step * (s.sint(9) as f64 + s.pick(&[0.0, 0.25, 0.5, 0.75]))).collect();
    c.show(|| format!("{} on {:?}", fresh, pool));
    let n = 2 + s.below(12);
    for i in 0..n {
        let v = pool[s.below(pool.len())];
        let mut f = fresh;
        let w = f.make_precise(v);
        match s.below(4) {
            0 => {
                let mut p = Coordinate::new_xy(v, -v);
                used.make_precise_coordinate(&mut p);
                let mut f = fresh;
                ck!(same(p.x, w) && same(p.y, f.make_precise(-v)), "step {}: {:?} becomes {}, a fresh model gives {:?}", i, v, fc(&p), w);
            }
            1 => {
                let _ = (format!("{}", used), used.get_maximum_significant_digits(), used.equals(fresh), used.compare_to(&fresh));
            }
            _ => {
                let g = used.make_precise(v);
                ck!(same(g, w), "step {}: {:?} becomes {:?}, a fresh model gives {:?}", i, v, g, w);
                if fresh.get_type() == T::Floating {
                    ck!(g == v, "step {}: {:?} becomes {:?} in full precision", i, v, g);
                }
            }
        }
        ck!(used.equals(fresh) && used.get_scale() == fresh.get_scale(), "step {}: the model changed", i);
    }
    c.nontrivial_if(n > 2);
    Ok(())
}

fn main() {
    gv::main(
        "P22",
        "fixed models by scale factor or grid size (powers of two and ten, integers, reciprocals, arbitrary), single and double floating models; values at, near and between grid points and ties, |units| < 2^41",
        &["ties are asserted only where products with the scale are exact (powers of two)", "the digit count at exact powers of ten may be one too large (documented as approximate)"],
        &[
            Sub { name: "fixed rounding", rule: "the value is off the grid", quick: 60_000, f: fixed_value },
            Sub { name: "model accessors and comparison", rule: "the scale is not 1", quick: 20_000, f: accessors },
            Sub { name: "floating rounding", rule: "single precision changes the value", quick: 60_000, f: floating },
            Sub { name: "rounding histories", rule: "three or more steps", quick: 20_000, f: history },
            Sub { name: "coordinates", rule: "the coordinate changes", quick: 30_000, f: coordinates },
        ],
    );
}
