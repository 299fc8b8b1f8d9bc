//! P13: double-double arithmetic is accurate to about 31 digits and keeps results normalized.
use gv::g::*;
use gv::*;

/// (hi, lo) of a value, through its printed components (shortest round-trip decimal)
fn parts(d: &DD) -> (f64, f64) {
    let t = d.dump();
    let b = t.trim_start_matches("DD<").trim_end_matches('>');
    let mut it = b.split(", ").map(|x| x.parse::<f64>().unwrap_or(f64::NAN));
    let h = it.next().unwrap_or(f64::NAN);
    (h, it.next().unwrap_or(f64::NAN))
}
fn val(d: &DD) -> Dy {
    let (h, l) = parts(d);
    &Dy::f(h) + &Dy::f(l)
}
fn sh(d: &DD) -> String {
    let (h, l) = parts(d);
    format!("<{:?},{:?}>", h, l)
}

fn scale(s: &mut Src) -> i32 {
    match s.below(4) {
        0 => 0,
        1 => s.sint(4) as i32,
        2 => s.sint(60) as i32,
        _ => s.sint(150) as i32,
    }
}
pub fn num(s: &mut Src) -> f64 {
    match s.below(6) {
        0 => s.sint(9) as f64,
        1 => s.sint(1 << 40) as f64,
        2 => [0.5, 0.1, 1.0 / 3.0, 1e10, 1.5, 123456.789, 0.7, 3.0][s.below(8)],
        3 => {
            let k = scale(s);
            // neighbours of powers of two
            let e = s.sint(2);
            let mut v = 2f64.powi(k);
            for _ in 0..e.abs() {
                v = if e > 0 { next_up(v) } else { next_down(v) };
            }
            if s.bool() { -v } else { v }
        }
        _ => {
            let k = scale(s);
            (s.unit() * 2.0 - 1.0) * 2f64.powi(k)
        }
    }
}
/// a normalized double-double
pub fn ddv(s: &mut Src) -> DD {
    let h = num(s);
    let u = if h == 0.0 { 0.0 } else { ulp(h) / 2.0 };
    let l = match s.below(6) {
        0 => 0.0,
        1 => u,
        2 => -u,
        3 => (s.unit() * 2.0 - 1.0) * u * 2f64.powi(-(s.below(60) as i32)),
        _ => (s.unit() * 2.0 - 1.0) * u,
    };
    let hi = h + l;
    // exact remainder
    let lo = (&(&Dy::f(h) + &Dy::f(l)) - &Dy::f(hi)).to_f64();
    DD::new_hi_lo(hi, lo)
}

/// relative error below 2^-bits, and normalized
fn acc(what: &str, got: &DD, want: &Rt, bits: i64) -> Res {
    let (h, l) = parts(got);
    ck!(h.is_finite() && l.is_finite(), "{}: {} for a finite value near {:?}", what, sh(got), want.approx());
    ck!(h + l == h && got.double_value() == h, "{}: {} is not normalized", what, sh(got));
    let err = Rt::dy(val(got)).sub(want).abs();
    let lim = want.abs().mul(&Rt::dy(Dy::pow2(-bits)));
    ck!(err.le(&lim), "{}: {} differs from the exact value near {:?} by {:e} (relative {:e}, allowed 2^-{})", what, sh(got), want.approx(), err.approx(), err.approx() / want.approx().abs(), bits);
    Ok(())
}

fn add_sub(s: &mut Src, c: &mut Case) -> Res {
    let a = ddv(s);
    let mut b = ddv(s);
    match s.below(5) {
        0 => {
            // cancellation: b close to -a
            let (h, l) = parts(&a);
            let k = s.sint(3) as f64;
            let hi = -h;
            let lo = -l + k * ulp(l);
            if hi + lo == hi {
                b = DD::new_hi_lo(hi, lo);
                c.label("cancelling");
            }
        }
        1 => b = DD::new_x(-parts(&a).0),
        _ => {}
    }
    let y = if s.bool() { parts(&b).0 } else { num(s) };
    c.show(|| format!("{} {} {:?}", sh(&a), sh(&b), y));
    c.nontrivial_if(parts(&a).1 != 0.0 || parts(&b).1 != 0.0);
    let (va, vb) = (val(&a), val(&b));
    let sum = Rt::dy(&va + &vb);
    let dif = Rt::dy(&va - &vb);
    acc("add_dd", &a.add_dd(&b), &sum, 103)?;
    acc("add_dd commuted", &b.add_dd(&a), &sum, 103)?;
    acc("subtract_dd", &a.subtract_dd(&b), &dif, 103)?;
    let mut m = a;
    m.self_add_dd(&b);
    acc("self_add_dd", &m, &sum, 103)?;
    let mut m = a;
    m.self_subtract_dd(&b);
    acc("self_subtract_dd", &m, &dif, 103)?;
    let mut m = a;
    let (h, l) = parts(&b);
    m.self_add_hi_lo(h, l);
    acc("self_add_hi_lo", &m, &sum, 103)?;
    let sy = Rt::dy(&va + &Dy::f(y));
    let dy_ = Rt::dy(&va - &Dy::f(y));
    acc("add_f64", &a.add_f64(y), &sy, 103)?;
    acc("subtract_f64", &a.subtract_f64(y), &dy_, 103)?;
    let mut m = a;
    m.self_add_f64(y);
    acc("self_add_f64", &m, &sy, 103)?;
    let mut m = a;
    m.self_subtract_f64(y);
    acc("self_subtract_f64", &m, &dy_, 103)?;
    acc("negate", &a.negate(), &Rt::dy(-&va), 2000)?;
    acc("abs", &a.abs(), &Rt::dy(va.abs()), 2000)?;
    // exact identities
    ck!(a.subtract_dd(&a).is_zero(), "x - x = {}", sh(&a.subtract_dd(&a)));
    ck!(a.add_f64(0.0).equals(&a) && a.add_dd(&DD::default()).equals(&a), "x + 0 differs from x");
    ck!(a.negate().negate().equals(&a), "double negation");
    Ok(())
}

fn mul_div(s: &mut Src, c: &mut Case) -> Res {
    let a = ddv(s);
    let b = ddv(s);
    let y = num(s);
    c.show(|| format!("{} {} {:?}", sh(&a), sh(&b), y));
    c.nontrivial_if(parts(&a).1 != 0.0 || parts(&b).1 != 0.0);
    let (va, vb, vy) = (val(&a), val(&b), Dy::f(y));
    let p = Rt::dy(&va * &vb);
    acc("multiply_dd", &a.multiply_dd(&b), &p, 101)?;
    acc("multiply_dd commuted", &b.multiply_dd(&a), &p, 101)?;
    let mut m = a;
    m.self_multiply_dd(&b);
    acc("self_multiply_dd", &m, &p, 101)?;
    let (h, l) = parts(&b);
    let mut m = a;
    m.self_multiply_hi_lo(h, l);
    acc("self_multiply_hi_lo", &m, &p, 101)?;
    let py = Rt::dy(&va * &vy);
    acc("multiply_f64", &a.multiply_f64(y), &py, 101)?;
    let mut m = a;
    m.self_multiply_f64(y);
    acc("self_multiply_f64", &m, &py, 101)?;
    // products of two doubles are exact
    acc("double product", &DD::value_of_f64(y).multiply_f64(h), &Rt::dy(&vy * &Dy::f(h)), 2000)?;
    acc("sqr", &a.sqr(), &Rt::dy(va.sq()), 101)?;
    let mut m = a;
    m.self_sqr();
    acc("self_sqr", &m, &Rt::dy(va.sq()), 101)?;
    acc("sqr_f64", &a.sqr_f64(y), &Rt::dy(vy.sq()), 2000)?;
    ck!(a.multiply_f64(1.0).equals(&a), "x * 1 differs from x");
    ck!(a.multiply_f64(0.0).is_zero() && DD::default().multiply_dd(&a).is_zero(), "x * 0 is not 0");
    let k = s.sint(40) as i32;
    acc("scaling by a power of two", &a.multiply_f64(2f64.powi(k)), &Rt::dy(va.scale2(k as i64)), 2000)?;
    if !vb.is_zero() {
        let q = Rt::dy(va.clone()).div(&Rt::dy(vb.clone()));
        acc("divide_dd", &a.divide_dd(&b), &q, 100)?;
        let mut m = a;
        m.self_divide_dd(&b);
        acc("self_divide_dd", &m, &q, 100)?;
        let mut m = a;
        m.self_divide_hi_lo(h, l);
        acc("self_divide_hi_lo", &m, &q, 100)?;
        acc("reciprocal", &b.reciprocal(), &Rt::new(Dy::int(1), vb.clone()), 100)?;
        let one = b.divide_dd(&b);
        acc("x / x", &one, &Rt::f(1.0), 100)?;
    }
    if y != 0.0 {
        let q = Rt::new(va.clone(), vy.clone());
        acc("divide_f64", &a.divide_f64(y), &q, 100)?;
        let mut m = a;
        m.self_divide_f64(y);
        acc("self_divide_f64", &m, &q, 100)?;
    }
    Ok(())
}

/// operands of very different magnitude, far from overflow and underflow of any partial product
fn far_scales(s: &mut Src, c: &mut Case) -> Res {
    let a0 = ddv(s);
    let b0 = ddv(s);
    let ka = s.sint(1000);
    let kb = if s.bool() { (-ka + s.sint(200)).clamp(-1000, 1000) } else { s.sint(1000) };
    let up = |d: &DD, k: i64| {
        let (h, l) = parts(d);
        let f = |x: f64| Dy::f(x).scale2(k).to_f64();
        DD::new_hi_lo(f(h), f(l))
    };
    let ex = |d: &DD| if parts(d).0 == 0.0 { 0 } else { parts(d).0.abs().log2().floor() as i64 };
    let ok = |k: i64| (-800..=900).contains(&k);
    let (ea, eb) = (ex(&a0) + ka, ex(&b0) + kb);
    // an operand may itself be tiny, as long as what is computed from it is not
    if !(-1000..=900).contains(&ea) || !(-1000..=900).contains(&eb) {
        return Ok(());
    }
    let (a, b) = (up(&a0, ka), up(&b0, kb));
    c.show(|| format!("{} {}", sh(&a), sh(&b)));
    c.nontrivial_if(parts(&a).1 != 0.0 && parts(&b).1 != 0.0);
    let (va, vb) = (val(&a), val(&b));
    let (h, l) = parts(&b);
    if ok(ea + eb) {
        c.label("product");
        let p = Rt::dy(&va * &vb);
        acc("multiply_dd", &a.multiply_dd(&b), &p, 101)?;
        acc("multiply_dd commuted", &b.multiply_dd(&a), &p, 101)?;
        let mut m = a;
        m.self_multiply_dd(&b);
        acc("self_multiply_dd", &m, &p, 101)?;
        acc("multiply_f64", &a.multiply_f64(h), &Rt::dy(&va * &Dy::f(h)), 101)?;
        let mut m = a;
        m.self_multiply_hi_lo(h, l);
        acc("self_multiply_hi_lo", &m, &p, 101)?;
    }
    if !vb.is_zero() && ok(ea) && ok(ea - eb) {
        c.label("quotient");
        let q = Rt::dy(va.clone()).div(&Rt::dy(vb.clone()));
        acc("divide_dd", &a.divide_dd(&b), &q, 100)?;
        let mut m = a;
        m.self_divide_dd(&b);
        acc("self_divide_dd", &m, &q, 100)?;
        acc("divide_f64", &a.divide_f64(h), &Rt::new(va.clone(), Dy::f(h)), 100)?;
        if ok(-eb) {
            acc("reciprocal", &b.reciprocal(), &Rt::new(Dy::int(1), vb.clone()), 100)?;
        }
    }
    acc("add_dd", &a.add_dd(&b), &Rt::dy(&va + &vb), 103)?;
    acc("subtract_dd", &b.subtract_dd(&a), &Rt::dy(&vb - &va), 103)?;
    if va.sign() > 0 && ok(ea) {
        // root: relative error below 2^-99 after squaring
        let r = a.sqrt_dd();
        let (rh, rl) = parts(&r);
        ck!(rh + rl == rh, "root {} is not normalized", sh(&r));
        let d = Rt::dy(val(&r).sq()).sub(&Rt::dy(va.clone())).abs();
        ck!(d.le(&Rt::dy(va.scale2(-97))), "root of {} is {}", sh(&a), sh(&r));
    }
    // the square, in place or not
    if (-350..=450).contains(&ea) {
        c.label("square");
        let p = Rt::dy(va.sq());
        acc("sqr", &a.sqr(), &p, 101)?;
        let mut m = a;
        m.self_sqr();
        acc("self_sqr", &m, &p, 101)?;
    }
    Ok(())
}

fn roots(s: &mut Src, c: &mut Case) -> Res {
    let mut a = ddv(s);
    if s.chance(1, 5) {
        // perfect squares
        let n = s.sint(1 << 26) as f64;
        a = DD::new_x(n * n);
    }
    c.show(|| sh(&a));
    let v = val(&a);
    let r = a.sqrt_dd();
    if v.sign() < 0 {
        ck!(r.is_nan(), "root of a negative value is {}", sh(&r));
    } else if v.is_zero() {
        ck!(r.is_zero(), "root of zero is {}", sh(&r));
    } else {
        c.nontrivial_if(true);
        let (h, l) = parts(&r);
        ck!(h > 0.0 && h + l == h, "root {} not positive and normalized", sh(&r));
        // (1 - e)^2 <= r^2 / v <= (1 + e)^2
        let sq = Rt::new(val(&r).sq(), v.clone());
        ck!(sq.sub(&Rt::f(1.0)).abs().le(&Rt::dy(Dy::pow2(-98))), "root {} of {} has relative error {:e}", sh(&r), sh(&a), sq.sub(&Rt::f(1.0)).approx() / 2.0);
    }
    let y = num(s);
    let r = a.sqrt_f64(y);
    if y < 0.0 {
        ck!(r.is_nan(), "root of {:?} is {}", y, sh(&r));
    } else if y == 0.0 {
        ck!(r.is_zero(), "root of 0 is {}", sh(&r));
    } else {
        let sq = Rt::new(val(&r).sq(), Dy::f(y));
        ck!(sq.sub(&Rt::f(1.0)).abs().le(&Rt::dy(Dy::pow2(-98))), "root {} of {:?} has relative error {:e}", sh(&r), y, sq.sub(&Rt::f(1.0)).approx() / 2.0);
    }
    Ok(())
}

fn determinants(s: &mut Src, c: &mut Case) -> Res {
    // determinants of doubles: products are exact, so the sign is exact and the value accurate
    let (x1, y1) = (num(s), num(s));
    let (mut x2, mut y2) = (num(s), num(s));
    if s.chance(1, 2) {
        // nearly parallel
        let k = [0.5, 1.0, 2.0, 3.0, 1.0 / 3.0, -1.0, 1.7][s.below(7)];
        x2 = x1 * k;
        y2 = y1 * k;
        if s.bool() && y2 != 0.0 {
            y2 = if s.bool() { next_up(y2) } else { next_down(y2) };
        }
        c.label("nearly parallel");
    }
    c.show(|| format!("({:?},{:?}) ({:?},{:?})", x1, y1, x2, y2));
    let e = &(&Dy::f(x1) * &Dy::f(y2)) - &(&Dy::f(y1) * &Dy::f(x2));
    let d = DD::determinant_xy_f64(x1, y1, x2, y2);
    c.nontrivial_if(!e.is_zero());
    ck!(d.signum() == e.sign(), "sign of the determinant {} but exactly {}", d.signum(), e.sign());
    acc("determinant_xy_f64", &d, &Rt::dy(e), 103)?;
    let (a, b, p, q) = (ddv(s), ddv(s), ddv(s), ddv(s));
    let d = DD::determinant_xy_dd(&a, &b, &p, &q);
    let (u, w) = (&val(&a) * &val(&q), &val(&b) * &val(&p));
    let err = Rt::dy(&val(&d) - &(&u - &w)).abs();
    let lim = Rt::dy(&(&u.abs() + &w.abs()) * &Dy::pow2(-100));
    ck!(err.le(&lim), "determinant_xy_dd {} of {} {} {} {}: error {:e}", sh(&d), sh(&a), sh(&b), sh(&p), sh(&q), err.approx());
    Ok(())
}

fn powers(s: &mut Src, c: &mut Case) -> Res {
    let h = match s.below(4) {
        0 => s.sint(9) as f64,
        1 => 1.0 + (s.unit() - 0.5) * 2f64.powi(-(s.below(40) as i32)),
        _ => (s.unit() * 2.0 - 1.0) * 2f64.powi(s.sint(4) as i32),
    };
    let l = if h == 0.0 { 0.0 } else { (s.unit() - 0.5) * ulp(h) * 0.5 };
    let a = DD::new_hi_lo(h, if s.bool() { 0.0 } else { l });
    let e = match s.below(24) / 7 {
        3 if s.bool() => s.sint(5000),
        0 => s.sint(4),
        1 => s.sint(20),
        _ => s.sint(120),
    } as i32;
    c.show(|| format!("{} ^ {}", sh(&a), e));
    c.nontrivial_if(e.abs() > 1);
    let v = val(&a);
    if v.is_zero() && e <= 0 {
        ck!(e != 0 || a.pow(0).equals(&DD::new_x(1.0)), "0^0 = {}", sh(&a.pow(0)));
        return Ok(());
    }
    let n = e.unsigned_abs();
    // exact power would be huge: multiply with truncation to 400 bits
    let mut want = Dy::int(1);
    for _ in 0..n {
        want = &want * &v;
        if want.top() > 1 {
            let drop = want.top() - 400;
            want = want.scale2(-drop).floor().scale2(drop);
        } else if !want.is_zero() {
            let up = 400 - want.top();
            want = want.scale2(up).floor().scale2(-up);
        }
    }
    if !want.is_zero() && (want.top().abs() > 800) {
        c.label("out of range (skipped)");
        return Ok(());
    }
    let w = if e < 0 { Rt::new(Dy::int(1), want) } else { Rt::dy(want) };
    let bits = 100 - (64 - (n as u64).leading_zeros() as i64) - 1;
    acc("pow", &a.pow(e), &w, bits)?;
    ck!(a.pow(0).equals(&DD::new_x(1.0)) && a.pow(1).equals(&a), "pow(0) {} pow(1) {}", sh(&a.pow(0)), sh(&a.pow(1)));
    Ok(())
}

fn specials(s: &mut Src, c: &mut Case) -> Res {
    let a = ddv(s);
    let y = num(s);
    c.show(|| format!("{} {:?}", sh(&a), y));
    c.nontrivial_if(!a.is_zero());
    let nan = DD::new_nan();
    ck!(nan.is_nan() && DD::create_nan().is_nan() && !a.is_nan(), "is_nan");
    for (k, v) in [
        ("nan + x", nan.add_dd(&a)), ("x + nan", a.add_dd(&nan)), ("nan - x", nan.subtract_dd(&a)), ("x - nan", a.subtract_dd(&nan)),
        ("nan * x", nan.multiply_dd(&a)), ("x * nan", a.multiply_dd(&nan)), ("x * nan f64", a.multiply_f64(f64::NAN)), ("nan / x", nan.divide_dd(&a)),
        ("x / nan", a.divide_dd(&nan)), ("x / nan f64", a.divide_f64(f64::NAN)), ("x + nan f64", a.add_f64(f64::NAN)), ("-nan", nan.negate()), ("|nan|", nan.abs()),
        ("floor nan", nan.floor()), ("ceil nan", nan.ceil()), ("rint nan", nan.rint()), ("trunc nan", nan.trunc()), ("nan^2", nan.pow(2)), ("sqr nan", nan.sqr()),
        ("1/nan", nan.reciprocal()), ("nan - f64", nan.subtract_f64(y)),
    ] {
        ck!(v.is_nan(), "{} is {}", k, sh(&v));
    }
    // construction and copying
    let (h, l) = parts(&a);
    ck!(DD::copy(&a).equals(&a) && a.copy_self().equals(&a) && DD::new_from_dd(&a).equals(&a), "copies differ");
    ck!(parts(&DD::value_of_f64(y)) == (y, 0.0) && parts(&DD::new_x(y)) == (y, 0.0) && parts(&DD::new_hi_lo(h, l)) == (h, l), "constructors");
    let mut m = DD::new_x(7.0);
    m.set_value_dd(&a);
    ck!(m.equals(&a), "set_value_dd gave {}", sh(&m));
    m.set_value_f64(y);
    ck!(parts(&m) == (y, 0.0), "set_value_f64 gave {}", sh(&m));
    // constants to double-double accuracy
    let t = |hi: f64, lo: f64| Rt::dy(&Dy::f(hi) + &Dy::f(lo));
    let pi = t(3.141592653589793116e0, 1.224646799147353207e-16);
    acc("pi", &DD::new_pi(), &pi, 104)?;
    acc("2 pi", &DD::new_two_pi(), &pi.mul(&Rt::f(2.0)), 104)?;
    acc("pi/2", &DD::new_pi_2(), &pi.mul(&Rt::f(0.5)), 104)?;
    acc("e", &DD::new_e(), &t(2.718281828459045091e0, 1.445646891729250158e-16), 104)?;
    Ok(())
}

/// an undefined operand makes every result undefined
fn undefined(s: &mut Src, c: &mut Case) -> Res {
    let v = DD::new_x(match s.below(3) { 0 => s.sint(3) as f64, 1 => Reg::any(s).num(s), _ => s.unit() });
    let f = if s.bool() { v.double_value() } else { s.sint(2) as f64 };
    let n = match s.below(3) { 0 => DD::create_nan(), 1 => DD::new_nan(), _ => DD::new_x(f64::NAN) };
    let e = s.pick(&[1, 2, 3, 7, -1, -2, -5]);
    c.show(|| format!("{:?} {:?} exponent {}", v.double_value(), f, e));
    c.nontrivial_if(!v.is_zero());
    let nan = f64::NAN;
    let un: [(&str, DD); 10] = [
        ("negate", n.negate()), ("abs", n.abs()), ("floor", n.floor()), ("ceil", n.ceil()), ("rint", n.rint()), ("trunc", n.trunc()),
        ("sqr", n.sqr()), ("sqrt", n.sqrt_dd()), ("reciprocal", n.reciprocal()), ("pow", n.pow(e)),
    ];
    for (w, r) in un {
        ck!(r.is_nan(), "{} of an undefined value is {:?}", w, r.double_value());
    }
    let bi: [(&str, DD); 16] = [
        ("undefined + v", n.add_dd(&v)), ("v + undefined", v.add_dd(&n)), ("undefined - v", n.subtract_dd(&v)), ("v - undefined", v.subtract_dd(&n)),
        ("undefined * v", n.multiply_dd(&v)), ("v * undefined", v.multiply_dd(&n)), ("undefined / v", n.divide_dd(&v)), ("v / undefined", v.divide_dd(&n)),
        ("undefined + f", n.add_f64(f)), ("v + NaN", v.add_f64(nan)), ("undefined - f", n.subtract_f64(f)), ("v - NaN", v.subtract_f64(nan)),
        ("undefined * f", n.multiply_f64(f)), ("v * NaN", v.multiply_f64(nan)), ("undefined / f", n.divide_f64(f)), ("v / NaN", v.divide_f64(nan)),
    ];
    for (w, r) in bi {
        ck!(r.is_nan(), "{} is {:?}", w, r.double_value());
    }
    for k in 0..8 {
        for left in [true, false] {
            let mut a = if left { n } else { v };
            let b = if left { v } else { n };
            let g = if left { f } else { nan };
            match k {
                0 => a.self_add_dd(&b),
                1 => a.self_subtract_dd(&b),
                2 => a.self_multiply_dd(&b),
                3 => a.self_divide_dd(&b),
                4 => a.self_add_f64(g),
                5 => a.self_subtract_f64(g),
                6 => a.self_multiply_f64(g),
                _ => a.self_divide_f64(g),
            }
            ck!(a.is_nan(), "in-place operation {} with an undefined value gives {:?}", k, a.double_value());
        }
    }
    for k in 0..4 {
        let mut t = [v, v, v, v];
        t[k] = n;
        ck!(DD::determinant_xy_dd(&t[0], &t[1], &t[2], &t[3]).is_nan(), "determinant with undefined entry {}", k);
    }
    ck!(n.signum() == 0 && !n.is_zero() && !n.is_negative() && !n.is_positive(), "sign of an undefined value");
    ck!(!n.equals(&v) && !v.equals(&n) && !n.equals(&n), "an undefined value equals something");
    ck!(!n.gt(&v) && !n.ge(&v) && !n.lt(&v) && !n.le(&v) && !v.gt(&n) && !v.ge(&n) && !v.lt(&n) && !v.le(&n), "an undefined value is ordered");
    ck!(!v.is_nan(), "{:?} is undefined", v.double_value());
    if v.is_negative() {
        ck!(v.sqrt_dd().is_nan(), "root of {:?} is {:?}", v.double_value(), v.sqrt_dd().double_value());
    }
    Ok(())
}

static SUBS: &[Sub] = &[
    Sub { name: "add_sub", rule: "an operand has a non-zero low word", quick: 200_000, f: add_sub },
    Sub { name: "mul_div", rule: "an operand has a non-zero low word", quick: 150_000, f: mul_div },
    Sub { name: "far_scales", rule: "both operands with a nonzero low word and in range", quick: 120_000, f: far_scales },
    Sub { name: "roots", rule: "positive radicand", quick: 200_000, f: roots },
    Sub { name: "determinants", rule: "non-zero determinant", quick: 200_000, f: determinants },
    Sub { name: "powers", rule: "exponent of magnitude above one", quick: 40_000, f: powers },
    Sub { name: "specials", rule: "non-zero value", quick: 60_000, f: specials },
    Sub { name: "undefined", rule: "the other operand is not zero", quick: 20_000, f: undefined },
];
fn main() {
    gv::main(
        "P13",
        "normalized double-double values with exponents up to 2^900, cancelling and tie-adjacent low words; oracle: exact dyadic rational arithmetic",
        &["no overflow or underflow; relative error bounds 2^-103 (sums), 2^-101 (products), 2^-100 (quotients), 2^-99 (roots)"],
        SUBS,
    );
}
