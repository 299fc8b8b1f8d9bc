//! P14: double-double ordering, rounding to integers, integer values and decimal magnitude.
use gv::g::*;
use gv::*;

fn parts(d: &DD) -> (f64, f64) {
    let t = d.dump();
    let b = t.trim_start_matches("DD<").trim_end_matches('>');
    let mut it = b.split(", ").map(|x| x.parse::<f64>().unwrap_or(f64::NAN));
    let h = it.next().unwrap_or(f64::NAN);
    (h, it.next().unwrap_or(f64::NAN))
}
fn val(d: &DD) -> Dy {
    let (h, l) = parts(d);
    &Dy::f(h) + &Dy::f(l)
}
fn sh(d: &DD) -> String {
    let (h, l) = parts(d);
    format!("<{:?},{:?}>", h, l)
}
fn norm(h: f64, l: f64) -> DD {
    let hi = h + l;
    let lo = (&(&Dy::f(h) + &Dy::f(l)) - &Dy::f(hi)).to_f64();
    DD::new_hi_lo(hi, lo)
}

/// values around integers and halves, whose fraction may live in the low word
fn ddv(s: &mut Src) -> DD {
    let h = match s.below(6) {
        0 => s.sint(6) as f64,
        1 => s.sint(12) as f64 / 2.0,
        2 => s.sint(1 << 50) as f64,
        3 => s.sint(1 << 52) as f64 * 2f64.powi(s.below(50) as i32),
        4 => (s.unit() * 2.0 - 1.0) * 2f64.powi(s.sint(60) as i32),
        _ => {
            let v = 2f64.powi(s.below(110) as i32);
            if s.bool() { -v } else { v }
        }
    };
    let u = if h == 0.0 { 0.5 } else { ulp(h) / 2.0 };
    let l = match s.below(8) {
        0 | 1 => 0.0,
        2 => [0.5, -0.5, 1.0, -1.0, 0.25, -0.75][s.below(6)],
        3 => s.sint(1 << 30) as f64,
        4 => s.sint(64) as f64 + 0.5,
        5 => (s.unit() * 2.0 - 1.0) * u,
        6 => if s.bool() { 2f64.powi(-(s.below(200) as i32)) } else { -2f64.powi(-(s.below(200) as i32)) },
        _ => if s.bool() { u } else { -u },
    };
    norm(h, if l.abs() <= u { l } else { l.rem_euclid(u.max(f64::MIN_POSITIVE)) })
}

fn order(s: &mut Src, c: &mut Case) -> Res {
    // now and then at the edges of the format
    let edge = s.chance(1, 8);
    let ddv = |s: &mut Src| if edge && s.chance(3, 4) { let v = special(s); DD::new_x(if v.is_finite() { v } else { -0.0 }) } else { ddv(s) };
    let a = ddv(s);
    let b = match s.below(5) {
        0 => a,
        1 => norm(parts(&a).0, -parts(&a).1),
        2 => {
            let (h, l) = parts(&a);
            norm(h, match s.below(6) { 0 => l / 2.0, 1 => 0.0, 2 => next_down(l), 3 => l - l * 1e-9, _ => next_up(l) })
        }
        3 => a.negate(),
        _ => ddv(s),
    };
    c.show(|| format!("{} {}", sh(&a), sh(&b)));
    let (x, y) = (val(&a), val(&b));
    let o = x.cmp(&y) as i32;
    c.nontrivial_if(o != 0);
    c.lab(parts(&a).0 == parts(&b).0 && o != 0, "differ in the low word only");
    ck!(a.compare_to(&b).signum() == o && b.compare_to(&a).signum() == -o, "compare_to {} / {}, exactly {}", a.compare_to(&b), b.compare_to(&a), o);
    ck!(a.lt(&b) == (o < 0) && a.le(&b) == (o <= 0) && a.gt(&b) == (o > 0) && a.ge(&b) == (o >= 0) && a.equals(&b) == (o == 0),
        "lt {} le {} gt {} ge {} equals {}, exactly {}", a.lt(&b), a.le(&b), a.gt(&b), a.ge(&b), a.equals(&b), o);
    ck!(val(&a.min(&b)).eq(&Dy::min(&x, &y)) && val(&a.max(&b)).eq(&Dy::max(&x, &y)), "min {} max {}", sh(&a.min(&b)), sh(&a.max(&b)));
    let g = x.sign();
    ck!(a.signum() == g && a.is_zero() == (g == 0) && a.is_negative() == (g < 0) && a.is_positive() == (g > 0), "sign {} zero {} negative {} positive {}, exactly {}", a.signum(), a.is_zero(), a.is_negative(), a.is_positive(), g);
    ck!(val(&a.abs()).eq(&x.abs()) && val(&a.negate()).eq(&-&x), "abs {} negate {}", sh(&a.abs()), sh(&a.negate()));
    ck!(a.double_value() == x.round_f64(), "double_value {:?}, nearest {:?}", a.double_value(), x.round_f64());
    // consistency with subtraction
    ck!(parts(&a).0.abs().max(parts(&b).0.abs()) > 1e300 || a.subtract_dd(&b).signum() == o, "sign of the difference {} is not {}", sh(&a.subtract_dd(&b)), o);
    Ok(())
}

fn rounding(s: &mut Src, c: &mut Case) -> Res {
    let a = ddv(s);
    let before = parts(&a);
    c.show(|| sh(&a));
    let v = val(&a);
    c.nontrivial_if(!v.is_integer());
    c.lab(parts(&a).0.fract() == 0.0 && !v.is_integer(), "fraction in the low word");
    c.lab(v.sign() < 0, "negative");
    let ok = |what: &str, got: &DD, want: &Dy| -> Res {
        let (h, l) = parts(got);
        ck!(val(got).eq(want), "{} of {} is {}, exactly {:?}", what, sh(&a), sh(got), want.to_f64());
        ck!(h + l == h, "{} of {} is {}, not normalized", what, sh(&a), sh(got));
        Ok(())
    };
    ok("floor", &a.floor(), &v.floor())?;
    ok("ceil", &a.ceil(), &v.ceil())?;
    ok("trunc", &a.trunc(), &if v.sign() > 0 { v.floor() } else { v.ceil() })?;
    let half = &v + &Dy::f(0.5);
    let r = a.rint();
    let want = half.floor();
    if !val(&r).eq(&want) {
        // adding one half rounds: only excusable directly below the next integer
        let gap = &half.ceil() - &half;
        ck!(gap.lt(&Dy::pow2(-40)), "rint of {} is {}, exactly {:?}", sh(&a), sh(&r), want.to_f64());
        ok("rint", &r, &half.ceil())?;
    }
    ck!(parts(&a) == before, "the value changed while rounding");
    if v.is_integer() {
        for (k, g) in [("floor", a.floor()), ("ceil", a.ceil()), ("trunc", a.trunc()), ("rint", a.rint())] {
            ck!(g.equals(&a), "{} of the integer {} is {}", k, sh(&a), sh(&g));
        }
    } else {
        ck!(val(&a.ceil().subtract_dd(&a.floor())).eq(&Dy::int(1)), "ceil - floor is not 1");
    }
    // floor and trunc of negatives mirror
    ck!(a.negate().floor().equals(&a.ceil().negate()) || a.ceil().is_zero(), "floor(-x) != -ceil(x)");
    Ok(())
}

fn integers(s: &mut Src, c: &mut Case) -> Res {
    let n = match s.below(3) {
        0 => s.sint(10),
        1 => s.sint(1 << 31).clamp(i32::MIN as i64, i32::MAX as i64),
        _ => [i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 - 1, 0, -1][s.below(5)],
    };
    let f = if s.bool() { 0.0 } else { s.unit() * if n < 0 { -1.0 } else { 1.0 } };
    let x = n as f64 + f;
    c.show(|| format!("{:?}", x));
    c.nontrivial_if(f != 0.0);
    let t = x.trunc();
    if t.abs() > i32::MAX as f64 && t != i32::MIN as f64 {
        return Ok(());
    }
    ck!(DD::value_of_f64(x).int_value() == t as i32, "int_value of {:?} is {}", x, DD::value_of_f64(x).int_value());
    ck!(DD::value_of_f64(x).double_value() == x, "double_value of {:?} is {:?}", x, DD::value_of_f64(x).double_value());
    Ok(())
}

fn magnitude(s: &mut Src, c: &mut Case) -> Res {
    let d = DD::default();
    let k = s.sint(22) as i32;
    let (x, exact) = match s.below(4) {
        0 => (format!("1e{}", k).parse::<f64>().unwrap(), true),
        1 => (format!("{}e{}", 1 + s.below(9), k).parse::<f64>().unwrap(), false),
        2 => (format!("9.99{}e{}", s.below(10), k).parse::<f64>().unwrap(), false),
        _ => (format!("{}.{:015}e{}", 1 + s.below(9), s.below(1_000_000_000_000_000), k).parse::<f64>().unwrap(), false),
    };
    let x = if s.bool() { -x } else { x };
    c.show(|| format!("{:?}", x));
    c.nontrivial_if(k != 0);
    c.lab(exact, "power of ten");
    // the shortest scientific representation has the decimal magnitude as exponent
    let t = format!("{:e}", x.abs());
    let want: i32 = t[t.find('e').unwrap() + 1..].parse().unwrap();
    let got = d.magnitude(x);
    if got != want {
        // logarithms may round across a power of ten within a few units in the last place
        let p = format!("1e{}", want + 1).parse::<f64>().unwrap();
        let low = format!("1e{}", want).parse::<f64>().unwrap();
        let near_up = got == want + 1 && x.abs() >= p * (1.0 - 1e-13);
        let near_low = got == want - 1 && x.abs() <= low * (1.0 + 1e-13) && (want < 0 || want > 22);
        ck!(near_up || near_low, "magnitude of {:?} is {}, expected {}", x, got, want);
    }
    Ok(())
}

static SUBS: &[Sub] = &[
    Sub { name: "order", rule: "the two values differ", quick: 300_000, f: order },
    Sub { name: "rounding", rule: "not an integer", quick: 300_000, f: rounding },
    Sub { name: "integers", rule: "has a fraction", quick: 100_000, f: integers },
    Sub { name: "magnitude", rule: "outside [1,10)", quick: 200_000, f: magnitude },
];
fn main() {
    gv::main(
        "P14",
        "normalized double-double values at and around integers and halves up to 2^110, values differing only in the low word, powers of ten; oracle: exact dyadic rationals",
        &["rounding to nearest is floor(x + 1/2); the sum may round up when x + 1/2 is within 2^-40 below an integer"],
        SUBS,
    );
}
