//! P27: linear systems.
use gv::g::*;
use gv::*;

type M = Vec<Vec<f64>>;

/// exact fraction-free determinant and the solution by Cramer's rule
fn det(m: &[Vec<i128>]) -> i128 {
    let n = m.len();
    let mut a = m.to_vec();
    let mut sign = 1;
    let mut prev = 1i128;
    for k in 0..n {
        if a[k][k] == 0 {
            match (k + 1..n).find(|&i| a[i][k] != 0) {
                Some(i) => {
                    a.swap(i, k);
                    sign = -sign;
                }
                None => return 0,
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev;
            }
        }
        prev = a[k][k];
    }
    if n == 0 { 1 } else { sign * a[n - 1][n - 1] }
}
fn system(s: &mut Src, n: usize) -> (Vec<Vec<i128>>, Vec<i128>) {
    let m = if n > 5 { s.pick(&[1i64, 3, 9]) } else { s.pick(&[1i64, 3, 9, 40]) };
    let a: Vec<Vec<i128>> = (0..n)
        .map(|_| (0..n).map(|_| if s.chance(1, 4) { 0 } else { s.sint(m) as i128 }).collect())
        .collect();
    let b = (0..n).map(|_| s.sint(m) as i128).collect();
    (a, b)
}
fn fl(a: &[Vec<i128>]) -> M {
    a.iter().map(|r| r.iter().map(|&v| v as f64).collect()).collect()
}

fn unknowns(s: &mut Src) -> usize {
    match s.below(24) { 0 => 6 + s.below(5), _ => 1 + s.below(5) }
}
fn regular(s: &mut Src, c: &mut Case) -> Res {
    let n = unknowns(s);
    let (mut a, b) = system(s, n);
    let how = s.below(4);
    if how == 0 {
        // permuted triangular: many zero pivots
        for i in 0..n {
            for j in 0..i {
                a[i][j] = 0;
            }
            if a[i][i] == 0 {
                a[i][i] = 1;
            }
        }
        for i in (1..n).rev() {
            let j = s.below(i + 1);
            a.swap(i, j);
        }
    }
    let d = det(&a);
    c.show(|| format!("{:?} x = {:?}", a, b));
    if d == 0 {
        return Ok(());
    }
    // exact solution
    let x: Vec<Rt> = (0..n)
        .map(|k| {
            let mut m = a.clone();
            for i in 0..n {
                m[i][k] = b[i];
            }
            Rt::new(Dy::i128(det(&m)), Dy::i128(d))
        })
        .collect();
    // error bound from the condition number (adjugate / det)
    let norm = a.iter().map(|r| r.iter().map(|v| v.abs() as f64).sum::<f64>()).fold(0.0, f64::max);
    let mut inv = 0f64;
    for j in 0..n {
        for k in 0..n {
            let m: Vec<Vec<i128>> = (0..n).filter(|&i| i != j).map(|i| (0..n).filter(|&q| q != k).map(|q| a[i][q]).collect()).collect();
            inv = inv.max((det(&m) as f64 / d as f64).abs());
        }
    }
    let cond = norm * inv * n as f64;
    let xm = x.iter().map(|v| v.approx().abs()).fold(0.0, f64::max);
    let tol = 1e-14 * cond * xm + 1e-300;
    let sc = if s.bool() { 1.0 } else { f64::powi(2.0, s.sint(40) as i32) };
    let mut fa: M = fl(&a).iter().map(|r| r.iter().map(|v| v * sc).collect()).collect();
    let mut fb: Vec<f64> = b.iter().map(|&v| v as f64 * sc).collect();
    let got = Matrix::solve(&mut fa, &mut fb);
    ck!(got.is_some(), "no solution although the determinant is {}", d);
    let got = got.unwrap();
    ck!(got.len() == n, "{} values for {} unknowns", got.len(), n);
    for k in 0..n {
        ck!(x[k].near(got[k], tol), "unknown {} is {:?}, exactly {:e} (all {:?})", k, got[k], x[k].approx(), got);
    }
    c.lab((0..n).any(|i| a[i][i] == 0), "zero on the diagonal");
    c.lab(sc != 1.0, "scaled");
    c.lab(n > 5, "more than five unknowns");
    c.nontrivial_if(n > 1);
    Ok(())
}

/// powers of two, one per row or column
fn units(s: &mut Src, n: usize) -> Vec<f64> {
    let m = s.pick(&[0, 4, 60, 200]);
    (0..n).map(|_| f64::powi(2.0, s.sint(m) as i32)).collect()
}
fn stretch(a: &mut M, b: &mut [f64], rows: &[f64], cols: &[f64]) {
    for i in 0..a.len() {
        for j in 0..a[i].len() {
            a[i][j] *= rows[i] * cols[j];
        }
        b[i] *= rows[i];
    }
}
/// equations and unknowns in units of very different size: the first elimination steps are exact
fn stretched(s: &mut Src, c: &mut Case) -> Res {
    let n = 2 + s.below(2);
    let e = |s: &mut Src| s.pick(&[0i128, 1, -1, 2, -2, 4, -4]);
    let a: Vec<Vec<i128>> = (0..n).map(|_| (0..n).map(|_| e(s)).collect()).collect();
    let b: Vec<i128> = (0..n).map(|_| e(s)).collect();
    let d = det(&a);
    let (r, w) = (units(s, n), units(s, n));
    c.show(|| format!("{:?} x = {:?}, rows times {:?}, columns times {:?}", a, b, r, w));
    let (mut fa, mut fb): (M, Vec<f64>) = (fl(&a), b.iter().map(|&v| v as f64).collect());
    stretch(&mut fa, &mut fb, &r, &w);
    let got = Matrix::solve(&mut fa, &mut fb);
    if d == 0 {
        // the last pivot of three may be a rounding error instead of zero
        ck!(n > 2 || got.is_none(), "solution {:?} of a singular system", got);
        return Ok(());
    }
    ck!(got.is_some(), "no solution although the determinant is {}", d);
    let got = got.unwrap();
    ck!(got.len() == n, "{} values for {} unknowns", got.len(), n);
    for k in 0..n {
        let mut m = a.clone();
        for i in 0..n {
            m[i][k] = b[i];
        }
        let x = Rt::new(Dy::i128(det(&m)), Dy::i128(d));
        ck!(x.near(got[k] * w[k], 1e-9), "unknown {} is {:?} units, exactly {:e}", k, got[k] * w[k], x.approx());
    }
    c.nontrivial_if(r.iter().any(|&v| v != r[0]) || w.iter().any(|&v| v != w[0]));
    Ok(())
}

/// systems whose elimination is exact: no unique solution
fn singular(s: &mut Src, c: &mut Case) -> Res {
    let n = unknowns(s);
    let (mut a, b) = system(s, n);
    let what = match s.below(3) {
        0 => {
            let k = s.below(n);
            for r in a.iter_mut() {
                r[k] = 0;
            }
            "zero column"
        }
        1 => {
            let k = s.below(n);
            a[k] = vec![0; n];
            "zero row"
        }
        _ => {
            if n < 2 {
                return Ok(());
            }
            let i = s.below(n);
            let j = (i + 1 + s.below(n - 1)) % n;
            let f = s.pick(&[1i128, -1, 2, -4]);
            a[j] = a[i].iter().map(|v| v * f).collect();
            "proportional rows"
        }
    };
    c.label(what);
    c.show(|| format!("{:?} x = {:?}", a, b));
    ck!(det(&a) == 0, "oracle");
    let (mut fa, mut fb): (M, Vec<f64>) = (fl(&a), b.iter().map(|&v| v as f64).collect());
    if s.chance(1, 3) {
        let (r, w) = (units(s, n), units(s, n));
        stretch(&mut fa, &mut fb, &r, &w);
        c.label("stretched");
    }
    let got = Matrix::solve(&mut fa, &mut fb);
    ck!(got.is_none(), "solution {:?} although the system has a {}", got, what);
    c.nontrivial_if(n > 1);
    Ok(())
}

fn shapes(s: &mut Src, c: &mut Case) -> Res {
    let (n, r, w) = (1 + s.below(4), 1 + s.below(4), 1 + s.below(4));
    c.show(|| format!("{} rows of {}, {} right-hand values", r, w, n));
    let mut a: M = (0..r).map(|i| (0..w).map(|j| if i == j { 1.0 + i as f64 } else { 0.0 }).collect()).collect();
    let mut b: Vec<f64> = (0..n).map(|i| (1.0 + i as f64) * 3.0).collect();
    let got = Matrix::solve(&mut a, &mut b);
    if r == n && w == n {
        ck!(got.as_ref().is_some_and(|v| v.len() == n && v.iter().all(|&x| x == 3.0)), "diagonal system gives {:?}", got);
    } else {
        ck!(got.is_none(), "mismatched sizes give {:?}", got);
    }
    // row exchange
    let (rows, cols) = (1 + s.size(5), 1 + s.size(5));
    let m: M = (0..rows).map(|i| (0..cols).map(|j| (1000 * i + j) as f64).collect()).collect();
    let v: Vec<f64> = (0..rows).map(|i| i as f64).collect();
    let (i, j) = (s.below(rows), s.below(rows));
    let (mut m2, mut v2) = (m.clone(), v.clone());
    Matrix::swap_rows_2d(&mut m2, i, j);
    Matrix::swap_rows_1d(&mut v2, i, j);
    let (mut m3, mut v3) = (m, v);
    m3.swap(i, j);
    v3.swap(i, j);
    ck!(m2 == m3 && v2 == v3, "exchanging rows {} and {} gives {:?} {:?}", i, j, m2, v2);
    c.nontrivial_if(i != j);
    Ok(())
}

fn main() {
    gv::main(
        "P27",
        "integer systems with up to ten unknowns and entries up to 40 (permuted triangular ones included), scaled by powers of two, as a whole or by rows and columns up to 2^200 either way; singular systems with zero or proportional rows or zero columns; mismatched sizes",
        &["accuracy is asserted relative to the exact condition number", "singularity is asserted where elimination meets no rounding ambiguity"],
        &[
            Sub { name: "regular systems", rule: "more than one unknown", quick: 30_000, f: regular },
            Sub { name: "stretched systems", rule: "rows or columns in different units", quick: 30_000, f: stretched },
            Sub { name: "singular systems", rule: "more than one unknown", quick: 30_000, f: singular },
            Sub { name: "sizes and row exchange", rule: "two different rows", quick: 5_000, f: shapes },
        ],
    );
}
