//! P20: sequence algorithms, on array and packed storage.
use gv::g::*;
use gv::seqs::*;
use gv::*;

fn eq2(a: &Ords, b: &Ords) -> bool {
    a[0] == b[0] && a[1] == b[1]
}
fn shw(m: &[Ords], k: Kind) -> String {
    format!("{:?}{:?}", k, m)
}
/// sequences with repetitions, often closed
fn gen(s: &mut Src, k: Kind, max: usize) -> Vec<Ords> {
    let n = s.size(max + 1);
    let r = s.range(1, 3);
    let mut v = ords(s, k, n, r);
    if n > 1 && s.bool() {
        // close in the plane only, or completely
        let f = v[0].clone();
        if s.bool() {
            v[n - 1] = f;
        } else {
            v[n - 1][0] = f[0];
            v[n - 1][1] = f[1];
        }
    }
    v
}
fn ring(m: &[Ords]) -> bool {
    m.is_empty() || (m.len() > 3 && eq2(&m[0], &m[m.len() - 1]))
}
fn rot(m: &[Ords], i: usize, as_ring: bool) -> Vec<Ords> {
    if i == 0 {
        return m.to_vec();
    }
    if as_ring {
        let mut w = m[..m.len() - 1].to_vec();
        let k = i % w.len();
        w.rotate_left(k);
        w.push(w[0].clone());
        w
    } else {
        let mut w = m.to_vec();
        w.rotate_left(i);
        w
    }
}

fn rearrange_on<S: SeqLike>(s: &mut Src, c: &mut Case) -> Res {
    let k = KINDS[s.below(4)];
    let mut m = gen(s, k, 8);
    let n = m.len();
    // a coordinate that occurs once, far behind
    let lone = if n > 1000 && s.bool() { n - 2 - s.below(n / 4) } else { n };
    if lone < n {
        m[lone][0] = 777.5;
    }
    c.show(|| format!("{} {}", S::NAME, shw(&m, k)));
    c.nontrivial_if(n >= 3);
    let q = S::make(&m, k);
    observe(&q, &m, k, "made")?;
    // reversal
    let mut r = q.clone();
    r.reverse();
    let mut w = m.clone();
    w.reverse();
    observe(&r, &w, k, "reversed")?;
    r.reverse();
    observe(&r, &m, k, "reversed twice")?;
    observe(&q, &m, k, "untouched by reversing a clone")?;
    if n > 0 {
        let (i, j) = (s.below(n), s.below(n));
        let mut r = q.clone();
        r.swap(i, j);
        let mut w = m.clone();
        w.swap(i, j);
        observe(&r, &w, k, &format!("swap({}, {})", i, j))?;
        // scrolling
        let isr = ring(&m);
        c.lab(isr, "ring");
        let mut r = q.clone();
        r.scroll(i);
        observe(&r, &rot(&m, i, isr), k, &format!("scroll({})", i))?;
        let mut r = q.clone();
        r.scroll_ring(i, false);
        observe(&r, &rot(&m, i, false), k, &format!("scroll({}, not a ring)", i))?;
        if n >= 2 {
            let mut r = q.clone();
            r.scroll_ring(i, true);
            observe(&r, &rot(&m, i, true), k, &format!("scroll({}, ring)", i))?;
        }
        let f = if lone < n { m[lone][..2].to_vec() } else if s.chance(1, 4) { vec![50.0, 50.0] } else { m[i][..2].to_vec() };
        let fcd = c2(f[0], f[1]);
        let at = m.iter().position(|o| eq2(o, &f));
        ck!(q.find(&fcd) == at.map_or(-1, |a| a as i32), "{}: index_of {:?} is {}, expected {:?}", S::NAME, f, q.find(&fcd), at);
        let mut r = q.clone();
        r.scroll_to(&fcd);
        observe(&r, &at.map_or(m.clone(), |a| rot(&m, a, isr)), k, &format!("scroll to {:?}", f))?;
        // minimum
        let best = |lo: usize, hi: usize| {
            let mut b = lo;
            for x in lo..=hi {
                if (m[x][0], m[x][1]) < (m[b][0], m[b][1]) {
                    b = x;
                }
            }
            b
        };
        ck!(q.min_index() == best(0, n - 1), "{}: minimum at {}, expected {}", S::NAME, q.min_index(), best(0, n - 1));
        ck!(q.min().map_or(false, |p| same_c(&p, &to_coord(&m[best(0, n - 1)], k))), "{}: minimum {:?}", S::NAME, q.min().map(|p| fc(&p)));
        let (a, b) = (i.min(j), i.max(j));
        ck!(q.min_index_in(a, b) == best(a, b), "{}: minimum of {}..={} at {}, expected {}", S::NAME, a, b, q.min_index_in(a, b), best(a, b));
    } else {
        ck!(q.min().is_none(), "{}: minimum of nothing", S::NAME);
        ck!(q.find(&c2(0.0, 0.0)) == -1, "{}: found in nothing", S::NAME);
    }
    observe(&q, &m, k, "after queries")
}

fn rings_on<S: SeqLike>(s: &mut Src, c: &mut Case) -> Res {
    let k = KINDS[s.below(4)];
    let m = gen(s, k, 7);
    let n = m.len();
    c.show(|| format!("{} {}", S::NAME, shw(&m, k)));
    let q = S::make(&m, k);
    c.nontrivial_if(n >= 1);
    c.lab(ring(&m), "already valid");
    c.lab(n > 0 && n <= 3, "short");
    ck!(q.is_ring() == ring(&m), "{}: is_ring {}, expected {}", S::NAME, q.is_ring(), ring(&m));
    // valid ring: closed by repeating the start, at least four coordinates
    let v = q.ensure_valid_ring();
    let mut w = m.clone();
    if n > 0 && !ring(&m) {
        let size = if n <= 3 { 4 } else { n + 1 };
        while w.len() < size {
            w.push(m[0].clone());
        }
    }
    observe(&v, &w, k, "ensure_valid_ring")?;
    ck!(v.is_ring(), "{}: ensured ring is not a ring", S::NAME);
    let v2 = v.ensure_valid_ring();
    observe(&v2, &w, k, "ensure_valid_ring twice")?;
    // extension repeats the last coordinate
    let size = n + s.size(4);
    if n > 0 {
        let e = q.extend(size);
        let mut w = m.clone();
        while w.len() < size {
            w.push(m[n - 1].clone());
        }
        observe(&e, &w, k, &format!("extend({})", size))?;
        // a ring of that size is closed by the first coordinate
        let e = q.closed_ring(size);
        let mut w = m.clone();
        while w.len() < size {
            w.push(m[0].clone());
        }
        observe(&e, &w, k, &format!("create_closed_ring({})", size))?;
    } else {
        ck!(q.extend(size).len() == size, "{}: extending nothing to {} gave {}", S::NAME, size, q.extend(size).len());
    }
    observe(&q, &m, k, "after queries")
}

fn copying_on<S: SeqLike>(s: &mut Src, c: &mut Case) -> Res {
    // copies of ranges, across dimensions; the shorter dimension decides
    let ka = KINDS[s.below(4)];
    let kb = KINDS[s.below(4)];
    let a = gen(s, ka, 6);
    let b = gen(s, kb, 6);
    let (i, j) = (s.below(a.len() + 1), s.below(b.len() + 1));
    let n = s.below((a.len() - i).min(b.len() - j) + 1);
    c.show(|| format!("{} {} from {} to {} at {} length {}", S::NAME, shw(&a, ka), i, shw(&b, kb), j, n));
    c.nontrivial_if(n >= 1);
    c.lab(ka != kb, "different dimensions");
    let src = S::make(&a, ka);
    let mut dst = S::make(&b, kb);
    S::copy_range(&src, i, &mut dst, j, n);
    let mut w = b.clone();
    for t in 0..n {
        for d in 0..ka.0.min(kb.0) {
            w[j + t][d] = a[i + t][d];
        }
    }
    observe(&dst, &w, kb, "range copied")?;
    observe(&src, &a, ka, "source of a copy")?;
    if n > 0 {
        let mut dst = S::make(&b, kb);
        S::copy_one(&src, i, &mut dst, j);
        let mut w = b.clone();
        for d in 0..ka.0.min(kb.0) {
            w[j][d] = a[i][d];
        }
        observe(&dst, &w, kb, "coordinate copied")?;
    }
    Ok(())
}

fn equality_on<S: SeqLike>(s: &mut Src, c: &mut Case) -> Res {
    let ka = KINDS[s.below(4)];
    let kb = if s.bool() { ka } else { KINDS[s.below(4)] };
    let a = gen(s, ka, 5);
    let mut b = if s.chance(1, 4) {
        gen(s, kb, 5)
    } else {
        a.iter().map(|o| (0..kb.0).map(|d| if d < ka.0 { o[d] } else { d as f64 }).collect()).collect::<Vec<Ords>>()
    };
    if !b.is_empty() && s.bool() {
        let i = s.below(b.len());
        let d = s.below(kb.0);
        b[i][d] = if s.chance(1, 3) { f64::NAN } else { s.sint(3) as f64 };
    }
    c.show(|| format!("{} {} {}", S::NAME, shw(&a, ka), shw(&b, kb)));
    let d = ka.0.min(kb.0);
    let w = a.len() == b.len() && a.iter().zip(&b).all(|(p, q)| (0..d).all(|x| same(p[x], q[x])));
    c.nontrivial_if(!a.is_empty());
    c.lab(w, "equal");
    c.lab(ka != kb, "different dimensions");
    let (p, q) = (S::make(&a, ka), S::make(&b, kb));
    ck!(p.is_equal(&q) == w && q.is_equal(&p) == w, "{}: is_equal {} / {}, expected {}", S::NAME, p.is_equal(&q), q.is_equal(&p), w);
    ck!(p.is_equal(&p.dup()), "{}: not equal to its copy", S::NAME);
    Ok(())
}

fn pick(s: &mut Src, c: &mut Case, f: fn(&mut Src, &mut Case) -> Res, g: fn(&mut Src, &mut Case) -> Res) -> Res {
    if s.bool() {
        c.label("packed");
        g(s, c)
    } else {
        c.label("array");
        f(s, c)
    }
}
type A = CoordinateArraySequence;
type P = PackedCoordinateSequenceDouble;
fn rearrange(s: &mut Src, c: &mut Case) -> Res {
    pick(s, c, rearrange_on::<A>, rearrange_on::<P>)
}
fn rings(s: &mut Src, c: &mut Case) -> Res {
    pick(s, c, rings_on::<A>, rings_on::<P>)
}
fn copying(s: &mut Src, c: &mut Case) -> Res {
    pick(s, c, copying_on::<A>, copying_on::<P>)
}
fn equality(s: &mut Src, c: &mut Case) -> Res {
    pick(s, c, equality_on::<A>, equality_on::<P>)
}

fn large_rearrange(s: &mut Src, c: &mut Case) -> Res {
    s.big = 70_000;
    rearrange(s, c)
}
fn large_rings(s: &mut Src, c: &mut Case) -> Res {
    s.big = 70_000;
    rings(s, c)
}
fn large_copying(s: &mut Src, c: &mut Case) -> Res {
    s.big = 70_000;
    copying(s, c)
}
fn large_equality(s: &mut Src, c: &mut Case) -> Res {
    s.big = 70_000;
    equality(s, c)
}

static SUBS: &[Sub] = &[
    Sub { name: "rearrange", rule: "at least three coordinates", quick: 200_000, f: rearrange },
    Sub { name: "rings", rule: "not empty", quick: 200_000, f: rings },
    Sub { name: "copying", rule: "something is copied", quick: 200_000, f: copying },
    Sub { name: "equality", rule: "not empty", quick: 200_000, f: equality },
    Sub { name: "large rearrange", rule: "at least three coordinates", quick: 60, f: large_rearrange },
    Sub { name: "large rings", rule: "not empty", quick: 60, f: large_rings },
    Sub { name: "large copying", rule: "something is copied", quick: 60, f: large_copying },
    Sub { name: "large equality", rule: "not empty", quick: 60, f: large_equality },
];
fn main() {
    gv::main(
        "P20",
        "sequences of XY, XYZ, XYM and XYZM coordinates on array and packed storage, closed in the plane or completely, with repetitions; oracle: ordinate-matrix model",
        &["the minimum index is not asked of an empty sequence; scrolling as a ring needs two coordinates"],
        SUBS,
    );
}
