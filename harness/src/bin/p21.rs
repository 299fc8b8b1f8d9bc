//! P21: intersection matrices answer spatial predicates as the point sets do.
use gv::g::*;
use gv::*;
use std::collections::BTreeSet;
type IM = IntersectionMatrix;
type M = [[i32; 3]; 3];
const SYMS: [(i32, char); 6] = [(-1, 'F'), (0, '0'), (1, '1'), (2, '2'), (-2, 'T'), (-3, '*')];

fn sym(v: i32) -> char {
    SYMS.iter().find(|s| s.0 == v).unwrap().1
}
fn text(m: &M) -> String {
    m.iter().flatten().map(|&v| sym(v)).collect()
}
fn val(ch: char) -> i32 {
    SYMS.iter().find(|s| s.1 == ch.to_ascii_uppercase()).unwrap().0
}
fn build(m: &M) -> IM {
    let mut im = IM::default();
    for i in 0..3 {
        for j in 0..3 {
            im.set_row_column_value(i, j, m[i][j]);
        }
    }
    im
}
fn pat_ok(v: i32, p: char) -> bool {
    match p {
        '*' => true,
        'T' => v >= 0 || v == -2,
        'F' => v == -1,
        _ => v == p as i32 - '0' as i32,
    }
}

// ---------------------------------------------------------------- point sets on a cell complex
/// half-grid position: even/even = vertex, one odd = edge, odd/odd = face
type Cell = (i32, i32);
fn dim(c: &Cell) -> i32 {
    (c.0.rem_euclid(2)) + (c.1.rem_euclid(2))
}
struct Shape {
    dim: i32,
    int: BTreeSet<Cell>,
    bnd: BTreeSet<Cell>,
    desc: String,
}
fn shape(s: &mut Src, n: i32) -> Shape {
    let mut int = BTreeSet::new();
    let mut bnd = BTreeSet::new();
    match s.below(3) {
        0 => {
            let k = 1 + s.below(3);
            for _ in 0..k {
                int.insert((2 * s.range(0, n as i64) as i32, 2 * s.range(0, n as i64) as i32));
            }
            let desc = format!("points {:?}", int);
            Shape { dim: 0, int, bnd, desc }
        }
        1 => {
            // union of axis-parallel runs of edges; boundary by the mod-2 rule
            let mut edges = BTreeSet::new();
            let (mut x, mut y) = (s.range(0, n as i64) as i32, s.range(0, n as i64) as i32);
            let k = 1 + s.below(4);
            for _ in 0..k {
                if s.chance(1, 5) {
                    x = s.range(0, n as i64) as i32;
                    y = s.range(0, n as i64) as i32;
                }
                let (dx, dy) = s.pick(&[(1, 0), (0, 1), (-1, 0), (0, -1)]);
                let len = 1 + s.below(3) as i32;
                for _ in 0..len {
                    if x + dx < 0 || x + dx > n || y + dy < 0 || y + dy > n {
                        break;
                    }
                    edges.insert((2 * x + dx, 2 * y + dy));
                    x += dx;
                    y += dy;
                }
            }
            if edges.is_empty() {
                edges.insert((1, 0));
            }
            let desc = format!("edges {:?}", edges);
            let mut verts = BTreeSet::new();
            for &(a, b) in &edges {
                if a % 2 != 0 {
                    verts.insert((a - 1, b));
                    verts.insert((a + 1, b));
                } else {
                    verts.insert((a, b - 1));
                    verts.insert((a, b + 1));
                }
            }
            for v in verts {
                let deg = [(1, 0), (-1, 0), (0, 1), (0, -1)].iter().filter(|d| edges.contains(&(v.0 + d.0, v.1 + d.1))).count();
                if deg % 2 == 1 {
                    bnd.insert(v);
                } else {
                    int.insert(v);
                }
            }
            int.extend(edges);
            Shape { dim: 1, int, bnd, desc }
        }
        _ => {
            let mut faces = BTreeSet::new();
            let k = 1 + s.below(2);
            for _ in 0..k {
                let (x0, y0) = (s.range(0, n as i64 - 1) as i32, s.range(0, n as i64 - 1) as i32);
                let (w, h) = (1 + s.below(3) as i32, 1 + s.below(3) as i32);
                for x in x0..(x0 + w).min(n) {
                    for y in y0..(y0 + h).min(n) {
                        faces.insert((2 * x + 1, 2 * y + 1));
                    }
                }
            }
            let desc = format!("faces {:?}", faces);
            let mut closed = BTreeSet::new();
            for &(a, b) in &faces {
                for i in -1..=1 {
                    for j in -1..=1 {
                        closed.insert((a + i, b + j));
                    }
                }
            }
            for c in closed {
                let xs: Vec<i32> = if c.0 % 2 != 0 { vec![c.0] } else { vec![c.0 - 1, c.0 + 1] };
                let ys: Vec<i32> = if c.1 % 2 != 0 { vec![c.1] } else { vec![c.1 - 1, c.1 + 1] };
                if xs.iter().all(|&x| ys.iter().all(|&y| faces.contains(&(x, y)))) {
                    int.insert(c);
                } else {
                    bnd.insert(c);
                }
            }
            Shape { dim: 2, int, bnd, desc }
        }
    }
}

fn predicates(s: &mut Src, c: &mut Case) -> Res {
    let n = 4;
    let a = shape(s, n);
    let b = if s.chance(1, 6) {
        Shape { dim: a.dim, int: a.int.clone(), bnd: a.bnd.clone(), desc: a.desc.clone() }
    } else {
        shape(s, n)
    };
    c.show(|| format!("A = {}; B = {}", a.desc, b.desc));
    // universe with a margin
    let all: Vec<Cell> = (-2..=2 * n + 2).flat_map(|x| (-2..=2 * n + 2).map(move |y| (x, y))).collect();
    let part = |g: &Shape, q: &Cell| if g.int.contains(q) { 0 } else if g.bnd.contains(q) { 1 } else { 2 };
    let mut m: M = [[-1; 3]; 3];
    for q in &all {
        let (i, j) = (part(&a, q), part(&b, q));
        m[i][j] = m[i][j].max(dim(q));
    }
    // the matrix is accumulated the way an overlay would do it
    let mut im = IM::default();
    if s.bool() {
        for q in &all {
            im.set_at_least_row_column_dimension_if_valid(part(&a, q), part(&b, q), dim(q));
        }
    } else {
        for q in &all {
            let mut one = IM::default();
            one.set_row_column_value(part(&a, q), part(&b, q), dim(q));
            im.add(&one);
        }
    }
    ck!(im.to_string() == text(&m), "matrix text {} is not {}", im.to_string(), text(&m));
    // point-set definitions
    let inn = |g: &Shape, q: &Cell| part(g, q) < 2;
    let meet = all.iter().any(|q| inn(&a, q) && inn(&b, q));
    let ii: Vec<&Cell> = all.iter().filter(|q| part(&a, q) == 0 && part(&b, q) == 0).collect();
    let iidim = ii.iter().map(|q| dim(q)).max().unwrap_or(-1);
    let b_in_a = all.iter().all(|q| !inn(&b, q) || inn(&a, q));
    let a_in_b = all.iter().all(|q| !inn(&a, q) || inn(&b, q));
    let (da, db) = (a.dim, b.dim);
    let touches = meet && ii.is_empty() && !(da == 0 && db == 0);
    let a_int_out = all.iter().any(|q| part(&a, q) == 0 && part(&b, q) == 2);
    let b_int_out = all.iter().any(|q| part(&b, q) == 0 && part(&a, q) == 2);
    let crosses = if da < db {
        !ii.is_empty() && a_int_out
    } else if da > db {
        !ii.is_empty() && b_int_out
    } else {
        da == 1 && iidim == 0
    };
    let overlaps = da == db && iidim == da && a_int_out && b_int_out;
    let equals = da == db && a_in_b && b_in_a && !ii.is_empty();
    let t = text(&m);
    ck!(im.is_disjoint() == !meet && im.is_intersects() == meet, "{}: disjoint {} intersects {}, common points {}", t, im.is_disjoint(), im.is_intersects(), meet);
    ck!(im.is_contains() == (b_in_a && !ii.is_empty()), "{}: contains {}", t, im.is_contains());
    ck!(im.is_within() == (a_in_b && !ii.is_empty()), "{}: within {}", t, im.is_within());
    ck!(im.is_covers() == (b_in_a && meet), "{}: covers {}", t, im.is_covers());
    ck!(im.is_covered_by() == (a_in_b && meet), "{}: covered_by {}", t, im.is_covered_by());
    ck!(im.is_equals(da, db) == equals, "{}: equals {}", t, im.is_equals(da, db));
    ck!(im.is_touches(da, db) == touches, "{}: touches({}, {}) {}", t, da, db, im.is_touches(da, db));
    ck!(im.is_crosses(da, db) == crosses, "{}: crosses({}, {}) {}", t, da, db, im.is_crosses(da, db));
    ck!(im.is_overlaps(da, db) == overlaps, "{}: overlaps({}, {}) {}", t, da, db, im.is_overlaps(da, db));
    c.lab(!meet, "disjoint");
    c.lab(touches, "touches");
    c.lab(crosses, "crosses");
    c.lab(overlaps, "overlaps");
    c.lab(equals, "equals");
    c.lab(b_in_a && !equals && !ii.is_empty(), "contains");
    c.lab(b_in_a && ii.is_empty(), "covers only");
    c.nontrivial_if(meet);
    Ok(())
}

/// arbitrary matrices: pattern definitions and symmetry under transposition
fn patterns(s: &mut Src, c: &mut Case) -> Res {
    let mut m: M = [[-1; 3]; 3];
    for r in m.iter_mut() {
        for v in r.iter_mut() {
            *v = SYMS[s.below(5)].0;
        }
    }
    if s.chance(1, 3) {
        // aim at the predicates: force some exterior entries to F
        m[0][2] = -1;
        m[1][2] = -1;
    }
    if s.chance(1, 3) {
        m[2][0] = -1;
        m[2][1] = -1;
    }
    if s.chance(1, 4) {
        m[0][0] = -1;
        m[1][0] = if s.bool() { -1 } else { m[1][0] };
        m[0][1] = if s.bool() { -1 } else { m[0][1] };
    }
    let (da, db) = (s.below(3) as i32, s.below(3) as i32);
    c.show(|| format!("{} dims {} {}", text(&m), da, db));
    let im = build(&m);
    let mut tr = IM::new_from_intersection_matrix(&im);
    tr.transpose();
    let mut mt = m;
    for i in 0..3 {
        for j in 0..3 {
            mt[i][j] = m[j][i];
        }
    }
    ck!(tr.to_string() == text(&mt), "transpose of {} is {}", text(&m), tr.to_string());
    ck!(im.to_string() == text(&m), "text of {} is {}", text(&m), im.to_string());
    let mt2 = |p: &str| m.iter().flatten().zip(p.chars()).all(|(&v, ch)| pat_ok(v, ch));
    let any = |ps: &[&str]| ps.iter().any(|p| mt2(p));
    let dis = mt2("FF*FF****");
    let want = [
        ("disjoint", im.is_disjoint(), dis),
        ("intersects", im.is_intersects(), !dis),
        ("contains", im.is_contains(), mt2("T*****FF*")),
        ("within", im.is_within(), mt2("T*F**F***")),
        ("covers", im.is_covers(), any(&["T*****FF*", "*T****FF*", "***T**FF*", "****T*FF*"])),
        ("covered_by", im.is_covered_by(), any(&["T*F**F***", "*TF**F***", "**FT*F***", "**F*TF***"])),
        ("equals", im.is_equals(da, db), da == db && mt2("T*F**FFF*")),
        ("touches", im.is_touches(da, db), !(da == 0 && db == 0) && any(&["FT*******", "F**T*****", "F***T****"])),
        ("crosses", im.is_crosses(da, db), if da < db { mt2("T*T******") } else if da > db { mt2("T*****T**") } else { da == 1 && mt2("0********") }),
        ("overlaps", im.is_overlaps(da, db), da == db && if da == 1 { mt2("1*T***T**") } else { mt2("T*T***T**") }),
    ];
    for (nm, got, w) in want {
        ck!(got == w, "{} dims {} {}: {} is {}, its patterns say {}", text(&m), da, db, nm, got, w);
    }
    // transposed matrix = operands swapped
    ck!(tr.is_contains() == im.is_within() && tr.is_within() == im.is_contains() && tr.is_covers() == im.is_covered_by() && tr.is_covered_by() == im.is_covers(), "{}: containment not mirrored by transposition", text(&m));
    ck!(tr.is_touches(db, da) == im.is_touches(da, db) && tr.is_crosses(db, da) == im.is_crosses(da, db) && tr.is_overlaps(db, da) == im.is_overlaps(da, db) && tr.is_equals(db, da) == im.is_equals(da, db), "{}: symmetric predicates not kept by transposition", text(&m));
    // pattern matching
    let mut pat: Vec<char> = Vec::new();
    for i in 0..9 {
        let v = m[i / 3][i % 3];
        pat.push(if s.chance(1, 3) { '*' } else if s.chance(9, 10) { if v >= 0 && s.bool() { 'T' } else { sym(v) } } else { s.pick(&['F', 'T', '0', '1', '2', '*']) });
    }
    if s.chance(1, 8) {
        pat.truncate(s.below(9));
    } else if s.chance(1, 12) {
        pat.push('*');
    }
    let p: String = pat.iter().collect();
    let w = pat.len() == 9 && mt2(&p);
    ck!(im.matches_string(p.clone()) == w, "{} matches {}: {}", text(&m), p, !w);
    ck!(IM::matches_string_string(text(&m), p.clone()) == w, "{} matches {}: {} (by text)", text(&m), p, !w);
    if let Some(&ch) = pat.first() {
        for (v, _) in SYMS {
            if v != -3 {
                ck!(IM::default().is_true(v) == pat_ok(v, 'T'), "value {} is true: {}", v, !pat_ok(v, 'T'));
                ck!(IM::matches_i32_char(v, ch) == pat_ok(v, ch), "value {} matches {}: {}", v, ch, !pat_ok(v, ch));
            }
        }
    }
    c.lab(w, "pattern matches");
    c.lab(pat.len() != 9, "pattern length");
    c.nontrivial_if(want.iter().filter(|w| w.2).count() > 1);
    Ok(())
}

/// histories of updates against a 3x3 array
fn history(s: &mut Src, c: &mut Case) -> Res {
    let mut ims = vec![IM::default()];
    let mut ms: Vec<M> = vec![[[-1; 3]; 3]];
    let mut log = vec!["new".to_string()];
    let n = 1 + s.below(12);
    let mut res = Ok(());
    for _ in 0..n {
        let i = s.below(ims.len());
        let word = |s: &mut Src, k: usize| -> String {
            (0..k)
                .map(|_| {
                    let ch = SYMS[s.below(6)].1;
                    if s.chance(1, 4) { ch.to_ascii_lowercase() } else { ch }
                })
                .collect()
        };
        let len = |s: &mut Src| if s.chance(1, 5) { s.below(10) } else { 9 };
        let v = SYMS[s.below(6)].0;
        let (r, q) = (s.below(3), s.below(3));
        match s.below(10) {
            0 => {
                ims[i].set_row_column_value(r, q, v);
                ms[i][r][q] = v;
                log.push(format!("{}: set {} {} {}", i, r, q, v));
            }
            1 => {
                ims[i].set_at_least_row_column_dimension(r, q, v);
                ms[i][r][q] = ms[i][r][q].max(v);
                log.push(format!("{}: at least {} {} {}", i, r, q, v));
            }
            2 => {
                ims[i].set_at_least_row_column_dimension_if_valid(r, q, v);
                ms[i][r][q] = ms[i][r][q].max(v);
                log.push(format!("{}: at least if valid {} {} {}", i, r, q, v));
            }
            3 => {
                let k = len(s);
                let w = word(s, k);
                for (k, ch) in w.chars().enumerate() {
                    ms[i][k / 3][k % 3] = val(ch);
                }
                log.push(format!("{}: set {}", i, w));
                ims[i].set_string(w);
            }
            4 => {
                let k = len(s);
                let w = word(s, k);
                for (k, ch) in w.chars().enumerate() {
                    ms[i][k / 3][k % 3] = ms[i][k / 3][k % 3].max(val(ch));
                }
                log.push(format!("{}: at least {}", i, w));
                ims[i].set_at_least_string(w);
            }
            5 => {
                ims[i].set_all(v);
                ms[i] = [[v; 3]; 3];
                log.push(format!("{}: set all {}", i, v));
            }
            6 => {
                ims[i].transpose();
                let o = ms[i];
                for a in 0..3 {
                    for b in 0..3 {
                        ms[i][a][b] = o[b][a];
                    }
                }
                log.push(format!("{}: transpose", i));
            }
            7 => {
                let j = s.below(ims.len());
                let other = IM::new_from_intersection_matrix(&ims[j]);
                ims[i].add(&other);
                for a in 0..3 {
                    for b in 0..3 {
                        ms[i][a][b] = ms[i][a][b].max(ms[j][a][b]);
                    }
                }
                log.push(format!("{}: add {}", i, j));
            }
            8 => {
                if ims.len() < 4 {
                    ims.push(IM::new_from_intersection_matrix(&ims[i]));
                    ms.push(ms[i]);
                    log.push(format!("copy of {}", i));
                }
            }
            _ => {
                if ims.len() < 4 {
                    let w = word(s, 9);
                    let mut m: M = [[-1; 3]; 3];
                    for (k, ch) in w.chars().enumerate() {
                        m[k / 3][k % 3] = val(ch);
                    }
                    ms.push(m);
                    log.push(format!("new {}", w));
                    ims.push(IM::new_with_elements(w));
                }
            }
        }
        res = (|| {
            for i in 0..ims.len() {
                ck!(ims[i].to_string() == text(&ms[i]), "matrix {} reads {} instead of {}", i, ims[i].to_string(), text(&ms[i]));
                for a in 0..3 {
                    for b in 0..3 {
                        ck!(ims[i].get(a, b) == ms[i][a][b], "matrix {} entry {} {}", i, a, b);
                    }
                }
                for j in 0..ims.len() {
                    ck!(ims[i].equals(&ims[j]) == (ms[i] == ms[j]), "matrices {} and {} equal: {}", text(&ms[i]), text(&ms[j]), ims[i].equals(&ims[j]));
                }
            }
            Ok(())
        })();
        if res.is_err() {
            break;
        }
    }
    c.show(|| log.join("; "));
    c.lab(ims.len() > 1, "several matrices");
    c.nontrivial_if(log.len() > 3);
    res
}

fn symbols(s: &mut Src, c: &mut Case) -> Res {
    let (v, ch) = SYMS[s.below(6)];
    c.show(|| format!("{} {}", v, ch));
    ck!(Dimension::to_dimension_symbol(v) == Some(ch), "symbol of {} is {:?}", v, Dimension::to_dimension_symbol(v));
    ck!(Dimension::to_dimension_value(ch) == Some(v) && Dimension::to_dimension_value(ch.to_ascii_lowercase()) == Some(v), "value of {} is {:?}", ch, Dimension::to_dimension_value(ch));
    ck!([Dimension::DONTCARE, Dimension::TRUE, Dimension::FALSE, Dimension::P, Dimension::L, Dimension::A] == [-3, -2, -1, 0, 1, 2]
        && [Dimension::SYM_DONTCARE, Dimension::SYM_TRUE, Dimension::SYM_FALSE, Dimension::SYM_P, Dimension::SYM_L, Dimension::SYM_A] == ['*', 'T', 'F', '0', '1', '2'], "dimension constants");
    let w = s.sint(9) as i32;
    if !(-3..=2).contains(&w) {
        ck!(Dimension::to_dimension_symbol(w).is_none(), "symbol of {}", w);
    }
    let x = (33 + s.below(94) as u8) as char;
    if !"FfTt*012".contains(x) {
        ck!(Dimension::to_dimension_value(x).is_none(), "value of {}", x);
    }
    c.nontrivial_if(true);
    Ok(())
}

fn main() {
    gv::main(
        "P21",
        "intersection matrices of point/line/area sets on a cell complex, arbitrary matrices over F 0 1 2 T, update histories over up to four matrices",
        &["DE-9IM definitions of OGC / JTS; lines use the mod-2 boundary rule", "pattern and element strings with at most nine symbols"],
        &[
            Sub { name: "point-set predicates", rule: "the two point sets share a point", quick: 20_000, f: predicates },
            Sub { name: "pattern predicates", rule: "at least two predicates hold", quick: 60_000, f: patterns },
            Sub { name: "update history", rule: "at least three updates", quick: 40_000, f: history },
            Sub { name: "dimension symbols", rule: "always", quick: 3_000, f: symbols },
        ],
    );
}
