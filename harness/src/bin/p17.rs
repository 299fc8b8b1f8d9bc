//! P17: coordinate lists with optional suppression of consecutive duplicates.
use gv::g::*;
use gv::*;

type V = Vec<Coordinate>;
fn eq2(a: &Coordinate, b: &Coordinate) -> bool {
    a.x == b.x && a.y == b.y
}
fn pt(s: &mut Src, tb: &[f64; 5], tag: &mut f64) -> Coordinate {
    // the tag distinguishes coordinates that coincide in the plane
    *tag += 1.0;
    Coordinate::new_xyz(tb[(2 + s.sint(1)) as usize], tb[(2 + s.sint(1)) as usize], *tag)
}
fn pts(s: &mut Src, tb: &[f64; 5], tag: &mut f64, max: usize) -> V {
    let n = s.size(max + 1);
    (0..n).map(|_| pt(s, tb, tag)).collect()
}
fn push(m: &mut V, p: Coordinate, rep: bool) {
    if rep || m.last().map_or(true, |l| !eq2(l, &p)) {
        m.push(p);
    }
}

fn history(s: &mut Src, c: &mut Case) -> Res {
    let mut tag = 0.0;
    // usually small integers, sometimes ordinates that are close together, tiny, huge or infinite
    let wild = s.chance(1, 4);
    let tb = &if wild { if s.bool() { TABLES[s.below(6)] } else { [0.0, f64::NEG_INFINITY, 1.0, f64::INFINITY, 0.0] } } else { [-2.0, -1.0, 0.0, 1.0, 2.0] };
    c.lab(wild, "extreme ordinates");
    let mut m: V = vec![];
    let mut l;
    let mut log: Vec<String> = vec![];
    let init = pts(s, tb, &mut tag, 6);
    match s.below(3) {
        0 => {
            l = CoordinateList::default();
            log.push("default".into());
        }
        1 => {
            l = CoordinateList::new(init.clone());
            m = init.clone();
            log.push(format!("new {}", fcs(&init)));
        }
        _ => {
            let rep = s.bool();
            l = CoordinateList::new_with_repeated(init.clone(), rep);
            for p in &init {
                push(&mut m, *p, rep);
            }
            log.push(format!("new_with_repeated {} {}", rep, fcs(&init)));
        }
    }
    let n = 1 + s.size(10);
    let mut skipped = 0;
    let mut res = Ok(());
    for _ in 0..n {
        let rep = s.bool();
        let what;
        let before = m.len();
        let mut tried = 0;
        match s.below(9) {
            0 | 1 => {
                let p = pt(s, tb, &mut tag);
                what = format!("add {} repeated={}", fc(&p), rep);
                l.add_coordinate_repeated(p, rep);
                push(&mut m, p, rep);
                tried = 1;
            }
            2 => {
                let v = pts(s, tb, &mut tag, 5);
                what = format!("add list {} repeated={}", fcs(&v), rep);
                l.add_coordinate_list_repeated(&v, rep);
                tried = v.len();
                for p in v {
                    push(&mut m, p, rep);
                }
            }
            3 => {
                let v = pts(s, tb, &mut tag, 5);
                let fwd = s.bool();
                what = format!("add list {} repeated={} forward={}", fcs(&v), rep, fwd);
                l.add_coordinate_list_repeated_direction(&v, rep, fwd);
                tried = v.len();
                if fwd {
                    for p in v {
                        push(&mut m, p, rep);
                    }
                } else {
                    for p in v.into_iter().rev() {
                        push(&mut m, p, rep);
                    }
                }
            }
            4 => {
                let v = pts(s, tb, &mut tag, 6);
                let k = v.len();
                let (a, b) = (s.below(k + 1), s.below(k + 1));
                // forward: start..end exclusive; backward: start down to end exclusive
                let (a, b) = if a > b && a == k { (a - 1, b.min(a - 1)) } else { (a, b) };
                what = format!("add list {} repeated={} start={} end={}", fcs(&v), rep, a, b);
                l.add_coordinate_list_repeated_start_end(&v, rep, a, b);
                if a <= b {
                    tried = b - a;
                    for i in a..b {
                        push(&mut m, v[i], rep);
                    }
                } else {
                    tried = a - b;
                    for i in (b + 1..=a).rev() {
                        push(&mut m, v[i], rep);
                    }
                }
            }
            5 => {
                let p = pt(s, tb, &mut tag);
                let i = s.below(m.len() + 1);
                what = format!("insert {} at {} repeated={}", fc(&p), i, rep);
                l.add_index_coordinate_repeated(i, p, rep);
                tried = 1;
                let dup = (i > 0 && eq2(&m[i - 1], &p)) || (i < m.len() && eq2(&m[i], &p));
                if rep || !dup {
                    m.insert(i, p);
                }
            }
            6 => {
                let v = pts(s, tb, &mut tag, 5);
                what = format!("add_all {} repeated={}", fcs(&v), rep);
                let ch = l.add_all(v.clone(), rep);
                tried = v.len();
                ck!(ch == !v.is_empty(), "add_all reported {}", ch);
                for p in v {
                    push(&mut m, p, rep);
                }
            }
            7 => {
                what = "close_ring".to_string();
                l.close_ring();
                if !m.is_empty() {
                    let f = m[0];
                    push(&mut m, f, false);
                    ck!(eq2(&m[0], &m[m.len() - 1]), "model");
                }
            }
            _ => {
                what = "clone".to_string();
                let mut q = l.clone();
                std::mem::swap(&mut q, &mut l);
                // the original does not see later additions to the clone
                q.add_coordinate_repeated(c2(9.0, 9.0), true);
            }
        }
        if m.len() < before + tried {
            skipped += 1;
        }
        log.push(what.clone());
        let got = l.to_coordinate_array();
        if !same_cs(&got, &m) {
            res = Err(format!("after {}: {}, model {}", what, fcs(&got), fcs(&m)));
            break;
        }
    }
    c.show(|| log.join("; "));
    c.nontrivial_if(m.len() >= 2);
    c.lab(skipped > 0, "a duplicate was suppressed");
    res?;
    let mut r = m.clone();
    r.reverse();
    ck!(same_cs(&l.to_coordinate_array_forward(true), &m), "forward array {}", fcs(&l.to_coordinate_array_forward(true)));
    ck!(same_cs(&l.to_coordinate_array_forward(false), &r), "reversed array {}", fcs(&l.to_coordinate_array_forward(false)));
    for i in 0..m.len() + 2 {
        let g = l.get_coordinate(i);
        ck!(g.is_some() == (i < m.len()) && g.map_or(true, |g| same_c(&g, &m[i])), "get_coordinate({}) {:?}", i, g.map(|g| fc(&g)));
    }
    Ok(())
}

fn large_history(s: &mut Src, c: &mut Case) -> Res {
    s.big = 5_000;
    history(s, c)
}

static SUBS: &[Sub] = &[
    Sub { name: "history", rule: "at least two coordinates at the end", quick: 500_000, f: history },
    Sub { name: "large history", rule: "at least two coordinates at the end", quick: 60, f: large_history },
];
fn main() {
    gv::main(
        "P17",
        "histories of additions, insertions, partial and reversed additions, ring closing and cloning over a tiny grid with tagged coordinates; oracle: vector model",
        &["duplicates are judged by x and y only"],
        SUBS,
    );
}
