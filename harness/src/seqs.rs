//! Coordinate sequences of both storage kinds behind one interface, and their ordinate-matrix model.
use crate::engine::Src;
use crate::gens::*;
use crate::g::*;

/// (dimension, measures)
pub type Kind = (usize, usize);
pub const KINDS: [Kind; 4] = [(2, 0), (3, 0), (3, 1), (4, 1)];
/// ordinates of one coordinate, in storage order
pub type Ords = Vec<f64>;

pub fn to_coord(o: &Ords, k: Kind) -> Coordinate {
    match k {
        (2, 0) => Coordinate::new_xy(o[0], o[1]),
        (3, 0) => Coordinate::new_xyz(o[0], o[1], o[2]),
        (3, 1) => Coordinate::new_xym(o[0], o[1], o[2]),
        _ => Coordinate::new_xyzm(o[0], o[1], o[2], o[3]),
    }
}
pub fn to_coords(m: &[Ords], k: Kind) -> Vec<Coordinate> {
    m.iter().map(|o| to_coord(o, k)).collect()
}
pub fn from_coord(c: &Coordinate, k: Kind) -> Ords {
    match k {
        (2, 0) => vec![c.x, c.y],
        (3, 0) => vec![c.x, c.y, c.z],
        (3, 1) => vec![c.x, c.y, c.m],
        _ => vec![c.x, c.y, c.z, c.m],
    }
}
/// ordinates from a small grid in the plane; the others are distinct tags; sometimes values at the
/// edges of the number format (NaN only outside the plane)
pub fn ords(s: &mut Src, k: Kind, n: usize, m: i64) -> Vec<Ords> {
    let edge = s.chance(1, 6);
    (0..n)
        .map(|i| {
            let mut v = vec![s.sint(m) as f64, s.sint(m) as f64];
            for d in 2..k.0 {
                v.push(if s.chance(1, 8) { f64::NAN } else { (10 * d + i) as f64 + s.below(3) as f64 / 4.0 });
            }
            if edge && s.bool() {
                let d = s.below(k.0);
                v[d] = special(s);
            }
            v
        })
        .collect()
}
/// a value to write as ordinate `d`
pub fn edit_value(s: &mut Src, d: usize, m: i64) -> f64 {
    match s.below(12) {
        0 if d >= 2 => f64::NAN,
        0 | 1 => special(s),
        _ => s.sint(m) as f64 / 4.0,
    }
}

pub trait SeqLike: Clone {
    const NAME: &'static str;
    fn make(m: &[Ords], k: Kind) -> Self;
    fn len(&self) -> usize;
    fn dim(&self) -> usize;
    fn meas(&self) -> usize;
    fn get(&self, i: usize, d: usize) -> f64;
    fn set(&mut self, i: usize, d: usize, v: f64);
    fn at(&self, i: usize) -> Coordinate;
    fn array(&self) -> Vec<Coordinate>;
    fn dup(&self) -> Self;
    fn bounds(&self, e: &mut Envelope);
    fn reverse(&mut self);
    fn swap(&mut self, i: usize, j: usize);
    fn copy_range(a: &Self, i: usize, b: &mut Self, j: usize, n: usize);
    fn copy_one(a: &Self, i: usize, b: &mut Self, j: usize);
    fn is_ring(&self) -> bool;
    fn ensure_valid_ring(&self) -> Self;
    fn closed_ring(&self, n: usize) -> Self;
    fn extend(&self, n: usize) -> Self;
    fn is_equal(&self, o: &Self) -> bool;
    fn min(&self) -> Option<Coordinate>;
    fn min_index(&self) -> usize;
    fn min_index_in(&self, i: usize, j: usize) -> usize;
    fn scroll_to(&mut self, c: &Coordinate);
    fn scroll(&mut self, i: usize);
    fn scroll_ring(&mut self, i: usize, ring: bool);
    fn find(&self, c: &Coordinate) -> i32;
}

macro_rules! algos {
    ($a:ident) => {
        fn reverse(&mut self) { $a::reverse(self) }
        fn swap(&mut self, i: usize, j: usize) { $a::swap(self, i, j) }
        fn copy_range(a: &Self, i: usize, b: &mut Self, j: usize, n: usize) { $a::copy(a, i, b, j, n) }
        fn copy_one(a: &Self, i: usize, b: &mut Self, j: usize) { $a::copy_coord(a, i, b, j) }
        fn is_ring(&self) -> bool { $a::is_ring(self) }
        fn ensure_valid_ring(&self) -> Self { $a::ensure_valid_ring(self) }
        fn closed_ring(&self, n: usize) -> Self { $a::create_closed_ring(self, n) }
        fn extend(&self, n: usize) -> Self { $a::extend(self, n) }
        fn is_equal(&self, o: &Self) -> bool { $a::is_equal(self, o) }
        fn min(&self) -> Option<Coordinate> { $a::min_coordinate(self) }
        fn min_index(&self) -> usize { $a::min_coordinate_index_sequence(self) }
        fn min_index_in(&self, i: usize, j: usize) -> usize { $a::min_coordinate_index_sequence_from_to(self, i, j) }
        fn scroll_to(&mut self, c: &Coordinate) { $a::scroll_coordinate(self, c) }
        fn scroll(&mut self, i: usize) { $a::scroll_coordinate_index(self, i) }
        fn scroll_ring(&mut self, i: usize, ring: bool) { $a::scroll_coordinate_index_ensure_ring(self, i, ring) }
        fn find(&self, c: &Coordinate) -> i32 { $a::index_of(c, self) }
    };
}

impl SeqLike for CoordinateArraySequence {
    const NAME: &'static str = "array";
    fn make(m: &[Ords], k: Kind) -> Self {
        CoordinateArraySequence::new_with_coordinates_dimension_measures(to_coords(m, k), k.0 as i32, k.1 as i32)
    }
    fn len(&self) -> usize { self.size() }
    fn dim(&self) -> usize { self.get_dimension() as usize }
    fn meas(&self) -> usize { self.get_measures() as usize }
    fn get(&self, i: usize, d: usize) -> f64 { self.get_ordinate(i, d as i32) }
    fn set(&mut self, i: usize, d: usize, v: f64) { self.set_ordinate(i, d as i32, v) }
    fn at(&self, i: usize) -> Coordinate { self.get_coordinate_index(i) }
    fn array(&self) -> Vec<Coordinate> { self.to_coordinate_array() }
    fn dup(&self) -> Self { self.copy() }
    fn bounds(&self, e: &mut Envelope) { self.expand_envelope(e) }
    algos!(CoordinateArraySequences);
}

impl SeqLike for PackedCoordinateSequenceDouble {
    const NAME: &'static str = "packed";
    fn make(m: &[Ords], k: Kind) -> Self {
        let raw: Vec<f64> = m.iter().flat_map(|o| o.iter().cloned()).collect();
        PackedCoordinateSequenceDouble::new_f64_with_coordinates_dimension_measures(&raw, k.0 as i32, k.1 as i32)
    }
    fn len(&self) -> usize { self.size() }
    fn dim(&self) -> usize { self.get_dimension() as usize }
    fn meas(&self) -> usize { self.get_measures() as usize }
    fn get(&self, i: usize, d: usize) -> f64 { self.get_ordinate(i, d as i32) }
    fn set(&mut self, i: usize, d: usize, v: f64) { self.set_ordinate(i, d as i32, v) }
    fn at(&self, i: usize) -> Coordinate {
        // two readers of one point: disagreement shows as a NaN abscissa
        let (a, b) = (self.get_coordinate_by_index(i), self.get_coordinate_internal(i));
        if same_c(&a, &b) { a } else { c2(f64::NAN, f64::NAN) }
    }
    fn array(&self) -> Vec<Coordinate> { self.to_coordinate_array() }
    fn dup(&self) -> Self { self.copy() }
    fn bounds(&self, e: &mut Envelope) { *e = self.expand_envelope(e) }
    algos!(PackedCoordinateSequences);
}

/// everything observable of a sequence agrees with the model
pub fn observe<S: SeqLike>(q: &S, m: &[Ords], k: Kind, when: &str) -> Result<(), String> {
    if (q.dim(), q.meas()) != k {
        return Err(format!("{} {}: dimension {} measures {}, expected {:?}", S::NAME, when, q.dim(), q.meas(), k));
    }
    if q.len() != m.len() {
        return Err(format!("{} {}: size {}, model {}", S::NAME, when, q.len(), m.len()));
    }
    for (i, o) in m.iter().enumerate() {
        for d in 0..k.0 {
            let v = q.get(i, d);
            if !stored(v, o[d]) {
                return Err(format!("{} {}: ordinate {} of {} is {:?}, model {:?}", S::NAME, when, d, i, v, m));
            }
        }
        if !stored_c(&q.at(i), &to_coord(o, k)) {
            return Err(format!("{} {}: coordinate {} is {}, model {}", S::NAME, when, i, fc(&q.at(i)), fc(&to_coord(o, k))));
        }
    }
    let want = to_coords(m, k);
    if !stored_cs(&q.array(), &want) {
        return Err(format!("{} {}: coordinates {}, model {}", S::NAME, when, fcs(&q.array()), fcs(&want)));
    }
    Ok(())
}
