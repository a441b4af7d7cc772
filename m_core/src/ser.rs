//! M04: serialised matrices and vectors, with faults at every point.
use aether_core::math::{Matrix, Vector};
use mckit::{Run, guard, h};
use serde::de::value::{Error as DeError, SeqDeserializer};
use serde::de::{DeserializeSeed, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;

// ---- an element that counts itself and fails on demand
thread_local! {
    static LIVE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    static NEXT: Cell<u64> = const { Cell::new(0) };
    static BAD_DROP: Cell<u64> = const { Cell::new(0) };
}
#[derive(Debug, PartialEq)]
struct Item {
    id: u64,
    v: i64,
}
const BOMB: i64 = 777;
fn born(v: i64) -> Item {
    let id = NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    });
    LIVE.with(|l| l.borrow_mut().insert(id));
    Item { id, v }
}
impl Drop for Item {
    fn drop(&mut self) {
        if !LIVE.with(|l| l.borrow_mut().remove(&self.id)) {
            BAD_DROP.with(|b| b.set(b.get() + 1));
        }
    }
}
impl<'de> Deserialize<'de> for Item {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = i64::deserialize(d)?;
        if v == BOMB { Err(serde::de::Error::custom("bomb")) } else { Ok(born(v)) }
    }
}
impl<C> bincode::Decode<C> for Item {
    fn decode<D: bincode::de::Decoder<Context = C>>(d: &mut D) -> Result<Self, bincode::error::DecodeError> {
        let v = i64::decode(d)?;
        if v == BOMB { Err(bincode::error::DecodeError::Other("bomb")) } else { Ok(born(v)) }
    }
}
impl<'de, C> bincode::BorrowDecode<'de, C> for Item {
    fn borrow_decode<D: bincode::de::BorrowDecoder<'de, Context = C>>(d: &mut D) -> Result<Self, bincode::error::DecodeError> {
        let v = i64::borrow_decode(d)?;
        if v == BOMB { Err(bincode::error::DecodeError::Other("bomb")) } else { Ok(born(v)) }
    }
}
fn reset() {
    LIVE.with(|l| l.borrow_mut().clear());
    BAD_DROP.with(|b| b.set(0));
}
fn live() -> usize {
    LIVE.with(|l| l.borrow().len())
}
fn bad_drops() -> u64 {
    BAD_DROP.with(|b| b.get())
}

// ---- a self-describing input: nested sequences of integers
#[derive(Clone, Debug)]
struct Rows(Vec<Vec<i64>>);
impl<'de> Deserializer<'de> for Rows {
    type Error = DeError;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeError> {
        struct Acc(std::vec::IntoIter<Vec<i64>>);
        impl<'de> SeqAccess<'de> for Acc {
            type Error = DeError;
            fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, DeError> {
                self.0.next().map(|r| s.deserialize(SeqDeserializer::new(r.into_iter()))).transpose()
            }
        }
        v.visit_seq(Acc(self.0.into_iter()))
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

fn cfg() -> bincode::config::Configuration<bincode::config::LittleEndian, bincode::config::Fixint> {
    bincode::config::standard().with_fixed_int_encoding()
}

fn item_matrix<const M: usize, const N: usize>(r: &mut Run) {
    let good: Vec<Vec<i64>> = (0..M).map(|i| (0..N).map(|j| (i * 10 + j) as i64).collect()).collect();
    let mut inputs: Vec<(String, Vec<Vec<i64>>, bool)> = vec![("complete".into(), good.clone(), true)];
    for i in 0..M {
        for j in 0..N {
            let mut g = good.clone();
            g[i][j] = BOMB;
            inputs.push((format!("element {i},{j} fails"), g.clone(), false));
            let mut g = good.clone();
            g[i].truncate(j);
            inputs.push((format!("row {i} has {j} elements"), g, false));
        }
        let mut g = good.clone();
        g[i].push(5);
        inputs.push((format!("row {i} is too long"), g.clone(), false));
        g[i].push(BOMB);
        inputs.push((format!("row {i} is two too long"), g, false));
        let mut g = good.clone();
        g.truncate(i);
        inputs.push((format!("only {i} rows"), g, false));
    }
    let mut g = good.clone();
    g.push(vec![1; N]);
    inputs.push(("one row too many".into(), g.clone(), false));
    g.push(vec![BOMB; N]);
    inputs.push(("two rows too many".into(), g, false));
    for (what, rows, valid) in inputs {
        reset();
        let got = guard(|| Matrix::<Item, M, N>::deserialize(Rows(rows.clone())));
        r.step();
        r.states_distinct(1);
        match &got {
            Ok(Ok(m)) => {
                let same = valid && (0..M).all(|i| (0..N).all(|j| m.data[i][j].v == rows[i][j]));
                r.check(same, "serde-accept", || format!("{M}x{N}: input where {what} decoded to {m:?}"));
                r.check(live() == M * N, "serde-live", || format!("{M}x{N}: {} live elements", live()));
            }
            Ok(Err(_)) => {
                r.check(!valid, "serde-reject", || format!("{M}x{N}: {what} rejected"));
                r.check(live() == 0, "serde-leak", || format!("{M}x{N}: {what}: {} decoded elements never dropped", live()));
            }
            Err(e) => r.fail("serde-panic", || format!("{M}x{N}: {what}: panic {e}")),
        }
        drop(got);
        r.check(live() == 0 && bad_drops() == 0, "serde-drop", || format!("{M}x{N}: {what}: {} elements left, {} dropped twice or never created", live(), bad_drops()));
        r.outcome(h(what.as_bytes()));
        r.trace();
        r.sample(|| format!("serde {M}x{N}: {what}"));
    }
    // binary: every truncation and every failing element, owned and borrowed
    let mut bytes = vec![];
    for row in &good {
        for x in row {
            bytes.extend(x.to_le_bytes());
        }
    }
    for borrowed in [false, true] {
        let run = |b: &[u8]| -> Result<Result<(Matrix<Item, M, N>, usize), String>, String> {
            guard(|| {
                if borrowed { bincode::borrow_decode_from_slice(b, cfg()) } else { bincode::decode_from_slice(b, cfg()) }.map_err(|e| e.to_string())
            })
        };
        for cut in 0..=bytes.len() {
            reset();
            let got = run(&bytes[..cut]);
            r.step();
            r.states_distinct(1);
            match &got {
                Ok(Ok((m, n))) => {
                    let ok = cut == bytes.len() && *n == cut && (0..M).all(|i| (0..N).all(|j| m.data[i][j].v == good[i][j]));
                    r.check(ok && live() == M * N, "bin-accept", || format!("{M}x{N}: {cut} of {} bytes decoded", bytes.len()));
                }
                Ok(Err(_)) => {
                    r.check(cut < bytes.len() && live() == 0, "bin-cut", || format!("{M}x{N} cut at byte {cut} of {}: {} elements never dropped", bytes.len(), live()));
                }
                Err(e) => r.fail("bin-panic", || format!("{M}x{N} cut at {cut}: {e}")),
            }
            drop(got);
            r.check(live() == 0 && bad_drops() == 0, "bin-drop", || format!("{M}x{N} cut at {cut} (borrowed {borrowed}): {} left, {} bad drops", live(), bad_drops()));
            r.trace();
        }
        for k in 0..M * N {
            let mut b = bytes.clone();
            b[k * 8..k * 8 + 8].copy_from_slice(&BOMB.to_le_bytes());
            reset();
            let got = run(&b);
            r.step();
            r.states_distinct(1);
            r.check(matches!(got, Ok(Err(_))) && live() == 0 && bad_drops() == 0, "bin-bomb", || format!("{M}x{N} element {k} fails (borrowed {borrowed}): result ok={}, {} elements never dropped, {} bad drops", matches!(got, Ok(Ok(_))), live(), bad_drops()));
            r.trace();
        }
    }
    reset();
}
fn floats() -> Vec<f64> {
    vec![0.0, -0.0, 1.0, -1.5, 0.1, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, 1.0 / 3.0, 123456789.123456789, 1e22, 1e23, 2f64.powi(53) + 2.0, f64::EPSILON]
}
fn round_trip<const M: usize, const N: usize>(r: &mut Run) {
    let fs = floats();
    for s in 0..fs.len() {
        let m = Matrix::<f64, M, N> { data: core::array::from_fn(|i| core::array::from_fn(|j| fs[(s + i * N + j) % fs.len()])) };
        let js = serde_json::to_string(&m).unwrap();
        // the text is the nested array of rows
        let plain: Vec<Vec<f64>> = m.data.iter().map(|r| r.to_vec()).collect();
        r.check(js == serde_json::to_string(&plain).unwrap(), "json-shape", || format!("{M}x{N}: {js}"));
        let back = serde_json::from_str::<Matrix<f64, M, N>>(&js);
        // the text reader's own rounding is not in question: compare with plain rows
        let ref_rows: Vec<Vec<f64>> = serde_json::from_str(&js).unwrap();
        r.check(back.as_ref().is_ok_and(|x| (0..M).all(|i| (0..N).all(|j| x.data[i][j].to_bits() == ref_rows[i][j].to_bits()))), "json", || format!("{js} -> {back:?}"));
        for cut in 0..js.len() {
            let got = guard(|| serde_json::from_str::<Matrix<f64, M, N>>(&js[..cut]));
            r.step();
            r.check(matches!(got, Ok(Err(_))), "json-cut", || format!("{M}x{N}: prefix {:?} accepted: {got:?}", &js[..cut]));
        }
        let f = Matrix::<f32, M, N> { data: m.data.map(|r| r.map(|x| x as f32)) };
        let nanm = Matrix::<f64, M, N> { data: m.data.map(|r| r.map(|x| if x == 1.0 { f64::NAN } else if x == -1.5 { f64::NEG_INFINITY } else { x })) };
        let b = bincode::encode_to_vec(f, cfg()).unwrap();
        r.check(b.len() == 4 * M * N && b.chunks(4).zip(f.data.as_flattened()).all(|(c, x)| c == x.to_le_bytes()), "bin-layout", || format!("{M}x{N} f32 encodes to {b:?}"));
        r.check(bincode::decode_from_slice::<Matrix<f32, M, N>, _>(&b, cfg()).is_ok_and(|(x, n)| n == b.len() && x == f), "bin32", || format!("{f:?}"));
        let b = bincode::encode_to_vec(nanm, bincode::config::standard()).unwrap();
        r.check(bincode::decode_from_slice::<Matrix<f64, M, N>, _>(&b, bincode::config::standard()).is_ok_and(|(x, n)| n == b.len() && (0..M).all(|i| (0..N).all(|j| x.data[i][j].to_bits() == nanm.data[i][j].to_bits()))), "bin64", || format!("{nanm:?}"));
        r.steps(4);
        r.states_distinct(1);
        r.trace();
    }
}
fn vec_trip<const N: usize>(r: &mut Run) {
    let fs = floats();
    for s in 0..fs.len() {
        let v = Vector::<f64, N> { data: core::array::from_fn(|i| fs[(s + i) % fs.len()]) };
        let js = serde_json::to_string(&v).unwrap();
        r.check(js == serde_json::to_string(&v.data.to_vec()).unwrap(), "vjson-shape", || js.clone());
        let back = serde_json::from_str::<Vector<f64, N>>(&js);
        let plain: Vec<f64> = serde_json::from_str(&js).unwrap();
        r.check(back.as_ref().is_ok_and(|x| (0..N).all(|i| x.data[i].to_bits() == plain[i].to_bits())), "vjson", || format!("{js} -> {back:?}"));
        for cut in 0..js.len() {
            let got = guard(|| serde_json::from_str::<Vector<f64, N>>(&js[..cut]));
            r.step();
            r.check(matches!(got, Ok(Err(_))), "vjson-cut", || format!("prefix {:?} accepted", &js[..cut]));
        }
        for k in 0..=N + 2 {
            let js = serde_json::to_string(&(0..k).map(|x| x as f64).collect::<Vec<_>>()).unwrap();
            let got = serde_json::from_str::<Vector<f64, N>>(&js);
            r.check(got.is_ok() == (k == N), "vlen", || format!("{k} elements into a vector of {N}: {got:?}"));
            r.step();
        }
        let b = bincode::encode_to_vec(v, cfg()).unwrap();
        for cut in 0..=b.len() {
            let got = guard(|| bincode::decode_from_slice::<Vector<f64, N>, _>(&b[..cut], cfg()));
            r.step();
            let ok = match got {
                Ok(Ok((x, n))) => cut == b.len() && n == cut && (0..N).all(|i| x.data[i].to_bits() == v.data[i].to_bits()),
                Ok(Err(_)) => cut < b.len(),
                Err(_) => false,
            };
            r.check(ok, "vbin", || format!("vector of {N} cut at byte {cut} of {}", b.len()));
        }
        r.states_distinct(1);
        r.trace();
    }
}
/// Any element type, any place in a larger document: round trips, wrong pieces, buffers too small.
fn elements<T, const M: usize, const N: usize>(r: &mut Run, name: &str, mk: &dyn Fn(usize) -> T)
where
    T: Copy + PartialEq + std::fmt::Debug + serde::Serialize + for<'a> Deserialize<'a> + bincode::Encode + bincode::Decode<()> + 'static,
    Matrix<T, M, N>: serde::Serialize + for<'a> Deserialize<'a> + bincode::Encode + bincode::Decode<()>,
{
    let m = Matrix::<T, M, N> { data: core::array::from_fn(|i| core::array::from_fn(|j| mk(i * N + j))) };
    let v = Vector::<f64, N> { data: core::array::from_fn(|j| j as f64 * 0.75 - 3.0) };
    let at = || format!("{M}x{N} of {name}");
    r.states_distinct(1);
    r.trace();
    // text, alone and among others
    let js = serde_json::to_string(&m).unwrap();
    let plain: Vec<Vec<T>> = m.data.iter().map(|x| x.to_vec()).collect();
    r.check(js == serde_json::to_string(&plain).unwrap(), "json-shape", || format!("{}: {js}", at()));
    r.check(serde_json::from_str::<Matrix<T, M, N>>(&js).is_ok_and(|x| x.data == m.data), "json", || format!("{}: {js}", at()));
    let pair = (vec![m, m, m], Some(v), [v, v], m);
    let doc = serde_json::to_string(&pair).unwrap();
    type Doc<T, const M: usize, const N: usize> = (Vec<Matrix<T, M, N>>, Option<Vector<f64, N>>, [Vector<f64, N>; 2], Matrix<T, M, N>);
    let back = serde_json::from_str::<Doc<T, M, N>>(&doc);
    r.check(back.is_ok_and(|b| b.0.len() == 3 && b.0.iter().all(|x| x.data == m.data) && b.1.is_some_and(|x| x.data == v.data) && b.2.iter().all(|x| x.data == v.data) && b.3.data == m.data), "json-nested", || format!("{} inside a document", at()));
    // a piece of another kind in the place of any row or element
    let val: serde_json::Value = serde_json::from_str(&js).unwrap();
    for bad in ["null", "\"x\"", "{}", "[]", "[[true]]", "true"] {
        let b: serde_json::Value = serde_json::from_str(bad).unwrap();
        for i in 0..M {
            let mut w = val.clone();
            w[i] = b.clone();
            r.step();
            let t = w.to_string();
            let got = guard(|| serde_json::from_str::<Matrix<T, M, N>>(&t).is_err());
            r.check(got == Ok(true), "json-wrong-piece", || format!("{}: row {i} is {bad}: refused {got:?}", at()));
            for j in 0..N {
                if M * N > 40 && (i * 7 + j) % 11 > 0 {
                    continue;
                }
                let mut w = val.clone();
                w[i][j] = b.clone();
                r.step();
                let t = w.to_string();
                let got = guard(|| serde_json::from_str::<Matrix<T, M, N>>(&t).is_err());
                r.check(got == Ok(true), "json-wrong-piece", || format!("{}: element {i},{j} is {bad}: refused {got:?}", at()));
            }
        }
        r.check(guard(|| serde_json::from_str::<Matrix<T, M, N>>(bad).is_err()) == Ok(true) && guard(|| serde_json::from_str::<Vector<f64, N>>(bad).is_err()) == Ok(true), "json-wrong-piece", || format!("{}: {bad} is accepted", at()));
    }
    // binary: in both byte orders and integer codings, in a stream, and into every buffer that is too small
    macro_rules! coding {
        ($c:expr, $what:literal) => {{
            let c = $c;
            let b = bincode::encode_to_vec(m, c).unwrap();
            let flat: Vec<u8> = m.data.as_flattened().iter().flat_map(|x| bincode::encode_to_vec(x, c).unwrap()).collect();
            r.check(b == flat, "bin-layout", || format!("{} ({}) encodes to {b:?}", at(), $what));
            r.check(bincode::decode_from_slice::<Matrix<T, M, N>, _>(&b, c).is_ok_and(|(x, n)| n == b.len() && x.data == m.data), "bin", || format!("{} ({})", at(), $what));
            for cut in 0..b.len() {
                r.step();
                let mut buf = vec![0u8; cut];
                let got = guard(|| bincode::encode_into_slice(m, &mut buf, c).is_err());
                r.check(got == Ok(true), "bin-small", || format!("{} ({}): written into {cut} of {} bytes: error {got:?}", at(), $what, b.len()));
                let got = guard(|| bincode::decode_from_slice::<Matrix<T, M, N>, _>(&b[..cut], c).is_err());
                r.check(got == Ok(true), "bin-cut", || format!("{} ({}) cut at {cut}: refused {got:?}", at(), $what));
            }
            let mut buf = vec![0xAAu8; b.len() + 9];
            let n = bincode::encode_into_slice(m, &mut buf, c);
            r.check(matches!(n, Ok(k) if k == b.len()) && buf[..b.len()] == b[..] && buf[b.len()..].iter().all(|x| *x == 0xAA), "bin-into", || format!("{} ({}) into a larger buffer: {n:?}", at(), $what));
            let s = bincode::encode_to_vec((m, v, m, 77u8), c).unwrap();
            let got = bincode::decode_from_slice::<(Matrix<T, M, N>, Vector<f64, N>, Matrix<T, M, N>, u8), _>(&s, c);
            r.check(got.is_ok_and(|(x, n)| n == s.len() && x.0.data == m.data && x.1.data == v.data && x.2.data == m.data && x.3 == 77), "bin-stream", || format!("{} ({}) in a stream", at(), $what));
        }};
    }
    coding!(bincode::config::standard(), "variable");
    coding!(bincode::config::standard().with_big_endian().with_fixed_int_encoding(), "big endian");
    coding!(bincode::config::legacy(), "legacy");
}
fn big(r: &mut Run) {
    macro_rules! shapes { ($(($m:literal $n:literal))*) => { $(
        elements::<f64, $m, $n>(r, "f64", &|i| (i as f64 - 7.25) * 1.5);
        elements::<f32, $m, $n>(r, "f32", &|i| (i as f32 + 0.5) / 3.0);
        elements::<i64, $m, $n>(r, "i64", &|i| (i as i64 - 3) * 0x0123_4567_89ab);
        elements::<u8, $m, $n>(r, "u8", &|i| (i * 37) as u8);
        elements::<(u16, i8), $m, $n>(r, "pair", &|i| ((i * 411) as u16, i as i8));
    )* } }
    shapes!((1 1)(1 2)(3 1)(2 3)(5 5)(12 12)(1 40)(33 2));
    if r.thorough {
        shapes!((7 9)(64 3)(3 64)(16 16)(1 300)(300 1));
    }
}
pub fn m04(r: &mut Run) {
    big(r);
    r.section("element types, documents, streams and small buffers");
    macro_rules! each { ($f:ident: $(($m:literal $n:literal))*) => { $( $f::<$m, $n>(r); )* } }
    each!(item_matrix: (1 1)(1 2)(2 1)(2 2)(1 4)(4 1)(2 3)(3 2)(3 3)(4 4)(5 2)(2 6)(6 6)(1 9)(9 1)(8 8)(12 10)(3 33)(33 3)(1 70)(70 1));
    r.section("faults at every element, row and byte (owned elements)");
    each!(round_trip: (1 1)(1 3)(3 1)(2 2)(2 3)(3 3)(4 4)(1 9)(6 6)(10 10)(2 35)(65 1));
    r.section("matrix round trips and truncations");
    vec_trip::<1>(r);
    vec_trip::<2>(r);
    vec_trip::<3>(r);
    vec_trip::<4>(r);
    vec_trip::<7>(r);
    vec_trip::<16>(r);
    vec_trip::<33>(r);
    vec_trip::<100>(r);
    r.section("vector round trips and truncations");
    r.bounds.push("20 matrix shapes with every single fault (failing element, short/long row, missing/extra row, every truncated byte); 12 matrix and 8 vector shapes x 15 value rotations x every text and binary prefix".into());
}

// ---- M07: attitude, coordinate and frame values
use aether_core::attitude::{DirectionCosineMatrix, Euler, Quaternion};
use aether_core::coordinate::Cartesian;
use aether_core::reference_frame::{Assembly, Body, ICRF, ITRF, NED};
type Q = Quaternion<f64, ICRF<f64>, Body<f64>>;
type D = DirectionCosineMatrix<f64, ICRF<f64>, Body<f64>>;
type E = Euler<f64, ICRF<f64>, Body<f64>>;
type P = Cartesian<f64, ICRF<f64>>;
type B = Body<f64>;
type A = Assembly<f64>;
type F = Quaternion<f32, ICRF<f32>, Body<f32>>;
/// A value with its numbers in order.
trait Flat: Sized {
    const N: usize;
    fn make(x: &[f64]) -> Self;
    fn flat(&self) -> Vec<f64>;
}
impl Flat for Q {
    const N: usize = 4;
    fn make(x: &[f64]) -> Self {
        Q::new(x[0], x[1], x[2], x[3])
    }
    fn flat(&self) -> Vec<f64> {
        vec![self.w(), self.i(), self.j(), self.k()]
    }
}
impl Flat for F {
    const N: usize = 4;
    fn make(x: &[f64]) -> Self {
        F::new(x[0] as f32, x[1] as f32, x[2] as f32, x[3] as f32)
    }
    fn flat(&self) -> Vec<f64> {
        [self.w(), self.i(), self.j(), self.k()].map(|x| x as f64).to_vec()
    }
}
impl Flat for D {
    const N: usize = 9;
    fn make(x: &[f64]) -> Self {
        D::new(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8])
    }
    fn flat(&self) -> Vec<f64> {
        self.as_matrix().data.as_flattened().to_vec()
    }
}
impl Flat for E {
    const N: usize = 3;
    fn make(x: &[f64]) -> Self {
        E::new(x[0], x[1], x[2])
    }
    fn flat(&self) -> Vec<f64> {
        vec![self.roll(), self.pitch(), self.yaw()]
    }
}
impl Flat for P {
    const N: usize = 3;
    fn make(x: &[f64]) -> Self {
        P::new(x[0], x[1], x[2])
    }
    fn flat(&self) -> Vec<f64> {
        vec![self.x(), self.y(), self.z()]
    }
}
impl Flat for B {
    const N: usize = 6;
    fn make(x: &[f64]) -> Self {
        B::new(Cartesian::new(x[0], x[1], x[2]), Cartesian::new(x[3], x[4], x[5]))
    }
    fn flat(&self) -> Vec<f64> {
        [self.mass_center, self.lever_arm].iter().flat_map(|c| [c.x(), c.y(), c.z()]).collect()
    }
}
impl Flat for A {
    const N: usize = 6;
    fn make(x: &[f64]) -> Self {
        A::new(Cartesian::new(x[0], x[1], x[2]), Cartesian::new(x[3], x[4], x[5]))
    }
    fn flat(&self) -> Vec<f64> {
        [self.mass_center, self.lever_arm].iter().flat_map(|c| [c.x(), c.y(), c.z()]).collect()
    }
}
macro_rules! one {
    ($name:ident, $T:ty, $v:expr) => {
        impl Flat for $T {
            const N: usize = 1;
            fn make(x: &[f64]) -> Self {
                let mut t = <$T>::default();
                t.$name = x[0];
                t
            }
            fn flat(&self) -> Vec<f64> {
                vec![self.$name]
            }
        }
    };
}
macro_rules! quads {
    ($($T:ty, $t:ty, $n:literal, [$($i:literal)*], $($g:ident)*;)*) => { $(
        impl Flat for $T {
            const N: usize = $n;
            fn make(x: &[f64]) -> Self {
                <$T>::new($(x[$i] as $t),*)
            }
            fn flat(&self) -> Vec<f64> {
                vec![$(self.$g() as f64),*]
            }
        }
    )* };
}
type Q2 = Quaternion<f64, NED<f64>, ITRF<f64>>;
type E2 = Euler<f32, Body<f32>, ICRF<f32>>;
type P2 = Cartesian<f32, ICRF<f32>>;
type P3 = Cartesian<f64, Body<f64>>;
type P4 = Cartesian<f64, ITRF<f64>>;
quads! {
    Q2, f64, 4, [0 1 2 3], w i j k;
    E2, f32, 3, [0 1 2], roll pitch yaw;
    P2, f32, 3, [0 1 2], x y z;
    P3, f64, 3, [0 1 2], x y z;
    P4, f64, 3, [0 1 2], x y z;
}
type D2 = DirectionCosineMatrix<f32, Body<f32>, ICRF<f32>>;
impl Flat for D2 {
    const N: usize = 9;
    fn make(x: &[f64]) -> Self {
        let x: Vec<f32> = x.iter().map(|v| *v as f32).collect();
        D2::new(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8])
    }
    fn flat(&self) -> Vec<f64> {
        self.as_matrix().data.as_flattened().iter().map(|x| *x as f64).collect()
    }
}
impl Flat for Body<f32> {
    const N: usize = 6;
    fn make(x: &[f64]) -> Self {
        let x: Vec<f32> = x.iter().map(|v| *v as f32).collect();
        Body::new(Cartesian::new(x[0], x[1], x[2]), Cartesian::new(x[3], x[4], x[5]))
    }
    fn flat(&self) -> Vec<f64> {
        [self.mass_center, self.lever_arm].iter().flat_map(|c| [c.x() as f64, c.y() as f64, c.z() as f64]).collect()
    }
}
/// A position of two or four numbers, or of other things, is refused.
fn triples<T: for<'a> Deserialize<'a>>(r: &mut Run, name: &str, nested: bool) {
    let bad = ["[]", "[1.0]", "[1.0,2.0]", "[1.0,2.0,3.0,4.0]", "[1.0,2.0,null]", "[1.0,\"2\",3.0]", "[[1.0,2.0,3.0]]", "null", "1.0", "{}"];
    for b in bad {
        let texts = if nested { vec![format!("[{b},[1.0,2.0,3.0]]"), format!("[[1.0,2.0,3.0],{b}]"), b.to_string(), format!("[[1.0,2.0,3.0],[1.0,2.0,3.0],{b}]")] } else { vec![b.to_string()] };
        for t in texts {
            r.step();
            let got = guard(|| serde_json::from_str::<T>(&t).is_err());
            r.check(got == Ok(true), "value-json-wrong", || format!("{name} from {t}: refused {got:?}"));
        }
    }
}
one!(epoch, ICRF<f64>, 0);
one!(epoch, ITRF<f64>, 0);
one!(origin, NED<f64>, 0);
fn bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}
fn words_of(n: usize) -> Vec<Vec<f64>> {
    let fs = floats();
    let mut out = vec![];
    for s in 0..fs.len() {
        out.push((0..n).map(|i| fs[(s + i) % fs.len()]).collect());
        for k in 0..n {
            // one field differs from the rest
            let mut w = vec![0.0; n];
            w[k] = fs[s];
            out.push(w.clone());
            w.fill(1.0);
            w[k] = fs[s];
            out.push(w);
        }
    }
    out
}
fn json_of<T: Flat + serde::Serialize + for<'a> Deserialize<'a>>(r: &mut Run, name: &str, shape: Option<fn(&[f64]) -> String>) {
    for w in words_of(T::N) {
        let t = T::make(&w);
        let want = t.flat();
        let js = serde_json::to_string(&t).unwrap();
        if let Some(f) = shape {
            r.check(js == f(&want), "value-json-shape", || format!("{name} {want:?} is written {js}"));
        }
        let back = guard(|| serde_json::from_str::<T>(&js).map(|x| x.flat()));
        // the text reader's own rounding is not in question: its numbers in order
        let nums: Vec<f64> = js.split(|c: char| !(c.is_ascii_digit() || "+-.eE".contains(c))).filter_map(|s| serde_json::from_str::<f64>(s).ok()).collect();
        r.check(matches!(&back, Ok(Ok(x)) if bits(x, &nums) && x.iter().zip(&want).all(|(a, b)| (a - b).abs() <= 1e-9 * b.abs())), "value-json", || format!("{name} {js} -> {back:?}"));
        for cut in 0..js.len() {
            r.step();
            let got = guard(|| serde_json::from_str::<T>(&js[..cut]).map(|x| x.flat()));
            r.check(matches!(got, Ok(Err(_))), "value-json-cut", || format!("{name}: prefix {:?} gives {got:?}", &js[..cut]));
        }
        r.states_distinct(1);
        r.trace();
    }
    r.outcome(mckit::hs(name));
}
fn bin_of<T: Flat + bincode::Encode + bincode::Decode<()>>(r: &mut Run, name: &str, size: usize) {
    let mut ws = words_of(T::N);
    let k = ws.len();
    for i in 0..k {
        let mut w = ws[i].clone();
        for x in &mut w {
            *x = if *x == 1.0 { f64::NAN } else if *x == 0.0 { f64::NEG_INFINITY } else { *x };
        }
        ws.push(w);
    }
    for w in ws {
        let t = T::make(&w);
        let want = t.flat();
        let b = bincode::encode_to_vec(&t, cfg()).unwrap();
        let lay: Vec<u8> = want.iter().flat_map(|x| if size == 4 { (*x as f32).to_le_bytes().to_vec() } else { x.to_le_bytes().to_vec() }).collect();
        r.check(b == lay || want.iter().any(|x| x.is_nan()), "value-bin-layout", || format!("{name} {want:?} encodes to {b:?}"));
        for cut in 0..=b.len() {
            r.step();
            let got = guard(|| bincode::decode_from_slice::<T, _>(&b[..cut], cfg()).map(|(x, n)| (x.flat(), n)));
            let ok = match &got {
                Ok(Ok((x, n))) => cut == b.len() && *n == cut && bits(x, &want),
                Ok(Err(_)) => cut < b.len(),
                Err(_) => false,
            };
            r.check(ok, "value-bin", || format!("{name} {want:?} cut at byte {cut} of {}: {got:?}", b.len()));
        }
        r.states_distinct(1);
        r.trace();
    }
    r.outcome(mckit::hs(name) + 1);
}
pub fn m07(r: &mut Run) {
    let row = |w: &[f64]| serde_json::to_string(w).unwrap();
    let _ = row;
    fn list(w: &[f64]) -> String {
        serde_json::to_string(w).unwrap()
    }
    fn two(w: &[f64]) -> String {
        format!("[{},{}]", list(&w[..3]), list(&w[3..]))
    }
    json_of::<P>(r, "Cartesian", Some(list));
    json_of::<B>(r, "Body", Some(two));
    json_of::<A>(r, "Assembly", Some(two));
    json_of::<Q>(r, "Quaternion", None);
    json_of::<D>(r, "DirectionCosineMatrix", None);
    json_of::<E>(r, "Euler", None);
    json_of::<ICRF<f64>>(r, "ICRF", None);
    json_of::<ITRF<f64>>(r, "ITRF", None);
    json_of::<NED<f64>>(r, "NED", None);
    json_of::<Q2>(r, "Quaternion NED ITRF", None);
    json_of::<P3>(r, "Cartesian in Body", Some(list));
    json_of::<P4>(r, "Cartesian in ITRF", Some(list));
    triples::<P>(r, "Cartesian", false);
    triples::<P2>(r, "Cartesian f32", false);
    triples::<B>(r, "Body", true);
    triples::<A>(r, "Assembly", true);
    r.section("text");
    bin_of::<E2>(r, "Euler f32", 4);
    bin_of::<D2>(r, "DirectionCosineMatrix f32", 4);
    bin_of::<P2>(r, "Cartesian f32", 4);
    bin_of::<P3>(r, "Cartesian in Body", 8);
    bin_of::<Body<f32>>(r, "Body f32", 4);
    bin_of::<Q>(r, "Quaternion", 8);
    bin_of::<F>(r, "Quaternion f32", 4);
    bin_of::<D>(r, "DirectionCosineMatrix", 8);
    bin_of::<E>(r, "Euler", 8);
    bin_of::<P>(r, "Cartesian", 8);
    bin_of::<B>(r, "Body", 8);
    bin_of::<ICRF<f64>>(r, "ICRF", 8);
    r.section("binary");
    r.bounds.push("9 types, every value of a set in every field over two backgrounds and rotated through all fields; every text and binary prefix".into());
}
