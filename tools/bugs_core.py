from bugkit import bug
C='crates/aether_core/src/'
M=['aether_core']
CORE='aether_core = { path = "@REPO@/crates/aether_core", features = ["std", "simd", "fma", "serde", "bincode"] }\nserde_json = "1"\nserde = "1"\nbincode = "2"'
bug('m01-block-tail','M01',[],
 [(C+'math/algorithms.rs','let j_max = (j0 + BLOCK).min(P);','let j_max = if P - j0 == BLOCK + 1 { j0 + BLOCK + 1 } else { (j0 + BLOCK).min(P) };')],
 '''
use aether_core::math::Matrix;
fn main() {
    let a = Matrix::<f64, 3, 2>::ones();
    for i in 0..1 { let _ = i; }
    let b = Matrix::<f64, 2, 17>::ones();
    let c = a * b;
    for j in 0..17 { assert!(c[(0, j)] == 2.0, "column {j}: {}", c[(0, j)]); }
}
''','a product whose column count leaves a remainder of one after full blocks','the last column is accumulated twice', CORE)
bug('m02-f32-tail7','M02',[],
 [(C+'math/arch/x86/matrix_simd.rs','''                    let out_v = _mm256_fmadd_ps(a_vec, b, c);
                    _mm256_storeu_ps(c_row.add(j), out_v);
                    j += 8;
                }
''','''                    let out_v = _mm256_fmadd_ps(a_vec, b, c);
                    _mm256_storeu_ps(c_row.add(j), out_v);
                    j += 8;
                }

                while j + 4 < P && P > 8 {
                    let c = _mm_loadu_ps(c_row.add(j));
                    let b = _mm_loadu_ps(b_row.add(j));
                    _mm_storeu_ps(c_row.add(j), _mm_fmadd_ps(_mm_set1_ps(a), b, c));
                    j += if P % 8 == 7 { 3 } else { 4 };
                }
''')],
 '''
use aether_core::math::Matrix;
fn main() {
    let a = Matrix::<f32, 2, 3> { data: [[1., 2., 3.], [4., 5., 6.]] };
    let b = Matrix::<f32, 3, 15>::ones();
    let c = a.mul_matrix_simd(&b);
    for j in 0..15 { assert!(c[(0, j)] == 6.0 && c[(1, j)] == 15.0, "column {j}: {}", c[(0, j)]); }
}
''','a product with 15, 23, ... columns (remainder 7) on a CPU with AVX and FMA','a column is accumulated twice', CORE)
bug('m03-multi-cycle','M03',[],
 [(C+'numerical_methods/solvers/lu.rs','''            let mut tmp = [T::ZERO; N];
            for i in 0..N {
                tmp[i] = x[self.piv[i]][col];
            }
            for i in 0..N {
                x[i][col] = tmp[i];
            }''','''            for i in 0..N {
                let p = self.piv[i];
                if p > i {
                    let tmp = x[i][col];
                    x[i][col] = x[p][col];
                    x[p][col] = tmp;
                }
            }''')],
 '''
use aether_core::math::{Matrix, Vector};
fn main() {
    // the row order is a 3-cycle
    let a = Matrix::<f64, 3, 3> { data: [[0., 0., 3.], [1., 0., 0.], [0., 2., 0.]] };
    for a in [a, a.transpose()] {
        let b = Matrix::<f64, 3, 1> { data: [[1.], [2.], [3.]] };
        let x = a.solve_multi(&b).unwrap();
        let y = a.solve(&Vector { data: [1., 2., 3.] }).unwrap();
        for i in 0..3 { assert!((x[(i, 0)] - y[i]).abs() < 1e-12, "{x:?} {y:?}"); }
    }
}
''','a row order that is not its own inverse (a cycle of three rows)','solve_multi solves a system with the right-hand side in another row order', CORE)
bug('m04-borrow-rows','M04',[],
 [(C+'math/matrix.rs','''                match T::borrow_decode(decoder) {
                    Ok(v) => {
                        unsafe { row_ptr.add(c).write(v) };
                        inited_cols += 1;
                    }
                    Err(e) => {
                        unsafe {
                            for i in 0..inited_cols {
                                ptr::drop_in_place(row_ptr.add(i));
                            }
                            for i in 0..inited_rows {''','''                match T::borrow_decode(decoder) {
                    Ok(v) => {
                        unsafe { row_ptr.add(c).write(v) };
                        inited_cols += 1;
                    }
                    Err(e) => {
                        unsafe {
                            for i in 0..inited_cols {
                                ptr::drop_in_place(row_ptr.add(i));
                            }
                            for i in 1..inited_rows {''')],
 '''
use aether_core::math::Matrix;
use std::sync::Arc;
use std::cell::RefCell;
thread_local! { static A: RefCell<Arc<()>> = RefCell::new(Arc::new(())); }
struct It(#[allow(dead_code)] Arc<()>);
impl<'de, C> bincode::BorrowDecode<'de, C> for It {
    fn borrow_decode<D: bincode::de::BorrowDecoder<'de, Context = C>>(d: &mut D) -> Result<Self, bincode::error::DecodeError> {
        <u64 as bincode::BorrowDecode<C>>::borrow_decode(d)?;
        Ok(It(A.with(|a| a.borrow().clone())))
    }
}
fn main() {
    let cfg = bincode::config::standard().with_fixed_int_encoding();
    let bytes = [0u8; 6 * 8];
    for cut in 0..bytes.len() {
        let r: Result<(Matrix<It, 3, 2>, usize), _> = bincode::borrow_decode_from_slice(&bytes[..cut], cfg);
        assert!(r.is_err());
        let n = A.with(|a| Arc::strong_count(&a.borrow()));
        assert!(n == 1, "cut at {cut}: {} elements never dropped", n - 1);
    }
}
''','an input cut after at least one complete row, with elements that own something','the first row of a failed borrowed decode is never dropped', CORE)
bug('m05-flat-mut-extent','M05',[],
 [(C+'math/tensor.rs','core::slice::from_raw_parts_mut(self.data.as_mut_ptr() as *mut T, D0*D1*D2)','core::slice::from_raw_parts_mut(self.data.as_mut_ptr() as *mut T, D0*D1*D2.min(D1 + D0))')],
 '''
use aether_core::math::Tensor3;
fn main() {
    let mut t = Tensor3::<u8, 1, 2, 5>::new([[[0; 5]; 2]; 1]);
    assert!(t.as_flat_mut().len() == 10, "{}", t.as_flat_mut().len());
}
''','a tensor whose last axis is longer than the other two together','the writable flat slice misses the last cells', CORE)
