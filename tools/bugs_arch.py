from bugkit import bug
A='crates/aether_core/src/math/arch/arm/'
NEON=open('/verif/m_arch/neon.rs').read()
PRE='''sed -e 's/core::arch::aarch64/crate::standin/' -e '/target_feature(enable/d' "$repo/crates/aether_core/src/math/arch/arm/neon.rs" > "$tmp/src/neon.rs"
cp "$here/standin.rs" "$tmp/src/standin.rs"
'''
bug('m08-neon-overlap','M08',['aether_core'],
 [(A+'neon.rs','''                let out_v = vfmaq_n_f32(c, b, a);
                unsafe { vst1q_f32(c_row.add(j), out_v) };
                j += NEON_LANES_F32;
            }

            while j < P {
                out.data[i][j] += a * rhs.data[k][j];
                j += 1;
            }
''','''                let out_v = vfmaq_n_f32(c, b, a);
                unsafe { vst1q_f32(c_row.add(j), out_v) };
                j += NEON_LANES_F32;
            }

            if P >= NEON_LANES_F32 && P - j == NEON_LANES_F32 - 1 {
                // three columns left: one more vector ending at the last column
                let c = unsafe { vld1q_f32(c_row.add(P - NEON_LANES_F32)) };
                let b = unsafe { vld1q_f32(b_row.add(P - NEON_LANES_F32)) };
                unsafe { vst1q_f32(c_row.add(P - NEON_LANES_F32), vfmaq_n_f32(c, b, a)) };
                j = P;
            }

            while j < P {
                out.data[i][j] += a * rhs.data[k][j];
                j += 1;
            }
''')],'''
#[allow(unused)] mod standin;
mod math { pub use aether_core::math::{Matrix, Vector}; }
#[allow(unused)] mod neon;
use math::Matrix;
fn main() {
    let a: Matrix<f32, 2, 2> = Matrix::new([[1.0, 2.0], [3.0, 4.0]]);
    let b: Matrix<f32, 2, 7> = Matrix::new([[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0], [7.0, 6.0, 5.0, 4.0, 3.0, 2.0, 1.0]]);
    let c = unsafe { neon::mul_matrix_neon_f32(&a, &b) };
    for i in 0..2 { for j in 0..7 {
        let want = a[(i, 0)] * b[(0, j)] + a[(i, 1)] * b[(1, j)];
        assert_eq!(c[(i, j)], want, "{i},{j}");
    } }
}
''','AArch64, f32, and a product with 7, 11, 15.. columns','the column shared by the last two vectors is added twice', pre=PRE, files={'standin.rs': NEON})
bug('m08-m33-odd-rows','M08',['aether_core'],
 [(A+'m33_dsp.rs','''pub fn mul_vec4_m33_f32<const M: usize>(
    matrix: &Matrix<f32, M, 4>,
    rhs: &Vector<f32, 4>,
) -> Vector<f32, M> {
    let mut out = Vector { data: [0.0; M] };
    for i in 0..M {
        let row = &matrix.data[i];
        out.data[i] = row[0] * rhs.data[0]
            + row[1] * rhs.data[1]
            + row[2] * rhs.data[2]
            + row[3] * rhs.data[3];
    }
    out
}
''','''pub fn mul_vec4_m33_f32<const M: usize>(
    matrix: &Matrix<f32, M, 4>,
    rhs: &Vector<f32, 4>,
) -> Vector<f32, M> {
    let mut out = Vector { data: [0.0; M] };
    let v = &rhs.data;
    let mut i = 0;
    // two rows at a time, so that the loads of one overlap the products of the other
    while i + 1 < M {
        let (r, s) = (&matrix.data[i], &matrix.data[i + 1]);
        out.data[i] = r[0] * v[0] + r[1] * v[1] + r[2] * v[2] + r[3] * v[3];
        out.data[i + 1] = s[0] * v[0] + s[1] * v[1] + s[2] * v[2] + s[3] * v[3];
        i += 2;
    }
    out
}
''')],'''
mod math { pub use aether_core::math::{Matrix, Vector}; }
#[allow(unused)] mod m33_dsp;
use math::{Matrix, Vector};
fn main() {
    let m: Matrix<f32, 3, 4> = Matrix::new([[1.0; 4], [2.0; 4], [3.0; 4]]);
    let v: Vector<f32, 4> = Vector::new([1.0, 2.0, 3.0, 4.0]);
    assert_eq!(m33_dsp::mul_vec4_m33_f32(&m, &v).data, [10.0, 20.0, 30.0]);
}
''','ARM with DSP, f32, a matrix of an odd number of rows','the last row of the result stays zero',
 pre='cp "$repo/crates/aether_core/src/math/arch/arm/m33_dsp.rs" "$tmp/src/"\n')
X='crates/aether_core/src/math/arch/x86/matrix_simd.rs'
M='crates/aether_core/src/math/matrix.rs'
bug('m08-scalar-row-pairs','M08',['aether_core'],
 [(M,'''    fn mul_vec6_scalar(&self, rhs: &Vector<f32, 6>) -> Vector<f32, M> {
        let mut result = Vector { data: [0.0; M] };
        for i in 0..M {
            let row = &self.data[i];
            result.data[i] = row[0] * rhs.data[0]
                + row[1] * rhs.data[1]
                + row[2] * rhs.data[2]
                + row[3] * rhs.data[3]
                + row[4] * rhs.data[4]
                + row[5] * rhs.data[5];
        }
        result
''','''    fn mul_vec6_scalar(&self, rhs: &Vector<f32, 6>) -> Vector<f32, M> {
        let mut result = Vector { data: [0.0; M] };
        let v = &rhs.data;
        // six rows at a time is what almost every caller has
        let block = if M >= 6 { M - M % 6 } else { M };
        for i in 0..block {
            let row = &self.data[i];
            result.data[i] = row[0] * v[0] + row[1] * v[1] + row[2] * v[2] + row[3] * v[3] + row[4] * v[4] + row[5] * v[5];
        }
        for i in block..M {
            let row = &self.data[i];
            result.data[i] = row[..3].iter().zip(&v[..3]).fold(0.0, |s, (a, b)| s + a * b)
                + row[3..].iter().zip(&v[..3]).fold(0.0, |s, (a, b)| s + a * b);
        }
        result
''')],'''
use aether_core::math::{Matrix, Vector};
fn main() {
    let mut m: Matrix<f32, 7, 6> = Matrix::new([[0.0; 6]; 7]);
    m[(6, 4)] = 1.0;
    let v: Vector<f32, 6> = Vector::new([1.0, 2.0, 3.0, 4.0, 5.0, 6.0]);
    assert_eq!(m.mul_vec6_simd(&v).data[6], 5.0);
}
''','a build or processor without SIMD, f32, and a number of rows above six that six does not divide','rows past the last block use the first three elements of the vector twice')
