//! NEON intrinsics by their definitions (see make.py). Lane 0 is the first element.
#![allow(non_camel_case_types, unused, clippy::all)]
macro_rules! vec_types { ($($t:ident $e:ty, $n:literal;)*) => { $(
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct $t(pub [$e; $n]);
)* } }
vec_types! { float32x4_t f32, 4; float32x2_t f32, 2; float64x2_t f64, 2; float64x1_t f64, 1; }
#[derive(Clone, Copy)]
pub struct float32x4x2_t(pub float32x4_t, pub float32x4_t);
#[derive(Clone, Copy)]
pub struct float32x4x4_t(pub float32x4_t, pub float32x4_t, pub float32x4_t, pub float32x4_t);
#[derive(Clone, Copy)]
pub struct float64x2x2_t(pub float64x2_t, pub float64x2_t);

macro_rules! ops { ($t:ident, $e:ty, $n:literal:
    $ld:ident $st:ident $dup:ident $mov:ident $ldup:ident $add:ident $sub:ident $mul:ident $div:ident $neg:ident $min:ident $max:ident $abs:ident
    $muln:ident $fma:ident $fms:ident $fman:ident $mla:ident $mls:ident $mlan:ident $addv:ident) => {
    pub unsafe fn $ld(p: *const $e) -> $t { unsafe { $t(core::ptr::read_unaligned(p as *const [$e; $n])) } }
    pub unsafe fn $st(p: *mut $e, v: $t) { unsafe { core::ptr::write_unaligned(p as *mut [$e; $n], v.0) } }
    pub unsafe fn $ldup(p: *const $e) -> $t { unsafe { $t([*p; $n]) } }
    pub fn $dup(x: $e) -> $t { $t([x; $n]) }
    pub fn $mov(x: $e) -> $t { $t([x; $n]) }
    pub fn $add(a: $t, b: $t) -> $t { $t(core::array::from_fn(|i| a.0[i] + b.0[i])) }
    pub fn $sub(a: $t, b: $t) -> $t { $t(core::array::from_fn(|i| a.0[i] - b.0[i])) }
    pub fn $mul(a: $t, b: $t) -> $t { $t(core::array::from_fn(|i| a.0[i] * b.0[i])) }
    pub fn $div(a: $t, b: $t) -> $t { $t(core::array::from_fn(|i| a.0[i] / b.0[i])) }
    pub fn $neg(a: $t) -> $t { $t(a.0.map(|x| -x)) }
    pub fn $abs(a: $t) -> $t { $t(a.0.map(|x| if x < 0.0 { -x } else { x })) }
    pub fn $min(a: $t, b: $t) -> $t { $t(core::array::from_fn(|i| if a.0[i] < b.0[i] { a.0[i] } else { b.0[i] })) }
    pub fn $max(a: $t, b: $t) -> $t { $t(core::array::from_fn(|i| if a.0[i] > b.0[i] { a.0[i] } else { b.0[i] })) }
    pub fn $muln(a: $t, b: $e) -> $t { $t(a.0.map(|x| x * b)) }
    pub fn $fma(a: $t, b: $t, c: $t) -> $t { $t(core::array::from_fn(|i| a.0[i] + b.0[i] * c.0[i])) }
    pub fn $fms(a: $t, b: $t, c: $t) -> $t { $t(core::array::from_fn(|i| a.0[i] - b.0[i] * c.0[i])) }
    pub fn $fman(a: $t, b: $t, c: $e) -> $t { $t(core::array::from_fn(|i| a.0[i] + b.0[i] * c)) }
    pub fn $mla(a: $t, b: $t, c: $t) -> $t { $fma(a, b, c) }
    pub fn $mls(a: $t, b: $t, c: $t) -> $t { $fms(a, b, c) }
    pub fn $mlan(a: $t, b: $t, c: $e) -> $t { $fman(a, b, c) }
    pub fn $addv(a: $t) -> $e { let mut s = a.0[0]; let mut i = 1; while i < $n { s += a.0[i]; i += 1; } s }
} }
ops!(float32x4_t, f32, 4: vld1q_f32 vst1q_f32 vdupq_n_f32 vmovq_n_f32 vld1q_dup_f32 vaddq_f32 vsubq_f32 vmulq_f32 vdivq_f32 vnegq_f32 vminq_f32 vmaxq_f32 vabsq_f32
    vmulq_n_f32 vfmaq_f32 vfmsq_f32 vfmaq_n_f32 vmlaq_f32 vmlsq_f32 vmlaq_n_f32 vaddvq_f32);
ops!(float32x2_t, f32, 2: vld1_f32 vst1_f32 vdup_n_f32 vmov_n_f32 vld1_dup_f32 vadd_f32 vsub_f32 vmul_f32 vdiv_f32 vneg_f32 vmin_f32 vmax_f32 vabs_f32
    vmul_n_f32 vfma_f32 vfms_f32 vfma_n_f32 vmla_f32 vmls_f32 vmla_n_f32 vaddv_f32);
ops!(float64x2_t, f64, 2: vld1q_f64 vst1q_f64 vdupq_n_f64 vmovq_n_f64 vld1q_dup_f64 vaddq_f64 vsubq_f64 vmulq_f64 vdivq_f64 vnegq_f64 vminq_f64 vmaxq_f64 vabsq_f64
    vmulq_n_f64 vfmaq_f64 vfmsq_f64 vfmaq_n_f64 vmlaq_f64 vmlsq_f64 _mlaq_n_f64 vaddvq_f64);
ops!(float64x1_t, f64, 1: vld1_f64 vst1_f64 vdup_n_f64 vmov_n_f64 vld1_dup_f64 vadd_f64 vsub_f64 vmul_f64 vdiv_f64 vneg_f64 vmin_f64 vmax_f64 vabs_f64
    vmul_n_f64 vfma_f64 vfms_f64 vfma_n_f64 vmla_f64 vmls_f64 _mla_n_f64 _addv_f64);

// the lane is given as an ordinary last argument, as in C
macro_rules! lanes { ($t:ident, $e:ty, $n:literal, $lt:ident, $qt:ident: $get:ident $set:ident $dupl:ident $dupq:ident $mull:ident $mulq:ident $fmal:ident $fmaq:ident $ext:ident) => {
    pub fn $get(v: $t, lane: usize) -> $e { v.0[lane] }
    pub fn $set(x: $e, mut v: $t, lane: usize) -> $t { v.0[lane] = x; v }
    pub fn $dupl(v: $lt, lane: usize) -> $t { $t([v.0[lane]; $n]) }
    pub fn $dupq(v: $qt, lane: usize) -> $t { $t([v.0[lane]; $n]) }
    pub fn $mull(a: $t, v: $lt, lane: usize) -> $t { $t(a.0.map(|x| x * v.0[lane])) }
    pub fn $mulq(a: $t, v: $qt, lane: usize) -> $t { $t(a.0.map(|x| x * v.0[lane])) }
    pub fn $fmal(a: $t, b: $t, v: $lt, lane: usize) -> $t { $t(core::array::from_fn(|i| a.0[i] + b.0[i] * v.0[lane])) }
    pub fn $fmaq(a: $t, b: $t, v: $qt, lane: usize) -> $t { $t(core::array::from_fn(|i| a.0[i] + b.0[i] * v.0[lane])) }
    pub fn $ext(a: $t, b: $t, lane: usize) -> $t { $t(core::array::from_fn(|i| if i + lane < $n { a.0[i + lane] } else { b.0[i + lane - $n] })) }
} }
lanes!(float32x4_t, f32, 4, float32x2_t, float32x4_t: vgetq_lane_f32 vsetq_lane_f32 vdupq_lane_f32 vdupq_laneq_f32 vmulq_lane_f32 vmulq_laneq_f32 vfmaq_lane_f32 vfmaq_laneq_f32 vextq_f32);
lanes!(float32x2_t, f32, 2, float32x2_t, float32x4_t: vget_lane_f32 vset_lane_f32 vdup_lane_f32 vdup_laneq_f32 vmul_lane_f32 vmul_laneq_f32 vfma_lane_f32 vfma_laneq_f32 vext_f32);
lanes!(float64x2_t, f64, 2, float64x1_t, float64x2_t: vgetq_lane_f64 vsetq_lane_f64 vdupq_lane_f64 vdupq_laneq_f64 vmulq_lane_f64 vmulq_laneq_f64 vfmaq_lane_f64 vfmaq_laneq_f64 vextq_f64);
pub fn vpaddq_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t([a.0[0] + a.0[1], a.0[2] + a.0[3], b.0[0] + b.0[1], b.0[2] + b.0[3]]) }
pub fn vpaddq_f64(a: float64x2_t, b: float64x2_t) -> float64x2_t { float64x2_t([a.0[0] + a.0[1], b.0[0] + b.0[1]]) }
pub fn vpadd_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t([a.0[0] + a.0[1], b.0[0] + b.0[1]]) }
pub fn vpaddd_f64(a: float64x2_t) -> f64 { a.0[0] + a.0[1] }
pub fn vget_low_f32(a: float32x4_t) -> float32x2_t { float32x2_t([a.0[0], a.0[1]]) }
pub fn vget_high_f32(a: float32x4_t) -> float32x2_t { float32x2_t([a.0[2], a.0[3]]) }
pub fn vcombine_f32(a: float32x2_t, b: float32x2_t) -> float32x4_t { float32x4_t([a.0[0], a.0[1], b.0[0], b.0[1]]) }
pub fn vget_low_f64(a: float64x2_t) -> float64x1_t { float64x1_t([a.0[0]]) }
pub fn vget_high_f64(a: float64x2_t) -> float64x1_t { float64x1_t([a.0[1]]) }
pub fn vcombine_f64(a: float64x1_t, b: float64x1_t) -> float64x2_t { float64x2_t([a.0[0], b.0[0]]) }
pub unsafe fn vld1q_f32_x2(p: *const f32) -> float32x4x2_t { unsafe { float32x4x2_t(vld1q_f32(p), vld1q_f32(p.add(4))) } }
pub unsafe fn vld1q_f64_x2(p: *const f64) -> float64x2x2_t { unsafe { float64x2x2_t(vld1q_f64(p), vld1q_f64(p.add(2))) } }
