#include "vec.h"
#undef vector
#include "blas.h"
#define VP_BLAS NaiveBLAS
#include "kern.h"
#define FIJ(R, C) for (L j = 0; j < (C); ++j) for (L i = 0; i < (R); ++i)
#define SUM(K, e) D s = 0; for (L k = 0; k < (K); ++k) s += e
extern "C" {
// C = A*B, C = A*B' (bias column of C untouched), C = alpha*A'*B
void vp_mulab_i(MN& m, const D* a, const D* b, D* q, int r, int c, int n) { MTX(A,a,r,n); MTX(B,b,n,c); MTX(C,q,r,c); m.mMulAB_C(A, B, C); }
void vp_mulab_s(MN& m, const D* a, const D* b, D* q, int r, int c, int n) { FIJ(r, c) { SUM(n, a[i + k*r]*b[k + j*n]); q[i + j*r] = s; } }
void vp_mulabt_i(MN& m, const D* a, const D* b, D* q, int r, int c, int n) { MTX(A,a,r,n); MTX(B,b,c,n); MTX(C,q,r,c); m.mMulABt_Cnb(A, B, C); } void vp_mulabt_i_b(MN& m, const D* a, const D* b, D* q, int r, int c, int n) { MTX(A,a,r,n); MTX(B,b,c,n); MTXB(C,q,r,c); m.mMulABt_Cnb(A, B, C); }
void vp_mulabt_s(MN& m, const D* a, const D* b, D* q, int r, int c, int n) { FIJ(r, c) { SUM(n, a[i + k*r]*b[j + k*c]); q[i + j*r] = s; } }
void vp_mulatb_i(MN& m, D x, const D* a, const D* b, D* q, int r, int c, int n) { MTX(A,a,n,r); MTX(B,b,n,c); MTX(C,q,r,c); m.mScaledMulAtB_C(x, A, B, C); }
void vp_mulatb_s(MN& m, D x, const D* a, const D* b, D* q, int r, int c, int n) { FIJ(r, c) { SUM(n, a[k + i*n]*b[k + j*n]); q[i + j*r] = x*s; } }
// pre-activations of a fully connected layer: batch r, previous width n, width c; either side may keep samples in columns; act may carry biases
void vp_fc_i(MN& m, const D* a, const D* w, D* q, int r, int c, int n, bool f, bool g, bool h) { MX A(const_cast<D*>(a), f ? n+1 : r, f ? r : n+1, true, false, f), W(const_cast<D*>(w), c, n+1, false, false); MX C(q, g ? c + h : r, g ? r : c + h, h, true, g); m.mMul_prevAct_weights_2_act(A, W, C); }
void vp_fc_s(MN& m, const D* a, const D* w, D* q, int r, int c, int n, bool f, bool g, bool h) { FIJ(g ? c : r, g ? r : c) { SUM(n+1, (f ? a[k + (g ? j : i)*(n+1)] : a[(g ? j : i) + k*r]) * w[(g ? i : j) + k*c]); q[i + j*(g ? c + h : r)] = s; } }
// gradient with respect to the previous activations (bias weights do not take part, the weight matrix gets its last column back)
void vp_fcb_i(MN& m, const D* dz, D* w, D* q, int* o, int r, int c, int n, bool g) { MX Z(const_cast<D*>(dz), r, c, false, false); MD W(w, c, n+1, false, false); MX P(q, g ? n : r, g ? r : n, false, false, g); m.mMul_dLdZ_weights_2_dLdAPrev(Z, W, P); o[0] = W.rows(); o[1] = W.cols(); }
void vp_fcb_s(MN& m, const D* dz, D* w, D* q, int* o, int r, int c, int n, bool g) { FIJ(g ? n : r, g ? r : n) { SUM(c, dz[(g ? j : i) + k*r] * w[k + (g ? i : j)*c]); q[i + j*(g ? n : r)] = s; } o[0] = c; o[1] = n+1; }
// gradient with respect to the weights, including the bias weights
void vp_fcw_i(MN& m, D x, const D* dz, const D* a, D* q, int r, int c, int n, bool f) { MX Z(const_cast<D*>(dz), r, c, false, false), A(const_cast<D*>(a), f ? n+1 : r, f ? r : n+1, true, false, f), W(q, c, n+1, false, false); m.mMulScaled_dLdZ_prevAct_2_dLdW(x, Z, A, W); }
void vp_fcw_s(MN& m, D x, const D* dz, const D* a, D* q, int r, int c, int n, bool f) { FIJ(c, n+1) { SUM(r, dz[k + i*r] * (f ? a[j + k*(n+1)] : a[k + j*r])); q[i + j*c] = x*s; } }
// covariance of columns, one triangle
void vp_cov_i(MN& m, const D* a, D* q, int r, int c, bool f) { MTX(A,a,r,c); MTX(C,q,c,c); m.mColumnsCov(A, C, f); } void vp_cov_s(MN& m, const D* a, D* q, int r, int c, bool f) { NaiveBLAS::syrk(f, true, c, r, D(1)/D(r), a, r, D(0), q, c); }
void vp_covl_i(MN& m, const D* a, D* q, int r, int c) { MTX(A,a,r,c); MTX(C,q,c,c); m.mColumnsCov<true>(A, C); } void vp_covl_s(MN& m, const D* a, D* q, int r, int c) { NaiveBLAS::syrk(true, true, c, r, D(1)/D(r), a, r, D(0), q, c); }
void vp_covu_i(MN& m, const D* a, D* q, int r, int c) { MTX(A,a,r,c); MTX(C,q,c,c); m.mColumnsCov<false>(A, C); } void vp_covu_s(MN& m, const D* a, D* q, int r, int c) { NaiveBLAS::syrk(false, true, c, r, D(1)/D(r), a, r, D(0), q, c); }
// transposition: with and without the bias row/column
#define TR(nm, call) void vp_##nm##_i(MN& m, const D* a, D* q, int r, int c, bool e, bool f, bool ib) { MX A(const_cast<D*>(a), r + (e && f), c + (e && !f), e, true, f), C(q, c + (e && !f), r + (e && f), e, true, !f); m.call(A, C, ib); } \
 void vp_##nm##_s(MN& m, const D* a, D* q, int r, int c, bool e, bool f, bool ib) { const L R = r + (e && f), C = c + (e && !f), RR = ib ? r : R, CC = ib ? c : C; for (L j = 0; j < CC; ++j) for (L i = 0; i < RR; ++i) q[j + i*C] = a[i + j*R]; }
TR(tr, mTranspose) TR(trr, mTranspose_seq_read) TR(trw, mTranspose_seq_write)
void vp_tri_i(MN& m, const D* a, D* q, int r, int c, bool e, bool f) { MX A(const_cast<D*>(a), r + (e && f), c + (e && !f), e, true, f), C(q, c + (e && !f), r + (e && f), e, true, !f); m.mTranspose_ignore_bias(A, C); } void vp_tri_s(MN& m, const D* a, D* q, int r, int c, bool e, bool f) { const L R = r + (e && f), C = c + (e && !f); for (L j = 0; j < c; ++j) for (L i = 0; i < r; ++i) q[j + i*C] = a[i + j*R]; }
}
