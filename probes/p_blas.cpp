#include "kern.h"
typedef math::b_OpenBLAS BL;
#define CM 102
#define TR(f) (f ? 112 : 111)
// the binding saves the floating-point environment, calls exactly one routine with the caller's arguments, and restores the environment
extern "C" {
#define SAVE utils::_scoped_restore_FPU r_
#define BIND(T, c, n) \
 void vp_axpy##n##_i(int k, T x, const T* A, int i, T* B, int j) { BL::axpy(k, x, A, i, B, j); } void vp_axpy##n##_s(int k, T x, const T* A, int i, T* B, int j) { SAVE; cblas_##c##axpy(k, x, A, i, B, j); } \
 T vp_dot##n##_i(int k, const T* A, int i, const T* B, int j) { return BL::dot(k, A, i, B, j); } T vp_dot##n##_s(int k, const T* A, int i, const T* B, int j) { SAVE; return cblas_##c##dot(k, A, i, B, j); } \
 void vp_gemm##n##_i(bool f, bool g, int M, int N, int K, T x, const T* A, int i, const T* B, int j, T y, T* C, int k) { BL::gemm(f, g, M, N, K, x, A, i, B, j, y, C, k); } void vp_gemm##n##_s(bool f, bool g, int M, int N, int K, T x, const T* A, int i, const T* B, int j, T y, T* C, int k) { SAVE; cblas_##c##gemm(CblasColMajor, f ? CblasTrans : CblasNoTrans, g ? CblasTrans : CblasNoTrans, M, N, K, x, A, i, B, j, y, C, k); } \
 void vp_syrk##n##_i(bool f, bool g, int N, int K, T x, const T* A, int i, T y, T* C, int k) { BL::syrk(f, g, N, K, x, A, i, y, C, k); } void vp_syrk##n##_s(bool f, bool g, int N, int K, T x, const T* A, int i, T y, T* C, int k) { SAVE; cblas_##c##syrk(CblasColMajor, f ? CblasLower : CblasUpper, g ? CblasTrans : CblasNoTrans, N, K, x, A, i, y, C, k); } \
 void vp_symm##n##_i(bool f, bool g, int M, int N, T x, const T* A, int i, const T* B, int j, T y, T* C, int k) { BL::symm(f, g, M, N, x, A, i, B, j, y, C, k); } void vp_symm##n##_s(bool f, bool g, int M, int N, T x, const T* A, int i, const T* B, int j, T y, T* C, int k) { SAVE; cblas_##c##symm(CblasColMajor, f ? CblasLeft : CblasRight, g ? CblasLower : CblasUpper, M, N, x, A, i, B, j, y, C, k); } \
 int vp_gesvd##n##_i(char u, char v, int M, int N, T* A, int i, T* S, T* U, int j, T* V, int k, T* W) { return BL::gesvd(u, v, M, N, A, i, S, U, j, V, k, W); } int vp_gesvd##n##_s(char u, char v, int M, int N, T* A, int i, T* S, T* U, int j, T* V, int k, T* W) { SAVE; return LAPACKE_##c##gesvd(LAPACK_COL_MAJOR, u, v, M, N, A, i, S, U, j, V, k, W); } \
 void vp_omat##n##_i(bool f, int M, int N, T x, const T* A, int i, T* B, int j) { BL::omatcopy(f, M, N, x, A, i, B, j); } void vp_omat##n##_s(bool f, int M, int N, T x, const T* A, int i, T* B, int j) { SAVE; cblas_##c##omatcopy(CblasColMajor, f ? CblasTrans : CblasNoTrans, M, N, x, A, i, B, j); } \
 void vp_imat##n##_i(bool f, int M, int N, T x, T* A, int i, int j) { BL::imatcopy(f, M, N, x, A, i, j); } void vp_imat##n##_s(bool f, int M, int N, T x, T* A, int i, int j) { SAVE; cblas_##c##imatcopy(CblasColMajor, f ? CblasTrans : CblasNoTrans, M, N, x, A, i, j); }
BIND(double, d, d)
BIND(float, s, f)
// the environment itself: on entry the current control word is read, on exit its denormal bits are put back
void vp_other(void);
void vp_fpu_i(void) { utils::_scoped_restore_FPU r; vp_other(); } void vp_fpu_s(void) { unsigned w = 0; _controlfp_s(&w, _CW_DEFAULT, _MCW_RC); vp_other(); unsigned v = 0; _controlfp_s(&v, _RC_CHOP, _MCW_RC); }
}
