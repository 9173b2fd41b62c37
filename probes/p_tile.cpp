// flags: -fno-access-control -fno-exceptions
// rearranging tiles that lie side by side into extra samples and back: K tiles of N columns, r samples, with and without bias columns (which stay as they are)
#define VP_WHOLE
#define VP_SPLIT
#include "kern.h"
extern "C" {
#define M_(X, p, r, c, b) MX X(const_cast<D*>(p), r, (c) + b, b, false)
#define R1(nm, fn, K, N, b, ...) \
void vp_ro##fn##nm##_i(MN* M, const D* p, D* q, int r) { M_(s, p, r, K*N, b); M_(d, q, K*r, N, b); M->mTilingRoll##fn(s, d __VA_ARGS__); } \
void vp_un##fn##nm##_i(MN* M, const D* p, D* q, int r) { M_(d, q, r, K*N, b); M_(s, p, K*r, N, b); M->mTilingUnroll##fn(s, d __VA_ARGS__); } \
void vp_ro##fn##nm##_s(MN* M, const D* p, D* q, int r) { for (int j = 0; j < N; ++j) for (int t = 0; t < K; ++t) for (int i = 0; i < r; ++i) q[L(r)*(K*j + t) + i] = p[L(r)*(N*t + j) + i]; } \
void vp_un##fn##nm##_s(MN* M, const D* p, D* q, int r) { for (int j = 0; j < N; ++j) for (int t = 0; t < K; ++t) for (int i = 0; i < r; ++i) q[L(r)*(N*t + j) + i] = p[L(r)*(K*j + t) + i]; }
#define R2(nm, K, N, b) R1(nm, , K, N, b) R1(nm, _st, K, N, b) R1(nm, _mt, K, N, b) R1(nm, _seqread_st, K, N, b) R1(nm, _seqwrite_st, K, N, b) R1(nm, _seqread_mt, K, N, b) R1(nm, _seqwrite_mt, K, N, b)
#define R3(nm, K, N) R2(nm##p, K, N, 0) R2(nm##b, K, N, 1)
R3(21, 2, 1) R3(23, 2, 3) R3(32, 3, 2) R3(24, 2, 4)
// a part [f, l) of the columns of the matrix that is walked in order
#define Q1(nm, K, N, f, l) \
void vp_qroR##nm##_i(MN* M, const D* p, D* q, int r) { M_(s, p, r, K*N, 0); M_(d, q, K*r, N, 0); M->mTilingRoll_seqread_st(s, d, f, l); } \
void vp_qroR##nm##_s(MN* M, const D* p, D* q, int r) { for (int c = f; c < l; ++c) for (int i = 0; i < r; ++i) q[L(r)*(K*(c%N) + c/N) + i] = p[L(r)*c + i]; } \
void vp_qunW##nm##_i(MN* M, const D* p, D* q, int r) { M_(d, q, r, K*N, 0); M_(s, p, K*r, N, 0); M->mTilingUnroll_seqwrite_st(s, d, f, l); } \
void vp_qunW##nm##_s(MN* M, const D* p, D* q, int r) { for (int c = f; c < l; ++c) for (int i = 0; i < r; ++i) q[L(r)*c + i] = p[L(r)*(K*(c%N) + c/N) + i]; }
#define Q2(nm, K, N, f, l) \
void vp_qroW##nm##_i(MN* M, const D* p, D* q, int r) { M_(s, p, r, K*N, 0); M_(d, q, K*r, N, 0); M->mTilingRoll_seqwrite_st(s, d, f, l); } \
void vp_qroW##nm##_s(MN* M, const D* p, D* q, int r) { for (int j = f; j < l; ++j) for (int t = 0; t < K; ++t) for (int i = 0; i < r; ++i) q[L(r)*(K*j + t) + i] = p[L(r)*(N*t + j) + i]; } \
void vp_qunR##nm##_i(MN* M, const D* p, D* q, int r) { M_(d, q, r, K*N, 0); M_(s, p, K*r, N, 0); M->mTilingUnroll_seqread_st(s, d, f, l); } \
void vp_qunR##nm##_s(MN* M, const D* p, D* q, int r) { for (int j = f; j < l; ++j) for (int t = 0; t < K; ++t) for (int i = 0; i < r; ++i) q[L(r)*(N*t + j) + i] = p[L(r)*(K*j + t) + i]; }
Q1(23a, 2, 3, 0, 2) Q1(23b, 2, 3, 2, 4) Q1(23c, 2, 3, 3, 6) Q1(23d, 2, 3, 4, 5) Q1(32a, 3, 2, 1, 6) Q1(32b, 3, 2, 3, 5) Q1(32c, 3, 2, 0, 3) Q1(32d, 3, 2, 4, 6)
Q2(23a, 2, 3, 0, 1) Q2(23b, 2, 3, 1, 2) Q2(23c, 2, 3, 1, 3) Q2(32a, 3, 2, 1, 2) Q2(32b, 3, 2, 0, 1) Q2(24a, 2, 4, 1, 3)
}
