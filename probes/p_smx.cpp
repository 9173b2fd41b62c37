#include "smx.h"
// ---------------------------------------------------------------- accessors
#define ACC(n, T, ex_, sp_) T vp_acc_##n##_i(X6, int z, int z2, bool f) { A6; return ex_; } T vp_acc_##n##_i_d(X6, int z, int z2, bool f) { B6; return ex_; } T vp_acc_##n##_s(X6, int z, int z2, bool f) { return sp_; }
ACC(rows, L, A.rows(), r) ACC(cols, L, A.cols(), c)
ACC(ldim, L, A.ldim(), r) ACC(ldimAsVecLen, L, A.ldimAsVecLen(), r)
ACC(bBatchInRow, bool, A.bBatchInRow(), b) ACC(bBatchInColumn, bool, A.bBatchInColumn(), !b) ACC(bSampleInRow, bool, A.bSampleInRow(), !b) ACC(bSampleInColumn, bool, A.bSampleInColumn(), b)
ACC(has_bias_row, bool, A.has_bias_row(), b && e) ACC(has_bias_column, bool, A.has_bias_column(), !b && e)
ACC(sample_size, L, A.sample_size(), (b ? L(r) : L(c)) - e) ACC(batch_size, L, A.batch_size(), b ? c : r)
ACC(cols_no_bias, L, A.cols_no_bias(), L(c) - (e && !b)) ACC(rows_no_bias, L, A.rows_no_bias(), L(r) - (e && b))
ACC(colsF, L, A.cols(f), L(c) - (f && e && !b)) ACC(rowsF, L, A.rows(f), L(r) - (f && e && b))
ACC(size_r, L, A.size().first, r) ACC(size_c, L, A.size().second, c) ACC(tsize_r, L, A.transposed_size().first, c) ACC(tsize_c, L, A.transposed_size().second, r)
ACC(sizenb_r, L, A.size_no_bias().first, L(r) - (e && b)) ACC(sizenb_c, L, A.size_no_bias().second, L(c) - (e && !b))
ACC(tsizenb_r, L, A.transposed_size_no_bias().first, L(c) - (e && !b)) ACC(tsizenb_c, L, A.transposed_size_no_bias().second, L(r) - (e && b))
ACC(dsize_r, L, A.dataset_size().first, b ? c : r) ACC(dsize_c, L, A.dataset_size().second, (b ? L(r) : L(c)) - e)
ACC(numel, L, A.numel(), L(r) * c) ACC(numel_no_bias, L, A.numel_no_bias(), (L(r) - (e && b)) * (L(c) - (e && !b))) ACC(numelF, L, A.numel(f), (L(r) - (f && e && b)) * (L(c) - (f && e && !b)))
ACC(numel_no_bias_sBiR, L, A.numel_no_bias_sBiR(), (L(r) - (e && b)) * (L(c) - (e && !b))) ACC(numel_sBiR, L, A.numel_sBiR(f), (L(r) - (f && e && b)) * (L(c) - (f && e && !b)))
ACC(byte_size, L, A.byte_size(), L(r) * c * sizeof(D)) ACC(byte_size_no_bias, L, A.byte_size_no_bias(), (L(r) - (e && b)) * (L(c) - (e && !b)) * sizeof(D))
ACC(empty, bool, A.empty(), !p) ACC(emulatesBiases, bool, A.emulatesBiases(), e) ACC(hasHoleyBiases, bool, A.hasHoleyBiases(), e && h) ACC(isHoleyBiases, bool, A.isHoleyBiases(), h)
ACC(bDontManageStorage, bool, A.bDontManageStorage(), true) ACC(bOwnStorage, bool, A.bOwnStorage(), false) ACC(isAllocationFailed, bool, A.isAllocationFailed(), !p)
ACC(universal_range, L, A._universal_range_BiR_aware(f), (f && b && e) ? L(c) : (b ? L(r) * c : L(r) * (L(c) - (f && e))))
ACC(sNumel, L, MX::sNumel(z, z2), L(z) * z2) ACC(sNumelP, L, MX::sNumel(A.size()), L(r) * c)
ACC(sNumelTriangl, L, MX::sNumelTriangl(r), L(r) * (L(r) - 1) / 2) ACC(numel_triangl, L, A.numel_triangl(), L(r) * (L(r) - 1) / 2)
ACC(Numel, L, math::Numel(A), L(r) * c)
#define ACP(n, ex_, sp_) ACC(n, const D*, ex_, sp_) const D* vp_acc_##n##_i_c(X6, int z, int z2, bool f) { A6; const MX& a_ = A; { const MX& A = a_; return ex_; } }
ACP(data, A.data(), p) ACP(begin, A.begin(), p) ACP(end, A.end(), p + L(r) * c) ACP(endF, A.end(f), p + (L(r) - (f && e && b)) * (L(c) - (f && e && !b))) ACP(end_no_bias, A.end_no_bias(), p + (L(r) - (e && b)) * (L(c) - (e && !b)))
ACP(end_sBiR, A.end_sBiR(f), p + (L(r) - (f && e && b)) * (L(c) - (f && e && !b))) ACP(end_no_bias_sBiR, A.end_no_bias_sBiR(), p + (L(r) - (e && b)) * (L(c) - (e && !b)))
ACP(colDataAsVec, A.colDataAsVec(z), p + L(r) * z) ACP(bias_column, A.bias_column(), p + L(r) * (L(c) - 1))
ACP(get, &A.get(z, z2), p + z + L(r) * z2) ACP(getP, &A.get(MX::mtx_coords_t(z, z2)), p + z + L(r) * z2)
void vp_set_i(X6, int z, int z2, D v) { A6; A.set(z, z2, v); } void vp_set_s(X6, int z, int z2, D v) { p[z + L(r) * z2] = v; }
void vp_tri_i_up(int n, L z, L* o) { vec_len_t i, j; MX::sTrianglCoordsFromIdx<false>(n, z, i, j); o[0] = i; o[1] = j; }
void vp_tri_s_up(int n, L z, L* o) { L j = L(std::ceil((std::sqrt(double(8 * z + 9)) - 1) / 2)); o[0] = int(z - j * (j - 1) / 2); o[1] = int(j); }
void vp_tri_i_lo(int n, L z, L* o) { vec_len_t i, j; MX::sTrianglCoordsFromIdx<true>(n, z, i, j); o[0] = i; o[1] = j; }
void vp_tri_s_lo(int n, L z, L* o) { const L t = L(n) * (L(n) - 1) / 2; if (z == t) { o[0] = 0; o[1] = n - 1; } else { const L k = t - z - 1; L j = L(std::ceil((std::sqrt(double(8 * k + 9)) - 1) / 2)); o[0] = int(n - 1 - int(k - j * (j - 1) / 2)); o[1] = int(n - 1 - int(j)); } }
// ---------------------------------------------------------------- construction
#define CTOR(n, sig, decl, spec) void vp_ctor_##n##_i sig { decl; ob(A, o); } void vp_ctor_##n##_s sig { spec; }
CTOR(def, (O* o), MX A, ex(o, nullptr, 0, 0, false, false, false, true))
CTOR(defd, (O* o), MD A, ex(o, nullptr, 0, 0, false, false, false, true))
CTOR(ext, (O* o, X6), A6, ex(o, p, r, c, e, h, b, false))
CTOR(extd, (O* o, X6), B6, ex(o, p, r, c, e, h, b, false))
CTOR(ext_sz, (O* o, X6), MX A(p, MX::mtx_size_t(r, c), e, h, b), ex(o, p, r, c, e, h, b, false))
CTOR(ext_like, (O* o, X6, D* q), A6; MX A1(q, A); { MX& A = A1; ob(A, o); return; }, ex(o, q, r, c, e, e && h, b, false))
CTOR(ext_liked, (O* o, X6, D* q), B6; MD A1(q, A); { MD& A = A1; ob(A, o); return; }, ex(o, q, r, c, e, e && h, b, false))
CTOR(ext_liket, (O* o, X6, unsigned char* q), A6; smatrix_deform<unsigned char> A1(q, A); o->p = A1.data(); o->r = A1.rows(); o->c = A1.cols(); o->e = A1.emulatesBiases(); o->h = A1.hasHoleyBiases(); o->b = A1.bBatchInRow(); o->own = A1.bOwnStorage(); o->fail = A1.isAllocationFailed(); return, ex(o, q, r, c, e, e && h, b, false); o->h = e && h)
CTOR(ext_nb, (O* o, X6, D* q), A6; MX A1(q, A, tag_noBias()); { MX& A = A1; ob(A, o); return; }, ex(o, q, L(r) - (e && b), L(c) - (e && !b), false, false, b, false))
// owning constructors: storage of exactly the right size, bias cells 1, everything released once
static inline void own_spec(O* o, int r, int c, bool e, bool b) { const L R = L(r) + (e && b), C = L(c) + (e && !b); D* q = (D*)vp_amalloc(R * C * sizeof(D), AL); o->p = q; o->fail = !q; o->r = q ? R : 0; o->c = q ? C : 0; o->e = e; o->h = 0; o->b = b; o->own = 1;
	if (q && e) { if (b) for (L j = 0; j < C; ++j) q[R - 1 + j * R] = D(1); else for (L i = 0; i < R; ++i) q[i + (C - 1) * R] = D(1); } vp_afree(q); }
CTOR(own, (O* o, int r, int c, bool e, bool b), MX A(r, c, e, b), own_spec(o, r, c, e, b))
CTOR(ownd, (O* o, int r, int c, bool e, bool b), MD A(r, c, e, b), own_spec(o, r, c, e, b))
CTOR(own_bs, (O* o, int r, int c, bool e, bool b), MX A(b, r, c, e), if (b) own_spec(o, c, r, e, b); else own_spec(o, r, c, e, b))
CTOR(own_sz, (O* o, int r, int c, bool e, bool b), MX A(MX::mtx_size_t(r, c), e, b), own_spec(o, r, c, e, b))
void vp_ctor_own_ne_i(O* o, L n, bool e, bool h, bool b) { MD A(n, e, h, b); ob(A, o); }
void vp_ctor_own_ne_s(O* o, L n, bool e, bool h, bool b) { D* q = (D*)vp_amalloc(n * sizeof(D), AL); if (q) { ex(o, q, 0, 0, e, h, b, true); vp_afree(q); } else ex(o, nullptr, 0, 0, false, false, false, true); }

// ---------------------------------------------------------------- fills and bias handling on caller storage
#define FALL for (L i = 0; i < L(r) * c; ++i)
#define OP(n, sig, call, spec) void vp_op_##n##_i sig { A6; call; ob(A, o); } void vp_op_##n##_i_d sig { B6; call; ob(A, o); } void vp_op_##n##_s sig { spec; }
#define KEEP ex(o, p, r, c, e, h, b, false)
#define BCOL(v) for (L i = 0; i < r; ++i) p[i + (L(c) - 1) * r] = (v)
#define BROW(v) for (L j = 0; j < c; ++j) p[L(r) - 1 + j * r] = (v)
OP(fill_column, (O* o, X6, int z, D v), A.fill_column_with(z, v), for (L i = 0; i < r; ++i) p[i + L(z) * r] = v; KEEP)
OP(fill_last_column, (O* o, X6, D v), A.fill_last_column(v), BCOL(v); KEEP)
OP(fill_bias_column, (O* o, X6), A.fill_bias_column(), BCOL(D(1)); KEEP)
OP(fill_row, (O* o, X6, int z, D v), A.fill_row_with(z, v), for (L j = 0; j < c; ++j) p[z + j * r] = v; KEEP)
OP(fill_last_row, (O* o, X6, D v), A.fill_last_row(v), BROW(v); KEEP)
OP(fill_bias_row, (O* o, X6), A.fill_bias_row(), BROW(D(1)); KEEP)
OP(set_biases, (O* o, X6), A.set_biases(), if (b) { BROW(D(1)); } else { BCOL(D(1)); } ex(o, p, r, c, e, false, b, false))
OP(holey_biases, (O* o, X6, bool f), A.holey_biases(f), ex(o, p, r, c, e, f, b, false))
OP(fill, (O* o, X6, D v), A.fill(v), FALL p[i] = v; KEEP)
OP(ones, (O* o, X6), A.ones(), FALL p[i] = D(1); ex(o, p, r, c, e, false, b, false))
OP(nans, (O* o, X6), A.nans(), FALL p[i] = std::numeric_limits<D>::quiet_NaN(); ex(o, p, r, c, e, false, b, false))
OP(zeros, (O* o, X6), A.zeros(), if (!b) for (L i = 0; i < L(r) * (L(c) - e); ++i) p[i] = D(0); else { for (L i = 0; i < L(r) * c; ++i) p[i] = D(0); if (e) { BROW(D(1)); } } KEEP)
// the following do not support biases in rows: batch-in-column matrices only
#define OPC(n, sig, call, spec) void vp_op_##n##_i sig { const bool b = false; A6; call; ob(A, o); } void vp_op_##n##_i_d sig { const bool b = false; B6; call; ob(A, o); } void vp_op_##n##_s sig { const bool b = false; spec; }
OPC(nans_no_bias, (O* o, X5), A.nans_no_bias(), for (L i = 0; i < L(r) * (L(c) - e); ++i) p[i] = std::numeric_limits<D>::quiet_NaN(); KEEP)
OPC(fill_array, (O* o, X5, const D* q), A.fill_from_array_no_bias(q), for (L i = 0; i < L(r) * (L(c) - e); ++i) p[i] = q[i]; KEEP)
OPC(fill_arrayT, (O* o, X5, const int* q), A.fill_from_array_no_bias(q), for (L i = 0; i < L(r) * (L(c) - e); ++i) p[i] = D(q[i]); KEEP)
OPC(copy_biases_p, (O* o, X5, const D* q, int z), A.copy_biases_from(q, z), BCOL(q[i]); ex(o, p, r, c, e, z != r, b, false))
OPC(copy_biases_m, (O* o, X5, D* q, int c2, bool f), MX B(q, r, c2, true, f, false); A.copy_biases_from(B), BCOL(f ? q[i + (L(c2) - 1) * r] : D(1)); ex(o, p, r, c, e, f, b, false))
// bias tests
#define BT(n, T, call, spec) T vp_bt_##n##_i(X6) { A6; return call; } T vp_bt_##n##_s(X6) { spec; }
BT(strict, bool, A.test_biases_strict(), bool k = true; if (b) { for (L j = 0; j < c; ++j) k = k & (p[L(r) - 1 + j * r] == D(1)); } else for (L i = 0; i < r; ++i) k = k & (p[i + (L(c) - 1) * r] == D(1)); return k)
// ---------------------------------------------------------------- attaching storage
#define EXT(n, sig, call, spec) void vp_ext_##n##_i sig { MX A; call; ob(A, o); } void vp_ext_##n##_i_d sig { MD A; call; ob(A, o); } void vp_ext_##n##_s sig { spec; }
EXT(raw, (O* o, X6), A.useExternalStorage(p, r, c, e, h, b), KEEP)
EXT(like, (O* o, X6, D* q, bool f), MX M(p, r, c, e, h, b); A.useExternalStorage(q, M, f), ex(o, q, r, c, e, f, b, false))
EXT(bs, (O* o, X6), A.useExternalStorage(b, p, r, c, e, h), if (b) ex(o, p, c, r, e, h, b, false); else ex(o, p, r, c, e, h, b, false))
EXT(bs2, (O* o, X6), A.set_batchInRow(b); A.useExternalStorage(r, c, p, e, h), if (b) ex(o, p, c, r, e, h, b, false); else ex(o, p, r, c, e, h, b, false))
EXT(mtx, (O* o, X6), MX M(p, r, c, e, h, b); A.useExternalStorage(M), KEEP)
EXT(mtx_nb, (O* o, X6), MX M(p, r, c, e, h, b); A.useExternalStorage_no_bias(M), ex(o, p, L(r) - (e && b), L(c) - (e && !b), false, false, b, false))
void vp_ext_sz_i(O* o, X6) { MX A; A.useExternalStorage(p, MX::mtx_size_t(r, c), e, h, b); ob(A, o); } void vp_ext_sz_s(O* o, X6) { KEEP; }
void vp_ext_cols_i(O* o, X6, int z, int n2) { MX M(p, r, c, e, h, b), A; A.useExternalStorage_no_bias(M, z, n2); ob(A, o); } void vp_ext_cols_s(O* o, X6, int z, int n2) { ex(o, p + L(r) * z, r, n2, false, false, b, false); }
void vp_ext_ptrnb_i(O* o, X6, D* q) { MX M(p, r, c, e, h, b), A; A.useExternalStorage_no_bias(q, M); ob(A, o); } void vp_ext_ptrnb_s(O* o, X6, D* q) { ex(o, q, L(r) - (e && b), L(c) - (e && !b), false, false, b, false); }
void vp_ext_cnt_i(O* o, D* p, L n, bool e, bool h, bool b) { MD A; A.useExternalStorage(p, n, e, h, b); ob(A, o); } void vp_ext_cnt_s(O* o, D* p, L n, bool e, bool h, bool b) { ex(o, p, 0, 0, e, h, b, false); }
// storage owned before is released exactly once when external storage is attached / cleared / moved
void vp_ext_own_i(O* o, X6, int r2, int c2) { MX A(r2, c2); A.useExternalStorage(p, r, c, e, h, b); ob(A, o); }
void vp_ext_own_i_d(O* o, X6, int r2, int c2) { MD A(r2, c2); A.useExternalStorage(p, r, c, e, h, b); ob(A, o); }
void vp_ext_own_s(O* o, X6, int r2, int c2) { vp_afree(vp_amalloc(L(r2) * c2 * sizeof(D), AL)); KEEP; }
void vp_intern_i(O* o, int r, int c, bool e, bool b) { MX A; A.useInternalStorage(r, c, e, b); ob(A, o); }
void vp_intern_s(O* o, int r, int c, bool e, bool b) { own_spec(o, r, c, e, b); }
void vp_intern0_i(O* o, X6, bool f, bool g) { A6; A.useInternalStorage(0, 0, f, g); ob(A, o); } void vp_intern0_i_d(O* o, X6, bool f, bool g) { B6; A.useInternalStorage(0, 0, f, g); ob(A, o); }
void vp_intern0_s(O* o, X6, bool f, bool g) { ex(o, nullptr, 0, 0, f, false, g, true); }
// ---------------------------------------------------------------- clear / move
void vp_clear_i(O* o, X6) { A6; A.clear(); ob(A, o); } void vp_clear_i_d(O* o, X6) { B6; A.clear(); ob(A, o); } void vp_clear_s(O* o, X6) { ex(o, nullptr, 0, 0, e, false, false, true); }
void vp_clear_own_i(O* o, int r, int c) { MX A(r, c); A.clear(); ob(A, o); } void vp_clear_own_i_d(O* o, int r, int c) { MD A(r, c); A.clear(); ob(A, o); }
void vp_clear_own_s(O* o, int r, int c) { vp_afree(vp_amalloc(L(r) * c * sizeof(D), AL)); ex(o, nullptr, 0, 0, false, false, false, true); }
#define MV(n, T1, T2, decl) void vp_move_##n##_i(O* o, O* o2, X6) { T1 B(p, r, c, e, h, b); decl; ob(A, o); o2->p = B.empty() ? nullptr : B.begin(); o2->r = B.rows(); o2->c = B.cols(); } void vp_move_##n##_s(O* o, O* o2, X6) { KEEP; o2->p = nullptr; o2->r = 0; o2->c = 0; } \
 void vp_moveown_##n##_i(O* o, O* o2, int r, int c, bool b) { T1 B(r, c, false, b); decl; ob(A, o); o2->p = B.empty() ? nullptr : B.begin(); o2->r = B.rows(); o2->c = B.cols(); } void vp_moveown_##n##_s(O* o, O* o2, int r, int c, bool b) { D* q = (D*)vp_amalloc(L(r) * c * sizeof(D), AL); ex(o, q, r, c, false, false, b, true); o->h = 0; o2->p = nullptr; o2->r = 0; o2->c = 0; vp_afree(q); }
MV(c, MX, MX, MX A(std::move(B))) MV(cd, MD, MD, MD A(std::move(B))) MV(cmd, MX, MD, MD A(std::move(B)))
MV(a, MX, MX, MX A; A = std::move(B)) MV(ad, MD, MD, MD A; A = std::move(B)) MV(amd, MX, MD, MD A; A = std::move(B))
// assignment over owned storage releases the old block once; self-move changes nothing
void vp_moveover_i(O* o, int r, int c, int r2, int c2) { MX A(r2, c2), B(r, c); A = std::move(B); ob(A, o); } void vp_moveover_i_d(O* o, int r, int c, int r2, int c2) { MD A(r2, c2), B(r, c); A = std::move(B); ob(A, o); }
void vp_moveover_s(O* o, int r, int c, int r2, int c2) { D* q2 = (D*)vp_amalloc(L(r2) * c2 * sizeof(D), AL); D* q = (D*)vp_amalloc(L(r) * c * sizeof(D), AL); vp_afree(q2); ex(o, q, r, c, false, false, false, true); vp_afree(q); }
void vp_moveself_i(O* o, int r, int c) { MX A(r, c); MX& B = A; A = std::move(B); ob(A, o); } void vp_moveself_i_d(O* o, int r, int c) { MD A(r, c); MD& B = A; A = std::move(B); ob(A, o); }
void vp_moveself_s(O* o, int r, int c) { D* q = (D*)vp_amalloc(L(r) * c * sizeof(D), AL); ex(o, q, r, c, false, false, false, true); vp_afree(q); }
// ---------------------------------------------------------------- resize
static inline D* re_spec(O* o, L r, L c, bool e, bool b) { const L R = r + (e && b), C = c + (e && !b); D* q = (D*)vp_amalloc(R * C * sizeof(D), AL); o->sz = q != nullptr;
	if (q) { if (e) { if (b) for (L j = 0; j < C; ++j) q[R - 1 + j * R] = D(1); else for (L i = 0; i < R; ++i) q[i + (C - 1) * R] = D(1); } }
	o->p = q; if (q) { o->r = R; o->c = C; } o->e = e; o->h = 0; o->b = b; o->own = 1; return q; }
#define obr(A, o) { ob(A, o); if (!o->sz) { o->r = r0; o->c = c0; } }
#define RS(n, sig, T, call, spec) void vp_rs_##n##_i sig { T A; A.emulate_biases(e); A.set_batchInRow(b); o->sz = call; o->p = A.empty() ? nullptr : A.begin(); if (o->p) { o->r = A.rows(); o->c = A.cols(); } o->e = A.emulatesBiases(); o->h = A.empty() ? 0 : A.hasHoleyBiases(); o->b = A.bBatchInRow(); o->own = A.bOwnStorage(); } void vp_rs_##n##_s sig { spec; }
RS(rc, (O* o, int r, int c, bool e, bool b), MX, A.resize(r, c), vp_afree(re_spec(o, r, c, e, b))) RS(rcd, (O* o, int r, int c, bool e, bool b), MD, A.resize(r, c), vp_afree(re_spec(o, r, c, e, b)))
RS(sz, (O* o, int r, int c, bool e, bool b), MX, A.resize(MX::mtx_size_t(r, c)), vp_afree(re_spec(o, r, c, e, b))) RS(szd, (O* o, int r, int c, bool e, bool b), MD, A.resize(MX::mtx_size_t(r, c)), vp_afree(re_spec(o, r, c, e, b)))
RS(ds, (O* o, int r, int c, bool e, bool b), MX, A.resize_as_dataset(r, c), vp_afree(b ? re_spec(o, c, r, e, b) : re_spec(o, r, c, e, b))) RS(dsd, (O* o, int r, int c, bool e, bool b), MD, A.resize_as_dataset(r, c), vp_afree(b ? re_spec(o, c, r, e, b) : re_spec(o, r, c, e, b)))
RS(like, (O* o, D* p, int r, int c, bool e, bool b), MX, A.resize(MX(p, r + (e && b), c + (e && !b), e, true, b)), vp_afree(re_spec(o, r, c, e, b)))
RS(liked, (O* o, D* p, int r, int c, bool e, bool b), MD, A.resize(MX(p, r + (e && b), c + (e && !b), e, true, b)), vp_afree(re_spec(o, r, c, e, b)))
RS(nb, (O* o, int r, int c, bool e, bool b), MX, A.resize(r, c, tag_noBias()), vp_afree(re_spec(o, r, c, false, b))) RS(nbs, (O* o, int r, int c, bool e, bool b), MX, A.resize(MX::mtx_size_t(r, c), tag_noBias()), vp_afree(re_spec(o, r, c, false, b)))
// resize of a matrix that owns r2 x c2: a different size gets a fresh block and releases the old one; the same size keeps it (bias cells are set anew)
void vp_rsown_i(O* o, int r, int c, int r2, int c2, bool b) { if (r == r2 && c == c2) return; MX A(r2, c2, false, b); if (A.empty()) return; o->sz = A.resize(r, c); o->p = A.empty() ? nullptr : A.begin(); if (o->p) { o->r = A.rows(); o->c = A.cols(); } }
void vp_rsown_s(O* o, int r, int c, int r2, int c2, bool b) { if (r == r2 && c == c2) return; D* q = (D*)vp_amalloc(L(r2) * c2 * sizeof(D), AL); if (!q) return; vp_afree(q); D* w = (D*)vp_amalloc(L(r) * c * sizeof(D), AL); o->sz = w != nullptr; o->p = w; if (w) { o->r = r; o->c = c; } vp_afree(w); }
void vp_rssame_i(O* o, int r, int c, bool e, bool b) { MX A(r, c, e, b); if (A.empty()) return; A.fill(D(7)); o->sz = A.resize(r, c); ob(A, o); }
void vp_rssame_s(O* o, int r, int c, bool e, bool b) { const L R = L(r) + (e && b), C = L(c) + (e && !b); D* q = (D*)vp_amalloc(R * C * sizeof(D), AL); if (!q) return; for (L i = 0; i < R * C; ++i) q[i] = D(7); if (e) { if (b) for (L j = 0; j < C; ++j) q[R - 1 + j * R] = D(1); else for (L i = 0; i < R; ++i) q[i + (C - 1) * R] = D(1); } o->sz = 1; ex(o, q, R, C, e, false, b, true); vp_afree(q); }
void vp_rsownd_i(O* o, int r, int c, int r2, int c2) { MD A(r2, c2); o->sz = A.resize(r, c); o->p = A.empty() ? nullptr : A.begin(); if (o->p) { o->r = A.rows(); o->c = A.cols(); } }
void vp_rsownd_s(O* o, int r, int c, int r2, int c2) { vp_afree(vp_amalloc(L(r2) * c2 * sizeof(D), AL)); D* w = (D*)vp_amalloc(L(r) * c * sizeof(D), AL); o->sz = w != nullptr; o->p = w; if (w) { o->r = r; o->c = c; } vp_afree(w); }
bool vp_rsbad_i(int x, int y, bool e) { MX A; A.emulate_biases(e); if (x <= 0 || y <= 0) return A.resize(x, y); return false; } bool vp_rsbad_s(int x, int y, bool e) { return false; }
void vp_rsne_i(O* o, L n, bool e, bool h, bool b) { MD A; o->sz = A.resize(n, &e, &h, &b); ob(A, o); } void vp_rsne_s(O* o, L n, bool e, bool h, bool b) { D* q = (D*)vp_amalloc(n * sizeof(D), AL); o->sz = q != nullptr; if (q) ex(o, q, 0, 0, e, h, b, true); else ex(o, nullptr, 0, 0, false, false, false, true); vp_afree(q); }
// ---------------------------------------------------------------- deformation and views
#define DF(n, sig, call, spec) void vp_df_##n##_i sig { B6; call; ob(A, o); } void vp_df_##n##_s sig { spec; }
DF(cols, (O* o, X6, int z), o->sz = A.deform_cols(z), o->sz = c; ex(o, p, r, z, e, h, b, false))
DF(rows, (O* o, X6, int z), o->sz = A.deform_rows(z), o->sz = r; ex(o, p, z, c, e, h, b, false))
DF(rc, (O* o, X6, int z, int z2), A.deform(z, z2), ex(o, p, z, z2, e, h, b, false))
DF(hide_last, (O* o, X6), A.hide_last_col(), ex(o, p, r, L(c) - 1, e, h, b, false))
DF(restore_last, (O* o, X6), A.restore_last_col(), ex(o, p, r, L(c) + 1, e, h, b, false))
DF(hide_n, (O* o, X6, int z), o->sz = A.hide_last_n_cols(z), o->sz = e && !b; ex(o, p, r, L(c) - z - (e && !b), e && b, h, b, false))
DF(restore_n, (O* o, X6, int z, bool f), A.restore_last_n_cols(f, z), ex(o, p, r, L(c) + z + f, e || f, h, b, false))
DF(hide_restore_n, (O* o, X6, int z), const bool k = A.hide_last_n_cols(z); A.restore_last_n_cols(k, z), KEEP)
DF(hide_b, (O* o, X6), o->sz = A.hide_biases(), o->sz = e; ex(o, p, r, L(c) - e, false, h, b, false))
DF(hide_restore_b, (O* o, X6), const bool k = A.hide_biases(); A.restore_biases(k), KEEP)
DF(restore_b, (O* o, X6, bool f), A.restore_biases(f), ex(o, p, r, L(c) + f, e || f, h, b, false))
DF(drop, (O* o, X6), A._drop_biases(), ex(o, p, r, c, false, h, b, false)) DF(enforce, (O* o, X6), A._enforce_biases(), ex(o, p, r, c, true, h, b, false))
DF(flag, (O* o, X6), o->sz = A.holeyBiases_flag(), o->sz = h; KEEP)
DF(bs, (O* o, X6, int z), o->sz = A.deform_batch_size(z), o->sz = b ? c : r; ex(o, p, b ? r : z, b ? z : c, e, h, b, false))
DF(ss, (O* o, X6, int z), o->sz = A.deform_sample_size(z), o->sz = b ? r : c; ex(o, p, b ? z : r, b ? c : z, e, h, b, false))
static inline void reb(O* o, D* p, L r, L c, bool e, bool h, bool b, bool same) { if (!same && e) { if (b) for (L j = 0; j < c; ++j) p[r - 1 + j * r] = D(1); else for (L i = 0; i < r; ++i) p[i + (c - 1) * r] = D(1); h = false; } ex(o, p, r, c, e, h, b, false); }
DF(bswb, (O* o, X6, int n2), A.deform_batch_size_with_biases(n2), if (b) reb(o, p, r, n2, e, h, b, c == n2); else reb(o, p, n2, c, e, h, b, r == n2))
DF(ds, (O* o, X6, int n2, int n3), A.deform_dataset(n2, n3), if (b) reb(o, p, n3, n2, e, h, b, r == n3 && c == n2); else reb(o, p, n2, n3, e, h, b, r == n2 && c == n3))
DF(like, (O* o, X6, D* q, int r2, int c2, bool f, bool g), MX M(q, r2, c2, f, false, g); A.deform_like(M), ex(o, p, r2, c2, e, h, g, false))
DF(like_nb, (O* o, X6, D* q, int r2, int c2, bool f, bool g), MX M(q, r2, c2, f, false, g); A.deform_like_no_bias(M), ex(o, p, L(r2) - (f && g), L(c2) - (f && !g), e, h, g, false))
DF(transp, (O* o, X6), A.on_transposition(), ex(o, p, c, r, e, h, !b, false))
void vp_sub_i(O* o, X6, int z, int n2) { A6; MX B(A.submatrix_cols_no_bias(z, n2)); ob(B, o); } void vp_sub_i_d(O* o, X6, int z, int n2) { B6; MD B(A.submatrix_cols_no_bias(z, n2)); ob(B, o); }
void vp_sub_s(O* o, X6, int z, int n2) { ex(o, p + L(r) * z, r, n2, false, false, b, false); }
// ---------------------------------------------------------------- copying
#define CP(n, sig, i1, i2, s) bool vp_cp_##n##_i sig { i1; } bool vp_cp_##n##_i_d sig { i2; } bool vp_cp_##n##_s sig { s; }
CP(to, (O* o, X6, D* q, int r2, int c2, bool f, bool g), A6; MX B(q, r2, c2, f, g, false); const bool k = A.copy_to(B); ob(B, o); return k, B6; MD B(q, r2, c2, f, g, false); const bool k = A.copy_to(B); ob(B, o); return k,
 if (L(r2) * c2 != L(r) * c || f != e) { ex(o, q, r2, c2, f, g, false, false); return false; } FALL q[i] = p[i]; ex(o, q, r, c, e, h, b, false); return true)
CP(cln, (O* o, X6, D* q, int r2, int c2, bool f), A6; MX B(q, r2, c2, f, false, false); const bool k = A.clone_to(B); ob(B, o); return k, B6; MD B(q, r2, c2, f, false, false); const bool k = A.clone_to(B); ob(B, o); return k,
 if (r2 != r || c2 != c) { ex(o, q, r2, c2, f, false, false, false); return false; } FALL q[i] = p[i]; ex(o, q, r, c, e, h, b, false); return true)
CP(clo, (O* o, X6, bool f), A6; MX B; B.emulate_biases(f); const bool k = A.clone_to(B); if (k) ob(B, o); else { o->fail = B.isAllocationFailed(); o->sz = B.empty(); } return k, B6; MD B; B.emulate_biases(f); const bool k = A.clone_to(B); if (k) ob(B, o); else { o->fail = B.isAllocationFailed(); o->sz = B.empty(); } return k,
 D* q = (D*)vp_amalloc(L(r) * c * sizeof(D), AL); if (q) { FALL q[i] = p[i]; ex(o, q, r, c, e, h, b, true); } else { o->fail = 1; o->sz = 1; } vp_afree(q); return q != nullptr)
CP(cnb, (O* o, X5, D* q, int r2, int c2, bool f, bool g), const bool b = false; A6; MX B(q, r2, c2, f, g, false); const bool k = A.clone_to_no_bias(B); ob(B, o); return k, const bool b = false; B6; MD B(q, r2, c2, f, g, false); const bool k = A.clone_to_no_bias(B); ob(B, o); return k,
 if (r2 != r || L(c2) != L(c) - e) { ex(o, q, r2, c2, f, g, false, false); return false; } for (L i = 0; i < L(r) * (L(c) - e); ++i) q[i] = p[i]; ex(o, q, r, L(c) - e, false, false, false, false); return true)
CP(cnbo, (O* o, X5, bool f), MX A(p, r, c + e, e, h, false); MX B; B.emulate_biases(f); const bool k = A.clone_to_no_bias(B); if (k) ob(B, o); return k, MD A(p, r, c + e, e, h, false); MD B; B.emulate_biases(f); const bool k = A.clone_to_no_bias(B); if (k) ob(B, o); return k,
 D* q = (D*)vp_amalloc(L(r) * L(c) * sizeof(D), AL); if (q) { for (L i = 0; i < L(r) * L(c); ++i) q[i] = p[i]; ex(o, q, r, c, false, false, false, true); } vp_afree(q); return q != nullptr)
CP(skip, (O* o, X5, D* q, int r2, int c2, bool f, bool g), const bool b = false; A6; MX B(q, r2, c2, f, g, false); const bool k = A.copy_data_skip_bias(B); ob(B, o); return k, const bool b = false; B6; MD B(q, r2, c2, f, g, false); const bool k = A.copy_data_skip_bias(B); ob(B, o); return k,
 ex(o, q, r2, c2, f, g, false, false); if (r2 != r || L(c2) - f != L(c) - e) return false; for (L i = 0; i < L(r) * (L(c) - e); ++i) q[i] = p[i]; return true)
bool vp_eq_i(X6, D* q, int r2, int c2, bool f, bool g) { A6; MX B(q, r2, c2, f, g, b); return A == B; } bool vp_eq_i_d(X6, D* q, int r2, int c2, bool f, bool g) { B6; MD B(q, r2, c2, f, g, b); return !(A != B); }
bool vp_eq_s(X6, D* q, int r2, int c2, bool f, bool g) { return e == f && h == g && r == r2 && c == c2 && 0 == memcmp(p, q, L(r) * c * sizeof(D)); }
bool vp_eqb_i(X6, D* q, bool f) { A6; MX B(q, r, c, e, h, f); return A == B; } bool vp_eqb_s(X6, D* q, bool f) { return b == f && 0 == memcmp(p, q, L(r) * c * sizeof(D)); }
}
