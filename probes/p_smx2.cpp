#include "smx.h"
#define COMMA ,
// ---------------------------------------------------------------- content predicates
#define BIAS_ALL(cond) bool k = true; if (b) { for (L j = 0; j < c; ++j) { const D v = p[L(r) - 1 + j * r]; k = k & (cond); } } else { for (L i = 0; i < r; ++i) { const D v = p[i + (L(c) - 1) * r]; k = k & (cond); } }
#define ISB(x) ((x) == I1 || (x) == I0 || (x) == IN0)
#if VP_ISFLT
typedef typename real_t_limits<D>::similar_FWI_t FW;
static const FW I1 = sizeof(D) == 8 ? FW(0x3ff0000000000000ull) : FW(0x3f800000), I0 = 0, IN0 = sizeof(D) == 8 ? FW(0x8000000000000000ull) : FW(0x80000000);
#else
typedef D FW; static const FW I1 = 1, I0 = 0, IN0 = 0;
#endif
#define BT(n, T, call, spec) T vp_bt_##n##_i(X6) { A6; return call; } T vp_bt_##n##_i_d(X6) { B6; return call; } T vp_bt_##n##_s(X6) { const FW* w = (const FW*)p; spec; }
#define BIASW(cond) bool k = true; if (b) { for (L j = 0; j < c; ++j) { const FW v = w[L(r) - 1 + j * r]; k = k & (cond); } } else { for (L i = 0; i < r; ++i) { const FW v = w[i + (L(c) - 1) * r]; k = k & (cond); } }
#define STRICT bool k = true; if (b) { for (L j = 0; j < c; ++j) k = k & (p[L(r) - 1 + j * r] == D(1)); } else { for (L i = 0; i < r; ++i) k = k & (p[i + (L(c) - 1) * r] == D(1)); }
BT(strict, bool, A.test_biases_strict(), STRICT return k)
BT(holey, bool, A.test_biases_holey(), BIASW(ISB(v)) return k)
BT(okb, bool, e && A.test_biases_ok(), if (!e) return false; if (h) { BIASW(ISB(v)) return k; } else { STRICT return k; })
BT(ifb, bool, A.if_biases_test_strict(), if (!e) return true; STRICT return k)
BT(bin, bool, A._isBinary(), bool k = true; for (L i = 0; i < L(r) * c; ++i) k = k & ISB(w[i]); return k)
BT(bins, bool, A._isBinaryStrict(), bool k = true; for (L i = 0; i < L(r) * c; ++i) k = k & (w[i] == I1 || w[i] == I0); return k)
BT(binsnb, bool, (A.set_batchInRow(false), A._isBinaryStrictNoBias()), bool k = true; for (L i = 0; i < L(r) * (L(c) - e); ++i) k = k & (w[i] == I1 || w[i] == I0); return k)
#if VP_ISFLT
BT(nonan, bool, A.test_noNaNs(), bool k = true; for (L i = 0; i < L(r) * c; ++i) k = k & !std::isnan(p[i]); return k)
bool vp_bt_alm_i(X6, D eps) { A6; return A._isAlmostBinary(eps); } bool vp_bt_alm_s(X6, D eps) { bool k = true; for (L i = 0; i < L(r) * c; ++i) k = k & ((std::abs(p[i] - D(1)) < eps) | (std::abs(p[i]) < eps)); return k; }
#endif
// ---------------------------------------------------------------- clones into a fresh matrix, repeated resize
bool vp_cln_from_i(O* o, X6, int r2, int c2) { B6; MD B(r2, c2); const bool k = B.cloneFrom(A); if (k) ob(B, o); return k; }
bool vp_cln_from_s(O* o, X6, int r2, int c2) { vp_afree(vp_amalloc(L(r2) * c2 * sizeof(D), AL)); D* q = (D*)vp_amalloc(L(r) * c * sizeof(D), AL); if (q) { for (L i = 0; i < L(r) * c; ++i) q[i] = p[i]; ex(o, q, r, c, e, h, b, true); } vp_afree(q); return q != nullptr; }
long vp_retry_i(O* o, int r, int c, bool e, bool b) { MX A; A.emulate_biases(e); A.set_batchInRow(b); const bool k1 = A.resize(r, c); if (k1) return 3; o->p = A.begin(); o->fail = A.isAllocationFailed(); const bool k2 = A.resize(r, c); return k2 ? 1 + 4 * !A.empty() : 0; }
long vp_retry_s(O* o, int r, int c, bool e, bool b) { const L R = L(r) + (e && b), C = L(c) + (e && !b); D* q = (D*)vp_amalloc(R * C * sizeof(D), AL);
	if (q) { if (e) { if (b) for (L j = 0; j < C; ++j) q[R - 1 + j * R] = D(1); else for (L i = 0; i < R; ++i) q[i + (C - 1) * R] = D(1); } vp_afree(q); return 3; }
	o->p = nullptr; o->fail = 1; q = (D*)vp_amalloc(R * C * sizeof(D), AL); if (!q) return 0;
	if (e) { if (b) for (L j = 0; j < C; ++j) q[R - 1 + j * R] = D(1); else for (L i = 0; i < R; ++i) q[i + (C - 1) * R] = D(1); } vp_afree(q); return 5; }
// ---------------------------------------------------------------- triangular index space
L vp_tri_n_i(int n) { return MX::sNumelTriangl(n); } L vp_tri_n_s(int n) { return L(n) * (L(n) - 1) / 2; }
L vp_tri_m_i(D* p, int n) { MX A(p, n, n); return A.numel_triangl(); } L vp_tri_m_s(D* p, int n) { return L(n) * (L(n) - 1) / 2; }
static inline L tri_root(L k) { return L(std::ceil((std::sqrt(double(8 * k + 9)) - 1) / 2)); }
void vp_tri_up_i(L n, L z, vec_len_t* o1, vec_len_t* o2) { MX::sTrianglCoordsFromIdx<false>(vec_len_t(n), z, *o1, *o2); }
void vp_tri_up_s(L n, L z, vec_len_t* o1, vec_len_t* o2) { const L q = tri_root(z); *o2 = vec_len_t(q); *o1 = vec_len_t(z - q * (q - 1) / 2); }
void vp_tri_lo_i(int n, L z, vec_len_t* o1, vec_len_t* o2) { MX::sTrianglCoordsFromIdx<true>(n, z, *o1, *o2); }
void vp_tri_lo_s(int n, L z, vec_len_t* o1, vec_len_t* o2) { const L t = L(n) * (L(n) - 1) / 2; if (z == t) { *o1 = 0; *o2 = n - 1; } else { const L w = t - z - 1, q = tri_root(w); *o2 = n - 1 - vec_len_t(q); *o1 = n - 1 - vec_len_t(w - q * (q - 1) / 2); } }
void vp_tri_mt_i(D* p, int n, L z, vec_len_t* o1, vec_len_t* o2) { MX A(p, n, n); A.triangl_coords_from_idx<true>(z, *o1, *o2); }
void vp_tri_mt_s(D* p, int n, L z, vec_len_t* o1, vec_len_t* o2) { vp_tri_lo_s(n, z, o1, o2); }
// ---------------------------------------------------------------- element / row-column ranges
struct R4 { L a, b, c, d, n, m; };
#define rg(o, ...) { const auto x = __VA_ARGS__; o->a = x.elmBegin; o->b = x.elmEnd; o->n = x.totalElements(); }
static inline void rs(R4* o, L a, L b) { o->a = a; o->b = b; o->n = b - a; }
static inline void rc(const s_rowcol_range& x, R4* o) { o->a = x.rowBegin; o->b = x.rowEnd; o->c = x.colBegin; o->d = x.colEnd; o->n = x.totalRows(); o->m = x.totalCols(); }
static inline void rcs(R4* o, L a, L b, L c, L d) { o->a = a; o->b = b; o->c = c; o->d = d; o->n = b - a; o->m = d - c; }
#define RG(n, sig, call, ...) void vp_rg_##n##_i sig { call; } void vp_rg_##n##_s sig { __VA_ARGS__; }
RG(elA, (R4* o, X6), A6; rg(o, s_elems_range(A)), rs(o, 0, L(r) * c))
RG(elAnb, (R4* o, X5), const bool b = false; A6; rg(o, s_elems_range(A, tag_noBias())), rs(o, 0, L(r) * (L(c) - e)))
RG(elN, (R4* o, L n), rg(o, s_elems_range(n)), rs(o, 0, n))
RG(elBE, (R4* o, L z, L n), rg(o, s_elems_range(z, n)), rs(o, z, n))
RG(elPR, (R4* o, L z, L n, int t), rg(o, s_elems_range(threads::parallel_range<numel_cnt_t>(z, n, t))), rs(o, z, z + n))
RG(elOfs, (R4* o, L z, L n, L z3), rg(o, s_elems_range(z, n) + z3), rs(o, z + z3, n + z3))
RG(vecN, (R4* o, int n), rg(o, s_vec_range(vec_len_t(n))), rs(o, 0, n))
RG(vecBE, (R4* o, int z, int n), const vec_len_t w1 = z; const vec_len_t w2 = n; s_vec_range R(w1 COMMA w2); o->a = R.elmBegin; o->b = R.elmEnd; o->n = vec_len_t(R.totalElements()), o->a = z; o->b = n; o->n = vec_len_t(n - z))
RG(vecPR, (R4* o, int z, int n, int t), s_vec_range R(threads::parallel_range<numel_cnt_t>(z, n, t)); o->a = R.elmBegin; o->b = R.elmEnd, o->a = z; o->b = vec_len_t(L(z) + n))
RG(rcA, (R4* o, X6), A6; rc(s_rowcol_range(A), o), rcs(o, 0, r, 0, c))
RG(rcAnb, (R4* o, X6), A6; rc(s_rowcol_range(A, tag_noBias()), o), rcs(o, 0, L(r) - (e && b), 0, L(c) - (e && !b)))
RG(rcAig, (R4* o, X6, bool f), A6; rc(s_rowcol_range(A, f), o), rcs(o, 0, L(r) - (f && e && b), 0, L(c) - (f && e && !b)))
RG(rcRows, (R4* o, X6, int z, int n), A6; s_rowcol_range x(z, n, A); o->a = x.rowBegin; o->b = x.rowEnd; o->c = x.colBegin; o->d = x.colEnd, o->a = z; o->b = n; o->c = 0; o->d = c)
RG(rcRowsIg, (R4* o, X6, int z, int n, bool f), A6; s_rowcol_range x(z, n, A, f); o->a = x.rowBegin; o->b = x.rowEnd; o->c = x.colBegin; o->d = x.colEnd, o->a = z; o->b = n; o->c = 0; o->d = L(c) - (f && e && !b))
RG(rcCols, (R4* o, X6, int z, int n), A6; s_rowcol_range x(A, z, n); o->a = x.rowBegin; o->b = x.rowEnd; o->c = x.colBegin; o->d = x.colEnd, o->a = 0; o->b = r; o->c = z; o->d = n)
RG(rcColsIg, (R4* o, X6, int z, int n, bool f), A6; s_rowcol_range x(A, z, n, f); o->a = x.rowBegin; o->b = x.rowEnd; o->c = x.colBegin; o->d = x.colEnd, o->a = 0; o->b = L(r) - (f && e && b); o->c = z; o->d = n)
bool vp_rg_can_i(X6, int z1, int z2, int z3, int z4) { A6; MX B(p, r, c, e, h, b); s_rowcol_range x(z1, z2, A); s_rowcol_range y(A, z3, z4); return x.can_apply(B) && y.can_apply(B); }
bool vp_rg_can_s(X6, int z1, int z2, int z3, int z4) { return z1 < r && z2 <= r && z3 < c && z4 <= c; }
L vp_rg_univ_i(X6, bool f) { A6; return A._universal_range_BiR_aware(f); } L vp_rg_univ_s(X6, bool f) { return e && b && f ? L(c) : (b ? L(r) * c : L(r) * (L(c) - (f && e))); }
bool vp_rg_same_i(X6, D* q, int r2, int c2) { A6; MX B(q, r2, c2); return IsSameSizeNumel(A, B) ; } bool vp_rg_same_s(X6, D* q, int r2, int c2) { return r == r2 && c == c2; }
// a worker's share of a job
struct PRO { L o, c, e, t; };
RG(prN, (PRO* o, L n), threads::parallel_range<numel_cnt_t> p(n); o->o = p.offset(); o->c = p.cnt(); o->e = p.end(); o->t = p.tid(), o->o = 0; o->c = n; o->e = n; o->t = 0)
RG(pr0, (PRO* o, L n), threads::parallel_range<numel_cnt_t> p; o->o = p.offset(); o->c = p.cnt(); o->e = p.end(); o->t = p.tid(), o->o = 0; o->c = 0; o->e = 0; o->t = 0)
RG(pr3, (PRO* o, L z, L n, int z2), threads::parallel_range<numel_cnt_t> p(z, n, z2); o->o = p.offset(); o->c = p.cnt(); o->e = p.end(); o->t = p.tid(), o->o = z; o->c = n; o->e = z + n; o->t = z2)
RG(prSet, (PRO* o, L z, L n, int z2, L z3, L n3), threads::parallel_range<numel_cnt_t> p(z, n, z2); p.offset(z3).cnt(n3); o->o = p.offset(); o->c = p.cnt(); o->e = p.end(); o->t = p.tid(), o->o = z3; o->c = n3; o->e = z3 + n3; o->t = z2)
}
