#pragma once
// stand-in interfaces: a math object whose operations are their specification (plain loops; optimizer steps are opaque functions of one element), a random
// generator that is an opaque effect on the matrix it fills, and an inspector that sees nothing
#include "kern.h"
#include "nntl/grad_works/grad_works.h"
#include "nntl/loss_addendum/DeCov.h"
#define PURE noexcept __attribute__((const))
extern "C" {
D vp_st(int opt, int out, D g, D a, D b, D b1t, D b2t, D lr, D b1, D b2, D gm, D ep) PURE;      // output `out` of one optimizer step of kind `opt` on one element
D vp_pw(int opt, int out, D b1t, D b2t, D b1, D b2, D gm) PURE;                                // running powers after the step
D vp_ilr(int out, D g, D prev, D gain, D dec, D inc, D lo, D hi) PURE;
void vp_ao_gen_norm(D*, long); void vp_ao_norm_rows(D*, int, int, D, bool); void vp_preinit(long); void vp_ao_decov(D*, const D*, int, int, int); D vp_decovl(const D*, int, int, int);
D vp_sumabs(const D*, long); D vp_sumsq(const D*, long);
}
struct RM : public math::_i_math<real_t> {
	typedef StubThreads iThreads_t; typedef imem::imemmgr iMemmgr_t; typedef ::real_t real_t;
	long depth = 0; StubThreads thr;
	real_t* _istor_alloc(const numel_cnt_t n)noexcept { const long d = depth++; return d == 0 ? vp_tmp0 : (d == 1 ? vp_tmp1 : vp_tmp2); }
	void _istor_free(real_t* const p, const numel_cnt_t n)noexcept { const long d = --depth; if (p != (d == 0 ? vp_tmp0 : (d == 1 ? vp_tmp1 : vp_tmp2))) vp_bad_release(d); }
	StubThreads& ithreads()noexcept { return thr; }
	void preinit(const numel_cnt_t n)noexcept { vp_preinit(n); }
#define LP(A) for (L i = 0, n = (A).numel(); i < n; ++i)
	void evMulC_ip(MX& A, const D c)noexcept { D* a = A.data(); LP(A) a[i] *= c; }
	void evMulC_ip_Sub_ip(MX& A, const D c, MX& W)noexcept { D* a = A.data(), *w = W.data(); LP(A) { a[i] *= c; w[i] -= a[i]; } }
	void evSquare(MX& A, const MX& S)noexcept { D* a = A.data(); const D* s = S.data(); LP(A) a[i] = s[i]*s[i]; }
	void evAbs(MX& A, const MX& S)noexcept { D* a = A.data(); const D* s = S.data(); LP(A) a[i] = s[i] < 0 ? -s[i] : s[i]; }
	void evSign(MX& A, const MX& S)noexcept { D* a = A.data(); const D* s = S.data(); LP(A) a[i] = math::sign(s[i]); }
	void evAdd_ip(MX& A, const MX& S)noexcept { D* a = A.data(); const D* s = S.data(); LP(A) a[i] += s[i]; }
	void evSub_ip(MX& A, const MX& S)noexcept { D* a = A.data(); const D* s = S.data(); LP(A) a[i] -= s[i]; }
	void evAddScaled_ip(MX& A, const D c, const MX& S)noexcept { D* a = A.data(); const D* s = S.data(); LP(A) a[i] += c*s[i]; }
	void evNZAddScaled_ip(MX& A, const D c, const MX& S)noexcept { D* a = A.data(); const D* s = S.data(); LP(A) if (a[i] != 0) a[i] += c*s[i]; }
	void evAddScaledSign_ip(MX& A, const D c, const MX& S)noexcept { D* a = A.data(); const D* s = S.data(); LP(A) a[i] += c*math::sign(s[i]); }
	void evNZAddScaledSign_ip(MX& A, const D c, const MX& S)noexcept { D* a = A.data(); const D* s = S.data(); LP(A) if (a[i] != 0) a[i] += c*math::sign(s[i]); }
	void apply_momentum(MX& V, const D m, const MX& S)noexcept { D* v = V.data(); const D* s = S.data(); LP(V) v[i] = m*v[i] + s[i]; }
	void apply_dropout_mask(MX& A, const D p, MX& M)noexcept { D* a = A.data(), *m = M.data(); LP(A) { m[i] = m[i] < p ? D(1)/p : D(0); a[i] *= m[i]; } }
	void mCheck_normalize_rows(MX& A, const D nrm, const bool b)noexcept { vp_ao_norm_rows(A.data(), A.rows(), A.cols(), nrm, b); }
	numel_cnt_t mCheck_normalize_rows_needTempMem(const MX& A)noexcept { return 7*A.numel(); }
	template<typename T> numel_cnt_t apply_ILR_needTempMem(const math::smatrix_td::mtx_size_t s)noexcept { return 9*L(s.first)*s.second; }
#define STP(k, G, A, B, b1t, b2t, lr, b1, b2, gm, ep) D* g = (G).data(); D* a = (A).data(); D* b = (B).data(); LP(G) { const D x = g[i], y = a[i], z = b[i]; a[i] = vp_st(k, 0, x, y, z, b1t, b2t, lr, b1, b2, gm, ep); b[i] = vp_st(k, 1, x, y, z, b1t, b2t, lr, b1, b2, gm, ep); g[i] = vp_st(k, 2, x, y, z, b1t, b2t, lr, b1, b2, gm, ep); }
#define STP1(k, G, A, lr, b1, ep) D* g = (G).data(); D* a = (A).data(); LP(G) { const D x = g[i], y = a[i]; a[i] = vp_st(k, 0, x, y, 0, 0, 0, lr, b1, 0, 0, ep); g[i] = vp_st(k, 2, x, y, 0, 0, 0, lr, b1, 0, 0, ep); }
	void RMSProp_Hinton(MX& G, MX& A, const D lr, const D b1, const D ep)noexcept { STP1(1, G, A, lr, b1, ep) }
	void RMSProp_Graves(MX& G, MX& A, MX& B, const D lr, const D b1, const D ep)noexcept { STP(2, G, A, B, 0, 0, lr, b1, 0, 0, ep) }
	void RProp(MX& G, const D lr)noexcept { D* g = G.data(); LP(G) g[i] = vp_st(3, 2, g[i], 0, 0, 0, 0, lr, 0, 0, 0, 0); }
	void ModProp(MX& G, MX& A, const D lr, const D b1, const D ep)noexcept { STP1(4, G, A, lr, b1, ep) }
	void Adam(MX& G, MX& A, MX& B, D& b1t, D& b2t, const D lr, const D b1, const D b2, const D ep)noexcept { const D p = b1t, q = b2t; b1t = vp_pw(5, 0, p, q, b1, b2, 0); b2t = vp_pw(5, 1, p, q, b1, b2, 0); STP(5, G, A, B, p, q, lr, b1, b2, 0, ep) }
	void AdaMax(MX& G, MX& A, MX& B, D& b1t, const D lr, const D b1, const D b2, const D ep)noexcept { const D p = b1t; b1t = vp_pw(6, 0, p, 0, b1, b2, 0); STP(6, G, A, B, p, 0, lr, b1, b2, 0, ep) }
	void RNadam(MX& G, MX& A, MX& B, D& b1t, D& b2t, const D lr, const D b1, const D b2, const D gm, const D ep)noexcept { const D p = b1t, q = b2t; b1t = vp_pw(7, 0, p, q, b1, b2, gm); b2t = vp_pw(7, 1, p, q, b1, b2, gm); STP(7, G, A, B, p, q, lr, b1, b2, gm, ep) }
	void apply_ILR(MX& G, const MX& P, MX& I, const D dec, const D inc, const D lo, const D hi)noexcept { D* g = G.data(); const D* p = P.data(); D* y = I.data(); LP(G) { const D a = g[i], b = p[i], c = y[i]; y[i] = vp_ilr(0, a, b, c, dec, inc, lo, hi); g[i] = vp_ilr(1, a, b, c, dec, inc, lo, hi); } }
	D vSumAbs(const MX& A)noexcept { const D* a = A.data(); D s = 0; LP(A) s += a[i] < 0 ? -a[i] : a[i]; return s; }
	D ewSumSquares(const MX& A)noexcept { const D* a = A.data(); D s = 0; LP(A) s += a[i]*a[i]; return s; }
	template<bool lo, bool ns> D loss_deCov(const MX& A)noexcept { return vp_decovl(A.data(), A.rows(), A.cols(), lo*2 + ns); }
	template<bool lo, bool ns> void dLoss_deCov(const MX& A, MX& O)noexcept { vp_ao_decov(O.data(), A.data(), A.rows(), A.cols(), lo*2 + ns); }
	numel_cnt_t loss_DeCov_needTempMem(const bool t, const math::smatrix_td::mtx_size_t s)noexcept { return (t ? 11 : 5)*L(s.first)*s.second; }
};
struct RR : public rng::_i_rng<real_t> { typedef StubThreads iThreads_t; typedef ::real_t real_t; void gen_matrix_norm(MX& A)noexcept { vp_ao_gen_norm(A.data(), A.numel()); } };
struct RI : public inspector::dummy<real_t> {};
struct RIG : public inspector::dummy<real_t> { typedef void gradcheck_inspector_t; };
template<class I> struct IFt { typedef ::real_t real_t; typedef StubThreads iThreads_t; typedef imem::imemmgr iMemmgr_t; typedef RM iMath_t; typedef RR iRng_t; typedef I iInspect_t; };
typedef IFt<RI> IF; typedef IFt<RIG> IFG;
