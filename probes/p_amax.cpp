#include "kern.h"
#define V1(N,X,SIG,DECL,CALL) extern "C" { void vp_##N##_i_##X SIG { m.vp_reset(); DECL; m.CALL; } }
#define SP(N,SIG,...) extern "C" { void vp_##N##_s SIG { m.vp_reset(); __VA_ARGS__; } }
// the column of the greatest element of each row: the first one if it occurs several times
#define AM (MN& m, D* a, int* v, int r, int c)
V1(am,st_rw,AM,MTX(A,a,r,c),mrwIdxsOfMax_st_rw(A,v)) V1(am,st_rws,AM,MTX(A,a,r,c),mrwIdxsOfMax_st_rw_small(A,v)) V1(am,st_cw,AM,MTX(A,a,r,c),mrwIdxsOfMax_st_cw(A,v)) V1(am,st,AM,MTX(A,a,r,c),mrwIdxsOfMax_st(A,v))
V1(am,mt_rw,AM,MTX(A,a,r,c),mrwIdxsOfMax_mt_rw(A,v))
SP(am,AM, for(L i=0;i<r;++i) { D x=a[i]; int k=0; for(L j=1;j<c;++j) { const D y=a[i+j*L(r)]; if (y > x) { x=y; k=int(j); } } v[i]=k; })
// dispatching forms (the form that splits columns between workers is checked below)
class M3 final : public math::_MathN<real_t, StubThreads, imem::imemmgr, math::_impl::MATHN_THR<real_t>, M3, VP_BLAS> {
public:
	long vp_depth; void vp_reset() { vp_depth = 0; } real_t* _istor_alloc(const numel_cnt_t n)noexcept { return vp_tmp0; } void _istor_free(real_t* const p, const numel_cnt_t n)noexcept {}
	void mrwIdxsOfMax_mt_cw(const MX& A, vec_len_t*const d)noexcept { mrwIdxsOfMax_st_rw(A, d); }
};
#undef AM
#define AM (M3& m, D* a, int* v, int r, int c)
V1(am,mt,AM,MTX(A,a,r,c),mrwIdxsOfMax_mt(A,v)) V1(am,d,AM,MTX(A,a,r,c),mrwIdxsOfMax(A,v))
// several workers: the parts need not come in the order of their columns (the caller's thread works on the last one and is the first)
extern "C" { __attribute__((const)) D vp_pm(long b, long e, long r) noexcept; __attribute__((const)) int vp_pi(long b, long e, long r) noexcept; __attribute__((const)) long vp_oo(long) noexcept; }
struct P2 : public StubThreads { static thread_id_t workers_count()noexcept { return 2; } thread_id_t cur_workers_count()const noexcept { return 2; }
	template<typename F> void run(F&& f, const range_t cnt, const thread_id_t n = 0, thread_id_t* pu = nullptr)noexcept { if (pu) *pu = 2; const long o = vp_oo(cnt); f(par_range_t(o, cnt - o, 0)); f(par_range_t(0, o, 1)); } };
class M2 final : public math::_MathN<real_t, P2, imem::imemmgr, math::_impl::MATHN_THR<real_t>, M2, VP_BLAS> {
public:
	real_t* _istor_alloc(const numel_cnt_t n)noexcept { return vp_tmp0; } void _istor_free(real_t* const p, const numel_cnt_t n)noexcept {}
	void mrwIdxsOfMax_st(const MX& A, vec_len_t*const d, real_t*const x, const math::s_rowcol_range*const R)noexcept { for (int r = 0; r < A.rows(); ++r) { x[r] = vp_pm(R->colBegin, R->colEnd, r); d[r] = vp_pi(R->colBegin, R->colEnd, r); } }
};
#define PARTS(R, C) extern "C" void vp_ap##R##_i(M2& m, D* a, int* v) { MTX(A, a, R, C); m.mrwIdxsOfMax_mt_cw(A, v); } \
 extern "C" void vp_ap##R##_s(M2& m, D* a, int* v) { const int o = int(vp_oo(C)); for (int r = 0; r < R; ++r) { const D x = vp_pm(o, C, r), y = vp_pm(0, o, r); const int i = vp_pi(o, C, r), j = vp_pi(0, o, r); v[r] = y > x ? j : (y == x && j < i) ? j : i; } }
PARTS(1, 40)
