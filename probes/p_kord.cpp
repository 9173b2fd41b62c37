// flags: -fno-access-control
#ifndef NTYPE
#define NTYPE double
#endif
#include "kern.h"
#include "nntl/interface/math/_mcwFindKOrdered_hlpr.h"
typedef nntl::math::mcwFindKOrdered_hlpr_base<real_t> HB;
template<template<class> class O> using H = nntl::math::mcwFindKOrdered_hlpr<real_t, O>;
constexpr bool SameSz = sizeof(real_t) == sizeof(vec_len_t);
extern "C" {
int vp_numel_i(int n) { return HB::hlprmtx_numel_for_k(n); }
int vp_numel_s(int n) { return SameSz ? 2*n : n + int((unsigned long)(n*4ul + 7)/8); }
int vp_k_i(int n) { return HB::get_k_for_hlpr_rows(n); }
int vp_k_s(int n) { return SameSz ? n/2 : int((unsigned long)n*8/12); }
int vp_kof_i(const HB::hlprmtx_t& m) { return HB::get_k(m); }
int vp_kof_s(const HB::hlprmtx_t& m) { return SameSz ? m.rows()/2 : int((unsigned long)L(m.rows())*8/12); }
void vp_hsz_i(int n, int c, int* o) { const auto s = HB::hlprmtx_size_for(n, c); o[0] = s.first; o[1] = s.second; }
void vp_hsz_s(int n, int c, int* o) { o[0] = vp_numel_s(n); o[1] = c; }
bool vp_fine_i(const HB::hlprmtx_t& h, const MX& s) { return HB::is_hlprmtx_fine_for(h, s); }
bool vp_fine_s(const HB::hlprmtx_t& h, const MX& s) { return !h.empty() && !h.emulatesBiases() && vp_kof_s(h) > 0 && s.cols_no_bias() == h.cols(); }
const void* vp_pi_i(D* p, int n) { return HB::get_idxs_ptr_from_column_ptr(p, n); }
const void* vp_pi_i_c(const D* p, int n) { return HB::get_idxs_ptr_from_column_ptr(p, n); }
const void* vp_pi_s(const D* p, int n) { return p + n; }
const void* vp_pc_i(D* p, int n) { return HB::get_cache_ptr_from_column_ptr(p, n); }
const void* vp_pc_i_c(const D* p, int n) { return HB::get_cache_ptr_from_column_ptr(p, n); }
const void* vp_pc_s(const D* p, int n) { return p; }
}
#define ORD(N, T, OP, EXT) extern "C" { bool vp_fb##N##_i(const D& a, const D& b) { return nntl::math::T<D>::first_better(a,b); } bool vp_fb##N##_s(const D& a, const D& b) { return a OP b; } \
 D vp_me##N##_i() { return nntl::math::T<D>::most_extreme(); } D vp_me##N##_s() { return EXT; } \
 bool vp_hok##N##_i(const D* p, int n, int c) { HB::hlprmtx_t h(const_cast<D*>(p), SameSz?4:3, c); return H<nntl::math::T>::is_hlprmtx_ok(h); } \
 bool vp_hok##N##_s(const D* p, int n, int c) { for (L j=0;j<c;++j) if (!(p[j*(SameSz?4:3)+1] OP p[j*(SameSz?4:3)])) return false; return true; } }
ORD(0, Order_BiggestDistinct, >, std::numeric_limits<D>::lowest()) ORD(1, Order_Biggest, >=, std::numeric_limits<D>::lowest()) ORD(2, Order_SmallestDistinct, <, std::numeric_limits<D>::max()) ORD(3, Order_Smallest, <=, std::numeric_limits<D>::max())
// ---- collecting the results of several batches
template<template<class> class O> struct Ag : public H<O>::Aggregator { typedef typename H<O>::Aggregator::DatasetElement E; };
typedef Ag<nntl::math::Order_Biggest> AG; typedef Ag<nntl::math::Order_SmallestDistinct> AGS;
struct El { L b; D v; int i; };
static_assert(sizeof(El) == sizeof(AG::E), "layout");
#define KH(X,p,n,c) HB::hlprmtx_t X(const_cast<D*>(p), n, c)
#define LEND(A,e,n,c) AG A; A.m_allData.useExternalStorage((AG::E*)e, n, c)
template<int K> inline void agn_s(const D* h, El* e, L c, L bi) {
	const L ld = SameSz ? 2*K : K + (K*4+7)/8;
	for (L j=0;j<c;++j) { const D* v = h + j*ld; const int* x = (const int*)(v+K); El* p = e + j*K; El o[K]; for (int i=0;i<K;++i) o[i]=p[i];
		int up = 0; for (int i=K-1;i>=0;--i) { if (x[i] >= 0) { p[i].b = bi; p[i].v = v[i]; p[i].i = x[i]; ++up; } else { p[i] = o[i+up < K ? i+up : K-1]; } } } }
extern "C" {
bool vp_ag0_i(const D* h, int c, AG& a) { KH(X,h,SameSz?6:5,c); return a.aggregate(X, 0); }
bool vp_ag0_s(const D* h, int c, AG& a) {
	if (a.m_allData.rows() != 3 || a.m_allData.cols() != c) { a.m_allData.resize(3, c, nntl::math::tag_noBias()); if (a.m_allData.isAllocationFailed()) return false; }
	for (L j=0;j<c;++j) { const D* const hv = h + j*(SameSz?6:5); El* const e = (El*)a.m_allData.colDataAsVec(j); for (int i=0;i<3;++i) { e[i].b=0; e[i].v=hv[i]; e[i].i=((const int*)(hv+3))[i]; } } return true; }
bool vp_ag1_i(const D* h, El* e, long nb) { LEND(A,e,1,1); KH(X,h,2,1); return A.aggregate(X, nb); }
bool vp_ag1_s(const D* h, El* e, long nb) { if (((const int*)(h+1))[0] >= 0) { e->b = nb; e->v = h[0]; e->i = ((const int*)(h+1))[0]; } return true; }
bool vp_ag2_i(const D* h, El* e, long nb) { LEND(A,e,2,1); KH(X,h,SameSz?4:3,1); return A.aggregate(X, nb); }
bool vp_ag2_s(const D* h, El* e, long nb) { agn_s<2>(h, e, 1, nb); return true; }
bool vp_ag3_i(const D* h, El* e, long nb) { LEND(A,e,3,1); KH(X,h,SameSz?6:5,1); return A.aggregate(X, nb); }
bool vp_ag3_s(const D* h, El* e, long nb) { agn_s<3>(h, e, 1, nb); return true; }
bool vp_agx_i(const El* e, int n, int c, MX& o) { LEND(A,const_cast<El*>(e),n,c); return A.export_values(o); }
bool vp_agx_s(const El* e, int n, int c, MX& o) { if (!o.empty()) o.clear(); o.dont_emulate_biases(); o.set_batchInRow(false); if (!o.resize(n,c)) return false; for (L j=0;j<c;++j) for (L i=0;i<n;++i) o.data()[j*n+i] = e[j*n+n-1-i].v; return true; }
bool vp_ao_agf(int c, int r, D v, int i);
bool vp_agb_i(const El* e, int n, int c, long zb) { LEND(A,const_cast<El*>(e),n,c); return A.for_batchIdx(zb, [](int c_, int r, D v, int i)noexcept { return vp_ao_agf(c_, r, v, i); }); }
bool vp_agb_s(const El* e, int n, int c, long zb) { for (L j=0;j<c;++j) for (L i=0;i<n;++i) { const El& x = e[j*n+n-1-i]; if (zb == x.b) { if (!vp_ao_agf(int(j), int(i), x.v, x.i)) return false; } } return true; }
}

// ---- one batch of values offered to the list of the k best per column: k = 1, 2, 3 and one or two values per column
template<template<class> class O, int K> inline void kstep(const D v, const int row, D* q, int* x, bool bNonStrict) {
	typedef O<D> F; if (!F::first_better(v, q[0])) return;
	int at = K-1; for (int i=K-1;i>=1;--i) if (F::first_better(q[i], v)) at = i-1;
	if (!bNonStrict && !F::first_better(v, q[at])) return;
	for (int i=0;i<at;++i) { q[i]=q[i+1]; x[i]=x[i+1]; } q[at]=v; x[at]=row; }
template<template<class> class O, int K, int R> inline void kref(const D* a, D* h, L c, bool next) {
	const L ld = SameSz ? 2*K : K + (K*4+7)/8; const bool ns = O<D>::first_better(D(0), D(0));
	for (L j=0;j<c;++j) { D* q = h+j*ld; int* x = (int*)(q+K); const D* s = a + j*R; for (int i=0;i<K;++i) x[i]=-1; if (!next) for (int i=0;i<K;++i) q[i]=O<D>::most_extreme(); for (int r=0;r<R;++r) kstep<O,K>(s[r], r, q, x, ns); } }
#define KS(N,T,FN,K,R) extern "C" { void vp_ks##N##K##R##_i(MN& m, const D* a, D* h, int c, bool next) { MTX(A,a,R,c); KH(X,h,(SameSz?2*K:K+(K*4+7)/8),c); m.FN(A, X, next); } \
 void vp_ks##N##K##R##_s(MN& m, const D* a, D* h, int c, bool next) { kref<nntl::math::T,K,R>(a,h,c,next); } }
#define KA(N,T,FN) KS(N,T,FN,1,1) KS(N,T,FN,1,2)
KA(0,Order_BiggestDistinct,mcwFindKBiggestDistinct) KA(1,Order_Biggest,mcwFindKBiggest) KA(2,Order_SmallestDistinct,mcwFindKSmallestDistinct) KA(3,Order_Smallest,mcwFindKSmallest)
