// flags: -fno-access-control
#define VP_WHOLE
#ifndef NTYPE
#define NTYPE double
#endif
#include "kern.h"
#include "nntl/interface/math/_mcwFindKOrdered_hlpr.h"
typedef nntl::math::mcwFindKOrdered_hlpr_base<real_t> HB;
template<template<class> class O> using H = nntl::math::mcwFindKOrdered_hlpr<real_t, O>;
constexpr bool SameSz = sizeof(real_t) == sizeof(vec_len_t);
#define KH(X,p,n,c) HB::hlprmtx_t X(const_cast<D*>(p), n, c)
// ---- one batch of values offered to the list of the k best per column: k = 1, 2, 3 and one or two values per column
template<template<class> class O, int K> inline void kstep(const D v, const int row, D* q, int* x, bool bNonStrict) {
	typedef O<D> F; if (!F::first_better(v, q[0])) return;
	int at = K-1; for (int i=K-1;i>=1;--i) if (F::first_better(q[i], v)) at = i-1;
	if (!bNonStrict && !F::first_better(v, q[at])) return;
	for (int i=0;i<at;++i) { q[i]=q[i+1]; x[i]=x[i+1]; } q[at]=v; x[at]=row; }
template<template<class> class O, int K, int R> inline void kref(const D* a, D* h, L c, bool next) {
	const L ld = SameSz ? 2*K : K + (K*4+7)/8; const bool ns = O<D>::first_better(D(0), D(0));
	for (L j=0;j<c;++j) { D* q = h+j*ld; int* x = (int*)(q+K); const D* s = a + j*R; for (int i=0;i<K;++i) x[i]=-1; if (!next) for (int i=0;i<K;++i) q[i]=O<D>::most_extreme(); for (int r=0;r<R;++r) kstep<O,K>(s[r], r, q, x, ns); } }
#define KS(N,T,FN,K,R) extern "C" { void vp_ks##N##K##R##_i(MN& m, const D* a, D* h, bool next) { MTX(A,a,R,1); KH(X,h,(SameSz?2*K:K+(K*4+7)/8),1); m.FN(A, X, next); } \
 void vp_ks##N##K##R##_s(MN& m, const D* a, D* h, bool next) { kref<nntl::math::T,K,R>(a,h,1,next); } }
#define KA(N,T,FN) KS(N,T,FN,1,1) KS(N,T,FN,2,1) KS(N,T,FN,1,3) KS(N,T,FN,2,2)
KA(0,Order_BiggestDistinct,mcwFindKBiggestDistinct) KA(1,Order_Biggest,mcwFindKBiggest) KA(2,Order_SmallestDistinct,mcwFindKSmallestDistinct) KA(3,Order_Smallest,mcwFindKSmallest)
