#include "kern.h"
#include <algorithm>
#define V1(N,X,SIG,DECL,CALL) extern "C" { void vp_##N##_i_##X SIG { m.vp_reset(); DECL; m.CALL; } }
#define V0(N,SIG,DECL,CALL) extern "C" { void vp_##N##_i SIG { m.vp_reset(); DECL; m.CALL; } }
#define SP(N,SIG,...) extern "C" { void vp_##N##_s SIG { m.vp_reset(); __VA_ARGS__; } }
#define RV (MN& m, D* a, D* v, int r, int c)
// row norms; with two or more parts every worker adds up its own columns and the parts are added afterwards
V1(l2,st,RV,MTX(A,a,r,c),mrwL2NormSquared_st(A,v)) V1(l2,mt,RV,MTX(A,a,r,c),mrwL2NormSquared_mt(A,v)) V0(l2,RV,MTX(A,a,r,c),mrwL2NormSquared(A,v))
SP(l2,RV, for(L i=0;i<r;++i) { D s=0; for(L j=0;j<c;++j) s+=a[i+j*L(r)]*a[i+j*L(r)]; v[i]=s; })
// clip / set the norm of every row (with or without its bias weight)
#define RN (MN& m, D* a, D x, int r, int c)
V1(cn,st,RN,MTD(A,a,r,c),mCheck_normalize_rows_st(A,x,true)) V1(cn,mt,RN,MTD(A,a,r,c),mCheck_normalize_rows_mt(A,x,true)) V0(cn,RN,MTD(A,a,r,c),mCheck_normalize_rows(A,x,true))
SP(cn,RN, for(L i=0;i<r;++i) { D s=0; for(L j=0;j<c;++j) s+=a[i+j*L(r)]*a[i+j*L(r)]; vp_tmp0[i] = s > x ? std::sqrt(x/s) : D(1); } for(L j=0;j<c;++j) for(L i=0;i<r;++i) a[i+j*L(r)] *= vp_tmp0[i]; )
V1(cnb,st,RN,MTD(A,a,r,c+1),mCheck_normalize_rows_st(A,x,false)) V1(cnb,mt,RN,MTD(A,a,r,c+1),mCheck_normalize_rows_mt(A,x,false)) V0(cnb,RN,MTD(A,a,r,c+1),mCheck_normalize_rows(A,x,false))
SP(cnb,RN, for(L i=0;i<r;++i) { D s=0; for(L j=0;j<c;++j) s+=a[i+j*L(r)]*a[i+j*L(r)]; vp_tmp0[i] = s > x ? std::sqrt(x/s) : D(1); } for(L j=0;j<=c;++j) for(L i=0;i<r;++i) a[i+j*L(r)] *= vp_tmp0[i]; )
V1(sn,st,RN,MTD(A,a,r,c),mrwSetL2Norm_st(A,x,true)) V1(sn,mt,RN,MTD(A,a,r,c),mrwSetL2Norm_mt(A,x,true)) V0(sn,RN,MTD(A,a,r,c),mrwSetL2Norm(A,x,true)) V1(sn,sm,RN,MTX(A,a,r,c),mrwSetL2Norm(A,x,true))
SP(sn,RN, for(L i=0;i<r;++i) { D s=0; for(L j=0;j<c;++j) s+=a[i+j*L(r)]*a[i+j*L(r)]; vp_tmp0[i] = std::sqrt(x/s); } for(L j=0;j<c;++j) for(L i=0;i<r;++i) a[i+j*L(r)] *= vp_tmp0[i]; )
V1(snb,st,RN,MTD(A,a,r,c+1),mrwSetL2Norm_st(A,x,false)) V1(snb,mt,RN,MTD(A,a,r,c+1),mrwSetL2Norm_mt(A,x,false)) V0(snb,RN,MTD(A,a,r,c+1),mrwSetL2Norm(A,x,false)) V1(snb,sm,RN,MTX(A,a,r,c+1),mrwSetL2Norm(A,x,false))
SP(snb,RN, for(L i=0;i<r;++i) { D s=0; for(L j=0;j<c;++j) s+=a[i+j*L(r)]*a[i+j*L(r)]; vp_tmp0[i] = std::sqrt(x/s); } for(L j=0;j<=c;++j) for(L i=0;i<r;++i) a[i+j*L(r)] *= vp_tmp0[i]; )
// softmax parts
#define SM (MN& m, const D* a, const D* mx, D* den, D* num, int r, int c)
V1(sp,st_rw,SM,MTX(A,a,r,c),softmax_parts_st_rw(A,mx,den,num)) V1(sp,st_cw,SM,MTX(A,a,r,c),softmax_parts_st_cw(A,mx,den,num)) V1(sp,st,SM,MTX(A,a,r,c),softmax_parts_st(A,mx,den,num))
V1(sp,mt_rw,SM,MTX(A,a,r,c),softmax_parts_mt_rw(A,mx,den,num)) V1(sp,mt_cw,SM,MTX(A,a,r,c),softmax_parts_mt_cw(A,mx,den,num)) V1(sp,mt,SM,MTX(A,a,r,c),softmax_parts_mt(A,mx,den,num)) V0(sp,SM,MTX(A,a,r,c),softmax_parts(A,mx,den,num))
SP(sp,SM, for(L i=0;i<r;++i) { D s=0; for(L j=0;j<c;++j) { const D e=std::exp(a[i+j*L(r)]-mx[i]); s+=e; num[i+j*L(r)]=e; } den[i]=s; })
// row sums in place (first column receives the row sums)
#define RI (MN& m, D* a, int r, int c)
V1(rsi,st,RI,MTX(A,a,r,c+1),mrwSum_ip_st(A)) V1(rsi,st_cw,RI,MTX(A,a,r,c+1),mrwSum_ip_st_cw(A)) V1(rsi,st_rws,RI,MTX(A,a,r,c+1),mrwSum_ip_st_rw_small(A)) V1(rsi,st_rw,RI,MTX(A,a,r,c+1),mrwSum_ip_st_rw(A))
V1(rsi,mt_rw,RI,MTX(A,a,r,c+1),mrwSum_ip_mt_rw(A)) V1(rsi,mt_cw,RI,MTX(A,a,r,c+1),mrwSum_ip_mt_cw(A)) V1(rsi,mt,RI,MTX(A,a,r,c+1),mrwSum_ip_mt(A)) V0(rsi,RI,MTX(A,a,r,c+1),mrwSum_ip(A))
SP(rsi,RI, for(L i=0;i<r;++i) { D s=a[i]; for(L j=0;j<c;++j) s+=a[i+(j+1)*L(r)]; a[i]=s; })

// column means
#define CM(NS,X) V1(cm,X##_st,RV,MTX(A,a,r,c),template mcwMean_st<NS>(A,v)) V1(cm,X##_mt,RV,MTX(A,a,r,c),template mcwMean_mt<NS>(A,v)) V1(cm,X,RV,MTX(A,a,r,c),template mcwMean<NS>(A,v)) \
 V1(dm,X##_st,RI,MTX(A,a,r,c),template mcwDeMean_st<NS>(A)) V1(dm,X##_mt,RI,MTX(A,a,r,c),template mcwDeMean_mt<NS>(A)) V1(dm,X,RI,MTX(A,a,r,c),template mcwDeMean<NS>(A)) \
 V1(dz,X##_st,RN,MTX(A,a,r,c),template mcwDeMeanNZ_st<NS>(A,x)) V1(dz,X##_mt,RN,MTX(A,a,r,c),template mcwDeMeanNZ_mt<NS>(A,x)) V1(dz,X,RN,MTX(A,a,r,c),template mcwDeMeanNZ<NS>(A,x))
CM(true,ns) CM(false,s)
SP(cm,RV, for(L j=0;j<c;++j) { D s=0; for(L i=0;i<r;++i) s+=a[i+j*L(r)]; v[j]=D(double(s)/double(r)); })
SP(dm,RI, for(L j=0;j<c;++j) { D s=0; for(L i=0;i<r;++i) s+=a[i+j*L(r)]; const D q=D(double(s)/double(r)); for(L i=0;i<r;++i) a[i+j*L(r)]-=q; })
SP(dz,RN, for(L j=0;j<c;++j) { D s=0; L n=0; for(L i=0;i<r;++i) { const D v=a[i+j*L(r)]; const bool b=v!=x; s+=b?v:D(0); n+=b; } const D q=D(double(s)/double(n)-double(x)); for(L i=0;i<r;++i) { const D v=a[i+j*L(r)]; a[i+j*L(r)]=(v==x)?x:v-q; } })
#define RVc (MN& m, D* a, const D* v, int r, int c)
V1(cs,st,RVc,MTX(A,a,r,c),mcwSub_ip_st(A,v)) V1(cs,mt,RVc,MTX(A,a,r,c),mcwSub_ip_mt(A,v)) V0(cs,RVc,MTX(A,a,r,c),mcwSub_ip(A,v))
SP(cs,RVc, for(L j=0;j<c;++j) for(L i=0;i<r;++i) a[i+j*L(r)]-=v[j])
#define DG MTX(A,a,r,c); MTX(B,v,c,c)
V1(cd,st,RVc,DG,mcwMulDiag_ip_st(A,B)) V1(cd,mt,RVc,DG,mcwMulDiag_ip_mt(A,B)) V0(cd,RVc,DG,mcwMulDiag_ip(A,B))
SP(cd,RVc, for(L j=0;j<c;++j) for(L i=0;i<r;++i) a[i+j*L(r)]*=v[j+j*L(c)])
#define CC MTX(A,a,r,1); MTX(Dst,v,r,c)
V1(cc,st,RV,CC,mCloneCol_st(A,Dst)) V1(cc,mt,RV,CC,mCloneCol_mt(A,Dst)) V0(cc,RV,CC,mCloneCol(A,Dst))
SP(cc,RV, for(L j=0;j<c;++j) for(L i=0;i<r;++i) v[i+j*L(r)]=a[i])
