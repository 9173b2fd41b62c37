#define NTYPE double
#include "stub.h"
typedef math::MathN<real_t, StubThreads, imem::imemmgr> MN;
typedef smatrix<double> MX; typedef long L; typedef double D;
#define MA MX A(const_cast<D*>(a), r, c, false, false)
#define MAB MX A(const_cast<D*>(a), r, c, true, true)
#define MB MX B(const_cast<D*>(b), r, c, false, false)
#define EXP(K) extern "C" K
// ---- ewSumProd
#define F(n) D vp_ewSumProd_##n(MN& m, const D* a, const D* b, int r, int c)
extern "C" {
F(i_st){ MA; MB; return m.ewSumProd_st(A,B);}  F(i_mt){ MA; MB; return m.ewSumProd_mt(A,B);}  F(i){ MA; MB; return m.ewSumProd(A,B);}
F(s){ D s=0; for(L i=0;i<L(r)*c;++i) s+=a[i]*b[i]; return s; }
#undef F
#define F(n) D vp_ewSumSquares_##n(MN& m, const D* a, int r, int c)
F(i_st){ MA; return m.ewSumSquares_st(A);}  F(i_mt){ MA; return m.ewSumSquares_mt(A);}  F(i){ MA; return m.ewSumSquares(A);}
F(i_stn){ MA; return m.ewSumSquares_st_ns(A);}  F(i_mtn){ MA; return m.ewSumSquares_mt_ns(A);}  F(i_n){ MA; return m.ewSumSquares_ns(A);}
F(s){ D s=0; for(L i=0;i<L(r)*c;++i) s+=a[i]*a[i]; return s; }
#undef F
#define F(n) D vp_ewSumSquaresV_##n(MN& m, const D* a, L k)
F(i_st){ return m.ewSumSquares_st(a,k);}  F(i_mt){ return m.ewSumSquares_mt(a,k);}  F(i){ return m.ewSumSquares(a,k);}
F(i_stn){ return m.ewSumSquares_st_ns(a,k);}  F(i_mtn){ return m.ewSumSquares_mt_ns(a,k);}  F(i_n){ return m.ewSumSquares_ns(a,k);}
F(s){ D s=0; for(L i=0;i<k;++i) s+=a[i]*a[i]; return s; }
#undef F
#define F(n) void vp_mrwDivideByVec_##n(MN& m, D* a, const D* v, int r, int c)
F(i_st_cw){ MA; m.mrwDivideByVec_st_cw(A,v);}  F(i_st_rw){ MA; m.mrwDivideByVec_st_rw(A,v);} F(i_mt_cw){ MA; m.mrwDivideByVec_mt_cw(A,v);} F(i_mt_rw){ MA; m.mrwDivideByVec_mt_rw(A,v);} F(i){ MA; m.mrwDivideByVec(A,v);} 
F(i_st){ MA; m.mrwDivideByVec_st(A,v);} F(i_mt){ MA; m.mrwDivideByVec_mt(A,v);} 
F(s){ for(L j=0;j<c;++j) for(L i=0;i<r;++i) a[i+j*L(r)] /= v[i]; }
#undef F
#define F(n) void vp_mrwMulByVec_##n(MN& m, D* a, const D* v, int r, int c)
F(i_st_cw){ MA; m.mrwMulByVec_st_cw(A,v);}  F(i_st_rw){ MA; m.mrwMulByVec_st_rw(A,v);} F(i_mt_cw){ MA; m.mrwMulByVec_mt_cw(A,v);} F(i_mt_rw){ MA; m.mrwMulByVec_mt_rw(A,v);} F(i){ MA; m.mrwMulByVec(A,v);} 
F(i_st){ MA; m.mrwMulByVec_st(A,v);} F(i_mt){ MA; m.mrwMulByVec_mt(A,v);} 
F(s){ for(L j=0;j<c;++j) for(L i=0;i<r;++i) a[i+j*L(r)] *= v[i]; }
#undef F
#define F(n) void vp_mrwSum_##n(MN& m, D* a, D* v, int r, int c)
F(i_st_cw){ MA; m.mrwSum_st_cw(A,v);}  F(i_st_rw){ MA; m.mrwSum_st_rw(A,v);} F(i_mt_rw){ MA; m.mrwSum_mt_rw(A,v);} F(i_st){ MA; m.mrwSum_st(A,v);} 
F(s){ for(L i=0;i<r;++i) { D s=0; for(L j=0;j<c;++j) s+=a[i+j*L(r)]; v[i]=s;} }
#undef F
#define F(n) void vp_mrwMax_##n(MN& m, D* a, D* v, int r, int c)
F(i_st_cw){ MA; m.mrwMax_st_cw(A,v);}  F(i_st_rw){ MA; m.mrwMax_st_rw(A,v);} F(i_st_rws){ MA; m.mrwMax_st_rw_small(A,v);} F(i_mt_rw){ MA; m.mrwMax_mt_rw(A,v);} F(i){ MA; m.mrwMax(A,v);} 
F(s){ for(L i=0;i<r;++i) { D s=a[i]; for(L j=1;j<c;++j) if(a[i+j*L(r)]>s) s=a[i+j*L(r)]; v[i]=s;} }
#undef F
}
