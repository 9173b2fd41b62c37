#include "kern.h"
extern "C" {
#define FOR for(L i=0;i<L(r)*c;++i)
// in-place unary/scalar kernels:  NAME(args...) as st/mt/dispatch
#define EW3(name, sig, decl, call_st, call_mt, call, spec) \
 void vp_##name##_i_st sig { m.vp_reset(); decl; m.call_st; } void vp_##name##_i_mt sig { m.vp_reset(); decl; m.call_mt; } void vp_##name##_i sig { m.vp_reset(); decl; m.call; } void vp_##name##_s sig { m.vp_reset(); spec; }
#define PA (MN& m, D* a, int r, int c)
#define PAB (MN& m, D* a, const D* b, int r, int c)
#define PABx (MN& m, D* a, const D* b, D x, int r, int c)
#define DA MTX(A,a,r,c)
#define DAB MTX(A,a,r,c); MTX(B,b,r,c)
#define DAbB MTXB(A,a,r,c); MTX(B,b,r,c)
EW3(ewBinarize_ip, (MN& m, D* a, D x, D lo, D hi, int r, int c), DA, ewBinarize_ip_st(A,x,lo,hi), ewBinarize_ip_mt(A,x,lo,hi), ewBinarize_ip(A,x,lo,hi), FOR a[i]= a[i]>x?hi:lo)
EW3(ewBinarize_ipB, (MN& m, D* a, D x, D lo, D hi, int r, int c), MTXB(A,a,r,c), ewBinarize_ip_st(A,x,lo,hi), ewBinarize_ip_mt(A,x,lo,hi), ewBinarize_ip(A,x,lo,hi), FOR a[i]= a[i]>x?hi:lo)
EW3(ewBinarize, (MN& m, unsigned char* d, const D* a, D x, int r, int c), DA; smatrix<unsigned char> Dst(d,r,c,false,false), ewBinarize_st(Dst,A,x), ewBinarize_mt(Dst,A,x), ewBinarize(Dst,A,x), FOR d[i]= a[i]>x?1:0)
EW3(ewBinarizeBatch, (MN& m, D* d, const D* a, D x, int z, int n, int r, int c), DA; MTX(Dst,d,r+z+n,c), ewBinarizeBatch_st(Dst,z,A,x), ewBinarizeBatch_mt(Dst,z,A,x), ewBinarizeBatch(Dst,z,A,x), for(L j=0;j<c;++j) for(L i=0;i<r;++i) d[z+i+j*L(r+z+n)]= a[i+j*L(r)]>x?1:0)
EW3(evClamp, (MN& m, D* a, D lo, D hi, int r, int c), DA, evClamp_st(A,lo,hi), evClamp_mt(A,lo,hi), evClamp(A,lo,hi), FOR a[i]= a[i]<lo?lo:(hi<a[i]?hi:a[i]))
EW3(make_dropout, (MN& m, D* a, D x, D* b, int r, int c), DAbB, make_dropout_st(A,x,B), make_dropout_mt(A,x,B), make_dropout(A,x,B), FOR { D dv = b[i]<x? 1/x : 0; a[i]*=dv; b[i]=dv; })
EW3(apply_dropout_mask, (MN& m, D* a, D x, const D* b, int r, int c), DAbB, apply_dropout_mask_st(A,x,B), apply_dropout_mask_mt(A,x,B), apply_dropout_mask(A,x,B), FOR a[i] = b[i]<x? a[i]:0)
EW3(make_alphaDropout, (MN& m, D* a, D x, D ka, D kb, D dv, D* b, int r, int c), DAbB, make_alphaDropout_st(A,x,ka,kb,dv,B), make_alphaDropout_mt(A,x,ka,kb,dv,B), make_alphaDropout(A,x,ka,kb,dv,B), FOR { bool k = b[i]<x; a[i] = k ? ka*a[i]+kb : dv; b[i] = k?ka:0; })
#define ILRSPEC FOR { D q = a[i]*b[i]; D gg = g[i]; if (q>0) { if (gg<hi) gg*=inc; } else if (q<0) { if (gg>lo) gg*=dec; } g[i]=gg; a[i]*=gg; }
EW3(apply_ILR, (MN& m, D* a, const D* b, D* g, D dec, D inc, D lo, D hi, int r, int c), DAB; MTX(G,g,r,c), apply_ILR_st_naive(A,B,G,dec,inc,lo,hi), apply_ILR_mt_naive(A,B,G,dec,inc,lo,hi), apply_ILR(A,B,G,dec,inc,lo,hi), ILRSPEC)
EW3(apply_momentum, PABx, DAB, apply_momentum_st(A,x,B), apply_momentum_mt(A,x,B), apply_momentum(A,x,B), FOR a[i]=x*a[i]+b[i])
EW3(evMulCAddC_ip, (MN& m, D* a, D x, D y, int r, int c), DA, evMulCAddC_ip_st(A,x,y,false), evMulCAddC_ip_mt(A,x,y,false), evMulCAddC_ip(A,x,y,false), FOR a[i]=a[i]*x+y)
EW3(evMulCAddC_ip_nb, (MN& m, D* a, D x, D y, int r, int c), MTXB(A,a,r,c), evMulCAddC_ip_st(A,x,y,true), evMulCAddC_ip_mt(A,x,y,true), evMulCAddC_ip_nb(A,x,y), FOR a[i]=a[i]*x+y)
EW3(evMulC_ipV, (MN& m, D* a, D x, long n), , evMulC_ip_st(a,n,x), evMulC_ip_mt(a,n,x), evMulC_ip(a,n,x), for(L i=0;i<n;++i) a[i]*=x)
EW3(evMulC_ip, (MN& m, D* a, D x, int r, int c), DA, evMulC_ip_st(A,x,false), evMulC_ip_mt(A,x,false), evMulC_ip(A,x,false), FOR a[i]*=x)
EW3(evMulC_ip_nb, (MN& m, D* a, D x, int r, int c), MTXB(A,a,r,c), evMulC_ip_st(A,x,true), evMulC_ip_mt(A,x,true), evMulC_ip_nb(A,x), FOR a[i]*=x)
EW3(evAddC_ip, (MN& m, D* a, D x, int r, int c), DA, evAddC_ip_st(A,x,false), evAddC_ip_mt(A,x,false), evAddC_ip(A,x,false), FOR a[i]+=x)
EW3(evAddC_ip_nb, (MN& m, D* a, D x, int r, int c), MTXB(A,a,r,c), evAddC_ip_st(A,x,true), evAddC_ip_mt(A,x,true), evAddC_ip_nb(A,x), FOR a[i]+=x)
EW3(evSubMtxMulC_ip_nb, PABx, DAbB, evSubMtxMulC_ip_nb_st(A,B,x), evSubMtxMulC_ip_nb_mt(A,B,x), evSubMtxMulC_ip_nb(A,B,x), FOR a[i]=(a[i]-b[i])*x)
EW3(evMul_ip, PAB, DAB, evMul_ip_st(A,B), evMul_ip_mt(A,B), evMul_ip(A,B), FOR a[i]*=b[i])
EW3(evMul_ip_Anb, PAB, DAbB, evMul_ip_Anb_st(A,B), evMul_ip_Anb_mt(A,B), evMul_ip_Anb(A,B), FOR a[i]*=b[i])
EW3(vAdd_ip, (MN& m, D* a, const D* b, long n), , vAdd_ip_st(a,b,n), vAdd_ip_mt(a,b,n), vAdd_ip(a,b,n), for(L i=0;i<n;++i) a[i]+=b[i])
EW3(evAdd_ip, PAB, DAB, evAdd_ip_st(A,B), evAdd_ip_mt(A,B), evAdd_ip(A,B), FOR a[i]+=b[i])
EW3(evAdd_Anb_ip, PAB, DAbB, evAdd_Anb_ip_st(A,B), evAdd_Anb_ip_mt(A,B), evAdd_Anb_ip(A,B), FOR a[i]+=b[i])
EW3(evAddScaled_ip, PABx, DAB, evAddScaled_ip_st(A,x,B), evAddScaled_ip_mt(A,x,B), evAddScaled_ip(A,x,B), FOR a[i]+=x*b[i])
EW3(evNZAddScaled_ip, PABx, DAB, evNZAddScaled_ip_st(A,x,B), evNZAddScaled_ip_mt(A,x,B), evNZAddScaled_ip(A,x,B), FOR if(a[i]!=0) a[i]+=x*b[i])
#define SGN(v) ((v)>0?D(1):((v)<0?D(-1):D(0)))
EW3(evAddScaledSign_ip, PABx, DAB, evAddScaledSign_ip_st(A,x,B), evAddScaledSign_ip_mt(A,x,B), evAddScaledSign_ip(A,x,B), FOR a[i]+=x*SGN(b[i]))
EW3(evNZAddScaledSign_ip, PABx, DAB, evNZAddScaledSign_ip_st(A,x,B), evNZAddScaledSign_ip_mt(A,x,B), evNZAddScaledSign_ip(A,x,B), FOR if(a[i]!=0) a[i]+=x*SGN(b[i]))
EW3(evSign, PAB, DAB, evSign_st(A,B), evSign_mt(A,B), evSign(A,B), FOR a[i]=SGN(b[i]))
EW3(evOneCompl, PAB, DAB, evOneCompl_st(B,A), evOneCompl_mt(B,A), evOneCompl(B,A), FOR a[i]=1-b[i])
EW3(evSub_ip, PAB, DAB, evSub_ip_st_naive(A,B), evSub_ip_mt_naive(A,B), evSub_ip(A,B), FOR a[i]-=b[i])
EW3(evSub, (MN& m, const D* a, const D* b, D* d, int r, int c), DAB; MTX(C,d,r,c), evSub_st_naive(A,B,C), evSub_mt_naive(A,B,C), evSub(A,B,C), FOR d[i]=a[i]-b[i])
EW3(evMulC_ip_Sub_ip, (MN& m, D* a, D x, D* b, int r, int c), DAB, evMulC_ip_Sub_ip_st(A,x,B), evMulC_ip_Sub_ip_mt(A,x,B), evMulC_ip_Sub_ip(A,x,B), FOR { D v=a[i]*x; a[i]=v; b[i]-=v; })
EW3(evSquare, PAB, DAB, evSquare_st(A,B), evSquare_mt(A,B), evSquare(A,B), FOR a[i]=b[i]*b[i])
EW3(evAbs, PAB, DAB, evAbs_st(A,B), evAbs_mt(A,B), evAbs(A,B), FOR a[i]=b[i]<0?-b[i]:b[i])
void vp_apply_ILR_i_stvec(MN& m, D* a, const D* b, D* g, D dec, D inc, D lo, D hi, int r, int c) { m.vp_reset(); DAB; MTX(G,g,r,c); m.apply_ILR_st_vec(A,B,G,dec,inc,lo,hi); }
void vp_apply_ILR_i_mtvec(MN& m, D* a, const D* b, D* g, D dec, D inc, D lo, D hi, int r, int c) { m.vp_reset(); DAB; MTX(G,g,r,c); m.apply_ILR_mt_vec(A,B,G,dec,inc,lo,hi); }
// reductions
D vp_vSumAbs_i_st(MN& m, const D* a, int r, int c) { DA; return m.vSumAbs_st(A); }
D vp_vSumAbs_i_mt(MN& m, const D* a, int r, int c) { DA; return m.vSumAbs_mt(A); }
D vp_vSumAbs_i(MN& m, const D* a, int r, int c) { DA; return m.vSumAbs(A); }
D vp_vSumAbs_s(MN& m, const D* a, int r, int c) { D s=0; FOR s+= a[i]<0?-a[i]:a[i]; return s; }
L vp_vCountNonZeros_i(MN& m, const D* a, L n) { return m.vCountNonZeros(a,n); }
L vp_vCountNonZeros_s(MN& m, const D* a, L n) { L s=0; for(L i=0;i<n;++i) if (a[i]!=0) ++s; return s; }
struct Vec { const int* p; L n; const int* data()const{return p;} L numel()const {return n;} L size()const {return n;} typedef int value_type; };
L vp_vCountSame_i(MN& m, const D* a, const D* b, int z, int r, int c) { MX A(const_cast<D*>(a), r+z, c,false,false); MTX(B,b,r,c); return m.vCountSame(A,B,z); }
L vp_vCountSame_i_mt(MN& m, const D* a, const D* b, int z, int r, int c) { MX A(const_cast<D*>(a), r+z, c,false,false); MTX(B,b,r,c); return m.vCountSame_mt_naive(A,B,z); }
L vp_vCountSame_s(MN& m, const D* a, const D* b, int z, int r, int c) { L s=0; FOR if(a[z+i]==b[i]) ++s; return s; }
L vp_vCountSameBatch_i(MN& m, const D* a, const D* b, int z, int n, int r, int c) { MX A(const_cast<D*>(a), r+z+n, c,false,false); MTX(B,b,r,c); return m.vCountSameBatch(A,z,B); }
L vp_vCountSameBatch_s(MN& m, const D* a, const D* b, int z, int n, int r, int c) { L s=0; for(L j=0;j<c;++j) for(L i=0;i<r;++i) if(a[z+i+j*L(r+z+n)]==b[i+j*L(r)]) ++s; return s; }
}
