#include "kern.h"
static inline D AB(D v) { return v < 0 ? -v : v; }
extern "C" {
#define FOR for(L i=0;i<L(r)*c;++i)
#define OPT(name, P, decl, call, spec) \
 void vp_##name##_i_st(MN& m, D* w, P int r, int c) { MTX(W,w,r,c); decl; m.name##_st call; } void vp_##name##_i_mt(MN& m, D* w, P int r, int c) { MTX(W,w,r,c); decl; m.name##_mt call; } void vp_##name##_i(MN& m, D* w, P int r, int c) { MTX(W,w,r,c); decl; m.name call; } \
 void vp_##name##_s(MN& m, D* w, P int r, int c) { spec; }
#define Q ,
OPT(RMSProp_Hinton, D* f Q D lr Q D ed Q D ns Q, MTX(F,f,r,c), (W,F,lr,ed,ns), FOR { const D g = w[i]; f[i] = ed*f[i] + (1-ed)*g*g; w[i] = lr*g/(std::sqrt(f[i]) + ns); })
OPT(RMSProp_Graves, D* f Q D* g Q D lr Q D ed Q D ns Q, MTX(F,f,r,c); MTX(G,g,r,c), (W,F,G,lr,ed,ns), FOR { const D v = w[i]; f[i] = ed*f[i] + (1-ed)*v*v; g[i] = ed*g[i] + (1-ed)*v; w[i] = lr*v/std::sqrt(f[i] - g[i]*g[i] + ns); })
OPT(RProp, D lr Q, , (W,lr), FOR w[i] = lr*(w[i] > 0 ? 1 : (w[i] < 0 ? -1 : 0)))
OPT(ModProp, D* f Q D lr Q D ed Q D ns Q, MTX(F,f,r,c), (W,F,lr,ed,ns), FOR { const D v = w[i]; f[i] = ed*f[i] + (1-ed)*AB(v); w[i] = lr*v/(f[i] + ns); })
OPT(Adam, D* mt Q D* vt Q D& b1t Q D& b2t Q D lr Q D b1 Q D b2 Q D ns Q, D x1 = b1t Q x2 = b2t; MTX(M,mt,r,c); MTX(V,vt,r,c), (W,M,V,x1,x2,lr,b1,b2,ns); b1t = x1; b2t = x2,
 const D q1 = b1t*b1 Q q2 = b2t*b2; const D al = lr*std::sqrt(1-q2)/(1-q1); FOR { const D g = w[i]; mt[i] = b1*mt[i] + (1-b1)*g; vt[i] = b2*vt[i] + (1-b2)*g*g; w[i] = al*mt[i]/(std::sqrt(vt[i]) + ns); } b1t = q1; b2t = q2)
OPT(AdaMax, D* mt Q D* ut Q D& b1t Q D lr Q D b1 Q D b2 Q D ns Q, D x1 = b1t; MTX(M,mt,r,c); MTX(U,ut,r,c), (W,M,U,x1,lr,b1,b2,ns); b1t = x1,
 const D q1 = b1t*b1; FOR { const D g = w[i]; mt[i] = b1*mt[i] + (1-b1)*g; const D u = b2*ut[i]; ut[i] = AB(g) < u ? u : AB(g); w[i] = lr/(1-q1)*mt[i]/(ut[i] + ns); } b1t = q1)
OPT(RNadam, D* mt Q D* nt Q D& mpt Q D& ept Q D lr Q D mu Q D eta Q D gm Q D ns Q, D x1 = mpt Q x2 = ept; MTX(M,mt,r,c); MTX(N,nt,r,c), (W,M,N,x1,x2,lr,mu,eta,gm,ns); mpt = x1; ept = x2,
 const D q1 = mpt*mu Q q2 = ept*eta; const D mut = (mu-q1)/(1-q1) Q ett = (eta-q2)/(1-q2); const D cm = gm == 0 ? mu*(1-q1)/(1-mu*q1) : 1-gm Q cg = gm == 0 ? 1-mut : gm;
 FOR { const D g = w[i]; nt[i] = ett*nt[i] + (1-ett)*g*g; mt[i] = mut*mt[i] + (1-mut)*g; w[i] = lr*(cm*mt[i] + cg*g)/(std::sqrt(nt[i]) + ns); } mpt = q1; ept = q2)
// a part of the parameters given as a range is updated without advancing the step counters
void vp_AdamR_i(MN& m, D* w, D* mt, D* vt, D& b1t, D& b2t, D lr, D b1, D b2, D ns, int r, int c, L z1, L z2) { D x1 = b1t, x2 = b2t; MTX(W,w,r,c); MTX(M,mt,r,c); MTX(V,vt,r,c); s_elems_range er(z1, z1+z2); m.Adam_st(W,M,V,x1,x2,lr,b1,b2,ns,&er); b1t = x1; b2t = x2; }
void vp_AdamR_s(MN& m, D* w, D* mt, D* vt, D& b1t, D& b2t, D lr, D b1, D b2, D ns, int r, int c, L z1, L z2) { const D q1 = b1t, q2 = b2t, al = lr*std::sqrt(1-q2)/(1-q1); for (L i = z1; i < z1+z2; ++i) { const D g = w[i]; mt[i] = b1*mt[i] + (1-b1)*g; vt[i] = b2*vt[i] + (1-b2)*g*g; w[i] = al*mt[i]/(std::sqrt(vt[i]) + ns); } b1t = q1; b2t = q2; }
}
