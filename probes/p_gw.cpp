// flags: -fno-access-control
#include "iface.h"
template<typename A, typename B, size_t C> using LAt = GW::_Loss_Addendums<A, B, C, std::tuple<loss_addendum::L1<B>, loss_addendum::L2<B>>>;
template<class I> struct Gt : public _grad_works<Gt<I>, I, GW::ILR, LAt> {
	typedef _grad_works<Gt<I>, I, GW::ILR, LAt> B;
	Gt(D lr)noexcept : B(lr) {}
};
typedef Gt<IF> G; typedef Gt<IFG> GG; typedef loss_addendum::L1<D> L1; typedef loss_addendum::L2<D> L2;
// a grad_works over caller memory: weights w, gradient d, optimizer matrices a/b, velocity v, individual rates y, previous gradient q
struct Env { D *w, *d, *a, *b, *v, *y, *q; int r, c; };
template<class I> struct Run { RM m; RR rr; typename I::iInspect_t ii; bool blk; typename Gt<I>::common_data_t cd; Gt<I> g; MD W, Q;
	Run(const Env& e, D lr, bool bl)noexcept : blk(bl), cd(m, rr, ii, blk), g(lr), W(e.w, e.r, e.c, false, false), Q(e.d, e.r, e.c, false, false) {
		g.set_common_data(cd); g.m_Vw.useExternalStorage(e.v, e.r, e.c); g.m_optMtxA.useExternalStorage(e.a, e.r, e.c); g.m_optMtxB.useExternalStorage(e.b, e.r, e.c);
		g.m_ILRGain.useExternalStorage(e.y, e.r, e.c); g.m_prevdLdW.useExternalStorage(e.q, e.r, e.c); }
};
#define ENV D* w, D* d, D* a, D* b, D* v, D* y, D* q, int r, int c
#define E_ Env{w, d, a, b, v, y, q, r, c}
#define LPN for (L i = 0, n = L(r)*c; i < n; ++i)
extern "C" {
// ---------------------------------------------------------------- which optimizer runs on what (first call and later ones), and what happens to its state
struct Pw { D p, q, g; };
#define OPT(n, T, b1, b2, gm, FIRST, LATER) \
 void vp_opt##n##_i(ENV, D lr, D B1, D B2, D GM, D ep, Pw* o, bool first) { Run<IF> x(E_, lr, false); x.g.set_type(G::T); x.g.beta1(B1).beta2(B2).gamma(GM).numeric_stabilizer(ep); x.g.m_optBeta1t = o->p; x.g.m_optBeta2t = o->q; x.g.set_opt(G::f_FirstRun, first); \
  x.g.apply_grad(x.W, x.Q); o->p = x.g.m_optBeta1t; o->q = x.g.m_optBeta2t; o->g = x.g.isFirstRun(); } \
 void vp_opt##n##_s(ENV, D lr, D B1, D B2, D GM, D ep, Pw* o, bool first) { D P = o->p, Q = o->q; o->g = 0; if (first) { FIRST } else { LATER } }
#define UPD(st) { const D s_ = st; d[i] = s_; w[i] -= s_; }
#define S1(k, out) vp_st(k, out, x, y_, 0, 0, 0, lr, B1, 0, 0, ep)
#define S2(k, out, P, Q, GM, BB) vp_st(k, out, x, y_, z_, P, Q, lr, B1, BB, GM, ep)
#define LD1 const D x = d[i]; const D y_ = a[i]
#define LD2 LD1; const D z_ = b[i]
OPT(cc, ClassicalConstant, , , , LPN UPD(lr*d[i]), LPN UPD(lr*d[i]))
OPT(hin, RMSProp_Hinton, , , , LPN { a[i] = d[i]*d[i]; UPD(lr*d[i]) }, LPN { LD1; a[i] = S1(1, 0); UPD(S1(1, 2)) })
OPT(gra, RMSProp_Graves, , , , LPN { a[i] = d[i]*d[i]; b[i] = d[i]; UPD(lr*d[i]) }, LPN { LD2; a[i] = S2(2, 0, 0, 0, 0, 0); b[i] = S2(2, 1, 0, 0, 0, 0); UPD(S2(2, 2, 0, 0, 0, 0)) })
OPT(rpr, RProp, , , , LPN UPD(vp_st(3, 2, d[i], 0, 0, 0, 0, lr, 0, 0, 0, 0)), LPN UPD(vp_st(3, 2, d[i], 0, 0, 0, 0, lr, 0, 0, 0, 0)))
OPT(mod, ModProp, , , , LPN { a[i] = d[i] < 0 ? -d[i] : d[i]; UPD(lr*d[i]) }, LPN { LD1; a[i] = S1(4, 0); UPD(S1(4, 2)) })
#define FULL(k, P, Q, GM, Y, Z) LPN { const D x = d[i], y_ = Y, z_ = Z; a[i] = S2(k, 0, P, Q, GM, B2); b[i] = S2(k, 1, P, Q, GM, B2); UPD(S2(k, 2, P, Q, GM, B2)) }
OPT(ada, Adam, , , , o->p = vp_pw(5, 0, 1, 1, B1, B2, 0); o->q = vp_pw(5, 1, 1, 1, B1, B2, 0); FULL(5, 1, 1, 0, 0, 0), o->p = vp_pw(5, 0, P, Q, B1, B2, 0); o->q = vp_pw(5, 1, P, Q, B1, B2, 0); FULL(5, P, Q, 0, a[i], b[i]))
OPT(max, AdaMax, , , , o->p = vp_pw(6, 0, 1, 0, B1, B2, 0); FULL(6, 1, 0, 0, 0, 0), o->p = vp_pw(6, 0, P, 0, B1, B2, 0); FULL(6, P, 0, 0, a[i], b[i]))
OPT(rad, Radam, , , , o->p = vp_pw(7, 0, 1, 1, B1, B2, GM); o->q = vp_pw(7, 1, 1, 1, B1, B2, GM); FULL(7, 1, 1, GM, 0, 0), o->p = vp_pw(7, 0, P, Q, B1, B2, GM); o->q = vp_pw(7, 1, P, Q, B1, B2, GM); FULL(7, P, Q, GM, a[i], b[i]))
void vp_optnad_i(ENV, D lr, D B1, D B2, D GM, D ep, Pw* o, Pw* o2) { Run<IF> x(E_, lr, false); x.g.set_type(G::Nadam); x.g.beta1(B1).beta2(B2).gamma(GM).numeric_stabilizer(ep); x.g.m_optBeta1t = o->p; x.g.m_optBeta2t = o->q; x.g.apply_grad(x.W, x.Q); o->p = x.g.m_optBeta1t; o->q = x.g.m_optBeta2t; o->g = x.g.isFirstRun(); }
void vp_optnad_s(ENV, D lr, D B1, D B2, D GM, D ep, Pw* o, Pw* o2) { o->g = 0; o->p = vp_pw(7, 0, 1, 1, B1, B2, 0); o->q = vp_pw(7, 1, 1, 1, B1, B2, 0); FULL(7, 1, 1, 0, 0, 0) }
// ---------------------------------------------------------------- momentum, learning-rate dropout and max-norm around a plain step
#define SETM if (mom) { if (nest) x.g.nesterov_momentum(D(.5)*m/m*2*m); else x.g.momentum(m); }
void vp_mom_i(ENV, D lr, bool nest, bool nrm, bool inc) { Run<IF> x(E_, lr, false); if (nest) x.g.nesterov_momentum(D(.75)); else x.g.momentum(D(.75)); if (nrm) x.g.max_norm2(D(3), inc); x.g.apply_grad(x.W, x.Q); }
void vp_mom_s(ENV, D lr, bool nest, bool nrm, bool inc) { LPN { const D s = lr*d[i]; d[i] = s; if (nest) { v[i] += s; w[i] -= s; } else { v[i] = D(.75)*v[i] + s; w[i] -= v[i]; } } if (nrm) vp_ao_norm_rows(w, r, c, D(3), inc); }
void vp_momx_i(ENV, D lr, D m, bool nest) { Run<IF> x(E_, lr, false); if (nest) x.g.nesterov_momentum(m); else x.g.momentum(m); x.g.apply_grad(x.W, x.Q); }
void vp_momx_s(ENV, D lr, D m, bool nest) { LPN { const D s = lr*d[i]; d[i] = s; if (m > 0) { if (nest) { v[i] += s; w[i] -= s; } else { v[i] = m*v[i] + s; w[i] -= v[i]; } } else w[i] -= s; } }
#define MSK const D m_ = vp_tmp0[i] < D(.25) ? 4 : 0; vp_tmp0[i] = m_
void vp_momdo_i(ENV, D lr, bool mom, bool nest, bool nrm) { Run<IF> x(E_, lr, false); if (mom) { if (nest) x.g.nesterov_momentum(D(.75)); else x.g.momentum(D(.75)); } if (nrm) x.g.max_norm(D(3)); x.g.LRDropoutPercentActive(D(.25)); x.g.apply_grad(x.W, x.Q); }
void vp_momdo_s(ENV, D lr, bool mom, bool nest, bool nrm) {
	LPN { const D s = lr*d[i]; d[i] = s; if (mom) { if (nest) v[i] += s; else { v[i] = D(.75)*v[i] + s; d[i] = v[i]; } } }
	vp_ao_gen_norm(vp_tmp0, L(r)*c); LPN { MSK; const D e = d[i]*m_; d[i] = e; w[i] -= e; } if (nrm) vp_ao_norm_rows(w, r, c, D(9), false); }
// before the forward pass
void vp_pre_i(ENV, bool mom, bool nest, bool dro, bool app, bool nrm) { Run<IF> x(E_, 1, false); if (mom) { if (nest) x.g.nesterov_momentum(D(.75)); else x.g.momentum(D(.75)); } if (dro) x.g.LRDropoutPercentActive(D(.25)); x.g.setApplyLRDropoutToNesterovMomentum(app); if (nrm) x.g.max_norm2(D(3), true); x.g.pre_training_fprop(x.W); }
void vp_pre_s(ENV, bool mom, bool nest, bool dro, bool app, bool nrm) { if (mom && nest) { if (dro && app) { LPN v[i] *= D(.75); LPN vp_tmp0[i] = v[i]; vp_ao_gen_norm(vp_tmp1, L(r)*c); LPN { const D m_ = vp_tmp1[i] < D(.25) ? 4 : 0; vp_tmp1[i] = m_; const D e = vp_tmp0[i]*m_; vp_tmp0[i] = e; w[i] -= e; } }
	else LPN { const D z = v[i]*D(.75); v[i] = z; w[i] -= z; } if (nrm) vp_ao_norm_rows(w, r, c, D(3), true); } }
void vp_predef_i(ENV, D p) { Run<IF> x(E_, 1, false); x.g.nesterov_momentum(D(.75)).LRDropoutPercentActive(p); x.g.pre_training_fprop(x.W); }
void vp_predef_s(ENV, D p) { const D dp = (p <= 0 || p > 1) ? 1 : p; if (dp < 1) { LPN v[i] *= D(.75); LPN vp_tmp0[i] = v[i]; vp_ao_gen_norm(vp_tmp1, L(r)*c); LPN { const D m_ = vp_tmp1[i] < dp ? D(1)/dp : 0; vp_tmp1[i] = m_; const D e = vp_tmp0[i]*m_; vp_tmp0[i] = e; w[i] -= e; } } else LPN { const D z = v[i]*D(.75); v[i] = z; w[i] -= z; } }
// learning may be blocked (gradient check): only the addendums act
void vp_blk_i(ENV, D lr, bool bl) { Run<IFG> x(E_, lr, bl); x.g.nesterov_momentum(D(.75)); x.g.pre_training_fprop(x.W); x.g.apply_grad(x.W, x.Q); v[0] = x.g.isFirstRun(); }
void vp_blk_s(ENV, D lr, bool bl) { if (!bl) { LPN { const D z = v[i]*D(.75); v[i] = z; w[i] -= z; } LPN { const D s = lr*d[i]; d[i] = s; v[i] += s; w[i] -= s; } } v[0] = bl; }
// ---------------------------------------------------------------- individual learning rates
void vp_ilr_i(ENV, D lr, D k, D e, D lo, D hi, bool first, bool mom, bool am) { Run<IF> x(E_, lr, false); x.g.applyILRToMomentum(am); if (mom) x.g.nesterov_momentum(D(.75)); x.g.m_ILR.mulDecr = k; x.g.m_ILR.mulIncr = e; x.g.m_ILR.capLow = lo; x.g.m_ILR.capHigh = hi; x.g.GW::template ILR<G, D, 1>::set_opt(0, true); x.g.set_opt(G::f_FirstRun, first); x.g.apply_grad(x.W, x.Q); }
void vp_ilr_s(ENV, D lr, D k, D e, D lo, D hi, bool first, bool mom, bool am) { LPN { D s = lr*d[i]; if (!first) { const D p = mom && am ? v[i] : q[i], o = y[i]; y[i] = vp_ilr(0, s, p, o, k, e, lo, hi); s = vp_ilr(1, s, p, o, k, e, lo, hi); } if (!(mom && am)) q[i] = s; d[i] = s; if (mom) v[i] += s; w[i] -= s; } }
// ---------------------------------------------------------------- loss addendums: L1 and L2 on the weights, with or without the bias weights
void vp_la_i(ENV, D s, D t, bool l1, bool l2, bool i1, bool i2, bool bl) { Run<IFG> x(E_, 1, true); if (l1) x.g.L1(D(.125), i1); if (l2) x.g.L2(D(.5), i2); x.g.apply_grad(x.W, x.Q); v[0] = x.W.cols(); v[1] = x.Q.cols(); }
void vp_la_s(ENV, D s, D t, bool l1, bool l2, bool i1, bool i2, bool bl) { if (l1) for (L i = 0, n = L(r)*(i1 ? c - 1 : c); i < n; ++i) d[i] += D(.125)*(w[i] > 0 ? 1 : (w[i] < 0 ? -1 : 0)); if (l2) for (L i = 0, n = L(r)*(i2 ? c - 1 : c); i < n; ++i) d[i] += D(.5)*w[i]; v[0] = c; v[1] = c; }
D vp_lal_i(ENV, D s, D t, bool l1, bool l2, bool i1, bool i2) { Run<IF> x(E_, 1, false); if (l1) x.g.L1(s, i1); if (l2) x.g.L2(t, i2); return x.g.lossAddendum(x.W); }
D vp_lal_s(ENV, D s, D t, bool l1, bool l2, bool i1, bool i2) { D A = 0, B = 0; for (L i = 0, n = L(r)*(i1 ? c - 1 : c); i < n; ++i) A += w[i] < 0 ? -w[i] : w[i]; for (L i = 0, n = L(r)*(i2 ? c - 1 : c); i < n; ++i) B += w[i]*w[i]; return (l1 && s != 0 ? s*A : 0) + (l2 && t != 0 ? t*D(.5)*B : 0); }
bool vp_lah_i(ENV, D s, D t) { Run<IF> x(E_, 1, false); x.g.L1(s).L2(t); return x.g.hasLossAddendum(); } bool vp_lah_s(ENV, D s, D t) { return s != 0 || t != 0; }
// ---------------------------------------------------------------- settings are remembered as given, each on its own
struct St { D v[16]; bool f[16]; };
void vp_set_i(St* o, D lr, D m, D b1, D b2, D gm, D nm, D dp, bool nest, bool inc, bool app, bool im) { G g(lr); g.beta1(b1).beta2(b2).gamma(gm); if (nest) g.nesterov_momentum(m); else g.momentum(m); g.max_norm(nm, inc); g.LRDropoutPercentActive(dp); g.setApplyLRDropoutToNesterovMomentum(app); g.applyILRToMomentum(im);
 o->v[0] = g.learning_rate(); o->v[1] = g.beta1(); o->v[2] = g.beta2(); o->v[3] = g.gamma(); o->v[4] = g.max_norm2(); o->v[5] = g.LRDropoutPercentActive(); o->f[0] = g.use_momentums(); o->f[1] = g.use_nesterov_momentum(); o->f[2] = g.use_classical_momentum(); o->f[3] = g.use_max_norm(); o->f[4] = g.bLRDropout(); o->f[5] = g.bApplyLRDropoutToNesterovMomentum(); o->f[6] = g.applyILRToMomentum(); o->f[7] = g.use_individual_learning_rates(); o->f[8] = g.addendumIgnoresBias<L1>(); o->f[9] = g.addendumIgnoresBias<L2>(); o->f[10] = g.isFirstRun(); o->f[11] = g.nesterov_momentum(); o->v[6] = g.m_momentum; }
void vp_set_s(St* o, D lr, D m, D b1, D b2, D gm, D nm, D dp, bool nest, bool inc, bool app, bool im) { o->v[0] = lr; o->v[1] = b1; o->v[2] = b2; o->v[3] = gm; const D q = nm*nm; o->v[4] = q > 0 ? q : D(0); const D d = (dp <= 0 || dp > 1) ? 1 : dp; o->v[5] = d; o->f[0] = m > 0; o->f[1] = m > 0 && nest; o->f[2] = m > 0 && !nest; o->f[3] = q > 0; o->f[4] = d < 1; o->f[5] = app; o->f[6] = im; o->f[7] = false; o->f[8] = true; o->f[9] = true; o->f[10] = true; o->f[11] = nest; o->v[6] = m; }
void vp_setd_i(St* o, D lr) { G g(lr); g.learning_rate(lr + 1); o->v[0] = g.learning_rate(); o->v[1] = g.beta1(); o->v[2] = g.beta2(); o->v[3] = g.gamma(); o->v[4] = g.m_momentum; o->v[5] = g.LRDropoutPercentActive(); o->f[0] = g.use_momentums(); o->f[1] = g.nesterov_momentum(); o->f[2] = g.bApplyLRDropoutToNesterovMomentum(); o->f[3] = g.use_max_norm(); o->f[4] = g.isFirstRun(); o->f[5] = g.m_type == G::ClassicalConstant; o->f[6] = g.hasLossAddendum(); o->f[7] = g.use_individual_learning_rates(); }
void vp_setd_s(St* o, D lr) { o->v[0] = lr + 1; o->v[1] = D(.9); o->v[2] = D(.999); o->v[3] = D(.05); o->v[4] = 0; o->v[5] = 1; o->f[0] = false; o->f[1] = true; o->f[2] = true; o->f[3] = false; o->f[4] = true; o->f[5] = true; o->f[6] = false; o->f[7] = false; }
void vp_ib_i(St* o, bool x, bool y, bool u, bool z) { G g(1); if (u) g.addendumIgnoresBias<L1>(x); if (z) g.addendumIgnoresBias<L2>(y); o->f[0] = g.addendumIgnoresBias<L1>(); o->f[1] = g.addendumIgnoresBias<L2>(); o->f[2] = g.addendumIgnoresBias(0); o->f[3] = g.addendumIgnoresBias(1); o->f[4] = g.use_individual_learning_rates(); o->f[5] = g.applyILRToMomentum(); }
void vp_ib_s(St* o, bool x, bool y, bool u, bool z) { o->f[0] = o->f[2] = u ? x : true; o->f[1] = o->f[3] = z ? y : true; o->f[4] = false; o->f[5] = false; }
// individual learning rate settings
typedef GW::ILR_props<D> IP;
void vp_ip_i(St* o, D a, D b, D c, D d) { IP p; p.set(a, b, c, d); o->v[0] = p.mulDecr; o->v[1] = p.mulIncr; o->v[2] = p.capLow; o->v[3] = p.capHigh; o->f[0] = p.bUseMe(); } void vp_ip_i_c(St* o, D a, D b, D c, D d) { IP p(a, b, c, d); o->v[0] = p.mulDecr; o->v[1] = p.mulIncr; o->v[2] = p.capLow; o->v[3] = p.capHigh; o->f[0] = p.bUseMe(); }
void vp_ip_i_g(St* o, D a, D b, D c, D d) { G g(1); g.set_ILR(a, b, c, d); o->v[0] = g.m_ILR.mulDecr; o->v[1] = g.m_ILR.mulIncr; o->v[2] = g.m_ILR.capLow; o->v[3] = g.m_ILR.capHigh; o->f[0] = g.use_individual_learning_rates(); } void vp_ip_i_h(St* o, D a, D b, D c, D d) { G g(1); g.set_ILR(IP(a, b, c, d)); o->v[0] = g.m_ILR.mulDecr; o->v[1] = g.m_ILR.mulIncr; o->v[2] = g.m_ILR.capLow; o->v[3] = g.m_ILR.capHigh; o->f[0] = g.use_individual_learning_rates(); }
void vp_ip_s(St* o, D a, D b, D c, D d) { o->v[0] = a; o->v[1] = b; o->v[2] = c; o->v[3] = d; o->f[0] = a > 0; }
bool vp_ipc_i(D a, D b, D c, D d) { G g(1); g.set_ILR(a, b, c, d); g.clear_ILR(); return g.use_individual_learning_rates() || g.m_ILR.bUseMe(); } bool vp_ipc_i_d(D a, D b, D c, D d) { IP p; return p.bUseMe(); } bool vp_ipc_s(D a, D b, D c, D d) { return false; }
// ---------------------------------------------------------------- preparing for training: exactly the state the settings need, of the size of the weights, and failure is reported
#define NB (L(r)*c*L(sizeof(D)))
static inline D* al(int r, int c) { return (D*)vp_amalloc(NB, utils::mem_align_for<D>()); }
#define GWI(n, T, a_, b_) \
 bool vp_gwi##n##_i(const D* w, int r, int c, bool mom) { RM m; RR rr; RI ii; bool bl = false; G::common_data_t cd(m, rr, ii, bl); MX W(const_cast<D*>(w), r, c, false, false); G g(1); g.set_type(G::T); if (mom) g.momentum(D(.5)); return g.gw_init(cd, W); } \
 bool vp_gwi##n##_s(const D* w, int r, int c, bool mom) { D *V = nullptr, *A = nullptr, *B = nullptr; bool ok = true; if (mom) { V = al(r, c); ok = V; if (ok) LPN V[i] = 0; } if (ok && a_) { A = al(r, c); ok = A; } if (ok && b_) { B = al(r, c); ok = B; } if (ok) vp_preinit(7*L(r)*c); if (V) vp_afree(V); if (A) vp_afree(A); if (B) vp_afree(B); return ok; }
GWI(cc, ClassicalConstant, false, false)
GWI(hin, RMSProp_Hinton, true, false)
GWI(gra, RMSProp_Graves, true, true)
GWI(rpr, RProp, false, false)
GWI(mod, ModProp, true, false)
GWI(ada, Adam, true, true)
GWI(max, AdaMax, true, true)
GWI(nad, Nadam, true, true)
GWI(rad, Radam, true, true)
bool vp_gwilr_i(const D* w, int r, int c, bool mom, bool am) { RM m; RR rr; RI ii; bool bl = false; G::common_data_t cd(m, rr, ii, bl); MX W(const_cast<D*>(w), r, c, false, false); G g(1); g.set_common_data(cd); g.set_ILR(D(.5), D(2), D(.1), D(9)); if (mom) g.momentum(D(.5)); g.applyILRToMomentum(am); return g.ILR_init(W.size()); }
bool vp_gwilr_s(const D* w, int r, int c, bool mom, bool am) { D* A = al(r, c), *B = nullptr; bool ok = A; if (ok && !(mom && am)) { B = al(r, c); ok = B; } if (ok) { LPN A[i] = 1; vp_preinit(9*L(r)*c); } if (A) vp_afree(A); if (B) vp_afree(B); return ok; }
// a second training session starts afresh
bool vp_gw2_i(ENV) { Run<IF> x(E_, 1, false); x.g.apply_grad(x.W, x.Q); x.g.clean_common_data(); return x.g.gw_init(x.cd, x.W) && x.g.isFirstRun(); } bool vp_gw2_s(ENV) { LPN { w[i] -= d[i]; } vp_preinit(7*L(r)*c); return true; }
bool vp_gwd_i(ENV) { Run<IF> x(E_, 1, false); x.g.gw_deinit(); return !x.g.has_common_data() && x.g.m_Vw.empty() && x.g.m_optMtxA.empty() && x.g.m_optMtxB.empty() && x.g.m_ILRGain.empty() && x.g.m_prevdLdW.empty(); } bool vp_gwd_s(ENV) { return true; }
}
// ---------------------------------------------------------------- loss addendums by themselves
struct LE { RM m; RR rr; RI ii; bool bl = false; G::common_data_t cd; LE()noexcept : cd(m, rr, ii, bl) {} };
template<class T> static inline void la_d(const D* w, D* d, int r, int c, D s) { LE e; T la; la.scale(s); MX W(const_cast<D*>(w), r, c, false, false), Q(d, r, c, false, false); la.dLossAdd(W, Q, e.cd); }
template<class T> static inline D la_l(const D* w, int r, int c, D s) { LE e; T la; la.scale(s); MX W(const_cast<D*>(w), r, c, false, false); return la.lossAdd(W, e.cd); }
// evaluated on the forward pass: the gradient that is added later is the one of the values seen then (kept in k)
template<class T> static inline void la_f(D* w, D* d, D* k, const D* w2, int r, int c, D s) { LE e; T la; la.scale(s); la.m_Mtx.useExternalStorage(k, r, c); MX W(w, r, c, false, false), Q(d, r, c, false, false); la.on_fprop(W, e.cd); LPN w[i] = w2[i]; la.dLossAdd(W, Q, e.cd); }
#define SG(x) ((x) > 0 ? 1 : ((x) < 0 ? -1 : 0))
extern "C" {
#define LAX(n, T, F, LOSS, GRAD) \
 void vp_##n##d_i(const D* w, D* d, int r, int c, D s) { la_d<loss_addendum::T<D, false, false>>(w, d, r, c, s); } void vp_##n##d_s(const D* w, D* d, int r, int c, D s) { LPN d[i] += s*GRAD(w[i]); } \
 void vp_##n##nz_i(const D* w, D* d, int r, int c, D s) { la_d<loss_addendum::T<D, false, true>>(w, d, r, c, s); } void vp_##n##nz_s(const D* w, D* d, int r, int c, D s) { LPN if (d[i] != 0) d[i] += s*GRAD(w[i]); } \
 D vp_##n##l_i(const D* w, int r, int c, D s) { return la_l<loss_addendum::T<D>>(w, r, c, s); } D vp_##n##l_s(const D* w, int r, int c, D s) { D A = 0; LPN A += LOSS(w[i]); return s*F*A; } \
 void vp_##n##f_i(D* w, D* d, D* k, const D* w2, int r, int c, D s) { la_f<loss_addendum::T<D, true, false>>(w, d, k, w2, r, c, s); } void vp_##n##f_s(D* w, D* d, D* k, const D* w2, int r, int c, D s) { LPN { const D z = GRAD(w[i]); k[i] = z; d[i] += s*z; w[i] = w2[i]; } } \
 void vp_##n##fz_i(D* w, D* d, D* k, const D* w2, int r, int c, D s) { la_f<loss_addendum::T<D, true, true>>(w, d, k, w2, r, c, s); } void vp_##n##fz_s(D* w, D* d, D* k, const D* w2, int r, int c, D s) { LPN { const D z = GRAD(w[i]); k[i] = z; if (d[i] != 0) d[i] += s*z; w[i] = w2[i]; } } \
 bool vp_##n##e_i(D s) { loss_addendum::T<D> la; la.scale(s); return la.bEnabled(); } bool vp_##n##e_s(D s) { return s != 0; } bool vp_##n##e0_i(void) { loss_addendum::T<D> la; return la.bEnabled(); } bool vp_##n##e0_s(void) { return false; }
#define ABS_(x) ((x) < 0 ? -(x) : (x))
#define SQ_(x) ((x)*(x))
#define ID_(x) (x)
LAX(lax, L1, 1, ABS_, SG)
LAX(lay, L2, D(.5), SQ_, ID_)
#define DC(n, lo, ns) \
 void vp_dc##n##d_i(const D* w, D* d, int r, int c, D s) { la_d<loss_addendum::DeCov<D, ns, lo, false, false>>(w, d, r, c, s); } void vp_dc##n##d_s(const D* w, D* d, int r, int c, D s) { vp_ao_decov(vp_tmp0, w, r, c, lo*2 + ns); LPN d[i] += s*vp_tmp0[i]; } \
 void vp_dc##n##nz_i(const D* w, D* d, int r, int c, D s) { la_d<loss_addendum::DeCov<D, ns, lo, false, true>>(w, d, r, c, s); } void vp_dc##n##nz_s(const D* w, D* d, int r, int c, D s) { vp_ao_decov(vp_tmp0, w, r, c, lo*2 + ns); LPN if (d[i] != 0) d[i] += s*vp_tmp0[i]; } \
 D vp_dc##n##l_i(const D* w, int r, int c, D s) { return la_l<loss_addendum::DeCov<D, ns, lo>>(w, r, c, s); } D vp_dc##n##l_s(const D* w, int r, int c, D s) { return s*vp_decovl(w, r, c, lo*2 + ns); } \
 void vp_dc##n##f_i(D* w, D* d, D* k, const D* w2, int r, int c, D s) { la_f<loss_addendum::DeCov<D, ns, lo, true, false>>(w, d, k, w2, r, c, s); } void vp_dc##n##f_s(D* w, D* d, D* k, const D* w2, int r, int c, D s) { vp_ao_decov(k, w, r, c, lo*2 + ns); LPN w[i] = w2[i]; LPN d[i] += s*k[i]; }
DC(0, false, false)
DC(1, false, true)
DC(2, true, false)
}
