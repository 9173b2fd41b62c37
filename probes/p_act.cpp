#include "kern.h"
namespace nntl { struct d_interfaces { typedef ::real_t real_t; }; }
#include "nntl/weights_init.h"
#include "nntl/activations/relu_family.h"
#include "nntl/activations/sigm.h"
#include "nntl/activations/elu.h"
#include "nntl/activations/elogu.h"
#include "nntl/activations/loglogu.h"
#include "nntl/activations/logu.h"
#include "nntl/activations/selu.h"
#include "nntl/activations/softmax.h"
#include "nntl/activations/softsigm.h"
#include "nntl/activations/softsign.h"
#include "nntl/activations/step.h"
#include "nntl/activations/identity.h"
using namespace nntl::activation;
static inline D SQ(D v) { return v*v; }
static inline D AB(D v) { return v < 0 ? -v : v; }
extern "C" {
#define FOR for(L i=0;i<L(r)*c;++i)
// f: in place over the non-bias part of a matrix that has a bias column; df: in place over a bias-free matrix
#define ACT(name, P, A, spec) \
 void vp_##name##_i_st(MN& m, D* a, P int r, int c) { MTXB(X,a,r,c); m.name##_st(X A); } void vp_##name##_i_mt(MN& m, D* a, P int r, int c) { MTXB(X,a,r,c); m.name##_mt(X A); } void vp_##name##_i(MN& m, D* a, P int r, int c) { MTXB(X,a,r,c); m.name(X A); } \
 void vp_##name##_i_nobias(MN& m, D* a, P int r, int c) { MTX(X,a,r,c); m.name(X A); } void vp_##name##_s(MN& m, D* a, P int r, int c) { FOR { const D v = a[i]; a[i] = spec; } }
#define DACT(name, P, A, spec) \
 void vp_##name##_i_st(MN& m, D* a, P int r, int c) { MTX(X,a,r,c); m.name##_st(X A); } void vp_##name##_i_mt(MN& m, D* a, P int r, int c) { MTX(X,a,r,c); m.name##_mt(X A); } void vp_##name##_i(MN& m, D* a, P int r, int c) { MTX(X,a,r,c); m.name(X A); } \
 void vp_##name##_s(MN& m, D* a, P int r, int c) { FOR { const D v = a[i]; a[i] = spec; } }
#define Q ,
ACT(sigm, , , 1/(1+std::exp(-v)))
DACT(dsigm, , , v*(1-v))
ACT(relu, , , v > 0 ? v : 0)
DACT(drelu, , , v > 0 ? 1 : 0)
ACT(leakyrelu, D x Q, Q x, v < 0 ? v*x : v)
DACT(dleakyrelu, D x Q, Q x, v > 0 ? 1 : x)
ACT(elu, D x Q, Q x, v < 0 ? x*(std::exp(v)-1) : v)
DACT(delu, D x Q, Q x, v < 0 ? v + x : 1)
ACT(elu_unitalpha, , , v < 0 ? std::exp(v)-1 : v)
DACT(delu_unitalpha, , , v < 0 ? v + 1 : 1)
ACT(elogu, D x Q D y Q, Q x Q y, v < 0 ? x*(std::exp(v)-1) : std::log(v+1)/std::log(y))
DACT(delogu, D x Q D y Q, Q x Q y, v < 0 ? v + x : std::exp(-v*std::log(y) - std::log(std::log(y))))
ACT(elogu_ua, D y Q, Q y, v < 0 ? std::exp(v)-1 : std::log(v+1)/std::log(y))
DACT(delogu_ua, D y Q, Q y, v < 0 ? v + 1 : std::exp(-v*std::log(y) - std::log(std::log(y))))
ACT(elogu_nb, D x Q, Q x, v < 0 ? x*(std::exp(v)-1) : std::log(v+1))
DACT(delogu_nb, D x Q, Q x, v < 0 ? v + x : std::exp(-v))
ACT(elogu_ua_nb, , , v < 0 ? std::exp(v)-1 : std::log(v+1))
DACT(delogu_ua_nb, , , v < 0 ? v + 1 : std::exp(-v))
ACT(loglogu, D x Q D y Q, Q x Q y, v < 0 ? -std::log(1-v)/std::log(x) : std::log(v+1)/std::log(y))
DACT(dloglogu, D x Q D y Q, Q x Q y, v < 0 ? std::exp(v*std::log(x) - std::log(std::log(x))) : std::exp(-v*std::log(y) - std::log(std::log(y))))
ACT(loglogu_nbn, D y Q, Q y, v < 0 ? -std::log(1-v) : std::log(v+1)/std::log(y))
DACT(dloglogu_nbn, D y Q, Q y, v < 0 ? std::exp(v) : std::exp(-v*std::log(y) - std::log(std::log(y))))
ACT(loglogu_nbp, D x Q, Q x, v < 0 ? -std::log(1-v)/std::log(x) : std::log(v+1))
DACT(dloglogu_nbp, D x Q, Q x, v < 0 ? std::exp(v*std::log(x) - std::log(std::log(x))) : std::exp(-v))
ACT(loglogu_nbn_nbp, , , v < 0 ? -std::log(1-v) : std::log(v+1))
DACT(dloglogu_nbn_nbp, , , v < 0 ? std::exp(v) : std::exp(-v))
ACT(logu, D y Q, Q y, v > 0 ? std::log(v+1)/std::log(y) : 0)
DACT(dlogu, D y Q, Q y, v > 0 ? std::exp(-v*std::log(y) - std::log(std::log(y))) : 0)
ACT(logu_nb, , , v > 0 ? std::log(v+1) : 0)
DACT(dlogu_nb, , , v > 0 ? std::exp(-v) : 0)
ACT(softsign_uc, D x Q, Q x, v/(x + AB(v)))
ACT(softsign, D x Q D y Q, Q x Q y, y*v/(x + AB(v)))
DACT(dsoftsign_ua_uc, , , (1-AB(v))*(1-AB(v)))
DACT(dsoftsign, D x Q D y Q, Q x Q y, (y - AB(v))*(y - AB(v))/(x*y))
ACT(softsigm, D x Q, Q x, D(.5) + v/(2*(x + AB(v))))
DACT(dsoftsigm, D x Q, Q x, (D(.5) - AB(v - D(.5)))*(D(.5) - AB(v - D(.5)))*2/x)
ACT(selu, D x Q D y Q, Q x Q y, v < 0 ? (std::exp(v)-1)*x : v*y)
DACT(dselu, D x Q D y Q, Q x Q y, v < 0 ? v + x : y)
ACT(step, , , v < 0 ? 0 : 1)
// the activation classes hand their own parameters to the right kernel
#define CLS(nm, T, F, DF) \
 void vp_c##nm##f_i(MN& m, D* a, int r, int c) { MTXB(X,a,r,c); T::f(X, m); } void vp_c##nm##f_s(MN& m, D* a, int r, int c) { MTXB(X,a,r,c); F; } \
 void vp_c##nm##d_i(MN& m, D* a, int r, int c) { MTX(X,a,r,c); T::df(X, m); } void vp_c##nm##d_s(MN& m, D* a, int r, int c) { MTX(X,a,r,c); DF; }
typedef activation::elu<D, 1500> T_elu; typedef activation::elogu<D, 1500, 3000> T_elogu; typedef activation::elogu<D, 1000, 3000> T_elogua; typedef activation::elogu<D, 1500, 2718> T_elogun; typedef activation::elogu<D, 1000, 2718> T_eloguun;
typedef activation::loglogu<D, 3000, 4000> T_ll; typedef activation::loglogu<D, 2718, 4000> T_lln; typedef activation::loglogu<D, 3000, 2718> T_llp; typedef activation::loglogu<D, 2718, 2718> T_llnp;
typedef activation::softsign<D, 2000000, 3000000> T_ssac; typedef activation::softsign<D, 2000000, 1000000> T_ssa; typedef activation::softsign<D, 1000000, 1000000> T_ss; typedef activation::softsign<D, 1000000, 3000000> T_ssc;
typedef activation::leaky_relu<D, 400> T_lr; typedef activation::logu<D, 3000> T_lg; typedef activation::logu<D, 2718> T_lgn; typedef activation::softsigm<D, 2000> T_sm; typedef activation::selu<D, 2000000000, 3000000000> T_selu;
CLS(relu, activation::relu<D>, m.relu(X), m.drelu(X))
CLS(lrelu, T_lr, m.leakyrelu(X, D(.25)), m.dleakyrelu(X, D(.25)))
CLS(sigm, activation::sigm<D>, m.sigm(X), m.dsigm(X))
CLS(elu1, activation::elu<D>, m.elu_unitalpha(X), m.delu_unitalpha(X))
CLS(elu, T_elu, m.elu(X, D(1.5)), m.delu(X, D(1.5)))
CLS(elogu, T_elogu, m.elogu(X, D(1.5), D(3)), m.delogu(X, D(1.5), D(3)))
CLS(elogua, T_elogua, m.elogu_ua(X, D(3)), m.delogu_ua(X, D(3)))
CLS(elogun, T_elogun, m.elogu_nb(X, D(1.5)), m.delogu_nb(X, D(1.5)))
CLS(eloguun, T_eloguun, m.elogu_ua_nb(X), m.delogu_ua_nb(X))
CLS(ll, T_ll, m.loglogu(X, D(3), D(4)), m.dloglogu(X, D(3), D(4)))
CLS(lln, T_lln, m.loglogu_nbn(X, D(4)), m.dloglogu_nbn(X, D(4)))
CLS(llp, T_llp, m.loglogu_nbp(X, D(3)), m.dloglogu_nbp(X, D(3)))
CLS(llnp, T_llnp, m.loglogu_nbn_nbp(X), m.dloglogu_nbn_nbp(X))
CLS(logu, T_lg, m.logu(X, D(3)), m.dlogu(X, D(3)))
CLS(logun, T_lgn, m.logu_nb(X), m.dlogu_nb(X))
CLS(ssac, T_ssac, m.softsign(X, D(2), D(3)), m.dsoftsign(X, D(2), D(3)))
CLS(ssa, T_ssa, m.softsign_uc(X, D(2)), m.dsoftsign(X, D(2), D(1)))
CLS(ssc, T_ssc, m.softsign(X, D(1), D(3)), m.dsoftsign(X, D(1), D(3)))
CLS(ss, T_ss, m.softsign_uc(X, D(1)), m.dsoftsign_ua_uc(X))
CLS(softsigm, T_sm, m.softsigm(X, D(2)), m.dsoftsigm(X, D(2)))
CLS(selu, T_selu, m.selu(X, D(6), D(3)), m.dselu(X, D(6), D(3)))
CLS(step, activation::step<D>, m.step(X), X.zeros())
CLS(linear, activation::identity<D>, , X.ones())
void vp_dIdentity_i(MN& m, D* a, int r, int c) { MTX(X,a,r,c); activation::sigm<D>::dIdentity(X, m); } void vp_dIdentity_s(MN& m, D* a, int r, int c) { FOR a[i] = 1; }
bool vp_zs_i(void) { return activation::relu<D>::bFIsZeroStable && T_elu::bFIsZeroStable && T_elogu::bFIsZeroStable && T_ll::bFIsZeroStable && activation::logu<D>::bFIsZeroStable && T_ss::bFIsZeroStable && T_selu::bFIsZeroStable && activation::leaky_relu<D>::bFIsZeroStable && activation::identity<D>::bFIsZeroStable
 && !activation::sigm<D>::bFIsZeroStable && !T_sm::bFIsZeroStable && !activation::step<D>::bFIsZeroStable && !activation::softmax_xentropy_loss<D>::bFIsZeroStable; } bool vp_zs_s(void) { return true; }
D vp_sc_i(void) { return T_selu::act_scaling_coeff() + T_elu::act_scaling_coeff(); } D vp_sc_s(void) { return 4; }
// ---------------------------------------------------------------- losses and their derivatives
#define PYA (MN& m, const D* y, D* a, int r, int c)
#define DYA MTX(Y,y,r,c); MTX(X,a,r,c)
#define DL(name, P, A, spec) \
 void vp_##name##_i_st(MN& m, const D* y, D* a, P int r, int c) { DYA; m.name##_st(Y, X A); } void vp_##name##_i_mt(MN& m, const D* y, D* a, P int r, int c) { DYA; m.name##_mt(Y, X A); } void vp_##name##_i(MN& m, const D* y, D* a, P int r, int c) { DYA; m.name(Y, X A); } \
 void vp_##name##_s(MN& m, const D* y, D* a, P int r, int c) { FOR { const D v = a[i], t = y[i]; a[i] = spec; } }
DL(dIdentityXEntropyLoss_dZ, , , (v-t)/(v*(1-v)))
DL(dSigmQuadLoss_dZ, , , (v-t)*v*(1-v))
DL(dSoftSigmQuadLoss_dZ, D x Q, Q x, (v-t)*(D(.5) - AB(v - D(.5)))*(D(.5) - AB(v - D(.5)))*2/x)
DL(dSoftSigmXEntropyLoss_dZ, D x Q, Q x, (v-t)*((D(.5) - AB(v - D(.5)))*(D(.5) - AB(v - D(.5)))*2/x/(v*(1-v))))
#define LS(name, st, mt, init, spec, fin) \
 D vp_##name##_i_st(MN& m, const D* y, D* a, int r, int c) { DYA; return m.st(X, Y); } D vp_##name##_i_mt(MN& m, const D* y, D* a, int r, int c) { DYA; return m.mt(X, Y); } D vp_##name##_i(MN& m, const D* y, D* a, int r, int c) { DYA; return m.name(X, Y); } \
 D vp_##name##_s(MN& m, const D* y, D* a, int r, int c) { D s = 0; FOR { const D v = a[i], t = y[i]; s += spec; } return fin; }
#define TINY std::numeric_limits<D>::min()
LS(loss_quadratic, loss_quadratic_st_naive, loss_quadratic_mt_naive, , (v-t)*(v-t), s/2)
LS(loss_quadratic_ns, loss_quadratic_st_naive_ns, loss_quadratic_mt_naive_ns, , (v-t)*(v-t), s/2)
#define XE (t > 0 ? std::log(v + TINY) : std::log((1 + -v) + TINY))
LS(loss_xentropy, loss_xentropy_st, loss_xentropy_mt, , XE, -s)
LS(loss_xentropy_ns, loss_xentropy_ns_st, loss_xentropy_ns_mt, , XE, -s)
LS(loss_softmax_xentropy, loss_softmax_xentropy_st, loss_softmax_xentropy_mt, , -t*(v > 0 ? std::log(v) : math::real_t_limits<D>::log_almost_zero), s)
// user-supplied losses: every element once, normalised by the loss's own rule
typedef Linear_Loss_quadWeighted_FP<D, 2000000, 3000000> LW1; typedef Linear_Loss_quadWeighted2_FP<D, 2000000, 500000, 3000000> LW2; typedef Linear_Loss_quadWeighted_res_FP<D, 2000000, 3000000> LW3;
#define CL(nm, T, l, d) \
 D vp_l##nm##_i_st(MN& m, const D* y, D* a, int r, int c) { DYA; return m.template compute_loss_st<T>(X, Y); } D vp_l##nm##_i_mt(MN& m, const D* y, D* a, int r, int c) { DYA; return m.template compute_loss_mt<T>(X, Y); } D vp_l##nm##_i(MN& m, const D* y, D* a, int r, int c) { DYA; return m.template compute_loss<T>(X, Y); } D vp_l##nm##_i_c(MN& m, const D* y, D* a, int r, int c) { DYA; return identity_custom_loss<T>::loss(X, Y, m); } \
 D vp_l##nm##_s(MN& m, const D* y, D* a, int r, int c) { D s = 0; FOR { const D v = a[i], t = y[i]; s += l; } return s/2; } \
 void vp_d##nm##_i_st(MN& m, const D* y, D* a, int r, int c) { DYA; m.template dLoss_dZ_st<T>(Y, X); } void vp_d##nm##_i_mt(MN& m, const D* y, D* a, int r, int c) { DYA; m.template dLoss_dZ_mt<T>(Y, X); } void vp_d##nm##_i(MN& m, const D* y, D* a, int r, int c) { DYA; m.template dLoss_dZ<T>(Y, X); } void vp_d##nm##_i_c(MN& m, const D* y, D* a, int r, int c) { DYA; identity_custom_loss<T>::dLdZ(Y, X, m); } void vp_d##nm##_i_ci(MN& m, const D* y, D* a, int r, int c) { DYA; identity_custom_loss<T>::dLdZIdentity(Y, X, m); } \
 void vp_d##nm##_s(MN& m, const D* y, D* a, int r, int c) { FOR { const D v = a[i], t = y[i]; a[i] = d; } }
CL(w1, LW1, (t < 3 && v > t ? 4 : 1)*(v-t)*(v-t), (t < 3 && v > t ? 4 : 1)*(v-t))
CL(w2, LW2, (t < 3 && v > t ? 4 : D(.25))*(v-t)*(v-t), (t < 3 && v > t ? 4 : D(.25))*(v-t))
CL(w3, LW3, SQ(t < 3 && v > t ? 2*v-3-t : v-t), (t < 3 && v > t ? 2*(2*v-3-t) : v-t))
// a loss of the user's own that is averaged over the batch
struct LW9 : public LW1 { typedef D real_t; static D loss(const D a, const D y)noexcept { return (a-y)*y; } static D normalize(const D v, const vec_len_t n)noexcept { return v / n; } };
D vp_lw9_i_st(MN& m, const D* y, D* a, int r, int c) { DYA; return m.template compute_loss_st<LW9>(X, Y); } D vp_lw9_i_mt(MN& m, const D* y, D* a, int r, int c) { DYA; return m.template compute_loss_mt<LW9>(X, Y); } D vp_lw9_i(MN& m, const D* y, D* a, int r, int c) { DYA; return m.template compute_loss<LW9>(X, Y); }
D vp_lw9_s(MN& m, const D* y, D* a, int r, int c) { D s = 0; FOR { const D v = a[i], t = y[i]; s += (v-t)*t; } return s/r; }
// loss classes hand over to the right kernels
#define LC(nm, T, dl, ls) \
 void vp_k##nm##d_i(MN& m, const D* y, D* a, int r, int c) { DYA; T::dLdZ(Y, X, m); } void vp_k##nm##d_s(MN& m, const D* y, D* a, int r, int c) { DYA; dl; } \
 D vp_k##nm##l_i(MN& m, const D* y, D* a, int r, int c) { DYA; return T::loss(X, Y, m); } D vp_k##nm##l_s(MN& m, const D* y, D* a, int r, int c) { DYA; return ls; }
typedef sigm_quad_loss<D, weights_init::Martens_SI_sigm<>, true> SQn; typedef sigm_xentropy_loss<D, weights_init::Martens_SI_sigm<>, true> SXn; typedef softsigm_quad_loss<D, 2000> SSQ; typedef softsigm_xentropy_loss<D, 2000> SSX; typedef softsigm_quad_loss<D, 2000, weights_init::He_Zhang<>, true> SSQn; typedef softsigm_xentropy_loss<D, 2000, weights_init::He_Zhang<>, true> SSXn; typedef identity_quad_loss<D, weights_init::SNNInit, true> IQn;
LC(sq, sigm_quad_loss<D>, m.dSigmQuadLoss_dZ(Y, X), m.loss_quadratic(X, Y))
LC(sqn, SQn, m.dSigmQuadLoss_dZ(Y, X), m.loss_quadratic_ns(X, Y))
LC(sx, sigm_xentropy_loss<D>, m.evSub_ip(X, Y), m.loss_xentropy(X, Y))
LC(sxn, SXn, m.evSub_ip(X, Y), m.loss_xentropy_ns(X, Y))
LC(ssq, SSQ, m.dSoftSigmQuadLoss_dZ(Y, X, D(2)), m.loss_quadratic(X, Y))
LC(ssx, SSX, m.dSoftSigmXEntropyLoss_dZ(Y, X, D(2)), m.loss_xentropy(X, Y))
LC(ssqn, SSQn, m.dSoftSigmQuadLoss_dZ(Y, X, D(2)), m.loss_quadratic_ns(X, Y))
LC(ssxn, SSXn, m.dSoftSigmXEntropyLoss_dZ(Y, X, D(2)), m.loss_xentropy_ns(X, Y))
LC(iq, identity_quad_loss<D>, m.evSub_ip(X, Y), m.loss_quadratic(X, Y))
LC(iqn, IQn, m.evSub_ip(X, Y), m.loss_quadratic_ns(X, Y))
LC(smx, softmax_xentropy_loss<D>, m.evSub_ip(X, Y), m.loss_softmax_xentropy(X, Y))
void vp_kqi_i(MN& m, const D* y, D* a, int r, int c) { DYA; sigm_quad_loss<D>::dLdZIdentity(Y, X, m); } void vp_kqi_s(MN& m, const D* y, D* a, int r, int c) { FOR a[i] -= y[i]; }
void vp_kxi_i(MN& m, const D* y, D* a, int r, int c) { DYA; sigm_xentropy_loss<D>::dLdZIdentity(Y, X, m); } void vp_kxi_s(MN& m, const D* y, D* a, int r, int c) { FOR a[i] = (a[i]-y[i])/(a[i]*(1-a[i])); }
}
