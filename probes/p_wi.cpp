#include "kern.h"
#include <random>
extern "C" { D vp_ao_gauss(void*, D, D); void vp_ao_genmtx(void*, D*, L, D); D vp_ao_rnd(void*); void vp_ao_shuffle(int*, int*, void*); bool vp_ao_svd(void*, D*, int, int); void vp_ao_mulc(void*, D*, L, D); }
// the normal distribution and the shuffle of the standard library, by name: one draw per call, from the given generator with the given parameters
namespace std {
	template<typename T> struct vp_normal { T m, s; vp_normal(T a, T b) : m(a), s(b) {} template<typename G> T operator()(G& g) { return vp_ao_gauss(&g, m, s); } };
	template<typename I, typename G> void vp_random_shuffle(I b, I e, G& g) { vp_ao_shuffle(b, e, &g); }
}
#define normal_distribution vp_normal
#define random_shuffle vp_random_shuffle
#include "nntl/weights_init.h"
#include "nntl/_SNN_common.h"
#define Q ,
struct RG { typedef D real_t; typedef MX realmtx_t; void gen_matrix(MX& m, D s) { vp_ao_genmtx(this, m.data(), m.numel(), s); } };
struct IM { bool mSVD_Orthogonalize_ss(MX& W) { return vp_ao_svd(this, W.data(), W.rows(), W.cols()); } void evMulC_ip(MX& W, D v) { vp_ao_mulc(this, W.data(), W.numel(), v); } };
extern "C" {
#define WI(nm, T, spec) bool vp_##nm##_i(RG& g, IM& im, D* a, int r, int c) { MTX(W, a, r, c+1); return weights_init::T::make_weights(W, g, im); } bool vp_##nm##_s(RG& g, IM& im, D* a, int r, int c) { spec; return true; }
#define HZ(sd) const D q = sd; for (L i = 0; i < L(r)*c; ++i) a[i] = vp_ao_gauss(&g, 0, q); for (L i = 0; i < r; ++i) a[L(r)*c + i] = 0
WI(xavier, Xavier<>, vp_ao_genmtx(&g, a, L(r)*(c+1), std::sqrt(D(6)/(r+c+1))))
WI(xavier2, Xavier<2000000>, vp_ao_genmtx(&g, a, L(r)*(c+1), 2*std::sqrt(D(6)/(r+c+1))))
WI(xavier4, XavierFour, vp_ao_genmtx(&g, a, L(r)*(c+1), 4*std::sqrt(D(6)/(r+c+1))))
WI(hz, He_Zhang<>, HZ(std::sqrt(2./c)))
WI(hz3, He_Zhang<3000000>, HZ(3*std::sqrt(2./c)))
WI(hz2, He_Zhang2<>, HZ(std::sqrt(2./c)))
WI(hz2_3, He_Zhang2<3000000>, HZ(std::sqrt(3./c)))
WI(snn, SNNInit, HZ(std::sqrt(1./c)))
#define OI(nm, T, N, G, post) bool vp_##nm##_i(RG& g, IM& im, D* a, int r, int c) { MTX(W, a, r, c); return weights_init::T::make_weights(W, g, im); } \
 bool vp_##nm##_s(RG& g, IM& im, D* a, int r, int c) { bool ok; GO(N, post) }
#define GEN for (L i = 0; i < L(r)*c; ++i) a[i] = vp_ao_gauss(&g, 0, 1);
#define GO(N, post) GO##N(post)
#define GO1(post) GEN ok = vp_ao_svd(&im, a, r, c); post; return ok;
#define GO2(post) GEN ok = vp_ao_svd(&im, a, r, c); if (!ok) { GEN ok = vp_ao_svd(&im, a, r, c); } post; return ok;
#define GO3(post) GEN ok = vp_ao_svd(&im, a, r, c); if (!ok) { GEN ok = vp_ao_svd(&im, a, r, c); if (!ok) { GEN ok = vp_ao_svd(&im, a, r, c); } } post; return ok;
OI(ortho1, OrthoInit<1000000 Q 1>, 1, , )
OI(ortho1g, OrthoInit<2500000 Q 1>, 1, , vp_ao_mulc(&im Q a Q L(r)*c Q D(2.5)))
OI(ortho2, OrthoInit<1000000 Q 2>, 2, , )
OI(ortho3, OrthoInit<1000000 Q 3>, 3, , )
bool vp_alias_i(void) { return std::is_same<weights_init::OrthoInit_u, weights_init::OrthoInit<1000000, 5>>::value && std::is_same<weights_init::XavierFour, weights_init::Xavier<4000000>>::value && std::is_base_of<weights_init::He_Zhang2<1000000>, weights_init::SNNInit>::value
 && std::is_same<weights_init::Martens_SI_sigm<7>, weights_init::Martens_SI<0, 1000000, 7>>::value && std::is_same<weights_init::Martens_SI_tanh<7>, weights_init::Martens_SI<500000, 250000, 7>>::value; } bool vp_alias_s(void) { return true; }
#define MS(nm, T, K, SD, B) bool vp_##nm##_i(RG& g, IM& im, D* a, int r, int c) { MTX(W, a, r, c+K+1); return weights_init::T::make_weights(W, g, im); } \
 bool vp_##nm##_s(RG& g, IM& im, D* a, int r, int c) { const int p = c+K; for (L i = 0; i < L(r)*(p+1); ++i) a[i] = 0; std::unique_ptr<int[]> ix(new(std::nothrow) int[p]); int* x = ix.get(); if (!x) return false; for (int i = 0; i < p; ++i) x[i] = i; \
  MX src(K, r); if (src.isAllocationFailed()) return false; for (L i = 0; i < src.numel(); ++i) src.data()[i] = vp_ao_gauss(&g, 0, SD); for (int i = 0; i < r; ++i) { vp_ao_shuffle(x, x + p, &g); for (int k = 0; k < K; ++k) a[i + L(r)*x[k]] = src.data()[L(i)*K + k]; } B return true; }
MS(mart, Martens_SI<0 Q 1500000 Q 3>, 3, D(1.5), )
MS(martb, Martens_SI<500000 Q 250000 Q 3>, 3, D(.25), for (int i = 0; i < r; ++i) a[i + L(r)*p] = D(.5);)
// normal distribution helper: exactly the requested elements, one draw each
void vp_dn_i_v(RG& g, D* a, D m, D s, L n) { rng::distr_normal_naive<RG> d(g, m, s); d.gen_vector(a, n); } void vp_dn_s_v(RG& g, D* a, D m, D s, L n) { for (L i = 0; i < n; ++i) a[i] = vp_ao_gauss(&g, m, s); }
void vp_dn_i_m(RG& g, D* a, D m, D s, int r, int c) { MTXB(W, a, r, c); rng::distr_normal_naive<RG> d(g, m, s); d.gen_matrix(W); } void vp_dn_s_m(RG& g, D* a, D m, D s, int r, int c) { for (L i = 0; i < L(r)*(c+1); ++i) a[i] = vp_ao_gauss(&g, m, s); }
void vp_dn_i_nb(RG& g, D* a, D m, D s, int r, int c) { MTXB(W, a, r, c); rng::distr_normal_naive<RG> d(g, m, s); d.gen_matrix_no_bias(W); } void vp_dn_s_nb(RG& g, D* a, D m, D s, int r, int c) { for (L i = 0; i < L(r)*c; ++i) a[i] = vp_ao_gauss(&g, m, s); }
// self-normalising constants: affine correction that restores mean and variance after alpha dropout
typedef _impl::SNN_td<D, 1500000000, 2000000000, 500000, 2000000> S1; typedef _impl::SNN_td<D> S0;
#define SNNREF(nal, mu, va) const double q = 1 - dpa, w = nal - (mu); const double A = std::sqrt((va)/(dpa*(q*(w*w) + (va)))), B = (mu) - A*(dpa*(mu) + q*(nal))
void vp_snn1_i(D dpa, D* o) { D x, y; S1::calc_a_b(dpa, x, y); o[0] = x; o[1] = y; } void vp_snn1_s(D dpa, D* o) { SNNREF(-3., .5, 2.); o[0] = A; o[1] = B; }
void vp_snn2_i(D dpa, D* o) { D x, y, z; S1::calc_coeffs(dpa, x, y, z); o[0] = x; o[1] = y; o[2] = z; } void vp_snn2_s(D dpa, D* o) { SNNREF(-3., .5, 2.); o[0] = A; o[1] = B; o[2] = A*-3. + B; }
#define SAL 1.6732632423543772848170429916717
#define SLA 1.0507009873554804934193349852946
void vp_snn3_i(D dpa, D* o) { D x, y; S0::calc_a_b(dpa, x, y); o[0] = x; o[1] = y; } void vp_snn3_s(D dpa, D* o) { SNNREF(-(SAL*SLA), 0., 1.); o[0] = A; o[1] = B; }
void vp_snn4_i(D dpa, D* o) { D x, y, z; S0::calc_coeffs(dpa, x, y, z); o[0] = x; o[1] = y; o[2] = z; } void vp_snn4_s(D dpa, D* o) { SNNREF(-(SAL*SLA), 0., 1.); o[0] = A; o[1] = B; o[2] = A*-(SAL*SLA) + B; }
void vp_snn5_i(D* o) { o[0] = S0::Alpha; o[1] = S0::Lambda; o[2] = S0::Alpha_t_Lambda; o[3] = S0::Neg_Alpha_t_Lambda; o[4] = S0::FixedPointMean; o[5] = S0::FixedPointVariance; o[6] = S1::Alpha; o[7] = S1::Lambda; o[8] = S1::Neg_Alpha_t_Lambda; o[9] = S1::FixedPointMean; o[10] = S1::FixedPointVariance; }
void vp_snn5_s(D* o) { o[0] = D(SAL); o[1] = D(SLA); o[2] = D(SAL*SLA); o[3] = -D(SAL*SLA); o[4] = 0; o[5] = 1; o[6] = 1.5; o[7] = 2; o[8] = -3; o[9] = .5; o[10] = 2; }
}
