// flags: -fno-access-control -fno-exceptions
#include <vector>
#include <random>
#include <algorithm>
#include <numeric>
extern "C" { void vp_ao_shuffle(int*, int*, void*); }
namespace std { template<typename I, typename G> void vp_random_shuffle(I b, I e, G& g) { vp_ao_shuffle(&*b, &*b + (e - b), &g); } }
#define random_shuffle vp_random_shuffle
#include "lay.h"
// the numeric gradient check driver: which losses it compares, with which perturbations, and when it calls a gradient wrong
extern "C" {
void vp_inI(int w, long a, long b, long c); void vp_inD(int w, D v);
unsigned short vp_usm(int) PURE; D vp_gl(int grp, int ph, int l, int a, int b, const D* y, long n) PURE; D vp_ga(int ph, int l, int a, int b) PURE; D vp_gan(int grp, int l, int a, int b) PURE; int vp_gbs(int l, int a, int b) PURE;
}
#ifdef VP_ZERO // a network without any gradient: how many zeros are tolerated
#define vp_gl(...) D(0)
#define vp_gan(...) D(0)
#define vp_ga(...) D(0)
#endif
typedef nntl::_impl::gradcheck_paramsGroup PG; typedef nntl::_impl::gradcheck_phase PH; typedef nntl::_impl::gradcheck_mode GM_;
struct GI : public LSI {
	typedef GI gradcheck_inspector_t; using mtx_coords_t = typename realmtx_t::mtx_coords_t;
	int grp, ph, l, a, b;
	void gc_init(const D s)ND { vp_inD(20, s); } void gc_deinit()ND { vp_inI(21, 0, 0, 0); } void gc_reset()ND { vp_inI(22, 0, 0, 0); }
	PG gc_getCurParamsGroup()const ND { return PG(grp); }
	void gc_prep_check_layer(const layer_index_t li, const PG g, const mtx_coords_t& c, const bool m)ND { grp = int(g); l = li; a = c.first; b = c.second; vp_inI(23, li, int(g), m); vp_in(24, c.first, c.second); }
	void gc_set_phase(const PH p)ND { ph = int(p); vp_in(25, int(p), 0); }
	D get_analytical_value()const ND { vp_in(26, 0, 0); return vp_gan(grp, l, a, b); } vec_len_t get_real_batch_size()const ND { vp_in(27, 0, 0); return vp_gbs(l, a, b); }
};
struct GR : public RR { void seed64(const size_t s)ND { vp_in(32, 0, 0); } };
struct GMt : public LM { template<class It> void mExtractRows(const MX& s, const It& i, MX& o)ND { vp_in2(33, MD_(s)); vp_in2(34, MD_(o)); } };
struct GIF { typedef ::real_t real_t; typedef StubThreads iThreads_t; typedef imem::imemmgr iMemmgr_t; typedef GMt iMath_t; typedef GR iRng_t; typedef GI iInspect_t; };
struct GInp { int n; int get_neurons_cnt()const ND { return n; } };
struct GO { int n; int get_neurons_cnt()const ND { return n; } GI* gi; layer_index_t idx; layer_index_t get_layer_idx()const ND { return idx; }
	template<class Y> D calc_loss(const Y& y)ND { vp_in2(40, MD_(y)); return vp_gl(gi->grp, gi->ph, gi->l, gi->a, gi->b, y.m_pData, y.m_rows); } };
typedef nntl::_nnet_errs::ErrorCode E0;
struct GL {
	typedef GIF interfaces_t; typedef GMt iMath_t; typedef GR iRng_t; typedef GI iInspect_t; typedef ::real_t real_t; static constexpr size_t layers_count = 3;
	std::array<MD, 2> m_a_dLdA; GO o; GInp in; GInp& input_layer()ND { return in; }  GI* gi;
	GO& output_layer()ND { return o; } size_t total_layers()const ND { return 3; }
	void fprop(const MX& x)ND { vp_in2(44, MD_(x)); } template<class Y> void bprop(const Y& y)ND { vp_in2(45, MD_(y)); }
	void resetCalcLossAddendum()ND { vp_in(46, 0, 0); } D calcLossAddendum()ND { vp_in(47, 0, 0); return vp_ga(gi->ph, gi->l, gi->a, gi->b); }
	void on_batch_size_change(const vec_len_t b)ND { vp_inI(43, b, 0, 0); }
	template<class F> void for_each_packed_layer_exc_input_down(F& f)ND { vp_inI(50, int(f.m_mode), f.m_data.batchX().rows(), f.m_data.batchY().rows()); vp_in(51, f.m_nn.m_cur_batch_size, f.m_nn.m_bInTraining); f.m_failedLayerIdx = vp_usm(int(f.m_mode)); }
	void deinit_layers()ND {} void initMem(D*, const numel_cnt_t)ND {} template<class C> std::pair<E0, layer_index_t> init_layers(const C& cd, nntl::_impl::layers_mem_requirements& l)ND { vp_inI(41, cd.m_max_fprop_batch_size, cd.m_training_batch_size, 0); return std::pair<E0, layer_index_t>(E0(vp_gbs(1, 1, 1)), 0); }
};
typedef nnet<GL> NG; typedef NG::GradCheckFunctor GF; typedef nntl::gradcheck_settings<D> GS;
template<class T> struct Raw { alignas(T) char m[sizeof(T)]; T& operator*() { return *reinterpret_cast<T*>(m); } };
#define GRIG GMt sm; GR sr; GI si; GL sl; sl.o.gi = &si; sl.gi = &si; sl.o.idx = oi; NG sn(sl, &si, &sm, &sr);
#define ST GS gs(false, fs, ss);
template<class T> static inline void setv(std::vector<T>& v, T* p, L n)ND { v._M_impl._M_start = p; v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n; }
union HF { GF f; HF(NG& n, const GS& s)ND : f(n, s) {} ~HF() {} };
// data whose current batch is all of it, or a fresh extract
#define FULLB MX X, Y; X.useExternalStorage(x, nb, nx + 1, true); Y.useExternalStorage(y, nb, ny); f.m_data.m_pDataX = f.m_data.m_pBatchX = &X; f.m_data.m_pDataY = f.m_data.m_pBatchY = &Y;
#define PARTB MX X, Y; X.useExternalStorage(x, nb + nd, nx + 1, true); Y.useExternalStorage(y, nb + nd, ny); f.m_data.m_pDataX = &X; f.m_data.m_pDataY = &Y; new (&f.m_data.m_batchX) math::smatrix_deform<D>(bx, nb, nx + 1, true); new (&f.m_data.m_batchY) math::smatrix_deform<D>(by, nb, ny, false); f.m_data.m_pBatchX = &f.m_data.m_batchX; f.m_data.m_pBatchY = &f.m_data.m_batchY; setv(f.m_data.m_rowsIdxs, idx, nb + nd); f.m_data.m_next = f.m_data.m_rowsIdxs.cbegin();
union HS_ { GS g; HS_(bool fs, D ss)ND : g(false, fs, ss) {} ~HS_() {} };
#define FNR HS_ hs_(fs, ss); GS& gs = hs_.g; GMt sm; GI si; GL sl; sl.o.gi = &si; sl.gi = &si; sl.o.idx = oi; NG sn(sl, &si, &sm, rng); HF hf(sn, gs); GF& f = hf.f;
#define FN HS_ hs_(fs, ss); GS& gs = hs_.g; GRIG HF hf(sn, gs); GF& f = hf.f;
// one evaluation of the loss: nothing cached, the forward pass over the current batch, the loss against its labels and the additions
static inline D rloss(bool fs, int g, int ph, int l, int a, int b, const D* x, const D* y, int nb, int nx, int ny)ND { vp_in(46, 0, 0); if (fs) vp_in(32, 0, 0); vp_in2(44, x, nb, nx + 1, 1); vp_in2(40, y, nb, ny, 0); vp_in(47, 0, 0); return vp_gl(g, ph, l, a, b, y, nb) + vp_ga(ph, l, a, b); }
// what counts as wrong: returns true when the gradient is to be called wrong
static inline bool rerr(int g, int l, D an, D nu, D wa, D fa, D ww, D fw, int& nz, int mz, bool ig)ND {
	if (an == 0 && nu == 0) { ++nz; return nz > mz && !(g == 1 && l == 1 && ig); }
	const D e = std::abs(an - nu)/std::max(std::abs(an), std::abs(nu)); const D w = g ? ww : wa, t = g ? fw : fa; return !(e <= w) && !(e < t);
}
static inline void ran(bool fs, const D* x, const D* y, int nb, int nx, int ny)ND { vp_in(25, int(PH::df_analytical), 0); if (fs) vp_in(32, 0, 0); vp_in2(44, x, nb, nx + 1, 1); if (fs) vp_in(32, 0, 0); vp_in2(45, y, nb, ny, 0); vp_in(26, 0, 0); }
extern "C" {
// ---------------------------------------------------------------- a check leaves the network as it found it
void vp_gcc_i(int nf, int nt, int zc, int oi, D ss, bool tr, bool fu, bool fs) { GS gs(false, fs, ss); GRIG sn.m_max_fprop_batch_size = nf; sn.m_training_batch_size = nt; sn.m_cur_batch_size = zc; sn.m_bInTraining = tr; sn.m_bCalcFullLossValue = fu; HF hf(sn, gs); vp_inI(90, sn.m_cur_batch_size, sn.m_bInTraining, sn.m_bCalcFullLossValue); vp_inI(91, sn.m_bLearningBlockedFlag, hf.f.m_outputLayerIdx, 0); }
void vp_gcc_s(int nf, int nt, int zc, int oi, D ss, bool tr, bool fu, bool fs) { vp_inD(20, ss); vp_inI(90, zc, tr, 1); vp_inI(91, 1, layer_index_t(oi), 0); }
void vp_gcd_i(int nf, int nt, int zc, int zd, int oi, D ss, bool tr, bool t2, bool fu, bool fs) { GS gs(false, fs, ss); GRIG sn.m_max_fprop_batch_size = nf; sn.m_training_batch_size = nt; sn.m_cur_batch_size = zc; sn.m_bInTraining = tr; sn.m_bCalcFullLossValue = fu; { GF f(sn, gs); sn.m_cur_batch_size = zd; sn.m_bInTraining = t2; } vp_inI(90, sn.m_cur_batch_size, sn.m_bInTraining, sn.m_bCalcFullLossValue); vp_inI(91, sn.m_bLearningBlockedFlag, 0, 0); }
void vp_gcd_s(int nf, int nt, int zc, int zd, int oi, D ss, bool tr, bool t2, bool fu, bool fs) { vp_inD(20, ss); vp_inI(21, 0, 0, 0); if (zc != zd || tr != t2) vp_inI(43, zc, 0, 0); vp_inI(90, zc, tr, fu); vp_inI(91, 0, 0, 0); }
// ---------------------------------------------------------------- the verdict on one entry
int vp_gce_i(unsigned short h, D an, D nu, int z, int zm, int ra, int rb, D wa, D fa, D ww, D fw, bool dw, bool ig) { const bool fs = false; const int oi = 9; const D ss = 1; FN f.m_failedLayerIdx = 0; si.grp = dw; gs.evalSetts.dLdA_setts.relErrWarnThrsh = wa; gs.evalSetts.dLdA_setts.relErrFailThrsh = fa; gs.evalSetts.dLdW_setts.relErrWarnThrsh = ww; gs.evalSetts.dLdW_setts.relErrFailThrsh = fw; gs.evalSetts.bIgnoreZerodLdWInUndelyingLayer = ig;
	setv(f.m_data.m_rowsIdxs, (int*)nullptr, 0); neurons_count_t nz = z; const neurons_count_t mz = zm; f._checkErr(h, an, nu, GI::mtx_coords_t(ra, rb), mz, nz); vp_in(90, nz, f.m_failedLayerIdx); return 0; }
int vp_gce_s(unsigned short h, D an, D nu, int z, int zm, int ra, int rb, D wa, D fa, D ww, D fw, bool dw, bool ig) { vp_inD(20, 1); int nz = z; const bool w = rerr(dw, h, an, nu, wa, fa, ww, fw, nz, zm, ig); vp_in(90, nz, w ? h : 0); return 0; }
}
extern "C" {
D vp_gcl_i(D* x, D* y, int nb, int nx, int ny, int l, int za, int zb, bool fs) { const int oi = 9; const D ss = 1; FN FULLB sn.m_bInTraining = true; si.grp = 0; si.ph = 1; si.l = l; si.a = za; si.b = zb; return f._calcLossF(7); }
D vp_gcl_s(D* x, D* y, int nb, int nx, int ny, int l, int za, int zb, bool fs) { vp_inD(20, 1); return rloss(fs, 0, 1, l, za, zb, x, y, nb, nx, ny); }
// ---------------------------------------------------------------- one weight: the loss with the weight lowered, then raised, then the gradient computed - over the same batch
#define WT gs.evalSetts.dLdW_setts.relErrWarnThrsh = ww; gs.evalSetts.dLdW_setts.relErrFailThrsh = fw; gs.evalSetts.dLdA_setts.relErrWarnThrsh = wa; gs.evalSetts.dLdA_setts.relErrFailThrsh = fa; gs.evalSetts.bIgnoreZerodLdWInUndelyingLayer = ig;
#define WA D wa, D fa, D ww, D fw
}
template<bool Y> static inline void rwei(D ss, unsigned short h, int a, int b, bool ex, const D* x, const D* y, int nb, int nx, int ny, bool fs, D ww, D fw, int& nz, int mz, bool ig, bool& bad)ND {
	if (fs) time(nullptr);
	vp_inI(23, h, 1, ex); vp_in(24, a, b); vp_in(25, int(PH::df_numeric_minus), 0);
	const D m = rloss(fs, 1, int(PH::df_numeric_minus), h, a, b, x, y, nb, nx, ny); vp_in(27, 0, 0); vp_in(25, int(PH::df_numeric_plus), 0);
	const D p = rloss(fs, 1, int(PH::df_numeric_plus), h, a, b, x, y, nb, nx, ny);
	ran(fs, x, y, nb, nx, ny); bad = rerr(1, h, vp_gan(1, h, a, b), (p - m)/(2*ss*vp_gbs(h, a, b)), 0, 0, ww, fw, nz, mz, ig);
}
extern "C" {
void vp_gcw_i(D* x, D* y, unsigned short* ex, unsigned short h, int ra, int rb, int nb, int nx, int ny, int z, int zm, D ss, WA, bool fs, bool ig) { const int oi = 9; FN FULLB WT setv(gs.layerCanSkipExecIds, ex, 1); sn.m_bInTraining = true; f.m_failedLayerIdx = 0; neurons_count_t nz = z; const neurons_count_t mz = zm; f._checkWeight(h, GI::mtx_coords_t(ra, rb), mz, nz); vp_in(90, nz, f.m_failedLayerIdx); }
void vp_gcw_s(D* x, D* y, unsigned short* ex, unsigned short h, int ra, int rb, int nb, int nx, int ny, int z, int zm, D ss, WA, bool fs, bool ig) { vp_inD(20, ss); bool bad; rwei<0>(ss, h, ra, rb, ex[0] == h, x, y, nb, nx, ny, fs, ww, fw, z, zm, ig, bad); vp_in(90, z, bad ? h : 0); }
void vp_gcwp_i(D* x, D* y, D* bx, D* by, int* idx, unsigned short* ex, unsigned short h, int ra, int rb, int nb, int nd, int nx, int ny, int z, int zm, D ss, WA) { const int oi = 9; const bool fs = false, ig = false; FN PARTB WT setv(gs.layerCanSkipExecIds, ex, 1); sn.m_bInTraining = true; f.m_failedLayerIdx = 0; neurons_count_t nz = z; const neurons_count_t mz = zm; f._checkWeight(h, GI::mtx_coords_t(ra, rb), mz, nz); vp_in(90, nz, f.m_failedLayerIdx); }
void vp_gcwp_s(D* x, D* y, D* bx, D* by, int* idx, unsigned short* ex, unsigned short h, int ra, int rb, int nb, int nd, int nx, int ny, int z, int zm, D ss, WA) { vp_inD(20, ss); vp_in2(33, x, nb + nd, nx + 1, 1); vp_in2(34, bx, nb, nx + 1, 1); vp_in2(33, y, nb + nd, ny, 0); vp_in2(34, by, nb, ny, 0); bool bad; rwei<0>(ss, h, ra, rb, ex[0] == h, bx, by, nb, nx, ny, false, ww, fw, z, zm, false, bad); vp_in(90, z, bad ? h : 0); }
}

// ---------------------------------------------------------------- a layer: distinct entries, each once, until one is wrong; the zero entries of all of them counted together
static inline void iot(int* p, int n)ND { for (L i = 0; i < n; ++i) p[i] = int(i); }
extern "C" {
void vp_gca_i(D* x, D* y, int* g, unsigned short h, int n, int c, int nb, int nx, int ny, int zp, D ss, WA, GR* rng) { const int oi = 9; const bool fs = false, ig = false; FNR FULLB WT gs.evalSetts.dLdA_setts.percOfZeros = zp; gs.groupSetts.set(c); setv(f.m_grpIdx, g, n); sn.m_bInTraining = true; f.m_failedLayerIdx = 0; f._checkdLdA(h, n); vp_in(90, f.m_failedLayerIdx, 0); }
void vp_gca_s(D* x, D* y, int* g, unsigned short h, int n, int c, int nb, int nx, int ny, int zp, D ss, WA, GR* rng) { vp_inD(20, ss); const int k = std::min(n, c); iot(g, n); vp_ao_shuffle(g, g + n, rng); const int mz = (k*zp)/100; int nz = 0; unsigned short fl = 0; const D mu = D(1)/(ss*2);
	for (int i = 0; i < k; ++i) { if (fl) break; const int q = g[i];
		vp_inI(23, h, 0, 0); vp_in(24, 0, q); vp_in(25, int(PH::df_numeric_minus), 0); const D m = rloss(false, 0, int(PH::df_numeric_minus), h, 0, q, x, y, nb, nx, ny); vp_in(25, int(PH::df_numeric_plus), 0); const D p = rloss(false, 0, int(PH::df_numeric_plus), h, 0, q, x, y, nb, nx, ny);
		ran(false, x, y, nb, nx, ny); if (rerr(0, h, vp_gan(0, h, 0, q), mu*(p - m), wa, fa, 0, 0, nz, mz, false)) fl = h; }
	vp_in(90, fl, 0); }
}

extern "C" {
int vp_gcn_i(int n, int c, int p, bool pc) { nntl::gradcheck_groupSetts s; if (pc) { s.set(c, unsigned(p)); } else s.set(c); return s.countToCheck(n); }
int vp_gcn_s(int n, int c, int p, bool pc) { p = std::min(p, 100); const int a = std::min(n, c); return pc ? std::max(int(L(n)*p/100), a) : a; }
// (layer 0 never counts as failed, so this is the walk over all entries)
void vp_gcwa_i(D* x, D* y, int* g, int* sg, int n, int ni, int c, int nb, int nx, int ny, int zp, D ss, WA, GR* rng) { const int oi = 9; const unsigned short h = 0; const bool fs = false, ig = false; FNR FULLB WT gs.evalSetts.dLdW_setts.percOfZeros = zp; gs.groupSetts.set(c); gs.subgroupSetts.set(1); setv(f.m_grpIdx, g, n); setv(f.m_subgrpIdxs, sg, ni); sn.m_bInTraining = true; f.m_failedLayerIdx = 0; f._checkdLdW(h, n, ni); vp_in(90, f.m_failedLayerIdx, 0); }
void vp_gcwa_s(D* x, D* y, int* g, int* sg, int n, int ni, int c, int nb, int nx, int ny, int zp, D ss, WA, GR* rng) { const unsigned short h = 0; vp_inD(20, ss); const int k = std::min(n, c), kk = std::min(ni, 1); iot(g, n); vp_ao_shuffle(g, g + n, rng); iot(sg, ni); const int mz = (k*(kk + 1)*zp)/100; int nz = 0; unsigned short fl = 0; bool bad;
	for (int i = 0; i < k; ++i) { if (fl) break; const int q = g[i]; vp_ao_shuffle(sg, sg + ni, rng);
		for (int j = 0; j < kk; ++j) { if (fl) break; rwei<0>(ss, h, q, sg[j], false, x, y, nb, nx, ny, false, ww, fw, nz, mz, false, bad); if (bad) fl = h; } }
	if (!fl) { vp_ao_shuffle(g, g + n, rng); for (int i = 0; i < k; ++i) { if (fl) break; rwei<0>(ss, h, g[i], ni, false, x, y, nb, nx, ny, false, ww, fw, nz, mz, false, bad); if (bad) fl = h; } }
	vp_in(90, fl, 0); }
void vp_gcwb_i(D* x, D* y, int* g, int* sg, int n, int ni, int c2, int nb, int nx, int ny, int zp, D ss, WA, GR* rng) { const int oi = 9; const unsigned short h = 0; const bool fs = false, ig = false; FNR FULLB WT gs.evalSetts.dLdW_setts.percOfZeros = zp; gs.groupSetts.set(1); gs.subgroupSetts.set(c2); setv(f.m_grpIdx, g, n); setv(f.m_subgrpIdxs, sg, ni); sn.m_bInTraining = true; f.m_failedLayerIdx = 0; f._checkdLdW(h, n, ni); vp_in(90, f.m_failedLayerIdx, 0); }
void vp_gcwb_s(D* x, D* y, int* g, int* sg, int n, int ni, int c2, int nb, int nx, int ny, int zp, D ss, WA, GR* rng) { const unsigned short h = 0; vp_inD(20, ss); const int k = std::min(n, 1), kk = std::min(ni, c2); iot(g, n); vp_ao_shuffle(g, g + n, rng); iot(sg, ni); const int mz = (k*(kk + 1)*zp)/100; int nz = 0; unsigned short fl = 0; bool bad;
	for (int i = 0; i < k; ++i) { if (fl) break; const int q = g[i]; vp_ao_shuffle(sg, sg + ni, rng);
		for (int j = 0; j < kk; ++j) { if (fl) break; rwei<0>(ss, h, q, sg[j], false, x, y, nb, nx, ny, false, ww, fw, nz, mz, false, bad); if (bad) fl = h; } }
	if (!fl) { vp_ao_shuffle(g, g + n, rng); for (int i = 0; i < k; ++i) { if (fl) break; rwei<0>(ss, h, g[i], ni, false, x, y, nb, nx, ny, false, ww, fw, nz, mz, false, bad); if (bad) fl = h; } }
	vp_in(90, fl, 0); }
}
// ---------------------------------------------------------------- the walk over the layers
struct LyA { layer_index_t i; int n, m; layer_index_t get_layer_idx()const ND { return i; } int get_neurons_cnt()const ND { return n; } int get_incoming_neurons_cnt()const ND { return m; } std::string get_layer_name_str()const ND { return std::string(); } };
struct LyL : LyA, nntl::m_layer_learnable {};
extern "C" unsigned short vp_us() PURE;
struct LyP : LyA { typedef int LayerPack_t; template<class F> void for_each_packed_layer_down(F& f)ND { vp_in(52, f.m_failedLayerIdx, i); f.m_failedLayerIdx = vp_us(); } };
extern "C" {
// both passes: entries of single samples first, the batch sums only if those were right; each over its own batch size
bool vp_gcp_i(D* x, D* y, int n, int nx, int ny, int ra, int oi, D ss, int nf, int nt, int zc, bool tr, bool fs) { HS_ hs_(fs, ss); GS& gs = hs_.g; gs.onlineBatchSize = n; GRIG sn.m_max_fprop_batch_size = nf; sn.m_training_batch_size = nt; sn.m_cur_batch_size = zc; sn.m_bInTraining = tr; HF hf(sn, gs); GF& f = hf.f; MX X, Y; X.useExternalStorage(x, n, nx + 1, true); Y.useExternalStorage(y, n, ny); setv(f.m_data.m_rowsIdxs, (int*)nullptr, 0);
	f.m_data.m_pDataX = &X; f.m_data.m_pDataY = &Y; f._launchCheck(GM_::online, n); vp_inI(90, f.m_failedLayerIdx, f.m_data.m_pBatchX == &X, f.m_data.m_pBatchY == &Y); return true; }
bool vp_gcp_s(D* x, D* y, int n, int nx, int ny, int ra, int oi, D ss, int nf, int nt, int zc, bool tr, bool fs) { vp_inD(20, ss); vp_inI(22, 0, 0, 0); if (zc != n || !tr) vp_inI(43, n, 0, 0); vp_inI(50, int(GM_::online), n, n); vp_in(51, n, 1); vp_inI(90, vp_usm(int(GM_::online)), 1, 1); return true; }
}

template<class T> static inline void disp(D* x, D* y, int* g, int* sg, unsigned short* ig_, unsigned short h, unsigned short oi, int fl, int n, int nb, int nx, int ny, D ss, GR* rng, bool ba)ND {
	const bool fs = false; FNR FULLB gs.evalSetts.dLdA_setts.percOfZeros = gs.evalSetts.dLdW_setts.percOfZeros = 100; setv(f.m_grpIdx, g, n); setv(f.m_subgrpIdxs, sg, 1); gs.groupSetts.set(1); setv(gs.ignoreLayerIds, ig_, 1); f.m_mode = ba ? GM_::batch : GM_::online; sn.m_bInTraining = true; f.m_failedLayerIdx = layer_index_t(fl);
	T l; l.i = h; l.n = n; l.m = 1; f(l); vp_in(90, f.m_failedLayerIdx, 0);
}
static inline void rdisp(int kind, D* x, D* y, int* g, int* sg, unsigned short* ig_, unsigned short h, unsigned short oi, int fl0, int n, int nb, int nx, int ny, D ss, GR* rng, bool ba)ND {
	vp_inD(20, ss); unsigned short fl = fl0; if (fl) { vp_in(90, fl, 0); return; }
	if (kind == 2) { vp_in(52, 0, h); fl = vp_us(); if (fl) { vp_in(90, fl, 0); return; } }
	if (ig_[0] == h || (ba ? kind != 1 : h == oi)) { vp_in(90, 0, 0); return; }
	const int k = std::min(n, 1); iot(g, n); vp_ao_shuffle(g, g + n, rng); int nz = 0; bool bad;
	bad = false;
	if (ba) { sg[0] = 0; for (int i = 0; i < k; i++) { if (bad && h) break; vp_ao_shuffle(sg, sg + 1, rng); rwei<0>(ss, h, g[i], sg[0], false, x, y, nb, nx, ny, false, 1e-5, 1e-4, nz, 2, false, bad); } if (!(bad && h)) { vp_ao_shuffle(g, g + n, rng); for (int i = 0; i < k; i++) { if (bad && h) break; rwei<0>(ss, h, g[i], 1, false, x, y, nb, nx, ny, false, 1e-5, 1e-4, nz, 2, false, bad); } } }
	else for (int i = 0; i < k; i++) { if (bad && h) break; const int q = g[i]; vp_inI(23, h, 0, 0); vp_in(24, 0, q); vp_in(25, int(PH::df_numeric_minus), 0); const D m = rloss(false, 0, int(PH::df_numeric_minus), h, 0, q, x, y, nb, nx, ny); vp_in(25, int(PH::df_numeric_plus), 0); const D p = rloss(false, 0, int(PH::df_numeric_plus), h, 0, q, x, y, nb, nx, ny);
		ran(false, x, y, nb, nx, ny); bad = rerr(0, h, vp_gan(0, h, 0, q), (1/(2*ss))*(p - m), 1e-6, 1e-4, 0, 0, nz, 1, false); }
	vp_in(90, bad ? h : 0, 0);
}
extern "C" {
#define DA D* x, D* y, int* g, int* sg, unsigned short* ig_, unsigned short oi, int n, int nb, int nx, int ny, D ss, GR* rng
#define DB(f) x, y, g, sg, ig_, 0, oi, f, n, nb, nx, ny, ss, rng
void vp_gdo_i(DA) { disp<LyA>(DB(0), false); } void vp_gdo_s(DA) { rdisp(0, DB(0), false); }
void vp_gdb_i(DA) { disp<LyA>(DB(0), true); } void vp_gdb_s(DA) { rdisp(0, DB(0), true); }
void vp_gdlo_i(DA) { disp<LyL>(DB(0), false); } void vp_gdlo_s(DA) { rdisp(1, DB(0), false); }
void vp_gdlb_i(DA) { disp<LyL>(DB(0), true); } void vp_gdlb_s(DA) { rdisp(1, DB(0), true); }
void vp_gdpo_i(DA) { disp<LyP>(DB(0), false); } void vp_gdpo_s(DA) { rdisp(2, DB(0), false); }
void vp_gdpb_i(DA) { disp<LyP>(DB(0), true); } void vp_gdpb_s(DA) { rdisp(2, DB(0), true); }
void vp_gdf_i(DA) { disp<LyP>(DB(3), false); } void vp_gdf_s(DA) { rdisp(2, DB(3), false); }
}

// ---------------------------------------------------------------- the whole check: online entries, then, if those were right, batch sums
static inline void rlaunch(D* x, D* y, D* bx, D* by, int md, int b, int n, int nx, int& cur, bool& tr)ND { vp_inI(22, 0, 0, 0); if (b < n) for (int i = 0; i < b; ++i) bx[i + L(nx)*b] = 1; if (cur != b || !tr) vp_inI(43, b, 0, 0); cur = b; tr = true; vp_inI(50, md, b, b); vp_in(51, b, 1); }
extern "C" {
bool vp_gpc_i(D* x, D* y, D* bx, D* by, int* idx, int n, int nd, int no, int nx, int ny, unsigned short oi, D ss, int nf, int nt, int zc) { const bool fs = false; HS_ hs_(fs, ss); GS& gs = hs_.g; gs.onlineBatchSize = n; GRIG sn.m_max_fprop_batch_size = nf; sn.m_training_batch_size = nt; sn.m_cur_batch_size = zc; sn.m_bInTraining = false; HF hf(sn, gs); GF& f = hf.f; MX X, Y; X.useExternalStorage(x, n, nx + 1, true); Y.useExternalStorage(y, n, ny); setv(f.m_data.m_rowsIdxs, idx, n);
	const bool r = f.performCheck(n, X, Y); vp_inI(90, f.m_failedLayerIdx, f.m_data.m_pDataX == nullptr, f.m_data.m_pBatchX == nullptr); return r; }
bool vp_gpc_s(D* x, D* y, D* bx, D* by, int* idx, int n, int nd, int no, int nx, int ny, unsigned short oi, D ss, int nf, int nt, int zc) { vp_inD(20, ss); iot(idx, n); int cur = zc; bool tr = false; rlaunch(x, y, bx, by, int(GM_::online), n, n, nx, cur, tr); unsigned short fl = vp_usm(int(GM_::online)); if (!fl) { rlaunch(x, y, bx, by, int(GM_::batch), n, n, nx, cur, tr); fl = vp_usm(int(GM_::batch)); } vp_inI(90, fl, 1, 1); return !fl; }
}

// batches of both sizes out of a data set: the storage for partial batches is as big as the biggest of them
static inline bool gpm(D* x, D* y, D* bx, D* by, int* idx, int b, int on, int mx, int n, int nx, int ny, unsigned short oi, D ss, int nf, int nt, int zc)ND { const bool fs = false; HS_ hs_(fs, ss); GS& gs = hs_.g; gs.onlineBatchSize = on; GRIG sn.m_max_fprop_batch_size = nf; sn.m_training_batch_size = nt; sn.m_cur_batch_size = zc; sn.m_bInTraining = false; HF hf(sn, gs); GF& f = hf.f; MX X, Y; X.useExternalStorage(x, n, nx + 1, true); Y.useExternalStorage(y, n, ny); setv(f.m_data.m_rowsIdxs, idx, n);
	return f.performCheck(b, X, Y); }
static inline void bia(D* bx, int b, int nx)ND { for (L i = 0; i < b; ++i) bx[i + L(nx)*b] = D(1); }
static inline bool rgpm1(D* bx, int* idx, int b, int on, int mx, int n, int nx, int ny, D ss, int nf, int nt, int zc)ND { iot(idx, n); int rr = mx;
	vp_inI(22, 0, 0, 0); if (on < n && rr != on) { bia(bx, on, nx); rr = on; } vp_inI(43, on, 0, 0); vp_inI(50, int(GM_::online), on, on); vp_in(51, on, 1); if (vp_usm(int(GM_::online))) return false;
	vp_inI(22, 0, 0, 0); if (b < n && rr != b) { bia(bx, b, nx); } if (b != on) vp_inI(43, b, 0, 0); vp_inI(50, int(GM_::batch), b, b); vp_in(51, b, 1); return !vp_usm(int(GM_::batch)); }
static inline bool rgpm(D* bx, int* idx, int b, int on, int mx, int n, int nx, int ny, D ss, int nf, int nt, int zc)ND { vp_inD(20, ss); mx = std::max(b < n ? b : 0, on < n ? on : 0); D *p = (D*)vp_amalloc(sizeof(D)*(L(mx)*(L(nx) + 1)), 32); if (p) bia(p, mx, nx); D* q = (D*)vp_amalloc(sizeof(D)*(L(mx)*ny), 32); const bool r = rgpm1(p, idx, b, on, mx, n, nx, ny, ss, nf, nt, zc); if (p) vp_afree(p); if (q) vp_afree(q); return r; }
extern "C" {
#define PA D* x, D* y, D* bx, D* by, int* idx, int no, int nd, int ne, int nx, int ny, unsigned short oi, D ss, int nf, int nt, int zc
#define PB(b, o, m, n) x, y, bx, by, idx, b, o, m, n, nx, ny, oi, ss, nf, nt, zc
#define PC(b, o, m, n) bx, idx, b, o, m, n, nx, ny, ss, nf, nt, zc
bool vp_gpmo_i(PA) { return gpm(PB(no + nd, no, no, no + nd)); } bool vp_gpmo_s(PA) { return rgpm(PC(no + nd, no, no, no + nd)); }
bool vp_gpmb_i(PA) { return gpm(PB(no, no + nd, no, no + nd)); } bool vp_gpmb_s(PA) { return rgpm(PC(no, no + nd, no, no + nd)); }
bool vp_gpme_i(PA) { return gpm(PB(no, no, no, no + nd)); } bool vp_gpme_s(PA) { return rgpm(PC(no, no, no, no + nd)); }
bool vp_gpmx_i(PA) { return gpm(PB(no + nd, no, no + nd, no + nd + ne)); } bool vp_gpmx_s(PA) { return rgpm(PC(no + nd, no, no + nd, no + nd + ne)); }
bool vp_gpmy_i(PA) { return gpm(PB(no, no + nd, no + nd, no + nd + ne)); } bool vp_gpmy_s(PA) { return rgpm(PC(no, no + nd, no + nd, no + nd + ne)); }
}

#ifdef VP_ZERO
// a network without any gradient fails at the first zero above the tolerated share of the entries to check
template<int zp> static inline void z_a(D* x, D* y, int* g, int nb, int nx, int ny, D ss, WA, GR* rng)ND { const int oi = 9, n = 4; const unsigned short h = 3; const bool fs = false, ig = false; FNR FULLB WT gs.evalSetts.dLdA_setts.percOfZeros = zp; gs.groupSetts.set(1); setv(f.m_grpIdx, g, n); sn.m_bInTraining = true; f.m_failedLayerIdx = 0; f._checkdLdA(h, n); vp_in(90, f.m_failedLayerIdx, 0); }
template<int zp> static inline void z_ar(D* x, D* y, int* g, int nb, int nx, int ny, D ss, WA, GR* rng)ND { const int n = 4; const unsigned short h = 3; vp_inD(20, ss); iot(g, n); vp_ao_shuffle(g, g + n, rng); const int mz = zp/100;
	{ const int q = g[0]; vp_inI(23, h, 0, 0); vp_in(24, 0, q); vp_in(25, int(PH::df_numeric_minus), 0); rloss(false, 0, int(PH::df_numeric_minus), h, 0, q, x, y, nb, nx, ny); vp_in(25, int(PH::df_numeric_plus), 0); rloss(false, 0, int(PH::df_numeric_plus), h, 0, q, x, y, nb, nx, ny); ran(false, x, y, nb, nx, ny); }
	vp_in(90, mz < 1 ? h : 0, 0); }
template<int zp> static inline void z_w(D* x, D* y, int* g, int* sg, int nb, int nx, int ny, D ss, WA, GR* rng)ND { const int oi = 9, n = 3, ni = 3; const unsigned short h = 3; const bool fs = false, ig = false; FNR FULLB WT gs.evalSetts.dLdW_setts.percOfZeros = zp; gs.groupSetts.set(1); gs.subgroupSetts.set(1); setv(f.m_grpIdx, g, n); setv(f.m_subgrpIdxs, sg, ni); sn.m_bInTraining = true; f.m_failedLayerIdx = 0; f._checkdLdW(h, n, ni); vp_in(90, f.m_failedLayerIdx, 0); }
template<int zp> static inline void z_wr(D* x, D* y, int* g, int* sg, int nb, int nx, int ny, D ss, WA, GR* rng)ND { const int n = 3, ni = 3; const unsigned short h = 3; vp_inD(20, ss); iot(g, n); vp_ao_shuffle(g, g + n, rng); iot(sg, ni); const int mz = 2*zp/100; int nz = 0; bool bad;
	vp_ao_shuffle(sg, sg + ni, rng); rwei<0>(ss, h, g[0], sg[0], false, x, y, nb, nx, ny, false, ww, fw, nz, mz, false, bad);
	if (nz <= mz) { vp_ao_shuffle(g, g + n, rng); rwei<0>(ss, h, g[0], ni, false, x, y, nb, nx, ny, false, ww, fw, nz, mz, false, bad); }
	vp_in(90, nz > mz ? h : 0, 0); }
extern "C" {
#define ZA(z) void vp_gza##z##_i(D* x, D* y, int* g, int nb, int nx, int ny, D ss, WA, GR* rng) { z_a<z>(x, y, g, nb, nx, ny, ss, wa, fa, ww, fw, rng); } void vp_gza##z##_s(D* x, D* y, int* g, int nb, int nx, int ny, D ss, WA, GR* rng) { z_ar<z>(x, y, g, nb, nx, ny, ss, wa, fa, ww, fw, rng); }
#define ZW(z) void vp_gzw##z##_i(D* x, D* y, int* g, int* sg, int nb, int nx, int ny, D ss, WA, GR* rng) { z_w<z>(x, y, g, sg, nb, nx, ny, ss, wa, fa, ww, fw, rng); } void vp_gzw##z##_s(D* x, D* y, int* g, int* sg, int nb, int nx, int ny, D ss, WA, GR* rng) { z_wr<z>(x, y, g, sg, nb, nx, ny, ss, wa, fa, ww, fw, rng); }
ZA(0)
ZA(99)
ZA(100)
ZW(0)
ZW(49)
ZW(50)
ZW(99)
ZW(100)
}
#endif
