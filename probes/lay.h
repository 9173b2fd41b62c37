#pragma once
#include "iface.h"
#include "nntl/nntl.h"
#define ND noexcept
extern "C" {
// steps of one pass, in order: what each one is given (pointer, size, layout flags); l(...) = opaque, may change anything reachable
void vp_in(int what, long a, long b); void vp_in2(int what, const D* a, int r, int c, int f);
void vp_ao_fmul(D* a, int ar, int ac, int af, const D* p, int pr, int pc, int pf, const D* w, int wr, int wc, int wf);
void vp_ao_bmul(D* o, int r, int c, int f, const D* z, int zr, int zc, int zf, const D* w, int wr, int wc, int wf);
void vp_ao_wmul(D* o, int r, int c, int f, D s, const D* z, int zr, int zc, int zf, const D* p, int pr, int pc, int pf);
void vp_ao_f(D* a, int r, int c, int f); void vp_ao_df(D* a, int r, int c, int f); void vp_ao_did(D* a, int r, int c, int f); void vp_ao_dl(D* a, int r, int c, int f, const D* y, int yr, int yc, int id);
void vp_ao_gwapply(D* w, int r, int c, D* d, int dr, int dc); void vp_ao_gwpre(D* w, int r, int c); void vp_ao_clamp(D*, int, int, D, D); void vp_ao_bin(D*, int, int, int, D, D, D);
void vp_ao_roll(D* o, int r, int c, int f, const D* a, int ar, int ac, int af); void vp_ao_unroll(D* o, int r, int c, int f, const D* a, int ar, int ac, int af); void vp_ao_oc(D* o, int r, int c, int f, const D* a, int ar, int ac, int af); void vp_ao_xr(D* o, int r, int c, int f, const D* a, int ar, int ac, int af, const D* m); void vp_ao_fr(D* o, int r, int c, int f, const D* a, int ar, int ac, int af, const D* m); int vp_nz(const D*, long);
D vp_gwla(const D*, int, int); bool vp_gwhas(long); bool vp_gwinit(const D*, int, int); bool vp_mkw(D*, int, int);
}
#define FL(m) ((m).emulatesBiases() + 2*(m).bBatchInRow())
#define MD_(m) (m).data(), (m).rows(), (m).cols(), FL(m)
struct LM : public math::_i_math<real_t> {
	typedef StubThreads iThreads_t; typedef imem::imemmgr iMemmgr_t; typedef ::real_t real_t; StubThreads thr; StubThreads& ithreads()ND { return thr; }
	void preinit(const numel_cnt_t n)ND { vp_preinit(n); }
	void mMul_prevAct_weights_2_act(const MX& p, const MX& w, MX& a)ND { vp_ao_fmul(MD_(a), MD_(p), MD_(w)); }
	void mMul_dLdZ_weights_2_dLdAPrev(const MX& z, const MX& w, MX& o)ND { vp_ao_bmul(MD_(o), MD_(z), MD_(w)); }
	void mMulScaled_dLdZ_prevAct_2_dLdW(const D s, const MX& z, const MX& p, MX& o)ND { vp_ao_wmul(MD_(o), s, MD_(z), MD_(p)); }
	void mTilingRoll(const MX& a, MX& o)ND { vp_ao_roll(MD_(o), MD_(a)); } void mTilingUnroll(const MX& a, MX& o)ND { vp_ao_unroll(MD_(o), MD_(a)); }
	void mExtractRowsByMask(const MX& a, const D* m, MX& o)ND { vp_ao_xr(MD_(o), MD_(a), m); } void mFillRowsByMask(const MX& a, const D* m, MX& o)ND { vp_ao_fr(MD_(o), MD_(a), m); }
	void evOneCompl(const MX& a, MX& o)ND { vp_ao_oc(MD_(o), MD_(a)); } numel_cnt_t vCountNonZeros(const D* p, const numel_cnt_t n)ND { return vp_nz(p, n); }
	void vAdd_ip(D* a, const D* b, const numel_cnt_t n)ND { for (L i = 0; i < n; ++i) a[i] += b[i]; }
	void evMul_ip(MX& A, const MX& B)ND { D* a = A.data(); const D* b = B.data(); for (L i = 0, n = A.numel(); i < n; ++i) a[i] *= b[i]; }
	void ewBinarize_ip(MX& A, const D frac, const D lo, const D hi)ND { vp_ao_bin(MD_(A), frac, lo, hi); }
	void evClamp(MX& A, D lo, D hi)ND { vp_ao_clamp(A.data(), A.rows(), A.cols(), lo, hi); }
};
struct LSI : public inspector::dummy<real_t> {
#ifdef VP_LSI_INIT
	template<class S, class I> void init_layer(const layer_index_t l, S&&, const I& t)ND { vp_in(20, l, long(t)); }
#endif
	void fprop_begin(const layer_index_t l, const realmtx_t& p, const bool t)ND { vp_in(1, l, t); }
	void fprop_end(const realmtx_t& a)ND { vp_in2(2, MD_(a)); }
	void fprop_makePreActivations(const realmtx_t& w, const realmtx_t& p)ND { vp_in2(3, MD_(w)); vp_in2(4, MD_(p)); }
	void fprop_preactivations(const realmtx_t& a)ND { vp_in2(5, MD_(a)); }
	void fprop_activations(const realmtx_t& a)ND { vp_in2(6, MD_(a)); }
	template<class T> void bprop_begin(const layer_index_t l, const math::smatrix<T>& a)ND { vp_in(7, l, 0); vp_in2(8, MD_(a)); }
	void bprop_end(const realmtx_t& a)ND { vp_in(9, 0, 0); }
	void bprop_finaldLdA(const realmtx_t& a)ND { vp_in2(10, MD_(a)); }
	void bprop_predAdZ(const realmtx_t& a)ND { vp_in2(11, MD_(a)); }
	void bprop_dAdZ(const realmtx_t& a)ND { vp_in2(12, MD_(a)); }
	void bprop_dLdZ(const realmtx_t& a)ND { vp_in2(13, MD_(a)); }
	void bprop_dLdW(const realmtx_t& z, const realmtx_t& p, const realmtx_t& w)ND { vp_in2(14, MD_(z)); vp_in2(15, MD_(p)); vp_in2(16, MD_(w)); }
	template<class T> void bprop_predLdZOut(const realmtx_t& a, const math::smatrix<T>& y)ND { vp_in2(17, MD_(a)); vp_in2(18, MD_(y)); }
	void bprop_postClampdLdZ(const realmtx_t& a, const D& lo, const D& hi)ND { vp_in2(19, MD_(a)); }
};
struct LIF { typedef ::real_t real_t; typedef StubThreads iThreads_t; typedef imem::imemmgr iMemmgr_t; typedef LM iMath_t; typedef RR iRng_t; typedef LSI iInspect_t; };
struct WI { template<class R, class M> static bool make_weights(MX& W, R& r, M& m)ND { return vp_mkw(W.data(), W.rows(), W.cols()); } };
struct LA : public activation::_i_activation<real_t, WI, true> {
	template<class M> static void f(MX& a, M&)ND { vp_ao_f(MD_(a)); } template<class M> static void df(MX& a, M&)ND { vp_ao_df(MD_(a)); } template<class M> static void dIdentity(MX& a, M&)ND { vp_ao_did(MD_(a)); }
	template<class T, class M> static numel_cnt_t needTempMem(const math::smatrix_td::mtx_size_t& s, M&)ND { return 3*L(s.first)*s.second; }
};
struct LO : public LA, public activation::_i_activation_loss<real_t> {
	template<class T, class M> static void dLdZ(const math::smatrix<T>& y, MX& a, M&)ND { vp_ao_dl(MD_(a), y.data(), y.rows(), y.cols(), 0); }
	template<class T, class M> static void dLdZIdentity(const math::smatrix<T>& y, MX& a, M&)ND { vp_ao_dl(MD_(a), y.data(), y.rows(), y.cols(), 1); }
};
struct LG : public nntl::_impl::_i_grad_works<real_t> { typedef LIF interfaces_t; D lr; bool ini, fr; LG(D l)ND : lr(l), ini(false), fr(false) {}
	template<class C> bool gw_init(const C&, const MX& w)ND { return ini = fr || vp_gwinit(w.data(), w.rows(), w.cols()); } void gw_deinit()ND { ini = false; }
	void pre_training_fprop(MX& w)ND { vp_ao_gwpre(w.data(), w.rows(), w.cols()); } void apply_grad(MX& w, MX& d)ND { vp_ao_gwapply(w.data(), w.rows(), w.cols(), d.data(), d.rows(), d.cols()); }
	D lossAddendum(const MX& w)const ND { return vp_gwla(w.data(), w.rows(), w.cols()); } bool hasLossAddendum()const ND { return vp_gwhas(0); }
};
typedef LFC<LA, LG> LF; typedef layer_output<LO, LG> LOut; typedef layer_input<LIF> LIn; typedef LFC_FProp<LIF, LA> LFp; typedef nntl::LI<LIF> LIde; typedef LIG<250000, LIF> LGate;
// the network's batch sizes differ from that of the layer (a smaller last batch, a tiled layer)
#define BS_(cd, n) cd.m_max_fprop_batch_size = n + 19; cd.m_training_batch_size = n + 11; cd.m_cur_batch_size = n + 7
// a layer working in caller memory: weights w [r x c+1], activations a [n x r+1], in a given mode
struct R0 { LM m; RR rr; LSI ii; bool blk; LF::common_data_t cd; R0()ND : blk(false), cd(m, rr, ii, blk) {} };
template<class T> struct RL : R0 { T l; RL(D* w, D* a, int n, int r, int c, bool tr, bool bias = true)ND : l(r, D(.5)) { st(w, a, n, r, c, tr, bias); }
	void st(D* w, D* a, int n, int r, int c, bool tr, bool bias)ND { l.m_layerIdx = 7; l.m_incoming_neurons_cnt = c; cd.set_training_mode(tr); BS_(cd, n); l.m_pCommonData = &cd; l.m_weights.useExternalStorage(w, r, c + 1); l.m_activations.useExternalStorage(a, n, r + bias, bias); l.m_bActivationsValid = true; } };
struct RI0 : R0 { nntl::LI<LIF> l; RI0(D* a, int n, int c, bool tr)ND { s(l, cd, a, n, c, tr); } template<class T> static void s(T& l, LF::common_data_t& cd, D* a, int n, int c, bool tr)ND { l.m_layerIdx = 7; l.m_incoming_neurons_cnt = l.m_neurons_cnt = c; cd.set_training_mode(tr); BS_(cd, n); l.m_pCommonData = &cd; l.m_activations.useExternalStorage(a, n, c + 1, true); } };
// layers that do not build a name string for the inspector
#define NONAME(T, B) struct T : public B { template<class... A> T(A... a)ND : B(a...) {} static constexpr layer_type_id_t get_layer_type_id()ND { return 3; } std::string get_layer_name_str()const ND { return std::string(); } };
template<class T> using LFB = _LFC<T, LA, LG>; template<class T> using LOB = _layer_output<T, LO, LG>;
template<class T> using LPB = _LFC_FProp<T, LIF, LA, true>;
NONAME(LPn, LPB<LPn>) NONAME(LFn, LFB<LFn>) NONAME(LOn, LOB<LOn>)
// initialisation: a layer whose data comes from a batch of mb samples for inference and tb for training
struct Li { long max_f, max_t, da, np; int om, ot; bool d, w, a; };
struct RN : R0 { LF::_layer_init_data_t lid; RN(int mb, int tb)ND : lid(in(cd, mb, tb), mb, tb) { lid.pass_to_upper_layer(); } static LF::common_data_t& in(LF::common_data_t& cd, int mb, int tb)ND { cd.m_max_fprop_batch_size = mb; cd.m_training_batch_size = tb; return cd; }
	void out(Li* o)ND { o->max_f = lid.maxMemFPropRequire; o->max_t = lid.maxMemTrainingRequire; o->da = lid.max_dLdA_numel; o->np = lid.nParamsToLearn; o->om = lid.outgBS.maxBS; o->ot = lid.outgBS.maxTrainBS; o->d = lid.bOutputDifferentDuringTraining; o->w = lid.bLossAddendumDependsOnWeights; o->a = lid.bLossAddendumDependsOnActivations; } };
struct Bs { D* p; int r, c, f; int ret; bool v, sh; };
template<class T> static inline void bsz(Bs* o, T& l, int k)ND { o->p = l.m_activations.m_pData; o->r = l.m_activations.m_rows; o->c = l.m_activations.m_cols; o->f = FL(l.m_activations); o->ret = k; o->v = l.m_bActivationsValid; o->sh = l.is_activations_shared(); }
