#pragma once
#define VP_LSI_INIT
#include "lay.h"
// packs of layers; the layers inside only report what they are asked to do
extern "C" { int vp_ec(int i) PURE; long vp_q(int i, int what) PURE; int vp_ob(int i, int bs, D* p); D vp_la(int i); int vp_hasla(int i) PURE; }
typedef LF::_layer_init_data_t LID; typedef LF::common_data_t CD;
// what a step is given: where, the values there (their sum; bias column apart); fprop writes the layer's own activations, bprop both gradient buffers
extern "C" { void vp_ao_fp(D* a, int id); void vp_ao_bp(D* d, D* q); void vp_inD(int what, D v); }
static inline void see(int w, const D* p, int r, int c, int f)ND { vp_in2(w, p, r, c, f); D s = 0; const long n = long(r)*(c - (f & 1)); for (long i = 0; i < n; ++i) s += p[i]; vp_inD(w, s); if (f & 1) { D b = 0; for (int i = 0; i < r; ++i) b += p[n + i]; vp_inD(w, b); } }
static inline void bpe(D* d, int dr, int dc, int df, D* q, int qr, int qc, int qf)ND { see(69, d, dr, dc, df); vp_in2(70, q, qr, qc, qf); vp_ao_bp(d, q); }
#define E0 nntl::_nnet_errs::ErrorCode
template<class F, int ID, unsigned R = 1> struct FkB : public _layer_base<F, LIF> {
	MD A; FkB(int n)ND : _layer_base<F, LIF>(n) {}
	static constexpr layer_type_id_t get_layer_type_id()ND { return 3; } std::string get_layer_name_str()const ND { return std::string(); }
	const MD& get_activations()const ND { return A; } mtx_size_t get_activations_size()const ND { return A.size(); } bool is_activations_shared()const ND { return false; }
	const MD* get_activations_storage()const ND { return &A; }
	E0 layer_init(LID& l, D* p = nullptr)ND { vp_in(60, ID, this->m_layerIdx); vp_in(61, l.incBS.maxBS, l.incBS.maxTrainBS); vp_in(62, l.maxMemFPropRequire + l.maxMemTrainingRequire + l.max_dLdA_numel + l.nParamsToLearn, l.bOutputDifferentDuringTraining + l.bLossAddendumDependsOnActivations + l.bLossAddendumDependsOnWeights); vp_in(59, ID, long(p));
		l.maxMemFPropRequire = vp_q(ID, 0); l.maxMemTrainingRequire = vp_q(ID, 1); l.max_dLdA_numel = vp_q(ID, 2); l.nParamsToLearn = vp_q(ID, 3); l.bOutputDifferentDuringTraining = vp_q(ID, 4) > 0; l.bLossAddendumDependsOnWeights = vp_q(ID, 5) > 0; l.bLossAddendumDependsOnActivations = vp_q(ID, 6) > 0;
		if (ID < 4) { l.outgBS.maxBS = int(vp_q(ID, 7)); l.outgBS.maxTrainBS = int(vp_q(ID, 8)); } else l.outgBS = l.incBS; return E0(vp_ec(ID)); }
	void layer_deinit()ND { vp_in(63, ID, 0); } void initMem(D* p, numel_cnt_t c)ND { vp_in(64, ID, long(p)); vp_in(65, ID, c); }
	template<class T> void fprop(const T& b)ND { vp_in(66, ID, 0); see(67, MD_(b.get_activations())); vp_ao_fp(A.data(), ID); }
	template<class T> unsigned bprop(MD& d, const T& b, MD& q)ND { vp_in(68, ID, 0); see(67, MD_(b.get_activations())); bpe(MD_(d), MD_(q)); if (!R) d.deform(b.get_activations().rows(), b.get_activations().cols() - 1); return R; }
	D lossAddendum()const ND { return vp_la(ID); } bool hasLossAddendum()const ND { return vp_hasla(ID) > 0; } vec_len_t on_batch_size_change(const vec_len_t bs, D* p = nullptr)ND { if (ID < 4) return vp_ob(ID, bs, p); vp_in(58, ID, bs); vp_in(57, ID, long(p)); return bs; }
	void at(D* a, int n, int c)ND { A.useExternalStorage(a, n, c + 1, true); }
};
struct F1 : public FkB<F1, 1> { F1(int n)ND : FkB(n) {} };
struct F2 : public FkB<F2, 2> { F2(int n)ND : FkB(n) {} };
struct G2 : public FkB<G2, 2, 0> { G2(int n)ND : FkB(n) {} };     // keeps the error where it was
struct F3 : public FkB<F3, 3> { F3(int n)ND : FkB(n) {} };
struct G3 : public FkB<G3, 3, 0> { G3(int n)ND : FkB(n) {} };
struct F4 : public FkB<F4, 4> { F4(int n)ND : FkB(n) {} }; struct F5 : public FkB<F5, 5> { F5(int n)ND : FkB(n) {} };
struct G1 : public FkB<G1, 1, 0> { G1(int n)ND : FkB(n) {} };
struct Below : public _i_layer_trainable<real_t> { const MX& a; Below(const MX& x)ND : a(x) {} const MX& get_activations()const ND { return a; } };          // the layer below the pack
struct BelowS : public Below, public m_layer_stops_bprop { BelowS(const MX& x)ND : Below(x) {} };
#define NAME1(P) static constexpr layer_type_id_t get_layer_type_id()ND { return 3; } int get_layer_name_str()const ND { return 0; }
template<class... L> struct PV : public _LPV<PV<L...>, std::tuple<L&...>> { PV(L&... l)ND : _LPV<PV<L...>, std::tuple<L&...>>(nullptr, std::tie(l...)) {} NAME1(PV) };
template<class B, class C> struct Vt { F1 a; B b; C c; PV<F1, B, C> l; Vt(int n1, int n2, int n3)ND : a(n1), b(n2), c(n3), l(a, b, c) {} };
typedef Vt<F2, F3> Vs;
template<class... L> struct PH : public _LPH<PH<L...>, std::tuple<PHL<L>...>> { PH(PHL<L>... l)ND : _LPH<PH<L...>, std::tuple<PHL<L>...>>(nullptr, std::make_tuple(l...)) {} NAME1(PH) };
template<class B, class C> struct Ht { B a; C b; PH<B, C> l; Ht(int n1, int n2, int o1, int c1, int o2, int c2)ND : a(n1), b(n2), l(make_PHL(a, o1, c1), make_PHL(b, o2, c2)) {} };
typedef Ht<F1, F2> Hs;
template<class T> struct PT : public _LPT<PT<T>, T> { PT(T& t, int k)ND : _LPT<PT<T>, T>(nullptr, t, k) {} NAME1(PT) };
struct Li2 { long f, t, da, np; int om, ot, d, w, a, ec; };
static inline void lid2(Li2* o, LID& l, int e) { o->f = l.maxMemFPropRequire; o->t = l.maxMemTrainingRequire; o->da = l.max_dLdA_numel; o->np = l.nParamsToLearn; o->om = l.outgBS.maxBS; o->ot = l.outgBS.maxTrainBS; o->d = l.bOutputDifferentDuringTraining; o->w = l.bLossAddendumDependsOnWeights; o->a = l.bLossAddendumDependsOnActivations; o->ec = e; }
static inline void agg(LID& l, CD& cd, int i, int b, int t) { LID k(cd, 1, 1); k.maxMemFPropRequire = vp_q(i, 0); k.maxMemTrainingRequire = vp_q(i, 1); k.max_dLdA_numel = vp_q(i, 2); k.nParamsToLearn = vp_q(i, 3); k.bOutputDifferentDuringTraining = vp_q(i, 4) > 0; k.bLossAddendumDependsOnWeights = vp_q(i, 5) > 0; k.bLossAddendumDependsOnActivations = vp_q(i, 6) > 0; l.aggregate_from(k); }
