// flags: -fno-access-control -fno-exceptions
#include "lay.h"
// a stack of layers that only report what they are asked to do
extern "C" { int vp_ec(int i) PURE; long vp_q(int i, int what) PURE; int vp_ob(int i, int bs); D vp_la(int i); }
typedef LF::_layer_init_data_t LID; typedef LF::common_data_t CD;
#define E0 nntl::_nnet_errs::ErrorCode
template<class F, int ID, unsigned R = 1> struct FkB : public _layer_base<F, LIF> {
	MD A; FkB(int n)ND : _layer_base<F, LIF>(n) {}
	static constexpr layer_type_id_t get_layer_type_id()ND { return 3; } std::string get_layer_name_str()const ND { return std::string(); }
	const MD& get_activations()const ND { return A; }
	E0 layer_init(LID& l)ND { vp_in(60, ID, this->m_layerIdx); vp_in(61, l.incBS.maxBS, l.incBS.maxTrainBS); vp_in(62, l.maxMemFPropRequire + l.maxMemTrainingRequire + l.max_dLdA_numel + l.nParamsToLearn, l.bOutputDifferentDuringTraining + l.bLossAddendumDependsOnActivations + l.bLossAddendumDependsOnWeights);
		l.maxMemFPropRequire = vp_q(ID, 0); l.maxMemTrainingRequire = vp_q(ID, 1); l.max_dLdA_numel = vp_q(ID, 2); l.nParamsToLearn = vp_q(ID, 3); l.bOutputDifferentDuringTraining = vp_q(ID, 4) > 0; l.bLossAddendumDependsOnWeights = vp_q(ID, 5) > 0; l.bLossAddendumDependsOnActivations = vp_q(ID, 6) > 0;
		l.outgBS.maxBS = int(vp_q(ID, 7)); l.outgBS.maxTrainBS = int(vp_q(ID, 8)); return E0(vp_ec(ID)); }
	void layer_deinit()ND { vp_in(63, ID, 0); } void initMem(D* p, numel_cnt_t c)ND { vp_in(64, ID, long(p)); vp_in(65, ID, c); }
	template<class T> void fprop(const T& b)ND { vp_in(66, ID, b.m_layerIdx); } void fprop(const MX& x)ND { vp_in2(67, MD_(x)); }
	template<class T> unsigned bprop(MD& d, const T& b, MD& q)ND { vp_in(68, ID, b.m_layerIdx); vp_in2(69, MD_(d)); vp_in2(70, MD_(q)); return R; }
	template<class Y, class T> unsigned bprop(const math::smatrix<Y>& y, const T& b, MD& q)ND { vp_in(71, ID, b.m_layerIdx); vp_in2(72, MD_(y)); vp_in2(70, MD_(q)); return 1; }
	D lossAddendum()const ND { return vp_la(ID); } vec_len_t on_batch_size_change(const vec_len_t bs)ND { return vp_ob(ID, bs); }
	void at(D* a, int n, int c)ND { A.useExternalStorage(a, n, c + 1, true); }
};
struct Gw0 { D lr, nm; void learning_rate(D v)ND { lr = v; } D learning_rate()const ND { return lr; } void nesterov_momentum(D v)ND { nm = v; } };
struct F0 : public FkB<F0, 0>, public m_layer_input { F0(int n)ND : FkB(n) {} };
struct F1 : public FkB<F1, 1> { F1(int n)ND : FkB(n) {} };
struct F2 : public FkB<F2, 2> { typedef Gw0 grad_works_t; Gw0 g; Gw0& get_gradWorks()ND { return g; } F2(int n)ND : FkB(n) {} };
struct G2 : public FkB<G2, 2, 0> { G2(int n)ND : FkB(n) {} };     // keeps the error where it was
struct F3 : public FkB<F3, 3>, public m_layer_output { F3(int n)ND : FkB(n) {} };
struct S1 : public FkB<S1, 4>, public m_layer_stops_bprop { S1(int n)ND : FkB(n) {} };
struct P1 : public FkB<P1, 5> { typedef int LayerPack_t; F1 &a; F2 &b; P1(int n, F1& x, F2& y)ND : FkB(n), a(x), b(y) {} template<class F> void for_each_layer(F&& f)ND { f(a); f(b); } template<class F> void for_each_layer_down(F&& f)ND { f(b); f(a); }
	template<class F> void for_each_layer(F&& f)const ND { f((const F1&)a); f((const F2&)b); } template<class F> void for_each_layer_down(F&& f)const ND { f((const F2&)b); f((const F1&)a); } };
template<class T> struct StT { F0 a; F1 b; T c; F3 d; layers<F0, F1, T, F3> l; StT(int n0, int n1, int n2, int n3)ND : a(n0), b(n1), c(n2), d(n3), l(a, b, c, d) {} };
typedef StT<F2> St; typedef StT<G2> Sz;
template<int I, unsigned RR> struct G1 : public FkB<G1<I, RR>, I, RR> { G1(int n)ND : FkB<G1<I, RR>, I, RR>(n) {} };
template<class C, class X> struct S5 { F0 a; F1 b; C c; X x; F3 d; layers<F0, F1, C, X, F3> l; S5(int n0, int n1, int n2, int n3, int n4)ND : a(n0), b(n1), c(n2), x(n3), d(n4), l(a, b, c, x, d) {} };
struct Ss { F0 a; S1 b; F2 c; F3 d; layers<F0, S1, F2, F3> l; Ss(int n0, int n1, int n2, int n3)ND : a(n0), b(n1), c(n2), d(n3), l(a, b, c, d) {} };   // a layer that stops backpropagation
struct Sp { F0 a; S1 b; F3 d; layers<F0, S1, F3> l; Sp(int n0, int n1, int n3)ND : a(n0), b(n1), d(n3), l(a, b, d) {} };                            // ... right below the output layer
struct Sq { F0 a; F1 b; F3 d; layers<F0, F1, F3> l; Sq(int n0, int n1, int n3)ND : a(n0), b(n1), d(n3), l(a, b, d) {} };
struct Sk { F0 a; F1 b; F2 c; P1 p; F3 d; layers<F0, P1, F3> l; Sk()ND : a(2), b(3), c(4), p(5, b, c), d(6), l(a, p, d) {} };                        // a pack of layers
struct Lr { long mt, mf, sd, np; bool w, a, d; int om, ot, ec, fl; };
struct See { int k; template<class T> void operator()(T& l)const ND { vp_in(80, k, l.m_layerIdx + 100L*l.m_neurons_cnt); } };
extern "C" {
void vp_lpre_i(int* o, int n0, int n1, int n2, int n3) { St s(n0, n1, n2, n3); o[0] = s.a.m_layerIdx; o[1] = s.b.m_layerIdx; o[2] = s.c.m_layerIdx; o[3] = s.d.m_layerIdx; o[4] = s.a.m_incoming_neurons_cnt; o[5] = s.b.m_incoming_neurons_cnt; o[6] = s.c.m_incoming_neurons_cnt; o[7] = s.d.m_incoming_neurons_cnt; o[8] = s.l.total_layers(); }
void vp_lpre_s(int* o, int n0, int n1, int n2, int n3) { o[0] = 0; o[1] = 1; o[2] = 2; o[3] = 3; o[4] = 0; o[5] = n0; o[6] = n1; o[7] = n2; o[8] = 4; }
#define QM(i) vp_q(i, 0)
void vp_linit_i(Lr* o, int nmx, int ztb, bool part) { const int mb = ztb + nmx; R0 x; x.cd.m_max_fprop_batch_size = mb; x.cd.m_training_batch_size = ztb; Sq s(5, 6, 8); nntl::_impl::layers_mem_requirements L_; if (part) { L_.maxMemLayerTrainingRequire = 50; L_.maxMemLayersFPropRequire = 60; L_.maxSingledLdANumel = 70; L_.totalParamsToLearn = 80; }
 const auto r = s.l.init_layers(x.cd, L_); o->mt = L_.maxMemLayerTrainingRequire; o->mf = L_.maxMemLayersFPropRequire; o->sd = L_.maxSingledLdANumel; o->np = L_.totalParamsToLearn; o->w = L_.bLossAddendumDependsOnWeights; o->a = L_.bLossAddendumDependsOnActivations; o->d = L_.bOutputDifferentDuringTraining;
 o->om = x.cd.m_outBatchSizes.maxBS; o->ot = x.cd.m_outBatchSizes.maxTrainBS; o->ec = int(r.first); o->fl = r.second; }
static inline long mx_(long a, long b) { return a < b ? b : a; }
void vp_linit_s(Lr* o, int nmx, int ztb, bool part) { int b = ztb + nmx, t = ztb, e = 0, fl = 0; Lr q = { part ? 50 : 0, part ? 60 : 0, part ? 70 : 0, part ? 80 : 0, false, false, false, 0, 0, 0, 0 };
#define ONE(n, i) if (!e) { vp_in(60, i, n); vp_in(61, b, t); vp_in(62, 0, 0); b = int(vp_q(i, 7)); t = int(vp_q(i, 8)); e = vp_ec(i); if (e) fl = n; else { q.mt = mx_(mx_(q.mt, vp_q(i, 0)), vp_q(i, 1)); q.mf = mx_(q.mf, vp_q(i, 0)); q.sd = mx_(q.sd, vp_q(i, 2)); q.np += vp_q(i, 3); q.d |= vp_q(i, 4) > 0; q.w |= vp_q(i, 5) > 0; q.a |= vp_q(i, 6) > 0; } }
 ONE(0, 0) ONE(1, 1) ONE(2, 3) if (!e) { q.om = b; q.ot = t; } q.ec = e; q.fl = fl; *o = q; }
void vp_ldeinit_i(D* p) { St s(5, 6, 7, 8); s.l.m_a_dLdA[0].useExternalStorage(p, 1, 1); s.l.deinit_layers(); vp_in(82, long(s.l.m_a_dLdA[0].m_pData), s.l.m_a_dLdA[0].m_rows); }
void vp_ldeinit_s(D* p) { vp_in(63, 0, 0); vp_in(63, 1, 0); vp_in(63, 2, 0); vp_in(63, 3, 0); vp_in(82, 0, 0); }
void vp_lmem_i(D* p, long cnt) { St s(5, 6, 7, 8); s.l.initMem(p, cnt); }
void vp_lmem_s(D* p, long cnt) { vp_in(64, 0, long(p)); vp_in(65, 0, cnt); vp_in(64, 1, long(p)); vp_in(65, 1, cnt); vp_in(64, 2, long(p)); vp_in(65, 2, cnt); vp_in(64, 3, long(p)); vp_in(65, 3, cnt); }
D vp_lla_i(bool fr, D old) { St s(5, 6, 7, 8); if (fr) s.l.m_lossAddendum = old; return s.l.calcLossAddendum() + 2*s.l.m_lossAddendum; }
D vp_lla_s(bool fr, D old) { D v = fr ? old : 0; if (v == 0) { v = vp_la(0); v += vp_la(1); v += vp_la(2); v += vp_la(3); } return v + 2*v; }
D vp_llr_i(D old) { St s(5, 6, 7, 8); s.l.m_lossAddendum = old; s.l.resetCalcLossAddendum(); return s.l.m_lossAddendum; } D vp_llr_s(D old) { return 0; }
void vp_lbs_i(int n) { St s(5, 6, 7, 8); s.l.on_batch_size_change(n); } void vp_lbs_s(int n) { vp_ob(3, vp_ob(2, vp_ob(1, vp_ob(0, n)))); }
void vp_lfp_i(D* p, int n, int c, bool br) { St s(5, 6, 7, 8); MX P(p, br ? c : n, br ? n : c, true, false, br); s.l.fprop(P); } void vp_lfp_s(D* p, int n, int c, bool br) { vp_in2(67, p, br ? c : n, br ? n : c, 1 + 2*br); vp_in(66, 1, 0); vp_in(66, 2, 1); vp_in(66, 3, 2); }
// backward: errors ping-pong between the two buffers, each resized for the layer below
#define LBP(nm, T, k) void vp_lbp##nm##_i(D* y, D* a0, D* a1, D* a2, D* d0, D* d1, int n, int n0, int n1, int n2, int cy) { T s(n0, n1, n2, 8); s.a.at(a0, n, n0); s.b.at(a1, n, n1); s.c.at(a2, n, n2); s.l.m_a_dLdA[0].useExternalStorage(d0, n, n2); s.l.m_a_dLdA[1].useExternalStorage(d1, n, n2); MX Y(y, n, cy); s.l.bprop(Y); } \
void vp_lbp##nm##_s(D* y, D* a0, D* a1, D* a2, D* d0, D* d1, int n, int n0, int n1, int n2, int cy) { vp_in(71, 3, 2); vp_in2(72, y, n, cy, 0); vp_in2(70, d0, n, n2, 0); vp_in(68, 2, 1); vp_in2(69, d0, n, n2, 0); vp_in2(70, d1, n, n1, 0); \
 vp_in(68, 1, 0); vp_in2(69, k ? d1 : d0, n, k ? n1 : n2, 0); vp_in2(70, k ? d0 : d1, n, n0, 0); }
LBP(1, St, 1) LBP(0, Sz, 0)
// a longer stack: the third error goes where the first two left room
#define LB5(nm, C, X) void vp_lbq##nm##_i(D* y, D* a0, D* a1, D* a2, D* a3, D* d0, D* d1, int n, int n0, int n1, int n2, int n3, int cy) { S5<G1<2, C>, G1<6, X>> s(n0, n1, n2, n3, 8); s.a.at(a0, n, n0); s.b.at(a1, n, n1); s.c.at(a2, n, n2); s.x.at(a3, n, n3); \
 s.l.m_a_dLdA[0].useExternalStorage(d0, n, n3); s.l.m_a_dLdA[1].useExternalStorage(d1, n, n3); MX Y(y, n, cy); s.l.bprop(Y); } \
void vp_lbq##nm##_s(D* y, D* a0, D* a1, D* a2, D* a3, D* d0, D* d1, int n, int n0, int n1, int n2, int n3, int cy) { constexpr int i1 = X, i2 = X ^ C; vp_in(71, 3, 3); vp_in2(72, y, n, cy, 0); vp_in2(70, d0, n, n3, 0); vp_in(68, 6, 2); vp_in2(69, d0, n, n3, 0); vp_in2(70, d1, n, n2, 0); \
 vp_in(68, 2, 1); vp_in2(69, i1 ? d1 : d0, n, i1 ? n2 : n3, 0); vp_in2(70, i1 ? d0 : d1, n, n1, 0); vp_in(68, 1, 0); vp_in2(69, i2 ? d1 : d0, n, C ? n1 : X ? n2 : n3, 0); vp_in2(70, i2 ? d0 : d1, n, n0, 0); }
LB5(11, 1, 1) LB5(10, 1, 0) LB5(01, 0, 1) LB5(00, 0, 0)
void vp_lbs5_i(int n) { S5<G1<2, 1>, G1<6, 1>> s(5, 6, 7, 8, 9); s.l.on_batch_size_change(n); } void vp_lbs5_s(int n) { vp_ob(3, vp_ob(6, vp_ob(2, vp_ob(1, vp_ob(0, n))))); }
void vp_lfp5_i(D* p, int n, int c) { S5<G1<2, 1>, G1<6, 1>> s(5, 6, 7, 8, 9); MX P(p, n, c, true); s.l.fprop(P); } void vp_lfp5_s(D* p, int n, int c) { vp_in2(67, p, n, c, 1); vp_in(66, 1, 0); vp_in(66, 2, 1); vp_in(66, 6, 2); vp_in(66, 3, 3); }
void vp_lbps_i(D* y, D* a1, D* a2, D* d0, D* d1, int n, int n1, int n2, int cy) { Ss s(5, n1, n2, 8); s.b.at(a1, n, n1); s.c.at(a2, n, n2); s.l.m_a_dLdA[0].useExternalStorage(d0, n, n2); s.l.m_a_dLdA[1].useExternalStorage(d1, n, n2); MX Y(y, n, cy); s.l.bprop(Y); }
void vp_lbps_s(D* y, D* a1, D* a2, D* d0, D* d1, int n, int n1, int n2, int cy) { vp_in(71, 3, 2); vp_in2(72, y, n, cy, 0); vp_in2(70, d0, n, n2, 0); vp_in(68, 2, 1); vp_in2(69, d0, n, n2, 0); vp_in2(70, d1, 0, 0, 0); }
void vp_lbpp_i(D* y, D* a1, D* d0, D* d1, int n, int n1, int cy) { Sp s(5, n1, 8); s.b.at(a1, n, n1); s.l.m_a_dLdA[0].useExternalStorage(d0, n, n1); s.l.m_a_dLdA[1].useExternalStorage(d1, n, n1); MX Y(y, n, cy); s.l.bprop(Y); }
void vp_lbpp_s(D* y, D* a1, D* d0, D* d1, int n, int n1, int cy) { vp_in(71, 3, 1); vp_in2(72, y, n, cy, 0); vp_in2(70, d0, 0, 0, 0); }
// walking over the layers of a stack with a pack inside
#define SEE(i, n) vp_in(80, k, i + 100L*n);
#define NOI long(nntl::invalid_layer_index)
#define WK(nm, FN, Q, SEQ) void vp_w##nm##_i(int k) { Sk s; Q t = s.l; t.FN(See{k}); } void vp_w##nm##_s(int k) { SEQ }
typedef layers<F0, P1, F3>& Lq; typedef const layers<F0, P1, F3>& Lc;
WK(fl, for_each_layer, Lq, SEE(0, 2) SEE(NOI, 3) SEE(NOI, 4) SEE(1, 5) SEE(2, 6)) WK(flc, for_each_layer, Lc, SEE(0, 2) SEE(NOI, 3) SEE(NOI, 4) SEE(1, 5) SEE(2, 6))
WK(fd, for_each_layer_down, Lq, SEE(2, 6) SEE(1, 5) SEE(NOI, 4) SEE(NOI, 3) SEE(0, 2)) WK(fdc, for_each_layer_down, Lc, SEE(2, 6) SEE(1, 5) SEE(NOI, 4) SEE(NOI, 3) SEE(0, 2))
WK(fp, for_each_packed_layer, Lq, SEE(0, 2) SEE(1, 5) SEE(2, 6)) WK(fpc, for_each_packed_layer, Lc, SEE(0, 2) SEE(1, 5) SEE(2, 6)) WK(fpd, for_each_packed_layer_down, Lq, SEE(2, 6) SEE(1, 5) SEE(0, 2)) WK(fpdc, for_each_packed_layer_down, Lc, SEE(2, 6) SEE(1, 5) SEE(0, 2))
WK(fe, for_each_layer_exc_input, Lq, SEE(NOI, 3) SEE(NOI, 4) SEE(1, 5) SEE(2, 6)) WK(fpe, for_each_packed_layer_exc_input, Lq, SEE(1, 5) SEE(2, 6)) WK(fped, for_each_packed_layer_exc_input_down, Lq, SEE(2, 6) SEE(1, 5))
long vp_lget_i() { St s(5, 6, 7, 8); return s.l.input_layer().m_neurons_cnt + 10L*s.l.preoutput_layer().m_neurons_cnt + 100L*s.l.output_layer().m_neurons_cnt; } long vp_lget_s() { return 5 + 70 + 800; }
// settings reach the layers that learn, and only them
void vp_hlr_i(D* o, D lr, D a, D b) { F2 x(3); F1 y(4); x.g.lr = a; x.g.nm = b; hlpr_layer_set_learning_rate h; h(x, lr); h(y, lr); o[0] = x.g.lr; o[1] = x.g.nm; } void vp_hlr_s(D* o, D lr, D a, D b) { o[0] = lr; o[1] = b; }
void vp_hld_i(D* o, D k, D a, D b) { F2 x(3); F1 y(4); x.g.lr = a; x.g.nm = b; hlpr_layer_learning_rate_decay h; h(x, k); h(y, k); o[0] = x.g.lr; o[1] = x.g.nm; } void vp_hld_s(D* o, D k, D a, D b) { o[0] = a*k; o[1] = b; }
void vp_hle_i(D* o, D k, D a, D b) { F2 x(3); F1 y(4); x.g.lr = a; x.g.nm = b; hlpr_learning_rate_decay<D> h(k); h(x); h(y); o[0] = x.g.lr; o[1] = x.g.nm; } void vp_hle_s(D* o, D k, D a, D b) { o[0] = a*k; o[1] = b; }
void vp_hnm_i(D* o, D k, D a, D b) { F2 x(3); F1 y(4); x.g.lr = a; x.g.nm = b; hlpr_layer_set_nesterov_momentum h; h(x, k); h(y, k); o[0] = x.g.lr; o[1] = x.g.nm; } void vp_hnm_s(D* o, D k, D a, D b) { o[0] = a; o[1] = k; }
void vp_haf_i(int k) { F2 x(3); F1 y(4); hlpr_layer_apply_func2gradworks_layer h; h(y, See{k}); h(x, See{k}); } void vp_haf_s(int k) { SEE(NOI, 3) }
// ---------------------------------------------------------------- data the layers share, and the accounting during initialisation
struct Cs { int mf, tb, cb; bool tr; long r; };
static inline void cs(Cs* o, const CD& c, long r) { o->mf = c.m_max_fprop_batch_size; o->tb = c.m_training_batch_size; o->cb = c.m_cur_batch_size; o->tr = c.m_bInTraining; o->r = r; }
#define CDX R0 x; CD& c = x.cd; c.m_max_fprop_batch_size = mf; c.m_training_batch_size = tb; c.m_cur_batch_size = cb; c.m_bInTraining = tr;
#define CDO o->mf = mf; o->tb = tb; o->cb = cb; o->tr = tr; o->r = 0;
void vp_cdm_i(Cs* o, int mf, int tb, int cb, bool tr, bool t, int bs) { CDX const bool r = c.set_mode_and_batch_size(t, bs); cs(o, c, r); } void vp_cdm_s(Cs* o, int mf, int tb, int cb, bool tr, bool t, int bs) { o->mf = mf; o->tb = tb; o->r = t != tr || bs != cb; o->cb = bs; o->tr = t; }
void vp_cdc_i(Cs* o, int mf, int tb, int cb, bool tr, int bs) { CDX const long r = c.change_cur_batch_size(bs); cs(o, c, r); } void vp_cdc_s(Cs* o, int mf, int tb, int cb, bool tr, int bs) { CDO o->cb = bs; o->r = cb; }
void vp_cdi_i(Cs* o, int mf, int tb, int cb, bool tr, int nf, int nb) { R0 x; CD& c = x.cd; c.m_cur_batch_size = cb; c.m_bInTraining = tr; c.init(nf, nb); cs(o, c, c.is_initialized() + 2*c.is_training_possible()); } void vp_cdi_s(Cs* o, int mf, int tb, int cb, bool tr, int nf, int nb) { o->mf = nf; o->tb = nb; o->cb = 0; o->tr = false; o->r = 3; }
void vp_cdd_i(Cs* o, int mf, int tb, int cb, bool tr) { CDX c.m_outBatchSizes.maxBS = 9; c.m_outBatchSizes.maxTrainBS = 5; c.deinit(); cs(o, c, c.m_outBatchSizes.maxBS + c.m_outBatchSizes.maxTrainBS + 100*c.is_initialized() + 200*c.is_training_possible()); } void vp_cdd_s(Cs* o, int mf, int tb, int cb, bool tr) { o->mf = o->tb = o->cb = 0; o->tr = tr; o->r = 0; }
void vp_cdg_i(Cs* o, int mf, int ztb, int cb, bool tr) { const int tb = ztb; CDX cs(o, c, c.input_batch_size() + 1000L*c.input_max_fprop_batch_size() + 1000000L*c.input_training_batch_size() + 1000000000L*c.input_biggest_batch_size() + 7*c.is_training_mode() + 11*c.is_training_possible()); }
void vp_cdg_s(Cs* o, int mf, int ztb, int cb, bool tr) { const int tb = ztb; CDO o->r = cb + 1000L*mf + 1000000L*tb + 1000000000L*(tb < mf ? mf : tb) + 7*tr + 11*(tb > 0); }
void vp_cdf_i(long* o) { R0 x; CD c; c.setInterfacesFrom(x.cd); o[0] = &c.get_iMath() == &x.m; o[1] = &c.get_iRng() == &x.rr; o[2] = &c.get_iInspect() == &x.ii; o[3] = c.m_pbNotLearningNow == &x.blk; o[4] = c.m_max_fprop_batch_size + c.m_training_batch_size + c.m_cur_batch_size + c.m_bInTraining; }
void vp_cdf_s(long* o) { o[0] = o[1] = o[2] = o[3] = 1; o[4] = 0; }
struct Ld { long f, t, da, np; int im, it, om, ot; int d, w, a; };
static inline void ldo(Ld* o, const LID& l) { o->f = l.maxMemFPropRequire; o->t = l.maxMemTrainingRequire; o->da = l.max_dLdA_numel; o->np = l.nParamsToLearn; o->im = l.incBS.maxBS; o->it = l.incBS.maxTrainBS; o->om = l.outgBS.maxBS; o->ot = l.outgBS.maxTrainBS; o->d = l.bOutputDifferentDuringTraining; o->w = l.bLossAddendumDependsOnWeights; o->a = l.bLossAddendumDependsOnActivations; }
static inline void ldi(LID& l, const Ld* i) { l.maxMemFPropRequire = i->f; l.maxMemTrainingRequire = i->t; l.max_dLdA_numel = i->da; l.nParamsToLearn = i->np; l.incBS.maxBS = i->im; l.incBS.maxTrainBS = i->it; l.outgBS.maxBS = i->om; l.outgBS.maxTrainBS = i->ot; l.bOutputDifferentDuringTraining = i->d > 0; l.bLossAddendumDependsOnWeights = i->w > 0; l.bLossAddendumDependsOnActivations = i->a > 0; }
void vp_ldp_i(Ld* o, const Ld* i) { R0 x; LID l(x.cd, 4, 2); ldi(l, i); l.pass_to_upper_layer(); ldo(o, l); } void vp_ldp_s(Ld* o, const Ld* i) { const int a = i->om, b = i->ot; o->f = o->t = o->da = o->np = 0; o->im = a; o->it = b; o->om = o->ot = 0; o->d = o->w = o->a = false; }
void vp_ldu_i(Ld* o, const Ld* i) { R0 x; LID l(x.cd, 4, 2); ldi(l, i); LID k = l.dupe(); k.pass_to_upper_layer(); ldo(o, k); } void vp_ldu_s(Ld* o, const Ld* i) { const int a = i->im, b = i->it; o->f = o->t = o->da = o->np = 0; o->im = a; o->it = b; o->om = o->ot = 0; o->d = o->w = o->a = false; }
void vp_lde_i(Ld* o, const Ld* i) { R0 x; LID l(x.cd, 4, 2); ldi(l, i); LID k = l.exact_dupe(); ldo(o, k); } void vp_lde_s(Ld* o, const Ld* i) { const int a = i->im, b = i->it; o->f = o->t = o->da = o->np = 0; o->im = a; o->it = b; o->om = o->ot = 0; o->d = o->w = o->a = false; }
void vp_ldb_i(Ld* o, const Ld* i) { R0 x; LID l(x.cd, 4, 2); ldi(l, i); l.layer_doesnt_change_batchsize(); ldo(o, l); } void vp_ldb_s(Ld* o, const Ld* i) { R0 x; LID l(x.cd, 4, 2); ldi(l, i); l.outgBS.maxBS = l.incBS.maxBS; l.outgBS.maxTrainBS = l.incBS.maxTrainBS; ldo(o, l); }
static inline long mxl(long a, long b) { return a < b ? b : a; }
void vp_lda_i(Ld* o, const Ld* i, const Ld* j) { R0 x; LID l(x.cd, 4, 2), k(x.cd, 4, 2); ldi(l, i); ldi(k, j); l.aggregate_from(k); ldo(o, l); }
void vp_lda_s(Ld* o, const Ld* i, const Ld* j) { const Ld a = *i, b = *j; o->f = mxl(a.f, b.f); o->t = mxl(a.t, b.t); o->da = mxl(a.da, b.da); o->np = a.np + b.np; o->im = a.im; o->it = a.it; o->om = a.om; o->ot = a.ot; o->d = a.d > 0 || b.d > 0; o->w = a.w > 0 || b.w > 0; o->a = a.a > 0 || b.a > 0; }
}
