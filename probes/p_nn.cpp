// flags: -fno-access-control -fno-exceptions
#include "lay.h"
// the network object: initialisation, batch sizes, loss reports, the training loop and forward passes over a stack of layers that only report what they are asked
#define E0 nntl::_nnet_errs::ErrorCode
extern "C" {
int vp_ec(int w, long a, long b) PURE; bool vp_mi() PURE; bool vp_ri() PURE; bool vp_oi(long a) PURE; bool vp_rc(long e) PURE; bool vp_cb(long e) PURE; long vp_nb(int w, long e) PURE;
long vp_q(int w) PURE; unsigned short vp_qi() PURE; bool vp_qb(int w) PURE; D vp_cl(const D* y, long n) PURE; D vp_la(long b) PURE; void vp_inD(int w, D v); void vp_inI(int w, long a, long b, long c);
}
struct NI : public LSI {
	void init_nnet(const size_t n, const numel_cnt_t e)ND { vp_inI(20, n, e, 0); }
	void train_epochBegin(const numel_cnt_t e, const numel_cnt_t n)ND { vp_inI(21, e, n, 0); } void train_epochEnd()ND { vp_inI(22, 0, 0, 0); }
	void train_batchBegin(const numel_cnt_t b)ND { vp_inI(23, b, 0, 0); } void train_batchEnd()ND { vp_inI(24, 0, 0, 0); }
	void train_preFprop(const realmtx_t& x)ND { vp_in2(25, MD_(x)); } template<class Y> void train_preBprop(const Y& y)ND { vp_in2(26, MD_(y)); }
	void turn_on(bool b)ND { vp_inI(29, b, 0, 0); } bool isInspectorActive()const ND { return vp_qb(20); } void train_preCalcError(const int d)ND { vp_inI(27, d, 0, 0); } void train_postCalcError()ND { vp_inI(28, 0, 0, 0); }
};
struct NM : public LM { bool init()ND { vp_inI(30, 0, 0, 0); return vp_mi(); } void deinit()ND { vp_inI(31, 0, 0, 0); } };
struct NR : public RR { bool init_rng()ND { vp_inI(32, 0, 0, 0); return vp_ri(); } void deinit_rng()ND { vp_inI(33, 0, 0, 0); } };
struct NIF { typedef ::real_t real_t; typedef StubThreads iThreads_t; typedef imem::imemmgr iMemmgr_t; typedef NM iMath_t; typedef NR iRng_t; typedef NI iInspect_t; };
struct NO { MX* pA; int ny; neurons_count_t get_neurons_cnt()const ND { return ny; } const MX* get_activations_storage()const ND { return pA; } bool is_activations_valid()const ND { return true; }
	template<class Y> D calc_loss(const Y& y)ND { vp_in2(40, MD_(y)); return vp_cl(y.m_pData, y.m_rows); } };
struct NIn { int nx; neurons_count_t get_neurons_cnt()const ND { return nx; } };
typedef std::pair<E0, layer_index_t> LE;
struct NL {
	typedef NIF interfaces_t; typedef NM iMath_t; typedef NR iRng_t; typedef NI iInspect_t; typedef ::real_t real_t; static constexpr size_t layers_count = 3;
	std::array<MD, 2> m_a_dLdA; NO o; NIn in;
	size_t total_layers()const ND { return 3; } NO& output_layer()ND { return o; } NIn& input_layer()ND { return in; }
	template<class C> LE init_layers(const C& cd, nntl::_impl::layers_mem_requirements& l)ND { vp_inI(41, cd.m_max_fprop_batch_size, cd.m_training_batch_size, cd.m_cur_batch_size); l.maxMemLayerTrainingRequire = vp_q(0); l.maxMemLayersFPropRequire = vp_q(1); l.maxSingledLdANumel = vp_q(2); l.totalParamsToLearn = vp_q(3);
		l.bLossAddendumDependsOnWeights = vp_qb(0); l.bLossAddendumDependsOnActivations = vp_qb(1); l.bOutputDifferentDuringTraining = vp_qb(2); return LE(E0(vp_ec(0, cd.m_max_fprop_batch_size, cd.m_training_batch_size)), vp_qi()); }
	void deinit_layers()ND { vp_inI(42, 0, 0, 0); } void on_batch_size_change(const vec_len_t b)ND { vp_inI(43, b, 0, 0); }
	void fprop(const MX& x)ND { vp_in2(44, MD_(x)); } template<class Y> void bprop(const Y& y)ND { vp_in2(45, MD_(y)); }
	void resetCalcLossAddendum()ND { vp_inI(46, 0, 0, 0); } D calcLossAddendum()ND { vp_inI(47, 0, 0, 0); return vp_la(0); }
	void initMem(D* p, const numel_cnt_t n)ND { vp_in2(48, p, 0, 0, 0); vp_inI(49, n, 0, 0); }
};
typedef nnet<NL> NN;
struct Obs {
	template<class T, class C> bool init(const numel_cnt_t e, T&, const C& c)ND { vp_inI(50, e, c.m_max_fprop_batch_size, c.m_training_batch_size); return vp_oi(e); } void deinit()ND { vp_inI(51, 0, 0, 0); }
	template<class T> void on_training_start(T&, const vec_len_t b, const vec_len_t f, const numel_cnt_t n)ND { vp_inI(52, b, f, n); }
	void report_results_begin(const int d, const numel_cnt_t n)ND { vp_inI(53, d, n, 0); }
	template<class Y, class C> void report_results(const numel_cnt_t b, const MX& a, const Y& y, const C& c)ND { vp_inI(54, b, c.m_cur_batch_size, c.m_bInTraining); vp_in2(55, MD_(a)); vp_in2(56, MD_(y)); }
	void report_results_end(const D l)ND { vp_inD(57, l); }
	void on_training_fragment_end(const numel_cnt_t e, const D tr, const D te, const ::std::chrono::nanoseconds& t)ND { vp_inI(58, e, t.count(), 0); vp_inD(59, tr); vp_inD(60, te); }
	void on_training_end(const ::std::chrono::nanoseconds& t)ND { vp_inI(61, t.count(), 0, 0); }
};
struct Td : public _i_train_data<real_t, real_t> {      // a data set whose batches lie one after the other from x/y on
	D *x, *y; int nx, ny, b, tb; MX X, Y;
	bool empty()const ND { return vp_qb(10); } neurons_count_t xWidth()const ND { return vp_q(10); } bool isSuitableForOutputOf(const neurons_count_t n)const ND { vp_inI(70, n, 0, 0); return vp_qb(11); }
	bool is_initialized4train(const vec_len_t f, const vec_len_t t, const bool m)const ND { vp_inI(71, f, t, m); return vp_qb(12); }
	template<class M> E0 init4train(M& iM, vec_len_t& f, vec_len_t& t, bool* m)ND { vp_inI(72, f, t, *m); f = vp_q(12); t = vp_q(13); *m = vp_qb(13); return E0(vp_ec(1, 0, 0)); }
	bool is_initialized4inference(const vec_len_t f)const ND { vp_inI(73, f, 0, 0); return vp_qb(14); }
	template<class M> E0 init4inference(M& iM, vec_len_t& f)ND { vp_inI(74, f, 0, 0); f = vp_q(14); return E0(vp_ec(2, 0, 0)); }
	template<class M> void preinit_iMath(M&)ND { vp_inI(75, 0, 0, 0); } void deinit4all()ND { vp_inI(76, 0, 0, 0); }
	template<class C> numel_cnt_t walk_over_set(const int d, const C& c)ND { vp_inI(77, d, c.m_max_fprop_batch_size, 0); return vp_nb(0, d); }
	template<class C> void next_subset(const numel_cnt_t i, const C& c)ND { vp_inI(78, i, c.m_max_fprop_batch_size, 0); at(i, b); }
	template<class C> numel_cnt_t on_next_epoch(const numel_cnt_t e, const C& c)ND { vp_inI(79, e, c.m_cur_batch_size, c.m_bInTraining); return vp_nb(1, e); }
	template<class C> void on_next_batch(const numel_cnt_t i, const C& c)ND { vp_inI(80, i, c.m_cur_batch_size, c.m_bInTraining); at(i, tb); }
	void at(long i, int b)ND { X.useExternalStorage(x + i, b, nx + 1, true); Y.useExternalStorage(y + i, b, ny); }
	const MX& batchX()const ND { return X; } const MX& batchY()const ND { return Y; }
};
struct CE { bool operator()(const numel_cnt_t e)const ND { return vp_rc(e); } };
struct CB { bool operator()(const size_t e)const ND { vp_inI(62, e, 0, 0); return vp_cb(e); } };
struct CI { E0 operator()()const ND { vp_inI(63, 0, 0, 0); return E0(vp_ec(3, 0, 0)); } };
template<bool RO, bool DE, bool FI> struct Op { Obs o; CE ce; long me, dl; int fs, bs; bool fu, fo; D th;
	numel_cnt_t maxEpoch()const ND { return me; } vec_len_t maxFpropSize()const ND { return fs; } vec_len_t batchSize()const ND { return bs; } bool bReportOnlyTime()const ND { return RO; } bool ImmediatelyDeinit()const ND { return DE; } bool bForceInspectorOnDuringTraining()const ND { return FI; }
	bool calcFullLossValue()const ND { return fu; } bool bForceReinitTD()const ND { return fo; } const CE& getCondEpochEval()const ND { return ce; } numel_cnt_t divergenceCheckLastEpoch()const ND { return dl; } D divergenceCheckThreshold()const ND { return th; } Obs& observer()ND { return o; } };
struct TdR : public Td { bool empty()const ND { return false; } neurons_count_t xWidth()const ND { return nx; } bool isSuitableForOutputOf(const neurons_count_t)const ND { return true; } bool is_initialized4train(const vec_len_t, const vec_len_t, const bool)const ND { return true; } };
#define RIG(nx_, ny_) NM sm; NR sr; NI si; NL sl; MX sact; sl.o.ny = ny_; sl.in.nx = nx_; sl.o.pA = &sact; NN sn(sl, &si, &sm, &sr);      /* separate objects, so that each is followed field by field */

#define FIN vp_inI(90, sn.m_max_fprop_batch_size, sn.m_training_batch_size, sn.m_cur_batch_size); vp_inI(91, sn.m_bInTraining, sn.m_bRequireReinit, sn.m_failedLayerIdx); vp_inI(92, sn.m_LMR.maxMemLayerTrainingRequire, sn.m_LMR.maxSingledLdANumel, sn.m_LMR.totalParamsToLearn); vp_inI(93, sn.m_LMR.bLossAddendumDependsOnWeights, sn.m_LMR.bLossAddendumDependsOnActivations, sn.m_LMR.maxMemLayersFPropRequire);
#define FIN2 vp_in(90, sn.m_max_fprop_batch_size, sn.m_training_batch_size); vp_in(91, sn.m_bRequireReinit, sn.m_failedLayerIdx); vp_inI(92, sn.m_LMR.maxMemLayerTrainingRequire, sn.m_LMR.maxSingledLdANumel, sn.m_LMR.totalParamsToLearn); vp_inI(93, sn.m_LMR.bLossAddendumDependsOnWeights, sn.m_LMR.bLossAddendumDependsOnActivations, sn.m_LMR.maxMemLayersFPropRequire);
#define CD(f, t, c, tr) sn.m_max_fprop_batch_size = f; sn.m_training_batch_size = t; sn.m_cur_batch_size = c; sn.m_bInTraining = tr;
struct Rs { int f, t, c; bool tr, re; layer_index_t fl; long mem, dl, par; bool lw, la; long mf; };      // what the network remembers
static inline void fin(const Rs& r)ND { vp_inI(90, r.f, r.t, r.c); vp_inI(91, r.tr, r.re, r.fl); vp_inI(92, r.mem, r.dl, r.par); vp_inI(93, r.lw, r.la, r.mf); }
static inline void fin2(const Rs& r)ND { vp_in(90, r.f, r.t); vp_in(91, r.re, r.fl); vp_inI(92, r.mem, r.dl, r.par); vp_inI(93, r.lw, r.la, r.mf); }
static inline void rdein(Rs& r)ND { vp_inI(42, 0, 0, 0); vp_inI(33, 0, 0, 0); vp_inI(31, 0, 0, 0); r.f = r.t = r.c = 0; r.re = false; r.mem = r.dl = r.par = r.mf = 0; r.lw = r.la = false; }
extern "C" {
// ---------------------------------------------------------------- switching modes and batch sizes: layers hear of every change, and only of changes
void vp_smb_i(int nf, int nt, int zc, int zb, bool tr) { RIG(1, 1) CD(nf, nt, zc, tr) sn._set_mode_and_batch_size(zb); vp_in(90, sn.m_cur_batch_size, sn.m_bInTraining); }
void vp_smb_s(int nf, int nt, int zc, int zb, bool tr) { const int b = zb == 0 ? nt : zb; const bool t = zb == 0; if (b != zc || t != tr) vp_inI(43, b, 0, 0); vp_in(90, b, t); }
void vp_smt_i(int nf, int nt, int zc, int nb, bool tr) { RIG(1, 1) CD(nf, nt, zc, tr) sn._set_training_mode_and_batch_size(nb); vp_in(90, sn.m_cur_batch_size, sn.m_bInTraining); }
void vp_smt_s(int nf, int nt, int zc, int nb, bool tr) { if (nb != zc || !tr) vp_inI(43, nb, 0, 0); vp_in(90, nb, 1); }
void vp_smi_i(int nf, int nt, int zc, int nb, bool tr) { RIG(1, 1) CD(nf, nt, zc, tr) sn.prepare_to_doFixedBatchFprop(nb); vp_in(90, sn.m_cur_batch_size, sn.m_bInTraining); }
void vp_smi_s(int nf, int nt, int zc, int nb, bool tr) { if (nb != zc || tr) vp_inI(43, nb, 0, 0); vp_in(90, nb, 0); }
void vp_dff_i(D* x, int nf, int nt, int zc, int n, int n0, bool tr) { RIG(1, 1) CD(nf, nt, zc, tr) MX X; X.useExternalStorage(x, n, n0 + 1, true); sn.doFixedBatchFprop(X); vp_in(90, sn.m_cur_batch_size, sn.m_bInTraining); }
void vp_dff_s(D* x, int nf, int nt, int zc, int n, int n0, bool tr) { if (n != zc) { vp_inI(43, n, 0, 0); tr = 0; } vp_in2(44, x, n, n0 + 1, 1); vp_in(90, n, tr); }
void vp_fpx_i(D* x, int nf, int nt, int zc, int n, int n0, bool tr) { RIG(1, 1) CD(nf, nt, zc, tr) MX X; X.useExternalStorage(x, n, n0 + 1, true); sn._fprop(X); vp_in(90, sn.m_cur_batch_size, sn.m_bInTraining); }
void vp_fpx_s(D* x, int nf, int nt, int zc, int n, int n0, bool tr) { if (n != zc || tr) vp_inI(43, n, 0, 0); vp_in2(44, x, n, n0 + 1, 1); vp_in(90, n, 0); }
int vp_isi_i(int zf, int nt, int zb, int zt, bool rq) { RIG(1, 1) CD(zf, nt, 0, 0) sn.m_bRequireReinit = rq; return 2*sn.is_initialized(zb, zt) + sn._is_initialized(zb, zt); }
int vp_isi_s(int zf, int nt, int zb, int zt, bool rq) { const bool a = zf > 0 && zb <= zf && zt <= nt; return 2*a + (a && !rq); }
// ---------------------------------------------------------------- temporary memory: sized as required, spread without overlap
long vp_tms_i(long nm, long nd, int zt) { RIG(1, 1) sn.m_LMR.maxMemLayerTrainingRequire = nm; sn.m_LMR.maxSingledLdANumel = nd; return sn._totalTrainingMemSize(true, zt); }
long vp_tms_s(long nm, long nd, int zt) { return nm + (zt > 0 ? 2*nd : 0); }
long vp_pts_i(D* p, long zm, long nd, int zt) { RIG(1, 1) sn.m_pTmpStor.p = p; sn.m_pTmpStor.n = 2*nd + zm; sn.m_LMR.maxMemLayerTrainingRequire = zm; sn.m_LMR.maxSingledLdANumel = nd; const long r = sn._processTmpStor(true, zt); vp_in2(90, sl.m_a_dLdA[0].m_pData, 0, 0, 0); vp_in2(91, sl.m_a_dLdA[1].m_pData, 0, 0, 0); return r; }
long vp_pts_s(D* p, long zm, long nd, int zt) { long k = 0; D *a = nullptr, *b = nullptr; if (zt > 0) { a = p; b = p + nd; k = 2*nd; } if (zm > 0) { vp_in2(48, p + k, 0, 0, 0); vp_inI(49, zm, 0, 0); k += zm; } vp_in2(90, a, 0, 0, 0); vp_in2(91, b, 0, 0, 0); return k; }
void vp_dei_i(D* p, int nf, int nt, int nc, bool tr, bool rq) { RIG(1, 1) CD(nf, nt, nc, tr) sn.m_bRequireReinit = rq; sn.m_LMR.maxMemLayerTrainingRequire = 3; sn.m_LMR.maxSingledLdANumel = 4; sn.m_LMR.totalParamsToLearn = 7; sn.m_LMR.bLossAddendumDependsOnWeights = sn.m_LMR.bLossAddendumDependsOnActivations = true; auto& v = sn.m_pTmpStor; v.p = p; v.n = nf; sn.m_failedLayerIdx = 0; sn.deinit(); FIN vp_inI(94, v.n, 0, 0); vp_in2(95, v.p, 0, 0, 0); }
void vp_dei_s(D* p, int nf, int nt, int nc, bool tr, bool rq) { Rs r; r.tr = tr; r.fl = 0; rdein(r); fin(r); vp_inI(94, 0, 0, 0); vp_in2(95, nullptr, 0, 0, 0); }

// ---------------------------------------------------------------- initialisation
#define RST Rs r; r.f = zf; r.t = nt; r.c = nc; r.tr = tr; r.re = rq; r.fl = 9; r.mem = 3; r.dl = 4; r.par = 7; r.mf = 5; r.lw = r.la = false;
#define NST CD(zf, nt, nc, tr) sn.m_bRequireReinit = rq; sn.m_LMR.maxMemLayerTrainingRequire = 3; sn.m_LMR.maxMemLayersFPropRequire = 5; sn.m_LMR.maxSingledLdANumel = 4; sn.m_LMR.totalParamsToLearn = 7; sn.m_failedLayerIdx = 9;
int vp_fi_i(int nb, int zb, long ne) { const int zf = 0, nt = 0, nc = 0; const bool tr = 0, rq = 0; RIG(1, 1) NST sn.m_LMR.zeros(); const int e = int(sn._full_init(nb, zb, true, ne)); vp_in(89, e, 0); FIN vp_in2(94, e ? nullptr : sl.m_a_dLdA[0].m_pData, 0, 0, 0); return e; }
}
// initialisation from scratch; tmp: the temporary memory the network owns at the end
static inline int rfull(Rs& r, int nb, int zb, long ne, vp_shim::tmpvec<D>& tmp)ND {
	vp_inI(20, 3, ne, 0); r.f = nb; r.t = zb; r.c = 0; r.tr = false; r.fl = 0; vp_inI(41, nb, zb, 0); r.mem = vp_q(0); r.mf = vp_q(1); r.dl = vp_q(2); r.par = vp_q(3); r.lw = vp_qb(0); r.la = vp_qb(1);
	int e = vp_ec(0, nb, zb);
	if (e) r.fl = vp_qi();
	else { if (zb > 0 && r.dl == 0) r.dl = 1; vp_inI(30, 0, 0, 0); if (!vp_mi()) e = int(E0::CantInitializeIMath); else { vp_inI(32, 0, 0, 0); if (!vp_ri()) e = int(E0::CantInitializeIRng); } }
	if (!e) { tmp.resize(r.mem + (zb > 0 ? 2*r.dl : 0)); D* p = tmp.data(); if (zb > 0) p += 2*r.dl; if (r.mem > 0) { vp_in2(48, p, 0, 0, 0); vp_inI(49, r.mem, 0, 0); } }
	if (e) rdein(r);
	return e;
}
extern "C" {
int vp_fi_s(int nb, int zb, long ne) { const int zf = 0, nt = 0, nc = 0; const bool tr = 0, rq = 0; RST vp_shim::tmpvec<D> t; const int e = rfull(r, nb, zb, ne, t); vp_in(89, e, 0); fin(r); vp_in2(94, e ? nullptr : zb > 0 ? t.data() : nullptr, 0, 0, 0); return e; }

// ---------------------------------------------------------------- loss over a data set: every batch once, in order, evaluated in the inference mode
#define TDT Td td; td.x = x; td.y = y; td.nx = nx; td.ny = ny; td.b = nb; td.tb = nb; td.at(0, 1);
D vp_clr_i(D* x, D* y, D* pa, int nf, int nt, int nb, int nx, int ny, int zs, bool fu, bool da, bool dw) { RIG(nx, ny) CD(nf, nt, nb, false) TDT Obs o; sact.useExternalStorage(pa, nb, ny + 1, true); sn.m_bCalcFullLossValue = fu; sn.m_LMR.bLossAddendumDependsOnActivations = da; sn.m_LMR.bLossAddendumDependsOnWeights = dw; const D l = sn.calcLossAndReport(td, zs, o); vp_in(90, sn.m_cur_batch_size, sn.m_bInTraining); return l; }
}
static inline D rclr(D* x, D* y, D* pa, int nf, bool tr, int nb, int nx, int ny, int d, bool fu, bool da)ND {
	if (da) vp_inI(46, 0, 0, 0);
	vp_inI(27, d, 0, 0); vp_inI(77, d, nf, 0); const long n = vp_nb(0, d); vp_inI(53, d, n, 0); D l = 0;
	for (long i = 0; i < n; i++) { vp_inI(78, i, nf, 0); vp_in2(44, x + i, nb, nx + 1, 1); vp_in2(40, y + i, nb, ny, 0); l += vp_cl(y + i, nb)/nb; vp_inI(54, i, nb, 0); vp_in2(55, pa, nb, ny + 1, 1); vp_in2(56, y + i, nb, ny, 0); }
	if (fu) { vp_inI(47, 0, 0, 0); l += vp_la(0); }
	vp_inD(57, l); vp_inI(28, 0, 0, 0); return l;
}
extern "C" {
D vp_clr_s(D* x, D* y, D* pa, int nf, int nt, int nb, int nx, int ny, int zs, bool fu, bool da, bool dw) { const D l = rclr(x, y, pa, nf, false, nb, nx, ny, zs, fu, da); vp_in(90, nb, 0); return l; }
D vp_clb_i(D* x, D* y, int nf, int nt, int zc, int nb, int nx, int ny, bool tr) { RIG(nx, ny) CD(nf, nt, zc, tr) MX X, Y; X.useExternalStorage(x, nb, nx + 1, true); Y.useExternalStorage(y, nb, ny); const D l = sn._calcLoss4batch(X, Y); vp_in(90, sn.m_cur_batch_size, sn.m_bInTraining); return l; }
D vp_clb_s(D* x, D* y, int nf, int nt, int zc, int nb, int nx, int ny, bool tr) { if (nb != zc || tr) vp_inI(43, nb, 0, 0); vp_in2(44, x, nb, nx + 1, 1); vp_in2(40, y, nb, ny, 0); vp_in(90, nb, 0); return vp_cl(y, nb)/nb; }
void vp_rtp_i(D* x, D* y, D* pa, int nf, int nt, int nb, int nx, int ny, long ne, long nd, bool fu, bool da) { RIG(nx, ny) CD(nf, nt, nb, false) TDT Obs o; sact.useExternalStorage(pa, nb, ny + 1, true); sn.m_bCalcFullLossValue = fu; sn.m_LMR.bLossAddendumDependsOnActivations = da; const D l = sn._report_training_progress(ne, td, ::std::chrono::nanoseconds(nd), o); vp_inD(90, l); }
void vp_rtp_s(D* x, D* y, D* pa, int nf, int nt, int nb, int nx, int ny, long ne, long nd, bool fu, bool da) { vp_inI(46, 0, 0, 0); const D a = rclr(x, y, pa, nf, false, nb, nx, ny, 0, fu, da), b = rclr(x, y, pa, nf, false, nb, nx, ny, 1, fu, da); vp_inI(58, ne, nd, 0); vp_inD(59, a); vp_inD(60, b); vp_inD(90, a); }

// ---------------------------------------------------------------- initialisation again: what is initialised already is only refreshed
int vp_in_i(int zf, int nt, int nc, int nb, int zb, long ne, bool tr, bool rq) { RIG(1, 1) NST const int e = int(sn._init(nb, zb, true, ne)); vp_in(89, e, 0); FIN return e; }
int vp_in_s(int zf, int nt, int nc, int nb, int zb, long ne, bool tr, bool rq) { RST if (!rq && zf > 0 && nb <= zf && zb <= nt) { vp_inI(30, 0, 0, 0); int e = 0; if (vp_mi()) vp_inI(20, 3, ne, 0); else e = int(E0::CantInitializeIMath); vp_in(89, e, 0); fin(r); return e; }
	rdein(r); vp_shim::tmpvec<D> t; const int e = rfull(r, nb, zb, ne, t); vp_in(89, e, 0); fin(r); return e; }
int vp_i4t_i(D* x, D* y, int zf, int nt, int nc, int zm, int zb, int nx, int ny, int nb, long ne, bool mi, bool fo) { const bool tr = 0, rq = 0; RIG(nx, ny) NST TDT const int e = int(sn._init4train(td, zm, zb, mi, ne, fo)); vp_inI(89, e, zm, zb); vp_in(88, mi, int(sn.get_last_error())); FIN return e; }
int vp_i4t_s(D* x, D* y, int zf, int nt, int nc, int zm, int zb, int nx, int ny, int nb, long ne, bool mi, bool fo) { const bool tr = 0, rq = 0; RST int e = 0; bool in = fo; if (!in) { vp_inI(71, zm, zb, mi); in = !vp_qb(12); }
	if (in) { vp_inI(72, zm, zb, mi); zm = vp_q(12); zb = vp_q(13); mi = vp_qb(13); e = vp_ec(1, 0, 0); if (e) { vp_inI(89, e, zm, zb); vp_in(88, mi, e); fin(r); return e; } }
	if (zf > 0 && zm <= zf && zb <= nt) { vp_inI(30, 0, 0, 0); if (vp_mi()) vp_inI(20, 3, ne, 0); else e = int(E0::CantInitializeIMath); }
	else { rdein(r); vp_inI(75, 0, 0, 0); vp_shim::tmpvec<D> t; e = rfull(r, zm, zb, ne, t); }
	vp_inI(89, e, zm, zb); vp_in(88, mi, 0); fin(r); return e; }
// ---------------------------------------------------------------- forward passes outside of training
int vp_fpr_i(D* x, int zf, int nt, int nc, int nb, int nx, bool tr, bool rq) { RIG(nx, 1) NST MX X; X.useExternalStorage(x, nb, nx + 1, true); const int e = int(sn.fprop(X)); vp_in(89, e, int(sn.get_last_error())); FIN return e; }
int vp_fpr_s(D* x, int zf, int nt, int nc, int nb, int nx, bool tr, bool rq) { RST int e = 0; if (!rq && zf > 0 && nb <= zf) { vp_inI(30, 0, 0, 0); if (vp_mi()) vp_inI(20, 3, 1, 0); else e = int(E0::CantInitializeIMath); } else { rdein(r); vp_shim::tmpvec<D> t; e = rfull(r, nb, 0, 1, t); }
	if (!e) { if (r.c != nb || r.tr) vp_inI(43, nb, 0, 0); r.c = nb; r.tr = false; vp_in2(44, x, nb, nx + 1, 1); } vp_in(89, e, e); fin(r); return e; }
int vp_ifb_i(int zf, int nt, int nc, int nb, bool tr, bool rq) { RIG(1, 1) NST const int e = int(sn.init4fixedBatchFprop(nb)); vp_in(89, e, int(sn.get_last_error())); FIN return e; }
int vp_ifb_s(int zf, int nt, int nc, int nb, bool tr, bool rq) { RST int e = 0; if (!rq && zf > 0 && nb <= zf) { vp_inI(30, 0, 0, 0); if (vp_mi()) vp_inI(20, 3, 1, 0); else e = int(E0::CantInitializeIMath); } else { rdein(r); vp_shim::tmpvec<D> t; e = rfull(r, nb, 0, 1, t); }
	if (!e) { if (r.c != nb || r.tr) vp_inI(43, nb, 0, 0); r.c = nb; r.tr = false; } vp_in(89, e, e); fin(r); return e; }

// ---------------------------------------------------------------- training: order of steps, what is reported when, when it stops
}
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vp_q(99))); } } } }
template<bool RO, bool DE, bool FI> static inline int trn(D* x, D* y, D* pa, int nf, int nt, int nb, int nx, int ny, long me, long dl, D th)ND {
	const int zf = nf, nc = nt; const bool tr = true, rq = false; RIG(nx, ny) NST sact.useExternalStorage(pa, nb, ny + 1, true); TdR td; td.x = x; td.y = y; td.nx = nx; td.ny = ny; td.b = nb; td.tb = nt; td.at(0, 1);
	Op<RO, DE, FI> o; o.me = me; o.dl = dl; o.fs = nf; o.bs = nt; o.fu = o.fo = false; o.th = th;
	const int e = int(sn.train<false>(td, o, CB(), CI())); vp_in(89, e, 0); FIN2 return e; }
static inline D rclr1(D* x, D* y, D* pa, int nf, int& cur, bool& tr, int nb, int nx, int ny, int d)ND;
template<bool RO, bool DE, bool FI> static inline int rtrn(D* x, D* y, D* pa, int nf, int nt, int nb, int nx, int ny, long me, long dl, D th)ND {
	const int zf = nf, nc = nt; const bool tr = true, rq = false; RST nntl::global_denormalized_floats_mode(); bool oi = FI ? vp_qb(20) : false; if (FI) vp_inI(29, 1, 0, 0);
	int e = 0; bool ob = false; vp_inI(30, 0, 0, 0);
	if (!vp_mi()) e = int(E0::CantInitializeIMath);
	else { vp_inI(20, 3, me, 0); vp_inI(63, 0, 0, 0); e = vp_ec(3, 0, 0);
		if (!e) { vp_inI(50, me, nf, nt); if (!vp_oi(me)) e = int(E0::CantInitializeObserver); else {
			vp_inI(52, nt, nf, 7); vp_inI(46, 0, 0, 0);
			const D a = rclr1(x, y, pa, nf, r.c, r.tr, nb, nx, ny, 0), b = rclr1(x, y, pa, nf, r.c, r.tr, nb, nx, ny, 1); vp_inI(58, -1, 0, 0); vp_inD(59, a); vp_inD(60, b); if (r.c != nt || !r.tr) vp_inI(43, nt, 0, 0); r.c = nt; r.tr = true;
			e = [&]()ND { for (long i = 0; i < me; i++) {
				const long n = vp_nb(1, i); int cc = nt; bool tt = true; vp_inI(79, i, nt, 1); vp_inI(21, i, n, 0);
				for (long k = 0; k < n; k++) { vp_inI(23, k, 0, 0); vp_inI(80, k, nt, 1); vp_in2(25, x + k, nt, nx + 1, 1); vp_in2(44, x + k, nt, nx + 1, 1); vp_in2(26, y + k, nt, ny, 0); vp_in2(45, y + k, nt, ny, 0); vp_inI(24, 0, 0, 0); }
				const bool dv = i < dl, rp = vp_rc(i) || dv; 
				if (rp && !(RO && !dv)) { vp_inI(46, 0, 0, 0); const D c = rclr1(x, y, pa, nf, cc, tt, nb, nx, ny, 0), d = rclr1(x, y, pa, nf, cc, tt, nb, nx, ny, 1); vp_inI(58, i, 0, 0); vp_inD(59, c); vp_inD(60, d); if (dv && !(c < th)) return int(E0::NNDiverged); }
				vp_inI(22, 0, 0, 0); vp_inI(62, i, 0, 0); if (!vp_cb(i)) break;
				if (cc != nt || !tt) vp_inI(43, nt, 0, 0);
			}
			if (!RO) vp_inI(61, 0, 0, 0); return 0; }();
			vp_inI(51, 0, 0, 0); } } }
	if (DE) { vp_inI(76, 0, 0, 0); rdein(r); }
	if (FI) vp_inI(29, oi, 0, 0);
	vp_in(89, e, 0); fin2(r); return e;
}
static inline D rclr1(D* x, D* y, D* pa, int nf, int& cur, bool& tr, int nb, int nx, int ny, int d)ND {
	vp_inI(27, d, 0, 0); vp_inI(77, d, nf, 0); const long n = vp_nb(0, d); vp_inI(53, d, n, 0); D l = 0; const bool sw = cur != nb || tr;
	for (long i = 0; i < n; i++) { vp_inI(78, i, nf, 0); if (sw && i < 1) vp_inI(43, nb, 0, 0); vp_in2(44, x + i, nb, nx + 1, 1); vp_in2(40, y + i, nb, ny, 0); l += vp_cl(y + i, nb)/nb; vp_inI(54, i, nb, 0); vp_in2(55, pa, nb, ny + 1, 1); vp_in2(56, y + i, nb, ny, 0); }
	if (n > 0) { cur = nb; tr = false; }
	vp_inD(57, l); vp_inI(28, 0, 0, 0); return l;
}
extern "C" {
#define TA D* x, D* y, D* pa, int nf, int nt, int nb, int nx, int ny, long zm, long zd, D th
#define TB x, y, pa, nf, nt, nb, nx, ny, zm, zd, th
int vp_tr_i(TA) { return trn<false, false, false>(TB); }
int vp_tr_s(TA) { return rtrn<false, false, false>(TB); }
// two epochs, followed one after the other
#define TC D* x, D* y, D* pa, int nf, int nt, int nb, int nx, int ny
#define TG x, y, pa, nf, nt, nb, nx, ny, 2, 1, 5
int vp_trc_i(TC) { return trn<false, false, false>(TG); }
int vp_trc_s(TC) { return rtrn<false, false, false>(TG); }
int vp_trd_i(TA) { return trn<false, true, false>(TB); }
int vp_trd_s(TA) { return rtrn<false, true, false>(TB); }
int vp_trr_i(TA) { return trn<true, false, false>(TB); }
int vp_trr_s(TA) { return rtrn<true, false, false>(TB); }
int vp_trf_i(TA) { return trn<false, false, true>(TB); }
int vp_trf_s(TA) { return rtrn<false, false, true>(TB); }
}
// arguments that cannot be trained on are refused before anything happens
template<int K> struct TdE : public TdR { bool empty()const ND { return K == 0; } neurons_count_t xWidth()const ND { return K == 1 ? nx + 1 : nx; } bool isSuitableForOutputOf(const neurons_count_t n)const ND { vp_inI(70, n, 0, 0); return K < 2; } };
template<int K> static inline void tre(D* x, D* y, int zf, int nt, int nc, int nb, int nx, int ny, bool tr, bool rq)ND { RIG(nx, ny) NST TdE<K> td; td.x = x; td.y = y; td.nx = nx; td.ny = ny; td.b = td.tb = nb; td.at(0, 1);
	Op<false, true, true> o; o.me = 5; o.dl = 2; o.fs = nb; o.bs = nt; o.fu = o.fo = false; o.th = 1; const int e = int(sn.template train<false>(td, o, CB(), CI())); vp_in(89, e, int(sn.get_last_error())); FIN }
static inline void rtre(int e, int ny, int zf, int nt, int nc, bool tr, bool rq)ND { RST nntl::global_denormalized_floats_mode(); if (ny) vp_inI(70, ny, 0, 0); vp_in(89, e, e); fin(r); }
extern "C" {
#define TE D* x, D* y, int zf, int nt, int nc, int nb, int nx, int ny, bool tr, bool rq
#define TF x, y, zf, nt, nc, nb, nx, ny, tr, rq
void vp_tre0_i(TE) { tre<0>(TF); }
void vp_tre0_s(TE) { rtre(int(E0::InvalidTD), 0, zf, nt, nc, tr, rq); }
void vp_tre1_i(TE) { tre<1>(TF); }
void vp_tre1_s(TE) { rtre(int(E0::InvalidInputLayerNeuronsCount), 0, zf, nt, nc, tr, rq); }
void vp_tre2_i(TE) { tre<2>(TF); }
void vp_tre2_s(TE) { rtre(int(E0::InvalidOutputLayerNeuronsCount), ny, zf, nt, nc, tr, rq); }
// preparing forward passes over the batches of a data set
int vp_ift_i(D* x, D* y, int zf, int nt, int nc, int nb, int n, int nx, int ny, bool tr, bool rq) { RIG(nx, ny) NST TDT const int e = int(sn.init4fixedBatchFprop(td, n)); vp_inI(89, e, int(sn.get_last_error()), n); FIN return e; }
int vp_ift_s(D* x, D* y, int zf, int nt, int nc, int nb, int n, int nx, int ny, bool tr, bool rq) { RST int e = 0; vp_inI(73, n, 0, 0); if (!vp_qb(14)) { vp_inI(74, n, 0, 0); n = vp_q(14); e = vp_ec(2, 0, 0); }
	if (!e) { if (!rq && zf > 0 && n <= zf) { vp_inI(30, 0, 0, 0); if (vp_mi()) vp_inI(20, 3, 1, 0); else e = int(E0::CantInitializeIMath); } else { rdein(r); vp_shim::tmpvec<D> t; e = rfull(r, n, 0, 1, t); } }
	if (!e) { if (r.c != n || r.tr) vp_inI(43, n, 0, 0); r.c = n; r.tr = false; vp_inI(75, 0, 0, 0); vp_inI(30, 0, 0, 0); if (!vp_mi()) e = int(E0::CantInitializeIMath); }
	vp_inI(89, e, e, n); fin(r); return e; }
}
