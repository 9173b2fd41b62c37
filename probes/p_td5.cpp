// flags: -fno-access-control -fno-exceptions
#include "tdc.h"
extern "C" inline __attribute__((always_inline)) div_t div(int a, int b) noexcept { return div_t{a/b, a%b}; }
// training data seen through a sample transformer: the transformer is opaque, every call it gets is an effect with its operands
extern "C" { void vp_tf_deinit(); bool vp_tf_init(const void*, const void*, L); void vp_tf_epoch(const void*, L, const void*, L, L); void vp_tf_batch(const void*, L, const void*, const int*, L); void vp_tf_walk(const void*, L, const void*, L, L, L); void vp_tf_next(const void*, L, L, const void*, L, L, L); const D* vp_tf_orig(const void*, L, L) __attribute__((const)); }
struct TF : public _i_td_transformer<D, D> { int s, w, u; L n0, n1; const void *px, *py;
	vec_len_t samplesInBaseSample()const noexcept { return s; } vec_len_t xWidth(const_TD_stor_t&)const noexcept { return w; } vec_len_t yWidth(const_TD_stor_t&)const noexcept { return u; }
	numel_cnt_t base_dataset_samples_count(const_TD_stor_t&, data_set_id_t i)const noexcept { return i == 0 ? n0 : n1; }
	void deinit()noexcept { vp_tf_deinit(); } template<class M> bool init(M& m, const_TD_stor_t& t, vec_len_t b)noexcept { return vp_tf_init(&m, &t, b); }
	template<class C> void next_epoch(const_TD_stor_t& t, const numel_cnt_t e, const C& cd, const vec_len_t b, x_mtx_t** x, y_mtx_t** y)noexcept { vp_tf_epoch(&t, e, &cd, b, (x == px) + 2*(y == py)); }
	template<class C> void next_batch(const_TD_stor_t& t, const numel_cnt_t i, const C& cd, const vec_len_t* p, const vec_len_t b)noexcept { vp_tf_batch(&t, i, &cd, p, b); }
	template<class C> void walk(const_TD_stor_t& t, const data_set_id_t d, const C& cd, const vec_len_t b, const unsigned f, x_mtx_t** x, y_mtx_t** y)noexcept { vp_tf_walk(&t, d, &cd, b, f, (x == px) + 2*(y == py)); }
	template<class C> void walk_next(const_TD_stor_t& t, const data_set_id_t d, const numel_cnt_t i, const C& cd, const vec_len_t b, const vec_len_t o, const unsigned f)noexcept { vp_tf_next(&t, d, i, &cd, b, o, f); }
	const D* getOriginalSamplePtr(const_TD_stor_t& t, data_set_id_t d, L o, vec_len_t& len)const noexcept { len = w; return vp_tf_orig(&t, d, o); } };
// the data set itself with the release hook opaque
typedef utils::mtx2Normal::_FNorm_stats_var_mean<true> SF;
class TT final : public _impl::_transf_train_data<TT, TF, SF> { public: TT(TF& f, TF::const_TD_stor_t& t)noexcept : _impl::_transf_train_data<TT, TF, SF>(f, t) {} };
struct Th { TF f; TT t; Th(TS* st, L n0, L n1, int s, int w, int u, int* p)noexcept : t(f, *st) { f.s = s; f.w = w; f.u = u; f.n0 = n0; f.n1 = n1; f.px = &t.m_pCurBatchX; f.py = &t.m_pCurBatchY; setv(t.m_vSampleIdxs, p, n0); } ~Th() { setv(t.m_vSampleIdxs, nullptr, 0); } };
#define TC TS* st, int n0, int n1, int ns, int nw, int nu, int* idx
#define TX Th x(st, n0, n1, ns, nw, nu, idx)
struct Q { L ec, f, b, mini, mF, mT, cur, set, n; };
typedef _nnet_errs::ErrorCode EC;
extern "C" {
L vp_tcnt_i(TC, bool q) { TX; return x.t.dataset_samples_count(q); } L vp_tcnt_s(TC, bool q) { return L(ns)*(q ? n1 : n0); }
L vp_tcntT_i(TC) { TX; return x.t.trainset_samples_count(); } L vp_tcntT_s(TC) { return L(ns)*n0; } L vp_tcntE_i(TC) { TX; return x.t.testset_samples_count(); } L vp_tcntE_s(TC) { return L(ns)*n1; }
L vp_tbcT_i(TC) { TX; return x.t.base_trainset_samples_count(); } L vp_tbcT_s(TC) { return n0; } L vp_tbcE_i(TC) { TX; return x.t.base_testset_samples_count(); } L vp_tbcE_s(TC) { return n1; }
L vp_tbig_i(TC) { TX; return x.t.base_biggest_samples_count(); } L vp_tbig_s(TC) { return std::max(L(n0), L(n1)); } L vp_tbs2_i(TC, int r) { TX; return x.t.baseBatchSize2realBatchSize(r); } L vp_tbs2_s(TC, int r) { return int(r*ns); }
L vp_twx_i(TC) { TX; return x.t.xWidth(); } L vp_twx_s(TC) { return nw; } L vp_twy_i(TC) { TX; return x.t.yWidth(); } L vp_twy_s(TC) { return nu; } bool vp_tsuit_i(TC, int q) { TX; return x.t.isSuitableForOutputOf(q); } bool vp_tsuit_s(TC, int q) { return q == nu; }
const D* vp_torig_i(TC, bool q, int z, int zi, int rb, L* l) { TX; x.t.m_curBatchSize = rb; int len = -7; const D* p = x.t.getOriginalSamplePtr(q, z, zi, len); *l = len; return p; } const D* vp_torig_s(TC, bool q, int z, int zi, int rb, L* l) { const L o = L(z)*rb + zi; if (o >= (q ? n1 : n0)) { *l = -7; return nullptr; } *l = nw; return vp_tf_orig(st, q, o); }
// an epoch: shuffle, hand the transformer the base batch size; the last incomplete batch is dropped
L vp_tepoch_i(TC, int r, int c, L z, RR* rng, CD* cd, Q* o) { TX; x.t.m_maxTrainBatchSize = c; cd->m_pRng = rng; const L n = x.t.on_next_epoch(z, *cd, r); o->cur = x.t.m_curBatchSize; o->set = x.t.m_curDataset2Walk; return n; }
L vp_tepoch_s(TC, int r, int c, L z, RR* rng, CD* cd, Q* o) { cd->m_pRng = rng; vp_ao_shuffle(idx, n0, rng); vp_tf_epoch(st, z, cd, r/ns, 3); o->cur = r/ns; o->set = -1; return L(ns)*n0/r; }
L vp_tepochM_i(TC, int c, int r, L z, RR* rng, CD* cd, Q* o) { TX; x.t.m_maxTrainBatchSize = c; cd->m_pRng = rng; cd->m_cur_batch_size = r; const L n = x.t.on_next_epoch(z, *cd, -1); o->cur = x.t.m_curBatchSize; return n; }
L vp_tepochM_s(TC, int c, int r, L z, RR* rng, CD* cd, Q* o) { cd->m_pRng = rng; cd->m_cur_batch_size = r; vp_ao_shuffle(idx, n0, rng); vp_tf_epoch(st, z, cd, c/ns, 3); o->cur = c/ns; return L(ns)*n0/c; }
L vp_tepochC_i(TC, int c, int r, L z, RR* rng, CD* cd, Q* o) { TX; x.t.m_maxTrainBatchSize = c; cd->m_pRng = rng; cd->m_cur_batch_size = r; const L n = x.t.on_next_epoch(z, *cd); o->cur = x.t.m_curBatchSize; return n; }
L vp_tepochC_s(TC, int c, int r, L z, RR* rng, CD* cd, Q* o) { cd->m_pRng = rng; cd->m_cur_batch_size = r; vp_ao_shuffle(idx, n0, rng); vp_tf_epoch(st, z, cd, r/ns, 3); o->cur = r/ns; return L(ns)*n0/r; }
void vp_tbatch_i(TC, int r, int z, CD* cd) { TX; x.t.m_curBatchSize = r; x.t.on_next_batch(z, *cd); } void vp_tbatch_s(TC, int r, int z, CD* cd) { vp_tf_batch(st, z, cd, idx + L(int(L(z)*r)), r); }
// a walk: every sample exactly once, the last part may be smaller
#define TW(nm, BS, ARG) L vp_twalk##nm##_i(TC, int r, int c, bool q, int z, CD* cd, Q* o) { TX; x.t.m_maxFPropSize = c; cd->m_cur_batch_size = r; const L n = x.t.walk_over_set(q, *cd, ARG, z); o->cur = x.t.m_curBatchSize; o->set = x.t.m_curDataset2Walk; o->f = x.t.m_excludeDataFlag; return n; } \
 L vp_twalk##nm##_s(TC, int r, int c, bool q, int z, CD* cd, Q* o) { cd->m_cur_batch_size = r; const L tot = L(ns)*(q ? n1 : n0); int b = BS; if (b > tot) b = int(tot); vp_tf_walk(st, q, cd, b/ns, z, 3); o->cur = b/ns; o->set = q; o->f = z; const auto v = std::div(tot, L(b)); return v.quot + (v.rem > 0); }
TW(X, r, r) TW(M, c, -1) TW(C, r, 0)
// part k covers base samples k*b .. min((k+1)*b, n)-1
void vp_tpart_i(D* x0, D* y0, int n, int nw, int nu, int rb, int z, bool q, int zf, bool b, bool b2, CD* cd, const void** who) { TS s; ds(s.m_x[q], x0, n, nw, true, b); ds(s.m_y[q], y0, n, nu, false, b2); TF f; f.s = 1; TT t(f, s); t.m_curBatchSize = rb; t.m_curDataset2Walk = q; t.m_excludeDataFlag = zf; *who = &s; t.next_subset(z, *cd); }
void vp_tpart_s(D* x0, D* y0, int n, int nw, int nu, int rb, int z, bool q, int zf, bool b, bool b2, CD* cd, const void** who) { TS s; *who = &s; const int o = int(L(z)*rb); if (n - o <= 0) ::abort(); vp_tf_next(&s, q, z, cd, n - o < rb ? n - o : rb, o, zf); }
bool vp_tisinf_i(TC, int zF, int zb, bool e, D* x0, L* o) { TX; x.t.m_maxFPropSize = zF; int q = zb; bool r; r = x.t.is_initialized4inference(q); *o = q; return r; } bool vp_tisinf_s(TC, int zF, int zb, bool e, D* x0, L* o) { const int t = zb ? zb : zF; const bool r = !st->empty() && zF != 0 && t <= zF && t % ns == 0; *o = r ? t : zb; return r; }
bool vp_tistr_i(TC, int zF, int zb, int zT, int zt, L* o) { TX; x.t.m_maxFPropSize = zF; x.t.m_maxTrainBatchSize = zT; int q = zb, u = zt; bool m = false; const bool r = x.t.is_initialized4train(q, u, m); o[1] = u; o[2] = m; return r; }
bool vp_tistr_s(TC, int zF, int zb, int zT, int zt, L* o) { const int t = zb ? zb : zF; bool r = !st->empty() && zF != 0 && t <= zF && t % ns == 0; const int k = zt ? zt : zT; r = r && zT != 0 && k <= zT && k % ns == 0 && k <= t; o[1] = r ? k : zt; o[2] = r && k/ns < L(n0); return r; }
}
