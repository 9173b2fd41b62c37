// flags: -fno-access-control -fno-exceptions
#include "tdc.h"
// training data whose own hooks (release of everything, batch buffers) are opaque, to see when the initialisation calls them
extern "C" { void vp_deinit(); bool vp_initB(bool); }
class T2 final : public _inmem_train_data<T2, D, D> { public: void deinit4all()noexcept { vp_deinit(); } bool _initBatches(const bool b)noexcept { return vp_initB(b); } L n0, n1; numel_cnt_t dataset_samples_count(data_set_id_t i)const noexcept { return i == 0 ? n0 : n1; } };
struct T2h { TM m; T2 t; int* idx; T2h(L n0, L n1, int* p)noexcept { t.n0 = n0; t.n1 = n1; setv(t.m_vSampleIdxs, p, n0); idx = p; } ~T2h() { setv(t.m_vSampleIdxs, nullptr, 0); } };
typedef _nnet_errs::ErrorCode EC;
struct Q { L ec, f, b, mini, mF, mT, mb; };
extern "C" {
#define BIG(v) ((v) > 2147483647L)
void vp_inf_i(Q* o, int n0, int n1, int* idx, int zf) { T2h x(n0, n1, idx); int f = zf; o->ec = (L)x.t.init4inference(x.m, f); o->f = f; o->mF = x.t.m_maxFPropSize; o->mT = x.t.m_maxTrainBatchSize; }
void vp_inf_s(Q* o, int n0, int n1, int* idx, int zf) { vp_deinit(); const L big = std::max(L(n0), L(n1)); L f = zf; if (f <= 0 || f > big) f = big; o->f = o->mF = f; o->mT = 0; o->ec = (L)(vp_initB(f < big) ? EC::Success : EC::TdInitNoMemory); }
void vp_trn_i(Q* o, int n0, int n1, int* idx, int zf, int zb) { T2h x(n0, n1, idx); int f = zf, b = zb; bool q; o->ec = (L)x.t.init4train(x.m, f, b, &q); o->f = f; o->b = b; o->mF = x.t.m_maxFPropSize; o->mT = x.t.m_maxTrainBatchSize; o->mb = x.t.m_bMiniBatchTraining; o->mini = (b > f) ? 0 : q; }
void vp_trn_s(Q* o, int n0, int n1, int* idx, int zf, int zb) { vp_deinit(); const L big = std::max(L(n0), L(n1)); L f = zf, b = zb; if (f <= 0 || f > big) f = big; if (b <= 0 || b > n0) b = n0; o->f = f; o->b = b;
	bool ok = false; o->mF = o->mT = o->mb = o->mini = 0;
	if (b > f) o->ec = (L)EC::InvalidBatchSize2MaxFPropSizeRelation;
	else { o->mF = f; o->mT = b; o->mb = o->mini = b < n0; if (b < n0) for (L i = 0; i < n0; ++i) idx[i] = int(i); ok = vp_initB(f < big); o->ec = (L)(ok ? EC::Success : EC::TdInitNoMemory); }
	if (!ok) vp_deinit(); }
void vp_trn0_i(Q* o, int n0, int n1, int* idx, int zf, int zb) { T2h x(n0, n1, idx); int f = zf, b = zb; o->ec = (L)x.t.init4train(x.m, f, b, nullptr); o->f = f; o->b = b; }
void vp_trn0_s(Q* o, int n0, int n1, int* idx, int zf, int zb) { Q q; vp_trn_s(&q, n0, n1, idx, zf, zb); o->ec = q.ec; o->f = q.f; o->b = q.b; }
}
// normalisation touches exactly the inputs of the set it is asked to change
typedef nntl::utils::mtx2Normal::upd_mtx_scale_central UP;
extern "C" {
void vp_tfw_i(CFG, D s, D o, bool k) { TDh h(C_); UP::ScaleCentralData_tpl<D> q(s, o, true, true); if (k) h.t._fix_trainX_whole<UP>(h.cd, q, 1); else h.t._fix_trainX_whole<UP>(h.cd, q); }
void vp_tfw_s(CFG, D s, D o, bool k) { vp_ao_mca(k ? x1 : x0, s, o); }
}
