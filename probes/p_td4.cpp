// flags: -fno-access-control -fno-exceptions
#include "tdc.h"
#define ob obz
static inline void obz(const MX& A, O* o) { const bool k = !A.empty(); o->p = A.data(); o->r = k ? A.rows() : 0; o->c = k ? A.cols() : 0; o->e = k && A.emulatesBiases(); o->h = k && A.hasHoleyBiases(); o->b = k && A.bBatchInRow(); o->own = !A.bDontManageStorage(); }
static inline void sh(O* o, const D* p, L n, L w, bool e, bool b, bool own) { if (!p) ex(o, p, 0, 0, false, false, false, true); else if (b) ex(o, p, w + e, n, e, false, true, own); else ex(o, p, n, w + e, e, false, false, own); }
static inline void leak(MD& A) { A.m_pData = nullptr; A.m_bDontManageStorage = true; }
static inline D* al(L n) { return (D*)vp_amalloc(n * sizeof(D), (utils::mem_align_for<D>())); }
typedef nntl::utils::dataHolder<D> DH;
struct DHh { TM m; DH h; int* ix; L n; DHh(int* p, L n_)noexcept : ix(p), n(n_) { setv(h.m_rowsIdxs, p, n_); } ~DHh() { setv(h.m_rowsIdxs, nullptr, 0); leak(h.m_batchX); leak(h.m_batchY); }
	L w()const { return h.m_pBatchX == h.m_pDataX ? 1 : h.m_pBatchX == &h.m_batchX ? 2 : 3; } L wy()const { return !h.m_pBatchY ? 0 : h.m_pBatchY == h.m_pDataY ? 1 : h.m_pBatchY == &h.m_batchY ? 2 : 3; } };
struct HS { L w, wy, next, bs, cnt, full, alias, n; };
static inline void hs(DHh& x, HS* s) { s->w = x.w(); s->wy = x.wy(); s->next = &*x.h.m_next - x.ix; s->bs = x.h.curBatchSize(); s->full = x.h.isFullBatch(); s->alias = x.h.isBatchAliasToData(); s->n = x.h.samplesCount(); }
// a data holder over n samples of nw inputs / nu outputs whose batch buffers hold nm samples, nb of them in use
#define DHC D* x0, D* y0, D* bx, D* by, int n, int nw, int nu, int nm, int* idx
#define DHSET DHh x(idx, n); MX X(x0, n, nw + 1, true), Y(y0, n, nu, false); x.h.m_pDataX = &X; x.h.m_pDataY = f ? &Y : nullptr; ds(x.h.m_batchX, bx, nm, nw, true, false); if (f) ds(x.h.m_batchY, by, nm, nu, false, false);
extern "C" {
// ---------------------------------------------------------------- the batch holder
void vp_dhinit_i(D* x0, D* y0, int nd, int nw, int nu, int r, bool f, int* idx, HS* s, O* o) { const int n = r + nd; DHh x(idx, n); MX X(x0, n, nw + 1, true), Y(y0, n, nu, false); x.h.init(r, X, f ? &Y : nullptr); if (x.h.m_batchX.empty() || (f && x.h.m_batchY.empty())) { s->w = -1; return; } hs(x, s); ob(x.h.m_batchX, o); ob(x.h.m_batchY, o + 1); }
void vp_dhinit_s(D* x0, D* y0, int nd, int nw, int nu, int r, bool f, int* idx, HS* s, O* o) { const int n = r + nd; D *p = al(L(r)*(L(nw) + 1)), *q = nullptr; if (p) for (L i = 0; i < r; ++i) p[i + L(nw)*r] = D(1); if (f) q = al(L(r)*nu);
	for (L i = 0; i < n; ++i) idx[i] = int(i); if (!p || (f && !q)) { s->w = -1; return; }
	s->w = 2; s->wy = f ? 2 : 0; s->next = n; s->bs = r; s->full = s->alias = 0; s->n = n; sh(o, p, r, nw, true, false, true); sh(o + 1, q, r, nu, false, false, true); }
void vp_dhinitF_i(D* x0, D* y0, int n, int nw, int nu, bool f, int* idx, HS* s, O* o) { DHh x(idx, n); MX X(x0, n, nw + 1, true), Y(y0, n, nu, false); x.h.init(0, X, f ? &Y : nullptr); hs(x, s); ob(x.h.m_batchX, o); ob(x.h.m_batchY, o + 1); }
void vp_dhinitF_s(D* x0, D* y0, int n, int nw, int nu, bool f, int* idx, HS* s, O* o) { for (L i = 0; i < n; ++i) idx[i] = int(i); s->w = 1; s->wy = f ? 1 : 0; s->next = n; s->bs = n; s->full = s->alias = 1; s->n = n; sh(o, nullptr, 0, 0, 0, 0, 0); sh(o + 1, nullptr, 0, 0, 0, 0, 0); }
void vp_dhprep_i(DHC, int r, bool f, HS* s, O* o) { if (r > n || (r < n && r > nm)) return; DHSET x.h.m_next = x.h.m_rowsIdxs.cbegin(); x.h.prepareToBatchSize(r); hs(x, s); ob(x.h.m_batchX, o); ob(x.h.m_batchY, o + 1); ob(x.h.batchX(), o + 2); s->cnt = x.h.m_pBatchY ? x.h.batchY().rows() : 0; }
void vp_dhprep_s(DHC, int r, bool f, HS* s, O* o) { if (r > n || (r < n && r > nm)) return; const bool full = r >= n; if (!full && r != nm) for (L i = 0; i < r; ++i) bx[i + L(nw)*r] = D(1); s->w = full ? 1 : 2; s->wy = f ? s->w : 0; s->next = 0; s->bs = r; s->full = s->alias = full; s->n = n; s->cnt = f ? r : 0;
	const int k = full ? nm : r; sh(o, bx, k, nw, true, false, false); sh(o + 1, f ? by : nullptr, k, nu, false, false, false); sh(o + 2, full ? x0 : bx, r, nw, true, false, false); }
void vp_dhnext_i(D* x0, D* y0, D* bx, D* by, int nd, int nw, int nu, int nm, int* idx, int z, bool f, RR* rng, HS* s) { const int n = nm + nd; DHSET x.h.m_pBatchX = &x.h.m_batchX; x.h.m_pBatchY = f ? &x.h.m_batchY : nullptr; x.h.m_next = x.h.m_rowsIdxs.cbegin() + z; x.h.nextBatch(*rng, x.m); hs(x, s); s->cnt = &*x.h.curBatchIdxs() - idx; s->w = &*x.h.curBatchIdxsEnd() - idx; }
void vp_dhnext_s(D* x0, D* y0, D* bx, D* by, int nd, int nw, int nu, int nm, int* idx, int z, bool f, RR* rng, HS* s) { const int n = nm + nd; L k = z; if (L(z) > L(n) - nm) { k = 0; vp_ao_shuffle(idx, n, rng); } vp_ao_extrRows(bx, nm, nw, x0, n, nw, idx + k); if (f) vp_ao_extrRows(by, nm, nu, y0, n, nu, idx + k);
	s->wy = f ? 2 : 0; s->next = k + nm; s->bs = nm; s->full = s->alias = 0; s->n = n; s->cnt = k; s->w = k + nm; }
void vp_dhnextF_i(DHC, int z, bool f, RR* rng, HS* s) { DHSET x.h.m_pBatchX = &X; x.h.m_pBatchY = f ? &Y : nullptr; x.h.m_next = x.h.m_rowsIdxs.cbegin() + z; x.h.nextBatch(*rng, x.m); hs(x, s); }
void vp_dhnextF_s(DHC, int z, bool f, RR* rng, HS* s) { s->w = 1; s->wy = f ? 1 : 0; s->next = z; s->bs = n; s->full = s->alias = 1; s->n = n; }
L vp_dhcnt_i(DHC, bool f) { DHSET x.h.m_pBatchX = &x.h.m_batchX; return x.h.batchesCount(); } L vp_dhcnt_s(DHC, bool f) { return L(round(double(n)/nm)); }
void vp_dhde_i(DHC, bool f, HS* s, O* o) { DHSET x.h.m_pBatchX = &x.h.m_batchX; x.h.deinit(); s->w = !x.h.m_pBatchX; s->wy = !x.h.m_pBatchY; s->n = !x.h.m_pDataX; s->full = !x.h.m_pDataY; s->cnt = x.h.m_rowsIdxs.size(); ob(x.h.m_batchX, o); ob(x.h.m_batchY, o + 1); } void vp_dhde_s(DHC, bool f, HS* s, O* o) { s->w = s->wy = s->n = s->full = 1; s->cnt = 0; sh(o, nullptr, 0, 0, 0, 0, 0); sh(o + 1, nullptr, 0, 0, 0, 0, 0); }
// ---------------------------------------------------------------- what all layers share: mode and batch sizes
struct Y { L a, b, c, t; }; static inline void yo(const CD& d, Y* y) { y->a = d.m_max_fprop_batch_size; y->b = d.m_training_batch_size; y->c = d.m_cur_batch_size; y->t = d.m_bInTraining; }
struct CDh { TM m; RR rr; RI ii; bool blk; CD cd; CDh()noexcept : blk(false), cd(m, rr, ii, blk) {} };
void vp_cdinit_i(int r, int z, int z2, bool t, Y* y) { CDh x; x.cd.m_cur_batch_size = z2; x.cd.m_bInTraining = t; x.cd.init(r, z); yo(x.cd, y); } void vp_cdinit_s(int r, int z, int z2, bool t, Y* y) { y->a = r; y->b = z; y->c = 0; y->t = 0; }
void vp_cddei_i(int r, int z, int z2, Y* y) { CDh x; x.cd.m_max_fprop_batch_size = r; x.cd.m_training_batch_size = z; x.cd.m_cur_batch_size = z2; x.cd.m_bInTraining = false; x.cd.m_outBatchSizes.maxBS = r; x.cd.deinit(); yo(x.cd, y); y->t = x.cd.m_outBatchSizes.isValid(); } void vp_cddei_s(int r, int z, int z2, Y* y) { y->a = y->b = y->c = y->t = 0; }
bool vp_cdmode_i(int r, int z, int z2, int n, bool t, bool u, Y* y) { CDh x; x.cd.m_max_fprop_batch_size = r; x.cd.m_training_batch_size = z; x.cd.m_cur_batch_size = z2; x.cd.m_bInTraining = t; const bool q = x.cd.set_mode_and_batch_size(u, n); yo(x.cd, y); return q; } bool vp_cdmode_s(int r, int z, int z2, int n, bool t, bool u, Y* y) { y->a = r; y->b = z; y->c = n; y->t = u; return t != u || z2 != n; }
L vp_cdchg_i(int r, int z, int z2, int n, bool t, Y* y) { CDh x; x.cd.m_max_fprop_batch_size = r; x.cd.m_training_batch_size = z; x.cd.m_cur_batch_size = z2; x.cd.m_bInTraining = t; const L q = x.cd.change_cur_batch_size(n); yo(x.cd, y); return q; } L vp_cdchg_s(int r, int z, int z2, int n, bool t, Y* y) { y->a = r; y->b = z; y->c = n; y->t = t; return z2; }
void vp_cdget_i(int r, int z, int z2, bool t, Y* y) { CDh x; x.cd.m_max_fprop_batch_size = r; x.cd.m_training_batch_size = z; x.cd.m_cur_batch_size = z2; x.cd.set_training_mode(t); y[0].a = x.cd.input_batch_size(); y[0].b = x.cd.input_max_fprop_batch_size(); y[0].c = x.cd.input_training_batch_size(); y[0].t = x.cd.input_biggest_batch_size(); y[1].a = x.cd.is_training_possible(); y[1].b = x.cd.is_initialized(); y[1].c = x.cd.is_training_mode(); y[1].t = x.cd.isLearningBlocked(); }
void vp_cdget_s(int r, int z, int z2, bool t, Y* y) { y[0].a = z2; y[0].b = r; y[0].c = z; y[0].t = std::max(z, r); y[1].a = z > 0; y[1].b = 1; y[1].c = t; y[1].t = 0; }
bool vp_cdno_i() { CDh x; return x.cd.is_initialized() || x.cd.is_training_possible(); } bool vp_cdno_s() { return false; }
void vp_cdobs_i(int r, int z, Y* y) { CDh x; BatchSizes b; b.maxBS = r; b.maxTrainBS = z; x.cd.set_outBatchSizes(b); y->a = x.cd.get_outBatchSizes().maxBS; y->b = x.cd.get_outBatchSizes().maxTrainBS; } void vp_cdobs_s(int r, int z, Y* y) { y->a = r; y->b = z; }
L vp_cdset_i() { CDh x; CD d; d.setInterfacesFrom(x.cd); return (d.m_pMath == &x.m) + 2*(d.m_pRng == &x.rr) + 4*(d.m_pInspect == &x.ii) + 8*(d.m_pbNotLearningNow == &x.blk) + 16*(&d.iMath() == &x.m) + 32*(&d.iRng() == &x.rr) + 64*(&d.iInspect() == &x.ii); } L vp_cdset_s() { return 127; }
// ---------------------------------------------------------------- sizes of the sets
L vp_cntT_i(CFG) { TDh x(C_); return x.t.trainset_samples_count(); } L vp_cntT_s(CFG) { return n0; } L vp_cntE_i(CFG) { TDh x(C_); return x.t.testset_samples_count(); } L vp_cntE_s(CFG) { return n1; }
L vp_cntB_i(CFG) { TDh x(C_); return x.t.biggest_samples_count(); } L vp_cntB_s(CFG) { return std::max(L(n0), L(n1)); } L vp_wX_i(CFG) { TDh x(C_); return x.t.xWidth(); } L vp_wX_s(CFG) { return nw; } L vp_wY_i(CFG) { TDh x(C_); return x.t.yWidth(); } L vp_wY_s(CFG) { return nu; }
bool vp_suit_i(CFG, int q) { TDh x(C_); return x.t.isSuitableForOutputOf(q); } bool vp_suit_s(CFG, int q) { return q == nu; } L vp_dsc_i(CFG) { TDh x(C_); return x.t.datasets_count(); } L vp_dsc_s(CFG) { return 2; }
L vp_excl_i(int z) { return DataSetsId::exclude_dataX(z) + 2*DataSetsId::exclude_dataY(z); } L vp_excl_s(int z) { return (z == 1) + 2*(z == 2); }
// ---------------------------------------------------------------- batch buffers: room for the largest batch, orientation and bias as the data
bool vp_initB_i(D* x0, D* y0, int n0, int nw, int nu, int rd, int rT, bool b, bool b2, bool mini, bool inf, O* o) { const int rF = rT + rd; TD t; ds(t.m_x[0], x0, n0, nw, true, b); ds(t.m_y[0], y0, n0, nu, false, b2); t.m_maxFPropSize = rF; const int zT = mini ? rT : 0; t.m_maxTrainBatchSize = zT; t.m_bMiniBatchTraining = mini; const bool r = t._initBatches(inf); if (r) { ob(t.m_batch_x, o); ob(t.m_batch_y, o + 1); } leak(t.m_batch_x); leak(t.m_batch_y); return r; }
bool vp_initB_s(D* x0, D* y0, int n0, int nw, int nu, int rd, int rT, bool b, bool b2, bool mini, bool inf, O* o) { const int rF = rT + rd, zT = mini ? rT : 0; D *p = nullptr, *q = nullptr; L kx = 0, ky = 0; bool ok = true; const L big = std::max(zT, rF);
	if (mini || inf) { if (mini || !(b && inf)) { kx = b && inf ? L(zT) : big; p = al(kx*(L(nw) + 1)); ok = p; if (p) { if (b) for (L j = 0; j < kx; ++j) p[nw + j*(L(nw) + 1)] = D(1); else for (L i = 0; i < kx; ++i) p[i + nw*kx] = D(1); } }
		if (ok && (mini || !(b2 && inf))) { ky = b2 && inf ? L(zT) : big; q = al(ky*nu); ok = q; if (!q) vp_afree(p); } }
	if (ok) { sh(o, p, kx, nw, true, b, true); sh(o + 1, q, ky, nu, false, b2, true); } return ok; }
bool vp_initBe_i(D* x0, D* y0, int n0, int nw, int nu, int rT, bool b, bool b2, bool mini, bool inf, O* o) { const int rF = rT; TD t; ds(t.m_x[0], x0, n0, nw, true, b); ds(t.m_y[0], y0, n0, nu, false, b2); t.m_maxFPropSize = rF; const int zT = mini ? rT : 0; t.m_maxTrainBatchSize = zT; t.m_bMiniBatchTraining = mini; const bool r = t._initBatches(inf); if (r) { ob(t.m_batch_x, o); ob(t.m_batch_y, o + 1); } leak(t.m_batch_x); leak(t.m_batch_y); return r; }
bool vp_initBe_s(D* x0, D* y0, int n0, int nw, int nu, int rT, bool b, bool b2, bool mini, bool inf, O* o) { const int rF = rT, zT = mini ? rT : 0; D *p = nullptr, *q = nullptr; L kx = 0, ky = 0; bool ok = true; const L big = std::max(zT, rF);
	if (mini || inf) { if (mini || !(b && inf)) { kx = b && inf ? L(zT) : big; p = al(kx*(L(nw) + 1)); ok = p; if (p) { if (b) for (L j = 0; j < kx; ++j) p[nw + j*(L(nw) + 1)] = D(1); else for (L i = 0; i < kx; ++i) p[i + nw*kx] = D(1); } }
		if (ok && (mini || !(b2 && inf))) { ky = b2 && inf ? L(zT) : big; q = al(ky*nu); ok = q; if (!q) vp_afree(p); } }
	if (ok) { sh(o, p, kx, nw, true, b, true); sh(o + 1, q, ky, nu, false, b2, true); } return ok; }
void vp_deall_i(CFG, St* s, O* ox, O* oy) { TDh x(C_); setv(x.t.m_vSampleIdxs, nullptr, 0); x.t.m_maxFPropSize = nm; x.t.m_maxTrainBatchSize = nm; x.t.m_curBatchSize = nm; x.t.m_curDataset2Walk = 1; x.t.m_bMiniBatchTraining = true; x.t.m_pCurBatchX = &x.t.m_batch_x; x.t.m_pCurBatchY = &x.t.m_batch_y; x.t.deinit4all(); x.st(s); ob(x.t.m_batch_x, ox); ob(x.t.m_batch_y, oy); ob(x.t.m_walkX, ox + 1); ob(x.t.m_x[0], ox + 2); }
void vp_deall_s(CFG, St* s, O* ox, O* oy) { s->px = s->py = s->mF = s->mT = s->cur = s->mini = 0; s->set = -1; sh(ox, nullptr, 0, 0, 0, 0, 0); sh(oy, nullptr, 0, 0, 0, 0, 0); sh(ox + 1, nullptr, 0, 0, 0, 0, 0); sh(ox + 2, x0, n0, nw, true, b, false); }
bool vp_isinf_i(CFG, int zF, int zb, bool f, L* o) { TDh x(C_); if (f) x.t.m_batch_x.clear(); x.t.m_maxFPropSize = zF; int q = zb; const bool r = x.t.is_initialized4inference(q); *o = q; return r; } bool vp_isinf_s(CFG, int zF, int zb, bool f, L* o) { const int t = zb ? zb : zF; const bool r = zF != 0 && t <= zF && !(t < zF && f); *o = r ? t : zb; return r; }
bool vp_istr_i(CFG, int zF, int zb, int zT, int zt, bool f, L* o) { TDh x(C_); if (f) x.t.m_batch_x.clear(); x.t.m_maxFPropSize = zF; x.t.m_maxTrainBatchSize = zT; int q = zb, u = zt; bool m = false; const bool r = x.t.is_initialized4train(q, u, m); o[1] = u; o[2] = m; return r; } bool vp_istr_s(CFG, int zF, int zb, int zT, int zt, bool f, L* o) { const int t = zb ? zb : zF; bool r = zF != 0 && t <= zF && !(t < zF && f); const int k = zt ? zt : zT; r = r && zT != 0 && k <= zT && !(k < zF && f) && k <= t; o[1] = r ? k : zt; o[2] = r && !f; return r; }
}
