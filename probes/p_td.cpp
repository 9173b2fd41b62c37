// flags: -fno-access-control -fno-exceptions
#include "tdc.h"
// ---------------------------------------------------------------- which set an epoch trains on, in which order, and which samples a batch holds
static inline void epoch_spec(const Cfg& f, St* s, const void* rng, O* ox, O* oy, int bs, int maxT, bool mini) {
	s->cur = bs; s->set = -1; s->mT = maxT; s->mini = mini; s->mF = 0; s->n = f.n0/L(bs);
	if (mini) { s->px = s->py = 1; if (bs != f.m) biases(f.bx, bs, f.w, f.b); vp_ao_shuffle(f.idx, f.n0, rng); if (f.b) { ex(ox, f.bx, L(f.w) + 1, bs, true, false, true, false); ex(oy, f.by, f.u, bs, false, false, true, false); } else { ex(ox, f.bx, bs, L(f.w) + 1, true, false, false, false); ex(oy, f.by, bs, f.u, false, false, false, false); } }
	else { s->px = s->py = 3; if (f.b) { ex(ox, f.x0, L(f.w) + 1, f.n0, true, false, true, false); ex(oy, f.y0, f.u, f.n0, false, false, true, false); } else { ex(ox, f.x0, f.n0, L(f.w) + 1, true, false, false, false); ex(oy, f.y0, f.n0, f.u, false, false, false, false); } } }
static inline void shp(O* o, const D* p, L n, L w, bool e, bool b) { if (b) ex(o, p, w + e, n, e, false, true, false); else ex(o, p, n, w + e, e, false, false, false); }
static inline void walk_spec(const Cfg& f, St* s, O* ox, O* oy, bool q, int bs, int maxF, bool ex1, bool ey1) { const int n = q ? f.n1 : f.n0; s->set = q; s->mF = maxF; s->mT = 0; s->mini = 0; if (L(bs) > n) bs = n;
	if (bs < n) { s->cur = bs; s->px = ex1 ? 0 : f.b ? 2 : 1; s->py = ey1 ? 0 : f.b ? 2 : 1; if (!f.b && !ex1 && bs != f.m) biases(f.bx, bs, f.w, false); shp(ox, f.bx, f.b || ex1 ? f.m : bs, f.w, true, f.b); shp(oy, f.by, f.b || ey1 ? f.m : bs, f.u, false, f.b); }
	else { s->cur = -1; s->px = ex1 ? 0 : q ? 4 : 3; s->py = ey1 ? 0 : q ? 4 : 3; shp(ox, f.bx, f.m, f.w, true, f.b); shp(oy, f.by, f.m, f.u, false, f.b); }
	{ const auto v = std::div(L(n), L(bs)); s->n = v.quot + (v.rem > 0); } }
extern "C" {
void vp_epoch_i(CFG, St* s, O* ox, O* oy, int r, L z, bool mini, RR* rng) { TDh x(C_); x.cd.m_pRng = rng; x.t.m_bMiniBatchTraining = mini; x.t.m_maxTrainBatchSize = r; s->n = x.t.on_next_epoch(z, x.cd, r); x.st(s); ob(x.t.batchX(), ox); ob(x.t.batchY(), oy); }
void vp_epoch_s(CFG, St* s, O* ox, O* oy, int r, L z, bool mini, RR* rng) { epoch_spec(C_, s, rng, ox, oy, r, r, mini); }
void vp_epochC_i(CFG, St* s, O* ox, O* oy, int r, int c, L z, bool mini, RR* rng) { TDh x(C_); x.cd.m_pRng = rng; x.cd.m_cur_batch_size = r; x.t.m_bMiniBatchTraining = mini; x.t.m_maxTrainBatchSize = c; s->n = x.t.on_next_epoch(z, x.cd); x.st(s); ob(x.t.batchX(), ox); ob(x.t.batchY(), oy); }
void vp_epochC_s(CFG, St* s, O* ox, O* oy, int r, int c, L z, bool mini, RR* rng) { epoch_spec(C_, s, rng, ox, oy, r, c, mini); }
void vp_epochM_i(CFG, St* s, O* ox, O* oy, int r, int c, L z, bool mini, RR* rng) { TDh x(C_); x.cd.m_pRng = rng; x.cd.m_cur_batch_size = r; x.t.m_bMiniBatchTraining = mini; x.t.m_maxTrainBatchSize = c; s->n = x.t.on_next_epoch(z, x.cd, -1); x.st(s); ob(x.t.batchX(), ox); ob(x.t.batchY(), oy); }
void vp_epochM_s(CFG, St* s, O* ox, O* oy, int r, int c, L z, bool mini, RR* rng) { epoch_spec(C_, s, rng, ox, oy, c, c, mini); }
// batch k of an epoch holds the samples idx[k*bs .. k*bs+bs-1]
void vp_batch_i(CFG, int zk, bool mini) { TDh x(C_); x.t.m_bMiniBatchTraining = mini; x.t.m_curBatchSize = nm; x.t.on_next_batch(zk, x.cd); }
void vp_batch_s(CFG, int zk, bool mini) { if (!mini) return; const int* i = idx + L(nm)*zk; if (b) { vp_ao_extrBatches(by, nu, nm, 1, y0, nu, n0, 1, i); vp_ao_extrBatches(bx, nw, nm, 1, x0, nw, n0, 1, i); } else { vp_ao_extrBatches(by, nm, nu, 0, y0, n0, nu, 0, i); vp_ao_extrBatches(bx, nm, nw, 0, x0, n0, nw, 0, i); } }
// ---------------------------------------------------------------- walking over a set without shuffling: number of parts (the last may be smaller), what each part holds
#define WALK(nm_, AR, BS) void vp_walk##nm_##_i(CFG, St* s, O* ox, O* oy, int r, int c, bool q, bool f, bool g) { if (f && g) return; TDh x(C_); x.t.m_maxFPropSize = c; x.cd.m_cur_batch_size = r; s->n = x.t.walk_over_set AR; x.st(s); ob(x.t.m_batch_x, ox); ob(x.t.m_batch_y, oy); } \
 void vp_walk##nm_##_s(CFG, St* s, O* ox, O* oy, int r, int c, bool q, bool f, bool g) { if (f && g) return; walk_spec(C_, s, ox, oy, q, BS, c, f, g); }
WALK(X, (q, x.cd, r, f ? 1 : g ? 2 : 0), r) WALK(C, (q, x.cd, 0, f ? 1 : g ? 2 : 0), r) WALK(M, (q, x.cd, -1, f ? 1 : g ? 2 : 0), c)
void vp_walkD_i(CFG, St* s, O* ox, O* oy, int r, int c, bool q) { TDh x(C_); x.t.m_maxFPropSize = c; s->n = q ? x.t.walk_over_test_set(x.cd) : x.t.walk_over_train_set(x.cd); x.st(s); ob(x.t.m_batch_x, ox); ob(x.t.m_batch_y, oy); } void vp_walkD_s(CFG, St* s, O* ox, O* oy, int r, int c, bool q) { walk_spec(C_, s, ox, oy, q, c, c, false, false); }
// part k holds samples k*bs .. min((k+1)*bs, n)-1
void vp_part_i(CFG, O* ox, O* oy, int zk, bool q, bool f, bool g) { TDh x(C_); x.t.m_curDataset2Walk = q; x.t.m_curBatchSize = nm; x.t.m_pCurBatchX = f ? nullptr : b ? &x.t.m_walkX : &x.t.m_batch_x; x.t.m_pCurBatchY = g ? nullptr : b ? &x.t.m_walkY : &x.t.m_batch_y; x.t.next_subset(zk, x.cd); if (b) { ob(x.t.m_walkX, ox); ob(x.t.m_walkY, oy); } else { ob(x.t.m_batch_x, ox); ob(x.t.m_batch_y, oy); } }
void vp_part_s(CFG, O* ox, O* oy, int zk, bool q, bool f, bool g) { const int n = q ? n1 : n0; D* X = q ? x1 : x0; D* Y = q ? y1 : y0; const int o = int(L(zk)*nm); if (n - o <= 0) ::abort(); const int k = n - o < nm ? n - o : nm;
	if (b) { if (f) ex(ox, nullptr, 0, 0, false, false, false, true); else ex(ox, X + L(o)*(nw + 1), L(nw) + 1, k, true, false, true, false); if (g) ex(oy, nullptr, 0, 0, false, false, false, true); else ex(oy, Y + L(o)*nu, nu, k, false, false, true, false); }
	else { if (!f && k != nm) biases(bx, k, nw, false); if (!g) vp_ao_extrSeq(by, k, nu, Y, n, nu, o); if (!f) vp_ao_extrSeq(bx, k, nw, X, n, nw, o); ex(ox, bx, f ? nm : k, L(nw) + 1, true, false, false, false); ex(oy, by, g ? nm : k, nu, false, false, false, false); } }
void vp_partW_i(CFG, int zk) { TDh x(C_); x.t.m_curDataset2Walk = 0; x.t.m_curBatchSize = -1; x.t.next_subset(zk, x.cd); } void vp_partW_s(CFG, int zk) {}
}
