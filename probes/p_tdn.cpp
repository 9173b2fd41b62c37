// flags: -fno-access-control -fno-exceptions
#define VP_VEC_INLINE 4
#include "vec.h"
#include "kern.h"
#undef STDCOUTL
#define STDCOUTL(...) ((void)0)
#undef STDCOUT
#define STDCOUT(...) ((void)0)
#include "nntl/train_data/_i_train_data.h"
#include "nntl/utils/mtx2Normal.h"
// the statistics phase is decided elsewhere (p_norm); here it is one opaque step that leaves a recorded transform and a verdict
extern "C" { bool vp_ao_stat(void* st, unsigned long bytes, const void* setts) noexcept; }
namespace nntl { namespace utils { namespace mtx2Normal {
 template<class S, class F> bool vp_normalize_whole(const S& s, F& f) noexcept { return vp_ao_stat(&f.m_Stat, sizeof(f.m_Stat), &s); }
 template<class S, class F> bool vp_normalize_cw(const S& s, F& f) noexcept { return vp_ao_stat(f.m_Stats.q, sizeof(f.m_Stats.q), &s); } } } }
#define normalize_whole vp_normalize_whole
#define normalize_cw vp_normalize_cw
#include "nntl/train_data/_td_norm.h"
using namespace nntl::utils;
typedef nntl::_impl::td_norm<D, D> TN; typedef TN::NormalizationSettings_t NS; typedef TN::NormBaseSettings_t NB;
typedef mtx2Normal::upd_mtx_scale_central::ScaleCentralData_tpl<D> SC;
struct CD { StubThreads* th; StubThreads& get_iThreads() const noexcept { return *th; } };
extern "C" { L vp_td_walk(L set, const void*, int, unsigned) noexcept; void vp_td_next(L, const void*) noexcept; bool vp_ao_init4(int) noexcept; void vp_td_fixT(const void*, D, D, bool, bool) noexcept; bool vp_td_fixD(const void*, D, D, bool, bool) noexcept; }
typedef mtx2Normal::upd_mtx_scale_central::ScaleCentralVector_tpl<D> SV;
extern "C" { void vp_td_fixTc(const void*, const void*, unsigned long) noexcept; bool vp_td_fixDc(const void*, unsigned long, D, D, bool, bool) noexcept; }
struct TD { MX bx; int w;
 L walk_over_set(L id, const CD& cd, int bs, unsigned fl) noexcept { return vp_td_walk(id, &cd, bs, fl); } void next_subset(L i, const CD& cd) noexcept { vp_td_next(i, &cd); } const MX& batchX() const noexcept { return bx; } int xWidth() const noexcept { return w; }
 bool is_initialized4inference(int& bs) noexcept { return vp_ao_init4(bs); }
 template<class U> void _fix_trainX_whole(const CD& cd, const SC& s) noexcept { vp_td_fixT(&cd, s.bScale ? s.sc : D(1), s.bOffset ? s.ofs : D(0), s.bScale, s.bOffset); }
 template<class U> bool _fix_dataX_whole(const CD& cd, const SC& s) noexcept { return vp_td_fixD(&cd, s.bScale ? s.sc : D(1), s.bOffset ? s.ofs : D(0), s.bScale, s.bOffset); }
 template<class U> void _fix_trainX_cw(const CD& cd, const SV& s) noexcept { vp_td_fixTc(&cd, &s[0], s.size()); }
 template<class U> bool _fix_dataX_cw(const CD& cd, const SV& s) noexcept { return vp_td_fixDc(&cd, s.size(), s[0].sc, s[0].ofs, s[0].bScale, s[0].bOffset); }
};
typedef TN::Norm_whole<TD, CD> NW; typedef TN::Norm_cw<TD, CD> NC;
extern "C" {
L vp_tnpw_i(TD& t, const CD& c, const NS& s) { NW n(t, s, c); return n.prepareToWalk(); }
L vp_tnpw_s(TD& t, const CD& c, const NS& s) { const L a = vp_td_walk(0, &c, s.batchSize, 2); return s.batchCount && s.batchCount < a ? L(s.batchCount) : a; }
const void* vp_tnwk_i(TD& t, const CD& c, const NS& s, long zb) { NW n(t, s, c); return n.walk(zb); }
const void* vp_tnwk_i_cw(NC& n, long zb) { return n.walk(zb); }
const void* vp_tnwk_s(TD& t, const CD& c, const NS& s, long zb) { vp_td_next(zb, &c); return &t.bx; }
const void* vp_tnwk_s_cw(NC& n, long zb) { vp_td_next(zb, &n.m_CD); return &n.m_td.bx; }
// one pass over the whole data: the pass is applied to the training data and added to the recorded transform
void vp_tnw_i(NW& n, D s, D c, bool bs, bool bc) { n.normalize_whole(s, c, bs, bc); }
void vp_tnw_s(NW& n, D s, D c, bool bs, bool bc) {
 const D q = bs ? n.m_Setts.targetScale/s : D(1); const D o = (n.m_Setts.targetCentral-c)*q;
 if (bs) { n.m_Stat.sc *= q; n.m_Stat.ofs *= q; n.m_Stat.bScale = true; } if (bc) { n.m_Stat.ofs += o; n.m_Stat.bOffset = true; }
 vp_td_fixT(&n.m_CD, q, bc ? o : D(0), bs, bc); }
// column by column: the pass of each column is recorded both for this pass and in total
void vp_tnc_i(NC& n, int c, D s, D v, bool bs, bool bc) { n.normalize_cw(c, s, v, bs, bc); }
void vp_tnc_s(NC& n, int c, D s, D v, bool bs, bool bc) { const D q = bs ? n.m_Setts.targetScale/s : D(1); const D o = (n.m_Setts.targetCentral-v)*q;
 SC* const a = n.m_Stats.q + (unsigned long)(L)c; SC* const b = n.m_iterStats.q + (unsigned long)(L)c;
 if (bs) { a->sc *= q; a->ofs *= q; a->bScale = true; b->sc *= q; b->ofs *= q; b->bScale = true; } if (bc) { a->ofs += o; a->bOffset = true; b->ofs += o; b->bOffset = true; } }
void vp_tncb_i(NC& n, unsigned t) { n.m_iterStats.n = 2; n.cw_begin(t); }
void vp_tncb_s(NC& n, unsigned t) { n.m_iterStats.n = 2; for (int i=0;i<2;++i) { n.m_iterStats.q[i].sc = 1; n.m_iterStats.q[i].ofs = 0; n.m_iterStats.q[i].bScale = n.m_iterStats.q[i].bOffset = false; } }
void vp_tnce_i(NC& n) { n.cw_end(); }
void vp_tnce_s(NC& n) { vp_td_fixTc(&n.m_CD, n.m_iterStats.q, n.m_iterStats.n); ++n.iterations; }
int vp_tntc_i(NC& n) { return n.total_cols(); }
int vp_tntc_s(NC& n) { return n.m_td.w; }
// the whole procedure: nothing to do, not ready, and what follows a successful statistics phase
#define REF_(CLS, FN, TAIL) if (!(s.bScaleNormalize || s.bCentralNormalize) || !(s.maxTries > 0)) return true; const int bs = s.batchSize < 0 ? 0 : s.batchSize; if (!vp_ao_init4(bs)) return false; CLS n(t, s, c); if (!mtx2Normal::FN(static_cast<const NB&>(s), n)) return false; return TAIL;
bool vp_tnd_i(TD& t, const CD& c, const NS& s) { return TN::normalize_data_whole(t, c, s); }
bool vp_tnd_s(TD& t, const CD& c, const NS& s) { REF_(NW, vp_normalize_whole, vp_td_fixD(&c, n.m_Stat.bScale ? n.m_Stat.sc : D(1), n.m_Stat.bOffset ? n.m_Stat.ofs : D(0), n.m_Stat.bScale, n.m_Stat.bOffset)) }
bool vp_tndc_i(TD& t, const CD& c, const NS& s) { t.w = 2; return TN::normalize_data_cw(t, c, s); }
bool vp_tndc_s(TD& t, const CD& c, const NS& s) { t.w = 2; REF_(NC, vp_normalize_cw, vp_td_fixDc(&c, n.m_Stats.n, n.m_Stats.q[0].sc, n.m_Stats.q[0].ofs, n.m_Stats.q[0].bScale, n.m_Stats.q[0].bOffset)) }
bool vp_tnda_i(TD& t, const CD& c, const NS& s) { t.w = 2; return TN::normalize_data(t, c, s); }
bool vp_tnda_s(TD& t, const CD& c, const NS& s) { t.w = 2; if (s.bColumnwise) return vp_tndc_s(t, c, s); else return vp_tnd_s(t, c, s); }
}
