// flags: -fno-access-control -fno-exceptions
#include "util2.h"
#include "nntl/interface/inspectors/gradcheck.h"
#include "nntl/utils/gradcheck.h"
// the base inspector only records that it was told
extern "C" { void vp_ao_told(int what, unsigned long a, unsigned long b, unsigned long c) noexcept; }
struct BI : public nntl::inspector::_impl::_base<D> {
 static unsigned long a_(const void* p) { return (unsigned long)p; }
 void fprop_begin(const layer_index_t l, const MX& m, const bool t) noexcept { vp_ao_told(1, l, a_(&m), t); }
 void fprop_makePreActivations(const MX& w, const MX& p) noexcept { vp_ao_told(2, a_(&w), a_(&p), 0); }
 void fprop_makePreActivations(const MX& p) noexcept { vp_ao_told(3, a_(&p), 0, 0); }
 void fprop_preactivations(const MX& p) noexcept { vp_ao_told(4, a_(&p), 0, 0); }
 void fprop_activations(const MX& p) noexcept { vp_ao_told(5, a_(&p), 0, 0); }
 void fprop_end(const MX& p) noexcept { vp_ao_told(6, a_(&p), 0, 0); }
 template<class T> void bprop_begin(const layer_index_t l, const nntl::math::smatrix<T>& m) noexcept { vp_ao_told(7, l, a_(&m), 0); }
 void bprop_finaldLdA(const MX& p) noexcept { vp_ao_told(8, a_(&p), 0, 0); }
 void bprop_dLdW(const MX& z, const MX& p, const MX& w) noexcept { vp_ao_told(9, a_(&z), a_(&p), a_(&w)); }
 void bprop_end(const MX& p) noexcept { vp_ao_told(10, a_(&p), 0, 0); }
};
typedef nntl::inspector::GradCheck<D, BI> GC; typedef nntl::_impl::gradcheck_paramsGroup GP; typedef nntl::_impl::gradcheck_phase GH;
static inline L cur(const GC& g) { const auto& v = g.m_curLayer.c; return v.n ? v.p[v.n - 1] : LI(-1); }
static inline bool top1(const GC& g) { const auto& v = g.m_curLayer.c; return v.n < 2 || v.p[v.n - 1] != v.p[v.n - 2]; }
static inline bool here(const GC& g, int k, bool an) { return g.m_layerIdxToCheck && g.m_layerIdxToCheck == LI(cur(g)) && int(g.m_checkParamsGroup) == k && (int(g.m_checkPhase) == 0) == an; }
static inline D* el(const GC& g, const MX& m) { return m.m_pData + (L(g.m_coord.first) + L(g.m_coord.second) * m.m_rows); }
static inline void say(int k, const void* a, const void* b = nullptr, const void* c = nullptr) { vp_ao_told(k, BI::a_(a), BI::a_(b), BI::a_(c)); }
extern "C" {
void vp_gcr_i(GC& g) { g.gc_reset(); } void vp_gcr_s(GC& g) { g.m_layerIdxToCheck = 0; g.m_pChangedEl = nullptr; }
void vp_gci_i(GC& g, D s) { g.gc_init(s); } void vp_gci_s(GC& g, D s) { g.m_stepSize = s; g.m_pChangedEl = nullptr; }
void vp_gcd_i(GC& g) { g.gc_deinit(); } void vp_gcd_s(GC& g) { g.m_pChangedEl = nullptr; }
int vp_gcg_i(GC& g) { return int(g.gc_getCurParamsGroup()); } int vp_gcg_s(GC& g) { return int(g.m_checkParamsGroup); }
void vp_gcp_i(GC& g, LI l, GP p, int r, int c, bool m) { g.gc_prep_check_layer(l, p, GC::mtx_coords_t(r, c), m); }
void vp_gcp_i_d(GC& g, LI l, GP p, int r, int c) { g.gc_prep_check_layer(l, p, GC::mtx_coords_t(r, c)); }
void vp_gcp_s(GC& g, LI l, GP p, int r, int c, bool m) { g.m_layerIdxToCheck = l; g.m_checkParamsGroup = p; g.m_coord.first = r; g.m_coord.second = c; g.m_curLayerMayNeverRun = m; }
void vp_gcp_s_d(GC& g, LI l, GP p, int r, int c) { vp_gcp_s(g, l, p, r, c, false); }
D vp_gca_i(GC& g) { g.m_checkPhase = GH::df_analytical; return g.get_analytical_value(); } D vp_gca_s(GC& g) { g.m_checkPhase = GH::df_analytical; return g.m_curLayerMayNeverRun && g.m_analyticalValue != g.m_analyticalValue ? D(0) : g.m_analyticalValue; }
int vp_gcb_i(GC& g) { return g.get_real_batch_size(); } int vp_gcb_s(GC& g) { return g.m_curLayerMayNeverRun && !g.m_realBatchSize ? 1 : g.m_realBatchSize; }
void vp_gcs_i(GC& g, GH h) { g.gc_set_phase(h); } void vp_gcs_s(GC& g, GH h) { g.m_checkPhase = h; g.m_analyticalValue = std::numeric_limits<D>::quiet_NaN(); g.m_realBatchSize = 0; }
static inline void psh(GC& g, LI l) { if (g.m_layerIdxToCheck) { auto& v = g.m_curLayer.c; v.p[v.n] = l; v.n = v.n + 1; } }
void vp_gfb_i(GC& g, LI l, const MX& m, bool t) { g.fprop_begin(l, m, t); } void vp_gfb_s(GC& g, LI l, const MX& m, bool t) { psh(g, l); vp_ao_told(1, l, BI::a_(&m), t); }
void vp_gbb_i(GC& g, LI l, const MX& m) { g.bprop_begin(l, m); } void vp_gbb_s(GC& g, LI l, const MX& m) { psh(g, l); vp_ao_told(7, l, BI::a_(&m), 0); }
void vp_gfe_i(GC& g, const MX& m) { g.fprop_end(m); } void vp_gfe_s(GC& g, const MX& m) { if (g.m_layerIdxToCheck) --g.m_curLayer.c.n; say(6, &m); }
void vp_gbe_i(GC& g, const MX& m) { g.bprop_end(m); } void vp_gbe_s(GC& g, const MX& m) { if (g.m_layerIdxToCheck) --g.m_curLayer.c.n; say(10, &m); }
// a weight is moved by exactly one step before the preactivations are computed and put back afterwards
void vp_gmp_i(GC& g, D* w, int r, int c, const MX& p) { MX W(w, r, c); g.fprop_makePreActivations(W, p); W.m_pData = nullptr; }
void vp_gmp_s(GC& g, D* w, int r, int c, const MX& p) { MX W(w, r, c); if (here(g, 1, false)) { D* const e = el(g, W); g.m_pChangedEl = e; const D o = *e; g.m_origElVal = o; *e = o + (int(g.m_checkPhase) == 1 ? g.m_stepSize : -g.m_stepSize); g.m_realBatchSize = p.m_rows; } say(2, &W, &p); W.m_pData = nullptr; }
void vp_gmq_i(GC& g, const MX& p) { g.fprop_makePreActivations(p); } void vp_gmq_s(GC& g, const MX& p) { say(3, &p); }
void vp_gpa_i(GC& g, const MX& z) { g.fprop_preactivations(z); } void vp_gpa_s(GC& g, const MX& z) { if (here(g, 1, false) && g.m_pChangedEl) { *g.m_pChangedEl = g.m_origElVal; g.m_pChangedEl = nullptr; } say(4, &z); }
void vp_gac_i(GC& g, D* w, int r, int c) { MX A(w, r, c); g.fprop_activations(A); A.m_pData = nullptr; }
void vp_gac_s(GC& g, D* w, int r, int c) { MX A(w, r, c); if (here(g, 0, false) && top1(g)) { D* const e = el(g, A); *e += (int(g.m_checkPhase) == 1 ? g.m_stepSize : -g.m_stepSize); g.m_realBatchSize = r; } say(5, &A); A.m_pData = nullptr; }
void vp_gda_i(GC& g, D* w, int r, int c) { MX A(w, r, c); g.bprop_finaldLdA(A); A.m_pData = nullptr; }
void vp_gda_s(GC& g, D* w, int r, int c) { MX A(w, r, c); if (here(g, 0, true) && top1(g)) { g.m_analyticalValue = *el(g, A); g.m_realBatchSize = r; } say(8, &A); A.m_pData = nullptr; }
void vp_gdw_i(GC& g, const MX& z, const MX& p, D* w, int r, int c) { MX A(w, r, c); g.bprop_dLdW(z, p, A); A.m_pData = nullptr; }
void vp_gdw_s(GC& g, const MX& z, const MX& p, D* w, int r, int c) { MX A(w, r, c); if (here(g, 1, true)) { g.m_analyticalValue = *el(g, A); g.m_realBatchSize = z.m_rows; } say(9, &z, &p, &A); A.m_pData = nullptr; }
// how many parameters a check covers
typedef nntl::gradcheck_groupSetts GS; typedef nntl::neurons_count_t NC;
void vp_gst_i(GS& g, NC n) { g.set(n); } void vp_gst_s(GS& g, NC n) { g.countMode = nntl::gradcheck_settingsCountMode::total_min; g.u.paramsToCheck = n > 0 ? n : 1; }
void vp_gsp_i(GS& g, NC n, unsigned z) { g.set(n, z); } void vp_gsp_s(GS& g, NC n, unsigned z) { g.countMode = nntl::gradcheck_settingsCountMode::percent_or_min; g.u.perc.paramsToCheck = n > 0 ? n : 1; g.u.perc.NPercents = z > 100 ? 100 : z; }
NC vp_gsc_i(NC n, NC c) { GS g(n); return g.countToCheck(c); } NC vp_gsc_s(NC n, NC c) { return c < n ? c : n; }
NC vp_gsq_i(NC n, NC c) { GS g(n, 30); return g.countToCheck(c); } NC vp_gsq_s(NC n, NC c) { const NC a = NC((long(c) * 30) / 100), b = n < c ? n : c; return a < b ? b : a; }
}
