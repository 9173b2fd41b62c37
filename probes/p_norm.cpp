#define VP_VEC_INLINE 4
#include "vec.h"
#include "kern.h"
#undef STDCOUTL
#define STDCOUTL(...) ((void)0)
#undef STDCOUT
#define STDCOUT(...) ((void)0)
#include "nntl/utils/mtx2Normal.h"
using namespace nntl::utils;
typedef mtx2Normal::Settings<D, D> ST;
extern "C" { D vp_f_scale(D, L) noexcept __attribute__((const)); D vp_f_central(D, L) noexcept __attribute__((const)); bool vp_f_special(D, L) noexcept __attribute__((const)); void vp_f_norm(D, D, bool, bool) noexcept;
 void vp_f_begin(unsigned) noexcept; void vp_f_end() noexcept; int vp_f_cols() noexcept; void vp_f_normc(int, D, D, bool, bool) noexcept; }
struct Acc { D sum; L n; Acc() noexcept : sum(0), n(0) {} void operator()(const D& v) noexcept { sum += v; ++n; } };
struct FN { const MX* ms; L nb; typedef Acc Accum_t; typedef D datat_t; typedef D statsdata_t;
 numel_cnt_t prepareToWalk() noexcept { return nb; } const MX* walk(numel_cnt_t i) noexcept { return ms + i; }
 D get_scale(const Acc& a, bool& sp) noexcept { sp = vp_f_special(a.sum, a.n); return vp_f_scale(a.sum, a.n); } D get_central(const Acc& a) noexcept { return vp_f_central(a.sum, a.n); }
 void normalize_whole(const D s, const D c, const bool bs, const bool bc) noexcept { vp_f_norm(s, c, bs, bc); } };
// the data pass reduced to one opaque observation per try: decides the control of the iteration
struct AccT { void operator()(const D&) noexcept {} };
struct FT { L nb; L k = 0; typedef AccT Accum_t; typedef D datat_t; typedef D statsdata_t;
 numel_cnt_t prepareToWalk() noexcept { ++k; return 0; } const MX* walk(numel_cnt_t) noexcept { return nullptr; }
 D get_scale(const AccT&, bool& sp) noexcept { sp = vp_f_special(0, k); return vp_f_scale(0, k); } D get_central(const AccT&) noexcept { return vp_f_central(0, k); }
 void normalize_whole(const D s, const D c, const bool bs, const bool bc) noexcept { vp_f_norm(s, c, bs, bc); } };
// column by column
extern "C" { D vp_c_scale(int, D, L) noexcept __attribute__((const)); D vp_c_central(int, D, L) noexcept __attribute__((const)); bool vp_c_special(int, D, L) noexcept __attribute__((const)); }
template<class AC> struct FCb { L nb; L k = 0; const MX* ms; int nc; typedef AC Accum_t; typedef D datat_t; typedef D statsdata_t;
 int total_cols() const noexcept { return nc; } void cw_begin(unsigned t) noexcept { vp_f_begin(t); } void cw_end() noexcept { vp_f_end(); }
 template<typename F> void iThreads_run(F&& f, L n) noexcept { f(threads::parallel_range<L>(n)); }
 const MX* walk(numel_cnt_t i) noexcept { return ms + i; }
 void normalize_cw(int c, const D s, const D ce, const bool bs, const bool bc) noexcept { vp_f_normc(c, s, ce, bs, bc); } };
struct FCT : FCb<AccT> { numel_cnt_t prepareToWalk() noexcept { ++k; return 0; }
 D cw_get_scale(int c, const AccT&, bool& sp) const noexcept { sp = vp_c_special(c, 0, k); return vp_c_scale(c, 0, k); } D cw_get_central(int c, const AccT&) const noexcept { return vp_c_central(c, 0, k); } };
struct FCA : FCb<Acc> { numel_cnt_t prepareToWalk() noexcept { ++k; return nb; }
 D cw_get_scale(int c, const Acc& a, bool& sp) const noexcept { sp = vp_c_special(c, a.sum, a.n); return vp_c_scale(c, a.sum, a.n); } D cw_get_central(int c, const Acc& a) const noexcept { return vp_c_central(c, a.sum, a.n); } };
template<unsigned mt, class F> static inline bool cw_ref(const ST& st, bool a, bool b, F& f) {
 if (!(a || b) || mt == 0) return true;
 const int nc = f.total_cols(); bool done[4] = {false, false, false, false};
 for (unsigned t = 0; t < mt; ++t) {
  typename F::Accum_t x[4]; const L nb = f.prepareToWalk();
  for (L k = 0; k < nb; ++k) { const MX* m = f.walk(k); for (int c = 0; c < nc; ++c) { const D* q = m->data() + (L)c * m->rows(); for (L i = 0; i < (L)m->rows(); ++i) x[c](q[i]); } }
  vp_f_begin(t); bool all = true;
  for (int c = 0; c < nc; ++c) { bool sp; const D sc = f.cw_get_scale(c, x[c], sp), ce = f.cw_get_central(c, x[c]);
   if (done[c]) continue;
   const bool okS = std::abs(sc - st.targetScale) < st.ScaleTolerance, okC = std::abs(ce - st.targetCentral) < st.CentralTolerance;
   const bool gS = std::isfinite(sc), gC = std::isfinite(ce);
   const bool dS = b && !okS && gS && !sp, dC = a && !okC && gC;
   if ((!gS || !gC) && st.bOnBadStatsBreak) { vp_f_end(); return false; }
   if (dS || dC) f.normalize_cw(c, sc, ce, dS, dC);
   done[c] = !(dS || dC); all = all && done[c];
  }
  vp_f_end(); if (all) return true;
 }
 return false;
}
typedef mtx2Normal::_FNorm_stats_var_mean<true> FVT; typedef mtx2Normal::_FNorm_stats_var_mean<false> FVF;
typedef mtx2Normal::_impl::make_acc<D, double, FVT> ACT; typedef mtx2Normal::_impl::make_acc<D, double, FVF> ACF;
template<unsigned mt, class F> static inline bool nw_ref(const ST& st, bool a, bool b, F& f) {
 if (!(a || b) || mt == 0) return true;
 unsigned t = 0;
 for (; t < mt; ++t) {
  typename F::Accum_t x; const L nb = f.prepareToWalk();
  for (L k = 0; k < nb; ++k) { const MX* m = f.walk(k); for (const D* p = m->begin(); p < m->end_no_bias(); ++p) x(*p); }
  bool sp; const D sc = f.get_scale(x, sp), ce = f.get_central(x);
  const bool okS = std::abs(sc - st.targetScale) < st.ScaleTolerance, okC = std::abs(ce - st.targetCentral) < st.CentralTolerance;
  const bool gS = std::isfinite(sc), gC = std::isfinite(ce);
  const bool dS = b && !okS && gS && !sp, dC = a && !okC && gC;
  if ((!gS || !gC) && st.bOnBadStatsBreak) return false;
  if (dS || dC) f.normalize_whole(sc, ce, dS, dC); else break;
 }
 return t < mt;
}
extern "C" {
// ---------------------------------------------------------------- statistics
D vp_st_mean_i(const D* a, L n) { ACT x; mtx2Normal::applyAccumulator(a, a + n, x); return FVT::get_central(x); }
D vp_st_mean_i_f(const D* a, L n) { ACF x; mtx2Normal::applyAccumulator(a, a + n, x); return FVF::get_central(x); }
D vp_st_mean_s(const D* a, L n) { D s = 0; for (L i = 0; i < n; ++i) s += a[i]; return s / n; }
#define SS D s = 0, q = 0; for (L i = 0; i < n; ++i) { s += a[i]; q += a[i] * a[i]; }
D vp_st_sd_i(const D* a, L n) { ACF x; mtx2Normal::applyAccumulator(a, a + n, x); bool sp; return FVF::get_scale(x, sp); }
D vp_st_sd_s(const D* a, L n) { SS; return std::sqrt(q / n - (s / n) * (s / n)); }
bool vp_st_sp_i(const D* a, L n) { ACF x; mtx2Normal::applyAccumulator(a, a + n, x); bool sp; FVF::get_scale(x, sp); return sp; }
bool vp_st_sp_s(const D* a, L n) { SS; return std::sqrt(q / n - (s / n) * (s / n)) == 0; }
D vp_st_usd_i(const D* a, L n) { ACT x; mtx2Normal::applyAccumulator(a, a + n, x); bool sp; return FVT::get_scale(x, sp); }
D vp_st_usd_s(const D* a, L n) { SS; return std::sqrt((q / n - (s / n) * (s / n)) * n / (n - D(1))); }
bool vp_st_shld_i(bool a, bool b, unsigned zn) { ST s; s.bCentralNormalize = a; s.bScaleNormalize = b; s.maxTries = zn; return s.bShouldNormalize(); } bool vp_st_shld_s(bool a, bool b, unsigned zn) { return (a || b) && zn > 0; }
// ---------------------------------------------------------------- the iteration over the whole matrix
#define NW(nm, F_, T_) bool vp_##nm##_i(const ST& st, bool a, bool b, L n) { F_ f; f.nb = n; ST s(st); s.bCentralNormalize = a; s.bScaleNormalize = b; s.bVerbose = false; s.maxTries = T_; return mtx2Normal::normalize_whole(s, f); } \
 bool vp_##nm##_s(const ST& st, bool a, bool b, L n) { F_ f; f.nb = n; ST s(st); return nw_ref<T_>(s, a, b, f); }
NW(nwt0, FT, 0)
NW(nwt1, FT, 1)
NW(nwt2, FT, 2)
bool vp_nwa2_i(const ST& st, bool a, bool b, FN& f) { ST s(st); s.bCentralNormalize = a; s.bScaleNormalize = b; s.bVerbose = false; s.maxTries = 2; return mtx2Normal::normalize_whole(s, f); }
bool vp_nwa2_s(const ST& st, bool a, bool b, FN& f) { ST s(st); return nw_ref<2>(s, a, b, f); }
#define CW(nm, F_, T_, C_) bool vp_##nm##_i(const ST& st, bool a, bool b, const MX* ms, L n) { F_ f; f.nb = n; f.ms = ms; f.nc = C_; ST s(st); s.bCentralNormalize = a; s.bScaleNormalize = b; s.bVerbose = false; s.maxTries = T_; return mtx2Normal::normalize_cw(s, f); } \
 bool vp_##nm##_s(const ST& st, bool a, bool b, const MX* ms, L n) { F_ f; f.nb = n; f.ms = ms; f.nc = C_; ST s(st); return cw_ref<T_>(s, a, b, f); }
CW(cwt0, FCT, 0, 1)
CW(cwt21, FCT, 2, 1)
CW(cwt12, FCT, 1, 2)
}
