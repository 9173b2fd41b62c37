// flags: -fno-access-control -fno-exceptions
#include "vec.h"
#include "kern.h"
#undef STDCOUTL
#define STDCOUTL(...) ((void)0)
#undef STDCOUT
#define STDCOUT(...) ((void)0)
#include "nntl/train_data/_td_base.h"
using namespace nntl::utils;
typedef mtx2Normal::upd_mtx_scale_central U; typedef U::ScaleCentralData_tpl<D> SC; typedef U::ScaleCentralVector_tpl<D> SV;
typedef nntl::_impl::td_norm<D, D> TN; typedef TN::NormalizationSettings_t NS;
extern "C" { void vp_ao_fixT(D, D, bool, bool, int) noexcept; void vp_ao_fixC(unsigned long, int) noexcept; bool vp_ao_init4(int) noexcept; int vp_ao_init(int) noexcept; bool vp_ao_minit() noexcept; void vp_ao_deinit() noexcept; bool vp_ao_norm(const void*, const void*) noexcept; }
struct IM { bool init() noexcept { return vp_ao_minit(); } };
struct CD { IM* im; IM& get_iMath() const noexcept { return *im; } };
struct NF { typedef D stats_t; typedef NS NormalizationSettings_t; template<class T> bool normalize_data(T& t, const CD& c, const NS& s) const noexcept { return vp_ao_norm(&c, &s); } };
struct Q : public nntl::_impl::_td_base<Q, D, D> { int dc;
 int datasets_count() const noexcept { return dc; }
 template<class V, class C> void _fix_trainX_whole(const C& cd, const SC& s, int k) noexcept { vp_ao_fixT(s.bScale ? s.sc : D(1), s.bOffset ? s.ofs : D(0), s.bScale, s.bOffset, k); }
 template<class V, class C> void _fix_trainX_cw(const C& cd, const SV& s, int k) noexcept { vp_ao_fixC((unsigned long)&s, k); }
 bool empty() const noexcept { return false; }
 bool is_initialized4inference(int& bs) const noexcept { return vp_ao_init4(bs); }
 typedef nntl::_nnet_errs::ErrorCode EC;
 EC init4inference(IM&, int& bs) noexcept { return EC(vp_ao_init(bs)); } void deinit4all() noexcept { vp_ao_deinit(); }
};
extern "C" {
// the recorded transform goes to every set but the training one
void vp_bw_i(Q& q, const CD& c, const SC& s) { q._do_fix_dataX_whole<U, CD, D>(c, s); }
void vp_bw_s(Q& q, const CD& c, const SC& s) { const int dc = q.dc; for (int k = 1; k < dc; ++k) vp_ao_fixT(s.bScale ? s.sc : D(1), s.bOffset ? s.ofs : D(0), s.bScale, s.bOffset, k); }
void vp_bc_i(Q& q, const CD& c, const SV& s) { q._do_fix_dataX_cw<U, CD, D>(c, s); }
void vp_bc_s(Q& q, const CD& c, const SV& s) { const int dc = q.dc; for (int k = 1; k < dc; ++k) vp_ao_fixC((unsigned long)&s, k); }
bool vp_bfw_i(Q& q, const CD& c, const SC& s) { return q._fix_dataX_whole<U, CD, D>(c, s); }
bool vp_bfw_s(Q& q, const CD& c, const SC& s) { if (!(s.bScale && std::isfinite(s.sc)) && !(s.bOffset && std::isfinite(s.ofs))) return false; vp_bw_s(q, c, s); return true; }
bool vp_bfc_i(Q& q, const CD& c, SV& s, int n) { s.n = n; return q._fix_dataX_cw<U, CD, D>(c, s); }
bool vp_bfc_s(Q& q, const CD& c, SV& s, int n) { s.n = n; int k = 0; for (unsigned long i = 0; i < s.size(); ++i) if (!(s[i].bScale && std::isfinite(s[i].sc)) && !(s[i].bOffset && std::isfinite(s[i].ofs))) ++k; if (k == s.size()) return false; vp_bc_s(q, c, s); return true; }
bool vp_bn_i(Q& q, const CD& c, const NS& s, const NF& f) { return q.normalize_data<D, CD, mtx2Normal::_FNorm_stats_var_mean<true>, NF>(c, s, f); }
bool vp_bn_s(Q& q, const CD& c, const NS& s, const NF& f) { if (!(s.bScaleNormalize || s.bCentralNormalize) || !(s.maxTries > 0)) return true; const int m = s.batchSize < 0 ? 0 : s.batchSize; const bool b = !vp_ao_init4(m);
 if (b) { if (vp_ao_init(m) != 0) return false; if (!vp_ao_minit()) return false; } const bool r = vp_ao_norm(&c, &s); if (b) vp_ao_deinit(); return r; }
}
