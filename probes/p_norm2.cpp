// column-wise normalisation: which samples reach which accumulator
#ifndef NTYPE
#define NTYPE double
#endif
#define VP_VEC_INLINE 4
#include "vec.h"
struct G; extern "C" { extern G vp_accs[]; void vp_ao_acc(const G*, NTYPE) noexcept; void vp_ao_accr(const G*) noexcept; }
struct G { NTYPE d[2]; G() noexcept {} G& operator=(G&&) noexcept { vp_ao_accr(this); return *this; } G& operator=(const G&) noexcept { vp_ao_accr(this); return *this; } void operator()(const NTYPE& v) noexcept { vp_ao_acc(this, v); } };
namespace std { template<typename A> class vp_vector<G, A> { public: unsigned long n; explicit vp_vector(unsigned long k) : n(k) {} unsigned long size() const noexcept { return n; } G& operator[](unsigned long i) noexcept { return vp_accs[i]; } const G& operator[](unsigned long i) const noexcept { return vp_accs[i]; } G* begin() noexcept { return vp_accs; } G* end() noexcept { return vp_accs + n; } }; }
#include "kern.h"
#undef STDCOUTL
#define STDCOUTL(...) ((void)0)
#undef STDCOUT
#define STDCOUT(...) ((void)0)
#include "nntl/utils/mtx2Normal.h"
using namespace nntl::utils;
typedef mtx2Normal::Settings<D, D> ST;
extern "C" { D vp_f_scale(D, L) noexcept __attribute__((const)); D vp_f_central(D, L) noexcept __attribute__((const)); bool vp_f_special(D, L) noexcept __attribute__((const)); void vp_ao_f_norm(D, D, bool, bool) noexcept;
 void vp_ao_f_begin(unsigned) noexcept; void vp_ao_f_end() noexcept; void vp_ao_f_normc(int, D, D, bool, bool) noexcept; }
extern "C" { D vp_c_scale(int, const G*) noexcept __attribute__((const)); D vp_c_central(int, const G*) noexcept __attribute__((const)); bool vp_c_special(int, const G*) noexcept __attribute__((const)); L vp_ao_f_prep() noexcept; const MX* vp_ao_f_walk(L) noexcept; }
struct FC { int nc; L nb; const MX* m; typedef G Accum_t; typedef D datat_t; typedef D statsdata_t;
 int total_cols() const noexcept { return nc; } void cw_begin(unsigned t) noexcept { vp_ao_f_begin(t); } void cw_end() noexcept { vp_ao_f_end(); }
 template<typename F> void iThreads_run(F&& f, L n) noexcept { f(threads::parallel_range<L>(n)); }
 numel_cnt_t prepareToWalk() noexcept { vp_ao_f_prep(); return nb; } const MX* walk(numel_cnt_t i) noexcept { vp_ao_f_walk(i); return m; }
 D cw_get_scale(int c, const G& a, bool& sp) const noexcept { sp = false; return 0; } D cw_get_central(int c, const G& a) const noexcept { return 0; }
 void normalize_cw(int c, const D s, const D ce, const bool bs, const bool bc) noexcept { vp_ao_f_normc(c, s, ce, bs, bc); } };
// one worker's part of the columns
struct FCP : FC { L o, k; template<typename F> void iThreads_run(F&& f, L n) noexcept { f(threads::parallel_range<L>(o, k * n, 0)); } };
#define CWG(nm, F_, C_, MK, COLS) bool vp_##nm##_i(const ST& st, bool a, bool b, D* p, int r, L n, L z1, L n2) { MK(m, p, r, C_); F_ f; f.nc = C_; f.nb = n; f.m = &m; PR; ST s(st); s.bCentralNormalize = a; s.bScaleNormalize = b; s.bVerbose = false; s.maxTries = 1; s.targetScale = 0; s.targetCentral = 0; s.ScaleTolerance = 1; s.CentralTolerance = 1; return mtx2Normal::normalize_cw(s, f); } \
bool vp_##nm##_s(const ST& st, bool a, bool b, D* p, int r, L n, L z1, L n2) { if (!(a || b)) return true; for (int c = 0; c < C_; ++c) vp_ao_accr(vp_accs + c); vp_ao_f_prep(); for (L k = 0; k < n; ++k) { vp_ao_f_walk(k); COLS for (L i = 0; i < r; ++i) vp_ao_acc(vp_accs + c, p[c * L(r) + i]); } \
 vp_ao_f_begin(0); vp_ao_f_end(); return true; }
extern "C" {
#define PR f.o = z1; f.k = n2
CWG(cgp, FCP, 1, MTXB, for (L c = z1; c < z1 + n2; ++c))
}
