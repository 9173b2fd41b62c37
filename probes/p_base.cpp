#include "kern.h"
#include "nntl/utils/forwarder.h"
#include "nntl/utils/call_wrappers.h"
#include "nntl/utils/tuple_utils.h"
#include "nntl/utils/lambdas.h"
#include "nntl/utils/scope_exit.h"
#include "nntl/errors.h"
#include "nntl/_nnet_errs.h"
#include "nntl/utils/gradcheck.h"
#define INF std::numeric_limits<D>::infinity()
extern "C" { void vp_visit(int, long); void vp_visit2(int, long, int, long, bool); void vp_visit1(int); }
template<int N> struct TE { long v; };
struct V { template<int N> void operator()(TE<N>& e) { vp_visit(N, e.v); } template<int N, int M> void operator()(TE<N>& e, TE<M>& f, bool b) { vp_visit2(N, e.v, M, f.v, b); } };
typedef std::tuple<TE<0>, TE<1>, TE<2>, TE<3>> T4;
template<class T> using is_i = std::is_integral<T>;
extern "C" {
// ---------------------------------------------------------------- scalar mathematics
D vp_log1p_i(D x) { return math::log1p(x); } D vp_log1p_s(D x) { return std::log(1 + x); }
D vp_expm1_i(D x) { return math::expm1(x); } D vp_expm1_s(D x) { return std::exp(x) - 1; }
D vp_logeps_i(D x) { return math::log_eps(x); } D vp_logeps_s(D x) { return std::log(x + std::numeric_limits<D>::min()); }
D vp_log1peps_i(D x) { return math::log1p_eps(x); } D vp_log1peps_s(D x) { return std::log((1 + x) + std::numeric_limits<D>::min()); }
int vp_sign_i(D x) { return math::sign(x); } int vp_sign_s(D x) { return x > 0 ? 1 : (x < 0 ? -1 : 0); }
typedef math::real_t_limits<D> RL;
D vp_epsg_i(D x) { return RL::eps_greater(x); } D vp_epsg_s(D x) { return std::nextafter(x, INF) - x; }
D vp_epsgn_i(D x, D y) { return RL::eps_greater_n(x, y); } D vp_epsgn_s(D x, D y) { return y*(std::nextafter(x, INF) - x); }
D vp_epsl_i(D x) { return RL::eps_lower(x); } D vp_epsl_s(D x) { return x - std::nextafter(x, -INF); }
D vp_epsln_i(D x, D y) { return RL::eps_lower_n(x, y); } D vp_epsln_s(D x, D y) { return y*(x - std::nextafter(x, -INF)); }
unsigned long vp_fwi_i_1(void) { return math::similar_FWI_one<D>(); } unsigned long vp_fwi_s_1(void) { return sizeof(D) == 8 ? 0x3ff0000000000000ul : 0x3f800000ul; }
unsigned long vp_fwi_i_p(void) { return math::similar_FWI_pos_zero<D>(); } unsigned long vp_fwi_s_p(void) { return 0; }
unsigned long vp_fwi_i_n(void) { return math::similar_FWI_neg_zero<D>(); } unsigned long vp_fwi_s_n(void) { return sizeof(D) == 8 ? 0x8000000000000000ul : 0x80000000ul; }
bool vp_laz_i(void) { return RL::log_almost_zero <= std::log(std::numeric_limits<D>::min()) + D(1e-3) && RL::log_almost_zero >= std::log(std::numeric_limits<D>::min()) - D(1e-3); } bool vp_laz_s(void) { return true; }
// ---------------------------------------------------------------- functor storage
struct F1 { int* p; long k; long operator()(int x, long& y) { *p = x; const long r = y + k; y = 7; return r; } };
struct F5 { long k[5]; long operator()(int x, long& y) { y += k[4]; return k[0] + x; } };
typedef utils::forwarder<long(int, long&)> FW; typedef utils::cmcforwarder<long(int, long&)> CF;
#define FWD(n, T) \
 long vp_##n##call_i(int* p, long k, int x, long* y) { F1 g{p, k}; T f(g); return f(x, *y); } long vp_##n##call_i_mv(int* p, long k, int x, long* y) { T f(F1{p, k}); return f(x, *y); } long vp_##n##call_i_as(int* p, long k, int x, long* y) { T f; f = F1{p, k}; return f(x, *y); } \
 long vp_##n##call_i_cp(int* p, long k, int x, long* y) { T f(F1{p, k}); T g(f); return g(x, *y); } long vp_##n##call_i_cpa(int* p, long k, int x, long* y) { T f(F1{p, k}); T g; g = f; f.reset(); return g(x, *y); } \
 long vp_##n##call_i_snd(int* p, long k, int x, long* y) { T f(F1{p, 3}); f = F1{p, k}; return f(x, *y); } long vp_##n##call_s(int* p, long k, int x, long* y) { *p = x; const long r = *y + k; *y = 7; return r; } \
 bool vp_##n##null_i(int* p, long k) { T f; return bool(f); } bool vp_##n##null_i_r(int* p, long k) { T f(F1{p, k}); f.reset(); return bool(f); } bool vp_##n##null_i_n(int* p, long k) { T f(F1{p, k}); static_cast<CF&>(f).assign(nullptr); return bool(f); } bool vp_##n##null_s(int* p, long k) { return false; } \
 bool vp_##n##set_i(int* p, long k) { T f(F1{p, k}); return bool(f); } bool vp_##n##set_s(int* p, long k) { return true; } \
 long vp_##n##tgt_i(int* p, long k) { T f(F1{p, k}); return f.template target<F1>()->k; } long vp_##n##tgt_s(int* p, long k) { return k; }
FWD(fw, FW)
FWD(cf, CF)
void vp_fwswap_i(int* p, long k, long j, long* o) { FW f(F1{p, k}), g(F1{p, j}); f.swap(g); o[0] = f.target<F1>()->k; o[1] = g.target<F1>()->k; } void vp_fwswap_s(int* p, long k, long j, long* o) { o[0] = j; o[1] = k; }
// wrapping: a functor that fits is handed through, a big one goes by reference to the very object
long vp_wrap_i_f(F1* f, int x, long* y) { FW g(utils::forwarderWrapper<>::wrap(*f)); return g(x, *y); } long vp_wrap_i_c(F1* f, int x, long* y) { CF g(utils::cmcforwarderWrapper<>::wrap(*f)); return g(x, *y); } long vp_wrap_i_s(F1* f, int x, long* y) { return utils::simpleWrapper<std::function>::wrap(*f)(x, *y); } long vp_wrap_s(F1* f, int x, long* y) { int* const p = f->p; const long k = f->k; *p = x; const long r = *y + k; *y = 7; return r; }
long vp_wrapbig_i_f(F5* f, int x, long* y) { FW g(utils::forwarderWrapper<>::wrap(*f)); f->k[0] = 5; return g(x, *y); } long vp_wrapbig_i_c(F5* f, int x, long* y) { CF g(utils::cmcforwarderWrapper<>::wrap(*f)); f->k[0] = 5; return g(x, *y); } long vp_wrapbig_s(F5* f, int x, long* y) { f->k[0] = 5; *y += f->k[4]; return 5 + x; }
// ---------------------------------------------------------------- tuples: every element once, in the documented order
#define TUP(n, call, spec) void vp_##n##_i(long a, long b, long c, long d) { T4 t{TE<0>{a}, TE<1>{b}, TE<2>{c}, TE<3>{d}}; V v; tuple_utils::call(t, v); } void vp_##n##_i_rv(long a, long b, long c, long d) { T4 t{TE<0>{a}, TE<1>{b}, TE<2>{c}, TE<3>{d}}; tuple_utils::call(t, V()); } void vp_##n##_s(long a, long b, long c, long d) { spec; }
TUP(tup_up, for_each_up, vp_visit(0, a); vp_visit(1, b); vp_visit(2, c); vp_visit(3, d))
TUP(tup_down, for_each_down, vp_visit(3, d); vp_visit(2, c); vp_visit(1, b); vp_visit(0, a))
TUP(tup_xl, for_each_exc_last_up, vp_visit(0, a); vp_visit(1, b); vp_visit(2, c))
TUP(tup_xf, for_each_exc_first_up, vp_visit(1, b); vp_visit(2, c); vp_visit(3, d))
TUP(tup_xfd, for_each_exc_first_down, vp_visit(3, d); vp_visit(2, c); vp_visit(1, b))
TUP(tup_wp, for_eachwp_up, vp_visit2(1, b, 0, a, true); vp_visit2(2, c, 1, b, false); vp_visit2(3, d, 2, c, false))
long vp_subt_i(long a, long b, long c, long d) { T4 t{TE<0>{a}, TE<1>{b}, TE<2>{c}, TE<3>{d}}; auto s = tuple_utils::subtuple_trim_tail<2>(t); static_assert(std::is_same<decltype(s), std::tuple<TE<0>, TE<1>>>::value, ""); return std::get<0>(s).v + 10*std::get<1>(s).v; } long vp_subt_s(long a, long b, long c, long d) { return a + 10*b; }
bool vp_tt_i(void) { using namespace tuple_utils; typedef std::tuple<int, char, double> T; return is_tuple<T>::value && is_tuple<const T>::value && !is_tuple<int>::value && is_tuple_or_void<void>::value && !is_tuple_or_void<int>::value
 && std::is_same<remove_last_n<1, int, char, double>::type, std::tuple<int, char>>::value && get_element_idx<char, int, char, double>() == 1 && get_element_idx<double>(T()) == 2 && tuple_element_idx_safe<double, T>::value == 2 && tuple_element_idx_safe<int, T>::value == 0 && tuple_element_idx_safe<float, T>::value == 3
 && !aggregate<std::conjunction, is_i, T>::value && aggregate<std::disjunction, is_i, T>::value && aggregate<std::conjunction, is_i, std::tuple<int, char>>::value; } bool vp_tt_s(void) { return true; }
long vp_ycomb_i(long x) { return utils::make_y_combinator([](auto& self, int d, long v) -> long { if constexpr (true) return d ? self(0, v + 1) : v * 3; })(1, x); } long vp_ycomb_s(long x) { return (x + 1) * 3; }
// ---------------------------------------------------------------- last error
struct HE : public _has_last_error<_nnet_errs> { int set(int c) { return _set_last_error(ErrorCode(c)); } };
int vp_le_i(int c) { HE h; const int r = h.set(c); return r == c ? h.get_last_error() : -1; } int vp_le_s(int c) { return c; } int vp_le0_i(void) { HE h; return h.get_last_error(); } int vp_le0_s(void) { return 0; }
// ---------------------------------------------------------------- how many parameters a gradient check looks at
typedef gradcheck_groupSetts GS;
int vp_gc1_i(int n, int r) { GS g(r); return g.countToCheck(n); } int vp_gc1_s(int n, int r) { return n < r ? n : r; }
int vp_gc2_i(int n, int r, int c) { GS g(r, c); return g.countToCheck(n); } int vp_gc2_i_set(int n, int r, int c) { GS g; g.set(r, c); return g.countToCheck(n); } int vp_gc2_s(int n, int r, int c) { const L q = c > 100 ? 100 : c; const int p = int(L(n)*q/100), m = r < n ? r : n; return p < m ? m : p; }
int vp_gc0_i(int n) { GS g; return g.countToCheck(n); } int vp_gc0_s(int n) { const int p = int(L(n)*10/100), m = n < 20 ? n : 20; return p > m ? p : m; }
}
