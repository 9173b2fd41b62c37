// flags: -fno-access-control -fno-exceptions
#include <vector>
#include <array>
#include <functional>
#include <iomanip>
#include <locale>
#include <codecvt>
#include <random>
#include <chrono>
extern "C" { double vp_nrd(double m, double s, unsigned v, long lo, long hi) noexcept __attribute__((const)); }
// the normal distribution: a function of mean, deviation and the number drawn
namespace std { template<class T> struct vp_nd { T m, s; vp_nd(T a, T b)noexcept : m(a), s(b) {} template<class G> T operator()(G& g)noexcept { return T(vp_nrd(m, s, g(), long(g.min()), long(g.max()))); } }; }
#define normal_distribution vp_nd
#include "tdc.h"
#include "lay.h"
#include "nntl/interface/rng/afrand.h"
extern "C" { int vp_rd(); void vp_inI(int w, long a, long b, long c); }
namespace std { inline int vp_rand()ND { return ::vp_rd(); } inline void vp_srand(unsigned s)ND { ::vp_inI(2, s, 0, 0); } }
#define rand vp_rand
#define srand vp_srand
#include "nntl/interface/rng/cstd.h"
#undef rand
#undef srand
#include "nntl/interface/rng/afrand_mt.h"
#undef normal_distribution
extern "C" {
void vp_inI(int w, long a, long b, long c); void vp_inD(int w, D v); D vp_rgd(long id, long k) PURE; unsigned vp_rni(long id, long k) PURE; int vp_rnx(int lo, int hi, long id, long k) PURE; void vp_ao_gv(D* p, L n, D a); void vp_ao_gvn(D* p, L n); void vp_ao_gvg(D* p, L n, D a); void vp_ao_brn(D* p, L n, D pr, D a, D b); void vp_ao_nrv(D* p, L n, D m, D s);
}
// a base generator: the k-th number of stream id
struct XB { long id, k; XB()ND : id(0), k(0) {} XB(int s)ND : id(s), k(0) {} template<class T> T FPRandom()ND { return T(vp_rgd(id, k++)); } double Random()ND { return vp_rgd(id, k++); } unsigned BRandom()ND { return vp_rni(id, k++); } int IRandomX(int a, int b)ND { return vp_rnx(a, b, id, k++); }
	void RandomInit(int s)ND { id = s; k = 0; } void RandomInitByArray(const int* p, int n)ND { id = p[0] + 1000L*p[1]; k = n - 2; } };
namespace AFog { template<> struct has_FRandom<XB> : std::true_type {}; }
typedef nntl::rng::AFRand<D, XB> AF;
#define AFX(T) union Uaf { AF g; Uaf()ND : g(0) {} ~Uaf() {} } u; AF& x = u.g; x.m_rng.id = id; x.m_rng.k = k;
#define END vp_inI(1, x.m_rng.id, x.m_rng.k, 0);
#define ENDS(q) vp_inI(1, id, k + (q), 0);
extern "C" {
// ------------------------------------------------ one generator: every element once, in order, from the asked range
void vp_g1_i(D* p, L n, D a, long id, long k) { AFX() x.gen_vector(p, n, a); END } void vp_g1_s(D* p, L n, D a, long id, long k) { for (L i = 0; i < n; ++i) p[i] = 2*a*(vp_rgd(id, k + i) - D(.5)); ENDS(n) }
void vp_g2_i(D* p, L n, D a, D b, long id, long k) { AFX() x.gen_vector(p, n, a, b); END } void vp_g2_s(D* p, L n, D a, D b, long id, long k) { for (L i = 0; i < n; ++i) p[i] = a + (b - a)*vp_rgd(id, k + i); ENDS(n) }
void vp_g3_i(D* p, L n, long id, long k) { AFX() x.gen_vector_norm(p, n); END } void vp_g3_s(D* p, L n, long id, long k) { for (L i = 0; i < n; ++i) p[i] = vp_rgd(id, k + i); ENDS(n) }
void vp_g4_i(D* p, L n, D a, long id, long k) { AFX() x.gen_vector_gtz(p, n, a); END } void vp_g4_s(D* p, L n, D a, long id, long k) { for (L i = 0; i < n; ++i) p[i] = a*vp_rgd(id, k + i); ENDS(n) }
void vp_gb_i(D* p, L n, D q, D a, D b, long id, long k) { AFX() x.bernoulli_vector(p, n, q, a, b); END } void vp_gb_s(D* p, L n, D q, D a, D b, long id, long k) { for (L i = 0; i < n; ++i) p[i] = vp_rgd(id, k + i) < q ? a : b; ENDS(n) }
}

#define LOU 0
#define HIU 4294967295L
extern "C" {
void vp_gnd_i(D* p, L n, long id, long k) { AFX() x.normal_vector(p, n); END } void vp_gnd_s(D* p, L n, long id, long k) { for (L i = 0; i < n; ++i) p[i] = vp_nrd(0, 1, vp_rni(id, k + i), LOU, HIU); ENDS(n) }
void vp_gbd_i(D* p, L n, D q, long id, long k) { AFX() x.bernoulli_vector(p, n, q); END } void vp_gbd_s(D* p, L n, D q, long id, long k) { for (L i = 0; i < n; ++i) p[i] = vp_rgd(id, k + i) < q ? 1 : 0; ENDS(n) }
void vp_gyd_i(D* p, L n, long id, long k) { AFX() x.binary_vector(p, n); END } void vp_gyd_s(D* p, L n, long id, long k) { for (L i = 0; i < n; ++i) p[i] = vp_rgd(id, k + i) < D(.5) ? 1 : 0; ENDS(n) }
void vp_gn_i(D* p, L n, D m, D s, long id, long k) { AFX() x.normal_vector(p, n, m, s); END } void vp_gn_s(D* p, L n, D m, D s, long id, long k) { for (L i = 0; i < n; ++i) p[i] = vp_nrd(m, s, vp_rni(id, k + i), LOU, HIU); ENDS(n) }
void vp_gi_i(L lt, long id, long k, L* o) { AFX() o[0] = x.gen_i(lt); END } void vp_gi_s(L lt, long id, long k, L* o) { o[0] = vp_rnx(0, int(lt - 1), id, k); ENDS(1) }
void vp_gu_i(long id, long k, L* o) { AFX() o[0] = x.gen_int(); END } void vp_gu_s(long id, long k, L* o) { o[0] = vp_rni(id, k); ENDS(1) }
void vp_gf_i(long id, long k, D* o) { AFX() o[0] = x.gen_f_norm<D>(); END } void vp_gf_s(long id, long k, D* o) { o[0] = vp_rgd(id, k); ENDS(1) }
void vp_gfa_i(long id, long k, D* o, D a) { AFX() o[0] = x.gen_f(a); END } void vp_gfa_s(long id, long k, D* o, D a) { o[0] = a*vp_rgd(id, k); ENDS(1) }
void vp_gs_i(long id, long k, int s) { AFX() x.seed(s); END } void vp_gs_s(long id, long k, int s) { vp_inI(1, s, 0, 0); }
void vp_gs6_i(long id, long k, unsigned long s) { AFX() x.seed64(s); END } void vp_gs6_s(long id, long k, unsigned long s) { vp_inI(1, int(unsigned(s) ^ unsigned(s >> 32)), 0, 0); }
void vp_go_i(L lt, long id, long k, L* o) { AFX() o[0] = x(lt); o[1] = x(); o[2] = x.min(); o[3] = x.max(); END } void vp_go_s(L lt, long id, long k, L* o) { o[0] = vp_rnx(0, int(lt - 1), id, k); o[1] = vp_rni(id, k + 1); o[2] = LOU; o[3] = HIU; ENDS(2) }
}
// ------------------------------------------------ matrices: which elements are asked for
struct RH : public nntl::rng::rng_helper<D, ptrdiff_t, unsigned, RH> { void seed(int)ND {} ptrdiff_t gen_i(ptrdiff_t n)ND { return n; } unsigned gen_int()ND { return 0; } template<class T> T gen_f_norm()ND { return 0; }
	void gen_vector(D* p, L n, D a)ND { vp_ao_gv(p, n, a); } void gen_vector_norm(D* p, L n)ND { vp_ao_gvn(p, n); } template<class T> void gen_vector_gtz(T* p, L n, T a)ND { vp_ao_gvg(p, n, a); } void bernoulli_vector(D* p, L n, D q, D a = 1, D b = 0)ND { vp_ao_brn(p, n, q, a, b); } void normal_vector(D* p, L n, D m = 0, D s = 1)ND { vp_ao_nrv(p, n, m, s); } };
#define MTX(B) RH x; MX A; A.useExternalStorage(p, r, c + (B), B);
extern "C" {
void vp_m1_i(D* p, int r, int c, D a) { MTX(false) x.gen_matrix(A, a); } void vp_m1_s(D* p, int r, int c, D a) { vp_ao_gv(p, L(r)*c, a); }
void vp_m2_i(D* p, int r, int c, D a, bool b) { MTX(b) x.gen_matrix_no_bias(A, a); } void vp_m2_s(D* p, int r, int c, D a, bool b) { vp_ao_gv(p, L(r)*c, a); }
void vp_m3_i(D* p, int r, int c) { MTX(false) x.gen_matrix_norm(A); } void vp_m3_s(D* p, int r, int c) { vp_ao_gvn(p, L(r)*c); }
void vp_m4_i(D* p, int r, int c, bool b) { MTX(b) x.gen_matrix_no_bias_norm(A); } void vp_m4_s(D* p, int r, int c, bool b) { vp_ao_gvn(p, L(r)*c); }
void vp_m5_i(D* p, int r, int c, D a) { MTX(false) x.gen_matrix_gtz(A, a); } void vp_m5_s(D* p, int r, int c, D a) { vp_ao_gvg(p, L(r)*c, a); }
void vp_m6_i(D* p, int r, int c, D a, bool b) { MTX(b) x.gen_matrix_no_bias_gtz(A, a); } void vp_m6_s(D* p, int r, int c, D a, bool b) { vp_ao_gvg(p, L(r)*c, a); }
void vp_m7_i(D* p, int r, int c, D a, D s, D v) { MTX(false) x.bernoulli_matrix(A, a, s, v); } void vp_m7_s(D* p, int r, int c, D a, D s, D v) { vp_ao_brn(p, L(r)*c, a, s, v); }
void vp_m8_i(D* p, int r, int c, D a) { MTX(false) x.bernoulli_matrix(A, a); } void vp_m8_s(D* p, int r, int c, D a) { vp_ao_brn(p, L(r)*c, a, 1, 0); }
void vp_m9_i(D* p, int r, int c, D a) { MTX(false) x.binary_matrix(A, a); } void vp_m9_s(D* p, int r, int c, D a) { vp_ao_brn(p, L(r)*c, a, 1, 0); }
void vp_m10_i(D* p, int r, int c) { MTX(false) x.binary_matrix(A); } void vp_m10_s(D* p, int r, int c) { vp_ao_brn(p, L(r)*c, .5, 1, 0); }
void vp_m11_i(D* p, L n, D a) { RH x; x.binary_vector(p, n, a); } void vp_m11_s(D* p, L n, D a) { vp_ao_brn(p, n, a, 1, 0); }
void vp_m12_i(D* p, int r, int c, D m, D s) { MTX(false) x.normal_matrix(A, m, s); } void vp_m12_s(D* p, int r, int c, D m, D s) { vp_ao_nrv(p, L(r)*c, m, s); }
void vp_m13_i(D* p, int r, int c) { MTX(false) x.normal_matrix(A); } void vp_m13_s(D* p, int r, int c) { vp_ao_nrv(p, L(r)*c, 0, 1); }
void vp_m16_i(D* p, int r, int c, D m, D s) { MTX(true) x.normal_matrix(A, m, s); } void vp_m16_s(D* p, int r, int c, D m, D s) { vp_ao_nrv(p, L(r)*(c + 1), m, s); }
// any matrix: biases are left alone, or put back where they lie between the elements
void vp_m14_i(D* p, int r, int c, D a, bool b) { MTX(b) x.gen_matrixAny(A, a); } void vp_m14_s(D* p, int r, int c, D a, bool b) { vp_ao_gv(p, L(r)*c, a); }
void vp_m15_i(D* p, int r, int c, D a, bool b) { RH x; MX A; A.useExternalStorage(p, r + b, c, b); A.m_bBatchInRow = true; x.gen_matrixAny(A, a); } void vp_m15_s(D* p, int r, int c, D a, bool b) { vp_ao_gv(p, L(r + b)*c, a); if (b) for (L j = 0; j < c; ++j) p[r + j*(r + 1)] = 1; }
}
// ------------------------------------------------ the C library's generator
typedef nntl::rng::CStd<D> CS;
#define RM D(2147483647)
#define RK
#define RE
extern "C" {
void vp_c1_i(D* p, L n, D a) { CS::gen_vector(p, n, a); } void vp_c1_s(D* p, L n, D a) { RK for (L i = 0; i < n; ++i) p[i] = 2*a*(D(vp_rd())/RM - D(.5)); RE }
void vp_c2_i(D* p, L n) { CS::gen_vector_norm(p, n); } void vp_c2_s(D* p, L n) { RK for (L i = 0; i < n; ++i) p[i] = D(vp_rd())/RM; RE }
void vp_c3_i(D* p, L n, D a) { CS::gen_vector_gtz(p, n, a); } void vp_c3_s(D* p, L n, D a) { RK for (L i = 0; i < n; ++i) p[i] = a*(D(vp_rd())/RM); RE }
D vp_c4_i() { return CS::gen_f_norm<D>(); } D vp_c4_s() { const D v = D(vp_rd())/RM; RE return v; }
L vp_c5_i(L cn) { return CS::gen_i(cn); } L vp_c5_s(L cn) { const L v = vp_rd() % cn; RE return v; }
int vp_c6_i() { return CS::gen_int(); } int vp_c6_s() { const int v = vp_rd(); RE return v; }
void vp_c7_i(int s) { CS::seed(s); } void vp_c7_s(int s) { vp_inI(2, unsigned(s), 0, 0); }
}
// ------------------------------------------------ many generators: worker t fills its part, and only that, from its own generator
extern "C" { D vp_dr(long g); unsigned vp_du(long g); }
struct XG { XG()ND {} XG(int s)ND {} template<class T> T FPRandom()ND { return T(vp_dr(long(this))); } unsigned BRandom()ND { return vp_du(long(this)); } int IRandomX(int a, int c)ND { return vp_rnx(a, c, long(this), 0); } void RandomInitByArray(const int* p, int n)ND { vp_inI(4, long(this), p[0], p[1]*10 + n); } };
struct RP : public nntl::threads::_i_threads<D, numel_cnt_t> { typedef nntl::threads::_i_threads<D, numel_cnt_t> B; typedef B::range_t range_t; typedef B::par_range_t par_range_t; L o, m; int t, wc; int workers_count()const ND { return wc; }
	template<class F> void run(F&& f, const range_t c, const int n = 0)ND { vp_inI(3, c, n, 0); f(par_range_t(o, m, t)); } };
namespace nntl { namespace rng { namespace _impl { template<> struct AFRAND_MT_THR<XG, D> { static constexpr size_t bnd_gen_vector = 100, bnd_gen_vector_gtz = 90, bnd_gen_vector_norm = 80, bnd_bernoulli_vector = 70, bnd_normal_vector = 60; }; } } }
typedef nntl::rng::AFRand_mt<D, XG, RP> AM;
#define AMX(Q) RP pool; pool.o = o; pool.m = m; pool.t = t; pool.wc = wc; union Uam { AM g; Uam()ND : g() {} ~Uam() {} } u; AM& x = u.g; x.m_pThreads = &pool; auto& v = x.m_Rngs._M_impl; v._M_start = g; v._M_finish = v._M_end_of_storage = g + wc;
#define AR XG* g, D* p, L n, L o, L m, int t, int wc
#define PART(B, E) if (n < B) { const long id = long(g); for (L i = 0; i < n; ++i) p[i] = E; } else { vp_inI(3, n, 0, 0); const long id = long(g + t); for (L i = o; i < o + m; ++i) p[i] = E; }
extern "C" {
void vp_t1_i(AR, D a) { AMX() x.gen_vector(p, n, a); } void vp_t1_s(AR, D a) { PART(100, 2*a*vp_dr(id) - a) }
void vp_t2_i(AR, D a, D c) { AMX() x.gen_vector(p, n, a, c); } void vp_t2_s(AR, D a, D c) { PART(100, (c - a)*vp_dr(id) + a) }
void vp_t3_i(AR) { AMX() x.gen_vector_norm(p, n); } void vp_t3_s(AR) { PART(80, vp_dr(id)) }
void vp_t4_i(AR, D a) { AMX() x.gen_vector_gtz(p, n, a); } void vp_t4_s(AR, D a) { PART(90, a*vp_dr(id)) }
void vp_t5_i(AR, D q, D a, D c) { AMX() x.bernoulli_vector(p, n, q, a, c); } void vp_t5_s(AR, D q, D a, D c) { PART(70, (vp_dr(id) < q ? a : c)) }
void vp_t6_i(AR, D a, D s) { AMX() x.normal_vector(p, n, a, s); } void vp_t6_s(AR, D a, D s) { PART(60, vp_nrd(a, s, vp_du(id), 0, HIU)) }
void vp_t6d_i(AR) { AMX() x.normal_vector(p, n); } void vp_t6d_s(AR) { PART(60, vp_nrd(0, 1, vp_du(id), 0, HIU)) }
void vp_t5d_i(AR, D q) { AMX() x.bernoulli_vector(p, n, q); } void vp_t5d_s(AR, D q) { PART(70, (vp_dr(id) < q ? 1 : 0)) }
L vp_t7_i(AR, L lt) { AMX() return x.gen_i(lt); } L vp_t7_s(AR, L lt) { return vp_rnx(0, int(lt - 1), long(g), 0); }
unsigned vp_t8_i(AR) { AMX() return x.gen_int(); } unsigned vp_t8_s(AR) { return vp_du(long(g)); }
D vp_t9_i(AR) { AMX() return x.gen_f_norm<D>(); } D vp_t9_s(AR) { return vp_dr(long(g)); }
int vp_ta_i(AR, int s) { AMX() x.seed(s); return x.m_lastSeed; } int vp_ta_s(AR, int s) { vp_inI(3, wc, 0, 0); vp_inI(4, long(g + t), s, t*10 + 2); return s; }
void vp_tb_i(AR, int s) { AMX() x.m_lastSeed = s; x.reseed(); } void vp_tb_s(AR, int s) { vp_inI(3, wc, 0, 0); vp_inI(4, long(g + t), s, t*10 + 2); }
int vp_tc_i(AR, int s) { AMX() return x.init_ithreads(pool, s); } int vp_tc_s(AR, int s) { return 0; }
}
