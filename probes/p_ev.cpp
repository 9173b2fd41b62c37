// flags: -fno-access-control -fno-exceptions
#include <vector>
#include <array>
#include <functional>
#include <iomanip>
#include <locale>
#include <codecvt>
#include <random>
#include <chrono>
extern "C" { void vp_inI(int w, long a, long b, long c); void vp_inD(int w, double v); void vp_inB(int w, const char* p, int r, int c); }
// what is printed: the values handed to the format
static inline void vp_pr(const char*) noexcept {} static inline void vp_pr(char*) noexcept {} static inline void vp_pr(double v) noexcept { vp_inD(90, v); } static inline void vp_pr(float v) noexcept { vp_inD(90, v); }
static inline void vp_pr(long v) noexcept { vp_inI(91, v, 0, 0); } static inline void vp_pr(long long v) noexcept { vp_inI(91, v, 0, 0); } static inline void vp_pr(int v) noexcept { vp_inI(91, v, 0, 0); }
template<class T> static inline int vp_prs(T v) noexcept { vp_pr(v); return 0; }
template<unsigned long n, typename... A> static inline int vp_print(char (&)[n], const char*, A... a) noexcept { int q[] = {vp_prs(a)...}; (void)q; return 0; }
template<unsigned long n, typename... A> static inline int vp_print(char (&)[n], unsigned, const char*, A... a) noexcept { int q[] = {vp_prs(a)...}; (void)q; return 0; }
#include "tdc.h"
namespace std { struct VpOut { template<class T> const VpOut& operator<<(const T&)const noexcept { return *this; } const VpOut& operator<<(ostream& (*)(ostream&))const noexcept { return *this; } }; static const VpOut vp_cout; }
#define cout vp_cout
#define sprintf_s vp_print
#include "nntl/nntl.h"
#include "nntl/nnet_evaluator.h"
#include "nntl/training_observer.h"
#include "nntl/nnet_train_opts.h"
#undef sprintf_s
#define ND noexcept
#define MD_(m) (m).data(), (m).rows(), (m).cols()
typedef nntl::math::smatrix_deform<char> BM; typedef nntl::math::smatrix<D> MY;
extern "C" {
void vp_in2(int w, const D* p, int r, int c, int f); long vp_same(const char* a, long o, const char* b, int r, int c) PURE; long vp_samei(const int* a, long o, const int* b, long n, long na) PURE; int vp_br(int ds, long b) PURE; long vp_wk(int ds) PURE; long vp_cls(int id, const D* y, const D* a, long n) PURE; long vp_tot(const D* y, long n) PURE;
bool vp_evi(long a) PURE; long vp_tm(long n) PURE; long vp_nt(int w) PURE; int vp_obs() PURE;
}
// maths, training data and common data that only say what they are asked
struct EM {
	void ewBinarizeBatch(BM& d, const vec_len_t o, const MY& y, const D t)ND { vp_inI(1, o, 0, 0); vp_inB(2, MD_(d)); vp_in2(3, MD_(y), 0); vp_inD(4, t); }
	void ewBinarize(BM& d, const MY& a, const D t)ND { vp_inB(5, MD_(d)); vp_in2(6, MD_(a), 0); vp_inD(7, t); }
	numel_cnt_t vCountSameBatch(const BM& a, const vec_len_t o, const BM& b)ND { vp_inI(8, o, a.rows(), a.cols()); return vp_same(a.data(), o, MD_(b)); }
	numel_cnt_t vCountSame(const BM& a, const BM& b)ND { vp_inI(9, a.rows(), a.cols(), 0); return vp_same(a.data(), 0, MD_(b)); }
	void mrwIdxsOfMax(const MY& y, vec_len_t* d)ND { vp_in2(10, MD_(y), 0); vp_inB(11, (const char*)d, 0, 0); }
	numel_cnt_t vCountSame(const std::vector<vec_len_t>& a, const std::vector<vec_len_t>& b, const vec_len_t o = 0)ND { return vp_samei(a.data(), o, b.data(), b.size(), a.size()); }
	template<class T> numel_cnt_t mrwIdxsOfMax_needTempMem(const vec_len_t n)ND { return vp_tm(n); } void preinit(const numel_cnt_t n)ND { vp_inI(12, n, 0, 0); } bool init()ND { vp_inI(13, 0, 0, 0); return true; }
};
struct EBS { vec_len_t b; vec_len_t biggest()const ND { return b; } };
struct EC { EM* m; vec_len_t bb; EM& iMath()const ND { return *m; } EBS get_outBatchSizes()const ND { return EBS{bb}; } };
struct ET : public nntl::_i_train_data<D, D> {
	static constexpr bool allowExternalCachingOfSets = true; static constexpr unsigned flag_exclude_dataX = 2; D* y; int ds; long bi; mutable MY my; int yw; long nds, n0, n1;
	template<class C> numel_cnt_t walk_over_set(const data_set_id_t d, const C&, const vec_len_t b, const unsigned f)ND { vp_inI(20, d, b, f); ds = d; return vp_wk(d); }
	template<class C> void next_subset(const numel_cnt_t b, const C&)ND { vp_inI(21, ds, b, 0); bi = b; my.m_pData = y + b; my.m_rows = vp_br(ds, b); my.m_cols = yw; }
	const MY& batchY()const ND { return my; }
	vec_len_t yWidth()const ND { return yw; } vec_len_t xWidth()const ND { return 5; } numel_cnt_t trainset_samples_count()const ND { return n0; } numel_cnt_t testset_samples_count()const ND { return n1; } numel_cnt_t dataset_samples_count(int d)const ND { return d ? n1 : n0; } numel_cnt_t datasets_count()const ND { return nds; } bool empty()const ND { return false; }
	DatasetNamingFunc_t get_dataset_naming_function()const ND { return nullptr; }
};
typedef nntl::eval_classification_binary_cached<D> EB; typedef nntl::eval_classification_one_hot_cached<D> EO;
template<class T> union Un { T g; Un()ND : g() {} ~Un() {} };
template<class T> static inline void setv(std::vector<T>& v, T* p, L n, L cap)ND { v._M_impl._M_start = p; v._M_impl._M_finish = p + n; v._M_impl._M_end_of_storage = p + cap; }
static inline void setm(BM& m, char* p, int r, int c, int h)ND { m.m_pData = p; m.m_rows = r; m.m_cols = c; }
extern "C" {
// ------------------------------------------------ cached labels, batch after batch
void vp_eby_i(char* d, D* y, int ds, int r, int c, D t) { Un<EB> u; EB& e = u.g; e.m_binarizeThreshold = t; EM m; EC cd{&m, 7}; Un<ET> ut; ET& td = ut.g; td.y = y; td.yw = c; Un<BM> um; setm(um.g, d, r, c, r*c); e.binarizeYOfDataset(ds, td, um.g, cd); }
void vp_eby_s(char* d, D* y, int ds, int r, int c, D t) { vp_inI(20, ds, -1, 2); const long n = vp_wk(ds); int o = 0; for (long b = 0; b < n; ++b) { vp_inI(21, ds, b, 0); vp_inI(1, o, 0, 0); vp_inB(2, d, r, c); const int k = vp_br(ds, b); vp_in2(3, y + b, k, c, 0); vp_inD(4, t); o += k; } }
void vp_eoy_i(int* d, D* y, int ds, int r, int c) { Un<EO> u; EO& e = u.g; EM m; EC cd{&m, 7}; Un<ET> ut; ET& td = ut.g; td.y = y; td.yw = c; Un<std::vector<vec_len_t>> uv; setv(uv.g, d, r, r); e.maxYOfDataset(ds, td, uv.g, cd); }
void vp_eoy_s(int* d, D* y, int ds, int r, int c) { vp_inI(20, ds, -1, 2); const long n = vp_wk(ds); int o = 0; for (long b = 0; b < n; ++b) { vp_inI(21, ds, b, 0); const int k = vp_br(ds, b); vp_in2(10, y + b, k, c, 0); vp_inB(11, (const char*)(d + o), 0, 0); o += k; } }
}
// ------------------------------------------------ predictions of one batch against the labels of that batch
#define EBP Un<EB> u; EB& e = u.g; e.m_binarizeThreshold = t; e.m_curYOfs = o; setm(e.m_ydataPP[0], y0, n0, c, n0*c); setm(e.m_ydataPP[1], y1, n1, c, n1*c); setm(e.m_predictionsPP_orYData[0], p0, np, c, np*c); setm(e.m_predictionsPP_orYData[1], p1, np, c, np*c); Un<MY> ua, uy; MY& A = ua.g; MY& Y = uy.g; A.useExternalStorage(a, r, c); Y.useExternalStorage(y, r, c); EM m;
extern "C" {
#define EBC(zd) \
long vp_ebc##zd##_i(char* y0, char* y1, char* p0, char* p1, D* a, D* y, int zo, int r, int c, int n0, int n1, int np, D t) { const int o = zo; EBP const long q = e.correctlyClassified(zd, Y, A, m); vp_inI(70, e.m_curYOfs, 0, 0); return q; } \
long vp_ebc##zd##_s(char* y0, char* y1, char* p0, char* p1, D* a, D* y, int zo, int r, int c, int n0, int n1, int np, D t) { vp_inB(5, p0, r, c); vp_in2(6, a, r, c, 0); vp_inD(7, t); long q; \
	if (zd <= 1) { vp_inI(8, zo, zd ? n1 : n0, c); q = vp_same(zd ? y1 : y0, zo, p0, r, c); } else { vp_inB(5, p1, r, c); vp_in2(6, y, r, c, 0); vp_inD(7, t); vp_inI(9, r, c, 0); q = vp_same(p1, 0, p0, r, c); } \
	vp_inI(70, zd <= 1 ? zo + r : zo, 0, 0); return q; }
EBC(0)
EBC(1)
EBC(2)
EBC(3)
long vp_ebt_i(D* y, int r, int c) { MY Y; Y.useExternalStorage(y, r, c); return EB::totalSamples(Y); } long vp_ebt_s(D* y, int r, int c) { return L(r)*c; }
long vp_eot_i(D* y, int r, int c) { MY Y; Y.useExternalStorage(y, r, c); return EO::totalSamples(Y); } long vp_eot_s(D* y, int r, int c) { return r; }
int vp_ebp_i(int zo, int zd, long n) { Un<EB> u; u.g.m_curYOfs = zo; u.g.prepare_to_dataset(zd, n); return u.g.m_curYOfs; } int vp_ebp_s(int zo, int zd, long n) { return 0; }
int vp_eop_i(int zo, int zd, long n) { Un<EO> u; u.g.m_curYOfs = zo; u.g.prepare_to_dataset(zd, n); return u.g.m_curYOfs; } int vp_eop_s(int zo, int zd, long n) { return 0; }
D vp_ebd_i() { Un<EB> u; return u.g.threshold(); } D vp_ebd_s() { return D(.5); } D vp_ebs_i(D t) { Un<EB> u; u.g.set_threshold(t); return u.g.threshold(); } D vp_ebs_s(D t) { return t; }
}
#define EOP_ Un<EO> u; EO& e = u.g; e.m_curYOfs = o; setv(e.m_ydataClassIdxs[0], y0, n0, n0); setv(e.m_ydataClassIdxs[1], y1, n1, n1); setv(e.m_predictionClassOrYDataIdxs[0], p0, r + np, r + np); setv(e.m_predictionClassOrYDataIdxs[1], p1, r + np, r + np); Un<MY> ua, uy; MY& A = ua.g; MY& Y = uy.g; A.useExternalStorage(a, r, c); Y.useExternalStorage(y, r, c); EM m;
extern "C" {
#define EOC(zd) \
long vp_eoc##zd##_i(int* y0, int* y1, int* p0, int* p1, D* a, D* y, int zo, int r, int c, int n0, int n1, int np) { const int o = zo; EOP_ const long q = e.correctlyClassified(zd, Y, A, m); vp_inI(70, e.m_curYOfs, 0, 0); return q; } \
long vp_eoc##zd##_s(int* y0, int* y1, int* p0, int* p1, D* a, D* y, int zo, int r, int c, int n0, int n1, int np) { vp_in2(10, a, r, c, 0); vp_inB(11, (const char*)p0, 0, 0); long q; \
	if (zd <= 1) { q = vp_samei(zd ? y1 : y0, zo, p0, r, zd ? n1 : n0); } else { vp_in2(10, y, r, c, 0); vp_inB(11, (const char*)p1, 0, 0); q = vp_samei(p1, 0, p0, r, r); } \
	vp_inI(70, zd <= 1 ? zo + r : zo, 0, 0); return q; }
EOC(0)
EOC(1)
EOC(2)
EOC(3)
}
// ------------------------------------------------ initialisation: storage for every label and for the biggest batch, or nothing at all
extern "C" {
#define SZ4 vp_inB(71, 0, e.m_ydataPP[0].m_rows, e.m_ydataPP[0].m_cols); vp_inB(71, 0, e.m_ydataPP[1].m_rows, e.m_ydataPP[1].m_cols); vp_inB(71, 0, e.m_predictionsPP_orYData[0].m_rows, e.m_predictionsPP_orYData[0].m_cols); vp_inB(71, 0, e.m_predictionsPP_orYData[1].m_rows, e.m_predictionsPP_orYData[1].m_cols);
bool vp_ebi_i(D* y, int c, int bb, int n0, int n1, bool more) { Un<EB> u; EB& e = u.g; EM m; EC cd{&m, bb}; Un<ET> ut; ET& td = ut.g; td.y = y; td.yw = c; td.nds = more ? 3 : 2; td.n0 = n0; td.n1 = n1; const bool q = e.init(td, cd); SZ4 return q; }
bool vp_ebi_s(D* y, int c, int bb, int n0, int n1, bool more) { Un<EB> u; EB& e = u.g; bool q = e.m_ydataPP[0].resize(n0, c); if (q) q = e.m_ydataPP[1].resize(n1, c); if (q) q = e.m_predictionsPP_orYData[0].resize(bb, c); if (q && more) q = e.m_predictionsPP_orYData[1].resize(bb, c);
	if (!q) { for (int i = 0; i < 2; ++i) { e.m_ydataPP[i].clear(); e.m_predictionsPP_orYData[i].clear(); } } else { EM m; EC cd{&m, bb}; Un<ET> ut; ET& td = ut.g; td.y = y; td.yw = c; e.binarizeYOfDataset(0, td, e.m_ydataPP[0], cd); e.binarizeYOfDataset(1, td, e.m_ydataPP[1], cd); } SZ4 return q; }
bool vp_ebl_i(D* y, int c, int bb, int n0, bool which) { Un<EB> u; EB& e = u.g; EM m; EC cd{&m, bb}; Un<ET> ut; ET& td = ut.g; td.y = y; td.yw = c; td.nds = 2; td.n0 = which ? n0 : n0 + (1L << 31); td.n1 = which ? n0 + (1L << 31) : n0; return e.init(td, cd); }
bool vp_ebl_s(D* y, int c, int bb, int n0, bool which) { return false; }
bool vp_eol_i(D* y, int c, int bb, int n0, bool which) { Un<EO> u; EO& e = u.g; EM m; EC cd{&m, bb}; Un<ET> ut; ET& td = ut.g; td.y = y; td.yw = c; td.nds = 2; td.n0 = which ? n0 : n0 + (1L << 31); td.n1 = which ? n0 + (1L << 31) : n0; return e.init(td, cd); }
bool vp_eol_s(D* y, int c, int bb, int n0, bool which) { return false; }
bool vp_eoi_i(D* y, int c, int bb, int n0, int n1, bool more) { Un<EO> u; EO& e = u.g; EM m; EC cd{&m, bb}; Un<ET> ut; ET& td = ut.g; td.y = y; td.yw = c; td.nds = more ? 3 : 2; td.n0 = n0; td.n1 = n1; const bool q = e.init(td, cd); vp_inI(71, e.m_ydataClassIdxs[0].size(), e.m_ydataClassIdxs[1].size(), e.m_predictionClassOrYDataIdxs[0].size()); vp_inI(72, e.m_predictionClassOrYDataIdxs[1].size(), 0, 0); return q; }
bool vp_eoi_s(D* y, int c, int bb, int n0, int n1, bool more) { Un<EO> u; EO& e = u.g; EM m; EC cd{&m, bb}; Un<ET> ut; ET& td = ut.g; td.y = y; td.yw = c; vp_inI(12, vp_tm(bb), 0, 0); vp_inI(13, 0, 0, 0); e.m_ydataClassIdxs[0].resize(n0); e.m_ydataClassIdxs[1].resize(n1); e.m_predictionClassOrYDataIdxs[0].resize(bb); if (more) e.m_predictionClassOrYDataIdxs[1].resize(bb);
	e.maxYOfDataset(0, td, e.m_ydataClassIdxs[0], cd); e.maxYOfDataset(1, td, e.m_ydataClassIdxs[1], cd); vp_inI(71, n0, n1, bb); vp_inI(72, more ? bb : 0, 0, 0); return true; }
void vp_ebz_i(char* y0, char* y1, char* p0, char* p1, int r, int c) { Un<EB> u; EB& e = u.g; setm(e.m_ydataPP[0], y0, r, c, r*c); setm(e.m_ydataPP[1], y1, r, c, r*c); setm(e.m_predictionsPP_orYData[0], p0, r, c, r*c); setm(e.m_predictionsPP_orYData[1], p1, r, c, r*c); e.deinit(); SZ4 }
void vp_ebz_s(char* y0, char* y1, char* p0, char* p1, int r, int c) { BM m[4]; setm(m[0], y0, r, c, r*c); setm(m[1], p0, r, c, r*c); setm(m[2], y1, r, c, r*c); setm(m[3], p1, r, c, r*c); for (auto& q : m) q.clear(); for (auto& q : m) vp_inB(71, 0, 0, 0); }
}
// ------------------------------------------------ the observer: counts of the data set being reported, the losses last reported
struct OE : public nntl::i_nnet_evaluator<D> { template<class T, class C> bool init(T&, const C&)ND { vp_inI(30, 0, 0, 0); return vp_evi(0); } void deinit()ND { vp_inI(31, 0, 0, 0); } void prepare_to_dataset(const data_set_id_t d, const numel_cnt_t n)ND { vp_inI(32, d, n, 0); }
	template<class M> numel_cnt_t correctlyClassified(const data_set_id_t d, const MY& y, const MY& a, M&)ND { return vp_cls(d, y.m_pData, a.m_pData, y.m_rows); } static numel_cnt_t totalSamples(const MY& y)ND { return vp_tot(y.m_pData, y.m_rows); } };
typedef nntl::training_observer_stdcout<D, OE> OB; typedef nntl::training_observer_simple_stdcout<D> OSS;
struct CR { long t, c; };
#define OBP Un<OB> u; OB& b = u.g; b.m_curDataSetId = zd; setv(b.m_classifRes, (OB::CLASSIFICATION_RESULTS*)(void*)cr, ns, ns);
extern "C" {
int vp_obb_i(CR* cr, int zd, int zq, long n, long ns) { OBP b.report_results_begin(zq, n); return b.m_curDataSetId; } int vp_obb_s(CR* cr, int zd, int zq, long n, long ns) { cr[zq].t = 0; cr[zq].c = 0; vp_inI(32, zq, n, 0); return zq; }
void vp_obr_i(CR* cr, int zd, long ns, long bi, D* a, D* y, int r, int c) { OBP EM m; EC cd{&m, 7}; Un<MY> ua, uy; ua.g.useExternalStorage(a, r, c); uy.g.useExternalStorage(y, r, c); b.report_results(bi, ua.g, uy.g, cd); } void vp_obr_s(CR* cr, int zd, long ns, long bi, D* a, D* y, int r, int c) { cr[zd].t += vp_tot(y, r); cr[zd].c += vp_cls(zd, y, a, r); }
void vp_obf_i(CR* cr, long ep, long ne, D tl, D vl, long ns, long el) { const int zd = 1; OBP b.m_epochs = ne; b.on_training_fragment_end(ep, tl, vl, std::chrono::nanoseconds(el)); vp_inD(72, b.m_lastTrainErr); vp_inD(73, b.m_lastTestErr); }
void vp_obf_s(CR* cr, long ep, long ne, D tl, D vl, long ns, long el) { const long w = cr[0].t - cr[0].c, v = cr[1].t - cr[1].c; vp_inI(91, ep + 1, 0, 0); vp_inI(91, ne, 0, 0); vp_inD(90, D(el)/D(1e9)); vp_inD(90, tl); vp_inD(90, D(w*100)/cr[0].t); vp_inI(91, w, 0, 0); vp_inD(90, vl); vp_inD(90, D(v*100)/cr[1].t); vp_inI(91, v, 0, 0); vp_inD(72, tl); vp_inD(73, vl); }
void vp_obs_i(long ep, long ne, D tl, D vl, long el) { Un<OSS> u; u.g.m_epochs = ne; u.g.on_training_fragment_end(ep, tl, vl, std::chrono::nanoseconds(el)); } void vp_obs_s(long ep, long ne, D tl, D vl, long el) { vp_inI(91, ep + 1, 0, 0); vp_inI(91, ne, 0, 0); vp_inD(90, D(el)/D(1e9)); vp_inD(90, tl); vp_inD(90, vl); }
void vp_oss_i(long bs, long fs, long np) { Un<OSS> u; Un<ET> ut; ut.g.yw = 3; ut.g.n0 = vp_nt(0); ut.g.n1 = vp_nt(1); u.g.on_training_start(ut.g, int(bs), int(fs), np); } void vp_oss_s(long bs, long fs, long np) { const long n0 = vp_nt(0); vp_inI(91, 5, 0, 0); vp_inI(91, 3, 0, 0); vp_inI(91, np, 0, 0); vp_inI(91, n0, 0, 0); vp_inI(91, vp_nt(1), 0, 0); vp_inI(91, int(bs), 0, 0); vp_inI(91, n0/int(bs), 0, 0); vp_inI(91, int(fs), 0, 0); }
}
// ------------------------------------------------ options of one training run
typedef nntl::nnet_train_opts<D, nntl::training_observer_silent<D>> TO; typedef nntl::nnet_train_opts<D, nntl::training_observer_simple_stdcout<D>> TV;
template<class T> struct Rw { alignas(T) char m[sizeof(T)]; T& operator*()ND { return *reinterpret_cast<T*>(m); } };
struct TF { D th; int b, f, le; bool full, dei, rot, frt, fio; };
template<class T> static inline void say(const T& o)ND { vp_inI(80, o.m_BatchSize, o.m_maxFpropSize, o.m_DivergenceCheckLastEpoch); vp_inD(81, o.m_DivergenceCheckThreshold); vp_inI(82, o.m_bCalcFullLossValue, o.m_bImmediatelyDeinit, o.m_bReportOnlyTime); vp_inI(83, o.m_bForceReinitTD, o.m_bForceInspectorOnDuringTraining, 0); }
static inline void sayr(const TF& o)ND { vp_inI(80, o.b, o.f, o.le); vp_inD(81, o.th); vp_inI(82, o.full, o.dei, o.rot); vp_inI(83, o.frt, o.fio, 0); }
#define TA int zb, int zf, short le, D th, bool a0, bool a1, bool a2
#define TP Rw<TO> w; TO& o = *w; o.m_BatchSize = zb; o.m_maxFpropSize = zf ? zb + zf : 0; o.m_DivergenceCheckLastEpoch = le; o.m_DivergenceCheckThreshold = th; o.m_bCalcFullLossValue = a0; o.m_bImmediatelyDeinit = a1; o.m_bReportOnlyTime = a2; o.m_bForceReinitTD = a0 != a1; o.m_bForceInspectorOnDuringTraining = a1 != a2;
#define TR TF q{th, zb, zf ? zb + zf : 0, le, a0, a1, a2, a0 != a1, a1 != a2};
#define SETR(id, PA, SET, REF) void vp_to##id##_i(TA PA) { TP bool same = &o == &o.SET; say(o); vp_inI(84, same, 0, 0); } void vp_to##id##_s(TA PA) { TR REF; sayr(q); vp_inI(84, 1, 0, 0); }
#define CM ,
extern "C" {
SETR(b, CM int z, batchSize(zf ? std::min(z CM zb + zf) : z), q.b = zf ? std::min(z CM zb + zf) : z)
SETR(f, CM int z, maxFpropSize(zb ? zb + z : 0), q.f = zb ? zb + z : 0)
SETR(f0, , maxFpropSize(0), q.f = 0)
SETR(t, CM D z, divergenceCheckThreshold(z), q.th = z)
SETR(l, CM short z, divergenceCheckLastEpoch(z), q.le = z)
SETR(n, , noDivergenceCheck(), q.le = -2)
SETR(c, CM bool z, calcFullLossValue(z), q.full = z)
SETR(d, CM bool z, ImmediatelyDeinit(z), q.dei = z)
SETR(r, CM bool z, bReportOnlyTime(z), q.rot = z)
SETR(i, CM bool z, bForceReinitTD(z), q.frt = z)
SETR(s, CM bool z, bForceInspectorOnDuringTraining(z), q.fio = z)
void vp_tog_i(TA) { TP vp_inI(80, o.batchSize(), o.maxFpropSize(), o.divergenceCheckLastEpoch()); vp_inD(81, o.divergenceCheckThreshold()); vp_inI(82, o.calcFullLossValue(), o.ImmediatelyDeinit(), o.bReportOnlyTime()); vp_inI(83, o.bForceReinitTD(), o.bForceInspectorOnDuringTraining(), 0); } void vp_tog_s(TA) { TR sayr(q); }
void vp_todf_i(long n, bool v) { TO o(n, v); say(o); vp_inI(85, o.maxEpoch(), 0, 0); } void vp_todf_s(long n, bool v) { nntl::vector_conditions c(n, v); sayr(TF{D(1e5), 0, 0, 5, true, false, true, true, true}); vp_inI(85, c.maxEpoch(), 0, 0); }
void vp_tov_i(long n, bool v) { TV o(n, v); say(o); vp_inI(85, o.maxEpoch(), 0, 0); } void vp_tov_s(long n, bool v) { nntl::vector_conditions c(n, v); sayr(TF{D(1e5), 0, 0, 5, true, false, false, true, true}); vp_inI(85, c.maxEpoch(), 0, 0); }
// observer: storage per data set, and gone afterwards
bool vp_obi_i(long ns, long ne) { Un<OB> u; OB& b = u.g; EM m; EC cd{&m, 7}; Un<ET> ut; ET& td = ut.g; td.nds = 2; const bool q = b.init(ne, td, cd); vp_inI(86, b.m_epochs, b.m_classifRes.size(), b.m_curDataSetId); return q; }
bool vp_obi_s(long ns, long ne) { Un<std::vector<OB::CLASSIFICATION_RESULTS>> v; v.g.resize(2); vp_inI(30, 0, 0, 0); const bool q = vp_evi(0); vp_inI(86, ne, 2, -1); return q; }
void vp_obz_i(CR* cr, int zd, long ns) { OBP b.deinit(); vp_inI(86, b.m_classifRes.size(), 0, 0); } void vp_obz_s(CR* cr, int zd, long ns) { vp_inI(31, 0, 0, 0); vp_inI(86, 0, 0, 0); }
void vp_obe_i(CR* cr, int zd, long ns, D l) { const int q = zd ? 1 : 0; OBP b.m_curDataSetId = q; b.report_results_end(l); } void vp_obe_s(CR* cr, int zd, long ns, D l) { }
}
