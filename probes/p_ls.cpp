// flags: -fno-access-control -fno-exceptions
#include <vector>
#include <array>
#include <functional>
#include <iomanip>
#include <locale>
#include <codecvt>
#include <random>
#include <chrono>
#include <forward_list>
#include <list>
#include <unordered_map>
#include "tdc.h"
namespace std { struct VpOut { template<class T> const VpOut& operator<<(const T&)const noexcept { return *this; } const VpOut& operator<<(ostream& (*)(ostream&))const noexcept { return *this; } }; static const VpOut vp_cout; }
#define cout vp_cout
#include "nntl/nntl.h"
#include "nntl/utils/mtx2Normal.h"
#include "nntl/utils/layers_settings.h"
#define ND noexcept
#define MD_(m) (m).data(), (m).rows(), (m).cols(), (m).emulatesBiases()
extern "C" {
void vp_inI(int w, long a, long b, long c); void vp_inD(int w, D v); void vp_in2(int w, const D* p, int r, int c, int f); bool vp_nrm(int k, long t) PURE; bool vp_ri() PURE; int vp_ifb(int b) PURE; long vp_wk(int ds, int b, int f) PURE; void vp_ao_try(D* w, D* a, int k, long t);
}
// settings: one object for every layer here (the keeper itself is P10's); normalisation itself (P09) reports what it is given
namespace nntl { namespace utils {
	template<class S> struct vp_ls { S s; mutable int asked; vp_ls()ND : asked(0) {} template<class T> vp_ls(T&& t)ND : s(t), asked(0) {} const S& operator[](const layer_index_t i)const ND { vp_inI(1, i, 0, 0); return s; } template<class F> void for_each(F&& f)ND { f(s); } void add(const layer_index_t i, const S& t)ND { vp_inI(2, i, t.maxReinitTries, 0); } };
	namespace mtx2Normal {
		template<class S, class F> bool vp_nwx(const S& s, F& f)ND { vp_inI(3, 0, 0, 0); vp_in2(4, MD_(f.m_weights)); vp_in2(5, MD_(f.m_Act)); vp_inD(6, f.m_actScaling); vp_inI(7, &f.m_lSetts == &s, 0, 0); return vp_nrm(0, f.m_thisHost.m_nn.tc++); }
		template<class S, class F> bool vp_ncx(const S& s, F& f)ND { vp_inI(8, 0, 0, 0); vp_in2(4, MD_(f.m_weights)); vp_in2(5, MD_(f.m_Act)); vp_inD(6, f.m_actScaling); vp_inI(7, &f.m_lSetts == &s, 0, 0); return vp_nrm(1, f.m_thisHost.m_nn.tc++); } } } }
#define layer_settings vp_ls
#define normalize_whole vp_nwx
#define normalize_cw vp_ncx
#include "nntl/weights_init/LsuvExt.h"
#undef normalize_whole
#undef normalize_cw
#undef layer_settings
struct LTD : public nntl::_i_train_data<D, D> { long cnt; D* x; int n, c; MX X; numel_cnt_t trainset_samples_count()const ND { return cnt; } void deinit4all()ND { vp_inI(10, 0, 0, 0); }
	template<class C> numel_cnt_t walk_over_set(const int ds, const C& cd, const vec_len_t b, unsigned f)ND { vp_inI(11, ds, b, f); return vp_wk(ds, b, int(f)); } template<class C> void next_subset(const numel_cnt_t i, const C& cd)ND { vp_inI(12, i, 0, 0); } const MX& batchX()const ND { return X; } };
struct LNM { void evMulC_ip(MX& m, const D v)ND { D* a = m.data(); for (L i = 0, n = m.numel(); i < n; ++i) a[i] *= v; } };
struct LNT { template<class... A> void run(A&&... a)ND { const L q[] = {L(a)...}; vp_inI(13, sizeof...(A), q[0], q[1]); } };
struct LNN { typedef ::real_t real_t; typedef MX realmtx_t; typedef MD realmtxdef_t; enum class EC { Success = 0 }; LNM m; LNT t; int cd; long tc; struct Pk* pk; Pk& get_layer_pack()ND { return *pk; } const int& get_const_common_data()const ND { return cd; } LNM& get_iMath()ND { return m; } LNT& get_iThreads()ND { return t; }
	EC init4fixedBatchFprop(LTD& td, const int b)ND { vp_inI(14, b, 0, 0); return EC(0); } void doFixedBatchFprop(const MX& X)ND { vp_in2(15, MD_(X)); } void deinit()ND { vp_inI(16, 0, 0, 0); } };
typedef nntl::weights_init::procedural::LSUVExt<LNN, LTD> LS; typedef LS::LayerSetts_t SE;

template<int I> struct Ly0 { D* w; D* a; int n, c, wc; MX W, A; LNN* nn; Ly0(D* w_, D* a_, int n_, int c_, int wc_)ND : w(w_), a(a_), n(n_), c(c_), wc(wc_) { W.useExternalStorage(w, c, wc); A.useExternalStorage(a, n, c + 1, true); }
	layer_index_t get_layer_idx()const ND { return I; } const char* get_layer_name_str()const ND { return "l"; } void setIgnoreActivation(const bool b)ND { vp_inI(20, I, b, 0); } D act_scaling_coeff()const ND { return D(I + 1.5); } MX& get_weights()ND { return W; } MX* get_activations_storage()ND { return &A; } bool reinit_weights()ND { vp_inI(21, I, 0, 0); return vp_ri(); } };
template<int I> struct Ly : public nntl::m_layer_learnable, public Ly0<I> { using Ly0<I>::Ly0; };
template<int I> struct Ln : public Ly0<I> { using Ly0<I>::Ly0; };
#define LSU LNN nn; nn.tc = 0; LTD td; td.cnt = cnt; LS x(nn, td); x.m_bDeinitNnetOnDestroy = false; SE& s = x.m_setts.s;
#define SETS s.batchSize = b; s.batchCount = bc; s.maxReinitTries = mt; s.bCentralNormalize = fc; s.bScaleNormalize = fs; s.maxTries = zt; s.bOnInvidualNeurons = fi; s.bOverPreActivations = fp; s.bVerbose = false;
#define LYR Ly<4> l(w, a, n, c, wc);
extern "C" {
// ------------------------------------------------ one layer: prepared, normalised until it works or the tries run out, put back
int vp_pl_i(D* w, D* a, int n, int c, int wc, int b, int bc, int big, unsigned mt, int ct, int zf, bool fc, bool fs, bool fi, bool fp) { const long cnt = 5; LSU const unsigned zt = ct; SETS LYR x.m_largestBatchSize = big; x.m_firstFailedLayerIdx = layer_index_t(zf); x._processLayer(l); return x.m_firstFailedLayerIdx; }
int vp_pl_s(D* w, D* a, int n, int c, int wc, int b, int bc, int big, unsigned mt, int ct, int zf, bool fc, bool fs, bool fi, bool fp) { vp_inI(1, 4, 0, 0); if (!(fc || fs) || false) return layer_index_t(zf);
	vp_inI(20, 4, fp, 0); vp_inI(14, b ? (b < big ? b : big) : big, 0, 0); bool ok = false;
	for (unsigned t = 0; t < mt; ++t) { vp_inI(fi ? 8 : 3, 0, 0, 0); vp_in2(4, w, c, wc, 0); vp_in2(5, a, n, c + 1, 1); vp_inD(6, fp ? D(1) : D(5.5)); vp_inI(7, 1, 0, 0); if (vp_nrm(fi, t)) { ok = true; break; } if (t + 1 < mt) { vp_inI(21, 4, 0, 0); } }
	vp_inI(20, 4, 0, 0); return !ok && !layer_index_t(zf) ? 4 : layer_index_t(zf); }
int vp_plz_i(D* w, D* a, int n, int c, int wc, int b, int bc, int big, unsigned mt, int zf, bool fc, bool fs, bool fi, bool fp) { const long cnt = 5; LSU const unsigned zt = 0; SETS LYR x.m_largestBatchSize = big; x.m_firstFailedLayerIdx = layer_index_t(zf); x._processLayer(l); return x.m_firstFailedLayerIdx; }
int vp_plz_s(D* w, D* a, int n, int c, int wc, int b, int bc, int big, unsigned mt, int zf, bool fc, bool fs, bool fi, bool fp) { vp_inI(1, 4, 0, 0); return layer_index_t(zf); }
}
// ------------------------------------------------ the whole network: inner layers before their pack, every learnable layer once; only the first failure is remembered
struct LPk : public nntl::m_layer_learnable, public Ly0<2> { typedef int LayerPack_t; Ly<3>* in; using Ly0<2>::Ly0; template<class F> void for_each_packed_layer(F& f)ND { f(*in); } };
struct Pk { Ly<1>* l1; LPk* l2; Ln<5>* l5; template<class F> void for_each_packed_layer_exc_input(F& f)ND { f(*l1); f(*l2); f(*l5); } };
#define NET Ly<1> l1(w1, a1, n, c1, wc1); Ly<3> l3(w3, a3, n, c1, wc1); LPk l2(w2, a2, n, c1, wc1); l2.in = &l3; Ln<5> l5(w1, a1, n, c1, wc1); Pk pk; pk.l1 = &l1; pk.l2 = &l2; pk.l5 = &l5;
static inline bool one(int I, int& k, D* w, D* a, int n, int c, int wc, int b, int big, bool fi, bool fp)ND { vp_inI(1, I, 0, 0); vp_inI(20, I, fp, 0); vp_inI(14, b ? (b < big ? b : big) : big, 0, 0); vp_inI(fi ? 8 : 3, 0, 0, 0); vp_in2(4, w, c, wc, 0); vp_in2(5, a, n, c + 1, 1); vp_inD(6, fp ? D(1) : D(I + 1.5)); vp_inI(7, 1, 0, 0); const bool q = vp_nrm(fi, k++); vp_inI(20, I, 0, 0); return q; }
extern "C" {
int vp_rn_i(D* w1, D* a1, D* w2, D* a2, D* w3, D* a3, int n, int c1, int wc1, int b, long cnt, bool fi, bool fp) { const int bc = 0, zt = 20; const int mt = 1; const bool fc = true, fs = true; LSU SETS NET nn.pk = &pk; x.m_firstFailedLayerIdx = 7; const bool q = x.run(); return q ? -1 : x.m_firstFailedLayerIdx; }
int vp_rn_s(D* w1, D* a1, D* w2, D* a2, D* w3, D* a3, int n, int c1, int wc1, int b, long cnt, bool fi, bool fp) { const int big = cnt > 2147483647 ? 2147483647 : int(cnt); if (cnt < 2) return 0; int k = 0, f = 0;
	if (!one(1, k, w1, a1, n, c1, wc1, b, big, fi, fp)) f = 1; if (!one(3, k, w3, a3, n, c1, wc1, b, big, fi, fp) && !f) f = 3; if (!one(2, k, w2, a2, n, c1, wc1, b, big, fi, fp) && !f) f = 2; vp_inI(10, 0, 0, 0); return f ? f : -1; }
void vp_dt_i(int z) { LNN nn; LTD td; { LS x(nn, td); x.m_bDeinitNnetOnDestroy = z != 0; } } void vp_dt_s(int z) { if (z) vp_inI(16, 0, 0, 0); }
// ------------------------------------------------ one pass over the data: the train set's x only, as many batches as asked
#define FN(T) LNN nn; nn.tc = 0; LTD td; td.X.useExternalStorage(xd, n, xc); LS x(nn, td); x.m_bDeinitNnetOnDestroy = false; x.m_largestBatchSize = big; SE s; s.batchSize = b; s.batchCount = bc; s.targetScale = ts; s.targetCentral = tc; MX W, A; W.useExternalStorage(w, c, wc); A.useExternalStorage(a, n, c + 1, true); T f(W, A, s, asc, x);
#define PR D* xd, D* w, D* a, int n, int xc, int c, int wc, int big, int b, int bc, D ts, D tc, D asc
typedef LS::WeightsNorm_whole WW; typedef LS::WeightsNorm_cw WC;
#define WALK(k, T) long vp_pw##k##_i(PR) { FN(T) return f.prepareToWalk(); } long vp_pw##k##_s(PR) { const int q = b ? (big < b ? big : b) : big; vp_inI(11, 0, q, 2); const long t = vp_wk(0, q, 2); return bc && bc < t ? bc : t; } \
void vp_wl##k##_i(PR, long i) { FN(T) const MX* q = f.walk(i); vp_in2(17, MD_(*q)); } void vp_wl##k##_s(PR, long i) { vp_inI(12, i, 0, 0); vp_in2(15, xd, n, xc, 0); vp_in2(17, a, n, c + 1, 1); }
WALK(1, WW) WALK(2, WC)
// ------------------------------------------------ the update: weights and biases so that the statistics become the targets
void vp_uw_i(PR, D sv, D cv, bool fs, bool fc) { FN(WW) f.vp_nwx(sv, cv, fs, fc); } void vp_uw_s(PR, D sv, D cv, bool fs, bool fc) { D k = 1; if (fs) { k = ts/sv; for (L i = 0, e = L(c)*wc; i < e; ++i) w[i] *= k; } if (fc) { const D o = (tc - cv)*asc*k; for (L i = 0; i < c; ++i) w[i + L(c)*(wc - 1)] += o; } }
#define PRZ D* xd, D* w, D* a, int n, int xc, int z, int cr, int wc, int big, int b, int bc, D ts, D tc, D asc
void vp_uc_i(PRZ, D sv, D cv, bool fs, bool fc) { const int c = z + cr; FN(WC) f.vp_ncx(z, sv, cv, fs, fc); } void vp_uc_s(PRZ, D sv, D cv, bool fs, bool fc) { const int c = z + cr; D k = 1; if (fs) { k = ts/sv; D* e = w + L(c)*wc; for (D* q = w + z; q < e; q += c) *q *= k; } if (fc) w[z + L(c)*(wc - 1)] += (tc - cv)*asc*k; }
int vp_tc_i(PR) { FN(WC) return f.total_cols(); } int vp_tc_s(PR) { return c; }
void vp_ir_i(PR, long p, long q) { FN(WC) f.iThreads_run(p, q); } void vp_ir_s(PR, long p, long q) { vp_inI(13, 2, p, q); }
// ------------------------------------------------ defaults
#define DFL(k, F, V) long vp_df##k##_i() { SE s; return s.F; } long vp_df##k##_s() { return V; }
DFL(0, batchSize, 0) DFL(1, batchCount, 0) DFL(2, maxReinitTries, 5) DFL(3, bOnInvidualNeurons, 0) DFL(4, bOverPreActivations, 0) DFL(5, maxTries, 20) DFL(6, bCentralNormalize, 1) DFL(7, bScaleNormalize, 1)
D vp_dg_i(int z) { SE s; return z == 0 ? s.targetScale : z == 1 ? s.targetCentral : z == 2 ? s.ScaleTolerance : s.CentralTolerance; } D vp_dg_s(int z) { return z == 0 ? D(1) : z == 1 ? D(0) : D(.01); }
}
