// flags: -fno-access-control -fno-exceptions
#include "lay.h"
#include "nntl/dropout.h"
#include "nntl/layer/extender.h"
extern "C" {
void vp_inD(int w, D v); void vp_inI(int w, long a, long b, long c); bool vp_en(int k) PURE; bool vp_ini(int k) PURE; D vp_lad(int k, const D* a, int r, int c) PURE; int vp_bec(long a) PURE; bool vp_bla() PURE; D vp_blv() PURE; unsigned vp_bbp() PURE; int vp_bbs(int b) PURE;
void vp_ao_norm(D* a, int r, int c, int f); void vp_ao_mdo(D* a, int r, int c, int f, D kp, D* m, int mr, int mc, int mf); void vp_ao_ado(D* a, int r, int c, int f, D kp, D x, D y, D z, D* m, int mr, int mc, int mf); void vp_ao_dla(D* d, int r, int c, int f, const D* a, int ar, int ac, int af, int k); void vp_ao_bfp(D* a); void vp_ao_bbp(D* d, D* kp);
}
// a random generator, maths and inspector that only report
struct XR { void gen_matrix_norm(MD& m)ND { vp_ao_norm(MD_(m)); } void preinit_additive_norm(const numel_cnt_t n)ND { vp_inI(30, n, 0, 0); } };
struct XM { void make_dropout(MX& a, const D kp, MX& m)ND { vp_ao_mdo(MD_(a), kp, MD_(m)); } void make_alphaDropout(MX& a, const D kp, const D x, const D y, const D z, MX& m)ND { vp_ao_ado(MD_(a), kp, x, y, z, MD_(m)); }
	void evMul_ip(MX& A, const MX& B)ND { D* a = A.data(); const D* b = B.data(); for (L i = 0, n = A.numel(); i < n; ++i) a[i] *= b[i]; } };
struct XI { void fprop_preDropout(const MX& a, const D kp, const MX& m)ND { vp_in2(31, MD_(a)); vp_inD(32, kp); vp_in2(33, MD_(m)); } void fprop_postDropout(const MX& a, const MX& m)ND { vp_in2(34, MD_(a)); vp_in2(35, MD_(m)); }
	void bprop_preCancelDropout(const MX& d, const MX& a, const D kp)ND { vp_in2(36, MD_(d)); vp_in2(37, MD_(a)); vp_inD(38, kp); } void bprop_postCancelDropout(const MX& d, const MX& a)ND { vp_in2(39, MD_(d)); vp_in2(40, MD_(a)); }
	void bprop_begin(const layer_index_t l, const MX& d)ND { vp_inI(41, l, 0, 0); vp_in2(42, MD_(d)); } void bprop_finaldLdA(const MX& d)ND { vp_in2(43, MD_(d)); } void bprop_end(const MX& d)ND { vp_in2(44, MD_(d)); } };
struct XC { typedef ::real_t real_t; bool tr, trp; mutable XR r; mutable XM m; mutable XI i; XC(bool t, bool kp)ND : tr(t), trp(kp) {} bool is_training_mode()const ND { return tr; } bool is_training_possible()const ND { return trp; } XR& iRng()const ND { return r; } XM& iMath()const ND { return m; } XI& iInspect()const ND { return i; } };
typedef nntl::Dropout<D> XD; typedef nntl::AlphaDropout<D> XA; typedef nntl::_impl::_layer_init_data<XC> XL;
template<class T> union Ue { T g; Ue()ND : g() {} ~Ue() {} };
#define DO(T) XC cd(tr, true); Ue<T> u; T& x = u.g; x.m_dropoutPercentActive = kp; x.m_dropoutMask.useExternalStorage(m, n, c); x.m_origActivations.useExternalStorage(o, n, c);
#define CPY for (L i = 0, e = L(n)*c; i < e; ++i) o[i] = a[i];
extern "C" {
// ------------------------------------------------ dropping: the activations are saved, the mask drawn, inference unchanged
void vp_dap_i(D* a, D* m, D* o, int n, int c, D kp, bool tr, bool bi) { DO(XD) MD A; A.useExternalStorage(a, n, c + bi, bi); x._dropout_apply(A, cd); }
void vp_dap_s(D* a, D* m, D* o, int n, int c, D kp, bool tr, bool bi) { if (tr) { CPY vp_ao_norm(m, n, c, 0); vp_in2(31, a, n, c + bi, bi); vp_inD(32, kp); vp_in2(33, m, n, c, 0); vp_ao_mdo(a, n, c + bi, bi, kp, m, n, c, 0); vp_in2(34, a, n, c + bi, bi); vp_in2(35, m, n, c, 0); } }
void vp_aap_i(D* a, D* m, D* o, int n, int c, D kp, D xa, D xb, D xv, bool tr, bool bi) { DO(XA) x.m_a = xa; x.m_b = xb; x.m_mbDropVal = xv; MD A; A.useExternalStorage(a, n, c + bi, bi); x._dropout_apply(A, cd); }
void vp_aap_s(D* a, D* m, D* o, int n, int c, D kp, D xa, D xb, D xv, bool tr, bool bi) { if (tr) { CPY vp_ao_norm(m, n, c, 0); vp_in2(31, a, n, c + bi, bi); vp_inD(32, kp); vp_in2(33, m, n, c, 0); vp_ao_ado(a, n, c + bi, bi, kp, xa, xb, xv, m, n, c, 0); vp_in2(34, a, n, c + bi, bi); vp_in2(35, m, n, c, 0); } }
// ------------------------------------------------ undoing it: dL/dA by the mask, the saved activations back
void vp_drs_i(D* a, D* d, D* m, D* o, int n, int c, D kp, bool bi) { const bool tr = true; DO(XD) MD A, Q; A.useExternalStorage(a, n, c + bi, bi); Q.useExternalStorage(d, n, c); x._dropout_restoreScaling(Q, A, cd); }
void vp_drs_s(D* a, D* d, D* m, D* o, int n, int c, D kp, bool bi) { vp_in2(36, d, n, c, 0); vp_in2(37, a, n, c + bi, bi); vp_inD(38, kp); for (L i = 0, e = L(n)*c; i < e; ++i) d[i] *= m[i]; for (L i = 0, e = L(n)*c; i < e; ++i) a[i] = o[i]; vp_in2(39, d, n, c, 0); vp_in2(40, a, n, c + bi, bi); }
// ------------------------------------------------ settings, sizes
D vp_dps_i(D kp) { Ue<XD> u; u.g.dropoutPercentActive(kp); return u.g.dropoutPercentActive(); } D vp_dps_s(D kp) { return kp <= 0 || kp > 1 ? D(1) : kp; }
bool vp_dbd_i(D kp) { Ue<XD> u; u.g.m_dropoutPercentActive = kp; return u.g.bDropout(); } bool vp_dbd_s(D kp) { return kp < 1; }
bool vp_dho_i(D kp, bool tr) { XC cd(tr, true); Ue<XD> u; u.g.m_dropoutPercentActive = kp; return u.g._dropout_has_original_activations(cd); } bool vp_dho_s(D kp, bool tr) { return tr ? kp < 1 : false; }
D vp_dct_i() { Ue<XD> u; return u.g.dropoutPercentActive(); } D vp_dct_s() { return 1; }
void vp_dbs_i(D* m, D* o, int n, int c, D kp, int b, bool tr) { DO(XD) x._dropout_on_batch_size_change(cd, b); vp_in2(50, x.m_dropoutMask.data(), x.m_dropoutMask.rows(), x.m_dropoutMask.cols(), 0); vp_in2(50, x.m_origActivations.data(), x.m_origActivations.rows(), x.m_origActivations.cols(), 0); }
void vp_dbs_s(D* m, D* o, int n, int c, D kp, int b, bool tr) { const int k = tr && kp < 1 ? b : n; vp_in2(50, m, k, c, 0); vp_in2(50, o, k, c, 0); }
bool vp_din_i(int n, int b, int bm, bool trp) { XC cd(false, trp); XL l(cd, bm, b); Ue<XD> u; const bool q = u.g._dropout_init(n, cd, l); vp_inI(51, u.g.m_dropoutMask.rows(), u.g.m_dropoutMask.cols(), 0); vp_inI(51, u.g.m_origActivations.rows(), u.g.m_origActivations.cols(), 0); return q; }
bool vp_din_s(int n, int b, int bm, bool trp) { Ue<MD> m, o; bool q = true; if (trp) { q = m.g.resize(b, n); if (q) q = o.g.resize(b, n); if (q) vp_inI(30, L(b)*n, 0, 0); } vp_inI(51, m.g.m_rows, m.g.m_cols, 0); vp_inI(51, o.g.m_rows, o.g.m_cols, 0); return q; }
void vp_dde_i(D* m, D* o, int n, int c, D kp, int b, bool tr) { DO(XD) x._dropout_deinit(); vp_inI(51, x.m_dropoutMask.empty(), x.m_origActivations.empty(), 0); vp_inD(52, x.m_dropoutPercentActive); }
void vp_dde_s(D* m, D* o, int n, int c, D kp, int b, bool tr) { vp_inI(51, 1, 1, 0); vp_inD(52, kp); }
}
// ------------------------------------------------ self-normalising coefficients
template<class T> static inline void snn(D p, D al, D la, D fm, D fv, D& a, D& b, D& v)ND { const D n = -al*la, k = n - fm; a = std::sqrt(fv/(p*((1 - p)*(k*k) + fv))); b = fm - a*(p*fm + (1 - p)*n); v = a*n + b; }
#define AL D(1.6732632423543772848170429916717)
#define LA D(1.0507009873554804934193349852946)
typedef nntl::_impl::SNN_td<D, 2000000000, 1500000000, 250000, 2000000> SN2; typedef nntl::_impl::SNN_td<D> SN1;
extern "C" {
void vp_sc1_i(D p, D* r) { SN1::calc_coeffs<D>(p, r[0], r[1], r[2]); } void vp_sc1_s(D p, D* r) { D a, b, v; snn<void>(p, AL, LA, 0, 1, a, b, v); r[0] = a; r[1] = b; r[2] = v; }
void vp_sc2_i(D p, D* r) { SN2::calc_coeffs<D>(p, r[0], r[1], r[2]); } void vp_sc2_s(D p, D* r) { D a, b, v; snn<void>(p, 2, 1.5, .25, 2, a, b, v); r[0] = a; r[1] = b; r[2] = v; }
void vp_sa2_i(D p, D* r) { SN2::calc_a_b<D>(p, r[0], r[1]); } void vp_sa2_s(D p, D* r) { D a, b, v; snn<void>(p, 2, 1.5, .25, 2, a, b, v); r[0] = a; r[1] = b; }
}
// ------------------------------------------------ loss addendums over the activations
template<int K, bool F> struct PA : public nntl::loss_addendum::_i_loss_addendum<D> {
	static constexpr bool calcOnFprop = F; static constexpr bool dependsOnManyElements = false; static constexpr const char* getName()ND { return "pa"; }
	bool init(const mtx_size_t s, const XC&)ND { vp_inI(60 + K, s.first, s.second, 0); return vp_ini(K); } void deinit()ND { vp_inI(64 + K, 0, 0, 0); } bool bEnabled()const ND { return vp_en(K); }
	D lossAdd(const MX& a, const XC&)const ND { vp_in2(68 + K, MD_(a)); return vp_lad(K, a.data(), a.rows(), a.cols()); } template<bool c = F> std::enable_if_t<c> on_fprop(const MX& a, const XC&)ND { vp_in2(72 + K, MD_(a)); }
	void dLossAdd(const MX& a, MX& d, const XC&)ND { vp_ao_dla(MD_(d), MD_(a), K); } };
typedef std::tuple<PA<0, true>, PA<1, false>, PA<2, true>> PT; typedef std::tuple<PA<1, false>> PT1;
typedef nntl::_PA_base<PT> PB; typedef nntl::_PA_base<PT1> PB1;
#define PAB(T) XC cd(tr, true); Ue<T> u; T& x = u.g;
#define ACT MD A; A.useExternalStorage(a, n, c + bi, bi);
#define SAM vp_in2(55, MD_(A));
extern "C" {
bool vp_pin_i(int r, int c, bool tr) { PAB(PB) return x._pab_init(math::smatrix_td::mtx_size_t(r, c), cd); } bool vp_pin_s(int r, int c, bool tr) { bool q = true; for (int k = 0; k < 3; ++k) { vp_inI(60 + k, r, c, 0); q &= vp_ini(k); } return q; }
void vp_pde_i() { Ue<PB> u; u.g._pab_deinit(); } void vp_pde_s() { for (int k = 0; k < 3; ++k) vp_inI(64 + k, 0, 0, 0); }
bool vp_pha_i() { Ue<PB> u; return u.g._pab_hasLossAddendum(); } bool vp_pha_s() { return vp_en(0) || vp_en(1) || vp_en(2); }
D vp_pla_i(D* a, int n, int c, bool tr, bool bi) { PAB(PB) ACT const D v = x._pab_lossAddendum(A, cd); SAM return v; } D vp_pla_s(D* a, int n, int c, bool tr, bool bi) { ACT D v = 0; for (int k = 0; k < 3; ++k) if (vp_en(k)) { vp_in2(68 + k, a, n, c, 0); v += vp_lad(k, a, n, c); } SAM return v; }
void vp_pfp_i(D* a, int n, int c, bool tr, bool bi) { PAB(PB) ACT x._pab_fprop(A, cd); SAM } void vp_pfp_s(D* a, int n, int c, bool tr, bool bi) { ACT for (int k = 0; k < 3; k += 2) if (vp_en(k)) vp_in2(72 + k, a, n, c, 0); SAM }
void vp_pf1_i(D* a, int n, int c, bool tr, bool bi) { PAB(PB1) ACT x._pab_fprop(A, cd); SAM } void vp_pf1_s(D* a, int n, int c, bool tr, bool bi) { ACT SAM }
void vp_pud_i(D* a, D* d, int n, int c, bool tr, bool bi) { PAB(PB) ACT MX Q; Q.useExternalStorage(d, n, c); x._pab_update_dLdA(Q, A, cd); SAM } void vp_pud_s(D* a, D* d, int n, int c, bool tr, bool bi) { ACT for (int k = 0; k < 3; ++k) if (vp_en(k)) vp_ao_dla(d, n, c, 0, a, n, c, 0, k); SAM }
}
// ------------------------------------------------ the wrapped layer: what it was before, plus the extension, in this order
template<class F> struct SB0 : public nntl::_i_layer_trainable<D> { enum class ErrorCode { Success = 0, CantInitializePAB = 5, DropoutInitFailed = 6 }; typedef D real_t; typedef MX realmtx_t; typedef MD realmtxdef_t; typedef XL _layer_init_data_t; typedef XI iInspect_t; struct interfaces_t {}; typedef F self_t; typedef F& self_ref_t;
	XC cdx; union { MD A; }; int nc; bool shr; SB0(bool t, bool kp, D* a, int n, int c)ND : cdx(t, kp), A(), nc(c), shr(false) { A.useExternalStorage(a, n, c + 1, true); } ~SB0()ND {}
	F& get_self()ND { return static_cast<F&>(*this); } const XC& get_common_data()const ND { return cdx; } XI& get_iInspect()const ND { return cdx.i; } neurons_count_t get_neurons_cnt()const ND { return nc; } layer_index_t get_layer_idx()const ND { return 3; } bool is_activations_shared()const ND { return shr; } const char* get_layer_name_str()const ND { return "x"; }
	const MD& get_activations()const ND { return A; } MD& _get_activations_mutable()ND { return A; } smatrix_td::mtx_size_t get_activations_size()const ND { return A.size(); }
	bool hasLossAddendum()const ND { return vp_bla(); } D lossAddendum()const ND { return vp_blv(); }
	ErrorCode layer_init(XL& lid, D* kp = nullptr)ND { vp_inI(80, long(kp), 0, 0); return ErrorCode(vp_bec(long(kp))); } void layer_deinit()ND { vp_inI(81, 0, 0, 0); } int on_batch_size_change(int b, D* kp = nullptr)ND { vp_inI(82, b, long(kp), 0); return vp_bbs(b); }
	template<class LL> void fprop(const LL& l)ND { vp_inI(83, long(l.g), 0, 0); vp_ao_bfp(A.data()); } template<class LL> unsigned bprop(MD& d, const LL& l, MD& dp)ND { vp_inI(84, long(l.g), 0, 0); vp_in2(85, MD_(d)); vp_in2(86, MD_(dp)); vp_ao_bbp(d.data(), dp.data()); return vp_bbp(); } };
template<class F> struct SB : public SB0<F> { using SB0<F>::SB0; };
template<class F> struct SG : public SB0<F> { using SB0<F>::SB0; typedef int gating_layer_t; static constexpr int gate_neurons_count = 2; };
struct XLL : public nntl::_i_layer_trainable<D> { int* g; };
// base only + penalties; base only + dropout; both; both over a gated pack
typedef nntl::LPA<SB, PA<0, true>, PA<1, false>> E1; typedef nntl::LDO<SB, XD> E2; typedef nntl::LPA_DO<SB, XD, PA<0, true>, PA<1, false>> E3; typedef nntl::LPA_DO<SG, XD, PA<0, true>, PA<1, false>> E4;
template<class T> union Ex { T g; Ex(bool t, bool q, D* a, int n, int c)ND : g(t, q, a, n, c) {} ~Ex()ND {} };
#define EX(T) Ex<T> u(tr, trp, a, n, c); T& x = u.g;
template<class T> static inline void sdo(T& x, D* m, D* o, int n, int c, D kp)ND { x.m_dropoutPercentActive = kp; x.m_dropoutMask.useExternalStorage(m, n, c); x.m_origActivations.useExternalStorage(o, n, c); }
#define SXM vp_in2(55, MD_(x.A));
extern "C" {
#define HAS(k, T, X) bool vp_xh##k##_i(D* a, int n, int c, bool tr, bool trp) { EX(T) return x.hasLossAddendum(); } bool vp_xh##k##_s(D* a, int n, int c, bool tr, bool trp) { return X; }
HAS(1, E1, vp_en(0) || vp_en(1) || vp_bla()) HAS(2, E2, vp_bla()) HAS(3, E3, vp_en(0) || vp_en(1) || vp_bla())
#define LAV D v = 0; for (int k = 0; k < 2; ++k) if (vp_en(k)) { vp_in2(68 + k, a, n, c, 0); v += vp_lad(k, a, n, c); } v += vp_blv();
#define LOS(k, T, X) D vp_xl##k##_i(D* a, int n, int c, bool tr, bool trp) { EX(T) const D v = x.lossAddendum(); SXM return v; } D vp_xl##k##_s(D* a, int n, int c, bool tr, bool trp) { EX(T) X SXM return v; }
LOS(1, E1, LAV) LOS(2, E2, const D v = vp_blv();) LOS(3, E3, LAV)
}
// ------------------------------------------------ starting: whatever fails undoes the rest once, and the flags the network relies on are raised
#define LI(T) EX(T) XL l(x.cdx, bm, b); l.bOutputDifferentDuringTraining = false; l.bLossAddendumDependsOnActivations = false;
#define LR vp_inI(56, l.bOutputDifferentDuringTraining, l.bLossAddendumDependsOnActivations, 0);
#define DEI(T) vp_inI(56, 0, 0, 0);
template<class T, bool P, bool Q> static inline int iini(D* a, int n, int c, int b, int bm, D* st, bool tr, bool trp)ND { LI(T) const int e = int(x.layer_init(l, st)); LR return e; }
template<class T, bool P, bool Q> static inline int sini(D* a, int n, int c, int b, int bm, D* st, bool tr, bool trp)ND { bool fo = false, fa = false; Ue<MD> m, o; vp_inI(80, long(st), 0, 0); int e = vp_bec(long(st));
	if (!e) { bool q = true; if (P) for (int k = 0; k < 2; ++k) { vp_inI(60 + k, n, c, 0); q &= vp_ini(k); }
		if (!q) e = 5; else { fa = P;
			if (Q) { q = true; if (trp) { q = m.g.resize(b, c); if (q) q = o.g.resize(b, c); if (q) { vp_inI(30, L(b)*c, 0, 0); fo = true; } } if (!q) e = 6; } }
		if (e) { if (Q) { m.g.clear(); o.g.clear(); } if (P) for (int k = 0; k < 2; ++k) vp_inI(64 + k, 0, 0, 0); vp_inI(81, 0, 0, 0); } }
	vp_inI(56, fo, fa, 0); return e; }
extern "C" {
#define INI(k, T, P, Q) int vp_xi##k##_i(D* a, int n, int c, int b, int bm, D* st, bool tr, bool trp) { return iini<T, P, Q>(a, n, c, b, bm, st, tr, trp); } int vp_xi##k##_s(D* a, int n, int c, int b, int bm, D* st, bool tr, bool trp) { return sini<T, P, Q>(a, n, c, b, bm, st, tr, trp); }
INI(1, E1, true, false) INI(2, E2, false, true) INI(3, E3, true, true)
void vp_xd1_i(D* a, int n, int c, bool tr, bool trp) { EX(E1) x.layer_deinit(); } void vp_xd1_s(D* a, int n, int c, bool tr, bool trp) { for (int k = 0; k < 2; ++k) vp_inI(64 + k, 0, 0, 0); vp_inI(81, 0, 0, 0); }
void vp_xd3_i(D* a, D* m, D* o, int n, int c, D kp, bool tr, bool trp) { EX(E3) sdo(x, m, o, n, c, kp); x.layer_deinit(); vp_inI(57, x.m_dropoutMask.empty(), x.m_origActivations.empty(), 0); } void vp_xd3_s(D* a, D* m, D* o, int n, int c, D kp, bool tr, bool trp) { for (int k = 0; k < 2; ++k) vp_inI(64 + k, 0, 0, 0); vp_inI(81, 0, 0, 0); vp_inI(57, 1, 1, 0); }
// the batch size reported upwards is the base layer's, and sizes the mask
int vp_xb1_i(D* a, int n, int c, int b, D* st, bool tr, bool trp) { EX(E1) return x.on_batch_size_change(b, st); } int vp_xb1_s(D* a, int n, int c, int b, D* st, bool tr, bool trp) { vp_inI(82, b, long(st), 0); return vp_bbs(b); }
int vp_xb3_i(D* a, D* m, D* o, int n, int c, D kp, int b, D* st, bool tr, bool trp) { EX(E3) sdo(x, m, o, n, c, kp); const int q = x.on_batch_size_change(b, st); vp_in2(50, x.m_dropoutMask.data(), x.m_dropoutMask.rows(), x.m_dropoutMask.cols(), 0); vp_in2(50, x.m_origActivations.data(), x.m_origActivations.rows(), x.m_origActivations.cols(), 0); return q; }
int vp_xb3_s(D* a, D* m, D* o, int n, int c, D kp, int b, D* st, bool tr, bool trp) { vp_inI(82, b, long(st), 0); const int q = vp_bbs(b), k = tr && kp < 1 ? q : n; vp_in2(50, m, k, c, 0); vp_in2(50, o, k, c, 0); return q; }
}
// ------------------------------------------------ forward: layer, then penalties on what it computed, then the dropout; backward: the reverse
static inline void sdap(D* a, D* m, D* o, int n, int c, D kp, bool tr)ND { if (tr) { CPY vp_ao_norm(m, n, c, 0); vp_in2(31, a, n, c + 1, 1); vp_inD(32, kp); vp_in2(33, m, n, c, 0); vp_ao_mdo(a, n, c + 1, 1, kp, m, n, c, 0); vp_in2(34, a, n, c + 1, 1); vp_in2(35, m, n, c, 0); } }
template<class T, bool P, bool Q, int G> static inline void sfp(D* a, D* m, D* o, int n, int c, D kp, int* g, bool tr)ND { vp_inI(83, long(g), 0, 0); vp_ao_bfp(a); if (P && tr && vp_en(0)) vp_in2(72, a + L(n)*G, n, c - G, 0); if (Q && kp < 1) sdap(a, m, o, n, c, kp, tr); vp_in2(55, a, n, c + 1, 1); }
template<class T, bool P, bool Q, int G> static inline unsigned sbp(D* a, D* m, D* o, D* d, D* dp, int n, int c, int pc, D kp, int* g, bool tr)ND { vp_inI(41, 3, 0, 0); vp_in2(42, d, n, c, 0);
	if (Q && kp < 1) { vp_in2(36, d, n, c, 0); vp_in2(37, a, n, c + 1, 1); vp_inD(38, kp); for (L i = 0, e = L(n)*c; i < e; ++i) d[i] *= m[i]; for (L i = 0, e = L(n)*c; i < e; ++i) a[i] = o[i]; vp_in2(39, d, n, c, 0); vp_in2(40, a, n, c + 1, 1); }
	if (P) for (int k = 0; k < 2; ++k) if (vp_en(k)) vp_ao_dla(d + L(n)*G, n, c - G, 0, a + L(n)*G, n, c - G, 0, k);
	vp_in2(43, d, n, c, 0); vp_inI(84, long(g), 0, 0); vp_in2(85, d, n, c, 0); vp_in2(86, dp, n, pc, 0); vp_ao_bbp(d, dp); const unsigned r = vp_bbp(); if (r) vp_in2(44, dp, n, pc, 0); else vp_in2(44, d, n, c, 0); vp_in2(55, a, n, c + 1, 1); return r; }
template<class T> static inline auto mdo(T& x, D* m, D* o, int n, int c, D kp)ND -> decltype(x.m_dropoutPercentActive, void()) { sdo(x, m, o, n, c, kp); }
static inline void mdo(E1& x, D*, D*, int, int, D)ND {}
extern "C" {
#define FB(k, T, P, Q, G) void vp_xf##k##_i(D* a, D* m, D* o, int n, int c, D kp, int* g, bool tr) { const bool trp = true; EX(T) mdo(x, m, o, n, c, kp); XLL l; l.g = g; x.fprop(l); SXM } void vp_xf##k##_s(D* a, D* m, D* o, int n, int c, D kp, int* g, bool tr) { sfp<T, P, Q, G>(a, m, o, n, c, kp, g, tr); } \
unsigned vp_xp##k##_i(D* a, D* m, D* o, D* d, D* dp, int n, int c, int pc, D kp, int* g) { const bool tr = true, trp = true; EX(T) mdo(x, m, o, n, c, kp); XLL l; l.g = g; MD d_, p_; d_.useExternalStorage(d, n, c); p_.useExternalStorage(dp, n, pc); const unsigned r = x.bprop(d_, l, p_); SXM return r; } \
unsigned vp_xp##k##_s(D* a, D* m, D* o, D* d, D* dp, int n, int c, int pc, D kp, int* g) { return sbp<T, P, Q, G>(a, m, o, d, dp, n, c, pc, kp, g, true); }
FB(1, E1, true, false, 0)
FB(2, E2, false, true, 0)
FB(3, E3, true, true, 0)
FB(4, E4, true, true, 2)
}
