// flags: -fno-access-control -fno-exceptions
#include "pack.h"
extern "C" {
// ---------------------------------------------------------------- layers in a vertical pack act as one layer
void vp_vpre_i(int* o, int n0, int n1, int n2, int n3) { Vs s(n1, n2, n3); layer_index_t x = 0; nntl::_impl::init_layer_index q(x); x = 4; s.l._preinit_layer(q, n0); o[0] = s.l.m_layerIdx; o[1] = s.a.m_layerIdx; o[2] = s.b.m_layerIdx; o[3] = s.c.m_layerIdx; o[4] = s.a.m_incoming_neurons_cnt; o[5] = s.b.m_incoming_neurons_cnt; o[6] = s.c.m_incoming_neurons_cnt; o[7] = s.l.get_incoming_neurons_cnt(); o[8] = s.l.get_neurons_cnt(); o[9] = x; }
void vp_vpre_s(int* o, int n0, int n1, int n2, int n3) { const int zi = 4; typedef layer_index_t I; o[0] = I(zi); o[1] = I(zi + 1); o[2] = I(zi + 2); o[3] = I(zi + 3); o[4] = n0; o[5] = n1; o[6] = n2; o[7] = n0; o[8] = n3; o[9] = I(zi + 4); }
#define INIT(i, ix, p) vp_in(60, i, ix); vp_in(61, b, t); vp_in(62, 0, 0); vp_in(59, i, long(p)); b = int(vp_q(i, 7)); t = int(vp_q(i, 8)); e = vp_ec(i);
void vp_vini_i(Li2* o, D* p, int nmx, int ztb) { RN x(ztb + nmx, ztb); Vs s(5, 6, 7); s.c.m_pCommonData = &x.cd; layer_index_t k = 0; nntl::_impl::init_layer_index q(k); k = 4; s.l._preinit_layer(q, 3); x.lid.maxMemFPropRequire = 11; x.lid.maxMemTrainingRequire = 12; x.lid.max_dLdA_numel = 13; const auto r = s.l.layer_init(x.lid, p); if (r == E0::Success) lid2(o, x.lid, int(r)); else o->ec = int(r); }
// (how two requirement records combine is vp_lda in p_lays)
void vp_vini_s(Li2* o, D* p, int nmx, int ztb) { int b = ztb + nmx, t = ztb, e = 0; RN x(b, t); x.lid.maxMemFPropRequire = 11; x.lid.maxMemTrainingRequire = 12; x.lid.max_dLdA_numel = 13; INIT(1, 5, 0) if (!e) { agg(x.lid, x.cd, 1, b, t); INIT(2, 6, 0) if (!e) { agg(x.lid, x.cd, 2, b, t); INIT(3, 7, p) if (!e) { agg(x.lid, x.cd, 3, b, t); x.lid.outgBS.maxBS = b; x.lid.outgBS.maxTrainBS = t; } } }
 if (e) { vp_in(63, 1, 0); vp_in(63, 2, 0); vp_in(63, 3, 0); o->ec = e; } else { vp_in(20, 4, 3); lid2(o, x.lid, 0); } }
void vp_vde_i() { Vs s(5, 6, 7); s.l.layer_deinit(); } void vp_vde_s() { vp_in(63, 1, 0); vp_in(63, 2, 0); vp_in(63, 3, 0); }
void vp_vme_i(D* p, long cnt) { Vs s(5, 6, 7); s.l.initMem(p, cnt); } void vp_vme_s(D* p, long cnt) { vp_in(64, 1, long(p)); vp_in(65, 1, cnt); vp_in(64, 2, long(p)); vp_in(65, 2, cnt); vp_in(64, 3, long(p)); vp_in(65, 3, cnt); }
int vp_vob_i(D* p, int n) { Vs s(5, 6, 7); return s.l.on_batch_size_change(n, p); } int vp_vob_s(D* p, int n) { return vp_ob(3, vp_ob(2, vp_ob(1, n, 0), 0), p); }
D vp_vla_i() { Vs s(5, 6, 7); return s.l.lossAddendum(); } D vp_vla_s() { D r = vp_la(1); r += vp_la(2); return r + vp_la(3); }
int vp_vhl_i() { Vs s(5, 6, 7); return s.l.hasLossAddendum(); } int vp_vhl_s() { return vp_hasla(1) > 0 || vp_hasla(2) > 0 || vp_hasla(3) > 0; }
#define STK(n0, n1, n2, n3) Vs s(n1, n2, n3); s.a.at(a1, n, n1); s.b.at(a2, n, n2); s.c.at(a3, n, n3); R0 x; s.c.m_pCommonData = &x.cd; x.cd.set_training_mode(true); MX P(p, n, n0 + 1, true); Below B(P);
void vp_vfp_i(D* p, D* a1, D* a2, D* a3, int n, int n0, int n1, int n2, int n3) { STK(n0, n1, n2, n3) s.l.m_layerIdx = 9; s.l.fprop(B); }
void vp_vfp_s(D* p, D* a1, D* a2, D* a3, int n, int n0, int n1, int n2, int n3) { vp_in(1, 9, 1); vp_in(66, 1, 0); see(67, p, n, n0 + 1, 1); vp_ao_fp(a1, 1); vp_in(66, 2, 0); see(67, a1, n, n1 + 1, 1); vp_ao_fp(a2, 2); vp_in(66, 3, 0); see(67, a2, n, n2 + 1, 1); vp_ao_fp(a3, 3); vp_in2(6, a3, n, n3 + 1, 1); vp_in2(2, a3, n, n3 + 1, 1); }
#define VBP(nm, B_, C_, BL, k2, k3, st) int vp_vbp##nm##_i(D* p, D* a1, D* a2, D* a3, D* d, D* q, int n, int n0, int n1, int n2, int n3) { Vt<B_, C_> s(n1, n2, n3); s.a.at(a1, n, n1); s.b.at(a2, n, n2); s.c.at(a3, n, n3); R0 x; s.c.m_pCommonData = &x.cd; x.cd.set_training_mode(true); MX P(p, n, n0 + 1, true); BL B(P); \
 MD d_, q_; d_.useExternalStorage(d, n, n3); q_.useExternalStorage(q, n, n0); s.l.m_layerIdx = 9; const int r = s.l.bprop(d_, B, q_); vp_in(90, r, 0); vp_in2(91, MD_(d_)); vp_in2(92, MD_(q_)); return r; } \
int vp_vbp##nm##_s(D* p, D* a1, D* a2, D* a3, D* d, D* q, int n, int n0, int n1, int n2, int n3) { vp_in(7, 9, 0); vp_in2(8, d, n, n3, 0); vp_in2(10, d, n, n3, 0); D *u = d, *v = q, *w; int uc = n3, r = 0; const int m0 = st ? 0 : n; const int z0 = st ? 0 : n0; \
 vp_in(68, 3, 0); see(67, a2, n, n2 + 1, 1); bpe(u, n, uc, 0, v, n, n2, 0); uc = n2; if (k3) { w = u; u = v; v = w; r ^= 1; } \
 vp_in(68, 2, 0); see(67, a1, n, n1 + 1, 1); bpe(u, n, uc, 0, v, n, n1, 0); uc = n1; if (k2) { w = u; u = v; v = w; r ^= 1; } \
 vp_in(68, 1, 0); see(67, p, n, n0 + 1, 1); bpe(u, n, uc, 0, v, m0, z0, 0); r ^= 1; vp_in(9, 0, 0); vp_in(90, r, 0); \
 if (r) { vp_in2(91, d, n, uc, 0); vp_in2(92, q, m0, z0, 0); } else { vp_in2(91, d, m0, z0, 0); vp_in2(92, q, n, uc, 0); } return r; }
VBP(11, F2, F3, Below, 1, 1, 0) VBP(01, G2, F3, Below, 0, 1, 0) VBP(10, F2, G3, Below, 1, 0, 0) VBP(00, G2, G3, Below, 0, 0, 0) VBP(s, F2, F3, BelowS, 1, 1, 1)
void vp_vwk_i(int k) { Vs s(2, 3, 4); s.l.for_each_layer([](auto& l) { vp_in(80, l.m_neurons_cnt, 0); }); s.l.for_each_layer_down([](auto& l) { vp_in(81, l.m_neurons_cnt, 0); }); s.l.for_each_packed_layer([](auto& l) { vp_in(82, l.m_neurons_cnt, 0); }); s.l.for_each_packed_layer_down([](auto& l) { vp_in(83, l.m_neurons_cnt, 0); }); }
void vp_vwk_s(int k) { vp_in(80, 2, 0); vp_in(80, 3, 0); vp_in(80, 4, 0); vp_in(81, 4, 0); vp_in(81, 3, 0); vp_in(81, 2, 0); vp_in(82, 2, 0); vp_in(82, 3, 0); vp_in(82, 4, 0); vp_in(83, 4, 0); vp_in(83, 3, 0); vp_in(83, 2, 0); }
// ---------------------------------------------------------------- layers in a horizontal pack work side by side on parts of the layer below
#define FR(A, B) for (int i_ = 0; i_ < n; ++i_) A[i_] = B;
#define HFP(nm, st) void vp_hfp##nm##_i(D* p, D* a, D* t, int n, int zo, int nc, int zd, int nc2, int nx) { const int zo2 = (st ? zo + nc + 1 : 0) + zd, n0 = zo + nc + nx; Hs s(5, 6, zo, nc, zo2, nc2); R0 x; s.l.m_pCommonData = &x.cd; x.cd.set_training_mode(true); s.l.m_layerIdx = 9; s.l.m_pTmpBiasStorage = t; s.l.m_activations.useExternalStorage(a, n, 12, true); MX P(p, n, n0 + 1, true); Below B(P); s.l.fprop(B); vp_in(90, s.l.m_bActivationsValid, 0); } \
void vp_hfp##nm##_s(D* p, D* a, D* t, int n, int zo, int nc, int zd, int nc2, int nx) { const int zo2 = (st ? zo + nc + 1 : 0) + zd, n0 = zo + nc + nx; D *c = p + long(n)*(zo + nc), *d = p + long(n)*(zo2 + nc2); vp_in(1, 9, 1); FR(t, c[i_]) FR(c, 1.) vp_in(66, 1, 0); see(67, p + long(n)*zo, n, nc + 1, 1); vp_ao_fp(nullptr, 1); FR(c, t[i_]) \
 const bool q = zo2 + nc2 < n0; if (q) { FR(t, d[i_]) FR(d, 1.) } vp_in(66, 2, 0); see(67, p + long(n)*zo2, n, nc2 + 1, 1); vp_ao_fp(nullptr, 2); if (q) FR(d, t[i_]) vp_in2(6, a, n, 12, 1); vp_in2(2, a, n, 12, 1); vp_in(90, 1, 0); }
HFP(, 0) HFP(1, 1)
#define HBP(nm, B_, C_, BL, k1, k2, st) int vp_hbp##nm##_i(D* p, D* a, D* t, D* e, D* g, D* u, D* v, int n, int n1, int n2, int zo, int nc, int zd, int nc2, int nx) { const int zo2 = zo + nc + zd, n0 = zo + nc + nx + (st ? zd + nc2 : 0); Ht<B_, C_> s(n1, n2, zo, nc, zo2, nc2); R0 x; s.l.m_pCommonData = &x.cd; x.cd.set_training_mode(true); s.l.m_layerIdx = 9; s.l.m_pTmpBiasStorage = t; s.a.at(a, n, n1); s.b.at(a, n, n2); \
 s.l.m_activations.useExternalStorage(a, n, n1 + n2 + 1, true); s.l.m_bActivationsValid = true; s.l.m_innerdLdA.useExternalStorage(u, n, 2); s.l.m_innerdLdAPrev.useExternalStorage(v, n, 2); MX P(p, n, n0 + 1, true); BL B(P); MD e_, g_; e_.useExternalStorage(e, n, n1 + n2); g_.useExternalStorage(g, n, n0); const int r = s.l.bprop(e_, B, g_); vp_in(90, s.l.m_bActivationsValid, r); return r; } \
int vp_hbp##nm##_s(D* p, D* a, D* t, D* e, D* g, D* u, D* v, int n, int n1, int n2, int zo, int nc, int zd, int nc2, int nx) { const int zo2 = zo + nc + zd, n0 = zo + nc + nx + (st ? zd + nc2 : 0); D *c = p + long(n)*(zo + nc), *d = p + long(n)*(zo2 + nc2); const int m = st ? 0 : n; vp_in(7, 9, 0); vp_in2(8, e, n, n1 + n2, 0); vp_in2(10, e, n, n1 + n2, 0); if (!st) for (long i = 0, q = long(n)*n0; i < q; ++i) g[i] = 0; \
 const bool q = zo2 + nc2 < n0; for (long i = 0, k = long(n)*n2; i < k; ++i) u[i] = e[long(n)*n1 + i]; if (q) { FR(t, d[i_]) FR(d, 1.) } vp_in(68, 2, 0); see(67, p + long(n)*zo2, n, nc2 + 1, 1); bpe(u, n, n2, 0, v, m, st ? 0 : nc2, 0); if (q) FR(d, t[i_]) if (!st) for (long i = 0, k = long(n)*nc2; i < k; ++i) g[long(n)*zo2 + i] += k2 ? v[i] : u[i]; \
 for (long i = 0, k = long(n)*n1; i < k; ++i) u[i] = e[i]; { FR(t, c[i_]) FR(c, 1.) } vp_in(68, 1, 0); see(67, p + long(n)*zo, n, nc + 1, 1); bpe(u, n, n1, 0, v, m, st ? 0 : nc, 0); FR(c, t[i_]) if (!st) for (long i = 0, k = long(n)*nc; i < k; ++i) g[long(n)*zo + i] += k1 ? v[i] : u[i]; \
 vp_in(9, 0, 0); vp_in(90, 0, 1); return 1; }
HBP(1, F1, F2, Below, 1, 1, 0) HBP(0, F1, G2, Below, 1, 0, 0) HBP(s, F1, F2, BelowS, 1, 1, 1)
typedef Ht<F4, F5> Hi;
#undef INIT
#define INIT(i, p) vp_in(60, i, NOI); vp_in(61, b, t); vp_in(62, 0, 0); vp_in(59, i, long(p)); e = vp_ec(i);
#define NOI long(nntl::invalid_layer_index)
struct Hi_ { Li2 l; D* a; int r, c, f, sh; long lm; int big; };
#define HIN(nm, ZT, TR) void vp_hini##nm##_i(Hi_* o, D* p, int n1, int n2, int nc, int nc2, int nmx ZT) { const int tb = TR; RN x(tb + nmx, tb); Hi s(n1, n2, 0, nc, nc, nc2); s.a.m_incoming_neurons_cnt = nc; s.b.m_incoming_neurons_cnt = nc2; s.l.m_layerIdx = 9; s.l.m_incoming_neurons_cnt = nc + nc2; const auto r = s.l.layer_init(x.lid, p); o->l.ec = int(r); if (r == E0::Success) { lid2(&o->l, x.lid, 0); o->a = s.l.m_activations.m_pData; o->r = s.l.m_activations.m_rows; o->c = s.l.m_activations.m_cols; o->f = FL(s.l.m_activations); o->sh = s.l.is_activations_shared(); o->lm = s.l.m_layers_max_dLdA_numel; o->big = s.l.m_biggestIncBS; } } \
void vp_hini##nm##_s(Hi_* o, D* p, int n1, int n2, int nc, int nc2, int nmx ZT) { const int t = TR, b = nmx + t; int e = 0; RN x(b, t); INIT(4, p) if (!e) { agg(x.lid, x.cd, 4, b, t); INIT(5, p + long(b)*n1) if (!e) agg(x.lid, x.cd, 5, b, t); } \
 o->l.ec = e; if (e) { vp_in(63, 4, 0); vp_in(63, 5, 0); } else { vp_in(20, 9, 3); x.lid.outgBS.maxBS = b; x.lid.outgBS.maxTrainBS = t; x.lid.maxMemFPropRequire += b; long m = 0; if (t > 0) { m = std::max(x.lid.max_dLdA_numel, long(t)*std::max(nc, nc2)); x.lid.max_dLdA_numel = long(t)*(n1 + n2); x.lid.maxMemTrainingRequire += 2*m + b; } \
 lid2(&o->l, x.lid, 0); o->a = p; o->r = b; o->c = n1 + n2 + 1; o->f = 1; o->sh = 1; o->lm = m; o->big = b; } }
#define C_ ,
HIN(t, C_ int nt, nt) HIN(f, , 0)
void vp_hpc_i(char* q, int* o, int nx, int nc, int zo, int n1) { F4 a(n1); const auto h = make_PHL(a, zo, nc); layer_index_t x = 0; nntl::_impl::init_layer_index ii(x); x = 4; nntl::_impl::_preinit_layers pr(ii, zo + nc + nx); pr.m_pPHLCheckStorage = q; pr(h); pr.m_pPHLCheckStorage = nullptr; o[0] = a.m_layerIdx; o[1] = a.m_incoming_neurons_cnt; o[2] = x; }
void vp_hpc_s(char* q, int* o, int nx, int nc, int zo, int n1) { for (int i = 0; i < nc; ++i) q[zo + i] = 1; o[0] = 4; o[1] = nc; o[2] = 5; }
void vp_hde_i(D* p, D* t) { Hs s(5, 6, 0, 3, 3, 4); s.l.m_innerdLdA.useExternalStorage(p, 2, 3); s.l.m_innerdLdAPrev.useExternalStorage(p, 3, 2); s.l.m_pTmpBiasStorage = t; s.l.m_biggestIncBS = 7; s.l.m_layers_max_dLdA_numel = 8; s.l.m_activations.useExternalStorage(p, 2, 12, true); s.l.m_bActivationsValid = true;
 s.l.layer_deinit(); vp_in2(93, MD_(s.l.m_innerdLdA)); vp_in2(94, MD_(s.l.m_innerdLdAPrev)); vp_in2(95, MD_(s.l.m_activations)); vp_in(96, long(s.l.m_pTmpBiasStorage), s.l.m_biggestIncBS); vp_in(97, s.l.m_layers_max_dLdA_numel, s.l.m_bActivationsValid); }
void vp_hde_s(D* p, D* t) { vp_in(63, 1, 0); vp_in(63, 2, 0); vp_in2(93, 0, 0, 0, 0); vp_in2(94, 0, 0, 0, 0); vp_in2(95, 0, 0, 0, 1); vp_in(96, 0, 0); vp_in(97, 0, 0); }
void vp_hme_i(D* p, int nbig, int zm, long cnt, int ntb, bool tr) { Hs s(5, 6, 0, 3, 3, 4); R0 x; s.l.m_pCommonData = &x.cd; x.cd.m_training_batch_size = tr ? ntb : 0; x.cd.m_max_fprop_batch_size = nbig; s.l.m_biggestIncBS = nbig; s.l.m_layers_max_dLdA_numel = zm; s.l.initMem(p, cnt); vp_in(90, long(s.l.m_pTmpBiasStorage), long(s.l.m_innerdLdA.m_pData)); vp_in(91, long(s.l.m_innerdLdAPrev.m_pData), 0); }
void vp_hme_s(D* p, int nbig, int zm, long cnt, int ntb, bool tr) { D* q = p + nbig; long c = cnt - nbig; if (tr) { c -= 2L*zm; q += 2L*zm; } vp_in(64, 1, long(q)); vp_in(65, 1, c); vp_in(64, 2, long(q)); vp_in(65, 2, c); vp_in(90, long(p), tr ? long(p + nbig) : 0); vp_in(91, tr ? long(p + nbig + zm) : 0, 0); }
int vp_hob_i(D* p, int n, int n1, int n2, int mx) { Hs s(n1, n2, 0, 3, 3, 4); R0 x; s.l.m_pCommonData = &x.cd; s.l.m_activations.useExternalStorage(p, mx, n1 + n2 + 1, true); s.l.m_bActivationsValid = true; const int r = s.l.on_batch_size_change(n, p); vp_in2(90, MD_(s.l.m_activations)); vp_in(91, s.l.m_bActivationsValid, s.l.is_activations_shared()); return r; }
int vp_hob_s(D* p, int n, int n1, int n2, int mx) { vp_ob(1, n, p); vp_ob(2, n, p + long(n)*n1); vp_in2(90, p, n, n1 + n2 + 1, 1); vp_in(91, 0, 1); return n; }
D vp_hla_i() { Hs s(5, 6, 0, 3, 3, 4); return s.l.lossAddendum(); } D vp_hla_s() { D r = vp_la(1); return r + vp_la(2); }
int vp_hhl_i() { Hs s(5, 6, 0, 3, 3, 4); return s.l.hasLossAddendum(); } int vp_hhl_s() { return vp_hasla(1) > 0 || vp_hasla(2) > 0; }
void vp_hwk_i(int k) { Hs s(2, 3, 0, 3, 3, 4); s.l.for_each_layer([](auto& l) { vp_in(80, l.m_neurons_cnt, 0); }); s.l.for_each_layer_down([](auto& l) { vp_in(81, l.m_neurons_cnt, 0); }); s.l.for_each_packed_layer([](auto& l) { vp_in(82, l.m_neurons_cnt, 0); }); s.l.for_each_packed_layer_down([](auto& l) { vp_in(83, l.m_neurons_cnt, 0); }); }
void vp_hwk_s(int k) { vp_in(80, 2, 0); vp_in(80, 3, 0); vp_in(81, 3, 0); vp_in(81, 2, 0); vp_in(82, 2, 0); vp_in(82, 3, 0); vp_in(83, 3, 0); vp_in(83, 2, 0); }
// ---------------------------------------------------------------- one layer applied to every tile of the layer below
#define TL(T, nc) T a(nc); PT<T> l(a, nk); R0 x; l.m_pCommonData = &x.cd; x.cd.set_training_mode(true); l.m_layerIdx = 9;
void vp_tpre_i(int* o, int nc, int nk, int nt) { F4 a(nc); PT<F4> l(a, nk); layer_index_t x = 0; nntl::_impl::init_layer_index q(x); x = 4; l._preinit_layer(q, nt*nk); o[0] = l.m_layerIdx; o[1] = a.m_layerIdx; o[2] = l.m_incoming_neurons_cnt; o[3] = a.m_incoming_neurons_cnt; o[4] = l.m_neurons_cnt; o[5] = x; }
void vp_tpre_s(int* o, int nc, int nk, int nt) { o[0] = 4; o[1] = 5; o[2] = nt*nk; o[3] = nt; o[4] = nk*nc; o[5] = 6; }
void vp_tfp_i(D* p, D* q, D* b, D* ac, int n, int nc, int nk, int nt) { TL(F1, nc) a.at(b, n*nk, nc); l.m_activations.useExternalStorage(ac, n, nk*nc + 1, true); l.m_innerLowerLayerActivations.useExternalStorage(q, n*nk, nt + 1, true); MX P(p, n, nk*nt + 1, true); Below B(P); l.fprop(B); vp_in(90, l.m_bActivationsValid, 0); }
void vp_tfp_s(D* p, D* q, D* b, D* ac, int n, int nc, int nk, int nt) { vp_in(1, 9, 1); vp_ao_roll(q, n*nk, nt + 1, 1, p, n, nk*nt + 1, 1); vp_in(66, 1, 0); see(67, q, n*nk, nt + 1, 1); vp_ao_fp(b, 1); vp_ao_unroll(ac, n, nk*nc + 1, 1, b, n*nk, nc + 1, 1); vp_in2(6, ac, n, nk*nc + 1, 1); vp_in2(2, ac, n, nk*nc + 1, 1); vp_in(90, 1, 0); }
#define TBP(nm, T, BL, k, st) int vp_tbp##nm##_i(D* p, D* q, D* b, D* d, D* g, int n, int nc, int nk, int nt) { TL(T, nc) a.at(b, n*nk, nc); l.m_activations.useExternalStorage(b, n, nk*nc + 1, true); l.m_bActivationsValid = true; l.m_innerLowerLayerActivations.useExternalStorage(q, n*nk, nt + 1, true); MX P(p, n, nk*nt + 1, true); BL B(P); MD d_, g_; d_.useExternalStorage(d, n, nk*nc); g_.useExternalStorage(g, st ? 0 : n, st ? 0 : nk*nt); \
 const int r = l.bprop(d_, B, g_); vp_in(90, l.m_bActivationsValid, r); if (r) { vp_in2(91, MD_(g_)); } else vp_in2(91, MD_(d_)); return r; } \
int vp_tbp##nm##_s(D* p, D* q, D* b, D* d, D* g, int n, int nc, int nk, int nt) { vp_in(7, 9, 0); vp_in2(8, d, n, nk*nc, 0); vp_in2(10, d, n, nk*nc, 0); vp_ao_roll(g, n*nk, nc, 0, d, n, nk*nc, 0); vp_in(68, 1, 0); see(67, q, n*nk, nt + 1, 1); bpe(g, n*nk, nc, 0, d, st ? 0 : n*nk, st ? 0 : nt, 0); \
 const int r = st ? !k : k; D *u = k ? d : g, *v = k ? g : d; if (!st) vp_ao_unroll(v, n, nk*nt, 0, u, n*nk, nt, 0); vp_in(9, 0, 0); vp_in(90, 0, r); if (!st) { vp_in2(91, v, n, nk*nt, 0); } else if (k) { vp_in2(91, d, 0, 0, 0); } else vp_in2(91, g, n*nk, nt, 0); return r; }
TBP(1, F1, Below, 1, 0) TBP(0, G1, Below, 0, 0) TBP(s, F1, BelowS, 1, 1)
void vp_tme_i(D* p, long cnt, int nk) { TL(F1, 4) l.initMem(p, cnt); } void vp_tme_s(D* p, long cnt, int nk) { vp_in(64, 1, long(p)); vp_in(65, 1, cnt); }
D vp_tla_i(int nk) { TL(F1, 4) return l.lossAddendum(); } D vp_tla_s(int nk) { return vp_la(1); } int vp_thl_i(int nk) { TL(F1, 4) return l.hasLossAddendum(); } int vp_thl_s(int nk) { return vp_hasla(1) > 0; }
void vp_tde_i(D* p, int nk) { TL(F1, 4) l.m_innerLowerLayerActivations.useExternalStorage(p, 2, 3, true); l.m_activations.useExternalStorage(p, 2, 3, true); l.m_bActivationsValid = true; l.layer_deinit(); vp_in2(91, MD_(l.m_activations)); vp_in2(92, MD_(l.m_innerLowerLayerActivations)); vp_in(93, l.m_bActivationsValid, l.has_common_data()); } void vp_tde_s(D* p, int nk) { vp_in(63, 1, 0); vp_in2(91, 0, 0, 0, 1); vp_in2(92, 0, 0, 0, 1); vp_in(93, 0, 0); }
int vp_tob_i(D* p, D* q, int n, int nc, int nk, int nt, int nx, bool ext) { TL(F4, nc) l.m_activations.useExternalStorage(p, n + nx, nk*nc + 1, true); l.m_innerLowerLayerActivations.useExternalStorage(q, n*nk + nx, nt + 1, true); const int r = l.on_batch_size_change(n, ext ? p : nullptr); if (ext) vp_in2(91, l.m_activations.data(), l.m_activations.rows(), l.m_activations.cols(), 0); vp_in2(92, MD_(l.m_innerLowerLayerActivations)); return r; }
int vp_tob_s(D* p, D* q, int n, int nc, int nk, int nt, int nx, bool ext) { vp_in(58, 4, n*nk); vp_in(57, 4, 0);  const int r = n; if (!ext) for (int i = 0; i < r; ++i) p[long(r)*(nk*nc) + i] = 1; for (int i = 0, k = n*nk; i < k; ++i) q[long(k)*nt + i] = 1; if (ext) vp_in2(91, p, r, nk*nc + 1, 0); vp_in2(92, q, n*nk, nt + 1, 1); return r; }
struct Ti_ { Li2 l; D *a; int r, c, f, sh, ir, ic, fl; };
#define TIN(nm, ZT, TR) void vp_tini##nm##_i(Ti_* o, D* p, int nc, int nk, int nt, int nmx ZT) { const int tb = TR; RN x(tb + nmx, tb); F1 a(nc); PT<F1> l(a, nk); a.m_incoming_neurons_cnt = nt; l.m_layerIdx = 9; l.m_incoming_neurons_cnt = nt*nk; const auto r = l.layer_init(x.lid, p); o->l.ec = int(r); \
 if (r == E0::Success) { lid2(&o->l, x.lid, 0); o->a = l.m_activations.m_pData; o->r = l.m_activations.m_rows; o->c = l.m_activations.m_cols; o->f = FL(l.m_activations); o->sh = l.is_activations_shared(); o->ir = l.m_innerLowerLayerActivations.m_rows; o->ic = l.m_innerLowerLayerActivations.m_cols; o->fl = FL(l.m_innerLowerLayerActivations); } } \
void vp_tini##nm##_s(Ti_* o, D* p, int nc, int nk, int nt, int nmx ZT) { const int t0 = TR, b0 = nmx + t0, t = t0*nk, b = b0*nk; RN x(b0, t0); int e = 0; MD il; il.will_emulate_biases(); INIT(1, 0) if (!e) { const int ob = int(vp_q(1, 7)), ot = int(vp_q(1, 8)); const bool pt = ob/nk < 1; const int OB = pt ? b0 : ob/nk, OT = pt ? t0 : ot/nk; x.lid.outgBS.maxBS = OB; x.lid.outgBS.maxTrainBS = OT; vp_in(20, 9, 3); if (!il.resize(b, nt)) { e = int(E0::CantAllocateMemoryForInnerLLActivations); vp_in(63, 1, 0); } \
 else { if (t0 > 0) x.lid.max_dLdA_numel = std::max(long(OT)*(nk*nc), long(t)*nt); agg(x.lid, x.cd, 1, b, t); lid2(&o->l, x.lid, 0); o->a = p; o->r = OB; o->c = nk*nc + 1; o->f = 1; o->sh = 1; o->ir = b; o->ic = nt + 1; o->fl = 1; } } o->l.ec = e; }
TIN(t, C_ int ntr, ntr) TIN(f, , 0)
}
