// flags: -fno-access-control -fno-exceptions
#include "lay.h"
// layers below: the input layer holding matrix p [n x c+1] (either layout), or a fully connected one
struct Lo { R0 x; LIn l; MX P; Lo(D* p, int n, int c, bool br)ND : l(c), P(p, br ? c + 1 : n, br ? n : c + 1, true, false, br) { l.m_layerIdx = 0; l.m_pCommonData = &x.cd; l.m_pActivations = &P; l.m_bActivationsValid = true; } };
struct Lf { RL<LF> x; Lf(D* p, int n, int c, bool br)ND : x(p, p, n, c, c, true) { if (br) x.l.m_activations.useExternalStorage(p, c + 1, n, true, false, true); } };
#define PR (br ? c + 1 : n)
#define PC (br ? n : c + 1)
#define PF (1 + 2*br)
#define FWD(n0, T, DEF, CK, BIAS, GW, NOB) \
void vp_fp##n0##_i(D* w, D* p, D* a, int n, int r, int c, bool tr, bool ign, bool br) { RL<T> x(w, a, n, r, c, tr, BIAS); x.l.m_bIgnoreActivation = ign; Lo q(p, n, c, br); x.l.m_bActivationsValid = false; x.l.fprop(q.l); vp_in(40, x.l.m_bActivationsValid, 0); } \
void vp_fp##n0##_s(D* w, D* p, D* a, int n, int r, int c, bool tr, bool ign, bool br) { const int k = r + BIAS; vp_in(1, 7, tr); if (GW && tr) vp_ao_gwpre(w, r, c + 1); vp_in2(3, w, r, c + 1, 0); vp_in2(4, p, PR, PC, PF); vp_ao_fmul(a, n, k, BIAS, p, PR, PC, PF, w, r, c + 1, 0); \
 vp_in2(5, a, n, k, BIAS); if (!ign) vp_ao_f(a, n, k, BIAS); vp_in2(6, a, n, k, BIAS); vp_in2(2, a, n, k, BIAS); vp_in(40, 1, 0); }
#define BPI(n0, T, LOW, PREV) \
int vp_bp##n0##_i(D* w, D* p, D* a, D* d, D* q, int n, int r, int c, bool upd, bool ign, bool br) { RL<T> x(w, a, n, r, c, true); x.l.m_bIgnoreActivation = ign; x.l.m_bDoNotUpdateWeights = !upd; LOW lo(p, n, c, br); MD A, Q; A.useExternalStorage(d, n, r); Q.useExternalStorage(q, br ? c : n, br ? n : c, false, false, br); \
 const int k = x.l.bprop(A, LL_, Q); vp_in2(41, MD_(A)); vp_in2(42, MD_(Q)); vp_in2(43, MD_(x.l.m_weights)); vp_in(44, x.l.m_bActivationsValid, 0); return k; } \
int vp_bp##n0##_s(D* w, D* p, D* a, D* d, D* q, int n, int r, int c, bool upd, bool ign, bool br) { vp_in(7, 7, 0); vp_in2(8, d, n, r, 0); vp_in2(10, d, n, r, 0); vp_in2(11, a, n, r + 1, 1);
#define BPJ(PREV) \
 vp_in2(13, a, n, r, 0); if (PREV) vp_ao_bmul(q, br ? c : n, br ? n : c, 2*br, a, n, r, 0, w, r, c + 1, 0); if (upd) { vp_ao_wmul(d, r, c + 1, 0, D(1)/n, a, n, r, 0, p, PR, PC, PF); vp_in2(14, a, n, r, 0); vp_in2(15, p, PR, PC, PF); vp_in2(16, d, r, c + 1, 0); vp_ao_gwapply(w, r, c + 1, d, r, c + 1); } \
 vp_in(9, 0, 0); vp_in2(41, d, n, r, 0); vp_in2(42, q, br ? c : n, br ? n : c, 2*br); vp_in2(43, w, r, c + 1, 0); vp_in(44, 0, 0); return 1; }
#define DAZ { if (ign) vp_ao_did(a, n, r, 0); else vp_ao_df(a, n, r, 0); vp_in2(12, a, n, r, 0); for (L i = 0, e = L(n)*r; i < e; ++i) a[i] *= d[i]; }
extern "C" {
// ---------------------------------------------------------------- forward pass of hidden, inference-only and output layers, input in either layout
FWD(h, LF, , , 1, 1, 0) FWD(o, LOut, , , 0, 1, 0)
// ---------------------------------------------------------------- backward pass
#define LL_ lo.l
BPI(n, LF, Lo, 0) DAZ BPJ(0)
#undef LL_
#define LL_ lo.x.l
BPI(l, LF, Lf, 1) DAZ BPJ(1)
#undef LL_
}
extern "C" {
// ---------------------------------------------------------------- output layer
#define OUTP(n0, LOW, LLX, PREV) \
int vp_ob##n0##_i(D* w, D* p, D* a, D* y, D* g, D* q, int n, int r, int c, D lo, D hi, bool upd, bool ign, bool cl, bool br) { RL<LOut> x(w, a, n, r, c, true, false); x.l.m_bIgnoreActivation = ign; x.l.m_bDoNotUpdateWeights = !upd; LOW l(p, n, c, br); \
 if (cl) { x.l.m_bRestrictdLdZ = true; x.l.m_dLdZRestrictLowerBnd = lo; x.l.m_dLdZRestrictUpperBnd = hi; } x.l.m_dLdW.useExternalStorage(g, r, c + 1); MX Y(y, n, r + 2); MD Q; Q.useExternalStorage(q, br ? c : n, br ? n : c, false, false, br); \
 const int k = x.l.bprop(Y, l.LLX, Q); vp_in2(41, MD_(x.l.m_activations)); vp_in2(42, MD_(Q)); vp_in2(43, MD_(x.l.m_weights)); vp_in(44, x.l.m_bActivationsValid, 0); return k; } \
int vp_ob##n0##_s(D* w, D* p, D* a, D* y, D* g, D* q, int n, int r, int c, D lo, D hi, bool upd, bool ign, bool cl, bool br) { vp_in(7, 7, 0); vp_in2(8, y, n, r + 2, 0); vp_in2(17, a, n, r, 0); vp_in2(18, y, n, r + 2, 0); vp_ao_dl(a, n, r, 0, y, n, r + 2, ign); vp_in2(13, a, n, r, 0); \
 if (cl) { vp_ao_clamp(a, n, r, lo, hi); vp_in2(19, a, n, r, 0); } if (PREV) vp_ao_bmul(q, br ? c : n, br ? n : c, 2*br, a, n, r, 0, w, r, c + 1, 0); \
 if (upd) { vp_ao_wmul(g, r, c + 1, 0, D(1)/n, a, n, r, 0, p, PR, PC, PF); vp_in2(14, a, n, r, 0); vp_in2(15, p, PR, PC, PF); vp_in2(16, g, r, c + 1, 0); vp_ao_gwapply(w, r, c + 1, g, r, c + 1); } \
 vp_in(9, 0, 0); vp_in2(41, a, n, r, 0); vp_in2(42, q, br ? c : n, br ? n : c, 2*br); vp_in2(43, w, r, c + 1, 0); vp_in(44, 0, 0); return 1; }
OUTP(n, Lo, l, 0) OUTP(l, Lf, x.l, 1)
void vp_restr_i(D* o, D lo, D hi, bool drop) { LOut l(3, D(.5)); l.restrict_dL_dZ(lo, hi); if (drop) l.drop_dL_dZ_restriction(); o[0] = l.m_dLdZRestrictLowerBnd; o[1] = l.m_dLdZRestrictUpperBnd; o[2] = l.m_bRestrictdLdZ; }
void vp_restr_s(D* o, D lo, D hi, bool drop) { o[0] = lo; o[1] = hi; o[2] = drop ? false : !(hi == 0 || lo == 0); }
// ---------------------------------------------------------------- input and identity layers
void vp_in_i(D* p, int n, int c, bool tr, bool br) { Lo q(nullptr, n, c, br); q.l.m_pActivations = nullptr; q.l.m_bActivationsValid = false; q.x.cd.set_training_mode(tr); MX P(p, PR, PC, true, false, br); q.l.fprop(P); vp_in2(40, MD_(q.l.get_activations())); vp_in(44, q.l.m_bActivationsValid, 0); }
void vp_in_s(D* p, int n, int c, bool tr, bool br) { vp_in(1, 0, tr); vp_in2(6, p, PR, PC, PF); vp_in2(2, p, PR, PC, PF); vp_in2(40, p, PR, PC, PF); vp_in(44, 1, 0); }
void vp_id_i(D* p, D* a, int n, int c, bool tr) { RI0 x(a, n, c, tr); Lo q(p, n, c, false); x.l.fprop(q.l); vp_in(40, x.l.m_bActivationsValid, 0); }
void vp_id_s(D* p, D* a, int n, int c, bool tr) { vp_in(1, 7, tr); for (L i = 0, e = L(n)*c; i < e; ++i) a[i] = p[i]; vp_in2(6, a, n, c + 1, 1); vp_in2(2, a, n, c + 1, 1); vp_in(40, 1, 0); }
}
template<class T> static inline void gt(D* p, D* a, int n, int c, bool tr) { R0 x; T l; RI0::s(l, x.cd, a, n, c, tr); Lo q(p, n, c, false); l.fprop(q.l); vp_in(40, l.m_bActivationsValid, 0); }
#define GT_(X) vp_in(1, 7, tr); for (L i = 0, e = L(n)*c; i < e; ++i) a[i] = p[i]; vp_in2(6, a, n, c + 1, 1); vp_in2(2, a, n, c + 1, 1); X vp_in(40, 1, 0);
extern "C" {
// gates: the same, then made binary, biases untouched
void vp_idg_i(D* p, D* a, int n, int c, bool tr) { gt<LGate>(p, a, n, c, tr); } void vp_idg_s(D* p, D* a, int n, int c, bool tr) { GT_(vp_ao_bin(a, n, c + 1, 1, D(.25), 0, 1);) }
void vp_idgf_i(D* p, D* a, int n, int c, bool tr) { gt<LIGFI<LIF>>(p, a, n, c, tr); } void vp_idgf_s(D* p, D* a, int n, int c, bool tr) { GT_() }
int vp_idb_i(D* p, D* a, D* d, D* q, int n, int c) { RI0 x(a, n, c, true); x.l.m_bActivationsValid = true; Lo lo(p, n, c, false); MD A, Q; A.useExternalStorage(d, n, c); Q.useExternalStorage(q, n, c); const int k = x.l.bprop(A, lo.l, Q); vp_in2(41, MD_(A)); vp_in2(42, MD_(Q)); vp_in(44, x.l.m_bActivationsValid, 0); return k; }
int vp_idb_s(D* p, D* a, D* d, D* q, int n, int c) { vp_in(7, 7, 0); vp_in2(8, d, n, c, 0); vp_in2(10, d, n, c, 0); vp_in(9, 0, 0); vp_in2(41, d, n, c, 0); vp_in2(42, q, n, c, 0); vp_in(44, 0, 0); return 0; }
// ---------------------------------------------------------------- weights given by the user, drawn, dropped
void vp_sw_i(D* w, D* v, int r, int c, int wr, int wc, bool eb, bool br, bool keep, long* o) { R0 x; LF l(r, D(.5)); l.m_layerIdx = 7; l.m_incoming_neurons_cnt = c; l.m_pCommonData = &x.cd; l.m_weights.useExternalStorage(w, r, c + 1); l.m_bWeightsInitialized = keep; MX V(v, wr, wc, eb, false, br);
 o[0] = l.set_weights(std::move(V)); o[1] = l.m_bWeightsInitialized; o[2] = long(l.m_weights.m_pData); o[3] = l.m_weights.m_rows; o[4] = l.m_weights.m_cols; o[5] = long(V.m_pData); }
void vp_sw_s(D* w, D* v, int r, int c, int wr, int wc, bool eb, bool br, bool keep, long* o) { const bool ok = !br && !eb && wr == r && wc == c + 1; o[0] = ok; o[1] = ok || keep; o[2] = long(ok ? v : w); o[3] = r; o[4] = c + 1; o[5] = ok ? 0 : long(v); }
bool vp_rw_i(D* w, int r, int c) { R0 x; LF l(r, D(.5)); l.m_layerIdx = 7; l.m_incoming_neurons_cnt = c; l.m_pCommonData = &x.cd; l.m_weights.useExternalStorage(w, r, c + 1); l.m_bWeightsInitialized = true; return l.reinit_weights(); }
bool vp_rw_s(D* w, int r, int c) { return vp_mkw(w, r, c + 1); }
D vp_lla_i(D* w, int r, int c) { R0 x; LF l(r, D(.5)); l.m_weights.useExternalStorage(w, r, c + 1); return l.lossAddendum(); } D vp_lla_s(D* w, int r, int c) { return vp_gwla(w, r, c + 1); }
D vp_ola_i(D* w, int r, int c) { R0 x; LOut l(r, D(.5)); l.m_weights.useExternalStorage(w, r, c + 1); return l.lossAddendum(); } D vp_ola_s(D* w, int r, int c) { return vp_gwla(w, r, c + 1); }
}
extern "C" {
// ---------------------------------------------------------------- initialisation: what a layer asks for, and what it reports
#define MX_(a, b) ((a) < (b) ? (b) : (a))
void vp_ini_i(Li* o, D* w, D* a, int nmx, int ztb, int r, int c, bool upd) { const int mb = ztb + nmx; RN x(mb, ztb); LFn l(r, D(.5)); l.m_layerIdx = 7; l.m_incoming_neurons_cnt = c; l.m_weights.useExternalStorage(w, r, c + 1); l.m_bWeightsInitialized = true; l.m_bDoNotUpdateWeights = !upd; const int e = int(l.layer_init(x.lid, a)); x.out(o); vp_in(50, e, 0);
 vp_in2(51, MD_(l.m_activations)); vp_in2(52, MD_(l.m_weights)); vp_in(53, l.is_activations_shared(), l.has_common_data() + 2*l.m_gradientWorks.ini); l.m_pCommonData = nullptr; }
void vp_ini_s(Li* o, D* w, D* a, int nmx, int ztb, int r, int c, bool upd) { const int mb = ztb + nmx, b = mb; vp_preinit(3L*b*r); const L np = upd ? L(r)*(c + 1) : 0; const bool ok = vp_gwinit(w, r, c + 1); const bool h = ok && vp_gwhas(0);
 o->max_f = 0; o->max_t = 0; o->da = ztb > 0 ? MX_(L(ztb)*r, np) : 0; o->np = np; o->om = mb; o->ot = ztb; o->d = 0; o->w = h; o->a = 0; vp_in(50, ok ? 0 : int(_nnet_errs::CantInitializeGradWorks), 0); vp_in2(51, ok ? a : nullptr, ok ? b : 0, ok ? r + 1 : 0, 1); vp_in2(52, w, r, c + 1, 0); vp_in(53, 1, 3*ok); }
// first initialisation: weights are allocated and drawn; a failure leaves no half-made layer behind
void vp_inw_i(Li* o, D* a, int nmx, int ztb, int r, int c) { const int mb = ztb + nmx; RN x(mb, ztb); LPn l(r); l.m_layerIdx = 7; l.m_incoming_neurons_cnt = c; const int e = int(l.layer_init(x.lid, a)); x.out(o); vp_in(50, e, 0);
 vp_in(53, l.is_activations_shared(), l.has_common_data()); vp_in(54, l.m_activations.m_rows, l.m_activations.m_cols); vp_in(55, long(l.m_weights.m_pData), l.m_bWeightsInitialized); const bool g = l.m_weights.m_pData != nullptr; vp_in(56, g ? l.m_weights.m_rows : 0, g ? l.m_weights.m_cols : 0); }
void vp_inw_s(Li* o, D* a, int nmx, int ztb, int r, int c) { const int mb = ztb + nmx; vp_preinit(3L*mb*r); const L np = L(r)*(c + 1); D* w = (D*)vp_amalloc(np*sizeof(D), 32); int e = 0;
 if (!w) e = _nnet_errs::CantAllocateMemoryForWeights; else if (!vp_mkw(w, r, c + 1)) { e = _nnet_errs::CantInitializeWeights; vp_afree(w); w = nullptr; }
 const bool g = w != nullptr; o->max_f = 0; o->max_t = 0; o->da = 0; o->np = 0; o->om = mb; o->ot = ztb; o->d = 0; o->w = 0; o->a = 0; vp_in(50, e, 0);
 vp_in(53, 1, !e); vp_in(54, e ? 0 : mb, e ? 0 : r + 1); vp_in(55, long(w), g); vp_in(56, g ? r : 0, g ? c + 1 : 0); if (w) vp_afree(w); }
void vp_ino_i(Li* o, D* w, D* g, int nmx, int ztb, int r, int c, bool upd) { const int mb = ztb + nmx; RN x(mb, ztb); LOn l(r, D(.5)); l.m_layerIdx = 7; l.m_incoming_neurons_cnt = c; l.m_weights.useExternalStorage(w, r, c + 1); l.m_bWeightsInitialized = true; l.m_bDoNotUpdateWeights = !upd;
 const int e = int(l.layer_init(x.lid)); x.out(o); vp_in(50, e, 0); vp_in(53, l.is_activations_shared(), l.has_common_data() + 2*l.m_gradientWorks.ini); vp_in(55, long(l.m_activations.m_pData), 0); if (!e) { vp_in2(51, MD_(l.m_activations)); l.initMem(g, L(r)*(c + 1)); vp_in(57, long(l.m_dLdW.m_pData), 0); if (l.m_dLdW.m_pData) vp_in2(58, MD_(l.m_dLdW)); } vp_in2(52, MD_(l.m_weights)); }
void vp_ino_s(Li* o, D* w, D* g, int nmx, int ztb, int r, int c, bool upd) { const int mb = ztb + nmx; D* a = (D*)vp_amalloc(L(mb)*r*sizeof(D), 32); int e = 0; const L np = upd ? L(r)*(c + 1) : 0; bool h = false;
 if (!a) e = _nnet_errs::CantAllocateMemoryForActivations; else { vp_preinit(3L*mb*r); if (!vp_gwinit(w, r, c + 1)) { e = _nnet_errs::CantInitializeGradWorks; vp_afree(a); } else h = vp_gwhas(0); }
 o->max_f = 0; o->max_t = a && ztb > 0 ? np : 0; o->da = 0; o->np = a ? np : 0; o->om = mb; o->ot = ztb; o->d = 0; o->w = h; o->a = 0; vp_in(50, e, 0); vp_in(53, 0, 3*!e); vp_in(55, e ? 0 : long(a), 0);
 if (!e) { vp_in2(51, a, mb, r, 0); const bool t = ztb > 0 && upd; vp_in(57, t ? long(g) : 0, 0); if (t) vp_in2(58, g, r, c + 1, 0); } vp_in2(52, w, r, c + 1, 0); if (!e) vp_afree(a); }
// ---------------------------------------------------------------- another batch size: the activations keep their storage, biases are restored
void vp_bs_i(Bs* o, D* a, D* b, int n, int r, int nb, bool sh) { R0 x; LF l(r, D(.5)); l.m_layerIdx = 7; l.m_incoming_neurons_cnt = 3; l.m_pCommonData = &x.cd; l.m_activations.useExternalStorage(a, n, r + 1, true); l.m_bActivationsValid = true; bsz(o, l, l.on_batch_size_change(nb, sh ? b : nullptr)); }
void vp_bs_s(Bs* o, D* a, D* b, int n, int r, int nb, bool sh) { if (!sh && nb != n) for (int i = 0; i < nb; ++i) a[L(r)*nb + i] = 1; o->p = sh ? b : a; o->r = nb; o->c = r + 1; o->f = 1; o->ret = nb; o->v = false; o->sh = sh; }
void vp_bsi_i(int* o, D* p, int n, int c) { Lo q(p, n, c, false); o[0] = q.l.on_batch_size_change(n + 3); o[1] = q.l.m_bActivationsValid; q.l.layer_deinit(); o[2] = q.l.m_pActivations != nullptr; o[3] = q.l.has_common_data(); } void vp_bsi_s(int* o, D* p, int n, int c) { o[0] = n + 3; o[1] = o[2] = o[3] = 0; }
void vp_bsd_i(Bs* o, D* a, D* b, int n, int nb, int c, bool sh) { RI0 x(a, n, c, true); x.l.m_bActivationsValid = true; bsz(o, x.l, x.l.on_batch_size_change(nb, sh ? b : nullptr)); }
void vp_bsd_s(Bs* o, D* a, D* b, int n, int nb, int c, bool sh) { if (!sh && nb != n) for (int i = 0; i < nb; ++i) a[L(c)*nb + i] = 1; o->p = sh ? b : a; o->r = nb; o->c = c + 1; o->f = 1; o->ret = nb; o->v = false; o->sh = sh; }
void vp_bso_i(Bs* o, D* a, int n, int r, int nb) { R0 x; LOut l(r, D(.5)); l.m_layerIdx = 7; l.m_incoming_neurons_cnt = 3; l.m_pCommonData = &x.cd; l.m_activations.useExternalStorage(a, n, r); l.m_bActivationsValid = true; bsz(o, l, l.on_batch_size_change(nb)); }
void vp_bso_s(Bs* o, D* a, int n, int r, int nb) { o->p = a; o->r = nb; o->c = r; o->f = 0; o->ret = nb; o->v = false; o->sh = false; }
}
