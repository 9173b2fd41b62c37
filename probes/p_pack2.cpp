// flags: -fno-access-control -fno-exceptions
#include "pack.h"
// a pack whose first layer is a gate: every other layer sees only the samples its gate neuron lets through
extern "C" { int vp_nz(const D* p, long n) PURE; void vp_ao_fr(D* o, int r, int c, int f, const D* a, int ar, int ac, int af, const D* m); }
struct Gt : public FkB<Gt, 6>, public m_layer_gate { static constexpr bool bLayerHasTrivialBProp = true; Gt(int n)ND : FkB(n) {} };
struct Gn : public FkB<Gn, 6>, public m_layer_gate { static constexpr bool bLayerHasTrivialBProp = true, bLayerToleratesNoBiases = true; Gn(int n)ND : FkB(n) {} };      // needs no bias column
struct H4 : public FkB<H4, 4, 0> { H4(int n)ND : FkB(n) {} }; struct H5 : public FkB<H5, 5, 0> { H5(int n)ND : FkB(n) {} };
template<bool X, class... L> struct PO : public _LPHO<PO<X, L...>, X, std::tuple<PHL<L>...>> { PO(PHL<L>... l)ND : _LPHO<PO<X, L...>, X, std::tuple<PHL<L>...>>(nullptr, std::make_tuple(l...)) {} NAME1(PO) };
template<bool X, class G, class B, class C> struct Ot { G g; B a; C b; PO<X, G, B, C> l; Ot(int gn, int n1, int n2, int zg, int cg, int o1, int c1, int o2, int c2)ND : g(gn), a(n1), b(n2), l(make_PHL(g, zg, cg), make_PHL(a, o1, c1), make_PHL(b, o2, c2)) { m(); }
	void m()ND {} };
extern "C" {
#define FR(A, B) for (int i_ = 0; i_ < n; ++i_) A[i_] = B;
// forward: p = activations below [n x n0+1], g = gate activations, x1/x2 = where selected samples go, a = output
#define OS(X, G, B_, C_, n0) Ot<X, G, B_, C_> s(2, n1, n2, zg, ng, zo, nc, zo2, nc2); R0 x; s.l.m_pCommonData = &x.cd; x.cd.set_training_mode(true); s.l.m_layerIdx = 9; s.l.m_pTmpBiasStorage = t; s.l.m_activations.useExternalStorage(a, n, 2 + 2*X + n1 + n2 + 1, true); s.g.at(g, n, 2); s.a.at(y1, k1, n1); s.b.at(y2, k2, n2); s.a.m_incoming_neurons_cnt = nc; s.b.m_incoming_neurons_cnt = nc2; MX P(p, n, (n0) + 1, true);
#define FA D* p, D* a, D* t, D* g, D* y1, D* y2, D* x1, D* x2, int n, int n1, int n2, int zg, int ng, int zo, int nc, int zo2, int nc2, int nx, int k1, int k2
#define SEL(i, ID, nc, zo, nn, y, k, x, of) { const int z = vp_nz(g + long(n)*i, n); D* o = a + long(n)*(of); if (z) { vp_in(58, ID, z); vp_in(57, ID, 0); vp_ao_xr(x, z, nc + 1, 1, p + long(n)*(zo), n, nc, 0, g + long(n)*i); for (int j = 0; j < z; ++j) x[long(z)*nc + j] = 1; vp_in(66, ID, 0); see(67, x, z, nc + 1, 1); vp_ao_fp(y, ID); vp_ao_fr(o, n, nn, 0, y, k, nn + 1, 1, g + long(n)*i); } else { const long q = long(n)*nn; for (long j = 0; j < q; ++j) o[j] = 0; } }
#define OFP(nm, X, G) void vp_ofp##nm##_i(FA) { OS(X, G, F4, F5, zg + ng + nx) s.l.m_aPrevActs[0].useExternalStorage(x1, n, nc + 1, true); s.l.m_aPrevActs[1].useExternalStorage(x2, n, nc2 + 1, true); Below B(P); s.l.fprop(B); vp_in(90, s.l.m_bActivationsValid, 0); } \
void vp_ofp##nm##_s(FA) { const int n0 = zg + ng + nx; D* c = p + long(n)*(zg + ng); const bool w = !std::is_same<G, Gn>::value; vp_in(1, 9, 1); if (w) { FR(t, c[i_]) FR(c, 1.) } vp_in(66, 6, 0); see(67, p + long(n)*zg, n, ng + w, w); vp_ao_fp(g, 6); if (w) FR(c, t[i_]) if (X) vp_ao_oc(a + 2L*n, n, 2, 0, g, n, 3, 1); \
 SEL(0, 4, nc, zo, n1, y1, k1, x1, 2 + 2*X) SEL(1, 5, nc2, zo2, n2, y2, k2, x2, 2 + 2*X + n1) vp_in2(6, a, n, 2 + 2*X + n1 + n2 + 1, 1); vp_in2(2, a, n, 2 + 2*X + n1 + n2 + 1, 1); vp_in(90, 1, 0); }
OFP(1, true, Gt) OFP(0, false, Gn)
// backward: e = dL/dA, q = dL/dA of the layer below, x1/x2 = the samples each layer worked on (k1, k2 of them; nb samples at most)
#define OBP(nm, X, G, B_, C_, BL, st, r1, r2) int vp_obp##nm##_i(FA, D* e, D* q, D* u, D* v, int nb) { const int n0 = zg + ng + nx + zo + nc + zo2 + nc2; OS(X, G, B_, C_, n0) s.l.m_aPrevActs[0].useExternalStorage(x1, k1, nc + 1, true); s.l.m_aPrevActs[1].useExternalStorage(x2, k2, nc2 + 1, true); s.l.m_biggestIncBS = nb; s.l.m_bActivationsValid = true; \
 s.l.m_innerdLdA.useExternalStorage(u, n, 2); s.l.m_innerdLdAPrev.useExternalStorage(v, n, 2); BL B(P); MD e_, g_; e_.useExternalStorage(e, n, 2 + 2*X + n1 + n2); g_.useExternalStorage(q, st ? 0 : n, st ? 0 : n0); const int r = s.l.bprop(e_, B, g_); vp_in(90, s.l.m_bActivationsValid, r); return r; } \
int vp_obp##nm##_s(FA, D* e, D* q, D* u, D* v, int nb) { vp_in(7, 9, 0); vp_in2(8, e, n, 2 + 2*X + n1 + n2, 0); vp_in2(10, e, n, 2 + 2*X + n1 + n2, 0); \
 OB1(1, 5, k2, n2, nc2, zo2, x2, 2 + 2*X + n1, st, r2) OB1(0, 4, k1, n1, nc, zo, x1, 2 + 2*X, st, r1) if (!st) { D* o = q + long(n)*zg; const long w = long(n)*ng; for (long j = 0; j < w; ++j) o[j] = 0; } vp_in(9, 0, 0); vp_in(90, 0, 1); return 1; }
#define OB1(i, ID, k, nn, nc, zo, x, of, st, rr) { D* o = q + long(n)*(zo); if (k) { vp_ao_xr(u, k, nn, 0, e + long(n)*(of), n, nn, 0, g + long(n)*i); const bool w = long(k)*(nc + 1) > long(nb)*nc; D* c = x + long(k)*nc; D* tt = w ? t : nullptr; if (w) { for (int j = 0; j < k; ++j) t[j] = c[j]; for (int j = 0; j < k; ++j) c[j] = 1; } \
 vp_in(68, ID, 0); see(67, x, k, nc + 1, 1); bpe(u, k, nn, 0, v, st ? 0 : k, st ? 0 : nc, 0); if (tt) for (int j = 0; j < k; ++j) c[j] = tt[j]; if (!st) vp_ao_fr(o, n, nc, 0, (rr) ? v : u, k, nc, 0, g + long(n)*i); } else if (!st) { const long w = long(n)*nc; for (long j = 0; j < w; ++j) o[j] = 0; } }
OBP(1, true, Gt, F4, F5, Below, 0, 1, 1) OBP(0, false, Gn, H4, F5, Below, 0, 0, 1) OBP(s, false, Gt, F4, F5, BelowS, 1, 1, 1)
typedef Ot<true, Gt, F4, F5> Oi; typedef Ot<false, Gn, F4, F5> Oj;
#define PA_(o, k, m) o[k] = long((m).m_pData); o[k + 1] = (m).m_rows; o[k + 2] = (m).m_cols; o[k + 3] = FL(m);
struct Oi_ { Li2 l; D* a; int r, c, f, sh; long lm; int big; long pa[8]; };
#define INIT(i, p) vp_in(60, i, NOI); vp_in(61, b, t); vp_in(62, 0, 0); vp_in(59, i, long(p)); e = vp_ec(i);
#define NOI long(nntl::invalid_layer_index)
#define C_ ,
#define OIN(nm, T, X, ZT, TR) void vp_oini##nm##_i(Oi_* o, D* p, int n1, int n2, int nc, int nc2, int nmx ZT) { const int tb = TR, ng = 2; /* an identity gate */ ++nc; nc2 += nc; RN x(tb + nmx, tb); T s(2, n1, n2, 0, ng, ng, nc, nc + ng, nc2); s.g.m_incoming_neurons_cnt = ng; s.a.m_incoming_neurons_cnt = nc; s.b.m_incoming_neurons_cnt = nc2; s.l.m_layerIdx = 9; s.l.m_incoming_neurons_cnt = ng + nc + nc2; const auto r = s.l.layer_init(x.lid, p); o->l.ec = int(r); if (r == E0::Success) { lid2(&o->l, x.lid, 0); o->a = s.l.m_activations.m_pData; o->r = s.l.m_activations.m_rows; o->c = s.l.m_activations.m_cols; o->f = FL(s.l.m_activations); o->sh = s.l.is_activations_shared(); o->lm = s.l.m_layers_max_dLdA_numel; o->big = s.l.m_biggestIncBS; PA_(o->pa, 0, s.l.m_aPrevActs[0]) PA_(o->pa, 4, s.l.m_aPrevActs[1]) } } \
void vp_oini##nm##_s(Oi_* o, D* p, int n1, int n2, int nc, int nc2, int nmx ZT) { const int t = TR, b = nmx + t, ng = 2; ++nc; nc2 += nc; int e = 0; RN x(b, t); D* st = nullptr; INIT(6, p) if (!e) { agg(x.lid, x.cd, 6, b, t); INIT(4, 0) if (!e) { agg(x.lid, x.cd, 4, b, t); INIT(5, 0) if (!e) { agg(x.lid, x.cd, 5, b, t); vp_in(20, 9, 3); st = new(std::nothrow) D[long(b)*(nc + nc2 + 1)]; if (!st) e = int(E0::CantAllocateMemoryForInnerLLActivations); } } } \
 o->l.ec = e; if (e) { vp_in(63, 6, 0); vp_in(63, 4, 0); vp_in(63, 5, 0); } else { x.lid.outgBS.maxBS = b; x.lid.outgBS.maxTrainBS = t; x.lid.maxMemFPropRequire += b; long m = 0; const int nn = 2 + 2*X + n1 + n2; if (t > 0) { m = std::max(x.lid.max_dLdA_numel, long(t)*nc2); x.lid.max_dLdA_numel = long(t)*nn; x.lid.maxMemTrainingRequire += 2*m + b; } \
 lid2(&o->l, x.lid, 0); o->a = p; o->r = b; o->c = nn + 1; o->f = 1; o->sh = 1; o->lm = m; o->big = b; long* q = o->pa; q[0] = long(st); q[1] = b; q[2] = nc + 1; q[3] = 1; q[4] = long(st + long(b)*nc); q[5] = b; q[6] = nc2 + 1; q[7] = 1; delete[] st; } }
OIN(t, Oi, true, C_ int nt, nt) OIN(f, Oj, false, , 0)
void vp_ode_i(D* p, D* t) { Oi s(2, 5, 6, 0, 3, 3, 4, 7, 2); s.l.m_aPrevActs[0].useExternalStorage(p, 2, 3, true); s.l.m_aPrevActs[1].useExternalStorage(p, 4, 3, true); s.l.m_pTmpBiasStorage = t; s.l.m_activations.useExternalStorage(p, 2, 16, true); s.l.m_bActivationsValid = true; s.l.layer_deinit(); long o[8]; PA_(o, 0, s.l.m_aPrevActs[0]) PA_(o, 4, s.l.m_aPrevActs[1]) for (int i = 0; i < 8; ++i) vp_in(90 + i, o[i], 0); vp_in(98, long(s.l.m_pTmpBiasStorage), s.l.m_bActivationsValid); vp_in2(99, MD_(s.l.m_activations)); }
void vp_ode_s(D* p, D* t) { vp_in(63, 6, 0); vp_in(63, 4, 0); vp_in(63, 5, 0); for (int i = 0; i < 8; ++i) vp_in(90 + i, (i & 3) == 3, 0); vp_in(98, 0, 0); vp_in2(99, 0, 0, 0, 1); }
int vp_oob_i(D* p, int n, int n1, int n2, int mx) { Oi s(2, n1, n2, 0, 3, 3, 4, 7, 2); R0 x; s.l.m_pCommonData = &x.cd; s.l.m_activations.useExternalStorage(p, mx, 4 + n1 + n2 + 1, true); s.l.m_bActivationsValid = true; const int r = s.l.on_batch_size_change(n, p); vp_in2(90, MD_(s.l.m_activations)); vp_in(91, s.l.m_bActivationsValid, s.l.is_activations_shared()); return r; }
int vp_oob_s(D* p, int n, int n1, int n2, int mx) { vp_in(58, 6, n); vp_in(57, 6, long(p)); vp_in2(90, p, n, 4 + n1 + n2 + 1, 1); vp_in(91, 0, 1); return n; }
void vp_owk_i(int* o) { Oi s(2, 5, 6, 0, 3, 3, 4, 7, 2); Oj u(2, 5, 6, 0, 3, 3, 4, 7, 2); o[0] = s.l.get_neurons_cnt(); o[1] = u.l.get_neurons_cnt(); s.l.for_each_gated_layer([](auto& l) { vp_in(80, l.m_neurons_cnt, 0); }); s.l.for_each_packed_layer([](auto& l) { vp_in(82, l.m_neurons_cnt, 0); }); o[2] = &s.l.gating_layer() == &s.g; }
void vp_owk_s(int* o) { o[0] = 15; o[1] = 13; vp_in(80, 5, 0); vp_in(80, 6, 0); vp_in(82, 2, 0); vp_in(82, 5, 0); vp_in(82, 6, 0); o[2] = 1; }
}
