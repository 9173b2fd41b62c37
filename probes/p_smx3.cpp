#include "smx.h"
// default arguments, repeated hand-over of storage, exact state after clear

static inline void own_spec(O* o, int r, int c, bool e, bool b) { const L R = L(r) + (e && b), C = L(c) + (e && !b); D* q = (D*)vp_amalloc(R * C * sizeof(D), AL); o->p = q; o->fail = !q; o->r = q ? R : 0; o->c = q ? C : 0; o->e = e; o->h = 0; o->b = b; o->own = 1;
	if (q && e) { if (b) for (L j = 0; j < C; ++j) q[R - 1 + j * R] = D(1); else for (L i = 0; i < R; ++i) q[i + (C - 1) * R] = D(1); } vp_afree(q); }
#define C3(n, sig, decl, spec) void vp_##n##_i sig { decl; ob(A, o); } void vp_##n##_s sig { spec; }
C3(ctor_extD0, (O* o, D* p, int r, int c), MX A(p, r, c), ex(o, p, r, c, false, false, false, false))
C3(ctor_extD1, (O* o, D* p, int r, int c, bool e), MX A(p, r, c, e), ex(o, p, r, c, e, false, false, false))
C3(ctor_extD2, (O* o, D* p, int r, int c, bool e, bool h), MX A(p, r, c, e, h), ex(o, p, r, c, e, h, false, false))
C3(ctor_extDd0, (O* o, D* p, int r, int c), MD A(p, r, c), ex(o, p, r, c, false, false, false, false))
C3(ctor_extDd1, (O* o, D* p, int r, int c, bool e), MD A(p, r, c, e), ex(o, p, r, c, e, false, false, false))
C3(ctor_extDd2, (O* o, D* p, int r, int c, bool e, bool h), MD A(p, r, c, e, h), ex(o, p, r, c, e, h, false, false))
C3(ctor_extDs0, (O* o, D* p, int r, int c), MX A(p, MX::mtx_size_t(r, c)), ex(o, p, r, c, false, false, false, false))
C3(ctor_extDs1, (O* o, D* p, int r, int c, bool e), MX A(p, MX::mtx_size_t(r, c), e), ex(o, p, r, c, e, false, false, false))
C3(ctor_extDs2, (O* o, D* p, int r, int c, bool e, bool h), MX A(p, MX::mtx_size_t(r, c), e, h), ex(o, p, r, c, e, h, false, false))
C3(ctor_ownD0, (O* o, int r, int c), MX A(r, c), own_spec(o, r, c, false, false))
C3(ctor_ownD1, (O* o, int r, int c, bool e), MX A(r, c, e), own_spec(o, r, c, e, false))
C3(ctor_ownDd0, (O* o, int r, int c), MD A(r, c), own_spec(o, r, c, false, false))
C3(ctor_ownDd1, (O* o, int r, int c, bool e), MD A(r, c, e), own_spec(o, r, c, e, false))
C3(ctor_ownDs0, (O* o, int r, int c), MX A(MX::mtx_size_t(r, c)), own_spec(o, r, c, false, false))
C3(ctor_ownDs1, (O* o, int r, int c, bool e), MX A(MX::mtx_size_t(r, c), e), own_spec(o, r, c, e, false))
C3(ctor_ownDsd0, (O* o, int r, int c), MD A(MX::mtx_size_t(r, c)), own_spec(o, r, c, false, false))
C3(ctor_ownDb0, (O* o, int r, int c, bool b), MX A(b, r, c), if (b) own_spec(o, c, r, false, b); else own_spec(o, r, c, false, b))
static inline void ne_spec(O* o, L n, bool e, bool h) { D* q = (D*)vp_amalloc(n * sizeof(D), AL); if (q) { ex(o, q, 0, 0, e, h, false, true); vp_afree(q); } else ex(o, nullptr, 0, 0, false, false, false, true); }
C3(ctor_ownDn0, (O* o, L n), MD A(n), ne_spec(o, n, false, false))
C3(ctor_ownDn1, (O* o, L n, bool e), MD A(n, e), ne_spec(o, n, e, false))
C3(ctor_ownDn2, (O* o, L n, bool e, bool h), MD A(n, e, h), ne_spec(o, n, e, h))
#define E3(n, sig, call, spec) void vp_ext_##n##_i sig { MX A; call; ob(A, o); } void vp_ext_##n##_i_d sig { MD A; call; ob(A, o); } void vp_ext_##n##_s sig { spec; }
E3(D0, (O* o, D* p, int r, int c), A.useExternalStorage(p, r, c), ex(o, p, r, c, false, false, false, false))
E3(D1, (O* o, D* p, int r, int c, bool e), A.useExternalStorage(p, r, c, e), ex(o, p, r, c, e, false, false, false))
E3(D2, (O* o, D* p, int r, int c, bool e, bool h), A.useExternalStorage(p, r, c, e, h), ex(o, p, r, c, e, h, false, false))
E3(Dl, (O* o, X6, D* q), MX M(p, r, c, e, h, b); A.useExternalStorage(q, M), ex(o, q, r, c, e, false, b, false))
E3(Db0, (O* o, D* p, int r, int c, bool b), A.useExternalStorage(b, p, r, c), if (b) ex(o, p, c, r, false, false, b, false); else ex(o, p, r, c, false, false, b, false))
E3(Db1, (O* o, D* p, int r, int c, bool b, bool e), A.useExternalStorage(b, p, r, c, e), if (b) ex(o, p, c, r, e, false, b, false); else ex(o, p, r, c, e, false, b, false))
E3(Dc0, (O* o, D* p, int r, int c, bool b), A.set_batchInRow(b); A.useExternalStorage(r, c, p), if (b) ex(o, p, c, r, false, false, b, false); else ex(o, p, r, c, false, false, b, false))
E3(Dc1, (O* o, D* p, int r, int c, bool b, bool e), A.set_batchInRow(b); A.useExternalStorage(r, c, p, e), if (b) ex(o, p, c, r, e, false, b, false); else ex(o, p, r, c, e, false, b, false))
#define E4(n, sig, call, spec) void vp_ext_##n##_i sig { MX A; call; ob(A, o); } void vp_ext_##n##_s sig { spec; }
E4(Ds0, (O* o, D* p, int r, int c), A.useExternalStorage(p, MX::mtx_size_t(r, c)), ex(o, p, r, c, false, false, false, false))
E4(Ds1, (O* o, D* p, int r, int c, bool e), A.useExternalStorage(p, MX::mtx_size_t(r, c), e), ex(o, p, r, c, e, false, false, false))
E4(Ds2, (O* o, D* p, int r, int c, bool e, bool h), A.useExternalStorage(p, MX::mtx_size_t(r, c), e, h), ex(o, p, r, c, e, h, false, false))
#define E5(n, sig, call, spec) void vp_ext_##n##_i sig { MD A; call; ob(A, o); } void vp_ext_##n##_s sig { spec; }
E5(Dn0, (O* o, D* p, L n), A.useExternalStorage(p, n), ex(o, p, 0, 0, false, false, false, false))
E5(Dn1, (O* o, D* p, L n, bool e), A.useExternalStorage(p, n, e), ex(o, p, 0, 0, e, false, false, false))
E5(Dn2, (O* o, D* p, L n, bool e, bool h), A.useExternalStorage(p, n, e, h), ex(o, p, 0, 0, e, h, false, false))
// storage owned before is released when other storage comes in, by every way it can come in
void vp_ext_ownN_i(O* o, D* p, L n, int r, int c) { MD A(r, c); A.useExternalStorage(p, n); ob(A, o); } void vp_ext_ownN_s(O* o, D* p, L n, int r, int c) { vp_afree(vp_amalloc(L(r)*c*sizeof(D), AL)); ex(o, p, 0, 0, false, false, false, false); }
void vp_rsN_i(O* o, L n, int r, int c) { MD A(r, c); o->sz = A.resize(n); ob(A, o); } void vp_rsN_s(O* o, L n, int r, int c) { vp_afree(vp_amalloc(L(r)*c*sizeof(D), AL)); D* q = (D*)vp_amalloc(n*sizeof(D), AL); o->sz = q != nullptr; ex(o, q, 0, 0, false, false, false, true); vp_afree(q); }
void vp_ext_ownM_i(O* o, X6, int r2, int c2) { MX M(p, r, c, e, h, b), A(r2, c2); A.useExternalStorage(M); ob(A, o); } void vp_ext_ownM_i_d(O* o, X6, int r2, int c2) { MX M(p, r, c, e, h, b); MD A(r2, c2); A.useExternalStorage(M); ob(A, o); } void vp_ext_ownM_s(O* o, X6, int r2, int c2) { vp_afree(vp_amalloc(L(r2)*c2*sizeof(D), AL)); ex(o, p, r, c, e, h, b, false); }
void vp_ext_ownMn_i(O* o, X6, int r2, int c2) { MX M(p, r, c, e, h, b), A(r2, c2); A.useExternalStorage_no_bias(M); ob(A, o); } void vp_ext_ownMn_i_d(O* o, X6, int r2, int c2) { MX M(p, r, c, e, h, b); MD A(r2, c2); A.useExternalStorage_no_bias(M); ob(A, o); } void vp_ext_ownMn_s(O* o, X6, int r2, int c2) { vp_afree(vp_amalloc(L(r2)*c2*sizeof(D), AL)); ex(o, p, L(r) - (e && b), L(c) - (e && !b), false, false, b, false); }
void vp_intern1_i(O* o, X6) { A6; A.useInternalStorage(); ob(A, o); } void vp_intern1_i_d(O* o, X6) { B6; A.useInternalStorage(); ob(A, o); } void vp_intern1_s(O* o, X6) { ex(o, nullptr, 0, 0, false, false, false, true); }
void vp_intern2_i(O* o, int r, int c) { MX A; A.useInternalStorage(r, c); ob(A, o); } void vp_intern2_i_d(O* o, int r, int c) { MD A; A.useInternalStorage(r, c); ob(A, o); } void vp_intern2_s(O* o, int r, int c) { own_spec(o, r, c, false, false); }
void vp_intern3_i(O* o, int r, int c, bool e) { MX A; A.useInternalStorage(r, c, e); ob(A, o); } void vp_intern3_i_d(O* o, int r, int c, bool e) { MD A; A.useInternalStorage(r, c, e); ob(A, o); } void vp_intern3_s(O* o, int r, int c, bool e) { own_spec(o, r, c, e, false); }
void vp_intern4_i(O* o, int r, int c, int r2, int c2) { MX A(r2, c2); A.useInternalStorage(r, c); ob(A, o); } void vp_intern4_i_d(O* o, int r, int c, int r2, int c2) { MD A(r2, c2); A.useInternalStorage(r, c); ob(A, o); } void vp_intern4_s(O* o, int r, int c, int r2, int c2) { vp_afree(vp_amalloc(L(r2)*c2*sizeof(D), AL)); own_spec(o, r, c, false, false); }
// exact state after clear
struct Z { L r, c, h, n; };
#define ZZ z->r = A.rows(); z->c = A.cols(); z->h = A.hasHoleyBiases(); z->n = A.numel()
void vp_clearz_i(Z* z, X6) { A6; A.clear(); ZZ; } void vp_clearz_i_d(Z* z, X6) { B6; A.clear(); ZZ; } void vp_clearz_i_o(Z* z, X6) { MX A(r, c, e, b); A.holey_biases(h); A.clear(); ZZ; } void vp_clearz_s(Z* z, X6) { z->r = z->c = z->h = z->n = 0; } void vp_clearz_s_o(Z* z, X6) { O o_; own_spec(&o_, r, c, e, b); z->r = z->c = z->h = z->n = 0; }
// cloning without the biases hands over the orientation
void vp_cln_nbo_i(O* o, X6, D* q, bool g) { if (e && b) return; A6; MX B(q, r, L(c) - e, false, false, g); A.clone_to_no_bias(B); ob(B, o); } void vp_cln_nbo_s(O* o, X6, D* q, bool g) { if (e && b) return; for (L i = 0; i < L(r)*(L(c) - e); ++i) q[i] = p[i]; ex(o, q, r, L(c) - e, false, false, b, false); }
void vp_op_cbd_i(O* o, D* p, int r, int c, bool e, bool h, const D* q) { const bool b = false; A6; A.copy_biases_from(q); ob(A, o); } void vp_op_cbd_i_d(O* o, D* p, int r, int c, bool e, bool h, const D* q) { const bool b = false; B6; A.copy_biases_from(q); ob(A, o); } void vp_op_cbd_s(O* o, D* p, int r, int c, bool e, bool h, const D* q) { for (L i = 0; i < r; ++i) p[i + (L(c) - 1)*r] = q[i]; ex(o, p, r, c, e, true, false, false); }
}
