#include "util2.h"
extern "C" {
// ---------------------------------------------------------------- epoch conditions
void vp_vc_ctor1_i(VC* o, L n, bool b) { new (o) vector_conditions(n, b); } void vp_vc_ctor1_s(VC* o, L n, bool b) { D* q = nullptr; bool* p = (bool*)vp_vec_storage(n); o->m_flgEvalPerf.p = p; o->m_flgEvalPerf.n = n; for (L i = 0; i < n; ++i) p[i] = b; p[n - 1] = true; }
void vp_vc_ctor2_i(VC* o, L n, L n2) { new (o) vector_conditions(n, n2); } void vp_vc_ctor2_s(VC* o, L n, L n2) { bool* p = (bool*)vp_vec_storage(n); o->m_flgEvalPerf.p = p; o->m_flgEvalPerf.n = n; for (L i = 0; i < n; ++i) p[i] = false; for (L i = n2 - 1; i < n; i += n2) p[i] = true; p[n - 1] = true; }
void vp_vc_ctor3_i(VC* o, L n, L n3, L n2) { new (o) vector_conditions(n, n3, n2); } void vp_vc_ctor3_s(VC* o, L n, L n3, L n2) { bool* p = (bool*)vp_vec_storage(n); o->m_flgEvalPerf.p = p; o->m_flgEvalPerf.n = n; for (L i = 0; i < n; ++i) p[i] = false; for (L i = n3 - 1; i < n; i += n2) p[i] = true; p[n - 1] = true; }
void vp_vc_mv_i(VC* o, VC* s) { new (o) vector_conditions(std::move(*s)); } void vp_vc_mv_s(VC* o, VC* s) { bool* p = s->m_flgEvalPerf.p; L n = s->m_flgEvalPerf.n; o->m_flgEvalPerf.p = p; o->m_flgEvalPerf.n = n; s->m_flgEvalPerf.p = nullptr; s->m_flgEvalPerf.n = 0; }
void vp_vc_rsz_i(VC* o, L n, bool b) { o->resize(n, b); } void vp_vc_rsz_s(VC* o, L n, bool b) { for (L i = o->m_flgEvalPerf.n; i < n; ++i) o->m_flgEvalPerf.p[i] = b; o->m_flgEvalPerf.n = n; }
void vp_vc_clr_i(VC* o) { o->clear(); } void vp_vc_clr_s(VC* o) { o->m_flgEvalPerf.n = 0; }
// ---------------------------------------------------------------- black/white lists
void vp_bw_init_i(BW* b, L n) { b->v().n = 0; b->_bwlist_init(n); } void vp_bw_init_s(BW* b, L n) { const bool w = b->m_bWhiteList; b->v().n = 0; for (L i = 0; i < n; ++i) b->v().p[i] = !w; b->v().n = n; }
void vp_bw_init_i_again(BW* b, L n) { b->_bwlist_init(n); } void vp_bw_init_s_again(BW* b, L n) { vp_bw_init_s(b, n); }
void vp_bw_upd_i(BW* b, LI i, LT t) { b->_bwlist_updateLayer(i, t); }
void vp_bw_upd_s(BW* b, LI i, LT t) { bool f = false; for (L k = 0; k < (L)b->m_layerTypes.n; ++k) f = f || b->m_layerTypes.p[k] == t; bool g = false; for (L k = 0; k < (L)b->m_layerIdxs.n; ++k) g = g || b->m_layerIdxs.p[k] == i; if (f || g) b->v().p[i] = b->m_bWhiteList; }
bool vp_bw_ok_i(BW* b, LI i) { return b->_bwlist_layerAllowed(i); } bool vp_bw_ok_s(BW* b, LI i) { return b->v().p[i]; }
void vp_bw_wli_i(BW* b, LI i) { b->whitelist(i); } void vp_bw_wli_s(BW* b, LI i) { L n = b->m_layerIdxs.n; if (!b->m_bWhiteList) { b->m_bWhiteList = true; b->v().n = 0; b->m_layerTypes.n = 0; n = 0; } b->m_layerIdxs.p[n] = i; b->m_layerIdxs.n = n + 1; }
void vp_bw_wlt_i(BW* b, LT i) { b->whitelist(i); } void vp_bw_wlt_s(BW* b, LT i) { L n = b->m_layerTypes.n; if (!b->m_bWhiteList) { b->m_bWhiteList = true; b->v().n = 0; b->m_layerIdxs.n = 0; n = 0; } b->m_layerTypes.p[n] = i; b->m_layerTypes.n = n + 1; }
void vp_bw_bli_i(BW* b, LI i) { b->blacklist(i); } void vp_bw_bli_s(BW* b, LI i) { L n = b->m_layerIdxs.n; if (b->m_bWhiteList) { b->m_bWhiteList = false; b->v().n = 0; b->m_layerTypes.n = 0; n = 0; } b->m_layerIdxs.p[n] = i; b->m_layerIdxs.n = n + 1; }
void vp_bw_blt_i(BW* b, LT i) { b->blacklist(i); } void vp_bw_blt_s(BW* b, LT i) { L n = b->m_layerTypes.n; if (b->m_bWhiteList) { b->m_bWhiteList = false; b->v().n = 0; b->m_layerIdxs.n = 0; n = 0; } b->m_layerTypes.p[n] = i; b->m_layerTypes.n = n + 1; }
void vp_bw_mode_i(BW* b, bool w) { b->setMode(w); } void vp_bw_mode_s(BW* b, bool w) { b->m_bWhiteList = w; b->v().n = 0; b->m_layerTypes.n = 0; b->m_layerIdxs.n = 0; }
bool vp_bw_isw_i(BW* b) { return b->isWhiteList(); } bool vp_bw_isw_s(BW* b) { return b->m_bWhiteList; }
bool vp_bw_isb_i(BW* b) { return b->isBlackList(); } bool vp_bw_isb_s(BW* b) { return !b->m_bWhiteList; }
// ---------------------------------------------------------------- owned or borrowed object
void vp_op_own_i(void) { own_or_use_ptr<Vic> p; } void vp_op_own_s(void) { Vic* q = new (std::nothrow) Vic; if (q) delete q; }
void vp_op_use_i(Vic* v) { own_or_use_ptr<Vic*> p(v); p.get().x = 5; } void vp_op_use_s(Vic* v) { v->x = 5; }
bool vp_op_rel_i(Vic* v) { own_or_use_ptr<Vic*> p(v); const bool a = p.empty(); p.release(); return !a && p.empty(); } bool vp_op_rel_s(Vic* v) { return true; }
// ---------------------------------------------------------------- layer index stack
L vp_lk_top_i(LK* k) { return k->top(); } L vp_lk_top_s(LK* k) { VLK* v = (VLK*)k; return v->n ? v->p[v->n - 1] : 7777; }
L vp_lk_cnv_i(LK* k) { return *k; } L vp_lk_cnv_s(LK* k) { VLK* v = (VLK*)k; return v->n ? v->p[v->n - 1] : 7777; }
void vp_lk_push_i(LK* k, LI i) { k->push(i); } void vp_lk_push_s(LK* k, LI i) { VLK* v = (VLK*)k; L n = v->n; v->p[n] = i; v->n = n + 1; }
void vp_lk_pop_i(LK* k) { k->pop(); } void vp_lk_pop_s(LK* k) { VLK* v = (VLK*)k; v->n = v->n - 1; }
bool vp_lk_diff_i(LK* k) { return k->bUpperLayerDifferent(); } bool vp_lk_diff_s(LK* k) { VLK* v = (VLK*)k; return (unsigned long)v->n < 2 || v->p[v->n - 1] != v->p[v->n - 2]; }
L vp_lk_nest_i(LK* k, L n) { ((VLK*)k)->n = n; return k->nestingLevel(); } L vp_lk_nest_s(LK* k, L n) { VLK* v = (VLK*)k; v->n = n; L r = 0; for (L i = 2; i <= n; ++i) { if (v->p[n - 1] != v->p[n - i]) break; ++r; } return r; }
// ---------------------------------------------------------------- per-layer settings
D vp_ls_get_i(LS* s, LI i) { return s->get(i); } D vp_ls_get_i_b(LS* s, LI i) { return (*s)[i]; } D vp_ls_get_s(LS* s, LI i) { VLS* v = (VLS*)s; return v->has[i] ? *v->val[i] : *v->front; }
D vp_ls_def_i(LS* s) { return s->get_default(); } D vp_ls_def_s(LS* s) { return *((VLS*)s)->front; }
const LS* vp_ls_setd_i(LS* s, D x) { ((VLS*)s)->hasFront = true; return &s->set_default(x); } const LS* vp_ls_setd_s(LS* s, D x) { *((VLS*)s)->front = x; ((VLS*)s)->hasFront = true; return s; }
void vp_ls_add_i(LS* s, LI i, D x) { s->add(i, x); } void vp_ls_add_s(LS* s, LI i, D x) { VLS* v = (VLS*)s; const L n = v->n; if (v->has[i]) v->alive[v->val[i] - v->slot] = false; v->slot[n] = x; v->alive[n] = true; v->n = n + 1; v->has[i] = true; v->val[i] = v->slot + n; }
}
