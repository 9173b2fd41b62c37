#include "util2.h"
#include "nntl/utils/forwarder.h"
#include "nntl/utils/tuple_utils.h"
struct VLB { bool* p; unsigned long n; };
struct F4 { long k[4]; long operator()(int x, long& y) { y += k[3]; return k[0] + x; } };
struct F3 { long k; long* w; F3(const F3& o) : k(o.k), w(o.w) { ++*w; } F3(long a, long* b) : k(a), w(b) {} long operator()(int x, long& y) { y += k; return k + x; } };
typedef utils::forwarder<long(int, long&)> FW; typedef utils::cmcforwarder<long(int, long&)> CF;
typedef std::vector<LI> VLI; typedef std::vector<LT> VLT;
struct BS2 { int a, b; };
extern "C" { D* vp_ls_visit(D*); void vp_seen(D*);
// ---------------------------------------------------------------- epoch conditions: defaults and ranges
void vp_vc_def_i(VC* o) { new (o) vector_conditions(); } void vp_vc_def_s(VC* o) { o->m_flgEvalPerf.p = nullptr; o->m_flgEvalPerf.n = 0; }
void vp_vc_ctor1_i(VC* o, L n) { new (o) vector_conditions(n); } void vp_vc_ctor1_s(VC* o, L n) { bool* p = (bool*)vp_vec_storage(n); o->m_flgEvalPerf.p = p; o->m_flgEvalPerf.n = n; for (L i = 0; i < n; ++i) p[i] = true; p[n - 1] = true; }
void vp_vc_rszd_i(VC* o, L n) { o->resize(n); } void vp_vc_rszd_s(VC* o, L n) { for (L i = o->m_flgEvalPerf.n; i < n; ++i) o->m_flgEvalPerf.p[i] = false; o->m_flgEvalPerf.n = n; }
void vp_vc_vr1_i(VC* o, L n, L z) { o->verbose(n, n + z); } void vp_vc_vr1_s(VC* o, L n, L z) { for (L i = 0; i <= z; ++i) o->m_flgEvalPerf.p[n - 1 + i] = true; }
void vp_vc_sr1_i(VC* o, L n, L z) { o->silence(n, n + z); } void vp_vc_sr1_s(VC* o, L n, L z) { for (L i = 0; i <= z; ++i) o->m_flgEvalPerf.p[n - 1 + i] = false; }
void vp_vc_vr_i(VC* o, L n, L z, L n2) { o->verbose(n, n + z, n2); } void vp_vc_vr_s(VC* o, L n, L z, L n2) { for (L i = n - 1; i < n + z; i += n2) o->m_flgEvalPerf.p[i] = true; }
void vp_vc_sr_i(VC* o, L n, L z, L n2) { o->silence(n, n + z, n2); } void vp_vc_sr_s(VC* o, L n, L z, L n2) { for (L i = n - 1; i < n + z; i += n2) o->m_flgEvalPerf.p[i] = false; }
const void* vp_vc_ret_i(VC* o, int k) { switch (k) { case 0: return &o->clear(); case 1: return &o->resize(5); case 2: return &o->set(1, true); case 3: return &o->verbose(1); default: return &o->silence(1); } }
const void* vp_vc_ret_s(VC* o, int k) { switch (k) { case 0: o->m_flgEvalPerf.n = 0; break; case 1: for (L i = o->m_flgEvalPerf.n; i < 5; ++i) o->m_flgEvalPerf.p[i] = false; o->m_flgEvalPerf.n = 5; break; case 2: case 3: o->m_flgEvalPerf.p[1] = true; break; default: o->m_flgEvalPerf.p[1] = false; } return o; }
// ---------------------------------------------------------------- black/white lists
void vp_bwc_i(BW* b) { new (b) _bwlist<D>(); } void vp_bwc_s(BW* b) { b->v().p = nullptr; b->v().n = 0; b->m_layerTypes.p = nullptr; b->m_layerTypes.n = 0; b->m_layerIdxs.p = nullptr; b->m_layerIdxs.n = 0; b->m_bWhiteList = false; }
void vp_bwcw_i(BW* b, bool w) { new (b) _bwlist<D>(w); } void vp_bwcw_s(BW* b, bool w) { b->v().p = nullptr; b->v().n = 0; b->m_layerTypes.p = nullptr; b->m_layerTypes.n = 0; b->m_layerIdxs.p = nullptr; b->m_layerIdxs.n = 0; b->m_bWhiteList = w; }
void vp_bw_rst_i(BW* b) { b->resetLists(); } void vp_bw_rst_s(BW* b) { b->v().n = 0; b->m_layerTypes.n = 0; b->m_layerIdxs.n = 0; }
void vp_bw_swl_i(BW* b) { b->setWhiteList(); } void vp_bw_swl_s(BW* b) { b->v().n = 0; b->m_layerTypes.n = 0; b->m_layerIdxs.n = 0; b->m_bWhiteList = true; }
void vp_bw_sbl_i(BW* b) { b->setBlackList(); } void vp_bw_sbl_s(BW* b) { b->v().n = 0; b->m_layerTypes.n = 0; b->m_layerIdxs.n = 0; b->m_bWhiteList = false; }
void vp_bw_gm_i(BW* b, bool* o) { *o = b->getMode(); } void vp_bw_gm_s(BW* b, bool* o) { *o = b->m_bWhiteList; }
#define BWL(nm, F, W, M, N2, VT) void vp_bw_##nm##_i(BW* b, VT* q) { b->F(std::move(*q)); } void vp_bw_##nm##_s(BW* b, VT* q) { if (b->m_bWhiteList != W) { b->m_bWhiteList = W; b->v().n = 0; b->N2.n = 0; } auto* o = b->M.p; b->M.p = q->p; b->M.n = q->n; q->p = nullptr; q->n = 0; if (o) vp_vec_release(o); }
BWL(wlI, whitelist, true, m_layerIdxs, m_layerTypes, VLI)
BWL(wlT, whitelist, true, m_layerTypes, m_layerIdxs, VLT)
BWL(blI, blacklist, false, m_layerIdxs, m_layerTypes, VLI)
BWL(blT, blacklist, false, m_layerTypes, m_layerIdxs, VLT)
// ---------------------------------------------------------------- owned or borrowed object
void vp_op_ownr_i(void) { own_or_use_ptr<Vic> p; p.release(); } void vp_op_ownr_i_2(void) { own_or_use_ptr<Vic> p; p.release(); p.release(); } void vp_op_ownr_i_m(void) { own_or_use_ptr_t<Vic> p; } void vp_op_ownr_s(void) { Vic* q = new (std::nothrow) Vic; if (q) delete q; }
bool vp_op_owne_i(void) { own_or_use_ptr<Vic> p; const bool e = p.empty(); return e; } bool vp_op_owne_s(void) { Vic* q = new (std::nothrow) Vic; const bool e = !q; if (q) delete q; return e; }
void vp_op_cnv_i(Vic* v) { own_or_use_ptr<Vic*> p(v); Vic* q = p; q->x = 5; } void vp_op_cnv_i_arr(Vic* v) { own_or_use_ptr<Vic*> p(v); p->x = 5; } void vp_op_cnv_i_ptr(Vic* v) { own_or_use_ptr<Vic*> p(v); p.ptr()->x = 5; } void vp_op_cnv_i_ref(Vic* v) { own_or_use_ptr<Vic*> p(v); Vic& q = p; q.x = 5; } void vp_op_cnv_i_mk(Vic* v) { auto p = make_own_or_use_ptr(v); p->x = 5; } void vp_op_cnv_s(Vic* v) { v->x = 5; }
// ---------------------------------------------------------------- layer index stack
void vp_lkc_i(LK* k) { new (k) LK(); } void vp_lkc_s(LK* k) { ((VLK*)k)->p = nullptr; ((VLK*)k)->n = 0; }
void vp_lkpm_i(LK* k, LI i) { LI j = i; k->push(std::move(j)); } void vp_lkpm_s(LK* k, LI i) { VLK* v = (VLK*)k; L n = v->n; v->p[n] = i; v->n = n + 1; }
L vp_lksz_i(LK* k) { return k->size(); } L vp_lksz_s(LK* k) { return ((VLK*)k)->n; }
// ---------------------------------------------------------------- functors that just fit or are not trivially copyable
long vp_wfit_i_f(F4* f, int x, long* y) { FW g(utils::forwarderWrapper<>::wrap(*f)); f->k[0] = 5; return g(x, *y); } long vp_wfit_i_c(F4* f, int x, long* y) { CF g(utils::cmcforwarderWrapper<>::wrap(*f)); f->k[0] = 5; return g(x, *y); } long vp_wfit_s(F4* f, int x, long* y) { const long q = f->k[0]; f->k[0] = 5; *y += f->k[3]; return q + x; }
long vp_wntc_i_f(long a, long* w, int x, long* y) { F3 f(a, w); FW g(utils::forwarderWrapper<>::wrap(f)); f.k = 9; return g(x, *y); } long vp_wntc_s(long a, long* w, int x, long* y) { *y += 9; return 9 + x; }
bool vp_fwcp_i(int z, long* y) { F4 f{{1, 2, 3, 4}}; FW g(f); FW h; h = std::move(g); return h && h(z, *y) == 1 + z; } bool vp_fwcp_s(int z, long* y) { *y += 4; return true; }
// ---------------------------------------------------------------- tuple indexes
bool vp_tidx_i(void) { using namespace nntl::tuple_utils; typedef std::tuple<int, char, double, char> T; return get_element_idx<int>(T()) == 0 && get_element_idx<char>(T()) == 1 && get_element_idx<double>(T()) == 2 && get_element_idx<float>(T()) == 4 && get_element_idx<char, int, char>() == 1
 && tuple_element_idx_safe<char, T>::value == 1 && tuple_element_idx_safe<float, T>::value == 4 && tuple_element_idx_safe<int, T>::value == 0 && std::is_same<remove_last_n<2, int, char, bool, int>::type, std::tuple<int, char>>::value && std::is_same<remove_last_n<0, int, char>::type, std::tuple<int, char>>::value; } bool vp_tidx_s(void) { return true; }
// ---------------------------------------------------------------- batch sizes
#define BSZ(r, z) BatchSizes b; b.maxBS = r + z; b.maxTrainBS = z;
void vp_bsz_c_i(BS2* o) { BatchSizes b; o->a = b.maxBS; o->b = b.maxTrainBS; } void vp_bsz_c_s(BS2* o) { o->a = 0; o->b = 0; }
void vp_bsz_c2_i(BS2* o, int r, int z) { BatchSizes b(r + z, z); o->a = b.maxBS; o->b = b.maxTrainBS; } void vp_bsz_c2_i_cp(BS2* o, int r, int z) { BSZ(r, z) BatchSizes d(b); o->a = d.maxBS; o->b = d.maxTrainBS; } void vp_bsz_c2_i_mv(BS2* o, int r, int z) { BSZ(r, z) BatchSizes d(std::move(b)); o->a = d.maxBS; o->b = d.maxTrainBS; }
void vp_bsz_c2_i_set(BS2* o, int r, int z) { BatchSizes b; b.set(r + z, z); o->a = b.maxBS; o->b = b.maxTrainBS; } void vp_bsz_c2_i_as(BS2* o, int r, int z) { BSZ(r, z) BatchSizes d; d = b; o->a = d.maxBS; o->b = d.maxTrainBS; } void vp_bsz_c2_i_am(BS2* o, int r, int z) { BSZ(r, z) BatchSizes d; d = std::move(b); o->a = d.maxBS; o->b = d.maxTrainBS; } void vp_bsz_c2_i_sf(BS2* o, int r, int z) { BSZ(r, z) BatchSizes d; d.set_from(b); o->a = d.maxBS; o->b = d.maxTrainBS; }
void vp_bsz_c2_s(BS2* o, int r, int z) { o->a = r + z; o->b = z; }
int vp_bsz_m_i(int r, int z, bool t) { BSZ(r, z) return b.max_bs4mode(t); } int vp_bsz_m_s(int r, int z, bool t) { return t ? z : r + z; }
int vp_bsz_b_i(int r, int z) { BSZ(r, z) return b.biggest(); } int vp_bsz_b_s(int r, int z) { return r + z; }
bool vp_bsz_v_i(int z, int z2) { BatchSizes b; b.maxBS = z; b.maxTrainBS = z2; return b.isValid(); } bool vp_bsz_v_s(int z, int z2) { return z > 0; }
bool vp_bsz_vt_i(int z, int z2) { BatchSizes b; b.maxBS = z; b.maxTrainBS = z2; return b.isValidForTraining(); } bool vp_bsz_vt_s(int z, int z2) { return z > 0 && z2 > 0; }
bool vp_bsz_eq_i(int r, int z, int r2, int z2) { BSZ(r, z) BatchSizes d; d.maxBS = r2 + z2; d.maxTrainBS = z2; return b == d; } bool vp_bsz_eq_i_n(int r, int z, int r2, int z2) { BSZ(r, z) BatchSizes d; d.maxBS = r2 + z2; d.maxTrainBS = z2; return !(b != d); } bool vp_bsz_eq_s(int r, int z, int r2, int z2) { return r + z == r2 + z2 && z == z2; }
void vp_bsz_mul_i(BS2* o, int r, int z, int n) { BSZ(r, z) BatchSizes d = b * n; o->a = d.maxBS; o->b = d.maxTrainBS; } void vp_bsz_mul_s(BS2* o, int r, int z, int n) { o->a = (r + z) * n; o->b = z * n; }
void vp_bsz_div_i(BS2* o, int r, int z, int n) { BSZ(r, z) BatchSizes d = b / n; o->a = d.maxBS; o->b = d.maxTrainBS; } void vp_bsz_div_s(BS2* o, int r, int z, int n) { o->a = (r + z) / n; o->b = z / n; }
void vp_bsz_clr_i(BatchSizes* b) { b->clear(); } void vp_bsz_clr_s(BatchSizes* b) { ((BS2*)b)->a = 0; ((BS2*)b)->b = 0; }
}
