#include "vec.h"
#include "kern.h"
#include "nntl/utils/confusion_mtx.h"
#include "nntl/utils/vector_conditions.h"
#include "nntl/utils/bwlist.h"
#include "nntl/utils/mtx2Normal.h"
using namespace nntl::utils;
typedef ConfusionMtx<D> CM; typedef unsigned U;
extern "C" {
// ---------------------------------------------------------------- confusion matrix
struct CC { U tp, fp, tn, fn; };
static inline void set(CM& m, U a, U b, U c, U d) { m.truePosCnt() = a; m.falsePosCnt() = b; m.trueNegCnt() = c; m.falseNegCnt() = d; }
static inline void get(const CM& m, CC* o) { o->tp = m.TP(); o->fp = m.FP(); o->tn = m.TN(); o->fn = m.FN(); }
#define Q4 U za, U zb, U zc, U zd
void vp_cm_upd_i(CC* o, Q4, bool t, bool p) { CM m; set(m, za, zb, zc, zd); m.update(t, p); get(m, o); }
void vp_cm_upd_s(CC* o, Q4, bool t, bool p) { o->tp = za + (t && p); o->fp = zb + (!t && p); o->tn = zc + (!t && !p); o->fn = zd + (t && !p); }
void vp_cm_clr_i(CC* o, Q4) { CM m; set(m, za, zb, zc, zd); m.clear(); get(m, o); }
void vp_cm_clr_s(CC* o, Q4) { o->tp = o->fp = o->tn = o->fn = 0; }
void vp_cm_add_i(CC* o, Q4, U ze, U zf, U zg, U zh) { CM m, k; set(m, za, zb, zc, zd); set(k, ze, zf, zg, zh); m += k; get(m, o); }
void vp_cm_add_s(CC* o, Q4, U ze, U zf, U zg, U zh) { o->tp = za + ze; o->fp = zb + zf; o->tn = zc + zg; o->fn = zd + zh; }
void vp_cm_asg_i(CC* o, Q4, U ze, U zf, U zg, U zh) { CM m, k; set(m, za, zb, zc, zd); set(k, ze, zf, zg, zh); m = k; get(m, o); }
void vp_cm_asg_s(CC* o, Q4, U ze, U zf, U zg, U zh) { o->tp = ze; o->fp = zf; o->tn = zg; o->fn = zh; }
bool vp_cm_eq_i(Q4, U ze, U zf, U zg, U zh) { CM m, k; set(m, za, zb, zc, zd); set(k, ze, zf, zg, zh); return m == k; }
bool vp_cm_eq_s(Q4, U ze, U zf, U zg, U zh) { return za == ze && zb == zf && zc == zg && zd == zh; }
void vp_cm_red_i(CC* o, const CM* k, int r) { CM m; m.reduce(k, r); get(m, o); }
void vp_cm_red_s(CC* o, const CM* k, int r) { CC x; x.tp = k[0].TP(); x.fp = k[0].FP(); x.tn = k[0].TN(); x.fn = k[0].FN(); for (int i = 1; i < r; ++i) { x.tp += k[i].TP(); x.fp += k[i].FP(); x.tn += k[i].TN(); x.fn += k[i].FN(); } o->tp = x.tp; o->fp = x.fp; o->tn = x.tn; o->fn = x.fn; }
#define MET(n, call, spec) D vp_cm_##n##_i(Q4) { CM m; set(m, za, zb, zc, zd); return D(call); } D vp_cm_##n##_s(Q4) { const D tp = za, fp = zb, tn = zc, fn = zd; return spec; }
MET(tpr, m.TPR(), tp / (tp + fn))
MET(sens, m.Sensitivity(), tp / (tp + fn))
MET(rec, m.Recall(), tp / (tp + fn))
MET(spec, m.Specificity(), tn / (tn + fp))
MET(tnr, m.TNR(), tn / (tn + fp))
MET(prec, m.Precision(), tp / (tp + fp))
MET(ppv, m.PPV(), tp / (tp + fp))
MET(npv, m.NPV(), tn / (tn + fn))
MET(acc, m.Accuracy(), (tp + tn) / (tp + tn + fp + fn))
MET(inf, m.Informedness(), tp / (tp + fn) + tn / (tn + fp) - 1)
MET(mark, m.Markedness(), tp / (tp + fp) + tn / (tn + fn) - 1)
MET(mcc, m.MCC(), (tp + fp) * (tp + fn) * (tn + fp) * (tn + fn) == 0 ? 0 : (tp * tn - fp * fn) / std::sqrt((tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)))
MET(jac, m.Jaccard(), tp / (tp + fp + fn))
MET(f1, m.F1Score(), 2 * tp / (2 * tp + fp + fn))
MET(tot, m.AllCnt(), tp + tn + fp + fn)
MET(pp, m.TotalPosCnt(), tp + fp)
MET(pn, m.TotalNegCnt(), tn + fn)
MET(dp, m.DataPosCnt(), tp + fn)
MET(dn, m.DataNegCnt(), tn + fp)
D vp_cm_fb_i(Q4, D x) { CM m; set(m, za, zb, zc, zd); return m.FBetaScore(x); } D vp_cm_fb_s(Q4, D x) { const D tp = za, fp = zb, fn = zd; return (1 + x * x) * tp / ((1 + x * x) * tp + fp + x * x * fn); }
// ---------------------------------------------------------------- affine update records
typedef mtx2Normal::ScaleCentralData<D> SC;
struct SO { D s, o; L bs, bo; };
static inline void gs(const SC& x, SO* o) { o->s = x.sc; o->o = x.ofs; o->bs = x.bScale; o->bo = x.bOffset; }
#define S4 SO* o, D s, D f, bool p, bool q
#define XS SC x(s, f, p, q)
#define SET(A_, B_, C_, D_) o->s = A_; o->o = B_; o->bs = C_; o->bo = D_;
void vp_sc_def_i(SO* o) { SC x; gs(x, o); } void vp_sc_def_s(SO* o) { SET(1, 0, 0, 0) }
void vp_sc_reset_i(S4) { XS; x.reset(); gs(x, o); } void vp_sc_reset_s(S4) { SET(1, 0, 0, 0) }
void vp_sc_scale_i(S4, D v) { XS; x._upd_scale(v); gs(x, o); } void vp_sc_scale_s(S4, D v) { SET(s * v, f * v, 1, q) }
void vp_sc_ofs_i(S4, D v) { XS; x._upd_ofs(v); gs(x, o); } void vp_sc_ofs_s(S4, D v) { SET(s, f + v, p, 1) }
void vp_sc_both_i(S4, D v, D w) { XS; x._upd_both(v, w); gs(x, o); } void vp_sc_both_s(S4, D v, D w) { SET(s * v, f * v + w, 1, 1) }
void vp_sc_all_i(S4, D v, D w, bool g, bool h) { XS; x._upd_all_typed(SC(v, w, g, h)); gs(x, o); } void vp_sc_all_s(S4, D v, D w, bool g, bool h) { const D m = g ? v : 1, k = h ? w : 0; SET(s * m, f * m + k, p || g, q || h) }
void vp_sc_allv_i(S4, D v, D w, bool g, bool h) { XS; x._upd_all_typed(v, w, g, h); gs(x, o); } void vp_sc_allv_s(S4, D v, D w, bool g, bool h) { const D m = g ? v : 1, k = h ? w : 0; SET(s * m, f * m + k, p || g, q || h) }
void vp_sc_allf_i(S4, D v, D w, bool g, bool h) { mtx2Normal::ScaleCentralData<float> x((float)s, (float)f, p, q); x._upd_all_typed(mtx2Normal::ScaleCentralData<double>(v, w, g, h)); o->s = x.sc; o->o = x.ofs; o->bs = x.bScale; o->bo = x.bOffset; } void vp_sc_allf_s(S4, D v, D w, bool g, bool h) { const D m = g ? v : 1, k = h ? w : 0; SET((float)((float)s * m), (float)((float)f * m + k), p || g, q || h) }
void vp_sc_as_i(S4) { XS; gs(x.as_type<D>(), o); } void vp_sc_as_s(S4) { SET(s, f, p, q) }
void vp_sc_asf_i(S4) { XS; const auto y = x.as_type<float>(); o->s = y.sc; o->o = y.ofs; o->bs = y.bScale; o->bo = y.bOffset; } void vp_sc_asf_s(S4) { SET((float)s, (float)f, p, q) }
// applied to matrices
typedef mtx2Normal::upd_mtx_scale_central UM; typedef std::vector<SC> SV;
void vp_um_whole_i(MN& m, D* a, int r, int c, D s, D f, bool p, bool q) { MTX(A, a, r, c); UM::whole(m, A, SC(s, f, p, q)); }
void vp_um_whole_i_b(MN& m, D* a, int r, int c, D s, D f, bool p, bool q) { MTXB(A, a, r, c); UM::whole(m, A, SC(s, f, p, q)); }
void vp_um_whole_s(MN& m, D* a, int r, int c, D s, D f, bool p, bool q) { for (L i = 0; i < L(r) * c; ++i) a[i] = a[i] * (p ? s : 1) + (q ? f : 0); }
void vp_um_bw_i(MN& m, D* a, int r, int c, const SV& v) { MTX(A, a, r, c); UM::batchwise(m, A, v); }
void vp_um_bw_i_b(MN& m, D* a, int r, int c, const SV& v) { MTXB(A, a, r, c); UM::batchwise(m, A, v); }
void vp_um_bw_s(MN& m, D* a, int r, int c, const SV& v) { for (L j = 0; j < c; ++j) { const D s = v.p[j].sc, f = v.p[j].ofs; const bool p = v.p[j].bScale && std::isfinite(s), q = v.p[j].bOffset && std::isfinite(f); if (p || q) for (L i = 0; i < r; ++i) a[i + j * r] = a[i + j * r] * (p ? s : 1) + (q ? f : 0); } }
// ---------------------------------------------------------------- epoch / layer conditions
struct VC : public vector_conditions { using vector_conditions::m_flgEvalPerf; };
struct VO { const void* p; L n; };
void vp_vc_set1_i(VC& v, L zi, bool b) { v.set(zi, b); } void vp_vc_set1_s(VC& v, L zi, bool b) { v.m_flgEvalPerf.p[zi] = b; }
void vp_vc_verb_i(VC& v, L zi) { v.verbose(zi); } void vp_vc_verb_s(VC& v, L zi) { v.m_flgEvalPerf.p[zi] = true; }
void vp_vc_sil_i(VC& v, L zi) { v.silence(zi); } void vp_vc_sil_s(VC& v, L zi) { v.m_flgEvalPerf.p[zi] = false; }
bool vp_vc_get_i(VC& v, L zi) { return v(zi); } bool vp_vc_get_s(VC& v, L zi) { return v.m_flgEvalPerf.p[zi]; }
L vp_vc_size_i(VC& v) { return v.size(); } L vp_vc_size_s(VC& v) { return v.m_flgEvalPerf.n; }
L vp_vc_maxe_i(VC& v) { return v.maxEpoch(); } L vp_vc_maxe_s(VC& v) { return v.m_flgEvalPerf.n; }
void vp_vc_set1r_i(VC& v, L n, L ze, bool b) { v.set(n, n + ze, 1, b); } void vp_vc_set1r_s(VC& v, L n, L ze, bool b) { for (L i = 0; i <= ze; ++i) v.m_flgEvalPerf.p[n - 1 + i] = b; }
void vp_vc_setr_i(VC& v, L n, L ze, L n2, bool b) { v.set(n, n + ze, n2, b); } void vp_vc_setr_s(VC& v, L n, L ze, L n2, bool b) { for (L i = 0; i < ze / n2 + 1; ++i) v.m_flgEvalPerf.p[n - 1 + i * n2] = b; }
}
