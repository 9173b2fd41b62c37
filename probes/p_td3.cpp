// flags: -fno-access-control -fno-exceptions
#include "tdc.h"
#define ob obz
static inline void obz(const MX& A, O* o) { const bool k = !A.empty(); o->p = A.data(); o->r = k ? A.rows() : 0; o->c = k ? A.cols() : 0; o->e = k && A.emulatesBiases(); o->h = k && A.hasHoleyBiases(); o->b = k && A.bBatchInRow(); o->own = !A.bDontManageStorage(); }
// a matrix that owns (or, when o is false, borrows) its r x c storage p; p == nullptr: an empty one
static inline void mk(MD& A, D* p, int r, int c, bool e, bool b, bool own) { if (!p) return; A.useExternalStorage(p, r, c, e, false, b); A.m_bDontManageStorage = !own; }
static inline void leak(MD& A) { A.m_pData = nullptr; A.m_bDontManageStorage = true; }
struct Sx { const D* p; L r, c; bool e, b, own; L bs()const { return b ? c : r; } L ss()const { return (b ? r : c) - e; } };
static inline bool fit(const Sx& X0, const Sx& Y0, const Sx& X1, const Sx& Y1) {
	return X0.p && Y0.p && X0.bs() == Y0.bs() && X1.p && Y1.p && X1.bs() == Y1.bs() && X0.b == X1.b && Y0.b == Y1.b && Y0.ss() == Y1.ss() && X0.ss() == X1.ss() && !Y0.e && !Y1.e && X0.e && X1.e && X0.own && X1.own && Y0.own && Y1.own; }
static inline bool fitY(const Sx& S0, const Sx& S1, const Sx& Y0, const Sx& Y1) { return Y0.p && Y0.bs() == S0.bs() && Y1.p && Y1.bs() == S1.bs() && Y0.b == Y1.b && Y0.ss() == Y1.ss() && !Y0.e && !Y1.e && Y0.own && Y1.own; }
#define SH int r0, int c0, int r1, int c1, int r2, int c2, int r3, int c3
struct M4 { MD a, b, c, d; ~M4() { leak(a); leak(b); leak(c); leak(d); } };
struct S4 { TS t; ~S4() { for (auto& m : t.m_x) leak(m); for (auto& m : t.m_y) leak(m); } };
static inline void fill(S4& s, D* p0, D* p1, D* p2, D* p3, int n0, int n1, int w, int u, bool b, bool b2) {
	mk(s.t.m_x[0], p0, b ? w + 1 : n0, b ? n0 : w + 1, true, b, true); mk(s.t.m_y[0], p1, b2 ? u : n0, b2 ? n0 : u, false, b2, true); mk(s.t.m_x[1], p2, b ? w + 1 : n1, b ? n1 : w + 1, true, b, true); mk(s.t.m_y[1], p3, b2 ? u : n1, b2 ? n1 : u, false, b2, true); }
static inline void obs(const TS& t, O* o) { ob(t.train_x(), o); ob(t.train_y(), o + 1); ob(t.test_x(), o + 2); ob(t.test_y(), o + 3); }
static inline void sh(O* o, const D* p, L n, L w, bool e, bool b) { if (b) ex(o, p, w + e, n, e, false, true, true); else ex(o, p, n, w + e, e, false, false, true); }
static inline void exs(O* o, const D* p0, const D* p1, const D* p2, const D* p3, L n0, L n1, L w, L u, bool b, bool b2) { sh(o, p0, n0, w, true, b); sh(o + 1, p1, n0, u, false, b2); sh(o + 2, p2, n1, w, true, b); sh(o + 3, p3, n1, u, false, b2); }
static inline void non(O* o) { ex(o, nullptr, 0, 0, false, false, false, true); }
extern "C" {
// ---------------------------------------------------------------- which matrices may become a data set
#define AW(n, FL, X0, Y0, X1, Y1) bool vp_aws##n##_i(D* p0, D* p1, D* p2, D* p3, SH, FL) { M4 m; mk(m.a, X0); mk(m.b, Y0); mk(m.c, X1); mk(m.d, Y1); return TS::absorbsion_will_succeed(m.a, m.b, m.c, m.d); } \
 bool vp_aws##n##_s(D* p0, D* p1, D* p2, D* p3, SH, FL) { const Sx a{X0}, b{Y0}, c{X1}, d{Y1}; return fit(a, b, c, d); }
#define c_ ,
AW(B, bool f0 c_ bool f1 c_ bool f2 c_ bool f3, p0 c_ r0 + f0 c_ c0 + !f0 c_ true c_ f0 c_ true, p1 c_ r1 c_ c1 c_ false c_ f1 c_ true, p2 c_ r2 + f2 c_ c2 + !f2 c_ true c_ f2 c_ true, p3 c_ r3 c_ c3 c_ false c_ f3 c_ true)
AW(E, bool f0 c_ bool f1 c_ bool f2 c_ bool f3, p0 c_ r0 c_ c0 + 1 c_ f0 c_ false c_ true, p1 c_ r1 c_ c1 + 1 c_ f1 c_ false c_ true, p2 c_ r2 c_ c2 + 1 c_ f2 c_ false c_ true, p3 c_ r3 c_ c3 + 1 c_ f3 c_ false c_ true)
AW(O, bool f0 c_ bool f1 c_ bool f2 c_ bool f3, p0 c_ r0 c_ c0 + 1 c_ true c_ false c_ f0, p1 c_ r1 c_ c1 + 1 c_ false c_ false c_ f1, p2 c_ r2 c_ c2 + 1 c_ true c_ false c_ f2, p3 c_ r3 c_ c3 + 1 c_ false c_ false c_ f3)
AW(N, bool f0 c_ bool f1 c_ bool f2 c_ bool f3, f0 ? p0 : nullptr c_ r0 c_ c0 + 1 c_ true c_ false c_ true, f1 ? p1 : nullptr c_ r1 c_ c1 + 1 c_ false c_ false c_ true, f2 ? p2 : nullptr c_ r2 c_ c2 + 1 c_ true c_ false c_ true, f3 ? p3 : nullptr c_ r3 c_ c3 + 1 c_ false c_ false c_ true)
#define RW(n, FL, S0, S1, Y0, Y1) bool vp_rws##n##_i(D* p0, D* p1, D* p2, D* p3, SH, FL) { S4 s; M4 m; mk(s.t.m_y[0], S0); mk(s.t.m_y[1], S1); mk(m.b, Y0); mk(m.d, Y1); return s.t.replace_Y_will_succeed(m.b, m.d); } \
 bool vp_rws##n##_s(D* p0, D* p1, D* p2, D* p3, SH, FL) { const Sx a{S0}, b{S1}, c{Y0}, d{Y1}; return fitY(a, b, c, d); }
RW(B, bool f0 c_ bool f2 c_ bool f3, p0 c_ r0 c_ c0 c_ false c_ f0 c_ true, p1 c_ r1 c_ c1 c_ false c_ f0 c_ true, p2 c_ r2 c_ c2 c_ false c_ f2 c_ true, p3 c_ r3 c_ c3 c_ false c_ f3 c_ true)
RW(E, bool f2 c_ bool f3 c_ bool g2 c_ bool g3, p0 c_ r0 c_ c0 c_ false c_ false c_ true, p1 c_ r1 c_ c1 c_ false c_ false c_ true, p2 c_ r2 c_ c2 + 1 c_ f2 c_ false c_ g2, p3 c_ r3 c_ c3 + 1 c_ f3 c_ false c_ g3)
RW(N, bool f2 c_ bool f3, p0 c_ r0 c_ c0 c_ false c_ false c_ true, p1 c_ r1 c_ c1 c_ false c_ false c_ true, f2 ? p2 : nullptr c_ r2 c_ c2 + 1 c_ false c_ false c_ true, f3 ? p3 : nullptr c_ r3 c_ c3 + 1 c_ false c_ false c_ true)
// ---------------------------------------------------------------- taking, replacing, handing out, dropping the data: each matrix goes to its own place and nothing is lost or kept twice
#define DATA D* p0, D* p1, D* p2, D* p3, int n0, int n1, int nw, int nu, bool b, bool b2
bool vp_abs_i(DATA, O* o, O* o2) { S4 s; M4 m; { S4 t; fill(t, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); t.t.extract(m.a, m.b, m.c, m.d); } const bool r = s.t.absorb(std::move(m.a), std::move(m.b), std::move(m.c), std::move(m.d)); obs(s.t, o); ob(m.a, o2); ob(m.b, o2 + 1); ob(m.c, o2 + 2); ob(m.d, o2 + 3); return r; }
bool vp_abs_s(DATA, O* o, O* o2) { exs(o, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); for (int i = 0; i < 4; ++i) non(o2 + i); return true; }
bool vp_absov_i(DATA, D* q0, D* q1, D* q2, D* q3, int n2, int n3, O* o) { S4 s, t; fill(s, q0, q1, q2, q3, n2, n3, nu, nw, false, false); fill(t, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); const bool r = s.t.absorb(std::move(t.t.train_x_mutable()), std::move(t.t.train_y_mutable()), std::move(t.t.test_x_mutable()), std::move(t.t.test_y_mutable())); obs(s.t, o); return r; }
bool vp_absov_s(DATA, D* q0, D* q1, D* q2, D* q3, int n2, int n3, O* o) { vp_afree(q0); vp_afree(q1); vp_afree(q2); vp_afree(q3); exs(o, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); return true; }
bool vp_absno_i(DATA, D* q0, D* q1, D* q2, D* q3, int n2, int n3, O* o, O* o2) { S4 s, t; fill(s, q0, q1, q2, q3, n2, n3, nu, nw, b, b2); fill(t, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); const bool r = s.t.absorb(std::move(t.t.train_x_mutable()), std::move(t.t.test_y_mutable()), std::move(t.t.test_x_mutable()), std::move(t.t.train_x_mutable())); obs(s.t, o); obs(t.t, o2); return r; }
bool vp_absno_s(DATA, D* q0, D* q1, D* q2, D* q3, int n2, int n3, O* o, O* o2) { exs(o, q0, q1, q2, q3, n2, n3, nu, nw, b, b2); exs(o2, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); return false; }
void vp_mvs_i(DATA, bool f, O* o, O* o2) { S4 s, t; fill(f ? t : s, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); s.t = std::move(t.t); obs(s.t, o); obs(t.t, o2); }
void vp_mvs_s(DATA, bool f, O* o, O* o2) { if (f) exs(o, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); else { vp_afree(p0); vp_afree(p1); vp_afree(p2); vp_afree(p3); for (int i = 0; i < 4; ++i) non(o + i); } for (int i = 0; i < 4; ++i) non(o2 + i); }
void vp_mvabs_i(DATA, O* o, O* o2) { S4 s, t; fill(t, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); s.t.absorb(std::move(t.t)); obs(s.t, o); obs(t.t, o2); } void vp_mvabs_s(DATA, O* o, O* o2) { exs(o, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); for (int i = 0; i < 4; ++i) non(o2 + i); }
void vp_mvself_i(DATA, O* o) { S4 s; fill(s, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); TS* q = &s.t; s.t = std::move(*q); obs(s.t, o); } void vp_mvself_s(DATA, O* o) { exs(o, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); }
bool vp_repY_i(DATA, D* q1, D* q3, int n2, bool f, O* o) { S4 s; M4 m; fill(s, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); mk(m.b, q1, f ? n2 : n0, f ? n0 : n2, false, f, true); mk(m.d, q3, f ? n2 : n1, f ? n1 : n2, false, f, true); const bool r = s.t.replace_Y(std::move(m.b), std::move(m.d)); obs(s.t, o); ob(m.b, o + 4); ob(m.d, o + 5); return r; }
bool vp_repY_s(DATA, D* q1, D* q3, int n2, bool f, O* o) { exs(o, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); vp_afree(p1); vp_afree(p3); sh(o + 1, q1, n0, n2, false, f); sh(o + 3, q3, n1, n2, false, f); non(o + 4); non(o + 5); return true; }
bool vp_repYno_i(DATA, D* q1, D* q3, int n2, bool f, O* o) { S4 s; M4 m; fill(s, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); mk(m.b, q1, f ? n2 : n0 + 1, f ? n0 + 1 : n2, false, f, true); m.b.m_bDontManageStorage = true; mk(m.d, q3, f ? n2 : n1, f ? n1 : n2, false, f, true); const bool r = s.t.replace_Y(std::move(m.b), std::move(m.d)); obs(s.t, o); ob(m.d, o + 5); return r; }
bool vp_repYno_s(DATA, D* q1, D* q3, int n2, bool f, O* o) { exs(o, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); if (f) ex(o + 5, q3, n2, n1, false, false, true, true); else ex(o + 5, q3, n1, n2, false, false, false, true); return false; }
void vp_extr_i(DATA, O* o, O* o2) { S4 s; M4 m; fill(s, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); s.t.extract(m.a, m.b, m.c, m.d); obs(s.t, o); ob(m.a, o2); ob(m.b, o2 + 1); ob(m.c, o2 + 2); ob(m.d, o2 + 3); }
void vp_extr_s(DATA, O* o, O* o2) { exs(o2, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); for (int i = 0; i < 4; ++i) non(o + i); }
void vp_clr_i(DATA, O* o) { S4 s; fill(s, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); s.t.clear(); obs(s.t, o); } void vp_clr_s(DATA, O* o) { vp_afree(p0); vp_afree(p1); vp_afree(p2); vp_afree(p3); for (int i = 0; i < 4; ++i) non(o + i); }
bool vp_emp_i(DATA, bool f0, bool f1, bool f2) { S4 s; fill(s, f0 ? nullptr : p0, f1 ? nullptr : p1, f2 ? nullptr : p2, p3, n0, n1, nw, nu, b, b); return s.t.empty(); } bool vp_emp_s(DATA, bool f0, bool f1, bool f2) { return f0 || f1 || f2; }
bool vp_emp3_i(DATA) { S4 s; fill(s, p0, p1, p2, nullptr, n0, n1, nw, nu, b, b); return s.t.empty(); } bool vp_emp3_s(DATA) { return true; }
bool vp_coh_i(DATA, bool f, bool g) { S4 s; fill(s, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); s.t.m_x[1].m_bBatchInRow = f; s.t.m_y[1].m_bBatchInRow = g; return s.t.samplesStorageCoherent(); } bool vp_coh_s(DATA, bool f, bool g) { return b == b2 && b == f && b == g; }
bool vp_cohX_i(DATA, bool f, bool g) { S4 s; fill(s, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); s.t.m_x[1].m_bBatchInRow = f; s.t.m_y[1].m_bBatchInRow = g; return s.t.samplesXStorageCoherent(); } bool vp_cohX_s(DATA, bool f, bool g) { return b == f; }
bool vp_cohY_i(DATA, bool f, bool g) { S4 s; fill(s, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); s.t.m_x[1].m_bBatchInRow = f; s.t.m_y[1].m_bBatchInRow = g; return s.t.samplesYStorageCoherent(); } bool vp_cohY_s(DATA, bool f, bool g) { return b2 == g; }
// a copy holds equal values in storage of its own, or is refused as a whole
static inline bool vp_eq1(const D* p, const D* q, L n) { bool r = true; for (L i = 0; i < n; ++i) if (p[i] != q[i]) { r = false; break; } return r; }
void vp_acc_i(DATA, O* o) { S4 s; fill(s, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); ob(s.t.X(0), o); ob(s.t.Y(0), o + 1); ob(s.t.X(1), o + 2); ob(s.t.Y(1), o + 3); } void vp_acc_s(DATA, O* o) { exs(o, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); }
void vp_accm_i(DATA, O* o) { S4 s; fill(s, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); ob(s.t.X_mutable(0), o); ob(s.t.Y_mutable(0), o + 1); ob(s.t.X_mutable(1), o + 2); ob(s.t.Y_mutable(1), o + 3); ob(s.t.train_x_mutable(), o + 4); ob(s.t.train_y_mutable(), o + 5); ob(s.t.test_x_mutable(), o + 6); ob(s.t.test_y_mutable(), o + 7); } void vp_accm_s(DATA, O* o) { exs(o, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); exs(o + 4, p0, p1, p2, p3, n0, n1, nw, nu, b, b2); }
}
