#pragma once
// smatrix / smatrix_deform: what every public member does to size, flags, storage and elements
#ifndef NTYPE
#define NTYPE double
#endif
#include "nntl/_defs.h"
#include "nntl/common.h"
#include "nntl/math.h"
#include "nntl/interface/math/smatrix.h"
using namespace nntl; using namespace nntl::math;
typedef NTYPE D; typedef long L; typedef smatrix<D> MX; typedef smatrix_deform<D> MD;
#define AL (utils::mem_align_for<D>())
#ifndef VP_ISFLT
#define VP_ISFLT 1
#endif
#define X5 D* p, int r, int c, bool e, bool h
extern "C" {
// observable state of a matrix
struct O { const void* p; L r, c, e, h, b, own, sz, fail; };
static inline void ob(const MX& A, O* o) { o->p = A.empty() ? nullptr : (const void*)A.begin(); o->r = A.empty() ? 0 : A.rows(); o->c = A.empty() ? 0 : A.cols(); o->fail = A.isAllocationFailed(); o->e = A.emulatesBiases(); o->h = A.empty() ? 0 : A.hasHoleyBiases(); o->b = A.bBatchInRow(); o->own = A.bOwnStorage(); }
static inline void ex(O* o, const void* p, L r, L c, bool e, bool h, bool b, bool own) { o->p = p; o->r = p ? r : 0; o->c = p ? c : 0; o->fail = !p && r > 0 && c > 0; o->e = e; o->h = p ? (e && h) : 0; o->b = b; o->own = own; }
#define X6 D* p, int r, int c, bool e, bool h, bool b
#define A6 MX A(p, r, c, e, h, b)
#define B6 MD A(p, r, c, e, h, b)
