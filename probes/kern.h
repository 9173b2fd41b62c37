#pragma once
// common vocabulary of the kernel probes
#ifndef NTYPE
#define NTYPE double
#endif
#include "stub.h"
// scratch storage of the math object: stand-in stack of opaque buffers; anything but a strictly nested release is an opaque effect
extern "C" { extern real_t vp_tmp0[], vp_tmp1[], vp_tmp2[]; void vp_bad_release(long); }
#ifndef VP_BLAS
#define VP_BLAS math::b_OpenBLAS
#endif
class MN final : public math::_MathN<real_t, StubThreads, imem::imemmgr, math::_impl::MATHN_THR<real_t>, MN, VP_BLAS> {
public:
	long vp_depth;
	void vp_reset() { vp_depth = 0; }
	real_t* _istor_alloc(const numel_cnt_t n)noexcept { const long d = vp_depth++; return d == 0 ? vp_tmp0 : (d == 1 ? vp_tmp1 : vp_tmp2); }
	void _istor_free(real_t* const p, const numel_cnt_t n)noexcept {
		const long d = --vp_depth;
		if (p != (d == 0 ? vp_tmp0 : (d == 1 ? vp_tmp1 : vp_tmp2))) vp_bad_release(d);
	}
};
typedef smatrix<real_t> MX; typedef smatrix_deform<real_t> MD; typedef long L; typedef real_t D;
// a matrix over caller storage: plain / with a trailing (holey) bias column
#define MTX(X, p, r, c) MX X(const_cast<D*>(p), r, c, false, false)
#define MTXB(X, p, r, c) MX X(const_cast<D*>(p), r, (c)+1, true, true)
#define MTD(X, p, r, c) MD X(const_cast<D*>(p), r, c, false, false)
#define MTDB(X, p, r, c) MD X(const_cast<D*>(p), r, (c)+1, true, true)
