#pragma once
#include "nntl/_defs.h"
#include "nntl/common.h"
#include "nntl/math.h"
#include "nntl/interface/imemmgr/imemmgr.h"
#include "nntl/interface/_i_threads.h"
#include "nntl/interface/math/mathn.h"
using namespace nntl;
using nntl::math::smatrix; using nntl::math::smatrix_deform; using nntl::math::s_rowcol_range; using nntl::math::s_elems_range;
typedef NTYPE real_t;
// stand-in worker pool: every functor runs as a job of worker 0 on some part [vp_po, vp_po+vp_pn) of the range; the parts of all jobs tile the range (lib/summ.py: lift)
#ifdef VP_WHOLE
#define VP_PART(c) par_range_t(c)
#else
extern "C" { __attribute__((const)) numel_cnt_t vp_po(numel_cnt_t); __attribute__((const)) numel_cnt_t vp_pn(numel_cnt_t); }
#define VP_PART(c) par_range_t(vp_po(c), vp_pn(c), 0)
#endif
struct StubThreads : public threads::_i_threads<real_t, numel_cnt_t> {
	typedef threads::_i_threads<real_t, numel_cnt_t> B;
	typedef B::range_t range_t; typedef B::par_range_t par_range_t; typedef B::reduce_data_t reduce_data_t;
	template<typename T> using converter_reduce_data_t = B::converter_reduce_data_t<T>;
	static thread_id_t workers_count()noexcept { return 4; }
	thread_id_t cur_workers_count()const noexcept { return 4; }
	bool denormalsOnInAnyThread()noexcept { return false; }
#ifdef VP_SPLIT // two jobs: the first element, the rest (for loops over a constant range that are evaluated iteration by iteration)
	template<typename F> void run(F&& f, const range_t cnt, const thread_id_t n = 0, thread_id_t* pu = nullptr)noexcept { if(pu) *pu = cnt > 1 ? 2 : 1; f(par_range_t(0, 1, 0)); if (cnt > 1) f(par_range_t(1, cnt - 1, 1)); }
#else
	template<typename F> void run(F&& f, const range_t cnt, const thread_id_t n = 0, thread_id_t* pu = nullptr)noexcept { if(pu) *pu = 1; f(VP_PART(cnt)); }
#endif
	template<typename F, typename FR> auto reduce(F&& f, FR&& fr, const range_t cnt, const thread_id_t n = 0)noexcept -> decltype(fr(static_cast<const reduce_data_t*>(nullptr), range_t(0))) {
		reduce_data_t r[1]; r[0] = f(VP_PART(cnt)); return fr(r, 1);
	}
};
