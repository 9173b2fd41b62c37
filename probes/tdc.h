#pragma once
// training data over caller memory: stand-in interfaces (iface.h) whose sample extraction and shuffling are opaque effects identified by their operands
#include <vector>
#include <string>
#include <functional>
#include <algorithm>
#include <numeric>
#include <exception>
#include <stdexcept>
#include <iostream>
#include <sstream>
#include <fstream>
#include <map>
#include <set>
#include <array>
#include <thread>
#include <mutex>
#include <future>
#include <condition_variable>
#include <deque>
#include <bitset>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/bitset.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/version.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/variant2/variant.hpp>
// exceptions (std::vector running out of memory) are outside the analysed behaviour
#define try if (true)
#define catch(...) if (false)
#define throw (void)
#include "iface.h"
extern "C" { void vp_ao_shuffle(int*, long, const void*); void vp_ao_extrRows(D*, L, L, const D*, L, L, const int*); void vp_ao_extrCols(D*, L, L, const D*, L, L, const int*); void vp_ao_extrBatches(D*, L, L, L, const D*, L, L, L, const int*); void vp_ao_extrSeq(D*, L, L, const D*, L, L, L); void vp_ao_tr(D*, L, L); void vp_mulc(); void vp_ao_mca(D*, D, D); int vp_rnd(const void*, int); }
namespace std { inline void random_shuffle(vector<int>::iterator b, vector<int>::iterator e, RR& r) { vp_ao_shuffle(b.base(), e - b, &r); } }
struct TM : public RM {
	template<class It> void mExtractBatches(const MX& s, const It& i, MX& d)noexcept { vp_ao_extrBatches(d.data(), d.rows_no_bias(), d.cols_no_bias(), d.bBatchInRow(), s.data(), s.rows_no_bias(), s.cols_no_bias(), s.bBatchInRow(), &*i); }
	template<class It> void mExtractRows(const MX& s, const It& i, MX& d)noexcept { vp_ao_extrRows(d.data(), d.rows(), d.cols_no_bias(), s.data(), s.rows(), s.cols_no_bias(), &*i); }
	template<class It> void mExtractCols(const MX& s, const It& i, MX& d)noexcept { vp_ao_extrCols(d.data(), d.rows_no_bias(), d.cols(), s.data(), s.rows_no_bias(), s.cols(), &*i); }
	void mExtractRowsSeq(const MX& s, const vec_len_t o, MX& d)noexcept { vp_ao_extrSeq(d.data(), d.rows(), d.cols_no_bias(), s.data(), s.rows(), s.cols_no_bias(), o); }
	void evMulCAddC_ip_nb(MX& A, D m, D o)noexcept { vp_ao_mca(A.data(), m, o); } template<class...A> void vMulCAddC_ip_st(A&&...)noexcept { vp_mulc(); } void evMulC_ip_nb(MX& A, D m)noexcept { vp_ao_mca(A.data(), m, 0); } template<class...A> void vMulC_ip_st(A&&...)noexcept { vp_mulc(); } void evAddC_ip_nb(MX& A, D m)noexcept { vp_ao_mca(A.data(), 1, m); } template<class...A> void vAddC_ip_st(A&&...)noexcept { vp_mulc(); } template<class...A> void evMulCAddC_ip(A&&...)noexcept { vp_mulc(); }
	static void s_mTranspose_ip(MD& A)noexcept { vp_ao_tr(A.data(), A.rows(), A.cols()); }
};
#include "nntl/serialization/serialization.h"
#include "nntl/train_data/inmem_train_data.h"
#include "nntl/train_data/transf_train_data.h"
#include "nntl/utils/dataHolder.h"
struct IFT { typedef ::real_t real_t; typedef StubThreads iThreads_t; typedef imem::imemmgr iMemmgr_t; typedef TM iMath_t; typedef RR iRng_t; typedef RI iInspect_t; };
typedef nntl::_impl::common_nn_data<IFT> CD; typedef inmem_train_data<D, D> TD; typedef inmem_train_data_stor<D, D> TS;
static inline void setv(std::vector<int>& v, int* b, L n) { v._M_impl._M_start = b; v._M_impl._M_finish = v._M_impl._M_end_of_storage = b ? b + n : nullptr; }
// the observable state of a matrix
struct O { const void* p; L r, c, e, h, b, own; };
static inline void ob(const MX& A, O* o) { o->p = A.data(); o->r = A.rows(); o->c = A.cols(); o->e = A.emulatesBiases(); o->h = A.hasHoleyBiases(); o->b = A.bBatchInRow(); o->own = !A.bDontManageStorage(); }
static inline void ex(O* o, const void* p, L r, L c, bool e, bool h, bool b, bool own) { o->p = p; o->r = r; o->c = c; o->e = e; o->h = h; o->b = b; o->own = own; }
// a set of n samples of w values (with the bias when e), one per row (or per column when b)
static inline void ds(MD& A, D* p, int n, int w, bool e, bool b) { if (b) A.useExternalStorage(p, w + e, n, e, false, true); else A.useExternalStorage(p, n, w + e, e, false, false); }
// training sets of n0 / n1 samples, w inputs, u outputs; batch buffers of m samples, index vector of n0 entries
struct Cfg { D *x0, *y0, *x1, *y1, *bx, *by; int n0, n1, w, u, m; bool b; int* idx; };
struct St { L px, py, mF, mT, cur, set, mini, n; };
struct TDh { TM m; RR rr; RI ii; bool blk; CD cd; TD t;
	TDh(const Cfg& f)noexcept : blk(false), cd(m, rr, ii, blk) {
		ds(t.m_x[0], f.x0, f.n0, f.w, true, f.b); ds(t.m_x[1], f.x1, f.n1, f.w, true, f.b); ds(t.m_y[0], f.y0, f.n0, f.u, false, f.b); ds(t.m_y[1], f.y1, f.n1, f.u, false, f.b);
		if (f.bx) { ds(t.m_batch_x, f.bx, f.m, f.w, true, f.b); ds(t.m_batch_y, f.by, f.m, f.u, false, f.b); } setv(t.m_vSampleIdxs, f.idx, f.n0); }
	~TDh() { setv(t.m_vSampleIdxs, nullptr, 0); }
	L wx()const { const void* p = t.m_pCurBatchX; return !p ? 0 : p == static_cast<const MX*>(&t.m_batch_x) ? 1 : p == static_cast<const MX*>(&t.m_walkX) ? 2 : p == static_cast<const MX*>(&t.m_x[0]) ? 3 : p == static_cast<const MX*>(&t.m_x[1]) ? 4 : 5; }
	L wy()const { const void* p = t.m_pCurBatchY; return !p ? 0 : p == static_cast<const MX*>(&t.m_batch_y) ? 1 : p == static_cast<const MX*>(&t.m_walkY) ? 2 : p == static_cast<const MX*>(&t.m_y[0]) ? 3 : p == static_cast<const MX*>(&t.m_y[1]) ? 4 : 5; }
	void st(St* s)const { s->px = wx(); s->py = wy(); s->mF = t.m_maxFPropSize; s->mT = t.m_maxTrainBatchSize; s->cur = t.m_curBatchSize; s->set = t.m_curDataset2Walk; s->mini = t.m_bMiniBatchTraining; }
};
#define CFG D *x0, D *y0, D *x1, D *y1, D *bx, D *by, int n0, int n1, int nw, int nu, int nm, bool b, int* idx
#define C_ Cfg{x0, y0, x1, y1, bx, by, n0, n1, nw, nu, nm, b, idx}
static inline void biases(D* p, L n, L w, bool b) { if (b) for (L j = 0; j < n; ++j) p[w + j*(w + 1)] = D(1); else for (L i = 0; i < n; ++i) p[i + w*n] = D(1); }
