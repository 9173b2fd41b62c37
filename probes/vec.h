#pragma once
// std::vector by its specification, over an abstract growing array whose storage is never short (bool is stored as one byte per element)
#include <vector>
#include <initializer_list>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/variance.hpp>
extern "C" { void* vp_vec_storage(unsigned long bytes) noexcept; void vp_vec_release(void*) noexcept; }
namespace std {
#ifdef VP_VEC_INLINE	// vectors of at most VP_VEC_INLINE elements (the driver fixes the sizes): plain local storage
	template<typename T, typename A = void> class vp_vector {
	public:
		T q[VP_VEC_INLINE]; unsigned long n;
		vp_vector() noexcept : n(0) {} void resize(unsigned long k) { for (unsigned long i = 0; i < VP_VEC_INLINE; ++i) if (i >= n && i < k) q[i] = T(); n = k; } const T* begin() const noexcept { return q; } const T* end() const noexcept { return q + n; }
		explicit vp_vector(unsigned long k, const T& v = T()) : n(k) { for (unsigned long i = 0; i < k; ++i) q[i] = v; }
		unsigned long size() const noexcept { return n; }
		T* begin() noexcept { return q; } T* end() noexcept { return q + n; }
		T& operator[](unsigned long i) noexcept { return q[i]; } const T& operator[](unsigned long i) const noexcept { return q[i]; }
	};
#else
	template<typename T, typename A = void> class vp_vector {
	public:
		T* p; unsigned long n;
		typedef T value_type; typedef T* iterator; typedef const T* const_iterator; typedef unsigned long size_type; typedef T& reference; typedef const T& const_reference; typedef long difference_type; typedef T* pointer; typedef const T* const_pointer;
		vp_vector() noexcept : p(nullptr), n(0) {}
		explicit vp_vector(unsigned long k, const T& v = T()) : p(k ? (T*)vp_vec_storage(k * sizeof(T)) : nullptr), n(k) { for (unsigned long i = 0; i < k; ++i) p[i] = v; }
		vp_vector(vp_vector&& o) noexcept : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; }
		vp_vector(const vp_vector& o) : p(o.n ? (T*)vp_vec_storage(o.n * sizeof(T)) : nullptr), n(o.n) { for (unsigned long i = 0; i < n; ++i) p[i] = o.p[i]; }
		vp_vector& operator=(vp_vector&& o) noexcept { T* q = p; p = o.p; n = o.n; o.p = nullptr; o.n = 0; if (q) vp_vec_release(q); return *this; }
		vp_vector& operator=(const vp_vector& o) { if (o.n > n) { if (p) vp_vec_release(p); p = (T*)vp_vec_storage(o.n * sizeof(T)); } n = o.n; for (unsigned long i = 0; i < n; ++i) p[i] = o.p[i]; return *this; }
		~vp_vector() { if (p) vp_vec_release(p); }
		unsigned long size() const noexcept { return n; } bool empty() const noexcept { return n == 0; }
		T* begin() noexcept { return p; } T* end() noexcept { return p + n; } const T* begin() const noexcept { return p; } const T* end() const noexcept { return p + n; }
		const T* cbegin() const noexcept { return p; } const T* cend() const noexcept { return p + n; }
		T* data() noexcept { return p; } const T* data() const noexcept { return p; }
		T& operator[](unsigned long i) noexcept { return p[i]; } const T& operator[](unsigned long i) const noexcept { return p[i]; }
		T& front() noexcept { return p[0]; } T& back() noexcept { return p[n - 1]; } const T& front() const noexcept { return p[0]; } const T& back() const noexcept { return p[n - 1]; }
		void clear() noexcept { n = 0; }
		void reserve(unsigned long) {}
		void push_back(const T& v) { p[n] = v; ++n; } void pop_back() { --n; }
		template<typename... A2> T& emplace_back(A2&&... a) { p[n] = T(static_cast<A2&&>(a)...); return p[n++]; }
		void resize(unsigned long k, const T& v = T()) { for (long i = (long)n; i < (long)k; ++i) p[i] = v; n = k; }
	};
#endif
	template<typename I, typename F> bool vp_any_of(I b, I e, F f) { bool r = false; for (; b != e; ++b) r = r || f(*b); return r; }
	template<typename I, typename F> bool vp_all_of(I b, I e, F f) { bool r = true; for (; b != e; ++b) r = r && f(*b); return r; }
	template<typename I, typename F> bool vp_none_of(I b, I e, F f) { return !vp_any_of(b, e, f); }
	template<typename I, typename F> I vp_find_if(I b, I e, F f) { for (; b != e; ++b) if (f(*b)) break; return b; }
	template<typename I, typename T> I vp_find(I b, I e, const T& v) { for (; b != e; ++b) if (*b == v) break; return b; }
}
#include <algorithm>
#define any_of vp_any_of
#define all_of vp_all_of
#define none_of vp_none_of
#define find_if vp_find_if
#define vector vp_vector
