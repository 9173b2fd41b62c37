#pragma once
#include <cmath>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <climits>
#include <array>
#include <vector>
#include <string>
#include <memory>
#include <functional>
#include <algorithm>
#include <numeric>
#include <mm_malloc.h>
#include <cstdio>
#include <chrono>
#include <bitset>
#include <atomic>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <shared_mutex>
#include <tuple>
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <iterator>
#include <exception>
#include <stdexcept>
#include <type_traits>
#include <optional>
#include <variant>
#define high_resolution_clock steady_clock
typedef int errno_t;
#define _DN_FLUSH 0x01000000
#define _DN_SAVE 0x0
#define _MCW_DN 0x03000000
#define _MCW_RC 0x300
#define _RC_CHOP 0x300
#define _RC_NEAR 0
#define _CW_DEFAULT 0x8001F
extern "C" errno_t _controlfp_s(unsigned int*, unsigned int, unsigned int) noexcept;
template<typename... A> inline int printf_s(const char* f, A... a){ return printf(f, a...); }
template<typename... A> inline int sprintf_s(char* b, size_t n, const char* f, A... a){ return snprintf(b,n,f,a...); }
template<size_t n, typename... A> inline int sprintf_s(char (&b)[n], const char* f, A... a){ return snprintf(b,n,f,a...); }
inline errno_t fopen_s(FILE** f, const char* n, const char* m){ *f=fopen(n,m); return *f?0:1;}
inline errno_t rand_s(unsigned int*p){ *p=(unsigned)rand(); return 0;}
typedef unsigned long DWORD;
extern "C" void* vp_amalloc(size_t, size_t) noexcept; extern "C" void vp_afree(void*) noexcept;

inline size_t fread_s(void* b, size_t bs, size_t es, size_t c, FILE* f){ (void)bs; return fread(b,es,c,f);}
inline errno_t strcpy_s(char* d, size_t n, const char* s){ strncpy(d,s,n); return 0;}
namespace vp_shim { struct nullstream { template<typename T> const nullstream& operator<<(const T&)const noexcept{return *this;} const nullstream& operator<<(::std::ostream&(*)(::std::ostream&))const noexcept{return *this;} }; }
#define STDCOUT(args) ::vp_shim::nullstream{} << args
#define STDCOUTL(args) ::vp_shim::nullstream{} << args
// stand-in for the std::vector that holds the network's temporary memory: what it holds is a function of its size alone (the container's growth policy is not the library's)
extern "C" __attribute__((const)) void* vp_tmpmem(unsigned long bytes) noexcept;
namespace vp_shim {
template<class T> struct tmpvec {
	typedef T value_type; typedef T* iterator; typedef unsigned long size_type;
	T* p = nullptr; unsigned long n = 0;
	void resize(unsigned long m)noexcept { if (m != n) { n = m; p = static_cast<T*>(vp_tmpmem(sizeof(T)*m)); } }
	void resize(unsigned long m, const T&)noexcept { resize(m); } void assign(unsigned long m, const T&)noexcept { resize(m); } void reserve(unsigned long)noexcept {}
	void clear()noexcept { n = 0; } void shrink_to_fit()noexcept { if (!n) p = nullptr; } void swap(tmpvec& o)noexcept { const tmpvec t = *this; *this = o; o = t; }
	unsigned long size()const noexcept { return n; } unsigned long capacity()const noexcept { return n; } bool empty()const noexcept { return n == 0; }
	T* data()noexcept { return p; } const T* data()const noexcept { return p; } T* begin()noexcept { return p; } T* end()noexcept { return p + n; }
	T& operator[](unsigned long i)noexcept { return p[i]; } T& front()noexcept { return *p; }
};
}
