#pragma once
#include "vec.h"
#include <stack>
#include <map>
#include <list>
// std::stack / std::map / std::list by their specification over abstract arrays
namespace std {
	template<typename T, typename C> class vp_stack { public: C c; typedef unsigned long size_type; typedef T value_type;
		void push(const T& v) { c.push_back(v); } void pop() { c.pop_back(); } T& top() { return c.back(); } const T& top() const { return c.back(); } size_type size() const { return c.size(); } bool empty() const { return c.empty(); } const C& _Get_container() const { return c; } };
	template<typename K, typename V> class vp_map { public: bool* has; V* val; struct iterator { K k; bool operator==(const iterator& o)const{return k==o.k;} bool operator!=(const iterator& o)const{return k!=o.k;} };
		unsigned long count(const K& k) const { return has[k]; } V& at(const K& k) { return val[k]; } const V& at(const K& k) const { return val[k]; } V& operator[](const K& k) { has[k] = true; return val[k]; } ~vp_map() {} };
	template<typename T> class vp_list { public: T* slot; bool* alive; unsigned long n; bool hasFront; T* frontSlot;
		typedef T* iterator; typedef const T* const_iterator; bool empty() const { return !hasFront; } T& front() { return *frontSlot; } const T& front() const { return *frontSlot; } T* end() { return nullptr; }
		void pop_front() { hasFront = false; } void push_front(const T& v) { *frontSlot = v; hasFront = true; } template<typename... A> void emplace_front(A&&... a) { *frontSlot = T(static_cast<A&&>(a)...); hasFront = true; }
		T* insert(T*, const T& v) { slot[n] = v; alive[n] = true; return slot + n++; } void erase(T* it) { alive[it - slot] = false; } ~vp_list() {} };
	template<typename I, typename G> void random_shuffle(I b, I e, G& g) noexcept { g.vp_shuffled(b, e); }
}
#define stack vp_stack
#define map vp_map
#define list vp_list
#include "kern.h"
#include "nntl/utils/vector_conditions.h"
#include "nntl/utils/bwlist.h"
#include "nntl/utils/own_or_use_ptr.h"
#include "nntl/utils/layer_idx_keeper.h"
#include "nntl/utils/layers_settings.h"
#include "nntl/utils/dataHolder.h"
using namespace nntl::utils;
typedef std::vector<bool> VB;
struct VC : public vector_conditions { using vector_conditions::m_flgEvalPerf; };
struct BW : public _bwlist<D> { using _bwlist<D>::m_dumpLayerCond; using _bwlist<D>::m_layerTypes; using _bwlist<D>::m_layerIdxs; using _bwlist<D>::m_bWhiteList; using _bwlist<D>::_bwlist_init; using _bwlist<D>::_bwlist_updateLayer; using _bwlist<D>::_bwlist_layerAllowed; VB& v() { return ((VC&)m_dumpLayerCond).m_flgEvalPerf; } };
typedef layer_index_t LI; typedef layer_type_id_t LT;
struct Vic { D x; ~Vic(); };
typedef layer_idx_keeper<LI, 7777, 10> LK;
struct VLK { LI* p; L n; };
typedef layer_settings<D> LS; struct VLS { D* slot; bool* alive; L n; bool hasFront; D* front; bool* has; D** val; };
