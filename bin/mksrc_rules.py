def sub(pat, rep, flags=re.S):
    return lambda s: re.sub(pat, rep, s, flags=flags)
rule('nntl/interface/math/mathn.h')(inject_after(
  r'typedef _SMath<RealT, iThreadsT, iMemmgrT, ThresholdsT, FinalPolymorphChild> base_class_t;',
  'using base_class_t::mrw_cw; using base_class_t::mrw_rw; using typename base_class_t::iThreads_t; using typename base_class_t::self_t;'))
rule('nntl/utils/options.h')(sub(r',\s*constexpr bool>', ', bool>'))
rule('nntl/serialization/serialization.h')(sub(r'nvp\(static_cast<const nvp&>\(rhs\)\)', 'nvp<T>(static_cast<const nvp<T>&>(rhs))'))
rule('nntl/serialization/serialization.h')(sub(r'named_struct\(const nvp & rhs\) : nvp\(rhs\)', 'named_struct(const nvp<T> & rhs) : nvp<T>(rhs)'))
rule('nntl/serialization/serialization.h')(sub(r': nvp\(name_, t\)', ': nvp<T>(name_, t)'))
# default arguments naming an enumerator/constant of a dependent base
for _f in ('_train_data_simple', 'inmem_train_data', 'transf_train_data', '_td_base', '_td_norm'):
    rule('nntl/train_data/%s.h' % _f)(sub(r'= (flag_exclude_nothing|train_set_id|test_set_id|invalid_set_id)\b(?=\s*[,)])', r'= DataSetsId::\1'))
for _f in ('sigm', 'identity'):
    rule('nntl/activations/%s.h' % _f)(sub(r'#pragma once', '#pragma once\n#include "../interfaces.h"\n#line 2') if 0 else (lambda s: s))
rule('nntl/interface/rng/afrand_mt.h')(sub(r'"AFRAND_MT_THR\.h"', '"afrand_mt_thr.h"'))
rule('nntl/common_nn_data.h')(sub(r'template<bool B = bAllowToBlockLearning>', 'template<bool B = _impl::common_nn_data<InterfacesT>::bAllowToBlockLearning>'))
rule('nntl/common_nn_data.h')(sub(r'::std::enable_if_t<!B, static void> (_\w+)\(\) noexcept \{(\s*)static_assert\(false,', r'static ::std::enable_if_t<!B, void> \1() noexcept {\2static_assert(B,'))
rule('nntl/loss_addendum/_i_loss_addendum.h')(sub(r'bool c = calcOnFprop>', 'bool c = false>'))
rule('nntl/loss_addendum/_i_loss_addendum.h')(sub(r'(math::smatrix_deform<RealT> m_Mtx;)', r'\1 typedef math::smatrix_td::mtx_size_t mtx_size_t;'))
for _c in ('L1', 'L2', 'DeCov'):
    rule('nntl/loss_addendum/%s.h' % _c)(sub(r'(class %s : public (_impl::scaled_addendum_with_mtx4fprop<[^>]*>)\s*\{\s*public:)' % _c, r'\1 typedef \2 vp_base_t; using vp_base_t::calcOnFprop; using vp_base_t::appendToNZGrad;'))
rule('nntl/nnet.h')(sub(r'"\.\./\.\./nntl/nntl/_supp/io/matfile\.h"', '"_supp/io/matfile.h"'))
rule('nntl/nnet.h')(sub(r'::std::vector<real_t> m_pTmpStor;', '::vp_shim::tmpvec<real_t> m_pTmpStor;'))
rule('nntl/layers.h')(sub(r'typedef typename iMath_t::(realmtx\w*) ', r'typedef typename output_layer_t::iMath_t::\1 '))
rule('nntl/layer/fully_connected.h')(sub(r'static_assert\(bActivationForHidden,', r'using _base_class_t::bActivationForHidden; static_assert(bActivationForHidden,'))
rule('nntl/layer/output.h')(sub(r'static_assert\(bActivationForOutput', r'using _base_class_t::bActivationForHidden; using _base_class_t::bActivationForOutput; static_assert(bActivationForOutput'))
rule('nntl/layer/pack_horizontal_optional.h')(sub(r'(gated_layers_count = )phl_count', r'\1_impl::_LPH_base<FinalPolymorphChild, PHLsTuple>::phl_count'))
rule('nntl/layer/pack_horizontal_optional.h')(sub(r'(?<![\w:])realmtx_t::sNumel\(', '_base_class_t::realmtx_t::sNumel('))
rule('nntl/layer/pack_horizontal_optional.h')(sub(r'<< get_layer_name_str\(\)', '<< get_self().get_layer_name_str()'))
rule('nntl/loss_addendum/DeCov.h')(sub(r'(, true> _base_class_t;\s*public:)', r'\1 using _base_class_t::calcOnFprop; using _base_class_t::appendToNZGrad;'))
for _f in ('nnet_evaluator', 'training_observer'):
    rule('nntl/%s.h' % _f)(sub(r'(static_assert\([^;]*;)', None) if 0 else (lambda s: re.sub(r'static_assert\([^;]*?_set_id[^;]*?;', lambda m: re.sub(r'(?<!::)\b(train|test)_set_id', r'DataSetsId::\1_set_id', m.group(0)), s)))
rule('nntl/nnet.h')(sub(r'typedef typename iMath_t::(realmtx\w*) ', r'typedef typename LayersPack::iMath_t::\1 '))
rule('nntl/interface/threads/workers.h')(sub(r'typedef converter_reduce_data_t<', 'typedef typename _i_threads<RealT, RangeT>::template converter_reduce_data_t<'))
rule('nntl/train_data/_td_base.h')(sub(r'is_base_of<_i_train_data, FinalPolymorphChild>', 'is_base_of<_i_train_data<XT,YT>, FinalPolymorphChild>'))
rule('nntl/train_data/_td_base.h')(sub(r'case (train|test)_set_id:', r'case DataSetsId::\1_set_id:'))
rule('nntl/train_data/_td_base.h')(sub(r'typename StatsFuncT = typename self_t::default_StatsFuncT', r'typename StatsFuncT = utils::mtx2Normal::_FNorm_stats_var_mean<true>'))
rule('nntl/train_data/_td_base.h')(sub(r'self_t::template NormalizerF_tpl<', r'_impl::td_norm<XT, '))
rule('nntl/train_data/transf_train_data.h')(sub(r'= self_t::template NormalizerF_tpl<', r'= _impl::td_norm<typename TFuncT::x_t, '))
rule('nntl/interface/math/_mcwFindKOrdered_hlpr.h')(sub(r'(class mcwFindKOrdered_hlpr : public mcwFindKOrdered_hlpr_base<SrcT> \{\s*typedef mcwFindKOrdered_hlpr_base<SrcT> _base_t;)', r'\1 public: typedef typename _base_t::hlprmtx_t hlprmtx_t; typedef typename _base_t::srcmtx_t srcmtx_t; typedef typename _base_t::src_value_t src_value_t; typedef typename _base_t::idxs_t idxs_t; typedef typename _base_t::value_t value_t; using _base_t::get_k; using _base_t::get_cache_ptr_from_column_ptr; using _base_t::get_idxs_ptr_from_column_ptr; private:'))
rule('nntl/train_data/_td_norm.h')(sub(r'(typedef utils::mtx2Normal::_FNorm_(?:whole|cw)_base<FinalT, x_t, StatsFunctor_t, stats_t> _base_t;\s*typedef _NormBase<TdT, CommonDataT> _nbase_t;)', r'\1 typedef typename _base_t::statsdata_t statsdata_t; typedef typename _base_t::self_t self_t; using _base_t::get_self; using _nbase_t::m_td; using _nbase_t::m_CD; using _nbase_t::m_Setts;'))
rule('nntl/train_data/_td_norm.h')(sub(r'\b(m_td|td)\.(_fix_\w+)<(?=typename|decltype)', r'\1.template \2<'))
rule('nntl/train_data/_td_norm.h')(sub(r'<decltype\(fn\)::mtx_update_t>', r'<typename decltype(fn)::mtx_update_t>'))
rule('nntl/utils/mtx2Normal.h')(sub(r'using StatsFunctor_t::mtx_update_t;', r'typedef typename StatsFunctor_t::mtx_update_t mtx_update_t;'))
rule('nntl/utils/mtx2Normal.h')(sub(r'(struct _FNorm_(?:whole|cw)_base : public _FNorm_base<FinalT, DataT, StatsFuncT, StatsT> \{)', r'\1 typedef StatsT statsdata_t; typedef FinalT self_t; typedef typename StatsFuncT::mtx_update_t mtx_update_t; using _FNorm_base<FinalT, DataT, StatsFuncT, StatsT>::get_self;'))
rule('nntl/train_data/_td_base.h')(sub(r'get_self\(\)\.(_(?:do_)?fix_\w+)<MtxUpdT>', r'get_self().template \1<MtxUpdT>'))
rule('nntl/layer/_layer_base.h')(sub(r'return get_self\(\)\._forwarder_layer', 'return this->get_self()._forwarder_layer'))
for _f in ('pack_vertical', '_lph_base', 'pack_tile', 'pack_horizontal_optional', '_penalized_activations_base'):
    rule('nntl/layer/%s.h' % _f)(sub(r'\bErrorCode::', '_nnet_errs::ErrorCode::'))
rule('nntl/layer/pack_vertical.h')(sub(r'init_layer\(get_layer_idx\(\), get_layer_name_str\(\), get_layer_type_id\(\)\)', 'init_layer(get_layer_idx(), get_self().get_layer_name_str(), get_self().get_layer_type_id())'))
# the functor of a scope guard held by value instead of in a std::function
rule('nntl/utils/scope_exit.h')(sub(r'struct scope_exit \{', 'template<class VpF> struct scope_exit {'))
rule('nntl/utils/scope_exit.h')(sub(r'template<typename FuncF>(\s*)scope_exit\(FuncF&& f\) : f_\(::std::forward<FuncF>\(f\)\)', r'\1scope_exit(VpF f) : f_(f)'))
rule('nntl/utils/scope_exit.h')(sub(r'::std::function<void\(void\)> f_;', r'VpF f_;'))
rule('nntl/layer/extender.h')(sub(r'(?<![\w:])mtx_size_t\(as', 'math::smatrix_td::mtx_size_t(as'))
