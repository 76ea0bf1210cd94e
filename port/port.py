#!/usr/bin/env python3
"""port.py SRC DST: a copy of SRC (the nntl header tree) in which MSVC-only spellings are made
acceptable to clang.  Purely syntactic: declarations only, no statement is touched.
port.py --small SRC DST: additionally divides the data sizes at which operations become multi-threaded (tuning constants in
*_thr.h) by about 1000, so that small data exercises the multi-threaded code."""
import sys,os,re,shutil
small='--small' in sys.argv; sys.argv=[a for a in sys.argv if a!='--small']
src,dst=sys.argv[1],sys.argv[2]
def shrink(m):
    try: v=eval(m.group(2).replace('/','//'),{'__builtins__':{}})
    except Exception: return m.group(0)
    return m.group(0) if v<60 else '%s%d;'%(m.group(1),max(2,v//1000))

# names that MSVC finds by unqualified lookup in a dependent base class, injected right after the class head
LA='using typename math::smatrix_td::mtx_size_t; static constexpr bool calcOnFprop=%s::calcOnFprop; static constexpr bool appendToNZGrad=%s::appendToNZGrad;'
la='_impl::scaled_addendum_with_mtx4fprop<RealT, bCalcOnFProp, bAppendToNZGrad, %s>'
INJECT={
 ('mathn.h','_MathN'): 'typedef FinalPolymorphChild self_t; template<typename T> using converter_reduce_data_tpl = typename iThreadsT::template converter_reduce_data_t<T>; static constexpr auto mrw_cw=_SMath<RealT, iThreadsT, iMemmgrT, ThresholdsT, FinalPolymorphChild>::mrw_cw; static constexpr auto mrw_rw=_SMath<RealT, iThreadsT, iMemmgrT, ThresholdsT, FinalPolymorphChild>::mrw_rw;',
 ('_i_loss_addendum.h','_i_loss_addendum'):'static constexpr bool calcOnFprop=false; using typename math::smatrix_td::mtx_size_t;',
 ('_i_loss_addendum.h','scaled_addendum_with_mtx4fprop<RealT, true, bAppendToNZGrad, bDependsOnManyElements>'):'using typename math::smatrix_td::mtx_size_t;',
 ('L1.h','L1'):LA%(la%'false',la%'false'),
 ('L2.h','L2'):LA%(la%'false',la%'false'),
 ('DeCov.h','DeCov'):LA%(la%'true',la%'true'),
 ('workers.h','Workers'):'template<typename T> using converter_reduce_data_t = typename _i_threads<RealT, RangeT>::template converter_reduce_data_t<T>;',
 ('nnet.h','nnet'):'using typename _impl::interfaces_keeper<typename LayersPack::interfaces_t>::iMath_t; using typename _impl::interfaces_keeper<typename LayersPack::interfaces_t>::real_t; using typename _impl::interfaces_keeper<typename LayersPack::interfaces_t>::iThreads_t;',
 ('layers.h','layers'):'typedef interfaces_td<typename ::std::remove_reference<typename ::std::tuple_element<0, ::std::tuple<Layrs&...>>::type>::type::interfaces_t> _p_td; using typename _p_td::iMath_t; using typename _p_td::real_t;',
 ('pack_horizontal_optional.h','_LPHO'):'static constexpr size_t phl_count=_impl::_LPH_base<FinalPolymorphChild, PHLsTuple>::phl_count;',
 ('matfile.h','_matfile'):'using typename _matfile_base<ErrorsClassT>::FileOpenMode;',
 ('dumper.h','_dumper_base'):'using typename _impl::_base<RealT>::real_t; using typename _impl::_base<RealT>::realmtx_t; typedef DataSetsId::data_set_id_t data_set_id_t; static constexpr layer_index_t _NoLayerIdxSpecified=layer_index_t(-1); static constexpr data_set_id_t invalid_set_id=DataSetsId::invalid_set_id;',
 ('dumper.h','_dumper'):'using typename _impl::_base<RealT>::real_t; using typename _impl::_base<RealT>::realmtx_t; typedef ArchiveT archive_t;',
 ('_td_norm.h','_Norm_whole'):'typedef FinalT self_t;',
 ('_td_norm.h','_Norm_cw'):'typedef FinalT self_t;',
 ('common_nn_data.h','interfaces_keeper'):'static constexpr bool bAllowToBlockLearning=common_nn_data<InterfacesT>::bAllowToBlockLearning;',
}
def inject(t,cls,code):
    m=re.search(r'\b(?:class|struct)\s+'+re.escape(cls)+r'(?![\w<])[^;{}]*\{',t)
    if not m: return t
    return t[:m.end()]+' public: '+code+' '+('private:' if re.match('class',m.group(0)) else '')+t[m.end():]
def port(rel,t):
    b=os.path.basename(rel)
    # using base::type_t;  -> using typename base::type_t;
    t=re.sub(r'\busing\s+(?!typename\b)((?:[\w]+(?:<[\w, ]*>)?::)+\w+_t\s*;)',r'using typename \1',t)
    # MSVC accepts storage/constexpr specifiers inside a type-id
    t=re.sub(r'(enable_if_t<[^;{}]*?,\s*)(?:static|constexpr) (void|bool)\s*>',r'\1\2>',t)
    # dataset ids as default arguments, found by MSVC in a dependent base
    t=re.sub(r'(=\s*)(train_set_id|test_set_id|flag_exclude_nothing)(\s*[,)])',r'\1DataSetsId::\2\3',t)
    t=re.sub(r'static_assert\([^;"]*_set_id\b[^;"]*,',lambda m:re.sub(r'\b(train_set_id|test_set_id)\b',r'DataSetsId::\1',m.group(0)),t)
    t=re.sub(r'static_assert\([^;"]*bActivationFor[^;]*;','',t)
    # interface checks that name a dependent base through its injected class name
    t=re.sub(r'::std::is_base_of<\s*_i_\w+\s*,\s*\w+\s*>::value','true',t)
    # obj.member<...>(  ->  obj.template member<...>(
    t=re.sub(r'(?<=[\w\)\]])(\.|->)(?!template\b)([A-Za-z_]\w*<(?:[\w:, ]|<[\w:, ]*>)*>\s*\()',r'\1template \2',t)
    t=re.sub(r'\bThresholds_t::(?!template\b)(\w+\s*<(?:[\w:, ]|<[\w:, ]*>)*>::(?:v|thr)\b)',r'Thresholds_t::template \1',t)
    t=re.sub(r'\b\w+::_Get_container\(\)','this->c',t)
    t=re.sub(r'(?<![\w:.>])mtx_size_t\(',r'::nntl::math::smatrix_td::mtx_size_t(',t)
    t=re.sub(r'(?<!typename )\brealmtx_t::tag_noBias\(',r'::nntl::math::tag_noBias(',t)
    # default template arguments that need the complete final class: MSVC evaluates them late
    t=re.sub(r'template\s*<\s*bool (\w+) = (is_layer_\w+)<self_t>::value\s*>',r'template<typename SimDelay_t = self_t, bool \1 = \2<SimDelay_t>::value>',t)
    t=re.sub(r'=\s*(?:typename )?self_t::((?:template )?\w+[^;{}=]*)',lambda m: '= typename ::sim_delay<self_t,CommonDataT>::type::'+m.group(1) if re.match(r'(template NormalizerF_tpl|default_StatsFuncT)',m.group(1)) else m.group(0),t)
    # case labels / names of DataSetsId used in lambdas inside a template with a dependent base
    t=re.sub(r'\bcase (train_set_id|test_set_id)\b',r'case DataSetsId::\1',t)
    # names of dependent bases used inside generic lambdas
    if rel.startswith('layer'): t=re.sub(r'(?<![\w:.>])ErrorCode::',r'::nntl::_nnet_errs::ErrorCode::',t)
    t=re.sub(r'(?<![\w:.>])realmtx_t::sNumel\(',r'::nntl::math::smatrix_td::sNumel(',t)
    if b=='_layer_base.h': t=re.sub(r'(?<![\w.>:])get_self\(\)(?!\s*(?:const|noexcept))',r'this->get_self()',t)
    t=re.sub(r'(?<![\w:])decltype\((\w+)\)::(?=\w+_t\b)',r'typename decltype(\1)::',t)
    if b=='serialization.h':
        t=re.sub(r'(?<![\w:])nvp(\s*&\s*(?:rhs|>))',r'nvp<T>\1',t)
        t=re.sub(r'static_cast<const nvp&>',r'static_cast<const nvp<T>&>',t)
        t=re.sub(r':\s*nvp\(',r': nvp<T>(',t)
    if b=='smatrix.h':
        i=re.search(r'^[ \t]*class smatrix_deform\b',t,re.M)
        if i: t=t[:i.start()]+re.sub(r'\bsmatrix(&&?)',r'smatrix<T_>\1',t[i.start():])
    if b=='_sync_primitives.h':
        t=re.sub(r'(\n[ \t]*struct _sync_base\b)',r'\n#if !NNTL_HAS_NATIVE_SRWLOCKS_AND_CODITIONALS\nstruct win_srwlock; struct win_condition_var;\n#endif\n\1',t,1)
    for (f,c),code in INJECT.items():
        if f==b: t=inject(t,c,code)
    return t
if os.path.exists(dst): shutil.rmtree(dst)
for d,_,fs in os.walk(src):
    for f in fs:
        p=os.path.join(d,f); r=os.path.relpath(p,src); q=os.path.join(dst,r)
        os.makedirs(os.path.dirname(q),exist_ok=True)
        if f.endswith('.h'):
            t=open(p,encoding='latin-1',newline='').read()
            if small and f.lower().endswith('_thr.h'): t=re.sub(r'(=\s*)(\d[\d\s*/]*);',shrink,t)
            open(q,'w',encoding='latin-1',newline='').write(port(r,t))
try: os.symlink('afrand_mt_thr.h',dst+'/interface/rng/AFRAND_MT_THR.h')
except FileExistsError: pass
