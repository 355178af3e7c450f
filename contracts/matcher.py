"""Contracts for path_matcher.h (properties C04, C06-C12)."""
TUS = ['path_matcher']
IMPORTS = ['percent', 'template', 'node']
SPECS = ['percent', 'template', 'node', 'matcher']
STRUCTS = ['VariableBinding', 'PathMatcher::MethodData']
CFG = {'fields': {'VariableBinding': ['field_path', 'value'],
                  'PathMatcher::MethodData': ['method', 'variables', 'body_field_path', 'system_query_parameter_names'],
                  'PathMatcher': ['root_ptr_', 'custom_verbs_', 'methods_', 'path_unescape_spec_', 'query_param_unescape_plus_', 'match_unregistered_custom_verb_'],
                  'PathMatcherBuilder': ['root_ptr_', 'custom_verbs_', 'methods_', 'path_unescape_spec_', 'query_param_unescape_plus_', 'match_unregistered_custom_verb_', 'fail_registration_on_duplicate_']},
       'addressed': {'PathMatcher::MethodData': 'methods_'}}

CONTRACTS = {
    'M_Parts': dict(qual='ExtractRequestParts', params=['path', 'verbs', 'verb', 'any'],
        requires=[],
        ensures=[('verb', '@verb =~= if has_verb(path, verbs, any) { req_verb(path, verbs, any) } else { verb }'), ('segments', 'r =~= req_parts(path, verbs, any)')],
        loops=['trim_empty($r:vec:Seq<u8>) == req_parts(path, verbs, any)', 'trim_to($r:vec:Seq<u8>, $n:pos) == req_parts(path, verbs, any)', '0 <= $n:pos <= $r:vec:Seq<u8>.len()'],
        hints=dict(entry=['lemma_finds();', 'lemma_sub_all::<u8>();', 'lemma_trim_all();'])),
    'M_PathBindings': dict(qual='ExtractBindingsFromPath', params=['vars', 'parts', 'spec', 'bindings'],
        requires=[('nn', 'bindings_nn'), ('mode_valid', '0 <= spec <= 2'), ('range', 'all_in_range(vars, parts.len() as int)')],
        ensures=[('appended', '@bindings =~= bindings + path_bindings(vars, parts, spec)')],
        loops=['0 <= $i:pos <= vars.len()', '@bindings.len() == bindings.len() + $i:pos', 'forall|k: int| 0 <= k < bindings.len() ==> #[trigger] @bindings[k] == bindings[k]',
               'forall|k: int| bindings.len() <= k < @bindings.len() ==> #[trigger] @bindings[k] == path_binding(vars[k - bindings.len()], parts, spec)',
               'bind_start(vars[$k:pos], parts.len() as int) <= $i:u64', '$i:u64 <= bind_end(vars[$k:pos], parts.len() as int)',
               'forall|k: int| bindings.len() <= k < @bindings.len() - 1 ==> #[trigger] @bindings[k] == path_binding(vars[k - bindings.len()], parts, spec)',
               '@bindings.len() == bindings.len() + $i:pos + 1', '@bindings.last().field_path == vars[$k:pos].field_path',
               '@bindings.last().value == joined_more(parts, bind_start(vars[$k:pos], parts.len() as int), $i:u64 as int, bind_end(vars[$k:pos], parts.len() as int), bind_mode(vars[$k:pos], parts.len() as int, spec))',
               '@bindings.last().value == joined(parts, bind_start(vars[$k:pos], parts.len() as int), $i:u64 as int, bind_mode(vars[$k:pos], parts.len() as int, spec))',
               '$v:str == joined_more(parts, bind_start(vars[$k:pos], parts.len() as int), $i:u64 as int, bind_end(vars[$k:pos], parts.len() as int), bind_mode(vars[$k:pos], parts.len() as int, spec))',
               '$v:str == joined(parts, bind_start(vars[$k:pos], parts.len() as int), $i:u64 as int, bind_mode(vars[$k:pos], parts.len() as int, spec))'],
        hints=dict(entry=['if parts.len() <= max_size() { lemma_abs_index(parts.len() as int); }'])),
    'M_QueryBindings': dict(qual='ExtractBindingsFromQueryParameters', params=['query', 'sys', 'plus', 'bindings'],
        requires=[('nn', 'bindings_nn')],
        ensures=[('appended', '@bindings =~= bindings + q_bindings(query, sys, plus)')],
        loops=['0 <= $i:pos <= $p:vec:Seq<u8>.len()', '@bindings =~= bindings + q_bindings_n($p:vec:Seq<u8>, $i:pos, sys, plus)'],
        hints=dict(entry=['lemma_finds();'])),
    'M_LookupNode': dict(qual='LookupInPathMatcherNode', params=['root', 'parts', 'key'],
        requires=[('trie', 'node_ok(root)')],
        ensures=[('most_specific', 'r == or_old(best(root, parts, 0, parts.len() as int, key), lr(0, false))')]),
    'M_Transform': dict(qual='TransformHttpTemplate', params=['ht'], requires=[], ensures=[('segments', 'r.path_ =~= ht.segments_')],
        loops=['$b:vec:Seq<u8> =~= ht.segments_.subrange(0, $i:pos)']),
}
PARTS = 'req_parts(path, self.custom_verbs_, self.match_unregistered_custom_verb_)'
KEY = 'http_method + req_verb(path, self.custom_verbs_, self.match_unregistered_custom_verb_)'
FOUND = 'found(self.root_ptr_, self.methods_, %s, %s)' % (PARTS, KEY)
MOK = ('table', 'table_ok(self.root_ptr_, self.methods_)')
MODE = ('mode_valid', '0 <= self.path_unescape_spec_ <= 2')
LH = ['if self.root_ptr_ is Some { lemma_lookup(self.root_ptr_->0, self.methods_, %s, %s); }' % (PARTS, KEY)]
CONTRACTS.update({
    'M_Lookup': dict(qual='PathMatcher::Lookup', nparams=5, params=['http_method', 'path', 'query', 'bindings', 'body'], modifies=[],
        requires=[MOK, MODE],
        ensures=[('method', 'r == if hit({0}) {{ hit_md({0}).method }} else {{ 0int }}'.format(FOUND)),
                 ('path_bindings', 'hit({0}) && bindings_nn ==> @bindings.len() >= hit_md({0}).variables.len() && forall|k: int| 0 <= k < hit_md({0}).variables.len() ==> #[trigger] @bindings[k] == path_binding(hit_md({0}).variables[k], {1}, self.path_unescape_spec_)'.format(FOUND, PARTS)),
                 ('query_bindings', 'hit({0}) && bindings_nn ==> @bindings.len() >= hit_md({0}).variables.len() && @bindings.subrange(hit_md({0}).variables.len() as int, @bindings.len() as int) =~= q_bindings(query, hit_md({0}).system_query_parameter_names, self.query_param_unescape_plus_)'.format(FOUND)),
                 ('body', 'hit({0}) && body_nn ==> @body =~= hit_md({0}).body_field_path'.format(FOUND)),
                 ('miss', '!hit({0}) ==> @bindings == bindings && @body == body'.format(FOUND))],
        hints=dict(entry=LH)),
    'M_Lookup2': dict(qual='PathMatcher::Lookup', nparams=2, params=['http_method', 'path'], modifies=[],
        requires=[MOK, MODE], ensures=[('method', 'r == if hit({0}) {{ hit_md({0}).method }} else {{ 0int }}'.format(FOUND))], hints=dict(entry=LH)),
})

T = 'tmpl_segs(path)'
K = '(http_method + tmpl_verb(path))'
BN = ['root_ptr_', 'custom_verbs_', 'methods_']
OLD = 'route_of(self.root_ptr_, self.methods_, %s, %s)' % (T, K)
NEW = 'route_of(@self.root_ptr_, @self.methods_, %s, %s)' % (T, K)


def reg_ensures(sys):
    return [('result', 'r == (tmpl_ok(path) && !(self.fail_registration_on_duplicate_ && %s is Some))' % OLD),
            ('invalid_unchanged', '!tmpl_ok(path) ==> @self.root_ptr_ == self.root_ptr_ && @self.methods_ =~= self.methods_ && @self.custom_verbs_ =~= self.custom_verbs_'),
            ('stored', 'tmpl_ok(path) ==> %s == route_added(%s, md_of(method as int, path, body, %s))' % (NEW, OLD, sys)),
            ('others_unchanged', 'tmpl_ok(path) ==> others_same(self.root_ptr_, self.methods_, @self.root_ptr_, @self.methods_, %s, %s)' % (T, K)),
            ('verbs', 'tmpl_ok(path) ==> @self.custom_verbs_ =~= if r && tmpl_verb(path).len() > 0 { self.custom_verbs_.insert(tmpl_verb(path)) } else { self.custom_verbs_ }'),
            ('history', 'tmpl_ok(path) ==> forall|h: Seq<Reg>| #[trigger] holds(self.root_ptr_, self.methods_, h) ==> holds(@self.root_ptr_, @self.methods_, h.push(reg_of(http_method, path, body, %s, method as int)))' % sys),
            ('history_same', '!tmpl_ok(path) ==> forall|h: Seq<Reg>| #[trigger] holds(self.root_ptr_, self.methods_, h) ==> holds(@self.root_ptr_, @self.methods_, h)'),
            ('table', '@self.root_ptr_ is Some && table_ok(@self.root_ptr_, @self.methods_)')]


BOK = ('table', 'self.root_ptr_ is Some && table_ok(self.root_ptr_, self.methods_)')
SIZE = ('size', 'path.len() < 0x7fff_ffff')
CONTRACTS.update({
    'M_InsertPathToNode': dict(qual='PathMatcherBuilder::InsertPathToNode', params=['info', 'data', 'key', 'root'], modifies=[],
        requires=[('nn', 'root_nn'), ('trie', 'node_ok(root)'), ('data', 'data != 0')],
        ensures=[('result', 'r == (entry(root, info.path_, key) is None || !self.fail_registration_on_duplicate_)'),
                 ('stored', 'ins_value(root, @root, info.path_, key, data, true)'), ('others_unchanged', 'ins_frame(root, @root, info.path_, key)'),
                 ('trie', 'node_ok(@root) && @root.wildcard_ == root.wildcard_')]),
    'M_Register': dict(qual='PathMatcherBuilder::Register', nparams=5, params=['http_method', 'path', 'body', 'sys', 'method'], modifies=BN,
        requires=[BOK, SIZE], ensures=reg_ensures('sys'),
        hints=dict(entry=['if tmpl_ok(path) { lemma_tmpl_fits(path); }'],
                   exit=['if tmpl_ok(path) && @self.root_ptr_ is Some { lemma_register(self.root_ptr_->0, self.methods_, @self.root_ptr_->0, @self.methods_, %s, %s, md_of(method as int, path, body, sys));'
                         ' lemma_holds_all(self.root_ptr_, self.methods_, @self.root_ptr_, @self.methods_, reg_of(http_method, path, body, sys, method as int)); }' % (T, K)])),
    'M_Register4': dict(qual='PathMatcherBuilder::Register', nparams=4, params=['http_method', 'path', 'body', 'method'], modifies=BN,
        requires=[BOK, SIZE], ensures=reg_ensures('Set::empty()')),
    'M_BuilderCtor': dict(qual='PathMatcherBuilder::PathMatcherBuilder', nparams=0, params=[],
        ensures=[('table', '@self.root_ptr_ is Some && table_ok(@self.root_ptr_, @self.methods_)'),
                 ('no_routes', 'forall|t: Path, k: Seq<u8>| #[trigger] route_of(@self.root_ptr_, @self.methods_, t, k) is None'),
                 ('defaults', '@self.custom_verbs_ =~= Set::empty() && @self.path_unescape_spec_ == 0 && !@self.query_param_unescape_plus_ && !@self.match_unregistered_custom_verb_ && !@self.fail_registration_on_duplicate_')],
        hints=dict(entry=['lemma_ok_new(false);'])),
    'M_Ctor': dict(qual='PathMatcher::PathMatcher', nparams=1, params=['b'],
        requires=[], ensures=[('same', '@self.root_ptr_ == b.root_ptr_ && @self.methods_ == b.methods_ && @self.custom_verbs_ == b.custom_verbs_ && @self.path_unescape_spec_ == b.path_unescape_spec_'
                               ' && @self.query_param_unescape_plus_ == b.query_param_unescape_plus_ && @self.match_unregistered_custom_verb_ == b.match_unregistered_custom_verb_')]),
    'M_Build': dict(qual='PathMatcherBuilder::Build', params=[], modifies=None,
        requires=[], ensures=[('some', 'r is Some'), ('same', 'r->0.root_ptr_ == self.root_ptr_ && r->0.methods_ == self.methods_ && r->0.custom_verbs_ == self.custom_verbs_ && r->0.path_unescape_spec_ == self.path_unescape_spec_'
                               ' && r->0.query_param_unescape_plus_ == self.query_param_unescape_plus_ && r->0.match_unregistered_custom_verb_ == self.match_unregistered_custom_verb_')]),
})
for _n, _f in (('SetUrlUnescapeSpec', 'path_unescape_spec_'), ('SetQueryParamUnescapePlus', 'query_param_unescape_plus_'), ('SetMatchUnregisteredCustomVerb', 'match_unregistered_custom_verb_'),
               ('SetFailRegistrationOnDuplicate', 'fail_registration_on_duplicate_')):
    CONTRACTS['M_' + _n] = dict(qual='PathMatcherBuilder::' + _n, params=['x'], modifies=[_f], requires=[], ensures=[('set', '@self.%s == x' % _f)])
