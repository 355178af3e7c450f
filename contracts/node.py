"""Contracts for path_matcher_node.cc (properties C07, C08, C09, C10, C14)."""
TUS = ['path_matcher_node']
IMPORTS = ['template']
SPECS = ['template', 'node']
STRUCTS = ['PathMatcherLookupResult', 'PathMatcherNode']
CFG = {'fields': {'PathMatcherNode': ['result_map_', 'children_', 'wildcard_'],
                  'PathMatcherLookupResult': ['data', 'is_multiple'],
                  'PathMatcherNode::PathInfo': ['path_'], 'PathMatcherNode::PathInfo::Builder': ['path_']}}
ME = 'mk_node(self.result_map_, self.children_, self.wildcard_)'
ME2 = 'mk_node(@self.result_map_, @self.children_, @self.wildcard_)'
OK = ('trie', 'node_ok(%s)' % ME)
ITERS = ('range', 'current.s == end.s && 0 <= current.i <= end.i <= current.s.len()')
T = 'sub_path(current.s, current.i, end.i)'

CONTRACTS = {
    'N_GetResult': dict(qual='PathMatcherNode::GetResultForHttpMethod', params=['key', 'result'], modifies=[], requires=[('nn', 'result_nn')],
        ensures=[('found_iff', 'r == (result_for(%s, key) is Some)' % ME), ('exact_then_any', '@result == or_old(result_for(%s, key), result)' % ME)]),
    'N_LookupPathFromChild': dict(measure=('lookup', '2 * (end.i - current.i)'), qual='PathMatcherNode::LookupPathFromChild', params=['child_key', 'current', 'end', 'http_method', 'result'], modifies=[],
        requires=[OK, ITERS, ('more', 'current.i < end.i'), ('nn', 'result_nn'), ('unset', 'result.data == 0')],
        ensures=[('found_iff', 'r == (best_child(%s, child_key, current.s, current.i, end.i, http_method) is Some)' % ME),
                 ('found', '@result == or_old(best_child(%s, child_key, current.s, current.i, end.i, http_method), result)' % ME)],
        hints=dict(entry=['lemma_ok_child(%s, child_key);' % ME,
                          'if has_child(%s, child_key) { lemma_best_nonnull(child(%s, child_key), current.s, current.i + 1, end.i, http_method); }' % (ME, ME)])),
    'N_LookupPath': dict(measure=('lookup', '2 * (end.i - current.i) + 1'), qual='PathMatcherNode::LookupPath', params=['current', 'end', 'http_method', 'result'], modifies=[],
        requires=[OK, ITERS, ('nn', 'result_nn'), ('unset', 'result.data == 0')],
        ensures=[('most_specific', '@result == or_old(best(%s, current.s, current.i, end.i, http_method), result)' % ME)],
        loops=['current.i <= $i:off <= end.i', 'best(%s, current.s, $i:off, end.i, http_method) == best(%s, current.s, current.i, end.i, http_method)' % (ME, ME), '@result == result'],
        hints=dict(entry=['lemma_ok_child(%s, star2());' % ME])),
    'N_InsertTemplate': dict(measure=('insert', 'end.i - current.i'), qual='PathMatcherNode::InsertTemplate', params=['current', 'end', 'http_method', 'method_data', 'mark_duplicates'], modifies=['result_map_', 'children_'],
        requires=[OK, ITERS, ('data', 'method_data != 0')],
        ensures=[('new_iff', 'r == (entry(%s, %s, http_method) is None)' % (ME, T)),
                 ('stored', 'ins_value(%s, %s, %s, http_method, method_data, mark_duplicates)' % (ME, ME2, T)),
                 ('others_unchanged', 'ins_frame(%s, %s, %s, http_method)' % (ME, ME2, T)),
                 ('trie', 'node_ok(%s)' % ME2)],
        hints=dict(entry=['lemma_ok_child(%s, current.s[current.i]);' % ME, 'lemma_ok_new(true);', 'lemma_ok_new(false);', 'assert(find(%s, Seq::empty()) == Option::Some(%s));' % (ME, ME)],
                   exit=['if current.i == end.i { assert(%s =~= Seq::<Seq<u8>>::empty()); lemma_ins_here(%s, %s, http_method, method_data, mark_duplicates); } else { lemma_ins_child(%s, %s, current.s, current.i, end.i, http_method, method_data, mark_duplicates); }' % (T, ME, ME2, ME, ME2)])),
    'N_InsertPath': dict(qual='PathMatcherNode::InsertPath', params=['info', 'http_method', 'method_data', 'mark_duplicates'], modifies=['result_map_', 'children_'],
        requires=[OK, ('data', 'method_data != 0')],
        ensures=[('new_iff', 'r == (entry(%s, info.path_, http_method) is None)' % ME),
                 ('stored', 'ins_value(%s, %s, info.path_, http_method, method_data, mark_duplicates)' % (ME, ME2)),
                 ('others_unchanged', 'ins_frame(%s, %s, info.path_, http_method)' % (ME, ME2)),
                 ('trie', 'node_ok(%s)' % ME2)],
        hints=dict(entry=['assert(sub_path(info.path_, 0, info.path_.len() as int) =~= info.path_);'])),
    'N_Clone': dict(measure=('clone', ME, 'lemma_below(%s);' % ME), qual='PathMatcherNode::Clone', params=[], modifies=[], requires=[OK],
        ensures=[('some', 'r is Some'), ('results', 'r->0.result_map_ =~= self.result_map_'), ('wildcard', 'r->0.wildcard_ == self.wildcard_'),
                 ('children', 'r->0.children_ =~= self.children_')],
        loops=['$c:opt is Some', '$c:opt->0.result_map_ == self.result_map_', '$c:opt->0.children_.dom() =~= self.children_.dom().difference($m:rem)',
               'forall|k: Seq<u8>| #[trigger] $c:opt->0.children_.contains_key(k) ==> $c:opt->0.children_[k] == self.children_[k]'],
        hints=dict(entry=['lemma_ok_children(self.result_map_, self.children_, self.wildcard_);', 'lemma_mk_node();'])),
}
