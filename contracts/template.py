"""Contracts for http_template.cc (properties C01, C02)."""
TUS = ['http_template']
IMPORTS = []
SPECS = ['template']
STRUCTS = ['HttpTemplate::Variable', 'HttpTemplate']
CFG = {'fields': {'Parser': ['input_', 'tb_', 'te_', 'in_variable_', 'segments_', 'verb_', 'variables_'],
                  'HttpTemplate': ['segments_', 'verb_', 'variables_'],
                  'HttpTemplate::Variable': ['start_segment', 'end_segment', 'field_path', 'has_wildcard_path']}}
WF = ('wf', 'wf_pos(self.input_, self.tb_, self.te_)')
WFo = ('wf', 'wf_pos(self.input_, @self.tb_, @self.te_)')
ST = ('state', 'vars_ok(self.variables_, self.in_variable_, self.segments_.len() as int) && segs_ok(self.segments_, self.tb_)')
STo = 'vars_ok(@self.variables_, @self.in_variable_, @self.segments_.len() as int) && segs_ok(@self.segments_, @self.tb_)'
POS = ['tb_', 'te_']
ALL = ['tb_', 'te_', 'in_variable_', 'segments_', 'variables_']


def spec(f, i='self.tb_'):
    return '%s(self.input_, %s, self.segments_, self.variables_, self.in_variable_)' % (f, i)


VARHINT = ('let f = p_path(self.input_, self.tb_ + 1, Seq::empty());'
           'lemma_inner(self.input_, f.pos + 1, self.segments_, self.variables_.push(C_HttpTemplate_Variable { start_segment: ws32(self.segments_.len() as int) as i32, end_segment: 0i32, field_path: f.ids, has_wildcard_path: false }));')


def outcome(f):
    return [('accepts_iff', 'r == %s.ok' % spec(f)),
            ('position', 'r ==> @self.tb_ == {0}.pos && @self.in_variable_ == {0}.inv'.format(spec(f))),
            ('segments', 'r ==> @self.segments_ =~= {0}.segs'.format(spec(f))),
            ('variables', 'r ==> @self.variables_ =~= {0}.vars'.format(spec(f))),
            ('wf', 'r ==> wf_pos(self.input_, @self.tb_, @self.te_) && @self.tb_ > self.tb_'),
            ('state', 'r ==> ' + STo),
            ('monotone', 'r ==> @self.segments_.len() > self.segments_.len() && (@self.segments_.len() - self.segments_.len()) <= @self.tb_ - self.tb_')]


CONTRACTS = {
    'P_NextChar': dict(qual='Parser::NextChar', params=[], modifies=['te_'], requires=[('bound', 'self.te_ <= self.input_.len()')],
        ensures=[('more', 'r == (self.te_ < self.input_.len())'), ('advance', '@self.te_ == self.te_ + (if r { 1int } else { 0int })')]),
    'P_current_char': dict(qual='Parser::current_char', params=[], modifies=[], requires=[WF],
        ensures=[('char', 'self.tb_ < self.te_ ==> r == self.input_[self.tb_]')]),
    'P_EnsureCurrent': dict(qual='Parser::EnsureCurrent', params=[], modifies=['te_'], requires=[WF],
        ensures=[('more', 'r == (self.tb_ < self.input_.len())'), ('looked', 'r ==> @self.te_ == self.tb_ + 1'), ('wf', 'wf_pos(self.input_, self.tb_, @self.te_)')]),
    'P_Consume': dict(qual='Parser::Consume', params=['c'], modifies=POS, requires=[WF],
        ensures=[('consumed_iff', 'r == at(self.input_, self.tb_, c)'), ('advance', '@self.tb_ == self.tb_ + (if r { 1int } else { 0int })'), WFo,
                 ('no_lookahead', 'r ==> @self.te_ == @self.tb_')]),
    'P_ParseLiteral': dict(qual='Parser::ParseLiteral', params=['lit'], modifies=POS, requires=[WF, ('nn', 'lit_nn'), ('empty', 'lit.len() == 0')],
        ensures=[('accepts_iff', 'r == (lit_end(self.input_, self.tb_) > self.tb_)'),
                 ('consumed', 'r ==> @self.tb_ == lit_end(self.input_, self.tb_)'),
                 ('text', 'r ==> @lit =~= self.input_.subrange(self.tb_, @self.tb_)'),
                 ('wf', 'r ==> wf_pos(self.input_, @self.tb_, @self.te_)')],
        loops=['wf_pos(self.input_, @self.tb_, @self.te_)', '@self.tb_ < @self.te_', 'self.tb_ <= @self.tb_', 'lit_end(self.input_, @self.tb_) == lit_end(self.input_, self.tb_)',
               '@lit =~= self.input_.subrange(self.tb_, @self.tb_)', '$b:bool == (@self.tb_ > self.tb_)', '$a:acc =~= self.input_.subrange(self.tb_, @self.tb_)'],
        hints=dict(entry=['lemma_lit_end(self.input_, self.tb_);'], loop=['lemma_lit_end(self.input_, @self.tb_);'])),
    'P_ParseIdentifier': dict(qual='Parser::ParseIdentifier', params=[], modifies=['tb_', 'te_', 'variables_'],
        requires=[WF, ('fresh', 'self.tb_ == self.te_'), ('in_var', 'self.in_variable_ && self.variables_.len() > 0')],
        ensures=[('accepts_iff', 'r == (id_end(self.input_, self.tb_) > self.tb_)'),
                 ('consumed', 'r ==> @self.tb_ == id_end(self.input_, self.tb_)'),
                 ('added', 'r ==> @self.variables_ =~= set_last(self.variables_, C_HttpTemplate_Variable { field_path: self.variables_.last().field_path.push(self.input_.subrange(self.tb_, @self.tb_)), .. self.variables_.last() })'),
                 ('wf', 'r ==> wf_pos(self.input_, @self.tb_, @self.te_)')],
        loops=['wf_pos(self.input_, @self.tb_, @self.te_)', '@self.tb_ == @self.te_', 'self.tb_ <= @self.tb_', 'id_end(self.input_, @self.tb_) == id_end(self.input_, self.tb_)',
               '$i:acc =~= self.input_.subrange(self.tb_, @self.tb_)', '$b:bool == (@self.tb_ > self.tb_)', '@self.variables_ == self.variables_'],
        hints=dict(loop=['lemma_id_end(self.input_, @self.tb_);'])),
    'P_ParseFieldPath': dict(qual='Parser::ParseFieldPath', params=[], modifies=['tb_', 'te_', 'variables_'],
        requires=[WF, ('fresh', 'self.tb_ == self.te_'), ('in_var', 'self.in_variable_ && self.variables_.len() > 0')],
        ensures=[('accepts_iff', 'r == p_path(self.input_, self.tb_, self.variables_.last().field_path).ok'),
                 ('consumed', 'r ==> @self.tb_ == p_path(self.input_, self.tb_, self.variables_.last().field_path).pos'),
                 ('path', 'r ==> @self.variables_ =~= set_last(self.variables_, C_HttpTemplate_Variable { field_path: p_path(self.input_, self.tb_, self.variables_.last().field_path).ids, .. self.variables_.last() })'),
                 ('wf', 'r ==> wf_pos(self.input_, @self.tb_, @self.te_)')],
        loops=['wf_pos(self.input_, @self.tb_, @self.te_)', 'self.tb_ < @self.tb_', 'self.tb_ <= @self.tb_', '@self.tb_ == @self.te_', '@self.variables_.len() == self.variables_.len()',
               'p_path(self.input_, @self.tb_, @self.variables_.last().field_path) == p_path(self.input_, self.tb_, self.variables_.last().field_path)',
               '@self.variables_ =~= set_last(self.variables_, C_HttpTemplate_Variable { field_path: @self.variables_.last().field_path, .. self.variables_.last() })',
               '(if at(self.input_, @self.tb_, 46) { p_path(self.input_, @self.tb_ + 1, @self.variables_.last().field_path) } else { FP { ok: true, pos: @self.tb_, ids: @self.variables_.last().field_path } }) == p_path(self.input_, self.tb_, self.variables_.last().field_path)'],
        hints=dict(entry=['lemma_id_end(self.input_, self.tb_);', 'lemma_path(self.input_, self.tb_, self.variables_.last().field_path);'], loop=['lemma_id_end(self.input_, @self.tb_ + 1);', 'lemma_id_end(self.input_, @self.tb_);'])),
    'P_ParseVerb': dict(qual='Parser::ParseVerb', params=[], modifies=['tb_', 'te_', 'verb_'], requires=[WF, ('empty', 'self.verb_.len() == 0'), ('colon', 'at(self.input_, self.tb_, 58)')],
        ensures=[('accepts_iff', 'r == (lit_end(self.input_, self.tb_ + 1) > self.tb_ + 1)'),
                 ('consumed', 'r ==> @self.tb_ == lit_end(self.input_, self.tb_ + 1)'),
                 ('text', 'r ==> @self.verb_ =~= self.input_.subrange(self.tb_ + 1, @self.tb_)'),
                 ('wf', 'r ==> wf_pos(self.input_, @self.tb_, @self.te_)')]),
    'P_ParseSegment': dict(measure=('parse', '3 * (self.input_.len() - self.tb_) + 1'), qual='Parser::ParseSegment', params=[], modifies=ALL, requires=[WF, ST], ensures=outcome('p_segment'),
        hints=dict(entry=['lemma_lit_end(self.input_, self.tb_);'])),
    'P_ParseSegments': dict(measure=('parse', '3 * (self.input_.len() - self.tb_) + 2'), qual='Parser::ParseSegments', params=[], modifies=ALL, requires=[WF, ST], ensures=outcome('p_segments'),
        loops=['wf_pos(self.input_, @self.tb_, @self.te_)', STo, 'self.tb_ < @self.tb_', '@self.segments_.len() > self.segments_.len()', '@self.segments_.len() - self.segments_.len() <= @self.tb_ - self.tb_',
               'p_rest(self.input_, @self.tb_, @self.segments_, @self.variables_, @self.in_variable_) == ' + spec('p_segments'),
               # before a segment
               'self.tb_ <= @self.tb_', '@self.segments_.len() >= self.segments_.len()',
               'p_segments(self.input_, @self.tb_, @self.segments_, @self.variables_, @self.in_variable_) == ' + spec('p_segments')]),
    'P_ParseVariable': dict(measure=('parse', '3 * (self.input_.len() - self.tb_)'), qual='Parser::ParseVariable', params=[], modifies=ALL, requires=[WF, ST, ('brace', 'at(self.input_, self.tb_, 123)')], ensures=outcome('p_variable'),
        hints=dict(entry=['lemma_seq_update::<Var>();', 'lemma_path(self.input_, self.tb_ + 1, Seq::empty());', VARHINT])),
    'P_ParseTemplate': dict(qual='Parser::ParseTemplate', params=[], modifies=ALL + ['verb_'],
        requires=[WF, ('start', 'self.tb_ == 0 && self.segments_.len() == 0 && self.variables_.len() == 0 && !self.in_variable_ && self.verb_.len() == 0')],
        ensures=[('accepts_iff', 'r == p_template(self.input_).ok'),
                 ('position', 'r ==> @self.tb_ == p_template(self.input_).pos'), ('segments', 'r ==> @self.segments_ =~= p_template(self.input_).segs'),
                 ('variables', 'r ==> @self.variables_ =~= p_template(self.input_).vars'), ('verb', 'r ==> @self.verb_ =~= p_template(self.input_).verb'),
                 ('wf', 'r ==> wf_pos(self.input_, @self.tb_, @self.te_)'), ('state', 'r ==> ' + STo)],
        hints=dict(entry=['assert(self.segments_ =~= Seq::empty()); assert(self.variables_ =~= Seq::empty()); assert(self.verb_ =~= Seq::empty());'])),
    'P_PostProcessVariables': dict(qual='Parser::PostProcessVariables', params=[], modifies=['variables_'],
        requires=[('state', 'vars_ok(self.variables_, false, self.segments_.len() as int) && self.segments_.len() < 0x7fff_ffff')],
        ensures=[('relative_ends', '@self.variables_ =~= post_vars(self.variables_, self.segments_)')],
        hints=dict(entry=['lemma_rel(self.segments_.len() as int);', 'lemma_wild_char(self.segments_, 0);', 'lemma_seq_update::<Var>();']),
        loops=['wild_pos(self.segments_, $i:pos) == wild_pos(self.segments_, 0)', '0 <= $i:pos <= self.segments_.len()', '$w:pos == wild_pos(self.segments_, 0)',
               '@self.variables_ == self.variables_', '@self.variables_.len() == self.variables_.len()', 'forall|k: int| 0 <= k < $i:pos ==> #[trigger] @self.variables_[k] == post_var(self.variables_[k], self.segments_)',
               'forall|k: int| $i:pos <= k < self.variables_.len() ==> #[trigger] @self.variables_[k] == self.variables_[k]']),
    'P_Parse': dict(qual='Parser::Parse', params=[], modifies=ALL + ['verb_'],
        requires=[WF, ('start', 'self.tb_ == 0 && self.segments_.len() == 0 && self.variables_.len() == 0 && !self.in_variable_ && self.verb_.len() == 0')],
        ensures=[('accepts_iff', 'r == (p_template(self.input_).ok && p_template(self.input_).pos >= self.input_.len())'),
                 ('segments', 'r ==> @self.segments_ =~= p_template(self.input_).segs'), ('verb', 'r ==> @self.verb_ =~= p_template(self.input_).verb'),
                 ('variables', 'r ==> @self.variables_ =~= post_vars(p_template(self.input_).vars, p_template(self.input_).segs)')]),
    'P_ValidateParts': dict(qual='Parser::ValidateParts', params=[], modifies=[], requires=[], ensures=[('only_literals_after_wildcard', 'r == parts_ok(self.segments_)')],
        loops=['0 <= $i:pos <= self.segments_.len()', '0 <= $i:pos <= self.segments_.len() + 1', 'forall|k: int| 0 <= k < $i:pos ==> #[trigger] self.segments_[k] != star2()',
               '$i:pos > self.segments_.len() || (exists|k: int| 0 <= k < $i:pos && #[trigger] self.segments_[k] == star2())',
               'forall|a: int, b: int| #![trigger self.segments_[a], self.segments_[b]] 0 <= a < b < $i:pos && b < self.segments_.len() && self.segments_[a] == star2() ==> self.segments_[b] != star() && self.segments_[b] != star2() && self.segments_[b] != any_seg()',
               '$b:bool == (exists|k: int| 0 <= k < $i:pos && #[trigger] self.segments_[k] == star2())',
               'forall|a: int, b: int| #![trigger self.segments_[a], self.segments_[b]] 0 <= a < b < $i:pos && self.segments_[a] == star2() ==> self.segments_[b] != star() && self.segments_[b] != star2() && self.segments_[b] != any_seg()']),
    'HttpTemplate_Parse': dict(qual='HttpTemplate::Parse', params=['ht'], requires=[('size', 'ht.len() < 0x7fff_ffff')],
        ensures=[('accepts_iff', 'r.is_some() == tmpl_ok(ht)'),
                 ('segments', 'r.is_some() ==> (r->0).segments_ =~= tmpl_segs(ht)'),
                 ('verb', 'r.is_some() ==> (r->0).verb_ =~= tmpl_verb(ht)'),
                 ('variables', 'r.is_some() ==> (r->0).variables_ =~= tmpl_vars(ht)')]),
}
