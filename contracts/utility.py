"""Contracts for path_matcher_utility.h (property C13)."""
from ct import T, STR, BOOL, I32
from tr import V, LV, raw
from cxx import Unsupported
TUS = ['path_matcher']
IMPORTS = ['matcher']
SPECS = ['percent', 'template', 'node', 'matcher', 'utility']
CFG = {'ext_types': {'HttpRule': 'HttpRule', 'CustomHttpPattern': 'CustomHttpPattern', 'google::api::HttpRule': 'HttpRule'},
       'ext_enums': ['PatternCase', 'HttpRule::PatternCase'],
       'ext_enum_values': {'kGet': 2, 'kPut': 3, 'kPost': 4, 'kDelete': 5, 'kPatch': 6, 'kCustom': 8, 'PATTERN_NOT_SET': 0}}
GET = {'get': 2, 'put': 3, 'post': 4, 'delete_': 5, 'patch': 6}


class Rules:
    """generated protobuf accessors of google.api.HttpRule"""
    NAMES = ('HttpRule', 'CustomHttpPattern')

    def method(self, lib, tr, base, name, n, args, ctx):
        s = tr.rd(base.place).s if isinstance(base, LV) else base.s
        if base.t.name == 'CustomHttpPattern':
            if name == 'kind':
                return V(STR, 'rule_kind(%s)' % s)
            if name == 'path':
                return V(STR, 'rule_text(%s, 8)' % s)
            raise Unsupported('CustomHttpPattern::' + name, n)
        if name == 'pattern_case':
            return V(T('enum', name='PatternCase'), '%s.case_' % s)
        if name in GET:
            return V(STR, 'rule_text(%s, %d)' % (s, GET[name]))
        if name.startswith('has_') and name[4:].rstrip('_') in ('get', 'put', 'post', 'delete', 'patch', 'custom'):
            return V(BOOL, '(%s.case_ == %d)' % (s, dict(get=2, put=3, post=4, delete=5, patch=6, custom=8)[name[4:].rstrip('_')]))
        if name == 'custom':
            return V(T('ext', name='CustomHttpPattern'), s)
        if name == 'body':
            return V(STR, '%s.body' % s)
        if name == 'additional_bindings_size':
            return V(I32, '%s.additional.len()' % s)
        if name == 'additional_bindings':
            if not lib.real(args):
                return V(T('vec', (T('ext', name='HttpRule'),)), '%s.additional' % s)
            i = tr.val(tr.ev(args[0], ctx)).s
            tr.ob('0 <= %s < %s.additional.len()' % (i, s), 'index of repeated field in range', n)
            return V(T('ext', name='HttpRule'), '%s.additional[%s]' % (s, i))
        raise Unsupported('HttpRule::' + name, n)


EXT = Rules()
P = ['root_ptr_', 'custom_verbs_', 'methods_']
PRE = 'pmb.root_ptr_, pmb.methods_'
POST = '@pmb.root_ptr_, @pmb.methods_'
SAME = '@pmb.path_unescape_spec_ == pmb.path_unescape_spec_ && @pmb.query_param_unescape_plus_ == pmb.query_param_unescape_plus_ && @pmb.match_unregistered_custom_verb_ == pmb.match_unregistered_custom_verb_ && @pmb.fail_registration_on_duplicate_ == pmb.fail_registration_on_duplicate_'


def st(sys):
    return 'reg_rule(ST { h: h, verbs: pmb.custom_verbs_, ok: true }, rule, %s, method as int, pmb.fail_registration_on_duplicate_)' % sys


def mid(i):
    return 'reg_more(ST { h: h, verbs: pmb.custom_verbs_, ok: true }, rule, %s, sys, method as int, pmb.fail_registration_on_duplicate_)' % i


def all_h(e, s):
    return 'forall|h: Seq<Reg>| #[trigger] holds(%s, h) ==> ({ let s_ = %s; %s })' % (PRE, s, e)


def ens(sys):
    return [('result', all_h('r == s_.ok', st(sys))), ('routes', all_h('holds(%s, s_.h)' % POST, st(sys))), ('verbs', all_h('@pmb.custom_verbs_ =~= s_.verbs', st(sys))),
            ('table', '@pmb.root_ptr_ is Some && table_ok(%s)' % POST), ('settings', SAME)]


REQ = [('table', 'pmb.root_ptr_ is Some && table_ok(%s)' % PRE), ('size', 'small(rule)')]
CONTRACTS = {
    'U_Register': dict(measure=('rule', 'rule', ''), qual='PathMatcherUtility::RegisterByHttpRule', nparams=4, params=['pmb', 'rule', 'sys', 'method'], requires=REQ, ensures=ens('sys'), hints=dict(entry=['lemma_stuck_all(rule, sys, method as int, pmb.fail_registration_on_duplicate_);', 'lemma_stuck_at(rule, 0, sys, method as int, pmb.fail_registration_on_duplicate_);'],
                   loop=['lemma_stuck_at(rule, $i:pos + 1, sys, method as int, pmb.fail_registration_on_duplicate_);']),
        loops=['0 <= $i:pos <= rule.additional.len()', '@pmb.root_ptr_ is Some && table_ok(%s)' % POST, SAME, all_h('$ok:bool == s_.ok', mid('$i:pos')), all_h('s_.ok', mid('$i:pos')), all_h('holds(%s, s_.h)' % POST, mid('$i:pos')),
               all_h('@pmb.custom_verbs_ =~= s_.verbs', mid('$i:pos'))]),
    'U_Register3': dict(qual='PathMatcherUtility::RegisterByHttpRule', nparams=3, params=['pmb', 'rule', 'method'], requires=REQ, ensures=ens('Set::empty()')),
}
