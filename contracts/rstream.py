"""Contracts for request_stream_translator.cc (property C22)."""
from ct import T, STR, BOOL
from tr import V, LV, Ptr, raw, FieldP
from cxx import Unsupported
from events import PIECES
TUS = ['request_stream_translator']
IMPORTS = ['events']
SPECS = ['events', 'rstream']
STRUCTS = ['RequestInfo']
R = 'Tr'
CFG = {'ext_types': {'RequestMessageTranslator': R}, 'opaque_types': ['Type', 'Field', 'TypeResolver'],
       'fields': {'RequestStreamTranslator': ['type_resolver_', 'status_', 'request_info_', 'output_delimiters_', 'translator_', 'messages_', 'depth_', 'done_'],
                  'RequestInfo': ['message_type', 'body_field_path', 'variable_bindings', 'reject_binding_body_field_collisions', 'case_insensitive_enum_parsing']}}
ST = T('status')


class Translators:
    """RequestMessageTranslator, whose answers are determined by what it was made with and the events it received"""
    NAMES = (R,)

    def construct(self, lib, tr, t, n, vals, ctx):
        if len(vals) != 3:
            raise Unsupported('constructor of a message translator', n)
        a = [tr.rv(v) for v in vals]
        return V(t, 'Tr { resolver: %s, delim: %s, info: %s, w: Writer { log: Seq::empty() }, taken: false }' % (raw(tr.coerce(a[0], T('id'), n)), raw(tr.coerce(a[1], BOOL, n)), raw(tr.val(vals[2]))))

    def method(self, lib, tr, base, name, n, args, ctx):
        if isinstance(base, V):
            raise Unsupported('method of a temporary', n)
        p = base.place
        s = p.load()
        if name == 'Input':
            return LV(FieldP(p, 'w', T('ext', name='Writer')))
        if name == 'Status':
            return V(ST, 'tr_status(%s.resolver, %s.info, %s.w.log)' % (s, s, s))
        if name == 'NextMessage':
            m = tr.rv(tr.ev(lib.real(args)[0], ctx))
            if not isinstance(m, Ptr):
                raise Unsupported('argument of NextMessage', n)
            s = tr.let(s, R)
            q = tr.deref(m, n)
            q.store(tr, '(if tr_next(%s) is Some { tr_next(%s)->0 } else { %s })' % (s, s, q.load()))
            p.store(tr, 'Tr { taken: tr_next(%s) is Some, ..%s }' % (s, s))
            return V(BOOL, '(tr_next(%s) is Some)' % s)
        raise Unsupported('RequestMessageTranslator::' + name, n)


EXT = Translators()
S = 'RS { st: self.status_, info: self.request_info_, tr: self.translator_, msgs: self.messages_, depth: self.depth_ as int, done: self.done_ }'
S2 = S.replace('self.', '@self.')
E = 'Env { resolver: self.type_resolver_, delim: self.output_delimiters_ }'
F = ['status_', 'request_info_', 'translator_', 'messages_', 'depth_', 'done_']
OK = ('state', 'rs_ok(%s)' % S)


def ev(name, params, event, room):
    return dict(qual='RequestStreamTranslator::' + name, params=params, modifies=F, requires=[OK, ('nested', room)],
                ensures=[('step', 'rstep(%s, %s, %s, %s)' % (E, S, event, S2)), ('state', 'rs_ok(%s)' % S2)])


NEST = 'self.depth_ < 0x7fff_ffff'
CONTRACTS = {
    'Q_Ctor': dict(qual='RequestStreamTranslator::RequestStreamTranslator', nparams=3, params=['type_resolver', 'output_delimiters', 'request_info'], requires=[],
        ensures=[('start', '%s == RS { st: status_ok(), info: request_info, tr: Option::None, msgs: Seq::empty(), depth: 0, done: false } && @self.type_resolver_ == type_resolver && @self.output_delimiters_ == output_delimiters' % S2)]),
    'Q_NextMessage': dict(qual='RequestStreamTranslator::NextMessage', params=['message'], modifies=F, requires=[('out', 'message_nn')],
        ensures=[('returned', 'r == (self.messages_.len() > 0)'), ('message', 'if r { @message == self.messages_[0] && @self.messages_ =~= self.messages_.skip(1) } else { @self.messages_ == self.messages_ }'),
                 ('others', '%s == RS { msgs: @self.messages_, ..%s }' % (S2, S))]),
    'Q_Finished': dict(qual='RequestStreamTranslator::Finished', params=[], modifies=[], requires=[], ensures=[('finished', 'r == ((self.messages_.len() == 0 && self.done_) || self.status_.code != 0)')]),
    'Q_Status': dict(qual='RequestStreamTranslator::Status', params=[], modifies=[], requires=[], ensures=[('status', 'r == self.status_')]),
    'Q_Start': dict(qual='RequestStreamTranslator::StartMessageTranslator', params=[], modifies=F, requires=[], ensures=[('started', '%s == started(%s, %s)' % (S2, E, S))]),
    'Q_End': dict(qual='RequestStreamTranslator::EndMessageTranslator', params=[], modifies=F, requires=[('translator', 'self.translator_ is Some'), ('good', 'self.status_.code == 0')], ensures=[('element', 'finished_element(%s, %s)' % (S, S2))]),
    'Q_StartObject': ev('StartObject', ['name'], 'Evt::StartObject(name)', NEST),
    'Q_EndObject': ev('EndObject', [], 'Evt::EndObject', NEST),
    'Q_StartList': ev('StartList', ['name'], 'Evt::StartList(name)', NEST),
    'Q_EndList': ev('EndList', [], 'Evt::EndList', NEST),
    'Q_RenderNull': ev('RenderNull', ['name'], 'Evt::Value(name, Piece::Null)', NEST),
}
for k, (c, t) in PIECES.items():
    v = 'value' if t.k not in ('int',) else 'value as %s%d' % ('i' if t.signed else 'u', t.bits)
    CONTRACTS['Q_' + k] = ev(k, ['name', 'value'], 'Evt::Value(name, Piece::%s(%s))' % (c, v), NEST)
