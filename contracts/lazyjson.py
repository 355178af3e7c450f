"""Contracts for json_request_translator.cc (property C23)."""
from ct import T, STR, BOOL
from tr import V, LV, Ptr, raw
from cxx import Unsupported
TUS = ['json_request_translator']
IMPORTS = []
SPECS = ['lazyjson']
STRUCTS = ['RequestInfo', 'LazyRequestTranslator']
I, P, O, S, M, W = 'Src', 'Parser', 'Out', 'STr', 'MTr', 'Sink'
CFG = {'ext_types': {'ZeroCopyInputStream': I, 'JsonStreamParser': P, 'MessageStream': O, 'RequestStreamTranslator': S, 'RequestMessageTranslator': M, 'ObjectWriter': W}, 'opaque_types': ['Type', 'Field', 'TypeResolver'],
       'upcast': {(S, W): 'Sink { id: %(x)s.id }', (S, O): 'Out { id: %(x)s.id, polls: 0 }', (M, O): 'Out { id: %(x)s.id, polls: 0 }', ('C_LazyRequestTranslator', O): 'lazy_out(%(x)s)'}, 'ptr_by_value': [I, P, O, W],
       'fields': {'LazyRequestTranslator': ['input_json_', 'json_parser_', 'translated_', 'seen_input_', 'status_'],
                  'JsonRequestTranslator': ['parser_', 'output_', 'message_translator_', 'stream_translator_'],
                  'RequestInfo': ['message_type', 'body_field_path', 'variable_bindings', 'reject_binding_body_field_collisions', 'case_insensitive_enum_parsing']}}
STATUS = T('status')


class Parts:
    """the input, the JSON parser and the translated stream: any behaviour whose answers are determined by the calls made so far"""
    NAMES = (I, P, O, S, M, W)

    def construct(self, lib, tr, t, n, vals, ctx):
        if t.name in (S, M) and len(vals) == 3:
            a = [tr.rv(v) for v in vals]
            return V(t, '%s { id: made_%s(%s, %s, %s) }' % (t.name, {S: 'stream', M: 'single'}[t.name], raw(tr.coerce(a[0], T('id'), n)), raw(tr.coerce(a[1], BOOL, n)), raw(tr.val(vals[2]))))
        if t.name == P and len(vals) == 1:
            return V(t, 'Parser { id: parser_of(%s), fed: Seq::empty(), ends: 0 }' % raw(tr.coerce(tr.val(vals[0]), T('ext', name=W), n)))
        raise Unsupported('construction of %r' % t, n)

    def state(self, tr, kind, n):
        this = tr.ctx_this
        fs = [nm for nm, al, ft in tr.fields_of(this.t)[1] if ft == T('ext', name=kind)]
        if len(fs) != 1:
            raise Unsupported('the %s of this object' % kind, n)
        return tr.member(LV(this), False, fs[0], n).place

    def method(self, lib, tr, base, name, n, args, ctx):
        if isinstance(base, V):
            raise Unsupported('method of a temporary', n)
        p = base.place
        args = lib.real(args)
        kind = base.t.name
        if kind == M and name == 'Input':
            return V(T('ext', name=W), 'Sink { id: %s.id }' % p.load())
        if kind == I and name == 'Next':
            d, z = [tr.rv(tr.ev(a, ctx)) for a in args]
            if not (isinstance(d, Ptr) and isinstance(z, Ptr)):
                raise Unsupported('arguments of Next', n)
            s = tr.let(p.load(), I)
            a = tr.let('src_answer(%s.id, %s.k)' % (s, s), 'Option<Seq<u8>>')
            tr.emit('proof { assume(%s is Some ==> %s->0.len() <= 0x7fff_ffff); }' % (a, a))
            tr.deref(d, n).store(tr, '(if %s is Some { %s->0 } else { %s })' % (a, a, tr.deref(d, n).load()))
            tr.deref(z, n).store(tr, '(if %s is Some { %s->0.len() as i32 } else { %s })' % (a, a, tr.deref(z, n).load()))
            p.store(tr, 'Src { k: %s.k + 1, ..%s }' % (s, s))
            return V(BOOL, '(%s is Some)' % a)
        if kind == P and name == 'Parse':
            v = lib.as_str(tr, tr.evr(args[0], ctx), n)
            q = tr.let(p.load(), P)
            p.store(tr, 'Parser { fed: %s.fed.push(%s), ..%s }' % (q, v, q))
            q = p.load()
            return V(STATUS, 'parse_answer(%s.id, %s.fed, %s.ends)' % (q, q, q))
        if kind == P and name == 'FinishParse':
            q = tr.let(p.load(), P)
            p.store(tr, 'Parser { ends: %s.ends + 1, ..%s }' % (q, q))
            q = p.load()
            return V(STATUS, 'finish_answer(%s.id, %s.fed, %s.ends)' % (q, q, q))
        if kind == O:
            o = tr.let(p.load(), O)
            x = '%s.id, %s, %s.polls' % (o, self.state(tr, P, n).load(), o)
            if name == 'Finished':
                return V(BOOL, 'out_fin(%s)' % x)
            if name == 'Status':
                return V(STATUS, 'out_status(%s)' % x)
            if name == 'NextMessage':
                m = tr.rv(tr.ev(args[0], ctx))
                if not isinstance(m, Ptr):
                    raise Unsupported('argument of NextMessage', n)
                a = tr.let('out_message(%s)' % x, 'Option<Seq<u8>>')
                g = tr.fresh('left')
                tr.emit('let %s_h = havoc::<Seq<u8>>(); let ghost %s: Seq<u8> = %s_h@;' % (g, g, g))
                tr.deref(m, n).store(tr, '(if %s is Some { %s->0 } else { %s })' % (a, a, g))
                p.store(tr, 'Out { polls: %s.polls + 1, ..%s }' % (o, o))
                return V(BOOL, '(%s is Some)' % a)
        raise Unsupported('%s::%s' % (kind, name), n)


EXT = Parts()
Z = 'Lazy { src: self.input_json_, p: self.json_parser_, out: self.translated_, seen: self.seen_input_, st: self.status_ }'
Z2 = Z.replace('self.', '@self.')
F = ['input_json_', 'json_parser_', 'translated_', 'seen_input_', 'status_']
N = '(@self.translated_.polls - self.translated_.polls)'
CONTRACTS = {
    'J_Ctor': dict(qual='LazyRequestTranslator::LazyRequestTranslator', nparams=3, params=['input:val', 'parser:val', 'translated:val'], requires=[],
        ensures=[('start', '%s == Lazy { src: input, p: parser, out: translated, seen: false, st: status_ok() }' % Z2)]),
    'J_Check': dict(qual='LazyRequestTranslator::CheckParsingStatus', params=['parsing_status'], modifies=F, requires=[],
        ensures=[('status', '%s == checked(%s, parsing_status)' % (Z2, Z)), ('ok', 'r == (@self.status_.code == 0)')]),
    'J_Chunk': dict(qual='LazyRequestTranslator::TranslateChunk', params=[], modifies=F, requires=[],
        ensures=[('go_on', 'r == chunk_step(%s).0' % Z), ('step', '%s == chunk_step(%s).1' % (Z2, Z))], hints=dict(entry=['lemma_sub_all::<u8>();'])),
    'J_NextMessage': dict(qual='LazyRequestTranslator::NextMessage', params=['message'], modifies=F, requires=[('out', 'message_nn')],
        ensures=[('polls', '%s >= 1 && lz_goes(%s, %s - 1)' % (N, Z, N)),
                 ('state', '%s == lz_after(%s, %s - 1)' % (Z2, Z, N)),
                 ('returned', 'r == lz_hit(lz_run(%s, %s - 1)) && (!r ==> !chunk_step(polled(lz_run(%s, %s - 1))).0)' % (Z, N, Z, N)),
                 ('message', 'r ==> @message == lz_message(lz_run(%s, %s - 1))' % (Z, N))],
        loops=['%s >= 0 && lz_goes(%s, %s)' % (N, Z, N), '%s == lz_run(%s, %s)' % (Z2, Z, N),
               # a loop that polls ahead of its test
               '%s >= 1 && lz_goes(%s, %s - 1)' % (N, Z, N), '%s == polled(lz_run(%s, %s - 1))' % (Z2, Z, N), '$b:bool == lz_hit(lz_run(%s, %s - 1))' % (Z, N),
               '$b:bool ==> @message == lz_message(lz_run(%s, %s - 1))' % (Z, N), '!$b:bool && gave_braces(%s) ==> lz_finished(%s)' % (Z2, Z2)],
        measures=['lz_left(%s)' % Z2], hints=dict(entry=['axiom_input();'])),
    'J_Finished': dict(qual='LazyRequestTranslator::Finished', params=[], modifies=[], requires=[], ensures=[('finished', 'r == lz_finished(%s)' % Z)]),
    'J_Status': dict(qual='LazyRequestTranslator::Status', params=[], modifies=[], requires=[], ensures=[('status', 'r == self.status_')]),
    'J_Make': dict(qual='JsonRequestTranslator::JsonRequestTranslator', nparams=5, params=['type_resolver', 'json_input:val', 'request_info', 'streaming', 'output_delimiters'], requires=[('resolver', 'type_resolver != 0')],
        ensures=[('wired', 'made_json(type_resolver, json_input, request_info, streaming, output_delimiters, @self.output_)')]),
}
