"""Contracts for request_message_translator.cc and status_error_listener.cc (properties C18 and C27)."""
from ct import T, STR, BOOL, U64
from tr import V, LV, Ptr, BufPtr, raw, FieldP
from cxx import Unsupported
TUS = ['request_message_translator', 'status_error_listener']
IMPORTS = ['reader']
SPECS = ['reader', 'message']
STRUCTS = ['RequestInfo', 'StatusErrorListener']
K, P, W, X, L, O, G = 'Sink', 'ProtoW', 'WeaverT', 'PrefixT', 'Listener', 'Pipe', 'Loc'
OPT = 'PwOptions'
CFG = {'ext_types': {'StringByteSink': K, 'ByteSink': K, 'ProtoStreamObjectWriter': P, 'RequestWeaver': W, 'PrefixWriter': X, 'ErrorListener': L, 'ObjectWriter': O, 'Options': OPT, 'LocationTrackerInterface': G},
       'opaque_types': ['Type', 'Field', 'TypeResolver'], 'ptr_by_value': [O, K, L],
       'upcast': {(P, O): 'Pipe::Proto', (W, O): 'Pipe::Weave', (X, O): 'Pipe::Prefix', ('C_StatusErrorListener', L): 'Listener::Own'},
       'ext_fields': {OPT: {k: BOOL for k in ('struct_integers_as_strings', 'ignore_unknown_fields', 'ignore_unknown_enum_values', 'use_lower_camel_for_enums', 'case_insensitive_enum_parsing', 'ignore_null_value_map_entry',
                                              'use_legacy_json_map_format', 'suppress_implicit_message_list_error', 'disable_implicit_message_list', 'suppress_implicit_scalar_list_error', 'disable_implicit_scalar_list',
                                              'suppress_object_to_scalar_error', 'use_json_name_in_missing_fields')}},
       'fields': {'RequestMessageTranslator': ['message_', 'sink_', 'error_listener_', 'proto_writer_', 'request_weaver_', 'prefix_writer_', 'writer_pipeline_', 'output_delimiter_', 'finished_'],
                  'StatusErrorListener': ['status_'],
                  'RequestInfo': ['message_type', 'body_field_path', 'variable_bindings', 'reject_binding_body_field_collisions', 'case_insensitive_enum_parsing']}}


class Parts:
    """the objects a RequestMessageTranslator is put together from: what they were made with; a StringByteSink appends to its string"""
    NAMES = (K, P, W, X, L, O, OPT, G)

    def own(self, tr, v, field, n):
        """v is the address of that field of this object"""
        q = tr.member(LV(tr.ctx_this), False, field, n).place
        if isinstance(v, LV) and v.t.k == 'ext':
            v = Ptr(v.place)
        if not isinstance(v, Ptr) or v.place is None or v.place.load() != q.load() or v.place.t != q.t:
            raise Unsupported('something else than &%s' % field, n)

    def construct(self, lib, tr, t, n, vals, ctx):
        a = [tr.rv(v) if not (isinstance(v, LV) and v.t.k == 'ext') else v for v in vals]
        if t.name == K and len(a) == 1:
            self.own(tr, a[0], 'message_', n)
            return V(t, 'Sink::Own')
        if t.name == OPT and len(a) == 1:
            return V(t, raw(tr.val(vals[0])))
        if t.name == P and len(a) == 5:
            self.own(tr, a[2], 'sink_', n)
            self.own(tr, a[3], 'error_listener_', n)
            return V(t, 'ProtoW { resolver: %s, message_type: %s, sink: Sink::Own, listener: Listener::Own, options: %s, strict: true, done: false }' % (
                raw(tr.coerce(a[0], T('id'), n)), raw(tr.coerce(a[1], T('id'), n)), raw(tr.val(vals[4]))))
        if t.name == W and len(a) == 4:
            self.own(tr, a[2], 'error_listener_', n)
            return V(t, 'WeaverT { bindings: %s, out: %s, listener: Listener::Own, reject: %s }' % (raw(tr.val(vals[0])), raw(tr.coerce(vals[1], T('ext', name=O), n)), raw(tr.coerce(a[3], BOOL, n))))
        if t.name == X and len(a) == 2:
            return V(t, 'PrefixT { path: %s, out: %s }' % (lib.as_str(tr, tr.val(vals[0]), n), raw(tr.coerce(vals[1], T('ext', name=O), n))))
        raise Unsupported('construction of %r' % t, n)

    def call(self, lib, tr, name, n, args, ctx, rd):
        if name == 'Defaults' and not lib.real(args):
            return V(T('ext', name=OPT), 'default_options()')
        return None

    def method(self, lib, tr, base, name, n, args, ctx):
        kind = base.t.name
        p = None if isinstance(base, V) else base.place
        args = lib.real(args)
        if kind == P and name == 'done' and not args:
            return V(BOOL, '%s.done' % (base.s if p is None else p.load()))
        if kind == P and name == 'set_use_strict_base64_decoding' and p is not None:
            p.store(tr, 'ProtoW { strict: %s, ..%s }' % (raw(tr.coerce(tr.evr(args[0], ctx), BOOL, n)), p.load()))
            return V(T('void'), '()')
        if kind == O and name == 'set_use_strict_base64_decoding':
            # reaches the proto writer only where the pipeline starts with it
            q = tr.member(LV(tr.ctx_this), False, 'proto_writer_', n).place
            v = raw(tr.coerce(tr.evr(args[0], ctx), BOOL, n))
            q.store(tr, '(if %s is Proto { ProtoW { strict: %s, ..%s } } else { %s })' % (base.s if p is None else p.load(), v, q.load(), q.load()))
            return V(T('void'), '()')
        if kind == G and name == 'ToString':
            return V(STR, 'loc_text(%s)' % (base.s if p is None else p.load()))
        if kind == K and name == 'Append' and p is not None:
            b, c = [tr.rv(tr.ev(x, ctx)) for x in args]
            m = tr.member(LV(tr.ctx_this), False, 'message_', n).place
            c = raw(tr.conv_int(c, U64, n))
            if isinstance(b, BufPtr):
                tr.ob('%s <= %s.len() - %s' % (c, b.base.load(), b.off), 'bytes appended in range', n)
                s = '%s.subrange(%s as int, %s + %s)' % (b.base.load(), b.off, b.off, c)
            else:
                raise Unsupported('bytes appended', n)
            m.store(tr, '%s + %s' % (m.load(), s))
            return V(T('void'), '()')
        raise Unsupported('%s::%s' % (kind, name), n)


EXT = Parts()
ERR = ('invalid', '@self.status_.code == 3')
SPACE = 'self.message_.len() >= 5'
CONTRACTS = {
    'G_SizeToDelimiter': dict(qual='SizeToDelimiter', params=['size', 'delimiter:buf'], requires=[('room', '0 <= delimiter_off && delimiter_off + 5 <= delimiter.len()')],
        ensures=[('prefix', '@delimiter =~= delimiter.subrange(0, delimiter_off) + prefix_of(size as int) + delimiter.subrange(delimiter_off + 5, delimiter.len() as int)')]),
    'G_Write': dict(qual='RequestMessageTranslator::WriteDelimiter', params=[], modifies=['message_'], requires=[('space', SPACE), ('size', 'self.message_.len() - 5 < 0x1_0000_0000')],
        ensures=[('prefix', '@self.message_ =~= framed(true, self.message_)')]),
    'G_Reserve': dict(qual='RequestMessageTranslator::ReserveDelimiterSpace', params=[], modifies=['message_'], requires=[], ensures=[('reserved', '@self.message_ =~= self.message_ + seq![0u8, 0, 0, 0, 0]')]),
    'G_Ctor': dict(qual='RequestMessageTranslator::RequestMessageTranslator', nparams=3, params=['type_resolver', 'output_delimiter', 'request_info'], requires=[('type', 'type_resolver != 0 && request_info.message_type != 0')],
        ensures=[('text', '@self.message_ =~= (if output_delimiter { seq![0u8, 0, 0, 0, 0] } else { Seq::empty() }) && @self.output_delimiter_ == output_delimiter && !@self.finished_ && @self.error_listener_.status_.code == 0'),
                 ('writer', '@self.proto_writer_ == writer_made(type_resolver, request_info)'),
                 ('bindings', '@self.request_weaver_ == weaver_made(request_info)'),
                 ('body', '@self.prefix_writer_ == prefix_made(request_info)'),
                 ('input', '@self.writer_pipeline_ == pipe_made(request_info)')]),
    'G_Input': dict(qual='RequestMessageTranslator::Input', ret=T('ext', name=O), params=[], modifies=[], requires=[], ensures=[('input', 'r == self.writer_pipeline_')]),
    'G_NextMessage': dict(qual='RequestMessageTranslator::NextMessage', params=['message'], modifies=['message_', 'finished_'],
        requires=[('out', 'message_nn'), ('space', 'self.output_delimiter_ ==> %s' % SPACE), ('size', 'self.message_.len() - 5 < 0x1_0000_0000')],
        ensures=[('returned', 'r == (!self.finished_ && self.proto_writer_.done)'), ('message', 'r ==> @message =~= framed(self.output_delimiter_, self.message_)'), ('finished', '@self.finished_ == (self.finished_ || r)'),
                 ('unchanged', '!r ==> @message == message && @self.message_ == self.message_')]),
    'G_Finished': dict(qual='RequestMessageTranslator::Finished', params=[], modifies=[], requires=[], ensures=[('finished', 'r == self.finished_')]),
    'G_Status': dict(qual='RequestMessageTranslator::Status', params=[], modifies=[], requires=[], ensures=[('status', 'r == self.error_listener_.status_')]),
    'E_InvalidName': dict(qual='StatusErrorListener::InvalidName', params=['loc', 'unknown_name', 'message'], requires=[], ensures=[ERR]),
    'E_InvalidValue': dict(qual='StatusErrorListener::InvalidValue', params=['loc', 'type_name', 'value'], requires=[], ensures=[ERR]),
    'E_MissingField': dict(qual='StatusErrorListener::MissingField', params=['loc', 'missing_name'], requires=[], ensures=[ERR]),
    'E_set_status': dict(qual='StatusErrorListener::set_status', params=['status'], requires=[], ensures=[('set', '@self.status_ == status')]),
    'E_status': dict(qual='StatusErrorListener::status', params=[], requires=[], ensures=[('status', 'r == self.status_')]),
}
