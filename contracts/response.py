"""Contracts for response_to_json_translator.cc (property C24)."""
from ct import T, STR, BOOL, CHAR
from tr import V, LV, Ptr, Root, RecPlace, FieldP, raw
from cxx import Unsupported
TUS = ['response_to_json_translator']
IMPORTS = ['reader']
SPECS = ['reader', 'response']
STRUCTS = ['MessageReader', 'JsonResponseTranslateOptions']
O, S = 'OutS', 'InStream'
CFG = {'ext_types': {'ZeroCopyOutputStream': O, 'StringOutputStream': O, 'JsonPrintOptions': 'PrintOptions'}, 'opaque_types': ['TypeResolver'],
       'fields': {'ResponseToJsonTranslator': ['type_resolver_', 'type_url_', 'options_', 'streaming_', 'reader_', 'first_', 'finished_', 'status_'],
                  'JsonResponseTranslateOptions': ['json_print_options', 'stream_newline_delimited']}}
STATUS = T('status')


class Json:
    """StringOutputStream appends to its string and never fails; BinaryToJsonStream appends the JSON of the message that it reads to its end"""
    NAMES = (O, 'PrintOptions')

    def construct(self, lib, tr, t, n, vals, ctx):
        v = tr.rv(vals[0]) if len(vals) == 1 else None
        if not isinstance(v, Ptr) or v.place is None or v.place.t != STR:
            raise Unsupported('construction of an output stream', n)
        p = tr.deref(v, n)
        return LV(RecPlace(T('ext', name=O), {'data': p, 'last': Root(tr.decl('last', 'int', '0int'), T('outwin'))}))

    def method(self, lib, tr, base, name, n, args, ctx):
        if isinstance(base, V):
            raise Unsupported('method of a temporary', n)
        p = base.place
        args = lib.real(args)
        if name == 'Next':
            d, z = [tr.rv(tr.ev(a, ctx)) for a in args]
            if not (isinstance(d, Ptr) and isinstance(z, Ptr) and d.place is not None and d.place.t.k == 'outwin'):
                raise Unsupported('arguments of Next', n)
            s = tr.let(p.load(), O)
            g = tr.fresh('chunk')
            tr.emit('let %s_h = havoc::<Seq<u8>>(); let ghost %s: Seq<u8> = %s_h@;' % (g, g, g))
            tr.emit('proof { assume(0 < %s.len() <= 0x7fff_ffff && %s.data.len() + %s.len() <= max_size()); }' % (g, s, g))
            d.place.store(tr, '%s.data.len() as int' % s)
            tr.deref(z, n).store(tr, '%s.len() as i32' % g)
            p.store(tr, 'OutS { data: %s.data + %s, last: %s.len() as int }' % (s, g, g))
            tr.winbase[d.place.load()] = FieldP(p, 'data', STR)
            return V(BOOL, 'true')
        if name == 'BackUp':
            c = tr.evr(args[0], ctx)
            s = tr.let(p.load(), O)
            tr.ob('0 <= %s <= %s.last' % (c.s, s), 'BackUp of at most the last chunk', n)
            p.store(tr, 'OutS { data: %s.data.subrange(0, %s.data.len() - %s), last: 0 }' % (s, s, c.s))
            return V(T('void'), '()')
        raise Unsupported('output stream method ' + name, n)

    def call(self, lib, tr, name, n, args, ctx, rd):
        if name != 'BinaryToJsonStream':
            return None
        a = [tr.ev(x, ctx) for x in lib.real(args)]
        if len(a) != 5:
            raise Unsupported('arguments of BinaryToJsonStream', n)
        res, url, opt = tr.rv(a[0]), lib.as_str(tr, tr.rv(a[1]), n), tr.rv(a[4])
        ip, op = [tr.deref(x, n) if isinstance(x, Ptr) else x.place for x in (a[2], a[3])]
        if ip.t != T('ext', name=S) or op.t != T('ext', name=O):
            raise Unsupported('streams of BinaryToJsonStream', n)
        r = tr.member(LV(tr.ctx_this), False, 'reader_', n).place
        src = FieldP(r, 'in_', T('ext', name=S))
        q = tr.let(ip.load(), S)
        u = tr.let(src.load(), S)
        tr.ob('%s.data == %s.data && %s.pos == %s.pos && %s.end <= %s.end' % (q, u, q, u, q, u), 'the message read is the one the reader returned', n)
        b = tr.let('%s.data.subrange(%s.pos, %s.end)' % (q, q, q), 'Seq<u8>')
        o = tr.let(op.load(), O)
        j = tr.let('json_of(%s, %s, %s, %s)' % (raw(tr.coerce(res, T('id'), n)), url, b, raw(tr.val(opt))), 'StatusOr<Seq<u8>>')
        g, k = tr.fresh('some'), tr.fresh('read')
        tr.emit('let %s_h = havoc::<Seq<u8>>(); let ghost %s: Seq<u8> = %s_h@;' % (g, g, g))
        tr.emit('let %s_h = havoc::<i64>(); let ghost %s: int = %s_h@ as int;' % (k, k, k))
        tr.emit('proof { assume(%s.pos <= %s <= %s.end && (%s is Ok ==> %s == %s.end)); }' % (q, k, q, j, k, q))
        op.store(tr, 'OutS { data: %s.data + match %s { StatusOr::Ok(t_) => t_, StatusOr::Err(_) => %s }, last: 0 }' % (o, j, g))
        ip.store(tr, 'InStream { pos: %s, last: 0, ..%s }' % (k, q))
        src.store(tr, 'InStream { pos: %s, last: 0, ..%s }' % (k, u))
        return V(STATUS, '(match %s { StatusOr::Ok(_) => status_ok(), StatusOr::Err(e_) => e_ })' % j)


EXT = Json()
RD = 'RS { s: self.reader_.in_, hdr: self.reader_.have_current_message_size_, size: self.reader_.current_message_size_ as int, finished: self.reader_.finished_, failed: self.reader_.status_.code != 0 }'
S_ = 'TS { h: %s, first: self.first_, fin: self.finished_, st: self.status_ }' % RD
S2 = S_.replace('self.', '@self.')
C = 'TC { resolver: self.type_resolver_, url: self.type_url_, opts: self.options_, streaming: self.streaming_ }'
ROK = ('reader', 'rs_ok(%s) && self.reader_.delimiter_.len() == 5 && (self.reader_.have_current_message_size_ ==> self.reader_.delimiter_ =~= self.reader_.in_.data.subrange(self.reader_.in_.pos - 5, self.reader_.in_.pos))' % RD)
ROK2 = ('reader', ROK[1].replace('self.', '@self.'))
CONTRACTS = {
    'W_Char': dict(qual='WriteChar', params=['stream', 'c'], requires=[], ensures=[('appended', 'r && @stream.data =~= stream.data.push(c)')]),
    'W_Ctor': dict(qual='ResponseToJsonTranslator::ResponseToJsonTranslator', nparams=5, params=['type_resolver', 'type_url', 'streaming', 'in', 'options'], requires=[],
        ensures=[('start', '@self.type_resolver_ == type_resolver && @self.type_url_ == type_url && @self.options_ == options && @self.streaming_ == streaming && @self.first_ && !@self.finished_ && @self.status_.code == 0'),
                 ('reader', '@self.reader_.in_ == in && !@self.reader_.have_current_message_size_ && !@self.reader_.finished_ && @self.reader_.status_.code == 0 && @self.reader_.delimiter_.len() == 5')]),
    'W_Translate': dict(qual='ResponseToJsonTranslator::TranslateMessage', params=['proto_in', 'json_out'], modifies=['reader_', 'first_', 'status_'],
        requires=[('message', 'proto_in.data == self.reader_.in_.data && proto_in.pos == self.reader_.in_.pos && proto_in.pos <= proto_in.end <= self.reader_.in_.end'), ('out', 'json_out_nn && json_out.len() == 0')],
        ensures=[('result', 'r == piece(%s, self.first_, proto_in.data.subrange(proto_in.pos, proto_in.end)) is Ok' % C),
                 ('text', 'r ==> @json_out =~= piece(%s, self.first_, proto_in.data.subrange(proto_in.pos, proto_in.end))->Ok_0' % C),
                 ('status', '@self.status_ == (match piece(%s, self.first_, proto_in.data.subrange(proto_in.pos, proto_in.end)) { StatusOr::Ok(_) => status_ok(), StatusOr::Err(e_) => e_ })' % C),
                 ('failed', '!r ==> @self.status_.code != 0'),
                 ('first', 'r ==> @self.first_ == (self.first_ && !as_array(%s))' % C),
                 ('position', '@self.reader_ == (C_MessageReader { in_: @self.reader_.in_, .. self.reader_ }) && same_source(self.reader_.in_, @self.reader_.in_) && self.reader_.in_.pos <= @self.reader_.in_.pos <= proto_in.end && (r ==> @self.reader_.in_.pos == proto_in.end) && @self.reader_.in_.last == 0')]),
    'W_NextMessage': dict(qual='ResponseToJsonTranslator::NextMessage', params=['message'], modifies=['reader_', 'first_', 'finished_', 'status_'],
        requires=[('out', 'message_nn'), ROK],
        ensures=[('returned', 'r == gives(%s, %s) || (r && ends_lines(%s, %s) && @message.len() == 0)' % (C, S_, C, S_)),
                 ('message', 'r && !ends_lines(%s, %s) ==> @message =~= returned(%s, %s)' % (C, S_, C, S_)),
                 ('reader_status', '!t_over(%s) && next(%s).failed ==> @self.status_ == @self.reader_.status_' % (S_, RD)),
                 ('state', 'after_call(%s, %s, %s)' % (C, S_, S2)),
                 ('reader', '@self.status_.code == 0 ==> (%s)' % ROK2[1])]),
    'W_Finished': dict(qual='ResponseToJsonTranslator::Finished', params=[], modifies=[], requires=[], ensures=[('finished', 'r == (self.finished_ || self.status_.code != 0)')]),
    'W_Status': dict(qual='ResponseToJsonTranslator::Status', params=[], modifies=[], requires=[], ensures=[('status', 'r == self.status_')]),
}
