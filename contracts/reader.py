"""Contracts for message_reader.cc (properties C15, C16, C18)."""
from ct import T, STR, BOOL, I32, I64, U64
from tr import V, LV, Ptr, raw
from cxx import Unsupported
TUS = ['message_reader']
IMPORTS = []
SPECS = ['reader']
S = 'InStream'
CFG = {'ext_types': {k: S for k in ('TranscoderInputStream', 'ZeroCopyInputStream', 'LimitingInputStream')},
       'fields': {'MessageReader': ['in_', 'current_message_size_', 'have_current_message_size_', 'finished_', 'status_', 'delimiter_']},
       'ptr_by_value': [S]}


class Streams:
    """TranscoderInputStream / ZeroCopyInputStream as specified by their interfaces; no bytes arrive during one call"""
    NAMES = (S,)

    def construct(self, lib, tr, t, n, vals, ctx):
        real = [v for v in vals]
        if len(real) == 2:
            a = tr.val(real[0]) if not isinstance(real[0], LV) else V(real[0].t, real[0].place.load())
            return V(T('ext', name=S), 'limited(%s, %s)' % (a.s, tr.conv_int(tr.val(real[1]), I64).s))
        raise Unsupported('stream constructor', n)

    def method(self, lib, tr, base, name, n, args, ctx):
        if isinstance(base, V):
            raise Unsupported('stream method on a temporary', n)
        p = base.place
        s = p.load()
        if name == 'BytesAvailable':
            return V(I64, 'avail(%s)' % s)
        if name == 'Finished':
            return V(BOOL, '%s.fin' % s)
        if name == 'Next':
            d, z = [tr.rv(tr.ev(a, ctx)) for a in lib.real(args)]
            if not (isinstance(d, Ptr) and isinstance(z, Ptr)):
                raise Unsupported('arguments of Next', n)
            s = tr.let(s, S)
            c = tr.fresh('n')
            tr.emit('let %s_h = havoc::<i32>(); let ghost %s: int = %s_h@ as int;' % (c, c, c))
            o = tr.fresh('ok')
            tr.emit('let %s_h = havoc::<bool>(); let ghost %s: bool = %s_h@;' % (o, o, o))
            tr.emit('proof { assume(0 <= %s <= avail(%s)); }' % (c, s))
            tr.emit('proof { assume(!%s ==> avail(%s) == 0 && %s.fin && %s == 0); }' % (o, s, s, c))
            tr.emit('proof { assume(%s && %s == 0 ==> %s.empties > 0); }' % (o, c, s))
            tr.deref(d, n).store(tr, '%s.data.subrange(%s.pos, %s.pos + %s)' % (s, s, s, c))
            tr.deref(z, n).store(tr, '%s as i32' % c)
            p.store(tr, 'InStream { pos: %s.pos + %s, last: %s, empties: (if %s && %s == 0 { (%s.empties - 1) as nat } else { %s.empties }), .. %s }' % (s, c, c, o, c, s, s, s))
            return V(BOOL, o)
        if name == 'BackUp':
            c = tr.evr(lib.real(args)[0], ctx)
            tr.ob('0 <= %s <= %s.last' % (c.s, s), 'BackUp of at most the last chunk', n)
            s = tr.let(s, S)
            p.store(tr, 'InStream { pos: %s.pos - %s, last: 0, .. %s }' % (s, c.s, s))
            return V(T('void'), '()')
        raise Unsupported('stream method ' + name, n)


EXT = Streams()
H = 'RS { s: self.in_, hdr: self.have_current_message_size_, size: self.current_message_size_ as int, finished: self.finished_, failed: self.status_.code != 0 }'
H2 = H.replace('self.', '@self.')
OK = ('state', 'rs_ok(%s) && self.delimiter_.len() == 5 && (self.have_current_message_size_ ==> self.delimiter_ =~= self.in_.data.subrange(self.in_.pos - 5, self.in_.pos))' % H)
OK2 = ('state', OK[1].replace('self.', '@self.'))


def ens(r):
    n = 'next(%s)' % H
    return [('returned', '%s is Some == yields(%s)' % (r, H)),
            ('message', '%s is Some ==> %s->0.data == self.in_.data && %s->0.pos == %s.s.pos && %s->0.end == %s.s.pos + %s.size' % (r, r, r, n, r, n, n)),
            ('position', 'same_source(self.in_, @self.in_) && @self.in_.pos == %s.s.pos' % n),
            ('pending', '@self.have_current_message_size_ == %s.hdr' % n),
            ('finished', '@self.finished_ == %s.finished' % n),
            ('status', '(@self.status_.code != 0) == %s.failed && (%s.failed && !over(%s) ==> @self.status_.code == 13) && (over(%s) ==> @self.status_ == self.status_)' % (n, n, H, H)),
            OK2]


CONTRACTS = {
    'R_ReadStream': dict(qual='ReadStream', params=['stream', 'buffer:buf', 'size'],
        requires=[('input', 'input_ok(stream)'), ('room', '0 <= size && 0 <= buffer_off && buffer_off + size <= buffer.len()')],
        ensures=[('read', 'r ==> avail(stream) >= size && @stream.pos == stream.pos + size && @buffer =~= buffer.subrange(0, buffer_off) + stream.data.subrange(stream.pos, stream.pos + size) + buffer.subrange(buffer_off + size, buffer.len() as int)'),
                 ('short', '!r ==> avail(stream) < size && stream.fin'),
                 ('source', 'same_source(stream, @stream) && input_ok(@stream) && @buffer.len() == buffer.len()')],
        loops=['input_ok(@stream) && same_source(stream, @stream)', '@buffer.len() == buffer.len()', '0 <= $n:int <= size', '0 <= $c:int <= @stream.last',
               '@stream.pos - $c:int - stream.pos == size - $n:int', '$n:int > 0 ==> $c:int == 0', '$o:off == buffer_off + size - $n:int',
               '@buffer =~= buffer.subrange(0, buffer_off) + stream.data.subrange(stream.pos, stream.pos + (size - $n:int)) + buffer.subrange(buffer_off + (size - $n:int), buffer.len() as int)',
               '@stream.pos - $c:int - stream.pos == $n:int', '$n:int < size ==> $c:int == 0', '$c:int == 0', '@stream.pos - stream.pos == $n:int', '@buffer =~= buffer.subrange(0, buffer_off) + stream.data.subrange(stream.pos, stream.pos + $n:int) + buffer.subrange(buffer_off + $n:int, buffer.len() as int)'],
        measures=['($n:int) + @stream.empties as int', '@stream.end - @stream.pos + $c:int + @stream.empties as int', '@stream.end - @stream.pos + @stream.empties as int', 'size - ($n:int) + @stream.empties as int']),
    'R_DelimiterToSize': dict(qual='DelimiterToSize', params=['d:buf'], requires=[('header', '0 <= d_off && d_off + 5 <= d.len()')], ensures=[('big_endian', 'r == be32(d, d_off + 1)')],
        hints=dict(entry=['lemma_bit_or_low();'])),
    'R_NextMessage': dict(qual='MessageReader::NextMessage', params=[], requires=[OK],
        ensures=ens('r') + [('header', 'r is Some ==> r->0.pos >= 5 && @self.delimiter_ =~= r->0.data.subrange(r->0.pos - 5, r->0.pos) && @self.current_message_size_ == r->0.end - r->0.pos')]),
    'R_Finished': dict(qual='MessageReader::Finished', params=[], requires=[], ensures=[('over', 'r == over(%s)' % H)]),
    'R_Status': dict(qual='MessageReader::Status', params=[], requires=[], ensures=[('status', 'r == self.status_')]),
    'R_Frame': dict(qual='MessageReader::NextMessageAndGrpcFrame', params=[], requires=[OK],
        ensures=ens('r.message') + [('frame', 'r.message is Some ==> r.grpc_frame =~= r.message->0.data.subrange(r.message->0.pos - 5, r.message->0.pos) && r.message->0.pos >= 5'),
                                    ('size', 'r.message is Some ==> r.message_size == r.message->0.end - r.message->0.pos')]),
    'R_Ctor': dict(qual='MessageReader::MessageReader', nparams=1, params=['in'], requires=[], ensures=[('start', '@self.in_ == in && !@self.have_current_message_size_ && !@self.finished_ && @self.status_.code == 0 && @self.delimiter_.len() == 5')]),
}
