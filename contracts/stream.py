"""Contracts for message_stream.cc (property C17)."""
from ct import T, STR, BOOL
from tr import V, LV, Ptr, raw
from cxx import Unsupported
TUS = ['message_stream']
IMPORTS = []
SPECS = ['stream']
STRUCTS = ['InputStreamOverMessageStream']
S = 'MsgStream'
CFG = {'ext_types': {'MessageStream': S, 'TranscoderInputStream': 'ByteStream'}, 'ext_this': {'MessageStream': S}, 'upcast': {('C_InputStreamOverMessageStream', 'ByteStream'): 'byte_stream(%(x)s)'},
       'fields': {'InputStreamOverMessageStream': ['src_', 'message_', 'position_']}}


class Msgs:
    """MessageStream as specified by its interface; NextMessage leaves the string alone when it returns false"""
    NAMES = (S,)

    def method(self, lib, tr, base, name, n, args, ctx):
        if isinstance(base, V):
            raise Unsupported('message stream method on a temporary', n)
        p = base.place
        s = p.load()
        if name == 'Finished':
            return V(BOOL, '(%s.fin && %s.ahead.len() == 0)' % (s, s))
        if name == 'NextMessage':
            m = tr.rv(tr.ev(lib.real(args)[0], ctx))
            if not isinstance(m, Ptr):
                raise Unsupported('argument of NextMessage', n)
            s = tr.let(s, S)
            q = tr.deref(m, n)
            q.store(tr, '(if %s.ahead.len() > 0 { %s.ahead[0] } else { %s })' % (s, s, q.load()))
            p.store(tr, '(if %s.ahead.len() > 0 { MsgStream { ahead: %s.ahead.skip(1), ..%s } } else { %s })' % (s, s, s, s))
            return V(BOOL, '(%s.ahead.len() > 0)' % s)
        raise Unsupported('message stream method ' + name, n)


EXT = Msgs()
ME = 'self.message_, self.position_ as int, self.src_'
ME2 = '@self.message_, @self.position_ as int, @self.src_'
REST = 'rest(%s.ahead)' % ME
REST2 = 'rest(%s.ahead)' % ME2
CH = 'chunk(%s.ahead)' % ME
OK = ('state', 'st_ok(%s)' % ME)
OK2 = ('state', 'st_ok(%s) && @self.src_.fin == self.src_.fin' % ME2)
F = ['src_', 'message_', 'position_']
CONTRACTS = {
    'S_ReadNextMessage': dict(qual='InputStreamOverMessageStream::ReadNextMessage', params=[], modifies=F, requires=[OK],
        ensures=[('message', '@self.position_ == 0 && ({ let d = drop_empty(self.src_.ahead); if d.len() > 0 { @self.message_ == d[0] && @self.src_.ahead == d.skip(1) } else { @self.message_.len() == 0 && @self.src_.ahead.len() == 0 } })'),
                 OK2],
        loops=['ms_ok(@self.src_) && @self.src_.fin == self.src_.fin', '@self.position_ == 0', '@self.message_.len() == 0', '$v:str.len() == 0', '$v:str.len() <= 0x7fff_ffff',
               'if $v:str.len() == 0 { drop_empty(@self.src_.ahead) == drop_empty(self.src_.ahead) } else { drop_empty(self.src_.ahead) =~= seq![$v:str] + @self.src_.ahead }',
               '$more:bool || @self.src_.ahead.len() == 0', '!$done:bool || @self.src_.ahead.len() == 0',
               'if @self.message_.len() == 0 { drop_empty(@self.src_.ahead) == drop_empty(self.src_.ahead) } else { drop_empty(self.src_.ahead) =~= seq![@self.message_] + @self.src_.ahead }',
               '@self.message_.len() <= 0x7fff_ffff'],
        measures=['@self.src_.ahead.len() as int'], hints=dict(entry=['lemma_drops();'])),
    'S_Next': dict(qual='InputStreamOverMessageStream::Next', params=['data:outregion', 'size'], modifies=F, requires=[OK, ('out', 'size_nn')],
        ensures=[('result', 'r == !(%s.len() == 0 && self.src_.fin)' % REST),
                 ('size', '@size == %s' % CH),
                 ('bytes', '@size > 0 ==> @data.len() >= @size && @data.take(@size as int) =~= %s.take(@size as int)' % REST),
                 ('rest', '%s =~= %s.skip(%s)' % (REST2, REST, CH)),
                 ('backup', '%s <= @self.position_ && (%s > 0 ==> @self.message_.subrange(@self.position_ - %s, @self.position_ as int) =~= %s.take(%s))' % (CH, CH, CH, REST, CH)),
                 OK2],
        hints=dict(entry=['lemma_drops();', 'lemma_chunk(%s);' % ME])),
    'S_BackUp': dict(qual='InputStreamOverMessageStream::BackUp', params=['count'], modifies=F, requires=[OK],
        ensures=[('position', '@self.position_ == if 0 < count && count <= self.position_ { self.position_ - count } else { self.position_ as int }'), ('same', '@self.message_ == self.message_ && @self.src_ == self.src_')]),
    'S_BytesAvailable': dict(qual='InputStreamOverMessageStream::BytesAvailable', params=[], modifies=F, requires=[OK],
        ensures=[('count', 'r == %s' % CH), ('rest', '%s =~= %s' % (REST2, REST)), ('next', 'chunk(%s.ahead) == %s' % (ME2, CH)), OK2],
        hints=dict(entry=['lemma_drops();', 'lemma_chunk(%s);' % ME])),
    'S_Finished': dict(qual='InputStreamOverMessageStream::Finished', params=[], modifies=[], requires=[], ensures=[('finished', 'r == (self.src_.fin && self.src_.ahead.len() == 0)')]),
    'S_Ctor': dict(qual='InputStreamOverMessageStream::InputStreamOverMessageStream', nparams=1, params=['src'], requires=[], ensures=[('start', '@self.src_ == src && @src == src && @self.message_.len() == 0 && @self.position_ == 0')]),
    'S_Create': dict(qual='MessageStream::CreateInputStream', params=[], modifies=[], requires=[], ensures=[('adapter', 'r is Some && exists|m: C_InputStreamOverMessageStream| r->0 == byte_stream(m) && m.src_ == self.obj && m.message_.len() == 0 && m.position_ == 0')]),
}
