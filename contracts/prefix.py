"""Contracts for prefix_writer.cc (property C19)."""
from events import PIECES
TUS = ['prefix_writer']
IMPORTS = ['events']
SPECS = ['events', 'prefix']
CFG = {'fields': {'PrefixWriter': ['prefix_', 'non_actionable_depth_', 'writer_']}}
F = ['non_actionable_depth_', 'writer_']
D = 'self.non_actionable_depth_'


def ev(name, params, event, room):
    e = event
    return dict(qual='PrefixWriter::' + name, params=params, modifies=F, requires=[('nested', room)],
                ensures=[('events', '@self.writer_.log =~= self.writer_.log + px_step(self.prefix_, %s, %s)' % (D, e)), ('depth', '@%s == level_after(%s, %s)' % (D, D, e))])


NEST = '0 <= %s < 0x7fff_ffff' % D
OPEN = '0 < %s' % D
CONTRACTS = {
    'P_StartPrefix': dict(qual='PrefixWriter::StartPrefix', params=['name'], modifies=['writer_'], requires=[],
        ensures=[('name', 'r =~= px_name(self.prefix_, name)'), ('events', '@self.writer_.log =~= self.writer_.log + px_open(self.prefix_, name)')],
        loops=['@self.writer_.log =~= self.writer_.log + px_open(self.prefix_, name).take($o:off as int)', '@name =~= if $o:off == 0 { name } else { self.prefix_[$o:off - 1] }',
               '@self.writer_.log =~= self.writer_.log + px_open(self.prefix_, name).take($o:u64 as int)', '@name =~= if $o:u64 == 0 { name } else { self.prefix_[$o:u64 - 1] }',
               '0 <= $o:u64 <= self.prefix_.len()', '0 <= $o:off <= self.prefix_.len()',
               '$n:str =~= if $o:pos == 0 { name } else { self.prefix_[$o:pos - 1] }']),
    'P_EndPrefix': dict(qual='PrefixWriter::EndPrefix', params=[], modifies=['writer_'], requires=[],
        ensures=[('events', '@self.writer_.log =~= self.writer_.log + px_close(self.prefix_)')],
        loops=['@self.writer_.log =~= self.writer_.log + px_close(self.prefix_).take($i:int as int)', '0 <= $i:int <= self.prefix_.len()',
               '@self.writer_.log =~= self.writer_.log + px_close(self.prefix_).take($o:off as int)',
               '@self.writer_.log =~= self.writer_.log + px_close(self.prefix_).take(self.prefix_.len() - $i:int)']),
    'P_Ctor': dict(qual='PrefixWriter::PrefixWriter', nparams=2, params=['prefix', 'ow'], requires=[],
        ensures=[('prefix', "@self.prefix_ =~= not_empty(split(prefix, '.' as u8))".replace("'.' as u8", '46')), ('start', '@self.non_actionable_depth_ == 0 && @self.writer_ == ow')]),
    'P_StartObject': ev('StartObject', ['name'], 'Evt::StartObject(name)', NEST),
    'P_EndObject': ev('EndObject', [], 'Evt::EndObject', OPEN),
    'P_StartList': ev('StartList', ['name'], 'Evt::StartList(name)', NEST),
    'P_EndList': ev('EndList', [], 'Evt::EndList', OPEN),
    'P_RenderNull': ev('RenderNull', ['name'], 'Evt::Value(name, Piece::Null)', '0 <= ' + D),
}
for k, (c, t) in PIECES.items():
    v = 'value' if t.k not in ('int',) else 'value as %s%d' % ('i' if t.signed else 'u', t.bits)
    CONTRACTS['P_' + k] = ev(k, ['name', 'value'], 'Evt::Value(name, Piece::%s(%s))' % (c, v), '0 <= ' + D)
