"""Contracts for request_weaver.cc (properties C20, C21)."""
from ct import T, STR, BOOL, I32, U32, I64, U64, F64, F32, TREE
from tr import V, LV, Ptr, raw, FieldP
from cxx import Unsupported
from events import PIECES
TUS = ['request_weaver']
IMPORTS = ['events']
SPECS = ['events', 'weaver']
STRUCTS = ['RequestWeaver::WeaveInfo', 'RequestWeaver::BindingInfo']
D, L = 'Piece', 'ErrSink'
NODE = 'C_RequestWeaver_WeaveInfo'
CFG = {'ext_types': {'DataPiece': D, 'StatusErrorListener': L}, 'ptr_by_value': [L], 'opaque_types': ['Field'],
       'ext_enums': ['DataPiece_Type', 'Type', 'Field_Cardinality', 'Cardinality'],
       'ext_enum_values': {'CARDINALITY_REPEATED': 3, 'Field_Cardinality_CARDINALITY_REPEATED': 3, 'CARDINALITY_OPTIONAL': 1, 'CARDINALITY_REQUIRED': 2, 'CARDINALITY_UNKNOWN': 0,
                           'Field_Cardinality_CARDINALITY_OPTIONAL': 1, 'Field_Cardinality_CARDINALITY_REQUIRED': 2, 'Field_Cardinality_CARDINALITY_UNKNOWN': 0},
       'tree': {'rec': NODE, 'children': 'messages', 'roots': {'RequestWeaver': 'root_'}},
       'fields': {'RequestWeaver': ['root_', 'current_', 'ow_', 'non_actionable_depth_', 'error_listener_', 'report_collisions_'],
                  'RequestWeaver::WeaveInfo': ['messages', 'bindings'], 'RequestWeaver::BindingInfo': ['field_path', 'value']}}
TYPES = ['INT32', 'INT64', 'UINT32', 'UINT64', 'DOUBLE', 'FLOAT', 'BOOL', 'ENUM', 'STRING', 'BYTES', 'NULL']
for i, k in enumerate(TYPES):
    CFG['ext_enum_values']['TYPE_' + k] = i + 1
CONV = {'ToInt32': ('i32', I32), 'ToInt64': ('i64', I64), 'ToUint32': ('u32', U32), 'ToUint64': ('u64', U64), 'ToDouble': ('f64', F64), 'ToFloat': ('f32', F32), 'ToBool': ('bool', BOOL),
        'ToString': ('text', STR), 'ToBytes': ('bytes', STR)}
VAR = {'i32': 'I32', 'i64': 'I64', 'u32': 'U32', 'u64': 'U64', 'f64': 'Double', 'f32': 'Float', 'bool': 'Bool'}
ATTR = {'name': (STR, 'pb_name(%s)'), 'cardinality': (T('enum', name='Cardinality'), 'pb_cardinality(%s)')}


class Pieces:
    """DataPiece: the value it was made from; conversions to other types are not interpreted.  StatusErrorListener: its status (C27)"""
    NAMES = (D, L, 'opaque:Field')

    def construct(self, lib, tr, t, n, vals, ctx):
        if t.name != D:
            raise Unsupported('construction of %r' % t, n)
        v = tr.rv(vals[0])
        if isinstance(v, V) and v.t.k == 'ext' and len(vals) == 1:
            return v
        if len(vals) == 1:
            ty = v.t
            k = {'int': lambda: ('i' if ty.signed else 'u') + str(ty.bits), 'float': lambda: ty.name, 'bool': lambda: 'bool'}.get(ty.k, lambda: None)()
            if k not in VAR:
                raise Unsupported('DataPiece made from %r' % ty, n)
            return V(t, 'Piece::%s(%s)' % (VAR[k], raw(tr.coerce(v, ty, n))))
        s = lib.as_str(tr, v, n)
        if len(vals) == 2:
            return V(t, 'Piece::Text(%s)' % s)
        return V(t, '(if %s { Piece::Bytes(%s) } else { Piece::Text(%s) })' % (raw(tr.coerce(vals[1], BOOL, n)), s, s))

    def call(self, lib, tr, name, n, args, ctx, rd):
        if name == 'RenderDataPieceTo':
            p, nm, w = tr.ev_list(lib.real(args), ctx)
            p, nm = tr.rv(p), lib.as_str(tr, tr.rv(nm), n)
            w = tr.rv(w) if not (isinstance(w, LV) and w.t.k == 'ext') else w
            q = w.place if isinstance(w, LV) else tr.deref(w, n)
            e = tr.let('Evt::Value(%s, %s)' % (nm, p.s), 'Evt')
            q.store(tr, 'Writer { log: %s.log.push(%s) }' % (q.load(), e))
            return V(T('void'), '()')
        return None

    def method(self, lib, tr, base, name, n, args, ctx, cls=None):
        s = tr.rv(base).s if not isinstance(base, LV) else base.place.load()
        args = lib.real(args)
        if base.t.k == 'opaque':
            if name in ATTR and not args:
                t, e = ATTR[name]
                return V(t, e % s)
            raise Unsupported('%s of a protobuf object' % name, n)
        if base.t.name == D:
            if name == 'type':
                return V(T('enum', name='DataPiece_Type'), 'piece_type(%s)' % s)
            if name in CONV:
                k, t = CONV[name]
                if k in ('text', 'bytes') and args:
                    raise Unsupported('DataPiece::' + name, n)
                return V(T('statusor', (t,)), 'to_%s_(%s)' % (k, s))
            if name == 'ValueAsStringOrDefault':
                d = lib.as_str(tr, tr.evr(args[0], ctx), n)
                return V(STR, 'piece_text(%s, %s)' % (s, d))
        if base.t.name == L and isinstance(base, LV):
            if name == 'set_status':
                v = tr.val(tr.ev(args[0], ctx))
                base.place.store(tr, 'ErrSink { st: %s }' % raw(tr.coerce(v, T('status'), n)))
                return V(T('void'), '()')
            if name == 'status':
                return V(T('status'), '%s.st' % s)
        raise Unsupported('%s::%s' % (base.t.name, name), n)


EXT = Pieces()
F = ['root_', 'current_', 'ow_', 'non_actionable_depth_', 'error_listener_']
S = 'WS { root: self.root_, cur: self.current_, nad: self.non_actionable_depth_ as int, w: self.ow_, err: self.error_listener_.st }'
S2 = S.replace('self.', '@self.')
OK = ('state', 'ws_ok(%s)' % S)
ROOM = ('depth', 'self.non_actionable_depth_ < 0x7fff_ffff')


def ev(name, params, event, *reqs, hints=None):
    return dict(qual='RequestWeaver::' + name, params=params, modifies=F, requires=[OK] + list(reqs), hints=hints or dict(entry=['lemma_tree();']),
                ensures=[('events', '@self.ow_.log =~= self.ow_.log + w_events(%s, %s)' % (S, event)), ('tree', '@self.root_ == w_root(%s, %s)' % (S, event)),
                         ('position', '@self.current_ =~= w_cur(%s, %s) && @self.non_actionable_depth_ == w_nad(%s, %s)' % (S, event, S, event)),
                         ('error', 'w_err(%s, self.report_collisions_, %s, @self.error_listener_.st)' % (S, event))])


P = 'self.current_.last()'
B0, B = 'top(%s).bindings' % S, 'tree_at(@self.root_, %s).bindings' % P
R = '%s.skip($i:off as int)' % B
CC = ['@self.current_ == self.current_ && self.current_.len() > 0', '$p:tree == %s' % P, 'tree_ok(@self.root_, %s)' % P, '0 <= $i:off <= %s.len()' % B,
      '@self.root_ == tree_put(self.root_, %s, C_RequestWeaver_WeaveInfo { bindings: %s, ..top(%s) })' % (P, B, S),
      '%s =~= kept(%s, name) + %s' % (B, B0, R)]
CC[-1] = 'kept(%s, name) =~= %s.take($i:off as int) + kept(%s, name)' % (B0, B, R)
CC += ['self.ow_.log + bound_repeated(%s, name) =~= @self.ow_.log + bound_repeated(%s, name)' % (B0, R), 'forall|j_: int| 0 <= j_ < %s.len() ==> (#[trigger] %s[j_]).0 != 0' % (B, B),
       'if @self.error_listener_.st == self.error_listener_.st { !self.report_collisions_ || clash(%s, name, value_in_body) == clash(%s, name, value_in_body) || (self.error_listener_.st.code == 3 && clash(%s, name, value_in_body)) } else { @self.error_listener_.st.code == 3 && self.report_collisions_ && clash(%s, name, value_in_body) }' % (B0, R, B0, B0)]
MS = ('fields', 'msgs_ok(self.messages)')
CONTRACTS = {
    'V_Find': dict(qual='RequestWeaver::WeaveInfo::FindWeaveMsg', ret=TREE, params=['field_name'], modifies=[], requires=[MS],
        ensures=[('child', 'r == child_ref(find_msg(self.messages, field_name, 0))')],
        loops=['0 <= $i:pos <= self.messages.len()', 'find_msg(self.messages, field_name, 0) == find_msg(self.messages, field_name, $i:pos as int)']),
    'V_Create': dict(qual='RequestWeaver::WeaveInfo::CreateWeaveMsg', ret=TREE, params=['field'], modifies=['messages'], requires=[],
        ensures=[('child', 'r =~= child_ref(self.messages.len() as int)'), ('created', '@self.messages =~= self.messages.push((field, empty_node()))')]),
    'V_FindOrCreate': dict(qual='RequestWeaver::WeaveInfo::FindOrCreateWeaveMsg', ret=TREE, params=['field'], modifies=['messages'], requires=[MS, ('field', 'field != 0')],
        ensures=[('child', 'r =~= child_ref(msg_index(self.messages, pb_name(field)))'), ('created', '@self.messages =~= with_msg(self.messages, field)')], hints=dict(entry=['lemma_find(self.messages, pb_name(field), 0);', 'lemma_ref();'])),
    'V_Weave': dict(measure=('weave', 'info', ''), qual='RequestWeaver::WeaveTree', params=['info'], modifies=['ow_'], isolated=['root_', 'current_'], requires=[('node', 'info_nn'), ('fields', 'tree_wf(info)')],
        ensures=[('emptied', '@info.messages =~= Seq::empty() && @info.bindings =~= Seq::empty()'), ('events', '@self.ow_.log =~= self.ow_.log + weave(info)')],
        loops=['@self.ow_.log =~= self.ow_.log + bound_events(info.bindings.take($i:pos as int))', '@info == info', '0 <= $i:pos <= @info.bindings.len()',
               '@self.ow_.log =~= self.ow_.log + bound_events(info.bindings) + weave_upto(info, $i:pos as int)', '@info.bindings.len() == 0', '0 <= $i:pos <= @info.messages.len()',
               '@info.messages.len() == info.messages.len()', 'forall|j_: int| $i:pos <= j_ < info.messages.len() ==> #[trigger] @info.messages[j_] == info.messages[j_]'],
        hints=dict(entry=['lemma_bound_take(info.bindings);'])),
    'V_Equal': dict(qual='isEqual', params=['field_name', 'value_in_body', 'value_in_binding'], requires=[], ensures=[('same', '(r.code == 0) == same_value(value_in_body, value_in_binding)'), ('invalid', 'r.code != 0 ==> r.code == 3')]),
    'V_Bind': dict(qual='RequestWeaver::Bind', params=['field_path', 'value'], modifies=['root_'], requires=[('fields', 'path_wf(field_path) && tree_wf(self.root_)')],
        ensures=[('fields', 'tree_wf(@self.root_)'), ('bound', '@self.root_ == tree_bind(self.root_, field_path, value)')],
        loops=['0 <= $i:pos', '$i:pos == 0 || $i:pos < field_path.len()', 'tree_ok(@self.root_, $c:tree)', '$i:pos == $c:tree.len() || field_path.len() == 0',
               'tree_put(@self.root_, $c:tree, tree_bind(tree_at(@self.root_, $c:tree), field_path.skip($i:pos as int), value)) == tree_bind(self.root_, field_path, value)', 'tree_wf(@self.root_)', '@value == value', '@field_path == field_path'],
        hints=dict(entry=['lemma_tree();', 'lemma_tree2();', 'lemma_skip::<int>();', 'lemma_ref();', 'lemma_index();'])),
    'V_Ctor': dict(qual='RequestWeaver::RequestWeaver', nparams=4, params=['bindings', 'ow', 'el', 'report_collisions'], requires=[('fields', 'binds_wf(bindings)')],
        ensures=[('fields', 'tree_wf(@self.root_)'), ('bound', '@self.root_ == bound(bindings)'), ('start', '@self.current_.len() == 0 && @self.non_actionable_depth_ == 0 && @self.ow_ == ow && @self.error_listener_ == el && @self.report_collisions_ == report_collisions')],
        loops=['@self.root_ == bound(bindings.take($i:pos as int))', '0 <= $i:pos <= bindings.len()', '@self.current_.len() == 0', 'tree_wf(@self.root_)'], hints=dict(entry=['lemma_take::<C_RequestWeaver_BindingInfo>();'])),
    'V_Check': dict(qual='RequestWeaver::CollisionCheck', params=['name', 'value_in_body'], modifies=['root_', 'ow_', 'error_listener_'], requires=[OK],
        ensures=[('dropped', '@self.root_ == cc_root(%s, name)' % S), ('emitted', '@self.ow_.log =~= self.ow_.log + cc_events(%s, name)' % S), ('error', 'cc_err(%s, self.report_collisions_, name, value_in_body, @self.error_listener_.st)' % S)],
        loops=CC, hints=dict(entry=['lemma_tree();', 'lemma_skip::<(int, Seq<u8>)>();'])),
    'V_StartObject': ev('StartObject', ['name'], 'Evt::StartObject(name)', ROOM, hints=dict(entry=['lemma_tree();', 'lemma_tree2();', 'lemma_ref();', 'lemma_find(top(%s).messages, name, 0);' % S])),
    'V_EndObject': ev('EndObject', [], 'Evt::EndObject', ('open', 'self.non_actionable_depth_ > 0 || self.current_.len() > 0')),
    'V_StartList': ev('StartList', ['name'], 'Evt::StartList(name)', ROOM),
    'V_EndList': ev('EndList', [], 'Evt::EndList', ('open', 'self.non_actionable_depth_ > 0')),
    'V_RenderNull': ev('RenderNull', ['name'], 'Evt::Value(name, Piece::Null)'),
    'V_Status': dict(qual='RequestWeaver::Status', params=[], modifies=[], requires=[], ensures=[('status', 'r == self.error_listener_.st')]),
}
for k, (c, t) in PIECES.items():
    v = 'value' if t.k not in ('int',) else 'value as %s%d' % ('i' if t.signed else 'u', t.bits)
    CONTRACTS['V_' + k] = ev(k, ['name', 'value'], 'Evt::Value(name, Piece::%s(%s))' % (c, v))
