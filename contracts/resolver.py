"""Contracts for the type collection of type_helper.cc and the TypeHelper made from it (property C25)."""
from ct import T, STR, BOOL
from tr import V, LV, Ptr, Root, raw
from cxx import Unsupported
import typehelper
TUS = ['type_helper']
IMPORTS = []
SPECS = ['resolver']
STRUCTS = ['SimpleTypeResolver']
Y, E, R, I, M = 'TypeMsg', 'EnumMsg', 'TypeRes', 'Info', 'Mutex'
CFG = {'ext_types': {'Type': Y, 'Enum': E, 'TypeResolver': R, 'TypeInfo': I, 'Mutex': M, 'MutexLock': 'Guard', 'ReaderMutexLock': 'SharedGuard', 'WriterMutexLock': 'Guard'}, 'raii': ['Guard', 'SharedGuard'],
       'opaque_types': ['Field', 'Option'], 'ptr_by_value': [Y, E], 'ext_defaults': {M: 'Mutex { held: false }'},
       'upcast': {('C_SimpleTypeResolver', R): 'TypeRes { id: res_id(%(x)s), simple: Option::Some(%(x)s) }', ('C_LockedTypeInfo', I): 'Info { locked: true, src: %(x)s.type_info_->0.src }'},
       'downcast': {(R, 'C_SimpleTypeResolver'): 'simple'}, 'null_ext': {R: 'TypeRes { id: 0, simple: Option::None }'},
       'fields': {'SimpleTypeResolver': ['url_prefix_', 'type_map_', 'enum_map_'], 'LockedTypeInfo': ['mutex_', 'type_info_'], 'TypeHelper': ['type_resolver_', 'type_info_']}}


class Messages(typehelper.Types):
    """protobuf Type and Enum objects, as values (their options are not described)"""
    NAMES = (Y, E, R, I, M, 'Guard', 'SharedGuard', 'opaque:Option')

    def call(self, lib, tr, name, n, args, ctx, rd):
        if name == 'NewTypeInfo':
            v = tr.rv(tr.ev(lib.real(args)[0], ctx))
            t = T('ext', name=I)
            return Ptr(Root(tr.decl('info', I, 'Info { locked: false, src: %s.id }' % raw(tr.coerce(v, T('ext', name=R), n))), t), 'true', fresh=True)
        return None

    def method(self, lib, tr, base, name, n, args, ctx, cls=None):
        if base.t.name not in (Y, E, 'Option'):
            return super().method(lib, tr, base, name, n, args, ctx)
        s = tr.rv(base).s if not isinstance(base, LV) else base.place.load()
        if base.t.name == 'Option':
            if name == 'name':
                return V(STR, tr.havoc('Seq<u8>'))
            if name == 'set_name':
                for a in lib.real(args):
                    tr.ev(a, ctx)
                return V(T('void'), '()')
        elif name == 'name':
            return V(STR, '%s.name' % s)
        elif name in ('options', 'mutable_options', 'options_size'):
            t = T('vec', (T('opaque', name='Option'),), name='vector')
            p = Root(tr.decl('options', 'Seq<int>', tr.havoc('Seq<int>')), t)
            return Ptr(p, 'true') if name == 'mutable_options' else LV(p) if name == 'options' else lib.size(tr, p, n)
        raise Unsupported('%s of a protobuf object' % name, n)


EXT = Messages()


def resolve(kind, map_):
    return dict(qual='SimpleTypeResolver::Resolve%sType' % kind, params=['type_url', 'out:ptr'], modifies=[], requires=[],
        ensures=[('found', '(r.code == 0) == self.%s.dom().contains(type_url)' % map_), ('error', 'r.code != 0 ==> r.code == 5 && @out == out'), ('given', 'r.code == 0 ==> @out == if out_nn { self.%s[type_url] } else { out }' % map_)])


def add(name, map_):
    return dict(qual='SimpleTypeResolver::' + name, params=['t'], modifies=[map_], requires=[],
        ensures=[('added', '@self.%s =~= added(self.%s, self.url_prefix_ + t.name, t)' % (map_, map_))])


def forward(name, map_, other):
    s = 'self.type_resolver_.simple->0.'
    return dict(qual='TypeHelper::' + name, params=['t'], modifies=['type_resolver_'], requires=[('collection', 'self.type_resolver_.simple is Some')],
        ensures=[('collection', '@self.type_resolver_.simple is Some && @self.type_resolver_.id == self.type_resolver_.id'),
                 ('added', '@%s%s =~= added(%s%s, %surl_prefix_ + t.name, t)' % (s, map_, s, map_, s)), ('others', '@%s%s == %s%s && @%surl_prefix_ == %surl_prefix_' % (s, other, s, other, s, s))])


Z = '@self.type_resolver_.simple->0.'
MADE = '@self.type_resolver_.simple is Some && @self.type_info_ is Some && @self.type_info_->0.locked && @self.type_info_->0.src == @self.type_resolver_.id && %surl_prefix_ =~= url_prefix()' % Z
CONTRACTS = {
    'S_Ctor': dict(qual='SimpleTypeResolver::SimpleTypeResolver', nparams=0, params=[], requires=[], ensures=[('prefix', '@self.url_prefix_ =~= url_prefix()'), ('empty', '@self.type_map_ =~= Map::empty() && @self.enum_map_ =~= Map::empty()')]),
    'S_AddType': add('AddType', 'type_map_'),
    'S_AddEnum': add('AddEnum', 'enum_map_'),
    'S_ResolveMessageType': resolve('Message', 'type_map_'),
    'S_ResolveEnumType': resolve('Enum', 'enum_map_'),
    'L_Ctor': typehelper.CONTRACTS['L_Ctor'],
    'H_Initialize': dict(qual='TypeHelper::Initialize', nparams=0, params=[], requires=[], ensures=[('made', MADE), ('empty', '%stype_map_ =~= Map::empty() && %senum_map_ =~= Map::empty()' % (Z, Z))]),
    'H_AddType': forward('AddType', 'type_map_', 'enum_map_'),
    'H_AddEnum': forward('AddEnum', 'enum_map_', 'type_map_'),
    'H_Make': dict(qual='TypeHelper::TypeHelper', nparams=2, params=['types', 'enums'], requires=[],
        ensures=[('made', MADE), ('types', '%stype_map_ =~= collection(types, types.len() as int)' % Z), ('enums', '%senum_map_ =~= collection_e(enums, enums.len() as int)' % Z)],
        loops=[MADE, '%stype_map_ =~= collection(types, $i:pos)' % Z, '%senum_map_ =~= Map::empty()' % Z, '%senum_map_ =~= collection_e(enums, $i:pos)' % Z, '%stype_map_ =~= collection(types, types.len() as int)' % Z,
               '0 <= $i:pos <= types.len()', '0 <= $i:pos <= enums.len()']),
}
