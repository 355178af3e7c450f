"""Contracts for type_helper.cc (properties C25, C26)."""
from ct import T, STR, BOOL
from tr import V, LV, Ptr, Root, FieldP, OptP, ConstP, raw, FieldP
from cxx import Unsupported
TUS = ['type_helper']
IMPORTS = ['percent']
SPECS = ['percent', 'typehelper']
I, M = 'Info', 'Mutex'
CFG = {'ext_types': {'TypeInfo': I, 'Mutex': M, 'MutexLock': 'Guard', 'ReaderMutexLock': 'SharedGuard', 'WriterMutexLock': 'Guard'}, 'raii': ['Guard', 'SharedGuard'],
       'opaque_types': ['Field', 'Type', 'Enum', 'TypeResolver', 'Field_Kind'][:4], 'ext_defaults': {M: 'Mutex { held: false }'}, 'ext_enums': ['Field_Kind', 'Field_Cardinality', 'Kind', 'Cardinality'],
       'ext_enum_values': {'TYPE_MESSAGE': 11, 'Field_Kind_TYPE_MESSAGE': 11, 'CARDINALITY_REPEATED': 3, 'Field_Cardinality_CARDINALITY_REPEATED': 3},
       'upcast': {('C_LockedTypeInfo', I): 'Info { locked: true, src: %(x)s.type_info_->0.src }'},
       'fields': {'LockedTypeInfo': ['mutex_', 'type_info_'], 'TypeHelper': ['type_resolver_', 'type_info_']}}
ID = T('id')
ATTR = {'name': (STR, 'pb_name(%s)'), 'type_url': (STR, 'pb_type_url(%s)'), 'kind': (T('enum', name='Kind'), 'pb_kind(%s)'), 'cardinality': (T('enum', name='Cardinality'), 'pb_cardinality(%s)')}
LOOKUPS = {'FindField': ('ti_field', ID), 'GetTypeByTypeUrl': ('ti_type', ID), 'GetEnumByTypeUrl': ('ti_enum', ID), 'ResolveTypeUrl': ('ti_resolve', T('statusor', (ID,)))}


class Types:
    NAMES = (I, M, 'Guard', 'SharedGuard', 'opaque:Field', 'opaque:Type', 'opaque:Enum')

    def mutex(self, lib, tr, args, ctx, n):
        x = [tr.rv(tr.ev(a, ctx)) for a in lib.real(args)]
        if len(x) != 1 or not isinstance(x[0], (Ptr, LV)) or x[0].place is None or x[0].place.t != T('ext', name=M):
            raise Unsupported('lock of something else than a mutex', n)
        return x[0].place

    def lock(self, tr, p, n):
        tr.ob('!%s.held' % p.load(), 'lock not held already (deadlock)', n)
        p.store(tr, 'Mutex { held: true }')

    def acquire(self, lib, tr, t, n, args, ctx):
        p = self.mutex(lib, tr, args, ctx, n)
        if t.name == 'SharedGuard':
            return lambda: None
        self.lock(tr, p, n)
        return lambda: p.store(tr, 'Mutex { held: false }')

    def construct(self, lib, tr, t, n, vals, ctx):
        if t.name in ('Guard', 'SharedGuard'):      # a temporary: locked and released at once
            return V(T('void'), '()')
        if t.name == M:
            return V(t, 'Mutex { held: false }')
        raise Unsupported('construction of %r' % t, n)

    def call(self, lib, tr, name, n, args, ctx, rd):
        if name == 'NewTypeInfo':
            v = tr.rv(tr.ev(lib.real(args)[0], ctx))
            t = T('ext', name=I)
            return Ptr(Root(tr.decl('info', I, 'Info { locked: false, src: %s }' % raw(tr.coerce(v, ID, n))), t), 'true', fresh=True)
        return None

    def method(self, lib, tr, base, name, n, args, ctx, cls=None):
        s = tr.rv(base).s if not isinstance(base, LV) else base.place.load()
        if base.t.k == 'opaque':
            if name in ATTR:
                t, e = ATTR[name]
                return V(t, e % s)
            raise Unsupported('%s of a protobuf object' % name, n)
        if base.t.name == M:
            if name == 'Lock':
                self.lock(tr, base.place, n)
            elif name == 'Unlock':
                tr.ob('%s.held' % s, 'unlock of a held lock', n)
                base.place.store(tr, 'Mutex { held: false }')
            elif name != 'AssertHeld':
                raise Unsupported('Mutex::' + name, n)
            return V(T('void'), '()')
        if name in LOOKUPS:
            f, t = LOOKUPS[name]
            vals = [tr.rv(v) for v in tr.ev_list(lib.real(args), ctx)]
            terms = [lib.as_str(tr, v, n) if v.t.k == 'str' else raw(tr.coerce(v, ID, n)) for v in vals]
            this = tr.ctx_this
            held = 'false'
            if this is not None and this.t.name == 'C_LockedTypeInfo':
                held = '%s.held' % tr.member(LV(this), False, [nm for nm, al, ft in tr.fields_of(this.t)[1] if ft == T('ext', name=M)][0], n).place.load()
            tr.ob('%s.locked || %s' % (s, held), 'the lock is held during every access to the shared type information', n)
            return V(t, '%s(%s.src, %s)' % (f, s, ', '.join(terms)))
        raise Unsupported('TypeInfo::' + name, n)


EXT = Types()
FREE = ('lock_free', '!self.mutex_.held')
WRAP = ('wraps', 'self.type_info_ is Some')


def locked(name, params, res):
    return dict(qual='LockedTypeInfo::' + name, params=params, modifies=['mutex_'], requires=[FREE, WRAP], ensures=[('answer', 'r == ' + res), ('released', '!@self.mutex_.held')])


SRC = 'self.type_info_->0.src'
OK = [('initialised', 'self.type_info_ is Some && self.type_info_->0.locked')]
PATH = [('out_not_null', 'field_path_out_nn')]


def result(names):
    p = 'th_path(%s, type, %s)' % (SRC, names)
    return [('resolved', '(r.code == 0) == (%s is Some)' % p), ('fields', 'r.code == 0 ==> @field_path_out =~= %s->0' % p),
            ('error', 'r.code != 0 ==> r.code == 3 && @field_path_out == field_path_out')]


CONTRACTS = {
    'L_Ctor': dict(qual='LockedTypeInfo::LockedTypeInfo', nparams=1, params=['type_info'], requires=[], ensures=[('wraps', '@self.type_info_ == Option::Some(type_info)'), ('lock_free', '!@self.mutex_.held')]),
    'L_FindField': locked('FindField', ['type', 'camel_case_name'], 'ti_field(%s, type, camel_case_name)' % SRC),
    'L_GetType': locked('GetTypeByTypeUrl', ['type_url'], 'ti_type(%s, type_url)' % SRC),
    'L_GetEnum': locked('GetEnumByTypeUrl', ['type_url'], 'ti_enum(%s, type_url)' % SRC),
    'L_Resolve': locked('ResolveTypeUrl', ['type_url'], 'ti_resolve(%s, type_url)' % SRC),
    'T_Ctor': dict(qual='TypeHelper::TypeHelper', nparams=1, params=['type_resolver'], requires=[],
        ensures=[('locked', '@self.type_info_ is Some && @self.type_info_->0.locked'), ('source', '@self.type_info_->0.src == type_resolver && @self.type_resolver_ == type_resolver')]),
    'T_Initialize': dict(qual='TypeHelper::Initialize', nparams=0, params=[], requires=[],
        ensures=[('locked', '@self.type_info_ is Some && @self.type_info_->0.locked'), ('source', '@self.type_info_->0.src == @self.type_resolver_')]),
    'T_FindField': dict(qual='TypeHelper::FindField', params=['type', 'name'], requires=OK, ensures=[('field', 'r == th_field(%s, type, name)' % SRC)], hints=dict(entry=['lemma_sub_all::<u8>();'])),
    'T_Resolve': dict(qual='TypeHelper::ResolveFieldPath', nparams=3, sig=r'vector<std::string>', params=['type', 'field_names', 'field_path_out'], requires=OK + PATH + [('type_given', 'type != 0')],
        ensures=result('field_names'),
        loops=['@field_path_out == field_path_out', '0 <= $i:u64 <= field_names.len()', 'th_path(%s, type, field_names) == th_rest(%s, $t:id, field_names, $i:u64, $f:vec:int)' % (SRC, SRC), '$t:id != 0',
               # a loop that steps to the type of the previous field at the start of a round
               '0 <= $i:pos <= field_names.len()', '$f:vec:int.len() == $i:pos', '($l:id == 0) == ($f:vec:int.len() == 0)', '$f:vec:int.len() > 0 ==> $l:id == $f:vec:int.last()', '$f:vec:int.len() == 0 ==> $t:id == type',
               'th_path(%s, type, field_names) == th_late(%s, type, field_names, $i:pos, $f:vec:int)' % (SRC, SRC)],
        hints=dict(entry=['lemma_th_all(%s, type, field_names);' % SRC], loop=['lemma_th_step(%s, $t:id, field_names, $i:u64, $f:vec:int);' % SRC, 'lemma_th_late(%s, type, field_names, $i:pos, $f:vec:int);' % SRC],
                   exit=['lemma_th_step(%s, $t:id, field_names, $i:u64, $f:vec:int);' % SRC])),
    'T_ResolveStr': dict(qual='TypeHelper::ResolveFieldPath', nparams=3, sig=r'std::string &, std::vector', params=['type', 'field_path_str', 'field_path_out'], requires=OK + PATH + [('type_given', 'type != 0')],
        ensures=result("not_empty(split(field_path_str, 46))")),
}
