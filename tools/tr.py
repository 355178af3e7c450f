"""Translation of clang AST function bodies to Verus (used as an intermediate verification language).

Every C++ value is a ghost mathematical value; control flow becomes Verus exec control flow over ghost conditions
(`if tst(Ghost(c))`), loops become Verus loops with invariants, calls of functions under contract become calls of
functions with that contract; everything else defined in the repository is inlined.  Each library operation is a
spec function (specs/prelude.rs) preceded by the obligation that makes it defined (bounds, overflow, null, ...).
A construct outside the supported subset raises Unsupported (never silently dropped).
"""
import copy, re, struct
from cxx import Unsupported
import ct
from ct import T, BOOL, CHAR, UCHAR, STR, VOID, NULL, I32, U32, I64, U64, STATUS, TREE, unref, vtype


# ---------------------------------------------------------------- values
class V:
    """a value: Verus term s (ints: an int-typed term; everything else: the stored type)"""
    def __init__(self, t, s, const=False):
        self.t, self.s, self.const = t, s, const

    def __repr__(self):
        return 'V(%r,%s)' % (self.t, self.s)


class LV:
    def __init__(self, place, moved=False):
        self.place, self.moved = place, moved

    @property
    def t(self):
        return self.place.t


class Ptr:
    """pointer to a place (or a null pointer when place is None); nn = 'is not null' term"""
    def __init__(self, place, nn='true', t=None, fresh=False):
        self.place, self.nn, self.fresh = place, nn, fresh
        self.t = t or (T('ptr', (place.t,)) if place is not None else NULL)


class BufPtr:
    """pointer into a sequence place, at offset off (int term)"""
    def __init__(self, base, off, nn='true'):
        self.base, self.off, self.nn = base, off, nn
        self.t = T('ptr', (base.t.a[0] if base.t.a else CHAR,))


class Iter:
    def __init__(self, base, idx):
        self.base, self.idx = base, idx
        self.t = T('iter', (elem_type(base.t),))


class MIter:
    """iterator into a map or set place: key term, found term (false: end())"""
    def __init__(self, m, key, found):
        self.m, self.key, self.found = m, key, found
        self.t = T('miter', m.t.a)


class Tup:
    """a pair of meta values"""
    def __init__(self, a, b):
        self.e = [a, b]
        self.t = T('pair', ())


class Lam:
    def __init__(self, node, env):
        self.node, self.env = node, env
        self.t = T('func')


class InitList:
    def __init__(self, elems, t):
        self.elems, self.t = elems, t


class Stream:
    def __init__(self):
        self.t = T('ostream')


def elem_type(t):
    if t.k == 'str':
        return CHAR
    if t.k == 'region':
        return UCHAR
    return t.a[0]


STATUS_CODES = {k: i for i, k in enumerate('kOk kCancelled kUnknown kInvalidArgument kDeadlineExceeded kNotFound kAlreadyExists kPermissionDenied kResourceExhausted kFailedPrecondition kAborted kOutOfRange kUnimplemented kInternal kUnavailable kDataLoss kUnauthenticated'.split())}


# ---------------------------------------------------------------- places
class Root:
    def __init__(self, var, t, mutable=True):
        self.var, self.t, self.mutable = var, t, mutable

    def load(self):
        return self.var

    def store(self, tr, val):
        if not self.mutable:
            raise Unsupported('store to immutable %s' % self.var)
        tr.assign(self.var, val)

    def leaves(self):
        return []

    def with_leaves(self, it):
        return self

    def shape(self):
        return ('root', self.var)


class ConstP(Root):
    def __init__(self, term, t):
        super().__init__(term, t, False)


class RecPlace:
    def __init__(self, t, fields):
        self.t, self.fields = t, fields  # ordered dict name -> place

    def load(self):
        return '%s { %s }' % (self.t.name, ', '.join('%s: %s' % (f, p.load()) for f, p in self.fields.items()))

    def store(self, tr, val):
        v = tr.let(val, vtype(self.t))
        for f, p in self.fields.items():
            p.store(tr, '%s.%s' % (v, f))

    def leaves(self):
        return []

    def with_leaves(self, it):
        return self

    def shape(self):
        return ('rec', tuple(p.shape() for p in self.fields.values()))


class SubP:
    def __init__(self, parent, t):
        self.parent, self.t = parent, t

    def own(self):
        return None

    def leaves(self):
        l = self.parent.leaves()
        o = self.own()
        return l + ([o] if o is not None else [])

    def with_leaves(self, it):
        n = copy.copy(self)
        n.parent = self.parent.with_leaves(it)
        if self.own() is not None:
            n.set_own(next(it))
        return n

    def shape(self):
        return (type(self).__name__, getattr(self, 'f', None), self.parent.shape())


class FieldP(SubP):
    def __init__(self, parent, f, t):
        super().__init__(parent, t)
        self.f = f

    def load(self):
        return '%s.%s' % (self.parent.load(), self.f)

    def store(self, tr, val):
        self.parent.store(tr, '%s { %s: %s, ..%s }' % (vtype(self.parent.t), self.f, val, self.parent.load()))


class IndexP(SubP):
    def __init__(self, parent, idx, t):
        super().__init__(parent, t)
        self.idx = idx

    def own(self):
        return (self.idx, 'int')

    def set_own(self, x):
        self.idx = x

    def load(self):
        return '%s[%s]' % (self.parent.load(), self.idx)

    def store(self, tr, val):
        self.parent.store(tr, '%s.update(%s, %s)' % (self.parent.load(), self.idx, val))


class MapP(SubP):
    def __init__(self, parent, key, t, ):
        super().__init__(parent, t)
        self.key = key

    def own(self):
        return (self.key, vtype(self.parent.t.a[0]))

    def set_own(self, x):
        self.key = x

    def load(self):
        return '%s[%s]' % (self.parent.load(), self.key)

    def store(self, tr, val):
        self.parent.store(tr, '%s.insert(%s, %s)' % (self.parent.load(), self.key, val))


class OptP(SubP):
    def load(self):
        return '%s->0' % self.parent.load()

    def store(self, tr, val):
        self.parent.store(tr, 'Option::Some(%s)' % val)


class PairP(SubP):
    def __init__(self, parent, i, t):
        super().__init__(parent, t)
        self.f = i

    def load(self):
        return '%s.%d' % (self.parent.load(), self.f)

    def store(self, tr, val):
        o = self.parent.load()
        self.parent.store(tr, '(%s, %s.1)' % (val, o) if self.f == 0 else '(%s.0, %s)' % (o, val))


class HeapP(SubP):
    """the object of a container of owned objects that lives at a given address"""
    def __init__(self, parent, addr, t):
        super().__init__(parent, t)
        self.addr = addr

    def own(self):
        return (self.addr, 'int')

    def set_own(self, x):
        self.addr = x

    def load(self):
        return 'heap_get_%s(%s, %s)' % (self.t.name, self.parent.load(), self.addr)

    def live(self):
        return 'heap_has_%s(%s, %s)' % (self.t.name, self.parent.load(), self.addr)

    def store(self, tr, val):
        self.parent.store(tr, 'heap_set_%s(%s, %s, %s)' % (self.t.name, self.parent.load(), self.addr, val))


class TreeP(SubP):
    """the node of an ownership tree that a node pointer (its path: child indices from the root) denotes"""
    def __init__(self, parent, path, t):
        super().__init__(parent, t)
        self.path = path

    def own(self):
        return (self.path, 'Seq<int>')

    def set_own(self, x):
        self.path = x

    def load(self):
        return 'tree_at(%s, %s)' % (self.parent.load(), self.path)

    def store(self, tr, val):
        self.parent.store(tr, 'tree_put(%s, %s, %s)' % (self.parent.load(), self.path, val))


class IsolatedP(Root):
    """a member that a function must not touch: its contract promises so, because an argument may point into it"""
    def __init__(self, name, t):
        super().__init__('arbitrary()', t, False)
        self.name = name

    def load(self):
        raise Unsupported('access to %s, which an argument may point into' % self.name)

    def store(self, tr, val):
        self.load()


# generic handling of meta values (pointers, iterators): dynamic parts
def meta_leaves(m):
    if isinstance(m, Ptr):
        return [(m.nn, 'bool')] + (m.place.leaves() if m.place is not None else [])
    if isinstance(m, BufPtr):
        return [(m.nn, 'bool'), (m.off, 'int')] + m.base.leaves()
    if isinstance(m, Iter):
        return [(m.idx, 'int')] + m.base.leaves()
    if isinstance(m, MIter):
        return [(m.key, vtype(m.m.t.a[0])), (m.found, 'bool')] + m.m.leaves()
    if isinstance(m, Tup):
        out = []
        for e in m.e:
            out += [(raw(e), vtype(e.t))] if isinstance(e, V) else meta_leaves(e)
        return out
    if isinstance(m, LV):
        return m.place.leaves()
    raise Unsupported('meta value %r' % m)


def meta_with(m, it):
    if isinstance(m, Ptr):
        nn = next(it)
        return Ptr(m.place.with_leaves(it) if m.place is not None else None, nn, m.t)
    if isinstance(m, BufPtr):
        nn = next(it)
        off = next(it)
        return BufPtr(m.base.with_leaves(it), off, nn)
    if isinstance(m, Iter):
        i = next(it)
        return Iter(m.base.with_leaves(it), i)
    if isinstance(m, MIter):
        k = next(it)
        f = next(it)
        return MIter(m.m.with_leaves(it), k, f)
    if isinstance(m, Tup):
        return Tup(*[V(e.t, lift(next(it), e.t)) if isinstance(e, V) else meta_with(e, it) for e in m.e])
    if isinstance(m, LV):
        return LV(m.place.with_leaves(it), m.moved)
    raise Unsupported('meta value %r' % m)


def meta_shape(m):
    if isinstance(m, Ptr):
        return ('Ptr', m.place.shape() if m.place is not None else None)
    if isinstance(m, BufPtr):
        return ('BufPtr', m.base.shape())
    if isinstance(m, Iter):
        return ('Iter', m.base.shape())
    if isinstance(m, MIter):
        return ('MIter', m.m.shape())
    if isinstance(m, Tup):
        return ('Tup',) + tuple('V' if isinstance(e, V) else meta_shape(e) for e in m.e)
    if isinstance(m, LV):
        return ('LV', m.place.shape())
    return (type(m).__name__,)


def is_meta(v):
    return isinstance(v, (Ptr, BufPtr, Iter, MIter, Tup))


NUM = re.compile(r'^\(?-?\d+\)?$')


def isnum(s):
    return bool(NUM.match(s))


def numval(s):
    return int(s.strip('()'))


def lift(s, t):
    """stored term -> value term"""
    if t.k in ('int', 'enum'):
        m = re.match(r'^\((.*) as [iu]\d+\)$', s)
        return '(%s as int)' % s
    return s


def raw(v):
    """value -> stored term"""
    t = v.t
    if t.k == 'int':
        ty = vtype(t)
        if isnum(v.s):
            return '(%d%s)' % (numval(v.s), ty) if numval(v.s) < 0 else '%d%s' % (numval(v.s), ty)
        m = re.match(r'^\(([A-Za-z_][\w.]*) as int\)$', v.s)
        return '(%s as %s)' % (v.s, ty)
    if t.k == 'enum':
        return '%di32' % numval(v.s) if isnum(v.s) and numval(v.s) >= 0 else '(%s as i32)' % v.s
    return v.s


def sub(a, b):
    if isnum(a) and isnum(b):
        return str(numval(a) - numval(b))
    if b == '0':
        return a
    return '(%s - %s)' % (a, b)


def add(a, b):
    if isnum(a) and isnum(b):
        return str(numval(a) + numval(b))
    if b == '0':
        return a
    if a == '0':
        return b
    return '(%s + %s)' % (a, b)


SKIP = ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ParenExpr', 'ConstantExpr',
        'SubstNonTypeTemplateParmExpr', 'FullExpr')


def strip(n):
    while n.get('kind') in SKIP:
        n = n['inner'][0]
    return n


def strip_all(n):
    while n.get('kind') in SKIP or (n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'LValueToRValue', 'DerivedToBase', 'UncheckedDerivedToBase')):
        n = n['inner'][0]
    return n


def walk(n):
    if isinstance(n, dict) and 'kind' in n:
        yield n
        for c in n.get('inner', []):
            yield from walk(c)


def walk_nolam(n):
    if isinstance(n, dict) and 'kind' in n:
        yield n
        if n['kind'] == 'LambdaExpr':
            return
        for c in n.get('inner', []):
            yield from walk_nolam(c)


LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')
# standard algorithms taking a function: executed as the loops they are
ALGOS = ('find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'for_each', 'count_if', 'c_find_if', 'c_any_of', 'c_all_of', 'c_none_of', 'c_for_each', 'c_count_if')


class Ctx:
    """control context of the function body being executed"""
    def __init__(self, fn, env, this, ret):
        self.fn, self.env, self.this, self.ret = fn, env, this, ret
        self.brk = self.cont = None
        self.cleanups = []      # destructors of the objects in scope that have an effect (locks), innermost last

    def copy(self):
        c = copy.copy(self)
        return c


class Translator:
    MAXDEPTH = 12

    def __init__(self, prog, contracts, lib, cfg):
        self.prog, self.contracts, self.lib, self.cfg = prog, contracts, lib, cfg
        self.n = 0
        self.structs = {}      # qual -> (verus name, [(fname, T)])
        self.struct_order = []
        self.used_contracts = {}   # key -> contract (callees by contract)
        self.inlined = set()
        self.lib_used = set()
        self.frames = []
        self.winbase = {}     # variables that point into a buffer handed out by a stream
        self.dry = 0

    # ------------------------------------------------------------ types
    def resolver(self, tu, cls=None):
        def res(name, full):
            name = re.sub(r'^(google::grpc::transcoding::|transcoding::|google::grpc::)', '', name)
            short = name.split('::')[-1]
            if short in self.cfg.get('opaque_types', ()):
                return T('opaque', name=short)
            if name in self.cfg.get('ext_types', {}):
                return T('ext', name=self.cfg['ext_types'][name])
            if short in self.cfg.get('ext_types', {}):
                return T('ext', name=self.cfg['ext_types'][short])
            for q in ([cls.qual + '::' + name] if cls is not None else []) + [name]:
                c = self.prog.cls(q)
                if c is not None:
                    return T('rec', name=self.struct(c))
            if cls is not None:
                parts = cls.qual.split('::')
                for i in range(len(parts), -1, -1):
                    q = '::'.join(parts[:i] + [name])
                    c = self.prog.cls(q)
                    if c is not None:
                        return T('rec', name=self.struct(c))
            for t in self.prog.tus.values():
                if name in t.enum_names or short in t.enum_names or any(e.split('::')[-1] == short for e in t.enum_names):
                    return T('enum', name=short)
            if short in self.cfg.get('ext_enums', ()):
                return T('enum', name=short)
            for t in [tu] + list(self.prog.tus.values()):
                if t is not None and short in t.typedefs:
                    td = t.typedefs[short]
                    if td.split('::')[-1] != short and not re.search(r'\bMethod\b(?!Data)', td):
                        return self.ptype(td, tu, cls)
            # nested class of any class
            for t in self.prog.tus.values():
                for q, c in t.cls_by_qual.items():
                    if q.split('::')[-1] == short:
                        return T('rec', name=self.struct(c))
            if short in ('VpMethod',):
                return T('opaque', name=short)
            raise Unsupported('type %s (in %s)' % (name, full))
        return res

    def expand_aliases(self, s, tu):
        for t in [tu] + list(self.prog.tus.values()):
            for nm, (ps, body) in (t.aliases.items() if t is not None else ()):
                m = re.search(r'\b%s\s*<' % re.escape(nm), s)
                if not m:
                    continue
                d, j, args = 1, m.end(), []
                st = j
                while j < len(s) and d:
                    if s[j] == '<':
                        d += 1
                    elif s[j] == '>':
                        d -= 1
                    if (s[j] == ',' and d == 1) or d == 0:
                        args.append(s[st:j].strip())
                        st = j + 1
                    j += 1
                if len(args) != len(ps):
                    continue
                b = body
                for p, a in zip(ps, args):
                    b = re.sub(r'\b%s\b' % re.escape(p), lambda _: a, b)
                return self.expand_aliases(s[:m.start()] + b + s[j:], tu)
        return s

    def ptype(self, s, tu=None, cls=None):
        if s.startswith('(lambda'):
            return T('func')
        s = self.expand_aliases(s, tu)
        return ct.Parser(s, self.resolver(tu, cls)).parse()

    def type_of(self, tn, ctx):
        tu = ctx.fn.tu if ctx is not None else None
        cls = ctx.fn.cls if ctx is not None else None
        s = tn['qualType']
        err = None
        for cand in (s, tn.get('desugaredQualType')):
            if cand is None:
                continue
            try:
                t = self.ptype(cand, tu, cls)
                if not (t.k == 'iter' and not t.a):
                    return t
            except Unsupported as e:
                err = err or e
        raise err or Unsupported('type ' + s)

    # ---- pointers to the nodes of an ownership tree (cfg 'tree': record of a node, member holding (key, child) pairs,
    #      class -> member that is the root): paths of child indices
    tree_base = None

    def is_node_ptr(self, t):
        c = self.cfg.get('tree')
        return c is not None and t is not None and t.k == 'ptr' and t.a[0].k == 'rec' and t.a[0].name == c['rec']

    def tree_path(self, place):
        """path term of a place inside the tree at hand, or None"""
        b = self.tree_base
        if b is None or place is None:
            return None
        if place is b or (type(place) is type(b) and place.shape() == b.shape()):
            return 'Seq::<int>::empty()'
        if isinstance(place, TreeP) and place.parent.shape() == b.shape():
            return place.path
        if isinstance(place, PairP) and place.f == 1 and isinstance(place.parent, IndexP):
            kids = place.parent.parent
            f = self.cfg['tree']['children']
            if isinstance(b, RecPlace) and kids.shape() == b.fields[f].shape():
                return 'seq![%s as int]' % place.parent.idx
            if isinstance(kids, FieldP) and kids.f == f:
                up = self.tree_path(kids.parent)
                if up is not None:
                    return '%s.push(%s as int)' % (up, place.parent.idx)
        return None

    def tree_val(self, x):
        """node pointer x as a path value, or None if x does not point into the tree at hand"""
        if self.cfg.get('tree') is None or self.tree_base is None:
            return None
        if isinstance(x, LV) and x.t.k == 'tree':
            x = self.rv(x)
        if isinstance(x, V) and x.t.k == 'tree':
            return x
        if isinstance(x, V) and x.t.k == 'nullptr' or isinstance(x, Ptr) and x.place is None:
            return V(TREE, 'null_path()')
        if isinstance(x, Ptr):
            p = self.tree_path(x.place)
            if p is not None:
                return V(TREE, p if x.nn == 'true' else '(if %s { %s } else { null_path() })' % (x.nn, p))
        return None

    def struct(self, c):
        if c.qual in self.structs:
            return self.structs[c.qual][0]
        vname = 'C_' + c.qual.replace('::', '_')
        aliases = self.cfg.get('fields', {}).get(c.qual)
        ent = [vname, None]
        self.structs[c.qual] = ent
        self.cur_cls = c
        flds = []
        names = [f[0] for f in c.fields]
        amap = {}
        if aliases:
            missing = [a for a in aliases if a not in names]
            extra = [(i, nm) for i, nm in enumerate(names) if nm not in aliases]
            # a renamed field: same position among unmatched ones
            for a, (i, nm) in zip(missing, extra):
                amap[nm] = a
        for nm, tn, fid, node in c.fields:
            fake = Ctx(type('F', (), {'tu': c.tu, 'cls': c})(), {}, None, None)
            ft = self.type_of(tn, fake)
            flds.append((nm, amap.get(nm, nm), self.field_type(ft)))
        if c.qual in self.cfg.get('addressed', ()):
            flds.append(('addr_', 'addr_', T('id')))
        ent[1] = flds
        self.struct_order.append(c.qual)
        return vname

    def field_type(self, t):
        if t.k in ('ref', 'rref'):
            return self.field_type(t.a[0])
        if t.k == 'ptr':
            p = t.a[0]
            if p.k in ('void', 'opaque'):
                return T('id')
            if p.k == 'ext':
                return T('ext', name=p.name)   # held by pointer; assumed non-null
            if p.k == 'rec':
                if p.name in self.cfg.get('ptr_by_value', ()):
                    return p
            raise Unsupported('field of type %r' % t)
        if t.k == 'vec' and self.is_node_ptr(t.a[0]):
            return T('vec', (TREE,), name=t.name)
        if t.k == 'map' and t.a[1].k == 'ptr' and t.a[1].a[0].k == 'ext' and t.a[1].a[0].name in self.cfg.get('ptr_by_value', ()):
            return T('map', (t.a[0], T('ext', name=t.a[1].a[0].name)), name=t.name)
        return t

    def fields_of(self, t):
        for q, (vn, fl) in self.structs.items():
            if vn == t.name:
                return q, fl
        raise Unsupported('unknown record %r' % t)

    def field(self, t, cname):
        for nm, alias, ft in self.fields_of(t)[1]:
            if nm == cname:
                return alias, ft
        raise Unsupported('no field %s in %r' % (cname, t))

    # ------------------------------------------------------------ emission
    def fresh(self, base='t'):
        self.n += 1
        return ("'" if base.startswith("'") else '') + '%s_%d' % (re.sub(r'\W', '_', base.lstrip("'")), self.n)

    def emit(self, line, tag=None):
        self.out.append((('    ' * self.ind) + line, tag))

    def assign(self, var, val):
        if var == val:
            return
        self.emit('proof { %s = %s; }' % (var, val))

    def let(self, val, ty):
        if re.match(r'^[A-Za-z_]\w*$', val) and val.startswith('t_'):
            return val
        v = self.fresh('t')
        self.emit('let ghost %s: %s = %s;' % (v, ty, val))
        return v

    def decl(self, base, ty, init=None):
        v = self.fresh(base)
        self.emit('let ghost mut %s: %s = %s;' % (v, ty, init if init is not None else 'arbitrary()'))
        return v

    def havoc(self, ty, base='h'):
        v = self.fresh(base)
        self.emit('let %s_e = havoc::<%s>(); let ghost %s: %s = %s_e@;' % (v, ty, v, ty, v))
        return v

    def loc(self, node):
        r = (node or {}).get('range', {}).get('begin', {})
        for k in ('expansionLoc', 'spellingLoc'):
            if k in r:
                r = r[k]
        return (r.get('file', ''), r.get('line', 0))

    def ob(self, cond, kind, node):
        if cond == 'true':
            return
        self.emit('assert(%s);' % cond, dict(kind=kind, loc=self.loc(node), text=cond, fn=self.curfn))

    # ------------------------------------------------------------ reading and converting
    def rd(self, place):
        t = place.t
        if t.k == 'ext' or t.k == 'rec':
            return V(t, place.load())
        if t.k == 'outwin':
            b = self.winbase.get(place.load())
            if b is None:
                raise Unsupported('use of a buffer that was not handed out here')
            return BufPtr(b, place.load())
        return V(t, lift(place.load(), t))

    def rv(self, x):
        """rvalue of anything"""
        if isinstance(x, LV):
            return self.rd(x.place)
        return x

    def val(self, x, consume=True):
        """rvalue; if x is an xvalue (std::move) the source is left in a moved-from state"""
        if isinstance(x, LV):
            v = self.rd(x.place)
            if x.moved and consume:
                s = self.let(raw(v), vtype(v.t))
                self.move_from(x.place)
                return V(v.t, lift(s, v.t), True)
            return v
        return x

    def move_from(self, place):
        t = place.t
        if isinstance(place, RecPlace):
            for p in place.fields.values():
                self.move_from(p)
            return
        if isinstance(place, Root) and not place.mutable:
            return
        if t.k == 'opt':
            place.store(self, 'Option::None')
        elif t.k in ('str', 'vec', 'map', 'set', 'rec', 'pair'):
            if t.k == 'rec' and any(f[2].k == 'opt' for f in self.fields_of(t)[1]):
                # keep precise for unique_ptr members
                for nm, al, ft in self.fields_of(t)[1]:
                    self.move_from(FieldP(place, al, ft))
                return
            place.store(self, self.havoc(vtype(t)))

    def conv_int(self, v, dst, node=None, implicit=True):
        """integral conversion of value v to type dst"""
        s, t = v.s, v.t
        if dst.k == 'bool':
            return self.to_bool(v)
        if t.k == 'bool':
            src = '(if %s { 1int } else { 0int })' % s
            if s in ('true', 'false'):
                src = '1' if s == 'true' else '0'
            return V(dst, src) if dst.k == 'int' else V(dst, '(%s as u8)' % src)
        if t.k in ('char', 'uchar'):
            m = re.match(r'^(\d+)u8$', s)
            if dst.k in ('char', 'uchar'):
                return V(dst, s)
            if m:
                c = int(m.group(1))
                if t.k == 'char' and c > 127:
                    c -= 256
                return self.wrap(V(dst, str(c) if c >= 0 else '(%d)' % c), True)
            if t.k == 'uchar':
                return V(dst, '(%s as int)' % s)
            r = V(dst, 'sx8(%s)' % s)
            return r if dst.signed else self.wrap(r)
        if dst.k in ('char', 'uchar'):
            if isnum(s):
                return V(dst, '%du8' % (numval(s) % 256))
            m = re.match(r'^sx8\((.*)\)$', s)
            if m and balanced(m.group(1)):
                return V(dst, m.group(1))
            m = re.match(r'^\((.*) as int\)$', s)
            if m and t.k == 'int' and t.bits == 8:
                return V(dst, m.group(1))
            return V(dst, 'to_u8(%s)' % s)
        if dst.k == 'enum' or t.k == 'enum':
            return V(dst, s)
        if t.k == 'int' and dst.k == 'int':
            if dst.lo <= t.lo and t.hi <= dst.hi:
                return V(dst, s)
            return self.wrap(V(dst, s))
        raise Unsupported('integral cast %r -> %r' % (t, dst), node)

    def wrap(self, v, force=False):
        if isnum(v.s):
            x = numval(v.s)
            if not (v.t.lo <= x <= v.t.hi):
                x = (x - v.t.lo) % (1 << v.t.bits) + v.t.lo
            return V(v.t, str(x) if x >= 0 else '(%d)' % x)
        return V(v.t, '%s%d(%s)' % ('ws' if v.t.signed else 'wu', v.t.bits, v.s))

    def to_bool(self, v):
        if isinstance(v, (Ptr, BufPtr)):
            return V(BOOL, v.nn)
        if v.t.k == 'bool':
            return v
        if v.t.k == 'id':
            return V(BOOL, '(%s != 0)' % v.s)
        if v.t.k == 'tree':
            return V(BOOL, '(!(%s =~= null_path()))' % v.s)
        if v.t.k == 'opt':
            return V(BOOL, '(%s is Some)' % v.s)
        if v.t.k in ('int', 'enum'):
            return V(BOOL, '(%s != 0)' % v.s)
        if v.t.k in ('char', 'uchar'):
            return V(BOOL, '(%s != 0u8)' % v.s)
        raise Unsupported('conversion of %r to bool' % v.t)

    def default_value(self, t, uninit=False):
        k = t.k
        if k == 'bool':
            return self.havoc('bool') if uninit else 'false'
        if k in ('char', 'uchar'):
            return self.havoc('u8') if uninit else '0u8'
        if k in ('int', 'enum'):
            return self.havoc(vtype(t)) if uninit else '0' + vtype(t)
        if k == 'str' or k == 'vec':
            return 'Seq::empty()'
        if k == 'map':
            return 'Map::empty()'
        if k == 'set':
            return 'Set::empty()'
        if k == 'opt':
            return 'Option::None'
        if k == 'id':
            return self.havoc('int') if uninit else '0int'
        if k == 'status':
            return 'status_ok()'
        if k == 'pair':
            return '(%s, %s)' % (self.default_value(t.a[0]), self.default_value(t.a[1]))
        if k == 'arr':
            h = self.havoc(vtype(t))
            self.emit('proof { assume(%s.len() == %s); }' % (h, t.name))
            return h
        if k == 'rec':
            q, fl = self.fields_of(t)
            return '%s { %s }' % (t.name, ', '.join('%s: %s' % (al, self.default_value(ft, uninit)) for nm, al, ft in fl))
        if k == 'ext' and t.name in self.cfg.get('ext_defaults', {}):
            return self.cfg['ext_defaults'][t.name]
        raise Unsupported('default value of %r' % t)

    # ------------------------------------------------------------ expressions
    def ev(self, n, ctx):
        n = strip(n)
        if id(n) in self.memo:
            return self.memo[id(n)]
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression %s' % n['kind'], n)
        return m(n, ctx)

    def evr(self, n, ctx):
        """evaluate to rvalue (moved-from sources updated)"""
        return self.val(self.ev(n, ctx))

    def ev_list(self, nodes, ctx, f=None):
        """evaluate operands left to right; snapshot an earlier operand if a later one has effects"""
        out = []
        for i, n in enumerate(nodes):
            pos0 = len(self.out)
            v = (f or self.ev)(n, ctx)
            if len(self.out) != pos0:
                for j in range(len(out)):
                    w, p = out[j]
                    if isinstance(w, V) and not w.const and not isnum(w.s) and w.t.k not in ('ext',) and re.search(r'[a-z_]\w*', w.s) \
                            and any(not l[0].lstrip().startswith(('assert', 'let ghost t_')) for l in self.out[pos0:]):
                        nm = self.fresh('t')
                        self.out.insert(p, ('    ' * self.ind + 'let ghost %s: %s = %s;' % (nm, vtype(w.t), raw(w)), None))
                        out[j] = (V(w.t, lift(nm, w.t), True), p)
                        out = [(a, b + 1 if k > j else b) for k, (a, b) in enumerate(out)]
            out.append((v, len(self.out)))
        return [v for v, p in out]

    def e_IntegerLiteral(self, n, ctx):
        return V(self.type_of(n['type'], ctx), n['value'], True)

    def e_FloatingLiteral(self, n, ctx):
        return fval(self.type_of(n['type'], ctx), float(n['value']))

    def e_CharacterLiteral(self, n, ctx):
        return V(CHAR, '%du8' % (n['value'] % 256), True)

    def e_CXXBoolLiteralExpr(self, n, ctx):
        return V(BOOL, 'true' if n['value'] else 'false', True)

    def e_StringLiteral(self, n, ctx):
        return V(STR, strlit(n['value']), True)

    def e_CXXNullPtrLiteralExpr(self, n, ctx):
        return Ptr(None, 'false')

    def e_GNUNullExpr(self, n, ctx):
        return Ptr(None, 'false')

    def e_CXXThisExpr(self, n, ctx):
        return Ptr(ctx.this, 'true')

    def e_CXXDefaultArgExpr(self, n, ctx):
        # resolved by the callee model
        return V(T('default'), 'DEFAULT', True)

    def e_ImplicitValueInitExpr(self, n, ctx):
        t = self.type_of(n['type'], ctx)
        return V(t, lift(self.default_value(t), t))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_DeclRefExpr(self, n, ctx):
        rd = n['referencedDecl']
        k = rd['kind']
        if k == 'EnumConstantDecl':
            t = ctx.fn.tu
            if rd['id'] in t.enums:
                return V(T('enum', name=rd['type']['qualType'].split('::')[-1]), str(t.enums[rd['id']]), True)
            return V(T('enum', name=rd['type']['qualType'].split('::')[-1]), self.ext_enum(rd), True)
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            if rd['id'] in ctx.env:
                b = ctx.env[rd['id']]
                return b
            return self.global_var(rd, ctx)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', rd)
        raise Unsupported('reference to %s %s' % (k, rd.get('name')), n)

    def ext_enum(self, rd):
        key = rd['name']
        for k, v in self.cfg.get('ext_enum_values', {}).items():
            if k == key or k.split('::')[-1] == key:
                return str(v)
        if key in STATUS_CODES and 'StatusCode' in rd['type']['qualType']:
            return str(STATUS_CODES[key])
        raise Unsupported('external enumerator %s' % key)

    def global_var(self, rd, ctx):
        node = ctx.fn.tu.by_id.get(rd['id'], rd)
        q = node.get('_qual', rd.get('name'))
        f = self.prog.var(q)
        if f is None:
            if q.endswith('npos'):
                return V(U64, '0xffff_ffff_ffff_ffff', True)
            for k, v in self.cfg.get('ext_enum_values', {}).items():
                if k == rd.get('name'):
                    return V(T('enum', name=k), str(v), True)
            raise Unsupported('global variable %s' % q)
        tu, vd = f
        tt = vd['type']['qualType']
        if 'const' not in tt and not vd.get('constexpr'):
            raise Unsupported('mutable global %s' % q)
        init = strip_all(vd['inner'][-1])
        c2 = Ctx(type('F', (), {'tu': tu, 'cls': None})(), {}, None, None)
        v = self.evr(vd['inner'][-1], c2)
        v.const = True
        return v

    def e_MemberExpr(self, n, ctx):
        base = self.ev(n['inner'][0], ctx)
        name = n['name']
        rid = n.get('referencedMemberDecl')
        if name == 'npos':
            return V(U64, '0xffff_ffff_ffff_ffff', True)
        node = ctx.fn.tu.by_id.get(rid)
        if node is not None and node['kind'] == 'VarDecl':
            return self.global_var(node, ctx)
        return self.member(base, n.get('isArrow'), name, n)

    def member(self, base, arrow, name, n):
        if arrow:
            if isinstance(base, LV):
                base = self.rv(base)
            if isinstance(base, MIter):
                return self.miter_member(base, name, n)
            if not isinstance(base, Ptr) and not (isinstance(base, V) and base.t.k == 'tree'):
                raise Unsupported('-> on %r' % base, n)
            place = self.deref(base, n)
        else:
            if isinstance(base, Tup):
                return base.e[0 if name == 'first' else 1]
            place = self.place_of(base)
        t = place.t
        if isinstance(place, RecPlace):
            alias, ft = self.field(t, name)
            return LV(place.fields[alias])
        if t.k == 'rec':
            alias, ft = self.field(t, name)
            return LV(FieldP(place, alias, ft))
        if t.k == 'pair':
            i = 0 if name == 'first' else 1
            return LV(PairP(place, i, t.a[i]))
        if t.k == 'ext':
            fl = self.cfg.get('ext_fields', {}).get(t.name, {})
            if name in fl:
                return LV(FieldP(place, name, fl[name]))
        raise Unsupported('member %s of %r' % (name, t), n)

    def miter_member(self, it, name, n):
        self.ob(it.found, 'dereference of end() iterator', n)
        if it.m.t.k == 'set':
            raise Unsupported('set iterator member', n)
        if name == 'first':
            return LV(ConstP(it.key, it.m.t.a[0]))
        if name == 'second':
            return LV(MapP(it.m, it.key, it.m.t.a[1]))
        raise Unsupported('iterator member ' + name, n)

    def place_of(self, x):
        if isinstance(x, LV):
            return x.place
        if isinstance(x, V):
            if x.t.k == 'rec' or True:
                return ConstP(x.s if x.t.k not in ('int', 'enum') else raw(x), x.t)
        raise Unsupported('not a place: %r' % x)

    def deref(self, p, n):
        if isinstance(p, BufPtr):
            self.ob(p.nn, 'null dereference', n)
            self.ob('0 <= %s < %s.len()' % (p.off, p.base.load()), 'buffer access in range', n)
            return IndexP(p.base, p.off, elem_type(p.base.t))
        if isinstance(p, Ptr):
            self.ob(p.nn, 'null dereference', n)
            if isinstance(p.place, HeapP):
                self.ob(p.place.live(), 'pointer to a live object', n)
            if p.place is None:
                if p.nn == 'false':
                    return ConstP('arbitrary()', p.t.a[0]) if p.t.a else self._uns('dereference of null', n)
                raise Unsupported('dereference of unknown pointer', n)
            return p.place
        if isinstance(p, V) and p.t.k == 'tree' and self.tree_base is not None:
            self.ob('tree_ok(%s, %s)' % (self.tree_base.load(), p.s), 'pointer to a live node', n)
            return TreeP(self.tree_base, p.s, T('rec', name=self.cfg['tree']['rec']))
        if isinstance(p, V) and p.t.k == 'ext' and p.t.name in self.cfg.get('ptr_by_value', ()):
            return ConstP(p.s, p.t)      # a pointer held as the (read-only) value of its object
        raise Unsupported('dereference of %r' % p, n)

    def opaque(self, v, n, ctx, node=None):
        """the opaque object at address v"""
        t = self.type_of((node or n)['type'], ctx)
        t = t.a[0] if t.k in ('ptr', 'ref', 'rref') else t
        if t.k != 'opaque':
            raise Unsupported('dereference of an address of %r' % t, n)
        self.ob('%s != 0' % v.s, 'null dereference', n)
        return ConstP(v.s, t)

    def _uns(self, m, n=None):
        raise Unsupported(m, n)

    def e_UnaryExprOrTypeTraitExpr(self, n, ctx):
        t = self.type_of(n.get('argType') or n['inner'][0]['type'], ctx)
        k, t = (int(t.name), t.a[0]) if t.k == 'arr' and str(t.name).isdigit() else (1, t)
        w = {'bool': 1, 'char': 1, 'uchar': 1, 'int': t.bits // 8}.get(t.k)
        if n.get('name') != 'sizeof' or not w:
            raise Unsupported('%s of %r' % (n.get('name'), t), n)
        return V(self.type_of(n['type'], ctx), str(k * w), True)

    def e_ArraySubscriptExpr(self, n, ctx):
        a, i = self.ev_list(n['inner'], ctx, lambda x, c: self.rv(self.ev(x, c)))
        if isinstance(a, V) and a.t.k == 'int':
            a, i = i, a
        if isinstance(a, BufPtr):
            return LV(self.deref(BufPtr(a.base, add(a.off, self.conv_int(i, I64).s), a.nn), n))
        if isinstance(a, V) and a.t.k == 'str':
            s = self.let(a.s, 'Seq<u8>')
            self.ob('0 <= %s <= %s.len()' % (i.s, s), 'character of a string in range', n)
            return V(CHAR, '(if %s < %s.len() { %s[%s] } else { 0u8 })' % (i.s, s, s, i.s))
        raise Unsupported('subscript of %r' % a, n)

    def e_UnaryOperator(self, n, ctx):
        op = n['opcode']
        if op == '&':
            x = self.ev(n['inner'][0], ctx)
            if isinstance(x, LV):
                p = x.place
                if isinstance(p, IndexP) and p.t.k in ('char', 'uchar'):
                    return BufPtr(p.parent, p.idx)
                if p.t.k == 'opaque':
                    return V(T('id'), p.load())
                return Ptr(p, 'true')
            if isinstance(x, V) and x.t.k in ('rec', 'ext'):
                return Ptr(ConstP(x.s, x.t), 'true')
            raise Unsupported('address of %r' % x, n)
        if op == '*':
            x = self.rv(self.ev(n['inner'][0], ctx))
            if isinstance(x, Iter):
                return self.iter_deref(x, n)
            if isinstance(x, V) and x.t.k == 'id':
                return LV(self.opaque(x, n, ctx))
            return LV(self.deref(x, n))
        if op in ('++', '--'):
            lv = self.ev(n['inner'][0], ctx)
            d = '1' if op == '++' else '-1'
            if is_meta(lv):
                old = lv
                new = self.ptr_add(lv, V(I64, '1' if op == '++' else '(-1)'), n)
                if n.get('isPostfix'):
                    old = self.snapshot_meta(lv)
                    new = self.ptr_add(old, V(I64, '1' if op == '++' else '(-1)'), n)
                nd = strip_all(n['inner'][0])
                self.meta_assign(nd, new, ctx)
                return old if n.get('isPostfix') else self.ev(n['inner'][0], ctx)
            v = self.rd(lv.place)
            if n.get('isPostfix'):
                v = V(v.t, lift(self.let(raw(v), vtype(v.t)), v.t), True)
            if v.t.k in ('char', 'uchar'):
                nv = self.conv_int(V(I32, '(%s + %s)' % (self.conv_int(v, I32).s, d)), v.t)
            else:
                nv = self.arith('+' if op == '++' else '-', v, V(v.t, '1'), v.t, n)
            lv.place.store(self, raw(nv))
            return v if n.get('isPostfix') else lv
        x = self.evr(n['inner'][0], ctx)
        if op == '!':
            b = self.to_bool(x)
            return V(BOOL, neg(b.s))
        if op == '-':
            if isnum(x.s) and x.t.k == 'int':
                return self.wrap(V(x.t, str(-numval(x.s)) if numval(x.s) <= 0 else '(%d)' % -numval(x.s)))
            return self.arith('-', V(x.t, '0'), x, x.t, n)
        if op == '+':
            return x
        if op == '~':
            if x.t.signed:
                return V(x.t, '(-1 - %s)' % x.s)
            return V(x.t, '(%d - %s)' % (x.t.hi, x.s))
        raise Unsupported('unary ' + op, n)

    def arith(self, op, a, b, t, n):
        if t.k == 'float':
            if a.t.k != 'float' or b.t.k != 'float' or op not in '+-*/':
                raise Unsupported('floating-point operator ' + op, n)
            x, y = flit(a), flit(b)
            if x is not None and y is not None and op in '+-*':
                return fval(t, eval('x %s y' % op))
            return V(t, '%s_op(%d, %s, %s)' % (t.name, '+-*/'.index(op), a.s, b.s))
        if t.k != 'int':
            raise Unsupported('arithmetic on %r' % t, n)
        if op in '+-*':
            if op == '+':
                s = add(a.s, b.s)
            elif op == '-':
                s = sub(a.s, b.s)
            else:
                s = str(numval(a.s) * numval(b.s)) if isnum(a.s) and isnum(b.s) else '(%s * %s)' % (a.s, b.s)
            if t.signed:
                if not isnum(s):
                    self.ob('%d <= %s <= %d' % (t.lo, s, t.hi), 'signed overflow', n)
                return V(t, s)
            return self.wrap(V(t, s))
        if op in ('/', '%'):
            if isnum(b.s) and numval(b.s) > 0:
                pass
            else:
                self.ob('%s != 0' % b.s, 'division by zero', n)
            if t.signed:
                return V(t, 'c_%s(%s, %s)' % ('div' if op == '/' else 'mod', a.s, b.s))
            return V(t, '(%s %s %s)' % (a.s, op, b.s))
        if op in ('<<', '>>'):
            if not isnum(b.s):
                self.ob('0 <= %s < %d' % (b.s, t.bits), 'shift amount', n)
                s = ('(%s * pow2n(%s))' if op == '<<' else '(%s / pow2n(%s))') % (a.s, b.s)
            else:
                k = numval(b.s)
                if not 0 <= k < t.bits:
                    self.ob('false', 'shift amount', n)
                    k = 0
                s = ('(%s * %d)' if op == '<<' else '(%s / %d)') % (a.s, 1 << k)
            return self.wrap(V(t, s)) if op == '<<' else V(t, s)
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if isnum(y.s):
                    m = numval(y.s)
                    if m >= 0 and (m & (m + 1)) == 0:
                        return V(t, '(%s %% %d)' % (x.s, m + 1))
        if op in ('&', '|', '^'):
            f = {'&': 'bit_and', '|': 'bit_or', '^': 'bit_xor'}[op]
            if isnum(a.s) and numval(a.s) == 0 and op in '|^':
                return V(t, b.s)
            return V(t, '%s(%s, %s)' % (f, a.s, b.s))
        raise Unsupported('operator ' + op, n)

    def branch(self, f):
        """run f() with output captured"""
        save = self.out
        self.out = []
        self.ind += 1
        try:
            r = f()
            return self.out, r
        finally:
            self.ind -= 1
            self.out = save

    def shortcircuit(self, a, rhs, is_and, ctx):
        lines, b = self.branch(lambda: self.to_bool(self.evr(rhs, ctx)))
        if not lines:
            return V(BOOL, '(%s %s %s)' % (a.s, '&&' if is_and else '||', b.s))
        v = self.decl('sc', 'bool', 'false' if is_and else 'true')
        self.emit('if tst(Ghost((%s))) {' % (a.s if is_and else neg(a.s)))
        self.out += lines
        self.ind += 1
        self.assign(v, b.s)
        self.ind -= 1
        self.emit('}')
        return V(BOOL, v)

    def e_BinaryOperator(self, n, ctx):
        op = n['opcode']
        if op == ',':
            self.ev(n['inner'][0], ctx)
            return self.ev(n['inner'][1], ctx)
        if op == '=':
            return self.assignment(n['inner'][0], n['inner'][1], n, ctx)
        if op in ('&&', '||'):
            a = self.to_bool(self.evr(n['inner'][0], ctx))
            return self.shortcircuit(a, n['inner'][1], op == '&&', ctx)
        a, b = self.ev_list(n['inner'], ctx, self.evr)
        return self.binop(op, a, b, n, ctx)

    def binop(self, op, a, b, n, ctx):
        if is_meta(a) or is_meta(b) or a.t.k == 'nullptr' or b.t.k == 'nullptr' or 'id' in (a.t.k, b.t.k) or 'tree' in (a.t.k, b.t.k):
            return self.ptr_binop(op, a, b, n)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, n)
        t = self.type_of(n['type'], ctx)
        return self.arith(op, a, b, t, n)

    def compare(self, op, a, b, n):
        if a.t.k == 'float' or b.t.k == 'float':
            f = a.t.name
            if op in ('==', '!='):
                return V(BOOL, '(%s%s_eq(%s, %s))' % ('!' if op == '!=' else '', f, a.s, b.s))
            if op in ('>', '>='):
                a, b, op = b, a, {'>': '<', '>=': '<='}[op]
            return V(BOOL, '%s_%s(%s, %s)' % (f, 'lt' if op == '<' else 'le', a.s, b.s))
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                m = re.match(r'^sx8\((.*)\)$', x.s)
                if m and balanced(m.group(1)):
                    if isnum(y.s):
                        c = numval(y.s)
                        if -128 <= c <= 127:
                            return V(BOOL, '(%s %s %du8)' % (m.group(1), op, c % 256))
                    m2 = re.match(r'^sx8\((.*)\)$', y.s)
                    if m2 and balanced(m2.group(1)):
                        return V(BOOL, '(%s %s %s)' % (m.group(1), op, m2.group(1)))
        if isnum(a.s) and isnum(b.s):
            return V(BOOL, 'true' if eval('%d %s %d' % (numval(a.s), op, numval(b.s))) else 'false')
        return V(BOOL, '(%s %s %s)' % (a.s, op, b.s))

    def ptr_binop(self, op, a, b, n):
        if op in ('==', '!=') and any(isinstance(x, V) and x.t.k == 'tree' for x in (a, b)):
            u, v = self.tree_val(a), self.tree_val(b)
            if u is None or v is None:
                raise Unsupported('node pointer comparison', n)
            r = '(%s =~= %s)' % (u.s, v.s)
            return V(BOOL, r if op == '==' else neg(r))
        if op in ('==', '!='):
            def null(x):
                return isinstance(x, Ptr) and x.place is None or (isinstance(x, V) and x.t.k == 'nullptr')
            r = None
            for x, y in ((a, b), (b, a)):
                if null(y):
                    if isinstance(x, (Ptr, BufPtr)):
                        r = neg(x.nn)
                    elif isinstance(x, V) and x.t.k == 'id':
                        r = '(%s == 0)' % x.s
                    elif isinstance(x, V) and x.t.k == 'opt':
                        r = '(%s is None)' % x.s
                    else:
                        raise Unsupported('null compare of %r' % x, n)
                    break
            if r is None:
                if isinstance(a, Iter) and isinstance(b, Iter):
                    self.same_base(a.base, b.base, n)
                    r = '(%s == %s)' % (a.idx, b.idx)
                elif isinstance(a, MIter) and isinstance(b, MIter):
                    if b.found == 'false':
                        r = neg(a.found)
                    elif a.found == 'false':
                        r = neg(b.found)
                    else:
                        r = '(%s == %s && (%s ==> %s == %s))' % (a.found, b.found, a.found, a.key, b.key)
                elif isinstance(a, BufPtr) and isinstance(b, BufPtr):
                    self.same_base(a.base, b.base, n)
                    r = '(%s == %s)' % (a.off, b.off)
                elif isinstance(a, V) and isinstance(b, V):
                    r = '(%s == %s)' % (a.s, b.s)
                else:
                    raise Unsupported('pointer comparison', n)
            return V(BOOL, r if op == '==' else neg(r))
        if op in ('+', '-') and isinstance(b, V) and b.t.k in ('int',):
            if op == '-':
                b = V(I64, sub('0', b.s))
            return self.ptr_add(a, b, n)
        if op == '+' and isinstance(a, V) and a.t.k == 'int':
            return self.ptr_add(b, a, n)
        if op == '-' and type(a) is type(b):
            if isinstance(a, BufPtr):
                self.same_base(a.base, b.base, n)
                return V(I64, sub(a.off, b.off))
            if isinstance(a, Iter):
                self.same_base(a.base, b.base, n)
                return V(I64, sub(a.idx, b.idx))
        if op in ('<', '>', '<=', '>='):
            if isinstance(a, BufPtr) and isinstance(b, BufPtr):
                self.same_base(a.base, b.base, n)
                return V(BOOL, '(%s %s %s)' % (a.off, op, b.off))
            if isinstance(a, Iter) and isinstance(b, Iter):
                self.same_base(a.base, b.base, n)
                return V(BOOL, '(%s %s %s)' % (a.idx, op, b.idx))
        raise Unsupported('pointer operation ' + op, n)

    def same_base(self, a, b, n):
        la, lb = a.leaves(), b.leaves()
        if a.shape() == b.shape() and len(la) == len(lb) and any(ty == 'Seq<int>' for _, ty in la):
            for (x, ty), (y, _) in zip(la, lb):      # the same node
                if x != y:
                    self.ob('%s %s %s' % (x, '=~=' if ty == 'Seq<int>' else '==', y), 'iterators of one container', n)
            return
        if a.shape() == b.shape() and a.load() == b.load():
            return
        self.ob('%s =~= %s' % (a.load(), b.load()), 'iterators of one container', n)

    def ptr_add(self, p, d, n):
        if isinstance(p, BufPtr):
            off = add(p.off, d.s)
            self.ob('0 <= %s <= %s.len()' % (off, p.base.load()), 'pointer arithmetic in range', n)
            return BufPtr(p.base, off, p.nn)
        if isinstance(p, Iter):
            i = add(p.idx, d.s)
            self.ob('0 <= %s <= %s.len()' % (i, p.base.load()), 'iterator arithmetic in range', n)
            return Iter(p.base, i)
        raise Unsupported('pointer arithmetic on %r' % p, n)

    def snapshot_meta(self, m):
        lv = [self.let(s, ty) if not isnum(s) and s not in ('true', 'false') else s for s, ty in meta_leaves(m)]
        return meta_with(m, iter(lv))

    def iter_deref(self, it, n):
        self.ob('0 <= %s < %s.len()' % (it.idx, it.base.load()), 'iterator dereference in range', n)
        return LV(IndexP(it.base, it.idx, elem_type(it.base.t)))

    def e_CompoundAssignOperator(self, n, ctx):
        op = n['opcode'][:-1]
        lhs = self.ev(n['inner'][0], ctx)
        rhs = self.evr(n['inner'][1], ctx)
        if is_meta(lhs):
            if op == '-':
                rhs = V(I64, sub('0', rhs.s))
            new = self.ptr_add(lhs, rhs, n)
            self.meta_assign(strip_all(n['inner'][0]), new, ctx)
            return self.ev(n['inner'][0], ctx)
        # computation type
        crt = self.ptype(n['computeResultType'].get('desugaredQualType', n['computeResultType']['qualType']), ctx.fn.tu, ctx.fn.cls)
        clt = self.ptype(n['computeLHSType'].get('desugaredQualType', n['computeLHSType']['qualType']), ctx.fn.tu, ctx.fn.cls)
        cur = self.rd(lhs.place)
        a = cur if cur.t.k == 'float' else self.conv_int(cur, clt)
        r = self.arith(op, a, rhs, crt, n)
        r = r if cur.t.k == 'float' else self.conv_int(r, cur.t)
        lhs.place.store(self, raw(r))
        return lhs

    def e_ConditionalOperator(self, n, ctx):
        c = self.to_bool(self.evr(n['inner'][0], ctx))
        la, a = self.branch(lambda: self.evr(n['inner'][1], ctx))
        lb, b = self.branch(lambda: self.evr(n['inner'][2], ctx))
        if any(isinstance(x, V) and x.t.k == 'tree' for x in (a, b)):
            a, b = self.tree_val(a), self.tree_val(b)
            if a is None or b is None:
                raise Unsupported('conditional pointer', n)
        if not la and not lb and isinstance(a, V) and isinstance(b, V):
            return V(a.t, '(if %s { %s } else { %s })' % (c.s, intsuf(a), intsuf(b)))
        if isinstance(a, V) and isinstance(b, V):
            v = self.decl('cond', vtype(a.t))
            self.emit('if tst(Ghost((%s))) {' % c.s)
            self.out += la
            self.ind += 1
            self.assign(v, raw(a))
            self.ind -= 1
            self.emit('} else {')
            self.out += lb
            self.ind += 1
            self.assign(v, raw(b))
            self.ind -= 1
            self.emit('}')
            return V(a.t, lift(v, a.t))
        # pointers
        ref = a if not (isinstance(a, Ptr) and a.place is None) else b
        if isinstance(ref, Ptr) and ref.place is None:
            return ref
        for x in (a, b):
            if not (isinstance(x, Ptr) and x.place is None) and meta_shape(x) != meta_shape(ref):
                raise Unsupported('conditional pointer', n)
        vs = [self.decl('cp', ty, 'false' if ty == 'bool' else None) for s, ty in meta_leaves(ref)]
        for head, ls, x in (('if tst(Ghost((%s))) {' % c.s, la, a), ('} else {', lb, b)):
            self.emit(head)
            self.out += ls
            self.ind += 1
            if isinstance(x, Ptr) and x.place is None:
                self.assign(vs[0], 'false')
            else:
                for v, (s, ty) in zip(vs, meta_leaves(x)):
                    self.assign(v, s)
            self.ind -= 1
        self.emit('}')
        return meta_with(ref, iter(vs))

    def e_CXXRewrittenBinaryOperator(self, n, ctx):
        return self.ev(n['inner'][0], ctx)

    # ---- casts
    def e_ImplicitCastExpr(self, n, ctx):
        ck = n.get('castKind')
        inner = n['inner'][0]
        if ck == 'LValueToRValue':
            x = self.ev(inner, ctx)
            if isinstance(x, LV):
                return self.load_lv(x)
            return x
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'FunctionToPointerDecay', 'BaseToDerived'):
            return self.ev(inner, ctx)
        if ck == 'BuiltinFnToFnPtr':
            return self.ev(inner, ctx)
        if ck == 'ArrayToPointerDecay':
            x = self.ev(inner, ctx)
            if isinstance(x, LV) and x.t.k == 'arr':
                return BufPtr(x.place, '0')
            return x
        if ck in ('ConstructorConversion', 'UserDefinedConversion'):
            return self.ev(inner, ctx)
        if ck == 'IntegralCast':
            return self.conv_int(self.evr(inner, ctx), self.type_of(n['type'], ctx), n)
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.to_bool(self.evr(inner, ctx))
        if ck == 'NullToPointer':
            t = None
            try:
                t = self.type_of(n['type'], ctx)
            except Unsupported:
                pass
            if t is not None and t.k == 'ptr' and t.a[0].k in ('void', 'opaque') and not t.const:
                return V(T('id'), '0', True)
            if t is not None and t.k == 'ptr' and t.a[0].k == 'opaque':
                return V(T('id'), '0', True)
            return Ptr(None, 'false', t)
        if ck == 'BitCast':
            return self.bitcast(self.evr(inner, ctx), self.type_of(n['type'], ctx), n)
        if ck == 'BaseToDerived':
            return self.e_CXXReinterpretCastExpr(n, ctx)
        if ck in ('ToVoid',):
            self.ev(inner, ctx)
            return V(VOID, '()')
        if ck in ('FloatingCast', 'IntegralToFloating', 'FloatingToIntegral'):
            v = self.evr(inner, ctx)
            t = self.type_of(n['type'], ctx)
            if ck == 'FloatingCast':
                return self.conv_float(v, t)
            if ck == 'IntegralToFloating':
                if isnum(v.s) and abs(numval(v.s)) < 1 << 24:
                    return fval(t, float(numval(v.s)))
                return V(t, 'int_to_%s(%s as int)' % (t.name, raw(self.coerce(v, v.t, n))))
            raise Unsupported('cast ' + ck, n)
        raise Unsupported('cast %s' % ck, n)

    def conv_float(self, v, t):
        if v.t == t:
            return v
        return fval(t, flit(v)) if flit(v) is not None else V(t, 'to_%s(%s)' % (t.name, v.s))

    def load_lv(self, x):
        if x.t.k == 'ext':
            return x      # objects held by pointer: the pointer value is the object
        return self.rd(x.place)

    def e_CXXStaticCastExpr(self, n, ctx):
        return self.e_ImplicitCastExpr(n, ctx)

    e_CStyleCastExpr = e_CXXStaticCastExpr
    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr
    e_CXXConstCastExpr = e_CXXStaticCastExpr

    def e_CXXReinterpretCastExpr(self, n, ctx):
        if self.cfg.get('downcast'):
            v = self.ev(n['inner'][0], ctx)
            if isinstance(v, LV) and v.t.k == 'ext':
                return self.bitcast(v, self.type_of(n['type'], ctx), n)
            return self.bitcast(self.rv(v), self.type_of(n['type'], ctx), n)
        return self.bitcast(self.evr(n['inner'][0], ctx), self.type_of(n['type'], ctx), n)

    def bitcast(self, v, t, n):
        if t.k == 'ptr':
            to = t.a[0]
            if isinstance(v, BufPtr):
                return v
            if to.k == 'rec' and isinstance(v, (LV, Ptr)) and v.place is not None and v.place.t.k == 'ext':
                f = self.cfg.get('downcast', {}).get((v.place.t.name, to.name))
                if f is None:
                    raise Unsupported('%r as %r' % (v.place.t, to), n)
                self.ob('%s.%s is Some' % (v.place.load(), f), 'object is of the class it is cast to', n)
                return Ptr(OptP(FieldP(v.place, f, T('opt', (to,))), to), 'true')
            if to.k == 'void' and not to.const:
                # pointer to an addressed object
                if isinstance(v, Ptr) and v.place is not None and v.place.t.k == 'rec':
                    return V(T('id'), '(if %s { %s.addr_ } else { 0int })' % (v.nn, v.place.load()))
                if isinstance(v, V) and v.t.k == 'id':
                    return v
                if isinstance(v, Ptr) and v.place is None:
                    return V(T('id'), '0', True)
            if isinstance(v, V) and v.t.k == 'id' and to.k == 'rec':
                return self.heap_lookup(v, to, n)
            if isinstance(v, Ptr):
                return v
            if isinstance(v, LV) and v.t.k == 'ext':
                return v
            if isinstance(v, V) and v.t.k in ('region', 'str'):
                return v
        raise Unsupported('cast to %r' % t, n)

    def heap_lookup(self, v, to, n):
        q = self.fields_of(to)[0]
        h = self.cfg.get('addressed', {}).get(q)
        if not h:
            raise Unsupported('pointer from void* to %r' % to, n)
        this = self.ctx_this
        cont = self.member(LV(this), False, h, n)
        return Ptr(HeapP(cont.place, self.let(v.s, 'int'), to), '(%s != 0)' % v.s)

    # ---- assignment
    def assignment(self, l, r, n, ctx):
        lhs = self.ev(l, ctx)
        if is_meta(lhs) or isinstance(lhs, Lam):
            rhs = self.ev(r, ctx)
            rhs = self.rv(rhs) if isinstance(rhs, LV) and rhs.t.k not in ('ext',) else rhs
            self.meta_assign(strip_all(l), rhs, ctx)
            return lhs
        rhs = self.evr(r, ctx)
        self.store(lhs, rhs, n)
        return lhs

    def store(self, lhs, rhs, n):
        if not isinstance(lhs, LV):
            raise Unsupported('assignment to %r' % lhs, n)
        t = lhs.t
        rhs = self.coerce(rhs, t, n)
        lhs.place.store(self, raw(rhs))

    def upcast(self, place, t, n):
        """the object of a place seen as an object of type t (a base class)"""
        if t.k == 'ext' and place.t != t:
            f = self.cfg.get('upcast', {}).get((place.t.name, t.name))
            if f is None:
                raise Unsupported('%r as %r' % (place.t, t), n)
            return f % dict(x=self.let(place.load(), vtype(place.t)))
        return place.load()

    def coerce(self, v, t, n=None):
        """value v as a stored value of type t"""
        if isinstance(v, LV):
            v = self.val(v)
        if t.k == 'tree':
            x = self.tree_val(v)
            if x is not None:
                return x
        if isinstance(v, Ptr):
            if t.k == 'opt':
                if v.place is None:
                    return V(t, 'Option::None')
                if v.fresh:
                    return V(t, 'Option::Some(%s)' % self.upcast(v.place, t.a[0], n))
                if t.name == 'nullable':
                    x = 'Option::Some(%s)' % self.upcast(v.place, t.a[0], n)
                    return V(t, x if v.nn == 'true' else '(if %s { %s } else { Option::None })' % (v.nn, x))
            if t.k == 'id':
                if v.fresh and v.place is not None and v.place.t.k == 'rec' and 'addr_' not in [f[1] for f in self.fields_of(v.place.t)[1]]:
                    a = self.havoc('int', 'new_addr')
                    self.emit('proof { assume(%s != 0); }' % a)
                    return V(t, a)
                return self.bitcast(v, T('ptr', (VOID,)), n)
            if t.k == 'ext' and v.place is None and t.name in self.cfg.get('null_ext', {}):
                return V(t, self.cfg['null_ext'][t.name])
            if t.k in ('ext', 'rec') and v.place is not None:
                if v.nn != 'true':
                    self.ob(v.nn, 'pointer not null', n)
                return V(t, self.upcast(v.place, t, n))
        if isinstance(v, InitList):
            if t.k == 'vec':
                return V(t, 'seq![%s]' % ', '.join(raw(self.coerce(e, t.a[0], n)) for e in v.elems))
            if t.k == 'rec':
                q, fl = self.fields_of(t)
                es = [raw(self.coerce(e, ft, n)) for e, (nm, al, ft) in zip(v.elems, fl)]
                return V(t, '%s { %s }' % (t.name, ', '.join('%s: %s' % (f[1], e) for e, f in zip(es, fl))))
            if t.k in ('str', 'map', 'set') and not v.elems:
                return V(t, self.default_value(t))
            if t.k == 'arr' and str(t.name) == str(len(v.elems)):
                return V(t, 'seq![%s]' % ', '.join(raw(self.coerce(e, t.a[0], n)) for e in v.elems))
        if isinstance(v, Iter) and t.k == 'iter':
            return V(t, 'mk_iter(%s, %s)' % (v.base.load(), v.idx))
        if isinstance(v, V):
            if t.k == 'id' and v.t.k == 'nullptr':
                return V(t, '0int')
            if t.k == 'id' and v.t.k == 'opaque':
                return V(t, v.s)
            if v.t.k == 'id' and t.k == 'id':
                return V(t, '0int' if v.s == '0' else v.s)
            if t.k == 'pair' and v.t.k == 'pair':
                return V(t, v.s)
            if t.k == 'float' and v.t.k == 'float':
                return self.conv_float(v, t)
            if t.k == 'opt' and v.t.k == 'ext':
                return V(t, 'Option::Some(%s)' % v.s)
            if t.k == 'opt' and v.t.k == 'opt' and v.t.a and t.a and v.t.a[0].k in ('ext', 'rec') and t.a[0].k == 'ext' and v.t.a[0].name != t.a[0].name:
                x = self.let(v.s, vtype(v.t))
                return V(t, '(if %s is Some { Option::Some(%s) } else { Option::None })' % (x, self.upcast(Root('%s->0' % x, v.t.a[0], False), t.a[0], n)))
            if (t.k == v.t.k and not (t.k == 'statusor' and t.a != v.t.a)) or {t.k, v.t.k} <= {'str', 'region'}:
                return V(t, v.s) if t.k != 'int' else (self.conv_int(v, t) if v.t != t else v)
            if t.k in ('int', 'char', 'uchar', 'bool', 'enum') and v.t.k in ('int', 'char', 'uchar', 'bool', 'enum'):
                return self.conv_int(v, t, n)
            if v.t.k == 'opt' and v.t.name == 'nullable' and t.k == 'ext':
                self.ob('%s is Some' % v.s, 'pointer not null', n)
                return self.coerce(V(v.t.a[0], '%s->0' % v.s), t, n)
            if v.t.k in ('ext', 'rec') and t.k in ('ext', 'rec'):
                if v.t.name != t.name:
                    return V(t, self.upcast(Root(v.s, v.t, False), t, n))
                return V(t, v.s)
            if t.k == 'statusor' and v.t.k == 'statusor':
                x = self.let(v.s, vtype(v.t))
                e = self.coerce(V(v.t.a[0], lift('%s->Ok_0' % x, v.t.a[0])), t.a[0], n)
                return V(t, '(match %s { StatusOr::Err(e_) => StatusOr::Err(e_), _ => StatusOr::Ok(%s) })' % (x, raw(e)))
            if t.k == 'statusor' and v.t.k == 'status':
                return V(t, 'StatusOr::Err(%s)' % v.s)
            if t.k == 'statusor':
                return V(t, 'StatusOr::Ok(%s)' % raw(self.coerce(v, t.a[0], n)))
        if isinstance(v, BufPtr) and t.k in ('str', 'region'):
            return V(t, '%s.skip(%s)' % (v.base.load(), v.off))
        if isinstance(v, Lam) and t.k == 'func':
            return v
        raise Unsupported('cannot store %r as %r' % (v, t), n)

    def meta_assign(self, target, new, ctx):
        """assign a pointer/iterator variable"""
        if target['kind'] != 'DeclRefExpr':
            raise Unsupported('assignment to pointer expression', target)
        did = target['referencedDecl']['id']
        cur = ctx.env[did]
        if isinstance(new, Ptr) and new.place is None and isinstance(cur, (Ptr, BufPtr)):
            if cur.nn in ('true', 'false'):
                raise Unsupported('pointer reset', target)
            self.assign(cur.nn, 'false')
            return
        if meta_shape(new) != meta_shape(cur):
            if isinstance(cur, Ptr) and cur.place is None and did in self.late_ptr:
                raise Unsupported('pointer variable retargeted', target)
            raise Unsupported('pointer variable retargeted: %s vs %s' % (meta_shape(cur), meta_shape(new)), target)
        tmp = []
        for (c, ty), (s, _) in zip(meta_leaves(cur), meta_leaves(new)):
            if c == s:
                continue
            if not re.match(r'^[A-Za-z_]\w*$', c) or c in ('true', 'false'):
                if c != s:
                    raise Unsupported('pointer variable with fixed part changes', target)
            tmp.append((c, s))
        if len(tmp) > 1:
            tmp = [(c, self.let(s, ty2)) for (c, s), ty2 in zip(tmp, [ty for (c, ty), (s, _) in zip(meta_leaves(cur), meta_leaves(new)) if c != s])]
        for c, s in tmp:
            self.assign(c, s)

    def bind_meta(self, name, m, mutable=True):
        """new pointer/iterator variable: its dynamic parts live in ghost variables"""
        vs = []
        for s, ty in meta_leaves(m):
            if not mutable:
                vs.append(s if isnum(s) or s in ('true', 'false') or s.startswith('t_') else self.let(s, ty))
            else:
                vs.append(self.decl(name, ty, s if not isnum(s) else (s + 'int' if not s.startswith('(') else s)))
        return meta_with(m, iter(vs))

    # ---- construction
    def e_InitListExpr(self, n, ctx):
        t = self.type_of(n['type'], ctx)
        t = unref(t)
        elems = n.get('inner', [])
        if t.k == 'rec':
            q, fl = self.fields_of(t)
            vals = self.ev_list(elems, ctx, self.evr)
            parts = []
            for i, (nm, al, ft) in enumerate(fl):
                if i < len(vals):
                    parts.append('%s: %s' % (al, raw(self.coerce(vals[i], ft, n))))
                else:
                    parts.append('%s: %s' % (al, self.default_value(ft)))
            return V(t, '%s { %s }' % (t.name, ', '.join(parts)))
        if t.k == 'arr' or t.k == 'vec':
            vals = self.ev_list(elems, ctx, self.evr)
            if t.k == 'arr' and t.name and t.name.isdigit() and t.a[0].k in ('char', 'uchar') and len(vals) < int(t.name):
                vals += [V(t.a[0], '0u8')] * (int(t.name) - len(vals))
            return InitList(vals, t)
        vals = self.ev_list(elems, ctx, self.evr)
        if len(vals) == 1:
            return vals[0]
        if not vals:
            return V(t, lift(self.default_value(t), t))
        raise Unsupported('initializer list of %r' % t, n)

    def e_CXXStdInitializerListExpr(self, n, ctx):
        inner = strip(n['inner'][0])
        while inner['kind'] == 'ImplicitCastExpr':
            inner = strip(inner['inner'][0])
        return self.ev(inner, ctx)

    def e_CXXNewExpr(self, n, ctx):
        t = self.type_of(n['type'], ctx)
        el = t.a[0]
        inner = [c for c in n.get('inner', []) if strip(c)['kind'] in ('CXXConstructExpr', 'InitListExpr', 'ImplicitValueInitExpr', 'CXXScalarValueInitExpr', 'CXXParenListInitExpr')]
        if not inner:
            raise Unsupported('new expression', n)
        v = self.evr(inner[0], ctx)
        v = self.coerce(v, el, n)
        s = v.s
        if el.k == 'rec' and self.fields_of(el)[0] in self.cfg.get('addressed', {}):
            a = self.fresh('addr')
            live = self.live_addrs(el)
            self.emit('let %s_e = fresh_addr(Ghost(%s)); let ghost %s: int = %s_e@;' % (a, live, a, a))
            s = '%s { addr_: %s, ..%s }' % (el.name, a, s)
        s = self.let(s, vtype(el))
        return Ptr(ConstP(s, el), 'true', fresh=True)

    def live_addrs(self, el):
        q = self.fields_of(el)[0]
        h = self.cfg['addressed'][q]
        cont = self.member(LV(self.ctx_this), False, h, None)
        return 'addrs_%s(%s)' % (el.name, cont.place.load())

    def e_CXXTemporaryObjectExpr(self, n, ctx):
        return self.e_CXXConstructExpr(n, ctx)

    def e_CXXConstructExpr(self, n, ctx):
        if re.search(r'\bAlphaNum$', n['type']['qualType']):      # a piece of absl::StrCat
            v = self.evr([a for a in n['inner'] if strip(a)['kind'] != 'CXXDefaultArgExpr'][0], ctx)
            if v.t.k in ('str', 'char', 'region'):
                return V(STR, self.lib.as_str(self, v, n))
            return V(STR, 'to_dec(%s)' % v.s if v.t.k == 'int' else self.havoc('Seq<u8>'))
        t = unref(self.type_of(n['type'], ctx))
        args = n.get('inner', [])
        args = [a for a in args if strip(a)['kind'] != 'CXXDefaultArgExpr' or True]
        if t.k == 'rec':
            return self.construct_rec(t, n, args, ctx)
        real = [a for a in args if strip(a)['kind'] != 'CXXDefaultArgExpr']
        if t.k == 'func' and len(real) == 1:
            v = self.ev(real[0], ctx)
            if isinstance(v, Lam):
                return v
            raise Unsupported('function object', n)
        r = self.lib.construct(self, t, n, real, ctx)
        return r

    def construct_rec(self, t, n, args, ctx):
        # copy / move
        ctype = n.get('ctorType', {}).get('qualType', '')
        q, fl = self.fields_of(t)
        m = re.match(r'^void \(([^()]*)\)', ctype)
        if len(args) == 1 and m:
            pt = m.group(1)
            short = q.split('::')[-1]
            if re.match(r'^(const )?([\w:]*::)?%s(<.*>)? ?&&?( noexcept)?$' % re.escape(short), pt.strip()):
                x = self.ev(args[0], ctx)
                if isinstance(x, LV) and '&&' in pt:
                    x = LV(x.place, True) if x.moved else LV(x.place)
                return self.val(x)
        # user constructor
        cands = [f for f in self.prog.fns.get(q + '::' + q.split('::')[-1], []) if f.kind == 'CXXConstructorDecl' and not f.node.get('isImplicit')]
        want = re.sub(r'\s', '', ctype.split(' noexcept')[0])
        best = [f for f in cands if re.sub(r'\s', '', f.node['type']['qualType'].split(' noexcept')[0]) == want]
        if not best:
            best = [f for f in cands if len(f.params) == len(args)]
        if best:
            vals = self.eval_args(best[0], args, ctx)
            return self.construct_user(t, best[0], vals, n, ctx)
        if not args:
            return V(t, self.default_value(t, uninit=not n.get('requiresZeroInitialization') and not n.get('zeroing')))
        raise Unsupported('constructor of %s' % q, n)

    def construct_user(self, t, fn, args, n, ctx):
        key = self.contract_key(fn)
        if key:
            return self.call_contract(key, fn, None, args, n, ctx)
        # inline: flatten a fresh record
        place = self.new_rec(t, 'new', init=False)
        self.inline(fn, place, args, n, ctx)
        s = self.let(place.load(), t.name)
        return V(t, s)

    def new_rec(self, t, base, init=False):
        q, fl = self.fields_of(t)
        fields = {}
        for nm, al, ft in fl:
            if ft.k == 'rec' and ft.name not in self.cfg.get('opaque_recs', ()):
                fields[al] = self.new_rec(ft, base + '_' + al)
            else:
                v = self.decl(base + '_' + al, vtype(ft))
                if ft.k == 'arr':
                    self.emit('proof { assume(%s.len() == %s); }' % (v, ft.name))
                fields[al] = Root(v, ft)
        return RecPlace(t, fields)

    # ---- calls
    def eval_args(self, fn, argnodes, ctx):
        """evaluate arguments for a user function"""
        out = []
        nodes = []
        for i, a in enumerate(argnodes):
            if strip(a)['kind'] == 'CXXDefaultArgExpr':
                pn = fn.params[i]
                init = [c for c in pn.get('inner', [])]
                if not init:
                    # default given on another declaration
                    for d in fn.tu.by_id.values():
                        if d.get('kind') == 'ParmVarDecl' and d.get('name') == pn.get('name') and d.get('inner') and d.get('init'):
                            init = d['inner']
                if not init:
                    raise Unsupported('default argument', a)
                nodes.append(init[-1])
            else:
                nodes.append(a)
        return self.ev_list(nodes, ctx)

    def e_CallExpr(self, n, ctx):
        callee = self.ev(n['inner'][0], ctx)
        args = n['inner'][1:]
        if isinstance(callee, tuple) and callee[0] == 'fn':
            rd = callee[1]
            fn = ctx.fn.tu.fn_by_id.get(rd['id'])
            if fn is None:
                fn = self.find_other(ctx.fn.tu.by_id.get(rd['id']), rd)
            if fn is not None:
                vals = self.eval_args(fn, args, ctx)
                return self.call_user(fn, None, vals, n, ctx)
            return self.lib.call(self, rd['name'], n, args, ctx, rd)
        raise Unsupported('call', n)

    def find_other(self, node, rd):
        """definition in another translation unit"""
        q = (node or {}).get('_qual')
        if not q:
            return None
        fs = self.prog.fns.get(q, [])
        ty = (node or rd)['type']['qualType']
        for f in fs:
            if f.node['type']['qualType'] == ty:
                return f
        nm = [f for f in fs if len(f.params) == len([c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl'])]
        return nm[0] if len({f.sig for f in nm}) == 1 else None

    def e_CXXMemberCallExpr(self, n, ctx):
        me = strip(n['inner'][0])
        args = n['inner'][1:]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call via %s' % me['kind'], n)
        name = me['name']
        rid = me.get('referencedMemberDecl')
        fn = ctx.fn.tu.fn_by_id.get(rid)
        if fn is None:
            node = ctx.fn.tu.by_id.get(rid)
            if node is not None:
                fn = self.find_other(node, node)
        base = self.ev(me['inner'][0], ctx)
        if isinstance(base, LV) and base.t.k != 'ext' and me.get('isArrow'):
            base = self.rv(base)
        if fn is not None and fn.body is not None and not (isinstance(base, LV) and base.t.k == 'ext') and \
                not (isinstance(base, Ptr) and base.place is not None and base.place.t.k == 'ext'):
            if me.get('isArrow'):
                place = self.deref(base, n)
            else:
                place = self.place_of(base)
            vals = self.eval_args(fn, args, ctx)
            return self.call_user(fn, place, vals, n, ctx)
        if me.get('isArrow') and isinstance(base, Ptr):
            base = LV(self.deref(base, n))
        if me.get('isArrow') and isinstance(base, V) and base.t.k == 'id':
            base = LV(self.opaque(base, n, ctx, me['inner'][0]))
        return self.lib.method(self, base, name, n, args, ctx)

    def e_CXXOperatorCallExpr(self, n, ctx):
        cal = n['inner'][0]
        c = strip_all(cal)
        while c['kind'] == 'ImplicitCastExpr':
            c = strip_all(c['inner'][0])
        rd = c.get('referencedDecl', {})
        name = rd.get('name', '')
        if not name.startswith('operator'):
            raise Unsupported('operator call', n)
        op = name[len('operator'):]
        args = n['inner'][1:]
        fn = ctx.fn.tu.fn_by_id.get(rd.get('id'))
        if fn is not None and not fn.node.get('isImplicit') and fn.kind == 'CXXMethodDecl':
            base = self.ev(args[0], ctx)
            if isinstance(base, Lam):
                return self.call_lambda(base, [self.ev(a, ctx) for a in args[1:]], n, ctx)
            vals = self.eval_args(fn, args[1:], ctx)
            return self.call_user(fn, self.place_of(base), vals, n, ctx)
        if op == '()':
            f = self.ev(args[0], ctx)
            if isinstance(f, Lam):
                return self.call_lambda(f, [self.ev(a, ctx) for a in args[1:]], n, ctx)
        return self.lib.operator(self, op, n, args, ctx)

    def lambda_fn(self, lam, ctx):
        rec = [c for c in lam.node.get('inner', []) if c['kind'] == 'CXXRecordDecl'][0]
        cand = []
        for c in rec.get('inner', []):
            if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()':
                cand.append(c)
            if c['kind'] == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                cand += [d for d in c['inner'] if d['kind'] == 'CXXMethodDecl'][1:]      # the instantiations
        if len(cand) != 1:
            raise Unsupported('generic lambda with %d instantiations' % len(cand), lam.node)
        from cxx import Fn
        f = Fn(ctx.fn.tu, cand[0], 'lambda', lam.env['cls'])
        f.cls = lam.env['cls']
        return f

    def call_lambda(self, lam, args, n, ctx):
        f = self.lambda_fn(lam, ctx)
        return self.inline(f, lam.env['this'], args, n, ctx, closure=lam.env['env'])

    def e_LambdaExpr(self, n, ctx):
        # captures are read through the environment: by-copy captures are snapshotted
        env = dict(ctx.env)
        rec = [c for c in n.get('inner', []) if c['kind'] == 'CXXRecordDecl'][0]
        fields = [c for c in rec.get('inner', []) if c['kind'] == 'FieldDecl']
        caps = [c for c in n['inner'] if c is not rec]
        for f, c in zip(fields, caps):
            if f['type']['qualType'].rstrip().endswith('&'):
                continue
            for x in walk(c):
                if x['kind'] == 'DeclRefExpr':
                    i = x['referencedDecl']['id']
                    v = env.get(i)
                    if isinstance(v, LV) and not is_meta(v):
                        env[i] = LV(ConstP(self.let(v.place.load(), vtype(v.place.t)), v.place.t))
        return Lam(n, dict(env=env, this=ctx.this, cls=ctx.fn.cls))

    def e_UserDefinedConversion(self, n, ctx):
        return self.ev(n['inner'][0], ctx)

    def contract_key(self, fn):
        for k, c in self.contracts.items():
            if c['qual'] == fn.qual and (c.get('nparams') is None or c['nparams'] == len(fn.params)) and \
                    (c.get('sig') is None or re.search(c['sig'], fn.node['type']['qualType'])):
                return k
        return None

    force_inline = frozenset()

    def by_contract(self, key):
        return key is not None and self.contracts[key].get('kind') != 'inline' and key not in self.force_inline

    def enter_inlined(self, fn, c2, this):
        pass

    def leave_inlined(self):
        pass

    def call_user(self, fn, this, args, n, ctx):
        key = self.contract_key(fn)
        if self.by_contract(key):
            try:
                plan = self.param_plan(fn, self.contracts[key])
            except Unsupported:
                plan = None
            if plan is not None:
                return self.call_contract(key, fn, this, args, n, ctx)
        return self.inline(fn, this, args, n, ctx)

    # parameters of a function under contract: list of (alias, kind, T)
    #   kind: val (input), inout (non-const reference), ptr (nullable pointer, in/out), cptr (pointer to const)
    #         buf (pointer into a buffer, in/out), cbuf
    def param_plan(self, fn, c):
        names = c.get('params', [])
        if len(names) != len(fn.params):
            raise Unsupported('contract of %s expects %d parameters' % (fn.qual, len(names)))
        fake = Ctx(fn, {}, None, None)
        out = []
        for al, p in zip(names, fn.params):
            want = None
            if ':' in al:
                al, want = al.split(':')
            t = self.type_of(p['type'], fake)
            if t.k == 'ref' and not t.const and not t.a[0].const:
                out.append((al, 'inout', t.a[0]))
            elif t.k in ('ref', 'rref'):
                out.append((al, 'val', self.decay(t.a[0])))
            elif t.k == 'ptr':
                e = t.a[0]
                if e.k in ('void', 'opaque') and want not in ('region', 'outregion'):
                    out.append((al, 'val', T('id')))
                elif e.k == 'ptr' and want == 'outregion':
                    out.append((al, 'inout', T('region')))
                elif e.k in ('void', 'char') and e.const:
                    out.append((al, 'val', STR if e.k == 'char' else T('region')))
                elif want == 'buf':
                    out.append((al, 'cbuf' if e.const else 'buf', T('arrbuf', (e,))))
                elif e.k == 'ext' and want == 'val':       # only stored (a change through it is refused)
                    out.append((al, 'val', e))
                elif e.k == 'ext' and want != 'ptr':
                    out.append((al, 'inout', e))
                else:
                    out.append((al, 'cptr' if e.const else 'ptr', e))
            else:
                out.append((al, 'val', self.decay(t)))
        return out

    def decay(self, t):
        if t.k == 'ptr' and t.a[0].k in ('void', 'opaque'):
            return T('id')
        return t

    def ret_type(self, fn, c):
        if fn.kind == 'CXXConstructorDecl':
            return None
        fake = Ctx(fn, {}, None, None)
        s = fn.rettype
        t = None
        if c.get('ret'):
            return c['ret']
        tn = {'qualType': s}
        # the desugared function type gives better names for dependent ones
        t = self.type_of(tn, fake)
        if t.k == 'ptr' and t.a[0].k in ('void', 'opaque'):
            return T('id')
        if t.k == 'ptr' and fn.cls is not None and not fn.static and t.a[0].k == 'rec' and t.a[0].name == self.struct(fn.cls):
            return T('self')      # returns this (checked at every return)
        if t.k in ('ptr', 'ref', 'iter', 'miter') and t.k != 'iter':
            raise Unsupported('contract on function returning %r' % t)
        return t

    def this_fields(self, fn):
        if fn.cls is None or fn.static:
            return None, []
        e = self.cfg.get('ext_this', {}).get(getattr(fn.cls, 'name', str(fn.cls)).split('::')[-1])
        if e:       # a class that the contracts describe as a whole
            t = T('ext', name=e)
            return t, [('obj', 'obj', t)]
        t = T('rec', name=self.struct(fn.cls))
        return t, self.fields_of(t)[1]

    def mod_fields(self, fn, c):
        """fields a contract lets the function change"""
        t, fl = self.this_fields(fn)
        names = [al for nm, al, ft in fl]
        if fn.kind == 'CXXConstructorDecl':
            return names
        m = c.get('modifies')
        if m is None:
            m = [] if fn.is_const else names
        return [a for a in names if a in m]

    def call_contract(self, key, fn, this, args, n, ctx):
        c = self.contracts[key]
        self.used_contracts[key] = fn
        plan = self.param_plan(fn, c)
        rt = self.ret_type(fn, c)
        tt, fl = self.this_fields(fn)
        ctor = fn.kind == 'CXXConstructorDecl'
        terms = []
        outs = []    # closures storing the outputs
        if tt is not None and not ctor:
            for nm, al, ft in fl:
                p = this.fields[al] if isinstance(this, RecPlace) else FieldP(this, al, ft)
                if al in c.get('isolated', ()) and isinstance(p, IsolatedP):
                    terms.append('arbitrary()')
                else:
                    terms.append(p.load())
        for (al, kind, t), a in zip(plan, args):
            if kind == 'val':
                if isinstance(a, LV) and a.t.k == 'ext':
                    v = V(a.t, a.place.load())
                    v = self.coerce(v, t, n) if a.t != t else v
                else:
                    v = self.coerce(a if isinstance(a, Ptr) else self.val(a), t, n)
                terms.append(raw(v))
            elif kind == 'inout':
                if isinstance(a, Ptr):
                    a = LV(self.deref(a, n))
                if not isinstance(a, LV):
                    raise Unsupported('reference argument %r' % a, n)
                terms.append(a.place.load())
                outs.append(a.place)
            elif kind in ('ptr', 'cptr'):
                if isinstance(a, LV):
                    a = self.rv(a)
                if isinstance(a, BufPtr):
                    a = Ptr(IndexP(a.base, a.off, elem_type(a.base.t)), '(0 <= %s < %s.len())' % (a.off, a.base.load()))
                if isinstance(a, V) and a.t.k == 'tree':
                    a = Ptr(self.deref(a, n))
                if not isinstance(a, Ptr):
                    raise Unsupported('pointer argument %r' % a, n)
                terms.append(a.nn)
                if a.place is None:
                    terms.append('arbitrary()')
                    if kind == 'ptr':
                        outs.append(None)
                else:
                    terms.append(a.place.load())
                    if kind == 'ptr':
                        outs.append((a.place, a.nn))
            elif kind in ('buf', 'cbuf'):
                if not isinstance(a, BufPtr):
                    raise Unsupported('buffer argument %r' % a, n)
                terms.append(a.base.load())
                terms.append(a.off)
                if kind == 'buf':
                    outs.append(a.base)
        post = []
        if tt is not None:
            for al in self.mod_fields(fn, c):
                ft = [f[2] for f in fl if f[1] == al][0]
                if ctor:
                    post.append(('new', al, ft))
                else:
                    post.append(('place', this.fields[al] if isinstance(this, RecPlace) else FieldP(this, al, ft), None))
        for o in outs:
            if o is None:
                post.append(('skip', None, None))
            elif isinstance(o, tuple):
                post.append(('place', o[0], o[1]))
            else:
                post.append(('place', o, None))
        r = self.fresh('c')
        targs = ''
        terms = [self.let(x, 'Seq<u8>') if x.startswith('seq![') and 'u8' in x else x for x in terms]
        self.recursion(key, fn, terms, n)
        call = 'let %s = %s(%s);' % (r, vfn(key), ', '.join('Ghost(%s)' % x for x in terms))
        self.emit(call, dict(kind='precondition of ' + key, loc=self.loc(n), text='requires of ' + key, fn=self.curfn, call=key))
        nout = (1 if rt is not None and rt.k not in ('void', 'self') else 0) + len(post)
        k = 0
        res = V(VOID, '()')

        def comp(i):
            return '%s@' % r if nout == 1 else '%s@.%d' % (r, i)
        if rt is not None and rt.k not in ('void', 'self'):
            s = self.let(comp(0), vtype(rt))
            res = V(rt, lift(s, rt), True)
            if rt.k == 'tree':
                res = ('rel', s, this)
            k = 1
        newf = []
        # all components first: stores below may change what later places load
        comps = [self.let(comp(k + i), vtype(x[2]) if x[0] == 'new' else (vtype(x[1].t) if x[0] == 'place' else '_')) if x[0] != 'skip' else None for i, x in enumerate(post)]
        for cv, (kind, p, nn) in zip(comps, post):
            if kind == 'new':
                newf.append('%s: %s' % (p, cv))
            elif kind == 'place':
                if nn is None or nn == 'true':
                    p.store(self, cv)
                else:
                    p.store(self, '(if %s { %s } else { %s })' % (nn, cv, p.load()))
        if ctor:
            s = self.let('%s { %s }' % (tt.name, ', '.join(newf)), tt.name)
            return V(tt, s)
        if rt is not None and rt.k == 'self':
            return Ptr(this)
        if isinstance(res, tuple):      # a path relative to the node the function was called on
            up = self.tree_path(this)
            if up is None:
                raise Unsupported('pointer to a node of another tree', n)
            return V(TREE, self.let('(if %s =~= null_path() { null_path() } else { %s + %s })' % (s, up, s), 'Seq<int>') if up != 'Seq::<int>::empty()' else s)
        return res

    def recursion(self, key, fn, terms, n):
        """termination of recursive functions: the measure of the callee is smaller than that of the function under contract"""
        mine, other = self.contract.get('measure'), self.contracts[key].get('measure')
        if not mine or not other or mine[0] != other[0]:
            return
        ins, pre = self.signature(key, fn)[4], self.signature(key, fn)[7]
        mp = {nm: '(%s)' % x for (nm, _), x in zip(ins, terms)}
        m2 = re.sub(r'\b(?:self_|p_)\w+', lambda m: mp.get(m.group(0), m.group(0)), self.subst(other[1], pre))
        m1 = self.subst(mine[1], self.pre)
        tag = dict(kind='termination', text='recursion makes progress', loc=self.loc(n), fn=self.curfn, call=key)
        if len(mine) > 2:
            self.emit('proof { %s }' % self.subst(mine[2], self.pre))
            c = 'decreases_to!(%s => %s)' % (m1, m2)
        else:
            c = '0 <= (%s) && (%s) < (%s)' % (m1, m2, m1)
        # under an unknown choice: nothing that follows may rely on it
        self.emit('if tst(Ghost(choice(0, 0))) { assert(%s); }' % c, tag)

    # ---- inlining
    def inline(self, fn, this, args, n, ctx, closure=None):
        if fn.body is None and not fn.inits:
            raise Unsupported('no body for %s' % fn.qual, n)
        if len(self.stack) > self.MAXDEPTH or fn.qual + str(len(fn.params)) in self.stack:
            raise Unsupported('recursive function %s has no contract' % fn.qual, n)
        self.inlined.add(fn.sig)
        has_loop = fn.body is not None and self.has_loops(fn.body)
        if has_loop and self.hoist_k is None:
            raise Unsupported('call of %s (contains a loop) in this position' % fn.qual, n)
        kont, self.hoist_k = self.hoist_k, None
        env = dict(closure) if closure else {}
        c2 = Ctx(fn, env, this, None)
        save_this = getattr(self, 'ctx_this', None)
        self.stack.append(fn.qual + str(len(fn.params)))
        self.ctx_this = this if this is not None else save_this
        for p, a in zip(fn.params, args):
            self.bind_param(p, a, c2, fn)
        self.enter_inlined(fn, c2, this)
        try:
            if fn.kind == 'CXXConstructorDecl':
                self.ctor_inits(fn, this, c2)
            if fn.body is None:
                return V(VOID, '()')
            rets = []
            rstmts = [x for x in walk_nolam(fn.body) if x['kind'] == 'ReturnStmt' and x.get('inner')]
            if has_loop:
                def ret(v):
                    # leave the inlined context for the continuation
                    st, th = self.stack, self.ctx_this
                    self.stack, self.ctx_this = self.stack[:-1], save_this
                    try:
                        kont(v if v is not None else V(VOID, '()'))
                    finally:
                        self.stack, self.ctx_this = st, th
                c2.ret = ret
                self.exec_stmt(fn.body, c2, lambda: ret(None))
                return None
            tailonly = len(rstmts) == 1 and fn.body['inner'] and fn.body['inner'][-1] is rstmts[0]
            if not rstmts or tailonly:
                c2.ret = lambda v: rets.append(v)
                self.exec_stmt(fn.body, c2, lambda: None)
                return rets[0] if rets and rets[0] is not None else V(VOID, '()')
            # several returns: find the shape of the result in a dry run, then assign
            fake = Ctx(fn, {}, None, None)
            shapes = []

            def dryret(v):
                shapes.append(v)
            snap = (self.n, self.out, self.ind, dict(c2.env), dict(self.memo), set(self.inlined), dict(self.used_contracts))
            self.out = []
            c2.ret = dryret
            self.dry += 1
            self.exec_stmt(fn.body, c2, lambda: None)
            self.dry -= 1
            self.n, self.out, self.ind, c2.env, self.memo = snap[0] + 500, snap[1], snap[2], snap[3], snap[4]
            metas = [s for s in shapes if is_meta(s) and not (isinstance(s, Ptr) and s.place is None)]
            lvs = [s for s in shapes if isinstance(s, LV)]
            anymeta = any(is_meta(s) for s in shapes)
            rt = None
            if not anymeta:
                rt = self.ret_value_type(fn, shapes)
            if anymeta and not metas:
                ref = shapes[0]
                c2.ret = lambda v: None
                self.exec_stmt(fn.body, c2, lambda: None)
                return ref
            if anymeta:
                ref = metas[0]
                for m in metas:
                    if meta_shape(m) != meta_shape(ref):
                        raise Unsupported('function returning pointers into different objects: %s' % fn.qual, n)
                vs = [self.decl('rp', ty, 'false' if ty == 'bool' else None) for s, ty in meta_leaves(ref)]

                def ret(v):
                    if isinstance(v, Ptr) and v.place is None:
                        self.assign(vs[0], 'false')
                    else:
                        for x, (s, ty) in zip(vs, meta_leaves(v)):
                            self.assign(x, s)
                c2.ret = ret
                self.exec_stmt(fn.body, c2, lambda: None)
                return meta_with(ref, iter(vs))
            if rt is None:
                raise Unsupported('result of %s' % fn.qual, n)
            rv = self.decl('ret', vtype(rt))

            def ret2(v):
                self.assign(rv, raw(self.coerce(self.val(v), rt, n)))
            c2.ret = ret2
            self.exec_stmt(fn.body, c2, lambda: None)
            return V(rt, lift(rv, rt))
        finally:
            self.leave_inlined()
            self.stack.pop()
            self.ctx_this = save_this

    def ret_value_type(self, fn, shapes):
        vs = [s for s in shapes if isinstance(s, (V, LV))]
        try:
            t = self.type_of({'qualType': fn.rettype}, Ctx(fn, {}, None, None))
            t = self.decay(unref(t))
            if t.k == 'ptr' and vs:
                return vs[0].t
            return t
        except Unsupported:
            if vs:
                return vs[0].t
        return None

    def bind_param(self, p, a, c2, fn):
        t = self.type_of(p['type'], Ctx(fn, {}, None, None))
        name = p.get('name') or 'arg'
        if isinstance(a, Lam) or isinstance(a, Stream):
            c2.env[p['id']] = a
            return
        if t.k in ('ref', 'rref'):
            if isinstance(a, LV):
                c2.env[p['id']] = LV(a.place) if t.k == 'ref' else LV(a.place, False)
            elif isinstance(a, V):
                s = self.let(raw(a), vtype(a.t)) if not a.const else raw(a)
                if t.k == 'rref':
                    c2.env[p['id']] = LV(Root(self.decl(name, vtype(a.t), s), a.t))
                else:
                    c2.env[p['id']] = LV(ConstP(s, a.t))
            elif isinstance(a, InitList):
                v = self.coerce(a, t.a[0])
                c2.env[p['id']] = LV(Root(self.decl(name, vtype(v.t), raw(v)), v.t))
            elif is_meta(a):
                c2.env[p['id']] = a
            else:
                raise Unsupported('argument %r' % a)
            return
        if is_meta(a) or (isinstance(a, LV) and a.t.k == 'ext'):
            if isinstance(a, LV):
                c2.env[p['id']] = a
            else:
                c2.env[p['id']] = self.bind_meta(name, a, mutable=self.is_assigned(p['id'], fn.body))
            return
        v = self.val(a)
        t2 = self.decay(t)
        if t2.k == 'ptr' and v.t.k in ('str', 'region', 'id', 'tree'):
            t2 = v.t
        v = self.coerce(v, t2)
        c2.env[p['id']] = LV(Root(self.decl(name, vtype(t2), raw(v)), t2))

    def is_assigned(self, did, body, part=False):
        """the variable (part: or a part of it) is the target of an assignment"""
        if body is None:
            return False
        for x in walk(body):
            k = x['kind']
            tgt = None
            if k in ('BinaryOperator', 'CompoundAssignOperator') and x.get('opcode', '').endswith('=') and x['opcode'] not in ('==', '!=', '<=', '>='):
                tgt = x['inner'][0]
            elif k == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
                tgt = x['inner'][0]
            elif k == 'CXXOperatorCallExpr' and len(x['inner']) > 1:
                tgt = x['inner'][1]
            if tgt is not None:
                s = strip_all(tgt)
                if s.get('kind') == 'DeclRefExpr' and s['referencedDecl']['id'] == did:
                    return True
                if part and any(y.get('kind') == 'DeclRefExpr' and y['referencedDecl']['id'] == did for y in walk(s)):
                    return True
        return False

    def ctor_inits(self, fn, this, ctx):
        t, fl = this.t, self.fields_of(this.t)[1]
        done = set()
        cls = fn.cls
        for i in fn.inits:
            ai = i.get('anyInit')
            if ai is None or ai.get('kind') != 'FieldDecl':
                continue     # base initializer
            alias, ft = self.field(t, ai['name'])
            done.add(ai['name'])
            place = this.fields[alias]
            init = i['inner'][0]
            self.init_field(place, ft, init, ai, cls, ctx)
        for nm, al, ft in fl:
            if nm not in done and nm != 'addr_':
                this.fields[al].store(self, self.default_value(ft, uninit=True))

    def init_field(self, place, ft, init, ai, cls, ctx):
        s = strip(init)
        if s['kind'] == 'CXXDefaultInitExpr':
            fd = [f for f in cls.fields if f[0] == ai['name']][0][3]
            if not fd.get('inner'):
                raise Unsupported('default member initializer')
            init = fd['inner'][-1]
        x = self.ev(init, ctx)
        if isinstance(x, LV) and x.t.k == 'ext':
            place.store(self, x.place.load())
            return
        v = self.coerce(x, ft, init)
        place.store(self, raw(v))

    # ------------------------------------------------------------ statements
    def escapes(self, n):
        for x in walk_nolam(n):
            if x['kind'] in ('ReturnStmt', 'BreakStmt', 'ContinueStmt') or x['kind'] in LOOPS or self.algo(x):
                return True
            if x['kind'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr') and self.loopcall(x):
                return True
        return False

    def callee_fn(self, x, ctx=None):
        tu = (ctx or self.top).fn.tu
        if x['kind'] == 'CXXMemberCallExpr':
            me = strip(x['inner'][0])
            rid = me.get('referencedMemberDecl')
            f = tu.fn_by_id.get(rid)
            if f is None and tu.by_id.get(rid) is not None:
                f = self.find_other(tu.by_id[rid], tu.by_id[rid])
            return f
        if x['kind'] == 'CallExpr':
            c = strip_all(x['inner'][0])
            while c['kind'] == 'ImplicitCastExpr':
                c = strip_all(c['inner'][0])
            rd = c.get('referencedDecl')
            if rd is None:
                return None
            f = tu.fn_by_id.get(rd['id'])
            if f is None and tu.by_id.get(rd['id']) is not None:
                f = self.find_other(tu.by_id[rd['id']], rd)
            return f
        return None

    def loopcall(self, x, ctx=None, depth=0):
        """is x a call that will be inlined and whose (transitively inlined) body contains a loop?"""
        if depth > self.MAXDEPTH:
            return False
        for tu in self.prog.tus.values():
            c = Ctx(type('F', (), {'tu': tu, 'cls': None})(), {}, None, None)
            f = self.callee_fn(x, c)
            if f is None or f.body is None:
                continue
            k = self.contract_key(f)
            if self.by_contract(k):
                return False
            for y in walk_nolam(f.body):
                if y['kind'] in LOOPS and not self.unrollable(y) or self.algo(y):
                    return True
                if y['kind'] in ('CallExpr', 'CXXMemberCallExpr') and y is not x and self.loopcall(y, c, depth + 1):
                    return True
            return False
        return False

    def static_int(self, e):
        """value of an integer constant expression, or None"""
        while e.get('kind') in SKIP or e.get('kind') in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and e.get('castKind') in ('IntegralCast', 'NoOp', 'LValueToRValue'):
            e = e['inner'][0]
        if e.get('kind') == 'IntegerLiteral':
            return int(e['value'])
        if e.get('kind') == 'DeclRefExpr' and e['referencedDecl'].get('kind') == 'VarDecl' and e['referencedDecl']['type']['qualType'].startswith('const '):
            rd = e['referencedDecl']
            for tu in self.prog.tus.values():
                d = tu.by_id.get(rd['id'])
                if d is not None and d.get('name') == rd.get('name') and d.get('inner') and 'kind' in d['inner'][-1]:
                    return self.static_int(d['inner'][-1])
        if e.get('kind') == 'BinaryOperator' and e['opcode'] in ('+', '-', '*'):
            a, b = [self.static_int(x) for x in e['inner']]
            return None if a is None or b is None else a + b if e['opcode'] == '+' else a - b if e['opcode'] == '-' else a * b
        return None

    def const_for(self, n):
        """for (int i = A; i < B; ++i) with constants A, B, at most 16 rounds and i not written in the body: (variable, values)"""
        if n.get('kind') != 'ForStmt' or len(n.get('inner', [])) != 5:
            return None
        init, var, cond, inc, body = n['inner']
        if var.get('kind') or init.get('kind') != 'DeclStmt' or len(init['inner']) != 1 or init['inner'][0]['kind'] != 'VarDecl' or cond.get('kind') != 'BinaryOperator':
            return None
        it = init['inner'][0]
        if not it.get('inner') or not re.match(r'^(unsigned|int|long|short|(std::)?(size_t|ptrdiff_t|u?int\d+_t))\b[\w ]*$', it['type'].get('desugaredQualType', it['type']['qualType'])):
            return None

        def ref(e):
            e = strip_all(e)
            return e.get('kind') == 'DeclRefExpr' and e['referencedDecl']['id'] == it['id']
        a, op, b = self.static_int(it['inner'][-1]), cond['opcode'], self.static_int(cond['inner'][1])
        if not ref(cond['inner'][0]) or a is None or b is None or op not in ('<', '<=', '>', '>=', '!='):
            return None
        if inc.get('kind') == 'UnaryOperator' and inc['opcode'] in ('++', '--') and ref(inc['inner'][0]):
            step = 1 if inc['opcode'] == '++' else -1
        elif inc.get('kind') == 'CompoundAssignOperator' and inc['opcode'] in ('+=', '-=') and ref(inc['inner'][0]) and self.static_int(inc['inner'][1]) is not None:
            step = self.static_int(inc['inner'][1]) * (1 if inc['opcode'] == '+=' else -1)
        else:
            return None
        if a < 0 or b < 0:
            return None
        # the variable is only read
        uses = [x for x in walk(body) if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == it['id']]
        reads = [x for y in walk(body) if y.get('kind') == 'ImplicitCastExpr' and y.get('castKind') == 'LValueToRValue' for x in y['inner'] if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == it['id']]
        if len(uses) != len(reads) or any(x.get('kind') == 'LambdaExpr' for x in walk(body)):
            return None
        vals = []
        test = {'<': lambda x: x < b, '<=': lambda x: x <= b, '>': lambda x: x > b, '>=': lambda x: x >= b, '!=': lambda x: x != b}[op]
        while test(a):
            vals.append(a)
            a += step
            if len(vals) > 16 or a < 0:
                return None
        return it, vals

    def unrollable(self, n):
        if n['kind'] == 'ForStmt':
            return self.const_for(n) is not None
        if n['kind'] != 'CXXForRangeStmt':
            return False
        for x in n['inner']:
            if x.get('kind') == 'DeclStmt':
                for d in x['inner']:
                    if d.get('name') == '__range1' or (d.get('name') or '').startswith('__range'):
                        s = strip_all(d['inner'][0]) if d.get('inner') else {}
                        if s.get('kind') == 'DeclRefExpr' and self.small_const_array(s['referencedDecl']):
                            return True
                        return any(y['kind'] == 'CXXStdInitializerListExpr' for y in walk(d))
        return False

    @staticmethod
    def small_const_array(vd):
        """a constant array of at most 8 elements (its loops are unrolled)"""
        m = re.match(r'^(.*)\[(\d+)\]$', vd.get('type', {}).get('qualType', ''))
        return vd.get('kind') == 'VarDecl' and m is not None and int(m.group(2)) <= 8 and (m.group(1).rstrip().endswith('const') or m.group(1).startswith('const ') and '*' not in m.group(1))

    def hoist(self, n, ctx, k):
        """run inlined calls that contain loops before the statement, then k() (with the results memoized)"""
        for x in self.eval_order(n):
            if id(x) in self.memo:
                continue
            if self.lazy_loop(x):
                self.hoist_lazy(x, ctx, lambda v, x=x: self.with_memo(x, v, lambda: self.hoist(n, ctx, k)))
                return
            if self.algo(x):
                self.run_algo(x, ctx, lambda v, x=x: self.with_memo(x, v, lambda: self.hoist(n, ctx, k)))
                return
            if x['kind'] == 'CXXOperatorCallExpr' and len(x['inner']) > 1:
                lam = self.lambda_of(x['inner'][1], ctx)
                if lam is not None and self.has_loops(self.lambda_fn(lam, ctx).body):
                    vals = [self.ev(a, ctx) for a in x['inner'][2:]]
                    self.inline_cps(self.lambda_fn(lam, ctx), lam.env['this'], vals, x, ctx, lambda v, x=x: self.with_memo(x, v, lambda: self.hoist(n, ctx, k)), closure=lam.env['env'])
                    return
            if x['kind'] in ('CallExpr', 'CXXMemberCallExpr') and self.loopcall(x, ctx):
                f = self.callee_fn(x, ctx)
                def kont(v, x=x):
                    saved = self.memo
                    self.memo = dict(self.memo)
                    self.memo[id(x)] = v
                    self.hoist(n, ctx, k)
                    self.memo = saved
                self.hoist_k = kont
                self.force_loop = x
                r = self.ev_hoisted(x, ctx, kont)
                return
        k()

    def with_memo(self, x, v, f):
        saved = self.memo
        self.memo = dict(self.memo)
        self.memo[id(x)] = v
        f()
        self.memo = saved

    def has_loops(self, body):
        return any(x['kind'] in LOOPS and not self.unrollable(x) or self.algo(x) for x in walk_nolam(body))

    def algo(self, x):
        """the algorithm x calls with a function, or None"""
        if x['kind'] != 'CallExpr':
            return None
        c = strip_all(x['inner'][0])
        while c['kind'] == 'ImplicitCastExpr':
            c = strip_all(c['inner'][0])
        rd = c.get('referencedDecl') or {}
        nm = rd.get('name')
        if nm not in ALGOS or len(x['inner']) != (3 if nm.startswith('c_') else 4) or any(rd.get('id') in tu.fn_by_id for tu in self.prog.tus.values()):
            return None
        return nm

    def lambda_of(self, n, ctx):
        while n.get('kind') in SKIP or n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') == 'NoOp' or n.get('kind') == 'CXXConstructExpr' and len(n.get('inner', [])) == 1:
            n = n['inner'][0]
        if n['kind'] == 'LambdaExpr':
            return self.ev(n, ctx)
        if n['kind'] == 'DeclRefExpr' and isinstance(ctx.env.get(n['referencedDecl']['id']), Lam):
            return ctx.env[n['referencedDecl']['id']]
        return None

    def run_algo(self, x, ctx, kont):
        name = self.algo(x)
        args = x['inner'][1:]
        if name.startswith('c_'):
            name = name[2:]
            r = self.ev(args[0], ctx)
            if not isinstance(r, LV) or r.t.k not in ('vec', 'str'):
                raise Unsupported('%s over %r' % (name, r), x)
            base, lo, hi = r.place, '0int', self.let('%s.len() as int' % r.place.load(), 'int')
        else:
            b, e = [self.rv(v) for v in self.ev_list(args[:2], ctx)]
            if not isinstance(b, Iter) or not isinstance(e, Iter):
                raise Unsupported('%s over %r' % (name, b), x)
            self.same_base(b.base, e.base, x)
            base, lo, hi = b.base, self.let(b.idx, 'int'), self.let(e.idx, 'int')
        lam = self.lambda_of(args[-1], ctx)
        if lam is None:
            raise Unsupported('%s without a lambda' % name, x)
        fn = self.lambda_fn(lam, ctx)
        if fn.body is not None and self.has_loops(fn.body):
            raise Unsupported('loop in the function given to %s' % name, x)
        et = elem_type(base.t)
        lv = LV(base)
        place = meta_with(lv, iter([s if re.match(r'^(t_\d+|\d+)$', s) else self.let(s, ty) for s, ty in meta_leaves(lv)])).place
        idx = self.decl('ri', 'int', lo)
        self.ob('%s <= %s <= %s.len()' % (lo, hi, place.load()), 'range of iterators', x)
        save = self.scope
        self.scope_add('$range', ('range', idx, place, 'it'))
        auto = ['%s <= %s <= %s' % (lo, idx, hi)]
        if not (isinstance(place, Root) and not place.mutable):
            auto.append('%s.len() == %s' % (place.load(), self.let('%s.len()' % place.load(), 'nat')))
        found = cnt = None
        if name in ('any_of', 'all_of', 'none_of'):
            found = self.decl('found', 'bool', 'false')
            auto.append('!%s' % found)
        if name == 'count_if':
            cnt = self.decl('cnt', 'int', '0int')
            auto.append('0 <= %s <= %s' % (cnt, idx))
            self.scope_add('cnt', LV(Root(cnt, I64)))

        def body(next_iter):
            self.scope_add('$fact', ('fact', '0 <= %s < %s.len()' % (idx, place.load())))
            r = self.call_lambda(lam, [LV(IndexP(place, self.let(idx, 'int'), et))], x, ctx)
            if name == 'for_each':
                next_iter()
                return
            c = self.to_bool(self.rv(r)).s
            if cnt:
                self.assign(cnt, '(%s + (if %s { 1int } else { 0int }))' % (cnt, c))
                next_iter()
                return
            stop = c if name in ('find_if', 'any_of', 'none_of') else '!%s' % c
            self.emit('if tst(Ghost((%s))) {' % stop)

            def leave():
                if found:
                    self.assign(found, 'true')
                ctx.brk()
            self.with_env(ctx, leave)
            self.emit('} else {')
            self.with_env(ctx, next_iter)
            self.emit('}')

        def done():
            sc = self.scope
            self.scope = save
            if found:
                v = V(BOOL, found if name == 'any_of' else '(!%s)' % found)
            elif cnt:
                v = V(I64, lift(cnt, I64))
            elif name == 'for_each':
                v = V(VOID, '()')
            else:
                v = Iter(place, idx)
            kont(v)
            self.scope = sc
        self.loop(x, ctx, None, lambda: '(%s < %s)' % (idx, hi), lambda: self.assign(idx, '(%s + 1)' % idx), body, done, auto=auto)

    def lazy_loop(self, x):
        """a short-circuit or conditional operator with a loop in an operand that is not always evaluated"""
        if x['kind'] == 'BinaryOperator' and x.get('opcode') in ('&&', '||') or x['kind'] == 'ConditionalOperator':
            return any(id(y) not in self.memo and (y['kind'] in ('CallExpr', 'CXXMemberCallExpr') and self.loopcall(y) or self.algo(y)) for c in x['inner'][1:] for y in walk_nolam(c))
        return False

    def hoist_lazy(self, x, ctx, kont):
        c = self.to_bool(self.evr(x['inner'][0], ctx)).s

        def side(n):
            def fin():
                v = self.ev(n, ctx)
                if x['kind'] == 'BinaryOperator':
                    v = self.to_bool(self.rv(v))
                elif isinstance(v, LV) and not is_meta(v):
                    v = self.rv(v)
                kont(v)
            self.hoist(n, ctx, fin)
        self.emit('if tst(Ghost((%s))) {' % c)
        if x.get('opcode') == '||':
            self.with_env(ctx, lambda: kont(V(BOOL, 'true')))
        else:
            self.with_env(ctx, lambda: side(x['inner'][1]))
        self.emit('} else {')
        if x.get('opcode') == '&&':
            self.with_env(ctx, lambda: kont(V(BOOL, 'false')))
        else:
            self.with_env(ctx, lambda: side(x['inner'][-1]))
        self.emit('}')

    def ev_hoisted(self, x, ctx, kont):
        f = self.callee_fn(x, ctx)
        if x['kind'] == 'CallExpr':
            self.hoist_k = None
            vals = self.eval_args(f, x['inner'][1:], ctx)
            this = None
        else:
            self.hoist_k = None
            me = strip(x['inner'][0])
            base = self.ev(me['inner'][0], ctx)
            if isinstance(base, LV) and base.t.k != 'ext' and me.get('isArrow'):
                base = self.rv(base)
            this = self.deref(base, x) if me.get('isArrow') else self.place_of(base)
            vals = self.eval_args(f, x['inner'][1:], ctx)
        self.inline_cps(f, this, vals, x, ctx, kont)

    def inline_cps(self, fn, this, args, n, ctx, kont, closure=None):
        if len(self.stack) > self.MAXDEPTH or fn.qual + str(len(fn.params)) in self.stack:
            raise Unsupported('recursive function %s has no contract' % fn.qual, n)
        self.inlined.add(fn.sig)
        c2 = Ctx(fn, dict(closure) if closure else {}, this, None)
        save_this, save_stack = self.ctx_this, self.stack
        self.stack = self.stack + [fn.qual + str(len(fn.params))]
        self.ctx_this = this if this is not None else save_this
        for p, a in zip(fn.params, args):
            self.bind_param(p, a, c2, fn)
        save_frames, save_scope = self.frames, self.scope
        for p in fn.params:
            self.scope_add(p.get('name'), c2.env.get(p['id']))
        self.enter_inlined(fn, c2, this)

        def ret(v):
            if isinstance(v, LV) and not is_meta(v):
                rt = fn.rettype.strip()
                if not rt.endswith('&'):
                    v = self.val(v)
            if isinstance(v, V) and not v.const:
                v = V(v.t, lift(self.let(raw(v), vtype(v.t)), v.t), True)
            s, th, fr, sc = self.stack, self.ctx_this, self.frames, self.scope
            self.stack, self.ctx_this, self.frames, self.scope = save_stack, save_this, save_frames, save_scope
            try:
                kont(v if v is not None else V(VOID, '()'))
            finally:
                self.stack, self.ctx_this, self.frames, self.scope = s, th, fr, sc
        c2.ret = ret
        self.exec_stmt(fn.body, c2, lambda: ret(None))
        self.stack, self.ctx_this, self.frames, self.scope = save_stack, save_this, save_frames, save_scope

    def eval_order(self, n):
        """expression nodes, innermost/leftmost first, not descending into conditionally evaluated operands"""
        if not isinstance(n, dict) or 'kind' not in n:
            return
        k = n['kind']
        if k == 'LambdaExpr':
            return
        if k == 'BinaryOperator' and n.get('opcode') in ('&&', '||') or k == 'ConditionalOperator':
            yield from self.eval_order(n['inner'][0])
            yield n
            return
        for c in n.get('inner', []):
            yield from self.eval_order(c)
        yield n

    def exec_seq(self, stmts, i, ctx, k):
        if i >= len(stmts):
            k()
            return
        self.exec_stmt(stmts[i], ctx, lambda: self.exec_seq(stmts, i + 1, ctx, k))

    def exec_stmt(self, n, ctx, k):
        kind = n.get('kind')
        m = getattr(self, 's_' + kind, None) if kind else None
        if m is not None:
            m(n, ctx, k)
            return
        if kind is None:
            k()
            return

        # expression statement
        def go():
            self.ev(n, ctx)
            k()
        self.hoist(n, ctx, go)

    def s_NullStmt(self, n, ctx, k):
        k()

    def s_CompoundStmt(self, n, ctx, k):
        sl, cl = len(self.scope), len(ctx.cleanups)

        def k2():
            inner, cleanups = self.scope, ctx.cleanups
            for f in reversed(cleanups[cl:]):
                f()
            self.scope, ctx.cleanups = self.scope[:sl], cleanups[:cl]
            k()
            self.scope, ctx.cleanups = inner, cleanups
        self.exec_seq(n.get('inner', []), 0, ctx, k2)

    def s_AttributedStmt(self, n, ctx, k):
        self.exec_stmt([c for c in n['inner'] if 'Attr' not in c['kind']][0], ctx, k)

    def s_DeclStmt(self, n, ctx, k):
        ds = n['inner']

        def run(i):
            if i >= len(ds):
                k()
                return
            d = ds[i]
            if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl'):
                if 'name' in d and 'type' in d:
                    ctx.fn.tu.typedefs.setdefault(d['name'], d['type'].get('desugaredQualType', d['type']['qualType']))
                run(i + 1)
                return
            if d['kind'] not in ('VarDecl', 'DecompositionDecl'):
                raise Unsupported('declaration of %s' % d['kind'], d)

            def go():
                self.declare(d, ctx)
                self.decompose(d, ctx)
                run(i + 1)
            self.hoist(d, ctx, go)
        run(0)

    def scope_add(self, name, b):
        self.scope = self.scope + [(name, b)]

    def decompose(self, d, ctx):
        """the names of a structured binding"""
        for i, b in enumerate([c for c in d.get('inner', []) if c.get('kind') == 'BindingDecl']):
            m = [c for c in b.get('inner', []) if c.get('kind') == 'MemberExpr']
            x = self.ev(m[0], ctx) if m else self.member(ctx.env[d['id']], False, ('first', 'second')[i], d)
            ctx.env[b['id']] = x
            self.scope_add(b.get('name'), x)

    def declare(self, d, ctx):
        name = d.get('name', 'anon')
        if d.get('storageClass') == 'static' and 'const' not in d['type']['qualType']:
            # static local: treated as its initial value if never written; else unsupported
            if self.is_assigned(d['id'], ctx.fn.body, True):
                raise Unsupported('mutable static local', d)
        try:
            t = self.type_of(d['type'], ctx)
        except Unsupported:
            if not d.get('inner'):
                raise
            t = None
        init = [c for c in d.get('inner', []) if 'Attr' not in c.get('kind', '') and c.get('kind') != 'BindingDecl']
        if t is not None and t.k in ('ref', 'rref'):
            x = self.ev(init[0], ctx)
            if isinstance(x, LV):
                # freeze dynamic parts of the place
                b = meta_with(x, iter([s if re.match(r'^(t_\d+|\d+)$', s) else self.let(s, ty) for s, ty in meta_leaves(x)]))
                b.moved = False
            elif isinstance(x, V):
                b = LV(Root(self.decl(name, vtype(x.t), raw(x)), x.t))
            else:
                b = x
            ctx.env[d['id']] = b
            self.scope_add(name, b)
            return
        if not init:
            if t.k == 'ptr':
                raise Unsupported('uninitialised pointer', d)
            if t.k == 'rec':
                p = self.new_rec(t, name)
                p.store(self, self.default_value(t, uninit=True))
                b = LV(p)
            else:
                b = LV(Root(self.decl(name, vtype(t), self.default_value(t, uninit=True)), t))
            ctx.env[d['id']] = b
            self.scope_add(name, b)
            return
        if t is not None and t.k == 'ext' and t.name in self.cfg.get('raii', ()):
            e = strip(init[0])
            a = [x for x in e.get('inner', [])]
            f = self.lib.ext.pick(t.name, d).acquire(self.lib, self, t, d, a, ctx)
            ctx.cleanups = ctx.cleanups + [f]
            return
        if t is not None and t.k == 'rec':
            sn = strip(init[0])
            x = self.ev(init[0], ctx)
            v = self.coerce(x, t, d)
            p = self.new_rec_from(t, name, v)
            b = LV(p)
            ctx.env[d['id']] = b
            self.scope_add(name, b)
            return
        if t is not None and t.k == 'ptr' and t.a[0].k == 'void' and t.a[0].const:
            # const void*: a region of readable bytes
            x = self.ev(init[0], ctx)
            if isinstance(x, Ptr) and x.place is None:
                b = LV(Root(self.decl(name, 'Seq<u8>', 'Seq::empty()'), T('region')))
                ctx.env[d['id']] = b
                self.scope_add(name, b)
                return
        x = self.ev(init[0], ctx)
        if t is not None and t.k == 'ptr' and t.a[0].k == 'void' and not t.a[0].const and isinstance(x, V) and x.t.k == 'id' and x.s == '0':
            b = LV(Root(self.decl(name, 'int', '-1int'), T('outwin')))
            ctx.env[d['id']] = b
            self.scope_add(name, b)
            return
        if isinstance(x, LV) and x.t.k == 'ext' and (t is None or t.k == 'ptr' or isinstance(x.place, RecPlace)):
            ctx.env[d['id']] = x
            return
        x = self.val(x)
        if isinstance(x, (Lam, Stream)):
            ctx.env[d['id']] = x
            return
        if (self.is_node_ptr(t) or t is None) and (isinstance(x, Ptr) and (t is not None or x.place is not None) or isinstance(x, V) and x.t.k == 'tree'):
            y = self.tree_val(x)
            if y is not None:
                b = LV(Root(self.decl(name, 'Seq<int>', y.s), TREE))
                ctx.env[d['id']] = b
                self.scope_add(name, b)
                return
        if is_meta(x) and (t is None or t.k in ('ptr', 'iter', 'miter', 'pair')):
            if isinstance(x, Ptr) and x.place is None:
                if t is not None and t.k == 'ptr' and t.a[0].k == 'ext' and t.a[0].name in self.cfg.get('ptr_by_value', ()):
                    # the object it will point to, by value: coerce copies it on use, and no method may be called through it
                    t = T('opt', (T('ext', name=t.a[0].name),), name='nullable')
                    b = LV(Root(self.decl(name, vtype(t), 'Option::None'), t))
                    ctx.env[d['id']] = b
                    self.scope_add(name, b)
                    return
                raise Unsupported('pointer variable initialised to null', d)
            b = self.bind_meta(name, x, mutable=self.is_assigned(d['id'], ctx.fn.body))
            ctx.env[d['id']] = b
            self.scope_add(name, b)
            return
        if t is None or t.k in ('iter', 'miter'):
            t = x.t
        t = self.decay(t)
        if t.k == 'ptr' and isinstance(x, V) and x.t.k in ('str', 'id', 'region'):
            t = x.t
        small = isinstance(x, InitList) and t.k == 'arr' and self.small_const_array(d)
        if small:
            x = InitList([self.val(e) if isinstance(e, LV) else e for e in x.elems], t)
            if t.a[0].k == 'ptr' and all(isinstance(e, V) and e.t.k == 'str' for e in x.elems):
                t = T('arr', (STR,), name=t.name)
        v = self.coerce(x, t, d)
        b = LV(Root(self.decl(name, vtype(t), raw(v)), t))
        if t.k == 'str' and re.match(r'^seq!\[[\du, ]*\]$', raw(v)) and 'const' in d['type']['qualType']:
            self.lits[b.place.var] = raw(v).count(',') + 1
        if small:
            b.const_elems = InitList([V(t.a[0], lift(raw(self.coerce(e, t.a[0], d)), t.a[0]), True) for e in x.elems], t)
        ctx.env[d['id']] = b
        self.scope_add(name, b)

    def new_rec_from(self, t, name, v):
        s = self.let(v.s, t.name)
        q, fl = self.fields_of(t)
        fields = {}
        for nm, al, ft in fl:
            if ft.k == 'rec' and ft.name not in self.cfg.get('opaque_recs', ()):
                fields[al] = self.new_rec_from(ft, name + '_' + al, V(ft, '%s.%s' % (s, al)))
            else:
                fields[al] = Root(self.decl(name + '_' + al, vtype(ft), '%s.%s' % (s, al)), ft)
        return RecPlace(t, fields)

    def s_ReturnStmt(self, n, ctx, k):
        if not n.get('inner'):
            for f in reversed(ctx.cleanups):
                f()
            ctx.ret(None)
            return
        e = n['inner'][0]

        def go():
            x = self.ev(e, ctx)
            if ctx.cleanups:
                if isinstance(x, LV):
                    x = self.val(x)
                if isinstance(x, V) and x.t.k != 'void' and not isnum(x.s):
                    x = V(x.t, lift(self.let(raw(x), vtype(x.t)), x.t))
                elif not isinstance(x, V) and not (isinstance(x, Ptr) and x.place is None):
                    raise Unsupported('reference returned from a guarded scope', n)
                for f in reversed(ctx.cleanups):
                    f()
            ctx.ret(x)
        self.hoist(e, ctx, go)

    def s_BreakStmt(self, n, ctx, k):
        if ctx.cleanups:
            raise Unsupported('leaving a loop inside a guarded scope', n)
        ctx.brk()

    def s_ContinueStmt(self, n, ctx, k):
        if ctx.cleanups:
            raise Unsupported('leaving a loop inside a guarded scope', n)
        ctx.cont()

    def with_env(self, ctx, f):
        env, sc, cl = ctx.env, self.scope, ctx.cleanups
        ctx.env = dict(env)
        memo = self.memo
        self.memo = dict(memo)
        self.ind += 1
        try:
            f()
        finally:
            self.ind -= 1
            ctx.env, self.scope, ctx.cleanups = env, sc, cl
            self.memo = memo

    def s_IfStmt(self, n, ctx, k):
        inner = list(n['inner'])
        if n.get('hasInit'):
            first = inner.pop(0)
            self.exec_stmt(first, ctx, lambda: self._if(inner, n, ctx, k))
            return
        if n.get('hasVar'):
            first = inner.pop(0)
            self.exec_stmt(first, ctx, lambda: self._if(inner, n, ctx, k))
            return
        self._if(inner, n, ctx, k)

    def _if(self, inner, n, ctx, k):
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        if n.get('isConstexpr'):
            pass

        def go():
            c = self.to_bool(self.evr(cond, ctx))
            esc = self.escapes(then) or (els is not None and self.escapes(els))
            if c.s in ('true', 'false') and not esc:
                pass
            rest = k if esc else (lambda: None)
            self.emit('if tst(Ghost((%s))) {' % c.s)
            self.with_env(ctx, lambda: self.exec_stmt(then, ctx, rest))
            self.emit('} else {')
            self.with_env(ctx, lambda: self.exec_stmt(els, ctx, rest) if els is not None else rest())
            self.emit('}')
            if not esc:
                k()
        self.hoist(cond, ctx, go)

    def s_SwitchStmt(self, n, ctx, k):
        inner = [c for c in n['inner'] if c.get('kind')]
        if n.get('hasInit') or n.get('hasVar'):
            self.exec_stmt(inner[0], ctx, lambda: self._switch(inner[1:], n, ctx, k))
            return
        self._switch(inner, n, ctx, k)

    def _switch(self, inner, n, ctx, k):
        cond, body = inner[0], inner[1]
        groups = []   # (labels or None for default, stmts)
        stmts = body.get('inner', []) if body['kind'] == 'CompoundStmt' else [body]
        for s in stmts:
            labels = []
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    labels.append(s['inner'][0])
                    if len(s['inner']) > 2:
                        raise Unsupported('case range', s)
                    s = s['inner'][1]
                else:
                    labels.append(None)
                    s = s['inner'][0]
            if labels:
                groups.append((labels, [s]))
            elif groups:
                groups[-1][1].append(s)
            elif s.get('kind') != 'NullStmt':
                raise Unsupported('statement before first case', s)

        def go():
            v = self.evr(cond, ctx)
            if v.t.k in ('int', 'enum', 'char', 'uchar'):
                if not isnum(v.s) and not v.const:
                    v = V(v.t, lift(self.let(raw(v), vtype(v.t)), v.t), True)
            # groups with fallthrough appended
            full = []
            for i, (ls, ss) in enumerate(groups):
                seq = []
                for j in range(i, len(groups)):
                    stop = False
                    for s in groups[j][1]:
                        if s.get('kind') == 'BreakStmt':
                            stop = True
                            break
                        seq.append(s)
                        if s.get('kind') in ('ReturnStmt', 'ContinueStmt') or \
                                (s.get('kind') == 'CompoundStmt' and s.get('inner') and s['inner'][-1].get('kind') in ('ReturnStmt', 'BreakStmt', 'ContinueStmt')):
                            stop = True
                            break
                    if stop:
                        break
                full.append((ls, seq))
            esc = any(self.escapes(s) for ls, seq in full for s in seq)
            rest = k if esc else (lambda: None)
            depth = 0
            default = None
            pos = []
            for ls, seq in full:
                vals = [x for x in ls if x is not None]
                if None in ls:
                    default = seq
                    pos.append((vals, None))
                else:
                    pos.append((vals, seq))
            conds = []
            allv = []
            for vals, seq in pos:
                cs = []
                for x in vals:
                    w = self.evr(x, ctx)
                    if v.t.k in ('char', 'uchar') and w.t.k == 'int':
                        w = self.conv_int(w, v.t)
                    cs.append(self.compare('==', v, w, n).s)
                allv += cs
                if seq is not None:
                    conds.append((' || '.join(cs) if cs else 'false', seq))

            def run(seq):
                def f():
                    old = ctx.brk
                    ctx.brk = rest if esc else (lambda: None)

                    def done():
                        ctx.brk = old
                        rest()
                        ctx.brk = rest
                    # break inside runs the rest with the outer break target
                    def brk():
                        cur = ctx.brk
                        ctx.brk = old
                        rest()
                        ctx.brk = cur
                    ctx.brk = brk
                    self.exec_seq(seq, 0, ctx, brk)
                    ctx.brk = old
                self.with_env(ctx, f)
            first = True
            for c, seq in conds:
                self.emit(('' if first else '} else ') + 'if tst(Ghost((%s))) {' % c)
                first = False
                run(seq)
            if first:
                self.emit('if tst(Ghost(true)) {')
                run(default or [])
                self.emit('} else {')
            else:
                self.emit('} else {')
                run(default or [])
            self.emit('}')
            if not esc:
                k()
        self.hoist(cond, ctx, go)

    # ---- loops
    def loop(self, n, ctx, init, cond, inc, body, k, auto=(), pre_body=None, dowhile=False, finite=False):
        """init: emitted; cond: node or callable -> bool term or None; inc: node/callable; body: node;
        finite: the loop removes an element of a (finite) container in every iteration"""
        label = self.fresh("'L")
        self.loopn += 1
        lid = self.loopn
        scope = self.scope
        auto = list(auto) + self.kept_fields(scope)
        self.emit('%s: loop' % label)
        self.ind += 1
        self.emit('invariant')
        self.ind += 1
        self.inv_site(lid, scope, list(auto) + [b[1] for nm, b in scope if nm == '$fact'], n, ctx)
        self.ind -= 1
        self.ind -= 1
        self.emit('{')
        if not finite:
            self.measure_site(lid, scope, n)

        def again():
            if not finite:
                self.emit('', dict(kind='termination', text='loop makes progress', loc=self.loc(n), fn=self.curfn, lid=lid, site='again'))
            self.emit('continue %s;' % label)

        def bodyrun():
            self.ind += 0
            self.loop_hints(lid, scope, ctx)
            old = (ctx.brk, ctx.cont)

            def after():
                cur = (ctx.brk, ctx.cont)
                ctx.brk, ctx.cont = old
                sc = self.scope
                self.scope = scope
                env = ctx.env
                ctx.env = dict(envtop)
                k()
                ctx.env = env
                self.scope = sc
                ctx.brk, ctx.cont = cur

            def next_iter():
                cur = (ctx.brk, ctx.cont)
                ctx.brk, ctx.cont = old
                if dowhile:
                    self.cond_then(cond, ctx, again, after)
                else:
                    if callable(inc):
                        inc()
                        again()
                    elif inc is not None and inc.get('kind'):
                        self.exec_stmt(inc, ctx, again)
                    else:
                        again()
                ctx.brk, ctx.cont = cur

            def enter():
                ctx.brk, ctx.cont = after, next_iter
                if pre_body:
                    pre_body()
                if callable(body):
                    body(next_iter)
                else:
                    self.exec_stmt(body, ctx, next_iter)
                ctx.brk, ctx.cont = old
            if dowhile or cond is None or (isinstance(cond, dict) and not cond.get('kind')):
                enter()
            else:
                self.cond_then(cond, ctx, enter, after)
        envtop = dict(ctx.env)
        self.with_env(ctx, bodyrun)
        self.emit('}')

    def kept_fields(self, scope):
        """candidate invariants: the loop leaves a field of a record variable as it is"""
        out, seen = [], set()

        def whole(p):
            if isinstance(p, RecPlace):
                for q in p.fields.values():
                    whole(q)
            elif isinstance(p, Root) and p.mutable and p.var not in seen:
                seen.add(p.var)
                v0 = self.let(p.var, vtype(p.t))
                out.append('%s == %s' % (p.var, v0))
        for nm, b in scope:
            if isinstance(b, LV) and isinstance(b.place, RecPlace):
                whole(b.place)
            if not isinstance(b, LV) or not isinstance(b.place, Root) or not b.place.mutable or b.place.var in seen:
                continue
            t, v = b.t, b.place.var
            q = ''
            if t.k == 'opt' and t.a and t.a[0].k == 'rec':
                t, q = t.a[0], '->0'
            if t.k != 'rec' or t.name in self.cfg.get('opaque_recs', ()):
                whole(b.place)
                continue
            seen.add(v)
            v0 = self.let(v, vtype(b.t))
            if q:
                out.append('%s is Some == %s is Some' % (v, v0))
            out += ['%s%s.%s == %s%s.%s' % (v, q, al, v0, q, al) for _, al, _ in self.fields_of(t)[1]]
        return out

    def cond_then(self, cond, ctx, yes, no):
        def go():
            c = cond() if callable(cond) else self.to_bool(self.evr(cond, ctx)).s
            self.emit('if tst(Ghost((%s))) {' % c)
            self.with_env(ctx, yes)
            self.emit('} else {')
            self.with_env(ctx, no)
            self.emit('}')
        if callable(cond):
            go()
        else:
            self.hoist(cond, ctx, go)

    def s_ForStmt(self, n, ctx, k):
        init, var, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        if var.get('kind'):
            raise Unsupported('for with condition variable', n)
        sc = self.scope

        def k2():
            s = self.scope
            self.scope = sc
            k()
            self.scope = s

        m = self.const_for(n)
        if m is not None:
            t = self.type_of(m[0]['type'], ctx)
            self.unroll(InitList([V(t, str(x), True) for x in m[1]], T('vec', (t,))), m[0], body, ctx, k2)
            return
        m = self.iterator_loop(init, cond, inc, body, ctx)
        if m is not None:
            it, r, extra = m

            def bind(place, kname):
                ctx.env[it['id']] = MIter(place, kname, 'true')
                self.scope_add(it.get('name'), ctx.env[it['id']])

            def guarded(next_iter):
                c = self.to_bool(self.evr(extra, ctx)).s
                self.emit('if tst(Ghost((%s))) {' % c)
                self.with_env(ctx, lambda: self.exec_stmt(body, ctx, next_iter))
                self.emit('} else {')
                self.with_env(ctx, lambda: ctx.brk())
                self.emit('}')
            self.assoc_loop(r, bind, guarded if extra is not None else body, n, ctx, k2)
            return

        def go():
            self.loop(n, ctx, None, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body, k2)
        if init.get('kind'):
            self.exec_stmt(init, ctx, go)
        else:
            go()

    def s_WhileStmt(self, n, ctx, k):
        if n.get('hasVar'):
            raise Unsupported('while with variable', n)
        cond, body = n['inner'][0], n['inner'][1]
        self.loop(n, ctx, None, cond, None, body, k)

    def s_DoStmt(self, n, ctx, k):
        body, cond = n['inner'][0], n['inner'][1]
        self.loop(n, ctx, None, cond, None, body, k, dowhile=True)

    def assoc_loop(self, r, bind, body, n, ctx, k):
        """a loop over all elements of a map or set, in any order"""
        t, place = r.t, r.place
        dom = lambda: '%s.dom()' % place.load() if t.k == 'map' else place.load()
        dom0 = self.let(dom(), 'Set<%s>' % vtype(t.a[0]))
        rem = self.decl('rem', 'Set<%s>' % vtype(t.a[0]), dom0)
        self.scope_add('$rem', ('rem', rem, place))

        def pre():
            kname = self.fresh('t')
            self.emit('let %s_e: Ghost<%s> = pick(Ghost(%s)); let ghost %s = %s_e@; proof { %s = %s.remove(%s); }' % (kname, vtype(t.a[0]), rem, kname, kname, rem, rem, kname))
            self.ob('%s =~= %s' % (dom(), dom0), 'container not changed while iterated over', n)
            self.last_pick = kname
            bind(place, kname)
        auto = ['%s.subset_of(%s)' % (rem, dom()), '%s == %s' % (dom(), dom0)]
        self.loop(n, ctx, None, lambda: '(!%s.is_empty())' % rem, lambda: None, body, k, auto=auto, pre_body=pre, finite=True)

    def iterator_loop(self, init, cond, inc, body, ctx):
        """for (auto it = m.begin(); it != m.end(); ++it) over a map or set: (variable, container, further condition)"""
        if init.get('kind') != 'DeclStmt' or not cond.get('kind') or not inc.get('kind'):
            return None
        ds = [d for d in init['inner'] if d['kind'] == 'VarDecl']
        if len(ds) != len(init['inner']) or len(ds) > 2 or not all(d.get('inner') for d in ds):
            return None

        def bare(e):
            while e.get('kind') in SKIP or e.get('kind') == 'ImplicitCastExpr' or e.get('kind') == 'CXXConstructExpr' and len(e.get('inner', [])) == 1:
                e = e['inner'][0]
            return e

        def container(e, names):
            e = bare(e)
            if e['kind'] != 'CXXMemberCallExpr' or e['inner'][0].get('kind') != 'MemberExpr' or e['inner'][0].get('name') not in names:
                return None
            return e['inner'][0]['inner'][0], e['inner'][0].get('isArrow')

        def uses(e, d):
            e = bare(e)
            return e['kind'] == 'DeclRefExpr' and e['referencedDecl']['id'] == d['id']

        def text(e):
            e = bare(e)
            if e['kind'] == 'CXXThisExpr':
                return 'this'
            if e['kind'] == 'DeclRefExpr':
                return e['referencedDecl']['id']
            if e['kind'] == 'MemberExpr':
                return text(e['inner'][0]) + '.' + e['name']
            return None
        it = ds[0]
        c = container(it['inner'][0], ('begin', 'cbegin'))
        if c is None or c[1] or text(c[0]) is None:
            return None
        i = bare(inc)
        if i['kind'] != 'CXXOperatorCallExpr' or bare(i['inner'][0]).get('referencedDecl', {}).get('name') != 'operator++' or not uses(i['inner'][1], it):
            return None
        parts = [bare(cond)]
        extra = None
        if parts[0]['kind'] == 'BinaryOperator' and parts[0]['opcode'] == '&&':
            parts = [bare(x) for x in parts[0]['inner']]

        def is_end(x):
            op = 'operator!='
            if x['kind'] == 'CXXRewrittenBinaryOperator':
                x = bare(x['inner'][0])
            if x['kind'] == 'UnaryOperator' and x.get('opcode') == '!':
                x, op = bare(x['inner'][0]), 'operator=='
            if x['kind'] != 'CXXOperatorCallExpr' or bare(x['inner'][0]).get('referencedDecl', {}).get('name') != op or not uses(x['inner'][1], it):
                return False
            if len(ds) == 2 and uses(x['inner'][2], ds[1]):
                e = container(ds[1]['inner'][0], ('end', 'cend'))
            else:
                e = container(x['inner'][2], ('end', 'cend'))
            return e is not None and text(e[0]) == text(c[0])
        ends = [x for x in parts if is_end(x)]
        if len(ends) != 1 or any(y['kind'] == 'CXXOperatorCallExpr' and bare(y['inner'][0]).get('referencedDecl', {}).get('name') in ('operator=', 'operator++', 'operator--') and uses(y['inner'][1], it) for y in walk(body)):
            return None
        rest = [x for x in parts if x is not ends[0]]
        x = self.ev(c[0], ctx)
        if not isinstance(x, LV) or x.t.k not in ('map', 'set'):
            return None
        return it, x, rest[0] if rest else None

    def s_CXXForRangeStmt(self, n, ctx, k):
        ds = [c for c in n['inner'] if c.get('kind') == 'DeclStmt']
        rng = [d for s in ds for d in s['inner'] if (d.get('name') or '').startswith('__range')][0]
        var = ds[-1]['inner'][0]
        body = n['inner'][-1]
        rinit = rng['inner'][0]
        if ds[0]['inner'][0] is not rng and not (ds[0]['inner'][0].get('name') or '').startswith('__'):
            raise Unsupported('range-for with init', n)

        def go():
            r = self.ev(rinit, ctx)
            r = getattr(r, 'const_elems', r)
            if isinstance(r, InitList):
                self.unroll(r, var, body, ctx, k)
                return
            if self.unrollable(n):
                raise Unsupported('range %r' % r, n)
            if isinstance(r, V):
                s = self.let(raw(r), vtype(r.t))
                r = LV(ConstP(s, r.t))
            if not isinstance(r, LV):
                raise Unsupported('range %r' % r, n)
            t = r.t
            if t.k in ('str', 'vec'):
                idx = self.decl('ri_' + (var.get('name') or ''), 'int', '0int')
                et = elem_type(t)
                place = meta_with(r, iter([s if re.match(r'^(t_\d+|\d+)$', s) else self.let(s, ty) for s, ty in meta_leaves(r)])).place
                self.scope_add('$range', ('range', idx, place, var.get('name')))
                sc = self.scope
                ln = None
                if not (isinstance(place, Root) and not place.mutable):
                    ln = self.let('%s.len()' % place.load(), 'nat')
                auto = ['0 <= %s <= %s.len()' % (idx, place.load())]
                if ln:
                    auto.append('%s.len() == %s' % (place.load(), ln))

                def pre():
                    el = LV(IndexP(place, idx, et))
                    self.scope_add('$fact', ('fact', '0 <= %s < %s.len()' % (idx, place.load())))
                    vt = var['type']['qualType']
                    if vt.rstrip().endswith('&'):
                        fr = self.let(idx, 'int')
                        self.scope_add('$fact', ('fact', '%s == %s' % (fr, idx)))
                        ctx.env[var['id']] = LV(IndexP(place, fr, et))
                    else:
                        v = self.rd(el.place)
                        if t.k == 'vec' and et.k == 'rec':
                            ctx.env[var['id']] = LV(self.new_rec_from(et, var.get('name') or 'el', v))
                        else:
                            ctx.env[var['id']] = LV(Root(self.decl(var.get('name') or 'el', vtype(et), raw(v)), et))
                    self.scope_add(var.get('name'), ctx.env[var['id']])
                    self.decompose(var, ctx)
                self.loop(n, ctx, None, lambda: '(%s < %s.len())' % (idx, place.load()), lambda: self.assign(idx, '(%s + 1)' % idx), body, k,
                          auto=auto, pre_body=pre)
                return
            if t.k in ('map', 'set'):
                def bind(place, kname):
                    if t.k == 'map':
                        ctx.env[var['id']] = Tup(LV(ConstP(kname, t.a[0])), LV(MapP(place, kname, t.a[1])))
                    else:
                        ctx.env[var['id']] = LV(ConstP(kname, t.a[0]))
                    self.decompose(var, ctx)
                self.assoc_loop(r, bind, body, n, ctx, k)
                return
            if t.k == 'ext':
                return self.lib.range_ext(self, r, var, body, n, ctx, k)
            raise Unsupported('range-for over %r' % t, n)
        self.hoist(rinit, ctx, go)

    def unroll(self, lst, var, body, ctx, k):
        vals = lst.elems

        def run(i):
            if i >= len(vals):
                k()
                return
            v = self.coerce(vals[i], STR) if vals[i].t.k == 'str' else vals[i]
            ctx.env = dict(ctx.env)
            ctx.env[var['id']] = LV(ConstP(raw(v), v.t))
            old = (ctx.brk, ctx.cont)

            def nxt():
                cur = (ctx.brk, ctx.cont)
                ctx.brk, ctx.cont = old
                run(i + 1)
                ctx.brk, ctx.cont = cur

            def brk():
                cur = (ctx.brk, ctx.cont)
                ctx.brk, ctx.cont = old
                k()
                ctx.brk, ctx.cont = cur
            ctx.brk, ctx.cont = brk, nxt
            self.exec_stmt(body, ctx, nxt)
            ctx.brk, ctx.cont = old
        run(0)


def fval(t, x):
    """floating-point literal (rounded to its type)"""
    if t.name == 'f32':
        return V(t, '(F32 { bits: 0x%08x })' % struct.unpack('<I', struct.pack('<f', x))[0], True)
    return V(t, '(F64 { bits: 0x%016x })' % struct.unpack('<Q', struct.pack('<d', x))[0], True)


def flit(v):
    m = re.match(r'^\(F(32|64) \{ bits: 0x([0-9a-f]+) \}\)$', v.s)
    if m is None:
        return None
    return struct.unpack('<f', struct.pack('<I', int(m.group(2), 16)))[0] if m.group(1) == '32' else struct.unpack('<d', struct.pack('<Q', int(m.group(2), 16)))[0]


def balanced(s):
    d = 0
    for ch in s:
        d += ch in '([{'
        d -= ch in ')]}'
        if d < 0:
            return False
    return d == 0


def neg(s):
    if s == 'true':
        return 'false'
    if s == 'false':
        return 'true'
    m = re.match(r'^\(!(.*)\)$', s)
    if m and balanced(m.group(1)) and re.match(r'^[\w.]+$|^\(.*\)$', m.group(1)) and (not m.group(1).startswith('(') or balanced(m.group(1)[1:-1])):
        return m.group(1)
    return '(!%s)' % s if re.match(r'^[\w.@]+$', s) or (s.startswith('(') and balanced(s[1:-1])) else '(!(%s))' % s


def intsuf(v):
    if v.t.k in ('int', 'enum') and isnum(v.s):
        return '%s' % v.s + ('int' if not v.s.startswith('(') else '')
    return v.s


def strlit(js):
    """clang's printed string literal -> Seq<u8> literal"""
    s = js
    pre = re.match(r'^(u8|L|u|U)?"', s)
    body = s[s.index('"') + 1:s.rindex('"')]
    out = []
    i = 0
    bs = body.encode()
    while i < len(bs):
        c = bs[i]
        if c == 0x5c:
            i += 1
            e = chr(bs[i])
            simple = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11}
            if e in '01234567':
                j = i
                while j < len(bs) and j < i + 3 and chr(bs[j]) in '01234567':
                    j += 1
                out.append(int(bs[i:j], 8) % 256)
                i = j
                continue
            if e == 'x':
                j = i + 1
                while j < len(bs) and chr(bs[j]) in '0123456789abcdefABCDEF':
                    j += 1
                out.append(int(bs[i + 1:j], 16) % 256)
                i = j
                continue
            if e not in simple:
                raise Unsupported('escape in literal')
            out.append(simple[e])
        else:
            out.append(c)
        i += 1
    if not out:
        return 'Seq::<u8>::empty()'
    return 'seq![%s]' % ', '.join('%du8' % x for x in out)


def vfn(key):
    return 'f_' + re.sub(r'\W+', '_', key).strip('_')
