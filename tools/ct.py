"""C++ type strings (as printed by clang) -> translator types, and translator types -> Verus spec types."""
import re
from cxx import Unsupported


class T:
    __slots__ = ('k', 'a', 'name', 'bits', 'signed', 'const')

    def __init__(self, k, a=(), name=None, bits=0, signed=False, const=False):
        self.k, self.a, self.name, self.bits, self.signed, self.const = k, tuple(a), name, bits, signed, const

    def __eq__(self, o):
        return isinstance(o, T) and (self.k, self.a, self.name, self.bits, self.signed) == (o.k, o.a, o.name, o.bits, o.signed)

    def __hash__(self):
        return hash((self.k, self.a, self.name, self.bits))

    def __repr__(self):
        if self.k == 'int':
            return ('i' if self.signed else 'u') + str(self.bits)
        return self.k + (':' + self.name if self.name else '') + ('<' + ','.join(map(repr, self.a)) + '>' if self.a else '')

    @property
    def lo(self):
        return -(1 << (self.bits - 1)) if self.signed else 0

    @property
    def hi(self):
        return (1 << (self.bits - 1)) - 1 if self.signed else (1 << self.bits) - 1


BOOL = T('bool'); CHAR = T('char'); UCHAR = T('uchar'); STR = T('str'); VOID = T('void'); NULL = T('nullptr')
I32 = T('int', bits=32, signed=True); U32 = T('int', bits=32); I64 = T('int', bits=64, signed=True); U64 = T('int', bits=64)
STATUS = T('status'); F64 = T('float', name='f64'); F32 = T('float', name='f32'); REGION = T('region'); OPAQUEPTR = T('id'); TREE = T('tree')

BASE = {
    'bool': BOOL, 'char': CHAR, 'unsigned char': UCHAR, 'signed char': CHAR, 'uint8_t': UCHAR, 'void': VOID,
    'short': T('int', bits=16, signed=True), 'unsigned short': T('int', bits=16),
    'int': I32, 'unsigned int': U32, 'unsigned': U32, 'long': I64, 'unsigned long': U64, 'long long': I64,
    'unsigned long long': U64, 'size_t': U64, 'std::size_t': U64, 'uint32_t': U32, 'int32_t': I32, 'int64_t': I64,
    'uint64_t': U64, 'ptrdiff_t': I64, 'std::ptrdiff_t': I64, 'difference_type': I64, 'size_type': U64,
    'pb::int32': I32, 'pb::int64': I64, 'pb::uint32': U32, 'pb::uint64': U64,
    'google::protobuf::int64': I64, 'google::protobuf::int32': I32, 'google::protobuf::uint32': U32, 'google::protobuf::uint64': U64,
    'std::nullptr_t': NULL, 'nullptr_t': NULL, 'double': F64, 'float': F32,
    'std::string': STR, 'absl::string_view': STR, 'std::string_view': STR, 'string_view': STR, 'string': STR,
    'absl::lts_20220623::string_view': STR, 'StringPiece': STR, 'strings_internal::ConvertibleToStringView': STR, 'ConvertibleToStringView': STR,
    'absl::Status': STATUS, 'absl::lts_20220623::Status': STATUS, 'Status': STATUS,
}
SEQS = ('vector', 'list', 'deque', 'initializer_list', 'RepeatedPtrField', 'stack')
MAPS = ('map', 'unordered_map', 'flat_hash_map')
SETS = ('set', 'unordered_set', 'flat_hash_set')


def _tok(s):
    return re.findall(r'[A-Za-z_][A-Za-z_0-9]*|::|[<>,&*()\[\]]|\d+|\.\.\.|\S', s)


def elem(t):
    """as a template argument: pointers to opaque objects are addresses"""
    return T('id') if t.k == 'ptr' and t.a[0].k == 'opaque' else t


class Parser:
    def __init__(self, s, res):
        # a function type keeps no information about its signature
        while True:
            m = re.search(r'\b(?:std::(?:__1::)?)?function<', s)
            if not m:
                break
            j, d = m.end(), 1
            while d:
                d += {'<': 1, '>': -1}.get(s[j], 0) if s[j - 1:j + 1] != '->' else 0
                j += 1
            s = s[:m.start()] + 'std::function' + s[j:]
        self.t = _tok(s)
        self.i = 0
        self.s = s
        self.res = res

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def parse(self):
        t = self.type()
        if self.peek() is not None:
            raise Unsupported('type: ' + self.s)
        return t

    def type(self):
        const = False
        words = []
        targs = None
        while True:
            p = self.peek()
            if p in ('const', 'volatile', 'typename', 'class', 'struct', 'enum', 'mutable'):
                const |= p == 'const'
                self.next()
            elif p == '::':
                self.next()
                words.append('::')
            elif p is not None and re.match(r'[A-Za-z_]', p):
                if targs is not None and (not words or words[-1] != '::'):
                    break
                words.append(self.next())
            elif p == '<':
                self.next()
                targs = []
                while self.peek() != '>':
                    if self.peek() is not None and re.match(r'\d', self.peek()):
                        targs.append(self.next())
                    else:
                        targs.append(elem(self.type()))
                    if self.peek() == ',':
                        self.next()
                    elif self.peek() != '>':
                        raise Unsupported('type: ' + self.s)
                self.next()
                while self.peek() == '::':   # e.g. vector<X>::const_iterator, map<K, V>::value_type::first_type
                    self.next()
                    words.append('<>')
                    words.append(self.next())
            else:
                break
        t = self.make(words, targs)
        while True:
            p = self.peek()
            if p == '*':
                self.next()
                cptr = False
                while self.peek() in ('const',):
                    cptr = True
                    self.next()
                if const and t.k not in ('ptr', 'ref', 'rref'):
                    t = T(t.k, t.a, t.name, t.bits, t.signed, True)
                t = T('ptr', (t,), const=const)
                const = cptr
            elif p == '&':
                self.next()
                if self.peek() == '&':
                    self.next()
                    t = T('rref', (t,), const=const)
                else:
                    t = T('ref', (t,), const=const)
            elif p == 'const':
                self.next()
                const = True
            elif p == '[':
                self.next()
                n = self.next()
                if self.next() != ']':
                    raise Unsupported('type: ' + self.s)
                t = T('arr', (t,), name=n)
            else:
                break
        if const and t.k not in ('ptr', 'ref', 'rref'):
            t = T(t.k, t.a, t.name, t.bits, t.signed, True)
        return t

    def make(self, words, targs):
        name = ''.join(w if w == '::' else (' ' + w if i and words[i - 1] not in ('::', '<>') else w)
                       for i, w in enumerate(words) if w != '<>').strip()
        name = name.lstrip(':')
        last = words[-1] if words else ''
        if '<>' in words:
            # member type of a template
            if last in ('const_iterator', 'iterator'):
                return T('iter', targs[:1])
            if last in ('size_type',):
                return U64
            base = words[:words.index('<>')][-1]
            mem = [w for w in words[words.index('<>'):] if w != '<>']
            if mem in (['key_type'], ['value_type', 'first_type']) and base in MAPS:
                return targs[0]
            if mem in (['mapped_type'], ['value_type', 'second_type']) and base in MAPS:
                return targs[1]
            if mem == ['value_type'] and base in MAPS:
                return T('pair', targs[:2])
            if mem == ['value_type'] and base in SEQS + SETS or mem == ['element_type'] and base == 'unique_ptr':
                return targs[0]
            if mem == ['first_type'] and base == 'pair':
                return targs[0]
            if mem == ['second_type'] and base == 'pair':
                return targs[1]
            raise Unsupported('type: ' + self.s)
        if name in BASE:
            return BASE[name]
        base = last
        if targs is not None:
            if base in SEQS:
                return T('vec', targs[:1], name=base)
            if base in MAPS:
                return T('map', targs[:2], name=base)
            if base in SETS:
                return T('set', targs[:1], name=base)
            if base in ('char_traits', 'allocator', 'less', 'hash', 'equal_to', 'default_delete'):
                return T('policy', name=base)        # a template argument only
            if base in ('unique_ptr', '__unique_ptr_t'):
                return T('opt', targs[:1])
            if base == 'pair':
                return T('pair', targs[:2])
            if base == 'basic_string' or base == 'basic_string_view':
                return STR
            if base == 'StatusOr':
                return T('statusor', targs[:1])
            if base == '__normal_iterator':
                if targs[1] == STR:
                    return T('iter', (CHAR,))
                return T('iter', targs[1].a[:1])
            if base in ('_Node_iterator', '_Node_const_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator'):
                p = targs[0]
                return T('miter', p.a if p.k == 'pair' else (p,))
            if base in ('_List_iterator', '_List_const_iterator'):
                return T('iter', targs[:1])
            if base == 'function':
                return T('func')
            return self.res(name, self.s)
        if name == 'std::function':
            return T('func')
        if last in ('const_iterator', 'iterator') and len(words) > 1:
            return T('iter')
        return self.res(name, self.s)


def unref(t):
    return t.a[0] if t.k in ('ref', 'rref') else t


def vtype(t, structs=None):
    """Verus spec type of a stored value of type t"""
    k = t.k
    if k == 'bool':
        return 'bool'
    if k in ('char', 'uchar'):
        return 'u8'
    if k == 'outwin':
        return 'int'
    if k == 'int':
        return ('i' if t.signed else 'u') + str(t.bits)
    if k == 'enum':
        return 'i32'
    if k == 'tree':
        return 'Seq<int>'
    if k in ('str', 'region', 'arrbuf'):
        return 'Seq<u8>'
    if k == 'arr':
        return 'Seq<%s>' % vtype(t.a[0])
    if k == 'vec':
        return 'Seq<%s>' % vtype(t.a[0])
    if k == 'map':
        return 'Map<%s, %s>' % (vtype(t.a[0]), vtype(t.a[1]))
    if k == 'set':
        return 'Set<%s>' % vtype(t.a[0])
    if k == 'opt':
        return 'Option<%s>' % vtype(t.a[0])
    if k == 'pair':
        return '(%s, %s)' % (vtype(t.a[0]), vtype(t.a[1]))
    if k == 'rec':
        return t.name
    if k == 'ext':
        return t.name
    if k in ('id', 'opaque'):
        return 'int'
    if k == 'status':
        return 'Status'
    if k == 'statusor':
        return 'StatusOr<%s>' % vtype(t.a[0])
    if k == 'float':
        return t.name.upper()
    if k == 'iter':
        return 'Iter<%s>' % vtype(t.a[0])
    if k in ('ref', 'rref'):
        return vtype(t.a[0])
    if k == 'void':
        return '()'
    raise Unsupported('no value representation for type %r' % t)
