"""Models of the C++ standard library / absl / protobuf calls used by the verified code.

Each operation emits the obligation that makes it defined (bounds, non-emptiness, non-null) and yields the
specification-level value of its result.  Anything not listed raises Unsupported.
"""
import re
import ct
from ct import T, BOOL, CHAR, UCHAR, STR, VOID, NULL, I32, U32, I64, U64, STATUS, unref, vtype
from cxx import Unsupported
from tr import (V, LV, Ptr, BufPtr, Iter, MIter, Tup, Lam, InitList, Stream, Root, ConstP, RecPlace, FieldP, IndexP, MapP, OptP,
                PairP, raw, lift, isnum, numval, add, sub, strip, strip_all, is_meta, elem_type, neg, walk, Ctx)

STATUS_CODES = dict(kOk=0, kCancelled=1, kUnknown=2, kInvalidArgument=3, kDeadlineExceeded=4, kNotFound=5, kAlreadyExists=6,
                    kPermissionDenied=7, kResourceExhausted=8, kFailedPrecondition=9, kAborted=10, kOutOfRange=11,
                    kUnimplemented=12, kInternal=13, kUnavailable=14, kDataLoss=15, kUnauthenticated=16)


class BackIns:
    """std::back_inserter of a container"""
    def __init__(self, place):
        self.place = place
        self.t = T('backins')


class Mux:
    """dispatches operations on external classes to the models of the contract modules"""
    def __init__(self, exts):
        self.exts = exts

    def pick(self, name, n):
        for e in self.exts:
            if name in e.NAMES:
                return e
        raise Unsupported('no model of external class %s' % name, n)

    def construct(self, lib, tr, t, n, vals, ctx):
        return self.pick(t.name, n).construct(lib, tr, t, n, vals, ctx)

    def call(self, lib, tr, name, n, args, ctx, rd):
        for e in self.exts:
            if hasattr(e, 'call'):
                r = e.call(lib, tr, name, n, args, ctx, rd)
                if r is not None:
                    return r
        return None

    def method(self, lib, tr, base, name, n, args, ctx, cls=None):
        return self.pick(cls or base.t.name, n).method(lib, tr, base, name, n, args, ctx)

    def operator(self, lib, tr, op, n, vals, args, ctx):
        for e in self.exts:
            if hasattr(e, 'operator'):
                r = e.operator(lib, tr, op, n, vals, args, ctx)
                if r is not None:
                    return r
        return None

    def range_for(self, lib, tr, r, var, body, n, ctx, k):
        return self.pick(r.t.name, n).range_for(lib, tr, r, var, body, n, ctx, k)


class Lib:
    def __init__(self, ext=None):
        if isinstance(ext, list):
            ext = Mux(ext) if ext else None
        self.ext = ext    # models of external classes

    # ---------------------------------------------------------------- helpers
    def use(self, tr, what):
        tr.lib_used.add(what)

    def as_str(self, tr, x, n):
        if isinstance(x, LV):
            x = tr.val(x, consume=False)
        if isinstance(x, BufPtr):
            # a C string: bytes up to the end of the buffer (only used for literals)
            raise Unsupported('char pointer as string', n)
        if isinstance(x, V) and x.t.k == 'str':
            return x.s
        if isinstance(x, V) and x.t.k == 'char':
            return 'seq![%s]' % x.s
        raise Unsupported('string operand %r' % (x,), n)

    def size(self, tr, place_or_v, n):
        s = place_or_v.load() if hasattr(place_or_v, 'load') else place_or_v.s
        t = place_or_v.t
        if t.k in ('map', 'set'):
            dom = s + '.dom()' if t.k == 'map' else s
            return V(U64, '(%s.len() as int)' % dom)
        self.use(tr, 'size() <= max_size()')
        tr.emit('proof { assume(%s.len() <= max_size()); }' % s)
        return V(U64, '(%s.len() as int)' % s)

    def cnode(self, n):
        return strip(n)

    # ---------------------------------------------------------------- construction
    def construct(self, tr, t, n, args, ctx):
        k = t.k
        ctype = n.get('ctorType', {}).get('qualType', '')
        if k in ('str', 'vec', 'map', 'set', 'pair', 'opt', 'status', 'statusor', 'ext', 'splitter'):
            pass
        if not args:
            if k == 'ext' and self.ext:
                return self.ext.construct(self, tr, t, n, [], ctx)
            return V(t, lift(tr.default_value(t), t))
        if k == 'pair':
            if len(args) == 2:
                a, b = tr.ev_list(args, ctx, tr.evr)
                if is_meta(a) or is_meta(b):
                    return Tup(a, b)
                return V(t, '(%s, %s)' % (raw(tr.coerce(a, t.a[0], n)), raw(tr.coerce(b, t.a[1], n))))
            x = tr.evr(args[0], ctx)
            return x
        if len(args) == 1:
            x = tr.ev(args[0], ctx)
            if isinstance(x, LV) and '&&' in ctype:
                v = tr.val(x)
            elif isinstance(x, LV):
                v = tr.val(LV(x.place))
            else:
                v = x
            if is_meta(v):
                if k == 'opt':
                    return tr.coerce(v, t, n)
                if k in ('iter', 'miter'):
                    return v
                if k == 'ext' and self.ext and isinstance(v, Ptr):
                    return self.ext.construct(self, tr, t, n, [v], ctx)
                raise Unsupported('construct %r from %r' % (t, v), n)
            if isinstance(v, Lam):
                return v
            if isinstance(v, InitList):
                return tr.coerce(v, t, n)
            if k == 'vec' and v.t.k == 'splitter':
                return V(t, v.s)
            if k == 'vec' and v.t.k == 'int':
                return V(t, 'vec_resize(Seq::<%s>::empty(), %s, %s)' % (vtype(t.a[0]), v.s, tr.default_value(t.a[0])))
            if k == 'str' and v.t.k == 'str':
                return V(t, v.s, v.const)
            if k == v.t.k or (k in ('opt',) and v.t.k == 'nullptr') or k == 'statusor':
                return tr.coerce(v, t, n)
            if k == 'opt' and v.t.k in ('id', 'ext'):
                return tr.coerce(v, t, n)
            if k == 'ext' and self.ext:
                return self.ext.construct(self, tr, t, n, [v], ctx)
            if v.t.k in ('ext', 'rec') and k in ('ext', 'rec'):
                return v
            raise Unsupported('construct %r from %r' % (t, v.t), n)
        vals = tr.ev_list(args, ctx)
        if k == 'status' and len(vals) == 2:
            code, msg = tr.rv(vals[0]), tr.rv(vals[1])
            return V(t, 'status_new(%s, %s)' % (code.s, self.as_str(tr, msg, n)))
        if k == 'str':
            if len(vals) == 2 and isinstance(tr.rv(vals[0]), V) and tr.rv(vals[0]).t.k == 'int':
                c, ch = tr.rv(vals[0]), tr.rv(vals[1])
                tr.ob('%s <= max_size()' % c.s, 'std::string size', n)
                return V(t, 'Seq::new((%s) as nat, |i_: int| %s)' % (c.s, ch.s))
            if len(vals) == 2 and isinstance(vals[0], BufPtr) and isinstance(tr.rv(vals[1]), V):
                p, c = vals[0], tr.rv(vals[1])
                tr.ob('0 <= %s && %s + %s <= %s.len()' % (p.off, p.off, c.s, p.base.load()), 'buffer access in range', n)
                return V(t, '%s.subrange(%s, %s)' % (p.base.load(), p.off, add(p.off, c.s)))
            if len(vals) == 2 and isinstance(tr.rv(vals[0]), Iter):
                return self.range_val(tr, t, tr.rv(vals[0]), tr.rv(vals[1]), n)
            if len(vals) == 2 and isinstance(tr.rv(vals[0]), V) and tr.rv(vals[0]).t.k == 'region' and isinstance(tr.rv(vals[1]), V):
                s, c = tr.rv(vals[0]), tr.rv(vals[1])
                tr.ob('0 <= %s <= %s.len()' % (c.s, s.s), 'buffer access in range', n)
                return V(t, '%s.subrange(0, %s)' % (s.s, c.s))
            if len(vals) in (2, 3) and isinstance(tr.rv(vals[0]), V) and tr.rv(vals[0]).t.k == 'str':
                s = tr.rv(vals[0])
                a = [tr.rv(x) for x in vals[1:]]
                s0 = strip_all(args[0])
                if s0['kind'] == 'StringLiteral' or 'const char *' in ctype:
                    # (ptr, count)
                    tr.ob('%s <= %s.len()' % (a[0].s, s.s), 'buffer access in range', n)
                    return V(t, '%s.subrange(0, %s)' % (s.s, a[0].s))
                tr.ob('%s <= %s.len()' % (a[0].s, s.s), 'substr position in range', n)
                return V(t, 'str_substr(%s, %s, %s)' % (s.s, a[0].s, a[1].s if len(a) > 1 else 'npos()'))
        if k == 'vec' and len(vals) == 2:
            a, b = tr.rv(vals[0]), tr.rv(vals[1])
            if isinstance(a, Iter):
                return self.range_val(tr, t, a, b, n)
            if isinstance(a, V) and a.t.k == 'int':
                tr.ob('%s <= max_size()' % a.s, 'std::vector size', n)
                return V(t, 'Seq::new((%s) as nat, |i_: int| %s)' % (a.s, raw(tr.coerce(b, t.a[0], n))))
        if k == 'ext' and self.ext:
            return self.ext.construct(self, tr, t, n, vals, ctx)
        raise Unsupported('constructor of %r with %d arguments' % (t, len(args)), n)

    def range_val(self, tr, t, a, b, n):
        tr.same_base(a.base, b.base, n)
        tr.ob('0 <= %s <= %s <= %s.len()' % (a.idx, b.idx, a.base.load()), 'iterator range', n)
        return V(t, '%s.subrange(%s, %s)' % (a.base.load(), a.idx, b.idx))

    # ---------------------------------------------------------------- free functions
    def call(self, tr, name, n, args, ctx, rd):
        q = name
        if name in ('move', 'forward'):
            x = tr.ev(args[0], ctx)
            if isinstance(x, LV):
                # std::move of a const object copies it
                return LV(x.place, not args[0].get('type', {}).get('qualType', '').startswith('const '))
            return x
        if name in ('min', 'max') and len(args) == 2:
            a, b = tr.ev_list(args, ctx, tr.evr)
            if a.t.k != 'int':
                raise Unsupported('%s of %r' % (name, a.t), n)
            if isnum(a.s) and isnum(b.s):
                return V(a.t, str(min(numval(a.s), numval(b.s)) if name == 'min' else max(numval(a.s), numval(b.s))))
            return V(a.t, 'i%s(%s, %s)' % (name, a.s, b.s))
        if name in ('memcpy', '__builtin_memcpy', 'memmove'):
            dst = tr.rv(tr.ev(args[0], ctx))
            src = tr.rv(tr.ev(args[1], ctx))
            cnt = tr.evr(args[2], ctx)
            return self.memcpy(tr, dst, src, cnt, n)
        if name == 'back_inserter' and len(args) == 1:
            x = tr.ev(args[0], ctx)
            if isinstance(x, LV) and x.t.k in ('vec', 'str'):
                return BackIns(x.place)
        if name in ('copy', 'copy_n') and len(args) == 3:
            a, b, c = [tr.rv(x) for x in tr.ev_list(args, ctx)]
            if name == 'copy' and isinstance(a, BufPtr):
                cnt = V(U64, sub(b.off, a.off))
                return self.memcpy(tr, c, a, cnt, n)
            if name == 'copy' and isinstance(c, BackIns) and isinstance(a, Iter) and isinstance(b, Iter):
                r = self.range_val(tr, c.place.t, a, b, n)
                c.place.store(tr, '%s + %s' % (c.place.load(), r.s))
                return c
            raise Unsupported('std::copy', n)
        if name in ('memset', '__builtin_memset', 'fill', 'fill_n') and len(args) == 3:
            dst, b, c = [tr.rv(x) for x in tr.ev_list(args, ctx)]
            if name == 'fill' and isinstance(dst, BufPtr) and isinstance(b, BufPtr):
                ch, cnt = tr.conv_int(tr.val(c), UCHAR), V(U64, sub(b.off, dst.off))
            elif name == 'fill':
                raise Unsupported('std::fill', n)
            elif name == 'fill_n':
                ch, cnt = tr.conv_int(tr.val(c), UCHAR), tr.val(b)
            else:
                ch, cnt = tr.conv_int(tr.val(b), UCHAR), tr.val(c)
            if not isinstance(dst, BufPtr):
                raise Unsupported('memset', n)
            old = dst.base.load()
            tr.ob('0 <= %s && 0 <= %s && %s + %s <= %s.len()' % (dst.off, cnt.s, dst.off, cnt.s, old), 'memset in range', n)
            dst.base.store(tr, '%s.subrange(0, %s) + Seq::new((%s) as nat, |i_: int| %s) + %s.subrange(%s, %s.len() as int)' %
                           (old, dst.off, cnt.s, ch.s, old, add(dst.off, cnt.s), old))
            return dst
        if name in ('fabs', 'abs', '__builtin_fabs') and len(args) == 1:
            v = tr.evr(args[0], ctx)
            if v.t.k == 'float':
                return V(v.t, '%s_abs(%s)' % (v.t.name, v.s))
            raise Unsupported('abs', n)
        if name == 'to_string':
            v = tr.evr(args[0], ctx)
            v = tr.conv_int(v, I32) if v.t.k in ('uchar', 'char') else v
            if v.t.k != 'int':
                raise Unsupported('to_string of %r' % v.t, n)
            return V(STR, 'to_dec(%s)' % v.s)
        if name == 'StrSplit':
            s, c = tr.ev_list(args[:2], ctx, tr.evr)
            if c.t.k == 'str':
                m = re.match(r'^seq!\[(\d+u8)\]$', c.s)
                if not m:
                    raise Unsupported('StrSplit delimiter', n)
                c = V(CHAR, m.group(1))
            if c.t.k != 'char':
                raise Unsupported('StrSplit delimiter', n)
            if len(args) > 2 and strip(args[2])['kind'] != 'CXXDefaultArgExpr':
                ty = strip_all(args[2])['type']
                if ty.get('desugaredQualType', ty['qualType']).split('::')[-1] == 'SkipEmpty':
                    return V(T('splitter'), 'not_empty(split(%s, %s))' % (s.s, c.s))
                if ty.get('desugaredQualType', ty['qualType']).split('::')[-1] == 'SkipWhitespace':
                    return V(T('splitter'), 'not_blank(split(%s, %s))' % (s.s, c.s))
                if ty.get('desugaredQualType', ty['qualType']).split('::')[-1] == 'AllowEmpty':
                    return V(T('splitter'), 'split(%s, %s)' % (s.s, c.s))
                raise Unsupported('StrSplit predicate', n)
            return V(T('splitter'), 'split(%s, %s)' % (s.s, c.s))
        if name in ('StrCat',):
            parts = []
            for v in tr.ev_list(args, ctx, tr.evr):
                parts.append(self.as_str(tr, v, n) if v.t.k in ('str', 'char') else 'to_dec(%s)' % v.s)
            return V(STR, '(%s)' % ' + '.join(parts))
        if name == 'StrFormat':      # some text
            for a in args[1:]:
                tr.ev(a, ctx)
            return V(STR, tr.havoc('Seq<u8>'))
        if name == 'StrAppend':
            d = tr.ev(args[0], ctx)
            place = tr.deref(tr.rv(d), n)
            parts = [self.as_str(tr, v, n) if v.t.k in ('str', 'char') else 'to_dec(%s)' % v.s for v in tr.ev_list(args[1:], ctx, tr.evr)]
            place.store(tr, '%s + %s' % (place.load(), ' + '.join(parts)))
            return V(VOID, '()')
        if name in ('begin', 'end', 'cbegin', 'cend') and len(args) == 1:
            x = tr.ev(args[0], ctx)
            return self.begin_end(tr, x, name.lstrip('c'), n)
        if name in ('size', 'ssize') and len(args) == 1:
            return self.size(tr, self.pl(tr, tr.ev(args[0], ctx)), n)
        if name == 'empty' and len(args) == 1:
            return self.method(tr, tr.ev(args[0], ctx), 'empty', n, [], ctx)
        if name in ('next', 'prev', 'advance') and len(args) in (1, 2):
            it = tr.ev(args[0], ctx)
            d = tr.evr(args[1], ctx) if len(args) == 2 and strip(args[1])['kind'] != 'CXXDefaultArgExpr' else V(I64, '1')
            if name == 'prev':
                d = V(I64, sub('0', d.s))
            if not isinstance(it, Iter):
                raise Unsupported('std::' + name, n)
            new = tr.ptr_add(it, d, n)
            if name == 'advance':
                tr.meta_assign(strip_all(args[0]), new, ctx)
                return V(VOID, '()')
            return new
        if name == 'distance' and len(args) == 2:
            a, b = [tr.rv(x) for x in tr.ev_list(args, ctx)]
            return tr.binop('-', b, a, n, ctx)
        if name == 'find' and len(args) == 3:
            a, b, c = tr.ev_list(args, ctx)
            a, b, c = tr.rv(a), tr.rv(b), tr.rv(c)
            if isinstance(a, Iter) and a.idx in ('0', '0int') and elem_type(a.base.t).k in ('char',):
                tr.same_base(a.base, b.base, n)
                s = a.base.load()
                return Iter(a.base, tr.let('(if find_from(%s, %s, 0) < 0 { %s.len() as int } else { find_from(%s, %s, 0) })' % (s, c.s, s, s, c.s), 'int'))
            if isinstance(a, Iter) and isinstance(b, Iter) and isinstance(c, V) and elem_type(a.base.t).k in ('char', 'str', 'int', 'bool'):
                tr.same_base(a.base, b.base, n)
                s, et = a.base.load(), elem_type(a.base.t)
                v = tr.let(raw(tr.coerce(c, et, n)), vtype(et))
                lo, hi = tr.let(a.idx, 'int'), tr.let(b.idx, 'int')
                tr.ob('0 <= %s <= %s <= %s.len()' % (lo, hi, s), 'iterator range', n)
                i = tr.havoc('int')
                # the first position of the value in the range, or its end
                tr.emit('proof { assume(%s <= %s <= %s && (%s < %s ==> %s[%s] == %s) && (forall|k_: int| #![trigger %s[k_]] %s <= k_ < %s ==> %s[k_] != %s)); }' % (lo, i, hi, i, hi, s, i, v, s, lo, i, s, v))
                return Iter(a.base, i)
            raise Unsupported('std::find', n)
        if name in ('make_unique',):
            t = tr.type_of(n['type'], ctx)
            el = t.a[0]
            if el.k == 'rec':
                q, fl = tr.fields_of(el)
                cands = [f for f in tr.prog.fns.get(q + '::' + q.split('::')[-1], []) if f.kind == 'CXXConstructorDecl' and not f.node.get('isImplicit') and len(f.params) == len(args)]
                if cands:
                    vals = tr.eval_args(cands[0], args, ctx)
                    v = tr.construct_user(el, cands[0], vals, n, ctx)
                elif not args:
                    v = V(el, tr.default_value(el))
                else:
                    raise Unsupported('make_unique', n)
                s = v.s
                if q in tr.cfg.get('addressed', ()):
                    a = tr.fresh('addr')
                    tr.emit('let %s_e = fresh_addr(Ghost(%s)); let ghost %s: int = %s_e@;' % (a, tr.live_addrs(el), a, a))
                    s = '%s { addr_: %s, ..%s }' % (el.name, a, s)
                return V(t, 'Option::Some(%s)' % s)
            if el.k == 'ext' and self.ext:
                v = self.ext.construct(self, tr, el, n, tr.ev_list(args, ctx), ctx)
                return V(t, 'Option::Some(%s)' % v.s)
            raise Unsupported('make_unique', n)
        if name == '__builtin_expect':
            return tr.ev(args[0], ctx)
        if name in ('__assert_fail', 'abort'):
            tr.ob('false', 'assertion', n)
            return V(VOID, '()')
        if name in ('swap',) and len(args) == 2:
            a, b = tr.ev(args[0], ctx), tr.ev(args[1], ctx)
            if isinstance(a, LV) and isinstance(b, LV):
                x = tr.let(a.place.load(), vtype(a.t))
                y = tr.let(b.place.load(), vtype(b.t))
                a.place.store(tr, y)
                b.place.store(tr, x)
                return V(VOID, '()')
        if name in ('make_pair', 'pair'):
            a, b = tr.ev_list(args, ctx, tr.evr)
            if is_meta(a) or is_meta(b):
                return Tup(a, b)
            return V(T('pair', (a.t, b.t)), '(%s, %s)' % (raw(a), raw(b)))
        if name == 'OkStatus':
            return V(STATUS, 'status_ok()')
        if name.endswith('Error') and name[:-5] in [c[1:] for c in STATUS_CODES]:
            m = tr.evr(args[0], ctx)
            return V(STATUS, 'status_new(%d, %s)' % (STATUS_CODES['k' + name[:-5]], self.as_str(tr, m, n)))
        if name in ('exchange',):
            a = tr.ev(args[0], ctx)
            b = tr.evr(args[1], ctx)
            o = V(a.t, lift(tr.let(a.place.load(), vtype(a.t)), a.t), True)
            tr.store(a, b, n)
            return o
        if name in ('StartsWith', 'EndsWith', 'StrContains') or name in ('isxdigit', 'isalpha'):
            if name == 'StartsWith':
                a, b = [self.as_str(tr, x, n) for x in tr.ev_list(args, ctx, tr.evr)]
                return V(BOOL, '(%s.len() <= %s.len() && %s.subrange(0, %s.len() as int) =~= %s)' % (b, a, a, b, b))
            if name == 'EndsWith':
                a, b = [self.as_str(tr, x, n) for x in tr.ev_list(args, ctx, tr.evr)]
                return V(BOOL, '(%s.len() <= %s.len() && %s.subrange(%s.len() - %s.len(), %s.len() as int) =~= %s)' % (b, a, a, a, b, a, b))
        if name in ('ConsumePrefix', 'ConsumeSuffix', 'StripPrefix', 'StripSuffix') and len(args) == 2:
            d, b = [tr.rv(x) for x in tr.ev_list(args, ctx)]
            b = self.as_str(tr, b, n)
            place = tr.deref(d, n) if name.startswith('Consume') else None
            a = tr.let(place.load() if place else self.as_str(tr, d, n), 'Seq<u8>')
            if name.endswith('Prefix'):
                f = tr.let('(%s.len() <= %s.len() && %s.subrange(0, %s.len() as int) =~= %s)' % (b, a, a, b, b), 'bool')
                rest = '%s.subrange(%s.len() as int, %s.len() as int)' % (a, b, a)
            else:
                f = tr.let('(%s.len() <= %s.len() && %s.subrange(%s.len() - %s.len(), %s.len() as int) =~= %s)' % (b, a, a, a, b, a, b), 'bool')
                rest = '%s.subrange(0, %s.len() - %s.len())' % (a, a, b)
            new = '(if %s { %s } else { %s })' % (f, rest, a)
            if place:
                place.store(tr, new)
                return V(BOOL, f)
            return V(STR, new)
        if self.ext:
            r = self.ext.call(self, tr, name, n, args, ctx, rd)
            if r is not None:
                return r
        raise Unsupported('external function %s' % name, n)

    def memcpy(self, tr, dst, src, cnt, n):
        if not isinstance(dst, BufPtr):
            raise Unsupported('memcpy destination', n)
        if isinstance(src, BufPtr):
            ss, so = src.base.load(), src.off
        elif isinstance(src, (V,)) and src.t.k in ('region', 'str'):
            ss, so = src.s, '0'
        else:
            raise Unsupported('memcpy source', n)
        old = dst.base.load()
        tr.ob('0 <= %s && 0 <= %s && %s + %s <= %s.len()' % (so, cnt.s, so, cnt.s, ss), 'memcpy source in range', n)
        tr.ob('0 <= %s && %s + %s <= %s.len()' % (dst.off, dst.off, cnt.s, old), 'memcpy destination in range', n)
        dst.base.store(tr, '%s.subrange(0, %s) + %s.subrange(%s, %s) + %s.subrange(%s, %s.len() as int)' %
                       (old, dst.off, ss, so, add(so, cnt.s), old, add(dst.off, cnt.s), old))
        return dst

    def pl(self, tr, x):
        if isinstance(x, LV):
            return x.place
        if isinstance(x, V):
            return ConstP(raw(x), x.t)
        raise Unsupported('container %r' % x)

    def begin_end(self, tr, x, which, n):
        p = self.pl(tr, x)
        if p.t.k in ('str', 'vec'):
            if isinstance(x, V) and not re.match(r'^[\w.]+$', p.load()):
                p = ConstP(tr.let(p.load(), vtype(p.t)), p.t)
            if which == 'begin':
                return Iter(p, '0')
            return Iter(p, '(%s.len() as int)' % p.load())
        if p.t.k in ('map', 'set'):
            if which == 'end':
                return MIter(p, 'arbitrary()', 'false')
            raise Unsupported('begin() of an associative container', n)
        raise Unsupported('%s() of %r' % (which, p.t), n)

    # ---------------------------------------------------------------- member functions
    def method(self, tr, base, name, n, args, ctx):
        if isinstance(base, Stream):
            if name == 'str':
                return V(STR, base.s)
            raise Unsupported('stream ' + name, n)
        if isinstance(base, (MIter, Iter, BufPtr, Lam, Tup, InitList)):
            if isinstance(base, InitList) and name == 'size':
                return V(U64, str(len(base.elems)))
            raise Unsupported('method %s of %r' % (name, base), n)
        if isinstance(base, Ptr):
            base = LV(tr.deref(base, n))
        t = base.t
        k = t.k
        if k == 'splitter':
            if name.startswith('operator'):
                return V(T('vec', (STR,), name='vector'), base.s)
        if k == 'str':
            return self.str_method(tr, base, name, n, args, ctx)
        if k == 'vec':
            return self.vec_method(tr, base, name, n, args, ctx)
        if k in ('map', 'set'):
            return self.map_method(tr, base, name, n, args, ctx)
        if k == 'opt':
            return self.opt_method(tr, base, name, n, args, ctx)
        if k == 'status':
            s = tr.rv(base).s
            if name == 'ok':
                return V(BOOL, '(%s.code == 0)' % s)
            if name == 'code':
                return V(T('enum', name='StatusCode'), '%s.code' % s)
            if name == 'message':
                return V(STR, '%s.msg' % s)
        if k == 'statusor':
            s = tr.rv(base).s
            if name == 'ok':
                return V(BOOL, '(%s is Ok)' % s)
            if name in ('value', 'ValueOrDie', 'operator*'):
                tr.ob('%s is Ok' % s, 'value of a failed StatusOr', n)
                return V(t.a[0], lift('%s->Ok_0' % s, t.a[0]))
            if name == 'status':
                return V(STATUS, '(match %s { StatusOr::Ok(_) => status_ok(), StatusOr::Err(e_) => e_ })' % s)
        if k == 'ext' and self.ext:
            return self.ext.method(self, tr, base, name, n, args, ctx)
        if k == 'opaque' and self.ext:
            return self.ext.method(self, tr, base, name, n, args, ctx, 'opaque:' + t.name)
        if k == 'pair' and name == 'swap':
            pass
        raise Unsupported('method %s of %r' % (name, t), n)

    def real(self, args):
        return [a for a in args if strip(a)['kind'] != 'CXXDefaultArgExpr']

    def str_method(self, tr, base, name, n, args, ctx):
        args = self.real(args)
        p = self.pl(tr, base)
        s = p.load()
        if name.startswith('operator') and 'basic_string' in name or 'string_view' in name or name == 'operator string':
            return V(STR, s)
        if name in ('size', 'length'):
            return self.size(tr, p, n)
        if name == 'empty':
            return V(BOOL, '(%s.len() == 0)' % s)
        if name in ('c_str', 'data'):
            return BufPtr(p, '0')
        if name == 'clear':
            p.store(tr, 'Seq::<u8>::empty()')
            return V(VOID, '()')
        if name in ('push_back',):
            c = tr.evr(args[0], ctx)
            p.store(tr, '%s.push(%s)' % (p.load(), c.s))
            return V(VOID, '()')
        if name == 'pop_back':
            tr.ob('%s.len() > 0' % s, 'pop_back of an empty string', n)
            p.store(tr, '%s.drop_last()' % s)
            return V(VOID, '()')
        if name in ('reserve', 'shrink_to_fit'):
            for a in args:
                tr.evr(a, ctx)
            return V(VOID, '()')
        if name == 'capacity':
            return V(U64, '(%s as int)' % tr.havoc('u64'))
        if name in ('back', 'front'):
            tr.ob('%s.len() > 0' % s, '%s of an empty string' % name, n)
            return LV(IndexP(p, '(%s.len() - 1)' % s if name == 'back' else '0', CHAR))
        if name == 'at':
            i = tr.evr(args[0], ctx)
            tr.ob('%s < %s.len()' % (i.s, s), 'at() in range', n)
            return LV(IndexP(p, i.s, CHAR))
        if name == 'resize':
            c = tr.evr(args[0], ctx)
            tr.ob('%s <= max_size()' % c.s, 'resize length', n)
            if len(args) > 1:
                ch = tr.evr(args[1], ctx)
                p.store(tr, 'vec_resize(%s, %s, %s)' % (p.load(), c.s, ch.s))
            else:
                p.store(tr, 'str_resize(%s, %s)' % (p.load(), c.s))
            return V(VOID, '()')
        if name in ('begin', 'end', 'cbegin', 'cend'):
            return self.begin_end(tr, base, name.lstrip('c'), n)
        if name in ('find', 'find_first_of', 'rfind', 'find_last_of'):
            vals = tr.ev_list(args, ctx, tr.evr)
            c = vals[0]
            if c.t.k == 'str':
                m = re.match(r'^seq!\[(\d+u8)\]$', c.s)
                if not m:
                    raise Unsupported('%s with a string' % name, n)
                c = V(CHAR, m.group(1))
            self.use(tr, 'size() <= max_size()')
            tr.emit('proof { assume(%s.len() <= max_size()); }' % s)
            lit = tr.lits.get(s) or (s.count(',') + 1 if re.match(r'^seq!\[[\du, ]*\]$', s) else 0)
            if 0 < lit <= 64:
                tr.emit('proof { reveal_with_fuel(find_from, %d); reveal_with_fuel(rfind_to, %d); }' % (lit + 2, lit + 2))
            if name in ('find', 'find_first_of'):
                return V(U64, 'str_find(%s, %s, %s)' % (s, c.s, vals[1].s if len(vals) > 1 else '0'))
            if len(vals) > 1 and vals[1].s not in ('0xffff_ffff_ffff_ffff', 'npos()'):
                return V(U64, 'as_pos(rfind_to(%s, %s, imin(%s + 1, %s.len() as int)))' % (s, c.s, vals[1].s, s))
            return V(U64, 'str_rfind(%s, %s)' % (s, c.s))
        if name == 'substr':
            vals = tr.ev_list(args, ctx, tr.evr)
            pos = vals[0].s if vals else '0'
            tr.ob('%s <= %s.len()' % (pos, s), 'substr position in range', n)
            return V(STR, 'str_substr(%s, %s, %s)' % (s, pos, vals[1].s if len(vals) > 1 else 'npos()'))
        if name in ('append', 'assign'):
            vals = tr.ev_list(args, ctx)
            vals = [tr.rv(v) for v in vals]
            old = p.load() if name == 'append' else 'Seq::<u8>::empty()'
            if len(vals) == 1:
                p.store(tr, '%s + %s' % (old, self.as_str(tr, vals[0], n)))
                return LV(p)
            if len(vals) == 2 and isinstance(vals[0], V) and vals[0].t.k == 'int':
                p.store(tr, '%s + Seq::new((%s) as nat, |i_: int| %s)' % (old, vals[0].s, vals[1].s))
                return LV(p)
            if len(vals) == 2 and isinstance(vals[0], Iter):
                r = self.range_val(tr, STR, vals[0], vals[1], n)
                p.store(tr, '%s + %s' % (old, r.s))
                return LV(p)
            if len(vals) == 2 and isinstance(vals[0], BufPtr):
                b = vals[0]
                c = vals[1].s if vals[1].t.k == 'int' else sub(vals[1].off, b.off)
                tr.ob('0 <= %s && 0 <= %s && %s + %s <= %s.len()' % (b.off, c, b.off, c, b.base.load()), 'buffer access in range', n)
                p.store(tr, '%s + %s.subrange(%s, %s)' % (old, b.base.load(), b.off, add(b.off, c)))
                return LV(p)
            if len(vals) == 3 and isinstance(vals[0], V) and vals[0].t.k == 'str':
                tr.ob('%s <= %s.len()' % (vals[1].s, vals[0].s), 'append position in range', n)
                p.store(tr, '%s + str_substr(%s, %s, %s)' % (old, vals[0].s, vals[1].s, vals[2].s))
                return LV(p)
        if name == 'erase':
            vals = [tr.rv(v) for v in tr.ev_list(args, ctx)]
            if vals and isinstance(vals[0], V):
                pos = vals[0].s
                tr.ob('%s <= %s.len()' % (pos, s), 'erase position in range', n)
                cnt = vals[1].s if len(vals) > 1 else 'npos()'
                p.store(tr, '%s.subrange(0, %s) + %s.subrange(imin(%s + %s, %s.len() as int), %s.len() as int)' % (s, pos, s, pos, cnt, s, s))
                return LV(p)
        if name == 'remove_prefix':
            c = tr.evr(args[0], ctx)
            tr.ob('%s <= %s.len()' % (c.s, s), 'remove_prefix in range', n)
            p.store(tr, '%s.subrange(%s, %s.len() as int)' % (s, c.s, s))
            return V(VOID, '()')
        if name == 'remove_suffix':
            c = tr.evr(args[0], ctx)
            tr.ob('%s <= %s.len()' % (c.s, s), 'remove_suffix in range', n)
            p.store(tr, '%s.subrange(0, %s.len() - %s)' % (s, s, c.s))
            return V(VOID, '()')
        if name == 'compare' and len(args) == 1:
            x = self.as_str(tr, tr.evr(args[0], ctx), n)
            return V(I32, '(if %s == %s { 0int } else if str_lt(%s, %s) { -1int } else { 1int })' % (s, x, s, x))
        if name == 'compare' and len(args) == 3:
            i, c, x = tr.ev_list(args, ctx, tr.evr)
            if i.t.k == 'int' and c.t.k == 'int':
                x = self.as_str(tr, x, n)
                tr.ob('%s <= %s.len()' % (i.s, s), 'compare position in range', n)
                y = tr.let('str_substr(%s, %s, %s)' % (s, i.s, c.s), 'Seq<u8>')
                return V(I32, '(if %s =~= %s { 0int } else if str_lt(%s, %s) { -1int } else { 1int })' % (y, x, y, x))
        if name == 'swap':
            b = tr.ev(args[0], ctx)
            x = tr.let(p.load(), 'Seq<u8>')
            y = tr.let(b.place.load(), 'Seq<u8>')
            p.store(tr, y)
            b.place.store(tr, x)
            return V(VOID, '()')
        raise Unsupported('std::string::%s' % name, n)

    def vec_method(self, tr, base, name, n, args, ctx):
        args = self.real(args)
        p = self.pl(tr, base)
        s = p.load()
        et = p.t.a[0]
        if name == 'size':
            return self.size(tr, p, n)
        if name == 'empty':
            return V(BOOL, '(%s.len() == 0)' % s)
        if name == 'clear':
            p.store(tr, 'Seq::<%s>::empty()' % vtype(et))
            return V(VOID, '()')
        if name in ('reserve', 'shrink_to_fit'):
            for a in args:
                tr.evr(a, ctx)
            return V(VOID, '()')
        if name in ('push_back', 'emplace_back', 'emplace', 'push', 'Add'):
            v = self.new_elem(tr, et, args, n, ctx)
            p.store(tr, '%s.push(%s)' % (p.load(), raw(v)))
            if name == 'emplace_back':
                return LV(IndexP(p, '(%s.len() - 1)' % p.load(), et))
            return V(VOID, '()')
        if name in ('push_front', 'emplace_front'):
            v = self.new_elem(tr, et, args, n, ctx)
            p.store(tr, 'seq![%s] + %s' % (raw(v), p.load()))
            return V(VOID, '()')
        if name in ('pop_back', 'pop', 'RemoveLast'):
            tr.ob('%s.len() > 0' % s, 'pop_back of an empty vector', n)
            p.store(tr, '%s.drop_last()' % s)
            return V(VOID, '()')
        if name == 'pop_front':
            tr.ob('%s.len() > 0' % s, 'pop_front of an empty container', n)
            p.store(tr, '%s.drop_first()' % s)
            return V(VOID, '()')
        if name in ('back', 'front', 'top'):
            tr.ob('%s.len() > 0' % s, '%s of an empty vector' % name, n)
            return LV(IndexP(p, '(%s.len() - 1)' % s if name in ('back', 'top') else '0', et))
        if name in ('at', 'Get'):
            i = tr.evr(args[0], ctx)
            tr.ob('0 <= %s < %s.len()' % (i.s, s), 'at() in range', n)
            return LV(IndexP(p, i.s, et))
        if name in ('begin', 'end', 'cbegin', 'cend'):
            return self.begin_end(tr, base, name.lstrip('c'), n)
        if name == 'resize':
            c = tr.evr(args[0], ctx)
            tr.ob('%s <= max_size()' % c.s, 'resize length', n)
            d = raw(tr.coerce(tr.evr(args[1], ctx), et, n)) if len(args) > 1 else tr.default_value(et)
            p.store(tr, 'vec_resize(%s, %s, %s)' % (p.load(), c.s, d))
            return V(VOID, '()')
        if name == 'erase':
            vals = [tr.rv(v) for v in tr.ev_list(args, ctx)]
            if all(isinstance(v, Iter) for v in vals):
                a = vals[0].idx
                b = vals[1].idx if len(vals) > 1 else add(a, '1')
                tr.ob('0 <= %s <= %s <= %s.len()' % (a, b, s), 'erase range', n)
                at = tr.let(a, 'int') if not isnum(a) else a
                p.store(tr, '%s.subrange(0, %s) + %s.subrange(%s, %s.len() as int)' % (s, a, s, b, s))
                return Iter(p, at)
        if name == 'assign' and len(args) == 2:
            vals = [tr.rv(v) for v in tr.ev_list(args, ctx)]
            if isinstance(vals[0], Iter):
                r = self.range_val(tr, p.t, vals[0], vals[1], n)
                p.store(tr, r.s)
                return V(VOID, '()')
        if name == 'insert' and len(args) == 3:
            vals = [tr.rv(v) for v in tr.ev_list(args, ctx)]
            if all(isinstance(v, Iter) for v in vals):
                r = self.range_val(tr, p.t, vals[1], vals[2], n)
                at = vals[0].idx
                p.store(tr, '%s.subrange(0, %s) + %s + %s.subrange(%s, %s.len() as int)' % (s, at, r.s, s, at, s))
                return Iter(p, at)
        if name in ('insert', 'emplace') and len(args) == 2:
            vals = tr.ev_list(args, ctx)
            it = tr.rv(vals[0])
            if isinstance(it, Iter):
                v = raw(tr.coerce(tr.val(vals[1]) if isinstance(vals[1], LV) else vals[1], et, n))
                at = tr.let(it.idx, 'int') if not isnum(it.idx) else it.idx
                tr.ob('0 <= %s <= %s.len()' % (at, s), 'insert position', n)
                p.store(tr, '%s.insert(%s, %s)' % (p.load(), at, v))
                return Iter(p, at)
        if name == 'swap' and len(args) == 1:
            b = tr.ev(args[0], ctx)
            x = tr.let(p.load(), vtype(p.t))
            y = tr.let(b.place.load(), vtype(p.t))
            p.store(tr, y)
            b.place.store(tr, x)
            return V(VOID, '()')
        raise Unsupported('std::vector::%s' % name, n)

    def new_elem(self, tr, et, args, n, ctx):
        if not args:
            return V(et, lift(tr.default_value(et), et))
        vals = tr.ev_list(args, ctx)
        if len(vals) == 1:
            return tr.coerce(tr.val(vals[0]) if isinstance(vals[0], LV) else vals[0], et, n)
        if et.k == 'pair':
            return V(et, '(%s, %s)' % (raw(tr.coerce(tr.val(vals[0]), et.a[0], n)), raw(tr.coerce(tr.val(vals[1]), et.a[1], n))))
        if et.k == 'rec':
            q, fl = tr.fields_of(et)
            cands = [f for f in tr.prog.fns.get(q + '::' + q.split('::')[-1], []) if f.kind == 'CXXConstructorDecl' and not f.node.get('isImplicit') and len(f.params) == len(vals)]
            if cands:
                return tr.construct_user(et, cands[0], vals, n, ctx)
            return tr.coerce(InitList([tr.val(v) for v in vals], et), et, n)
        raise Unsupported('emplace of %r' % et, n)

    def key(self, tr, kt, x, n):
        return raw(tr.coerce(tr.val(x) if isinstance(x, LV) else x, kt, n))

    def has(self, p, key):
        s = p.load()
        return '%s.%s(%s)' % (s, 'contains_key' if p.t.k == 'map' else 'contains', key)

    def map_method(self, tr, base, name, n, args, ctx):
        args = self.real(args)
        p = self.pl(tr, base)
        s = p.load()
        ismap = p.t.k == 'map'
        kt = p.t.a[0]
        if name == 'size':
            return self.size(tr, p, n)
        if name == 'empty':
            return V(BOOL, '(%s.is_empty())' % (s + '.dom()' if ismap else s))
        if name == 'clear':
            p.store(tr, 'Map::empty()' if ismap else 'Set::empty()')
            return V(VOID, '()')
        if name in ('begin', 'end', 'cbegin', 'cend'):
            return self.begin_end(tr, base, name.lstrip('c'), n)
        if name in ('find', 'count', 'contains'):
            k = tr.let(self.key(tr, kt, tr.ev(args[0], ctx), n), vtype(kt))
            f = self.has(p, k)
            if name == 'find':
                return MIter(p, k, tr.let(f, 'bool'))
            if name == 'contains':
                return V(BOOL, f)
            return V(U64, '(if %s { 1int } else { 0int })' % f)
        if name == 'at' and ismap:
            k = tr.let(self.key(tr, kt, tr.ev(args[0], ctx), n), vtype(kt))
            tr.ob(self.has(p, k), 'at() of a missing key', n)
            return LV(MapP(p, k, p.t.a[1]))
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            vals = [tr.val(v) if isinstance(v, LV) else v for v in tr.ev_list(args, ctx)]
            if not ismap:
                if len(vals) != 1:
                    raise Unsupported('set insert', n)
                k = tr.let(self.key(tr, kt, vals[0], n), vtype(kt))
                f = tr.let(self.has(p, k), 'bool')
                p.store(tr, '%s.insert(%s)' % (p.load(), k))
                return Tup(MIter(p, k, 'true'), V(BOOL, neg(f)))
            vt = p.t.a[1]
            if len(vals) == 1:
                v = vals[0]
                if isinstance(v, V) and v.t.k == 'pair':
                    pr = tr.let(raw(v), vtype(v.t))
                    k, d = '%s.0' % pr, '%s.1' % pr
                elif isinstance(v, Tup):
                    k, d = self.key(tr, kt, v.e[0], n), self.key(tr, vt, v.e[1], n)
                else:
                    raise Unsupported('map insert', n)
            elif len(vals) == 2:
                k, d = self.key(tr, kt, vals[0], n), self.key(tr, vt, vals[1], n)
            elif len(vals) > 2 and name == 'try_emplace' and vt.k == 'rec':
                k = self.key(tr, kt, vals[0], n)
                q, fl = tr.fields_of(vt)
                cands = [f for f in tr.prog.fns.get(q + '::' + q.split('::')[-1], []) if f.kind == 'CXXConstructorDecl' and not f.node.get('isImplicit') and len(f.params) == len(vals) - 1]
                if not cands:
                    raise Unsupported('try_emplace', n)
                d = raw(tr.construct_user(vt, cands[0], vals[1:], n, ctx))
            elif len(vals) == 1 and name == 'try_emplace':
                k, d = self.key(tr, kt, vals[0], n), tr.default_value(vt)
            else:
                raise Unsupported('map insert', n)
            k = tr.let(k, vtype(kt))
            f = tr.let(self.has(p, k), 'bool')
            if name == 'insert_or_assign':
                p.store(tr, '%s.insert(%s, %s)' % (p.load(), k, d))
            else:
                p.store(tr, '(if %s { %s } else { %s.insert(%s, %s) })' % (f, p.load(), p.load(), k, d))
            return Tup(MIter(p, k, 'true'), V(BOOL, neg(f)))
        if name == 'erase':
            x = tr.ev(args[0], ctx)
            if isinstance(x, MIter):
                tr.ob(x.found, 'erase of end()', n)
                p.store(tr, '%s.remove(%s)' % (p.load(), x.key))
                return V(VOID, '()')
            k = tr.let(self.key(tr, kt, x, n), vtype(kt))
            f = tr.let(self.has(p, k), 'bool')
            p.store(tr, '%s.remove(%s)' % (p.load(), k))
            return V(U64, '(if %s { 1int } else { 0int })' % f)
        raise Unsupported('%s::%s' % (p.t.k, name), n)

    def opt_method(self, tr, base, name, n, args, ctx):
        p = self.pl(tr, base)
        s = p.load()
        el = p.t.a[0]
        if name == 'get':
            return Ptr(OptP(p, el), '(%s is Some)' % s)
        if name in ('operator bool',):
            return V(BOOL, '(%s is Some)' % s)
        if name == 'release':
            v = tr.let(s, vtype(p.t))
            p.store(tr, 'Option::None')
            return Ptr(ConstP('%s->0' % v, el), '(%s is Some)' % v, fresh=True)
        if name == 'reset':
            a = self.real(args)
            if not a:
                p.store(tr, 'Option::None')
                return V(VOID, '()')
            v = tr.evr(a[0], ctx)
            p.store(tr, tr.coerce(v, p.t, n).s)
            return V(VOID, '()')
        if name == 'swap':
            b = tr.ev(args[0], ctx)
            x = tr.let(p.load(), vtype(p.t))
            y = tr.let(b.place.load(), vtype(p.t))
            p.store(tr, y)
            b.place.store(tr, x)
            return V(VOID, '()')
        raise Unsupported('unique_ptr::%s' % name, n)

    # ---------------------------------------------------------------- operators
    def operator(self, tr, op, n, args, ctx):
        if op == '=':
            return self.assign(tr, n, args, ctx)
        if op in ('&&', '||'):
            a = tr.to_bool(tr.evr(args[0], ctx))
            return tr.shortcircuit(a, args[1], op == '&&', ctx)
        if op in ('++', '--'):
            it = tr.ev(args[0], ctx)
            if isinstance(it, Iter):
                post = len(args) > 1
                d = V(I64, '1' if op == '++' else '(-1)')
                old = tr.snapshot_meta(it) if post else it
                new = tr.ptr_add(old, d, n)
                nd = strip_all(args[0])
                if nd['kind'] == 'DeclRefExpr':
                    tr.meta_assign(nd, new, ctx)
                    return old if post else tr.ev(args[0], ctx)
                return old if post else new
            raise Unsupported('%s on %r' % (op, it), n)
        vals = tr.ev_list(args, ctx)
        a = vals[0]
        if op == '*' and len(vals) == 1:
            if isinstance(a, Iter):
                return tr.iter_deref(a, n)
            if isinstance(a, MIter):
                tr.ob(a.found, 'dereference of end()', n)
                if a.m.t.k == 'set':
                    return LV(ConstP(a.key, a.m.t.a[0]))
                return Tup(LV(ConstP(a.key, a.m.t.a[0])), LV(MapP(a.m, a.key, a.m.t.a[1])))
            if isinstance(a, (LV, V)) and a.t.k == 'opt':
                p = self.pl(tr, a)
                tr.ob('%s is Some' % p.load(), 'null dereference', n)
                return LV(OptP(p, p.t.a[0]))
            if isinstance(a, (LV, V)) and a.t.k == 'statusor':
                s = tr.rv(a).s
                tr.ob('%s is Ok' % s, 'value of a failed StatusOr', n)
                return V(a.t.a[0], lift('%s->Ok_0' % s, a.t.a[0]))
        if op == '->':
            if isinstance(a, (LV, V)) and a.t.k == 'opt':
                p = self.pl(tr, a)
                return Ptr(OptP(p, p.t.a[0]), '(%s is Some)' % p.load())
            if isinstance(a, MIter):
                return a
            if isinstance(a, Iter):
                return Ptr(tr.iter_deref(a, n).place, 'true')
        if op == '[]':
            i = tr.rv(vals[1]) if isinstance(vals[1], LV) else vals[1]
            if isinstance(a, Iter):
                return tr.iter_deref(tr.ptr_add(a, i, n), n)
            p = self.pl(tr, a)
            if p.t.k == 'str':
                # operator[](size()) yields the terminating NUL for std::string
                if 'string_view' not in str(strip_all(args[0]).get('type', {}).get('desugaredQualType', strip_all(args[0]).get('type', {}).get('qualType', ''))):
                    tr.ob('0 <= %s <= %s.len()' % (i.s, p.load()), 'string index in range', n)
                    if isinstance(a, LV):
                        return LV(StrIndexP(p, i.s, CHAR))
                    return V(CHAR, '(if %s == %s.len() { 0u8 } else { %s[%s] })' % (i.s, p.load(), p.load(), i.s))
                tr.ob('0 <= %s < %s.len()' % (i.s, p.load()), 'string index in range', n)
                return LV(IndexP(p, i.s, CHAR))
            if p.t.k == 'vec':
                tr.ob('0 <= %s < %s.len()' % (i.s, p.load()), 'vector index in range', n)
                return LV(IndexP(p, i.s, p.t.a[0]))
            if p.t.k == 'map':
                k = tr.let(self.key(tr, p.t.a[0], vals[1], n), vtype(p.t.a[0]))
                p.store(tr, '(if %s { %s } else { %s.insert(%s, %s) })' % (self.has(p, k), p.load(), p.load(), k, tr.default_value(p.t.a[1])))
                return LV(MapP(p, k, p.t.a[1]))
        if op in ('==', '!=', '<', '>', '<=', '>='):
            b = vals[1]
            ra, rb = tr.rv(a), tr.rv(b)
            if is_meta(ra) or is_meta(rb):
                return tr.ptr_binop(op, ra, rb, n)
            for x, y in ((ra, rb), (rb, ra)):
                if y.t.k == 'nullptr' or (isinstance(y, Ptr) and y.place is None):
                    if x.t.k == 'opt':
                        return V(BOOL, '(%s is %s)' % (x.s, 'None' if op == '==' else 'Some'))
            if op in ('==', '!=') and ra.t.k in ('str', 'vec', 'map', 'set', 'status', 'pair') and rb.t.k == ra.t.k:
                e = '(%s =~= %s)' % (ra.s, rb.s) if ra.t.k in ('str', 'vec', 'map', 'set') else '(%s == %s)' % (ra.s, rb.s)
                if ra.t.k == 'str':
                    e = str_eq(ra.s, rb.s)
                return V(BOOL, e if op == '==' else '(!%s)' % e)
            if ra.t.k == 'str' and rb.t.k == 'str':
                f = {'<': 'str_lt({a}, {b})', '>': 'str_lt({b}, {a})', '<=': '!str_lt({b}, {a})', '>=': '!str_lt({a}, {b})'}[op]
                return V(BOOL, '(%s)' % f.format(a=ra.s, b=rb.s))
            return tr.compare(op, ra, rb, n)
        if op in ('+', '-') and len(vals) == 2:
            ra, rb = tr.rv(a), tr.rv(vals[1])
            if is_meta(ra) or is_meta(rb):
                return tr.ptr_binop(op, ra, rb, n)
            if op == '+':
                return V(STR, '(%s + %s)' % (self.as_str(tr, ra, n), self.as_str(tr, rb, n)))
        if op in ('+=', '-='):
            if isinstance(a, Iter):
                d = tr.rv(vals[1])
                if op == '-=':
                    d = V(I64, sub('0', d.s))
                new = tr.ptr_add(a, d, n)
                tr.meta_assign(strip_all(args[0]), new, ctx)
                return tr.ev(args[0], ctx)
            if isinstance(a, LV) and a.t.k == 'str' and op == '+=':
                a.place.store(tr, '%s + %s' % (a.place.load(), self.as_str(tr, tr.rv(vals[1]), n)))
                return a
        if op == '!' and len(vals) == 1:
            return V(BOOL, neg(tr.to_bool(tr.rv(a)).s))
        if self.ext:
            r = self.ext.operator(self, tr, op, n, vals, args, ctx)
            if r is not None:
                return r
        raise Unsupported('operator %s on %r' % (op, [getattr(v, 't', v) for v in vals]), n)

    def assign(self, tr, n, args, ctx):
        nd = strip_all(args[0])
        if nd['kind'] == 'DeclRefExpr' and nd['referencedDecl']['id'] in ctx.env and is_meta(ctx.env[nd['referencedDecl']['id']]):
            rhs = tr.ev(args[1], ctx)
            tr.meta_assign(nd, tr.rv(rhs), ctx)
            return tr.ev(args[0], ctx)
        rhs = tr.ev(args[1], ctx)
        # move assignment leaves the source moved-from only for std::move'd sources
        v = tr.val(rhs) if isinstance(rhs, LV) else rhs
        lhs = tr.ev(args[0], ctx)
        if isinstance(lhs, Iter):
            raise Unsupported('iterator assignment', n)
        if not isinstance(lhs, LV):
            raise Unsupported('assignment to %r' % lhs, n)
        t = lhs.t
        if isinstance(v, V) and v.t.k == 'splitter':
            v = V(t, v.s)
        if t.k == 'str' and isinstance(v, V) and v.t.k == 'char':
            v = V(STR, 'seq![%s]' % v.s)
        if t.k == 'opt' and (isinstance(v, V) and v.t.k == 'nullptr'):
            v = V(t, 'Option::None')
        v = tr.coerce(v, t, n)
        lhs.place.store(tr, raw(v))
        return lhs

    def range_ext(self, tr, r, var, body, n, ctx, k):
        if self.ext:
            return self.ext.range_for(self, tr, r, var, body, n, ctx, k)
        raise Unsupported('range-for over %r' % r.t, n)


class StrIndexP(IndexP):
    """s[i] with i <= size(): the terminator is readable, not writable"""
    def load(self):
        p = self.parent.load()
        return '(if %s < %s.len() { %s[%s] } else { 0u8 })' % (self.idx, p, p, self.idx)

    def store(self, tr, val):
        tr.ob('%s < %s.len()' % (self.idx, self.parent.load()), 'write to string element in range', None)
        super_load = '%s.update(%s, %s)' % (self.parent.load(), self.idx, val)
        self.parent.store(tr, super_load)


def litlen(s):
    m = re.match(r'^seq!\[(.*)\]$', s)
    if m:
        return m.group(1).split(', ')
    if s == 'Seq::<u8>::empty()':
        return []
    return None


def str_eq(a, b):
    """equality with a literal, element by element"""
    for x, y in ((a, b), (b, a)):
        e = litlen(y)
        if e is not None:
            if litlen(x) is not None:
                return 'true' if litlen(x) == e else 'false'
            return '(%s =~= %s)' % (x, y)
    return '(%s =~= %s)' % (a, b)
