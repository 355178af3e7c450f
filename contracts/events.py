"""Model of google::protobuf::util::converter::ObjectWriter: the sequence of events it has been sent."""
from ct import T, BOOL, I32, U32, I64, U64, F64, F32, STR
from tr import V, LV, Ptr, raw
from cxx import Unsupported
TUS = []
IMPORTS = []
SPECS = ['events']
W = 'Writer'
CFG = {'ext_types': {'ObjectWriter': W}, 'ptr_by_value': [W]}
PIECES = {'RenderBool': ('Bool', BOOL), 'RenderInt32': ('I32', I32), 'RenderUint32': ('U32', U32), 'RenderInt64': ('I64', I64), 'RenderUint64': ('U64', U64),
          'RenderDouble': ('Double', F64), 'RenderFloat': ('Float', F32), 'RenderString': ('Text', STR), 'RenderBytes': ('Bytes', STR)}


def event(lib, tr, name, n, args, ctx):
    """the event term of a call of an ObjectWriter method, or None"""
    args = lib.real(args)
    if name in ('EndObject', 'EndList'):
        return 'Evt::' + name
    if name in ('StartObject', 'StartList', 'RenderNull') or name in PIECES:
        vals = tr.ev_list(args, ctx, tr.evr)
        nm = lib.as_str(tr, vals[0], n)
        if name == 'RenderNull':
            return 'Evt::Value(%s, Piece::Null)' % nm
        if name in PIECES:
            c, t = PIECES[name]
            return 'Evt::Value(%s, Piece::%s(%s))' % (nm, c, raw(tr.coerce(vals[1], t, n)))
        return 'Evt::%s(%s)' % (name, nm)
    return None


class Writers:
    NAMES = (W,)

    def construct(self, lib, tr, t, n, vals, ctx):
        raise Unsupported('construction of an ObjectWriter', n)

    def method(self, lib, tr, base, name, n, args, ctx):
        e = event(lib, tr, name, n, args, ctx)
        if e is None or not isinstance(base, LV):
            raise Unsupported('ObjectWriter method ' + name, n)
        e = tr.let(e, 'Evt')
        p = base.place
        p.store(tr, 'Writer { log: %s.log.push(%s) }' % (p.load(), e))
        return Ptr(p)


EXT = Writers()
CONTRACTS = {}
