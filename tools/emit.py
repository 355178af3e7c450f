"""Function under contract -> Verus proof obligation (one exec function per C++ function).

The text of the function comes from /repo's AST (tr.py); requires/ensures/loop invariants/lemma calls come from
contracts/*.py.  Loop invariants are templates instantiated over the variables in scope (typed metavariables $x:kind),
so they follow renamed variables and rewritten loops; candidates that do not hold are dropped (run.py), which is sound
because every invariant kept is checked by the verifier and every ensures stays an obligation.
"""
import itertools, re
from cxx import Unsupported
import ct
from ct import T, BOOL, STR, VOID, unref, vtype
import tr as trm
from tr import (V, LV, Ptr, BufPtr, Iter, MIter, Tup, Lam, Stream, Root, ConstP, RecPlace, IsolatedP, FieldP, IndexP, raw, lift, is_meta, Ctx, vfn,
                Translator, walk)

MAXINST = 600
TOK = re.compile(r'(?<![\w.$])@?self\.[A-Za-z_]\w*|(?<![\w.$@])@?[A-Za-z_]\w*')


class Code:
    """result of translating one function"""
    def __init__(self, key):
        self.key = key
        self.lines = []      # (text, tag)
        self.unsupported = None
        self.structs = []
        self.used = {}
        self.inlined = set()
        self.lib_used = set()
        self.nloops = 0
        self.cands = {}


class FnEmitter(Translator):
    def __init__(self, prog, contracts, lib, cfg, keep=None, drop=None, measures=None, trial=None):
        super().__init__(prog, contracts, lib, cfg)
        self.measures = measures or {}      # {loop: term that must decrease}
        self.trial = trial                  # {loop: [terms]}: which of them decrease?
        self.keep = keep      # None: all candidates; else set of candidate texts to keep
        self.drop = drop or set()
        self.guard = self.has_flags = False
        self.guard_rt = 'void'

    def reset(self):
        self.out, self.ind, self.memo, self.stack, self.scope, self.loopn = [], 1, {}, [], [], 0
        self.hoist_k, self.late_ptr, self.ctx_this, self.n = None, set(), None, 0
        self.frames = []
        self.winbase = {}
        self.lits = {}
        self.tree_base = None
        self.msites = {}

    # ------------------------------------------------------------ signature
    def signature(self, key, fn):
        """(inputs [(name, vtype)], outputs [(vtype)], premap, postmap)"""
        c = self.contracts[key]
        plan = self.param_plan(fn, c)
        rt = self.ret_type(fn, c)
        tt, fl = self.this_fields(fn)
        ctor = fn.kind == 'CXXConstructorDecl'
        ins, outs, pre, post = [], [], {}, {}

        def L(s, t):
            return lift(s, t)
        if tt is not None and not ctor:
            for nm, al, ft in fl:
                ins.append(('self_' + al, vtype(ft)))
                pre['self.' + al] = L('self_' + al, ft)
                post['@self.' + al] = L('self_' + al, ft)
        olist = []
        for al, kind, t in plan:
            vt = vtype(t)
            if kind == 'val':
                ins.append(('p_' + al, vt))
                pre[al] = L('p_' + al, t)
                post['@' + al] = pre[al]
            elif kind == 'inout':
                ins.append(('p_' + al, vt))
                pre[al] = L('p_' + al, t)
                olist.append((al, t))
            elif kind in ('ptr', 'cptr'):
                ins.append(('p_%s_nn' % al, 'bool'))
                ins.append(('p_' + al, vt))
                pre[al] = L('p_' + al, t)
                pre[al + '_nn'] = 'p_%s_nn' % al
                if kind == 'ptr':
                    olist.append((al, t))
                else:
                    post['@' + al] = pre[al]
            elif kind in ('buf', 'cbuf'):
                ins.append(('p_' + al, vt))
                ins.append(('p_%s_off' % al, 'int'))
                pre[al] = 'p_' + al
                pre[al + '_off'] = 'p_%s_off' % al
                if kind == 'buf':
                    olist.append((al, t))
                else:
                    post['@' + al] = pre[al]
        comps = []
        if rt is not None and rt.k not in ('void', 'self'):
            comps.append(('r', rt))
        if tt is not None:
            for al in self.mod_fields(fn, c):
                ft = [f[2] for f in fl if f[1] == al][0]
                comps.append(('@self.' + al, ft))
        for al, t in olist:
            comps.append(('@' + al, t))
        for i, (nm, t) in enumerate(comps):
            post[nm] = L('r_@' if len(comps) == 1 else 'r_@.%d' % i, t)
            outs.append(vtype(t))
        gh = dict(c.get('ghost', {}))
        for g, ty in gh.items():
            ins.append(('g_' + g, ty))
            pre[g] = 'g_' + g
        return plan, rt, tt, fl, ins, comps, outs, pre, post

    @staticmethod
    def subst(s, *maps):
        def f(m):
            w = m.group(0)
            for mp in maps:
                if w in mp:
                    return mp[w]
            if w.startswith('@'):
                raise Unsupported('contract token %s unknown' % w)
            if w.startswith('self.'):
                raise Unsupported('contract token %s unknown' % w)
            return w
        return TOK.sub(f, s)

    def head(self, name, key, fn, extra_ensures=(), tagbase=None):
        c = self.contracts[key]
        plan, rt, tt, fl, ins, comps, outs, pre, post = self.signature(key, fn)
        ty = outs[0] if len(outs) == 1 else '(%s)' % ', '.join(outs)
        lines = []
        lines.append(('pub fn %s(%s) -> (r_: Ghost<%s>)' % (name, ', '.join('Ghost(%s): Ghost<%s>' % i for i in ins), ty), None))
        req = list(c.get('requires', []))
        lines.append(('    requires', None))
        lines.append(('        true,', None))
        for nm, e in req:
            lines.append(('        (%s),' % self.subst(e, pre), dict(kind='requires', name=nm, key=key)))
        lines.append(('    ensures', None))
        lines.append(('        true,', None))
        for nm, e in list(c.get('ensures', [])) + list(extra_ensures):
            lines.append(('        (%s),' % self.subst(e, post, pre), dict(kind='ensures', name=nm, key=key)))
        return lines

    def stub(self, key, fn):
        return [('#[verifier::external_body]', None)] + self.head(vfn(key), key, fn) + [('{ unimplemented!() }', None)]

    # ------------------------------------------------------------ body
    def translate(self, key, fn, variant=''):
        """returns Code"""
        self.reset()
        c = self.contracts[key]
        self.curkey, self.curfn = key, fn.sig
        self.contract = c
        plan, rt, tt, fl, ins, comps, outs, pre, post = self.signature(key, fn)
        self.pre = pre
        self.guard_rt = 'void' if rt is None or rt.k == 'void' else vtype(rt) if rt.k == 'int' else rt.k
        code = Code(key)
        self.code = code
        this = None
        self.curmap = {}
        fields = {}
        ctor = fn.kind == 'CXXConstructorDecl'
        if tt is not None:
            for nm, al, ft in fl:
                if ctor:
                    v = self.decl('m_' + al, vtype(ft))
                    if ft.k == 'arr':
                        self.emit('proof { assume(%s.len() == %s); }' % (v, ft.name))
                else:
                    v = self.decl('m_' + al, vtype(ft), 'self_' + al)
                    if ft.k == 'arr':
                        self.emit('proof { assume(%s.len() == %s); }' % (v, ft.name))
                fields[al] = Root(v, ft)
                if al in c.get('isolated', ()):
                    fields[al] = IsolatedP(al, ft)
                    continue
                self.curmap['@self.' + al] = lift(v, ft)
            this = fields['obj'] if tt.k == 'ext' else RecPlace(tt, fields)
            tc = self.cfg.get('tree')
            if tc and tt.k != 'ext':
                q = self.fields_of(tt)[0]
                b = this if tt.name == tc['rec'] else fields.get(tc['roots'].get(q))
                self.tree_base = None if isinstance(b, IsolatedP) else b
        env = {}
        ctx = Ctx(fn, env, this, None)
        self.top, self.ctx_this = ctx, this
        outplaces = []
        for (al, kind, t), p in zip(plan, fn.params):
            if kind == 'val':
                if t.k in ('ext', 'id', 'opaque') or unref(self.type_of(p['type'], ctx)).const or self.type_of(p['type'], ctx).k == 'ref' or \
                        (self.type_of(p['type'], ctx).k != 'rref' and not self.is_touched(p['id'], fn.body)):
                    b = LV(ConstP('p_' + al, t))
                    self.curmap['@' + al] = lift('p_' + al, t)
                    if t.k == 'iter':
                        b = Iter(ConstP('p_%s.s' % al, T('vec', t.a)), 'p_%s.i' % al)
                else:
                    if t.k == 'iter':
                        v = self.decl(al, 'int', 'p_%s.i' % al)
                        b = Iter(ConstP('p_%s.s' % al, T('vec', t.a)), v)
                    elif t.k == 'rec':
                        b = LV(self.new_rec_from(t, al, V(t, 'p_' + al)))
                    else:
                        v = self.decl(al, vtype(t), 'p_' + al)
                        b = LV(Root(v, t))
                        self.curmap['@' + al] = lift(v, t)
                env[p['id']] = b
                self.scope_add(p.get('name') or al, b)
            elif kind == 'inout':
                v = self.decl('m_' + al, vtype(t), 'p_' + al)
                b = LV(Root(v, t))
                env[p['id']] = Ptr(b.place, 'true') if t.k == 'region' else b
                outplaces.append((al, b.place))
                self.curmap['@' + al] = lift(v, t)
                self.scope_add(p.get('name') or al, b)
            elif kind in ('ptr', 'cptr'):
                if kind == 'ptr':
                    v = self.decl('m_' + al, vtype(t), 'p_' + al)
                    place = Root(v, t)
                    outplaces.append((al, place))
                else:
                    place = ConstP('p_' + al, t)
                    v = 'p_' + al
                env[p['id']] = Ptr(place, 'p_%s_nn' % al)
                self.curmap['@' + al] = lift(v, t)
                self.scope_add('*' + al, LV(place))
            else:
                if kind == 'buf':
                    v = self.decl('m_' + al, vtype(t), 'p_' + al)
                    place = Root(v, t)
                    outplaces.append((al, place))
                else:
                    v = 'p_' + al
                    place = ConstP(v, t)
                b = BufPtr(place, 'p_%s_off' % al)
                if self.is_assigned(p['id'], fn.body):
                    b = self.bind_meta(al, b)
                env[p['id']] = b
                self.curmap['@' + al] = v
                self.scope_add(p.get('name') or al, b)
        self.fieldscope = [('this->' + al, LV(pl)) for al, pl in fields.items() if not isinstance(pl, IsolatedP)]
        self.out_i = list(comps)

        frame = []
        if tt is not None and not ctor:
            mods = self.mod_fields(fn, c)
            frame = [(al, fields[al]) for nm, al, ft in fl if al not in mods and not isinstance(fields[al], IsolatedP)]
        rets = []

        def ret(v):
            res = None
            if rt is not None and rt.k == 'self':
                x = self.rv(v) if isinstance(v, LV) else v
                if not (isinstance(x, Ptr) and x.place is not None and x.place.shape() == this.shape()):
                    raise Unsupported('%s does not return this' % fn.qual)
            elif rt is not None and rt.k != 'void':
                x = self.val(v) if isinstance(v, LV) else v
                x = self.coerce(x, rt)
                res = self.let(raw(x), vtype(rt))
            self.hints('exit', self.scope, dict(r=lift(res, rt) if res else '()'))
            for al, pl in frame:
                self.emit('assert(%s =~= self_%s);' % (pl.load(), al) if vtype(pl.t).startswith(('Seq', 'Map', 'Set')) else
                          'assert(%s == self_%s);' % (pl.load(), al),
                          dict(kind='frame', text='field %s unchanged' % al, fn=self.curfn, var=pl.var, loc=('', 0)))
            terms = []
            if res is not None:
                terms.append(res)
            if tt is not None:
                for al in self.mod_fields(fn, c):
                    terms.append(fields[al].load())
            for al, pl in outplaces:
                terms.append(pl.load())
            self.emit('return Ghost(%s);' % (terms[0] if len(terms) == 1 else '(%s)' % ', '.join(terms)), dict(kind='return', fn=self.curfn))
        ctx.ret = ret
        self.hints('entry', self.scope, {})
        self.stack = [fn.qual + str(len(fn.params))]
        if ctor:
            self.ctor_inits(fn, this, ctx)
        self.exec_stmt(fn.body, ctx, lambda: ret(None))
        # drop frame assertions of fields that are never assigned
        text = '\n'.join(l for l, _ in self.out)
        self.fill_measures(code)
        out = []
        for l, tag in self.out:
            if tag and tag.get('kind') == 'frame' and not re.search(r'\b%s = ' % tag['var'], text.replace('let ghost mut %s: ' % tag['var'], '')):
                continue
            out.append((l, tag))
        name = 'v_' + vfn(key)[2:] + variant
        rl = c.get('rlimit')
        code.lines = [('#[verifier::exec_allows_no_decreases_clause]', None), ('#[verifier::loop_isolation(false)]', None)] + \
            ([('#[verifier::rlimit(%d)]' % rl, None)] if rl else []) + \
            self.head(name, key, fn, [('vacuous', 'false')] if variant == '_vac' else ()) + [('{', None)] + out + [('}', None)]
        code.used = dict(self.used_contracts)
        code.inlined = set(self.inlined)
        code.lib_used = set(self.lib_used)
        code.nloops = self.loopn
        code.name = name
        return code

    def is_touched(self, did, body):
        """is a by-value parameter possibly changed (assigned, moved from, non-const method called on it, bound to a non-const reference)?"""
        if body is None:
            return True
        for x in walk(body):
            if x['kind'] == 'DeclRefExpr' and x.get('referencedDecl', {}).get('id') == did:
                pass
        # conservative: used other than as an lvalue-to-rvalue load
        def scan(n, loaded):
            if not isinstance(n, dict) or 'kind' not in n:
                return False
            if n['kind'] == 'DeclRefExpr' and n.get('referencedDecl', {}).get('id') == did:
                return not loaded
            ld = n['kind'] == 'ImplicitCastExpr' and n.get('castKind') in ('LValueToRValue',)
            nc = n['kind'] == 'ImplicitCastExpr' and n.get('castKind') == 'NoOp' and n['type']['qualType'].startswith('const ')
            if n['kind'] in trm.SKIP:
                ld = loaded
            return any(scan(c, ld or nc) for c in n.get('inner', []))
        return scan(body, False)

    # ------------------------------------------------------------ termination
    def measure_site(self, lid, scope, n):
        tmpls = list(self.contract.get('measures', [])) + [t for fr in self.frames if fr is not None for t in fr[0].get('measures', [])]
        own = []
        for t in self.contract.get('measures', []):
            own += self.instantiate(t, scope)
        for fr in self.frames:
            if fr is not None:
                for t in fr[0].get('measures', []):
                    own += self.instantiate(t, scope, None, fr[1])
        self.msites[lid] = (own, self.scope_vars(scope))
        self.emit('', dict(kind='note', lid=lid, site='head'))

    def fill_measures(self, code):
        """loop heads remember the measure, every way back to the head must have made it smaller"""
        heads = {}
        for i, (l, tag) in enumerate(self.out):
            if tag and tag.get('site') == 'head':
                heads[tag['lid']] = i
        ends = {}
        for i, (l, tag) in enumerate(self.out):
            if tag and tag.get('site') == 'again':
                ends[tag['lid']] = i
        code.measures, code.looplocs = {}, {tag['lid']: tag['loc'] for _, tag in self.out if tag and tag.get('site') == 'again'}
        for lid, i in heads.items():
            if lid not in ends:
                continue
            code.measures[lid] = self.measure_candidates(lid, i, ends[lid])
        out = []
        for l, tag in self.out:
            site = tag.get('site') if tag else None
            if site is None:
                out.append((l, tag))
                continue
            lid = tag['lid']
            if lid not in code.measures:
                continue
            if self.trial is not None:
                for j, m in enumerate(self.trial.get(lid, ())):
                    if site == 'head':
                        out.append(('let ghost dec%d_%d: int = %s;' % (lid, j, m), None))
                    else:
                        out.append(('if tst(Ghost(choice(%d, %d))) { assert(0 <= dec%d_%d && (%s) < dec%d_%d); }' % (lid, j, lid, j, m, lid, j), dict(tag, measure=m)))
            elif self.measures.get(lid) in code.measures[lid]:
                m = self.measures[lid]
                if site == 'head':
                    out.append(('let ghost dec%d: int = %s;' % (lid, m), None))
                else:
                    out.append(('assert(0 <= dec%d && (%s) < dec%d);' % (lid, m, lid), tag))
        self.out = out

    @staticmethod
    def comparisons(text):
        """(left, operator, right) of the comparisons in a condition"""
        for m in re.finditer(r' (<=|>=|<|>|!=) ', text):
            a = b = None
            d, k = 0, m.start()
            while k > 0:
                c = text[k - 1]
                d += (c in ')]') - (c in '([')
                if d < 0 or (d == 0 and (text[:k].endswith((' && ', ' || ', '==> ', ' < ', ' <= ', ' == ')) or c == '!')):
                    break
                k -= 1
            a = text[k:m.start()].strip()
            d, k = 0, m.end()
            while k < len(text):
                c = text[k]
                d += (c in '([') - (c in ')]')
                if d < 0 or (d == 0 and text[k:].startswith((' && ', ' || ', ' ==>', ' < ', ' <= ', ' == '))):
                    break
                k += 1
            b = text[m.end():k].strip()
            number = lambda x: re.search(r' as int|\.len\(\)|\.pos\b|\.i\b', x) or re.fullmatch(r'\(*-?\d+\)*', x)
            if a and b and '{' not in a + b and '|' not in a + b and number(a) and number(b):
                yield a, m.group(1), b

    def measure_candidates(self, lid, i, j):
        own, vs = self.msites[lid]
        own = list(own)
        changed = set()
        for l, _ in self.out[i:j + 1]:
            changed |= set(re.findall(r'\b(\w+) = ', l.split('//')[0]))
        first = []
        for l, _ in self.out[i:j]:
            first.append(l)
            if l.strip().startswith('if tst('):
                break
        cond = set(re.findall(r'[A-Za-z_]\w*', ' '.join(first)))
        idents = lambda e: set(re.findall(r'[A-Za-z_]\w*', e))
        pos, lens = [], []
        known = set()
        for _, _, s in vs:
            known |= idents(s)
        k = 0
        for l, _ in self.out[i:j]:
            if l.strip().startswith('if tst(') and k < 4:
                k += 1
                for a, o, b in self.comparisons(l):
                    if not idents(a + ' ' + b) - {'len', 'int', 'as', 'nat', 'old'} <= known | {x for x in idents(a + ' ' + b) if not re.search(r'_\d+$', x)}:
                        continue
                    if idents(a + ' ' + b) & changed:
                        own += (['((%s) - (%s))' % (b, a)] if o[0] in '<!' else []) + (['((%s) - (%s))' % (a, b)] if o[0] in '>!' else [])
        own = list(dict.fromkeys(own))
        for _, k, s in vs:
            if k in self.KINDS['pos']:
                pos.append(s)
            elif k in ('str', 'base', 'seq', 'rseq') or k.startswith('vec:'):
                lens.append('%s.len()' % s)
        pos, lens = list(dict.fromkeys(pos)), list(dict.fromkeys(lens))
        flags = [x for x in dict.fromkeys(x for _, k, x in vs if k == 'bool') if idents(x) & changed]
        out = []
        for e in lens + pos:
            if idents(e) & changed:
                out.append('((%s) as int)' % e)
        for a in lens + pos:
            for b in pos:
                if a != b and (idents(a) | idents(b)) & changed:
                    out.append('(%s - %s)' % (a, b))
        # those over the variables of the loop condition first
        def rank(e):
            ids = idents(e) - {'len', 'int', 'as', 'nat'}
            return (not ids <= cond, not (ids & cond), e.count(' - ') == 0 and not '.len()' in e)
        out.sort(key=rank)
        out = [e for e in dict.fromkeys(out) if e not in own]
        # a flag that ends the loop when it is set (or cleared)
        by_flag = []
        for e in (own + out)[:10]:
            for f in flags[:2]:
                by_flag += ['(if %s { 1 + %s } else { 0 })' % (f, e), '(if %s { 0 } else { 1 + %s })' % (f, e)]
        return own + out[:24] + by_flag + out[24:]

    # ------------------------------------------------------------ invariants and hints
    def scope_vars(self, scope):
        """metavariable candidates: kind -> [term]"""
        out = []

        def addlv(name, b, depth=0):
            if isinstance(b, LV):
                p = b.place
                if isinstance(p, RecPlace):
                    for f, q in p.fields.items():
                        addlv(name + '.' + f, LV(q), depth + 1)
                    out.append((name, 'rec:' + p.t.name, p.load()))
                    return
                try:
                    t = p.t
                    s = lift(p.load(), t)
                except Exception:
                    return
                if t.k == 'int':
                    out.append((name, vtype(t), s))
                elif t.k in ('str', 'bool'):
                    out.append((name, t.k, s))
                elif t.k in ('char', 'uchar'):
                    out.append((name, 'u8', s))
                elif t.k == 'rec':
                    out.append((name, 'rec:' + t.name, s))
                elif t.k == 'vec':
                    out.append((name, 'vec:' + vtype(t.a[0]), s))
                elif t.k in ('map', 'set', 'opt', 'region', 'ext', 'arr', 'arrbuf', 'id', 'tree'):
                    out.append((name, t.k, s))
            elif isinstance(b, BufPtr):
                out.append((name, 'off', b.off))
                out.append((name, 'base', b.base.load()))
            elif isinstance(b, Iter):
                out.append((name, 'off', b.idx))
                out.append((name, 'seq', b.base.load()))
                out.extend((name, 'tree', x) for x, ty in b.base.leaves() if ty == 'Seq<int>')
            elif isinstance(b, Ptr) and b.place is not None:
                addlv('*' + name, LV(b.place))
            elif isinstance(b, MIter):
                out.append((name, 'miter', b.found))
            elif isinstance(b, tuple) and b[0] == 'range':
                out.append((name, 'off', b[1]))
                out.append((name, 'rseq', b[2].load()))
            elif isinstance(b, tuple) and b[0] == 'rem':
                out.append((name, 'rem', b[1]))
        for name, b in scope + self.fieldscope:
            addlv(name or '', b)
        seen, res = set(), []
        for x in out:
            if (x[1], x[2]) not in seen and not re.match(r'^-?\d+(int)?$', x[2]):
                seen.add((x[1], x[2]))
                res.append(x)
        return res

    KINDS = {'int': ('u64', 'i32', 'u32', 'i64'), 'pos': ('u64', 'i32', 'u32', 'i64', 'off'), 'sseq': ('str', 'base'), 'acc': ('str',)}

    # contracts of inlined functions: their loop templates and hints apply with parameters mapped to the arguments
    def enter_inlined(self, fn, c2, this):
        key = self.contract_key(fn)
        fr = None
        if key is not None and (self.contracts[key].get('loops') or self.contracts[key].get('hints')):
            c = self.contracts[key]
            mp = {}
            for al, p in zip([a.split(':')[0] for a in c.get('params', [])], fn.params):
                b = c2.env.get(p['id'])
                try:
                    if isinstance(b, Ptr):
                        if b.place is not None:
                            mp['@' + al] = lift(b.place.load(), b.place.t)
                            mp[al] = lift(self.let(b.place.load(), vtype(b.place.t)), b.place.t)
                        mp[al + '_nn'] = b.nn
                    elif isinstance(b, BufPtr):
                        mp['@' + al] = b.base.load()
                        mp[al] = self.let(b.base.load(), vtype(b.base.t))
                        mp[al + '_off'] = self.let(b.off, 'int')
                    elif isinstance(b, LV):
                        mp['@' + al] = lift(b.place.load(), b.t)
                        mp[al] = lift(self.let(b.place.load(), vtype(b.t)), b.t)
                except Exception:
                    continue
            tt, fl = self.this_fields(fn)
            if tt is not None and this is not None and fn.kind != 'CXXConstructorDecl':
                for nm, al, ft in fl:
                    pl = this.fields[al] if isinstance(this, RecPlace) else FieldP(this, al, ft)
                    mp['@self.' + al] = lift(pl.load(), ft)
                    mp['self.' + al] = lift(self.let(pl.load(), vtype(ft)), ft)
            fr = (c, mp)
        self.frames = self.frames + [fr]
        if fr is not None:
            for t in fr[0].get('hints', {}).get('entry', []):
                for e in self.instantiate(t, self.scope, None, fr[1]):
                    self.emit('proof { %s }' % e)

    def leave_inlined(self):
        self.frames = self.frames[:-1]

    def instantiate(self, tmpl, scope, extra=None, only=None):
        """all instances of a template over the variables in scope"""
        metas = []
        for m in re.finditer(r'\$(\w+)(?::([\w:<>_]+))?', tmpl):
            if m.group(2) and m.group(1) not in [x for x, _ in metas]:
                metas.append((m.group(1), m.group(2)))
        vs = self.scope_vars(scope)
        maps = [extra or {}, self.curmap, self.pre] if only is None else [extra or {}, only]
        try:
            toks = re.sub(r'\$(\w+)(?::[\w:<>_]+)?(\.\w+)*', ' ', tmpl)
            self.subst(toks, *maps)
        except Unsupported:
            if only is None:
                raise
            return []
        choices = []
        for nm, kind in metas:
            kinds = self.KINDS.get(kind, (kind,))
            ch = [s for (_, k, s) in vs if k in kinds and not (kind == 'acc' and s.startswith('p_'))]
            if not ch:
                return []
            choices.append(ch)
        out = []
        for combo in itertools.product(*choices):
            if len(set(combo)) < len(combo):
                continue
            e = tmpl
            mp = {nm: s for (nm, _), s in zip(metas, combo)}
            e = re.sub(r'\$(\w+)(?::[\w:<>_]+)?', lambda m: '\x01' + m.group(1) + '\x02', e)
            e = self.subst(e, *maps) if not re.search(r'\x01', e) else '\x01'.join(
                x for x in [self._subst_parts(e, maps)])
            e = re.sub(r'\x01(\w+)\x02', lambda m: mp[m.group(1)], e)
            if e not in out:
                out.append(e)
            if len(out) > MAXINST:
                break
        return out

    def _subst_parts(self, e, maps):
        parts = re.split(r'(\x01\w+\x02)', e)
        return ''.join(p if p.startswith('\x01') else self.subst_frag(p, maps, i > 0 and parts[i - 1].startswith('\x01')) for i, p in enumerate(parts))

    def subst_frag(self, p, maps, after_meta):
        # a leading ".field" belongs to the metavariable
        m = re.match(r'^(\.\w+)+', p) if after_meta else None
        pre = m.group(0) if m else ''
        return pre + self.subst(p[len(pre):], *maps)

    def inv_site(self, lid, scope, auto, node, ctx):
        self.emit('true,')
        cands = []
        for e in auto:
            cands.append((e, 'auto'))
        for nm, b in scope:
            if isinstance(b, (BufPtr, Ptr)) and re.match(r'^[a-z]\w*$', b.nn) and b.nn not in ('true', 'false'):
                cands.append((b.nn, 'auto'))
        for t in self.contract.get('loops', []):
            for e in self.instantiate(t, scope):
                cands.append((e, t))
        for fr in self.frames:
            if fr is not None:
                for t in fr[0].get('loops', []):
                    for e in self.instantiate(t, scope, None, fr[1]):
                        cands.append((e, t))
        if self.guard:
            cands += self.guarded(scope, [c for c in cands if c[1] != 'auto'])
        seen = set()
        for e, t in cands:
            cid = (lid, e)
            if e in seen:
                continue
            seen.add(e)
            self.code.cands.setdefault(lid, []).append(e)
            if cid in self.drop or (self.keep is not None and e not in self.keep.get(lid, ())):
                continue
            self.emit('(%s),' % e, dict(kind='inv', lid=lid, text=e, tmpl=t, loc=self.loc(node), fn=self.curfn))

    def guarded(self, scope, cands):
        """the candidates, and the postconditions, guarded by the boolean local variables: loops that leave through a flag"""
        flags = []
        for nm, b in scope:
            if isinstance(b, LV) and b.t.k == 'bool' and isinstance(b.place, Root) and b.place.mutable and not b.place.var.startswith(('p_', 'm_')):
                flags.append(b.place.load())
        self.has_flags = self.has_flags or bool(flags)
        rt = self.guard_rt
        rs = [None]
        if rt == 'bool':
            rs = ['true', 'false']
        elif rt != 'void':
            rs = [x for _, k, x in self.scope_vars(scope) if k == rt]
        posts = []
        for r in rs:
            for nm, e in self.contract.get('ensures', []):
                try:
                    posts += [(x, e) for x in self.instantiate(e, scope, {'r': r} if r else None)]
                except Unsupported:
                    pass
        out = []
        for f in dict.fromkeys(flags):
            for g in (f, '!' + f):
                out += [('%s ==> (%s)' % (g, e), t) for e, t in cands + posts]
        return out

    def loop_hints(self, lid, scope, ctx):
        self.hints('loop', scope, {})
        for fr in self.frames:
            if fr is not None:
                for t in fr[0].get('hints', {}).get('loop', []):
                    for e in self.instantiate(t, scope, None, fr[1]):
                        self.emit('proof { %s }' % e)

    def hints(self, where, scope, extra):
        for t in self.contract.get('hints', {}).get(where, []):
            if self.keep_hints_only(where):
                continue
            insts = self.instantiate(t, scope, extra)
            for e in insts:
                self.emit('proof { %s }' % e)

    def keep_hints_only(self, where):
        return False


def assemble(structs_text, prelude, specs, codes, stubs):
    """full file: returns (text, {line: tag})"""
    lines = []
    tags = {}

    def add(t, tag=None):
        for s in t.split('\n'):
            lines.append(s)
        if tag is not None:
            tags[len(lines)] = tag
    add('#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, unreachable_code, unused_parens, dead_code, non_snake_case, non_camel_case_types, unused_labels)]')
    add('use vstd::prelude::*;')
    add('verus! {')
    add('pub mod sp {')
    add('use vstd::prelude::*;')
    add(prelude)
    add(structs_text)
    add(specs)
    add('}')
    add('use sp::*;')
    for s in stubs:
        for l, tag in s:
            add(l, tag)
    for c in codes:
        for l, tag in c.lines:
            add(l, tag)
    add('fn main() {}')
    add('}')
    return '\n'.join(lines) + '\n', tags
