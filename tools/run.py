"""Runs Verus on generated files, maps its diagnostics back to named obligations, drops unprovable candidate invariants."""
import json, os, re, subprocess, time, hashlib, concurrent.futures, threading
import cxx, ct, tr, emit, lib
from cxx import Unsupported, VERIF

VERUS = os.environ.get('VERUS', 'verus')
TIMEOUT = int(os.environ.get('VP_VERUS_TIMEOUT', '240'))
SEM = threading.Semaphore(int(os.environ.get('VP_JOBS', '8')))


class Diag:
    def __init__(self, kind, tag, where, msg, text):
        self.kind, self.tag, self.where, self.msg, self.text = kind, tag, where, msg, text

    def __repr__(self):
        return '%s %s' % (self.kind, self.tag)


def call_verus(path, extra=(), timeout=None):
    with SEM:
        t = time.time()
        cmd = [VERUS, path, '--error-format=json', '--output-json', '--time', '--num-threads', '2'] + list(extra) + \
            ([] if '--multiple-errors' in extra else ['--multiple-errors', '60'])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout or TIMEOUT)
        except subprocess.TimeoutExpired:
            return dict(status='timeout', diags=[], time=time.time() - t, raw='timeout after %d s' % (timeout or TIMEOUT), smt=0, verified=0, errors=0)
    out = p.stdout.decode()
    err = p.stderr.decode()
    msgs = []
    for l in err.splitlines():
        l = l.strip()
        if l.startswith('{'):
            try:
                msgs.append(json.loads(l))
            except ValueError:
                pass
    try:
        j = json.loads(out[out.index('{'):])
    except ValueError:
        j = {}
    vr = j.get('verification-results', {})
    smt = j.get('times-ms', {}).get('smt', {}).get('smt-run', 0) / 1000.0
    errs = [m for m in msgs if m.get('level') == 'error']
    raw = '\n'.join(m.get('rendered') or m.get('message', '') for m in errs)
    internal = p.returncode != 0 and not errs
    if internal:
        raw = err[-3000:] + out[-2000:]
    fb = {}
    for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            fb[f['function'].split('::')[-1]] = f.get('time-micros', 0) / 1e6
    return dict(status='ran' if not internal else 'internal', rc=p.returncode, msgs=errs, raw=raw, smt=smt, verified=vr.get('verified', 0),
                errors=vr.get('errors', 0), time=time.time() - t, vir_error=vr.get('encountered-vir-error') or ('verified' not in vr), fb=fb)


def classify(res, tags):
    """errors -> list of Diag; compile errors -> kind 'compile'"""
    out = []
    for m in res.get('msgs', []):
        msg = m.get('message', '')
        spans = m.get('spans', [])
        lines = [(s['line_start'], s['is_primary'], s.get('label') or '') for s in spans]
        if msg.startswith('aborting due to'):
            continue
        tag = None
        kind = 'compile'
        where = None
        if 'postcondition not satisfied' in msg:
            kind = 'ensures'
            for l, prim, lab in lines:
                t = tags.get(l)
                if t and t.get('kind') == 'ensures':
                    tag = t
                else:
                    where = l
        elif 'precondition not satisfied' in msg:
            kind = 'requires'
            for l, prim, lab in lines:
                t = tags.get(l)
                if t and t.get('kind', '').startswith('precondition'):
                    where = t
                elif t and t.get('kind') == 'requires':
                    tag = t
            tag = tag or where
        elif 'invariant not satisfied' in msg:
            kind = 'inv'
            for l, prim, lab in lines:
                t = tags.get(l)
                if t and t.get('kind') == 'inv':
                    tag = t
        elif 'assertion failed' in msg:
            kind = 'assert'
            for l, prim, lab in lines:
                t = tags.get(l)
                if t:
                    tag = t
        elif 'rlimit' in msg or 'Resource limit' in msg:
            kind = 'rlimit'
        elif 'loop' in msg and 'decreases' in msg:
            kind = 'compile'
        out.append(Diag(kind, tag, where, msg, m.get('rendered', '')))
    return out


# ------------------------------------------------------------------------------------------------ sessions
MAXROUNDS = 14


class Result:
    def __init__(self, key):
        self.key = key
        self.outcome = None      # proved | failed | undecided | unsupported | missing
        self.diags = []          # failed obligations
        self.raw = ''
        self.smt = self.wall = 0.0
        self.nobl = 0
        self.obls = {}
        self.code = None
        self.fn = None
        self.rounds = 0
        self.vacuous = None
        self.keep = None
        self.reason = ''
        self.measures = {}       # loop -> what decreases
        self.endless = []        # loops for which no decreasing measure was found

    def __repr__(self):
        return '%s: %s %s' % (self.key, self.outcome, self.reason or '; '.join(describe(d) for d in self.diags))


def describe(d):
    t = d.tag or {}
    if d.kind == 'ensures':
        s = 'postcondition %s of %s' % (t.get('name'), t.get('key'))
        if isinstance(d.where, int):
            pass
        return s
    if d.kind == 'requires':
        w = d.where if isinstance(d.where, dict) else {}
        return 'precondition %s of %s at %s:%s' % (t.get('name'), t.get('key') or w.get('call'), *(w.get('loc') or ('?', '?')))
    if d.kind == 'inv':
        return 'loop invariant at %s:%s' % t.get('loc', ('?', '?'))
    if d.kind == 'assert':
        return '%s (%s) at %s:%s' % (t.get('kind'), t.get('text'), *(t.get('loc') or ('?', '?')))
    return '%s: %s' % (d.kind, d.msg[:200])


class Session:
    """contracts of a module and everything it imports, over the current sources of /repo"""
    def __init__(self, modules, tus=None):
        import importlib, sys as _s
        cdir = os.path.join(VERIF, 'contracts')
        if cdir not in _s.path:
            _s.path.insert(0, cdir)
        self.mods = []

        def load(m):
            mod = importlib.import_module(m)
            for i in getattr(mod, 'IMPORTS', []):
                load(i)
            if mod not in self.mods:
                self.mods.append(mod)
        for m in modules:
            load(m)
        self.contracts, self.cfg, self.home, self.exts = {}, {}, {}, []
        self.tus = []
        for m in self.mods:
            for k, c in m.CONTRACTS.items():
                self.contracts[k] = c
                self.home[k] = m
            for k, v in getattr(m, 'CFG', {}).items():
                if isinstance(v, dict):
                    self.cfg.setdefault(k, {}).update(v)
                else:
                    self.cfg[k] = list(self.cfg.get(k, [])) + list(v)
            if getattr(m, 'EXT', None):
                self.exts.append(m.EXT)
            for t in m.TUS:
                if t not in self.tus:
                    self.tus.append(t)
        self.prog = cxx.Program(self.tus)
        self.prelude = open(os.path.join(VERIF, 'specs', 'prelude.rs')).read()
        self.spectext = {}
        try:
            self.hints = json.load(open(os.path.join(VERIF, 'contracts', 'hints.json')))
        except (OSError, ValueError):
            self.hints = {}
        try:
            self.measures = json.load(open(os.path.join(VERIF, 'contracts', 'measures.json')))
        except (OSError, ValueError):
            self.measures = {}
        self.dir = os.path.join(cxx.build_dir(), 'verus', '%d' % os.getpid())
        os.makedirs(self.dir, exist_ok=True)
        self.lock = threading.Lock()

    def spec(self, s):
        if s not in self.spectext:
            self.spectext[s] = open(os.path.join(VERIF, 'specs', s + '.rs')).read()
        return self.spectext[s]

    def fn(self, key):
        c = self.contracts[key]
        fns = [f for f in self.prog.find(c['qual']) if (c.get('nparams') is None or len(f.params) == c['nparams']) and
               (c.get('sig') is None or re.search(c['sig'], f.node['type']['qualType']))]
        return fns[0] if fns else None

    def specs_for(self, keys):
        out = []
        for m in self.mods:
            if any(self.home[k] is m for k in keys):
                for s in m.SPECS:
                    if s not in out:
                        out.append(s)
        return out

    def build(self, key, fn, keep, drop, variant, inl, guard=False, measures=None, trial=None):
        E = emit.FnEmitter(self.prog, self.contracts, lib.Lib(self.exts), self.cfg, keep=keep, drop=drop, measures=measures, trial=trial)
        E.guard = guard
        E.force_inline = frozenset(inl)
        code = E.translate(key, fn, variant)
        code.has_flags = E.has_flags
        stubs = [E.stub(kk, f) for kk, f in sorted(code.used.items())]
        specs = self.specs_for([key] + list(code.used) + [k for k in self.contracts if self.contracts[k].get('kind') == 'inline' and self.fn(k) and self.fn(k).sig in code.inlined] + list(inl))
        # record types mentioned by contracts of callees are in E.structs after stub()
        import structs as st
        gen = ''.join(m.GEN(self, E) for m in self.mods if hasattr(m, 'GEN') and (self.home[key] is m or any(self.home[k] is m for k in code.used)))
        for m in self.mods:
            for q in getattr(m, 'STRUCTS', []):
                if m.SPECS[-1] in specs:
                    c = self.prog.cls(q)
                    if c is None:
                        raise Unsupported('class %s not found' % q)
                    E.struct(c)
        text, tags = emit.assemble(st.struct_text([E]), self.prelude, '\n'.join(self.spec(s) for s in specs) + gen, [code], stubs)
        return code, text, tags

    def run_file(self, name, text, tags, extra=()):
        p = os.path.join(self.dir, name + '.rs')
        open(p, 'w').write(text)
        limit = None
        if self.fallback and self.deadline is not None:
            limit = min(TIMEOUT, max(30, int(self.deadline + 60 - time.time())))
        r = call_verus(p, ['--verify-root'] + list(extra), timeout=limit)
        ds = classify(r, tags)
        return r, ds

    def verify(self, key, inl=(), hints=True, vac=True, log=None):
        R = Result(key)
        t0 = time.time()
        fn = self.fn(key)
        if fn is None:
            R.outcome, R.reason = 'missing', 'function %s not found' % self.contracts[key]['qual']
            return R
        R.fn = fn
        nm = tr.vfn(key)[2:] + ('_i' + hashlib.md5(repr(sorted(inl)).encode()).hexdigest()[:6] if inl else '')
        try:
            keep = None
            attempts = []
            h = self.hints.get(key) if hints and not inl else None
            if h is not None:
                attempts.append(({int(k): set(v) for k, v in h.items()}, False))
            attempts += [(None, False), (None, True)]
            done = False
            for keep, guard in attempts:
                drop = set()
                if guard and (R.outcome != 'failed' or not R.code.cands or not self.flags(key, fn, inl)):
                    break
                rounds = MAXROUNDS if keep is None else 1
                for rnd in range(rounds):
                    if self.late():
                        R.outcome, R.reason = 'undecided', 'time limit'
                        break
                    ms = {int(k): v for k, v in self.measures.get(key, {}).items()} if keep is not None or rnd == 0 else {}
                    code, text, tags = self.build(key, fn, keep, drop, '', inl, guard, measures=ms)
                    R.code = code
                    R.rounds += 1
                    r, ds = self.run_file(nm, text, tags)
                    R.smt += r['smt']
                    if log:
                        log('%s round %d: %s %d errors %.1fs smt %.1f cands %d' % (key, R.rounds, r['status'], len(ds), r['time'], r['smt'], sum(len(v) for v in code.cands.values())))
                    if r['status'] == 'timeout':
                        R.outcome, R.reason, R.raw = 'undecided', r['raw'], r['raw']
                        break
                    if r['status'] == 'internal' or any(d.kind == 'compile' for d in ds) or (r['vir_error'] and ds):
                        R.outcome, R.reason, R.raw = 'undecided', 'verifier rejected the generated file: ' + r['raw'][:1500], r['raw']
                        break
                    bad = [d for d in ds if d.kind == 'inv' and d.tag]
                    R.raw = r['raw']
                    term = [d for d in ds if d.kind == 'assert' and d.tag and d.tag['kind'] == 'termination']
                    ds = [d for d in ds if d not in term]
                    R.measures = {l: m for l, m in ms.items() if m in code.measures.get(l, ()) and not any(d.tag.get('lid') == l for d in term)}
                    R.endless = [d for d in term if 'lid' not in d.tag]
                    if bad and keep is None:
                        drop = drop | {(d.tag['lid'], d.tag['text']) for d in bad}
                        R.outcome, R.diags = 'failed', ds
                        continue
                    if ds:
                        R.outcome = 'undecided' if any(d.kind == 'rlimit' for d in ds) else 'failed'
                        R.reason = 'resource limit' if R.outcome == 'undecided' else ''
                        R.diags = ds
                        break
                    if not term and (r['verified'] < 1 or r['rc'] != 0):
                        R.outcome, R.reason = 'undecided', 'verifier gave no verdict: ' + r['raw'][:500]
                        break
                    R.outcome, R.diags, R.reason = 'proved', [], ''
                    done = True
                    if set(R.code.measures) - set(R.measures):
                        self.find_measures(R, key, fn, keep, drop, inl, guard, nm, log)
                    break
                if done:
                    break
            R.keep = {}
            if R.outcome == 'proved' and R.endless:
                R.outcome, R.diags = 'failed', R.endless
            if R.outcome == 'proved':
                for lid, es in R.code.cands.items():
                    R.keep[lid] = [e for e in es if (keep is None and (lid, e) not in drop) or (keep is not None and e in keep.get(lid, ()))]
                self.count(R)
                if vac:
                    vcode, text, tags = self.build(key, fn, {int(k): set(v) for k, v in R.keep.items()}, set(), '_vac', inl, guard)
                    r, ds = self.run_file(nm + '_vac', text, tags)
                    R.smt += r['smt']
                    R.vacuous = not any(d.kind == 'ensures' and d.tag and d.tag.get('name') == 'vacuous' for d in ds) and not any(d.kind == 'rlimit' for d in ds)
                    if R.vacuous:
                        R.outcome, R.reason = 'undecided', 'vacuous: false is provable from the preconditions and assumptions'
        except Unsupported as e:
            R.outcome, R.reason = 'unsupported', str(e)
            if getattr(e, 'node', None):
                pass
        except (KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError, RecursionError) as e:
            import traceback
            R.outcome, R.reason, R.raw = 'unsupported', 'translator error: %r' % e, traceback.format_exc()
        R.wall = time.time() - t0
        return R

    TRIALS = 64

    def find_measures(self, R, key, fn, keep, drop, inl, guard, nm, log):
        """termination: for every loop without a known measure, which of the candidates decreases in each iteration?"""
        miss = {l: c[:self.TRIALS] for l, c in R.code.measures.items() if l not in R.measures}
        code, text, tags = self.build(key, fn, keep, drop, '', inl, guard, trial=miss)
        r, ds = self.run_file(nm + '_trial', text, tags, ['--multiple-errors', '2000'])
        R.smt += r['smt']
        if log:
            log('%s measures: %s %d errors %.1fs' % (key, r['status'], len(ds), r['time']))
        found = dict(R.measures)
        if r['status'] == 'ran' and not any(d.kind in ('compile', 'rlimit') for d in ds):
            bad = {(d.tag['lid'], d.tag['measure']) for d in ds if d.tag and d.tag['kind'] == 'termination'}
            for l, c in miss.items():
                ok = [m for m in c if (l, m) not in bad]
                if ok:
                    found[l] = ok[0]
        code, text, tags = self.build(key, fn, keep, drop, '', inl, guard, measures=found)
        r, ds = self.run_file(nm, text, tags)
        R.smt += r['smt']
        if r['status'] != 'ran' or any(not d.tag or d.tag['kind'] != 'termination' for d in ds):
            R.outcome, R.reason = 'undecided', 'termination: ' + r['raw'][:300]
            return
        for d in ds:
            found.pop(d.tag.get('lid'), None)
        R.measures = found
        R.code = code
        R.endless = [d for d in ds if 'lid' not in d.tag]
        R.endless += [Diag('assert', dict(kind='termination', text='nothing found that decreases in every iteration of the loop', loc=code.looplocs[l], fn=fn.sig), None, '', r['raw'])
                      for l in sorted(code.measures) if l not in found]

    fallback, deadline, stop, on_fail = False, None, None, None

    def late(self):
        """the fallbacks stop at the deadline, and when a failing input is known"""
        return self.fallback and ((self.deadline is not None and time.time() > self.deadline) or (self.stop is not None and self.stop()))

    def flags(self, key, fn, inl):
        E = emit.FnEmitter(self.prog, self.contracts, lib.Lib(self.exts), self.cfg)
        E.force_inline, E.guard = frozenset(inl), True
        E.translate(key, fn)
        return E.has_flags

    def count(self, R):
        c = self.contracts[R.key]
        nens = len(c.get('ensures', []))
        by = {}
        for l, tag in R.code.lines:
            if not tag:
                continue
            k = tag['kind']
            if k == 'return':
                by['postcondition'] = by.get('postcondition', 0) + nens
            elif k == 'inv':
                by['loop invariant'] = by.get('loop invariant', 0) + 2
            elif k.startswith('precondition of'):
                n = len(self.contracts[tag['call']].get('requires', []))
                if n:
                    by['callee precondition'] = by.get('callee precondition', 0) + n
            elif k in ('requires', 'ensures'):
                pass
            else:
                by[k] = by.get(k, 0) + 1
        R.obls = by
        R.nobl = sum(by.values())

    def cone(self, roots, inl=()):
        """roots and every contract they use, transitively (by translation, no verifier run)"""
        seen, todo = [], list(roots)
        while todo:
            k = todo.pop(0)
            if k in seen:
                continue
            seen.append(k)
            fn = self.fn(k)
            if fn is None:
                continue
            try:
                E = emit.FnEmitter(self.prog, self.contracts, lib.Lib(self.exts), self.cfg)
                E.force_inline = frozenset(inl)
                code = E.translate(k, fn)
                todo += sorted(code.used)
            except (Unsupported, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError, RecursionError):
                pass
        return seen

    def verify_all(self, roots, needs=None, log=None, vac=True, deadline=None, on_fail=None, stop=None):
        self.on_fail, self.stop, self.deadline = on_fail, stop, deadline
        results, inl = self._verify_all(roots, needs, log, vac, deadline)
        for k, j in self.recursive(results):
            if results[k].outcome == 'proved':
                results[k].outcome, results[k].reason = 'undecided', 'recursion through %s is not shown to end' % j
        return results, inl

    def _verify_all(self, roots, needs=None, log=None, vac=True, deadline=None):
        """Verifies the roots and, transitively, every contract they use.

        When a helper's contract is not provable, two sound fallbacks are tried: dropping the failing postconditions
        from the helper's contract (its callers are then verified against the weaker contract), and inlining the
        helper into its callers.  needs: {root: [names of the postconditions the property consists of]}."""
        self.weakened, self.failed_helpers = {}, {}
        base = self._pass(roots, (), {}, log, vac)
        if self._ok(base, roots, needs):
            return base, set()
        full = dict(self.contracts)
        self.fallback = True
        if self.on_fail:
            self.on_fail()
        late = self.late
        # weaken
        results, cur = dict(base), dict(base)
        dropped = {}
        for _ in range(8):
            new = {}
            for k, r in cur.items():
                if r.outcome == 'failed' and r.diags and all(d.kind == 'ensures' and d.tag for d in r.diags):
                    new[k] = {d.tag['name'] for d in r.diags}
            if not new or late():
                break
            for k, v in new.items():
                dropped.setdefault(k, set()).update(v)
                c = dict(self.contracts[k])
                c['ensures'] = [e for e in c.get('ensures', []) if e[0] not in dropped[k]]
                self.contracts[k] = c
                w = Result(k)
                w.__dict__.update(results[k].__dict__)
                results[k] = w
            redo = [k for k in results if k in new or self.uses(k, new)]
            cur = self._verify_keys(redo, (), log, vac)
            results.update(cur)
            if all(r.outcome == 'proved' for r in results.values()):
                break
        self.weakened = dropped
        if self._ok(results, roots, needs, dropped):
            return results, set()
        self.contracts.clear()
        self.contracts.update(full)
        self.weakened = {}
        # inline
        inl, results = set(), dict(base)
        for attempt in range(4):
            bad = [k for k in results if k not in inl and results[k].outcome != 'proved' and k not in roots and not self.contracts[k].get('noinline') and not (results[k].endless and results[k].diags == results[k].endless)]
            if not bad or late():
                break
            inl |= set(bad)
            for k in bad:
                self.failed_helpers[k] = results[k]
            old = results
            keys = [k for k in self.cone(roots, inl) if k not in inl]
            redo = [k for k in keys if k not in old or self.uses(k, inl)]
            results = {k: old[k] for k in keys if k in old}
            results.update(self._verify_keys(redo, inl, log, vac))
            if self._ok(results, roots, needs):
                return results, inl
        return base, set()

    def recursive(self, results):
        """functions that call themselves, directly or through others under contract, without a measure that shows it ends"""
        use = {k: set(r.code.used) for k, r in results.items() if r.code is not None}

        def reach(k):
            seen, todo = set(), list(use.get(k, ()))
            while todo:
                j = todo.pop()
                if j not in seen:
                    seen.add(j)
                    todo += use.get(j, ())
            return seen
        R = {k: reach(k) for k in use}
        out = []
        for k in use:
            for j in use[k]:
                if k == j or k in R.get(j, ()):
                    a, b = self.contracts[k].get('measure'), self.contracts[j].get('measure')
                    if not a or not b or a[0] != b[0]:
                        out.append((k, j))
        return out

    @staticmethod
    def _ok(results, roots, needs, dropped=None):
        for k, r in results.items():
            if r.outcome != 'proved':
                return False
        for k, names in (dropped or {}).items():
            if k in roots and (needs is None or k not in needs or set(needs[k]) & names):
                return False
        return True

    def _pass(self, roots, inl, have, log, vac):
        return self._verify_keys(self.cone(roots, inl), inl, log, vac)

    def _verify_keys(self, keys, inl, log, vac):
        out = {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for k, r in zip(keys, ex.map(lambda k: self.verify(k, inl=[i for i in inl if i != k], vac=vac, log=log), keys)):
                out[k] = r
        return out

    def uses(self, key, inl):
        fn = self.fn(key)
        if fn is None:
            return False
        try:
            E = emit.FnEmitter(self.prog, self.contracts, lib.Lib(self.exts), self.cfg)
            return bool(set(E.translate(key, fn).used) & set(inl))
        except Exception:
            return True

    def lemmas(self, specs):
        """verifies prelude + spec modules (lemma bodies, termination of spec functions)"""
        import structs as st
        E = emit.FnEmitter(self.prog, self.contracts, lib.Lib(self.exts), self.cfg)
        gen = ''
        for m in self.mods:
            if m.SPECS[-1] in specs:
                for q in getattr(m, 'STRUCTS', []):
                    c = self.prog.cls(q)
                    if c is None:
                        raise Unsupported('class %s not found' % q)
                    E.struct(c)
        for m in self.mods:
            if hasattr(m, 'GEN') and m.SPECS[-1] in specs:
                gen += m.GEN(self, E)
        text, tags = emit.assemble(st.struct_text([E]), self.prelude, '\n'.join(self.spec(s) for s in specs) + gen, [], [])
        p = os.path.join(self.dir, 'lemmas.rs')
        open(p, 'w').write(text)
        r = call_verus(p)
        return r

    def close(self):
        import shutil
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)


def main():
    """development driver: run.py MODULE [key,key] [--save] [--all] [--nohints]"""
    import sys
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    opts = [a for a in sys.argv[1:] if a.startswith('--')]
    s = Session(args[0].split(','))
    s.dir = '/tmp/t/verus'
    os.makedirs(s.dir, exist_ok=True)
    keys = args[1].split(',') if len(args) > 1 else [k for k in s.contracts if s.contracts[k].get('kind') != 'inline' and (s.home[k] is s.mods[-1] or '--all' in opts)]
    lg = (lambda m: print('   ', m, flush=True)) if '--v' in opts else None
    if '--lemmas' in opts:
        r = s.lemmas(s.specs_for(list(s.contracts)))
        print('lemmas', r['status'], r['verified'], r['errors'], r['raw'][:5000])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for R in ex.map(lambda k: s.verify(k, hints='--nohints' not in opts, log=lg, vac='--novac' not in opts), keys):
            print('%-32s %-11s obl %4d rounds %d smt %.2f wall %.1f %s' % (R.key, R.outcome, R.nobl, R.rounds, R.smt, R.wall, R.reason[:1500]), flush=True)
            if 'translator error' in R.reason and '--v' in opts:
                print(R.raw)
            for d in R.diags:
                print('      ', describe(d), (d.tag or {}).get('text', '')[:160] if d.kind == 'inv' else '')
            if '--save' in opts and R.outcome == 'proved':
                if any(R.keep.values()):
                    s.hints[R.key] = {str(k): v for k, v in R.keep.items()}
                else:
                    s.hints.pop(R.key, None)
                if R.measures:
                    s.measures[R.key] = {str(k): v for k, v in R.measures.items()}
                else:
                    s.measures.pop(R.key, None)
    if '--save' in opts:
        json.dump(s.measures, open(os.path.join(VERIF, 'contracts', 'measures.json'), 'w'), indent=1, sort_keys=True)
        json.dump(s.hints, open(os.path.join(VERIF, 'contracts', 'hints.json'), 'w'), indent=1, sort_keys=True)


if __name__ == '__main__':
    main()
