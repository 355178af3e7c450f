"""check.py PROPERTY: decides one property on /repo's current working tree.

1. extract the functions the property depends on from /repo (clang AST), translate them, and have Verus discharge
   every obligation of every function in the cone of the property's roots (callers against callee contracts);
2. run the replay harness: real code against an independent oracle.  It is the search for a concrete failing input
   when an obligation failed, and otherwise a bounded cross-check of the extraction (never counted as proof).
"""
import json, os, re, shlex, shutil, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cxx, ct, tr, emit, run, harness
from cxx import VERIF, Unsupported, FrontEndError
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
import props

TRUSTED = ['Verus 0.2026.09.13 and Z3 (obligation generation and discharge)', 'clang-18 front end (the AST is its resolved program)',
           'tools/tr.py, tools/lib.py, tools/emit.py (translation of the AST and models of library operations)',
           'prelude external_body: tst (ghost condition to control flow), havoc, pick, fresh_addr, arb']


def main():
    pid = sys.argv[1]
    P = props.PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    ev = dict(property=pid, tier=tier, seed=seed)
    evdir = os.environ.get('VP_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    rdir = os.environ.get('VP_REPLAYS', os.path.join(VERIF, 'replays'))
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, '%s.txt' % pid)
    if os.path.exists(replay):
        os.remove(replay)

    H = {}

    def build_h():
        try:
            H['exe'], H['err'] = harness.build(P['harness'], P.get('hspec', {}))
        except Exception as e:
            H['exe'], H['err'] = None, repr(e)
    th = None
    if P.get('harness'):
        th = threading.Thread(target=build_h)
        th.start()

    early = {}

    def search():
        th.join()
        if H.get('exe') is not None:
            b = P.get('budget', {}).get(tier, 8 if tier == 'quick' else 240)
            early['r'] = harness.run(H['exe'], pid, seed, max(b, P.get('search', 60)))

    def on_fail():
        # a proof failed: look for a failing input while weaker contracts and inlining are tried
        if th is not None and 'th' not in early:
            early['th'] = threading.Thread(target=search)
            early['th'].start()

    def stop():
        return early.get('r', ('',))[0] == 'fail'

    sessions, results, inl, lem, front = [], {}, set(), None, None
    for grp in [P] + P.get('also', []):
        try:
            sess = run.Session(grp['modules'])
            sessions.append(sess)
            lt = {}

            def lemrun(sess=sess, lt=lt):
                try:
                    lt['r'] = sess.lemmas(sess.specs_for([k for k in sess.contracts]))
                except Exception as e:
                    lt['e'] = e
            lth = threading.Thread(target=lemrun)
            lth.start()
            rs, il = sess.verify_all(grp['roots'], needs=grp.get('needs'), deadline=t0 + 330, on_fail=on_fail, stop=stop)
            lth.join()
            results.update(rs)
            inl |= set(il)
            if lt.get('r') is None:
                front = 'lemma file: %r' % lt.get('e')
            elif lem is None:
                lem = lt['r']
            else:
                r = lt['r']
                lem = dict(lem, verified=lem['verified'] + r['verified'], errors=lem['errors'] + r['errors'], smt=lem['smt'] + r['smt'], rc=lem['rc'] or r['rc'], vir_error=lem['vir_error'] or r['vir_error'],
                           status=lem['status'] if lem['status'] != 'ran' else r['status'], raw=lem['raw'] + r['raw'])
        except FrontEndError as e:
            front = str(e)
        except Unsupported as e:
            front = 'unsupported: %s' % e
        except Exception:
            front = traceback.format_exc()
    weakened, helpers = {}, {}
    for sess in sessions:
        weakened.update(getattr(sess, 'weakened', None) or {})
        helpers.update(getattr(sess, 'failed_helpers', None) or {})
    if th:
        th.join()

    # no decreasing term found: the search may have missed it, so only a property that says so is violated by this alone
    for r in results.values():
        if r.outcome == 'failed' and r.endless and r.diags == r.endless and not P.get('total'):
            r.outcome, r.reason = 'undecided', run.describe(r.diags[0])
    failed = [r for r in results.values() if r.outcome == 'failed']
    undecided = [r for r in results.values() if r.outcome not in ('proved', 'failed')]
    lem_ok = lem is not None and lem['status'] == 'ran' and lem['errors'] == 0 and not lem['vir_error'] and lem['rc'] == 0
    all_proved = bool(results) and not failed and not undecided and lem_ok and front is None
    nobl = sum(r.nobl for r in results.values())
    ndis = sum(r.nobl for r in results.values() if r.outcome == 'proved')
    for r in failed:
        nobl += max(1, len(r.diags))
    for r in undecided:
        nobl += 1
    if lem is not None:
        nobl += lem['verified'] + lem['errors']
        ndis += lem['verified']

    # ---- replay / cross-check
    budget = P.get('budget', {}).get(tier, 8 if tier == 'quick' else 240)
    if not all_proved and tier == 'quick':
        budget = max(budget, P.get('search', 60))
    hstat, htext = 'none', 'no harness'
    if P.get('harness'):
        if H.get('exe') is None:
            hstat, htext = 'error', 'harness does not build: ' + (H.get('err') or '')
        else:
            if 'th' in early:
                early['th'].join()
            hstat, htext = early['r'] if not all_proved and 'r' in early or early.get('r', ('',))[0] == 'fail' else harness.run(H['exe'], pid, seed, budget)
            harness.cleanup(H['exe'])
    known = known_findings(pid)
    violation = None
    lines = []
    if hstat == 'fail':
        kf = [k for k in known if k['match'] in htext]
        if not kf:
            violation = 'input'
    elif failed:
        violation = 'noinput'

    # ---- evidence
    assumes = set()
    libs = set()
    fns = []
    axioms = []
    for f in sorted({'prelude'} | {x for sess in sessions for m in sess.mods for x in m.SPECS}):
        txt = open(os.path.join(VERIF, 'specs', f + '.rs')).read()
        axioms += ['specs/%s.rs: %s (axiom, not proved)' % (f, m.group(1)) for m in re.finditer(r'external_body\]\s*(?:pub )?proof fn (\w+)', txt)]
    for k, r in sorted(results.items()):
        if r.code is not None:
            for l, tag in r.code.lines:
                for m in re.findall(r'assume\((.*)\);', l):
                    assumes.add(re.sub(r'\b[a-z]\w*_\d+\b', '_', m))
            libs |= set(r.code.lib_used)
        fns.append(dict(function=k, file=(r.fn.sig if r.fn is not None else None), outcome=r.outcome, obligations=r.nobl, by_kind=r.obls,
                        solver_s=round(r.smt, 2), invariants=sum(len(v) for v in (r.keep or {}).values()),
                        loops=len(r.code.measures) if r.code is not None else 0,
                        termination={'%s loop %d' % (':'.join(map(str, r.code.looplocs.get(l) or ())), l): m for l, m in sorted((r.measures or {}).items())} if r.code is not None else {},
                        inlined=sorted(r.code.inlined)[:40] if r.code is not None else [], reason=r.reason[:400],
                        vacuity_check=('false not provable' if r.vacuous is False else 'not run' if r.vacuous is None else 'VACUOUS')))
    cov = dict(obligations=nobl, discharged=ndis,
               checker_cmd='verus <generated>.rs --verify-root (one file per function, generated from /repo on this run) ; verus lemmas.rs',
               trusted_base=TRUSTED + axioms + ['lib: ' + x for x in sorted(libs)] + ['assumed in generated code: ' + a for a in sorted(assumes)],
               backend='Verus / Z3', functions_under_contract=fns,
               lemma_file=None if lem is None else dict(verified=lem['verified'], errors=lem['errors'], solver_s=round(lem['smt'], 2)),
               solver_s=round(sum(r.smt for r in results.values()) + (lem['smt'] if lem else 0), 2),
               inlined_helpers=sorted(inl), weakened_contracts={k: sorted(v) for k, v in weakened.items()},
               bounded_cross_check=dict(harness='replay/%s.cc' % P['harness'] if P.get('harness') else None, result=hstat, detail=htext[:300], counted_as_proof=False))
    if P.get('bounded'):
        cov['bounded_parts'] = P['bounded']
    level = P.get('level', 'proof')
    if not all_proved or level != 'proof':
        m = re.search(r'cases=(\d+) interesting=(\d+)', htext)
        cov['evaluations'] = int(m.group(1)) if m else 0
        cov['distinct_nontrivial'] = int(m.group(2)) if m else 0
        cov['rule'] = 'bounded stand-in on this run: replay/%s.cc (seeded and exhaustive small inputs, real code against an independent oracle)' % P.get('harness')
        cov['samples'] = [htext[:300]]
        cov['not_proved'] = [dict(function=r.key, outcome=r.outcome, reason=r.reason[:300]) for r in undecided + failed] + ([front] if front else [])
        if not all_proved:
            level = 'exploration'
    ev.update(level=level, coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=props.COMMON + P.get('assume', []),
              violations=0 if violation is None else max(1, sum(len(r.diags) for r in failed)))
    if violation is not None:
        ev['violation_detail'] = describe_violation(violation, failed, htext)
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    for sess in sessions:
        sess.close()

    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    print('%s: %d functions, %d/%d obligations discharged, harness: %s %s, %.1f s' % (
        pid, len(results), ndis, nobl, hstat, htext.splitlines()[0][:200] if htext else '', time.time() - t0))
    for r in undecided:
        print('  not decided by proof: %s: %s %s' % (r.key, r.outcome, r.reason[:300]))
    if not lem_ok and lem is not None:
        print('  lemma file: %d errors %s' % (lem['errors'], lem['raw'][:600]))
    if front:
        print('  front end: ' + front[:1000])
    for r in failed:
        for d in r.diags:
            print('  failed obligation: ' + run.describe(d))
    for k, r in helpers.items():
        print('  helper contract not proved, inlined into its callers: %s (%s)' % (k, r.reason[:100] or '; '.join(run.describe(d) for d in r.diags[:4])))
    for k, v in weakened.items():
        print('  postconditions of %s not proved and not used: %s' % (k, ', '.join(sorted(v))))
    if violation is None:
        if hstat == 'error' and not all_proved:
            print('  error: neither proof nor harness gave an answer: ' + htext[:1500])
            return 2
        return 0
    with open(replay, 'w') as f:
        f.write('property %s on the working tree of %s\n' % (pid, cxx.REPO))
        if violation == 'input':
            f.write('failing input (replay/%s.cc against the real code, seed %d):\n%s\n' % (P['harness'], seed, htext))
        if failed or helpers:
            f.write('\nfailed obligations:\n')
            for r in list(failed) + list(helpers.values()):
                for d in r.diags:
                    f.write('  %s\n' % run.describe(d))
                f.write('verifier output for %s:\n%s\n' % (r.key, r.raw[:8000]))
    print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if violation == 'input' else ' no-failing-input-found'))
    return 1


def describe_violation(v, failed, htext):
    return dict(kind='concrete input' if v == 'input' else 'failed obligation, no failing input found', detail=htext[:1000] if v == 'input' else [run.describe(d) for r in failed for d in r.diags][:10])


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'^finding: property=(\S+) match=(".*?") (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append(dict(match=json.loads(m.group(2)), text=m.group(3)))
    except OSError:
        pass
    return out


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
