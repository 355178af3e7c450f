"""Development only: validates the planted bugs of seeded/ in a scratch copy of /repo and runs the checks on them.
   seed.py [NAME...] [--nocheck] [--notest]"""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seed%s' % os.environ.get('VP_SLOT', '')
R = W + '/repo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def setup():
    if not os.path.exists(R):
        os.makedirs(W)
        sh('git clone -q /repo %s' % R)
    sh('git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD; git -C %s checkout -q -- .' % (R, R, R))
    c = sh('cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DREPO=%s -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_C_COMPILER=/usr/bin/clang-18 -DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g" -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C %s/_build' % (R, R, R))
    if c.returncode:
        print(c.stdout.decode()[-3000:])
        sys.exit(1)


def demo(name):
    d = W + '/demo'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(V + '/seeded/' + name, d)
    p = subprocess.run(['bash', d + '/demo.sh'], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode(errors='replace')


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    setup()
    names = args or sorted(os.listdir(V + '/seeded'))
    for n in names:
        d = V + '/seeded/' + n
        meta = json.load(open(d + '/meta.json'))
        r0, o0 = demo(n) if '--notest' not in sys.argv else (0, '')
        a = sh('git -C %s apply %s/patch.diff' % (R, d))
        if a.returncode:
            print(n, 'PATCH DOES NOT APPLY', a.stdout.decode())
            continue
        try:
            ok = ''
            if '--notest' not in sys.argv:
                b = sh('ninja -C %s/_build' % R)
                t = sh('cd %s/_build && ctest -j8 --timeout 300' % R)
                r1, o1 = demo(n)
                ok = 'build %s tests %s demo %d->%d' % ('ok' if b.returncode == 0 else 'FAILS', 'pass' if t.returncode == 0 else 'FAIL', r0, r1)
                if r0 != 0:
                    ok += '\n' + o0[-1500:]
                if t.returncode or b.returncode:
                    ok += '\n' + (b if b.returncode else t).stdout.decode()[-800:]
            res = ''
            if '--nocheck' not in sys.argv:
                env = dict(os.environ, VP_REPO=R, VP_BUILD=W + '/vbuild', VP_EVIDENCE=W + '/ev', VP_REPLAYS=W + '/rp', VERIF_SEED='1')
                for pid in [meta['property']] + [x[8:] for x in sys.argv if x.startswith('--check=')]:
                    c = subprocess.run([sys.executable, V + '/tools/check.py', pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=V)
                    o = c.stdout.decode()
                    res += '\n   check %s exit %d: %s' % (pid, c.returncode, ' | '.join(l for l in o.splitlines() if 'failed obl' in l or 'VIOLATION' in l or 'not decided' in l or 'front' in l)[:700])
                    rp = W + '/rp/%s.txt' % pid
                    if c.returncode == 1 and os.path.exists(rp) and 'no-failing' not in o:
                        res += '\n      ' + open(rp).read().split('\n', 2)[2][:300].replace('\n', '\n      ')
            print(n, ok, res, flush=True)
        finally:
            sh('git -C %s checkout -q -- .' % R)


main()
