"""Builds and runs the replay harnesses (replay/*.cc): the real code of /repo against independent oracles on concrete inputs."""
import os, subprocess, tempfile, time, shutil
import cxx
from cxx import VERIF, REPO

LIBS = {'proto': ['-lprotobuf'], 'absl': None}
_absl = None


def absl_libs():
    global _absl
    if _absl is None:
        try:
            pc = subprocess.run(['pkg-config', '--libs', 'absl_strings', 'absl_status', 'absl_statusor', 'absl_str_format'], stdout=subprocess.PIPE, check=True).stdout.decode().split()
        except Exception:
            pc = []
        _absl = pc or ['-labsl_statusor', '-labsl_status', '-labsl_cord', '-labsl_str_format_internal', '-labsl_strings', '-labsl_strings_internal', '-labsl_throw_delegate', '-labsl_raw_logging_internal', '-labsl_base']
    return _absl


def build(name, spec, sanitize=True):
    """spec: dict(src=[files of /repo], gen=[generated .pb.cc], stubs=bool).  Returns (path, error text)"""
    d = os.path.join(cxx.build_dir(), 'replay', '%s-%d' % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    flags = cxx.cxx_flags(spec.get('stubs', False)) + ['-O1', '-g', '-I' + os.path.join(VERIF, 'replay'), '-Wno-everything']
    if sanitize:
        flags += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
    gen = os.path.join(cxx.build_dir(), 'gen')
    srcs = [os.path.join(VERIF, 'replay', name + '.cc')] + [os.path.join(REPO, s) for s in spec.get('src', [])] + [os.path.join(gen, g) for g in spec.get('gen', [])] + \
        [os.path.join(VERIF, s) for s in spec.get('own', [])]
    objs, procs = [], []
    for i, s in enumerate(srcs):
        o = os.path.join(d, '%d.o' % i)
        objs.append(o)
        fl = flags
        if '/gen/' in s and sanitize:
            fl = [f for f in flags if 'sanitize' not in f]
        procs.append((s, subprocess.Popen([cxx.CLANG] + fl + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    err = ''
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            err += '%s:\n%s\n' % (s, out.decode(errors='replace')[-3000:])
    if err:
        return None, err
    exe = os.path.join(d, 'run')
    p = subprocess.run([cxx.CLANG] + (['-fsanitize=address,undefined'] if sanitize else []) + objs + ['-o', exe, '-lprotobuf'] + absl_libs() + ['-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        return None, p.stdout.decode(errors='replace')[-3000:]
    return exe, ''


def run(exe, prop, seed, budget):
    """-> (status, text): ok | fail | error"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1:strict_memcmp=0', UBSAN_OPTIONS='print_stacktrace=1')
    try:
        p = subprocess.run([exe, prop, str(seed), str(budget)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=budget + 120)
    except subprocess.TimeoutExpired:
        return 'error', 'harness timed out'
    out = p.stdout.decode(errors='replace')
    err = p.stderr.decode(errors='replace')
    for l in out.splitlines():
        if l.startswith('FAIL'):
            return 'fail', out[out.index(l):][:20000] + ('\n--- stderr\n' + err[:6000] if err else '')
    if p.returncode == 0 and 'OK ' in out:
        return 'ok', [l for l in out.splitlines() if l.startswith('OK ')][-1]
    return 'error', 'exit status %d\n%s\n%s' % (p.returncode, out[-2000:], err[-4000:])


def cleanup(exe):
    if exe and not os.environ.get('VP_KEEP'):
        shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
