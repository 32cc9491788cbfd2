"""Build, run, shrink and replay generated machines. No knowledge of single properties."""
import concurrent.futures
import copy
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import gen  # noqa: E402

JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 4)))


class Variant:
    """How a machine is compiled."""

    def __init__(self, name='plain', cxx='g++', std='c++17', flags=('-O1',), header='hsm/hsm.h', ld=(), pch=True):
        self.name, self.cxx, self.std, self.flags, self.header, self.ld = name, cxx, std, list(flags), header, list(ld)
        self.pch = pch

    def pch_suffix(self):
        return '.gch' if self.cxx == 'g++' else '.pch'

    def cmd(self):
        return [self.cxx, '-std=' + self.std, *self.flags, '-w', '-I', os.path.join(REPO, 'include'), '-I', HARNESS]


ASAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g1', '-DVH_WRAP_NEW']
PLAIN = Variant()
VARIANTS = {
    'plain': PLAIN,
    'asan': Variant('asan', flags=ASAN, ld=['-fsanitize=address,undefined', '-Wl,--wrap=_Znwm,--wrap=_ZdlPv,--wrap=_ZdlPvm']),
    'count': Variant('count', flags=['-O1', '-DVH_WRAP_NEW'], ld=['-Wl,--wrap=_Znwm,--wrap=_ZdlPv,--wrap=_ZdlPvm']),
    'tsan': Variant('tsan', flags=['-O1', '-g1', '-fsanitize=thread'], ld=['-fsanitize=thread']),
    'single': Variant('single', header='hsm/gen/hsm.h'),
    'gcc-O0': Variant('gcc-O0', flags=['-O0']),
    'gcc-O2-20': Variant('gcc-O2-20', std='c++20', flags=['-O2']),
    'gcc-O3': Variant('gcc-O3', flags=['-O3']),
    'clang17': Variant('clang17', cxx='clang++', flags=['-O1']),
    'clang20': Variant('clang20', cxx='clang++', std='c++20', flags=['-O2']),
    'clang-O0': Variant('clang-O0', cxx='clang++', flags=['-O0']),
}


def limits(cpu, mem_gb=12):
    def fn():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return fn


class Result:
    def __init__(self):
        self.status = 'ok'      # ok | fail | compile | crash | skip
        self.report = ''
        self.ops = []
        self.pattern = 0
        self.stats = {}
        self.spec = None
        self.variant = None


def judged(p):
    """The compiler looked at the whole program and refused it; it did not break down or run out of something."""
    ended = ('CPU time limit', 'Killed', 'memory exhausted', 'terminated program', 'out of memory', 'No space left',
             'internal compiler error', 'Stack dump', 'signal')
    return p.returncode == 1 and 'error:' in p.stderr and not any(re.search(r'(?m)^.*(fatal |internal compiler )?error:.*%s' % t, p.stderr)
                                                                  for t in ended)


class Env:
    """Scratch directory with everything compiled once."""

    def __init__(self, tag):
        self.dir = os.path.join(VERIF, 'build', '%s-%d' % (tag, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.pool = concurrent.futures.ThreadPoolExecutor(JOBS)
        self.slots = threading.BoundedSemaphore(JOBS)       # processes at the same time
        self.harness = {}
        self.pchs = {}
        self.n = 0

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def run(self, cmd, cpu=300, **kw):
        with self.slots:
            return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(cpu), text=True,
                                  errors='replace', **kw)

    def prepare(self, variants, plain_header=False):
        """Compiles harness and precompiled header of each variant. Returns an error text or None."""
        jobs = []
        if plain_header:
            d = self.path('pch-reject')
            os.makedirs(d)
            pre = os.path.join(d, 'pre.h')
            with open(pre, 'w') as f:
                f.write('#include "%s"\n#include "mach.h"\n' % variants[0].header)
            self.pchs['reject'] = pre
            jobs.append((variants[0], 'header', [*variants[0].cmd(), '-O0', '-x', 'c++-header', pre, '-o', pre + '.gch']))
            variants = []
        for v in variants:
            if v.name in self.harness:
                continue
            obj = self.path('harness-%s.o' % v.name)
            self.harness[v.name] = obj
            jobs.append((v, 'harness', [*v.cmd(), '-c', os.path.join(HARNESS, 'harness.cpp'), '-o', obj]))
            if v.pch:
                d = self.path('pch-' + v.name)
                os.makedirs(d)
                pre = os.path.join(d, 'pre.h')
                with open(pre, 'w') as f:
                    f.write('#include "%s"\n#include "mach.h"\n' % v.header)
                self.pchs[v.name] = pre
                jobs.append((v, 'header', [*v.cmd(), '-x', 'c++-header', pre, '-o', pre + v.pch_suffix()]))
        for (v, what, _), p in zip(jobs, self.pool.map(lambda j: self.run(j[2]), jobs)):
            if p.returncode != 0:
                # the harness does not include the code under test
                if what == 'harness':
                    raise RuntimeError('harness does not build (%s): %s' % (v.name, p.stderr[:2000]))
                return 'header %s does not compile as %s: %s' % (v.header, v.name, first_error(p.stderr))
        return None

    def compile(self, spec, v, name=None, text=None):
        """Returns (exe, error)."""
        self.n += 1
        base = self.path('%s-%d-%s' % (name or 'm', self.n, v.name))
        pre = self.pchs.get(v.name)
        with open(base + '.cpp', 'w') as f:
            f.write(text or gen.emit_cpp(spec, v.header, prelude=pre is None))
        cmd = [*v.cmd()]
        if pre:
            cmd += ['-include', pre] if v.cxx == 'g++' else ['-include-pch', pre + '.pch']
        cmd += ['-c', base + '.cpp', '-o', base + '.o']
        for attempt in range(3):
            p = self.run(cmd, cpu=120)
            if p.returncode == 0 or 'CPU time limit' in p.stderr or judged(p):
                break
        os.unlink(base + '.cpp')
        if p.returncode != 0:
            if judged(p):
                return None, first_error(p.stderr)
            return None, None       # the compiler was ended: no verdict
        q = self.run([v.cxx, base + '.o', self.harness[v.name], '-o', base, *v.ld, '-lrapidcheck', '-lpthread'])
        os.unlink(base + '.o')
        if q.returncode != 0:
            if 'undefined reference' in q.stderr or 'multiple definition' in q.stderr:
                return None, 'link: ' + first_error(q.stderr)
            return None, None
        return base, None

    def execute(self, exe, args, cpu=240):
        """Runs the search; returns Result."""
        r = Result()
        stats, cur = exe + '.stats', exe + '.cur'
        env = dict(os.environ)
        env.pop('RC_PARAMS', None)
        env['ASAN_OPTIONS'] = 'detect_leaks=1:abort_on_error=0:exitcode=86:allocator_may_return_null=1'
        env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=86:print_stacktrace=1'
        env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=86'
        p = self.run([exe, *args, '--stats', stats, '--cur', cur], cpu=cpu, env=env)
        if os.path.exists(stats):
            try:
                r.stats = json.load(open(stats))
            except ValueError:
                pass
        if p.returncode == 0 and r.stats:
            r.status = 'ok'
        elif p.returncode == 1 and r.stats.get('failed'):
            r.status = 'fail'
            r.report = r.stats['report']
            r.ops = r.stats['ops']
            r.pattern = r.stats['pattern']
        elif p.returncode == 3:
            raise RuntimeError('harness: ' + p.stderr[:500])
        elif p.returncode == -9 and not os.path.exists(cur):
            r.status = 'skip'
        else:
            r.status = 'crash'
            r.report = '[mem] process ended with %s: %s' % (p.returncode, crash_line(p.stderr))
            try:
                lines = open(cur).read().split('\0')[0].split('\n')
                r.pattern = int(lines[0][2:]) if lines[0].startswith('X ') else 0
                r.ops = [x for x in lines if x and not x.startswith('X ')]
            except (OSError, ValueError, IndexError):
                pass
        for f in (stats, cur):
            if os.path.exists(f):
                os.unlink(f)
        return r

    def replay(self, exe, ops, pattern, aspects, extra=()):
        path = exe + '.ops'
        with open(path, 'w') as f:
            f.write('X %d\n' % pattern + '\n'.join(ops) + '\n')
        return self.execute(exe, ['--replay', path, '--aspects', aspects, *extra], cpu=30)


def first_error(text):
    for line in text.split('\n'):
        if 'error:' in line or 'undefined reference' in line or 'multiple definition' in line:
            return line[-700:] if len(line) > 700 else line
    return text[:400]


def crash_line(text):
    for key in ('SUMMARY:', 'runtime error:', 'ERROR:', 'terminate called'):
        for line in text.split('\n'):
            if key in line:
                return line.strip()[:300]
    return text.strip().replace('\n', ' ')[-200:]


# ---- shrinking ---------------------------------------------------------------------------------

def shrink_ops(env, exe, res, aspects, extra=(), budget=20):
    """ddmin over the operations, by replay."""
    end = time.time() + budget
    ops = list(res.ops)
    best = res

    def bad(cand):
        r = env.replay(exe, cand, res.pattern, aspects, extra)
        return r if r.status in ('fail', 'crash') else None

    r = bad(ops)
    if r is None:
        return None
    best = r
    best.ops = ops
    n = 2
    while len(ops) > 1 and time.time() < end:
        size = max(1, len(ops) // n)
        cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
        hits = [(c, x) for c, x in zip(cands, map(bad, cands)) if x]
        if hits:
            ops = hits[0][0]
            best = hits[0][1]
            best.ops = ops
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(ops), n * 2)
    best.pattern = res.pattern
    return best


def reductions(spec):
    """Smaller specs, biggest cuts first."""
    out = []

    def cand(fn):
        s = copy.deepcopy(spec)
        fn(s)
        gen.fix_marks(s)
        s = gen.normalize(s)
        if s is None:
            return
        for st in s['states']:
            for x in st['rows']:
                if x['style'] not in gen.styles_of(x):
                    x['style'] = 'infix'
        if size(s) < size(spec) and not gen.check(s):
            out.append(s)

    keys = sorted(spec.get('shape') or {})
    for n in (max(1, len(keys) // 2), max(1, len(keys) // 4), 1):
        for a in range(0, len(keys), n):
            cand(lambda s: [s['shape'].pop(k, None) for k in keys[a:a + n]])
    rows = [(i, k) for i, s in enumerate(spec['states']) for k in range(len(s['rows']))]
    for chunk in (max(1, len(rows) // 2), max(1, len(rows) // 4), 1):
        for a in range(0, len(rows), chunk):
            drop = set(rows[a:a + chunk])

            def f(s):
                for i, st in enumerate(s['states']):
                    st['rows'] = [x for k, x in enumerate(st['rows']) if (i, k) not in drop]
            cand(f)
        if len(rows) <= 1:
            break
    for i, st in enumerate(spec['states']):
        for k in range(len(st['internal'])):
            cand(lambda s: s['states'][i]['internal'].pop(k))
        for key, val in (('entry', False), ('exit', False), ('defers', [])):
            if st[key]:
                cand(lambda s: s['states'][i].update({key: val}))
        for k, x in enumerate(st['rows']):
            if x['g'] >= 0 and x['ev'] != gen.ANON:
                cand(lambda s: s['states'][i]['rows'][k].update(g=-1))
            if x['ak'] == 'plain' and x['ev'] != gen.ANON:
                cand(lambda s: s['states'][i]['rows'][k].update(ak='none', a=[]))
    if spec['handler']:
        cand(lambda s: s.update(handler=False))
    if spec['deps']:
        cand(lambda s: s.update(deps=0))
    if spec['sets']:
        cand(lambda s: s.update(sets=[]))
    return out


def size(s):
    n = len(s['states']) * 4 + 2 * len(s.get('shape') or {}) + s['deps'] + bool(s['handler']) + len(s['sets'])
    for st in s['states']:
        n += 6 * len(st['rows']) + 4 * len(st['internal']) + st['entry'] + st['exit'] + len(st['defers'])
        n += sum((x['g'] >= 0) + len(x['a']) for x in st['rows'] + st['internal'])
    return n


def shrink_spec(env, res, v, args, want, budget=60):
    """Greedy delta debugging of the machine; each candidate is searched again."""
    end = time.time() + budget
    best = res

    def attempt(s):
        if time.time() > end:
            return None
        exe, err = env.compile(s, v, 's')
        if exe is None:
            if want == 'compile' and err:
                r = Result()
                r.status, r.report, r.spec, r.variant = 'compile', err, s, v
                return r
            return None
        if want == 'compile':
            os.unlink(exe)
            return None
        r = env.execute(exe, args, cpu=20)
        os.unlink(exe)
        r.spec, r.variant = s, v
        return r if r.status == want else None

    improved = True
    while improved and time.time() < end:
        improved = False
        cands = reductions(best.spec)
        for a in range(0, len(cands), JOBS):
            if time.time() > end:
                break
            hits = [h for h in env.pool.map(attempt, cands[a:a + JOBS]) if h]
            if hits:
                best = min(hits, key=lambda h: size(h.spec))
                improved = True
                break
    return best
