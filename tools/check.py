"""check.py C01 [--tier quick|thorough]      decide one property
check.py replay FILE                      run one recorded violation again

Exit 0: held on everything explored. Exit 1 and "VIOLATION property=<id> replay=<path>": broken."""
import concurrent.futures
import hashlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
import edits  # noqa: E402
import gen  # noqa: E402
import props  # noqa: E402
import reject  # noqa: E402

VERIF = core.VERIF
SOFT = dict(quick=300, thorough=690)       # no new machine is started after that many seconds
SHRINK = dict(quick=60, thorough=90)


class Case:
    """One generated machine and what to do with it."""

    def __init__(self, prop, tier, seed, i):
        self.i = i
        self.tier = tier
        self.prop = prop
        self.rng = random.Random('%s:%s:%s:%d' % (seed, prop.id, tier, i))
        prof = dict(prop.profiles[i % len(prop.profiles)])
        limit = 0 if prop.id == 'C26' else 220 if tier == 'quick' else 600
        for _ in range(60):
            self.spec = gen.generate(self.rng, prof)
            if not limit or unfolded(self.spec) <= limit:
                break
        self.spec['name'] = '%s_%d' % (prop.id, i)
        self.hseed = self.rng.getrandbits(48) + 1


def unfolded(spec, c=0):
    """Rows of the machine with each composite counted as often as it is mentioned: decides the time to compile."""
    n = 0
    for r in spec['states'][c]['rows']:
        n += 1
        ends = (r['s'] if r['sk'] == 'state' else r['sp'], r['d'] if r['dk'] == 'state' else r['dp'])
        for x in ends:
            if x >= 0 and spec['states'][x]['composite'] and spec['states'][x]['parent'] == c:
                n += unfolded(spec, x)
    return n


def harness_args(prop, tier, hseed):
    t = tier == 'thorough'
    a = ['--cases', str(prop.cases[t]), '--maxlen', str(prop.maxlen[t]), '--seed', str(hseed), '--aspects', prop.aspects]
    if prop.nontrivial:
        a += ['--nontrivial', ','.join(prop.nontrivial)]
    if prop.relevant:
        a += ['--relevant', ','.join(prop.relevant)]
    return a + prop.flags


def replay_flags(prop):
    keep, out = ('--twin', '--log', '--status', '--grow'), []
    for f in prop.flags:
        if f in keep:
            out.append(f)
    if prop.relevant:
        out += ['--relevant', ','.join(prop.relevant)]
    return out


# ---- model kind: the machine against the reference model ---------------------------------------

def model_attempt(env, prop, args, v, spec, cpu=240):
    exe, err = env.compile(spec, v)
    if exe is None:
        r = core.Result()
        r.status, r.report = ('compile', 'a well-formed machine does not compile: %s' % err) if err else ('skip', '')
    else:
        r = env.execute(exe, args, cpu=cpu)
        os.unlink(exe)
    r.spec, r.variant = spec, v
    return r


class ModelKind:
    def __init__(self, prop):
        self.prop = prop
        self.variants = [core.VARIANTS[n] for n in prop.variants]

    def run(self, env, case, args):
        v = self.variants[case.i % len(self.variants)]
        return model_attempt(env, self.prop, args, v, case.spec)

    bad = ('fail', 'crash', 'compile')

    def shrink(self, env, res, args, budget):
        return core.shrink_spec(env, res, res.variant, args, res.status, budget)

    def replay_data(self, env, res, args):
        return dict(variant=res.variant.name, ops=res.ops, pattern=res.pattern, status=res.status, args=args,
                    program=gen.emit_cpp(res.spec))

    def confirm(self, env, data, times=3):
        """number of times the violation shows again"""
        v = core.VARIANTS[data['variant']]
        exe, err = env.compile(data['spec'], v)
        if data['status'] == 'compile':
            return times if exe is None and err else 0
        if exe is None:
            return 0
        n = 0
        for _ in range(times):
            if data['ops'] and '--threads' not in data['args']:
                r = env.replay(exe, data['ops'], data['pattern'], self.prop.aspects, replay_flags(self.prop))
            else:
                r = env.execute(exe, data['args'], cpu=120)
            n += r.status in ('fail', 'crash')
        return n


# ---- differential kinds: alternatives that have to agree ------------------------------------------

class DiffKind:
    """Alternatives: list of (label, variant, text) made from one spec; all have to behave the same."""
    bad = ('differ',)

    def __init__(self, prop):
        self.prop = prop
        self.variants = [core.VARIANTS[n] for n in prop.variants]

    def alternatives(self, spec, rseed):
        raise NotImplementedError

    def outcomes(self, env, alts, runner):
        """one comparable outcome per alternative; None: no verdict"""
        def one(alt):
            label, v, spec, text = alt
            exe, err = env.compile(spec, v, text=text)
            if exe is None:
                return (('compile', first_words(err)), None) if err else (None, None)
            r = runner(exe)
            os.unlink(exe)
            if r.status == 'skip':
                return None, None
            return (r.status, r.stats.get('digest', r.report)), r
        with concurrent.futures.ThreadPoolExecutor(len(alts)) as pool:
            return list(pool.map(one, alts))

    def judge(self, alts, outs):
        """(differs, text)"""
        seen = [(a[0], o[0]) for a, o in zip(alts, outs) if o[0] is not None]
        if not seen:
            return False, ''
        # two ways of not compiling are the same outcome
        kinds = {('compile',) if o[0] == 'compile' else o for _, o in seen}
        if len(kinds) < 2:
            return False, ''
        text = '; '.join('%s: %s' % (label, describe(o, r)) for (label, o), r in
                         zip(seen, [o[1] for o in outs if o[0] is not None]))
        return True, text[:1500]

    def run(self, env, case, args):
        rseed = case.rng.getrandbits(32)
        return self.attempt(env, case.spec, rseed, args)

    def attempt(self, env, spec, rseed, args, cpu=240):
        alts = self.alternatives(spec, rseed)
        outs = self.outcomes(env, alts, lambda exe: env.execute(exe, args, cpu=cpu))
        res = core.Result()
        res.spec, res.rseed = spec, rseed
        differs, text = self.judge(alts, outs)
        ran = [o[1] for o in outs if o[1] is not None]
        if differs:
            res.status, res.report = 'differ', text
            for r in ran:
                if r.status in ('fail', 'crash') and r.ops:
                    res.ops, res.pattern = r.ops, r.pattern
        elif not ran:
            res.status = 'skip'
        if ran:
            res.stats = dict(ran[0].stats)
            res.stats['cases'] = sum(r.stats.get('cases', 0) for r in ran)
        res.variant = self.variants[0]
        return res

    def shrink(self, env, res, args, budget):
        def attempt(spec):
            r = self.attempt(env, spec, res.rseed, args, cpu=20)
            return r if r.status == 'differ' else None
        return shrink_generic(env, res, attempt, budget)

    def replay_data(self, env, res, args):
        alts = self.alternatives(res.spec, res.rseed)
        return dict(rseed=res.rseed, ops=res.ops, pattern=res.pattern, status=res.status, args=args,
                    programs={a[0]: a[3] or gen.emit_cpp(a[2], a[1].header) for a in alts})

    def confirm(self, env, data, times=3):
        n = 0
        alts = self.alternatives(data['spec'], data['rseed'])
        for _ in range(times):
            hit = False
            if data['ops']:
                outs = self.outcomes(env, alts, lambda exe: env.replay(exe, data['ops'], data['pattern'], 'all'))
                hit = self.judge(alts, outs)[0]
            if not hit:
                outs = self.outcomes(env, alts, lambda exe: env.execute(exe, data['args'], cpu=120))
                hit = self.judge(alts, outs)[0]
            n += hit
        return n


def first_words(text):
    return text[:300]


def describe(outcome, r):
    if outcome[0] == 'ok':
        return 'behaviour %s' % outcome[1]
    if outcome[0] == 'compile':
        return 'does not compile (%s)' % outcome[1]
    return r.report if r else str(outcome)


class VariantsKind(DiffKind):
    def alternatives(self, spec, rseed):
        first, rest = self.variants[0], self.variants[1:]
        if len(rest) > 2:
            # the machines take turns with the compilers
            k = rseed % len(rest)
            rest = [rest[k], rest[(k + 1) % len(rest)]]
        return [(v.name, v, spec, None) for v in [first] + rest]


class StylesKind(DiffKind):
    def alternatives(self, spec, rseed):
        v = self.variants[0]
        return [(label, v, s, None) for label, s in edits.spellings(spec, random.Random(rseed))]


class EditsKind(DiffKind):
    def alternatives(self, spec, rseed):
        v = self.variants[0]
        obs = gen.observations(spec)
        return [(label, v, s, gen.emit_cpp(s, v.header, prelude=not v.pch, obs=obs))
                for label, s in edits.irrelevant(spec, random.Random(rseed))]


class ShapesKind(DiffKind):
    def alternatives(self, spec, rseed):
        v = self.variants[rseed % len(self.variants)]
        plain = dict(spec, shape=None)
        shaped = spec if spec.get('shape') else dict(spec, shape=gen.add_shapes(spec, random.Random(rseed)))
        return [('plain types', v, plain, None), ('types of other shapes', v, shaped, None)]

    def attempt(self, env, spec, rseed, args, cpu=240):
        # the shapes become part of the machine, so that shrinking can remove them one by one
        if not spec.get('shape'):
            spec = dict(spec, shape=gen.add_shapes(spec, random.Random(rseed)))
        return super().attempt(env, spec, rseed, args, cpu)


# ---- programs that must not compile ----------------------------------------------------------------

class RejectKind:
    bad = ('accepted',)

    def __init__(self, prop):
        self.prop = prop
        self.variants = [core.VARIANTS[n] for n in prop.variants]

    def compiles(self, env, text, name):
        env.n += 1
        path = env.path('%s-%d.cpp' % (name, env.n))
        with open(path, 'w') as f:
            f.write(text)
        v = self.variants[0]
        cmd = [*v.cmd(), '-O0', '-include', env.pchs['reject'], '-c', path, '-o', path + '.o']
        for _ in range(3):
            p = env.run(cmd, cpu=200)
            if p.returncode == 0 or core.judged(p):
                break
        for f in (path, path + '.o'):
            if os.path.exists(f):
                os.unlink(f)
        if p.returncode == 0:
            return True
        return False if core.judged(p) else None

    def run(self, env, case, args):
        res = core.Result()
        res.spec, res.variant = case.spec, self.variants[0]
        res.stats = dict(cases=0, distinct=0, nontrivial=0, samples=[], ops=0)
        if self.compiles(env, reject.control(case.spec), 'c') is not True:
            res.status = 'skip'
            return res
        programs = reject.ill_formed(case.spec, random.Random(case.hseed))
        if case.tier == 'quick':
            # consecutive machines take turns
            programs = [p for k, p in enumerate(programs) if (k + case.i) % 3 == 0]
        for label, text in programs:
            ok = self.compiles(env, text, 'r')
            if ok is None:
                continue
            res.stats['cases'] += 1
            res.stats['distinct'] += 1
            res.stats['nontrivial'] += 1
            if len(res.stats['samples']) < 2:
                res.stats['samples'].append('%s of %s' % (label, machine_text(case.spec)))
            if ok:
                res.status, res.report, res.label, res.rseed = 'accepted', 'accepted by the compiler: ' + label, label, case.hseed
                return res
        return res

    def texts(self, spec, rseed, label):
        return [t for k, t in reject.ill_formed(spec, random.Random(rseed)) if k == label]

    def shrink(self, env, res, args, budget):
        def attempt(spec):
            if self.compiles(env, reject.control(spec), 'c') is not True:
                return None
            for t in self.texts(spec, res.rseed, res.label):
                if self.compiles(env, t, 'r'):
                    r = core.Result()
                    r.status, r.report, r.label, r.rseed, r.spec = res.status, res.report, res.label, res.rseed, spec
                    r.variant = res.variant
                    return r
            return None
        return shrink_generic(env, res, attempt, budget)

    def replay_data(self, env, res, args):
        return dict(label=res.label, rseed=res.rseed, status=res.status, ops=[], pattern=0, args=[],
                    program=self.texts(res.spec, res.rseed, res.label)[0])

    def confirm(self, env, data, times=3):
        return sum(self.compiles(env, reject.control(data['spec']), 'c') is True
                   and self.compiles(env, data['program'], 'r') is True for _ in range(times))


KINDS = dict(model=ModelKind, variants=VariantsKind, styles=StylesKind, edits=EditsKind, shapes=ShapesKind, reject=RejectKind)


def shrink_generic(env, res, attempt, budget):
    end = time.time() + budget
    best = res
    improved = True
    while improved and time.time() < end:
        improved = False
        cands = core.reductions(best.spec)
        for a in range(0, len(cands), core.JOBS):
            if time.time() > end:
                break
            hits = [h for h in env.pool.map(lambda s: attempt(s) if time.time() < end else None, cands[a:a + core.JOBS]) if h]
            if hits:
                best = min(hits, key=lambda h: core.size(h.spec))
                improved = True
                break
    return best


# ---- known findings -----------------------------------------------------------------------------

def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(path)) if os.path.exists(path) else []


def probe(env, finding):
    """True: the recorded defect is still there, with exactly the recorded symptom."""
    src = os.path.join(VERIF, finding['probe'])
    exe = env.path('probe-' + finding['id'])
    p = env.run(['g++', '-std=c++17', '-O0', '-w', '-I', os.path.join(core.REPO, 'include'), src, '-o', exe])
    if p.returncode != 0:
        return False
    q = env.run([exe], cpu=20)
    os.unlink(exe)
    return q.returncode == 0 and q.stdout.strip() == 'PRESENT'


# ---- driver ----------------------------------------------------------------------------------------

def machine_text(spec):
    return gen.emit_types(gen.typed(spec)).replace('\n', ' ').replace('    ', ' ')[:1800]


def main_check(pid, tier, seed):
    t0 = time.time()
    prop = props.PROPS[pid]
    kind = KINDS[prop.kind](prop)
    env = core.Env(pid)
    n = prop.quick if tier == 'quick' else prop.thorough
    scale = os.environ.get('VERIF_MACHINES')
    if scale:
        n = int(scale)
    try:
        err = env.prepare(kind.variants, plain_header=prop.kind == 'reject')
        if err:
            res = core.Result()
            res.status, res.report, res.spec, res.variant = 'header', err, None, None
            return report_violation(env, prop, kind, res, dict(status='header', ops=[], pattern=0, args=[]), tier, seed)
        findings = [f for f in known_findings() if f['property'] == pid and f['status'] == 'open']
        probes = [env.pool.submit(probe, env, f) for f in findings]
        stats = Totals()
        first_bad = None

        def one(i):
            if time.time() - t0 > SOFT[tier]:
                return None
            case = Case(prop, tier, seed, i)
            args = harness_args(prop, tier, case.hseed)
            t1 = time.time()
            res = kind.run(env, case, args)
            if os.environ.get('VERIF_VERBOSE'):
                print('machine %d: %s in %.0f s %s' % (i, res.status, time.time() - t1, res.report[:200]), flush=True)
            res.args = args
            return res

        futs = [env.pool.submit(one, i) for i in range(n)]
        for fut in concurrent.futures.as_completed(futs):
            res = fut.result()
            if res is None:
                stats.not_started += 1
                continue
            stats.add(res)
            if res.status in kind.bad:
                first_bad = res
                for g in futs:
                    g.cancel()
                break
        for f, p in zip(findings, probes):
            if not p.cancelled() and p.result():
                print('KNOWN-FINDING: property=%s %s' % (pid, f['what']), flush=True)
        code = 0
        if first_bad is not None:
            code = on_bad(env, prop, kind, first_bad, tier, seed, stats)
        write_evidence(prop, tier, seed, stats, time.time() - t0, code)
        print('%s %s: %d machines, %d cases, %d distinct non-trivial, %.0f s' % (
            pid, tier, stats.machines, stats.total('cases'), stats.total('distinct'), time.time() - t0))
        return code
    finally:
        env.close()


def on_bad(env, prop, kind, res, tier, seed, stats):
    args = res.args
    # wait until the machines still running are through, the pool is needed
    data = dict(kind.replay_data(env, res, args), spec=res.spec)
    again = kind.confirm(env, data)
    if again == 0:
        again = kind.confirm(env, data, 5)
    if again == 0:
        print('note: not reproducible, no verdict: %s' % res.report[:300])
        stats.unconfirmed.append(res.report[:300])
        return 0
    small = res
    try:
        small = kind.shrink(env, res, args, SHRINK[tier])
        sdata = dict(kind.replay_data(env, small, args), spec=small.spec)
        if small is not res:
            if kind.confirm(env, sdata) == 3:
                data = sdata
            else:
                small = res
    except Exception:
        traceback.print_exc()
        small = res
    return report_violation(env, prop, kind, small, data, tier, seed)


def report_violation(env, prop, kind, res, data, tier, seed):
    out = os.path.join(VERIF, 'out', 'replays')
    os.makedirs(out, exist_ok=True)
    body = dict(property=prop.id, kind=prop.kind, tier=tier, seed=seed, report=res.report, **data)
    text = json.dumps(body, indent=1)
    path = os.path.join(out, '%s-%s.json' % (prop.id, hashlib.sha1(text.encode()).hexdigest()[:12]))
    with open(path, 'w') as f:
        f.write(text + '\n')
    print(res.report[:1500])
    if data.get('ops'):
        print('history: ' + '; '.join(data['ops']))
    print('VIOLATION property=%s replay=%s' % (prop.id, path), flush=True)
    return 1


class Totals:
    def __init__(self):
        self.sums, self.features, self.samples, self.desync = {}, {}, [], {}
        self.machines = self.skipped = self.not_started = 0
        self.unconfirmed, self.status = [], {}
        self.shapes = {}

    def add(self, res):
        self.machines += 1
        self.status[res.status] = self.status.get(res.status, 0) + 1
        if res.status == 'skip':
            self.skipped += 1
            return
        s = res.stats
        for k in ('cases', 'ops', 'dropped', 'desync', 'nontrivial', 'distinct'):
            self.sums[k] = self.sums.get(k, 0) + (len(s[k]) if isinstance(s.get(k), list) else int(s.get(k, 0)))
        for k, v in s.get('features', {}).items():
            f = self.features.setdefault(k, [0, 0, 0])
            f[0] += v[0]
            f[1] += v[1]
            f[2] += v[0] > 0
        for k, v in s.get('desync_reports', {}).items():
            if len(self.desync) < 10:
                self.desync[k] = v
        for k, fn in props.FEATURES.items():
            if res.spec and fn(res.spec):
                self.shapes[k] = self.shapes.get(k, 0) + 1
        if len(self.samples) < 3 and s.get('samples') and res.spec:
            self.samples.append(dict(machine=machine_text(res.spec), histories=s['samples']))

    def total(self, k):
        return self.sums.get(k, 0)


def write_evidence(prop, tier, seed, st, wall, code):
    diff = prop.kind in ('variants', 'styles', 'edits', 'shapes')
    rule = ('One case is one generated machine (drawn from the profiles of this property) driven with one generated '
            'history of up to %d operations; counted as non-trivial: %s; distinct by the text of the history within its '
            'machine.' % (prop.maxlen[tier == 'thorough'], prop.rule))
    if diff:
        rule += ' Every case runs in every alternative form of the machine.'
    if prop.kind == 'reject':
        rule = ('One case is one program made from a generated well-formed machine, which compiles, by one edit that makes '
                'it ill-formed; all are distinct and non-trivial.')
    ev = dict(property=prop.id, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 1), violations=code,
              coverage=dict(evaluations=st.total('cases'), distinct_nontrivial=st.total('distinct'), rule=rule,
                            samples=st.samples, machines=st.machines, machines_not_started=st.not_started,
                            machines_without_verdict=st.skipped, outcomes=st.status, operations=st.total('ops'),
                            operations_outside_domain=st.total('dropped'),
                            cases_stopped_by_unrelated_mismatch=st.total('desync'), unrelated_mismatches=st.desync,
                            unconfirmed=st.unconfirmed, machines_with=st.shapes,
                            features={k: dict(hits=v[0], cases=v[1], machines=v[2]) for k, v in st.features.items() if v[0]}),
              assumptions=['The machines stay within the domain described in DESIGN.md.'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def main_replay(path):
    data = json.load(open(path))
    prop = props.PROPS[data['property']]
    kind = KINDS[prop.kind](prop)
    env = core.Env('replay')
    try:
        err = env.prepare(kind.variants, plain_header=prop.kind == 'reject')
        if data['status'] == 'header':
            hit = err is not None
        else:
            hit = err is None and kind.confirm(env, data, 1) > 0
        if hit:
            print(data['report'])
            print('VIOLATION property=%s replay=%s' % (prop.id, os.path.abspath(path)))
            return 1
        print('does not show any more')
        return 0
    finally:
        env.close()


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'setup':
        for d in ('build', 'evidence', 'out'):
            os.makedirs(os.path.join(VERIF, d), exist_ok=True)
        for tool in ('g++', 'clang++'):
            subprocess.run([tool, '--version'], stdout=subprocess.DEVNULL, check=True)
        return 0
    if a[0] == 'replay':
        return main_replay(a[1])
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    return main_check(a[0], tier, seed)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
