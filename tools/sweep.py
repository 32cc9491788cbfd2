"""Development aid: run N machines of a profile and print mismatches."""
import json
import random
import sys
import time
import core
import gen

def main():
    profile = json.loads(sys.argv[1])
    n = int(sys.argv[2])
    seed = sys.argv[3] if len(sys.argv) > 3 else '1'
    flags = sys.argv[4].split() if len(sys.argv) > 4 else []
    v = core.VARIANTS[sys.argv[5] if len(sys.argv) > 5 else 'plain']
    env = core.Env('sweep')
    t0 = time.time()
    try:
        err = env.prepare([v])
        if err:
            print(err)
            return
        def one(i):
            spec = gen.generate(random.Random('%s:%d' % (seed, i)), profile)
            exe, err = env.compile(spec, v)
            if exe is None:
                return i, spec, None, err
            r = env.execute(exe, ['--cases', '400', '--maxlen', '80', '--seed', '7', *flags])
            return i, spec, r, None
        feats = {}
        bad = 0
        for i, spec, r, err in env.pool.map(one, range(n)):
            if r is None:
                print(i, 'COMPILE', err)
                bad += 1
                continue
            for k, x in r.stats.get('features', {}).items():
                f = feats.setdefault(k, [0, 0, 0])
                f[0] += x[0]; f[1] += x[1]; f[2] += x[0] > 0
            if r.status != 'ok':
                bad += 1
                print(i, r.status, r.report, len(r.ops))
                if bad <= 3:
                    json.dump(dict(spec=spec, ops=r.ops, pattern=r.pattern), open('/tmp/fail-%d.json' % i, 'w'))
        print('bad', bad, 'of', n, 'in', round(time.time() - t0), 's')
        print({k: v for k, v in feats.items()})
    finally:
        env.close()
main()
