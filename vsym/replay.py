"""
Runs a harness on the real, compiled code with concrete inputs.

python -m vsym.replay JOBFILE OUTFILE      (used by the checks)
python -m vsym.replay REPLAYFILE           (prints what fails; exit 1 if it fails)
"""
import importlib
import json
import os
import random
import sys
import time
import traceback
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vsym import core, load, realbuild


class RandomCtx(core.ConcreteCtx):
    def __init__(self, rng):
        core.ConcreteCtx.__init__(self, {})
        self.rng = rng

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        lo = -4 if lo is None else lo
        hi = 4 if hi is None else hi
        lo, hi = Fraction(lo), Fraction(hi)
        den = 64
        a, b = lo * den, hi * den
        k = self.rng.randint(int(a) + (1 if lo_open else 0), int(b) - (1 if hi_open and int(b) > int(a) else 0))
        v = Fraction(k, den)
        self.values[name] = '%d/%d' % (v.numerator, v.denominator)
        return float(v)

    def int(self, name, lo=None, hi=None):
        v = self.rng.randint(-6 if lo is None else int(lo), 6 if hi is None else int(hi))
        self.values[name] = v
        return v


def run_one(spec, env, cfg, c):
    c.f4 = cfg.get('dtype') in ('f4', 'c8') or bool(cfg.get('f4'))
    try:
        spec.harness(c, env, cfg)
    except core.PathEnd:
        return {'skipped': True, 'failures': []}
    except Exception as e:
        return {'skipped': False, 'failures': [['raises %s' % type(e).__name__, traceback.format_exc()[-1200:]]]}
    return {'skipped': False, 'failures': [[a, b if b is None else str(b)[:600]] for a, b in c.failures]}


def main(jobfile, outfile):
    with open(jobfile) as f:
        J = json.load(f)
    out = open(outfile, 'a')
    spec = importlib.import_module('checks.' + J['property'])
    d = J['tree']
    envs = {}
    for i, job in enumerate(J['jobs']):
        if i < J.get('start', 0):
            continue
        cfg = job['cfg']
        k = spec.env_key(cfg) if hasattr(spec, 'env_key') else 'default'
        if k not in envs:
            if hasattr(spec, 'real_env'):
                envs[k] = spec.real_env(d, cfg)
            else:
                envs[k] = load.RealEnv(d)
        out.write(json.dumps({'start': i}) + '\n')
        out.flush()
        if 'random' in job:
            r = {'skipped': False, 'failures': [], 'tried': 0}
            t, end = job.get('from', 0), time.time() + job.get('limit', 60)
            while t < job['n'] and time.time() < end:
                out.write(json.dumps({'tick': t}) + '\n')
                out.flush()
                c = RandomCtx(random.Random(job['random'] * 1000003 + t))
                x = run_one(spec, envs[k], cfg, c)
                if not x['skipped']:
                    r['tried'] += 1
                if x['failures']:
                    r['failures'] = x['failures']
                    r['values'] = c.values
                    break
                t += 1
        else:
            r = run_one(spec, envs[k], cfg, core.ConcreteCtx(job['values']))
        r['job'] = i
        out.write(json.dumps(r) + '\n')
        out.flush()
    out.close()


if __name__ == '__main__':
    if len(sys.argv) == 3:
        main(sys.argv[1], sys.argv[2])
    else:
        with open(sys.argv[1]) as f:
            R = json.load(f)
        spec = importlib.import_module('checks.' + R['property'])
        d = realbuild.real_build(load.REPO, getattr(spec, 'REAL', []))
        env = spec.real_env(d, R['cfg']) if hasattr(spec, 'real_env') else load.RealEnv(d)
        r = run_one(spec, env, R['cfg'], core.ConcreteCtx(R['values']))
        print('configuration:', R['cfg'])
        print('inputs:', R['values'])
        for a, b in r['failures']:
            print('FAILS: %s\n%s' % (a, b or ''))
        if not r['failures']:
            print('does not fail on this tree')
        sys.exit(1 if r['failures'] else 0)
