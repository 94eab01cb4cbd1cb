"""
python -m vsym.run PROPERTY [--tier quick|thorough] [--config NAME] [-v]

Explores every configuration of a property symbolically, replays counterexamples on the real
compiled code, writes the evidence file and reports.
"""
import argparse
import fnmatch
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
from vsym import core, load, cyx, realbuild

NPROC = min(8, os.cpu_count() or 8)
KNOWN = os.path.join(HERE, 'known_findings.json')


def tracer(found, repo):
    base = os.path.join(repo, 'pmesh') + os.sep

    def prof(frame, ev, arg):
        if ev == 'call':
            f = frame.f_code.co_filename
            if f.startswith(base):
                found.add('%s:%s' % (os.path.basename(f), frame.f_code.co_name))
    return prof


def run_config(spec, cfg, tier, env, budget):
    """executed in a forked worker"""
    found = set()
    first = [True]
    models = []
    want = cfg.get('models', 6)

    def fn(c):
        prof = None
        if first[0]:
            prof = tracer(found, env.repo)
            sys.setprofile(prof)
            threading.setprofile(prof)
        try:
            try:
                spec.harness(c, env, cfg)
            finally:
                if prof:
                    sys.setprofile(None)
                    threading.setprofile(None)
                    first[0] = False
        except core.Unsupported:
            # the encoding ends here: a witness of the path so far is still run on the real code
            if len(models) < want and not c.violations:
                try:
                    m = c.nice_model()
                    if m is not None:
                        models.append(m)
                except (core.Budget, core.Unsupported):
                    pass
            raise
        except core.CodeFault as e:
            c.fail('fault: %s' % (str(e).split(':')[0]), str(e))
        except Exception as e:
            c.fail('raises %s' % type(e).__name__, traceback.format_exc()[-1500:])
        if len(models) < want and not c.violations:
            m = c.nice_model()
            if m is not None:
                models.append(m)

    t = time.time()
    core.SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
    v, st, complete, problems = core.explore(fn, budget_s=budget, max_paths=cfg.get('max_paths', 200000), max_violations=cfg.get('max_violations', 6))
    called = set(found) | set(cyx.NOTES)
    for name, vm in env.vms.items():
        called |= set('%s(C):%s' % (name, f.lstrip('@')) for f in vm.called)
    return dict(cfg=cfg, violations=[x.asdict() for x in v], stats=st.asdict(), complete=complete,
                problems=problems, functions=sorted(called), models=models, wall=time.time() - t)


def worker(spec, cfg, tier, env, budget, path):
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        r = run_config(spec, cfg, tier, env, budget)
    except BaseException:
        r = dict(cfg=cfg, violations=[], stats={}, complete=False, problems=['worker: ' + traceback.format_exc()[-2500:]],
                 functions=[], models=[], wall=0)
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(r, f)
    os.rename(path + '.tmp', path)


def run_all(spec, cfgs, tier, env_of, budget, hard):
    """fork one worker per configuration, NPROC at a time"""
    tmp = tempfile.mkdtemp(prefix='vqrun')
    todo = list(enumerate(cfgs))
    todo.sort(key=lambda x: -x[1].get('weight', 1))
    live, out = {}, {}
    end = time.time() + hard
    try:
        while todo or live:
            while todo and len(live) < NPROC:
                i, cfg = todo.pop(0)
                b = min(cfg.get('budget', budget), max(5, end - time.time()))
                if time.time() > end:
                    out[i] = dict(cfg=cfg, violations=[], stats={}, complete=False, problems=['no time left'], functions=[], models=[], wall=0)
                    continue
                path = os.path.join(tmp, '%d' % i)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        worker(spec, cfg, tier, env_of(cfg), b, path)
                    finally:
                        os._exit(code)
                live[pid] = (i, cfg, path, time.time() + b + 60)
            time.sleep(0.01)
            for pid in list(live):
                i, cfg, path, lim = live[pid]
                p, status = os.waitpid(pid, os.WNOHANG)
                if p == 0:
                    if time.time() > lim:
                        os.kill(pid, signal.SIGKILL)
                    continue
                del live[pid]
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        out[i] = pickle.load(f)
                else:
                    out[i] = dict(cfg=cfg, violations=[], stats={}, complete=False, problems=['worker died (status %d)' % status], functions=[], models=[], wall=0)
    finally:
        for pid in live:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return [out[i] for i in range(len(cfgs))]


def cpu_of(pid):
    """processor seconds used by a process"""
    try:
        with open('/proc/%d/stat' % pid) as f:
            w = f.read().rsplit(')', 1)[1].split()
        return (int(w[11]) + int(w[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0.0


def again(prop, tree, jobs, i, x):
    """does a failure of job i of a batch happen again: alone, or after the jobs that came before it"""
    job = jobs[i]
    if 'random' in job:
        if x.get('values'):
            job = dict(cfg=job['cfg'], values=x['values'])
        elif x.get('tick') is not None:
            job = dict(job, n=x['tick'] + 1)
            job['from'] = x['tick']
    for batch in ([job], [j for j in jobs[:i] if 'values' in j] + [job]):
        y = replay_jobs(prop, tree, batch, timeout=200)[-1]
        if y and y['failures']:
            return y
    return None


def replay_jobs(prop, tree, jobs, asan=False, timeout=240):
    """run jobs on the real build; results in order (None: not run)"""
    if not jobs:
        return []
    tmp = tempfile.mkdtemp(prefix='vqrep')
    res = [None] * len(jobs)
    start = 0
    try:
        jf, of = os.path.join(tmp, 'jobs'), os.path.join(tmp, 'out')
        end = time.time() + timeout
        while start < len(jobs) and time.time() < end:
            with open(jf, 'w') as f:
                json.dump(dict(property=prop, tree=tree, jobs=jobs, start=start), f)
            open(of, 'w').close()
            envp = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
            if asan:
                lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
                envp.update(LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:halt_on_error=1')
            er = open(os.path.join(tmp, 'err'), 'wb')
            p = subprocess.Popen([sys.executable, '-m', 'vsym.replay', jf, of], cwd=HERE, env=envp, stdout=er, stderr=er)
            hang = late = False
            last = None
            lastt = time.time()
            while p.poll() is None:
                time.sleep(0.02)
                try:
                    sz = os.path.getsize(of)
                except OSError:
                    sz = 0
                if sz != last:
                    last, lastt, cpu0 = sz, time.time(), cpu_of(p.pid)
                if time.time() > end:
                    late = True
                    p.kill()
                    p.wait()
                elif time.time() - lastt > 60 and (time.time() - lastt > 150 or time.time() - lastt > 75 and cpu_of(p.pid) - cpu0 > 45 or cpu_of(p.pid) - cpu0 < 0.5):
                    hang = True
                    p.kill()
                    p.wait()
            er.close()
            started, tick = -1, None
            with open(of) as f:
                for ln in f:
                    r = json.loads(ln)
                    if 'start' in r:
                        started, tick = r['start'], None
                    elif 'tick' in r:
                        tick = r['tick']
                    else:
                        res[r['job']] = r
                        started = -1
            err = open(os.path.join(tmp, 'err'), 'rb').read().decode(errors='replace')
            if p.returncode == 0 or late:
                break
            if started < 0:
                for i in range(len(jobs)):
                    if res[i] is None:
                        res[i] = {'error': err[-1500:], 'failures': [], 'skipped': False}
                break
            why = 'hang' if hang else ('crash' if p.returncode < 0 or p.returncode == 77 or 'AddressSanitizer' in err else 'exit %s' % p.returncode)
            res[started] = {'failures': [[why, err[:1500]]], 'skipped': False, 'tick': tick}
            start = started + 1
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop and k.get('status', 'finding') == 'finding']


def is_known(known, cfg, label):
    for k in known:
        if fnmatch.fnmatchcase(cfg['name'], k['config']) and any(fnmatch.fnmatchcase(label, l) for l in k['labels']):
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--config')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--noreplay', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.property
    spec = importlib.import_module('checks.' + prop)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfgs = spec.configs(tier)
    if a.config:
        cfgs = [c for c in cfgs if fnmatch.fnmatchcase(c['name'], a.config)]
    names = [c['name'] for c in cfgs]
    assert len(set(names)) == len(names), 'duplicate configuration names'
    budget = getattr(spec, 'BUDGET', {}).get(tier, 150 if tier == 'quick' else 500)
    hard = getattr(spec, 'HARD', {}).get(tier, 420 if tier == 'quick' else 760)
    known = load_known(prop)
    mods = getattr(spec, 'REAL', [])

    # compile the real code for replays in the background
    def start_build(asan=False):
        of, ef = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        p = subprocess.Popen([sys.executable, '-m', 'vsym.realbuild', load.REPO] + mods + (['--asan'] if asan else []),
                             cwd=HERE, stdout=of, stderr=ef)
        return p, of, ef

    def finish_build(h):
        p, of, ef = h
        p.wait(600)
        of.seek(0)
        ef.seek(0)
        if p.returncode:
            raise RuntimeError('build of the real code failed: ' + ef.read().decode(errors='replace')[-1500:])
        return of.read().decode().strip().split('\n')[-1]
    fut = None if a.noreplay else start_build()

    envs, enverr = {}, None

    def env_of(cfg):
        k = spec.env_key(cfg) if hasattr(spec, 'env_key') else 'default'
        if k not in envs:
            e = spec.sym_env(cfg) if hasattr(spec, 'sym_env') else load.SymEnv()
            for m in getattr(spec, 'PRELOAD', []):
                e.load(m)
            envs[k] = e
        return envs[k]

    try:
        for cfg in cfgs:
            env_of(cfg)
        results = run_all(spec, cfgs, tier, env_of, budget, hard)
    except (core.Unsupported, Exception) as e:
        enverr = '%s: %s' % (type(e).__name__, e)
        results = [dict(cfg=c, violations=[], stats={}, complete=False, problems=['environment: ' + enverr + traceback.format_exc()[-1500:]],
                        functions=[], models=[], wall=0) for c in cfgs]

    # replay
    confirmed, unconfirmed, traces, ntraces, mism, unrepeated = [], [], 0, 0, [], []
    random_runs = 0
    replay_err = None
    if fut is not None:
        try:
            tree = finish_build(fut)
        except Exception as e:
            tree, replay_err = None, str(e)
        if tree:
            # violations are confirmed in batches, taken from the configurations in turn; the
            # rest is only looked at if none of a batch can be confirmed
            vs = sorted(((i, n, r, v) for n, r in enumerate(results) for i, v in enumerate(r['violations'])), key=lambda t: t[:2])
            first, done, tstart = True, {}, time.time()
            while (first or vs) and time.time() - tstart < 240 and not any(d['hit'] for d in done.values()):
                jobs, meta = [], []
                for i, n, r, v in vs[:60]:
                    for vals in [v['values']] + list(v.get('alts') or []):
                        jobs.append(dict(cfg=r['cfg'], values=vals))
                        meta.append(('v', r, v))
                del vs[:60]
                for r in results if first else []:
                    for m in r['models']:
                        jobs.append(dict(cfg=r['cfg'], values=m))
                        meta.append(('t', r, None))
                part = [r for r in results if not r['complete']] if first else []
                for r in part:
                    jobs.append(dict(cfg=r['cfg'], random=seed, n=getattr(spec, 'FALLBACK', 300), limit=max(2, min(60, 120 / len(part)))))
                    meta.append(('r', r, None))
                first = False
                res = replay_jobs(prop, tree, jobs)
                agreed = set()
                for i, ((k, r, v), job, x) in enumerate(zip(meta, jobs, res)):
                    if x is None:
                        continue
                    if x.get('error'):
                        replay_err = x['error']
                    if x['failures'] and r['cfg']['name'] not in agreed and len(agreed) < 4:
                        y = again(prop, tree, jobs, i, x) if time.time() - tstart < 400 else None
                        if y is None:
                            unrepeated.append((r['cfg']['name'], x['failures']))
                            x = dict(x, failures=[], skipped=True)
                        else:
                            agreed.add(r['cfg']['name'])
                    if k == 'v':
                        d = done.setdefault(id(v), dict(r=r, v=v, hit=None))
                        if d['hit'] is None and x['failures']:
                            d['hit'] = (job['values'], x['failures'])
                    elif k == 't':
                        if x['skipped']:
                            continue
                        ntraces += 1
                        if x['failures']:
                            mism.append((r, dict(label='on the real code: ' + x['failures'][0][0]), job['values'], x['failures']))
                    elif k == 'r':
                        random_runs += x.get('tried', 0)
                        if x['failures']:
                            mism.append((r, dict(label='on the real code: ' + x['failures'][0][0]), x.get('values') or {}, x['failures']))
            pend = []
            for d in done.values():
                if d['hit']:
                    confirmed.append((d['r'], d['v'], d['hit'][0], d['hit'][1]))
                else:
                    pend.append(d)
            # memory faults may be silent: repeat under AddressSanitizer
            fj = [d for d in pend if d['v']['label'].startswith('fault')]
            if fj and mods:
                try:
                    atree = finish_build(start_build(True))
                    jobs = [dict(cfg=d['r']['cfg'], values=d['v']['values']) for d in fj]
                    for d, job, x in zip(fj, jobs, replay_jobs(prop, atree, jobs, asan=True)):
                        if x and x['failures']:
                            d['hit'] = (job['values'], [['AddressSanitizer / fault', x['failures'][0][1]]])
                            confirmed.append((d['r'], d['v'], d['hit'][0], d['hit'][1]))
                except Exception as e:
                    replay_err = str(e)
            unconfirmed = [d for d in pend if not d['hit']]
            # a configuration with a counterexample that is not confirmed is not decided: random inputs on the compiled code as well
            open_ = []
            for d in unconfirmed:
                if d['r']['complete']:
                    d['r']['complete'] = False
                    d['r']['problems'] = list(d['r']['problems']) + ['a counterexample (%s) could not be confirmed' % d['v']['label']]
                    open_.append(d['r'])
            if open_ and not confirmed and not mism:
                jobs = [dict(cfg=r['cfg'], random=seed, n=getattr(spec, 'FALLBACK', 300), limit=max(2, min(60, 120 / len(open_)))) for r in open_[:60]]
                for i, (r, x) in enumerate(zip(open_, replay_jobs(prop, tree, jobs, timeout=150))):
                    if x is None:
                        continue
                    random_runs += x.get('tried', 0)
                    if x['failures'] and not mism:
                        if again(prop, tree, jobs, i, x):
                            mism.append((r, dict(label='on the real code: ' + x['failures'][0][0]), x.get('values') or {}, x['failures']))
                        else:
                            unrepeated.append((r['cfg']['name'], x['failures']))
    confirmed += mism

    # report
    nviol, seen, kseen = 0, set(), set()
    rdir = os.path.join(HERE, 'replay')
    for r, v, vals, fails in confirmed:
        labels = [v['label']] + [f[0] for f in fails] + [f[0].replace('on the real code: ', '') for f in fails]
        k = None
        for l in labels:
            k = k or is_known(known, r['cfg'], l)
        if k:
            if k['what'] not in kseen:
                kseen.add(k['what'])
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            continue
        key = (r['cfg']['name'], v['label'])
        if key in seen:
            continue
        seen.add(key)
        nviol += 1
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%d.json' % (prop, nviol))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, cfg=r['cfg'], label=v['label'], values=vals, failures=fails, detail=v.get('detail'),
                           how='cd /verif && %s -m vsym.replay %s' % (sys.executable, path)), f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('   configuration %s: %s; inputs %s; %s' % (r['cfg']['name'], v['label'], json.dumps(vals)[:400], (str(fails[0][1] or '').strip().split('\n') or [''])[-1][:300] if fails else ''))
        if nviol >= 10:
            break
    for n, f in unrepeated[:5]:
        print('UNREPEATED %s: a failure of the compiled code in %s does not happen again; not reported: %s' % (prop, n, str(f)[-700:]))
    for d in unconfirmed[:5]:
        print('INCONCLUSIVE %s: counterexample in %s (%s) does not reproduce on the compiled code; not reported; inputs %s %s' % (
            prop, d['r']['cfg']['name'], d['v']['label'], json.dumps(d['v']['values'])[:300], str(d['v'].get('detail') or '')[-700:] if a.v else ''))
    incomplete = [r for r in results if not r['complete']]
    for r in incomplete[:6 if not a.v else 100]:
        print('INCOMPLETE %s: %s: %s' % (prop, r['cfg']['name'], (r['problems'] or ['?'])[0][:3000 if a.v else 300]))
        if a.v:
            for x in r['problems'][1:3]:
                print(x[-1500:])
    tot = lambda k: sum(r['stats'].get(k, 0) or 0 for r in results)
    vac = [r['cfg']['name'] for r in results if r['complete'] and not r['stats'].get('reached')]
    for v in vac:
        print('VACUOUS %s: no assertion reached in %s' % (prop, v))
    funcs = sorted(set(f for r in results for f in r['functions']))
    notes = {}
    for r in results:
        for k, n in (r['stats'].get('notes') or {}).items():
            notes[k] = notes.get(k, 0) + n
    samples = []
    for r in results:
        for m in r['models'][:1]:
            samples.append(dict(config=r['cfg']['name'], path_witness=m))
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(spec, 'LEVEL', 'model_checking'), wall_s=round(time.time() - t0, 2), violations=nviol,
              coverage=dict(
                  states=tot('paths'), transitions=tot('branches'), traces_validated_against_impl=ntraces, samples=samples[:12],
                  configurations=len(results), configurations_complete=len(results) - len(incomplete),
                  configuration_names=[r['cfg']['name'] for r in results],
                  incomplete=[dict(config=r['cfg']['name'], why=[p[:400] for p in r['problems'][:2]]) for r in incomplete],
                  assertions_decided=tot('assertions'), assertions_reached=tot('reached'), infeasible_paths=tot('pruned'),
                  solver_queries=tot('queries'), solver_unsat=tot('unsat'), solver_sat=tot('sat'), solver_unknown=tot('unknown'),
                  solver_s=round(tot('solver_s'), 2), functions_encoded=funcs, bounds=getattr(spec, 'BOUNDS', ''), outside=getattr(spec, 'OUTSIDE', ''),
                  explanation='states = symbolic paths explored, each covering all input values satisfying its path condition; transitions = solver-decided forks; '
                              'traces_validated_against_impl = path witnesses executed on the compiled code with the same assertions',
                  fallback_concrete_runs=random_runs, unconfirmed_counterexamples=len(unconfirmed), known_findings_seen=sorted(kseen), engine_notes=notes,
                  replay_error=replay_err, unrepeated_failures=len(unrepeated), vacuous=vac),
              assumptions=getattr(spec, 'ASSUMPTIONS', []) + COMMON)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d configurations (%d complete), %d paths, %d assertions, %d queries (%.1f s solver), %d traces validated, %d violations, %.1f s' % (
        prop, tier, len(results), len(results) - len(incomplete), tot('paths'), tot('assertions'), tot('queries'), tot('solver_s'), ntraces, nviol, time.time() - t0))
    if replay_err:
        print('replay: %s' % replay_err[-600:])
    if a.v:
        for r in sorted(results, key=lambda r: -r['wall'])[:12]:
            print('   %-40s %.1fs paths %s queries %s' % (r['cfg']['name'], r['wall'], r['stats'].get('paths'), r['stats'].get('queries')))
    return 1 if nviol else 0


COMMON = [
    'arithmetic on float/double is interpreted over the real numbers (decimal constants as written); rounding is outside the claim',
    'integers of C and numpy are mathematical unless stored in a fixed-width C variable',
    'OpenMP is off as in the build; calls run to completion',
    'clang -O0 IR of the C sources and the Cython parse tree of the .pyx sources are taken as the meaning of the code',
]

if __name__ == '__main__':
    sys.exit(main())
