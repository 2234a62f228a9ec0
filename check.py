#!/opt/venv/bin/python
"""usage: check.py PROPERTY            run the check of one property
          check.py --concrete JOB.json  (internal) run harnesses on the real code
          check.py --replay FILE.json   re-run a recorded counterexample"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from lib import lift                                           # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
BUDGET = float(os.environ.get('VERIF_BUDGET', '780' if TIER == 'quick' else '820'))


def load(prop):
    return importlib.import_module('harness.' + prop.lower())


def tasks_of(mod):
    """[(harness name, config dict)]"""
    out = []
    for h in mod.HARNESSES:
        cfgs = h.get('configs', [{}])
        if TIER == 'thorough':
            cfgs = list(cfgs) + list(h.get('thorough', []))
        for c in cfgs:
            out.append((h['name'], c))
    return out


def harness_fn(mod, name):
    for h in mod.HARNESSES:
        if h['name'] == name:
            return h
    raise KeyError(name)


# ------------------------------------------------------------------ concrete
def tojson(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return [tojson(x) for x in v.reshape(-1).tolist()] + ['shape', list(v.shape)]
    if isinstance(v, (list, tuple)):
        return [tojson(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if hasattr(v, 'item'):
        v = v.item()
    if isinstance(v, (int, float)):
        v = float(v)
        return v if v == v and abs(v) != float('inf') else repr(v)
    if v is None or isinstance(v, str):
        return v
    return repr(v)


def run_concrete(mod, repo, name, cfg, values, seed=None, lifted=False):
    from lib import engine
    h = harness_fn(mod, name)
    rng = random.Random(seed) if seed is not None else None
    t = engine.ConcreteT(values, rng=rng, lifted=lifted)
    res = dict(ok=True, label=None, detail='', used=None)
    try:
        h['fn'](t, repo, **cfg)
    except engine.Stop:
        pass
    except engine.Skip:
        res.update(ok=None)
    except engine.Violation as e:
        res.update(ok=False, label=e.label, detail=str(e.detail))
    except Exception as e:
        res.update(ok=False, label='exception:' + type(e).__name__,
                   detail='%s | %s' % (e, ' <- '.join(
                       '%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
                       for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))))
    res['used'] = t.used
    res['obs'] = {k: tojson(v) for k, v in t.obs.items()}
    res['labels'] = sorted(set(t.labels))
    return res


def concrete_main(jobfile):
    lift.prepare_env(jit=True)
    import contextlib
    import io
    with open(jobfile) as f:
        job = json.load(f)
    mod = load(job['property'])
    repo = lift.Repo(lift.import_repo())
    if hasattr(mod, 'setup_real'):
        mod.setup_real(repo)
    out = []
    t_end = time.time() + job.get('budget', 400)
    import numpy as np
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        for it in job['items']:
            rs = []
            for kind, v in it['tries']:
                if time.time() > t_end:
                    break
                if kind == 'values':
                    r = run_concrete(mod, repo, it['name'], it['cfg'], v)
                else:
                    r = run_concrete(mod, repo, it['name'], it['cfg'], {}, seed=v)
                r['try'] = [kind, v]
                rs.append(r)
                if it.get('stop_at_fail') and r['ok'] is False:
                    break
            out.append(rs)
    with open(job['out'], 'w') as f:
        json.dump(out, f)


def concrete_jobs(prop, items, tmp, tag, budget=400):
    jf = os.path.join(tmp, 'job_%s.json' % tag)
    of = os.path.join(tmp, 'out_%s.json' % tag)
    with open(jf, 'w') as f:
        json.dump(dict(property=prop, items=items, out=of, budget=budget), f)
    p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--concrete', jf],
                       cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + 200)
    if not os.path.exists(of):
        raise RuntimeError('concrete runner failed:\n' + p.stdout.decode()[-3000:])
    with open(of) as f:
        return json.load(f)


# ------------------------------------------------------------------ symbolic
_G = {}


def _worker(arg):
    i, name, cfg, deadline = arg
    import contextlib
    import io
    mod, repo = _G['mod'], _G['repo']
    from lib import engine
    h = harness_fn(mod, name)
    opt = dict(h.get('engine', {}))
    eng = engine.Engine(budget_s=max(5., deadline - time.time()), **opt)
    t0 = time.time()
    import numpy as np

    def late(*a):
        raise TimeoutError('time budget of the check used up')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(max(5., deadline - time.time())))
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        try:
            eng.explore(lambda t: h['fn'](t, repo, **cfg))
        except Exception:
            eng.errors.append(traceback.format_exc())
    signal.alarm(0)
    # encoder validation inputs: lifted concrete runs
    val = []
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        for k in range(h.get('validate', 2)):
            seed = SEED * 1000 + k * 17 + i
            try:
                r = run_concrete(mod, repo, name, cfg, {}, seed=seed, lifted=True)
            except BaseException as e:
                r = dict(ok=False, label='lifted:' + type(e).__name__, detail=str(e), obs={}, used={}, labels=[])
            r['seed'] = seed
            val.append(r)
    return dict(i=i, name=name, cfg=cfg, stats=eng.stats, ces=eng.ces, errors=eng.errors,
                labels=sorted(eng.labels), samples=eng.samples, wall=time.time() - t0, val=val)


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-7 + 1e-6 * max(abs(a), abs(b))
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        return float(a) == float(b)
    return a == b


def known_findings():
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return json.load(fh).get('findings', [])


def is_known(kf, prop, name, cfg, label):
    for k in kf:
        if k['property'] == prop and k['harness'] == name and k.get('config', cfg) == cfg and \
                label.split('[')[0] in k['labels']:
            return k
    return None


def _replays(r):
    """what to run on the real code for the counterexamples (or encoding errors) of one configuration"""
    items, back, seen = [], [], {}
    for ce in r['ces']:
        lab = ce['label'].split('[')[0]
        seen[lab] = seen.get(lab, 0) + 1
        if seen[lab] > 2:
            continue
        tries = [['values', v] for v in ce['values']]
        tries += [['seed', SEED * 7919 + k] for k in range(40)]
        items.append(dict(name=r['name'], cfg=r['cfg'], tries=tries, stop_at_fail=True))
        back.append(('ce', r, ce))
    if r['errors'] and not r['ces']:
        items.append(dict(name=r['name'], cfg=r['cfg'], stop_at_fail=True,
                          tries=[['seed', SEED * 7919 + k] for k in range(24)]))
        back.append(('err', r, None))
    return items, back


def _refuted(prop, r, tmp, n, kf):
    """does a counterexample of this configuration fail on the real code (and is not a known finding)?"""
    items, back = _replays(r)
    for res in concrete_jobs(prop, items[:3], tmp, 'early%d' % n, budget=60):
        for q in res:
            if q['ok'] is False and not is_known(kf, prop, r['name'], r['cfg'], q['label']):
                return True
    return False


def main(prop):
    t0 = time.time()
    lift.prepare_env(jit=False)
    deadline = t0 + BUDGET
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    os.environ['NUMBA_CACHE_DIR'] = tmp
    rc = 2
    try:
        rc = _main(prop, t0, deadline, tmp)
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s machinery failed' % prop)
        rc = 2
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    return rc


def _main(prop, t0, deadline, tmp):
    mod = load(prop)
    mods = lift.import_repo()
    lift.lift(mods)
    repo = lift.Repo(mods)
    if hasattr(mod, 'setup_lifted'):
        mod.setup_lifted(repo)
    _G['mod'], _G['repo'] = mod, repo
    tasks = [(i, n, c, deadline - 120) for i, (n, c) in enumerate(tasks_of(mod))]
    ctx = mp.get_context('fork')
    results = []
    kf = known_findings()
    from concurrent.futures import ThreadPoolExecutor
    ex0 = ThreadPoolExecutor(2)
    early = []
    if NPROC > 1 and len(tasks) > 1:
        with ctx.Pool(min(NPROC, len(tasks)), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(_worker, tasks, chunksize=1)
            while len(results) < len(tasks):
                try:
                    r = it.next(timeout=1.)
                    results.append(r)
                    if (r['ces'] or r['errors']) and len(early) < 12 and len(results) < len(tasks):
                        early.append(ex0.submit(_refuted, prop, r, tmp, len(early), kf))
                except mp.TimeoutError:
                    pass
                except StopIteration:
                    break
                if any(f.done() and not f.exception() and f.result() for f in early):
                    # the property is refuted: no need to wait for the other configurations
                    pool.terminate()
                    break
    else:
        results = [_worker(t) for t in tasks]
    ex0.shutdown(wait=False, cancel_futures=True)
    results.sort(key=lambda r: r['i'])

    # ---------------- replay counterexamples + validation on the real code
    items, back = [], []
    for r in results:
        i_, b_ = _replays(r)
        items += i_
        back += b_
        for v in r['val']:
            items.append(dict(name=r['name'], cfg=r['cfg'], tries=[['seed', v['seed']]]))
            back.append(('val', r, v))
    conc = []
    if items:
        nb = min(NPROC, max(1, len(items) // 4))
        groups = [list(range(k, len(items), nb)) for k in range(nb)]
        rem = max(60., deadline + 90 - time.time())
        with ThreadPoolExecutor(nb) as ex:
            outs = list(ex.map(lambda kg: concrete_jobs(prop, [items[j] for j in kg[1]], tmp, str(kg[0]),
                                                        budget=rem), enumerate(groups)))
        conc = [None] * len(items)
        for g, o in zip(groups, outs):
            for j, x in zip(g, o):
                conc[j] = x
    kf = known_findings()
    violations, problems, known = [], [], []
    validated = 0
    for (kind, r, x), res in zip(back, conc):
        where = '%s%s' % (r['name'], json.dumps(r['cfg'], sort_keys=True))
        if kind == 'err':
            # not encodable: what the real code does on concrete inputs can still refute the property
            for q in res:
                if q['ok'] is False:
                    k = is_known(kf, prop, r['name'], r['cfg'], q['label'])
                    if k:
                        known.append((k, q))
                    else:
                        violations.append(dict(property=prop, harness=r['name'], cfg=r['cfg'], label=q['label'],
                                               detail=q['detail'], values=q['used'],
                                               solver_label='(not encodable; concrete run)', why='', by_model=False))
                    break
        elif kind == 'ce':
            bad = [q for q in res if q['ok'] is False]
            if bad:
                b = bad[0]
                k = is_known(kf, prop, r['name'], r['cfg'], b['label'])
                if k:
                    known.append((k, b))
                else:
                    violations.append(dict(property=prop, harness=r['name'], cfg=r['cfg'], label=b['label'],
                                           detail=b['detail'], values=b['used'], solver_label=x['label'],
                                           why=x['why'][:2000], by_model=b['try'][0] == 'values'))
            elif x['unknown']:
                problems.append('inconclusive (solver unknown): %s %s' % (where, x['label']))
            else:
                problems.append('counterexample does not reproduce on the real code: %s %s %s values=%s' % (
                    where, x['label'], x['why'][-1500:], json.dumps(x['values'])[:600]))
        else:
            q = res[0] if res else None
            if q is None:
                problems.append('validation run missing: %s' % where)
            elif q['ok'] is False:
                k = is_known(kf, prop, r['name'], r['cfg'], q['label'])
                if k:
                    known.append((k, q))
                else:
                    violations.append(dict(property=prop, harness=r['name'], cfg=r['cfg'], label=q['label'],
                                           detail=q['detail'], values=q['used'], solver_label='(validation run)',
                                           why='', by_model=False))
            elif q['ok'] is None and x['ok'] is None:
                pass
            elif x['ok'] is not True or not close_obs(q['obs'], x['obs']):
                problems.append('encoder disagrees with the real code: %s seed=%s lifted=%s/%s real=%s/%s' % (
                    where, x['seed'], x.get('label'), x.get('detail'), q.get('label'), diff_obs(q['obs'], x['obs'])))
            else:
                validated += 1
    for r in results:
        for e in r['errors']:
            problems.append('%s%s: %s' % (r['name'], json.dumps(r['cfg'], sort_keys=True), e))
        if not r['labels'] and not r['ces']:
            problems.append('vacuous: no assertion reached in %s%s' % (r['name'], r['cfg']))
        h = harness_fn(mod, r['name'])
        for lab in h.get('must_reach', []):
            if lab not in r['labels'] and not r['ces']:
                problems.append('vacuous: assertion %s not reached in %s%s' % (lab, r['name'], r['cfg']))

    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    samples = []
    for r in results[:6]:
        samples.append(dict(harness=r['name'], config=r['cfg'], paths=r['stats']['paths'],
                            queries=r['stats']['queries'], assertions=r['labels'][:6],
                            wall_s=round(r['wall'], 2)))
    ev = dict(property=prop, tier=TIER, seed=SEED, level='model_checking',
              coverage=dict(
                  states=int(tot.get('paths', 0)), transitions=int(tot.get('decisions', 0) + tot.get('queries', 0)),
                  traces_validated_against_impl=validated, samples=samples,
                  rule='states = symbolic paths completed; transitions = branch decisions + assertion queries',
                  functions_encoded=list(getattr(mod, 'FUNCTIONS', [])),
                  bounds=getattr(mod, 'BOUNDS', ''), outside=getattr(mod, 'OUTSIDE', ''),
                  configurations=len(results),
                  queries_discharged=int(tot.get('unsat', 0)), queries=int(tot.get('queries', 0)),
                  closed_by_normal_form=int(tot.get('normalised', 0)),
                  normal_form_confirmed_by_solver=int(tot.get('norm_confirmed', 0)), closed_concretely=int(tot.get('trivial', 0)),
                  branch_queries=int(tot.get('fork_queries', 0)), branch_unknown=int(tot.get('fork_unknown', 0)),
                  solver_s=round(tot.get('solver_s', 0.), 3), solver='z3 ' + _z3v(),
                  reachability_witnesses=int(tot.get('witness_sat', 0)),
                  reachability_unknown=int(tot.get('witness_unknown', 0)),
                  assertions=sorted(set(sum([r['labels'] for r in results], []))),
                  replays=sum(1 for b in back if b[0] == 'ce'),
                  inconclusive=[p[:300] for p in problems[:10]]),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'program floats are treated as reals; every claim has an explicit numeric margin',
                  'NUMBA_DISABLE_JIT=1 in the lifted run; the JIT build is only exercised by the validation and '
                  'replay runs'],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    seenk = set()
    for k, b in known:
        if k['id'] not in seenk:
            seenk.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s: %d configurations, %d paths, %d queries (%d unsat), %d closed by normal form, %d validated runs, '
          'solver %.1fs, wall %.1fs' % (prop, len(results), tot.get('paths', 0), tot.get('queries', 0),
                                        tot.get('unsat', 0), tot.get('normalised', 0), validated,
                                        tot.get('solver_s', 0.), time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for r in results:
            print('   %-28s %s paths=%d inf=%d q=%d unk=%d forkunk=%d wall=%.1f labels=%s' % (
                r['name'], r['cfg'], r['stats']['paths'], r['stats']['infeasible'], r['stats']['queries'],
                r['stats']['unknown'], r['stats']['fork_unknown'], r['wall'], ','.join(r['labels'])))
    if violations:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        done = set()
        for v in violations:
            key = (v['harness'], v['label'].split('[')[0])
            if key in done:
                continue
            done.add(key)
            hsh = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:8]
            path = os.path.join(HERE, 'replays', '%s_%s.json' % (prop, hsh))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('  %s %s: %s %s  [solver: %s]' % (v['harness'], json.dumps(v['cfg'], sort_keys=True), v['label'],
                                                    v['detail'][:300], v['solver_label']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            if len(done) >= 5:
                break
        for p in problems[:3]:
            print('note: ' + p[:600])
        return 1
    if problems:
        for p in problems[:12]:
            print('UNDECIDED: ' + p[:3000])
        good = sum(1 for r in results if r['labels'] and not r['errors'] and not r['ces'])
        print('%d of %d configurations decided' % (good, len(results)))
        return 0 if 2 * good >= len(results) else 2
    return 0


def close_obs(a, b):
    return set(a) == set(b) and all(close(a[k], b[k]) for k in a)


def diff_obs(a, b):
    for k in a:
        if k not in b:
            return 'missing ' + k
        if not close(a[k], b[k]):
            return '%s: real %s lifted %s' % (k, str(a[k])[:300], str(b[k])[:300])
    return 'same'


def _z3v():
    from lib import sym
    return sym.z3.get_version_string()


def replay_main(path):
    with open(path) as f:
        v = json.load(f)
    tmp = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        out = concrete_jobs(v['property'], [dict(name=v['harness'], cfg=v['cfg'], tries=[['values', v['values']]])],
                            tmp, 'r')
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    r = out[0][0]
    print(json.dumps(dict(ok=r['ok'], label=r['label'], detail=r['detail']), indent=1))
    return 0 if r['ok'] else 1


if __name__ == '__main__':
    if len(sys.argv) >= 3 and sys.argv[1] == '--concrete':
        concrete_main(sys.argv[2])
        sys.exit(0)
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        sys.exit(replay_main(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
