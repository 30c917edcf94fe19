"""Explores one configuration and replays its results on the real package."""
import json
import os
import random
import subprocess
import sys
import time

from . import core, hsym, reg

VENV = '/opt/venv/bin/python'


def concrete(prop, dest, cases, known, timeout=300):
    if not cases:
        return []
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONPATH=here, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', HOME='/root',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MALLOC_PERTURB_='173')
    req = dict(prop=prop, root=dest, cases=cases, known=sorted(known))
    try:
        r = subprocess.run([VENV, '-m', 'symx.hcon'], input=json.dumps(req).encode(), capture_output=True, env=env,
                           timeout=timeout, cwd='/tmp')
        return json.loads(r.stdout.decode())
    except (subprocess.TimeoutExpired, ValueError) as e:
        sys.stderr.write('concrete runner failed: %s\n' % e)
        try:
            sys.stderr.write(r.stderr.decode()[-2000:])
        except Exception:
            pass
        return None


def failing(r):
    if r['fails']:
        return 'label %s: %s' % tuple(r['fails'][0])
    if r['status'] == 'exception' and r.get('in_code'):
        return 'exception %s (%s)' % (r['error'], r.get('where', ''))
    if r['status'] in ('crash', 'timeout'):
        return r['status'] + ' ' + r['error']
    return None


def perturbed(env, rnd, k):
    out = []
    for i in range(k):
        s = (1e-3, 1e-2, 1e-4)[i % 3]
        e = {}
        for n, v in env.items():
            e[n] = v if isinstance(v, int) else v * (1 + s * rnd.uniform(-1, 1)) + s * rnd.uniform(-1, 1) * 0.1
        out.append(e)
    return out


def close(a, b):
    a, b = (None if x is None or x != x or abs(x) == float('inf') else x for x in (a, b))
    if a is None or b is None:
        return a is b
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def main(prop, name, tier, root, dest, outp, known):
    import resource
    lim = 5 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    t0 = time.time()
    cfg = [c for c in reg.configs(prop) if c.name == name][0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import fort
    budget = cfg.budget * (5 if tier == 'thorough' else 1)
    funcs = {}

    def prof(frame, ev, arg):
        if ev == 'call':
            f = frame.f_code.co_filename
            if f.startswith(root):
                q = f[len(root):].lstrip('/') + ':' + frame.f_code.co_qualname
                if '<' not in q.split(':')[1] or '<locals>' in q:
                    funcs[q] = funcs.get(q, 0) + 1
    run = hsym.Run(cfg, root, budget, seed=seed, fortran=fort.Frontend(funcs), known_ids=known)
    sys.setprofile(prof)
    fatal = None
    try:
        run.explore()
    except MemoryError:
        fatal = 'out of memory'
    except EngineAbort as e:
        fatal = str(e)
    sys.setprofile(None)
    core.set_cur(None)
    texp = time.time() - t0
    # wait for the scratch build
    while not os.path.exists(os.path.join(dest, 'BUILD_DONE')):
        if time.time() - t0 > 800:
            break
        time.sleep(0.1)
    cases, tags = [], []
    for i, c in enumerate(run.cands):
        cases.append(dict(config=name, env=c['env']))
        tags.append(('cand', i))
    for i, e in enumerate(run.engine):
        if e['env']:
            cases.append(dict(config=name, env=e['env']))
            tags.append(('engine', i))
    for i, c in enumerate(run.cases):
        cases.append(dict(config=name, env=c['env']))
        tags.append(('path', i))
    res = concrete(prop, dest, cases, known)
    viol, notes = [], []
    validated = mism = 0
    recheck = []
    if res is None:
        notes.append('concrete replay did not run')
        res = []
    unrepro = 0
    for (tag, i), r, case in zip(tags, res, cases):
        f = failing(r)
        if tag == 'cand':
            c = run.cands[i]
            if f:
                viol.append(dict(how='solver counterexample', label=c['label'], detail=c['detail'], real=f, env=c['env']))
            else:
                unrepro += 1
                notes.append('counterexample of %s (%s) does not reproduce on the real code: status %s %s' % (c['label'], c['detail'], r['status'], r.get('error', '')))
        else:
            if f:
                recheck.append((tag, i, r, f, case))
                continue
            if tag == 'path':
                if r['status'] == 'ok' and r['n'] > 0:
                    c = run.cases[i]
                    bad = None
                    if not c['dirs']:
                        for lab, l in c['obs'].items():
                            m = r['obs'].get(lab, [])[:len(l)]
                            if len(m) != len(l) and len(l) < 60 or any(not close(a, b) for a, b in zip(l, m) if a is not None):
                                bad = lab
                    if bad:
                        mism += 1
                        if mism <= 3:
                            notes.append('encoder/implementation mismatch at %s: %s vs %s env %s' % (bad, c['obs'][bad][:6], r['obs'].get(bad, [])[:6], str(c['env'])[:300]))
                    else:
                        validated += 1
                elif r['status'] not in ('skip', 'ok'):
                    notes.append('path replay: %s %s' % (r['status'], r.get('error', '')))
    if recheck:
        rnd = random.Random(seed)
        pc, owner = [], []
        for k, (tag, i, r, f, case) in enumerate(recheck[:8]):
            for e in perturbed(case['env'], rnd, 9):
                pc.append(dict(config=name, env=e))
                owner.append(k)
        rr = concrete(prop, dest, pc, known) or []
        cnt = {}
        for k, r in zip(owner, rr):
            if failing(r):
                cnt.setdefault(k, []).append(r)
        for k, (tag, i, r, f, case) in enumerate(recheck[:8]):
            free = [v for v in case['env'].values() if not isinstance(v, int)]
            if len(cnt.get(k, [])) >= 2 or not free:
                viol.append(dict(how='replay of a %s model on the real code' % tag, label=f.split(':')[0], detail='', real=f, env=case['env']))
            else:
                notes.append('isolated (rounding) difference on the real code at a %s model: %s' % (tag, f))
    st = run.sh.stats.as_dict()
    out = dict(config=name, bounds=cfg.bounds, tier=tier, paths=run.paths, infeasible=run.aborted, unexplored_prefixes=run.left,
               closed_by_normal_form=run.n_closed, solver_obligations=run.n_solver, unknown=run.unknown[:10], n_unknown=len(run.unknown),
               unknown_branches=run.sh.unknown_branches, labels=run.labels, stats=st, not_encoded=[e['why'] for e in run.engine[:12]], n_not_encoded=len(run.engine),
               validated=validated, mismatches=mism, unreproduced=unrepro, violations=viol, notes=notes[:20], fatal=fatal,
               known_hit=sorted(run.known_hit), functions=sorted(funcs), explore_s=round(texp, 2), wall_s=round(time.time() - t0, 2),
               sample=run.cases[0]['env'] if run.cases else None, slow=sorted(run.sh.slow, reverse=True)[:5])
    with open(outp, 'w') as f:
        json.dump(out, f)


class EngineAbort(Exception):
    pass


if __name__ == '__main__':
    a = sys.argv
    main(a[1], a[2], a[3], a[4], a[5], a[6], [k for k in a[7].split(',') if k])
