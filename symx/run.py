"""Command line: python3-vt -m symx.run PROPERTY [--tier quick|thorough] [--config NAME] [--root DIR] [-v]"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = '/opt/venv/bin/python'
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known_findings(prop):
    """{id: text} of the recorded findings of one property."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'KNOWN-FINDING: property=(\S+) id=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--config')
    ap.add_argument('--root', default='/repo')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--stop', action='store_true', help='stop at the first violation (development)')
    a = ap.parse_args()
    from symx import reg
    t0 = time.time()
    cfgs = [c for c in reg.configs(a.prop) if a.tier == 'thorough' or c.tier == 'quick']
    if a.config:
        cfgs = [c for c in reg.configs(a.prop) if re.fullmatch(a.config, c.name)]
    limit = 780 if a.tier == 'quick' else 3 * 3600
    known = known_findings(a.prop)
    scratch = tempfile.mkdtemp(prefix='symx_%s_' % a.prop, dir='/tmp')
    procs = {}
    results = {}
    try:
        dest = os.path.join(scratch, 'tree')
        os.mkdir(dest)
        env = dict(os.environ, PATH='/opt/venv/bin:' + os.environ.get('PATH', ''), HOME=scratch, PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        blog = open(os.path.join(scratch, 'build.log'), 'w')
        bp = subprocess.Popen([VENV, os.path.join(HERE, 'symx', 'buildx.py'), a.root, dest], stdout=blog, stderr=subprocess.STDOUT,
                              env=env, cwd=scratch, start_new_session=True)
        bdone = False
        todo = sorted(cfgs, key=lambda c: -c.budget)
        wenv = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        while todo or procs:
            if not bdone and bp.poll() is not None:
                bdone = True
                open(os.path.join(dest, 'BUILD_DONE'), 'w').write(str(bp.returncode))
            while todo and len(procs) < a.j:
                c = todo.pop(0)
                o = os.path.join(scratch, 'r_%s.json' % c.name)
                l = open(os.path.join(scratch, 'l_%s.txt' % c.name), 'w')
                p = subprocess.Popen([sys.executable, '-m', 'symx.worker', a.prop, c.name, a.tier, a.root, dest, o, ','.join(known)],
                                     cwd=HERE, env=wenv, stdout=l, stderr=subprocess.STDOUT, start_new_session=True)
                procs[c.name] = (p, c, o, l, time.time())
            time.sleep(0.05)
            for n, (p, c, o, l, ts) in list(procs.items()):
                lim = c.budget * (5 if a.tier == 'thorough' else 1) + 240
                if p.poll() is None and (time.time() - ts > lim or time.time() - t0 > limit):
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                if p.poll() is not None:
                    l.close()
                    if os.path.exists(o):
                        results[n] = json.load(open(o))
                    else:
                        results[n] = dict(config=n, bounds=c.bounds, fatal='worker ended with %s: %s' % (p.returncode, open(l.name).read()[-1500:]),
                                          paths=0, violations=[], notes=[], validated=0, n_not_encoded=0, n_unknown=0, functions=[],
                                          unexplored_prefixes=0, closed_by_normal_form=0, solver_obligations=0, stats={}, labels={},
                                          known_hit=[], infeasible=0, mismatches=0, unknown_branches=0, not_encoded=[], unreproduced=0, sample=None, wall_s=round(time.time() - ts, 1))
                    if a.v:
                        r = results[n]
                        print(' ', r['config'], 'paths', r['paths'], 'inf', r['infeasible'], 'left', r['unexplored_prefixes'], 'closed', r['closed_by_normal_form'], 'solver', r['solver_obligations'],
                              'unk', r['n_unknown'], 'gap', r['n_not_encoded'], 'valid', r['validated'], 'mism', r['mismatches'], 'viol', len(r['violations']),
                              't %.1f/%.1f' % (r['stats'].get('solver_s', 0), r['wall_s']), r.get('fatal') or '', flush=True)
                    del procs[n]
                    if a.stop and results[n]['violations']:
                        todo = []
                        for q in procs.values():
                            try:
                                os.killpg(q[0].pid, signal.SIGKILL)
                            except ProcessLookupError:
                                pass
        if not bdone:
            bp.wait()
        report(a, cfgs, results, known, t0)
    finally:
        for n, (p, c, o, l, ts) in procs.items():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)


def report(a, cfgs, results, known, t0):
    order = [c.name for c in cfgs]
    rs = [results[n] for n in order if n in results]
    viol, known_hit = [], set()
    funcs = set()
    tot = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, decisions=0, cache_hits=0)
    for r in rs:
        funcs |= set(r['functions'])
        known_hit |= set(r['known_hit'])
        for k in tot:
            tot[k] += r['stats'].get(k, 0)
        for v in r['violations']:
            viol.append((r['config'], v))
    inconc = []
    for r in rs:
        why = []
        if r.get('fatal'):
            why.append(r['fatal'][-300:])
        if not r['paths'] and not r['violations']:
            why.append('no path completed')
        if r['n_unknown']:
            why.append('%d obligations without a verdict (%s)' % (r['n_unknown'], ', '.join(sorted({u['label'] for u in r.get('unknown', [])}))))
        if r['n_not_encoded']:
            why.append('%d paths not encoded: %s' % (r['n_not_encoded'], '; '.join(sorted(set(r['not_encoded'])))[:300]))
        if r['unexplored_prefixes'] and not r['violations']:
            why.append('%d branches left unexplored at the budget' % r['unexplored_prefixes'])
        if r['unreproduced']:
            why.append('%d counterexamples not reproduced' % r['unreproduced'])
        if r['mismatches']:
            why.append('%d encoder mismatches' % r['mismatches'])
        if r['paths'] and not r['validated'] and not r['violations']:
            why.append('no path replayed on the real code')
        if why:
            inconc.append((r['config'], why))
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    lines = []
    for k, (cn, v) in enumerate(viol[:10]):
        p = os.path.join(HERE, 'evidence', 'replays', '%s_%s_%d.json' % (a.prop, re.sub(r'\W', '_', cn), k))
        with open(p, 'w') as f:
            json.dump(dict(property=a.prop, config=cn, env=v['env'], how=v['how'], label=v['label'], detail=v['detail'], real=v['real']), f, indent=1)
        lines.append((p, cn, v))
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(states=sum(r['paths'] + r['infeasible'] for r in rs), transitions=tot['decisions'],
                            traces_validated_against_impl=sum(r['validated'] for r in rs),
                            samples=[dict(config=r['config'], model=r['sample']) for r in rs if r.get('sample')][:6],
                            technique='symbolic execution of the current source; obligations decided by z3 (cvc5 as second opinion) over all values within the bounds',
                            functions_encoded=sorted(funcs), bounds={r['config']: r['bounds'] for r in rs},
                            obligations=dict(by_solver=sum(r['solver_obligations'] for r in rs), by_normal_form=sum(r['closed_by_normal_form'] for r in rs),
                                             no_verdict=sum(r['n_unknown'] for r in rs)),
                            queries=tot, solver_time_s=round(tot['solver_s'], 2),
                            configurations=[{k: r.get(k) for k in ('config', 'paths', 'infeasible', 'unexplored_prefixes', 'solver_obligations', 'closed_by_normal_form',
                                                                  'validated', 'n_unknown', 'n_not_encoded', 'unknown_branches', 'explore_s', 'wall_s', 'labels')} for r in rs],
                            inconclusive=[dict(config=c, why=w) for c, w in inconc],
                            notes=[n for r in rs for n in r['notes']][:20]),
              wall_s=round(time.time() - t0, 2),
              assumptions=['floating point is read as real arithmetic (float literals as exact decimals)',
                           'library stand-ins (numpy element-wise functions, healpy pixel geometry) behave as documented',
                           'values outside the stated bounds of each configuration are not covered'],
              violations=[dict(config=cn, label=v['label'], real=v['real'], replay=p) for p, cn, v in lines])
    if not a.config:
        with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for c, w in inconc:
        print('INCONCLUSIVE property=%s config=%s %s' % (a.prop, c, '; '.join(w)))
    if a.v:
        for r in rs:
            for n in r['notes']:
                print('NOTE', r['config'], n)
    for k in sorted(known):
        if k in known_hit:
            print('KNOWN-FINDING: property=%s %s %s' % (a.prop, k, known[k]))
    for p, cn, v in lines:
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
        print('  config=%s %s: %s | %s' % (cn, v['how'], v['label'], v['real']))
    c = ev['coverage']
    print('%s %s: %d configurations, %d paths, %d obligations (%d by solver), %d queries, %.1fs solver, %d paths replayed, %.1fs'
          % (a.prop, 'VIOLATED' if viol else 'held', len(rs), c['states'], c['obligations']['by_solver'] + c['obligations']['by_normal_form'],
             c['obligations']['by_solver'], tot['queries'], tot['solver_s'], c['traces_validated_against_impl'], time.time() - t0))
    sys.stdout.flush()
    if viol:
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
