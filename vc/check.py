"""check PROP: discharges every obligation of the property from /repo's current source, replays
counterexamples on the untouched code, and runs the bounded concrete stand-ins."""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYMPY = '/opt/veriftools/pyvenv/bin/python3'
CONPY = '/opt/venv/bin/python'
if not os.path.exists(SYMPY):
    SYMPY = 'python3-vt'
RUN = os.path.join(HERE, 'vc', 'run.py')


def worker(mode, prop, opt, timeout):
    py = SYMPY if mode == 'sym' else CONPY
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    try:
        p = subprocess.run([py, RUN, mode, prop, json.dumps(opt)], capture_output=True, text=True, timeout=timeout, env=env, cwd='/tmp')
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
        err, rc = 'timeout', -1
    rows = []
    for l in out.splitlines():
        try:
            rows.append(json.loads(l))
        except ValueError:
            pass
    return rows, rc, err[-2000:]


def load_known():
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('status', 'known') == 'known':
                    out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    quick = tier == 'quick'
    ub = 110 if quick else 900
    cb = 20 if quick else 240
    scale = 1 if quick else 30
    rows, rc, err = worker('con', prop, {'list': True}, 120)
    if rc != 0 or not rows:
        print('cannot load property module or the code under test:', err)
        sys.exit(2)
    info = rows[0]
    units = info['units']
    jobs = max(2, min(8, (os.cpu_count() or 8)))
    sym, con = {}, {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {}
        # long units first
        for u in sorted(units, key=lambda u: -(u.get('weight') or 1)):
            if u['symbolic']:
                futs[ex.submit(worker, 'sym', prop, {'units': [u['name']], 'unit_budget': min(ub, u['timeout'] or 1e9)}, ub + 60)] = ('sym', u)
        for u in units:
            if u['concrete']:
                futs[ex.submit(worker, 'con', prop, {'units': [u['name']], 'budget': cb if u['search'] else cb / 2, 'seed': seed, 'scale': scale}, cb * 2 + 60)] = ('con', u)
        for f in cf.as_completed(list(futs)):
            kind, u = futs[f]
            rows, rc, err = f.result()
            if kind == 'sym':
                r = rows[0] if rows else {'unit': u['name'], 'status': 'crash', 'reason': err[-600:], 'obls': [], 'paths': 0,
                                          'queries': 0, 'solver_s': 0, 'wall_s': 0, 'covers': {}, 'loops': 0}
                sym[u['name']] = r
            else:
                con[u['name']] = rows[0] if rows else {'unit': u['name'], 'runs': 0, 'ok': 0, 'checks': 0, 'distinct': 0, 'fail': None,
                                                       'crash': err[-600:], 'search': u['search']}
        # bounded fallback for units the engine could not decide without a bound
        futs = {}
        for u in units:
            r = sym.get(u['name'])
            if r and r['status'] in ('unsupported',) and u['bound'] is not None:
                futs[ex.submit(worker, 'sym', prop, {'units': [u['name']], 'unit_budget': min(ub, 60), 'bounded': {u['name']: u['bound']}}, ub + 60)] = u
        for f in cf.as_completed(list(futs)):
            u = futs[f]
            rows, rc, err = f.result()
            if rows:
                rows[0]['unbounded_reason'] = sym[u['name']]['reason']
                sym[u['name']] = rows[0]
                sym[u['name']]['bounded'] = u['bound']
    for r in sym.values():
        if r.get('maxn') and not r.get('bounded'):
            r['bounded'] = r['maxn']
            r['unbounded_reason'] = 'the unit enumerates short containers'
        if r.get('limit'):
            r['bounded'] = r.get('bounded') or 1
            r['unbounded_reason'] = 'the unit enumerates shapes'
    known = load_known()

    def is_known(unit, label, vals=None):
        for k in known:
            if k['property'] == prop and k['unit'] == unit and k['label'] in label:
                if all((vals or {}).get(a) == b for a, b in (k.get('vals') or {}).items()):
                    return k
        return None
    viol, hits, undecided = [], {}, []
    ubyname = {u['name']: u for u in units}
    for name, c in con.items():
        if c.get('fail'):
            labs = [f for f in c['fail']['fails'] if not is_known(name, f[0], c['fail']['vals'])]
            for f in c['fail']['fails']:
                k = is_known(name, f[0], c['fail']['vals'])
                if k:
                    hits[k['what']] = k
            if labs:
                viol.append({'unit': name, 'how': 'bounded concrete search on the real code', 'vals': c['fail']['vals'], 'fails': labs, 'input': True})
    for name, c in con.items():
        if c.get('harness') or c.get('crash'):
            undecided.append('%s: unit does not fit the code: %s' % (name, (c.get('harness') or c.get('crash')).strip().splitlines()[-1]))
    for name, r in sym.items():
        u = ubyname[name]
        for o in r['obls']:
            if o['fail'] == 0 and o['unknown'] == 0:
                continue
            if is_known(name, o['name'], o['model']):
                hits[is_known(name, o['name'], o['model'])['what']] = 1
                continue
            if any(v['unit'] == name and v['input'] for v in viol):
                o['confirmed'] = True
                continue
            conf = None
            if o['model'] is not None and u['concrete']:
                rows, rc, err = worker('con', prop, {'units': [name], 'given': o['model']}, 120)
                if rows:
                    if rows[0]['status'] == 'fail':
                        conf = rows[0]
                    o['replay'] = rows[0]['status']
                else:
                    o['replay'] = 'crash'
            if conf:
                viol.append({'unit': name, 'how': 'verifier counterexample replayed on the real code', 'obligation': o['name'],
                             'vals': conf['vals'], 'fails': conf['fails'], 'input': True})
            elif o['fail'] and o.get('replay') in (None, 'discard') and r['status'] == 'ok':
                # search harder before giving up on an input
                rows = []
                if u['concrete']:
                    rows, rc, err = worker('con', prop, {'units': [name], 'budget': 40, 'seed': seed + 1, 'scale': 20 * scale}, 120)
                if rows and rows[0].get('fail'):
                    viol.append({'unit': name, 'how': 'failed obligation; input found by search', 'obligation': o['name'],
                                 'vals': rows[0]['fail']['vals'], 'fails': rows[0]['fail']['fails'], 'input': True})
                else:
                    viol.append({'unit': name, 'how': 'failed obligation', 'obligation': o['name'], 'model': o['model'], 'input': False,
                                 'verifier': o, 'exc': r.get('exc')})
            else:
                undecided.append('%s: %s (%s)' % (name, o['name'], 'counterexample does not fail on the real code' if o.get('replay') == 'ok' else 'solver unknown / bounded'))
        if r['status'] != 'ok':
            undecided.append('%s: %s %s' % (name, r['status'], r['reason'][:200]))
    # ---- evidence
    obl = sum(o['n'] for r in sym.values() for o in r['obls'] if not r.get('bounded'))
    dis = sum(o['ok'] for r in sym.values() for o in r['obls'] if not r.get('bounded'))
    und_units = [r['unit'] for r in sym.values() if r['status'] != 'ok']
    obl += len(und_units)
    funcs = sorted({f for r in sym.values() if r['status'] == 'ok' and not r.get('bounded') for f in r.get('functions', [])})
    bounded_units = [{'unit': r['unit'], 'bound': r.get('limit') or 'container length <= %d (everything else unbounded)' % r['bounded'], 'why': r.get('unbounded_reason', ''),
                      'obligations': sum(o['n'] for o in r['obls']), 'discharged': sum(o['ok'] for o in r['obls'])}
                     for r in sym.values() if r.get('bounded')]
    conruns = sum(c['runs'] for c in con.values())
    proof_level = info['level'] == 'proof'
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': 'cd /verif && VERIF_TIER=%s ./check %s' % (tier, prop),
        'trusted_base': info['trusted'] + ['vc engine (symbolic evaluation of CPython semantics on proxies, source rewriting of vc/loader.py)', 'z3 %s' % info.get('z3', '5')],
        'back_end': 'z3 (python API), one validity query per obligation and path',
        'functions_under_contract': funcs,
        'named_obligations': sum(len(r['obls']) for r in sym.values()),
        'units': [{'unit': r['unit'], 'status': r['status'], 'paths': r['paths'], 'queries': r['queries'], 'solver_s': r['solver_s'],
                   'loops_cut': r.get('loops', 0), 'invariant_preservations': r.get('inv', 0),
                   'obligations': {o['name']: [o['ok'], o['n']] for o in r['obls']}} for r in sym.values()],
        'solver_s': round(sum(r['solver_s'] for r in sym.values()), 2),
        'bounded_stand_ins': bounded_units + [{'unit': c['unit'], 'kind': 'concrete search on the real code (never counted as proved)', 'cases': c['ok'], 'checks': c['checks'], 'sample': c.get('sample')}
                                              for c in con.values() if c.get('search')],
        'cpython_cross_check': {c['unit']: [c['ok'], c['checks']] for c in con.values() if not c.get('search')},
        'undecided': undecided,
        'evaluations': conruns,
        'distinct_nontrivial': sum(c['distinct'] for c in con.values()),
        'rule': 'each concrete case draws every input of the unit from the seeded generator; distinct = different drawn inputs whose preconditions held and whose contract was evaluated',
        'samples': [c['sample'] for c in con.values() if c.get('sample')][:3],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': info['level'], 'coverage': cov,
          'assumptions': info['assumptions'], 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        if k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s: obligations %d discharged %d, %d units (%d bounded), concrete cases %d, undecided %d, %.1fs' % (
        prop, obl, dis, len(sym), len(bounded_units), conruns, len(undecided), time.time() - t0))
    for x in undecided:
        print('  undecided:', x)
    if viol:
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        done = set()
        viol.sort(key=lambda v: not v['input'])
        for v in viol:
            if v['unit'] in done:
                continue
            done.add(v['unit'])
            path = os.path.join(HERE, 'out', '%s-%s.json' % (prop, v['unit']))
            v['property'] = prop
            v['replay_cmd'] = "cd /verif && ./replay %s" % path
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            lab = v.get('obligation') or v['fails'][0][0]
            print('  failed: %s / %s (%s)' % (v['unit'], lab, v['how']))
            if v['input']:
                print('    ' + '; '.join('%s %s' % (a, b.strip().splitlines()[-1] if b.strip() else '') for a, b in v['fails'][:3]))
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v['input'] else ' no-failing-input-found'))
        sys.exit(1)
    if obl == 0 and sum(c['ok'] for c in con.values()) == 0:
        print('nothing was checked')
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
