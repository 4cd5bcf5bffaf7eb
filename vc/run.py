"""worker: python run.py sym|con PROP OPTIONS-JSON  -> JSON on the last line of stdout"""
import importlib
import json
import os
import random
import sys
import time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(3000)


def main():
    mode, prop, opt = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    from vc import loader_con, unit as U
    real_out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    out = os.fdopen(real_out, 'w')
    if mode == 'sym':
        from vc import loader
        loader.install(True)
    else:
        loader_con.install()
    from vc import minisim
    minisim.install()
    import warnings
    warnings.simplefilter('ignore')
    import uvm            # noqa
    if mode == 'sym':
        loader.dicts()
    mod = importlib.import_module('props.' + prop)
    env = U.ENV = U.Env()
    if getattr(mod, 'PATCH_REPORTS', True):
        env.patch(getattr(mod, 'PATCH_METHODS', False))
    if opt.get('list'):
        out.write(json.dumps({'units': [{'name': u.name, 'symbolic': u.symbolic, 'concrete': u.concrete, 'bound': u.bound,
                                         'timeout': u.timeout, 'search': u.search, 'weight': u.weight} for u in mod.UNITS],
                              'level': getattr(mod, 'LEVEL', 'proof'), 'trusted': getattr(mod, 'TRUSTED', []),
                              'assumptions': getattr(mod, 'ASSUMPTIONS', []) + U.COMMON_ASSUMPTIONS}) + '\n')
        out.flush()
        os._exit(0)
    units = [u for u in mod.UNITS if not opt.get('units') or u.name in opt['units']]
    if mode == 'sym':
        from vc import symunit
        for u in units:
            if not u.symbolic:
                continue
            dl = time.time() + min(opt.get('unit_budget', 120), u.timeout or 1e9)
            r = symunit.run_symbolic(u, dl, opt.get('bounded', {}).get(u.name) if opt.get('bounded') else None)
            r['functions'] = u.functions
            r['trusted'] = u.trusted
            r['limit'] = u.limit
            out.write(json.dumps(r) + '\n')
            out.flush()
    elif opt.get('given') is not None:
        st, S = U.run_concrete(units[0], random.Random(1), opt['given'])
        out.write(json.dumps({'status': st, 'fails': S.fails, 'vals': S.vals}) + '\n')
    else:
        budget = opt.get('budget', 20)
        seed = opt.get('seed', 1)
        for u in units:
            if not u.concrete:
                continue
            t0 = time.time()
            n = ok = checks = 0
            runs = int(u.runs * opt.get('scale', 1))
            seen = set()
            fail = None
            harness = None
            sample = None
            while n < runs and time.time() - t0 < budget:
                rng = random.Random('%s/%s/%d' % (seed, u.name, n))
                st, S = U.run_concrete(u, rng, size=2 + n % 5)
                n += 1
                if st == 'ok':
                    ok += 1
                    checks += S.checks
                    try:
                        k = json.dumps(S.vals, sort_keys=True, default=str)
                        if len(seen) < 100000:
                            seen.add(hash(k))
                        if sample is None and len(k) < 2000:
                            sample = S.vals
                    except Exception:
                        pass
                elif st == 'harness':
                    harness = S.harness
                elif st == 'fail':
                    fail = {'vals': S.vals, 'fails': S.fails}
                    break
            out.write(json.dumps({'unit': u.name, 'runs': n, 'ok': ok, 'checks': checks, 'distinct': len(seen), 'fail': fail, 'harness': harness,
                                  'sample': sample, 'search': u.search, 'wall_s': round(time.time() - t0, 3)}, default=str) + '\n')
            out.flush()
    out.flush()
    os._exit(0)


main()
