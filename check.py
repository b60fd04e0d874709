#!/opt/venv/bin/python -B
"""check.py <property> : decides one property; see DESIGN.md.
Exit 0: held on everything explored; 1: a line VIOLATION property=<id> replay=<path>."""
import sys, os, json, time, traceback
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import multiprocessing as mp

def known(pid):
    out = []
    for line in open(os.path.join(HERE, 'known-findings.txt')):
        if line.startswith(f'known: property={pid} '):
            out.append(line.split(' ', 2)[2].strip())
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick') if '--thorough' not in sys.argv else 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from harness import props, engines
    p = props.P[pid]
    t0 = time.time()
    tot = dict(states=0, transitions=0, traces=0, samples=[], detail={}, violations=[], exhaustive=None)
    for name, kw in ([('script', {})] if p['profiles'] else []) + p['engines']:
        t = time.time()
        r = getattr(engines, name)(pid, p, tier, seed, **kw)
        for k in ('states', 'transitions', 'traces'): tot[k] += r[k]
        tot['samples'] += r['samples'][:2]
        tot['violations'] += r['violations']
        d = r['detail']; d['wall_s'] = round(time.time() - t, 1)
        tot['detail'][name + ('' if name not in tot['detail'] else '#%d' % len(tot['detail']))] = d
    cov = dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['traces'],
               samples=tot['samples'], **{'engine ' + k: v for k, v in tot['detail'].items()})
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=['CPython ' + sys.version.split()[0], 'TLC evaluates the specification correctly', 'the harness records what the public API shows'],
              wall_s=round(time.time() - t0, 1), violations=len(tot['violations']))
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str, ensure_ascii=False)
    kf = known(pid)
    bad = []
    for v in tot['violations']:
        hit = next((k for k in kf if k == v.get('key')), None)
        if hit: print(f'KNOWN-FINDING: property={pid} {hit}')
        else: bad.append(v)
    for i, v in enumerate(bad[:5]):
        path = os.path.join(HERE, 'evidence', 'replay', f'{pid}-{i}.json')
        with open(path, 'w') as f: json.dump(v, f, indent=1, default=str, ensure_ascii=False)
        print('  ' + v['summary'][:1500])
        print(f'VIOLATION property={pid} replay={path}')
    print(f"{pid} {tier}: {'VIOLATED' if bad else 'held'}; {tot['states']} states, {tot['transitions']} transitions, {tot['traces']} traces validated, {ev['wall_s']} s")
    return 1 if bad else 0

if __name__ == '__main__':
    mp.set_start_method('fork')
    try:
        rc = main()
    except SystemExit: raise
    except BaseException:
        tb = traceback.format_exc()
        print(tb)
        rc = 2
        if '/oblate/' in tb and 'TLC: ' not in tb:
            # the code under test failed where the harness relies on it
            os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
            path = os.path.join(HERE, 'evidence', 'replay', f'{sys.argv[1]}-crash.json')
            with open(path, 'w') as f: json.dump(dict(kind='crash', traceback=tb), f, indent=1)
            print(f'VIOLATION property={sys.argv[1]} replay={path}')
            rc = 1
    sys.stdout.flush()
    os._exit(rc)
