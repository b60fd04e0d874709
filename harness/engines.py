"""The engines a check is made of.  Each returns
dict(states, transitions, traces, samples, violations, detail)."""
import json, multiprocessing as mp, os, time
from collections import Counter
from . import script as S, typesrun as TR

PROCS = max(2, min(7, (os.cpu_count() or 4) - 1))
EXTRA = float(os.environ.get('VERIF_SCALE', '1'))

def drive(mod, what, seed, n, profiles, accept, tier, block=400):
    """Random scripts: the specification predicts every observation of the real code."""
    n = max(1, int(n * EXTRA))
    size = -(-n // PROCS) if tier == 'quick' else block
    args = [(seed, a, min(size, n - a), profiles, tier == 'quick') for a in range(0, n, size)]
    hist, samples, viols, tot, other, bad = Counter(), [], [], Counter(), Counter(), {}
    with mp.Pool(PROCS) as pool:
        for r in pool.imap_unordered(mod.chunk, args):
            if 'error' in r: raise RuntimeError(r['error'])
            hist.update(r['hist'])
            for k in ('states', 'gen', 'n', 'steps'): tot[k] += r[k]
            if r['sample']: samples.append(r['sample'])
            for s, m in r['mism']:
                if accept(s, m): bad.setdefault(s['id'], (s, []))[1].append(m)
                else: other[f"{m['op']}:{m['clause']}"] += 1
            if len(bad) > 40: pool.terminate(); break
    for j, sid in enumerate(sorted(bad, key=lambda i: len(bad[i][0]['ops']))[:3]):
        s, ms = bad[sid]
        viols.append(report(mod, s, ms, accept, j == 0))
    return dict(states=tot['states'], transitions=tot['gen'] - tot['n'], traces=tot['n'], samples=samples[:3], violations=viols,
                detail=dict(what=what, scripts=tot['n'], operations_compared=tot['steps'], outcomes=dict(sorted(hist.items())),
                            differences_of_other_properties=dict(other)))

def report(mod, s, ms, accept, shrink=True):
    small = s
    try:
        if shrink and not {'hang', 'warn'} & {m['clause'] for m in ms}:
            small = S.shrink(json.loads(json.dumps(s)), lambda cs: set(mod.failing(cs, accept)), 4)
            got = mod.failing([small], accept)
            if small['id'] in got: ms = got[small['id']]
            else: small = s
    except Exception as e:
        small = s
    m = ms[0]
    op = mod.replay_op(small, m)
    return dict(kind=mod.__name__, summary=f"{m['clause']} differs at operation {m['i']} {json.dumps(op, default=str)[:400]}: specification {json.dumps(m['exp'], default=str)[:500]}, code {json.dumps(m['got'], default=str)[:500]}",
                mismatches=ms[:6], scenario=small)

def script(pid, p, tier, seed):
    return drive(S, 'random scripts of schema operations run by the specification (MCScript.tla, TLC) and by the real code; every observation compared; '
                 'the invariants and the action property of Props.tla checked by TLC', f'{seed}/{pid}',
                 p['n'] if tier == 'quick' else p['nt'], p['profiles'], p['accept'], tier)

def types(pid, p, tier, seed, profiles=({},), clauses=None, n=1500, nt=60000):
    return drive(TR, 'random scripts of standalone type validations run by the specification (MCTypes.tla, TLC) and by the real code',
                 f'{seed}/{pid}/types', n if tier == 'quick' else nt, profiles,
                 lambda s, m: clauses is None or m['clause'] in clauses, tier)

def conc(pid, p, tier, seed, profiles=({},), n=400, nt=8000, accept=None):
    from . import conc as C
    return drive(C, 'strands of operations, interleaved at every call of user code (re-entrant, in copied contexts, in threads); the specification '
                 '(MCConc.tla, TLC) runs them in every order and predicts every observation', f'{seed}/{pid}/conc', n if tier == 'quick' else nt, profiles, accept or p['accept'], tier, block=200)

def builtin(pid, p, tier, seed):
    from . import builtin as B
    return B.run(pid, p, tier, seed)

def regex(pid, p, tier, seed):
    from . import regex as R
    return R.run(pid, p, tier, seed)

def errfmt(pid, p, tier, seed):
    from . import errfmt as M
    return M.run(pid, p, tier, seed)

def ambient(pid, p, tier, seed):
    from . import ambient as A
    return A.run(pid, p, tier, seed)

def menu(pid, p, tier, seed, **kw):
    from . import menu as M
    return M.run(pid, p, tier, seed, **kw)
