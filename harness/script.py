"""Engine: random scripts, the specification (MCScript) against the real code."""
import json, os, random, signal, tempfile, time, traceback, warnings
from collections import Counter
from . import gen, tlc, compare

class Hang(BaseException): pass

def alarm(sec):
    def h(*a): raise Hang()
    signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)

def spec_steps(scens, **kw):
    """{scenario id: {op index: step}} as computed by TLC."""
    fd, p = tempfile.mkstemp(suffix='.ndjson', prefix='scen.')
    with os.fdopen(fd, 'w') as f:
        for s in scens: f.write(json.dumps(s) + '\n')
    try: r = tlc.run('MCScript', env={'SCENARIOS': p}, **kw)
    finally: os.unlink(p)
    by = {}
    for l in r.lines: by.setdefault(l[1], {})[l[2]] = l[3:]
    return by, r

def real_run(scen):
    from . import core
    alarm(20)
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            obs = core.Runner(scen).run()
        if obs: obs[-1]['warned'] = sorted({str(w.message) for w in ws if 'not supported' in str(w.message)})
        return obs
    except Hang:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def warned(s, obs):
    """No warning where every type expression is supported."""
    if not obs or not obs[-1].get('warned') or '"unsup"' in json.dumps(s): return []
    return [dict(scen=s['id'], i=len(obs) - 1, op='*', clause='warn', exp=[], got=obs[-1]['warned'])]

def chunk(args):
    """One worker: generates scenarios, runs TLC and the real code, compares."""
    seed, start, n, profiles, short = args
    t0 = time.time()
    try:
        scens = []
        for i in range(start, start + n):
            prof = profiles[i % len(profiles)]
            scens.append(gen.Gen(random.Random(f'{seed}/{i}'), **prof).scenario(i))
        by, r = spec_steps(scens, short=short, heap='2g' if short else '6g')
        t1 = time.time()
        mism, hist, sample = [], Counter(), None
        compared = 0
        for s in scens:
            try: obs = real_run(s)
            except Exception:
                mism.append((s, dict(scen=s['id'], i=-1, op='*', clause='hang', exp='runs', got=traceback.format_exc()[-1500:])))
                continue
            if obs is None:
                mism.append((s, dict(scen=s['id'], i=-1, op='*', clause='hang', exp='terminates', got='no answer')))
                continue
            st = by.get(s['id'], {})
            for j, op in enumerate(s['ops']):
                hist[f"{op['op']}:{st.get(j + 1, ['?'])[0]}"] += 1
            compared += len(s['ops'])
            for m in compare.compare(s, st, obs): mism.append((s, m))
            for m in warned(s, obs): mism.append((s, m))
            if sample is None and len(s['ops']) > 8:
                j = next((j for j, o in enumerate(s['ops']) if o['op'] == 'new' and obs[j]['res'] == 'ok'), None)
                if j is not None:
                    sample = dict(op={k: s['ops'][j][k] for k in ('op', 'id', 'cls', 'data')}, spec=st[j + 1][0], values=st[j + 1][4].get(s['ops'][j]['id']) if isinstance(st[j+1][4], dict) else None)
        return dict(mism=mism, hist=hist, states=r.distinct, gen=r.states, n=len(scens), steps=compared, sample=sample,
                    t=(round(t1 - t0, 1), round(time.time() - t1, 1)))
    except tlc.TlcError as e:
        return dict(error='TLC: ' + str(e))
    except Exception:
        return dict(error=traceback.format_exc())

def shrink(scen, pred, rounds=6):
    """Leaves out operations as long as pred (a batch predicate on scenarios) holds."""
    cur = scen
    for _ in range(rounds):
        cands = []
        n = len(cur['ops'])
        for size in sorted({max(1, n // 2), max(1, n // 4), 1}, reverse=True):
            for a in range(0, n, size):
                ops = cur['ops'][:a] + cur['ops'][a + size:]
                if ops: cands.append({**cur, 'ops': ops})
        cands = cands[:60]
        for i, c in enumerate(cands): c['id'] = i
        good = pred(cands)
        good = [c for c in cands if c['id'] in good]
        if not good: break
        cur = min(good, key=lambda c: len(c['ops']))
    return cur

def replay_op(s, m):
    return s['ops'][m['i']] if m['i'] >= 0 else {}

def failing(scens, accept):
    by, _ = spec_steps(scens)
    out = {}
    for s in scens:
        obs = real_run(s)
        ms = [dict(scen=s['id'], i=-1, op='*', clause='hang', exp='', got='')] if obs is None else list(compare.compare(s, by.get(s['id'], {}), obs)) + warned(s, obs)
        ms = [m for m in ms if accept(s, m)]
        if ms: out[s['id']] = ms
    return out
