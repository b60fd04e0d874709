"""Engine: scripts of standalone type validations (TypeWorld.tla) against oblate.validate_types."""
import json, os, random, signal, tempfile, traceback, warnings
from . import core    # imports oblate from /repo
from collections import Counter
from . import gen, tlc, values as V, typeexpr as TE

ORIG = {'FrozenSet': 'frozenset', 'BareCallable': 'Callable', 'NewType': 'NEWT', 'TypeVar': 'TV'}
ORIG = {l: ORIG.get(l, l) for l in TE.UNSUP}

BASE = dict(unsup=.08, td=.3, bad=.12, ntypes=(1, 4), nops=(4, 9), extra=.15, drop=.12, ie=.3, im=.3, warn=.1)

def pad(q): return q

class TGen:
    def __init__(self, rng, **p):
        self.r, self.p = rng, {**BASE, **p}
    def scenario(self, sid):
        r, p = self.r, self.p
        td = {}
        tg = gen.TypeGen(r, td, p['unsup'])
        for _ in range(r.randint(0, 3)):
            if r.random() < p['td']: tg.typeddict(0)
        ops = []
        pool = []
        for _ in range(r.randint(*p['nops'])):
            if r.random() < p['warn']:
                ops.append(dict(op='warn', v=r.random() < .5, how=r.choice(['set', 'set', 'replace', 'replace2', 'bad', 'badctor']))); continue
            types, vals = [], []
            for k in r.sample(['k1', 'k2', 'k3', 'k4', 'name', 'K é'], r.randint(*p['ntypes'])):
                if pool and r.random() < .35: t = r.choice(pool)
                elif td and r.random() < p['td']: t = ['td', r.choice(list(td))]
                else: t = tg.type()
                pool.append(t)
                types.append([k, t])
                if r.random() >= p['drop']: vals.append([k, tg.val(t, 0, p['bad'])])
            if r.random() < p['extra']: vals.append([r.choice(['zz', 'k1x', 'extra']), tg.anyval()])
            r.shuffle(vals)
            ops.append(dict(op='val', types=types, values=vals, ie=r.random() < p['ie'], im=r.random() < p['im'],
                            mt=r.choice(['dict', 'dict', 'proxy', 'my', 'ordered', 'chain', 'subdict'])))
        return dict(id=sid, env=dict(anc=V.ANC, td=td, orig=ORIG), ops=ops)

def execute(scen):
    """Runs a scenario on the real code; in a process where nothing was warned of."""
    import oblate
    env = scen['env']
    ty = TE.Types(env)
    rz = V.Realizer()
    out = []
    try: oblate.config.warn_unsupported_types = True
    except Exception: pass
    for op in scen['ops']:
        if op['op'] == 'warn':
            how = op['how']
            try:
                if how == 'set': oblate.config.warn_unsupported_types = op['v']
                elif how == 'replace': oblate.config = oblate.GlobalConfig(warn_unsupported_types=op['v'])
                elif how == 'replace2':
                    new = oblate.GlobalConfig()
                    new.warn_unsupported_types = op['v']
                    oblate.config = new
                elif how == 'bad': oblate.config.warn_unsupported_types = 'no' if op['v'] else None
                else: oblate.config = oblate.GlobalConfig(warn_unsupported_types=0 if op['v'] else 'yes')
                out.append(dict(ok=True))
            except TypeError: out.append(dict(ok=False))
            except Exception as e: out.append(dict(exc=repr(e)))
            continue
        types = {k: ty.real(t) for k, t in op['types']}
        vals = {k: rz.real(v) for k, v in op['values']}
        t2, v2 = dict(types), dict(vals)
        enc = V.encode(vals)
        mk = V.MAPTYPES[op['mt']]
        tm, vm = mk(types), mk(vals)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                res = oblate.validate_types(tm, vm, ignore_extra=op['ie'], ignore_missing=op['im'])
                o = dict(ok=True, errors={})
                if res is not None: o['ret'] = repr(res)
            except oblate.TypeValidationError as e:
                o = dict(ok=False, errors={str(k): list(v) for k, v in e.errors.items()}, errtypes=all(isinstance(m, str) for v in e.errors.values() for m in v))
            except Exception as e:
                o = dict(exc=f'{type(e).__name__}: {e}'[:200])
        o['warns'] = sum(1 for x in w if not issubclass(x.category, (DeprecationWarning, PendingDeprecationWarning, ResourceWarning)))
        o['mod'] = bool(dict(tm) != t2 or V.encode(dict(vm)) != enc or any(vm[k] is not v2[k] for k in v2) or list(vm) != list(v2) or list(tm) != list(t2))
        out.append(o)
    return out

def real_run(scen):
    """In a child process, as warnings are issued once for each process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(20)
            os.close(r)
            try: d = json.dumps(execute(scen), default=repr)
            except BaseException: d = json.dumps(['crash', traceback.format_exc()[-800:]])
            with os.fdopen(w, 'w') as f: f.write(d)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r) as f: d = f.read()
    os.waitpid(pid, 0)
    return json.loads(d) if d else None

def keytext(d):
    if d[0] in ('missing', 'fail'): return repr(d[1])
    if d[0] == 'invalid':
        try: return repr(V.Realizer().real(d[1]))
        except Exception: return None
    if d[0] == 'idx': return str(d[1])

def covers(diag, msgs):
    """Every message place is told by some message (greedy, longest first)."""
    if len(diag) != len(msgs): return False
    for d in diag:
        t = keytext(d)
        if t is not None and not any(t in m for m in msgs): return False
    return True

def compare(scen, steps, obs):
    if obs is None or obs and obs[0] == 'crash':
        yield dict(i=-1, op='*', clause='hang', exp='an answer', got=obs); return
    for i, op in enumerate(scen['ops']):
        e, o = steps[i + 1], obs[i]
        def m(c, exp, got): return dict(scen=scen['id'], i=i, op=op['op'], clause=c, exp=exp, got=got)
        if 'exc' in o: yield m('exc', e, o); continue
        if op['op'] == 'warn':
            if o['ok'] != e['ok']: yield m('warn', e, o)
            continue
        if o.get('ret'): yield m('ret', None, o['ret'])
        if o['ok'] != e['ok']: yield m('ok', e, o)
        elif not o['ok']:
            if not o['errtypes']: yield m('diag', 'strings', o)
            bad = e['bad'] if isinstance(e['bad'], dict) else {}
            want = set(bad) | set(e['extra']) | set(e['missing'])
            if set(o['errors']) != want: yield m('keys', sorted(want), o['errors'])
            else:
                for k in e['extra'] + e['missing']:
                    if len(o['errors'][k]) != 1: yield m('diag', 'one message', o['errors'][k])
                for k, d in bad.items():
                    if not covers(d, o['errors'][k]): yield m('diag', d, o['errors'][k])
        if not len(e['must']) <= o['warns'] <= len(e['may']): yield m('warn', dict(must=e['must'], may=e['may']), o['warns'])
        if o['mod']: yield m('inputs', 'unchanged', 'modified')

def spec_steps(scens, **kw):
    fd, p = tempfile.mkstemp(suffix='.ndjson', prefix='types.')
    with os.fdopen(fd, 'w') as f:
        for s in scens: f.write(json.dumps(s) + '\n')
    try: r = tlc.run('MCTypes', env={'SCENARIOS': p}, **kw)
    finally: os.unlink(p)
    by = {}
    for l in r.lines: by.setdefault(l[1], {})[l[2]] = l[3]
    return by, r

def chunk(args):
    seed, start, n, profiles, short = args
    try:
        scens = [TGen(random.Random(f'{seed}/{i}'), **profiles[i % len(profiles)]).scenario(i) for i in range(start, start + n)]
        by, r = spec_steps(scens, short=short, heap='2g' if short else '6g')
        mism, hist, steps, sample = [], Counter(), 0, None
        for s in scens:
            obs = real_run(s)
            for j, op in enumerate(s['ops']):
                e = by[s['id']][j + 1]
                hist[f"{op['op']}:{'ok' if e['ok'] else 'err'}"] += 1
                if e.get('must'): hist['warning'] += 1
                if e.get('bad'):
                    for d in e['bad'].values(): hist.update('diag:' + x[0] for x in d)
                if sample is None and e.get('bad'): sample = dict(op=op, spec=e)
            steps += len(s['ops'])
            for m in compare(s, by[s['id']], obs): mism.append((s, m))
        return dict(mism=mism, hist=hist, states=r.distinct, gen=r.states, n=n, steps=steps, sample=sample)
    except tlc.TlcError as e: return dict(error='TLC: ' + str(e))
    except Exception: return dict(error=traceback.format_exc())

def failing(scens, accept):
    by, _ = spec_steps(scens)
    out = {}
    for s in scens:
        ms = [m for m in compare(s, by[s['id']], real_run(s)) if accept(s, m)]
        if ms: out[s['id']] = ms
    return out

def replay_op(s, m):
    return s['ops'][m['i']] if m['i'] >= 0 else {}
