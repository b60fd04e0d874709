"""Engine: the verdicts of Builtin.tla against the validators of oblate."""
import json, os, random, tempfile, itertools
from collections import Counter
from . import core, tlc
import oblate
from oblate import fields, validate

KINDS = {'str': lambda n: 'é' * n, 'list': lambda n: [None] * n, 'tuple': lambda n: tuple(range(n)), 'dict': lambda n: {i: 0 for i in range(n)},
         'set': lambda n: set(range(n)), 'bytes': lambda n: b'x' * n}
class Boom(Exception): pass
class Raw:
    def __init__(self, v): self.v = v
class Unwrap(fields.Field):
    """What is given is not what is validated."""
    def value_load(self, value, ctx): return value.v

def val(v):
    return KINDS[v[1]](v[2]) if v[0] == 'sized' else v[1] + .5 if v[0] == 'half' else v[1]

def make(d, log):
    k = d[0]
    if k == 'range0': return validate.Range()
    if k == 'range1': return validate.Range(d[1])
    if k == 'range2': return validate.Range(d[1], d[2])
    if k == 'std': return validate.Range.from_standard(range(d[1], d[2], d[3]))
    if k == 'len': return validate.Length(**{n: x for n, x in zip(('min', 'max', 'exact'), d[1:]) if x >= 0})
    if k == 'excl': return validate.Exclude(*[val(x) for x in d[1]])
    if k == 'or': return validate.Or(*[make(x, log) for x in d[1]])
    if k == 'boom':
        def f(schema, value, ctx): log.append((schema, value, ctx)); raise Boom
        return f
    ok = [val(x) for x in d[1]]
    exc = itertools.cycle([ValueError, AssertionError, lambda m: oblate.FieldError(m)])
    def body(schema, value, ctx):
        log.append((schema, value, ctx))
        if value not in ok: raise next(exc)('no')
    if k == 'fn': return body
    class Cls(validate.Validator):
        def validate(self, value, ctx): body(ctx.schema, value, ctx)
    return Cls()

def use(cls, how, v):
    """Gives the value to the field; what comes of it."""
    x = v
    if isinstance(cls.a, Unwrap): v = Raw(v)
    try:
        if how == 'new': s = cls({'a': v})
        else:
            s = cls({})
            if how == 'set': s.a = v
            else: s.update({'a': v})
    except oblate.ValidationError as e:
        if len(e.errors) != 1 or e.errors[0].key != 'a' or not isinstance(e.errors[0].message, str) or not e.errors[0].message: return 'odd error'
        return 'fail'
    except Boom: return 'boom'
    except Exception as e: return f'{type(e).__name__}: {e}'[:80]
    return 'ok' if s.get_value_for('a') is x or s.get_value_for('a') == x else 'other value'

def rnd(rng):
    n = lambda: rng.choice([rng.randint(-9, 9), rng.randint(-10**6, 10**6)])
    def d(depth=0):
        k = rng.choice(['range1', 'range2', 'std', 'excl', 'fn', 'cls'] + ['or'] * (depth < 3) * 3)
        if k == 'range1': return [k, n()]
        if k == 'range2':
            a = n(); return [k, a, a + rng.randint(-2, 40)]
        if k == 'std':
            a = n(); return [k, a, a + rng.randint(-60, 60), rng.choice([-7, -5, -2, -1, 1, 2, 3, 5, 9])]
        if k in ('excl', 'fn', 'cls'): return [k, [['int', n()] for _ in range(rng.randint(0, 3))]]
        return [k, [d(depth + 1) for _ in range(rng.randint(0, 4))]]
    def edges(x):
        if x[0] in ('range1', 'range2', 'std'): return [e + k for e in x[1:] for k in (-1, 0, 1)] + ([x[1] + x[3] * rng.randint(0, 9)] if x[0] == 'std' else [])
        if x[0] == 'or': return [e for y in x[1] for e in edges(y)]
        return [y[1] for y in x[1]]
    if rng.random() < .1:
        sz = lambda: ['sized', rng.choice(['list', 'str', 'tuple', 'dict']), rng.randint(0, 3)]
        q = [sz() for _ in range(rng.randint(1, 3))]
        x = ['excl', q]
        if rng.random() < .4: x = ['or', [x, ['len', rng.randint(-1, 3), rng.randint(0, 3), -1]]]
        return [dict(d=x, v=v) for v in q[:1] + [sz(), sz()]]
    if rng.random() < .1:
        a, b = rng.randint(0, 500), rng.randint(0, 500)
        x = rng.choice([['len', a, -1, -1], ['len', -1, b, -1], ['len', -1, -1, a], ['len', a, b, -1]])
        return [dict(d=x, v=['sized', rng.choice(list(KINDS)), n]) for n in {max(0, e + k) for e in (a, b) for k in (-1, 0, 1)} | {0}]
    x = d()
    es = edges(x) + [0, 1, -1]
    es = [e for e in es if abs(e) < 2**30]
    return [dict(d=x, v=['int', e] if rng.random() < .85 else ['half', e]) for e in rng.sample(sorted(set(es)), min(6, len(set(es))))]

def run(pid, p, tier, seed):
    rng = random.Random(f'{seed}/{pid}/builtin')
    cases = [c for _ in range(1500 if tier == 'quick' else 40000) for c in rnd(rng)]
    cases.append(dict(d=['range0'], v=['int', 1]))
    fd, path = tempfile.mkstemp(suffix='.ndjson', prefix='builtin.')
    with os.fdopen(fd, 'w') as f:
        for c in cases: f.write(json.dumps(c) + '\n')
    try: r = tlc.run('MCBuiltin', env={'SCENARIOS': path, 'DEEP': '1'}, short=tier == 'quick')
    finally: os.unlink(path)
    by = {}
    for _, d, v, e in r.lines: by.setdefault(json.dumps(d), []).append((v, e))
    viols, hist, n, sample = [], Counter(), 0, []
    for dj, vs in by.items():
        d = json.loads(dj)
        log = []
        try: va = make(d, log); refused = False
        except Exception as e:
            refused = type(e).__name__
        if refused or vs[0][1] == 'refused':
            n += 1; hist['refused'] += 1
            if not (refused in ('TypeError', 'ValueError') and vs[0][1] == 'refused'):
                viols.append(dict(kind='builtin', key=dj, summary=f'configuration {dj}: specification {vs[0][1]}, code raises {refused or "nothing"}', d=d))
            continue
        class S(oblate.Schema):
            a = rng.choice([Unwrap, fields.Any])(required=False, validators=[va])
        for j, (v, e) in enumerate(vs):
            for how in ('new', 'set', 'upd') if d[0] != 'len' or j % 3 == 0 else ('new',):
                del log[:]
                x = val(v)
                got = use(S, how, x)
                n += 1; hist[f'{d[0]}:{e}'] += 1
                bad = got != e or any(not isinstance(s, S) or w is not x or c.field is not S.a or not (c.value is x or isinstance(c.value, Raw) and c.value.v is x) for s, w, c in log)
                if bad and len(viols) < 20:
                    viols.append(dict(kind='builtin', key=f'{dj} {v}', summary=f'validator {dj}, value {v}, {how}: specification {e}, code {got}', d=d, v=v))
                elif len(sample) < 2 and e == 'ok' and d[0] == 'or': sample.append(dict(validator=d, value=v, verdict=e))
    return dict(states=r.distinct, transitions=r.states - r.distinct // 2, traces=n, samples=sample, violations=viols[:5],
                detail=dict(what='every configuration of the menu of MCBuiltin.tla with every value, and random larger ones: verdict of the specification against construction, assignment and update of the real code',
                            cases=sum(len(v) for v in by.values()), outcomes=dict(sorted(hist.items()))))
