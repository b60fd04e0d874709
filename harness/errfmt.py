"""Engine: validation errors raised by the real code, validated by ErrFmt.tla."""
import json, os, random, re, tempfile, traceback
from collections import Counter
from . import core, tlc
import oblate
from oblate import fields

class Obj:
    def __init__(self, t): self.t = t
    def __str__(self): return self.t
class Payload:
    def __init__(self, fails): self.fails = fails

class Gen:
    def __init__(self, rng): self.r, self.n = rng, 0
    def tok(self):
        self.n += 1
        return f'm{self.n}z' + self.r.choice(['', '', ' with text', ' é ü', '\'quoted"', ' {0} %s', ' │ └──', ': colon'])
    def leaf(self, dump):
        """A message as data: encodes to and from a real one."""
        r, q = self.r, self.r.random()
        if q < .5: return ['s', self.tok()]
        if q < .6:
            self.n += 1; return ['int', 7000 + self.n]
        if q < .7: return ['obj', self.tok()]
        if q < .85: return ['d', [[k, r.choice([['s', self.tok()], ['l', [['s', self.tok()], ['int', 3]]], ['d', [['x', ['s', self.tok()]]]]])] for k in r.sample(['p', 'q', 'w'], r.randint(1, 3))]]
        return ['s', self.tok()]
    def msg(self, dump):
        r = self.r
        if r.random() < .35:
            k = r.choice(['l', 'l', 't', 'set'])
            n = r.choice([1, 1, 2, 2, 3, 5])
            if k == 'set': return [k, [['s', self.tok()] for _ in range(n)]]
            return [k, [self.leaf(dump) for _ in range(n)]]
        return self.leaf(dump)
    def tree(self, depth=0, dump=False):
        r = self.r
        out = []
        keys = r.sample(['a', 'b', 'c', 'key one', 'k-é', 'd', 'e'], r.randint(1, 4))
        for k in keys:
            if r.random() < .35 and depth < 4:
                out.append([k, 'nest', self.tree(depth + 1, dump)])
                # the nested schema fails, and so do validators of the field itself
                if not dump and r.random() < .35: out[-1].append([[self.msg(dump), r.choice(['FE', 'FE', 'FES', 'VE'])] for _ in range(r.choice([1, 1, 2]))])
            else: out.append([k, 'msgs', [[self.msg(dump), r.choice(['FE', 'FE', 'FES', 'VE'])] for _ in range(1 if dump else r.choice([1, 1, 2, 3]))]])
        return out

def real_msg(m):
    k = m[0]
    if k == 's': return m[1]
    if k == 'int': return m[1]
    if k == 'obj': return Obj(m[1])
    if k == 'd': return {a: real_msg(b) for a, b in m[1]}
    xs = [real_msg(x) for x in m[1]]
    return xs if k == 'l' else tuple(xs) if k == 't' else set(xs)
def spec_msg(m):
    k = m[0]
    if k == 's': return ['s', m[1]]
    if k == 'int': return ['o', str(m[1])]
    if k == 'obj': return ['o', m[1]]
    if k == 'd': return ['d', sorted([[a, spec_msg(b)] for a, b in m[1]])]
    return ['set' if k == 'set' else 'l', [spec_msg(x) for x in m[1]]]
def enc_msg(m):
    if isinstance(m, str): return ['s', m]
    if isinstance(m, dict):
        if m and all(isinstance(v, list) and v and all(isinstance(e, oblate.FieldError) for e in v) for v in m.values()):
            return ['nest', [enc_err(e) for v in m.values() for e in v]]
        return ['d', sorted([[str(k), enc_msg(v)] for k, v in m.items()])]
    if isinstance(m, list): return ['l', [enc_msg(x) for x in m]]
    return ['o', str(m)]
def enc_err(e): return dict(key=e.key, fld=e.field.name if e.field is not None else '', msg=enc_msg(e.message), st=str(e.state))
def enc_raw(x):
    if isinstance(x, str): return ['s', x]
    if isinstance(x, list): return ['l', [enc_raw(y) for y in x]]
    if isinstance(x, dict): return ['d', sorted([[str(k), enc_raw(v)] for k, v in x.items()])]
    return ['weird', repr(x)]

class FES(oblate.FieldError): pass

def throw(m, how, st):
    if how == 'VE' and m[0] == 's': raise ValueError(m[1])
    raise (FES if how == 'FES' else oblate.FieldError)(real_msg(m), st)
def state(m, how, i): return 'None' if how == 'VE' and m[0] == 's' else f'st{i}'

class Leaf(oblate.fields.Field):
    def value_load(self, value, ctx):
        if value.fails[1] == 'load': throw(*value.fails[0][0], 'st0')
        return value
    def value_dump(self, value, ctx):
        throw(*value.fails[0][0], 'st0')

def validator(i):
    def f(schema, value, ctx):
        if value.fails[1] == 'val' and i < len(value.fails[0]): throw(*value.fails[0][i], f'st{i}')
    return f

def build(tree, r, dump):
    """The schema class and the data that provoke the failures, and these failures."""
    ns, data, fails = {}, {}, []
    for n, (k, what, x, *own) in enumerate(tree):
        name = k if r.random() < .3 else f'f{n}'
        lk = {} if name == k else dict(load_key=k)
        if what == 'nest':
            cls, d, fs = build(x, r, dump)
            ns[name] = fields.Object(cls, **lk)
            for i, (m, how) in enumerate(own[0] if own else []):
                ns[name].add_validator(lambda schema, value, ctx, a=(m, how, f'st{i}'): throw(*a), raw=True)
                fails.append(dict(key=k, msg=spec_msg(m), st=state(m, how, i)))
            data[k] = d
            fails.append(dict(key=k, msg=['nest', fs], st='None'))
        else:
            how = 'dump' if dump else 'load' if len(x) == 1 and r.random() < .5 else 'val'
            ns[name] = Leaf(**lk, validators=[validator(i) for i in range(4)])
            data[k] = Payload((x, how))
            fails += [dict(key=k, msg=spec_msg(m), st=state(m, h, i)) for i, (m, h) in enumerate(x)]
    return type('T', (oblate.Schema,), ns), data, fails

def observe(sid, rng):
    g = Gen(rng)
    op = rng.choice(['new', 'new', 'upd', 'dump'])
    tree = g.tree(dump=op == 'dump')
    cls, data, fails = build(tree, rng, op == 'dump')
    try:
        if op == 'new': cls(data)
        elif op == 'dump': cls(data).dump()
        else:
            # an instance that is filled without failing: optional fields of a subclass
            opt = {}
            for n, f in list(cls.__dict__.items()):
                if isinstance(f, oblate.fields.Field):
                    c = f.copy(); c.required = False; opt[n] = c
            sub = type('U', (oblate.Schema,), opt)
            sub({}).update(data)
        return dict(id=sid, bad='nothing is raised', fails=fails, op=op)
    except oblate.ValidationError as e:
        before = list(e.errors)
        msgs = [x.message for x in before]
        t1, r1 = str(e), e.raw()
        try: json.dumps(r1); js = True
        except Exception: js = False
        t2, r2 = str(e), e.raw()
        same = t1 == t2 and r1 == r2 and len(e.errors) == len(before) and all(a is b and a.message is m for a, b, m in zip(e.errors, before, msgs))
        return dict(id=sid, op=op, fails=fails, errs=[enc_err(x) for x in before], raw=enc_raw(r1), text=t1, cls=type(e.schema).__qualname__, json=js, same=same)
    except Exception as e:
        return dict(id=sid, bad=f'{type(e).__name__}: {e}'[:200], fails=fails, op=op)

def headed(o):
    """The schema and the number of keys that have errors are told above these."""
    keys = {e['key'] for e in o['errs']}
    head = o['text'][:o['text'].index('ield')] if 'ield' in o['text'] else o['text']
    if repr(o['cls']) not in head or not re.search(rf'(?<!\d){len(keys)}(?!\d)', head): return f"the header {head!r} does not tell {o['cls']!r} and {len(keys)}"

def follows(tokens, text):
    """Every key and message is found in the text, after its predecessor; the
    groups of one level may come in any order (checked by their own keys)."""
    lines = text.split('\n')
    pos = 0
    ind = {}
    for lvl, kind, t, *more in tokens:
        want = t.split('\n')[0]
        name = more[0] if more else ''
        for i in range(pos, len(lines)):
            if want in lines[i] and (kind == 'msg' or 'ield' in lines[i]):
                if name and name not in lines[i].replace(want, ''): return f'{kind} {t!r} does not name the field {name!r}'
                pos = i + 1
                d = len(lines[i]) - len(lines[i].lstrip(' │'))
                ind.setdefault((lvl, kind), d)
                break
        else: return f'{kind} {t!r} is not found below its predecessors'
    return None

def chunk(args):
    seed, a, n = args
    try:
        obs = [observe(i, random.Random(f'{seed}/{i}')) for i in range(a, a + n)]
        viols, hist = [], Counter()
        ok = [o for o in obs if 'bad' not in o]
        for o in obs:
            if 'bad' in o: viols.append(dict(kind='errfmt', key=str(o['id']), summary=f"{o['op']} with failures {json.dumps(o['fails'])[:600]}: {o['bad']}", obs=o))
        fd, p = tempfile.mkstemp(suffix='.ndjson', prefix='err.')
        with os.fdopen(fd, 'w') as f:
            for o in ok: f.write(json.dumps({k: o[k] for k in ('id', 'fails', 'errs', 'raw')}) + '\n')
        try: r = tlc.run('MCErrFmt', env={'SCENARIOS': p})
        finally: os.unlink(p)
        by = {l[1]: l[2:] for l in r.lines}
        sample = None
        for o in ok:
            flat, raw, toks = by[o['id']]
            hist[o['op']] += 1
            hist['errors'] += len(o['errs'])
            if any(e['msg'][0] == 'nest' for e in o['errs']): hist['nested'] += 1
            t = headed(o) or follows(toks, o['text'])
            w = ('the errors are not those that were provoked' if not flat else 'the raw form does not render the errors' if not raw else
                 'the raw form is not JSON compatible' if not o['json'] else 'rendering changes the error' if not o['same'] else t)
            if w: viols.append(dict(kind='errfmt', key=str(o['id']), summary=f"{o['op']}: {w}; failures {json.dumps(o['fails'], ensure_ascii=False)[:500]} errors {json.dumps(o['errs'], ensure_ascii=False)[:500]} raw {json.dumps(o['raw'], ensure_ascii=False)[:300]}", obs=o))
            elif sample is None and len(o['errs']) > 2: sample = dict(failures=o['fails'], raw=o['raw'])
        return dict(viols=viols, hist=hist, states=r.distinct, gen=r.states, n=len(obs), sample=sample)
    except tlc.TlcError as e: return dict(error='TLC: ' + str(e))
    except Exception: return dict(error=traceback.format_exc())

def run(pid, p, tier, seed):
    from . import engines as E
    import multiprocessing as mp
    n = 3000 if tier == 'quick' else 100000
    size = -(-n // E.PROCS) if tier == 'quick' else 2000
    tot, hist, viols, samples = Counter(), Counter(), [], []
    with mp.Pool(E.PROCS) as pool:
        for r in pool.imap_unordered(chunk, [(f'{seed}/{pid}/err', a, min(size, n - a)) for a in range(0, n, size)]):
            if 'error' in r: raise RuntimeError(r['error'])
            hist.update(r['hist']); viols += r['viols']
            for k in ('states', 'gen', 'n'): tot[k] += r[k]
            if r['sample']: samples.append(r['sample'])
    viols.sort(key=lambda v: len(v['summary']))
    return dict(states=tot['states'], transitions=tot['gen'] // 2, traces=tot['n'], samples=samples[:2], violations=viols[:4],
                detail=dict(what='validation errors of the real code for random trees of failures (construction, update, dump) validated by TLC against ErrFmt.tla: flattening, raw form, text form', outcomes=dict(hist)))
