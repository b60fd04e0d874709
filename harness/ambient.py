"""Engine: every behaviour of Ambient.tla on the real code.

TLC checks that context variables that are set on entry and reset on exit provide what is
declared (Inv) and prints what user code does in each behaviour with what it is then told;
the callbacks of the classes below take the same decisions."""
import contextvars, multiprocessing as mp, os, sys, threading, traceback
from collections import Counter
from . import core, tlc
import oblate
from oblate import fields, validate

class Boom(Exception): pass
class Astray(BaseException):
    """User code is called where the specification does not call it."""

RUN = None

class Probe(fields.Any):
    def value_load(self, value, ctx): RUN.point('load', ctx.schema); return value
    def value_dump(self, value, ctx): RUN.point('dump', ctx.schema); return value
class Req(fields.Any):
    def format_error(self, code, ctx): RUN.point('fmt', ctx.schema); return 'msg'
def make_b(ctx, field):
    RUN.point('def', ctx.schema)
    return 1
class R(oblate.Schema):
    a = Probe()
    b = fields.Any(default=make_b)
    c = Req()
    def preprocess_data(self, data): RUN.point('pre', self); return data
    def __schema_post_init__(self): RUN.point('post', self)
    @validate.field('a', raw=True)
    def _raw(self, v, ctx): RUN.point('raw', self)
    @validate.field('a')
    def _val(self, v, ctx): RUN.point('val', self)
class O(oblate.Schema):
    o = fields.Object(R)
    def preprocess_data(self, data): RUN.point('pre', self); return data
    def __schema_post_init__(self): RUN.point('post', self)
DATA = {'a': 1, 'c': 2}

class Strand:
    def __init__(self): self.pending, self.began, self.depth, self.done = None, False, 0, False

class Replay:
    def __init__(self, ds, strands):
        self.ds, self.k, self.trace, self.num, self.n, self.quiet, self.keep = ds, 0, [], {}, 0, 0, []
        self.err = None
        self.st = {t: Strand() for t in range(1, strands + 1)}
        self.cur = 1
    # ---- what is told
    def number(self, s):
        if id(s) not in self.num:
            st = self.st[self.cur]
            if st.pending: x, st.pending = st.pending, None
            else: self.n += 1; x = self.n
            self.num[id(s)] = x
            self.keep.append(s)
        return self.num[id(s)]
    def ctx(self, c):
        if c is None: return ['-']
        k = 'load' if isinstance(c, oblate.LoadContext) else 'dump' if isinstance(c, oblate.DumpContext) else type(c).__name__
        return [k, c.field.name, self.num.get(id(c.schema), '?')]
    def told(self, a):
        if a is None: return ['-', '-', ['-']]
        s, c, k = a
        return [self.num.get(id(s), '-' if s is None else '?'), k if isinstance(k, str) else '-' if k is None else repr(k), self.ctx(c)]
    def ambient(self):
        return core.ambient()
    def log(self, *ev):
        self.trace.append(list(ev))
        if len(self.trace) > 400: raise Astray('no end')
    # ---- what user code does
    def decide(self):
        if self.k >= len(self.ds): raise Astray('no decision left')
        self.k += 1
        return self.ds[self.k - 1]
    def point(self, name, schema):
        if self.quiet: return
        me, i = self.cur, self.number(schema)
        a = self.ambient()
        self.log('call', me, i, name, self.told(a))
        while True:
            d = self.decide()
            if d[0] == 'ret': return
            if d[0] == 'V':
                kind = self.k % 3
                if kind == 0: raise ValueError('no')
                if kind == 1: raise oblate.FieldError('no')
                raise AssertionError('no')
            if d[0] == 'B': raise Boom
            if d[0] == 'nest': self.nest(d[1], d[2])
            elif d[0] == 'switch': self.switch(d[1])
            else: raise Astray(f'decision {d} at {name}')
            b = self.ambient()
            self.log('back', me, i, name, self.told(b) if core.same_ambient(a, b) else ['changed'] + self.told(b))
    def nest(self, k, mode):
        f = lambda: self.operation(k)
        if mode == 'same': return f()
        if mode == 'copy': return contextvars.copy_context().run(f)
        if mode == 'tcopy':
            c = contextvars.copy_context()
            f = lambda: c.run(self.operation, k)
        out = []
        def body():
            try: f()
            except BaseException as e: out.append(e)
        t = threading.Thread(target=body); t.start(); t.join()
        if out: raise out[0]
    # ---- operations
    def operation(self, k):
        me = self.cur
        self.n += 1
        i = self.n
        st = self.st[me]
        if k not in ('new', 'miss', 'onew'):
            self.quiet += 1
            inst = contextvars.Context().run(lambda: O({'o': dict(DATA)}) if k == 'odump' else R(dict(DATA)))
            self.quiet -= 1
            self.num[id(inst)] = i
            self.keep.append(inst)
        else: st.pending = i
        res, errs = 'ok', []
        try:
            if k == 'new': R(dict(DATA))
            elif k == 'miss': R({'a': 1})
            elif k == 'onew': O({'o': dict(DATA)})
            elif k == 'upd': inst.update({'a': 3})
            elif k == 'set': inst.a = 3
            else: inst.dump()
        except oblate.ValidationError as e:
            res = 'verr'
            errs = [[x.key, self.ctx(x.context)] for x in e.errors]
        except Boom: res = 'B'
        self.log('end', me, i, res, errs)
    # ---- strands
    def main(self):
        if len(self.st) == 1: return contextvars.Context().run(self.strand, 1)
        self.sem = {t: threading.Semaphore(0) for t in self.st}
        self.over = threading.Event()
        ts = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in self.st]
        for t in ts: t.start()
        self.sem[1].release()
        if not self.over.wait(20): raise Astray('the strands do not end')
        for t in ts: t.join(5)
        if self.err: raise self.err
    def strand(self, t):
        self.st[t].began = True
        d = self.decide()
        if d[0] != 'op': raise Astray(f'decision {d} at the start')
        self.operation(d[1])
        if self.ambient() is not None: self.log('rest', t, self.told(self.ambient()))
        self.st[t].done = True
    def body(self, t):
        self.sem[t].acquire()
        try:
            if self.err is None: self.strand(t)
        except BaseException as e:
            self.err = self.err or e
            self.over.set()
        self.st[t].done = True
        c = [u for u in sorted(self.st) if not self.st[u].done]
        if c: self.cur = c[0]; self.sem[c[0]].release()
        else: self.over.set()
    def switch(self, t):
        me = self.cur
        self.cur = t
        self.sem[t].release()
        self.sem[me].acquire()
        if self.err: raise Astray('another strand failed')

def plain(tr):
    """What an error that is none of a value of the schema tells of the context of surrounding operations is left open."""
    out = []
    for e in tr:
        if e[0] in ('call', 'back') and len(e[4]) == 3:
            # without a key no error can be created: the schema is not seen either
            if e[3] in ('pre', 'post'): e = [*e[:4], [e[4][0] if e[4][1] != '-' else '-']]
            elif e[3] in ('def', 'fmt'): e = [*e[:4], e[4][:2]]
        elif e[0] == 'end': e = [*e[:4], [[k, '*' if k == 'c' else c] for k, c in e[4]]]
        out.append(e)
    return out

def one(ds, tr, strands):
    """None, or what differs."""
    global RUN
    oblate.config = oblate.GlobalConfig()
    RUN = r = Replay(ds, strands)
    try: r.main()
    except Astray as e: r.trace.append(['astray', str(e)])
    except Exception as e: r.trace.append(['exception', ''.join(traceback.format_exception_only(type(e), e)).strip()])
    if r.k < len(ds) and not (r.trace and r.trace[-1][0] in ('astray', 'exception')): r.trace.append(['astray', f'{len(ds) - r.k} decisions are not asked for'])
    exp, got = plain(tr), plain(r.trace)
    if exp == got: return None
    j = next((j for j, (x, y) in enumerate(zip(exp, got)) if x != y), min(len(exp), len(got)))
    return dict(decisions=ds, at=j, expected=exp[j] if j < len(exp) else None, got=got[j] if j < len(got) else None, events=got[:j + 1])

def chunk(args):
    items, strands = args
    try:
        bad, h = [], Counter()
        for _, ds, tr in items:
            m = one(ds, tr, strands)
            h['events'] += len(tr)
            for d in ds: h['decision ' + ' '.join(map(str, d))] += 1
            if m: bad.append(m)
        return bad[:20], h, None
    except BaseException:
        return [], Counter(), traceback.format_exc()

QUICK = [('AmbientA', 1), ('AmbientB', 1), ('AmbientC', 2)]
DEEP = QUICK + [('AmbientD', 1), ('AmbientE', 1), ('AmbientF', 2)]

def run(pid, p, tier, seed):
    from .engines import PROCS
    viols, states, trans, n, detail, sample = [], 0, 0, 0, {}, []
    for cfg, strands in QUICK if tier == 'quick' else DEEP:
        r = tlc.run('Ambient', cfg=cfg + '.cfg', workers=1 if tier == 'quick' else 4, short=tier == 'quick', heap='8g', timeout=3000)
        items = r.lines
        size = max(1, min(2000, -(-len(items) // PROCS)))
        bad, hist = [], Counter()
        with mp.Pool(PROCS) as pool:
            for b, h, err in pool.imap_unordered(chunk, [(items[a:a + size], strands) for a in range(0, len(items), size)]):
                if err: raise RuntimeError(err)
                bad += b
                hist.update(h)
        bad.sort(key=lambda m: len(m['decisions']))
        for m in bad[:3]:
            viols.append(dict(kind='ambient', summary=f"user code does {m['decisions']}: event {m['at']}: specification {m['expected']}, code {m['got']}", cfg=cfg, **m))
        states += r.distinct; trans += r.states; n += len(items)
        detail[cfg] = dict(behaviours=len(items), states=r.distinct, differing=len(bad), decisions=dict(sorted(hist.items())))
        if items: sample.append(dict(decisions=items[len(items) // 2][1], events=items[len(items) // 2][2]))
    return dict(states=states, transitions=trans, traces=n, samples=sample[:2], violations=viols[:5],
                detail=dict(what='every behaviour of Ambient.tla (operations that are nested, fail, run in copied contexts and threads, are suspended) within the bounds of the configurations, replayed on the real code', **detail))
