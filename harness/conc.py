"""Engine: strands of operations, interleaved at every call of user code.

The specification (MCConc.tla) runs the strands of a scenario in every order of their
operations and says what each operation is observed to do.  The real strands run
  nested   an operation is started by user code in the middle of another one, in the
           same thread; in its context or in a copy of it
  threads  each strand has a thread of its own; one of them runs at a time and the
           others are suspended within user code
under schedules drawn at random."""
import contextvars, json, os, random, signal, sys, tempfile, threading, time, traceback, warnings
from collections import Counter
from . import gen, tlc, compare, script

CONC = dict(classes=(1, 3), vals=.6, raws=.35, hook=.35, fmt=.4, boom=.006, dflt=.35, none=.08, badval=.04, missing=.02, fail=.025)
# instances that are created without much ado
EASY = dict(none=.02, badval=0, missing=0, unknown=0)
# operations on what the strands share
SHARED = ('addv', 'remv', 'clrv', 'cfg')

class ConcGen(gen.Gen):
    """Scenarios [ops (prefix), strands]."""
    def __init__(self, rng, **profile):
        super().__init__(rng, **{**CONC, **profile})
    def op(self):
        n = len(self.ops)
        super().op()
        for o in self.ops[n:]: o['grp'] = self.g
        for i in self.inst:
            self.ig.setdefault(i, self.g)
    def scenario(self, sid):
        r = self.r
        self.cl, self.inst, self.order, self.states, self.ops, self.seen, self.reg, self.refs = {}, {}, [], [], [], [], [], []
        self.failed = self.ninst = 0
        self.td = {}
        self.tg = gen.TypeGen(r, self.td, self.p['unsup'])
        self.ig, self.g = {}, 'S'
        for _ in range(r.randint(*self.p['classes'])): self.define()
        if not self.cl: return self.scenario(sid)
        for o in self.ops: o['grp'] = 'S'
        k = r.choice([2, 2, 2, 3])
        for g in ['S'] + list(range(k)):
            self.grow(g, r.randint(1, 2) if g == 'S' else 3, {**{x: 0 for x in gen.BASE['ops']}, 'new': 1}, **EASY)
        prefix = self.ops
        strands = []
        for g in range(k):
            self.ops = []
            self.grow(g, r.randint(2, 4), {**self.p['ops'], **{x: 0 for x in SHARED}})
            strands.append(self.ops)
        env = gen.environment(prefix + sum(strands, []), self.td)
        return dict(id=sid, env=env, flds={c: sorted(x['flds']) for c, x in self.cl.items()}, ops=prefix, strands=strands, seed=r.randrange(10**9))
    def grow(self, g, n, ops, **more):
        """n operations of strand g, which sees its own instances and the shared ones."""
        r = self.r
        self.g = g
        allinst, allorder, allstates, keep = self.inst, self.order, self.states, self.p
        vis = lambda i: self.ig[i] in ('S', g)
        self.inst = {i: c for i, c in allinst.items() if vis(i)}
        self.order = [i for i in allorder if vis(i)]
        self.states = [i for i in allstates if self.ig[i] == g]
        self.p = {**self.p, **more, 'ops': ops}
        target, tries = len(self.ops) + n, 0
        while len(self.ops) < target and tries < 60:
            tries += 1
            self.op()
            if self.ops:
                o = self.ops[-1]
                if o['op'] in ('upd', 'set', 'state', 'setx') and g != 'S' and self.ig[o['i']] == 'S': self.ops.pop()
                elif o['op'] == 'copy' and self.ig.get(o['i']) == 'S' and o['id'] in self.states: self.states.remove(o['id'])
        self.p = keep
        for i, c in self.inst.items(): allinst[i] = c
        self.order, self.inst = allorder + [i for i in self.order if i not in allorder], allinst
        self.states = allstates + [i for i in self.states if i not in allstates]

def groups(s):
    out = {}
    for o in s['ops'] + sum(s['strands'], []):
        if 'id' in o: out[o['id']] = o['grp']
    # what an operation on an instance creates belongs to the strand of the operation
    return out

class Strand:
    def __init__(self, g, ops, rng):
        self.g, self.ops, self.k, self.obs, self.rng, self.busy = g, ops, 0, [], rng, False

class Nested:
    """Operations started in the middle of others, in one thread."""
    def __init__(self, runner, strands, rng, copied):
        self.run_, self.strands, self.rng, self.copied, self.depth, self.nested = runner, strands, rng, copied, 0, 0
    def one(self, s):
        run = self.run_
        saved = run.save()
        s.busy = True
        run.grp, run.rng = s.g, s.rng
        op = s.ops[s.k]
        s.k += 1
        try: s.obs.append(run.step(op))
        finally:
            s.busy = False
            run.restore(saved)
    def idle(self):
        return [s for s in self.strands if not s.busy and s.k < len(s.ops)]
    def gate(self):
        if self.depth > 3 or self.rng.random() > .5: return
        c = self.idle()
        if not c: return
        self.depth += 1
        self.nested += 1
        s = self.rng.choice(c)
        try:
            if self.copied and self.rng.random() < .6: contextvars.copy_context().run(self.one, s)
            else: self.one(s)
        finally: self.depth -= 1
    def go(self):
        while True:
            c = self.idle()
            if not c: return
            self.one(self.rng.choice(c))

class Threads:
    """A thread for each strand; the baton is handed over at the gates."""
    def __init__(self, runner, strands, rng, copied=False):
        self.run_, self.strands, self.rng, self.nested = runner, strands, rng, 0
        self.baton = {s.g: threading.Semaphore(0) for s in strands}
        self.done, self.cur, self.err = threading.Event(), None, None
        self.p = rng.choice([.2, .5, .9])
    def alive(self):
        return [s for s in self.strands if s.k < len(s.ops) or s.busy]
    def switch(self, s):
        """The running strand hands the baton over to s."""
        me = self.cur
        saved = self.run_.save()
        self.nested += 1
        self.cur = s
        self.baton[s.g].release()
        self.baton[me.g].acquire()
        self.run_.restore(saved)
    def gate(self):
        if self.rng.random() > self.p: return
        c = [s for s in self.alive() if s is not self.cur]
        if c: self.switch(self.rng.choice(c))
    def body(self, s):
        run = self.run_
        self.baton[s.g].acquire()
        try:
            while s.k < len(s.ops):
                s.busy = True
                run.grp, run.rng = s.g, s.rng
                op = s.ops[s.k]
                s.k += 1
                s.obs.append(run.step(op))
                s.busy = False
                if s.k < len(s.ops): self.gate()
        except BaseException as e:
            self.err = traceback.format_exc()
            s.k, s.busy = len(s.ops), False
        c = self.alive()
        if c:
            self.cur = self.rng.choice(c)
            self.baton[self.cur.g].release()
        else: self.done.set()
    def go(self):
        ts = [threading.Thread(target=self.body, args=(s,), daemon=True) for s in self.strands]
        for t in ts: t.start()
        self.cur = self.rng.choice(self.strands)
        self.baton[self.cur.g].release()
        if not self.done.wait(20): raise script.Hang
        for t in ts: t.join(5)
        if self.err: raise RuntimeError(self.err)

class Lines(Threads):
    """The same; they are also suspended between lines of the library."""
    def __init__(self, *a):
        super().__init__(*a)
        import oblate
        self.dir = os.path.dirname(oblate.__file__) + os.sep
        self.pl = self.rng.choice([.01, .05, .2])
        self.left = 400
    def global_trace(self, frame, event, arg):
        return self.local_trace if frame.f_code.co_filename.startswith(self.dir) else None
    def local_trace(self, frame, event, arg):
        if event == 'line' and self.left > 0 and self.rng.random() < self.pl:
            c = [s for s in self.alive() if s is not self.cur]
            if c:
                self.left -= 1
                self.switch(self.rng.choice(c))
        return self.local_trace
    def body(self, s):
        sys.settrace(self.global_trace)
        try: super().body(s)
        finally: sys.settrace(None)

class Alone(Nested):
    """One after the other."""
    def gate(self): pass

MODES = [('alone', Alone, False), ('nested', Nested, False), ('nested, copied contexts', Nested, True), ('threads', Threads, False), ('threads, switched at lines', Lines, False)]

def real_run(scen, mode, salt):
    """Observations of the operations of every strand."""
    from . import core
    import oblate
    _, cls, copied = MODES[mode]
    rng = random.Random(f"{scen['seed']}/{mode}/{salt}")
    script.alarm(30)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            run = core.Runner(scen)
            run.scen_fields = scen['flds']
            strands = [Strand(g, ops, random.Random(f"{scen['seed']}/{g}")) for g, ops in enumerate(scen['strands'])]
            def go():
                oblate.config = oblate.GlobalConfig()
                for o in scen['ops']: run.step(o)
                run.groups = groups(scen)
                core.SCHED = sched = cls(run, strands, rng, copied)
                try: sched.go()
                finally: core.SCHED = None
                return sched.nested
            n = contextvars.Context().run(go)
            return [s.obs for s in strands], n
    except script.Hang:
        return None, 0
    finally:
        core.SCHED = None
        oblate.config = oblate.GlobalConfig()
        signal.setitimer(signal.ITIMER_REAL, 0)

def spec_steps(scens, **kw):
    fd, p = tempfile.mkstemp(suffix='.ndjson', prefix='conc.')
    with os.fdopen(fd, 'w') as f:
        for s in scens: f.write(json.dumps(s) + '\n')
    try: r = tlc.run('MCConc', env={'SCENARIOS': p}, **kw)
    finally: os.unlink(p)
    by = {}
    for l in r.lines: by.setdefault(l[1], {})[(l[2] - 1, l[3] - 1)] = l[4:]
    return by, r

def diff(s, steps, obs, mode, salt):
    raw = compare.raw_ids({'ops': s['ops'] + sum(s['strands'], [])})
    grp = groups(s)
    for t, ops in enumerate(s['strands']):
        vis = lambda i: grp.get(i.split('.')[0]) in ('S', t)
        for k, op in enumerate(ops):
            st = steps.get((t, k))
            if st is None or k >= len(obs[t]):
                yield dict(scen=s['id'], i=k, strand=t, mode=mode, salt=salt, op=op['op'], clause='hang', exp='executed', got=None); return
            if 'UNKNOWN' in repr(st): return
            st = list(st)
            if isinstance(st[4], dict): st[4] = {i: x for i, x in st[4].items() if vis(i)}
            for clause, exp, got in compare.compare_step(op, st, obs[t][k], raw, op['op'] == 'upd'):
                yield dict(scen=s['id'], i=k, strand=t, mode=MODES[mode][0], salt=salt, op=op['op'], clause=clause, exp=exp, got=got)

def check(s, steps, salts):
    out, n, runs = [], 0, 0
    for mode in range(len(MODES)):
        for salt in range(salts if mode else 1):
            obs, k = real_run(s, mode, salt)
            n += k; runs += 1
            if obs is None:
                out.append(dict(scen=s['id'], i=-1, strand=0, mode=MODES[mode][0], salt=salt, op='*', clause='hang', exp='terminates', got='no answer'))
                return out, n, runs
            ms = list(diff(s, steps, obs, mode, salt))
            out += ms
            if ms: return out, n, runs
    return out, n, runs

def chunk(args):
    seed, start, n, profiles, short = args
    try:
        scens = [ConcGen(random.Random(f'{seed}/{i}'), **profiles[i % len(profiles)]).scenario(i) for i in range(start, start + n)]
        by, r = spec_steps(scens, short=short, heap='2g' if short else '6g')
        mism, hist, steps = [], Counter(), 0
        for s in scens:
            st = by.get(s['id'], {})
            try: ms, k, runs = check(s, st, 2 if short else 6)
            except Exception:
                ms, k, runs = [dict(scen=s['id'], i=-1, strand=0, mode='', op='*', clause='hang', exp='runs', got=traceback.format_exc()[-1500:])], 0, 0
            mism += [(s, m) for m in ms]
            hist['switches within an operation'] += k
            hist['schedules'] += runs
            for t, ops in enumerate(s['strands']):
                for j, op in enumerate(ops):
                    hist[f"{op['op']}:{st.get((t, j), ['?'])[0]}"] += 1
                    steps += runs
        return dict(mism=mism, hist=hist, states=r.distinct, gen=r.states, n=len(scens), steps=steps, sample=None)
    except tlc.TlcError as e:
        return dict(error='TLC: ' + str(e))
    except Exception:
        return dict(error=traceback.format_exc())

def failing(scens, accept):
    by, _ = spec_steps(scens)
    out = {}
    for s in scens:
        ms = [m for m in check(s, by.get(s['id'], {}), 4)[0] if accept(s, m)]
        if ms: out[s['id']] = ms
    return out

def replay_op(s, m):
    return s['strands'][m['strand']][m['i']] if m['i'] >= 0 else {}
