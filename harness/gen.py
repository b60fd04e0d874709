"""Random generator of scenarios (scripts of operations) for Oblate.tla."""
import random, copy, json
from . import values as V

NONE = ['none']
FAILS = ['V', 'A', 'VS', 'AS', 'V0', 'A0', 'F', 'FS', 'FL', 'FT', 'FE', 'FD', 'FI', 'V1', 'A1', 'VE', 'VB', 'AB', 'VM', 'VU', 'VC', 'FV']
BOOMS = ['B', 'BK', 'BT', 'BA', 'BKey', 'BR', 'BL', 'BI', 'BO', 'BKI', 'BSI', 'BMem', 'BSE', 'BGE', 'BOv']
NOISES = ['newok', 'newbad', 'newkey', 'updok', 'updbad', 'updkey', 'updfrozen', 'setbad', 'setnone', 'setok', 'setkey',
          'dumpbad', 'dumpkey', 'dumpok', 'typeerr', 'errctx', 'selfdump', 'selfbad', 'selfcopy', 'selfbad', 'selfcopy'] + ['b' + n + x for n in ('', 'n') for x in ('pre', 'post', 'load', 'def', 'fmtr', 'fmtn', 'val', 'raw', 'dump')]
CODES = ['field_required', 'none_disallowed', 'validation_failed', 'invalid_datatype', 'coercion_failed',
         'type_validation_failed', 'invalid_value']

BASE = dict(
    kinds=dict(probe=6, any=1, prim=2, struct=1, typed=1, object=3),
    ops=dict(new=5, upd=4, set=3, get=1, dump=3, copy=1, addv=.5, remv=.3, clrv=.2, walk=.3, cfg=.3, state=.3, info=.3, setx=.1, rt=.3, repr=.1),
    classes=(2, 4), nops=(10, 22), fields=(1, 4),
    fail=.05, boom=.012, none=.15, missing=.05, unknown=.08, noise=.15, fmt=.25, hook=.2, frozen=.08, inherit=.35, multi=.25,
    vals=.5, raws=.25, lk=.35, dk=.3, req=.3, dflt=.25, nonefield=.45, bodyval=.3, ie=.3, mt=.3, st=.25, cfgown=.35, slots=.2, samekeys=False,
    midcfg=0, reuse=.02, copyf=.12, unsup=.1, strict=.5, peek=.1, override=.3, unique=.7, badval=.1,
)

STRS = ['', 'a', 'true', 'True', '1', '0', '12', '-3', ' 7 ', '1.5', 'nope', 'yes', 'NO', '1e3', '0x10', 'é', 'False', 'abc', '٣', '1_0']
SCALARS = ([['str', s] for s in STRS] + [['int', str(i)] for i in (0, 1, -1, 2, 7, 10**20)] +
           [['bool', 'True'], ['bool', 'False']] + [['float', f] for f in ('0.0', '1.0', '1.5', '-2.25', '1e+20', 'inf')] +
           [['bytes', '61'], ['bytes', '']] +
           [['x', 'XFroz', 'q'], ['x', 'XGen', 'ab'], ['x', 'XView', 'ab']] +
           [['x', c, s] for c in ('XBase', 'XSub', 'XOther', 'XInt') for s in ('yes', 'q')] + [['x', 'XBad', s] for s in 'VFR'] +
           [['sub', 'SubInt', ['int', '5']], ['sub', 'SubStr', ['str', 'yes']], ['sub', 'SubFloat', ['float', '2.5']]])
_RZ = V.Realizer()

def coercion(pt, v):
    """The result of str/int/float of an encoded value."""
    if v[0] in ('c', 'obj', 'map') or 'c' in repr(v[0]) and v[0] == 'c': return ['err']
    try: return ['ok', V.encode({'String': str, 'Integer': int, 'Float': float}[pt](_RZ.real(v)))]
    except Exception: return ['err']

class TypeGen:
    """Random type expressions and values that do (or nearly do) conform."""
    def __init__(self, rng, td=None, unsup=.1, pep=True):
        self.r, self.td, self.unsup, self.pep = rng, td if td is not None else {}, unsup, pep
    CLS = ['int', 'str', 'float', 'bool', 'bytes', 'NoneType', 'XBase', 'XSub', 'XOther', 'object', 'list', 'dict', 'SubInt', 'tuple']
    def typeddict(self, depth):
        r = self.r
        self.ntd = getattr(self, 'ntd', 0) + 1
        n = f'TD{self.ntd}'
        bases = []
        cand = list(self.td)
        if cand and r.random() < .45: bases = [r.choice(cand)]
        used = set()
        for b in bases: used |= self.keys(b)
        body = []
        for k in r.sample(['p', 'q', 'r', 's', 't', 'u', 'v'], r.randint(0, 4)):
            if k in used: continue
            t = self.type(depth + 1)
            body.append([k, r.choice([t, t, t, ['req', t], ['nreq', t]])])
        self.td[n] = dict(bases=bases, total=r.random() < .6, body=body)
        return n
    def keys(self, n):
        out = {k for k, _ in self.td[n]['body']}
        for b in self.td[n]['bases']: out |= self.keys(b)
        return out
    def lits(self):
        r = self.r
        pool = [['str', 'a'], ['str', 'b'], ['str', 'yes'], ['int', '2'], ['int', '3'], ['int', '-7'], ['bytes', '61'], NONE, ['str', '2'], ['str', '']]
        return r.sample(pool, r.randint(1, 4))
    def type(self, depth=0):
        r = self.r
        if r.random() < self.unsup:
            return ['unsup', r.choice(['FrozenSet', 'Iterable', 'Deque', 'Callable', 'Type', 'frozenset', 'Iterator', 'MutableMapping',
                                       'DefaultDict', 'NewType', 'TypeVar', 'Protocol', 'Protocol', 'ProtocolA', 'UserGeneric', 'Self', 'Never', 'Alias',
                                       'NewType2', 'NewType2', 'TypeVar2', 'Protocol2', 'Alias2', 'Hashable', 'Collection', 'AbstractSet', 'OrderedDict', 'Pattern', 'BareCallable', 'LiteralString', 'Annotated'])]
        k = r.choice(['cls'] * 5 + ['any', 'lit', 'union', 'union'] + (['list', 'set', 'seq', 'tupv', 'tup', 'tup', 'tupany', 'dict', 'mapping', 'td'] if depth < 3 else []))
        pep = ['pep'] if self.pep and r.random() < .3 else []
        bare = ['bare'] if not pep and r.random() < .12 else []
        t = lambda: self.type(depth + 1)
        if k == 'any': return ['any']
        if k == 'cls':
            c = r.choice(self.CLS)
            return ['cls', c] + (['lit'] if c == 'NoneType' and r.random() < .6 else [])
        if k == 'lit': return ['lit', self.lits()]
        if k == 'union':
            ts = [t() for _ in range(r.randint(2, 3))]
            if r.random() < .3: ts = [ts[0], ['cls', 'NoneType']]
            if any(x[0] == 'unsup' for x in ts) or ts[0][-1] == 'lit' or ts[-1][-1] == 'lit': pep = []
            return self.norm_union(ts, pep)
        if k in ('list', 'set', 'seq', 'tupv'):
            if k == 'tupv' and bare: return ['tupany']
            if k == 'set' and not bare: return [k, r.choice([['cls', 'int'], ['cls', 'str'], ['any'], ['lit', self.lits()], ['union', [['cls', 'int'], ['cls', 'str']]],
                                              ['tup', [['cls', 'int'], ['cls', 'str']]]])] + pep
            return [k, ['any'] if bare else t()] + (bare or pep)
        if k == 'tupany': return ['tupany']
        if k == 'tup':
            return ['tup', [t() for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]] + pep
        if k in ('dict', 'mapping'):
            if bare: return [k, ['any'], ['any'], 'bare']
            kt = r.choice([['cls', 'str'], ['cls', 'str'], ['cls', 'int'], ['lit', self.lits()], ['any'], ['union', [['cls', 'int'], ['cls', 'str']]]])
            return [k, kt, t()] + pep
        if k == 'td':
            if self.td and r.random() < .5: return ['td', r.choice(list(self.td))]
            return ['td', self.typeddict(depth)]
    @staticmethod
    def norm_union(ts, pep):
        # typing flattens unions and leaves out equal members: only a single
        # member left makes a difference, it is the type then
        flat = []
        for x in ts: flat += x[1] if x[0] == 'union' else [x]
        if len({json.dumps(TypeGen.canon(x)) for x in flat}) == 1: return ts[0]
        return ['union', ts] + pep
    @staticmethod
    def canon(t):
        """Equal for types that typing takes to be equal (and for a few that it does not)."""
        if t[0] == 'cls': return t[:2]
        if t[0] == 'lit': return ['lit', sorted(map(json.dumps, t[1]))]
        if t[0] == 'union':
            ms = sorted({json.dumps(TypeGen.canon(x)) for x in t[1]})
            return json.loads(ms[0]) if len(ms) == 1 else ['union', ms]
        if t[0] in ('td', 'unsup'): return t
        return [TypeGen.canon(x) if isinstance(x, list) and x and isinstance(x[0], str) else [TypeGen.canon(y) for y in x] if isinstance(x, list) else x
                for x in t if x not in ('pep', 'bare')]
    def scalar(self):
        return copy.deepcopy(self.r.choice(SCALARS + [NONE]))
    def anyval(self, depth=0):
        r = self.r
        if depth > 2 or r.random() < .6: return self.scalar()
        k = r.choice(['list', 'tuple', 'set', 'dict', 'dict'])
        if k == 'set': return ['set', self.uniq([self.hashable() for _ in range(r.randint(0, 3))])]
        if k == 'dict': return ['dict', self.pairs([(self.hashable(), self.anyval(depth + 1)) for _ in range(r.randint(0, 3))])]
        return [k, [self.anyval(depth + 1) for _ in range(r.randint(0, 3))]]
    def hashable(self):
        return copy.deepcopy(self.r.choice([['str', 'a'], ['str', 'p'], ['str', 'q'], ['str', 'b'], ['str', 'yes'], ['int', '2'], ['int', '3'], ['int', '-7'], ['bytes', '61'], NONE]))
    def uniq(self, xs):
        out = []
        for x in xs:
            if x not in out: out.append(x)
        return out
    def pairs(self, kvs):
        out = []
        for k, v in kvs:
            if k not in [a for a, _ in out]: out.append([k, v])
        return out
    def val(self, t, depth=0, bad=.1):
        """A value that conforms to t, but for a few faults."""
        r = self.r
        if r.random() < bad: return self.anyval(depth)
        k = t[0]
        v = lambda x: self.val(x, depth + 1, bad)
        if k in ('list', 'set', 'tupv', 'tup', 'seq') and r.random() < bad / 2: return ['x', *r.choice([('XFroz', 'q'), ('XFroz', ''), ('XGen', 'ab'), ('XView', 'ab')])]
        n = r.choice([0, 1, 1, 2, 3]) if r.random() < .985 or depth > 1 else r.choice([20, 101, 130])
        if k in ('any', 'unsup'): return self.anyval(depth)
        if k in ('req', 'nreq'): return v(t[1])
        if k == 'lit': return copy.deepcopy(r.choice(t[1]))
        if k == 'union': return v(r.choice(t[1]))
        if k == 'cls':
            c = [s for s in SCALARS + [NONE, ['list', []], ['dict', []], ['tuple', []]] if t[1] in V.ANC[self.cname(s)]]
            if t[1] == 'object' or not c: return self.anyval(depth)
            return copy.deepcopy(r.choice(c))
        if k == 'list': return self.sub('SubList', ['list', [v(t[1]) for _ in range(n)]])
        if k == 'set': return self.sub('SubSet', ['set', self.uniq([self.hval(t[1]) for _ in range(n)])])
        if k == 'seq':
            tag = r.choice(['list', 'tuple', 'tuple', 'set'])
            if tag == 'set': return self.sub('SubSet', ['set', self.uniq([self.hval(t[1]) for _ in range(n)])])
            return self.sub('SubList' if tag == 'list' else 'SubTuple', [tag, [v(t[1]) for _ in range(n)]])
        if k == 'tupv': return self.sub('SubTuple', ['tuple', [v(t[1]) for _ in range(n)]])
        if k == 'tupany': return self.sub('SubTuple', ['tuple', [self.anyval(depth + 1) for _ in range(n)]])
        if k == 'tup':
            xs = [v(x) for x in t[1]]
            q = r.random()
            if q < .08 and xs: xs.pop()
            elif q < .16: xs.append(self.scalar())
            return self.sub('SubTuple', ['tuple', xs])
        if k in ('dict', 'mapping'):
            tag = 'mp' if k == 'mapping' and r.random() < .3 else 'dict'
            d = [tag, self.pairs([(self.hval(t[1]), v(t[2])) for _ in range(n)])]
            return self.sub('SubDict', d) if tag == 'dict' else d + r.choice([[], [], ['userdict'], ['my'], ['chain']])
        if k == 'td':
            kv = []
            for kk, tp, req in self.tdkeys(t[1]):
                if r.random() < (.93 if req else .6): kv.append((['str', kk], v(tp)))
            if r.random() < .08: kv.append((self.hashable(), self.scalar()))
            r.shuffle(kv)
            return self.sub('SubDict', ['dict', self.pairs(kv)])
        raise ValueError(k)
    def sub(self, c, v):
        return ['sub', c, v] if self.r.random() < .1 else v
    def hval(self, t):
        """A hashable value, mostly conforming to t."""
        r = self.r
        if r.random() < .15: return self.hashable()
        if t[0] == 'lit': return copy.deepcopy(r.choice(t[1]))
        if t == ['cls', 'str']: return ['str', r.choice(['a', 'b', 'p', 'zz'])]
        if t == ['cls', 'int']: return ['int', r.choice(['2', '3', '5'])]
        if t[0] == 'tup': return ['tuple', [self.hval(x) for x in t[1]]]
        if t[0] == 'union': return self.hval(r.choice(t[1]))
        return self.hashable()
    def cname(self, s):
        return s[1] if s[0] in ('x', 'sub') else 'NoneType' if s[0] == 'none' else s[0]
    def tdkeys(self, n):
        d = self.td[n]
        out = []
        for b in d['bases']: out += self.tdkeys(b)
        for k, t in d['body']:
            req = t[0] == 'req' or t[0] != 'nreq' and d['total']
            out.append((k, t[1] if t[0] in ('req', 'nreq') else t, req))
        return out

class Gen:
    def __init__(self, rng, **profile):
        self.r = rng
        self.p = {**BASE, **profile}
        for k in ('kinds', 'ops'):
            self.p[k] = {**BASE[k], **profile.get(k, {})}
        self.n = 0
    def chance(self, k): return self.r.random() < self.p[k]
    def pick(self, w):
        ks = [k for k in w if w[k] > 0]
        return self.r.choices(ks, [w[k] for k in ks])[0]
    def boom(self, b):
        """Where a failure is none of validation, whatever its type (only without nested schemas, whose loader would take it for one)."""
        return self.r.choice(['BV', 'BAs', 'BVE']) if self.p.get('vboom') and self.r.random() < .6 else b
    def outcome(self, boom=True, ids=True):
        r = self.r
        if boom and self.chance('boom'): return r.choice(BOOMS + ['BVE'] * 5 if self.p.get('vboom') else BOOMS)
        if self.chance('fail'): return r.choice(FAILS)
        return 'ok'
    def table(self):
        t = [self.outcome() for _ in range(4)]
        return t
    def loadtable(self):
        return ['id' if o == 'ok' and self.r.random() < .1 else o for o in self.table()]
    def u(self):
        self.n += 1
        return self.n
    def noise(self):
        return self.r.choice(NOISES) if self.chance('noise') else ''

    # ---- validators
    def vdesc(self, raw=None, names=(), cls=True):
        r = self.r
        k = r.choice(['fn', 'fn', 'cls']) if cls else 'fn'
        if raw and cls and r.random() < .5: k = 'clsraw'
        elif raw: k = 'fn'
        elif k == 'clsraw': k = 'cls'
        d = dict(id=f'v{self.u()}', k=k, tbl=['ok' if o == 'id' else o for o in self.table()], peek='', noise=self.noise())
        if r.random() < .04: d['noise'] = 'reg'
        if names and not raw and self.chance('peek'): d['peek'] = r.choice(list(names))
        return d

    # ---- fields
    def field(self, nm, lks, dks):
        r = self.r
        kind = self.pick(self.p['kinds'])
        if kind == 'object' and not self.objclasses(): kind = 'probe'
        f = dict(nm=nm, lk='', dk='', req=not self.chance('req'), none=self.chance('nonefield'), frozen=self.chance('frozen'),
                 dflt=['missing'], kind=kind, load=['ok'] * 4, dump=['ok'] * 4, cls='', ie='m', ist=NONE, fmt={}, fl=False,
                 tp=['any'], tcode='', pt='', strict=True, tv=[], fv=[], customtf=False, bare=False, vals=[], raws=[],
                 id=f'f{self.u()}', noise=self.noise(), fmtsuper=r.random() < .5)
        if self.chance('lk'):
            k = r.choice([x for x in lks if x not in self.usedlk] or [''])
            f['lk'] = k
        if self.chance('dk'):
            f['dk'] = f['lk'] if f['lk'] and r.random() < .5 else r.choice(dks)
        if self.p['samekeys']: f['dk'] = f['lk']
        if kind == 'probe':
            f['load'] = self.loadtable(); f['dump'] = ['id' if o == 'ok' and r.random() < .1 else o for o in self.table()]
            f['fl'] = r.random() < .5
        elif kind == 'prim':
            f['pt'] = self.pick(dict(String=1, Integer=1, Float=1, Boolean=1.3))
            f['strict'] = self.chance('strict')
            if f['pt'] == 'Boolean':
                if r.random() < .3:
                    f['customtf'] = True
                    f['tv'], f['fv'] = r.choice([(['y', 'q', '7'], ['n', '0']), (['True'], ['False', 'a']), ([], ['yes']), (['yes', '1'], [])])
                else:
                    f['tv'] = ['TRUE', 'True', 'true', 'YES', 'Yes', 'yes', '1']
                    f['fv'] = ['FALSE', 'False', 'false', 'NO', 'No', 'no', '0']
        elif kind == 'struct':
            f['pt'] = r.choice(['Dict', 'List', 'Set', 'TypedDict'])
            tg = self.tg
            if f['pt'] == 'Dict': f['tp'] = ['dict', r.choice([['cls', 'str'], ['any'], ['lit', tg.lits()]]), tg.type(1)]
            if f['pt'] == 'List': f['tp'] = ['list', tg.type(1)]
            if f['pt'] == 'Set': f['tp'] = ['set', r.choice([['cls', 'int'], ['cls', 'str'], ['lit', tg.lits()]])]
            if f['pt'] == 'TypedDict': f['tp'] = ['td', tg.typeddict(1)]
            if f['pt'] != 'TypedDict' and r.random() < .2:
                f['bare'] = True
                f['tp'] = [f['tp'][0]] + [['any']] * (len(f['tp']) - 1)
        elif kind == 'typed':
            f['pt'] = r.choice(['Literal', 'Union', 'TypeExpr', 'TypeExpr'])
            tg = self.tg
            if f['pt'] == 'Literal': f['tp'] = ['lit', tg.lits()]; f['tcode'] = 'invalid_value'
            if f['pt'] == 'Union':
                f['tp'] = ['union', [tg.type(1) for _ in range(r.randint(2, 3))]]; f['tcode'] = 'invalid_value'
            if f['pt'] == 'TypeExpr': f['tp'] = tg.type(0); f['tcode'] = 'type_validation_failed'
        elif kind == 'object':
            f['cls'] = r.choice(self.objclasses())
            if r.random() < .4: f['ie'] = r.choice(['T', 'F'])
            if r.random() < .3: f['ist'] = ['str', r.choice(['st' + str(self.u()), ''])]
        if f['kind'] != 'probe' and r.random() < .3: f['fl'] = True
        if self.chance('fmt'):
            for c in CODES:
                if r.random() < .5: f['fmt'][c] = r.choice(['str', 'str', 'fe', 'fe', 'fl', 'fl', 'nil'] if r.random() > self.p['boom'] else ['B'] if c == 'field_required' else ['bad'] + r.sample(BOOMS, 2))   # (in which order fields are filled is open)
        q = r.random()
        if q < self.p['dflt'] * .4: f['dflt'] = ['call', self.boom('B') if self.chance('boom') else 'ok']
        elif q < self.p['dflt']: f['dflt'] = ['val', r.choice([['c', r.randrange(4), self.u()], NONE, ['str', 'dflt'], ['int', '5'], ['list', [['int', '1']]], ['c', 1, self.u()], ['x', r.choice(['XAny', 'XMis']), 'q']])]
        if "'lit'" in repr(f['tp']) and f['dflt'][0] == 'val' and f['dflt'][1][0] == 'x': f['dflt'] = ['val', ['str', 'dflt']]   # (whether such objects equal a literal is theirs to say)
        if f['kind'] == 'object' and f['dflt'][0] == 'call': f['dflt'] = ['missing']
        if f['kind'] == 'object' and f['dflt'][0] == 'val': f['dflt'] = ['val', NONE]
        while self.chance('vals') and len(f['vals']) < 3: f['vals'].append(self.vdesc(names=self.curnames))
        while self.chance('raws') and len(f['raws']) < 3: f['raws'].append(self.vdesc(raw=True))
        return f

    def objclasses(self):
        return list(self.cl)

    # ---- classes
    def define(self):
        r = self.r
        cid = f'K{len(self.cl) + self.failed}'
        for _ in range(30):
            d = self.try_define(cid)
            if d: break
        else:
            self.failed += 1
            return
        self.ops.append(d)

    def mro(self, bases):
        seqs = [list(self.cl[b]['mro']) for b in bases] + [list(bases)]
        out = []
        while True:
            seqs = [s for s in seqs if s]
            if not seqs: return out
            for s in seqs:
                if not any(s[0] in t[1:] for t in seqs):
                    h = s[0]; break
            else: return None
            out.append(h)
            seqs = [s[1:] if s[0] == h else s for s in seqs]

    def try_define(self, cid):
        r = self.r
        bases = []
        if self.cl and self.chance('inherit'):
            bases = [r.choice(list(self.cl))]
            if len(self.cl) > 1 and self.chance('multi'):
                bases = r.sample(list(self.cl), min(len(self.cl), r.choice([2, 2, 3])))
        mro = self.mro(bases)
        if mro is None: return None
        if len(bases) > 1:
            if len({b for b in mro if self.cl[b]['slots']}) > 1: return None
            if len({repr(self.cl[b]['cfg']) for b in bases}) > 1: own = True
            else: own = self.chance('cfgown')
        else: own = self.chance('cfgown')
        cfg = dict(frozen=self.chance('frozen'), ie=self.chance('ie'), slotted=r.random() < .7, repr=r.random() < .8) if own else \
              dict(frozen=False, ie=False, slotted=True, repr=True)
        eff = cfg if own else self.cl[bases[-1]]['cfg'] if bases else dict(frozen=False, ie=False, slotted=True, repr=True)
        inh = {}
        for b in reversed(mro): inh.update(self.cl[b]['own'])
        names = ['a', 'b', 'c', 'd', 'e', 'f', 'g']
        self.curnames = set(inh)
        ownf, body = {}, []
        need = list(bases)
        k = r.randint(*self.p['fields'])
        cand = [n for n in names if n not in inh or self.r.random() < self.p['override']]
        chosen = r.sample(cand, min(k, len(cand)))
        lks = names + ['k1', 'k2', 'k3', 'k4', 'k5', 'weird key', 'K-é', '1', '1', 'None']
        self.usedlk = set()
        self.curnames = set(inh) | set(chosen)
        for n in chosen:
            if self.cl and self.chance('copyf'):
                src = r.choice(list(self.cl))
                if self.cl[src]['flds']:
                    fr = r.choice(list(self.cl[src]['flds']))
                    if self.chance('reuse'):
                        body.append(dict(k='reuse', nm=n, fr=fr, **{'from': src}))
                    else:
                        body.append(dict(k='copy', nm=n, fr=fr, **{'from': src}))
                    f = dict(self.cl[src]['flds'][fr], nm=n)
                    ownf[n] = f
                    need.append(src)
                    continue
            f = self.field(n, lks, names + ['k1', 'd1', 'd2', 'd3', ''])
            if f['kind'] == 'object': need.append(f['cls'])
            body.append(dict(k='field', nm=n, f=f))
            ownf[n] = f
        allf = {**inh, **ownf}
        lk = [f['lk'] or n for n, f in allf.items()]
        dk = [f['dk'] or n for n, f in allf.items()]
        if len(set(lk)) < len(lk) or len(set(dk)) < len(dk): return None
        really = set(ownf)
        mine = [e['nm'] for e in body if e['k'] != 'reuse']
        if mine and self.chance('reuse') and r.random() < .5:
            n2 = r.choice([n for n in names if n not in ownf] or [''])
            if n2: body.append(dict(k='reuse', nm=n2, fr=r.choice(mine), **{'from': cid}))
        for n in list(allf):
            while self.chance('bodyval') and len(body) < 12:
                raw = r.random() < .35
                by = 'obj' if n in really and not any(e['nm'] == n and e['k'] == 'reuse' for e in body if 'nm' in e) and r.random() < .4 else 'name'
                dd = self.vdesc(raw=raw, names=self.curnames if not raw else (), cls=False)
                dd['k'] = 'fn'
                body.append(dict(k='val', fr=n, by=by, raw=raw, d=dd))
                # a validator decorated for an inherited field copies it into this class
                if n not in ownf: ownf[n] = dict(allf[n])
        hooks = {'pre': ['inherit'], 'post': ['inherit']}
        keys = [f['lk'] or n for n, f in allf.items() if f['kind'] != 'object']
        if self.chance('hook'):
            q = r.random()
            if q < .25 and len(keys) > 1: hooks['pre'] = ['ren', 'zz' + str(r.randint(0, 1)), r.choice(keys)]
            elif q < .4 and keys: hooks['pre'] = ['drop', r.choice(keys + ['zz0'])]
            elif q < .65 and keys: hooks['pre'] = ['add', r.choice(keys + ['zz0']), self.somevalue_c()]
            elif q < .72: hooks['pre'] = ['boom', self.boom(r.choice(BOOMS))]
            elif q < .78: hooks['pre'] = ['nonmap']
            elif q < .9: hooks['pre'] = ['ok']
            else: hooks['pre'] = ['none']
        if self.chance('hook'):
            q = r.random()
            settable = [n for n, f in allf.items() if f['kind'] == 'probe']
            if q < .35 and settable: hooks['post'] = ['set', r.choice(settable), r.choice([self.somevalue_c(), NONE])]
            elif q < .8: hooks['post'] = ['ok']
            elif q < .9: hooks['post'] = ['boom', self.boom(r.choice(BOOMS))]
            else: hooks['post'] = ['none']
        slots = self.chance('slots') and not any(self.cl[b]['slots'] for b in mro)
        self.cl[cid] = dict(own=ownf, flds={**inh, **ownf}, mro=[cid] + mro, cfg=eff, slots=slots)
        return dict(op='def', id=cid, needc=need, need=[],
                    d=dict(rep=r.random() < .1, bases=bases, body=body, cfg=dict(own=own, c=cfg), hooks=hooks, slots=slots, noise=self.noise()))

    # ---- values
    def somevalue_c(self):
        r = self.r
        return ['c', r.randrange(4), self.u()] if self.chance('unique') else ['c', r.randrange(4)]
    def value(self, f, depth=0, before=None):
        """A raw value for field f; before: instances that may be referred to."""
        r = self.r
        if self.chance('none'): return NONE
        k = f['kind']
        if k in ('probe', 'any'):
            q = r.random()
            return self.somevalue_c() if q < .82 else ['x', r.choice(['XAny', 'XMis']), r.choice(['q', ''])] if q < .88 else self.tg.anyval(1)
        if self.chance('badval') and r.random() < .5: return self.coe(self.tg.anyval(1) if k != 'object' else self.tg.scalar())
        if k in ('prim', 'object') and r.random() < .02: return self.coe(['x', r.choice(['XAny', 'XMis']), r.choice(['q', 'yes'])])
        if k == 'prim': return self.coe(self.tg.scalar() if r.random() < .5 else self.primval(f))
        if k in ('struct', 'typed'):
            return self.tg.val(f['tp'], 0, r.choice([0, .05, .2]))
        if k == 'object':
            q = r.random()
            if q < .25 and self.inst:
                ok = [i for i in (before if before is not None else self.inst) if f['cls'] in self.cl[self.inst[i]]['mro']]
                pool = ok if ok and r.random() < .85 else [i for i in (before if before is not None else self.inst)]
                if pool:
                    i = r.choice(pool)
                    self.refs.append(i)
                    return ['obj', i]
            if q < .9 or depth > 3:
                return ['map', self.data(f['cls'], depth + 1, before)] + ([r.choice(list(V.MAPTYPES))] if self.chance('mt') else [])
            return self.coe(self.tg.scalar())
    def primval(self, f):
        t = {'String': 'str', 'Integer': 'int', 'Float': 'float', 'Boolean': 'bool'}[f['pt']]
        return copy.deepcopy(self.r.choice([s for s in SCALARS if s[0] == t]))
    def coe(self, v):
        self.seen.append(v)
        return v
    def data(self, c, depth=0, before=None, upd=False):
        r = self.r
        out = []
        for n, f in self.cl[c]['flds'].items():
            p = self.p['missing'] if f['req'] and f['dflt'][0] == 'missing' else .45
            if upd: p = .5
            if r.random() < p: continue
            out.append([f['lk'] or n, self.value(f, depth, before)])
        if self.chance('unknown'):
            used = {f['lk'] or n for n, f in self.cl[c]['flds'].items()}
            names = [f['dk'] or n for n, f in self.cl[c]['flds'].items()] + list(self.cl[c]['flds'])
            for k in r.sample(['zz0', 'zz1', '_x', 'a', 'b', 'k1', 'k2', '1', '‹1›', '‹1›', r.choice(['‹None›', "‹b'a'›", '‹(1, 2)›', '‹2.5›', '‹0›'])] + names, 2)[:r.randint(1, 2)]:
                if k not in used and k not in [a for a, _ in out]: out.append([k, self.somevalue_c()])
        r.shuffle(out)
        return out

    # ---- operations
    def op(self):
        r = self.r
        k = self.pick(self.p['ops'])
        self.refs = []
        if k == 'cfg':
            q = r.random()
            d = dict(op='cfg', need=[], needc=[])
            if q < .35: d.update(k='ecls', v=r.choice(['E0', 'E1', 'E2', 'E3']))
            elif q < .6: d.update(k='replace', v=r.choice(['E0', 'E1', 'E2', 'E3']), warn=r.random() < .5)
            elif q < .8: d.update(k='warn', v=r.random() < .5)
            else: d.update(k='bad', v=r.choice(['int', 'exc', 'fe', 'ob', 'warn']), ctor=r.random() < .4)
            return self.ops.append(d)
        if k in ('addv', 'remv', 'clrv', 'walk', 'info', 'odd'):
            c = r.choice(list(self.cl))
            if k == 'odd': return self.ops.append(dict(op='odd', k=r.choice(['object', 'dict1', 'union0', 'union1', 'validators', 'deco', 'unbound-name', 'unbound-schema']), cls=c, need=[], needc=[c]))
            if k == 'info': return self.ops.append(dict(op='info', cls=c, need=[], needc=[c]))
            if not self.cl[c]['flds']: return
            f = r.choice(list(self.cl[c]['flds']))
            d = dict(op=k, cls=c, f=f, need=[], needc=[c])
            if k == 'addv':
                raw = r.random() < .4
                d.update(d=self.vdesc(raw=raw), raw=raw)
                if d['d']['k'] != 'fn' and r.random() < .4: d['raw'] = not raw
                if self.reg and r.random() < .25: d['d'] = r.choice(self.reg)
                if r.random() < .04: d['d'] = dict(self.vdesc(raw=raw), k='bad')
                else: self.reg.append(d['d'])
            elif k == 'remv':
                fl = self.cl[c]['flds'][f]
                pool = [(v, False) for v in fl['vals']] + [(v, True) for v in fl['raws']]
                if r.random() < .6 and pool: v, raw = r.choice(pool)
                elif self.reg: v, raw = r.choice(self.reg), r.random() < .4
                else: return
                if r.random() < .04: v = dict(v, k='bad')
                d.update(d=v, raw=raw)
            else: d['raw'] = r.choice(['m', 'T', 'F'])
            return self.ops.append(d)
        if k == 'new' or not self.inst:
            c = r.choice(list(self.cl))
            i = f'i{self.ninst}'
            self.ninst += 1
            d = dict(op='new', id=i, cls=c, data=self.data(c), ie='m' if not self.chance('ie') else r.choice(['T', 'F']),
                     st=NONE if not self.chance('st') else self.state(), mt=r.choice(list(V.MAPTYPES)) if self.chance('mt') else 'dict',
                     need=sorted(set(self.refs)), needc=[c])
            self.inst[i] = c
            self.order.append(i)
            if d['st'][0] == 'list': self.states.append(i)
            return self.ops.append(d)
        i = r.choice(list(self.inst))
        c = self.inst[i]
        flds = self.cl[c]['flds']
        before = self.order[:self.order.index(i)]
        if k == 'upd':
            data = self.data(c, 0, before, upd=True)
            return self.ops.append(dict(op='upd', id=f'u{self.u()}', i=i, data=data, ie='m' if not self.chance('ie') else r.choice(['T', 'F']),
                                        mt=r.choice(list(V.MAPTYPES)) if self.chance('mt') else 'dict', need=[i] + sorted(set(self.refs)), needc=[]))
        if k == 'set':
            if not flds: return
            f = r.choice(list(flds))
            v = self.value(flds[f], 0, before)
            return self.ops.append(dict(op='set', id=f's{self.u()}', i=i, f=f, v=v, need=[i] + sorted(set(self.refs)), needc=[]))
        if k == 'get':
            if not flds: return
            n = r.choice(list(flds))
            attr = r.random() < .4
            if not attr and r.random() < .5: n = r.choice([flds[n]['lk'] or n, 'zz0', flds[n]['dk'] or n])
            d = [] if attr or r.random() < .6 else r.choice([self.somevalue_c(), NONE])
            return self.ops.append(dict(op='get', i=i, n=n, attr=attr, d=d, need=[i], needc=[]))
        if k == 'dump':
            inc = exc = ['m', []]
            pool = list(flds) + ['zz0', 'k1'] + [f['lk'] or n for n, f in flds.items()]
            q = r.random()
            pickn = lambda: [r.choice('lltsf'), self.uniqs(r.sample(pool, r.randint(0, min(4, len(pool)))))]
            if q < .3: inc = pickn()
            elif q < .55: exc = pickn()
            elif q < .6: inc, exc = pickn(), pickn()
            return self.ops.append(dict(op='dump', i=i, inc=inc, exc=exc, need=[i], needc=[]))
        if k == 'copy':
            n = f'c{self.u()}'
            self.inst[n] = c
            self.order.insert(self.order.index(i) + 1, n)
            if i in self.states: self.states.append(n)
            return self.ops.append(dict(op='copy', id=n, i=i, need=[i], needc=[]))
        if k == 'state':
            if not self.states: return
            i = r.choice(self.states)
            return self.ops.append(dict(op='state', i=i, v=['str', 'p' + str(self.u())], need=[i], needc=[]))
        if k == 'rt':
            if not self.p['samekeys']: return
            n = f'r{self.u()}'
            self.inst[n] = c
            self.order.insert(self.order.index(i) + 1, n)
            return self.ops.append(dict(op='rt', id=n, i=i, need=[i], needc=[]))
        if k == 'repr':
            return self.ops.append(dict(op='repr', i=i, need=[i], needc=[]))
        if k == 'setx':
            return self.ops.append(dict(op='setx', i=i, need=[i], needc=[]))
    def state(self):
        r = self.r
        if r.random() < .25: return r.choice([['dict', []], ['dict', []], ['int', '0'], ['str', ''], ['dict', [[['str', 'k'], ['str', 'st' + str(self.u())]]]], ['sub', 'SubDict', ['dict', []]]])
        return ['list', [['str', 'st' + str(self.u())]] if r.random() < .7 else []]
    def uniqs(self, xs): return list(dict.fromkeys(xs))

    def scenario(self, sid):
        r = self.r
        self.cl, self.inst, self.order, self.states, self.ops, self.seen, self.reg, self.refs = {}, {}, [], [], [], [], [], []
        self.failed = self.ninst = 0
        self.td = {}
        self.tg = TypeGen(r, self.td, self.p['unsup'])
        for _ in range(r.randint(*self.p['classes'])): self.define()
        if not self.cl: return self.scenario(sid)
        target = len(self.ops) + r.randint(*self.p['nops'])
        tries = 0
        while len(self.ops) < target and tries < 300:
            tries += 1
            if r.random() < .04 and len(self.cl) < 6: self.define()
            else: self.op()
        env = environment(self.ops, self.td)
        if self.chance('midcfg'): env['cfg'] = midcfg(r, self.ops)
        return dict(id=sid, env=env, flds={c: sorted(k['flds']) for c, k in self.cl.items()}, ops=self.ops)

def midcfg(r, ops):
    """User code that changes the configuration: some validators, or all scripted fields."""
    v = r.choice(['E1', 'E2', 'E3'])
    vals, probes = {}, []
    def f(x):
        if isinstance(x, dict):
            if 'tbl' in x and 'id' in x: vals.setdefault(x['id'], []).append(x)
            elif x.get('kind') == 'probe' and 'load' in x: probes.append(x)
            for y in x.values(): f(y)
        elif isinstance(x, list):
            for y in x: f(y)
    f(ops)
    ids = [i for i in vals if r.random() < .5]
    for i in ids:
        for x in vals[i]: x['noise'] = 'cfg:' + v
    fl = r.random() < .4
    if fl:
        for x in probes: x['noise'] = 'cfg:' + v
    return dict(ids=ids, fields=fl, v=v)

def scalars_in(x, out):
    if isinstance(x, dict):
        for v in x.values(): scalars_in(v, out)
    elif isinstance(x, list):
        if x and isinstance(x[0], str) and x[0] in ('x', 'sub', 'int', 'str', 'float', 'bool', 'bytes', 'list', 'tuple', 'set', 'dict', 'mp', 'c', 'map', 'none') and (x[0] != 'c' or isinstance(x[1], int)):
            out[repr(x)] = x
        for v in x: scalars_in(v, out)

def environment(ops, td):
    """What the specification has to know of the world outside of oblate."""
    prims = {}
    for o in ops:
        if o['op'] == 'def':
            for e in o['d']['body']:
                if e['k'] == 'field' and e['f']['kind'] == 'prim': prims[e['f']['pt']] = 1
    seen = {}
    if prims:
        for o in ops:
            if o['op'] in ('new', 'upd', 'set'): scalars_in(o.get('data', o.get('v')), seen)
            elif o['op'] == 'def': scalars_in([o['d']['hooks'], [e['f']['dflt'][1] for e in o['d']['body'] if e['k'] == 'field' and e['f']['dflt'][0] == 'val']], seen)
    co = {}
    for pt in ('String', 'Integer', 'Float'):
        co[pt] = []
        if pt in prims or pt == 'String' and 'Boolean' in prims:
            for v in seen.values():
                try: V.Realizer().real(v)
                except Exception: continue
                co[pt].append([v, coercion2(pt, v)])
    return dict(anc=V.ANC, td=td, co=co)

def coercion2(pt, v):
    try: return ['ok', V.encode({'String': str, 'Integer': int, 'Float': float}[pt](V.Realizer().real(v)))]
    except Exception: return ['err']
