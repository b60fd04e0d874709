"""Engine: every behaviour of small menus of operations (MCMenu.tla), replayed on the real code.

A menu is a sequence of stages, a stage a list of alternatives, an alternative a list of
operations.  TLC explores every sequence of alternatives, one of each stage."""
import json, itertools as it, multiprocessing as mp, os, tempfile, traceback
from collections import Counter
from . import gen, tlc, compare, script, values as V

NONE = ['none']
OK4 = ['ok'] * 4

def fld(nm, kind='probe', **k):
    f = dict(nm=nm, lk='', dk='', req=True, none=False, frozen=False, dflt=['missing'], kind=kind, load=list(OK4), dump=list(OK4),
             cls='', ie='m', ist=NONE, fmt={}, fl=False, tp=['any'], tcode='', pt='', strict=True, tv=[], fv=[], customtf=False, bare=False,
             vals=[], raws=[], id='f_' + nm, noise='', fmtsuper=False)
    f.update(k)
    return f
def val(vid, tbl=OK4, k='fn', **m):
    return dict(id=vid, k=k, tbl=list(tbl), peek='', noise='', **m)
def entry(f): return dict(k='field', nm=f['nm'], f=f)
DCFG = dict(frozen=False, ie=False, slotted=True, repr=True)
def define(cid, body, bases=(), cfg=None, pre=('inherit',), post=('inherit',), need=()):
    return dict(op='def', id=cid, needc=[*bases, *need], need=[],
                d=dict(bases=list(bases), body=[entry(x) if 'k' not in x or x.get('nm') and 'kind' in x else x for x in body],
                       cfg=dict(own=cfg is not None, c={**DCFG, **(cfg or {})}), hooks=dict(pre=list(pre), post=list(post)), slots=False, noise=''))
def new(i, cls, data, ie='m', st=NONE, need=()):
    return dict(op='new', id=i, cls=cls, data=data, ie=ie, st=st, mt='dict', need=list(need), needc=[cls])
def upd(uid, i, data, ie='m', need=()):
    return dict(op='upd', id=uid, i=i, data=data, ie=ie, mt='dict', need=[i, *need], needc=[])
def set_(uid, i, f, v, need=()):
    return dict(op='set', id=uid, i=i, f=f, v=v, need=[i, *need], needc=[])
def get(i, n, attr=False, d=()): return dict(op='get', i=i, n=n, attr=attr, d=list(d), need=[i], needc=[])
def dump(i, inc=None, exc=None):
    m = ['m', []]
    return dict(op='dump', i=i, inc=['l', list(inc)] if inc is not None else m, exc=['l', list(exc)] if exc is not None else m, need=[i], needc=[])
def copy(cid, i): return dict(op='copy', id=cid, i=i, need=[i], needc=[])
def info(c): return dict(op='info', cls=c, need=[], needc=[c])
def reg(k, c, f, **m): return dict(op=k, cls=c, f=f, need=[], needc=[c], **m)
def state(i, v): return dict(op='state', i=i, v=['str', v], need=[i], needc=[])
def repr_(i): return dict(op='repr', i=i, need=[i], needc=[])
def rt(rid, i): return dict(op='rt', id=rid, i=i, need=[i], needc=[])
def setx(i): return dict(op='setx', i=i, need=[i], needc=[])
def cfg(k, v, warn=True, ctor=False): return dict(op='cfg', k=k, v=v, warn=warn, ctor=ctor, need=[], needc=[])

def C(n, u): return ['c', n, u]
def prod(*xs): return it.product(*xs)
B = (False, True)
TF = ('m', 'T', 'F')

# --------------------------------------------------------------------------
# Menus.  Each yields (stages, td)
def life(deep):
    """The life of one field: all its options, every outcome of every step."""
    defs = []
    for none, d, frozen, rawtbl, cfrozen in prod(B, ('req', 'opt', 'val', 'call', 'none'), B, (['ok', 'ok', 'ok', 'F'], ['A', 'ok', 'ok', 'F']), B):
        f = fld('a', lk='A', none=none, frozen=frozen, req=d != 'opt', dflt={'req': ['missing'], 'opt': ['missing'], 'val': ['val', C(3, 90)],
                'call': ['call', 'ok'], 'none': ['val', NONE]}[d], load=['ok', 'V', 'ok', 'ok'], vals=[val('v', ['ok', 'ok', 'V0', 'ok'])], raws=[val('r', rawtbl)], fl=True)
        defs.append([define('K', [f], cfg=dict(frozen=cfrozen))])
    vs = lambda s: [NONE, C(0, s), C(1, s + 1), C(2, s + 2), C(3, s + 3)]
    def writes(n):
        out = []
        for j, v in enumerate(vs(10 * n)):
            out += [[upd(f'u{n}{j}', 'i', [['A', v]])], [set_(f's{n}{j}', 'i', 'a', v)]]
        return out + [[upd(f'u{n}e', 'i', [])], [upd(f'u{n}x', 'i', [['zz', C(0, 1)]])], [upd(f'u{n}y', 'i', [['A', C(0, 10 * n + 5)], ['zz', C(0, 1)]])],
                      [upd(f'u{n}z', 'i', [['a', C(0, 1)]], 'T')]]
    news = [[new('i', 'K', [])]] + [[new('i', 'K', [['A', v]])] for v in vs(0)] + [[new('i', 'K', [['A', C(0, 5)], ['zz', C(0, 6)]])], [new('i', 'K', [['zz', C(0, 6)]], 'T')]]
    tail = [[get('i', 'a'), get('i', 'A'), get('i', 'a', True), dump('i'), copy('c', 'i'), repr_('i')]]
    yield [defs, news, writes(1)] + ([writes(2)] if deep else []) + ([writes(3)] if deep > 1 else []) + [tail], {}

def pair(deep):
    """Two fields given together, in both orders, with every combination of outcomes: all or nothing."""
    tb = dict(load=['ok', 'V', 'ok', 'ok'], raws=[val('r', ['ok', 'ok', 'ok', 'A'])])
    def f(n, **k): return fld(n, none=True, load=['ok', 'FL', 'ok', 'ok'], vals=[val('v' + n, ['ok', 'ok', 'V', 'ok'])], raws=[val('r' + n, ['ok', 'ok', 'ok', 'FS'])], **k)
    defs = [[define('K', [f('a', req=ra), f('b', frozen=fb), f('c', req=False)])] for ra, fb in prod(B, B)]
    defs += [[define('K', [f('a'), fld('b', none=True, load=['ok', 'B', 'ok', 'BKI'], vals=[val('vb', ['ok', 'ok', 'B', 'ok'])]), f('c', req=False)])]]
    vs = lambda n, s: [None, NONE] + [C(j, 10 * s + j) for j in range(4)]
    def datas(n):
        for a, b, rev, x in prod(vs('a', 2 * n), vs('b', 2 * n + 1), B, ('', 'zz')):
            d = [[k, v] for k, v in (('a', a), ('b', b)) if v is not None]
            if rev and len(d) < 2: continue
            if x and (rev or not deep and a is not None and a[0] != 'c'): continue
            d = d[::-1] if rev else d
            yield d + ([['zz', C(0, 1)]] if x else [])
    news = [[new('i', 'K', d)] for d in datas(0)]
    ups = [[upd(f'u{j}', 'i', d)] for j, d in enumerate(datas(1))]
    good = [[new('i', 'K', [['a', C(0, 1)], ['b', C(0, 2)]])], [new('i', 'K', [['a', C(0, 1)], ['b', NONE], ['c', C(0, 3)]])]]
    tail = [[dump('i'), get('i', 'a'), get('i', 'b', True)]]
    yield [defs, news, tail], {}
    yield [defs, good, ups, tail], {}
    if deep: yield [defs[:2] + defs[4:], good[:1], ups, [[upd('w' + u[0]['id'], 'i', u[0]['data'])] for u in ups]], {}

def extra(deep):
    """Which keys are unknown, and who ignores them: class configuration, parameter and object field, at each level."""
    for oi, ii in prod(B, B):
        defs = []
        for fie, anc in prod(TF, B if deep else (False,)):
            inner = [define('P', [fld('p', req=False)], cfg=dict(ie=ii))]
            if anc: inner += [define('Q', [fld('q', req=False)], bases=['P'])]
            ic = 'Q' if anc else 'P'
            defs.append(inner + [define('O', [fld('o', 'object', cls=ic, ie=fie, none=True, req=False), fld('b', lk='B', req=False)], cfg=dict(ie=oi), need=[ic])])
        outs = [[], [['x', C(0, 1)]], [['b', C(0, 2)]], [['o2', ['map', [['p', C(0, 9)]]]]]]
        ins = [None, [], [['p', C(0, 3)]], [['zz', C(0, 4)]], [['b', C(0, 5)], ['p', C(0, 6)]]]
        def data(o, i, rev): 
            d = o + ([['o', ['map', i]]] if i is not None else [])
            return d[::-1] if rev else d
        news, ups = [], []
        for k, (o, i, ie, rev) in enumerate(prod(outs, ins, TF, B)):
            if rev and not (o and i is not None): continue
            news.append([new('i', 'O', data(o, i, rev), ie)])
            ups.append([upd(f'u{k}', 'i', data(o, i, rev), ie)])
        sets = [[set_(f's{k}', 'i', 'o', ['map', i])] for k, i in enumerate(ins) if i is not None]
        yield [defs, news], {}
        yield [defs, [[new('i', 'O', [])], [new('i', 'O', [['o', ['map', []]]])]], ups + sets], {}

def hier(deep):
    """Small hierarchies: every way in which the classes derive from each other and define their fields and hooks."""
    def body(c, k):
        return {'': [], 'a': [fld('a', id='fa' + c)], 'ak': [fld('a', lk='k' + c, req=False, id='fa' + c)], 'b': [fld('b', lk='kb', dflt=['val', C(0, 1)], id='fb' + c)],
                'va': [dict(k='val', fr='a', by='name', raw=False, d=val('v' + c))], 'ra': [dict(k='val', fr='a', by='name', raw=True, d=val('w' + c))],
                'sw': [fld('b', lk='a', id='fs' + c), fld('a', lk='b', id='ft' + c)]}[k]
    kinds = ('', 'a', 'ak', 'va', 'b') if not deep else ('', 'a', 'ak', 'va', 'ra', 'b', 'sw')
    def stage(c, earlier, kinds):
        out = []
        for n in range(min(2, len(earlier)) + 1):
            for bs in it.permutations(earlier, n):
                for k in kinds:
                    if k in ('va', 'ra') and not bs: continue
                    out.append((bs, k))
        return out
    kin = {}
    def fieldsof(c): return kin[c]
    s0 = [((), k) for k in (('a', 'ak', 'b') if not deep else ('a', 'ak', 'b', 'sw', ''))]
    names = ['C0', 'C1', 'C2'] + (['C3'] if deep else [])
    def expand(j, hist):
        """hierarchies that Python accepts and whose keys do not clash"""
        if j == len(names):
            yield list(hist); return
        c = names[j]
        opts = s0 if j == 0 else stage(c, names[:j], kinds if j < 3 else ('', 'va', 'ak'))
        for bs, k in opts:
            mro = linear(c, bs, {n: h[3] for n, h in zip(names, hist)})
            if mro is None: continue
            f = {}
            for b in reversed(mro[1:]):
                f.update(own(b, dict((n, h) for n, h in zip(names, hist))))
            if k in ('va', 'ra') and 'a' not in f: continue
            mine = {x['nm']: x['lk'] or x['nm'] for x in body(c, k) if 'kind' in x}
            if k in ('va', 'ra'): mine = {'a': f['a']}
            allf = {**f, **mine}
            if len(set(allf.values())) < len(allf): continue
            yield from expand(j + 1, hist + [(bs, k, mine, mro)])
    def own(b, h): return h[b][2]
    hs = list(expand(0, []))
    if deep == 1: hs = hs[::max(1, len(hs) // 3000)]
    defs = []
    for h in hs:
        ops = [define(c, body(c, k), bases=bs) for c, (bs, k, _, _) in zip(names, h)]
        for c, (bs, k, mine, mro) in zip(names, h):
            f = {}
            for b in reversed(mro): f.update({n: x for n, x in h[names.index(b)][2].items()})
            ops += [info(c)] + [reg('walk', c, n, raw='m') for n in f]
            ops += [new('i' + c, c, [[x, C(0, 1)] for x in f.values()]), dump('i' + c)]
        defs.append(ops)
    yield [defs], {}

def linear(c, bs, mros):
    seqs = [list(mros[b]) for b in bs] + [list(bs)]
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs: return out
        for s in seqs:
            if not any(s[0] in t[1:] for t in seqs): h = s[0]; break
        else: return None
        out.append(h)
        seqs = [s[1:] if s[0] == h else s for s in seqs]

def registry(deep):
    """The validators of a field, of a copy of it and of the inherited field."""
    v, w, x = val('v'), val('w', k='cls'), val('x', k='clsraw')
    defs = [[define('K', [fld('a', vals=vs, raws=rs)]),
             define('L', [dict(k='copy', nm='b', fr='a', **{'from': 'K'})], need=['K']),
             define('M', [fld('c')], bases=['K'])] for vs, rs in [([], []), ([val('p')], [val('q')])]]
    def menu(full):
        out = []
        for c, f in (('K', 'a'), ('L', 'b'), ('M', 'a')) if full else (('K', 'a'),):
            for d in (v, w, x) if full else (v, x):
                for raw in B if d is v else (False,):
                    out += [[reg('addv', c, f, d=d, raw=raw)], [reg('remv', c, f, d=d, raw=raw)]]
            out += [[reg('clrv', c, f, raw=r)] for r in (TF if c == 'K' else ('m',))]
        return out
    walks = [reg('walk', c, f, raw=r) for c, f in (('K', 'a'), ('L', 'b'), ('M', 'a')) for r in TF]
    use = [new('i', 'K', [['a', C(0, 1)]]), new('j', 'L', [['b', C(0, 2)]]), set_('s', 'i', 'a', C(0, 3)), upd('u', 'j', [['b', C(0, 4)]])]
    full = menu(True)
    yield [defs, full, full] + ([full] if deep > 1 else []) + [[walks + use]], {}
    small = menu(False)
    yield [defs, small, small, small] + [small] * min(deep, 2) + [[walks + use]], {}

def dumps(deep):
    """dump: every choice of fields that are set and of names that are included or excluded."""
    fs = [fld('a', lk='k1', dk='b', req=False), fld('b', dk='D', req=False), fld('c', lk='c2', req=False, none=True)]
    toks = ['a', 'b', 'c', 'k1', 'D']
    subs = [list(s) for n in range(len(toks) + 1) for s in it.combinations(toks, n)]
    if not deep: subs = [s for s in subs if len(s) <= 3]
    news = [[new('i', 'K', [[k, v] for k, v, on in (('k1', C(0, 1), x), ('b', C(1, 2), y), ('c2', NONE, z)) if on])] for x, y, z in prod(B, B, B)]
    sel = [[dump('i')]] + [[dump('i', inc=s)] for s in subs] + [[dump('i', exc=s)] for s in subs] + [[dump('i', inc=s, exc=t)] for s in subs[:4] for t in subs[:4]]
    yield [[[define('K', fs)]], news, sel], {}
    # which failures are told
    outs = ['ok', 'V', 'V0', 'FL', 'FD', 'B']
    defs = [[define('K', [fld('a', lk='k1', dump=[o1] * 4), fld('b', dump=[o2] * 4, dk='x'), fld('c', dump=[o3] * 4, req=False)])] for o1, o2, o3 in prod(outs, outs, outs[:4])]
    yield [defs, [[new('i', 'K', [['k1', C(0, 1)], ['b', C(1, 2)], ['c', C(2, 3)]])]], [[dump('i')], [dump('i', inc=['a'])], [dump('i', exc=['a'])], [dump('i', inc=['b', 'c'])]]], {}
    # nested
    for o1 in ('ok', 'V', 'B'):
        for o2 in ('ok', 'A0', 'B'):
            inner = define('P', [fld('p', lk='pp', dk='dp', dump=[o1] * 4), fld('q', req=False, none=True)])
            mid = define('Q', [fld('n', 'object', cls='P', none=True, dk='dn'), fld('r', dump=[o2] * 4, req=False)], need=['P'])
            out = define('O', [fld('o', 'object', cls='Q', none=True), fld('s', req=False)], need=['Q'])
            pv = [NONE, ['map', [['pp', C(0, 1)]]], ['map', [['pp', C(0, 1)], ['q', NONE]]]]
            qv = [NONE] + [['map', [['n', p]] + r] for p in pv for r in ([], [['r', C(0, 2)]])]
            yield [[[inner, mid, out]], [[new('i', 'O', [['o', q]] + s)] for q in qv for s in ([], [['s', C(0, 3)]])], [[dump('i')], [dump('i', inc=['o'])], [dump('i', inc=['s'])]]], {}

def alias(deep):
    """Instances and their copies: what is done to one does not show in another."""
    def defs():
        inner = define('P', [fld('p', none=True), fld('q', req=False)])
        return [[inner, define('O', [fld('o', 'object', cls='P', none=True), fld('a', req=False)], need=['P'], cfg=dict(frozen=fr))] for fr in B]
    news = [[new('i', 'O', [['o', ['map', [['p', C(0, 1)]]]]], st=st)] for st in (NONE, ['list', []])]
    def writes(n, who):
        out = []
        for i in who:
            out += [[upd(f'u{n}{i}', i, [['a', C(0, 10 * n)], ['o', ['map', [['p', C(0, 10 * n + 1)]]]]])], [set_(f's{n}{i}', i, 'o', NONE)], [set_(f't{n}{i}', i, 'a', C(1, 10 * n + 2))],
                    [state(i, f'x{n}')], [upd(f'v{n}{i}', i, [['o', ['obj', 'i']]])], [set_(f'n{n}{i}', i, 'o', ['map', [['p', C(0, 10 * n + 3)], ['q', C(0, 1)]]])]]
        return out
    for st in (False, True):
        def keep(ops): return [o for o in ops if st or o[0]['op'] != 'state']
        yield [defs(), [news[st]], [[copy('c', 'i')]] + keep(writes(1, ['i'])), [[copy('d', 'i')], [copy('c', 'i')]] + keep(writes(2, ['i', 'c'])), keep(writes(3, ['i', 'c', 'd'])) + [[copy('e', 'c')]]] \
              + ([keep(writes(4, ['c', 'i']))] if deep else []) + ([keep(writes(5, ['d', 'i']))] if deep > 1 else []), {}

def lookup(deep):
    """Names and load keys, when they overlap, with the fields set or not."""
    opts = [dict(lk=lk, req=False, none=True) for lk in ('', 'b', 'x')]
    defs = [[define('K', [fld('a', **o1), fld('b', **{**o2, 'lk': o2['lk'].replace('b', 'a')}), fld('c', req=False, lk=l3)])]
            for o1, o2, l3 in prod(opts, opts, ('', 'x', 'a')) if len({o1['lk'] or 'a', o2['lk'].replace('b', 'a') or 'b', l3 or 'c'}) == 3]
    for df in defs:
        ks = {f['f']['nm']: f['f']['lk'] or f['f']['nm'] for f in df[0]['d']['body']}
        news = [[new('i', 'K', [[ks[n], v] for n, v in zip('abc', vs) if v])] for vs in prod(*[(None, C(0, j)) if j else (None, C(0, j), NONE) for j in range(3)])]
        reads = [get('i', n, d=d) for n in ('a', 'b', 'c', 'x', 'zz') for d in ([], NONE, C(1, 9))] + [get('i', n, True) for n in 'abc']
        yield [[df], news, [reads, [set_('s', 'i', 'a', C(0, 7))] + reads, [upd('u', 'i', [[ks['b'], C(0, 8)]])] + reads]], {}

def config(deep):
    """The global configuration: every sequence of changes, each followed by a failing operation of every kind."""
    d = [[define('P', [fld('p', load=['ok', 'V', 'ok', 'ok'])]), define('O', [fld('o', 'object', cls='P', req=False), fld('a', load=['ok', 'V', 'ok', 'ok'], dump=['ok', 'ok', 'V', 'ok'], req=False)], need=['P']),
          new('i', 'O', [['o', ['map', [['p', C(0, 1)]]]], ['a', C(2, 2)]])]]
    ch = [[cfg('ecls', e)] for e in ('E0', 'E1', 'E2')] + [[cfg('replace', e, w)] for e in ('E0', 'E2') for w in B] + [[cfg('warn', w)] for w in B] + \
         [[cfg('bad', b, ctor=c)] for b in (('int', 'ob', 'warn') if not deep else ('int', 'exc', 'fe', 'ob', 'warn')) for c in B]
    fails = [[new('j', 'O', [['o', ['map', [['p', C(1, 1)]]]]]), upd('u', 'i', [['a', C(1, 3)]]), set_('s', 'i', 'a', C(1, 4)), dump('i'), new('k', 'O', [['zz', C(0, 1)]])]]
    yield [d, ch, ch] + [ch] * min(deep, 2) + [fails], {}

def hooks(deep):
    """Hooks: what each does, where it is inherited from, with every outcome of the data."""
    pres = [['inherit'], ['none'], ['ok'], ['ren', 'z', 'a'], ['drop', 'z'], ['drop', 'a'], ['add', 'b', C(0, 50)], ['add', 'b', C(1, 51)], ['add', 'z', C(0, 52)], ['nonmap'], ['boom', 'B']]
    posts = [['inherit'], ['none'], ['ok'], ['set', 'b', C(0, 60)], ['set', 'b', C(1, 61)], ['boom', 'BK']]
    data = [[], [['a', C(0, 1)]], [['z', C(0, 2)]], [['a', C(0, 3)], ['z', C(0, 4)]], [['a', C(1, 5)]], [['a', C(0, 6)], ['b', C(0, 7)]]]
    def fs(): return [fld('a', vals=[val('va', peek_ := OK4)]), fld('b', req=False, load=['ok', 'V', 'ok', 'ok'])]
    defs = []
    for p, q in prod(pres[2:], posts[2:]): defs.append([define('B', fs(), pre=p, post=q), define('K', [], bases=['B'])])
    for p, q in prod(pres, posts): defs.append([define('B', fs(), pre=['drop', 'z'], post=['ok']), define('K', [], bases=['B'], pre=p, post=q)])
    if deep:
        for p, q, p2 in prod(pres, posts, pres[3:7]):
            defs.append([define('A', [], pre=p2), define('B', fs(), pre=['drop', 'z'], post=['ok']), define('K', [], bases=['A', 'B'], pre=p, post=q)])
    yield [defs, [[new('i', 'K', d, ie)] for d in data for ie in ('m', 'T')], [[dump('i'), upd('u', 'i', [['a', C(0, 9)], ['z', C(0, 1)]]), set_('s', 'i', 'b', C(0, 8))]]], {}
    inner = [[define('P', fs(), pre=p, post=q), define('O', [fld('o', 'object', cls='P'), fld('x', req=False)], need=['P'])] for p, q in prod(pres[1:], posts[1:])]
    yield [inner, [[new('i', 'O', [['o', ['map', d]]])] for d in data], [[upd('u', 'i', [['o', ['map', data[5]]]])], [set_('s', 'i', 'o', ['map', data[2]])]]], {}

def prims(deep):
    """Primitive fields: every kind and mode with every value of the menu."""
    vals = gen.SCALARS + [NONE, ['list', []], ['list', [['int', '1']]], ['dict', []], ['tuple', [['str', 'a']]], ['set', []]]
    tf = dict(tv=['TRUE', 'True', 'true', 'YES', 'Yes', 'yes', '1'], fv=['FALSE', 'False', 'false', 'NO', 'No', 'no', '0'])
    for pt in ('String', 'Integer', 'Float', 'Boolean'):
        opts = [dict()] if pt != 'Boolean' else [tf, dict(customtf=True, tv=['y', '7', '1.5'], fv=['n', 'None', '[]']), dict(customtf=True, tv=['True'], fv=['True', 'a']), dict(customtf=True, tv=[], fv=['yes'])]
        defs = [[define('K', [fld('a', 'prim', pt=pt, strict=s, none=n, req=False, vals=[val('v')] if n else [], fl=True, **o)])] for s, n, o in prod(B, B, opts)]
        acts = [[new('i', 'K', [['a', v]])] for v in vals]
        acts2 = [[new('i', 'K', []), set_('s', 'i', 'a', v), dump('i')] for v in vals] + [[new('i', 'K', []), upd('u', 'i', [['a', v]])] for v in vals]
        yield [defs, acts, [[dump('i'), rt('r', 'i'), copy('c', 'i')]]], {}
        yield [defs, acts2], {}

def formats(deep):
    """format_error: each way to answer, for each code, wherever the error comes from."""
    modes = ('none', 'str', 'fe', 'fl', 'nil', 'bad', 'BA', 'BKey')
    for code, sup in prod(('field_required', 'none_disallowed', 'validation_failed'), B):
        defs = []
        for md, other in prod(modes, ('none', 'str')):
            fmt = {c: (md if c == code else other) for c in ('field_required', 'none_disallowed', 'validation_failed', 'invalid_datatype')}
            fmt = {c: x for c, x in fmt.items() if x != 'none'}
            defs.append([define('P', [fld('a', lk='A', fmt=fmt, fl=True, fmtsuper=sup, load=['ok', 'V0', 'A1', 'V'], vals=[val('v', ['A0', 'ok', 'ok', 'ok'])], raws=[val('r', ['ok', 'VE', 'ok', 'ok'])], dump=['ok', 'ok', 'ok', 'V0'])]),
                         define('O', [fld('o', 'object', cls='P', fmt=fmt, fl=True, req=False, fmtsuper=sup)], need=['P'])])
        ins = [[]] + [[['A', v]] for v in (NONE, C(0, 1), C(1, 2), C(2, 3), C(3, 4))] + [[['zz', C(0, 1)]]]
        acts = [[new('i', 'P', d)] for d in ins] + [[new('i', 'O', [['o', ['map', d]]])] for d in ins] + [[new('i', 'O', [['o', NONE]])], [new('i', 'O', [['o', ['int', '1']]])]]
        good = [new('i', 'O', [])]
        acts += [good + [set_('s', 'i', 'o', v)] for v in [['map', d] for d in ins] + [NONE, ['str', 'x']]]
        yield [defs, acts], {}
    defs = []
    for kind, md in prod(('String', 'Integer', 'Float', 'Boolean'), modes):
        fmt = {} if md == 'none' else dict(invalid_datatype=md, coercion_failed=md)
        defs += [[define('K', [fld('a', 'prim', pt=kind, strict=s, fmt=fmt, fl=True, req=False, customtf=True, tv=['yes'], fv=['no'])])] for s in B]
    for pt, tp, c in (('Dict', ['dict', ['cls', 'str'], ['cls', 'int']], 'type_validation_failed'), ('List', ['list', ['cls', 'int']], 'type_validation_failed'), ('Literal', ['lit', [['str', 'a']]], 'invalid_value'),
                      ('Union', ['union', [['cls', 'int'], ['cls', 'float']]], 'invalid_value'), ('TypeExpr', ['cls', 'int'], 'type_validation_failed')):
        for md in modes:
            fmt = {} if md == 'none' else {'invalid_datatype': md, c: md}
            defs.append([define('K', [fld('a', 'struct' if pt in ('Dict', 'List') else 'typed', pt=pt, tp=tp, tcode=c, fmt=fmt, fl=True, req=False)])])
    vals = [['str', 'a'], ['str', 'no'], ['int', '1'], ['float', '1.5'], ['list', [['str', 'a'], ['str', 'b']]], ['dict', [[['str', 'a'], ['str', 'b']]]], ['dict', [[['int', '1'], ['str', 'b']]]], ['bytes', '61'], ['x', 'XBad', 'V']]
    yield [defs, [[new('i', 'K', [['a', v]])] for v in vals] + [[new('i', 'K', []), set_('s', 'i', 'a', v)] for v in vals]], {}

def confs(deep):
    """Class configuration: inherited or not, along one or two parents."""
    opts = [None] + [dict(frozen=f, ie=i, slotted=s, repr=r) for f, i, s, r in prod(B, B, B, B)]
    defs = []
    use = [new('i', 'K', [['a', C(0, 1)], ['zz', C(0, 2)]]), new('j', 'K', [['a', C(0, 1)]]), upd('u', 'j', [['a', C(0, 3)], ['zz', C(0, 2)]]), set_('s', 'j', 'a', C(0, 4)), setx('j'), repr_('j'), upd('w', 'j', [['zz', C(0, 2)]], 'T')]
    for a, k in prod(opts, opts): defs.append([define('A', [fld('a')], cfg=a), define('K', [], bases=['A'], cfg=k)])
    if deep:
        for a, m, k in prod(opts[::3], opts[::2], opts[::4]): defs.append([define('A', [fld('a')], cfg=a), define('M', [], bases=['A'], cfg=m), define('K', [], bases=['M'], cfg=k)])
    yield [defs, [use]], {}

def types(deep):
    """Type expressions of small size with values of small size."""
    atoms = [['cls', 'int'], ['cls', 'str'], ['cls', 'NoneType', 'lit'], ['any'], ['lit', [['str', 'a'], ['int', '2']]]]
    def grow(ts, small):
        out = []
        for t in ts:
            out += [['list', t], ['seq', t], ['tupv', t]]
            out += [['dict', ['cls', 'str'], t], ['mapping', ['cls', 'str'], t], ['tup', [t]]]
        for t, u in prod(small, small):
            if t != u: out += [['union', [t, u]], ['tup', [t, u]]]
        return out + [['tup', []], ['tupany'], ['set', ['cls', 'int']], ['set', ['cls', 'str']]]
    td = {'T1': dict(bases=[], total=True, body=[['p', ['cls', 'int']], ['q', ['nreq', ['cls', 'str']]]]),
          'T2': dict(bases=['T1'], total=False, body=[['r', ['cls', 'int']], ['s', ['req', ['cls', 'str']]]])}
    one = grow(atoms, atoms) + [['td', 'T1'], ['td', 'T2']]
    sub = one[::(7, 2, 1)[deep]]
    two = grow(sub, sub[::(4, 6, 3)[deep]])
    vat = [['int', '1'], ['int', '2'], ['str', 'a'], ['str', 'b'], NONE, ['bool', 'True'], ['float', '1.5']]
    seqs = [[]] + [[a] for a in vat] + [[a, b] for a, b in prod(vat[:5], vat[:5])]
    v1 = vat + [[t, s] for t in ('list', 'tuple') for s in seqs] + [['set', s] for s in seqs if len(s) < 2 or s[0] != s[1]] + \
         [['dict', d] for d in [[]] + [[[k, a]] for k in (['str', 'p'], ['int', '1']) for a in vat] +
          [[[['str', 'p'], a], [['str', 'q'], b]] for a, b in prod(vat[:4], vat[:4])] + [[[['str', 'p'], ['int', '1']], [['str', 'r'], a], [['str', 's'], b]] for a, b in prod(vat[:3], vat[:3])] +
          [[[['str', 's'], ['str', 'b']]], [[['str', 'p'], ['int', '1']], [['str', 's'], ['str', 'b']], [['str', 'zz'], ['int', '1']]]]]
    vx = v1[:7] + v1[8:60:5] + v1[60::6]
    v2 = v1[::3] + [[t, [x]] for t in ('list', 'tuple') for x in vx] + [[t, [x, vat[0]]] for t in ('list', 'tuple') for x in vx] + [['dict', [[['str', 'p'], x]]] for x in vx]
    def ty(ts, vs, n):
        for a in range(0, len(ts), n):
            defs = [[define('K', [fld('a', 'typed', pt='TypeExpr', tp=t, tcode='type_validation_failed', req=False)])] for t in ts[a:a + n]]
            yield [defs, [[new('i', 'K', [['a', v]])] for v in vs]], td
    yield from ty(atoms + one, v1, 20)
    yield from ty(two, v2[::1 if deep else 2], 20)

MENUS = dict(life=life, pair=pair, extra=extra, hier=hier, registry=registry, dumps=dumps, alias=alias, lookup=lookup, config=config,
             hooks=hooks, prims=prims, formats=formats, confs=confs, types=types)

# --------------------------------------------------------------------------
def scenarios(names, deep):
    """Menus with at most so many alternatives of the first stage."""
    out = []
    for n in names:
        for k, (stages, td) in enumerate(MENUS[n](deep)):
            first = stages[0]
            ops = [o for s in stages for a in s for o in a]
            env = gen.environment(ops, td)
            rest = 1
            for s in stages[1:]: rest *= len(s)
            step = max(1, min(len(first), 1500 // max(1, rest)))
            for a in range(0, len(first), step):
                st = [first[a:a + step]] + stages[1:]
                # large products are cut along the second stage
                b = max(1, len(st[1]) * 1500 // (rest * step)) if len(st) > 1 and rest * step > 3000 else None
                for j, cut in enumerate([st] if b is None else [[st[0], st[1][x:x + b]] + st[2:] for x in range(0, len(st[1]), b)]):
                    out.append(dict(id=f'{n}{k}.{a}.{j}', env=env, stages=cut))
    return out

def flds(ops):
    cl, mro = {}, {}
    for o in ops:
        if o['op'] != 'def': continue
        d = o['d']
        m = linear(o['id'], d['bases'], mro)
        if m is None: continue
        mro[o['id']] = m
        mine = {e['nm'] for e in d['body'] if e['k'] in ('field', 'copy')} | {e['fr'] for e in d['body'] if e['k'] == 'val'}
        cl[o['id']] = mine.union(*[cl[b] for b in d['bases']])
    return {c: sorted(x) for c, x in cl.items()}

def spec_paths(ms, **kw):
    """{menu id: {path: [operations' steps]}}"""
    fd, p = tempfile.mkstemp(suffix='.ndjson', prefix='menu.')
    with os.fdopen(fd, 'w') as f:
        for m in ms: f.write(json.dumps(m) + '\n')
    try: r = tlc.run('MCMenu', env={'SCENARIOS': p}, **kw)
    finally: os.unlink(p)
    by = {}
    for l in r.lines: by.setdefault(l[1], {}).setdefault(tuple(l[2]), {})[l[3]] = l[4:]
    return by, r

def behaviours(m, by):
    """The maximal paths of a menu as scenarios with the specification's steps."""
    inner = {p[:-1] for p in by}
    for p in sorted(by):
        if p in inner: continue
        ops, steps = [], {}
        for k in range(len(p)):
            alt, st = m['stages'][k][p[k] - 1], by[p[:k + 1]]
            for j, op in enumerate(alt):
                if j + 1 not in st: break
                ops.append(op)
                steps[len(ops)] = st[j + 1]
        yield dict(id=f"{m['id']}/{'.'.join(map(str, p))}", env=m['env'], flds=flds(ops), ops=ops), steps

def chunk(args):
    ms, short = args
    try:
        by, r = spec_paths(ms, short=short, heap='2g' if short else '6g', timeout=3000)
        mism, hist, n, steps = [], Counter(), 0, 0
        for m in ms:
            for s, st in behaviours(m, by.get(m['id'], {})):
                n += 1
                steps += len(s['ops'])
                for j, op in enumerate(s['ops']): hist[f"{op['op']}:{st[j + 1][0]}"] += 1
                try: obs = script.real_run(s)
                except Exception:
                    mism.append((s, dict(scen=s['id'], i=-1, op='*', clause='hang', exp='runs', got=traceback.format_exc()[-1500:]))); continue
                if obs is None:
                    mism.append((s, dict(scen=s['id'], i=-1, op='*', clause='hang', exp='terminates', got='no answer'))); continue
                for x in compare.compare(s, st, obs): mism.append((s, x))
                if len(mism) > 400: break
        return dict(mism=mism, hist=hist, n=n, steps=steps, states=r.distinct, gen=r.states)
    except tlc.TlcError as e:
        return dict(error='TLC: ' + str(e))
    except Exception:
        return dict(error=traceback.format_exc())

def run(pid, p, tier, seed, names, levels=(1, 2)):
    from .engines import PROCS, report
    deep = levels[tier != 'quick']
    ms = scenarios(names, deep)
    size = max(1, min(-(-len(ms) // PROCS), 60 if deep > 1 else 10**6))
    # neighbours take about the same time: deal them out
    parts = max(1, -(-len(ms) // size))
    args = [(ms[a::parts], tier == 'quick' and deep < 2) for a in range(parts)]
    hist, tot, bad, other = Counter(), Counter(), {}, Counter()
    with mp.Pool(PROCS) as pool:
        for r in pool.imap_unordered(chunk, args):
            if 'error' in r: raise RuntimeError(r['error'])
            hist.update(r['hist'])
            for k in ('n', 'steps', 'states', 'gen'): tot[k] += r[k]
            for s, x in r['mism']:
                if p is None or p['accept'](s, x): bad.setdefault(s['id'], (s, []))[1].append(x)
                else: other[f"{x['op']}:{x['clause']}"] += 1
            if len(bad) > 2000: pool.terminate(); break
    viols = [report(script, *bad[sid], p['accept'] if p else (lambda s, m: True), False) for sid in sorted(bad, key=lambda i: (len(bad[i][0]['ops']), i))[:3]]
    return dict(states=tot['states'], transitions=tot['gen'], traces=tot['n'], samples=[], violations=viols,
                detail=dict(what='every behaviour of the menus ' + ', '.join(names) + ' (MCMenu.tla), replayed on the real code', behaviours=tot['n'], operations_compared=tot['steps'],
                            outcomes=dict(sorted(hist.items())), differences_of_other_properties=dict(other)))
