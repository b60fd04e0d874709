"""Compares what the specification says of a scenario with what the real code did.
Every difference is labelled with a clause:
  res     the outcome (success, ValidationError, other exception)
  errs    the errors of a ValidationError (key, message, state)
  prov    the provenance of the errors (schema, field, context) and of the ValidationError
  ecls    the class of the ValidationError        gcfg  what the global configuration says
  evs     the user code that was called        vorder  the order of the validators of one field
  ctx     what the contexts handed to user code say     state  per-load state of contexts
  out     the value returned                   vals    the values of the instances
  st      the state of the instances' contexts amb     the ambient context after the operation
  inputs  a given object was mutated           exc     details of FieldNotSet and FrozenError
  warn    a warning about an unsupported type expression although all are supported
"""
import json
from . import values as V

BOOMS = {'B', 'BK', 'BT', 'BA', 'BKey', 'BR', 'BL', 'BI', 'BO', 'BKI', 'BSI', 'BMem', 'BSE', 'BGE', 'BOv', 'BV', 'BAs', 'BVE'}
TV = {'type_validation_failed', 'invalid_value', 'tv'}

def norm_err(e):
    m = e['msg']
    if m[0] == 'lib' and m[1] in TV: m = ['lib', 'tv']
    if m[0] == 'nest': m = ['nest', norm_errs(m[1])]
    return {**e, 'msg': m, 'ctx': list(e['ctx'])}

def norm_errs(es):
    out = [norm_err(e) for e in es]
    res, seen = [], set()
    for e in out:
        if e['msg'] == ['lib', 'tv']:
            k = (e['key'], repr(e['sch']))
            if k in seen: continue
            seen.add(k)
        res.append(e)
    return res

def em_what(s, r):
    if s['key'] != r.get('key') or s['st'] != r.get('st'): return False
    a, b = s['msg'], r.get('msg')
    if a[0] == 'nest':
        return b and b[0] == 'nest' and match(a[1], b[1], em_what)
    return a == b

def em_full(s, r):
    if not (s['key'] == r.get('key') and s['fld'] == r.get('fld') and s['sch'] == r.get('sch')): return False
    if s['ctx'] != ['any'] and s['ctx'] != r.get('ctx'): return False
    a, b = s['msg'], r.get('msg')
    if a[0] == 'nest':
        return b and b[0] == 'nest' and match(a[1], b[1], em_full)
    return a == b

def match(ss, rs, f):
    if len(ss) != len(rs): return False
    rs = list(rs)
    for s in ss:
        for i, r in enumerate(rs):
            if f(s, r):
                del rs[i]
                break
        else: return False
    return True

def norm_ev(e):
    return [canon_any(x) for x in e]

def canon_any(x):
    if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in ('map', 'dict', 'mp', 'set', 'list', 'tuple', 'L', 'D', 'sub'):
        try: return V.canon(x)
        except Exception: return x
    return x

def weq(s, r):
    if r == '?': return isinstance(s, str)
    if isinstance(s, list) and isinstance(r, list): return len(s) == len(r) and all(map(weq, s, r))
    return s == r

def ev_match(ss, rs):
    """Multiset equality; '?' is a wildcard for the instance."""
    from collections import Counter
    cs = Counter(map(repr, ss)); left = []
    for r in rs:
        k = repr(r)
        if cs[k] > 0: cs[k] -= 1
        else: left.append(r)
    rest = []
    for s in ss:
        k = repr(s)
        if cs[k] > 0: cs[k] -= 1; rest.append(s)
    for r in left:
        for i, s in enumerate(rest):
            if weq(s, r):
                del rest[i]; break
        else: return False
    return not rest

def d(x):
    return {} if x == [] else x

def compare_step(op, s, r, rawids, frozen_fields=False):
    """s: the specification's step, r: the adaptor's.  Yields (clause, expected, got)."""
    sres, serrs, sevs, sout, sins, secls, swarn = s
    sout = sout[0]
    res = r['res']
    k = op['op']
    if sres == 'boom': okres = res in sout
    elif sres in BOOMS: okres = res in BOOMS
    else: okres = sres == res
    if k == 'upd' and sres in BOOMS | {'FrozenError'} and frozen_fields: okres = res in BOOMS | {'FrozenError'}
    if not okres: yield 'res', sres, res if not r.get('exc') else r['exc']
    if r['res'] == 'unobservable':
        yield 'res', sres, r['why']
        return
    if sres == res == 'verr':
        a, b = norm_errs(serrs), norm_errs(r['errs'])
        if not match(a, b, em_what): yield 'errs', a, b
        elif not match(a, b, em_full): yield 'prov', a, b
        tgt = op['id'] if k == 'new' else op['i']
        if r['vsch'] != tgt and k != 'rt': yield 'prov', tgt, r['vsch']
        if r['ecls'] != secls: yield 'ecls', secls, r['ecls']
    if sres == res and sres in ('ok', 'verr'):
        a, b = [norm_ev(e) for e in sevs], [norm_ev(e) for e in r['evs']]
        for e in a + b:
            if e[0] == 'dump': e[4] = sorted(e[4])
        if k == 'rt': a, b = [untag(e) for e in a], [untag(e) for e in b]
        if not ev_match(a, b):
            yield 'evs', a, b
        else:
            def seqs(es):
                o = {}
                for e in es:
                    if e[0] == 'val': o.setdefault((e[1], e[2], e[3] in rawids), []).append(e[3])
                return o
            x, y = seqs(a), seqs(b)
            for kk in x:
                if kk in y and x[kk] != y[kk] and sorted(x[kk]) == sorted(y[kk]): yield 'vorder', x[kk], y[kk]
        if sres == 'ok':
            if k == 'dump':
                a = {q: V.canon(v) for q, v in d(sout).items()}
                b = {q: V.canon(v) for q, v in r['out'].items()} if isinstance(r['out'], dict) else r['out']
                if undump(a) != undump(b): yield 'out', a, b
            elif k == 'walk':
                if r['out'] != sout['vals'] + sout['raws']: yield 'out', sout, r['out']
            elif k == 'get':
                if V.canon(sout) != V.canon(r['out']): yield 'out', sout, r['out']
            elif k == 'repr':
                if 'XBad' not in repr(sins) and (sout['kind'], sorted(sout['names'])) != (r['out']['kind'], r['out']['names']): yield 'out', sout, r['out']
            elif k == 'info':
                if d(sout) != r['out']: yield 'out', sout, r['out']
    if sres == res == 'FieldNotSet' and r.get('fns') != [*sout, op['i']]: yield 'exc', [*sout, op['i']], r.get('fns')
    if sres == res == 'FrozenError' and sout and r.get('entity') != sout: yield 'exc', sout, r.get('entity')
    sins = d(sins)
    for i, x in sins.items():
        y = r['ins'].get(i)
        if y is None:
            if '.' in i: continue        # nested and no longer referenced
            yield 'vals', x, None
            continue
        a = {n: V.canon(v) for n, v in d(x['vals']).items()}
        b = {n: V.canon(v) for n, v in y['vals'].items()}
        if a != b: yield 'vals', [i, a], [i, b]
        if V.canon(x['st']) != V.canon(y['st']): yield 'st', [i, x['st']], [i, y['st']]
    for i in r['ins']:
        if i not in sins: yield 'vals', [i, None], [i, r['ins'][i]]
    if r['gcfg'] != [secls, swarn]: yield 'gcfg', [secls, swarn], r['gcfg']
    if r['amb'] != r['base']: yield 'amb', r['base'], r['amb']
    for n in r['notes']: yield n[0] if n[0] in ('state', 'ectx', 'amb', 'ret', 'ident', 'dident', 'prov', 'eident', 'vorder', 'initarg') else 'ctx', 'consistent context', n
    if r['inputs']: yield 'inputs', 'unchanged', r['inputs']

def untag(e):
    """A call of user code, without the identity of the instances: that of the nested
    instances loaded from a dump cannot be observed."""
    def f(x):
        if isinstance(x, list): return ['obj', '*'] if len(x) == 2 and x[0] == 'obj' else [f(y) for y in x]
        return x
    return [e[0], '*'] + [f(x) for x in e[2:]]

def undump(v):
    """dumped objects are plain dictionaries"""
    if isinstance(v, dict): return {k: undump(x) for k, x in v.items()}
    if isinstance(v, list) and v and v[0] == 'dumped':
        return V.canon(['dict', [[['str', k], undump(x)] for k, x in v[1].items()]])
    if isinstance(v, list): return [undump(x) for x in v]
    return v

def raw_ids(scen):
    out = set()
    def f(x):
        if isinstance(x, dict):
            if x.get('k') == 'val' and x.get('raw'): out.add(x['d']['id'])
            if x.get('k') == 'clsraw': out.add(x['id'])
            for v in x.get('raws', ()): out.add(v['id'])
            if x.get('op') == 'addv' and x.get('raw') and x['d']['k'] == 'fn': out.add(x['d']['id'])
            for v in x.values(): f(v)
        elif isinstance(x, list):
            for v in x: f(v)
    f(scen['ops'])
    return out

def compare(scen, steps, obs):
    """steps: {op index (1-based): spec step}; obs: list of the adaptor's observations"""
    rawids = raw_ids(scen)
    for j, op in enumerate(scen['ops']):
        s = steps.get(j + 1)
        if s is None:
            yield dict(scen=scen['id'], i=j, op=op['op'], clause='nospec', exp=None, got=None); continue
        if 'UNKNOWN' in repr(s): return
        for clause, exp, got in compare_step(op, s, obs[j], rawids, op['op'] == 'upd'):
            yield dict(scen=scen['id'], i=j, op=op['op'], clause=clause, exp=exp, got=got)
