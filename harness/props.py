"""What each property's check runs, and which differences between the
specification and the code violate which property.

A difference m has m['op'] (kind of operation), m['clause'] (see compare.py),
m['exp'], m['got']."""

WRITE = ('upd', 'set')
P = {}

def prop(pid, title, profiles=(), clauses=None, n=2000, nt=40000, engines=()):
    P[pid] = dict(title=title, profiles=list(profiles), accept=clauses, n=n, nt=nt, engines=list(engines))

def cl(ops, *clauses):
    """differences with one of the clauses, at one of the operations (None: any)"""
    return lambda s, m: m['clause'] in clauses and (ops is None or m['op'] in ops)

def either(*fs):
    return lambda s, m: any(f(s, m) for f in fs)

def hang(s, m): return m['clause'] == 'hang'

OPS0 = dict(get=0, dump=0, copy=0, addv=0, remv=0, clrv=0, walk=0, cfg=0, state=0, info=0, setx=0, rt=0, repr=0, upd=0, set=0, new=1)
def ops(**k): return {**OPS0, **k}

MIX = {}
PROBES = dict(kinds=dict(probe=10, any=0, prim=0, struct=0, typed=0, object=2))
FLAT = dict(kinds=dict(probe=8, any=1, prim=3, struct=1, typed=1, object=0))
NESTED = dict(kinds=dict(probe=4, any=1, prim=1, struct=0, typed=0, object=6), classes=(3, 5), inherit=.2)
QUIET = dict(noise=0, fmt=.1, hook=.05)
ERRY = dict(fail=.15, missing=.2, unknown=.3, badval=.3, none=.2)
MANYVALS = dict(vals=.7, raws=.6, bodyval=.5)
"""Profiles: several per check, scenario i uses profile i mod their number."""

prop('C01', 'Construction accepts exactly the conforming data',
     [dict(MIX, ops=ops(new=6, get=1)), dict(FLAT, ops=ops(new=6), **QUIET), dict(NESTED, ops=ops(new=5, get=1), missing=.15, unknown=.15),
      dict(ERRY, fail=.08, ops=ops(new=6), fields=(1, 3))],
     either(cl(('new', 'rt', 'def'), 'res', 'vals'), hang))
prop('C02', 'A failed construction reports every error, each under its key',
     [dict(ERRY, ops=ops(new=6)), dict(ERRY, ops=ops(new=6), fields=(2, 6)), dict(NESTED, **ERRY, ops=ops(new=5)), dict(PROBES, **MANYVALS, fail=.3, ops=ops(new=5))],
     either(cl(('new', 'rt'), 'res', 'errs'), hang))
prop('C03', 'Values after construction: loaded, default, None or unset',
     [dict(req=.6, dflt=.5, nonefield=.6, none=.3, ops=ops(new=5, get=4)), dict(FLAT, req=.5, dflt=.6, ops=ops(new=5, get=3, cfg=0)), dict(inherit=.6, dflt=.5, req=.5, ops=ops(new=5, get=2))],
     either(cl(('new', 'get', 'rt'), 'res', 'vals', 'out', 'exc', 'dident'), cl(('def',), 'res', 'dident'), hang))
prop('C04', 'A failed update or assignment leaves the instance unchanged',
     [dict(ops=ops(new=2, upd=5, set=4), fail=.15, boom=.06, none=.25, unknown=.2, frozen=.12), dict(NESTED, ops=ops(new=2, upd=5, set=3), boom=.06, fail=.1),
      dict(PROBES, **MANYVALS, ops=ops(new=2, upd=5, set=5), fail=.12, boom=.05, nonefield=.7, none=.3)],
     either(cl(('upd', 'set', 'get', 'dump', 'copy'), 'vals', 'st'), cl(WRITE, 'res'), hang), n=2500)
prop('C05', 'A successful update or assignment changes exactly the given fields',
     [dict(ops=ops(new=2, upd=5, set=4, get=1)), dict(FLAT, ops=ops(new=2, upd=5, set=4), fail=.03, boom=0), dict(NESTED, ops=ops(new=2, upd=5, set=3)), dict(PROBES, **MANYVALS, ops=ops(new=2, upd=5, set=5), nonefield=.7)],
     either(cl(WRITE, 'res', 'vals', 'errs', 'evs', 'vorder'), hang), n=2500)
prop('C06', 'Frozen schemas and fields never change after construction',
     [dict(frozen=.4, ops=ops(new=3, upd=5, set=5, copy=1, get=1), hook=.3), dict(frozen=.5, inherit=.7, copyf=.3, override=.5, bodyval=.4, ops=ops(new=3, upd=4, set=5)), dict(NESTED, frozen=.4, ops=ops(new=3, upd=4, set=4)),
      dict(frozen=.3, cfgown=.6, inherit=.6, ops=ops(new=3, upd=5, set=5, copy=2))],
     either(cl(('upd', 'set', 'new', 'copy'), 'res', 'vals', 'exc'), hang))
prop('C07', 'dump returns exactly the selected set fields under their dump keys',
     [dict(ops=ops(new=4, dump=6, set=1, upd=1), req=.5), dict(NESTED, ops=ops(new=4, dump=6)), dict(FLAT, dk=.7, lk=.6, ops=ops(new=3, dump=6)), dict(inherit=.6, dk=.6, ops=ops(new=4, dump=6))],
     either(cl(('dump',), 'res', 'out', 'evs', 'vals'), hang))
prop('C08', 'Failures while dumping are aggregated and attributed',
     [dict(PROBES, fail=.25, ops=ops(new=4, dump=6), vals=.1, raws=.05, bodyval=.05), dict(NESTED, fail=.2, vals=.1, raws=.05, bodyval=.05, ops=ops(new=4, dump=6)), dict(fail=.2, boom=.05, fmt=.6, vals=.1, raws=.1, ops=ops(new=4, dump=6))],
     either(cl(('dump',), 'res', 'errs', 'prov', 'evs', 'vals', 'ecls', 'amb'), hang))
prop('C09', 'Nested objects are loaded with the rules of their own schema',
     [dict(NESTED, ops=ops(new=5, upd=2, set=2)), dict(NESTED, **ERRY, ops=ops(new=5, upd=2, set=2)), dict(NESTED, hook=.4, ie=.6, st=.5, ops=ops(new=5, upd=2, set=1), mt=.5)],
     either(cl(('new', 'upd', 'set'), 'res', 'errs', 'vals', 'st', 'evs', 'prov', 'initarg'), hang))
prop('C10', 'Nested objects are dumped recursively; dump and load round-trip',
     [dict(NESTED, ops=ops(new=5, dump=4, rt=4, set=1), samekeys=True, unsup=0), dict(FLAT, kinds=dict(probe=1, any=1, prim=5, struct=2, typed=2, object=2), ops=ops(new=5, rt=5, dump=2), samekeys=True, unsup=.02, badval=0),
      dict(NESTED, ops=ops(new=5, dump=5, upd=1, set=1), fail=.1)],
     either(cl(('dump', 'rt'), 'res', 'out', 'errs', 'vals', 'evs'), hang))
TYPED = dict(kinds=dict(probe=0, any=1, prim=0, struct=6, typed=6, object=0), dflt=.1)
prop('C11', 'Type expressions accept exactly the values that conform to them',
     [dict(TYPED, ops=ops(new=5, upd=1, set=2), unsup=.02, badval=.2), dict(TYPED, ops=ops(new=5, upd=1, set=2), unsup=.0, badval=.02)],
     either(cl(('new', 'upd', 'set'), 'res', 'errs', 'vals'), hang),
     engines=[('types', dict(profiles=[dict(unsup=0), dict(unsup=.05, bad=.04), dict(unsup=0, td=0, ntypes=(1, 2), drop=0, extra=0)], clauses=('ok', 'keys', 'diag', 'exc', 'hang')))])
prop('C12', 'TypedDict validation: required, optional and unknown keys',
     [dict(kinds=dict(probe=0, any=0, prim=0, struct=8, typed=4, object=0), ops=ops(new=5, upd=1, set=2), unsup=.02)],
     either(cl(('new', 'upd', 'set'), 'res', 'errs', 'vals'), hang), n=400,
     engines=[('types', dict(profiles=[dict(unsup=0, td=.9, bad=.08, ntypes=(1, 2)), dict(unsup=.05, td=.8, bad=.15), dict(unsup=0, td=1, bad=.03, ntypes=(1, 1), drop=0, extra=0)], clauses=('ok', 'keys', 'diag', 'exc', 'hang')))])
prop('C13', 'Standalone type validation reports every problem and honours its options', [], None,
     engines=[('types', dict(profiles=[dict(extra=.5, drop=.3), dict(extra=.4, drop=.1, bad=.3, ntypes=(2, 6)), dict(ie=.6, im=.6, extra=.6, drop=.4, bad=.05)], clauses=None))])
prop('C14', 'Unsupported type expressions accept every value and warn',
     [dict(TYPED, ops=ops(new=5, upd=1, set=2), unsup=.5), dict(TYPED, ops=ops(new=5, upd=1, set=2), unsup=0)], either(cl(('new', 'upd', 'set'), 'res', 'errs', 'vals'), cl(None, 'warn'), hang), n=400,
     engines=[('types', dict(profiles=[dict(unsup=.5), dict(unsup=.3, warn=.4), dict(unsup=.2, warn=.25, bad=.3, nops=(8, 14))], clauses=('ok', 'keys', 'diag', 'exc', 'hang', 'warn')))])
PRIMS = dict(kinds=dict(probe=0, any=0, prim=10, struct=0, typed=0, object=0), dflt=.1)
prop('C15', 'Primitive fields: strict checking and coercion',
     [dict(PRIMS, strict=.3, ops=ops(new=5, upd=2, set=5, cfg=0), badval=.8, none=.02), dict(PRIMS, strict=.5, ops=ops(new=5, upd=2, set=4), badval=.4, fmt=.5),
      dict(PRIMS, strict=.2, ops=ops(new=5, set=5, dump=1), badval=.7, **QUIET)],
     either(cl(('new', 'upd', 'set', 'dump'), 'res', 'errs', 'vals', 'out', 'ectx'), hang))
prop('C16', 'Validators run when, how often and in the order they should',
     [dict(PROBES, **MANYVALS, ops=ops(new=4, upd=3, set=3, addv=1)), dict(MANYVALS, ops=ops(new=4, upd=2, set=2), inherit=.5), dict(PROBES, **MANYVALS, fail=.15, peek=.5, ops=ops(new=5, upd=2, set=2))],
     either(cl(('new', 'upd', 'set', 'rt'), 'res', 'evs', 'vorder', 'errs'), hang))
prop('C17', 'The validator registry of a field is exact and its own',
     [dict(MANYVALS, ops=ops(new=2, addv=4, remv=4, clrv=1, walk=4, set=1), copyf=.4, inherit=.6), dict(PROBES, **MANYVALS, copyf=.5, ops=ops(new=2, addv=4, remv=4, clrv=1, walk=5, upd=1)),
      dict(MANYVALS, bodyval=.6, inherit=.7, multi=.3, ops=ops(new=2, addv=2, remv=2, walk=5))],
     either(cl(('addv', 'remv', 'clrv', 'walk', 'def'), 'res', 'out'), cl(('new', 'upd', 'set'), 'evs', 'vorder', 'res', 'errs'), hang))
prop('C18', 'Range, length, exclusion and disjunction validators decide exactly', [], None, engines=[('builtin', {})])
prop('C19', 'The regex validator follows its match mode and flags', [], None, engines=[('regex', {})])
prop('C20', 'Instances and copies are independent of each other',
     [dict(ops=ops(new=4, upd=4, set=4, copy=4, state=2, get=1), st=.6, dflt=.1), dict(NESTED, ops=ops(new=3, upd=3, set=3, copy=4, state=1)), dict(frozen=.3, ops=ops(new=3, upd=3, set=3, copy=4, dump=1))],
     either(cl(None, 'vals', 'st'), cl(('copy', 'state'), 'res'), cl(None, 'ret'), cl(('new',), 'ident'), hang))
prop('C21', 'Fields and hooks are inherited by the rules of Python classes',
     [dict(inherit=.9, multi=.4, override=.5, classes=(3, 6), ops=ops(new=5, info=3, dump=1, upd=1)), dict(inherit=.9, multi=.6, classes=(4, 6), fields=(0, 3), lk=.5, ops=ops(new=5, info=4, get=2)),
      dict(inherit=.8, hook=.5, bodyval=.5, override=.6, classes=(3, 6), ops=ops(new=5, walk=2, info=2, upd=1))],
     either(cl(('def', 'info', 'new', 'get', 'dump', 'walk', 'upd'), 'res', 'out', 'vals', 'evs', 'errs'), hang))
prop('C22', 'Defining a class leaves other classes alone; a field is bound once',
     [dict(inherit=.9, multi=.3, bodyval=.7, copyf=.4, reuse=.15, classes=(3, 6), ops=ops(new=4, walk=4, info=4, odd=1)), dict(MANYVALS, inherit=.9, bodyval=.8, classes=(3, 6), ops=ops(new=4, walk=5, info=2, addv=1))],
     either(cl(('def', 'info', 'walk', 'new', 'odd'), 'res', 'out', 'evs', 'errs'), hang))
prop('C23', 'Every error tells its true schema, field, key and context',
     [dict(ERRY, ops=ops(new=4, upd=4, set=3, dump=2), noise=.5), dict(NESTED, **ERRY, noise=.4, ops=ops(new=4, upd=4, set=3, dump=2)), dict(PROBES, **MANYVALS, fail=.2, noise=.6, ops=ops(new=3, upd=4, set=4, dump=2))],
     either(cl(None, 'prov', 'errs'), hang), n=2500)
prop('C24', 'The ambient context is restored by every operation',
     [dict(noise=.5, fail=.12, boom=.08, none=.3, nonefield=.7, ops=ops(new=4, upd=4, set=4, dump=3)), dict(NESTED, noise=.5, fail=.1, boom=.1, ops=ops(new=4, upd=4, set=3, dump=3)),
      dict(PROBES, **MANYVALS, noise=.7, fail=.1, boom=.05, nonefield=.8, none=.3, ops=ops(new=3, upd=4, set=4, dump=3))],
     either(cl(None, 'amb', 'prov', 'errs'), hang), n=2000, engines=[('conc', dict(n=250)), ('ambient', {})])
prop('C25', 'The global configuration in force is the one that is set',
     [dict(ERRY, ops=ops(new=4, upd=2, set=2, dump=2, cfg=6)), dict(NESTED, **ERRY, ops=ops(new=4, upd=2, set=2, dump=2, cfg=6)),
      dict(PROBES, **MANYVALS, midcfg=1, fail=.15, missing=.1, unknown=.1, boom=0, frozen=0, hook=0, ops=ops(new=4, upd=3, set=3, dump=3, cfg=4)),
      dict(kinds=dict(probe=4, any=1, prim=1, struct=0, typed=0, object=4), midcfg=1, fail=.12, missing=.1, unknown=.1, badval=.3, boom=0, frozen=0, hook=0, ops=ops(new=4, upd=3, set=3, dump=3, cfg=4))],
     either(cl(None, 'ecls', 'gcfg'), cl(('cfg',), 'res'), hang))
prop('C26', 'Unknown keys are rejected or ignored by the right rule',
     [dict(unknown=.6, ie=.6, cfgown=.6, inherit=.5, ops=ops(new=4, upd=4), fail=.02), dict(NESTED, unknown=.6, ie=.6, cfgown=.6, ops=ops(new=5, upd=3, set=2), fail=.02), dict(unknown=.5, ie=.5, cfgown=.5, hook=.6, lk=.6, ops=ops(new=4, upd=4), fail=.02)],
     either(cl(('new', 'upd', 'set'), 'res', 'errs', 'vals'), hang))
prop('C27', 'Contexts and hooks follow the lifecycle of the instance',
     [dict(hook=.7, peek=.5, noise=.3, st=.5, ops=ops(new=4, upd=3, set=3, dump=2, copy=1, state=1)), dict(PROBES, **MANYVALS, peek=.5, hook=.4, ops=ops(new=4, upd=3, set=3, dump=2), dflt=.5), dict(NESTED, hook=.6, st=.7, ops=ops(new=4, upd=2, set=2, copy=2))],
     either(cl(None, 'ctx', 'state', 'st', 'evs'), cl(('new',), 'res', 'vals', 'errs', 'ident'), hang))
prop('C28', 'Only validation failures become ValidationError; others pass through',
     [dict(PROBES, **MANYVALS, fail=.12, boom=.15, ops=ops(new=4, upd=4, set=4, dump=3)), dict(NESTED, fail=.1, boom=.12, hook=.3, ops=ops(new=4, upd=3, set=3, dump=3)), dict(fail=.2, boom=.1, dflt=.4, ops=ops(new=4, upd=4, set=4, dump=3)),
      dict(FLAT, boom=.25, vboom=1, dflt=.6, req=.2, hook=.5, missing=.3, ops=ops(new=5, upd=1, set=1))],
     either(cl(None, 'res', 'errs', 'eident'), hang))
prop('C29', 'Rendering of validation errors is complete and faithful', [dict(ERRY, fail=.2, ops=ops(new=5, upd=3, set=2, dump=2))],
     either(cl(None, 'errs', 'prov'), hang), n=600, engines=[('errfmt', {})])
prop('C30', 'format_error decides the messages of default errors',
     [dict(ERRY, fmt=.9, ops=ops(new=5, upd=3, set=3, dump=1)), dict(FLAT, badval=.5, none=.3, fmt=.9, missing=.3, ops=ops(new=5, upd=3, set=3)), dict(NESTED, **ERRY, fmt=.9, ops=ops(new=5, upd=2, set=3))],
     either(cl(None, 'errs', 'ectx', 'evs', 'eident'), hang))
prop('C31', 'Lookup by name and load key, unset fields',
     [dict(lk=.6, dk=.6, req=.6, dflt=.15, ops=ops(new=4, get=7, upd=1, set=1)), dict(FLAT, lk=.6, dk=.6, req=.7, dflt=.1, ops=ops(new=4, get=7)), dict(inherit=.7, lk=.6, req=.6, ops=ops(new=4, get=7, info=2))],
     either(cl(('get', 'info', 'new', 'upd', 'set'), 'res', 'out', 'exc', 'vals', 'errs'), hang))
prop('C32', 'What the user passes in is never modified',
     [dict(mt=.8, ops=ops(new=4, upd=4, set=3, dump=4)), dict(NESTED, mt=.8, ops=ops(new=4, upd=4, set=3, dump=2)), dict(kinds=dict(probe=1, any=2, prim=1, struct=6, typed=6, object=1), unsup=.1, ops=ops(new=4, upd=4, set=4, dump=2))],
     either(cl(None, 'inputs', 'ident'), cl(('new', 'upd', 'set'), 'vals', 'res'), hang))
prop('C33', 'Schema configuration is inherited and takes effect',
     [dict(cfgown=.6, frozen=.3, ie=.5, inherit=.7, slots=.4, unknown=.4, ops=ops(new=4, upd=2, set=2, setx=4, info=1, repr=3), fail=.02), dict(cfgown=.6, frozen=.4, inherit=.8, multi=.3, ops=ops(new=4, upd=3, set=3, setx=3, repr=3), fail=.02)],
     either(cl(('new', 'upd', 'set', 'setx', 'def'), 'res', 'vals', 'exc'), cl(('repr',), 'res', 'out'), hang))
prop('C34', 'Interleaved operations do not interfere with each other', [], lambda s, m: m['mode'] != 'alone',
     engines=[('conc', dict(n=500, nt=12000, profiles=[{}, NESTED, dict(PROBES, **MANYVALS), dict(ERRY, fail=.1), dict(inherit=.6, hook=.6, st=.6, dflt=.5)]))])

# menus whose every behaviour is replayed
MENUS = {
    'C01': ['life', 'pair'], 'C02': ['pair', 'extra'], 'C03': ['life', 'hooks'],
    'C04': ['pair', 'life'], 'C05': ['pair', 'life'], 'C06': ['life', 'confs'],
    'C07': ['dumps'], 'C08': ['dumps', 'formats'], 'C09': ['extra', 'formats', 'hooks'],
    'C10': ['dumps', 'prims'], 'C11': ['types'], 'C12': ['types'],
    'C15': ['prims'], 'C16': ['life', 'registry'], 'C17': ['registry'],
    'C20': ['alias'], 'C21': ['hier', 'hooks'], 'C22': ['hier', 'registry'],
    'C23': ['pair', 'formats', 'extra'], 'C25': ['config'], 'C26': ['extra', 'confs', 'hooks'],
    'C27': ['hooks', 'life'], 'C28': ['pair', 'dumps'], 'C30': ['formats'],
    'C31': ['lookup'], 'C32': ['alias', 'pair'], 'C33': ['confs', 'hier']}
for _pid, _names in MENUS.items(): P[_pid]['engines'].append(('menu', dict(names=_names)))
