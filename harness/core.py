"""Executes scripts of operations on the real oblate and records what an
observer of the public API sees, in the encoding of Oblate.tla."""
import os, sys, contextvars, enum, functools, types, re, typing, itertools, random
import typing_extensions as te
from . import values as V

REPO = os.environ.get('OBLATE_REPO', '/repo')     # another tree only while developing the checks
sys.path.insert(0, REPO)
import oblate                                     # noqa: E402
from oblate import fields, validate               # noqa: E402

UNSET = object()
assert oblate.__file__.startswith(REPO + '/'), oblate.__file__

class Boom(Exception): pass
class MyBothError(oblate.FieldError, ValueError):
    """A FieldError that is a ValueError as well."""
class MyTextError(ValueError):
    def __init__(self, text): super().__init__(1, 2); self.text = text
    def __str__(self): return self.text
def odddunder(*a): raise AuxKey('not asked for')
def srepr(x):
    """The text of values that may not have any."""
    try: return repr(x)
    except BaseException as e: return f'<{type(x).__name__}: no text: {type(e).__name__}>'
def sstr(x):
    try: return str(x)
    except BaseException as e: return srepr(x)
class MyFieldError(oblate.FieldError):
    """A FieldError subclass with an attribute of its own."""
class MyValueError(ValueError): pass
class MyAssertionError(AssertionError): pass
class BoomBase(BaseException): pass
class BoomValue(ValueError): pass
class BoomAssert(AssertionError): pass
class BoomVE(oblate.ValidationError):
    """Of another operation, which user code carried out."""
    def __init__(self, *a): super().__init__([])
class OddFieldError(oblate.FieldError):
    def __init__(self, *, text, info): super().__init__(text, info)
class Skip(Exception): pass
class E1(oblate.ValidationError): pass
class E2(E1): pass
class E3(oblate.ValidationError):
    def raw(self): return [e.message for e in self.errors]
ECLS = {'E0': oblate.ValidationError, 'E1': E1, 'E2': E2, 'E3': E3}
BOOMS = {'B': Boom, 'BK': BoomBase, 'BT': TypeError, 'BA': AttributeError, 'BKey': KeyError, 'BR': RuntimeError,
         'BL': LookupError, 'BI': IndexError, 'BO': oblate.OblateException, 'BKI': KeyboardInterrupt,
         'BSI': StopIteration, 'BMem': MemoryError, 'BSE': SystemExit, 'BGE': GeneratorExit, 'BOv': OverflowError,
         'BV': BoomValue, 'BAs': BoomAssert, 'BVE': BoomVE}
BLANK = ' \t'
def blank(who, code):
    """A message of white space that tells who and code."""
    b = f'{who}|{code}'.encode()
    return ''.join(BLANK[(x >> i) & 1] for x in b for i in range(8))
def unblank(m):
    bits = [BLANK.index(c) for c in m]
    who, code = bytes(sum(b << i for i, b in enumerate(bits[j:j + 8])) for j in range(0, len(bits), 8)).decode().split('|')
    return ['user', who, int(code), 0]
TOK = re.compile(r"U\|(\w+)\|(\d+)\|(\d)")


LIBTEXT = [(re.compile(p + r'\Z', re.S), c) for p, c in [
    (r'Invalid or unknown field\.', 'unknown'), (r'This field is required\.', 'field_required'),
    (r'This field must not be None\.', 'none_disallowed'), (r'Validation failed for this field\.', 'validation_failed'),
    (r'Value must be an? (string|integer|boolean|floating point number|dictionary|list|set)', 'invalid_datatype'),
    (r'Value must be a \w+ object', 'invalid_datatype'), (r'Failed to coerce .* to (integer|boolean|float|string)', 'coercion_failed'),
]]

def callables(rng, f):
    """A callable that does what f does, of one of the kinds there are."""
    k = rng.choice(['fn', 'fn', 'fn', 'lambda', 'partial', 'object', 'bound', 'class', 'static'])
    if k == 'lambda': return lambda *a: f(*a)
    if k == 'partial': return functools.partial(lambda x, *a: f(*a), None)
    if k == 'object': return type('Callable', (), {'__call__': lambda self, *a: f(*a)})()
    if k == 'bound': return type('Holder', (), {'m': lambda self, *a: f(*a)})().m
    if k == 'class': return type('Class', (), {'__new__': lambda cls, *a: f(*a)})
    if k == 'static': return type('Holder', (), {'m': classmethod(lambda cls, *a: f(*a))}).m
    return f

def made(e):
    """Remembers a field error of user code."""
    if Rec.cur is not None and not Rec.cur.off: Rec.cur.made.append(e)
    return e

def user_error(o, who, code):
    """Raises what the outcome o says."""
    tok = f'U|{who}|{code}|'
    st = {'st': who}
    if o in ('ok', 'id'): return
    if o == 'V': raise ValueError(tok + '0')
    if o == 'VS': raise MyValueError(tok + '0')
    if o == 'A': raise AssertionError(tok + '0')
    if o == 'AS': raise MyAssertionError(tok + '0')
    if o == 'V0': raise ValueError
    if o == 'A0': assert False
    if o == 'V1': raise ValueError('')
    if o == 'A1': raise AssertionError('')
    if o == 'VE': raise MyTextError('')
    if o == 'VB': raise ValueError(blank(who, code))
    if o == 'AB': raise AssertionError(blank(who, code))
    if o == 'VM': raise ValueError(tok + '0', 1)
    if o == 'VU': raise UnicodeDecodeError('utf-8', b'x', 0, 1, tok + '0')
    if o == 'VC': raise MyTextError(tok + '0')
    if o == 'FV': raise made(MyBothError(tok + '0', st))
    if o == 'F': raise made(oblate.FieldError(tok + '0', st))
    if o == 'FS': raise made(MyFieldError(tok + '0', state=st))
    if o == 'FL': raise OddFieldError(text=[tok + '1', tok + '2'], info=st) if len(who) % 2 else oblate.FieldError([tok + '1', tok + '2'], st)
    if o == 'FT': raise oblate.FieldError((tok + '1', tok + '2'), state=st)
    if o == 'FE': raise oblate.FieldError({tok + '1', tok + '2'}, state=st)
    if o == 'FD': raise made(oblate.FieldError({'u': [who, code]}, state=st))
    if o == 'FI': raise made(oblate.FieldError(UserInt(code, who)))
    e = BOOMS[o](f'{who}/{code}')
    e._boom = o
    raise e

class UserInt(int):
    """A message that is no string."""
    def __new__(cls, v, who):
        self = int.__new__(cls, v); self.who = who
        return self

# --------------------------------------------------------------------------
# operations on unrelated schemas, executed from inside of callbacks
class Aux(oblate.Schema):
    a = fields.Integer()
    b = fields.Integer(none=True, load_key='B', default=None)
    f = fields.Integer(frozen=True, default=1)
    @validate.field('a')
    def _va(self, v, ctx): assert v != 13, 'aux'
    @validate.field('b', raw=True)
    def _vb(self, v, ctx):
        if v == 13: raise KeyError('aux')
class AuxBadDump(fields.Any):
    def value_dump(self, value, ctx):
        if value == 'key': raise KeyError('aux')
        raise ValueError('aux')
class AuxO(oblate.Schema):
    o = fields.Object(Aux, none=True)
    d = AuxBadDump(default='x')
    a = fields.Any(required=False)
_AUX = Aux({'a': 1})
_AUXO = AuxO({'o': {'a': 1}})
def noise(kind):
    def swallow(f, *a, **k):
        try: f(*a, **k)
        except (Exception,): pass
    if kind == 'newok': AuxO({'o': {'a': 2, 'B': None}})
    elif kind == 'newbad': swallow(AuxO, {'o': {'a': 'x', 'zz': 1, 'B': 'q'}, 'y': 2})
    elif kind == 'newkey': swallow(AuxO, {'o': {'a': 5, 'B': 13}})
    elif kind == 'updok': _AUX.update({'a': 3, 'B': None})
    elif kind == 'updbad': swallow(_AUX.update, {'a': 13, 'B': 'q', 'zz': 1})
    elif kind == 'updkey': swallow(_AUX.update, {'a': 5, 'B': 13})
    elif kind == 'updfrozen': swallow(_AUX.update, {'a': 4, 'f': 13})
    elif kind == 'setbad': swallow(setattr, _AUX, 'b', 'q'); swallow(setattr, _AUX, 'f', 1)
    elif kind == 'setnone': _AUX.b = None
    elif kind == 'setok': _AUX.b = 5
    elif kind == 'setkey': swallow(setattr, _AUX, 'b', 13)
    elif kind == 'dumpbad': swallow(_AUXO.dump)
    elif kind == 'dumpkey':
        swallow(AuxO({'o': None, 'd': 'key'}).dump)
    elif kind == 'dumpok': _AUX.dump(); _AUXO.dump(include=['o'])
    elif kind == 'typeerr': swallow(Aux, 5); swallow(_AUX.dump, include=[], exclude=[])
    elif kind in AUXB: swallow(AUXB[kind])
    elif kind == 'errctx': swallow(lambda: (_ for _ in ()).throw(oblate.FieldError('x')))
class AuxKey(Exception): pass
def raiser(*a): raise AuxKey('aux')
def AB(**kw):
    """An operation that is ended by an exception of user code at some place."""
    hooks = {k: raiser for k in ('preprocess_data', '__schema_post_init__') if kw.pop(k, None)}
    class F(fields.Any):
        def value_load(self, v, c): return raiser() if kw.get('load') else v
        def value_dump(self, v, c): return raiser() if kw.get('dump') else v
        def format_error(self, code, ctx): return raiser() if kw.get('fmt') else None
    class C(oblate.Schema):
        x = F(load_key='X', **({'default': raiser} if kw.get('default') else {}), none=False)
        if hooks: locals().update(hooks)
    if kw.get('val'): C.x.add_validator(raiser, raw=kw['val'] == 'raw')
    class O(oblate.Schema):
        o = fields.Object(C)
    d = {'X': None} if kw.get('fmt') == 2 else {} if kw.get('default') or kw.get('fmt') else {'X': 1}
    if kw.get('dump'):
        i = O({'o': d})
        return i.dump if kw['dump'] == 2 else i.o.dump
    if kw.get('upd'):
        i = object.__new__(C)
        return lambda: C(d)
    return (lambda: O({'o': d})) if kw.get('nest') else (lambda: C(d))
AUXB = {}
for _n, _k in [('pre', dict(preprocess_data=1)), ('post', dict(__schema_post_init__=1)), ('load', dict(load=1)), ('def', dict(default=1)), ('fmtr', dict(fmt=1)),
               ('fmtn', dict(fmt=2)), ('val', dict(val='n')), ('raw', dict(val='raw'))]:
    AUXB['b' + _n] = AB(**_k); AUXB['bn' + _n] = AB(nest=1, **_k)
AUXB['bdump'] = AB(dump=1); AUXB['bndump'] = AB(dump=2)
NOISES = ['newok', 'newbad', 'newkey', 'updok', 'updbad', 'updkey', 'updfrozen', 'setbad', 'setnone', 'setok', 'setkey',
          'dumpbad', 'dumpkey', 'dumpok', 'typeerr', 'errctx']

# --------------------------------------------------------------------------
class Val:
    __slots__ = ('v', 'miss')
    def __init__(self, v, miss='missing'): self.v, self.miss = v, miss

class Rec:
    """What user code recorded while an operation was executed."""
    cur = None
    def __init__(self):
        self.evs, self.notes, self.off, self.made = [], [], 0, []

SCHED = None    # decides what runs at a call of user code (conc.py)

def rec(ev):
    r = Rec.cur
    if r is None or r.off: return
    settle()
    r.evs.append(ev)
    if ev[0] in ('load', 'val', 'dump'):
        a = ambient()
        if a is None or a[0] is not ev[1]: note('amb', f'{ev[0]}: the current schema is another one')
        elif a[1] is None or a[1].field.name != ev[2] or a[1].schema is not ev[1]: note('amb', f'{ev[0]}: the current context is another one')
        elif a[2] != getattr(type(ev[1]), ev[2]).load_key: note('amb', f'{ev[0]}: the current key is {a[2]!r}')

def ambient():
    """What errors created now are attributed to."""
    try: e = oblate.FieldError('ambient')
    except LookupError: return None
    try: k = e.key
    except Exception as x: k = type(x).__name__
    return e.schema, e.context, k

def same_ambient(a, b):
    return a is None and b is None or a is not None and b is not None and a[0] is b[0] and a[1] is b[1] and a[2] == b[2]

def note(kind, detail):
    if Rec.cur is not None and not Rec.cur.off: Rec.cur.notes.append([kind, detail])

def set_ecls(v):
    """User code that changes the configuration in the midst of an operation."""
    if oblate.config.validation_error_cls is ECLS[v]: return
    if v in ('E1', 'E3'): oblate.config.validation_error_cls = ECLS[v]
    else: oblate.config = oblate.GlobalConfig(validation_error_cls=ECLS[v], warn_unsupported_types=oblate.config.warn_unsupported_types)

RUN = None       # the Runner
PENDING = []    # what puts a registry that a validator changed back

def settle():
    while PENDING: PENDING.pop()()

def registering(d, f):
    """A validator that changes the registry of its field while it runs: the
    validators that were registered then run nonetheless, and no others.  It
    removes itself, or adds one if it is the last; undone at the next call of
    user code."""
    if SCHED is not None or PENDING or Rec.cur is None or Rec.cur.off: return
    for raw in (True, False):
        vs = list(f.walk_validators(raw=raw))
        mine = [j for j, v in enumerate(vs) if RUN.vid(v) == d['id']]
        if not mine: continue
        def back(vs=vs, raw=raw):
            f.clear_validators(raw=raw)
            for v in vs: f.add_validator(v, raw=raw)
        if mine[0] < len(vs) - 1:
            f.remove_validator(vs[mine[0]], raw=raw)
        else:
            live = [True]
            def late(schema, value, ctx):
                if live: note('vorder', 'a validator ran that was registered during the run')
            f.add_validator(late, raw=raw)
            PENDING.append(live.clear)
        PENDING.append(back)
        return

def do_noise(d, schema=None, user=False):
    n = d.get('noise')
    r = Rec.cur
    if r is None or r.off: return
    a = ambient()
    if SCHED is not None: SCHED.gate()
    if n and n.startswith('cfg:'):
        if user: set_ecls(n[4:])
    elif n and n != 'reg': make_noise(n, r, schema)
    b = ambient()
    if not same_ambient(a, b): note('amb', 'changed by operations executed by user code')

def make_noise(n, r, schema):
    r.off += 1
    try:
        if n == 'selfdump':
            if schema is not None:
                try: schema.dump()
                except BaseException: pass
        elif n in ('selfbad', 'selfcopy'):
            # an update of the instance the operation works on, which fails; or of a copy of it
            if schema is not None:
                try:
                    data = {k: 'zz' for k in type(schema).__load_fields__}
                    if n == 'selfbad': schema.update({**data, 'no such key': 1}, ignore_extra=False)
                    else:
                        schema = schema.copy()
                        for k, v in data.items():
                            try: schema.update({k: v})
                            except Exception: pass
                except BaseException: pass
        else: noise(n)
    finally:
        r.off -= 1

def code_of(v):
    """Code(v) of Values.tla."""
    if v is None: return 0
    if isinstance(v, V.Cmd): return v.n
    if isinstance(v, V.Wrap): return code_of(v.v)
    if isinstance(v, oblate.Schema): return 1
    if type(v) in V.XCLS.values(): return 2
    if type(v) in V.SUBCLS.values(): return len(type(v).__name__) % 4
    if isinstance(v, (list, tuple, set, dict)) or hasattr(v, 'keys'): return len(v) % 4
    return len(V.scalar_text(v)) % 4

def check_load_ctx(ctx, value_is=UNSET, where=''):
    if not isinstance(ctx, oblate.LoadContext): note('ctx', f'{where}: not a LoadContext'); return
    if value_is is not UNSET and ctx.value is not value_is: note('ctx', f'{where}: ctx.value')
    if getattr(type(ctx.schema), ctx.field.name, None) is not ctx.field: note('ctx', f'{where}: ctx.field')
    if not isinstance(ctx.state, dict): note('ctx', f'{where}: ctx.state')

class FmtMixin:
    """Overrides format_error as self.sp['fmt'] says."""
    def format_error(self, error_code, ctx):
        sp = self.sp
        code = error_code.split('.')[-1]
        if sp['fl']:
            try: val = ctx.get_value()
            except ValueError: val = UNSET
            if ctx.field is not self: note('ectx', 'field')
            if ctx.error_code != error_code: note('ectx', 'code')
            if getattr(self, 'ERR_' + code.upper(), None) != error_code: note('ectx', 'constant')
            if code in ('type_validation_failed', 'invalid_value') and not ctx.metadata.get('type_validation_fail_errors'):
                note('ectx', 'metadata')
            rec(['fmt', ctx.schema, self.name, code, Val(val)])
        do_noise(sp)
        mode = sp['fmt'].get(code, 'none')
        tok = f'E|{sp["id"]}|{code}|'
        if mode == 'str': return tok + '0'
        if mode == 'nil': return ''
        if mode == 'fe': return made((MyFieldError if len(error_code) % 2 else oblate.FieldError)(tok + '0', {'st': sp['id']}))
        if mode == 'fl': return oblate.FieldError([tok + '1', tok + '2'], state={'st': sp['id']})
        if mode == 'bad': return [True, 7, [tok], b'x', ValueError(tok), oblate.FieldError][len(sp['id'] + code) % 6]
        if mode != 'none': user_error(mode, sp['id'], 0)
        if sp.get('fmtsuper'): return super().format_error(error_code, ctx)
        return None

class Probe(FmtMixin, fields.Field):
    def value_load(self, value, ctx):
        sp = self.sp
        check_load_ctx(ctx, value, 'value_load')
        rec(['load', ctx.schema, ctx.field.name, Val(value), ctx.is_update()])
        if ctx.state.get('ls') is not None: note('state', 'context state is not fresh')
        ctx.state['ls'] = value
        do_noise(sp, ctx.schema if ctx.is_update() else None, user=True)
        o = sp['load'][code_of(value)]
        user_error(o, sp['id'], code_of(value))
        return value if o == 'id' else V.Wrap('L', value)
    def value_dump(self, value, ctx):
        sp = self.sp
        if not isinstance(ctx, oblate.DumpContext) or ctx.value is not value: note('ctx', 'value_dump')
        elif getattr(type(ctx.schema), ctx.field.name, None) is not ctx.field: note('ctx', 'value_dump field')
        if ctx.state: note('state', 'dump context state is not fresh')
        ctx.state['ls'] = 1
        rec(['dump', ctx.schema, ctx.field.name, Val(value), sorted(ctx.included_fields)])
        do_noise(sp, ctx.schema, user=True)
        o = sp['dump'][code_of(value)]
        user_error(o, sp['id'], code_of(value))
        return value if o == 'id' else V.Wrap('D', value)

FMTCLS = {}
def fieldcls(base, fmt):
    if not fmt: return base
    if base not in FMTCLS:
        FMTCLS[base] = type('My' + base.__name__, (FmtMixin, base), {})
    return FMTCLS[base]

class FnValidator:
    """A callable validator (not a validate.Validator)."""

def validator_body(d, schema, value, ctx):
    check_load_ctx(ctx, where='validator')
    if schema is not ctx.schema: note('ctx', 'validator: schema')
    upd = ctx.is_update()
    rec(['val', schema, ctx.field.name, d['id'], Val(value), Val(ctx.value), upd])
    if isinstance(value, V.Wrap) and isinstance(ctx.field, Probe) and value.v is ctx.value and ctx.state.get('ls') is not ctx.value:
        note('state', 'the state set by value_load is not seen by the validator')
    if d.get('peek') and not upd:
        rec(['peek', schema, ctx.field.name, d['id'], Val(schema.get_value_for(d['peek'], UNSET) if hasattr(type(schema), d['peek']) else UNSET, 'unset')])
    do_noise(d, schema if upd else None, user=True)
    if d.get('noise') == 'reg': registering(d, ctx.field)
    user_error(d['tbl'][code_of(value)], d['id'], code_of(value))

class ClsValidator(validate.Validator):
    def __init__(self, d): self.d = d
    def validate(self, value, ctx): validator_body(self.d, ctx.schema, value, ctx)
class ClsRawValidator(validate.Validator, raw=True):
    def __init__(self, d): self.d = d
    def validate(self, value, ctx): validator_body(self.d, ctx.schema, value, ctx)

def reported(es):
    """All field errors, those of nested schemas included."""
    out = []
    for e in es:
        out.append(e)
        if isinstance(getattr(e, 'message', None), dict):
            out += reported([x for xs in e.message.values() if isinstance(xs, list) for x in xs if isinstance(x, oblate.FieldError)])
    return out

def errsnap(e):
    """What an error tells; the same objects for ever."""
    if not isinstance(e, oblate.FieldError): return ()
    c = e.context
    return (e.schema, e.field, e.key, e.message, e.state, c) + ((c.schema, c.field, c.value) if c is not None else ())

class Holder:
    def check(self, *a): return self.f(*a)
def as_validator(rng, v):
    """A validator that is a callable of some kind."""
    k = rng.choice(['fn', 'fn', 'fn', 'partial', 'object', 'bound'])
    if k == 'partial': return functools.partial(v)
    if k == 'object': return type('Callable', (), {'__call__': lambda self, *a: v(*a)})()
    if k == 'bound':
        h = Holder(); h.f = v
        return h.check
    return v

def unhooked(c):
    return c.preprocess_data is oblate.Schema.preprocess_data and c.__schema_post_init__ is oblate.Schema.__schema_post_init__

class Runner:
    """Executes one scenario."""
    def __init__(self, scen):
        self.scen = scen
        self.env = scen['env']
        self.cls, self.obj, self.tags, self.keep = {}, {}, {}, []
        self.vals = {}
        self.rz = V.Realizer(self.obj.get)
        self.optag = self.roottag = ''
        self.always, self.watch, self.deep = [], [], []
        self.grp, self.groups, self.base, self.given, self.latenotes, self.errlog = None, {}, None, {}, [], []
        self.types = None
        self.rng = random.Random(repr(scen['id']))

    # ---- identity of schema instances
    def tag(self, o):
        return self.tags.get(id(o))
    def name(self, o, t):
        self.keep.append(o)
        self.tags[id(o)] = t
    def register(self, o, t):
        self.name(o, t)
        self.obj[t] = o
    def enc(self, o):
        return V.encode(o, lambda x: ['obj', self.tag(x) or '?'] if isinstance(x, oblate.Schema) else None)

    # ---- validators
    def validator(self, d):
        if d['id'] in self.vals:
            v = self.vals[d['id']]
            # another object for the same method
            return getattr(v.__self__, v.__name__) if isinstance(v, types.MethodType) else v
        if d['k'] == 'cls': v = ClsValidator(d)
        elif d['k'] == 'clsraw': v = ClsRawValidator(d)
        else:
            def v(schema, value, ctx, d=d): validator_body(d, schema, value, ctx)
            v.__name__ = d['id']
            v = as_validator(self.rng, v)
        self.vals[d['id']] = v
        self.keep.append(v)
        return v
    def vid(self, v):
        for k, x in self.vals.items():
            if x is v or isinstance(x, types.MethodType) and x == v: return k
        return getattr(v, '_vid', '?')

    # ---- fields
    def field(self, f, name):
        kw = {}
        if f['none'] or self.rng.random() < .1: kw['none'] = f['none']
        if not f['req'] or self.rng.random() < .1: kw['required'] = f['req']
        if f['frozen'] or self.rng.random() < .1: kw['frozen'] = f['frozen']
        lk, dk = f['lk'], f['dk']
        if lk and lk == dk and self.rng.random() < .7: kw['data_key'] = lk
        else:
            if lk: kw['load_key'] = lk
            if dk: kw['dump_key'] = dk
        if f['dflt'][0] == 'val':
            kw['default'] = self.rz.real(f['dflt'][1])
        elif f['dflt'][0] == 'call':
            o, fid, nz = f['dflt'][1], f['id'], f.get('noise')
            def default(sctx, fld, *rest):
                if not isinstance(sctx, oblate.SchemaContext): note('ctx', 'default: not a SchemaContext')
                else:
                    rec(['def', sctx.schema, fld.name, sctx.is_initialized()])
                if not isinstance(fld, fields.Field): note('ctx', 'default: not a Field')
                do_noise({'noise': nz})
                user_error(o, fid, 0)
                return 'dv:' + fid
            kw['default'] = callables(self.rng, default)
        late = []
        if f['vals'] or f['raws']:
            # realize the initial validators through the different means
            init = []
            ds = [(d, False) for d in f['vals']] + [(d, True) for d in f['raws']]
            for d, raw in ds:
                if d['k'] == 'fn' and raw or self.rng.random() < .3: late.append((d, raw))
                elif late and any(r == raw for _, r in late): late.append((d, raw))
                else: init.append(self.validator(d))
            if init:
                kw['validators'] = init if self.rng.random() < .6 else tuple(init)
                if self.rng.random() < .6: self.always.append((kw['validators'], list(init)))
        kind, base = f['kind'], None
        args = ()
        if kind == 'probe': base = Probe
        elif kind == 'any': base = fields.Any
        elif kind == 'prim':
            base = getattr(fields, f['pt'])
            if not f['strict'] or self.rng.random() < .2: kw['strict'] = f['strict']
            if f['pt'] == 'Boolean' and f.get('customtf'):
                mk = self.rng.choice([list, tuple])
                kw['true_values'], kw['false_values'] = mk(f['tv']), mk(f['fv'])
                self.always += [(kw['true_values'], list(f['tv'])), (kw['false_values'], list(f['fv']))]
        elif kind in ('struct', 'typed'):
            base = getattr(fields, f['pt'])
            args = self.typeargs(f)
        elif kind == 'object':
            base = fields.Object
            args = (self.cls[f['cls']],)
            ik = {}
            if f['ie'] != 'm': ik['ignore_extra'] = f['ie'] == 'T'
            if f['ist'] != ['none']: ik['state'] = self.rz.real(f['ist'])
            if getattr(self.cls[f['cls']], 'takes_mine', None) and self.rng.random() < .8: ik['mine'] = [f['id']]
            if ik or self.rng.random() < .2:
                kw['init_kwargs'] = ik if self.rng.random() < .7 else types.MappingProxyType(ik)
                self.always.append((kw['init_kwargs'], dict(ik)))
        how, ex = self.rng.randrange(3), {}
        if how: kw['extras'] = ex
        if how == 2: ex['mine'] = f['id']
        custom = bool(f['fl'] or f['fmt'])
        k = base if base is Probe else fieldcls(base, custom)
        fld = k(*args, **kw)
        if base is Probe or custom: fld.sp = f
        if how and fld.extras is not ex: self.latenotes.append(['dident', f'the extras of {name} are another object'])
        fld.extras['mine'] = f['id']
        mine = kw.get('validators')
        if isinstance(mine, list) and not any(m is mine for m, _ in self.always):
            # the list is the user's, who goes on using it
            def other(schema, value, ctx): note('vorder', 'a validator ran that was put into a list of the user')
            mine[:] = [other] * self.rng.randint(0, 3)
        if f['dflt'][0] == 'val' and fld.default is not kw['default']: self.latenotes.append(['dident', f'the default of {name} is another object'])
        for d, raw in late:
            v = self.validator(d)
            if d['k'] == 'fn':
                fld.add_validator(v, raw=raw) if raw or self.rng.random() < .5 else fld.add_validator(v)
            else: fld.add_validator(v)
        return fld

    def typeargs(self, f):
        from .typeexpr import Types
        if self.types is None: self.types = Types(self.env)
        ty = self.types.real
        tp, pt = f['tp'], f['pt']
        if pt == 'Dict': return () if tp[1:] == [['any'], ['any']] and f.get('bare') else (ty(tp[1]), ty(tp[2]))
        if pt in ('List', 'Set'): return () if tp[1] == ['any'] and f.get('bare') else (ty(tp[1]),)
        if pt == 'TypedDict': return (ty(tp),)
        if pt == 'Literal': return tuple(self.rz.real(v) for v in tp[1])
        if pt == 'Union': return tuple(ty(t) for t in tp[1])
        return (ty(tp),)

    # ---- classes
    def define(self, op):
        d = op['d']
        bases = tuple(self.cls[b] for b in d['bases']) or (oblate.Schema,)
        run = self
        own = {}
        def body(ns):
            for e in d['body']:
                if e['k'] == 'field':
                    own[e['nm']] = ns[e['nm']] = run.field(e['f'], e['nm'])
                elif e['k'] == 'copy':
                    own[e['nm']] = ns[e['nm']] = getattr(run.cls[e['from']], e['fr']).copy()
                elif e['k'] == 'reuse':
                    ns[e['nm']] = own[e['fr']] if e['from'] == op['id'] else getattr(run.cls[e['from']], e['fr'])
                elif e['k'] == 'val':
                    dd = e['d']
                    tgt = e['fr'] if e['by'] == 'name' else own[e['fr']]
                    def v(schema, value, ctx, dd=dd): validator_body(dd, schema, value, ctx)
                    v.__name__ = dd['id']
                    v = validate.field(tgt, raw=e['raw'])(v) if e['raw'] or run.rng.random() < .5 else validate.field(tgt)(v)
                    run.vals[dd['id']] = v
                    run.keep.append(v)
                    ns['_v_' + dd['id']] = v
            c = d['cfg']
            if c['own']:
                attrs = {}
                dfl = {'frozen': False, 'ie': False, 'slotted': True, 'repr': True}
                nm = {'frozen': 'frozen', 'ie': 'ignore_extra', 'slotted': 'slotted', 'repr': 'add_repr'}
                for k, v in c['c'].items():
                    if v != dfl[k] or run.rng.random() < .3: attrs[nm[k]] = v
                base = oblate.SchemaConfig
                while attrs and run.rng.random() < .3:
                    # a part of the options comes from a base class of the configuration
                    some = {k: attrs.pop(k) for k in run.rng.sample(sorted(attrs), run.rng.randint(1, len(attrs)))}
                    base = type('BaseConfig', (base,), some)
                ns[run.rng.choice(['Config', 'Config', 'MyCfg'])] = type('Config', (base,), attrs)
            if run.rng.random() < .15:
                # what has nothing to do with schemas
                ns.update(run.rng.sample([('Inner', type('Inner', (), {})), ('Color', enum.Enum('Color', 'RED BLUE')), ('Nested', type('Nested', (oblate.Schema,), {'n': fields.Any()})),
                                          ('CONST', 5), ('ftype', fields.Integer), ('method', lambda self: 1), ('prop', property(lambda self: 2)), ('cm', classmethod(lambda cls: 3)),
                                          ('generic', list[int]), ('alias', typing.List[int]), ('Err', ValueError), ('gcfg', oblate.GlobalConfig())], run.rng.randint(1, 4)))
            if run.rng.random() < .12 and not any(hasattr(b, 'takes_mine') for b in bases):
                # takes an argument of its own
                def init(self, data, /, *, mine=None, **kw):
                    c = (ambient() or (0, 0))[1]
                    f = c.field if isinstance(c, oblate.LoadContext) else None
                    if isinstance(f, fields.Object) and c.value is data and mine is not f.init_kwargs.get('mine'): note('initarg', 'an init argument did not arrive')
                    super(run.cls[op['id']], self).__init__(data, **kw)
                ns.update(__init__=init, takes_mine=True)
            if run.rng.random() < .12:
                # instances that are odd to look at
                ns.update(run.rng.choice([dict(__len__=lambda self: 0), dict(__eq__=lambda self, o: True, __hash__=object.__hash__), dict(__bool__=lambda self: False),
                                          dict(__eq__=odddunder, __bool__=odddunder, __len__=odddunder, __hash__=object.__hash__),
                                          dict(__call__=odddunder, __iter__=odddunder, __contains__=odddunder, __str__=lambda self: 'odd')]))
            if d.get('rep'): ns['__repr__'] = lambda self: '=' + op['id']
            if d['slots']: ns['__slots__'] = ('extra_slot_' + op['id'],)
            h = d['hooks']
            if h['pre'][0] != 'inherit': ns['preprocess_data'] = run.prehook(h['pre'], d.get('noise')) if h['pre'][0] != 'none' else oblate.Schema.preprocess_data
            if h['post'][0] != 'inherit': ns['__schema_post_init__'] = run.posthook(h['post'], d.get('noise')) if h['post'][0] != 'none' else oblate.Schema.__schema_post_init__
        if (d['hooks']['pre'][0], d['hooks']['post'][0]) != ('inherit', 'inherit') and self.rng.random() < .25:
            # the hooks come from a plain class next to the schemas
            hooks = {'__slots__': ()}
            def body2(ns):
                body(ns)
                for n in ('preprocess_data', '__schema_post_init__'):
                    if n in ns: hooks[n] = ns.pop(n)
            ns = {}
            body2(ns)
            k = types.new_class(op['id'], (type('Mix', (), hooks), *bases), {}, lambda x: x.update(ns))
        else: k = types.new_class(op['id'], bases, {}, body)
        self.cls[op['id']] = k

    def anymap(self, d):
        return V.MAPTYPES[self.rng.choice(['dict', 'dict', 'proxy', 'my', 'chain', 'userdict'])](d)
    def prehook(self, h, nz):
        run = self
        def preprocess_data(self, data):
            rec(['pre', self, self.context.is_initialized()])
            for n in list(type(self).__fields__):
                if self.get_value_for(n, UNSET) is not UNSET: note('ctx', 'preprocess: fields are set')
            do_noise({'noise': nz})
            if h[0] == 'boom': user_error(h[1], 'pre', 0)
            if h[0] == 'nonmap': return [1]
            if h[0] == 'ren' and h[1] in data and h[2] not in data:
                return run.anymap({(h[2] if k == h[1] else k): v for k, v in data.items()})
            if h[0] == 'drop': return run.anymap({k: v for k, v in data.items() if k != h[1]})
            if h[0] == 'add' and h[1] not in data:
                return run.anymap({**data, h[1]: run.rz.real(h[2], run.tag(self))})
            return data
        return preprocess_data

    def posthook(self, h, nz):
        run = self
        def __schema_post_init__(self):
            rec(['post', self, self.context.is_initialized()])
            do_noise({'noise': nz}, self)
            if h[0] == 'boom': user_error(h[1], 'post', 0)
            if h[0] == 'set' and hasattr(type(self), h[1]):
                f, v = getattr(type(self), h[1]), run.rz.real(h[2], run.tag(self))
                if run.rng.random() < .5: setattr(self, h[1], v)
                else: self.update({f.load_key: v}, **run.rng.choice([{}, {'ignore_extra': True}]))
        return __schema_post_init__

    # ---- errors
    def msg(self, e, m, parent):
        if isinstance(m, UserInt): return ['uint', m.who, int(m)]
        if isinstance(m, str):
            if m == '': return ['nil']
            if m.startswith('U|'):
                p = m.split('|')
                return ['user', p[1], int(p[2]), int(p[3])] if len(p) == 4 else ['weird', m]
            if m in (str(ValueError(t.group(), 1)) for t in [TOK.search(m)] if t) or \
               m.startswith("'utf-8' codec can't decode byte 0x78 in position 0: U|"):
                t = TOK.search(m)
                return ['user', t[1], int(t[2]), int(t[3])]
            if m and not m.strip(BLANK):
                try: return unblank(m)
                except Exception: return ['weird', m[:80]]
            if m.startswith('E|'):
                p = m.split('|')
                return ['fmt', p[1], p[2], int(p[3])] if len(p) == 4 else ['weird', m]
            for r, c in LIBTEXT:
                if r.match(m): return ['lib', c]
            f = e.field
            if isinstance(f, (fields.Dict, fields.List, fields.Set, fields.TypedDict, fields.Literal, fields.Union, fields.TypeExpr)):
                return ['lib', 'tv']
            return ['weird', m[:80]]
        if isinstance(m, dict):
            if set(m) == {'u'} and isinstance(m['u'], list) and len(m['u']) == 2: return ['udict', *m['u']]
            out = []
            for k, es in m.items():
                for x in es if isinstance(es, list) else []:
                    r = self.err(x, parent)
                    if isinstance(x, oblate.FieldError) and x.key != k: r['key'] = ['badkey', k, r['key']]
                    out.append(r)
            return ['nest', out]
        return ['weird', srepr(m)[:80]]

    def err(self, e, tag):
        """tag: id expected for the schema of the error, if it is not known."""
        if not isinstance(e, oblate.FieldError): return {'key': 'weird:' + type(e).__name__}
        if isinstance(e.schema, oblate.Schema) and self.tag(e.schema) is None: self.name(e.schema, tag)
        f = e.field
        ctx = e.context
        # what is not raised in a context of its own is raised in the one around the operation
        if ctx is None or self.base is not None and ctx is self.base[1]: c = ['none']
        elif isinstance(ctx, oblate.LoadContext): c = ['load', ctx.field.name, ctx.schema]
        elif isinstance(ctx, oblate.DumpContext): c = ['dump', ctx.field.name, ctx.schema]
        else: c = ['weird', srepr(ctx)]
        st = e.state
        s = ['none'] if st is None else ['st', st['st']] if isinstance(st, dict) and set(st) == {'st'} else ['weird', srepr(st)[:60]]
        sch = e.schema
        t = self.tag(sch) or '?'
        nested = f'{self.optag}.{e.key}' if tag == self.roottag else f'{t}.{e.key}'
        try: key = V.keyname(e.key)
        except Exception: key = 'weird'
        return {'key': key, 'fld': f.name if f is not None else '',
                'sch': sch, 'ctx': c, 'msg': self.msg(e, e.message, nested), 'st': s}

    def errfix(self, r):
        """Schemas -> ids, once they are all known."""
        if 'sch' in r:
            r['sch'] = self.tag(r['sch']) or '?'
            if len(r['ctx']) > 2: r['ctx'] = [r['ctx'][0], r['ctx'][1], self.tag(r['ctx'][2]) or '?']
            if r['msg'][0] == 'nest':
                for x in r['msg'][1]: self.errfix(x)
        return r

    # ---- state
    def readback(self):
        out, seen = {}, set()
        todo = [(t, o) for t, o in self.obj.items() if self.visible(t)]
        while todo:
            t, o = todo.pop(0)
            if t in seen: continue
            seen.add(t)
            vals = {}
            for n in self.fieldnames(type(o)):
                try: v = o.get_value_for(n, UNSET)
                except Exception as e:
                    vals[n] = ['weird', srepr(e)[:60]]; continue
                if v is UNSET: continue
                if isinstance(v, oblate.Schema) and self.tag(v) is None:
                    f = getattr(type(o), n)
                    self.register(v, f'{self.optag if t == self.roottag else t}.{f.load_key}')
                    todo.append((self.tag(v), v))
                vals[n] = self.enc(v)
            try:
                c = o.context
                ok = c.schema is o and c.is_initialized() is True and c.config is type(o).__config__
                st = self.enc(c.state)
                if not ok: st = ['weird', 'context']
            except Exception as e: st = ['weird', srepr(e)[:60]]
            out[t] = {'vals': vals, 'st': st}
        return out
    def visible(self, t):
        """Whether the strand that is executed may look at instance t."""
        return self.grp is None or self.groups.get(t.split('.')[0]) in ('S', self.grp)
    def save(self):
        return Rec.cur, self.optag, self.roottag, self.watch, self.deep, self.rng, self.grp, self.base, self.given
    def restore(self, s):
        Rec.cur, self.optag, self.roottag, self.watch, self.deep, self.rng, self.grp, self.base, self.given = s
    def fieldnames(self, cls):
        return self.scen_fields.get(cls.__name__, ())

    def ambient(self, a):
        if a is None: return 'unset'
        s, c, k = a
        return srepr([self.tag(s) if isinstance(s, oblate.Schema) else srepr(s), c is not None, k])

    def evout(self, ev):
        t = self.tag(ev[1])
        if t is None:
            # an instance that never came to be: its id is that of the values it was given
            for y in ev[2:]:
                y = y.v if isinstance(y, Val) else None
                y = y.v if isinstance(y, V.Wrap) else y
                if isinstance(y, V.Cmd) and y.inst: t = y.inst; break
        return [ev[0], t or '?'] + [([x.miss] if x.v is UNSET else self.enc(x.v)) if isinstance(x, Val) else x for x in ev[2:]]

    # ---- one operation
    def do(self, op):
        k = op['op']
        rz = self.rz
        if any(c not in self.cls for c in op['needc']) or any(i not in self.obj for i in op['need']):
            raise Skip
        self.optag = op['id'] if 'id' in op else ''
        self.roottag = op['id'] if k == 'new' else op.get('i', '')
        if k == 'def': return self.define(op)
        if k == 'new':
            data = self.mapping(op['data'], op['id'], op['id'], op.get('mt', 'dict'))
            kw = self.kw(op)
            if op['st'] != ['none']: kw['state'] = rz.real(op['st'])
            o = self.cls[op['cls']](data, **kw)
            self.register(o, op['id'])
            if 'state' in kw and o.context.state is not kw['state']: note('ident', 'the state is another object than the one given')
            self.kept(o, self.given, True)
            return None
        if k == 'upd':
            data = self.mapping(op['data'], op['i'], op['id'], op.get('mt', 'dict'))
            r = self.obj[op['i']].update(data, **self.kw(op))
            if r is not None: note('ret', srepr(r))
            self.kept(self.obj[op['i']], self.given)
            return None
        if k == 'set':
            v = rz.real(op['v'], op['i'], f"{op['id']}.{self.lk(op)}")
            self.watchval(v)
            o = self.obj[op['i']]
            f = getattr(type(o), op['f'], None)
            self.given = {f.load_key: v} if isinstance(f, fields.Field) else {}
            setattr(o, op['f'], v)
            if isinstance(f, fields.Field): self.kept(o, {f.load_key: v})
            return None
        if k == 'get':
            o = self.obj[op['i']]
            if op['attr']: return getattr(o, op['n'])
            if op['d']: return o.get_value_for(op['n'], rz.real(op['d']))
            return o.get_value_for(op['n'])
        if k == 'dump':
            kw = {}
            for a, n in (('inc', 'include'), ('exc', 'exclude')):
                if op[a][0] != 'm':
                    kw[n] = {'l': list, 't': tuple, 's': set, 'f': frozenset}[op[a][0]](op[a][1])
                    self.watch.append((kw[n], list(kw[n])))
            return self.obj[op['i']].dump(**kw)
        if k == 'rt':
            out = self.obj[op['i']].dump()
            self.roottag = op['id']
            o = type(self.obj[op['i']])(out)
            self.register(o, op['id'])
            return None
        if k == 'copy':
            c = self.obj[op['i']].copy()
            if c is self.obj[op['i']]: note('ret', 'copy returned the same instance')
            if type(c) is not type(self.obj[op['i']]): note('ret', 'copy of another class')
            self.register(c, op['id'])
            return None
        if k in ('addv', 'remv', 'clrv', 'walk'):
            f = getattr(self.cls[op['cls']], op['f'])
            if k in ('addv', 'remv') and op['d']['k'] == 'bad':
                v = self.rng.choice([None, 'v', 5, (), [len], {'raw': True}, object()])
                return (f.add_validator if k == 'addv' else f.remove_validator)(v, **({'raw': op['raw']} if op['raw'] else {}))
            if k == 'addv':
                v = self.validator(op['d'])
                return f.add_validator(v, raw=op['raw']) if op['raw'] or self.rng.random() < .5 else f.add_validator(v)
            if k == 'remv':
                v = self.validator(op['d'])
                return f.remove_validator(v, raw=op['raw']) if op['raw'] or self.rng.random() < .5 else f.remove_validator(v)
            kw = {} if op['raw'] == 'm' else {'raw': op['raw'] == 'T'}
            if k == 'clrv': return f.clear_validators(**kw)
            w = f.walk_validators(**kw)
            out = list(itertools.islice(w, 1))
            if out and SCHED is None and self.rng.random() < .5:
                # registering more in the meantime changes nothing for this walk
                def late(schema, value, ctx): raise AssertionError
                for raw in (False, True): f.add_validator(late, raw=raw)
                out += w
                for raw in (False, True): f.remove_validator(late, raw=raw)
            else: out += w
            return [self.vid(v) for v in out]
        if k == 'info':
            c = self.cls[op['cls']]
            return {n: self.info(getattr(c, n)) for n in self.fieldnames(c)}
        if k == 'odd': return self.odd(op)
        if k == 'repr': return self.repr(self.obj[op['i']])
        if k == 'setx':
            self.obj[op['i']].no_such_field = 1
            return None
        if k == 'cfg':
            if op['k'] == 'ecls': oblate.config.validation_error_cls = ECLS[op['v']]
            elif op['k'] == 'replace': oblate.config = oblate.GlobalConfig(validation_error_cls=ECLS[op['v']], warn_unsupported_types=op['warn'])
            elif op['k'] == 'warn': oblate.config.warn_unsupported_types = op['v']
            elif op['k'] == 'bad' and op['v'] == 'warn':
                if op.get('ctor'): oblate.config = oblate.GlobalConfig(warn_unsupported_types='yes')
                else: oblate.config.warn_unsupported_types = None
            elif op['k'] == 'bad':
                bad = {'int': int, 'exc': ValueError, 'fe': oblate.FieldError, 'ob': oblate.OblateException}[op['v']]
                if op.get('ctor'): oblate.config = oblate.GlobalConfig(validation_error_cls=bad)
                else: oblate.config.validation_error_cls = bad
            return None
        if k == 'state':
            self.obj[op['i']].context.state.append(rz.real(op['v']))
            return None
        raise ValueError(k)

    def odd(self, op):
        k, pick = op['k'], self.rng.choice
        c = self.cls[op['cls']]
        if k == 'object': fields.Object(pick([int, dict, oblate.SchemaConfig, fields.Field, 'User']))
        elif k == 'dict1': fields.Dict(pick([str, int]))
        elif k == 'union0': fields.Union()
        elif k == 'union1': fields.Union(pick([str, int]))
        elif k == 'validators': fields.Any(validators=[pick([None, 'v', 5, ()])])
        elif k == 'deco':
            def v(schema, value, ctx): raise AssertionError
            types.new_class('Odd', (c,), {}, lambda ns: ns.update(v=validate.field('no such field', raw=pick([False, True]))(v)))
        else:
            f = [getattr(c, n) for n in self.fieldnames(c)]
            f = pick(f).copy() if f else fields.Any()
            return f.name if k == 'unbound-name' else f.schema
        return None

    def info(self, f):
        return dict(name=f.name, lk=f.load_key, dk=f.dump_key, req=f.required, none=f.none, frozen=f.frozen,
                    ex=f.extras.get('mine') if f.extras.keys() == {'mine'} else srepr(f.extras), dflt=f.has_default(), owner=f.schema.__name__,
                    dval=['missing' if f.default is None else 'weird'] if not f.has_default() else ['call'] if callable(f.default) else self.enc(f.default))
    def repr(self, o):
        try: t = repr(o)
        except Exception as e: return dict(kind=None, names=srepr(e))
        gen = t.startswith(type(o).__name__ + '(') and t.endswith(')')
        rest = t
        for n in self.fieldnames(type(o)):
            v = o.get_value_for(n, None)
            for x in (sstr(v), srepr(v)):
                if '=' in x: rest = rest.replace(x, '_')
        return dict(kind='gen' if gen else t if t[:1] == '=' else '', names=sorted(n for n in self.fieldnames(type(o)) if gen and re.search(r'(?<!\w)' + re.escape(n) + '=', rest)))

    def lk(self, op):
        try: return getattr(type(self.obj[op['i']]), op['f']).load_key
        except Exception: return op['f']

    def kw(self, op):
        return {} if op['ie'] == 'm' else {'ignore_extra': op['ie'] == 'T'}

    def mapping(self, data, inst, tag, mt):
        d = {V.key(k): self.rz.real(v, inst, f'{tag}.{k}') for k, v in data}
        if self.rng.random() < .1: d = {(V.SubStr(k) if type(k) is str else k): v for k, v in d.items()}
        for v in d.values(): self.watchval(v)
        m = V.MAPTYPES[mt](d)
        self.given = dict(d)
        self.watch.append((m, dict(d)))
        return m

    KEPT = (fields.Any, fields.Dict, fields.List, fields.Set, fields.TypedDict, fields.Object)
    def kept(self, o, data, new=False):
        """Values that are kept as they are given are kept as the very objects."""
        if new and not unhooked(type(o)): return
        for n in self.fieldnames(type(o)):
            f, v = getattr(type(o), n), o.get_value_for(n, UNSET)
            if f.load_key in data:
                x = data[f.load_key]
                if not isinstance(f, self.KEPT) or v is x: continue
                if isinstance(v, oblate.Schema):
                    if not isinstance(x, oblate.Schema) and hasattr(x, 'keys'): self.kept(v, x, True)
                elif self.enc(v) == self.enc(x): note('ident', f'{n} holds another object than the one given')
            elif new and f.has_default() and not callable(f.default) and v is not f.default and self.enc(v) == self.enc(f.default):
                note('dident', f'{n} holds another object than its default')

    def watchval(self, v):
        if isinstance(v, (list, dict, set)) or hasattr(v, 'keys'): self.deep.append((v, self.enc(v)))

    def step(self, op):
        r = Rec.cur = Rec()
        global RUN
        RUN = self
        self.watch, self.deep = [], []
        self.base = ambient()
        res, errs, out, ecls, vsch, txt = 'ok', [], None, None, None, None
        exc = None
        try:
            out = self.do(op)
        except BaseException as e:
            exc = e
            Rec.cur = None
            if hasattr(e, '_boom'): res = e._boom
            elif isinstance(e, oblate.ValidationError): res = 'verr'
            elif isinstance(e, Skip): res = 'skip'
            else:
                res = type(e).__name__
        Rec.cur = None
        settle()
        try:
            o = self.observe(op, r, res, exc, out)
        except Exception as e:
            import traceback
            o = {'res': 'unobservable', 'why': traceback.format_exc()[-600:], 'errs': [], 'evs': [], 'out': None,
                 'ins': {}, 'amb': '?', 'base': '?', 'gcfg': None, 'notes': [], 'inputs': True, 'vsch': '', 'ecls': ''}
        return o

    def observe(self, op, r, res, exc, out):
        o = {'res': res, 'errs': [], 'notes': r.notes + self.latenotes, 'vsch': '', 'ecls': '', 'exc': ''}
        self.latenotes = []
        for x, want in self.errlog[-12:]:
            if not all(a is b or isinstance(a, str) and a == b for a, b in zip(errsnap(x), want)):
                o['notes'].append(['prov', 'an earlier error tells something else now'])
        if res == 'verr':
            root = self.roottag
            self.errlog += [(x, errsnap(x)) for x in exc.errors]
            if self.tag(exc.schema) is None and op['op'] in ('new', 'rt'): self.name(exc.schema, root)
            if op['op'] in ('upd', 'set') or op['op'] == 'new' and unhooked(type(exc.schema)):
                for e in exc.errors:
                    try:
                        if isinstance(e.context, oblate.LoadContext) and (self.base is None or e.context is not self.base[1]) and e.key in self.given and e.context.value is not self.given[e.key]:
                            o['notes'].append(['prov', f'the context of the error of {e.key!r} has another value than was given'])
                    except Exception: pass
            errs = [self.err(e, root) for e in exc.errors]
            said = reported(exc.errors)
            for e in r.made:
                if not any(x is e for x in said): o['notes'].append(['eident', f'the error {e.message!r} is reported by another object'])
            o['vsch'] = self.tag(exc.schema) or '?'
            o['ecls'] = next((k for k, c in ECLS.items() if type(exc) is c), 'weird')
        elif exc is not None and not hasattr(exc, '_boom'):
            o['exc'] = f'{type(exc).__name__}: {sstr(exc)}'[:300]
            if isinstance(exc, oblate.FieldNotSet):
                o['fns'] = [exc.name if exc.name == exc.field_name else [exc.name, exc.field_name], exc.field.name, self.tag(exc.schema) or '?']
            if isinstance(exc, oblate.FrozenError):
                e = exc.entity
                o['entity'] = ['schema', e] if isinstance(e, oblate.Schema) else ['field', e.name, e.schema.__name__]
        ins = self.readback()
        if res == 'verr': o['errs'] = [self.errfix(x) for x in errs]
        if o.get('entity', [''])[0] == 'schema': o['entity'] = ['schema', self.tag(o['entity'][1]) or '?']
        o['evs'] = [self.evout(e) for e in r.evs]
        o['ins'] = ins
        o['out'] = self.outenc(op, out) if res == 'ok' else None
        now = ambient()
        o['base'] = o['amb'] = self.ambient(now)
        if not same_ambient(now, self.base): o['base'] = self.ambient(self.base) + ' (before)'
        g = oblate.config
        o['gcfg'] = [next((k for k, c in ECLS.items() if g.validation_error_cls is c), 'weird'), g.warn_unsupported_types]
        bad = []
        for m, want in self.watch + self.always:
            if isinstance(want, dict):
                if list(m.items()) != list(want.items()) or any(a is not b for a, b in zip(m.values(), want.values())): bad.append(srepr(m)[:60])
            elif list(m) != list(want) or any(a is not b for a, b in zip(m, want)): bad.append(srepr(m)[:60])
        for m, want in self.deep:
            if self.enc(m) != want: bad.append(srepr(m)[:60])
        o['inputs'] = bad
        return o

    def outenc(self, op, out):
        k = op['op']
        if k == 'dump':
            return {kk: self.enc(v) for kk, v in out.items()} if type(out) is dict else ['weird', srepr(out)[:60]]
        if k in ('walk', 'info', 'repr'): return out
        if k == 'get': return self.enc(out)
        return None

    def run(self):
        self.scen_fields = self.scen['flds']
        def go():
            oblate.config = oblate.GlobalConfig()
            return [self.step(op) for op in self.scen['ops']]
        try:
            return contextvars.Context().run(go)
        finally:
            oblate.config = oblate.GlobalConfig()
