"""Python values <-> the encoding of Values.tla."""
import ast, collections, collections.abc, types

class Cmd:
    """A scripted value: `n` selects the row of the outcome tables."""
    __slots__ = ('n', 'u', 'inst')
    def __init__(self, n, u=None, inst=None):
        self.n, self.u, self.inst = n, u, inst
    def __repr__(self):
        return f'Cmd({self.n},{self.u})'

class Wrap:
    """What a scripted field loads ("L") or dumps ("D") from a value."""
    __slots__ = ('t', 'v')
    def __init__(self, t, v):
        self.t, self.v = t, v
    def __repr__(self):
        return f'{self.t}({self.v!r})'

class XBase:
    def __init__(self, s): self.s = s
    def __repr__(self): return f'{type(self).__name__}<{self.s}>'
    def __str__(self): return self.s
class XSub(XBase): pass
class XSub2(XSub): pass
class XOther:
    def __init__(self, s): self.s = s
    def __repr__(self): return f'{type(self).__name__}<{self.s}>'
    def __str__(self): return self.s
class XBad(XOther):
    """Cannot be converted to anything."""
    def __str__(self): raise {'V': ValueError, 'F': KeyError}.get(self.s, RuntimeError)('no text')
    def __int__(self): raise KeyError('no int')
    def __float__(self): raise OverflowError('no float')
class XInt(XOther):
    """Convertible to int and float."""
    def __int__(self): return len(self.s)
    def __float__(self): return float(len(self.s))

class XAny(XOther):
    """Equal to everything, and false."""
    def __eq__(self, o): return True
    def __ne__(self, o): return False
    def __bool__(self): return False
    __hash__ = object.__hash__
class XMis(XOther):
    """Cannot be compared, and is neither true nor false."""
    def __eq__(self, o): raise RuntimeError('compared')
    def __bool__(self): raise RuntimeError('truth asked')
    __hash__ = object.__hash__

class XFroz(frozenset):
    """Like a set, but none."""
    def __new__(cls, s):
        o = super().__new__(cls, s)
        o.s = s
        return o
    __repr__, __str__ = XOther.__repr__, XOther.__str__
class XGen(XOther):
    """Can be iterated over once."""
    it = None
    def __iter__(self): return self
    def __next__(self):
        if self.it is None: self.it = iter(self.s)
        return next(self.it)
class XView(XOther, collections.abc.Set):
    """A set of another kind."""
    def __contains__(self, x): return x in self.s
    def __iter__(self): return iter(self.s)
    def __len__(self): return len(self.s)
    __eq__, __hash__ = object.__eq__, object.__hash__

class SubInt(int): pass
class SubStr(str): pass
class SubFloat(float): pass
class SubList(list): pass
class SubDict(dict): pass
class MapDict(dict): pass
class SubSet(set): pass
class SubTuple(tuple): pass

class MyMapping(collections.abc.Mapping):
    def __repr__(self): return f"MyMapping({self._d!r})"
    def __init__(self, d): self._d = d
    def __getitem__(self, k): return self._d[k]
    def __iter__(self): return iter(self._d)
    def __len__(self): return len(self._d)

XCLS = {c.__name__: c for c in (XBase, XSub, XSub2, XOther, XInt, XBad, XAny, XMis, XFroz, XGen, XView)}
SUBCLS = {c.__name__: c for c in (SubInt, SubStr, SubFloat, SubList, SubDict, SubSet, SubTuple)}
NAMED = {'NoneType': type(None), 'int': int, 'bool': bool, 'float': float, 'str': str, 'bytes': bytes,
         'list': list, 'tuple': tuple, 'set': set, 'dict': dict, 'frozenset': frozenset, 'object': object,
         'complex': complex,
         'Cmd': Cmd, 'Wrap': Wrap, 'mappingproxy': types.MappingProxyType, **XCLS, **SUBCLS}
ANC = {n: [b.__name__ for b in c.__mro__ if b.__name__ in NAMED] for n, c in NAMED.items()}
ANC['Schema'] = ['Schema', 'object']

SCALARS = {'int': int, 'bool': bool, 'float': float, 'str': str, 'bytes': bytes, 'complex': complex}

def scalar_text(o):
    if type(o) is bytes: return o.hex()
    if type(o) is str: return o
    return repr(o)

def scalar(t, s):
    if t == 'bool': return s == 'True'
    if t == 'str': return s
    if t == 'bytes': return bytes.fromhex(s)
    return SCALARS[t](s)

MAPTYPES = {
    'dict': dict, 'ordered': collections.OrderedDict, 'userdict': collections.UserDict,
    'proxy': lambda d: types.MappingProxyType(dict(d)), 'my': lambda d: MyMapping(dict(d)),
    'subdict': MapDict, 'chain': lambda d: collections.ChainMap(dict(d)), 'default': lambda d: collections.defaultdict(list, d),
}

class Realizer:
    def __init__(self, getobj=None):
        self.getobj = getobj or (lambda i: None)
        self.xs = {}

    def real(self, v, inst=None, tag=None):
        """inst: id of the instance the value is given to; tag: prefix of the
        ids of nested instances."""
        t = v[0]
        if t == 'none': return None
        if t == 'c': return Cmd(v[1], v[2] if len(v) > 2 else None, inst)
        if t in ('L', 'D'): return Wrap(t, self.real(v[1], inst, tag))
        if t in SCALARS: return scalar(t, v[1])
        if t == 'x':
            k = (v[1], v[2])
            if k not in self.xs: self.xs[k] = XCLS[v[1]](v[2])
            return self.xs[k]
        if t == 'sub': return SUBCLS[v[1]](self.real(v[2], inst, tag))
        if t == 'list': return [self.real(e, inst, tag) for e in v[1]]
        if t == 'tuple': return tuple(self.real(e, inst, tag) for e in v[1])
        if t == 'set': return {self.real(e, inst, tag) for e in v[1]}
        if t == 'dict': return {self.real(k, inst, tag): self.real(e, inst, tag) for k, e in v[1]}
        if t == 'mp': return MAPTYPES[v[2] if len(v) > 2 else 'proxy']({self.real(k, inst, tag): self.real(e, inst, tag) for k, e in v[1]})
        if t == 'map':
            d = {key(k): self.real(e, tag, f'{tag}.{k}') for k, e in v[1]}
            return MAPTYPES[v[2] if len(v) > 2 else 'dict'](d)
        if t == 'obj': return self.getobj(v[1])
        raise ValueError(f'cannot realize {v!r}')

def key(k):
    """The key of a mapping: a string, or another object written in ‹›."""
    return ast.literal_eval(k[1:-1]) if k[:1] == '‹' else k
def keyname(k):
    return k if isinstance(k, str) else f'‹{k!r}›'

def encode(o, objtag=None):
    """Never fails: anything unexpected is ["weird", ..]."""
    try:
        return _encode(o, objtag, 0)
    except Exception as e:
        return ['weird', type(o).__name__, repr(e)[:60]]

def _encode(o, objtag, depth):
    if depth > 12: return ['weird', 'deep']
    t = type(o)
    enc = lambda x: _encode(x, objtag, depth + 1)
    if o is None: return ['none']
    if t is Cmd: return ['c', o.n] if o.u is None else ['c', o.n, o.u]
    if t is Wrap: return [o.t, enc(o.v)]
    if t.__name__ in SCALARS and t is SCALARS[t.__name__]: return [t.__name__, scalar_text(o)]
    if t.__name__ in XCLS and t is XCLS[t.__name__]: return ['x', t.__name__, o.s]
    if t.__name__ in SUBCLS and t is SUBCLS[t.__name__]:
        base = next(b for b in t.__mro__[1:] if b in (int, str, float, list, dict, set, tuple))
        return ['sub', t.__name__, enc(base(o))]
    if t is list: return ['list', [enc(x) for x in o]]
    if t is tuple: return ['tuple', [enc(x) for x in o]]
    if t is set: return ['set', sorted([enc(x) for x in o], key=repr)]
    if t is dict: return ['dict', sorted([[enc(k), enc(v)] for k, v in o.items()], key=repr)]
    if isinstance(o, collections.abc.Mapping): return ['mp', sorted([[enc(k), enc(v)] for k, v in o.items()], key=repr)]
    if objtag is not None:
        r = objtag(o)
        if r is not None: return r
    return ['weird', t.__name__, repr(o)[:60]]

def canon(v):
    """Canonical form of an encoded value (either side)."""
    t = v[0]
    if t == 'map':
        return ['dict', sorted([[encode(key(k)), canon(e)] for k, e in v[1]], key=repr)]
    if t in ('dict', 'mp'): return ['dict', sorted([[canon(k), canon(e)] for k, e in v[1]], key=repr)]
    if t == 'set': return ['set', sorted({repr(x): x for x in (canon(e) for e in v[1])}.values(), key=repr)]
    if t in ('list', 'tuple'): return [t, [canon(e) for e in v[1]]]
    if t in ('L', 'D'): return [t, canon(v[1])]
    if t == 'sub': return ['sub', v[1], canon(v[2])]
    if t == 'dumped': return ['dumped', {k: canon(e) for k, e in (v[1] or {}).items()}] if v[1] else ['dumped', {}]
    return list(v)
