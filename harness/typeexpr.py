"""Type expressions of TypeExpr.tla -> real type expressions."""
import typing as t, collections.abc
import typing_extensions as te
from . import values as V

class UnsupA: pass
class UserGeneric(t.Generic[t.TypeVar('UT')]): pass
class UserProtocol(t.Protocol):
    def method(self): ...
class UserProtocolA(t.Protocol):
    attribute: int
UNSUP = {
    'FrozenSet': lambda: t.FrozenSet[int], 'Iterable': lambda: t.Iterable[int], 'Deque': lambda: t.Deque[int],
    'Callable': lambda: t.Callable[[int], int], 'Type': lambda: t.Type[int], 'NewType': lambda: NEWT, 'TypeVar': lambda: TV,
    'Annotated': lambda: te.Annotated[int, 1], 'frozenset': lambda: frozenset[int], 'Iterator': lambda: t.Iterator[str],
    'Protocol': lambda: UserProtocol, 'ProtocolA': lambda: UserProtocolA, 'UserGeneric': lambda: UserGeneric[int], 'Self': lambda: te.Self,
    'Never': lambda: te.Never, 'Alias': lambda: ALIAS, 'Hashable': lambda: t.Hashable, 'Collection': lambda: t.Collection[int],
    'AbstractSet': lambda: t.AbstractSet[int], 'OrderedDict': lambda: t.OrderedDict[str, int], 'Pattern': lambda: t.Pattern[str],
    'BareCallable': lambda: t.Callable, 'LiteralString': lambda: te.LiteralString,
    'NewType2': lambda: Again.NEWT, 'TypeVar2': lambda: Again.TV, 'Protocol2': lambda: Again.UserProtocol, 'Alias2': lambda: Again.ALIAS,
    'MutableMapping': lambda: t.MutableMapping[str, int], 'DefaultDict': lambda: t.DefaultDict[str, int],
}
class Again:
    """Other types with the names of those above."""
    class UserProtocol(t.Protocol):
        def other(self): ...
    NEWT = t.NewType('NEWT', str)
    TV = t.TypeVar('TV', bound=str)
    ALIAS = te.TypeAliasType('ALIAS', str)
NEWT = t.NewType('NEWT', int)
TV = t.TypeVar('TV')
ALIAS = te.TypeAliasType('ALIAS', int)

class Types:
    def __init__(self, env, style=0):
        self.env, self.td, self.style = env, {}, style
        self.rz = V.Realizer()

    def typeddict(self, n):
        if n not in self.td:
            d = self.env['td'][n]
            ann = {k: self.real(tp) for k, tp in d['body']}
            bases = tuple(self.typeddict(b) for b in d['bases'])
            mod = te if d.get('te') else t
            if bases:
                ns = {'__annotations__': ann, '__module__': __name__}
                import types
                self.td[n] = types.new_class(n, bases, {'total': d['total']}, lambda x: x.update(ns))
            else:
                self.td[n] = mod.TypedDict(n, ann, total=d['total'])
        return self.td[n]

    def real(self, tp):
        k = tp[0]
        r = self.real
        pep = len(tp) > 1 and tp[-1] == 'pep'      # builtin generics / X | Y
        bare = len(tp) > 1 and tp[-1] == 'bare'
        if k == 'any': return t.Any
        if k == 'cls': return None if tp[-1] == 'lit' else V.NAMED[tp[1]]
        if k == 'lit': return t.Literal.__getitem__(tuple(self.rz.real(v) for v in tp[1]))
        if k == 'union':
            xs = [r(x) for x in tp[1]]
            if pep:
                try:
                    u = xs[0]
                    for x in xs[1:]: u = u | x
                    return u
                except TypeError: pass
            if len(xs) == 2 and xs[1] is type(None): return t.Optional[xs[0]]
            return t.Union.__getitem__(tuple(xs))
        if k == 'list': return t.List if bare else list[r(tp[1])] if pep else t.List[r(tp[1])]
        if k == 'set': return t.Set if bare else set[r(tp[1])] if pep else t.Set[r(tp[1])]
        if k == 'seq': return t.Sequence if bare else collections.abc.Sequence[r(tp[1])] if pep else t.Sequence[r(tp[1])]
        if k == 'tupv': return tuple[r(tp[1]), ...] if pep else t.Tuple[r(tp[1]), ...]
        if k == 'tupany': return t.Tuple
        if k == 'tup': return (tuple if pep else t.Tuple)[tuple(r(x) for x in tp[1])]
        if k == 'dict': return t.Dict if bare else dict[r(tp[1]), r(tp[2])] if pep else t.Dict[r(tp[1]), r(tp[2])]
        if k == 'mapping': return t.Mapping if bare else collections.abc.Mapping[r(tp[1]), r(tp[2])] if pep else t.Mapping[r(tp[1]), r(tp[2])]
        if k == 'td': return self.typeddict(tp[1])
        if k == 'req': return te.Required[r(tp[1])]
        if k == 'nreq': return te.NotRequired[r(tp[1])]
        if k == 'unsup': return UNSUP[tp[1]]()
        raise ValueError(k)
