"""Values of the symbolic machine."""
import itertools
from fractions import Fraction
from .term import *      # noqa
from . import term as T

_born = itertools.count(1)


def born():
    return next(_born)


class Env(dict):
    __slots__ = ('born', 'parent')

    def __init__(self, parent=None):
        super().__init__()
        self.born = born()
        self.parent = parent


class Poison:
    """Value of a variable that the loop body has to write before it reads it."""

    def __init__(self, loc):
        self.loc = loc


class PoisonRead(Exception):
    def __init__(self, loc):
        self.loc = loc


class Store:
    """Contents of an array: fn(list of index terms) -> P or B."""

    def __init__(self, fn, owner=None):
        self.fn, self.owner, self.born = fn, owner, born()


class SArr:
    """numpy array with symbolic shape.  axes: tuple of tuples of component lengths (a flattened axis keeps its
    components, row major); index lists are flat over all components."""

    def __init__(self, axes, fn=None, dtype='f', store=None, vmap=None, meta=None):
        self.axes = tuple(tuple(num(d) for d in ax) for ax in axes)
        self.store = store if store is not None else Store(fn)
        if vmap is None:
            self.store.arity = sum(len(ax) for ax in self.axes)
        self.vmap, self.dtype = vmap, dtype
        self.meta = meta or {}
        if 'rep' in self.meta or 'mask' in self.meta:
            self.meta['rep_fn'] = self.store.fn        # the sequence is that of these contents, not of later ones

    def listrep(self):
        """The array as a sequence representation, while its contents are those it was made with."""
        if self.vmap is None and 'rep' in self.meta and self.meta['rep_fn'] is self.store.fn:
            return self.meta['rep']
        return None

    def maskrep(self):
        """The mask whose true positions this array lists, while it still does."""
        if self.vmap is None and 'mask' in self.meta and self.meta['rep_fn'] is self.store.fn:
            return self.meta['mask']
        return None

    def keep(self, *names):
        return {k: x for k, x in self.meta.items() if k in names and (k != 'rep' or self.listrep() is not None)}

    @property
    def ndim(self):
        return len(self.axes)

    def getter(self):
        """The present contents as a pure function of the index list."""
        fn, vmap = self.store.fn, self.vmap
        if isinstance(fn, Poison):
            raise PoisonRead(fn.loc)
        return fn if vmap is None else (lambda idx: fn(vmap(idx)))

    def at(self, *idx):
        return self.getter()(list(idx))

    def dims(self):
        return [axlen(ax) for ax in self.axes]

    def comps(self):
        return [d for ax in self.axes for d in ax]

    def fresh_idx(self):
        return [fresh('k', 'i') for _ in self.comps()]

    def range_conds(self, idx):
        out = []
        for v, n in zip(idx, self.comps()):
            out += [le(0, v), lt(v, n)]
        return [c for c in out if c is not TRUE]


def axlen(ax):
    n = ONE
    for d in ax:
        n = n * d
    return n


def simple(*dims):
    return tuple((num(d), ) for d in dims)


class Seq:
    """Immutable symbolic sequence."""

    def __init__(self, n, get):
        self.n, self.get = num(n), get
        self.arr = None          # the array whose elements these are, in its own axes


class PyList:
    """rep: ('items', [values]) | ('seq', Seq) | ('filt', n, cond(k), val(k)) | ('cat', [reps]) | ('hole', key, length)"""

    def __init__(self, rep, owner=None):
        self.rep, self.owner, self.born = rep, owner, born()

    @staticmethod
    def of(items):
        return PyList(('items', list(items)))


class PySet:
    """A set that is only asked what is in it."""

    def __init__(self, rep):
        self.rep = rep


class PyDict:
    def __init__(self, items, owner=None, rest=None):
        self.items, self.owner, self.born = Env(), owner, born()
        self.items.update(items)
        self.rest = rest            # opaque remainder: a mapping nothing is known about (an Opq) or None


class Obj:
    def __init__(self, cls, attrs=None, owner=None, lazy=None):
        self.cls, self.attrs, self.owner, self.born = cls, Env(), owner, born()
        self.attrs.update(attrs or {})
        self.lazy = lazy            # function(name) -> value for attributes of a symbolic object
        self.assumed = False        # state given by a contract, not by running the constructor


class Cls:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod
        self.qual = name

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, Cls):
                if name in c.ns:
                    return c.ns[name], c
            else:
                return None, c       # external base class
        return None, None

    def __repr__(self):
        return f'<class {self.name}>'


class Func:
    def __init__(self, node, env, mod, name, cls=None, kind='function'):
        self.node, self.env, self.mod, self.name, self.cls, self.kind = node, env, mod, name, cls, kind
        self.defaults = None

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return f'<function {self.qual}>'


class Bound:
    def __init__(self, func, self_, cls):
        self.func, self.self_, self.cls = func, self_, cls


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<builtin {self.name}>'


class Mod:
    def __init__(self, name, attrs=None, fallback=None):
        self.name, self.attrs, self.fallback = name, attrs or {}, fallback


class Opq:
    """Value of an opaque external object: a term of sort 'o', with a type tag for attribute models."""

    def __init__(self, term, tag='obj'):
        self.term, self.tag = term, tag


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ExcV:
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class RaiseEx(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class ContinueEx(Exception):
    pass


class BreakEx(Exception):
    pass


NEWAXIS = None


def is_num(v):
    return isinstance(v, (int, Fraction, P)) and not isinstance(v, bool)


def tidy(p):
    """Constants back to Python numbers."""
    if isinstance(p, P) and p.is_const():
        c = p.const()
        return int(c) if c.denominator == 1 else c
    if p is TRUE:
        return True
    if p is FALSE:
        return False
    return p


def rep_len(rep):
    k = rep[0]
    if k == 'items':
        return num(len(rep[1]))
    if k == 'seq':
        return rep[1].n
    if k == 'filt':
        v = fresh('c', 'i')
        return Sum(v, rep[1], ite(rep[2](v), ONE, ZERO))
    if k == 'cat':
        n = ZERO
        for r in rep[1]:
            n = n + rep_len(r)
        return n
    if k == 'hole':
        if rep[2] is None:
            raise Unsupported('length of a list that grows conditionally')
        return rep[2]
    raise AssertionError(k)


def cat(*reps):
    out = []
    for r in reps:
        if r[0] == 'cat':
            out += r[1]
        elif r[0] == 'items' and not r[1]:
            continue
        elif r[0] == 'items' and out and out[-1][0] == 'items':
            out[-1] = ('items', out[-1][1] + r[1])
        else:
            out.append(r)
    if not out:
        return ('items', [])
    return out[0] if len(out) == 1 else ('cat', out)


# ------------------------------------------------------------------------------------------------------------------
# substitution in values (instances of a family), merging along two paths
# ------------------------------------------------------------------------------------------------------------------
# an instance of a family of objects stands for an object that may be reachable from elsewhere too (the list it was taken
# from, the iteration that made it): writing to it is outside the machine
INSTANCE = 'something made in a loop'


def instance(v, mark, memo=None):
    """The element of a symbolic sequence: what was made for this access is one more description of an object that exists already."""
    if isinstance(v, tuple):
        for x in v:
            instance(x, mark, memo)
        return v
    if isinstance(v, SArr):
        if v.store.born > mark and v.store.owner is None:
            v.store.owner = '?an element of a list'
        return v
    if not isinstance(v, (PyList, PyDict, Obj)):
        return v
    memo = set() if memo is None else memo
    if id(v) in memo or v.born <= mark:
        return v
    memo.add(id(v))
    if v.owner is None:
        v.owner = '?an element of a list'
    for x in (v.rep[1] if isinstance(v, PyList) and not isinstance(v.rep, Poison) and v.rep[0] == 'items' else v.items.values() if isinstance(v, PyDict) else v.attrs.values() if isinstance(v, Obj) else ()):
        instance(x, mark, memo)
    return v


def vsubst(v, sub, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, (P, B)):
        return tidy(subst(v, sub))
    if isinstance(v, SArr):
        g = v.getter()
        new = SArr([[subst(d, sub) for d in ax] for ax in v.axes], lambda idx: subst(g([x if isinstance(x, P) else num(x) for x in idx]), sub), v.dtype, meta=v.keep('itemsize'))
        new.store.owner = '?' + (v.store.owner or INSTANCE).lstrip('?')
        return new
    if isinstance(v, tuple):
        return tuple(vsubst(x, sub, memo) for x in v)
    if isinstance(v, Opq):
        return Opq(subst(v.term, sub), v.tag)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, PyList):
        new = PyList(None, owner='?' + (v.owner or INSTANCE).lstrip('?'))
        memo[id(v)] = new
        new.rep = rsubst(v.rep, sub, memo)
        return new
    if isinstance(v, PyDict):
        new = PyDict({}, owner='?' + (v.owner or INSTANCE).lstrip('?'), rest=v.rest)
        memo[id(v)] = new
        new.items = {k: vsubst(x, sub, memo) for k, x in v.items.items()}
        return new
    if isinstance(v, Obj):
        new = Obj(v.cls, owner='?' + (v.owner or INSTANCE).lstrip('?'), lazy=(lambda nm: vsubst(v.lazy(nm), sub)) if v.lazy else None)
        memo[id(v)] = new
        for k, x in v.attrs.items():
            new.attrs[k] = vsubst(x, sub, memo)
        return new
    return v


def rsubst(rep, sub, memo):
    k = rep[0]
    if k == 'items':
        return ('items', [vsubst(x, sub, memo) for x in rep[1]])
    if k == 'seq':
        s = rep[1]
        return ('seq', Seq(subst(s.n, sub), lambda i: vsubst(s.get(i), sub)))
    if k == 'filt':
        return ('filt', subst(rep[1], sub), lambda i: subst(rep[2](i), sub), lambda i: vsubst(rep[3](i), sub))
    if k == 'cat':
        return ('cat', [rsubst(r, sub, memo) for r in rep[1]])
    return rep


def merge(c, a, b):
    """Value that is a when c holds and b otherwise."""
    if a is b:
        return a
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return tidy(ite(c, boolc(a), boolc(b)))
    if is_num(a) and is_num(b):
        return tidy(ite(c, num(a), num(b)))
    if isinstance(a, SArr) and isinstance(b, SArr) and [len(x) for x in a.axes] == [len(x) for x in b.axes]:
        if all(p is q for p, q in zip(a.comps(), b.comps())):
            ga, gb = a.getter(), b.getter()
            new = SArr(a.axes, lambda idx: ite(c, ga(idx), gb(idx)), max(a.dtype, b.dtype, key='bif'.find))
            new.store.owner = '?' + (a.store.owner or b.store.owner or 'one of two arrays').lstrip('?')
            return new
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Opq) and isinstance(b, Opq):
        t = ite_o(c, a.term, b.term)
        return Opq(t, a.tag if a.tag == b.tag else 'obj')
    if type(a) is type(b) and not isinstance(a, (Obj, PyList, PyDict, SArr)) and a == b:
        return a
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and set(a.attrs) == set(b.attrs) and not a.lazy and not b.lazy:
        return Obj(a.cls, {k: merge(c, a.attrs[k], b.attrs[k]) for k in a.attrs}, owner='?' + (a.owner or b.owner or 'one of two objects').lstrip('?'))
    raise Unsupported(f'cannot merge {type(a).__name__} and {type(b).__name__} from two paths')


def ite_o(c, a, b):
    if a is b:
        return a
    return of_atom(mkatom('ite', (c, a, b), 'o')) if c not in (TRUE, FALSE) else (a if c is TRUE else b)


# ------------------------------------------------------------------------------------------------------------------
# values as arguments of uninterpreted functions
# ------------------------------------------------------------------------------------------------------------------
def toarg(v):
    if isinstance(v, (P, B)):
        return v
    if v is None or isinstance(v, (bool, str, bytes)):
        return K(v)
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, Opq):
        return v.term
    if isinstance(v, SArr):
        idx = v.fresh_idx()
        body = v.at(*idx)
        if not idx:
            return body
        return mklam(idx, v.comps(), body, 'arr' + ','.join(str(len(ax)) for ax in v.axes))
    if isinstance(v, tuple):
        return app('tuple', *[toarg(x) for x in v], sort='o')
    if isinstance(v, PyList):
        return reparg(v.rep)
    if isinstance(v, PyDict):
        args = []
        for k in sorted(v.items, key=str):
            args += [K(k), toarg(v.items[k])]
        if v.rest is not None:
            args.append(v.rest.term)
        return app('dict', *args, sort='o')
    if isinstance(v, Obj):
        args = []
        for k in sorted(v.attrs):
            args += [K(k), toarg(v.attrs[k])]
        if v.lazy:
            raise Unsupported('symbolic object as an argument')
        return app('obj:' + cls_name(v.cls), *args, sort='o')
    if isinstance(v, Func):
        if v.env is not None and v.env.parent is not None:
            raise Unsupported('closure as an argument of an opaque function')
        return K('function ' + v.qual)
    if isinstance(v, (Cls, Builtin, Mod)):
        return K(repr(v))
    if isinstance(v, SliceV):
        return app('slice', *[toarg(x) for x in (v.lo, v.hi, v.step)], sort='o')
    if isinstance(v, Bound):
        raise Unsupported('bound method as an argument of an opaque function')
    raise Unsupported(f'argument of type {type(v).__name__}')


def cls_name(c):
    return c.name if isinstance(c, Cls) else str(c)


def reparg(rep):
    k = rep[0]
    if k == 'items':
        return app('list', *[toarg(x) for x in rep[1]], sort='o')
    if k == 'seq':
        i = fresh('l', 'i')
        return mklam([i], [rep[1].n], toarg(rep[1].get(i)), 'list')
    if k == 'filt':
        i = fresh('l', 'i')
        body = toarg(rep[3](i))
        return app('filtered', mklam([i], [rep[1]], rep[2](i), 'cond'), mklam([i], [rep[1]], body, 'list'), sort='o')
    if k == 'cat':
        return app('cat', *[reparg(r) for r in rep[1]], sort='o')
    return app(rep[1] + '_list', sort='o')
