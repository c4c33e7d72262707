"""Terms of the verifier: polynomials with rational coefficients over hash-consed atoms, booleans, bounded sums.

Machine floats are treated as reals and machine integers as mathematical integers; a decimal literal is the rational it
spells.  Division by zero is excluded (x/x normalises to 1); both are stated in the trusted base.
"""
from fractions import Fraction
import itertools, math

_ids = itertools.count(1)
_fresh = itertools.count(1)
EMPTY = frozenset()


class Unsupported(Exception):
    """The construct is outside the verifier's subset: undecided, never a violation."""


# ------------------------------------------------------------------------------------------------------------------
class Atom:
    __slots__ = ('kind', 'data', 'id', 'sort', 'fv', 'h', 'heads', 'lo')

    def __repr__(self):
        return show_atom(self)


_atoms = {}


def _fvs(*xs):
    s = EMPTY
    for x in xs:
        s = s | x.fv
    return s


def _los(xs):
    """Bound levels that occur loose."""
    s = EMPTY
    for x in xs:
        if x.lo:
            s = s | x.lo
    return s


def _hmax(*xs):
    return max([x.h for x in xs], default=0)


def mkatom(kind, data, sort):
    key = (kind, data, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.data, a.sort, a.id = kind, data, sort, next(_ids)
        parts = atom_parts(kind, data)
        a.fv = _fvs(*parts)
        a.h = _hmax(*parts)
        a.heads = frozenset().union(*[p.heads for p in parts]) if parts else EMPTY
        a.lo = frozenset([data]) if kind == 'bound' else _los(parts)
        if kind == 'sum':
            a.lo = a.lo - frozenset(range(data[0], data[0] + len(data[1])))
        if kind == 'var':
            a.fv = frozenset([a])
        elif kind == 'sum':
            a.h = max(a.h, bound_top(data)) 
        elif kind == 'app':
            a.heads = a.heads | {data[0]}
        _atoms[key] = a
    return a


def bound_top(data):
    """1 + the largest de Bruijn level bound by this binder (levels are assigned by height)."""
    base, bounds, body = data
    return base + len(bounds)


def atom_parts(kind, data):
    if kind in ('var', 'bound'):
        return []
    if kind == 'app':
        return list(data[1])
    if kind in ('floor', 'inv'):
        return [data]
    if kind == 'ite':
        return list(data)
    if kind == 'sum':
        return list(data[1]) + [data[2]]
    raise AssertionError(kind)


class P:
    """Polynomial: tuple of (monomial, Fraction); monomial = tuple of (atom, exponent) sorted by atom id."""
    __slots__ = ('t', 'id', 'fv', 'h', 'heads', '_int', 'lo')

    def __add__(self, o):
        o = num(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t:
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return mkP(d)
    __radd__ = __add__

    def __neg__(self):
        return mkP({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-num(o))

    def __rsub__(self, o):
        return num(o) + (-self)

    def __mul__(self, o):
        o = num(o)
        if o.is_const():
            k = o.const()
            return mkP({m: c * k for m, c in self.t} if k else {})
        if self.is_const():
            return o * self
        if len(self.t) * len(o.t) > 40000:
            raise Unsupported('polynomial too large')
        d = {}
        extra = ZERO
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m, rest = mulmono(m1, m2)
                if rest is None:
                    v = d.get(m, 0) + c1 * c2
                    if v:
                        d[m] = v
                    else:
                        d.pop(m, None)
                else:
                    extra = extra + mkP({m: c1 * c2}) * rest
        return mkP(d) + extra
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * recip(num(o))

    def __rtruediv__(self, o):
        return num(o) * recip(self)

    def __pow__(self, k):
        if isinstance(k, P):
            if not k.is_const():
                return app('pow', self, k)
            k = k.const()
        if k == Fraction(1, 2):
            return sqrt(self)
        if k != int(k):
            return app('pow', self, num(k))
        k = int(k)
        if k < 0:
            return recip(self) ** (-k)
        r = ONE
        for _ in range(k):
            r = r * self
        return r

    def is_const(self):
        return not self.t or (len(self.t) == 1 and not self.t[0][0])

    def const(self):
        return self.t[0][1] if self.t else Fraction(0)

    def is_int(self):
        if self._int is None:
            self._int = all(c.denominator == 1 and all(a.sort == 'i' and e > 0 for a, e in m) for m, c in self.t)
        return self._int

    def atoms(self):
        return {a for m, _ in self.t for a, _ in m}

    def __repr__(self):
        return show(self)


_polys = {}


def mkP(d):
    t = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    p = _polys.get(t)
    if p is None:
        p = P()
        p.t = t
        p.id = next(_ids)
        ats = p.atoms()
        p.fv = _fvs(*ats)
        p.h = _hmax(*ats)
        p.heads = frozenset().union(*[a.heads for a in ats]) if ats else EMPTY
        p._int = None
        p.lo = _los(ats)
        _polys[t] = p
    return p


def num(x):
    if type(x) is P:
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = Fraction(repr(x))
    if isinstance(x, (int, Fraction)):
        return mkP({(): Fraction(x)} if x else {})
    raise Unsupported(f'not a number: {type(x).__name__}')


def of_atom(a, e=1):
    return mkP({((a, e), ): Fraction(1)})


ZERO = mkP({})
ONE = num(1)


def mulmono(m1, m2):
    """Product of two monomials; sqrt(x)^2 is returned as a remaining polynomial factor."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    rest = None
    for a in list(d):
        if a.kind == 'app' and a.data[0] == 'sqrt' and abs(d[a]) >= 2:
            k = int(d[a] / 2)
            r = a.data[1][0] ** k
            rest = r if rest is None else rest * r
            d[a] -= 2 * k
            if not d[a]:
                d.pop(a)
        elif a.kind == 'inv' and d[a] < 0:
            r = a.data ** (-d[a])
            rest = r if rest is None else rest * r
            d.pop(a)
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id)), rest


def recip(p):
    if not p.t:
        raise Unsupported('division by the constant zero')
    if len(p.t) == 1:
        m, c = p.t[0]
        out = num(1 / c)
        for a, e in m:
            if a.kind == 'inv':
                out = out * (a.data ** e)
            else:
                out = out * of_atom(a, -e)
        return out
    # pull out the common monomial content and the leading coefficient
    common = None
    for m, _ in p.t:
        s = dict(m)
        common = s if common is None else {a: min(e, s[a]) if (e > 0) == (s[a] > 0) and e > 0 else 0 for a, e in common.items() if a in s}
    common = {a: e for a, e in common.items() if e}
    if common:
        cm = mkP({tuple(sorted(common.items(), key=lambda ae: ae[0].id)): Fraction(1)})
        return recip(cm) * recip(p * recip(cm))
    lead = p.t[0][1]
    q = p * (1 / lead)
    return of_atom(mkatom('inv', q, 'r')) * (1 / lead)


# ------------------------------------------------------------------------------------------------------------------
def var(name, sort='r'):
    return of_atom(mkatom('var', name, sort))


def fresh(name, sort='r'):
    return var(f'{name}!{next(_fresh)}', sort)


def atom_of(p):
    """The atom of a polynomial that is exactly one atom, else None."""
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1:
        return p.t[0][0][0][0]
    return None


class K:
    """Constant that is not a number (text, None, ...), as an argument of an uninterpreted function."""
    __slots__ = ('v', 'id', 'fv', 'h', 'heads', 'lo')
    _tab = {}

    def __new__(cls, v):
        key = (type(v).__name__, v)
        k = cls._tab.get(key)
        if k is None:
            k = object.__new__(cls)
            k.v, k.id, k.fv, k.h, k.heads, k.lo = v, next(_ids), EMPTY, 0, EMPTY, EMPTY
            cls._tab[key] = k
        return k

    def __repr__(self):
        return repr(self.v)


class Lam:
    """Array or list as an argument: dims (outermost first) and the element, with bound variables by level."""
    __slots__ = ('base', 'dims', 'body', 'id', 'fv', 'h', 'heads', 'tag', 'sorts', 'lo')
    _tab = {}

    def __repr__(self):
        return f'λ{list(self.dims)}.{self.body!r}'


def bound(k, sort='i'):
    return of_atom(mkatom('bound', k, sort))


def mklam(vars_, dims, body, tag=''):
    dims = tuple(num(d) for d in dims)
    h = max([body.h] + [d.h for d in dims] + [0])
    sorts = tuple(atom_of(v).sort for v in vars_)
    sub = {atom_of(v): bound(h + i, s) for i, (v, s) in enumerate(zip(vars_, sorts))}
    body2 = subst(body, sub)
    key = (h, tuple(d.id for d in dims), body2.id, tag, sorts)
    l = Lam._tab.get(key)
    if l is None:
        l = object.__new__(Lam)
        l.base, l.dims, l.body, l.id, l.tag, l.sorts = h, dims, body2, next(_ids), tag, sorts
        l.fv = _fvs(body2, *dims)
        l.h = h + len(dims)
        l.heads = frozenset().union(body2.heads, *[d.heads for d in dims])
        l.lo = _los((body2, ) + dims) - frozenset(range(h, h + len(dims)))
        Lam._tab[key] = l
    return l


def open_lam(l, idx=None):
    idx = idx or [fresh('k', s) for s in l.sorts]
    return idx, subst_raw(l.body, {mkatom('bound', l.base + i, l.sorts[i]): num(v) for i, v in enumerate(idx)})


# ------------------------------------------------------------------------------------------------------------------
def app(head, *args, sort='r'):
    args = tuple(conv_arg(a) for a in args)
    s = SIMPLIFY.get(head)
    if s is not None:
        r = s(*args)
        if r is not None:
            return r
    return of_atom(mkatom('app', (head, args), sort))


def conv_arg(a):
    if isinstance(a, (P, B, K, Lam)):
        return a
    if isinstance(a, (bool, )) or a is None or isinstance(a, (str, bytes)):
        return K(a)
    return num(a)


def _simp_exp(x):
    return ONE if not x.t else None


def _periodic(head, zero):
    """cos and sin do not change when whole turns are added."""
    def simp(x):
        if not x.t:
            return zero
        pi = atom_of(var('const:pi'))
        keep, drop = {}, False
        for m, c in x.t:
            d = dict(m)
            if d.get(pi) == 1 and c % 2 == 0 and all(a.sort == 'i' and e > 0 for a, e in m if a is not pi):
                drop = True
            else:
                keep[m] = c
        return app(head, mkP(keep)) if drop else None
    return simp


def _simp_count(l):
    if len(l.dims) != 1:
        return None
    (v, ), body = open_lam(l)
    return Sum(v, l.dims[0], ite(body, ONE, ZERO))


def _simp_round6(x):
    if x.is_int():
        return x
    if x.is_const():
        return num(Fraction(round(x.const() * 10**6), 10**6))
    return None


def _simp_abs(x):
    return num(abs(x.const())) if x.is_const() else None


SIMPLIFY = {'count': _simp_count, 'round6': _simp_round6, 'exp': _simp_exp, 'abs': _simp_abs,
            'cos': _periodic('cos', ONE), 'sin': _periodic('sin', ZERO)}


def sqrt(p):
    if p.is_const():
        c = p.const()
        if c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return num(Fraction(n, d))
    return app('sqrt', p)


def floor(p):
    p = num(p)
    if p.is_const():
        return num(math.floor(p.const()))
    ip, rp = {}, {}
    for m, c in p.t:
        if all(a.sort == 'i' and e > 0 for a, e in m):
            k = math.floor(c)
            if k:
                ip[m] = Fraction(k)
            if c - k:
                rp[m] = c - k
        else:
            rp[m] = c
    base = mkP(ip)
    r = mkP(rp)
    if not r.t:
        return base
    if r.is_const():
        return base + math.floor(r.const())
    return base + of_atom(mkatom('floor', r, 'i'))


def trunc(p, nonneg=False):
    p = num(p)
    if p.is_int():
        return p
    if p.is_const():
        return num(int(p.const()))
    if nonneg:
        return floor(p)
    return ite(le(0, p), floor(p), -floor(-p))


def mod(a, b):
    a, b = num(a), num(b)
    return a - b * floor(a / b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, B) or isinstance(b, B):
        a, b = (x if isinstance(x, B) else boolc(x) for x in (a, b))
        return disj(conj(c, a), conj(neg(c), b))
    a, b = num(a), num(b)
    if a is b:
        return a
    if c.kind == 'not':
        return ite(c.data[0], b, a)
    # nested with the same condition
    a = collapse(a, c, True)
    b = collapse(b, c, False)
    if a is b:
        return a
    srt = 'i' if a.is_int() and b.is_int() else 'r'
    return of_atom(mkatom('ite', (c, a, b), srt))


def collapse(p, c, val):
    for a in list(p.atoms()):
        if a.kind == 'ite' and a.data[0] is c:
            return collapse(subst_atom(p, a, a.data[1] if val else a.data[2]), c, val)
    return p


def subst_atom(p, a, new):
    out = ZERO
    for m, c in p.t:
        q = num(c)
        for x, e in m:
            if x is a:
                q = q * (new ** e)
            else:
                q = q * of_atom(x, e)
        out = out + q
    return out


# ------------------------------------------------------------------------------------------------------------------
# sums
# ------------------------------------------------------------------------------------------------------------------
CONST_SUM = 12


def Sum(v, n, body):
    """sum of body for v = 0 .. n-1 (v a variable polynomial)."""
    n, body = num(n), num(body)
    va = atom_of(v)
    if n.is_const():
        k = n.const()
        if k <= 0:
            return ZERO
        if k <= CONST_SUM:
            out = ZERO
            for i in range(int(k)):
                out = out + subst(body, {va: num(i)})
            return out
    body = _in_range(body, va, (le(0, v), lt(v, n)))
    out = ZERO
    for m, c in body.t:
        dl = _delta(v, va, n, m)
        if dl is not None:
            out = out + num(c) * dl
            continue
        dep, ind = {}, {}
        for a, e in m:
            (dep if va in a.fv else ind)[a] = e
        k = mkP({tuple(sorted(ind.items(), key=lambda ae: ae[0].id)): c})
        if not dep:
            out = out + k * n
        else:
            out = out + k * _msum([(v, n)], dep)
    return out


def _in_range(p, va, known):
    """Conditions that restate the range of the summation index hold inside the sum."""
    for a in list(p.atoms()):
        if a.kind == 'ite' and va in a.data[0].fv:
            c = a.data[0]
            parts = c.data if c.kind == 'and' else (c, )
            keep = [x for x in parts if x not in known]
            if len(keep) < len(parts):
                return _in_range(subst_atom(p, a, ite(conj(*keep), a.data[1], a.data[2])), va, known)
    return p


def _delta(v, va, n, m):
    """Σ_v ite(v == t, x, 0)·rest = ite(0 <= t < n, (x·rest)[v:=t], 0); None when the monomial has no such factor."""
    for a, e in m:
        if a.kind != 'ite' or e < 1 or a.data[2].t or va not in a.data[0].fv:
            continue
        c = a.data[0]
        parts = c.data if c.kind == 'and' else (c, )
        for x in parts:
            if x.kind != 'eq' or va not in x.fv:
                continue
            p = x.data[0]
            k = dict(p.t).get(((va, 1), ))
            if k is None:
                continue
            t = v - p * (1 / k)
            if va in t.fv or not t.is_int():
                continue
            others = conj(*[y for y in parts if y is not x])
            rest = ite(others, a.data[1] ** e, ZERO)
            for b, f in m:
                if b is not a:
                    rest = rest * of_atom(b, f)
            return ite(conj(le(0, t), lt(t, n)), subst(rest, {va: t}), ZERO)
    return None


def _msum(binders, dep):
    """binders: [(var, n)], dep: {atom: exp} depending on the first; flattens inner sums."""
    names = {atom_of(v) for v, _ in binders}
    rest = ONE
    todo = list(dep.items())
    work = []
    for a, e in todo:
        if a.kind == 'sum' and e > 0 and not any(b.fv & names for b in a.data[1]):
            for _ in range(e):
                work.append(a)
        else:
            rest = rest * of_atom(a, e)
    for a in work:
        base, bounds, body = a.data
        vs = [fresh('s', 'i') for _ in bounds]
        sub = {mkatom('bound', base + i, 'i'): x for i, x in enumerate(vs)}
        rest = rest * subst_raw(body, sub)
        binders = binders + list(zip(vs, [subst_raw(b, sub) for b in bounds]))
    if len(rest.t) == 1:
        return close_sum(binders, rest)
    out = ZERO
    for m, c in rest.t:
        q = mkP({m: c})
        for v, n in reversed(binders):
            q = Sum(v, n, q)
        out = out + q
    return out


def _orders(binders, va, body, h):
    """Orders of the binders worth comparing: sorted by a signature that does not depend on names, permuted among equals."""
    k = len(binders)
    if k == 1:
        return [(0, )]
    sig = []
    for i in range(k):
        sub = {va[j]: bound(h if j == i else h + 1) for j in range(k)}
        sig.append((subst(binders[i][1], sub).id, subst(body, sub).id))
    groups = {}
    for i in range(k):
        groups.setdefault(sig[i], []).append(i)
    if any(binders[i][1].fv & set(va) for i in range(k)) or any(len(g) > 4 for g in groups.values()):
        return itertools.permutations(range(k)) if k <= 5 else [tuple(range(k))]
    parts = [list(itertools.permutations(groups[s])) for s in sorted(groups)]
    return [tuple(x for p in c for x in p) for c in itertools.product(*parts)]


def close_sum(binders, body):
    """body is a single monomial."""
    c = body.t[0][1]
    body = body * (1 / c)
    va = [atom_of(v) for v, _ in binders]
    if len(binders) > 1:
        # drop binders on which nothing depends, split off independent parts
        for i, (v, n) in enumerate(binders):
            if va[i] not in body.fv and not any(va[i] in m.fv for _, m in binders):
                return num(c) * n * close_sum(binders[:i] + binders[i + 1:], body)
    h = max([body.h] + [n.h for _, n in binders])
    best = None
    for perm in _orders(binders, va, body, h):
        # a binder's bound may only mention earlier binders
        ok = True
        seen = set()
        for i in perm:
            if (binders[i][1].fv & set(va)) - seen:
                ok = False
                break
            seen.add(va[i])
        if not ok:
            continue
        sub = {va[i]: bound(h + pos) for pos, i in enumerate(perm)}
        b2 = subst(body, sub)
        bs = tuple(subst(binders[i][1], sub) for i in perm)
        key = (tuple(b.id for b in bs), b2.id)
        if best is None or key < best[0]:
            best = (key, bs, b2)
    srt = 'i' if body.is_int() else 'r'
    return num(c) * of_atom(mkatom('sum', (h, best[1], best[2]), srt))


def open_sum(a, vs=None):
    base, bounds, body = a.data
    vs = vs or [fresh('s', 'i') for _ in bounds]
    sub = {mkatom('bound', base + i, 'i'): x for i, x in enumerate(vs)}
    return vs, [subst_raw(b, sub) for b in bounds], subst_raw(body, sub)


# ------------------------------------------------------------------------------------------------------------------
# booleans
# ------------------------------------------------------------------------------------------------------------------
class B:
    __slots__ = ('kind', 'data', 'id', 'fv', 'h', 'heads', 'lo')

    def __repr__(self):
        return show_b(self)


_bools = {}


def mkB(kind, data):
    key = (kind, tuple(x.id if isinstance(x, (P, B, Lam, K)) else x for x in data))
    b = _bools.get(key)
    if b is None:
        b = B()
        b.kind, b.data, b.id = kind, data, next(_ids)
        parts = [x for x in data if isinstance(x, (P, B, Lam, K))]
        b.fv = _fvs(*parts)
        b.h = _hmax(*parts)
        b.heads = frozenset().union(*[p.heads for p in parts]) if parts else EMPTY
        b.lo = _los(parts)
        if kind == 'ex':
            b.h = max(b.h, data[0] + 1)
            b.lo = b.lo - {data[0]}
        if kind == 'bapp':
            b.heads = b.heads | {data[0]}
        _bools[key] = b
    return b


TRUE = mkB('true', ())
FALSE = mkB('false', ())


def boolc(x):
    if isinstance(x, B):
        return x
    if isinstance(x, P):
        return neg(eq(x, 0))
    return TRUE if x else FALSE


def _norm(p, sign=True):
    """scale so that the leading coefficient is +-1 (sign kept when it matters)."""
    if not p.t:
        return p
    if p.is_int() and sign:
        g = 0
        for _, c in p.t:
            g = math.gcd(g, int(c))
        return p * Fraction(1, g) if all(m for m, _ in p.t) else p
    lead = p.t[-1][1]
    return p * (1 / abs(lead)) if sign else p * (1 / lead)


def lt(a, b):
    p = num(a) - num(b)
    if p.is_const():
        return boolc(p.const() < 0)
    if p.is_int():
        return le(p + 1, 0)
    return mkB('lt', (_norm(p), ))


def le(a, b):
    p = num(a) - num(b)
    if p.is_const():
        return boolc(p.const() <= 0)
    return mkB('le', (_norm(p), ))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    p = num(a) - num(b)
    if p.is_const():
        return boolc(p.const() == 0)
    return mkB('eq', (_norm(p, False), ))


def ne(a, b):
    return neg(eq(a, b))


def neg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == 'not':
        return b.data[0]
    if b.kind == 'le':
        return lt(0, b.data[0])
    if b.kind == 'lt':
        return le(0, b.data[0])
    if b.kind == 'and':
        return disj(*[neg(x) for x in b.data])
    if b.kind == 'or':
        return conj(*[neg(x) for x in b.data])
    return mkB('not', (b, ))


def _flat(kind, xs):
    out = []
    for x in xs:
        x = boolc(x)
        if x.kind == kind:
            out += [y for y in x.data if y not in out]
        elif x not in out:
            out.append(x)
    return out


def conj(*xs):
    xs = [x for x in _flat('and', xs) if x is not TRUE]
    if any(x is FALSE for x in xs) or any(neg(x) in xs for x in xs if x.kind not in ('or', 'and')):
        return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return mkB('and', tuple(sorted(xs, key=lambda b: b.id)))


def disj(*xs):
    xs = [x for x in _flat('or', xs) if x is not FALSE]
    if any(x is TRUE for x in xs) or any(neg(x) in xs for x in xs if x.kind not in ('or', 'and')):
        return TRUE
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    return mkB('or', tuple(sorted(xs, key=lambda b: b.id)))


def implies(a, b):
    return disj(neg(a), b)


def bapp(head, *args):
    return mkB('bapp', (head, ) + tuple(conv_arg(a) for a in args))


def exists(v, n, body):
    """some v in 0..n-1 with body"""
    body = boolc(body)
    n = num(n)
    if body in (TRUE, FALSE):
        return conj(body, lt(0, n))
    va = atom_of(v)
    if n.is_const() and n.const() <= CONST_SUM:
        return disj(*[subst(body, {va: num(i)}) for i in range(int(n.const()))])
    if va not in body.fv:
        return conj(body, lt(0, n))
    h = max(body.h, n.h)
    return mkB('ex', (h, n, subst(body, {va: bound(h)})))


def open_ex(b, v=None):
    h, n, body = b.data
    v = v or fresh('e', 'i')
    return v, n, subst_raw(body, {mkatom('bound', h, 'i'): v})


def forall(v, n, body):
    return neg(exists(v, n, neg(boolc(body))))


# ------------------------------------------------------------------------------------------------------------------
# substitution
# ------------------------------------------------------------------------------------------------------------------
def subst(x, sub):
    """sub: {atom: P}.  Only variables (free symbols) or bound levels are substituted."""
    return _Sub(sub).go(x)


subst_raw = subst


class _Sub:
    def __init__(self, sub):
        self.sub = sub
        self.vars = frozenset(a for a in sub if a.kind == 'var')
        self.lv = frozenset(a.data for a in sub if a.kind == 'bound')
        self.memo = {}

    def go(self, x):
        if not (x.lo & self.lv) and not (x.fv & self.vars):
            return x
        k = x.id if not isinstance(x, Atom) else ('a', x.id)
        r = self.memo.get(k)
        if r is None:
            r = self._go(x)
            self.memo[k] = r
        return r

    def _go(self, x):
        if isinstance(x, P):
            out = ZERO
            acc = {}
            for m, c in x.t:
                parts = [(a, e, self.atom(a)) for a, e in m]
                if all(q is None for _, _, q in parts):
                    acc[m] = c
                    continue
                p = num(c)
                keep = tuple((a, e) for a, e, q in parts if q is None)
                p = mkP({keep: c})
                for a, e, q in parts:
                    if q is not None:
                        p = p * (q ** e)
                out = out + p
            return mkP(acc) + out if acc else out
        if isinstance(x, B):
            return self.bool_(x)
        if isinstance(x, Lam):
            return self.lam(x)
        if isinstance(x, K):
            return x
        raise AssertionError(type(x))

    def atom(self, a):
        """None when unchanged, else the new polynomial."""
        if a in self.sub:
            return num(self.sub[a])
        if a.kind in ('var', 'bound'):
            return None
        if not (a.lo & self.lv) and not (a.fv & self.vars):
            return None
        key = ('a', a.id)
        if key in self.memo:
            return self.memo[key]
        r = self._atom(a)
        if r is not None and atom_of(r) is a:
            r = None
        self.memo[key] = r
        return r

    def _atom(self, a):
        d = a.data
        if a.kind == 'app':
            args = tuple(self.go(x) for x in d[1])
            if all(x is y for x, y in zip(args, d[1])):
                return None
            return app(d[0], *args, sort=a.sort)
        if a.kind == 'floor':
            return floor(self.go(d))
        if a.kind == 'inv':
            return recip(self.go(d))
        if a.kind == 'ite':
            return ite(*[self.go(x) for x in d])
        if a.kind == 'sum':
            base, bounds, body = d
            inner = [bd for i, bd in enumerate(bounds)]
            vs = [fresh('s', 'i') for _ in bounds]
            op = {mkatom('bound', base + i, 'i'): v for i, v in enumerate(vs)}
            b2 = self.go(subst(body, op))
            bs = [self.go(subst(b, op)) for b in inner]
            for v, n in reversed(list(zip(vs, bs))):
                b2 = Sum(v, n, b2)
            return b2
        raise AssertionError(a.kind)

    def bool_(self, b):
        k, d = b.kind, b.data
        if k in ('true', 'false'):
            return b
        if k == 'le':
            return le(self.go(d[0]), 0)
        if k == 'lt':
            return lt(self.go(d[0]), 0)
        if k == 'eq':
            return eq(self.go(d[0]), 0)
        if k == 'not':
            return neg(self.go(d[0]))
        if k == 'and':
            return conj(*[self.go(x) for x in d])
        if k == 'or':
            return disj(*[self.go(x) for x in d])
        if k == 'bapp':
            return bapp(d[0], *[self.go(x) for x in d[1:]])
        if k == 'ex':
            v, n, body = open_ex(b)
            return exists(v, self.go(n), self.go(body))
        raise AssertionError(k)

    def lam(self, l):
        vs, body = open_lam(l)
        return mklam(vs, [self.go(d) for d in l.dims], self.go(body), l.tag)


# ------------------------------------------------------------------------------------------------------------------
# printing
# ------------------------------------------------------------------------------------------------------------------
def show_atom(a):
    k, d = a.kind, a.data
    if k == 'var':
        return d
    if k == 'bound':
        return f'β{d}'
    if k == 'app':
        return f"{d[0]}({', '.join(map(repr, d[1]))})"
    if k == 'floor':
        return f'floor({d!r})'
    if k == 'inv':
        return f'(1/({d!r}))'
    if k == 'ite':
        return f'ite({d[0]!r}, {d[1]!r}, {d[2]!r})'
    return f'Σ[{d[0]}:{list(d[1])}]({d[2]!r})'


def show(p):
    if not p.t:
        return '0'
    out = []
    for m, c in p.t:
        fs = [repr(a) + (f'^{e}' if e != 1 else '') for a, e in m]
        if c != 1 or not fs:
            fs.insert(0, str(c))
        out.append('*'.join(fs))
    s = ' + '.join(out)
    return s if len(s) < 3000 else s[:3000] + '…'


def show_b(b):
    k, d = b.kind, b.data
    if k in ('true', 'false'):
        return k
    if k in ('le', 'lt', 'eq'):
        return f"{d[0]!r} {dict(le='<=', lt='<', eq='==')[k]} 0"
    if k == 'not':
        return f'¬({d[0]!r})'
    if k == 'ex':
        return f'∃β{d[0]}<{d[1]!r}. {d[2]!r}'
    if k == 'bapp':
        return f"{d[0]}({', '.join(map(repr, d[1:]))})"
    return '(' + (' ∧ ' if k == 'and' else ' ∨ ').join(map(repr, d)) + ')'
