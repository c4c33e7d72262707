"""Loops with a symbolic number of iterations: the body is executed once for an arbitrary iteration with the carried
state havocked, its effect is generalised to a closed form, and the closed form is valid by induction because the step
was derived for every possible value of the havocked state."""
import itertools
from fractions import Fraction
from .term import *          # noqa
from .sval import *          # noqa
from . import term as T

_hole = itertools.count(1)
MAX_LOCAL = 60
UNROLL = 16


def less(t, old):
    """t - old, taken into the cases of t that mention old."""
    o = atom_of(old)
    for m, c in t.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'ite' and o is not None and o in m[0][0].fv:
            a = m[0][0]
            rest = t - of_atom(a) * c
            cond, x, y = a.data
            return ite(cond, less(x * c + rest, old), less(y * c + rest, old))
    return t - old


class LocalInfeasible(Exception):
    pass


def explore(E, vars_, holes, run, collect, assume=()):
    """All local paths of run(); [(conds, outcome, collected)]."""
    ctx = dict(vars=frozenset(vars_), holes=holes, script=[], taken=[], work=[], conds=[], globals=[])
    base_pc, base_trail = list(E.pc), len(E.trail)
    E.loops.append(ctx)
    out = []
    work = [[]]
    try:
        while work:
            E.pr.tick()
            ctx['script'] = work.pop()
            ctx['taken'], ctx['work'], ctx['conds'] = [], [], []
            mark = born()
            E.pc = base_pc + list(assume) + ctx['globals']
            res = None
            try:
                try:
                    res = ('value', run())
                except ContinueEx:
                    res = ('value', None)
                except RaiseEx as e:
                    res = ('raise', e.exc)
                except ReturnEx as e:
                    res = ('return', e.v)
                except BreakEx:
                    res = ('break', None)
                out.append((list(ctx['conds']), res, collect()))
            except LocalInfeasible:
                pass
            finally:
                E.rollback(base_trail, mark)
            work += ctx['work']
            if len(out) > MAX_LOCAL:
                raise Unsupported('too many paths in a loop body')
    finally:
        popped = E.loops.pop()
        assert popped is ctx
        E.pc = base_pc + ctx['globals']
    return out


def local_value(E, run, vs):
    """Value of a pure function of the variables vs, merged over its paths."""
    outs = explore(E, [atom_of(v) for v in vs], next(_hole), run, lambda: None)
    if any(r[0] != 'value' for _, r, _ in outs):
        raise Unsupported('exception inside a function passed to a library')
    v = outs[-1][1][1]
    for conds, r, _ in reversed(outs[:-1]):
        v = merge(conj(*conds), r[1], v)
    return v


def is_pre(obj, mark):
    b = getattr(obj, 'born', None)
    return b is not None and b < mark


class Loc:
    def __init__(self, obj, key):
        self.obj, self.key = obj, key

    def get(self):
        return self.obj.get(self.key, MISSING) if isinstance(self.obj, dict) else getattr(self.obj, self.key)

    @property
    def id(self):
        return (id(self.obj), self.key)


class _Missing:
    pass


MISSING = _Missing()
DEAD = Poison(None)


def summarise(E, n, body):
    if n.is_const() and n.const() <= UNROLL:
        for k in range(max(0, int(n.const()))):
            try:
                body(num(k))
            except ContinueEx:
                continue
            except BreakEx:
                break
        return
    ub = next((k for k in range(1, 4) if E.known(le(n, k))), None)
    if ub is not None:
        # few iterations: case split on the number
        for k in range(0, ub + 1):
            if k == ub or E.branch(eq(n, k)):
                for j in range(k):
                    try:
                        body(num(j))
                    except ContinueEx:
                        continue
                    except BreakEx:
                        break
                return
    mark = len(E.trail)
    try:
        Summary(E, n, body).run()
    except ReadFirst:
        E.rollback(mark)
        # something is set by the first iteration only: taken by itself
        if not E.branch(le(1, n)):
            return
        try:
            body(ZERO)
        except ContinueEx:
            pass
        except BreakEx:
            return
        Summary(E, n - 1, lambda i: body(num(i) + 1)).run()


class ReadFirst(Unsupported):
    pass


class Summary:
    def __init__(self, E, n, body, some=False):
        self.E, self.n, self.body, self.some = E, n, body, some
        self.mark = born()
        self.poison, self.carried = {}, {}        # loc id -> Loc
        self.closed = {}                          # loc id -> function(i) -> value
        self.grow_unknown = set()
        self.grow = {}                            # loc id -> elements appended by every iteration (default one)
        self.assume = []                          # functions i -> B
        self.whole = set()                        # loc id of variables bound to one array after another

    def run(self):
        E = self.E
        for attempt in range(40):
            try:
                done = self.attempt()
            except PoisonRead as p:
                if p.loc is None or p.loc.id not in self.poison:
                    raise
                self.carried[p.loc.id] = self.poison.pop(p.loc.id)
                continue
            if done:
                return
        raise Unsupported('loop summary does not converge')

    def attempt(self):
        E = self.E
        iv = fresh('i', 'i')
        ia = atom_of(iv)
        hb = next(_hole)
        vars_ = {ia}
        trail0 = len(E.trail)
        holes = {}
        inits = {}
        for k, loc in list(self.poison.items()) + list(self.carried.items()):
            inits[k] = loc.get()
        for k, loc in self.poison.items():
            E.set(loc.obj, loc.key, Poison(loc))
        for k, loc in self.carried.items():
            if k in self.closed:
                E.set(loc.obj, loc.key, self.closed[k](iv))
                continue
            v, h = self.make_hole(inits[k], loc, f'hole{next(_hole)}', iv)
            holes[k] = h
            if h[0] == 'var':
                vars_.add(atom_of(h[1]))
            E.set(loc.obj, loc.key, v)
        trail1 = len(E.trail)

        def collect():
            out = {}
            for obj, key, old, had in E.trail[trail1:]:
                if is_pre(obj, self.mark):
                    loc = Loc(obj, key)
                    out[loc.id] = loc
            return {k: (loc, loc.get()) for k, loc in out.items()}
        rng = [le(0, iv), lt(iv, self.n)]
        outs = None
        try:
            outs = explore(E, vars_, hb, lambda: self.body(iv), collect, rng + [f(iv) for f in self.assume])
        finally:
            # the values installed for the attempt go away, global decisions stay
            E.rollback(trail0)
        if not outs:
            if self.some:
                # a loop that runs at least once has no feasible iteration
                from .interp import Infeasible
                raise Infeasible()
            return True
        written = {}
        for _, _, w in outs:
            for k, (loc, v) in w.items():
                written.setdefault(k, loc)
        bad = [(c, r) for c, r, _ in outs if r[0] != 'value']
        new_ = [k for k in written if k not in self.poison and k not in self.carried]
        if new_:
            for k in new_:
                self.poison[k] = written[k]
            return False
        # merge paths
        merged = {}
        for k in self.carried:
            if k in self.closed:
                continue
            merged[k] = [(c, w[k][1] if k in w else None) for c, r, w in outs if r[0] == 'value']
        progress = False
        unresolved = [k for k in self.carried if k not in self.closed] if any(r[0] == 'value' for _, r, _ in outs) else []
        for k in unresolved:
            f = self.close(k, inits[k], holes, merged[k], iv)
            if f is not None:
                self.closed[k] = f
                progress = True
        # exceptions raised by an iteration
        if bad:
            if any(r[0] != 'raise' for _, r in bad) or len({r[1].name for _, r in bad}) != 1:
                raise Unsupported('a loop over symbolic data is left early')
            cond = disj(*[conj(*c) for c, _ in bad])
            if any(h.startswith('hole') for h in cond.heads) or (cond.fv & (vars_ - {ia})):
                if progress:
                    return False
                raise Unsupported('exception that depends on earlier iterations')
            some = exists(iv, self.n, cond)
            if E.branch(some):
                raise RaiseEx(bad[0][1][1])
            if ia in cond.fv:
                self.assume.append(lambda i, cond=cond: T.subst(neg(cond), {ia: num(i)}))
            return False
        if any(k not in self.closed for k in self.carried):
            if not progress:
                bad = [self.carried[k] for k in self.carried if k not in self.closed]
                raise Unsupported('no closed form for ' + ', '.join(str(l.key) for l in bad))
            return False
        if progress and any(k in self.closed for k in unresolved) and (self.poison or self.some):
            # poison values may mention holes that are resolved only now
            if any(self.mentions(w[k][1], holes) for _, _, w in outs for k in w if k in self.poison):
                return False
            if any(self.mentions(b, holes) for c, _, _ in outs for b in c):
                return False
        # final values
        n = self.n
        sub = {}
        for k, h in holes.items():
            if h[0] == 'var':
                c = self.closed[k](iv)
                sub[atom_of(h[1])] = c.term if isinstance(c, Opq) else num(c)
        self.iteration = (iv, [[T.subst(b, sub) for b in c] for c, r, _ in outs if r[0] == 'value'])
        for k, loc in self.carried.items():
            v = self.closed[k](n)
            E.set(loc.obj, loc.key, v)
        for k, loc in self.poison.items():
            vals = [(c, w[k][1] if k in w else MISSING) for c, _, w in outs]
            E.set(loc.obj, loc.key, self.last(loc, vals, ia, inits[k]))
        return True

    def mentions(self, v, holes):
        try:
            t = toarg(v)
        except Unsupported:
            return bool(holes)
        except Exception:        # noqa
            return True
        if any(h.startswith('hole') for h in t.heads):
            return True
        return any(h[0] == 'var' and atom_of(h[1]) in t.fv for h in holes.values())

    # ---------------------------------------------------------------------------------------------------------------
    def make_hole(self, init, loc, key, iv):
        E = self.E
        if isinstance(loc.obj, Store):
            return (lambda idx: app(key, *[num(x) for x in idx])), ('store', key)
        if isinstance(loc.obj, PyList):
            n0 = None
            if loc.id not in self.grow_unknown:
                try:
                    n0 = rep_len(init) + self.grow.get(loc.id, ONE) * iv
                except Unsupported:
                    n0 = None           # of unknown length before the loop already
            return ('hole', key, n0), ('rep', key)
        if init is MISSING:
            raise ReadFirst(f'{loc.key} is read before it is set')
        if isinstance(init, Poison):
            raise PoisonRead(init.loc)
        if isinstance(init, (bool, B)):
            return bapp(key), ('bool', key)
        if is_num(init):
            v = fresh('h', 'i' if False else 'r')
            return v, ('var', v)
        if isinstance(init, Opq):
            v = fresh('h', 'o')
            return Opq(v, init.tag), ('var', v)
        if init is None:
            raise ReadFirst(f'{loc.key} is None before the first iteration')
        if isinstance(init, SArr) and init.ndim == 1 and loc.id not in self.whole:
            n0 = None
            if loc.id not in self.grow_unknown:
                n0 = axlen(init.axes[0]) + self.grow.get(loc.id, ONE) * iv
            return E.ext.from_rep(('hole', key, n0)), ('arep', key)
        if isinstance(init, SArr) and not isinstance(loc.obj, (Store, PyList)):
            h = SArr(init.axes, lambda idx: app(key, *[num(x) for x in idx]), init.dtype)
            h.store.owner = '?array carried through a loop'
            return h, ('arr', key)
        raise Unsupported(f'{loc.key} ({type(init).__name__}) carried through a loop')

    def has_holes(self, x, holes, but=None):
        """Does the term mention unresolved holes (other than the one given)?"""
        for k, h in holes.items():
            if k == but:
                continue
            if h[0] == 'var':
                if atom_of(h[1]) in x.fv:
                    return True
            elif any(z == h[1] or z.startswith(h[1] + '_') for z in x.heads):
                return True
        return False

    def close(self, k, init, holes, outs, iv):
        h = holes[k]
        loc = self.carried[k]
        if h[0] in ('var', 'bool'):
            return self.close_scalar(k, init, holes, outs, iv)
        if h[0] == 'rep':
            return self.close_rep(k, init, holes, [(c, v) for c, v in outs], iv, lambda r: r, lambda r: r)
        if h[0] == 'arep':
            ext = self.E.ext
            if any(v is not None and self.rebuilt(v, h[1]) for _, v in outs):
                self.whole.add(k)
                return self.restart()
            return self.close_rep(k, ext.rep_of(init), holes, [(c, None if v is None else self.arr_rep(v)) for c, v in outs], iv, lambda r: ext.from_rep(r), lambda r: r)
        if h[0] == 'arr':
            return self.close_arr(k, init, holes, outs, iv)
        if h[0] == 'store':
            return self.close_store(k, init, holes, outs, iv)
        raise AssertionError(h)

    def rebuilt(self, v, key):
        if not isinstance(v, SArr) or v.ndim != 1:
            return False
        rep = self.E.ext.rep_of(v)
        parts = rep[1] if rep[0] == 'cat' else [rep]
        return not parts or parts[0][0] != 'hole' or parts[0][1] != key

    def close_arr(self, k, init, holes, outs, iv):
        """A variable bound to one array after another, all of one shape: unchanged, accumulated, or replaced."""
        E, key, ia = self.E, holes[k][1], atom_of(iv)
        idx = init.fresh_idx()
        old = app(key, *idx)
        vals = []
        for c, v in outs:
            if v is None:
                vals.append((c, old))
                continue
            if not isinstance(v, SArr) or v.ndim != init.ndim or v.dtype != init.dtype and 'b' in (v.dtype, init.dtype):
                raise Unsupported('array changes its kind in a loop')
            if is_pre(v.store, self.mark) and Loc(v.store, 'fn').id in set(self.carried) | set(self.poison):
                raise Unsupported('array that is written in the loop carried through it')
            v = E.ext.realign(v, init.axes) if all(E.same_len(axlen(a), axlen(b)) for a, b in zip(v.axes, init.axes)) else None
            if v is None:
                raise Unsupported('array changes its shape in a loop')
            vals.append((c, v.at(*idx)))
        t = self.merge_paths(vals, lambda x: x)
        if isinstance(t, (bool, B)):
            raise Unsupported('array of truth values carried through a loop')
        t, g0, ats = num(t), init.getter(), [atom_of(x) for x in idx]
        kind = 'f' if any(v is not None and v.dtype == 'f' for _, v in outs) else init.dtype

        def arr(f):
            r = SArr(init.axes, f, kind)
            r.store.owner = '?array carried through a loop'
            return r
        if t is old:
            return lambda i: init
        d = less(t, old)
        if not self.has_holes(d, holes):
            def acc(i):
                def f(x):
                    v = fresh('s', 'i')
                    return num(g0(x)) + Sum(v, num(i), T.subst(d, {ia: v, **dict(zip(ats, [num(q) for q in x]))}))
                return arr(f)
            return acc
        if not self.has_holes(t, holes):
            def last(i):
                i = num(i)
                if i.is_const() and i.const() == 0:
                    return init
                new = lambda x: T.subst(t, {ia: i - 1, **dict(zip(ats, [num(q) for q in x]))})        # noqa
                if E.known(le(1, i)):
                    return arr(new)
                return arr(lambda x: ite(eq(i, 0), num(g0(x)), new(x)))
            return last
        return None

    def arr_rep(self, v):
        if isinstance(v, SArr) and v.ndim == 1:
            return self.E.ext.rep_of(v)
        raise Unsupported('array changes its kind in a loop')

    def merge_paths(self, outs, get):
        v = get(outs[-1][1])
        for c, x in reversed(outs[:-1]):
            v = merge(conj(*c), get(x), v)
        return v

    def close_scalar(self, k, init, holes, outs, iv):
        h = holes[k]
        ia = atom_of(iv)
        isb = h[0] == 'bool'
        old = bapp(h[1]) if isb else h[1]
        opq = isinstance(init, Opq)

        def get(v):
            if v is None:
                return old if not opq else Opq(old, init.tag)
            return v
        new = self.merge_paths(outs, get)
        if isb:
            if not isinstance(new, (bool, B)):
                raise Unsupported('flag changes its type in a loop')
            t = boolc(new)
            if self.has_holes(t, holes):
                return (lambda i: init) if t is old else None
            return lambda i: tidy(ite(eq(i, 0), boolc(init), T.subst(t, {ia: num(i) - 1}))) if not (isinstance(i, P) and i.is_const()) else tidy(boolc(init) if i.const() == 0 else T.subst(t, {ia: num(i) - 1}))
        if opq:
            if not isinstance(new, Opq):
                raise Unsupported('value changes its type in a loop')
            t = new.term
        else:
            if not is_num(new):
                if isinstance(new, SArr):
                    raise Unsupported('number becomes an array in a loop')
                raise Unsupported('value changes its type in a loop')
            t = num(new)
        i0 = init.term if opq else num(init)
        wrap = (lambda x: Opq(x, init.tag)) if opq else tidy
        if t is old:
            return lambda i: init
        d = less(t, old) if not opq else t - old
        if not opq and not self.has_holes(d, holes):
            def acc(i):
                v = fresh('s', 'i')
                return wrap(i0 + Sum(v, num(i), T.subst(d, {ia: v})))
            return acc
        if not self.has_holes(t, holes):
            def last(i):
                i = num(i)
                if i.is_const() and i.const() == 0:
                    return wrap(i0)
                nv = T.subst(t, {ia: i - 1})
                if self.E.known(le(1, i)):
                    return wrap(nv)
                return wrap(ite_o(eq(i, 0), i0, nv) if opq else ite(eq(i, 0), i0, nv))
            return last
        if not self.has_holes(t, holes, but=k):
            st = fresh('st', 'o' if opq else 'r')
            lam = mklam([st, iv], [ZERO, ZERO], T.subst(t, {atom_of(old): st}), 'step')
            return lambda i: wrap(app('fold', lam, i0, num(i), sort='o' if opq else 'r'))
        return None

    def close_rep(self, k, init, holes, outs, iv, wrap, unwrap):
        """Growing lists: each path appends nothing or a fixed tail."""
        key = holes[k][1]
        ia = atom_of(iv)
        tails = []
        for c, rep in outs:
            if rep is None:
                tails.append((c, ('items', [])))
                continue
            parts = rep[1] if rep[0] == 'cat' else [rep]
            if not parts or parts[0][0] != 'hole' or parts[0][1] != key:
                if rep[0] == 'seq' or any(p[0] == 'hole' for p in parts):
                    raise Unsupported('list rebuilt in a loop')
                raise Unsupported('list replaced in a loop')
            tails.append((c, cat(*parts[1:])))
        lens = [rep_len(t) if t[0] != 'filt' and not (t[0] == 'cat' and any(p[0] == 'filt' for p in t[1])) else None for _, t in tails]
        if any(l is None for l in lens):
            raise Unsupported('list grows by a filtered list')
        if all(l is ONE for l in lens):
            if self.grow.get(k, ONE) is not ONE:
                raise Unsupported('list grows irregularly')

            def first(t):
                return t[1][0] if t[0] == 'items' else t[1].get(ZERO)
            val = self.merge_paths(tails, first)
            if self.val_holes(val, holes):
                return None

            def closed(i):
                fam = lambda j: vsubst(val, {ia: num(j)})          # noqa
                return wrap(cat(init, ('seq', Seq(num(i), fam)) if not (isinstance(i, P) and i.is_const() and i.const() <= UNROLL) else ('items', [fam(num(q)) for q in range(int(i.const()))])))
            return closed
        if all(l is ONE or l is ZERO for l in lens):
            if k not in self.grow_unknown:
                self.grow_unknown.add(k)
                return self.restart()
            some = [(c, t[1][0] if t[0] == 'items' else t[1].get(ZERO)) for (c, t), l in zip(tails, lens) if l is ONE]
            cond = disj(*[conj(*c) for c, _ in some])
            val = self.merge_paths(some, lambda x: x)
            if self.has_holes(cond, holes) or self.val_holes(val, holes):
                return None
            return lambda i: wrap(cat(init, ('filt', num(i), lambda j: T.subst(cond, {ia: num(j)}), lambda j: vsubst(val, {ia: num(j)}))))
        L = lens[0]
        if all(l is L for l in lens) and len(tails) == 1 and ia not in L.fv:
            if self.grow.get(k) is not L:
                if k in self.grow or L.fv & {atom_of(h[1]) for h in holes.values() if h[0] == 'var'} or any(z.startswith('hole') for z in L.heads):
                    raise Unsupported('list grows irregularly')
                self.grow[k] = L
                return self.restart()
            tail = tails[0][1]
            E = self.E
            probe = fresh('q', 'i')
            pv = E.rep_at(tail, probe)
            if self.val_holes(pv, holes):
                return None

            def closed(i):
                def el(j):
                    j = num(j)
                    blk = floor(j / L)
                    return vsubst(pv, {ia: blk, atom_of(probe): j - L * blk})
                return wrap(cat(init, ('seq', Seq(num(i) * L, el))))
            return closed
        if len(tails) == 1 and len(tails[0][1]) == 2 and tails[0][1][0] == 'seq':
            # an opaque list per iteration: concatenation of the lists
            tail = tails[0][1]
            probe = fresh('q', 'i')
            el = self.E.rep_at(tail, probe)
            at = el.term if isinstance(el, Opq) else None
            at = atom_of(at) if isinstance(at, P) else at
            if at is not None and at.kind == 'app' and at.data[0] == 'oitem' and at.data[1][1] is probe and not atom_of(probe) in T.num(at.data[1][0]).fv:
                base = at.data[1][0]
                if T.app('olen', base, sort='i') is L and not any(z.startswith('hole') for z in num(base).heads):
                    if k not in self.grow_unknown:
                        self.grow_unknown.add(k)
                        return self.restart()
                    return lambda i: wrap(cat(init, self.E.flatten_seq(Seq(num(i), lambda j: Opq(T.subst(num(base), {ia: num(j)}), 'list')), el.tag)))
        raise Unsupported('list grows by a varying number of elements')

    def restart(self):
        raise Restart()

    def val_holes(self, v, holes):
        if isinstance(v, (P, B)):
            return self.has_holes(v, holes)
        if isinstance(v, SArr):
            idx = v.fresh_idx()
            return self.has_holes(v.at(*idx), holes) or any(self.has_holes(d, holes) for d in v.comps())
        if isinstance(v, tuple):
            return any(self.val_holes(x, holes) for x in v)
        if isinstance(v, Opq):
            return self.has_holes(v.term, holes)
        if isinstance(v, Obj):
            return any(self.val_holes(x, holes) for x in v.attrs.values())
        if isinstance(v, PyDict):
            return any(self.val_holes(x, holes) for x in v.items.values())
        if isinstance(v, PyList):
            r = v.rep
            if r[0] == 'items':
                return any(self.val_holes(x, holes) for x in r[1])
            return self.has_holes(reparg(r), holes)
        return False

    # ---------------------------------------------------------------------------------------------------------------
    def close_store(self, k, init, holes, outs, iv):
        key = holes[k][1]
        ia = atom_of(iv)
        # number of indices: probe with the arity used by the initial contents
        arity = self.arity(self.carried[k].obj)
        p = [fresh('p', 'i') for _ in range(arity)]
        hole = app(key, *p)
        t = None
        for c, fn in reversed(outs):
            x = hole if fn is None else fn(p)
            t = x if t is None else ite(conj(*c), x, t)
        if isinstance(t, B):
            raise Unsupported('boolean array written in a loop')
        d = t - hole
        sub = lambda x, i, idx: T.subst(x, {ia: num(i), **{atom_of(a): num(b) for a, b in zip(p, idx)}})        # noqa
        if not self.has_holes(d, holes):
            def acc(i):
                def fn(idx):
                    v = fresh('s', 'i')
                    return init(idx) + Sum(v, num(i), sub(d, v, idx))
                return fn
            return acc
        leaves = []
        self.leaves(t, TRUE, leaves)
        writes = []
        for cond, val in leaves:
            if val is hole:
                continue
            if self.has_holes(val, holes) or self.has_holes(cond, holes):
                return None
            writes.append((cond, val))
        if not writes or len(writes) > 4:
            raise Unsupported('array written in a loop in too many ways')
        sols = []
        for cond, val in writes:
            for c in (cond.data if cond.kind == 'or' else [cond]):
                s = self.solve(c, iv)
                if s is None:
                    raise Unsupported('array written at positions that cannot be solved for the iteration')
                sols.append((c, val, s))

        def closed(i):
            i = num(i)

            def fn(idx):
                out = init(idx)
                cands = []
                for c, val, s in sols:
                    st = sub(s, ZERO, idx)
                    ok = conj(le(0, st), lt(st, i), sub(c, st, idx))
                    cands.append((ok, st, sub(val, st, idx)))
                # the latest iteration wins; within one iteration the conditions of the leaves exclude one another
                v = out
                for a, (ok, st, x) in enumerate(cands):
                    beats = ok
                    for b, (ok2, st2, _) in enumerate(cands):
                        if b != a:
                            beats = conj(beats, implies(ok2, lt(st2, st) if b < a else le(st2, st)))
                    v = ite(beats, x, v)
                return v
            return fn
        return closed

    def arity(self, store):
        a = getattr(store, 'arity', None)
        if a is None:
            raise Unsupported('array of unknown rank written in a loop')
        return a

    def leaves(self, t, cond, out, depth=0):
        a = atom_of(t)
        if a is not None and a.kind == 'ite':
            c, x, y = a.data
            self.leaves(x, conj(cond, c), out, depth + 1)
            self.leaves(y, conj(cond, neg(c)), out, depth + 1)
            return
        out.append((cond, t))

    def solve(self, cond, iv):
        """The iteration as a function of the position, from a conjunction of conditions."""
        ia = atom_of(iv)
        cs = list(cond.data) if cond.kind == 'and' else [cond]
        for c in cs:
            if c.kind == 'eq':
                p = c.data[0]
                co = dict(p.t).get(((ia, 1), ))
                if co is not None and abs(co) == 1:
                    rest = p - of_atom(ia) * co
                    if ia not in rest.fv:
                        return -rest * co
        les = [c.data[0] for c in cs if c.kind == 'le']
        for x in les:
            # x = s*i + a - q <= 0
            s = ZERO
            rest = ZERO
            lin = True
            for m, co in x.t:
                e = dict(m).get(ia, 0)
                if e == 1:
                    s = s + mkP({tuple((b, k) for b, k in m if b is not ia): co})
                elif e == 0 and not any(ia in b.fv for b, _ in m):
                    rest = rest + mkP({m: co})
                else:
                    lin = False
            if not lin or not s.t:
                continue
            for y in les:
                if y is not x and (x + y) is (ONE - s):
                    if self.E.known(lt(0, s)):
                        return floor(-rest / s)
        return None

    # ---------------------------------------------------------------------------------------------------------------
    def last(self, loc, vals, ia, init):
        """Value of a location that every iteration sets anew."""
        E = self.E
        if not E.known(le(1, self.n)):
            if loc.key.startswith('%') if isinstance(loc.key, str) else False:
                return DEAD
            return Lazy(self, loc, vals, ia, init).poison()
        return self.last_value(vals, ia)

    def last_value(self, vals, ia):
        if all(v is not MISSING for _, v in vals):
            try:
                v = vals[-1][1]
                for c, x in reversed(vals[:-1]):
                    v = merge(conj(*c), x, v)
                if isinstance(v, (PyList, Obj, PyDict)) or callable(v) and not isinstance(v, Builtin):
                    if callable(v):
                        return DEAD
                return vsubst(v, {ia: self.n - 1})
            except Unsupported:
                return DEAD
        wr = [(conj(*c), v) for c, v in vals if v is not MISSING]
        if len(wr) == 1 and wr[0][0] is eq(of_atom(ia), 0):
            return vsubst(wr[0][1], {ia: ZERO})
        return DEAD


class Lazy:
    def __init__(self, *a):
        pass

    def poison(self):
        return DEAD


class Restart(Exception):
    pass


_orig_attempt = Summary.attempt


def _attempt(self):
    try:
        return _orig_attempt(self)
    except Restart:
        return False


Summary.attempt = _attempt


def while_loop(E, st, env, mod):
    """while: the state after i iterations in closed form, for the unknown number N of iterations."""
    if st.orelse:
        raise Unsupported('while-else')
    N = fresh('N', 'i')
    E.assume(le(0, N))

    def body(i):
        if not E.truth(E.expr(st.test, env, mod)):
            raise LocalInfeasible()
        try:
            E.block(st.body, env, mod)
        except (BreakEx, ReturnEx, RaiseEx):
            raise LocalInfeasible()        # not one of the N complete iterations
    # zero complete iterations, or at least one
    if E.branch(eq(N, 0)):
        pass
    else:
        s = Summary(E, N, body, True)
        s.run()
        E.events.append(('while', N, s))
    # then the condition fails, or a last iteration leaves the loop from within
    if E.truth(E.expr(st.test, env, mod)):
        from .interp import Infeasible
        try:
            E.block(st.body, env, mod)
        except BreakEx:
            return
        except ContinueEx:
            pass
        raise Infeasible()
