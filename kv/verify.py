"""Decides the obligations of one property: contracts in kv/contracts are checked against the bodies in /repo."""
import importlib, time, traceback
from .interp import *          # noqa
from .interp import E as Engine, Infeasible, INLINE, RaiseEx, Deadline, PathLimit
from .sval import *            # noqa
from .term import *            # noqa
from . import term as T

RANK = {'discharged': 0, 'unknown': 1, 'unsupported': 1, 'refuted': 2}
FRAME = {}


def apps_of(x, out=None, seen=None):
    """All application atoms in a term, outermost first."""
    if out is None:
        out, seen = [], set()
    if isinstance(x, T.Atom):
        if x.id in seen:
            return out
        seen.add(x.id)
        if x.kind == 'app':
            out.append(x)
        for y in T.atom_parts(x.kind, x.data):
            apps_of(y, out, seen)
    elif isinstance(x, P):
        for a in sorted(x.atoms(), key=lambda a: a.id):
            apps_of(a, out, seen)
    elif isinstance(x, B):
        for y in x.data:
            if isinstance(y, (P, B, Lam)):
                apps_of(y, out, seen)
    elif isinstance(x, Lam):
        for d in x.dims:
            apps_of(d, out, seen)
        apps_of(x.body, out, seen)
    return out


class Out:
    """Outcome of a call: kind 'ret' or 'raise'."""

    def __init__(self, kind, value, events=()):
        self.kind, self.value, self.events = kind, value, list(events)

    def __repr__(self):
        return f'{self.kind} {self.value.name if isinstance(self.value, ExcV) else show(self.value)}'


def show(v, n=160):
    try:
        if isinstance(v, SArr):
            idx = v.fresh_idx()
            return f'array{[str(x) for x in v.dims()]} {str(v.at(*idx))[:n]}'
        if isinstance(v, PyList):
            return f'list {str(reparg(v.rep))[:n]}'
        if isinstance(v, tuple):
            return '(' + ', '.join(show(x, n) for x in v) + ')'
        if isinstance(v, Opq):
            return f'{v.tag}:{str(v.term)[:n]}'
        return str(v)[:n]
    except Exception as e:        # noqa
        return f'{type(v).__name__} ({type(e).__name__})'


STORED = {}
# private helpers whose contracts are stated directly: a different signature is a different helper
SIGNATURES = {'_get_molecules': ['structure', 'coords', 'indices', 'masses', 'framework_indices'],
              '_get_framework': ['structure', 'indices', 'framework_indices'],
              '_populate_covariance_matrix': ['variances', 'n_samples'],
              '_bootstrap': ['array', 'n_samples', 'n_resamples', 'random_state']}


def stored_names(e, cls):
    """Attribute names that the modules of a class assign anywhere."""
    out = set()
    for c in cls.mro():
        if isinstance(c, Cls):
            key = (e.repo, c.mod)
            if key not in STORED:
                import ast
                m = c.mod if isinstance(c.mod, str) else c.mod.name
                with open(f'{e.repo}/kinisi/{m.split(".")[-1]}.py') as f:
                    tree = ast.parse(f.read())
                STORED[key] = {n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)} | {
                    n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier()}
            out |= STORED[key]
    return out


def state(e, cls, attrs=None):
    """An object in a state described by the contract.  Private attributes the code does not have (any more) are left out;
    reading one that the contract does not describe leaves the obligation undecided."""
    o = Obj(cls)
    o.assumed = True
    names = stored_names(e, cls)
    o.attrs.update({k: x for k, x in (attrs or {}).items() if not k.startswith('_') or k in names})
    return o


def give(e, o, name, value):
    if name.startswith('_') and name not in stored_names(e, o.cls):
        raise Unsupported(f'objects have no attribute {name}')
    o.attrs[name] = value


class V:
    def __init__(self, prop, deadline, repo=None):
        self.prop, self.deadline = prop, deadline
        self.repo = repo or REPO
        self.obs = {}
        self.order = []
        self.functions, self.trusted, self.assumptions, self.notes = set(), set(), set(), []
        self.backends = {}
        self.solver_s = 0.0
        self.refute_s = 0.0
        self.E = None
        self.spent = 0.0
        self.framewrites = []
        self.helpers = {}
        self.ok_heads = frozenset()
        self.modular = set()
        self.inner = set()           # groups about private helpers that no property mentions: their callers decide

    def proved(self, group):
        st = [o['status'] for k, o in self.obs.items() if k.startswith(group + '.')]
        return bool(st) and all(s == 'discharged' for s in st)

    def helper(self, qual, group, spec):
        """Calls of qual are replaced by its contract in later groups, provided the contract was proved on this tree.
        spec(E, args...) returns the specified value or INLINE."""
        if not self.proved(group):
            self.notes.append(f'{qual}: contract not proved on this tree, its body is executed at calls')
            return

        def h(e, f, args, kw):
            b = e.bind(f, args, kw)
            a = f.node.args
            return spec(e, *[b[x.arg] for x in a.posonlyargs + a.args + a.kwonlyargs])
        self.helpers[qual] = h

    # ------------------------------------------------------------------------------------------------ groups
    def engine(self):
        self.E = Engine(deadline=self.deadline, repo=self.repo)
        self.E.contracts.update(self.helpers)
        return self.E

    def group(self, name, fn, budget=None):
        """One unit: fn(self) emits obligations; anything it cannot do is recorded as undecided."""
        t0 = time.time()
        e = self.engine()
        e.pr.stats.refute_s = self.refute_s
        if budget:
            e.pr.deadline = min(self.deadline, t0 + budget) if self.deadline else t0 + budget
        self.cur = name
        before = set(self.order)
        err = None
        try:
            fn(self)
        except (Unsupported, PathLimit) as x:
            err = ('unsupported', f'{type(x).__name__}: {x}')
        except Deadline:
            err = ('unknown', 'time limit')
        except PoisonRead as x:
            err = ('unsupported', f'value after a loop: {getattr(x.loc, "key", None)}')
        except RecursionError:
            err = ('unsupported', 'recursion limit')
        except Exception as x:        # noqa
            err = ('unsupported', f'engine: {type(x).__name__}: {x} ' + traceback.format_exc()[-900:])
        if err:
            self.put(name, '*', err[0], err[1])
        dt = time.time() - t0
        new = [k for k in self.order if k not in before]
        for k in new:
            self.obs[k]['time'] = round(dt / max(1, len(new)), 3)
        st = e.pr.stats
        self.solver_s += st.z3_s
        self.refute_s = st.refute_s
        for b, n in st.backends.items():
            self.backends[b] = self.backends.get(b, 0) + n
        self.functions |= {f for f in e.executed}
        self.assumptions |= e.assumptions
        self.modular |= e.by_contract

    def put(self, group, label, status, detail='', backend='engine'):
        k = f'{group}.{label}'
        if status == 'refuted' and group in self.inner:
            status, detail = 'unknown', 'no longer the contract of this private helper; its callers execute its body. ' + detail
        if k not in self.obs:
            self.obs[k] = dict(id=k, status=status, detail=detail, n=1, backend=backend)
            self.order.append(k)
            return
        o = self.obs[k]
        o['n'] += 1
        if RANK[status] > RANK[o['status']]:
            o['status'], o['detail'] = status, detail

    def ok(self, label):
        self.put(self.cur, label, 'discharged')

    # ------------------------------------------------------------------------------------------------ running code
    def paths(self, run):
        """run() once per path of everything it executes; demands at least one satisfiable path."""
        e = self.E
        sat = [0]

        def one():
            self.framed = False
            try:
                run()
            except Unsupported:
                if e.frame and self.public(self.cur):
                    self.frame()
                raise
            if not self.framed:
                self.frame()
            if not sat[0] and e.pr.check(e.pc) == 'sat':
                sat[0] += 1
        e.paths(one)
        self.put(self.cur, 'precondition-satisfiable', 'discharged' if sat[0] else 'unknown', '' if sat[0] else 'no path shown satisfiable')

    def call(self, f, args, kw=None):
        e = self.E
        want = SIGNATURES.get(getattr(f, 'qual', None))
        if want is not None:
            if [x.arg for x in f.node.args.args][:len(want)] != want:
                raise Unsupported(f'{f.qual} no longer has the signature its contract was written for')
        n = len(e.events)
        try:
            v = e.call(f, list(args), dict(kw or {}))
            return Out('ret', v, e.events[n:])
        except RaiseEx as x:
            return Out('raise', x.exc, e.events[n:])

    def out_of(self, thunk):
        try:
            return Out('ret', thunk())
        except RaiseEx as x:
            return Out('raise', x.exc)

    # ------------------------------------------------------------------------------------------------ obligations
    def eq(self, label, a, b, H=()):
        e = self.E
        pc = e.pc + list(H)
        a, b = num(a), num(b)
        if e.pr.prove_eq(pc, a, b):
            self.ok(label)
            return True
        r = e.pr.refute_eq(pc, a, b)
        if r is None and e.pr.check(pc) == 'unsat':
            self.ok(label)
            return True
        self.put(self.cur, label, 'refuted' if r else 'unknown', f'code: {a}  contract: {b}' + (f'  counterexample {r}' if r else '') + f'  path {pc}'[:1500])
        return False

    def arg_eq(self, label, a, b, H=()):
        """Equality of two arguments of opaque functions (arrays, texts, numbers)."""
        e = self.E
        pc = e.pc + list(H)
        if e.pr.args_equal(pc, a, b):
            self.ok(label)
            return True
        r = e.pr.refute_arg(pc, a, b)
        self.put(self.cur, label, 'refuted' if r else 'unknown', f'code: {a}  contract: {b}'[:1500] + (f'  counterexample {r}' if r else ''))
        return False

    def holds(self, label, b, H=()):
        e = self.E
        pc = e.pc + list(H)
        b = boolc(b)
        if e.pr.entails(pc, b, 8000):
            self.ok(label)
            return True
        r = e.pr.refute_bool(pc, b, ok=self.ok_heads)
        self.put(self.cur, label, 'refuted' if r else 'unknown', f'{b}' + (f'  counterexample {r}' if r else '') + f'  path {pc}'[:1500])
        return False

    def lemma(self, label, b):
        """A fact proved from the path condition and then used."""
        if self.holds(label, b):
            self.E.assume(b)

    def equiv(self, label, a, b, H=()):
        e = self.E
        pc = e.pc + list(H)
        a, b = boolc(a), boolc(b)
        if e.pr.equiv(pc, a, b):
            self.ok(label)
            return True
        d = disj(conj(a, b), conj(neg(a), neg(b)))
        r = e.pr.refute_bool(pc, d, ok=b.heads)
        self.put(self.cur, label, 'refuted' if r else 'unknown', f'code: {a}  contract: {b}' + (f'  counterexample {r}' if r else ''))
        return False

    def mismatch(self, label, detail, H=()):
        """Code and contract differ in shape on this path: refuted when the path is shown reachable."""
        e = self.E
        pc = e.pc + list(H)
        if e.pr.check(pc) == 'unsat':
            self.ok(label)
            return True
        r = e.pr.refute_bool(pc, FALSE, ok=self.ok_heads)
        self.put(self.cur, label, 'refuted' if r else 'unknown', f'{detail}  path {pc}'[:1500] + (f'  counterexample {r}' if r else ''))
        return False

    def same(self, label, got, want, H=()):
        """Structural equality of two values on this path."""
        e = self.E
        H = list(H)
        if got is want and not isinstance(got, (Obj, PyList, PyDict)):
            self.ok(label)
            return True
        if isinstance(got, Opq) and isinstance(want, Opq):
            if e.pr.args_equal(e.pc + H, got.term, want.term):
                self.ok(label)
                return True
            return self.mismatch(label, f'code: {show(got)}  contract: {show(want)}', H)
        if isinstance(want, SArr) or isinstance(got, SArr):
            if isinstance(got, PyList):
                got = e.ext.np_array(got)
            if isinstance(want, SArr) and isinstance(got, SArr):
                return self.same_arr(label, got, want, H)
            if isinstance(got, SArr) and got.ndim == 0 and is_num(want):
                return self.eq(label, got.at(), want, H)
            if isinstance(want, SArr) and want.ndim == 0 and is_num(got):
                return self.eq(label, got, want.at(), H)
            return self.mismatch(label, f'code: {show(got)}  contract: {show(want)}', H)
        if (is_num(got) or isinstance(got, (bool, B))) and (is_num(want) or isinstance(want, (bool, B))):
            if isinstance(got, (bool, B)) and isinstance(want, (bool, B)):
                return self.equiv(label, got, want, H)
            return self.eq(label, bnum(got), bnum(want), H)
        if isinstance(want, (tuple, PyList, Seq)) and isinstance(got, (tuple, PyList, Seq)):
            if isinstance(want, tuple) and isinstance(got, tuple):
                if len(want) != len(got):
                    return self.mismatch(label, f'{len(got)} values instead of {len(want)}', H)
                r = True
                for x, y in zip(got, want):
                    r = self.same(label, x, y, H) and r
                return r
            return self.same_rep(label, e.seqof(got), e.seqof(want), H)
        if isinstance(want, SliceV) and isinstance(got, SliceV):
            return self.same(label, (got.lo, got.hi, got.step), (want.lo, want.hi, want.step), H)
        if isinstance(want, Obj) and isinstance(got, Obj):
            r = True
            for k in want.attrs:
                if k not in got.attrs:
                    r = self.mismatch(label, f'attribute {k} is missing', H) and r
                else:
                    r = self.same(label + '.' + k if label else k, got.attrs[k], want.attrs[k], H) and r
            return r
        if isinstance(want, PyDict) and isinstance(got, PyDict):
            if set(want.items) != set(got.items) or (want.rest is None) != (got.rest is None) or (want.rest is not None and want.rest.term is not got.rest.term):
                return self.mismatch(label, f'keys {sorted(map(str, got.items))} instead of {sorted(map(str, want.items))}', H)
            r = True
            for k in want.items:
                r = self.same(label, got.items[k], want.items[k], H) and r
            if not want.items:
                self.ok(label)
            return r
        if type(got) is type(want) and isinstance(got, (str, bytes)) and got == want:
            self.ok(label)
            return True
        if isinstance(want, Opq) or isinstance(got, Opq):
            try:
                if e.pr.args_equal(e.pc + H, toarg(got), toarg(want)):
                    self.ok(label)
                    return True
            except Unsupported:
                pass
        return self.mismatch(label, f'code: {show(got)}  contract: {show(want)}', H)

    def same_arr(self, label, got, want, H):
        e = self.E
        if got.ndim != want.ndim:
            return self.mismatch(label, f'{got.ndim} axes instead of {want.ndim}', H)
        if got.ndim == 1 and any(x.listrep() is not None and x.listrep()[0] in ('filt', 'cat') for x in (got, want)):
            rg, rw = self.settle(e.ext.rep_of(got), H), self.settle(e.ext.rep_of(want), H)
            if rg[0] == 'filt' and rw[0] == 'filt':
                return self.same_rep(label, rg, rw, H)
            got, want = e.ext.from_rep(rg), e.ext.from_rep(rw)
        for p, q in zip(got.dims(), want.dims()):
            if p is not q and not self.eq(label + '-shape', p, q, H):
                return False
        # common index: components of the contract's axes; short axes of fixed length element by element
        comps = [n for ax in want.axes for n in ax]
        small = [k for k, n in enumerate(comps) if n.is_const() and n.const() <= 4]
        combos = [()]
        for k in small:
            if len(combos) * int(comps[k].const()) <= 12:
                combos = [c + ((k, j), ) for c in combos for j in range(int(comps[k].const()))]
        out = True
        if not combos:
            self.ok(label)
        for c in combos:
            idx = want.fresh_idx()
            for k, j in c:
                idx[k] = num(j)
            rng = [x for x in want.range_conds(idx) if x is not TRUE]
            gi, pos = [], 0
            for ga, wa in zip(got.axes, want.axes):
                part = idx[pos:pos + len(wa)]
                pos += len(wa)
                gi += recomp(part, wa, ga)
            x, y = got.at(*gi), want.at(*idx)
            if isinstance(x, B) or isinstance(y, B):
                out = self.equiv(label, x, y, H + rng) and out
            else:
                out = self.eq(label, x, y, H + rng) and out
            if not out:
                break
        return out

    def soft(self, label, detail):
        """Differences of form that say nothing about behaviour: undecided."""
        self.put(self.cur, label, 'unknown', detail[:1500])
        return False

    def settle(self, rep, H):
        """A filtered list whose filter is decided on this path."""
        e = self.E
        if rep[0] == 'cat':
            return cat(*[self.settle(x, H) for x in rep[1]])
        if rep[0] != 'filt':
            return rep
        _, n, c, val = rep
        v = fresh('j', 'i')
        rng = e.pc + H + [le(0, v), lt(v, n)]
        cv = c(v)
        if cv is TRUE or e.pr.entails(rng, cv):
            return ('seq', Seq(n, val))
        if cv is FALSE or e.pr.entails(rng, neg(cv)):
            return ('items', [])
        return rep

    def same_rep(self, label, r, s, H):
        e = self.E
        r, s = self.settle(r, H), self.settle(s, H)
        if r[0] == 'filt' or s[0] == 'filt':
            if r[0] != 'filt' or s[0] != 'filt':
                return self.soft(label, f'list kinds {r[0]} and {s[0]}')
            if r[1] is not s[1] and not e.pr.prove_eq(e.pc + H, r[1], s[1]):
                return self.soft(label + '-length', f'lists filtered from {r[1]} and {s[1]} elements')
            v = fresh('j', 'i')
            rng = H + [le(0, v), lt(v, s[1])]
            if not self.equiv(label + '-kept', r[2](v), s[2](v), rng):
                return False
            return self.same(label, r[3](v), s[3](v), rng + [s[2](v)])
        if r[0] == s[0] == 'items':
            if len(r[1]) != len(s[1]):
                return self.mismatch(label, f'{len(r[1])} items instead of {len(s[1])}', H)
            out = True
            for x, y in zip(r[1], s[1]):
                out = self.same(label, x, y, H) and out
            if not r[1]:
                self.ok(label)
            return out
        n, m = rep_len(r), rep_len(s)
        if n is not m and not self.eq(label + '-length', n, m, H):
            return False
        if m.is_const():
            out = True
            for k in range(int(m.const())):
                out = self.same(label, e.lift(e.rep_at(r, num(k))), e.lift(e.rep_at(s, num(k))), H) and out
            return out
        v = fresh('j', 'i')
        rng = H + [le(0, v), lt(v, m)]
        keep = list(e.pc)
        e.pc = e.pc + rng
        try:
            x, y = e.rep_at(r, v), e.rep_at(s, v)
        finally:
            e.pc = keep
        return self.same(label, x, y, rng)

    def outcome(self, label, out, want):
        """out: Out of the code; want: Out of the contract."""
        if out.kind != want.kind:
            return self.mismatch(label, f'code: {out}  contract: {want}')
        if out.kind == 'raise':
            if out.value.name != want.value.name:
                return self.mismatch(label, f'code raises {out.value.name}, contract {want.value.name}')
            self.ok(label + '-raises')
            return True
        return self.same(label, out.value, want.value)

    def fn(self, name, qual, build, spec, label='result', budget=None, post=None):
        """Function contract: for all arguments allowed by build(), body(args) == spec(args) (values and exceptions)."""
        def run(self):
            f0 = qual

            def path():
                args, kw, ctx = build(self)
                f = self.E.get(f0)
                out = self.call(f, args, kw)
                want = self.out_of(lambda: spec(self, ctx))
                self.outcome(label, out, want)
                if post:
                    post(self, ctx, out)
                self.frame()
            self.paths(path)
        self.group(name, run, budget)

    def frame(self):
        """User data untouched on this path.  Only C21 is about that, and only for what a user calls; elsewhere a write
        merely leaves the contract unproved."""
        self.framed = True
        e = self.E
        for w, _ in e.frame:
            self.framewrites.append(f'{self.cur}: {w}')
        if not e.frame:
            self.ok('frame')
        elif self.public(self.cur):
            what, pc = e.frame[0]
            r = e.pr.refute_bool(pc, FALSE, ok=self.ok_heads)
            self.put(self.cur, 'frame', 'refuted' if r else 'unknown', f'writes user data: {what}  path {pc}'[:1500] + (f'  counterexample {r}' if r else ''))
        else:
            self.soft('frame', f'writes data of its caller: {[w for w, _ in e.frame]}')

    def public(self, group):
        return False

    # ------------------------------------------------------------------------------------------------ symbols
    def int_(self, name, lo=None, hi=None):
        v = var('in_' + name, 'i')
        if lo is not None:
            self.E.assume(le(lo, v))
        if hi is not None:
            self.E.assume(lt(v, hi))
        return v

    def real(self, name, lo=None, strict=False):
        v = var('in_' + name, 'r')
        if lo is not None:
            self.E.assume(lt(lo, v) if strict else le(lo, v))
        return v

    def arr(self, name, *dims, dtype='f', owner=True, fact=None, sort=None, axes=None):
        """Array of arbitrary contents."""
        h = 'in_' + name
        s = sort or ('i' if dtype == 'i' else 'r')
        ds = [num(d) for d in dims]
        if fact:
            self.E.pr.facts[h] = lambda *idx: [implies(conj(*[c for v, n in zip(idx, ds) for c in (le(0, v), lt(v, n))]), b) for b in fact(app(h, *idx, sort=s), *idx)]
        a = SArr(simple(*ds), lambda idx: app(h, *[num(x) for x in idx], sort=s), dtype, meta={'itemsize': var('in_itemsize_' + name, 'i')})
        if owner:
            a.store.owner = name
        return a

    def arrlist(self, name, n, dims, dtype='f', owner=True):
        """List of n arrays; dims(i) -> list of lengths."""
        h = 'in_' + name

        def get(i):
            i = num(i)
            a = SArr(simple(*dims(i)), lambda idx: app(h, i, *[num(x) for x in idx]), dtype)
            if owner:
                a.store.owner = name
            return a
        return PyList(('seq', Seq(n, get)), owner=name if owner else None)

    def intlist(self, name, n, lo=None, hi=None, owner=True):
        h = 'in_' + name
        n = num(n)

        def fact(i):
            x = app(h, i, sort='i')
            c = []
            if lo is not None:
                c.append(le(lo, x))
            if hi is not None:
                c.append(lt(x, hi))
            return [implies(conj(le(0, i), lt(i, n)), conj(*c))] if c else []
        self.E.pr.facts[h] = fact
        return PyList(('seq', Seq(n, lambda i: app(h, num(i), sort='i'))), owner=name if owner else None)


def verify(prop, tier, limit_s, repo=None, only=None):
    t0 = time.time()
    v = V(prop, t0 + limit_s - 15, repo)
    try:
        m = importlib.import_module('kv.contracts.' + prop.lower())
        m.check(v, tier)
    except ModuleNotFoundError as ex:
        v.notes.append(f'no contract: {ex}')
    except Deadline:
        v.put('all', 'time', 'unknown', 'time limit')
    obs = [v.obs[k] for k in v.order]
    return {'obligations': obs, 'functions': sorted(v.functions), 'trusted': sorted(v.trusted), 'assumptions': sorted(v.assumptions), 'notes': v.notes, 'modular': sorted(v.modular),
            'backends': v.backends, 'solver_s': round(v.solver_s, 2), 'status': 'done', 'frame': v.framewrites}


def main(argv):
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument('props', nargs='+')
    a.add_argument('--repo')
    a.add_argument('-q', action='store_true')
    a = a.parse_args(argv)
    for p in a.props:
        t = time.time()
        r = verify(p, 'quick', 400, a.repo)
        c = {}
        for o in r['obligations']:
            c[o['status']] = c.get(o['status'], 0) + 1
            if o['status'] != 'discharged' or not a.q:
                print(f"{o['status']:12s} {o['id']} x{o['n']} {o.get('time')}", str(o['detail'])[:1200] if o['status'] != 'discharged' else '')
        print(p, c, f'{time.time() - t:.1f}s', r['backends'], 'z3', r['solver_s'], r['frame'])


if __name__ == '__main__':
    import sys
    main(sys.argv[1:])
