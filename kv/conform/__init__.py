"""Differential test of the verifier itself: what the symbolic machine says a piece of Python computes, against CPython.

Each function of snippets.py is executed once symbolically (arbitrary sizes, arbitrary elements, all paths).  Then sizes
and elements are drawn, the terms of the one path whose condition holds are evaluated, and the outcome (value or
exception) is compared with that of the same source run by CPython with the real libraries.  It validates the assumed
contracts of numpy and the loop generalisation on samples: bounded, reported as such, and never part of a verdict."""
import argparse, ast, hashlib, importlib, inspect, itertools, json, math, os, random, shutil, sys, tempfile, time, warnings
from fractions import Fraction
import numpy as np
from ..term import *          # noqa
from ..sval import *          # noqa
from .. import term as T
from ..prove import Valuation, NoValue
from ..verify import V, Out
from ..interp import E as Engine

HERE = os.path.dirname(os.path.abspath(__file__))
F = Fraction


class Cannot(Exception):
    pass


def spec_of(doc):
    """'a f n 3; k i 0 5; x r; m b n; t tuple' -> [(name, kind, [dims or bounds])]"""
    out = []
    for part in (doc or '').split(';'):
        w = part.split()
        if w:
            out.append((w[0], w[1], w[2:]))
    return out


def term_dim(sizes, d):
    """n, n+1, 3, 2*n, m-1"""
    t = ast.parse(d, mode='eval').body

    def go(x):
        if isinstance(x, ast.Constant):
            return num(x.value)
        if isinstance(x, ast.Name):
            return sizes[x.id]
        if isinstance(x, ast.UnaryOp):
            return -go(x.operand)
        if isinstance(x, ast.Call):          # a size that depends on the index in an unknown way, at least 2
            return app('in_' + x.func.id, go(x.args[0]), sort='i')
        a, b = go(x.left), go(x.right)
        return a + b if isinstance(x.op, ast.Add) else a - b if isinstance(x.op, ast.Sub) else a * b
    return go(t)


def names_in(d):
    t = ast.parse(d, mode='eval')
    calls = {x.func.id for x in ast.walk(t) if isinstance(x, ast.Call)}
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name) and x.id not in calls]


class Val(Valuation):
    """Evaluation with everything given: data for the inputs, numpy for the library functions."""

    LENGTH = 400

    def __init__(self, data, env):
        super().__init__(0, {})
        self.data = data
        self.env.update(env)
        for nm, x in (('pi', math.pi), ('k', 1.380649e-23), ('e', 1.602176634e-19), ('N_A', 6.02214076e23)):
            self.env[mkatom('var', 'const:' + nm, 'r')] = x

    def choose(self, key, a):
        self.apps[key] = (self.value(*key), a.sort)

    def value(self, head, vals):
        if head in self.data:
            x = self.data[head]
            for i in vals:
                if i != int(i) or not 0 <= i < len(x):
                    raise Cannot(f'{head} read at {[str(v) for v in vals]}')
                x = x[int(i)]
            return F(int(x)) if isinstance(x, (bool, np.bool_, int, np.integer)) else F(float(x))
        f = getattr(self, 'h_' + head, None)
        if f is None:
            raise Cannot(f'no interpretation of {head}')
        return f(*vals)

    def interp_arr(self, head, vals):
        try:
            return super().interp_arr(head, vals)
        except NoValue as ex:
            raise Cannot(str(ex))

    @staticmethod
    def array(l):
        return np.array([float(x) for x in l[2]]).reshape(l[1])

    def h_uniqlen(self, l):
        return F(len(np.unique(self.array(l))))

    def h_uniq(self, l, k):
        return sorted(set(l[2]))[int(k)]

    def h_sorted(self, *a):
        l, k = (a[0], a[1]) if isinstance(a[0], tuple) else (a[1], a[0])
        return sorted(l[2])[int(k)]

    def h_eigval(self, l, k):
        return float(np.linalg.eigh(self.array(l))[0][int(k)])

    def h_eigvec(self, l, i, j):
        return float(np.linalg.eigh(self.array(l))[1][int(i), int(j)])

    def h_slogdet_sign(self, l):
        return float(np.linalg.slogdet(self.array(l))[0])

    def h_slogdet_logdet(self, l):
        return float(np.linalg.slogdet(self.array(l))[1])


def py(val, v, e):
    """A value of the machine under a valuation, as a Python value."""
    if v is None or isinstance(v, (bool, int, float, str, bytes, Fraction)):
        return v
    if isinstance(v, P):
        return val.num(v)
    if isinstance(v, B):
        return val.bool_(v)
    if isinstance(v, tuple):
        return tuple(py(val, x, e) for x in v)
    if isinstance(v, SArr):
        comps = []
        for d in v.comps():
            n = val.num(d)
            if n != int(n):
                raise Cannot(f'an array of length {n}')
            comps.append(max(0, int(n)))
        dims = [int(val.num(d)) for d in v.dims()]
        out = np.empty(comps, dtype=object)
        for idx in np.ndindex(*comps):
            out[idx] = py(val, v.at(*[num(int(i)) for i in idx]), e)
        return ('array', v.dtype, out.reshape(dims))
    if isinstance(v, PyList):
        return py_rep(val, e.rep(v), e)
    if isinstance(v, Seq):
        return py_rep(val, ('seq', v), e)
    if isinstance(v, PyDict) and v.rest is None:
        return {k: py(val, x, e) for k, x in v.items.items()}
    raise Cannot(f'a value of kind {type(v).__name__}')


def py_rep(val, r, e):
    k = r[0]
    if k == 'items':
        return [py(val, x, e) for x in r[1]]
    if k == 'seq':
        return [py(val, r[1].get(num(i)), e) for i in range(int(val.num(r[1].n)))]
    if k == 'filt':
        return [py(val, r[3](num(i)), e) for i in range(int(val.num(r[1]))) if val.bool_(boolc(r[2](num(i))))]
    if k == 'cat':
        return [x for q in r[1] for x in py_rep(val, q, e)]
    raise Cannot(k)


def close(a, b):
    """a: from the machine, b: from CPython."""
    if isinstance(a, tuple) and len(a) == 3 and a[0] == 'array':
        if isinstance(b, (list, tuple)) or not isinstance(b, (np.ndarray, np.generic, int, float)):
            return f'an array where Python has {type(b).__name__}'
        b = np.asarray(b)
        if a[2].shape != b.shape:
            return f'shape {a[2].shape}, Python {b.shape}'
        if b.size and {'f': 'f', 'i': 'iu', 'b': 'b'}.get(a[1]) is not None and b.dtype.kind not in {'f': 'f', 'i': 'iu', 'b': 'b'}[a[1]]:
            return f'elements of type {a[1]}, Python {b.dtype}'
        for i in np.ndindex(*b.shape):
            r = close(a[2][i], b[i])
            if r:
                return f'{i}: {r}'
        return None
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b[()]
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b):
            return f'{type(a).__name__}, Python {type(b).__name__}'
        if len(a) != len(b):
            return f'{len(a)} elements, Python {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            r = close(x, y)
            if r:
                return f'[{i}] {r}'
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            return f'{a}, Python {b}'
        for k in a:
            r = close(a[k], b[k])
            if r:
                return f'{k}: {r}'
        return None
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return None if isinstance(b, (bool, np.bool_)) and bool(a) == bool(b) else f'{a}, Python {b!r}'
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, np.number)):
        x, y = float(a), float(b)
        return None if x == y or abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)) else f'{x}, Python {y}'
    return None if a == b and type(a) is type(b) else f'{a!r}, Python {b!r}'


def text(x):
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'array':
        return str(np.vectorize(lambda q: float(q) if isinstance(q, (int, Fraction)) else q, otypes=[object])(x[2]).tolist())
    return str(x)


def draw(r, spec):
    """Sizes and data for one run: (environment of the valuation, data by head, arguments for CPython)."""
    sizes, env, data, args = {}, {}, {}, []
    for _, kind, dims in spec:
        if kind in ('f', 'i', 'b', 'lf', 'li', 'la', 'p', 'u', 'g'):
            for d in dims:
                for n in names_in(d.split('..')[0]):
                    sizes.setdefault(n, r.randint(0 if n.startswith('z') else 2 if n.startswith('q') else 1, 5))
    ev = lambda d: int(eval(d, {}, sizes))
    for nm, kind, dims in spec:
        h = 'in_' + nm
        if kind == 'k':             # an integer within bounds
            lo, hi = ev(dims[0]), ev(dims[1])
            if hi <= lo:
                return None
            x = r.randint(lo, hi - 1)
            env[mkatom('var', h, 'i')] = F(x)
            args.append(x)
        elif kind == 'x':
            x = r.randint(-12, 12) / 4
            env[mkatom('var', h, 'r')] = F(x)
            args.append(x)
        elif kind in ('f', 'p', 'u', 'g'):
            env[mkatom('var', 'in_itemsize_' + nm, 'i')] = F(8)
            sh = [ev(d) for d in dims]
            a = np.array([r.randint(1, 16) / 8 if kind == 'p' else r.randint(-2000, 2000) / 997 if kind == 'g' else r.randint(-3, 3) if kind == 'u' else r.randint(-20, 20) / 8 for _ in range(math.prod(sh))], float).reshape(sh)
            data[h] = a
            args.append(a)
        elif kind == 'i':
            rng = [d for d in dims if '..' in d]
            lo, hi = [ev(q) for q in rng[0].split('..')] if rng else (-3, 4)
            sh = [ev(d) for d in dims if '..' not in d]
            if hi <= lo and math.prod(sh):
                return None
            a = np.array([r.randint(lo, hi - 1) for _ in range(math.prod(sh))], int).reshape(sh)
            data[h] = a
            args.append(a)
        elif kind == 'b':
            sh = [ev(d) for d in dims]
            a = np.array([r.random() < 0.5 for _ in range(math.prod(sh))], bool).reshape(sh)
            data[h] = a
            args.append(a)
        elif kind in ('li', 'lf'):
            n = ev(dims[0])
            lo, hi = [ev(q) for q in dims[1].split('..')] if len(dims) > 1 else (-3, 4)
            if hi <= lo and n:
                return None
            a = [r.randint(lo, hi - 1) if kind == 'li' else r.randint(-20, 20) / 8 for _ in range(n)]
            data[h] = a
            args.append(list(a))
        elif kind == 'la':              # list of arrays, shapes by index where a dimension mentions i
            n = ev(dims[0])
            fs = {x.func.id for d in dims[1:] for x in ast.walk(ast.parse(d)) if isinstance(x, ast.Call)}
            for f in fs:
                data.setdefault('in_' + f, [r.randint(2, 4) for _ in range(n)])
            loc = {f: data['in_' + f].__getitem__ for f in fs}
            a = [np.array([r.randint(-20, 20) / 8 for _ in range(math.prod(sh))], float).reshape(sh) for i in range(n) for sh in [[int(eval(d, {}, dict(sizes, i=i, **loc))) for d in dims[1:]]]]
            data[h] = a
            args.append([x.copy() for x in a])
    for n, x in sizes.items():
        env[mkatom('var', 'in_' + n, 'i')] = F(x)
    return env, data, args


def build(v, spec):
    """The symbolic arguments."""
    sizes = {}
    for _, kind, dims in spec:
        if kind in ('f', 'i', 'b', 'lf', 'li', 'la', 'p', 'u', 'g'):
            for d in dims:
                for n in names_in(d.split('..')[0]):
                    if n not in sizes and n != 'i':
                        sizes[n] = v.int_(n, 0 if n.startswith('z') else 2 if n.startswith('q') else 1)
    td = lambda d, **k: term_dim(dict(sizes, **k), d)
    out = []
    for nm, kind, dims in spec:
        h = 'in_' + nm
        if kind == 'k':
            out.append(v.int_(nm, td(dims[0]), td(dims[1])))
        elif kind == 'x':
            out.append(v.real(nm))
        elif kind in ('f', 'u', 'p', 'g'):
            out.append(v.arr(nm, *[td(d) for d in dims], owner=False, fact=(lambda x, *i: [lt(0, x)]) if kind == 'p' else None))
        elif kind == 'i':
            rng = [d for d in dims if '..' in d]
            b = [td(q) for q in rng[0].split('..')] if rng else None
            out.append(v.arr(nm, *[td(d) for d in dims if '..' not in d], dtype='i', owner=False, fact=(lambda x, *i, b=b: [le(b[0], x), lt(x, b[1])]) if b else None))
        elif kind == 'b':
            ds = [td(d) for d in dims]
            out.append(SArr(simple(*ds), lambda idx, h=h: eq(app(h, *[num(x) for x in idx], sort='i'), 1), 'b'))
        elif kind == 'li':
            b = [td(q) for q in dims[1].split('..')] if len(dims) > 1 else [None, None]
            out.append(v.intlist(nm, td(dims[0]), b[0], b[1], owner=False))
        elif kind == 'lf':
            out.append(PyList(('seq', Seq(td(dims[0]), lambda i, h=h: app(h, num(i))))))
        elif kind == 'la':
            for d in dims[1:]:
                for x in ast.walk(ast.parse(d)):
                    if isinstance(x, ast.Call):
                        v.E.pr.facts['in_' + x.func.id] = lambda i, h='in_' + x.func.id: [le(2, app(h, i, sort='i'))]
            out.append(v.arrlist(nm, td(dims[0]), lambda i, dims=dims: [td(d, i=i) for d in dims[1:]], owner=False))
        else:
            raise AssertionError(kind)
    return out


def holds(val, pc):
    """Is the path condition true?  The number of iterations of a while loop is whatever makes it true."""
    free = sorted({a for c in pc for a in c.fv if a.kind == 'var' and '!' in a.data and a not in val.env}, key=lambda a: a.id)
    if not free:
        return all(val.bool_(c) for c in pc)
    if len(free) > 2:
        raise Cannot('several loops')
    for xs in itertools.product(range(40), repeat=len(free)):
        val.env.update(zip(free, map(F, xs)))
        val.memo.clear()
        if all(val.bool_(c) for c in pc):
            return True
    return False


def one(name, fn, spec, repo, samples, seed, limit, qual):
    """(status, detail, compared): 'agrees', 'differs', 'outside' (the machine declines), 'undetermined'"""
    v = V('conform', time.time() + limit, repo)
    e = v.engine()
    v.cur = name
    paths = []

    def run():
        a = build(v, spec)
        o = v.call(e.get(qual), a)
        r = o.value
        paths.append((list(e.pc), o.kind, r, dict(e.pr.facts), a))
    try:
        def guarded():
            run()
        # every path is evaluated while its own state is in place
        todo = []
        r = random.Random(f'{seed}{name}')
        for _ in range(samples * 4):
            d = draw(r, spec)
            if d is not None:
                todo.append(d)
            if len(todo) == samples:
                break
        got = [[] for _ in todo]

        def path():
            a = build(v, spec)
            o = v.call(e.get(qual), a)
            for k, (env, data, args) in enumerate(todo):
                val = Val(data, env)
                try:
                    if not holds(val, e.pc):
                        continue
                    if o.kind == 'raise':
                        got[k].append(('raise', o.value.name))
                    else:
                        got[k].append(('ret', py(val, o.value, e), [py(val, x, e) for x in a if isinstance(x, SArr)]))
                except Cannot as ex:
                    got[k].append(('cannot', str(ex)))
                except NoValue as ex:
                    got[k].append(('cannot', 'value: ' + str(ex)))
                except ZeroDivisionError:
                    got[k].append(('cannot', 'division by zero'))
        e.paths(path)
    except Unsupported as ex:
        return 'outside', str(ex)[:200], 0
    except PoisonRead as ex:
        return 'outside', f'value after a loop {getattr(ex.loc, "key", None)}', 0
    n = 0
    why = ''
    for (env, data, args), g in zip(todo, got):
        keep = [x.copy() if isinstance(x, np.ndarray) else x for x in args]
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                want = ('ret', fn(*args))
            except Exception as ex:         # noqa
                want = ('raise', [c.__name__ for c in type(ex).__mro__])
        if len(g) != 1 and any(x[0] == 'cannot' for x in g):
            why = str(g)[:200]
            continue
        if len(g) != 1:
            return 'differs', f'{len(g)} paths apply to {[np.asarray(x).tolist() if not isinstance(x, list) else x for x in keep]}: {g}'[:400], n
        g = g[0]
        if g[0] == 'cannot':
            why = g[1]
            continue
        if g[0] != want[0]:
            return 'differs', f'{g[:2]}, Python {want} for {keep}'[:600], n
        if g[0] == 'raise':
            d = None if g[1] in want[1] else f'{g[1]}, Python {want[1]}'
        else:
            d = close(g[1], want[1])
            if d is None:
                for x, y in zip(g[2], [x for x in args if isinstance(x, np.ndarray)]):
                    d = d or close(x, y)
                d = d and 'argument afterwards: ' + d
        if d:
            return 'differs', f'{d}; for {keep}'[:700], n
        n += 1
    return ('agrees' if n else 'undetermined'), why, n


def scratch(repo):
    """A directory where the snippets and the package under test are seen as one package by the machine."""
    d = tempfile.mkdtemp(prefix='kv_conform')
    os.mkdir(os.path.join(d, 'kinisi'))
    for f in os.listdir(os.path.join(repo, 'kinisi')):
        if f.endswith('.py'):
            shutil.copy(os.path.join(repo, 'kinisi', f), os.path.join(d, 'kinisi', f))
    shutil.copy(os.path.join(HERE, 'snippets.py'), os.path.join(d, 'kinisi', 'kv_snippets.py'))
    return d


def conform(repo='/repo', samples=12, seed=1, only=None, limit=60):
    sys.path.insert(0, repo)
    mod = importlib.import_module('kv.conform.snippets')
    tree = ast.parse(inspect.getsource(mod))
    d = scratch(repo)
    res = {}
    try:
        for node in tree.body:
            if not isinstance(node, ast.FunctionDef) or node.name.startswith('_') or (only and node.name not in only):
                continue
            fn = getattr(mod, node.name)
            t = time.time()
            try:
                s = one(node.name, fn, spec_of(fn.__doc__), d, samples, seed, limit, 'kv_snippets:' + node.name)
            except Exception as ex:         # noqa
                import traceback
                s = ('error', f'{type(ex).__name__}: {ex} ' + traceback.format_exc()[-500:], 0)
            res[node.name] = s + (round(time.time() - t, 2), )
    finally:
        shutil.rmtree(d)
    return res


def main():
    a = argparse.ArgumentParser()
    a.add_argument('only', nargs='*')
    a.add_argument('--repo', default='/repo')
    a.add_argument('--samples', type=int, default=12)
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('-v', action='store_true')
    a = a.parse_args()
    r = conform(a.repo, a.samples, a.seed, a.only)
    c = {}
    for k, s in r.items():
        c[s[0]] = c.get(s[0], 0) + 1
        if s[0] != 'agrees' or a.v:
            print(f'{s[0]:12s} {k} compared {s[2]} ({s[3]} s) {s[1]}')
    print(c, 'samples compared:', sum(s[2] for s in r.values()))
    return 1 if c.get('differs') or c.get('error') else 0


if __name__ == '__main__':
    sys.exit(main())
