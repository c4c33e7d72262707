"""Pieces of Python executed by the machine and by CPython.  The docstring declares the arguments: name, kind (f real array,
i integer array with lo..hi, g real without coincidences, b boolean array, p positive, u with ties, k integer in [lo, hi), x real, lf/li list of numbers,
la list of arrays) and sizes (z… may be 0, q… at least 2)."""
import numpy as np


# -- arithmetic and broadcasting
def add_row(a, b):
    """a f n 3; b f 3"""
    return a + b


def outer_by_newaxis(a, b):
    """a f n; b f m"""
    return a[:, np.newaxis] * b[np.newaxis] - b


def scalar_ops(a, x):
    """a f z 2; x x"""
    return 2 * a - x + a**2 / 4, -a, a * x


def divide_ints(a, b):
    """a i n -5..6; b i n 1..4"""
    return a / b, a // b, a % b, a - b * (a // b)


def compare(a, b):
    """a u n; b u n"""
    return a < b, a <= b, a == b, a != b, (a > b) & (a != 0), (a >= b) | (b == 0), ~(a < b)


def power(a):
    """a p n"""
    return a**2, a**3, a**-1, a**0.5, np.sqrt(a), np.square(a)


def elementary(a):
    """a p n"""
    return np.exp(a), np.log(a), np.sin(a), np.cos(a), np.arctan2(a, a * 2), np.abs(-a)


def floors(a):
    """a f n"""
    return np.floor(a), np.ceil(a), np.round(a), np.floor(a + 0.5)


def minmax_elementwise(a, b):
    """a u n; b u n"""
    return np.minimum(a, b), np.maximum(a, b), np.clip(a, -1, 1)


def astypes(a):
    """a f n"""
    return a.astype(int), (a > 0).astype(int), (a > 0) * 1.0, a.astype(float)


def mod_negative(a):
    """a f n"""
    return a % 1, a % 1.0, (a + 0.5) % 1 - 0.5


# -- reductions
def sums(a):
    """a f n m"""
    return a.sum(), a.sum(axis=0), a.sum(axis=1), a.sum(axis=-1), np.sum(a, 0)


def means(a):
    """a f n m 3"""
    return a.mean(), a.mean(0), a.mean(axis=(0, 1)), np.mean(a, axis=2), a.mean(axis=1, keepdims=True)


def variances(a):
    """a f q m"""
    return np.var(a), np.var(a, axis=0), a.var(axis=0, ddof=1), np.std(a, axis=0)**2


def averages(a, w):
    """a f n 3; w p n"""
    return np.average(a, axis=0), np.average(a, axis=0, weights=w), np.average(a[:, 0], weights=w)


def minmax(a):
    """a u n m"""
    return a.min(), a.max(), np.max(a), np.min(a)


def argminmax(a):
    """a u n"""
    return np.argmax(a), np.argmin(a), a.argmax(), a[np.argmax(a)]


def anyall(m):
    """m b n q"""
    return m.any(), m.all(), np.any(m), np.all(m), (~m).sum()


def cumsums(a):
    """a f n m 2"""
    return np.cumsum(a, axis=1), np.cumsum(a, axis=0), a[:, 0, 0].cumsum()


def cumsum_start(a):
    """a f n m"""
    c = np.cumsum(a, axis=1)
    return c[:, 1:] - c[:, :-1]


def diffs(a):
    """a f q 3"""
    return np.diff(a, axis=0), np.diff(a[:, 0]), np.diff(a)


def prods(a):
    """a f n"""
    return np.prod(a.shape)


# -- construction
def constructors(a, k):
    """a f n m; k k 0 6"""
    return np.zeros((k, 2)), np.ones(3), np.zeros_like(a), np.ones_like(a), np.full((2, k), 0.5), np.eye(3), np.identity(2), np.arange(k), np.arange(1, k + 3), np.zeros(a.shape)


def aranges(k, j):
    """k k 0 5; j k 1 4"""
    return np.arange(0, 12), np.arange(k, 10), np.arange(j)


def ints_array(a):
    """a li n -3..4"""
    return np.array(a), np.asarray(a) * 2, np.array([1, 2, 3]), np.array([[1, 2.5], [0, 1]])


def linspaces(x, k):
    """x x; k k 2 6"""
    return np.linspace(0, x, k), np.linspace(x, x + 1, 4), np.linspace(1, k, k, endpoint=True)


def geomspaces(p, k):
    """p p 1; k k 2 6"""
    return np.geomspace(p[0], 8, k)


def uniques(a):
    """a i n 0..4"""
    return np.unique(a), len(np.unique(a)), np.unique(a.astype(float))


def concats(a, b):
    """a f n 2; b f m 2"""
    return np.concatenate([a, b]), np.concatenate((a, b, a), axis=0), np.vstack([a, b]), np.append(a[:, 0], b[:, 1]), np.append(a[:, 0], 3.)


def concat_axis1(a, b):
    """a f n 2; b f n m"""
    return np.concatenate([a, b], axis=1), np.concatenate([a, b], axis=-1), np.hstack([a, b]) if False else 0


def stacks(a, b):
    """a f n; b f n"""
    return np.stack([a, b]), np.stack([a, b], axis=1), np.array([a, b]), np.column_stack([a, b])


def inserts(a):
    """a f n"""
    return np.insert(a, 0, 7), np.insert(a, 0, 0.)


def tiles(a, k):
    """a f n; k k 1 4"""
    return np.tile(a, k), np.tile(a, (k, 1)), np.tile(a, (2, 3))


def diags(a, b):
    """a f n; b f n n"""
    return np.diag(a), np.diag(b), np.outer(a, a), np.triu(b), np.tril(b), b.T, np.transpose(b)


# -- shapes
def reshapes(a):
    """a f n m 3"""
    return a.reshape(-1, 3), a.flatten(), a.ravel(), a.reshape(a.shape[0], -1), a.shape, a.ndim, a.size, len(a)


def reshape_fixed(a):
    """a f n 9"""
    return a.reshape(-1, 3, 3), a.reshape(a.shape[0], 3, 3)


def reshape_after(a):
    """a f n m 3"""
    b = a.reshape(-1, 3)
    return b[0], b.sum(0), b[-1], b * 2, b[:, 1], b.mean()


def transposes(a):
    """a f n m 3"""
    return a.transpose(1, 0, 2), np.swapaxes(a, 0, 2), a.T, np.swapaxes(a, 1, -1)


def squeezes(a):
    """a f n 1 3"""
    return np.squeeze(a, axis=1), a[:, 0], np.expand_dims(a[:, 0], 1), a[:, 0][:, None]


# -- indexing
def slices(a, k):
    """a f n 3; k k 0 6"""
    return a[k:], a[:k], a[-k:], a[:-1], a[1:], a[::2], a[::-1], a[1:k], a[k:-1], a[-2:], a[:, 1:], a[..., 0]


def strided(a, j):
    """a f n 2; j k 1 4"""
    return a[::j], a[j - 1::j], a[:, ::j], a[1::2]


def element(a, k):
    """a f q 3; k k 0 2"""
    return a[k], a[-1], a[k, 1], a[-1, -1], a[0][2], a[-2]


def fancy(a, i):
    """a f n 3; i i m 0..n"""
    return a[i], a[i, 1], a[i][:, [2, 0]], a[[0, -1]]


def fancy_two(a, i):
    """a f n m; i i m 0..n"""
    return a[i, np.arange(len(i))]


def fancy_axis1(a, i):
    """a f 3 n 2; i i m 0..n"""
    return a[:, i], a[:, i, 0], a[1, i]


def fancy_list(a, i):
    """a f n 3; i li m 0..n"""
    return a[i], a[:, 0][i]


def masks(a, m):
    """a f n 3; m b n"""
    return a[m], a[m].sum(0), a[:, 0][m], a[~m, 1], m.sum(), np.count_nonzero(m) if False else 0


def mask_value(a):
    """a u n"""
    return a[a > 0], a[a > 0].sum(), len(a[a != 1])


def mask_rows(a, m):
    """a f 2 n 3; m b n"""
    return a[:, m], a[:, m].mean(axis=1) if False else 0, a[0, m]


def wheres(a, b):
    """a u n; b f n"""
    return np.where(a > 0, a, b), np.where(a > 0)[0], np.where(a == 0, 1, 0), np.nonzero(a)[0], np.flatnonzero(a > 1), np.argwhere(a > 0).flatten()


def where_2d(a):
    """a u n m"""
    i, j = np.where(a > 0)
    return a[i, j]


# -- assignment
def set_slice(a, b):
    """a f q 3; b f 3"""
    a[1:] = b
    a[0, 2] = 9
    return a


def set_mask_2d(a):
    """a u n 2"""
    a[a > 0] = -1
    return a


def set_mask_1d(a, m):
    """a f n; m b n"""
    a[m] = 0
    return a


def set_column(a, b):
    """a f n 3; b f n"""
    a[:, 1] = b
    a[:, -1] *= 2
    return a


def set_fancy(a, k):
    """a f n; k k 0 n"""
    a[k] += 3
    a[-1] = a[0]
    return a


def set_diag(a):
    """a f 3 3"""
    for i in range(3):
        a[i, i] = i
    return a


def views_write(a):
    """a f q 3"""
    b = a[1:]
    b[0] = 7
    return a, b


def view_reads_later(a):
    """a f q 3"""
    b = a[1:]
    c = a.T
    d = a.copy()
    a[1, 1] = 7
    return a, b, c, d


def copies_do_not_write(a):
    """a f q 3"""
    b = a[1:].copy()
    b[0] = 7
    d = a.flatten()
    d[0] = 4
    e = a[[0, 1]]
    e[0, 0] = 11
    f = np.array(a)
    f += 1
    return a, b, d, e, f


def asarray_writes(a):
    """a f n"""
    b = np.asarray(a)
    b += 1
    return a


def inplace_alias(a, b):
    """a f n; b f n"""
    c = a
    c += b
    d = a
    d = d + 1
    return a, c, d


def list_alias(k):
    """k k 0 4"""
    a = [1, 2]
    b = a
    b += [k]
    c = a
    c = c + [9]
    return a, b, c


# -- linear algebra
def matmuls(a, b):
    """a f n 3; b f 3 m"""
    return a @ b, np.matmul(a, b), np.dot(a, b), a.dot(b)


def matmul_batch(a, b):
    """a f n m 3; b f 3 3"""
    return np.dot(a, b), a @ b, np.matmul(a, b)


def matvec(a, b):
    """a f n 3; b f 3"""
    return a @ b, np.dot(a, b), np.dot(b, b)


def einsums(a, b, c):
    """a f n m 3; b f n 3 3; c f m 3"""
    return np.einsum('jik,jkl->jil', a, b), np.einsum('ij,ij->i', c, c), np.einsum('nmk,mk->n', a, c)


def inverse3(b):
    """b f 3 3"""
    c = b + 8 * np.eye(3)
    return np.linalg.inv(c), np.linalg.inv(c) @ c


def inverse_batch(b):
    """b f n 3 3"""
    c = b + 8 * np.eye(3)
    return np.linalg.inv(c)


# -- lists and loops
def append_loop(a):
    """a f n 3"""
    out = []
    for x in a:
        out.append(x * 2)
    return np.array(out), len(out)


def filter_loop(a):
    """a li n -3..4"""
    out = []
    for x in a:
        if x > 0:
            out.append(x * x)
    return out, len(out)


def filter_comp(a):
    """a li n -3..4"""
    return [x for x in a if x != 1], [i for i, x in enumerate(a) if x < 0], sum(1 for x in a if x > 0)


def skip_loop(a):
    """a lf n"""
    s = 0
    k = 0
    for x in a:
        if x < 0:
            continue
        s += x
        k += 1
    return s, k


def accumulate_array(a):
    """a f n 3"""
    s = np.zeros(3)
    for i in range(a.shape[0]):
        s += a[i] * i
    return s


def fill_loop(a):
    """a f n 3"""
    out = np.zeros((a.shape[0], 2))
    for i in range(len(a)):
        out[i] = a[i, :2] - a[i, 2]
    return out


def fill_triangle(a):
    """a f n"""
    c = np.zeros((a.size, a.size))
    for i in range(a.size):
        for j in range(i, a.size):
            v = a[i] * (j - i + 1)
            c[i, j] = v
            c[j, i] = v
    return c


def nested_append(a):
    """a f n m"""
    out = []
    for i in range(a.shape[0]):
        row = []
        for j in range(a.shape[1]):
            row.append(a[i, j] + i)
        out.append(row)
    return np.array(out)


def last_value(a):
    """a lf n"""
    r = 0
    for x in a:
        r = x
    return r


def found_flag(a):
    """a li n -3..4"""
    found = False
    for x in a:
        if x == 2:
            found = True
    return found


def counters(k):
    """k k 0 6"""
    t = 0
    i = 10
    for j in range(k):
        t += j
        i -= 2
    return t, i


def while_steps(k):
    """k k 1 40"""
    n = 3
    while n < k:
        n += 5
    return n


def growing(k, x):
    """k k 0 5; x x"""
    v = x
    for _ in range(k):
        v = v + 1
    return v


def previous_in_loop(a):
    """a f q"""
    out = []
    prev = a[0]
    for x in a[1:]:
        out.append(x - prev)
        prev = x
    return out


def zip_loop(a, b):
    """a lf n; b lf n"""
    return [x * y for x, y in zip(a, b)], [(i, x) for i, x in enumerate(a)]


def zip_short(a, b):
    """a lf n; b lf m"""
    return [x - y for x, y in zip(a, b)]


def list_ops(a, k):
    """a lf q; k k 0 2"""
    b = list(a)
    b.append(1)
    return b, a[k], a[-1], a[1:], a[::-1], len(b), a + b, 5 in b


def list_methods(a):
    """a lf n"""
    b = a.copy()
    b.extend([1, 2])
    b.insert(0, 3)
    return b, a


def range_ops(k):
    """k k 1 6"""
    r = range(1, k + 1)
    return len(r), list(r), r[0], r[-1], list(range(k, 9)), k in r


def tuples(a):
    """a f n 3"""
    x, y = a.shape
    (p, q), r = (1, 2), 3
    return x, y, p + q * r, (1, ) + a.shape


def sum_of_list(a):
    """a lf n"""
    return sum(a), sum([x * 2 for x in a]), max(a), min(a), np.sum(a), np.mean(a)


def list_of_arrays(d):
    """d la n 3 2"""
    return [x.sum() for x in d], np.concatenate(d), np.concatenate(d, axis=1), np.array(d).mean(0), len(d), d[-1]


def ragged(d):
    """d la n i+1 2"""
    return [x.shape[0] for x in d], [x.sum(0) for x in d], [x.size for x in d]


# -- dictionaries, functions, exceptions
def dicts(k, x):
    """k k 0 5; x x"""
    d = {'a': k, 'b': x}
    d['c'] = k + 1
    d.update({'a': 2})
    e = dict(d, z=1)
    return d, d.get('q', 4), list(d), 'b' in d, len(e), {**d, 'y': 0}


def keyword(k):
    """k k 0 5"""
    def f(a, b=2, *c, d=4, **e):
        return a + 10 * b + 100 * len(c) + d + len(e)
    return f(k), f(k, 1), f(k, 1, 2, 3), f(a=k, d=0), f(k, q=1, r=2), f(*[k, 3], **{'d': 1})


def raises(k):
    """k k 0 5"""
    if k > 2:
        raise ValueError('too large')
    try:
        if k == 1:
            raise KeyError('x')
        r = 1
    except KeyError:
        r = 2
    finally:
        k = k + 10
    return r, k


def index_error(a, k):
    """a lf n; k k 0 5"""
    try:
        return a[k]
    except IndexError:
        return None


def unpack_error(a):
    """a f n 3"""
    return a[3] if len(a) > 3 else a[0]


def shape_error(a, b):
    """a f n; b f m"""
    return a + b


def ternaries(k, x):
    """k k 0 5; x x"""
    y = x if k > 2 else -x if k == 1 else 0
    return y, k if x > 0 and k else 'no', x or 1, not k, 1 < k <= 3, min(k, 3), abs(x), int(x), float(k), divmod(k, 2) if False else 0


class _Base:
    n = 3

    def __init__(self, a, b=1):
        self.a = a
        self._b = b

    @property
    def b(self):
        return self._b * self.n

    def twice(self):
        return self.a * 2 + self.b

    @classmethod
    def make(cls, a):
        return cls(a, b=5)

    @staticmethod
    def free(x):
        return x + 1


class _Derived(_Base):
    n = 4

    def __init__(self, a):
        super().__init__(a, b=2)
        self.c = a + 1

    def twice(self):
        return super().twice() + self.c


def classes(k):
    """k k 0 5"""
    o = _Derived(k)
    p = _Base.make(k)
    p.n = 10
    return o.twice(), p.twice(), o.b, p.b, _Base.n, o.free(2), isinstance(o, _Base), hasattr(o, 'c'), hasattr(p, 'c'), getattr(p, 'q', 7)


def closures(k):
    """k k 0 5"""
    fs = []
    for i in range(3):
        fs.append(lambda x: x + i)
    g = [lambda x, i=i: x * i for i in range(3)]
    return [f(k) for f in fs], [h(k) for h in g]


def nonlocals(k):
    """k k 0 5"""
    c = 0

    def f():
        nonlocal c
        c += k
        return c
    f()
    return f(), c


def fstrings(k):
    """k k 0 3"""
    return 'a' + 'b', 'abc'.upper(), 'x' in 'xyz', 'a,b'.split(','), 'abc'[1:], 'abc'.startswith('a'), 'a' == 'b', 'abc'.lower().endswith('x'), ' a '.strip()


# -- aliasing: what is one object and what is another
def element_write(a):
    """a f n 3"""
    d = [x * 2 for x in a]
    d[0] += 1
    return d


def element_write_loop(a):
    """a f n 3"""
    d = [x * 2 for x in a]
    for x in d:
        x += 1
    return d


def element_alias(a):
    """a f n 3"""
    d = [x * 2 for x in a]
    b = d[0]
    b[0] = 5
    return d[0], b


def element_replace(a):
    """a f q 3"""
    d = [x * 2 for x in a]
    e = d
    d[0] = np.zeros(3)
    return e[0], d[1]


def row_views(a):
    """a f n 3"""
    for x in a:
        x += 1
    return a


def row_views_replaced(a):
    """a f n 3"""
    for x in a:
        x = x + 1
    return a


def lists_of_lists(k):
    """k k 1 5"""
    rows = [[0] for _ in range(3)]
    rows[0].append(k)
    same = [[0]] * 2
    same[0].append(k)
    return rows, same


def list_appended_twice(a):
    """a lf n"""
    out = []
    row = []
    for x in a:
        row.append(x)
        out.append(row)
    return out


def array_appended_each_time(a):
    """a lf n"""
    z = np.zeros(2)
    out = []
    for x in a:
        z[0] = x
        out.append(z)
    return out


def array_copied_each_time(a):
    """a lf n"""
    z = np.zeros(2)
    out = []
    for x in a:
        z[0] = x
        out.append(z.copy())
    return out


def last_array_written_after(a):
    """a f n 3"""
    out = []
    for x in a:
        y = x * 2
        out.append(y)
    y += 1
    return out


def array_in_dict(a):
    """a f n"""
    d = {'a': a, 'b': a}
    d['a'] += 1
    return d['b'], a


def array_in_object(a):
    """a f n"""
    o = _Derived(1)
    o.c = a
    p = o
    p.c += 1
    o.a = o.c * 2
    return a, p.a


def tuple_of_arrays(a):
    """a f n"""
    t = (a, a.copy())
    u = t[0]
    u += 1
    return t


def swap_rows(a):
    """a f q 3"""
    a[0], a[1] = a[1], a[0]
    return a


def swap_scalars(a):
    """a f q"""
    a[0], a[1] = a[1], a[0]
    x = a[0]
    a[0] = 9
    return a, x


def overlapping(a):
    """a f q 2"""
    a[1:] = a[:-1]
    return a


def overlapping_add(a):
    """a f q 2"""
    a[1:] += a[:-1]
    return a


def recurrence(a):
    """a f q"""
    for i in range(1, len(a)):
        a[i] = a[i - 1] + a[i]
    return a


def written_ahead(a):
    """a f q"""
    b = np.zeros(len(a))
    for i in range(len(a) - 1):
        b[i + 1] = a[i]
    return b


def written_twice(a):
    """a f n"""
    b = np.zeros(len(a))
    for i in range(len(a)):
        b[i] = a[i]
        b[0] = i
    return b


def written_reversed(a):
    """a f n"""
    b = np.zeros(len(a))
    for i in range(len(a)):
        b[len(a) - 1 - i] = a[i]
    return b


def read_after_write(a):
    """a f n"""
    b = np.ones(len(a))
    for i in range(len(a)):
        a[i] = a[i] + 1
        b[i] = a[i] * 2
    return a, b


def column_writes(a):
    """a f n 3"""
    b = np.zeros((len(a), 3))
    for j in range(3):
        b[:, j] = a[:, (j + 1) % 3]
    return b


def helper_writes(a):
    """a f n"""
    def f(x):
        x += 1
        x = x * 2
        return x
    b = f(a)
    return a, b


def list_argument(a):
    """a lf n"""
    def f(x):
        x.append(1)
        x = x + [2]
        return x
    b = f(a)
    return a, b


def dict_argument(k):
    """k k 0 5"""
    def f(x=None):
        x = x or {}
        x['q'] = k
        return x
    d = {'r': 1}
    e = {}
    return f(d), d, f(e), e, f()


def unpacked_argument(k):
    """k k 0 5"""
    def f(**q):
        q['x'] = 0
        return q
    d = {'x': k}
    return f(**d), d


# -- what loops compute
def no_iterations(k):
    """k k 0 3"""
    r = 'none'
    for i in range(k):
        r = i
    return r


def unbound_after(k):
    """k k 0 3"""
    for i in range(k):
        pass
    return i


def break_out(a):
    """a li n -3..4"""
    r = 0
    for x in a:
        if x > 2:
            break
        r += x
    return r


def loop_else(a):
    """a li n -3..4"""
    for x in a:
        if x > 2:
            return 'found'
    return 'none'


def two_sums(a):
    """a lf n"""
    s = t = 0
    for x in a:
        s += x
        t += s
    return s, t


def sum_then_use(a):
    """a lf n"""
    s = 0
    out = []
    for x in a:
        out.append(s)
        s += x
    return out


def product(a):
    """a lf n"""
    p = 1
    for x in a:
        p *= x
    return p


def running_max(a):
    """a lf n"""
    m = a[0]
    for x in a:
        if x > m:
            m = x
    return m


def conditional_sum(a, b):
    """a lf n; b lf n"""
    s = 0
    for x, y in zip(a, b):
        if x > 0 and y > 0:
            s += x * y
        elif x < -1:
            s -= 1
    return s


def conditional_last(a):
    """a lf n"""
    r = None
    for x in a:
        if x > 0:
            r = x
    return r


def two_lists(a):
    """a li n -3..4"""
    p, q = [], []
    for i, x in enumerate(a):
        if x > 0:
            p.append(x)
        else:
            q.append(i)
    return p, q, len(p) + len(q)


def append_two(a):
    """a lf n"""
    out = []
    for x in a:
        out.append(x)
        out.append(-x)
    return out


def prepend(a):
    """a lf n"""
    out = []
    for x in a:
        out.insert(0, x)
    return out


def rebuilt_list(a):
    """a lf n"""
    out = []
    for x in a:
        out = out + [x]
    return out


def nested_dependent(k):
    """k k 1 6"""
    out = []
    for i in range(k):
        for j in range(i):
            out.append(i * 10 + j)
    return out


def nested_sums(a):
    """a f n m"""
    s = 0
    for i in range(a.shape[0]):
        r = 0
        for j in range(a.shape[1]):
            r += a[i, j]
        s += r * i
    return s


def pairs(a):
    """a lf n"""
    return [(x, y) for x in a for y in a if x < y]


def while_list(k):
    """k k 0 9"""
    out = [1]
    while len(out) < k:
        out.append(len(out))
    return out


def while_down(k):
    """k k 0 9"""
    n = 0
    while k > 0:
        k -= 2
        n += 1
    return k, n


def while_break(k):
    """k k 0 9"""
    n = 0
    while True:
        n += 3
        if n > k:
            break
    return n


def counting_with_default(a):
    """a lf n"""
    c = {'n': 0}
    for x in a:
        c['n'] += 1
    return c


def attribute_in_loop(a):
    """a lf n"""
    o = _Derived(0)
    for x in a:
        o.c = x
        o.a += 1
    return o.c, o.a


def first_time(a):
    """a f n 3"""
    p = None
    out = []
    for x in a:
        if p is None:
            p = x
        out.append(x - p)
        p = x
    return np.array(out)


def first_kept(a):
    """a f n 3"""
    p = None
    out = []
    for x in a:
        if p is None:
            p = x * 2
        out.append(x - p)
    return np.array(out)


def set_membership(a, k):
    """a li n -3..4; k k 0 4"""
    s = set(a)
    return k in s, [x in s for x in range(3)], k in {x * 2 for x in a}


def dict_item_inplace(k):
    """k k 0 5"""
    d = {'a': [1]}
    b = d['a']
    d['a'] += [k]
    e = [np.zeros(2), 3]
    c = e[0]
    e[0] += k
    e[1] += k
    return b, d, c, e


def generator_sum(a):
    """a lf n"""
    return sum(x * 2 for x in a), any(x > 1 for x in a), all(x > -2 for x in a), max([x for x in a]), [*a, 1]


def dict_of_lists(a):
    """a li n 0..3"""
    d = {'even': [], 'odd': []}
    for x in a:
        d['even' if x % 2 == 0 else 'odd'].append(x)
    return d


def set_ops(k):
    """k k 0 5"""
    return k in {1, 2}, k in (3, 4), k not in [0]


# -- numbers
def int_of(x):
    """x x"""
    return int(x), abs(x), -x // 1, x % 2, int(x // 1)


def int_arrays(a, k):
    """a i n -5..6; k k 1 4"""
    b = a.copy()
    b[0] = -2.5
    b[-1] += k
    return b, a * 0.5, a * k, a / k, a.astype(float) / 2


def int_inplace_float(a):
    """a i n -5..6"""
    a += 0.5
    return a


def bool_arrays(m, a):
    """m b n; a f n"""
    return m.sum(), m * a, m.mean(), m + 1, m.astype(int), np.where(m, 1.5, 0), np.argmax(m)


def half_even(a):
    """a i n -5..6"""
    return np.round(a / 2), np.floor(a / 2), np.ceil(a / 2), (a / 2).astype(int)


def sums_keepdims(a):
    """a f n m 2"""
    return a.sum(axis=(0, 2)), a.sum(axis=1, keepdims=True), a - a.mean(axis=0), a.mean(axis=(0, 1), keepdims=True)


def broadcast3(a, b, c):
    """a f n 1; b f 1 m; c f m"""
    return a * b, a + c, (a * b)[:, None] + c, a[:, 0] * b[0, 0]


def broadcast_one(a, b):
    """a f n m; b f n"""
    return a * b[:, None], (a.T * b).T, a * b.reshape(-1, 1)


def broadcast_fails(a, b):
    """a f n m; b f n"""
    return a * b


def negative_index(a, k):
    """a f q; k k 0 2"""
    return a[-k], a[k - 1], a[-k:], a[:-k], a[len(a) - 1 - k]


def slice_bounds(a, k):
    """a f n; k k -7 8"""
    return a[k:], a[:k], a[k:k + 2], a[max(k, 0):], a[-3:k]


def slice_of_slice(a, k):
    """a f n 3; k k 0 4"""
    return a[k:][1:], a[1:][:, 1:], a[::-1][:k], a[:, ::2][k:], a[::2][::2]


def slice_lists(a, k):
    """a lf n; k k -7 8"""
    return a[k:], a[:k], a[-2:], a[::-1], a[1::2]


def cumulative_windows(a, k):
    """a f n q 3; k k 1 3"""
    c = np.cumsum(a, axis=1)
    d = np.concatenate([c[:, k - 1:k], c[:, k:] - c[:, :-k]], axis=1)
    return d, d.shape, np.sum(d**2, axis=-1).mean(), d.size


def masked_mean(a, m):
    """a f n 3; m b n"""
    b = a[m]
    return b.shape, b.sum(axis=0), b.size, len(b), (a[:, 0] * m).sum()


def mask_of_mask(a):
    """a f n"""
    b = a[a > -1]
    return b[b < 1], (b < 1).sum()


def index_of_index(a, i):
    """a f n 3; i i m 0..n"""
    b = a[i]
    return b[0], b[-1], b[::-1], b[:, 1].sum(), b.T


def weighted(a, w):
    """a f n 3; w p n"""
    return (a * w[:, None]).sum(0) / w.sum(), np.average(a, axis=0, weights=w / w.sum())


def eigen(b):
    """b f 3 3"""
    c = b + b.T
    v, w = np.linalg.eigh(c)
    return v, v.max(), v[-1] / v[0] if False else 0


def determinant(b):
    """b f 2 2"""
    s, l = np.linalg.slogdet(b @ b.T + np.eye(2))
    return s, l


# -- the package itself: the same comparison on the functions the contracts are about
def kinisi_disp(c, l):
    """c la q m 1 3; l f q 3 3"""
    from kinisi.parser import Parser
    return Parser.get_disp(c, l + 8 * np.eye(3), progress=False)


def kinisi_disp_list(c, l):
    """c la q m 1 3; l f q 3 3"""
    from kinisi.parser import Parser
    return Parser.get_disp(c, [x + 8 * np.eye(3) for x in l])


def kinisi_drift(d, i):
    """d f n m 3; i li k 0..n"""
    from kinisi.parser import Parser
    return Parser.correct_drift(i, d), Parser.correct_drift([], d), d


def _parser(time_step, step_skip, indices, min_dt=None, max_dt=None, sampling='multi-origin', memory_limit=8.):
    from kinisi.parser import Parser

    class Bare(Parser):
        def __init__(self):
            self.time_step, self.step_skip, self.indices, self.sampling, self.memory_limit = time_step, step_skip, indices, sampling, memory_limit
            self.min_dt, self.max_dt = min_dt, max_dt
    return Bare()


def kinisi_windows(d, t, i):
    """d f n 6 3; t i m 1..6; i li k 0..n"""
    return _parser(0.5, 3, i).get_disps(t, d, False)


def kinisi_windows_single(d, t, i):
    """d f n q 3; t i m 1..q; i li k 0..n"""
    return _parser(0.5, 3, i, sampling='single-origin').get_disps(t, d)


def kinisi_windows_other(d, t, k):
    """d f 2 q 3; t i m 1..q; k k 0 2"""
    return _parser(0.5, 3, [0, 1], sampling='multi-origin' if k else 'none').get_disps(t, d)[2]


def kinisi_memory(d, t, k):
    """d f 2 n 3; t i m 1..n+1; k k 0 400"""
    return _parser(0.5, 3, [0, 1], memory_limit=(k + 0.5) * 1e-9).get_disps(t, d, False)[0]


def kinisi_intervals(k, j, s):
    """k k 0 4; j k 4 30; s k 1 9"""
    return _parser(0.5, 2, [], min_dt=k, max_dt=j).get_time_intervals(s, 'linear')


def kinisi_intervals_log(k, j, s):
    """k k 0 4; j k 4 30; s k 2 9"""
    return _parser(0.5, 2, [], min_dt=k + 0.4, max_dt=j).get_time_intervals(s, 'logarithmic'), _parser(1, 1, [], 1, 2).get_time_intervals(2, 'linear')


def kinisi_molecules(c, m, w):
    """c g q n 1 3; m i k 2 1..n; w p 2"""
    from kinisi.parser import _get_molecules
    r, i = _get_molecules(range(c.shape[1]), c, m, list(w), None)
    return np.cos(r * 2 * np.pi), np.sin(r * 2 * np.pi), i


def kinisi_framework(k, i):
    """k k 0 5; i li m 0..5"""
    from kinisi.parser import _get_framework
    return _get_framework(range(k), i, None), _get_framework(range(k), i, (2, 1))


def kinisi_stack(a, b):
    """a la n 2 i+1 3; b la n 2 i+1 3"""
    from kinisi.analyzer import Analyzer, _flatten_list

    class U:
        def __init__(self, d):
            self.disp_3d = d
    return Analyzer._stack_trajectories([U(a), U(b)]), _flatten_list([[1], [2, 3]])


def kinisi_msd(t, d, n):
    """t p n; d la n m obs(i) 3; n p n"""
    from kinisi.diffusion import MSDBootstrap
    b = MSDBootstrap(t, d, n, progress=False)
    return b.dt, b.n, b.v, b.s, b.ngp, b._n_o, [x.samples for x in b.euclidian_displacements]


def kinisi_msd_options(t, d, n, k):
    """t p n; d la n m obs(i) 3; n p n; k k 1 4"""
    from kinisi.diffusion import MSDBootstrap
    b = MSDBootstrap(t, d, n, sub_sample_dt=k, dimension='xz', progress=False)
    return b.dt, b.n, b.v, b.s, b._n_o, b.dims


def kinisi_mstd(t, d, n):
    """t p n; d la n m obs(i) 3; n p n"""
    from kinisi.diffusion import MSTDBootstrap
    b = MSTDBootstrap(t, d, n * 4, dimension='y', progress=False)
    return b.dt, b.n, b.v, b.s, b.ngp, b._n_o, [x.samples for x in b.euclidian_displacements]


def kinisi_mscd(t, d, n, q):
    """t p n; d la n 2 obs(i) 3; n p n; q lf 2"""
    from kinisi.diffusion import MSCDBootstrap
    b = MSCDBootstrap(t, d, q, n * 4, progress=False)
    return b.dt, b.n, b.v, b.s, b._n_o


def kinisi_covariance(v, n):
    """v p n; n p n"""
    from kinisi.diffusion import _populate_covariance_matrix, _straight_line
    return _populate_covariance_matrix(v, n), _straight_line(v, 2, 3), _straight_line(v, 2.5)


def kinisi_minimum_eigenvalue(b):
    """b f 3 3"""
    from kinisi.diffusion import minimum_eigenvalue_method
    return minimum_eigenvalue_method(b @ b.T, 10)


def kinisi_ngp(a):
    """a p n m"""
    from kinisi.diffusion import Bootstrap
    return Bootstrap.ngp_calculation(a)


def kinisi_laws(t, x):
    """t p n; x x"""
    from kinisi.arrhenius import arrhenius, super_arrhenius
    return arrhenius(t * 400, x / 10, 2), super_arrhenius(t * 900, 0.1, 3, x)


def kinisi_dict(t, d, n):
    """t p n; d la n m obs(i) 3; n p n"""
    from kinisi.diffusion import MSDBootstrap
    b = MSDBootstrap(t, d, n, progress=False)
    c = MSDBootstrap.from_dict(b.to_dict())
    e = c.to_dict()
    return c.dt, c.n, e['v'], e['n_o'], e['displacements'], c._slice == b._slice, e['start_dt']


def out_keyword(a, b):
    """a f n 3; b f n 3"""
    c = np.zeros(a.shape)
    d = np.subtract(a, b, out=c)
    np.multiply(c, c, c)
    np.sqrt(c, out=c)
    return c, d, a


def out_aliased(a):
    """a f n"""
    x = a * 2
    y = x
    np.add(x, a, out=x)
    np.cumsum(x, out=x)
    return x, y, a
