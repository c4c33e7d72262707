"""Contracts (functional specifications) of the functions in kinisi/parser.py."""
from ..verify import *          # noqa


def item(e, lst, k):
    """Element k of a list or index array."""
    if isinstance(lst, SArr):
        return lst.at(num(k))
    return num(e.rep_at(e.seqof(lst), num(k)))


def length(e, lst):
    if isinstance(lst, SArr):
        return axlen(lst.axes[0])
    return rep_len(e.seqof(lst))


def correct_drift(e, framework, disp):
    m = length(e, framework)
    if not e.branch(lt(0, m)):
        return disp
    g = disp.getter()

    def el(idx):
        k = fresh('k', 'i')
        return g(idx) - Sum(k, m, g([item(e, framework, k), idx[1], idx[2]])) / m
    return SArr(disp.axes, el)


def displacements(n, F, x, L):
    """Running sums of the frame-to-frame Cartesian changes, reduced by whole lattice vectors of the later frame."""
    def el(idx):
        a, t, j = [num(q) for q in idx]
        s = fresh('s', 'i')
        w = lambda q, c: sum((x(q, a, k) * L(q, num(k), num(c)) for k in range(3)), ZERO)        # noqa
        es = [L(s + 1, num(p), num(q)) for p in range(3) for q in range(3)]
        d = [w(s + 1, c) - w(s, c) for c in range(3)]
        step = ZERO
        for c in range(3):
            d_c = d[c]
            red = ZERO
            for k in range(3):
                f = sum((d[m] * app('inv3', *es, num(m), num(k)) for m in range(3)), ZERO)
                red = red + floor(f + num(Fraction(1, 2))) * L(s + 1, num(k), num(c))
            step = step + ite(eq(j, c), d_c - red, 0)
        return Sum(s, t + 1, step)
    return SArr(simple(n, F - 1, 3), el)


# ------------------------------------------------------------------------------------------------------------------
# time intervals
# ------------------------------------------------------------------------------------------------------------------
def whole_steps(x, unit):
    """Whole steps contained in a time, a ratio within rounding of a whole number counting as that number."""
    r = x / unit
    return floor(r if r.is_int() else app('round6', r))


def grid(e, lo, hi, n, spacing):
    """Distinct values of the requested spacing of n values from lo to hi, each rounded down."""
    lo = ONE if e.branch(eq(lo, 0)) else lo
    if spacing == 'linear':
        f = (lambda idx: lo) if e.branch(le(n, 1)) else (lambda idx: floor(lo + num(idx[0]) * (hi - lo) / (n - 1)))
        a = SArr(simple(n), f, 'i')
    elif spacing == 'logarithmic':
        g = e.ext.np_geomspace(lo, hi, n).getter()
        a = SArr(simple(n), lambda idx: floor(app('round6', g(idx))), 'i')
    else:
        raise RaiseEx(ExcV('ValueError'))
    return e.ext.np_unique(a)


# ------------------------------------------------------------------------------------------------------------------
# displacements of the windows
# ------------------------------------------------------------------------------------------------------------------
def memory(e, tau, dc, A):
    """Bytes x 1e-9 of all multi-origin displacement vectors of A atoms."""
    N, D = dc.dims()[1:]
    i = fresh('i', 'i')
    return Sum(i, axlen(tau.axes[0]), A * (N - tau.at(i) + 1) * D * dc.meta['itemsize']) * num(Fraction(1, 10**9))


def windows(e, tau, dc, indices, sampling, ts, skip, limit):
    """(times, displacement arrays, numbers of independent observations)"""
    A = length(e, indices)
    N, D = dc.dims()[1:]
    n = axlen(tau.axes[0])
    if e.branch(lt(limit, memory(e, tau, dc, A))):
        raise RaiseEx(ExcV('MemoryError'))
    g = dc.getter()
    multi = sampling == 'multi-origin'
    if sampling not in ('multi-origin', 'single-origin'):
        if e.branch(le(1, n)):
            raise RaiseEx(ExcV('ValueError'))

    def obs(i):
        return N - tau.at(i) + 1 if multi else ONE

    def arr(i):
        m = tau.at(i)

        def el(idx):
            a, w, x = [num(q) for q in idx]
            at = item(e, indices, a)
            first = g([at, m - 1, x])
            if not multi:
                return first
            return ite(eq(w, 0), first, g([at, w + m - 1, x]) - g([at, w - 1, x]))
        return SArr(simple(A, obs(i), D), el)

    def kept(i):
        # windows that do not overlap
        m = tau.at(i)
        return lt(1, A * floor((obs(i) + m - 1) / m))
    times = SArr(tau.axes, lambda idx: tau.at(*idx) * ts * skip)
    disp = PyList(('filt', n, kept, arr))
    last = tau.at(n - 1)
    no = e.ext.from_rep(('filt', n, kept, lambda i: A * last / tau.at(i)))
    return times, disp, no
