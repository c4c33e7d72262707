"""C01 continuous displacements."""
from ..verify import *          # noqa
from . import parser_specs as ps


def trajectory(v, const=False, array=False):
    """Frames of fractional coordinates (atoms, 1, 3) and cells."""
    n, F = v.int_('atoms', 1), v.int_('frames', 2)
    if array:
        coords = v.arr('coords', F, n, 1, 3)
    else:
        coords = v.arrlist('coords', F, lambda i: [n, num(1), num(3)])
    if const:
        def get(i):
            a = SArr(simple(3, 3), lambda idx: app('in_cell', *[num(x) for x in idx]))
            a.store.owner = 'cells'
            return a
        latt = PyList(('seq', Seq(F, get)), owner='cells')
    else:
        latt = v.arrlist('cell', F, lambda i: [num(3), num(3)])
    return n, F, coords, latt


def check(v, tier):
    for array in (False, True):
        def general(v, array=array):
            def path():
                e = v.E
                n, F, coords, latt = trajectory(v, array=array)
                out = v.call(e.get('parser:Parser.get_disp'), [coords, latt, e.branch(bapp('in_progress'))])
                if out.kind != 'ret':
                    v.mismatch('returns', str(out))
                    return
                x = lambda s, a, k: app('in_coords', s, a, num(0), num(k))        # noqa
                L = lambda s, i, j: app('in_cell', s, i, j)        # noqa
                v.same('running-sum-of-reduced-steps', out.value, ps.displacements(n, F, x, L))
                v.frame()
            v.paths(path)
        v.group(f'get_disp[any cells, {"array" if array else "list"}]', general)

    def constant(v):
        def path():
            e = v.E
            n, F, coords, latt = trajectory(v, const=True)
            f = e.get('parser:Parser.get_disp')
            out = v.call(f, [coords, latt, False])
            if out.kind != 'ret' or not isinstance(out.value, SArr):
                v.mismatch('returns', str(out))
                return
            # with a constant cell the steps are the fractional differences reduced to [-1/2, 1/2)
            L = lambda i, j: app('in_cell', i, j)        # noqa
            x = lambda s, a, k: app('in_coords', s, a, num(0), num(k))        # noqa

            def el(idx):
                a, t, j = idx
                s = fresh('s', 'i')
                tot = ZERO
                for k in range(3):
                    d = x(s + 1, a, k) - x(s, a, k)
                    tot = tot + (d - floor(d + num(Fraction(1, 2)))) * L(num(k), j)
                return Sum(s, num(t) + 1, tot)
            v.same('reduced-fractional-differences', out.value, SArr(simple(n, F - 1, 3), el))
            # re-wrapping by whole lattice vectors changes nothing
            w = lambda i, a, k: app('in_wrap', num(i), num(a), num(k), sort='i')        # noqa

            def get(i):
                return SArr(simple(n, 1, 3), lambda idx: app('in_coords', num(i), *[num(q) for q in idx]) + w(i, idx[0], idx[2]))
            two = v.call(f, [PyList(('seq', Seq(F, get))), latt, False])
            if two.kind != 'ret':
                v.mismatch('re-wrapping', str(two))
                return
            v.same('re-wrapping-invariance', two.value, out.value)
            v.frame()
        v.paths(path)
    v.group('get_disp[constant cell]', constant)

    def lemma(v):
        def path():
            y = v.real('y')
            r = y - floor(y + num(Fraction(1, 2)))
            v.holds('reduced-components-in-range', conj(le(num(Fraction(-1, 2)), r), lt(r, num(Fraction(1, 2)))))
        v.paths(path)
    v.group('reduction lemma', lemma)
    v.trusted.add('numpy.linalg.inv: the matrix inverse (cells are assumed invertible)')
    v.assumptions.add('arithmetic on reals: rounding of floating-point numbers is not modelled')
