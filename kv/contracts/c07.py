"""C07 centres of mass of molecules."""
from ..verify import *          # noqa
from ..extmodel import NATOMS
from ..npmodel import PI
from ..prove import replace_atom
from . import parser_flow as pf
from .c06 import structure


def heads(x, h):
    return [a for a in apps_of(x) if a.data[0] == h]

HALF = Fraction(1, 2)


def molecules(v, kind, how, weighted):
    def path():
        e = v.E
        s, A, _ = structure(v, kind)
        F = v.int_('frames', 1)
        u = lambda t, a, x: app('in_u', num(t), num(a), num(x))        # noqa
        z = lambda t, a, x: app('in_z', num(t), num(a), num(x), sort='i')        # noqa
        coords = PyList(('seq', Seq(F, lambda t: SArr(simple(A, 1, 3), lambda i, t=t: u(t, i[0], i[2]) + z(t, i[0], i[2])))))
        n, m = v.int_('nmol', 1), v.int_('molsize', 1)
        v.E.pr.facts['in_mol'] = lambda i, j: [implies(conj(le(0, i), lt(i, n), le(0, j), lt(j, m)), conj(le(1, app('in_mol', i, j, sort='i')), le(app('in_mol', i, j, sort='i'), A)))]
        mol = lambda i: PyList(('seq', Seq(m, lambda j: app('in_mol', num(i), num(j), sort='i'))), owner='molecule')        # noqa
        sel = PyList(('seq', Seq(n, mol)), owner='molecules')
        w = None
        if weighted:
            nw = v.int_('nmasses', 1)
            if e.branch(eq(nw, m)):
                nw = m
            v.E.pr.facts['in_mass'] = lambda j: [lt(0, app('in_mass', j))]
            w = PyList(('seq', Seq(nw, lambda j: app('in_mass', num(j)))), owner='masses')
        fr = None if how == 'rest' else v.intlist('framework', v.int_('nframework', 0), 1, A + 1)
        out = v.call(e.get('parser:_get_molecules'), [s, coords, sel, w, fr])

        def expected():
            if weighted and e.branch(ne(nw, m)):
                raise RaiseEx(ExcV('ValueError'))
        exp = v.out_of(expected)
        if out.kind != exp.kind or out.kind == 'raise':
            return v.outcome('number-of-masses', out, exp)
        if not isinstance(out.value, tuple) or len(out.value) != 2:
            raise Unsupported('result of _get_molecules')
        new, (isel, ifr) = out.value
        new = e.ext.np_array(new)
        # which sites
        if fr is None:
            flat = lambda i: exists2(i, n, m)        # noqa
            rest = ('filt', A, lambda i: neg(flat(i)), lambda i: num(i))
            got = None
        else:
            r0 = e.seqof(fr)
            rest = ('seq', Seq(rep_len(r0), lambda i: num(e.rep_at(r0, num(i))) - 1))
        D = rep_len(rest)
        v.same('analysed-sites', isel, PyList(('seq', Seq(n, lambda i: num(i)))))
        v.same('framework-sites', ifr, PyList(('seq', Seq(D, lambda i: n + num(i)))))
        ds = new.dims()
        if len(ds) != 4:
            return v.mismatch('shape', show(new))
        for label, a, b in (('frames', ds[0], F), ('sites', ds[1], n + D), ('one', ds[2], 1), ('axes', ds[3], 3)):
            v.eq('shape-' + label, a, b)
        t, i, x, d = fresh('t', 'i'), fresh('i', 'i'), fresh('x', 'i'), fresh('d', 'i')
        H = [le(0, t), lt(t, F), le(0, x), lt(x, 3)]
        Hd = H + [le(0, d), lt(d, D)]
        at = num(e.rep_at(rest, d))
        v.eq('framework-atoms-unchanged', elem(new, t, n + d, x), u(t, at, x) + z(t, at, x), Hd)
        Hm = H + [le(0, i), lt(i, n)]
        site = e.pr.decide_ites(e.pc + Hm, elem(new, t, i, x))
        v.holds('within-the-cell', conj(le(0, site), lt(site, 1)), Hm)
        # moving atoms by whole cells
        zs = heads(site, 'in_z')
        v.eq('moving-atoms-by-whole-cells', site, subst(site, {a: ZERO for a in zs}) if zs else site, Hm)
        congruence(v, e, site, t, i, x, m, w, u, Hm)
        v.frame()
    v.paths(path)


def elem(a, t, i, x):
    return a.at(t, i, ZERO, x)


def exists2(i, n, m):
    p, q = fresh('p', 'i'), fresh('q', 'i')
    return exists(p, n, exists(q, m, eq(i, app('in_mol', p, q, sort='i') - 1)))


def congruence(v, e, site, t, i, x, m, w, u, Hm):
    """Under the extent condition the site is congruent to the mean of the atoms unwrapped together."""
    j = fresh('j', 'i')
    wt = (lambda q: ONE) if w is None else (lambda q: app('in_mass', q))
    a = lambda q: u(t, app('in_mol', i, q, sort='i') - 1, x)        # noqa
    W = Sum(j, m, wt(j))
    X = Sum(j, m, wt(j) * app('cos', a(j) * 2 * PI)) / W
    Y = Sum(j, m, wt(j) * app('sin', a(j) * 2 * PI)) / W
    ats = heads(site, 'arctan2')
    if len(ats) != 1:
        raise Unsupported('no single arctan2 in the centre of mass')
    at, = ats
    y_, x_ = at.data[1]
    c, k = fresh('c', 'r'), fresh('k', 'i')
    for sg, off in ((-1, HALF), (1, ZERO)):
        if e.pr.prove_eq(e.pc + Hm, y_, Y * sg) and e.pr.prove_eq(e.pc + Hm, x_, X * sg):
            break
    else:
        raise Unsupported(f'arctan2 is not taken of the mean sine and cosine: {at}  expected {-Y}')
    v.ok('angle-of-the-mean-direction')
    # lemma (circular mean, lean/CircularMean.lean): the angle is 2 pi (c + k), k whole, with every atom less than half a cell from c
    val = (c + k - off) * 2 * PI
    r = replace_atom(site, at, val)
    old = e.pr.facts.get('in_u')

    def near(t_, a_, x_):
        q = heads(a_, 'in_mol')
        if len(q) != 1:
            return []
        i_, j_ = q[0].data[1]
        if i_ is not i or t_ is not t or x_ is not x:
            return []
        d = u(t_, a_, x_) - c
        return [implies(conj(eq(a_ + 1, of_atom(q[0])), le(0, j_), lt(j_, m)), conj(lt(d, HALF), lt(-d, HALF)))]
    e.pr.facts['in_u'] = near
    try:
        mean = Sum(j, m, wt(j) * a(j)) / W
        if e.pr.prove_eq(e.pc + Hm, r, mean - floor(mean)):
            v.ok('congruent-to-the-mean')
        else:
            v.soft('congruent-to-the-mean', f'{r} is not shown to be the mean modulo 1')
    finally:
        e.pr.facts.pop('in_u')
        if old:
            e.pr.facts['in_u'] = old


def unequal(v):
    def path():
        e = v.E
        s, A, _ = structure(v, 'ASE')
        n = v.int_('nmol', 2)
        F = v.int_('frames', 1)
        coords = v.arrlist('coords', F, lambda i: [A, 1, 3], owner=False)
        v.E.pr.facts['in_size'] = lambda i: [le(1, app('in_size', i, sort='i'))]
        mol = lambda i: PyList(('seq', Seq(app('in_size', num(i), sort='i'), lambda j: app('in_mol', num(i), num(j), sort='i'))), owner='molecule')        # noqa
        p = fresh('p', 'i')
        e.assume(exists(p, n, ne(app('in_size', p, sort='i'), app('in_size', ZERO, sort='i'))))
        out = v.call(e.get('parser:_get_molecules'), [s, coords, PyList(('seq', Seq(n, mol)), owner='molecules'), None, None])
        if out.kind == 'raise' and out.value.name == 'ValueError':
            return v.ok('unequal-molecules-refused')
        v.outcome('unequal-molecules-refused', out, v.out_of(lambda: (_ for _ in ()).throw(RaiseEx(ExcV('ValueError')))))
    v.paths(path)


def lemma(v):
    """The circular-mean lemma used in congruence, checked by Lean on every run."""
    import os, re, subprocess
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'lean', 'CircularMean.lean')
    try:
        r = subprocess.run(['lean', f], capture_output=True, text=True, timeout=300, cwd='/tmp')
    except (OSError, subprocess.TimeoutExpired) as x:
        for name in ('circular_mean', 'circular_mean_neg'):
            v.put(v.cur, name, 'unknown', f'lean: {type(x).__name__}')
        return
    for name in ('circular_mean', 'circular_mean_neg'):
        m = re.search(r"'%s' depends on axioms: \[(.*?)\]" % name, r.stdout)
        ok = r.returncode == 0 and m and set(m.group(1).replace(' ', '').split(',')) <= {'propext', 'Classical.choice', 'Quot.sound'}
        v.put(v.cur, name, 'discharged' if ok else 'unknown', '' if ok else (r.stdout + r.stderr)[-400:], 'Lean')
        if ok:
            v.backends['Lean'] = v.backends.get('Lean', 0) + 1


def check(v, tier):
    v.group('lemma', lemma)
    for how in ('rest', 'given'):
        for weighted in (False, True):
            v.group(f'_get_molecules[framework {how}, {"masses" if weighted else "no masses"}]', lambda v, how=how, weighted=weighted: molecules(v, 'ASE', how, weighted))
    v.group('_get_molecules[unequal]', unequal)
    pf.flow(v, {'molecules'})
