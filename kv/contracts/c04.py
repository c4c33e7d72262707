"""C04 windows."""
from ..verify import *          # noqa
from . import parser_specs as ps
from . import parser_flow as pf


def other_text(e, name, known):
    """Any text but the known ones."""
    x = Opq(var(name, 'o'), 'str')
    for k in known:
        e.assume(neg(e.equal(x, k)))
    return x


def intervals(v, N):
    """Strictly increasing whole steps from 1 to at most N."""
    n = v.int_('nint', 1)
    return v.arr('tau', n, dtype='i', fact=lambda x, i: [le(1, x), le(x, N), implies(lt(i, n - 1), le(x, app('in_tau', n - 1, sort='i')))])


def parser(v, sampling, index_array=False):
    e = v.E
    n, N = v.int_('atoms', 1), v.int_('steps', 1)
    m = v.int_('nsel', 1)
    dc = v.arr('dc', n, N, 3)
    e.assume(le(1, dc.meta['itemsize']))
    if index_array:
        idx = v.arr('sel', m, dtype='i', fact=lambda x, i: [le(0, x), lt(x, n)])
    else:
        idx = v.intlist('sel', m, 0, n)
    ts, skip = v.real('ts', 0, True), v.int_('skip', 1)
    o = state(e, e.get('parser:Parser'), {'indices': idx, 'time_step': ts, 'step_skip': skip, 'sampling': sampling, 'memory_limit': v.real('limit'),
                                             'drift_indices': v.intlist('frame', v.int_('nframe', 0), 0, n), 'dc': dc, '_volume': None})
    return o, dc, idx, ts, skip, n, N


def check(v, tier):
    for option in ('multi-origin', 'single-origin', 'neither'):
        for index_array in (False, True):
            if index_array and option == 'neither':
                continue

            def run(v, option=option, index_array=index_array):
                def path():
                    e = v.E
                    sampling = other_text(e, 'in_sampling', ('multi-origin', 'single-origin')) if option == 'neither' else option
                    o, dc, idx, ts, skip, n, N = parser(v, sampling, index_array)
                    tau = intervals(v, N)
                    out = v.call(e.getattr(o, 'get_disps'), [tau, dc, e.branch(bapp('in_progress'))])
                    want = v.out_of(lambda: ps.windows(e, tau, dc, idx, sampling, ts, skip, o.attrs['memory_limit']))
                    if out.kind == want.kind == 'ret' and isinstance(out.value, tuple) and len(out.value) == 3:
                        for nm, a, b in zip(('times', 'windows', 'independent-observations'), out.value, want.value):
                            v.same(nm, a, b)
                    else:
                        v.outcome('outcome', out, want)
                    v.frame()
                v.paths(path)
            v.group(f'get_disps[{option}, {"array" if index_array else "list"} of atoms]', run)

    def longest(v):
        def path():
            N, m, k, A = v.int_('N', 1), v.int_('m', 1), v.int_('k', 1), v.int_('A', 1)
            v.E.assume(lt(k, m), le(m, N))
            q = lambda x: floor(N / x)        # noqa
            # floor(N/m) <= N/m <= N/k, hence floor(N/m) <= floor(N/k); A times it likewise
            v.holds('dropped-intervals-are-the-longest', le(q(m), q(k)), [le(q(m) * m, N), lt(N, q(k) * k + k), le(q(m) * k, q(m) * m)])
            v.holds('lemma-floor', conj(le(q(m) * m, N), lt(N, q(k) * k + k)))
            v.holds('lemma-product', implies(conj(le(0, var('in_q', 'i')), le(k, m)), le(var('in_q', 'i') * k, var('in_q', 'i') * m)))
        v.paths(path)
    v.group('dropping lemma', longest)
    pf.init(v, {'windows'})
    pf.flow(v, {'sampling'})
    v.assumptions.add('intervals are whole steps between 1 and the number of steps (C03); indices are in range')
