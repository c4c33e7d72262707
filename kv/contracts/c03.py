"""C03 time intervals."""
from ..verify import *          # noqa
from . import parser_specs as ps
from . import parser_flow as pf
from .c04 import parser, intervals, other_text


def check(v, tier):
    for option in ('linear', 'logarithmic', 'neither'):
        def run(v, option=option):
            def path():
                e = v.E
                spacing = other_text(e, 'in_spacing', ('linear', 'logarithmic')) if option == 'neither' else option
                ts, skip, ns = v.real('ts', 0, True), v.int_('skip', 1), v.int_('nsteps', 1)
                lo, hi = v.real('mindt', 0, True), v.real('maxdt', 0, True)
                o = state(e, e.get('parser:Parser'), {'min_dt': lo, 'max_dt': hi, 'step_skip': skip, 'time_step': ts})
                a, b = ps.whole_steps(lo, skip * ts), ps.whole_steps(hi, skip * ts)
                e.assume(le(1, b))
                v.lemma('whole-steps-are-not-negative', le(0, a))
                out = v.call(e.getattr(o, 'get_time_intervals'), [ns, spacing])
                want = v.out_of(lambda: ps.grid(e, a, b, ns, spacing))
                if out.kind != want.kind or out.kind == 'raise':
                    v.outcome('refuses', out, want)
                    return
                pf.same_grid(v, 'grid', out.value, want.value)
                # end points and range of the grid
                g = atom_of(out.value.at(fresh('k', 'i'))).data[1][0]
                lo1 = ite(eq(a, 0), 1, a)
                k = fresh('k', 'i')
                H = [le(lo1, b), le(2, ns)]
                rnd = lambda x: app('round6', x)        # noqa
                e.pr.facts['round6'] = lambda x: [le(x - rnd(x), Fraction(1, 2000000)), le(rnd(x) - x, Fraction(1, 2000000))]
                _, first = open_lam(g, [ZERO])
                _, last = open_lam(g, [ns - 1])
                v.eq('starts-at-the-minimum', first, lo1, H)
                v.eq('ends-at-the-maximum', last, b, H)
                if option == 'linear':
                    _, at = open_lam(g, [k])
                    v.holds('within-the-limits', conj(le(lo1, at), le(at, b)), H + [le(0, k), lt(k, ns)])
                v.frame()
            v.paths(path)
        v.group(f'get_time_intervals[{option}]', run)
    pf.init(v, {'grid'})
    pf.flow(v, {'limits', 'options'})

    def times(v):
        def path():
            e = v.E
            o, dc, idx, ts, skip, n, N = parser(v, 'multi-origin')
            tau = intervals(v, N)
            out = v.call(e.getattr(o, 'get_disps'), [tau, dc, False])
            if out.kind == 'ret':
                v.same('times-are-steps-times-the-frame-time', out.value[0], SArr(tau.axes, lambda i: tau.at(*i) * ts * skip))
            v.frame()
        v.paths(path)
    v.group('get_disps', times)
    v.trusted.add('numpy.unique: the distinct values in increasing order; numpy.linspace and geomspace: n values from the first limit to the last, both exact; numpy.round(x, 6): x to within 5e-7 and unchanged for whole x')
    v.assumptions.add('min_dt <= max_dt and max_dt within the trajectory')
