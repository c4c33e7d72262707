"""C05 memory limit."""
from ..verify import *          # noqa
from . import parser_specs as ps
from . import parser_flow as pf
from .c04 import parser, intervals


def check(v, tier):
    for sampling in ('multi-origin', 'single-origin'):
        def run(v, sampling=sampling):
            def path():
                e = v.E
                o, dc, idx, ts, skip, n, N = parser(v, sampling)
                tau = intervals(v, N)
                lim = o.attrs['memory_limit']
                out = v.call(e.getattr(o, 'get_disps'), [tau, dc, e.branch(bapp('in_progress'))])
                if out.kind == 'raise' and out.value.name != 'MemoryError':
                    v.mismatch('raises-only-MemoryError', str(out))
                    return
                need = ps.memory(e, tau, dc, ps.length(e, idx))
                if out.kind == 'raise':
                    v.holds('refused-only-above-the-limit', lt(lim, need))
                    return
                v.holds('accepted-only-within-the-limit', le(need, lim))
                want = ps.windows(e, tau, dc, idx, sampling, ts, skip, need)
                for nm, a, b in zip(('times', 'windows', 'independent-observations'), out.value, want):
                    v.same('limit-has-no-influence-on-' + nm, a, b)
                v.frame()
            v.paths(path)
        v.group(f'get_disps[{sampling}]', run)
    pf.init(v, {'windows'})
    pf.flow(v, {'memory'})
    v.assumptions.add('intervals are whole steps between 1 and the number of steps (C03)')
