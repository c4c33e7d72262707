"""C02 drift correction."""
from ..verify import *          # noqa
from . import parser_specs as ps
from . import parser_flow as pf


def check(v, tier):
    def build(v):
        e = v.E
        n, N, d, m = v.int_('atoms', 1), v.int_('steps', 1), 3, v.int_('nframe', 0)
        disp = v.arr('disp', n, N, d)
        fr = v.intlist('framework', m, 0, n)
        return [fr, disp], {}, dict(fr=fr, disp=disp, m=m)

    def spec(v, c):
        return ps.correct_drift(v.E, c['fr'], c['disp'])

    def post(v, c, out):
        if out.kind != 'ret':
            return
        a, t, x = fresh('a', 'i'), fresh('t', 'i'), fresh('x', 'i')
        n, N, d = c['disp'].dims()
        rng = [le(0, a), lt(a, n), le(0, t), lt(t, N), le(0, x), lt(x, d)]
        if v.E.known(lt(0, c['m'])) and isinstance(out.value, SArr):
            # the mean over the framework vanishes
            k = fresh('k', 'i')
            g = out.value.getter()
            v.eq('framework-mean-zero', Sum(k, c['m'], g([app('in_framework', k, sort='i'), t, x])), 0, rng)
            # a rigid translation u(t, x) of everything changes nothing
            disp2 = SArr(c['disp'].axes, lambda idx: app('in_disp', *idx) + app('in_shift', *idx[1:]))
            two = v.call(v.E.get('parser:Parser.correct_drift'), [c['fr'], disp2])
            v.same('translation-invariance', two.value, out.value)
    v.fn('correct_drift', 'parser:Parser.correct_drift', build, spec, post=post)
    pf.init(v, {'drift'})
