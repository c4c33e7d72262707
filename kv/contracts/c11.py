"""C11 collective and charge displacement estimators."""
from ..verify import *          # noqa
from . import diffusion_specs as ds
from .c10 import estimator


def check(v, tier):
    for dim in ds.AXES:
        estimator(v, 'MSTDBootstrap', dim, dim, 'collective')
    estimator(v, 'MSTDBootstrap', 'XZ', 'xz', 'collective', upper=True)
    estimator(v, 'MSTDBootstrap', 'defaults', 'xyz', 'collective', default=True)
    for q in ('scalar', 'array', 'list'):
        for dim in ds.AXES if q == 'scalar' else ('xz', 'xyz'):
            estimator(v, 'MSCDBootstrap', f'{dim},{q} charge', dim, 'charge', q)
        estimator(v, 'MSCDBootstrap', f'defaults,{q} charge', 'xyz', 'charge', q, default=True)
