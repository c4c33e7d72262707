"""Concrete side of every check: the real code under CPython against independent oracles.

A *test* is a function of one JSON-able parameter dictionary that raises ``Fail`` when the property is broken on the
real code.  A *generator* yields parameter dictionaries.  Everything random is derived from ``params['seed']`` so that
a replay file only has to carry the parameters.
"""
import contextlib, io, json, os, signal, time, traceback, warnings
import numpy as np

TESTS = {}          # property -> {name: (test, generator)}


class Fail(Exception):
    """The real code broke the property on this input."""


def register(prop, gen):
    def deco(f):
        TESTS.setdefault(prop, {})[f.__name__] = (f, gen)
        return f
    return deco


def also(prop, name, f, gen):
    TESTS.setdefault(prop, {})[name] = (f, gen)


class Ctx:
    """What generators may use: seeded rng, tier, integers/floats mined from the current source."""

    def __init__(self, seed, tier, ints=(), deadline=None):
        self.seed, self.tier, self.ints = seed, tier, list(ints)
        self.rng = np.random.default_rng([seed, 7])
        self.deadline = deadline

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        return 3 * quick if not self.thorough else max(3 * quick, thorough if thorough is not None else quick * 8)

    def seeds(self, n):
        return [int(x) for x in self.rng.integers(0, 2**31 - 1, size=n)]

    def pick(self, xs):
        xs = list(xs)
        return xs[int(self.rng.integers(0, len(xs)))]

    def size_ints(self, lo, hi):
        return sorted({v + d for v in self.ints for d in (0, 1) if lo <= v + d <= hi})


def rng_of(p, *extra):
    return np.random.default_rng([int(p.get('seed', 0))] + [int(e) for e in extra])


def require(cond, msg):
    if not cond:
        raise Fail(msg)


def close(got, want, what, rtol=1e-8, atol=None):
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Fail(f'{what}: shape {got.shape}, expected {want.shape}')
    if got.size == 0:
        return
    got = got.astype(float)
    want = want.astype(float)
    fin = np.isfinite(want)
    if not np.array_equal(np.isfinite(got), fin):
        raise Fail(f'{what}: non-finite values differ: got {got.ravel()[:6]}, expected {want.ravel()[:6]}')
    if atol is None:
        scale = np.max(np.abs(want[fin])) if fin.any() else 0.0
        atol = 1e-9 * scale + 1e-300
    bad = ~np.isclose(np.where(fin, got, 0), np.where(fin, want, 0), rtol=rtol, atol=atol)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Fail(f'{what}: element {i} is {got[i]!r}, expected {want[i]!r} ({int(bad.sum())} of {bad.size} differ)')


def same(got, want, what):
    """Bit-for-bit equality of arrays (nan equal)."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Fail(f'{what}: shape {got.shape}, expected {want.shape}')
    if got.dtype.kind in 'fc' or want.dtype.kind in 'fc':
        ok = np.array_equal(got, want, equal_nan=True)
    else:
        ok = np.array_equal(got, want)
    if not ok:
        raise Fail(f'{what}: values differ, got {got.ravel()[:4]}, expected {want.ravel()[:4]}')


def raises(exc, f, what):
    try:
        f()
    except exc:
        return
    except Exception as e:      # noqa
        raise Fail(f'{what}: raised {type(e).__name__}({e}) instead of {exc.__name__}')
    raise Fail(f'{what}: {exc.__name__} was not raised')


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        old = np.seterr(all='ignore')
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                yield
        finally:
            np.seterr(**old)


class Hang(BaseException):
    pass


HANG_S = 150


@contextlib.contextmanager
def time_limit(seconds):
    def on(sig, frame):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def call_test(f, params):
    """None when the property held; otherwise a message.  An exception of the code under test on an input inside the
    property's domain is a failure of the property as well, and so is not coming back."""
    try:
        with time_limit(HANG_S), quiet():
            f(dict(params))
        return None
    except Fail as e:
        return str(e)
    except (KeyboardInterrupt, SystemExit, MemoryError) as e:
        if isinstance(e, MemoryError) and in_repo(e):
            return f'unexpected MemoryError: {e}'
        raise
    except Hang as e:
        if in_repo(e):
            return f'the code under test did not come back within {HANG_S} s'
        raise
    except BaseException as e:     # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join(f'{os.path.basename(fr.filename)}:{fr.lineno}' for fr in tb[-4:])
        if in_repo(e):
            return f'unexpected {type(e).__name__}: {e} [{where}]'
        raise


def in_repo(e):
    return any('/kinisi/' in fr.filename and '/verif/' not in fr.filename for fr in traceback.extract_tb(e.__traceback__))


def run_battery(prop, ctx, budget_s, only=None, hints=None, progress=None):
    """Returns (failures, stats).  An error of the battery itself is recorded and never becomes a failure."""
    fails, stats = [], {'evaluations': 0, 'per_test': {}, 'samples': [], 'distinct': 0, 'truncated': [], 'internal': []}
    t_end = time.time() + budget_s
    tests = TESTS.get(prop, {})
    for name, (f, gen) in tests.items():
        if only and name not in only:
            continue
        k, seen, t0 = 0, set(), time.time()
        share = budget_s / max(1, len(tests)) * 2.0
        for params in gen(ctx):
            if time.time() > t_end or (k > 3 and time.time() - t0 > share):
                stats['truncated'].append(name)
                break
            try:
                msg = call_test(f, params)
            except (Exception, Hang) as e:      # noqa: the harness, not the code under test
                stats['internal'].append(f'{name}: {type(e).__name__}: {e}'[:300])
                if len(stats['internal']) > 20:
                    break
                continue
            k += 1
            seen.add(json.dumps(params, sort_keys=True, default=str))
            if k == 1 and len(stats['samples']) < 6:
                stats['samples'].append({'test': name, 'params': params})
            if msg is not None:
                fails.append({'test': name, 'params': params, 'message': msg})
                break
        stats['evaluations'] += k
        stats['distinct'] += len(seen)
        stats['per_test'][name] = k
        if fails:
            break
    return fails, stats
