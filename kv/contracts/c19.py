"""C19 files: an analysis in an arbitrary state, saved under an arbitrary name and loaded again."""
from ..verify import *          # noqa
from .. import h5model
from . import diffusion_specs as ds
from .c18 import FRONTS, estimator, compare


COEFF = {'DiffusionAnalyzer': ('_diffusion_coefficient', ), 'JumpDiffusionAnalyzer': ('_jump_diffusion_coefficient', ), 'ConductivityAnalyzer': ('_sigma', )}


def canon(v):
    """Text and its encoding are the same."""
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, PyDict):
        return PyDict({k: canon(x) for k, x in v.items.items()}, rest=v.rest)
    if isinstance(v, Obj):
        return Obj(v.cls, {k: canon(x) for k, x in v.attrs.items()}, lazy=v.lazy)
    if isinstance(v, PyList):
        r = v.rep
        if r[0] == 'items':
            return PyList(('items', [canon(x) for x in r[1]]))
        if r[0] == 'seq':
            return PyList(('seq', Seq(r[1].n, lambda i: canon(r[1].get(i)))))
        if r[0] == 'cat':
            return PyList(cat(*[canon(PyList(x)).rep for x in r[1]]))
    return v


def target(name):
    """Only the extension is replaced."""
    return h5model.text(h5model.parts(Opq(app('splitext0', name, sort='o'), 'str')) + ['.hdf'])


def opened(out):
    return [x for x in out.events if x[0] == 'h5open']


def save(v, a, name):
    """The contract of save.  True if the file was written."""
    e = v.E
    want = toarg(target(name.term))
    out = v.call(e.getattr(a, 'save'), [name])
    ev = opened(out)
    there = bapp('exists', want)
    if out.kind == 'raise':
        if e.pr.entails(e.pc, there):
            if out.value.name != 'ValueError':
                v.mismatch('an-existing-file-raises-ValueError', str(out))
            else:
                v.ok('an-existing-file-raises-ValueError')
            if any(m != 'r' for _, _, m in ev):
                v.mismatch('an-existing-file-is-kept', f'opened before the exception: {ev}')
            else:
                v.ok('an-existing-file-is-kept')
        elif any(h.data[0] == 'exists' for b in e.pc for h in bapps_of(b)):
            v.mismatch('raises-only-if-the-file-exists', f'{out} when {[b for b in e.pc if "exists" in str(b)]}')
        else:
            v.mismatch('saves', str(out))
        return False
    if len(ev) != 1:
        v.mismatch('one-file-is-written', str(ev))
        return False
    v.same('only-the-extension-is-replaced', Opq(ev[0][1], 'str'), Opq(want, 'str'))
    if not e.pr.entails(e.pc, neg(there)):
        v.mismatch('an-existing-file-is-kept', f'{ev} without a test whether {want} exists')
        return False
    v.ok('an-existing-file-is-kept')
    return True


def bapps_of(b):
    out, todo = [], [b]
    while todo:
        x = todo.pop()
        if x.kind == 'app':
            out.append(x)
        for y in x.data if isinstance(x.data, tuple) else ():
            if isinstance(y, B):
                todo.append(y)
    return out


def load(v, cls, name):
    e = v.E
    out = v.call(e.getattr(cls, 'load'), [name])
    if out.kind != 'ret':
        v.mismatch('loads', str(out))
        return None
    ev = opened(out)
    if len(ev) != 1 or ev[0][2] != 'r':
        v.mismatch('one-file-is-read', str(ev))
        return None
    v.same('loads-what-was-saved', Opq(ev[0][1], 'str'), target(name.term))
    return out.value


def round_trip(v, label, build, deep=True):
    def run(v):
        def path():
            e = v.E
            a, est = build(v)
            name = Opq(var('in_name', 'o'), 'str')
            d = e.call(e.getattr(a, 'to_dict'), [])
            if not save(v, a, name):
                return
            b = load(v, a.cls, name)
            if b is None:
                return
            if not isinstance(b, Obj) or b.cls is not a.cls:
                v.mismatch('class', show(b))
                return
            d2 = e.call(e.getattr(b, 'to_dict'), [])
            v.same('loaded-equals-saved', canon(d2), canon(d))
            if est is not None:
                compare(v, 'estimator-', canon(b.attrs.get('_diff')), canon(est))
            # once more
            name2 = Opq(var('in_name2', 'o'), 'str')
            keep = len(v.E.pc)
            out = v.call(e.getattr(b, 'save'), [name2])
            if out.kind == 'raise':
                if not e.pr.entails(e.pc, bapp('exists', toarg(target(name2.term)))):
                    v.mismatch('can-be-saved-again', str(out))
                return
            c = load(v, a.cls, name2)
            if c is None:
                return
            v.same('loaded-again-equals-saved', canon(e.call(e.getattr(c, 'to_dict'), [])), canon(d))
            v.frame()
        v.paths(path)
    v.group(f'{label}: save and load', run)


def front(mod, cls, boot):
    def build(v):
        e = v.E
        d = ds.Data(v)
        vol = v.real('volume', 0, True)
        a = e.call(e.get(f'{mod}:{cls}'), [d.dt, d.disp, d.no, vol])
        est = None
        if boot:
            est = estimator(v, boot, 'xyz', coefficients=COEFF[cls])
            give(e, a, '_diff', est)
        return a, est
    return build


def assorted(v):
    """Every kind of value in every kind of place."""
    e = v.E
    n, m = v.int_('n', 1), v.int_('m', 1)
    size = lambda i: app('in_size', num(i), sort='i')          # noqa
    arrs = lambda nm: PyList(('seq', Seq(n, lambda i: SArr(simple(size(i), 3), lambda ix, i=i: app('in_' + nm, num(i), *ix), 'f'))))          # noqa
    dicts = PyList(('seq', Seq(m, lambda i: PyDict({'name': 'text', 'samples': SArr(simple(size(i)), lambda ix, i=i: app('in_s', num(i), *ix), 'f'), 'x': app('in_x', num(i)), 'empty': None}))))
    leaves = lambda k: {'number': v.int_('k' + k), 'real': v.real('r' + k), 'text': 'words', 'bytes': b'words', 'none': None, 'yes': True, 'array': v.arr('a' + k, v.int_('l' + k, 0), owner=False)}          # noqa
    inner = PyDict({**leaves('1'), 'arrays': arrs('b'), 'records': dicts, 'numbers': PyList(('seq', Seq(n, lambda i: app('in_num', num(i))))), 'few': PyList.of([3, 'a', v.real('q')])})
    return e.call(e.get('analyzer:Analyzer'), [PyDict({**leaves('0'), 'zz': inner}), arrs('c'), v.arr('no', n, owner=False), None]), None


def check(v, tier):
    for mod, cls, boot in FRONTS[1:]:
        round_trip(v, cls, front(mod, cls, boot))
    round_trip(v, 'Analyzer', assorted)
    v.trusted.add('h5py: a data set read back has the value that was written (text as bytes); members of a group come in the order of their names; os.path.exists and splitext as documented')
    v.trusted.add('the file system: a file that exists is found by os.path.exists; no other process writes in between')
