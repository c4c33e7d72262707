"""Text with decimal parts, and HDF5 files.

A file that is open for writing is the log of what was written to it; a file opened for reading is the tree these
writes make.  Members of a group come in the order of their names ('list10' before 'list2'), text comes back as bytes,
everything else as it was written."""
from .term import *          # noqa
from .sval import *          # noqa


# ------------------------------------------------------------------------------------------------------------------
# text
# ------------------------------------------------------------------------------------------------------------------
def dec(i):
    """Decimal digits of a whole number (not negative)."""
    i = num(i)
    return str(int(i.const())) if i.is_const() else app('dec', i, sort='o')


def parts(v):
    """The text as a list of str and terms."""
    if isinstance(v, Opq):
        v = v.term
    if isinstance(v, K):
        v = str(v.v)
    if isinstance(v, str):
        return [v] if v else []
    if not isinstance(v, P):
        return [v]
    a = atom_of(v)
    if a is not None and a.kind == 'app' and a.data[0] == 'fstring':
        return [y for x in a.data[1] for y in parts(x)]
    return [v]


def text(ps):
    out = []
    for p in ps:
        if p == '' if isinstance(p, str) else False:
            continue
        if out and isinstance(p, str) and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0] if isinstance(out[0], str) else Opq(out[0], 'str')
    return Opq(app('fstring', *[K(p) if isinstance(p, str) else p for p in out], sort='o'), 'str')


def dec_of(p):
    """i of dec(i), or None."""
    a = atom_of(p) if isinstance(p, P) else None
    return a.data[1][0] if a is not None and a.kind == 'app' and a.data[0] == 'dec' else None


def number(v):
    """The whole number that the text spells, or None."""
    ps = parts(v)
    return dec_of(ps[0]) if len(ps) == 1 and not isinstance(ps[0], str) else None


def slice_text(v, lo, hi):
    """v[lo:hi] where it cuts within literal parts only; None if that is not known."""
    ps = parts(v)
    if lo not in (None, 0):
        if lo < 0 or not ps or not isinstance(ps[0], str) or len(ps[0]) < lo:
            return None
        ps = [ps[0][lo:]] + ps[1:]
        hi = hi - lo if hi is not None else None
    if hi is None:
        return text(ps)
    if hi < 0:
        if ps and isinstance(ps[-1], str) and len(ps[-1]) >= -hi:
            return text(ps[:-1] + [ps[-1][:hi]])
        return None
    if ps and isinstance(ps[0], str) and len(ps[0]) >= hi:
        return ps[0][:hi]
    return None


def equal_text(v, c):
    """True, False or None for v == c (c literal)."""
    ps = parts(v)
    if ps and isinstance(ps[0], str):
        k = min(len(ps[0]), len(c))
        if ps[0][:k] != c[:k] or len(ps[0]) > len(c):
            return False
    return None


def method(o, name, a):
    """A method of text; NotImplemented where the result is not known."""
    ps = parts(o)
    digits = all(isinstance(p, str) or dec_of(p) is not None for p in ps)
    if any(not isinstance(x, str) for x in a):
        return NotImplemented
    if name == 'startswith' and len(a) == 1 and ps and isinstance(ps[0], str):
        if len(ps[0]) >= len(a[0]):
            return ps[0].startswith(a[0])
        if not a[0].startswith(ps[0]):
            return False
    if name in ('isdigit', 'isnumeric', 'isdecimal') and not a and digits and ps:
        return all(not isinstance(p, str) or p.isdigit() for p in ps)
    if name in ('replace', ) and len(a) == 2 and digits and a[0] and not any(ch.isdigit() for ch in a[0]):
        return text([p.replace(a[0], a[1]) if isinstance(p, str) else p for p in ps])
    if name == 'lstrip' and len(a) == 1 and digits and not any(ch.isdigit() for ch in a[0]):
        while ps and isinstance(ps[0], str):
            ps = [ps[0].lstrip(a[0])] + ps[1:]
            if ps[0]:
                break
            ps = ps[1:]
        return text(ps)
    if name == 'removeprefix' and len(a) == 1 and ps and isinstance(ps[0], str) and ps[0].startswith(a[0]):
        return text([ps[0][len(a[0]):]] + ps[1:])
    if name == 'split' and len(a) == 1 and digits and a[0] and not any(ch.isdigit() for ch in a[0]):
        out, cur = [], []
        for p in ps:
            if not isinstance(p, str):
                cur.append(p)
                continue
            bits = p.split(a[0])
            cur.append(bits[0])
            for b in bits[1:]:
                out.append(text(cur))
                cur = [b]
        out.append(text(cur))
        return PyList.of(out)
    return NotImplemented


# ------------------------------------------------------------------------------------------------------------------
# files
# ------------------------------------------------------------------------------------------------------------------
WRITING = ('w', 'w-', 'x', 'a', 'r+')


def open_file(E, name, mode):
    t = toarg(name)
    E.events.append(('h5open', t, mode))
    if mode in WRITING:
        if mode in ('w-', 'x') and E.branch(bapp('exists', t)):
            raise RaiseEx(ExcV('FileExistsError'))
        if mode in ('a', 'r+'):
            raise Unsupported('a file opened to be changed')
        log = PyList(('items', []))
        E.set(E.ghost, ('h5', t), log)
        return Obj('h5file', {'log': log, 'at': ()})
    if mode != 'r':
        raise Unsupported(f'h5py mode {mode}')
    log = E.ghost.get(('h5', t))
    if log is None:
        raise Unsupported('reading a file with unknown contents')
    return tree(E, E.rep(log))


def components(path):
    """Path as a list of str and (prefix, index)."""
    out, cur = [], []

    def flush():
        if len(cur) == 1 and isinstance(cur[0], str):
            out.append(cur[0])
        elif len(cur) == 2 and isinstance(cur[0], str) and dec_of(cur[1]) is not None:
            out.append((cur[0], dec_of(cur[1])))
        elif cur:
            raise Unsupported('name of a member of a file')
        cur.clear()
    for p in parts(path):
        if not isinstance(p, str):
            cur.append(p)
            continue
        for k, b in enumerate(p.split('/')):
            if k:
                flush()
            if b:
                cur.append(b)
    flush()
    return out


def write(E, f, path, value):
    """Adds a data set."""
    if isinstance(value, (PyList, PyDict, tuple, Obj)) or value is None:
        raise Unsupported(f'storing a {type(value).__name__} in a file')
    if isinstance(value, Opq):
        raise Unsupported('storing an opaque value in a file')
    if f.cls == 'h5node':
        raise Unsupported('writing to a file opened for reading')
    log = f.attrs['log']
    comps = list(f.attrs['at']) + components(path)
    rep = E.rep(log)
    fam = [k for k, c in enumerate(comps) if not isinstance(c, str)]
    if not fam:
        E.write_list(log, cat(rep, ('items', [('data', tuple(comps), value)])), 'file')
        return
    k = fam[0]
    if len(fam) > 1:
        raise Unsupported('lists in lists in a file')
    head, (prefix, idx), rest = tuple(comps[:k]), comps[k], tuple(comps[k + 1:])
    last = rep[1][-1] if rep[0] == 'cat' else rep
    if last[0] == 'items' and last[1] and last[1][-1][0] == 'fam' and last[1][-1][1:3] == (head, prefix) and last[1][-1][3] is idx:
        node = last[1][-1][4]
        if not rest or not isinstance(node, PyDict) or rest in node.items:
            raise RaiseEx(ExcV('OSError'))
        E.set(node.items, rest, value)
        return
    node = PyDict({rest: value})
    E.write_list(log, cat(rep, ('items', [('fam', head, prefix, idx, node)])), 'file')


def tree(E, rep):
    """The contents of a file that was written as the log says."""
    root = group()

    def place(node, comps, child):
        for c in comps[:-1]:
            if c not in node.attrs['kids']:
                node.attrs['kids'][c] = group()
            node = node.attrs['kids'][c]
            if node.cls != 'h5Group':
                raise Unsupported('a group under a data set')
        if comps[-1] in node.attrs['kids'] or node.attrs['fam'] is not None:
            raise Unsupported('a name used twice in a file')
        node.attrs['kids'][comps[-1]] = child
    for r in (rep[1] if rep[0] == 'cat' else [rep]):
        if r[0] == 'items':
            for it in r[1]:
                if it[0] == 'data':
                    place(root, it[1], dataset(it[2]))
                    continue
                _, head, prefix, idx, node = it
                if not idx.is_const():
                    raise Unsupported('one member of a symbolic family in a file')
                for rest, val in node.items.items():
                    place(root, head + (f'{prefix}{int(idx.const())}', ) + rest, dataset(val))
        elif r[0] == 'seq':
            n = r[1].n
            v = fresh('m', 'i')
            it = r[1].get(v)
            if it[0] != 'fam' or not E.pr.entails(E.pc + [le(0, v), lt(v, n)], eq(it[3], v)):
                raise Unsupported('members of a file are not numbered from 0')
            g = group()
            g.attrs['fam'] = (it[2], n, r[1])
            if not E.known(le(1, n)):
                if not E.branch(le(1, n)):
                    continue
            place(root, it[1], g)
        else:
            raise Unsupported('file written in a way that is not understood')
    return Obj('h5node', {'root': root})


def group():
    return Obj('h5Group', {'kids': {}, 'fam': None})


def dataset(v):
    return Obj('h5Dataset', {'value': v})


def member(E, g, i):
    """Member i of a family."""
    prefix, n, s = g.attrs['fam']
    node = s.get(num(i))[4]
    if set(node.items) == {()}:
        return dataset(node.items[()])
    out = group()
    for rest, val in node.items.items():
        if len(rest) != 1:
            raise Unsupported('groups in members of a list')
        out.attrs['kids'][rest[0]] = dataset(val)
    return out


def order(E, n, k):
    """Number of the k-th member in the order of the names."""
    E.pr.facts['lex'] = lambda n, k: [implies(conj(le(0, k), lt(k, n)), conj(le(0, app('lex', n, k, sort='i')), lt(app('lex', n, k, sort='i'), n)))]
    return app('lex', num(n), num(k), sort='i')


def entries(E, g):
    """rep of (name, member) in the order of the file."""
    if g.cls == 'h5node':
        g = g.attrs['root']
    if g.cls != 'h5Group':
        raise RaiseEx(ExcV('AttributeError'))
    if g.attrs['fam'] is None:
        return ('items', [(k, g.attrs['kids'][k]) for k in sorted(g.attrs['kids'])])
    prefix, n, s = g.attrs['fam']

    def get(k):
        p = order(E, n, k)
        return (text([prefix, dec(p)]), member(E, g, p))
    return ('seq', Seq(n, get))


def column(E, g, k):
    r = entries(E, g)
    if r[0] == 'items':
        return PyList.of([x[k] for x in r[1]])
    return PyList(('seq', Seq(r[1].n, lambda i: r[1].get(i)[k])))


def lookup(E, g, path):
    node = g.attrs['root'] if g.cls == 'h5node' else g
    for c in components(path):
        if node.cls != 'h5Group':
            raise RaiseEx(ExcV('KeyError'))
        if isinstance(c, str):
            fam = node.attrs['fam']
            if fam is not None and c.startswith(fam[0]) and c[len(fam[0]):].isdigit():
                c = (fam[0], num(int(c[len(fam[0]):])))
            elif c in node.attrs['kids']:
                node = node.attrs['kids'][c]
                continue
            else:
                raise RaiseEx(ExcV('KeyError'))
        prefix, i = c
        if node.attrs['fam'] is None or node.attrs['fam'][0] != prefix:
            raise Unsupported('a numbered member of a group without them')
        if not E.known(conj(le(0, i), lt(i, node.attrs['fam'][1]))):
            if not E.branch(conj(le(0, i), lt(i, node.attrs['fam'][1]))):
                raise RaiseEx(ExcV('KeyError'))
        node = member(E, node, i)
    return node


def read(E, d, ix):
    if ix != () and ix is not Ellipsis:
        raise Unsupported('part of a data set')
    v = d.attrs['value']
    if isinstance(v, str):
        return v.encode()
    if isinstance(v, SArr):
        return SArr(v.axes, v.getter(), v.dtype)
    return v


def attr(ext, o, name):
    E = ext.E
    if o.cls == 'h5Dataset':
        if name == 'shape' or name == 'dtype' or name == 'ndim' or name == 'size':
            return E.getattr(o.attrs['value'], name)
        raise Unsupported('h5py.Dataset.' + name)
    if o.cls == 'h5file':
        def create(a, k):
            if name == 'create_dataset' and set(k) <= {'data', 'name'}:
                a = list(a)
                path = a.pop(0) if a else k['name']
                if a:
                    raise Unsupported('shape of a data set')
                write(E, o, path, k['data'])
                return None
            raise Unsupported('h5py.File.' + name)
        if name in ('create_dataset', ):
            return Builtin('h5py.' + name, create)
        if name == 'close':
            return Builtin('h5py.close', lambda a, k: None)
        raise Unsupported('h5py.File.' + name)
    if name == 'keys':
        return Builtin('h5py.keys', lambda a, k: column(E, o, 0))
    if name == 'values':
        return Builtin('h5py.values', lambda a, k: column(E, o, 1))
    if name == 'items':
        return Builtin('h5py.items', lambda a, k: PyList(entries(E, o)))
    if name == 'close':
        return Builtin('h5py.close', lambda a, k: None)
    raise Unsupported('h5py.Group.' + name)


def sorted_by(E, rep, key):
    """rep sorted by the whole numbers key(element), where these are the positions of the order of a file; else None."""
    if rep[0] != 'seq':
        return None
    n = rep[1].n
    v = fresh('q', 'i')
    el = rep[1].get(v)
    kv = key(el)
    a = atom_of(kv) if isinstance(kv, P) else None
    if a is None or a.kind != 'app' or a.data[0] != 'lex' or a.data[1][0] is not n or a.data[1][1] is not v:
        return None

    def replace(x, i):
        if isinstance(x, P) and x is kv:
            return tidy(num(i))
        if isinstance(x, Opq) and x.tag == 'str':
            ps = [dec(i) if not isinstance(p, str) and dec_of(p) is kv else p for p in parts(x)]
            if any(not isinstance(p, str) and atom_of(v) in p.fv for p in ps):
                raise Unsupported('sorted text')
            return text(ps)
        raise Unsupported('sorted members of a file')
    return PyList(('seq', Seq(n, lambda i: replace(el, i))))
