"""Symbolic execution of the real source of /repo/kinisi, with inductive summaries of loops."""
import ast, itertools, os, time
from fractions import Fraction
from .term import *          # noqa
from . import term as T
from . import h5model
from .prove import Prover, Deadline
from .sval import *          # noqa

HOOKS = {}


def fetched(E, x):
    return HOOKS['elem'](E, x)

REPO = '/repo'


class PathLimit(Unsupported):
    pass


class Infeasible(Exception):
    """The present path condition turned out to be contradictory."""


INLINE = object()          # a contract's answer when its precondition is not established at the call: the body is executed instead


class LocalFork(Exception):
    pass


class E:
    """One symbolic run (one path) at a time; `paths` re-runs a callable for every path."""

    def __init__(self, deadline=None, repo=REPO):
        self.pr = Prover(deadline=deadline)
        self.repo = repo
        self.modules = {}
        self.contracts = {}          # qualname -> handler(E, bound args dict) for calls; not used for the target itself
        self.inline_only = set()
        self.target = None
        self.by_contract = set()     # repo functions replaced by their proved contract at calls
        self.executed = set()        # repo functions whose bodies were executed
        self.max_paths = 400
        self.assumptions = set()
        from . import npmodel
        self.ext = npmodel.External(self)
        self.reset()

    # ------------------------------------------------------------------------------------------------ paths
    def reset(self):
        self.pc = []
        self.trail = []
        self.script, self.taken, self.work = [], [], []
        self.loops = []              # stack of active loop contexts (local path explorers)
        self.events = []
        self.ghost = Env()
        self.ghost['G'] = Opq(var('G0', 'o'), 'rng')
        self.frame = []              # writes to user data
        self.depth = 0

    def paths(self, fn):
        """Runs fn for every path; yields nothing, fn records its own results.  Returns the number of paths."""
        work, k = [[]], 0
        while work:
            script = work.pop()
            k += 1
            if k > self.max_paths:
                raise PathLimit('too many paths')
            self.reset()
            self.modules_fresh()
            self.script = script
            try:
                fn()
            except Infeasible:
                pass
            work += self.work
        return k

    def modules_fresh(self):
        """Module-level state is rebuilt for each path (default arguments and globals are mutable)."""
        self.modules = {}

    def assume(self, *bs):
        for b in bs:
            b = boolc(b)
            if b is FALSE:
                raise Infeasible()
            if b is not TRUE:
                self.pc.append(b)

    def level(self, b):
        """Innermost loop whose iteration symbols the condition mentions: its index in the stack, or None."""
        for k in range(len(self.loops) - 1, -1, -1):
            l = self.loops[k]
            if b.fv & l['vars']:
                return k
            if any(h.startswith('hole') and int(h[4:].split('_')[0]) >= l['holes'] for h in b.heads):
                return k
        return None

    def branch(self, b):
        b = boolc(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if self.pr.entails(self.pc, b):
            return True
        if self.pr.entails(self.pc, neg(b)):
            return False
        k = self.level(b)
        if k is not None:
            return self.local_decide(b, k)
        return self.decide(b)

    def decide(self, b):
        i = len(self.taken)
        if i < len(self.script):
            val = self.script[i]
        else:
            val = True
            self.work.append(self.taken + [False])
        self.taken.append(val)
        c = b if val else neg(b)
        # decisions about the surroundings made while an iteration is explored hold for the whole run
        self.pc.append(c)
        for l in self.loops:
            l['globals'].append(c)
        return val

    def local_decide(self, b, k):
        l = self.loops[k]
        i = len(l['taken'])
        if i < len(l['script']):
            val = l['script'][i]
        else:
            val = True
            l['work'].append(l['taken'] + [False])
        l['taken'].append(val)
        c = b if val else neg(b)
        self.pc.append(c)
        l['conds'].append(c)
        for m in self.loops[k + 1:]:
            m['globals'].append(c)
        return val

    def local_value(self, run, vs):
        from . import loops
        return loops.local_value(self, run, vs)

    def bnum(self, x):
        return bnum(x)

    def known(self, b):
        return self.pr.entails(self.pc, boolc(b))

    # ------------------------------------------------------------------------------------------------ mutation
    def set(self, obj, key, val):
        if isinstance(obj, dict):
            self.trail.append((obj, key, obj.get(key), key in obj))
            obj[key] = val
        else:
            self.trail.append((obj, key, getattr(obj, key), True))
            setattr(obj, key, val)

    def rollback(self, n, mark=None):
        """Undo all writes after the first n; what was made after mark keeps its contents (nothing older refers to it)."""
        while len(self.trail) > n:
            obj, key, old, had = self.trail.pop()
            if mark is not None and getattr(obj, 'born', -1) >= mark:
                continue
            if isinstance(obj, dict):
                if had:
                    obj[key] = old
                else:
                    obj.pop(key, None)
            else:
                setattr(obj, key, old)

    def wrote(self, what):
        self.frame.append((what, list(self.pc)))

    def touch(self, obj, what):
        """Frame condition: the contents of user data are never written."""
        o = getattr(obj, 'owner', None)
        if o and o.startswith('?'):
            raise Unsupported(f'write through what may be a view of {o[1:]}')
        if o:
            self.wrote(f'{what} writes {obj.owner}')

    def write_store(self, store, fn, what):
        self.touch(store, what)
        self.set(store, 'fn', fn)

    def write_list(self, lst, rep, what):
        self.touch(lst, what)
        self.set(lst, 'rep', rep)

    def rep(self, lst):
        r = lst.rep
        if isinstance(r, Poison):
            raise PoisonRead(r.loc)
        return r

    # ------------------------------------------------------------------------------------------------ modules
    def load(self, name):
        """kinisi.<name> from the source in the working tree."""
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split('.'))
        path = os.path.join(path, '__init__.py') if os.path.isdir(path) else path + '.py'
        if not os.path.exists(path):
            raise Unsupported(f'module {name} not found')
        m = Mod(name, Env())
        self.modules[name] = m
        tree = parse(path)
        m.path = path
        for st in tree.body:
            self.stmt(st, m.attrs, m)
        for x in m.attrs.values():
            shared(x)
        return m

    def get(self, qual):
        """'module:Class.func' -> value"""
        mod, _, rest = qual.partition(':')
        m = self.load('kinisi.' + mod)
        v = None
        parts = rest.split('.')
        if parts[0] not in m.attrs:
            raise Unsupported(f'{qual} is not there any more')
        v = m.attrs[parts[0]]
        for p in parts[1:]:
            f, _ = v.lookup(p)
            if f is None:
                raise Unsupported(f'{qual} is not there any more')
            v = f
        return v

    # ------------------------------------------------------------------------------------------------ statements
    def block(self, body, env, mod):
        for st in body:
            self.stmt(st, env, mod)

    def stmt(self, st, env, mod):
        self.pr.tick()
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(st).__name__} at line {st.lineno}')
        m(st, env, mod)

    def s_Expr(self, st, env, mod):
        self.expr(st.value, env, mod)

    def s_Pass(self, st, env, mod):
        pass

    def s_Import(self, st, env, mod):
        for a in st.names:
            top = a.name.split('.')[0]
            if a.asname:
                self.set(env, a.asname, self.import_(a.name))
            else:
                self.set(env, top, self.import_(top))

    def s_ImportFrom(self, st, env, mod):
        name = st.module or ''
        if st.level:
            base = mod.name.split('.')
            if not getattr(mod, 'path', '').endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        for a in st.names:
            if a.name == '*':
                raise Unsupported('import *')
            self.set(env, a.asname or a.name, self.import_from(name, a.name))

    def import_(self, name):
        if name.split('.')[0] == 'kinisi':
            return self.load(name)
        return self.ext.module(name)

    def import_from(self, name, attr):
        if name.split('.')[0] == 'kinisi':
            m = self.load(name)
            if attr in m.attrs:
                return m.attrs[attr]
            return self.load(name + '.' + attr)
        return self.ext.module_attr(name, attr)

    def s_FunctionDef(self, st, env, mod):
        f = Func(st, env, mod, st.name)
        f.defaults = ([shared(self.expr(d, env, mod)) for d in st.args.defaults], [shared(self.expr(d, env, mod)) if d is not None else None for d in st.args.kw_defaults])
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, env, mod)
        self.set(env, st.name, v)

    def decorate(self, d, f, env, mod):
        if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod') and isinstance(f, Func):
            f.kind = d.id
            return f
        raise Unsupported(f'decorator {ast.unparse(d)}')

    def s_ClassDef(self, st, env, mod):
        bases = [self.expr(b, env, mod) for b in st.bases]
        ns = Env()
        c = Cls(st.name, bases, ns, mod)
        self.block(st.body, ns, mod) if False else self.class_body(st, ns, env, mod, c)
        self.set(env, st.name, c)

    def class_body(self, st, ns, env, mod, c):
        for s in st.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.FunctionDef):
                f = Func(s, env, mod, s.name, c)
                f.defaults = ([shared(self.expr(d, env, mod)) for d in s.args.defaults], [shared(self.expr(d, env, mod)) if d is not None else None for d in s.args.kw_defaults])
                v = f
                for d in reversed(s.decorator_list):
                    v = self.decorate(d, v, env, mod)
                ns[s.name] = v
            elif isinstance(s, ast.Assign):
                val = shared(self.expr(s.value, env, mod))
                for t in s.targets:
                    ns[t.id] = val
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                ns[s.target.id] = shared(self.expr(s.value, env, mod))
            elif isinstance(s, (ast.Pass, ast.AnnAssign)):
                pass
            else:
                raise Unsupported(f'{type(s).__name__} in class body')

    def s_Return(self, st, env, mod):
        raise ReturnEx(self.expr(st.value, env, mod) if st.value is not None else None)

    def s_Assign(self, st, env, mod):
        v = self.expr(st.value, env, mod)
        for t in st.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, st, env, mod):
        if st.value is not None:
            self.assign(st.target, self.expr(st.value, env, mod), env, mod)

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.setname(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), any(isinstance(x, ast.Starred) for x in t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.expr(t.value, env, mod), self.index(t.slice, env, mod), v)
        else:
            raise Unsupported(f'assignment to {type(t).__name__}')

    def setname(self, env, name, v):
        nl = env.get('%nonlocal')
        if nl and name in nl:
            e = nl[name]
            self.set(e, name, v)
        else:
            self.set(env, name, v)

    def s_Global(self, st, env, mod):
        raise Unsupported('a function that changes the state of its module')

    def s_Nonlocal(self, st, env, mod):
        for n in st.names:
            e = env.parent
            while e is not None and n not in e:
                e = e.parent
            if e is None:
                raise Unsupported('nonlocal')
            env.setdefault('%nonlocal', {})[n] = e

    def unpack(self, v, n, star=False):
        if star:
            raise Unsupported('starred assignment')
        if isinstance(v, tuple):
            if len(v) != n:
                raise RaiseEx(ExcV('ValueError'))
            return list(v)
        if isinstance(v, PyList) and self.rep(v)[0] == 'items' and len(v.rep[1]) == n:
            return list(v.rep[1])
        if isinstance(v, SArr) and v.ndim >= 1:
            return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, PyList):
            return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, Opq):
            return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, Obj):
            r = self.ext.iter_object(v)
            if r[0] == 'items':
                if len(r[1]) != n:
                    raise RaiseEx(ExcV('ValueError'))
                return list(r[1])
        raise Unsupported(f'unpacking {type(v).__name__}')

    def s_AugAssign(self, st, env, mod):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, env, mod)
            put = lambda v: self.setname(env, t.id, v)      # noqa
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, env, mod)
            old = self.getattr(o, t.attr)
            put = lambda v: self.setattr(o, t.attr, v)      # noqa
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env, mod)
            ix = self.index(t.slice, env, mod)
            old = self.getitem(o, ix)
            put = lambda v: self.setitem(o, ix, v)      # noqa
        else:
            raise Unsupported('augmented assignment')
        rhs = self.expr(st.value, env, mod)
        if (isinstance(t, ast.Name) and env.get(t.id) is old) or (isinstance(t, ast.Attribute) and isinstance(o, Obj) and o.attrs.get(t.attr) is old):
            put0 = put
            put = lambda v: put0(v) if v is not old else None      # noqa
        if isinstance(old, SArr) and not (isinstance(t, ast.Subscript) and isinstance(o, SArr)):
            self.inplace(old, st.op, rhs)
            put(old)
            return
        if isinstance(old, PyList) and isinstance(st.op, ast.Add):
            self.write_list(old, cat(self.rep(old), self.torep(rhs)), 'in-place extension')
            put(old)
            return
        put(self.binop(st.op, old, rhs))

    def inplace(self, arr, op, rhs):
        new = self.binop(op, arr, rhs)
        if not isinstance(new, SArr):
            raise Unsupported('in-place operation')
        if len(new.axes) != len(arr.axes) or any(not self.same_len(axlen(p), axlen(q)) for p, q in zip(new.axes, arr.axes)):
            raise RaiseEx(ExcV('ValueError'))
        g = new.getter()
        if arr.vmap is not None:
            self.touch(arr.store, 'in-place arithmetic')
            raise Unsupported('in-place operation on a view')
        if arr.dtype == 'i' and new.dtype == 'f':
            raise RaiseEx(ExcV('TypeError'))
        self.write_store(arr.store, g, 'in-place arithmetic')

    def s_If(self, st, env, mod):
        if self.truth(self.expr(st.test, env, mod)):
            self.block(st.body, env, mod)
        else:
            self.block(st.orelse, env, mod)

    def s_Continue(self, st, env, mod):
        raise ContinueEx()

    def s_Break(self, st, env, mod):
        raise BreakEx()

    def s_Assert(self, st, env, mod):
        if not self.truth(self.expr(st.test, env, mod)):
            raise RaiseEx(ExcV('AssertionError'))

    def s_Delete(self, st, env, mod):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.trail.append((env, t.id, env.get(t.id), t.id in env))
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, env, mod)
                k = self.index(t.slice, env, mod)
                if isinstance(o, PyDict) and k in o.items:
                    self.touch(o, 'del')
                    self.trail.append((o.items, k, o.items[k], True))
                    del o.items[k]
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def s_Raise(self, st, env, mod):
        if st.exc is None:
            cur = env.get('%exc')
            raise RaiseEx(cur if cur is not None else ExcV('RuntimeError'))
        v = self.expr(st.exc, env, mod)
        raise RaiseEx(self.as_exc(v))

    def as_exc(self, v):
        if isinstance(v, ExcV):
            return v
        if isinstance(v, Builtin) and v.name.startswith('exc:'):
            return ExcV(v.name[4:])
        raise Unsupported('raise of an unknown value')

    def s_Try(self, st, env, mod):
        try:
            try:
                self.block(st.body, env, mod)
            except RaiseEx as e:
                for h in st.handlers:
                    if self.exc_matches(h.type, e.exc, env, mod):
                        if h.name:
                            self.set(env, h.name, e.exc)
                        env['%exc'] = e.exc
                        self.block(h.body, env, mod)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env, mod)
        finally:
            if st.finalbody:
                self.block(st.finalbody, env, mod)

    def exc_matches(self, node, exc, env, mod):
        if node is None:
            return True
        v = self.expr(node, env, mod)
        names = [x.name[4:] for x in (v if isinstance(v, tuple) else (v, )) if isinstance(x, Builtin) and x.name.startswith('exc:')]
        if not names:
            raise Unsupported('except clause')
        import builtins
        c = getattr(builtins, exc.name, None)
        for n in names:
            if n == exc.name:
                return True
            d = getattr(builtins, n, None)
            if c is not None and d is not None and issubclass(c, d):
                return True
        return False

    def s_With(self, st, env, mod):
        for it in st.items:
            v = self.expr(it.context_expr, env, mod)
            w = self.ext.enter(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, w, env, mod)
        self.block(st.body, env, mod)
        for it in st.items:
            self.ext.exit_(None)

    # ------------------------------------------------------------------------------------------------ loops
    def s_For(self, st, env, mod):
        it = self.expr(st.iter, env, mod)
        orelse = st.orelse

        def body(elem):
            self.assign(st.target, elem, env, mod)
            self.block(st.body, env, mod)
        broke = self.iterate(it, body)
        if orelse and not broke:
            self.block(orelse, env, mod)

    def seqof(self, it):
        """('items', list) | ('seq', Seq) | ('filt', n, cond, val) | ('cat', reps)"""
        if isinstance(it, PyList):
            return self.rep(it)
        if isinstance(it, tuple):
            return ('items', list(it))
        if isinstance(it, Seq):
            return self.fold(it)
        if isinstance(it, SArr):
            if it.ndim == 0:
                raise RaiseEx(ExcV('TypeError'))
            return self.fold(Seq(axlen(it.axes[0]), lambda i: self.ext.row(it, i)))
        if isinstance(it, PyDict):
            if it.rest is not None:
                raise Unsupported('iteration over an unknown mapping')
            return ('items', list(it.items))
        if isinstance(it, str):
            return ('items', list(it))
        if isinstance(it, Opq):
            return self.ext.iter_opaque(it)
        if isinstance(it, Obj):
            f, c = it.cls.lookup('__iter__') if isinstance(it.cls, Cls) else (None, None)
            if f is None:
                return self.ext.iter_object(it)
        raise Unsupported(f'iteration over {type(it).__name__}')

    def fold(self, s):
        if s.n.is_const() and s.n.const() <= 16:
            return ('items', [self.element(s.get, num(i)) for i in range(max(0, int(s.n.const())))])
        return ('seq', s)

    def iterate(self, it, body):
        """Runs body(element) for every element; True when a concrete loop was left by break."""
        rep = self.seqof(it)
        if rep[0] == 'cat':
            for r in rep[1]:
                if self._iterate(r, body):
                    return True
            return False
        return self._iterate(rep, body)

    def _iterate(self, rep, body):
        if rep[0] == 'items':
            for x in rep[1]:
                seen = fetched(self, x)
                try:
                    body(x)
                except ContinueEx:
                    continue
                except BreakEx:
                    return True
            if rep[1] and seen:
                HOOKS['end'](self)
            return False
        if rep[0] == 'seq':
            s = rep[1]
            frames = []

            def b(i):
                x = self.lift(self.element(s.get, i))
                if fetched(self, x):
                    frames.append(True)
                body(x)
            self.loop(s.n, b)
            if frames:
                HOOKS['end'](self)
            return False
        if rep[0] == 'filt':
            n, cond, val = rep[1:]

            def b(i):
                if self.branch(cond(i)):
                    body(self.element(val, i))
            self.loop(n, b)
            return False
        raise Unsupported('iteration over a list under construction')

    def element(self, get, i):
        mark = born()
        return instance(get(i), mark)

    def lift(self, v):
        return tidy(v) if isinstance(v, (P, B)) else v

    def loop(self, n, body):
        from . import loops
        loops.summarise(self, num(n), body)

    def s_While(self, st, env, mod):
        from . import loops
        loops.while_loop(self, st, env, mod)

    # ------------------------------------------------------------------------------------------------ expressions
    def expr(self, e, env, mod):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at line {e.lineno}')
        return m(e, env, mod)

    def e_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported('non-finite literal')
            return Fraction(repr(v))
        if isinstance(v, complex):
            raise Unsupported('complex literal')
        return v

    def e_Name(self, e, env, mod):
        return self.name(e.id, env, mod)

    def name(self, n, env, mod):
        x = env
        while x is not None:
            if n in x:
                v = x[n]
                if isinstance(v, Poison):
                    raise PoisonRead(v.loc)
                return v
            x = getattr(x, 'parent', None)          # a module's names have no enclosing scope
        if n in mod.attrs:
            return mod.attrs[n]
        b = self.ext.builtin(n)
        if b is None:
            if env is not mod.attrs:
                raise RaiseEx(ExcV('UnboundLocalError'))
            raise Unsupported(f'name {n}')
        return b

    def e_Attribute(self, e, env, mod):
        return self.getattr(self.expr(e.value, env, mod), e.attr)

    def e_Tuple(self, e, env, mod):
        return tuple(self.elts(e.elts, env, mod))

    def e_List(self, e, env, mod):
        return PyList.of(self.elts(e.elts, env, mod))

    def e_Set(self, e, env, mod):
        return PySet(('items', self.elts(e.elts, env, mod)))

    def elts(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                r = self.seqof(self.expr(x.value, env, mod))
                if r[0] != 'items':
                    raise Unsupported('star of a symbolic sequence')
                out += r[1]
            else:
                out.append(self.expr(x, env, mod))
        return out

    def e_Dict(self, e, env, mod):
        d = PyDict({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.expr(v, env, mod)
                if not isinstance(x, PyDict):
                    raise Unsupported('** of a non-dict')
                d.items.update(x.items)
                if x.rest is not None:
                    if d.rest is not None:
                        raise Unsupported('two unknown mappings')
                    d.rest = x.rest
            else:
                d.items[self.key(self.expr(k, env, mod))] = self.expr(v, env, mod)
        return d

    def key(self, k):
        if isinstance(k, (str, bytes, int, bool, Fraction, tuple)) or k is None:
            return k
        raise Unsupported('symbolic dictionary key')

    def e_JoinedStr(self, e, env, mod):
        out = ''
        sym = False
        args = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
                args.append(K(v.value))
            else:
                x = self.expr(v.value, env, mod)
                if isinstance(x, (str, int)) and v.format_spec is None:
                    out += str(x)
                    args.append(K(str(x)))
                elif isinstance(x, P) and x.is_int() and v.format_spec is None and self.known(le(0, x)):
                    sym = True
                    args.append(h5model.dec(x))
                else:
                    sym = True
                    try:
                        args.append(toarg(x))
                    except Unsupported:
                        args.append(K('?'))
        if sym:
            return h5model.text([y for x in args for y in h5model.parts(x)])
        return out

    def e_IfExp(self, e, env, mod):
        return self.expr(e.body if self.truth(self.expr(e.test, env, mod)) else e.orelse, env, mod)

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.expr(x, env, mod)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, B) else False
            if not isand and t:
                return v if not isinstance(v, B) else True
        return v

    def e_UnaryOp(self, e, env, mod):
        v = self.expr(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            t = self.truthb(v)
            return tidy(neg(t)) if isinstance(t, B) else not t
        if isinstance(e.op, ast.USub):
            return self.unary(v, lambda p: -num(p))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.unary(v, lambda p: neg(boolc(p)))
        raise Unsupported('unary operator')

    def unary(self, v, f, dtype=None):
        if isinstance(v, SArr):
            g = v.getter()
            return SArr(v.axes, lambda idx: f(g(idx)), dtype or v.dtype, meta=v.keep('itemsize'))
        if isinstance(v, PyList):
            return self.unary(self.ext.np_array(v), f, dtype)
        if is_num(v) or isinstance(v, (B, bool)):
            return tidy(f(v))
        if isinstance(v, Obj):
            return self.unary(self.ext.obj_array(v), f, dtype)
        raise Unsupported(f'arithmetic on {type(v).__name__}')

    def e_BinOp(self, e, env, mod):
        return self.binop(e.op, self.expr(e.left, env, mod), self.expr(e.right, env, mod))

    def binop(self, op, a, b):
        name = type(op).__name__
        if name == 'MatMult':
            return self.ext.matmul(a, b)
        if isinstance(a, str) and isinstance(b, str) and name == 'Add':
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple) and name == 'Add':
            return a + b
        if isinstance(a, bytes) and isinstance(b, bytes) and name == 'Add':
            return a + b
        if name == 'Add' and (isinstance(a, (str, Opq)) and isinstance(b, (str, Opq))) and (self.is_str(a) and self.is_str(b)):
            return h5model.text(h5model.parts(a) + h5model.parts(b))
        if isinstance(a, PyList) and isinstance(b, PyList) and name == 'Add':
            return PyList(cat(self.rep(a), self.rep(b)))
        if isinstance(a, PyList) and name == 'Mult' and isinstance(b, int) and not isinstance(b, bool):
            return PyList(cat(*[self.rep(a)] * b))
        if name == 'Mod' and isinstance(a, str):
            return Opq(app('format', toarg(a), toarg(b), sort='o'), 'str')
        f = BINOPS.get(name)
        if f is None:
            if name in ('BitAnd', 'BitOr'):
                g = (lambda x, y: conj(boolc(x), boolc(y))) if name == 'BitAnd' else (lambda x, y: disj(boolc(x), boolc(y)))
                return self.arith(a, b, g, dtype='b')
            raise Unsupported(f'operator {name}')
        return self.arith(a, b, f, div=name == 'Div')

    def is_str(self, v):
        return isinstance(v, str) or (isinstance(v, Opq) and v.tag == 'str')

    def arith(self, a, b, f, dtype=None, div=False):
        """Elementwise with broadcasting."""
        if isinstance(a, Obj) and not isinstance(b, str):
            a = self.ext.obj_array(a)
        if isinstance(b, Obj) and not isinstance(a, str):
            b = self.ext.obj_array(b)
        if isinstance(a, (SArr, )) or isinstance(b, SArr):
            if isinstance(a, (PyList, tuple)):
                a = self.ext.np_array(a)
            if isinstance(b, (PyList, tuple)):
                b = self.ext.np_array(b)
        ok = lambda v: is_num(v) or isinstance(v, (bool, B))       # noqa
        if ok(a) and ok(b):
            r = f(bnum(a), bnum(b)) if dtype != 'b' else f(a, b)
            return tidy(r)
        if not all(isinstance(x, SArr) or ok(x) for x in (a, b)):
            raise Unsupported(f'arithmetic on {type(a).__name__} and {type(b).__name__}')
        A, Bv = (x if isinstance(x, SArr) else SArr((), lambda idx, x=x: x if isinstance(x, B) else num(x), 'f' if isinstance(x, Fraction) or (isinstance(x, P) and not x.is_int()) else 'i') for x in (a, b))
        axes, ma, mb = self.broadcast(A, Bv)
        ga, gb = A.getter(), Bv.getter()
        dt = dtype or ('f' if div or 'f' in (A.dtype, Bv.dtype) else 'i')
        if dtype == 'b':
            return SArr(axes, lambda idx: boolc(f(ga(ma(idx)), gb(mb(idx)))), 'b')
        return SArr(axes, lambda idx: num(f(bnum(ga(ma(idx))), bnum(gb(mb(idx))))), dt)

    def same_len(self, m, n):
        m, n = num(m), num(n)
        if m is n:
            return True
        if m.is_const() and n.is_const():
            return False
        return self.pr.prove_eq(self.pc, m, n)

    def align(self, A, axes):
        """Index map into A whose axis components are rearranged to those given (same lengths)."""
        pos, maps = 0, []
        for ax, want in zip(A.axes, axes):
            maps.append((ax, want))

        def f(idx):
            out, p = [], 0
            for ax, want in maps:
                part = idx[p:p + len(want)]
                p += len(want)
                out += recomp(part, want, ax)
            return out
        return f

    def broadcast(self, A, B_):
        n = max(A.ndim, B_.ndim)
        ax = ((), ) * (n - A.ndim) + A.axes
        bx = ((), ) * (n - B_.ndim) + B_.axes
        axes, ka, kb = [], [], []
        for p, q in zip(ax, bx):
            lp, lq = axlen(p), axlen(q)
            if p == ():
                axes.append(q)
                ka.append(('skip', ))
                kb.append(('full', q))
            elif q == ():
                axes.append(p)
                ka.append(('full', p))
                kb.append(('skip', ))
            elif lq is ONE and lp is not ONE:
                axes.append(p)
                ka.append(('full', p))
                kb.append(('zero', q))
            elif lp is ONE and lq is not ONE:
                axes.append(q)
                ka.append(('zero', p))
                kb.append(('full', q))
            elif p == q:
                axes.append(p)
                ka.append(('full', p))
                kb.append(('full', q))
            elif self.same_len(lp, lq):
                w = p if len(p) >= len(q) else q
                axes.append(w)
                ka.append(('full', p))
                kb.append(('full', q))
            else:
                # lengths that may or may not be equal, or one
                if self.branch(eq(lp, lq)):
                    w = p if len(p) >= len(q) else q
                    axes.append(w)
                    ka.append(('full', p))
                    kb.append(('full', q))
                elif self.branch(eq(lp, 1)):
                    axes.append(q)
                    ka.append(('zero', p))
                    kb.append(('full', q))
                elif self.branch(eq(lq, 1)):
                    axes.append(p)
                    ka.append(('full', p))
                    kb.append(('zero', q))
                else:
                    raise RaiseEx(ExcV('ValueError'))

        def mk(keys):
            def f(idx):
                out, pos = [], 0
                for k, w in zip(keys, axes):
                    part = idx[pos:pos + len(w)]
                    pos += len(w)
                    if k[0] == 'skip':
                        continue
                    if k[0] == 'zero':
                        out += [ZERO] * len(k[1])
                    else:
                        out += recomp(part, w, k[1])
                return out
            return f
        return axes, mk(ka), mk(kb)

    def e_Compare(self, e, env, mod):
        left = self.expr(e.left, env, mod)
        res = TRUE
        val = None
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r, env, mod)
            val = self.compare(op, left, right)
            if len(e.ops) == 1:
                return val
            res = conj(res, self.truthb(val))
            left = right
        return tidy(res)

    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ('Is', 'IsNot'):
            r = self.identical(a, b)
            if n == 'IsNot':
                r = tidy(neg(r)) if isinstance(r, B) else not r
            return r
        if n in ('In', 'NotIn'):
            r = self.contains(b, a)
            if n == 'NotIn':
                r = tidy(neg(r)) if isinstance(r, B) else not r
            return r
        if n in ('Eq', 'NotEq'):
            if isinstance(a, SArr) or isinstance(b, SArr):
                if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                    raise Unsupported('array compared with a non-array')
                f = eq if n == 'Eq' else ne
                return self.arith(a, b, lambda x, y: f(bnum(x), bnum(y)), dtype='b')
            r = self.equal(a, b)
            if n == 'NotEq':
                r = tidy(neg(r)) if isinstance(r, B) else not r
            return r
        f = {'Lt': lt, 'LtE': le, 'Gt': gt, 'GtE': ge}.get(n)
        if f is None:
            raise Unsupported(n)
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[n]
        return self.arith(a, b, lambda x, y: f(bnum(x), bnum(y)), dtype='b')

    def identical(self, a, b):
        if a is None or b is None:
            o = a if b is None else b
            if isinstance(o, Opq) and o.tag == 'maybe':
                return bapp('isnone', o.term)
            return a is None and b is None
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            return self.equal(a, b)
        if isinstance(a, (int, str, Fraction)) and isinstance(b, (int, str, Fraction)):
            return type(a) is type(b) and a == b
        if isinstance(a, P) or isinstance(b, P):
            raise Unsupported('identity of numbers')
        if isinstance(a, Opq) and isinstance(b, Opq):
            return tidy(eq(a.term, b.term))
        return a is b

    def equal(self, a, b):
        """Python ==; bool or B."""
        if a is None or b is None:
            o = a if b is None else b
            if isinstance(o, Opq) and o.tag == 'maybe':
                return bapp('isnone', o.term)
            return a is None and b is None
        if (is_num(a) or isinstance(a, (bool, B))) and (is_num(b) or isinstance(b, (bool, B))):
            return tidy(eq(bnum(a), bnum(b)))
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return a == b
        if isinstance(a, Opq) or isinstance(b, Opq):
            o, c = (a, b) if isinstance(a, Opq) else (b, a)
            if isinstance(c, Opq):
                return tidy(eq(o.term, c.term))
            if o.tag in ('str', ) and not isinstance(c, str):
                return False
            if o.tag == 'str' and h5model.equal_text(o, c) is not None:
                return h5model.equal_text(o, c)
            return bapp('streq', o.term, toarg(c))
        if isinstance(a, (tuple, PyList)) and type(a) is type(b):
            ra, rb = self.seqof(a), self.seqof(b)
            if ra[0] == rb[0] == 'items':
                if len(ra[1]) != len(rb[1]):
                    return False
                r = TRUE
                for x, y in zip(ra[1], rb[1]):
                    q = self.equal(x, y)
                    r = conj(r, boolc(q))
                return tidy(r)
            raise Unsupported('equality of symbolic lists')
        if isinstance(a, SArr) or isinstance(b, SArr):
            raise Unsupported('equality of an array with something else')
        if type(a) is not type(b):
            return False
        if isinstance(a, SliceV):
            return tidy(conj(*[boolc(self.equal(x, y)) for x, y in ((a.lo, b.lo), (a.hi, b.hi), (a.step, b.step))]))
        if isinstance(a, (Cls, Builtin, Func)):
            return a is b
        raise Unsupported(f'equality of {type(a).__name__}')

    def contains(self, coll, x):
        if isinstance(coll, PyDict):
            k = self.key(x)
            if k in coll.items:
                return True
            if coll.rest is not None:
                return bapp('haskey', coll.rest.term, K(k))
            return False
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        if isinstance(coll, SArr):
            idx = coll.fresh_idx()
            body = eq(bnum(coll.at(*idx)), bnum(x))
            for v, n in reversed(list(zip(idx, coll.comps()))):
                body = exists(v, n, body)
            return tidy(body)
        if isinstance(coll, (PyList, tuple, Seq)):
            return tidy(self.rep_contains(self.seqof(coll), x))
        if isinstance(coll, PySet):
            return tidy(self.rep_contains(coll.rep, x))
        if isinstance(coll, Opq):
            return bapp('in', toarg(x), coll.term)
        raise Unsupported(f'membership in {type(coll).__name__}')

    def rep_contains(self, rep, x):
        if rep[0] == 'items':
            return disj(*[boolc(self.equal(x, y)) for y in rep[1]])
        if rep[0] == 'seq':
            if rep[1].arr is not None:
                return boolc(self.contains(rep[1].arr, x))
            v = fresh('e', 'i')
            return exists(v, rep[1].n, boolc(self.equal(x, rep[1].get(v))))
        if rep[0] == 'filt':
            v = fresh('e', 'i')
            return exists(v, rep[1], conj(rep[2](v), boolc(self.equal(x, rep[3](v)))))
        if rep[0] == 'cat':
            return disj(*[self.rep_contains(r, x) for r in rep[1]])
        raise Unsupported('membership in a list under construction')

    def truthb(self, v):
        """bool or B"""
        if isinstance(v, (bool, B)):
            return v
        if v is None:
            return False
        if is_num(v):
            return tidy(ne(v, 0))
        if isinstance(v, (str, bytes, tuple)):
            return len(v) > 0
        if isinstance(v, PyList):
            return tidy(lt(0, rep_len(self.rep(v))))
        if isinstance(v, PySet):
            return tidy(lt(0, rep_len(v.rep)))
        if isinstance(v, PyDict):
            if v.items or v.rest is None:
                return bool(v.items)
            return bapp('truth', v.rest.term)
        if isinstance(v, (Obj, Cls, Func, Builtin, Bound, Mod)):
            return True
        if isinstance(v, Opq):
            return bapp('truth', v.term)
        if isinstance(v, SArr):
            if v.ndim == 0:
                return self.truthb(tidy(v.at()))
            n = ONE
            for d in v.dims():
                n = n * d
            if n is ONE:
                return self.truthb(tidy(v.at(*[ZERO] * len(v.comps()))))
            raise RaiseEx(ExcV('ValueError'))
        raise Unsupported(f'truth of {type(v).__name__}')

    def truth(self, v):
        t = self.truthb(v)
        return self.branch(t) if isinstance(t, B) else t

    def e_Subscript(self, e, env, mod):
        return self.getitem(self.expr(e.value, env, mod), self.index(e.slice, env, mod))

    def index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.expr(x, env, mod) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, env, mod) for x in s.elts)
        return self.expr(s, env, mod)

    def e_Slice(self, s, env, mod):
        return self.index(s, env, mod)

    def e_Starred(self, e, env, mod):
        raise Unsupported('star expression')

    def e_Lambda(self, e, env, mod):
        f = Func(e, env, mod, '<lambda>')
        f.defaults = ([self.expr(d, env, mod) for d in e.args.defaults], [])
        return f

    def e_NamedExpr(self, e, env, mod):
        v = self.expr(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def e_ListComp(self, e, env, mod):
        out = PyList.of([])
        inner = Env(env)

        def gen(k):
            if k == len(e.generators):
                v = self.expr(e.elt, inner, mod)
                self.write_list(out, cat(self.rep(out), ('items', [v])), 'comprehension')
                return
            g = e.generators[k]
            it = self.expr(g.iter, inner if k else inner, mod)
            # a flattening comprehension over symbolic lists of lists
            fl = self.flatten_comp(e, k, g, it, inner, mod)
            if fl is not None:
                self.write_list(out, cat(self.rep(out), fl), 'comprehension')
                return

            def body(x):
                self.assign(g.target, x, inner, mod)
                for c in g.ifs:
                    if not self.truth(self.expr(c, inner, mod)):
                        return
                gen(k + 1)
            self.iterate(it, body)
        gen(0)
        return out

    def flatten_comp(self, e, k, g, it, env, mod):
        """[x for sub in L for x in sub]: the concatenation of symbolic lists."""
        if k != len(e.generators) - 2 or g.ifs or e.generators[-1].ifs:
            return None
        last = e.generators[-1]
        if not (isinstance(g.target, ast.Name) and isinstance(last.iter, ast.Name) and last.iter.id == g.target.id and isinstance(e.elt, ast.Name) and isinstance(last.target, ast.Name)
                and e.elt.id == last.target.id):
            return None
        rep = self.seqof(it)
        if rep[0] != 'seq':
            return None
        return self.flatten_seq(rep[1])

    def flatten_seq(self, s, tag=None):
        i = fresh('f', 'i')
        sub = s.get(i)
        t = toarg(sub)
        tag = tag or getattr(self.elem_of(sub), 'tag', 'obj')
        lam = mklam([i], [s.n], t, 'list')
        return ('seq', Seq(app('flatlen', lam, sort='i'), lambda j: Opq(app('flatelem', lam, num(j), sort='o'), tag)))

    def elem_of(self, v):
        try:
            r = self.seqof(v)
            return r[1].get(ZERO) if r[0] == 'seq' else r[1][0]
        except (Unsupported, IndexError):
            return None

    def e_GeneratorExp(self, e, env, mod):
        return self.e_ListComp(e, env, mod)

    def e_SetComp(self, e, env, mod):
        return PySet(self.rep(self.e_ListComp(e, env, mod)))

    def e_DictComp(self, e, env, mod):
        if len(e.generators) != 1:
            raise Unsupported('dict comprehension')
        g = e.generators[0]
        inner = Env(env)
        rep = self.seqof(self.expr(g.iter, inner, mod))
        if rep[0] != 'items':
            raise Unsupported('dict comprehension over a symbolic sequence')
        d = PyDict({})
        for x in rep[1]:
            self.assign(g.target, x, inner, mod)
            if all(self.truth(self.expr(c, inner, mod)) for c in g.ifs):
                d.items[self.key(self.expr(e.key, inner, mod))] = self.expr(e.value, inner, mod)
        return d

    # ------------------------------------------------------------------------------------------------ calls
    def e_Call(self, e, env, mod):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.super_(env)
        f = self.expr(e.func, env, mod)
        args = self.elts(e.args, env, mod)
        kw, rest = {}, None
        for k in e.keywords:
            if k.arg is not None:
                kw[k.arg] = self.expr(k.value, env, mod)
            else:
                d = self.expr(k.value, env, mod)
                if isinstance(d, PyDict):
                    for kk, v in d.items.items():
                        if kk in kw:
                            raise RaiseEx(ExcV('TypeError'))
                        kw[kk] = v
                    r = d.rest
                elif isinstance(d, Opq):
                    r = d
                else:
                    raise Unsupported('** of a non-dict')
                if r is not None:
                    if rest is not None:
                        raise Unsupported('two unknown mappings')
                    rest = r
        if rest is not None:
            kw['**'] = rest
        return self.call(f, args, kw)

    def super_(self, env):
        x = env
        while x is not None and '%class' not in x:
            x = x.parent
        if x is None:
            raise Unsupported('super outside a class')
        return SuperV(x['%class'], x['%self'])

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Builtin):
            return f.fn(args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(f.func, ([f.self_] if f.self_ is not None else []) + args, kw, cls=f.cls)
            return f.func.fn([f.self_] + args, kw)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        if isinstance(f, Opq):
            return self.ext.call_opaque(f, args, kw)
        if isinstance(f, Obj):
            m = self.getattr(f, '__call__')
            return self.call(m, args, kw)
        raise Unsupported(f'call of {type(f).__name__}')

    def construct(self, c, args, kw):
        h = self.contracts.get(c.name + '.__new__')
        if h is not None and self.target != c.name + '.__init__':
            f, _ = c.lookup('__init__')
            return h(self, c, args, kw)
        o = Obj(c)
        f, where = c.lookup('__init__')
        if f is not None:
            self.call_func(f, [o] + args, kw)
        elif where is not None and not isinstance(where, Cls):
            self.ext.base_init(o, where, args, kw)
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        rest = kw.pop('**', None)
        if len(args) > len(names):
            if a.vararg is None:
                raise RaiseEx(ExcV('TypeError'))
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        defs, kwdefs = f.defaults
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in env:
                    raise RaiseEx(ExcV('TypeError'))
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise RaiseEx(ExcV('TypeError'))
        miss = []
        dmap = dict(zip(names[len(names) - len(defs):], defs))
        dmap.update({k: d for k, d in zip(kwonly, kwdefs) if d is not None})
        for n in names + kwonly:
            if n not in env:
                if rest is not None and a.kwarg is None:
                    miss.append(n)
                    continue
                if n not in dmap:
                    raise RaiseEx(ExcV('TypeError'))
                env[n] = dmap[n]
        if miss:
            raise Unsupported(f'call of {f.qual} with an unknown mapping for {miss}')
        if a.kwarg is not None:
            env[a.kwarg.arg] = PyDict(extra, rest=rest)
        return env

    def call_func(self, f, args, kw, cls=None):
        h = self.contracts.get(f.qual)
        if h is not None and f.qual != self.target:
            r = h(self, f, args, kw)
            if r is not INLINE:
                self.by_contract.add(f.mod.name + ':' + f.qual)
                return r
        return self.run_func(f, args, kw, cls)

    def run_func(self, f, args, kw, cls=None):
        if self.depth > 25:
            raise Unsupported('recursion')
        vals = self.bind(f, args, kw)
        env = Env(f.env if not isinstance(f.env, dict) or f.env is not f.mod.attrs else None)
        env.update(vals)
        if f.cls is not None:
            env['%class'] = f.cls
            env['%self'] = cls if f.kind == 'classmethod' and cls is not None else (args[0] if args else None)
        if isinstance(f.node, ast.Lambda):
            return self.expr(f.node.body, env, f.mod)
        self.executed.add(f.mod.name + ':' + f.qual)
        self.depth += 1
        try:
            self.block(f.node.body, env, f.mod)
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # ------------------------------------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise PoisonRead(v.loc)
                return v
            if isinstance(o.cls, Cls):
                f, where = o.cls.lookup(name)
                if f is not None:
                    return self.bindattr(f, o, o.cls)
            if o.lazy is not None:
                v = o.lazy(name)
                if v is not None:
                    o.attrs[name] = v
                    return v
            if name == '__class__':
                return o.cls
            return self.ext.obj_attr(o, name)
        if isinstance(o, Cls):
            if name == '__name__':
                return o.name
            f, where = o.lookup(name)
            if f is None:
                if name == '__new__':
                    return Builtin('__new__', lambda a, k: Obj(a[0]))
                if name.startswith('__') or name == 'mro' or any(not isinstance(c, Cls) for c in o.mro()):
                    raise Unsupported(f'attribute {name} of a class')
                raise RaiseEx(ExcV('AttributeError'))
            if isinstance(f, Func) and f.kind == 'classmethod':
                return Bound(f, o, o)
            return f
        if isinstance(o, SuperV):
            start = o.self_.cls if isinstance(o.self_, Obj) else o.self_
            f, where = start.lookup(name, after=o.cls)
            if f is None:
                if where is not None or name == '__init__':
                    return Builtin('super.' + name, lambda a, k: self.ext.base_call(o.self_, where, name, a, k))
                raise RaiseEx(ExcV('AttributeError'))
            if isinstance(f, Func):
                if f.kind == 'staticmethod':
                    return f
                if f.kind == 'property':
                    return self.call_func(f, [o.self_], {})
                return Bound(f, o.self_, start)
            return f
        if isinstance(o, Mod):
            if isinstance(o.attrs, dict) and name in o.attrs:
                return o.attrs[name]
            return self.ext.module_attr(o.name, name)
        if isinstance(o, SArr):
            return self.ext.arr_attr(o, name)
        if isinstance(o, PyList):
            return self.ext.list_attr(o, name)
        if isinstance(o, PyDict):
            return self.ext.dict_attr(o, name)
        if isinstance(o, (str, bytes)):
            return self.ext.str_attr(o, name)
        if isinstance(o, tuple):
            self.ext.no_attr(tuple, name)
        if isinstance(o, Opq):
            return self.ext.opaque_attr(o, name)
        if is_num(o) or isinstance(o, (bool, B)):
            return self.ext.num_attr(o, name)
        if isinstance(o, Builtin):
            return self.ext.builtin_attr(o, name)
        if o is None:
            self.ext.no_attr(type(None), name)
        if isinstance(o, Func) and name == '__name__':
            return o.name
        if isinstance(o, ExcV) and name == 'args':
            return tuple(o.args)
        raise Unsupported(f'attribute {name} of {type(o).__name__}')

    def bindattr(self, f, o, cls):
        if isinstance(f, Func):
            if f.kind == 'staticmethod':
                return f
            if f.kind == 'property':
                return self.call_func(f, [o], {})
            if f.kind == 'classmethod':
                return Bound(f, cls, cls)
            return Bound(f, o, cls)
        return f

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, Cls):
                f, _ = o.cls.lookup(name)
                if isinstance(f, Func) and f.kind == 'property':
                    raise RaiseEx(ExcV('AttributeError'))
            self.touch(o, f'attribute {name}')
            self.set(o.attrs, name, v)
            return
        if isinstance(o, Opq):
            if o.tag not in self.ext.user_tags():
                raise Unsupported(f'attribute assignment on {o.tag}')
            self.wrote(f'attribute {name} of a user object is written')
            return
        raise Unsupported(f'attribute assignment on {type(o).__name__}')

    # ------------------------------------------------------------------------------------------------ items
    def torep(self, v):
        return self.seqof(v)

    def norm_index(self, i, n):
        """Index into a sequence of length n, negative ones from the end; IndexError otherwise."""
        i, n = num(i), num(n)
        if i.is_const():
            c = i.const()
            if c >= 0:
                if self.branch(lt(i, n)):
                    return i
                raise RaiseEx(ExcV('IndexError'))
            if self.branch(le(0, n + c)):
                return n + c
            raise RaiseEx(ExcV('IndexError'))
        if self.branch(le(0, i)):
            if self.branch(lt(i, n)):
                return i
            raise RaiseEx(ExcV('IndexError'))
        if self.branch(le(0, n + i)):
            return n + i
        raise RaiseEx(ExcV('IndexError'))

    def slice_range(self, s, n):
        """(start, count, step) of a slice of a sequence of length n."""
        n = num(n)
        step = 1 if s.step is None else s.step
        if isinstance(step, P):
            if not self.known(lt(0, step)):
                if self.branch(le(step, 0)):
                    raise Unsupported('slice step that is not positive')
            step = num(step)
        elif step < 0:
            if s.lo is None and s.hi is None and step == -1:
                return n - 1, n, num(-1)
            raise Unsupported('negative slice step')
        elif step == 0:
            raise RaiseEx(ExcV('ValueError'))
        lo = self.slice_end(s.lo, n, ZERO)
        hi = self.slice_end(s.hi, n, n)
        if not (self.known(le(lo, hi))):
            if not self.branch(le(lo, hi)):
                hi = lo
        k = hi - lo
        if num(step) is not ONE:
            k = floor((k + step - 1) / step) if not k.is_const() or not num(step).is_const() else num(-((-k.const()) // num(step).const()))
        return lo, k, num(step)

    def slice_end(self, x, n, default):
        if x is None:
            return default
        if not is_num(x):
            raise Unsupported('slice bound')
        x = num(x)
        if not self.known(le(0, x)):
            if self.branch(lt(x, 0)):
                y = n + x
                if not self.known(le(0, y)):
                    if self.branch(lt(y, 0)):
                        return ZERO
                return y
        if not self.known(le(x, n)):
            if self.branch(lt(n, x)):
                return n
        return x

    def getitem(self, o, ix):
        if isinstance(o, PyDict):
            k = self.key(ix)
            if k in o.items:
                v = o.items[k]
                if isinstance(v, Poison):
                    raise PoisonRead(v.loc)
                return v
            if o.rest is not None:
                return Opq(app('getkey', o.rest.term, K(k), sort='o'), 'obj')
            raise RaiseEx(ExcV('KeyError'))
        if isinstance(o, (PyList, Seq)):
            return self.list_get(self.seqof(o), ix, o)
        if isinstance(o, tuple):
            if isinstance(ix, SliceV):
                return o[conc_slice(ix)]
            if isinstance(ix, int):
                try:
                    return o[ix]
                except IndexError:
                    raise RaiseEx(ExcV('IndexError'))
            return self.list_get(('items', list(o)), ix, o)
        if isinstance(o, (str, bytes)):
            if isinstance(ix, SliceV):
                return o[conc_slice(ix)]
            if isinstance(ix, int):
                try:
                    return o[ix]
                except IndexError:
                    raise RaiseEx(ExcV('IndexError'))
            raise Unsupported('symbolic index into text')
        if isinstance(o, SArr):
            return self.ext.arr_get(o, ix)
        if isinstance(o, Opq):
            return self.ext.opaque_item(o, ix)
        if isinstance(o, Obj):
            return self.ext.obj_item(o, ix)
        if isinstance(o, Builtin):
            return self.ext.builtin_item(o, ix)
        raise RaiseEx(ExcV('TypeError')) if o is None or is_num(o) else Unsupported(f'index into {type(o).__name__}')

    def list_get(self, rep, ix, o):
        if isinstance(ix, SliceV):
            if rep[0] == 'items' and all(x is None or isinstance(x, int) for x in (ix.lo, ix.hi, ix.step)):
                return PyList.of(rep[1][conc_slice(ix)])
            if rep[0] in ('filt', 'hole'):
                if ix.lo is None and ix.hi is None and ix.step is None:
                    return PyList(rep)
                raise Unsupported('slice of a filtered list')
            n = rep_len(rep)
            lo, k, step = self.slice_range(ix, n)
            if lo is ZERO and k is n and step is ONE:
                return PyList(rep)
            return PyList(self.fold(Seq(k, lambda i: self.rep_at(rep, lo + num(i) * step))))
        if not is_num(ix):
            raise RaiseEx(ExcV('TypeError'))
        if rep[0] == 'items' and isinstance(ix, int):
            try:
                return rep[1][ix]
            except IndexError:
                raise RaiseEx(ExcV('IndexError'))
        if rep[0] == 'cat' and isinstance(ix, int) and ix >= 0 and rep[1][0][0] == 'items' and ix < len(rep[1][0][1]):
            return rep[1][0][1][ix]
        if rep[0] == 'cat' and isinstance(ix, int) and ix < 0 and rep[1][-1][0] == 'items' and -ix <= len(rep[1][-1][1]):
            return rep[1][-1][1][ix]
        n = rep_len(rep)
        return self.lift(self.rep_at(rep, self.norm_index(ix, n)))

    def rep_at(self, rep, i):
        """Element i (0 <= i < length assumed)."""
        k = rep[0]
        i = num(i)
        if k == 'seq':
            return self.element(rep[1].get, i)
        if k == 'items':
            if i.is_const():
                return rep[1][int(i.const())]
            v = rep[1][-1]
            for j in range(len(rep[1]) - 2, -1, -1):
                v = merge(eq(i, j), rep[1][j], v)
            return v
        if k == 'cat':
            off, segs = ZERO, []
            for r in rep[1]:
                n = rep_len(r)
                segs.append((off, n, r))
                off = off + n
            out = None
            for o, n, r in segs:
                c = lt(i, o + n)
                if r is segs[-1][2] and o is segs[-1][0]:
                    out = (out or []) + [(TRUE, self.rep_at(r, i - o))]
                    break
                if c is TRUE or self.known(c):
                    out = (out or []) + [(TRUE, self.rep_at(r, i - o))]
                    break
                if c is FALSE or self.known(neg(c)):
                    continue
                out = (out or []) + [(c, self.rep_at(r, self.clip(r, i - o)))]
            v = out[-1][1]
            for c, x in reversed(out[:-1]):
                v = merge(c, x, v)
            return v
        if k == 'hole':
            raise Unsupported('reading a list while it grows')
        if k == 'filt':
            j = fresh('l', 'i')
            return self.element(rep[3], app('nth_true', num(i), mklam([j], [rep[1]], boolc(rep[2](j)), 'cond'), sort='i'))
        raise Unsupported('element of a list')

    def clip(self, r, i):
        return i

    def rep_contains_true(self, rep):
        if rep[0] == 'items':
            return disj(*[boolc(self.truthb(y)) for y in rep[1]])
        if rep[0] == 'seq':
            v = fresh('e', 'i')
            return exists(v, rep[1].n, boolc(self.truthb(rep[1].get(v))))
        if rep[0] == 'filt':
            v = fresh('e', 'i')
            return exists(v, rep[1], conj(rep[2](v), boolc(self.truthb(rep[3](v)))))
        if rep[0] == 'cat':
            return disj(*[self.rep_contains_true(r) for r in rep[1]])
        raise Unsupported('any of a list under construction')

    def rep_all_true(self, rep):
        if rep[0] == 'items':
            return conj(*[boolc(self.truthb(y)) for y in rep[1]])
        if rep[0] == 'seq':
            v = fresh('e', 'i')
            return forall(v, rep[1].n, boolc(self.truthb(rep[1].get(v))))
        if rep[0] == 'cat':
            return conj(*[self.rep_all_true(r) for r in rep[1]])
        raise Unsupported('all of a list')

    def setitem(self, o, ix, v):
        if isinstance(o, PyDict):
            self.touch(o, f'item {ix!r}')
            self.set(o.items, self.key(ix), v)
            return
        if isinstance(o, PyList):
            rep = self.rep(o)
            if rep[0] == 'items' and isinstance(ix, int):
                new = list(rep[1])
                try:
                    new[ix] = v
                except IndexError:
                    raise RaiseEx(ExcV('IndexError'))
                self.write_list(o, ('items', new), 'item assignment')
                return
            if is_num(ix) and rep[0] == 'seq':
                i = self.norm_index(ix, rep[1].n)
                s = rep[1]
                self.write_list(o, ('seq', Seq(s.n, lambda j: merge(eq(j, i), v, s.get(j)))), 'item assignment')
                return
            raise Unsupported('assignment to an item of a symbolic list')
        if isinstance(o, SArr):
            self.ext.arr_set(o, ix, v)
            return
        if isinstance(o, Opq):
            self.ext.opaque_setitem(o, ix, v)
            return
        if isinstance(o, Obj) and o.cls == 'h5file':
            h5model.write(self, o, ix, v)
            return
        raise Unsupported(f'item assignment on {type(o).__name__}')


def shared(v):
    """State that outlives a call (default arguments, module and class variables): the proofs hold for every history of
    calls because nothing ever writes it."""
    if isinstance(v, (PyList, PyDict, Obj)) and v.owner is None:
        v.owner = '?state shared between calls'
        for x in (v.rep[1] if isinstance(v, PyList) and v.rep[0] == 'items' else v.items.values() if isinstance(v, PyDict) else ()):
            shared(x)
    elif isinstance(v, SArr) and v.store.owner is None:
        v.store.owner = '?state shared between calls'
    elif isinstance(v, tuple):
        for x in v:
            shared(x)
    return v


def bnum(x):
    if isinstance(x, B):
        return ite(x, ONE, ZERO)
    return num(x)


def recomp(part, have, want):
    """Index over components `have` as an index over components `want` of the same axis."""
    if tuple(have) == tuple(want) or len(have) == len(want) == 1:
        return list(part)
    if len(have) == len(want) and all(p is q for p, q in zip(have, want)):
        return list(part)
    flat = ZERO
    for v, n in zip(part, have):
        flat = flat * n + v
    out = []
    for k in range(len(want)):
        tail = ONE
        for d in want[k + 1:]:
            tail = tail * d
        q = flat if tail is ONE else floor(flat / tail)
        out.append(q if k == 0 else mod(q, want[k]))
    return out


def conc_slice(s):
    for x in (s.lo, s.hi, s.step):
        if x is not None and not isinstance(x, int):
            raise Unsupported('symbolic slice of a concrete sequence')
    return slice(s.lo, s.hi, s.step)


def _floordiv(a, b):
    return floor(num(a) / num(b))


def _pow(a, b):
    return num(a) ** (num(b) if not isinstance(b, (int, Fraction)) else b)


BINOPS = {'Add': lambda a, b: num(a) + num(b), 'Sub': lambda a, b: num(a) - num(b), 'Mult': lambda a, b: num(a) * num(b), 'Div': lambda a, b: num(a) / num(b),
          'FloorDiv': _floordiv, 'Mod': mod, 'Pow': _pow}

_parsed = {}


def parse(path):
    src = open(path).read()
    key = (path, hash(src))
    if key not in _parsed:
        _parsed[key] = ast.parse(src)
    return _parsed[key]
