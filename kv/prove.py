"""Decides equalities and entailments between terms: normalisation, case splits, congruence, z3."""
import hashlib, itertools, math, random, sys, time
from fractions import Fraction
from .term import *          # noqa
from . import term as T
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3                    # noqa: E402


# physical and mathematical constants: symbols with a rational enclosure
CONSTS = {'const:pi': (Fraction('3.141592653589793'), Fraction('3.141592653589794')), 'const:k': (Fraction('1.380649e-23'), ) * 2, 'const:e': (Fraction('1.602176634e-19'), ) * 2,
          'const:N_A': (Fraction('6.02214076e23'), ) * 2, 'const:inf': (Fraction(10)**300, Fraction(10)**400)}


class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_s = 0.0
        self.refute_s = 0.0
        self.backends = {}

    def used(self, b):
        self.backends[b] = self.backends.get(b, 0) + 1


class Deadline(Exception):
    pass


class Prover:
    def __init__(self, timeout_ms=4000, deadline=None):
        self.facts = {}             # head -> function(args) -> [B]
        self.timeout = timeout_ms
        self.stats = Stats()
        self.deadline = deadline
        self.cache = {}
        self.tried = {}
        self.last = None
        self.refute_until = None
        self.free = set(FREE)          # library functions that may be given arbitrary values in a refutation

    # -------------------------------------------------------------------------------------------------- z3
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Deadline()

    class Tr:
        def __init__(self, pr):
            self.pr = pr
            self.memo = {}
            self.side = []
            self.pending = []
            self.done = set()

        def num(self, p):
            k = p.id
            if k in self.memo:
                return self.memo[k]
            terms = []
            for m, c in p.t:
                fs = [self.atom(a, e) for a, e in m]
                isint = all(f.sort() == z3.IntSort() for f in fs) and c.denominator == 1
                cv = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
                if not isint:
                    fs = [z3.ToReal(f) if f.sort() == z3.IntSort() else f for f in fs]
                t = cv
                if fs:
                    t = fs[0] if c == 1 else cv * fs[0]
                    for f in fs[1:]:
                        t = t * f
                terms.append(t)
            if not terms:
                r = z3.IntVal(0)
            else:
                if any(t.sort() == z3.RealSort() for t in terms):
                    terms = [z3.ToReal(t) if t.sort() == z3.IntSort() else t for t in terms]
                r = terms[0]
                for t in terms[1:]:
                    r = r + t
            self.memo[k] = r
            return r

        def atom(self, a, e=1):
            if e < 0:
                x = self.atom(a, 1)
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                nm = z3.Real(f'recip_{a.id}')
                if ('r', a.id) not in self.done:
                    self.done.add(('r', a.id))
                    self.side.append(nm * x == 1)
                return self.power(nm, -e)
            k = ('a', a.id)
            if k not in self.memo:
                self.memo[k] = self._atom(a)
            return self.power(self.memo[k], e)

        def power(self, x, e):
            r = x
            for _ in range(e - 1):
                r = r * x
            return r

        def _atom(self, a):
            S = z3.Int if a.sort == 'i' else z3.Real
            d = a.data
            if a.kind == 'var':
                x = S('v_' + d)
                if d in CONSTS:
                    lo, hi = CONSTS[d]
                    self.side += [x >= z3.RealVal(str(lo)), x <= z3.RealVal(str(hi))]
                return x
            if a.kind == 'bound':
                return S(f'b_{d}')
            if a.kind == 'floor':
                x = self.num(d)
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                return z3.ToInt(x)
            if a.kind == 'ite':
                x, y = self.num(d[1]), self.num(d[2])
                if x.sort() != y.sort():
                    x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                    y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
                r = z3.If(self.bool_(d[0]), x, y)
                return r
            if a.kind == 'inv':
                x = self.num(d)
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                nm = z3.Real(f'inv_{a.id}')
                self.side.append(nm * x == 1)
                return nm
            if a.kind == 'app':
                self.pending.append(a)
                head, args = d
                return self.uf(head, args, z3.IntSort() if a.sort == 'i' else z3.RealSort())
            x = S(f'{a.kind}_{a.id}')
            if a.kind == 'sum':
                # a number of things
                b = atom_of(d[2])
                if b is not None and b.kind == 'ite' and all(q.is_const() and 0 <= q.const() <= 1 for q in b.data[1:]) and not any(n.lo for n in d[1]):
                    self.side.append(x >= 0)
                    t = self.num(d[1][0])
                    for n in d[1][1:]:
                        t = t * self.num(n)
                    self.side.append(z3.Implies(z3.And(*[self.num(n) >= 0 for n in d[1]]), x <= t))
            return x

        def uf(self, head, args, res):
            zs, nm = [], head
            for x in args:
                if isinstance(x, P):
                    z = self.num(x)
                    zs.append(z)
                    nm += '_' + ('i' if z.sort() == z3.IntSort() else 'r')
                elif isinstance(x, B):
                    zs.append(self.bool_(x))
                    nm += '_b'
                else:
                    nm += f'_c{x.id}'
            nm += '>' + str(res)
            if not zs:
                return z3.Const(nm, res)
            return z3.Function(nm, *[z.sort() for z in zs], res)(*zs)

        def bool_(self, b):
            k = ('b', b.id)
            if k in self.memo:
                return self.memo[k]
            d = b.data
            if b.kind == 'true':
                r = z3.BoolVal(True)
            elif b.kind == 'false':
                r = z3.BoolVal(False)
            elif b.kind == 'le':
                r = self.num(d[0]) <= 0
            elif b.kind == 'lt':
                r = self.num(d[0]) < 0
            elif b.kind == 'eq':
                r = self.num(d[0]) == 0
            elif b.kind == 'not':
                r = z3.Not(self.bool_(d[0]))
            elif b.kind == 'and':
                r = z3.And(*[self.bool_(x) for x in d])
            elif b.kind == 'or':
                r = z3.Or(*[self.bool_(x) for x in d])
            elif b.kind == 'bapp':
                r = self.uf('B_' + d[0], d[1:], z3.BoolSort())
            elif b.kind == 'ex':
                # opaque, with the witness in the positive direction
                r = z3.Bool(f'ex_{b.id}')
            else:
                raise AssertionError(b.kind)
            self.memo[k] = r
            return r

        def saturate(self):
            """Facts of the uninterpreted functions that occur."""
            out = []
            n = 0
            while self.pending and n < 400:
                a = self.pending.pop()
                if a.id in self.done:
                    continue
                self.done.add(a.id)
                f = self.pr.facts.get(a.data[0])
                if f is None:
                    continue
                for b in f(*a.data[1]):
                    n += 1
                    out.append(self.bool_(b))
            return out

    def check(self, bools, timeout=None):
        """'unsat', 'sat' or 'unknown' of the conjunction."""
        self.tick()
        bools = [b for b in bools if b is not TRUE]
        if any(b is FALSE for b in bools):
            return 'unsat'
        if not bools:
            return 'sat'
        key = frozenset(b.id for b in bools)
        if key in self.cache:
            return self.cache[key]
        limit = timeout or self.timeout
        if self.tried.get(key, 0) >= limit:
            return 'unknown'
        t0 = time.time()
        tr = self.Tr(self)
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        zs = [tr.bool_(b) for b in bools]
        fx = tr.saturate()
        for x in zs + fx + tr.side:
            s.add(x)
        r = s.check()
        self.stats.z3_calls += 1
        self.stats.z3_s += time.time() - t0
        out = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
        self.last = (s.model(), tr) if out == 'sat' else None
        if out != 'unknown':
            self.cache[key] = out
        else:
            self.tried[key] = limit
        return out

    def entails(self, H, b, timeout=None):
        b = boolc(b)
        if b is TRUE or b in H:
            return True
        if b.kind == 'and':
            return all(self.entails(H, x, timeout) for x in b.data)
        return self.check(list(H) + [neg(b)], timeout) == 'unsat'

    def feasible(self, H):
        return self.check(list(H)) != 'unsat'

    # ------------------------------------------------------------------------------------------- equality
    def prove_eq(self, H, a, b, depth=0):
        """True (proved) or False (not proved)."""
        a, b = num(a), num(b)
        if a is b:
            self.stats.used('normaliser')
            return True
        d = a - b
        if 'inv3' in d.heads:
            d = inv3_simp(d)
        return self._zero(list(H), d, depth)

    def clear_inv(self, d):
        for _ in range(8):
            invs = [(a, e) for m, _ in d.t for a, e in m if a.kind == 'inv' and e > 0]
            if not invs:
                return d
            a = invs[0][0]
            e = max(e for x, e in invs if x is a)
            out = ZERO
            for m, c in d.t:
                k = dict(m).get(a, 0)
                rest = tuple((x, y) for x, y in m if x is not a)
                out = out + mkP({rest: c}) * (a.data ** (e - k))
            d = out
        return d

    def decide_ites(self, H, p, memo=None):
        """Replaces conditionals whose condition is decided by H (outside binders)."""
        for _ in range(60):
            c = next((c for c in self.open_conds(p) if self._decided(H, c) is not None), None)
            if c is None:
                return p
            p = assume_cond(p, c, self._decided(H, c))
        return p

    def _decided(self, H, c):
        if self.entails(H, c, 1500):
            return True
        if self.entails(H, neg(c), 1500):
            return False
        return None

    def open_conds(self, x, out=None, seen=None):
        """Conditions of ite atoms that contain no bound variable, outermost first."""
        if out is None:
            out, seen = [], set()
        if isinstance(x, P):
            for m, _ in x.t:
                for a, _e in m:
                    if a.id in seen:
                        continue
                    seen.add(a.id)
                    if a.kind == 'ite':
                        if not loose(a.data[0]) and a.data[0] not in out:
                            out.append(a.data[0])
                        for y in a.data[1:]:
                            self.open_conds(y, out, seen)
                        self.open_conds(a.data[0], out, seen)
                    elif a.kind in ('app', 'floor', 'inv', 'sum'):
                        for y in T.atom_parts(a.kind, a.data):
                            self.open_conds(y, out, seen)
        elif isinstance(x, B):
            for y in x.data:
                if isinstance(y, (P, B, Lam)):
                    self.open_conds(y, out, seen)
        elif isinstance(x, Lam):
            self.open_conds(x.body, out, seen)
        return out

    def _zero(self, H, d, depth):
        self.tick()
        if depth > 14:
            return False
        d = self.clear_inv(d)
        if not d.t:
            self.stats.used('normaliser')
            return True
        d = self.decide_ites(H, d)
        d = self.clear_inv(d)
        if not d.t:
            self.stats.used('normaliser+z3')
            return True
        d2 = self.unify(H, d, depth)
        if d2 is not d:
            return self._zero(H, d2, depth + 1)
        if self.sum_groups(H, d, depth):
            return True
        conds = self.open_conds(d)
        if conds:
            c = conds[0]
            for val in (True, False):
                H2 = H + [c if val else neg(c)]
                if not self.feasible(H2):
                    continue
                if not self._zero(H2, assume_cond(d, c, val), depth + 1):
                    return False
            self.stats.used('case split')
            return True
        if self.entails(H, eq(d, 0)):
            self.stats.used('z3')
            return True
        return False

    def unify(self, H, d, depth):
        """Merge two atoms of d whose arguments are provably equal."""
        ats = list(d.atoms())
        for x, y in itertools.combinations(ats, 2):
            if x.kind != y.kind or x.kind not in ('app', 'floor', 'inv', 'ite'):
                continue
            if self.atoms_equal(H, x, y, depth + 1):
                hi, lo = (x, y) if x.id > y.id else (y, x)
                return T.subst_atom(d, hi, of_atom(lo))
        # inside sums etc. handled by sum_groups
        return d

    def atoms_equal(self, H, x, y, depth):
        if depth > 8:
            return False
        key = ('eq', frozenset(h.id for h in H), x.id, y.id)
        if key in self.cache:
            return self.cache[key]
        self.cache[key] = False
        r = self._atoms_equal(H, x, y, depth)
        self.cache[key] = r
        return r

    def _atoms_equal(self, H, x, y, depth):
        if x.kind == 'app':
            if x.data[0] != y.data[0] or len(x.data[1]) != len(y.data[1]) or x.sort != y.sort:
                return False
            return all(self.args_equal(H, p, q, depth) for p, q in zip(x.data[1], y.data[1]))
        if x.kind in ('floor', 'inv'):
            return self.prove_eq(H, x.data, y.data, depth)
        if x.kind == 'ite':
            return self.equiv(H, x.data[0], y.data[0]) and self.prove_eq(H + [x.data[0]], x.data[1], y.data[1], depth) and self.prove_eq(H + [neg(x.data[0])], x.data[2], y.data[2], depth)
        return False

    def args_equal(self, H, p, q, depth=0):
        if p is q:
            return True
        if type(p) is not type(q):
            return False
        if isinstance(p, P):
            if p.is_const() and q.is_const():
                return False
            return self.prove_eq(H, p, q, depth + 1)
        if isinstance(p, B):
            return self.equiv(H, p, q)
        if isinstance(p, Lam):
            if len(p.dims) != len(q.dims) or p.tag != q.tag or type(p.body) is not type(q.body):
                return False
            if not all(self.prove_eq(H, a, b, depth + 1) for a, b in zip(p.dims, q.dims)):
                return False
            vs, b1 = T.open_lam(p)
            _, b2 = T.open_lam(q, vs)
            H2 = H + [c for v, n in zip(vs, p.dims) for c in (le(0, v), lt(v, n))]
            return self.args_equal(H2, b1, b2, depth + 1)
        return False

    def equiv(self, H, a, b):
        if a is b:
            return True
        if a.kind == 'ex' and b.kind == 'ex':
            v, n, x = T.open_ex(a)
            _, m, y = T.open_ex(b, v)
            if self.prove_eq(H, n, m) and self.equiv(H + [le(0, v), lt(v, n)], x, y):
                return True
        if a.kind == 'bapp' and b.kind == 'bapp' and a.data[0] == b.data[0] and len(a.data) == len(b.data):
            if all(self.args_equal(H, p, q) for p, q in zip(a.data[1:], b.data[1:])):
                return True
        if a.kind == b.kind and a.kind in ('not', ):
            return self.equiv(H, a.data[0], b.data[0])
        if a.kind == b.kind and a.kind in ('and', 'or') and len(a.data) == len(b.data):
            rest = list(b.data)
            ok = True
            for x in a.data:
                hit = next((y for y in rest if x is y), None) or next((y for y in rest if self.equiv(H, x, y)), None)
                if hit is None:
                    ok = False
                    break
                rest.remove(hit)
            if ok:
                return True
        if a.kind == b.kind and a.kind in ('le', 'lt', 'eq'):
            if self.prove_eq(H, a.data[0], b.data[0], 4):
                return True
        return self.entails(list(H) + [a], b) and self.entails(list(H) + [b], a)

    def sum_groups(self, H, d, depth):
        """d = sum over groups of cofactor * (combination of sums with equal bounds); each combined body is zero."""
        groups, plain = {}, ZERO
        for m, c in d.t:
            ss = [(a, e) for a, e in m if a.kind == 'sum' and e > 0]
            if len(ss) == 1 and ss[0][1] == 1:
                a = ss[0][0]
                cof = tuple((x, e) for x, e in m if x is not a)
                groups.setdefault(cof, []).append((a, c))
            else:
                plain = plain + mkP({m: c})
        if not groups:
            return False
        if plain.t and not self._zero(H, plain, depth + 1):
            return False
        for cof, items in groups.items():
            left = list(items)
            while left:
                a0, c0 = left.pop(0)
                vs, bs, body = T.open_sum(a0)
                total = body * c0
                for a, c in list(left):
                    if len(a.data[1]) != len(bs):
                        continue
                    # bounds may be permuted as well
                    done = False
                    for perm in itertools.permutations(range(len(bs))):
                        pv = [vs[i] for i in perm]
                        _, b2, bd = T.open_sum(a, pv)
                        if all(self.prove_eq(H, b2[i], bs[perm[i]], depth + 1) for i in range(len(bs))):
                            H2 = H + [q for v, n in zip(vs, bs) for q in (le(0, v), lt(v, n))]
                            cand = total + bd * c
                            if len(bs) == 1 or self._zero(H2, cand, depth + 1):
                                total = cand
                                left.remove((a, c))
                                done = True
                                break
                    if done and not total.t:
                        break
                H2 = H + [q for v, n in zip(vs, bs) for q in (le(0, v), lt(v, n))]
                if not self._zero(H2, total, depth + 1):
                    return False
        self.stats.used('sum matching')
        return True

    # ------------------------------------------------------------------------------------------- refutation
    def refute_eq(self, H, a, b, tries=120, opaque=()):
        """A concrete valuation satisfying H on which a and b differ, or None.  The results of an opaque library function
        are used to refute only when the contract b itself is stated with that function."""
        goal = (num(a), num(b))
        return self._refute(H, lambda v: not close(v.num(goal[0]), v.num(goal[1])), [num(a) - num(b)], tries, goal[1].heads, goal)

    def refute_arg(self, H, a, b, tries=60):
        return self._refute(H, lambda v: v.arg(a) != v.arg(b), [a, b], tries, b.heads)

    def refute_bool(self, H, b, tries=120, ok=EMPTY):
        return self._refute(H, lambda v: not v.bool_(b), [b], tries, ok)

    def _refute(self, H, differs, terms, tries, ok=EMPTY, also=()):
        heads = frozenset().union(*[t.heads for t in terms], *[h.heads for h in H]) if (terms or H) else EMPTY
        if any(not (h in INTERP or h in INTERP_ARR or h.startswith('in_') or h in ok or h in self.free or h in PARTS) for h in heads):
            return None
        fvs = frozenset().union(*[t.fv for t in list(terms) + list(H) + list(also)])
        t0 = time.time()
        large = sorted(thresholds(list(terms) + list(H)))
        for k in range(tries):
            self.tick()
            if time.time() - t0 > 8 or self.stats.refute_s + time.time() - t0 > 90:
                break
            v = Valuation(k, self.facts)
            v.stop = t0 + 8
            try:
                if k % 2 == 0 or not self.seed_model(H, fvs, v, k):
                    for a in sorted(fvs, key=lambda a: a.id):
                        v.env[a] = v.rand_int(0, 7 if 'lex' not in heads or v.r.random() < 0.5 else 25) if a.sort == 'i' else v.rand_int(0, 1) if a.sort == 'o' else v.rand_real()
                v.large = large if k % 5 == 4 else ()
                ints = [a for a in sorted(fvs, key=lambda a: a.id) if a.sort == 'i'] if v.large and k % 10 == 9 else []
                if ints:
                    # sizes near the large numbers the terms mention
                    v.env[v.r.choice(ints)] = Fraction(v.r.choice(large) * v.r.randint(1, 3) + v.r.randint(-1, 2))
                for a in fvs:
                    if a.kind == 'var' and a.data in CONSTS:
                        v.env[a] = CONSTS[a.data][0]
                for h in H:
                    # switches: decided as the path has them
                    b = h.data[0] if h.kind == 'not' else h
                    if b.kind == 'bapp' and len(b.data) == 1:
                        v.apps[(b.data[0], ())] = (h.kind != 'not', 'b')
                if self.walk(v, H, differs, fvs):
                    self.stats.refute_s += time.time() - t0
                    return {'valuation': {a.data: str(x) for a, x in v.env.items()}, 'sample': v.k}
            except (ZeroDivisionError, OverflowError, ValueError, NoValue):
                continue
        self.stats.refute_s += time.time() - t0
        return None

    def walk(self, v, H, differs, fvs):
        """Repairs failing hypotheses one variable at a time, then looks for a difference."""
        r = v.r
        for _ in range(24):
            v.memo.clear()
            bad = None
            try:
                bad = [h for h in H if not v.bool_(h)]
                if not bad and v.facts_ok():
                    if differs(v):
                        return True
            except (ZeroDivisionError, OverflowError, ValueError, NoValue) as x:
                if str(x) == 'time':
                    raise
            pool = sorted(r.choice(bad).fv if bad else fvs, key=lambda a: a.id)
            pool = [a for a in pool if a.data not in CONSTS]
            if not pool:
                return False
            a = r.choice(pool)
            if a.sort == 'i':
                v.env[a] = v.rand_int(0, 7 if r.random() < 0.8 else 25)
            else:
                known = [x for x, srt in v.apps.values() if srt == 'r' and isinstance(x, Fraction)]
                v.env[a] = r.choice(known) if known and r.random() < 0.4 else v.rand_real()
        return False

    def seed_model(self, H, fvs, v, k):
        extra = []
        ints = [a for a in fvs if a.sort == 'i']
        r = random.Random(k)
        for a in ints:
            if r.random() < 0.5:
                extra.append(le(of_atom(a), r.randint(1, 9)))
        if self.check(list(H) + extra, 1500) != 'sat' and self.check(list(H), 1500) != 'sat':
            return False
        if self.last is None:
            self.cache.pop(frozenset(b.id for b in H if b is not TRUE), None)
            if self.check(list(H), 1500) != 'sat' or self.last is None:
                return False
        model, tr = self.last
        for a in sorted(fvs, key=lambda a: a.id):
            z = tr.memo.get(('a', a.id))
            val = model.eval(z) if z is not None else None
            try:
                x = Fraction(str(val.as_fraction())) if a.sort == 'r' else Fraction(val.as_long())
                if a.sort == 'r' and z is not None and r.random() < 0.7 and x == 0:
                    x = v.rand_real()
            except Exception:        # noqa
                x = v.rand_int(0, 7) if a.sort == 'i' else v.rand_int(0, 1) if a.sort == 'o' else v.rand_real()
            v.env[a] = x
        return True


class NoValue(Exception):
    pass


def close(x, y):
    return abs(float(x) - float(y)) <= 1e-7 * max(1.0, abs(float(x)), abs(float(y)))


# library results that may be anything as far as the contracts are concerned
FREE = {'linregress_slope', 'linregress_intercept', 'randint', 'randn', 'normaltest_p', 'normaltest_s', 'rng_next', 'seeded', 'emcee', 'minimize'}
INTERP_ARR = {'nth_true', 'count', 'max', 'min', 'argmax', 'argmin'}
PARTS = {'olen', 'oitem', 'ase_symbol', 'mda_type', 'pmg_specie', 'str', 'mda_traj', 'mda_atoms', 'mda_slice', 'mda_atom', 'xdatcar_structures', 'Xdatcar', 'splitext0', 'splitext1', 'fstring', 'exists', 'dec'}        # what a trajectory consists of
TEXTS = {'ase_symbol', 'mda_type', 'str', 'in_species'}        # names of species: often equal
INTERP = {'inv3', 'geom', 'lex', 'round0', 'exp', 'sqrt', 'cos', 'sin', 'abs', 'arctan2', 'round6', 'log', 'pow'}


def thresholds(terms):
    """Whole numbers from 26 to 10^7 among the coefficients of the terms."""
    out, seen, todo = set(), set(), list(terms)
    while todo and len(seen) < 20000:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, P):
            for m, c in x.t:
                for q in (abs(c.numerator), c.denominator):
                    if 25 < q <= 10**7:
                        out.add(q)
                todo += [a for a, _ in m]
        elif isinstance(x, B):
            todo += [y for y in x.data if isinstance(y, (P, B, Lam))]
        elif isinstance(x, Lam):
            todo += [x.body, *x.dims]
        elif isinstance(x, T.Atom):
            todo += list(T.atom_parts(x.kind, x.data))
    return out


class Valuation:
    LENGTH = 40
    large = ()

    def __init__(self, k, facts):
        self.k, self.env, self.facts_tab = k, {}, facts
        self.r = random.Random(1000 + k)
        self.seen = {}
        self.apps = {}
        self.bl = {}                # values of the bound levels
        self.memo = {}
        self.stop = None
        self.ops = 0

    def bind(self, at, x):
        """Gives a bound level a value; returns what undo() needs."""
        old = (self.env.get(at), self.bl.get(at.data))
        self.env[at] = x
        self.bl[at.data] = x
        return old

    def undo(self, at, old):
        for d, k, x in ((self.env, at, old[0]), (self.bl, at.data, old[1])):
            if x is None:
                d.pop(k, None)
            else:
                d[k] = x

    def rand_int(self, lo, hi):
        return Fraction(self.r.randint(lo, hi))

    def rand_real(self):
        if self.r.random() < 0.35:
            return Fraction(self.r.randint(-20, 20), 20) or Fraction(1, 7)
        return Fraction(self.r.randint(-40, 40), self.r.choice([1, 2, 3, 4, 7, 8])) or Fraction(1, 3)

    def num(self, p):
        out = 0
        for m, c in p.t:
            t = c
            for a, e in m:
                x = self.atom(a)
                if e < 0 and x == 0:
                    raise ZeroDivisionError
                t = t * x ** e
            out = out + t
        return out

    def atom(self, a):
        k = a.kind
        if k in ('var', 'bound'):
            if a not in self.env:
                raise NoValue(a)
            return self.env[a]
        self.ops += 1
        if self.ops & 255 == 0 and self.stop and time.time() > self.stop:
            raise NoValue('time')
        key = (a.id, tuple([self.bl.get(l) for l in a.lo])) if a.lo else a.id
        x = self.memo.get(key)
        if x is None:
            x = self.memo[key] = self.atom_(a)
        return x

    def atom_(self, a):
        k, d = a.kind, a.data
        if k == 'floor':
            return Fraction(math.floor(self.num(d)))
        if k == 'inv':
            return 1 / self.num(d)
        if k == 'ite':
            return self.num(d[1]) if self.bool_(d[0]) else self.num(d[2])
        if k == 'sum':
            return self.sum_(d[0], d[1], d[2], 0)
        head, args = d
        if head in INTERP:
            xs = [self.num(x) for x in args]
            return self.interp(head, *xs)
        vals = tuple(self.key(self.arg(x)) for x in args)
        if head in INTERP_ARR:
            r = self.interp_arr(head, vals)
            if r is not None:
                return r
        key = (head, vals)
        if key not in self.apps:
            self.choose(key, a)
        return self.apps[key][0]

    def choose(self, key, a):
        """A value for an uninterpreted application, satisfying its own facts where a few tries find one."""
        f = self.facts_tab.get(key[0])
        for t in range(12):
            h = int.from_bytes(hashlib.sha256(repr((self.k, t, key)).encode()).digest()[:6], 'big')
            if key[0] in TEXTS:
                x = Fraction(h % 2)
            elif a.sort == 'i':
                x = Fraction(h % (6 if t < 6 else 3))
                if self.large and t < 9 and h // 7 % 2:
                    x += self.large[h // 64 % len(self.large)] * (1 + h // 4096 % 3) - 1
            else:
                x = Fraction(h % 161 - 80, [1, 2, 4, 5, 8][h // 1000 % 5]) or Fraction(1, 5)
            self.apps[key] = (x, a.sort)
            if f is None:
                return
            args = self.fact_args(key[1])
            if args is None:
                return
            try:
                if all(self.bool_(b) for b in f(*args)):
                    return
            except RecursionError:
                raise NoValue('recursive facts')

    def fact_args(self, vals):
        out = []
        for v in vals:
            if isinstance(v, (Fraction, int)) and not isinstance(v, bool):
                out.append(num(v))
            else:
                return None
        return out

    def interp_arr(self, head, vals):
        xs = vals[-1]
        if not (isinstance(xs, tuple) and xs and xs[0] == 'L' and len(xs[1]) == 1):
            return None
        xs = xs[2]
        if head == 'count':
            return Fraction(sum(1 for x in xs if x))
        if head == 'nth_true':
            idx = [i for i, x in enumerate(xs) if x]
            k = vals[0]
            if not 0 <= k < len(idx):
                raise NoValue('no such element')
            return Fraction(idx[int(k)])
        if not xs:
            raise NoValue('empty')
        if head == 'max':
            return max(xs)
        if head == 'min':
            return min(xs)
        return Fraction(xs.index(max(xs) if head == 'argmax' else min(xs)))

    def arg(self, x):
        if isinstance(x, P):
            return self.num(x)
        if isinstance(x, B):
            return self.bool_(x)
        if isinstance(x, K):
            return ('K', repr(x.v))
        if isinstance(x, Lam):
            return self.lam(x)
        raise NoValue('array argument')

    def lam(self, l):
        """An array as the tuple of its elements; a function of reals by its values at fixed points."""
        key = ('lam', l.id, tuple([self.bl.get(x) for x in l.lo]))
        if key in self.memo:
            return self.memo[key]
        r = self.memo[key] = self.lam_(l)
        return r

    def lam_(self, l):
        ats = [mkatom('bound', l.base + i, s) for i, s in enumerate(l.sorts)]
        old = None
        try:
            old = [self.bind(a, Fraction(0)) for a in ats]
            if l.tag == 'fn':
                out = []
                for p in ((2, 3, 5), (-3, 1, 2), (Fraction(1, 2), Fraction(-7, 3), 1)):
                    for a, x in zip(ats, p):
                        self.bind(a, Fraction(x))
                    out.append(self.key(self.arg(l.body)))
                return ('F', len(ats), tuple(out))
            ns = []
            for d in l.dims:
                n = self.num(d)
                if n != int(n) or n > self.LENGTH:
                    raise NoValue('array length')
                ns.append(max(0, int(n)))
            out = []
            for idx in itertools.product(*[range(n) for n in ns]):
                if len(out) > 10 * self.LENGTH:
                    raise NoValue('large array')
                for a, x in zip(ats, idx):
                    self.bind(a, Fraction(x))
                out.append(self.key(self.arg(l.body)))
            return ('L', tuple(ns), tuple(out))
        finally:
            for a, o in zip(ats, old or []):
                self.undo(a, o)

    def key(self, x):
        return round(x, 9) if isinstance(x, float) else x

    def interp(self, h, *xs):
        if h == 'lex':
            if not 0 <= xs[1] < xs[0] < 200:
                raise NoValue('order')
            return Fraction(int(sorted(map(str, range(int(xs[0]))))[int(xs[1])]))
        if h == 'inv3':
            m = [xs[3 * r:3 * r + 3] for r in range(3)]
            i, j = int(xs[9]), int(xs[10])
            det = sum(m[0][k] * (m[1][(k + 1) % 3] * m[2][(k + 2) % 3] - m[1][(k + 2) % 3] * m[2][(k + 1) % 3]) for k in range(3))
            if not det:
                raise NoValue('singular matrix')
            r, s = (j + 1) % 3, (j + 2) % 3
            c, d = (i + 1) % 3, (i + 2) % 3
            return (m[r][c] * m[s][d] - m[r][d] * m[s][c]) / det
        f = [float(x) for x in xs]
        if h == 'abs':
            return abs(xs[0])
        if h == 'round0':
            return Fraction(round(xs[0]))
        if h == 'round6':
            return Fraction(round(xs[0] * 10**6), 10**6)
        if h == 'geom':
            if xs[0] <= 0 or xs[1] <= 0 or xs[2] < 2:
                raise NoValue('geomspace')
            return Fraction(f[0] * (f[1] / f[0])**(f[3] / (f[2] - 1)))
        if h == 'sqrt':
            return math.sqrt(f[0])
        if h == 'exp':
            return math.exp(f[0])
        if h == 'log':
            return math.log(f[0])
        if h == 'cos':
            return math.cos(f[0])
        if h == 'sin':
            return math.sin(f[0])
        if h == 'arctan2':
            return math.atan2(*f)
        return f[0] ** f[1]

    def sum_(self, base, bounds, body, i):
        if i == len(bounds):
            return self.num(body)
        n = self.num(bounds[i])
        if n > self.LENGTH * 1.5:
            raise NoValue('large sum')
        at = mkatom('bound', base + i, 'i')
        out = 0
        old = self.bind(at, Fraction(0))
        try:
            for k in range(int(n)):
                self.bind(at, Fraction(k))
                out = out + self.sum_(base, bounds, body, i + 1)
        finally:
            self.undo(at, old)
        return out

    def bool_(self, b):
        k, d = b.kind, b.data
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k == 'le':
            return self.num(d[0]) <= 0
        if k == 'lt':
            return self.num(d[0]) < 0
        if k == 'eq':
            x = self.num(d[0])
            return x == 0 if isinstance(x, Fraction) else abs(x) < 1e-12
        if k == 'not':
            return not self.bool_(d[0])
        if k == 'and':
            return all(self.bool_(x) for x in d)
        if k == 'or':
            return any(self.bool_(x) for x in d)
        if k == 'ex':
            h, n, body = d
            at = mkatom('bound', h, 'i')
            nn = self.num(n)
            if nn > self.LENGTH * 1.5:
                raise NoValue('large range')
            old = self.bind(at, Fraction(0))
            res = False
            try:
                for i in range(int(nn)):
                    self.bind(at, Fraction(i))
                    if self.bool_(body):
                        res = True
                        break
            finally:
                self.undo(at, old)
            return res
        if k == 'bapp':
            key = (d[0], tuple(self.arg(x) for x in d[1:]))
            if key not in self.apps:
                h = hashlib.sha256(repr((self.k, key)).encode()).digest()[0]
                self.apps[key] = (bool(h & 1), 'b')
            return self.apps[key][0]
        raise AssertionError(k)

    def facts_ok(self):
        for (head, vals), (x, srt) in list(self.apps.items()):
            f = self.facts_tab.get(head)
            if f is None or srt == 'b':
                continue
            args = self.fact_args(vals)
            if args is None:
                continue
            for b in f(*args):
                if not self.bool_(b):
                    return False
        return True


def loose(x):
    """Does the term contain a bound level that is not bound inside it?"""
    return bool(x.lo)


class _Assume:
    """Replace ite atoms with condition c by the chosen branch, everywhere (c has no bound variables)."""

    def __init__(self, c, val):
        self.c, self.val, self.memo = c, val, {}

    def go(self, x):
        if isinstance(x, K):
            return x
        k = ('a', x.id) if isinstance(x, T.Atom) else x.id
        if k not in self.memo:
            self.memo[k] = self._go(x)
        return self.memo[k]

    def _go(self, x):
        if isinstance(x, P):
            out, same = ZERO, {}
            for m, c in x.t:
                ps = [(a, e, self.atom(a)) for a, e in m]
                if all(q is None for _, _, q in ps):
                    same[m] = c
                    continue
                p = mkP({tuple((a, e) for a, e, q in ps if q is None): c})
                for a, e, q in ps:
                    if q is not None:
                        p = p * (q ** e)
                out = out + p
            return mkP(same) + out
        if isinstance(x, B):
            if x is self.c:
                return boolc(self.val)
            if self.c is not None and x is neg(self.c):
                return boolc(not self.val)
            k, d = x.kind, x.data
            if k in ('true', 'false'):
                return x
            if k in ('le', 'lt', 'eq'):
                return {'le': le, 'lt': lt, 'eq': eq}[k](self.go(d[0]), 0)
            if k == 'not':
                return neg(self.go(d[0]))
            if k == 'and':
                return conj(*[self.go(y) for y in d])
            if k == 'or':
                return disj(*[self.go(y) for y in d])
            if k == 'bapp':
                return bapp(d[0], *[self.go(y) for y in d[1:]])
            v, n, body = T.open_ex(x)
            return exists(v, self.go(n), self.go(body))
        if isinstance(x, Lam):
            vs, body = T.open_lam(x)
            return mklam(vs, [self.go(d) for d in x.dims], self.go(body), x.tag)
        raise AssertionError

    def atom(self, a):
        k = ('A', a.id)
        if k not in self.memo:
            r = self._atom(a)
            if r is not None and atom_of(r) is a:
                r = None
            self.memo[k] = r
        return self.memo[k]

    def _atom(self, a):
        d = a.data
        if a.kind in ('var', 'bound'):
            return None
        if a.kind == 'ite':
            if d[0] is self.c:
                return self.go(d[1] if self.val else d[2])
            return ite(self.go(d[0]), self.go(d[1]), self.go(d[2]))
        if a.kind == 'app':
            return app(d[0], *[self.go(y) for y in d[1]], sort=a.sort)
        if a.kind == 'floor':
            return floor(self.go(d))
        if a.kind == 'inv':
            return recip(self.go(d))
        vs, bs, body = T.open_sum(a)
        r = self.go(body)
        for v, n in reversed(list(zip(vs, [self.go(b) for b in bs]))):
            r = Sum(v, n, r)
        return r


class _Replace(_Assume):
    """Replace an atom by a term, everywhere."""

    def __init__(self, at, val):
        self.at, self.val, self.memo, self.c = at, val, {}, None

    def _go(self, x):
        if isinstance(x, B) and x.kind not in ('true', 'false', 'le', 'lt', 'eq', 'not', 'and', 'or', 'bapp'):
            v, n, body = T.open_ex(x)
            return exists(v, self.go(n), self.go(body))
        return super()._go(x)

    def _atom(self, a):
        return self.val if a is self.at else super()._atom(a)


def replace_atom(p, a, val):
    return _Replace(a, val).go(p)


def assume_cond(p, c, val):
    return _Assume(c, val).go(p)


class _Inv3(_Assume):
    """Products of a 3x3 matrix with its inverse: sum_k L[a,k] inv[k,b] = delta = sum_k inv[a,k] L[k,b] solved for one product each."""

    def __init__(self):
        self.c, self.val, self.memo = T.bapp('%never'), True, {}

    def _go(self, x):
        if isinstance(x, (P, B, Lam)) and 'inv3' not in x.heads:
            return x
        r = _Assume._go(self, x)
        if isinstance(r, P):
            for _ in range(600):
                q = self.step(r)
                if q is r:
                    break
                r = q
        return r

    def _atom(self, a):
        if 'inv3' not in a.heads:
            return None
        return _Assume._atom(self, a)

    def step(self, p):
        for m, c in p.t:
            d = dict(m)
            for a, e in m:
                if a.kind != 'app' or a.data[0] != 'inv3':
                    continue
                es, i, j = a.data[1][:9], int(a.data[1][9].const()), int(a.data[1][10].const())
                iv = lambda k, l: app('inv3', *es, num(k), num(l))        # noqa
                opts = []
                if i == 0:
                    opts += [(es[3 * r], num(int(r == j)) - es[3 * r + 1] * iv(1, j) - es[3 * r + 2] * iv(2, j)) for r in range(3)]
                if j == 2:
                    opts += [(es[6 + b], num(int(i == b)) - iv(i, 0) * es[b] - iv(i, 1) * es[3 + b]) for b in range(3)]
                for ent, rep in opts:
                    at = atom_of(ent)
                    if at is None or at not in d:
                        continue
                    rest = dict(d)
                    for z in (a, at):
                        rest[z] -= 1
                        if not rest[z]:
                            del rest[z]
                    mono = mkP({tuple((z, k) for z, k in m if z in rest and (rest[z] == k)): c})
                    for z, k in rest.items():
                        if k != d[z]:
                            mono = mono * of_atom(z) ** k
                    return p - mkP({m: c}) + mono * rep
        return p


def inv3_simp(x):
    return _Inv3().go(x)
