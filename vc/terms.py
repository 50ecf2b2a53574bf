"""Terms of the verifier: polynomials (exact rational coefficients) over hash-consed atoms,
with indicator atoms [c], sum atoms  SUM_{v<n} monomial, and opaque applications.
Integers are mathematical integers and C++ doubles are mathematical reals (stated assumption)."""
from fractions import Fraction
import itertools, functools, sys
sys.setrecursionlimit(100000)

_uid = itertools.count(1)

class Atom:
    __slots__ = ('uid', 'kind', 'args', 'sort', 'free', 'depth', 'rds')
    def __repr__(self): return show_atom(self)
    def __hash__(self): return self.uid
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.uid < o.uid

_atoms = {}
def _mk(kind, args, sort):
    k = (kind, args, sort)
    a = _atoms.get(k)
    if a is None:
        a = Atom(); a.uid = next(_uid); a.kind = kind; a.args = args; a.sort = sort
        fr = frozenset(); dp = 0; rd = frozenset()
        if kind == 'sym': fr = frozenset([a])
        else:
            for x in args:
                if isinstance(x, (Atom, Poly, F)): fr |= x.free; dp = max(dp, x.depth); rd |= x.rds
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, (Atom, Poly, F)): fr |= y.free; dp = max(dp, y.depth); rd |= y.rds
                        elif isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, (Atom, Poly, F)): fr |= z.free; dp = max(dp, z.depth); rd |= z.rds
            if kind == 'sum':
                fr = fr - frozenset(v for v, n in args[0]); dp += 1
            if kind == 'app' and args[0] == 'rd': rd = rd | frozenset([args[1]])
        a.free = fr; a.depth = dp; a.rds = rd
        _atoms[k] = a
    return a

def Sym(name, sort='int'): return _mk('sym', (name,), sort)
_fresh = itertools.count(1)
def Fresh(name, sort='int'): return Sym('%s~%d' % (name, next(_fresh)), sort)
def reset_fresh():
    global _fresh
    _fresh = itertools.count(1)

def _rec(c):
    r = Fraction(1) / c
    return r.numerator if r.denominator == 1 else r
class Poly:
    __slots__ = ('t', '_h', '_f', '_d', '_r')
    def __init__(self, t):
        self.t = t; self._h = None; self._f = None; self._d = None; self._r = None
    @property
    def free(self):
        f = self._f
        if f is None:
            fr = set()
            for m in self.t:
                for a, e in m: fr |= a.free
            f = self._f = frozenset(fr)
        return f
    @property
    def depth(self):
        d = self._d
        if d is None:
            d = 0
            for m in self.t:
                for a, e in m:
                    if a.depth > d: d = a.depth
            self._d = d
        return d
    @property
    def rds(self):
        r = self._r
        if r is None:
            rd = set()
            for m in self.t:
                for a, e in m: rd |= a.rds
            r = self._r = frozenset(rd)
        return r
    def __hash__(self):
        h = self._h
        if h is None: h = self._h = hash(frozenset(self.t.items()))
        return h
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __repr__(self): return show(self)
    def __add__(self, o):
        o = P(o)
        if not o.t: return self
        if not self.t: return o
        r = dict(self.t)
        for m, c in o.t.items():
            s = r.get(m, 0) + c
            if s: r[m] = s
            else: r.pop(m, None)
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) + (-self)
    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t: return ZERO
        if len(o.t) == 1:
            (m2, c2), = o.t.items()
            if not m2:
                if c2 == 1: return self
                return Poly({m: c * c2 for m, c in self.t.items()})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in mono_mul(m1, m2):
                    s = r.get(m, 0) + c * c1 * c2
                    if s: r[m] = s
                    else: r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__
    def __pow__(self, n):
        r = ONE
        for _ in range(n): r = r * self
        return r
    def const(self):
        if not self.t: return Fraction(0)
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def is_int(self):
        for m, c in self.t.items():
            if c.denominator != 1: return False
            for a, e in m:
                if a.sort != 'int': return False
        return True
    def atom(self):
        """the single atom this polynomial is, or None"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
        return None

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly({((x, 1),): 1})
    if isinstance(x, (int, Fraction)):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, float):
        return P(Fraction(x))
    raise TypeError(repr(x))

def mono_mul(m1, m2):
    """product of two monomials; indicator atoms are idempotent and get conjoined; returns list of (mono, coeff)"""
    if not m1: return [(m2, 1)]
    if not m2: return [(m1, 1)]
    d = dict(m1)
    inds = [a for a, e in m1 if a.kind == 'ind']
    for a, e in m2:
        if a.kind == 'ind':
            if a in d: continue
            inds.append(a); d[a] = 1
        elif a.kind == 'sqrt' :
            d[a] = d.get(a, 0) + e
        else: d[a] = d.get(a, 0) + e
    extra = ONE
    # sqrt(p)^2 = p ; inv(p)*p cancels for atoms
    out = {}
    for a, e in d.items():
        if a.kind == 'sqrt' and e >= 2:
            extra = extra * (a.args[0] ** (e // 2)); e = e % 2
            if e == 0: continue
        if a.kind == 'abs' and e >= 2:
            extra = extra * (a.args[0] ** (2 * (e // 2))); e = e % 2
            if e == 0: continue
        out[a] = e
    # x * inv(x) = 1 (x an atom; nonzero is implied by inv being defined)
    for a in list(out):
        if a.kind == 'inv' and a in out:
            b = a.args[0].atom()
            if b is not None and b in out:
                k = min(out[a], out[b])
                out[a] -= k; out[b] -= k
                if not out[a]: del out[a]
                if not out[b]: del out[b]
            elif b is not None and b.kind == 'sqrt' and out[a] >= 2:
                k = out[a] // 2
                extra = extra * (Inv(b.args[0]) ** k); out[a] -= 2 * k
                if not out[a]: del out[a]
    # convention inv(0) = 0 (division obligations show it is never used by the code): [s <= 0] inv(s) = 0 for s = sqrt(..) >= 0, [x == 0] inv(x) = 0
    if inds:
        for a in out:
            if a.kind == 'inv':
                q = a.args[0]; b = q.atom()
                for i in inds:
                    f = i.args[0]
                    if f.op == 'eq' and f.args[0] == q: return []
                    if f.op == 'ge' and b is not None and b.kind == 'sqrt' and f.args[0] == -q: return []
    if len(inds) >= 2:
        # contradictory / subsumed equalities: [x==e1][x==e2]
        fs = [a.args[0] for a in out if a.kind == 'ind']
        fz = set(fs)
        for f in fs:
            if f.op == 'eq':
                for g in fs:
                    if g is not f and g.op == 'eq':
                        c = (f.args[0] - g.args[0]).const()
                        if c: return []
                        c = (f.args[0] + g.args[0]).const()
                        if c: return []
    m = tuple(sorted(out.items(), key=lambda x: x[0].uid))
    if extra is ONE: return [(m, 1)]
    r = {}
    p = Poly({m: 1}) * extra
    return list(p.t.items())

ZERO = Poly({}); ONE = Poly({(): 1})

# ---------------------------------------------------------------- formulas
class F:
    __slots__ = ('op', 'args', '_h', 'free', 'depth', 'rds')
    def __init__(self, op, args):
        self.op = op; self.args = args; self._h = hash((op, args))
        fr = frozenset(); dp = 0; rd = frozenset()
        for a in args:
            if isinstance(a, (Poly, F, Atom)): fr |= a.free; dp = max(dp, a.depth); rd |= a.rds
        self.free = fr; self.depth = dp; self.rds = rd
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, F) and self._h == o._h and self.op == o.op and self.args == o.args
    def __repr__(self): return show_f(self)
TRUE = F('true', ()); FALSE = F('false', ())

def _lead(p):
    """canonical leading coefficient (by monomial of largest key)"""
    best = None
    for m, c in p.t.items():
        if not m: continue
        k = tuple((a.uid, e) for a, e in m)
        if best is None or k > best[0]: best = (k, c)
    return best[1] if best else None

def eq0(p):
    p = P(p); c = p.const()
    if c is not None: return TRUE if c == 0 else FALSE
    if p.is_int():
        import math
        g = 0
        for m, c in p.t.items():
            if m: g = math.gcd(g, int(c))
        k = p.t.get((), Fraction(0))
        if g > 1:
            if int(k) % g: return FALSE
            p = p * Fraction(1, g)
    l = _lead(p)
    if p.is_int():
        if l < 0: p = -p
    else: p = p * _rec(l)
    return F('eq', (p,))
def Eq(a, b): return eq0(P(a) - P(b))
def ge0(p):
    """p >= 0"""
    p = P(p); c = p.const()
    if c is not None: return TRUE if c >= 0 else FALSE
    if p.is_int():
        import math
        g = 0
        for m, c in p.t.items():
            if m: g = math.gcd(g, int(c))
        if g > 1:
            k = p.t.get((), Fraction(0))
            q = Poly({m: Fraction(c) / g for m, c in p.t.items() if m}) + P(int(k) // g)
            p = q
    else:
        l = abs(_lead(p)); p = p * _rec(l)
    return F('ge', (p,))
def gt0(p):
    p = P(p); c = p.const()
    if c is not None: return TRUE if c > 0 else FALSE
    if p.is_int(): return ge0(p - 1)
    return Not(ge0(-p))
def Ge(a, b): return ge0(P(a) - P(b))
def Gt(a, b): return gt0(P(a) - P(b))
def Le(a, b): return Ge(b, a)
def Lt(a, b): return Gt(b, a)
def Ne(a, b): return Not(Eq(a, b))
def Not(f):
    if f is TRUE: return FALSE
    if f is FALSE: return TRUE
    if f.op == 'not': return f.args[0]
    if f.op == 'ge' and f.args[0].is_int(): return ge0(-f.args[0] - 1)
    if f.op == 'and': return Or(*[Not(x) for x in f.args])
    if f.op == 'or': return And(*[Not(x) for x in f.args])
    return F('not', (f,))
def And(*fs):
    out = []
    for f in fs:
        if f is TRUE: continue
        if f is FALSE: return FALSE
        if f.op == 'and': 
            for g in f.args:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    for f in out:
        if f.op == 'not' and f.args[0] in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return F('and', tuple(out))
def Or(*fs):
    out = []
    for f in fs:
        if f is FALSE: continue
        if f is TRUE: return TRUE
        if f.op == 'or':
            for g in f.args:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    for f in out:
        if f.op == 'not' and f.args[0] in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return F('or', tuple(out))
def BAtom(a): return F('b', (a,))
def Implies(a, b): return Or(Not(a), b)

# ---------------------------------------------------------------- constructors
def App(fn, *args, sort='real'):
    return _mk('app', (fn,) + tuple(args), sort)

def Ind(f):
    """indicator polynomial of a formula"""
    if f is TRUE: return ONE
    if f is FALSE: return ZERO
    if f.op == 'and':
        r = ONE
        for g in f.args: r = r * Ind(g)
        return r
    if f.op == 'or':
        r = ONE
        for g in f.args: r = r * (ONE - Ind(g))
        return ONE - r
    if f.op == 'not': return ONE - Ind(f.args[0])
    if f.op == 'ge':
        p = f.args[0]
        l = _lead(p)
        if l < 0:
            if p.is_int():
                g = ge0(-p - 1)
                return ONE - P(_mk('ind', (g,), 'int'))
        return P(_mk('ind', (f,), 'int'))
    return P(_mk('ind', (f,), 'int'))

def Ite(c, a, b):
    a = P(a); b = P(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a == b: return a
    i = Ind(c)
    return i * a + (ONE - i) * b

def Inv(p):
    p = P(p); c = p.const()
    if c is not None:
        if c == 0: return P(_mk('inv', (ZERO,), 'real'))
        return P(_rec(c))
    # monomials: distribute
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not any(a.kind == 'ind' for a, e in m):
            r = P(_rec(c))
            for a, e in m:
                if a.kind == 'inv': r = r * (a.args[0] ** e)
                else: r = r * (P(_mk('inv', (P(a),), 'real')) ** e)
            return r
    # one indicator-guarded alternatives: inv distributes over ite -- handled by case split elsewhere
    l = _lead(p)
    return P(_mk('inv', (p * _rec(l),), 'real')) * _rec(l)

def Sqrt(p):
    p = P(p); c = p.const()
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator: return P(Fraction(n, d))
    return P(_mk('sqrt', (p,), 'real'))
def Abs(p):
    p = P(p); c = p.const()
    if c is not None: return P(abs(c))
    l = _lead(p)
    return P(_mk('abs', (p * _rec(l),), 'int' if p.is_int() and abs(l) == 1 else 'real')) * abs(l)
def FloorDiv(a, b):
    a = P(a); b = P(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0: return P((Fraction(ca) / cb).__floor__())
    if cb == 1: return a
    return P(_mk('app', ('fdiv', a, b), 'int'))
def Max(a, b):
    a = P(a); b = P(b)
    d = (a - b).const()
    if d is not None: return a if d >= 0 else b
    return Ite(Ge(a, b), a, b)
def Min(a, b):
    a = P(a); b = P(b)
    d = (a - b).const()
    if d is not None: return a if d <= 0 else b
    return Ite(Ge(b, a), a, b)

# ---------------------------------------------------------------- sums
def subst(x, m):
    """capture-free substitution of symbols (dict Atom(sym)->Poly/Atom)"""
    if not m: return x
    if isinstance(x, Poly):
        if not (x.free & m.keys()): return x
        r = ZERO
        keep = {}
        for mo, c in x.t.items():
            if not any(a.free & m.keys() for a, e in mo):
                keep[mo] = c; continue
            t = P(c)
            for a, e in mo:
                s = subst_atom(a, m)
                t = t * (s if e == 1 else s ** e)
                if not t.t: break
            r = r + t
        if keep: r = r + Poly(keep)
        return r
    if isinstance(x, F):
        if not (x.free & m.keys()): return x
        return f_rebuild(x, lambda y: subst(y, m))
    if isinstance(x, Atom):
        return subst_atom_obj(x, m)
    if isinstance(x, tuple): return tuple(subst(y, m) for y in x)
    return x

def subst_atom_obj(a, m):
    """substitution where an atom is expected as the result (object-sorted or opaque); falls back to Poly"""
    if not (a.free & m.keys()): return a
    r = subst_atom(a, m)
    if isinstance(r, Poly):
        b = r.atom()
        return b if b is not None else r
    return r

def f_rebuild(f, g):
    if f.op in ('true', 'false'): return f
    if f.op == 'eq': return eq0(g(f.args[0]))
    if f.op == 'ge': return ge0(g(f.args[0]))
    if f.op == 'not': return Not(f_rebuild(f.args[0], g))
    if f.op == 'and': return And(*[f_rebuild(h, g) for h in f.args])
    if f.op == 'or': return Or(*[f_rebuild(h, g) for h in f.args])
    if f.op == 'b':
        a = g(f.args[0])
        if isinstance(a, F): return a
        if isinstance(a, Poly): a = a.atom()
        return F('b', (a,))
    raise Exception(f.op)

@functools.lru_cache(maxsize=None)
def _noop(x): return x

def map_args(a, g):
    """rebuild atom a with g applied to its term arguments; returns Poly"""
    if a.kind == 'app':
        def h(x):
            if isinstance(x, (Poly, F)): return g(x)
            if isinstance(x, Atom):
                y = g(P(x)) if x.sort not in ('obj', 'bool') else g(x)
                if isinstance(y, Poly):
                    z = y.atom()
                    if z is not None: return z
                return y
            if isinstance(x, tuple): return tuple(h(y) for y in x)
            return x
        args = tuple(h(x) for x in a.args[1:])
        if a.args[0] == 'fdiv': return FloorDiv(*args)
        return P(App(a.args[0], *args, sort=a.sort)) if a.sort not in ('obj', 'bool') else App(a.args[0], *args, sort=a.sort)
    if a.kind == 'ind': return Ind(f_rebuild(a.args[0], g))
    if a.kind == 'inv': return Inv(g(a.args[0]))
    if a.kind == 'sqrt': return Sqrt(g(a.args[0]))
    if a.kind == 'abs': return Abs(g(a.args[0]))
    if a.kind == 'sum':
        # rename binders fresh to avoid capture, then rebuild
        bs, body = a.args
        ren = {}; nb = []
        for v, n in bs:
            w = Fresh('q'); nb.append((w, n)); ren[v] = P(w)
        body = subst(Poly({body: 1}), ren)
        nb = [(w, g(subst(n, ren))) for w, n in nb]
        return SumN(nb, g(body))
    raise Exception(a.kind)

_scache = {}
def clear_caches(): _scache.clear(); _sumcache.clear()
def subst_atom(a, m):
    fv = a.free & m.keys()
    if not fv: return P(a) if a.sort not in ('obj', 'bool') else a
    if a.kind == 'sym':
        r = m[a]
        if a.sort in ('obj', 'bool'): return r
        return P(r)
    if len(fv) == 1:
        (v,) = fv; key = (a, v, m[v])
    else: key = (a, tuple((v, m[v]) for v in sorted(fv, key=lambda x: x.uid)))
    r = _scache.get(key)
    if r is not None: return r
    h0 = _ctxdep[0]
    if a.kind == 'sum':
        bs, body = a.args
        cap = set()
        for v in fv: cap |= m[v].free
        mm = {v: m[v] for v in fv}
        if any(v in cap for v, n in bs): r = map_args(a, lambda y: subst(y, mm))
        else: r = SumN([(v, subst(n, mm)) for v, n in bs], subst(Poly({body: 1}), mm))
    else: r = map_args(a, lambda y: subst(y, m))
    if _ctxdep[0] == h0: _scache[key] = r      # only results that did not consult the assumption context are shared
    return r

def SumN(binders, body):
    """SUM over binders [(sym, count)...] (outermost first; counts may depend on earlier binders) of body (Poly)"""
    r = P(body)
    for v, n in reversed(list(binders)):
        r = Sum1(v, P(n), r)
    return r

def Sum1(v, n, body):
    if not body.t: return ZERO
    cn = n.const()
    if cn is not None and cn <= 0: return ZERO
    if cn is not None and cn <= 4:
        r = ZERO
        for k in range(int(cn)): r = r + subst(body, {v: P(k)})
        return r
    out = ZERO
    for m, c in body.t.items():
        out = out + _sum_mono(v, n, m) * c
    return out

def _range_f(e, n): return And(ge0(e), ge0(n - 1 - e))

def _sum_mono(v, n, m):
    inn = [(a, e) for a, e in m if v in a.free]
    outer = [(a, e) for a, e in m if v not in a.free]
    po = Poly({tuple(outer): 1})
    if not inn:
        if n.is_int() and SUM_NONNEG(n): return po * n
        return po * Ite(ge0(n), n, ZERO)
    # delta elimination  [v == e]
    for a, e in inn:
        if a.kind == 'ind' and a.args[0].op == 'eq':
            p = a.args[0].args[0]
            s = solve_lin(p, v)
            if s is not None:
                rest = Poly({tuple(x for x in inn if x[0] is not a): 1})
                r = subst(rest, {v: s})
                return po * r * RANGE_IND(s, n)
    # indicators that the range decides
    for a, e in inn:
        if a.kind == 'ind' and a.args[0].op == 'ge':
            p = a.args[0].args[0]; x = P(v); t = None
            for q, w in ((p - x, 1), (p - (n - 1 - x), 1), (-p - 1 - x, 0), (x - n - p, 0)):
                c = q.const()
                if c is not None and (c >= 0 if w else c >= 0): t = w; break
            if t == 0 : return ZERO
            if t == 1: return po * _sum_mono(v, n, tuple(y for y in inn if y[0] is not a)) if len(inn) > 1 else po * (n if n.is_int() and SUM_NONNEG(n) else Ite(ge0(n), n, ZERO))
    # flatten: absorb sum atoms that depend on v
    binders = [(v, n)]
    body = ONE
    taken = {v}
    for a, e in inn:
        taken |= a.free
    taken |= n.free
    for a, e in inn:
        if a.kind == 'sum':
            for _ in range(e):
                bs, bm = a.args
                ren = {}; nb = []
                for w, k in bs:
                    if w in taken: u = Fresh('q'); ren[w] = P(u); nb.append((u, k))
                    else: nb.append((w, k))
                    taken.add(nb[-1][0])
                binders += [(u, subst(k, ren)) for u, k in nb]
                body = body * subst(Poly({bm: 1}), ren)
        else:
            body = body * Poly({((a, e),): 1})
    r = ZERO
    for mm, c in body.t.items():
        r = r + mk_sum(binders, mm) * c
    return po * r

def SUM_NONNEG(n):
    """hook: can the count be assumed nonnegative (set by the executor context)"""
    _ctxdep[0] += 1
    return _hooks['nonneg'](n)
def RANGE_IND(e, n):
    _ctxdep[0] += 1
    return _hooks['range_ind'](e, n)
_ctxdep = [0]
_hooks = {'nonneg': lambda n: False, 'range_ind': lambda e, n: Ind(_range_f(e, n))}

def solve_lin(p, v):
    """solve p == 0 for symbol v appearing only linearly with coefficient +-1; None otherwise"""
    cf = None; rest = {}
    for m, c in p.t.items():
        has = [(a, e) for a, e in m if v in a.free]
        if not has: rest[m] = c; continue
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1:
            cf = c
        else: return None
    if cf is None or abs(cf) != 1: return None
    return Poly(rest) * (-_rec(cf))

_sumcache = {}
def mk_sum(binders, m):
    """canonical sum atom over a monomial; splits independent components"""
    used = [(v, n) for v, n in binders]
    # connected components of binders via atoms and via dependent counts
    vs = [v for v, n in used]
    comp = {v: i for i, v in enumerate(vs)}
    def union(a, b):
        x, y = comp[a], comp[b]
        if x != y:
            for k in comp:
                if comp[k] == y: comp[k] = x
    for a, e in m:
        l = [v for v in vs if v in a.free]
        for x in l[1:]: union(l[0], x)
    for v, n in used:
        for w in vs:
            if w in n.free and w is not v: union(v, w)
    groups = {}
    for v, n in used: groups.setdefault(comp[v], []).append((v, n))
    r = ONE; rest = []
    assigned = {g: [] for g in groups}
    for a, e in m:
        l = [v for v in vs if v in a.free]
        if not l: rest.append((a, e))
        else: assigned[comp[l[0]]].append((a, e))
    for g, bs in groups.items():
        r = r * P(_canon_sum(bs, tuple(assigned[g]))) if assigned[g] else r * _count(bs)
    return r * Poly({tuple(rest): 1})

def _count(bs):
    r = ONE
    for v, n in reversed(bs):
        r = Sum1(v, n, r) if v in r.free else r * (n if SUM_NONNEG(n) else Ite(ge0(n), n, ZERO))
    return r

def skey(x):
    """structural key independent of hash-consing order for bound canonical names"""
    return x

def _binder_sig(v, n, vs, m):
    out = []
    for a, e in m:
        if v not in a.free: continue
        if a.kind == 'app': out.append((a.kind, str(a.args[0]), tuple((-1 if v in x.free else (x.uid if isinstance(x, Atom) and not (x.free & vs) else -2)) if isinstance(x, (Atom, Poly)) else -3 for x in a.args[1:]), e))
        else: out.append((a.kind, '', (), e))
    return (str(sorted_key(n)) if not (n.free & vs) else 'dep', tuple(sorted(out)))
def _perms(bs, m):
    if len(bs) == 1: return [(0,)]
    vs = frozenset(v for v, n in bs)
    sg = [(_binder_sig(v, n, vs, m), i) for i, (v, n) in enumerate(bs)]
    groups = {}
    for k, i in sg: groups.setdefault(k, []).append(i)
    lists = []; tot = 1
    for k in sorted(groups):
        g = groups[k]
        for j in range(2, len(g) + 1): tot *= j
        lists.append(g)
    if any(n.free & vs for v, n in bs):
        if len(bs) <= 5: return itertools.permutations(range(len(bs)))
        return [tuple(range(len(bs)))]
    if tot > 200: return [tuple(i for g in lists for i in g)]
    return (tuple(i for part in pr for i in part) for pr in itertools.product(*[list(itertools.permutations(g)) for g in lists]))
def _canon_sum(bs, m):
    key0 = (tuple(bs), m)
    c = _sumcache.get(key0)
    if c is not None: return c
    depth = 1 + max([a.depth for a, e in m] + [n.depth for v, n in bs] + [0])
    # orient binders: if the first linear occurrence has negative sign reverse (only for independent counts)
    best = None
    perms = _perms(bs, m)
    fr = set()
    for a, e in m: fr |= a.free
    for v, n in bs: fr |= n.free
    fr -= {v for v, n in bs}
    pre = 0
    while any(Sym('b%d%s_%d' % (depth, "'" * pre, i)) in fr for i in range(len(bs))): pre += 1     # never capture a free symbol
    pre = "%d%s" % (depth, "'" * pre)
    deps = [(i, j) for i, (v, n) in enumerate(bs) for j, (w, k) in enumerate(bs) if w in n.free]
    for pm in perms:
        pos = {b: i for i, b in enumerate(pm)}
        if any(pos[i] < pos[j] for i, j in deps): continue
        ren = {bs[b][0]: P(Sym('b%s_%d' % (pre, i))) for i, b in enumerate(pm)}
        mm = subst(Poly({m: 1}), ren)
        if len(mm.t) != 1:
            # renaming caused collapse (should not happen)
            continue
        (m2, cc), = mm.t.items()
        nb = tuple((ren[bs[b][0]].atom(), subst(bs[b][1], ren)) for b in pm)
        k = (tuple(str(sorted_key(n)) for v, n in nb), tuple((a.uid, e) for a, e in m2))
        if best is None or k < best[0]: best = (k, nb, m2)
    _, nb, m2 = best
    r = _mk('sum', (nb, m2), 'int' if all(a.sort == 'int' for a, e in m2) else 'real')
    _sumcache[key0] = r
    return r

def sorted_key(p):
    return tuple(sorted((tuple((a.uid, e) for a, e in m), c) for m, c in p.t.items()))

# ---------------------------------------------------------------- traversal helpers
def atoms_of(x, acc=None):
    """all atoms occurring (recursively) in x"""
    if acc is None: acc = set()
    if isinstance(x, Poly):
        for m in x.t:
            for a, e in m: atoms_of(a, acc)
    elif isinstance(x, F):
        for y in x.args: atoms_of(y, acc)
    elif isinstance(x, Atom):
        if x in acc: return acc
        acc.add(x)
        for y in x.args: atoms_of(y, acc)
    elif isinstance(x, tuple):
        for y in x: atoms_of(y, acc)
    return acc

def rewrite(x, fn):
    """bottom-up-less rewriting: fn(atom) returns Poly replacement or None; recursion into arguments otherwise"""
    if isinstance(x, Poly):
        r = ZERO
        for mo, c in x.t.items():
            t = P(c)
            for a, e in mo:
                s = rewrite_atom(a, fn)
                t = t * (s if e == 1 else s ** e)
                if not t.t: break
            r = r + t
        return r
    if isinstance(x, F): return f_rebuild(x, lambda y: rewrite(y, fn))
    if isinstance(x, Atom):
        r = rewrite_atom(x, fn)
        if isinstance(r, Poly) and r.atom() is not None: return r.atom()
        return r
    return x
def rewrite_atom(a, fn):
    s = fn(a)
    if s is not None: return s
    if a.kind == 'sym': return P(a) if a.sort not in ('obj', 'bool') else a
    return map_args(a, lambda y: rewrite(y, fn))

# ---------------------------------------------------------------- printing
def show(p):
    if not p.t: return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: tuple((a.uid, e) for a, e in x[0])):
        f = '*'.join((show_atom(a) if e == 1 else '%s^%d' % (show_atom(a), e)) for a, e in m)
        if not f: out.append(str(c))
        elif c == 1: out.append(f)
        elif c == -1: out.append('-' + f)
        else: out.append('%s*%s' % (c, f))
    return ' + '.join(out)
def show_any(x):
    if isinstance(x, Poly): return show(x)
    if isinstance(x, Atom): return show_atom(x)
    if isinstance(x, F): return show_f(x)
    if isinstance(x, tuple): return '(' + ','.join(show_any(y) for y in x) + ')'
    return str(x)
def show_atom(a):
    if a.kind == 'sym': return a.args[0]
    if a.kind == 'app':
        if a.args[0] == 'rd': return '%s[%s]' % (show_any(a.args[1]), ','.join(show_any(x) for x in a.args[2:]))
        return '%s(%s)' % (a.args[0], ','.join(show_any(x) for x in a.args[1:]))
    if a.kind == 'ind': return '[%s]' % show_f(a.args[0])
    if a.kind == 'sum': return 'SUM{%s}(%s)' % (','.join('%s<%s' % (v.args[0], show(n)) for v, n in a.args[0]), show(Poly({a.args[1]: 1})))
    return '%s(%s)' % (a.kind, ','.join(show_any(x) for x in a.args))
def show_f(f):
    if f.op in ('true', 'false'): return f.op
    if f.op == 'eq': return '%s==0' % show(f.args[0])
    if f.op == 'ge': return '%s>=0' % show(f.args[0])
    if f.op == 'not': return '!(%s)' % show_f(f.args[0])
    if f.op == 'b': return show_any(f.args[0])
    return '(' + (' && ' if f.op == 'and' else ' || ').join(show_f(x) for x in f.args) + ')'

# ---------------------------------------------------------------- differentiation
class NotDiff(Exception): pass
def diff(x, base, idx):
    """d x / d base[idx]   (base: name used in rd atoms; idx tuple of Poly).  Indicators are locally constant (a.e.)."""
    x = P(x); r = ZERO
    for m, c in x.t.items():
        for i, (a, e) in enumerate(m):
            if base not in a.rds: continue
            d = diff_atom(a, base, idx)
            if not d.t: continue
            rest = list(m); 
            if e == 1: rest.pop(i)
            else: rest[i] = (a, e - 1)
            t = P(c * e) * d
            for b, k in rest: t = t * (Poly({((b, k),): 1}))
            r = r + t
    return r
def diff_atom(a, base, idx):
    if a.kind == 'app' and a.args[0] == 'rd' and a.args[1] == base:
        return Ind(And(*[Eq(x, y) for x, y in zip(a.args[2:], idx)]))
    if a.kind == 'sum':
        bs, m = a.args
        ren = {}; nb = []
        for v, n in bs:
            w = Fresh('q'); nb.append((w, n)); ren[v] = P(w)
        nb = [(w, subst(n, ren)) for w, n in nb]
        body = subst(Poly({m: 1}), ren)
        return SumN(nb, diff(body, base, idx))
    if a.kind == 'inv': return -(P(a) ** 2) * diff(a.args[0], base, idx)
    if a.kind == 'sqrt': return P(Fraction(1, 2)) * Inv(P(a)) * diff(a.args[0], base, idx)
    if a.kind == 'abs':
        # d|p| = sign(p) dp
        return (P(2) * Ind(ge0(a.args[0])) - 1) * diff(a.args[0], base, idx)
    if a.kind == 'ind': return ZERO
    raise NotDiff(show_atom(a))
