"""Entailment queries: formulas over mathematical ints/reals, discharged by z3 (cvc5 cross-check in thorough tier)."""
import z3, time
from .terms import *
from . import terms as T

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}
_z3atom = {}
_ax = {}

def z3_poly(p, acc):
    isint = p.is_int()
    s = None
    for m, c in p.t.items():
        t = None
        for a, e in m:
            x = z3_atom(a, acc)
            if not isint and x.sort() == z3.IntSort(): x = z3.ToReal(x)
            for _ in range(e):
                t = x if t is None else t * x
        cc = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
        t = cc if t is None else (t if c == 1 else cc * t)
        s = t if s is None else s + t
    if s is None: return z3.IntVal(0) if isint else z3.RealVal(0)
    return s

def z3_atom(a, acc):
    if a.kind == 'ind':
        return z3.If(z3_f(a.args[0], acc), z3.IntVal(1), z3.IntVal(0))
    x = _z3atom.get(a)
    if x is None:
        nm = 'a%d' % a.uid
        x = z3.Int(nm) if a.sort == 'int' else z3.Real(nm)
        _z3atom[a] = x
    if a not in acc:
        acc[a] = None
        if a.kind == 'app' and a.args[0] == 'fdiv':
            n = z3_poly(a.args[1], acc); d = z3_poly(a.args[2], acc)
            acc[a] = z3.Implies(d > 0, z3.And(d * x <= n, n < d * x + d))
        elif a.kind == 'abs':
            p = z3_poly(a.args[0], acc)
            if x.sort() == z3.RealSort() and p.sort() == z3.IntSort(): p = z3.ToReal(p)
            acc[a] = z3.If(p >= 0, x == p, x == -p)
        elif a.kind == 'sqrt':
            p = z3_poly(a.args[0], acc)
            if p.sort() == z3.IntSort(): p = z3.ToReal(p)
            acc[a] = z3.And(x >= 0, z3.Implies(p >= 0, x * x == p))
        elif a.kind == 'inv':
            p = z3_poly(a.args[0], acc)
            if p.sort() == z3.IntSort(): p = z3.ToReal(p)
            acc[a] = z3.Implies(p != 0, x * p == 1)
    return x

_zf = {}
def z3_f(f, acc):
    c = _zf.get(f)
    if c is None:
        a2 = {}
        x = z3_f_(f, a2)
        _zf[f] = c = (x, a2)
    acc.update(c[1])
    return c[0]
def z3_f_(f, acc):
    if f.op == 'true': return z3.BoolVal(True)
    if f.op == 'false': return z3.BoolVal(False)
    if f.op == 'eq': return z3_poly(f.args[0], acc) == 0
    if f.op == 'ge': return z3_poly(f.args[0], acc) >= 0
    if f.op == 'not': return z3.Not(z3_f(f.args[0], acc))
    if f.op == 'and': return z3.And(*[z3_f(x, acc) for x in f.args])
    if f.op == 'or': return z3.Or(*[z3_f(x, acc) for x in f.args])
    if f.op == 'b':
        return z3.Bool('p%d' % f.args[0].uid)
    raise Exception(f.op)

_cache = {}
def check_sat(fs, rlimit=3000000):
    """'sat' | 'unsat' | 'unknown' for the conjunction"""
    key = frozenset(fs)
    if key in _cache: return _cache[key]
    t0 = time.time()
    acc = {}
    zs = [z3_f(f, acc) for f in fs]
    s = z3.Solver(); s.set('rlimit', rlimit); s.set('timeout', 20000)
    for z in zs: s.add(z)
    done = set()
    while True:
        todo = [a for a in acc if a not in done]
        if not todo: break
        for a in todo:
            done.add(a)
            if acc[a] is not None: s.add(acc[a])
    r = str(s.check())
    STATS['queries'] += 1; STATS['time'] += time.time() - t0
    if r == 'unknown': STATS['unknown'] += 1
    _cache[key] = r
    return r

def model(fs, rlimit=5000000):
    acc = {}
    zs = [z3_f(f, acc) for f in fs]
    s = z3.Solver(); s.set('rlimit', rlimit); s.set('timeout', 20000)
    for z in zs: s.add(z)
    for a in list(acc):
        if acc[a] is not None: s.add(acc[a])
    if s.check() != z3.sat: return None
    m = s.model(); out = {}
    for a in acc:
        v = m.eval(_z3atom[a], model_completion=True)
        out[show_atom(a)] = str(v)
    return out

class Ctx:
    """stack of assumptions"""
    def __init__(self):
        self.fs = []; self.memo = {}; self.axfn = None
    def assume(self, f):
        if f is TRUE: return
        if f.op == 'and':
            for g in f.args: self.assume(g)
            return
        if f not in self.fs:
            self.fs.append(f); self.memo = {}
    def mark(self): return len(self.fs)
    def reset(self, n):
        if len(self.fs) != n:
            del self.fs[n:]; self.memo = {}
    def relevant(self, f):
        """assumptions connected to f through shared atoms (cone of influence)"""
        seen = set(self._vars(f)); out = []; rest = list(self.fs); ch = True; outs = set()
        instd = set(); gen = {}
        while ch:
            ch = False; keep = []
            for g in rest:
                v = self._vars(g)
                if not v or (v & seen):
                    out.append(g); outs.add(g); seen |= v; ch = True
                else: keep.append(g)
            rest = keep
            if self.axfn is not None:
                for a in sorted(seen - instd, key=lambda x: x.uid):
                    instd.add(a); k = gen.get(a, 0)
                    if k >= self.GENS: continue
                    for g in self.axfn(a):
                        if g is TRUE or g in outs: continue
                        w = self._vars(g)
                        for b in w:
                            if b not in seen: gen[b] = k + 1
                        out.append(g); outs.add(g); seen |= w; ch = True
                if len(instd) > 400: break
        return out
    _vc = {}
    def _vars(self, f):
        v = Ctx._vc.get(f)
        if v is None:
            v = frozenset(a for a in atoms_of(f) if a.kind not in ('ind',) and (a.kind != 'app' or True))
            # only leaves & opaque apps matter
            Ctx._vc[f] = v
        return v
    def closure(self):
        out = list(self.fs)
        if self.axfn is None: return out
        instd = set(); todo = set(); outs = set(out); gen = {}
        for g in out: todo |= self._vars(g)
        while todo - instd and len(instd) < 400:
            for a in sorted(todo - instd, key=lambda x: x.uid):
                instd.add(a); k = gen.get(a, 0)
                if k >= self.GENS: continue
                for g in self.axfn(a):
                    if g is TRUE or g in outs: continue
                    w = self._vars(g)
                    for b in w:
                        if b not in todo: gen[b] = k + 1
                    out.append(g); outs.add(g); todo |= w
        return out
    GENS = 3       # axioms are instantiated on the terms at hand, on the terms those instances bring in, and once more
    def entails(self, f):
        if f is TRUE: return True
        if f is FALSE: return self.infeasible()
        r = self.memo.get(f)
        if r is not None: return r
        if f in self.fs: r = True
        elif f.op == 'and': r = all(self.entails(g) for g in f.args)
        elif f.op == 'b' or (f.op == 'not' and f.args[0].op == 'b'):
            rel = self.relevant(f)
            r = check_sat(rel + [Not(f)]) == 'unsat' if rel else False
        else:
            rel = self.relevant(f)
            r = check_sat(rel + [Not(f)]) == 'unsat'
        self.memo[f] = r
        return r
    def infeasible(self):
        r = self.memo.get('infeas')
        if r is None:
            r = check_sat(self.closure()) == 'unsat'; self.memo['infeas'] = r
        return r
    def simp(self, f):
        """simplify formula under the context"""
        if f.op in ('true', 'false'): return f
        if f.op == 'and': return And(*[self.simp(g) for g in f.args])
        if f.op == 'or': return Or(*[self.simp(g) for g in f.args])
        if self.entails(f): return TRUE
        if self.entails(Not(f)): return FALSE
        return f
    def simp_poly(self, p, extra=()):
        """drop indicators decided by the context"""
        if not any(a.kind == 'ind' for m in p.t for a, e in m): return p
        def fn(a):
            if a.kind == 'ind':
                g = self.simp(a.args[0])
                if g is not a.args[0]: return Ind(g)
                return P(a)
            return P(a) if a.sort not in ('obj', 'bool') else a
        return rewrite(p, fn)
