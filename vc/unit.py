"""Contract units: a unit sets up the precondition state symbolically, runs the real function body (extracted AST)
and discharges its postconditions.  Every feasible decision path of the body is enumerated."""
import time, traceback
from .terms import *
from . import terms as T
from .interp import *
from . import solver, models_mfem as M
from .models_mfem import obj, vget, mget, tget, vsize, mdims, vsum, with_range

class Unit:
    def __init__(self, prop, name, fn, dims=(None,), opts=None, files=()):
        self.prop = prop; self.name = name; self.fn = fn; self.dims = dims; self.opts = opts or {}; self.files = files
UNITS = []
def unit(prop, name, dims=(None,), files=(), **opts):
    def d(f):
        UNITS.append(Unit(prop, name, f, dims, opts, files)); return f
    return d

_HI = {}
def has_ind(x):
    """does x contain an indicator (or a sum whose length is not a plain symbol) somewhere?"""
    if isinstance(x, Poly): return any(has_ind(a) for m in x.t for a, e in m)
    if isinstance(x, Atom):
        r = _HI.get(x)
        if r is None:
            if x.kind == 'ind': r = True
            elif x.kind == 'app' and x.args[0] == 'qrule': r = False     # the order of the default rule: same term on both sides
            elif x.kind == 'sum': r = any(n.atom() is None or has_ind(n) for v, n in x.args[0]) or any(has_ind(b) for b, e in x.args[1])
            else: r = any(has_ind(y) for y in x.args)
            _HI[x] = r
        return r
    if isinstance(x, F): return any(has_ind(y) for y in x.args)
    if isinstance(x, (tuple, list)): return any(has_ind(y) for y in x)
    return False
def deep_simp(ex, p, rounds=3):
    def go(q):
        def fn(a):
            if a.sort not in ('obj', 'bool') and not has_ind(a): return P(a)
            if a.kind == 'ind':
                g = ex.ctx.simp(a.args[0])
                if g.op in ('true', 'false'): return Ind(g)
                return P(a)
            if a.kind == 'sum':
                if not has_ind(a): return P(a)
                bs, body = a.args
                ren = {}; nb = []
                for v, n in bs:
                    w = Fresh('q'); nb.append((w, subst(n, ren))); ren[v] = P(w)
                b = subst(Poly({body: Fraction(1)}), ren)
                m = ex.ctx.mark()
                for w, n in nb: ex.ctx.assume(ge0(P(w))); ex.ctx.assume(ge0(n - 1 - P(w)))
                if any(n.atom() is None for w, n in nb) and ex.ctx.infeasible(): ex.ctx.reset(m); return ZERO
                b2 = go(b)
                ex.ctx.reset(m)
                return SumN(nb, b2)
            if a.sort in ('obj', 'bool'): return a
            return None if a.kind in ('inv', 'sqrt', 'abs') else P(a)
        return rewrite(q, fn)
    for _ in range(rounds):
        q = go(p)
        if q == p: break
        p = q
    return p

def peel(a, bi, front):
    """SUM over binder bi of n terms = (n-1)-term sum + first/last term"""
    bs, body = a.args
    ren = {}; nb = []
    for v, n in bs:
        w = Fresh('q'); nb.append((w, subst(n, ren))); ren[v] = P(w)
    b = subst(Poly({body: Fraction(1)}), ren)
    v, n = nb[bi]
    if any(v in m.free for w, m in nb): return None
    one = SumN(nb[:bi] + nb[bi + 1:], subst(b, {v: ZERO if front else n - 1}))
    if front: rest = SumN(nb[:bi] + [(v, n - 1)] + nb[bi + 1:], subst(b, {v: P(v) + 1}))
    else: rest = SumN(nb[:bi] + [(v, n - 1)] + nb[bi + 1:], b)
    return one + rest

def const_counts(ex, p):
    """expand sums whose length is a known small constant"""
    def fn(a):
        if a.kind == 'sum':
            for v, n in a.args[0]:
                if n.const() is None and not any(w in n.free for w, m in a.args[0]):
                    for c in (0, 1, 2, 3):
                        if ex.ctx.entails(Eq(n, c)):
                            bs, body = a.args
                            ren = {}; nb = []
                            for w, m in bs:
                                x = Fresh('q'); nb.append((x, P(c) if w is v else subst(m, ren))); ren[w] = P(x)
                            return const_counts(ex, SumN(nb, subst(Poly({body: Fraction(1)}), ren)))
            return P(a)
        if a.sort in ('obj', 'bool'): return a
        return None if a.kind in ('inv', 'sqrt', 'abs') else P(a)
    return rewrite(p, fn)

def close_sums(ex, d, depth=3):
    """try to cancel d by peeling first/last terms of sums whose lengths differ by a constant"""
    if not d.t or depth == 0: return d
    sums = [a for m in d.t for a, e in m if a.kind == 'sum']
    best = d
    tried = set()
    for a in sums:
        for bi, (v, n) in enumerate(a.args[0]):
            if any(w in n.free for w, m in a.args[0]): continue
            if not any(b is not a and any((n - k).const() is not None and 1 <= (n - k).const() <= 3 for u, k in b.args[0]) for b in sums): continue
            if not ex.ctx.entails(ge0(n - 1)): continue
            for front in (True, False):
                if (a, bi, front) in tried: continue
                tried.add((a, bi, front))
                q = peel(a, bi, front)
                if q is None: continue
                e = rewrite(d, lambda x: q if x is a else (P(x) if x.sort not in ('obj', 'bool') else x))
                e = deep_simp(ex, e)
                if not e.t: return e
                if len(e.t) <= len(d.t): 
                    r = close_sums(ex, e, depth - 1)
                    if not r.t: return r
    return best

def range_sums(ex, d):
    """sum over i < n of [i >= l] [i <= u] c with c free of i = (number of such i) c"""
    def fn(a):
        if a.sort in ('obj', 'bool'): return a
        if a.kind != 'sum': return None if a.kind in ('inv', 'sqrt', 'abs') else P(a)
        bs, body = a.args
        if len(bs) != 1: return P(a)
        v, n = bs[0]; lo = [ZERO]; hi = [n - 1]; rest = {}
        for x, e in body:
            if v not in x.free: rest[x] = e; continue
            if x.kind != 'ind' or x.args[0].op != 'ge': return P(a)
            p = x.args[0].args[0]; c = p - P(v)
            if v not in c.free: lo.append(-c); continue
            c = p + P(v)
            if v not in c.free: hi.append(c); continue
            return P(a)
        l = next((x for x in lo if all(x is y or ex.ctx.entails(ge0(x - y)) for y in lo)), None); h = next((x for x in hi if all(x is y or ex.ctx.entails(ge0(y - x)) for y in hi)), None)
        if l is None or h is None or not ex.ctx.entails(ge0(h + 1 - l)): return P(a)
        return (h + 1 - l) * Poly({tuple((x, e) for x, e in body if x in rest): Fraction(1)})
    return rewrite(d, fn)

def reverse_sums(ex, d):
    """sum over i < n of f(n-1-i) = sum over i < n of f(i): pick the simpler of the two directions"""
    def fn(a):
        if a.sort in ('obj', 'bool'): return a
        if a.kind != 'sum': return None if a.kind in ('inv', 'sqrt', 'abs') else P(a)
        bs, body = a.args; cur = P(a)
        for v, n in bs:
            if any(w in n.free for w, m in bs) or any(v in m.free for w, m in bs if w is not v and False): continue
            c = SumN([(w, subst(m, {v: n - 1 - P(v)}) if w is not v else m) for w, m in bs], subst(Poly({body: Fraction(1)}), {v: n - 1 - P(v)}))
            if len(show(c)) < len(show(cur)): return c
        return cur
    return rewrite(d, fn)
class U:
    def __init__(self, ex, unitobj, dim):
        self.ex = ex; self.unit = unitobj; self.dim = dim
    # --- building the precondition
    def obj(self, name, cls):
        o = Sym(name, 'obj'); self.ex.objcls[o] = cls; self.ex.nonnulls.add(o)
        return LObj(o, cls)
    def ptr(self, name, cls):
        return Ptr(self.obj(name, cls).o)
    def vec(self, name, n=None):
        v = self.obj(name, 'mfem::Vector')
        if n is not None: self.ex.lazy[(v.o, 'size')] = P(n)
        return v
    def mat(self, name, h=None, w=None):
        v = self.obj(name, 'mfem::DenseMatrix')
        if h is not None: self.ex.lazy[(v.o, 'h')] = P(h)
        if w is not None: self.ex.lazy[(v.o, 'w')] = P(w)
        return v
    def iarr(self, name, n=None, lo=None, hi=None):
        v = self.obj(name, 'mfem::Array<int>')
        if n is not None: self.ex.lazy[(v.o, 'size')] = P(n)
        if lo is not None or hi is not None:
            n = vsize(self.ex, v.o)
            b = P(vget(self.ex, v.o, P(M.H[0])))
            self.ex.forall(b, M.H[0], n, lambda x: And(ge0(x - lo) if lo is not None else TRUE, ge0(P(hi) - 1 - x) if hi is not None else TRUE))
        return v
    def int(self, name, lo=None, hi=None):
        s = P(Sym(name, 'int'))
        if lo is not None: self.ex.ctx.assume(ge0(s - lo))
        if hi is not None: self.ex.ctx.assume(ge0(P(hi) - s))
        return s
    def real(self, name): return P(Sym(name, 'real'))
    def idx(self, name, n):
        """a fresh index 0 <= i < n (n > 0 case)"""
        s = P(Sym(name, 'int')); self.ex.ctx.assume(ge0(s)); self.ex.ctx.assume(ge0(P(n) - 1 - s))
        return s
    def assume(self, f): self.ex.ctx.assume(f)
    # --- running
    def find(self, qn, pred=None, nparams=None, sig=None):
        c = self.ex.prog.by_qn.get(qn, [])
        if nparams is not None: c = [f for f in c if len(f['params']) == nparams]
        if sig is not None: c = [f for f in c if [norm_type(p['t'])[0].split('::')[-1] for p in f['params']] == list(sig)]
        if pred: c = [f for f in c if pred(f)]
        if len(c) != 1: raise Unsupported('function under contract %s: %d candidates' % (qn, len(c)))
        return c[0]
    def run(self, qn, args, this=None, **kw):
        f = self.find(qn, **kw)
        self.ex.under.add(f['key'])
        return self.ex.inline(f, obj(this) if this is not None else None, args)
    # --- postconditions
    def eq(self, actual, spec, desc):
        ex = self.ex
        if ex.quiet: return True
        ex.ok('post')
        done, d2 = self.vanishes(P(actual) - P(spec))
        if done: return True
        if ex.havocs and d2.free & ex.havocs: raise Unsupported('%s: depends on a value the loop summary does not keep' % desc)
        ex.nobs -= 1; ex.kinds['post'] -= 1
        ex.fail('post', desc, None, 'actual - specified = %s' % show(d2))
        return False
    def vanishes(self, d):
        """(True, .) if d = 0 can be shown; (False, what remains)"""
        ex = self.ex
        if not d.t: return True, d
        d2 = deep_simp(ex, d)
        if not d2.t: return True, d2
        if ex.ctx.infeasible(): return True, d2
        d2 = deep_simp(ex, const_counts(ex, d2))
        if not d2.t: return True, d2
        d2 = close_sums(ex, d2)
        if not d2.t: return True, d2
        d2 = range_sums(ex, d2)
        if not d2.t: return True, d2
        d3 = reverse_sums(ex, d2)
        if d3 != d2:
            d2 = deep_simp(ex, d3)
            if not d2.t: return True, d2
        return ex.ctx.entails(eq0(d2)) or self.split_eq(d2), d2
    def split_eq(self, d, depth=8):
        """case distinction over the guards that remain in the difference"""
        ex = self.ex
        if not d.t: return True
        if depth == 0: return False
        gs = [a.args[0] for m in d.t for a, e in m if a.kind == 'ind']
        if not gs: return ex.ctx.entails(eq0(d))
        g = next((h for h in gs if h.op == 'eq'), gs[0])
        for h in (g, Not(g)):
            m = ex.ctx.mark(); ex.ctx.assume(h)
            try:
                if not ex.ctx.infeasible():
                    e = d
                    if h.op == 'eq':
                        for v in sorted(h.args[0].free, key=lambda a: str(a.args[0])):
                            if v.kind != 'sym' or v.sort != 'int': continue
                            r = solve_lin(h.args[0], v)
                            if r is not None: e = subst(e, {v: r}); break
                    e = deep_simp(ex, e)
                    if e.t: e = close_sums(ex, deep_simp(ex, const_counts(ex, e)))
                    if not self.split_eq(e, depth - 1): return False
            finally: ex.ctx.reset(m)
        return True
    def ensure(self, f, desc): return self.ex.oblige('post', f, desc)
    def vec_is(self, v, n, fn, desc, name='i'):
        """postcondition: v has size n and v(i) == fn(i) for every i"""
        ex = self.ex; o = obj(v)
        self.ensure(Eq(vsize(ex, o), n), desc + ': size')
        m = ex.ctx.mark()
        i = self.idx('post_' + name, n)
        if not ex.ctx.infeasible(): self.eq(vget(ex, o, i), fn(i), desc)
        ex.ctx.reset(m)
    def mat_is(self, v, h, w, fn, desc):
        ex = self.ex; o = obj(v)
        self.ensure(And(Eq(mdims(ex, o)[0], h), Eq(mdims(ex, o)[1], w)), desc + ': extents')
        m = ex.ctx.mark()
        i = self.idx('post_i', h); j = self.idx('post_j', w)
        if not ex.ctx.infeasible(): self.eq(mget(ex, o, i, j), fn(i, j), desc)
        ex.ctx.reset(m)
    def old(self, r=None): return self.ex.st.copy()
    def at(self, st, fn):
        """evaluate fn in an earlier state"""
        cur = self.ex.st; self.ex.st = st.copy()
        try: return fn()
        finally: self.ex.st = cur
    def unchanged(self, v, st, desc, kind='vec'):
        ex = self.ex; o = obj(v)
        if kind == 'vec':
            n = self.at(st, lambda: vsize(ex, o))
            self.vec_is(v, n, lambda i: self.at(st, lambda: vget(ex, o, i)), desc)
        else:
            h, w = self.at(st, lambda: mdims(ex, o))
            self.mat_is(v, h, w, lambda i, j: self.at(st, lambda: mget(ex, o, i, j)), desc)
    def sum(self, n, fn):
        return vsum(self.ex, P(n), fn)

class AllInv(LoopInv):
    """loop that establishes, index by index, 'fact(b) for every b < T' (T: number of finished iterations; pos(T): index handled by iteration T)"""
    def __init__(self, u, cells, fact, pos=lambda T: T, hyp=None):
        self.u = u; self.cells = cells; self.fact = fact; self.b = P(Sym('any_b', 'int')); self.pos = pos; self.hyp = hyp
    def state(self, ex, T, pre): return {k: Base(Sym('at_loop_head_%d' % i, 'obj'), srt) for i, (k, srt) in enumerate(self.cells(ex))}
    def assume(self, ex, T):
        ex.ctx.assume(ge0(self.b)); ex.ctx.assume(ge0(T - 1 - self.b)); self.fact(ex, self.pos(self.b), lambda f, d: ex.ctx.assume(f))
    def check(self, ex, T, s):
        self.fact(ex, self.pos(T), lambda f, d: self.prove(ex, f, d + ' (established)', s)); self.fact(ex, self.pos(self.b), lambda f, d: self.prove(ex, f, d + ' (kept)', s))
    def prove(self, ex, f, d, s):
        if isinstance(f, tuple): self.u.eq(f[0], f[1], d)
        else: ex.oblige('invariant', f, d, s)
    def exit(self, ex, n, s): self.n = n
class Recur(LoopInv):
    """loop that advances cells along a ghost sequence: at the head of iteration T the cell holds ghost(T, index), one iteration must perform `step`"""
    def __init__(self, u, cell, name, arity, step, first=None): self.u = u; self.cell = cell; self.name = name; self.n = arity; self.step = step; self.first = first
    def ghost(self, T, *ix): return P(App(self.name, P(T), *[P(i) for i in ix]))
    def enter(self, ex, s):
        if self.first: self.first(ex)
    def state(self, ex, T, pre): return {self.cell(ex): Lam(self.ghost(T, *AX[:self.n]))}
    def check(self, ex, T, s): self.step(ex, T)
def at_loop(u, qn, inv, nth=1):
    """attach an invariant to the nth loop met at the top of the function qn (or to the loops that the predicate nth accepts)"""
    cnt = {}
    prev = u.ex.opts.get('inv')
    def pick(ex, s):
        fr = ex.frames[-1]
        if fr.fn['qn'] == qn:
            if callable(nth): return inv if nth(s) else prev(ex, s) if prev else None
            k = (id(fr)); seen = cnt.setdefault(k, [])
            if s['ln'] not in seen: seen.append(s['ln'])
            if seen.index(s['ln']) == nth - 1: return inv
        return prev(ex, s) if prev else None
    u.ex.opts['inv'] = pick

def verify(prog, u, maxpaths=300, budget=600):
    """-> dict(status proved|failed|undecided, obligations, discharged, failures, ...)"""
    res = {'unit': u.name, 'prop': u.prop, 'status': 'proved', 'obligations': 0, 'failures': [], 'paths': 0, 'live': 0, 'kinds': {},
           'under': set(), 'inlined': set(), 'modelled': set(), 'called': set(), 'assumptions': set(), 'loops': 0, 'reason': None, 'time': 0}
    t0 = time.time(); q0 = solver.STATS['queries']; s0 = solver.STATS['time']
    for dim in u.dims:
        prefix = []
        while True:
            T.reset_fresh()
            ex = Exec(prog, name=u.name)
            ex.under = set()
            ex.decisions = list(prefix)
            ex.opts = dict(u.opts)
            if dim is not None: ex.opts['dim'] = dim
            uu = U(ex, u, dim)
            try:
                try:
                    u.fn(uu); res['live'] += 1
                except Infeasible: pass
                except PathDone: res['live'] += 1
            except (Unsupported, NotDiff, RecursionError) as x:
                res['status'] = 'undecided'; res['reason'] = '%s: %s' % (type(x).__name__, x); res['tb'] = traceback.format_exc()[-600:]
            except Exception as x:
                res['status'] = 'undecided'; res['reason'] = 'internal %s: %s' % (type(x).__name__, x); res['tb'] = traceback.format_exc()[-600:]
            res['paths'] += 1; res['obligations'] += ex.nobs; res['loops'] += ex.loops
            for k, v in ex.kinds.items(): res['kinds'][k] = res['kinds'].get(k, 0) + v
            for k in ('under', 'inlined', 'modelled', 'called', 'assumptions'): res[k] |= getattr(ex, k)
            for f in ex.obs:
                f = dict(f); f['path'] = [('' if v else 'not ') + show_f(g)[:200] for g, v in ex.decisions[:ex.pos]]; f['dim'] = dim
                f.pop('F', None); f.pop('ctxF', None); f['ctx'] = f['ctx'][:40]
                res['failures'].append(f)
            if res['status'] == 'undecided': break
            d = ex.decisions[:ex.pos]
            while d and d[-1][1] is False: d.pop()
            if not d: break
            d[-1] = (d[-1][0], False); prefix = d
            if res['paths'] >= maxpaths or time.time() - t0 > budget:
                res['status'] = 'undecided'; res['reason'] = 'path or time budget exhausted'; break
        if res['status'] == 'undecided': break
    if res['status'] == 'proved' and res['failures']: res['status'] = 'failed'
    if res['status'] == 'undecided' and res['failures']: res['status'] = 'failed' if res['failures'] else 'undecided'
    if res['status'] == 'proved' and (res['live'] == 0 or res['obligations'] == 0):
        res['status'] = 'undecided'; res['reason'] = 'vacuous: no feasible path or no obligation'
    res['time'] = time.time() - t0; res['queries'] = solver.STATS['queries'] - q0; res['solver_s'] = solver.STATS['time'] - s0
    return res
