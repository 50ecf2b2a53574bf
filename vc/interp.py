"""Symbolic executor / verification-condition generator over the extracted AST of the real code."""
import json, os, re
from fractions import Fraction
from .terms import *
from . import terms as T
from .solver import Ctx, check_sat
from . import solver

class Unsupported(Exception): pass
class Restart(Exception): pass
class Infeasible(Exception): pass
class PathDone(Exception): pass     # an obligation-only path (one iteration of a loop with an invariant)
class LoopInv:
    keys = ()
    def enter(self, ex, s): pass
    def found(self, ex, cells, closed, pre, s): pass      # cells: what the loop modifies; closed: those with a closed form in the trip count
    def state(self, ex, T, pre): return {}
    def assume(self, ex, T): pass
    def check(self, ex, T, s): pass
    def exit(self, ex, n, s): pass

A0, A1, A2, A3 = [Sym('@%d' % i) for i in range(4)]
AX = (A0, A1, A2, A3)

# ------------------------------------------------------------------ arrays
class Arr:
    __slots__ = ('k', 'prev', 'a', '_h')
    def __init__(self, k, prev, a):
        self.k = k; self.prev = prev; self.a = a
        self._h = hash((k, id(prev) if prev is None else prev._h, a))
    def __hash__(self): return self._h
    def __eq__(self, o):
        if self is o: return True
        return isinstance(o, Arr) and self._h == o._h and self.k == o.k and self.a == o.a and self.prev == o.prev
    def __repr__(self):
        if self.k == 'base': return 'base(%s)' % (show_any(self.a[0]),)
        if self.k == 'lam': return 'lam(%s)' % show_any(self.a[0])
        return '%s{%s}<%s' % (self.k, show_any(self.a), self.prev)
def Base(name, sort='real'): return Arr('base', None, (name, sort))
def Lam(body, sort='real'): return Arr('lam', None, (body, sort))
def SetN(prev, binders, idx, val, guard=TRUE): return Arr('set', prev, (tuple(binders), tuple(idx), val, guard))
def AddN(prev, binders, idx, val): return Arr('add', prev, (tuple(binders), tuple(idx), val))
def arr_sort(a):
    while a.prev is not None and a.k != 'ite': a = a.prev
    if a.k == 'ite': return arr_sort(a.a[1])
    return a.a[1]

class Ptr:
    """pointer: obj=None is null. off: element offset (regions) ; objects have off 0"""
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=ZERO): self.obj = obj; self.off = P(off)
    def __eq__(self, o): return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off
    def __hash__(self): return hash((self.obj, self.off))
    def __repr__(self): return '&%s+%s' % (self.obj, self.off)
NULL = Ptr(None)

class LVar:
    __slots__ = ('key', 't')
    def __init__(self, key, t): self.key = key; self.t = t
    def __repr__(self): return 'LVar%s' % (self.key,)
    def __eq__(self, o): return isinstance(o, LVar) and self.key == o.key
    def __hash__(self): return hash(self.key)
class LElem:
    __slots__ = ('r', 'idx', 't')
    def __init__(self, r, idx, t): self.r = r; self.idx = tuple(P(x) for x in idx); self.t = t
    def __repr__(self): return 'LElem(%s,%s)' % (self.r, self.idx)
    def __eq__(self, o): return isinstance(o, LElem) and self.r is o.r and self.idx == o.idx
    def __hash__(self): return hash((self.r, self.idx))
class LObj:
    __slots__ = ('o', 'cls')
    def __init__(self, o, cls): self.o = o; self.cls = cls
    def __repr__(self): return 'LObj(%s:%s)' % (self.o, self.cls)
    def __eq__(self, o): return isinstance(o, LObj) and self.o is o.o
    def __hash__(self): return hash(self.o)
class FnVal:
    def __init__(self, qn, key): self.qn = qn; self.key = key
class LamVal:
    def __init__(self, node, frame): self.node = node; self.frame = frame
class Void: pass
VOID = Void()

# ------------------------------------------------------------------ types
_tc = {}
def norm_type(t):
    """-> (base, ptrdepth, isref, isconst)"""
    r = _tc.get(t)
    if r: return r
    s = t.strip(); ref = False; ptr = 0
    while True:
        s = s.strip()
        if s.endswith('&'): s = s[:-1]; ref = True; continue
        if s.endswith('*const'): s = s[:-5]; continue
        if s.endswith('* const'): s = s[:-6]; continue
        if s.endswith('*'): s = s[:-1]; ptr += 1; continue
        break
    c = False
    if s.startswith('const '): s = s[6:]; c = True
    if s.endswith(' const'): s = s[:-6]; c = True
    r = (s.strip(), ptr, ref, c); _tc[t] = r
    return r
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'char', 'short', 'unsigned char', 'signed char', 'unsigned short', 'size_t'}
REALS = {'double', 'float', 'long double'}
ENUMS = {'TopologyHandlerMode', 'ROMBuildingLevel', 'ROMOrderBy', 'TrainMode', 'mfem::Operator::DiagonalPolicy'}
# std::string values are represented by integer codes: equal strings <=> equal codes; literals get distinct codes
STRCODE = {'': 0}      # the empty string is the least string
def str_code(s):
    if s not in STRCODE: STRCODE[s] = 10 ** 9 + len(STRCODE)
    return P(STRCODE[s])
def code_str(p):
    c = P(p).const()
    if c is None: return None
    for k, v in STRCODE.items():
        if v == c: return k
    return None
_isstr = {}
def is_str(t):
    r = _isstr.get(t)
    if r is None:
        b, p, ref, c = norm_type(t)
        r = _isstr[t] = p == 0 and (b.startswith('std::basic_string<char,') or b in ('std::string', 'std::basic_string<char>'))
    return r
def sort_of(t):
    b, p, r, c = norm_type(t)
    if p or '(*)(' in b and '<' not in b: return 'ptr'
    if is_str(t): return 'int'
    if b in INTS or b in ENUMS: return 'int'
    if b in REALS: return 'real'
    if b == 'bool': return 'bool'
    if b == 'void': return 'void'
    if b.endswith(']'): return 'carray'
    return 'obj'

def tmpl(cls):
    """'mfem::Array<int>' -> ('Array', 'int')"""
    c = cls
    m = re.match(r'^([^<]*)(?:<(.*)>)?$', c)
    n = m.group(1).split('::')[-1] if m else c
    return n, (m.group(2) if m and m.group(2) else None)

# ------------------------------------------------------------------ program
class Program:
    def __init__(self, asts):
        self.funcs = {}; self.by_qn = {}; self.recs = {}; self.globals = {}
        for d in asts:
            loc = {}
            for f in d['funcs']:
                f['_ast'] = d
                if f['key'] not in self.funcs:
                    self.funcs[f['key']] = f
                    self.by_qn.setdefault(f['qn'], []).append(f)
            for r in d['recs']: self.recs.setdefault(r['name'], r)
            for g in d['globals']: self.globals.setdefault(g['qn'], g)
    def find(self, qn, sig=None, pred=None):
        c = self.by_qn.get(qn, [])
        if sig is not None:
            c = [f for f in c if [norm_type(p['t'])[0] for p in f['params']] == list(sig)]
        if pred: c = [f for f in c if pred(f)]
        if len(c) != 1: raise Unsupported('function %s %s: %d candidates' % (qn, sig, len(c)))
        return c[0]
    def bases(self, cls):
        r = self.recs.get(cls)
        return r['bases'] if r else []
    def derives(self, cls, base):
        if cls == base: return True
        return any(self.derives(b, base) for b in self.bases(cls))

MODELS = {}       # (class short name, method) -> fn(ex, this, args, node)
FUNCS = {}        # free function qualified name -> fn(ex, args, node)
CTORS = {}        # class short name -> fn(ex, obj, args, node)
LAZY = {}         # field defaults: class short name -> fn(ex, obj, field)->value
CONTRACTS = {}    # repository functions with a proved contract: callers use the contract
def contract(*names):
    def d(f):
        for n in names: CONTRACTS[n] = f
        return f
    return d
def model(cls, *names):
    def d(f):
        for n in names: MODELS[(cls, n)] = f
        return f
    return d
def func(*names):
    def d(f):
        for n in names: FUNCS[n] = f
        return f
    return d
def ctor(cls):
    def d(f): CTORS[cls] = f; return f
    return d

class State:
    __slots__ = ('h',)
    def __init__(self, h): self.h = h
    def copy(self): return State(dict(self.h))

class Frame:
    def __init__(self, fn, this):
        self.fn = fn; self.env = {}; self.this = this; self.ret = None

class Exec:
    MAXPATH = 400
    def __init__(self, prog, contracts=None, name=''):
        self.prog = prog; self.contracts = contracts or {}
        self.name = name
        self.ctx = Ctx()
        self.st = State({})
        self.lazy = {}
        self.objcls = {}
        self.decisions = []; self.pos = 0
        self.loopsyms = []          # stack of sets of symbols that are loop dependent
        self.quiet = 0
        self.obs = []               # failed obligations
        self.nobs = 0
        self.kinds = {}
        self.assumptions = set()
        self.inlined = set(); self.called = set(); self.modelled = set(); self.loops = 0
        self.frames = []
        self.depth = 0
        self.opts = {}
        self.trace = []
        self.created = set(); self.nonnulls = set(); self.lazyfn = []; self.lowdim = set(); self.temps = set(); self.exact = frozenset()
        self.havocs = set(); self.foralls = []; self.fkeys = set(); self.axmemo = {}
        self.ctx.axfn = self.axioms
        T._hooks['nonneg'] = lambda n: self.ctx.entails(ge0(n))
        T._hooks['range_ind'] = lambda e, n: Ind(self.ctx.simp(And(ge0(e), ge0(n - 1 - e))))
        T._hooks['ind_under'] = self.ind_under
    # ---------------------------------------------------------------- obligations
    def oblige(self, kind, f, desc, node=None):
        if self.quiet: 
            self.ctx.assume(f); return True
        self.nobs += 1; self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if self.ctx.entails(f): return True
        if f.op == 'eq' and 'SUM' in show_f(f):     # equation between sums: the same simplifications as for postconditions
            from .unit import U
            h = U.__new__(U); h.ex = self
            if h.vanishes(f.args[0])[0]: return True
        if self.havocs and f.free & self.havocs: raise Unsupported('%s: depends on a value the loop summary does not keep' % desc)
        ln = self.where(node)
        self.obs.append({'kind': kind, 'desc': desc, 'where': ln, 'formula': show_f(f)[:2000], 'ctx': [show_f(g)[:300] for g in self.ctx.fs], 'F': f, 'ctxF': list(self.ctx.fs)})
        self.ctx.assume(f)
        return False
    def fail(self, kind, desc, node=None, extra=''):
        if self.quiet: return
        self.nobs += 1; self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.obs.append({'kind': kind, 'desc': desc, 'where': self.where(node), 'formula': extra[:4000], 'ctx': [show_f(g)[:300] for g in self.ctx.fs]})
    def ok(self, kind):
        if self.quiet: return
        self.nobs += 1; self.kinds[kind] = self.kinds.get(kind, 0) + 1
    def where(self, node):
        f = self.frames[-1].fn if self.frames else None
        fl = os.path.basename(f['file']) if f else '?'
        return '%s:%s (%s)' % (fl, node.get('ln') if node else '?', f['qn'] if f else '?')
    def note(self, s): self.assumptions.add(s)
    NONNEG = {'size', 'height', 'width', 'extsi', 'extsj', 'extsk', 'nq', 'cap', 'order', 'trOrderW', 'trOrderGrad', 'len', 'strlen'}
    def axioms(self, a):
        if a.kind != 'app': return ()
        r = self.axmemo.get(a)
        if r is None: r = self.axmemo[a] = tuple(self.axioms_(a))
        return r
    def axioms_(self, a):
        n = a.args[0]
        if n in self.NONNEG and a.sort == 'int': return (ge0(P(a)),)
        if n == 'weight': return (gt0(P(a)),)
        if n == 'dof': return (ge0(P(a) - 1),)
        if n == 'argext': return (Implies(gt0(a.args[3]), And(ge0(P(a)), ge0(a.args[3] - 1 - P(a)))),)
        if n == 'rd' and self.foralls:
            out = []
            for body, h, cnt, fact in self.foralls:
                b = body.atom()
                if b is None or b.kind != 'app' or b.args[0] != 'rd' or b.args[1] is not a.args[1] or len(b.args) != len(a.args): continue
                sol = {}
                ok = True
                for x, y in zip(b.args[2:], a.args[2:]):
                    x = P(x) - P(y)
                    hs = [v for v in (h if isinstance(h, tuple) else (h,)) if v in x.free and v not in sol]
                    if not hs:
                        if subst(x, sol).t: ok = False
                        continue
                    s = solve_lin(x, hs[0])
                    if s is None: ok = False; break
                    sol[hs[0]] = s
                if not ok: continue
                hh = h if isinstance(h, tuple) else (h,); cc = cnt if isinstance(cnt, tuple) else (cnt,)
                g = And(*[And(ge0(P(sol[v])), ge0(P(c) - 1 - P(sol[v]))) for v, c in zip(hh, cc) if v in sol])
                f = fact(P(a)) if not getattr(fact, 'idx', False) else fact(P(a), [sol.get(v) for v in hh])
                out.append(Implies(g, f))
            return out
        return ()
    def forall(self, body, h, n, fact, key=None):
        if key is not None:
            if key in self.fkeys: return
            self.fkeys.add(key)
        self.foralls.append((body, h, n, fact)); self.ctx.memo = {}; self.axmemo = {}
    def ind_under(self, binders, f):
        n = self.ctx.mark()
        try:
            for v, c in binders:
                self.ctx.assume(ge0(P(v))); self.ctx.assume(ge0(c - 1 - P(v)))
            return self.ctx.simp(f)
        finally: self.ctx.reset(n)
    # ---------------------------------------------------------------- decisions
    def is_local(self, f):
        fr = f.free
        for s in self.loopsyms:
            if fr & s: return True
        return any(str(r.args[0] if isinstance(r, Atom) else r).startswith('carried') for r in f.rds)
    def decide(self, f):
        """True/False, or None for a loop-local undecided condition"""
        if f is TRUE: return True
        if f is FALSE: return False
        if self.ctx.entails(f): return True
        if self.ctx.entails(Not(f)): return False
        if self.is_local(f): return None
        if self.pos < len(self.decisions):
            g, v = self.decisions[self.pos]
            if g != f: raise Unsupported('nondeterministic replay %s vs %s' % (g, f))
        else:
            v = True; self.decisions.append((f, True))
        self.pos += 1
        self.ctx.assume(f if v else Not(f))
        return v
    def force(self, f, node=None):
        """decide, raising when loop-local"""
        d = self.decide(f)
        if d is None: raise Unsupported('undecided loop-local condition %s at %s' % (show_f(f), self.where(node)))
        return d
    # ---------------------------------------------------------------- heap
    def get(self, key):
        v = self.st.h.get(key)
        if v is None: v = self.lazy.get(key)
        return v
    def put(self, key, v): self.st.h[key] = v
    def newobj(self, cls, name='new'):
        o = Fresh(name, 'obj'); self.objcls[o] = cls; self.created.add(o)
        return o
    created = None
    def cls(self, o): return self.objcls.get(o)
    def field(self, o, f, t=None):
        """read object field, lazily initialised to a symbolic value"""
        v = self.get((o, f))
        if v is not None: return v
        c = self.objcls.get(o)
        for fn in self.lazyfn:
            v = fn(o, f)
            if v is not None: return v
        if c:
            n, ta = tmpl(c)
            if n in LAZY:
                v = LAZY[n](self, o, f)
        if v is None:
            v = self.symbolic(t, App('fld_' + f, o, sort='obj'), (o, f)) if t else None
        if v is None: raise Unsupported('no value for field %s of %s:%s' % (f, o, c))
        self.lazy[(o, f)] = v
        return v
    def setfield(self, o, f, v): self.put((o, f), v)
    def symbolic(self, t, at, hint=None):
        """fresh symbolic value of C++ type t, named by atom at"""
        s = sort_of(t)
        b, p, ref, c = norm_type(t)
        if s == 'int' or s == 'real':
            return P(_retype(at, s))
        if s == 'bool': return BAtom(_retype(at, 'bool'))
        if s == 'ptr':
            o = _retype(at, 'obj')
            if p == 1: self.objcls.setdefault(o, b)
            else: self.objcls.setdefault(o, b + '*' * (p - 1))
            return Ptr(o)
        if s == 'obj':
            o = _retype(at, 'obj'); self.objcls.setdefault(o, b)
            return LObj(o, b)
        raise Unsupported('symbolic of type ' + t)
    # regions
    def newregion(self, shape, content, name='reg'):
        r = Fresh(name, 'obj'); self.created.add(r); self.objcls[r] = '#region'
        self.put((r, 'content'), content); self.put((r, 'shape'), tuple(P(x) for x in shape))
        return r
    def content(self, r):
        v = self.get((r, 'content'))
        if v is None: raise Unsupported('region without content %s' % r)
        return v
    def shape(self, r):
        s = self.get((r.args[1] if r.kind == 'app' and r.args[0] == 'soa' else r, 'shape')); n = self.soalen.get(r)
        return s + (P(n),) if n is not None else s
    soalen = {}     # fields of arrays of structures that are arrays themselves: their length
    def row(self, r, i):
        """pointer to row i of a region of two dimensions (rows stored one after the other)"""
        o = App('row', r, *[P(x) for x in i], sort='obj'); self.objcls[o] = '#row'; self.nonnulls.add(o); return Ptr(o)
    # ---------------------------------------------------------------- array reads
    def read(self, arr, idx):
        idx = tuple(P(x) for x in idx)
        if arr.k == 'base':
            if arr.a[1] in ('obj', 'bool'): return App('rd', arr.a[0], *idx, sort=arr.a[1])
            return P(App('rd', arr.a[0], *idx, sort=arr.a[1]))
        if arr.k == 'lam':
            b = arr.a[0]
            return subst(b, dict(zip(AX, idx)))
        if arr.k == 'ite':
            c, x, y = arr.a
            g = self.ctx.simp(c)
            if g is TRUE: return self.read(x, idx)
            if g is FALSE: return self.read(y, idx)
            return Ite(g, self.read(x, idx), self.read(y, idx))
        if arr.k == 'add':
            bs, ix, val = arr.a
            r = self.read(arr.prev, idx)
            return r + self.gather(bs, ix, val, idx)
        if arr.k == 'set':
            bs, ix, val, g = arr.a
            m = self.match(bs, ix, idx)
            if m == 'no': return self.read(arr.prev, idx)
            if m is None: 
                return self.read_setmap(arr, idx)
            cond, sol = m
            cond = self.ctx.simp(And(cond, subst(g, sol)))
            if cond is FALSE: return self.read(arr.prev, idx)
            v = subst(val, sol)
            if cond is TRUE: return v
            p = self.read(arr.prev, idx)
            if isinstance(v, F) or isinstance(p, F):
                v, p = [BAtom(x) if isinstance(x, Atom) else x for x in (v, p)]
                return Or(And(cond, v), And(Not(cond), p))
            if isinstance(v, Poly) and isinstance(p, Poly): return Ite(cond, v, p)
            d = self.decide(cond)
            if d is None: raise Unsupported('object-valued conditional read')
            return v if d else p
        raise Exception(arr.k)
    def read_setmap(self, arr, idx):
        bs, ix, val, g = arr.a
        for c in (self.opts['witness'](self, bs, ix, idx) if self.opts.get('witness') else ()):
            # a proposed iteration that wrote this place: accepted when it is one, and no other one is
            bounds = lambda s: And(*[And(ge0(P(s[v])), ge0(subst(n, s) - 1 - P(s[v]))) for v, n in bs])
            hit = lambda s: And(*[Eq(self.divs(subst(P(a), s)), b) for a, b in zip(ix, idx)])
            if not self.ctx.entails(hit(c)): continue
            w = {v: P(Fresh('w')) for v, n in bs}; mk = self.ctx.mark()
            try:
                self.ctx.assume(bounds(w)); self.ctx.assume(hit(w)); one = self.ctx.entails(And(*[Eq(w[v], c[v]) for v, n in bs]))
            finally: self.ctx.reset(mk)
            if not one: continue
            gg = self.ctx.simp(And(bounds(c), self.divs(subst(g, c))))
            if gg is FALSE: return self.read(arr.prev, idx)
            x = self.divs(subst(val, c))
            if gg is TRUE: return x
            p = self.read(arr.prev, idx)
            if isinstance(x, Poly) and isinstance(p, Poly): return Ite(gg, x, p)
        raise Unsupported('cannot resolve indexed store %s at %s' % (show_any(arr.a[1]), show_any(idx)))
    def divs(self, x):
        """integer divisions whose quotient is known, replaced by it"""
        if isinstance(x, Poly):
            if not any(a.kind == 'app' and a.args[0] == 'fdiv' for a in atoms_of(x)): return x
            r = ZERO
            for mo, c in x.t.items():
                t = P(c)
                for a, e in mo: t = t * (P(self.divs(a)) if e == 1 else P(self.divs(a)) ** e)
                r = r + t
            return r
        if isinstance(x, F): return f_rebuild(x, self.divs)
        if isinstance(x, Atom):
            if x.kind == 'app' and x.args[0] == 'fdiv':
                a, b = self.divs(x.args[1]), self.divs(x.args[2]); q, r = divmod_poly(a, b)
                if q is not None and self.ctx.entails(And(ge0(r), ge0(b - 1 - r))): return q
                return FloorDiv(a, b)
            if x.kind == 'sym': return P(x) if x.sort not in ('obj', 'bool') else x
            return map_args(x, self.divs)
        return x
    def gather(self, bs, ix, val, idx):
        m = self.match(bs, ix, idx)
        if m == 'no': return ZERO
        if m is not None:
            cond, sol = m
            cond = self.ctx.simp(cond)
            return Ind(cond) * subst(val, sol)
        bs2 = []; ren = {}
        for v, n in bs:
            w = Fresh('q'); bs2.append((w, subst(n, ren))); ren[v] = P(w)
        c = ONE
        for a, b in zip(ix, idx): c = c * Ind(Eq(subst(a, ren), b))
        return SumN(bs2, c * subst(val, ren))
    def match(self, bs, ix, idx):
        """solve ix(binders) == idx.  'no' | None | (cond, substitution)"""
        eqs = [P(a) - P(b) for a, b in zip(ix, idx)]
        un = {v: n for v, n in bs}; sol = {}; conds = []
        prog = True
        while prog:
            prog = False
            for i, e in enumerate(eqs):
                if e is None: continue
                if sol: e = subst(e, sol); eqs[i] = e
                fv = [v for v in un if v in e.free]
                if not fv:
                    f = self.ctx.simp(eq0(e))
                    if f is FALSE: return 'no'
                    conds.append(f); eqs[i] = None; prog = True; continue
                done = False
                if len(fv) == 1:
                    s = solve_lin(e, fv[0])
                    if s is None:
                        # c*v + rest with |c|>1 constant or symbolic radix coefficient
                        q = self.radix_one(e, fv[0])
                        if q is not None: s = q
                    if s is not None:
                        self._bind(fv[0], s, un, sol); eqs[i] = None; prog = True; done = True
                if done: continue
                if len(fv) >= 2:
                    for v in fv:
                        n = subst(un[v], sol)
                        if any(w in n.free for w in un): continue
                        c = _lincoef(e, v)
                        if c is None or abs(c) != 1: continue
                        rest = (e - P(v) * c) * T._rec(c)
                        q, r = divmod_poly(rest, n)
                        if q is None or any(w in r.free for w in un): continue
                        # v + r + n*q == 0 with 0 <= -r < n and 0 <= v < n   ==>  v == -r and q == 0
                        if self.ctx.entails(And(ge0(-r), ge0(n - 1 + r))):
                            self._bind(v, -r, un, sol); eqs[i] = subst(q, sol); prog = True
                            break
        if any(e is not None for e in eqs): return None
        if any(v not in sol for v in un): return None
        for v, n in bs:
            s = sol[v]
            c = And(ge0(s), ge0(subst(n, sol) - 1 - s))
            c = self.ctx.simp(c)
            if c is FALSE: return 'no'
            conds.append(c)
        return And(*conds), sol
    def radix_one(self, e, v):
        """e = C*v + rest, C a nonconstant/other coefficient: solve when rest is exactly divisible"""
        c = {}; rest = {}
        for m, k in e.t.items():
            hv = [x for x in m if v in x[0].free]
            if not hv: rest[m] = k; continue
            if len(hv) != 1 or hv[0] != (v, 1): return None
            c[tuple(x for x in m if x[0] is not v)] = k
        C = Poly(c); R = Poly(rest)
        q, r = divmod_poly(R, C)
        if q is None: return None
        if not r.t:
            if self.ctx.entails(Ne(C, 0)): return -q
            return None
        return None
    def _bind(self, v, s, un, sol):
        s = subst(s, sol)
        for k in list(sol): sol[k] = subst(sol[k], {v: s})
        sol[v] = s
        un.pop(v, None)
    # ---------------------------------------------------------------- element access
    def region_index(self, r, off, idx=None):
        """flat offset -> native index tuple of region r"""
        sh = self.shape(r)
        if len(sh) == 1: return (off,)
        try: return self.region_index_(r, off, sh)
        except Unsupported:
            if not self.quiet: raise
            return tuple(P(App('ri%d' % i, r, off, sort='int')) for i in range(len(sh)))
    def region_index_(self, r, off, sh):
        out = []; rest = off
        stack = list(sh)
        # column-major: off = i + h*(j + w*k)
        for n in stack[:-1]:
            q, rr = divmod_poly(rest, n)
            if q is None: raise Unsupported('cannot decompose offset %s by %s' % (show(off), show(n)))
            if not self.ctx.entails(And(ge0(rr), ge0(n - 1 - rr))):
                alt = self.fix_radix(q, rr, n)
                if alt is None:
                    raise Unsupported('cannot decompose offset %s by extent %s' % (show(off), show(n)))
                q, rr = alt
            out.append(rr); rest = q
        out.append(rest)
        return tuple(out)
    def fix_radix(self, q, r, n):
        for d in (1, -1):
            q2 = q - d; r2 = r + n * d
            if self.ctx.entails(And(ge0(r2), ge0(n - 1 - r2))): return q2, r2
        return None
    def elem_bounds(self, r, idx, node):
        sh = self.shape(r); jag = (self.opts.get('jagged') or {}).get(r)
        if jag: sh = jag(idx)
        fs = []
        for x, n in zip(idx, sh): fs += [ge0(x), ge0(n - 1 - x)]
        self.oblige('bounds', And(*fs), 'index %s within extents %s' % (show_any(idx), show_any(sh)), node)
    def load(self, lv, node=None):
        if isinstance(lv, LVar):
            v = self.get(lv.key)
            if v is None:
                if isinstance(lv.key[0], Atom): return self.field(lv.key[0], lv.key[1], lv.t)
                v = self.symbolic(lv.t, Fresh('undef', 'obj')); self.put(lv.key, v)
                # reading an uninitialised scalar: arbitrary value
            return v
        if isinstance(lv, LElem):
            self.elem_bounds(lv.r, lv.idx, node)
            fs = self.soa_fields(lv.t)
            if fs:
                o = self.newobj(norm_type(lv.t)[0], 'elem')
                for f in fs: self.put((o, f['n']), self.load(LElem(self.soa_region(lv.r, f), lv.idx, f['t'])))
                return LObj(o, norm_type(lv.t)[0])
            v = self.read(self.content(lv.r), lv.idx)
            return self.elem_value(v, lv.t)
        if isinstance(lv, LObj): return lv
        return lv
    # arrays of plain structures: one region per field
    def soa_fields(self, t):
        if not self.opts.get('soa') or not t: return None
        b, p, r, c = norm_type(t)
        if p or b not in self.opts['soa']: return None
        return self.prog.recs[b]['fields']
    def soa_region(self, r, f):
        x = App('soa', r, f['n'], sort='obj')
        if x not in self.objcls:
            self.objcls[x] = '#region'; self.nonnulls.add(x); s = sort_of(f['t'])
            if s == 'carray': m = re.match(r'^(.*?)\[(\d+)\]$', norm_type(f['t'])[0]); self.soalen = dict(self.soalen); self.soalen[x] = int(m.group(2)); s = sort_of(m.group(1))
            self.lazy[(x, 'content')] = Base(App('soa_of', r, f['n'], sort='obj'), {'ptr': 'obj'}.get(s, s))
        return x
    def elem_value(self, v, t):
        """array content -> value of C++ type t"""
        s = sort_of(t) if t else None
        if s == 'ptr':
            if isinstance(v, Ptr): return v
            if isinstance(v, Atom):
                if v.kind == 'sym' and v.args[0] == 'null': return NULL
                if v.kind == 'app' and v.args[0] == 'padd': return Ptr(v.args[1], v.args[2])
                b, p, r, c = norm_type(t)
                self.objcls.setdefault(v, b if p == 1 else b + '*' * (p - 1))
                return Ptr(v)
        if s == 'obj' and isinstance(v, Atom):
            b, p, r, c = norm_type(t)
            self.objcls.setdefault(v, b)
            return LObj(v, b)
        if s == 'bool':
            if isinstance(v, Atom): return BAtom(v)
        return v
    def to_content(self, v):
        if isinstance(v, FnVal): v = self.addr_fn(v)
        if isinstance(v, Ptr):
            if v.obj is None: return Sym('null', 'obj')
            if v.off.t: return App('padd', v.obj, v.off, sort='obj')
            return v.obj
        if isinstance(v, LObj): return v.o
        return v
    def store(self, lv, v, node=None):
        if isinstance(lv, LVar): self.put(lv.key, v); return
        if isinstance(lv, LElem):
            self.elem_bounds(lv.r, lv.idx, node)
            fs = self.soa_fields(lv.t)
            if fs:
                for f in fs: self.store(LElem(self.soa_region(lv.r, f), lv.idx, f['t']), self.field(v.o, f['n'], f['t']))
                return
            c = self.content(lv.r)
            self.put((lv.r, 'content'), self.mk_set(c, (), lv.idx, self.to_content(v)))
            return
        if isinstance(lv, LObj):
            self.assign_obj(lv, v, node); return
        raise Unsupported('store to %r' % (lv,))
    def mk_set(self, prev, bs, idx, val, guard=TRUE):
        if not bs and prev.k in ('set',) and not prev.a[0] and prev.a[1] == tuple(idx) and guard is TRUE:
            return self.mk_set(prev.prev, bs, idx, val, guard)
        if not bs and prev.k == 'add' and not prev.a[0] and prev.a[1] == tuple(idx) and guard is TRUE:
            return self.mk_set(prev.prev, bs, idx, val, guard)
        return SetN(prev, bs, idx, val, guard)
    def mk_add(self, prev, bs, idx, val):
        if not val.t: return prev
        # binders not occurring in the index are summed
        keep = []; out = list(bs)
        for v, n in reversed(list(bs)):
            if any(v in i.free for i in idx) or any(v in m.free for w, m in keep):
                keep.insert(0, (v, n))
            else:
                # move inside
                val = Sum1(v, P(n), val)
        if not val.t: return prev
        if not keep and prev.k == 'set' and not prev.a[0] and prev.a[1] == tuple(idx) and prev.a[3] is TRUE:
            return SetN(prev.prev, (), idx, prev.a[2] + val, TRUE)
        if prev.k == 'add' and prev.a[0] == tuple(keep) and prev.a[1] == tuple(idx):
            return self.mk_add(prev.prev, keep, idx, prev.a[2] + val)
        return AddN(prev, keep, idx, val)
    def add_elem(self, lv, v, node=None):
        """lv += v"""
        if isinstance(lv, LElem):
            self.elem_bounds(lv.r, lv.idx, node)
            c = self.content(lv.r)
            self.put((lv.r, 'content'), self.mk_add(c, (), lv.idx, P(v)))
        else: self.store(lv, self.load(lv, node) + P(v), node)
    def set_all(self, r, body, sort='real'):
        self.put((r, 'content'), Lam(body, sort))
    # ---------------------------------------------------------------- values
    def num(self, v):
        if isinstance(v, Poly): return v
        if isinstance(v, F): return Ind(v)
        if isinstance(v, (int, Fraction)): return P(v)
        if isinstance(v, Atom) and v.sort in ('int', 'real'): return P(v)
        raise Unsupported('numeric value expected, got %r' % (v,))
    def boolean(self, v):
        if isinstance(v, F): return v
        if isinstance(v, Poly): return Ne(v, 0)
        if isinstance(v, Ptr): return self.nonnull(v)
        if isinstance(v, bool): return TRUE if v else FALSE
        raise Unsupported('boolean value expected, got %r' % (v,))
    def nonnull(self, p):
        if p.obj is None: return FALSE
        if p.obj.kind == 'sym' and p.obj.args[0] == 'null': return FALSE
        if p.off.t or p.obj in self.created or p.obj in self.nonnulls: return TRUE
        if self.objcls.get(p.obj) == '#region': return TRUE
        return BAtom(App('nonnull', p.obj, sort='bool'))
    nonnulls = None
    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        """rvalue"""
        k = e['k']
        m = getattr(self, 'ev_' + k, None)
        if m is None: raise Unsupported('expression kind %s (%s) at %s' % (k, e.get('what'), self.where(e)))
        return m(e)
    def evr(self, e):
        v = self.ev(e)
        if isinstance(v, (LVar, LElem)): v = self.load(v, e)
        return v
    def lv(self, e):
        v = self.ev(e)
        return v
    def ev_Int(self, e): return P(e['v'])
    def ev_Bool(self, e): return TRUE if e['v'] else FALSE
    def ev_Enum(self, e): return P(e['v'])
    def ev_Str(self, e): return ('str', e['v'])
    def ev_Null(self, e): return NULL
    def ev_ZeroInit(self, e):
        s = sort_of(e['t'])
        return NULL if s == 'ptr' else (FALSE if s == 'bool' else ZERO)
    def ev_Sizeof(self, e): return P(e['v'])
    def ev_Float(self, e):
        src = (e.get('src') or '').rstrip('fFlL')
        try: return P(Fraction(src))
        except Exception: return P(Fraction(e['v']))
    def ev_This(self, e): return Ptr(self.frames[-1].this)
    def ev_Ref(self, e):
        fr = self.frames[-1]
        if e['kind'] == 'global':
            return self.global_ref(e)
        b = fr.env.get(e['id'])
        if b is None:
            raise Unsupported('unbound variable %s at %s' % (e['name'], self.where(e)))
        return b
    def global_ref(self, e):
        qn = e['qn']
        h = self.opts.get('globals', {}).get(qn)
        if h is not None: return h(self, e)
        g = self.prog.globals.get(qn)
        if g is not None and g['t'].startswith('const ') and g['init'] is not None and sort_of(g['t']) in ('int', 'real', 'bool'):
            return self.evr(g['init'])
        s = sort_of(e['vt'])
        b, p, r, c = norm_type(e['vt'])
        o = Sym('glob:' + qn, 'obj')
        if s == 'obj':
            self.objcls.setdefault(o, b); return LObj(o, b)
        return LVar((o, 'val'), e['vt'])
    def ev_FuncRef(self, e): return FnVal(e['qn'], e['key'])
    def ev_Mem(self, e):
        b = self.ev(e['b'])
        t = e['vt']
        if self.opts.get('soa'):
            l = b
            if e['arrow']:
                if isinstance(l, (LVar, LElem)): l = self.load(l, e)
                if isinstance(l, Ptr) and self.objcls.get(l.obj) == '#region': l = LElem(l.obj, self.region_index(l.obj, l.off), norm_type(e['b']['t'])[0])
            if isinstance(l, LElem):
                f = [f for f in self.soa_fields(l.t) or () if f['n'] == e['f']]
                if f:
                    self.elem_bounds(l.r, l.idx, e); q = self.soa_region(l.r, f[0])
                    return self.row(q, l.idx) if q in self.soalen else LElem(q, l.idx, t)
        o = self.to_obj(b, e['arrow'], e)
        s = sort_of(t)
        if norm_type(t)[2] or s == 'obj' or s == 'carray':
            v = self.get((o, e['f']))
            if v is None: v = self.field(o, e['f'], t if s != 'carray' else None)
            return v
        return LVar((o, e['f']), t)
    def to_obj(self, b, arrow, e):
        if isinstance(b, (LVar, LElem)): b = self.load(b, e)
        if isinstance(b, LObj): return b.o
        if isinstance(b, Ptr):
            if b.obj is None: 
                raise Unsupported('null dereference at %s' % self.where(e))
            if self.objcls.get(b.obj) == '#region' and e is not None and 'b' in e:
                v = self.load(LElem(b.obj, self.region_index(b.obj, b.off), norm_type(e['b']['t'])[0]), e)
                if isinstance(v, LObj): return v.o
            if b.off.t: 
                raise Unsupported('object pointer with offset at %s' % self.where(e))
            if not (b.obj in self.created or b.obj in self.nonnulls) and b.obj.kind != 'sym':
                pass
            return b.obj
        raise Unsupported('object expected, got %r at %s' % (b, self.where(e)))
    def ev_Un(self, e):
        op = e['op']
        if op in ('++', '--'):
            l = self.lv(e['e']); old = self.load(l, e)
            d = 1 if op == '++' else -1
            if isinstance(old, Ptr): new = Ptr(old.obj, old.off + d)
            else: new = self.num(old) + d
            self.store(l, new, e)
            return old if e['post'] else l
        if op == '&':
            l = self.lv(e['e'])
            if isinstance(l, LObj): return Ptr(l.o)
            if isinstance(l, LElem):
                return self.addr_elem(l)
            if isinstance(l, LVar): return self.addr_var(l)
            if isinstance(l, FnVal): return self.addr_fn(l)
            raise Unsupported('address of %r' % (l,))
        if op == '*':
            p = self.evr(e['e'])
            return self.deref(p, e)
        v = self.evr(e['e'])
        if op == '-': return -self.num(v)
        if op == '+': return v
        if op == '!': return Not(self.boolean(v))
        raise Unsupported('unary ' + op)
    def addr_elem(self, l):
        sh = self.shape(l.r)
        off = ZERO; mul = ONE
        for x, n in zip(l.idx, sh): off = off + x * mul; mul = mul * n
        return Ptr(l.r, off)
    def addr_fn(self, l):
        o = Sym('function:' + l.qn, 'obj'); self.objcls.setdefault(o, '#function'); self.nonnulls.add(o); return Ptr(o)
    def addr_var(self, l):
        o = App('addr', str(l.key), sort='obj')
        self.lazy[(o, '#lvar')] = l
        self.objcls[o] = '#lvar'; self.nonnulls.add(o)
        return Ptr(o)
    def deref(self, p, e):
        if not isinstance(p, Ptr):
            if isinstance(p, LObj):
                return self.call_model(p, '*', [], e)
            raise Unsupported('deref of %r' % (p,))
        if p.obj is None:
            if sort_of(e['t']) == 'obj':       # a reference bound to *NULL: any access through it has no value
                o = Fresh('null', 'obj'); self.objcls[o] = '#null'; return LObj(o, '#null')
            raise Unsupported('null dereference at %s' % self.where(e))
        c = self.objcls.get(p.obj)
        if c == '#region':
            return LElem(p.obj, self.region_index(p.obj, p.off), e['t'])
        if c == '#row': return LElem(p.obj.args[1], tuple(P(x) for x in p.obj.args[2:]) + (p.off,), e['t'])
        if c == '#lvar': return self.lazy[(p.obj, '#lvar')]
        if sort_of(e['t']) == 'obj':
            if p.off.t: raise Unsupported('deref object+off')
            nn = self.nonnull(p)
            if nn is not TRUE and self.opts.get('check_null', False):
                self.oblige('null', nn, 'dereferenced pointer is not null', e)
            return LObj(p.obj, norm_type(e['t'])[0])
        if sort_of(e['t']) == 'ptr':
            # pointer to pointer: region of pointers lazily
            return self.deref_raw(p, e)
        return self.deref_raw(p, e)
    def deref_raw(self, p, e):
        o = p.obj
        if self.get((o, 'content')) is None:
            s = sort_of(e['t'])
            self.lazy[(o, 'content')] = Base(o, 'obj' if s == 'ptr' else s)
            n = App('len', o, sort='int'); self.lazy[(o, 'shape')] = (P(n),)
            self.objcls[o] = '#region'
        return LElem(o, self.region_index(o, p.off), e['t'])
    def ev_Sub(self, e):
        b = self.evr(e['b']); i = self.num(self.evr(e['i']))
        if isinstance(b, Ptr): return self.deref(Ptr(b.obj, b.off + i), e)
        raise Unsupported('subscript of %r' % (b,))
    def ev_Assign(self, e):
        r = self.evr(e['r']); l = self.lv(e['l'])
        if isinstance(l, LObj): self.assign_obj(l, r, e); return l
        s = sort_of(e['l']['t'])
        r = self.coerce(r, s)
        self.store(l, r, e); return l
    def coerce(self, v, s):
        if s == 'bool': return self.boolean(v)
        if s in ('int', 'real'): return self.num(v)
        return v
    def ev_CAssign(self, e):
        l = self.lv(e['l']); r = self.evr(e['r']); op = e['op']
        if sort_of(e['l']['t']) == 'int' and op == '/' and 'double' in e.get('ct', ''): raise Unsupported('int /= double')
        if op in ('+', '-') and isinstance(l, LElem) and sort_of(e['l']['t']) in ('int', 'real'):
            r = self.num(r)
            self.add_elem(l, r if op == '+' else -r, e); return l
        old = self.load(l, e)
        self.store(l, self.binop(op, old, r, e['l']['t'], e), e)
        return l
    def ev_Bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['l']); return self.ev(e['r'])
        if op in ('&&', '||'):
            a = self.boolean(self.evr(e['l']))
            d = self.decide_sc(a)
            if op == '&&':
                if d is False: return FALSE
                if d is True: return self.boolean(self.evr(e['r']))
                n = self.ctx.mark(); self.ctx.assume(a); b = self.boolean(self.evr(e['r'])); self.ctx.reset(n)
                return And(a, b)
            if d is True: return TRUE
            if d is False: return self.boolean(self.evr(e['r']))
            n = self.ctx.mark(); self.ctx.assume(Not(a)); b = self.boolean(self.evr(e['r'])); self.ctx.reset(n)
            return Or(a, b)
        l = self.evr(e['l']); r = self.evr(e['r'])
        return self.binop(op, l, r, e['t'], e)
    def decide_sc(self, a):
        if a is TRUE: return True
        if a is FALSE: return False
        if self.ctx.entails(a): return True
        if self.ctx.entails(Not(a)): return False
        return None
    def binop(self, op, l, r, t, e):
        if isinstance(l, Ptr) or isinstance(r, Ptr):
            if op in ('==', '!='):
                f = self.ptr_eq(l, r); return f if op == '==' else Not(f)
            if op == '+':
                if isinstance(l, Ptr): return Ptr(l.obj, l.off + self.num(r))
                return Ptr(r.obj, r.off + self.num(l))
            if op == '-':
                if isinstance(r, Ptr):
                    if l.obj is r.obj: return l.off - r.off
                    raise Unsupported('pointer difference')
                return Ptr(l.obj, l.off - self.num(r))
            if op in ('<', '<=', '>', '>=') and isinstance(l, Ptr) and isinstance(r, Ptr) and l.obj is r.obj:
                return self.binop(op, l.off, r.off, t, e)
            raise Unsupported('pointer op ' + op)
        if isinstance(l, (LObj,)) or isinstance(r, (LObj,)):
            raise Unsupported('object binop %s at %s' % (op, self.where(e)))
        if op in ('==', '!=') and (isinstance(l, F) or isinstance(r, F)):
            a, b = self.boolean(l), self.boolean(r)
            f = Or(And(a, b), And(Not(a), Not(b)))
            return f if op == '==' else Not(f)
        if op in ('&', '|', '^') and sort_of(e['t']) == 'bool':
            a, b = self.boolean(l), self.boolean(r)
            if op == '&': return And(a, b)
            if op == '|': return Or(a, b)
        if op == '|' or op == '&':
            a, b = self.num(l), self.num(r)
            ca, cb = a.const(), b.const()
            if isinstance(l, F) and isinstance(r, F):
                return Ind(Or(l, r) if op == '|' else And(l, r))
            if ca is not None and cb is not None: return P(int(ca) | int(cb) if op == '|' else int(ca) & int(cb))
            return P(App('bit' + op, a, b, sort='int'))
        a, b = self.num(l), self.num(r)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '==': return Eq(a, b)
        if op == '!=': return Ne(a, b)
        if op == '<': return Lt(a, b)
        if op == '<=': return Le(a, b)
        if op == '>': return Gt(a, b)
        if op == '>=': return Ge(a, b)
        if op == '/':
            if sort_of(t) == 'int' : return self.int_div(a, b, e)
            return self.real_div(a, b, e)
        if op == '%': return a - b * self.int_div(a, b, e)
        if op == '<<':
            if b.const() is not None: return a * (2 ** int(b.const()))
        raise Unsupported('binary op %s' % op)
    def real_div(self, a, b, e):
        if b.const() == 0: raise Unsupported('division by zero')
        if b.const() is None and not self.opts.get('ieee_division'): self.oblige('div0', Ne(b, 0), 'real divisor nonzero', e)
        return a * Inv(b)
    def int_div(self, a, b, e):
        self.oblige('div0', Ne(b, 0), 'divisor nonzero', e)
        if self.ctx.entails(And(ge0(a), gt0(b))):
            q, r = divmod_poly(a, b)
            if q is not None and self.ctx.entails(And(ge0(r), ge0(b - 1 - r))): return q
            return FloorDiv(a, b)
        return P(App('tdiv', a, b, sort='int'))
    def ptr_eq(self, l, r):
        if isinstance(l, Poly) and l.const() == 0: l = NULL
        if isinstance(r, Poly) and r.const() == 0: r = NULL
        if l == r: return TRUE
        if l.obj is None: return Not(self.nonnull(r))
        if r.obj is None: return Not(self.nonnull(l))
        if l.obj is r.obj: return Eq(l.off, r.off)
        if l.obj in self.created or r.obj in self.created: return FALSE
        return BAtom(App('same', *sorted([l.obj, r.obj], key=lambda x: x.uid), sort='bool'))
    def ev_Cond(self, e):
        c = self.boolean(self.evr(e['c']))
        if is_abort(e['b']) or is_abort(e['a']):
            # assert(c)
            f = c if is_abort(e['b']) else Not(c)
            self.on_assert(f, e)
            return VOID
        d = self.decide(c)
        if d is True: return self.ev(e['a'])
        if d is False: return self.ev(e['b'])
        snap = self.st.copy(); n = self.ctx.mark()
        self.ctx.assume(c); a = self.evr(e['a']); self.ctx.reset(n); sa = self.st
        self.st = snap
        self.ctx.assume(Not(c)); b = self.evr(e['b']); self.ctx.reset(n)
        if sa.h != self.st.h: self.st = self.merge(c, sa, self.st)
        return self.ite(c, a, b)
    def on_assert(self, f, e):
        if self.opts.get('assume_asserts'):
            self.ctx.assume(f); return
        self.oblige('assert', f, 'assert() in the code holds', e)
    def ite(self, c, a, b):
        if a is b or a == b: return a
        if isinstance(a, (Poly,)) or isinstance(b, Poly): return Ite(c, self.num(a), self.num(b))
        if isinstance(a, F): return Or(And(c, a), And(Not(c), self.boolean(b)))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj: return Ptr(a.obj, Ite(c, a.off, b.off))
            if a.obj in self.created and b.obj is None or a.obj is None:
                pass
            o = App('iteobj', c, self.to_content(a), self.to_content(b), sort='obj')
            self.objcls.setdefault(o, self.objcls.get(a.obj) or self.objcls.get(b.obj))
            return Ptr(o)
        if isinstance(a, Arr) and isinstance(b, Arr): return self.merge_arr(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and isinstance(a[0], Poly):
            return tuple(Ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, LObj) and isinstance(b, LObj):
            o = App('iteobj', c, a.o, b.o, sort='obj'); self.objcls.setdefault(o, a.cls); return LObj(o, a.cls)
        h = getattr(self, 'ite_hook', None)
        if h:
            r = h(c, a, b)
            if r is not None: return r
        raise Unsupported('merge of %r and %r' % (a, b))
    def ev_Cast(self, e):
        ck = e['ck']; v = self.ev(e['e'])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'LValueToRValue', 'BitCast', 'Dynamic', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'LValueBitCast'):
            return v
        if isinstance(v, (LVar, LElem)): v = self.load(v, e)
        if ck in ('IntegralToFloating', 'FloatingCast'): return self.num(v)
        if ck == 'IntegralCast':
            return self.num(v) if not isinstance(v, Ptr) else v
        if ck == 'FloatingToIntegral': return self.trunc(self.num(v))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return self.boolean(v)
        if ck == 'NullToPointer': return NULL
        if ck == 'ToVoid': return VOID
        if ck in ('MemberPointerToBoolean',): return TRUE
        raise Unsupported('cast %s at %s' % (ck, self.where(e)))
    def trunc(self, v):
        c = v.const()
        if c is not None: return P(int(c))
        if v.is_int(): return v
        return P(App('trunc', v, sort='int'))
    def ev_StmtExpr(self, e): raise Unsupported('statement expression')
    def ev_Lambda(self, e): return LamVal(e, self.frames[-1])
    def ev_InitList(self, e):
        if len(e['args']) == 1 and sort_of(e['t']) != 'obj': return self.evr(e['args'][0])
        if len(e['args']) == 0 and sort_of(e['t']) in ('int', 'real', 'bool', 'ptr'): return self.ev_ZeroInit(e)
        b = norm_type(e['t'])[0]
        r = self.prog.recs.get(b)
        if r is not None:
            o = self.newobj(b, 'agg')
            for f, a in zip(r['fields'], e['args']):
                v = self.ev(a)
                if sort_of(f['t']) == 'obj' and not norm_type(f['t'])[2]:
                    fo = self.field_obj(o, f)
                    self.assign_obj(fo, v, e)
                else:
                    if isinstance(v, (LVar, LElem)) and not norm_type(f['t'])[2]: v = self.load(v, e)
                    self.put((o, f['n']), self.coerce(v, sort_of(f['t'])))
            return LObj(o, b)
        return ('list', [self.ev(a) for a in e['args']])
    def field_obj(self, o, f):
        b = norm_type(f['t'])[0]
        n = self.newobj(b, f['n'])
        self.construct(n, b, [], None)
        l = LObj(n, b); self.put((o, f['n']), l)
        return l
    def str_val(self, v):
        if isinstance(v, tuple) and v[0] == 'str': return str_code(v[1])
        if isinstance(v, (LVar, LElem)): v = self.load(v)
        if isinstance(v, tuple) and v[0] == 'str': return str_code(v[1])
        if isinstance(v, Poly): return v
        raise Unsupported('string value expected, got %r' % (v,))
    def str_cat(self, a, b):
        a, b = self.str_val(a), self.str_val(b); x, y = code_str(a), code_str(b)
        if x is not None and y is not None: return str_code(x + y)
        if x == '': return b
        if y == '': return a
        def parts(p):
            t = P(p).atom()
            return list(t.args[1:]) if t is not None and t.kind == 'app' and t.args[0] == 'strcat' else [p]
        l = parts(a); r = parts(b); u, v = code_str(l[-1]), code_str(r[0])
        if u is not None and v is not None: l[-1] = str_code(u + v); r = r[1:]
        return P(App('strcat', *(l + r), sort='int'))
    def str_less(self, a, b):
        a, b = self.str_val(a), self.str_val(b); x, y = code_str(a), code_str(b)
        if x is not None and y is not None: return TRUE if x < y else FALSE
        if x or y: raise Unsupported('ordering against a literal string')
        return ge0(b - a - 1)
    def ev_Ctor(self, e):
        cls = e['cls']
        if is_str(cls):
            a = [self.ev(x) for x in e['args'] if not (x['k'] == 'Ctor' and x['cls'].startswith('std::allocator'))]
            if not a: return str_code('')
            if len(a) == 1: return self.str_val(a[0])
            raise Unsupported('string constructor at %s' % self.where(e))
        if e['copy'] and len(e['args']) == 1:
            a = self.ev(e['args'][0])
            if isinstance(a, (LVar, LElem)): a = self.load(a, e)
            if isinstance(a, LObj) and a.o in self.temps: return a
            o = self.newobj(cls, 'copy')
            self.copy_obj(o, a, cls, e)
            self.temps.add(o)
            return LObj(o, cls)
        o = self.newobj(cls, 'tmp')
        args = self.eval_args(e['args'], e['sig'])
        self.construct(o, cls, args, e)
        self.temps.add(o)
        return LObj(o, cls)
    temps = None
    def construct(self, o, cls, args, e):
        self.objcls[o] = cls
        n, ta = tmpl(cls)
        if n in CTORS and not (e is not None and e['key'] in self.contracts):
            CTORS[n](self, o, args, e); return
        # user class
        key = e['key'] if e is not None else '%s::%s()' % (cls, n)
        if key in self.contracts: self.contracts[key](self, LObj(o, cls), args, e); return
        f = self.prog.funcs.get(key)
        rec = self.prog.recs.get(cls)
        if rec is None: raise Unsupported('construct %s (no model)' % cls)
        if f is None:
            self.default_init(o, rec, {})
            return
        self.call_ctor(f, o, args)
    def default_init(self, o, rec, inited):
        for b in rec['bases']:
            rb = self.prog.recs.get(b)
            if rb is not None: self.default_init(o, rb, inited)
        for fd in rec['fields']:
            if fd['n'] in inited: continue
            if fd['init'] is not None: self.init_field(o, fd, self.ev(fd['init']))
            elif sort_of(fd['t']) == 'obj' and not norm_type(fd['t'])[2]:
                b = norm_type(fd['t'])[0]
                n = self.newobj(b, fd['n'])
                try: self.construct(n, b, [], None)
                except Unsupported: pass
                self.put((o, fd['n']), LObj(n, b))
    def implicit_ctor(self, o, cls):
        """constructor that the compiler generates: bases, then members"""
        rec = self.prog.recs.get(cls)
        if rec is None: raise Unsupported('constructor of %s' % cls)
        for b in rec['bases']:
            g = self.prog.funcs.get('%s::%s()' % (b, b.split('::')[-1]))
            if g is not None: self.call_ctor(g, o, [])
            else: self.implicit_ctor(o, b)
        self.default_init(o, dict(rec, bases=[]), {})
    def init_field(self, o, fd, v):
        t = fd['t']
        if norm_type(t)[2]: self.put((o, fd['n']), v); return
        if sort_of(t) == 'obj':
            if isinstance(v, LObj) and v.o in self.temps: self.put((o, fd['n']), v)
            else:
                b = norm_type(t)[0]; n = self.newobj(b, fd['n']); self.copy_obj(n, v, b, None); self.put((o, fd['n']), LObj(n, b))
            return
        if isinstance(v, (LVar, LElem)): v = self.load(v)
        self.put((o, fd['n']), self.coerce(v, sort_of(t)))
    def call_ctor(self, f, o, args):
        fr = Frame(f, o); 
        self.bind_params(fr, f, args)
        self.frames.append(fr)
        try:
            rec = self.prog.recs.get(f['cls'])
            inited = set()
            for i in f.get('inits', []):
                if 'base' in i:
                    b = i['base']; e = i['e']
                    if e is not None and e['k'] == 'Ctor':
                        g = self.prog.funcs.get(e['key'])
                        if e['key'] in self.contracts: self.contracts[e['key']](self, LObj(o, b), self.eval_args(e['args'], e['sig']), e)
                        elif g is not None: self.call_ctor(g, o, self.eval_args(e['args'], e['sig']))
                        else:
                            h = self.opts.get('base_ctor', {}).get(b)
                            if h: h(self, o, self.eval_args(e['args'], e['sig']), e)
                            elif self.opts.get('implicit') and not e['args']: self.implicit_ctor(o, b)
                elif 'f' in i:
                    fd = [x for x in rec['fields'] if x['n'] == i['f']][0]
                    inited.add(fd['n'])
                    if i['e'] is None: continue
                    if i['e']['k'] == 'Ctor' and is_str(fd['t']) and not norm_type(fd['t'])[2] and not i['e']['args']: self.put((o, fd['n']), str_code('')); continue
                    if i['e']['k'] == 'Ctor' and not i['e']['copy'] and not norm_type(fd['t'])[2]:
                        b = norm_type(fd['t'])[0]
                        n = self.newobj(b, fd['n'])
                        self.construct(n, b, self.eval_args(i['e']['args'], i['e']['sig']), i['e'])
                        self.put((o, fd['n']), LObj(n, b))
                    else: self.init_field(o, fd, self.ev(i['e']))
                elif 'deleg' in i:
                    e = i['e']; g = self.prog.funcs.get(e['key'])
                    self.call_ctor(g, o, self.eval_args(e['args'], e['sig']))
            self.inlined.add(f['key'])
            self.run_body(f)
        finally: self.frames.pop()
    def assign_obj(self, l, v, e):
        n, ta = tmpl(l.cls)
        if (n, '=') in MODELS: return MODELS[(n, '=')](self, l, [v], e)
        self.copy_obj(l.o, v, l.cls, e)
    def copy_obj(self, o, src, cls, e):
        """copy-construct o from src"""
        self.objcls[o] = cls
        n, ta = tmpl(cls)
        if ('copy', n) in MODELS: MODELS[('copy', n)](self, o, src, e); return
        rec = self.prog.recs.get(cls)
        if rec is None: raise Unsupported('copy of %s' % cls)
        self.copy_fields(o, src.o, rec, e)
    def copy_fields(self, o, s, rec, e):
        for b in rec['bases']:
            rb = self.prog.recs.get(b)
            if rb: self.copy_fields(o, s, rb, e)
        for f in rec['fields']:
            v = self.get((s, f['n']))
            if v is None: v = self.field(s, f['n'], f['t'])
            if isinstance(v, LObj) and not norm_type(f['t'])[2]:
                old = self.get((o, f['n']))
                if old is not None: self.assign_obj(old, v, e)
                else:
                    nb = self.newobj(v.cls, f['n']); self.copy_obj(nb, v, v.cls, e); self.put((o, f['n']), LObj(nb, v.cls))
            else: self.put((o, f['n']), v)
    def ev_New(self, e):
        at = e['at']
        if 'n' in e:
            n = self.num(self.evr(e['n']))
            s = sort_of(at)
            r = self.newregion((n,), Base(Fresh('undefarr', 'obj'), {'ptr': 'obj'}.get(s, s)), 'heap')
            return Ptr(r)
        i = e['init']
        if is_str(at) and (i is None or not i.get('args')): return self.addr_var(self.heap_var(str_code(''), at))
        h = (self.opts.get('new') or {}).get(norm_type(at)[0])
        if h and i is not None and i['k'] == 'Ctor' and (not i['copy'] or self.opts.get('new_copies')):
            r = h(self, self.eval_args(i['args'], i['sig']), e)
            if r is not None: return r
        o = self.newobj(norm_type(at)[0], 'heap')
        if i is not None and i['k'] == 'Ctor':
            if i['copy'] and len(i['args']) == 1:
                self.copy_obj(o, self.evr(i['args'][0]), norm_type(at)[0], e)
            else:
                self.construct(o, norm_type(at)[0], self.eval_args(i['args'], i['sig']), i)
        elif i is not None:
            v = self.ev(i)
            if isinstance(v, LObj): self.copy_obj(o, v, norm_type(at)[0], e)
            else: raise Unsupported('new init')
        elif sort_of(at) == 'obj': self.construct(o, norm_type(at)[0], [], None)
        return Ptr(o)
    def heap_var(self, v, t):
        key = ('v', 'heap', Fresh('heap', 'obj')); self.put(key, v); return LVar(key, t)
    def ev_Delete(self, e):
        p = self.evr(e['e'])
        h = self.opts.get('on_delete')
        if h: h(self, p, e)
        return VOID
    def ev_Throw(self, e): raise Unsupported('throw')
    # ---------------------------------------------------------------- calls
    def eval_args(self, args, sig):
        out = []
        for i, a in enumerate(args):
            v = self.ev(a)
            t = sig[i] if sig and i < len(sig) else None
            if t is None:
                if isinstance(v, (LVar, LElem)): v = self.load(v, a)
            else:
                b, p, ref, c = norm_type(t)
                if not ref or (c and sort_of(t) in ('int', 'real', 'bool', 'ptr')):
                    if isinstance(v, (LVar, LElem)): v = self.load(v, a)
                    if sort_of(t) in ('int', 'real', 'bool') and not isinstance(v, (LObj, tuple)): v = self.coerce(v, sort_of(t))
            out.append(v)
        return out
    def ev_Call(self, e):
        qn = e.get('qn')
        if qn is None:
            fv = self.evr(e['fn'])
            h = self.opts.get('fnptr')
            if h:
                r = h(self, fv, [self.ev(a) for a in e['args']], e)
                if r is not None: return r
            if isinstance(fv, FnVal):
                g = self.prog.funcs.get(fv.key)
                if g is not None: return self.inline(g, None, [self.ev(a) for a in e['args']])
            raise Unsupported('indirect call at %s' % self.where(e))
        if e['key'] in self.contracts:
            self.called.add(e['key'])
            return self.contracts[e['key']](self, None, self.eval_args(e['args'], e['sig']), e)
        if qn in CONTRACTS and self.opts.get('modular', True):
            r = CONTRACTS[qn](self, self.eval_args(e['args'], e['sig']), e)
            if r is not None:
                if not self.quiet: self.called.add(e['key'])
                return r
        base = re.sub(r'<.*$', '', qn)
        if qn in ('__assert_fail',) or base in ('mfem::mfem_error',):
            return self.on_abort(e)
        if qn in FUNCS or base in FUNCS:
            self.modelled.add(base)
            return (FUNCS.get(qn) or FUNCS[base])(self, self.eval_args(e['args'], e['sig']), e)
        f = self.prog.funcs.get(e['key'])
        if f is not None: return self.inline(f, None, self.eval_args(e['args'], [p['t'] for p in f['params']]))
        raise Unsupported('call to %s at %s' % (e['key'], self.where(e)))
    def on_abort(self, e):
        if self.opts.get('assume_asserts'):
            raise Infeasible()
        self.oblige('abort', FALSE, 'the error exit is unreachable', e)
        raise Infeasible()
    def ev_MCall(self, e):
        key = e['key']
        o = self.ev(e['obj'])
        if isinstance(o, (LVar, LElem)): o = self.load(o, e)
        if isinstance(o, Ptr):
            if o.obj is None: self.oblige('null', FALSE, 'object of the call is not null', e); raise Unsupported('method on null at %s' % self.where(e))
            if self.objcls.get(o.obj) == '#lvar' and is_str(e['objt'].rstrip(' *')): return self.value_method(self.load(self.lazy[(o.obj, '#lvar')], e), e)
            if self.opts.get('check_null'):
                nn = self.nonnull(o)
                if nn is not TRUE: self.oblige('null', nn, 'method receiver is not null', e)
            b = norm_type(e['objt'])[0]
            self.objcls.setdefault(o.obj, b)
            o = LObj(o.obj, self.objcls[o.obj])
        if not isinstance(o, LObj): return self.value_method(o, e)
        if key in self.contracts:
            self.called.add(key)
            return self.contracts[key](self, o, self.eval_args(e['args'], e['sig']), e)
        qn = e['cls'] + '::' + e['m']
        if qn in CONTRACTS and self.opts.get('modular', True):
            r = CONTRACTS[qn](self, [o] + self.eval_args(e['args'], e['sig']), e)
            if r is not None:
                if not self.quiet: self.called.add(key)
                return r
        # dynamic dispatch for repository classes
        f = self.prog.funcs.get(key)
        dyn = self.objcls.get(o.o)
        if e['virt'] and not e.get('qual'):
            if dyn and dyn != e['cls'] and dyn in self.prog.recs:
                g = self.lookup_virtual(dyn, key)
                if g is not None: f = g
                if g is not None and g['key'] in self.contracts:
                    self.called.add(g['key'])
                    return self.contracts[g['key']](self, o, self.eval_args(e['args'], e['sig']), e)
        for c in (dyn, e['cls']):
            if c is None: continue
            n, ta = tmpl(c)
            if (n, e['m']) in MODELS:
                self.modelled.add(n + '::' + e['m'])
                return MODELS[(n, e['m'])](self, o, self.eval_args(e['args'], e['sig']), e)
        if f is not None:
            if e['virt'] and not e.get('qual') and dyn not in self.exact and self.opts.get('virtual') == 'strict' and o.o is not self.frames[-1].this:
                raise Unsupported('virtual call %s without contract' % key)
            return self.inline(f, o.o, self.eval_args(e['args'], [p['t'] for p in f['params']]))
        h = self.opts.get('method')
        if h:
            r = h(self, o, e['m'], self.eval_args(e['args'], e['sig']), e)
            if r is not None: return r
        raise Unsupported('method %s on %s at %s' % (key, dyn, self.where(e)))
    exact = frozenset()
    def value_method(self, o, e):
        if is_str(e['cls']) or is_str(e['objt']):
            m = e['m']
            if m == 'c_str' or m == 'data': return o
            if m == 'empty': return Eq(self.str_val(o), str_code(''))
            if m in ('size', 'length'): return P(App('strlen', self.str_val(o), sort='int'))
            if m == 'compare' and len(e['args']) == 1:
                w = self.ev(e['args'][0]); return Ind(self.str_less(w, o)) - Ind(self.str_less(o, w))
        h = self.opts.get('value_method')
        if h:
            r = h(self, o, e['m'], self.eval_args(e['args'], e['sig']), e)
            if r is not None: return r
        raise Unsupported('method %s on value %r' % (e['m'], o))
    def lookup_virtual(self, dyn, key):
        m = re.match(r'^.*?::([~\w]+)(\(.*)$', _strip_cls(key))
        tail = _tail(key)
        c = dyn; seen = [dyn]
        while seen:
            c = seen.pop(0)
            f = self.prog.funcs.get(c + '::' + tail)
            if f is not None: return f
            seen += self.prog.bases(c)
        return None
    def call_model(self, o, m, args, e):
        n, ta = tmpl(self.objcls.get(o.o) or o.cls)
        if (n, m) not in MODELS:
            n, ta = tmpl(o.cls)
        if (n, m) in MODELS: 
            self.modelled.add(n + '::' + m)
            return MODELS[(n, m)](self, o, args, e)
        raise Unsupported('model %s::%s at %s' % (n, m, self.where(e)))
    def ev_OpCall(self, e):
        op = e['op']; args = e['args']
        key = e.get('key')
        if key in self.contracts:
            self.called.add(key)
            av = self.eval_args(args, ([None] if e['method'] else []) + e['sig'])
            if e['method']: return self.contracts[key](self, av[0], av[1:], e)
            return self.contracts[key](self, None, av, e)
        if op == '<<' and 'stream' in (e.get('t') or e.get('vt') or ''): return VOID      # text of a message; what it prints has no effect on the program
        if e.get('method'):
            o = self.ev(args[0])
            if isinstance(o, (LVar, LElem)): o = self.load(o, e)
            if isinstance(o, LamVal): return self.call_lambda(o, [self.ev(a) for a in args[1:]])
            if isinstance(o, Ptr): o = LObj(o.obj, self.objcls[o.obj])
            if is_str(e['cls']):
                l = self.ev(args[0]); v = self.str_val(self.ev(args[1]))
                if op == '=': self.store(l, v, e); return l
                if op == '+=': self.store(l, self.str_cat(o, v), e); return l
            if not isinstance(o, LObj):
                r = self.opts.get('value_op')
                if r:
                    x = r(self, o, op, self.eval_args(args[1:], e['sig']), e)
                    if x is not None: return x
                raise Unsupported('operator %s on %r at %s' % (op, o, self.where(e)))
            f = self.prog.funcs.get(key)
            dyn = self.objcls.get(o.o) or o.cls
            for c in (dyn, e['cls']):
                n, ta = tmpl(c)
                if (n, op) in MODELS:
                    self.modelled.add(n + '::' + op)
                    return MODELS[(n, op)](self, o, self.eval_args(args[1:], e['sig']), e)
            if f is not None: return self.inline(f, o.o, self.eval_args(args[1:], e['sig']))
            if op == '=' and dyn in self.prog.recs:
                v = self.evr(args[1]); self.copy_fields(o.o, v.o, self.prog.recs[dyn], e); return o
            raise Unsupported('operator %s on %s at %s' % (op, dyn, self.where(e)))
        av = self.eval_args(args, e.get('sig'))
        f = self.prog.funcs.get(key)
        if f is not None: return self.inline(f, None, av)
        if e.get('sig') and any(is_str(t) for t in e['sig']) and op in ('==', '!=', '+', '<', '>', '<=', '>='):
            if op == '+': return self.str_cat(av[0], av[1])
            if op == '<': return self.str_less(av[0], av[1])
            if op == '>': return self.str_less(av[1], av[0])
            if op == '<=': return Not(self.str_less(av[1], av[0]))
            if op == '>=': return Not(self.str_less(av[0], av[1]))
            q = Eq(self.str_val(av[0]), self.str_val(av[1]))
            return q if op == '==' else Not(q)
        base = re.sub(r'<.*$', '', e['qn']) if e['op'] not in ('<', '<<', '<=') else e['qn']
        fn = FUNCS.get(e['qn']) or FUNCS.get('operator' + op)
        if fn: return fn(self, av, e)
        raise Unsupported('operator call %s at %s' % (key, self.where(e)))
    def call_lambda(self, lam, args):
        n = lam.node
        fr = Frame(lam.frame.fn, lam.frame.this); fr.env = dict(lam.frame.env)
        for p, a in zip(n['params'], args): self.bind_var(fr, p, a)
        self.frames.append(fr)
        try: return self.run_body({'body': n['body'], 'ret': '?', 'qn': 'lambda', 'file': fr.fn['file']})
        finally: self.frames.pop()
    def bind_params(self, fr, f, args):
        for p, a in zip(f['params'], args): self.bind_var(fr, p, a)
    def bind_var(self, fr, p, a):
        b, ptr, ref, c = norm_type(p['t'])
        s = sort_of(p['t'])
        if ref:
            if isinstance(a, (LVar, LElem, LObj)): fr.env[p['id']] = a; return
            key = ('v', self.nframe(), p['id']); self.put(key, a); fr.env[p['id']] = LVar(key, p['t']); return
        if s == 'obj':
            if isinstance(a, LObj):
                # by value: copy unless temporary
                if a.o in self.temps: fr.env[p['id']] = a
                else:
                    o = self.newobj(b, p['name']); self.copy_obj(o, a, b, None); fr.env[p['id']] = LObj(o, b)
                return
            if isinstance(a, tuple): fr.env[p['id']] = a; return
        if isinstance(a, (LVar, LElem)): a = self.load(a)
        key = ('v', self.nframe(), p['id'])
        self.put(key, self.coerce(a, s)); fr.env[p['id']] = LVar(key, p['t'])
    _nf = 0
    def nframe(self):
        self._nf += 1; return self._nf
    def inline(self, f, this, args):
        self.depth += 1
        if self.depth > 40: raise Unsupported('recursion depth')
        self.inlined.add(f['key'])
        fr = Frame(f, this); 
        self.bind_params(fr, f, args)
        self.frames.append(fr)
        try: return self.run_body(f)
        finally: self.frames.pop(); self.depth -= 1
    def run_body(self, f):
        out = self.block_outcomes(f['body'])
        return self.finish(out)
    def finish(self, out):
        """merge normal/return outcomes of a function body"""
        if 'break' in out or 'continue' in out: raise Unsupported('stray break')
        n = out.get('normal'); r = out.get('return')
        if r is None and n is None: raise Infeasible()
        if r is None: self.st = n[1]; return VOID
        if n is None: self.st = r[1]; return r[2]
        self.st = self.merge(r[0], r[1], n[1])
        if r[2] is VOID: return VOID
        return r[2]
    # ---------------------------------------------------------------- statements
    # outcome dict: signal -> (cond, state, value)
    def block_outcomes(self, s):
        return self.ex(s)
    def ex(self, s):
        if s is None: return {'normal': (TRUE, self.st, None)}
        k = s['s']
        m = getattr(self, 'ex_' + k, None)
        if m is None: raise Unsupported('statement %s %s at %s' % (k, s.get('what'), self.where(s)))
        return m(s)
    def norm(self): return {'normal': (TRUE, self.st, None)}
    def ex_Null(self, s): return self.norm()
    def ex_Expr(self, s):
        self.ev(s['e']); return self.norm()
    def ex_Decl(self, s):
        for v in s['v']: self.declare(v)
        return self.norm()
    def declare(self, v):
        fr = self.frames[-1]
        b, ptr, ref, c = norm_type(v['t'])
        st = sort_of(v['t'])
        i = v['init']
        if v.get('static') and i is not None and st == 'obj': pass
        if ref:
            l = self.ev(i)
            if isinstance(l, (Poly, F, Ptr)):
                key = ('v', self.nframe(), v['id']); self.put(key, l); l = LVar(key, v['t'])
            fr.env[v['id']] = l; return
        if st == 'obj':
            if i is None or (i['k'] == 'Ctor' and not i['copy']):
                o = self.newobj(b, v['name'])
                self.construct(o, b, self.eval_args(i['args'], i['sig']) if i else [], i)
                fr.env[v['id']] = LObj(o, b); return
            val = self.evr(i)
            if isinstance(val, LObj):
                if val.o in self.temps: fr.env[v['id']] = val
                else:
                    o = self.newobj(b, v['name']); self.copy_obj(o, val, b, i); fr.env[v['id']] = LObj(o, b)
                return
            if isinstance(val, (tuple, LamVal)):
                n, ta = tmpl(b)
                if n in CTORS and isinstance(val, tuple):
                    o = self.newobj(b, v['name']); CTORS[n](self, o, [val], i); fr.env[v['id']] = LObj(o, b); return
                fr.env[v['id']] = val; return
            raise Unsupported('declare %s from %r' % (v['t'], val))
        if v.get('vla') is not None:
            es = sort_of(v['vlat']); n = self.num(self.evr(v['vla'])); self.oblige('size', ge0(n - 1), 'size of a local array', None)
            fr.env[v['id']] = Ptr(self.newregion((n,), Base(Fresh('undefarr', 'obj'), {'ptr': 'obj', 'obj': 'obj'}.get(es, es)), v['name'])); return
        if st == 'carray':
            m = re.match(r'^(.*?)\[(\d*)\]$', b)
            if not m: raise Unsupported('array ' + b)
            es = sort_of(m.group(1)); n = int(m.group(2) or 0)
            r = self.newregion((n,), Base(Fresh('undefarr', 'obj'), {'ptr': 'obj', 'obj': 'obj'}.get(es, es)), v['name'])
            if i is not None and i['k'] == 'InitList':
                for j, a in enumerate(i['args']): self.store(LElem(r, (P(j),), m.group(1)), self.evr(a), i)
            fr.env[v['id']] = Ptr(r); return
        key = ('v', self.nframe(), v['id'])
        fr.env[v['id']] = LVar(key, v['t'])
        if i is not None: self.put(key, self.coerce(self.evr(i), st))
        else: self.put(key, self.symbolic(v['t'], Fresh('undef_' + v['name'], 'obj')))
    def ex_Block(self, s):
        acc = {}
        pend = TRUE
        n0 = self.ctx.mark()
        for x in s['b']:
            out = self.ex(x)
            nx = out.pop('normal', None)
            for k, (c, st, v) in out.items():
                self.acc_add(acc, k, And(pend, c), st, v)
            if nx is None:
                self.ctx_restore_block(n0, pend)
                return acc
            self.st = nx[1]
            if nx[0] is not TRUE:
                pend = And(pend, nx[0]); self.ctx.assume(nx[0])
        self.acc_add(acc, 'normal', pend, self.st, None)
        self.ctx_restore_block(n0, pend)
        return acc
    def ctx_restore_block(self, n0, pend):
        # facts learned (asserts, decisions) are kept unless they depend on a local branch condition
        if pend is not TRUE:
            keep = self.ctx.fs[n0:]
            self.ctx.reset(n0)
            # decisions are global facts: keep those recorded as decisions
            for g, v in self.decisions[:self.pos]:
                self.ctx.assume(g if v else Not(g))
    def acc_add(self, acc, k, c, st, v):
        if k in acc:
            c0, s0, v0 = acc[k]
            m = self.merge(c0, s0, st)
            val = v0 if v0 is v else (None if v is None else self.ite(c0, v0, v))
            acc[k] = (Or(c0, c), m, val)
        else: acc[k] = (c, st, v)
    def ex_If(self, s):
        if s.get('init'): self.ex(s['init'])
        if s.get('cv'): self.declare(s['cv'])
        c = self.boolean(self.evr(s['c']))
        d = self.decide(c)
        if d is True: return self.ex(s['a'])
        if d is False: return self.ex(s['b'])
        n = self.ctx.mark()
        snap = self.st.copy()
        acc = {}
        for cond, br in ((c, s['a']), (Not(c), s['b'])):
            self.st = snap.copy()
            self.ctx.assume(cond)
            try:
                if not self.ctx.infeasible():
                    out = self.ex(br)
                    for k, (cc, st, v) in out.items(): self.acc_add(acc, k, And(cond, cc), st, v)
            except Infeasible: pass
            self.ctx.reset(n)
            for g, v in self.decisions[:self.pos]: self.ctx.assume(g if v else Not(g))
        if 'normal' in acc and len(acc) == 1:
            acc['normal'] = (TRUE,) + acc['normal'][1:]
        return acc
    def ex_Return(self, s):
        v = VOID
        if s['e'] is not None:
            v = self.ev(s['e'])
            rt = self.frames[-1].fn.get('ret', '?')
            if rt != '?' and not norm_type(rt)[2]:
                if isinstance(v, (LVar, LElem)): v = self.load(v, s)
                if sort_of(rt) in ('int', 'real', 'bool') and not isinstance(v, LObj): v = self.coerce(v, sort_of(rt))
                if isinstance(v, LObj): 
                    self.temps.add(v.o) if v.o in self.created and self.is_local_obj(v) else None
            elif rt == '?' and isinstance(v, (LVar, LElem)): v = self.load(v, s)
        return {'return': (TRUE, self.st, v)}
    def is_local_obj(self, v):
        return any(isinstance(x, LObj) and x.o is v.o for x in self.frames[-1].env.values()) and not any(isinstance(x, LObj) and x.o is v.o for fr in self.frames[:-1] for x in fr.env.values())
    def ex_Break(self, s): return {'break': (TRUE, self.st, None)}
    def ex_Continue(self, s): return {'continue': (TRUE, self.st, None)}
    def ex_Switch(self, s):
        v = self.num(self.evr(s['c']))
        # flatten cases
        body = s['b']['b']; labels = []; stm = []
        def flat(x):
            while x is not None and x['s'] in ('Case', 'Default'):
                labels.append((len(stm), x['v'] if x['s'] == 'Case' else None)); x = x['b']
            if x is not None: stm.append(x)
        for x in body: flat(x)
        tgt = None; dflt = None
        for pos, lab in labels:
            if lab is None: dflt = pos; continue
            if self.force(Eq(v, self.num(self.evr(lab))), s): tgt = pos; break
        if tgt is None: tgt = dflt
        if tgt is None: return self.norm()
        out = self.ex_Block({'s': 'Block', 'b': stm[tgt:], 'ln': s['ln']})
        b = out.pop('break', None)
        if b is not None: self.acc_add(out, 'normal', b[0], b[1], None)
        return out
    def merge(self, c, a, b):
        """state: c ? a : b"""
        if a is b: return a
        h = {}
        for k in set(a.h) | set(b.h):
            x = a.h.get(k); y = b.h.get(k)
            if x is None: x = self.lazy.get(k)
            if y is None: y = self.lazy.get(k)
            if x is None: h[k] = y; continue
            if y is None: h[k] = x; continue
            if x is y or x == y: h[k] = x; continue
            h[k] = self.ite(c, x, y)
        return State(h)
    def merge_arr(self, c, a, b):
        # common ancestor
        ca = []; x = a
        while x is not None: ca.append(x); x = x.prev if x.k in ('set', 'add') else None
        cb = []; x = b
        while x is not None: cb.append(x); x = x.prev if x.k in ('set', 'add') else None
        sb = {id(y): i for i, y in enumerate(cb)}
        anc = None
        for i, y in enumerate(ca):
            for j, z in enumerate(cb):
                if y is z or y == z: anc = (i, j); break
            if anc: break
        if anc is None: return Arr('ite', None, (c, a, b))
        r = ca[anc[0]]
        for y in reversed(ca[:anc[0]]): r = self.guard_node(r, y, c)
        for y in reversed(cb[:anc[1]]): r = self.guard_node(r, y, Not(c))
        return r
    def guard_node(self, prev, n, c):
        if n.k == 'add': return self.mk_add(prev, n.a[0], n.a[1], n.a[2] * Ind(c))
        return SetN(prev, n.a[0], n.a[1], n.a[2], And(n.a[3], c))
    # ---------------------------------------------------------------- loops
    def ex_For(self, s):
        n = self.ctx.mark()
        self.ex(s['init'])
        return self.loop(s, s['c'], s['inc'], s['b'])
    def ex_While(self, s): return self.loop(s, s['c'], None, s['b'])
    def ex_Do(self, s):
        # body; while(c) body
        out = self.ex(s['b'])
        if set(out) - {'normal', 'continue'}: raise Unsupported('break in do-while')
        self.st = self.join_iter(out)
        return self.loop(s, s['c'], None, s['b'])
    def ex_RangeFor(self, s):
        h = self.opts.get('range_for')
        if not h: raise Unsupported('range-for')
        r = h(self, self.evr(s['range']), s)       # -> (number of entries, entry(j)): the entries in turn
        if r is None: raise Unsupported('range-for')
        n, entry = r; key = ('v', self.nframe(), 'range~%d' % s['ln']); self.put(key, ZERO); j = lambda: P(self.get(key)); env = self.frames[-1].env
        def bind(ex): env[s['var']['id']] = entry(j()); return VOID
        def step(ex): ex.put(key, j() + 1); return VOID
        py = lambda f: {'k': 'Py', 'f': f, 't': 'bool', 'ln': s['ln']}
        return self.loop(s, py(lambda ex: ge0(P(n) - 1 - j())), py(step), {'s': 'Block', 'b': [{'s': 'Expr', 'e': py(bind), 'ln': s['ln']}, s['b']], 'ln': s['ln']})
    def ev_Py(self, e): return e['f'](self)
    def join_iter(self, out):
        n = out.get('normal'); c = out.get('continue')
        if n is None and c is None: raise Infeasible()
        if n is None: return c[1]
        if c is None: return n[1]
        return self.merge(n[0], n[1], c[1])
    UNROLL = 24
    discover = 0
    def inv_loop(self, inv, s, cond, inc, body):
        """loop with an invariant: established on entry, preserved by one arbitrary iteration, assumed (with the trip count) on exit.
        Scalars that move by a constant step keep their closed form; everything else the body modifies is arbitrary unless the invariant defines it."""
        self.loops += 1
        pre = self.st.copy(); created0 = set(self.created); T = Fresh('iter'); cells = {}
        getpre = lambda k: pre.h[k] if k in pre.h else self.lazy.get(k)
        def live(k):
            if k[0] == 'v': return k in pre.h
            o = k[0]
            if isinstance(o, Atom):
                if o.kind == 'app' and o.args[0] in ('reg', 'map_has', 'map_val'): o = o.args[1]
                if o in self.created and o not in created0: return False
            return k in pre.h or k in self.lazy
        syms = {T}
        def sym(sort):
            a = Fresh('inv', sort); syms.add(a); return a
        def fresh(k):
            v = getpre(k)
            if isinstance(v, Poly): return P(sym('int' if v.is_int() else 'real'))
            if isinstance(v, F): return BAtom(sym('bool'))
            if isinstance(v, Ptr): return Ptr(sym('obj'))
            if isinstance(v, Arr): return Base(sym('obj'), arr_sort(v))
            if isinstance(v, tuple) and v and isinstance(v[0], Poly): return tuple(P(sym('int')) for x in v)
            raise Unsupported('loop modifies %s' % (k,))
        inv.enter(self, s)
        closed = {}
        def head():
            self.st = pre.copy()
            for k, v in cells.items(): self.st.h[k] = closed.get(k, v)
            for k, v in inv.state(self, P(T), pre).items():
                if k not in cells: cells[k] = v; 
                self.st.h[k] = v; closed.setdefault(k, v)
        # which locations does one iteration modify?  (the step of a for loop certainly does: no decision is taken for the first value)
        if inc is not None:
            self.st = pre.copy(); m = self.ctx.mark(); self.quiet += 1
            try: self.ev(inc); st = self.st
            finally: self.quiet -= 1; self.ctx.reset(m)
            for k, v in st.h.items():
                w = pre.h.get(k); w = self.lazy.get(k) if w is None else w
                if live(k) and isinstance(v, Poly) and isinstance(w, Poly) and not (w is v or w == v): cells[k] = fresh(k)
        for rnd in range(12):
            head(); m = self.ctx.mark(); st0 = self.st.copy(); self.quiet += 1; self.discover += 1; d0 = self.pos
            self.loopsyms = self.loopsyms + [syms]
            try:
                self.ctx.assume(ge0(P(T))); c = self.boolean(self.evr(cond)); self.ctx.assume(c)
                out = self.ex(body)
                st = None
                if 'normal' in out or 'continue' in out:
                    self.st = self.join_iter(out)
                    if inc is not None: self.ev(inc)
                    st = self.st
            finally:
                self.quiet -= 1; self.discover -= 1; self.ctx.reset(m); self.loopsyms = self.loopsyms[:-1]
                for g, v in self.decisions[:self.pos]: self.ctx.assume(g if v else Not(g))
            if st is None: break
            new = []; chg = False
            for k, v in st.h.items():
                w = st0.h.get(k); w = self.lazy.get(k) if w is None else w
                if not live(k) or w is v or w == v: continue
                if k not in cells: new.append(k)
            for k in new: cells[k] = fresh(k)
            if new: continue
            for k, v in cells.items():
                if k in closed or not isinstance(v, Poly) or not isinstance(st.h.get(k), Poly): continue
                d = st.h[k] - v
                if d.const() is not None: closed[k] = getpre(k) + P(T) * d; chg = True
            if not chg: break
        else: raise Unsupported('loop with invariant: modified locations do not settle at %s' % self.where(s))
        if self.discover: head(); return self.norm()      # an enclosing loop only asks what is modified
        inv.found(self, cells, closed, pre, s)
        head(); m = self.ctx.mark(); self.ctx.assume(ge0(P(T)))
        n = self.trip_count(self.boolean(self.evr(cond)), T, set(), s)
        self.ctx.reset(m)
        if n is None: raise Unsupported('trip count of loop with invariant at %s: %s' % (self.where(s), self.boolean(self.evr(cond))))
        if self.force(ge0(n - 1), s) is False:
            self.st = pre; inv.exit(self, ZERO, s); return self.norm()
        one = self.force(BAtom(App('iterate', Sym('loop%d' % s['ln']), P(self.loops), sort='bool')), s)
        if not one:
            head()
            for k in list(self.st.h):
                if k in cells: self.st.h[k] = self.subst_val(self.st.h[k], {T: n})
            inv.exit(self, n, s); return self.norm()
        self.ctx.assume(ge0(P(T))); self.ctx.assume(ge0(n - 1 - P(T))); head(); inv.assume(self, P(T))
        c = self.boolean(self.evr(cond)); self.ctx.assume(c)
        if self.ctx.infeasible(): raise Infeasible()
        self.st0 = st0 = self.st.copy()
        out = self.ex(body)
        if not ('normal' in out or 'continue' in out): return {('normal' if k == 'break' else k): v for k, v in out.items()}
        if set(out) - {'normal', 'continue'}: raise Unsupported('conditional exit from a loop with invariant')
        self.st = self.join_iter(out)
        if inc is not None: self.ev(inc)
        for k, v in self.st.h.items():
            w = st0.h.get(k); w = self.lazy.get(k) if w is None else w
            if k not in cells and live(k) and not (w is v or w == v): raise Unsupported('loop with invariant modifies %s outside of its frame' % (k,))
            if k in closed and k not in inv.keys and isinstance(v, Poly): 
                if (v - self.subst_val(closed[k], {T: P(T) + 1})).t: raise Unsupported('loop with invariant: step of %s' % (k,))
        inv.check(self, P(T), s)
        raise PathDone()
    def loop(self, s, cond, inc, body):
        iv = self.opts.get('inv')
        if iv:
            h = iv(self, s)
            if h is not None: return self.inv_loop(h, s, cond, inc, body)
        acc = {}; pend = TRUE
        # concrete unrolling
        for it in range(self.UNROLL + 1):
            c = self.boolean(self.evr(cond)) if cond is not None else TRUE
            if c is FALSE or (c is not TRUE and it > 0 and self.ctx.entails(Not(c))):
                acc.setdefault('normal', None)
                if acc.get('normal') is None: acc['normal'] = (pend, self.st, None)
                else:
                    c0, s0, v0 = acc.pop('normal'); self.acc_add(acc, 'normal', pend, self.st, None)
                return {k: v for k, v in acc.items() if v is not None}
            if c is not TRUE:
                if it == 0: break
                if not self.ctx.entails(c):
                    if pend is not TRUE: raise Unsupported('data dependent loop after break')
                    break
            if it == self.UNROLL: 
                break
            out = self.ex(body)
            for k, sig in (('return', 'return'), ('break', 'normal')):
                if k in out:
                    cc, st, v = out[k]
                    if acc.get(sig) is None: acc[sig] = (And(pend, cc), st, v)
                    else: self.acc_add(acc, sig, And(pend, cc), st, v)
            if 'normal' not in out and 'continue' not in out:
                return {k: v for k, v in acc.items() if v is not None}
            ex = [out[k][0] for k in ('return', 'break') if k in out]
            self.st = self.join_iter(out)
            if ex:
                f = And(*[Not(x) for x in ex]); pend = And(pend, f); self.ctx.assume(f)
            if inc is not None: self.ev(inc)
        return self.sym_loop(s, cond, inc, body)
    def run_iter(self, cond, inc, body):
        """one generic iteration from the current state; returns (cond formula, outcomes)"""
        n = self.ctx.mark()
        c = self.boolean(self.evr(cond))
        return c
    def sym_loop(self, s, cond, inc, body):
        if not self.quiet: self.loops += 1
        pre = self.st.copy()
        created0 = set(self.created)
        K = Fresh('k')
        M = []                 # modified keys
        closed = {}            # key -> value as function of K (or of earlier)
        carried = {}           # key -> carried symbol(value)
        kinds = {}
        n_ctx = self.ctx.mark()
        outer = self.loopsyms
        trip = None
        def start_state():
            st = pre.copy()
            for k in M:
                if k in closed: st.h[k] = closed[k]
                else: st.h[k] = carried[k]
            return st
        def getpre(k):
            v = pre.h.get(k)
            if v is None: v = self.lazy.get(k)
            return v
        def liveout(k):
            if k in pre.h or k in self.lazy:
                if k[0] == 'v': return k in pre.h
                o = k[0]
                if isinstance(o, Atom) and o in self.created and o not in created0: return False
                return True
            return False
        csyms = set(); csyms.add(K)
        def mkcarried(k):
            v = getpre(k)
            if isinstance(v, Poly):
                a = Fresh('carried', 'int' if v.is_int() and self.key_is_int(k) else 'real'); csyms.add(a); return P(a)
            if isinstance(v, F):
                a = Fresh('carried', 'bool'); csyms.add(a); return BAtom(a)
            if isinstance(v, Ptr):
                a = Fresh('carried', 'int'); csyms.add(a); return Ptr(v.obj, P(a))
            if isinstance(v, Arr):
                a = Fresh('carried', 'obj'); csyms.add(a); return Base(a, arr_sort(v))
            if isinstance(v, tuple) and v and isinstance(v[0], Poly):
                l = []
                for x in v:
                    a = Fresh('carried', 'int'); csyms.add(a); l.append(P(a))
                return tuple(l)
            if isinstance(v, LObj):
                a = Fresh('carried', 'obj'); csyms.add(a); self.objcls[a] = v.cls; return LObj(a, v.cls)
            h = self.opts.get('carried')
            if h:
                r = h(self, v, csyms)
                if r is not None: return r
            raise Unsupported('loop-carried value %r for %s' % (v, k))
        exits = None
        def run(final):
            """run one generic iteration; returns (cond, post state or None, other outcomes)"""
            self.st = start_state()
            n = self.ctx.mark()
            self.loopsyms = outer + [csyms]
            if not final: self.quiet += 1
            try:
                self.ctx.assume(ge0(P(K)))
                c = self.boolean(self.evr(cond)) if cond is not None else TRUE
                self.ctx.assume(c)
                if self.ctx.infeasible(): return c, None, {}
                d0 = self.pos
                out = self.ex(body)
                others = {k: v for k, v in out.items() if k not in ('normal', 'continue')}
                self.st = self.join_iter(out)
                if inc is not None: self.ev(inc)
                return c, self.st, others
            finally:
                self.ctx.reset(n)
                for g, v in self.decisions[:self.pos]: self.ctx.assume(g if v else Not(g))
                if not final: self.quiet -= 1
                self.loopsyms = outer
        rounds = 0
        while True:
            rounds += 1
            if rounds > 30: raise Unsupported('loop summarisation does not converge at %s' % self.where(s))
            try: c, post, others = run(False)
            except Infeasible: post = None; c = FALSE; others = {}
            if post is None:
                # loop body infeasible: zero iterations
                self.st = pre
                c0 = self.boolean(self.evr(cond))
                if self.ctx.entails(Not(c0)): return self.norm()
                raise Unsupported('loop body infeasible')
            start = start_state()
            new = []
            for k, v in post.h.items():
                if k in M or not liveout(k): continue
                sv = start.h.get(k)
                if sv is None: sv = self.lazy.get(k)
                if not (sv is v or sv == v): new.append(k)
            if new:
                for k in new:
                    M.append(k); carried[k] = mkcarried(k)
                continue
            # classify unresolved keys
            progress = False
            cs = csyms - {K}
            for k in M:
                if k in closed: continue
                cl = self.classify(k, getpre(k), carried[k], post.h[k], cs, K, carried, M, getpre)
                if cl is not None:
                    closed[k] = cl; progress = True
                    if not isinstance(getpre(k), Arr): break   # induction variables first, rerun
            if not progress: break
            # after resolving scalars rerun so that values are expressed with closed forms
        # trip count
        # find n from the condition evaluated in the closed-form state
        unresolved = [k for k in M if k not in closed]
        c, post, others = run(False)
        n = self.trip_count(c, K, csyms - {K}, s)
        if n is None:
            h = self.opts.get('loop_fallback')
            raise Unsupported('trip count of loop at %s: %s' % (self.where(s), show_f(c)))
        # rerun with K < n known
        if 'break' in others or 'return' in others:
            return self.search_loop(s, cond, inc, body, pre, M, closed, carried, K, n, run, csyms, others, post, unresolved, getpre)
        if unresolved:
            # regions
            pass
        self.ctx.reset(n_ctx)
        for g, v in self.decisions[:self.pos]: self.ctx.assume(g if v else Not(g))
        mk = self.ctx.mark()
        # final run (obligations recorded), with 0 <= K < n
        self.ctx.assume(ge0(n - 1 - P(K)))
        c, post, others = run(True)
        self.ctx.reset(mk)
        for g, v in self.decisions[:self.pos]: self.ctx.assume(g if v else Not(g))
        # number of iterations max(n,0)
        if self.ctx.entails(ge0(n)): nn = n
        else:
            d = self.decide(ge0(n))
            if d is True: nn = n
            elif d is False: nn = ZERO
            else: nn = Ite(ge0(n), n, ZERO)
        res = pre.copy()
        for k in M:
            if k in closed and not isinstance(getpre(k), Arr):
                v = self.subst_val(closed[k], {K: nn})
                res.h[k] = v
        self.arrs = {}         # carried content -> (content before the loop, stores of one iteration)
        for k in M:
            pv = getpre(k)
            if isinstance(pv, Arr) and k not in closed:
                nodes = []; x = post.h[k]
                while x.k in ('set', 'add'): nodes.append(x); x = x.prev
                if x.k == 'base' and x.a[0] is carried[k].a[0]: self.arrs[carried[k].a[0]] = (pv, [(nd.a[0], nd.a[1], nd.a[3] if nd.k == 'set' else TRUE) for nd in nodes])
        for k in M:
            pv = getpre(k)
            try:
                if isinstance(pv, Arr):
                    res.h[k] = self.summarise_arr(k, pv, carried[k], post.h[k], K, n, csyms - {K}, s, carried)
                elif k not in closed:
                    v = self.last_value(k, pv, post.h[k], K, nn, csyms - {K}, s)
                    res.h[k] = v
            except Unsupported:
                if not self.havocable(k): raise
                res.h[k] = self.havoc(k, pv)
        self.st = State(res.h)
        return self.norm()
    def havocable(self, k):
        """local variables and objects created by the function: an arbitrary value over-approximates what the loop leaves there"""
        if k[0] == 'v': return True
        o = k[0]
        if not isinstance(o, Atom): return False
        if o.kind == 'app' and o.args[0] == 'reg': o = o.args[1]
        return isinstance(o, Atom) and o in self.created
    def havoc(self, k, pv):
        def sym(sort):
            a = Fresh('havoc', sort); self.havocs.add(a); return a
        if isinstance(pv, Poly): return P(sym('int' if pv.is_int() else 'real'))
        if isinstance(pv, F): return BAtom(sym('bool'))
        if isinstance(pv, Ptr):
            a = sym('obj'); c = self.objcls.get(pv.obj)
            if c: self.objcls[a] = c
            return Ptr(a)
        if isinstance(pv, Arr): return Base(sym('obj'), arr_sort(pv))
        if isinstance(pv, tuple) and pv and isinstance(pv[0], Poly): return tuple(P(sym('int')) for x in pv)
        raise Unsupported('loop leaves an unsupported value in %s' % (k,))
    def search_loop(self, *a):
        raise Unsupported('break/return inside a symbolic loop')
    def key_is_int(self, k):
        return True
    def subst_val(self, v, m):
        if isinstance(v, (Poly, F)): return subst(v, m)
        if isinstance(v, Ptr): return Ptr(v.obj if v.obj is None else subst(v.obj, m), subst(v.off, m))
        if isinstance(v, tuple): return tuple(self.subst_val(x, m) for x in v)
        if isinstance(v, Arr): return self.subst_arr(v, m)
        if isinstance(v, LObj): return LObj(subst(v.o, m), v.cls)
        if v is None: return None
        h = getattr(v, 'subst', None)
        if h: return h(m)
        return v
    def subst_arr(self, a, m):
        if a is None: return None
        p = self.subst_arr(a.prev, m)
        if a.k == 'base': return Base(subst(a.a[0], m) if isinstance(a.a[0], Atom) else a.a[0], a.a[1])
        if a.k == 'lam': return Lam(subst(a.a[0], m), a.a[1])
        if a.k == 'ite': return Arr('ite', None, (subst(a.a[0], m), self.subst_arr(a.a[1], m), self.subst_arr(a.a[2], m)))
        if a.k == 'set': return SetN(p, tuple((v, subst(n, m)) for v, n in a.a[0]), subst(a.a[1], m), subst(a.a[2], m) if not isinstance(a.a[2], Atom) else subst(a.a[2], m), subst(a.a[3], m))
        if a.k == 'add': return AddN(p, tuple((v, subst(n, m)) for v, n in a.a[0]), subst(a.a[1], m), subst(a.a[2], m))
    def depends(self, v, cs):
        if isinstance(v, (Poly, F, Atom)): return bool(v.free & cs)
        if isinstance(v, Ptr): return (v.obj is not None and bool(v.obj.free & cs)) or bool(v.off.free & cs)
        if isinstance(v, tuple): return any(self.depends(x, cs) for x in v)
        if isinstance(v, LObj): return bool(v.o.free & cs)
        if isinstance(v, Arr):
            x = v
            while x is not None:
                for y in _flat(x.a):
                    if isinstance(y, (Poly, F, Atom)) and y.free & cs: return True
                    if isinstance(y, Arr) and self.depends(y, cs): return True
                x = x.prev
            return False
        h = getattr(v, 'free_syms', None)
        if h: return bool(h() & cs)
        return False
    def classify(self, k, init, car, post, cs, K, carried, M, getpre):
        """closed form as a function of K (value at the start of iteration K), or None"""
        if isinstance(init, Poly):
            d = post - car
            if not self.depends(d, cs):
                if K not in d.free: return init + P(K) * d
                t = Fresh('t')
                s = Sum1(t, P(K), subst(d, {K: P(t)}))
                return init + s
            if not self.depends(post, cs) and K not in post.free and post == init: return init
            if not self.depends(post, cs) and not self.post_is_last_only(k):
                # value of previous iteration
                return Ite(Eq(P(K), 0), init, subst(post, {K: P(K) - 1}))
            return None
        if isinstance(init, Ptr):
            if post.obj is init.obj:
                d = post.off - car.off
                if not self.depends(d, cs):
                    if K not in d.free: return Ptr(init.obj, init.off + P(K) * d)
            return None
        if isinstance(init, F):
            if not self.depends(post, cs):
                if post == init: return init
                p1 = subst(post, {K: P(K) - 1})
                z = Eq(P(K), 0)
                return Or(And(z, init), And(Not(z), p1))
            return None
        if isinstance(init, tuple) and init and isinstance(init[0], Poly):
            if not self.depends(post, cs) and K not in set().union(*[x.free for x in post]):
                if post == init: return init
                return tuple(Ite(Eq(P(K), 0), a, b) for a, b in zip(init, post))
            return None
        h = self.opts.get('classify')
        if h: return h(self, k, init, car, post, cs, K)
        return None
    def post_is_last_only(self, k): return True
    def last_value(self, k, pv, post, K, nn, cs, s):
        if self.depends(post, cs):
            h = self.opts.get('last_value')
            if h:
                r = h(self, k, pv, post, K, nn, cs)
                if r is not None: return r
            raise Unsupported('loop at %s: location %s is not summarisable: %r' % (self.where(s), k, post))
        v = self.subst_val(post, {K: nn - 1})
        c = self.ctx.simp(gt0(nn))
        if c is TRUE: return v
        if c is FALSE: return pv
        d = self.decide(c)
        if d is True: return v
        if d is False: return pv
        return self.ite(c, v, pv)
    def trip_count(self, c, K, cs, s):
        if c.op == 'and':
            parts = [x for x in c.args if K in x.free]
            if len(parts) == 1 and not any(x.free & cs for x in c.args): c = parts[0]
        if self.depends(c, cs): return None
        if c.op == 'ge':
            p = c.args[0]
            co = _lincoef_poly(p, K)
            if co is None: return None
            b, a = co
            bc = b.const()
            if bc is None:
                # stride is symbolic: a + b*K >= 0, need b<0
                if self.ctx.entails(gt0(-b)): return FloorDiv(a, -b) + 1 if not self.exact_div(a, -b) else self.exact_div(a, -b) + 1
                return None
            if bc == -1: return a + 1
            if bc < 0: return FloorDiv(a, P(-bc)) + 1
            return None
        if c.op == 'not' and c.args[0].op == 'eq':
            p = c.args[0].args[0]
            v = solve_lin(p, K)
            if v is not None:
                self.oblige('termination', ge0(v), 'loop with != condition terminates', s)
                return v
        return None
    def exact_div(self, a, b):
        q, r = divmod_poly(a, b)
        if q is not None and self.ctx.entails(And(ge0(r), ge0(b - 1 - r))): return q
        return None
    def summarise_arr(self, key, pre, car, post, K, n, cs, s, carried):
        cname = car.a[0]
        # unwind post down to the carried base
        nodes = []; x = post
        while x.k in ('set', 'add'): nodes.append(x); x = x.prev
        nodes.reverse()
        arrs = dict(self.arrs); others = frozenset(a for a in cs if a is not cname and a not in arrs)
        if x.k == 'base' and x.a[0] is cname:
            pass
        else:
            # fully redefined in the body: last value, must not depend on carried state
            if self.depends(post, cs):
                raise Unsupported('loop at %s: redefined array depends on previous iteration (%s)' % (self.where(s), key,))
            v = self.subst_arr(post, {K: n - 1})
            c = self.ctx.simp(gt0(n))
            if c is TRUE: return v
            if c is FALSE: return pre
            return Arr('ite', None, (c, v, pre))
        if not nodes: return pre
        # normalise  set(idx, rd(carried,idx)+d)  into add
        norm = []
        for nd in nodes:
            if nd.k == 'set':
                bs, ix, val, g = nd.a
                if isinstance(val, Poly):
                    own = P(App('rd', cname, *ix, sort=arr_sort(pre)))
                    if len(nodes) == 1 or all(m.k == 'add' or m is nd for m in nodes):
                        d = val - own
                        if cname not in d.rds:
                            norm.append(('add', bs, ix, d * Ind(g), TRUE)); continue
                norm.append(('set', bs, ix, val, g))
            else: norm.append(('add', nd.a[0], nd.a[1], nd.a[2], TRUE))
        for kd, bs, ix, val, g in norm:
            for y in _flat((bs, ix, val, g)):
                if isinstance(y, (Poly, F, Atom)) and y.free & others:
                    raise Unsupported('loop at %s: update depends on loop-carried state %s' % (self.where(s), [show_any(q) for q in (y.free & others)]))
        t = Fresh('t')
        ren = {K: P(t)}
        # reads of the carried content must not see earlier writes
        reads = []; xreads = []
        def gather(cn, out):
            for kd, bs, ix, val, g in norm:
                collect_reads(val, cn, list(bs), out); collect_reads(g, cn, list(bs), out)
                for i in ix: collect_reads(i, cn, list(bs), out)
        gather(cname, reads)
        for cn in arrs:
            if cn is cname: continue
            l = []; gather(cn, l)
            xreads += [(r, arrs[cn][1]) for r in l]
        own_w = [(bs, ix, g) for kd, bs, ix, val, g in norm]
        mark = self.ctx.mark()
        try:
            if reads or xreads:
                self.ctx.assume(ge0(P(K))); self.ctx.assume(ge0(n - 1 - P(K)))
                K2 = Fresh('k2'); self.ctx.assume(ge0(P(K2))); self.ctx.assume(ge0(P(K) - 1 - P(K2)))
                for (ridx, rb, guard), writes in [(r, own_w) for r in reads] + xreads:
                    for bs, ix, g in writes:
                        m2 = self.ctx.mark()
                        ren2 = {K: P(K2)}
                        for v, c in rb: self.ctx.assume(ge0(P(v))); self.ctx.assume(ge0(c - 1 - P(v)))
                        if guard is not TRUE: self.ctx.assume(guard)
                        bs2 = []
                        for v, c in bs:
                            w = Fresh('w'); c2 = subst(c, ren2); ren2[v] = P(w)
                            self.ctx.assume(ge0(P(w))); self.ctx.assume(ge0(c2 - 1 - P(w)))
                        self.ctx.assume(subst(g, ren2))
                        f = Or(*[Ne(subst(a, ren2), b) for a, b in zip(ix, ridx)])
                        okk = self.disjoint(f, [subst(a, ren2) for a in ix], ridx)
                        self.ctx.reset(m2)
                        if not okk:
                            r = self.recurrence(key, pre, car, norm, K, n, s, reads)
                            if r is not None: return r
                            raise Unsupported('loop at %s: iteration reads an element written by an earlier iteration (%s vs %s)' % (self.where(s), show_any(ridx), show_any(ix)))
                        self.ok('loop-noninterference')
            self.ctx.reset(mark)
            # write/write interference between different iterations
            self.ctx.assume(ge0(P(K))); self.ctx.assume(ge0(n - 1 - P(K)))
            K2 = Fresh('k2'); self.ctx.assume(ge0(P(K2))); self.ctx.assume(ge0(n - 1 - P(K2)))
            for i, (kd, bs, ix, val, g) in enumerate(norm):
                for j, (kd2, bs2, ix2, val2, g2) in enumerate(norm):
                    if kd == 'add' and kd2 == 'add': continue
                    if j < i: continue
                    # (K,bs) of node i vs (K2,bs2') of node j, K != K2   (for i==j also within the same K but different inner binders is already guaranteed)
                    m2 = self.ctx.mark()
                    ren2 = {K: P(K2)}
                    for v, c in bs: self.ctx.assume(ge0(P(v))); self.ctx.assume(ge0(c - 1 - P(v)))
                    for v, c in bs2:
                        w = Fresh('w'); c2 = subst(c, ren2); ren2[v] = P(w)
                        self.ctx.assume(ge0(P(w))); self.ctx.assume(ge0(c2 - 1 - P(w)))
                    self.ctx.assume(g); self.ctx.assume(subst(g2, ren2))
                    self.ctx.assume(Ne(P(K), P(K2)))
                    f = Or(*[Ne(a, subst(b, ren2)) for a, b in zip(ix, ix2)])
                    okk = self.disjoint(f, ix, [subst(b, ren2) for b in ix2])
                    self.ctx.reset(m2)
                    if not okk:
                        # sequential overwrite of a fixed location: last value wins
                        if len(norm) == 1 and not bs and not any(K in a.free for a in ix) and not reads and g is TRUE:
                            self.ctx.reset(mark)
                            cc = self.ctx.simp(gt0(n))
                            return SetN(pre, (), ix, subst(val, {K: n - 1}), cc)
                        raise Unsupported('loop at %s: iterations write overlapping elements %s / %s' % (self.where(s), show_any(ix), show_any(ix2)))
                    self.ok('loop-noninterference')
        finally: self.ctx.reset(mark)
        # replace carried reads by pre content
        def fix(v):
            if isinstance(v, (Poly, F)) and v.rds & names:
                def fn(a):
                    if a.kind == 'app' and a.args[0] == 'rd' and a.args[1] in names:
                        return self.read(pre if a.args[1] is cname else arrs[a.args[1]][0], tuple(fix(z) for z in a.args[2:]))
                    if not (names & a.rds): return P(a) if a.sort not in ('obj', 'bool') else a
                    return None
                return rewrite(v, fn)
            if isinstance(v, Atom) and v.rds & names:
                if v.kind == 'app' and v.args[0] == 'rd' and v.args[1] in names: return self.read(pre if v.args[1] is cname else arrs[v.args[1]][0], v.args[2:])
            return v
        names = frozenset(arrs) | {cname}
        r = pre
        mark = self.ctx.mark()
        self.ctx.assume(ge0(P(K))); self.ctx.assume(ge0(n - 1 - P(K)))
        fixed = []
        for kd, bs, ix, val, g in norm:
            m3 = self.ctx.mark()
            for v, c in bs: self.ctx.assume(ge0(P(v))); self.ctx.assume(ge0(c - 1 - P(v)))
            fixed.append((kd, bs, ix, fix(val), fix(g)))
            self.ctx.reset(m3)
        self.ctx.reset(mark)
        for kd, bs, ix, val, g in fixed:
            nb = ((t, n),) + tuple((v, subst(c, ren)) for v, c in bs)
            # rename inner binders to keep them distinct
            if kd == 'add': r = self.mk_add(r, nb, tuple(subst(a, ren) for a in ix), subst(val, ren))
            else: r = SetN(r, nb, tuple(subst(a, ren) for a in ix), subst(val, ren), subst(g, ren))
            r = self.fold_cover(r, self.shape_of_key(key, s))
        return r
    def shape_of_key(self, key, s):
        return self.get((key[0], 'shape')) if key[1] == 'content' else None
    def fold_cover(self, r, shape):
        """a store/update that covers the whole extent of the region becomes a definition of its content"""
        if shape is None: return r
        if r.k == 'set':
            bs, ix, val, g = r.a
            if g is not TRUE: return r
        elif r.k == 'add' and r.prev.k == 'lam': bs, ix, val = r.a
        else: return r
        if len(ix) != len(shape) or len(bs) != len(ix): return r
        cnt = dict(bs); ren = {}
        for x, n, ax in zip(ix, shape, AX):
            a = x.atom() if isinstance(x, Poly) else None
            if a is None or a not in cnt or a in ren: return r
            c = cnt[a]
            if c.free & cnt.keys(): return r
            if not (c == n or self.ctx.entails(Eq(c, n))): return r
            ren[a] = P(ax)
        v = subst(val, ren)
        if r.k == 'add': return Lam(r.prev.a[0] + v, r.prev.a[1])
        return Lam(v, arr_sort(r.prev))
    def recurrence(self, *a): return None
    def disjoint(self, f, a, b):
        if self.ctx.entails(f): return True
        # mixed radix: a - b = (x - y) + n*(..)  -- try via match-style division on flattened indices
        for p, q in zip(a, b):
            e = P(p) - P(q)
            if self.nonzero_radix(e): return True
        return False
    def nonzero_radix(self, e):
        """try to show e != 0 by mixed radix decomposition on some atom"""
        cands = set()
        for m in e.t:
            if len(m) >= 2:
                for x, k in m: cands.add(x)
        for x in cands:
            q, r = divmod_poly(e, P(x))
            if q is None: continue
            # |r| < x  and q != 0  ==> e != 0 ;  
            if self.ctx.entails(And(ge0(r + P(x) - 1), ge0(P(x) - 1 - r))):
                if self.ctx.entails(Or(Ne(q, 0), Ne(r, 0))): return True
        return False

# ------------------------------------------------------------------ helpers
def _retype(at, s):
    if at.sort == s: return at
    if at.kind == 'sym': return Sym(at.args[0], s)
    return App(*at.args, sort=s)
def _flat(x):
    if isinstance(x, tuple):
        for y in x: yield from _flat(y)
    else: yield x
def _lincoef(e, v):
    c = None
    for m, k in e.t.items():
        if any(v in a.free for a, _ in m):
            if len(m) == 1 and m[0] == (v, 1): c = k
            else: return None
    return c
def _lincoef_poly(p, v):
    """p = b*v + a with b, a free of v"""
    b = {}; a = {}
    for m, k in p.t.items():
        hv = [x for x in m if v in x[0].free]
        if not hv: a[m] = k; continue
        if len(hv) != 1 or hv[0] != (v, 1): return None
        b[tuple(x for x in m if x[0] is not v)] = k
    return Poly(b), Poly(a)
def divmod_poly(p, d):
    """p = q*d + r by leading-monomial division (q, r polynomials); (None, None) when d is zero"""
    p = P(p); d = P(d)
    if not d.t: return None, None
    c = d.const()
    if c is not None:
        if c == 1: return p, ZERO
        c = int(c)
        q = {}; r = {}
        for m, k in p.t.items():
            if k.denominator != 1: return None, None
            a, b = divmod(int(k), c)
            if m:
                if a: q[m] = Fraction(a)
                if b: r[m] = Fraction(b)
            else:
                if a: q[m] = Fraction(a)
                if b: r[m] = Fraction(b)
        return Poly(q), Poly(r)
    # leading monomial of d: highest degree
    lm = max((m for m in d.t if m), key=lambda m: (sum(e for a, e in m), tuple((a.uid, e) for a, e in m)))
    lc = d.t[lm]
    q = ZERO; r = p
    for _ in range(60):
        found = None
        for m, k in r.t.items():
            dm = dict(m); ok = True
            for a, e in lm:
                if dm.get(a, 0) < e: ok = False; break
            if ok:
                kk = Fraction(k) / lc
                if kk.denominator != 1: continue
                for a, e in lm:
                    dm[a] -= e
                    if not dm[a]: del dm[a]
                found = (tuple(sorted(dm.items(), key=lambda x: x[0].uid)), kk); break
        if not found: break
        t = Poly({found[0]: found[1]})
        q = q + t; r = r - t * d
    return q, r
def collect_reads(v, cname, bs, acc):
    if isinstance(v, Poly):
        if cname not in v.rds: return
        for m in v.t:
            inds = And(*[a.args[0] for a, e in m if a.kind == 'ind' and cname not in a.rds])
            for a, e in m: collect_reads_atom(a, cname, bs, acc, inds)
    elif isinstance(v, F):
        if cname not in v.rds: return
        for x in v.args: collect_reads(x, cname, bs, acc)
    elif isinstance(v, Atom): collect_reads_atom(v, cname, bs, acc, TRUE)
def collect_reads_atom(a, cname, bs, acc, guard):
    if cname not in a.rds: return
    if a.kind == 'app' and a.args[0] == 'rd' and a.args[1] is cname:
        acc.append((a.args[2:], list(bs), guard))
        for x in a.args[2:]: collect_reads(x, cname, bs, acc)
        return
    if a.kind == 'sum':
        nb = list(bs) + [(v, n) for v, n in a.args[0]]
        for b, e in a.args[1]: collect_reads_atom(b, cname, nb, acc, guard)
        for v, n in a.args[0]: collect_reads(n, cname, nb, acc)
        return
    for x in a.args:
        for y in _flat(x):
            if isinstance(y, (Poly, F, Atom)): collect_reads(y, cname, bs, acc)
def is_abort(e):
    if e is None: return False
    if e['k'] == 'Call' and e.get('name') in ('__assert_fail', 'mfem_error', 'abort', '__assert'): return True
    if e['k'] == 'Cast': return is_abort(e['e'])
    return False
def _strip_cls(k): return k
def _tail(key):
    """method name + params of a key 'A::B<..>::name(params) const'"""
    d = 0
    i = key.index('(') if not key.startswith('operator') else key.index('(')
    # find matching start of parameter list: last top-level '(' group
    j = len(key)
    if key.endswith(' const'): j -= 6
    d = 0
    for p in range(j - 1, -1, -1):
        if key[p] == ')': d += 1
        elif key[p] == '(':
            d -= 1
            if d == 0: break
    head = key[:p]
    # last '::' outside <>
    d = 0
    for q in range(len(head) - 1, 0, -1):
        if head[q] == '>': d += 1
        elif head[q] == '<': d -= 1
        elif d == 0 and head[q] == ':' and head[q - 1] == ':':
            return key[q + 1:]
    return key
