"""P04: block Gauss-Seidel and block Jacobi preconditioners."""
from vc.unit import *
BS = ('src/block_smoother.cpp',)
def blk(ex, M_, i, j):
    o = App('bmblk', M_, P(i), P(j), sort='obj'); ex.objcls.setdefault(o, 'mfem::SparseMatrix'); ex.nonnulls.add(o); return o
@M.model('BlockMatrix', 'NumRowBlocks', 'NumColBlocks')
def _(ex, t, a, e): return ex.opts['nblocks']
@M.model('BlockMatrix', 'RowOffsets', 'ColOffsets')
def _(ex, t, a, e): return ex.opts['offsets']
@M.model('BlockMatrix', 'IsZeroBlock')
def _(ex, t, a, e): return Not(BAtom(App('present', t.o, P(ex.num(a[0])), P(ex.num(a[1])), sort='bool')))
@M.model('BlockMatrix', 'GetBlock')
def _(ex, t, a, e):
    i, j = ex.num(a[0]), ex.num(a[1]); n = ex.opts['nblocks']; ex.oblige('bounds', And(ge0(i), ge0(n - 1 - i), ge0(j), ge0(n - 1 - j)), 'block index in range', e)
    ex.oblige('pre', BAtom(App('present', t.o, P(i), P(j), sort='bool')), 'the block is present', e); return LObj(blk(ex, t.o, i, j), 'mfem::SparseMatrix')
class Sys:
    def __init__(self, u, cls, inverses=True):
        self.u = u; ex = u.ex; self.this = u.obj('prec', 'mfem::' + cls); self.M = u.obj('oper', 'mfem::BlockMatrix'); n = self.n = u.int('nblocks', 1)
        self.offs = u.obj('offsets', 'mfem::Array<int>'); ex.lazy[(self.offs.o, 'size')] = n + 1; c = vget(ex, self.offs.o, ZERO); self.base = P(c).atom().args[1]
        self.total = u.int('total', 1); ex.lazy[(self.M.o, 'h')] = self.total; ex.lazy[(self.M.o, 'w')] = self.total; ex.opts['nblocks'] = n; ex.opts['offsets'] = self.offs; ex.note('row and column blocks of the operator have the same offsets; offsets start at 0 and increase'); base = self.base; total = self.total; M_ = self.M.o
        u.assume(Eq(self.off(ZERO), 0)); u.assume(Eq(self.off(n), total)); self.pairs = []
        old = ex.axioms_
        def ax(a):
            r = old(a)
            if a.args[0] == 'rd' and a.args[1] is base:
                i = a.args[2]; inr = And(ge0(i), ge0(n - i)); r = r + (Implies(inr, And(ge0(P(a)), ge0(total - P(a)))), Implies(And(ge0(i), ge0(n - 1 - i)), ge0(self.off(i + 1) - P(a) - 1)))
            if a.args[0] == 'present': r = r + (Implies(Eq(a.args[2], a.args[3]), BAtom(a)),)
            if a.args[0] in ('fld_h', 'fld_w', 'height', 'width') and a.args[1].kind == 'app' and a.args[1].args[0] == 'bmblk':
                o = a.args[1]; i = o.args[2] if a.args[0] in ('fld_h', 'height') else o.args[3]; r = r + (Eq(P(a), self.off(i + 1) - self.off(i)),)
            return r
        ex.axioms_ = ax; ex.axmemo = {}
        def lz(o, f):
            if o.kind == 'app' and o.args[0] == 'bmblk' and f in ('h', 'w'):
                i = o.args[2 if f == 'h' else 3]; return self.off(i + 1) - self.off(i)
            if inverses and o.kind == 'app' and o.args[0] == 'rd' and o.args[1] is getattr(self, 'dbase', None):
                i = o.args[2]
                if f in ('h', 'w'): return self.off(i + 1) - self.off(i)
                if f == 'data':
                    r = App('reg', o, sort='obj'); ex.objcls[r] = '#region'; s = self.off(i + 1) - self.off(i); ex.lazy[(r, 'content')] = Lam(self.dinv(i, P(A0), P(A1))); ex.lazy[(r, 'shape')] = (s, s); return Ptr(r)
            return None
        ex.lazyfn.append(lz)
        for f, v in (('num_row_blocks', n), ('num_col_blocks', n)): 
            if inverses: ex.lazy[(self.this.o, f)] = v
        if inverses:
            ex.lazy[(self.this.o, 'oper')] = Ptr(self.M.o)
            for f in ('row_offsets', 'col_offsets'): ex.lazy[(self.this.o, f)] = self.offs
            d = ex.field(self.this.o, 'diag_inv', 'mfem::Array<mfem::DenseMatrix *>').o; ex.lazy[(d, 'size')] = n; self.dbase = ex.elem_value(vget(ex, d, ZERO), 'mfem::DenseMatrix *').obj.args[1]
            old2 = ex.axioms_; ex.axioms_ = lambda a: old2(a) + ((BAtom(a),) if a.args[0] == 'nonnull' and a.args[1].kind == 'app' and a.args[1].args[:2] == ('rd', self.dbase) else ()); ex.axmemo = {}
    def off(self, i): return P(App('rd', self.base, P(i), sort='int'))
    def size(self, i): return self.off(P(i) + 1) - self.off(i)
    def entry(self, i, j, r, c): return P(mget(self.u.ex, blk(self.u.ex, self.M.o, i, j), r, c))
    def dinv(self, b, i, j): return P(App('inverse', self.entry(b, b, P(Sym('$0')), P(Sym('$1'))), P(i), P(j)))
    def present(self, i, j): return Ind(BAtom(App('present', self.M.o, P(i), P(j), sort='bool')))
    def row(self, i, k, x, y):
        """row k of block row i of D_i^{-1} (x_i - sum_{j != i} A_ij y_j)"""
        u = self.u
        return u.sum(self.size(i), lambda q: self.dinv(i, k, q) * (x(self.off(i) + q) - u.sum(self.n, lambda j: Ind(Not(Eq(i, j))) * self.present(i, j) * u.sum(self.size(j), lambda c: self.entry(i, j, q, c) * y(self.off(j) + c)))))
def sweep(u, name, order):
    ex = u.ex; S = Sys(u, 'BlockGSSmoother'); x = u.vec('x', S.total); y = u.vec('y', S.total); s = u.old(); cell = (ex.field(y.o, 'data').obj, 'content'); qn = 'mfem::BlockGSSmoother::' + name
    X = lambda g: u.at(s, lambda: vget(ex, x.o, g))
    def first(ex):
        g = u.idx('g0', S.total); u.eq(vget(ex, y.o, g), u.at(s, lambda: vget(ex, y.o, g)), 'the sweep starts from the given iterate')
    def step(ex, T):
        i = order(S, T); Y = lambda g: R.ghost(T, g); m = ex.ctx.mark()
        k = u.idx('k', S.size(i)); u.eq(vget(ex, y.o, S.off(i) + k), S.row(i, k, X, Y), 'the block row solves its diagonal block with the latest other blocks'); ex.ctx.reset(m)
        g = u.idx('g', S.total)
        for c in (ge0(S.off(i) - 1 - g), ge0(g - S.off(i + 1))):
            m = ex.ctx.mark(); ex.ctx.assume(c); u.eq(vget(ex, y.o, g), Y(g), 'the other blocks are not changed'); ex.ctx.reset(m)
    R = Recur(u, lambda ex: cell, 'gs_' + name, 1, step, first); at_loop(u, qn, R)
    u.run(qn, [x, y], this=S.this)
    u.unchanged(x, s, 'the input is not modified'); u.vec_is(y, S.total, lambda g: R.ghost(S.n, g), 'every block row is visited once, in order')
@unit('P04', 'BlockGSSmoother::BlockGaussSeidelForw', files=BS)
def _(u): sweep(u, 'BlockGaussSeidelForw', lambda S, T: T)
@unit('P04', 'BlockGSSmoother::BlockGaussSeidelBack', files=BS)
def _(u): sweep(u, 'BlockGaussSeidelBack', lambda S, T: S.n - 1 - T)
def gs_mult(u):
    ex = u.ex; S = Sys(u, 'BlockGSSmoother'); x = u.vec('x', S.total); y = u.vec('y', S.total); s = u.old(); im = BAtom(Sym('iterative_mode', 'bool')); ex.lazy[(S.this.o, 'iterative_mode')] = im
    ty = ex.field(S.this.o, 'type', 'int'); its = ex.field(S.this.o, 'iterations', 'int'); u.assume(ge0(its)); u.assume(ge0(ty)); u.assume(ge0(2 - ty))
    cell = (ex.field(y.o, 'data').obj, 'content'); tok = lambda: P(vget(ex, y.o, P(Sym('$0')))); after = lambda d, t, g: P(App('sweep_' + d, S.this.o, x.o, t, P(g)))
    def hook(d):
        def f(ex, t, a, e):
            ex.oblige('pre', TRUE if obj(a[0]) is x.o and obj(a[1]) is y.o and t.o is S.this.o else FALSE, 'the sweep runs on the given vectors', e)
            t0 = tok(); M.vset(ex, y.o, lambda g: after(d, t0, g)); return VOID
        return f
    for d, n in (('forw', 'BlockGaussSeidelForw'), ('back', 'BlockGaussSeidelBack')):
        ex.contracts[u.find('mfem::BlockGSSmoother::' + n)['key']] = hook(d)
    y0 = lambda g: Ind(im) * u.at(s, lambda: P(vget(ex, y.o, g)))
    def first(ex):
        g = u.idx('g0', S.total); u.eq(vget(ex, y.o, g), y0(g), 'start from zero unless in iterative mode')
    def step(ex, T):
        t = R.ghost(T, P(Sym('$0')))
        if not ex.ctx.entails(Eq(ty, 2)): t = after('forw', t, Sym('$0'))
        if not ex.ctx.entails(Eq(ty, 1)): t = after('back', t, Sym('$0'))
        g = u.idx('g', S.total); u.eq(vget(ex, y.o, g), subst(t, {Sym('$0'): g}) if False else P(App(t.atom().args[0], *t.atom().args[1:-1], P(g))), 'one configured sweep (forward, backward, or forward then backward)')
    R = Recur(u, lambda ex: cell, 'gs_iterate', 1, step, first); qn = 'mfem::BlockGSSmoother::Mult'; at_loop(u, qn, R); ran = []
    R.exit = lambda ex, n, s_: ran.append(n)
    u.run(qn, [x, y], this=S.this); u.unchanged(x, s, 'the input is not modified')
    u.eq(ran[0] if ran else ZERO, its, 'configured number of sweeps') if ran and ran[0].t else u.ensure(Eq(its, 0), 'configured number of sweeps')
    u.vec_is(y, S.total, (lambda g: R.ghost(its, g)) if ran and ran[0].t else y0, 'result after the configured number of sweeps')
@unit('P04', 'BlockGSSmoother::Mult', files=BS)
def _(u): gs_mult(u)
@unit('P04', 'BlockDSmoother::Mult', files=BS)
def _(u):
    ex = u.ex; S = Sys(u, 'BlockDSmoother'); x = u.vec('x', S.total); y = u.vec('y', S.total); s = u.old(); cell = (ex.field(y.o, 'data').obj, 'content'); k = P(Sym('any_k', 'int'))
    ex.lazy[(S.this.o, 'iterative_mode')] = FALSE; ex.lazy[(S.this.o, 'type')] = ZERO; ex.lazy[(S.this.o, 'iterations')] = ONE
    want = lambda b, i: u.sum(S.size(b), lambda q: S.dinv(b, i, q) * u.at(s, lambda: vget(ex, x.o, S.off(b) + q)))
    def fact(ex, b, put):
        m = ex.ctx.mark()
        if not ex.ctx.entails(Eq(b, inv.b)) or True:
            got = P(vget(ex, y.o, S.off(b) + k)); rng = And(ge0(k), ge0(S.size(b) - 1 - k)); put((got, want(b, k), rng), 'block of the result is the inverse diagonal block times the block of the input')
    class J(AllInv):
        def assume(self, ex, T):
            ex.ctx.assume(ge0(self.b)); ex.ctx.assume(ge0(T - 1 - self.b)); ex.ctx.assume(ge0(k)); ex.ctx.assume(ge0(S.size(self.b) - 1 - k))
            # offsets increase: block b lies before block T
            ex.ctx.assume(ge0(S.off(T) - S.off(self.b + 1))); ex.ctx.assume(Eq(vget(ex, y.o, S.off(self.b) + k), want(self.b, k)))
        def check(self, ex, T, s_):
            u.eq(vget(ex, y.o, S.off(self.b) + k), want(self.b, k), 'earlier blocks are kept'); j = u.idx('k', S.size(T)); u.eq(vget(ex, y.o, S.off(T) + j), want(T, j), 'block of the result is the inverse diagonal block times the block of the input')
    inv = J(u, lambda ex: [(cell, 'real')], fact); qn = 'mfem::BlockDSmoother::Mult'; at_loop(u, qn, inv)
    u.run(qn, [x, y], this=S.this); u.unchanged(x, s, 'the input is not modified'); u.eq(inv.n, S.n, 'every block is visited')
def setup(u, run):
    ex = u.ex; S = Sys(u, 'BlockSmoother', inverses=False); i, j = P(Sym('any_i', 'int')), P(Sym('any_j', 'int')); th = S.this.o
    def dcell(ex): return [((ex.field(ex.field(th, 'diag_inv', 'mfem::Array<mfem::DenseMatrix *>').o, 'data').obj, 'content'), 'obj')]
    def at(ex, b): return ex.elem_value(vget(ex, ex.field(th, 'diag_inv').o, b), 'mfem::DenseMatrix *').obj
    class D(AllInv):
        def facts(self, ex, b, put):
            o = at(ex, b); h, w = M.mdims(ex, o); put(h, S.size(b), 'height of the stored inverse'); put(w, S.size(b), 'width of the stored inverse'); put(P(mget(ex, o, i, j)), S.dinv(b, i, j), 'stored inverse of the diagonal block')
        def assume(self, ex, T):
            ex.ctx.assume(ge0(self.b)); ex.ctx.assume(ge0(T - 1 - self.b)); self.facts(ex, self.b, lambda a, b, d: ex.ctx.assume(Eq(a, b)))
        def check(self, ex, T, s):
            self.facts(ex, self.b, lambda a, b, d: u.eq(a, b, d + ' (kept)')); m = ex.ctx.mark()
            for v in (i, j): ex.ctx.assume(ge0(v)); ex.ctx.assume(ge0(S.size(T) - 1 - v))
            self.facts(ex, T, lambda a, b, d: u.eq(a, b, d)); ex.ctx.reset(m)
    return ex, S, D(u, dcell, None)
def setup_post(u, ex, S, inv):
    u.eq(inv.n, S.n, 'every diagonal block is inverted'); th = S.this.o
    for f in ('num_row_blocks', 'num_col_blocks'): u.eq(ex.field(th, f, 'int'), S.n, f)
    for f in ('row_offsets', 'col_offsets'):
        o = ex.field(th, f).o; u.eq(vsize(ex, o), S.n + 1, f + ' size'); k = u.idx('k' + f, S.n + 1); u.eq(P(vget(ex, o, k)), S.off(k), f)
    u.ensure(TRUE if ex.field(th, 'oper').obj is S.M.o else FALSE, 'the operator is kept')
@unit('P04', 'BlockSmoother::BlockSmoother', files=BS)
def _(u):
    ex, S, inv = setup(u, None); f = u.find('mfem::BlockSmoother::BlockSmoother', nparams=1); ex.under.add(f['key']); at_loop(u, 'mfem::BlockSmoother::BlockSmoother', inv); at_loop(u, 'mfem::BlockSmoother::SetOperator', inv); ex.opts['base_ctor'] = {}
    ex.call_ctor(f, S.this.o, [S.M]); setup_post(u, ex, S, inv)
@unit('P04', 'BlockSmoother::SetOperator', files=BS)
def _(u):
    ex, S, inv = setup(u, None); d = ex.field(S.this.o, 'diag_inv', 'mfem::Array<mfem::DenseMatrix *>').o; ex.lazy[(d, 'size')] = u.int('old_blocks', 0)
    at_loop(u, 'mfem::BlockSmoother::SetOperator', inv); u.run('mfem::BlockSmoother::SetOperator', [S.M], this=S.this); setup_post(u, ex, S, inv)
