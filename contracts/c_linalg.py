"""P01 / P02: dense projection and tensor kernels of linalg_utils."""
from vc.unit import *

LA = ('src/linalg_utils.cpp',)
@unit('P01', 'MultSubMatrix', files=LA)
def _(u):
    ex = u.ex; nr = u.int('nrow', 1); nc = u.int('ncol', 1); h = u.int('height', 1)
    A = u.mat('mat', h, nc); x = u.vec('x', nc); y = u.vec('y'); r = u.iarr('rows', nr, 0, h)
    s = u.old()
    u.run('mfem::MultSubMatrix', [A, r, x, y])
    u.vec_is(y, nr, lambda i: u.at(s, lambda: u.sum(nc, lambda c: mget(ex, A.o, vget(ex, r.o, i), c) * vget(ex, x.o, c))), 'y = mat[rows,:] x')
@unit('P01', 'AddMultTransposeSubMatrix', files=LA)
def _(u):
    ex = u.ex; nr = u.int('nrow', 1); nc = u.int('ncol', 1); h = u.int('height', 1)
    A = u.mat('mat', h, nc); x = u.vec('x', nr); y = u.vec('y', nc); r = u.iarr('rows', nr, 0, h)
    s = u.old()
    u.run('mfem::AddMultTransposeSubMatrix', [A, r, x, y])
    u.vec_is(y, nc, lambda i: u.at(s, lambda: vget(ex, y.o, i) + u.sum(nr, lambda c: mget(ex, A.o, vget(ex, r.o, c), i) * vget(ex, x.o, c))), 'y += mat[rows,:]^T x')
@unit('P01', 'MultTransposeSubMatrix', files=LA)
def _(u):
    ex = u.ex; nr = u.int('nrow', 1); nc = u.int('ncol', 1); h = u.int('height', 1)
    A = u.mat('mat', h, nc); x = u.vec('x', nr); y = u.vec('y', nc); r = u.iarr('rows', nr, 0, h)
    s = u.old()
    u.run('mfem::MultTransposeSubMatrix', [A, r, x, y])
    u.vec_is(y, nc, lambda i: u.at(s, lambda: u.sum(nr, lambda c: mget(ex, A.o, vget(ex, r.o, c), i) * vget(ex, x.o, c))), 'y = mat[rows,:]^T x')
def rap_setup(u, kind):
    ex = u.ex; n = u.int('n', 1); m = u.int('m', 1); hR = u.int('hR', 1); hP = u.int('hP', 1)
    a = u.int('arow', 1); b = u.int('acol', 1)
    R = u.mat('R', hR, n); Pm = u.mat('P', hP, m); A = u.mat('A', a, b); rr = u.iarr('Rrows', a, 0, hR); pr = u.iarr('Prows', b, 0, hP)
    if kind == 'DenseMatrix': out = u.mat('RAP', n, m)
    else:
        out = u.obj('RAP', 'mfem::SparseMatrix'); ex.lazy[(out.o, 'h')] = n; ex.lazy[(out.o, 'w')] = m
    s = u.old()
    u.run('mfem::AddSubMatrixRtAP', [R, rr, A, Pm, pr, out], pred=lambda f: norm_type(f['params'][5]['t'])[0] == 'mfem::' + kind)
    def spec(i, j):
        return mget(ex, out.o, i, j) + u.sum(b, lambda q: u.sum(a, lambda p: mget(ex, R.o, vget(ex, rr.o, p), i) * mget(ex, A.o, p, q)) * mget(ex, Pm.o, vget(ex, pr.o, q), j))
    u.mat_is(out, n, m, lambda i, j: u.at(s, lambda: spec(i, j)), 'RAP += R[rows,:]^T A P[rows,:]')
@unit('P01', 'AddSubMatrixRtAP(dense)', files=LA)
def _(u): rap_setup(u, 'DenseMatrix')
@unit('P01', 'AddSubMatrixRtAP(sparse)', files=LA)
def _(u): rap_setup(u, 'SparseMatrix')
def rtap(u, fn, mode):
    ex = u.ex; n = u.int('n', 0); m = u.int('m', 0); h = u.int('h', 1); w = u.int('w', 1)
    R = u.mat('R', h, n); Pm = u.mat('P', w, m); A = u.obj('A', 'mfem::Operator'); ex.lazy[(A.o, 'h')] = h; ex.lazy[(A.o, 'w')] = w
    s = u.old()
    prod = lambda i, j: u.at(s, lambda: u.sum(h, lambda p: mget(ex, R.o, p, i) * u.sum(w, lambda q: M.op_entry(ex, A.o, p, q) * mget(ex, Pm.o, q, j))))
    if mode == 'set':
        out = u.mat('out'); u.run(fn, [R, A, Pm, out]); old = lambda i, j: ZERO
    elif mode == 'new':
        r = u.run(fn, [R, A, Pm]); out = LObj(r.obj, ex.objcls[r.obj]); old = lambda i, j: ZERO
    else:
        c = 'mfem::' + mode
        out = u.obj('out', c); ex.lazy[(out.o, 'h')] = n; ex.lazy[(out.o, 'w')] = m
        w_ = u.real('wgt')
        u.run(fn, [R, A, Pm, out, w_], pred=lambda f: norm_type(f['params'][3]['t'])[0] == c)
        old = lambda i, j: u.at(s, lambda: mget(ex, out.o, i, j)); p0 = prod; prod = lambda i, j: w_ * p0(i, j)
    u.mat_is(out, n, m, lambda i, j: old(i, j) + prod(i, j), fn)
@unit('P01', 'RtAP', files=LA)
def _(u): rtap(u, 'mfem::RtAP', 'set')
@unit('P01', 'DenseRtAP', files=LA)
def _(u): rtap(u, 'mfem::DenseRtAP', 'new')
@unit('P01', 'SparseRtAP', files=LA)
def _(u): rtap(u, 'mfem::SparseRtAP', 'new')
@unit('P01', 'AddwRtAP(dense)', files=LA)
def _(u): rtap(u, 'mfem::AddwRtAP', 'DenseMatrix')
@unit('P01', 'AddwRtAP(sparse)', files=LA)
def _(u): rtap(u, 'mfem::AddwRtAP', 'SparseMatrix')
@unit('P01', 'GetBasisElement', files=LA)
def _(u):
    ex = u.ex; h = u.int('h', 1); w = u.int('w', 1); n = u.int('n', 0)
    B = u.mat('basis', h, w); c = u.idx('col', w); d = u.iarr('vdofs', n, 0, h); v = u.vec('el'); s = u.old()
    u.run('mfem::GetBasisElement', [B, c, d, v, NULL])
    u.vec_is(v, n, lambda i: u.at(s, lambda: mget(ex, B.o, vget(ex, d.o, i), c)), 'element restriction of the basis column')
    u.unchanged(B, s, 'basis unchanged', 'mat')

# ---------------------------------------------------------------- P02 tensors
def tens(u):
    ex = u.ex; T3 = u.obj('tensor', 'mfem::DenseTensor')
    ni, nj, nk = u.int('ni', 1), u.int('nj', 1), u.int('nk', 1)
    for f, n in zip(('si', 'sj', 'sk'), (ni, nj, nk)): ex.lazy[(T3.o, f)] = n
    return ex, T3, ni, nj, nk
@unit('P02', 'TensorContract', files=LA)
def _(u):
    ex, t, ni, nj, nk = tens(u); x = u.vec('xi', ni); y = u.vec('xj', nj); z = u.vec('yk'); s = u.old()
    u.run('mfem::TensorContract', [t, x, y, z])
    u.vec_is(z, nk, lambda k: u.at(s, lambda: u.sum(nj, lambda j: u.sum(ni, lambda i: tget(ex, t.o, i, j, k) * vget(ex, x.o, i) * vget(ex, y.o, j)))), 'y_k = T_ijk x_i x_j')
@unit('P02', 'TensorAddScaledContract', files=LA)
def _(u):
    ex, t, ni, nj, nk = tens(u); x = u.vec('xi', ni); y = u.vec('xj', nj); z = u.vec('yk', nk); w = u.real('w'); s = u.old()
    u.run('mfem::TensorAddScaledContract', [t, w, x, y, z])
    u.vec_is(z, nk, lambda k: u.at(s, lambda: vget(ex, z.o, k) + w * u.sum(nj, lambda j: u.sum(ni, lambda i: tget(ex, t.o, i, j, k) * vget(ex, x.o, i) * vget(ex, y.o, j)))), 'y_k += w T_ijk x_i x_j')
@unit('P02', 'TensorMult', files=LA)
def _(u):
    ex, t, ni, nj, nk = tens(u); x = u.vec('x', nk); m = u.mat('M', ni, nj); s = u.old()
    u.run('mfem::TensorMult', [t, x, m])
    u.mat_is(m, ni, nj, lambda i, j: u.at(s, lambda: u.sum(nk, lambda k: tget(ex, t.o, i, j, k) * vget(ex, x.o, k))), 'M_ij = T_ijk x_k')
@unit('P02', 'TensorAddMultTranspose(axis 0)', files=LA)
def _(u):
    ex, t, ni, nj, nk = tens(u); x = u.vec('x', ni); m = u.mat('M', nk, nj); s = u.old()
    u.run('mfem::TensorAddMultTranspose', [t, x, P(0), m])
    u.mat_is(m, nk, nj, lambda k, j: u.at(s, lambda: mget(ex, m.o, k, j) + u.sum(ni, lambda i: tget(ex, t.o, i, j, k) * vget(ex, x.o, i))), 'M_kj += T_ijk x_i')
@unit('P02', 'TensorAddMultTranspose(axis 1)', files=LA)
def _(u):
    ex, t, ni, nj, nk = tens(u); x = u.vec('x', nj); m = u.mat('M', nk, ni); s = u.old()
    u.run('mfem::TensorAddMultTranspose', [t, x, P(1), m])
    u.mat_is(m, nk, ni, lambda k, i: u.at(s, lambda: mget(ex, m.o, k, i) + u.sum(nj, lambda j: tget(ex, t.o, i, j, k) * vget(ex, x.o, j))), 'M_ki += T_ijk x_j')
@unit('P02', 'TensorAddScaledMultTranspose(axis 0)', files=LA)
def _(u):
    ex, t, ni, nj, nk = tens(u); x = u.vec('x', ni); m = u.mat('M', nk, nj); w = u.real('w'); s = u.old()
    u.run('mfem::TensorAddScaledMultTranspose', [t, w, x, P(0), m])
    u.mat_is(m, nk, nj, lambda k, j: u.at(s, lambda: mget(ex, m.o, k, j) + w * u.sum(ni, lambda i: tget(ex, t.o, i, j, k) * vget(ex, x.o, i))), 'M_kj += w T_ijk x_i')
@unit('P02', 'TensorAddScaledMultTranspose(axis 1)', files=LA)
def _(u):
    ex, t, ni, nj, nk = tens(u); x = u.vec('x', nj); m = u.mat('M', nk, ni); w = u.real('w'); s = u.old()
    u.run('mfem::TensorAddScaledMultTranspose', [t, w, x, P(1), m])
    u.mat_is(m, nk, ni, lambda k, i: u.at(s, lambda: mget(ex, m.o, k, i) + w * u.sum(nj, lambda j: tget(ex, t.o, i, j, k) * vget(ex, x.o, j))), 'M_ki += w T_ijk x_j')
@unit('P02', 'TensorAddMultOnJ', files=LA)
def _(u):
    ex, t, ni, nj, nk = tens(u); x = u.vec('x', nj); m = u.mat('M', ni, nk); s = u.old()
    u.run('mfem::TensorAddMultOnJ', [t, x, m])
    u.mat_is(m, ni, nk, lambda i, k: u.at(s, lambda: mget(ex, m.o, i, k) + u.sum(nj, lambda j: tget(ex, t.o, i, j, k) * vget(ex, x.o, j))), 'M_ik += T_ijk x_j')

# ---------------------------------------------------------------- the proved contracts, as used by callers
@contract('mfem::AddMultTransposeSubMatrix')
def _(ex, a, e):
    A, r, x, y = map(obj, a); nr, nc, h = vsize(ex, r), mdims(ex, A)[1], mdims(ex, A)[0]
    M.same(ex, vsize(ex, x), nr, 'AddMultTransposeSubMatrix: x has one entry per selected row', e); M.same(ex, vsize(ex, y), nc, 'AddMultTransposeSubMatrix: y has one entry per column', e)
    ex.oblige('pre', gt0(nr), 'AddMultTransposeSubMatrix: at least one row', e)
    i = Fresh('i')
    with_range(ex, [(i, nr)], lambda: ex.oblige('pre', And(ge0(vget(ex, r, P(i))), ge0(h - 1 - vget(ex, r, P(i)))), 'AddMultTransposeSubMatrix: selected rows in range', e))
    M.vadd(ex, y, lambda c: vsum(ex, nr, lambda k: mget(ex, A, vget(ex, r, k), c) * vget(ex, x, k)))
    return VOID
@contract('mfem::RtAP')
def _(ex, a, e):
    R, A, Pm, out = map(obj, a); (h, n), (w, m) = mdims(ex, R), mdims(ex, Pm)
    M.same(ex, h, ex.field(A, 'h'), 'RtAP: left basis conforms', e); M.same(ex, w, ex.field(A, 'w'), 'RtAP: right basis conforms', e)
    M.mresize(ex, out, n, m, e)
    M.mset(ex, out, lambda i, j: vsum(ex, h, lambda p: mget(ex, R, p, i) * vsum(ex, w, lambda q: M.op_entry(ex, A, p, q) * mget(ex, Pm, q, j))))
    return VOID
# ---- Gram-Schmidt: the columns become orthonormal, and every old column is a combination of the new ones up to it, with a positive last coefficient (the factorisation that makes them the classical Gram-Schmidt vectors)
from contracts.c_topol import Facts
from vc.terms import Inv as Inv_
def gs_setup(u, A, h, w, m1=None):
    """R(p, i): coefficient of new column p in old column i, defined by the iteration that makes column p. m1(r): an arbitrary vector that all the columns are orthogonal to"""
    ex = u.ex; p0, q0, r0 = u.idx('any_column', w), u.idx('other_column', w), u.idx('any_row', h); R = lambda p, i: P(App('R', P(p), P(i), sort='real')); old = lambda r, i: u.at(inv.s, lambda: mget(ex, A.o, r, i)); m = lambda r, i: mget(ex, A.o, r, i); dot = lambda p, q: u.sum(h, lambda r: m(r, p) * m(r, q))
    rest = lambda n: old(r0, q0) - u.sum(n, lambda p: R(p, q0) * m(r0, p)); dot1 = lambda q: u.sum(h, lambda r: m1(r) * m(r, q))
    def facts(ex, T):
        T = P(T); out = []; c = ex.ctx.entails; a = ge0(T - 1 - p0); b = ge0(T - 1 - q0)
        if not c(Not(a)): out += [(Implies(a, Eq(dot(p0, p0), ONE)), 'finished columns have length one'), (Implies(And(a, Ne(p0, q0)), Eq(dot(p0, q0), ZERO)), 'every column is orthogonal to the finished ones')]
        if not c(b): out.append((Eq(m(r0, q0), rest(T)) if c(Not(b)) else Implies(Not(b), Eq(m(r0, q0), rest(T))), 'a column that is not finished is the old one without its parts along the finished ones'))
        if not c(Not(b)): out.append((Eq(m(r0, q0) * R(q0, q0), rest(q0)) if c(b) else Implies(b, Eq(m(r0, q0) * R(q0, q0), rest(q0))), 'a finished column is the old one without its parts along the columns before it, and scaled'))
        if m1: out.append((Eq(dot1(q0), ZERO), 'the columns stay orthogonal to the given ones'))
        return out
    class Inv(Facts):
        def enter(self, ex, s): self.s = u.old(); Facts.enter(self, ex, s)
        def assume(self, ex, T):
            T = P(T); Facts.assume(self, ex, T)
            f = lambda p: R(p, q0) * m(r0, p); ex.ctx.assume(Eq(u.sum(T + 1, f), u.sum(T, f) + f(T)))      # the last term of a sum
            for x in (p0, q0): ex.decide(ge0(T - 1 - x)); ex.decide(ge0(T - x)); ex.decide(Eq(T, x))
            ex.decide(Eq(p0, q0)); ex.ctx.assume(Implies(ge0(T - 1 - p0), Eq(dot(p0, T), ZERO))); ex.ctx.assume(Implies(ge0(T - 1 - q0), Eq(dot(T, q0), ZERO)))      # the facts for column T
            if m1: ex.ctx.assume(Eq(dot1(T), ZERO))
            ex.note('the columns are linearly independent'); n = dot(T, T); ex.ctx.assume(gt0(n)); self.n0 = n; self.d0 = dot(T, q0); self.m0 = m(r0, T); ex.ctx.assume(Implies(Eq(T, q0), Eq(self.m0, rest(q0))))
        def check(self, ex, T, st):      # the coefficients that this iteration defines
            T = P(T); l = FUNCS['sqrt'](ex, [self.n0], None)
            if ex.ctx.entails(Eq(T, q0)): ex.ctx.assume(Eq(R(q0, q0), l)); ex.ctx.assume(Eq(R(q0, q0) * Inv_(l) * self.m0, self.m0))
            elif not ex.ctx.entails(ge0(T - 1 - q0)): ex.ctx.assume(Eq(R(T, q0), self.d0 * Inv_(l))); ex.ctx.assume(Eq(R(T, q0) * Inv_(l) * self.m0, self.d0 * Inv_(self.n0) * self.m0))
            Facts.check(self, ex, T, st)
    inv = Inv(facts); return inv, facts, q0, r0, m
@unit('P01', 'modifiedGramSchmidt', files=LA)
def _(u):
    ex = u.ex; h = u.int('h', 1); w = u.int('w', 1); A = u.mat('mat', h, w); inv, facts = gs_setup(u, A, h, w)[:2]; inv.s = s = u.old(); at_loop(u, 'mfem::modifiedGramSchmidt', inv, 1); u.run('mfem::modifiedGramSchmidt', [A])
    inv.s = s
    for f, d in facts(ex, w): u.ensure(f, d)
@unit('P01', 'Orthonormalize', files=LA)
def _(u):
    ex = u.ex; h = u.int('h', 1); w = u.int('w', 1); n = u.int('n1', 0); A = u.mat('mat', h, w); B = u.mat('mat1', h, n); s = u.old(); k0 = u.idx('any_given', n); g = lambda r, k: u.at(s, lambda: mget(ex, B.o, r, k)); S = lambda i, c: P(App('S', P(i), P(c), sort='real')); gd = lambda i, k: u.sum(h, lambda r: g(r, i) * g(r, k))
    inv, facts, q0, r0, m = gs_setup(u, A, h, w, lambda r: g(r, k0)); dot = lambda k, c: u.sum(h, lambda r: g(r, k) * m(r, c)); old = lambda r, c: u.at(s, lambda: mget(ex, A.o, r, c))
    ex.note('the columns of the first matrix are orthogonal to each other, and not zero'); ex.ctx.assume(gt0(gd(k0, k0))); rest = lambda N: old(r0, q0) - u.sum(N, lambda i: S(i, q0) * g(r0, i))
    def first(ex, T): T = P(T); return [(Implies(ge0(T - 1 - k0), Eq(dot(k0, q0), ZERO)), 'the parts along the given columns are gone'), (Eq(m(r0, q0), rest(T)), 'a column is the old one without a combination of the given ones')]
    class Given(Facts):
        def assume(self, ex, T):
            T = P(T); Facts.assume(self, ex, T); ex.decide(ge0(T - 1 - k0)); ex.decide(ge0(T - k0)); ex.decide(Eq(T, k0)); f = lambda i: S(i, q0) * g(r0, i); ex.ctx.assume(Eq(u.sum(T + 1, f), u.sum(T, f) + f(T)))
            ex.ctx.assume(gt0(gd(T, T))); ex.ctx.assume(Or(Eq(T, k0), Eq(gd(T, k0), ZERO))); self.d = dot(T, q0); ex.ctx.assume(Implies(Eq(T, k0), Eq(Inv_(gd(T, T)) * gd(k0, T) * self.d, dot(k0, q0)))); ex.ctx.assume(Eq(S(T, q0), self.d * Inv_(gd(T, T)))); ex.ctx.assume(Eq(S(T, q0) * g(r0, T), self.d * Inv_(gd(T, T)) * g(r0, T)))
    at_loop(u, 'mfem::Orthonormalize', Given(first), 1); at_loop(u, 'mfem::modifiedGramSchmidt', inv, 1); u.run('mfem::Orthonormalize', [B, A])
    for f, d in facts(ex, w): u.ensure(f, d)
    u.ensure(u.at(inv.s, lambda: Eq(m(r0, q0), rest(n))), 'Gram-Schmidt starts from the columns without their parts along the given ones'); u.ensure(u.at(inv.s, lambda: Eq(dot(k0, q0), ZERO)), 'those are orthogonal to the given ones'); u.unchanged(B, s, 'the given columns are unchanged', 'mat')
# ---- block accumulation. The blocks of the block matrix as one four-index quantity, and whether each is absent
MODELS = M.MODELS
def _bghost(name, fn, cls='BlockMatrix', cond=None):
    old = MODELS.get((cls, name))
    if getattr(old, 'ghosts', False): return
    def f(ex, t, a, e):
        if ex.opts.get('blockghost') and (cond is None or cond(ex, t, a)): return fn(ex, ex.opts['blockghost'], t, a, e)
        if old is None: raise Unsupported('%s::%s' % (cls, name))
        return old(ex, t, a, e)
    f.ghosts = True; MODELS[(cls, name)] = f
class Blocks:
    def __init__(self, u):
        ex = self.ex = u.ex; self.B = u.obj('bmat', 'mfem::BlockMatrix'); self.nr, self.nc = u.int('row_blocks', 1), u.int('col_blocks', 1)
        for f, n in (('row_offsets', self.nr), ('col_offsets', self.nc)): o = u.obj(f, 'mfem::Array<int>'); ex.lazy[(o.o, 'size')] = n + 1; ex.lazy[(self.B.o, f)] = o; setattr(self, f, o)
        ex.lazy[(self.B.o, 'owns_blocks')] = ONE
        for f, s, sh in (('G', 'real', (self.nr, self.nc, P(Sym('gh', 'int')), P(Sym('gw', 'int')))), ('Z', 'int', (self.nr, self.nc))):
            g = Sym('ghost_' + f, 'obj'); ex.objcls[g] = '#region'; ex.put((g, 'content'), Base(Sym('blocks_' + f, 'obj'), s)); ex.put((g, 'shape'), sh); setattr(self, f, g)
        ex.opts['blockghost'] = self
        def inr(ex, S, a, e): i, j = ex.num(a[0]), ex.num(a[1]); ex.oblige('bounds', And(ge0(i), ge0(S.nr - 1 - i), ge0(j), ge0(S.nc - 1 - j)), 'block index in range', e); return i, j
        def zero(ex, S, t, a, e): return Ne(S.absent(*inr(ex, S, a, e)), ZERO)
        def get(ex, S, t, a, e): i, j = inr(ex, S, a, e); ex.oblige('pre', Eq(S.absent(i, j), ZERO), 'the block is present', e); o = App('gblk', P(i), P(j), sort='obj'); ex.objcls.setdefault(o, 'mfem::SparseMatrix'); ex.nonnulls.add(o); return LObj(o, 'mfem::SparseMatrix')
        def put(ex, S, t, a, e):
            i, j = inr(ex, S, a, e); ex.oblige("pre", Ne(S.absent(i, j), ZERO), "no block is lost", e); p = a[2] if isinstance(a[2], Ptr) else ex.load(a[2], e); ex.oblige('pre', ex.nonnull(p), 'the new block exists', e); o = p.obj; h, w = M.mdims(ex, o); ex.oblige('pre', TRUE if o in ex.created else FALSE, 'the new block is its own', e); M.same(ex, h, S.rdim(i), 'rows of the new block', e); M.same(ex, w, S.cdim(j), 'columns of the new block', e); x, y = Fresh('x'), Fresh('y')
            M.with_range(ex, [(x, h), (y, w)], lambda: ex.oblige('pre', Eq(mget(ex, o, P(x), P(y)), ZERO), 'the new block is empty', e)); ex.put((S.Z, 'content'), SetN(ex.content(S.Z), (), (P(i), P(j)), ZERO)); return VOID
        def acc(ex, S, t, a, e):
            i, j = t.o.args[1], t.o.args[2]; m = obj(a[0]); h, w = M.mdims(ex, m); M.same(ex, h, S.rdim(i), 'rows of the added block', e); M.same(ex, w, S.cdim(j), 'columns of the added block', e); x, y = Fresh('x'), Fresh('y'); v = M.with_range(ex, [(x, h), (y, w)], lambda: mget(ex, m, P(x), P(y)))
            ex.put((S.G, 'content'), ex.mk_add(ex.content(S.G), ((x, h), (y, w)), (P(i), P(j), P(x), P(y)), P(v))); return t
        for n, f in (('NumRowBlocks', lambda ex, S, t, a, e: S.nr), ('NumColBlocks', lambda ex, S, t, a, e: S.nc), ('RowOffsets', lambda ex, S, t, a, e: S.row_offsets), ('ColOffsets', lambda ex, S, t, a, e: S.col_offsets), ('IsZeroBlock', zero), ('GetBlock', get), ('SetBlock', put)): _bghost(n, f)
        _bghost('+=', acc, 'SparseMatrix', lambda ex, t, a: t.o.kind == 'app' and t.o.args[0] == 'gblk')
    def rdim(self, i): return vget(self.ex, self.row_offsets.o, P(i) + 1) - vget(self.ex, self.row_offsets.o, P(i))
    def cdim(self, j): return vget(self.ex, self.col_offsets.o, P(j) + 1) - vget(self.ex, self.col_offsets.o, P(j))
    def absent(self, i, j): return P(self.ex.read(self.ex.content(self.Z), (P(i), P(j))))
    def entry(self, *ix): return P(self.ex.read(self.ex.content(self.G), tuple(P(x) for x in ix)))
@unit('P01', 'AddToBlockMatrix', files=LA)
def _(u):
    ex = u.ex; S = Blocks(u); n = u.int('nrow', 1); m = u.int('ncol', 1); ri = u.iarr('ridx', n, 0, S.nr); ci = u.iarr('cidx', m, 0, S.nc); mb = u.obj('mats', 'mfem::MatrixBlocks'); tab = u.obj('mats_blocks', 'mfem::Array2D<mfem::SparseMatrix *>')
    for o, f, v in ((mb, 'nrows', n), (mb, 'ncols', m), (mb, 'blocks', tab), (tab, 'h', n), (tab, 'w', m)): ex.lazy[(o.o, f)] = v
    blk = lambda i, j: ex.elem_value(mget(ex, tab.o, P(i), P(j)), 'mfem::SparseMatrix *'); x0 = blk(Fresh('I'), Fresh('J')).obj
    def lz(o, f):
        if f in 'hw' and o.kind == 'app' and o.args[0] == 'rd' and o.args[1] is x0.args[1]: ex.objcls[o] = 'mfem::SparseMatrix'; return S.rdim(vget(ex, ri.o, P(o.args[2]))) if f == 'h' else S.cdim(vget(ex, ci.o, P(o.args[3])))
    ex.lazyfn.append(lz); ex.note('every block that is added has the size of the block it is added to, and is not part of the block matrix')
    I0, J0 = u.idx('any_block_row', S.nr), u.idx('any_block_col', S.nc); a0, b0 = u.int('any_row', 0), u.int('any_col', 0); u.assume(ge0(S.rdim(I0) - 1 - a0)); u.assume(ge0(S.cdim(J0) - 1 - b0)); s = u.old()
    hit = lambda i, j: Ind(ex.nonnull(blk(i, j))) * Ind(Eq(I0, vget(ex, ri.o, P(i)))) * Ind(Eq(J0, vget(ex, ci.o, P(j)))); term = lambda i, j: hit(i, j) * mget(ex, blk(i, j).obj, a0, b0); row = lambda f, i, N: u.sum(N, lambda j: f(i, j)); g0 = u.at(s, lambda: S.entry(I0, J0, a0, b0)); z0 = u.at(s, lambda: S.absent(I0, J0))
    def facts(ex, gsum, hits): return [(Eq(S.entry(I0, J0, a0, b0), g0 + gsum), 'every block has got what belongs to it so far, and nothing else'), (Or(Ne(hits, ZERO), Eq(S.absent(I0, J0), z0)), 'a block that nothing belongs to is there exactly if it was'), (Or(Eq(hits, ZERO), Eq(S.absent(I0, J0), ZERO)), 'a block that something belongs to is there'), ]
    tot = lambda f, T: u.sum(T, lambda i: row(f, i, m))
    class Outer(Facts):
        def check(self, ex, T, st):
            for f in (term, hit): ex.ctx.assume(Eq(tot(f, P(T) + 1), tot(f, P(T)) + row(f, P(T), m)))
            ex.ctx.assume(ge0(tot(hit, P(T)))); ex.ctx.assume(ge0(row(hit, P(T), m))); Facts.check(self, ex, T, st)
    class Inner(Facts):
        def assume(self, ex, T):
            T = P(T); Facts.assume(self, ex, T); i = P(outer.T)
            for f in (term, hit): ex.ctx.assume(Eq(row(f, i, T + 1), row(f, i, T) + f(i, T)))
            ex.ctx.assume(ge0(tot(hit, i))); ex.ctx.assume(ge0(row(hit, i, T)))
            for f, x, y in ((S.rdim, I0, vget(ex, ri.o, i)), (S.cdim, J0, vget(ex, ci.o, T))): ex.decide(Eq(x, y)); ex.ctx.assume(Implies(Eq(x, y), Eq(f(x), f(y))))
            x, y = vget(ex, ri.o, i), vget(ex, ci.o, T); ex.ctx.assume(Implies(And(Eq(x, I0), Eq(y, J0)), Eq(S.absent(x, y), S.absent(I0, J0))))
    outer = Outer(lambda ex, T: facts(ex, tot(term, P(T)), tot(hit, P(T)))); inner = Inner(lambda ex, T: facts(ex, tot(term, P(outer.T)) + row(term, P(outer.T), P(T)), tot(hit, P(outer.T)) + row(hit, P(outer.T), P(T))))
    at_loop(u, 'mfem::AddToBlockMatrix', outer, 1); at_loop(u, 'mfem::AddToBlockMatrix', inner, 2); u.run('mfem::AddToBlockMatrix', [ri, ci, mb, S.B])
    for f, d in facts(ex, tot(term, n), tot(hit, n)): u.ensure(f, d)
    for o, d in ((ri, 'row indices'), (ci, 'column indices')): u.unchanged(o, s, d + ' unchanged')
# ---- grids of blocks
def grid(u, name, n=None, m=None):
    ex = u.ex; o = u.obj(name, 'mfem::MatrixBlocks'); t = u.obj(name + '_blocks', 'mfem::Array2D<mfem::SparseMatrix *>'); n = u.int(name + '_rows', 0) if n is None else n; m = u.int(name + '_cols', 0) if m is None else m
    for x, f, v in ((o, 'nrows', n), (o, 'ncols', m), (o, 'blocks', t), (t, 'h', n), (t, 'w', m)): ex.lazy[(x.o, f)] = v
    return o, t, n, m
def is_grid(u, o, n, m, at):
    """the grid o has n x m blocks, block (i, j) is what at says (None: absent)"""
    ex = u.ex; b = obj(ex.field(o.o, 'blocks', 'mfem::Array2D<mfem::SparseMatrix *>'))
    for f, v, d in (('nrows', n, 'block rows'), ('ncols', m, 'block columns')): u.eq(ex.field(o.o, f, 'int'), v, d)
    u.eq(ex.field(b, 'h'), n, 'rows of the table'); u.eq(ex.field(b, 'w'), m, 'columns of the table'); i, j = u.int('i', 0), u.int('j', 0); u.assume(ge0(n - 1 - i)); u.assume(ge0(m - 1 - j))
    if not ex.ctx.infeasible(): at(i, j, mget(ex, b, i, j))
@unit('P01', 'MatrixBlocks::operator=', files=LA)
def _(u):
    ex = u.ex; a, ta, n, m = grid(u, 'source'); b, tb, _, _ = grid(u, 'target'); s = u.old()
    def new(ex, args, e):
        x = obj(args[0]); c = App('copy_of_block', x, sort='obj'); ex.objcls.setdefault(c, 'mfem::SparseMatrix'); ex.nonnulls.add(c); return Ptr(c)
    u.assume(Not(BAtom(App('same', a.o, b.o, sort='bool')))); ex.opts['new'] = {'mfem::SparseMatrix': new, 'SparseMatrix': new}; ex.opts['new_copies'] = True
    u.run('mfem::MatrixBlocks::operator=', [a], b, pred=lambda f: 'MatrixBlocks' in f['params'][0]['t'])
    def at(i, j, y):
        x = u.at(s, lambda: mget(ex, ta.o, i, j))
        if ex.decide(ex.nonnull(Ptr(x))): u.ensure(TRUE if y is App('copy_of_block', x, sort='obj') else FALSE, 'every block is a copy of the block there')
        else: u.ensure(Not(ex.nonnull(Ptr(y))), 'an absent block is absent')
    is_grid(u, b, n, m, at); u.unchanged(ta, s, 'the source is unchanged', 'mat')
@unit('P01', 'MatrixBlocks::operator=(itself)', files=LA)
def _(u):
    ex = u.ex; a, t, n, m = grid(u, 'grid'); s = u.old(); u.run('mfem::MatrixBlocks::operator=', [a], a, pred=lambda f: 'MatrixBlocks' in f['params'][0]['t']); is_grid(u, a, n, m, lambda i, j, y: u.ensure(TRUE if y is u.at(s, lambda: mget(ex, t.o, i, j)) else FALSE, 'the blocks stay'))
@unit('P01', 'MatrixBlocks::operator=(table)', files=LA)
def _(u):
    ex = u.ex; a = grid(u, 'target', 0, 0)[0]; t = u.obj('table', 'mfem::Array2D<mfem::SparseMatrix *>'); n, m = u.int('n', 0), u.int('m', 0); ex.lazy[(t.o, 'h')] = n; ex.lazy[(t.o, 'w')] = m; s = u.old(); u.run('mfem::MatrixBlocks::operator=', [t], a, pred=lambda f: 'Array2D' in f['params'][0]['t']); is_grid(u, a, n, m, lambda i, j, y: u.ensure(TRUE if y is u.at(s, lambda: mget(ex, t.o, i, j)) else FALSE, 'the blocks are those of the table'))
@unit('P01', 'MatrixBlocks::SetSize', files=LA)
def _(u):
    ex = u.ex; a = grid(u, 'grid')[0]; n, m = u.int('n', 0), u.int('m', 0); u.run('mfem::MatrixBlocks::SetSize', [n, m], a); is_grid(u, a, n, m, lambda i, j, y: u.ensure(Not(ex.nonnull(Ptr(y))), 'no block is there'))
for _k in (0, 2):
    @unit('P01', 'MatrixBlocks::MatrixBlocks(%d)' % _k, files=LA)
    def _(u, k=_k):
        ex = u.ex; n, m = (u.int('n', 0), u.int('m', 0)) if k else (ZERO, ZERO); f = u.find('mfem::MatrixBlocks::MatrixBlocks', nparams=k); ex.under.add(f['key']); o = u.obj('grid', 'mfem::MatrixBlocks'); ex.call_ctor(f, o.o, [n, m][:k]); is_grid(u, o, n, m, lambda i, j, y: u.ensure(Not(ex.nonnull(Ptr(y))), 'no block is there'))
