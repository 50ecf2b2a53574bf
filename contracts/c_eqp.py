"""P07: hyper-reduced evaluation from the values stored with one sample."""
from vc.unit import *
from contracts.c_nonlinear import *

@contract('mfem::AddwRtAP')
def _(ex, a, e):
    R, A, Pm, out = map(obj, a[:4]); w_ = P(a[4]) if not isinstance(a[4], (LObj, Ptr)) else None
    if w_ is None: return None
    (h, n), (w, m) = mdims(ex, R), mdims(ex, Pm)
    M.same(ex, h, ex.field(A, 'h'), 'AddwRtAP: left basis conforms', e); M.same(ex, w, ex.field(A, 'w'), 'AddwRtAP: right basis conforms', e)
    M.same(ex, n, mdims(ex, out)[0], 'AddwRtAP: result rows', e); M.same(ex, m, mdims(ex, out)[1], 'AddwRtAP: result columns', e)
    M.madd(ex, out, lambda i, j: w_ * vsum(ex, h, lambda p: mget(ex, R, p, i) * vsum(ex, w, lambda q: M.op_entry(ex, A, p, q) * mget(ex, Pm, q, j))))
    return VOID

class Sample:
    """stored values of nb basis vectors at one sampled point: shape (dim x nb), gradients (nb matrices dim x dim)"""
    def __init__(self, u, this, sides=1, nb2=None):
        ex = u.ex; dim = u.dim; self.nb = u.int('nb', 1); self.nb2 = nb2 or self.nb
        S = self.o = u.obj('eqp_sample', 'mfem::EQPSample')
        self.sh = [u.mat('shape1', dim, self.nb), u.mat('shape2', dim, self.nb2)]
        ex.lazy[(S.o, 'shape1')] = Ptr(self.sh[0].o); ex.lazy[(S.o, 'shape2')] = Ptr(self.sh[1].o) if sides == 2 else Ptr(None)
        G = self.G = u.obj('dshape1', 'mfem::Array<mfem::DenseMatrix *>'); ex.lazy[(S.o, 'dshape1')] = G; ex.lazy[(G.o, 'size')] = self.nb
        info = u.obj('info', 'mfem::SampleInfo'); ex.lazy[(S.o, 'info')] = info
        self.w = u.real('qw'); r = ex.field(this.o, 'IntRule', 'const mfem::IntegrationRule *'); u.assume(ex.nonnull(r)); qp = u.int('qp', 0); u.assume(ge0(nq(r.obj) - 1 - qp))
        ex.lazy[(info.o, 'qp')] = qp; ex.lazy[(info.o, 'qw')] = self.w
        self.ip = qval(ex, qpt(ex, r.obj, qp))
        def f(o, fl):
            if o.kind == 'app' and o.args[0] == 'rd' and o.args[1] is G.o and fl in ('h', 'w'): return P(dim)
        ex.lazyfn.append(f)
    def grad(self, ex, k):
        o = App('rd', self.G.o, P(k), sort='obj'); ex.objcls.setdefault(o, 'mfem::DenseMatrix'); return o

def fast_domain(u, cls, spec):
    ex = u.ex; dim = u.dim; this = setup(u, cls); T = u.obj('T', 'mfem::ElementTransformation'); S = Sample(u, this); nb = S.nb
    x, base = basevec(u, 'x', nb); y = u.vec('y', nb); A = u.mat('jac', nb, nb); s = u.old()
    u.run('mfem::%s::AddAssembleVector_Fast' % cls, [S.o, T, x, y], this=this, nparams=4)
    sy = u.old(); w = lambda: S.w * wt(T, S.ip) * coef_or_one(u, this, 'Q', T, S.ip)
    u.vec_is(y, nb, lambda b: u.at(s, lambda: vget(ex, y.o, b) + w() * spec(u, this, T, S, x, b)), '%s fast residual: adds the weight times the point contribution tested with basis vector b' % cls)
    u.unchanged(x, s, 'the reduced state is not modified')
    ex.st = s.copy()
    u.run('mfem::%s::AddAssembleGrad_Fast' % cls, [S.o, T, x, A], this=this, nparams=4)
    u.mat_is(A, nb, nb, lambda i, j: u.at(s, lambda: mget(ex, A.o, i, j)) + diff(u.at(sy, lambda: vget(ex, y.o, i)), base, (j,)), '%s fast Jacobian is the derivative of the fast residual' % cls)
    u.unchanged(x, s, 'the reduced state is not modified by the Jacobian')
def red(u, m, x, nb, dim): return [u.sum(nb, lambda k, c=c: mget(u.ex, m.o, c, k) * vget(u.ex, x.o, k)) for c in range(dim)]
def sp_conv(u, this, T, S, x, b):
    ex = u.ex; dim = u.dim; vq = ex.field(this.o, 'vQ', 'mfem::VectorCoefficient *')
    if ex.decide(ex.nonnull(vq)): v = [P(App('vcoef', vq.obj, T.o, S.ip, P(l))) for l in range(dim)]
    else: v = red(u, S.sh[0], x, S.nb, dim)
    g = lambda c, l: u.sum(S.nb, lambda k: vget(ex, x.o, k) * mget(ex, S.grad(ex, k), c, l))
    return sum((mget(ex, S.sh[0].o, c, b) * sum((g(c, l) * v[l] for l in range(dim)), ZERO) for c in range(dim)), ZERO)
def sp_flux(u, this, T, S, x, b):
    ex = u.ex; dim = u.dim; v = red(u, S.sh[0], x, S.nb, dim)
    return sum((v[c] * mget(ex, S.grad(ex, b), c, l) * v[l] for c in range(dim) for l in range(dim)), ZERO)
@unit('P07', 'VectorConvection(fast)', dims=(2, 3), files=HR)
def _(u): fast_domain(u, 'VectorConvectionTrilinearFormIntegrator', sp_conv)
@unit('P07', 'IncompressibleInviscidFlux(fast)', dims=(2, 3), files=HR)
def _(u): fast_domain(u, 'IncompressibleInviscidFluxNLFIntegrator', sp_flux)

class FastFace:
    def __init__(self, u, interior, iface=False):
        self.u = u; ex = u.ex; self.dim = u.dim; self.this = setup(u, LF); self.T = u.obj('Tr1' if iface else 'Tr', FT); self.T2 = u.obj('Tr2', FT)
        if not iface: u.assume(ge0(ex.field(self.T.o, 'Elem2No')) if interior else Not(ge0(ex.field(self.T.o, 'Elem2No'))))
        self.interior = interior; self.S = Sample(u, self.this, 2 if interior else 1, u.int('nb2', 1) if iface else None)
        self.x, self.base = basevec(u, 'x1' if iface else 'x', self.S.nb)
        if iface: self.x2, self.base2 = basevec(u, 'x2', self.S.nb2)
        else: self.x2 = self.x
    def u1(self, ip): return red(self.u, self.S.sh[0], self.x, self.S.nb, self.dim)
    def u2(self, ip): return red(self.u, self.S.sh[1], self.x2, self.S.nb2, self.dim)
    def nor(self, ip): return normal(self.u, self.T, ip, self.dim)
def fast_face(u, interior):
    ex = u.ex; f = FastFace(u, interior); S = f.S; nb = S.nb; dim = u.dim; y = u.vec('y', nb); A = u.mat('jac', nb, nb); s = u.old()
    u.run('mfem::%s::AddAssembleVector_Fast' % LF, [S.o, f.T, f.x, y], this=f.this, nparams=4)
    sy = u.old()
    def spec(b):
        fl = fl_lf(f, S.ip)
        return S.w * sum((fl[side][c] * mget(ex, S.sh[side].o, c, b) for side in range(2 if interior else 1) for c in range(dim)), ZERO)
    u.vec_is(y, nb, lambda b: u.at(s, lambda: vget(ex, y.o, b) + spec(b)), 'fast face residual: adds the weight times the flux tested with basis vector b')
    u.unchanged(f.x, s, 'the reduced state is not modified')
    ex.st = s.copy()
    u.run('mfem::%s::AddAssembleGrad_Fast' % LF, [S.o, f.T, f.x, A], this=f.this, nparams=4)
    u.mat_is(A, nb, nb, lambda i, j: u.at(s, lambda: mget(ex, A.o, i, j)) + diff(u.at(sy, lambda: vget(ex, y.o, i)), f.base, (j,)), 'fast face Jacobian is the derivative of the fast residual')
    u.unchanged(f.x, s, 'the reduced state is not modified by the Jacobian')
@unit('P07', 'DGLaxFriedrichsFlux(interior, fast)', dims=(1, 2, 3), files=II, cost=5)
def _(u): fast_face(u, True)
@unit('P07', 'DGLaxFriedrichsFlux(boundary, fast)', dims=(1, 2, 3), files=II, cost=2)
def _(u): fast_face(u, False)
@unit('P07', 'InterfaceDGLaxFriedrichsFlux(fast)', dims=(1, 2, 3), files=II, cost=4)
def _(u):
    ex = u.ex; f = FastFace(u, True, True); S = f.S; n = [S.nb, S.nb2]; dim = u.dim; y = [u.vec('y1', n[0]), u.vec('y2', n[1])]; s = u.old(); X = [f.x, f.x2]
    u.run('mfem::%s::AddAssembleVector_Fast' % LF, [S.o, f.T, f.T2] + X + y, this=f.this, nparams=7)
    sy = u.old()
    for side in (0, 1):
        spec = lambda b: S.w * sum((fl_lf(f, S.ip)[side][c] * mget(ex, S.sh[side].o, c, b) for c in range(dim)), ZERO)
        u.vec_is(y[side], n[side], lambda b: u.at(s, lambda: vget(ex, y[side].o, b) + spec(b)), 'fast interface residual, side %d: adds the weight times the flux tested with basis vector b' % (side + 1))
        u.unchanged(X[side], s, 'the reduced state is not modified')
    ex.st = s.copy(); E, mats = matgrid(u, 'SparseMatrix', 'jac')
    for a in (0, 1):
        for b in (0, 1): ex.lazy[(mats[a][b].o, 'h')] = n[a]; ex.lazy[(mats[a][b].o, 'w')] = n[b]
    s2 = u.old()
    u.run('mfem::%s::AddAssembleGrad_Fast' % LF, [S.o, f.T, f.T2] + X + [E], this=f.this, nparams=6)
    for a in (0, 1):
        for b in (0, 1):
            Am = mats[a][b]
            u.mat_is(Am, n[a], n[b], lambda i, j: u.at(s2, lambda: mget(ex, Am.o, i, j)) + diff(u.at(sy, lambda: vget(ex, y[a].o, i)), (f.base, f.base2)[b], (j,)), 'fast interface Jacobian block %d%d is the derivative of the fast residual' % (a + 1, b + 1))
    u.unchanged(f.x, s, 'the reduced state is not modified by the Jacobian'); u.unchanged(f.x2, s, 'the reduced state is not modified by the Jacobian')
