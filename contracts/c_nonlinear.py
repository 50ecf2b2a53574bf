"""P05: nonlinear terms - the residual is the documented weak form and the Jacobian is its exact derivative.
P06: quadrature-point contributions sum to the full assembly."""
from vc.unit import *

NL = ('src/nonlinear_integ.cpp',)
HR = ('src/hyperreduction_integ.cpp',)
II = ('src/interfaceinteg.cpp',)
# ---------------------------------------------------------------- notation for the specifications
def dof(el): return P(App('dof', el.o, sort='int'))
def N(el, ip, i): return P(App('shape', el.o, ip, P(i)))
def Jinv(T, ip, k, d): return P(App('Jinv', obj(T), ip, P(k), P(d)))
def dN(el, T, ip, i, d, dim): return sum((P(App('dshape', el.o, ip, P(i), P(k))) * Jinv(T, ip, k, d) for k in range(dim)), ZERO)
def wt(T, ip): return P(App('weight', obj(T), ip))
def coef(ex, Qp, T, ip): return P(App('coef', Qp.obj, obj(T), ip))
def coef_or_one(u, this, fld, T, ip):
    """value of an optional scalar coefficient field: 1 when it is absent"""
    ex = u.ex; q = ex.field(this.o, fld, 'mfem::Coefficient *')
    if ex.decide(ex.nonnull(q)): return coef(ex, q, T, ip)
    return P(1)
def rule_of(u, this, default=None):
    ex = u.ex; r = ex.field(this.o, 'IntRule', 'const mfem::IntegrationRule *')
    if ex.decide(ex.nonnull(r)): return r.obj
    rule = ex.last_rule
    if default:
        T, degs = default[:2]; g, o = [P(x) for x in rule.args[-2:]]
        u.ensure(And(*[Or(Eq(g, P(App('trgeom', obj(T), sort='int'))), *[Eq(g, P(App('geom', obj(x), sort='int'))) for x in (default[2:] or ())])]), 'default rule: for the shape of the cell it integrates over')
        for d in degs: u.ensure(Or(Not(ge0(d - 1)), ge0(o - d)), 'default rule: exact for constant data on affine cells')
    return rule
def deg(el): return P(App('order', obj(el), sort='int'))
def qpt(ex, rule, q):
    o = App('qpt', rule, P(q), sort='obj'); ex.objcls[o] = 'mfem::IntegrationPoint'
    return o
def qval(ex, o): return M.ipv(ex, o)
def qw(ex, o): return P(App('ipw', M.ipv(ex, o)))
def nq(rule): return P(App('nq', rule, sort='int'))

def setup(u, cls, name='integ'):
    return u.obj(name, 'mfem::' + cls)
def element(u):
    return u.obj('el', 'mfem::FiniteElement'), u.obj('T', 'mfem::ElementTransformation')

def blocks(u, sizes):
    """symbolic index into a vector laid out as consecutive component blocks: yields (component, start, local index)"""
    off = ZERO
    for c, n in enumerate(sizes):
        yield c, off, n
        off = off + n

def rd(v, i): return P(App('rd', v.o, P(i)))

def per_entry(u, sizes, fn):
    """run fn(component, local index, global index) for a fresh index of every component block"""
    ex = u.ex
    for c, off, n in blocks(u, sizes):
        m = ex.ctx.mark()
        i = u.idx('post_i%d' % c, n)
        if not ex.ctx.infeasible(): fn(c, i, off + i)
        ex.ctx.reset(m)

def basevec(u, name, n):
    v = u.vec(name, n); base = vget(u.ex, v.o, P(Sym('zz', 'int'))).atom().args[1]
    return v, base

def ufield(u, el, ip, v, off, nd, dim, st=None):
    """components of the discrete field at ip, dofs in v from offset off, byNODES"""
    return [u.sum(nd, lambda j, c=c: N(el, ip, j) * vget(u.ex, v.o, off + c * nd + j)) for c in range(dim)]
def gfield(u, el, T, ip, v, off, nd, dim):
    return [[u.sum(nd, lambda j, c=c, l=l: dN(el, T, ip, j, l, dim) * vget(u.ex, v.o, off + c * nd + j)) for l in range(dim)] for c in range(dim)]

def domain_form(u, cls, form, full=True):
    """element residual and Jacobian of a domain term: form(u, grad u, N_i, grad N_i)[component]"""
    ex = u.ex; dim = u.dim; this = setup(u, cls); el, T = element(u); nd = dof(el); u.assume(ge0(nd - 1))
    x, base = basevec(u, 'elfun', nd * dim); y = u.vec('elvect'); A = u.mat('elmat')
    s = u.old()
    u.run('mfem::%s::AssembleElementVector' % cls, [el, T, x, y], this=this)
    rule = rule_of(u, this)
    sy = u.old()
    def spec(c, i):
        def point(q):
            ip = qval(ex, qpt(ex, rule, q))
            w = qw(ex, qpt(ex, rule, q)) * wt(T, ip) * coef_or_one(u, this, 'Q', T, ip)
            return w * u.at(s, lambda: form(u, this, el, T, ip, x, nd, dim, c, i))
        return u.sum(nq(rule), point)
    u.ensure(Eq(vsize(ex, y.o), nd * dim), 'residual has one entry per element unknown')
    res = {}
    def chk(c, i, g):
        u.eq(vget(ex, y.o, g), spec(c, i), '%s residual, component %d' % (cls, c))
    per_entry(u, [nd] * dim, chk)
    u.unchanged(x, s, 'the state is not modified')
    # Jacobian
    ex.st = s.copy(); ex.last_rule = None
    u.run('mfem::%s::AssembleElementGrad' % cls, [el, T, x, A], this=this)
    u.ensure(And(Eq(mdims(ex, A.o)[0], nd * dim), Eq(mdims(ex, A.o)[1], nd * dim)), 'Jacobian extents')
    u.unchanged(x, s, 'the state is not modified by the Jacobian')
    def jac(c, i, g):
        r = u.at(sy, lambda: vget(ex, y.o, g))
        def col(e, j, h):
            u.eq(mget(ex, A.o, g, h), diff(r, base, (h,)), '%s Jacobian is the derivative of the residual, block (%d,%d)' % (cls, c, e))
        for e, off, n in blocks(u, [nd] * dim):
            m = ex.ctx.mark(); j = u.idx('post_j%d' % e, n)
            if not ex.ctx.infeasible(): col(e, j, off + j)
            ex.ctx.reset(m)
    per_entry(u, [nd] * dim, jac)

def f_temam(u, this, el, T, ip, x, nd, dim, c, i):
    v = ufield(u, el, ip, x, ZERO, nd, dim); g = gfield(u, el, T, ip, x, ZERO, nd, dim)
    return P(Fraction(1, 2)) * (sum((v[l] * g[c][l] for l in range(dim)), ZERO) * N(el, ip, i) - sum((v[l] * dN(el, T, ip, i, l, dim) for l in range(dim)), ZERO) * v[c])
@unit('P05', 'TemamTrilinearForm', dims=(2, 3), files=NL)
def _(u): domain_form(u, 'TemamTrilinearFormIntegrator', f_temam)
def f_conv(u, this, el, T, ip, x, nd, dim, c, i):
    ex = u.ex; vq = ex.field(this.o, 'vQ', 'mfem::VectorCoefficient *')
    if ex.decide(ex.nonnull(vq)): v = [P(App('vcoef', vq.obj, T.o, ip, P(l))) for l in range(dim)]
    else: v = ufield(u, el, ip, x, ZERO, nd, dim)
    g = gfield(u, el, T, ip, x, ZERO, nd, dim)
    return sum((v[l] * g[c][l] for l in range(dim)), ZERO) * N(el, ip, i)
@unit('P05', 'VectorConvectionTrilinearForm', dims=(2, 3), files=HR)
def _(u): domain_form(u, 'VectorConvectionTrilinearFormIntegrator', f_conv)
def f_flux(u, this, el, T, ip, x, nd, dim, c, i):
    v = ufield(u, el, ip, x, ZERO, nd, dim)
    return sum((v[l] * dN(el, T, ip, i, l, dim) for l in range(dim)), ZERO) * v[c]
@unit('P05', 'IncompressibleInviscidFlux', dims=(2, 3), files=HR)
def _(u): domain_form(u, 'IncompressibleInviscidFluxNLFIntegrator', f_flux)

# ---------------------------------------------------------------- face and interface terms
FE, FT = 'mfem::FiniteElement', 'mfem::FaceElementTransformations'
def eip(T, ip, k=1): return App('eip%d' % k, obj(T), ip, sort='obj')
def elem(u, T, k=1): return u.ex.field(obj(T), 'Elem%d' % k).obj
def normal(u, T, ip, dim):
    """face normal scaled by the surface measure"""
    J = lambda i, j: P(App('J', obj(T), ip, P(i), P(j)))
    if dim == 1: return [2 * P(App('ipx', eip(T, ip))) - 1]
    if dim == 2: return [J(1, 0), -J(0, 0)]
    return [J(1, 0) * J(2, 1) - J(2, 0) * J(1, 1), J(2, 0) * J(0, 1) - J(0, 0) * J(2, 1), J(0, 0) * J(1, 1) - J(1, 0) * J(0, 1)]
def dot(a, b): return sum((x * y for x, y in zip(a, b)), ZERO)

class Face:
    """one interior or boundary face (one transformation object)"""
    def __init__(self, u, cls, interior=None, rule=None):
        self.u = u; ex = u.ex; self.cls = cls; self.dim = u.dim
        self.this = setup(u, cls); T = u.obj('Tr', FT)
        if interior is not None: u.assume(ge0(ex.field(T.o, 'Elem2No')) if interior else Not(ge0(ex.field(T.o, 'Elem2No'))))
        if rule is not None:
            g = ex.nonnull(ex.field(self.this.o, 'IntRule', 'const mfem::IntegrationRule *')); u.assume(g if rule else Not(g))
        self.el1 = u.obj('el1', FE); self.el2 = u.obj('el2', FE); self.T = u.obj('Tr', FT)
        self.interior = ex.decide(ge0(ex.field(self.T.o, 'Elem2No')))
        self.nd1 = dof(self.el1); self.nd2 = dof(self.el2)
        self.sizes = [self.nd1] * u.dim + ([self.nd2] * u.dim if self.interior else [])
        self.n = sum(self.sizes, ZERO)
        self.x, self.base = basevec(u, 'elfun', self.n)
        self.args = [self.el1, self.el2, self.T]
    def u1(self, ip): return ufield(self.u, self.el1, eip(self.T, ip), self.x, ZERO, self.nd1, self.dim)
    def u2(self, ip): return ufield(self.u, self.el2, eip(self.T, ip, 2), self.x, self.nd1 * self.dim, self.nd2, self.dim) if self.interior else None
    def shape(self, side, ip, i): return N(self.el1, eip(self.T, ip), i) if side == 0 else N(self.el2, eip(self.T, ip, 2), i)
    def nor(self, ip): return normal(self.u, self.T, ip, self.dim)
class Iface:
    """an interface between two meshes (two transformation objects, first element of each)"""
    def __init__(self, u, cls):
        self.u = u; ex = u.ex; self.cls = cls; self.dim = u.dim; self.interior = True
        self.this = setup(u, cls); self.el1 = u.obj('el1', FE); self.el2 = u.obj('el2', FE); self.T = u.obj('Tr1', FT); self.T2 = u.obj('Tr2', FT)
        self.nd1 = dof(self.el1); self.nd2 = dof(self.el2)
        self.sizes = [[self.nd1] * u.dim, [self.nd2] * u.dim]
        self.x1, self.base1 = basevec(u, 'elfun1', self.nd1 * u.dim); self.x2, self.base2 = basevec(u, 'elfun2', self.nd2 * u.dim)
        self.args = [self.el1, self.el2, self.T, self.T2]
    def u1(self, ip): return ufield(self.u, self.el1, eip(self.T, ip), self.x1, ZERO, self.nd1, self.dim)
    def u2(self, ip): return ufield(self.u, self.el2, eip(self.T2, ip), self.x2, ZERO, self.nd2, self.dim)
    def shape(self, side, ip, i): return N(self.el1, eip(self.T, ip), i) if side == 0 else N(self.el2, eip(self.T2, ip), i)
    def nor(self, ip): return normal(self.u, self.T, ip, self.dim)

def face_form(u, cls, flux, **kw):
    """flux(face, ip) -> [flux tested on side 1][component], [.. side 2], without quadrature weight"""
    ex = u.ex; f = Face(u, cls, **kw); dim = u.dim; y = u.vec('elvect'); A = u.mat('elmat'); s = u.old()
    u.run('mfem::%s::AssembleFaceVector' % cls, f.args + [f.x, y], this=f.this)
    rule = rule_of(u, f.this); sy = u.old()
    def spec(b, i):
        side, c = divmod(b, dim)
        def point(q):
            ip = qval(ex, qpt(ex, rule, q))
            return qw(ex, qpt(ex, rule, q)) * u.at(s, lambda: flux(f, ip)[side][c] * f.shape(side, ip, i))
        return u.sum(nq(rule), point)
    u.ensure(Eq(vsize(ex, y.o), f.n), 'residual has one entry per unknown of the adjacent elements')
    per_entry(u, f.sizes, lambda b, i, g: u.eq(vget(ex, y.o, g), spec(b, i), '%s residual, side %d component %d' % (cls, b // dim + 1, b % dim)))
    u.unchanged(f.x, s, 'the state is not modified')
    ex.st = s.copy(); ex.last_rule = None
    u.run('mfem::%s::AssembleFaceGrad' % cls, f.args + [f.x, A], this=f.this)
    u.ensure(And(Eq(mdims(ex, A.o)[0], f.n), Eq(mdims(ex, A.o)[1], f.n)), 'Jacobian extents')
    u.unchanged(f.x, s, 'the state is not modified by the Jacobian')
    jac_is(u, f.sizes, f.sizes, lambda g, h: mget(ex, A.o, g, h), lambda g: u.at(sy, lambda: vget(ex, y.o, g)), f.base, cls)
def jac_is(u, rows, cols, entry, res, base, cls):
    ex = u.ex
    def row(b, i, g):
        r = res(g)
        for e, off, n in blocks(u, cols):
            m = ex.ctx.mark(); j = u.idx('post_j%d' % e, n)
            if not ex.ctx.infeasible(): u.eq(entry(g, off + j), diff(r, base, (off + j,)), '%s Jacobian is the derivative of the residual, block (%d,%d)' % (cls, b, e))
            ex.ctx.reset(m)
    per_entry(u, rows, row)
def iface_form(u, cls, flux):
    ex = u.ex; f = Iface(u, cls); dim = u.dim; y = [u.vec('elvect1'), u.vec('elvect2')]; s = u.old()
    u.run('mfem::%s::AssembleInterfaceVector' % cls, f.args + [f.x1, f.x2] + y, this=f.this)
    rule = rule_of(u, f.this); sy = u.old()
    def spec(side, c, i):
        def point(q):
            ip = qval(ex, qpt(ex, rule, q))
            return qw(ex, qpt(ex, rule, q)) * u.at(s, lambda: flux(f, ip)[side][c] * f.shape(side, ip, i))
        return u.sum(nq(rule), point)
    for side in (0, 1):
        u.ensure(Eq(vsize(ex, y[side].o), sum(f.sizes[side], ZERO)), 'residual has one entry per unknown of side %d' % (side + 1))
        per_entry(u, f.sizes[side], lambda c, i, g: u.eq(vget(ex, y[side].o, g), spec(side, c, i), '%s residual, side %d component %d' % (cls, side + 1, c)))
    u.unchanged(f.x1, s, 'the state is not modified'); u.unchanged(f.x2, s, 'the state is not modified')
    ex.st = s.copy(); ex.last_rule = None
    E, mats = matgrid(u)
    u.run('mfem::%s::AssembleInterfaceGrad' % cls, f.args + [f.x1, f.x2, E], this=f.this)
    u.unchanged(f.x1, s, 'the state is not modified by the Jacobian'); u.unchanged(f.x2, s, 'the state is not modified by the Jacobian')
    for a in (0, 1):
        for b in (0, 1):
            Am = mats[a][b]
            u.ensure(And(Eq(mdims(ex, Am.o)[0], sum(f.sizes[a], ZERO)), Eq(mdims(ex, Am.o)[1], sum(f.sizes[b], ZERO))), 'Jacobian block extents')
            jac_is(u, f.sizes[a], f.sizes[b], lambda g, h: mget(ex, Am.o, g, h), lambda g: u.at(sy, lambda: vget(ex, y[a].o, g)), (f.base1, f.base2)[b], '%s block %d%d' % (cls, a + 1, b + 1))
def matgrid(u, cls='DenseMatrix', pre='elmat', h=2, w=2):
    """Array2D of owned, distinct matrices"""
    ex = u.ex; E = u.obj(pre + 's', 'mfem::Array2D<mfem::%s *>' % cls); ex.lazy[(E.o, 'h')] = P(h); ex.lazy[(E.o, 'w')] = P(w)
    mats = [[u.obj('%s%d%d' % (pre, i + 1, j + 1), 'mfem::' + cls) for j in range(w)] for i in range(h)]
    r = M.own_region(ex, E.o, (P(h), P(w)), 'obj'); c = ex.content(r)
    for i in range(h):
        for j in range(w): c = SetN(c, (), (P(i), P(j)), mats[i][j].o)
    ex.put((r, 'content'), c)
    return E, mats

def q_face(f, ip):
    return coef_or_one(f.u, f.this, 'Q', f.T, ip)
def q_elem1(f, ip):
    return coef_or_one(f.u, f.this, 'Q', elem(f.u, f.T), eip(f.T, ip))
def fl_temam(q):
    def flux(f, ip):
        n = f.nor(ip); u1 = f.u1(ip); u2 = f.u2(ip); k = P(Fraction(1, 2)) * q(f, ip) * dot(u1, n)
        if not f.interior: return [[k * c for c in u1]]
        return [[-k * c for c in u2], [k * c for c in u1]]
    return flux
@unit('P05', 'DGTemamFlux', dims=(1, 2, 3), files=NL)
def _(u): face_form(u, 'DGTemamFluxIntegrator', fl_temam(q_face))
@unit('P05', 'InterfaceDGTemamFlux', dims=(1, 2, 3), files=II)
def _(u): iface_form(u, 'InterfaceDGTemamFluxIntegrator', fl_temam(q_elem1))
def fl_lf(f, ip):
    u = f.u; ex = u.ex; n = f.nor(ip); u1 = f.u1(ip); q = q_face(f, ip); half = P(Fraction(1, 2)); ud = ex.field(f.this.o, 'UD', 'mfem::VectorCoefficient *')
    if f.interior: u2 = f.u2(ip)
    elif ex.decide(ex.nonnull(ud)): u2 = [P(App('vcoef', ud.obj, elem(u, f.T), eip(f.T, ip), P(l))) for l in range(f.dim)]
    else: u2 = None
    if u2 is None: F = [dot(u1, n) * c for c in u1]
    else:
        lam = Max(Sqrt(dot(u1, u1)), Sqrt(dot(u2, u2))) * Sqrt(dot(n, n))
        F = [half * dot(u1, n) * a + half * dot(u2, n) * b + lam * (a - b) for a, b in zip(u1, u2)]
    return [[-q * c for c in F], [q * c for c in F]]
for _i in (True, False):
    for _r in (True, False):
        @unit('P05', 'DGLaxFriedrichsFlux(%s, %s rule)' % ('interior' if _i else 'boundary', 'given' if _r else 'default'), dims=(1, 2, 3), files=II, cost=5 if _i else 2)
        def _(u, i=_i, r=_r): face_form(u, 'DGLaxFriedrichsFluxIntegrator', fl_lf, interior=i, rule=r)
@unit('P05', 'InterfaceDGLaxFriedrichsFlux', dims=(1, 2, 3), files=II)
def _(u): iface_form(u, 'DGLaxFriedrichsFluxIntegrator', fl_lf)

# ---------------------------------------------------------------- P06: one quadrature point
def ippoint(u):
    ip = u.obj('ip', 'mfem::IntegrationPoint'); return ip, qval(u.ex, ip.o), u.real('iw')
def domain_point(u, cls, form):
    ex = u.ex; dim = u.dim; this = setup(u, cls); el, T = element(u); nd = dof(el); u.assume(ge0(nd - 1)); ip, iv, iw = ippoint(u)
    x, base = basevec(u, 'eltest', nd * dim); y = u.vec('elquad'); A = u.mat('quadmat'); s = u.old()
    u.run('mfem::%s::AssembleQuadratureVector' % cls, [el, T, ip, iw, x, y], this=this, nparams=6)
    sy = u.old()
    spec = lambda c, i: iw * wt(T, iv) * coef_or_one(u, this, 'Q', T, iv) * u.at(s, lambda: form(u, this, el, T, iv, x, nd, dim, c, i))
    u.ensure(Eq(vsize(ex, y.o), nd * dim), 'one entry per element unknown')
    per_entry(u, [nd] * dim, lambda c, i, g: u.eq(vget(ex, y.o, g), spec(c, i), '%s point residual is the weight times the integrand at the point, component %d' % (cls, c)))
    u.unchanged(x, s, 'the state is not modified')
    ex.st = s.copy()
    u.run('mfem::%s::AssembleQuadratureGrad' % cls, [el, T, ip, iw, x, A], this=this, nparams=6)
    u.ensure(And(Eq(mdims(ex, A.o)[0], nd * dim), Eq(mdims(ex, A.o)[1], nd * dim)), 'point Jacobian extents')
    u.unchanged(x, s, 'the state is not modified by the point Jacobian')
    jac_is(u, [nd] * dim, [nd] * dim, lambda g, h: mget(ex, A.o, g, h), lambda g: u.at(sy, lambda: vget(ex, y.o, g)), base, cls + ' point')
@unit('P06', 'VectorConvection(point)', dims=(2, 3), files=HR)
def _(u): domain_point(u, 'VectorConvectionTrilinearFormIntegrator', f_conv)
@unit('P06', 'IncompressibleInviscidFlux(point)', dims=(2, 3), files=HR)
def _(u): domain_point(u, 'IncompressibleInviscidFluxNLFIntegrator', f_flux)
LF = 'DGLaxFriedrichsFluxIntegrator'
def face_point(u, interior):
    ex = u.ex; dim = u.dim; f = Face(u, LF, interior=interior); ip, iv, iw = ippoint(u); y = u.vec('elquad'); A = u.mat('quadmat'); s = u.old()
    u.run('mfem::%s::AssembleQuadratureVector' % LF, f.args + [ip, iw, f.x, y], this=f.this, nparams=7)
    sy = u.old()
    def spec(b, i):
        side, c = divmod(b, dim)
        return iw * u.at(s, lambda: fl_lf(f, iv)[side][c] * f.shape(side, iv, i))
    u.ensure(Eq(vsize(ex, y.o), f.n), 'one entry per unknown of the adjacent elements')
    per_entry(u, f.sizes, lambda b, i, g: u.eq(vget(ex, y.o, g), spec(b, i), 'point residual is the weight times the flux integrand, side %d component %d' % (b // dim + 1, b % dim)))
    u.unchanged(f.x, s, 'the state is not modified')
    ex.st = s.copy()
    u.run('mfem::%s::AssembleQuadratureGrad' % LF, f.args + [ip, iw, f.x, A], this=f.this, nparams=7)
    u.ensure(And(Eq(mdims(ex, A.o)[0], f.n), Eq(mdims(ex, A.o)[1], f.n)), 'point Jacobian extents')
    u.unchanged(f.x, s, 'the state is not modified by the point Jacobian')
    jac_is(u, f.sizes, f.sizes, lambda g, h: mget(ex, A.o, g, h), lambda g: u.at(sy, lambda: vget(ex, y.o, g)), f.base, 'point')
@unit('P06', 'DGLaxFriedrichsFlux(interior, point)', dims=(1, 2, 3), files=II, cost=5)
def _(u): face_point(u, True)
@unit('P06', 'DGLaxFriedrichsFlux(boundary, point)', dims=(1, 2, 3), files=II, cost=2)
def _(u): face_point(u, False)
@unit('P06', 'InterfaceDGLaxFriedrichsFlux(point)', dims=(1, 2, 3), files=II, cost=4)
def _(u):
    ex = u.ex; f = Iface(u, LF); ip, iv, iw = ippoint(u); y = [u.vec('elquad1'), u.vec('elquad2')]; s = u.old()
    u.run('mfem::%s::AssembleQuadratureVector' % LF, f.args + [ip, iw, f.x1, f.x2] + y, this=f.this, nparams=10)
    sy = u.old()
    for side in (0, 1):
        u.ensure(Eq(vsize(ex, y[side].o), sum(f.sizes[side], ZERO)), 'one entry per unknown of side %d' % (side + 1))
        per_entry(u, f.sizes[side], lambda c, i, g: u.eq(vget(ex, y[side].o, g), iw * u.at(s, lambda: fl_lf(f, iv)[side][c] * f.shape(side, iv, i)), 'point residual is the weight times the flux integrand, side %d component %d' % (side + 1, c)))
    u.unchanged(f.x1, s, 'the state is not modified'); u.unchanged(f.x2, s, 'the state is not modified')
    ex.st = s.copy(); E, mats = matgrid(u, pre='quadmat')
    u.run('mfem::%s::AssembleQuadratureGrad' % LF, f.args + [ip, iw, f.x1, f.x2, E], this=f.this, nparams=9)
    for a in (0, 1):
        for b in (0, 1):
            Am = mats[a][b]
            u.ensure(And(Eq(mdims(ex, Am.o)[0], sum(f.sizes[a], ZERO)), Eq(mdims(ex, Am.o)[1], sum(f.sizes[b], ZERO))), 'Jacobian block extents')
            jac_is(u, f.sizes[a], f.sizes[b], lambda g, h: mget(ex, Am.o, g, h), lambda g: u.at(sy, lambda: vget(ex, y[a].o, g)), (f.base1, f.base2)[b], 'point block %d%d' % (a + 1, b + 1))
# the full assemblies have the same integrand (same specification functions): registered under P06 too
for _u in list(UNITS):
    if _u.prop == 'P05' and ('Convection' in _u.name or 'Inviscid' in _u.name or 'LaxFriedrichs' in _u.name):
        UNITS.append(Unit('P06', _u.name + ' full', _u.fn, _u.dims, _u.opts, _u.files))
