"""P08: DG bilinear and linear forms on single-mesh faces.  P09: their two-mesh counterparts."""
from vc.unit import *
from contracts.c_nonlinear import *
DB, DX, DL = ('src/dg_bilinear.cpp',), ('src/dg_mixed_bilin.cpp',), ('src/dg_linear.cpp',)
def vco(Q, T, ip, k): return P(App('vcoef', obj(Q), obj(T), ip, P(k)))
def cfield(u, this, f):
    """a reference-typed vector coefficient member"""
    o = u.obj(f, 'mfem::VectorCoefficient'); u.ex.lazy[(this.o, f)] = o; return o
class BFace:
    """boundary face, test element el"""
    def __init__(self, u, cls):
        self.u = u; ex = u.ex; self.dim = u.dim; self.this = setup(u, cls); self.T = u.obj('Tr', FT); u.assume(Not(ge0(ex.field(self.T.o, 'Elem2No'))))
        self.el = u.obj('el', FE); self.nd = dof(self.el); u.assume(ge0(self.nd - 1))
    def N(self, ip, i): return N(self.el, eip(self.T, ip), i)
    def dn(self, ip, i):
        """normal derivative (scaled normal) of shape function i"""
        n = self.nor(ip); E = elem(self.u, self.T); return sum((dN(self.el, E, eip(self.T, ip), i, l, self.dim) * n[l] for l in range(self.dim)), ZERO)
    def det(self, ip): return wt(elem(self.u, self.T), eip(self.T, ip))
    def nor(self, ip): return normal(self.u, self.T, ip, self.dim)
def rhs(u, cls, form, ncomp=None, face=True):
    """form(face, ip) -> list per component of (value multiplying N_i, value multiplying d_n N_i), without the quadrature weight"""
    ex = u.ex; f = BFace(u, cls); dim = u.dim; y = u.vec('elvect'); s = u.old(); coefs = form(f, None)
    args = [f.el, f.T, y]
    u.run('mfem::%s::AssembleRHSElementVect' % cls, args, this=f.this, sig=('FiniteElement', 'FaceElementTransformations', 'Vector'))
    rule = rule_of(u, f.this, (f.T, [deg(f.el)])); nc = dim if ncomp is None else ncomp
    def spec(c, i):
        def point(q):
            ip = qval(ex, qpt(ex, rule, q)); a, b = coefs(ip)[c]
            return qw(ex, qpt(ex, rule, q)) * (P(a) * f.N(ip, i) + (P(b) * f.dn(ip, i) if b is not None else ZERO))
        return u.sum(nq(rule), point)
    u.ensure(Eq(vsize(ex, y.o), f.nd * nc), 'one entry per unknown')
    per_entry(u, [f.nd] * nc, lambda c, i, g: u.eq(vget(ex, y.o, g), u.at(s, lambda: spec(c, i)), '%s vector, component %d' % (cls, c)))
def f_dir(f, _):
    u = f.u; ex = u.ex; D = cfield(u, f.this, 'uD'); mu = ex.field(f.this.o, 'mu', 'mfem::Coefficient *'); u.assume(ex.nonnull(mu))
    al = ex.field(f.this.o, 'alpha', 'double'); ka = ex.field(f.this.o, 'kappa', 'double')
    def at(ip):
        n = f.nor(ip); m = coef(ex, mu, elem(u, f.T), eip(f.T, ip)); d = [vco(D, f.T, ip, k) for k in range(f.dim)]
        return [(P(ka) * m * dot(n, n) * Inv(f.det(ip)) * d[k], P(al) * m * d[k] * f.det(ip) * Inv(f.det(ip))) for k in range(f.dim)]
    return at
@unit('P08', 'DGVectorDirichletLF', dims=(1, 2, 3), files=DL)
def _(u): rhs(u, 'DGVectorDirichletLFIntegrator', f_dir)
def f_normal(f, _):
    Q = cfield(f.u, f.this, 'Q')
    return lambda ip: [(dot([vco(Q, elem(f.u, f.T), eip(f.T, ip), k) for k in range(f.dim)], f.nor(ip)), None)]
@unit('P08', 'DGBoundaryNormalLF(face)', dims=(1, 2, 3), files=DL)
def _(u): rhs(u, 'DGBoundaryNormalLFIntegrator', f_normal, 1)
def f_stress(f, _):
    u = f.u; F = cfield(u, f.this, 'F')
    def at(ip):
        fa = u.ex.field(f.T.o, 'Face').obj; n = f.nor(ip)
        return [(sum((vco(F, fa, ip, k + f.dim * l) * n[l] for l in range(f.dim)), ZERO), None) for k in range(f.dim)]
    return at
@unit('P08', 'BoundaryNormalStressLF(face)', dims=(1, 2, 3), files=DL)
def _(u): rhs(u, 'BoundaryNormalStressLFIntegrator', f_stress)
def f_bdrtemam(f, _):
    u = f.u; Q = cfield(u, f.this, 'Q')
    def at(ip):
        q = [vco(Q, elem(u, f.T), eip(f.T, ip), k) for k in range(f.dim)]; z = coef_or_one(u, f.this, 'Z', f.T, ip)
        return [(z * dot(q, f.nor(ip)) * q[k], None) for k in range(f.dim)]
    return at
@unit('P08', 'DGBdrTemamLF(face)', dims=(1, 2, 3), files=DL)
def _(u): rhs(u, 'DGBdrTemamLFIntegrator', f_bdrtemam)

# ---------------------------------------------------------------- normal flux
@unit('P08', 'DGNormalFlux', dims=(1, 2, 3), files=DX)
def _(u):
    ex = u.ex; dim = u.dim; this = setup(u, 'DGNormalFluxIntegrator'); T = u.obj('Tr', FT)
    tr = [u.obj('trial1', FE), u.obj('trial2', FE)]; te = [u.obj('test1', FE), u.obj('test2', FE)]; A = u.mat('elmat'); s = u.old()
    for e in tr + te: u.assume(ge0(dof(e) - 1))
    inter = ex.decide(ge0(ex.field(T.o, 'Elem2No')))
    u.run('mfem::DGNormalFluxIntegrator::AssembleFaceMatrix', tr + te + [T, A], this=this)
    ns = 2 if inter else 1; rule = rule_of(u, this, (T, [deg(te[a]) + deg(tr[b]) for a in range(ns) for b in range(ns)]))
    rows = [dof(te[a]) for a in range(ns)]; cols = [dof(tr[b]) for b in range(ns) for _ in range(dim)]
    u.ensure(And(Eq(mdims(ex, A.o)[0], sum(rows, ZERO)), Eq(mdims(ex, A.o)[1], sum(cols, ZERO))), 'extents')
    def row(a, i, g):
        for e, off, n in blocks(u, cols):
            b, c = divmod(e, dim); m = ex.ctx.mark(); j = u.idx('post_j%d' % e, n)
            def point(q):
                ip = qval(ex, qpt(ex, rule, q)); nn = normal(u, T, ip, dim)
                return qw(ex, qpt(ex, rule, q)) * P(Fraction(1, ns)) * (1 if b == 0 else -1) * nn[c] * N(te[a], eip(T, ip, a + 1), i) * N(tr[b], eip(T, ip, b + 1), j)
            if not ex.ctx.infeasible(): u.eq(mget(ex, A.o, g, off + j), u.sum(nq(rule), point), 'normal flux block (test %d, trial %d component %d)' % (a + 1, b + 1, c))
            ex.ctx.reset(m)
    per_entry(u, rows, row)
# ---------------------------------------------------------------- boundary-element versions (el and T live on the boundary mesh, one dimension lower)
def rhs_elem(u, cls, form, ncomp=None):
    ex = u.ex; dim = u.dim; this = setup(u, cls); el = u.obj('el', FE); T = u.obj('Tr', 'mfem::ElementTransformation'); ex.lowdim |= {el.o, T.o}; nd = dof(el); u.assume(ge0(nd - 1)); y = u.vec('elvect'); s = u.old(); at = form(u, this, T)
    u.run('mfem::%s::AssembleRHSElementVect' % cls, [el, T, y], this=this, sig=('FiniteElement', 'ElementTransformation', 'Vector'))
    rule = rule_of(u, this, (T, [deg(el)], el)); nc = dim if ncomp is None else ncomp
    spec = lambda c, i: u.sum(nq(rule), lambda q: qw(ex, qpt(ex, rule, q)) * at(qval(ex, qpt(ex, rule, q)))[c] * N(el, qval(ex, qpt(ex, rule, q)), i))
    u.ensure(Eq(vsize(ex, y.o), nd * nc), 'one entry per unknown')
    per_entry(u, [nd] * nc, lambda c, i, g: u.eq(vget(ex, y.o, g), u.at(s, lambda: spec(c, i)), '%s vector, component %d' % (cls, c)))
@unit('P08', 'DGBoundaryNormalLF(boundary element)', dims=(2, 3), files=DL)
def _(u):
    def form(u, this, T):
        Q = cfield(u, this, 'Q'); return lambda ip: [dot([vco(Q, T, ip, k) for k in range(u.dim)], normal(u, T, ip, u.dim))]
    rhs_elem(u, 'DGBoundaryNormalLFIntegrator', form, 1)
@unit('P08', 'BoundaryNormalStressLF(boundary element)', dims=(2, 3), files=DL)
def _(u):
    def form(u, this, T):
        F = cfield(u, this, 'F'); return lambda ip: [sum((vco(F, T, ip, k + u.dim * l) * normal(u, T, ip, u.dim)[l] for l in range(u.dim)), ZERO) for k in range(u.dim)]
    rhs_elem(u, 'BoundaryNormalStressLFIntegrator', form)
@unit('P08', 'DGBdrTemamLF(boundary element)', dims=(2, 3), files=DL)
def _(u):
    def form(u, this, T):
        Q = cfield(u, this, 'Q')
        def at(ip):
            q = [vco(Q, T, ip, k) for k in range(u.dim)]; z = coef_or_one(u, this, 'Z', T, ip); return [z * dot(q, normal(u, T, ip, u.dim)) * q[k] for k in range(u.dim)]
        return at
    rhs_elem(u, 'DGBdrTemamLFIntegrator', form)

# ---------------------------------------------------------------- interior penalty
def side_elem(u, T, k): return elem(u, T, k)
def ip_entry(u, ex, sides, nor, w, al, ka, mus, a, p, b, q):
    """one quadrature point of -<{mu d_n u},[v]> + alpha <[u],{mu d_n v}> + kappa <{mu/h}[u],[v]>; sides[k] = (el, elemT, eip); a,p test; b,q trial; the jump is side 1 - side 2"""
    def Ns(k, i): return N(sides[k][0], sides[k][2], i) * (1 if k == 0 else -1)
    def dn(k, i):
        el, E, e = sides[k]; dw = wt(E, e); return w * mus[k] * sum((dN(el, E, e, i, l, u.dim) * nor[l] for l in range(u.dim)), ZERO) * dw * Inv(dw)
    pen = sum((w * mus[k] * Inv(wt(sides[k][1], sides[k][2])) for k in range(len(sides))), ZERO)
    return -Ns(a, p) * dn(b, q) + P(al) * dn(a, p) * Ns(b, q) + P(ka) * dot(nor, nor) * pen * Ns(a, p) * Ns(b, q)
def block_args(a): return [P(x) for x in a[:6]] + [obj(x) for x in a[6:]]
@contract('mfem::DGVectorDiffusionIntegrator::AssembleBlock')
def _(ex, a, e):
    if len(a) != 11: return None
    dim, nr, nc, ro, co, jc, rs, cs, cd, em, jm = block_args(a); d_ = dim.const()
    if d_ is None: return None
    M.same(ex, vsize(ex, rs), nr, 'AssembleBlock: row shapes', e); M.same(ex, vsize(ex, cs), nc, 'AssembleBlock: column shapes', e); M.same(ex, vsize(ex, cd), nc, 'AssembleBlock: column derivatives', e)
    for d in range(int(d_)): M.madd(ex, em, lambda i, j: vget(ex, rs, i) * vget(ex, cd, j), ro + d * nr, co + d * nc, nr, nc, node=e)
    h, w = mdims(ex, jm)
    fits = And(ge0(h - ro - dim * nr), ge0(w - co - dim * nc))
    if ex.ctx.entails(eq0(jc)): return VOID
    ex.oblige('pre', fits, 'AssembleBlock: block fits in the penalty matrix', e)
    for d in range(int(d_)):
        r0, c0 = ro + d * nr, co + d * nc
        M.madd(ex, jm, lambda i, j: Ind(ge0(r0 + i - c0 - j)) * jc * vget(ex, rs, i) * vget(ex, cs, j), r0, c0, nr, nc)
    return VOID
@unit('P08', 'DGVectorDiffusion::AssembleBlock', dims=(1, 2, 3), files=DB)
def _(u):
    ex = u.ex; dim = u.dim; nr = u.int('nr', 1); nc = u.int('nc', 1); ro = u.int('ro', 0); co = u.int('co', 0); jc = u.real('jmatcoef'); rs = u.vec('row_shape', nr); cs = u.vec('col_shape', nc); cd = u.vec('col_dshape_dnM', nc)
    em = u.mat('elmat'); jm = u.mat('jmat')
    for m in (em, jm): h, w = mdims(ex, m.o); u.assume(ge0(h - ro - dim * nr)); u.assume(ge0(w - co - dim * nc))
    s = u.old(); u.run('mfem::DGVectorDiffusionIntegrator::AssembleBlock', [P(dim), nr, nc, ro, co, jc, rs, cs, cd, em, jm])
    inb = lambda i, j, d: Ind(And(ge0(i - ro - d * nr), ge0(ro + d * nr + nr - 1 - i), ge0(j - co - d * nc), ge0(co + d * nc + nc - 1 - j)))
    for m, f in ((em, lambda i, j, p, q: vget(ex, rs.o, p) * vget(ex, cd.o, q)), (jm, lambda i, j, p, q: Ind(ge0(i - j)) * jc * vget(ex, rs.o, p) * vget(ex, cs.o, q))):
        h, w = u.at(s, lambda: mdims(ex, m.o))
        u.mat_is(m, h, w, lambda i, j: u.at(s, lambda: mget(ex, m.o, i, j) + sum((inb(i, j, d) * f(i, j, i - ro - d * nr, j - co - d * nc) for d in range(dim)), ZERO)), 'AssembleBlock %s: adds the block of each component' % m.o.args[0])
    for v in (rs, cs, cd): u.unchanged(v, s, 'inputs not modified')
for _i in (True, False):
    @unit('P08', 'DGVectorDiffusion(%s)' % ('interior' if _i else 'boundary'), dims=(1, 2, 3), files=DB, cost=5)
    def _(u, inter=_i):
        ex = u.ex; dim = u.dim; f = Face(u, 'DGVectorDiffusionIntegrator', interior=inter); A = u.mat('elmat')
        mu = ex.field(f.this.o, 'mu', 'mfem::Coefficient *'); u.assume(ex.nonnull(mu)); al = ex.field(f.this.o, 'alpha', 'double'); ka = ex.field(f.this.o, 'kappa', 'double'); s = u.old()
        u.assume(ge0(f.nd1 - 1)); u.assume(ge0(f.nd2 - 1))
        u.run('mfem::DGVectorDiffusionIntegrator::AssembleFaceMatrix', f.args + [A], this=f.this)
        ns = 2 if inter else 1; rule = rule_of(u, f.this, (f.T, [deg(a) + deg(b) for a in (f.el1, f.el2)[:ns] for b in (f.el1, f.el2)[:ns]]))
        u.ensure(And(Eq(mdims(ex, A.o)[0], f.n), Eq(mdims(ex, A.o)[1], f.n)), 'extents')
        def row(r, i, g):
            a, d = divmod(r, dim)
            for e, off, n in blocks(u, f.sizes):
                b, c = divmod(e, dim); m = ex.ctx.mark(); j = u.idx('post_j%d' % e, n)
                def point(q):
                    ip = qval(ex, qpt(ex, rule, q)); sides = [(x, elem(u, f.T, k + 1), eip(f.T, ip, k + 1)) for k, x in enumerate([f.el1, f.el2][:ns])]
                    mus = [coef(ex, mu, E, v) for x, E, v in sides]
                    return ip_entry(u, ex, sides, f.nor(ip), qw(ex, qpt(ex, rule, q)) * P(Fraction(1, ns)), al, ka, mus, a, i, b, j)
                if not ex.ctx.infeasible(): u.eq(mget(ex, A.o, g, off + j), u.sum(nq(rule), point) if c == d else ZERO, 'diffusion entry (side %d comp %d, side %d comp %d)' % (a + 1, d, b + 1, c))
                ex.ctx.reset(m)
        per_entry(u, f.sizes, row)
