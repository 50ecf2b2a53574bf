"""P09: linear two-mesh interface terms (same integrands as the single-mesh faces of P08, each side on its own mesh)."""
from vc.unit import *
from contracts.c_nonlinear import *
from contracts.c_dg import ip_entry, vco
def iface_sides(u, f, ip): return [(f.el1, elem(u, f.T), eip(f.T, ip)), (f.el2, elem(u, f.T2), eip(f.T2, ip))]
def iface_blocks(u, cls, nc, entry, nt=None, test=None, run=None):
    """the four blocks equal the quadrature of entry(f, ip, a, p, i, b, q, j) = test side a component p index i, trial side b component q index j"""
    ex = u.ex; f = Iface(u, cls); u.assume(ge0(f.nd1 - 1)); u.assume(ge0(f.nd2 - 1)); u.assume(ge0(ex.field(f.T2.o, 'Elem1No'))); u.assume(Eq(P(App('trgeom', f.T.o, sort='int')), P(App('trgeom', f.T2.o, sort='int'))))
    te = None
    if test: te = [u.obj('test1', FE), u.obj('test2', FE)]; [u.assume(ge0(dof(t) - 1)) for t in te]
    E, mats = matgrid(u); pt = entry(u, f, te); s = u.old()
    args = ([f.el1, f.el2] + (te or []) + [f.T, f.T2, E])
    u.run('mfem::%s::AssembleInterfaceMatrix' % cls, args, this=f.this, nparams=len(args))
    rule = rule_of(u, f.this, (f.T, [deg(a) + deg(b) for a in (te or (f.el1, f.el2)) for b in (f.el1, f.el2)])); nd = [f.nd1, f.nd2]
    for a in (0, 1):
        for b in (0, 1):
            Am = mats[a][b]; rows = [nd[a]] * nc if not te else [dof(te[a])]; cols = [nd[b]] * nc
            u.ensure(And(Eq(mdims(ex, Am.o)[0], sum(rows, ZERO)), Eq(mdims(ex, Am.o)[1], sum(cols, ZERO))), 'block (%d,%d) extents' % (a + 1, b + 1))
            def row(p, i, g):
                for q, off, n in blocks(u, cols):
                    m = ex.ctx.mark(); j = u.idx('post_j%d' % q, n)
                    def point(k):
                        ip = qval(ex, qpt(ex, rule, k)); return u.at(s, lambda: pt(ip, qw(ex, qpt(ex, rule, k)) * P(Fraction(1, 2)), a, p, i, b, q, j))
                    if not ex.ctx.infeasible(): u.eq(mget(ex, Am.o, g, off + j), u.sum(nq(rule), point), '%s block (%d,%d), components (%d,%d)' % (cls, a + 1, b + 1, p, q))
                    ex.ctx.reset(m)
            per_entry(u, rows, row)
def penalty_case(ex, dim, nr, nc, ro, co, jc):
    """'none' | 'lower' (diagonal block: entries with i >= j) | 'full' (block below the diagonal)"""
    if ex.ctx.entails(eq0(jc)): return 'none'
    if ex.ctx.entails(And(Eq(ro, co), Eq(nr, nc))): return 'lower'
    if ex.ctx.entails(ge0(ro - co - dim * nc)): return 'full'
    return None
def penalty_block(ex, dim, nr, nc, ro, co, jc, rs, cs, jm, e):
    k = penalty_case(ex, dim, nr, nc, ro, co, jc)
    if k == 'none': return
    ex.oblige('pre', TRUE if k else FALSE, 'AssembleBlock: the penalty block is on or below the diagonal', e)
    for d in range(dim): M.madd(ex, jm, lambda i, j: (Ind(ge0(i - j)) if k == 'lower' else P(1)) * jc * vget(ex, rs, i) * vget(ex, cs, j), d * nr, d * nc, nr, nc, node=e)
@contract('mfem::InterfaceDGVectorDiffusionIntegrator::AssembleBlock')
def _(ex, a, e):
    if len(a) != 11: return None
    dim, nr, nc, ro, co, jc = [P(x) for x in a[:6]]; rs, cs, cd, em, jm = [obj(x) for x in a[6:]]; dim = dim.const()
    if dim is None: return None
    M.same(ex, vsize(ex, rs), nr, 'AssembleBlock: row shapes', e); M.same(ex, vsize(ex, cs), nc, 'AssembleBlock: column shapes', e); M.same(ex, vsize(ex, cd), nc, 'AssembleBlock: column derivatives', e)
    for d in range(int(dim)): M.madd(ex, em, lambda i, j: vget(ex, rs, i) * vget(ex, cd, j), d * nr, d * nc, nr, nc, node=e)
    penalty_block(ex, int(dim), nr, nc, ro, co, jc, rs, cs, jm, e); return VOID
@contract('mfem::InterfaceDGElasticityIntegrator::AssembleBlock')
def _(ex, a, e):
    if len(a) != 14: return None
    dim, nr, nc, ro, co, jc = [P(x) for x in a[:6]]; nL, nM, rs, cs, cd, ds, em, jm = [obj(x) for x in a[6:]]; dim = dim.const()
    if dim is None: return None
    dim = int(dim)
    M.same(ex, vsize(ex, rs), nr, 'AssembleBlock: row shapes', e); M.same(ex, vsize(ex, cs), nc, 'AssembleBlock: column shapes', e); M.same(ex, vsize(ex, cd), nc, 'AssembleBlock: column derivatives', e)
    M.same(ex, vsize(ex, nL), P(dim), 'AssembleBlock: normal', e); M.same(ex, vsize(ex, nM), P(dim), 'AssembleBlock: normal', e); M.same(ex, mdims(ex, ds)[0], nc, 'AssembleBlock: gradients', e); M.same(ex, mdims(ex, ds)[1], P(dim), 'AssembleBlock: gradients', e)
    for im in range(dim):
        for jm_ in range(dim): M.madd(ex, em, lambda i, j: vget(ex, rs, i) * ela_tt(ex, nL, nM, cd, ds, j, im, jm_), im * nr, jm_ * nc, nr, nc, node=e)
    penalty_block(ex, dim, nr, nc, ro, co, jc, rs, cs, jm, e); return VOID
def ela_tt(ex, nL, nM, cd, ds, j, im, jm): return mget(ex, ds, j, jm) * vget(ex, nL, im) + mget(ex, ds, j, im) * vget(ex, nM, jm) + (vget(ex, cd, j) if im == jm else ZERO)
def block_unit(u, cls, ela, lower):
    ex = u.ex; dim = u.dim; nr = u.int('nr', 1); nc = nr if lower else u.int('nc', 1); co = u.int('co', 0); ro = co if lower else u.int('ro', 0); jc = u.real('jmatcoef')
    if not lower: u.assume(ge0(ro - co - dim * nc))
    rs = u.vec('row_shape', nr); cs = u.vec('col_shape', nc); cd = u.vec('col_dshape_dnM', nc); em = u.mat('elmat', dim * nr, dim * nc); jm = u.mat('jmat', dim * nr, dim * nc); nL = u.vec('nL', dim); nM = u.vec('nM', dim); ds = u.mat('col_dshape', nc, dim); s = u.old()
    a = [P(dim), nr, nc, ro, co, jc] + ([nL, nM] if ela else []) + [rs, cs, cd] + ([ds] if ela else []) + [em, jm]
    u.run('mfem::%s::AssembleBlock' % cls, a)
    for m in (em, jm): u.ensure(And(Eq(mdims(ex, m.o)[0], dim * nr), Eq(mdims(ex, m.o)[1], dim * nc)), 'extents unchanged')
    def row(p, i, g):
        for q, off, n in blocks(u, [nc] * dim):
            mk = ex.ctx.mark(); j = u.idx('post_j%d' % q, n); h = off + j
            if not ex.ctx.infeasible():
                t = ela_tt(ex, nL.o, nM.o, cd.o, ds.o, j, p, q) if ela else (vget(ex, cd.o, j) if p == q else ZERO)
                u.eq(mget(ex, em.o, g, h), u.at(s, lambda: mget(ex, em.o, g, h) + vget(ex, rs.o, i) * t), 'AssembleBlock adds row shape times column flux, components (%d,%d)' % (p, q))
                u.eq(mget(ex, jm.o, g, h), u.at(s, lambda: mget(ex, jm.o, g, h) + ((Ind(ge0(i - j)) if lower else P(1)) * jc * vget(ex, rs.o, i) * vget(ex, cs.o, j) if p == q else ZERO)), 'AssembleBlock adds the penalty, components (%d,%d)' % (p, q))
            ex.ctx.reset(mk)
    per_entry(u, [nr] * dim, row)
for _c, _e in (('InterfaceDGVectorDiffusionIntegrator', False), ('InterfaceDGElasticityIntegrator', True)):
    for _l in (True, False):
        @unit('P09', '%s::AssembleBlock(%s)' % (_c, 'diagonal' if _l else 'below'), dims=(1, 2, 3), files=II, cost=2)
        def _(u, c=_c, e=_e, l=_l): block_unit(u, c, e, l)
def e_vdiff(u, f, te):
    ex = u.ex; mu = ex.field(f.this.o, 'mu', 'mfem::Coefficient *'); u.assume(ex.nonnull(mu)); al = ex.field(f.this.o, 'alpha', 'double'); ka = ex.field(f.this.o, 'kappa', 'double')
    def pt(ip, w, a, p, i, b, q, j):
        if p != q: return ZERO
        S = iface_sides(u, f, ip); return ip_entry(u, ex, S, f.nor(ip), w, al, ka, [coef(ex, mu, E, v) for x, E, v in S], a, i, b, j)
    return pt
@unit('P09', 'InterfaceDGVectorDiffusion', dims=(1, 2, 3), files=II, cost=5)
def _(u): iface_blocks(u, 'InterfaceDGVectorDiffusionIntegrator', u.dim, e_vdiff)
def e_diff(u, f, te):
    """-<{Q grad u . n},[v]> + sigma <[u],{Q grad v . n}> + kappa <{h^-1 Q}[u],[v]>"""
    ex = u.ex; sg = ex.field(f.this.o, 'sigma', 'double'); ka = ex.field(f.this.o, 'kappa', 'double'); Q = ex.field(f.this.o, 'Q', 'mfem::Coefficient *'); MQ = ex.field(f.this.o, 'MQ', 'mfem::MatrixCoefficient *'); dim = u.dim
    def pt(ip, w, a, p, i, b, q, j):
        S = iface_sides(u, f, ip); n = f.nor(ip); fl = []
        for el, E, v in S:
            if ex.decide(ex.nonnull(MQ)): fl.append([w * sum((P(App('mcoef', MQ.obj, obj(E), v, P(l), P(k))) * n[l] for l in range(dim)), ZERO) for k in range(dim)])
            elif ex.decide(ex.nonnull(Q)): fl.append([w * coef(ex, Q, E, v) * n[k] for k in range(dim)])
            else: fl.append([w * n[k] for k in range(dim)])
        Ns = lambda k, c: N(S[k][0], S[k][2], c) * (1 if k == 0 else -1)
        def dn(k, c):
            el, E, e = S[k]; dw = wt(E, e); return sum((dN(el, E, e, c, l, dim) * fl[k][l] for l in range(dim)), ZERO) * dw * Inv(dw)
        pen = sum((dot(fl[k], n) * Inv(wt(S[k][1], S[k][2])) for k in (0, 1)), ZERO)
        return -Ns(a, i) * dn(b, j) + P(sg) * dn(a, i) * Ns(b, j) + P(ka) * pen * Ns(a, i) * Ns(b, j)
    return pt
@unit('P09', 'InterfaceDGDiffusion', dims=(1, 2, 3), files=II, cost=5)
def _(u): iface_blocks(u, 'InterfaceDGDiffusionIntegrator', 1, e_diff)
def e_nf(u, f, te):
    def pt(ip, w, a, p, i, b, q, j):
        S = iface_sides(u, f, ip); return w * (1 if b == 0 else -1) * f.nor(ip)[q] * N(te[a], S[a][2], i) * N(S[b][0], S[b][2], j)
    return pt
@unit('P09', 'InterfaceDGNormalFlux', dims=(1, 2, 3), files=II, cost=3)
def _(u): iface_blocks(u, 'InterfaceDGNormalFluxIntegrator', u.dim, e_nf, test=True)
def e_ela(u, f, te):
    """-<{sigma(u) n},[v]> + alpha <[u],{sigma(v) n}> + kappa <{(lambda + 2 mu)/h}[u],[v]>, sigma(u) = lambda div(u) I + mu (grad u + grad u^T)"""
    ex = u.ex; dim = u.dim; la = ex.field(f.this.o, 'lambda', 'mfem::Coefficient *'); mu = ex.field(f.this.o, 'mu', 'mfem::Coefficient *'); u.assume(ex.nonnull(la)); u.assume(ex.nonnull(mu)); al = ex.field(f.this.o, 'alpha', 'double'); ka = ex.field(f.this.o, 'kappa', 'double')
    def pt(ip, w, a, p, i, b, q, j):
        S = iface_sides(u, f, ip); n = f.nor(ip); L = [coef(ex, la, E, v) for x, E, v in S]; Mu = [coef(ex, mu, E, v) for x, E, v in S]
        Ns = lambda k, c: N(S[k][0], S[k][2], c) * (1 if k == 0 else -1)
        def sn(k, c, comp, r):
            """component r of sigma(basis function c of component comp on side k) n"""
            el, E, e = S[k]; dw = wt(E, e); g = [dN(el, E, e, c, l, dim) * dw * Inv(dw) for l in range(dim)]
            return w * (L[k] * g[comp] * n[r] + Mu[k] * g[r] * n[comp] + (Mu[k] * dot(g, n) if r == comp else ZERO))
        pen = sum((w * (L[k] + 2 * Mu[k]) * Inv(wt(S[k][1], S[k][2])) for k in (0, 1)), ZERO)
        return -Ns(a, i) * sn(b, j, q, p) + P(al) * sn(a, i, p, q) * Ns(b, j) + (P(ka) * dot(n, n) * pen * Ns(a, i) * Ns(b, j) if p == q else ZERO)
    return pt
@unit('P09', 'InterfaceDGElasticity', dims=(1, 2, 3), files=II, cost=6)
def _(u): iface_blocks(u, 'InterfaceDGElasticityIntegrator', u.dim, e_ela)
