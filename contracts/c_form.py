"""P10: global interface assembly.  The registered terms are abstract (any values); the port loop, the element pair, the state
restriction and the scatter are proved."""
from vc.unit import *
from contracts.c_nonlinear import matgrid
IF = ('src/interface_form.cpp',)
ELEM1 = lambda ex, T: ex.field(T, 'Elem1No', 'int')
def tvs(fes): return P(App('tvsize', fes, sort='int'))
def nvd(fes, e): return P(App('nvdof', fes, P(e), sort='int'))
def vd(fes, e, k): return P(App('vdof', fes, P(e), P(k), sort='int'))
def feof(fes, e): return App('feof', fes, P(e), sort='obj')
def tr(side, m1, m2, info): return App('iftr%d' % side, m1, m2, info, sort='obj')
def dof_axioms(ex):
    old = ex.axioms_
    def ax(a):
        r = old(a)
        if a.args[0] == 'vdof': return r + (Implies(And(ge0(a.args[3]), ge0(nvd(a.args[1], a.args[2]) - 1 - a.args[3])), And(ge0(P(a)), ge0(tvs(a.args[1]) - 1 - P(a)))),)
        if a.args[0] in ('nvdof', 'tvsize'): return r + (ge0(P(a)),)
        return r
    ex.axioms_ = ax; ex.axmemo = {}
    ex.note('element unknowns have nonnegative indices (no orientation-flipped unknowns) below the true size of their space')
@M.model('FiniteElementSpace', 'GetTrueVSize', 'GetVSize')
def _(ex, t, a, e): return tvs(t.o)
@M.model('FiniteElementSpace', 'GetElementVDofs')
def _(ex, t, a, e):
    el = ex.num(a[0]); v = obj(a[1]); n = nvd(t.o, el)
    ex.setfield(v, 'size', n); M.set_own(ex, v, (n,), M.undef('int')); M.vset(ex, v, lambda k: vd(t.o, el, k)); return NULL
@M.model('FiniteElementSpace', 'GetFE')
def _(ex, t, a, e):
    o = feof(t.o, ex.num(a[0])); ex.objcls.setdefault(o, 'mfem::FiniteElement'); ex.nonnulls.add(o); return Ptr(o)

@M.model('TopologyHandler', 'GetInterfaceTransformations')
def _(ex, t, a, e): return ex.opts['trans'](ex, t, a, e)
@M.model('InterfaceNonlinearFormIntegrator', 'AssembleInterfaceVector', 'AssembleInterfaceGrad', 'AssembleInterfaceMatrix')
def _(ex, t, a, e): return ex.opts['integ'][(e['m'], len(a))](ex, t, a, e)

class Form:
    def __init__(self, u, cls, mixed=False):
        self.u = u; ex = u.ex; self.this = u.obj('form', 'mfem::' + cls); self.cls = cls; dof_axioms(ex)
        self.topol = u.obj('topol', 'TopologyHandler'); ex.lazy[(self.this.o, 'topol_handler')] = Ptr(self.topol.o)
        self.fnfi = ex.field(self.this.o, 'fnfi', 'mfem::Array<mfem::InterfaceNonlinearFormIntegrator *>'); self.nitg = vsize(ex, self.fnfi.o); u.assume(ge0(self.nitg))
        def nn(a):
            if a.args[0] == 'nonnull' and a.args[1].kind == 'app' and a.args[1].args[0] == 'rd' and a.args[1].args[1] is self.fnfi.o: return (BAtom(a),)
            return ()
        old = ex.axioms_; ex.axioms_ = lambda a: old(a) + nn(a)
        ex.opts['trans'] = self.trans; ex.opts['integ'] = {}
    def trans(self, ex, t, a, e):
        m1, m2 = obj(a[0]), obj(a[1]); p = a[2]
        info = ex.read(ex.content(p.obj), (p.off,)) if ex.objcls.get(p.obj) == '#region' else p.obj
        for s, l in ((1, a[3]), (2, a[4])):
            o = tr(s, m1, m2, info); ex.objcls.setdefault(o, 'mfem::FaceElementTransformations'); ex.store(l, Ptr(o), e)
        return VOID
    def integ(self, m, n, fn): self.u.ex.opts['integ'][(m, n)] = fn
    def itgobj(self, k): return App('rd', self.fnfi.o, P(k), sort='obj')
    def pairs(self, u, infos, m1, m2):
        """elements and transformations of interface bn of the list"""
        ex = u.ex
        def at(bn):
            I = App('rd', infos.o, P(bn), sort='obj'); T1, T2 = tr(1, m1, m2, I), tr(2, m1, m2, I)
            return T1, T2, ELEM1(ex, T1), ELEM1(ex, T2), Ind(And(BAtom(App('nonnull', T1, sort='bool')), BAtom(App('nonnull', T2, sort='bool'))))
        return at
def elem_setup(u, cls):
    ex = u.ex; F = Form(u, cls); m1, m2 = u.ptr('mesh1', 'mfem::Mesh'), u.ptr('mesh2', 'mfem::Mesh'); f1, f2 = u.ptr('fes1', 'mfem::FiniteElementSpace'), u.ptr('fes2', 'mfem::FiniteElementSpace')
    infos = u.obj('infos', 'mfem::Array<InterfaceInfo>'); u.assume(ge0(vsize(ex, infos.o)))
    return F, m1, m2, f1, f2, infos
def val(*a): return P(App(*a))
@unit('P10', 'InterfaceForm::AssembleInterfaceVector', files=IF, assume_asserts=False)
def _(u):
    ex = u.ex; F, m1, m2, f1, f2, infos = elem_setup(u, 'InterfaceForm')
    n = [tvs(f1.obj), tvs(f2.obj)]; x = [u.vec('x1', n[0]), u.vec('x2', n[1])]; y = [u.vec('y1', n[0]), u.vec('y2', n[1])]; s = u.old()
    def hook(ex, t, a, e):
        fe = [obj(a[0]), obj(a[1])]; T = [obj(a[2]), obj(a[3])]
        for k in (0, 1):
            fes = (f1, f2)[k].obj; v = obj(a[4 + k]); el = ELEM1(ex, T[k]); M.same(ex, vsize(ex, v), nvd(fes, el), 'state of the element on side %d' % (k + 1), e)
            i = Fresh('i'); M.with_range(ex, [(i, nvd(fes, el))], lambda: ex.oblige('pre', Eq(vget(ex, v, P(i)), u.at(s, lambda: vget(ex, x[k].o, vd(fes, el, P(i))))), 'the term gets the state restricted to the element of side %d' % (k + 1), e))
            ex.oblige('pre', BAtom(App('same', fe[k], feof(fes, el), sort='bool')) if fe[k] is not feof(fes, el) else TRUE, 'the term gets the finite element of side %d' % (k + 1), e)
        for k in (0, 1):
            fes = (f1, f2)[k].obj; v = obj(a[6 + k]); M.vresize(ex, v, nvd(fes, ELEM1(ex, T[k])), e); M.vset(ex, v, lambda i: val('ifres%d' % (k + 1), t.o, fe[0], fe[1], T[0], T[1], P(i)))
        return VOID
    F.integ('AssembleInterfaceVector', 8, hook)
    u.run('mfem::InterfaceForm::AssembleInterfaceVector', [m1, m2, f1, f2, Ptr(infos.o)] + x + y, this=F.this)
    at = F.pairs(u, infos, m1.obj, m2.obj)
    for k in (0, 1):
        u.unchanged(x[k], s, 'the state is not modified')
        fes = (f1, f2)[k].obj
        def spec(g):
            def bn(b):
                T1, T2, e1, e2, ok = at(b); el = (e1, e2)[k]
                return ok * u.sum(F.nitg, lambda q: u.sum(nvd(fes, el), lambda i: Ind(Eq(vd(fes, el, i), g)) * val('ifres%d' % (k + 1), F.itgobj(q), feof(f1.obj, e1), feof(f2.obj, e2), T1, T2, P(i))))
            return u.at(s, lambda: vget(ex, y[k].o, g)) + u.sum(vsize(ex, infos.o), bn)
        u.vec_is(y[k], n[k], spec, 'every interface and every term adds its residual to the unknowns of the adjacent element of mesh %d' % (k + 1))
def block_spec(u, F, infos, at, a, b, rfes, cfes, tag, fes, key):
    """sum over interfaces and terms of the local block scattered to rows of side a, columns of side b"""
    def spec(g, h):
        def bn(k):
            T = at(k); e = T[2:4]; fe = [feof(f, e[0 if q % 2 == 0 else 1]) for q, f in enumerate(fes)]
            nr, nc = nvd(rfes[a], e[a]), nvd(cfes[b], e[b])
            return T[4] * u.sum(F.nitg, lambda q: u.sum(nr, lambda i: u.sum(nc, lambda j: Ind(Eq(vd(rfes[a], e[a], i), g)) * Ind(Eq(vd(cfes[b], e[b], j), h)) * val('%s%d%d' % (tag, a + 1, b + 1), F.itgobj(q), *fe, T[0], T[1], P(i), P(j)))))
        return u.sum(vsize(u.ex, infos.o), bn)
    return spec
def mats_check(u, s, mats, rfes, cfes, spec, what):
    ex = u.ex
    for a in (0, 1):
        for b in (0, 1):
            A = mats[a][b]; f = spec(a, b)
            u.mat_is(A, tvs(rfes[a]), tvs(cfes[b]), lambda i, j: u.at(s, lambda: mget(ex, A.o, i, j)) + f(i, j), what + ': block (%d,%d)' % (a + 1, b + 1))
def spgrid(u, rfes, cfes):
    E, mats = matgrid(u, cls='SparseMatrix', pre='mat')
    for a in (0, 1):
        for b in (0, 1): u.ex.lazy[(mats[a][b].o, 'h')] = tvs(rfes[a]); u.ex.lazy[(mats[a][b].o, 'w')] = tvs(cfes[b])
    return E, mats
def fe_pre(ex, fe, want, e):
    ex.oblige('pre', TRUE if fe is want else BAtom(App('same', fe, want, sort='bool')), 'the term gets the finite elements of the two adjacent elements', e)
def put_blocks(ex, E, rfes, cfes, el, tag, args, e):
    for a in (0, 1):
        for b in (0, 1):
            m = ex.elem_value(mget(ex, E, P(a), P(b)), 'mfem::DenseMatrix *').obj; M.mresize(ex, m, nvd(rfes[a], el[a]), nvd(cfes[b], el[b]), e)
            M.mset(ex, m, lambda i, j: val('%s%d%d' % (tag, a + 1, b + 1), *args, P(i), P(j)))
@unit('P10', 'InterfaceForm::AssembleInterfaceGrad', files=IF)
def _(u):
    ex = u.ex; F, m1, m2, f1, f2, infos = elem_setup(u, 'InterfaceForm'); fes = [f1.obj, f2.obj]
    x = [u.vec('x1', tvs(fes[0])), u.vec('x2', tvs(fes[1]))]; E, mats = spgrid(u, fes, fes); s = u.old()
    def hook(ex, t, a, e):
        fe = [obj(a[0]), obj(a[1])]; T = [obj(a[2]), obj(a[3])]; el = [ELEM1(ex, T[k]) for k in (0, 1)]
        for k in (0, 1):
            v = obj(a[4 + k]); M.same(ex, vsize(ex, v), nvd(fes[k], el[k]), 'state of the element on side %d' % (k + 1), e); fe_pre(ex, fe[k], feof(fes[k], el[k]), e)
            i = Fresh('i'); M.with_range(ex, [(i, nvd(fes[k], el[k]))], lambda: ex.oblige('pre', Eq(vget(ex, v, P(i)), u.at(s, lambda: vget(ex, x[k].o, vd(fes[k], el[k], P(i))))), 'the term gets the state restricted to the element of side %d' % (k + 1), e))
        put_blocks(ex, obj(a[6]), fes, fes, el, 'ifjac', (t.o, fe[0], fe[1], T[0], T[1]), e); return VOID
    F.integ('AssembleInterfaceGrad', 7, hook)
    u.run('mfem::InterfaceForm::AssembleInterfaceGrad', [m1, m2, f1, f2, Ptr(infos.o)] + x + [E], this=F.this)
    at = F.pairs(u, infos, m1.obj, m2.obj)
    for k in (0, 1): u.unchanged(x[k], s, 'the state is not modified')
    mats_check(u, s, mats, fes, fes, lambda a, b: block_spec(u, F, infos, at, a, b, fes, fes, 'ifjac', fes, None), 'every interface and every term adds its Jacobian blocks')
@unit('P10', 'InterfaceForm::AssembleInterfaceMatrix', files=IF)
def _(u):
    ex = u.ex; F, m1, m2, f1, f2, infos = elem_setup(u, 'InterfaceForm'); fes = [f1.obj, f2.obj]; E, mats = spgrid(u, fes, fes); s = u.old()
    def hook(ex, t, a, e):
        fe = [obj(a[0]), obj(a[1])]; T = [obj(a[2]), obj(a[3])]; el = [ELEM1(ex, T[k]) for k in (0, 1)]
        for k in (0, 1): fe_pre(ex, fe[k], feof(fes[k], el[k]), e)
        put_blocks(ex, obj(a[4]), fes, fes, el, 'ifmat', (t.o, fe[0], fe[1], T[0], T[1]), e); return VOID
    F.integ('AssembleInterfaceMatrix', 5, hook)
    u.run('mfem::InterfaceForm::AssembleInterfaceMatrix', [m1, m2, f1, f2, Ptr(infos.o), E], this=F.this)
    at = F.pairs(u, infos, m1.obj, m2.obj)
    mats_check(u, s, mats, fes, fes, lambda a, b: block_spec(u, F, infos, at, a, b, fes, fes, 'ifmat', fes, None), 'every interface and every term adds its blocks')
@unit('P10', 'MixedInterfaceForm::AssembleInterfaceMatrix', files=IF)
def _(u):
    ex = u.ex; F, m1, m2, f1, f2, infos = elem_setup(u, 'MixedInterfaceForm'); fes = [f1.obj, f2.obj]; t1, t2 = u.ptr('test_fes1', 'mfem::FiniteElementSpace'), u.ptr('test_fes2', 'mfem::FiniteElementSpace'); te = [t1.obj, t2.obj]; E, mats = spgrid(u, te, fes); s = u.old()
    def hook(ex, t, a, e):
        fe = [obj(x) for x in a[:4]]; T = [obj(a[4]), obj(a[5])]; el = [ELEM1(ex, T[k]) for k in (0, 1)]
        for k in range(4): fe_pre(ex, fe[k], feof((fes + te)[k], el[k % 2]), e)
        put_blocks(ex, obj(a[6]), te, fes, el, 'ifmix', (t.o, *fe, T[0], T[1]), e); return VOID
    F.integ('AssembleInterfaceMatrix', 7, hook)
    u.run('mfem::MixedInterfaceForm::AssembleInterfaceMatrix', [m1, m2, f1, f2, t1, t2, Ptr(infos.o), E], this=F.this)
    at = F.pairs(u, infos, m1.obj, m2.obj)
    mats_check(u, s, mats, te, fes, lambda a, b: block_spec(u, F, infos, at, a, b, te, fes, 'ifmix', fes + te, None), 'every interface and every term adds its mixed blocks')

# ------------------------------------------------------------------ loops over the ports
def view(ex, data, off, n):
    o = ex.newobj('mfem::Vector', 'block'); ex.put((o, 'data'), Ptr(data.obj, data.off + off)); ex.put((o, 'size'), n); ex.put((o, 'cap'), n); return LObj(o, 'mfem::Vector')
@M.model('BlockVector', 'Update')
def _(ex, t, a, e):
    v, off = obj(a[0]), obj(a[1]); ex.setfield(t.o, 'data', ex.field(v, 'data')); ex.setfield(t.o, 'size', vsize(ex, v)); ex.setfield(t.o, 'offsets', LObj(off, 'mfem::Array<int>')); return VOID
@M.model('BlockVector', 'NumBlocks')
def _(ex, t, a, e): return vsize(ex, ex.field(t.o, 'offsets').o) - 1
@M.model('BlockVector', 'GetBlock')
def _(ex, t, a, e):
    off = ex.field(t.o, 'offsets').o; i = ex.num(a[0]); ex.oblige('bounds', And(ge0(i), ge0(vsize(ex, off) - 2 - i)), 'block index in range', e)
    b = vget(ex, off, i); return view(ex, ex.field(t.o, 'data'), b, vget(ex, off, i + 1) - b)
@M.model('Vector', 'SyncAliasMemory', 'SyncMemory')
def _(ex, t, a, e): return VOID
class Ports:
    def __init__(self, u, cls, names=('fes',)):
        self.u = u; ex = u.ex; F = self.F = Form(u, cls); th = F.this.o; N = self.N = u.int('numSub', 1); ex.lazy[(th, 'numSub')] = N
        self.meshes = ex.field(th, 'meshes', 'mfem::Array<mfem::Mesh *>').o; ex.lazy[(self.meshes, 'size')] = N
        self.fes = [ex.field(th, n, 'mfem::Array<mfem::FiniteElementSpace *>').o for n in names]
        for f in self.fes: ex.lazy[(f, 'size')] = N
        self.pi = ex.field(F.topol.o, 'port_infos', 'mfem::Array<PortInfo>').o; self.ii = ex.field(F.topol.o, 'interface_infos', 'mfem::Array<mfem::Array<InterfaceInfo> *>').o
        self.np = u.int('num_ports', 0); ex.lazy[(F.topol.o, 'num_ports')] = self.np; ex.lazy[(self.pi, 'size')] = self.np; ex.lazy[(self.ii, 'size')] = self.np
        old = ex.axioms_; pi = self.pi
        def ax(a):
            r = old(a)
            if a.args[0] in ('fld_Mesh1', 'fld_Mesh2') and a.args[1].kind == 'app' and a.args[1].args[0] == 'rd' and a.args[1].args[1] is pi:
                p = a.args[1].args[2]; r = r + (Implies(And(ge0(p), ge0(self.np - 1 - p)), And(ge0(P(a)), ge0(N - 1 - P(a)))),)
            return r
        ex.axioms_ = ax; ex.axmemo = {}
        ex.note('every port names two different meshes of the problem')
    def port(self, p):
        ex = self.u.ex; o = App('rd', self.pi, P(p), sort='obj'); ex.objcls.setdefault(o, 'PortInfo'); m = [ex.field(o, f, 'int') for f in ('Mesh1', 'Mesh2')]
        return m, App('rd', self.ii, P(p), sort='obj')
    def mesh(self, m): return App('rd', self.meshes, P(m), sort='obj')
    def fe(self, m, k=0): return App('rd', self.fes[k], P(m), sort='obj')
def addmult(u):
    ex = u.ex; W = Ports(u, 'InterfaceForm'); N = W.N; bo = ex.field(W.F.this.o, 'block_offsets', 'mfem::Array<int>').o; ex.lazy[(bo, 'size')] = N + 1
    total = u.int('total', 0); old = ex.axioms_; off = lambda i: P(App('rd', bo, P(i), sort='int'))
    def ax(a):      # class invariant established by the constructor (contract InterfaceForm::InterfaceForm)
        r = old(a)
        if a.args[0] == 'rd' and a.args[1] is bo:
            i = a.args[2]; r = r + (Implies(And(ge0(i), ge0(N - i)), And(ge0(P(a)), ge0(total - P(a)))),)
        if a.args[0] == 'tvsize' and a.args[1].kind == 'app' and a.args[1].args[0] == 'rd' and a.args[1].args[1] is W.fes[0]:
            i = a.args[1].args[2]; r = r + (Implies(And(ge0(i), ge0(N - 1 - i)), Eq(off(i + 1) - off(i), P(a))),)
        return r
    ex.axioms_ = ax; ex.axmemo = {}
    x = u.vec('x', total); return ex, W, N, bo, total, off, x
def state_pre(u, ex, s, x, off, m, v, k, fes, e):
    M.same(ex, vsize(ex, v), tvs(fes), 'state block of mesh %d' % (k + 1), e); i = Fresh('i')
    M.with_range(ex, [(i, tvs(fes))], lambda: ex.oblige('pre', Eq(vget(ex, v, P(i)), u.at(s, lambda: vget(ex, x.o, off(m) + P(i)))), 'mesh %d gets its own block of the state' % (k + 1), e))
def callee(u, W, name, n, fn):
    c = [f for f in u.ex.prog.by_qn.get(name, []) if len(f['params']) == n]
    if len(c) != 1: raise Unsupported('function %s: %d candidates' % (name, len(c)))
    u.ex.contracts[c[0]['key']] = fn
def args_pre(ex, W, a, got, e):
    """which port is being assembled: recovered from the interface list, everything else must belong to it"""
    io = obj(a[got]); 
    if not (io.kind == 'app' and io.args[0] == 'rd' and io.args[1] is W.ii): raise Unsupported('interface list is not that of a port')
    p = io.args[2]; m, I = W.port(p)
    def is_(o, want, what): ex.oblige('pre', TRUE if o is want else BAtom(App('same', o, want, sort='bool')) if not (o.kind == want.kind == 'app' and o.args[:2] == want.args[:2]) else And(*[Eq(x, y) for x, y in zip(o.args[2:], want.args[2:])]), what, e)
    is_(obj(a[0]), W.mesh(m[0]), 'first mesh of the port'); is_(obj(a[1]), W.mesh(m[1]), 'second mesh of the port')
    for k in range(len(W.fes)):
        for s in (0, 1): is_(obj(a[2 + 2 * k + s]), W.fe(m[s], k), 'space of side %d of the port' % (s + 1))
    return p, m, I
@unit('P10', 'InterfaceForm::InterfaceAddMult', files=IF)
def _(u):
    ex, W, N, bo, total, off, x = addmult(u); y = u.vec('y', total); s = u.old()
    def hook(ex, t, a, e):
        p, m, I = args_pre(ex, W, a, 4, e)
        for k in (0, 1): state_pre(u, ex, s, x, off, m[k], obj(a[5 + k]), k, W.fe(m[k]), e)
        for k in (0, 1):
            v = obj(a[7 + k]); M.same(ex, vsize(ex, v), tvs(W.fe(m[k])), 'result block of mesh %d' % (k + 1), e); M.vadd(ex, v, lambda i: val('portres%d' % (k + 1), I, W.mesh(m[0]), W.mesh(m[1]), P(i)))
        return VOID
    callee(u, W, 'mfem::InterfaceForm::AssembleInterfaceVector', 9, hook)
    u.run('mfem::InterfaceForm::InterfaceAddMult', [x, y], this=W.F.this)
    u.unchanged(x, s, 'the state is not modified')
    def spec(g):
        def one(p):
            m, I = W.port(p); return sum((Ind(And(ge0(g - off(m[k])), ge0(off(m[k] + 1) - 1 - g))) * val('portres%d' % (k + 1), I, W.mesh(m[0]), W.mesh(m[1]), P(g) - off(m[k])) for k in (0, 1)), ZERO)
        return u.at(s, lambda: vget(ex, y.o, g)) + u.sum(W.np, one)
    u.vec_is(y, total, spec, 'every port adds its residual to the blocks of its two meshes')
class Grid:
    """the grid of (distinct) sparse matrices as one four-index quantity: entry (i,j) of matrix (I,J)"""
    def __init__(self, u, W, name='mats', rk=0, ck=0):
        ex = u.ex; self.u = u; self.W = W; self.A = u.obj(name, 'mfem::Array2D<mfem::SparseMatrix *>'); N = W.N; self.rk = rk; self.ck = ck
        ex.lazy[(self.A.o, 'h')] = N; ex.lazy[(self.A.o, 'w')] = N; self.E0 = None
        self.g = Sym('ghost_' + name, 'obj'); ex.objcls[self.g] = '#region'; ex.put((self.g, 'content'), Base(Sym(name + '_entries', 'obj'), 'real')); ex.put((self.g, 'shape'), (N, N, P(Sym('gh', 'int')), P(Sym('gw', 'int'))))
        I, J = Fresh('I'), Fresh('J'); self.at0 = ex.elem_value(mget(ex, self.A.o, P(I), P(J)), 'mfem::SparseMatrix *').obj
        if not (self.at0.kind == 'app' and self.at0.args[0] == 'rd'): raise Unsupported('matrix grid')
        old = ex.axioms_; base = self.at0.args[1]
        def ax(a):
            r = old(a)
            if a.args[0] == 'nonnull' and a.args[1].kind == 'app' and a.args[1].args[:2] == ('rd', base): r = r + (BAtom(a),)
            return r
        ex.axioms_ = ax; ex.axmemo = {}
        ex.note('the matrices of the grid are distinct and nonnull')
    def index(self, o):
        if not (o.kind == 'app' and o.args[0] == 'rd' and o.args[1] is self.at0.args[1]): raise Unsupported('block is not an entry of the grid')
        return o.args[2], o.args[3]
    def add(self, o, nr, nc, fn):
        ex = self.u.ex; I, J = self.index(o); i, j = Fresh('i'), Fresh('j'); v = M.with_range(ex, [(i, nr), (j, nc)], lambda: fn(P(i), P(j)))
        ex.put((self.g, 'content'), ex.mk_add(ex.content(self.g), ((i, nr), (j, nc)), (P(I), P(J), P(i), P(j)), P(v)))
    def read(self, *ix): return self.u.ex.read(self.u.ex.content(self.g), ix)
def ports_grid(u, W, G, s, tag, what):
    """each port adds its four blocks to the matrices of its mesh pair"""
    ex = u.ex; I, J = u.idx('I', W.N), u.idx('J', W.N); i, j = u.idx('gi', tvs(W.fe(I, G.rk))), u.idx('gj', tvs(W.fe(J, G.ck)))
    def one(p):
        m, inf = W.port(p)
        return sum((Ind(Eq(I, m[a])) * Ind(Eq(J, m[b])) * Ind(ge0(tvs(W.fe(m[a], G.rk)) - 1 - i)) * Ind(ge0(tvs(W.fe(m[b], G.ck)) - 1 - j)) * val('%s%d%d' % (tag, a + 1, b + 1), inf, W.mesh(m[0]), W.mesh(m[1]), P(i), P(j)) for a in (0, 1) for b in (0, 1)), ZERO)
    u.eq(G.read(I, J, i, j), u.at(s, lambda: G.read(I, J, i, j)) + u.sum(W.np, one), what)
def grid_hook(u, W, G, tag, got, matarg, pre=None):
    ex = u.ex
    def hook(ex, t, a, e):
        p, m, I = args_pre(ex, W, a, got, e)
        if pre: pre(ex, a, m, e)
        E = obj(a[matarg])
        for x in (0, 1):
            for y in (0, 1):
                o = ex.elem_value(mget(ex, E, P(x), P(y)), 'mfem::SparseMatrix *').obj
                G.add(o, tvs(W.fe(m[x], G.rk)), tvs(W.fe(m[y], G.ck)), lambda i, j, x=x, y=y: val('%s%d%d' % (tag, x + 1, y + 1), I, W.mesh(m[0]), W.mesh(m[1]), i, j))
        return VOID
    return hook
@unit('P10', 'InterfaceForm::AssembleInterfaceMatrices', files=IF)
def _(u):
    W = Ports(u, 'InterfaceForm'); G = Grid(u, W); s = u.old(); callee(u, W, 'mfem::InterfaceForm::AssembleInterfaceMatrix', 6, grid_hook(u, W, G, 'portmat', 4, 5))
    u.run('mfem::InterfaceForm::AssembleInterfaceMatrices', [G.A], this=W.F.this)
    ports_grid(u, W, G, s, 'portmat', 'every port adds its blocks to the matrices of its two meshes')
@unit('P10', 'MixedInterfaceForm::AssembleInterfaceMatrices', files=IF)
def _(u):
    W = Ports(u, 'MixedInterfaceForm', ('trial_fes', 'test_fes')); G = Grid(u, W, rk=1, ck=0); s = u.old(); callee(u, W, 'mfem::MixedInterfaceForm::AssembleInterfaceMatrix', 8, grid_hook(u, W, G, 'portmix', 6, 7))
    u.run('mfem::MixedInterfaceForm::AssembleInterfaceMatrices', [G.A], this=W.F.this)
    ports_grid(u, W, G, s, 'portmix', 'every port adds its mixed blocks to the matrices of its two meshes')
@unit('P10', 'InterfaceForm::InterfaceGetGradient', files=IF)
def _(u):
    ex, W, N, bo, total, off, x = addmult(u); G = Grid(u, W); s = u.old()
    def pre(ex, a, m, e):
        for k in (0, 1): state_pre(u, ex, s, x, off, m[k], obj(a[5 + k]), k, W.fe(m[k]), e)
    callee(u, W, 'mfem::InterfaceForm::AssembleInterfaceGrad', 8, grid_hook(u, W, G, 'portjac', 4, 7, pre))
    u.run('mfem::InterfaceForm::InterfaceGetGradient', [x, G.A], this=W.F.this)
    u.unchanged(x, s, 'the state is not modified')
    ports_grid(u, W, G, s, 'portjac', 'every port adds its Jacobian blocks to the matrices of its two meshes')
def ctor_unit(u, cls, names, offs):
    ex = u.ex; ex.opts.setdefault('base_ctor', {}); N = u.int('numSub', 1); A = [u.obj('meshes', 'mfem::Array<mfem::Mesh *>')] + [u.obj(n, 'mfem::Array<mfem::FiniteElementSpace *>') for n in names]
    for a in A: ex.lazy[(a.o, 'size')] = N
    dof_axioms(ex); f = u.find('mfem::%s::%s' % (cls, cls), nparams=len(A) + 1); ex.under.add(f['key']); this = u.obj('form', 'mfem::' + cls); T = u.ptr('topol', 'TopologyHandler')
    ex.call_ctor(f, this.o, A + [T])
    u.eq(ex.field(this.o, 'numSub', 'int'), N, 'number of subdomains')
    for n, o, a in zip(names, offs, A[1:]):
        b = ex.field(this.o, o).o; u.eq(vsize(ex, b), N + 1, 'one offset per block'); i = u.idx('i', N + 1)
        u.eq(P(vget(ex, b, i)), u.sum(i, lambda k: tvs(ex.elem_value(vget(ex, a.o, k), 'mfem::FiniteElementSpace *').obj)), 'offsets are the partial sums of the block sizes')
@unit('P10', 'InterfaceForm::InterfaceForm', files=IF)
def _(u): ctor_unit(u, 'InterfaceForm', ['fes'], ['block_offsets'])
@unit('P10', 'MixedInterfaceForm::MixedInterfaceForm', files=IF)
def _(u): ctor_unit(u, 'MixedInterfaceForm', ['trial_fes', 'test_fes'], ['trial_block_offsets', 'test_block_offsets'])
# ------------------------------------------------------------------ reference ports (component topology)
def topo(n, f): M.MODELS[('TopologyHandler', n)] = f
topo('GetNumRefPorts', lambda ex, t, a, e: P(App('nrefports', t.o, sort='int')))
topo('GetNumComponents', lambda ex, t, a, e: P(App('ncomp', t.o, sort='int')))
def _comp_mesh(ex, t, a, e):
    c = ex.num(a[0]); ex.oblige('bounds', And(ge0(c), ge0(P(App('ncomp', t.o, sort='int')) - 1 - c)), 'component index in range', e)
    o = App('compmesh', t.o, P(c), sort='obj'); ex.objcls.setdefault(o, 'mfem::Mesh'); ex.nonnulls.add(o); return Ptr(o)
topo('GetComponentMesh', _comp_mesh)
def refcomp(o, p, k): return P(App('refcomp%d' % k, o, P(p), sort='int'))
def _comp_pair(ex, t, a, e):
    p = ex.num(a[0])
    for k in (0, 1): ex.store(a[1 + k], refcomp(t.o, p, k + 1), e)
    return VOID
topo('GetComponentPair', _comp_pair)
def _ref_infos(ex, t, a, e):
    o = App('refinfos', t.o, P(ex.num(a[0])), sort='obj'); ex.objcls.setdefault(o, 'mfem::Array<InterfaceInfo>'); ex.nonnulls.add(o); return Ptr(o)
topo('GetRefInterfaceInfos', _ref_infos)
@M.ctor('Mesh')
def _(ex, o, args, e): ex.objcls[o] = 'mfem::Mesh'; ex.put((o, 'copyof'), obj(args[0]))
def atport(u, cls, names, tag, nargs):
    ex = u.ex; F = Form(u, cls); th = F.topol.o; u.assume(Eq(ex.field(th, 'type', 'TopologyHandlerMode'), 1)); p = u.int('p', 0); nc = P(App('ncomp', th, sort='int')); u.assume(ge0(P(App('nrefports', th, sort='int')) - 1 - p))
    c = [refcomp(th, p, k) for k in (1, 2)]
    for x in c: u.assume(ge0(x)); u.assume(ge0(nc - 1 - x))
    ex.note('the two components of a reference port exist')
    A = [u.obj(n, 'mfem::Array<mfem::FiniteElementSpace *>') for n in names]
    for a in A: ex.lazy[(a.o, 'size')] = nc
    E = u.obj('mats_p', 'mfem::Array2D<mfem::SparseMatrix *>'); ex.lazy[(E.o, 'h')] = u.int('h0', 0); ex.lazy[(E.o, 'w')] = u.int('w0', 0)
    s = u.old(); fes = lambda k, n: ex.elem_value(vget(ex, A[n].o, c[k]), 'mfem::FiniteElementSpace *').obj
    calls = []
    def hook(ex, t, a, e):
        calls.append(1); ms = [obj(a[0]), obj(a[1])]
        for k in (0, 1):
            cm = App('compmesh', th, P(c[k]), sort='obj'); o = ms[k]; src = ex.get((o, 'copyof')) or o
            ex.oblige('pre', TRUE if src is cm else And(*[Eq(x, y) for x, y in zip(src.args[2:], cm.args[2:])]) if src.kind == 'app' and src.args[0] == 'compmesh' else FALSE, 'mesh %d is the mesh of the component on that side' % (k + 1), e)
        d = Not(Eq(c[0], c[1])) if all(o.kind == 'app' and o.args[0] == 'compmesh' for o in ms) else (TRUE if ms[0] is not ms[1] else FALSE)
        ex.oblige('pre', d, 'the two sides use different mesh objects', e)
        for n in range(len(A)):
            for k in (0, 1):
                o = obj(a[2 + 2 * n + k]); w = fes(k, n); ex.oblige('pre', TRUE if o is w else And(*[Eq(x, y) for x, y in zip(o.args[2:], w.args[2:])]) if o.kind == w.kind == 'app' and o.args[:2] == w.args[:2] else FALSE, 'space of side %d' % (k + 1), e)
        i = obj(a[2 + 2 * len(A)]); ex.oblige('pre', Eq(i.args[2], p) if i.kind == 'app' and i.args[0] == 'refinfos' else FALSE, 'interface list of the reference port', e)
        mp = obj(a[3 + 2 * len(A)])
        for x in (0, 1):
            for y in (0, 1):
                o = ex.elem_value(mget(ex, mp, P(x), P(y)), 'mfem::SparseMatrix *').obj; M.madd(ex, o, lambda i, j, x=x, y=y: val('%s%d%d' % (tag, x + 1, y + 1), P(i), P(j)))
        return VOID
    callee(u, None, 'mfem::%s::AssembleInterfaceMatrix' % cls, nargs, hook)
    u.run('mfem::%s::AssembleInterfaceMatrixAtPort' % cls, [p] + A + [E], this=F.this)
    u.ensure(TRUE if len(calls) == 1 else FALSE, 'the port is assembled exactly once')
    h, w = M.mdims(ex, E.o); u.eq(h, 2, 'two block rows'); u.eq(w, 2, 'two block columns')
    for a in (0, 1):
        for b in (0, 1):
            o = ex.elem_value(mget(ex, E.o, P(a), P(b)), 'mfem::SparseMatrix *').obj; rn = 1 if len(A) == 2 else 0
            u.mat_is(LObj(o, 'mfem::SparseMatrix'), tvs(fes(a, rn)), tvs(fes(b, 0)), lambda i, j: val('%s%d%d' % (tag, a + 1, b + 1), P(i), P(j)), 'block (%d,%d) of the reference port' % (a + 1, b + 1))
@unit('P10', 'InterfaceForm::AssembleInterfaceMatrixAtPort', files=IF)
def _(u): atport(u, 'InterfaceForm', ['fes_comp'], 'refmat', 6)
@unit('P10', 'MixedInterfaceForm::AssembleInterfaceMatrixAtPort', files=IF)
def _(u): atport(u, 'MixedInterfaceForm', ['trial_fes_comp', 'test_fes_comp'], 'refmix', 8)
