"""P21: reduced-model bookkeeping: which block belongs to which subdomain and variable, projection and lifting block by block, assembly of the reduced matrix."""
from vc.unit import *
from vc import interp as I_
from contracts.c_topol import Facts
from contracts.c_ctopol import fn
RH = ('src/rom_handler.cpp',); MB = ('src/multiblock_solver.cpp',); MODELS = M.MODELS
I_.ENUMS.add('ROMOrderBy'); I_.ENUMS.add('mfem::ROMOrderBy')
VARIABLE, DOMAIN = ZERO, ONE
MODES = {'one basis per subdomain': (False, None), 'domain order': (True, DOMAIN), 'variable order': (True, VARIABLE)}
if ('Array', 'GetSubArray') not in MODELS:
    @M.model('Array', 'GetSubArray')
    def _(ex, t, a, e):
        o, n = ex.num(a[0]), ex.num(a[1]); ex.oblige('bounds', And(ge0(o), ge0(n), ge0(vsize(ex, t.o) - o - n)), 'sub-array within the array', e); d = obj(a[2]); v = [ex.content(ex.field(t.o, 'data').obj)]
        i = Fresh('i'); val = M.with_range(ex, [(i, n)], lambda: vget(ex, t.o, o + P(i))); ex.setfield(d, 'size', n); M.set_own(ex, d, (n,), Lam(subst(val, {i: P(I_.A0)}), arr_sort(v[0]))); return VOID
# ---- vectors of blocks: one region with an index per block dimension; a block is a row of it
def bv(u, name, dims, size, cls='mfem::BlockVector'):
    ex = u.ex; v = u.obj(name, cls); g = Sym('blocks_of_' + name, 'obj'); ex.objcls[g] = '#region'; ex.nonnulls.add(g); ex.lazy[(g, 'content')] = Base(Sym('content_of_' + name, 'obj'), 'real'); ex.lazy[(g, 'shape')] = tuple(P(d) for d in dims) + (P(Sym('longest', 'int')),)
    reg(ex, v.o, g, [P(d) for d in dims], size); return v
def reg(ex, o, g, dims, size): ex.opts.setdefault('bv', {})[o] = (g, dims, size)
def where(ex, t, b, e):
    """block index -> position in the grid of blocks"""
    g, dims, size = ex.opts['bv'][t.o]; b = P(b); n = dims[0]
    for d in dims[1:]: n = n * d
    ex.oblige('bounds', And(ge0(b), ge0(n - 1 - b)), 'block index %s below the number of blocks' % show(b), e)
    if len(dims) == 1: return (b,)
    q, r = divmod_poly(b, dims[1])
    if q is None or not ex.ctx.entails(And(ge0(r), ge0(dims[1] - 1 - r))): q = P(FloorDiv(b, dims[1])); r = b - q * dims[1]
    return (q, r)
def blkdims(ex, t):
    n = ONE
    for d in ex.opts['bv'][t.o][1]: n = n * d
    return n
def view(ex, t, ix, v=None):
    g, dims, size = ex.opts['bv'][t.o]; n = P(size(*ix)); r = App('row', g, *ix, sort='obj'); ex.objcls[r] = '#row'; ex.nonnulls.add(r)
    if v is None: v = ex.newobj('mfem::Vector', 'block')
    ex.put((v, 'data'), Ptr(r)); ex.put((v, 'size'), n); ex.put((v, 'cap'), n); return LObj(v, 'mfem::Vector')
def over(name, f):
    old = MODELS.get(('BlockVector', name))
    if getattr(old, 'p21', False): return
    def m(ex, t, a, e):
        if t.o in (ex.opts.get('bv') or {}): return f(ex, t, a, e)
        if old is None: raise Unsupported('BlockVector::' + name)
        return old(ex, t, a, e)
    m.p21 = True; MODELS[('BlockVector', name)] = m
over('NumBlocks', lambda ex, t, a, e: blkdims(ex, t)); over('BlockSize', lambda ex, t, a, e: P(ex.opts['bv'][t.o][2](*where(ex, t, ex.num(a[0]), e)))); over('GetBlock', lambda ex, t, a, e: view(ex, t, where(ex, t, ex.num(a[0]), e)))
over('GetBlockView', lambda ex, t, a, e: (view(ex, t, where(ex, t, ex.num(a[0]), e), obj(a[1])), VOID)[1])
def entry(ex, v, *ix): return P(ex.read(ex.content(ex.opts['bv'][v.o][0]), tuple(P(x) for x in ix)))
def nonneg(ex, *names):
    old = ex.axioms_; ex.axioms_ = lambda a: tuple(old(a)) + ((ge0(P(a)),) if a.args[0] in names else ()); ex.axmemo = {}

class Handler:
    """a handler with any number of subdomains, variables and components; mode: how the reduced blocks are ordered"""
    def __init__(self, u, mode, cls='mfem::MFEMROMHandler'):
        self.u = u; ex = self.ex = u.ex; self.sep, self.order = MODES[mode]; h = self.h = u.obj('handler', cls); L = ex.lazy; ns = self.ns = u.int('numSub', 1); nv = self.nv = u.int('num_var', 1); nc = self.nc = u.int('num_comp', 1)
        L[(h.o, 'numSub')] = ns; L[(h.o, 'num_var')] = nv; L[(h.o, 'num_rom_comp')] = nc; self.k = nv if self.sep else ONE; self.nb = L[(h.o, 'num_rom_blocks')] = ns * self.k; self.nr = L[(h.o, 'num_rom_ref_blocks')] = nc * self.k
        L[(h.o, 'separate_variable')] = TRUE if self.sep else FALSE; L[(h.o, 'basis_loaded')] = TRUE
        if self.order is not None: L[(h.o, 'ordering')] = self.order
        else: o = u.int('order', 0, 1); L[(h.o, 'ordering')] = o
        t = self.topol = u.obj('topol', 'TopologyHandler'); L[(h.o, 'topol_handler')] = Ptr(t.o)
        M.MODELS[('TopologyHandler', 'GetMeshType')] = lambda ex, t, a, e: (ex.oblige('bounds', And(ge0(ex.num(a[0])), ge0(ns - 1 - ex.num(a[0]))), 'subdomain index in range', e), P(fn(ex, 'mtype', ex.num(a[0]))))[1]
        old = ex.axioms_
        def ax(a):
            r = tuple(old(a))
            if a.args[0] == 'mtype': r = r + (Implies(And(ge0(a.args[1]), ge0(ns - 1 - a.args[1])), And(ge0(P(a)), ge0(nc - 1 - P(a)))),)
            return r
        ex.axioms_ = ax; ex.axmemo = {}; ex.opts['witness'] = self.witness; self.nref = ex.field(h.o, 'num_ref_basis', 'mfem::Array<int>').o; L[(self.nref, 'size')] = self.nr
    def type(self, m): return P(fn(self.ex, 'mtype', P(m)))
    def index(self, m, v):
        """the reduced block of subdomain m and variable v"""
        if not self.sep: return P(m)
        return P(v) + P(m) * self.nv if self.order is DOMAIN or self.order == DOMAIN else P(m) + P(v) * self.ns
    def ref(self, m, v): return self.type(m) * self.nv + P(v) if self.sep else self.type(m)
    def fom(self, m, v): return P(m) * self.nv + P(v) if self.sep else P(m)
    def some(self, n=''):
        m, v = self.u.idx('subdomain' + n, self.ns), self.u.idx('variable' + n, self.nv if self.sep else ONE); return m, v
    def witness(self, ex, bs, ix, idx):
        """which iteration writes to this place (a proposal, checked by the reader)"""
        if len(bs) == 1:
            for c in getattr(self, 'cands', ()): yield {bs[0][0]: P(c)}
        if len(bs) == 2 and len(idx) == 2:
            for c in getattr(self, 'cands', ()):
                yield {bs[0][0]: P(c), bs[1][0]: P(idx[1])}
        if len(bs) == 2 and len(idx) == 3:
            for c in getattr(self, 'cands', ()): yield {bs[0][0]: P(c), bs[1][0]: P(idx[2])}
        if len(bs) == 2 and len(idx) == 1 and self.sep:
            for i, n in ((P(idx[0]) - o, n) for o in (0, 1) for n in (self.nv, self.ns)):
                q, r = divmod_poly(i, n)
                if q is None or not ex.ctx.entails(And(ge0(r), ge0(n - 1 - r))): q = P(FloorDiv(i, n)); r = i - q * n
                for x, y in ((q, r), (r, q)): yield {bs[0][0]: x, bs[1][0]: y}
def last(ex, hi, lo):
    """sum of n+1 terms less the sum of the first n of them: the last term"""
    less, r = ZERO, ZERO
    for mo, c in P(hi).t.items():
        (a, k), = mo; assert a.kind == 'sum' and k == 1; ((v, n),), body = a.args; body = Poly({body: c}); less = less + SumN([(v, n - 1)], body); r = r + ex.divs(subst(body, {v: n - 1}))
    if less != P(lo): raise Unsupported('consecutive partial sums with different terms')
    return r
def contract(u, qn, f, n=None):
    c = [g for g in u.ex.prog.by_qn.get(qn, []) if n is None or len(g['params']) == n]
    if len(c) != 1: raise Unsupported('function %s: %d candidates' % (qn, len(c)))
    u.ex.contracts[c[0]['key']] = f
def modes(name, files=RH, only=None, **kw):
    def d(f):
        for mode in MODES:
            if only and mode not in only: continue
            @unit('P21', '%s (%s)' % (name, mode), files=files, **kw)
            def _(u, mode=mode): f(u, Handler(u, mode))
        return f
    return d
@modes('GetBlockIndex')
def _(u, H):
    m, v = H.some(); r = u.ex.num(u.run('mfem::ROMHandlerBase::GetBlockIndex', [m, v], this=H.h)); u.ensure(Eq(r, H.index(m, v)), 'the block of the subdomain and variable'); u.ensure(And(ge0(r), ge0(H.nb - 1 - r)), 'is a block')
@unit('P21', 'GetBlockIndex (one basis per subdomain, no variable)', files=RH)
def _(u): H = Handler(u, 'one basis per subdomain'); m, v = H.some(); r = u.ex.num(u.run('mfem::ROMHandlerBase::GetBlockIndex', [m, P(-1)], this=H.h)); u.ensure(Eq(r, m), 'the block of the subdomain')
@modes('GetDomainAndVariableIndex')
def _(u, H):
    ex = u.ex; m, v = H.some(); a, b = ('v', 0, 'out_m'), ('v', 0, 'out_v'); ex.put(a, P(Sym('old_m', 'int'))); ex.put(b, P(Sym('old_v', 'int'))); u.run('mfem::ROMHandlerBase::GetDomainAndVariableIndex', [H.index(m, v), LVar(a, 'int'), LVar(b, 'int')], this=H.h)
    u.ensure(Eq(ex.get(a), m), 'the subdomain of the block'); u.ensure(Eq(ex.get(b), v if H.sep else P(-1)), 'the variable of the block')
@modes('every block has a subdomain and a variable', only=('domain order', 'variable order'))
def _(u, H):
    ex = u.ex; x = u.idx('block', H.nb); a, b = ('v', 0, 'out_m'), ('v', 0, 'out_v'); ex.put(a, P(Sym('old_m', 'int'))); ex.put(b, P(Sym('old_v', 'int'))); u.run('mfem::ROMHandlerBase::GetDomainAndVariableIndex', [x, LVar(a, 'int'), LVar(b, 'int')], this=H.h); m, v = P(ex.get(a)), P(ex.get(b))
    u.ensure(And(ge0(m), ge0(H.ns - 1 - m)), 'subdomain in range'); u.ensure(And(ge0(v), ge0(H.nv - 1 - v)), 'variable in range'); u.ensure(Eq(H.index(m, v), x), 'whose block it is')
@modes('SetBlockSizes')
def _(u, H):
    ex = u.ex; f = lambda n: ex.field(H.h.o, n, 'mfem::Array<int>').o; m, v = H.some(); s = u.old(); u.run('mfem::ROMHandlerBase::SetBlockSizes', [], this=H.h); nb, off, coff = f('num_basis'), f('rom_block_offsets'), f('rom_comp_block_offsets'); b = H.index(m, v); want = lambda r: u.at(s, lambda: P(vget(ex, H.nref, P(r))))
    u.ensure(Eq(vsize(ex, nb), H.nb), 'one size per block'); u.ensure(Eq(vsize(ex, off), H.nb + 1), 'offsets of all blocks'); u.ensure(Eq(vsize(ex, coff), H.nr + 1), 'offsets of all reference blocks')
    u.eq(ex.divs(vget(ex, nb, b)), want(H.ref(m, v)), 'size of the block: basis vectors of the component and variable'); u.eq(vget(ex, off, ZERO), ZERO, 'the first block starts at zero'); u.eq(last(ex, vget(ex, off, b + 1), vget(ex, off, b)), want(H.ref(m, v)), 'blocks follow each other'); r = u.idx('ref_block', H.nr)
    u.eq(vget(ex, coff, ZERO), ZERO, 'the first reference block starts at zero'); u.eq(vget(ex, coff, r + 1) - vget(ex, coff, r), want(r), 'reference blocks follow each other')
@unit('P21', 'GetRefIndexForSubdomain', files=RH)
def _(u): H = Handler(u, 'one basis per subdomain'); m = u.idx('m', H.ns); r = u.ex.num(u.run('mfem::ROMHandlerBase::GetRefIndexForSubdomain', [m], this=H.h)); u.ensure(Eq(r, H.type(m)), 'the component of the subdomain')

# ---- the bases: one per component (and variable), each block of the reduced model has the one of its component and variable
def rows(ex, b): return P(fn(ex, 'fom_size_of_block', P(b)))
def cols(ex, b): return P(fn(ex, 'basis_size_of_block', P(b)))
class Bases(Handler):
    """dom_basis[b] has the rows of the full-order block and the columns of the reduced block (established by LoadReducedBasis and SetBlockSizes)"""
    def __init__(self, u, mode):
        Handler.__init__(self, u, mode); ex, h = self.ex, self.h; nonneg(ex, 'fom_size_of_block', 'basis_size_of_block')
        for f, n, k in (('dom_basis', self.nb, 'dom_basis'), ('ref_basis', self.nr, 'ref_basis')):
            r = ex.newregion((n,), Lam(App(k, P(A0), sort='obj'), 'obj'), f); o = ex.field(h.o, f, 'mfem::Array<mfem::DenseMatrix *>').o; ex.lazy[(o, 'data')] = Ptr(r); ex.lazy[(o, 'size')] = n
        def lz(o, f):
            if o.kind == 'app' and o.args[0] in ('dom_basis', 'ref_basis'):
                b = o.args[1]; ex.objcls.setdefault(o, 'mfem::DenseMatrix'); ex.nonnulls.add(o); t = '' if o.args[0] == 'dom_basis' else 'ref_'
                n = {'h': lambda: rows(ex, b), 'w': lambda: cols(ex, b)} if not t else {'h': lambda: P(fn(ex, 'fom_size_of_ref', P(b))), 'w': lambda: P(vget(ex, self.nref, P(b)))}
                if f in n: return n[f]()
        ex.lazyfn.append(lz); nonneg(ex, 'fom_size_of_ref'); base = P(vget(ex, self.nref, ZERO)).atom().args[1]; old = ex.axioms_; ex.axioms_ = lambda a: tuple(old(a)) + ((ge0(P(a)),) if a.args[0] == 'rd' and a.args[1] is base else ()); ex.axmemo = {}; self.off = ex.field(h.o, 'rom_block_offsets', 'mfem::Array<int>').o
    def fomvec(self, name='fom'):
        """a full-order vector and the position of the block of a subdomain and variable"""
        if self.order is VARIABLE: return bv(self.u, name, [self.ns, self.nv], lambda m, v: rows(self.ex, P(m) + P(v) * self.ns)), lambda m, v: (m, v)
        return bv(self.u, name, [self.nb], lambda x: rows(self.ex, x)), lambda m, v: (self.fom(m, v),)
    def basis(self, b, kind='dom_basis'): o = App(kind, P(b), sort='obj'); self.ex.objcls.setdefault(o, 'mfem::DenseMatrix'); self.ex.nonnulls.add(o); return o
    def new(self, ex, a, e):
        """the reduced vector: offsets of the reduced blocks"""
        if a and getattr(a[0], 'o', None) is self.off:
            if not hasattr(self, 'rom'): self.rom = bv(self.u, 'new_rom_vec', [self.nb], lambda b: cols(ex, b))
            return Ptr(self.rom.o)
        raise Unsupported('new vector with other offsets')
def bmodes(name, only=None, **kw):
    def d(f):
        for mode in MODES:
            if only and mode not in only: continue
            @unit('P21', '%s (%s)' % (name, mode), files=RH, **kw)
            def _(u, mode=mode): f(u, Bases(u, mode))
        return f
    return d
def vecs(u, n, m): return u.vec('vec', n), u.vec('rom_vec', m)
for dom in (True, False):
    N = 'Domain' if dom else 'Ref'; K = 'dom_basis' if dom else 'ref_basis'
    @unit('P21', 'ProjectTo%sBasis (vector)' % N, files=RH)
    def _(u, dom=dom, N=N, K=K):
        H = Bases(u, 'domain order'); ex = u.ex; i = u.idx('i', H.nb if dom else H.nr); B = H.basis(i, K); h, w = mdims(ex, B); x, y = vecs(u, h, w)
        u.run('mfem::MFEMROMHandler::ProjectTo%sBasis' % N, [i, x, y], this=H.h, pred=lambda f: len(f['params']) == 3 and 'Vector' in f['params'][1]['t']); u.vec_is(y, w, lambda k: u.sum(h, lambda r: mget(ex, B, r, k) * vget(ex, x.o, r)), 'coefficients: transposed basis times the vector')
    @unit('P21', 'LiftUpFrom%sBasis' % N, files=RH)
    def _(u, dom=dom, N=N, K=K):
        H = Bases(u, 'domain order'); ex = u.ex; i = u.idx('i', H.nb if dom else H.nr); B = H.basis(i, K); h, w = mdims(ex, B); x, y = vecs(u, h, w)
        u.run('mfem::MFEMROMHandler::LiftUpFrom%sBasis' % N, [i, y, x], this=H.h); u.vec_is(x, h, lambda r: u.sum(w, lambda k: mget(ex, B, r, k) * vget(ex, y.o, k)), 'vector: basis times the coefficients')
@bmodes('ProjectGlobalToDomainBasis (vector)')
def _(u, H):
    ex = u.ex; m, v = H.some(); b = H.index(m, v); X, at = H.fomvec(); ex.opts['new'] = {'mfem::BlockVector': H.new}; out = ('v', 0, 'out_rom'); ex.put(out, NULL); H.cands = [b]; k = u.idx('k', cols(ex, b))
    u.run('mfem::MFEMROMHandler::ProjectGlobalToDomainBasis', [Ptr(X.o), LVar(out, 'mfem::BlockVector *')], this=H.h, pred=lambda f: len(f['params']) == 2 and 'BlockVector' in f['params'][0]['t'])
    u.ensure(TRUE if isinstance(ex.get(out), Ptr) and ex.get(out).obj is H.rom.o else FALSE, 'a vector with the offsets of the reduced blocks')
    u.eq(ex.divs(entry(ex, H.rom, b, k)), u.sum(rows(ex, b), lambda r: mget(ex, H.basis(b), r, k) * entry(ex, X, *at(m, v), r)), 'block: transposed basis of the block times the full-order block of the subdomain and variable')
@bmodes('LiftUpGlobal')
def _(u, H):
    ex = u.ex; m, v = H.some(); b = H.index(m, v); X, at = H.fomvec(); Y = bv(u, 'rom', [H.nb], lambda b: cols(ex, b)); H.cands = [b]; k = u.idx('k', rows(ex, b)); u.run('mfem::MFEMROMHandler::LiftUpGlobal', [Y, X], this=H.h)
    u.eq(ex.divs(entry(ex, X, *at(m, v), k)), u.sum(cols(ex, b), lambda j: mget(ex, H.basis(b), k, j) * entry(ex, Y, b, j)), 'full-order block of the subdomain and variable: basis of the block times its coefficients')

# ---- projection of operators: R' A P for the bases of the two blocks, block by block (the product itself: P01)
def opr(ex, i, j):
    o = App('operator', P(i), P(j), sort='obj'); ex.objcls.setdefault(o, 'mfem::Operator'); return o
def ops(u, H, n, name='mats'):
    """n x n operators, any of them absent"""
    ex = u.ex; A = u.obj(name, 'mfem::Array2D<mfem::Operator *>'); r = ex.newregion((n, n), Lam(App('operator', P(A0), P(A1), sort='obj'), 'obj'), name); ex.lazy[(A.o, 'data')] = Ptr(r); return A
def zeromat(ex, a, e):
    o = App('zero_matrix', P(ex.num(a[0])), P(ex.num(a[1])), sort='obj'); ex.objcls[o] = 'mfem::SparseMatrix'; ex.nonnulls.add(o); return Ptr(o)
def rtap(u):
    def c(ex, t, a, e):
        R, A, Q = obj(a[0]), obj(a[1]), obj(a[2]); d = lambda f, o: ex.field(o, f); M.same(ex, P(fn(ex, 'op_height', *A.args[1:])), d('h', R), 'left basis conforms', e); M.same(ex, P(fn(ex, 'op_width', *A.args[1:])), d('h', Q), 'right basis conforms', e)
        o = App('product', R, A, Q, sort='obj'); ex.objcls[o] = 'mfem::SparseMatrix'; ex.nonnulls.add(o); return Ptr(o)
    u.ex.opts['rtap'] = c
I_.CONTRACTS['mfem::SparseRtAP'] = lambda ex, a, e: ex.opts['rtap'](ex, None, a, e) if ex.opts.get('rtap') else None
for dom in (True, False):
    for given in (True, False):
        N = 'Domain' if dom else 'Ref'
        @unit('P21', 'ProjectTo%sBasis (operator%s)' % (N, '' if given else ' absent'), files=RH)
        def _(u, dom=dom, given=given, N=N):
            H = Bases(u, 'domain order'); ex = u.ex; n = H.nb if dom else H.nr; i, j = u.idx('i', n), u.idx('j', n); A = opr(ex, ZERO, ZERO); K = 'dom_basis' if dom else 'ref_basis'; R, Q = H.basis(i, K), H.basis(j, K); rtap(u); ex.opts['new'] = {'mfem::SparseMatrix': zeromat}
            h, w = P(fn(ex, 'op_height', ZERO, ZERO)), P(fn(ex, 'op_width', ZERO, ZERO))
            if given: ex.nonnulls.add(A); u.assume(Eq(h, mdims(ex, R)[0])); u.assume(Eq(w, mdims(ex, Q)[0])); ex.lazyfn.append(lambda o, f: {'height': h, 'width': w, 'h': h, 'w': w}.get(f) if o is A else None)
            r = u.run('mfem::MFEMROMHandler::ProjectTo%sBasis' % N, [i, j, Ptr(A) if given else NULL], this=H.h, pred=lambda f: len(f['params']) == 3 and 'Operator *' in f['params'][2]['t'])
            want = App('product', R, A, Q, sort='obj') if given else App('zero_matrix', mdims(ex, R)[1], mdims(ex, Q)[1], sort='obj'); u.ensure(TRUE if isinstance(r, Ptr) and r.obj is want else FALSE, 'product with the two bases' if given else 'an empty matrix of the sizes of the two bases')
def projected(ex, i, j, A):
    o = App('projected', P(i), P(j), A, sort='obj'); ex.objcls[o] = 'mfem::SparseMatrix'; ex.nonnulls.add(o); return o
def one(u, H, N):
    """contract of the projection of one operator: bases i and j of that operator"""
    n = H.nb if N == 'Domain' else H.nr
    def c(ex, t, a, e):
        i, j = ex.num(a[0]), ex.num(a[1]); ex.oblige('pre', And(ge0(i), ge0(n - 1 - i), ge0(j), ge0(n - 1 - j)), 'basis index in range', e); return Ptr(projected(ex, i, j, ex.to_content(a[2])))
    f = [g for g in u.ex.prog.by_qn['mfem::MFEMROMHandler::ProjectTo%sBasis' % N] if len(g['params']) == 3 and 'Operator *' in g['params'][2]['t']]
    if len(f) != 1: raise Unsupported('ProjectTo%sBasis: %d candidates' % (N, len(f)))
    u.ex.contracts[f[0]['key']] = c
def romats(u):
    """result: any matrices of a previous projection"""
    ex = u.ex; A = u.obj('rom_mats', 'mfem::Array2D<mfem::SparseMatrix *>'); return A
for N in ('Domain', 'Ref'):
    @unit('P21', 'ProjectTo%sBasis (list of blocks)' % N, files=RH)
    def _(u, N=N):
        H = Bases(u, 'domain order'); ex = u.ex; n = H.nb if N == 'Domain' else H.nr; one(u, H, N); p, q = u.int('rows', 1), u.int('columns', 1); I, J = u.obj('idx_i', 'mfem::Array<int>'), u.obj('idx_j', 'mfem::Array<int>')
        for x, k in ((I, p), (J, q)):
            ex.lazy[(x.o, 'size')] = k; b = P(vget(ex, x.o, ZERO)).atom().args[1]; old = ex.axioms_
            def ax(a, old=old, b=b, k=k):
                r = tuple(old(a))
                if a.args[0] == 'rd' and a.args[1] is b: r = r + (Implies(And(ge0(P(a.args[2])), ge0(k - 1 - P(a.args[2]))), And(ge0(P(a)), ge0(n - 1 - P(a)))),)
                return r
            ex.axioms_ = ax
        ex.axmemo = {}; A = u.obj('mats', 'mfem::Array2D<mfem::Operator *>'); r = ex.newregion((p, q), Lam(App('operator', P(A0), P(A1), sort='obj'), 'obj'), 'mats'); ex.lazy[(A.o, 'data')] = Ptr(r); ex.lazy[(A.o, 'h')] = p; ex.lazy[(A.o, 'w')] = q
        out = romats(u); i, j = u.idx('i', p), u.idx('j', q); s = u.old(); u.run('mfem::MFEMROMHandler::ProjectTo%sBasis' % N, [I, J, A, out], this=H.h, pred=lambda f: len(f['params']) == 4)
        got = mget(ex, out.o, i, j); u.ensure(TRUE if got is projected(ex, vget(ex, I.o, i), vget(ex, J.o, j), opr(ex, i, j)) else FALSE, 'block (i,j): the operator with the bases listed for i and j')

# ---- which blocks an operator of a component, an interface or a variable is projected on
def listed(u, H, N, check):
    """contract of the projection on a list of blocks (proved above); check(I, J): obligations on the lists"""
    n = H.nb if N == 'Domain' else H.nr; ex0 = u.ex; seen = u.ex.opts.setdefault('listed', [])
    def c(ex, t, a, e):
        I, J, A = obj(a[0]), obj(a[1]), obj(a[2]); ex.oblige('pre', Eq(vsize(ex, I), mdims(ex, A)[0]), 'one block for every row of operators', e); ex.oblige('pre', Eq(vsize(ex, J), mdims(ex, A)[1]), 'one block for every column of operators', e)
        for x in (I, J): k = P(Fresh('k')); ex.oblige('pre', Implies(And(ge0(k), ge0(vsize(ex, x) - 1 - k)), And(ge0(P(vget(ex, x, k))), ge0(n - 1 - P(vget(ex, x, k))))), 'blocks in range', e)
        check(I, J, e); seen.append(1); return VOID
    f = [g for g in u.ex.prog.by_qn['mfem::MFEMROMHandler::ProjectTo%sBasis' % N] if len(g['params']) == 4]; u.ex.contracts[f[0]['key']] = c
    return seen
def square(u, n): ex = u.ex; A = u.obj('mats', 'mfem::Array2D<mfem::Operator *>'); ex.lazy[(A.o, 'h')] = n; ex.lazy[(A.o, 'w')] = n; return A
def lists(u, H, N, fname, args, n, want, m):
    """want(k): the block of row k; checked at an arbitrary row"""
    ex = u.ex; k = u.idx('row', n); A, out = square(u, n), romats(u)
    def chk(I, J, e): ex.oblige('post', Eq(vsize(ex, I), n), 'all rows', e); ex.oblige('post', Eq(vget(ex, I, k), want(k, 0)), 'block of the row', e); ex.oblige('post', Eq(vget(ex, J, k), want(k, 1)), 'block of the column', e)
    seen = listed(u, H, N, chk); u.run('mfem::MFEMROMHandler::' + fname, args + [A, out], this=H.h, pred=lambda f: len(f['params']) == m); u.ensure(TRUE if seen else FALSE, 'projected')
for N in ('Domain', 'Ref'):
    def idx(H, N, c, v): return H.index(c, v) if N == 'Domain' else (c * H.nv + v if H.sep else c)
    @bmodes('ProjectComponentTo%sBasis' % N)
    def _(u, H, N=N): c = u.idx('c', H.ns if N == 'Domain' else H.nc); lists(u, H, N, 'ProjectComponentTo%sBasis' % N, [c], H.k, lambda k, s: idx(H, N, c, k if H.sep else ZERO), 3)
    @bmodes('ProjectInterfaceTo%sBasis' % N)
    def _(u, H, N=N):
        n = H.ns if N == 'Domain' else H.nc; c1, c2 = u.idx('c1', n), u.idx('c2', n); lists(u, H, N, 'ProjectInterfaceTo%sBasis' % N, [c1, c2], H.k * 2, lambda k, s: Ite(ge0(H.k - 1 - k), idx(H, N, c1, k if H.sep else ZERO), idx(H, N, c2, k - H.k if H.sep else ZERO)), 4)
@bmodes('ProjectVariableToDomainBasis', only=('domain order', 'variable order'))
def _(u, H): vi, vj = u.idx('vi', H.nv), u.idx('vj', H.nv); lists(u, H, 'Domain', 'ProjectVariableToDomainBasis', [vi, vj], H.ns, lambda k, s: H.index(k, vj if s else vi), 4)
@bmodes('ProjectGlobalToDomainBasis (operators)')
def _(u, H): glob(u, H)
def glob(u, H):
    ex = u.ex; n = H.nb; k = u.idx('row', n); A, out = square(u, n), romats(u)
    def chk(I, J, e):
        for x in (I, J): ex.oblige('post', Eq(vsize(ex, x), n), 'all blocks', e); ex.oblige('post', Eq(vget(ex, x, k), k), 'every operator on its own block', e)
    seen = listed(u, H, 'Domain', chk); u.run('mfem::MFEMROMHandler::ProjectGlobalToDomainBasis', [A, out], this=H.h, pred=lambda f: 'Array2D' in f['params'][0]['t']); u.ensure(TRUE if seen else FALSE, 'projected')

# ---- loading and enriching the bases
@M.model('CAROM::Matrix', 'numRows')
def _(ex, t, a, e): return P(fn(ex, 'carom_rows', t.o.args[1]))
@M.model('CAROM::Matrix', 'numColumns')
def _(ex, t, a, e): return P(fn(ex, 'carom_columns', t.o.args[1]))
@M.model('Matrix', 'numRows')
def _(ex, t, a, e): return P(fn(ex, 'carom_rows', t.o.args[1]))
@M.model('Matrix', 'numColumns')
def _(ex, t, a, e): return P(fn(ex, 'carom_columns', t.o.args[1]))
def _copy(ex, a, e):
    x, y = obj(a[0]), obj(a[1]); ok = x.args[0] == 'carom_basis' and y.args[0] == 'ref_basis_made'; ex.oblige('pre', Eq(P(x.args[1]), P(y.args[1])) if ok else FALSE, 'a basis is copied into the matrix made for it', e); return VOID
I_.CONTRACTS['CAROM::CopyMatrix'] = _copy
@bmodes('LoadReducedBasis: the basis of every block')
def _(u, H):
    ex = u.ex; h = H.h; r = ex.newregion((H.nr,), Lam(App('carom_basis', P(A0), sort='obj'), 'obj'), 'carom'); o = ex.field(h.o, 'carom_ref_basis', 'mfem::Array<CAROM::Matrix *>').o; ex.lazy[(o, 'data')] = Ptr(r); ex.lazy[(o, 'size')] = H.nr
    def lz(x, f):
        if x.kind == 'app' and x.args[0] == 'carom_basis': ex.objcls.setdefault(x, 'CAROM::Matrix'); ex.nonnulls.add(x)
        return None
    def new(ex, a, e):
        k = P(a[0]).atom(); ok = k is not None and k.kind == 'app' and k.args[0] == 'carom_rows'
        if not ok: raise Unsupported('basis matrix of other sizes')
        ex.oblige('post', Eq(ex.num(a[1]), fn(ex, 'carom_columns', k.args[1])), 'basis with its columns', e); x = App('ref_basis_made', P(k.args[1]), sort='obj'); ex.objcls[x] = 'mfem::DenseMatrix'; ex.nonnulls.add(x); return Ptr(x)
    ex.lazyfn.append(lz); ex.opts['new'] = {'mfem::DenseMatrix': new}; contract(u, 'mfem::ROMHandlerBase::LoadReducedBasis', lambda ex, t, a, e: VOID); nonneg(ex, 'carom_rows', 'carom_columns'); old = ex.axioms_; ex.axioms_ = lambda a: tuple(old(a)) + ((BAtom(a),) if a.args[0] == 'nonnull' and a.args[1].kind == 'app' and a.args[1].args[0] == 'carom_basis' else ()); ex.axmemo = {}
    m, v = H.some(); u.run('mfem::MFEMROMHandler::LoadReducedBasis', [], this=h); f = lambda n: ex.field(h.o, n, 'mfem::Array<mfem::DenseMatrix *>').o; d = f('dom_basis'); g = f('ref_basis'); x = vget(ex, d, H.index(m, v)); want = App('ref_basis_made', H.ref(m, v), sort='obj')
    k = u.idx('k', H.nr); u.ensure(TRUE if ex.to_content(vget(ex, g, k)) is App('ref_basis_made', k, sort='obj') else FALSE, 'a matrix for every basis'); u.ensure(Eq(vsize(ex, d), H.nb), 'a basis for every block'); x = ex.to_content(x)
    ok = isinstance(x, Atom) and x.kind == 'app' and x.args[0] == 'ref_basis_made'; y = ex.divs(P(x.args[1])) if ok else None
    u.ensure(Eq(y, H.ref(m, v)) if ok else FALSE, 'the basis of the component and variable')

if ('DenseMatrix', 'SetSubMatrix') not in MODELS:
    @M.model('DenseMatrix', 'SetSubMatrix')
    def _(ex, t, a, e):
        if len(a) != 3 or not isinstance(a[0], Poly): raise Unsupported('SetSubMatrix with index lists')
        r0, c0, A = a[0], ex.num(a[1]), obj(a[2]); h, w = mdims(ex, t.o); nh, nw = mdims(ex, A); ex.oblige('bounds', And(ge0(r0), ge0(c0), ge0(h - r0 - nh), ge0(w - c0 - nw)), 'sub-matrix fits in the matrix', e)
        i, j = Fresh('i'), Fresh('j'); val, (r, ix) = M.with_range(ex, [(i, nh), (j, nw)], lambda: (mget(ex, A, P(i), P(j)), M.midx(ex, t.o, r0 + P(i), c0 + P(j)))); ex.put((r, 'content'), I_.SetN(ex.content(r), ((j, nw), (i, nh)), ix, val)); return VOID
@unit('P21', 'AppendReferenceBasis', files=RH)
def _(u):
    H = Bases(u, 'domain order'); ex = u.ex; h = H.h; i = u.idx('i', H.nr); B = H.basis(i, 'ref_basis'); rows_, w = mdims(ex, B); A = u.mat('mat', rows_, u.int('added', 0)); n = mdims(ex, A.o)[1]; s = u.old(); done = []
    def sizes(ex, t, a, e): ex.oblige('post', Eq(vget(ex, H.nref, i), w + n), 'block sizes are recomputed with the new number of basis vectors', e); done.append(1); return VOID
    contract(u, 'mfem::ROMHandlerBase::SetBlockSizes', sizes); u.run('mfem::MFEMROMHandler::AppendReferenceBasis', [i, A], this=h); u.ensure(TRUE if len(done) == 1 else FALSE, 'block sizes recomputed')
    G = H.basis(i, 'ref_basis'); u.ensure(Eq(mdims(ex, G)[0], rows_), 'rows'); u.ensure(Eq(mdims(ex, G)[1], w + n), 'columns'); r, c, d = u.idx('r', rows_), u.idx('c', w), u.idx('d', n)
    u.eq(mget(ex, G, r, c), u.at(s, lambda: mget(ex, B, r, c)), 'the former basis vectors'); u.eq(mget(ex, G, r, w + d), u.at(s, lambda: mget(ex, A.o, r, d)), 'followed by the new ones'); j = u.idx('j', H.nr); u.eq(vget(ex, H.nref, j), Ite(Eq(i, j), w + n, u.at(s, lambda: vget(ex, H.nref, j))), 'sizes of the other bases unchanged')

# ---- the solver: variables of all subdomains, reordering of blocks
class Solver:
    def __init__(self, u):
        self.u = u; ex = self.ex = u.ex; s = self.s = u.obj('solver', 'MultiBlockSolver'); L = ex.lazy; ns = self.ns = u.int('numSub', 1); nv = self.nv = u.int('num_var', 1); L[(s.o, 'numSub')] = ns; L[(s.o, 'num_var')] = nv; nonneg(ex, 'block_size'); self.size = lambda m, v: P(fn(ex, 'block_size', P(m), P(v)))
        t = self.topol = u.obj('topol', 'TopologyHandler'); L[(s.o, 'topol_handler')] = Ptr(t.o)
    def by_sub(self, n='by_subdomain'): return bv(self.u, n, [self.ns, self.nv], self.size)
    def by_var(self, n='by_variable'): return bv(self.u, n, [self.nv, self.ns], lambda v, m: self.size(m, v))
    def run(self, f, a, **kw): return self.u.run('MultiBlockSolver::' + f, a, this=self.s, **kw)
def sunit(name):
    def d(f):
        @unit('P21', name, files=MB)
        def _(u): f(u, Solver(u))
    return d
@sunit('SortBySubdomains')
def _(u, S):
    ex = u.ex; A, B = S.by_var(), S.by_sub(); m, v = u.idx('m', S.ns), u.idx('v', S.nv); k = u.idx('k', S.size(m, v)); S.run('SortBySubdomains', [A, B]); u.eq(entry(ex, B, m, v, k), entry(ex, A, v, m, k), 'the block of every subdomain and variable'); 
@sunit('SortByVariables')
def _(u, S):
    ex = u.ex; A, B = S.by_var(), S.by_sub(); m, v = u.idx('m', S.ns), u.idx('v', S.nv); k = u.idx('k', S.size(m, v)); S.run('SortByVariables', [B, A]); u.eq(entry(ex, A, v, m, k), entry(ex, B, m, v, k), 'the block of every subdomain and variable')
for get in (True, False):
    @sunit('%sVariableVector' % ('Get' if get else 'Set'))
    def _(u, S, get=get):
        ex = u.ex; x = u.idx('variable', S.nv); G = S.by_sub('global'); W = bv(u, 'var', [S.ns], lambda m: S.size(m, x)); m, v = u.idx('m', S.ns), u.idx('v', S.nv); v = x if not get and ex.decide(Eq(v, x)) else v; k = u.idx('k', S.size(m, x if get else v)); s = u.old(); S.run('%sVariableVector' % ('Get' if get else 'Set'), [x, G, W] if get else [x, W, G])
        if get: u.eq(entry(ex, W, m, k), entry(ex, G, m, x, k), 'the block of the variable of every subdomain')
        elif v is x: u.eq(entry(ex, G, m, v, k), entry(ex, W, m, k), 'the block of the variable of every subdomain')
        else: u.eq(entry(ex, G, m, v, k), u.at(s, lambda: entry(ex, G, m, v, k)), 'other variables unchanged')

@sunit('ComputeRelativeError')
def _(u, S):
    ex = u.ex; n = S.ns * S.nv; G = []
    for nm in ('fom_sols', 'rom_sols'):
        A = u.obj(nm, 'mfem::Array<mfem::GridFunction *>'); r = ex.newregion((n,), Lam(App('solution', Sym(nm, 'obj'), P(A0), sort='obj'), 'obj'), nm); ex.lazy[(A.o, 'data')] = Ptr(r); ex.lazy[(A.o, 'size')] = n; G.append(A)
    old = ex.axioms_; ex.axioms_ = lambda a: tuple(old(a)) + ((BAtom(a),) if a.args[0] == 'nonnull' and a.args[1].kind == 'app' and a.args[1].args[0] == 'solution' else ()); ex.axmemo = {}
    def c(ex, t, a, e):
        f, r = obj(a[0]), obj(a[1]); ok = f.args[0] == r.args[0] == 'solution' and str(f.args[1]) == 'fom_sols' and str(r.args[1]) == 'rom_sols'; ex.oblige('pre', Eq(P(f.args[2]), P(r.args[2])) if ok else FALSE, 'solutions of the same subdomain and variable', e)
        ex.store(a[2], P(App('subdomain_error', P(f.args[2]), sort='real')), e); ex.store(a[3], P(App('subdomain_norm', P(f.args[2]), sort='real')), e); return VOID
    ex.opts['ieee_division'] = True; ex.note('a variable whose full-order solution is zero has no relative error'); contract(u, 'MultiBlockSolver::ComputeSubdomainErrorAndNorm', c); E = u.vec('error', u.int('old', 0)); v = u.idx('v', S.nv); S.run('ComputeRelativeError', G + [E])
    sq = lambda f: u.sum(S.ns, lambda m: P(App(f, P(m) * S.nv + v, sort='real')) ** 2)
    u.ensure(Eq(vsize(ex, E.o), S.nv), 'one error per variable'); u.eq(vget(ex, E.o, v), Sqrt(sq('subdomain_error')) * Inv(Sqrt(sq('subdomain_norm'))), 'error over norm of the variable, over all subdomains')

# ---- the reduced matrix: component, boundary and port matrices at the blocks of their subdomains
for n_ in ('BoundaryType', 'TopologyHandlerMode'): I_.ENUMS.add(n_)
if ('Array', 'Find') not in MODELS:
    @M.model('Array', 'Find')
    def _(ex, t, a, e):
        r = P(App('find', t.o, P(ex.num(a[0])), sort='int')); n = vsize(ex, t.o); ex.ctx.assume(ge0(r + 1)); ex.ctx.assume(ge0(n - 1 - r)); return r
I_.CONTRACTS['mfem::ROMHandlerBase::GetBlockIndex'] = lambda ex, a, e: ex.opts['block_index'](ex, a[1:], e) if ex.opts.get('block_index') else None
I_.CONTRACTS['ROMHandlerBase::GetBlockIndex'] = I_.CONTRACTS['mfem::ROMHandlerBase::GetBlockIndex']
ENTRY = ('v', 0, 'rom_entry')
class Assembly:
    """one entry of the reduced matrix, in block row I0 and block column J0"""
    def __init__(self, u, mode):
        S = self.S = Solver(u); self.u = u; ex = self.ex = u.ex; L = ex.lazy; s = S.s; self.sep = mode; self.k = S.nv if self.sep else ONE; ns, nv = S.ns, S.nv; L[(s.o, 'separate_variable_basis')] = TRUE if self.sep else FALSE
        nc = u.int('num_comp', 1); np = self.np = u.int('num_ports', 0); nrp = u.int('num_ref_ports', 0); L[(s.o, 'topol_mode')] = ONE        # COMPONENT
        h = u.obj('rom_handler', 'mfem::ROMHandlerBase'); L[(s.o, 'rom_handler')] = Ptr(h.o); E = self.E = u.obj('rom_elems', 'ROMLinearElement'); L[(s.o, 'rom_elems')] = Ptr(E.o)
        def table(o, f, n, name, cls):
            r = ex.newregion((n,), Lam(App(name, P(A0), sort='obj'), 'obj'), name); a = ex.field(o, f, 'mfem::Array<%s *>' % cls).o; L[(a, 'data')] = Ptr(r); L[(a, 'size')] = n
        table(E.o, 'comp', nc, 'comp_matrix', 'mfem::MatrixBlocks'); table(E.o, 'port', nrp, 'port_matrix', 'mfem::MatrixBlocks'); table(E.o, 'bdr', nc, 'bdr_list', 'mfem::Array<mfem::MatrixBlocks *>')
        self.type = lambda m: P(fn(ex, 'mtype', P(m))); self.nbdr = lambda c: P(fn(ex, 'num_bdr', P(c)))
        def lz(o, f):
            if o.kind != 'app': return
            k = o.args[0]
            if k in ('comp_matrix', 'port_matrix', 'bdr_matrix'): ex.objcls.setdefault(o, 'mfem::MatrixBlocks'); ex.nonnulls.add(o); n = self.k * 2 if k == 'port_matrix' else self.k; return {'nrows': n, 'ncols': n}.get(f)
            if k == 'bdr_list':
                n = self.nbdr(o.args[1])
                if f == 'size': return n
                if f == 'data': r = App('reg', o, sort='obj'); ex.objcls[r] = '#region'; ex.nonnulls.add(r); L[(r, 'content')] = Lam(App('bdr_matrix', P(o.args[1]), P(A0), sort='obj'), 'obj'); L[(r, 'shape')] = (n,); return Ptr(r)
            if k == 'c2g' and f == 'size': return self.nbdr(self.type(o.args[1]))
            if k == 'portinfo' and f in ('Mesh1', 'Mesh2'): return P(fn(ex, f, P(o.args[1])))
        ex.lazyfn.append(lz)
        old = ex.axioms_
        def ax(a):
            r = tuple(old(a)); k = a.args[0]
            if k == 'mtype': r += (Implies(And(ge0(a.args[1]), ge0(ns - 1 - a.args[1])), And(ge0(P(a)), ge0(nc - 1 - P(a)))),)
            if k in ('Mesh1', 'Mesh2'): r += (Implies(And(ge0(a.args[1]), ge0(np - 1 - a.args[1])), And(ge0(P(a)), ge0(ns - 1 - P(a)))),)
            if k == 'port_type': r += (Implies(And(ge0(a.args[1]), ge0(np - 1 - a.args[1])), And(ge0(P(a)), ge0(nrp - 1 - P(a)))),)
            if k == 'num_bdr': r += (ge0(P(a)),)
            return r
        ex.axioms_ = ax; ex.axmemo = {}
        mm = lambda name, n: (lambda ex, t, a, e: (ex.oblige('bounds', And(ge0(ex.num(a[0])), ge0(n - 1 - ex.num(a[0]))), 'index in range', e), P(fn(ex, name, ex.num(a[0]))))[1])
        def pobj(name, cls, n):
            def f(ex, t, a, e): i = ex.num(a[0]); ex.oblige('bounds', And(ge0(i), ge0(n - 1 - i)), 'index in range', e); o = App(name, P(i), sort='obj'); ex.objcls.setdefault(o, cls); ex.nonnulls.add(o); return Ptr(o)
            return f
        T = 'TopologyHandler'; MODELS[(T, 'GetMeshType')] = mm('mtype', ns); MODELS[(T, 'GetPortType')] = mm('port_type', np); MODELS[(T, 'GetNumPorts')] = lambda ex, t, a, e: np; MODELS[(T, 'GetPortInfo')] = pobj('portinfo', 'PortInfo', np); MODELS[(T, 'GetBdrAttrComponentToGlobalMap')] = pobj('c2g', 'mfem::Array<int>', ns)
        def bidx(ex, a, e):
            m, v = ex.num(a[0]), ex.num(a[1]); ex.oblige('pre', And(ge0(m), ge0(ns - 1 - m), ge0(v), ge0(self.k - 1 - v)), 'subdomain and variable in range', e); return self.index(m, v)
        ex.opts['block_index'] = bidx; MODELS[('MultiBlockSolver', 'BCExistsOnBdr')] = lambda ex, t, a, e: BAtom(App('bc_exists', P(ex.num(a[0])), sort='bool'))
        self.gba = ex.field(s.o, 'global_bdr_attributes', 'mfem::Array<int>').o; self.bt = ex.field(s.o, 'bdr_type', 'mfem::Array<BoundaryType>').o; L[(self.bt, 'size')] = vsize(ex, self.gba)
        self.I0, self.J0 = u.idx('block_row', ns * self.k), u.idx('block_column', ns * self.k)
        def add(ex, a, e):
            I, J, X = obj(a[0]), obj(a[1]), obj(a[2]); n, m = vsize(ex, I), vsize(ex, J); M.same(ex, n, ex.field(X, 'nrows'), 'one block index for every block row', e); M.same(ex, m, ex.field(X, 'ncols'), 'one block index for every block column', e)
            ex.put(ENTRY, P(ex.get(ENTRY)) + M.vsum(ex, n, lambda i: M.vsum(ex, m, lambda j: Ind(Eq(P(vget(ex, I, i)), self.I0)) * Ind(Eq(P(vget(ex, J, j)), self.J0)) * self.val(X, i, j)))); return VOID
        ex.opts['add_blocks'] = add
    def index(self, m, v): return P(fn(self.ex, 'block_of', P(m), P(v)))      # GetBlockIndex: proved above for every ordering
    def val(self, X, i, j): return P(App('entry', X, P(i), P(j), sort='real'))
I_.CONTRACTS['mfem::AddToBlockMatrix'] = lambda ex, a, e: ex.opts['add_blocks'](ex, a, e) if ex.opts.get('add_blocks') else None
for mode in (False, True):
    @unit('P21', 'AssembleROMMat (%s)' % ('one block per variable' if mode else 'one block per subdomain'), files=MB)
    def _(u, mode=mode):
        H = Assembly(u, mode); ex = u.ex; S = H.S; ex.put(ENTRY, P(Sym('entry_before', 'real'))); B = u.obj('romMat', 'mfem::BlockMatrix'); S.run('AssembleROMMat', [B], pred=lambda f: len(f['params']) == 1)
        def O(k, *i): o = App(k, *[P(x) for x in i], sort='obj'); ex.objcls.setdefault(o, 'mfem::Array<int>' if k == 'c2g' else 'mfem::MatrixBlocks'); ex.nonnulls.add(o); return o
        hit = lambda m, v, m2, v2: Ind(Eq(H.index(m, v), H.I0)) * Ind(Eq(H.index(m2, v2), H.J0))
        both = lambda m, X: u.sum(H.k, lambda v: u.sum(H.k, lambda w: hit(m, v, m, w) * H.val(X, v, w)))
        def active(m, b): g = P(App('find', H.gba, P(vget(ex, O('c2g', m), b)), sort='int')); return Ind(ge0(g)) * Ind(BAtom(App('bc_exists', g, sort='bool'))) * Ind(Ne(P(vget(ex, H.bt, g)), P(2)))        # NEUMANN
        comp = u.sum(S.ns, lambda m: both(m, O('comp_matrix', H.type(m))) + u.sum(H.nbdr(H.type(m)), lambda b: active(m, b) * both(m, O('bdr_matrix', H.type(m), b))))
        def port(p):
            X = O('port_matrix', fn(ex, 'port_type', P(p))); ms = [P(fn(ex, 'Mesh%d' % q, P(p))) for q in (1, 2)]
            blk = lambda k: Ite(ge0(H.k - 1 - k), H.index(ms[0], k), H.index(ms[1], k - H.k)); return u.sum(H.k * 2, lambda v: u.sum(H.k * 2, lambda w: Ind(Eq(blk(v), H.I0)) * Ind(Eq(blk(w), H.J0)) * H.val(X, v, w)))
        u.eq(ex.get(ENTRY), P(Sym('entry_before', 'real')) + comp + u.sum(H.np, port), 'component, boundary and port matrices at the blocks of their subdomains')

# ---- boundary conditions by global attribute; finite element spaces of the components
@sunit('SetBdrType')
def _(u, S):
    ex = u.ex; ga = ex.field(S.s.o, 'global_bdr_attributes', 'mfem::Array<int>').o; bt = ex.field(S.s.o, 'bdr_type', 'mfem::Array<BoundaryType>').o; n = u.int('num_attributes', 0); ex.lazy[(ga, 'size')] = n; ex.lazy[(bt, 'size')] = n; g = u.int('g'); u.assume(ge0(n - 1 - g)); t = u.int('type', 0, 3); b = u.idx('b', n); s = u.old(); S.run('SetBdrType', [t, g])
    if ex.decide(ge0(-1 - g)): u.eq(vget(ex, bt, b), t, 'every boundary')
    else: u.eq(vget(ex, bt, b), Ite(Eq(b, g), t, u.at(s, lambda: vget(ex, bt, b))), 'that boundary and no other')
@sunit('GetComponentFESpaces')
def _(u, S):
    ex = u.ex; nc = u.int('num_comp', 0); s = S.s; MODELS[('TopologyHandler', 'GetNumComponents')] = lambda ex, t, a, e: nc
    for f, cls in (('fec', 'mfem::Array<mfem::FiniteElementCollection *>'), ('vdim', 'mfem::Array<int>')): o = ex.field(s.o, f, cls).o; ex.lazy[(o, 'size')] = S.nv; setattr(S, f, o)
    def mesh(ex, t, a, e): c = ex.num(a[0]); ex.oblige('bounds', And(ge0(c), ge0(nc - 1 - c)), 'component in range', e); o = App('comp_mesh', P(c), sort='obj'); ex.objcls.setdefault(o, 'mfem::Mesh'); ex.nonnulls.add(o); return Ptr(o)
    MODELS[('TopologyHandler', 'GetComponentMesh')] = mesh
    def new(ex, a, e): o = App('fespace', ex.to_content(a[0]), ex.to_content(a[1]), P(ex.num(a[2])), sort='obj'); ex.objcls.setdefault(o, 'mfem::FiniteElementSpace'); ex.nonnulls.add(o); return Ptr(o)
    ex.opts['new'] = {'mfem::FiniteElementSpace': new}; out = u.obj('comp_fes', 'mfem::Array<mfem::FiniteElementSpace *>'); c, v = u.idx('c', nc), u.idx('v', S.nv); S.run('GetComponentFESpaces', [out]); u.ensure(Eq(vsize(ex, out.o), nc * S.nv), 'one space per component and variable')
    x = ex.to_content(vget(ex, out.o, c * S.nv + v)); want = App('fespace', App('comp_mesh', P(c), sort='obj'), ex.to_content(vget(ex, S.fec, v)), P(vget(ex, S.vdim, v)), sort='obj'); u.ensure(TRUE if x is want else FALSE, 'the space of the component and variable')
