"""P16: decomposition of a mesh into sub-meshes.  Meshes are abstract: numbers of elements and boundary elements, the face of a boundary element, the parent face and
parent element of a sub-mesh's are arbitrary functions; what holds for every entity is proved for one arbitrary ("tracked") entity with loop invariants."""
from vc.unit import *
from contracts import c_form
TH = ('src/topology_handler.cpp',)
def fn(ex, name, *a, lo=None, hi=None):
    x = P(App(name, *[P(i) if not isinstance(i, Atom) or i.sort != 'obj' else i for i in a], sort='int'))
    if lo is not None: ex.ctx.assume(ge0(x - lo))
    if hi is not None: ex.ctx.assume(ge0(P(hi) - 1 - x))
    return x
def mesh_model(m, f):
    old = MODELS.get(('Mesh', m))
    def g(ex, t, a, e):
        h = (ex.opts.get('mesh') or {}).get(m)
        if h: return h(ex, t, a, e)
        if old: return old(ex, t, a, e)
        r = f(ex, t, a, e) if f else None
        if r is None: raise Unsupported('Mesh::%s at %s' % (m, ex.where(e)))
        return r
    for c in ('Mesh', 'SubMesh'): MODELS[(c, m)] = g
def rng(ex, i, n, what, e): ex.oblige('bounds', And(ge0(i), ge0(n - 1 - i)), what, e)
for _m in ('GetNE', 'GetNBE', 'GetNumFaces', 'GetAttribute', 'GetBdrAttribute', 'SetBdrAttribute', 'SetAttribute', 'GetBdrFace', 'GetBdrElementEdgeIndex', 'GetElementEdges', 'Dimension', 'GetBdrElement', 'GetFaceInformation', 'GetFaceInfos', 'GetBdrElementAdjacentElement', 'GetParentElementIDMap',
           'GetBdrFaceTransformations', 'GetFaceElementType', 'GetElementType', 'GetLocalFaceTransformation', 'Transfer'): mesh_model(_m, None)
# ---- list of attributes in use: counted for one arbitrary attribute
def attrs_unit(u, what):
    ex = u.ex; this = u.obj('handler', 'SubMeshTopologyHandler'); m = u.obj('mesh', 'mfem::Mesh'); v = u.int('any_attribute'); n = u.int('n', 0); L = u.obj('list', 'AttributeList'); ex.lazy[(m.o, 'attributes' if what == '' else 'bdr_attributes')] = L; ex.lazy[(L.o, 'count')] = u.int('previous', 0)
    at = lambda k: fn(ex, 'attr', k); ex.opts['mesh'] = {'GetNE' if what == '' else 'GetNBE': lambda ex, t, a, e: n, 'Get%sAttribute' % what: lambda ex, t, a, e: (rng(ex, ex.num(a[0]), n, 'element index', e), at(ex.num(a[0])))[1]}
    occ = lambda k: BAtom(App('occurs_before', P(k), sort='bool')); old = ex.axioms_
    def ax(a):
        r = old(a)
        if a.args[0] == 'occurs_before': k = P(a.args[1]); d = Or(occ(k - 1), Eq(at(k - 1), v)) if k.const() is None else None; r = r + ((Implies(ge0(k - 1), And(Implies(BAtom(a), d), Implies(d, BAtom(a)))),) if d is not None else (Not(BAtom(a)),) if k.const() == 0 else ())
        return r
    ex.axioms_ = ax; ex.axmemo = {}
    class Inv(LoopInv):
        def state(self, ex, T, pre): self.c = P(Sym('count_at_head', 'int')); return {(L.o, 'count'): self.c}
        def assume(self, ex, T): ex.ctx.assume(Eq(ex.field(L.o, 'count'), Ind(occ(T))))
        def check(self, ex, T, s): ex.oblige('invariant', Eq(ex.field(L.o, 'count'), Ind(occ(P(T) + 1))), 'listed once if it occurred, else not', s)
        def enter(self, ex, s): ex.oblige('invariant', Eq(ex.field(L.o, 'count'), 0), 'the list is empty at first', s)
        def exit(self, ex, n_, s): self.n = n_; ex.ctx.assume(Eq(ex.field(L.o, 'count'), Ind(occ(n_)) if P(n_).const() != 0 else ZERO))
    inv = Inv(); inv.n = None; inv.keys = ((L.o, 'count'),); ex.opts['tracked'] = v; at_loop(u, 'TopologyHandler::Update%sAttributes' % what, inv); u.run('TopologyHandler::Update%sAttributes' % what, [m], this)
    if inv.n is None: raise Unsupported('loop not found')
    c = ex.field(L.o, 'count'); k = u.int('k', 0); u.assume(ge0(n - 1 - k)) if False else None
    u.eq(P(inv.n), n, 'all elements are visited'); u.ensure(Eq(c, Ind(occ(n)) if not ex.decide(Eq(n, 0)) else ZERO), 'an attribute is listed exactly once if an element has it, else not')
@M.model('AttributeList', 'DeleteAll')
def _(ex, t, a, e): ex.put((t.o, 'count'), ZERO); return VOID
@M.model('AttributeList', 'SetSize')
def _(ex, t, a, e):
    if ex.num(a[0]).t: raise Unsupported('size of the list')
    ex.put((t.o, 'count'), ZERO); return VOID
@M.model('AttributeList', 'Find')
def _(ex, t, a, e):
    x = ex.num(a[0]); r = P(Fresh('found', 'int')); c = ex.field(t.o, 'count'); q = Implies(Eq(x, ex.opts['tracked']), And(Implies(Eq(c, 0), ge0(-1 - r)), Implies(Ne(c, 0), ge0(r)))); ex.ctx.assume(q); return r
@M.model('AttributeList', 'Append')
def _(ex, t, a, e): x = ex.num(ex.load(a[0], e) if isinstance(a[0], (LVar, LElem)) else a[0]); ex.put((t.o, 'count'), ex.field(t.o, 'count') + Ind(Eq(x, ex.opts['tracked']))); return VOID
for _w in ('', 'Bdr'): unit('P16', 'Update%sAttributes' % _w, files=TH)(lambda u, w=_w: attrs_unit(u, w))
# ---- vectors of sub-meshes (std::vector<std::shared_ptr<SubMesh>>)
def sub(ex, i): o = App('submesh', P(i), sort='obj'); ex.objcls[o] = 'mfem::SubMesh'; ex.nonnulls.add(o); return o
def handler(u, n=None):
    ex = u.ex; this = u.obj('handler', 'SubMeshTopologyHandler'); ns = n if n is not None else u.int('numSub', 0); ex.lazy[(this.o, 'numSub')] = ns; v = u.obj('meshes', 'MeshVector'); ex.lazy[(this.o, 'meshes')] = v; ex.lazy[(v.o, 'size')] = ns; ex.lazy[(this.o, 'pmesh')] = Ptr(u.obj('parent', 'mfem::Mesh').o); return this, ns
@M.model('MeshVector', '[]')
def _(ex, t, a, e): i = ex.num(a[0]); rng(ex, i, ex.field(t.o, 'size'), 'index of a sub-mesh', e); o = App('subptr', P(i), sort='obj'); ex.objcls[o] = 'MeshPtr'; return LObj(o, 'MeshPtr')
@M.model('MeshVector', 'size')
def _(ex, t, a, e): return ex.field(t.o, 'size')
@M.model('MeshPtr', '->')
def _(ex, t, a, e): return Ptr(sub(ex, t.o.args[1]))
@M.model('MeshPtr', 'get')
def _(ex, t, a, e): return Ptr(sub(ex, t.o.args[1]))
@M.model('MeshPtr', '*')
def _(ex, t, a, e): return LObj(sub(ex, t.o.args[1]), 'mfem::SubMesh')
def subno(o):
    if o.kind == 'app' and o.args[0] == 'submesh': return P(o.args[1])
    return None
def _copy_face(ex, o, src, e): ex.put((o, 'element'), ex.opts['face_sides'])
MODELS[('copy', 'mfem::Mesh::FaceInformation')] = MODELS[('copy', 'FaceInformation')] = _copy_face
@unit('P16', 'FindParentInterfaceInfo', files=TH)
def _(u):
    ex = u.ex; this, ns = handler(u); pf, i, ib, j, jb = (u.int(x, 0) for x in ('pface', 'imesh', 'ibe', 'jmesh', 'jbe')); u.assume(ge0(ns - 1 - i)); u.assume(ge0(ns - 1 - j)); el = lambda s: fn(ex, 'face_element', pf, P(s)); inf = lambda s: fn(ex, 'face_inf', pf, P(s)); adj = lambda m, b: fn(ex, 'adjacent', m, b); nel = lambda m: fn(ex, 'ne', m); par = lambda m, k: fn(ex, 'parent_element', m, k)
    pm = u.obj('maps', 'mfem::Array<mfem::Array<int> *>'); ex.lazy[(this.o, 'parent_elem_map')] = pm; ex.lazy[(pm.o, 'size')] = ns
    def lz(o, f):
        if o.kind == 'app' and o.args[0] == 'rd' and o.args[1] is pm.o and f in ('size', 'data'):
            if f == 'size': return nel(P(o.args[2]))
            r = App('parent_map', o, sort='obj'); ex.objcls[r] = '#region'; ex.nonnulls.add(r); ex.lazy[(r, 'content')] = Lam(par(P(o.args[2]), P(A0)), 'int'); ex.lazy[(r, 'shape')] = (nel(P(o.args[2])),); return Ptr(r)
    ex.lazyfn.append(lz)
    def finf(ex, t, a, e):
        for s, p in ((0, a[1]), (1, a[2])): ex.store(ex.deref(p, e), inf(s), e)
        return VOID
    def adjacent(ex, t, a, e):
        m = subno(t.o); b = ex.num(a[0]); x = adj(m, b); ex.ctx.assume(ge0(x)); ex.ctx.assume(ge0(nel(m) - 1 - x)); ex.store(a[1], x, e); ex.store(a[2], fn(ex, 'adjacent_info', m, b), e); return VOID
    def info(ex, t, a, e): ex.oblige('pre', Eq(ex.num(a[0]), pf), 'the parent face', e); return LObj(ex.newobj('mfem::Mesh::FaceInformation', 'face_info'), 'mfem::Mesh::FaceInformation')
    els = App('face_sides', sort='obj'); reg = ex.newregion((P(2),), Base(els, 'obj'), 'sides'); ex.opts['face_sides'] = Ptr(reg)
    ex.lazyfn.append(lambda o, f: el(P(o.args[2])) if o.kind == 'app' and o.args[0] == 'rd' and o.args[1] is els and f == 'index' else None)
    ex.opts['mesh'] = {'GetFaceInfos': finf, 'GetBdrElementAdjacentElement': adjacent, 'GetFaceInformation': info}
    # both sub-meshes lie at this face, on different sides
    ei, ej = par(i, adj(i, ib)), par(j, adj(j, jb)); u.assume(Or(And(Eq(ei, el(0)), Eq(ej, el(1))), And(Eq(ei, el(1)), Eq(ej, el(0))))); u.assume(Ne(el(0), el(1)))
    r = obj(u.run('SubMeshTopologyHandler::FindParentInterfaceInfo', [pf, i, ib, j, jb], this)); u.eq(vsize(ex, r), P(2), 'two orientations'); f = ex.decide(Eq(ei, el(0)))
    u.eq(vget(ex, r, ZERO), inf(0 if f else 1), 'orientation on the side of the first sub-mesh'); u.eq(vget(ex, r, P(1)), inf(1 if f else 0), 'orientation on the side of the second sub-mesh')
@unit('P16', 'ExportInfo', files=TH)
def _(u):
    ex = u.ex; this, ns = handler(u); d = u.int('dim', 1); ex.lazy[(this.o, 'dim')] = d; mp = u.obj('mesh_ptrs', 'mfem::Array<mfem::Mesh *>'); u.assume(ge0(vsize(ex, mp.o))); td = u.obj('topol_data', 'TopologyData'); u.run('SubMeshTopologyHandler::ExportInfo', [mp, td], this); u.eq(vsize(ex, mp.o), ns, 'one mesh for every subdomain'); u.eq(ex.num(ex.field(td.o, 'dim', 'int')), d, 'dimension'); u.eq(ex.num(ex.field(td.o, 'numSub', 'int')), ns, 'number of subdomains'); u.ensure(TRUE if ex.field(td.o, 'global_bdr_attributes').obj is obj(ex.field(Sym('parent', 'obj'), 'bdr_attributes', 'mfem::Array<int>')) else FALSE, 'boundary attributes of the parent mesh')
    k = u.int('k', 0); u.assume(ge0(ns - 1 - k))
    if ex.ctx.infeasible(): return
    u.ensure(TRUE if vget(ex, mp.o, k) is sub(ex, k) else FALSE, 'mesh of every subdomain')
@unit('P16', 'TransferToGlobal', files=TH)
def _(u):
    ex = u.ex; this, ns = handler(u); nv = u.int('num_var', 1); us = u.obj('us', 'mfem::Array<mfem::GridFunction *>'); gu = u.obj('global_u', 'mfem::Array<mfem::GridFunction *>'); ex.lazy[(us.o, 'size')] = nv * ns; ex.lazy[(gu.o, 'size')] = nv; r = App('transferred', sort='obj'); ex.objcls[r] = '#region'; ex.nonnulls.add(r); ex.lazy[(r, 'content')] = Lam(ZERO, 'int'); ex.lazy[(r, 'shape')] = ()
    def tr(ex, a, e):
        s, g = obj(a[0]), obj(a[1])
        if not (s.kind == 'app' and s.args[0] == 'rd' and s.args[1] is us.o and g.kind == 'app' and g.args[0] == 'rd' and g.args[1] is gu.o): raise Unsupported('transfer at %s' % ex.where(e))
        ex.put((r, 'content'), AddN(ex.content(r), (), (P(s.args[2]), P(g.args[2])), P(1))); return VOID
    FUNCS['mfem::SubMesh::Transfer'] = tr; u.run('SubMeshTopologyHandler::TransferToGlobal', [us, gu, nv], this); m, v = u.int('m', 0), u.int('v', 0); u.assume(ge0(ns - 1 - m)); u.assume(ge0(nv - 1 - v))
    if ex.ctx.infeasible(): return
    w = u.int('other_variable', 0); u.assume(ge0(nv - 1 - w)); u.eq(ex.read(ex.content(r), (m * nv + v, w)), Ind(Eq(v, w)), 'every variable of every subdomain is transferred once, to the global field of this variable')
# ---- Hoare-style loop invariants over tracked entities
class Facts(LoopInv):
    """facts(ex, T): formulas that hold at the head of iteration T; established on entry, kept by one arbitrary iteration, assumed on exit"""
    def __init__(self, facts, cells=None, keys=()): self.facts = facts; self.cells = cells; self.keys = keys; self.T = None; self.n = None
    def state(self, ex, T, pre): self.T = T; return self.cells(ex) if self.cells else {}
    def enter(self, ex, s):
        for f, d in self.facts(ex, ZERO): ex.oblige('invariant', f, d + ' (on entry)', s)
    def assume(self, ex, T):
        self.T = T
        for f, d in self.facts(ex, T): ex.ctx.assume(f)
    def check(self, ex, T, s):
        self.T = T
        for f, d in self.facts(ex, P(T) + 1): ex.oblige('invariant', f, d + ' (kept)', s)
    def exit(self, ex, n, s):
        self.n = n
        for f, d in self.facts(ex, n): ex.ctx.assume(f)
def local_array(ex, n, but=()):
    """the local array of integers of this length"""
    r = [v for v in ex.frames[-1].env.values() if isinstance(v, LObj) and tmpl(v.cls)[0].endswith('Array') and v.o in ex.created and v.o not in but and ex.get((v.o, 'size')) is not None and ex.ctx.entails(Eq(vsize(ex, v.o), n))]
    if len(r) != 1: raise Unsupported('array of the face map')
    return r[0].o
def edges(ex, name, n):
    def g(ex, t, a, e):
        i = ex.num(a[0]); k = n(i); ex.ctx.assume(ge0(k))
        for l, f in ((a[1], name), (a[2], name + '_orientation')):
            r = ex.newregion((k,), Lam(fn(ex, f, i, P(A0)), 'int'), f); o = obj(l); ex.put((o, 'size'), k); ex.put((o, 'data'), Ptr(r))
        return VOID
    return g
@unit('P16', 'BuildFaceMap2D', files=TH)
def _(u):
    ex = u.ex; this, ns = handler(u); pm, sm = u.obj('pm', 'mfem::Mesh'), u.obj('sm', 'mfem::SubMesh'); ne, nf = u.int('ne', 0), u.int('nf', 0); npe = u.int('npe', 0); x, i0, j0 = u.int('any_face', 0), u.int('i0', 0), u.int('j0', 0); w = u.int('parent_of_any_face', 0); nedge = lambda i: fn(ex, 'nedges', i); u.assume(ge0(nf - 1 - x)); u.assume(ge0(ne - 1 - i0)); u.assume(ge0(nedge(i0) - 1 - j0)); u.assume(Eq(fn(ex, 'sedge', i0, j0), x))
    ids = u.obj('ids', 'mfem::Array<int>'); ex.lazy[(ids.o, 'size')] = ne; r = ex.newregion((ne,), Lam(fn(ex, 'parent_of', P(A0)), 'int'), 'ids'); ex.lazy[(ids.o, 'data')] = Ptr(r); se = edges(ex, 'sedge', nedge)
    def pn(p):
        y = P(p).atom()
        if y is None or y.kind != 'app' or y.args[0] != 'parent_of': raise Unsupported('element of the parent mesh')
        return nedge(P(y.args[1]))
    pe = edges(ex, 'pedge', pn)
    def both(ex, t, a, e):
        if t.o is sm.o: rng(ex, ex.num(a[0]), ne, 'element index', e); return se(ex, t, a, e)
        return pe(ex, t, a, e)
    ex.opts['mesh'] = {'GetNE': lambda ex, t, a, e: ne if t.o is sm.o else npe, 'GetNumFaces': lambda ex, t, a, e: nf if t.o is sm.o else u.int('npf', 0), 'GetParentElementIDMap': lambda ex, t, a, e: ids, 'GetElementEdges': both, 'Dimension': lambda ex, t, a, e: P(2)}; old = ex.axioms_
    def ax(a):
        r = old(a)
        if a.args[0] == 'sedge': r = r + (ge0(P(a)), ge0(nf - 1 - P(a)), Implies(And(Eq(a.args[1], i0), Eq(a.args[2], j0)), Eq(P(a), x)))
        if a.args[0] == 'nedges': r = r + (Implies(Eq(a.args[1], i0), ge0(P(a) - 1 - j0)),)
        if a.args[0] == 'pedge' and (y := P(a.args[1]).atom()) is not None and y.kind == 'app' and y.args[0] == 'parent_of': s = fn(ex, 'sedge', P(y.args[1]), P(a.args[2])); r = r + (Implies(Eq(s, x), Eq(P(a), w)),)
        return r
    ex.axioms_ = ax; ex.axmemo = {}; ex.note('edges of an element of a sub-mesh are numbered as those of its parent element (MFEM SubMesh)')
    def facts(done):
        def f(ex, T): v = P(vget(ex, local_array(ex, nf), x)); return [(Or(Eq(v, -1), Eq(v, w)), 'no other parent face is entered for a face'), (Implies(done(P(T)), Eq(v, w)), 'the parent face is entered for every face that was met')]
        return f
    o = Facts(facts(lambda T: ge0(T - 1 - i0))); i = Facts(facts(lambda T: Or(ge0(o.T - 1 - i0), And(Eq(o.T, i0), ge0(T - 1 - j0))))); at_loop(u, 'SubMeshTopologyHandler::BuildFaceMap2D', o, 1); at_loop(u, 'SubMeshTopologyHandler::BuildFaceMap2D', i, 2)
    r = obj(u.run('SubMeshTopologyHandler::BuildFaceMap2D', [pm, sm], this)); u.eq(vsize(ex, r), nf, 'one entry for every face'); u.eq(P(o.n), ne, 'all elements are visited'); u.eq(vget(ex, r, x), w, 'parent face of every face')
@M.model('AttributeList', 'Max')
def _(ex, t, a, e): return ex.field(t.o, 'max')
# boundary attributes of meshes are a ghost array; `listed` remembers for which attributes the list bdr_attributes was made
def battr(ex, m):
    r = App('boundary_attributes', m, sort='obj')
    if r not in ex.objcls: ex.objcls[r] = '#region'; ex.nonnulls.add(r); ex.lazy[(r, 'content')] = Base(App('original_attributes', m, sort='obj'), 'int'); ex.lazy[(r, 'shape')] = ()
    return r
def bel(ex, t, a, e, n): k = ex.num(a[0]); rng(ex, k, n(t.o), 'boundary element index', e); o = App('bdr_element', t.o, P(k), sort='obj'); ex.objcls[o] = 'mfem::Element'; ex.nonnulls.add(o); return Ptr(o)
@M.model('Element', 'GetAttribute')
def _(ex, t, a, e):
    if not (t.o.kind == 'app' and t.o.args[0] == 'bdr_element'): raise Unsupported('attribute of an element')
    return P(ex.read(ex.content(battr(ex, t.o.args[1])), (P(t.o.args[2]),)))
@M.model('Element', 'SetAttribute')
def _(ex, t, a, e):
    if not (t.o.kind == 'app' and t.o.args[0] == 'bdr_element'): raise Unsupported('attribute of an element')
    r = battr(ex, t.o.args[1]); ex.put((r, 'content'), SetN(ex.content(r), (), (P(t.o.args[2]),), ex.num(a[0]))); return VOID
def _upd(ex, a, e):
    if not ex.opts.get('listed'): return None
    m = obj(a[1]); ex.opts['listed'](ex, m, e); return VOID
CONTRACTS['TopologyHandler::UpdateBdrAttributes'] = _upd
@unit('P16', 'BuildSubMeshBoundary2D', files=TH)
def _(u):
    ex = u.ex; this, ns = handler(u); parent = Sym('parent', 'obj'); sm = u.obj('sm', 'mfem::SubMesh'); nbp, nbs, nfp, nfs = (u.int(x, 0) for x in ('nbe_parent', 'nbe', 'nf_parent', 'nf')); L = u.obj('battrs', 'AttributeList'); ex.lazy[(parent, 'bdr_attributes')] = L; mx = u.int('max', 0); ex.lazy[(L.o, 'max')] = mx
    mp = u.obj('face_map', 'mfem::Array<int>'); ex.lazy[(mp.o, 'size')] = nfs; reg = ex.newregion((nfs,), Lam(fn(ex, 'parent_face', P(A0)), 'int'), 'map'); ex.lazy[(mp.o, 'data')] = Ptr(reg); k0, p0 = u.int('any_boundary_element', 0), u.int('p0', 0); u.assume(ge0(nbs - 1 - k0)); f0 = fn(ex, 'parent_face', fn(ex, 'bface', sm.o, k0)); has = BAtom(Sym('parent_has_element', 'bool')); u.assume(Implies(has, ge0(nbp - 1 - p0))); old = ex.axioms_; wp = u.int('attribute_of_p0'); ex.note('at most one boundary element of the parent mesh lies on a face')
    def ax(a):
        r = old(a)
        if a.args[0] == 'bface':
            n = nfs if a.args[1] is sm.o else nfp; r += (ge0(P(a)), ge0(n - 1 - P(a)))
            if a.args[1] is parent: r += (Implies(Eq(P(a), f0), And(has, Eq(a.args[2], p0))), Implies(And(has, Eq(a.args[2], p0)), Eq(P(a), f0)))
        if a.args[0] == 'parent_face': r += (ge0(P(a)), ge0(nfp - 1 - P(a)))
        if a.args[0] == 'rd' and a.args[1] is H: r += (inr(P(a)),)     # every entry, by the invariant
        if a.args[0] == 'rd' and a.args[1] is App('original_attributes', parent, sort='obj'): r += (Implies(Eq(a.args[2], p0), Eq(P(a), wp)),)
        return r
    ex.axioms_ = ax; ex.axmemo = {}; nb = lambda o: nbs if o is sm.o else nbp
    def face(ex, t, a, e): k = ex.num(a[0]); rng(ex, k, nb(t.o), 'boundary element index', e); return fn(ex, 'bface', t.o, k)
    ex.opts['mesh'] = {'GetNBE': lambda ex, t, a, e: nb(t.o), 'GetNumFaces': lambda ex, t, a, e: nfs if t.o is sm.o else nfp, 'GetBdrElementEdgeIndex': face, 'GetBdrFace': face, 'GetBdrElement': lambda ex, t, a, e: bel(ex, t, a, e, nb), 'Dimension': lambda ex, t, a, e: P(2)}; up = []
    ex.opts['listed'] = lambda ex, m, e: up.append((m, ex.content(battr(ex, m))))
    def facts(ex, T): v = P(vget(ex, local_array(ex, nfp), f0)); return [(Implies(And(has, ge0(P(T) - 1 - p0)), Eq(v, p0)), 'boundary element of the parent face is entered'), (Implies(Not(And(has, ge0(P(T) - 1 - p0))), Eq(v, -1)), 'no other boundary element is entered')] + any_value(ex)
    H = Sym('map_at_loop_head', 'obj'); anyf = u.int('any_face', 0); inr = lambda v: And(ge0(v + 1), ge0(nbp - 1 - v)); any_value = lambda ex: [(inr(P(vget(ex, local_array(ex, nfp), anyf))), 'every entry is a boundary element or -1')]
    l = Facts(facts, lambda ex: {(ex.field(local_array(ex, nfp), 'data').obj, 'content'): Base(H, 'int')}); at_loop(u, 'SubMeshTopologyHandler::BuildSubMeshBoundary2D', l, 1); s0 = u.old(); u.run('SubMeshTopologyHandler::BuildSubMeshBoundary2D', [LObj(parent, 'mfem::Mesh'), sm, Ptr(mp.o)], this); w = P(ex.read(ex.content(battr(ex, sm.o)), (k0,))); h = ex.decide(has)
    u.eq(w, wp if h else mx + 1, 'attribute of the boundary element of the parent, or the generated one'); u.eq(P(ex.read(ex.content(battr(ex, parent)), (p0,))), P(u.at(s0, lambda: ex.read(ex.content(battr(ex, parent)), (p0,)))), 'attributes of the parent are unchanged'); u.ensure(TRUE if up and up[-1][0] is sm.o and up[-1][1] == ex.content(battr(ex, sm.o)) else FALSE, 'the list of boundary attributes is made anew')
@unit('P16', 'GetInterfaceTransformations', files=TH)
def _(u):
    ex = u.ex; this, ns = handler(u); ms = [u.obj(x, 'mfem::Mesh') for x in ('m1', 'm2')]; info = u.obj('info', 'InterfaceInfo'); be = [u.int('BE%d' % i, 0) for i in (1, 2)]; inf = [u.int('Inf%d' % i, 0) for i in (1, 2)]; trs = [u.obj('trans%d' % i, 'mfem::FaceElementTransformations') for i in (1, 2)]; loc = [u.obj('loc%d' % i, 'mfem::IntegrationPointTransformation') for i in (1, 2)]; tf = [u.obj('transf%d' % i, 'mfem::IsoparametricTransformation') for i in (1, 2)]
    for i in (0, 1): ex.lazy[(info.o, 'BE%d' % (i + 1))] = be[i]; ex.lazy[(info.o, 'Inf%d' % (i + 1))] = inf[i]; ex.lazy[(trs[i].o, 'Loc1')] = loc[i]; ex.lazy[(loc[i].o, 'Transf')] = tf[i]; ex.lazy[(tf[i].o, 'local_face')] = P(Sym('unset%d' % i, 'int')); ex.nonnulls.add(trs[i].o)
    no = lambda o: 0 if o is ms[0].o else 1; face = lambda m, b: fn(ex, 'bface', ms[m].o, b); own = lambda m, b: fn(ex, 'own_inf', ms[m].o, b, lo=0); bes = {}
    def bface(ex, t, a, e): return face(no(t.o), ex.num(a[0]))
    def gft(ex, t, a, e): m = no(t.o); ex.put((tf[m].o, 'local_face'), own(m, ex.num(a[0]))); return Ptr(trs[m].o)
    def finf(ex, t, a, e):
        m = no(t.o); f = ex.num(a[0]).atom()
        if f is None or f.kind != 'app' or f.args[0] != 'bface' or f.args[1] is not ms[m].o: raise Unsupported('face of a mesh')
        ex.store(ex.deref(a[1], e), own(m, P(f.args[2])), e); ex.store(ex.deref(a[2], e), P(-1), e); return VOID
    def typ(name):
        def g(ex, t, a, e): return fn(ex, name, t.o, ex.num(a[0]))
        return g
    def lft(ex, t, a, e):
        m = no(t.o); o = obj(a[2]); ex.oblige('pre', And(Eq(ex.num(a[0]), fn(ex, 'ftype', ms[m].o, face(m, be[m]))), Eq(ex.num(a[1]), fn(ex, 'etype', ms[m].o, ex.num(ex.field(trs[m].o, 'Elem1No', 'int'))))), 'types of the face and its element', e); ex.oblige('pre', TRUE if o is tf[m].o else FALSE, 'transformation of the same mesh', e); ex.put((o, 'local_face'), ex.num(a[3])); return VOID
    ex.opts['mesh'] = {'GetBdrFaceTransformations': gft, 'GetBdrFace': bface, 'GetFaceInfos': finf, 'GetFaceElementType': typ('ftype'), 'GetElementType': typ('etype'), 'GetLocalFaceTransformation': lft}
    u.assume(Not(ex.ptr_eq(Ptr(ms[0].o), Ptr(ms[1].o)))); out = [ex.heap_var(NULL, 'mfem::FaceElementTransformations *') for i in (1, 2)]; u.run('TopologyHandler::GetInterfaceTransformations', [Ptr(ms[0].o), Ptr(ms[1].o), Ptr(info.o)] + out, this)
    for i in (0, 1): u.ensure(TRUE if obj(ex.load(out[i])) is trs[i].o else FALSE, 'transformation of the boundary element on side %d' % (i + 1)); u.eq(ex.field(tf[i].o, 'local_face'), inf[i], 'it uses the face and orientation that the interface gives for side %d' % (i + 1))
