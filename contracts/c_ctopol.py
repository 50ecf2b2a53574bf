"""P15: component-wise topology.  Components, meshes and files are abstract; what holds for every entity is proved for one arbitrary ("tracked") entity."""
import json
from vc.unit import *
from vc.terms import subst_atom
from contracts import c_topol, c_h5, c_input, c_rom
from contracts.c_topol import fn, rng, Facts
CT = ('src/component_topology_handler.cpp', 'src/topology_handler.cpp')
# ---- motions
def motion(u):
    ex = u.ex; out = {}
    for n in ('trans', 'rotate'):
        r = ex.newregion((P(3),), Base(Sym(n, 'obj'), 'real'), n); out[n] = r; ex.opts.setdefault('globals', {})['mesh_config::' + n] = ex.opts['globals'][n] = (lambda r: lambda ex_, e: Ptr(r))(r)
    return out
def point(u, n, d):
    v = u.obj(n, 'mfem::Vector'); u.assume(Eq(vsize(u.ex, v.o), d)); return v
def trig(ex):
    """sin and cos as functions of the angle: odd, even, sin^2 + cos^2 = 1"""
    def f(name, sign):
        def g(ex, a, e):
            x = P(ex.num(a[0])); k = -x
            if repr(k) < repr(x): return P(App(name, k, sort='real')) * sign
            return P(App(name, x, sort='real'))
        return g
    FUNCS['sin'] = FUNCS['std::sin'] = f('sin', -1); FUNCS['cos'] = FUNCS['std::cos'] = f('cos', 1); old = ex.axioms_
    def ax(a):
        r = old(a)
        if a.args[0] in ('sin', 'cos'): s, c = P(App('sin', P(a.args[1]), sort='real')), P(App('cos', P(a.args[1]), sort='real')); r += (Eq(s * s + c * c, ONE),)
        return r
    ex.axioms_ = ax; ex.axmemo = {}
for _d in (2, 3):
    for _w, _v in (('Transform', 'InverseTransform'), ('InverseTransform', 'Transform')):
        @unit('P15', '%s%dD undoes %s%dD' % (_v, _d, _w, _d), files=CT)
        def _(u, d=_d, w=_w, v=_v):
            ex = u.ex; trig(ex); motion(u); x, y, z = (point(u, n, d) for n in 'xyz'); s0 = u.old(); u.run('mesh_config::%s%dD' % (w, d), [x, y]); u.run('mesh_config::%s%dD' % (v, d), [y, z])
            for k in range(d): u.eq(vget(ex, z.o, P(k)), u.at(s0, lambda: vget(ex, x.o, P(k))), 'component %d of the point' % k)
    @unit('P15', 'Transform%dD' % _d, files=CT)
    def _(u, d=_d):
        ex = u.ex; trig(ex); m = motion(u); x, y = (point(u, n, d) for n in 'xy'); t = [P(ex.read(ex.content(m['trans']), (P(k),))) for k in range(d)]; r = P(ex.read(ex.content(m['rotate']), (ZERO,))); s, c = FUNCS['sin'](ex, [r], None), FUNCS['cos'](ex, [r], None); X = [vget(ex, x.o, P(k)) for k in range(d)]; u.run('mesh_config::Transform%dD' % d, [x, y]); want = [c * X[0] - s * X[1] + t[0], s * X[0] + c * X[1] + t[1]] if d == 2 else [X[k] + t[k] for k in range(3)]; u.eq(vsize(ex, y.o), P(d), 'size')
        for k in range(d): u.eq(vget(ex, y.o, P(k)), want[k], 'component %d of the moved point' % k)
# ---- handler: components c < nc, subdomains m < ns with component type(m), reference ports r < nr, ports p < np
PI, MC, IFI, PDT = 'PortInfo', 'ComponentTopologyHandler::MeshConfig', 'InterfaceInfo', 'ComponentTopologyHandler::PortData'
def array(u, h, f, t, n, content=None):
    ex = u.ex; a = u.obj('h_' + f, 'mfem::Array<%s>' % t); ex.lazy[(h.o, f)] = a; ex.lazy[(a.o, 'size')] = n
    if content is not None: r = ex.newregion((n,), Lam(content(P(A0)), 'int'), f); ex.lazy[(a.o, 'data')] = Ptr(r)
    return a
class CH:
    def __init__(self, u):
        ex = self.ex = u.ex; self.u = u; ex.opts['soa'] = {PI, MC, IFI}; ex.opts['rows'] = True; h = self.h = u.obj('handler', 'ComponentTopologyHandler'); self.nc, self.ns = u.int('num_comp', 1), u.int('numSub', 1); self.nr, self.np = u.int('num_ref_ports', 0), u.int('num_ports', 0); self.dim = u.int('dim', 1); self.ranges = {}; self.tracked = []
        for f, v in (('num_comp', self.nc), ('numSub', self.ns), ('num_ref_ports', self.nr), ('num_ports', self.np), ('dim', self.dim)): ex.lazy[(h.o, f)] = v
        self.components = array(u, h, 'components', 'BlockMesh *', self.nc); self.meshes = array(u, h, 'meshes', 'mfem::Mesh *', self.ns); self.mesh_types = array(u, h, 'mesh_types', 'int', self.ns, lambda m: fn(ex, 'type', m)); self.ref_ports = array(u, h, 'ref_ports', PDT + ' *', self.nr); self.ref_interfaces = array(u, h, 'ref_interfaces', 'mfem::Array<InterfaceInfo> *', self.nr); self.interface_infos = array(u, h, 'interface_infos', 'mfem::Array<InterfaceInfo> *', self.np)
        self.port_infos = array(u, h, 'port_infos', PI, self.np); self.port_types = array(u, h, 'port_types', 'int', self.np, lambda p: fn(ex, 'port_type', p)); self.range('type', 0, self.nc); self.range('port_type', 0, self.nr); old = ex.axioms_
        def ax(a):
            r = old(a); q = self.ranges.get(a.args[0]) if a.kind == 'app' else None
            if a.args[0] == 'rd' and a.args[1].kind == 'app' and a.args[1].args[0] == 'soa_of' and a.args[1].args[2] in ('Mesh1', 'Mesh2'): r += (ge0(P(a)), ge0(self.ns - 1 - P(a)))
            if a.kind == 'app' and a.sort in ('int', 'real'):      # equals for equals: the iteration of a loop that is the tracked one
                for v in a.free:
                    if v.kind == 'sym' and v.sort == 'int' and v.args[0].startswith('iter~'):
                        for t in self.tracked: r += (Implies(Eq(P(v), t), Eq(P(a), subst_atom(a, {v: P(t)}))),)
            if a.kind == 'app' and a.args[0] == 'file_has': b = BAtom(App('file_has', a.args[1], P(self.has0), a.args[3], sort='bool')) if hasattr(self, 'has0') else None; r += (Implies(Eq(a.args[2], self.has0), And(Implies(BAtom(a), b), Implies(b, BAtom(a)))),) if b is not None else ()
            if a.args[0] == 'same' and a.args[1].kind == 'app' and a.args[1].args[0] in ('port_dict', 'iflist') and all(x.kind == 'app' and x.args[0] == a.args[1].args[0] for x in a.args[1:]): r += (Implies(And(*[Eq(x, y) for x, y in zip(a.args[1].args[1:], a.args[2].args[1:])]), BAtom(a)),)
            if a.args[0] == 'same' and all(x.kind == 'app' and x.args[0] == 'rd' for x in a.args[1:]) and a.args[1].args[1] is a.args[2].args[1]: r += (Implies(And(*[Eq(x, y) for x, y in zip(a.args[1].args[2:], a.args[2].args[2:])]), BAtom(a)),)
            for lo, hi in q or ():
                if lo is not None: r += (ge0(P(a) - lo),)
                if hi is not None: hi = hi(*[P(x) if not isinstance(x, Atom) or x.sort != 'obj' else x for x in a.args[1:]]) if callable(hi) else P(hi); r += (ge0(hi - 1 - P(a)),) if hi is not None else ()
            return r
        ex.axioms_ = ax; ex.axmemo = {}
    def track(self, *t): self.tracked += t; self.ex.axmemo = {}
    def range(self, f, lo=None, hi=None): self.ranges.setdefault(f, []).append((lo, hi)); self.ex.axmemo = {}
    def comp(self, c): o = App('rd', self.components.o, P(c), sort='obj'); self.ex.objcls.setdefault(o, 'BlockMesh'); return o
    def refport(self, r): o = App('rd', self.ref_ports.o, P(r), sort='obj'); self.ex.objcls.setdefault(o, PDT); return o
    def pinfo(self, p, f): r, ix = M.vidx(self.ex, self.port_infos.o, P(p)); fs = [x for x in self.ex.prog.recs[PI]['fields'] if x['n'] == f][0]; return P(self.ex.read(self.ex.content(self.ex.soa_region(r, fs)), ix))
    def pd(self, r, f): return self.ex.num(self.ex.field(self.refport(r), f, 'int'))
    def fld(self, a, i, f, t): r, ix = M.vidx(self.ex, a, P(i)); fs = [x for x in self.ex.prog.recs[t]['fields'] if x['n'] == f][0]; q = self.ex.soa_region(r, fs); return (lambda *k: P(self.ex.read(self.ex.content(q), ix + k)))
    def type(self, m): return fn(self.ex, 'type', m)
C = 'ComponentTopologyHandler::'
class Cases(Facts):
    """facts whose preservation is shown separately for the tracked iteration and for the others"""
    def __init__(self, t, facts, cells=None, keys=()): Facts.__init__(self, facts, cells, keys); self.t = t
    def check(self, ex, T, s):
        for c in (Eq(P(T), self.t), ge0(P(T) - self.t - 1), ge0(self.t - P(T) - 1)):
            m = ex.ctx.mark(); ex.ctx.assume(c)
            if not ex.ctx.infeasible(): Facts.check(self, ex, T, s)
            ex.ctx.reset(m)
def same(ex, a, b): return TRUE if a is b else ex.ptr_eq(Ptr(a), Ptr(b))
@unit('P15', 'SetupPorts', files=CT, assume_asserts=True)
def _(u):
    ex = u.ex; H = CH(u); p0 = u.int('any_port', 0); u.assume(ge0(H.np - 1 - p0)); H.track(p0); t0 = fn(ex, 'port_type', p0)
    for f in ('Mesh1', 'Mesh2'): u.assume(ge0(H.pinfo(p0, f))); u.assume(ge0(H.ns - 1 - H.pinfo(p0, f)))
    def ok(): return [(Eq(H.type(H.pinfo(p0, 'Mesh%d' % i)), H.pd(t0, 'Component%d' % i)), 'component %d of a port is that of its reference port' % i) for i in (1, 2)] + [(Eq(H.pinfo(p0, 'Attr%d' % i), H.pd(t0, 'Attr%d' % i)), 'boundary attribute %d of a port is that of its reference port' % i) for i in (1, 2)] + [(Not(And(Eq(H.pd(t0, 'Component1'), H.pd(t0, 'Component2')), Eq(H.pinfo(p0, 'Mesh1'), H.pinfo(p0, 'Mesh2')))), 'a port joins two subdomains')]
    lst = lambda: [(same(ex, vget(ex, H.interface_infos.o, p0), App('rd', H.ref_interfaces.o, t0, sort='obj')), 'a port has the interface list of its reference port')]
    def facts(ex, T):
        g = ge0(P(T) - 1 - p0)
        if ex.ctx.entails(Not(g)): return []
        return [(Implies(g, f), d) for f, d in ok() + lst()]
    l = Cases(p0, facts); at_loop(u, C + 'SetupPorts', l, 1); u.run(C + 'SetupPorts', [], H.h); u.eq(vsize(ex, H.interface_infos.o), H.np, 'one list for every port')
    for f, d in ok() + lst(): u.ensure(f, d)
@unit('P15', 'GetRefPortInfo', files=CT)
def _(u):
    ex = u.ex; H = CH(u); r = u.int('ref_port', 0); u.assume(ge0(H.nr - 1 - r)); out = [ex.heap_var(P(-9), 'int') for _ in range(4)]; u.run(C + 'GetRefPortInfo', [ex.heap_var(r, 'int')] + out, H.h)
    for o, f in zip(out, ('Component1', 'Component2', 'Attr1', 'Attr2')): u.eq(ex.num(ex.load(o)), H.pd(r, f), f)
@unit('P15', 'ExportInfo', files=CT)
def _(u):
    ex = u.ex; H = CH(u); mp = u.obj('mesh_ptrs', 'mfem::Array<mfem::Mesh *>'); u.assume(ge0(vsize(ex, mp.o))); td = u.obj('topol_data', 'TopologyData'); u.run(C + 'ExportInfo', [mp, td], H.h); u.eq(vsize(ex, mp.o), H.ns, 'one mesh for every subdomain'); u.eq(ex.num(ex.field(td.o, 'dim', 'int')), H.dim, 'dimension'); u.eq(ex.num(ex.field(td.o, 'numSub', 'int')), H.ns, 'number of subdomains'); u.ensure(TRUE if ex.field(td.o, 'global_bdr_attributes').obj is obj(ex.field(H.h.o, 'bdr_attributes', 'mfem::Array<int>')) else FALSE, 'global boundary attributes'); k = u.int('k', 0); u.assume(ge0(H.ns - 1 - k)); u.ensure(TRUE if vget(ex, mp.o, k) is App('rd', H.meshes.o, k, sort='obj') else FALSE, 'mesh of every subdomain')
for _k in ('Tri', 'Quad'): FUNCS['mfem::Mesh::Get%sOrientation' % _k] = (lambda k: lambda ex, a, e: ex.opts['ori'][k](ex, a, e))(_k)
@unit('P15', 'GetOrientation', files=CT, assume_asserts=True)
def _(u):
    ex = u.ex; H = CH(u); v = [u.obj(n, 'mfem::Array<int>') for n in ('vtx1', 'vtx2')]; n = u.int('n', 0); t = u.int('be_type', 0); calls = []
    for a in v: ex.lazy[(a.o, 'size')] = n
    def ori(k):
        def f(ex, a, e): calls.append((k, a[0].obj, a[0].off, a[1].obj, a[1].off)); return P(App('mfem_' + k, sort='int'))
        return f
    ex.opts['ori'] = {'Tri': ori('tri'), 'Quad': ori('quad')}; reg = [ex.field(a.o, 'data').obj for a in v]; get = lambda i, k: vget(ex, v[i].o, P(k))
    seg, tri, quad = (Eq(t, P(k)) for k in (1, 2, 3)); u.assume(Or(seg, tri, quad)); u.assume(Implies(seg, Eq(n, 2))); u.assume(Implies(seg, Not(Eq(get(0, 0), get(0, 1))))) ; kind = 'seg' if ex.decide(seg) else 'tri' if ex.decide(tri) else 'quad'
    r = ex.num(u.run(C + 'GetOrientation', [Ptr(H.comp(ZERO)), ex.heap_var(t, 'int')] + v, H.h))
    if kind == 'seg':
        u.ensure(Or(Eq(r, 0), Eq(r, 1)), 'orientation of a segment'); k = P(r)
        for i in (0, 1): u.ensure(And(Implies(Eq(r, 0), Eq(get(1, i), get(0, i))), Implies(Eq(r, 1), Eq(get(1, i), get(0, 1 - i)))), 'the orientation maps the vertices of one segment onto those of the other')
    else: u.ensure(TRUE if calls and calls[-1] == (kind, reg[0], ZERO, reg[1], ZERO) else FALSE, 'orientation of the second face with respect to the first'); u.eq(r, P(App('mfem_' + kind, sort='int')), 'value')
# boundary elements of component c: nbe(c), attribute battr(c, b); cidx(c, a): position of attribute a in the list of the component, or -1; nba(c): length of this list
def components(H):
    ex = H.ex; H.range('nbe', 0); H.range('nba', 0); H.range('cidx', -1, lambda c, a: fn(ex, 'nba', c)); H.range('battr', 1)
    def lz(o, f):
        if f == 'bdr_attributes' and o.kind == 'app' and o.args[0] == 'rd':
            if o.args[1] in (H.components.o, H.meshes.o): x = App('cattrs', o, sort='obj'); ex.objcls[x] = 'CompAttrs'; ex.nonnulls.add(x); return LObj(x, 'CompAttrs')
    ex.lazyfn.append(lz); H.cno = lambda o: P(o.args[2]) if o.args[1] is H.components.o else H.type(P(o.args[2])) if o.args[1] is H.meshes.o else None
    def nbe(ex, t, a, e): return fn(ex, 'nbe', H.cno(t.o))
    def battr(ex, t, a, e): b = ex.num(a[0]); c = H.cno(t.o); rng(ex, b, fn(ex, 'nbe', c), 'boundary element index', e); return fn(ex, 'battr', c, b)
    ex.opts['mesh'] = {'GetNBE': nbe, 'GetBdrAttribute': battr}; ex.opts['H'] = H
@M.model('CompAttrs', 'Find')
def _(ex, t, a, e): return fn(ex, 'cidx', ex.opts['H'].cno(t.o.args[1]), ex.num(ex.load(a[0], e) if isinstance(a[0], (LVar, LElem)) else a[0]))
@M.model('CompAttrs', 'Size')
def _(ex, t, a, e): return fn(ex, 'own_size') if (ex.opts.get('own_list') or (0,))[0] is t.o else fn(ex, 'nba', ex.opts['H'].cno(t.o.args[1]))
@M.model('CompAttrs', 'Max')
def _(ex, t, a, e):
    own = ex.opts.get('own_list')
    return own[1] if own and own[0] is t.o else fn(ex, 'maxattr', ex.opts['H'].cno(t.o.args[1]))
def ghost(ex, n, v=-7):
    r = App('ghost_' + n, sort='obj')
    if r not in ex.objcls: ex.objcls[r] = '#region'; ex.nonnulls.add(r); ex.lazy[(r, 'content')] = Lam(P(v), 'int'); ex.lazy[(r, 'shape')] = ()
    return r
def gset(ex, n, ix, v): r = ghost(ex, n); ex.put((r, 'content'), SetN(ex.content(r), (), ix, v))
def gget(ex, n, *ix): return P(ex.read(ex.content(ghost(ex, n)), tuple(P(x) for x in ix)))
def c2g(H, content=True):
    """bdr_c2g[m]: an array of nba(type(m)) numbers c2g(m, k)"""
    ex = H.ex; a = H.c2g = array(H.u, H.h, 'bdr_c2g', 'mfem::Array<int> *', H.ns)
    def lz(o, f):
        if o.kind == 'app' and o.args[0] == 'rd' and o.args[1] is a.o:
            ex.objcls[o] = 'mfem::Array<int>'; m = P(o.args[2])
            if f == 'size': return fn(ex, 'nba', H.type(m))
            if f == 'data': r = App('c2g_data', o, sort='obj'); ex.objcls[r] = '#region'; ex.nonnulls.add(r); ex.lazy[(r, 'content')] = Lam(fn(ex, 'c2g', m, P(A0)), 'int'); ex.lazy[(r, 'shape')] = (fn(ex, 'nba', H.type(m)),); return Ptr(r)
    ex.lazyfn.append(lz)
@unit('P15', 'SetupBdrAttributes', files=CT, assume_asserts=True)
def _(u):
    ex = u.ex; H = CH(u); components(H); c2g(H); m0, b0 = u.int('any_subdomain', 0), u.int('any_boundary_element', 0); u.assume(ge0(H.ns - 1 - m0)); c0 = H.type(m0); u.assume(ge0(fn(ex, 'nbe', c0) - 1 - b0))
    def seta(ex, t, a, e): b = ex.num(a[0]); m = P(t.o.args[2]) if t.o.args[1] is H.meshes.o else None; rng(ex, b, fn(ex, 'nbe', H.type(m)), 'boundary element index', e); gset(ex, 'battr', (m, b), ex.num(a[1])); return VOID
    ex.opts['mesh']['SetBdrAttribute'] = seta
    def up(ex, m, e): gset(ex, 'listed', (P(m.args[2]),), ONE)
    ex.opts['listed'] = up; u.run(C + 'SetupBdrAttributes', [], H.h); k = fn(ex, 'cidx', c0, fn(ex, 'battr', c0, b0))
    u.eq(gget(ex, 'battr', m0, b0), fn(ex, 'c2g', m0, k), 'every boundary element gets the global attribute of its component attribute'); u.eq(gget(ex, 'listed', m0), ONE, 'the list of boundary attributes is made anew')
# ---- abstract files: the value stored under a name is a function of the place and the name; a name made from a number is taken apart
def fargs(ex, loc, name):
    l = ex.load(loc, None) if isinstance(loc, (LVar, LElem)) else loc; n = P(ex.str_val(ex.load(name, None) if isinstance(name, (LVar, LElem)) else name)); t = n.atom()
    if t is not None and t.kind == 'app' and t.args[0] == 'tostr': return P(ex.num(l)), P(-1), P(t.args[1])
    return P(ex.num(l)), n, ZERO
def fval(ex, kind, loc, name, *k): return fn(ex, 'file_' + kind, *(fargs(ex, loc, name) + tuple(P(x) for x in k)))
def _ra(ex, a, e):
    w = ex.opts.get('written'); l = a[2]; k = fargs(ex, a[0], a[1]); v = (w or {}).get(('a',) + k)
    if w is not None and v is None: ex.oblige('pre', FALSE, 'the attribute that is read was written', e); raise Infeasible()
    ex.store(l, v if v is not None else P(fval(ex, 'value', a[0], a[1])), e); return VOID
def _rd(ex, a, e):
    o = obj(a[2]); c = ex.objcls[o]; w = ex.opts.get('written'); k = fargs(ex, a[0], a[1]); t = M.elem_t(c); srt = 'real' if t == 'double' else 'int'
    if w is not None:
        v = w.get(('d',) + k)
        if v is None: ex.oblige('pre', FALSE, 'the data that is read was written', e); raise Infeasible()
        n, cont = v; ex.put((o, 'size'), n); M.set_own(ex, o, (n,), cont); return VOID
    if 'Array2D' in c:
        h, w_ = fval(ex, 'rows', a[0], a[1]), fval(ex, 'cols', a[0], a[1]); ex.ctx.assume(ge0(h)); ex.ctx.assume(ge0(w_)); ex.put((o, 'h'), h); ex.put((o, 'w'), w_); M.set_own(ex, o, (h, w_), Lam(P(App('file_entry' if srt == 'int' else 'file_number', *(k + (P(A0), P(A1))), sort=srt)), srt)); return VOID
    n = fval(ex, 'len', a[0], a[1]); ex.ctx.assume(ge0(n)); ex.put((o, 'size'), n); M.set_own(ex, o, (n,), Lam(P(App('file_item', *(k + (P(A0),)), sort=srt)), srt)); return VOID
def _chain(key, f):
    old = CONTRACTS.get(key); CONTRACTS[key] = lambda ex, a, e: f(ex, a, e) if ex.opts.get('file') else old(ex, a, e) if old else None
for _n in ('', '<int>', '<double>', '<std::string>'): _chain('hdf5_utils::ReadAttribute' + _n, _ra); _chain('hdf5_utils::ReadDataset' + _n, _rd)
def _wa(ex, a, e):
    v = a[2]; ex.opts['written'][('a',) + fargs(ex, a[0], a[1])] = ex.load(v, e) if isinstance(v, (LVar, LElem)) else v; return VOID
def _wd(ex, a, e):
    o = obj(a[2]); ex.opts['written'][('d',) + fargs(ex, a[0], a[1])] = (vsize(ex, o), ex.content(ex.field(o, 'data').obj)); return VOID
for _n in ('', '<int>', '<double>', '<std::string>'): _chain('hdf5_utils::WriteAttribute' + _n, _wa); _chain('hdf5_utils::WriteDataset' + _n, _wd)
_dop = FUNCS['H5Dopen2']
FUNCS['H5Dopen2'] = lambda ex, a, e: P(App('h5dset', P(ex.num(a[0])), P(ex.str_val(a[1])), sort='int')) if ex.opts.get('file') else _dop(ex, a, e)
_chain('hdf5_utils::pathExists', lambda ex, a, e: BAtom(App('file_has', *fargs(ex, a[0], a[1]), sort='bool')))
# ---- maps, one per object: ghost regions has and val; entries that are absent hold 0
class MapOf:
    def __init__(self, ex, o):
        self.ex = ex; self.o = o; self.r = {}
        for k in ('has', 'val'):
            r = App('map_' + k, o, sort='obj'); self.r[k] = r
            if r not in ex.objcls: ex.objcls[r] = '#region'; ex.nonnulls.add(r); ex.lazy[(r, 'content')] = Base(App('m_' + k, o, sort='obj'), 'int'); ex.lazy[(r, 'shape')] = ()
    def raw(self, w, k): return P(self.ex.read(self.ex.content(self.r[w]), (P(k),)))
    def has(self, k): return Eq(self.raw('has', k), 1)
    def val(self, k): return self.raw('val', k)
    def set(self, w, k, v): self.ex.put((self.r[w], 'content'), SetN(self.ex.content(self.r[w]), (), (P(k),), P(v)))
    def fill(self, has, val): self.ex.lazy[(self.r['has'], 'content')] = Lam(P(has), 'int'); self.ex.lazy[(self.r['val'], 'content')] = Lam(P(val), 'int')
def mkey(ex, v, e):
    v = ex.load(v, e) if isinstance(v, (LVar, LElem)) else v
    return P(ex.num(v)) if isinstance(v, (Poly, int)) else P(ex.str_val(v))
def _maps(name, f):
    old = MODELS.get(('unordered_map', name))
    def g(ex, t, a, e):
        if ex.opts.get('maps') is not None: return f(ex, MapOf(ex, t.o), a, e)
        if old is None: raise Unsupported('unordered_map::%s' % name)
        return old(ex, t, a, e)
    MODELS[('unordered_map', name)] = g
def _mat(ex, m, a, e):
    k = mkey(ex, a[0], e); h = m.has(k); ex.ctx.assume(Implies(Not(h), Eq(m.val(k), 0)))
    if not ex.ctx.entails(h): m.set('has', k, 1)
    return LElem(m.r['val'], (k,), 'int')
_maps('[]', _mat); _maps('count', lambda ex, m, a, e: Ind(m.has(mkey(ex, a[0], e))))
_mct = CTORS['unordered_map']
def _mapctor(ex, o, args, e):
    if ex.opts.get('maps') is None: return _mct(ex, o, args, e)
    if args: raise Unsupported('map constructor')
    m = MapOf(ex, o)
    for w in ('has', 'val'): ex.put((m.r[w], 'content'), Lam(ZERO, 'int'))
CTORS['unordered_map'] = _mapctor
def named(ex, obj_, f): l = ex.field(obj_, f, 'std::unordered_map<std::string, int>'); return MapOf(ex, obj(l))
def strings(u, h, f, n=None):
    ex = u.ex; v = u.obj('h_' + f, 'std::vector<std::string>'); ex.lazy[(h.o, f)] = v; n = u.int('size_' + f, 0) if n is None else n; ex.lazy[(v.o, 'size')] = n; ex.lazy[(v.o, 'data')] = Ptr(ex.newregion((n,), Base(Sym('old_' + f, 'obj'), 'int'), f)); return v
CNT = C + 'ReadComponentsFromFile'
@unit('P15', 'ReadComponentsFromFile', files=CT, assume_asserts=True)
def _(u):
    ex = u.ex; ex.opts['file'] = ex.opts['maps'] = True; ex.opts['soa'] = {PI, MC, IFI}; ex.opts['rows'] = True; h = u.obj('handler', 'ComponentTopologyHandler'); cn = strings(u, h, 'comp_names'); f = u.int('filename', 0); m0, c0, d0 = u.int('any_subdomain', 0), u.int('any_component', 0), None; G = fn(ex, 'h5g', fn(ex, 'h5f', ZERO, f), str_code('components')); nc, ns = fval(ex, 'value', G, str_code('number_of_components')), fval(ex, 'len', G, str_code('meshes')); u.assume(ge0(nc - 1)); u.assume(ge0(ns)); u.assume(ge0(ns - 1 - m0)); u.assume(ge0(nc - 1 - c0)); u.assume(Eq(fval(ex, 'cols', G, str_code('configuration')), 6)); ty = lambda m: P(App('file_item', G, P(str_code('meshes')), ZERO, P(m), sort='int')); name = lambda c: fn(ex, 'file_value', G, P(-1), c)
    old = ex.axioms_; cnt = lambda c, m: P(App('cnt', P(c), P(m), sort='int'))
    def ax(a):
        r = old(a)
        if a.args[0] == 'file_item': r += (ge0(P(a)), ge0(nc - 1 - P(a))) + (Implies(Eq(a.args[4], m0), Eq(P(a), ty(m0))),)
        if a.args[0] == 'file_value' and P(a.args[2]).const() == -1: r += (Implies(Ne(a.args[3], c0), Ne(P(a), name(c0))), Implies(Eq(a.args[3], c0), Eq(P(a), name(c0))))
        if a.args[0] == 'cnt':
            k = P(a.args[2]); z = k.const() == 0
            if z: r += (Eq(P(a), ZERO),)
            else: r += (ge0(P(a)),)
        return r
    ex.axioms_ = ax; ex.axmemo = {}; sc = lambda: obj(ex.field(h.o, 'sub_composition', 'mfem::Array<int>')); mi = lambda: obj(ex.field(h.o, 'mesh_comp_idx', 'mfem::Array<int>')); ac = u.int('another_component', 0); u.assume(ge0(nc - 1 - ac))
    class Count(LoopInv):
        keys = ()
        def state(self, ex, T, pre): return {(ex.field(sc(), 'data').obj, 'content'): Lam(cnt(A0, T), 'int')}
        def enter(self, ex, s): ex.oblige('invariant', Eq(vget(ex, sc(), ac), 0), 'no subdomains are counted at first', s)
        def assume(self, ex, T): ex.ctx.assume(Implies(ge0(T - 1 - m0), Eq(vget(ex, mi(), m0), cnt(ty(m0), m0)))); self.step(ex, T, ac); self.step(ex, T, ty(T)); ex.ctx.assume(Implies(Eq(T, m0), Eq(cnt(ty(T), T), cnt(ty(m0), m0))))
        def step(self, ex, T, c): d = Eq(ty(T), c); ex.ctx.assume(Eq(cnt(c, T + 1), cnt(c, T) + Ind(d))); ex.ctx.assume(Implies(d, Eq(cnt(c, T), cnt(ty(T), T))))
        def check(self, ex, T, s):
            ex.oblige('invariant', Eq(vget(ex, sc(), ac), cnt(ac, T + 1)), 'subdomains of every component are counted', s); ex.oblige('invariant', Implies(ge0(P(T) - m0), Eq(vget(ex, mi(), m0), cnt(ty(m0), m0))), 'the position among the subdomains of the component', s)
        def exit(self, ex, n, s): self.n = n; ex.ctx.assume(Implies(ge0(n - 1 - m0), Eq(vget(ex, mi(), m0), cnt(ty(m0), m0))))
    names = Cases(c0, lambda ex, T: [(Implies(ge0(P(T) - 1 - c0), And(nm().has(name(c0)), Eq(nm().val(name(c0)), c0), Eq(vget(ex, obj(cn) if not isinstance(cn, Atom) else cn, c0), name(c0)))), 'the name of a component and the number of the name')] if not ex.ctx.entails(ge0(c0 - P(T))) else []); nm = lambda: named(ex, h.o, 'comp_name2idx')
    cl = Count(); at_loop(u, CNT, names, 1); at_loop(u, CNT, cl, 2); u.run(CNT, [f], h); F = lambda x, t='int': ex.num(ex.field(h.o, x, t))
    u.eq(F('num_comp'), nc, 'number of components'); u.eq(F('numSub'), ns, 'number of subdomains'); u.eq(ex.num(vget(ex, obj(ex.field(h.o, 'mesh_types', 'mfem::Array<int>')), m0)), ty(m0), 'component of every subdomain'); cn = cn.o; u.eq(vsize(ex, cn), nc, 'as many names as components'); u.eq(ex.num(vget(ex, cn, c0)), name(c0), 'name of every component'); u.ensure(And(nm().has(name(c0)), Eq(nm().val(name(c0)), c0)), 'every component is found by its name')
    u.eq(vsize(ex, mi()), ns, 'one position for every subdomain'); u.eq(vget(ex, mi(), m0), cnt(ty(m0), m0), 'position of a subdomain among those of its component'); u.eq(vsize(ex, sc()), nc, 'one count for every component'); u.eq(vget(ex, sc(), ac), cnt(ac, ns), 'number of subdomains of every component')
    a = obj(ex.field(h.o, 'mesh_configs', 'mfem::Array<%s>' % MC)); u.eq(vsize(ex, a), ns, 'one configuration for every subdomain'); r, ix = M.vidx(ex, a, m0)
    for j, x in enumerate(('trans', 'rotate')):
        fs = [y for y in ex.prog.recs[MC]['fields'] if y['n'] == x][0]; q = ex.soa_region(r, fs)
        for d in range(3): u.eq(P(ex.read(ex.content(q), ix + (P(d),))), P(App('file_number', G, P(str_code('configuration')), ZERO, m0, P(3 * j + d), sort='real')), '%s[%d] of every subdomain' % (x, d))

def c2g_table(H, n=None):
    """bdr_c2g[m][k] as a table of its own that is written to: rows of any two subdomains may be the same one"""
    ex = H.ex; a = H.c2g = array(H.u, H.h, 'bdr_c2g', 'mfem::Array<int> *', H.ns); G = App('c2g_table', sort='obj'); ex.objcls[G] = '#region'; ex.nonnulls.add(G); ex.lazy[(G, 'content')] = Lam(fn(ex, 'c2g', P(A0), P(A1)), 'int'); ex.lazy[(G, 'shape')] = (H.ns, P(Sym('widest', 'int'))); ex.opts['jagged'] = {G: lambda ix: (H.ns, fn(ex, 'nba', H.type(ix[0])))}
    def lz(o, f):
        if o.kind == 'app' and o.args[0] == 'rd' and o.args[1] is a.o:
            ex.objcls[o] = 'mfem::Array<int>'; m = P(o.args[2])
            if f == 'size': return fn(ex, 'nba', H.type(m))
            if f == 'data': return ex.row(G, (m,))
    ex.lazyfn.append(lz); return lambda m, k: P(ex.read(ex.content(G), (P(m), P(k))))
def nofile(u):
    """the iteration variable of a loop that is the tracked one: equal arguments give equal entries of the file"""
    ex = u.ex; ex.opts['file'] = ex.opts['maps'] = True
@unit('P15', 'ReadBoundariesFromFile', files=CT, assume_asserts=True)
def _(u):
    ex = u.ex; H = CH(u); nofile(u); components(H); tab = c2g_table(H); f = u.int('filename', 0); FL = fn(ex, 'h5f', ZERO, f); B = P(str_code('boundary')); rows = fval(ex, 'rows', FL, B); u.assume(ge0(rows)); u.assume(Eq(fval(ex, 'cols', FL, B), 3)); E_ = lambda b, j: P(App('file_entry', FL, B, ZERO, P(b), P(j), sort='int')); b0 = u.int('any_row', 0); m0, k0 = u.int('any_subdomain', 0), u.int('any_attribute_index', 0); u.assume(ge0(H.ns - 1 - m0)); old0 = fn(ex, 'c2g', m0, k0); H.track(b0); u.assume(ge0(fn(ex, 'nba', H.type(m0)) - 1 - k0))
    L = u.obj('list', 'AttributeList'); ex.lazy[(H.h.o, 'bdr_attributes')] = L; start = u.int('listed_before', 0); ex.lazy[(L.o, 'count')] = start; u.assume(ge0(1 - start)); ex.opts['tracked'] = E_(b0, 0); listed = lambda: ex.field(L.o, 'count')
    k_of = lambda b: fn(ex, 'cidx', H.type(E_(b, 1)), E_(b, 2)); hits = lambda b: And(Eq(E_(b, 1), m0), Eq(k_of(b), k0)); old = ex.axioms_
    def ax(a):
        r = old(a)
        if a.args[0] == 'file_entry' and P(a.args[5]).const() == 1: r += (ge0(P(a)), ge0(H.ns - 1 - P(a)))
        return r
    ex.axioms_ = ax; ex.axmemo = {}; exists = ge0(rows - 1 - b0); last = BAtom(Sym('b0_is_the_last_row_for_this_boundary', 'bool')); none = BAtom(Sym('no_row_for_this_boundary', 'bool')); u.assume(Implies(last, And(exists, hits(b0)))); u.assume(Not(And(last, none))); u.assume(Implies(And(none, exists), Not(hits(b0))))
    def facts(ex, T):
        for t in {P(T), P(T) - 1}:      # what `last` and `none` say of this row
            if P(t).const() == -1: continue
            ex.ctx.assume(Implies(And(last, ge0(t - 1 - b0), ge0(rows - 1 - t), ge0(t)), Not(hits(t)))); ex.ctx.assume(Implies(And(none, ge0(rows - 1 - t), ge0(t)), Not(hits(t)))); ex.ctx.assume(Implies(Eq(t, b0), And(*[Eq(E_(t, j), E_(b0, j)) for j in range(3)]))); ex.ctx.assume(Implies(Eq(t, b0), Eq(k_of(t), k_of(b0))))
        g = And(exists, ge0(P(T) - 1 - b0)); return [(Implies(And(last, g), Eq(tab(m0, k0), E_(b0, 0))), 'global attribute of the boundary'), (Implies(none, Eq(tab(m0, k0), old0)), 'boundaries that are not listed are left alone'), (And(ge0(listed()), ge0(1 - listed())), 'no attribute is listed twice'), (Implies(g, Eq(listed(), 1)), 'the attribute is listed'), (Implies(Eq(start, 1), Eq(listed(), 1)), 'attributes stay listed')]
    at_loop(u, C + 'ReadBoundariesFromFile', Cases(b0, facts, lambda ex: {(L.o, 'count'): P(Sym('count_at_head', 'int'))}, keys=((L.o, 'count'),)), 1); r = ex.boolean(u.run(C + 'ReadBoundariesFromFile', [f], H.h)); ds = P(App('h5dset', FL, B, sort='int')); there = ex.decide(ge0(ds)); u.ensure(r if there else Not(r), 'the result tells whether there are boundaries in the file')
    if there:
        u.ensure(Implies(last, Eq(tab(m0, k0), E_(b0, 0))), 'global attribute of every boundary in the file'); u.ensure(Implies(none, Eq(tab(m0, k0), old0)), 'boundaries that are not listed are left alone'); u.ensure(Implies(exists, Eq(listed(), 1)), 'every global attribute is listed once'); u.ensure(ge0(1 - listed()), 'no attribute is listed twice')
    else: u.eq(tab(m0, k0), old0, 'nothing is changed'); u.eq(listed(), start, 'the list is not changed')
_chain(C + 'ReadPortDict', lambda ex, a, e: Ptr(_node(ex, a)))
def _node(ex, a): o = App('port_dict', *fargs(ex, a[1], a[2]), sort='obj'); ex.objcls[o] = 'YAML::Node'; ex.nonnulls.add(o); return o
RP = C + 'ReadPortsFromFile'
@unit('P15', 'ReadPortsFromFile', files=CT, assume_asserts=True)
def _(u):
    ex = u.ex; H = CH(u); nofile(u); components(H); tab = c2g_table(H); f = u.int('filename', 0); G = fn(ex, 'h5g', fn(ex, 'h5f', ZERO, f), str_code('ports')); IF_ = P(str_code('interface')); E_ = lambda b, j: P(App('file_entry', G, IF_, ZERO, P(b), P(j), sort='int')); nref = fval(ex, 'value', G, str_code('number_of_references')); u.assume(ge0(nref)); rows = fval(ex, 'rows', G, IF_); u.assume(ge0(rows)); u.assume(Eq(fval(ex, 'cols', G, IF_), 5)); name = lambda r: fn(ex, 'file_value', G, P(-1), r)
    for x in ('num_ref_ports', 'num_ports'): ex.lazy[(H.h.o, x)] = u.int('old_' + x)
    for x in ('port_infos', 'port_types'): ex.lazy[(ex.lazy[(H.h.o, x)].o, 'size')] = u.int('old_size_' + x, 0)
    pn = strings(u, H.h, 'port_names'); pd = array(u, H.h, 'port_dicts', 'YAML::Node *', u.int('old_dicts', 0)); L = u.obj('list', 'CompAttrs'); ex.lazy[(H.h.o, 'bdr_attributes')] = L; c0, p0, q0, r0, m0, k0 = (u.int('any_' + x, 0) for x in ('component', 'port', 'other_port', 'reference', 'subdomain', 'attribute_index')); u.assume(ge0(H.nc - 1 - c0)); u.assume(ge0(H.ns - 1 - m0)); u.assume(ge0(fn(ex, 'nba', H.type(m0)) - 1 - k0)); u.assume(ge0(nref - 1 - r0)); u.assume(ge0(rows - 1 - p0)); u.assume(ge0(rows - 1 - q0)); u.assume(Ne(p0, q0)); old0 = fn(ex, 'c2g', m0, k0); H.track(c0, p0, r0); old = ex.axioms_
    k_of = lambda b, s: fn(ex, 'cidx', H.type(E_(b, s)), E_(b, 2 + s)); hits = lambda b: Or(*[And(Eq(E_(b, s), m0), Eq(k_of(b, s), k0)) for s in (0, 1)])
    def ax(a):
        r = old(a)
        if a.args[0] == 'file_entry' and P(a.args[5]).const() in (0, 1): r += (ge0(P(a)), ge0(H.ns - 1 - P(a)))
        if a.args[0] == 'file_value' and P(a.args[2]).const() == -1: r += (Implies(Ne(a.args[3], r0), Ne(P(a), name(r0))), Implies(Eq(a.args[3], r0), Eq(P(a), name(r0))))
        return r
    ex.axioms_ = ax; ex.axmemo = {}; mine = lambda: BAtom(Sym('p0_alone_has_this_side', 'bool')); none = BAtom(Sym('no_port_has_this_side', 'bool')); nm = lambda: named(ex, H.h.o, 'port_name2idx'); gmax = fn(ex, 'maxattr', P(-1)); ex.opts['own_list'] = (L.o, gmax)
    u.assume(Implies(mine(), hits(p0))); u.assume(Not(And(mine(), none))); u.assume(Implies(none, Not(hits(p0)))); u.assume(Implies(none, Not(hits(q0))))
    H.has0 = name(r0); key = fargs(ex, G, name(r0)); has = BAtom(App('file_has', *key, sort='bool')); D = lambda: vget(ex, pd.o, r0)
    def dicts(): return [(Implies(has, And(ex.nonnull(Ptr(D())), same(ex, D(), App('port_dict', *key, sort='obj')))), 'a reference port that has data in the file gets this data'), (Implies(Not(has), Not(ex.nonnull(Ptr(D())))), 'other reference ports get none')]
    names = Cases(r0, lambda ex, T: [(Implies(ge0(P(T) - 1 - r0), f_), d) for f_, d in dicts()] + [(Implies(ge0(r0 - P(T)), Not(ex.nonnull(Ptr(D())))), 'no data yet'), (Implies(ge0(P(T) - 1 - r0), And(nm().has(name(r0)), Eq(nm().val(name(r0)), r0), Eq(vget(ex, pn.o, r0), name(r0)))), 'the name of a reference port and the number of the name')] if not ex.ctx.entails(ge0(r0 - P(T))) else [(Not(ex.nonnull(Ptr(D()))), 'no data at first')]) 
    class Max(LoopInv):
        """a scalar of the loop ends up at least as large as every attribute of a component"""
        def found(self, ex, cells, closed, pre, s):
            self.k = [k for k, v in cells.items() if k[0] == 'v' and k not in closed and isinstance(v, Poly)]
            if len(self.k) != 1: raise Unsupported('largest attribute')
            self.k = self.k[0]; ex.oblige('invariant', ge0(pre.h[self.k]), 'the attribute is not negative (on entry)', s)
        def facts(self, ex, T): x = P(ex.get(self.k)); return [(ge0(x), 'not negative')] + ([] if ex.ctx.entails(ge0(c0 - P(T))) else [(Implies(ge0(P(T) - 1 - c0), ge0(x - fn(ex, 'maxattr', c0))), 'at least every attribute of a component')])
        def assume(self, ex, T): [ex.ctx.assume(f) for f, d in self.facts(ex, T)]
        def check(self, ex, T, s):
            for c in (Eq(P(T), c0), Ne(P(T), c0)):
                m = ex.ctx.mark(); ex.ctx.assume(c)
                if not ex.ctx.infeasible(): [ex.oblige('invariant', f, d + ' (kept)', s) for f, d in self.facts(ex, P(T) + 1)]
                ex.ctx.reset(m)
        def exit(self, ex, n, s):
            if P(n).const() != 0: [ex.ctx.assume(f) for f, d in self.facts(ex, n)]
    base = []
    class Port(Cases):
        def enter(self, ex, s):     # the first free attribute: a local variable above all others
            c = [ex.load(l) for l in ex.frames[-1].env.values() if isinstance(l, LVar) and ex.get(l.key) is not None]; c = [x for x in c if isinstance(x, Poly) and x.is_int() and x.t and ex.ctx.entails(And(ge0(x - 1 - gmax), ge0(x - 1 - fn(ex, 'maxattr', c0))))]
            if not c: ex.oblige('invariant', FALSE, 'the attribute of the first port is above every attribute of a component and every global one', s); raise Unsupported('first free attribute')
            base[:] = c[:1]; Cases.enter(self, ex, s)
    at_loop(u, RP, names, 1); at_loop(u, RP, Max(), 3)
    def pfacts(ex, T):
        for t in {P(T), P(T) - 1}:
            if P(t).const() == -1: continue
            ex.ctx.assume(Implies(And(mine(), Ne(t, p0), ge0(rows - 1 - t), ge0(t)), Not(hits(t)))); ex.ctx.assume(Implies(And(none, ge0(rows - 1 - t), ge0(t)), Not(hits(t)))); ex.ctx.assume(Implies(Eq(t, p0), And(*[Eq(E_(t, j), E_(p0, j)) for j in range(5)]))); ex.ctx.assume(Implies(Eq(t, p0), And(*[Eq(k_of(t, s), k_of(p0, s)) for s in (0, 1)])))
        g = ge0(P(T) - 1 - p0); return [(Implies(g, Eq(H.pinfo(p0, 'PortAttr'), base[0] + p0)), 'boundary attribute of a port'), (Implies(ge0(P(T) - 1 - q0), Eq(H.pinfo(q0, 'PortAttr'), base[0] + q0)), 'boundary attribute of another port'), (Implies(And(g, mine()), Eq(tab(m0, k0), base[0] + p0)), 'the sides of a port get its attribute'), (Implies(none, Eq(tab(m0, k0), old0)), 'other boundaries are left alone')]
    at_loop(u, RP, Port(p0, pfacts), 4); u.run(RP, [f], H.h); F_ = lambda x: ex.num(ex.field(H.h.o, x, 'int'))
    u.eq(F_('num_ref_ports'), nref, 'number of reference ports'); u.eq(F_('num_ports'), rows if not ex.ctx.entails(Eq(nref, 0)) else ZERO, 'number of ports'); u.eq(vget(ex, pn.o, r0), name(r0), 'name of every reference port'); u.ensure(And(nm().has(name(r0)), Eq(nm().val(name(r0)), r0)), 'every reference port is found by its name'); u.eq(vsize(ex, pn.o), nref, 'as many names as reference ports')
    for f_, d in dicts(): u.ensure(f_, d)
    for j, n in enumerate(('Mesh1', 'Mesh2', 'Attr1', 'Attr2')): u.eq(H.pinfo(p0, n), E_(p0, j), n + ' of every port')
    u.eq(ex.num(vget(ex, H.port_types.o, p0)), E_(p0, 4), 'reference port of every port'); u.eq(vsize(ex, H.port_infos.o), rows, 'one entry for every port'); u.eq(vsize(ex, H.port_types.o), rows, 'one type for every port'); a = H.pinfo(p0, 'PortAttr')
    u.ensure(ge0(a - 1 - fn(ex, 'maxattr', c0)), 'the attribute of a port is not that of a boundary of a component'); u.ensure(ge0(a - 1 - gmax), 'the attribute of a port is not a global boundary attribute'); u.ensure(Ne(a, H.pinfo(q0, 'PortAttr')), 'two ports have different attributes'); u.ensure(Implies(mine(), Eq(tab(m0, k0), a)), 'both sides of a port get its attribute'); u.ensure(Implies(none, Eq(tab(m0, k0), old0)), 'other boundaries are left alone')
# ---- maps are enumerated in some order: map_key(j), j < map_size, each key once; map_index(k) is the place of a key
def loops_of(s): return [s] * (s.get('s') in ('For', 'While', 'RangeFor')) + [y for v in s.values() for x in (v if isinstance(v, list) else [v]) if isinstance(x, dict) for y in loops_of(x)]
def fills_map(s):
    """an innermost loop that enters something into a map"""
    return len(loops_of(s)) == 1 and 'unordered_map' in json.dumps(s, default=str)
def enum(ex, o):
    m = MapOf(ex, o); n = P(App('map_size', o, sort='int')); ex.ctx.assume(ge0(n)); ex.opts.setdefault('enumerated', {})[o] = m; return m, n, lambda j: P(App('map_key', o, P(j), sort='int'))
def index_of(ex, o, k):
    """the place of key k, if it is present"""
    m, n, key = enum(ex, o); i = P(App('map_index', o, P(k), sort='int')); ex.ctx.assume(Implies(m.has(k), And(ge0(i), ge0(n - 1 - i), Eq(key(i), k)))); return i
def entry_facts(ex, o, j):
    m, n, key = enum(ex, o); ex.ctx.assume(m.has(key(j))); ex.ctx.assume(Eq(P(App('map_index', o, key(j), sort='int')), j))
def _over_map(ex, v, s):
    if not isinstance(v, LObj) or 'unordered_map' not in v.cls or ex.opts.get('maps') is None: return None
    m, n, key = enum(ex, v.o)
    def entry(j):
        o = App('map_entry', v.o, P(j), sort='obj'); ex.objcls[o] = 'MapEntry'; ex.nonnulls.add(o); ex.lazy[(o, 'first')] = key(j); ex.lazy[(o, 'second')] = m.val(key(j)); return LObj(o, 'MapEntry')
    return n, entry
def port(u, ex, H):
    """a port with any data"""
    p = u.obj('port', PDT); bp = u.obj('pairs', 'mfem::Array2D<int>'); mp = u.obj('vtx_map', 'std::unordered_map<int, int>'); ex.lazy[(p.o, 'be_pairs')] = bp; ex.lazy[(p.o, 'vtx2to1')] = mp; n = u.int('num_pairs', 0); ex.lazy[(bp.o, 'h')] = n; ex.lazy[(bp.o, 'w')] = P(2)
    for k in (1, 2): c = u.int('c%d' % k, 0); u.assume(ge0(H.nc - 1 - c)); ex.lazy[(p.o, 'Component%d' % k)] = c; ex.lazy[(p.o, 'Attr%d' % k)] = u.int('a%d' % k)
    return p, bp, mp, n
@unit('P15', 'port written to a file and read back', files=CT, assume_asserts=True)
def _(u):
    ex = u.ex; H = CH(u); nofile(u); ex.opts['written'] = {}; ex.opts['range_for'] = _over_map; p, bp, mp, n = port(u, ex, H); name, f = u.int('port_name', 0), u.int('filename', 0); cn = strings(u, H.h, 'comp_names', H.nc); F_ = lambda o, x: ex.num(ex.field(o, x, 'int')); pm, cm = named(ex, H.h.o, 'port_name2idx'), named(ex, H.h.o, 'comp_name2idx'); r = pm.val(name); u.assume(pm.has(name)); u.assume(ge0(r)); u.assume(ge0(H.nr - 1 - r)); u.assume(Not(ex.nonnull(Ptr(App('rd', H.ref_ports.o, r, sort='obj')))))
    for k in (1, 2): c = F_(p.o, 'Component%d' % k); x = P(ex.num(vget(ex, cn.o, c))); u.assume(cm.has(x)); u.assume(Eq(cm.val(x), c))
    K = u.int('any_vertex'); i0 = u.int('i0', 0); u.assume(ge0(n - 1 - i0)); m, size, key = enum(ex, mp.o); at = index_of(ex, mp.o, K); s0 = u.old(); H.track(at); had, val = m.has(K), m.val(K); pair = [mget(ex, bp.o, i0, P(j)) for j in (0, 1)]; had = ex.decide(had); old = ex.axioms_
    def ax(a):
        q = old(a)
        if a.args[0] == 'map_key': q += (Implies(Eq(P(a), K), And(had if isinstance(had, F) else TRUE if had else FALSE, Eq(a.args[2], at))), Implies(And(TRUE if had else FALSE, Eq(a.args[2], at)), Eq(P(a), K)))
        if a.args[0] == 'rd' and a.args[1] is App('m_val', mp.o, sort='obj'): q += (Implies(Eq(a.args[2], K), Eq(P(a), val)),)
        return q
    ex.axioms_ = ax; ex.axmemo = {}; new = lambda: MapOf(ex, obj(ex.field(P_(), 'vtx2to1', 'std::unordered_map<int, int>'))); P_ = lambda: vget(ex, H.ref_ports.o, r)
    def facts(ex, T):
        M_ = new(); g = ge0(P(T) - 1 - at) if had else FALSE
        return [(Implies(g, And(M_.has(K), Eq(M_.val(K), val))), 'the vertex pair is read back'), (Implies(Not(g), Not(M_.has(K))), 'no other vertex is entered')]
    u.run(C + 'WritePortDataToFile', [p, name, f], H.h)
    at_loop(u, C + 'ReadPortDatasFromFile', Cases(at, facts), fills_map); u.run(C + 'ReadPortDatasFromFile', [f], H.h)
    q = P_(); u.ensure(ex.nonnull(Ptr(q)), 'the port is set up')
    for x in ('Component1', 'Component2', 'Attr1', 'Attr2'): u.eq(F_(q, x), F_(p.o, x), x)
    M_ = new(); u.ensure(And(M_.has(K), Eq(M_.val(K), val)) if had else Not(M_.has(K)), 'the vertex map is read back'); b = obj(ex.field(q, 'be_pairs', 'mfem::Array2D<int>')); u.eq(ex.field(b, 'h'), n, 'as many pairs'); u.eq(ex.field(b, 'w'), P(2), 'pairs'); [u.eq(mget(ex, b, i0, P(j)), pair[j], 'every pair is read back (%d)' % j) for j in (0, 1)]
@unit('P15', 'ReadPortDatasFromFile', files=CT, assume_asserts=True)
def _(u):
    ex = u.ex; H = CH(u); nofile(u); f = u.int('filename', 0); FL = fn(ex, 'h5f', ZERO, f); n = fval(ex, 'value', FL, str_code('number_of_ports')); k0, K, i0 = u.int('any_port_in_the_file', 0), u.int('any_vertex'), u.int('any_pair', 0); u.assume(ge0(n - 1 - k0)); F_ = lambda o, x: ex.num(ex.field(o, x, 'int')); G = lambda k: fn(ex, 'h5g', FL, App('tostr', P(k), sort='int')); val = lambda k, s: P(App('file_value', G(k), P(str_code(s)), ZERO, sort='int')); ln = lambda k, s: P(App('file_len', G(k), P(str_code(s)), ZERO, sort='int')); item = lambda k, s, v: P(App('file_item', G(k), P(str_code(s)), ZERO, P(v), sort='int'))
    pm, cm = named(ex, H.h.o, 'port_name2idx'), named(ex, H.h.o, 'comp_name2idx'); r = pm.val(val(k0, 'name')); u.assume(pm.has(val(k0, 'name'))); q0 = u.int('port_set_up_before', 0); u.assume(ge0(H.nr - 1 - q0)); kept = App('rd', H.ref_ports.o, q0, sort='obj'); u.assume(ex.nonnull(Ptr(kept))); D = lambda x=r: vget(ex, H.ref_ports.o, x); u.assume(Not(ex.nonnull(Ptr(D())))); at = u.int('place_of_the_vertex', 0); had = BAtom(Sym('the_vertex_occurs', 'bool')); u.assume(Implies(had, And(ge0(ln(k0, 'vtx2') - 1 - at), Eq(item(k0, 'vtx2', at), K)))); u.assume(ge0(ln(k0, 'be1') - 1 - i0)); H.track(k0, at); ck = [cm.val(val(k0, 'component%d' % i)) for i in (1, 2)]; old = ex.axioms_
    def group(t):       # the port of the file whose data this is
        t = P(t).atom(); return P(t.args[2]).atom() if t is not None and t.kind == 'app' and t.args[0] == 'h5g' and not isinstance(t.args[2], int) else None
    def ax(a):
        q = old(a)
        if a.args[0] == 'file_item' and P(a.args[2]) == P(str_code('vtx2')) and P(a.args[1]) == G(k0): q += (Implies(Eq(P(a), K), And(had, Eq(a.args[4], at))),)
        if a.args[0] == 'rd' and a.args[1] is App('m_val', pm.o, sort='obj'): q += (ge0(P(a)), ge0(H.nr - 1 - P(a)))
        if a.args[0] == 'nonnull' and a.args[1].kind == 'app' and a.args[1].args[0] == 'rd' and len(a.args[1].args) == 3:
            B, i = a.args[1].args[1:]; nn = lambda j: BAtom(App('nonnull', App('rd', B, P(j), sort='obj'), sort='bool'))
            for j in (r, q0):
                if P(i) != P(j): q += (Implies(Eq(P(i), j), And(Implies(BAtom(a), nn(j)), Implies(nn(j), BAtom(a)))),)
            if P(i) == q0 and a.args[1] is not kept: q += (Implies(same(ex, a.args[1], kept), BAtom(a)),)
        return q
    ex.axioms_ = ax; ex.axmemo = {}; mp = lambda: MapOf(ex, obj(ex.field(D(), 'vtx2to1', 'std::unordered_map<int, int>'))); bp = lambda: obj(ex.field(D(), 'be_pairs', 'mfem::Array2D<int>')); here = [ZERO]
    def data(full=True):
        d = D(); M_ = mp(); out = [(Eq(F_(d, 'Component%d' % i), ck[i - 1]), 'component %d' % i) for i in (1, 2)] + [(Eq(F_(d, 'Attr%d' % i), val(k0, 'bdr_attr%d' % i)), 'boundary attribute %d' % i) for i in (1, 2)] + [(Eq(ex.field(bp(), 'h'), ln(k0, 'be1')), 'as many pairs as in the file'), (Eq(ex.field(bp(), 'w'), P(2)), 'pairs')] + [(Eq(P(mget(ex, bp(), i0, P(j))), item(k0, 'be%d' % (j + 1), i0)), 'every pair (%d)' % j) for j in (0, 1)]
        return out + [(Implies(had, And(M_.has(K), Eq(M_.val(K), item(k0, 'vtx1', at)))), 'every vertex pair'), (Implies(Not(had), Not(M_.has(K))), 'no other vertex')]
    def facts(ex, T):
        for t in {P(T), P(T) - 1}:
            if P(t).const() == -1: continue
            nm = val(t, 'name'); ex.ctx.assume(Implies(And(ge0(t), ge0(k0 - 1 - t), pm.has(nm)), Ne(pm.val(nm), r)))      # k0 is the first with this name
        out = [(same(ex, D(q0), kept), 'ports that were set up are kept')]
        if not ex.ctx.entails(ge0(P(T) - 1 - k0)): out.append((Implies(ge0(k0 - P(T)), Not(ex.nonnull(Ptr(D())))), 'the port is not set up before'))
        if not ex.ctx.entails(ge0(k0 - P(T))): g = ge0(P(T) - 1 - k0); out += [(Implies(g, ex.nonnull(Ptr(D()))), 'the port is set up')] + [(Implies(g, x), d) for x, d in data()]
        return out
    class Outer(Cases):
        def assume(self, ex, T): Cases.assume(self, ex, T); ex.decide(Eq(P(T), k0))
    o = Outer(k0, facts)
    def inner(ex, T):
        if not ex.ctx.entails(Eq(o.T, k0)): return []
        M_ = mp(); g = And(had, ge0(P(T) - 1 - at)); return [(Implies(g, And(M_.has(K), Eq(M_.val(K), item(k0, 'vtx1', at)))), 'the vertex pair is read'), (Implies(Not(g), Not(M_.has(K))), 'no other vertex is entered')]
    qn = C + 'ReadPortDatasFromFile'; at_loop(u, qn, o, 1); at_loop(u, qn, Cases(at, inner), fills_map); u.run(qn, [f], H.h); u.ensure(same(ex, D(q0), kept), 'ports that were set up are kept'); u.ensure(ex.nonnull(Ptr(D())), 'the port is set up')
    for x, d in data(): u.ensure(x, d)
# ---- meshes of the subdomains: copies of their components, moved once
for _m in ('Transform', 'GetFaceVertices', 'GetBdrElementType'): c_topol.mesh_model(_m, None)
def serial(ex, n):      # objects made by `new`, numbered
    k = ('v', 0, 'made_' + n); i = P(ex.get(k)); ex.put(k, i + 1); return i
@unit('P15', 'SetupMeshes', files=CT, assume_asserts=True)
def _(u):
    ex = u.ex; H = CH(u); components(H); mo = motion(u); mc = array(u, H.h, 'mesh_configs', MC, H.ns); ex.lazy[(H.meshes.o, 'size')] = u.int('old_meshes', 0); m0, k0 = u.int('any_subdomain', 0), u.int('any_attribute_index', 0); u.assume(ge0(H.ns - 1 - m0)); H.track(m0); tf = u.obj('motion', 'TransformFunction'); ex.lazy[(H.h.o, 'tf_ptr')] = Ptr(tf.o); L = u.obj('list', 'AttributeList'); ex.lazy[(H.h.o, 'bdr_attributes')] = L; c2 = array(u, H.h, 'bdr_c2g', 'mfem::Array<int> *', u.int('old_maps', 0)); cfg = lambda m, f, d: H.fld(mc.o, m, f, MC)(P(d))
    def new_mesh(ex, a, e):
        o = obj(a[0]) if a else None
        if o is None or H.cno(o) is None or o.args[1] is not H.components.o: raise Unsupported('new mesh')
        i = serial(ex, 'mesh'); gset(ex, 'source', (i,), P(o.args[2])); m = App('mesh_made', P(i), sort='obj'); ex.objcls[m] = 'mfem::Mesh'; ex.nonnulls.add(m); return Ptr(m)
    def new_map(ex, a, e): i = serial(ex, 'map'); gset(ex, 'map_size', (i,), ex.num(a[0])); x = App('map_made', P(i), sort='obj'); ex.objcls[x] = 'GlobalAttrs'; ex.nonnulls.add(x); return Ptr(x)
    ex.opts['new'] = {'mfem::Mesh': new_mesh, 'Mesh': new_mesh, 'mfem::Array<int>': new_map}; ex.opts['new_copies'] = True; no = lambda o: P(o.args[1]) if o.kind == 'app' and o.args[0] == 'mesh_made' else None
    def move(ex, t, a, e):
        i = no(t.o); p = a[0]
        if i is None: raise Unsupported('mesh that is moved %r' % (t.o,))
        q = obj(p) if isinstance(p, (LObj, Ptr)) else None; ex.oblige('pre', TRUE if q is tf.o else FALSE, 'the motion is that of the handler', e)
        for f in ('trans', 'rotate'):
            for d in range(3): gset(ex, f, (i, P(d)), P(ex.read(ex.content(mo[f]), (P(d),))))
        gset(ex, 'moves', (i,), gget(ex, 'moves', i) + 1); return VOID
    ex.opts['mesh']['Transform'] = move; ghost(ex, 'moves', 0); cno0 = H.cno; H.cno = lambda o: gget(ex, 'source', no(o)) if no(o) is not None else cno0(o)
    for n in ('mesh', 'map'): ex.put(('v', 0, 'made_' + n), ZERO)
    def lz(o, f):
        if f == 'bdr_attributes' and no(o) is not None: x = App('cattrs', o, sort='obj'); ex.objcls[x] = 'CompAttrs'; ex.nonnulls.add(x); return LObj(x, 'CompAttrs')
    ex.lazyfn.insert(0, lz); u.run(C + 'SetupMeshes', [], H.h); M0 = vget(ex, H.meshes.o, m0); i = no(M0); u.ensure(TRUE if i is not None else FALSE, 'a mesh of its own for every subdomain')
    if i is None: return
    u.eq(i, m0, 'different meshes for different subdomains'); u.eq(vsize(ex, H.meshes.o), H.ns, 'one mesh for every subdomain'); u.eq(gget(ex, 'source', m0), H.type(m0), 'it is a copy of the component of the subdomain'); u.eq(gget(ex, 'moves', m0), ONE, 'it is moved once')
    for f in ('trans', 'rotate'):
        for d in range(3): u.eq(gget(ex, f, m0, d), cfg(m0, f, d), 'it is moved as configured (%s[%d])' % (f, d))
    x = vget(ex, c2.o, m0); j = P(x.args[1]) if x.kind == 'app' and x.args[0] == 'map_made' else None; u.eq(vsize(ex, c2.o), H.ns, 'one list of global attributes for every subdomain'); u.ensure(TRUE if j is not None else FALSE, 'a list of global attributes of its own')
    if j is None: return
    u.eq(j, m0, 'different lists for different subdomains'); u.eq(gget(ex, 'map_size', m0), fn(ex, 'nba', H.type(m0)), 'a global attribute for every boundary attribute of the component'); u.eq(gget(ex, 'map_value', m0), P(-1), 'no global attribute is set at first'); u.eq(ex.field(L.o, 'count'), ZERO, 'no global boundary attributes at first')
@M.model('GlobalAttrs', '=')
def _(ex, t, a, e): gset(ex, 'map_value', (P(t.o.args[1]),), ex.num(a[0])); return t
# ---- interfaces of the reference ports: one list for every port, one entry for every pair of boundary elements
IFL = ('BE1', 'BE2', 'Inf1', 'Inf2')
@M.model('IfList', 'Append')
def _(ex, t, a, e):
    i = P(t.o.args[1]); c = gget(ex, 'if_count', i); v = a[0] if isinstance(a[0], LObj) else LObj(obj(a[0]), 'InterfaceInfo')
    for f in IFL: gset(ex, 'if_' + f, (i, c), ex.num(ex.field(v.o, f, 'int')))
    gset(ex, 'if_count', (i,), c + 1); return c + 1
@M.model('IfList', 'Size')
def _(ex, t, a, e): return gget(ex, 'if_count', t.o.args[1])
CONTRACTS[C + 'GetOrientation'] = lambda ex, a, e: ex.opts['orientation'](ex, a, e) if 'orientation' in ex.opts else None
@unit('P15', 'SetupReferenceInterfaces', files=CT, assume_asserts=True)
def _(u):
    ENUMS.add('mfem::Element::Type'); ex = u.ex; ex.opts['maps'] = True; H = CH(u); components(H); ex.lazy[(H.h.o, 'verbose')] = FALSE; ex.lazy[(H.ref_interfaces.o, 'size')] = u.int('old_interfaces', 0); r0, b0 = u.int('any_reference_port', 0), u.int('any_pair', 0); u.assume(ge0(H.nr - 1 - r0)); np_ = lambda r: fn(ex, 'npairs', r); H.range('npairs', 0); u.assume(ge0(np_(r0) - 1 - b0)); H.track(r0, b0); pair = lambda r, b, j: fn(ex, 'pair', r, b, j); H.range('pair', 0, lambda r, b, j: fn(ex, 'nbe', H.pd(r, 'Component%d' % (int(P(j).const()) + 1))) if P(j).const() is not None else None); u.assume(ge0(H.nc - 1))
    jj = u.int('any_vertex', 0); H.range('nfv', 0); D = lambda r: H.refport(r)
    def lz(o, f):
        if o.kind == 'app' and o.args[0] == 'rd' and o.args[1] is H.ref_ports.o:
            if f in ('be_pairs', 'vtx2to1'):
                t = 'mfem::Array2D<int>' if f == 'be_pairs' else 'std::unordered_map<int, int>'; x = App('port_' + f, o, sort='obj'); ex.objcls[x] = t; ex.nonnulls.add(x); return LObj(x, t)
        if o.kind == 'app' and o.args[0] == 'port_be_pairs':
            r = P(o.args[1].args[2])
            if f == 'h': return np_(r)
            if f == 'w': return P(2)
            if f == 'data': g = App('port_pairs', o, sort='obj'); ex.objcls[g] = '#region'; ex.nonnulls.add(g); ex.lazy[(g, 'content')] = Lam(pair(r, P(A0), P(A1)), 'int'); ex.lazy[(g, 'shape')] = (np_(r), P(2)); return Ptr(g)
    ex.lazyfn.insert(0, lz); H.range('finfo1', 0); mod = ex.opts['mesh']; cn = lambda t: H.cno(t.o)
    def bface(ex, t, a, e): c = cn(t); b = ex.num(a[0]); rng(ex, b, fn(ex, 'nbe', c), 'boundary element index', e); return fn(ex, 'bface', c, b)
    def finfo(ex, t, a, e):
        c = cn(t); f = ex.num(a[0])
        for k in (1, 2): ex.store(ex.deref(a[k], e), fn(ex, 'finfo%d' % k, c, f), e)
        return VOID
    def btype(ex, t, a, e): c = cn(t); b = ex.num(a[0]); rng(ex, b, fn(ex, 'nbe', c), 'boundary element index', e); return fn(ex, 'btype', c, b)
    def fvtx(ex, t, a, e): c = cn(t); f = ex.num(a[0]); o = obj(a[1]); n = fn(ex, 'nfv', c, f); ex.ctx.assume(ge0(n)); ex.put((o, 'size'), n); M.set_own(ex, o, (n,), Lam(fn(ex, 'fvtx', c, f, P(A0)), 'int')); return VOID
    mod.update({'GetBdrFace': bface, 'GetFaceInfos': finfo, 'GetBdrElementType': btype, 'GetFaceVertices': fvtx})
    def new_list(ex, a, e):
        if ex.num(a[0]).t: raise Unsupported('size of the list')
        ex.oblige('invariant', Eq(serial(ex, 'list'), o.T), 'one list for every reference port', e); i = P(o.T); x = App('iflist', i, sort='obj'); ex.objcls[x] = 'IfList'; ex.nonnulls.add(x); gset(ex, 'if_count', (i,), ZERO); return Ptr(x)
    ex.opts['new'] = {'mfem::Array<InterfaceInfo>': new_list}; ex.put(('v', 0, 'made_list'), ZERO); L0 = App('iflist', r0, sort='obj'); ex.objcls[L0] = 'IfList'; ex.nonnulls.add(L0); ghost(ex, 'if_count')
    for f in IFL: ghost(ex, 'if_' + f)
    c = lambda k: H.pd(r0, 'Component%d' % k); be = lambda k: pair(r0, b0, k - 1); face = lambda k: fn(ex, 'bface', c(k), be(k)); ori = fn(ex, 'ori'); F_ = lambda f: gget(ex, 'if_' + f, r0, b0)
    for k in (1, 2): H.range('fld_Component%d' % k, 0, H.nc)
    def entry(): return [(Eq(F_('BE%d' % k), be(k)), 'boundary element %d of the pair' % k) for k in (1, 2)] + [(Eq(F_('Inf1'), fn(ex, 'finfo1', c(1), face(1))), 'face information of the first element'), (Eq(F_('Inf2'), P(64) * P(ex.int_div(fn(ex, 'finfo1', c(2), face(2)), P(64), None)) + ori), 'face of the second element, and its orientation')]
    def outer(ex, T):
        g = ge0(P(T) - 1 - r0); out = [(Eq(P(ex.get(('v', 0, 'made_list'))), P(T)), 'one list for every reference port')]
        if ex.ctx.entails(Not(g)): return out
        return out + [(Implies(g, x), d) for x, d in [(same(ex, vget(ex, H.ref_interfaces.o, r0), L0), 'every reference port has a list of its own'), (Eq(gget(ex, 'if_count', r0), np_(r0)), 'one entry for every pair')] + entry()]
    class Outer(Cases):
        def assume(self, ex, T): Cases.assume(self, ex, T); ex.decide(Eq(P(T), r0))
    o = Outer(r0, outer)
    def inner(ex, T):
        i = P(o.T); out = [(Eq(gget(ex, 'if_count', i), P(T)), 'the entries so far')]; g = ge0(i - 1 - r0); h = And(Eq(i, r0), ge0(P(T) - 1 - b0))
        if ex.ctx.entails(Eq(i, r0)): return out + [(Implies(ge0(P(T) - 1 - b0), x), d) for x, d in entry()] if not ex.ctx.entails(ge0(b0 - P(T))) else out
        return out + [(Implies(g, x), d) for x, d in entry() + [(Eq(gget(ex, 'if_count', r0), np_(r0)), 'one entry for every pair')]]
    class Inner(Cases):
        def assume(self, ex, T): Cases.assume(self, ex, T); ex.decide(Eq(P(T), b0))
    l = Inner(b0, inner)
    def orient(ex, a, e):
        if not (ex.ctx.entails(Eq(P(o.T), r0)) and ex.ctx.entails(Eq(P(l.T), b0))): return P(Fresh('ori', 'int'))
        a = a[1:]; v1, v2 = obj(a[2]), obj(a[3]); t = ex.num(ex.load(a[1], e) if isinstance(a[1], (LVar, LElem)) else a[1]); m_ = MapOf(ex, obj(ex.field(D(r0), 'vtx2to1'))); n1, n2 = (fn(ex, 'nfv', c(k), face(k)) for k in (1, 2)); ob = lambda f, d: ex.oblige('pre', f, d, e)
        ob(Eq(t, fn(ex, 'btype', c(1), be(1))), 'orientation: type of the boundary element'); ob(Eq(vsize(ex, v1), n1), 'orientation: vertices of the first face'); ob(Eq(vsize(ex, v2), n2), 'orientation: vertices of the second face'); mk = ex.ctx.mark(); ex.ctx.assume(ge0(n1 - 1 - jj)); ob(Eq(vget(ex, v1, jj), fn(ex, 'fvtx', c(1), face(1), jj)), 'orientation: every vertex of the first face'); ex.ctx.reset(mk); ex.ctx.assume(ge0(n2 - 1 - jj)); ob(Eq(vget(ex, v2, jj), m_.val(fn(ex, 'fvtx', c(2), face(2), jj))), 'orientation: every vertex of the second face, as numbered in the first component'); ex.ctx.reset(mk); return ori
    ex.opts['orientation'] = orient; qn = C + 'SetupReferenceInterfaces'; at_loop(u, qn, o, 1); at_loop(u, qn, l, 2); u.run(qn, [], H.h); u.eq(vsize(ex, H.ref_interfaces.o), H.nr, 'one list for every reference port'); u.ensure(same(ex, vget(ex, H.ref_interfaces.o, r0), L0), 'every reference port has a list of its own'); u.eq(gget(ex, 'if_count', r0), np_(r0), 'one entry for every pair')
    for x, d in entry(): u.ensure(x, d)
