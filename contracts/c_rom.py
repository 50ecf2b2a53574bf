"""P12: saved reduced operators and hyper-reduction samples load back unchanged.  Uses the ghost HDF5 file of P11."""
from vc.unit import *
from contracts import c_h5
from contracts.c_h5 import globs, H5, SI, KINDS
EQ = (H5[0], H5[1], 'src/hyperreduction_integ.cpp')
@unit('P12', 'EQPSample constructor', files=EQ)
def _(u):
    ex = u.ex; s = u.obj('info', SI); t = ex.newobj('mfem::EQPSample', 'sample'); f = u.find('mfem::EQPSample::EQPSample', nparams=1); ex.under.add(f['key']); ex.call_ctor(f, t, [s]); i = obj(ex.field(t, 'info'))
    for x, ty in (('el', 'int'), ('qp', 'int'), ('qw', 'double')): u.eq(ex.num(ex.field(i, x, ty)), ex.num(ex.field(s.o, x, ty)), x)
    for x in ('shape1', 'shape2'): u.ensure(Not(ex.nonnull(ex.field(t, x))), x + ' is absent')
def new_sample(ex, a, e):
    """contract of the constructor: a sample that holds the given element, point and weight"""
    s = obj(ex.load(a[0], e) if isinstance(a[0], LElem) else a[0]); v = [ex.num(ex.field(s, x, t)) for x, t in (('el', 'int'), ('qp', 'int'), ('qw', 'double'))]; o = App('new_sample', *[P(x) for x in v], sort='obj'); ex.objcls[o] = 'mfem::EQPSample'; ex.nonnulls.add(o); return Ptr(o)
def info(ex, o, x):
    if o.kind == 'app' and o.args[0] == 'new_sample': return P(o.args[1 + ('el', 'qp', 'qw').index(x)])
    return ex.num(ex.field(obj(ex.field(o, 'info', SI)), x, {'qw': 'double'}.get(x, 'int')))
def eqp(u, n):
    ex = u.ex; e = u.obj(n, 'mfem::EQPElement'); s = ex.field(e.o, 'samples', 'mfem::Array<mfem::EQPSample *>'); u.assume(ge0(vsize(ex, s.o))); return e, s.o
@unit('P12', 'EQPElement', files=EQ)
def _(u):
    ex = u.ex; f = globs(u); ex.opts['new'] = {'mfem::EQPSample': new_sample}; n = u.int('name', 0); ty = u.int('type', 0); u.assume(ge0(len(KINDS) - 1 - ty)); a, sa = eqp(u, 'saved'); b, sb = eqp(u, 'loaded'); z = vsize(ex, sa); s0 = u.old()
    u.run('mfem::EQPElement::Save', [ex.load(f), n, ty], a); u.run('mfem::EQPElement::Load', [ex.load(f), n, ty], b); u.eq(vsize(ex, sb), z, 'as many samples'); k = u.int('sample', 0); u.assume(ge0(z - 1 - k))
    if ex.ctx.infeasible(): return
    x = vget(ex, sb, k); y = u.at(s0, lambda: vget(ex, sa, k))
    for c in ('el', 'qp', 'qw'): u.eq(info(ex, x, c), u.at(s0, lambda: info(ex, y, c)), c + ' of every sample')
@unit('P12', 'EQPElement constructor', files=EQ)
def _(u):
    ex = u.ex; ex.opts['soa'] = {SI}; ex.opts['new'] = {'mfem::EQPSample': new_sample}; a = u.obj('list', 'mfem::Array<%s>' % SI); z = vsize(ex, a.o); u.assume(ge0(z)); t = ex.newobj('mfem::EQPElement', 'element'); f = u.find('mfem::EQPElement::EQPElement', nparams=1); ex.under.add(f['key']); ex.call_ctor(f, t, [a]); s = obj(ex.field(t, 'samples')); u.eq(vsize(ex, s), z, 'as many samples'); k = u.int('sample', 0); u.assume(ge0(z - 1 - k))
    if ex.ctx.infeasible(): return
    x = vget(ex, s, k)
    for c in ('el', 'qp', 'qw'): u.eq(info(ex, x, c), c_h5.sget(ex, a.o, c, k), c + ' of every sample')
# ---- collections of operators.  A place in the file is a path pattern and indices: component (by the saving topology), boundary number, port (by the saving topology).
RE = H5 + ('src/rom_element_collection.cpp',)
PF = ('c1', 'c2', 'a1', 'a2')
def pieces(ex, name):
    t = P(ex.str_val(name)).atom(); return list(t.args[1:]) if t is not None and t.kind == 'app' and t.args[0] == 'strcat' else [P(ex.str_val(name))]
def path(ex, loc, e):
    """place -> (pattern, indices)"""
    loc = P(ex.num(ex.load(loc, e) if isinstance(loc, (LVar, LElem)) else loc)); t = loc.atom()
    if t is None or t.kind != 'app' or t.args[0] not in ('h5g', 'h5f'): return ('?%s' % show(loc),), ()
    if t.args[0] == 'h5f': return ('file %s' % show(P(t.args[2])),), ()
    k, ix = path(ex, t.args[1], e); k2, ix2 = key(ex, t.args[2], e); return k + (k2,), ix + ix2
def key(ex, name, e):
    out = []; ix = []; port = None; used = set()
    for x in pieces(ex, name):
        c = code_str(P(x))
        if c is not None: out.append(c); continue
        y = P(x).atom(); k = y.args[0] if y is not None and y.kind == 'app' else None
        if k == 'compname': out.append('%c'); ix.append(P(y.args[1]))
        elif k == 'portname' or (k == 'tostr' and (z := P(y.args[1]).atom()) is not None and z.kind == 'app' and z.args[0] == 'rp'):
            f, p = (y.args[1], P(y.args[2])) if k == 'portname' else (z.args[1], portno(ex, z.args[2], P(z.args[3])))
            if port is not None and port != p: raise Unsupported('name made of two ports at %s' % ex.where(e))
            port = p; used.add(f); out.append('{%s}' % f)
        elif k == 'tostr': out.append('%d'); ix.append(P(y.args[1]))
        else: raise Unsupported('name in the file at %s' % ex.where(e))
    s = ''.join(out)
    if any(a in s for a in ('%d%d', '%c%', '%d%c', '}{', '%{', '}%')): ex.oblige('pre', FALSE, 'the parts of a name are separated', e)
    if port is not None:
        ex.oblige('pre', TRUE if used == set(PF) else FALSE, 'the name of a port identifies its components and attributes', e); ix.append(port)
    return s, tuple(ix)
def ghost(ex, kind, k, default, sort):
    r = App('h5' + kind, '/'.join(k), sort='obj')
    if r not in ex.objcls: ex.objcls[r] = '#region'; ex.nonnulls.add(r); ex.lazy[(r, 'content')] = Lam(default, sort); ex.lazy[(r, 'shape')] = ()
    return r
def flat(o):
    if o.kind == 'app' and o.args[0] == 'rd': b, ix = flat(o.args[1]); return b, ix + tuple(P(i) for i in o.args[2:])
    return o, ()
def mbval(ex, o):
    b, ix = flat(o); r = App('mbval', b, sort='obj')
    if r not in ex.objcls: ex.objcls[r] = '#region'; ex.nonnulls.add(r); ex.lazy[(r, 'content')] = Base(App('held_by', b, sort='obj'), 'obj'); ex.lazy[(r, 'shape')] = ()
    return r, ix
NW = Sym('not_written', 'obj')
def is_mb(ex, v): return isinstance(v, LObj) and 'MatrixBlocks' in (ex.objcls.get(v.o) or v.cls or '')
def _wds(ex, a, e):
    if not ex.opts.get('rom') or not is_mb(ex, a[2]): return None
    k, ix = path(ex, a[0], e); k2, ix2 = key(ex, a[1], e); r = ghost(ex, 'blocks', k + (k2,), NW, 'obj'); m, i = mbval(ex, a[2].o); ex.put((r, 'content'), SetN(ex.content(r), (), ix + ix2, ex.read(ex.content(m), i))); return VOID
def _rds(ex, a, e):
    if not ex.opts.get('rom') or not is_mb(ex, a[2]): return None
    k, ix = path(ex, a[0], e); k2, ix2 = key(ex, a[1], e); r = ghost(ex, 'blocks', k + (k2,), NW, 'obj'); m, i = mbval(ex, a[2].o); ex.put((m, 'content'), SetN(ex.content(m), (), i, ex.read(ex.content(r), ix + ix2))); return VOID
CONTRACTS['hdf5_utils::WriteDataset'] = _wds; CONTRACTS['hdf5_utils::ReadDataset'] = _rds
UNSET = P(Sym('attribute_not_written', 'int'))
def _wat(ex, a, e):
    if not ex.opts.get('rom'): return None
    k, ix = path(ex, a[0], e); k2, ix2 = key(ex, a[1], e); r = ghost(ex, 'attr', k + (k2,), UNSET, 'int'); v = a[2]; v = ex.load(v, e) if isinstance(v, (LVar, LElem)) else v; ex.put((r, 'content'), SetN(ex.content(r), (), ix + ix2, ex.num(v))); return VOID
def _rat(ex, a, e):
    if not ex.opts.get('rom'): return None
    k, ix = path(ex, a[0], e); k2, ix2 = key(ex, a[1], e); r = ghost(ex, 'attr', k + (k2,), UNSET, 'int'); ex.store(a[2], P(ex.read(ex.content(r), ix + ix2)), e); return VOID
for _n, _f in (('WriteAttribute', _wat), ('ReadAttribute', _rat)): CONTRACTS['hdf5_utils::' + _n] = CONTRACTS['hdf5_utils::%s<int>' % _n] = _f
def on_group(ex, p, new, e):
    k, ix = path(ex, p, e); r = ghost(ex, 'group', k, FALSE, 'bool'); c = ex.read(ex.content(r), ix); c = c if isinstance(c, F) else BAtom(c)
    if new: ex.put((r, 'content'), SetN(ex.content(r), (), ix, TRUE))
    else: ex.oblige('pre', c, 'the group that is opened was created', e)
def compno(ex, t, c): return P(c) if t is ex.opts['rom'][0].o else P(App('same_component', P(c), sort='int'))
def portno(ex, t, p): return P(p) if t is ex.opts['rom'][0].o else P(App('same_port', P(p), sort='int'))
def _cname(ex, a, e):
    if not ex.opts.get('rom'): return None
    t = a[0]; c = ex.num(ex.load(a[1], e) if isinstance(a[1], (LVar, LElem)) else a[1]); y = c.atom()
    if y is not None and y.kind == 'app' and y.args[0] == 'rp' and y.args[1] in ('c1', 'c2'): return P(App('portname', y.args[1], portno(ex, y.args[2], P(y.args[3])), sort='int'))
    ex.oblige('bounds', And(ge0(c), ge0(ncomp(ex, t.o) - 1 - c)), 'component index', e); return P(App('compname', compno(ex, t.o, c), sort='int'))
def ncomp(ex, t): return ex.field(t, 'num_comp')
CONTRACTS['TopologyHandler::GetComponentName'] = _cname
def nbdr(ex, t, c): return P(App('nbdr', compno(ex, t, c), sort='int'))
from contracts import c_form
_cm0 = MODELS.get(('TopologyHandler', 'GetComponentMesh'))
@M.model('TopologyHandler', 'GetComponentMesh')
def _(ex, t, a, e):
    if not ex.opts.get('rom') and _cm0: return _cm0(ex, t, a, e)
    c = ex.num(a[0]); o = App('cmesh', t.o, P(c), sort='obj'); ex.objcls[o] = 'mfem::Mesh'; ex.nonnulls.add(o); ex.oblige('bounds', And(ge0(c), ge0(ncomp(ex, t.o) - 1 - c)), 'component index', e); return Ptr(o)
_rp0 = MODELS.get(('TopologyHandler', 'GetRefPortInfo'))
@M.model('TopologyHandler', 'GetRefPortInfo')
def _(ex, t, a, e):
    if not ex.opts.get('rom') and _rp0: return _rp0(ex, t, a, e)
    p = ex.num(a[0]); ex.oblige('bounds', And(ge0(p), ge0(ex.field(t.o, 'num_ref_ports') - 1 - p)), 'port index', e)
    for x, l in zip(PF, a[1:]): ex.store(l, P(App('rp', x, t.o, P(p), sort='int')), e)
    return VOID
class Coll:
    def __init__(self, u, n, T):
        ex = u.ex; self.T = T; self.o = u.obj(n, 'ROMLinearElement'); o = self.o.o; self.nc = ncomp(ex, T.o); self.np = ex.field(T.o, 'num_ref_ports'); ex.lazy[(o, 'topol_handler')] = Ptr(T.o); ex.lazy[(o, 'num_comp')] = self.nc; ex.lazy[(o, 'num_ref_ports')] = self.np
        for f, z, t in (('comp', self.nc, 'MatrixBlocks *'), ('mass', self.nc, 'MatrixBlocks *'), ('port', self.np, 'MatrixBlocks *'), ('bdr', self.nc, 'mfem::Array<MatrixBlocks *> *')):
            a = u.obj('%s_%s' % (n, f), 'mfem::Array<%s>' % t); ex.lazy[(o, f)] = a; ex.lazy[(a.o, 'size')] = z; setattr(self, f, a.o)
        def lz(x, f):
            if x.kind == 'app' and x.args[0] == 'rd' and x.args[1] is self.bdr and f == 'size': return nbdr(ex, T.o, P(x.args[2]))
            if x.kind == 'app' and x.args[0] == 'cmesh' and x.args[1] is T.o and f == 'bdr_attributes':
                b = App('cattr', x, sort='obj'); ex.objcls[b] = 'mfem::Array<int>'; return LObj(b, 'mfem::Array<int>')
            if x.kind == 'app' and x.args[0] == 'cattr' and x.args[1].args[1] is T.o and f == 'size': return nbdr(ex, T.o, P(x.args[1].args[2]))
        ex.lazyfn.append(lz)
    def val(self, f, *ix): ex = self.u_ex; r = App('rd', getattr(self, f), *ix[:1], sort='obj'); r = App('rd', r, ix[1], sort='obj') if len(ix) > 1 else r; m, i = mbval(ex, r); return ex.read(ex.content(m), i)
def collections(u):
    ex = u.ex; f = globs(u); T1, T2 = u.obj('saving', 'TopologyHandler'), u.obj('loading', 'TopologyHandler'); ex.opts['rom'] = (T1, T2); ex.opts['on_group'] = on_group
    for t, n in ((T1, 'saved'), (T2, 'loaded')): ex.lazy[(t.o, 'num_comp')] = u.int(n + '_components', 0); ex.lazy[(t.o, 'num_ref_ports')] = u.int(n + '_ports', 0)
    A, B = Coll(u, 'save', T1), Coll(u, 'load', T2); A.u_ex = B.u_ex = ex; u.assume(ge0(A.nc - B.nc)); u.assume(ge0(A.np - B.np)); old = ex.axioms_
    def ax(a):
        r = old(a)
        for k, n1, n2 in (('same_component', A.nc, B.nc), ('same_port', A.np, B.np)):
            if a.args[0] == k: r += (Implies(And(ge0(a.args[1]), ge0(n2 - 1 - a.args[1])), And(ge0(P(a)), ge0(n1 - 1 - P(a)))),)
        if a.args[0] == 'nbdr': r += (ge0(P(a)),)
        return r
    ex.axioms_ = ax; ex.axmemo = {}; ex.note('components have distinct names without ":"; every component and reference port of the loading topology was saved, in any order, with the same number of boundaries'); return f, A, B
@unit('P12', 'ROMLinearElement', files=RE)
def _(u):
    ex = u.ex; f, A, B = collections(u); n = u.int('filename', 0); s0 = u.old(); u.run('ROMLinearElement::Save', [n], A.o); u.run('ROMLinearElement::Load', [n], B.o); c, b, p = u.int('c', 0), u.int('b', 0), u.int('p', 0); sc = compno(ex, B.T.o, c); o = lambda *a: u.at(s0, lambda: A.val(*a))
    u.assume(ge0(B.np - 1 - p)) if False else None
    def post(cond, g):
        if ex.decide(cond): g()
    post(And(ge0(B.nc - 1 - c)), lambda: [u.ensure(TRUE if B.val(x, c) is o(x, sc) else FALSE, '%s operator of every component' % x) for x in ('comp', 'mass')])
    post(And(ge0(B.nc - 1 - c), ge0(nbdr(ex, B.T.o, c) - 1 - b)), lambda: u.ensure(TRUE if B.val('bdr', c, b) is o('bdr', sc, b) else FALSE, 'operator of every boundary'))
    post(And(ge0(B.np - 1 - p)), lambda: u.ensure(TRUE if B.val('port', p) is o('port', portno(ex, B.T.o, p)) else FALSE, 'operator of every port'))
