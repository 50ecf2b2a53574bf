"""Assumed contracts of the MFEM classes the repository calls (trusted base; each states the documented behaviour).
Vector{data,size}  DenseMatrix{data,h,w}  DenseTensor{data,si,sj,sk}  Array{data,size}  Array2D{data,h,w}
SparseMatrix{content (dense view),h,w}.  All storages of distinct objects are disjoint unless created as views."""
from .interp import *
from .terms import *

H = tuple(Sym('#%d' % i) for i in range(4))
def obj(v):
    if isinstance(v, LObj): return v.o
    if isinstance(v, Ptr): return v.obj
    if isinstance(v, Atom): return v
    raise Unsupported('object expected: %r' % (v,))
def elem_t(cls):
    n, ta = tmpl(cls)
    return ta or 'double'
def esort(t):
    s = sort_of(t)
    return 'obj' if s in ('ptr', 'obj') else s

# ------------------------------------------------------------------ lazily symbolic objects
def own_region(ex, o, shape, sort='real'):
    r = App('reg', o, sort='obj')
    if r not in ex.objcls:
        ex.objcls[r] = '#region'
    ex.nonnulls.add(r)
    if ex.get((r, 'content')) is None: ex.lazy[(r, 'content')] = Base(o, sort)
    if ex.get((r, 'shape')) is None: ex.lazy[(r, 'shape')] = tuple(shape)
    return r
def lz(cls):
    def d(f): LAZY[cls] = f; return f
    return d
@lz('Vector')
def _(ex, o, f):
    if f == 'size': return P(App('size', o, sort='int'))
    if f == 'data': return Ptr(own_region(ex, o, (ex.field(o, 'size'),)))
    if f == 'cap': return P(App('cap', o, sort='int'))
LAZY['vector'] = lambda ex, o, f: P(App('size', o, sort='int')) if f == 'size' else None
LAZY['GridFunction'] = LAZY['Vector']; LAZY['BlockVector'] = LAZY['Vector']
@lz('DenseMatrix')
def _(ex, o, f):
    if f == 'h': return P(App('height', o, sort='int'))
    if f == 'w': return P(App('width', o, sort='int'))
    if f == 'data': return Ptr(own_region(ex, o, (ex.field(o, 'h'), ex.field(o, 'w'))))
    if f == 'cap': return P(App('cap', o, sort='int'))
@lz('DenseTensor')
def _(ex, o, f):
    if f in ('si', 'sj', 'sk'): return P(App('ext' + f, o, sort='int'))
    if f == 'data': return Ptr(own_region(ex, o, tuple(ex.field(o, x) for x in ('si', 'sj', 'sk'))))
    if f == 'cap': return P(App('cap', o, sort='int'))
@lz('Array')
def _(ex, o, f):
    if f == 'size': return P(App('size', o, sort='int'))
    if f == 'data': return Ptr(own_region(ex, o, (ex.field(o, 'size'),), esort(elem_t(ex.objcls[o]))))
    if f == 'cap': return P(App('cap', o, sort='int'))
@lz('Array2D')
def _(ex, o, f):
    if f == 'h': return P(App('height', o, sort='int'))
    if f == 'w': return P(App('width', o, sort='int'))
    if f == 'data': return Ptr(own_region(ex, o, (ex.field(o, 'h'), ex.field(o, 'w')), esort(elem_t(ex.objcls[o]))))
@lz('SparseMatrix')
def _(ex, o, f):
    if f == 'h': return P(App('height', o, sort='int'))
    if f == 'w': return P(App('width', o, sort='int'))
    if f == 'data': return Ptr(own_region(ex, o, (ex.field(o, 'h'), ex.field(o, 'w'))))
    if f == 'final': return BAtom(App('finalized', o, sort='bool'))
@lz('Operator')
def _(ex, o, f):
    if f == 'h': return P(App('height', o, sort='int'))
    if f == 'w': return P(App('width', o, sort='int'))
@lz('IntegrationPoint')
def _(ex, o, f):
    if f == 'val': return o
    if f == 'weight': return P(App('ipw', ipv(ex, o), sort='real'))
    if f in ('x', 'y', 'z'): return P(App('ip' + f, ipv(ex, o), sort='real'))
    if f == 'index': return P(App('ipindex', ipv(ex, o), sort='int'))
def ipv(ex, o):
    return ex.field(o, 'val')

# ------------------------------------------------------------------ elementary accessors
def vsize(ex, o): return ex.field(o, 'size')
def mdims(ex, o): return ex.field(o, 'h'), ex.field(o, 'w')
def vidx(ex, o, i):
    p = ex.field(o, 'data')
    if p.obj is None: raise Unsupported('element of an empty object')
    if p.obj.kind == 'app' and p.obj.args[0] == 'row' and ex.objcls.get(p.obj) == '#row': return p.obj.args[1], tuple(P(x) for x in p.obj.args[2:]) + (p.off + P(i),)
    return p.obj, ex.region_index(p.obj, p.off + P(i))
def midx(ex, o, i, j):
    p = ex.field(o, 'data'); h, w = mdims(ex, o)
    if p.obj is None: raise Unsupported('element of an empty matrix')
    sh = ex.shape(p.obj)
    if not p.off.t and len(sh) == 2 and sh[0] == h: return p.obj, (P(i), P(j))
    if len(sh) == 3 and sh[0] == h and sh[1] == w:
        q, r = divmod_poly(p.off, h * w)
        if q is not None and not r.t: return p.obj, (P(i), P(j), q)
    if not p.off.t and len(sh) == 2 and ex.ctx.entails(Eq(sh[0], h)): return p.obj, (P(i), P(j))
    return p.obj, ex.region_index(p.obj, p.off + P(i) + h * P(j))
def vget(ex, o, i):
    r, ix = vidx(ex, o, i); return ex.read(ex.content(r), ix)
def mget(ex, o, i, j):
    r, ix = midx(ex, o, i, j); return ex.read(ex.content(r), ix)
def full_v(ex, o):
    p = ex.field(o, 'data'); n = vsize(ex, o)
    sh = ex.shape(p.obj)
    return not p.off.t and len(sh) == 1 and (sh[0] == n or ex.ctx.entails(Eq(sh[0], n)))
def full_m(ex, o):
    p = ex.field(o, 'data'); h, w = mdims(ex, o)
    sh = ex.shape(p.obj)
    return not p.off.t and len(sh) == 2 and (sh[0] == h or ex.ctx.entails(Eq(sh[0], h))) and (sh[1] == w or ex.ctx.entails(Eq(sh[1], w)))
def with_range(ex, pairs, fn):
    n = ex.ctx.mark()
    try:
        for v, c in pairs: ex.ctx.assume(ge0(P(v))); ex.ctx.assume(ge0(c - 1 - P(v)))
        return fn()
    finally: ex.ctx.reset(n)
def vset(ex, o, fn, sort=None):
    """o[i] = fn(i) for all i"""
    n = vsize(ex, o)
    if n.const() == 0: return
    p = ex.field(o, 'data')
    if p.obj is None:
        if ex.ctx.entails(Eq(n, 0)): return
        raise Unsupported('write to an empty vector')
    i = Fresh('i')
    val = with_range(ex, [(i, n)], lambda: fn(P(i)))
    if ex.objcls.get(p.obj) == '#row':
        r, ix = vidx(ex, o, P(i)); ex.put((r, 'content'), SetN(ex.content(r), ((i, n),), ix, val)); return
    c = ex.content(p.obj)
    if full_v(ex, o): ex.put((p.obj, 'content'), Lam(subst(val, {i: P(A0)}), sort or arr_sort(c))); return
    ix = with_range(ex, [(i, n)], lambda: vidx(ex, o, P(i))[1])
    ex.put((p.obj, 'content'), SetN(c, ((i, n),), ix, val))
def vadd(ex, o, fn):
    n = vsize(ex, o)
    if n.const() == 0: return
    i = Fresh('i')
    val, (r, ix) = with_range(ex, [(i, n)], lambda: (fn(P(i)), vidx(ex, o, P(i))))
    ex.put((r, 'content'), ex.mk_add(ex.content(r), ((i, n),), ix, P(val)))
def mset(ex, o, fn):
    h, w = mdims(ex, o)
    if h.const() == 0 or w.const() == 0: return
    p = ex.field(o, 'data')
    i = Fresh('i'); j = Fresh('j')
    c = ex.content(p.obj)
    val = with_range(ex, [(i, h), (j, w)], lambda: fn(P(i), P(j)))
    if full_m(ex, o): ex.put((p.obj, 'content'), Lam(subst(val, {i: P(A0), j: P(A1)}), arr_sort(c))); return
    ix = with_range(ex, [(i, h), (j, w)], lambda: midx(ex, o, P(i), P(j))[1])
    ex.put((p.obj, 'content'), SetN(c, ((j, w), (i, h)), ix, val))
def madd(ex, o, fn, r0=ZERO, c0=ZERO, nh=None, nw=None, node=None):
    h, w = mdims(ex, o)
    nh = h if nh is None else nh; nw = w if nw is None else nw
    if nh is not h or nw is not w or r0.t or c0.t:
        ex.oblige('bounds', And(ge0(r0), ge0(c0), ge0(h - r0 - nh), ge0(w - c0 - nw)), 'block fits in the matrix', node)
    i = Fresh('i'); j = Fresh('j')
    val, (r, ix) = with_range(ex, [(i, nh), (j, nw)], lambda: (fn(P(i), P(j)), midx(ex, o, r0 + P(i), c0 + P(j))))
    ex.put((r, 'content'), ex.mk_add(ex.content(r), ((j, nw), (i, nh)), ix, P(val)))
def same(ex, a, b, what, node):
    if a == b: ex.ok('size'); return
    ex.oblige('size', Eq(a, b), what, node)
def vsum(ex, n, fn):
    k = Fresh('s')
    body = with_range(ex, [(k, n)], lambda: fn(P(k)))
    return Sum1(k, P(n), body)
def undef(sort='real', nm='undef'): return Base(Fresh(nm, 'obj'), sort)

def set_own(ex, o, shape, content):
    r = App('reg', o, sort='obj'); ex.objcls[r] = '#region'; ex.nonnulls.add(r)
    ex.put((r, 'content'), content); ex.put((r, 'shape'), tuple(P(x) for x in shape))
    ex.setfield(o, 'data', Ptr(r))
def vresize(ex, o, n, node=None, sort='real'):
    n = P(n)
    ex.oblige('size', ge0(n), 'vector size is nonnegative', node)
    if vsize(ex, o) == n or ex.ctx.entails(Eq(vsize(ex, o), n)): return
    set_own(ex, o, (n,), undef(sort)); ex.setfield(o, 'size', n); ex.setfield(o, 'cap', P(Fresh('cap')))
def mresize(ex, o, h, w, node=None):
    h = P(h); w = P(w)
    ex.oblige('size', And(ge0(h), ge0(w)), 'matrix extents are nonnegative', node)
    ch, cw = mdims(ex, o)
    if (ch == h and cw == w) or ex.ctx.entails(And(Eq(ch, h), Eq(cw, w))): return
    z = ex.field(o, 'cap').const() == 0
    set_own(ex, o, (h, w), Lam(ZERO) if z else undef())
    ex.setfield(o, 'h', h); ex.setfield(o, 'w', w); ex.setfield(o, 'cap', P(Fresh('cap')))

# ------------------------------------------------------------------ Vector
@ctor('Vector')
def _(ex, o, args, e):
    ex.objcls[o] = 'mfem::Vector'
    if not args:
        ex.put((o, 'size'), ZERO); set_own(ex, o, (ZERO,), undef()); ex.put((o, 'cap'), ZERO); return
    if isinstance(args[0], Poly):
        n = args[0]
        ex.oblige('size', ge0(n), 'vector size is nonnegative', e)
        ex.put((o, 'size'), n); set_own(ex, o, (n,), undef()); ex.put((o, 'cap'), n); return
    if isinstance(args[0], Ptr):
        ex.put((o, 'size'), ex.num(args[1])); ex.put((o, 'data'), args[0]); ex.put((o, 'cap'), ex.num(args[1])); return
    if isinstance(args[0], LObj):
        if len(args) == 3:
            b = obj(args[0]); p = ex.field(b, 'data')
            ex.put((o, 'size'), args[2]); ex.put((o, 'data'), Ptr(p.obj, p.off + args[1])); ex.put((o, 'cap'), args[2]); return
        if len(args) == 1: copy_vec(ex, o, args[0], e); return
    raise Unsupported('Vector ctor %r' % (args,))
def copy_vec(ex, o, s, e):
    s = obj(s); n = vsize(ex, s)
    ex.put((o, 'size'), n); set_own(ex, o, (n,), undef()); ex.put((o, 'cap'), n)
    vset(ex, o, lambda i: vget(ex, s, i))
MODELS[('copy', 'Vector')] = copy_vec
@model('Vector', 'Size')
def _(ex, t, a, e): return vsize(ex, t.o)
@model('Vector', 'SetSize')
def _(ex, t, a, e): vresize(ex, t.o, a[0], e); return VOID
@model('Vector', 'GetData', 'Read', 'HostRead', 'Write', 'HostWrite', 'ReadWrite', 'HostReadWrite')
def _(ex, t, a, e): return ex.field(t.o, 'data')
@model('Vector', '()', '[]', 'Elem')
def _(ex, t, a, e):
    i = ex.num(a[0]); n = vsize(ex, t.o)
    ex.oblige('bounds', And(ge0(i), ge0(n - 1 - i)), 'vector index %s < %s' % (show(i), show(n)), e)
    r, ix = vidx(ex, t.o, i)
    return LElem(r, ix, 'double')
@model('Vector', '=')
def _(ex, t, a, e):
    v = a[0]
    if isinstance(v, (Poly, F)):
        v = ex.num(v); vset(ex, t.o, lambda i: v); return t
    if isinstance(v, LObj):
        s = v.o
        if s is t.o: return t
        vresize(ex, t.o, vsize(ex, s), e)
        vset(ex, t.o, lambda i: vget(ex, s, i)); return t
    if isinstance(v, Ptr):
        vset(ex, t.o, lambda i: ex.read(ex.content(v.obj), ex.region_index(v.obj, v.off + i))); return t
    raise Unsupported('Vector= %r' % v)
@model('Vector', '*')
def _(ex, t, a, e):
    if isinstance(a[0], Ptr): raise Unsupported('Vector * double*')
    same(ex, vsize(ex, t.o), vsize(ex, obj(a[0])), 'dot product of equally long vectors', e)
    return vsum(ex, vsize(ex, t.o), lambda i: vget(ex, t.o, i) * vget(ex, obj(a[0]), i))
@model('Vector', '*=')
def _(ex, t, a, e):
    if isinstance(a[0], LObj): vset(ex, t.o, lambda i: vget(ex, t.o, i) * vget(ex, obj(a[0]), i)); return t
    vset(ex, t.o, lambda i: vget(ex, t.o, i) * ex.num(a[0])); return t
@model('Vector', '/=')
def _(ex, t, a, e):
    if isinstance(a[0], LObj): vset(ex, t.o, lambda i: vget(ex, t.o, i) * Inv(vget(ex, obj(a[0]), i))); return t
    vset(ex, t.o, lambda i: vget(ex, t.o, i) * Inv(ex.num(a[0]))); return t
@model('Vector', '+=')
def _(ex, t, a, e):
    if isinstance(a[0], LObj):
        same(ex, vsize(ex, t.o), vsize(ex, obj(a[0])), 'vector sum of equally long vectors', e)
        vadd(ex, t.o, lambda i: vget(ex, obj(a[0]), i))
    else: vadd(ex, t.o, lambda i: ex.num(a[0]))
    return t
@model('Vector', '-=')
def _(ex, t, a, e):
    if isinstance(a[0], LObj):
        same(ex, vsize(ex, t.o), vsize(ex, obj(a[0])), 'vector difference of equally long vectors', e)
        vadd(ex, t.o, lambda i: -vget(ex, obj(a[0]), i))
    else: vadd(ex, t.o, lambda i: -ex.num(a[0]))
    return t
@model('Vector', 'Add')
def _(ex, t, a, e):
    same(ex, vsize(ex, t.o), vsize(ex, obj(a[1])), 'Vector::Add of equally long vectors', e)
    vadd(ex, t.o, lambda i: ex.num(a[0]) * vget(ex, obj(a[1]), i)); return t
@model('Vector', 'Set')
def _(ex, t, a, e):
    same(ex, vsize(ex, t.o), vsize(ex, obj(a[1])), 'Vector::Set of equally long vectors', e)
    vset(ex, t.o, lambda i: ex.num(a[0]) * vget(ex, obj(a[1]), i)); return t
@model('Vector', 'Neg')
def _(ex, t, a, e): vset(ex, t.o, lambda i: -vget(ex, t.o, i)); return VOID
@model('Vector', 'Norml2')
def _(ex, t, a, e): return Sqrt(vsum(ex, vsize(ex, t.o), lambda i: vget(ex, t.o, i) ** 2))
@model('Vector', 'Sum')
def _(ex, t, a, e): return vsum(ex, vsize(ex, t.o), lambda i: vget(ex, t.o, i))
@model('Vector', 'SetDataAndSize', 'NewDataAndSize', 'MakeRef')
def _(ex, t, a, e):
    if e['m'] == 'MakeRef':
        b = obj(a[0]); p = ex.field(b, 'data')
        ex.setfield(t.o, 'data', Ptr(p.obj, p.off + ex.num(a[1])))
        if len(a) > 2: ex.setfield(t.o, 'size', ex.num(a[2]))
        return VOID
    ex.setfield(t.o, 'data', a[0]); ex.setfield(t.o, 'size', ex.num(a[1])); ex.setfield(t.o, 'cap', ex.num(a[1])); return VOID
@model('Vector', 'SetData')
def _(ex, t, a, e): ex.setfield(t.o, 'data', a[0]); return VOID
@model('Vector', 'Destroy')
def _(ex, t, a, e): ex.setfield(t.o, 'size', ZERO); set_own(ex, t.o, (ZERO,), undef()); return VOID
def signed_dof(ex, o, d):
    """mfem convention: a negative dof index -1-k addresses entry k with a flipped sign"""
    if ex.ctx.entails(ge0(d)): return vget(ex, o, d)
    raise Unsupported('dof index not known nonnegative')
@model('Vector', 'GetSubVector')
def _(ex, t, a, e):
    d = obj(a[0]); n = vsize(ex, d)
    if isinstance(a[1], Ptr): raise Unsupported('GetSubVector(double*)')
    v = obj(a[1])
    vresize(ex, v, n, e)
    def val(i):
        k = vget(ex, d, i)
        ex.oblige('bounds', And(ge0(k), ge0(vsize(ex, t.o) - 1 - k)), 'sub-vector index in range', e)
        return signed_dof(ex, t.o, k)
    vset(ex, v, val); return VOID
@model('Vector', 'AddElementVector')
def _(ex, t, a, e):
    if len(a) == 2: d, s, v = obj(a[0]), ONE, obj(a[1])
    else: d, s, v = obj(a[0]), ex.num(a[1]), obj(a[2])
    n = vsize(ex, d); i = Fresh('i')
    same(ex, n, vsize(ex, v), 'AddElementVector sizes', e)
    def f():
        k = vget(ex, d, P(i))
        ex.oblige('bounds', And(ge0(k), ge0(vsize(ex, t.o) - 1 - k)), 'dof index in range', e)
        return s * vget(ex, v, P(i)), vidx(ex, t.o, k)
    val, (r, ix) = with_range(ex, [(i, n)], f)
    ex.put((r, 'content'), ex.mk_add(ex.content(r), ((i, n),), ix, P(val)))
    return VOID
@model('Vector', 'Swap')
def _(ex, t, a, e):
    for f in ('data', 'size', 'cap'):
        x, y = ex.field(t.o, f), ex.field(obj(a[0]), f)
        ex.setfield(t.o, f, y); ex.setfield(obj(a[0]), f, x)
    return VOID
@func('mfem::add')
def _(ex, a, e):
    if len(a) == 3:
        vset(ex, obj(a[2]), lambda i: vget(ex, obj(a[0]), i) + vget(ex, obj(a[1]), i)); return VOID
    if len(a) == 4 and isinstance(a[1], Poly):
        vset(ex, obj(a[3]), lambda i: vget(ex, obj(a[0]), i) + a[1] * vget(ex, obj(a[2]), i)); return VOID
    raise Unsupported('mfem::add')
@func('mfem::subtract')
def _(ex, a, e):
    if len(a) == 3: vset(ex, obj(a[2]), lambda i: vget(ex, obj(a[0]), i) - vget(ex, obj(a[1]), i)); return VOID
    raise Unsupported('mfem::subtract')

# ------------------------------------------------------------------ DenseMatrix
@ctor('DenseMatrix')
def _(ex, o, args, e):
    ex.objcls[o] = 'mfem::DenseMatrix'
    if not args: hw = (ZERO, ZERO)
    elif isinstance(args[0], LObj): copy_mat(ex, o, args[0], e); return
    elif isinstance(args[0], Ptr):
        ex.put((o, 'h'), args[1]); ex.put((o, 'w'), args[2]); ex.put((o, 'data'), args[0]); ex.put((o, 'cap'), args[1] * args[2]); return
    elif len(args) == 1: hw = (args[0], args[0])
    else: hw = (args[0], args[1])
    ex.oblige('size', And(ge0(hw[0]), ge0(hw[1])), 'matrix extents are nonnegative', e)
    ex.put((o, 'h'), hw[0]); ex.put((o, 'w'), hw[1]); set_own(ex, o, hw, Lam(ZERO)); ex.put((o, 'cap'), hw[0] * hw[1])
def copy_mat(ex, o, s, e):
    s = obj(s); h, w = mdims(ex, s)
    ex.put((o, 'h'), h); ex.put((o, 'w'), w); set_own(ex, o, (h, w), undef()); ex.put((o, 'cap'), h * w)
    mset(ex, o, lambda i, j: mget(ex, s, i, j))
MODELS[('copy', 'DenseMatrix')] = copy_mat
for c in ('DenseMatrix', 'SparseMatrix', 'Operator', 'Array2D'):
    @model(c, 'NumRows', 'Height')
    def _(ex, t, a, e): return ex.field(t.o, 'h')
    @model(c, 'NumCols', 'Width')
    def _(ex, t, a, e): return ex.field(t.o, 'w')
@model('DenseMatrix', 'SetSize')
def _(ex, t, a, e):
    mresize(ex, t.o, a[0], a[1] if len(a) > 1 else a[0], e); return VOID
@model('DenseMatrix', 'Clear')
def _(ex, t, a, e):
    ex.setfield(t.o, 'h', ZERO); ex.setfield(t.o, 'w', ZERO); set_own(ex, t.o, (ZERO, ZERO), undef()); ex.setfield(t.o, 'cap', ZERO); return VOID
@model('DenseMatrix', 'Data', 'GetData', 'Read', 'HostRead', 'Write', 'HostWrite', 'ReadWrite', 'HostReadWrite')
def _(ex, t, a, e): return ex.field(t.o, 'data')
@model('DenseMatrix', 'UseExternalData', 'Reset')
def _(ex, t, a, e):
    ex.setfield(t.o, 'data', a[0]); ex.setfield(t.o, 'h', ex.num(a[1])); ex.setfield(t.o, 'w', ex.num(a[2])); ex.setfield(t.o, 'cap', ex.num(a[1]) * ex.num(a[2])); return VOID
@model('DenseMatrix', '()', 'Elem')
def _(ex, t, a, e):
    i, j = ex.num(a[0]), ex.num(a[1]); h, w = mdims(ex, t.o)
    ex.oblige('bounds', And(ge0(i), ge0(h - 1 - i), ge0(j), ge0(w - 1 - j)), 'matrix index (%s,%s) within (%s,%s)' % (show(i), show(j), show(h), show(w)), e)
    r, ix = midx(ex, t.o, i, j)
    return LElem(r, ix, 'double')
@model('DenseMatrix', '=')
def _(ex, t, a, e):
    v = a[0]
    if isinstance(v, (Poly, F)): v = ex.num(v); mset(ex, t.o, lambda i, j: v); return t
    if isinstance(v, LObj):
        if v.o is t.o: return t
        h, w = mdims(ex, v.o); mresize(ex, t.o, h, w, e)
        mset(ex, t.o, lambda i, j: mget(ex, v.o, i, j)); return t
    raise Unsupported('DenseMatrix=')
@model('DenseMatrix', '*=')
def _(ex, t, a, e): mset(ex, t.o, lambda i, j: mget(ex, t.o, i, j) * ex.num(a[0])); return t
def _msame(ex, a, b, e):
    (h, w), (h2, w2) = mdims(ex, a), mdims(ex, b)
    same(ex, h, h2, 'matrix heights agree', e); same(ex, w, w2, 'matrix widths agree', e)
@model('DenseMatrix', '+=')
def _(ex, t, a, e):
    _msame(ex, t.o, obj(a[0]), e); madd(ex, t.o, lambda i, j: mget(ex, obj(a[0]), i, j)); return t
@model('DenseMatrix', '-=')
def _(ex, t, a, e):
    _msame(ex, t.o, obj(a[0]), e); madd(ex, t.o, lambda i, j: -mget(ex, obj(a[0]), i, j)); return t
@model('DenseMatrix', 'Add')
def _(ex, t, a, e):
    _msame(ex, t.o, obj(a[1]), e); madd(ex, t.o, lambda i, j: ex.num(a[0]) * mget(ex, obj(a[1]), i, j)); return VOID
@model('DenseMatrix', 'Neg')
def _(ex, t, a, e): mset(ex, t.o, lambda i, j: -mget(ex, t.o, i, j)); return VOID
@model('DenseMatrix', 'Set')
def _(ex, t, a, e):
    if not isinstance(a[1], LObj): raise Unsupported('DenseMatrix::Set(double*)')
    h, w = mdims(ex, obj(a[1])); mresize(ex, t.o, h, w, e)
    mset(ex, t.o, lambda i, j: ex.num(a[0]) * mget(ex, obj(a[1]), i, j)); return VOID
@model('DenseMatrix', 'Transpose')
def _(ex, t, a, e):
    if not a: raise Unsupported('in-place transpose')
    h, w = mdims(ex, obj(a[0])); mresize(ex, t.o, w, h, e)
    mset(ex, t.o, lambda i, j: mget(ex, obj(a[0]), j, i)); return VOID
@model('DenseMatrix', 'AddMatrix')
def _(ex, t, a, e):
    if isinstance(a[0], LObj): s, A, r, c = ONE, obj(a[0]), a[1], a[2]
    else: s, A, r, c = ex.num(a[0]), obj(a[1]), a[2], a[3]
    h, w = mdims(ex, A)
    madd(ex, t.o, lambda i, j: s * mget(ex, A, i, j), ex.num(r), ex.num(c), h, w, e); return VOID
def _mv(tr, mode):
    def f(ex, t, a, e):
        h, w = mdims(ex, t.o)
        if tr: h, w = w, h
        x, y = a[0], a[1]
        if not isinstance(x, LObj) or not isinstance(y, LObj): raise Unsupported('Mult(double*)')
        x, y = x.o, y.o
        s = ex.num(a[2]) if len(a) > 2 else ONE
        same(ex, vsize(ex, x), w, 'matrix-vector product input size', e)
        same(ex, vsize(ex, y), h, 'matrix-vector product output size', e)
        def val(i): return s * vsum(ex, w, lambda k: (mget(ex, t.o, k, i) if tr else mget(ex, t.o, i, k)) * vget(ex, x, k))
        (vset if mode == 'set' else vadd)(ex, y, val)
        return VOID
    return f
MODELS[('DenseMatrix', 'Mult')] = _mv(False, 'set'); MODELS[('DenseMatrix', 'MultTranspose')] = _mv(True, 'set')
MODELS[('DenseMatrix', 'AddMult')] = _mv(False, 'add'); MODELS[('DenseMatrix', 'AddMultTranspose')] = _mv(True, 'add')
def _mv_a(tr):
    g = _mv(tr, 'add')
    return lambda ex, t, a, e: g(ex, t, [a[1], a[2], a[0]], e)
MODELS[('SparseMatrix', 'AddMult')] = _mv(False, 'add'); MODELS[('SparseMatrix', 'Mult')] = _mv(False, 'set')
def content_token(ex, o, nidx):
    """a name for the present content of a matrix: its entry as a formula in the index placeholders"""
    h = [P(Sym('$%d' % k)) for k in range(nidx)]; return P(mget(ex, o, *h) if nidx == 2 else vget(ex, o, *h))
@model('DenseMatrix', 'Invert')
def _(ex, t, a, e):
    h, w = mdims(ex, t.o); same(ex, h, w, 'inverse of a square matrix', e); tok = content_token(ex, t.o, 2)
    ex.note('diagonal blocks are invertible'); mset(ex, t.o, lambda i, j: P(App('inverse', tok, P(i), P(j)))); return VOID
@model('SparseMatrix', 'ToDenseMatrix')
def _(ex, t, a, e):
    h, w = mdims(ex, t.o); o = ex.newobj('mfem::DenseMatrix', 'dense'); ex.construct(o, 'mfem::DenseMatrix', [h, w], None); mset(ex, o, lambda i, j: mget(ex, t.o, i, j)); return Ptr(o)
MODELS[('DenseMatrix', 'AddMult_a')] = _mv_a(False); MODELS[('DenseMatrix', 'AddMultTranspose_a')] = _mv_a(True)
@model('DenseMatrix', 'GetColumnReference')
def _(ex, t, a, e):
    c = ex.num(a[0]); h, w = mdims(ex, t.o); v = obj(a[1])
    ex.oblige('bounds', And(ge0(c), ge0(w - 1 - c)), 'column index in range', e)
    p = ex.field(t.o, 'data')
    ex.setfield(v, 'data', Ptr(p.obj, p.off + c * h)); ex.setfield(v, 'size', h); ex.setfield(v, 'cap', h)
    return VOID
@model('DenseMatrix', 'GetColumn')
def _(ex, t, a, e):
    c = ex.num(a[0]); h, w = mdims(ex, t.o)
    ex.oblige('bounds', And(ge0(c), ge0(w - 1 - c)), 'column index in range', e)
    p = ex.field(t.o, 'data')
    if len(a) == 1: return Ptr(p.obj, p.off + c * h)
    vresize(ex, obj(a[1]), h, e); vset(ex, obj(a[1]), lambda i: mget(ex, t.o, i, c)); return VOID
@model('DenseMatrix', 'GetRow')
def _(ex, t, a, e):
    r = ex.num(a[0]); h, w = mdims(ex, t.o)
    ex.oblige('bounds', And(ge0(r), ge0(h - 1 - r)), 'row index in range', e)
    vresize(ex, obj(a[1]), w, e); vset(ex, obj(a[1]), lambda j: mget(ex, t.o, r, j)); return VOID
@model('DenseMatrix', 'SetCol')
def _(ex, t, a, e):
    c = ex.num(a[0]); h, w = mdims(ex, t.o)
    ex.oblige('bounds', And(ge0(c), ge0(w - 1 - c)), 'column index in range', e)
    same(ex, vsize(ex, obj(a[1])), h, 'SetCol size', e)
    i = Fresh('i')
    val, (r, ix) = with_range(ex, [(i, h)], lambda: (vget(ex, obj(a[1]), P(i)), midx(ex, t.o, P(i), c)))
    ex.put((r, 'content'), SetN(ex.content(r), ((i, h),), ix, val)); return VOID
@func('mfem::Mult')
def _(ex, a, e):
    b, c, r = map(obj, a)
    same(ex, mdims(ex, b)[1], mdims(ex, c)[0], 'matrix product inner extent', e)
    same(ex, mdims(ex, r)[0], mdims(ex, b)[0], 'matrix product height', e); same(ex, mdims(ex, r)[1], mdims(ex, c)[1], 'matrix product width', e)
    n = mdims(ex, b)[1]
    mset(ex, r, lambda i, j: vsum(ex, n, lambda k: mget(ex, b, i, k) * mget(ex, c, k, j))); return VOID
def _prod(op, mode, alpha):
    def f(ex, a, e):
        s = ONE
        if alpha: s = ex.num(a[0]); a = a[1:]
        x, y, r = map(obj, a)
        (hx, wx), (hy, wy) = mdims(ex, x), mdims(ex, y)
        if op == 'AB': n, n2, hr, wr = wx, hy, hx, wy; g = lambda i, j, k: mget(ex, x, i, k) * mget(ex, y, k, j)
        elif op == 'ABt': n, n2, hr, wr = wx, wy, hx, hy; g = lambda i, j, k: mget(ex, x, i, k) * mget(ex, y, j, k)
        else: n, n2, hr, wr = hx, hy, wx, wy; g = lambda i, j, k: mget(ex, x, k, i) * mget(ex, y, k, j)
        same(ex, n, n2, 'matrix product inner extent', e)
        h, w = mdims(ex, r)
        same(ex, h, hr, 'matrix product height', e); same(ex, w, wr, 'matrix product width', e)
        (mset if mode == 'set' else madd)(ex, r, lambda i, j: s * vsum(ex, n, lambda k: g(i, j, k)))
        return VOID
    return f
FUNCS['mfem::MultAtB'] = _prod('AtB', 'set', False); FUNCS['mfem::MultABt'] = _prod('ABt', 'set', False)
FUNCS['mfem::AddMult'] = _prod('AB', 'add', False); FUNCS['mfem::AddMult_a'] = _prod('AB', 'add', True)
FUNCS['mfem::AddMultABt'] = _prod('ABt', 'add', False); FUNCS['mfem::AddMult_a_ABt'] = _prod('ABt', 'add', True)
FUNCS['mfem::AddMult_a_AtB'] = _prod('AtB', 'add', True)
def _outer(vv, mode, alpha):
    def f(ex, a, e):
        s = ONE
        if alpha: s = ex.num(a[0]); a = a[1:]
        if vv: v, w, r = obj(a[0]), obj(a[0]), obj(a[1])
        else: v, w, r = map(obj, a)
        h, wd = mdims(ex, r)
        same(ex, vsize(ex, v), h, 'outer product height', e); same(ex, vsize(ex, w), wd, 'outer product width', e)
        (mset if mode == 'set' else madd)(ex, r, lambda i, j: s * vget(ex, v, i) * vget(ex, w, j))
        return VOID
    return f
FUNCS['mfem::MultVWt'] = _outer(False, 'set', False); FUNCS['mfem::AddMultVWt'] = _outer(False, 'add', False); FUNCS['mfem::AddMult_a_VWt'] = _outer(False, 'add', True)
FUNCS['mfem::MultVVt'] = _outer(True, 'set', False); FUNCS['mfem::AddMultVVt'] = _outer(True, 'add', False); FUNCS['mfem::AddMult_a_VVt'] = _outer(True, 'add', True)
@func('mfem::CalcOrtho')
def _(ex, a, e):
    J, n = obj(a[0]), obj(a[1]); h, w = mdims(ex, J)
    hc, wc = h.const(), w.const()
    if hc is None or wc is None: raise Unsupported('CalcOrtho with symbolic extents')
    same(ex, vsize(ex, n), h, 'normal vector size', e)
    ex.oblige('size', TRUE if wc == hc - 1 and hc in (2, 3) else FALSE, 'CalcOrtho needs a 2x1 or 3x2 Jacobian', e)
    g = lambda i, j: mget(ex, J, P(i), P(j))
    if hc == 2: v = [g(1, 0), -g(0, 0)]
    else: v = [g(1, 0) * g(2, 1) - g(2, 0) * g(1, 1), g(2, 0) * g(0, 1) - g(0, 0) * g(2, 1), g(0, 0) * g(1, 1) - g(1, 0) * g(0, 1)]
    vset(ex, n, lambda i: sum((Ind(Eq(i, k)) * v[k] for k in range(int(hc))), ZERO)); return VOID
@func('mfem::CalcAdjugate')
def _(ex, a, e):
    J, A = obj(a[0]), obj(a[1]); h, w = mdims(ex, J)
    _msame(ex, J, A, e)
    b = P(mget(ex, J, H[0], H[1])).atom()
    if b is not None and b.kind == 'app' and b.args[0] == 'J' and b.args[3:] == (P(H[0]), P(H[1])):
        T, ip = b.args[1], b.args[2]
        mset(ex, A, lambda i, j: P(App('weight', T, ip)) * P(App('Jinv', T, ip, i, j)))
        ex.note('adj(J) = det(J) J^-1 for the (square, nonsingular) element Jacobians')
        return VOID
    raise Unsupported('CalcAdjugate of a general matrix')

# ------------------------------------------------------------------ DenseTensor
for nm, f in (('SizeI', 'si'), ('SizeJ', 'sj'), ('SizeK', 'sk')):
    MODELS[('DenseTensor', nm)] = (lambda f: lambda ex, t, a, e: ex.field(t.o, f))(f)
@model('DenseTensor', 'Data', 'HostRead', 'Read', 'HostWrite', 'Write', 'HostReadWrite', 'ReadWrite')
def _(ex, t, a, e): return ex.field(t.o, 'data')
@model('DenseTensor', 'GetData')
def _(ex, t, a, e):
    p = ex.field(t.o, 'data'); k = ex.num(a[0])
    ex.oblige('bounds', And(ge0(k), ge0(ex.field(t.o, 'sk') - 1 - k)), 'tensor slice in range', e)
    return Ptr(p.obj, p.off + k * ex.field(t.o, 'si') * ex.field(t.o, 'sj'))
@model('DenseTensor', '()')
def _(ex, t, a, e):
    si, sj, sk = [ex.field(t.o, x) for x in ('si', 'sj', 'sk')]
    p = ex.field(t.o, 'data')
    if len(a) == 1:
        k = ex.num(a[0]); ex.oblige('bounds', And(ge0(k), ge0(sk - 1 - k)), 'tensor slice in range', e)
        m = ex.newobj('mfem::DenseMatrix', 'slice')
        ex.put((m, 'h'), si); ex.put((m, 'w'), sj); ex.put((m, 'cap'), si * sj); ex.put((m, 'data'), Ptr(p.obj, p.off + k * si * sj))
        return LObj(m, 'mfem::DenseMatrix')
    i, j, k = [ex.num(x) for x in a]
    ex.oblige('bounds', And(ge0(i), ge0(si - 1 - i), ge0(j), ge0(sj - 1 - j), ge0(k), ge0(sk - 1 - k)), 'tensor index in range', e)
    if not p.off.t and ex.shape(p.obj) == (si, sj, sk): return LElem(p.obj, (i, j, k), 'double')
    return LElem(p.obj, ex.region_index(p.obj, p.off + i + si * (j + sj * k)), 'double')
def tget(ex, o, i, j, k):
    p = ex.field(o, 'data'); return ex.read(ex.content(p.obj), (P(i), P(j), P(k)))
@ctor('DenseTensor')
def _(ex, o, args, e):
    n = [ex.num(x) for x in args] if args else [ZERO] * 3
    for f, x in zip(('si', 'sj', 'sk'), n): ex.put((o, f), x)
    ex.put((o, 'cap'), n[0] * n[1] * n[2]); set_own(ex, o, n, undef())
@model('DenseTensor', 'SetSize')
def _(ex, t, a, e):
    n = [ex.num(x) for x in a[:3]]
    ex.oblige('size', And(*[ge0(x) for x in n]), 'tensor extents are nonnegative', e)
    for f, x in zip(('si', 'sj', 'sk'), n): ex.setfield(t.o, f, x)
    set_own(ex, t.o, n, undef()); return VOID
@model('DenseTensor', '=')
def _(ex, t, a, e):
    if isinstance(a[0], (Poly, F)):
        p = ex.field(t.o, 'data'); ex.put((p.obj, 'content'), Lam(ex.num(a[0]))); return t
    raise Unsupported('tensor assignment')

# ------------------------------------------------------------------ Array
@ctor('Array')
def _(ex, o, args, e):
    t = elem_t(ex.objcls[o]); s = esort(t)
    if not args: n = ZERO
    elif isinstance(args[0], Poly): n = args[0]
    elif isinstance(args[0], LObj): copy_arr(ex, o, args[0], e); return
    elif isinstance(args[0], Ptr):
        ex.put((o, 'size'), args[1]); ex.put((o, 'data'), args[0]); ex.put((o, 'cap'), args[1]); return
    elif isinstance(args[0], tuple) and args[0][0] == 'list':
        l = args[0][1]; ex.put((o, 'size'), P(len(l))); c = undef(s)
        for i, v in enumerate(l):
            if isinstance(v, (LVar, LElem)): v = ex.load(v)
            c = SetN(c, (), (P(i),), ex.to_content(v))
        set_own(ex, o, (P(len(l)),), c); ex.put((o, 'cap'), P(len(l))); return
    else: raise Unsupported('Array ctor')
    ex.oblige('size', ge0(n), 'array size is nonnegative', e)
    ex.put((o, 'size'), n); set_own(ex, o, (n,), undef(s)); ex.put((o, 'cap'), n)
def copy_arr(ex, o, s, e):
    s = obj(s); n = vsize(ex, s)
    ex.put((o, 'size'), n); p = ex.field(s, 'data'); srt = arr_sort(ex.content(p.obj))
    set_own(ex, o, (n,), undef(srt)); ex.put((o, 'cap'), n)
    fs = ex.soa_fields(elem_t(ex.objcls[o])) if 'Array' in (ex.objcls.get(o) or '') else None
    if fs:
        if p.off.t or not full_v(ex, s): raise Unsupported('copy of a part of an array of structures')
        for f in fs: ex.put((ex.soa_region(App('reg', o, sort='obj'), f), 'content'), ex.content(ex.soa_region(p.obj, f)))
        return
    if not p.off.t and full_v(ex, s): ex.put((App('reg', o, sort='obj'), 'content'), ex.content(p.obj)); return
    vset(ex, o, lambda i: vget(ex, s, i))
MODELS[('copy', 'Array')] = copy_arr
@model('Array', 'Size')
def _(ex, t, a, e): return vsize(ex, t.o)
@model('Array', 'SetSize')
def _(ex, t, a, e):
    n = ex.num(a[0]); old = vsize(ex, t.o); s = esort(elem_t(ex.objcls[t.o]))
    ex.oblige('size', ge0(n), 'array size is nonnegative', e)
    if old == n or ex.ctx.entails(Eq(old, n)): return VOID
    p = ex.field(t.o, 'data'); c = ex.content(p.obj)
    # leading entries survive, new entries are undefined (or the given value)
    new = ex.to_content(a[1]) if len(a) > 1 else None
    if isinstance(new, (LVar, LElem)): new = ex.to_content(ex.load(new, e))
    if old.const() == 0:
        cc = Lam(new, s) if new is not None else undef(s)
    elif ex.ctx.entails(ge0(old - n)): cc = c
    else:
        i = Fresh('i')
        base = Lam(new, s) if new is not None else undef(s)
        cc = SetN(base, ((i, old),), (P(i),), ex.read(c, (P(i),)))
    ex.setfield(t.o, 'size', n); set_own(ex, t.o, (n,), cc); return VOID
@model('Array', 'Read', 'HostRead', 'Write', 'HostWrite', 'ReadWrite', 'HostReadWrite', 'GetData', 'begin')
def _(ex, t, a, e): return ex.field(t.o, 'data')
@model('Array', 'end')
def _(ex, t, a, e):
    p = ex.field(t.o, 'data'); return Ptr(p.obj, p.off + vsize(ex, t.o))
@model('Array', '[]')
def _(ex, t, a, e):
    i = ex.num(a[0]); n = vsize(ex, t.o)
    ex.oblige('bounds', And(ge0(i), ge0(n - 1 - i)), 'array index %s < %s' % (show(i), show(n)), e)
    r, ix = vidx(ex, t.o, i)
    return LElem(r, ix, elem_t(ex.objcls[t.o]))
@model('Array', '=')
def _(ex, t, a, e):
    v = a[0]
    if isinstance(v, (LVar, LElem)): v = ex.load(v, e)
    if isinstance(v, LObj) and tmpl(ex.objcls.get(v.o) or v.cls)[0] == 'Array':
        if v.o is t.o: return t
        copy_arr(ex, t.o, v, e); return t
    c = ex.to_content(v)
    vset(ex, t.o, lambda i: c); return t
@model('Array', 'Append')
def _(ex, t, a, e):
    v = a[0]; n = vsize(ex, t.o)
    if isinstance(v, (LVar, LElem)): v = ex.load(v, e)
    p = ex.field(t.o, 'data'); c = ex.content(p.obj)
    if isinstance(v, LObj) and tmpl(ex.objcls.get(v.o) or v.cls)[0] == 'Array':
        m = vsize(ex, v.o); i = Fresh('i')
        val = with_range(ex, [(i, m)], lambda: vget(ex, v.o, P(i)))
        cc = SetN(c, ((i, m),), (n + P(i),), val); nn = n + m
    elif ex.soa_fields(elem_t(ex.objcls[t.o])):
        nn = n + 1; ex.setfield(t.o, 'size', nn); set_own(ex, t.o, (nn,), c); r, ix = vidx(ex, t.o, n); ex.store(LElem(r, ix, elem_t(ex.objcls[t.o])), v, e); return nn
    else:
        cc = SetN(c, (), (n,), ex.to_content(v)); nn = n + 1
    ex.setfield(t.o, 'size', nn); set_own(ex, t.o, (nn,), cc); return nn
@model('Array', 'Last')
def _(ex, t, a, e):
    n = vsize(ex, t.o); ex.oblige('bounds', gt0(n), 'Last() of a nonempty array', e)
    r, ix = vidx(ex, t.o, n - 1); return LElem(r, ix, elem_t(ex.objcls[t.o]))
@model('Array', 'DeleteAll')
def _(ex, t, a, e):
    ex.setfield(t.o, 'size', ZERO); set_own(ex, t.o, (ZERO,), undef(esort(elem_t(ex.objcls[t.o])))); return VOID
@model('Array', 'PartialSum')
def _(ex, t, a, e):
    n = vsize(ex, t.o); c = ex.content(ex.field(t.o, 'data').obj); q = Fresh('q')
    f = with_range(ex, [(q, n)], lambda: vget(ex, t.o, P(q)))
    vset(ex, t.o, lambda i: vsum(ex, i + 1, lambda k: subst(P(f), {q: P(k)}))); return VOID
def _extremum(sgn):
    def f(ex, t, a, e):
        n = vsize(ex, t.o)
        ex.oblige('bounds', gt0(n), 'Min/Max of a nonempty array', e)
        if n.const() is not None and n.const() <= 6:
            r = vget(ex, t.o, ZERO)
            for k in range(1, int(n.const())): r = (Min if sgn > 0 else Max)(r, vget(ex, t.o, P(k)))
            return r
        p = ex.field(t.o, 'data'); body = ex.read(ex.content(p.obj), (p.off + P(H[0]),))
        at = App('argext', 'min' if sgn > 0 else 'max', subst(P(body), {H[0]: P(Sym('$0'))}), n, sort='int'); m = P(vget(ex, t.o, P(at)))
        # every element is >= (Min) / <= (Max) the extremum: instantiated at element reads
        ex.forall(P(body), H[0], n, lambda x: ge0((x - m) * sgn), key=at)
        return m
    return f
MODELS[('Array', 'Min')] = _extremum(1); MODELS[('Array', 'Max')] = _extremum(-1)

# ------------------------------------------------------------------ Array2D
@ctor('Array2D')
def _(ex, o, args, e):
    s = esort(elem_t(ex.objcls[o]))
    h, w = (args[0], args[1]) if args else (ZERO, ZERO)
    ex.put((o, 'h'), h); ex.put((o, 'w'), w); set_own(ex, o, (h, w), undef(s))
@model('Array2D', 'SetSize')
def _(ex, t, a, e):
    h, w = ex.num(a[0]), ex.num(a[1]); s = esort(elem_t(ex.objcls[t.o]))
    ch, cw = mdims(ex, t.o)
    if ex.ctx.entails(And(Eq(ch, h), Eq(cw, w))): return VOID
    ex.setfield(t.o, 'h', h); ex.setfield(t.o, 'w', w); set_own(ex, t.o, (h, w), undef(s)); return VOID
@model('Array2D', '()')
def _(ex, t, a, e):
    i, j = ex.num(a[0]), ex.num(a[1]); h, w = mdims(ex, t.o)
    ex.oblige('bounds', And(ge0(i), ge0(h - 1 - i), ge0(j), ge0(w - 1 - j)), 'array index (%s,%s) within (%s,%s)' % (show(i), show(j), show(h), show(w)), e)
    r, ix = midx(ex, t.o, i, j)
    return LElem(r, ix, elem_t(ex.objcls[t.o]))
@model('Array2D', '=')
def _(ex, t, a, e):
    v = a[0]
    if isinstance(v, (LVar, LElem)): v = ex.load(v, e)
    if isinstance(v, LObj) and tmpl(v.cls)[0] == 'Array2D':
        h, w = mdims(ex, v.o); ex.setfield(t.o, 'h', h); ex.setfield(t.o, 'w', w); set_own(ex, t.o, (h, w), undef(esort(elem_t(ex.objcls[t.o]))))
        mset(ex, t.o, lambda i, j: mget(ex, v.o, i, j)); return t
    c = ex.to_content(v); mset(ex, t.o, lambda i, j: c); return t

# ------------------------------------------------------------------ SparseMatrix (dense view)
@ctor('SparseMatrix')
def _(ex, o, args, e):
    if len(args) in (1, 2) and isinstance(args[0], Poly):
        h = args[0]; w = args[1] if len(args) > 1 else args[0]
        ex.put((o, 'h'), h); ex.put((o, 'w'), w); set_own(ex, o, (h, w), Lam(ZERO)); ex.put((o, 'final'), FALSE); return
    raise Unsupported('SparseMatrix ctor')
def _sp(kind):
    def f(ex, t, a, e):
        i, j, v = [ex.num(x) for x in a[:3]]; h, w = mdims(ex, t.o)
        ex.oblige('bounds', And(ge0(i), ge0(h - 1 - i), ge0(j), ge0(w - 1 - j)), 'sparse entry in range', e)
        r, ix = midx(ex, t.o, i, j)
        if kind == 'add': ex.add_elem(LElem(r, ix, 'double'), v, e)
        else: ex.store(LElem(r, ix, 'double'), v, e)
        return VOID
    return f
MODELS[('SparseMatrix', 'Add')] = _sp('add'); MODELS[('SparseMatrix', 'Set')] = _sp('set')
@model('SparseMatrix', 'Finalize')
def _(ex, t, a, e): ex.setfield(t.o, 'final', TRUE); return VOID
@model('SparseMatrix', 'Finalized')
def _(ex, t, a, e): return ex.field(t.o, 'final')
@model('SparseMatrix', '+=')
def _(ex, t, a, e):
    _msame(ex, t.o, obj(a[0]), e); madd(ex, t.o, lambda i, j: mget(ex, obj(a[0]), i, j)); return t
@model('SparseMatrix', 'AddSubMatrix')
def _(ex, t, a, e):
    rows, cols, sub = obj(a[0]), obj(a[1]), obj(a[2])
    nr, nc = vsize(ex, rows), vsize(ex, cols)
    same(ex, mdims(ex, sub)[0], nr, 'AddSubMatrix rows', e); same(ex, mdims(ex, sub)[1], nc, 'AddSubMatrix cols', e)
    i = Fresh('i'); j = Fresh('j')
    def f():
        r, c = vget(ex, rows, P(i)), vget(ex, cols, P(j)); h, w = mdims(ex, t.o)
        ex.oblige('bounds', And(ge0(r), ge0(h - 1 - r), ge0(c), ge0(w - 1 - c)), 'AddSubMatrix target in range', e)
        return mget(ex, sub, P(i), P(j)), midx(ex, t.o, r, c)
    val, (r, ix) = with_range(ex, [(i, nr), (j, nc)], f)
    ex.put((r, 'content'), ex.mk_add(ex.content(r), ((j, nc), (i, nr)), ix, P(val))); return VOID

# ------------------------------------------------------------------ Operator (linear, opaque matrix entries)
def op_entry(ex, o, i, j):
    c = tmpl(ex.objcls.get(o, ''))[0]
    if c in ('DenseMatrix', 'SparseMatrix'): return mget(ex, o, i, j)
    return P(App('opent', o, P(i), P(j)))
def _op(tr):
    def f(ex, t, a, e):
        h, w = ex.field(t.o, 'h'), ex.field(t.o, 'w')
        if tr: h, w = w, h
        x, y = obj(a[0]), obj(a[1])
        same(ex, vsize(ex, x), w, 'operator input size', e); same(ex, vsize(ex, y), h, 'operator output size', e)
        vset(ex, y, lambda i: vsum(ex, w, lambda k: (op_entry(ex, t.o, k, i) if tr else op_entry(ex, t.o, i, k)) * vget(ex, x, k)))
        return VOID
    return f
for c in ('Operator', 'SparseMatrix', 'Matrix'):
    MODELS[(c, 'Mult')] = _op(False); MODELS[(c, 'MultTranspose')] = _op(True)

# ------------------------------------------------------------------ finite elements, transformations, quadrature
def dimof(ex, o):
    d = ex.opts.get('dim')
    if d is None: raise Unsupported('unit without a space dimension')
    return P(d - 1 if o in ex.lowdim else d)
@model('FiniteElement', 'GetDim')
def _(ex, t, a, e): return dimof(ex, t.o)
@model('FiniteElement', 'GetDof')
def _(ex, t, a, e): return P(App('dof', t.o, sort='int'))
@model('FiniteElement', 'GetOrder')
def _(ex, t, a, e): return P(App('order', t.o, sort='int'))
@model('FiniteElement', 'GetGeomType')
def _(ex, t, a, e): return P(App('geom', t.o, sort='int'))
@model('FiniteElement', 'Space')
def _(ex, t, a, e): return P(App('space', t.o, sort='int'))
@model('FiniteElement', 'GetMapType')
def _(ex, t, a, e): return P(App('maptype', t.o, sort='int'))
@model('FiniteElement', 'CalcShape')
def _(ex, t, a, e):
    v = ipv(ex, obj(a[0])); s = obj(a[1])
    same(ex, vsize(ex, s), P(App('dof', t.o, sort='int')), 'CalcShape output size', e)
    vset(ex, s, lambda i: P(App('shape', t.o, v, i))); return VOID
def dsh(el, ip, i, d): return P(App('dshape', el, ip, P(i), P(d)))
@model('FiniteElement', 'CalcDShape')
def _(ex, t, a, e):
    v = ipv(ex, obj(a[0])); s = obj(a[1]); h, w = mdims(ex, s)
    same(ex, h, P(App('dof', t.o, sort='int')), 'CalcDShape output height', e); same(ex, w, dimof(ex, t.o), 'CalcDShape output width', e)
    mset(ex, s, lambda i, j: dsh(t.o, v, i, j)); return VOID
def trip(ex, T): return ex.field(T, 'ip')
@model('FiniteElement', 'CalcPhysDShape')
def _(ex, t, a, e):
    T = obj(a[0]); v = trip(ex, T); s = obj(a[1]); h, w = mdims(ex, s); d = dimof(ex, t.o)
    same(ex, h, P(App('dof', t.o, sort='int')), 'CalcPhysDShape output height', e); same(ex, w, d, 'CalcPhysDShape output width', e)
    mset(ex, s, lambda i, j: sum((dsh(t.o, v, i, k) * P(App('Jinv', T, v, P(k), j)) for k in range(int(d.const()))), ZERO)); return VOID
@model('FiniteElement', 'CalcPhysShape')
def _(ex, t, a, e):
    T = obj(a[0]); v = trip(ex, T); s = obj(a[1])
    same(ex, vsize(ex, s), P(App('dof', t.o, sort='int')), 'CalcPhysShape output size', e)
    vset(ex, s, lambda i: P(App('shape', t.o, v, i))); return VOID
def lz_tr(ex, o, f):
    if f == 'ip': return App('unset_ip', o, sort='obj')
    if f == 'Face': return Ptr(o)
    if f in ('Elem1', 'Elem2'):
        q = App('fld_' + f, o, sort='obj'); ex.objcls[q] = 'mfem::ElementTransformation'
        if f == 'Elem1': ex.nonnulls.add(q)
        return Ptr(q)
    if f in ('Elem1No', 'Elem2No', 'ElementNo', 'Attribute'): return P(App('fld_' + f, o, sort='int'))
LAZY['ElementTransformation'] = lz_tr; LAZY['FaceElementTransformations'] = lz_tr; LAZY['IsoparametricTransformation'] = lz_tr
for TR in ('ElementTransformation', 'FaceElementTransformations', 'IsoparametricTransformation'):
    @model(TR, 'SetIntPoint')
    def _(ex, t, a, e): ex.setfield(t.o, 'ip', ipv(ex, obj(a[0]))); return VOID
    @model(TR, 'GetIntPoint')
    def _(ex, t, a, e):
        o = App('ipof', t.o, sort='obj'); ex.objcls[o] = 'mfem::IntegrationPoint'; ex.put((o, 'val'), trip(ex, t.o)); return LObj(o, 'mfem::IntegrationPoint')
    @model(TR, 'Weight')
    def _(ex, t, a, e): return P(App('weight', t.o, trip(ex, t.o)))
    def _jac(name, scale=False):
        def f(ex, t, a, e):
            d = P(ex.opts['dim']); face = t.o in ex.lowdim or ex.objcls.get(t.o, '').endswith('FaceElementTransformations')
            m = App('jac' + name, t.o, sort='obj'); ex.objcls[m] = 'mfem::DenseMatrix'
            w = d - 1 if face else d
            hw = (w, d) if name != 'J' else (d, w)
            ip = trip(ex, t.o)
            ex.put((m, 'h'), hw[0]); ex.put((m, 'w'), hw[1]); ex.put((m, 'cap'), hw[0] * hw[1])
            body = P(App('J' if name == 'J' else 'Jinv', t.o, ip, P(A0), P(A1)))
            if scale: body = body * P(App('weight', t.o, ip))
            set_own(ex, m, hw, Lam(body))
            return LObj(m, 'mfem::DenseMatrix')
        return f
    MODELS[(TR, 'Jacobian')] = _jac('J'); MODELS[(TR, 'InverseJacobian')] = _jac('Jinv'); MODELS[(TR, 'AdjugateJacobian')] = _jac('Adj', True)
    @model(TR, 'OrderW', 'Order', 'OrderJ')
    def _(ex, t, a, e): return P(App('tr' + e['m'], t.o, sort='int'))
    @model(TR, 'OrderGrad')
    def _(ex, t, a, e): return P(App('trOrderGrad', t.o, obj(a[0]), sort='int'))
    @model(TR, 'GetGeometryType')
    def _(ex, t, a, e): return P(App('trgeom', t.o, sort='int'))
    @model(TR, 'GetSpaceDim')
    def _(ex, t, a, e): return P(ex.opts['dim'])
    @model(TR, 'GetDimension')
    def _(ex, t, a, e):
        face = t.o in ex.lowdim or ex.objcls.get(t.o, '').endswith('FaceElementTransformations')
        return P(ex.opts['dim']) - (1 if face else 0)
@model('FaceElementTransformations', 'SetAllIntPoints')
def _(ex, t, a, e):
    v = ipv(ex, obj(a[0])); ex.setfield(t.o, 'ip', v)
    for k in (1, 2):
        q = App('eip%dobj' % k, t.o, sort='obj'); ex.objcls[q] = 'mfem::IntegrationPoint'
        val = App('eip%d' % k, t.o, v, sort='obj'); ex.objcls[val] = 'mfem::IntegrationPoint'
        ex.setfield(q, 'val', val)
        for f in ('x', 'y', 'z'): ex.setfield(q, f, P(App('ip' + f, val)))
        E = ex.field(t.o, 'Elem%d' % k)
        if E.obj is not None: ex.setfield(E.obj, 'ip', val)
    return VOID
for k in (1, 2):
    @model('FaceElementTransformations', 'GetElement%dIntPoint' % k)
    def _(ex, t, a, e, k=k):
        q = App('eip%dobj' % k, t.o, sort='obj'); ex.objcls[q] = 'mfem::IntegrationPoint'
        return LObj(q, 'mfem::IntegrationPoint')
    @model('FaceElementTransformations', 'GetElement%dTransformation' % k)
    def _(ex, t, a, e, k=k):
        return LObj(ex.field(t.o, 'Elem%d' % k).obj, 'mfem::ElementTransformation')
@model('IntegrationRule', 'GetNPoints', 'Size')
def _(ex, t, a, e): return P(App('nq', t.o, sort='int'))
@model('IntegrationRule', 'IntPoint', '[]')
def _(ex, t, a, e):
    i = ex.num(a[0]); n = P(App('nq', t.o, sort='int'))
    ex.oblige('bounds', And(ge0(i), ge0(n - 1 - i)), 'quadrature point index in range', e)
    q = App('qpt', t.o, i, sort='obj'); ex.objcls[q] = 'mfem::IntegrationPoint'
    return LObj(q, 'mfem::IntegrationPoint')
@model('IntegrationRules', 'Get')
def _(ex, t, a, e):
    q = App('qrule', t.o, ex.num(a[0]), ex.num(a[1]), sort='obj'); ex.objcls[q] = 'mfem::IntegrationRule'; ex.last_rule = q
    return LObj(q, 'mfem::IntegrationRule')
@model('NonlinearFormIntegrator', 'GetIntegrationRule')
def _(ex, t, a, e): return ex.field(t.o, 'IntRule', 'const mfem::IntegrationRule *')
@model('Coefficient', 'Eval')
def _(ex, t, a, e): return P(App('coef', t.o, obj(a[0]), ipv(ex, obj(a[1]))))
@model('VectorCoefficient', 'GetVDim')
def _(ex, t, a, e): return P(App('vdim', t.o, sort='int'))
@model('VectorCoefficient', 'Eval')
def _(ex, t, a, e):
    v = obj(a[0]); d = P(ex.opts.get('vcdim', ex.opts.get('dim')))
    vresize(ex, v, d, e)
    vset(ex, v, lambda i: P(App('vcoef', t.o, obj(a[1]), ipv(ex, obj(a[2])), i))); return VOID
@model('MatrixCoefficient', 'Eval')
def _(ex, t, a, e):
    m = obj(a[0]); d = dimof(ex, t.o)
    mresize(ex, m, d, d, e)
    mset(ex, m, lambda i, j: P(App('mcoef', t.o, obj(a[1]), ipv(ex, obj(a[2])), i, j))); return VOID

# ------------------------------------------------------------------ C / C++ runtime
@func('sqrt', 'std::sqrt')
def _(ex, a, e): return Sqrt(ex.num(a[0]))
@func('fabs', 'std::abs', 'abs', 'std::fabs')
def _(ex, a, e): return Abs(ex.num(a[0]))
@func('std::isnan', 'isnan')
def _(ex, a, e): ex.note('floating-point numbers are treated as real numbers'); return FALSE
@func('std::max')
def _(ex, a, e):
    x, y = [ex.load(v, e) if isinstance(v, (LVar, LElem)) else v for v in a[:2]]
    return Max(ex.num(x), ex.num(y))
@func('std::min')
def _(ex, a, e):
    x, y = [ex.load(v, e) if isinstance(v, (LVar, LElem)) else v for v in a[:2]]
    return Min(ex.num(x), ex.num(y))
@func('pow', 'std::pow')
def _(ex, a, e):
    b, n = ex.num(a[0]), ex.num(a[1]); c = n.const()
    if c is not None and c.denominator == 1 and 0 <= c <= 6: return b ** int(c)
    if c == Fraction(1, 2): return Sqrt(b)
    return P(App('pow', b, n))
@func('ceil', 'floor')
def _(ex, a, e):
    v = ex.num(a[0])
    if v.is_int(): return v
    r = P(App(e['name'], v, sort='int'))
    if e['name'].split('::')[-1] == 'ceil': ex.ctx.assume(ge0(r - v))
    else: ex.ctx.assume(ge0(v - r))
    return r
@func('printf', 'mfem::mfem_warning', 'fprintf', 'puts', 'fflush')
def _(ex, a, e): return VOID

# ------------------------------------------------------------------ TimeProfiler (contract proved under P17)
def _timer(start):
    def f(ex, a, e):
        o = obj(a[0]); s = code_str(ex.str_val(a[1]))
        if s is None: return None
        k = 'running:' + s
        v = ex.get((o, k))
        if v is None: v = FALSE
        if start: ex.oblige('pre', Not(v), 'timer "%s" is not already running' % s, e)
        else: ex.oblige('pre', v, 'timer "%s" is running' % s, e)
        ex.setfield(o, k, TRUE if start else FALSE)
        return VOID
    return f
CONTRACTS['TimeProfiler::Start'] = _timer(True); CONTRACTS['TimeProfiler::Stop'] = _timer(False)

def _opaque(ex, o, args, e): ex.objcls.setdefault(o, 'opaque')
CTORS['TimeProfiler'] = _opaque; CTORS['BlockVector'] = _opaque
CTORS['std::basic_ostringstream'] = CTORS['basic_ostringstream'] = _opaque
def _oss(ex, t, a, e): return P(App('message', Fresh('text'), sort='int'))
MODELS[('basic_ostringstream', 'str')] = MODELS[('std::basic_ostringstream', 'str')] = _oss
