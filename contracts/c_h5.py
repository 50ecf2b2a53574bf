"""P11: what is written to an HDF5 file reads back equal.  Ghost file: a table of datasets and attributes by place (group, name).  A dataset keeps its extents, its
type and the memory image that was written (content, extents and storage order of the region); reading it into a region of the same extents and order gives
back the content.  Every unit runs the writer and then the reader of the real code."""
from vc.unit import *
from contracts import c_input, c_smooth, c_eqp
H5F = (_os := __import__('os')).path.join(_os.path.dirname(_os.path.abspath(__file__)), 'inst', 'h5.cpp')
H5 = (H5F, 'src/hdf5_utils.cpp')
STR = c_input.STR
def tab(ex): return ex.opts.setdefault('h5', {})
def place(ex, kind, loc, name):
    p = P(App('h5' + kind, P(ex.num(loc)), P(ex.str_val(name)), sort='int')); ex.ctx.assume(ge0(p)); return p
def _straight(ex, e):
    if ex.loopsyms: raise Unsupported('HDF5 call in a loop at %s' % ex.where(e))
TYPES = {'int': 'H5T_NATIVE_INT_g', 'double': 'H5T_NATIVE_DOUBLE_g', 'bool': 'H5T_NATIVE_HBOOL_g', 'string': 'string'}
def tid(n): return P(App('h5type', n, sort='int'))
FUNCS['H5check_version'] = FUNCS['H5open'] = lambda ex, a, e: ZERO
def _group(new):
    def f(ex, a, e):
        p = place(ex, 'g', a[0], a[1]); h = ex.opts.get('on_group')
        if h: h(ex, p, new, e)
        return p
    return f
FUNCS['H5Gcreate2'] = _group(True); FUNCS['H5Gopen2'] = _group(False)
FUNCS['H5Fcreate'] = FUNCS['H5Fopen'] = lambda ex, a, e: place(ex, 'f', ZERO, a[0])
for _f in ('H5Fclose', 'H5Gclose', 'H5Dclose', 'H5Aclose', 'H5Sclose', 'H5Tclose'): FUNCS[_f] = lambda ex, a, e: ZERO
def _space(ex, a, e):
    _straight(ex, e); n = ex.num(a[0]).const()
    if n is None: raise Unsupported('rank of a dataspace')
    i = P(Fresh('space', 'int')); ex.ctx.assume(ge0(i)); p = a[1]; d = tuple(P(ex.read(ex.content(p.obj), ex.region_index(p.obj, p.off + k))) for k in range(int(n)))
    ex.oblige('bounds', ge0(ex.shape(p.obj)[0] - p.off - n), 'as many extents as the rank', e)
    for x in d: ex.oblige('pre', ge0(x), 'extents are nonnegative', e)
    ex.opts.setdefault('spaces', {})[i.atom()] = d; return i
FUNCS['H5Screate_simple'] = _space
FUNCS['H5Screate'] = lambda ex, a, e: P(App('h5scalar', sort='int')) if True else None
def _dcreate(ex, a, e):
    _straight(ex, e); p = place(ex, 'd', a[0], a[1]); ex.oblige('pre', FALSE if p in tab(ex) else TRUE, 'the name is used once', e); tab(ex)[p] = {'dims': ex.opts['spaces'][P(ex.num(a[3])).atom()], 'type': ex.num(a[2]), 'raw': None}; return p
FUNCS['H5Dcreate2'] = _dcreate
def rec(ex, i, e):
    r = tab(ex).get(P(ex.num(i)))
    if r is None: ex.oblige('pre', FALSE, 'what is read was written under this name', e); raise Infeasible()
    return r
def _dopen(ex, a, e): _straight(ex, e); p = place(ex, 'd', a[0], a[1]); rec(ex, p, e); return p
FUNCS['H5Dopen2'] = _dopen
def _getspace(ex, a, e): i = P(Fresh('space', 'int')); ex.ctx.assume(ge0(i)); ex.opts.setdefault('spaces', {})[i.atom()] = rec(ex, a[0], e)['dims']; return i
FUNCS['H5Dget_space'] = _getspace
FUNCS['H5Sget_simple_extent_ndims'] = lambda ex, a, e: P(len(ex.opts['spaces'][P(ex.num(a[0])).atom()]))
def _getdims(ex, a, e):
    d = ex.opts['spaces'][P(ex.num(a[0])).atom()]; p = a[1]; ex.oblige('bounds', ge0(ex.shape(p.obj)[0] - p.off - len(d)), 'room for the extents', e)
    for k, x in enumerate(d): ex.store(LElem(p.obj, ex.region_index(p.obj, p.off + k), 'int'), x, e)
    return P(len(d))
FUNCS['H5Sget_simple_extent_dims'] = _getdims
def layout(ex, r):
    o = r.args[1] if r.kind == 'app' and r.args[0] == 'reg' else None; c = ex.objcls.get(o) or ''
    return 'C' if 'Array2D' in c else 'F', ({'Vector': 'double', 'DenseMatrix': 'double', 'DenseTensor': 'double'}.get(tmpl(c)[0]) or M.elem_t(c)) if c else {'real': 'double', 'int': 'int', 'bool': 'bool'}.get(arr_sort(ex.content(r)))
def total(d):
    n = P(1)
    for x in d: n = n * x
    return n
def _mem(ex, p, n, ty, e):
    """the memory that is transferred: the whole region, of the element type of the transfer"""
    if p.off.t: raise Unsupported('transfer of a part of an object')
    o, el = layout(ex, p.obj); sh = ex.shape(p.obj)
    ex.oblige('pre', TRUE if ty == tid(TYPES[el]) else FALSE, 'the memory type of the transfer is that of the entries (%s)' % el, e)
    return o, sh
def _dwrite(ex, a, e):
    _straight(ex, e); r = rec(ex, a[0], e); p = a[5]; o, sh = _mem(ex, p, None, ex.num(a[1]), e); d = r['dims']
    if sorted(map(str, d)) == sorted(map(str, sh)): ex.ok('bounds')
    else: ex.oblige('bounds', Eq(total(d), total(sh)), 'the extents of the dataset are those of the object', e)
    ex.oblige('pre', TRUE if r['type'] == ex.num(a[1]) else FALSE, 'the dataset has the type of the entries', e); r['raw'] = (ex.content(p.obj), sh, o); return ZERO
FUNCS['H5Dwrite'] = _dwrite
def _dread(ex, a, e):
    _straight(ex, e); r = rec(ex, a[0], e); p = a[5]; o, sh = _mem(ex, p, None, ex.num(a[1]), e); raw = r['raw']; d = r['dims']
    ex.oblige('pre', TRUE if r['type'] == ex.num(a[1]) else FALSE, 'the dataset has the type of the entries', e)
    if sorted(map(str, d)) == sorted(map(str, sh)): ex.ok('bounds')
    else: ex.oblige('bounds', ge0(total(sh) - total(d)), 'the object has room for the dataset', e)
    if raw is None: ex.oblige('pre', Eq(total(d), 0), 'the dataset that is read was written', e); return ZERO
    c, s, oo = raw
    same = lambda x, y: len(x) == len(y) and all(u_ == v_ or ex.ctx.entails(Eq(u_, v_)) for u_, v_ in zip(x, y))
    if same(s, sh) and (o == oo or len(s) == 1): ex.put((p.obj, 'content'), c)
    elif same(s, tuple(reversed(sh))) and o != oo: ex.put((p.obj, 'content'), Lam(ex.read(c, tuple(P(x) for x in reversed((A0, A1, A2)[:len(s)]))), arr_sort(c)))
    else: ex.put((p.obj, 'content'), Base(Fresh('other_extents', 'obj'), arr_sort(c)))
    return ZERO
FUNCS['H5Dread'] = _dread
# ---- attributes
def _acreate(ex, a, e): _straight(ex, e); p = place(ex, 'a', a[0], a[1]); ex.oblige('pre', FALSE if p in tab(ex) else TRUE, 'the name is used once', e); tab(ex)[p] = {'type': ex.num(a[2]), 'val': None}; return p
FUNCS['H5Acreate2'] = _acreate
def _aopen(ex, a, e): _straight(ex, e); p = place(ex, 'a', a[0], a[1]); rec(ex, p, e); return p
FUNCS['H5Aopen_name'] = _aopen
FUNCS['H5Aget_type'] = lambda ex, a, e: rec(ex, a[0], e)['type']
FUNCS['H5Tcreate'] = lambda ex, a, e: tid('string')
def elem_of(ex, l): t = l.t if isinstance(l, (LVar, LElem)) else ''; return 'string' if is_str(t) else norm_type(t)[0]
def _scalar(ex, p, ty, e):
    l = ex.deref(p, e); t = elem_of(ex, l)
    if t not in TYPES: raise Unsupported('attribute of type %s' % t)
    ex.oblige('pre', TRUE if ty == tid(TYPES[t]) else FALSE, 'the memory type of the transfer is that of the value (%s)' % t, e); return l
def _awrite(ex, a, e):
    r = rec(ex, a[0], e); l = _scalar(ex, a[2], ex.num(a[1]), e); ex.oblige('pre', TRUE if r['type'] == ex.num(a[1]) else FALSE, 'the attribute has the type of the value', e); r['val'] = ex.load(l, e); return ZERO
FUNCS['H5Awrite'] = _awrite
def _aread(ex, a, e):
    r = rec(ex, a[0], e); l = _scalar(ex, a[2], ex.num(a[1]), e); ex.oblige('pre', TRUE if r['type'] == ex.num(a[1]) else FALSE, 'the attribute has the type of the value', e)
    if r['val'] is None: ex.oblige('pre', FALSE, 'the attribute that is read was written', e); raise Infeasible()
    ex.store(l, r['val'], e); return ZERO
FUNCS['H5Aread'] = _aread
FUNCS['H5Lexists'] = lambda ex, a, e: P(App('h5exists', P(ex.num(a[0])), P(ex.str_val(a[1])), sort='int'))
@M.model('Array2D', 'GetRow')
def _(ex, t, a, e):
    if len(a) == 1:
        i = ex.num(a[0]); p = ex.field(t.o, 'data')
        if p.off.t: raise Unsupported('GetRow')
        if i.t or i.const() != 0: ex.oblige('bounds', And(ge0(i), ge0(ex.field(t.o, 'h') - 1 - i)), 'row index', e)
        return p if not i.t and i.const() == 0 and not ex.opts.get('rows') else ex.row(p.obj, (i,))
    raise Unsupported('GetRow into an array')
for _m, _f in (('NumRows', 'h'), ('NumCols', 'w')): MODELS.setdefault(('Array2D', _m), (lambda f: lambda ex, t, a, e: ex.field(t.o, f))(_f))
def globs(u):
    ex = u.ex; ex.opts['globals'] = {v: (lambda n: lambda ex_, e: tid(n))(v) for k, v in TYPES.items()}; ex.note('HDF5 calls succeed; a dataset read into memory of the same type, extents and storage order gives back the memory image that was written')
    src = u.int('file', 0); key = ('v', 0, 'source'); ex.put(key, src); return LVar(key, 'long')
def sig3(cls): return lambda f: cls in f['params'][-1]['t']
ARGS = {'Array': 'mfem::Array<%s>', 'Array2D': 'mfem::Array2D<%s>'}
def equal(u, a, b, s0, kind):
    """b (now) has the extents and the entries that a had when it was written"""
    ex = u.ex; old = lambda f: u.at(s0, f)
    fs = {'Array': ('size',), 'Vector': ('size',), 'Array2D': ('h', 'w'), 'DenseMatrix': ('h', 'w'), 'DenseTensor': ('si', 'sj', 'sk')}[kind]
    n = [old(lambda f=f: ex.field(a.o, f)) for f in fs]
    for f, x in zip(fs, n): u.ensure(Eq(ex.field(b.o, f), x), 'the extent %s' % f)
    ix = tuple(P(Sym('entry%d' % k, 'int')) for k in range(len(fs)))
    for i, x in zip(ix, n): u.assume(ge0(i)); u.assume(ge0(x - 1 - i))
    if ex.ctx.infeasible(): return
    g = lambda o: (vget(ex, o, *ix) if len(ix) == 1 else mget(ex, o, *ix) if len(ix) == 2 else tget(ex, o, *ix))
    x, y = g(b.o), old(lambda: g(a.o))
    if isinstance(x, F) or isinstance(y, F): u.ensure(And(Implies(x, y), Implies(y, x)), 'every entry')
    else: u.eq(x, y, 'every entry')
def trip(u, kind, ty, cls, q=''):
    ex = u.ex; f = globs(u); n = u.int('name', 0); a = u.obj('written', cls); b = u.obj('receiving', cls)
    for o in (a, b):
        for x in ('size', 'h', 'w', 'si', 'sj', 'sk'):
            try: u.assume(ge0(ex.field(o.o, x)))
            except Exception: pass
    if kind == 'Vector': u.assume(ge0(vsize(ex, a.o) - 1)); ex.note('an empty Vector is refused by the writer')
    s0 = u.old(); s = 'hdf5_utils::%sDataset' + q; p = lambda fn: len(fn['params']) == 3 and norm_type(fn['params'][2]['t'])[0] == cls
    u.run(s % 'Write', [f, n, a], pred=p); u.run(s % 'Read', [f, n, b], pred=p); equal(u, a, b, s0, kind); equal(u, a, a, s0, kind)
for _t in ('int', 'double', 'bool'):
    for _k in ('Array', 'Array2D'): unit('P11', '%s<%s>' % (_k, _t), files=H5)(lambda u, k=_k, t=_t: trip(u, k, t, ARGS[k] % t, '<%s>' % t))
for _k in ('Vector', 'DenseMatrix', 'DenseTensor'): unit('P11', _k, files=H5)(lambda u, k=_k: trip(u, k, 'double', 'mfem::' + k))
def scalar(u, ty):
    ex = u.ex; f = globs(u); n = u.int('name', 0); v = c_input.val_of(u, ty); w = ex.alloc_ref if False else None
    ka, kb = ('v', 0, 'a'), ('v', 0, 'b'); ex.put(ka, v); ex.put(kb, c_input.val_of(u, ty, 'previous')); a, b = LVar(ka, ty), LVar(kb, ty); q = '' if ty == STR else '<%s>' % ty
    p = lambda fn: norm_type(fn['params'][2]['t'])[0] == norm_type(ty)[0]
    u.run('hdf5_utils::WriteAttribute' + q, [f, n, a], pred=p); u.run('hdf5_utils::ReadAttribute' + q, [f, n, b], pred=p); c_input.same_value(u, ty, ex.load(b), v, 'the value is read back')
for _t in ('int', 'double', 'bool', STR): unit('P11', 'attribute %s' % ('string' if _t == STR else _t), files=H5)(lambda u, t=_t: scalar(u, t))
@unit('P11', 'attribute BasisTag', files=H5)
def _(u):
    ex = u.ex; f = globs(u); n = u.int('name', 0); a = u.obj('tag', 'mfem::BasisTag'); b = u.obj('previous', 'mfem::BasisTag'); p = lambda fn: 'BasisTag' in fn['params'][2]['t']
    for o in (a, b):
        for x in ('comp', 'var'): ex.lazy[(o.o, x)] = u.int('%s_%s' % (o.o.args[0], x), 0)
    u.run('hdf5_utils::WriteAttribute', [f, n, a], pred=p); u.run('hdf5_utils::ReadAttribute', [f, n, b], pred=p)
    for x in ('comp', 'var'): u.eq(ex.str_val(ex.field(b.o, x)), ex.str_val(ex.field(a.o, x)), x + ' is read back')
def _tostr(ex, a, e):
    x = P(ex.num(a[0]))
    return str_code(str(x.const())) if not x.t and not isinstance(a[0], float) and x.is_int() else P(App('tostr', x, sort='int'))
FUNCS['std::to_string'] = _tostr
@M.model('Array', 'MakeRef')
def _(ex, t, a, e):
    if len(a) == 1: s = obj(a[0]); n, p = vsize(ex, s), ex.field(s, 'data')
    else: p = a[0]; n = ex.num(a[1])
    ex.oblige('bounds', ge0(ex.shape(p.obj)[0] - p.off - n), 'the referenced memory holds the entries', e); ex.setfield(t.o, 'size', n); ex.setfield(t.o, 'data', p); return VOID
@M.model('Array', 'StealData')
def _(ex, t, a, e):
    ex.oblige('pre', ge0(vsize(ex, t.o) - 1), 'data is taken over from an array that is not empty (an empty one has none)', e); l = ex.deref(a[0], e); ex.store(l, ex.field(t.o, 'data'), e)
    srt = arr_sort(ex.content(ex.field(t.o, 'data').obj)); ex.setfield(t.o, 'size', ZERO); ex.setfield(t.o, 'data', Ptr(ex.newregion((ZERO,), M.undef(srt), 'empty'))); return VOID
# ---- sparse matrices: compressed rows
def csr(ex, o, f):
    v = ex.get((o, 'csr_' + f))
    if v is not None: return v
    r = App('csr_' + f, o, sort='obj'); ex.objcls[r] = '#region'; ex.nonnulls.add(r); h = ex.field(o, 'h')
    if ex.get((r, 'content')) is None: ex.lazy[(r, 'content')] = Base(Sym('csr_%s_%s' % (f, o.args[0]), 'obj'), 'real' if f == 'A' else 'int')
    if ex.get((r, 'shape')) is None: ex.lazy[(r, 'shape')] = (h + 1,) if f == 'I' else (nnz(ex, o),)
    return Ptr(r)
def at(ex, p, k): return ex.read(ex.content(p.obj), (p.off + P(k),))
def nnz(ex, o):
    if ex.get((o, 'nnz')) is not None: return ex.get((o, 'nnz'))
    return P(at(ex, csr(ex, o, 'I'), ex.field(o, 'h')))
for _m, _f in (('GetI', 'I'), ('GetJ', 'J'), ('GetData', 'A'), ('ReadI', 'I'), ('ReadJ', 'J'), ('ReadData', 'A'), ('HostReadI', 'I'), ('HostReadJ', 'J'), ('HostReadData', 'A')):
    MODELS.setdefault(('SparseMatrix', _m), (lambda f: lambda ex, t, a, e: csr(ex, t.o, f))(_f))
@M.model('SparseMatrix', 'NumNonZeroElems')
def _(ex, t, a, e): return P(App('nnz', t.o, sort='int')) if ex.opts.get('blocks') else nnz(ex, t.o)
_spc = CTORS['SparseMatrix']
def _sparse_ctor(ex, o, args, e):
    if len(args) == 5 and all(isinstance(x, Ptr) for x in args[:3]):
        for f, x in zip('IJA', args[:3]): ex.put((o, 'csr_' + f), x)
        ex.put((o, 'h'), ex.num(args[3])); ex.put((o, 'w'), ex.num(args[4])); ex.put((o, 'final'), TRUE); return
    _spc(ex, o, args, e); ex.put((o, 'nnz'), ZERO)
CTORS['SparseMatrix'] = _sparse_ctor
@unit('P11', 'SparseMatrix', files=H5)
def _(u):
    ex = u.ex; f = globs(u); n = u.int('name', 0); a = u.obj('mat', 'mfem::SparseMatrix'); o = a.o; h, w = ex.field(o, 'h'), ex.field(o, 'w'); u.assume(ge0(h - 1)); u.assume(ge0(w - 1)); ex.lazy[(o, 'final')] = TRUE; ex.note('a sparse matrix is finalized and has at least one row and column')
    z = nnz(ex, o); u.assume(ge0(z)); s0 = u.old(); no = ex.decide(Eq(z, 0))
    u.run('hdf5_utils::WriteSparseMatrix', [f, n, Ptr(o)]); r = obj(u.run('hdf5_utils::ReadSparseMatrix', [f, n]))
    u.ensure(Eq(ex.field(r, 'h'), h), 'the number of rows'); u.ensure(Eq(ex.field(r, 'w'), w), 'the number of columns'); u.ensure(ex.field(r, 'final'), 'it is ready for use'); u.ensure(TRUE if r in ex.created else FALSE, 'a matrix of its own')
    if no and ex.get((r, 'csr_I')) is None: u.ensure(Eq(nnz(ex, r), 0), 'no entries'); return
    k = u.int('row', 0); u.assume(ge0(h - k)); u.eq(at(ex, csr(ex, r, 'I'), k), u.at(s0, lambda: at(ex, csr(ex, o, 'I'), k)), 'the rows begin where they did')
    k = u.int('entry', 0); u.assume(ge0(z - 1 - k))
    if ex.ctx.infeasible(): return
    for x in 'JA': u.eq(at(ex, csr(ex, r, x), k), u.at(s0, lambda: at(ex, csr(ex, o, x), k)), 'entries (%s)' % x)
# ---- collections of blocks use the contract of Read/WriteSparseMatrix: a matrix is stored under a name, a new equal matrix is read
def mats(ex, loc, name, e):
    t = P(ex.str_val(name)).atom(); l = list(t.args[1:]) if t is not None and t.kind == 'app' and t.args[0] == 'strcat' else [P(ex.str_val(name))]; key = []; ix = []
    for x in l:
        c = code_str(x)
        if c is not None: key.append(c); continue
        y = P(x).atom()
        if y is None or y.kind != 'app' or y.args[0] != 'tostr': raise Unsupported('name of a block at %s' % ex.where(e))
        key.append('%d'); ix.append(P(y.args[1]))
    if '%d%d' in ''.join(key): raise Unsupported('ambiguous name of a block')
    loc = ex.load(loc, e) if isinstance(loc, (LVar, LElem)) else loc; r = App('h5mats', P(ex.num(loc)), ''.join(key), sort='obj')
    if r not in ex.objcls: ex.objcls[r] = '#region'; ex.lazy[(r, 'content')] = Lam(None_atom, 'obj'); ex.lazy[(r, 'shape')] = ()
    return r, tuple(ix)
None_atom = Sym('not_written', 'obj')
def _wsp(ex, a, e):
    if not ex.opts.get('blocks'): return None
    p = a[2] if isinstance(a[2], Ptr) else ex.load(a[2], e); ex.oblige('pre', ex.nonnull(p), 'a block that is written exists', e); r, ix = mats(ex, a[0], a[1], e)
    ex.put((r, 'content'), SetN(ex.content(r), (), ix, p.obj)); return VOID
def _rsp(ex, a, e):
    if not ex.opts.get('blocks'): return None
    r, ix = mats(ex, a[0], a[1], e); t = ex.read(ex.content(r), ix); c = App('h5copy', t, sort='obj'); ex.objcls[c] = 'mfem::SparseMatrix'; ex.nonnulls.add(c); return Ptr(c)
CONTRACTS['hdf5_utils::WriteSparseMatrix'] = _wsp; CONTRACTS['hdf5_utils::ReadSparseMatrix'] = _rsp
def blocks_unit(u):
    ex = u.ex; ex.opts['blocks'] = True; f = globs(u); n = u.int('name', 0); a = u.obj('written', 'MatrixBlocks'); b = u.obj('receiving', 'MatrixBlocks'); N = {}
    for o in (a, b):
        s = o.o.args[0]; nr, nc = u.int(s + '_rows', 0), u.int(s + '_cols', 0); bl = u.obj(s + '_blocks', 'mfem::Array2D<mfem::SparseMatrix *>'); ex.lazy[(o.o, 'nrows')] = nr; ex.lazy[(o.o, 'ncols')] = nc; ex.lazy[(o.o, 'blocks')] = bl; ex.lazy[(bl.o, 'h')] = nr; ex.lazy[(bl.o, 'w')] = nc; N[s] = (nr, nc, bl)
    nr, nc, bl = N['written']; i, j = u.int('i', 0), u.int('j', 0); u.assume(ge0(nr - 1 - i)); u.assume(ge0(nc - 1 - j)); s0 = u.old(); x = u.at(s0, lambda: mget(ex, bl.o, i, j))
    p = lambda fn: len(fn['params']) == 3 and 'MatrixBlocks' in fn['params'][2]['t']
    u.run('hdf5_utils::WriteDataset', [f, n, a], pred=p); u.run('hdf5_utils::ReadDataset', [f, n, b], pred=p)
    u.eq(ex.field(b.o, 'nrows'), nr, 'the number of block rows'); u.eq(ex.field(b.o, 'ncols'), nc, 'the number of block columns'); bb = ex.field(b.o, 'blocks'); u.eq(ex.field(obj(bb), 'h'), nr, 'rows of the table'); u.eq(ex.field(obj(bb), 'w'), nc, 'columns of the table')
    there = ex.decide(And(ex.nonnull(Ptr(x)), Ne(P(App('nnz', x, sort='int')), 0))); y = mget(ex, obj(bb), i, j)
    if there: u.ensure(TRUE if y is App('h5copy', x, sort='obj') else FALSE, 'the block is read back')
    else: u.ensure(Not(ex.nonnull(Ptr(y))), 'an absent block is absent')
@unit('P11', 'MatrixBlocks', files=H5)
def _(u): blocks_unit(u)
# ---- block matrices
def table(ex, o): return ex.field(o, 'table', 'mfem::Array2D<mfem::SparseMatrix *>')
def _bm(name, fn):
    old = MODELS.get(('BlockMatrix', name))
    def f(ex, t, a, e):
        if ex.opts.get('blocks'): return fn(ex, t, a, e)
        if old is None: raise Unsupported('BlockMatrix::' + name)
        return old(ex, t, a, e)
    MODELS[('BlockMatrix', name)] = f
def _inr(ex, t, a, e):
    i, j = ex.num(a[0]), ex.num(a[1]); h, w = M.mdims(ex, obj(table(ex, t.o))); ex.oblige('bounds', And(ge0(i), ge0(h - 1 - i), ge0(j), ge0(w - 1 - j)), 'block index in range', e); return i, j
_bm('NumRowBlocks', lambda ex, t, a, e: ex.field(obj(table(ex, t.o)), 'h')); _bm('NumColBlocks', lambda ex, t, a, e: ex.field(obj(table(ex, t.o)), 'w'))
_bm('RowOffsets', lambda ex, t, a, e: ex.field(t.o, 'row_offsets')); _bm('ColOffsets', lambda ex, t, a, e: ex.field(t.o, 'col_offsets')); _bm('Finalize', lambda ex, t, a, e: VOID)
def _zero(ex, t, a, e): i, j = _inr(ex, t, a, e); return Not(ex.nonnull(Ptr(mget(ex, obj(table(ex, t.o)), i, j))))
def _getb(ex, t, a, e):
    i, j = _inr(ex, t, a, e); x = mget(ex, obj(table(ex, t.o)), i, j); ex.oblige('pre', ex.nonnull(Ptr(x)), 'the block is present', e); ex.objcls.setdefault(x, 'mfem::SparseMatrix'); return LObj(x, 'mfem::SparseMatrix')
def _setb(ex, t, a, e):
    i, j = _inr(ex, t, a, e); p = a[2] if isinstance(a[2], Ptr) else ex.load(a[2], e); r, ix = M.midx(ex, obj(table(ex, t.o)), i, j); ex.store(LElem(r, ix, 'mfem::SparseMatrix *'), p, e); return VOID
_bm('IsZeroBlock', _zero); _bm('GetBlock', _getb); _bm('SetBlock', _setb)
def _bmctor(ex, o, args, e):
    if len(args) != 1: raise Unsupported('BlockMatrix constructor')
    n = vsize(ex, obj(args[0])) - 1; t = ex.newobj('mfem::Array2D<mfem::SparseMatrix *>', 'table'); ex.put((t, 'h'), n); ex.put((t, 'w'), n); M.set_own(ex, t, (n, n), Lam(Sym('null', 'obj'), 'obj')); ex.put((o, 'table'), LObj(t, ex.objcls[t])); ex.put((o, 'row_offsets'), args[0]); ex.put((o, 'col_offsets'), args[0])
CTORS.setdefault('BlockMatrix', _bmctor)
@unit('P11', 'BlockMatrix', files=H5)
def _(u):
    ex = u.ex; ex.opts['blocks'] = True; f = globs(u); n = u.int('name', 0); a = u.obj('mat', 'mfem::BlockMatrix'); t = u.obj('table', 'mfem::Array2D<mfem::SparseMatrix *>'); m = u.int('nblocks', 1); ex.lazy[(a.o, 'table')] = t; ex.lazy[(t.o, 'h')] = m; ex.lazy[(t.o, 'w')] = m
    off = u.obj('offsets', 'mfem::Array<int>'); ex.lazy[(off.o, 'size')] = m + 1; ex.lazy[(a.o, 'row_offsets')] = off; ex.lazy[(a.o, 'col_offsets')] = off; ex.note('a block matrix has the same row and column offsets, and is read with these offsets')
    i, j = u.int('i', 0), u.int('j', 0); u.assume(ge0(m - 1 - i)); u.assume(ge0(m - 1 - j)); x = mget(ex, t.o, i, j)
    u.run('hdf5_utils::WriteBlockMatrix', [f, n, Ptr(a.o)]); r = obj(u.run('hdf5_utils::ReadBlockMatrix', [f, n, off])); tt = obj(table(ex, r)); u.eq(ex.field(tt, 'h'), m, 'block rows'); u.eq(ex.field(tt, 'w'), m, 'block columns')
    there = ex.decide(And(ex.nonnull(Ptr(x)), Ne(P(App('nnz', x, sort='int')), 0))); y = mget(ex, tt, i, j)
    if there: u.ensure(TRUE if y is App('h5copy', x, sort='obj') else FALSE, 'the block is read back')
    else: u.ensure(Not(ex.nonnull(Ptr(y))), 'an absent block is absent')
    u.ensure(TRUE if ex.field(r, 'row_offsets').o is off.o else FALSE, 'with the given offsets')
# ---- sample lists
SI = 'mfem::SampleInfo'
KINDS = ('DOMAIN', 'INTERIORFACE', 'BDRFACE', 'INTERFACE')
def sget(ex, o, f, k):
    r, ix = M.vidx(ex, o, P(k)); fs = [x for x in ex.prog.recs[SI]['fields'] if x['n'] == f][0]; return ex.read(ex.content(ex.soa_region(r, fs)), ix)
@unit('P11', 'sample list', files=H5)
def _(u):
    ex = u.ex; ex.opts['soa'] = {SI}; f = globs(u); n = u.int('name', 0); a = u.obj('written', 'mfem::Array<%s>' % SI); b = u.obj('receiving', 'mfem::Array<%s>' % SI); ty = u.int('type', 0); u.assume(ge0(len(KINDS) - 1 - ty))
    for o in (a, b): u.assume(ge0(vsize(ex, o.o)))
    z = vsize(ex, a.o); s0 = u.old(); p = lambda fn: len(fn['params']) == 4
    u.run('hdf5_utils::WriteDataset', [f, n, ty, a], pred=p); u.run('hdf5_utils::ReadDataset', [f, n, ty, b], pred=p)
    u.eq(vsize(ex, b.o), z, 'as many samples'); k = u.int('sample', 0); u.assume(ge0(z - 1 - k))
    if ex.ctx.infeasible(): return
    for x in ('el', 'qp', 'qw'): u.eq(sget(ex, b.o, x, k), u.at(s0, lambda: sget(ex, a.o, x, k)), x + ' of every sample')
@unit('P11', 'GetDatasetSize', files=H5)
def _(u):
    ex = u.ex; f = globs(u); n = u.int('name', 0); a = u.obj('written', 'mfem::Array2D<double>'); h, w = ex.field(a.o, 'h'), ex.field(a.o, 'w'); u.assume(ge0(h)); u.assume(ge0(w)); p = lambda fn: norm_type(fn['params'][2]['t'])[0] == 'mfem::Array2D<double>'
    u.run('hdf5_utils::WriteDataset<double>', [f, n, a], pred=p); key = ('v', 0, 'dims'); ex.put(key, NULL); d = LVar(key, 'unsigned long *'); r = u.run('hdf5_utils::GetDatasetSize', [f, n, d]); u.eq(ex.num(r), P(2), 'the number of extents')
    q = ex.load(d)
    for i, x in enumerate((h, w)): u.eq(at(ex, q, i), x, 'extent %d' % i)
