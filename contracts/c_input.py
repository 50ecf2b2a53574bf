"""P13: configuration look-up, setting and overrides.  A configuration is a tree of places: child(place, name) is the place of an entry, the ghost
region 'val' holds the value of a place (0: absent, 1: null).  part(s, d, k), nparts(s, d): the pieces of a string between delimiters, as std::getline yields them."""
from vc.unit import *
from contracts.c_param import _set, _required, _opt, strvec
from contracts import c_timer
IPF = ('src/input_parser.cpp',)
import os as _os
INST = (_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'inst', 'parser.cpp'), 'src/input_parser.cpp')
NODE = 'YAML::Node'
LAZY['Node'] = lambda ex, o, f: P(App('ident', o, sort='int')) if f == 'ident' else None
def store(ex):
    r = Sym('yaml_store', 'obj')
    if r not in ex.objcls: ex.objcls[r] = '#region'; ex.lazy[(r, 'content')] = Base(Sym('yaml0', 'obj'), 'int'); ex.lazy[(r, 'shape')] = ()
    return r
def val(ex, i): return P(ex.read(ex.content(store(ex)), (P(i),)))
def setval(ex, i, v): r = store(ex); ex.put((r, 'content'), SetN(ex.content(r), (), (P(i),), P(v)))
def defd(ex, i): return Ne(val(ex, i), 0)
def ismap(i): return BAtom(App('yaml_ismap', P(i), sort='bool'))
def isseq(i): return BAtom(App('yaml_isseq', P(i), sort='bool'))
def ident(ex, n): return P(ex.field(obj(n), 'ident'))
def node(ex, i):
    o = App('ynode', P(i), sort='obj'); ex.objcls[o] = NODE; ex.nonnulls.add(o); ex.lazy[(o, 'ident')] = P(i); return LObj(o, NODE)
def child(i, s):
    a, b = P(i).atom(), P(s).atom()
    if b is not None and b.kind == 'app' and b.args[0] == 'part':      # walk(d, keys, k + 1) = child(walk(d, keys, k), part(keys, k)), walk(d, keys, 0) = d
        keys, d, k = b.args[1:]
        if a is not None and a.kind == 'app' and a.args[0] == 'walk' and a.args[2] == keys and P(a.args[3]) == P(k): return P(App('walk', a.args[1], keys, P(k) + 1, sort='int'))
        if P(k).const() == 0: return P(App('walk', P(i), keys, P(k) + 1, sort='int'))
    return P(App('yaml_child', P(i), P(s), sort='int'))
def item(i, k): return P(App('yaml_item', P(i), P(k), sort='int'))
def enc(ex, v):
    if isinstance(v, (LVar, LElem)): v = ex.load(v)
    if isinstance(v, LObj): return val(ex, ident(ex, v)) if ex.objcls[v.o] == NODE else P(App('yaml_enc', v.o, sort='int'))
    if isinstance(v, F): v = Ind(v)
    return P(App('yaml_enc', P(v), sort='int'))
def _copy(ex, o, src, e):
    if ex.get((obj(src), 'detached')) is not None and ex.get((obj(src), 'detached')).const() == 1: ex.oblige('pre', FALSE, 'a node without any content yet is not copied (its copies would not be the same entry)', e)
    ex.put((o, 'ident'), ident(ex, src))
MODELS[('copy', 'Node')] = _copy
def _nodector(ex, o, args, e):
    i = P(Fresh('newnode', 'int')); ex.ctx.assume(ge0(-1 - i)); [ex.ctx.assume(Ne(i, P(x))) for x in ex.opts.get('fresh', ())]; ex.opts.setdefault('fresh', set()).add(i.atom()); ex.put((o, 'ident'), i); v = 1
    if not args: ex.put((o, 'detached'), P(1))
    if args:
        a = args[0]
        if isinstance(a, Poly) and 'NodeType' in (e.get('sig') or [''])[0]: v = {0: 0, 3: 2}.get(a.const(), 1)
        else: v = enc(ex, a)
    if v in (1, 2): l = entries(ex, i).o; c_timer._vecctor(ex, l, [], e); ex.put((l, 'seq'), P(v - 1)); v = 1
    setval(ex, i, v)
CTORS['Node'] = _nodector
def attach(ex, t):
    if ex.get((t.o, 'detached')) is not None: ex.put((t.o, 'detached'), ZERO)
@M.model('Node', '[]')
def _(ex, t, a, e):
    attach(ex, t)
    i = ident(ex, t); k = a[0]; it = e['sig'] and 'int' in e['sig'][0] and 'basic_string' not in e['sig'][0] or isinstance(k, Poly) and 'char' not in e['sig'][0] and 'basic_string' not in e['sig'][0]
    fresh = i.atom() in ex.opts.get('fresh', ())
    if it:
        j = ex.num(k); ex.oblige('pre', And(isseq(i), ge0(j), ge0(nitems(i) - 1 - j)), 'the entry of the list exists', e); return node(ex, item(i, j))
    c = child(i, ex.str_val(k))
    if fresh: ex.ctx.assume(Eq(val(ex, c), 0)); ex.opts['fresh'].add(c.atom())
    elif not ex.opts.get('create'): ex.oblige('pre', ismap(i), 'an entry is looked up in a map only (operator[] changes other nodes or throws)', e)
    return node(ex, c)
def branch(ex, c, e):
    """split the path on c (while a loop is being analysed for what it modifies: keep c)"""
    if ex.quiet: return c
    return TRUE if ex.force(c, e) else FALSE
def nitems(i): return P(App('yaml_size', P(i), sort='int'))
@M.model('Node', 'size')
def _(ex, t, a, e): n = nitems(ident(ex, t)); ex.ctx.assume(ge0(n)); return n
@M.model('Node', 'IsMap')
def _(ex, t, a, e):
    return branch(ex, ismap(ident(ex, t)), e)
@M.model('Node', 'IsSequence')
def _(ex, t, a, e): return isseq(ident(ex, t))
@M.model('Node', 'operator bool', 'IsDefined')
def _(ex, t, a, e):
    return branch(ex, defd(ex, ident(ex, t)), e)
@M.model('Node', '!')
def _(ex, t, a, e):
    return Not(branch(ex, defd(ex, ident(ex, t)), e))
@M.model('Node', 'as')
def _(ex, t, a, e):
    i = ident(ex, t); ex.oblige('pre', defd(ex, i), 'a value is read from an option that exists', e); ty = e['targs'][0]; return as_(ex, ty, val(ex, i))
def as_(ex, ty, v):
    s = sort_of(ty); n = 'yaml_as_' + ('string' if 'basic_string' in ty else ty)
    if s == 'bool': return BAtom(App(n, P(v), sort='bool'))
    r = P(App(n, P(v), sort='real' if s == 'real' else 'int'))
    if 'basic_string' in ty: ex.ctx.assume(ge0(r))
    return r
@M.model('Node', '=')
def _(ex, t, a, e): attach(ex, t); setval(ex, ident(ex, t), enc(ex, a[0])); return t
@M.model('Node', 'push_back')
def _(ex, t, a, e):
    """a new node becomes a list when an entry is added: its entries are kept like those of a vector"""
    attach(ex, t); l = entries(ex, ident(ex, t))
    if ex.get((l.o, 'size')) is None: raise Unsupported('push_back to a node that existed')
    _pb(ex, l, [enc(ex, a[0])], e)
    ex.put((l.o, 'seq'), P(1)); return VOID
_pb = MODELS[('vector', 'push_back')]
def entries(ex, i): o = App('ylist', P(i), sort='obj'); ex.objcls[o] = 'std::vector<int>'; ex.nonnulls.add(o); return LObj(o, 'std::vector<int>')
@M.model('vector', 'back')
def _(ex, t, a, e):
    n = vsize(ex, t.o); ex.oblige('bounds', ge0(n - 1), 'back() of a vector that is not empty', e); v = vget(ex, t.o, n - 1)
    if 'Node' in ex.objcls[t.o]: return node(ex, v)
    raise Unsupported('vector::back')
_pb = MODELS[('vector', 'push_back')]
@M.model('vector', 'push_back')
def _(ex, t, a, e):
    if isinstance(a[0], LObj) and 'Node' in ex.objcls[t.o]: a = [ident(ex, a[0])]
    return _pb(ex, t, a, e)
@M.model('vector', 'resize')
def _(ex, t, a, e):
    n = ex.num(a[0]); m = vsize(ex, t.o); ex.oblige('bounds', ge0(n), 'size of a vector', e); c = ex.content(ex.field(t.o, 'data').obj); ex.setfield(t.o, 'size', n)
    if len(a) > 1: raise Unsupported('resize with a value')
    M.set_own(ex, t.o, (n,), Lam(Ite(ge0(m - 1 - P(A0)), P(ex.read(c, (P(A0),))), ZERO), 'int') if m != n else c); return VOID
_vc = CTORS['vector']
def _vecctor2(ex, o, args, e):
    if args and isinstance(args[0], Poly) and args[0].const() == 0: args = []
    if len(args) == 1 and isinstance(args[0], LObj) and 'alloc' in (ex.objcls.get(args[0].o) or ''): args = []
    _vc(ex, o, args, e)
CTORS['vector'] = _vecctor2
CTORS['allocator'] = lambda ex, o, args, e: None
# ---- string streams
def _sctor(ex, o, args, e):
    a = [x for x in args if not isinstance(x, LObj)]
    try: s = ex.str_val(args[0]) if args else ZERO
    except Unsupported: raise
    ex.put((o, 'src'), P(s)); ex.put((o, 'pos'), ZERO); ex.put((o, 'delim'), None)
CTORS['basic_istringstream'] = CTORS['basic_stringstream'] = _sctor
def nparts(s, d): return P(App('nparts', P(s), P(d), sort='int'))
def part(s, d, k): return P(App('part', P(s), P(d), P(k), sort='int'))
def _getline(ex, a, e):
    t = a[0].o; src = ex.get((t, 'src')); pos = ex.get((t, 'pos')); d = ex.num(a[2]) if len(a) > 2 else P(10)
    n = nparts(src, d); ex.ctx.assume(ge0(n)); c = ge0(n - 1 - pos); opt = ex.opts.get('streams', ())
    if ex.quiet and src not in opt:
        v = P(Fresh('piece', 'int')); ex.store(a[1], v, e); ex.put((t, 'pos'), pos + Ind(c)); ex.put((t, 'ok'), c); return a[0]
    ok = True if src in opt else ex.force(c, e)
    if ok: v = part(src, d, pos); ex.ctx.assume(ge0(v)); ex.store(a[1], v, e); ex.put((t, 'pos'), pos + 1)
    else: v = P(Fresh('unspecified', 'int')); ex.ctx.assume(ge0(v)); ex.store(a[1], v, e)
    ex.put((t, 'ok'), c if src in opt else (TRUE if ok else FALSE)); return a[0]
FUNCS['std::getline'] = _getline
for c_ in ('basic_istringstream', 'basic_stringstream', 'basic_istream', 'basic_ios'):
    MODELS[(c_, 'operator bool')] = lambda ex, t, a, e: ex.get((t.o, 'ok'))
    MODELS[(c_, '!')] = lambda ex, t, a, e: Not(ex.get((t.o, 'ok')))
FUNCS['std::operator|'] = lambda ex, a, e: ZERO
def _exit(ex, a, e):
    if ex.quiet: raise Infeasible()
    if ex.loopsyms: raise Unsupported('exit from a summarised loop')
    if 'on_exit' not in ex.opts: raise Unsupported('exit')
    ex.opts['on_exit'](); raise PathDone()
FUNCS['exit'] = _exit
SL = P(ord('/'))
class Walk:
    """the places along the path keys below the place d"""
    def __init__(self, u, keys, d):
        self.keys = keys; self.d = d; self.n = nparts(keys, SL); u.assume(ge0(self.n)); self.u = u
        old = u.ex.axioms_; self.marks = []
        def ax(a):
            r = old(a)
            if a.args[0] == 'walk':
                k = a.args[3]; r = r + (Implies(Eq(k, 0), Eq(P(a), d)), ge0(P(a))) + tuple(Implies(Eq(k, z), Eq(P(a), self.at(z))) for z in self.marks if P(k) != P(z))
            return r
        u.ex.axioms_ = ax; u.ex.axmemo = {}
    def at(self, k):
        k = P(k)
        if k.const() == 0: return self.d
        return P(App('walk', self.d, self.keys, k, sort='int'))
def find_unit(u, create):
    ex = u.ex; ps = u.obj('parser', 'InputParser'); keys = u.int('keys', 0); d = u.int('root', 0); nd = node(ex, d); W = Walk(u, keys, d); ex.opts['streams'] = (keys,); ex.opts['create'] = create
    s0 = u.old(); v0 = lambda i: u.at(s0, lambda: val(ex, i))
    y = u.int('other', 0); j0 = u.int('level', 1); W.marks.append(j0)
    class Inv(LoopInv):
        def vec(self, ex): return next(o for o, c in ex.objcls.items() if c.startswith('std::vector<YAML::Node') and ex.get((o, 'size')) is not None)
        def state(self, ex, T, pre):
            o = self.o = self.vec(ex); r = ex.field(o, 'data').obj; self.T = T
            d_ = {(o, 'size'): P(T) + 1, (r, 'content'): Lam(P(App('walk', W.d, W.keys, P(A0), sort='int')), 'int'), (r, 'shape'): (P(T) + 1,)}
            if create: d_[(store(ex), 'content')] = Base(Sym('store_at_head', 'obj'), 'int')
            return d_
        def facts(self, ex, T, add):
            add(Implies(And(ge0(j0), ge0(P(T) - j0)), Eq(P(vget(ex, self.o, j0)), W.at(j0))), 'the nodes are the levels of the path'); add(Eq(P(vget(ex, self.o, P(T))), W.at(T)), 'the last node is the one that the first parts of the key lead to')
            if create:
                add(Implies(Ne(v0(y), 0), Eq(val(ex, y), v0(y))), 'options that existed keep their value')
                add(Or(Eq(val(ex, y), v0(y)), And(Eq(val(ex, y), 1), on(T))), 'only levels of the path are created')
                add(Implies(And(ge0(j0 - 1), ge0(P(T) - j0)), Ne(val(ex, W.at(j0)), 0)), 'every level passed exists')
            else: add(Implies(And(ge0(j0 - 1), ge0(P(T) - j0)), Ne(v0(W.at(j0)), 0)), 'every level passed exists')
        def assume(self, ex, T): self.facts(ex, T, lambda f, d_: ex.ctx.assume(f))
        def check(self, ex, T, s):
            if not create: u.eq(val(ex, y), v0(y), 'looking up changes nothing')
            self.facts(ex, P(T) + 1, lambda f, d_: ex.oblige('invariant', f, d_, s))
        def exit(self, ex, n, s):
            self.facts(ex, n, lambda f, d_: ex.ctx.assume(f))
            if (P(n) - W.n).t and not ex.ctx.entails(Eq(n, W.n)): ex.oblige('post', FALSE, 'the walk ends before the last part of the key')
    on = lambda T: BAtom(App('on_path', y, P(T), sort='bool'))      # ghost: y is one of walk(1..T)
    old = ex.axioms_
    def ax(a):
        r = old(a)
        if a.args[0] == 'on_path': T = P(a.args[2]); r = r + (Implies(And(ge0(T - 1), Or(Eq(y, W.at(T)), on(T - 1))), BAtom(a)),)
        return r
    def ax3(a):
        r = ax(a) if create else old(a)
        if a.args[0] == 'rd' and a.args[1] in bases and len(a.args) == 3:
            i = P(a.args[2])
            for z in (y, W.at(j0), d):
                if i != z: r = r + (Implies(Eq(i, z), Eq(P(a), P(App('rd', a.args[1], z, sort='int')))),)
        return r
    bases = (Sym('yaml0', 'obj'), Sym('store_at_head', 'obj'))
    ex.axioms_ = ax3; ex.axmemo = {}
    at_loop(u, 'InputParser::FindNodeFromDict', Inv()); u.ex.note('the configuration is a tree (no YAML aliases); std::getline yields the pieces between delimiters')
    if create: u.ex.note('precondition of setting: the levels above the option that exist are maps (or empty)')
    r = u.run('InputParser::FindNodeFromDict', [keys, nd, TRUE if create else FALSE], ps); i = ident(ex, r)
    if create:
        u.eq(i, W.at(W.n), 'the place at the end of the path'); u.ensure(Implies(Ne(v0(y), 0), Eq(val(ex, y), v0(y))), 'options that existed keep their value'); 
        u.ensure(Implies(Ne(val(ex, y), v0(y)), And(Eq(val(ex, y), 1), BAtom(App('on_path', y, W.n, sort='bool')))), 'only levels of the path are created')
        u.ensure(Implies(ge0(W.n - j0), Ne(val(ex, W.at(j0)), 0)), 'every level of the path exists')
    else:
        if i.atom() not in ex.opts.get('fresh', ()): u.eq(val(ex, y), v0(y), 'looking up changes nothing')
        ex.ctx.assume(Implies(And(ge0(W.n - j0), Ne(v0(W.at(W.n)), 0)), Ne(v0(W.at(j0)), 0))); ex.note('lemma (induction over the levels): an entry exists only in a map that exists')
        lemma(u, W, v0)
        if ex.decide(Ne(v0(W.at(W.n)), 0)): u.eq(i, W.at(W.n), 'the option at the end of the path'); u.ensure(Eq(val(ex, i), v0(W.at(W.n))), 'with its value')
        else: u.ensure(Eq(val(ex, i), 0), 'absent if any part of the path is absent')
def lemma(u, W, v0):
    """instances of: an existing option has existing maps above it"""
    ex = u.ex
    for a in list(atoms_in(ex)):
        if a.kind == 'app' and a.args[0] == 'walk':
            k = P(a.args[3]); ex.ctx.assume(Implies(And(ge0(k), ge0(W.n - k), Ne(v0(W.at(W.n)), 0)), Ne(v0(P(a)), 0)))
            ex.ctx.assume(Implies(And(ge0(k), ge0(W.n - 1 - k), Ne(v0(W.at(W.n)), 0)), ismap(P(a))))
def atoms_in(ex):
    out = set()
    for f in ex.ctx.fs: collect(f, out)
    return out
def collect(x, out):
    if isinstance(x, F):
        for y in x.args: collect(y, out)
    elif isinstance(x, Poly):
        for m in x.t:
            for a, k in m: collect(a, out)
    elif isinstance(x, Atom):
        if x not in out:
            out.add(x)
            for y in x.args: collect(y, out)
    elif isinstance(x, (tuple, list)):
        for y in x: collect(y, out)
@unit('P13', 'FindNodeFromDict, look-up', files=IPF)
def _(u): find_unit(u, False)
@unit('P13', 'FindNodeFromDict, creating', files=IPF)
def _(u): find_unit(u, True)
# ---- callers use the contract of FindNodeFromDict: path(d, keys) is the place at the end of the path
def path(d, keys): return P(App('yaml_path', P(d), P(keys), sort='int'))
def _find(ex, a, e):
    keys = ex.str_val(a[1]); d = ident(ex, a[2]); cr = ex.boolean(a[3]) if len(a) > 3 else FALSE; p = path(d, keys); ex.ctx.assume(ge0(p))
    ex.opts.setdefault('found', []).append((d, keys))
    if cr is FALSE: return node(ex, p)
    if cr is not TRUE: raise Unsupported('FindNodeFromDict with a computed flag')
    r = store(ex); old = ex.content(r); n = Fresh('store', 'obj'); ex.put((r, 'content'), Base(n, 'int'))
    on = lambda i: BAtom(App('yaml_level', d, P(keys), P(i), sort='bool'))
    prev = ex.axioms_
    def ax(a_):
        q = prev(a_)
        if a_.args[0] == 'rd' and a_.args[1] is n:
            i = P(a_.args[2]); o = P(ex.read(old, (i,))); q = q + (Implies(Ne(o, 0), Eq(P(a_), o)), Or(Eq(P(a_), o), And(Eq(P(a_), 1), on(i))), Implies(Eq(i, p), Ne(P(a_), 0)))
        return q
    ex.axioms_ = ax; ex.axmemo = {}
    return node(ex, p)
CONTRACTS['InputParser::FindNodeFromDict'] = _find
STR = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
class Cfg:
    def __init__(self, u):
        ex = u.ex; self.u = u; self.ps = u.obj('parser', 'InputParser'); self.root = u.int('dict', 0); d = ex.field(self.ps.o, 'dict_', NODE); ex.objcls[d.o] = NODE; ex.lazy[(d.o, 'ident')] = self.root
        ex.lazy[(self.ps.o, 'file_')] = u.int('file', 0); self.keys = u.int('keys', 0); self.s0 = u.old(); self.other = u.int('other', 0)
        ex.opts['exit'] = True
    def v0(self, i): return self.u.at(self.s0, lambda: val(self.u.ex, i))
    def same(self): self.u.eq(val(self.u.ex, self.other), self.v0(self.other), 'looking up changes nothing')
def val_of(u, ty, name='value'):
    return BAtom(Sym(name, 'bool')) if ty == 'bool' else u.real(name) if ty == 'double' else u.int(name, 0 if ty == STR else None)
def same_value(u, ty, a, b, desc):
    if ty == 'bool': a, b = u.ex.boolean(a), u.ex.boolean(b); u.ensure(And(Implies(a, b), Implies(b, a)), desc)
    else: u.eq(u.ex.str_val(a) if ty == STR else u.ex.num(a), P(b), desc)
class Exited(Exception): pass
def getter(u, qn, ty, required, whole):
    ex = u.ex; C = Cfg(u); d = C.root if whole else u.int('sub', 0); p = path(d, C.keys); fb = val_of(u, ty, 'fallback'); there = ex.decide(Ne(C.v0(p), 0))
    ex.opts['on_exit'] = lambda: u.ensure(TRUE if required and not there else FALSE, 'the program ends only if a required option is absent')
    args = [C.keys] + ([] if required else [fb]) + ([] if whole else [node(ex, d)])
    r = u.run('InputParser::%s<%s>' % (qn, ty), args, C.ps); C.same()
    if there: same_value(u, ty, r, as_(ex, ty, C.v0(p)), 'the stored value is returned')
    elif required: u.ensure(FALSE, 'a required option that is absent ends the program')
    else: same_value(u, ty, r, fb, 'the default is returned')
def setter(u, qn, ty, whole):
    ex = u.ex; C = Cfg(u); d = C.root if whole else u.int('sub', 0); p = path(d, C.keys); u.assume(ge0(p))
    v = node(ex, u.int('value_node', 0)) if ty == NODE else val_of(u, ty); w = enc(ex, v) if ty != NODE else val(ex, u.int('value_node', 0)); y = C.other; u.assume(Ne(y, p))
    if ty == NODE: u.assume(Ne(w, 0))
    u.run('InputParser::%s<%s>' % (qn, ty), [C.keys, v] + ([] if whole else [node(ex, d)]), C.ps)
    if ty == NODE: u.ensure(Eq(val(ex, p), w), 'the option holds the new value')
    else: u.eq(val(ex, p), w, 'the option holds the new value')
    f = ex.opts.get('found', []); u.ensure(Implies(Ne(C.v0(y), 0), Eq(val(ex, y), C.v0(y))), 'other options keep their value')
    u.ensure(Implies(Ne(val(ex, y), C.v0(y)), And(Eq(val(ex, y), 1), BAtom(App('yaml_level', d, C.keys, y, sort='bool')))), 'nothing but levels of the path is created')
for _ty in ('int', 'double', 'bool', STR):
    _n = 'string' if _ty == STR else _ty
    for _q, _r, _w in (('GetRequiredOptionFromDict', True, False), ('GetOptionFromDict', False, False), ('GetRequiredOption', True, True), ('GetOption', False, True)):
        unit('P13', '%s<%s>' % (_q, _n), files=INST)(lambda u, q=_q, t=_ty, r=_r, w=_w: getter(u, q, t, r, w))
for _ty in ('int', 'double', 'bool', STR, NODE):
    for _q, _w in (('SetOptionInDict', False), ('SetOption', True)):
        unit('P13', '%s<%s>' % (_q, 'string' if _ty == STR else _ty), files=INST)(lambda u, q=_q, t=_ty, w=_w: setter(u, q, t, w))
@unit('P13', 'FindNode', files=INST)
def _(u):
    ex = u.ex; C = Cfg(u); r = u.run('InputParser::FindNode', [C.keys, FALSE], C.ps); u.eq(ident(ex, r), path(C.root, C.keys), 'the place of the path in the configuration'); C.same()
# ---- search in a list
def searcher(u, ty, pair):
    ex = u.ex; C = Cfg(u); L = u.int('list', 0); lk = u.int('lkey', 0); lv = val_of(u, ty, 'lval'); n = nitems(L); u.assume(isseq(L)); u.assume(ge0(n)); rk = u.int('rkey', 0); fb = u.int('fallback'); ex.note('the list is a sequence, its entries that hold the key hold a value of the type asked for')
    def match(k): p = path(item(L, k), lk); return And(Ne(C.v0(p), 0), Eq(as_(ex, ty, C.v0(p)), lv))
    b = u.int('earlier', 0)
    class Inv(LoopInv):
        def assume(self, ex, T): ex.ctx.assume(Implies(ge0(P(T) - 1 - b), Not(match(b)))); self.T = T
        def check(self, ex, T, s): ex.oblige('invariant', Not(match(T)), 'the entry passed does not match', s); ex.oblige('invariant', Implies(ge0(P(T) - b), Not(match(b))), 'no earlier entry matches', s) if not ex.ctx.entails(Eq(b, T)) and False else None
        def exit(self, ex, n_, s): ex.ctx.assume(Implies(ge0(P(n_) - 1 - b), Not(match(b)))); self.done = n_
    inv = Inv(); inv.T = inv.done = None; qn = 'InputParser::LookUpFromDict<%s%s>' % (ty, ',int' if pair else ''); at_loop(u, qn, inv)
    r = u.run(qn, [lk, lv] + ([rk, fb] if pair else []) + [node(ex, L)], C.ps); C.same()
    if inv.T is not None and inv.done is None:     # found at entry T
        T = P(inv.T); u.ensure(match(T), 'the entry returned matches'); u.ensure(Implies(ge0(T - 1 - b), Not(match(b))), 'no earlier entry matches')
        if pair:
            q = path(item(L, T), rk)
            if ex.decide(Ne(C.v0(q), 0)): u.eq(ex.num(r), as_(ex, 'int', C.v0(q)), 'the value of the matching entry')
            else: u.eq(ex.num(r), fb, 'the default if the matching entry does not have it')
        else: u.eq(ident(ex, r), item(L, T), 'the matching entry is returned')
    else:
        u.ensure(Implies(ge0(n - 1 - b), Not(match(b))), 'no entry matches')
        if pair: u.eq(ex.num(r), fb, 'the default if no entry matches')
        else: u.ensure(Eq(val(ex, ident(ex, r)), 0), 'an absent node if no entry matches')
@unit('P13', 'LookUpFromDict by string', files=INST)
def _(u): searcher(u, STR, False)
@unit('P13', 'LookUpFromDict by integer', files=INST)
def _(u): searcher(u, 'int', False)
@unit('P13', 'LookUpFromDict of a value', files=INST)
def _(u): searcher(u, STR, True)
# ---- command line overrides
CO, EQL = P(ord(':')), P(ord('='))
FUNCS['YAML::Load'] = lambda ex, a, e: node(ex, P(App('yaml_load', P(ex.str_val(a[0])), sort='int')))
@unit('P13', 'OverwriteOption', files=INST)
def _(u):
    ex = u.ex; C = Cfg(u); f = u.int('forced', 0); ex.opts['streams'] = (f,); ex.lazy[(C.ps.o, 'rank')] = u.int('rank', 0); st = {}; u.assume(ge0(nparts(f, CO)))
    ex.opts['sets'] = []
    class Inv(LoopInv):
        def assume(self, ex, T): st['T'] = T; ex.opts['sets'] = []
        def check(self, ex, T, s):
            kv = part(f, CO, T); l = ex.opts['sets']; u.ensure(TRUE if len(l) == 1 else FALSE, 'one option is set per pair (%d)' % len(l)); u.ensure(Eq(nparts(kv, EQL), 2), 'a pair is a key and a value')
            if len(l) == 1:
                p, k, v, t = l[0]; u.ensure(TRUE if p is C.ps.o else FALSE, 'in this configuration'); u.eq(k, part(kv, EQL, ZERO), 'the key is the first piece'); u.eq(ident(ex, v), P(App('yaml_load', part(kv, EQL, P(1)), sort='int')), 'the value is the second piece, read as YAML')
        def exit(self, ex, n, s): st['T'] = None; u.ensure(Eq(n, nparts(f, CO)), 'every pair is handled')
    def ext():
        T = st.get('T'); u.ensure(FALSE if T is None else Ne(nparts(part(f, CO, T), EQL), 2), 'the program ends only for a piece that is not key=value')
        if T is not None: u.ensure(TRUE if not ex.opts['sets'] else FALSE, 'nothing is set for it')
    ex.opts['on_exit'] = ext; at_loop(u, 'InputParser::OverwriteOption', Inv()); u.run('InputParser::OverwriteOption', [f], C.ps)
# ---- conversions of lists
def decode(u, cls, ty, qn):
    ex = u.ex; L = u.int('list', 0); v = u.vec('rhs') if cls == 'vec' else strvec(u, 'rhs') if cls == 'strvec' else u.obj('rhs', cls); ok = ex.decide(isseq(L)); n = nitems(L); u.assume(ge0(n))
    old = ex.axioms_; ex.axmemo = {}       # an entry of a list exists
    ex.axioms_ = lambda a: old(a) + ((Ne(P(a), 0),) if a.args[0] == 'rd' and len(a.args) == 3 and P(a.args[2]).atom() is not None and P(a.args[2]).atom().kind == 'app' and P(a.args[2]).atom().args[0] == 'yaml_item' else ())
    s = u.old(); r = ex.boolean(u.run(qn, [node(ex, L), v], None))
    u.ensure(r if ok else Not(r), 'a list is accepted, anything else is refused')
    if ok: u.vec_is(v, n, lambda i: P(as_(ex, ty, val(ex, item(L, i)))), 'entry by entry')
@unit('P13', 'convert<Array<int>>::decode', files=INST)
def _(u): decode(u, 'mfem::Array<int>', 'int', 'YAML::convert<mfem::Array<int>>::decode')
@unit('P13', 'convert<Array<double>>::decode', files=INST)
def _(u): decode(u, 'mfem::Array<double>', 'double', 'YAML::convert<mfem::Array<double>>::decode')
@unit('P13', 'convert<Vector>::decode', files=INST)
def _(u): decode(u, 'vec', 'double', 'YAML::convert<mfem::Vector>::decode')
def encode(u, cls, ty, qn):
    ex = u.ex; v = u.vec('rhs') if cls == 'vec' else strvec(u, 'rhs') if cls == 'strvec' else u.obj('rhs', cls); n = vsize(ex, v.o); u.assume(ge0(n)); s0 = u.old()
    r = u.run(qn, [v], None); i = ident(ex, r); u.ensure(TRUE if i.atom() in ex.opts['fresh'] else FALSE, 'a new node'); l = entries(ex, i).o; u.ensure(Eq(ex.get((l, 'seq')), 1), 'it is a list (an empty one is a list too)'); u.eq(vsize(ex, l), n, 'as many entries')
    k = u.int('entry', 0); u.assume(ge0(n - 1 - k)); u.eq(P(vget(ex, l, k)), P(App('yaml_enc', P(u.at(s0, lambda: vget(ex, v.o, k))), sort='int')), 'entry by entry')
@unit('P13', 'convert<Array<int>>::encode', files=INST)
def _(u): encode(u, 'mfem::Array<int>', 'int', 'YAML::convert<mfem::Array<int>>::encode')
@unit('P13', 'convert<Array<double>>::encode', files=INST)
def _(u): encode(u, 'mfem::Array<double>', 'double', 'YAML::convert<mfem::Array<double>>::encode')
@unit('P13', 'convert<Vector>::encode', files=INST)
def _(u): encode(u, 'vec', 'double', 'YAML::convert<mfem::Vector>::encode')
SV = 'std::vector<%s, std::allocator<%s>>' % (STR, STR)
@unit('P13', 'convert<vector<string>>::encode', files=INST)
def _(u): encode(u, 'strvec', STR, 'YAML::convert<%s>::encode' % SV)
@unit('P13', 'convert<vector<string>>::decode', files=INST)
def _(u): decode(u, 'strvec', STR, 'YAML::convert<%s>::decode' % SV)
@unit('P13', 'FindNode, creating', files=INST)
def _(u):
    ex = u.ex; C = Cfg(u); r = u.run('InputParser::FindNode', [C.keys, TRUE], C.ps); p = path(C.root, C.keys); u.eq(ident(ex, r), p, 'the place of the path in the configuration'); u.ensure(Ne(val(ex, p), 0), 'it exists')
@unit('P13', 'InputParser()', files=INST)
def _(u):
    ex = u.ex; t = u.obj('parser', 'InputParser'); f = u.find('InputParser::InputParser', nparams=0); ex.under.add(f['key']); ex.call_ctor(f, t.o, []); d = ex.field(t.o, 'dict_', NODE); dt = ex.get((d.o, 'detached'))
    u.ensure(FALSE if dt is not None and dt.const() == 1 else TRUE, 'the configuration of a parser without input file is an entry of its own, options that are set in it are kept'); u.eq(ex.field(t.o, 'rank'), ZERO, 'the rank is initialised')
# ---- reading the input file (the run that is not under MPI; the broadcast to other processes is in the replay harness)
FUNCS['YAML::LoadFile'] = lambda ex, a, e: node(ex, P(App('yaml_file', P(ex.str_val(a[0])), sort='int')))
def _initialized(ex, a, e): ex.store(ex.deref(a[0], e), ZERO, e); return ZERO
FUNCS['MPI_Initialized'] = _initialized
CONTRACTS['InputParser::OverwriteOption'] = lambda ex, a, e: ex.opts['overwrite'](ex, a, e) if 'overwrite' in ex.opts else None
@unit('P13', 'InputParser(file, overrides), not under MPI', files=INST)
def _(u):
    ex = u.ex; t = u.obj('parser', 'InputParser'); nm = u.int('file', 0); fo = u.int('forced', 0); calls = []
    def ov(ex, a, e):
        d = ex.field(t.o, 'dict_', NODE); calls.append((a, val(ex, ident(ex, d)))); u.eq(ex.field(t.o, 'rank'), ZERO, 'the rank is known before the overrides are read'); return ZERO
    ex.opts['overwrite'] = ov
    f = u.find('InputParser::InputParser', nparams=2); ex.under.add(f['key']); ex.call_ctor(f, t.o, [nm, fo])
    u.ensure(TRUE if len(calls) == 1 else FALSE, 'the overrides are applied once')
    if len(calls) == 1:
        a, d = calls[0]; u.eq(d, val(ex, P(App('yaml_file', nm, sort='int'))), 'the overrides change what the file holds'); u.eq(P(ex.str_val(a[-1])), fo, 'the given overrides')
    u.eq(P(ex.str_val(ex.field(t.o, 'file_', 'std::string'))), nm, 'the name of the file is kept')
