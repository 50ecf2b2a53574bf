"""P18: numbering and distribution of samples."""
from vc.unit import *
from contracts.c_topol import Facts
SG = ('src/sample_generator.cpp',); RSG = ('src/random_sample_generator.cpp',)
def fl(k): return P(App('flat', P(k), sort='int'))
def pr(k): return P(App('prod', P(k), sort='int'))
def ss(k): return P(App('ssize', P(k), sort='int'))
def ix(k): return P(App('index', P(k), sort='int'))
def rem(k): return P(App('rem', P(k), sort='int'))
def ints(u, n, size, f):
    ex = u.ex; a = u.obj(n, 'mfem::Array<int>'); ex.lazy[(a.o, 'size')] = size; r = ex.newregion((size,), Lam(f(P(A0)), 'int'), n); ex.lazy[(a.o, 'data')] = Ptr(r); return a
def gen(u):
    """a generator with np >= 1 parameters of positive sample sizes ssize(p); index(p): an arbitrary index of the grid; flat(k): row-major number made of the first k indices; prod(k): number of samples of the first k parameters"""
    ex = u.ex; g = u.obj('generator', 'SampleGenerator'); np = u.int('num_params', 1); u.given = u.int('sample', 0)
    if ex.decide(Eq(np, 1)): np = ONE
    sz = ints(u, 'sizes', np, ss); ex.lazy[(g.o, 'num_sampling_params')] = np; ex.lazy[(g.o, 'sampling_sizes')] = sz; ex.lazy[(g.o, 'total_samples')] = pr(np); old = ex.axioms_
    def ax(a):
        r = old(a); k = P(a.args[1]) if len(a.args) > 1 and a.args[0] in ('ssize', 'index', 'flat', 'prod', 'rem') else None
        if a.args[0] == 'ssize': r += (ge0(P(a) - 1),)
        if a.args[0] == 'index': r += (ge0(P(a)), ge0(ss(k) - 1 - P(a)))
        if a.args[0] == 'flat': r += (ge0(P(a)), ge0(pr(k) - 1 - P(a))) + ((Eq(P(a), ZERO),) if k.const() == 0 else (Implies(ge0(k - 1), Eq(P(a), fl(k - 1) * ss(k - 1) + ix(k - 1))),))
        if a.args[0] == 'rem': r += (ge0(P(a)), ge0(pr(np - k) - 1 - P(a))) + ((Eq(P(a), u.given),) if k.const() == 0 else ())
        if a.args[0] == 'fdiv':
            b = P(a.args[2]).atom()
            if b is not None and b.kind == 'app' and b.args[0] == 'ssize': j = P(b.args[1]); r += (Implies(Eq(a.args[1], fl(j + 1)), Eq(P(a), fl(j))), Implies(Eq(a.args[1], rem(np - 1 - j)), Eq(P(a), rem(np - j))))   # lemma below; definition of rem
        if a.args[0] == 'prod': r += (ge0(P(a) - 1),) + ((Eq(P(a), ONE),) if k.const() == 0 else (Implies(ge0(k - 1), Eq(P(a), pr(k - 1) * ss(k - 1))),))
        return r
    ex.axioms_ = ax; ex.axmemo = {}; return g, np
@unit('P18', 'lemma: a number of the grid is below the number of samples')
def _(u):
    # induction step of 0 <= flat(k) < prod(k), which the other units use: flat(k+1) = flat(k) s + x, prod(k+1) = prod(k) s
    f, p, s, x = u.int('f', 0), u.int('p', 1), u.int('s', 1), u.int('x', 0); u.assume(ge0(p - 1 - f)); u.assume(ge0(s - 1 - x)); a, b = u.int('a', 0), u.int('b', 0); u.assume(Eq(a, p - 1 - f)); u.assume(Eq(b, s - 1))
    u.ensure(ge0(f * s + x), 'not negative'); u.eq(p * s - 1 - (f * s + x), (p - 1 - f) * s + (s - 1 - x), 'difference'); u.ensure(ge0(a * s), 'product of nonnegative numbers'); u.ensure(ge0(P(ONE) - 1 - ZERO), 'first')
Q = 'SampleGenerator::GetSampleIndex'
arr = lambda f: 'Array' in f['params'][0]['t']
class Scalar(Facts):
    """the local scalar that holds `first` on entry holds at(T) at the head of iteration T; further facts may be added"""
    def __init__(self, first, at, more=None): self.key = None; self.T = self.n = None; self.first = first; self.at = at; self.more = more; self.cells = None; self.keys = ()
    def enter(self, ex, s):
        fr = ex.frames[-1]; c = [v.key for v in fr.env.values() if isinstance(v, LVar) and isinstance(ex.get(v.key), Poly) and ex.ctx.entails(Eq(ex.get(v.key), self.first))]
        if not c: raise Unsupported('scalar of the loop')
        self.key = c[-1]; Facts.enter(self, ex, s)
    def facts(self, ex, T): return [(Eq(ex.num(ex.get(self.key)), self.at(P(T))), 'value carried by the loop')] + (self.more(ex, P(T)) if self.more else [])
def to_number(u, g, a, np):
    """run GetSampleIndex(indices)"""
    ex = u.ex; inv = Scalar(ix(ZERO), lambda T: fl(T + 1)); at_loop(u, Q, inv); return ex.num(u.run(Q, [a], g, pred=arr))
@unit('P18', 'lemma: quotient of a number of the grid')
def _(u):
    ex = u.ex; f, p, s, x, d, a, q = (u.int(n, 0) for n in ('f', 'p', 's', 'x', 'd', 'a', 'q')); u.assume(ge0(s - 1)); u.assume(ge0(s - 1 - x)); r = FloorDiv(f * s + x, s)
    # (f s + x) div s = f; and a < p s implies a div s < p: the quotient q of a = q s + x, were it p + d, would give a = p s + d s + x >= p s
    from vc.interp import divmod_poly
    dq, dr = divmod_poly(f * s + x, s); u.eq(dq, f, 'quotient'); u.eq(dr, x, 'remainder'); u.eq((p + d) * s + x - p * s, d * s + x, 'difference'); u.ensure(ge0(d * s + x), 'not below p s')
@unit('P18', 'GetSampleIndex of indices', files=SG)
def _(u):
    ex = u.ex; g, np = gen(u); a = ints(u, 'nested', np, ix); v = to_number(u, g, a, np); u.eq(v, fl(np), 'row-major number of the indices')
rv = lambda f: not arr(f)
def to_indices(u, g, first, at, np, want):
    """run GetSampleIndex(number): the loop carries at(T); entry p of the result is want(p)"""
    ex = u.ex; k = u.int('any_parameter', 0); u.assume(ge0(np - 1 - k))
    def res(ex):
        loc = [v for v in ex.frames[-1].env.values() if isinstance(v, LObj) and v.o in ex.created and tmpl(v.cls)[0].endswith('Array')]
        if len(loc) != 1: raise Unsupported('result of the loop')
        return loc[0].o
    more = lambda ex, T: [(Implies(ge0(k - (np - T)), Eq(P(vget(ex, res(ex), k)), want(k))), 'index of every parameter that was visited')]
    class Inv(Scalar):
        def check(self, ex, T, s):
            self.more = None; Facts.check(self, ex, T, s); p = np - 1 - P(T); u.eq(vget(ex, res(ex), p), want(p), 'index of the parameter that is visited'); m = ex.ctx.mark(); ex.ctx.assume(ge0(k - (np - P(T)))); self.more = more
            for f, d in more(ex, P(T)): ex.oblige('invariant', f, d + ' (kept)', s)
            ex.ctx.reset(m)
    at_loop(u, Q, Inv(first, at, more)); r = obj(u.run(Q, [ex.heap_var(first, 'int')], g, pred=rv)); u.eq(vsize(ex, r), np, 'one index for every parameter'); u.eq(vget(ex, r, k), want(k), 'index of every parameter'); return r
@unit('P18', 'GetSampleIndex of a number inverts GetSampleIndex of indices', files=SG)
def _(u): ex = u.ex; g, np = gen(u); to_indices(u, g, fl(np), lambda T: fl(np - T), np, ix)
@unit('P18', 'GetSampleIndex of indices inverts GetSampleIndex of a number', files=SG)
def _(u):
    ex = u.ex; g, np = gen(u); u.assume(ge0(pr(np) - 1 - u.given)); want = lambda p: rem(np - 1 - p) - ss(p) * rem(np - p); at0 = ex.opts.get('inv'); to_indices(u, g, u.given, rem, np, want); ex.opts['inv'] = at0; a = ints(u, 'nested', np, want)
    at_loop(u, Q, Scalar(want(ZERO), lambda T: rem(np - 1 - T))); v = ex.num(u.run(Q, [a], g, pred=arr)); u.eq(v, u.given, 'the number is found again')
def distribution(u, o, n, total, pre=''):
    """sample_offsets of o cut 0..total-1 into n pieces whose lengths differ by at most one"""
    ex = u.ex; off = obj(ex.field(o, 'sample_offsets', 'mfem::Array<int>')); u.eq(vsize(ex, off), n + 1, 'one offset more than processes'); at = lambda k: P(vget(ex, off, k)); u.eq(at(ZERO), ZERO, 'first offset'); u.eq(at(n), total, 'last offset'); k, l = u.int('rank', 0), u.int('other_rank', 0); u.assume(ge0(n - 1 - k)); u.assume(ge0(n - 1 - l)); q = FloorDiv(total, n); r = total - n * q; u.assume(ge0(r)); u.assume(ge0(n - 1 - r))
    for x in (k, l): ln = at(x + 1) - at(x); u.eq(ln, q + Ind(ge0(r - 1 - x)), 'number of samples of a process')
    a, b = Ind(ge0(r - 1 - k)), Ind(ge0(r - 1 - l)); u.ensure(And(ge0(ONE - (a - b)), ge0(ONE + a - b)), 'two processes differ by at most one sample'); u.ensure(ge0(q), 'offsets never decrease'); return off
@unit('P18', 'DistributeSamples', files=SG)
def _(u):
    ex = u.ex; g = u.obj('generator', 'SampleGenerator'); n, total = u.int('num_procs', 1), u.int('total_samples', 0); ex.lazy[(g.o, 'num_procs')] = n; ex.lazy[(g.o, 'total_samples')] = total; r = total - n * FloorDiv(total, n); u.assume(ge0(r)); u.assume(ge0(n - 1 - r)); u.run('SampleGenerator::DistributeSamples', [], g); distribution(u, g.o, n, total)
@unit('P18', 'lemma: offsets that never decrease from 0 to the total assign every sample once')
def _(u):
    # induction over the offsets o(k): a sample below o(k+1) lies below o(k) or in piece k; two pieces do not overlap since o(a+1) <= o(b) for a < b (again by induction: o(b) <= o(b+1))
    g, a, b = u.int('sample', 0), u.int('offset', 0), u.int('next_offset', 0); u.assume(ge0(b - a)); u.assume(ge0(b - 1 - g)); u.ensure(Or(ge0(a - 1 - g), And(ge0(g - a), ge0(b - 1 - g))), 'covered'); o1, ob, ob1 = u.int('o1', 0), u.int('ob', 0), u.int('ob1', 0); u.assume(ge0(ob - o1)); u.assume(ge0(ob1 - ob)); u.ensure(ge0(ob1 - o1), 'ordered'); u.assume(ge0(o1 - 1 - g)); u.ensure(Not(ge0(g - ob1)), 'not in a later piece')
@unit('P18', 'IsMyJob', files=SG)
def _(u):
    ex = u.ex; g = u.obj('generator', 'SampleGenerator'); n, k, i = u.int('num_procs', 1), u.int('rank', 0), u.int('sample'); u.assume(ge0(n - 1 - k)); off = u.obj('offsets', 'mfem::Array<int>'); ex.lazy[(g.o, 'sample_offsets')] = off; ex.lazy[(off.o, 'size')] = n + 1; ex.lazy[(g.o, 'num_procs')] = n; ex.lazy[(g.o, 'proc_rank')] = k; r = ex.boolean(u.run('SampleGenerator::IsMyJob', [ex.heap_var(i, 'int')], g, pred=rv)); lo, hi = P(vget(ex, off.o, k)), P(vget(ex, off.o, k + 1)); s = And(ge0(i - lo), ge0(hi - 1 - i)); u.ensure(And(Implies(r, s), Implies(s, r)), 'a sample is this process\'s exactly if it lies in its piece')
# ---- sizes and parameters
from contracts import c_input
def chain(key, f):
    old = CONTRACTS.get(key)
    def g(ex, a, e):
        r = f(ex, a, e) if ex.opts.get('samples') else None
        return r if r is not None else old(ex, a, e) if old else None
    CONTRACTS[key] = g
LIST = P(Sym('parameter_list', 'int'))
chain('InputParser::FindNode', lambda ex, a, e: c_input.node(ex, LIST) if code_str(ex.str_val(a[1])) is None and ex.decide(Eq(ex.str_val(a[1]), ex.field(Sym('generator', 'obj'), 'param_list_str'))) else None)
def _dict(ex, a, e):
    k = code_str(ex.str_val(a[1]))
    if k in (ex.opts.get('options') or {}): return ex.opts['options'][k][0]
    i = c_input.ident(ex, a[2]).atom()
    if k != 'sample_size' or i is None or i.kind != 'app' or i.args[0] != 'yaml_item' or P(i.args[1]) != LIST: raise Unsupported('option %s' % k)
    return ss(i.args[2])
for _k in ('InputParser::GetRequiredOptionFromDict', 'InputParser::GetRequiredOptionFromDict<int>'): chain(_k, _dict)
def pno(ex, o):
    if not (o.kind == 'app' and o.args[0] == 'rd'): raise Unsupported('parameter')
    return P(o.args[2])
def ghost(ex, n, sort='int'):
    r = App('ghost_' + n, sort='obj')
    if r not in ex.objcls: ex.objcls[r] = '#region'; ex.nonnulls.add(r); ex.lazy[(r, 'content')] = Lam(P(-7), sort); ex.lazy[(r, 'shape')] = ()
    return r
def record(ex, n, p, v): r = ghost(ex, n); ex.put((r, 'content'), SetN(ex.content(r), (), (p,), v)); return VOID
def recorded(ex, n, p): return P(ex.read(ex.content(ghost(ex, n)), (P(p),)))
num = lambda ex, x: ex.num(ex.load(x) if isinstance(x, (LVar, LElem)) else x)
chain('Parameter::SetSize', lambda ex, a, e: record(ex, 'size', pno(ex, obj(a[0])), num(ex, a[1])))
chain('Parameter::SetParam', lambda ex, a, e: (record(ex, 'set', pno(ex, obj(a[0])), num(ex, a[1])), VOID)[1])
chain('Parameter::SetRandomParam', lambda ex, a, e: record(ex, 'random', pno(ex, obj(a[0])), ONE))
def _dist(ex, a, e): t = obj(a[0]); ex.put((t, 'distributed'), ex.num(ex.field(t, 'total_samples', 'int'))); return VOID
chain('SampleGenerator::DistributeSamples', lambda ex, a, e: _dist(ex, a, e) if ex.opts['samples'] != 'body' else None)
def params(u, g, np):
    ex = u.ex; ex.opts['samples'] = True; ps = u.obj('params', 'mfem::Array<Parameter *>'); ex.lazy[(g.o, 'params')] = ps; ex.lazy[(ps.o, 'size')] = np; ex.lazy[(g.o, 'param_list_str')] = u.int('list_name', 1); k = u.int('any_parameter', 0) if np.const() is None else ZERO; u.assume(ge0(np - 1 - k)); return k
@unit('P18', 'SetParamSpaceSizes', files=SG)
def _(u):
    ex = u.ex; g, np = gen(u); ex.lazy.pop((g.o, 'total_samples')); k = params(u, g, np); ex.ctx.assume(c_input.isseq(LIST)); ex.ctx.assume(Eq(c_input.nitems(LIST), np)); ex.ctx.assume(c_input.defd(ex, LIST))
    class Inv(LoopInv):
        keys = ((g.o, 'total_samples'),)
        def state(self, ex, T, pre): return {(g.o, 'total_samples'): pr(T)}
        def enter(self, ex, s): u.eq(ex.num(ex.field(g.o, 'total_samples', 'int')), ONE, 'empty product')
        def check(self, ex, T, s): u.eq(ex.num(ex.field(g.o, 'total_samples', 'int')), pr(T) * ss(ZERO if np.const() == 1 else T), 'product of the sizes')
    at_loop(u, 'SampleGenerator::SetParamSpaceSizes', Inv(), 2); u.run('SampleGenerator::SetParamSpaceSizes', [], g); sz = obj(ex.field(g.o, 'sampling_sizes', 'mfem::Array<int>')); u.eq(vsize(ex, sz), np, 'one size for every parameter'); u.eq(vget(ex, sz, k), ss(k), 'sample size of every parameter'); u.eq(recorded(ex, 'size', k), ss(k), 'size given to every parameter'); u.eq(ex.num(ex.field(g.o, 'total_samples', 'int')), pr(np), 'number of samples'); u.eq(ex.field(g.o, 'distributed'), pr(np), 'the samples are distributed')
@unit('P18', 'SetSampleParams', files=SG)
def _(u):
    ex = u.ex; g, np = gen(u); k = params(u, g, np); i = u.int('i', 0); a = ints(u, 'nested', np, ix); chain_get(ex, a); u.run('SampleGenerator::SetSampleParams', [ex.heap_var(i, 'int')], g, pred=rv); u.eq(recorded(ex, 'set', k), ix(k), 'every parameter is set to its own index')
def chain_get(ex, a): ex.opts['nested'] = a
chain('SampleGenerator::GetSampleIndex', lambda ex, a, e: ex.opts.get('nested'))
FUNCS['srand'] = lambda ex, a, e: VOID
FUNCS['time'] = lambda ex, a, e: P(Fresh('time', 'int'))
# ---- random samples: every parameter has its own draw for every sample
RQ = 'RandomSampleGenerator::'
def rgen(u):
    ex = u.ex; g = u.obj('generator', 'RandomSampleGenerator'); np, t = u.int('num_params', 1), u.int('total_samples', 1); ex.lazy[(g.o, 'num_sampling_params')] = np; ex.lazy[(g.o, 'total_samples')] = t; k = params(u, g, np); return g, np, t, k
@unit('P18', 'RandomSampleGenerator::SetParamSpaceSizes', files=RSG)
def _(u):
    ex = u.ex; g, np, t, k = rgen(u); ex.lazy.pop((g.o, 'total_samples')); ex.opts['options'] = {'sample_generation/random_sample_generator/number_of_samples': (t, False)}; u.run(RQ + 'SetParamSpaceSizes', [], g); sz = obj(ex.field(g.o, 'sampling_sizes', 'mfem::Array<int>')); u.eq(vsize(ex, sz), np, 'one size for every parameter'); u.eq(vget(ex, sz, k), t, 'sample size of every parameter'); u.eq(recorded(ex, 'size', k), t, 'size given to every parameter'); u.eq(ex.num(ex.field(g.o, 'total_samples', 'int')), t, 'number of samples'); u.eq(ex.field(g.o, 'distributed'), t, 'the samples are distributed')
@unit('P18', 'RandomSampleGenerator::GetSampleIndex', files=RSG)
def _(u):
    ex = u.ex; g, np, t, k = rgen(u); ex.opts['samples'] = False; i = u.int('i', 0); u.assume(ge0(t - 1 - i)); r = obj(u.run(RQ + 'GetSampleIndex', [ex.heap_var(i, 'int')], g, pred=rv)); u.eq(vsize(ex, r), np, 'one index for every parameter'); u.eq(vget(ex, r, k), i, 'every parameter has the index of the sample'); a = ints(u, 'nested', np, lambda p: i); u.eq(ex.num(u.run(RQ + 'GetSampleIndex', [a], g, pred=arr)), i, 'and back')
@unit('P18', 'RandomSampleGenerator::SetSampleParams', files=RSG)
def _(u): ex = u.ex; g, np, t, k = rgen(u); u.run(RQ + 'SetSampleParams', [ex.heap_var(u.int('i', 0), 'int')], g, pred=rv); u.eq(recorded(ex, 'random', k), ONE, 'every parameter is drawn')
@unit('P18', 'PortTag order', files=SG)
def _(u):
    ex = u.ex; F_ = (('Mesh1', 1), ('Mesh2', 1), ('Attr1', 0), ('Attr2', 0)); t = [u.obj(n, 'PortTag') for n in 'abc']
    for x in t:
        for f, s in F_: ex.lazy[(x.o, f)] = u.int('%s_%s' % (x.o.args[0], f), *((0,) if s else ()))
    lt = lambda a, b: ex.boolean(u.run('operator<', [a, b], pred=lambda f: 'PortTag' in f['params'][0]['t'])); ab, ba, bc, ac, aa = lt(t[0], t[1]), lt(t[1], t[0]), lt(t[1], t[2]), lt(t[0], t[2]), lt(t[0], t[0]); same = And(*[Eq(ex.field(t[0].o, f), ex.field(t[1].o, f)) for f, s in F_])
    u.ensure(Not(aa), 'irreflexive'); u.ensure(Not(And(ab, ba)), 'asymmetric'); u.ensure(Implies(And(ab, bc), ac), 'transitive'); u.ensure(Or(ab, ba, same), 'total: tags that are not ordered are equal')
