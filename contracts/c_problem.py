"""P19: preset problems: fields as functions of place, time and parameters; which quantity a parameter name stands for; boundary types."""
from vc.unit import *
from vc import interp as I_
from contracts.c_ctopol import trig
PP = ('src/parameterized_problem.cpp',); FF = 'function_factory::'
I_.ENUMS.add('BoundaryType')
def mathf(ex):
    trig(ex)
    for n in ('atan', 'exp'): FUNCS[n] = FUNCS['std::' + n] = (lambda n: lambda ex, a, e: P(App(n, P(ex.num(a[0])), sort='real')))(n)
    FUNCS['atan2'] = FUNCS['std::atan2'] = lambda ex, a, e: P(App('atan2', P(ex.num(a[0])), P(ex.num(a[1])), sort='real'))
    return P(App('atan', P(ONE), sort='real')) * 4
def sin(ex, x): return FUNCS['sin'](ex, [P(x)], None)
def cos(ex, x): return FUNCS['cos'](ex, [P(x)], None)
def glob(u, qn, v=None):
    """the parameter with this name, an arbitrary real number"""
    o = Sym('glob:' + FF + qn, 'obj'); s = u.real('parameter_' + qn.split('::')[-1] if v is None else v); u.ex.lazy[(o, 'val')] = s; return s
def gvec(u, qn, n):
    o = Sym('glob:' + FF + qn, 'obj'); u.ex.objcls[o] = 'mfem::Vector'; u.ex.nonnulls.add(o); u.ex.lazy[(o, 'size')] = P(n); return lambda i: P(vget(u.ex, o, P(i)))
class At:
    """a point x with 1 <= d <= 3 coordinates, a time, and an output vector of arbitrary former size and contents (given: the caller has given it one component per coordinate)"""
    def __init__(self, u, lo=1, given=False, hi=3):
        self.u = u; ex = self.ex = u.ex; self.pi = mathf(ex); self.d = u.int('dim', lo, hi) if u.dim is None else P(u.dim); self.xv = u.vec('x', self.d); self.t = u.real('t'); self.y = u.vec('y', self.d) if given else u.obj('y', 'mfem::Vector')
        if not given: self.ex.ctx.assume(ge0(P(vsize(ex, self.y.o))))
        self.s0 = u.old()
    def x(self, i): return self.u.at(self.s0, lambda: P(vget(self.ex, self.xv.o, P(i))))
    def sum(self, f): return self.u.sum(self.d, f)
    def scalar(self, qn, want, desc): self.u.eq(self.ex.num(self.u.run(FF + qn, [self.xv, self.t])), want, desc)
    def vector(self, qn, want, desc, args=None):
        self.u.run(FF + qn, ([self.xv, self.t, self.y] if args is None else args)); self.is_(want, desc)
    def is_(self, want, desc): self.u.vec_is(self.y, self.d, want, desc); self.u.unchanged(self.xv, self.s0, 'the point is unchanged')
def field(name, dims=(None,), **kw):
    def d(f):
        @unit('P19', name, dims, files=PP, assume_asserts=True)
        def _(u): f(u, At(u, **kw))
        return f
    return d
@field('poisson0::rhs')
def _(u, p): k, o = glob(u, 'poisson0::k'), glob(u, 'poisson0::offset'); p.scalar('poisson0::rhs', sin(p.ex, 2 * p.pi * (k * p.sum(p.x) + o)), 'sin(2 pi (k (x + y + z) + offset))')
for _n, _k, _o in (('rhs', 'k', 'offset'), ('bdr', 'bdr_k', 'bdr_offset')):
    @field('poisson_component::' + _n)
    def _(u, p, n=_n, k=_k, o=_o): o = glob(u, 'poisson_component::' + o); k = gvec(u, 'poisson_component::' + k, 3); p.scalar('poisson_component::' + n, sin(p.ex, 2 * p.pi * (p.sum(lambda i: k(i) * p.x(i)) + o)), 'sin(2 pi (k . x + offset))')
@field('advdiff_flow_past_array::qbdr')
def _(u, p):
    A = 'advdiff_problem::advdiff_flow_past_array::'; q0, dq, qo = (glob(u, A + n) for n in ('q0', 'dq', 'qoffset')); k = gvec(u, A + 'qk', 3); p.scalar(A + 'qbdr', q0 + dq * sin(p.ex, 2 * p.pi * (p.sum(lambda i: k(i) * p.x(i)) + qo)), 'q0 + dq sin(2 pi (qk . x + qoffset))')
for _n in ('lambda', 'mu'):
    @field('linelast_problem::' + _n)
    def _(u, p, n=_n): v = glob(u, 'linelast_problem::_' + n); p.scalar('linelast_problem::' + n, v, 'the material parameter')
@field('channel_flow::ubdr', lo=2)
def _(u, p):
    C = 'flow_problem::channel_flow::'; L, U, x0 = (glob(u, C + n) for n in ('L', 'U', 'x0')); u.assume(Not(Eq(L, ZERO))); yc = (p.x(1) - x0) * Inv(L); p.vector(C + 'ubdr', lambda i: Ind(Eq(i, ZERO)) * U * (1 - 4 * yc * yc), 'parabolic profile U (1 - 4 ((y - x0)/L)^2) in the first component')
@field('lid_driven_cavity::ubdr')
def _(u, p):
    C = 'flow_problem::lid_driven_cavity::'; L, U = (glob(u, C + n) for n in ('L', 'u0')); u.assume(Not(Eq(L, ZERO))); p.vector(C + 'ubdr', lambda i: Ind(Eq(i, ZERO)) * 4 * U * p.x(0) * (L - p.x(0)) * Inv(L) * Inv(L), 'parabolic lid velocity 4 u0 x (L - x) / L^2 in the first component')
E0 = lambda i, k=0: Ind(Eq(P(i), P(k)))
def flow(u, p):
    """flux that restores incompressibility: del_u (x - x0)"""
    c = glob(u, 'flow_problem::del_u'); x0 = gvec(u, 'flow_problem::x0', p.d); return lambda i: c * (p.x(i) - x0(i))
@field('flow_problem::dir')
def _(u, p): flow(u, p); x0 = gvec(u, 'flow_problem::x0', p.d); p.vector('flow_problem::dir', lambda i: p.x(i) - x0(i), 'x - x0', [p.xv, p.y])
@field('flow_problem::flux')
def _(u, p): f = flow(u, p); p.vector('flow_problem::flux', f, 'del_u (x - x0)', [p.xv, p.y])
@field('component_flow::ubdr')
def _(u, p):
    C = 'flow_problem::component_flow::'; f = flow(u, p); u0, du, off = (gvec(u, C + n, 3) for n in ('u0', 'du', 'offsets')); ex = p.ex; o = Sym('glob:' + FF + C + 'k', 'obj'); ex.objcls[o] = 'mfem::DenseMatrix'; ex.nonnulls.add(o); ex.lazy[(o, 'h')] = ex.lazy[(o, 'w')] = P(3)
    p.vector(C + 'ubdr', lambda i: u0(i) + du(i) * sin(ex, 2 * p.pi * (p.sum(lambda j: P(mget(ex, o, P(j), P(i))) * p.x(j)) - off(i))) - f(i), 'u0 + du sin(2 pi (k . x - offset)) - del_u (x - x0), component by component')
B = 'flow_problem::backward_facing_step::'
def step(u, p):
    ex = p.ex; u0, y0, y1 = (glob(u, B + n) for n in ('u0', 'y0', 'y1')); u.assume(Not(Eq(y1 - y0, ZERO))); n = u.int('modes', 0); return u0, y0, y1, n, [gvec(u, B + k, n) for k in ('amp', 'ky', 'freq', 't_offset')], -4 * u0 * Inv(y1 - y0) * Inv(y1 - y0) * (y0 - p.x(1)) * (y1 - p.x(1))
@field('backward_facing_step::ubdr', lo=2)
def _(u, p):
    ex = p.ex; u0, y0, y1, n, (amp, ky, fr, to), prof = step(u, p)
    pert = u.sum(n, lambda m: Ind(Not(Eq(amp(m), ZERO))) * amp(m) * sin(ex, p.pi * ky(m) * (p.x(1) - y0) * Inv(y1 - y0)) * sin(ex, 2 * p.pi * (fr(m) * p.t + to(m))))
    p.vector(B + 'ubdr', lambda i: E0(i) * prof + E0(i, 1) * pert, 'parabolic inflow in the first component, sum of the perturbation modes in the second')
@field('backward_facing_step::uic', lo=2)
def _(u, p): u0, y0, y1, n, _, prof = step(u, p); p.vector(B + 'uic', lambda i: E0(i) * (1 - Ind(gt0(y0 - p.x(1)))) * prof, 'inflow profile above the step, zero below')
@field('backward_facing_step::pic')
def _(u, p): u.run(FF + B + 'pic', [p.xv, p.t, p.y]); u.vec_is(p.y, ONE, lambda i: ZERO, 'one zero pressure')
@field('periodic_flow_past_array::force')
def _(u, p): f = gvec(u, 'flow_problem::periodic_flow_past_array::f', 3); p.vector('flow_problem::periodic_flow_past_array::force', f, 'the force, one component per space dimension')
last = lambda p, i, v: Ind(Eq(P(i), p.d - 1)) * v
@field('linelast_disp::init_disp', given=True)
def _(u, p): r = glob(u, 'linelast_disp::rdisp_f'); p.vector('linelast_disp::init_disp', lambda i: last(p, i, P(Fraction(-1, 5)) * p.x(0) * r), '-0.2 x rdisp_f in the last component')
@field('linelast_disp::init_disp_lcantilever', given=True)
def _(u, p): r = glob(u, 'linelast_disp::rdisp_f'); p.vector('linelast_disp::init_disp_lcantilever', lambda i: last(p, i, P(Fraction(-1, 5)) * (p.x(p.d - 1) - 5) * r), '-0.2 (last coordinate - 5) rdisp_f in the last component')
@field('linelast_force::tip_force', given=True)
def _(u, p): r = glob(u, 'linelast_force::rforce_f'); p.vector('linelast_force::tip_force', lambda i: last(p, i, P(Fraction(-1, 100)) * r), '-0.01 rforce_f in the last component')
W = 'linelast_frame_wind::'
@field('linelast_frame_wind::gravity_load', given=True)
def _(u, p): d, g = (glob(u, W + n) for n in ('density', 'g')); p.vector(W + 'gravity_load', lambda i: last(p, i, -d * g), '-density g in the last component')
@field('linelast_frame_wind::wind_load', given=True)
def _(u, p): q = glob(u, W + 'qwind_f'); p.vector(W + 'wind_load', lambda i: E0(i) * q, 'wind force in the first component')
@field('linelast_frame_wind::dirichlet', given=True)
def _(u, p): p.vector(W + 'dirichlet', lambda i: ZERO, 'zero displacement')
C = 'linelast_cwtrain::'
for _n, _on, _c, _q in (('left_disp', 'l', 'l_u', 'u'), ('right_disp', 'r', 'r_f', 'f'), ('up_disp', 'u', 'u_f', 'f'), ('down_disp', 'd', 'd_f', 'f'), ('body_force', 'b', 'b_f', 'b')):
    @field('linelast_cwtrain::' + _n, given=True, lo=2)
    def _(u, p, n=_n, on=_on, c=_c, q=_q):
        ex = p.ex; want = []
        for k, a in enumerate('xy'):
            w = 'b%sf' % a if q == 'b' else a + q; s, f, amp, fr, off = (glob(u, C + m) for m in (on + a, c + a, w + '_amp', w + '_freq', w + '_offset'))
            want.append(Ind(ge0(s - Fraction(1, 2))) * (f + amp * sin(ex, p.pi * fr * (p.x(k) * Fraction(1, 3) + 2 * off))))
        p.vector(C + n, lambda i: E0(i) * want[0] + E0(i, 1) * want[1], 'each component that is switched on: constant part plus amplitude sin(pi frequency (x/3 + 2 offset)); zero where it is switched off')
@field('poisson_spiral::rhs', (2, 3))
def _(u, p):
    ex = p.ex; L, Lw, k, s = (glob(u, 'poisson_spiral::' + n) for n in ('L', 'Lw', 'k', 's')); u.assume(Not(Eq(Lw, ZERO))); pi = p.pi; h = L * Fraction(1, 2)
    r = Sqrt(p.sum(lambda i: (p.x(i) - h) * (p.x(i) - h))); th = FUNCS['atan2'](ex, [p.x(1) - h, p.x(0) - h], None); u.assume(gt0(pi)); th = th + 2 * pi if ex.decide(gt0(-th)) else th; sl = s * L * Inv(4 * pi); arms = [Abs(r - sl * (th + 2 * pi * a)) for a in (-1, 0, 1)]
    mn = lambda a, b: a if ex.decide(Ge(b, a)) else b
    dist = mn(mn(arms[0], arms[1]), arms[2]); old = FUNCS['std::min']
    def smin(ex, a, e): x, y = [ex.num(ex.load(v, e) if isinstance(v, (LVar, LElem)) else v) for v in a[:2]]; return mn(x, y)
    FUNCS['std::min'] = smin if ex.opts.get('spiral', True) else old
    p.scalar('poisson_spiral::rhs', FUNCS['exp'](ex, [-dist * dist * Fraction(1, 2) * Inv(Lw) * Inv(Lw)], None) * cos(ex, 2 * pi * k * dist), 'exp(-dist^2/(2 Lw^2)) cos(2 pi k dist), dist the distance to the nearest arm of the spiral r = s L theta/(4 pi)')
# ---- parameters by name and by index; boundary types
from contracts.c_ctopol import MapOf, mkey
from contracts import c_timer, c_topol, c_h5
from contracts.c_topol import Facts
NULLP = Sym('null', 'obj')
@M.model('map', 'count')
def _(ex, t, a, e): return Ind(MapOf(ex, t.o).has(mkey(ex, a[0], e)))
@M.model('map', '[]')
def _(ex, t, a, e):
    m = MapOf(ex, t.o); k = mkey(ex, a[0], e)
    if not ex.force(m.has(k), e): m.set('has', k, 1); m.set('val', k, 0)
    return LElem(m.r['val'], (k,), 'int')
def problem(u, cls='ParameterizedProblem'):
    """a problem with n parameters; parameter k is the quantity Q[k] (different parameters: different quantities)"""
    ex = u.ex; p = u.obj('problem', cls); n = u.int('param_num', 0); q = ex.newregion((n,), Base(Sym('quantities', 'obj'), 'real'), 'Q'); a = u.obj('param_ptr', 'mfem::Array<double *>'); ex.lazy[(p.o, 'param_ptr')] = a; ex.lazy[(p.o, 'param_num')] = n; ex.lazy[(a.o, 'size')] = n
    r = ex.newregion((n,), Lam(App('padd', q, P(A0), sort='obj'), 'obj'), 'param_ptr'); ex.lazy[(a.o, 'data')] = Ptr(r); mo = u.obj('param_map', 'std::map<std::string, int>'); ex.lazy[(p.o, 'param_map')] = mo
    g = lambda k: P(ex.read(ex.content(q), (P(k),))); g.region = q; return p, n, g, MapOf(ex, mo.o)
byname = lambda f: 'string' in f['params'][0]['t']
byindex = lambda f: 'Array' in f['params'][0]['t']
Q_ = 'ParameterizedProblem::SetParams'
@unit('P19', 'SetParams of a name', files=PP, assume_asserts=True)
def _(u):
    ex = u.ex; p, n, q, m = problem(u); key, v = u.int('name', 0), u.real('value'); i = m.val(key); k = u.int('any_parameter', 0); u.assume(ge0(n - 1 - k)); u.assume(Implies(m.has(key), And(ge0(i), ge0(n - 1 - i)))); s0 = u.old(); known = m.has(key)
    u.run(Q_, [key, ex.heap_var(v, 'real')], p, pred=byname); u.ensure(known, 'an unknown name ends the run'); w = q(k)
    if ex.decide(Eq(k, i)): u.eq(w, v, 'the named quantity has the value')
    else: u.eq(w, u.at(s0, lambda: q(k)), 'every other quantity is unchanged')
from contracts.c_sample import ints
def entries(u, n):
    """c entries (index(b), value(b)) with different indexes; entry b0 and quantity k (named by no entry) are arbitrary"""
    ex = u.ex; c = u.int('num_indexes', 0); f = lambda b: P(App('index_of_entry', P(b), sort='int')); ix = ints(u, 'indexes', c, f); vs = u.vec('values', c); ex.lazy[(vs.o, 'data')] = Ptr(ex.newregion((c,), Lam(P(App('value_of_entry', P(A0))), 'real'), 'values')); k, b0 = u.int('any_parameter', 0), u.int('any_entry', 0); u.assume(ge0(n - 1 - k)); u.assume(ge0(c - 1 - b0)); old = ex.axioms_
    def ax(a):
        r = old(a)
        if a.args[0] == 'index_of_entry': b = P(a.args[1]); r += (ge0(P(a)), ge0(n - 1 - P(a)), Not(Eq(P(a), k))) + (() if b == b0 else (Or(Eq(b, b0), Not(Eq(P(a), f(b0)))), Implies(Eq(b, b0), Eq(P(a), f(b0)))))
        if a.args[0] == 'value_of_entry': r += (Implies(Eq(a.args[1], b0), Eq(P(a), P(App('value_of_entry', b0)))),)
        return r
    ex.axioms_ = ax; ex.axmemo = {}; return c, ix, vs, f, k, b0
@unit('P19', 'SetParams of indexes', files=PP, assume_asserts=True)
def _(u):
    ex = u.ex; p, n, q, m = problem(u); c, ix, vs, f, k, b0 = entries(u, n); s0 = u.old(); v = lambda b: u.at(s0, lambda: P(vget(ex, vs.o, P(b)))); qk = u.at(s0, lambda: q(k)); r = q.region
    at_loop(u, Q_, Facts(lambda ex, T: [(Implies(ge0(P(T) - 1 - b0), Eq(q(f(b0)), v(b0))), 'quantity of an entry that was set'), (Eq(q(k), qk), 'quantity of no entry')], lambda ex: {(r, 'content'): Base(Sym('quantities_at_head', 'obj'), 'real')}))
    u.run(Q_, [ix, vs], p, pred=byindex); u.eq(q(f(b0)), v(b0), 'every listed quantity has its value'); u.eq(q(k), qk, 'every other quantity is unchanged')
# ---- boundary types
ZEROB, DIR, NEU = (P(k) for k in range(3))
def btypes(u, o, n, name='bdr_type'):
    ex = u.ex; a = u.obj(name, 'mfem::Array<BoundaryType>'); ex.lazy[(o, 'bdr_type')] = a; ex.lazy[(a.o, 'size')] = P(n); return lambda b: P(vget(ex, obj(ex.field(o, 'bdr_type')), P(b)))
def flow_types(u, bt, ux, uy, desc, old=None):
    for (i, o), v in (((3, 1), ux), ((0, 2), uy)):
        pos = Ind(gt0(v)); u.eq(bt(i), pos * DIR + (1 - pos) * NEU, desc + ': side %d' % (i + 1)); u.eq(bt(o), pos * NEU + (1 - pos) * DIR, desc + ': side %d' % (o + 1))
    u.eq(bt(4), old, desc + ': the obstacle keeps its type')
def mean(u):
    o = Sym('glob:' + FF + 'flow_problem::component_flow::u0', 'obj'); return o, gvec(u, 'flow_problem::component_flow::u0', 3)
def array_problem(u, p, name, o):
    bt = btypes(u, p.o, 5, name); u.ex.lazy[(p.o, 'u0')] = Ptr(o); return bt
for _how in ('name', 'indexes'):
    for _cls in ('FlowPastArray', 'AdvDiffFlowPastArray'):
        @unit('P19', '%s::SetParams of %s: sides' % (_cls, 'a name' if _how == 'name' else _how), files=PP, assume_asserts=True)
        def _(u, how=_how, cls=_cls):
            ex = u.ex; p, n, q, m = problem(u, cls); o, u0 = mean(u); bts = [(array_problem(u, p, 'bdr_type', o), 'sides')]
            if cls != 'FlowPastArray': f = u.obj('flow', 'FlowPastArray'); ex.lazy[(p.o, 'flow_problem')] = Ptr(f.o); bts.append((array_problem(u, f, 'flow_bdr_type', o), 'sides of the flow problem'))
            old = [bt(4) for bt, d in bts]; set_(ex)
            if how == 'name': u.run('FlowPastArray::SetParams', [u.int('name', 0), ex.heap_var(u.real('value'), 'real')], p, pred=byname)
            else: c, ix, vs, f_, k, b0 = entries(u, n); u.run('FlowPastArray::SetParams', [ix, vs], p, pred=byindex)
            u.eq(ex.field(p.o, 'was_set'), ONE, 'the parameters are set before the sides are chosen'); now = [P(vget(ex, o, P(i))) for i in (0, 1)]
            for (bt, d), ol in zip(bts, old): flow_types(u, bt, now[0], now[1], d, ol)
def set_(ex):
    """calls of ParameterizedProblem::SetParams by their contract: any quantity may change (here: the mean velocity)"""
    ex.opts['setparams'] = True
def _sp(ex, a, e):
    if not ex.opts.get('setparams'): return None
    t = obj(a[0]); ex.put((t, 'was_set'), ONE); o = Sym('glob:' + FF + 'flow_problem::component_flow::u0', 'obj')
    if o in ex.objcls: M.set_own(ex, o, (P(3),), Base(Sym('new_mean', 'obj'), 'real'))
    if ex.opts.get('bdr_idx'): ex.put((Sym('glob:' + FF + 'poisson_component::bdr_idx', 'obj'), 'val'), ex.opts['bdr_idx'])
    return VOID
CONTRACTS['ParameterizedProblem::SetParams'] = _sp
for _how in ('name', 'indexes'):
    @unit('P19', 'PoissonComponent::SetParams of %s: boundary' % ('a name' if _how == 'name' else _how), files=PP, assume_asserts=True)
    def _(u, how=_how):
        ex = u.ex; p, n, q, m = problem(u, 'PoissonComponent'); old = glob(u, 'poisson_component::bdr_idx', 'old_bdr_idx'); new = u.real('bdr_idx'); ex.opts['bdr_idx'] = new; set_(ex); ba = u.obj('battr', 'mfem::Array<int>'); ex.lazy[(p.o, 'battr')] = ba; u.assume(ge0(P(vsize(ex, ba.o)))); fl = P(App('floor', new, sort='int')); u.assume(And(ge0(new - fl), gt0(fl + 1 - new)))
        if how == 'name': u.run('PoissonComponent::SetParams', [u.int('name', 0), ex.heap_var(u.real('value'), 'real')], p, pred=byname)
        else: c, ix, vs, f_, k, b0 = entries(u, n); u.run('PoissonComponent::SetParams', [ix, vs], p, pred=byindex)
        b = P(vget(ex, ba.o, ZERO)); u.eq(vsize(ex, ba.o), ONE, 'one boundary')
        if ex.decide(ge0(new)): u.eq(b, fl + 1, 'the boundary with this index'); u.ensure(And(ge0(b - 1), ge0(4 - b)), 'a boundary of the component')
        else: u.eq(b, P(-1), 'all boundaries')
# ---- constructors: names, quantities, default values, boundary attributes and types
FUNCS['std::to_string'] = lambda ex, a, e: (lambda x: I_.str_code(str(x.const())) if x.const() is not None and x.is_int() else P(App('tostr', x, sort='int')))(P(ex.num(a[0])))
def _req(ex, a, e): return ex.opts.get('preset_name', P(App('problem_name', sort='int')))
for _k in ('InputParser::GetRequiredOption', 'InputParser::GetRequiredOption<std::string>', 'InputParser::GetRequiredOption<std::basic_string<char>>'):
    def _mk(k):
        old = CONTRACTS.get(k); CONTRACTS[k] = lambda ex, a, e: _req(ex, a, e) if ex.opts.get('preset') else old(ex, a, e) if old else None
    _mk(_k)
FP = 'flow_problem::'; LP = 'linelast_problem::'; CW = 'linelast_cwtrain::'; AQ = 'advdiff_problem::advdiff_flow_past_array::'; BFS = FP + 'backward_facing_step::'; CF = FP + 'component_flow::'
def v3(names, qn, d): return [(n, (qn, i), d) for i, n in enumerate(names)]
LAME = [('lambda', LP + '_lambda', 1), ('mu', LP + '_mu', 1)]
DISP = dict(params=[('rdisp_f', 'linelast_disp::rdisp_f', 1)] + LAME, scal=[LP + 'lambda', LP + 'mu'])
CFP = [('nu', FP + 'nu', 1)] + v3(['u0_x', 'u0_y', 'u0_z'], CF + 'u0', 0) + v3(['du_x', 'du_y', 'du_z'], CF + 'du', 1) + v3(['offsets_x', 'offsets_y', 'offsets_z'], CF + 'offsets', 0) + [('k_%s_%s' % (a, b), (CF + 'k', (j, i)), 1) for i, a in enumerate('uvw') for j, b in enumerate('xyz')]
PFA = dict(params=[('nu', FP + 'nu', 1)] + v3(['fx', 'fy', 'fz'], FP + 'periodic_flow_past_array::f', 0), battr=[5], types='Z', vec=None, rhs=FP + 'periodic_flow_past_array::force')
CFLOW = dict(params=CFP, battr=[1, 2, 3, 4, 5], types='DDDDZ', vec=CF + 'ubdr', rhs=None)
five = [1, 2, 3, 4, 5]
FACTS = {   # names -> quantities (array, index) and default values; listed boundary attributes; types (Z zero, D Dirichlet, N Neumann); field on each boundary; right-hand side
 'Poisson0': dict(params=[('k', 'poisson0::k', 1), ('offset', 'poisson0::offset', 0)], battr=[-1], types='Z', sbdr=None, srhs='poisson0::rhs'),
 'PoissonComponent': dict(params=v3(['k0', 'k1', 'k2'], 'poisson_component::k', 0) + [('offset', 'poisson_component::offset', Fraction(1, 10))] + v3(['bdr_k0', 'bdr_k1', 'bdr_k2'], 'poisson_component::bdr_k', 0) + [('bdr_offset', 'poisson_component::bdr_offset', 0), ('bdr_idx', 'poisson_component::bdr_idx', -1)], battr=[-1], types='D', sbdr='poisson_component::bdr', srhs='poisson_component::rhs'),
 'PoissonSpiral': dict(params=[(n, 'poisson_spiral::' + n, d) for n, d in (('L', 1), ('Lw', Fraction(1, 5)), ('k', 1), ('s', Fraction(3, 5)))], battr=[-1], types='Z', sbdr=None, srhs='poisson_spiral::rhs'),
 'ChannelFlow': dict(params=[('nu', FP + 'nu', 1)] + [(n, FP + 'channel_flow::' + n, d) for n, d in (('L', 1), ('U', 1), ('x0', Fraction(1, 2)))], battr=five, types='ZNZDZ', vec=FP + 'channel_flow::ubdr', rhs=None),
 'ComponentFlow': CFLOW, 'FlowPastArray': CFLOW,
 'BackwardFacingStep': dict(params=[('nu', FP + 'nu', 1), ('y0', BFS + 'y0', 0), ('y1', BFS + 'y1', 1), ('u0', BFS + 'u0', 1)] + [('%s%d' % (n, m), (BFS + n, m), 0) for m in range(2) for n in ('amp', 'ky', 'freq', 't_offset')], battr=[1, 2, 3], types='DZN', vec=BFS + 'ubdr', rhs=None, ic=[BFS + 'uic', BFS + 'pic']),
 'LidDrivenCavity': dict(params=[('nu', FP + 'nu', 1), ('u0', FP + 'lid_driven_cavity::u0', 1), ('L', FP + 'lid_driven_cavity::L', 1)], battr=five, types='?ZDZZ', vec=FP + 'lid_driven_cavity::ubdr', rhs=None),
 'PeriodicFlowPastArray': PFA, 'ForceDrivenCorner': dict(PFA, battr=five, types='ZZNNZ'),
 'LinElastDisp': dict(DISP, battr=[1, 2, 3], types='DDZ', vec=['linelast_disp::init_disp'] * 2 + [None], gen=['linelast_disp::init_disp']),
 'LinElastDispLCantilever': dict(DISP, battr=[1, 2, 3], types='DDN', vec=['linelast_disp::init_disp_lcantilever'] * 2 + [None], gen=[None]),
 'LinElastDispLattice': dict(DISP, battr=five, types='NDNDN', vec=[None, 'linelast_disp::init_disp', None, 'linelast_disp::init_disp', None], gen=[None]),
 'LinElastForceCantilever': dict(params=[('rforce_f', 'linelast_force::rforce_f', 1)] + LAME, scal=[LP + 'lambda', LP + 'mu'], battr=five, types='NNNDN', vec=[None, 'linelast_force::tip_force', None, 'linelast_disp::init_disp', None], gen=[None]),
 'LinElastFrameWind': dict(params=[('lambda', LP + '_lambda', 3846153846), ('mu', LP + '_mu', 769230769)] + [(n, 'linelast_frame_wind::' + n, d) for n, d in (('qwind_f', 500), ('density', Fraction(157, 2)), ('g', Fraction(981, 100)))], scal=[LP + 'lambda', LP + 'mu'], battr=five, types='NNNDN', vec=['linelast_frame_wind::wind_load', None, None, 'linelast_frame_wind::dirichlet', None], rhs='linelast_frame_wind::gravity_load', gen=[None]),
 'LinElastComponentWiseTrain': dict(params=LAME + [(n, CW + n, 0) for n in ('l_ux', 'l_uy', 'r_fx', 'r_fy', 'u_fx', 'u_fy', 'd_fx', 'd_fy', 'b_fx', 'b_fy') + tuple(a + b for a in 'lrudb' for b in 'xy')] + [('%s_%s' % (w, k), '%s%s_%s' % (CW, w, k), d) for w in ('xu', 'xf', 'yu', 'yf', 'bxf', 'byf') for k, d in (('amp', 1), ('freq', 1), ('offset', 0))], scal=[LP + 'lambda', LP + 'mu'], battr=five, types='NNNDN', vec=[CW + n + '_disp' for n in ('down', 'right', 'up', 'left')] + [None], gen=[CW + 'body_force']),
 'AdvDiffFlowPastArray': dict(params=CFP + [(n, AQ + n, d) for n, d in (('q0', 1), ('dq', Fraction(1, 10)), ('qoffset', 0))] + v3(['qk_x', 'qk_y', 'qk_z'], AQ + 'qk', 0), battr=five, types='DDDDN', sbdr=[AQ + 'qbdr'] * 5, srhs=None),
}
def _mapctor(ex, o, args, e):
    if args: raise Unsupported('map constructor')
    m = MapOf(ex, o)
    for w in ('has', 'val'): ex.put((m.r[w], 'content'), Lam(ZERO, 'int'))
CTORS['map'] = _mapctor
_vct = CTORS['vector']
def _vec_n(ex, o, args, e):
    if not ex.opts.get('preset'): return _vct(ex, o, args, e)
    n = ex.num(args[0]) if args else ZERO; ex.put((o, 'size'), n); M.set_own(ex, o, (n,), Lam(ZERO, 'int'))
CTORS['vector'] = _vec_n
def build(u, cls):
    ex = u.ex; ex.opts['preset'] = ex.opts['implicit'] = ex.opts['maps'] = True; mathf(ex); [gvec(u, 'poisson_component::' + n, 3) for n in ('k', 'bdr_k')]; o = u.obj('problem', cls); ex.lazy[(o.o, 'param_num')] = P(Sym('uninitialised', 'int')); f = u.find('%s::%s' % (cls, cls)); ex.under.add(f['key']); ex.call_ctor(f, o.o, []); return o
def quantity(ex, q):
    if isinstance(q, str): return P(ex.num(ex.load(LVar((Sym('glob:' + FF + q, 'obj'), 'val'), 'double'))))
    o = Sym('glob:' + FF + q[0], 'obj'); ex.objcls.setdefault(o, 'mfem::DenseMatrix' if isinstance(q[1], tuple) else 'mfem::Vector'); return P(mget(ex, o, P(q[1][0]), P(q[1][1]))) if isinstance(q[1], tuple) else P(vget(ex, o, P(q[1])))
def points_to(u, v, fnname, desc):
    v = v.obj if isinstance(v, Ptr) else v; v = None if v is None or isinstance(v, Atom) and v.args[0] == 'null' else v; want = None if fnname is None else Sym('function:' + FF + fnname, 'obj'); u.ensure(TRUE if v is want else FALSE, desc)
for _cls in FACTS:
    @unit('P19', '%s: names, quantities and boundaries' % _cls, files=PP, assume_asserts=True)
    def _(u, cls=_cls):
        from vc.interp import str_code
        ex = u.ex; o = build(u, cls); F_ = FACTS[cls]; ps = F_['params']; fld = lambda f: ex.field(o.o, f); u.eq(fld('param_num'), P(len(ps)), 'number of parameters')
        for n, q, d in ps: u.eq(quantity(ex, q), P(d), 'default value of ' + n)
        arr = lambda f: obj(fld(f)); size = lambda f: P(vsize(ex, arr(f)))
        for f in ('battr', 'bdr_type'): u.eq(size(f), P(len(F_['battr'])), 'number of boundaries: ' + f)
        for k, (b, t) in enumerate(zip(F_['battr'], F_['types'])):
            u.eq(vget(ex, arr('battr'), P(k)), P(b), 'boundary attribute %d' % k)
            if t != '?': u.eq(vget(ex, arr('bdr_type'), P(k)), P('ZDN'.index(t)), 'type of boundary attribute %d' % b)
        for key, f in (('sbdr', 'scalar_bdr_ptr'), ('vec', 'vector_bdr_ptr'), ('ic', 'ic_ptr'), ('gen', 'general_vector_ptr'), ('scal', 'general_scalar_ptr')):
            if key in F_:
                w = F_[key]; w = w if isinstance(w, list) else [w] * len(F_['battr']); u.eq(size(f), P(len(w)), 'number of fields: ' + f)
                for k, x in enumerate(w): points_to(u, vget(ex, arr(f), P(k)), x, '%s[%d]' % (f, k))
        for key, f in (('srhs', 'scalar_rhs_ptr'), ('rhs', 'vector_rhs_ptr')):
            if key in F_: points_to(u, fld(f), F_[key], f)
        vals = [u.real('value_of_' + n) for n, q, d in ps]
        for (n, q, d), v in zip(ps, vals): u.run(Q_, [str_code(n), ex.heap_var(v, 'real')], o, pred=byname)
        for (n, q, d), v in zip(ps, vals): u.eq(quantity(ex, q), v, 'quantity set by the name ' + n)
        if cls == 'AdvDiffFlowPastArray': f = fld('flow_problem'); u.ensure(ex.nonnull(f), 'flow problem'); u.eq(ex.field(f.obj, 'param_num'), P(len(CFP)), 'parameters of the flow problem'); u.ensure(TRUE if ex.load(LVar((Sym('glob:' + FF + 'advdiff_problem::flow_problem', 'obj'), 'val'), 'FlowProblem *')).obj is f.obj else FALSE, 'the flow solver uses the flow problem of this problem')
        if 'PastArray' in cls and 'Periodic' not in cls: u.ensure(TRUE if fld('u0').obj is Sym('glob:' + FF + CF + 'u0', 'obj') else FALSE, 'the sides follow the mean velocity')
NAMES = {'poisson0': 'Poisson0', 'poisson_component': 'PoissonComponent', 'poisson_spiral': 'PoissonSpiral', 'channel_flow': 'ChannelFlow', 'component_flow': 'ComponentFlow', 'flow_past_array': 'FlowPastArray', 'backward_facing_step': 'BackwardFacingStep', 'lid_driven_cavity': 'LidDrivenCavity', 'force_driven_corner': 'ForceDrivenCorner', 'periodic_flow_past_array': 'PeriodicFlowPastArray', 'linelast_disp': 'LinElastDisp', 'linelast_disp_lcantilever': 'LinElastDispLCantilever', 'linelast_disp_lattice': 'LinElastDispLattice', 'linelast_force_cantilever': 'LinElastForceCantilever', 'linelast_cwtrain': 'LinElastComponentWiseTrain', 'linelast_frame_wind': 'LinElastFrameWind', 'advdiff_flow_past_array': 'AdvDiffFlowPastArray'}
@unit('P19', 'InitParameterizedProblem: the named problem', files=PP, assume_asserts=True)
def _(u):
    ex = u.ex; ex.opts['preset'] = True; name = ex.opts['preset_name'] = u.int('name', 0); made = []
    ex.opts['new'] = {c: (lambda c: lambda ex, a, e: (made.append(c), Ptr(u.obj('made_' + c, c).o))[1])(c) for c in FACTS}; r = u.run('InitParameterizedProblem', []); u.ensure(ex.nonnull(r), 'an unknown name ends the run'); want = [n for n, c in NAMES.items() if c == made[-1]]; u.eq(name, I_.str_code(want[0]), 'problem %s' % made[-1]); u.ensure(TRUE if r.obj is Sym('made_' + made[-1], 'obj') else FALSE, 'the new problem is returned')
