"""P14: parameter sampling."""
from vc.unit import *
PF = ('src/parameter.cpp', 'src/etc.cpp')
# ---- real functions: normal form exp(sum) with log of products expanded (positive arguments)
def pos_factors(ex, p, e):
    """p as coefficient * product of atom^exponent"""
    p = P(p)
    if len(p.t) != 1: return None
    (m, c), = p.t.items(); return c, list(m)
def mlog(ex, p, e=None):
    p = P(p); ex.oblige('domain', gt0(p), 'argument of log is positive', e) if e is not None else None
    f = pos_factors(ex, p, e)
    if f is None: return P(App('log', p, sort='real'))
    c, m = f; r = P(App('log', P(c), sort='real')) if c != 1 else ZERO
    for a, k in m:
        if a.kind == 'inv': r = r - k * mlog(ex, a.args[0])
        elif a.kind == 'app' and a.args[0] == 'exp': r = r + k * P(a.args[1])
        else: r = r + k * P(App('log', P(a), sort='real'))
    return r
def mexp(ex, p):
    p = ex.simp_(P(p)) if hasattr(ex, 'simp_') else P(p); rest = ZERO; out = P(1)
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].args[0] == 'log' and c.denominator == 1:
            a = P(m[0][0].args[1]); out = out * (a ** int(c) if c > 0 else Inv(a) ** int(-c))
        else: rest = rest + Poly({m: c})
    if not rest.t: return out
    r = P(App('exp', rest, sort='real')); ex.ctx.assume(gt0(r)); return out * r
def mpow(ex, a, e):
    b, n = ex.num(a[0]), ex.num(a[1]); c = n.const()
    if c is not None and c.denominator == 1 and 0 <= c <= 6: return b ** int(c)
    return mexp(ex, n * mlog(ex, b, e))
FUNCS['log'] = FUNCS['std::log'] = lambda ex, a, e: mlog(ex, ex.num(a[0]), e)
FUNCS['exp'] = FUNCS['std::exp'] = lambda ex, a, e: mexp(ex, ex.num(a[0]))
_oldpow = FUNCS.get('pow')
FUNCS['pow'] = FUNCS['std::pow'] = lambda ex, a, e: mpow(ex, a, e)
# ---- configuration: P13's contracts
def _set(ex, a, e):
    v = a[2]
    if isinstance(v, (LVar, LElem)): v = ex.load(v, e)
    ex.opts.setdefault('sets', []).append((a[0].o, ex.str_val(a[1]), v, norm_type(e.get('sig', ['?', '?'])[1])[0])); return VOID
def _required(ex, a, e): return _opt(ex, a, e, None)
def _opt(ex, a, e, d):
    if 'options' not in ex.opts: return None      # P13: the body is what is verified
    k = code_str(ex.str_val(a[1])); s = ex.opts['options'].get(k)
    if s is None: raise Unsupported('option %s' % k)
    if (d is not None) != s[1]: ex.oblige('post', FALSE, 'option %s is %s' % (k, 'optional' if s[1] else 'required'), e)
    return s[0]
SETS = 'SetOption'
M.model('InputParser', 'SetOption')(lambda ex, t, a, e: _set(ex, [t] + a, e))
CONTRACTS['InputParser::SetOption'] = lambda ex, a, e: None if 'config' in ex.opts else _set(ex, a, e)
CONTRACTS['InputParser::GetRequiredOptionFromDict'] = lambda ex, a, e: _required(ex, a, e)
CONTRACTS['InputParser::GetOptionFromDict'] = lambda ex, a, e: _opt(ex, a, e, a[2])
def _uniform(ex, a, e):
    if len(a) == 0:
        r = P(Fresh('U', 'real')); ex.ctx.assume(ge0(r)); ex.ctx.assume(gt0(1 - r)); ex.opts.setdefault('draws', []).append(r); return r
    lo, hi = ex.num(a[0]), ex.num(a[1]); ex.oblige('pre', ge0(hi - lo), 'the range of the random integer is not empty', e)
    r = P(Fresh('R', 'int')); ex.ctx.assume(ge0(r - lo)); ex.ctx.assume(ge0(hi - r)); return r
CONTRACTS['UniformRandom'] = _uniform
FUNCS['string_format'] = lambda ex, a, e: P(App('string_format', *[P(ex.str_val(a[0]))] + [P(ex.num(x)) for x in a[1:]], sort='int'))

def strvec(u, n, srt='int'):
    ex = u.ex; v = u.obj(n, 'std::vector<std::basic_string<char>>'); r = App('reg', v.o, sort='obj'); ex.objcls[r] = '#region'; ex.lazy[(r, 'content')] = Base(Sym(n, 'obj'), srt); ex.lazy[(r, 'shape')] = (vsize(ex, v.o),); ex.lazy[(v.o, 'data')] = Ptr(r); return v
class Par:
    def __init__(self, u, cls, log=None):
        ex = self.ex = u.ex; self.u = u; self.cls = cls; self.t = u.obj('param', cls); o = self.t.o; self.parser = u.obj('parser', 'InputParser')
        real = cls == 'DoubleParam'; self.lo, self.hi = (u.real('minimum'), u.real('maximum')) if real else (u.int('minimum'), u.int('maximum')); self.size = u.int('size', 1); self.key = u.int('key', 0)
        u.assume(ge0(self.hi - self.lo))
        for f, v in (('minval', self.lo), ('maxval', self.hi), ('size', self.size), ('key', self.key)): ex.lazy[(o, f)] = v
        if real: ex.lazy[(o, 'log_scale')] = TRUE if log else FALSE
        if log: u.assume(gt0(self.lo)); u.assume(gt0(self.hi))
        self.fmt = u.int('format', 0); ex.lazy[(o, 'format')] = self.fmt
    def one_set(self, type_):
        """the single option written, with the key of the parameter, on the parser given"""
        s = self.ex.opts.get('sets', []); u = self.u; u.ensure(TRUE if len(s) == 1 else FALSE, 'exactly one option is set (%d)' % len(s))
        if len(s) != 1: raise PathDone()
        p, k, v, t = s[0]; u.ensure(TRUE if p is self.parser.o else FALSE, 'the option is set in the parser given'); u.eq(k, self.key, 'the option set is the one the parameter names')
        u.ensure(TRUE if type_ == t or type_ == 'std::string' and 'basic_string' in t else FALSE, 'the option is set as a %s (%s)' % (type_, t)); return v
    def frame(self):
        for f, v in (('minval', self.lo), ('maxval', self.hi), ('size', self.size), ('key', self.key), ('format', self.fmt)): self.u.eq(self.ex.field(self.t.o, f), v, 'the parameter is not changed: ' + f)
def Lg(x): return P(App('log', P(x), sort='real'))
@unit('P14', 'DoubleParam::SetParam, equally spaced', files=PF)
def _(u):
    p = Par(u, 'DoubleParam', False); i = u.idx('index', p.size); u.run('DoubleParam::SetParam', [i, p.parser], p.t); v = P(u.ex.num(p.one_set('double'))); p.frame()
    if u.ex.decide(Eq(p.size, 1)): u.eq(v, p.lo, 'a single sample gives the minimum')
    else:
        u.eq(v * (p.size - 1), p.lo * (p.size - 1) + i * (p.hi - p.lo), 'equally spaced values')
        u.eq(subst(v, {i.atom(): ZERO}), p.lo, 'the first value is the minimum'); u.eq(subst(v, {i.atom(): p.size - 1}), p.hi, 'the last value is the maximum')
@unit('P14', 'DoubleParam::SetParam, geometrically spaced', files=PF)
def _(u):
    u.ex.note('log, exp and pow are the real functions (log of products and quotients of positive numbers, exp of sums)')
    p = Par(u, 'DoubleParam', True); i = u.idx('index', p.size); u.run('DoubleParam::SetParam', [i, p.parser], p.t); v = P(u.ex.num(p.one_set('double'))); p.frame()
    if u.ex.decide(Eq(p.size, 1)): u.eq(remath(u, v, {i.atom(): ZERO}), p.lo, 'a single sample (index 0) gives the minimum')
    else:
        w = Inv(p.size - 1)
        u.eq(mlog(u.ex, v), Lg(p.lo) + i * w * (Lg(p.hi) - Lg(p.lo)), 'logarithms are equally spaced')
        u.eq(remath(u, v, {i.atom(): ZERO}), p.lo, 'the first value is the minimum'); m = u.int('steps', 1); u.eq(remath(u, v, {i.atom(): m, p.size.atom(): m + 1}), p.hi, 'the last value is the maximum')
def remath(u, v, m):
    """substitute and renormalise exp"""
    def fn(a):
        if a.kind == 'app' and a.args[0] == 'exp': return mexp(u.ex, deep_simp(u.ex, subst(P(a.args[1]), m)))
        return None if a.kind in ('inv', 'sqrt', 'abs') else P(a)
    return deep_simp(u.ex, subst(rewrite(v, fn), m))
@unit('P14', 'DoubleParam::SetRandomParam, uniform', files=PF)
def _(u):
    p = Par(u, 'DoubleParam', False); u.run('DoubleParam::SetRandomParam', [p.parser], p.t); v = P(u.ex.num(p.one_set('double'))); p.frame()
    u.ensure(And(ge0(v - p.lo), ge0(p.hi - v)), 'the value lies between minimum and maximum')
@unit('P14', 'DoubleParam::SetRandomParam, logarithmic', files=PF)
def _(u):
    p = Par(u, 'DoubleParam', True); u.run('DoubleParam::SetRandomParam', [p.parser], p.t); v = P(u.ex.num(p.one_set('double'))); p.frame()
    R = Lg(p.hi) - Lg(p.lo); w = mlog(u.ex, v)
    u.ex.note('lemma: log is increasing, so minimum <= v <= maximum iff log minimum <= log v <= log maximum'); u.assume(ge0(R))
    u.ensure(And(ge0(w - Lg(p.lo)), ge0(Lg(p.hi) - w)), 'the value lies between minimum and maximum')
def int_spec(u, p, i, v):
    q = P(FloorDiv(p.hi - p.lo, p.size - 1)) if not u.ex.ctx.entails(Eq(p.size, 1)) else p.hi - p.lo
    u.eq(v, p.lo + i * q, 'integers at a constant distance from the minimum')
    if u.ex.ctx.entails(Eq(p.size, 1)): u.eq(v, p.lo, 'a single sample gives the minimum')
    else:
        u.ensure(ge0(v - p.lo), 'never below the minimum')
        u.ensure(ge0(p.hi - v), 'never above the maximum')
@unit('P14', 'IntegerParam::GetInteger', files=PF)
def _(u):
    p = Par(u, 'IntegerParam'); i = u.idx('index', p.size); u.ex.decide(Eq(p.size, 1)); v = P(u.ex.num(u.run('IntegerParam::GetInteger', [i], p.t))); p.frame(); int_spec(u, p, i, v)
@unit('P14', 'IntegerParam::SetParam', files=PF)
def _(u):
    p = Par(u, 'IntegerParam'); i = u.idx('index', p.size); u.ex.decide(Eq(p.size, 1)); u.run('IntegerParam::SetParam', [i, p.parser], p.t); v = P(u.ex.num(p.one_set('int'))); p.frame(); int_spec(u, p, i, v)
@unit('P14', 'IntegerParam::SetRandomParam', files=PF)
def _(u):
    p = Par(u, 'IntegerParam'); u.run('IntegerParam::SetRandomParam', [p.parser], p.t); v = P(u.ex.num(p.one_set('int'))); p.frame()
    u.ensure(And(ge0(v - p.lo), ge0(p.hi - v)), 'between minimum and maximum')
def fmtint(u, p, v):
    """the integer whose formatting v is"""
    a = P(u.ex.str_val(v)).atom(); u.ensure(TRUE if a is not None and a.kind == 'app' and a.args[0] == 'string_format' and len(a.args) == 3 else FALSE, 'the value is the formatted integer')
    if a is None or a.kind != 'app' or a.args[0] != 'string_format' or len(a.args) != 3: raise PathDone()
    u.eq(P(a.args[1]), p.fmt, 'formatted with the format of the parameter'); return P(a.args[2])
@unit('P14', 'FilenameParam::SetParam', files=PF)
def _(u):
    p = Par(u, 'FilenameParam'); i = u.idx('index', p.size); u.ex.decide(Eq(p.size, 1)); u.run('FilenameParam::SetParam', [i, p.parser], p.t); v = fmtint(u, p, p.one_set('std::string')); p.frame(); int_spec(u, p, i, v)
@unit('P14', 'FilenameParam::SetRandomParam', files=PF)
def _(u):
    p = Par(u, 'FilenameParam'); u.run('FilenameParam::SetRandomParam', [p.parser], p.t); v = fmtint(u, p, p.one_set('std::string')); p.frame()
    u.ensure(And(ge0(v - p.lo), ge0(p.hi - v)), 'between minimum and maximum')
@unit('P14', 'FilenameParam::ParseFilenames', files=PF)
def _(u):
    ex = u.ex; p = Par(u, 'FilenameParam'); v = strvec(u, 'filenames'); n0 = u.int('n0', 0); ex.lazy[(v.o, 'size')] = n0
    f0 = P(vget(ex, v.o, P(Sym('j0', 'int'))))
    class Inv_(LoopInv):
        def state(self, ex, T, pre):
            return {(v.o, 'size'): n0 + T, (ex.field(v.o, 'data').obj, 'content'): self.c}
        def enter(self, ex, s): pass
    b = u.int('b'); 
    def fact(ex, k, add):
        add((P(vget(ex, v.o, n0 + k)), P(App('string_format', p.fmt, p.lo + k, sort='int'))), 'name number k of the range')
    o0 = u.int('o', 0); u.assume(ge0(n0 - 1 - o0)); old = P(vget(ex, v.o, o0))
    class Inv2(AllInv):
        def state(self, ex, T, pre):
            d = AllInv.state(self, ex, T, pre); d[(v.o, 'size')] = n0 + T; return d
        def assume(self, ex, T):
            AllInv.assume(self, ex, T); a, b2 = None, None
            ex.ctx.assume(Eq(P(vget(ex, v.o, o0)), old))
        def check(self, ex, T, s):
            u.eq(vsize(ex, v.o), n0 + T + 1, 'one name is appended'); u.eq(P(vget(ex, v.o, o0)), old, 'earlier names are kept')
            AllInv.check(self, ex, T, s)
    inv = Inv2(u, lambda ex: [((ex.field(v.o, 'data').obj, 'content'), 'int')], fact)
    inv.prove_ = None
    def assume(ex, T):
        ex.ctx.assume(ge0(inv.b)); ex.ctx.assume(ge0(T - 1 - inv.b)); ex.ctx.assume(Eq(P(vget(ex, v.o, n0 + inv.b)), P(App('string_format', p.fmt, p.lo + inv.b, sort='int')))); ex.ctx.assume(Eq(P(vget(ex, v.o, o0)), old))
    inv.assume = assume
    at_loop(u, 'FilenameParam::ParseFilenames', inv); u.run('FilenameParam::ParseFilenames', [v], p.t); p.frame()
    n = p.hi - p.lo + 1; u.eq(vsize(ex, v.o), n0 + n, 'one name for every integer of the range')
def ctor(u, cls, opts):
    ex = u.ex; ex.opts['options'] = {k: (u.real(k) if t == 'real' else (BAtom(Sym(k, 'bool')) if t == 'bool' else u.int(k)), opt) for k, t, opt in opts}
    o = u.obj('p', cls); f = u.find(cls + '::' + cls, nparams=2); ex.under.add(f['key']); k = u.int('key', 0); ex.call_ctor(f, o.o, [k, u.obj('option', 'YAML::Node')])
    u.eq(ex.field(o.o, 'key'), k, 'the key is kept'); g = ex.opts['options']
    for fld, opt in (('minval', 'minimum'), ('maxval', 'maximum'), ('format', 'format')):
        if opt in g: u.eq(ex.field(o.o, fld), g[opt][0], '%s is read from "%s"' % (fld, opt))
    if 'log_scale' in g:
        a, b = ex.boolean(ex.field(o.o, 'log_scale')), g['log_scale'][0]; u.ensure(And(Implies(a, b), Implies(b, a)), 'log_scale is read from "log_scale"')
@unit('P14', 'DoubleParam constructor', files=PF)
def _(u): ctor(u, 'DoubleParam', (('minimum', 'real', False), ('maximum', 'real', False), ('log_scale', 'bool', True)))
@unit('P14', 'IntegerParam constructor', files=PF)
def _(u): ctor(u, 'IntegerParam', (('minimum', 'int', False), ('maximum', 'int', False)))
@unit('P14', 'FilenameParam constructor', files=PF)
def _(u): ctor(u, 'FilenameParam', (('minimum', 'int', False), ('maximum', 'int', False), ('format', 'int', False)))
@unit('P14', 'Parameter::SetSize', files=PF)
def _(u):
    t = u.obj('param', 'IntegerParam'); u.ex.lazy[(t.o, 'key')] = u.int('key', 0); n = u.int('n', 1); u.run('Parameter::SetSize', [n], t); u.eq(u.ex.field(t.o, 'size'), n, 'the sample size is stored')
    u.eq(u.ex.num(u.run('Parameter::GetSize', [], t)), n, 'and reported'); k = u.ex.field(t.o, 'key'); u.eq(u.ex.str_val(u.run('Parameter::GetKey', [], t)), P(k), 'the key is reported')
ETCF = ('src/etc.cpp',)
def _dist(sort):
    def c(ex, o, args, e):
        if len(args) != 2: raise Unsupported('distribution without bounds')
        lo, hi = ex.num(args[0]), ex.num(args[1]); ex.oblige('pre', ge0(hi - lo), 'the range of the distribution is not empty', e); ex.put((o, 'lo'), lo); ex.put((o, 'hi'), hi)
    return c
CTORS['uniform_int_distribution'] = _dist('int'); CTORS['uniform_real_distribution'] = _dist('real')
for n_, s_ in (('uniform_int_distribution', 'int'), ('uniform_real_distribution', 'real')):
    def _draw(ex, t, a, e, s_=s_):
        if ex.get((t.o, 'lo')) is None:
            g = next((g for q, g in ex.prog.globals.items() if 'glob:' + q == t.o.args[0]), None)
            if g is None or g['init'] is None: raise Unsupported('distribution of unknown bounds')
            i = g['init']
            while i.get('k') == 'Cast': i = i['e']
            CTORS['uniform_%s_distribution' % s_](ex, t.o, ex.eval_args(i['args'], i['sig']), e)
        lo, hi = ex.get((t.o, 'lo')), ex.get((t.o, 'hi')); r = P(Fresh('draw', s_)); ex.ctx.assume(ge0(r - lo)); ex.ctx.assume(ge0(hi - r)); ex.note('a standard distribution draws values within its bounds'); return r
    MODELS[(n_, '()')] = _draw
MODELS[('copy', 'Node')] = lambda ex, o, src, e: ex.put((o, 'ident'), ex.get((src.o, 'ident')) or src.o)
@unit('P14', 'UniformRandom of integers', files=ETCF)
def _(u):
    lo = u.int('lo'); hi = u.int('hi'); u.assume(ge0(hi - lo)); r = P(u.ex.num(u.run('UniformRandom', [lo, hi], nparams=2))); u.ensure(And(ge0(r - lo), ge0(hi - r)), 'between the two bounds')
@unit('P14', 'UniformRandom of reals', files=ETCF)
def _(u):
    r = P(u.ex.num(u.run('UniformRandom', [], nparams=0))); u.ensure(And(ge0(r), ge0(1 - r)), 'between 0 and 1')
