"""P17: basis tags, the timer class and timer balance of every timed operation."""
import json
from vc.unit import *
TAG = ('src/hdf5_utils.cpp',)
BT = 'mfem::BasisTag'
# ------------------------------------------------------------------ basis tags
def tag(u, n):
    t = u.obj(n, BT)
    for f in ('comp', 'var'):
        v = P(Sym(n + '.' + f, 'int')); u.assume(ge0(v)); u.ex.lazy[(t.o, f)] = v
    return t
def parts(u, t): return tuple(u.ex.field(t.o, f) for f in ('comp', 'var'))
def lt(u, a, b): return u.ex.boolean(u.run(BT + '::operator<', [b], a))
def eq_(u, a, b): return u.ex.boolean(u.run(BT + '::operator==', [b], a))
@unit('P17', 'BasisTag equality', files=TAG)
def _(u):
    u.ex.note('std::string comparison is a total order with the empty string least (strings are order-embedded into the integers)')
    a, b = tag(u, 'a'), tag(u, 'b'); e = eq_(u, a, b); same = And(*[Eq(x, y) for x, y in zip(parts(u, a), parts(u, b))])
    u.ensure(Implies(e, same), 'equal tags agree in both parts'); u.ensure(Implies(same, e), 'tags that agree in both parts are equal')
    u.ensure(eq_(u, a, a), 'a tag equals itself')
@unit('P17', 'BasisTag order', files=TAG)
def _(u):
    a, b, c = tag(u, 'a'), tag(u, 'b'), tag(u, 'c'); e = eq_(u, a, b); x, y = lt(u, a, b), lt(u, b, a)
    u.ensure(Not(lt(u, a, a)), 'irreflexive'); u.ensure(Not(And(x, y)), 'asymmetric'); u.ensure(Implies(And(x, lt(u, b, c)), lt(u, a, c)), 'transitive')
    u.ensure(Or(x, y, e), 'two different tags are ordered'); u.ensure(Implies(e, Not(Or(x, y))), 'equal tags are not ordered')
@unit('P17', 'BasisTag::print', files=TAG)
def _(u):
    a = tag(u, 'a'); s = u.old(); r = u.ex.str_val(u.run(BT + '::print', [], a)); c, v = parts(u, a)
    if u.ex.decide(Eq(v, 0)): u.eq(r, c, 'without a variable the name is the component')
    else: u.eq(r, u.ex.str_cat(u.ex.str_cat(c, str_code('_')), v), 'component, underscore, variable')
    for f, z in zip(('comp', 'var'), (c, v)): u.eq(u.ex.field(a.o, f), u.at(s, lambda: z), 'the tag is not changed')
@unit('P17', 'BasisTag construction and assignment', files=TAG)
def _(u):
    ex = u.ex; a, b = tag(u, 'a'), tag(u, 'b'); pa = parts(u, a); u.run(BT + '::operator=', [a], b)
    for x, y in zip(parts(u, b), pa): u.eq(x, y, 'assignment copies both parts')
    for x, y in zip(parts(u, a), pa): u.eq(x, y, 'the source is not changed')
    f = u.find(BT + '::BasisTag', nparams=2); t = u.obj('t', BT); ex.under.add(f['key']); ex.call_ctor(f, t.o, [pa[0], pa[1]])
    for x, y in zip(parts(u, t), pa): u.eq(x, y, 'the tag stores the two parts given')
    f = u.find(BT + '::BasisTag', nparams=0); t = u.obj('d', BT); ex.under.add(f['key']); ex.call_ctor(f, t.o, [])
    for x in parts(u, t): u.eq(x, ZERO, 'a default tag is empty')

# ------------------------------------------------------------------ the timer class
class Map:
    """std::unordered_map<std::string,int>: ghost regions 'has' and 'val' indexed by the key"""
    def __init__(self, ex, o):
        self.o = o; self.ex = ex; self.r = {}
        for k, s in (('has', 'int'), ('val', 'int')):
            r = App('map_' + k, o, sort='obj'); ex.objcls[r] = '#region'; ex.lazy[(r, 'content')] = Base(Sym('m_' + k, 'obj'), s); ex.lazy[(r, 'shape')] = (); self.r[k] = r
    def has(self, k): return Eq(self.ex.read(self.ex.content(self.r['has']), (P(k),)), 1)
    def val(self, k): return P(self.ex.read(self.ex.content(self.r['val']), (P(k),)))
    def set(self, which, k, v): self.ex.put((self.r[which], 'content'), SetN(self.ex.content(self.r[which]), (), (P(k),), P(v)))
@M.model('unordered_map', 'count')
def _(ex, t, a, e):
    return Ind(ex.opts['map'].has(ex.str_val(a[0])))
@M.model('unordered_map', '[]')
def _(ex, t, a, e):
    m = ex.opts['map']; k = ex.str_val(a[0])
    if not ex.force(m.has(k), e): m.set('has', k, 1); m.set('val', k, 0)
    return LElem(m.r['val'], (k,), 'int')
@M.model('vector', 'push_back')
def _(ex, t, a, e):
    n = vsize(ex, t.o); v = a[0]
    if isinstance(v, (LVar, LElem)): v = ex.load(v, e)
    c = ex.content(ex.field(t.o, 'data').obj); ex.setfield(t.o, 'size', n + 1); M.set_own(ex, t.o, (n + 1,), SetN(c, (), (n,), v)); return VOID
@M.model('StopWatch', 'Start', 'Stop', 'Clear')
def _(ex, t, a, e): return VOID
def _mapctor(ex, o, args, e):
    m = ex.opts['map'] = Map(ex, o); ex.put((m.r['has'], 'content'), Lam(ZERO, 'int'))
@M.model('unordered_map', 'clear')
def _(ex, t, a, e): m = ex.opts['map']; ex.put((m.r['has'], 'content'), Lam(ZERO, 'int')); return VOID
def _vecctor(ex, o, args, e):
    if args: raise Unsupported('vector constructor')
    ex.put((o, 'size'), ZERO); M.set_own(ex, o, (ZERO,), Base(Fresh('undefarr', 'obj'), 'int'))
CTORS.setdefault('unordered_map', _mapctor); CTORS.setdefault('vector', _vecctor)
@M.model('vector', 'size')
def _(ex, t, a, e): return vsize(ex, t.o)
@M.model('vector', '[]')
def _(ex, t, a, e):
    i = ex.num(a[0]); n = vsize(ex, t.o); ex.oblige('bounds', And(ge0(i), ge0(n - 1 - i)), 'vector index %s < %s' % (show(i), show(n)), e)
    r, ix = M.vidx(ex, t.o, i); return LElem(r, ix, M.elem_t(ex.objcls[t.o]))
@M.model('vector', 'clear')
def _(ex, t, a, e): ex.setfield(t.o, 'size', ZERO); return VOID
FUNCS.setdefault('MPI_Comm_rank', lambda ex, a, e: VOID)
CTORS['StopWatch'] = lambda ex, o, args, e: None
ETC = ('src/interface_form.cpp',)
class Timers:
    def __init__(self, u):
        ex = self.ex = u.ex; self.u = u; self.t = u.obj('timer', 'TimeProfiler'); o = self.t.o; n = self.n = u.int('ntimers', 0)
        self.f = {}
        for k, c in (('timers', 'mfem::Array<mfem::StopWatch *>'), ('calls', 'mfem::Array<int>'), ('starts', 'mfem::Array<bool>'), ('names', 'std::vector<std::basic_string<char>>')):
            x = ex.field(o, k, c); self.f[k] = x.o; ex.lazy[(x.o, 'size')] = n; ex.objcls[x.o] = c
        r = App('reg', self.f['names'], sort='obj'); ex.objcls[r] = '#region'; ex.lazy[(r, 'content')] = Base(Sym('names', 'obj'), 'int'); ex.lazy[(r, 'shape')] = (n,); ex.lazy[(self.f['names'], 'data')] = Ptr(r)
        ix = ex.field(o, 'indices', 'std::unordered_map<std::basic_string<char>, int>'); self.m = ex.opts['map'] = Map(u.ex, ix.o)
        p = ex.elem_value(vget(ex, self.f['timers'], ZERO), 'mfem::StopWatch *').obj.args[1]; old = ex.axioms_
        ex.axioms_ = lambda a: old(a) + ((BAtom(a),) if a.args[0] == 'nonnull' and a.args[1].kind == 'app' and a.args[1].args[:2] == ('rd', p) else ()); ex.axmemo = {}
    def at(self, k, i): return vget(self.ex, self.f[k], i)
    def name(self, i): return P(self.at('names', i))
    def sizes(self): return [vsize(self.ex, self.f[k]) for k in self.f]
    def inv(self, x):
        """class invariant at the name x"""
        m = self.m; n = self.sizes()[0]; return And(Implies(m.has(x), And(ge0(m.val(x)), ge0(n - 1 - m.val(x)))), Implies(m.has(x), Eq(self.name(m.val(x)), x)))
    def running(self, x):
        return self.ex.boolean(self.ex.elem_value(self.at('starts', self.m.val(x)), 'bool'))
    def calls(self, x): return P(self.at('calls', self.m.val(x)))
def timer_op(u, start):
    ex = u.ex; T_ = Timers(u); x = u.int('name', 0); y = u.int('other', 0); u.assume(Ne(x, y)); m = T_.m
    u.assume(T_.inv(x)); u.assume(T_.inv(y))
    hx, hy = ex.decide(m.has(x)), ex.decide(m.has(y))
    if hx and hy: u.assume(Ne(m.val(x), m.val(y)))      # consequence of the invariant: names[val(x)] == x != y == names[val(y)]
    if start:
        if hx: u.assume(Not(T_.running(x)))
        c0 = T_.calls(x) if hx else ZERO
    else:
        if not hx: raise Infeasible()
        u.assume(T_.running(x)); c0 = T_.calls(x)
    if hy: ry, cy = T_.running(y), T_.calls(y)
    n0 = T_.n
    u.run('TimeProfiler::' + ('Start' if start else 'Stop'), [x], T_.t)
    ss = T_.sizes()
    for s_ in ss[1:]: u.eq(s_, ss[0], 'the tables keep equal lengths')
    u.ensure(m.has(x), 'the timer exists'); u.ensure(T_.inv(x), 'the index of the timer is in range and names it')
    if start: u.ensure(T_.running(x), 'the timer runs'); u.eq(T_.calls(x), c0, 'starting does not count a call')
    else: u.ensure(Not(T_.running(x)), 'the timer is stopped'); u.eq(T_.calls(x), c0 + 1, 'one call is counted per start/stop pair')
    u.ensure(m.has(y) if hy else Not(m.has(y)), 'no other timer appears or vanishes')
    if hy:
        u.ensure(Ne(m.val(x), m.val(y)), 'different names have different indices')
        u.ensure(T_.inv(y), 'other timers keep their index'); r = T_.running(y); u.ensure(And(Implies(r, ry), Implies(ry, r)), 'other timers keep their state'); u.eq(T_.calls(y), cy, 'other timers keep their count')
@unit('P17', 'TimeProfiler::Start', files=ETC)
def _(u): timer_op(u, True)
@unit('P17', 'TimeProfiler::Stop', files=ETC)
def _(u): timer_op(u, False)
@unit('P17', 'TimeProfiler constructor', files=ETC)
def _(u):
    ex = u.ex; o = u.obj('timer', 'TimeProfiler'); f = u.find('TimeProfiler::TimeProfiler', nparams=2); ex.under.add(f['key']); k = u.int('key', 0)
    ex.opts['newmap'] = lambda m: None
    ex.call_ctor(f, o.o, [u.int('title', 0), u.int('comm')])
    u.eq(ex.field(o.o, 'title'), u.int('title', 0), 'the title is kept')
    for g in ('timers', 'calls', 'starts', 'names'): u.eq(vsize(ex, ex.field(o.o, g).o), ZERO, 'no timer exists at first: ' + g)
    u.ensure(Not(ex.opts['map'].has(k)), 'no name is registered at first')

# ------------------------------------------------------------------ balance of every timed operation
class Flow:
    """typestate proof: along every structured path a timer is started only while stopped and stopped only while running; loops leave the
    timers as they found them (invariant: the set of running timers), and every timed operation ends with the timers it started stopped.
    Calls on the same object are replaced by the transformer of the callee on the same state."""
    MAXST = 256
    def __init__(self, u, timed):
        self.u = u; self.ex = u.ex; self.timed = timed; self.stack = []; self.memo = {}
    # --- expressions
    def lit(self, e):
        while isinstance(e, dict) and e.get('k') in ('Cast', 'Ctor', 'Mat', 'Paren') and (e.get('e') or e.get('args')):
            e = e['e'] if e.get('e') else e['args'][0]
        if e.get('k') == 'Str': return e['v']
        if e.get('k') == 'OpCall' and e.get('op') == '+' and len(e['args']) == 2:
            a, b = self.lit(e['args'][0]), self.lit(e['args'][1])
            if a is not None and b is not None: return a + b
        if e.get('k') == 'Ref':
            i = self.consts.get(e.get('id'))
            if i is not None: return self.lit(i)
        return None
    def txt(self, e): return json.dumps({k: v for k, v in e.items() if k not in ('ln', 'col')}, sort_keys=True) if isinstance(e, dict) else repr(e)
    def recv(self, e):
        """key of the timer object of a call: a member of *this (or a named object)"""
        o = e['obj']
        while isinstance(o, dict) and o.get('k') in ('Cast', 'Paren'): o = o['e']
        if o.get('k') == 'Mem': 
            b = o.get('e') or o.get('b') or o.get('base')
            while isinstance(b, dict) and b.get('k') in ('Cast', 'Paren'): b = b['e']
            if b is None or b.get('k') == 'This': return 'this.' + (o.get('m') or o.get('n') or '?')
        return 'expr'
    def walk(self, e):
        """calls of an expression in evaluation order (operands first); yields nodes"""
        if isinstance(e, list):
            for x in e: yield from self.walk(x)
        elif isinstance(e, dict):
            if e.get('k') == 'Lambda': return
            for k, x in e.items():
                if isinstance(x, (dict, list)): yield from self.walk(x)
            if e.get('k') in ('MCall', 'Call', 'OpCall'): yield e
    def isthis(self, o):
        while isinstance(o, dict) and o.get('k') in ('Cast', 'Paren', 'Un') and o.get('e') is not None: o = o['e']
        return isinstance(o, dict) and o.get('k') == 'This'
    def expr(self, e, states):
        if isinstance(e, list):
            for x in e: states = self.expr(x, states)
            return states
        if not isinstance(e, dict) or not states or e.get('k') == 'Lambda': return states
        if is_abort(e): return set()
        if e.get('k') == 'Cond':
            s = self.expr(e['c'], states); return self.expr(e['a'], s) | self.expr(e['b'], s)
        if e.get('k') == 'Bin' and e['op'] in ('&&', '||'):
            s = self.expr(e['l'], states); return s | self.expr(e['r'], s)
        for k, x in e.items():
            if isinstance(x, (dict, list)): states = self.expr(x, states)
        for c in ([e] if e.get('k') in ('MCall', 'Call', 'OpCall') else []):
            if c['k'] == 'MCall' and c.get('cls') == 'TimeProfiler' and c['m'] in ('Start', 'Stop'):
                r = self.recv(c); s = self.lit(c['args'][0])
                if r == 'expr' or s is None: raise Unsupported('timer call on an object or name that is not a literal at %s' % self.ex.where(c))
                k = (r, s); out = set()
                for st, cond in states:
                    on = k in st; what = 'timer "%s" is %s when it is %s' % (s, 'stopped' if c['m'] == 'Start' else 'running', 'started' if c['m'] == 'Start' else 'stopped')
                    if on == (c['m'] == 'Stop'): self.ex.ok('timer'); out.add((st ^ {k}, cond))
                    else: self.bad(what, c, st, cond)
                states = out
            elif c['k'] == 'MCall' and self.isthis(c.get('obj')):
                g = self.target(c)
                if g is not None:
                    out = set()
                    for st, cond in states:
                        for s2 in self.call(g, st): out.add((s2, cond))
                    states = out
        return states
    def target(self, c):
        g = self.u.ex.prog.funcs.get(c['key'])
        if c.get('virt') and not c.get('qual'):
            h = self.ex.lookup_virtual(self.cls, c['key'])
            if h is not None: g = h
        return g if g is not None and g['key'] in self.timed else None
    def bad(self, what, node, st, cond):
        if (what, node.get('ln')) in self.seen: return
        self.seen.add((what, node.get('ln')))
        self.ex.fail('timer', what, node, 'running: %s; path: %s' % (sorted(x[1] for x in st), sorted(cond)[:4]))
    def call(self, f, st):
        key = (f['key'], st)
        if key in self.memo: return self.memo[key]
        if f['key'] in self.stack: raise Unsupported('recursion in a timed operation')
        oc = getattr(self, 'consts', {}); self.consts = dict(oc); self.stack.append(f['key']); self.collect(f)
        out = self.stmt(f['body'], {(st, frozenset())})
        r = {s for s, c in out['normal'] | out['return']}
        self.stack.pop(); self.consts = oc; self.memo[key] = r; self.ex.under.add(f['key'])
        return r
    def collect(self, f):
        """local string variables that are never assigned"""
        asg = set()
        def go(x):
            if isinstance(x, list):
                for y in x: go(y)
            elif isinstance(x, dict):
                if x.get('k') in ('Assign', 'CAssign', 'OpCall') and x.get('op', '=').endswith('='):
                    l = x.get('l') or (x.get('args') or [None])[0]
                    if isinstance(l, dict) and l.get('k') == 'Ref': asg.add(l.get('id'))
                if x.get('s') == 'Decl':
                    for v in x['v']:
                        if v.get('init') is not None and (is_str(v['t']) or 'char' in v['t']): self.consts[v['id']] = v['init']
                for y in x.values():
                    if isinstance(y, (dict, list)): go(y)
        go(f['body'])
        for i in asg: self.consts.pop(i, None)
    # --- statements
    def merge(self, a, b):
        for k in b: a[k] = a.get(k, set()) | b[k]
        if any(len(x) > self.MAXST for x in a.values()): raise Unsupported('too many timer states')
        return a
    def pure(self, c):
        return not any(True for _ in self.walk(c)) and not any(x in self.txt(c) for x in ('"++', '"--', '"Assign"', '"CAssign"'))
    def reads(self, c):
        r = set()
        def go(x):
            if isinstance(x, list): [go(y) for y in x]
            elif isinstance(x, dict):
                if x.get('k') == 'Ref': r.add(('v', x.get('id')))
                if x.get('k') == 'Mem': r.add(('m', x.get('m') or x.get('n')))
                for y in x.values(): go(y) if isinstance(y, (dict, list)) else None
        go(c); return r
    def forget(self, node, states):
        """drop the branch facts a statement may invalidate"""
        w = set(); calls = False
        def go(x):
            nonlocal calls
            if isinstance(x, list): [go(y) for y in x]
            elif isinstance(x, dict):
                if x.get('k') in ('Assign', 'CAssign') or (x.get('k') == 'Un' and ('++' in str(x.get('op')) or '--' in str(x.get('op')))):
                    w.update(self.reads(x.get('l') or x.get('e')))
                if x.get('k') == 'OpCall' and x.get('args'): w.update(self.reads(x['args'][0]))
                if x.get('k') in ('MCall', 'Call'):
                    if not (x.get('cls') == 'TimeProfiler'): calls = True
                    for a in x.get('args', []): w.update(self.reads(a))
                for y in x.values(): go(y) if isinstance(y, (dict, list)) else None
        go(node)
        if not w and not calls: return states
        return {(st, frozenset(c for c in cond if not (c[2] & w) and not (calls and any(k == 'm' for k, _ in c[2])))) for st, cond in states}
    def stmt(self, s, states):
        if s is None or not states: return {'normal': states, 'return': set()}
        k = s['s']; R = {'normal': set(), 'return': set()}
        if k == 'Null': R['normal'] = states; return R
        if k == 'Expr': R['normal'] = self.forget(s, self.expr(s['e'], states)); return R
        if k == 'Decl':
            for v in s['v']:
                if v.get('init') is not None: states = self.expr(v['init'], states)
            R['normal'] = self.forget(s, states); return R
        if k == 'Block':
            cur = states
            for x in s['b']:
                out = self.stmt(x, cur); cur = out.pop('normal'); self.merge(R, out)
            R['normal'] = cur; return R
        if k == 'If':
            if s.get('init'): states = self.stmt(s['init'], states)['normal']
            states = self.forget(s['c'], self.expr(s['c'], states))
            if self.mentions(s) and self.pure(s['c']):
                t = self.txt(s['c']); rd = frozenset(self.reads(s['c']))
                neg = False; A = {(st, c | {(t, True, rd)}) for st, c in states if (t, False, rd) not in c}; B = {(st, c | {(t, False, rd)}) for st, c in states if (t, True, rd) not in c}
            else: A = B = states
            self.merge(R, self.stmt(s['a'], A)); self.merge(R, self.stmt(s['b'], B) if s['b'] is not None else {'normal': B})
            return R
        if k in ('For', 'While', 'Do', 'RangeFor'):
            if k == 'For' and s.get('init'): states = self.stmt(s['init'], states)['normal']
            if k == 'RangeFor': states = self.expr(s['range'], states)
            head = set(states); done = set(); exits = set(); cur = states
            if k == 'Do':
                out = self.stmt(s['b'], states); head = out['normal'] | out.pop('continue', set()); exits |= out.pop('break', set()); self.merge(R, {'return': out['return']}); cur = head
            while cur - done:
                done |= cur
                c = self.expr(s['c'], cur) if s.get('c') is not None else cur
                c = self.forget(s, c)
                if k == 'RangeFor' or s.get('c') is not None: exits |= c
                out = self.stmt(s['b'], c); nx = out['normal'] | out.pop('continue', set()); exits |= out.pop('break', set()); self.merge(R, {'return': out['return']})
                if s.get('inc') is not None: nx = self.expr(s['inc'], nx)
                cur = self.forget(s, nx)
                if len(done) > self.MAXST: raise Unsupported('too many timer states')
            R['normal'] = exits; return R
        if k == 'Return':
            R['return'] = self.expr(s['e'], states) if s.get('e') is not None else states; return R
        if k in ('Break', 'Continue'): R[k.lower()] = states; return R
        if k == 'Switch':
            states = self.expr(s['c'], states); cur = set(); dflt = False
            def flat(x):
                nonlocal cur, dflt
                while x is not None and x['s'] in ('Case', 'Default'):
                    cur = cur | states; dflt |= x['s'] == 'Default'; x = x['b']
                if x is not None:
                    out = self.stmt(x, cur); cur = out.pop('normal'); self.merge(R, out)
            for x in (s['b']['b'] if s['b']['s'] == 'Block' else [s['b']]): flat(x)
            R['normal'] = cur | R.pop('break', set()) | (set() if dflt else states); return R
        if k == 'Try': return self.stmt(s['b'], states)
        if k in ('Case', 'Default'): return self.stmt(s['b'], states)
        if not self.mentions(s): R['normal'] = states; return R
        raise Unsupported('statement %s in a timed operation' % k)
    def mentions(self, s): return 'TimeProfiler' in json.dumps(s)
def class_of(f): return f['qn'].rsplit('::', 1)[0]
def timed_functions(prog):
    direct = {}; calls = {}
    def go(x, t, c):
        if isinstance(x, list):
            for y in x: go(y, t, c)
        elif isinstance(x, dict):
            if x.get('k') == 'MCall':
                if x.get('cls') == 'TimeProfiler' and x['m'] in ('Start', 'Stop'): t.append(x)
                else: c.add((x['cls'], x['m'], x['key']))
            for y in x.values():
                if isinstance(y, (dict, list)): go(y, t, c)
    for k, f in prog.funcs.items():
        if f['qn'].startswith('TimeProfiler::') or not f.get('body'): continue
        t = []; c = set(); go(f['body'], t, c)
        if t: direct[k] = f
        calls[k] = c
    names = {(f['qn'].rsplit('::', 1)[-1]) for f in direct.values()}
    timed = dict(direct)
    while True:
        add = {k for k, c in calls.items() if k not in timed and any(q[1] in {f['qn'].rsplit('::', 1)[-1] for f in timed.values()} for q in c) and '::' in prog.funcs[k]['qn']}
        if not add: break
        for k in add: timed[k] = prog.funcs[k]
    return direct, timed
def balance(u, need, files):
    ex = u.ex; direct, timed = timed_functions(ex.prog)
    f = Flow(u, timed); f.seen = set()
    called = set()
    def go(x, k, cls):
        if isinstance(x, list):
            for y in x: go(y, k, cls)
        elif isinstance(x, dict):
            if x.get('k') == 'MCall' and f.isthis(x.get('obj')):
                f.cls = cls; g = f.target(x)
                if g is not None and g['key'] != k: called.add(g['key'])
            for y in x.values():
                if isinstance(y, (dict, list)): go(y, k, cls)
    for k, g in timed.items(): go(g['body'], k, class_of(g))
    n = 0
    for k, g in sorted(timed.items()):
        if not any(g['file'].endswith(x) for x in files): continue
        f.cls = class_of(g); f.memo = {}; out = f.call(g, frozenset()); n += k in direct
        if g['qn'].rsplit('::', 1)[-1].startswith('~') or f.cls == g['qn'].rsplit('::', 1)[-1]: continue
        bad = [s for s in out if s]
        if bad and k not in called: ex.fail('timer', 'every timer started by %s is stopped when it returns' % g['qn'], g, 'still running: %s' % sorted(x[1] for x in bad[0]))
        elif not bad: ex.ok('timer')
    if n < need: raise Unsupported('only %d timed operations found' % n)
H = lambda n: ('src/%s.cpp' % n, 'include/%s.hpp' % n)
for nm, src, need in (('interface forms', 'interface_form', 4), ('flux integrators', 'interfaceinteg', 6), ('reduced interface forms', 'rom_interfaceform', 2),
                      ('reduced nonlinear forms', 'rom_nonlinearform', 2), ('steady flow operators', 'steady_ns_solver', 2), ('unsteady flow solver', 'unsteady_ns_solver', 2)):
    def mk(src, need): return lambda u: balance(u, need, H(src))
    unit('P17', 'timers are balanced: ' + nm, files=('src/%s.cpp' % src,))(mk(src, need))
