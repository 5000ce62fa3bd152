"""C22: a program means the same compiled to native code, consulted as byte-code, or added clause by clause"""
import functools, math, os
import core, nd, plmodel, c11, bank
from core import A, S, V, G, C, T, enc, dec
from plmodel import deref, atom, mk, err, inst_error, type_error, dom_error, St, Atom, Var, NIL, Skip, mklist, conv, mkclause, any_, PlError
from nd import reduce
ID = 'C22'
QUICK = 5000
THOROUGH = 80000
TWICE = 50
SHRINK = ('ops', 'faults')
RULE = 'a history in which a predicate of the bank of programs was run in at least one of its forms and re-entered, left or aborted'
REAL = ['the compiler (pl2wam, wam2ma, ma2asm through gplc), the byte-code loader, emulator and interpreter, the engine, built from the tree']
STUB = ['kernel replaced by sim/libsim.c (its failing opens raise some of the exceptions)', 'which choice point goes on, and where a ball is thrown, is taken by the plan',
        'pl2wam runs when the checks are built; the simulated process loads its byte-code files from the simulated disk']
PROBES = ['sol', 'exhausted', 'ok', 'ex', 'left', 'failed', 'caught', 'all', 'top_ex', 'native', 'bytecode', 'asserted']
ORACLE = 'an independent interpreter (harness/plmodel.py) of the source terms of the programs'
NOTE = 'the programs are a bank of %d random modules made anew from the tree at each build; runs vary queries, histories and forms' % bank.NM

def anyerr(): return PlError(mk('error', any_(), any_()))
class Eng(c11.Eng):
    def __init__(self, *a, **k): super().__init__(*a, **k); self.gvs = {}; self.used = set(); self.loads = []
    def step(self, g):
        t = deref(g[0])
        n = t.name if t.__class__ is St or t.__class__ is Atom else None
        if n and len(n) > 4 and n[1] == 'q' and n[2].isdigit() and n[0] in 'nyi': self.used.add(n[0])
        return super().step(g)
    # -- loading
    def d_load(self, f):
        'load/1'
        f = deref(f)
        m = int(f.name[4:-4])
        for k, cl in prog(m, 'y'): self.static[k] = list(cl)
        return True
    # -- arithmetic (the order in which operands are evaluated is not specified: two different errors leave it open)
    def evs(self, l):
        out = []; ex = []
        for x in l:
            try: out.append(self.ev(x))
            except PlError as e: ex.append(e)
        if len(ex) > 1 and any(plmodel.ser(e.ball) != plmodel.ser(ex[0].ball) for e in ex): raise anyerr()
        if ex: raise ex[0]
        return out
    def ev(self, t):
        t = deref(t); c = t.__class__
        if c in (int, float): return t
        if c is Var: raise inst_error()
        if c is Atom:
            if plmodel.is_any(t): raise Skip('wildcard')
            if t.name in ('e', 'pi', 'inf', 'nan', 'epsilon', 'cputime', 'random', 'realtime', 'max_integer', 'min_integer', 'max_tagged_integer', 'min_tagged_integer', 'max_tagged'): raise Skip('constant')
            raise type_error('evaluable', mk('/', t, 0))
        k = (t.name, len(t.args))
        if k == ('.', 2): raise Skip('list as an expression')
        f = FUN.get(k)
        if f is None: raise type_error('evaluable', mk('/', atom(k[0]), k[1]))
        r = f(*self.evs(t.args))
        if r.__class__ is float:
            if not math.isfinite(r): raise Skip('float')
            if r == 0: r = 0.0 if math.copysign(1, r) > 0 else -0.0
            if r == 0 and math.copysign(1, r) < 0: raise Skip('negative zero')
        elif not plmodel.MINI <= r <= plmodel.MAXI: raise Skip('overflow')
        return r
    def pair(self, a, b):
        x, y = self.evs([a, b])
        if x.__class__ is not y.__class__ and max(abs(x), abs(y)) > 1 << 53: raise Skip('precision')
        return x, y
    def d_lt(self, a, b):
        '</2'
        x, y = self.pair(a, b); return x < y
    def d_gt(self, a, b):
        '>/2'
        x, y = self.pair(a, b); return x > y
    def d_ge(self, a, b):
        '>=/2'
        x, y = self.pair(a, b); return x >= y
    def d_le(self, a, b):
        '=</2'
        x, y = self.pair(a, b); return x <= y
    def d_aeq(self, a, b):
        '=:=/2'
        x, y = self.pair(a, b); return x == y
    def d_ane(self, a, b):
        '=\\=/2'
        x, y = self.pair(a, b); return x != y
    # -- types, comparison, construction
    def d_atomic(self, a):
        'atomic/1'
        return deref(a).__class__ not in (Var, St)
    def d_compound(self, a):
        'compound/1'
        return deref(a).__class__ is St
    def d_callable(self, a):
        'callable/1'
        return deref(a).__class__ in (Atom, St)
    def d_number(self, a):
        'number/1'
        return deref(a).__class__ in (int, float)
    def d_float(self, a):
        'float/1'
        return deref(a).__class__ is float
    def d_olt(self, a, b):
        '@</2'
        return self.cmp(a, b) < 0
    def d_ogt(self, a, b):
        '@>/2'
        return self.cmp(a, b) > 0
    def d_ole(self, a, b):
        '@=</2'
        return self.cmp(a, b) <= 0
    def d_oge(self, a, b):
        '@>=/2'
        return self.cmp(a, b) >= 0
    def d_compare(self, o, a, b):
        'compare/3'
        o = deref(o)
        if o.__class__ is not Var:
            if o.__class__ is not Atom: raise type_error('atom', o)
            if o.name not in '<=>' or not o.name: raise dom_error('order', o)
        r = self.cmp(a, b); return self.unify(o, atom('<' if r < 0 else '>' if r else '='))
    def d_univ(self, t, l):
        '=../2'
        t = deref(t)
        if t.__class__ is not Var:
            items, tail = self.getlist(l)
            if tail is not NIL and tail.__class__ is not Var: raise Skip('=..')
            return self.unify(l, mklist([atom(t.name)] + t.args if t.__class__ is St else [t]))
        items, tail = self.getlist(l)
        if tail is not NIL or not items: raise Skip('=..')
        h = deref(items[0])
        if h.__class__ is Var: raise inst_error()
        if len(items) == 1:
            if h.__class__ is St: raise type_error('atomic', h)
            return self.unify(t, h)
        if h.__class__ is St or h.__class__ is not Atom: raise type_error('atom', h)
        if h.name == '[]': raise Skip('=..')
        x = St(h.name, list(items[1:]))
        if self.occurs(t, x): raise Skip('cyclic term')
        return self.unify(t, x)
    # -- global variables: only copies
    def d_gassign(self, n, v):
        'g_assign/2'
        if deref(n).__class__ is not Atom: raise Skip('name')
        v = deref(v)
        if v.__class__ is St and v.name.startswith('g_array'): raise Skip('array')
        self.gvs[deref(n).name] = self.copy(v); return True
    def d_gread(self, n, v):
        'g_read/2'
        if deref(n).__class__ is not Atom: raise Skip('name')
        return self.unify(self.copy(self.gvs.get(deref(n).name, 0)), v)
def ints(f):
    def g(*a):
        bad = [x for x in a if x.__class__ is not int]
        if len(bad) > 1 and bad[0] != bad[1]: raise anyerr()
        if bad: raise type_error('integer', bad[0])
        return f(*a)
    return g
def num(f):
    def g(a, b):
        if a.__class__ is not b.__class__ and max(abs(a), abs(b)) > 1 << 53: raise Skip('precision')
        return f(a, b)
    return g
def zero(f):
    def g(a, b):
        if b == 0: raise err(mk('evaluation_error', atom('zero_divisor')))
        return f(a, b)
    return g
def trunc(a, b): return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
def shl(a, b):
    if not 0 <= b < 60: raise Skip('shift')
    return a << b
def shr(a, b):
    if not 0 <= b < 60: raise Skip('shift')
    return a >> b
def mix(f):
    def g(a, b):
        if a.__class__ is not b.__class__ and (a == b or max(abs(a), abs(b)) > 1 << 53): raise Skip('mixed')
        return f(a, b)
    return g
def fdiv(a, b):
    if abs(a) > 1 << 53 or abs(b) > 1 << 53: raise Skip('precision')
    return float(a) / float(b)
def fmul(a, b):
    r = a * b
    return r
def truncate(a):
    if a.__class__ is int: raise Skip('truncate')
    return int(a)
FUN = {('+', 2): num(lambda a, b: a + b), ('-', 2): num(lambda a, b: a - b), ('*', 2): num(fmul), ('/', 2): zero(fdiv), ('//', 2): ints(zero(trunc)), ('mod', 2): ints(zero(lambda a, b: a % b)),
       ('rem', 2): ints(zero(lambda a, b: a - b * trunc(a, b))), ('div', 2): ints(zero(lambda a, b: a // b)), ('min', 2): mix(min), ('max', 2): mix(max), ('/\\', 2): ints(lambda a, b: a & b), ('\\/', 2): ints(lambda a, b: a | b),
       ('xor', 2): ints(lambda a, b: a ^ b), ('<<', 2): ints(shl), ('>>', 2): ints(shr), ('gcd', 2): ints(math.gcd), ('-', 1): lambda a: -a, ('+', 1): lambda a: a, ('abs', 1): abs,
       ('sign', 1): lambda a: (a > 0) - (a < 0) if a.__class__ is int else float((a > 0) - (a < 0)), ('inc', 1): lambda a: a + 1, ('dec', 1): lambda a: a - 1, ('\\', 1): ints(lambda a: ~a), ('truncate', 1): truncate}
OTHER = set()

@functools.lru_cache(None)
def mod(m): return bank.Mod(m)
@functools.lru_cache(None)
def prog(m, form):
    e = plmodel.Engine(); out = {}
    for h, b in mod(m).clauses(form):
        vs = {}; h = conv(h, vs, None); b = e.norm_body(conv(b, vs, None))
        out.setdefault((h.name, len(h.args)) if h.__class__ is St else (h.name, 0), []).append(mkclause(h, b))
    return list(out.items())
def make(bad=(), mods=()):
    e = c11.make(bad, Eng); e.nsteps = 6000; e.maxwork = 30000
    for m, f in mods:
        for k, cl in prog(m, 'n'): e.static[k] = list(cl)
    return e
def mk_(case): return lambda: make(c11.bads(case), case['mods'])
def plan(case):
    c = dict(case); c['files'] = list(case['files'])
    for m in sorted(set(m for m, f in case['mods'] if f == 'y')): c['files'].append(['/w/m%d.wbc' % m, open(os.path.join(core.OUT, 'bank', 'y%d.wbc' % m), encoding='latin-1').read()])
    p = nd.plan(c); b = 'bank%d' % (case['mods'][0][0] % 8)
    return (b, [b]) + p[2:]

class Gen(c11.Gen):
    def arg(self):
        x = self.r.random()
        return self.var() if x < .55 else self.val()
    def bankcall(self):
        m, f = self.ch(*self.mods); name, ar, cls = self.r.choice(mod(m).preds)
        if self.p(.35) and cls:          # a call that one of the heads matches, more or less
            h = bank.ren(self.r.choice(cls)[0], f)
            if isinstance(h, A): return h
            return S(h.name, *[self.narrow(x) if self.p(.7) else self.arg() for x in h.args])
        return S(f + name, *[self.arg() if ar < 200 or self.p(.1) else V(20 + i) if i < 150 else A("a") for i in range(ar)]) if ar else A(f + name)
    def narrow(self, t):
        if isinstance(t, V): return self.arg() if self.p(.5) else V(t.n % 5 if t.n < 60 else t.n)
        if isinstance(t, S): return S(t.name, *[self.narrow(x) for x in t.args])
        if isinstance(t, list): return [self.narrow(x) for x in t]
        if isinstance(t, T): return T([self.narrow(x) for x in t.items], self.narrow(t.tail))
        return t
    def leaf(self):
        if self.p(.6): return self.bankcall()
        return super().leaf()
    def step(self):
        if self.todo: self.op(self.todo.pop()); return
        x = self.r.random()
        if x < .25: self.op(S(self.ch('raw', 'do'), self.bankcall()))
        elif x < .45: self.op(S('open', self.newid(), self.bankcall()))
        elif x < .50:               # the same query in every form
            q = self.bankcall()
            for f2 in 'nyi': self.op(S('do', S('findall', V(9), S(',', swap(q, f2), S('=', V(9), S('r', *[V(i) for i in range(5)]))), V(10))))
        else: super().step()
    def case(self):
        part = self.r.randrange(8); nm = self.ch(1, 1, 2)
        ms = [part + 8 * self.r.randrange(bank.NM // 8) for _ in range(nm)]
        self.mods = sorted(set((m, f) for m in ms for f in self.r.sample(['n', 'y', 'i'], self.ch(1, 2, 3))))
        self.todo = []
        for m, f in self.mods:
            if f == 'y': self.todo.append(S('do', S('load', A('/w/m%d.wbc' % m))))
            if f == 'i': self.todo.append(S('do', S('sim_add', [S(':-', h, b) if b != A('true') else h for h, b in mod(m).clauses('i')])))
        self.pre = self.ch(0, 2)
        bad = sorted(set(self.r.randrange(1, 12) for _ in range(self.ch(0, 0, 2))))
        mods = [list(x) for x in self.mods]
        self.grow(lambda: make(bad, mods), self.ch(8, 15, 30, 45))
        return {'seed': self.r.randrange(1 << 30), 'mods': mods, 'ops': self.ops, 'files': [['/w/f', 'x.']], 'faults': [['open', '/w/f', k, 1, self.ch('EACCES', 'EMFILE', 'EIO')] for k in bad]}
def swap(t, f):
    if isinstance(t, A): return A(f + t[1:])
    return S(f + t.name[1:], *t.args)
def gen(rng, i): return Gen(rng).case()
def judge(case, r, probes):
    e = nd.judge(case, r, probes, mk_(case), ID)
    if e:
        for f, k in (('n', 'native'), ('y', 'bytecode'), ('i', 'asserted')):
            if f in e.used: probes[k] = 1
def excused(case): return nd.excused(case, mk_(case))
def nontrivial(case, rs):
    t = [o.split(' ')[0] for o in case['ops']]
    return 'Aretry' in t or any(o.startswith('Sscope') for o in t)
