"""C12: global variables: assignments keep or undo their effect as documented"""
import core, nd, plmodel, c11
from core import A, S, V, G, C, T, enc, dec
from plmodel import deref, atom, mk, err, inst_error, type_error, dom_error, St, Atom, Var, mklist, Skip
from nd import plan, reduce
from c11 import bads
ID = 'C12'
QUICK = 16000
THOROUGH = 300000
TWICE = 50
SHRINK = ('ops', 'faults')
RULE = 'a history in which a global variable was assigned and something was backtracked over or thrown'
REAL = ['the GNU Prolog engine and global-variable library (copies, links, arrays, undo records on the trail), built from the tree']
STUB = ['kernel replaced by sim/libsim.c (its failing opens raise some of the exceptions)', 'which choice point goes on, and where a ball is thrown, is taken by the plan']
PROBES = ['gv', 'sol', 'exhausted', 'ok', 'ex', 'left', 'failed', 'undone', 'expanded', 'g_error', 'extended', 'linked']
ORACLE = 'a model of the variables (values, arrays, undo records) on top of an independent interpreter (harness/plmodel.py)'

class Elem:
    __slots__ = ('kind', 'val', 'auto', 'recs')           # kind: 'v' link or atomic, 'c' copy, 'a' array
    def __init__(self, kind='v', val=0): self.kind = kind; self.val = val; self.auto = None; self.recs = []
    def state(self): return self.kind, self.val, self.auto
    def set(self, s): self.kind, self.val, self.auto = s
class Rec:
    __slots__ = ('elem', 'state')
BITS = 61
def signed(x): x &= (1 << BITS) - 1; return x - (1 << BITS) if x >> (BITS - 1) else x
NB = {'undone': 0}
class Eng(c11.Eng):
    def __init__(self, *a, **k): super().__init__(*a, **k); self.gvs = {}; self.nb = dict(undone=0, expanded=0, g_error=0, extended=0, linked=0)
    def gerr(self, what, t): self.nb['g_error'] += 1; return dom_error(what, t)
    # -- names
    def target(self, name):
        """-> (element, path) : path None or the list of argument positions inside its term"""
        name = deref(name)
        if name.__class__ is Var: raise inst_error()
        if name.__class__ is Atom: f, args = name.name, []
        elif name.__class__ is St: f, args = name.name, name.args
        else: raise type_error('callable', name)
        if f == '-' and len(args) == 2: return self.selector(name)
        e = self.gvs.get(f)
        if e is None: e = self.gvs[f] = Elem()
        if args and e.kind != 'a': raise self.gerr('g_array_index', name)
        idx = [self.intof(x) for x in args]
        for i in idx:
            if e.kind != 'a' or i < 0: raise self.gerr('g_array_index', name)
            if i >= len(e.val):
                if e.auto is None or i > 1 << 20: raise self.gerr('g_array_index', name)
                if i > 200: raise Skip('large array')
                n = 1
                while n <= i: n <<= 1
                e.val.extend(self.copyelem(e.auto) for _ in range(n - len(e.val)))
                self.nb['expanded'] += 1
            e = e.val[i]
        return e, None
    def selector(self, name):
        n = self.intof(name.args[1])
        e, path = self.target(name.args[0])
        if e.kind == 'a': raise self.gerr('g_argument_selector', name)
        t = deref(self.sub(e.val, path or []))
        if t.__class__ is not St: raise self.gerr('g_argument_selector', name)
        if t.name == '.' and len(t.args) == 2:
            p = []
            if n < 1: raise self.gerr('g_argument_selector', name)
            while n > 1:
                t = deref(t.args[1]); n -= 1; p.append(1)
                if t.__class__ is not St or t.name != '.' or len(t.args) != 2: raise self.gerr('g_argument_selector', name)
            return e, (path or []) + p + [0]
        if not 1 <= n <= len(t.args): raise self.gerr('g_argument_selector', name)
        return e, (path or []) + [n - 1]
    def sub(self, t, path):
        for i in path: t = deref(t).args[i]
        return t
    def intof(self, w):
        w = deref(w)
        return w if w.__class__ is int else self.intvar(w)
    def intvar(self, w):
        e, path = self.target(w)
        if e.kind == 'a': raise type_error('integer', atom('g_array'))
        t = deref(self.sub(e.val, path or []))
        if t.__class__ is not int: raise type_error('integer', self.copy(t) if e.kind == 'c' or path else t)
        return t
    # -- elements
    def copyelem(self, e):
        n = Elem(e.kind, e.val)
        if e.kind == 'c': n.val = self.copy(e.val)
        elif e.kind == 'a': n.val = [self.copyelem(x) for x in e.val]; n.auto = e.auto and self.copyelem(e.auto)
        return n
    def free(self, e):
        for r in e.recs: r.elem = None
        e.recs = []
        if e.kind == 'a':
            for x in e.val: self.free(x)
    def isarr(self, v):
        return v.__class__ is St and v.name in ('g_array', 'g_array_auto', 'g_array_extend')
    def check(self, v, old=0):
        v = deref(v)
        if not self.isarr(v): return
        if v.name != 'g_array_extend': old = 0
        a = deref(v.args[0])
        if a.__class__ is int and a > 0 and len(v.args) <= 2:
            if a > 200: raise Skip('large array')
            if len(v.args) == 2: self.check(v.args[1])
            return
        items, tail = self.getlist(a)
        if a.__class__ is not St or tail is not plmodel.NIL or len(v.args) != 1 or not items: raise self.gerr('g_array_index', v)
        for x in items[max(old, 0):]: self.check(x)
    def assign(self, e, v, back, copy):
        old = e.state(); v = deref(v)
        if self.isarr(v): self.array(e, v, back, copy)
        else:
            if not back: self.free(e)
            if not copy or v.__class__ in (int, Atom): e.set(('v', v, None))
            else: e.set(('c', self.copy(v), None))
            if not copy and v.__class__ in (St, Var): self.nb['linked'] += 1
        if back:
            r = Rec(); r.elem = e; r.state = old; e.recs.append(r)
            def undo():
                e2 = r.elem
                if e2 is not None: e2.set(r.state); e2.recs.remove(r); self.nb['undone'] += 1
            self.trail.append(undo)
    def array(self, e, v, back, copy):
        ext = v.name == 'g_array_extend' and e.kind == 'a'
        a = deref(v.args[0])
        if a.__class__ is int: n = a; init = [v.args[1] if len(v.args) == 2 else 0] * n
        else: init = self.getlist(a)[0]; n = len(init)
        auto = None
        if ext:
            have = [self.copyelem(x) for x in e.val] if back else e.val
            auto = self.copyelem(e.auto) if back and e.auto else e.auto
            self.nb['extended'] += 1
        else:
            if not back: self.free(e)
            have = []
        have = have if ext else []
        for x in init[len(have):]:
            c = Elem(); have.append(c); self.assign(c, x, False, copy)
        if v.name == 'g_array_auto':
            auto = Elem(); self.assign(auto, (v.args[1] if len(v.args) == 2 else 0) if a.__class__ is int else 0, False, copy)
        e.set(('a', have, auto))
    def gassign(self, name, v, back, copy):
        e, path = self.target(name)
        if path is not None:
            if back: raise self.gerr('g_argument_selector', name)
            self.assign_arg(e, path, v); return True
        self.check(v, len(e.val) if e.kind == 'a' else 0)
        self.assign(e, v, back, copy); return True
    def assign_arg(self, e, path, v):
        t = e.val if e.kind == 'c' else self.copy(e.val)
        def put(t, p):
            t = deref(t)
            if not p: return v
            return St(t.name, [put(x, p[1:]) if i == p[0] else x for i, x in enumerate(t.args)])
        t = self.copy(put(t, path)); self.free(e); e.set(('c', t, None))
    def d_gassign(self, n, v):
        'g_assign/2'
        return self.gassign(n, v, False, True)
    def d_gassignb(self, n, v):
        'g_assignb/2'
        return self.gassign(n, v, True, True)
    def d_glink(self, n, v):
        'g_link/2'
        return self.gassign(n, v, True, False)
    def readelem(self, e, t):
        if e.kind == 'v': return self.unify(e.val, t)
        if e.kind == 'c': return self.unify(self.copy(e.val), t)
        return self.unify(self.term(e), t)
    def term(self, e): return e.val if e.kind == 'v' else self.copy(e.val) if e.kind == 'c' else mk('g_array', mklist([self.term(x) for x in e.val]))
    def d_gread(self, n, t):
        'g_read/2'
        e, path = self.target(n)
        if path is None: return self.readelem(e, t)
        s = self.sub(e.val, path)
        if e.kind == 'v' and self.vars_of(s, []): raise Skip('argument of a link')      # the manual does not say whether its variables are renamed
        return self.unify(self.copy(s), t)
    def d_gsize(self, n, s):
        'g_array_size/2'
        e, path = self.target(n); self.ckint(s)
        return path is None and e.kind == 'a' and self.unify(s, len(e.val))
    def ckint(self, s):
        s = deref(s)
        if s.__class__ not in (Var, int): raise type_error('integer', s)
    def setint(self, n, v):
        e, path = self.target(n)
        if path is None: e.val = v; return
        if e.kind == 'v': c = self.copy(e.val); self.free(e); e.set(('c', c, None))
        def put(t, p):
            t = deref(t)
            if not p: return v
            return St(t.name, [put(x, p[1:]) if i == p[0] else x for i, x in enumerate(t.args)])
        e.val = put(e.val, path)
    def inc(self, n, d, old=None, new=None):
        for x in (old, new):
            if x is not None: self.ckint(x)
        i = self.intvar(n)
        if old is not None and not self.unify(old, i): return False
        if not plmodel.MINI < i + d < plmodel.MAXI: raise Skip('overflow')
        self.setint(n, i + d)
        return new is None or self.unify(new, i + d)
    def d_i1(self, n):
        'g_inc/1'
        return self.inc(n, 1)
    def d_i2(self, n, x):
        'g_inc/2'
        return self.inc(n, 1, None, x)
    def d_io(self, n, x):
        'g_inco/2'
        return self.inc(n, 1, x)
    def d_i3(self, n, x, y):
        'g_inc/3'
        return self.inc(n, 1, x, y)
    def d_e1(self, n):
        'g_dec/1'
        return self.inc(n, -1)
    def d_e2(self, n, x):
        'g_dec/2'
        return self.inc(n, -1, None, x)
    def d_eo(self, n, x):
        'g_deco/2'
        return self.inc(n, -1, x)
    def d_e3(self, n, x, y):
        'g_dec/3'
        return self.inc(n, -1, x, y)
    def bit(self, b):
        b = deref(b)
        if b.__class__ is Var: raise inst_error()
        if b.__class__ is not int: raise type_error('integer', b)
        if b < 0: raise dom_error('not_less_than_zero', b)
        return 1 << (b % BITS)
    def d_sb(self, n, b):
        'g_set_bit/2'
        m = self.bit(b); self.setint(n, signed(self.intvar(n) | m)); return True
    def d_rb(self, n, b):
        'g_reset_bit/2'
        m = self.bit(b); self.setint(n, signed(self.intvar(n) & ~m)); return True
    def d_tsb(self, n, b):
        'g_test_set_bit/2'
        m = self.bit(b); return self.intvar(n) & m != 0
    def d_trb(self, n, b):
        'g_test_reset_bit/2'
        m = self.bit(b); return self.intvar(n) & m == 0
def make(bad=()): return c11.make(bad, Eng)
def mk_(case): return lambda: make(bads(case))

class Gen(c11.Gen):
    def num(self): return self.ch(0, 0, 1, 1, 2, 3)
    def live(self):
        """a name that means something in the present state of the model"""
        n = self.ch('a', 'a', 'b', 'b', 'c', 'k'); e = self.e.gvs.get(n); idx = []
        while e is not None and e.kind == 'a' and self.p(.8):
            i = self.r.randrange(len(e.val)) if e.auto is None or self.p(.7) else self.ch(len(e.val), len(e.val), len(e.val) + 1, 2 * len(e.val))
            idx.append(A('k') if self.p(.07) else i)
            e = e.val[i] if i < len(e.val) else e.auto
        t = S(n, *idx) if idx else A(n)
        x = deref(e.val) if e is not None and e.kind != 'a' else 0
        while x.__class__ is St and self.p(.3):
            l, tail = self.e.getlist(x)
            i = self.r.randrange(len(l or x.args)); t = S('-', t, i + 1); x = deref((l or x.args)[i])
        return t
    def gname(self, d=0):
        if d: return self.gname_(d)
        if self.last is not None and self.p(.3): return self.last
        self.last = self.gname_(0); return self.last
    last = None
    def gname_(self, d):
        if d == 0 and self.p(.55): return self.live()
        x = self.r.random(); n = lambda: A(self.ch('a', 'a', 'b', 'b', 'c', 'k'))
        if x < .45: return n()
        if x < .78: return S(self.ch('a', 'a', 'b', 'b', 'c'), *[self.idx(d) for _ in range(self.ch(1, 1, 1, 1, 2, 2, 3))])
        if x < .97 and d < 2: return S('-', self.gname(d + 1), self.ch(1, 1, 1, 2, 2, 3, self.idx(d)))
        return self.ch(self.var(), A('zz'), 3) if self.p(.3) else n()
    def idx(self, d):
        x = self.r.random()
        if x < .75 or d > 1: return self.num()
        if x < .82: return self.ch(4, 5, 7, 9, 17)
        if x < .84: return self.ch(-1, self.var(), A('a'))
        return A('k') if x < .93 else self.gname(d + 1)
    def gval(self, d=0):
        x = self.r.random()
        if x < .22: return self.num()
        if x < .60 or d > 2: return self.val()
        k = self.ch('g_array', 'g_array', 'g_array_auto', 'g_array_auto', 'g_array_extend')
        y = self.r.random()
        n = self.ch(1, 2, 2, 3, 3, 4, 6)
        if y < .03: return S(k, *self.ch([0], [-1], [self.var()], [[]], [A('a')], [2, 3, 4], [T([1], self.var())], [[1], 2]))
        if y < .35: return S(k, n)
        if y < .65: return S(k, n, self.gval(d + 1))
        return S(k, [self.gval(d + 1) for _ in range(n)])
    def gleaf(self):
        x = self.r.random()
        if x < .20: return S('g_assign', self.gname(), self.gval())
        if x < .42: return S('g_assignb', self.gname(), self.gval())
        if x < .55: return S('g_link', self.gname(), self.gval())
        if x < .68: return S('g_read', self.gname(), self.ch(self.var(), self.var(), self.val()))
        if x < .71: return S('g_array_size', self.gname(), self.ch(self.var(), self.num()))
        if x < .76: return S(self.ch('g_inc', 'g_dec'), self.cnt())
        if x < .82: return S(self.ch('g_inc', 'g_dec', 'g_inco', 'g_deco'), self.cnt(), self.io())
        if x < .86: return S(self.ch('g_inc', 'g_dec'), self.cnt(), self.io(), self.io())
        if x < .91: return S(self.ch('g_set_bit', 'g_reset_bit', 'g_test_set_bit', 'g_test_reset_bit'), self.cnt(), self.ch(0, 1, 2, 60, 61, 63, 200) if self.p(.9) else self.ch(-1, self.var(), A('a')))
        if x < .94: return S('x_gset', self.gname(), self.gval(), self.var())
        if x < .96: return S('x_gundo', self.gname(), self.gval())
        return S('=', self.var(), self.val())
    def cnt(self): return A('k') if self.p(.6) else self.gname()
    def io(self): return self.var() if self.p(.9) else self.ch(0, 1, A('a'))
    def leaf(self):
        if self.p(.65): return self.gleaf()
        x = self.r.random()
        if x < .25: return A('fail')
        if x < .35: return S('throw', self.ball())
        return super().leaf()
    def goal(self, d=0):
        if d < 3 and self.p(.10):
            return self.ch(lambda: S('x_gtmp', self.gname(), self.gval(), self.goal(d + 1)), lambda: S('x_glnk', self.gname(), self.gval(), self.goal(d + 1)), lambda: S('x_gcnt', self.ch(A('k'), A('c')), self.goal(d + 1), self.var()))()
        return super().goal(d)
    def scenario(self):
        """some assignments of one element to be undone, something done to the array around it, and back"""
        t = self.live()
        for _ in range(4):
            if isinstance(t, S) and t.name != '-': break
            t = self.live()
        else: self.op(S('raw', S('g_assign', A(self.ch('a', 'b')), S('g_array_auto', self.ch(2, 3, 4), self.gval(1))))); return
        n = self.r.randrange(1, 4)
        for _ in range(n): self.op(S('open', self.newid(), S(self.ch('g_assignb', 'g_assignb', 'g_link'), t, self.gval())))
        for _ in range(self.ch(1, 1, 2)):
            out = S(t.name, *t.args[:-1], self.ch(9, 17, 33, 4)); par = S(t.name, *t.args[:-1]) if len(t.args) > 1 else A(t.name)
            self.op(S(self.ch('raw', 'raw', 'raw'), self.ch(S('g_assign', out, self.num()), S('g_assign', out, self.num()), S('g_assignb', out, self.num()), S(self.ch('g_assign', 'g_assignb'), par, S('g_array_extend', self.ch(3, 8, 20), self.num())), S('g_assign', t, self.gval()), S(self.ch('g_assign', 'g_assignb'), par, self.gval()))))
        for _ in range(n + 1):
            if self.p(.4): self.dump()
            self.op(A('retry'))
        self.dump()
    def dump(self): self.op(S('raw', S('catch', A('x_gdump'), V(6), A('true'))) if self.p(.3) else S('do', A('x_gdump')))
    def step(self):
        x = self.r.random()
        if self.pre: self.pre -= 1; self.op(S('raw', S(self.ch('g_assign', 'g_assign', 'g_assignb'), A(self.ch('a', 'b', 'c')), self.gval()))); return
        if x < .03: self.scenario()
        elif x < .22: self.op(S('raw', self.gleaf()))
        elif x < .30: self.op(S('open', self.newid(), self.gleaf()))
        elif x < .42: self.dump()
        else: super().step()
    def case(self):
        c = self.case0(make)
        return c
def gen(rng, i): return Gen(rng).case()
def judge(case, r, probes):
    e = nd.judge(case, r, probes, mk_(case), ID)
    if e:
        for k, n in e.nb.items():
            if n: probes[k] = n
def excused(case): return nd.excused(case, mk_(case))
def nontrivial(case, rs):
    t = ' '.join(case['ops'])
    return 'Sg_assign' in t or 'Sg_link' in t
