"""A bank of random programs, a pure function of the module number: compiled to native code and linked into a driver, compiled to
byte-code and loaded at run time, or added clause by clause. The same terms go to the reference model."""
import os, random, sys
import core
from core import A, S, V, T
NM = 480                        # modules of static predicates
ND = 64                         # modules of dynamic predicates (C10)
QUIET = ('sim_logt',)

class Mod:
    """one module: predicates q<m>_<k> (prefix n, y or i by form)"""
    def __init__(self, m, dyn=False):
        import c11
        class B(c11.Gen):
            def slot(s): return V(s.r.randrange(6))
            def var(s): return V(s.r.randrange(s.nvars))
            def step(s): raise AssertionError
        self.m = m; self.r = r = random.Random('bank%d' % m + os.environ.get('SIM_BANK', '')); self.g = g = B(r); g.nvars = 4
        self.preds = []          # (name, arity, [(head, body)])
        self.x = X(self, g)
        self.wide = r.random() < .25
        n = r.randrange(2, 7)
        for k in range(n): self.pred(k)
        if r.random() < .6: self.builders(n)
    def pred(self, k):
        r = self.r
        ar = r.choice((0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 5)) if not self.wide or r.random() < .4 else r.choice((6, 8, 10, 12)) if r.random() < .94 else r.choice((252, 253, 254, 255))
        name = 'q%d_%d' % (self.m, k)
        rec = 2 <= ar < 200 and r.random() < .25
        cls = []; n = r.choice((1, 1, 2, 2, 3, 3, 4, 5, 7))
        if rec:                 # goes down a list
            rest = [self.x.hd() for _ in range(ar - 1)]
            cls.append((S(name, [], *rest), A('true')))
            for _ in range(r.choice((1, 1, 2))):
                self.x.g.nvars = r.choice((3, 5, 7))
                rest = [self.x.hd() if r.random() < .5 else V(i) for i in range(1, ar)]
                h = S(name, T([self.x.hd()], V(90)), *rest)
                self.x.seen = hv(h)
                again = S(name, V(90), *[V(i) if r.random() < .6 else self.x.arg() for i in range(1, ar)])
                b = [self.x.body(1) for _ in range(r.randrange(0, 3))]
                b.insert(r.randrange(len(b) + 1), again)
                cls.append((h, conj(b)))
        for _ in range(n if not rec else r.choice((0, 0, 1))):
            self.x.g.nvars = r.choice((2, 3, 4, 6, 9))
            h = S(name, *[self.x.hd() if ar < 200 or r.random() < .06 else V(60 + i % 130) for i in range(ar)]) if ar else A(name)
            self.x.seen = hv(h)
            b = [self.x.body(0) for _ in range(r.choice((0, 0, 1, 1, 2, 2, 3, 4)))]
            cls.append((h, conj(b)))
        self.preds.append((name, ar, cls))
    def builders(self, n):
        """predicates that build structures of their arguments, and others that chain them through variables that are new in their bodies:
        what is built outlives the environments its variables come from"""
        r = self.r; mk = []
        for k in range(r.choice((1, 2, 3))):
            ar = r.choice((1, 2, 2, 3)); vs = [V(i) for i in range(ar)]
            def t(d=0):
                x = r.random()
                if x < .5 or d > 2: return r.choice(vs)
                if x < .6: return r.choice((A('a'), 1, V(50 + r.randrange(3))))
                if x < .9: return S('f' if x < .75 else 'h', *[t(d + 1) for _ in range(r.choice((1, 2, 2, 3)))])
                return T([t(d + 1)], t(d + 1))
            name = 'q%d_%d' % (self.m, n); n += 1; cls = []
            for _ in range(r.choice((1, 1, 1, 2))):
                b = [] if r.random() < .6 else [S('=', V(ar), S('f', t()))] if r.random() < .5 else [self.x.call()]
                hs = vs + [V(ar) if b and getattr(b[0], 'name', '') == '=' else S('f', *[t() for _ in range(r.choice((1, 2, 3)))])]
                if r.random() < .3: r.shuffle(hs)
                cls.append((S(name, *hs), conj(b)))
            self.preds.append((name, ar + 1, cls)); mk.append((name, ar + 1))
        for k in range(r.choice((1, 2))):
            name = 'q%d_%d' % (self.m, n); n += 1; ar = r.choice((1, 1, 2, 3)); cls = []
            for _ in range(r.choice((1, 1, 2))):
                fresh = [V(40 + i) for i in range(6)]; use = [V(i) for i in range(ar)]; b = []; last = V(0)
                for j in range(r.choice((2, 3, 3, 4, 5))):
                    x = r.random()
                    if x < .75:
                        p, a = r.choice(mk); v = r.choice(fresh) if r.random() < .6 else r.choice(use)
                        as_ = [r.choice(fresh) if r.random() < .6 else r.choice(use) for _ in range(a)]; b.append(S(p, *as_))
                    elif x < .85: b.append(S('=', r.choice(fresh), r.choice(use)))
                    elif x < .9: b.append(self.x.call())
                    else: b.append(S('sim_logt', S('l', r.choice(fresh), r.choice(use))))
                cls.append((S(name, *use), conj(b)))
            self.preds.append((name, ar, cls)); mk.append((name, ar))
    def clauses(self, form):
        for name, ar, cls in self.preds:
            for h, b in cls: yield ren(h, form), ren(b, form)
    def text(self, form): return ''.join(wclause(h, b) for h, b in self.clauses(form))
def hv(h): return [x.n for x in h[1:] if isinstance(x, V) and x.n < 20] if isinstance(h, S) else []
def noaux(t):
    """control constructs inside of call/1: compiled in line they become auxiliary predicates, which a file loaded later replaces (known finding reload_aux)"""
    if isinstance(t, S) and t.name == ',': return S(',', noaux(t.args[0]), noaux(t.args[1]))
    return S('call', t) if isinstance(t, S) and t.name in (';', '->', '*->', '\\+') else t
def dynmod(m):
    """clauses for some of the dynamic predicates of C10"""
    import c10
    if m >= ND:
        d = lambda x: S('d1', x); v = V(0)
        return [(d(1), A('true')), (d(v), S(';', S('=', v, A('ac'[m - ND])), S('=', v, A('bd'[m - ND]))))]
    r = random.Random('dyn%d' % m); g = c10.Gen(r); g.rules = r.choice((.2, .6, .9)); g.big = False; g.long = r.random() < .75
    want = r.choice((('d1',), ('d2',), ('d1', 'd2'), ('d1', 'd2', 'd0'), ('d0', 'd1', 'd2', 'e1'))); out = []
    n = r.choice((2, 4, 8, 14))
    while len(out) < n:
        c = g.clause(); h, b = (c[1], c[2]) if isinstance(c, S) and c.name == ':-' else (c, A('true'))
        if (str(h) if isinstance(h, A) else h.name) in want: out.append((h, noaux(b)))
    out.sort(key=lambda c: str(c[0]) if isinstance(c[0], A) else c[0].name)
    return out
def dyntext(m):
    cls = dynmod(m); ks = sorted(set((str(h), 0) if isinstance(h, A) else (h.name, len(h.args)) for h, b in cls))
    return ''.join(':- dynamic(%s/%d).\n' % k for k in ks) + ''.join(wclause(h, b) for h, b in cls)
def conj(b):
    if not b: return A('true')
    t = b[-1]
    for x in reversed(b[:-1]): t = S(',', x, t)
    return t
class X:
    """heads, arguments and bodies of the clauses of a module"""
    def __init__(self, mod, g): self.mod = mod; self.g = g; self.r = g.r
    def big(self): return self.r.choice((0, 3, -1, 7, 1 << 40, (1 << 60) - 1, -(1 << 60), 100000, 0.5, -2.25, 1e10))
    def arg(self, d=0):
        x = self.r.random(); g = self.g
        if x < .45: return g.var()
        if x < .60: return g.atomic()
        if x < .64: return self.big()
        if d > 2: return g.var()
        if x < .78: return S(self.r.choice('fg'), self.arg(d + 1))
        if x < .86: return S('h', *[self.arg(d + 1) for _ in range(self.r.choice((2, 2, 2, 3, 4, 6)))])
        if x < .95: return [self.arg(d + 1) for _ in range(self.r.randrange(1, 4))]
        return T([self.arg(d + 1)], g.var())
    def hd(self):
        x = self.r.random()
        if x < .5: return V(self.r.randrange(self.g.nvars))
        if x < .55: return V(95 + self.r.randrange(5))       # often void
        return self.arg(1)
    def expr(self, d=0):
        x = self.r.random(); e = lambda: self.expr(d + 1)
        if x < .36 or d > 3: return self.r.choice((0, 1, 2, 3, 5, -4, 7, 1.5, 100, 1 << 33)) if self.r.random() < .4 or not self.seen else V(self.r.choice(self.seen))
        if x < .75: return S(self.r.choice(('+', '-', '*', '+', '-', '*', '//', 'mod', 'rem', 'div', '/', 'min', 'max', '/\\', '\\/', 'xor', '<<', '>>', 'gcd')), e(), e())
        return S(self.r.choice(('-', 'abs', 'sign', 'inc', 'dec', '\\', '-', '+', 'truncate')), e())
    def call(self):
        ps = self.mod.preds
        if not ps: return A('true')
        name, ar, _ = self.r.choice(ps)
        return S(name, *[self.arg() if ar < 200 or self.r.random() < .06 else V(60 + i % 130) for i in range(ar)]) if ar else A(name)
    def number(self, d=0):
        """binds a variable to a number, computes with it"""
        r = self.r; v = V(r.randrange(20, 26)); w = self.g.var() if r.random() < .6 else V(r.randrange(30, 33)); old = self.seen
        self.seen = list(old) if r.random() < .3 else []
        t = [S('=', v, r.choice((1, 2, 3, -5, 0.5, 12))) if r.random() < .4 else S('between', 1, r.choice((2, 3)), v) if r.random() < .6 else S('x_member', v, [r.choice((1, 2, 5, 2.0, -1)) for _ in range(2)])]
        self.seen += [v.n] * 3
        t.append(S('is', w, self.expr()))
        if r.random() < .5: self.seen.append(w.n); t.append(S(r.choice(('<', '>', '=<', '>=', '=:=', '=\\=')), self.expr(1), self.expr(1)))
        if r.random() < .3: t.append(S('sim_logt', S('n', v, w)))
        if r.random() < .2: t.append(self.call())
        self.seen = old
        return conj(t)
    seen = ()
    def builtin(self):
        r = self.r; g = self.g; x = r.random()
        if x < .05: return S('is', g.var(), self.expr())
        if x < .27: return self.number()
        if x < .30: v = self.arg(3); self.seen, old = (list(self.seen) + [v.n] * 3 if isinstance(v, V) else self.seen), self.seen; t = S(';', S('->', S(r.choice(('integer', 'number')), v), S('is', g.var(), self.expr())), self.call()) if not isinstance(v, V) or v.n in old else self.call(); self.seen = old; return t
        if x < .34: return S(r.choice(('<', '>', '=<', '>=', '=:=', '=\\=')), self.expr(1), self.expr(1))
        if x < .44: return S(r.choice(('var', 'nonvar', 'atom', 'integer', 'atomic', 'compound', 'callable', 'number', 'float')), self.arg())
        if x < .54: return S(r.choice(('==', '\\==', '@<', '@>', '@=<', '@>=')), self.arg(), self.arg())
        if x < .58: return S('compare', g.var(), self.arg(), self.arg())
        if x < .66: return S('functor', self.arg(), g.var(), g.var()) if r.random() < .7 else S('functor', g.var(), g.atomic(), r.choice((0, 1, 2, 3)))
        if x < .74: return S('arg', r.choice((1, 2, 3, g.var())), self.arg(), self.arg(1))
        if x < .82: return S('=..', self.arg(), g.var() if r.random() < .6 else T([g.atomic()], self.g.var()) if r.random() < .3 else [g.atomic(), self.arg(1)])
        if x < .95: return S('=', self.arg(), self.arg())
        return S(r.choice(('g_assign', 'g_read')), A(r.choice(('a', 'b'))), self.arg(1))
    def leaf(self):
        x = self.r.random()
        if x < .36: return self.call()
        if x < .64: return self.builtin()
        if x < .70: return A('!')
        if x < .74: return A('fail')
        if x < .79: return S('sim_logt', S('l', self.g.var(), self.g.var()))
        while True:
            t = self.g.leaf()
            if isinstance(t, int) or isinstance(t, S) and t.name in ('is', 'undefined'): continue
            return t
    def body(self, d):
        r = self.r
        if d > 3 or r.random() < .55 + .1 * d: return self.leaf()
        b = lambda: self.body(d + 1); x = r.random()
        if x < .20: return S(',', b(), b())
        if x < .38: return S(';', b(), b())
        if x < .60: return S(';', S('->', b(), b()), b())
        if x < .70: return S(';', S('*->', b(), b()), b())
        if x < .75: return S('->', b(), b())
        if x < .77: return S('*->', b(), b())
        if x < .85: return S('\\+', b())
        if x < .89: return S('call', b())
        if x < .91: return S('once', b())
        if x < .96: return S('catch', b(), self.g.catcher(), b())
        if x < .98: return S('findall', self.arg(1), b(), self.g.var())
        return S('forall', b(), b())

def ren(t, p):
    """the predicates of the bank get the prefix of their form"""
    if isinstance(t, A): return A(p + t) if isq(t) else t
    if isinstance(t, S): return S(p + t.name if isq(t.name) else t.name, *[ren(x, p) for x in t.args])
    if isinstance(t, list): return [ren(x, p) for x in t]
    if isinstance(t, T): return T([ren(x, p) for x in t.items], ren(t.tail, p))
    return t
def isq(n): return len(n) > 3 and n[0] == 'q' and n[1].isdigit()
# ---------------------------------------------------------------- text
def qa(n): return "'" + n.replace('\\', '\\\\').replace("'", "\\'") + "'" if n != '[]' else n
def w(t):
    if t is True: raise TypeError
    if isinstance(t, A): return qa(t)
    if isinstance(t, S):
        return qa(t.name) + '(' + ','.join(map(w, t.args)) + ')'
    if isinstance(t, V): return '_%d' % t.n
    if isinstance(t, list): return '[' + ','.join(map(w, t)) + ']' if t else '[]'
    if isinstance(t, T): return '[' + ','.join(map(w, t.items)) + '|' + w(t.tail) + ']'
    if isinstance(t, float): return repr(t) if 'e' not in repr(t) else '%.20f' % t
    return str(t)
def wclause(h, b): return w(h) + ('' if b == A('true') else ' :-\n\t' + w(b)) + '.\n'

def emit(out, parts=8):
    """the bank as source files: n<i>.pl (all native parts), y<m>.pl"""
    os.makedirs(out, exist_ok=True)
    ps = ['' for _ in range(parts)]
    for m in range(NM):
        M = Mod(m); ps[m % parts] += M.text('n')
        open('%s/y%d.pl' % (out, m), 'w').write(M.text('y'))
    for m in range(ND + 2): open('%s/yd%d.pl' % (out, m), 'w').write(dyntext(m))
    import plmodel; open('%s/yx.pl' % out, 'w').write(plmodel.yx_text())
    for i, t in enumerate(ps): open('%s/n%d.pl' % (out, i), 'w').write(t)
if __name__ == '__main__': emit(sys.argv[1])
