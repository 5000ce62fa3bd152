"""A small Prolog: the reference model of the core-engine checks. It interprets the driver program itself
(drivers/driver.pl) over the operations of a plan and predicts every line it logs.
Iterative: a linked list of goals, a stack of choice points, a trail. No code is shared with the system under test."""
import re
import core

class Atom:
    __slots__ = ('name',)
    tbl = {}
    def __repr__(self): return self.name
def atom(n):
    a = Atom.tbl.get(n)
    if a is None: a = Atom(); a.name = n; Atom.tbl[n] = a
    return a
class Var:
    __slots__ = ('ref', 'no')
    cnt = 0
    def __init__(self): self.ref = None; Var.cnt += 1; self.no = Var.cnt
    def __repr__(self): return '_%d' % self.no if self.ref is None else repr(self.ref)
class St:
    __slots__ = ('name', 'args')
    def __init__(self, name, args): self.name = name; self.args = args
    def __repr__(self): return '%s(%s)' % (self.name, ','.join(map(repr, self.args)))
NIL = atom('[]'); TRUE = atom('true'); ANY = atom('$any'); MINUS = atom('-')
def mk(name, *args): return St(name, list(args))
def mklist(items, tail=NIL):
    for x in reversed(items): tail = St('.', [x, tail])
    return tail
def deref(t):
    while t.__class__ is Var:
        r = t.ref
        if r is None: return t
        t = r
    return t
class PlError(Exception):
    def __init__(self, ball): self.ball = ball
class Skip(Exception):
    """the case leaves what the model describes: no verdict"""
def any_():
    a = Atom(); a.name = '$any'; return a              # each wildcard is its own: two of them cannot be compared
def is_any(t): return t.__class__ is Atom and t.name == '$any'
def err(formal): return PlError(mk('error', formal, any_()))
def type_error(t, c): return err(mk('type_error', atom(t), c))
def dom_error(t, c): return err(mk('domain_error', atom(t), c))
def inst_error(): return err(atom('instantiation_error'))
def exist_error(name, ar): return err(mk('existence_error', atom('procedure'), mk('/', atom(name), ar)))
def perm_error(a, t, name, ar): return err(mk('permission_error', atom(a), atom(t), mk('/', atom(name), ar)))

MAXI = (1 << 60) - 1; MINI = -(1 << 60)

# ---------------------------------------------------------------- conversion and printing
def conv(t, vars, env):
    """a term of core (plan) -> a term of the model"""
    if isinstance(t, (int, float)): return t
    if isinstance(t, core.A): return atom(str(t))
    if isinstance(t, core.S): return St(t.name, [conv(x, vars, env) for x in t.args])
    if isinstance(t, list): return mklist([conv(x, vars, env) for x in t])
    if isinstance(t, core.T): return mklist([conv(x, vars, env) for x in t.items], conv(t.tail, vars, env))
    if isinstance(t, core.G): return env[t.n]
    if isinstance(t, core.V):
        if t.n not in vars: vars[t.n] = Var()
        return vars[t.n]
    if isinstance(t, core.H): return mklist([atom(chr(c)) for c in (t.b.encode('latin-1') if isinstance(t.b, str) else t.b)])
    if isinstance(t, core.C): return mklist([c for c in (t.b.encode('latin-1') if isinstance(t.b, str) else t.b)])
    raise TypeError(t)

def oq(s): return ''.join(c if 32 < ord(c) < 127 and c != '%' else '%%%02X' % ord(c) for c in s)
def ser(t):
    """the text the driver logs for a term"""
    out = []; names = {}
    def go(t, depth):
        t = deref(t)
        if len(out) > 100000: raise Skip('long')
        if depth > 400: raise Skip('deep')
        c = t.__class__
        if c is int: out.append('I%d' % t)
        elif c is Atom: out.append('L0' if t is NIL and False else 'A' + oq(t.name))
        elif c is float: out.append('F%.17g' % t)
        elif c is Var:
            if t not in names:
                if len(names) >= 500: raise Skip('variables')       # the driver's log numbers no more
                names[t] = len(names)
            out.append('V%d' % names[t])
        elif t.name == '.' and len(t.args) == 2:
            items = []; x = t
            while x.__class__ is St and x.name == '.' and len(x.args) == 2:
                items.append(x.args[0]); x = deref(x.args[1])
                if len(items) > 100000: raise Skip('cyclic list')
            out.append('%s%d' % ('L' if x is NIL else 'T', len(items)))
            for y in items: go(y, depth + 1)
            if x is not NIL: go(x, depth + 1)
        else:
            out.append('S%s/%d' % (oq(t.name), len(t.args)))
            for y in t.args: go(y, depth + 1)
    go(t, 0)
    return ' '.join(out)

def same(model, real):
    """model text (may contain the wildcard atom $any) against logged text"""
    if model == real: return True
    if 'A$any' not in model: return False
    if model.startswith('UNC'): return False
    a = core.dec(model); b = core.dec(real)
    vm = {}; vr = {}                    # the wildcard hides variables: compare names by first use outside it
    def eq(x, y):
        if isinstance(x, core.A) and x == core.A('$any'): return True
        if isinstance(x, core.V): return isinstance(y, core.V) and vm.setdefault(x.n, y.n) == y.n and vr.setdefault(y.n, x.n) == x.n
        if isinstance(x, core.S): return isinstance(y, core.S) and len(x) == len(y) and x.name == y.name and all(eq(p, q) for p, q in zip(x.args, y.args))
        if isinstance(x, list): return isinstance(y, list) and len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
        if isinstance(x, core.T): return isinstance(y, core.T) and len(x.items) == len(y.items) and all(eq(p, q) for p, q in zip(x.items, y.items)) and eq(x.tail, y.tail)
        return type(x) == type(y) and x == y
    return eq(a, b)

# ---------------------------------------------------------------- reader (the subset the drivers use)
OPS_IN = {':-': (1200, 'xfx'), ';': (1100, 'xfy'), '->': (1050, 'xfy'), '*->': (1050, 'xfy'), ',': (1000, 'xfy'), '=': (700, 'xfx'), '\\=': (700, 'xfx'), '==': (700, 'xfx'), '\\==': (700, 'xfx'),
          'is': (700, 'xfx'), '<': (700, 'xfx'), '>': (700, 'xfx'), '=<': (700, 'xfx'), '>=': (700, 'xfx'), '=:=': (700, 'xfx'), '=\\=': (700, 'xfx'), '=..': (700, 'xfx'), '@<': (700, 'xfx'),
          '+': (500, 'yfx'), '-': (500, 'yfx'), '*': (400, 'yfx'), '//': (400, 'yfx'), 'mod': (400, 'yfx'), '/': (400, 'yfx'), '^': (200, 'xfy')}
OPS_PRE = {':-': 1200, '+': 200, '?': 500, '\\+': 900, '-': 200}
TOK = re.compile(r"\s+|%[^\n]*|/\*.*?\*/|(?P<v>[A-Z_][A-Za-z0-9_]*)|(?P<a>[a-z][A-Za-z0-9_]*)|(?P<n>\d+(\.\d+)?)|'(?P<q>(?:[^'\\]|''|\\.)*)'|\"(?P<s>[^\"]*)\"|(?P<end>\.(?=\s|$|%))|(?P<y>[-+*/\\^<>=~:.?@#&$]+)|(?P<p>[(),;!|\[\]{}])", re.S)
def tokens(txt):
    out = []; i = 0
    while i < len(txt):
        m = TOK.match(txt, i)
        if not m: raise SyntaxError(txt[i:i + 30])
        k = m.lastgroup
        if k:
            v = m.group(k)
            if k == 'n' and m.group('n') is not None: v = float(v) if '.' in v else int(v)
            out.append((k, v, m.end() < len(txt) and txt[m.end()] == '('))
        elif m.group('n') is not None: out.append(('n', float(m.group('n')), False))
        i = m.end()
    return out
def parse_program(txt):
    """-> list of clause terms"""
    toks = tokens(txt); pos = 0; out = []
    def peek(): return toks[pos]
    def prim(maxp):
        nonlocal pos
        k, v, paren = toks[pos]; pos += 1
        if k == 'v':
            if v == '_': return Var()
            if v not in vs: vs[v] = Var()
            return vs[v]
        if k == 'n': return v
        if k == 's': return mklist([ord(c) for c in v])
        if k == 'p' and v == '(':
            t = expr(1200); assert toks[pos][1] == ')', toks[pos - 5:pos + 3]; pos += 1; return t
        if k == 'p' and v == '[':
            if toks[pos][1] == ']' and toks[pos][0] == 'p': pos += 1; return NIL
            items = [expr(999)]; tail = NIL
            while toks[pos][1] == ',': pos += 1; items.append(expr(999))
            if toks[pos][1] == '|': pos += 1; tail = expr(999)
            assert toks[pos][1] == ']'; pos += 1
            return mklist(items, tail)
        if k == 'p' and v == '!': return atom('!')
        if paren and k in 'aqy':
            pos += 1; args = [expr(999)]
            while toks[pos][1] == ',': pos += 1; args.append(expr(999))
            assert toks[pos][1] == ')', toks[pos - 5:pos + 3]; pos += 1
            return St(v, args)
        if k == 'y' and v == '-' and toks[pos][0] == 'n': pos += 1; return -toks[pos - 1][1]
        if k in 'ay' and v in OPS_PRE and toks[pos][1] not in (')', ','):
            p = OPS_PRE[v]
            return St(v, [expr(min(p, maxp))])
        return atom(v)
    def expr(maxp):
        nonlocal pos
        left = prim(maxp); lp = 0
        while True:
            k, v, _ = toks[pos]
            if k in ('a', 'y', 'p') and v in OPS_IN:
                p, ty = OPS_IN[v]
                la = p if ty == 'yfx' else p - 1; ra = p if ty == 'xfy' else p - 1
                if p > maxp or lp > la: return left
                pos += 1; right = expr(ra); left = St(v, [left, right]); lp = p
            else: return left
    while pos < len(toks):
        vs = {}
        t = expr(1200); assert toks[pos][0] == 'end', toks[pos - 5:pos + 3]; pos += 1
        out.append(t)
    return out

# ---------------------------------------------------------------- clauses
class Clause:
    __slots__ = ('head', 'body', 'nv', 'alive', 'simple')
class LV:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
def freeze(t, m):
    t = deref(t)
    if t.__class__ is Var:
        if t not in m: m[t] = LV(len(m))
        return m[t]
    if t.__class__ is St: return St(t.name, [freeze(x, m) for x in t.args])
    return t
def thaw(t, vs):
    if t.__class__ is LV: return vs[t.n]
    if t.__class__ is St: return St(t.name, [thaw(x, vs) for x in t.args])
    return t
def mkclause(head, body):
    c = Clause(); m = {}
    c.head = freeze(head, m); c.body = freeze(body, m); c.nv = len(m); c.alive = True
    return c

class CP:
    __slots__ = ('kind', 'tl', 'goals', 'a', 'b', 'dead')
    def __init__(self, kind, tl, goals, a=None, b=None): self.kind = kind; self.tl = tl; self.goals = goals; self.a = a; self.b = b; self.dead = False

CONTROL = {(',', 2), (';', 2), ('->', 2), ('*->', 2), ('!', 0), ('true', 0), ('fail', 0), ('false', 0), ('\\+', 1), ('call', 1), ('catch', 3), ('findall', 3), ('findall', 4), ('bagof', 3), ('setof', 3), ('forall', 2), ('once', 1), ('throw', 1), ('countall', 2), ('call_nth', 2)}

class Engine:
    source = None
    def live(self): return sum(1 for cp in self.cps if cp.kind == 'gen' or cp.kind == 'clauses')
    def depth(self): return sum(1 for cp in self.cps if cp.kind == 'alt')
    def __init__(self, steps=400000):
        self.trail = []; self.cps = []; self.db = {}; self.static = {}; self.log = []; self.nsteps = steps
        self.gv = {}; self.halted = False; self.user = {}; self.det = {}; self.nondet = {}
        self.flags = {}
        for f in dir(self):
            if f.startswith('d_'):
                m = getattr(self, f); k = m.__doc__.split()[0]; i = k.rindex('/'); self.det[(k[:i], int(k[i + 1:]))] = m
            if f.startswith('n_'):
                m = getattr(self, f); k = m.__doc__.split()[0]; i = k.rindex('/'); self.nondet[(k[:i], int(k[i + 1:]))] = m
    # -- programs
    def load(self, txt):
        for c in parse_program(txt):
            if c.__class__ is St and c.name == ':-' and len(c.args) == 1:
                d = deref(c.args[0])
                if d.__class__ is St and d.name == 'dynamic': pi = d.args[0]; self.db[(pi.args[0].name, pi.args[1])] = []
                continue
            h, b = (c.args if c.__class__ is St and c.name == ':-' else (c, TRUE))
            k = (h.name, len(h.args)) if h.__class__ is St else (h.name, 0)
            self.static.setdefault(k, []).append(mkclause(h, b))
    def d_load(self, f):
        'load/1'
        if deref(f).name != '/w/yx.wbc': raise Skip('load')
        self.static.update(yx_static()); return True
    # -- binding
    def bind(self, v, t): v.ref = t; self.trail.append(v)
    def undo(self, n):
        tr = self.trail
        while len(tr) > n:
            x = tr.pop()
            if x.__class__ is Var: x.ref = None
            else: x()
    def work(self):
        self.nwork += 1
        if self.nwork > self.maxwork: raise Skip('work')
    nwork = 0; maxwork = 400000
    def occurs(self, v, t, d=0):
        t = deref(t); self.work()
        if t is v: return True
        if d > 400: raise Skip('deep')
        return t.__class__ is St and any(self.occurs(v, x, d + 1) for x in t.args)
    def unify(self, a, b):
        st = [(a, b)]
        while st:
            a, b = st.pop(); a = deref(a); b = deref(b); self.work()
            if a is b: continue
            if a.__class__ is Var:
                if b.__class__ is St and self.occurs(a, b): raise Skip('cyclic term')
                self.bind(a, b)
            elif b.__class__ is Var:
                if a.__class__ is St and self.occurs(b, a): raise Skip('cyclic term')
                self.bind(b, a)
            elif is_any(a) or is_any(b): raise Skip('wildcard unified')
            elif a.__class__ is not b.__class__: return False
            elif a.__class__ is St:
                if a.name != b.name or len(a.args) != len(b.args): return False
                st.extend(reversed(list(zip(a.args, b.args))))
            elif a.__class__ is Atom: return False
            elif a != b: return False
        return True
    def unify_head(self, h, t, vs):
        t = deref(t)
        c = h.__class__
        if c is LV:
            x = vs[h.n]
            if x is None: vs[h.n] = t; return True
            return self.unify(x, t)
        if c is St:
            if t.__class__ is St:
                if t.name != h.name or len(t.args) != len(h.args): return False
                for x, y in zip(h.args, t.args):
                    if not self.unify_head(x, y, vs): return False
                return True
            if t.__class__ is Var:
                x = self.thaw2(h, vs)
                if self.occurs(t, x): raise Skip('cyclic term')
                self.bind(t, x); return True
            return False
        if t.__class__ is Var: self.bind(t, h); return True
        if c is Atom: return h is t
        return t.__class__ is c and t == h
    def thaw2(self, t, vs):
        if t.__class__ is LV:
            x = vs[t.n]
            if x is None: x = vs[t.n] = Var()
            return x
        if t.__class__ is St: return St(t.name, [self.thaw2(x, vs) for x in t.args])
        return t
    def copy(self, t, m=None):
        if m is None: m = {}
        def go(t, d):
            t = deref(t); self.work()
            if d > 400: raise Skip('deep')
            if t.__class__ is Var:
                if t not in m: m[t] = Var()
                return m[t]
            if t.__class__ is St: return St(t.name, [go(x, d + 1) for x in t.args])
            return t
        return go(t, 0)
    # -- engine
    def cut(self, n): del self.cps[n:]
    def run(self, goal, env=None):
        """runs goal (once) to the end: True/False; raises PlError if a ball is not caught"""
        self.env = env
        self.goals = (goal, 0, None)
        base = len(self.cps)
        while True:
            self.nsteps -= 1
            if self.nsteps < 0: raise Skip('steps')
            g = self.goals
            if g is None: return True
            try:
                ok = self.step(g)
                if self.halted: return True
                if not ok and not self.fail(): return False
            except PlError as e:
                if not self.throw(e.ball): raise
    floor = 0
    def fail(self):
        while len(self.cps) > self.floor:
            cp = self.cps[-1]
            self.undo(cp.tl)
            k = cp.kind
            if cp.dead: self.cps.pop(); continue
            if k == 'alt': self.cps.pop(); self.goals = cp.goals; return True
            if k == 'clauses':
                if self.try_clauses(cp): return True
                continue
            if k == 'gen':
                self.goals = self.goals_at = cp.goals
                try:
                    if next(cp.a) is not False: return True
                except StopIteration: self.cps.remove(cp)
                continue
            if k == 'catch': self.cps.pop(); continue
            if k == 'findall':
                self.cps.pop(); self.goals = self.goals_at = cp.goals
                if cp.b(cp.a): return True
                continue
            raise AssertionError(k)
        return False
    def throw(self, ball):
        ball = self.copy(ball)
        g = self.goals_at
        while g is not None:
            t = g[0]
            if t.__class__ is tuple and t[0] == 'exitcatch':
                cp = t[1]
                i = self.index_of(cp)
                if i is not None:
                    del self.cps[i:]
                    self.undo(cp.tl)
                    catcher, recov = cp.a
                    n = len(self.trail)
                    if self.unify_ball(catcher, ball):
                        self.goals = (mk('call', recov), 0, g[2]); return True
                    self.undo(n)
            g = g[2]
        return False
    def unify_ball(self, catcher, ball):
        return self.unify(catcher, ball)
    def index_of(self, cp):
        for i in range(len(self.cps) - 1, -1, -1):
            if self.cps[i] is cp: return i
        return None
    def step(self, g):
        self.goals_at = g
        t, cutb, nxt = g
        t = deref(t)
        c = t.__class__
        if c is tuple:                       # internal
            k = t[0]
            self.goals = nxt
            if k == 'exitcatch': return True
            if k == 'cut': self.cut(t[1]); return True
            if k == 'soft': t[1].dead = True; return True
            if k == 'collect': t[1].append(self.copy(t[2])); return False
            if k == 'py': return t[1]()
            raise AssertionError(k)
        if c is Var: raise inst_error()         # (only call(V): a variable of a body is wrapped when the body is converted)
        if c is Atom: name = t.name; args = (); n = 0
        elif c is St: name = t.name; args = t.args; n = len(args)
        else: raise type_error('callable', t)
        if name == ',' and n == 2: self.goals = (args[0], cutb, (args[1], cutb, nxt)); return True
        if n == 0:
            if name == 'true': self.goals = nxt; return True
            if name == '!': self.cut(cutb); self.goals = nxt; return True
            if name == 'fail' or name == 'false': return False
        key = (name, n)
        cl = self.static.get(key)
        if cl is not None:
            self.goals = nxt
            cp = CP('clauses', len(self.trail), g, [cl, 0], (t, nxt))
            self.cps.append(cp)
            return self.try_clauses(cp)
        f = self.det.get(key)
        if f is not None:
            self.goals = nxt
            return f(*args)
        if key == (';', 2):
            l = deref(args[0]); b = len(self.cps)
            cp = CP('alt', len(self.trail), (args[1], cutb, nxt)); self.cps.append(cp)
            if l.__class__ is St and len(l.args) == 2 and l.name == '->':
                self.goals = (l.args[0], b + 1, (('cut', b), 0, (l.args[1], cutb, nxt)))
            elif l.__class__ is St and len(l.args) == 2 and l.name == '*->':
                self.goals = (l.args[0], b + 1, (('soft', cp), 0, (l.args[1], cutb, nxt)))
            else: self.goals = (l, cutb, nxt)
            return True
        if key == ('->', 2):
            b = len(self.cps)
            self.cps.append(CP('alt', len(self.trail), (atom('fail'), 0, None)))
            self.goals = (args[0], b + 1, (('cut', b), 0, (args[1], cutb, nxt))); return True
        if key == ('*->', 2):
            self.goals = (args[0], len(self.cps), (args[1], cutb, nxt)); return True
        if key == ('\\+', 1):
            b = len(self.cps)
            self.cps.append(CP('alt', len(self.trail), nxt if nxt is not None else (TRUE, 0, None)))
            self.goals = (self.body(args[0]), b + 1, (('cut', b), 0, (atom('fail'), 0, nxt))); return True
        if name == 'call' and n >= 1:
            t2 = self.addargs(args[0], args[1:])
            self.goals = (self.body(t2), len(self.cps), nxt); return True
        if key == ('once', 1):
            b = len(self.cps); self.goals = (self.body(args[0]), b, (('cut', b), 0, nxt)); return True
        if key == ('catch', 3):
            cp = CP('catch', len(self.trail), nxt, (args[1], args[2])); self.cps.append(cp)
            self.goals = (mk('call', args[0]), 0, (('exitcatch', cp), 0, nxt)); return True
        if key == ('throw', 1):
            b = deref(args[0])
            if b.__class__ is Var: raise inst_error()
            raise PlError(args[0])
        if name in ('findall', 'bagof', 'setof') and 2 < n < 5:
            for x in args[2:]: self.check_list(x)
        if key == ('findall', 3): return self.findall(args[0], args[1], lambda rs: self.unify(args[2], mklist(rs)), nxt)
        if key == ('findall', 4): return self.findall(args[0], args[1], lambda rs: self.unify(args[2], mklist(rs, args[3])), nxt)
        if key == ('forall', 2):
            t2 = mk(',', args[0], mk('\\+', args[1]))
            self.check_body(t2, any_())
            self.goals = (mk('\\+', t2), 0, nxt); return True
        if key == ('countall', 2):
            c = deref(args[1])
            if c.__class__ not in (Var, int): raise type_error('integer', c)
            if c.__class__ is int and c < 0: raise dom_error('not_less_than_zero', c)
            return self.findall(TRUE, args[0], lambda rs: self.unify(c, len(rs)), nxt)
        if key == ('call_nth', 2):
            c = deref(args[1])
            if c.__class__ not in (Var, int): raise type_error('integer', c)
            if c.__class__ is int and c < 0: raise dom_error('not_less_than_zero', c)
            if c == 0: return False
            cnt = [0]
            def count():
                cnt[0] += 1; return self.unify(c, cnt[0])
            b = len(self.cps)
            self.goals = (self.body(args[0]), b, (('py', count), 0, nxt if c.__class__ is Var else (('cut', b), 0, nxt))); return True
        if key in (('bagof', 3), ('setof', 3)): return self.bagof(name, *args, nxt)
        f = self.nondet.get(key)
        if f is not None:
            gen = f(*args)
            cp = CP('gen', len(self.trail), nxt, gen)
            self.cps.append(cp)
            self.goals = nxt
            try: return next(gen) is not False
            except StopIteration: self.cps.remove(cp); return False
        if key in self.db:
            cl = [c for c in self.db[key]]
            cp = CP('clauses', len(self.trail), g, [cl, 0], (t, nxt))
            self.cps.append(cp)
            return self.try_clauses(cp)
        if key == ('.', 2): raise Skip('consult')
        raise exist_error(name, n)
    def body(self, t):
        """call/1 converts its argument to a body first"""
        if deref(t).__class__ is Var: raise inst_error()
        self.check_body(t, t); return self.norm_body(t)
    def check_body(self, t, whole):
        t = deref(t)
        if t.__class__ is Var: return
        if t.__class__ is St and len(t.args) == 2 and t.name in (',', ';', '->', '*->'):
            for x in t.args: self.check_body(x, whole)
        elif t.__class__ in (int, float): raise type_error('callable', whole)
    def addargs(self, t, more):
        t = deref(t)
        if not more: return t
        if t.__class__ is Var: raise inst_error()
        if t.__class__ is Atom: return St(t.name, list(more))
        if t.__class__ is St: return St(t.name, list(t.args) + list(more))
        raise type_error('callable', t)
    def try_clauses(self, cp):
        t, nxt = cp.b
        args = t.args if t.__class__ is St else ()
        cl, i = cp.a
        me = len(self.cps) - 1
        while i < len(cl):
            c = cl[i]; i += 1
            vs = [None] * c.nv
            ok = True
            h = c.head
            if h.__class__ is St:
                for x, y in zip(h.args, args):
                    if not self.unify_head(x, y, vs): ok = False; break
            if not ok: self.undo(cp.tl); continue
            cp.a[1] = i
            if i >= len(cl): self.cps.pop()
            b = c.body
            self.goals = nxt if b is TRUE else (self.thaw2(b, vs), me, nxt)
            return True
        self.cps.pop()
        return False
    def findall(self, T, G, fin, nxt):
        rs = []
        self.cps.append(CP('findall', len(self.trail), nxt, rs, fin))
        self.goals = (self.body(G), len(self.cps), (('collect', rs, T), 0, nxt))
        return True
    def strip(self, G):
        G = deref(G); ex = []
        while G.__class__ is St and G.name == '^' and len(G.args) == 2: ex.append(G.args[0]); G = deref(G.args[1])
        return ex, G
    def vars_of(self, t, acc):
        t = deref(t); self.work()
        if t.__class__ is Var:
            if t not in acc: acc.append(t)
        elif t.__class__ is St:
            for x in t.args: self.vars_of(x, acc)
        return acc
    def bagof(self, name, T, G, R, nxt):
        ex, G1 = self.strip(G)
        bound = self.vars_of(T, [])
        for x in ex: self.vars_of(x, bound)
        free = [v for v in self.vars_of(G1, []) if v not in bound]
        if deref(G1).__class__ is Var: raise inst_error()
        if not free:
            def fin(rs):
                if not rs: return False
                if name == 'setof': rs = self.sort(rs)
                return self.unify(R, mklist(rs))
            return self.findall(T, G1, fin, nxt)
        W = St('$w', free)
        def fin(rs):
            if not rs: return False
            pool = []                   # variant keys are made the same: their variables are linked by position
            for x in reversed(rs):
                save = len(pool); i = 0
                for v in self.vars_of(x.args[0], []):
                    if v in pool: continue
                    if i < save: v.ref = pool[i]; i += 1
                    else: pool.append(v)
            import functools
            rs = sorted(rs, key=functools.cmp_to_key(lambda a, b: self.cmp(a.args[0], b.args[0])))
            groups = []
            for x in rs:
                if groups and self.cmp(groups[-1][0], x.args[0]) == 0: groups[-1][1].append(x.args[1])
                else: groups.append((x.args[0], [x.args[1]]))
            def gen():
                for w, l in groups:
                    if name == 'setof': l = self.sort(l)
                    n = len(self.trail)
                    if self.unify(W, w) and self.unify(R, mklist(l)): yield
                    else: self.undo(n)
            g = gen()
            self.cps.append(CP('gen', len(self.trail), nxt, g))
            try: next(g); return True
            except StopIteration: self.cps.pop(); return False
        return self.findall(mk('-', W, T), G1, fin, nxt)
    # -- standard order
    def rank(self, t):
        c = t.__class__
        return 0 if c is Var else 1 if c is float else 2 if c is int else 3 if c is Atom else 4
    def cmp(self, a, b, vars_ok=False):
        self.work(); a = deref(a); b = deref(b)
        if a is b: return 0
        if is_any(a) or is_any(b): raise Skip('wildcard compared')
        ra = self.rank(a); rb = self.rank(b)
        if ra in (1, 2) and rb in (1, 2):
            if ra != rb and a == b: return -1 if ra == 1 else 1
            if ra == 1 and rb == 2 or ra == 2 and rb == 1: return -1 if ra < rb else 1
            return -1 if a < b else 1 if a > b else 0
        if ra != rb: return -1 if ra < rb else 1
        if ra == 0: raise Skip('order of variables')
        if ra == 3:
            x = a.name.encode('latin-1'); y = b.name.encode('latin-1'); return -1 if x < y else 1 if x > y else 0
        if len(a.args) != len(b.args): return -1 if len(a.args) < len(b.args) else 1
        if a.name != b.name: return -1 if a.name.encode('latin-1') < b.name.encode('latin-1') else 1
        for x, y in zip(a.args, b.args):
            r = self.cmp(x, y)
            if r: return r
        return 0
    def sort(self, l):
        import functools
        l = sorted(l, key=functools.cmp_to_key(self.cmp)); out = []
        for x in l:
            if not out or self.cmp(out[-1], x) != 0: out.append(x)
        return out
    # -- builtins of the driver
    def d_next(self, e, op, vs):
        'sim_next/3'
        if self.source is not None:         # generation: the next operation is chosen now, with the state of the model in view
            o = self.source(self)
            if o is None: return False
        elif not self.ops: return False
        else: o = self.ops.pop(0)
        self.opno += 1
        m = {}
        env = deref(e).args
        t = conv(o, m, env)
        nv = max(m) + 1 if m else 0
        vl = [m.get(i) or Var() for i in range(nv)]
        return self.unify(op, t) and self.unify(vs, mklist(vl))
    def d_log(self, t):
        'sim_logt/1'
        s = ser(t)
        self.log.append((self.opno, s))
        return True
    def d_halt(self):
        'halt/0'
        self.halted = True; return True
    def d_unify(self, a, b):
        '=/2'
        return self.unify(a, b)
    def d_nunify(self, a, b):
        '\\=/2'
        n = len(self.trail); r = self.unify(a, b); self.undo(n); return not r
    def d_eq(self, a, b):
        '==/2'
        return self.ident(a, b)
    def d_neq(self, a, b):
        '\\==/2'
        return not self.ident(a, b)
    def ident(self, a, b):
        self.work(); a = deref(a); b = deref(b)
        if a is b: return True
        if is_any(a) or is_any(b): raise Skip('wildcard compared')
        if a.__class__ is not b.__class__: return False
        if a.__class__ is St: return a.name == b.name and len(a.args) == len(b.args) and all(self.ident(x, y) for x, y in zip(a.args, b.args))
        if a.__class__ in (Var, Atom): return False
        return a == b
    def d_copy(self, a, b):
        'copy_term/2'
        return self.unify(b, self.copy(a))
    def d_var(self, a):
        'var/1'
        return deref(a).__class__ is Var
    def d_nonvar(self, a):
        'nonvar/1'
        return deref(a).__class__ is not Var
    def d_atom(self, a):
        'atom/1'
        return deref(a).__class__ is Atom
    def d_integer(self, a):
        'integer/1'
        return deref(a).__class__ is int
    def ev(self, t):
        t = deref(t)
        c = t.__class__
        if c in (int, float): return t
        if c is Var: raise inst_error()
        if c is Atom: raise type_error('evaluable', mk('/', t, 0))
        if t.name == '.' and len(t.args) == 2: raise Skip('list as an expression')
        if (t.name, len(t.args)) not in (('+', 2), ('-', 2), ('*', 2), ('-', 1), ('//', 2), ('mod', 2)): raise type_error('evaluable', mk('/', atom(t.name), len(t.args)))
        a = [self.ev(x) for x in t.args]
        if any(x.__class__ is not int for x in a): raise Skip('float arithmetic')
        k = (t.name, len(a))
        if k == ('+', 2): r = a[0] + a[1]
        elif k == ('-', 2): r = a[0] - a[1]
        elif k == ('*', 2): r = a[0] * a[1]
        elif k == ('-', 1): r = -a[0]
        elif k == ('//', 2):
            if a[1] == 0: raise err(mk('evaluation_error', atom('zero_divisor')))
            r = abs(a[0]) // abs(a[1]) * (1 if (a[0] < 0) == (a[1] < 0) else -1)
        elif k == ('mod', 2):
            if a[1] == 0: raise err(mk('evaluation_error', atom('zero_divisor')))
            r = a[0] % a[1]
        else: raise type_error('evaluable', mk('/', atom(t.name), len(a)))
        if not MINI <= r <= MAXI: raise Skip('overflow')
        return r
    def d_is(self, a, b):
        'is/2'
        return self.unify(a, self.ev(b))
    def d_lt(self, a, b):
        '</2'
        return self.ev(a) < self.ev(b)
    def d_gt(self, a, b):
        '>/2'
        return self.ev(a) > self.ev(b)
    def d_ge(self, a, b):
        '>=/2'
        return self.ev(a) >= self.ev(b)
    def d_le(self, a, b):
        '=</2'
        return self.ev(a) <= self.ev(b)
    def d_aeq(self, a, b):
        '=:=/2'
        return self.ev(a) == self.ev(b)
    def d_functor(self, t, f, n):
        'functor/3'
        t = deref(t)
        if t.__class__ is Var:
            f = deref(f); n = deref(n)
            if f.__class__ is St: raise Skip('functor')
            if f.__class__ is Var or n.__class__ is Var: raise inst_error()
            if n == 0: return self.unify(t, f)
            if f.__class__ is not Atom or n.__class__ is not int or n < 0 or n > 255: raise Skip('functor')
            return self.unify(t, St(f.name, [Var() for _ in range(n)]))
        if t.__class__ is St:
            f = deref(f)
            if f.__class__ not in (Var, Atom): raise Skip('functor')
            w = atom(t.name), len(t.args)
        else: w = t, 0
        if not self.unify(f, w[0]): return False
        n = deref(n)
        if n.__class__ is not Var and n.__class__ is not int: raise type_error('integer', n)
        return self.unify(n, w[1])
    def n_between(self, lo, hi, x):
        'between/3'
        lo = deref(lo); hi = deref(hi); x = deref(x)
        for b in (lo, hi):
            if b.__class__ is Var: raise inst_error()
            if b.__class__ is not int: raise type_error('integer', b)
        if x.__class__ is not Var and x.__class__ is not int: raise type_error('integer', x)
        if x.__class__ is int:
            if lo <= x <= hi: yield
            return
        for i in range(lo, hi + 1):
            self.unify(x, i); yield
    def n_repeat(self):
        'repeat/0'
        while True: yield
    def getlist(self, l):
        out = []; l = deref(l)
        while l.__class__ is St and l.name == '.' and len(l.args) == 2: out.append(l.args[0]); l = deref(l.args[1])
        return out, l
    def check_list(self, l):
        x, tail = self.getlist(l)
        if tail is not NIL and tail.__class__ is not Var: raise type_error('list', l)
    def d_length(self, l, n):
        'length/2'
        x, tail = self.getlist(l)
        if tail is not NIL: raise Skip('length')
        return self.unify(n, len(x))
    # -- the clause database
    def head_of(self, h):
        h = deref(h)
        if h.__class__ is Var: raise inst_error()
        if h.__class__ is Atom: return h, (h.name, 0)
        if h.__class__ is St: return h, (h.name, len(h.args))
        raise type_error('callable', h)
    def split(self, c):
        c = deref(c)
        if c.__class__ is St and c.name == ':-' and len(c.args) == 2: return c.args[0], c.args[1]
        return c, TRUE
    def is_static(self, key):
        return key == ('.', 2) or key in self.static or key in self.det or key in self.nondet or key in CONTROL or key[0] == 'call'
    def add(self, c, front):
        h, b = self.split(c)
        h, key = self.head_of(h)
        b = deref(b)
        if b.__class__ in (int, float): raise type_error('callable', b)
        self.check_body(b, b)
        if self.is_static(key): raise perm_error('modify', 'static_procedure', *key)
        if b.__class__ is Var: b = mk('call', b)
        else: b = self.norm_body(b)
        cl = mkclause(h, b)
        l = self.db.setdefault(key, [])
        self.db[key] = [cl] + l if front else l + [cl]
        return True
    def norm_body(self, b):
        b = deref(b)
        if b.__class__ is Var: return mk('call', b)
        if b.__class__ is St and len(b.args) == 2 and b.name in (',', ';', '->', '*->'): return St(b.name, [self.norm_body(x) for x in b.args])
        return b
    def d_asserta(self, c):
        'asserta/1'
        return self.add(c, True)
    def d_assertz(self, c):
        'assertz/1'
        return self.add(c, False)
    def remove(self, key, c):
        if c.alive:
            c.alive = False
            if key in self.db: self.db[key] = [x for x in self.db[key] if x is not c]
    def match(self, c, h, b):
        vs = [None] * c.nv
        return self.unify(self.thaw2(c.head, vs), h) and self.unify(self.thaw2(c.body, vs), b)
    def check_b(self, b):
        b = deref(b)
        if b.__class__ in (int, float): raise type_error('callable', b)
    def n_retract(self, c):
        'retract/1'
        h, b = self.split(c)
        h, key = self.head_of(h)
        self.check_b(b)
        if self.is_static(key): raise perm_error('modify', 'static_procedure', *key)
        snap = list(self.db.get(key, []))
        n = len(self.trail)
        for c in snap:
            if self.match(c, h, b):
                self.remove(key, c); yield
            self.undo(n)
    def n_clause(self, h, b):
        'clause/2'
        h, key = self.head_of(h)
        self.check_b(b)
        if self.is_static(key): raise perm_error('access', 'private_procedure', *key)
        snap = list(self.db.get(key, []))
        n = len(self.trail)
        for c in snap:
            if self.match(c, h, b): yield
            self.undo(n)
    def d_retractall(self, h):
        'retractall/1'
        h, key = self.head_of(h)
        if self.is_static(key): raise perm_error('modify', 'static_procedure', *key)
        n = len(self.trail)
        for c in list(self.db.get(key, [])):
            vs = [None] * c.nv
            if self.unify(self.thaw2(c.head, vs), h): self.remove(key, c)
            self.undo(n)
        return True
    def d_abolish(self, pi):
        'abolish/1'
        pi = deref(pi)
        key = (deref(pi.args[0]).name, deref(pi.args[1]))
        if self.is_static(key): raise perm_error('modify', 'static_procedure', *key)
        for c in self.db.get(key, []): c.alive = False
        self.db.pop(key, None)
        return True

# ---------------------------------------------------------------- the driver in the model
_driver = None
def driver_text():
    global _driver
    if _driver is None:
        import os
        _driver = open(os.path.join(core.VERIF, 'drivers', 'driver.pl'), encoding='latin-1').read()
    return _driver
_compiled = {}
def engine(cls=Engine, **kw):
    e = cls(**kw)
    if 'drv' not in _compiled:
        e.load(driver_text()); _compiled['drv'] = (dict(e.static), [k for k in e.db])
    st, dyn = _compiled['drv']
    e.static = dict(st); e.db = {k: [] for k in dyn}
    e.opno = -1
    return e
def yx_text():
    """the x_ predicates of the driver under other names: loaded at run time as byte-code"""
    import re
    t = re.sub(r'%[^\n]*', '', driver_text()); cl = [c.strip() for c in re.split(r'\.\s*\n', t)]
    return re.sub(r'\bx_(?!open\b)', 'y_', ''.join(c + '.\n' for c in cl if re.match(r'x_(?!open\b)', c)))
def yx_static():
    if 'yx' not in _compiled:
        e = Engine(); e.load(yx_text())
        for t in ('y_deep(N, G, Y) :- call(G), y_same(Y, Z).', 'y_choice(N, G) :- call(G).', 'y_catches(N, G) :- catch(G, y_none, true).'):
            c = parse_program(t)[0]; h = c.args[0]; e.static[(h.name, len(h.args))] = [mkclause(*c.args)]
        _compiled['yx'] = dict(e.static)
    return _compiled['yx']
def predict(e, ops, env_size=200):
    """runs the driver program over ops -> ([(op number, text)], final ok)"""
    e.ops = list(ops)
    env = St('env', [Var() for _ in range(env_size)])
    try: e.run(mk('run_seq', env))
    except PlError as x: e.log.append((e.opno, 'UNCAUGHT ' + ser(x.ball)))
    return e.log
