"""C20: Prolog called from C"""
import core, nd, plmodel, c11
from core import A, S, V, G, C, T, enc, dec
from plmodel import deref, atom, mk, err, inst_error, type_error, St, Atom, Var, CP, TRUE, PlError, ser, mklist
from nd import plan, reduce
ID = 'C20'
QUICK = 14000
THOROUGH = 300000
TWICE = 50
SHRINK = ('ops', 'faults')
RULE = 'a history in which a C function opened a query'
REAL = ['the C interface of GNU Prolog (foreign predicates, their choice points and arguments, Pl_Query_*, Pl_Get_Exception, Pl_Throw, Pl_Exec_Continuation) and the engine below it, built from the tree']
STUB = ['kernel replaced by sim/libsim.c (its failing opens raise some of the exceptions)', 'what the C functions do with their queries is a script of the plan, interpreted by drivers/glue.c']
PROBES = ['qr', 'qx', 'w', 'held', 'nd', 'solutions', 'exhausted', 'failed_query', 'kept', 'nested', 'left_open', 'top_ex', 'open_failed']
ORACLE = 'an independent interpreter (harness/plmodel.py) of the driver program and of the goals of the plan, extended with a stack of queries (harness/c20.py)'

class Q:
    """a query: its base among the choice points, the trail at its start, what follows the C function"""
    def __init__(self, base, tl, nxt, rec): self.base = base; self.tl = tl; self.nxt = nxt; self.rec = rec; self.state = 'open'; self.res = None
class Ret(Exception):
    def __init__(self, v): self.v = v
class Fr: pass
RES = {'fail': 0, 'ok': 1, 'ex': 2}
class Eng(c11.Eng):
    level = unclean = 0
    def cnt(self, k): self.stat[k] = self.stat.get(k, 0) + 1
    def step(self, g):
        t = g[0]
        if t.__class__ is tuple and t[0] == 'qend':
            q = t[1]
            if q.state == 'kept': self.goals = q.nxt; return True
            self.qdone = q; return True
        return super().step(g)
    def throw(self, ball):
        """as in the engine, but a kept query is followed by what follows its C function"""
        self.tball = ball; ball = self.copy(ball)        # given to C as it is, or its copy once a catch/3 looked at it
        g = self.goals_at
        while g is not None:
            t = g[0]; nx = g[2]
            if t.__class__ is tuple:
                if t[0] == 'exitcatch':
                    cp = t[1]; i = self.index_of(cp)
                    if i is not None:
                        del self.cps[i:]; self.undo(cp.tl); self.tball = ball
                        n = len(self.trail)
                        if self.unify(cp.a[0], ball): self.goals = (mk('call', cp.a[1]), 0, nx); return True
                        self.undo(n)
                elif t[0] == 'qend': nx = t[1].nxt if t[1].state == 'kept' else None
            g = nx
        return False
    def query(self, q, goal):
        """runs until the query succeeds, fails or raises; goal: None for the next solution"""
        floor, self.floor = self.floor, q.base
        if goal is not None: q.unclean = self.unclean
        self.level += 1
        if self.level > 12: raise plmodel.Skip('deep')
        if self.level > 1: self.cnt('nested')
        self.qdone = None
        try:
            if goal is not None: self.goals = self.goals_at = (goal, q.base, (('qend', q), 0, None))
            ok = goal is not None
            while True:
                self.nsteps -= 1
                if self.nsteps < 0: raise plmodel.Skip('steps')
                try:
                    if not ok and not self.fail(): q.res = 0; break
                    ok = True
                    ok = self.step(self.goals)
                    if self.halted: raise plmodel.Skip('halt')
                    if self.qdone is q: self.qdone = None; q.res = 1; break
                except PlError as e:
                    if not self.throw(e.ball): q.res = 2; q.clean = len(self.trail) == q.tl and self.unclean == q.unclean; q.ball = self.tball; del self.cps[q.base:]; break
                    ok = True
        finally:
            self.floor = floor; self.level -= 1
        if q.res == 0 or q.res == 2 and not q.clean: self.unclean += 1
        self.cnt(('failed_query', 'solutions', 'raised')[q.res])
        return q.res
    def out(self, what, n, w=None):
        self.log.append((self.opno, 'S%s/%d I%d%s' % (what, 2 if w is not None else 1, n, '' if w is None else ' ' + ser(w))))
    def got(self, f, q):
        f.res = q.res
        if q.res == 2: f.ball = q.ball; self.out('qx', 2, q.ball)
        else: self.out('qr', q.res, f.watch if q.res == 1 else None)
    def close(self, f, op):
        q = f.qs.pop(); q.state = 'closed'
        if op == 'rec' and not q.rec: op = 'cut'
        if op == 'keep' and f.qs: op = 'cut'
        if q.res != 1 and not (q.res == 2 and q.clean) and op != 'rec': f.dirty = True          # what the goal bound before it failed is not specified
        if op == 'keep':
            if len(self.cps) > q.base: self.cnt('kept')
            q.state = 'kept'
        else:
            del self.cps[q.base:]
            if op == 'rec': self.undo(q.tl); del f.held[q.mark:]
    def close_all(self, f):
        while f.qs: self.close(f, 'rec' if f.qs[-1].rec else 'cut')
    def callable(self, t, who):
        t = deref(t)
        if t.__class__ is Var: raise PlError(mk('error', atom('instantiation_error'), who))
        if t.__class__ not in (St, Atom): raise PlError(mk('error', mk('type_error', atom('callable'), t), who))
        return t
    def script(self, f, l):
        for c in self.getlist(l)[0]:
            c = deref(c); k = c.name; a = c.args if c.__class__ is St else ()
            if not f.qs and k in ('next', 'loop', 'ok', 'end'): continue
            dirty = f.dirty or any(q.res != 1 and not (q.res == 2 and q.clean) for q in f.qs)
            if dirty and not (k in ('ok', 'end', 'ret', 'prop', 'hx') or k == 'next' and not f.dirty and all(q.res == 1 for q in f.qs[:-1]) or k == 'throw' and not self.vars_of(a[0], [])): raise plmodel.Skip('dirty')
            if f.dirty and k == 'ret' and deref(a[0]) == 1 or f.dirty and k == 'ok' and f.qs[-1].res == 1: raise plmodel.Skip('dirty')
            if k == 'q':
                q = Q(len(self.cps), len(self.trail), f.nxt, bool(deref(a[1]))); q.mark = len(f.held)
                g = self.callable(a[2], f.who)
                f.qs.append(q)
                self.query(q, mk('call', g))
                self.got(f, q); self.script(f, a[3] if q.res == 1 else a[4])
            elif k == 'next':
                q = f.qs[-1]
                if q.res != 1: continue
                del f.held[q.mark:]
                self.query(q, None)
                if q.res == 0: self.cnt('exhausted')
                self.got(f, q); self.script(f, a[0] if q.res == 1 else a[1])
            elif k == 'loop':
                q = f.qs[-1]; n = deref(a[0])
                while n > 0 and q.res == 1:
                    n -= 1; self.script(f, a[1]); del f.held[q.mark:]; self.query(q, None); self.got(f, q)
            elif k == 'ok': self.script(f, a[0] if f.qs[-1].res == 1 else a[1])
            elif k == 'end': self.close(f, deref(a[0]).name)
            elif k == 'w': self.out('w', len(f.qs), f.watch)
            elif k == 'hold':
                if len(f.held) < 64: f.held.append(mk('h', a[0], Var()))
            elif k == 'hx':
                if f.res == 2 and len(f.held) < 64: self.cnt('kept_ball'); f.held.append(mk('h', 0, f.ball))
            elif k == 'chk': self.out('held', len(f.qs), mklist(f.held))
            elif k == 'unif':
                if not self.unify(a[0], a[1]): self.close_all(f); raise Ret(False)
            elif k == 'ret': self.close_all(f); raise Ret(bool(deref(a[0])))
            elif k == 'prop':
                if f.res == 0: self.close_all(f); raise Ret(False)
                if f.res == 2: raise PlError(f.ball)
            elif k == 'throw':
                if deref(a[0]).__class__ is Var: raise inst_error()
                if f.qs: self.cnt('left_open')
                raise PlError(a[0])
            elif k == 'err':
                t = deref(a[0])
                if f.qs and t.__class__ is not int: self.cnt('left_open')
                if t.__class__ is Var: raise PlError(mk('error', atom('instantiation_error'), f.who))
                if t.__class__ is not int: raise PlError(mk('error', mk('type_error', atom('integer'), t), f.who))
            elif k == 'exec':
                self.close_all(f); g = self.callable(a[0], f.who)
                f.cont = (mk('call', g), 0, f.nxt); raise Ret('exec')
            else: raise AssertionError(k)
    def run_script(self, l, w, name, ar):
        """what the C function returns; the goals and the place are as before"""
        f = Fr(); f.qs = []; f.held = []; f.res = 1; f.dirty = False; f.watch = w; f.nxt = self.goals; f.who = mk('/', atom(name), ar); f.cont = None
        at = self.goals_at; nxt = self.goals
        try: self.script(f, l)
        except Ret as r: v = r.v
        else:
            self.close_all(f); v = True
            if f.dirty: raise plmodel.Skip('dirty')
        finally: self.goals = nxt; self.goals_at = at
        if v == 'exec': self.goals = f.cont; self.goals_at = f.cont
        return v
    def d_sim_q(self, l, w):
        'sim_q/2'
        return bool(self.run_script(l, w, 'sim_q', 2))
    def check_un(self, x, who):
        x = deref(x)
        if x.__class__ not in (Var, int): raise PlError(mk('error', mk('type_error', atom('integer'), x), who))
    def n_sim_nd(self, l, w, x):
        'sim_nd/3'
        self.check_un(x, mk('/', atom('sim_nd'), 3))
        n = 0; s = 5; steps, tail = self.getlist(l)
        for k, st in enumerate(steps):
            n += 1; s += 10 * n
            r = self.run_script(st, w, 'sim_nd', 3)
            if r == 'exec': yield True; continue
            if r:
                self.out('nd', k, mklist([k, n, s, 0x5eed] if k < len(steps) - 1 else [k]))
                yield self.unify(x, n * 1000 + s)           # (False: what the queries kept comes first)
            else: yield False
    def d_sim_io(self, x, l, n, y, t, d, z, w):
        'sim_io/8'
        who = mk('/', atom('sim_io'), 8)
        self.check_un(x, who); n = deref(n); d = deref(d); x0 = deref(x); self.check_un(y, who)
        z0 = deref(z)
        if z0.__class__ not in (Var, float): raise PlError(mk('error', mk('type_error', atom('float'), z0), who))
        t0 = deref(t)
        r = self.run_script(l, w, 'sim_io', 8)
        if r == 'exec': return True
        if not r: return False
        isv = x0.__class__ is Var
        if isv and not self.unify(x, n + 2): return False
        if not self.unify(y, n + 1): return False
        if t0.__class__ is Var and not self.unify(t, mk('io', -1 if isv else x0, n)): return False
        return self.unify(z, d * 2)

def make(bad=()): 
    e = c11.make(bad, Eng); e.stat = {}
    return e

class Gen(c11.Gen):
    inq = 0
    def watch(self): return S('w', *([G(i) for i in range(c11.NS)] if self.p(.3) else [self.var() for _ in range(3)]))
    def end(self, rec, any_=True):
        """how a query that succeeded ends"""
        return S('end', A(self.ch('rec', 'rec', 'cut') if rec else 'cut'))
    def blk(self, d, rec, qd):
        """a block that goes on with the open query, and ends it"""
        b = []
        for _ in range(self.ch(0, 1, 1, 2, 3)):
            x = self.r.random()
            if x < .25: b.append(S('next', [A('w')] if self.p(.5) else [], self.bad(d, rec, qd)))
            elif x < .40:
                b.append(S('loop', self.ch(1, 2, 3, 9), [A('w')] if self.p(.4) else [self.q(d + 1, qd + 1)] if self.p(.5) else [S('hold', self.val()), A('chk')]))
                b.append(S('ok', [], self.bad(d, rec, qd)))
            elif x < .60: b.append(self.q(d + 1, qd + 1))
            elif x < .70: b.append(S('hold', self.val()))
            elif x < .80: b.append(A('chk'))
            elif x < .86: b.append(A('w'))
            elif x < .89: b.append(S('throw', self.ball() if self.p(.8) else self.var()))
            elif x < .92: b.append(S('err', self.val()))
            elif x < .94: b.append(S('unif', self.val(), self.val()))
            elif x < .96: b.append(S('ret', self.ch(0, 1)))
            elif x < .97: b.append(S('exec', self.goal(d + 2)))
        # after 'bad' the query may be closed: what remains is done on a query that goes on only
        out = []
        for i, c in enumerate(b):
            out.append(c)
        return out
    def bad(self, d, rec, qd):
        """after a query that failed or raised: a recoverable one restores what was, any other ends the function"""
        x = self.r.random()
        if x < .2 and qd < 2: return [A('hx')] + [c for c in (self.q2(d, qd), A('chk')) if self.p(.8)] + [S('end', A('rec' if rec and self.p(.3) else 'cut')), S('ret', 0)]
        if rec and x < .5: return [A('$rec')]
        k = self.ch('cut', 'cut', 'keep') if qd == 0 else 'cut'
        if rec and x < .65: k = 'rec'; return [S('end', A(k)), S('ret', 0)]
        return [S('end', A(k))] + self.ch([A('prop'), S('ret', 0)], [A('prop'), S('ret', 0)], [S('ret', 0)], [S('throw', A('b1'))], [S('throw', self.ball0())])
    def q2(self, d, qd):
        """a short query, on what an exception left"""
        g = self.ch(self.goal(d + 2), S(',', self.goal(d + 2), self.goal(d + 2)), self.raiser(d))
        r = self.ch(0, 1)
        return S('q', self.ch(0, 1), r, g, [S('end', A('rec' if r else 'cut'))], [A('hx'), S('end', A('rec' if r else 'cut'))])
    def raiser(self, d):
        """a goal that raises, mostly before it binds anything"""
        return self.ch(S(self.ch(',', ';', '->', '*->'), self.ball0(), self.ch(1, 7, 1.5)), S(',', self.ch(A('fail'), A('true'), self.goal(d + 2)), S('f', 1) if self.p(.2) else 3), S('throw', self.ball()), S('call', S(',', A('fail'), 4)), S('catch', S(';', A('true'), 5), A('b1'), A('true')),
            S('\\+', S(',', A('a'), 2)), S('sim_q', [S('err', self.val())], A('true')), S('atom_length', self.var(), self.var()))
    def ball0(self): return self.ch(A('b1'), A('b2'), S('f', A('a')), 5)
    def q(self, d, qd):
        """a command that opens a query and ends it"""
        rec = self.p(.6)
        okb = self.close(self.blk(d, rec, qd), rec, qd)
        bad = self.bad(d, rec, qd)
        return S('q', self.ch(0, 1), int(rec), (self.goal(d + 1) if self.p(.9) else self.raiser(d)) if self.p(.97) else self.val(), okb, self.fix(bad))
    def fix(self, b): return [S('end', A('rec')) if isinstance(c, A) and c == A('$rec') else c for c in b]
    def close(self, b, rec, qd):
        """the commands of a block nest: what follows a 'next' or an 'ok' is done when it succeeded"""
        out = []
        for i, c in enumerate(b):
            if isinstance(c, S) and c.name in ('next', 'ok'):
                good, bad = c.args
                out.append(S(c.name, list(good) + self.close(b[i + 1:], rec, qd), self.fix(bad)))
                return out
            out.append(c)
        x = self.r.random()
        if x < .3 and qd == 0: out.append(S('end', A('keep')))
        else: out.append(self.end(rec))
        return out
    def scr(self, d=0):
        b = []
        for _ in range(self.ch(1, 1, 2, 3)):
            x = self.r.random()
            if x < .70: b.append(self.q(d + 1, 0))
            elif x < .80: b.append(S('hold', self.val()))
            elif x < .86: b.append(A('chk'))
            elif x < .92: b.append(A('w'))
            elif x < .96: b.append(S('unif', self.val(), self.val()))
            else: b.append(S('err', self.val()))
        x = self.r.random()
        if x < .5: b.append(A('chk'))
        elif x < .65: b.append(A('w'))
        elif x < .72: b.append(S('exec', self.goal(d + 2)))
        elif x < .77: b.append(S('throw', self.ball()))
        elif x < .80: b.append(S('ret', self.ch(0, 1)))
        return b
    def leaf(self):
        if self.p(.12): return self.cfun(3)
        return super().leaf()
    def cfun(self, d=0):
        if d == 0 or not self.inq:
            self.inq += 1
            try: return self.cfun_(d)
            finally: self.inq -= 1
        if self.inq > 2: return super().leaf()
        self.inq += 1
        try: return self.cfun_(d)
        finally: self.inq -= 1
    def cfun_(self, d):
        x = self.r.random()
        if x < .6: return S('sim_q', self.scr(d), self.watch())
        if x < .8: return S('sim_nd', [self.scr(d) for _ in range(self.ch(1, 2, 2, 3))], self.watch(), self.ch(self.var(), self.var(), self.var(), 1015, 2035))
        return S('sim_io', self.ch(self.var(), self.var(), 3, 9), self.scr(d), self.ch(1, 7), self.ch(self.var(), self.var(), 8), self.ch(self.var(), self.var(), A('a')), self.ch(1.5, 2.0), self.ch(self.var(), V(7), 4.0), self.watch())
    def goal(self, d=0):
        if self.inq < 1 and self.p(.5): return self.cfun(d)
        return super().goal(d)
    def case(self): return self.case0(make)
def gen(rng, i): return Gen(rng).case()
def variants(t, goal):
    """smaller terms: a script without one of its commands, a goal in place of a goal that holds it"""
    if isinstance(t, S):
        if goal and t.name not in ('sim_logt',):
            yield A('true')
            for x in t.args:
                if isinstance(x, S): yield x
        for i, x in enumerate(t.args):
            for y in variants(x, goal or t.name in ('q', 'exec') or t.name in ('do', 'raw', 'open', 'call', ',', ';', '->', '*->', 'catch', 'x_two')):
                yield S(t.name, *(t.args[:i] + (y,) + t.args[i + 1:] if isinstance(t.args, tuple) else list(t.args[:i]) + [y] + list(t.args[i + 1:])))
    elif isinstance(t, list):
        for i in range(len(t)): yield t[:i] + t[i + 1:]
        for i, x in enumerate(t):
            for y in variants(x, False): yield t[:i] + [y] + t[i + 1:]
def reduce(case):
    for i, o in enumerate(case['ops']):
        for t in variants(dec(o), False):
            c = dict(case); c['ops'] = list(case['ops']); c['ops'][i] = enc(t); yield c
def mk_(case): return lambda: make(c11.bads(case))
def judge(case, r, probes):
    e = nd.judge(case, r, probes, mk_(case), ID)
    if e:
        if e.failed: probes['open_failed'] = 1
        for k, v in e.stat.items(): probes[k] = probes.get(k, 0) + v
def excused(case): return nd.excused(case, mk_(case))
def nontrivial(case, rs): return any('Ssim_q/' in o or 'Ssim_nd/' in o or 'Ssim_io/' in o for o in case['ops'])
